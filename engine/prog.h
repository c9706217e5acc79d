#pragma once
#include "exec.h"
struct Prog
{
    std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL = nullptr;
    std::unordered_map<const llvm::GlobalValue*, u64> gaddr;
    std::unordered_map<u64, llvm::Function*> fnAddr;
    std::unordered_map<u32, ObjP> base;
    std::unordered_map<llvm::Function*, FnInfo*> fns;
    u32 nextObj = 1, poolObj = 0;
    void load(const std::vector<std::string>& files);
    void modelHardware();
    u64 addrOf(const llvm::GlobalValue* g);
    void writeConst(std::vector<u8>& img, u64 off, const llvm::Constant* c);
    u64 constU64(const llvm::Constant* c);
    unsigned bitsOf(llvm::Type* t);
    Val zeroOf(llvm::Type* t);
    Val constVal(const llvm::Constant* c);
    FnInfo* info(llvm::Function* F);
};
extern Prog P;
std::string demangleName(const std::string& n);
