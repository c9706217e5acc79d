// Symbolic executor for LLVM IR: program representation, state, memory.
#pragma once
#include "expr.h"
#include "solver.h"
#include <deque>
#include <set>
#include <unordered_set>

#include <llvm/ADT/SmallVector.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

struct Val
{
    Expr* e = nullptr;
    std::shared_ptr<std::vector<Val>> a;
    Val() {}
    Val(Expr* x): e(x) {}
    bool isNull() const { return !e && !a; }
    static Val agg(std::vector<Val>&& v) { Val r; r.a = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
};

struct Cell { Expr* e; u8 n; };
struct Obj
{
    u64 size = 0; bool ro = false; u8 fill = 0; char kind = 'g'; // g global, s stack, h heap
    std::shared_ptr<std::vector<u8>> img; // concrete initial contents (may be null: 'fill')
    std::map<u32, Cell> cells;
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo;
struct BlockInfo
{
    llvm::BasicBlock* bb; int rpo = 0; int idx = 0;
    std::vector<int> loops; // loop ids from outermost to innermost
    bool join = false; bool pureLoop = false;
    std::vector<u64> liveIn; // bitset over slots (includes phi results)
    struct Ins
    {
        llvm::Instruction* I; int dst = -1; llvm::SmallVector<int, 4> ops; // >=0 slot; <0: constant index -(k+1)
        int liveAfter = -1;
    };
    std::vector<Ins> ins; int nPhi = 0;
};
struct LoopInfoX { int header; int rpo; bool pure; std::vector<bool> blocks; };
struct FnInfo
{
    llvm::Function* F; int id; int nSlots = 0; bool pure = false; u64 calls = 0;
    std::vector<BlockInfo> blocks; std::unordered_map<llvm::BasicBlock*, int> bi;
    std::vector<LoopInfoX> loops; std::vector<Val> consts;
    std::vector<std::vector<u64>> liveAfterSets; std::string name; u64 nIns = 0;
};

struct Frame
{
    FnInfo* f = nullptr; int block = 0, ip = 0, prev = -1; int pathId = 0;
    std::vector<Val> regs;
    std::vector<std::pair<int, u32>> loopIter;
    std::vector<u32> allocas; // object ids
};

struct State
{
    std::vector<std::shared_ptr<Frame>> fr;
    std::map<u32, ObjP> mem;
    std::vector<Expr*> pc; // sorted by id
    std::map<int, Expr*> dom;
    std::vector<Expr*> outs;
    u32 symCount = 0; u64 steps = 0; u32 forks = 0;
    bool mergeable = false;
    u64 id = 0; int prio = 0;
    Frame& top()
    {
        auto& p = fr.back();
        if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
        return *p;
    }
};
