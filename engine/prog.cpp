// Program preparation: linking bitcode, laying out globals, per-function precomputation.
#include "prog.h"
#include "run.h"
#include <algorithm>
#include <llvm/IR/CFG.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

using namespace llvm;

Prog P;
static LLVMContext ctx;

std::string demangleName(const std::string& n) { return llvm::demangle(n); }

u64 Prog::addrOf(const GlobalValue* g)
{
    if (auto* a = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(a->getAliaseeObject()));
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (opt.poolStrings)
        // string literals share one object, so that a pointer to one of many literals is a plain function of its inputs
        if (auto* v = dyn_cast<GlobalVariable>(g); v && v->isConstant() && v->hasLocalLinkage() && v->hasGlobalUnnamedAddr() && v->hasInitializer())
            if (auto* d = dyn_cast<ConstantDataArray>(v->getInitializer()); d && d->getType()->getElementType()->isIntegerTy(8))
            {
                if (!poolObj)
                {
                    poolObj = nextObj++;
                    auto o = std::make_shared<Obj>(); o->ro = true; o->name = "string literals"; o->img = std::make_shared<std::vector<u8>>();
                    base[poolObj] = o;
                }
                auto& o = *base[poolObj]; StringRef s = d->getRawDataValues();
                u64 ad = ((u64) poolObj << 32) + o.size;
                o.img->insert(o.img->end(), s.begin(), s.end()); o.size = o.img->size();
                return gaddr[g] = ad;
            }
    u32 id = nextObj++;
    u64 ad = (u64) id << 32;
    gaddr[g] = ad;
    if (isa<Function>(g)) { fnAddr[ad] = const_cast<Function*>(cast<Function>(g)); return ad; }
    auto* v = cast<GlobalVariable>(g);
    auto o = std::make_shared<Obj>();
    o->size = DL->getTypeAllocSize(v->getValueType()); o->ro = v->isConstant(); o->kind = 'g'; o->name = v->getName().str();
    base[id] = o;
    if (v->hasInitializer())
    {
        const Constant* c = v->getInitializer();
        if (!c->isNullValue())
        {
            o->img = std::make_shared<std::vector<u8>>(o->size, 0);
            writeConst(*o->img, 0, c);
        }
    }
    else
    {
        if (o->name.find("7unicode") != std::string::npos) fail("unsupported external variable " + o->name);
        o->img = nullptr; o->fill = 0; o->name += " (external)";
    }
    return ad;
}

void Prog::writeConst(std::vector<u8>& img, u64 off, const Constant* c)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || c->isNullValue()) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef s = d->getRawDataValues();
        memcpy(img.data() + off, s.data(), s.size());
        return;
    }
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        unsigned n = (unsigned) DL->getTypeStoreSize(t); APInt v = ci->getValue();
        for (unsigned i = 0; i < n; i++) img[off + i] = (u8) (v.lshr(std::min<unsigned>(i * 8, v.getBitWidth() - 1)).getRawData()[0] & (i * 8 >= v.getBitWidth() ? 0 : 0xFF));
        return;
    }
    if (auto* fp = dyn_cast<ConstantFP>(c))
    {
        APInt v = fp->getValueAPF().bitcastToAPInt();
        for (unsigned i = 0; i < v.getBitWidth() / 8; i++) img[off + i] = (u8) v.lshr(i * 8).getRawData()[0];
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c))
    {
        u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(img, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c))
    {
        const StructLayout* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(img, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* cv = dyn_cast<ConstantVector>(c))
    {
        u64 es = DL->getTypeAllocSize(cv->getType()->getElementType());
        for (unsigned i = 0; i < cv->getNumOperands(); i++) writeConst(img, off + i * es, cv->getOperand(i));
        return;
    }
    // pointers and constant expressions
    u64 v = constU64(c); unsigned n = (unsigned) DL->getTypeStoreSize(t);
    for (unsigned i = 0; i < n; i++) img[off + i] = (u8) (v >> (8 * i));
}

u64 Prog::constU64(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getLimitedValue();
    if (c->isNullValue() || isa<UndefValue>(c)) return 0;
    if (auto* g = dyn_cast<GlobalValue>(c)) return addrOf(g);
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fail("const gep");
                return constU64(ce->getOperand(0)) + off.getSExtValue();
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constU64(ce->getOperand(0));
            case Instruction::Trunc: return constU64(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
            case Instruction::Sub: return constU64(ce->getOperand(0)) - constU64(ce->getOperand(1));
            case Instruction::Add: return constU64(ce->getOperand(0)) + constU64(ce->getOperand(1));
            default: break;
        }
        fail("unsupported constant expression opcode " + std::string(ce->getOpcodeName()));
    }
    if (auto* e = dyn_cast<DSOLocalEquivalent>(c)) return addrOf(e->getGlobalValue());
    fail("unsupported constant");
}

unsigned Prog::bitsOf(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    fail("bitsOf: not a scalar");
}

Val Prog::zeroOf(Type* t)
{
    if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e: st->elements()) v.push_back(zeroOf(e)); return Val::agg(std::move(v)); }
    if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v(at->getNumElements(), zeroOf(at->getElementType())); return Val::agg(std::move(v)); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v(vt->getNumElements(), zeroOf(vt->getElementType())); return Val::agg(std::move(v)); }
    unsigned w = bitsOf(t);
    if (w > 64) { std::vector<Val> v; while (w) { unsigned c = std::min(64u, w); v.push_back(mkC(0, c)); w -= c; } return Val::agg(std::move(v)); }
    return mkC(0, w);
}

Val Prog::constVal(const Constant* c)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || c->isNullValue()) { if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return Val(); return zeroOf(t); }
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64)
    {
        auto* ci = dyn_cast<ConstantInt>(c); if (!ci) fail("wide constant");
        std::vector<Val> v; unsigned w = t->getIntegerBitWidth(), o = 0;
        while (o < w) { unsigned n = std::min(64u, w - o); v.push_back(mkC(ci->getValue().extractBitsAsZExtValue(n, o), n)); o += n; }
        return Val::agg(std::move(v));
    }
    if (t->isIntegerTy() || t->isPointerTy()) return mkC(constU64(c), bitsOf(t));
    if (auto* fp = dyn_cast<ConstantFP>(c)) return mkC(fp->getValueAPF().bitcastToAPInt().getZExtValue(), bitsOf(t));
    if (t->isVectorTy() || t->isArrayTy() || t->isStructTy())
    {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned) t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        std::vector<Val> v;
        for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
        return Val::agg(std::move(v));
    }
    fail("unsupported constant value");
}

static bool loopPure(Loop* L)
{
    for (BasicBlock* b: L->blocks())
        for (Instruction& i: *b)
        {
            if (auto* ii = dyn_cast<IntrinsicInst>(&i)) if (ii->isAssumeLikeIntrinsic()) continue;
            if (i.mayWriteToMemory()) return false;
        }
    return true;
}

FnInfo* Prog::info(Function* F)
{
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    auto* f = new FnInfo; f->F = F; f->id = (int) fns.size() + 1; fns[F] = f; f->name = demangleName(F->getName().str());
    f->pure = F->doesNotAccessMemory() && !F->getReturnType()->isVoidTy();
    DominatorTree DT(*F); llvm::LoopInfo LI(DT);
    std::unordered_map<const Value*, int> slot;
    for (auto& a: F->args()) slot[&a] = f->nSlots++;
    // RPO
    std::vector<BasicBlock*> po; std::unordered_set<BasicBlock*> seen;
    {
        std::vector<std::pair<BasicBlock*, unsigned>> st; st.push_back({ &F->getEntryBlock(), 0 }); seen.insert(&F->getEntryBlock());
        while (!st.empty())
        {
            auto& [b, i] = st.back();
            auto* t = b->getTerminator();
            if (i < t->getNumSuccessors()) { BasicBlock* s = t->getSuccessor(i++); if (seen.insert(s).second) st.push_back({ s, 0 }); }
            else { po.push_back(b); st.pop_back(); }
        }
    }
    std::reverse(po.begin(), po.end());
    for (size_t i = 0; i < po.size(); i++) { BlockInfo b; b.bb = po[i]; b.rpo = (int) i; b.idx = (int) i; f->bi[po[i]] = (int) i; f->blocks.push_back(std::move(b)); }
    std::unordered_map<Loop*, int> lid;
    for (auto& b: f->blocks)
    {
        std::vector<Loop*> ls; for (Loop* L = LI.getLoopFor(b.bb); L; L = L->getParentLoop()) ls.push_back(L);
        std::reverse(ls.begin(), ls.end());
        for (Loop* L: ls)
        {
            if (!lid.count(L))
            {
                LoopInfoX x; x.header = f->bi[L->getHeader()]; x.rpo = x.header; x.pure = loopPure(L); x.blocks.resize(f->blocks.size());
                for (BasicBlock* q: L->blocks()) if (f->bi.count(q)) x.blocks[f->bi[q]] = true;
                lid[L] = (int) f->loops.size(); f->loops.push_back(std::move(x));
            }
            b.loops.push_back(lid[L]);
        }
    }
    for (auto& b: f->blocks) for (auto& i: *b.bb) if (!i.getType()->isVoidTy()) slot[&i] = f->nSlots++;
    std::unordered_map<const Value*, int> cidx;
    for (auto& b: f->blocks)
    {
        for (auto& i: *b.bb)
        {
            if (auto* ii = dyn_cast<IntrinsicInst>(&i))
            {
                auto id = ii->getIntrinsicID();
                if (id == Intrinsic::dbg_value || id == Intrinsic::dbg_declare || id == Intrinsic::dbg_label || id == Intrinsic::assume || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue;
            }
            BlockInfo::Ins x; x.I = &i; f->nIns++;
            if (!i.getType()->isVoidTy()) x.dst = slot[&i];
            for (Value* o: i.operands())
            {
                if (auto s = slot.find(o); s != slot.end()) x.ops.push_back(s->second);
                else if (auto* c = dyn_cast<Constant>(o))
                {
                    auto q = cidx.find(c);
                    if (q == cidx.end()) { f->consts.push_back(c->getType()->isPointerTy() || !isa<Function>(c) ? constVal(c) : Val()); q = cidx.emplace(c, (int) f->consts.size() - 1).first; }
                    x.ops.push_back(-(q->second + 1));
                }
                else x.ops.push_back(INT32_MIN);
            }
            if (isa<PHINode>(i)) b.nPhi++;
            b.ins.push_back(std::move(x));
        }
        unsigned np = 0; for (auto* p: predecessors(b.bb)) { (void) p; np++; }
        b.join = np > 1;
        for (int l: b.loops) if (f->loops[l].pure) b.pureLoop = true;
        for (auto* p: predecessors(b.bb)) if (f->bi.count(p)) for (int l: f->blocks[f->bi[p]].loops) if (f->loops[l].pure) b.pureLoop = true;
    }
    // pureLoop by predecessor needs the loops of all blocks: recompute
    for (auto& b: f->blocks) for (auto* p: predecessors(b.bb)) if (f->bi.count(p)) for (int l: f->blocks[f->bi[p]].loops) if (f->loops[l].pure) b.pureLoop = true;
    // liveness (slots); liveIn of a block = live after its phis
    size_t words = (f->nSlots + 63) / 64;
    std::vector<std::vector<u64>> liveOut(f->blocks.size(), std::vector<u64>(words, 0));
    std::vector<std::vector<u64>> liveTop(f->blocks.size(), std::vector<u64>(words, 0)); // before phis, excluding phi uses
    for (auto& b: f->blocks) b.liveIn.assign(words, 0);
    auto set = [](std::vector<u64>& v, int s) { v[s / 64] |= 1ull << (s % 64); };
    auto clr = [](std::vector<u64>& v, int s) { v[s / 64] &= ~(1ull << (s % 64)); };
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t bi = f->blocks.size(); bi-- > 0;)
        {
            auto& b = f->blocks[bi];
            std::vector<u64> live(words, 0);
            for (auto* s: successors(b.bb))
            {
                int si = f->bi[s]; auto& sb = f->blocks[si];
                for (size_t q = 0; q < words; q++) live[q] |= liveTop[si][q];
                for (int p = 0; p < sb.nPhi; p++)
                {
                    auto* ph = cast<PHINode>(sb.ins[p].I);
                    int k = ph->getBasicBlockIndex(b.bb);
                    if (k >= 0 && sb.ins[p].ops[k] >= 0) set(live, sb.ins[p].ops[k]);
                }
            }
            liveOut[bi] = live;
            for (size_t q = b.ins.size(); q-- > (size_t) b.nPhi;)
            {
                auto& x = b.ins[q];
                if (x.dst >= 0) clr(live, x.dst);
                for (int o: x.ops) if (o >= 0) set(live, o);
            }
            if (live != b.liveIn) { b.liveIn = live; ch = true; }
            for (int p = 0; p < b.nPhi; p++) clr(live, b.ins[p].dst);
            if (live != liveTop[bi]) { liveTop[bi] = live; ch = true; }
        }
    }
    // liveness after each call
    for (size_t bi = 0; bi < f->blocks.size(); bi++)
    {
        auto& b = f->blocks[bi]; auto live = liveOut[bi];
        for (size_t q = b.ins.size(); q-- > (size_t) b.nPhi;)
        {
            auto& x = b.ins[q];
            if (isa<CallBase>(x.I)) { x.liveAfter = (int) f->liveAfterSets.size(); f->liveAfterSets.push_back(live); }
            if (x.dst >= 0) clr(live, x.dst);
            for (int o: x.ops) if (o >= 0) set(live, o);
        }
    }
    return f;
}

// Instructions that read the processor's identity (cpuid, xgetbv) become calls of the harness's model, if it has one.
void Prog::modelHardware()
{
    Function *cpuid = M->getFunction("vf_cpuid"), *xgetbv = M->getFunction("vf_xgetbv");
    std::vector<CallInst*> calls;
    for (auto& F: *M) for (auto& B: F) for (auto& I: B) if (auto* c = dyn_cast<CallInst>(&I)) calls.push_back(c);
    for (auto* c: calls)
    {
        std::string s; bool intrinsic = false;
        if (c->isInlineAsm()) s = cast<InlineAsm>(c->getCalledOperand())->getAsmString();
        else if (auto* f = c->getCalledFunction(); f && f->getName() == "llvm.x86.xgetbv") { s = "xgetbv"; intrinsic = true; }
        bool const isId = s.find("cpuid") != std::string::npos, isXcr = s.find("xgetbv") != std::string::npos;
        Function* h = isId ? cpuid : isXcr ? xgetbv : nullptr;
        if (!h || c->arg_size() < 1) continue;
        IRBuilder<> b(c); Type* i32 = b.getInt32Ty(); Value* r = nullptr;
        auto arg = [&](unsigned k) -> Value* { return k < c->arg_size() ? b.CreateZExtOrTrunc(c->getArgOperand(k), i32) : b.getInt32(0); };
        auto call = [&](ArrayRef<Value*> a) -> Value* { return b.CreateCall(h, a); };
        if (intrinsic)
            r = b.CreateOr(b.CreateZExt(call({ arg(0), b.getInt32(0) }), b.getInt64Ty()), b.CreateShl(b.CreateZExt(call({ arg(0), b.getInt32(1) }), b.getInt64Ty()), 32));
        else if (auto* st = dyn_cast<StructType>(c->getType()))
        {
            if (st->getNumElements() != (isId ? 4u : 2u)) continue;
            r = UndefValue::get(st);
            for (unsigned k = 0; k < st->getNumElements(); k++)
                r = b.CreateInsertValue(r, b.CreateZExtOrTrunc(isId ? call({ arg(0), arg(1), b.getInt32(k) }) : call({ arg(0), b.getInt32(k) }), st->getElementType(k)), k);
        }
        else continue;
        c->replaceAllUsesWith(r); c->eraseFromParent();
    }
}

void Prog::load(const std::vector<std::string>& files)
{
    for (auto& fn: files)
    {
        SMDiagnostic err;
        auto m = parseIRFile(fn, err, ctx);
        if (!m) fail("cannot parse " + fn + ": " + err.getMessage().str());
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) fail("link error in " + fn);
    }
    DL = &M->getDataLayout();
    modelHardware();
}
