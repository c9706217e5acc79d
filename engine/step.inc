// included by exec.cpp: instruction semantics

enum class St { Next, Gone /* state was enqueued, finished or killed */, Jump };

static const Val& opv(Frame& f, const BlockInfo::Ins& x, unsigned i)
{
    int o = x.ops[i];
    if (o >= 0) { const Val& v = f.regs[o]; if (v.isNull()) fail("internal: use of an unset register in " + f.f->name); return v; }
    if (o == INT32_MIN) fail("unsupported operand kind in " + f.f->name);
    return f.f->consts[-o - 1];
}
static Expr* ope(Frame& f, const BlockInfo::Ins& x, unsigned i)
{
    const Val& v = opv(f, x, i);
    if (!v.e) fail("scalar operand expected in " + f.f->name);
    return v.e;
}

static Expr* asW(Expr* e, unsigned w) { return e->w < w ? mkZext(e, w) : e->w > w ? mkTrunc(e, w) : e; }

static bool checkAccess(State* S, u64 addr, u64 n, bool write, bool& kill)
{
    ObjP o = findObj(S, (u32) (addr >> 32)); u64 off = addr & 0xFFFFFFFF;
    kill = false;
    if (!o || off + n > o->size || (write && o->ro))
    {
        std::string what = !o ? (addr < 0x100000000ull ? "access through a null or invalid pointer" : "access to a dead or invalid object") : write && o->ro && off + n <= o->size ? "write to constant memory" : "out-of-bounds access to a " + std::string(o->kind == 'h' ? "heap" : o->kind == 's' ? "stack" : "global") + " object";
        checkViolation(S, mkB(true), "memory", what);
        kill = true; return false;
    }
    return true;
}

static St loadT(State* S, Frame& f, int dst, Type* t, Expr* addr)
{
    std::vector<unsigned> w; widthsOf(t, w);
    bool simple = !t->isStructTy() && !t->isArrayTy() && !t->isVectorTy() && w.size() == 1;
    if (simple)
    {
        unsigned n = (w[0] + 7) / 8;
        if (!R->pure) addr = underDomains(S, addr);
        Expr* r;
        if (addr->isConst())
        {
            bool kill; if (!checkAccess(S, addr->c, n, false, kill)) return St::Gone;
            ObjP o = findObj(S, (u32) (addr->c >> 32));
            r = loadCells(*o, addr->c & 0xFFFFFFFF, n);
        }
        else
        {
            std::vector<u64> dv;
            LoadRes lr; int budget = 600; std::unordered_map<Expr*, LoadRes> memo;
            if (addr->uvar >= 0 && distinctVals(addr, domOf(S, addr->uvar), 1, dv) && dv.size() == 1)
            {
                bool kill; if (!checkAccess(S, dv[0], n, false, kill)) return St::Gone;
                ObjP o = findObj(S, (u32) (dv[0] >> 32));
                r = loadCells(*o, dv[0] & 0xFFFFFFFF, n);
            }
            else if (symLoad(S, addr, n, lr, budget, memo))
            {
                if (!lr.bad->isFalse() && !checkViolation(S, lr.bad, "memory", "out-of-bounds read")) return St::Gone;
                r = lr.v;
            }
            else
            {
                u64 a; if (!concretise(S, addr, a)) return St::Gone;
                bool kill; if (!checkAccess(S, a, n, false, kill)) return St::Gone;
                ObjP o = findObj(S, (u32) (a >> 32));
                r = loadCells(*o, a & 0xFFFFFFFF, n);
            }
        }
        if (r->w > w[0]) r = mkTrunc(r, w[0]);
        f.regs[dst] = Val(r);
        return St::Next;
    }
    u64 a; if (!concretise(S, addr, a)) return St::Gone;
    u64 total = P.DL->getTypeStoreSize(t);
    bool kill; if (!checkAccess(S, a, total, false, kill)) return St::Gone;
    ObjP o = findObj(S, (u32) (a >> 32)); u64 off = a & 0xFFFFFFFF;
    std::function<Val(Type*, u64)> ld = [&](Type* ty, u64 p) -> Val {
        if (auto* st = dyn_cast<StructType>(ty)) { std::vector<Val> v; auto* sl = P.DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(ld(st->getElementType(i), p + sl->getElementOffset(i))); return Val::agg(std::move(v)); }
        if (auto* at = dyn_cast<ArrayType>(ty)) { std::vector<Val> v; u64 es = P.DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(ld(at->getElementType(), p + i * es)); return Val::agg(std::move(v)); }
        if (auto* vt = dyn_cast<FixedVectorType>(ty))
        {
            unsigned eb = P.bitsOf(vt->getElementType());
            if (eb % 8) { std::vector<Expr*> by; for (u64 i = 0; i < P.DL->getTypeStoreSize(ty); i++) by.push_back(loadCells(*o, p + i, 1)); std::vector<unsigned> ww(vt->getNumElements(), eb); auto r = regroup(by, ww); std::vector<Val> v; for (auto* e: r) v.push_back(e); return Val::agg(std::move(v)); }
            std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(Val(loadCells(*o, p + i * eb / 8, eb / 8))); return Val::agg(std::move(v));
        }
        unsigned b = P.bitsOf(ty);
        if (b > 64) { std::vector<Val> v; u64 q = p; while (b) { unsigned c = std::min(64u, b); Expr* e = loadCells(*o, q, (c + 7) / 8); v.push_back(Val(e->w > c ? mkTrunc(e, c) : e)); q += 8; b -= c; } return Val::agg(std::move(v)); }
        Expr* e = loadCells(*o, p, (b + 7) / 8);
        return Val(e->w > b ? mkTrunc(e, b) : e);
    };
    f.regs[dst] = ld(t, off);
    return St::Next;
}

static void storeAt(State* S, u32 id, u64 off, Type* ty, const Val& v)
{
    if (auto* st = dyn_cast<StructType>(ty)) { auto* sl = P.DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeAt(S, id, off + sl->getElementOffset(i), st->getElementType(i), (*v.a)[i]); return; }
    if (auto* at = dyn_cast<ArrayType>(ty)) { u64 es = P.DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeAt(S, id, off + i * es, at->getElementType(), (*v.a)[i]); return; }
    Obj& o = objW(S, id);
    if (auto* vt = dyn_cast<FixedVectorType>(ty))
    {
        unsigned eb = P.bitsOf(vt->getElementType());
        if (eb % 8)
        {
            std::vector<Expr*> ps; flattenVal(v, ps); u64 n = P.DL->getTypeStoreSize(ty); unsigned have = eb * vt->getNumElements();
            if (have < n * 8) ps.push_back(mkC(0, (unsigned) (n * 8 - have)));
            auto r = regroup(ps, std::vector<unsigned>(n, 8)); for (u64 i = 0; i < n; i++) storeCells(o, off + i, 1, r[i]);
            return;
        }
        for (unsigned i = 0; i < vt->getNumElements(); i++) storeCells(o, off + i * eb / 8, eb / 8, (*v.a)[i].e);
        return;
    }
    unsigned b = P.bitsOf(ty);
    if (b > 64) { u64 q = off; for (auto& c: *v.a) { unsigned n = (c.e->w + 7) / 8; storeCells(o, q, n, asW(c.e, n * 8)); q += 8; } return; }
    unsigned n = (b + 7) / 8;
    storeCells(o, off, n, asW(v.e, n * 8));
}

struct Piece { u64 off; unsigned n; Expr* e; };
static void readPieces(const Obj& o, u64 off, u64 n, std::vector<Piece>& out)
{
    u64 p = off;
    while (p < off + n)
    {
        auto c = o.cells.find((u32) p);
        if (c != o.cells.end() && p + c->second.n <= off + n) { out.push_back({ p - off, c->second.n, c->second.e }); p += c->second.n; continue; }
        if (anyCells(o, p, 1)) { out.push_back({ p - off, 1, byteOf(o, p) }); p++; continue; }
        unsigned k = 8; while (k > 1 && ((p % k) || p + k > off + n || anyCells(o, p, k))) k /= 2;
        u64 v = 0; for (unsigned i = 0; i < k; i++) v |= (u64) (o.img ? (*o.img)[p + i] : o.fill) << (8 * i);
        out.push_back({ p - off, k, mkC(v, k * 8) }); p += k;
    }
}

static u32 newObject(State* S, u32 id, u64 size, char kind, const std::string& name)
{
    auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->fill = 0xAA; o->name = name;
    S->mem[id] = o; return id;
}

static void finish(State* S, const Val& ret)
{
    if (R->pure) { R->results.push_back({ mkAndN(S->pc), ret }); delete S; return; }
    rep.paths++;
    R->finished.push_back(S);
    S->fr.clear(); S->mem.clear();
}

static bool enterBlock(State* S, BasicBlock* to)
{
    Frame& f = S->top();
    int t = f.f->bi[to]; BlockInfo& B = f.f->blocks[t];
    BasicBlock* from = f.f->blocks[f.block].bb;
    // phis
    if (B.nPhi)
    {
        llvm::SmallVector<Val, 8> nv;
        for (int i = 0; i < B.nPhi; i++)
        {
            auto* ph = cast<PHINode>(B.ins[i].I);
            nv.push_back(opv(f, B.ins[i], (unsigned) ph->getBasicBlockIndex(from)));
        }
        for (int i = 0; i < B.nPhi; i++) f.regs[B.ins[i].dst] = nv[i];
    }
    std::vector<std::pair<int, u32>> li;
    for (size_t i = 0; i < B.loops.size(); i++)
    {
        int l = B.loops[i];
        bool had = i < f.loopIter.size() && f.loopIter[i].first == l && (li.size() == i) && (i == 0 || li[i - 1].second == f.loopIter[i - 1].second);
        if (!had) { li.push_back({ l, 0 }); continue; }
        u32 it = f.loopIter[i].second;
        if (f.f->loops[l].header == t) it++;
        li.push_back({ l, it });
        if (it > opt.maxIter)
        {
            checkViolation(S, mkB(true), "nontermination", "loop exceeds the iteration limit");
            return false;
        }
    }
    f.loopIter.swap(li);
    f.prev = f.block; f.block = t; f.ip = B.nPhi;
    return true;
}

// continue inline if nothing else is pending, otherwise queue
static St arrive(State* S, bool mergePoint)
{
    if (R->wl.empty()) return St::Jump;
    enqueue(S, mergePoint);
    return St::Gone;
}

static void pushFrame(State* S, FnInfo* fi, const std::vector<Val>& args, const void* site, CallBase* cb)
{
    int parent = S->fr.empty() ? 0 : S->fr.back()->pathId;
    auto n = std::make_shared<Frame>();
    n->f = fi; n->regs.resize(fi->nSlots); n->pathId = pathOf(parent, site); fi->calls++;
    size_t i = 0;
    for (auto& a: fi->F->args())
    {
        Val v = i < args.size() ? args[i] : P.zeroOf(a.getType());
        if (cb && i < cb->arg_size() && cb->isByValArgument((unsigned) i) && v.e && v.e->isConst())
        {
            Type* t = cb->getParamByValType((unsigned) i); u64 sz = P.DL->getTypeAllocSize(t);
            u32 id = dynId({ 'b', (u64) n->pathId, i });
            newObject(S, id, sz, 's', "byval");
            ObjP src = findObj(S, (u32) (v.e->c >> 32));
            if (src && (v.e->c & 0xFFFFFFFF) + sz <= src->size) { std::vector<Piece> ps; readPieces(*src, v.e->c & 0xFFFFFFFF, sz, ps); Obj& o = objW(S, id); for (auto& p: ps) storeCells(o, p.off, p.n, p.e); }
            n->allocas.push_back(id); v = Val(mkC((u64) id << 32, 64));
        }
        n->regs[i] = v;
        i++;
    }
    S->fr.push_back(n);
}

static St doReturn(State* S, const Val& ret)
{
    Frame& f = *S->fr.back();
    for (u32 a: f.allocas) S->mem.erase(a);
    S->fr.pop_back();
    if (S->fr.size() == 0) { finish(S, ret); return St::Gone; }
    Frame& c = S->top();
    auto& B = c.f->blocks[c.block]; auto& x = B.ins[c.ip];
    if (x.dst >= 0) c.regs[x.dst] = ret;
    if (auto* inv = dyn_cast<InvokeInst>(x.I))
    {
        if (!enterBlock(S, inv->getNormalDest())) { delete S; return St::Gone; }
        return arrive(S, true);
    }
    c.ip++;
    return arrive(S, true);
}

// ------------------------------------------------------------------ pure calls
struct PureMemo { Val v; std::vector<Run::V> viol; bool none = false; bool failed = false; };
static std::map<std::pair<FnInfo*, std::vector<u32>>, PureMemo> pureMemo;
static void runLoop();

static PureMemo& pureExec(FnInfo* f, std::vector<Val>& args, int depth)
{
    std::vector<Expr*> flat; for (auto& a: args) flattenVal(a, flat);
    std::vector<u32> key; for (auto* e: flat) key.push_back(e->id);
    auto k = std::make_pair(f, key);
    auto it = pureMemo.find(k);
    if (it != pureMemo.end()) { gPureHits++; return it->second; }
    PureMemo res;
    // distribute over if-then-else arguments
    if (depth < 12)
        for (size_t i = 0; i < args.size(); i++)
        {
            Expr* e = args[i].e;
            Expr* t = e && e->op == E_ITE && e->w > 1 ? e : e && e->uvar == -2 && e->op != E_CONST ? findIte(e, 4) : nullptr;
            if (!t) continue;
            std::vector<Val> x = args, y = args;
            for (size_t j = 0; j < args.size(); j++)
            {
                if (!args[j].e || args[j].e->op == E_CONST || args[j].e->op == E_UN) continue;
                std::unordered_map<Expr*, Expr*> m1, m2;
                x[j] = Val(substitute(args[j].e, t, t->k[1], m1)); y[j] = Val(substitute(args[j].e, t, t->k[2], m2));
                if (args[j].e->op == E_ITE && args[j].e->k[0] == t->k[0]) { x[j] = Val(args[j].e->k[1]); y[j] = Val(args[j].e->k[2]); }
            }
            PureMemo a = pureExec(f, x, depth + 1), b = pureExec(f, y, depth + 1);
            if (a.failed || b.failed) { res.failed = true; return pureMemo[k] = res; }
            if (a.none && b.none) res.none = true;
            else if (a.none) res.v = b.v;
            else if (b.none) res.v = a.v;
            else { MergeCtx mc { t->k[0], true, true }; res.v = mc.m(a.v, b.v); }
            for (auto& v: a.viol) { auto w = v; w.cond = mkAnd(t->k[0], v.cond); res.viol.push_back(w); }
            for (auto& v: b.viol) { auto w = v; w.cond = mkAnd(mkNot(t->k[0]), v.cond); res.viol.push_back(w); }
            return pureMemo[k] = res;
        }
    gPureCalls++;
    Run sub; sub.pure = true; Run* old = R; R = &sub;
    State* S = new State; S->id = ++stateSeq;
    pushFrame(S, f, args, f, nullptr);
    try
    {
        R->wl[keyOf(S)].push_back(S);
        runLoop();
    }
    catch (EngineError& e)
    {
        R = old;
        if (opt.verbose) fprintf(stderr, "[pure call to %s not summarised: %s]\n", f->name.c_str(), e.what());
        res.failed = true; return pureMemo[k] = res;
    }
    catch (...) { R = old; throw; }
    R = old;
    res.viol = sub.viol;
    if (sub.results.empty()) res.none = true;
    else
    {
        // equal values share one guard
        Val v = sub.results.back().second;
        for (size_t i = sub.results.size() - 1; i-- > 0;) { MergeCtx mc { sub.results[i].first, true, true }; v = mc.m(sub.results[i].second, v); }
        res.v = v;
    }
    return pureMemo[k] = res;
}

static std::string cstrAt(State* S, Expr* p)
{
    if (!p->isConst()) return "?";
    ObjP o = findObj(S, (u32) (p->c >> 32)); u64 off = p->c & 0xFFFFFFFF; std::string s;
    while (o && off < o->size && s.size() < 300) { Expr* b = byteOf(*o, off++); if (!b->isConst() || !b->c) break; s += (char) b->c; }
    return s;
}

static std::map<std::array<u64, 3>, Var*> symTable;
static Expr* symFor(State* S, u64 lo, u64 hi, unsigned rawBits)
{
    std::array<u64, 3> k { S->symCount, rawBits ? ~0ull : lo, rawBits ? rawBits : hi };
    u64 ord = S->symCount++;
    if (!rawBits && lo == hi) return mkC(lo, 64);
    auto& v = symTable[k];
    if (!v)
    {
        std::string nm = "s" + std::to_string(ord);
        v = rawBits ? newRaw(rawBits, nm) : newFinite(lo, hi, 64, nm);
        symVars.push_back({ ord, rawBits ? 0 : lo, rawBits ? maskw(rawBits) : hi, v });
    }
    return v->node;
}

static Expr* ctpopE(Expr* x)
{
    if (x->uvar >= -1 && x->uvar != -2) return mapUnary(x, x->w, [](u64 v) { return (u64) __builtin_popcountll(v); });
    Expr* s = mkC(0, x->w); for (unsigned i = 0; i < x->w; i++) s = mkBin(E_ADD, s, mkZext(mkExtract(x, i, 1), x->w));
    return s;
}
static Expr* cttzE(Expr* x, bool lead)
{
    unsigned w = x->w;
    if (x->uvar != -2) return mapUnary(x, w, [&](u64 v) -> u64 { if (!v) return w; return lead ? (u64) (w - 1 - (63 - __builtin_clzll(v))) : (u64) __builtin_ctzll(v); });
    Expr* r = mkC(w, w);
    for (unsigned i = 0; i < w; i++) { unsigned b = lead ? i : w - 1 - i; r = mkIte(mkExtract(x, b, 1), mkC(lead ? w - 1 - b : b, w), r); }
    return r;
}

static Val mapLanes(const Val& a, const std::function<Expr*(Expr*)>& g)
{
    if (a.e) return Val(g(a.e));
    std::vector<Val> v; for (auto& x: *a.a) v.push_back(mapLanes(x, g)); return Val::agg(std::move(v));
}
static Val zipLanes(const Val& a, const Val& b, const std::function<Expr*(Expr*, Expr*)>& g)
{
    if (a.e) return Val(g(a.e, b.e));
    std::vector<Val> v; for (size_t i = 0; i < a.a->size(); i++) v.push_back(zipLanes((*a.a)[i], (*b.a)[i], g)); return Val::agg(std::move(v));
}

static Expr* icmp(CmpInst::Predicate p, Expr* a, Expr* b)
{
    switch (p)
    {
        case CmpInst::ICMP_EQ: return mkEq(a, b);
        case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
        case CmpInst::ICMP_ULT: return mkUlt(a, b);
        case CmpInst::ICMP_UGT: return mkUlt(b, a);
        case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a));
        case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b));
        case CmpInst::ICMP_SLT: return mkSlt(a, b);
        case CmpInst::ICMP_SGT: return mkSlt(b, a);
        case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a));
        case CmpInst::ICMP_SGE: return mkNot(mkSlt(a, b));
        default: fail("unsupported icmp predicate");
    }
}

// wide integers (more than 64 bits, little-endian 64-bit chunks)
static Val wideOp(unsigned opc, Type* t, const Val& a, const Val& b)
{
    unsigned w = t->getIntegerBitWidth();
    switch (opc)
    {
        case Instruction::And: return zipLanes(a, b, [](Expr* x, Expr* y) { return mkBin(E_AND, x, y); });
        case Instruction::Or: return zipLanes(a, b, [](Expr* x, Expr* y) { return mkBin(E_OR, x, y); });
        case Instruction::Xor: return zipLanes(a, b, [](Expr* x, Expr* y) { return mkBin(E_XOR, x, y); });
        case Instruction::LShr: case Instruction::Shl: {
            std::vector<Expr*> sh; flattenVal(b, sh);
            for (auto* e: sh) if (!e->isConst()) fail("symbolic wide shift");
            unsigned k = (unsigned) sh[0]->c;
            std::vector<Expr*> ps; flattenVal(a, ps);
            std::vector<Expr*> bits = regroup(ps, std::vector<unsigned>(w, 1)), out(w, mkC(0, 1));
            for (unsigned i = 0; i < w; i++) { if (opc == Instruction::LShr) { if (i + k < w) out[i] = bits[i + k]; } else if (i >= k) out[i] = bits[i - k]; }
            std::vector<unsigned> ws; widthsOf(t, ws); auto r = regroup(out, ws); size_t q = 0; return rebuildVal(t, r, q);
        }
        default: fail("unsupported wide integer operation");
    }
}

static St memCopy(State* S, Expr* d, Expr* s, Expr* n)
{
    u64 nv, dv, sv;
    if (!concretise(S, n, nv)) return St::Gone;
    if (nv == 0) return St::Next;
    if (!concretise(S, d, dv)) return St::Gone;
    bool kill;
    if (!s->isConst() && s->uvar >= 0 && nv <= 256)
    {   // source chosen by one input: copied word by word with symbolic loads
        unsigned el = nv % 8 == 0 ? 8 : nv % 4 == 0 ? 4 : nv % 2 == 0 ? 2 : 1; if (el == 8) el = 4;
        std::vector<Expr*> w; bool ok = true; Expr* bad = mkB(false);
        std::vector<u64> one;
        if (distinctVals(s, domOf(S, s->uvar), 1, one) && one.size() == 1) ok = false;
        for (u64 i = 0; ok && i < nv; i += el)
        {
            LoadRes lr; int budget = 600; std::unordered_map<Expr*, LoadRes> memo;
            if (!symLoad(S, mkBin(E_ADD, s, mkC(i, 64)), el, lr, budget, memo)) { ok = false; break; }
            w.push_back(lr.v); bad = mkOr(bad, lr.bad);
        }
        if (ok)
        {
            if (!bad->isFalse() && !checkViolation(S, bad, "memory", "out-of-bounds read")) return St::Gone;
            if (!checkAccess(S, dv, nv, true, kill)) return St::Gone;
            Obj& o = objW(S, (u32) (dv >> 32)); u64 off = dv & 0xFFFFFFFF;
            for (u64 i = 0; i < nv; i += el) storeCells(o, off + i, el, w[i / el]);
            return St::Next;
        }
    }
    if (!concretise(S, s, sv)) return St::Gone;
    if (!checkAccess(S, sv, nv, false, kill)) return St::Gone;
    if (!checkAccess(S, dv, nv, true, kill)) return St::Gone;
    std::vector<Piece> ps; ObjP so = findObj(S, (u32) (sv >> 32));
    readPieces(*so, sv & 0xFFFFFFFF, nv, ps);
    Obj& o = objW(S, (u32) (dv >> 32)); u64 off = dv & 0xFFFFFFFF;
    for (auto& p: ps) storeCells(o, off + p.off, p.n, p.e);
    return St::Next;
}

static St memCompare(State* S, Frame& f, int dst, Expr* a, Expr* b, Expr* n, unsigned elem, bool eqOnly)
{
    u64 nv, av, bv;
    if (!concretise(S, n, nv)) return St::Gone;
    nv *= elem;
    if (nv == 0) { if (dst >= 0) f.regs[dst] = Val(mkC(0, 32)); return St::Next; }
    if (!concretise(S, a, av) || !concretise(S, b, bv)) return St::Gone;
    bool kill;
    if (!checkAccess(S, av, nv, false, kill) || !checkAccess(S, bv, nv, false, kill)) return St::Gone;
    ObjP oa = findObj(S, (u32) (av >> 32)), ob = findObj(S, (u32) (bv >> 32));
    Expr* r = mkC(0, 32);
    std::vector<Expr*> eqs;
    for (u64 i = nv; i > 0; i -= elem)
    {
        Expr* x = loadCells(*oa, (av & 0xFFFFFFFF) + i - elem, elem); Expr* y = loadCells(*ob, (bv & 0xFFFFFFFF) + i - elem, elem);
        if (eqOnly) eqs.push_back(mkEq(x, y));
        else r = mkIte(mkEq(x, y), r, mkIte(elem == 1 ? mkUlt(x, y) : mkSlt(x, y), mkC(0xFFFFFFFF, 32), mkC(1, 32)));
    }
    if (eqOnly) r = mkIte(mkAndN(eqs), mkC(0, 32), mkC(1, 32));
    f.regs[dst] = Val(r);
    return St::Next;
}

static St alloc(State* S, Frame& f, int dst, Expr* n, Instruction* I, const char* nm)
{
    u64 sz; if (!concretise(S, n, sz)) return St::Gone;
    if (sz > (1ull << 26)) { checkViolation(S, mkB(true), "allocation", "unreasonably large allocation"); return St::Gone; }
    u32 id; u64 k = 0;
    while (true) { id = dynId({ 'h', (u64) f.pathId, (u64) I, k++ }); auto it = S->mem.find(id); if (it == S->mem.end() && !P.base.count(id)) break; }
    newObject(S, id, sz, 'h', nm);
    f.regs[dst] = Val(mkC((u64) id << 32, 64));
    return St::Next;
}

static St doFree(State* S, Expr* p)
{
    u64 a; if (!concretise(S, p, a)) return St::Gone;
    if (!a) return St::Next;
    ObjP o = findObj(S, (u32) (a >> 32));
    if (!o || o->kind != 'h' || (a & 0xFFFFFFFF)) { checkViolation(S, mkB(true), "memory", "invalid or double free"); return St::Gone; }
    S->mem.erase((u32) (a >> 32));
    return St::Next;
}

static void assertQuery(State* S, Expr* bad, const std::string& msg, bool& alive)
{
    rep.assertQueries++;
    alive = checkViolation(S, bad, "assertion", msg, true);
}

// external functions and harness primitives
// floating point: concrete values only (load factors of hash tables)
static bool fpValue(Type* t, Expr* e, double& r)
{
    if (!e || !e->isConst()) return false;
    if (t->isDoubleTy()) { u64 v = e->c; memcpy(&r, &v, 8); return true; }
    if (t->isFloatTy()) { uint32_t v = (uint32_t) e->c; float g; memcpy(&g, &v, 4); r = g; return true; }
    return false;
}
static Expr* fpConst(Type* t, double r)
{
    if (t->isFloatTy()) { float g = (float) r; uint32_t v; memcpy(&v, &g, 4); return mkC(v, 32); }
    if (!t->isDoubleTy()) fail("floating point type");
    u64 v; memcpy(&v, &r, 8); return mkC(v, 64);
}
static St stub(State* S, Frame& f, BlockInfo::Ins& x, CallBase* cb, const std::string& name)
{
    auto A = [&](unsigned i) { return ope(f, x, i); };
    auto ret = [&](Expr* e) { if (x.dst >= 0) f.regs[x.dst] = Val(asW(e, P.bitsOf(cb->getType()))); return St::Next; };
    if (name == "__vf_sym")
    {
        u64 lo, hi; if (!concretise(S, A(0), lo)) return St::Gone; if (!concretise(S, A(1), hi)) return St::Gone;
        if (hi < lo) { delete S; return St::Gone; }
        return ret(symFor(S, lo, hi, 0));
    }
    if (name == "__vf_raw") { return ret(asW(symFor(S, 0, 0, (unsigned) A(0)->c), 64)); }
    if (name == "__vf_choose")
    {
        u64 lo, hi; if (!concretise(S, A(0), lo)) return St::Gone; if (!concretise(S, A(1), hi)) return St::Gone;
        if (hi < lo) { delete S; return St::Gone; }
        u32 old = S->symCount;
        Expr* e = symFor(S, lo, hi, 0); (void) old;
        // fork: each choice continues after this call
        if (e->isConst()) return ret(e);
        for (u64 v = lo; v <= hi; v++)
        {
            State* n = v == hi ? S : clone(S);
            if (n == S) gForks++;
            bool ok = addPc(n, mkEq(e, mkC(v, 64)));
            if (!ok) { delete n; continue; }
            Frame& nf = n->top(); nf.regs[x.dst] = Val(mkC(v, 64));
            if (auto* inv = dyn_cast<InvokeInst>(x.I)) { if (!enterBlock(n, inv->getNormalDest())) { delete n; continue; } }
            else nf.ip++;
            enqueue(n, false);
        }
        return St::Gone;
    }
    if (name == "__vf_concretise") { u64 v; Expr* e = A(0); if (!concretise(S, e, v)) return St::Gone; return ret(mkC(v, 64)); }
    if (name == "__vf_ite") { Expr* c = mkNot(mkEq(A(0), mkC(0, A(0)->w))); return ret(mkIte(c, A(1), A(2))); }
    if (name == "__vf_assume")
    {
        Expr* c = A(0); if (c->w > 1) c = mkNot(mkEq(c, mkC(0, c->w)));
        if (c->isTrue()) return St::Next;
        if (!feasible(S, c)) { rep.assumesPruned++; delete S; return St::Gone; }
        if (!addPc(S, c)) { delete S; return St::Gone; }
        return St::Next;
    }
    if (name == "__vf_assert")
    {
        Expr* c = A(0); if (c->w > 1) c = mkNot(mkEq(c, mkC(0, c->w)));
        bool alive; assertQuery(S, mkNot(c), cstrAt(S, A(1)), alive);
        if (!alive) { delete S; return St::Gone; }
        return St::Next;
    }
    if (name == "__vf_assert_eq")
    {
        Expr *a = A(0), *b = A(1);
        int va = a->uvar, vb = b->uvar;
        if (!R->pure && a != b && ((va >= 0 && (vb == -1 || vb == va)) || (vb >= 0 && va == -1)))
        {
            // unary claim over one input variable: the solver compares the two decision trees over its raw bits
            int v = va >= 0 ? va : vb; rep.assertQueries++; rep.checks++;
            Model m; Res r = solveUnaryNeq(a, b, domOf(S, v), &m);
            if (r == Res::Unknown) fail("solver timeout on a table comparison");
            if (r == Res::Unsat) return St::Next;
        }
        else if (!R->pure && a == b && va >= 0)
        {
            rep.assertQueries++; rep.checks++;
            static std::set<u64> done; // the same two functions are compared once
            if (done.insert(a->c).second) { Res r = solveUnaryNeq(a, b, domOf(S, va), nullptr); if (r != Res::Unsat) fail("internal: inconsistent unary comparison"); }
            return St::Next;
        }
        bool alive; assertQuery(S, mkNot(mkEq(a, b)), cstrAt(S, A(2)), alive);
        if (!alive) { delete S; return St::Gone; }
        return St::Next;
    }
    if (name == "__vf_reach")
    {
        int id = (int) A(0)->c;
        if (!rep.reached.count(id))
        {
            Model m; Res r = solve(S->pc, &m, true);
            if (r == Res::Sat) { rep.reached.insert(id); Witness w; recordModel(S, m, w.values); w.reached.push_back(id); rep.witnesses.push_back(w); }
        }
        return St::Next;
    }
    if (name == "__vf_out") { S->outs.push_back(A(0)); return St::Next; }
    if (name == "__vf_param") { u64 k = A(0)->c; return ret(mkC(k < opt.params.size() ? opt.params[k] : 0, 64)); }
    if (name == "__vf_native") return ret(mkC(0, 32));
    if (name == "__vf_alloc") { St r = alloc(S, f, x.dst, A(0), x.I, "harness buffer"); return r; }
    if (name == "__vf_free") return doFree(S, A(0));
    if (name == "__vf_ref")
    {
        u64 t = A(0)->c; Expr* idx = A(1);
        static std::map<u64, u32> ids;
        if (t >= opt.refs.size()) fail("unknown reference table");
        if (!ids.count(t))
        {
            FILE* fp = fopen(opt.refs[t].c_str(), "rb"); if (!fp) fail("cannot open reference table " + opt.refs[t]);
            auto o = std::make_shared<Obj>(); o->ro = true; o->name = "ref"; o->img = std::make_shared<std::vector<u8>>();
            u8 buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, fp)) > 0) o->img->insert(o->img->end(), buf, buf + k);
            fclose(fp); o->size = o->img->size();
            u32 id = P.nextObj++; P.base[id] = o; ids[t] = id;
        }
        Expr* addr = mkBin(E_ADD, mkBin(E_SHL, asW(idx, 64), mkC(2, 64)), mkC((u64) ids[t] << 32, 64));
        if (!R->pure) addr = underDomains(S, addr);
        LoadRes lr; int budget = 600; std::unordered_map<Expr*, LoadRes> memo;
        if (!symLoad(S, addr, 4, lr, budget, memo)) { u64 a; if (!concretise(S, addr, a)) return St::Gone; if (!symLoad(S, mkC(a, 64), 4, lr, budget, memo)) fail("ref"); }
        if (!lr.bad->isFalse() && !checkViolation(S, lr.bad, "harness", "reference table index out of range")) { delete S; return St::Gone; }
        return ret(lr.v);
    }
    if (name == "memcpy" || name == "memmove" || name == "__memcpy_chk" || name == "__memmove_chk") { St r = memCopy(S, A(0), A(1), A(2)); if (r == St::Next && x.dst >= 0) f.regs[x.dst] = opv(f, x, 0); return r; }
    if (name == "wmemcpy" || name == "wmemmove") { St r = memCopy(S, A(0), A(1), mkBin(E_MUL, asW(A(2), 64), mkC(4, 64))); if (r == St::Next && x.dst >= 0) f.regs[x.dst] = opv(f, x, 0); return r; }
    if (name == "wmemset")
    {
        u64 n, d; if (!concretise(S, A(2), n)) return St::Gone; n *= 4;
        if (n) { if (!concretise(S, A(0), d)) return St::Gone; bool kill; if (!checkAccess(S, d, n, true, kill)) return St::Gone; Obj& o = objW(S, (u32) (d >> 32)); for (u64 i = 0; i < n; i++) storeCells(o, (d & 0xFFFFFFFF) + i, 1, mkExtract(asW(A(1), 32), (unsigned) (i % 4) * 8, 8)); }
        if (x.dst >= 0) f.regs[x.dst] = opv(f, x, 0);
        return St::Next;
    }
    if (name == "memset")
    {
        u64 n, d; if (!concretise(S, A(2), n)) return St::Gone;
        if (n) { if (!concretise(S, A(0), d)) return St::Gone; bool kill; if (!checkAccess(S, d, n, true, kill)) return St::Gone; Obj& o = objW(S, (u32) (d >> 32)); Expr* b = asW(A(1), 8); for (u64 i = 0; i < n; i++) storeCells(o, (d & 0xFFFFFFFF) + i, 1, b); }
        if (x.dst >= 0) f.regs[x.dst] = opv(f, x, 0);
        return St::Next;
    }
    if (name == "memcmp") return memCompare(S, f, x.dst, A(0), A(1), A(2), 1, false);
    if (name == "bcmp") return memCompare(S, f, x.dst, A(0), A(1), A(2), 1, true);
    if (name == "wmemcmp") return memCompare(S, f, x.dst, A(0), A(1), A(2), 4, false);
    if (name == "strlen")
    {
        u64 p; if (!concretise(S, A(0), p)) return St::Gone;
        u64 n = 0;
        while (true)
        {
            bool kill; if (!checkAccess(S, p + n, 1, false, kill)) return St::Gone;
            Expr* b = byteOf(*findObj(S, (u32) (p >> 32)), (p & 0xFFFFFFFF) + n);
            if (b->isConst()) { if (!b->c) break; n++; continue; }
            Expr* z = mkEq(b, mkC(0, 8)); u64 v; if (!concretise(S, z, v)) return St::Gone;
            if (v) break; n++;
        }
        return ret(mkC(n, 64));
    }
    if (name == "memchr")
    {
        u64 p, n; if (!concretise(S, A(2), n)) return St::Gone; if (!n) return ret(mkC(0, 64)); if (!concretise(S, A(0), p)) return St::Gone;
        bool kill; ObjP o = findObj(S, (u32) (p >> 32)); if (!o || (p & 0xFFFFFFFF) + n > o->size) { checkAccess(S, p, n, false, kill); return St::Gone; }
        Expr* c = asW(A(1), 8); Expr* r = mkC(0, 64);
        for (u64 i = n; i-- > 0;) r = mkIte(mkEq(byteOf(*o, (p & 0xFFFFFFFF) + i), c), mkC(p + i, 64), r);
        return ret(r);
    }
    if (name == "ceil" || name == "floor") { double a; if (!fpValue(x.I->getType(), A(0), a)) fail("floating point arithmetic in " + f.f->name); return ret(fpConst(x.I->getType(), name == "ceil" ? ceil(a) : floor(a))); }
    if (name == "calloc")
    {
        u64 n, k; if (!concretise(S, A(0), n) || !concretise(S, A(1), k)) return St::Gone;
        St r = alloc(S, f, x.dst, mkC(n * k, 64), x.I, "heap"); if (r != St::Next || !n || !k) return r;
        u64 p = f.regs[x.dst].e->c; Obj& o = objW(S, (u32) (p >> 32)); for (u64 i = 0; i < n * k; i++) storeCells(o, i, 1, mkC(0, 8));
        return r;
    }
    if (name == "_ZnwmRKSt9nothrow_t" || name == "_ZnamRKSt9nothrow_t" || name == "_ZnwmSt11align_val_tRKSt9nothrow_t") return alloc(S, f, x.dst, A(0), x.I, "heap");
    if (name == "malloc" || name == "_Znwm" || name == "_Znam") return alloc(S, f, x.dst, A(0), x.I, "heap");
    if (name == "_ZnwmSt11align_val_t" || name == "_ZnamSt11align_val_t") return alloc(S, f, x.dst, A(0), x.I, "heap");
    if (name == "free" || name.rfind("_ZdlPv", 0) == 0 || name.rfind("_ZdaPv", 0) == 0) return doFree(S, A(0));
    if (name == "__assert_fail")
    {
        std::string msg = "assert(" + cstrAt(S, A(0)) + ")"; checkViolation(S, mkB(true), "assert", msg); return St::Gone;
    }
    if (name.rfind("_ZSt20__throw", 0) == 0 || name.rfind("_ZSt", 0) == 0 && name.find("__throw_") != std::string::npos || name == "__cxa_throw" || name == "__cxa_rethrow" || name == "abort" || name == "_ZSt9terminatev" || name == "__cxa_throw_bad_array_new_length" || name == "_ZSt21__glibcxx_assert_failPKciS0_S0_")
    {
        checkViolation(S, mkB(true), "abort", "call to " + demangleName(name)); return St::Gone;
    }
    if (name == "__cxa_allocate_exception") return alloc(S, f, x.dst, A(0), x.I, "exception");
    if (name == "__cxa_guard_acquire")
    {
        u64 p; if (!concretise(S, A(0), p)) return St::Gone;
        Expr* b = byteOf(*findObj(S, (u32) (p >> 32)), p & 0xFFFFFFFF);
        if (!b->isConst()) fail("symbolic static guard");
        return ret(mkC(b->c ? 0 : 1, 32));
    }
    if (name == "__cxa_guard_release") { u64 p; if (!concretise(S, A(0), p)) return St::Gone; storeCells(objW(S, (u32) (p >> 32)), p & 0xFFFFFFFF, 1, mkC(1, 8)); return St::Next; }
    if (name == "__cxa_atexit" || name == "atexit") return ret(mkC(0, 32));
    if (name.find("ios_base4InitC1Ev") != std::string::npos || name.find("ios_base4InitD1Ev") != std::string::npos) return St::Next;
    if (name == "llvm.x86.sse2.pause") return St::Next;
    fail("unsupported external function " + name + " (" + demangleName(name) + ") called from " + f.f->name);
}

static St intrinsic(State* S, Frame& f, BlockInfo::Ins& x, IntrinsicInst* ii)
{
    auto A = [&](unsigned i) -> const Val& { return opv(f, x, i); };
    auto E = [&](unsigned i) { return ope(f, x, i); };
    auto set = [&](Val v) { f.regs[x.dst] = std::move(v); return St::Next; };
    switch (ii->getIntrinsicID())
    {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return memCopy(S, E(0), E(1), E(2));
        case Intrinsic::memset: {
            u64 n, d; if (!concretise(S, E(2), n)) return St::Gone; if (!n) return St::Next; if (!concretise(S, E(0), d)) return St::Gone;
            bool kill; if (!checkAccess(S, d, n, true, kill)) return St::Gone;
            Obj& o = objW(S, (u32) (d >> 32)); Expr* b = E(1); u64 off = d & 0xFFFFFFFF;
            if (b->isConst())
            {
                u64 p = off, v8 = b->c * 0x0101010101010101ull;
                while (p < off + n) { unsigned k = 8; while (k > 1 && ((p % k) || p + k > off + n)) k /= 2; storeCells(o, p, k, mkC(v8, k * 8)); p += k; }
            }
            else for (u64 i = 0; i < n; i++) storeCells(o, off + i, 1, b);
            return St::Next;
        }
        case Intrinsic::umin: return set(zipLanes(A(0), A(1), [](Expr* a, Expr* b) { return mkIte(mkUlt(a, b), a, b); }));
        case Intrinsic::umax: return set(zipLanes(A(0), A(1), [](Expr* a, Expr* b) { return mkIte(mkUlt(a, b), b, a); }));
        case Intrinsic::smin: return set(zipLanes(A(0), A(1), [](Expr* a, Expr* b) { return mkIte(mkSlt(a, b), a, b); }));
        case Intrinsic::smax: return set(zipLanes(A(0), A(1), [](Expr* a, Expr* b) { return mkIte(mkSlt(a, b), b, a); }));
        case Intrinsic::abs: return set(mapLanes(A(0), [](Expr* a) { return mkIte(mkSlt(a, mkC(0, a->w)), mkBin(E_SUB, mkC(0, a->w), a), a); }));
        case Intrinsic::ceil: case Intrinsic::floor: {
            Type* t = ii->getType(); double a; if (t->isVectorTy() || !fpValue(t, E(0), a)) fail("floating point arithmetic in " + f.f->name);
            return set(fpConst(t, ii->getIntrinsicID() == Intrinsic::ceil ? ceil(a) : floor(a)));
        }
        case Intrinsic::ctpop: return set(mapLanes(A(0), ctpopE));
        case Intrinsic::cttz: return set(mapLanes(A(0), [](Expr* a) { return cttzE(a, false); }));
        case Intrinsic::ctlz: return set(mapLanes(A(0), [](Expr* a) { return cttzE(a, true); }));
        case Intrinsic::bswap: return set(mapLanes(A(0), [](Expr* a) { Expr* acc = nullptr; for (unsigned i = 0; i < a->w; i += 8) { Expr* b = mkExtract(a, i, 8); acc = acc ? mkConcat(acc, b) : b; } return acc; }));
        case Intrinsic::usub_sat: return set(zipLanes(A(0), A(1), [](Expr* a, Expr* b) { return mkIte(mkUlt(a, b), mkC(0, a->w), mkBin(E_SUB, a, b)); }));
        case Intrinsic::uadd_sat: return set(zipLanes(A(0), A(1), [](Expr* a, Expr* b) { Expr* s = mkBin(E_ADD, a, b); return mkIte(mkUlt(s, a), mkC(~0ull, a->w), s); }));
        case Intrinsic::fshl: case Intrinsic::fshr: {
            bool l = ii->getIntrinsicID() == Intrinsic::fshl;
            if (A(0).a) fail("vector funnel shift");
            Expr *a = E(0), *b = E(1), *c = E(2); unsigned w = a->w;
            if (!c->isConst()) fail("symbolic funnel shift");
            unsigned k = (unsigned) (c->c % w);
            if (!k) return set(Val(l ? a : b));
            if (l) return set(Val(mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k))));
            return set(Val(mkConcat(mkExtract(a, 0, k), mkExtract(b, k, w - k))));
        }
        case Intrinsic::uadd_with_overflow: { Expr* s = mkBin(E_ADD, E(0), E(1)); return set(Val::agg({ Val(s), Val(mkUlt(s, E(0))) })); }
        case Intrinsic::usub_with_overflow: return set(Val::agg({ Val(mkBin(E_SUB, E(0), E(1))), Val(mkUlt(E(0), E(1))) }));
        case Intrinsic::umul_with_overflow: {
            Expr *a = E(0), *b = E(1); Expr* m = mkBin(E_MUL, a, b); Expr* ov;
            if ((u128) a->hi * b->hi <= maskw(a->w)) ov = mkB(false); else ov = mkAnd(mkNot(mkEq(b, mkC(0, a->w))), mkNot(mkEq(mkBin(E_UDIV, m, b), a)));
            return set(Val::agg({ Val(m), Val(ov) }));
        }
        case Intrinsic::sadd_with_overflow: { Expr *a = E(0), *b = E(1), *s = mkBin(E_ADD, a, b); Expr* z = mkC(0, a->w); Expr* na = mkSlt(a, z); Expr* nb = mkSlt(b, z); Expr* ns = mkSlt(s, z); return set(Val::agg({ Val(s), Val(mkAnd(mkEq(na, nb), mkNot(mkEq(na, ns)))) })); }
        case Intrinsic::ssub_with_overflow: { Expr *a = E(0), *b = E(1), *s = mkBin(E_SUB, a, b); Expr* z = mkC(0, a->w); Expr* na = mkSlt(a, z); Expr* nb = mkSlt(b, z); Expr* ns = mkSlt(s, z); return set(Val::agg({ Val(s), Val(mkAnd(mkNot(mkEq(na, nb)), mkNot(mkEq(na, ns)))) })); }
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return set(A(0));
        case Intrinsic::bitreverse: return set(mapLanes(A(0), [](Expr* a) { Expr* acc = mkExtract(a, 0, 1); for (unsigned i = 1; i < a->w; i++) acc = mkConcat(acc, mkExtract(a, i, 1)); return acc; }));
        case Intrinsic::ssub_sat: return set(zipLanes(A(0), A(1), [](Expr* a, Expr* b) { Expr* r = mkBin(E_SUB, a, b); Expr* z = mkC(0, a->w); Expr* ov = mkSlt(mkBin(E_AND, mkBin(E_XOR, a, b), mkBin(E_XOR, a, r)), z); u64 mn = 1ull << (a->w - 1); return mkIte(ov, mkIte(mkSlt(a, z), mkC(mn, a->w), mkC(mn - 1, a->w)), r); }));
        case Intrinsic::sadd_sat: return set(zipLanes(A(0), A(1), [](Expr* a, Expr* b) { Expr* r = mkBin(E_ADD, a, b); Expr* z = mkC(0, a->w); Expr* ov = mkSlt(mkBin(E_AND, mkBin(E_XOR, r, a), mkBin(E_XOR, r, b)), z); u64 mn = 1ull << (a->w - 1); return mkIte(ov, mkIte(mkSlt(a, z), mkC(mn, a->w), mkC(mn - 1, a->w)), r); }));
        case Intrinsic::load_relative: {
            Expr* off = asW(E(1), 64); u64 o; if (!concretise(S, off, o)) return St::Gone;
            fail("relative lookup table");
        }
        case Intrinsic::is_constant: return set(Val(mkB(false)));
        case Intrinsic::objectsize: return set(Val(mkC(~0ull, P.bitsOf(ii->getType()))));
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
            std::vector<Expr*> ps; flattenVal(A(0), ps); Expr* r = ps[0];
            Op o = ii->getIntrinsicID() == Intrinsic::vector_reduce_or ? E_OR : ii->getIntrinsicID() == Intrinsic::vector_reduce_and ? E_AND : ii->getIntrinsicID() == Intrinsic::vector_reduce_add ? E_ADD : E_XOR;
            for (size_t i = 1; i < ps.size(); i++) r = mkBin(o, r, ps[i]);
            return set(Val(r));
        }
        case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
            std::vector<Expr*> ps; flattenVal(A(0), ps); Expr* r = ps[0]; bool mx = ii->getIntrinsicID() == Intrinsic::vector_reduce_umax;
            for (size_t i = 1; i < ps.size(); i++) { Expr* c = mkUlt(r, ps[i]); r = mx ? mkIte(c, ps[i], r) : mkIte(c, r, ps[i]); }
            return set(Val(r));
        }
        case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: {
            std::vector<Expr*> ps; flattenVal(A(0), ps); std::vector<Expr*> bits; for (auto* p: ps) bits.push_back(mkExtract(p, 7, 1));
            auto r = regroup(bits, { (unsigned) bits.size() });
            return set(Val(asW(r[0], 32)));
        }
        case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_sse41_packusdw: {
            std::vector<Expr*> a, b; flattenVal(A(0), a); flattenVal(A(1), b); a.insert(a.end(), b.begin(), b.end());
            std::vector<Val> v; for (auto* e: a) { unsigned h = e->w / 2; Expr* mx = mkC(maskw(h), e->w); v.push_back(Val(mkTrunc(mkIte(mkSlt(e, mkC(0, e->w)), mkC(0, e->w), mkIte(mkSlt(mx, e), mx, e)), h))); }
            return set(Val::agg(std::move(v)));
        }
        case Intrinsic::x86_sse41_ptestz: case Intrinsic::x86_avx_ptestz_256: {
            std::vector<Expr*> a, b; flattenVal(A(0), a); flattenVal(A(1), b); std::vector<Expr*> c; for (size_t i = 0; i < a.size(); i++) c.push_back(mkEq(mkBin(E_AND, a[i], b[i]), mkC(0, a[i]->w)));
            return set(Val(mkZext(mkAndN(c), 32)));
        }
        case Intrinsic::trap: case Intrinsic::ubsantrap: checkViolation(S, mkB(true), "abort", "trap"); return St::Gone;
        case Intrinsic::stacksave: return set(Val(mkC(0, 64)));
        case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: return St::Next;
        case Intrinsic::invariant_start: return set(Val(mkC(0, 64)));
        case Intrinsic::invariant_end: return St::Next;
        case Intrinsic::eh_typeid_for: return set(Val(mkC(0, 32)));
        default: break;
    }
    fail("unsupported intrinsic " + ii->getCalledFunction()->getName().str() + " in " + f.f->name);
}

static St doBranch(State* S, Expr* c, BasicBlock* bt, BasicBlock* bf)
{
    if (c->isConst() || bt == bf)
    {
        BasicBlock* t = !c->isConst() || c->c ? bt : bf;
        if (!enterBlock(S, t)) { delete S; return St::Gone; }
        return arrive(S, S->fr.back()->f->blocks[S->fr.back()->block].join);
    }
    bool t = feasible(S, c), n = t ? feasible(S, mkNot(c)) : true;
    if (t && n)
    {
        gForks++;
        State* o = clone(S);
        if (addPc(o, mkNot(c)))
        {
            if (enterBlock(o, bf)) enqueue(o, o->fr.back()->f->blocks[o->fr.back()->block].join); else delete o;
        }
        else delete o;
        if (!addPc(S, c)) { delete S; return St::Gone; }
        if (!enterBlock(S, bt)) { delete S; return St::Gone; }
        enqueue(S, S->fr.back()->f->blocks[S->fr.back()->block].join);
        return St::Gone;
    }
    // one side only: no need to add the implied condition, except for unary facts that sharpen domains
    if (!enterBlock(S, t ? bt : bf)) { delete S; return St::Gone; }
    return arrive(S, S->fr.back()->f->blocks[S->fr.back()->block].join);
}

static St doCall(State* S, BlockInfo::Ins& x, CallBase* cb)
{
    Frame& f = S->top();
    if (cb->isInlineAsm())
    {
        auto* ia = cast<InlineAsm>(cb->getCalledOperand());
        std::string s = ia->getAsmString();
        if (s.empty()) // compiler barrier / value laundering
        {
            if (x.dst >= 0 && cb->arg_size() == 1) f.regs[x.dst] = opv(f, x, 0);
            return St::Next;
        }
        fail("unsupported inline assembly: " + s);
    }
    Function* F = cb->getCalledFunction();
    if (!F)
    {
        unsigned oi = cb->getNumOperands() - 1; // called operand is last for CallInst
        if (isa<InvokeInst>(cb)) oi = cb->getNumOperands() - 1;
        for (unsigned i = 0; i < cb->getNumOperands(); i++) if (&cb->getCalledOperandUse() == &cb->getOperandUse(i)) oi = i;
        u64 a; if (!concretise(S, ope(f, x, oi), a)) return St::Gone;
        auto it = P.fnAddr.find(a);
        if (it == P.fnAddr.end()) { checkViolation(S, mkB(true), "memory", "call through an invalid function pointer"); return St::Gone; }
        F = it->second;
    }
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) return intrinsic(S, f, x, ii);
    std::string name = F->getName().str();
    if (F->isDeclaration() || name.rfind("__vf_", 0) == 0)
    {
        rep.stubs.insert(name);
        if (name.rfind("llvm.", 0) == 0) fail("unsupported intrinsic " + name);
        return stub(S, f, x, cb, name);
    }
    FnInfo* fi = P.info(F);
    std::vector<Val> args; for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(opv(f, x, i));
    if (fi->pure && opt.pure && (!fi->loops.empty() || fi->blocks.size() > 1))
    {
        bool sym = false; std::vector<Expr*> fl; for (auto& a: args) flattenVal(a, fl);
        for (auto* e: fl) if (!e->isConst()) sym = true;
        if (sym && opt.pureUnary) { int v = -1; for (auto* e: fl) if (!e->isConst()) { if (e->uvar < 0 || (v >= 0 && e->uvar != v)) { sym = false; break; } v = e->uvar; } }
        if (sym)
        {
            PureMemo& pm = pureExec(fi, args, 0);
            if (!pm.failed)
            {
                fi->calls++;
                auto viol = pm.viol; Val v = pm.v; bool none = pm.none;
                for (auto& q: viol) if (!checkViolation(S, q.cond, q.kind, q.msg)) { delete S; return St::Gone; }
                if (none) { delete S; return St::Gone; }
                S->top().regs[x.dst] = v;
                return St::Next;
            }
        }
    }
    if (S->fr.size() > 400) { checkViolation(S, mkB(true), "nontermination", "recursion too deep"); return St::Gone; }
    pushFrame(S, fi, args, x.I, cb);
    return arrive(S, false);
}

static Op binOp(unsigned o)
{
    switch (o)
    {
        case Instruction::Add: return E_ADD; case Instruction::Sub: return E_SUB; case Instruction::Mul: return E_MUL;
        case Instruction::UDiv: return E_UDIV; case Instruction::SDiv: return E_SDIV; case Instruction::URem: return E_UREM; case Instruction::SRem: return E_SREM;
        case Instruction::Shl: return E_SHL; case Instruction::LShr: return E_LSHR; case Instruction::AShr: return E_ASHR;
        case Instruction::And: return E_AND; case Instruction::Or: return E_OR; case Instruction::Xor: return E_XOR;
        default: fail("unsupported binary operator");
    }
}

static St exec1(State* S)
{
    Frame& f = S->top();
    BlockInfo& B = f.f->blocks[f.block];
    BlockInfo::Ins& x = B.ins[f.ip];
    Instruction* I = x.I;
    auto E = [&](unsigned i) { return ope(f, x, i); };
    auto V = [&](unsigned i) -> const Val& { return opv(f, x, i); };
    auto set = [&](Val v) { f.regs[x.dst] = std::move(v); return St::Next; };
    unsigned opc = I->getOpcode();
    if (I->isBinaryOp())
    {
        if (I->getType()->isFPOrFPVectorTy())
        {
            double a, b; if (!fpValue(I->getOperand(0)->getType(), E(0), a) || !fpValue(I->getOperand(1)->getType(), E(1), b)) fail("floating point arithmetic in " + f.f->name);
            double r = opc == Instruction::FAdd ? a + b : opc == Instruction::FSub ? a - b : opc == Instruction::FMul ? a * b : opc == Instruction::FDiv ? a / b : fmod(a, b);
            return set(fpConst(I->getType(), r));
        }
        if (I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() > 64) return set(wideOp(opc, I->getType(), V(0), V(1)));
        Op o = binOp(opc);
        if (o == E_UDIV || o == E_SDIV || o == E_UREM || o == E_SREM)
        {
            std::vector<Expr*> ds; flattenVal(V(1), ds);
            for (auto* d: ds) { Expr* z = mkEq(d, mkC(0, d->w)); if (!z->isFalse() && !checkViolation(S, z, "arithmetic", "division by zero")) { delete S; return St::Gone; } }
            Frame& g = S->top(); (void) g;
        }
        return set(zipLanes(V(0), V(1), [&](Expr* a, Expr* b) { return mkBin(o, a, b); }));
    }
    switch (opc)
    {
        case Instruction::ICmp: {
            auto p = cast<ICmpInst>(I)->getPredicate();
            const Val &a = V(0), &b = V(1);
            if (!a.e && !I->getType()->isVectorTy())
            {   // wide integers: equality only
                if (p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) fail("wide comparison");
                std::vector<Expr*> ps, qs; flattenVal(a, ps); flattenVal(b, qs); std::vector<Expr*> c; for (size_t i = 0; i < ps.size(); i++) c.push_back(mkEq(ps[i], qs[i]));
                Expr* e = mkAndN(c); return set(Val(p == CmpInst::ICMP_EQ ? e : mkNot(e)));
            }
            return set(zipLanes(a, b, [&](Expr* u, Expr* v) { return icmp(p, u, v); }));
        }
        case Instruction::Select: {
            const Val &c = V(0), &a = V(1), &b = V(2);
            if (c.a) { std::vector<Val> v; for (size_t i = 0; i < c.a->size(); i++) v.push_back(Val(mkIte((*c.a)[i].e, (*a.a)[i].e, (*b.a)[i].e))); return set(Val::agg(std::move(v))); }
            if (c.e->isConst()) return set(c.e->c ? a : b);
            if (c.e->op == E_UN) { Expr* d = domOf(S, c.e->uvar); if (d) { if (mkAnd(d, c.e)->isFalse()) return set(b); if (mkAnd(d, mkNot(c.e))->isFalse()) return set(a); } }
            MergeCtx mc { c.e, B.pureLoop, R->pure };
            if (!mc.ok(a, b)) { u64 v; if (!concretise(S, c.e, v)) return St::Gone; Frame& g = S->top(); g.regs[x.dst] = v ? opv(g, x, 1) : opv(g, x, 2); return St::Next; }
            return set(mc.m(a, b));
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Type* st = I->getType()->getScalarType(); unsigned w = P.bitsOf(st); unsigned sw = P.bitsOf(I->getOperand(0)->getType()->getScalarType());
            if (w > 64 || sw > 64)
            {
                if (I->getType()->isVectorTy()) fail("wide vector cast");
                std::vector<Expr*> ps; flattenVal(V(0), ps);
                if (opc == Instruction::SExt) fail("wide sext");
                if (w > sw) ps.push_back(nullptr);
                std::vector<unsigned> ws; widthsOf(I->getType(), ws);
                if (w > sw) { ps.pop_back(); unsigned extra = w - sw; while (extra) { unsigned k = std::min(64u, extra); ps.push_back(mkC(0, k)); extra -= k; } }
                auto r = regroup(ps, ws); size_t q = 0; return set(rebuildVal(I->getType(), r, q));
            }
            if (opc == Instruction::SExt) return set(mapLanes(V(0), [&](Expr* e) { return mkSext(e, w); }));
            return set(mapLanes(V(0), [&](Expr* e) { return asW(e, w); }));
        }
        case Instruction::BitCast: if (I->getType()->isPointerTy()) return set(V(0)); return set(bitcastVal(V(0), I->getType()));
        case Instruction::Freeze: case Instruction::AddrSpaceCast: return set(V(0));
        case Instruction::UIToFP: case Instruction::SIToFP: {
            Expr* e = I->getType()->isVectorTy() ? nullptr : E(0); if (!e || !e->isConst()) fail("floating point arithmetic in " + f.f->name);
            return set(fpConst(I->getType(), opc == Instruction::UIToFP ? (double) e->c : (double) (int64_t) sext(e->c, e->w)));
        }
        case Instruction::FPToUI: case Instruction::FPToSI: {
            double a; if (I->getType()->isVectorTy() || !fpValue(I->getOperand(0)->getType(), E(0), a)) fail("floating point arithmetic in " + f.f->name);
            return set(mkC(opc == Instruction::FPToUI ? (u64) a : (u64) (int64_t) a, P.bitsOf(I->getType())));
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            double a; if (I->getType()->isVectorTy() || !fpValue(I->getOperand(0)->getType(), E(0), a)) fail("floating point arithmetic in " + f.f->name);
            return set(fpConst(I->getType(), a));
        }
        case Instruction::FCmp: {
            double a, b; if (I->getType()->isVectorTy() || !fpValue(I->getOperand(0)->getType(), E(0), a) || !fpValue(I->getOperand(1)->getType(), E(1), b)) fail("floating point arithmetic in " + f.f->name);
            unsigned pr = cast<FCmpInst>(I)->getPredicate(); bool un = a != a || b != b; // predicate bits: unordered, less, greater, equal
            return set(mkB(un ? pr >> 3 & 1 : a == b ? pr & 1 : a > b ? pr >> 1 & 1 : pr >> 2 & 1));
        }
        case Instruction::GetElementPtr: {
            auto* g = cast<GetElementPtrInst>(I);
            if (g->getType()->isVectorTy()) fail("vector gep");
            Expr* r = E(0); u64 cst = 0; unsigned i = 1;
            Expr* sum = nullptr;
            for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it, ++i)
            {
                if (auto* st = it.getStructTypeOrNull()) { cst += P.DL->getStructLayout(st)->getElementOffset((unsigned) cast<ConstantInt>(g->getOperand(i))->getZExtValue()); continue; }
                u64 es = P.DL->getTypeAllocSize(it.getIndexedType());
                Expr* idx = E(i);
                idx = idx->w < 64 ? mkSext(idx, 64) : idx;
                if (idx->isConst()) cst += idx->c * es;
                else { Expr* t = mkBin(E_MUL, idx, mkC(es, 64)); sum = sum ? mkBin(E_ADD, sum, t) : t; }
            }
            if (sum) r = r->isConst() ? mkBin(E_ADD, sum, mkC(r->c + cst, 64)) : mkBin(E_ADD, mkBin(E_ADD, r, sum), mkC(cst, 64));
            else if (cst) r = mkBin(E_ADD, r, mkC(cst, 64));
            return set(Val(r));
        }
        case Instruction::Load: return loadT(S, f, x.dst, I->getType(), E(0));
        case Instruction::Store: {
            u64 a; if (!concretise(S, E(1), a)) return St::Gone;
            Type* t = I->getOperand(0)->getType(); u64 n = P.DL->getTypeStoreSize(t);
            bool kill; if (!checkAccess(S, a, n, true, kill)) return St::Gone;
            storeAt(S, (u32) (a >> 32), a & 0xFFFFFFFF, t, V(0));
            return St::Next;
        }
        case Instruction::Alloca: {
            auto* al = cast<AllocaInst>(I);
            Expr* n = E(0); u64 cnt; if (!concretise(S, n, cnt)) return St::Gone;
            u64 sz = P.DL->getTypeAllocSize(al->getAllocatedType()) * cnt;
            u64 k = 0; u32 id;
            while (true) { id = dynId({ 'a', (u64) f.pathId, (u64) I, k++ }); if (!S->mem.count(id)) break; }
            newObject(S, id, sz, 's', "local"); f.allocas.push_back(id);
            return set(Val(mkC((u64) id << 32, 64)));
        }
        case Instruction::ExtractValue: { Val v = V(0); for (unsigned i: cast<ExtractValueInst>(I)->indices()) { Val t = (*v.a)[i]; v = t; } return set(v); }
        case Instruction::InsertValue: {
            auto idx = cast<InsertValueInst>(I)->getIndices();
            std::function<Val(const Val&, unsigned)> ins = [&](const Val& v, unsigned d) -> Val { if (d == idx.size()) return V(1); std::vector<Val> c = *v.a; c[idx[d]] = ins(c[idx[d]], d + 1); return Val::agg(std::move(c)); };
            return set(ins(V(0), 0));
        }
        case Instruction::ExtractElement: { u64 i; if (!concretise(S, E(1), i)) return St::Gone; return set((*V(0).a)[i]); }
        case Instruction::InsertElement: { u64 i; if (!concretise(S, E(2), i)) return St::Gone; std::vector<Val> c = *V(0).a; c[i] = V(1); return set(Val::agg(std::move(c))); }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(I); auto m = sv->getShuffleMask(); const Val &a = V(0), &b = V(1); size_t n = a.a->size(); std::vector<Val> v;
            Val z = P.zeroOf(cast<VectorType>(I->getType())->getElementType());
            for (int k: m) v.push_back(k < 0 ? z : (size_t) k < n ? (*a.a)[k] : (*b.a)[k - n]);
            return set(Val::agg(std::move(v)));
        }
        case Instruction::Br: {
            auto* br = cast<BranchInst>(I);
            if (br->isUnconditional()) { if (!enterBlock(S, br->getSuccessor(0))) { delete S; return St::Gone; } return arrive(S, S->fr.back()->f->blocks[S->fr.back()->block].join); }
            return doBranch(S, E(0), br->getSuccessor(0), br->getSuccessor(1));
        }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I); Expr* c = E(0);
            if (c->isConst())
            {
                BasicBlock* t = sw->getDefaultDest();
                for (auto& cs: sw->cases()) if (cs.getCaseValue()->getZExtValue() == c->c) t = cs.getCaseSuccessor();
                if (!enterBlock(S, t)) { delete S; return St::Gone; }
                return arrive(S, S->fr.back()->f->blocks[S->fr.back()->block].join);
            }
            std::vector<std::pair<BasicBlock*, std::vector<Expr*>>> tg; std::vector<Expr*> all;
            for (auto& cs: sw->cases())
            {
                Expr* e = mkEq(c, mkC(cs.getCaseValue()->getZExtValue(), c->w));
                if (e->isFalse()) continue;
                all.push_back(e);
                bool found = false;
                for (auto& t: tg) if (t.first == cs.getCaseSuccessor()) { t.second.push_back(e); found = true; break; }
                if (!found) tg.push_back({ cs.getCaseSuccessor(), { e } });
            }
            std::vector<std::pair<BasicBlock*, Expr*>> go;
            Expr* any = mkOrN(all); Expr* none = mkNot(any);
            for (auto& t: tg) { Expr* e = t.first == sw->getDefaultDest() ? mkOr(mkOrN(t.second), none) : mkOrN(t.second); if (feasible(S, e)) go.push_back({ t.first, e }); }
            bool defDone = false; for (auto& t: tg) if (t.first == sw->getDefaultDest()) defDone = true;
            if (!defDone && feasible(S, none)) go.push_back({ sw->getDefaultDest(), none });
            if (go.empty()) fail("internal: switch without feasible target");
            if (go.size() > 1) gForks += go.size() - 1;
            for (size_t i = 0; i < go.size(); i++)
            {
                State* n = i + 1 == go.size() ? S : clone(S);
                if (go.size() > 1 && !addPc(n, go[i].second)) { delete n; continue; }
                if (!enterBlock(n, go[i].first)) { delete n; continue; }
                enqueue(n, n->fr.back()->f->blocks[n->fr.back()->block].join);
            }
            return St::Gone;
        }
        case Instruction::Call: return doCall(S, x, cast<CallBase>(I));
        case Instruction::Invoke: {
            St r = doCall(S, x, cast<CallBase>(I));
            if (r == St::Next) { if (!enterBlock(S, cast<InvokeInst>(I)->getNormalDest())) { delete S; return St::Gone; } return arrive(S, true); }
            return r;
        }
        case Instruction::Ret: { Val v; if (I->getNumOperands()) v = V(0); return doReturn(S, v); }
        case Instruction::Unreachable: checkViolation(S, mkB(true), "unreachable", "unreachable code reached"); delete S; return St::Gone;
        case Instruction::Fence: return St::Next;
        default: break;
    }
    fail("unsupported instruction " + std::string(I->getOpcodeName()) + " in " + f.f->name);
}

static void runLoop()
{
    while (!R->wl.empty())
    {
        auto it = R->wl.begin();
        State* S = it->second.back(); it->second.pop_back(); R->n--;
        if (it->second.empty()) R->wl.erase(it);
        while (true)
        {
            if ((++gSteps & 1023) == 0 && opt.timeLimit && elapsed() > opt.timeLimit) throw TimeUp();
            if (++S->steps > opt.maxSteps) { checkViolation(S, mkB(true), "nontermination", "step limit exceeded"); delete S; break; }
            St r = exec1(S);
            if (r == St::Gone) break;
            if (r == St::Jump) continue;
            S->top().ip++;
        }
    }
}

static void jsonStr(FILE* o, const std::string& s)
{
    fputc('"', o);
    for (unsigned char c: s) { if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c < 32) fprintf(o, "\\u%04x", c); else fputc(c, o); }
    fputc('"', o);
}
static void jsonVals(FILE* o, const std::vector<std::array<u64, 4>>& v)
{
    fputc('[', o); bool first = true;
    for (auto& a: v) { fprintf(o, "%s[%lu,%lu,%lu,%lu]", first ? "" : ",", (unsigned long) a[0], (unsigned long) a[1], (unsigned long) a[2], (unsigned long) a[3]); first = false; }
    fputc(']', o);
}

static void writeReport(const char* status, const std::string& error)
{
    FILE* o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
    fprintf(o, "{\"status\":\"%s\",\"error\":", status); jsonStr(o, error);
    fprintf(o, ",\"wall_s\":%.3f,\"states\":%lu,\"forks\":%lu,\"merges\":%lu,\"steps\":%lu,\"paths\":%lu,\"pure_runs\":%lu,\"pure_hits\":%lu,\"aux\":%lu,\"checks\":%lu,\"asserts\":%lu,\"asserts_folded\":%lu",
            elapsed(), (unsigned long) gStates, (unsigned long) gForks, (unsigned long) gMerges, (unsigned long) gSteps, (unsigned long) rep.paths, (unsigned long) gPureCalls, (unsigned long) gPureHits, (unsigned long) rep.auxVars, (unsigned long) rep.checks, (unsigned long) rep.assertQueries, (unsigned long) rep.assertsTrivial);
    fprintf(o, ",\"solver\":{\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"model_hits\":%lu,\"seconds\":%.3f,\"max_seconds\":%.3f,\"max_nodes\":%lu}",
            (unsigned long) gSolver.queries, (unsigned long) gSolver.sat, (unsigned long) gSolver.unsat, (unsigned long) gSolver.unknown, (unsigned long) gSolver.cacheHits, (unsigned long) gSolver.modelHits, gSolver.seconds, gSolver.maxSeconds, (unsigned long) gSolver.maxNodes);
    fprintf(o, ",\"violations\":[");
    for (size_t i = 0; i < rep.violations.size(); i++)
    {
        auto& v = rep.violations[i]; if (i) fputc(',', o);
        fprintf(o, "{\"kind\":"); jsonStr(o, v.kind); fprintf(o, ",\"msg\":"); jsonStr(o, v.msg); fprintf(o, ",\"loc\":"); jsonStr(o, v.loc); fprintf(o, ",\"values\":"); jsonVals(o, v.values); fputc('}', o);
    }
    fprintf(o, "],\"witnesses\":[");
    for (size_t i = 0; i < rep.witnesses.size(); i++)
    {
        auto& w = rep.witnesses[i]; if (i) fputc(',', o);
        fprintf(o, "{\"values\":"); jsonVals(o, w.values); fprintf(o, ",\"reached\":["); for (size_t k = 0; k < w.reached.size(); k++) fprintf(o, "%s%d", k ? "," : "", w.reached[k]);
        fprintf(o, "],\"outs\":["); for (size_t k = 0; k < w.outs.size(); k++) fprintf(o, "%s%lu", k ? "," : "", (unsigned long) w.outs[k]); fprintf(o, "],\"full\":%s}", w.reached.empty() ? "true" : "false");
    }
    fprintf(o, "],\"functions\":["); bool first = true;
    for (auto& p: P.fns) if (p.second->calls) { fprintf(o, "%s[", first ? "" : ","); jsonStr(o, p.second->name); fprintf(o, ",%lu,%lu]", (unsigned long) p.second->calls, (unsigned long) p.second->nIns); first = false; }
    fprintf(o, "],\"stubs\":["); first = true;
    for (auto& s: rep.stubs) { fprintf(o, "%s", first ? "" : ","); jsonStr(o, s); first = false; }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
}

#include <malloc.h>
int main(int argc, char** argv)
{
    mallopt(M_MMAP_THRESHOLD, 256 << 20); mallopt(M_TRIM_THRESHOLD, 512 << 20);
    std::vector<std::string> files;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&](const char* p) { return a.substr(strlen(p)); };
        if (a.rfind("--out=", 0) == 0) opt.out = val("--out=");
        else if (a.rfind("--param=", 0) == 0) opt.params.push_back(std::stoull(val("--param=")));
        else if (a.rfind("--ref=", 0) == 0) opt.refs.push_back(val("--ref="));
        else if (a.rfind("--time=", 0) == 0) opt.timeLimit = std::stod(val("--time="));
        else if (a.rfind("--adaptive=", 0) == 0) opt.adaptive = std::stoul(val("--adaptive="));
        else if (a.rfind("--mergewidth=", 0) == 0) opt.mergeWidth = (unsigned) std::stoul(val("--mergewidth="));
        else if (a.rfind("--maxiter=", 0) == 0) opt.maxIter = (u32) std::stoul(val("--maxiter="));
        else if (a.rfind("--maxsteps=", 0) == 0) opt.maxSteps = std::stoull(val("--maxsteps="));
        else if (a.rfind("--persite=", 0) == 0) opt.maxPerSite = std::stoi(val("--persite="));
        else if (a.rfind("--maxfork=", 0) == 0) opt.maxFork = std::stoul(val("--maxfork="));
        else if (a.rfind("--stop=", 0) == 0) opt.stopFirst = std::stoul(val("--stop="));
        else if (a.rfind("--witnesses=", 0) == 0) opt.witnesses = std::stoi(val("--witnesses="));
        else if (a.rfind("--entry=", 0) == 0) opt.entry = val("--entry=");
        else if (a.rfind("--seed=", 0) == 0) opt.seed = std::stoull(val("--seed="));
        else if (a.rfind("--qtimeout=", 0) == 0) gSolverTimeoutMs = (unsigned) std::stoul(val("--qtimeout="));
        else if (a == "--nomerge") opt.merge = false;
        else if (a == "--nomixed") opt.mergeMixed = false;
        else if (a == "--nopure") opt.pure = false;
        else if (a == "--poolstrings") opt.poolStrings = true;
        else if (a == "--clean") { opt.clean = opt.pureUnary = true; opt.adaptive = ~0ull; }
        else if (a == "-v") opt.verbose = true;
        else files.push_back(a);
    }
    std::string status = "complete", error;
    Run run; R = &run;
    try
    {
        P.load(files);
        // global constructors run concretely
        State* S0 = new State;
        if (auto* gc = P.M->getNamedGlobal("llvm.global_ctors"))
            if (auto* arr = gc->hasInitializer() ? dyn_cast<ConstantArray>(gc->getInitializer()) : nullptr)
                for (unsigned i = 0; i < arr->getNumOperands(); i++)
                {
                    auto* cs = cast<ConstantStruct>(arr->getOperand(i));
                    auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
                    if (!F || F->isDeclaration()) continue;
                    S0->fr.clear();
                    pushFrame(S0, P.info(F), {}, F, nullptr);
                    Run init; R = &init; auto keep = S0->mem;
                    R->wl[keyOf(S0)].push_back(S0);
                    // run, but keep the memory: finish() clears it, so intercept by a sentinel frame
                    struct KeepMem {};
                    while (true)
                    {
                        if (S0->fr.size() == 1 && isa<ReturnInst>(S0->fr[0]->f->blocks[S0->fr[0]->block].ins[S0->fr[0]->ip].I)) break;
                        R->wl.clear();
                        St r = exec1(S0);
                        if (r == St::Gone) fail("global constructor is not concrete");
                        if (r == St::Next) S0->top().ip++;
                    }
                    for (u32 a: S0->fr[0]->allocas) S0->mem.erase(a);
                    S0->fr.clear();
                    R = &run;
                }
        Function* E = P.M->getFunction(opt.entry);
        if (!E) fail("no entry function " + opt.entry);
        S0->id = ++stateSeq; S0->steps = 0; gStates++;
        pushFrame(S0, P.info(E), {}, E, nullptr);
        R->wl[keyOf(S0)].push_back(S0);
        runLoop();
    }
    catch (StopRun&) { status = "stopped"; }
    catch (TimeUp&) { status = "timeout"; }
    catch (EngineError& e) { status = "error"; error = e.what(); }
    catch (std::bad_alloc&) { status = "error"; error = "out of memory"; }
    R = &run;
    // witnesses of completed paths for validation against the native build
    try
    {
        size_t n = run.finished.size(), want = std::min<size_t>(n, (size_t) opt.witnesses);
        for (size_t i = 0; i < want; i++)
        {
            State* S = run.finished[(i * n / want + opt.seed * 7919) % n];
            Model m; if (solve(S->pc, &m, true) != Res::Sat) { if (status == "complete") { status = "error"; error = "internal: finished path is infeasible"; } continue; }
            Witness w; recordModel(S, m, w.values);
            Evaluator ev(m); for (auto* e: S->outs) w.outs.push_back(ev.eval(e));
            rep.witnesses.push_back(w);
        }
    }
    catch (EngineError& e) { if (status == "complete") { status = "error"; error = e.what(); } }
    writeReport(status.c_str(), error);
    fflush(stdout);
    _exit(status == "error" ? 3 : 0);
}
