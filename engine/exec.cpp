// Symbolic executor: interprets LLVM IR over the expression layer, forks on branches, merges at joins.
#include "prog.h"
#include "run.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <chrono>
#include <llvm/IR/CFG.h>

using namespace llvm;

Options opt;
Report rep;
static double t0clock = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() - t0clock; }

// ------------------------------------------------------------------ object ids
static std::map<std::vector<u64>, u32> siteIds; // deterministic identities of dynamic objects
static u32 dynId(const std::vector<u64>& key)
{
    auto it = siteIds.find(key);
    if (it != siteIds.end()) return it->second;
    u32 id = P.nextObj++;
    siteIds[key] = id; return id;
}
static std::map<std::pair<int, const void*>, int> pathIds;
static int pathOf(int parent, const void* call)
{
    auto it = pathIds.find({ parent, call });
    if (it != pathIds.end()) return it->second;
    int id = (int) pathIds.size() + 1; pathIds[{ parent, call }] = id; return id;
}

// ------------------------------------------------------------------ path conditions
static std::unordered_map<Expr*, std::vector<int>> varsMemo;
static const std::vector<int>& varsOf(Expr* e)
{
    auto it = varsMemo.find(e);
    if (it != varsMemo.end()) return it->second;
    std::vector<int> v; collectVars(e, v); std::sort(v.begin(), v.end());
    return varsMemo.emplace(e, std::move(v)).first->second;
}

static bool addPc(State* S, Expr* e)
{
    if (e->isTrue()) return true;
    if (e->isFalse()) return false;
    if (e->op == E_BAND) { for (u32 i = 0; i < e->nk; i++) if (!addPc(S, e->k[i])) return false; return true; }
    if (e->op == E_UN)
    {
        auto d = S->dom.find(e->uvar);
        Expr* nd = d == S->dom.end() ? e : mkAnd(d->second, e);
        if (nd->isFalse()) return false;
        if (nd->isTrue()) S->dom.erase(e->uvar); else S->dom[e->uvar] = nd;
        for (size_t i = 0; i < S->pc.size(); i++)
            if (S->pc[i]->op == E_UN && S->pc[i]->uvar == e->uvar)
            {
                Expr* n = mkAnd(S->pc[i], e);
                S->pc.erase(S->pc.begin() + (long) i);
                e = n; break;
            }
        if (e->isFalse()) return false;
        if (e->isTrue()) return true;
    }
    auto it = std::lower_bound(S->pc.begin(), S->pc.end(), e, [](Expr* a, Expr* b) { return a->id < b->id; });
    if (it != S->pc.end() && *it == e) return true;
    S->pc.insert(it, e);
    return true;
}

static Expr* domOf(State* S, int v) { auto it = S->dom.find(v); return it == S->dom.end() ? nullptr : it->second; }

static std::vector<Expr*> slice(State* S, Expr* c)
{
    std::set<int> vs(varsOf(c).begin(), varsOf(c).end());
    std::vector<Expr*> out; std::vector<bool> used(S->pc.size(), false);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < S->pc.size(); i++)
        {
            if (used[i]) continue;
            bool hit = false;
            for (int v: varsOf(S->pc[i])) if (vs.count(v)) { hit = true; break; }
            if (!hit) continue;
            used[i] = true; ch = true; out.push_back(S->pc[i]);
            for (int v: varsOf(S->pc[i])) vs.insert(v);
        }
    }
    return out;
}

static bool feasible(State* S, Expr* c)
{
    if (c->isConst()) return c->c;
    if (c->op == E_UN)
    {
        Expr* d = domOf(S, c->uvar);
        Expr* n = d ? mkAnd(d, c) : c;
        if (n->isFalse()) return false;
        if (d && n == d) return true;
        bool multi = false;
        for (Expr* p: S->pc) if (p->op != E_UN || gVars[p->uvar]->def) { auto& v = varsOf(p); if (std::binary_search(v.begin(), v.end(), c->uvar)) { multi = true; break; } }
        if (!multi && !gVars[c->uvar]->def) return true;
    }
    else
    {
        // syntactic
        for (Expr* p: S->pc) if (p == c) return true;
    }
    auto q = slice(S, c); q.push_back(c);
    if (opt.verbose) { fprintf(stderr, "[feasible %s in %s |", show(c, 3).c_str(), S->fr.back()->f->name.substr(0, 60).c_str()); for (auto* e: q) fprintf(stderr, " %s;", show(e, 3).c_str()); fprintf(stderr, "]\n"); }
    Res r = solve(q, nullptr, false);
    if (r == Res::Unknown) fail("solver timeout on a feasibility query");
    return r == Res::Sat;
}

// ------------------------------------------------------------------ worklist
typedef std::vector<u32> Key;
struct Run
{
    std::map<Key, std::vector<State*>> wl; size_t n = 0;
    bool pure = false; size_t baseDepth = 0;
    std::vector<std::pair<Expr*, Val>> results;      // pure: (guard, value)
    struct V { Expr* cond; std::string kind, msg, loc; };
    std::vector<V> viol;
    std::deque<State*> finished;
    u64 maxBucket = 0;
};
static Run* R = nullptr;
static u64 stateSeq = 0;
u64 gForks = 0, gMerges = 0, gStates = 0, gSteps = 0, gPureCalls = 0, gPureHits = 0;

static State* clone(State* S) { State* n = new State(*S); n->id = ++stateSeq; gStates++; n->forks++; return n; }

static Key keyOf(State* S)
{
    Key k; k.reserve(S->fr.size() * 6);
    for (auto& f: S->fr)
    {
        k.push_back((u32) f->f->id);
        for (auto& l: f->loopIter) { k.push_back((u32) f->f->loops[l.first].rpo); k.push_back(l.second); }
        k.push_back((u32) f->f->blocks[f->block].rpo); k.push_back((u32) f->ip);
    }
    return k;
}

static bool tryMerge(State* a, State* b, bool allowUnary);

static void enqueue(State* S, bool mergeable)
{
    S->mergeable = mergeable;
    auto& bucket = R->wl[keyOf(S)];
    if (mergeable && opt.merge)
    {
        Frame& f = *S->fr.back();
        bool un = R->pure || (f.ip == f.f->blocks[f.block].nPhi && f.f->blocks[f.block].pureLoop) || bucket.size() >= opt.adaptive;
        for (State* o: bucket)
            if (o->mergeable && tryMerge(o, S, un)) { gMerges++; delete S; return; }
    }
    bucket.push_back(S); R->n++;
    if (bucket.size() > R->maxBucket) R->maxBucket = bucket.size();
}

// ------------------------------------------------------------------ merging
struct MergeCtx
{
    Expr* g; bool un; bool pure;
    bool ok(Expr* x, Expr* y)
    {
        if (x == y) return true;
        if (!x || !y) return false;
        if (x->w != y->w) return false;
        if (opt.clean && !pure && ((!x->isConst() && x->uvar != g->uvar) || (!y->isConst() && y->uvar != g->uvar))) return false;
        if (x->w < opt.mergeWidth) return true;
        if (x->isConst() && y->isConst())
        {
            if (pure) return true;
            return un && g->uvar >= 0;
        }
        if (x->isConst() != y->isConst())
        {
            Expr* s = x->isConst() ? y : x;
            if (pure) return true;
            if (un && g->uvar >= 0 && s->uvar == g->uvar) return true;
            return opt.mergeMixed;
        }
        return true;
    }
    bool ok(const Val& x, const Val& y)
    {
        if (x.e || y.e) return ok(x.e, y.e);
        if (!x.a && !y.a) return true;
        if (!x.a || !y.a || x.a->size() != y.a->size()) return false;
        if (x.a == y.a) return true;
        for (size_t i = 0; i < x.a->size(); i++) if (!ok((*x.a)[i], (*y.a)[i])) return false;
        return true;
    }
    Expr* m(Expr* x, Expr* y) { return x == y ? x : mkIte(g, x, y); }
    Val m(const Val& x, const Val& y)
    {
        if (x.e) return Val(m(x.e, y.e));
        if (!x.a || x.a == y.a) return x;
        std::vector<Val> v; for (size_t i = 0; i < x.a->size(); i++) v.push_back(m((*x.a)[i], (*y.a)[i]));
        return Val::agg(std::move(v));
    }
};

static Expr* byteOf(const Obj& o, u64 off);
static void splitRange(Obj& o, u64 off, u64 n);

static bool tryMerge(State* a, State* b, bool allowUnary)
{
    if (a->fr.size() != b->fr.size() || a->symCount != b->symCount || a->outs.size() != b->outs.size()) return false;
    for (size_t i = 0; i < a->fr.size(); i++)
    {
        auto &x = *a->fr[i], &y = *b->fr[i];
        if (a->fr[i] == b->fr[i]) continue;
        if (x.f != y.f || x.pathId != y.pathId || x.block != y.block || x.ip != y.ip || x.loopIter != y.loopIter || x.allocas != y.allocas) return false;
    }
    // guard
    std::vector<Expr*> common, ra, rb;
    std::set_intersection(a->pc.begin(), a->pc.end(), b->pc.begin(), b->pc.end(), std::back_inserter(common), [](Expr* x, Expr* y) { return x->id < y->id; });
    std::set_difference(a->pc.begin(), a->pc.end(), b->pc.begin(), b->pc.end(), std::back_inserter(ra), [](Expr* x, Expr* y) { return x->id < y->id; });
    std::set_difference(b->pc.begin(), b->pc.end(), a->pc.begin(), a->pc.end(), std::back_inserter(rb), [](Expr* x, Expr* y) { return x->id < y->id; });
    if (ra.empty() || rb.empty()) return false;
    Expr* g = nullptr; Expr* gOther = nullptr;
    for (Expr* x: ra)
    {
        for (Expr* y: rb)
            if (mkNot(x) == y || (x->op == E_UN && y->op == E_UN && x->uvar == y->uvar && mkAnd(x, y)->isFalse())) { if (!g || x->op == E_UN) { g = x; gOther = y; } break; }
        if (g && g->op == E_UN) break;
    }
    if (g && g->op == E_UN && gOther->op == E_UN && g != mkNot(gOther))
    {
        // both unary and disjoint: the smaller id of the two representations is as good as any
    }
    if (!g) g = mkAndN(ra);
    if (opt.clean && !R->pure && !(ra.size() == 1 && rb.size() == 1 && ra[0]->op == E_UN && rb[0]->op == E_UN && ra[0]->uvar == rb[0]->uvar)) return false;
    MergeCtx mc { g, allowUnary, R->pure };
    // registers
    size_t nf = a->fr.size();
    for (size_t i = 0; i < nf; i++)
    {
        if (a->fr[i] == b->fr[i]) continue;
        auto &x = *a->fr[i], &y = *b->fr[i];
        const std::vector<u64>* live;
        auto& B = x.f->blocks[x.block];
        if (i + 1 == nf && x.ip == B.nPhi) live = &B.liveIn;
        else if (i + 1 == nf) live = &x.f->liveAfterSets[B.ins[x.ip - 1].liveAfter];
        else live = &x.f->liveAfterSets[B.ins[x.ip].liveAfter];
        for (size_t w = 0; w < live->size(); w++)
        {
            u64 m = (*live)[w];
            while (m)
            {
                int s = (int) (w * 64) + __builtin_ctzll(m); m &= m - 1;
                if (i + 1 != nf && B.ins[x.ip].dst == s) continue;
                if (!mc.ok(x.regs[s], y.regs[s])) return false;
            }
        }
    }
    for (size_t i = 0; i < a->outs.size(); i++) if (!mc.ok(a->outs[i], b->outs[i]) && a->outs[i]->w != b->outs[i]->w) return false;
    // memory
    std::vector<u32> diff;
    {
        auto ia = a->mem.begin(); auto ib = b->mem.begin();
        while (ia != a->mem.end() || ib != b->mem.end())
        {
            if (ia != a->mem.end() && ib != b->mem.end() && ia->first == ib->first)
            {
                if (ia->second != ib->second)
                {
                    if (!ia->second || !ib->second || ia->second->size != ib->second->size) return false;
                    diff.push_back(ia->first);
                }
                ++ia; ++ib; continue;
            }
            // present in one only: fine for a global that was written in one state only
            bool fromA = ib == b->mem.end() || (ia != a->mem.end() && ia->first < ib->first);
            u32 id = fromA ? ia->first : ib->first;
            if (!P.base.count(id)) return false;
            diff.push_back(id);
            if (fromA) ++ia; else ++ib;
        }
    }
    struct Todo { u32 id; ObjP oa, ob; };
    std::vector<Todo> todo;
    for (u32 id: diff)
    {
        ObjP oa = a->mem.count(id) ? a->mem[id] : P.base[id], ob = b->mem.count(id) ? b->mem[id] : P.base[id];
        if (!oa || !ob) return false;
        bool same = oa->cells.size() == ob->cells.size() && oa->img == ob->img;
        if (same) { auto p = oa->cells.begin(); auto q = ob->cells.begin(); for (; p != oa->cells.end(); ++p, ++q) if (p->first != q->first || p->second.n != q->second.n) { same = false; break; } }
        if (!same)
        {
            auto na = std::make_shared<Obj>(*oa), nb = std::make_shared<Obj>(*ob);
            std::set<u32> starts;
            // make layouts equal: where the cell structure differs, split into bytes
            std::map<u32, u8> la, lb;
            for (auto& c: na->cells) la[c.first] = c.second.n;
            for (auto& c: nb->cells) lb[c.first] = c.second.n;
            for (auto& c: la) { auto it = lb.find(c.first); if (it == lb.end() || it->second != c.second) { splitRange(*na, c.first, c.second); splitRange(*nb, c.first, c.second); } }
            for (auto& c: lb) { auto it = la.find(c.first); if (it == la.end() || it->second != c.second) { splitRange(*na, c.first, c.second); splitRange(*nb, c.first, c.second); } }
            // fill missing
            for (auto& c: na->cells) if (!nb->cells.count(c.first)) { if (c.second.n != 1) { return false; } nb->cells[c.first] = { byteOf(*ob, c.first), 1 }; }
            for (auto& c: nb->cells) if (!na->cells.count(c.first)) { if (c.second.n != 1) { return false; } na->cells[c.first] = { byteOf(*oa, c.first), 1 }; }
            oa = na; ob = nb;
        }
        auto p = oa->cells.begin(); auto q = ob->cells.begin();
        for (; p != oa->cells.end(); ++p, ++q)
        {
            if (p->first != q->first || p->second.n != q->second.n) return false;
            if (!mc.ok(p->second.e, q->second.e)) return false;
        }
        todo.push_back({ id, oa, ob });
    }
    // commit
    for (size_t i = 0; i < nf; i++)
    {
        if (a->fr[i] == b->fr[i]) continue;
        auto n = std::make_shared<Frame>(*a->fr[i]); auto& y = *b->fr[i];
        auto& B = n->f->blocks[n->block];
        const std::vector<u64>* live;
        if (i + 1 == nf && n->ip == B.nPhi) live = &B.liveIn;
        else if (i + 1 == nf) live = &n->f->liveAfterSets[B.ins[n->ip - 1].liveAfter];
        else live = &n->f->liveAfterSets[B.ins[n->ip].liveAfter];
        for (int s = 0; s < n->f->nSlots; s++)
        {
            bool lv = ((*live)[s / 64] >> (s % 64)) & 1;
            if (i + 1 != nf && B.ins[n->ip].dst == s) lv = false;
            if (!lv) { n->regs[s] = Val(); continue; }
            n->regs[s] = mc.m(n->regs[s], y.regs[s]);
        }
        a->fr[i] = n;
    }
    for (size_t i = 0; i < a->outs.size(); i++) a->outs[i] = mc.m(a->outs[i], b->outs[i]);
    for (auto& t: todo)
    {
        auto n = std::make_shared<Obj>(*t.oa);
        auto p = n->cells.begin(); auto q = t.ob->cells.begin();
        for (; p != n->cells.end(); ++p, ++q) p->second.e = mc.m(p->second.e, q->second.e);
        a->mem[t.id] = n;
    }
    Expr* o = mkOr(mkAndN(ra), mkAndN(rb));
    a->pc = common;
    std::map<int, Expr*> nd;
    for (auto& d: a->dom) { auto it = b->dom.find(d.first); if (it == b->dom.end()) continue; Expr* u = mkOr(d.second, it->second); if (!u->isTrue()) nd[d.first] = u; }
    a->dom = nd;
    if (!addPc(a, o)) fail("internal: merged condition false");
    a->steps = std::max(a->steps, b->steps);
    return true;
}

// ------------------------------------------------------------------ memory
static ObjP findObj(State* S, u32 id)
{
    auto it = S->mem.find(id);
    if (it != S->mem.end()) return it->second;
    auto b = P.base.find(id);
    return b == P.base.end() ? nullptr : b->second;
}
static Obj& objW(State* S, u32 id)
{
    auto it = S->mem.find(id);
    if (it == S->mem.end()) { auto n = std::make_shared<Obj>(*P.base[id]); return *(S->mem[id] = n); }
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return *it->second;
}
static Expr* byteOf(const Obj& o, u64 off)
{
    auto it = o.cells.upper_bound((u32) off);
    if (it != o.cells.begin())
    {
        --it;
        if (off < (u64) it->first + it->second.n) return mkExtract(it->second.e, (unsigned) (off - it->first) * 8, 8);
    }
    return mkC(o.img ? (*o.img)[off] : o.fill, 8);
}
static bool anyCells(const Obj& o, u64 off, u64 n)
{
    if (o.cells.empty()) return false;
    auto it = o.cells.lower_bound((u32) off);
    if (it != o.cells.end() && it->first < off + n) return true;
    if (it != o.cells.begin()) { --it; if ((u64) it->first + it->second.n > off) return true; }
    return false;
}
static Expr* loadCells(const Obj& o, u64 off, unsigned n)
{
    if (!o.cells.empty())
    {
        auto it = o.cells.find((u32) off);
        if (it != o.cells.end() && it->second.n == n) return it->second.e;
    }
    if (!anyCells(o, off, n))
    {
        u64 v = 0;
        for (unsigned i = 0; i < n; i++) v |= (u64) (o.img ? (*o.img)[off + i] : o.fill) << (8 * i);
        return mkC(v, n * 8);
    }
    // contained in one cell?
    auto it = o.cells.upper_bound((u32) off);
    if (it != o.cells.begin()) { --it; if (off >= it->first && off + n <= (u64) it->first + it->second.n) return mkExtract(it->second.e, (unsigned) (off - it->first) * 8, n * 8); }
    // assemble from whole cells where possible
    Expr* acc = nullptr; u64 p = off;
    while (p < off + n)
    {
        auto c = o.cells.find((u32) p);
        Expr* piece;
        if (c != o.cells.end() && p + c->second.n <= off + n) { piece = c->second.e; p += c->second.n; }
        else { piece = byteOf(o, p); p++; }
        acc = acc ? mkConcat(piece, acc) : piece;
    }
    return acc;
}
static void splitRange(Obj& o, u64 off, u64 n)
{
    auto it = o.cells.upper_bound((u32) off);
    if (it != o.cells.begin()) --it;
    std::vector<u32> del; std::vector<std::pair<u32, Cell>> add;
    for (; it != o.cells.end() && it->first < off + n; ++it)
    {
        if ((u64) it->first + it->second.n <= off) continue;
        if (it->second.n == 1) continue;
        for (unsigned i = 0; i < it->second.n; i++) add.push_back({ it->first + i, { mkExtract(it->second.e, i * 8, 8), 1 } });
        del.push_back(it->first);
    }
    for (u32 d: del) o.cells.erase(d);
    for (auto& x: add) o.cells[x.first] = x.second;
}
static void storeCells(Obj& o, u64 off, unsigned n, Expr* e)
{
    auto it = o.cells.find((u32) off);
    if (it != o.cells.end() && it->second.n == n) { it->second.e = e; return; }
    if (anyCells(o, off, n))
    {
        // cells partially outside are split to bytes first
        auto c = o.cells.upper_bound((u32) off); if (c != o.cells.begin()) --c;
        std::vector<std::pair<u32, u32>> part; std::vector<u32> del;
        for (; c != o.cells.end() && c->first < off + n; ++c)
        {
            if ((u64) c->first + c->second.n <= off) continue;
            if (c->first >= off && (u64) c->first + c->second.n <= off + n) del.push_back(c->first);
            else part.push_back({ c->first, c->second.n });
        }
        for (auto& p: part) splitRange(o, p.first, p.second);
        for (auto& p: part) for (u32 i = 0; i < p.second; i++) if (p.first + i >= off && p.first + i < off + n) del.push_back(p.first + i);
        for (u32 d: del) o.cells.erase(d);
    }
    o.cells[(u32) off] = { e, (u8) n };
}

// ------------------------------------------------------------------ violations
static std::string locOf(State* S)
{
    std::string s;
    for (size_t i = S->fr.size(); i-- > 0 && s.size() < 400;)
    {
        auto& f = *S->fr[i];
        if (!s.empty()) s += " < ";
        std::string n = f.f->name; if (n.size() > 120) n = n.substr(0, 117) + "...";
        s += n;
    }
    return s;
}
static void recordModel(State* S, const Model& m, std::vector<std::array<u64, 4>>& vals)
{
    (void) S;
    for (auto& sv: symVars)
    {
        auto it = m.a.find(sv.var->id);
        u64 x = it == m.a.end() ? 0 : it->second;
        vals.push_back({ sv.ord, sv.lo, sv.hi, sv.var->dom ? sv.var->dom->lo + x : x });
    }
}
std::vector<SymVar> symVars;

// returns false if the state cannot continue (the violation always happens)
static bool checkViolation(State* S, Expr* bad, const std::string& kind, const std::string& msg, bool assertion = false)
{
    if (bad->isFalse()) { if (assertion) rep.assertsTrivial++; return true; }
    if (R->pure)
    {
        std::vector<Expr*> c(S->pc); c.push_back(bad);
        Expr* x = mkAndN(c);
        if (!x->isFalse()) R->viol.push_back({ x, kind, msg, locOf(S) });
        return addPc(S, mkNot(bad));
    }
    rep.checks++;
    Expr* d = bad->uvar >= 0 ? domOf(S, bad->uvar) : nullptr;
    if (d && mkAnd(d, bad)->isFalse()) return true;
    auto q = slice(S, bad); q.push_back(bad);
    Model m;
    Res r = solve(q, nullptr, true);
    if (r == Res::Unknown) fail("solver timeout on a verdict query: " + msg);
    if (r == Res::Unsat) return true;
    std::string loc = locOf(S);
    std::string dk = kind + "|" + msg + "|" + loc;
    if (rep.seenViol[dk]++ < opt.maxPerSite)
    {
        std::vector<Expr*> full(S->pc); full.push_back(bad);
        r = solve(full, &m, true);
        if (r != Res::Sat) fail("internal: full query disagrees with its slice");
        Violation v; v.kind = kind; v.msg = msg; v.loc = loc;
        recordModel(S, m, v.values);
        rep.violations.push_back(v);
        if (opt.stopFirst && rep.violations.size() >= opt.stopFirst) throw StopRun();
    }
    Expr* nb = mkNot(bad);
    if (!feasible(S, nb)) return false;
    return addPc(S, nb);
}

// ------------------------------------------------------------------ forking / concretisation
static void substState(State* S, Expr* from, Expr* to)
{
    for (auto& fp: S->fr)
    {
        bool any = false;
        for (auto& v: fp->regs) if (v.e == from) { any = true; break; }
        if (!any) continue;
        auto n = std::make_shared<Frame>(*fp);
        for (auto& v: n->regs) if (v.e == from) v.e = to;
        fp = n;
    }
    for (auto& o: S->mem)
    {
        if (!o.second) continue;
        bool any = false;
        for (auto& c: o.second->cells) if (c.second.e == from) { any = true; break; }
        if (!any) continue;
        auto n = std::make_shared<Obj>(*o.second);
        for (auto& c: n->cells) if (c.second.e == from) c.second.e = to;
        o.second = n;
    }
}
// replace 64-bit unary expressions that are constant under the domains
static void normalise(State* S, int var)
{
    Expr* d = domOf(S, var); if (!d) return;
    std::unordered_map<Expr*, Expr*> memo;
    auto f = [&](Expr* e) -> Expr* {
        if (!e || e->uvar != var || e->w < 64) return e;
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        std::vector<u64> v; Expr* r = e;
        if (distinctVals(e, d, 1, v) && v.size() == 1) r = mkC(v[0], e->w);
        return memo[e] = r;
    };
    for (auto& fp: S->fr)
    {
        bool any = false;
        for (auto& v: fp->regs) if (v.e && f(v.e) != v.e) { any = true; break; }
        if (!any) continue;
        auto n = std::make_shared<Frame>(*fp);
        for (auto& v: n->regs) if (v.e) v.e = f(v.e);
        fp = n;
    }
    for (auto& o: S->mem)
    {
        if (!o.second) continue;
        bool any = false;
        for (auto& c: o.second->cells) if (f(c.second.e) != c.second.e) { any = true; break; }
        if (!any) continue;
        auto n = std::make_shared<Obj>(*o.second);
        for (auto& c: n->cells) c.second.e = f(c.second.e);
        o.second = n;
    }
}

static bool ctreeLeaves(State* S, Expr* e, std::set<u64>& out, std::unordered_set<Expr*>& seen)
{
    if (!seen.insert(e).second) return true;
    if (e->isConst()) { out.insert(e->c); return true; }
    if (e->op == E_UN) { std::vector<u64> v; if (!distinctVals(e, domOf(S, e->uvar), opt.maxFork, v)) return false; out.insert(v.begin(), v.end()); return true; }
    return ctreeLeaves(S, e->k[1], out, seen) && ctreeLeaves(S, e->k[2], out, seen);
}

// Forces e to a single value on this path. Returns true and the value if there is exactly one feasible value;
// otherwise forks the state (re-executing the current instruction) and returns false.
static bool concretise(State* S, Expr* e, u64& out)
{
    if (e->isConst()) { out = e->c; return true; }
    std::vector<u64> vals;
    bool complete = true;
    if (e->uvar >= 0 && distinctVals(e, domOf(S, e->uvar), opt.maxFork, vals)) {}
    else if (std::set<u64> s; e->ctree && e->uvar < 0 && [&] { std::unordered_set<Expr*> seen; return ctreeLeaves(S, e, s, seen) && s.size() <= opt.maxFork; }())
        vals.assign(s.begin(), s.end());
    else
    {
        std::vector<Expr*> q = slice(S, mkEq(e, mkC(e->lo, e->w))); // constraints relevant to e
        complete = false;
        while (true)
        {
            Model m; Res r = solve(q, &m, true);
            if (r == Res::Unknown) fail("solver timeout while enumerating values");
            if (r == Res::Unsat) break;
            Evaluator ev(m); u64 v = ev.eval(e);
            vals.push_back(v);
            if (vals.size() > opt.maxFork) fail("too many values to fork on (" + std::to_string(e->w) + " bits) in " + locOf(S) + " : " + show(e, 5));
            q.push_back(mkNot(mkEq(e, mkC(v, e->w))));
        }
    }
    std::vector<std::pair<u64, Expr*>> ok;
    for (u64 v: vals)
    {
        Expr* c = mkEq(e, mkC(v, e->w));
        if (!complete || feasible(S, c)) ok.push_back({ v, c });
    }
    if (ok.empty()) fail("internal: no feasible value");
    if (ok.size() == 1) { out = ok[0].first; return true; }
    gForks += ok.size() - 1;
    for (auto& [v, c]: ok)
    {
        State* n = clone(S);
        if (!addPc(n, c)) { delete n; continue; }
        substState(n, e, mkC(v, e->w));
        if (e->uvar >= 0) normalise(n, e->uvar);
        enqueue(n, false);
    }
    delete S;
    return false;
}

// ------------------------------------------------------------------ symbolic loads
struct LutMemo { u32 fn; u32 badFn; bool ok; u64 badC; };
static std::map<std::pair<u32, unsigned>, std::array<i64, 2>> lutMemo;

static bool concreteAt(State* S, u64 addr, unsigned n, u64& v, bool& oob)
{
    oob = false;
    ObjP o = findObj(S, (u32) (addr >> 32)); u64 off = addr & 0xFFFFFFFF;
    if (!o || off + n > o->size) { oob = true; v = 0; return true; }
    if (anyCells(*o, off, n)) return false;
    v = 0; for (unsigned i = 0; i < n; i++) v |= (u64) (o->img ? (*o->img)[off + i] : o->fill) << (8 * i);
    return true;
}

static std::unordered_map<Expr*, Expr*> auxMemo;
static Expr* auxFor(Expr* e)
{
    auto it = auxMemo.find(e); if (it != auxMemo.end()) return it->second;
    if (e->hi - e->lo >= (1ull << 22)) return nullptr;
    Var* v = newFinite(e->lo, e->hi, e->w, "aux" + std::to_string(auxMemo.size()), e);
    rep.auxVars++;
    return auxMemo[e] = v->node;
}

static bool onlyConstObjs(u64 lo, u64 hi, State* S)
{
    if ((lo >> 32) != (hi >> 32)) return false;
    ObjP o = findObj(S, (u32) (lo >> 32));
    return o && o->ro;
}

// a sub-expression to hoist an ITE from: looks through arithmetic
static Expr* findIte(Expr* e, int depth)
{
    if (e->op == E_ITE && e->w > 1) return e;
    if (depth == 0 || e->op == E_CONST || e->op == E_UN || e->op == E_RAW || e->w == 1) return nullptr;
    for (u32 i = 0; i < e->nk; i++) if (Expr* r = findIte(e->k[i], depth - 1)) return r;
    return nullptr;
}

// replaces one-variable sub-terms that have a single value under the domains
static Expr* underDomains(State* S, Expr* e, std::unordered_map<Expr*, Expr*>& memo)
{
    if (e->isConst() || e->op == E_RAW) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    if (e->op == E_UN)
    {
        std::vector<u64> v; Expr* r = e; Expr* d = domOf(S, e->uvar);
        if (d && distinctVals(e, d, 1, v) && v.size() == 1) r = mkC(v[0], e->w);
        return memo[e] = r;
    }
    std::unordered_map<Expr*, Expr*> sub; bool ch = false;
    for (u32 i = 0; i < e->nk; i++) { Expr* r = underDomains(S, e->k[i], memo); if (r != e->k[i]) { sub[e->k[i]] = r; ch = true; } }
    if (!ch) return memo[e] = e;
    std::unordered_map<Expr*, Expr*> m2;
    return memo[e] = substituteMap(e, sub, m2);
}
static Expr* underDomains(State* S, Expr* e)
{
    if (e->uvar != -2 || S->dom.empty()) return e;
    std::unordered_map<Expr*, Expr*> memo;
    return underDomains(S, e, memo);
}

struct LoadRes { Expr* v; Expr* bad; };
// load n bytes at symbolic address e; 'bad' collects the condition under which the access is out of bounds
static bool symLoad(State* S, Expr* e, unsigned n, LoadRes& out, int& budget, std::unordered_map<Expr*, LoadRes>& memo)
{
    if (e->isConst())
    {
        ObjP o = findObj(S, (u32) (e->c >> 32)); u64 off = e->c & 0xFFFFFFFF;
        if (!o || off + n > o->size) { out = { mkC(0, n * 8), mkB(true) }; return true; }
        out = { loadCells(*o, off, n), mkB(false) }; return true;
    }
    auto mm = memo.find(e); if (mm != memo.end()) { out = mm->second; return true; }
    if (e->uvar >= 0)
    {
        auto key = std::make_pair((u32) e->c, n);
        auto it = lutMemo.find(key);
        if (it != lutMemo.end())
        {
            Fn* fv = gFns[it->second[0]]; (void) fv;
            out = { mkUn((u32) it->second[0], e->uvar), it->second[1] < 0 ? mkB(it->second[1] == -1) : mkUn((u32) it->second[1], e->uvar) };
            memo[e] = out; return true;
        }
        Expr* d = domOf(S, e->uvar);
        std::vector<u64> vals;
        // whole-domain evaluation if everything reachable is constant
        if (!distinctVals(e, nullptr, 3000000, vals)) return false;
        bool allConst = true, allRo = true; std::unordered_map<u64, u64> content; std::unordered_set<u64> bads;
        u32 lastId = ~0u; ObjP last;
        for (u64 a: vals)
        {
            u32 id = (u32) (a >> 32);
            if (id != lastId) { lastId = id; last = findObj(S, id); }
            u64 off = a & 0xFFFFFFFF;
            if (!last || off + n > last->size) { bads.insert(a); continue; }
            if (!last->ro) allRo = false;
            if (!last->cells.empty() && anyCells(*last, off, n)) { allConst = false; break; }
            u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64) (last->img ? (*last->img)[off + i] : last->fill) << (8 * i);
            content[a] = v;
        }
        if (allConst && content.size())
        {
            Expr* v = mapUnary(e, n * 8, [&](u64 a) { auto q = content.find(a); return q == content.end() ? 0 : q->second; });
            Expr* b = bads.empty() ? mkB(false) : mapUnary(e, 1, [&](u64 a) { return (u64) bads.count(a); });
            out = { v, b };
            if (allRo && !v->isConst()) lutMemo[key] = { (i64) v->c, b->isConst() ? (b->c ? -1 : -2) : (i64) b->c };
            memo[e] = out; return true;
        }
        if (!distinctVals(e, d, 64, vals)) return false;
        Expr* v = nullptr; Expr* bad = mkB(false);
        for (u64 a: vals)
        {
            LoadRes r; if (!symLoad(S, mkC(a, 64), n, r, budget, memo)) return false;
            Expr* c = mkEq(e, mkC(a, 64));
            bad = mkOr(bad, mkAnd(c, r.bad));
            v = v ? mkIte(c, r.v, v) : r.v;
        }
        out = { v, bad }; memo[e] = out; return true;
    }
    if (--budget < 0) return false;
    if (Expr* t = findIte(e, 6))
    {
        Expr* ea; Expr* eb;
        if (t == e) { ea = e->k[1]; eb = e->k[2]; }
        else { std::unordered_map<Expr*, Expr*> m1, m2; ea = substitute(e, t, t->k[1], m1); eb = substitute(e, t, t->k[2], m2); }
        LoadRes x, y;
        if (!symLoad(S, ea, n, x, budget, memo) || !symLoad(S, eb, n, y, budget, memo)) return false;
        out = { mkIte(t->k[0], x.v, y.v), mkOr(mkAnd(t->k[0], x.bad), mkAnd(mkNot(t->k[0]), y.bad)) };
        memo[e] = out; return true;
    }
    if (onlyConstObjs(e->lo, e->hi, S) || e->hi - e->lo < 4096)
        if (Expr* a = auxFor(e)) { bool r = symLoad(S, a, n, out, budget, memo); memo[e] = out; return r; }
    return false;
}

// ------------------------------------------------------------------ value helpers
static void scalarTypes(Type* t, std::vector<Type*>& out)
{
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e: st->elements()) scalarTypes(e, out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); i++) scalarTypes(at->getElementType(), out); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < vt->getNumElements(); i++) scalarTypes(vt->getElementType(), out); return; }
    out.push_back(t);
}
static void flattenVal(const Val& v, std::vector<Expr*>& out)
{
    if (v.e) { out.push_back(v.e); return; }
    if (v.a) for (auto& x: *v.a) flattenVal(x, out);
}
// regroup a list of pieces (little endian) into pieces of the given widths
static std::vector<Expr*> regroup(const std::vector<Expr*>& in, const std::vector<unsigned>& widths)
{
    std::vector<Expr*> out; size_t i = 0; unsigned off = 0; // off: bits consumed of in[i]
    for (unsigned w: widths)
    {
        Expr* acc = nullptr; unsigned have = 0;
        while (have < w)
        {
            if (i >= in.size()) fail("regroup: out of bits");
            unsigned avail = in[i]->w - off, take = std::min(avail, w - have);
            Expr* p = mkExtract(in[i], off, take);
            acc = acc ? mkConcat(p, acc) : p;
            have += take; off += take;
            if (off == in[i]->w) { i++; off = 0; }
        }
        out.push_back(acc);
    }
    return out;
}
static void widthsOf(Type* t, std::vector<unsigned>& w)
{
    std::vector<Type*> ts; scalarTypes(t, ts);
    for (auto* x: ts) { unsigned b = P.bitsOf(x); while (b > 64) { w.push_back(64); b -= 64; } w.push_back(b); }
}
static Val rebuildVal(Type* t, const std::vector<Expr*>& ps, size_t& i)
{
    if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e: st->elements()) v.push_back(rebuildVal(e, ps, i)); return Val::agg(std::move(v)); }
    if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (u64 k = 0; k < at->getNumElements(); k++) v.push_back(rebuildVal(at->getElementType(), ps, i)); return Val::agg(std::move(v)); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for (unsigned k = 0; k < vt->getNumElements(); k++) v.push_back(rebuildVal(vt->getElementType(), ps, i)); return Val::agg(std::move(v)); }
    unsigned b = P.bitsOf(t);
    if (b <= 64) return Val(ps[i++]);
    std::vector<Val> v; while (true) { v.push_back(Val(ps[i++])); if (b <= 64) break; b -= 64; }
    return Val::agg(std::move(v));
}
static Val bitcastVal(const Val& v, Type* to)
{
    std::vector<Expr*> ps; flattenVal(v, ps);
    std::vector<unsigned> w; widthsOf(to, w);
    auto r = regroup(ps, w); size_t i = 0;
    return rebuildVal(to, r, i);
}

// per-call pure execution
static bool callPure(State* S, FnInfo* f, std::vector<Val>& args, Val& out, bool& abandoned);

#include "step.inc"
