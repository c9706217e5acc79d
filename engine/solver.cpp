#include "solver.h"
#include <algorithm>
#include <map>
#include <chrono>
#include <unordered_set>
#include <memory>
#include <z3++.h>

SolverStats gSolver;
unsigned gSolverTimeoutMs = 300000;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

namespace
{
struct Enc
{
    z3::context& c;
    struct VarEnc { bool raw = false; unsigned bits = 1; u32 K = 0; z3::expr v; std::vector<u32> repOf; std::vector<u32> order; std::unordered_map<u32, z3::expr> un; explicit VarEnc(z3::expr e): v(e) {} };
    std::unordered_map<int, VarEnc> vars;
    std::unordered_map<Expr*, z3::expr> memo;
    std::vector<z3::expr> side; std::unordered_map<Expr*, z3::expr> table;
    u64 nodes = 0;
    explicit Enc(z3::context& c_): c(c_) {}

    z3::expr bv(u64 v, unsigned w) { return c.bv_val((uint64_t) v, w); }

    static unsigned bitsFor(u64 n) { unsigned b = 1; while ((1ull << b) < n) b++; return b; }

    // decision tree over the bits of variable v for the table val[0..2^bits); blocks on which the table is constant or
    // runs with the index (value = index + offset) become leaves. 'care' (optional) marks indices that matter.
    z3::expr mux(z3::expr& v, unsigned bits, const std::vector<u64>& val, unsigned w, u32 K, const std::vector<u8>* care = nullptr, int affine = 0)
    {
        if (affine == 1)
        {   // runs only where they shrink the tree a lot
            u64 n0 = nodes; z3::expr b = mux(v, bits, val, w, K, care, 2); u64 n1 = nodes;
            std::unordered_set<u64> ds; size_t cap = 4 * (n1 - n0) + 500;
            for (size_t i = 0; i < K && ds.size() <= cap; i++) if (!care || (*care)[i]) ds.insert(val[i]);
            if (ds.size() > cap) return b;
            z3::expr a = mux(v, bits, val, w, K, care, 0); u64 n2 = nodes;
            if ((n1 - n0) * 4 < n2 - n1) { nodes = n1; return b; }
            nodes = n0 + (n2 - n1); return a;
        }
        size_t n = size_t(1) << bits;
        struct Node { u8 k; u64 cv, av; }; // k: 1 constant, 2 affine, 4 expression (cv = pool index), 8 don't care
        std::vector<Node> cur(n);
        std::vector<z3::expr> pool; std::map<std::pair<u8, u64>, u32> leaf;
        u64 mw = maskw(w);
        for (size_t i = 0; i < n; i++)
        {
            if (i >= K || (care && !(*care)[i])) { cur[i] = { 8, 0, 0 }; continue; }
            cur[i] = { (u8) (w == 1 || !affine ? 1 : 3), val[i], (val[i] - (u64) i) & mw };
        }
        z3::expr idx = w == 1 ? v : w > bits ? z3::zext(v, w - bits) : w < bits ? v.extract(w - 1, 0) : v;
        auto mat = [&](Node& x) -> u32 {
            if (x.k & 4) return (u32) x.cv;
            u8 kind = x.k & 1 ? 1 : x.k & 2 ? 2 : 8; u64 q = kind == 1 ? x.cv : kind == 2 ? x.av : 0;
            if (kind == 8) kind = 1;
            auto it = leaf.find({ kind, q }); if (it != leaf.end()) return it->second;
            u32 id = (u32) pool.size();
            if (kind == 1) pool.push_back(w == 1 ? c.bool_val(q != 0) : bv(q, w)); else pool.push_back(q ? idx + bv(q, w) : idx);
            return leaf[{ kind, q }] = id;
        };
        for (unsigned b = 0; b < bits; b++)
        {
            z3::expr bit = v.extract(b, b) == c.bv_val(1, 1);
            std::unordered_map<u64, u32> pair;
            std::vector<Node> nx(cur.size() / 2);
            for (size_t i = 0; i < nx.size(); i++)
            {
                Node &l = cur[2 * i], &h = cur[2 * i + 1];
                if (l.k == 8) { nx[i] = h; continue; }
                if (h.k == 8) { nx[i] = l; continue; }
                u8 k = 0;
                if ((l.k & h.k & 1) && l.cv == h.cv) k |= 1;
                if ((l.k & h.k & 2) && l.av == h.av) k |= 2;
                if (k) { nx[i] = { k, l.cv, l.av }; continue; }
                u32 x = mat(l), y = mat(h);
                if (x == y) { nx[i] = { 4, x, 0 }; continue; }
                u64 key = ((u64) x << 32) | y;
                auto it = pair.find(key);
                if (it == pair.end()) { u32 id = (u32) pool.size(); pool.push_back(z3::ite(bit, pool[y], pool[x])); pair[key] = id; nx[i] = { 4, id, 0 }; nodes++; }
                else nx[i] = { 4, it->second, 0 };
            }
            cur.swap(nx);
        }
        return pool[mat(cur[0])];
    }

    // distinct (big functions x root class) combinations, cached per set of big functions
    struct Base { u32 ver; std::vector<u32> reps; };
    static Base& baseFor(Domain* d, const std::vector<Fn*>& big)
    {
        static std::map<std::pair<Domain*, std::vector<u32>>, Base> cache;
        std::vector<u32> key; for (Fn* f: big) key.push_back(f->id);
        Base& b = cache[{ d, key }];
        if (!b.reps.empty() && b.ver == d->ver) return b;
        b.ver = d->ver; b.reps.clear();
        if (big.empty()) { b.reps = d->rep; return b; }
        std::vector<u32> cls(d->rootClass); u32 n = d->nRoot;
        for (Fn* f: big)
        {
            std::unordered_map<u64, u32> m; u32 k = 0; std::vector<u64> vals; std::unordered_map<u64, u32> vid;
            u32 lastC = ~0u, lastR = 0; u64 lastV = 0;
            for (u32 x = 0; x < d->D; x++)
            {
                u64 v = f->v.get(x);
                if (cls[x] == lastC && v == lastV) { cls[x] = lastR; continue; }
                lastC = cls[x]; lastV = v;
                u32 vi = vid.emplace(v, (u32) vid.size()).first->second;
                auto r = m.emplace(((u64) cls[x] << 32) | vi, k); if (r.second) k++;
                lastR = r.first->second; cls[x] = lastR;
                if (k > 60000) { b.reps.assign(1, ~0u); return b; }
            }
            n = k;
        }
        b.reps.assign(n, ~0u);
        for (u32 x = 0; x < d->D; x++) if (b.reps[cls[x]] == ~0u) b.reps[cls[x]] = x;
        return b;
    }
    static bool kernel(Domain* d, const std::vector<Fn*>& fns, const std::vector<Fn*>& must, std::vector<u32>& repX)
    {
        std::vector<Fn*> big; for (Fn* f: fns) if (f->big) big.push_back(f); else if (!f->ident) fnUpgrade(f);
        bool ident = false; for (Fn* f: fns) ident |= f->ident;
        Base* bp = ident ? nullptr : &baseFor(d, big);
        Base few;
        if (!bp || (bp->reps.size() == 1 && bp->reps[0] == ~0u))
        {   // too many classes: take the elements themselves if the conjuncts in this variable alone leave few
            if (must.empty()) return false;
            for (u32 x = 0; x < d->D; x++)
            {
                bool ok = true;
                for (Fn* f: must) if (!fnAt(f, x)) { ok = false; break; }
                if (ok) { few.reps.push_back(x); if (few.reps.size() > 8192) return false; }
            }
            bp = &few;
        }
        Base& b = *bp;
        std::map<std::vector<u64>, u32> k; std::vector<u64> sig(fns.size());
        for (u32 x: b.reps)
        {
            // elements that violate a conjunct in this variable alone cannot be part of a model
            bool ok = true;
            for (Fn* f: must) if (!fnAt(f, x)) { ok = false; break; }
            if (!ok) continue;
            for (size_t i = 0; i < fns.size(); i++) sig[i] = fnAt(fns[i], x);
            k.emplace(sig, x);
            if (k.size() > 8192) return false;
        }
        for (auto& p: k) repX.push_back(p.second);
        return true;
    }

    void prepare(const std::vector<Expr*>& roots)
    {
        std::unordered_set<Expr*> seen; std::vector<Expr*> st(roots);
        std::map<int, std::vector<Fn*>> used; std::unordered_set<int> aux;
        std::map<int, std::vector<Fn*>> must;
        for (Expr* e: roots) if (e->op == E_UN && e->w == 1) must[e->uvar].push_back(fnOf(e));
        while (!st.empty())
        {
            Expr* e = st.back(); st.pop_back();
            if (!seen.insert(e).second) continue;
            if (e->op == E_UN)
            {
                used[e->uvar].push_back(fnOf(e));
                Var* v = gVars[e->uvar];
                if (v->def && aux.insert(e->uvar).second) st.push_back(v->def);
                continue;
            }
            if (e->op == E_CONST || e->op == E_RAW) continue;
            for (u32 i = 0; i < e->nk; i++) st.push_back(e->k[i]);
        }
        for (int pass = 0; pass < 2; pass++)
        {
        if (pass == 1)
        {
            // conjuncts over few classes become truth tables; variables with a definition are encoded for the others only
            for (Expr* e: roots) { z3::expr x(c); if (tabulate(e, &x)) table.emplace(e, x); }
            if (aux.empty()) break;
            std::unordered_set<Expr*> seen2; std::vector<Expr*> st2; std::unordered_set<int> aux2;
            for (Expr* e: roots) if (!table.count(e)) st2.push_back(e);
            while (!st2.empty())
            {
                Expr* e = st2.back(); st2.pop_back();
                if (!seen2.insert(e).second) continue;
                if (e->op == E_UN) { Var* v = gVars[e->uvar]; if (v->def && aux2.insert(e->uvar).second) st2.push_back(v->def); continue; }
                if (e->op == E_CONST || e->op == E_RAW) continue;
                for (u32 i = 0; i < e->nk; i++) st2.push_back(e->k[i]);
            }
            aux = aux2;
        }
        for (auto& [vid, fns]: used)
        {
            Var* v = gVars[vid]; Domain* d = v->dom;
            bool raw = v->def != nullptr;
            if (raw != (pass == 1) || (raw && !aux.count(vid))) continue;
            std::string nm = "v" + std::to_string(vid);
            std::vector<Fn*> uf(fns); std::sort(uf.begin(), uf.end(), [](Fn* a, Fn* b) { return a->id < b->id; }); uf.erase(std::unique(uf.begin(), uf.end()), uf.end());
            std::vector<u32> repX; // representative domain elements of the joint kernel classes
            if (!raw) raw = !kernel(d, uf, must[vid], repX);
            if (raw && getenv("VF_RAWQ")) { fprintf(stderr, "[raw encoding of %s (D=%u, nRoot=%u):", v->name.c_str(), d->D, d->nRoot); for (Fn* f: uf) fprintf(stderr, " f%u/w%u%s%s[%lx..%lx]", f->id, f->w, f->big ? "B" : "", f->ident ? "I" : "", (unsigned long) f->mn, (unsigned long) f->mx); fprintf(stderr, "]\n"); }
            if (!raw)
            {
                if (repX.empty()) { Fn* f0 = must[vid][0]; for (u32 x = 0; x < d->D; x++) if (!fnAt(f0, x)) { repX.push_back(x); break; } side.push_back(c.bool_val(false)); }
                u32 n = (u32) repX.size();
                u32 K = n; unsigned bits = bitsFor(K);
                VarEnc ve(c.bv_const(nm.c_str(), bits)); ve.raw = false; ve.bits = bits; ve.K = K; ve.repOf.resize(K);
                for (u32 i = 0; i < K; i++) ve.repOf[i] = repX[i];
                if (K < (1u << bits)) side.push_back(z3::ule(ve.v, c.bv_val((uint64_t) (K - 1), bits)));
                std::vector<u64> val(K);
                for (Fn* f: fns)
                {
                    if (ve.un.count(f->id)) continue;
                    for (u32 i = 0; i < K; i++) val[i] = fnAt(f, repX[i]);
                    ve.un.emplace(f->id, mux(ve.v, bits, val, f->w, K));
                }
                vars.emplace(vid, std::move(ve));
            }
            else
            {
                unsigned bits = bitsFor(d->D);
                VarEnc ve(c.bv_const(nm.c_str(), bits)); ve.raw = true; ve.bits = bits; ve.K = d->D;
                if (d->D < (1u << bits)) side.push_back(z3::ule(ve.v, c.bv_val((uint64_t) (d->D - 1), bits)));
                for (Fn* f: fns)
                {
                    if (ve.un.count(f->id)) continue;
                    if (f->ident || (d->lo == 0 && isIdentity(f)))
                    {
                        z3::expr x = f->w > bits ? z3::zext(ve.v, f->w - bits) : f->w < bits ? ve.v.extract(f->w - 1, 0) : ve.v;
                        if (d->lo) x = x + bv(d->lo, f->w);
                        ve.un.emplace(f->id, x);
                        continue;
                    }
                    std::vector<u64> val(d->D);
                    for (u32 i = 0; i < d->D; i++) val[i] = fnAt(f, i);
                    ve.un.emplace(f->id, mux(ve.v, bits, val, f->w, d->D, nullptr, f->w >= 16));
                }
                vars.emplace(vid, std::move(ve));
            }
        }
        }
        for (int a: aux)
        {
            Var* v = gVars[a];
            z3::expr d = tr(v->def);
            VarEnc& ve = vars.at(a);
            unsigned w = v->def->w;
            z3::expr x = w > ve.bits ? z3::zext(ve.v, w - ve.bits) : w < ve.bits ? ve.v.extract(w - 1, 0) : ve.v;
            if (v->dom->lo) x = x + bv(v->dom->lo, w);
            side.push_back(x == d);
        }
    }
    bool isIdentity(Fn* f)
    {
        if (f->w < 1) return false;
        if (f->mn != f->d->lo || f->mx != f->d->lo + f->d->D - 1) return false;
        for (u32 i = 0; i < f->d->D; i++) if (fnAt(f, i) != f->d->lo + i) return false;
        return true;
    }

    z3::expr B(Expr* e) { return tr(e); }
    z3::expr asBv(Expr* e) { z3::expr x = tr(e); return e->w == 1 ? z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1)) : x; }
    z3::expr tr(Expr* root)
    {
        // iterative post-order
        std::vector<std::pair<Expr*, bool>> st { { root, false } };
        while (!st.empty())
        {
            auto [e, done] = st.back(); st.pop_back();
            if (memo.count(e)) continue;
            if (!done && e->op != E_UN)
            {
                st.push_back({ e, true });
                for (u32 i = 0; i < e->nk; i++) if (!memo.count(e->k[i])) st.push_back({ e->k[i], false });
                continue;
            }
            memo.emplace(e, tr1(e)); nodes++;
        }
        return memo.at(root);
    }
    z3::expr K(Expr* e) { return memo.at(e); }
    z3::expr KB(Expr* e) { z3::expr x = memo.at(e); return e->w == 1 ? z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1)) : x; }
    z3::expr tr1(Expr* e)
    {
        switch (e->op)
        {
            case E_CONST: return e->w == 1 ? c.bool_val(e->c != 0) : bv(e->c, e->w);
            case E_UN: return vars.at(e->uvar).un.at((u32) e->c);
            case E_RAW: { std::string n = "r" + std::to_string(e->c); return e->w == 1 ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), e->w); }
            case E_ADD: return K(e->k[0]) + K(e->k[1]);
            case E_SUB: return K(e->k[0]) - K(e->k[1]);
            case E_MUL: return K(e->k[0]) * K(e->k[1]);
            case E_UDIV: return z3::udiv(K(e->k[0]), K(e->k[1]));
            case E_SDIV: return K(e->k[0]) / K(e->k[1]);
            case E_UREM: return z3::urem(K(e->k[0]), K(e->k[1]));
            case E_SREM: return z3::srem(K(e->k[0]), K(e->k[1]));
            case E_SHL: return z3::shl(K(e->k[0]), K(e->k[1]));
            case E_LSHR: return z3::lshr(K(e->k[0]), K(e->k[1]));
            case E_ASHR: return z3::ashr(K(e->k[0]), K(e->k[1]));
            case E_AND: return K(e->k[0]) & K(e->k[1]);
            case E_OR: return K(e->k[0]) | K(e->k[1]);
            case E_XOR: return K(e->k[0]) ^ K(e->k[1]);
            case E_EQ: return K(e->k[0]) == K(e->k[1]);
            case E_ULT: return z3::ult(K(e->k[0]), K(e->k[1]));
            case E_SLT: return z3::slt(K(e->k[0]), K(e->k[1]));
            case E_ITE: return z3::ite(K(e->k[0]), K(e->k[1]), K(e->k[2]));
            case E_ZEXT: return z3::zext(KB(e->k[0]), e->w - e->k[0]->w);
            case E_SEXT: return z3::sext(KB(e->k[0]), e->w - e->k[0]->w);
            case E_EXTRACT: { z3::expr x = K(e->k[0]).extract((unsigned) e->c + e->w - 1, (unsigned) e->c); return e->w == 1 ? x == c.bv_val(1, 1) : x; }
            case E_CONCAT: return z3::concat(KB(e->k[0]), KB(e->k[1]));
            case E_NOT: return !K(e->k[0]);
            case E_BAND: case E_BOR: {
                z3::expr_vector v(c); for (u32 i = 0; i < e->nk; i++) v.push_back(K(e->k[i]));
                return e->op == E_BAND ? z3::mk_and(v) : z3::mk_or(v);
            }
        }
        fail("tr1");
    }
    // A conjunct over few classes in all is encoded by its truth table instead of its arithmetic.
    bool tabulate(Expr* root, z3::expr* out)
    {
        if ((root->op == E_UN && !gVars[root->uvar]->def) || root->op == E_CONST || root->w != 1) return false;
        std::vector<Expr*> order; std::vector<int> vs; std::unordered_map<Expr*, u32> idx;
        std::vector<std::pair<Expr*, bool>> st { { root, false } };
        while (!st.empty())
        {
            auto [e, done] = st.back(); st.pop_back();
            if (idx.count(e)) continue;
            if (done) { idx[e] = (u32) order.size(); order.push_back(e); continue; }
            if (e->op == E_RAW) return false;
            if (e->op == E_UN && gVars[e->uvar]->def) { st.push_back({ e, true }); if (!idx.count(gVars[e->uvar]->def)) st.push_back({ gVars[e->uvar]->def, false }); continue; }
            if (e->op == E_UN) { auto& ve = vars.at(e->uvar); if (ve.raw) return false; if (std::find(vs.begin(), vs.end(), e->uvar) == vs.end()) vs.push_back(e->uvar); }
            st.push_back({ e, true });
            if (e->op != E_UN && e->op != E_CONST) for (u32 i = 0; i < e->nk; i++) if (!idx.count(e->k[i])) st.push_back({ e->k[i], false });
        }
        u64 combos = 1; unsigned bits = 0;
        for (int v: vs) { combos *= vars.at(v).K; bits += vars.at(v).bits; if (combos > 40000) return false; }
        if (combos * order.size() > 8000000 || bits > 16 || bits == 0 || (order.size() < 4 && root->op != E_UN)) return false;
        std::vector<u32> at(vs.size(), 0); std::vector<u64> val(order.size());
        std::vector<u64> table(size_t(1) << bits); std::vector<u8> care(size_t(1) << bits);
        std::vector<Expr*> kids; u64 kv[64];
        for (Expr* e: order) if (e->op != E_UN && e->nk > 64) return false;
        std::vector<std::vector<u32>> kidx(order.size()); std::vector<u32> which(order.size());
        for (size_t i = 0; i < order.size(); i++)
        {
            Expr* e = order[i];
            if (e->op == E_UN && gVars[e->uvar]->def) kidx[i].push_back(idx[gVars[e->uvar]->def]);
            else if (e->op == E_UN) which[i] = (u32) (std::find(vs.begin(), vs.end(), e->uvar) - vs.begin());
            else if (e->op != E_CONST) for (u32 q = 0; q < e->nk; q++) kidx[i].push_back(idx[e->k[q]]);
        }
        for (u64 t = 0; t < combos; t++)
        {
            u64 k = t, code = 0; unsigned sh = 0;
            for (size_t i = 0; i < vs.size(); i++) { auto& ve = vars.at(vs[i]); at[i] = (u32) (k % ve.K); k /= ve.K; code |= (u64) at[i] << sh; sh += ve.bits; }
            for (size_t i = 0; i < order.size(); i++)
            {
                Expr* e = order[i];
                if (e->op == E_CONST) { val[i] = e->c; continue; }
                if (e->op == E_UN && gVars[e->uvar]->def)
                {
                    Domain* d = gVars[e->uvar]->dom; u64 x = val[kidx[i][0]] - d->lo;
                    val[i] = fnAt(fnOf(e), x < d->D ? (u32) x : 0); continue;
                }
                if (e->op == E_UN) { val[i] = fnAt(fnOf(e), vars.at(vs[which[i]]).repOf[at[which[i]]]); continue; }
                for (size_t q = 0; q < kidx[i].size(); q++) kv[q] = val[kidx[i][q]];
                if (e->op == E_BAND || e->op == E_BOR)
                {
                    u64 r = e->op == E_BAND;
                    for (size_t q = 0; q < kidx[i].size(); q++) r = e->op == E_BAND ? r & kv[q] & 1 : r | (kv[q] & 1);
                    val[i] = r;
                }
                else if (e->op == E_ITE) val[i] = kv[0] & 1 ? kv[1] : kv[2];
                else val[i] = evalOp(e->op, e->w, e->c, kv, e->k);
            }
            table[code] = val.back() & 1; care[code] = 1;
        }
        z3::expr x = vars.at(vs[0]).v;
        for (size_t i = 1; i < vs.size(); i++) x = z3::concat(vars.at(vs[i]).v, x);
        u64 before = nodes;
        z3::expr r = mux(x, bits, table, 1, (u32) table.size(), &care);
        // a table much larger than the term it stands for does not pay
        if (nodes - before > std::max<u64>(300, 2 * order.size())) { nodes = before; return false; }
        *out = r;
        return true;
    }
    void getModel(const z3::model& m, Model* out)
    {
        for (auto& [vid, ve]: vars)
        {
            z3::expr x = m.eval(ve.v, true);
            uint64_t n = 0; x.is_numeral_u64(n);
            if (n >= ve.K) n = ve.K - 1;
            out->a[vid] = ve.raw ? n : ve.repOf[n];
        }
        for (auto& p: memo) if (p.first->op == E_RAW)
        {
            z3::expr x = m.eval(p.second, true); uint64_t n = 0;
            if (p.first->w == 1) n = x.is_true(); else x.is_numeral_u64(n);
            out->a[(int) p.first->c] = n;
        }
    }
};

std::vector<Model*> modelCache;
struct VecHash { size_t operator()(const std::vector<u32>& v) const { size_t h = 1469598103934665603ull; for (u32 x: v) h = (h ^ x) * 1099511628211ull; return h; } };
std::unordered_map<std::vector<u32>, Res, VecHash> resCache;
} // namespace

static Res run(Enc& enc, z3::context& c, const std::vector<Expr*>& conj, Model* model, const std::vector<z3::expr>* extra = nullptr)
{
    double t0 = now();
    z3::expr_vector all(c);
    for (Expr* e: conj) { auto it = enc.table.find(e); all.push_back(it != enc.table.end() ? it->second : enc.tr(e)); }
    for (auto& x: enc.side) all.push_back(x);
    if (extra) for (auto& x: *extra) all.push_back(x);
    // small queries go to the plain SMT core first: it starts faster than the tactic-based solver
    std::unique_ptr<z3::solver> sp;
    z3::check_result r = z3::unknown;
    if (enc.nodes < 6000)
    {
        sp = std::make_unique<z3::solver>(c, z3::solver::simple());
        z3::params p(c); p.set("timeout", 1500u); sp->set(p);
        for (unsigned i = 0; i < all.size(); i++) sp->add(all[i]);
        r = sp->check();
    }
    if (r == z3::unknown)
    {
        sp = std::make_unique<z3::solver>(c);
        z3::params p(c); p.set("timeout", gSolverTimeoutMs); sp->set(p);
        for (unsigned i = 0; i < all.size(); i++) sp->add(all[i]);
        r = sp->check();
    }
    z3::solver& s = *sp;
    double dt = now() - t0;
    gSolver.queries++; gSolver.seconds += dt; gSolver.maxSeconds = std::max(gSolver.maxSeconds, dt); gSolver.maxNodes = std::max(gSolver.maxNodes, enc.nodes);
    if (getenv("VF_SLOWQ") && dt > atof(getenv("VF_SLOWQ"))) { fprintf(stderr, "[query %.3fs nodes %lu %s:", dt, (unsigned long) enc.nodes, r == z3::sat ? "sat" : "unsat"); for (auto* e: conj) fprintf(stderr, " %s;", show(e, 5).c_str()); for (auto& [v, ve]: enc.vars) fprintf(stderr, " |%s K=%u raw=%d", gVars[v]->name.c_str(), ve.K, ve.raw); fprintf(stderr, "]\n"); }
    if (r == z3::sat) { gSolver.sat++; if (model) enc.getModel(s.get_model(), model); return Res::Sat; }
    if (r == z3::unsat) { gSolver.unsat++; return Res::Unsat; }
    gSolver.unknown++; return Res::Unknown;
}

// A few elements of every variable that satisfy its unary conditions, combined: most satisfiable path conditions have
// such a model. Only ever used to answer Sat, with a model checked by the evaluator.
static bool guess(const std::vector<Expr*>& conj, Model& m)
{
    std::map<int, std::vector<Fn*>> un; std::vector<Expr*> rest;
    std::unordered_set<Expr*> seen; std::vector<Expr*> st;
    for (Expr* e: conj)
    {
        if (e->op == E_UN && !gVars[e->uvar]->def) un[e->uvar].push_back(fnOf(e));
        else { rest.push_back(e); }
        st.push_back(e);
    }
    while (!st.empty())
    {
        Expr* e = st.back(); st.pop_back();
        if (!seen.insert(e).second) continue;
        if (seen.size() > 3000 || e->op == E_RAW) return false;
        if (e->op == E_UN) { Var* v = gVars[e->uvar]; if (v->def) st.push_back(v->def); else un[e->uvar]; continue; }
        if (e->op == E_CONST) continue;
        for (u32 i = 0; i < e->nk; i++) st.push_back(e->k[i]);
    }
    std::vector<int> vars; std::vector<std::vector<u32>> cand;
    for (auto& [v, fs]: un)
    {
        Domain* d = gVars[v]->dom; std::vector<u32> c;
        auto ok = [&](u32 x) { for (Fn* f: fs) if (!fnAt(f, x)) return false; return true; };
        const u32 want = rest.empty() ? 1 : 8;
        u32 step = std::max<u32>(1, d->D / 4096);
        // representative elements first: they differ in some function
        std::vector<u32> hits;
        for (u32 x = 0; x < d->D; x += step) if (ok(x)) hits.push_back(x);
        if (hits.empty()) for (u32 x = 0; x < d->D; x++) if (ok(x)) { hits.push_back(x); if (hits.size() > 64) break; }
        if (hits.empty()) return false;
        for (u32 i = 0; i < want && i < hits.size(); i++) c.push_back(hits[(size_t) i * (hits.size() - 1) / std::max<u32>(1, std::min<size_t>(want, hits.size()) - 1)]);
        vars.push_back(v); cand.push_back(c);
    }
    u64 rng = 88172645463325252ull;
    u64 total = 1; for (auto& c: cand) { total *= c.size(); if (total > 256) { total = 256; break; } }
    for (u64 t = 0; t < total; t++)
    {
        u64 k = t; Model g;
        for (size_t i = 0; i < vars.size(); i++)
        {
            if (total == 256) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; g.a[vars[i]] = cand[i][rng % cand[i].size()]; }
            else { g.a[vars[i]] = cand[i][k % cand[i].size()]; k /= cand[i].size(); }
        }
        Evaluator ev(g); bool good = true;
        for (Expr* e: conj) if (!ev.eval(e)) { good = false; break; }
        if (good) { m = g; return true; }
    }
    return false;
}

// Joins the conjuncts in one variable alone and replaces terms that are constant under them; false if one is unsatisfiable.
static bool underUnary(std::vector<Expr*>& conj)
{
    static std::unordered_map<u64, Expr*> constUnder; // (term, domain) -> replacement
    for (int round = 0; round < 3; round++)
    {
        std::map<int, Expr*> dom; std::vector<Expr*> rest; bool multi = false;
        for (Expr* e: conj)
        {
            if (e->op == E_UN && e->w == 1) { Expr*& d = dom[e->uvar]; d = d ? mkAnd(d, e) : e; if (d->isFalse()) return false; }
            else { rest.push_back(e); multi = true; }
        }
        if (!multi) { conj.clear(); for (auto& p: dom) if (!p.second->isTrue()) conj.push_back(p.second); return true; }
        std::unordered_map<Expr*, Expr*> sub;
        std::unordered_set<Expr*> seen; std::vector<Expr*> st(rest);
        while (!st.empty())
        {
            Expr* e = st.back(); st.pop_back();
            if (!seen.insert(e).second) continue;
            if (e->op == E_UN)
            {
                auto it = dom.find(e->uvar); if (it == dom.end()) continue;
                auto r = constUnder.emplace(((u64) e->id << 32) | it->second->id, e);
                if (r.second) { std::vector<u64> v; if (distinctVals(e, it->second, 1, v) && v.size() == 1) r.first->second = mkC(v[0], e->w); }
                if (r.first->second != e) sub[e] = r.first->second;
                continue;
            }
            for (u32 i = 0; i < e->nk; i++) st.push_back(e->k[i]);
        }
        conj.clear();
        for (auto& p: dom) if (!p.second->isTrue()) conj.push_back(p.second);
        bool changed = false;
        std::unordered_map<Expr*, Expr*> memo;
        for (Expr* e: rest)
        {
            Expr* r = sub.empty() ? e : substituteMap(e, sub, memo);
            if (r != e) changed = true;
            if (r->isFalse()) return false;
            if (!r->isTrue()) conj.push_back(r);
        }
        if (!changed) return true;
    }
    return true;
}

Res solve(const std::vector<Expr*>& conjIn, Model* model, bool verdict)
{
    std::vector<Expr*> conj;
    for (Expr* e: conjIn) { if (e->isFalse()) { gSolver.trivial++; return Res::Unsat; } if (!e->isTrue()) conj.push_back(e); }
    if (conj.empty()) { gSolver.trivial++; return Res::Sat; }
    std::vector<u32> key; for (Expr* e: conj) key.push_back(e->id); std::sort(key.begin(), key.end());
    if (!model)
    {
        auto it = resCache.find(key);
        if (it != resCache.end()) { gSolver.cacheHits++; return it->second; }
    }
    // try recent models
    for (size_t i = modelCache.size(); i-- > 0 && modelCache.size() - i <= 24;)
    {
        Evaluator ev(*modelCache[i]); bool ok = true;
        for (Expr* e: conj) if (!ev.eval(e)) { ok = false; break; }
        if (ok)
        {
            // aux variables must agree with their definitions (they do: evaluated through def when unassigned)
            gSolver.modelHits++; if (model) *model = *modelCache[i];
            resCache[key] = Res::Sat; return Res::Sat;
        }
    }
    if (!underUnary(conj)) { gSolver.trivial++; resCache[key] = Res::Unsat; return Res::Unsat; }
    if (conj.empty()) { gSolver.trivial++; if (!model) { resCache[key] = Res::Sat; return Res::Sat; } }
    Model m;
    if (guess(conj, m)) { gSolver.modelHits++; if (model) *model = m; resCache[key] = Res::Sat; return Res::Sat; }
    static z3::context& c = *new z3::context;
    Enc enc(c); enc.prepare(conj);
    Res r = run(enc, c, conj, &m);
    if (r == Res::Sat)
    {
        // drop aux variables from the model: they are defined by their definition
        for (auto it = m.a.begin(); it != m.a.end();) if (gVars[it->first]->def) it = m.a.erase(it); else ++it;
        // cross-check the model with the evaluator
        Evaluator ev(m);
        for (Expr* e: conj) if (!ev.eval(e)) fail("internal: solver model does not satisfy the query under the evaluator");
        modelCache.push_back(new Model(m));
        if (model) *model = m;
    }
    if (r != Res::Unknown) resCache[key] = r;
    return r;
}

Res solveUnaryNeq(Expr* f, Expr* g, Expr* pc, Model* model)
{
    // both sides are unary functions of the same finite variable (or constants): encode each as a decision
    // tree over the raw bits of the variable and let the solver compare the trees
    int var = f->uvar >= 0 ? f->uvar : g->uvar;
    static z3::context& c = *new z3::context; Enc enc(c);
    Var* v = gVars[var]; Domain* d = v->dom;
    unsigned bits = Enc::bitsFor(d->D);
    z3::expr x = c.bv_const("x", bits);
    std::vector<u8> care(d->D, 1);
    if (pc && !pc->isTrue()) for (u32 i = 0; i < d->D; i++) care[i] = fnAt(fnOf(pc), i) != 0;
    auto tree = [&](Expr* e, unsigned w, bool dc) {
        std::vector<u64> val(d->D);
        for (u32 i = 0; i < d->D; i++) val[i] = e->isConst() ? e->c : fnAt(fnOf(e), i);
        return enc.mux(x, bits, val, w, d->D, dc ? &care : nullptr, w >= 16);
    };
    unsigned w = f->w;
    z3::expr a = tree(f, w, true), b = tree(g, w, true);
    double t0 = now();
    z3::solver s = enc.nodes < 3000 ? z3::solver(c, z3::solver::simple()) : z3::solver(c); z3::params p(c); p.set("timeout", gSolverTimeoutMs); s.set(p);
    if (d->D < (1u << bits)) s.add(z3::ule(x, c.bv_val((uint64_t) (d->D - 1), bits)));
    if (pc && !pc->isTrue()) s.add(tree(pc, 1, false));
    s.add(a != b);
    auto r = s.check();
    gSolver.queries++; gSolver.seconds += now() - t0; gSolver.maxNodes = std::max(gSolver.maxNodes, enc.nodes);
    if (r == z3::sat) { gSolver.sat++; uint64_t n = 0; s.get_model().eval(x, true).is_numeral_u64(n); if (model) model->a[var] = n; return Res::Sat; }
    if (r == z3::unsat) { gSolver.unsat++; return Res::Unsat; }
    gSolver.unknown++; return Res::Unknown;
}
