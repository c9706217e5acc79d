#include "expr.h"
#include <algorithm>
#include <unordered_set>

void fail(const std::string& m) { throw EngineError(m); }

std::vector<Var*> gVars;
std::vector<Fn*> gFns;
static std::map<std::pair<u64, u64>, Domain*> gDomains;

static u64 mix64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

// ---------------------------------------------------------------- arena / hash-consing
struct Key { u8 op, w; u64 c; u32 nk; Expr* const* k; };
static u64 hashKey(const Key& k)
{
    u64 h = mix64(k.op * 131 + k.w + k.c * 0x9E3779B97F4A7C15ull);
    for (u32 i = 0; i < k.nk; i++) h = mix64(h ^ k.k[i]->id * 0x100000001b3ull);
    return h;
}
static std::vector<Expr*> table(1 << 20, nullptr);
static size_t tableCount = 0;
static u32 nextId = 1;
static char* arenaP = nullptr; static size_t arenaLeft = 0;
static void* arena(size_t n)
{
    n = (n + 15) & ~15ull;
    if (arenaLeft < n) { size_t blk = std::max<size_t>(n, 1 << 22); arenaP = (char*) malloc(blk); arenaLeft = blk; }
    void* r = arenaP; arenaP += n; arenaLeft -= n; return r;
}
static Expr* intern(u8 op, unsigned w, u64 c, u32 nk, Expr* const* k, bool* isNew)
{
    Key key { op, (u8) w, c, nk, k };
    u64 h = hashKey(key);
    size_t m = table.size() - 1, i = h & m;
    while (Expr* e = table[i])
    {
        if (e->op == op && e->w == w && e->c == c && e->nk == nk)
        {
            bool same = true;
            for (u32 j = 0; j < nk; j++) if (e->k[j] != k[j]) { same = false; break; }
            if (same) { *isNew = false; return e; }
        }
        i = (i + 1) & m;
    }
    Expr* e = (Expr*) arena(sizeof(Expr));
    e->op = op; e->w = (u8) w; e->c = c; e->nk = nk; e->id = nextId++;
    e->k = nk ? (Expr**) arena(sizeof(Expr*) * nk) : nullptr;
    for (u32 j = 0; j < nk; j++) e->k[j] = k[j];
    table[i] = e;
    if (++tableCount * 2 > table.size())
    {
        std::vector<Expr*> nt(table.size() * 2, nullptr);
        size_t nm = nt.size() - 1;
        for (Expr* x: table) if (x)
        {
            size_t q = hashKey({ x->op, x->w, x->c, x->nk, x->k }) & nm;
            while (nt[q]) q = (q + 1) & nm;
            nt[q] = x;
        }
        table.swap(nt);
    }
    *isNew = true;
    return e;
}

Expr* mkC(u64 c, unsigned w)
{
    c &= maskw(w);
    bool n; Expr* e = intern(E_CONST, w, c, 0, nullptr, &n);
    if (n) { e->uvar = -1; e->lo = e->hi = c; e->ctree = true; e->csize = 1; }
    return e;
}

static void setRange(Expr* e);

static Expr* node(u8 op, unsigned w, u64 c, std::initializer_list<Expr*> ks)
{
    bool n; Expr* const* k = ks.begin();
    Expr* e = intern(op, w, c, (u32) ks.size(), k, &n);
    if (n) setRange(e);
    return e;
}
static Expr* nodeV(u8 op, unsigned w, u64 c, const std::vector<Expr*>& ks)
{
    bool n; Expr* e = intern(op, w, c, (u32) ks.size(), ks.data(), &n);
    if (n) setRange(e);
    return e;
}

// ---------------------------------------------------------------- domains and unary functions
static const size_t SMALL_LIMIT = 32;    // functions with more distinct values do not refine the root partition
static const size_t SMALL_DOMAIN = 4096; // unless the whole domain is small
static const size_t ROOT_LIMIT = 50000;

Domain* getDomain(u64 lo, u64 hi)
{
    auto& d = gDomains[{ lo, hi }];
    if (!d)
    {
        d = new Domain; d->lo = lo; d->D = (u32) (hi - lo + 1); d->id = (int) gDomains.size();
        d->rootClass.assign(d->D, 0);
        d->w1.resize(d->D); d->w2.resize(d->D);
        u64 a = 0, b = 0;
        for (u32 i = 0; i < d->D; i++) { d->w1[i] = mix64(i * 2 + 1) | 1; d->w2[i] = mix64(i * 2 + 0x5555555555ull) | 1; a += d->w1[i]; b += d->w2[i]; }
        d->W1 = { a }; d->W2 = { b }; d->rep = { 0 }; d->cnt = { d->D };
    }
    return d;
}

static std::unordered_map<u64, std::vector<Fn*>> fnTable;

void fnUpgrade(Fn* f)
{
    if (f->big) return;
    Domain* d = f->d; size_t n = f->v.n;
    if (n == d->nRoot) return;
    f->v.grow(d->nRoot);
    for (size_t i = n; i < d->nRoot; i++) f->v.set(i, f->v.get(d->parent[i]));
}

u64 fnAt(Fn* f, u32 x)
{
    if (f->big) return f->ident ? ((f->d->lo + x) & maskw(f->w)) : f->v.get(x);
    fnUpgrade(f);
    return f->v.get(f->d->rootClass[x]);
}

static Fn* internFn(Domain* d, unsigned w, Vals&& v, bool big)
{
    u64 h1 = 0, h2 = 0, mn = ~0ull, mx = 0;
    if (big)
        for (u32 x = 0; x < d->D; x++) { u64 a = v.get(x); u64 m = mix64(a); h1 += d->w1[x] * m; h2 += d->w2[x] * mix64(m); if (a < mn) mn = a; if (a > mx) mx = a; }
    else
        for (u32 i = 0; i < d->nRoot; i++) { u64 a = v.get(i); u64 m = mix64(a); h1 += d->W1[i] * m; h2 += d->W2[i] * mix64(m); if (a < mn) mn = a; if (a > mx) mx = a; }
    u64 hk = h1 ^ mix64(d->id * 64 + w);
    for (Fn* f: fnTable[hk]) if (f->d == d && f->w == w && f->h1 == h1 && f->h2 == h2) return f;
    Fn* f = new Fn; f->d = d; f->w = (u8) w; f->big = big; f->ver = d->ver; f->v = std::move(v); f->h1 = h1; f->h2 = h2; f->mn = mn; f->mx = mx;
    f->id = (u32) gFns.size(); gFns.push_back(f);
    fnTable[hk].push_back(f);
    return f;
}

static u32 newClass(Domain* d, u32 from, u32 rep)
{
    u32 n = d->nRoot++;
    d->parent.resize(n, 0); d->parent.push_back(from); d->W1.push_back(0); d->W2.push_back(0); d->rep.push_back(rep); d->cnt.push_back(0);
    return n;
}
static void moveTo(Domain* d, u32 x, u32 c, u32 n)
{
    d->rootClass[x] = n; d->W1[c] -= d->w1[x]; d->W2[c] -= d->w2[x]; d->cnt[c]--; d->W1[n] += d->w1[x]; d->W2[n] += d->w2[x]; d->cnt[n]++;
}
static void refine(Domain* d, const Vals& full)
{
    struct PairHash { size_t operator()(const std::pair<u32, u64>& p) const { return mix64(p.first * 0x9E3779B97F4A7C15ull ^ mix64(p.second)); } };
    std::unordered_map<std::pair<u32, u64>, u32, PairHash> m2;
    u32 old = d->nRoot, lastC = ~0u, lastN = 0; u64 lastV = 0;
    for (u32 x = 0; x < d->D; x++)
    {
        u32 c = d->rootClass[x]; u64 v = full.get(x);
        u32 n;
        if (c == lastC && v == lastV) n = lastN;
        else
        {
            if (v == full.get(d->rep[c])) n = c;
            else { auto r = m2.emplace(std::make_pair(c, v), d->nRoot); n = r.first->second; if (r.second) newClass(d, c, x); }
            lastC = c; lastV = v; lastN = n;
        }
        if (n != c) moveTo(d, x, c, n);
    }
    if (d->nRoot != old) d->ver++;
}

// the predicate that holds exactly for the indices in the given disjoint ascending intervals [first, second)
static Fn* internFn(Domain* d, unsigned w, Vals&& v, bool big);
static Fn* fnFromIntervals(Domain* d, std::vector<std::pair<u32, u32>> in)
{
    u64 size = 0; for (auto& p: in) size += p.second - p.first;
    bool neg = false;
    if (size * 2 > d->D)
    {
        std::vector<std::pair<u32, u32>> out; u32 at = 0;
        for (auto& p: in) { if (p.first > at) out.push_back({ at, p.first }); at = p.second; }
        if (at < d->D) out.push_back({ at, d->D });
        in.swap(out); neg = true;
    }
    u32 old = d->nRoot;
    std::unordered_map<u32, u32> hit;
    for (auto& p: in) for (u32 x = p.first; x < p.second; x++) hit[d->rootClass[x]]++;
    Vals v; std::vector<u32> full, need;
    std::unordered_map<u32, u32> to;
    for (auto& h: hit) if (h.second == d->cnt[h.first]) full.push_back(h.first); else to[h.first] = ~0u;
    auto inside = [&](u32 x) { for (auto& p: in) if (x >= p.first && x < p.second) return true; return false; };
    if (!to.empty())
        for (auto& p: in) for (u32 x = p.first; x < p.second; x++)
        {
            u32 c = d->rootClass[x]; auto it = to.find(c); if (it == to.end()) continue;
            if (it->second == ~0u) it->second = newClass(d, c, x);
            moveTo(d, x, c, it->second);
        }
    size_t miss = 0; std::unordered_map<u32, bool> want;
    for (auto& t: to) if (inside(d->rep[t.first])) { want[t.first] = true; miss++; }
    for (u32 x = 0; miss && x < d->D; x++)
    {
        auto it = want.find(d->rootClass[x]);
        if (it != want.end() && it->second) { d->rep[it->first] = x; it->second = false; miss--; }
    }
    if (d->nRoot != old) d->ver++;
    v.init(d->nRoot, 1);
    if (neg) for (u32 i = 0; i < d->nRoot; i++) v.set(i, 1);
    for (u32 c: full) v.set(c, !neg);
    for (u32 c = old; c < d->nRoot; c++) v.set(c, !neg);
    return internFn(d, 1, std::move(v), false);
}

// build a function from a full value vector
static Fn* fnFromFull(Domain* d, unsigned w, Vals&& full)
{
    std::unordered_set<u64> ds; bool small = true; u64 last = ~0ull; bool have = false;
    for (u32 x = 0; x < d->D; x++)
    {
        u64 v = full.get(x);
        if (have && v == last) continue;
        have = true; last = v;
        ds.insert(v);
        if (ds.size() > SMALL_LIMIT && d->D > SMALL_DOMAIN) { small = false; break; }
    }
    if (small && d->nRoot < ROOT_LIMIT)
    {
        refine(d, full);
        Vals v; v.init(d->nRoot, w);
        for (u32 i = 0; i < d->nRoot; i++) v.set(i, full.get(d->rep[i]));
        return internFn(d, w, std::move(v), false);
    }
    return internFn(d, w, std::move(full), true);
}

Fn* fnOf(Expr* e) { return gFns[e->c]; }

Expr* mkUn(u32 fn, int var)
{
    Fn* f = gFns[fn];
    if (f->mn == f->mx) return mkC(f->mn, f->w);
    bool n; Expr* kk = gVars[var]->node; (void) kk;
    // var id encoded as const kid
    Expr* kid = mkC((u64) var, 32);
    Expr* e = intern(E_UN, f->w, fn, 1, &kid, &n);
    if (n) { e->uvar = var; e->lo = f->mn; e->hi = f->mx; e->ctree = true; e->csize = 1; }
    return e;
}

Var* newFinite(u64 lo, u64 hi, unsigned w, const std::string& name, Expr* def)
{
    if (hi < lo || hi - lo >= (1ull << 23)) fail("finite variable domain too large");
    Var* v = new Var; v->id = (int) gVars.size(); v->dom = getDomain(lo, hi); v->w = w; v->name = name; v->def = def;
    gVars.push_back(v);
    v->node = nullptr;
    Domain* d = v->dom;
    Fn* f;
    if (d->D <= SMALL_DOMAIN)
    {
        Vals full; full.init(d->D, w);
        for (u32 i = 0; i < d->D; i++) full.set(i, (lo + i) & maskw(w));
        f = fnFromFull(d, w, std::move(full));
    }
    else
    {
        static std::map<std::pair<Domain*, unsigned>, Fn*> idents;
        auto& p = idents[{ d, w }];
        if (!p)
        {
            Vals full; full.init(d->D, w);
            for (u32 i = 0; i < d->D; i++) full.set(i, (lo + i) & maskw(w));
            p = internFn(d, w, std::move(full), true); p->ident = true; p->run = true; p->off = lo & maskw(w);
        }
        f = p;
    }
    v->node = mkUn(f->id, v->id);
    return v;
}
Var* newRaw(unsigned w, const std::string& name)
{
    Var* v = new Var; v->id = (int) gVars.size(); v->dom = nullptr; v->w = w; v->name = name; v->def = nullptr; gVars.push_back(v);
    bool n; Expr* e = intern(E_RAW, w, (u64) v->id, 0, nullptr, &n);
    e->uvar = -2; e->lo = 0; e->hi = maskw(w); e->ctree = false; e->csize = 0;
    v->node = e; return v;
}

u64 evalOp(u8 op, unsigned w, u64 c, const u64* kv, Expr** k)
{
    u64 m = maskw(w);
    switch (op)
    {
        case E_ADD: return (kv[0] + kv[1]) & m;
        case E_SUB: return (kv[0] - kv[1]) & m;
        case E_MUL: return (kv[0] * kv[1]) & m;
        case E_UDIV: return kv[1] ? kv[0] / kv[1] : m;
        case E_UREM: return kv[1] ? kv[0] % kv[1] : kv[0];
        case E_SDIV: { i64 a = sext(kv[0], w), b = sext(kv[1], w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (u64) (-(u64) a) & m; return (u64) (a / b) & m; }
        case E_SREM: { i64 a = sext(kv[0], w), b = sext(kv[1], w); if (!b) return (u64) a & m; if (b == -1) return 0; return (u64) (a % b) & m; }
        case E_SHL: return kv[1] >= w ? 0 : (kv[0] << kv[1]) & m;
        case E_LSHR: return kv[1] >= w ? 0 : kv[0] >> kv[1];
        case E_ASHR: { i64 a = sext(kv[0], w); u64 s = kv[1] >= w ? w - 1 : kv[1]; return (u64) (a >> s) & m; }
        case E_AND: case E_BAND: return kv[0] & kv[1];
        case E_OR: case E_BOR: return kv[0] | kv[1];
        case E_XOR: return kv[0] ^ kv[1];
        case E_EQ: return kv[0] == kv[1];
        case E_ULT: return kv[0] < kv[1];
        case E_SLT: return sext(kv[0], k[0]->w) < sext(kv[1], k[0]->w);
        case E_ITE: return kv[0] ? kv[1] : kv[2];
        case E_ZEXT: return kv[0];
        case E_SEXT: return (u64) sext(kv[0], k[0]->w) & m;
        case E_EXTRACT: return (kv[0] >> c) & m;
        case E_CONCAT: return ((kv[0] << k[1]->w) | kv[1]) & m;
        case E_NOT: return kv[0] ^ 1;
    }
    fail("evalOp");
}

// fold an operation whose operands are constants or unary functions of the same variable
static std::unordered_map<u64, std::vector<std::pair<std::vector<u64>, Expr*>>> foldMemo;
static Expr* fold(u8 op, unsigned w, u64 c, Expr** ks, u32 nk)
{
    int var = -1;
    for (u32 i = 0; i < nk; i++)
    {
        if (ks[i]->uvar == -2) return nullptr;
        if (ks[i]->uvar >= 0) { if (var >= 0 && var != ks[i]->uvar) return nullptr; var = ks[i]->uvar; }
    }
    u64 kv[3];
    if (var < 0)
    {
        for (u32 i = 0; i < nk; i++) kv[i] = ks[i]->c;
        return mkC(evalOp(op, w, c, kv, ks), w);
    }
    Domain* d = gVars[var]->dom;
    // memo on function ids (shared between variables of the same domain)
    std::vector<u64> key { op, w, c };
    u64 h = mix64(op * 64 + w) ^ mix64(c);
    for (u32 i = 0; i < nk; i++) { u64 z = ks[i]->isConst() ? (ks[i]->c * 2) : (ks[i]->c * 2 + 1); key.push_back(z); key.push_back(ks[i]->w * 2 + ks[i]->isConst()); h = mix64(h ^ z); }
    key.push_back((u64) d->id);
    static std::unordered_map<u64, std::vector<std::pair<std::vector<u64>, u32>>> memo;
    auto& bucket = memo[h ^ d->id];
    for (auto& pr: bucket) if (pr.first == key) return mkUn(pr.second, var);
    Fn* f[3]; bool anyBig = false; size_t kmax = 0; (void) kmax;
    for (u32 i = 0; i < nk; i++) { f[i] = ks[i]->isConst() ? nullptr : fnOf(ks[i]); if (f[i]) { fnUpgrade(f[i]); anyBig |= f[i]->big; } }
    Fn* r = nullptr;
    if (anyBig && nk == 2 && (op == E_ULT || op == E_EQ || op == E_SLT) && (!f[0] || !f[1]) && (f[0] ? f[0] : f[1])->run && d->nRoot < ROOT_LIMIT)
    {   // a comparison of the input itself with a constant: an interval
        int q = f[0] ? 0 : 1; Fn* g = f[q]; u64 m = maskw(g->w), kc = ks[1 - q]->c & m, off = g->off;
        std::vector<std::pair<u32, u32>> in;
        // within a segment the value rises with the index, unsigned and signed
        std::vector<u32> cut { 0, d->D };
        for (u64 at: { (u64) (0 - off) & m, ((m >> 1) + 1 - off) & m }) if (at > 0 && at < d->D) cut.push_back((u32) at);
        std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
        for (size_t i = 0; i + 1 < cut.size(); i++)
        {
            u32 a = cut[i], b = cut[i + 1];
            auto holds = [&](u32 x) { u64 y = (x + off) & m; u64 k2[2] = { q ? kc : y, q ? y : kc }; return evalOp(op, 1, 0, k2, ks) != 0; };
            if (op == E_EQ) { u64 x = (kc - off) & m; if (x >= a && x < b) in.push_back({ (u32) x, (u32) x + 1 }); continue; }
            bool first = holds(a), last = holds(b - 1);
            if (first == last) { if (first) in.push_back({ a, b }); continue; }
            u32 l = a, h = b - 1; while (h - l > 1) { u32 mid = l + (h - l) / 2; (holds(mid) == first ? l : h) = mid; }
            in.push_back(first ? std::make_pair(a, h) : std::make_pair(h, b));
        }
        std::vector<std::pair<u32, u32>> j; for (auto& p: in) if (!j.empty() && j.back().second == p.first) j.back().second = p.second; else j.push_back(p);
        r = fnFromIntervals(d, j);
    }
    else if (!anyBig)
    {
        Vals v; v.init(d->nRoot, w);
        for (u32 x = 0; x < d->nRoot; x++)
        {
            for (u32 i = 0; i < nk; i++) kv[i] = f[i] ? f[i]->v.get(x) : ks[i]->c;
            v.set(x, evalOp(op, w, c, kv, ks));
        }
        r = internFn(d, w, std::move(v), false);
    }
    else
    {
        Vals v; v.init(d->D, w);
        for (u32 x = 0; x < d->D; x++)
        {
            for (u32 i = 0; i < nk; i++) kv[i] = !f[i] ? ks[i]->c : f[i]->big ? f[i]->v.get(x) : f[i]->v.get(d->rootClass[x]);
            v.set(x, evalOp(op, w, c, kv, ks));
        }
        r = fnFromFull(d, w, std::move(v));
        if (r->big && !r->run)
        {   // sums with a constant and extensions keep running with the index
            Fn* g = f[0] ? f[0] : f[1];
            if (g && g->run && (op == E_ADD || (op == E_SUB && f[0]) ) && nk == 2 && (!f[0] || !f[1])) { r->run = true; r->off = r->v.get(0); }
            else if (g && g->run && op == E_ZEXT && g->mn + d->D - 1 == g->mx) { r->run = true; r->off = r->v.get(0); }
            else if (g && g->run && op == E_EXTRACT && c == 0) { r->run = true; r->off = r->v.get(0); }
        }
    }
    memo[h ^ d->id].push_back({ key, r->id });
    return mkUn(r->id, var);
}

Expr* mapUnary(Expr* e, unsigned w, const std::function<u64(u64)>& g)
{
    if (e->isConst()) return mkC(g(e->c), w);
    Fn* f = fnOf(e); Domain* d = f->d; fnUpgrade(f);
    Fn* r;
    if (!f->big)
    {
        Vals v; v.init(d->nRoot, w);
        for (u32 x = 0; x < d->nRoot; x++) v.set(x, g(f->v.get(x)) & maskw(w));
        r = internFn(d, w, std::move(v), false);
    }
    else
    {
        Vals v; v.init(d->D, w);
        u64 last = 0, lastR = 0; bool have = false;
        for (u32 x = 0; x < d->D; x++) { u64 a = f->v.get(x); if (!have || a != last) { last = a; lastR = g(a) & maskw(w); have = true; } v.set(x, lastR); }
        r = fnFromFull(d, w, std::move(v));
    }
    return mkUn(r->id, e->uvar);
}

bool distinctVals(Expr* e, Expr* dom, size_t limit, std::vector<u64>& out)
{
    out.clear();
    if (e->isConst()) { out.push_back(e->c); return true; }
    Fn* f = fnOf(e); Domain* d = f->d; Fn* g = dom && !dom->isConst() ? fnOf(dom) : nullptr;
    if (dom && dom->isFalse()) return true;
    fnUpgrade(f); if (g) fnUpgrade(g);
    std::unordered_set<u64> s;
    if (!f->big && (!g || !g->big))
    {
        for (u32 x = 0; x < d->nRoot; x++) if (!g || g->v.get(x)) { s.insert(f->v.get(x)); if (s.size() > limit) return false; }
    }
    else
        for (u32 x = 0; x < d->D; x++) if (!g || fnAt(g, x)) { s.insert(fnAt(f, x)); if (s.size() > limit) return false; }
    out.assign(s.begin(), s.end()); std::sort(out.begin(), out.end());
    return true;
}

// ---------------------------------------------------------------- constructors
static void setRange(Expr* e)
{
    int uv = -1;
    for (u32 i = 0; i < e->nk; i++)
    {
        if (e->k[i]->uvar == -2) { uv = -2; break; }
        if (e->k[i]->uvar >= 0) { if (uv >= 0 && uv != e->k[i]->uvar) { uv = -2; break; } uv = e->k[i]->uvar; }
    }
    // A composite node is never itself in unary normal form, so mark it general.
    e->uvar = -2; (void) uv;
    e->lo = 0; e->hi = maskw(e->w); e->ctree = false; e->csize = 0;
    auto K = [&](int i) { return e->k[i]; };
    switch (e->op)
    {
        case E_ADD: { u128 h = (u128) K(0)->hi + K(1)->hi; if (h <= maskw(e->w)) { e->hi = (u64) h; e->lo = K(0)->lo + K(1)->lo; } else if ((u128) K(0)->lo + K(1)->lo > maskw(e->w)) { e->lo = (K(0)->lo + K(1)->lo) & maskw(e->w); e->hi = (u64) h & maskw(e->w); } break; }
        case E_SUB: if (K(0)->lo >= K(1)->hi) { e->lo = K(0)->lo - K(1)->hi; e->hi = K(0)->hi - K(1)->lo; } break;
        case E_MUL: { u128 h = (u128) K(0)->hi * K(1)->hi; if (h <= maskw(e->w)) { e->hi = (u64) h; e->lo = K(0)->lo * K(1)->lo; } break; }
        case E_UDIV: if (K(1)->lo > 0) { e->hi = K(0)->hi / K(1)->lo; e->lo = K(0)->lo / K(1)->hi; } break;
        case E_UREM: if (K(1)->hi > 0 && K(1)->lo > 0) { e->hi = std::min(K(0)->hi, K(1)->hi - 1); } break;
        case E_AND: e->hi = std::min(K(0)->hi, K(1)->hi); break;
        case E_OR: case E_XOR: { u64 h = K(0)->hi | K(1)->hi; unsigned b = h ? 64 - __builtin_clzll(h) : 0; e->hi = b >= 64 ? ~0ull : ((1ull << b) - 1); if (e->op == E_OR) e->lo = std::max(K(0)->lo, K(1)->lo); break; }
        case E_LSHR: if (K(1)->isConst()) { e->hi = K(1)->c >= e->w ? 0 : K(0)->hi >> K(1)->c; e->lo = K(1)->c >= e->w ? 0 : K(0)->lo >> K(1)->c; } else e->hi = K(0)->hi; break;
        case E_SHL: if (K(1)->isConst() && K(1)->c < e->w) { u128 h = (u128) K(0)->hi << K(1)->c; if (h <= maskw(e->w)) { e->hi = (u64) h; e->lo = K(0)->lo << K(1)->c; } } break;
        case E_ZEXT: e->lo = K(0)->lo; e->hi = K(0)->hi; break;
        case E_EXTRACT: if (e->c == 0 && K(0)->hi <= maskw(e->w)) { e->lo = K(0)->lo; e->hi = K(0)->hi; } else if (e->c > 0) { u64 h = K(0)->hi >> e->c; if (h <= maskw(e->w)) { e->hi = h; e->lo = K(0)->lo >> e->c; } } break;
        case E_CONCAT: e->lo = (K(0)->lo << K(1)->w) | K(1)->lo; e->hi = (K(0)->hi << K(1)->w) | K(1)->hi; break;
        case E_ITE:
            e->lo = std::min(K(1)->lo, K(2)->lo); e->hi = std::max(K(1)->hi, K(2)->hi);
            if (K(1)->ctree && K(2)->ctree) { e->ctree = true; e->csize = K(1)->csize + K(2)->csize; if (e->csize > 100000) e->ctree = false; }
            break;
        default: break;
    }
    if (e->w == 1 && e->op != E_ITE) { e->lo = 0; e->hi = 1; }
}

static bool isBoolOp(Expr* e) { return e->w == 1; }

// push an operation with otherwise constant operands into an ITE tree of constants
static std::unordered_map<u64, Expr*> pushMemo;
static Expr* pushIte(u8 op, unsigned w, u64 c, Expr** ks, u32 nk, int pos)
{
    // ks[pos] is ctree ITE, other operands constant
    std::unordered_map<Expr*, Expr*> memo;
    std::function<Expr*(Expr*)> rec = [&](Expr* e) -> Expr* {
        if (e->op != E_ITE)
        {
            Expr* kk[3];
            for (u32 i = 0; i < nk; i++) kk[i] = (int) i == pos ? e : ks[i];
            return fold(op, w, c, kk, nk);
        }
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        Expr* r = mkIte(e->k[0], rec(e->k[1]), rec(e->k[2]));
        memo[e] = r; return r;
    };
    return rec(ks[pos]);
}
static Expr* tryPush(u8 op, unsigned w, u64 c, Expr** ks, u32 nk)
{
    int pos = -1;
    for (u32 i = 0; i < nk; i++)
    {
        if (ks[i]->isConst()) continue;
        if (ks[i]->op == E_ITE && ks[i]->ctree && ks[i]->csize <= 64 && pos < 0) { pos = (int) i; continue; }
        return nullptr;
    }
    if (pos < 0) return nullptr;
    return pushIte(op, w, c, ks, nk, pos);
}

Expr* mkBin(Op op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (a->w != b->w) fail("width mismatch in binop");
    if (w == 1)
    {
        if (op == E_AND) return mkAnd(a, b);
        if (op == E_OR) return mkOr(a, b);
        if (op == E_XOR || op == E_ADD || op == E_SUB) return mkIte(a, mkNot(b), b);
        if (op == E_MUL) return mkAnd(a, b);
    }
    Expr* ks[2] = { a, b };
    if (Expr* r = fold(op, w, 0, ks, 2)) return r;
    bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR;
    if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    ks[0] = a; ks[1] = b;
    if (b->isConst())
    {
        u64 c = b->c;
        switch (op)
        {
            case E_ADD: if (!c) return a; if (a->op == E_ADD && a->k[1]->isConst()) return mkBin(E_ADD, a->k[0], mkC(a->k[1]->c + c, w)); break;
            case E_SUB: return mkBin(E_ADD, a, mkC(-c, w));
            case E_MUL: if (!c) return b; if (c == 1) return a; if ((c & (c - 1)) == 0) return mkBin(E_SHL, a, mkC((u64) __builtin_ctzll(c), w)); break;
            case E_UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return mkBin(E_LSHR, a, mkC((u64) __builtin_ctzll(c), w)); break;
            case E_UREM: if (c && (c & (c - 1)) == 0) return mkBin(E_AND, a, mkC(c - 1, w)); break;
            case E_SHL: case E_LSHR: if (!c) return a; if (c >= w) return mkC(0, w);
                if (a->op == op && a->k[1]->isConst()) { u64 t = a->k[1]->c + c; return t >= w ? mkC(0, w) : mkBin(op, a->k[0], mkC(t, w)); }
                if (op == E_LSHR && a->hi >> c == 0) return mkC(0, w);
                if (op == E_LSHR && a->op == E_SHL && a->k[1]->isConst() && a->k[1]->c == c && (a->k[0]->hi >> (w - c)) == 0) return a->k[0];
                if (op == E_LSHR && a->op == E_ZEXT) { if (c >= a->k[0]->w) return mkC(0, w); return mkZext(mkExtract(a->k[0], (unsigned) c, a->k[0]->w - (unsigned) c), w); }
                if (op == E_LSHR && a->op == E_OR) return mkBin(E_OR, mkBin(E_LSHR, a->k[0], b), mkBin(E_LSHR, a->k[1], b));
                break;
            case E_ASHR: if (!c) return a; if (a->hi <= maskw(w - 1)) return mkBin(E_LSHR, a, b); break;
            case E_AND:
                if (!c) return b; if (c == maskw(w)) return a;
                if (a->hi <= c && ((c + 1) & c) == 0) return a;
                if (a->op == E_AND && a->k[1]->isConst()) return mkBin(E_AND, a->k[0], mkC(a->k[1]->c & c, w));
                if (a->op == E_OR) return mkBin(E_OR, mkBin(E_AND, a->k[0], b), mkBin(E_AND, a->k[1], b));
                if (a->op == E_SHL && a->k[1]->isConst() && (c & ~(maskw(w) << a->k[1]->c)) == c) return mkC(0, w);
                if (a->op == E_SHL && a->k[1]->isConst() && a->k[0]->hi < (1ull << 62) && ((a->k[0]->hi << a->k[1]->c) & maskw(w)) >> a->k[1]->c == a->k[0]->hi)
                {   // push mask below the shift
                    u64 sh = a->k[1]->c; return mkBin(E_SHL, mkBin(E_AND, a->k[0], mkC(c >> sh, w)), a->k[1]);
                }
                break;
            case E_OR: if (!c) return a; if (c == maskw(w)) return b; break;
            case E_XOR: if (!c) return a; if (a->op == E_XOR && a->k[1]->isConst()) return mkBin(E_XOR, a->k[0], mkC(a->k[1]->c ^ c, w)); break;
            default: break;
        }
    }
    if (a == b)
    {
        if (op == E_SUB || op == E_XOR) return mkC(0, w);
        if (op == E_AND || op == E_OR) return a;
    }
    if (op == E_SUB && a->op == E_ADD && a->k[1]->isConst() && a->k[0] == b) return a->k[1];
    if (op == E_SUB && a->op == E_ADD && a->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]);
    if (op == E_SUB && b->op == E_ADD && b->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_SUB, a, b->k[0]), mkC(-b->k[1]->c, w));
    if (op == E_SUB && a->op == E_ADD && (a->k[0] == b)) return a->k[1];
    if (op == E_SUB && a->op == E_ADD && (a->k[1] == b)) return a->k[0];
    if (op == E_ADD && a->op == E_ADD && a->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
    if (op == E_ADD && b->op == E_ADD && b->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
    if (Expr* r = tryPush(op, w, 0, ks, 2)) return r;
    return node(op, w, 0, { a, b });
}

Expr* mkEq(Expr* a, Expr* b)
{
    if (a->w != b->w) fail("width mismatch in eq");
    if (a == b) return mkB(true);
    if (a->w == 1)
    {
        if (a->isConst()) std::swap(a, b);
        if (b->isConst()) return b->c ? a : mkNot(a);
        return mkIte(a, b, mkNot(b));
    }
    Expr* ks[2] = { a, b };
    if (Expr* r = fold(E_EQ, 1, 0, ks, 2)) return r;
    if (a->lo > b->hi || b->lo > a->hi) return mkB(false);
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    ks[0] = a; ks[1] = b;
    if (b->isConst())
    {
        if (a->op == E_ZEXT) return b->c > maskw(a->k[0]->w) ? mkB(false) : mkEq(a->k[0], mkC(b->c, a->k[0]->w));
        if (a->op == E_ADD && a->k[1]->isConst()) return mkEq(a->k[0], mkC(b->c - a->k[1]->c, a->w));
        if (a->op == E_SUB && b->c == 0) return mkEq(a->k[0], a->k[1]);
        if (a->op == E_XOR && b->c == 0) return mkEq(a->k[0], a->k[1]);
        if (a->op == E_CONCAT) return mkAnd(mkEq(a->k[0], mkC(b->c >> a->k[1]->w, a->k[0]->w)), mkEq(a->k[1], mkC(b->c, a->k[1]->w)));
        if (a->op == E_OR && b->c == 0) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
        if (a->op == E_ITE)
        {
            // partially constant branches
            if (a->k[1]->isConst() || a->k[2]->isConst())
                return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
        }
        if (a->op == E_SHL && a->k[1]->isConst() && (a->k[0]->hi << a->k[1]->c) <= maskw(a->w) && (a->k[0]->hi >> (64 - a->k[1]->c)) == 0 && b->c == 0) return mkEq(a->k[0], mkC(0, a->w));
    }
    else if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == E_ADD && b->op == E_ADD && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    if (Expr* r = tryPush(E_EQ, 1, 0, ks, 2)) return r;
    return node(E_EQ, 1, 0, { a, b });
}
Expr* mkUlt(Expr* a, Expr* b)
{
    if (a->w != b->w) fail("width mismatch in ult");
    if (a == b) return mkB(false);
    if (a->w == 1) return mkAnd(mkNot(a), b);
    Expr* ks[2] = { a, b };
    if (Expr* r = fold(E_ULT, 1, 0, ks, 2)) return r;
    if (a->hi < b->lo) return mkB(true);
    if (a->lo >= b->hi) return mkB(false);
    if (b->isConst() && b->c == 1) return mkEq(a, mkC(0, a->w));
    if (a->isConst() && a->c == 0) return mkNot(mkEq(b, a));
    if (a->op == E_OR && b->isConst() && (b->c & (b->c - 1)) == 0) return mkAnd(mkUlt(a->k[0], b), mkUlt(a->k[1], b));
    if (b->op == E_OR && a->isConst() && ((a->c + 1) & a->c) == 0) return mkOr(mkUlt(a, b->k[0]), mkUlt(a, b->k[1]));
    if (a->op == E_ZEXT && b->isConst()) return b->c > maskw(a->k[0]->w) ? mkB(true) : mkUlt(a->k[0], mkC(b->c, a->k[0]->w));
    if (b->op == E_ZEXT && a->isConst()) return a->c >= maskw(b->k[0]->w) ? mkB(false) : mkUlt(mkC(a->c, b->k[0]->w), b->k[0]);
    if (b->isConst() && a->op == E_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    if (a->isConst() && b->op == E_ITE && (b->k[1]->isConst() || b->k[2]->isConst())) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
    if (Expr* r = tryPush(E_ULT, 1, 0, ks, 2)) return r;
    return node(E_ULT, 1, 0, { a, b });
}
Expr* mkSlt(Expr* a, Expr* b)
{
    if (a->w != b->w) fail("width mismatch in slt");
    if (a == b) return mkB(false);
    if (a->w == 1) return mkAnd(a, mkNot(b));
    Expr* ks[2] = { a, b };
    if (Expr* r = fold(E_SLT, 1, 0, ks, 2)) return r;
    u64 sm = maskw(a->w - 1);
    if (a->hi <= sm && b->hi <= sm) return mkUlt(a, b);
    if (Expr* r = tryPush(E_SLT, 1, 0, ks, 2)) return r;
    return node(E_SLT, 1, 0, { a, b });
}
Expr* mkNot(Expr* a)
{
    if (a->w != 1) return mkBin(E_XOR, a, mkC(~0ull, a->w));
    Expr* ks[1] = { a };
    if (Expr* r = fold(E_NOT, 1, 0, ks, 1)) return r;
    if (a->op == E_NOT) return a->k[0];
    return node(E_NOT, 1, 0, { a });
}
Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (a->w != b->w) fail("width mismatch in ite");
    if (c->isConst()) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == E_NOT) return mkIte(c->k[0], b, a);
    Expr* ks[3] = { c, a, b };
    if (Expr* r = fold(E_ITE, a->w, 0, ks, 3)) return r;
    if (a->w == 1)
    {
        if (a->isTrue()) return mkOr(c, b);
        if (a->isFalse()) return mkAnd(mkNot(c), b);
        if (b->isTrue()) return mkOr(mkNot(c), a);
        if (b->isFalse()) return mkAnd(c, a);
        if (a == c) return mkOr(c, b);
        if (b == c) return mkAnd(c, a);
    }
    if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (b->op == E_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    if (b->op == E_ITE && b->k[2] == a) return mkIte(mkAnd(mkNot(c), b->k[0]), b->k[1], a);
    if (a->op == E_ITE && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
    if (a->op == E_ITE && a->k[1] == b) return mkIte(mkAnd(c, mkNot(a->k[0])), a->k[2], b);
    ks[1] = a; ks[2] = b;
    if (Expr* r = fold(E_ITE, a->w, 0, ks, 3)) return r;
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkIte(c, a->k[0], b->k[0]), a->w);
    return node(E_ITE, a->w, 0, { c, a, b });
}
Expr* mkZext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    Expr* ks[1] = { a };
    if (Expr* r = fold(E_ZEXT, w, 0, ks, 1)) return r;
    if (a->op == E_ZEXT) return mkZext(a->k[0], w);
    if (a->w == 1) return mkIte(a, mkC(1, w), mkC(0, w));
    if (Expr* r = tryPush(E_ZEXT, w, 0, ks, 1)) return r;
    return node(E_ZEXT, w, 0, { a });
}
Expr* mkSext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    Expr* ks[1] = { a };
    if (Expr* r = fold(E_SEXT, w, 0, ks, 1)) return r;
    if (a->w > 1 && a->hi <= maskw(a->w - 1)) return mkZext(a, w);
    if (a->w == 1) return mkIte(a, mkC(~0ull, w), mkC(0, w));
    if (Expr* r = tryPush(E_SEXT, w, 0, ks, 1)) return r;
    return node(E_SEXT, w, 0, { a });
}
Expr* mkExtract(Expr* a, unsigned off, unsigned w)
{
    if (off == 0 && w == a->w) return a;
    if (off + w > a->w) fail("bad extract");
    Expr* ks[1] = { a };
    if (Expr* r = fold(E_EXTRACT, w, off, ks, 1)) return r;
    if (a->op == E_EXTRACT) return mkExtract(a->k[0], (unsigned) a->c + off, w);
    if (a->op == E_ZEXT || a->op == E_SEXT)
    {
        unsigned kw = a->k[0]->w;
        if (off + w <= kw) return mkExtract(a->k[0], off, w);
        if (a->op == E_ZEXT) { if (off >= kw) return mkC(0, w); return mkZext(mkExtract(a->k[0], off, kw - off), w); }
    }
    if (a->op == E_CONCAT)
    {
        unsigned lw = a->k[1]->w;
        if (off + w <= lw) return mkExtract(a->k[1], off, w);
        if (off >= lw) return mkExtract(a->k[0], off - lw, w);
    }
    if (a->op == E_ITE && (a->k[1]->isConst() || a->k[2]->isConst() || (a->csize <= 64 && a->ctree))) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
    if (off == 0 && (a->op == E_AND || a->op == E_OR || a->op == E_XOR || a->op == E_ADD || a->op == E_SUB || a->op == E_MUL))
        return mkBin((Op) a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    if (a->op == E_AND || a->op == E_OR || a->op == E_XOR)
        return mkBin((Op) a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    if (a->op == E_SHL && a->k[1]->isConst())
    {
        u64 s = a->k[1]->c;
        if (off >= s) return mkExtract(a->k[0], (unsigned) (off - s), w);
        if (off + w <= s) return mkC(0, w);
        if (off == 0) return mkBin(E_SHL, mkExtract(a->k[0], 0, w), mkC(s, w));
    }
    if (a->op == E_LSHR && a->k[1]->isConst() && a->k[1]->c + off + w <= a->w) return mkExtract(a->k[0], (unsigned) a->k[1]->c + off, w);
    if (Expr* r = tryPush(E_EXTRACT, w, off, ks, 1)) return r;
    return node(E_EXTRACT, w, off, { a });
}
Expr* mkConcat(Expr* hi, Expr* lo)
{
    unsigned w = hi->w + lo->w;
    if (w > 64) fail("concat wider than 64 bits");
    Expr* ks[2] = { hi, lo };
    if (Expr* r = fold(E_CONCAT, w, 0, ks, 2)) return r;
    if (hi->isConst() && hi->c == 0) return mkZext(lo, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], (unsigned) lo->c, w);
    // reassemble extract pieces of a unary function
    if (hi->op == E_CONCAT && lo->op == E_CONCAT) {}
    return node(E_CONCAT, w, 0, { hi, lo });
}

static Expr* mkNary(bool isAnd, const std::vector<Expr*>& in)
{
    std::vector<Expr*> flat; flat.reserve(in.size());
    std::function<void(Expr*, int)> add = [&](Expr* e, int d) {
        if (e->w != 1) fail("boolean op on non-boolean");
        if (e->op == (isAnd ? E_BAND : E_BOR)) { for (u32 i = 0; i < e->nk; i++) flat.push_back(e->k[i]); }
        else flat.push_back(e);
    };
    for (Expr* e: in) add(e, 0);
    // combine unary per variable
    std::vector<Expr*> out; std::vector<Expr*> un;
    for (Expr* e: flat)
    {
        if (e->isConst()) { if ((bool) e->c != isAnd) return mkB(!isAnd); continue; }
        if (e->op == E_UN)
        {
            bool done = false;
            for (auto& u: un) if (u->uvar == e->uvar)
            {
                if (u != e) { Expr* ks[2] = { u, e }; if (ks[0]->c > ks[1]->c) std::swap(ks[0], ks[1]); u = fold(isAnd ? E_AND : E_OR, 1, 0, ks, 2); }
                if (u->isConst()) { if ((bool) u->c != isAnd) return mkB(!isAnd); }
                done = true; break;
            }
            if (!done) un.push_back(e);
            // drop neutral constants
            un.erase(std::remove_if(un.begin(), un.end(), [](Expr* x) { return x->isConst(); }), un.end());
        }
        else out.push_back(e);
    }
    for (Expr* u: un) out.push_back(u);
    std::sort(out.begin(), out.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    out.erase(std::unique(out.begin(), out.end()), out.end());
    // complements
    if (out.size() > 1)
    {
        std::unordered_set<Expr*> s(out.begin(), out.end());
        for (Expr* e: out) if (e->op == E_NOT && s.count(e->k[0])) return mkB(!isAnd);
        // absorption: in AND, drop (x|...) if x present; replace (!x | y) by y ; dually for OR
        u8 dual = isAnd ? E_BOR : E_BAND;
        std::vector<Expr*> res; bool changed = false;
        for (Expr* e: out)
        {
            if (e->op == E_NOT && e->k[0]->op == (isAnd ? E_BAND : E_BOR))
            {
                // !(a & b) with a present -> !(b) ...   (de morgan on the fly)
                Expr* q = e->k[0]; std::vector<Expr*> keep; bool red = false, kill = false;
                for (u32 i = 0; i < q->nk; i++)
                {
                    if (s.count(q->k[i])) { red = true; continue; }
                    Expr* nq = mkNot(q->k[i]);
                    if (s.count(nq)) { kill = true; break; }
                    keep.push_back(q->k[i]);
                }
                if (kill) { changed = true; continue; }
                if (red) { changed = true; res.push_back(mkNot(mkNary(isAnd, keep))); continue; }
            }
            if (e->op == dual)
            {
                bool drop = false; std::vector<Expr*> keep; bool red = false;
                for (u32 i = 0; i < e->nk; i++)
                {
                    if (s.count(e->k[i])) { drop = true; break; }
                    Expr* nq = mkNot(e->k[i]);
                    if (s.count(nq)) { red = true; continue; }
                    keep.push_back(e->k[i]);
                }
                if (drop) { changed = true; continue; }
                if (red) { changed = true; res.push_back(mkNary(!isAnd, keep)); continue; }
            }
            res.push_back(e);
        }
        if (changed) return mkNary(isAnd, res);
        // (p & a) | (p & !a) -> p   (two-element dual nodes differing in one complementary child)
        if (out.size() == 2 && out[0]->op == dual && out[1]->op == dual)
        {
            std::vector<Expr*> A(out[0]->k, out[0]->k + out[0]->nk), B(out[1]->k, out[1]->k + out[1]->nk), common, ra, rb;
            std::unordered_set<Expr*> sb(B.begin(), B.end()), sa(A.begin(), A.end());
            for (Expr* x: A) (sb.count(x) ? common : ra).push_back(x);
            for (Expr* x: B) if (!sa.count(x)) rb.push_back(x);
            if (!common.empty())
            {
                Expr* inner = mkNary(isAnd, { mkNary(!isAnd, ra), mkNary(!isAnd, rb) });
                common.push_back(inner);
                return mkNary(!isAnd, common);
            }
        }
    }
    if (out.empty()) return mkB(isAnd);
    if (out.size() == 1) return out[0];
    return nodeV(isAnd ? E_BAND : E_BOR, 1, 0, out);
}
Expr* mkAndN(const std::vector<Expr*>& v) { return mkNary(true, v); }
Expr* mkOrN(const std::vector<Expr*>& v) { return mkNary(false, v); }

static Expr* rebuild(Expr* e, std::vector<Expr*>& ks)
{
    switch (e->op)
    {
        case E_EQ: return mkEq(ks[0], ks[1]);
        case E_ULT: return mkUlt(ks[0], ks[1]);
        case E_SLT: return mkSlt(ks[0], ks[1]);
        case E_ITE: return mkIte(ks[0], ks[1], ks[2]);
        case E_ZEXT: return mkZext(ks[0], e->w);
        case E_SEXT: return mkSext(ks[0], e->w);
        case E_EXTRACT: return mkExtract(ks[0], (unsigned) e->c, e->w);
        case E_CONCAT: return mkConcat(ks[0], ks[1]);
        case E_NOT: return mkNot(ks[0]);
        case E_BAND: return mkAndN(ks);
        case E_BOR: return mkOrN(ks);
        default: return mkBin((Op) e->op, ks[0], ks[1]);
    }
}
Expr* substituteMap(Expr* e, const std::unordered_map<Expr*, Expr*>& m, std::unordered_map<Expr*, Expr*>& memo)
{
    auto f = m.find(e); if (f != m.end()) return f->second;
    if (e->op == E_CONST || e->op == E_UN || e->op == E_RAW) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    std::vector<Expr*> ks(e->nk); bool ch = false;
    for (u32 i = 0; i < e->nk; i++) { ks[i] = substituteMap(e->k[i], m, memo); ch |= ks[i] != e->k[i]; }
    Expr* r = ch ? rebuild(e, ks) : e;
    memo[e] = r; return r;
}
Expr* substitute(Expr* e, Expr* from, Expr* to, std::unordered_map<Expr*, Expr*>& memo)
{
    std::unordered_map<Expr*, Expr*> m { { from, to } };
    return substituteMap(e, m, memo);
}

u64 Evaluator::eval(Expr* e)
{
    switch (e->op)
    {
        case E_CONST: return e->c;
        case E_UN: {
            auto it = m.a.find(e->uvar);
            u64 x;
            if (it == m.a.end())
            {
                Var* v = gVars[e->uvar];
                if (v->def) { u64 d = eval(v->def); if (d < v->dom->lo || d - v->dom->lo >= v->dom->D) x = 0; else x = d - v->dom->lo; }
                else x = 0;
            }
            else x = it->second;
            return fnAt(fnOf(e), (u32) x);
        }
        case E_RAW: { auto it = m.a.find((int) e->c); return it == m.a.end() ? 0 : it->second & maskw(e->w); }
        default: break;
    }
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    u64 r;
    if (e->op == E_BAND) { r = 1; for (u32 i = 0; i < e->nk; i++) if (!eval(e->k[i])) { r = 0; break; } }
    else if (e->op == E_BOR) { r = 0; for (u32 i = 0; i < e->nk; i++) if (eval(e->k[i])) { r = 1; break; } }
    else if (e->op == E_ITE) r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]);
    else { u64 kv[3]; for (u32 i = 0; i < e->nk; i++) kv[i] = eval(e->k[i]); r = evalOp(e->op, e->w, e->c, kv, e->k); }
    memo[e] = r; return r;
}

void collectVars(Expr* e, std::vector<int>& out)
{
    std::unordered_set<Expr*> seen; std::vector<Expr*> st { e }; std::unordered_set<int> vs;
    while (!st.empty())
    {
        Expr* x = st.back(); st.pop_back();
        if (!seen.insert(x).second) continue;
        if (x->op == E_UN) { if (vs.insert(x->uvar).second) { out.push_back(x->uvar); if (gVars[x->uvar]->def) st.push_back(gVars[x->uvar]->def); } continue; }
        if (x->op == E_RAW) { if (vs.insert((int) x->c).second) out.push_back((int) x->c); continue; }
        for (u32 i = 0; i < x->nk; i++) st.push_back(x->k[i]);
    }
}

std::string show(Expr* e, int d)
{
    static const char* n[] = { "c", "un", "raw", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "slt", "ite", "zext", "sext", "extract", "concat", "not", "band", "bor" };
    if (e->op == E_CONST) return std::to_string((i64) sext(e->c, e->w));
    if (e->op == E_UN) return "f" + std::to_string(e->c) + "(" + gVars[e->uvar]->name + ")";
    if (e->op == E_RAW) return gVars[e->c]->name;
    if (d == 0) return "..";
    std::string s = std::string("(") + n[e->op] + std::to_string(e->w);
    for (u32 i = 0; i < e->nk && i < 8; i++) s += " " + show(e->k[i], d - 1);
    return s + ")";
}
