// Expression layer of the symbolic executor: hash-consed bit-vector terms, with a normal form
// for terms that depend on ONE finite-domain input variable ("unary functions").
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <stdexcept>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef unsigned __int128 u128;

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] void fail(const std::string& m);

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64) v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64) ((v ^ m) - m); }

enum Op : u8 {
    E_CONST, E_UN /*fn(var)*/, E_RAW,
    E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
    E_EQ, E_ULT, E_SLT, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
    E_NOT, E_BAND, E_BOR // boolean (width 1) n-ary and/or, not
};

struct Expr
{
    u8 op; u8 w;
    bool ctree;     // tree of ITE over constants
    int32_t uvar;   // >=0: depends on exactly this finite variable; -1: constant; -2: anything else
    u32 id;
    u32 nk;
    u64 c;          // constant / fn id / raw var id / extract offset
    u64 lo, hi;     // unsigned range
    Expr** k;
    u32 csize;      // number of leaves of ctree (capped)
    bool isConst() const { return op == E_CONST; }
    bool isTrue() const { return op == E_CONST && w == 1 && c == 1; }
    bool isFalse() const { return op == E_CONST && w == 1 && c == 0; }
};

// value vectors with compact storage
struct Vals
{
    u8 es = 1; std::vector<u8> d; size_t n = 0;
    void init(size_t n_, unsigned w) { es = w <= 8 ? 1 : w <= 16 ? 2 : w <= 32 ? 4 : 8; n = n_; d.assign(n * es, 0); }
    void grow(size_t n_) { n = n_; d.resize(n * es, 0); }
    u64 get(size_t i) const
    {
        switch (es) { case 1: return d[i]; case 2: return ((const uint16_t*) d.data())[i]; case 4: return ((const u32*) d.data())[i]; default: return ((const u64*) d.data())[i]; }
    }
    void set(size_t i, u64 v)
    {
        switch (es) { case 1: d[i] = (u8) v; break; case 2: ((uint16_t*) d.data())[i] = (uint16_t) v; break; case 4: ((u32*) d.data())[i] = (u32) v; break; default: ((u64*) d.data())[i] = v; }
    }
};

struct Domain
{
    u64 lo; u32 D; int id;
    std::vector<u32> rootClass; u32 nRoot = 1; u32 ver = 0;
    std::vector<u64> W1, W2; std::vector<u32> rep, cnt;
    std::vector<u32> parent;               // class a class was split from (smaller number); classes keep their number
    std::vector<u64> w1, w2;
    std::unordered_map<u64, u32> unop, binop; // memo
};

struct Fn
{
    Domain* d; u8 w; bool big; u32 ver; Vals v; u64 h1, h2; u32 id; bool ident = false, run = false; u64 off = 0; // run: value = (index + off) mod 2^w
    u64 mn, mx;
};

struct Var { int id; Domain* dom; unsigned w; std::string name; Expr* node; Expr* def; };

struct VarRange { u64 lo, hi; };

extern std::vector<Var*> gVars;
extern std::vector<Fn*> gFns;

Domain* getDomain(u64 lo, u64 hi);
Var* newFinite(u64 lo, u64 hi, unsigned w, const std::string& name, Expr* def = nullptr);
Var* newRaw(unsigned w, const std::string& name);

Expr* mkC(u64 c, unsigned w);
inline Expr* mkB(bool b) { return mkC(b, 1); }
Expr* mkUn(u32 fn, int var);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkUlt(Expr* a, Expr* b);
Expr* mkSlt(Expr* a, Expr* b);
inline Expr* mkNotE(Expr* a);
Expr* mkNot(Expr* a);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
inline Expr* mkTrunc(Expr* a, unsigned w) { return mkExtract(a, 0, w); }
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkAndN(const std::vector<Expr*>& v);
Expr* mkOrN(const std::vector<Expr*>& v);
inline Expr* mkAnd(Expr* a, Expr* b) { return mkAndN({ a, b }); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkOrN({ a, b }); }
Expr* substitute(Expr* e, Expr* from, Expr* to, std::unordered_map<Expr*, Expr*>& memo);
Expr* substituteMap(Expr* e, const std::unordered_map<Expr*, Expr*>& m, std::unordered_map<Expr*, Expr*>& memo);

// unary machinery
Fn* fnOf(Expr* e);                                     // E_UN only
u64 fnAt(Fn* f, u32 x);                                // value at domain index
Expr* mapUnary(Expr* e, unsigned w, const std::function<u64(u64)>& g); // g applied to values of E_UN e
bool distinctVals(Expr* e, Expr* dom, size_t limit, std::vector<u64>& out); // values e takes where dom holds
void fnUpgrade(Fn* f);
u64 evalOp(u8 op, unsigned w, u64 c, const u64* kv, Expr** k);

// model evaluation: assignment: var id -> domain index (finite) or value (raw)
struct Model { std::unordered_map<int, u64> a; };
struct Evaluator
{
    const Model& m; std::unordered_map<Expr*, u64> memo;
    explicit Evaluator(const Model& m_): m(m_) {}
    u64 eval(Expr* e);
};
void collectVars(Expr* e, std::vector<int>& out);
std::string show(Expr* e, int depth = 4);
