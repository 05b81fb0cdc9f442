// Hash-consed bit-vector expressions (width 1..64) with constant folding.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>

enum EOp : uint8_t {
    E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
    E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT
};

struct Expr {
    EOp op;
    uint8_t w;
    uint32_t id;
    Expr *a, *b, *c;
    uint64_t k;               // constant value / variable id / extract low bit
    const std::vector<uint32_t> *vars; // sorted variable ids
    void *z3;                 // cached Z3_ast
    uint64_t ev;              // evaluation cache
    uint32_t evstamp;
};

static inline uint64_t maskw (unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw (uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw (w);
    return (int64_t)((v ^ m) - m);
}

struct ExprHash {
    size_t operator() (const Expr *e) const
    {
        uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
        auto mix = [&] (uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
        mix ((uint64_t)e->a); mix ((uint64_t)e->b); mix ((uint64_t)e->c); mix (e->k);
        return h;
    }
};
struct ExprEq {
    bool operator() (const Expr *x, const Expr *y) const
    {
        return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b &&
               x->c == y->c && x->k == y->k;
    }
};

// A value: concrete (e == nullptr) or symbolic.
struct Val {
    uint64_t c = 0;
    Expr *e = nullptr;
    Val () {}
    Val (uint64_t v) : c (v) {}
    Val (Expr *x) : c (0), e (x) { if (x && x->op == E_CONST) { c = x->k; e = nullptr; } }
    bool sym () const { return e != nullptr; }
};

extern uint32_t g_nvars;
extern std::vector<std::string> g_varnames;
extern std::vector<uint8_t> g_varwidths;

Expr *mk_const (uint64_t v, unsigned w);
Expr *mk_var (const std::string &name, unsigned w);
Expr *mk (EOp op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, uint64_t k = 0);
static inline Expr *toE (const Val &v, unsigned w) { return v.e ? v.e : mk_const (v.c, w); }
static inline Expr *mk_not (Expr *e) { return mk (E_XOR, e->w, e, mk_const (maskw (e->w), e->w)); }

uint64_t fold (EOp op, unsigned w, unsigned ow, uint64_t a, uint64_t b);

uint64_t umax (Expr *e, int depth);   // an upper bound of the unsigned value

// Evaluate under a model (variable id -> value; missing = 0).
typedef std::vector<uint64_t> Model;
uint64_t eval (Expr *e, const Model &m, bool fresh = true);
