#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstring>

SolverStats g_ss;
static Z3_context ctx;
static Z3_params params;

static void on_error (Z3_context c, Z3_error_code e)
{
    fprintf (stderr, "symx: z3 error: %s\n", Z3_get_error_msg (c, e));
    exit (3);
}

void solver_init (unsigned rlimit)
{
    Z3_config cfg = Z3_mk_config ();
    ctx = Z3_mk_context (cfg);
    Z3_set_error_handler (ctx, on_error);
    Z3_del_config (cfg);
    params = Z3_mk_params (ctx);
    Z3_params_inc_ref (ctx, params);
    // a resource limit, not a timeout: z3's timer threads do not survive fork ()
    if (rlimit) Z3_params_set_uint (ctx, params, Z3_mk_string_symbol (ctx, "rlimit"), rlimit);
}

static Z3_ast b2bv (Z3_ast b)
{
    Z3_sort s = Z3_mk_bv_sort (ctx, 1);
    return Z3_mk_ite (ctx, b, Z3_mk_unsigned_int64 (ctx, 1, s), Z3_mk_unsigned_int64 (ctx, 0, s));
}

static Z3_ast tobool (Expr *e);

static Z3_ast tr (Expr *e)
{
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r;
    switch (e->op) {
    case E_CONST: r = Z3_mk_unsigned_int64 (ctx, e->k, Z3_mk_bv_sort (ctx, e->w)); break;
    case E_VAR: {
        char n[32];
        snprintf (n, sizeof n, "v%llu", (unsigned long long)e->k);
        r = Z3_mk_const (ctx, Z3_mk_string_symbol (ctx, n), Z3_mk_bv_sort (ctx, e->w));
        break;
    }
    case E_ADD: r = Z3_mk_bvadd (ctx, tr (e->a), tr (e->b)); break;
    case E_SUB: r = Z3_mk_bvsub (ctx, tr (e->a), tr (e->b)); break;
    case E_MUL: r = Z3_mk_bvmul (ctx, tr (e->a), tr (e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv (ctx, tr (e->a), tr (e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv (ctx, tr (e->a), tr (e->b)); break;
    case E_UREM: r = Z3_mk_bvurem (ctx, tr (e->a), tr (e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem (ctx, tr (e->a), tr (e->b)); break;
    case E_AND: r = Z3_mk_bvand (ctx, tr (e->a), tr (e->b)); break;
    case E_OR: r = Z3_mk_bvor (ctx, tr (e->a), tr (e->b)); break;
    case E_XOR: r = Z3_mk_bvxor (ctx, tr (e->a), tr (e->b)); break;
    case E_SHL: r = Z3_mk_bvshl (ctx, tr (e->a), tr (e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr (ctx, tr (e->a), tr (e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr (ctx, tr (e->a), tr (e->b)); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = b2bv (tobool (e)); break;
    case E_ITE: r = Z3_mk_ite (ctx, tobool (e->a), tr (e->b), tr (e->c)); break;
    case E_CONCAT: r = Z3_mk_concat (ctx, tr (e->a), tr (e->b)); break;
    case E_EXTRACT: r = Z3_mk_extract (ctx, e->k + e->w - 1, e->k, tr (e->a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext (ctx, e->w - e->a->w, tr (e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext (ctx, e->w - e->a->w, tr (e->a)); break;
    default: abort ();
    }
    Z3_inc_ref (ctx, r);
    e->z3 = r;
    return r;
}

static Z3_ast tobool (Expr *e)
{
    switch (e->op) {
    case E_EQ: return Z3_mk_eq (ctx, tr (e->a), tr (e->b));
    case E_ULT: return Z3_mk_bvult (ctx, tr (e->a), tr (e->b));
    case E_ULE: return Z3_mk_bvule (ctx, tr (e->a), tr (e->b));
    case E_SLT: return Z3_mk_bvslt (ctx, tr (e->a), tr (e->b));
    case E_SLE: return Z3_mk_bvsle (ctx, tr (e->a), tr (e->b));
    case E_AND:
        if (e->w == 1) { Z3_ast x[2] = { tobool (e->a), tobool (e->b) }; return Z3_mk_and (ctx, 2, x); }
        break;
    case E_OR:
        if (e->w == 1) { Z3_ast x[2] = { tobool (e->a), tobool (e->b) }; return Z3_mk_or (ctx, 2, x); }
        break;
    case E_XOR:
        if (e->w == 1 && e->a->op == E_CONST && e->a->k == 1) return Z3_mk_not (ctx, tobool (e->b));
        break;
    default: break;
    }
    return Z3_mk_eq (ctx, tr (e), Z3_mk_unsigned_int64 (ctx, 1, Z3_mk_bv_sort (ctx, 1)));
}

// Linear constraints are decided over the integers, where sums and differences
// of sizes are easy; the translation is exact (wrapping is made explicit).
static std::unordered_map<Expr *, Z3_ast> g_int;
static Z3_ast iconst (uint64_t v) { return Z3_mk_unsigned_int64 (ctx, v, Z3_mk_int_sort (ctx)); }
static Z3_ast pow2 (unsigned w)
{
    if (w < 64) return iconst (1ull << w);
    return Z3_mk_numeral (ctx, "18446744073709551616", Z3_mk_int_sort (ctx));
}
static Z3_ast ibool (Expr *e);
static Z3_ast iadd (Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_add (ctx, 2, x); }
static Z3_ast isub (Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_sub (ctx, 2, x); }
static Z3_ast imul (Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_mul (ctx, 2, x); }
static Z3_ast itr (Expr *e) // null: not linear
{
    auto it = g_int.find (e);
    if (it != g_int.end ()) return it->second;
    Z3_ast r = nullptr, a, b;
    switch (e->op) {
    case E_CONST: r = iconst (e->k); break;
    case E_VAR: {
        char n[32];
        snprintf (n, sizeof n, "i%llu", (unsigned long long)e->k);
        r = Z3_mk_const (ctx, Z3_mk_string_symbol (ctx, n), Z3_mk_int_sort (ctx));
        break;
    }
    case E_ADD: {
        if (!(a = itr (e->a)) || !(b = itr (e->b))) break;
        uint64_t x = umax (e->a, 8), y = umax (e->b, 8), z;
        Z3_ast s = iadd (a, b);
        if (!__builtin_add_overflow (x, y, &z) && z <= maskw (e->w)) r = s;
        else r = Z3_mk_ite (ctx, Z3_mk_ge (ctx, s, pow2 (e->w)), isub (s, pow2 (e->w)), s);
        break;
    }
    case E_SUB: {
        if (!(a = itr (e->a)) || !(b = itr (e->b))) break;
        Z3_ast s = isub (a, b);
        r = Z3_mk_ite (ctx, Z3_mk_lt (ctx, a, b), iadd (s, pow2 (e->w)), s);
        break;
    }
    case E_MUL: {
        Expr *k = e->a, *o = e->b;
        uint64_t z;
        if (k->op != E_CONST) std::swap (k, o);
        if (k->op != E_CONST || __builtin_mul_overflow (umax (o, 8), k->k, &z) || z > maskw (e->w) || !(b = itr (o))) break;
        r = imul (iconst (k->k), b);
        break;
    }
    case E_ZEXT: r = itr (e->a); break;
    case E_CONCAT:
        if (e->b->op != E_CONST || !(a = itr (e->a))) break;
        r = iadd (imul (pow2 (e->b->w), a), iconst (e->b->k));
        break;
    case E_EXTRACT:
        if (e->k || umax (e->a, 8) > maskw (e->w)) break;
        r = itr (e->a);
        break;
    case E_ITE: {
        Z3_ast c;
        if (!(c = ibool (e->a)) || !(a = itr (e->b)) || !(b = itr (e->c))) break;
        r = Z3_mk_ite (ctx, c, a, b);
        break;
    }
    default: break;
    }
    if (r) Z3_inc_ref (ctx, r);
    g_int[e] = r;
    return r;
}
static Z3_ast isigned (Expr *e)
{
    Z3_ast a = itr (e);
    if (!a || umax (e, 8) <= maskw (e->w) >> 1) return a;
    return Z3_mk_ite (ctx, Z3_mk_ge (ctx, a, pow2 (e->w - 1)), isub (a, pow2 (e->w)), a);
}
static Z3_ast ibool (Expr *e)
{
    Z3_ast a, b;
    switch (e->op) {
    case E_EQ: return e->a->w > 1 && (a = itr (e->a)) && (b = itr (e->b)) ? Z3_mk_eq (ctx, a, b) : nullptr;
    case E_ULT: return (a = itr (e->a)) && (b = itr (e->b)) ? Z3_mk_lt (ctx, a, b) : nullptr;
    case E_ULE: return (a = itr (e->a)) && (b = itr (e->b)) ? Z3_mk_le (ctx, a, b) : nullptr;
    case E_SLT: return (a = isigned (e->a)) && (b = isigned (e->b)) ? Z3_mk_lt (ctx, a, b) : nullptr;
    case E_SLE: return (a = isigned (e->a)) && (b = isigned (e->b)) ? Z3_mk_le (ctx, a, b) : nullptr;
    case E_AND: case E_OR: {
        if (e->w != 1 || !(a = ibool (e->a)) || !(b = ibool (e->b))) return nullptr;
        Z3_ast x[2] = { a, b };
        return e->op == E_AND ? Z3_mk_and (ctx, 2, x) : Z3_mk_or (ctx, 2, x);
    }
    case E_XOR:
        if (e->w == 1 && e->a->op == E_CONST && e->a->k == 1) return (b = ibool (e->b)) ? Z3_mk_not (ctx, b) : nullptr;
        return nullptr;
    case E_VAR: return e->w == 1 ? Z3_mk_eq (ctx, itr (e), iconst (1)) : nullptr;
    default: return nullptr;
    }
}
// sums or differences of two unknowns occur
static bool mixes (Expr *e, int depth)
{
    if (!depth || !e || e->op == E_CONST || e->op == E_VAR) return false;
    if ((e->op == E_ADD || e->op == E_SUB) && e->a->op != E_CONST && e->b->op != E_CONST) return true;
    return mixes (e->a, depth - 1) || mixes (e->b, depth - 1) || mixes (e->c, depth - 1);
}

std::string expr_str (Expr *e) { return Z3_ast_to_string (ctx, tobool (e)); }

struct CacheEnt { int res; std::vector<std::pair<uint32_t, uint64_t>> model; };
struct KeyHash {
    size_t operator() (const std::vector<uint32_t> &v) const
    {
        size_t h = 1469598103934665603ull;
        for (auto x : v) h = (h ^ x) * 1099511628211ull;
        return h;
    }
};
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> g_cache;

int solver_check (const std::vector<Expr *> &cs, Expr *q, const Model &base, Model *out)
{
    if (q->op == E_CONST) {
        if (!q->k) return 0;
        if (out) *out = base;
        return 1;
    }
    // slice: constraints transitively sharing variables with q
    std::vector<char> inset (g_nvars, 0), used (cs.size (), 0);
    std::vector<Expr *> slice;
    for (auto v : *q->vars) inset[v] = 1;
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = cs.size (); i-- > 0;) {
            if (used[i]) continue;
            bool hit = false;
            for (auto v : *cs[i]->vars) if (inset[v]) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; ch = true;
            slice.push_back (cs[i]);
            for (auto v : *cs[i]->vars) inset[v] = 1;
        }
    }
    std::vector<uint32_t> key;
    key.reserve (slice.size () + 1);
    for (auto e : slice) key.push_back (e->id);
    std::sort (key.begin (), key.end ());
    key.push_back (q->id);
    auto it = g_cache.find (key);
    if (it != g_cache.end ()) {
        g_ss.cached++;
        if (it->second.res == 1 && out) {
            *out = base;
            if (out->size () < g_nvars) out->resize (g_nvars, 0);
            for (auto &p : it->second.model) (*out)[p.first] = p.second;
        }
        return it->second.res;
    }
    auto t0 = std::chrono::steady_clock::now ();
    bool lin = mixes (q, 8);
    for (auto e : slice) lin = lin || mixes (e, 8);
    if (lin) {
        lin = ibool (q) != nullptr;
        for (auto e : slice) if (!lin || !ibool (e)) { lin = false; break; }
    }
    Z3_solver s = nullptr;
    Z3_lbool r = Z3_L_UNDEF;
    if (lin) {
        s = Z3_mk_solver_for_logic (ctx, Z3_mk_string_symbol (ctx, "QF_LIA"));
        Z3_solver_inc_ref (ctx, s);
        Z3_solver_set_params (ctx, s, params);
        for (uint32_t v = 0; v < g_nvars; v++) {
            if (!inset[v]) continue;
            char n[32];
            snprintf (n, sizeof n, "i%u", v);
            Z3_ast var = Z3_mk_const (ctx, Z3_mk_string_symbol (ctx, n), Z3_mk_int_sort (ctx));
            Z3_inc_ref (ctx, var);
            Z3_solver_assert (ctx, s, Z3_mk_ge (ctx, var, iconst (0)));
            Z3_solver_assert (ctx, s, Z3_mk_lt (ctx, var, pow2 (g_varwidths[v])));
            Z3_dec_ref (ctx, var);
        }
        for (auto e : slice) Z3_solver_assert (ctx, s, ibool (e));
        Z3_solver_assert (ctx, s, ibool (q));
        r = Z3_solver_check (ctx, s);
        if (r == Z3_L_UNDEF) { Z3_solver_dec_ref (ctx, s); lin = false; }
    }
    if (!lin) {
        s = Z3_mk_solver_for_logic (ctx, Z3_mk_string_symbol (ctx, "QF_BV"));
        Z3_solver_inc_ref (ctx, s);
        Z3_solver_set_params (ctx, s, params);
        for (auto e : slice) Z3_solver_assert (ctx, s, tobool (e));
        Z3_solver_assert (ctx, s, tobool (q));
        r = Z3_solver_check (ctx, s);
    }
    CacheEnt ce;
    ce.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model (ctx, s);
        Z3_model_inc_ref (ctx, m);
        for (uint32_t v = 0; v < g_nvars; v++) {
            if (!inset[v]) continue;
            char n[32];
            snprintf (n, sizeof n, lin ? "i%u" : "v%u", v);
            Z3_ast var = Z3_mk_const (ctx, Z3_mk_string_symbol (ctx, n), lin ? Z3_mk_int_sort (ctx) : Z3_mk_bv_sort (ctx, g_varwidths[v]));
            Z3_inc_ref (ctx, var);
            Z3_ast val;
            uint64_t x = 0;
            if (Z3_model_eval (ctx, m, var, true, &val)) {
                Z3_inc_ref (ctx, val);
                Z3_get_numeral_uint64 (ctx, val, (decltype (&x))&x);
                Z3_dec_ref (ctx, val);
            }
            Z3_dec_ref (ctx, var);
            ce.model.push_back ({ v, x });
        }
        Z3_model_dec_ref (ctx, m);
    }
    uint64_t ns = std::chrono::duration_cast<std::chrono::nanoseconds> (std::chrono::steady_clock::now () - t0).count ();
    static const bool show = getenv ("SYMX_SLOW");
    if (show && ns > 1000000000) fprintf (stderr, "SLOW %.1f s, result %d\n%s\n", ns / 1e9, (int)r, Z3_solver_to_string (ctx, s));
    Z3_solver_dec_ref (ctx, s);
    g_ss.queries++;
    g_ss.ns += ns;
    if (ns > g_ss.max_ns) g_ss.max_ns = ns;
    if (ce.res == 1) g_ss.sat++;
    else if (ce.res == 0) g_ss.unsat++;
    else g_ss.unknown++;
    if (ce.res == 1 && out) {
        *out = base;
        if (out->size () < g_nvars) out->resize (g_nvars, 0);
        for (auto &p : ce.model) (*out)[p.first] = p.second;
    }
    int res = ce.res;
    if (g_cache.size () > 400000) g_cache.clear ();
    if (res >= 0) g_cache[key] = std::move (ce);
    return res;
}
