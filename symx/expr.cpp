#include "expr.h"

uint32_t g_nvars = 0;
std::vector<std::string> g_varnames;
std::vector<uint8_t> g_varwidths;
static uint32_t g_ids = 0;
static uint32_t g_stamp = 0;
static std::unordered_set<Expr *, ExprHash, ExprEq> g_table;

struct VecHash {
    size_t operator() (const std::vector<uint32_t> &v) const
    {
        size_t h = v.size ();
        for (auto x : v) h ^= x + 0x9e3779b9 + (h << 6) + (h >> 2);
        return h;
    }
};
static std::unordered_set<std::vector<uint32_t>, VecHash> g_varsets;

static const std::vector<uint32_t> *intern (std::vector<uint32_t> &&v)
{
    return &*g_varsets.insert (std::move (v)).first;
}

static const std::vector<uint32_t> *merge (const std::vector<uint32_t> *x, const std::vector<uint32_t> *y)
{
    if (x == y || y->empty ()) return x;
    if (x->empty ()) return y;
    std::vector<uint32_t> r;
    r.reserve (x->size () + y->size ());
    std::set_union (x->begin (), x->end (), y->begin (), y->end (), std::back_inserter (r));
    return intern (std::move (r));
}

static Expr *cons (const Expr &t)
{
    auto it = g_table.find (const_cast<Expr *> (&t));
    if (it != g_table.end ()) return *it;
    Expr *e = new Expr (t);
    e->id = ++g_ids;
    e->z3 = nullptr;
    e->evstamp = 0;
    if (t.op == E_VAR) {
        e->vars = intern ({ (uint32_t)t.k });
    } else {
        static const std::vector<uint32_t> *empty = intern ({});
        const std::vector<uint32_t> *v = empty;
        if (t.a) v = merge (v, t.a->vars);
        if (t.b) v = merge (v, t.b->vars);
        if (t.c) v = merge (v, t.c->vars);
        e->vars = v;
    }
    g_table.insert (e);
    return e;
}

static Expr *raw (EOp op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, uint64_t k = 0)
{
    Expr t = {};
    t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.k = k;
    return cons (t);
}

Expr *mk_const (uint64_t v, unsigned w) { return raw (E_CONST, w, nullptr, nullptr, nullptr, v & maskw (w)); }

Expr *mk_var (const std::string &name, unsigned w)
{
    uint32_t id = g_nvars++;
    g_varnames.push_back (name);
    g_varwidths.push_back (w);
    return raw (E_VAR, w, nullptr, nullptr, nullptr, id);
}

uint64_t fold (EOp op, unsigned w, unsigned ow, uint64_t a, uint64_t b)
{
    uint64_t m = maskw (w);
    switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m;
    case E_UREM: return b ? (a % b) & m : a;
    case E_SDIV: {
        int64_t x = sextw (a, w), y = sextw (b, w);
        if (!y) return x < 0 ? 1 : m;
        if (y == -1) return (0 - (uint64_t)x) & m;
        return (uint64_t)(x / y) & m;
    }
    case E_SREM: {
        int64_t x = sextw (a, w), y = sextw (b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & m;
    }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> b);
    case E_ASHR: {
        int64_t x = sextw (a, w);
        return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m;
    }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw (a, ow) < sextw (b, ow);
    case E_SLE: return sextw (a, ow) <= sextw (b, ow);
    default: abort ();
    }
}

static inline bool isc (Expr *e) { return e->op == E_CONST; }
static bool commut (EOp op)
{
    return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
}

// upper bound on the number of significant bits
// an upper bound of the (unsigned) value
uint64_t umax (Expr *e, int depth)
{
    uint64_t m = maskw (e->w);
    if (e->op == E_CONST) return e->k;
    if (!depth) return m;
    depth--;
    switch (e->op) {
    case E_ZEXT: return umax (e->a, depth);
    case E_ADD: {
        uint64_t x = umax (e->a, depth), y = umax (e->b, depth), r;
        return __builtin_add_overflow (x, y, &r) || r > m ? m : r;
    }
    case E_MUL: {
        uint64_t x = umax (e->a, depth), y = umax (e->b, depth), r;
        return __builtin_mul_overflow (x, y, &r) || r > m ? m : r;
    }
    case E_UREM: {
        uint64_t x = umax (e->a, depth);
        return isc (e->b) && e->b->k ? std::min (x, e->b->k - 1) : x;
    }
    case E_UDIV: return isc (e->b) && e->b->k ? umax (e->a, depth) / e->b->k : m;
    case E_LSHR: return isc (e->b) && e->b->k < 64 ? umax (e->a, depth) >> e->b->k : umax (e->a, depth);
    case E_AND: return std::min (umax (e->a, depth), umax (e->b, depth));
    case E_OR: case E_XOR: {
        uint64_t x = umax (e->a, depth) | umax (e->b, depth);
        return x ? ~0ull >> __builtin_clzll (x) : 0;
    }
    case E_ITE: return std::max (umax (e->b, depth), umax (e->c, depth));
    case E_CONCAT: return umax (e->a, depth) << e->b->w | maskw (e->b->w);
    case E_EXTRACT: return e->k ? std::min (m, umax (e->a, depth) >> e->k) : std::min (m, umax (e->a, depth));
    default: return m;
    }
}
static unsigned active (Expr *e, int depth)
{
    uint64_t x = umax (e, depth);
    return x ? 64 - __builtin_clzll (x) : 0;
}

Expr *mk (EOp op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t k)
{
    switch (op) {
    case E_ITE:
        if (isc (a)) return a->k ? b : c;
        if (b == c) return b;
        if (w == 1 && isc (b) && isc (c)) return b->k ? a : mk_not (a);
        if (w == 1 && isc (b)) return b->k ? mk (E_OR, 1, a, c) : mk (E_AND, 1, mk_not (a), c);
        if (w == 1 && isc (c)) return c->k ? mk (E_OR, 1, mk_not (a), b) : mk (E_AND, 1, a, b);
        if (a->op == E_XOR && a->b && isc (a->a) && a->a->k == 1) return mk (E_ITE, w, a->b, c, b);
        if (b->op == E_ITE && b->a == a) return mk (E_ITE, w, a, b->b, c);
        if (c->op == E_ITE && c->a == a) return mk (E_ITE, w, a, b, c->c);
        return raw (op, w, a, b, c);
    case E_EXTRACT: {
        if (k == 0 && w == a->w) return a;
        if (isc (a)) return mk_const (a->k >> k, w);
        switch (a->op) {
        case E_EXTRACT: return mk (E_EXTRACT, w, a->a, nullptr, nullptr, a->k + k);
        case E_ZEXT:
            if (k >= a->a->w) return mk_const (0, w);
            if (k + w <= a->a->w) return mk (E_EXTRACT, w, a->a, nullptr, nullptr, k);
            return mk (E_ZEXT, w, mk (E_EXTRACT, a->a->w - k, a->a, nullptr, nullptr, k));
        case E_SEXT:
            if (k + w <= a->a->w) return mk (E_EXTRACT, w, a->a, nullptr, nullptr, k);
            break;
        case E_CONCAT: // a = hi, b = lo
            if (k + w <= a->b->w) return mk (E_EXTRACT, w, a->b, nullptr, nullptr, k);
            if (k >= a->b->w) return mk (E_EXTRACT, w, a->a, nullptr, nullptr, k - a->b->w);
            break;
        case E_ITE:
            if (isc (a->b) || isc (a->c))
                return mk (E_ITE, w, a->a, mk (E_EXTRACT, w, a->b, nullptr, nullptr, k),
                           mk (E_EXTRACT, w, a->c, nullptr, nullptr, k));
            break;
        case E_AND: case E_OR: case E_XOR:
            if (isc (a->a) || isc (a->b))
                return mk (a->op, w, mk (E_EXTRACT, w, a->a, nullptr, nullptr, k),
                           mk (E_EXTRACT, w, a->b, nullptr, nullptr, k));
            break;
        case E_ADD: case E_SUB: case E_MUL:
            if (k == 0)
                return mk (a->op, w, mk (E_EXTRACT, w, a->a), mk (E_EXTRACT, w, a->b));
            break;
        default: break;
        }
        return raw (op, w, a, nullptr, nullptr, k);
    }
    case E_CONCAT:
        if (isc (a) && isc (b)) return mk_const ((a->k << b->w) | b->k, w);
        if (isc (a) && a->k == 0) return mk (E_ZEXT, w, b);
        if (a->op == E_ZEXT) return mk (E_ZEXT, w, mk (E_CONCAT, a->a->w + b->w, a->a, b));
        if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->a == b->a && a->k == b->k + b->w)
            return mk (E_EXTRACT, w, a->a, nullptr, nullptr, b->k);
        // the low part may have been simplified when it was taken
        if (a->op == E_EXTRACT && a->k >= b->w && b->op != E_EXTRACT &&
            mk (E_EXTRACT, b->w, a->a, nullptr, nullptr, a->k - b->w) == b)
            return mk (E_EXTRACT, w, a->a, nullptr, nullptr, a->k - b->w);
        // extract of zext fragments: concat (extract (x), zext-part)
        if (b->op == E_CONCAT && a->op == E_EXTRACT && b->a->op == E_EXTRACT && a->a == b->a->a &&
            a->k == b->a->k + b->a->w)
            return mk (E_CONCAT, w, mk (E_EXTRACT, a->w + b->a->w, a->a, nullptr, nullptr, b->a->k), b->b);
        // sext fragments: concat(extract(sext x), extract ...) handled by extract on the same base
        return raw (op, w, a, b);
    case E_ZEXT:
        if (w == a->w) return a;
        if (isc (a)) return mk_const (a->k, w);
        if (a->op == E_ZEXT) return mk (E_ZEXT, w, a->a);
        return raw (op, w, a);
    case E_SEXT:
        if (w == a->w) return a;
        if (isc (a)) return mk_const ((uint64_t)sextw (a->k, a->w), w);
        if (a->op == E_ZEXT) return mk (E_ZEXT, w, a->a);
        if (a->op == E_SEXT) return mk (E_SEXT, w, a->a);
        return raw (op, w, a);
    default: break;
    }

    if (isc (a) && isc (b)) return mk_const (fold (op, w, a->w, a->k, b->k), w);
    if (commut (op) && (isc (b) || (!isc (a) && b->id < a->id))) std::swap (a, b); // constant first

    switch (op) {
    case E_ADD:
        if (isc (a)) {
            if (a->k == 0) return b;
            if (b->op == E_ADD && isc (b->a)) return mk (E_ADD, w, mk_const (a->k + b->a->k, w), b->b);
            if (b->op == E_SUB && isc (b->a)) return mk (E_SUB, w, mk_const (a->k + b->a->k, w), b->b);
            if (b->op == E_ITE && isc (b->b) && isc (b->c))
                return mk (E_ITE, w, b->a, mk (E_ADD, w, a, b->b), mk (E_ADD, w, a, b->c));
        }
        if (b->op == E_ADD && isc (b->a)) return mk (E_ADD, w, b->a, mk (E_ADD, w, a, b->b));
        if (a->op == E_ADD && isc (a->a)) return mk (E_ADD, w, a->a, mk (E_ADD, w, a->b, b));
        if (b->op == E_SUB && b->b == a) return b->a;
        if (a->op == E_SUB && a->b == b) return a->a;
        if (a->op == E_MUL && b->op == E_MUL && isc (a->a) && a->a == b->a)
            return mk (E_MUL, w, a->a, mk (E_ADD, w, a->b, b->b));
        break;
    case E_SUB:
        if (a == b) return mk_const (0, w);
        if (a->op == E_MUL && b->op == E_MUL && isc (a->a) && a->a == b->a)
            return mk (E_MUL, w, a->a, mk (E_SUB, w, a->b, b->b));
        if (isc (b)) return mk (E_ADD, w, mk_const (0 - b->k, w), a);
        if (a->op == E_ADD) {
            if (a->a == b) return a->b;
            if (a->b == b) return a->a;
            if (isc (a->a) && b->op == E_ADD && isc (b->a) )
                return mk (E_ADD, w, mk_const (a->a->k - b->a->k, w), mk (E_SUB, w, a->b, b->b));
            if (isc (a->a)) return mk (E_ADD, w, a->a, mk (E_SUB, w, a->b, b));
        }
        if (b->op == E_ADD) {
            if (b->a == a) return mk (E_SUB, w, mk_const (0, w), b->b);
            if (b->b == a) return mk (E_SUB, w, mk_const (0, w), b->a);
        }
        break;
    case E_MUL:
        if (isc (a)) {
            if (a->k == 0) return a;
            if (a->k == 1) return b;
            if (b->op == E_MUL && isc (b->a)) return mk (E_MUL, w, mk_const (a->k * b->a->k, w), b->b);
        }
        break;
    case E_AND:
        if (a == b) return a;
        if (isc (a)) {
            if (a->k == 0) return a;
            if (a->k == maskw (w)) return b;
            if (b->op == E_AND && isc (b->a)) return mk (E_AND, w, mk_const (a->k & b->a->k, w), b->b);
            if (b->op == E_ZEXT && (a->k & maskw (b->a->w)) == maskw (b->a->w)) return b;
            if (b->op == E_ITE && (isc (b->b) && isc (b->c)))
                return mk (E_ITE, w, b->a, mk (E_AND, w, a, b->b), mk (E_AND, w, a, b->c));
            // low mask -> zext(extract)
            uint64_t m = a->k;
            if ((m & (m + 1)) == 0) {
                unsigned n = __builtin_popcountll (m);
                return mk (E_ZEXT, w, mk (E_EXTRACT, n, b));
            }
        }
        if (a->op == E_XOR && isc (a->a) && a->a->k == maskw (w) && a->b == b) return mk_const (0, w);
        if (b->op == E_XOR && isc (b->a) && b->a->k == maskw (w) && b->b == a) return mk_const (0, w);
        break;
    case E_OR:
        if (a == b) return a;
        if (isc (a)) {
            if (a->k == 0) return b;
            if (a->k == maskw (w)) return a;
        }
        if (a->op == E_XOR && isc (a->a) && a->a->k == maskw (w) && a->b == b) return mk_const (~0ull, w);
        if (b->op == E_XOR && isc (b->a) && b->a->k == maskw (w) && b->b == a) return mk_const (~0ull, w);
        break;
    case E_XOR:
        if (a == b) return mk_const (0, w);
        if (isc (a)) {
            if (a->k == 0) return b;
            if (b->op == E_XOR && isc (b->a)) return mk (E_XOR, w, mk_const (a->k ^ b->a->k, w), b->b);
            if (w == 1 && a->k == 1) {
                // negations of comparisons
                if (b->op == E_ULT) return mk (E_ULE, 1, b->b, b->a);
                if (b->op == E_ULE) return mk (E_ULT, 1, b->b, b->a);
                if (b->op == E_SLT) return mk (E_SLE, 1, b->b, b->a);
                if (b->op == E_SLE) return mk (E_SLT, 1, b->b, b->a);
            }
        }
        break;
    case E_SHL: case E_LSHR: case E_ASHR:
        if (isc (b)) {
            if (b->k == 0) return a;
            if (op != E_ASHR && b->k >= w) return mk_const (0, w);
            if (op == E_LSHR) return mk (E_ZEXT, w, mk (E_EXTRACT, w - b->k, a, nullptr, nullptr, b->k));
            if (op == E_SHL && b->k < w)
                return mk (E_CONCAT, w, mk (E_EXTRACT, w - b->k, a), mk_const (0, b->k));
        }
        if (isc (a) && a->k == 0) return a;
        break;
    case E_UDIV:
        if (isc (b) && b->k == 1) return a;
        if (isc (b) && b->k && (b->k & (b->k - 1)) == 0)
            return mk (E_LSHR, w, a, mk_const (__builtin_ctzll (b->k), w));
        if (isc (b) && b->k && a->op == E_ZEXT && b->k <= maskw (a->a->w))
            return mk (E_ZEXT, w, mk (E_UDIV, a->a->w, a->a, mk_const (b->k, a->a->w)));
        break;
    case E_UREM:
        if (isc (b) && b->k == 1) return mk_const (0, w);
        if (isc (b) && b->k && (b->k & (b->k - 1)) == 0) return mk (E_AND, w, a, mk_const (b->k - 1, w));
        if (isc (b) && b->k && a->op == E_ZEXT && b->k <= maskw (a->a->w))
            return mk (E_ZEXT, w, mk (E_UREM, a->a->w, a->a, mk_const (b->k, a->a->w)));
        break;
    case E_EQ:
        if (a == b) return mk_const (1, 1);
        if (isc (a)) {
            if (a->w == 1) return a->k ? b : mk_not (b);
            if (b->op == E_ZEXT) {
                if (a->k > maskw (b->a->w)) return mk_const (0, 1);
                return mk (E_EQ, 1, mk_const (a->k, b->a->w), b->a);
            }
            if (b->op == E_SEXT) {
                if ((uint64_t)sextw (a->k, b->a->w) != (uint64_t)sextw (a->k, a->w)) return mk_const (0, 1);
                return mk (E_EQ, 1, mk_const (a->k, b->a->w), b->a);
            }
            if (b->op == E_ITE && (isc (b->b) || isc (b->c)))
                return mk (E_ITE, 1, b->a, mk (E_EQ, 1, a, b->b), mk (E_EQ, 1, a, b->c));
            if (b->op == E_ADD && isc (b->a)) return mk (E_EQ, 1, mk_const (a->k - b->a->k, a->w), b->b);
            if (b->op == E_XOR && isc (b->a)) return mk (E_EQ, 1, mk_const (a->k ^ b->a->k, a->w), b->b);
            if (b->op == E_CONCAT)
                return mk (E_AND, 1, mk (E_EQ, 1, mk_const (a->k >> b->b->w, b->a->w), b->a),
                           mk (E_EQ, 1, mk_const (a->k, b->b->w), b->b));
        }
        break;
    case E_ULT:
        if (a == b) return mk_const (0, 1);
        if (isc (b) && b->k && a->w > 1 && umax (a, 8) < b->k) return mk_const (1, 1);
        if (isc (a) && a->w > 1 && a->k >= umax (b, 8)) return mk_const (0, 1);
        if (isc (b) && b->k == 0) return mk_const (0, 1);
        if (isc (b) && b->k == 1) return mk (E_EQ, 1, mk_const (0, a->w), a);
        if (isc (a) && a->k == maskw (a->w)) return mk_const (0, 1);
        if (isc (a) && a->k == 0) return mk_not (mk (E_EQ, 1, a, b));
        if (isc (b) && a->op == E_ZEXT) {
            if (b->k > maskw (a->a->w)) return mk_const (1, 1);
            return mk (E_ULT, 1, a->a, mk_const (b->k, a->a->w));
        }
        if (isc (a) && b->op == E_ZEXT) {
            if (a->k >= maskw (b->a->w)) return mk_const (0, 1);
            return mk (E_ULT, 1, mk_const (a->k, b->a->w), b->a);
        }
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mk (E_ULT, 1, a->a, b->a);
        if (isc (b) && a->op == E_ITE && isc (a->b) && isc (a->c))
            return mk (E_ITE, 1, a->a, mk (E_ULT, 1, a->b, b), mk (E_ULT, 1, a->c, b));
        if (isc (a) && b->op == E_ITE && isc (b->b) && isc (b->c))
            return mk (E_ITE, 1, b->a, mk (E_ULT, 1, a, b->b), mk (E_ULT, 1, a, b->c));
        break;
    case E_ULE:
        if (a == b) return mk_const (1, 1);
        if (isc (a) && a->k == 0) return mk_const (1, 1);
        if (isc (b) && b->k == maskw (a->w)) return mk_const (1, 1);
        if (isc (b) && b->k == 0) return mk (E_EQ, 1, b, a);
        if (isc (b)) return mk (E_ULT, 1, a, mk_const (b->k + 1, a->w));
        if (isc (a)) return mk (E_ULT, 1, mk_const (a->k - 1, a->w), b);
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mk (E_ULE, 1, a->a, b->a);
        break;
    case E_SLT:
        if (a == b) return mk_const (0, 1);
        if (a->w > 1) {
            uint64_t t = maskw (a->w) >> 1;
            if (umax (a, 8) <= t && umax (b, 8) <= t) return mk (E_ULT, 1, a, b);
        }
        if (a->op == E_ZEXT && b->op == E_ZEXT) return mk (E_ULT, 1, a, b);
        if (isc (b) && a->op == E_ZEXT) {
            if (sextw (b->k, b->w) <= 0) return mk_const (0, 1);
            return mk (E_ULT, 1, a, b);
        }
        if (isc (a) && b->op == E_ZEXT) {
            if (sextw (a->k, a->w) < 0) return mk_const (1, 1);
            return mk (E_ULT, 1, a, b);
        }
        if (isc (b) && a->op == E_ITE && isc (a->b) && isc (a->c))
            return mk (E_ITE, 1, a->a, mk (E_SLT, 1, a->b, b), mk (E_SLT, 1, a->c, b));
        if (isc (a) && b->op == E_ITE && isc (b->b) && isc (b->c))
            return mk (E_ITE, 1, b->a, mk (E_SLT, 1, a, b->b), mk (E_SLT, 1, a, b->c));
        break;
    case E_SLE:
        if (a == b) return mk_const (1, 1);
        if (a->w > 1) {
            uint64_t t = maskw (a->w) >> 1;
            if (umax (a, 8) <= t && umax (b, 8) <= t) return mk (E_ULE, 1, a, b);
        }
        if (a->op == E_ZEXT && b->op == E_ZEXT) return mk (E_ULE, 1, a, b);
        if (isc (b) && sextw (b->k, b->w) != sextw (maskw (b->w) >> 1, b->w))
            return mk (E_SLT, 1, a, mk_const (b->k + 1, a->w));
        if (isc (a) && a->k != (1ull << (a->w - 1)))
            return mk (E_SLT, 1, mk_const (a->k - 1, a->w), b);
        break;
    case E_SDIV: case E_SREM: {
        uint64_t t = maskw (w) >> 1;
        if (isc (b) && b->k && b->k <= t && umax (a, 8) <= t) return mk (op == E_SDIV ? E_UDIV : E_UREM, w, a, b);
        break;
    }
    default: break;
    }
    if ((op == E_ULT || op == E_ULE) && a->op == E_ADD && b->op == E_ADD && isc (a->a) && isc (b->a)) {
        // x + c < y + c, none overflowing
        uint64_t m = maskw (a->w), c = std::min (a->a->k, b->a->k);
        if (umax (a->b, 8) <= m - a->a->k && umax (b->b, 8) <= m - b->a->k)
            return mk (op, 1, mk (E_ADD, a->w, mk_const (a->a->k - c, a->w), a->b),
                       mk (E_ADD, a->w, mk_const (b->a->k - c, a->w), b->b));
    }
    if ((op == E_ULT || op == E_ULE || op == E_EQ) && a->op == E_MUL && b->op == E_MUL && isc (a->a) && a->a == b->a && a->a->k) {
        uint64_t t = maskw (a->w) / a->a->k;
        if (umax (a->b, 8) <= t && umax (b->b, 8) <= t) return mk (op, 1, a->b, b->b);
    }
    if (op == E_SLT && isc (b) && b->k == 0) {
        if (a->op == E_ASHR) return mk (E_SLT, 1, a->a, b);
        if (a->op == E_SUB && umax (a->a, 8) <= maskw (a->w) >> 1 && umax (a->b, 8) <= maskw (a->w) >> 1)
            return mk (E_ULT, 1, a->a, a->b);
    }
    if (op == E_SLT && isc (a) && a->k == maskw (a->w)) {
        if (b->op == E_ASHR) return mk (E_SLT, 1, a, b->a);
        if (b->op == E_SUB && umax (b->a, 8) <= maskw (a->w) >> 1 && umax (b->b, 8) <= maskw (a->w) >> 1)
            return mk (E_ULE, 1, b->b, b->a);
    }
    if (op == E_SLT && ((isc (b) && b->k == 0) || (isc (a) && a->k == maskw (a->w)))) {
        // the sign of c * (x - y)
        bool neg = isc (b);
        Expr *m = neg ? a : b;
        if (m->op == E_MUL && isc (m->a) && m->b->op == E_SUB && m->a->k) {
            uint64_t t = (maskw (m->w) >> 1) / m->a->k;
            if (umax (m->b->a, 8) <= t && umax (m->b->b, 8) <= t)
                return neg ? mk (E_ULT, 1, m->b->a, m->b->b) : mk (E_ULE, 1, m->b->b, m->b->a);
        }
    }
    if ((op == E_ULT || op == E_ULE || op == E_EQ) && a->w > 8) {
        // compare at the width needed
        unsigned n = std::max (active (a, 8), active (b, 8));
        if (n < 1) n = 1;
        if (n + 4 < a->w && (a->op == E_ADD || a->op == E_MUL || b->op == E_ADD || b->op == E_MUL)) {
            Expr *x = mk (E_EXTRACT, n, a), *y = mk (E_EXTRACT, n, b);
            if (!(x->op == E_EXTRACT && x->a == a) || !(y->op == E_EXTRACT && y->a == b)) return mk (op, 1, x, y);
        }
    }
    if ((op == E_UREM || op == E_UDIV) && isc (b) && a->op == E_MUL && isc (a->a) && a->a->k > 1 &&
        b->k && b->k % a->a->k == 0 &&
        active (a->b, 6) + (64 - __builtin_clzll (a->a->k)) <= w) {
        // (c * x) / (c * d) and (c * x) % (c * d), the product not overflowing
        Expr *q = mk (op, w, a->b, mk_const (b->k / a->a->k, w));
        return op == E_UDIV ? q : mk (E_MUL, w, a->a, q);
    }
    if ((op == E_UREM || op == E_UDIV) && isc (b)) {
        if (umax (a, 8) < b->k) return op == E_UREM ? a : mk_const (0, w);
    }
    if (op == E_UREM || op == E_UDIV) {
        // division by a symbolic value is costly: do it at the width needed
        unsigned n = std::max (active (a, 6), active (b, 6));
        if (n == 0) n = 1;
        // a division by zero must keep its all-ones result: excluded for E_UDIV
        if (n < w && (op == E_UREM || isc (b)))
            return mk (E_ZEXT, w, mk (op, n, mk (E_EXTRACT, n, a), mk (E_EXTRACT, n, b)));
    }
    return raw (op, w, a, b);
}

static uint64_t ev (Expr *e, const Model &m)
{
    if (e->op == E_CONST) return e->k;
    if (e->evstamp == g_stamp) return e->ev;
    uint64_t r;
    switch (e->op) {
    case E_VAR: r = e->k < m.size () ? m[e->k] & maskw (e->w) : 0; break;
    case E_ITE: r = ev (e->a, m) ? ev (e->b, m) : ev (e->c, m); break;
    case E_CONCAT: r = (ev (e->a, m) << e->b->w) | ev (e->b, m); break;
    case E_EXTRACT: r = (ev (e->a, m) >> e->k) & maskw (e->w); break;
    case E_ZEXT: r = ev (e->a, m); break;
    case E_SEXT: r = (uint64_t)sextw (ev (e->a, m), e->a->w) & maskw (e->w); break;
    default: {
        uint64_t x = ev (e->a, m), y = ev (e->b, m);
        r = fold (e->op, e->w, e->a->w, x, y);
    }
    }
    e->evstamp = g_stamp;
    e->ev = r;
    return r;
}

uint64_t eval (Expr *e, const Model &m, bool fresh)
{
    if (fresh) g_stamp++;
    return ev (e, m);
}
