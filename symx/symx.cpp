// symx: symbolic executor for LLVM bitcode, with coroutine stacks, on Z3.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <chrono>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using std::string;
using std::vector;

// ---------------------------------------------------------------- options
static string o_entry = "harness", o_out = ".", o_repo = "/repo/";
static int o_jobs = 8;
static uint64_t o_maxsteps = 3000000, o_maxtime = 600;
static bool o_narrow;
static bool o_all = false, o_verbose = false;
static unsigned o_perkey = 2;
static std::set<string> o_known;  // violations that do not end the exploration

// ---------------------------------------------------------------- shared
struct Shared {
    std::atomic<int> active;
    std::atomic<int> spawned, finished;
    std::atomic<int> stop;      // 1 = violation found, 2 = error
    std::atomic<int> nviol;
    std::atomic<uint64_t> paths;
};
static Shared *sh;
static uint8_t *sh_cov;        // per instruction
static double now ()
{
    return std::chrono::duration<double> (std::chrono::steady_clock::now ().time_since_epoch ()).count ();
}
static double t_start;

// ---------------------------------------------------------------- decoded IR
enum IOp : uint8_t {
    I_BIN, I_CMP, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA, I_ZEXT, I_SEXT,
    I_TRUNC, I_MOV, I_SELECT, I_UNREACHABLE, I_RMW, I_CMPXCHG, I_NOP, I_BAD
};
struct Opnd { int reg = -1; uint64_t c = 0; };
struct Func;
struct Inst {
    IOp op = I_NOP;
    uint8_t sub = 0;           // EOp / rmw op
    uint16_t w = 0, w2 = 0;    // result width, operand width
    int dst = -1;
    bool swapcmp = false, neg = false;
    vector<Opnd> o;            // operands / call arguments (flattened)
    vector<uint16_t> ws;       // slot widths (load/store/args)
    vector<uint64_t> offs;     // slot offsets (load/store), gep scales
    uint64_t imm = 0;          // gep offset / alloca size / byval size
    int t = -1, f = -1;        // branch targets
    vector<std::pair<uint64_t, int>> cases;
    Func *callee = nullptr;
    int builtin = -1;
    int nfix = 0;
    vector<uint64_t> byval;
    Opnd fp;                   // indirect callee
    uint32_t gid = 0;          // global instruction number
    int line = 0;
    const char *file = "", *fn = "";
    string bad;
};
struct Phi { int dst; vector<std::pair<int, vector<Opnd>>> in; };
struct Blk { int start = 0; vector<Phi> phis; };
struct Func {
    string name;
    const llvm::Function *F;
    bool decoded = false;
    int nregs = 0;
    int nargs = 0;             // argument slots
    vector<uint16_t> argw;
    vector<Inst> code;
    vector<Blk> blks;
    uint64_t addr = 0;
    uint32_t g0 = 0, gn = 0;
    string file;
    int line = 0;
};

static llvm::Module *M;
static const llvm::DataLayout *DL;
static std::unordered_map<const llvm::Function *, Func *> g_funcs;
static std::unordered_map<uint64_t, Func *> g_byaddr;
static std::unordered_map<const llvm::GlobalValue *, uint64_t> g_gaddr;
static std::map<uint32_t, vector<uint8_t>> g_tlsinit; // first contents of thread-local variables
static vector<Func *> g_flist;
static uint32_t g_ninst;

// ---------------------------------------------------------------- memory
enum OKind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_MMAP, K_FUNC };
struct Obj {
    int rc = 1;
    OKind kind = K_HEAP;
    bool freed = false, ro = false;
    bool zero = false;         // untouched bytes read as 0 (else uninitialised)
    uint32_t id = 0;
    uint64_t base = 0, size = 0;
    Expr *ssize = nullptr;
    uint64_t plo = 0, phi = 0; // protected offset range
    const char *site = "";
    int line = 0;
    vector<uint8_t> d, u;
    vector<Expr *> s;
};
struct OP {
    Obj *p = nullptr;
    OP () {}
    explicit OP (Obj *o) : p (o) {}
    OP (const OP &o) : p (o.p) { if (p) p->rc++; }
    OP (OP &&o) noexcept : p (o.p) { o.p = nullptr; }
    OP &operator= (OP o) { std::swap (p, o.p); return *this; }
    ~OP () { if (p && --p->rc == 0) delete p; }
};

struct Frame {
    int rc = 1;
    uint64_t uid = 0;
    Func *f = nullptr;
    int pc = 0, blk = 0;
    int dst = -1;              // register in the caller for the result
    vector<Val> r;
    vector<uint32_t> allocas;
    vector<Val> va;
};
struct FP {
    Frame *p = nullptr;
    FP () {}
    explicit FP (Frame *o) : p (o) {}
    FP (const FP &o) : p (o.p) { if (p) p->rc++; }
    FP (FP &&o) noexcept : p (o.p) { o.p = nullptr; }
    FP &operator= (FP o) { std::swap (p, o.p); return *this; }
    ~FP () { if (p && --p->rc == 0) delete p; }
    Frame *operator->() const { return p; }
};
struct Stk {
    vector<FP> fr;
    uint32_t region = 0;       // object holding this stack, 0 for thread stacks
    int parent = -1;
    bool dead = false, returned = false;
    FP retained;
};
struct Snap { int stk; vector<FP> fr; int dst; };
struct Thread { int cur; };

struct State {
    vector<OP> objs;
    vector<Stk> stks;
    vector<Thread> thr;
    int curthr = 0, cur = 0;
    std::map<uint64_t, Snap> snaps;
    vector<Expr *> cs;
    std::unordered_set<uint32_t> csids;
    Model model;
    vector<std::pair<Expr *, const char *>> log;
    vector<std::pair<const char *, Val>> notes;
    uint64_t steps = 0, uid = 0;
    uint32_t nuninit = 0;
    uint32_t depth = 0;
    vector<uint32_t> errno_obj;
    std::map<std::pair<uint32_t, int>, uint32_t> tls_obj; // copies of thread-local variables
    vector<uint32_t> alloc_fill; // reserved
};

static vector<State *> work;
static State *S;               // current state
static bool dead;              // current state finished

static uint64_t st_paths, st_forks, st_steps, st_asserts, st_assert_q;
static std::set<string> covers, cover_sites;
struct VRec { string kind, msg, loc, trace; vector<std::pair<string, uint64_t>> in; vector<std::pair<string, uint64_t>> notes; };
static vector<VRec> viols;
static std::map<string, int> violkeys;
static vector<string> errors;

static Frame *wtop ()
{
    FP &t = S->stks[S->cur].fr.back ();
    if (t.p->rc > 1) {
        Frame *n = new Frame (*t.p);
        n->rc = 1;
        t.p->rc--;
        t.p = n;
    }
    return t.p;
}

static string basen (const char *f)
{
    string s (f);
    if (s.compare (0, o_repo.size (), o_repo) == 0) return s.substr (o_repo.size ());
    auto p = s.rfind ('/');
    return p == string::npos ? s : s.substr (p + 1);
}
static string loc_of (const Frame *f)
{
    int pc = f->pc;
    if (pc < 0 || pc >= (int)f->f->code.size ()) pc = 0;
    const Inst &i = f->f->code[pc];
    return basen (i.file) + ":" + std::to_string (i.line);
}
static string trace ()
{
    string r;
    int s = S->cur;
    int guard = 0;
    while (s >= 0 && guard++ < 8) {
        auto &fr = S->stks[s].fr;
        for (size_t i = fr.size (); i-- > 0;) r += (r.empty () ? "" : " < ") + fr[i]->f->name + "(" + loc_of (fr[i].p) + ")";
        s = S->stks[s].returned ? -1 : S->stks[s].parent;
    }
    return r;
}
// innermost location inside the repository, else innermost
static string vloc ()
{
    if (S->stks[S->cur].fr.empty ()) return "?";
    int s = S->cur, g = 0;
    while (s >= 0 && g++ < 8) {
        auto &fr = S->stks[s].fr;
        for (size_t i = fr.size (); i-- > 0;)
            if (fr[i]->f->file.compare (0, o_repo.size (), o_repo) == 0) return loc_of (fr[i].p);
        s = S->stks[s].returned ? -1 : S->stks[s].parent;
    }
    return loc_of (S->stks[S->cur].fr.back ().p);
}

static void engine_error (const string &m)
{
    string e = m;
    if (S && !S->stks.empty () && !S->stks[S->cur].fr.empty ()) e += " at " + trace ();
    if (errors.size () < 20) errors.push_back (e);
    if (o_verbose) fprintf (stderr, "ENGINE: %s\n", e.c_str ());
    sh->stop = 2;
    dead = true;
}

static void violation (const string &kind, const string &msg, const Model &m)
{
    string key = kind + "|" + msg + "|" + (kind == "assert" || kind == "fail" ? "" : vloc ());
    if (violkeys[key]++ >= (int)o_perkey) return;
    VRec v;
    v.kind = kind; v.msg = msg; v.loc = vloc (); v.trace = trace ();
    for (auto &p : S->log) v.in.push_back ({ p.second, eval (p.first, m) });
    for (auto &p : S->notes) v.notes.push_back ({ p.first, p.second.e ? eval (p.second.e, m) : p.second.c });
    viols.push_back (v);
    sh->nviol++;
    if (o_verbose) fprintf (stderr, "VIOL %s %s %s\n   %s\n", kind.c_str (), msg.c_str (), v.loc.c_str (), v.trace.c_str ());
    if (!o_all && !o_known.count (msg)) { int z = 0; sh->stop.compare_exchange_strong (z, 1); }
}
static void die_violation (const string &kind, const string &msg)
{
    violation (kind, msg, S->model);
    dead = true;
}

// ---------------------------------------------------------------- constraints
static void add_c (Expr *e)
{
    if (e->op == E_CONST) return;
    if (e->op == E_AND && e->w == 1) { add_c (e->a); add_c (e->b); return; }
    if (S->csids.insert (e->id).second) S->cs.push_back (e);
}
static bool model_sat (Expr *e) { return eval (e, S->model) != 0; }

// Is q satisfiable together with the path condition?
static bool sat (Expr *q, Model *out)
{
    if (q->op == E_CONST) { if (q->k && out) *out = S->model; return q->k; }
    if (model_sat (q)) { if (out) *out = S->model; return true; }
    int r = solver_check (S->cs, q, S->model, out);
    if (r < 0) { engine_error ("solver gave no answer"); return false; }
    return r == 1;
}

static State *clone_state ()
{
    State *n = new State (*S);
    st_forks++;
    n->depth++;
    return n;
}

// Decide a boolean; forks the other side (which re-executes from `pc`).
// Returns the side taken by the current state.
static bool branch (const Val &c, State **other)
{
    *other = nullptr;
    if (!c.e) return c.c & 1;
    bool v = eval (c.e, S->model);
    Expr *mine = v ? c.e : mk_not (c.e), *oth = v ? mk_not (c.e) : c.e;
    Model m;
    int r = solver_check (S->cs, oth, S->model, &m);
    if (r < 0) { engine_error ("solver gave no answer"); return v; }
    if (r == 1) {
        State *n = clone_state ();
        n->model = std::move (m);
        State *sv = S;
        S = n;
        add_c (oth);
        S = sv;
        add_c (mine);
        *other = n;
    }
    return v;
}

// Make a value concrete, forking for the other values (they re-execute the
// instruction, the program counter not having moved).
static bool concretize (Val &v, unsigned w)
{
    if (!v.e) return true;
    uint64_t k = eval (v.e, S->model);
    Expr *eq = mk (E_EQ, 1, v.e, mk_const (k, w));
    State *o;
    Val c (eq);
    branch (c, &o);
    if (dead) return false;
    if (o) work.push_back (o);
    v = Val (k);
    return true;
}

// ---------------------------------------------------------------- objects
static Obj *new_obj (OKind k, uint64_t size, unsigned low)
{
    Obj *o = new Obj;
    o->kind = k;
    o->id = S->objs.size ();
    o->base = ((uint64_t)o->id << 32) + low;
    o->size = size;
    S->objs.push_back (OP (o));
    return o;
}
static Obj *getobj (uint32_t id) { return id < S->objs.size () ? S->objs[id].p : nullptr; }
static Obj *wobj (uint32_t id)
{
    OP &p = S->objs[id];
    if (p.p->rc > 1) {
        Obj *n = new Obj (*p.p);
        n->rc = 1;
        p.p->rc--;
        p.p = n;
    }
    return p.p;
}
static void ensure (Obj *o, uint64_t n)
{
    if (o->d.size () >= n) return;
    uint64_t old = o->d.size ();
    uint64_t sz = (n + 63) & ~63ull;
    if (sz < old * 2 && old < 65536) sz = old * 2;
    if (sz > o->size) sz = o->size;
    if (sz < n) sz = n;
    o->d.resize (sz, 0);
    if (!o->zero) { o->u.resize (old, 0); o->u.resize (sz, 1); }
    else if (!o->u.empty ()) o->u.resize (sz, 0);
    if (!o->s.empty ()) o->s.resize (sz, nullptr);
}
static Expr *fresh_uninit ()
{
    char n[40];
    snprintf (n, sizeof n, "uninit%u", S->nuninit++);
    static std::unordered_map<string, Expr *> tab;
    auto &e = tab[n];
    if (!e) e = mk_var (n, 8);
    return e;
}
static Val byte_at (Obj *&o, uint64_t off)
{
    if (off >= o->d.size ()) {
        if (o->zero) return Val ((uint64_t)0);
        o = wobj (o->id);
        ensure (o, off + 1);
    }
    if (!o->s.empty () && o->s[off]) return Val (o->s[off]);
    if (!o->u.empty () && o->u[off]) {
        o = wobj (o->id);
        if (o->s.empty ()) o->s.resize (o->d.size (), nullptr);
        Expr *e = fresh_uninit ();
        o->s[off] = e;
        o->u[off] = 0;
        return Val (e);
    }
    return Val ((uint64_t)o->d[off]);
}
static void set_byte (Obj *o, uint64_t off, const Val &v)
{
    ensure (o, off + 1);
    if (v.e) {
        if (o->s.empty ()) o->s.resize (o->d.size (), nullptr);
        o->s[off] = v.e;
    } else {
        if (!o->s.empty ()) o->s[off] = nullptr;
        o->d[off] = (uint8_t)v.c;
    }
    if (!o->u.empty ()) o->u[off] = 0;
}

static string addr_desc (uint64_t a)
{
    char b[200];
    uint32_t id = a >> 32;
    Obj *o = getobj (id);
    if (id == 0) snprintf (b, sizeof b, "NULL+%llu", (unsigned long long)a);
    else if (!o) snprintf (b, sizeof b, "dead or wild object");
    else
        snprintf (b, sizeof b, "offset %lld of %llu-byte %s object (%s:%d)", (long long)(a - o->base),
                  (unsigned long long)o->size, o->kind == K_GLOBAL ? "global" : o->kind == K_STACK ? "stack" : o->kind == K_HEAP ? "heap" : o->kind == K_MMAP ? "mapped" : "code",
                  basen (o->site).c_str (), o->line);
    return b;
}

// Resolve a concrete address to an object, n bytes (n may be 0).
static Obj *resolve (uint64_t a, uint64_t n, bool write, uint64_t *off)
{
    Obj *o = getobj (a >> 32);
    if (!o || !(a >> 32)) {
        die_violation ("memory", string (write ? "write" : "read") + " through an invalid pointer: " + ((a >> 32) ? "dead object" : "NULL"));
        return nullptr;
    }
    if (o->freed) { die_violation ("memory", string (write ? "write" : "read") + " after free"); return nullptr; }
    *off = a - o->base;
    if (*off > o->size || n > o->size - *off || o->kind == K_FUNC) {
        die_violation ("memory", string ("out-of-bounds ") + (write ? "write" : "read"));
        if (o_verbose) fprintf (stderr, "   %s len %llu\n", addr_desc (a).c_str (), (unsigned long long)n);
        return nullptr;
    }
    if (o->ssize) {
        Expr *bad = mk (E_ULT, 1, o->ssize, mk_const (*off + n, 64));
        Model m;
        if (sat (bad, &m)) {
            violation ("memory", string ("out-of-bounds ") + (write ? "write" : "read"), m);
            Expr *ok = mk_not (bad);
            Model m2;
            if (dead || !sat (ok, &m2)) { dead = true; return nullptr; }
            S->model = m2;
            add_c (ok);
        }
        if (dead) return nullptr;
    }
    if (o->phi > o->plo && *off < o->phi && *off + n > o->plo) {
        die_violation ("memory", "access to a protected page");
        return nullptr;
    }
    if (write && o->ro) { die_violation ("memory", "write to read-only data"); return nullptr; }
    return o;
}

static bool load (uint64_t a, unsigned w, Val *out)
{
    unsigned n = (w + 7) / 8;
    uint64_t off;
    Obj *o = resolve (a, n, false, &off);
    if (!o) return false;
    if (off + n <= o->d.size () && o->s.empty () && o->u.empty ()) {
        uint64_t v = 0;
        memcpy (&v, o->d.data () + off, n);
        *out = Val (v & maskw (w));
        return true;
    }
    bool conc = true;
    Val b[8];
    for (unsigned i = 0; i < n; i++) {
        b[i] = byte_at (o, off + i);
        if (b[i].e) conc = false;
    }
    if (conc) {
        uint64_t v = 0;
        for (unsigned i = 0; i < n; i++) v |= b[i].c << (8 * i);
        *out = Val (v & maskw (w));
        return true;
    }
    Expr *e = toE (b[n - 1], 8);
    for (int i = (int)n - 2; i >= 0; i--) e = mk (E_CONCAT, e->w + 8, e, toE (b[i], 8));
    if (e->w > w) e = mk (E_EXTRACT, w, e);
    *out = Val (e);
    return true;
}
static bool store (uint64_t a, unsigned w, const Val &v)
{
    unsigned n = (w + 7) / 8;
    uint64_t off;
    Obj *o = resolve (a, n, true, &off);
    if (!o) return false;
    o = wobj (o->id);
    if (!v.e) {
        ensure (o, off + n);
        memcpy (o->d.data () + off, &v.c, n);
        if (!o->s.empty ()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
        if (!o->u.empty ()) memset (o->u.data () + off, 0, n);
        return true;
    }
    Expr *e = v.e;
    if (e->w < n * 8) e = mk (E_ZEXT, n * 8, e);
    for (unsigned i = 0; i < n; i++) set_byte (o, off + i, Val (mk (E_EXTRACT, 8, e, nullptr, nullptr, i * 8)));
    return true;
}

static void free_region_stacks (uint32_t id)
{
    for (size_t i = 0; i < S->stks.size (); i++) {
        Stk &k = S->stks[i];
        if (k.region != id || k.dead) continue;
        if ((int)i == S->cur) { die_violation ("memory", "running stack freed"); return; }
        for (auto &f : k.fr) for (auto a : f->allocas) S->objs[a] = OP ();
        if (k.retained.p) for (auto a : k.retained->allocas) S->objs[a] = OP ();
        k.fr.clear ();
        k.retained = FP ();
        k.dead = true;
    }
}

// ---------------------------------------------------------------- constants
static void flat (llvm::Type *t, vector<uint16_t> &ws, vector<uint64_t> *offs = nullptr, uint64_t base = 0)
{
    if (t->isIntegerTy ()) { ws.push_back (t->getIntegerBitWidth ()); if (offs) offs->push_back (base); }
    else if (t->isPointerTy ()) { ws.push_back (64); if (offs) offs->push_back (base); }
    else if (t->isFloatTy ()) { ws.push_back (32); if (offs) offs->push_back (base); }
    else if (t->isDoubleTy ()) { ws.push_back (64); if (offs) offs->push_back (base); }
    else if (auto *s = llvm::dyn_cast<llvm::StructType> (t)) {
        auto *sl = DL->getStructLayout (s);
        for (unsigned i = 0; i < s->getNumElements (); i++)
            flat (s->getElementType (i), ws, offs, base + (uint64_t)sl->getElementOffset (i));
    } else if (auto *a = llvm::dyn_cast<llvm::ArrayType> (t)) {
        for (uint64_t i = 0; i < a->getNumElements (); i++)
            flat (a->getElementType (), ws, offs, base + i * DL->getTypeAllocSize (a->getElementType ()));
    } else if (auto *v = llvm::dyn_cast<llvm::FixedVectorType> (t)) {
        for (uint64_t i = 0; i < v->getNumElements (); i++)
            flat (v->getElementType (), ws, offs, base + i * (DL->getTypeSizeInBits (v->getElementType ()) / 8));
    } else if (t->isVoidTy ()) {
    } else { ws.push_back (64); if (offs) offs->push_back (base); }
}
static unsigned nslots (llvm::Type *t) { vector<uint16_t> w; flat (t, w); return w.size (); }

static Func *get_func (const llvm::Function *F);
static string g_constbad;
static uint64_t const_addr (const llvm::GlobalValue *g)
{
    if (auto *ga = llvm::dyn_cast<llvm::GlobalAlias> (g)) return const_addr (llvm::cast<llvm::GlobalValue> (ga->getAliasee ()));
    auto it = g_gaddr.find (g);
    if (it != g_gaddr.end ()) return it->second;
    g_constbad = "unknown global " + g->getName ().str ();
    return 0;
}
static uint64_t const_int (const llvm::Constant *c)
{
    using namespace llvm;
    if (auto *ci = dyn_cast<ConstantInt> (c)) {
        if (ci->getBitWidth () > 64) { g_constbad = "wide integer constant"; return 0; }
        return ci->getZExtValue ();
    }
    if (isa<ConstantPointerNull> (c) || isa<UndefValue> (c)) return 0;
    if (auto *g = dyn_cast<GlobalValue> (c)) return const_addr (g);
    if (auto *fp = dyn_cast<ConstantFP> (c)) return fp->getValueAPF ().bitcastToAPInt ().getZExtValue ();
    if (auto *ce = dyn_cast<ConstantExpr> (c)) {
        switch (ce->getOpcode ()) {
        case Instruction::GetElementPtr: {
            APInt off (64, 0);
            if (!cast<GEPOperator> (ce)->accumulateConstantOffset (*DL, off)) break;
            return const_int (ce->getOperand (0)) + off.getSExtValue ();
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: {
            uint64_t v = const_int (ce->getOperand (0));
            return v & maskw (DL->getTypeSizeInBits (ce->getType ()));
        }
        case Instruction::Add: return const_int (ce->getOperand (0)) + const_int (ce->getOperand (1));
        case Instruction::Sub: return const_int (ce->getOperand (0)) - const_int (ce->getOperand (1));
        default: break;
        }
    }
    g_constbad = "unsupported constant";
    return 0;
}
static void const_flat (const llvm::Constant *c, vector<uint64_t> &out)
{
    using namespace llvm;
    Type *t = c->getType ();
    if (t->isStructTy () || t->isArrayTy () || t->isVectorTy ()) {
        unsigned n = t->isStructTy () ? t->getStructNumElements () : t->isArrayTy () ? t->getArrayNumElements () : cast<FixedVectorType> (t)->getNumElements ();
        for (unsigned i = 0; i < n; i++) const_flat (c->getAggregateElement (i), out);
        return;
    }
    out.push_back (const_int (c));
}
static void init_mem (vector<uint8_t> &d, uint64_t off, const llvm::Constant *c)
{
    using namespace llvm;
    Type *t = c->getType ();
    if (isa<ConstantAggregateZero> (c) || isa<UndefValue> (c)) return;
    if (t->isStructTy () || t->isArrayTy () || t->isVectorTy ()) {
        unsigned n = t->isStructTy () ? t->getStructNumElements () : t->isArrayTy () ? t->getArrayNumElements () : cast<FixedVectorType> (t)->getNumElements ();
        for (unsigned i = 0; i < n; i++) {
            uint64_t o = t->isStructTy () ? (uint64_t)DL->getStructLayout (cast<StructType> (t))->getElementOffset (i)
                                          : i * DL->getTypeAllocSize (t->isArrayTy () ? t->getArrayElementType () : cast<VectorType> (t)->getElementType ());
            init_mem (d, off + o, c->getAggregateElement (i));
        }
        return;
    }
    uint64_t v = const_int (c);
    unsigned n = DL->getTypeStoreSize (t);
    memcpy (d.data () + off, &v, n > 8 ? 8 : n);
}

// ---------------------------------------------------------------- decode
enum Bi {
    B_SYM_VAL, B_ASSUME, B_ASSERT, B_FAIL, B_PICK, B_COVER, B_END, B_NOTE, B_SMALLOC, B_SFREE, B_OBJSIZE, B_SMMAP,
    B_SMUNMAP, B_SPROT, B_CORO_NEW, B_CORO_SWITCH, B_NATIVE, B_ISLIVE, B_ACCESS, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP,
    B_STRLEN, B_STRCMP, B_STRCPY, B_ERRNO, B_ABORT, B_EXIT, B_SETJMP, B_LONGJMP, B_EXECUTE, B_IGNORE, B_UADDO, B_USUBO,
    B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ,
    B_FSHL, B_FSHR, B_USUBSAT, B_UADDSAT, B_EXPECT, B_PTRMASK, B_VASTART, B_VACOPY, B_NOP0, B_OBJSZ_INTR, B_TLSADDR, B_CORO_CUR, B_NOTES
};
static const std::map<string, int> g_builtins = {
    { "sym_val", B_SYM_VAL }, { "sym_assume", B_ASSUME }, { "sym_assert", B_ASSERT }, { "sym_fail", B_FAIL },
    { "sym_pick", B_PICK }, { "sym_cover", B_COVER }, { "sym_end", B_END }, { "sym_note", B_NOTE },
    { "sym_malloc", B_SMALLOC }, { "sym_free", B_SFREE }, { "sym_objsize", B_OBJSIZE }, { "sym_mmap", B_SMMAP },
    { "sym_munmap", B_SMUNMAP }, { "sym_protect", B_SPROT }, { "sym_coro_new", B_CORO_NEW },
    { "sym_coro_switch", B_CORO_SWITCH }, { "sym_coro_current", B_CORO_CUR }, { "sym_native", B_NATIVE }, { "sym_is_live", B_ISLIVE }, { "sym_access", B_ACCESS },
    { "memcpy", B_MEMCPY }, { "memmove", B_MEMMOVE }, { "memset", B_MEMSET }, { "memcmp", B_MEMCMP }, { "bcmp", B_MEMCMP },
    { "strlen", B_STRLEN }, { "strcmp", B_STRCMP }, { "strcpy", B_STRCPY },
    { "__errno_location", B_ERRNO }, { "abort", B_ABORT }, { "exit", B_EXIT }, { "_exit", B_EXIT },
    { "_setjmp", B_SETJMP }, { "setjmp", B_SETJMP }, { "__sigsetjmp", B_SETJMP }, { "_longjmp", B_LONGJMP }, { "longjmp", B_LONGJMP }, { "siglongjmp", B_LONGJMP },
    { "hev_task_execute", B_EXECUTE }, { "printf", B_IGNORE }, { "fprintf", B_IGNORE }, { "puts", B_IGNORE },
    { "fwrite", B_IGNORE }, { "fputs", B_IGNORE }, { "putchar", B_IGNORE }, { "fputc", B_IGNORE }, { "perror", B_IGNORE },
    { "sched_yield", B_IGNORE }, { "fflush", B_IGNORE },
};

static int intrinsic_of (const llvm::Function *F)
{
    using namespace llvm;
    switch (F->getIntrinsicID ()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY;
    case Intrinsic::memmove: return B_MEMMOVE;
    case Intrinsic::memset: case Intrinsic::memset_inline: return B_MEMSET;
    case Intrinsic::uadd_with_overflow: return B_UADDO;
    case Intrinsic::usub_with_overflow: return B_USUBO;
    case Intrinsic::umul_with_overflow: return B_UMULO;
    case Intrinsic::sadd_with_overflow: return B_SADDO;
    case Intrinsic::ssub_with_overflow: return B_SSUBO;
    case Intrinsic::smul_with_overflow: return B_SMULO;
    case Intrinsic::umin: return B_UMIN;
    case Intrinsic::umax: return B_UMAX;
    case Intrinsic::smin: return B_SMIN;
    case Intrinsic::smax: return B_SMAX;
    case Intrinsic::abs: return B_ABS;
    case Intrinsic::bswap: return B_BSWAP;
    case Intrinsic::ctpop: return B_CTPOP;
    case Intrinsic::ctlz: return B_CTLZ;
    case Intrinsic::cttz: return B_CTTZ;
    case Intrinsic::fshl: return B_FSHL;
    case Intrinsic::fshr: return B_FSHR;
    case Intrinsic::usub_sat: return B_USUBSAT;
    case Intrinsic::uadd_sat: return B_UADDSAT;
    case Intrinsic::expect: return B_EXPECT;
    case Intrinsic::ptrmask: return B_PTRMASK;
    case Intrinsic::vastart: return B_VASTART;
    case Intrinsic::vacopy: return B_VACOPY;
    case Intrinsic::objectsize: return B_OBJSZ_INTR;
    case Intrinsic::threadlocal_address: return B_TLSADDR;
    case Intrinsic::trap: return B_ABORT;
    case Intrinsic::stacksave: return B_IGNORE;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::vaend: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: return B_NOP0;
    default: return -1;
    }
}

static void decode (Func *fn)
{
    using namespace llvm;
    const Function *F = fn->F;
    fn->decoded = true;
    std::unordered_map<const Value *, int> regs;
    std::unordered_map<const BasicBlock *, int> bbs;
    int nr = 0;
    for (auto &A : F->args ()) {
        regs[&A] = nr;
        vector<uint16_t> w;
        flat (A.getType (), w);
        for (auto x : w) fn->argw.push_back (x);
        nr += w.size ();
    }
    fn->nargs = nr;
    int bi = 0;
    for (auto &BB : *F) {
        bbs[&BB] = bi++;
        for (auto &I : BB)
            if (!I.getType ()->isVoidTy ()) { regs[&I] = nr; nr += nslots (I.getType ()); }
    }
    fn->nregs = nr;
    fn->blks.resize (bi);
    auto ops = [&] (const Value *v, vector<Opnd> &out) {
        if (auto *c = dyn_cast<Constant> (v)) {
            vector<uint64_t> k;
            const_flat (c, k);
            vector<uint16_t> w;
            flat (c->getType (), w);
            for (size_t i = 0; i < k.size (); i++) { Opnd o; o.c = k[i] & maskw (i < w.size () ? w[i] : 64); out.push_back (o); }
            return;
        }
        auto it = regs.find (v);
        if (it == regs.end ()) { g_constbad = "operand kind"; out.push_back (Opnd ()); return; }
        unsigned n = nslots (v->getType ());
        for (unsigned i = 0; i < n; i++) { Opnd o; o.reg = it->second + i; out.push_back (o); }
    };
    auto width = [&] (Type *t) -> unsigned { return t->isPointerTy () ? 64 : t->isIntegerTy () ? t->getIntegerBitWidth () : (unsigned)DL->getTypeSizeInBits (t); };
    for (auto &BB : *F) {
        int b = bbs[&BB];
        fn->blks[b].start = fn->code.size ();
        for (auto &I : BB) {
            if (auto *P = dyn_cast<PHINode> (&I)) {
                Phi ph;
                ph.dst = regs[P];
                for (unsigned i = 0; i < P->getNumIncomingValues (); i++) {
                    vector<Opnd> o;
                    ops (P->getIncomingValue (i), o);
                    ph.in.push_back ({ bbs[P->getIncomingBlock (i)], o });
                }
                fn->blks[b].phis.push_back (ph);
                continue;
            }
            fn->code.emplace_back ();
            Inst &n = fn->code.back ();
            g_constbad.clear ();
            if (auto &dl = I.getDebugLoc ()) {
                n.line = dl.getLine ();
                auto *sc = cast<DILocalScope> (dl.getScope ());
                static std::set<string> names;
                string p = sc->getFilename ().str ();
                if (!p.empty () && p[0] != '/') p = sc->getDirectory ().str () + "/" + p;
                n.file = names.insert (p).first->c_str ();
                if (auto *sp = sc->getSubprogram ()) n.fn = names.insert (sp->getName ().str ()).first->c_str ();
            } else if (fn->code.size () > 1) {
                n.line = fn->code[fn->code.size () - 2].line;
                n.file = fn->code[fn->code.size () - 2].file;
                n.fn = fn->code[fn->code.size () - 2].fn;
            }
            n.gid = g_ninst++;
            if (!I.getType ()->isVoidTy ()) {
                n.dst = regs[&I];
                if (I.getType ()->isIntegerTy () || I.getType ()->isPointerTy ()) n.w = width (I.getType ());
            }
            auto bad = [&] (const string &m) { n.op = I_BAD; n.bad = m; };
            if (I.getType ()->isIntegerTy () && n.w > 64) { bad ("integer wider than 64 bits"); continue; }
            if (I.getType ()->isVectorTy () && !isa<LoadInst> (I)) { bad ("vector operation"); continue; }
            if (auto *B = dyn_cast<BinaryOperator> (&I)) {
                n.op = I_BIN;
                switch (B->getOpcode ()) {
                case Instruction::Add: n.sub = E_ADD; break;
                case Instruction::Sub: n.sub = E_SUB; break;
                case Instruction::Mul: n.sub = E_MUL; break;
                case Instruction::UDiv: n.sub = E_UDIV; break;
                case Instruction::SDiv: n.sub = E_SDIV; break;
                case Instruction::URem: n.sub = E_UREM; break;
                case Instruction::SRem: n.sub = E_SREM; break;
                case Instruction::And: n.sub = E_AND; break;
                case Instruction::Or: n.sub = E_OR; break;
                case Instruction::Xor: n.sub = E_XOR; break;
                case Instruction::Shl: n.sub = E_SHL; break;
                case Instruction::LShr: n.sub = E_LSHR; break;
                case Instruction::AShr: n.sub = E_ASHR; break;
                default: bad ("floating point"); break;
                }
                ops (B->getOperand (0), n.o);
                ops (B->getOperand (1), n.o);
            } else if (auto *C = dyn_cast<ICmpInst> (&I)) {
                n.op = I_CMP;
                n.w = 1;
                n.w2 = width (C->getOperand (0)->getType ());
                if (C->getOperand (0)->getType ()->isVectorTy ()) bad ("vector operation");
                switch (C->getPredicate ()) {
                case CmpInst::ICMP_EQ: n.sub = E_EQ; break;
                case CmpInst::ICMP_NE: n.sub = E_EQ; n.neg = true; break;
                case CmpInst::ICMP_ULT: n.sub = E_ULT; break;
                case CmpInst::ICMP_ULE: n.sub = E_ULE; break;
                case CmpInst::ICMP_UGT: n.sub = E_ULT; n.swapcmp = true; break;
                case CmpInst::ICMP_UGE: n.sub = E_ULE; n.swapcmp = true; break;
                case CmpInst::ICMP_SLT: n.sub = E_SLT; break;
                case CmpInst::ICMP_SLE: n.sub = E_SLE; break;
                case CmpInst::ICMP_SGT: n.sub = E_SLT; n.swapcmp = true; break;
                case CmpInst::ICMP_SGE: n.sub = E_SLE; n.swapcmp = true; break;
                default: bad ("compare");
                }
                ops (C->getOperand (0), n.o);
                ops (C->getOperand (1), n.o);
                if (n.swapcmp) std::swap (n.o[0], n.o[1]);
            } else if (auto *L = dyn_cast<LoadInst> (&I)) {
                n.op = I_LOAD;
                flat (L->getType (), n.ws, &n.offs);
                for (auto w : n.ws) if (w > 64) bad ("wide load");
                ops (L->getPointerOperand (), n.o);
            } else if (auto *St = dyn_cast<StoreInst> (&I)) {
                n.op = I_STORE;
                flat (St->getValueOperand ()->getType (), n.ws, &n.offs);
                for (auto w : n.ws) if (w > 64) bad ("wide store");
                ops (St->getPointerOperand (), n.o);
                ops (St->getValueOperand (), n.o);
            } else if (auto *G = dyn_cast<GetElementPtrInst> (&I)) {
                n.op = I_GEP;
                ops (G->getPointerOperand (), n.o);
                unsigned bw = 64;
                MapVector<Value *, APInt> vo;
                APInt co (bw, 0);
                if (!G->collectOffset (*DL, bw, vo, co)) bad ("gep");
                n.imm = co.getSExtValue ();
                for (auto &p : vo) {
                    ops (p.first, n.o);
                    n.offs.push_back (p.second.getSExtValue ());
                    n.ws.push_back (width (p.first->getType ()));
                }
            } else if (auto *Br = dyn_cast<BranchInst> (&I)) {
                if (Br->isConditional ()) {
                    n.op = I_CBR;
                    ops (Br->getCondition (), n.o);
                    n.t = bbs[Br->getSuccessor (0)];
                    n.f = bbs[Br->getSuccessor (1)];
                } else { n.op = I_BR; n.t = bbs[Br->getSuccessor (0)]; }
            } else if (auto *Sw = dyn_cast<SwitchInst> (&I)) {
                n.op = I_SWITCH;
                ops (Sw->getCondition (), n.o);
                n.w2 = width (Sw->getCondition ()->getType ());
                n.t = bbs[Sw->getDefaultDest ()];
                for (auto &c : Sw->cases ()) n.cases.push_back ({ c.getCaseValue ()->getZExtValue (), bbs[c.getCaseSuccessor ()] });
            } else if (auto *R = dyn_cast<ReturnInst> (&I)) {
                n.op = I_RET;
                if (R->getReturnValue ()) ops (R->getReturnValue (), n.o);
            } else if (isa<UnreachableInst> (&I)) {
                n.op = I_UNREACHABLE;
            } else if (auto *A = dyn_cast<AllocaInst> (&I)) {
                n.op = I_ALLOCA;
                n.imm = DL->getTypeAllocSize (A->getAllocatedType ());
                ops (A->getArraySize (), n.o);
                n.w2 = width (A->getArraySize ()->getType ());
            } else if (auto *Ca = dyn_cast<CastInst> (&I)) {
                unsigned sw = width (Ca->getSrcTy ()), dw = width (Ca->getDestTy ());
                n.w2 = sw;
                n.w = dw;
                ops (Ca->getOperand (0), n.o);
                switch (Ca->getOpcode ()) {
                case Instruction::ZExt: n.op = I_ZEXT; break;
                case Instruction::SExt: n.op = I_SEXT; break;
                case Instruction::Trunc: n.op = I_TRUNC; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr:
                    n.op = sw == dw ? I_MOV : sw < dw ? I_ZEXT : I_TRUNC; break;
                case Instruction::BitCast: n.op = I_MOV; break;
                default: bad ("cast");
                }
                if (sw > 64 || dw > 64) bad ("wide cast");
            } else if (auto *Se = dyn_cast<SelectInst> (&I)) {
                n.op = I_SELECT;
                flat (Se->getType (), n.ws);
                ops (Se->getCondition (), n.o);
                ops (Se->getTrueValue (), n.o);
                ops (Se->getFalseValue (), n.o);
            } else if (isa<FreezeInst> (&I)) {
                n.op = I_MOV;
                ops (I.getOperand (0), n.o);
            } else if (auto *EV = dyn_cast<ExtractValueInst> (&I)) {
                n.op = I_MOV;
                vector<Opnd> a;
                ops (EV->getAggregateOperand (), a);
                unsigned pos = 0;
                Type *t = EV->getAggregateOperand ()->getType ();
                for (unsigned ix : EV->indices ()) {
                    for (unsigned k = 0; k < ix; k++) pos += nslots (t->isStructTy () ? t->getStructElementType (k) : t->getArrayElementType ());
                    t = t->isStructTy () ? t->getStructElementType (ix) : t->getArrayElementType ();
                }
                unsigned cnt = nslots (t);
                for (unsigned k = 0; k < cnt; k++) n.o.push_back (a[pos + k]);
            } else if (auto *IV = dyn_cast<InsertValueInst> (&I)) {
                n.op = I_MOV;
                ops (IV->getAggregateOperand (), n.o);
                vector<Opnd> v;
                ops (IV->getInsertedValueOperand (), v);
                unsigned pos = 0;
                Type *t = IV->getAggregateOperand ()->getType ();
                for (unsigned ix : IV->indices ()) {
                    for (unsigned k = 0; k < ix; k++) pos += nslots (t->isStructTy () ? t->getStructElementType (k) : t->getArrayElementType ());
                    t = t->isStructTy () ? t->getStructElementType (ix) : t->getArrayElementType ();
                }
                for (unsigned k = 0; k < v.size (); k++) n.o[pos + k] = v[k];
            } else if (auto *RM = dyn_cast<AtomicRMWInst> (&I)) {
                n.op = I_RMW;
                n.w = width (RM->getType ());
                switch (RM->getOperation ()) {
                case AtomicRMWInst::Add: n.sub = E_ADD; break;
                case AtomicRMWInst::Sub: n.sub = E_SUB; break;
                case AtomicRMWInst::And: n.sub = E_AND; break;
                case AtomicRMWInst::Or: n.sub = E_OR; break;
                case AtomicRMWInst::Xor: n.sub = E_XOR; break;
                case AtomicRMWInst::Xchg: n.sub = E_VAR; break;
                default: bad ("atomicrmw");
                }
                ops (RM->getPointerOperand (), n.o);
                ops (RM->getValOperand (), n.o);
            } else if (auto *CX = dyn_cast<AtomicCmpXchgInst> (&I)) {
                n.op = I_CMPXCHG;
                n.w = width (CX->getNewValOperand ()->getType ());
                ops (CX->getPointerOperand (), n.o);
                ops (CX->getCompareOperand (), n.o);
                ops (CX->getNewValOperand (), n.o);
            } else if (isa<FenceInst> (&I)) {
                n.op = I_NOP;
            } else if (auto *CI = dyn_cast<CallInst> (&I)) {
                n.op = I_CALL;
                const Value *cv = CI->getCalledOperand ();
                if (auto *ia = dyn_cast<InlineAsm> (cv)) {
                    StringRef s = ia->getAsmString ();
                    bool blank = s.trim ().empty ();
                    if (blank && CI->getType ()->isVoidTy ()) n.op = I_NOP;
                    else if (blank && CI->arg_size () == 1 && nslots (CI->getType ()) == 1) { n.op = I_MOV; ops (CI->getArgOperand (0), n.o); }
                    else if (s.contains ("pause") || s.contains ("rep; nop")) n.op = I_NOP;
                    else bad ("inline assembly");
                } else {
                    const Function *cf = dyn_cast<Function> (cv->stripPointerCasts ());
                    if (auto *ga = dyn_cast<GlobalAlias> (cv->stripPointerCasts ())) cf = dyn_cast<Function> (ga->getAliasee ()->stripPointerCasts ());
                    if (cf && cf->isIntrinsic ()) {
                        n.builtin = intrinsic_of (cf);
                        if (n.builtin < 0) bad ("intrinsic " + cf->getName ().str ());
                    } else if (cf) {
                        n.callee = get_func (cf);
                        if (!n.callee) {
                            auto it = g_builtins.find (cf->getName ().str ());
                            if (it != g_builtins.end ()) n.builtin = it->second;
                            else bad ("call of unmodelled function " + cf->getName ().str ());
                        }
                    } else {
                        vector<Opnd> x;
                        ops (cv, x);
                        n.fp = x[0];
                    }
                    if (n.builtin == B_NOP0) n.op = I_NOP;
                    if (n.op == I_CALL) {
                        unsigned nf = CI->getFunctionType ()->getNumParams ();
                        for (unsigned i = 0; i < CI->arg_size (); i++) {
                            size_t before = n.o.size ();
                            if (CI->getArgOperand (i)->getType ()->isMetadataTy ()) continue;
                            ops (CI->getArgOperand (i), n.o);
                            flat (CI->getArgOperand (i)->getType (), n.ws);
                            if (i < nf) n.nfix = n.o.size ();
                            uint64_t bv = 0;
                            if (CI->isByValArgument (i)) bv = DL->getTypeAllocSize (CI->getParamByValType (i));
                            for (size_t k = before; k < n.o.size (); k++) n.byval.push_back (bv);
                        }
                    }
                }
            } else bad (string ("instruction ") + I.getOpcodeName ());
            if (!g_constbad.empty () && n.op != I_NOP) bad (g_constbad);
        }
    }
}

static Func *get_func (const llvm::Function *F)
{
    auto it = g_funcs.find (F);
    if (it != g_funcs.end ()) return it->second;
    const llvm::Function *D = F;
    if (F->isDeclaration ()) {
        D = M->getFunction ("env_" + F->getName ().str ());
        if (!D || D->isDeclaration ()) return g_funcs[F] = nullptr;
    } else {
        // a definition in the repository may be replaced by the environment
        const llvm::Function *E = M->getFunction ("env_" + F->getName ().str ());
        if (E && !E->isDeclaration ()) D = E;
    }
    if (D != F) {
        Func *r = get_func (D);
        return g_funcs[F] = r;
    }
    Func *f = new Func;
    f->name = F->getName ().str ();
    f->F = F;
    if (auto *sp = F->getSubprogram ()) {
        f->file = sp->getFilename ().str ();
        if (!f->file.empty () && f->file[0] != '/') f->file = sp->getDirectory ().str () + "/" + f->file;
        f->line = sp->getLine ();
    }
    g_funcs[F] = f;
    g_flist.push_back (f);
    return f;
}

// ---------------------------------------------------------------- interpreter
static inline const Val &get (const Frame *f, const Opnd &o)
{
    static thread_local Val tmp[64];
    static thread_local int ti;
    if (o.reg >= 0) return f->r[o.reg];
    Val &t = tmp[ti++ & 63];
    t.c = o.c;
    t.e = nullptr;
    return t;
}

static Val binop (EOp op, unsigned w, const Val &a, const Val &b)
{
    if (!a.e && !b.e) return Val (fold (op, w, w, a.c, b.c));
    return Val (mk (op, w, toE (a, w), toE (b, w)));
}
static Val cmpop (EOp op, unsigned w, const Val &a, const Val &b)
{
    if (!a.e && !b.e) return Val (fold (op, 1, w, a.c, b.c));
    return Val (mk (op, 1, toE (a, w), toE (b, w)));
}
static Val notv (const Val &a) { return a.e ? Val (mk_not (a.e)) : Val ((a.c & 1) ^ 1); }
static Val itev (const Val &c, unsigned w, const Val &a, const Val &b)
{
    if (!c.e) return (c.c & 1) ? a : b;
    return Val (mk (E_ITE, w, c.e, toE (a, w), toE (b, w)));
}
static Val zextv (const Val &a, unsigned w) { return a.e ? Val (mk (E_ZEXT, w, a.e)) : a; }
static Val truncv (const Val &a, unsigned w) { return a.e ? Val (mk (E_EXTRACT, w, a.e)) : Val (a.c & maskw (w)); }
static Val sextv (const Val &a, unsigned sw, unsigned w)
{
    return a.e ? Val (mk (E_SEXT, w, a.e)) : Val ((uint64_t)sextw (a.c, sw) & maskw (w));
}

static void go_block (Frame *f, int b)
{
    Blk &k = f->f->blks[b];
    if (!k.phis.empty ()) {
        Val tmp[64];
        int n = 0;
        for (auto &p : k.phis)
            for (auto &in : p.in)
                if (in.first == f->blk) { for (auto &o : in.second) { if (n < 64) tmp[n] = get (f, o); n++; } break; }
        if (n > 64) { engine_error ("too many phis"); return; }
        n = 0;
        for (auto &p : k.phis)
            for (auto &in : p.in)
                if (in.first == f->blk) { for (size_t i = 0; i < in.second.size (); i++) f->r[p.dst + i] = tmp[n++]; break; }
    }
    f->blk = b;
    f->pc = k.start;
}

static void push_frame (int stk, Func *fn, const vector<Val> &args, int dst)
{
    if (!fn->decoded) decode (fn);
    Frame *f = new Frame;
    f->uid = ++S->uid;
    f->f = fn;
    f->r.resize (fn->nregs);
    for (int i = 0; i < fn->nargs && i < (int)args.size (); i++) f->r[i] = args[i];
    for (size_t i = fn->nargs; i < args.size (); i++) f->va.push_back (args[i]);
    f->dst = dst;
    f->blk = 0;
    f->pc = fn->blks[0].start;
    S->stks[stk].fr.push_back (FP (f));
    if (S->stks[stk].fr.size () > 400) die_violation ("stack", "unbounded recursion");
}

// inputs of some of the ended paths, for running them natively
static uint64_t ended;
static vector<VRec> samples;
static void end_path ()
{
    dead = true;
    ended++;
    if (ended & (ended - 1)) return;
    for (Expr *c : S->cs) if (!eval (c, S->model)) { engine_error ("a path does not satisfy its own condition"); return; }
    VRec v;
    for (auto &p : S->log) v.in.push_back ({ p.second, eval (p.first, S->model) });
    if (samples.size () >= 3) samples.erase (samples.begin ());
    samples.push_back (v);
}

static Obj *mem_region (const Val &a, uint64_t n, bool wr, uint64_t *off) { return resolve (a.c, n, wr, off); }

// memcpy with possibly symbolic length
static bool do_memcpy (Val d, Val s, Val n, bool)
{
    if (!concretize (d, 64) || !concretize (s, 64)) return false;
    if (!n.e) {
        if (n.c == 0) return true;
        uint64_t so, dof;
        Obj *a = mem_region (s, n.c, false, &so);
        if (!a) return false;
        Obj *b = mem_region (d, n.c, true, &dof);
        if (!b) return false;
        uint64_t len = n.c;
        if (len > (1u << 20)) { engine_error ("memcpy too long"); return false; }
        b = wobj (b->id);
        a = getobj (s.c >> 32);
        // raw copy, preserving uninitialised bytes
        vector<uint8_t> db (len, 0), ub (len, 0);
        vector<Expr *> sb;
        for (uint64_t i = 0; i < len; i++) {
            uint64_t o = so + i;
            if (o >= a->d.size ()) { if (!a->zero) ub[i] = 1; continue; }
            db[i] = a->d[o];
            if (!a->u.empty ()) ub[i] = a->u[o];
            if (!a->s.empty () && a->s[o]) { if (sb.empty ()) sb.resize (len, nullptr); sb[i] = a->s[o]; }
        }
        ensure (b, dof + len);
        bool anyu = false;
        for (auto x : ub) if (x) { anyu = true; break; }
        if (anyu && b->u.empty ()) b->u.resize (b->d.size (), 0);
        if (!sb.empty () && b->s.empty ()) b->s.resize (b->d.size (), nullptr);
        memcpy (b->d.data () + dof, db.data (), len);
        if (!b->u.empty ()) memcpy (b->u.data () + dof, ub.data (), len);
        if (!b->s.empty ()) {
            if (sb.empty ()) for (uint64_t i = 0; i < len; i++) b->s[dof + i] = nullptr;
            else for (uint64_t i = 0; i < len; i++) b->s[dof + i] = sb[i];
        }
        return true;
    }
    Obj *a = getobj (s.c >> 32), *b = getobj (d.c >> 32);
    Val z = cmpop (E_EQ, 64, n, Val ((uint64_t)0));
    if (!a || !b || a->freed || b->freed || !(s.c >> 32) || !(d.c >> 32)) {
        // only a zero length is fine
        Model m;
        Expr *nz = mk_not (toE (z, 1));
        if (sat (nz, &m)) violation ("memory", "copy through an invalid pointer", m);
        dead = true;
        return false;
    }
    uint64_t so = s.c - a->base, dof = d.c - b->base;
    uint64_t lim = UINT64_MAX;
    for (int k = 0; k < 2; k++) {
        Obj *o = k ? b : a;
        uint64_t off = k ? dof : so;
        uint64_t rem = off > o->size ? 0 : o->size - off;
        Expr *bad = mk (E_ULT, 1, mk_const (rem, 64), n.e);
        if (o->ssize) bad = mk (E_OR, 1, bad, mk (E_ULT, 1, o->ssize, mk (E_ADD, 64, mk_const (off, 64), n.e)));
        Model m;
        if (sat (bad, &m)) {
            violation ("memory", k ? "out-of-bounds write" : "out-of-bounds read", m);
            if (o_verbose) fprintf (stderr, "   %s symbolic length\n", addr_desc (k ? d.c : s.c).c_str ());
            Expr *ok = mk_not (bad);
            if (dead || !sat (ok, &m)) { dead = true; return false; }
            S->model = m;
            add_c (ok);
        }
        if (dead) return false;
        lim = std::min (lim, rem);
    }
    // largest feasible length
    uint64_t hi = 0;
    {
        uint64_t lo = eval (n.e, S->model), h = lim;
        Model m;
        if (h > 8192) h = 8192;
        Expr *over = mk (E_ULT, 1, mk_const (h, 64), n.e);
        if (sat (over, &m)) { engine_error ("symbolic copy length too large"); return false; }
        while (lo < h) {
            uint64_t mid = lo + (h - lo) / 2;
            Expr *q = mk (E_ULT, 1, mk_const (mid, 64), n.e);
            if (sat (q, &m)) lo = eval (n.e, m);
            else h = mid;
            if (dead) return false;
        }
        hi = lo;
    }
    vector<Val> src;
    for (uint64_t i = 0; i < hi; i++) src.push_back (byte_at (a, so + i));
    b = wobj (b->id);
    for (uint64_t i = 0; i < hi; i++) {
        Obj *bb = b;
        Val old = byte_at (bb, dof + i);
        b = bb;
        Val c (mk (E_ULT, 1, mk_const (i, 64), n.e));
        set_byte (b, dof + i, itev (c, 8, src[i], old));
    }
    return true;
}
static bool do_memset (Val d, Val c, Val n)
{
    if (!concretize (d, 64)) return false;
    c = truncv (c, 8);
    uint64_t off;
    if (!n.e) {
        if (n.c == 0) return true;
        Obj *b = mem_region (d, n.c, true, &off);
        if (!b) return false;
        b = wobj (b->id);
        if (!c.e && off == 0 && n.c == b->size && !b->ssize && c.c == 0) {
            b->d.clear (); b->u.clear (); b->s.clear ();
            b->zero = true;
            return true;
        }
        if (n.c > (1u << 20)) { engine_error ("memset too long"); return false; }
        for (uint64_t i = 0; i < n.c; i++) set_byte (b, off + i, c);
        return true;
    }
    Obj *b = getobj (d.c >> 32);
    if (!b || b->freed || !(d.c >> 32)) { die_violation ("memory", "memset through an invalid pointer"); return false; }
    off = d.c - b->base;
    uint64_t rem = off > b->size ? 0 : b->size - off;
    Expr *bad = mk (E_ULT, 1, mk_const (rem, 64), n.e);
    if (b->ssize) bad = mk (E_OR, 1, bad, mk (E_ULT, 1, b->ssize, mk (E_ADD, 64, mk_const (off, 64), n.e)));
    Model m;
    if (sat (bad, &m)) {
        violation ("memory", "out-of-bounds write", m);
        Expr *ok = mk_not (bad);
        if (dead || !sat (ok, &m)) { dead = true; return false; }
        S->model = m;
        add_c (ok);
    }
    if (dead) return false;
    if (b->ssize && !c.e && c.c == 0 && off == 0) {
        // zeroing (a prefix of) a block of symbolic size: provably whole block?
        if (!sat (mk_not (mk (E_EQ, 1, b->ssize, n.e)), nullptr)) {
            b = wobj (b->id);
            b->d.clear (); b->u.clear (); b->s.clear ();
            b->zero = true;
            return true;
        }
    }
    uint64_t lo = eval (n.e, S->model), h = std::min<uint64_t> (rem, 8192);
    if (sat (mk (E_ULT, 1, mk_const (h, 64), n.e), &m)) {
        // long and symbolic: only a prefix is materialised when clearing
        if (!c.e && c.c == 0) { engine_error ("symbolic memset length too large"); return false; }
        engine_error ("symbolic memset length too large");
        return false;
    }
    while (lo < h) {
        uint64_t mid = lo + (h - lo) / 2;
        if (sat (mk (E_ULT, 1, mk_const (mid, 64), n.e), &m)) lo = eval (n.e, m);
        else h = mid;
        if (dead) return false;
    }
    b = wobj (b->id);
    for (uint64_t i = 0; i < lo; i++) {
        Obj *bb = b;
        Val old = byte_at (bb, off + i);
        b = bb;
        set_byte (b, off + i, itev (Val (mk (E_ULT, 1, mk_const (i, 64), n.e)), 8, c, old));
    }
    return true;
}

static bool cstr (uint64_t a, const char **out)
{
    static std::set<string> pool;
    string s;
    for (int i = 0; i < 4000; i++) {
        Val b;
        if (!load (a + i, 8, &b)) return false;
        if (b.e) { engine_error ("symbolic string"); return false; }
        if (!b.c) { *out = pool.insert (s).first->c_str (); return true; }
        s += (char)b.c;
    }
    engine_error ("unterminated string");
    return false;
}

static void do_longjmp (uint64_t buf, Val v)
{
    auto it = S->snaps.find (buf);
    if (it == S->snaps.end ()) { die_violation ("jump", "jump to a context that was never saved"); return; }
    Snap &sn = it->second;
    Stk &k = S->stks[sn.stk];
    if (k.dead) { die_violation ("jump", "jump to a freed stack"); return; }
    bool ok = true;
    if (k.fr.empty () && k.retained.p && sn.fr.size () == 1 && k.retained->uid == sn.fr[0]->uid) {
        k.returned = true;
        k.parent = -1;
        k.fr.push_back (k.retained);
        k.retained = FP ();
    } else {
        if (k.fr.size () < sn.fr.size ()) ok = false;
        for (size_t i = 0; ok && i < sn.fr.size (); i++) if (k.fr[i]->uid != sn.fr[i]->uid) ok = false;
    }
    if (!ok) { die_violation ("jump", "jump into a frame that has returned"); return; }
    // release the frames above
    for (size_t i = sn.fr.size (); i < k.fr.size (); i++)
        for (auto a : k.fr[i]->allocas) S->objs[a] = OP ();
    // keep allocas the target frame has made since
    vector<uint32_t> al = k.fr[sn.fr.size () - 1]->allocas;
    k.fr = sn.fr;
    S->cur = sn.stk;
    Frame *f = wtop ();
    f->allocas = al;
    if (sn.dst >= 0) {
        if (v.e) f->r[sn.dst] = v;
        else f->r[sn.dst] = Val ((v.c & 0xffffffff) ? (v.c & 0xffffffff) : 1);
    }
}

static void do_return (const vector<Val> &rv)
{
    Stk &k = S->stks[S->cur];
    FP f = k.fr.back ();
    k.fr.pop_back ();
    int dst = f->dst;
    if (k.fr.empty ()) {
        if (S->cur == 0) { // harness returned
            end_path ();
            return;
        }
        if (k.parent >= 0 && !k.returned) {
            // base frame of an alternate stack: stays in place for a later jump
            k.retained = f;
            k.returned = true;
            S->cur = k.parent;
            k.parent = -1;
            return;
        }
        if (k.region) { die_violation ("jump", "return from a task's base frame"); return; }
        engine_error ("thread function returned");
        return;
    }
    for (auto a : f->allocas) S->objs[a] = OP ();
    if (dst >= 0) {
        Frame *c = wtop ();
        for (size_t i = 0; i < rv.size (); i++) c->r[dst + i] = rv[i];
    }
}

static Val ovf_result (int b, unsigned w, const Val &x, const Val &y, Val *ov)
{
    unsigned ww = w < 64 ? w : 64;
    Val r;
    switch (b) {
    case B_UADDO: r = binop (E_ADD, w, x, y); *ov = cmpop (E_ULT, w, r, x); return r;
    case B_USUBO: r = binop (E_SUB, w, x, y); *ov = cmpop (E_ULT, w, x, y); return r;
    case B_UMULO:
        r = binop (E_MUL, w, x, y);
        if (!y.e) *ov = y.c ? cmpop (E_ULT, w, Val (maskw (w) / y.c), x) : Val ((uint64_t)0);
        else if (!x.e) *ov = x.c ? cmpop (E_ULT, w, Val (maskw (w) / x.c), y) : Val ((uint64_t)0);
        else {
            Val q = binop (E_UDIV, w, Val (maskw (w)), y);
            Val nz = notv (cmpop (E_EQ, w, y, Val ((uint64_t)0)));
            *ov = binop (E_AND, 1, nz, cmpop (E_ULT, w, q, x));
        }
        return r;
    case B_SADDO: case B_SSUBO: {
        r = binop (b == B_SADDO ? E_ADD : E_SUB, w, x, y);
        // overflow: sign logic
        Val sx = cmpop (E_SLT, w, x, Val ((uint64_t)0)), sy = cmpop (E_SLT, w, y, Val ((uint64_t)0)), sr = cmpop (E_SLT, w, r, Val ((uint64_t)0));
        Val same = notv (binop (E_XOR, 1, sx, sy));
        if (b == B_SSUBO) same = notv (same);
        *ov = binop (E_AND, 1, same, binop (E_XOR, 1, sx, sr));
        return r;
    }
    default: {
        r = binop (E_MUL, w, x, y);
        if (ww <= 32) {
            Val wide = binop (E_MUL, 64, sextv (x, w, 64), sextv (y, w, 64));
            *ov = notv (cmpop (E_EQ, 64, wide, sextv (r, w, 64)));
        } else {
            // x != 0 and (r / x != y or x == -1 and y == min)
            Val nz = notv (cmpop (E_EQ, w, x, Val ((uint64_t)0)));
            Val q = binop (E_SDIV, w, r, x);
            Val bad = notv (cmpop (E_EQ, w, q, y));
            Val m1 = binop (E_AND, 1, cmpop (E_EQ, w, x, Val (maskw (w))), cmpop (E_EQ, w, y, Val (1ull << (w - 1))));
            *ov = binop (E_AND, 1, nz, binop (E_OR, 1, bad, m1));
        }
        return r;
    }
    }
}

// Builtin call on instruction n; pc is still at n.  Returns false if the
// state died or control was transferred (pc handled).
static void do_builtin (const Inst &n)
{
    Frame *f = wtop ();
    vector<Val> a;
    a.reserve (n.o.size ());
    for (auto &o : n.o) a.push_back (get (f, o));
    auto ret = [&] (const Val &v) {
        Frame *g = wtop ();
        if (n.dst >= 0) g->r[n.dst] = v;
        g->pc++;
    };
    switch (n.builtin) {
    case B_SYM_VAL: {
        const char *name;
        if (!cstr (a[0].c, &name)) return;
        unsigned w = a[1].c;
        static std::map<std::pair<size_t, std::pair<const char *, unsigned>>, Expr *> tab;
        Expr *&e = tab[{ S->log.size (), { name, w } }];
        if (!e) e = mk_var (name, w);
        S->log.push_back ({ e, name });
        if (S->model.size () < g_nvars) S->model.resize (g_nvars, 0);
        ret (zextv (Val (e), 64));
        return;
    }
    case B_ASSUME: {
        Val c = cmpop (E_EQ, n.ws[0], a[0], Val ((uint64_t)0));
        if (!c.e) { if (c.c) { dead = true; return; } wtop ()->pc++; return; }
        Expr *q = mk_not (c.e);
        Model m;
        if (!sat (q, &m)) { dead = true; return; }
        S->model = m;
        add_c (q);
        wtop ()->pc++;
        return;
    }
    case B_ASSERT: {
        const char *msg;
        if (!cstr (a[1].c, &msg)) return;
        Val c = cmpop (E_EQ, n.ws[0], a[0], Val ((uint64_t)0));
        st_asserts++;
        if (!c.e) {
            if (c.c) { die_violation ("assert", msg); return; }
            wtop ()->pc++;
            return;
        }
        st_assert_q++;
        Model m;
        if (sat (c.e, &m)) {
            violation ("assert", msg, m);
            Expr *ok = mk_not (c.e);
            if (dead || !sat (ok, &m)) { dead = true; return; }
            S->model = m;
            add_c (ok);
        }
        if (dead) return;
        wtop ()->pc++;
        return;
    }
    case B_FAIL: {
        const char *msg;
        if (!cstr (a[0].c, &msg)) return;
        die_violation ("fail", msg);
        return;
    }
    case B_PICK:
        if (!concretize (a[0], n.ws[0])) return;
        ret (a[0]);
        return;
    case B_COVER: {
        const char *msg;
        if (!cstr (a[0].c, &msg)) return;
        covers.insert (msg);
        wtop ()->pc++;
        return;
    }
    case B_END: end_path (); return;
    case B_NOTE: {
        const char *msg;
        if (!cstr (a[0].c, &msg)) return;
        S->notes.push_back ({ msg, a[1] });
        wtop ()->pc++;
        return;
    }
    case B_SMALLOC: {
        uint64_t sz = a[0].e ? 0xf0000000ull : a[0].c;
        if (sz > 0xf0000000ull) { engine_error ("allocation too large"); return; }
        Obj *o = new_obj (K_HEAP, sz, 0x1010);
        o->ssize = a[0].e;
        // attribute to the nearest repository frame
        for (size_t i = S->stks[S->cur].fr.size (); i-- > 0;) {
            Frame *g = S->stks[S->cur].fr[i].p;
            o->site = g->f->code[g->pc].file; o->line = g->f->code[g->pc].line;
            if (g->f->file.compare (0, o_repo.size (), o_repo) == 0) break;
        }
        if (a[0].e) {
            Expr *over = mk (E_ULT, 1, mk_const (0xf0000000ull, 64), a[0].e);
            if (sat (over, nullptr)) { engine_error ("allocation size not bounded by the model"); return; }
        }
        ret (Val (o->base));
        return;
    }
    case B_SFREE: {
        if (!concretize (a[0], 64)) return;
        if (!a[0].c) { wtop ()->pc++; return; }
        Obj *o = getobj (a[0].c >> 32);
        if (!o || o->kind != K_HEAP || a[0].c != o->base) { die_violation ("memory", "free of something that was not allocated"); return; }
        if (o->freed) { die_violation ("memory", "double free"); return; }
        o = wobj (o->id);
        o->freed = true;
        o->d.clear (); o->u.clear (); o->s.clear ();
        free_region_stacks (o->id);
        if (dead) return;
        wtop ()->pc++;
        return;
    }
    case B_OBJSIZE: {
        if (!concretize (a[0], 64)) return;
        Obj *o = getobj (a[0].c >> 32);
        if (!o || o->freed || !a[0].c) { die_violation ("memory", "size of an invalid object"); return; }
        Val sz = o->ssize ? Val (o->ssize) : Val (o->size);
        ret (binop (E_SUB, 64, sz, Val (a[0].c - o->base)));
        return;
    }
    case B_ISLIVE: {
        if (!concretize (a[0], 64)) return;
        Obj *o = getobj (a[0].c >> 32);
        ret (Val ((uint64_t)(o && a[0].c && !o->freed && a[0].c >= o->base && a[0].c < o->base + o->size)));
        return;
    }
    case B_ACCESS: {
        // every byte of a (symbolic) range may be accessed
        uint64_t k = a[0].e ? eval (a[0].e, S->model) : a[0].c;
        Obj *o = getobj (k >> 32);
        if (!o || !(k >> 32) || o->freed || o->kind == K_FUNC) { die_violation ("memory", "range outside any live object"); return; }
        Val sz = o->ssize ? Val (o->ssize) : Val (o->size);
        Val off = binop (E_SUB, 64, a[0], Val (o->base)), end = binop (E_ADD, 64, off, a[1]);
        Val bad = binop (E_OR, 1, cmpop (E_ULT, 64, sz, off), cmpop (E_ULT, 64, binop (E_SUB, 64, sz, off), a[1]));
        if (o->phi > o->plo)
            bad = binop (E_OR, 1, bad, binop (E_AND, 1, cmpop (E_ULT, 64, off, Val (o->phi)), cmpop (E_ULT, 64, Val (o->plo), end)));
        Model m;
        if (sat (toE (bad, 1), &m)) {
            violation ("memory", "range reaches outside its object", m);
            Expr *ok = mk_not (toE (bad, 1));
            if (dead || !sat (ok, &m)) { dead = true; return; }
            S->model = m;
            add_c (ok);
        }
        if (dead) return;
        wtop ()->pc++;
        return;
    }
    case B_SMMAP: {
        if (!a[0].e && a[0].c > 0xf0000000ull) { engine_error ("mapping too large"); return; }
        if (a[0].e && sat (mk (E_ULT, 1, mk_const (0xf0000000ull, 64), a[0].e), nullptr)) { engine_error ("mapping size not bounded by the model"); return; }
        Val len = binop (E_AND, 64, binop (E_ADD, 64, a[0], Val ((uint64_t)4095)), Val (~4095ull));
        Obj *o = new_obj (K_MMAP, len.e ? 0xf0001000ull : len.c, 0x10000);
        o->ssize = len.e;
        o->zero = true;
        o->site = f->f->code[f->pc].file; o->line = f->f->code[f->pc].line;
        ret (Val (o->base));
        return;
    }
    case B_SMUNMAP: {
        if (!concretize (a[0], 64)) return;
        Obj *o = getobj (a[0].c >> 32);
        if (!o || o->kind != K_MMAP || o->freed) { die_violation ("memory", "unmap of something that is not mapped"); return; }
        Val len = binop (E_AND, 64, binop (E_ADD, 64, a[1], Val ((uint64_t)4095)), Val (~4095ull));
        Val same = cmpop (E_EQ, 64, len, o->ssize ? Val (o->ssize) : Val (o->size));
        Model m;
        if (a[0].c != o->base) { die_violation ("memory", "unmap of a range different from the mapping"); return; }
        if (sat (mk_not (toE (same, 1)), &m)) { violation ("memory", "unmap of a range different from the mapping", m); dead = true; return; }
        if (dead) return;
        o = wobj (o->id);
        o->freed = true;
        o->d.clear (); o->u.clear (); o->s.clear ();
        free_region_stacks (o->id);
        if (dead) return;
        wtop ()->pc++;
        return;
    }
    case B_SPROT: {
        if (!concretize (a[0], 64) || !concretize (a[1], 64)) return;
        Obj *o = getobj (a[0].c >> 32);
        if (!o || o->kind != K_MMAP || o->freed || a[0].c < o->base || a[0].c - o->base + a[1].c > o->size) { die_violation ("memory", "protect of something that is not mapped"); return; }
        o = wobj (o->id);
        o->plo = a[0].c - o->base;
        o->phi = o->plo + ((a[1].c + 4095) & ~4095ull);
        wtop ()->pc++;
        return;
    }
    case B_CORO_NEW: {
        auto it = g_byaddr.find (a[0].c);
        if (it == g_byaddr.end ()) { engine_error ("coroutine entry"); return; }
        wtop ()->pc++;
        int si = S->stks.size ();
        S->stks.emplace_back ();
        push_frame (si, it->second, { a[1] }, -1);
        S->thr.push_back ({ si });
        if (n.dst >= 0) wtop ()->r[n.dst] = Val ((uint64_t)(S->thr.size () - 1));
        return;
    }
    case B_CORO_SWITCH: {
        if (!concretize (a[0], n.ws[0])) return;
        if (a[0].c >= S->thr.size ()) { engine_error ("coroutine switch"); return; }
        wtop ()->pc++;
        S->thr[S->curthr].cur = S->cur;
        S->curthr = a[0].c;
        S->cur = S->thr[S->curthr].cur;
        return;
    }
    case B_CORO_CUR: ret (Val ((uint64_t)S->curthr)); return;
    case B_NATIVE: ret (Val ((uint64_t)0)); return;
    case B_MEMCPY: case B_MEMMOVE:
        if (!do_memcpy (a[0], a[1], zextv (a[2], 64), n.builtin == B_MEMMOVE)) return;
        ret (a[0]);
        return;
    case B_MEMSET:
        if (!do_memset (a[0], a[1], zextv (a[2], 64))) return;
        ret (a[0]);
        return;
    case B_MEMCMP: {
        if (!concretize (a[0], 64) || !concretize (a[1], 64) || !concretize (a[2], 64)) return;
        Val r ((uint64_t)0);
        if (a[2].c > 65536) { engine_error ("memcmp too long"); return; }
        for (uint64_t i = a[2].c; i-- > 0;) {
            Val x, y;
            if (!load (a[0].c + i, 8, &x) || !load (a[1].c + i, 8, &y)) return;
            Val lt = itev (cmpop (E_ULT, 8, x, y), 32, Val (0xffffffffull), Val ((uint64_t)1));
            r = itev (cmpop (E_EQ, 8, x, y), 32, r, lt);
        }
        ret (r);
        return;
    }
    case B_STRLEN: {
        if (!concretize (a[0], 64)) return;
        const char *s;
        if (!cstr (a[0].c, &s)) return;
        ret (Val ((uint64_t)strlen (s)));
        return;
    }
    case B_STRCMP: {
        const char *s, *t;
        if (!cstr (a[0].c, &s) || !cstr (a[1].c, &t)) return;
        ret (Val ((uint64_t)(uint32_t)strcmp (s, t)));
        return;
    }
    case B_STRCPY: {
        const char *s;
        if (!cstr (a[1].c, &s)) return;
        for (size_t i = 0; i <= strlen (s); i++) if (!store (a[0].c + i, 8, Val ((uint64_t)(uint8_t)s[i]))) return;
        ret (a[0]);
        return;
    }
    case B_ERRNO: {
        while ((int)S->errno_obj.size () <= S->curthr) S->errno_obj.push_back (0);
        if (!S->errno_obj[S->curthr]) {
            Obj *o = new_obj (K_GLOBAL, 4, 0x1000);
            o->zero = true;
            o->site = "errno";
            S->errno_obj[S->curthr] = o->id;
        }
        ret (Val (getobj (S->errno_obj[S->curthr])->base));
        return;
    }
    case B_TLSADDR: {
        // thread 0 uses the variable itself, each other one has a copy
        if (!concretize (a[0], 64)) return;
        if (!S->curthr) { ret (a[0]); return; }
        Obj *g = getobj (a[0].c >> 32);
        if (!g || !g_tlsinit.count (g->id)) { engine_error ("thread-local variable"); return; }
        uint64_t off = a[0].c - g->base;
        uint32_t &id = S->tls_obj[{ g->id, S->curthr }];
        if (!id) {
            Obj *o = new_obj (K_GLOBAL, g->size, 0x1000);
            o->zero = true;
            o->site = g->site;
            o->d = g_tlsinit[g->id];
            id = o->id;
        }
        ret (Val (getobj (id)->base + off));
        return;
    }
    case B_ABORT: die_violation ("abort", "abort called"); return;
    case B_EXIT: engine_error ("exit called"); return;
    case B_SETJMP: {
        if (!concretize (a[0], 64)) return;
        Frame *g = wtop ();
        // the saved context lives in the caller's memory: touch it
        if (!store (a[0].c, 64, Val ((uint64_t)g->uid))) return;
        if (n.dst >= 0) g->r[n.dst] = Val ((uint64_t)0);
        g->pc++;
        Snap sn;
        sn.stk = S->cur;
        sn.fr = S->stks[S->cur].fr;
        sn.dst = n.dst;
        S->snaps[a[0].c] = sn;
        return;
    }
    case B_LONGJMP: {
        if (!concretize (a[0], 64) || !concretize (a[1], 32)) return;
        Val id;
        if (!load (a[0].c, 64, &id)) return;
        auto it = S->snaps.find (a[0].c);
        if (it != S->snaps.end () && (id.e || id.c != it->second.fr.back ()->uid)) {
            die_violation ("jump", "jump to a context that was overwritten");
            return;
        }
        do_longjmp (a[0].c, a[1]);
        return;
    }
    case B_EXECUTE: {
        if (!concretize (a[0], 64) || !concretize (a[1], 64)) return;
        Val tp;
        if (!load (a[0].c, 64, &tp)) return;
        if (!concretize (tp, 64)) return;
        Obj *o = getobj ((tp.c - 1) >> 32);
        if (!o || o->freed || (o->kind != K_HEAP && o->kind != K_MMAP) || tp.c <= o->base) { die_violation ("stack", "stack switch to memory that is not a live block"); return; }
        if (tp.c > o->base + o->size) { die_violation ("stack", "stack top beyond its block"); return; }
        if (o->ssize) {
            Model m;
            if (sat (mk (E_ULT, 1, o->ssize, mk_const (tp.c - o->base, 64)), &m)) { violation ("stack", "stack top beyond its block", m); dead = true; return; }
        }
        if (tp.c & 15) { die_violation ("stack", "stack top not 16-byte aligned"); return; }
        auto it = g_byaddr.find (a[1].c);
        if (it == g_byaddr.end ()) { die_violation ("memory", "call through an invalid function pointer"); return; }
        wtop ()->pc++;
        // a stack on the same region is being started again
        for (auto &k : S->stks) {
            if (k.region == o->id && !k.dead) {
                if (&k == &S->stks[S->cur]) { die_violation ("stack", "stack restarted while running on it"); return; }
                for (auto &g : k.fr) for (auto x : g->allocas) S->objs[x] = OP ();
                if (k.retained.p) for (auto x : k.retained->allocas) S->objs[x] = OP ();
                k.fr.clear ();
                k.retained = FP ();
                k.dead = true;
            }
        }
        int si = S->stks.size ();
        S->stks.emplace_back ();
        S->stks[si].region = o->id;
        S->stks[si].parent = S->cur;
        push_frame (si, it->second, { a[0] }, -1);
        S->cur = si;
        return;
    }
    case B_IGNORE: ret (Val ((uint64_t)0)); return;
    case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
        Val ov, r = ovf_result (n.builtin, n.ws[0], a[0], a[1], &ov);
        Frame *g = wtop ();
        g->r[n.dst] = r;
        g->r[n.dst + 1] = ov;
        g->pc++;
        return;
    }
    case B_UMIN: ret (itev (cmpop (E_ULT, n.w, a[0], a[1]), n.w, a[0], a[1])); return;
    case B_UMAX: ret (itev (cmpop (E_ULT, n.w, a[0], a[1]), n.w, a[1], a[0])); return;
    case B_SMIN: ret (itev (cmpop (E_SLT, n.w, a[0], a[1]), n.w, a[0], a[1])); return;
    case B_SMAX: ret (itev (cmpop (E_SLT, n.w, a[0], a[1]), n.w, a[1], a[0])); return;
    case B_ABS: ret (itev (cmpop (E_SLT, n.w, a[0], Val ((uint64_t)0)), n.w, binop (E_SUB, n.w, Val ((uint64_t)0), a[0]), a[0])); return;
    case B_USUBSAT: ret (itev (cmpop (E_ULT, n.w, a[0], a[1]), n.w, Val ((uint64_t)0), binop (E_SUB, n.w, a[0], a[1]))); return;
    case B_UADDSAT: { Val s = binop (E_ADD, n.w, a[0], a[1]); ret (itev (cmpop (E_ULT, n.w, s, a[0]), n.w, Val (maskw (n.w)), s)); return; }
    case B_EXPECT: ret (a[0]); return;
    case B_PTRMASK: ret (binop (E_AND, 64, a[0], a[1])); return;
    case B_BSWAP: {
        if (!a[0].e) {
            uint64_t r = 0;
            for (unsigned i = 0; i < n.w / 8u; i++) r |= ((a[0].c >> (8 * i)) & 0xff) << (n.w - 8 - 8 * i);
            ret (Val (r));
            return;
        }
        Expr *e = mk (E_EXTRACT, 8, a[0].e, nullptr, nullptr, 0);
        for (unsigned i = 1; i < n.w / 8u; i++) e = mk (E_CONCAT, e->w + 8, e, mk (E_EXTRACT, 8, a[0].e, nullptr, nullptr, 8 * i));
        ret (Val (e));
        return;
    }
    case B_CTPOP: case B_CTLZ: case B_CTTZ: {
        if (!a[0].e) {
            uint64_t v = a[0].c;
            uint64_t r = n.builtin == B_CTPOP ? __builtin_popcountll (v) : n.builtin == B_CTLZ ? (v ? __builtin_clzll (v) - (64 - n.w) : n.w) : (v ? __builtin_ctzll (v) : n.w);
            ret (Val (r));
            return;
        }
        Val r = n.builtin == B_CTPOP ? Val ((uint64_t)0) : Val ((uint64_t)n.w);
        for (unsigned i = 0; i < n.w; i++) {
            unsigned bit = n.builtin == B_CTLZ ? i : n.w - 1 - i;
            Val b (mk (E_EXTRACT, 1, a[0].e, nullptr, nullptr, bit));
            if (n.builtin == B_CTPOP) r = binop (E_ADD, n.w, r, zextv (b, n.w));
            else r = itev (b, n.w, Val ((uint64_t)(n.builtin == B_CTLZ ? n.w - 1 - bit : bit)), r);
        }
        ret (r);
        return;
    }
    case B_FSHL: case B_FSHR: {
        if (!concretize (a[2], n.w)) return;
        uint64_t s = a[2].c % n.w;
        if (s == 0) { ret (n.builtin == B_FSHL ? a[0] : a[1]); return; }
        if (n.builtin == B_FSHR) s = n.w - s;
        ret (binop (E_OR, n.w, binop (E_SHL, n.w, a[0], Val (s)), binop (E_LSHR, n.w, a[1], Val (n.w - s))));
        return;
    }
    case B_OBJSZ_INTR: ret (Val (maskw (n.w))); return;
    case B_VASTART: {
        Frame *g = wtop ();
        Obj *o = new_obj (K_STACK, 8 * g->va.size () + 8, 0x1000);
        o->site = "va_list";
        uint64_t base = o->base;
        g->allocas.push_back (o->id);
        for (size_t i = 0; i < g->va.size (); i++) {
            Val v = g->va[i];
            if (!store (base + 8 * i, 64, v.e && v.e->w < 64 ? zextv (v, 64) : v)) return;
        }
        if (!store (a[0].c, 32, Val (48ull)) || !store (a[0].c + 4, 32, Val (176ull)) || !store (a[0].c + 8, 64, Val (base)) ||
            !store (a[0].c + 16, 64, Val (base)))
            return;
        wtop ()->pc++;
        return;
    }
    case B_VACOPY:
        if (!do_memcpy (a[0], a[1], Val (24ull), false)) return;
        wtop ()->pc++;
        return;
    default: engine_error ("builtin"); return;
    }
}

static void step ()
{
    Frame *f = wtop ();
    const Inst &n = f->f->code[f->pc];
    sh_cov[n.gid] = 1;
    switch (n.op) {
    case I_NOP: f->pc++; return;
    case I_BIN: {
        const Val &a = get (f, n.o[0]), &b = get (f, n.o[1]);
        if (n.sub >= E_UDIV && n.sub <= E_SREM) {
            if (!b.e) {
                if (!b.c) { die_violation ("division", "division by zero"); return; }
            } else {
                Expr *z = mk (E_EQ, 1, b.e, mk_const (0, n.w));
                Model m;
                if (sat (z, &m)) {
                    violation ("division", "division by zero", m);
                    if (dead || !sat (mk_not (z), &m)) { dead = true; return; }
                    S->model = m;
                    add_c (mk_not (z));
                }
                if (dead) return;
            }
        }
        if (o_narrow && n.sub >= E_UDIV && n.sub <= E_SREM && a.e && !b.e && n.w > 16 &&
            (int64_t)sextw (b.c, n.w) > 0) {
            // a dividend this path keeps small is divided at a smaller width
            static const unsigned ks[] = { 10, 12, 16, 20, 24, 28, 32, 36, 40, 48 };
            for (unsigned k : ks) {
                if (k >= n.w) break;
                if (b.c >> k) continue;
                Model m;
                if (sat (mk (E_ULE, 1, mk_const (1ull << k, n.w), a.e), &m)) {
                    if (dead) return;
                    continue;
                }
                if (dead) return;
                Expr *q = mk (n.sub == E_UDIV || n.sub == E_SDIV ? E_UDIV : E_UREM, k,
                              mk (E_EXTRACT, k, a.e), mk_const (b.c, k));
                f->r[n.dst] = Val (mk (E_ZEXT, n.w, q));
                f->pc++;
                return;
            }
        }
        f->r[n.dst] = binop ((EOp)n.sub, n.w, a, b);
        f->pc++;
        return;
    }
    case I_CMP: {
        Val r = cmpop ((EOp)n.sub, n.w2, get (f, n.o[0]), get (f, n.o[1]));
        f->r[n.dst] = n.neg ? notv (r) : r;
        f->pc++;
        return;
    }
    case I_LOAD: {
        Val a = get (f, n.o[0]);
        if (!concretize (a, 64)) return;
        for (size_t i = 0; i < n.ws.size (); i++) {
            Val v;
            if (!load (a.c + n.offs[i], n.ws[i], &v)) return;
            wtop ()->r[n.dst + i] = v;
        }
        wtop ()->pc++;
        return;
    }
    case I_STORE: {
        Val a = get (f, n.o[0]);
        if (!concretize (a, 64)) return;
        f = wtop ();
        for (size_t i = 0; i < n.ws.size (); i++)
            if (!store (a.c + n.offs[i], n.ws[i], get (f, n.o[1 + i]))) return;
        f->pc++;
        return;
    }
    case I_GEP: {
        Val p = get (f, n.o[0]);
        if (n.imm) p = binop (E_ADD, 64, p, Val (n.imm));
        for (size_t i = 0; i < n.offs.size (); i++) {
            Val ix = get (f, n.o[1 + i]);
            if (n.ws[i] < 64) ix = sextv (ix, n.ws[i], 64);
            p = binop (E_ADD, 64, p, n.offs[i] == 1 ? ix : binop (E_MUL, 64, ix, Val (n.offs[i])));
        }
        f->r[n.dst] = p;
        f->pc++;
        return;
    }
    case I_ZEXT: f->r[n.dst] = zextv (get (f, n.o[0]), n.w); f->pc++; return;
    case I_SEXT: f->r[n.dst] = sextv (get (f, n.o[0]), n.w2, n.w); f->pc++; return;
    case I_TRUNC: f->r[n.dst] = truncv (get (f, n.o[0]), n.w); f->pc++; return;
    case I_MOV: {
        if (n.o.size () == 1) f->r[n.dst] = get (f, n.o[0]);
        else {
            vector<Val> t;
            for (auto &o : n.o) t.push_back (get (f, o));
            for (size_t i = 0; i < t.size (); i++) f->r[n.dst + i] = t[i];
        }
        f->pc++;
        return;
    }
    case I_SELECT: {
        Val c = get (f, n.o[0]);
        size_t k = n.ws.size ();
        for (size_t i = 0; i < k; i++) f->r[n.dst + i] = itev (c, n.ws[i], get (f, n.o[1 + i]), get (f, n.o[1 + k + i]));
        f->pc++;
        return;
    }
    case I_BR: go_block (f, n.t); return;
    case I_CBR: {
        Val c = get (f, n.o[0]);
        State *o;
        bool v = branch (c, &o);
        if (dead) return;
        if (o) {
            State *sv = S;
            S = o;
            go_block (wtop (), v ? n.f : n.t);
            S = sv;
            work.push_back (o);
        }
        go_block (wtop (), v ? n.t : n.f);
        return;
    }
    case I_SWITCH: {
        Val c = get (f, n.o[0]);
        if (!c.e) {
            int t = n.t;
            for (auto &k : n.cases) if (k.first == c.c) { t = k.second; break; }
            go_block (f, t);
            return;
        }
        // take the case of the current model; the rest re-executes
        uint64_t v = eval (c.e, S->model);
        int t = n.t;
        Expr *cond = nullptr;
        for (auto &k : n.cases) if (k.first == v) { t = k.second; cond = mk (E_EQ, 1, c.e, mk_const (v, n.w2)); break; }
        if (!cond) {
            cond = mk_const (1, 1);
            for (auto &k : n.cases) cond = mk (E_AND, 1, cond, mk_not (mk (E_EQ, 1, c.e, mk_const (k.first, n.w2))));
        }
        State *o;
        branch (Val (cond), &o);
        if (dead) return;
        if (o) work.push_back (o);
        go_block (wtop (), t);
        return;
    }
    case I_RET: {
        vector<Val> rv;
        for (auto &o : n.o) rv.push_back (get (f, o));
        do_return (rv);
        return;
    }
    case I_UNREACHABLE: die_violation ("unreachable", "unreachable code reached"); return;
    case I_ALLOCA: {
        Val c = get (f, n.o[0]);
        if (!concretize (c, n.w2)) return;
        uint64_t sz = n.imm * c.c;
        if (sz > (1u << 24)) { die_violation ("stack", "huge stack allocation"); return; }
        Obj *o = new_obj (K_STACK, sz, 0x1000);
        o->site = n.file; o->line = n.line;
        f = wtop ();
        f->allocas.push_back (o->id);
        f->r[n.dst] = Val (o->base);
        f->pc++;
        return;
    }
    case I_RMW: {
        Val a = get (f, n.o[0]);
        if (!concretize (a, 64)) return;
        f = wtop ();
        Val old;
        if (!load (a.c, n.w, &old)) return;
        Val nv = n.sub == E_VAR ? get (f, n.o[1]) : binop ((EOp)n.sub, n.w, old, get (f, n.o[1]));
        if (!store (a.c, n.w, nv)) return;
        f->r[n.dst] = old;
        f->pc++;
        return;
    }
    case I_CMPXCHG: {
        Val a = get (f, n.o[0]);
        if (!concretize (a, 64)) return;
        f = wtop ();
        Val old;
        if (!load (a.c, n.w, &old)) return;
        Val eq = cmpop (E_EQ, n.w, old, get (f, n.o[1]));
        if (!store (a.c, n.w, itev (eq, n.w, get (f, n.o[2]), old))) return;
        f->r[n.dst] = old;
        f->r[n.dst + 1] = eq;
        f->pc++;
        return;
    }
    case I_CALL: {
        if (n.builtin >= 0) { do_builtin (n); return; }
        Func *fn = n.callee;
        if (!fn) {
            Val p = get (f, n.fp);
            if (!concretize (p, 64)) return;
            auto it = g_byaddr.find (p.c);
            if (it == g_byaddr.end ()) { die_violation ("memory", "call through an invalid function pointer"); return; }
            fn = it->second;
            if (!fn) { engine_error ("indirect call of unmodelled function"); return; }
            f = wtop ();
        }
        vector<Val> a;
        a.reserve (n.o.size ());
        for (size_t i = 0; i < n.o.size (); i++) {
            Val v = get (f, n.o[i]);
            if (n.byval[i]) {
                Obj *o = new_obj (K_STACK, n.byval[i], 0x1000);
                o->site = n.file; o->line = n.line;
                uint64_t b = o->base;
                f->allocas.push_back (o->id);
                if (!do_memcpy (Val (b), v, Val (n.byval[i]), false)) return;
                v = Val (b);
            }
            a.push_back (v);
        }
        f->pc++;
        push_frame (S->cur, fn, a, n.dst);
        return;
    }
    case I_BAD: engine_error (n.bad); return;
    }
}

// ---------------------------------------------------------------- exploration
static bool is_root = true;
static int done_pipe[2];
static int worker_id = 0;

static string jstr (const string &s)
{
    string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf (b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static void write_result ()
{
    std::ofstream o (o_out + "/worker-" + std::to_string (worker_id) + ".json");
    o << "{\"paths\":" << st_paths << ",\"forks\":" << st_forks << ",\"steps\":" << st_steps << ",\"asserts\":" << st_asserts
      << ",\"assert_queries\":" << st_assert_q << ",\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat
      << ",\"cached\":" << g_ss.cached << ",\"unknown\":" << g_ss.unknown << ",\"solver_s\":" << g_ss.ns / 1e9 << ",\"max_query_s\":" << g_ss.max_ns / 1e9;
    struct rusage ru;
    getrusage (RUSAGE_SELF, &ru);
    o << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024 << ",\"vars\":" << g_nvars;
    o << ",\"covers\":[";
    bool first = true;
    for (auto &c : covers) { o << (first ? "" : ",") << jstr (c); first = false; }
    o << "],\"errors\":[";
    first = true;
    for (auto &c : errors) { o << (first ? "" : ",") << jstr (c); first = false; }
    o << "],\"violations\":[";
    first = true;
    for (auto &v : viols) {
        o << (first ? "" : ",") << "{\"kind\":" << jstr (v.kind) << ",\"msg\":" << jstr (v.msg) << ",\"loc\":" << jstr (v.loc) << ",\"trace\":" << jstr (v.trace) << ",\"inputs\":[";
        for (size_t i = 0; i < v.in.size (); i++) o << (i ? "," : "") << "[" << jstr (v.in[i].first) << "," << v.in[i].second << "]";
        o << "],\"notes\":[";
        for (size_t i = 0; i < v.notes.size (); i++) o << (i ? "," : "") << "[" << jstr (v.notes[i].first) << "," << v.notes[i].second << "]";
        o << "]}";
        first = false;
    }
    o << "],\"samples\":[";
    first = true;
    for (auto &v : samples) {
        o << (first ? "" : ",") << "[";
        for (size_t i = 0; i < v.in.size (); i++) o << (i ? "," : "") << "[" << jstr (v.in[i].first) << "," << v.in[i].second << "]";
        o << "]";
        first = false;
    }
    o << "],\"ended\":" << ended << "}\n";
}

static void reset_stats ()
{
    st_paths = st_forks = st_steps = st_asserts = st_assert_q = 0;
    g_ss = SolverStats ();
    covers.clear ();
    viols.clear ();
    errors.clear ();
    samples.clear ();
    ended = 0;
}

static void maybe_split ()
{
    if (work.size () < 1 || sh->stop) return;
    int a = sh->active.load ();
    if (a >= o_jobs) return;
    if (!sh->active.compare_exchange_strong (a, a + 1)) return;
    int id = ++sh->spawned;
    fflush (stdout);
    fflush (stderr);
    pid_t p = fork ();
    if (p < 0) { sh->active--; sh->spawned--; return; }
    size_t half = (work.size () + 1) / 2;
    if (p == 0) {
        is_root = false;
        worker_id = id;
        // child: takes the older half and drops the current state
        work.resize (half);
        reset_stats ();
        S = nullptr; // leaked on purpose
        dead = true;
    } else {
        work.erase (work.begin (), work.begin () + half);
        while (waitpid (-1, nullptr, WNOHANG) > 0) ;
    }
}

static void run_state ()
{
    unsigned k = 0;
    dead = false;
    while (!dead) {
        step ();
        S->steps++;
        st_steps++;
        if (dead) break;
        if (S->steps > o_maxsteps) { die_violation ("steps", "path does not end within the step bound"); break; }
        if ((++k & 1023) == 0) {
            if (sh->stop) { dead = true; break; }
            if (!work.empty () && sh->active.load (std::memory_order_relaxed) < o_jobs) {
                bool was = is_root;
                int w0 = worker_id;
                maybe_split ();
                if (worker_id != w0) return; // now a child: S dropped
                (void)was;
            }
            if ((k & 0xffff) == 0 && now () - t_start > o_maxtime) { engine_error ("time limit"); break; }
        }
    }
    st_paths++;
    sh->paths++;
}

int main (int argc, char **argv)
{
    string bc;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&] () { return string (argv[++i]); };
        if (a == "--entry") o_entry = nx ();
        else if (a == "--out") o_out = nx ();
        else if (a == "--repo") o_repo = nx ();
        else if (a == "--jobs") o_jobs = stoi (nx ());
        else if (a == "--max-steps") o_maxsteps = stoull (nx ());
        else if (a == "--max-time") o_maxtime = stoull (nx ());
        else if (a == "--narrow") o_narrow = true;
        else if (a == "--all") o_all = true;
        else if (a == "--known") o_known.insert (nx ());
        else if (a == "-v") o_verbose = true;
        else if (a == "--perkey") o_perkey = stoi (nx ());
        else bc = a;
    }
    if (o_repo.back () != '/') o_repo += '/';
    t_start = now ();
    llvm::LLVMContext C;
    llvm::SMDiagnostic err;
    auto mod = llvm::parseIRFile (bc, err, C);
    if (!mod) { err.print ("symx", llvm::errs ()); return 3; }
    M = mod.get ();
    DL = &M->getDataLayout ();
    solver_init (400000000);

    sh = (Shared *)mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared ();
    sh->active = 1;

    S = new State;
    S->objs.push_back (OP ()); // id 0 = NULL
    // address space: functions, then globals
    for (auto &F : *M) {
        if (F.isIntrinsic ()) continue;
        Obj *o = new_obj (K_FUNC, 16, 0x1000);
        o->site = "code";
        g_gaddr[&F] = o->base;
    }
    for (auto &G : M->globals ()) {
        uint64_t sz = G.isDeclaration () && !G.getValueType ()->isSized () ? 8 : DL->getTypeAllocSize (G.getValueType ()).getFixedValue ();
        Obj *o = new_obj (K_GLOBAL, sz, 0x1000);
        static std::set<string> names;
        o->site = names.insert (G.getName ().str ()).first->c_str ();
        o->zero = true;
        g_gaddr[&G] = o->base;
    }
    for (auto &F : *M) {
        if (F.isIntrinsic ()) continue;
        Func *f = get_func (&F);
        g_byaddr[g_gaddr[&F]] = f;
        if (f && f->F == &F) f->addr = g_gaddr[&F];
    }
    for (auto &G : M->globals ()) {
        if (G.isDeclaration ()) continue;
        Obj *o = getobj (g_gaddr[&G] >> 32);
        o->d.resize (o->size, 0);
        init_mem (o->d, 0, G.getInitializer ());
        o->ro = G.isConstant ();
        if (G.isThreadLocal ()) g_tlsinit[o->id] = o->d;
    }
    // decode everything now, so that instruction numbers agree in all workers
    for (size_t i = 0; i < g_flist.size (); i++) {
        Func *f = g_flist[i];
        f->g0 = g_ninst;
        if (!f->decoded) decode (f);
        f->gn = g_ninst - f->g0;
    }
    sh_cov = (uint8_t *)mmap (nullptr, g_ninst + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    auto *EF = M->getFunction (o_entry);
    if (!EF || EF->isDeclaration ()) { fprintf (stderr, "symx: no entry %s\n", o_entry.c_str ()); return 3; }
    S->stks.emplace_back ();
    S->thr.push_back ({ 0 });
    push_frame (0, get_func (EF), {}, -1);
    if (auto *GC = M->getNamedGlobal ("llvm.global_ctors")) {
        // constructors run before the entry: the one of the smallest priority on top
        vector<std::pair<uint64_t, const llvm::Function *>> ct;
        if (auto *A = llvm::dyn_cast<llvm::ConstantArray> (GC->getInitializer ()))
            for (auto &U : A->operands ()) {
                auto *E = llvm::cast<llvm::ConstantStruct> (U);
                auto *CF = llvm::dyn_cast<llvm::Function> (E->getOperand (1)->stripPointerCasts ());
                if (CF) ct.push_back ({ llvm::cast<llvm::ConstantInt> (E->getOperand (0))->getZExtValue (), CF });
            }
        std::stable_sort (ct.begin (), ct.end (), [] (auto &x, auto &y) { return x.first < y.first; });
        for (size_t i = ct.size (); i-- > 0;) push_frame (0, get_func (ct[i].second), {}, -1);
    }
    work.push_back (S);
    S = nullptr;
    if (pipe (done_pipe)) return 3;
    while (!work.empty () && !sh->stop) {
        if (work.size () > 1) maybe_split ();
        if (work.empty ()) break;
        S = work.back ();
        work.pop_back ();
        run_state ();
        if (S) delete S;
        S = nullptr;
        if (now () - t_start > o_maxtime) { errors.push_back ("time limit"); sh->stop = 2; }
    }
    write_result ();
    sh->finished++;
    sh->active--;
    if (!is_root) { fflush (stderr); _exit (0); }
    close (done_pipe[1]);
    char ch;
    while (read (done_pipe[0], &ch, 1) > 0) ;
    while (waitpid (-1, nullptr, 0) > 0) ;
    bool lost = sh->finished != sh->spawned + 1;
    // coverage
    std::ofstream o (o_out + "/coverage.json");
    o << "{\"workers\":" << sh->spawned + 1 << ",\"lost_workers\":" << (lost ? 1 : 0) << ",\"stop\":" << sh->stop.load () << ",\"wall_s\":" << now () - t_start << ",\"functions\":[";
    // per source function (inlined copies included): lines encoded and lines reached
    struct Cov { std::set<int> lines, hit; uint32_t insts = 0; };
    std::map<std::pair<string, string>, Cov> cov;
    for (auto *f : g_flist)
        for (auto &i : f->code) {
            if (!i.line || !*i.fn || string (i.file).compare (0, o_repo.size (), o_repo) != 0) continue;
            Cov &c = cov[{ basen (i.file), i.fn }];
            c.lines.insert (i.line);
            c.insts++;
            if (sh_cov[i.gid]) c.hit.insert (i.line);
        }
    bool first = true;
    for (auto &p : cov) {
        if (p.second.hit.empty ()) continue;
        o << (first ? "" : ",") << "{\"name\":" << jstr (p.first.second) << ",\"file\":" << jstr (p.first.first) << ",\"insts\":" << p.second.insts
          << ",\"lines\":" << p.second.lines.size () << ",\"lines_reached\":" << p.second.hit.size () << ",\"missed\":[";
        bool f2 = true;
        for (int l : p.second.lines) if (!p.second.hit.count (l)) { o << (f2 ? "" : ",") << l; f2 = false; }
        o << "]}";
        first = false;
    }
    o << "]}\n";
    return 0;
}
