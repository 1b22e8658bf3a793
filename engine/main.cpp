// symx: a bounded symbolic executor for LLVM IR (KLEE-style), deciding assertions with Z3.
// Inputs, schedules and fault choices are bit-vector variables; every branch that depends on one is decided by the
// solver, both feasible sides are followed, and every assertion is a solver query over all remaining values.
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace llvm;

static ExprMgr X;
static Solver S;
static Module* M;
static const DataLayout* DL;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct V { E e; uint64_t c; };
static inline V C(uint64_t c) { return V{nullptr, c}; }
static inline V mk(E e) { return e->op == O_CONST ? V{nullptr, e->c} : V{e, 0}; }
static inline E toE(const V& v, unsigned w) {
    if (!v.e) return X.cst(v.c, w);
    return v.e;
}

// ---------------------------------------------------------------- options / statistics
struct Opts {
    std::string bc, entry = "vp_main", out;
    int jobs = 1; double tmax = 600; uint64_t maxsteps = 200000000ull; int samples = 12; int frontier = 256; uint64_t maxpaths = 0;
    int conc_cap = 600; bool verbose = false; bool stop_first = false; uint64_t seed = 1;
    std::vector<uint64_t> fixed; bool replay = false; bool trace = false;
} opt;

struct Viol { std::string kind, msg, where; std::vector<std::pair<std::string, uint64_t>> in; std::vector<std::string> trace; };
struct Sample { std::vector<std::pair<std::string, uint64_t>> in; std::vector<std::pair<std::string, uint64_t>> outs; };
struct Stats {
    uint64_t paths = 0, killed = 0, forks = 0, steps = 0, asserts_sym = 0, asserts_conc = 0, errors = 0, incomplete = 0, concr = 0;
    std::map<std::string, uint64_t> reach, errs, branch_at; std::set<std::string> fns;
    std::map<std::string, std::pair<uint64_t, uint64_t>> asserts; // msg -> (evaluations, symbolic)
    std::vector<Viol> viols; std::vector<Sample> samples; uint64_t unknown = 0;
} st;

// ---------------------------------------------------------------- memory
struct SymB { E e; uint8_t i; };
enum { B_CONC = 0, B_SYM = 1, B_UNDEF = 2 };
enum { K_GLOBAL, K_CONST, K_HEAP, K_STACK, K_EXT };
struct Obj {
    int rc; uint32_t size; uint8_t kind; uint8_t* d; uint8_t* s; SymB* y;
    static Obj* make(uint32_t size, uint8_t kind, bool undef) {
        Obj* o = new Obj; o->rc = 1; o->size = size; o->kind = kind; o->y = nullptr;
        o->d = (uint8_t*)malloc(2 * (size_t)size + 32); o->s = o->d + size + 8;
        memset(o->d, 0, size + 8); memset(o->s, undef ? B_UNDEF : B_CONC, size); memset(o->s + size, 0, 8);
        return o;
    }
    Obj* clone() const {
        Obj* o = new Obj; *o = *this; o->rc = 1;
        o->d = (uint8_t*)malloc(2 * (size_t)size + 32); o->s = o->d + size + 8;
        memcpy(o->d, d, 2 * (size_t)size + 16);
        if (y) { o->y = (SymB*)malloc(sizeof(SymB) * (size + 1)); memcpy(o->y, y, sizeof(SymB) * (size + 1)); }
        return o;
    }
    void sym() { if (!y) y = (SymB*)calloc(size + 1, sizeof(SymB)); }
    void put() { if (--rc == 0) { free(d); free(y); delete this; } }
};
static const int CH = 64;
struct Chunk { int rc; Obj* o[CH]; };

static inline uint64_t mkaddr(uint32_t id, uint64_t off = 0) { return ((uint64_t)(id + 1) << 32) + off; }
static const uint32_t FN_BASE = 0x20000000;
static Obj FREED_MARK;

// ---------------------------------------------------------------- decoded code
struct Leaf { uint32_t off; uint16_t w; };
struct TI { std::vector<Leaf> leaves; uint64_t size; };
static std::unordered_map<Type*, TI*> tis;
static void flat(Type* t, uint32_t off, std::vector<Leaf>& out) {
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + L->getElementOffset(i), out);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (unsigned i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * es, out);
    } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeAllocSize(v->getElementType());
        for (unsigned i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), off + i * es, out);
    } else if (t->isPointerTy()) out.push_back({off, 64});
    else if (t->isIntegerTy()) out.push_back({off, (uint16_t)std::min(t->getIntegerBitWidth(), 1000u)});
    else if (t->isDoubleTy()) out.push_back({off, 64});
    else if (t->isFloatTy()) out.push_back({off, 32});
    else if (t->isX86_FP80Ty()) out.push_back({off, 80});
    else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) {}
    else out.push_back({off, 999});
}
static TI* ti(Type* t) {
    auto& r = tis[t];
    if (!r) { r = new TI; flat(t, 0, r->leaves); r->size = t->isSized() ? (uint64_t)DL->getTypeStoreSize(t) : 0; }
    return r;
}

struct State; struct Ins; struct FuncInfo;
enum Res { R_NEXT, R_STAY, R_FRAME, R_SWITCH };
typedef Res (*Handler)(State& s, const Ins& in, V* a, V* ret);
struct FuncInfo {
    Function* f; std::string name; Handler h = nullptr; bool decoded = false, noop = false; uint32_t idx;
    std::vector<Ins> code; uint32_t nslots = 0; std::vector<uint32_t> argslot; uint32_t nargleaves = 0;
    bool quiet = false;
};
struct Edge { uint32_t target; std::vector<std::pair<int, int>> copies; };   // dst slot, src operand
struct Ins {
    uint16_t op; uint16_t w = 0, w2 = 0; uint16_t pred = 0; int dst = -1; int a = -1, b = -1, c = -1; unsigned n = 1; uint64_t imm = 0;
    TI* t = nullptr; FuncInfo* fn = nullptr; std::vector<int> ops; std::vector<std::pair<int, uint64_t>> gep; std::vector<uint16_t> gepw;
    std::vector<Edge> edges; std::vector<uint64_t> cases; std::vector<std::pair<int, uint32_t>> byval; Instruction* I = nullptr;
    bool sc = false;
};
static std::vector<V> cpool;
static std::vector<FuncInfo*> funcs;
static std::unordered_map<const Function*, FuncInfo*> fmap;
static std::unordered_map<const GlobalVariable*, uint32_t> gids;
static std::unordered_map<uint32_t, const GlobalVariable*> gid_rev;
static std::vector<Obj*> gobjs;
static std::unordered_map<std::string, Handler> handlers;
static uint32_t next_gid = 0;

// ---------------------------------------------------------------- state
struct Frame {
    int rc; FuncInfo* f; uint32_t pc; std::vector<V> regs; std::vector<uint32_t> allocas; bool dtor_ret = false;
};
enum { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE, T_YIELD, T_RW };
struct Exc { uint64_t addr; uint64_t ti, dtor; int count; };
struct Thread {
    std::vector<Frame*> st; int status = T_RUN; uint64_t on = 0, on2 = 0; int phase = 0; bool skip = false; bool timed = false, timedout = false;
    std::vector<Exc> caught; Exc cur{0, 0, 0, 0}; int64_t arg = 0; std::string why;
};
struct Mtx { int owner; int count; int readers; };
struct InVar { std::string name; uint32_t var; uint8_t w; };
struct State {
    std::vector<Chunk*> ch; uint32_t next_id; std::vector<uint32_t> freeids;
    std::vector<Thread> th; int cur = 0;
    std::map<uint64_t, Mtx> mtx;
    std::vector<E> pc; std::vector<uint64_t> model; std::vector<uint8_t> widths;
    std::vector<InVar> in; std::vector<std::pair<std::string, V>> outs; std::vector<uint8_t> outw;
    std::vector<std::string> trace; std::vector<std::pair<std::string,int>> reached;
    uint64_t steps = 0; int depth = 0; uint32_t conc_here = 0;
    bool explore = false; int preempt = 0, spurious = 0; std::vector<std::pair<uint64_t, uint64_t>> watch;
    std::map<uint64_t, Exc> excs;
    State() {}
    State(const State& o) { *this = o; for (auto* c : ch) c->rc++; for (auto& t : th) for (auto* f : t.st) f->rc++; }
    State& operator=(const State&) = default;
    ~State() {
        for (auto* c : ch) if (--c->rc == 0) { for (auto* o : c->o) if (o && o != &FREED_MARK) o->put(); delete c; }
        for (auto& t : th) for (auto* f : t.st) if (--f->rc == 0) delete f;
    }
    Obj* get(uint32_t id) const { uint32_t k = id / CH; return k < ch.size() ? ch[k]->o[id % CH] : nullptr; }
    Chunk* wch(uint32_t k) {
        while (k >= ch.size()) { Chunk* c = new Chunk; c->rc = 1; memset(c->o, 0, sizeof c->o); ch.push_back(c); }
        if (ch[k]->rc > 1) {
            Chunk* c = new Chunk(*ch[k]); c->rc = 1; for (auto* o : c->o) if (o && o != &FREED_MARK) o->rc++;
            ch[k]->rc--; ch[k] = c;
        }
        return ch[k];
    }
    Obj* wr(uint32_t id) {
        Chunk* c = wch(id / CH); Obj*& o = c->o[id % CH];
        if (o->rc > 1) { Obj* n = o->clone(); o->rc--; o = n; }
        return o;
    }
    uint32_t alloc(uint64_t size, uint8_t kind, bool undef = true) {
        uint32_t id;
        if (kind == K_STACK && !freeids.empty()) { id = freeids.back(); freeids.pop_back(); } else id = next_id++;
        wch(id / CH)->o[id % CH] = Obj::make(size, kind, undef);
        return id;
    }
    void release(uint32_t id, bool recycle) {
        Chunk* c = wch(id / CH); Obj*& o = c->o[id % CH];
        if (o && o != &FREED_MARK) o->put();
        o = recycle ? nullptr : &FREED_MARK;
        if (recycle) freeids.push_back(id);
    }
    Thread& T() { return th[cur]; }
    Frame* top() {
        auto& v = th[cur].st; Frame*& f = v.back();
        if (f->rc > 1) { Frame* n = new Frame(*f); n->rc = 1; f->rc--; f = n; }
        return f;
    }
};
struct PathEnd { int kind; std::string msg; };   // 0 normal, 1 killed (assume), 2 violation, 3 error/unmodelled, 4 limit
static std::deque<State*> work;
static volatile bool g_stop = false;

[[noreturn]] static void endpath(int kind, const std::string& m) { throw PathEnd{kind, m}; }

static std::string where(State& s) {
    std::string r;
    if (s.th.empty()) return r;
    auto& t = s.T();
    int n = 0;
    for (int i = (int)t.st.size() - 1; i >= 0 && n < 8; i--, n++) {
        std::string d = demangle(t.st[i]->f->name);
        auto p = d.find('('); if (p != std::string::npos && p > 0) d = d.substr(0, p);
        r += (n ? " < " : "") + d.substr(0, 90);
    }
    return r;
}
static std::vector<std::pair<std::string, uint64_t>> inputs(State& s, const std::vector<uint64_t>& m) {
    std::vector<std::pair<std::string, uint64_t>> r;
    for (auto& i : s.in) r.push_back({i.name, (i.var < m.size() ? m[i.var] : 0) & maskw(i.w)});
    return r;
}
static double now();
static std::atomic<double>* g_found;      // when the first violation was found: the search goes on for a little while only
static void violation(State& s, const std::string& kind, const std::string& msg, const std::vector<uint64_t>& m) {
    int same = 0;
    for (auto& v : st.viols) if (v.msg == msg && v.kind == kind) same++;
    if (same >= 3) return;
    Viol v; v.kind = kind; v.msg = msg; v.where = where(s); v.in = inputs(s, m);
    for (auto& t : s.trace) v.trace.push_back(t);
    st.viols.push_back(v); if (g_found && *g_found == 0) *g_found = now();
    if (opt.verbose) fprintf(stderr, "VIOLATION[%s] %s\n   at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
    if (opt.stop_first) g_stop = true;
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { violation(s, kind, msg, s.model); endpath(2, msg); }
[[noreturn]] static void unmodelled(State& s, const std::string& msg) { endpath(3, msg + " at " + where(s)); }

// ---------------------------------------------------------------- solver glue
static uint64_t evalm(State& s, E e) { X.newstamp(); return X.eval(e, s.model); }
static bool known(State& s, E c, bool& val) {
    E n = X.nott(c);
    for (E p : s.pc) { if (p == c) { val = true; return true; } if (p == n) { val = false; return true; } }
    return false;
}
static int query(State& s, E extra, std::vector<uint64_t>* m) {
    if (extra && extra->op == O_CONST) { if (!extra->c) return 0; extra = nullptr; }
    int r = S.check(X, s.pc, extra, s.widths, s.model, m);
    if (r < 0) { st.unknown++; endpath(4, "solver gave up (resource limit)"); }
    return r;
}
static void addpc(State& s, E c) {
    if (c->op == O_CONST) return;
    if (c->op == O_AND) { addpc(s, c->a); addpc(s, c->b); return; }
    for (E p : s.pc) if (p == c) return;
    s.pc.push_back(c);
}
static void assume(State& s, E c) {
    if (c->op == O_CONST) { if (!c->c) endpath(1, "assume"); return; }
    bool v; if (known(s, c, v)) { if (!v) endpath(1, "assume"); return; }
    if (!evalm(s, c)) { std::vector<uint64_t> m; if (!query(s, c, &m)) endpath(1, "assume"); s.model = m; }
    addpc(s, c);
}
static uint32_t newvar(State& s, unsigned w) { uint32_t i = s.widths.size(); s.widths.push_back(w); s.model.push_back(0); return i; }
static E input(State& s, const std::string& name, unsigned w) {
    uint32_t i = newvar(s, w); s.in.push_back({name, i, (uint8_t)w});
    if (opt.replay) { size_t k = s.in.size() - 1; uint64_t v = k < opt.fixed.size() ? opt.fixed[k] : 0; s.model[i] = v & maskw(w); E x = X.var(i, w); addpc(s, X.bin(O_EQ, x, X.cst(v, w))); return X.cst(v, w); }
    return X.var(i, w);
}
static State* forkst(State& s) { State* n = new State(s); if (!n->T().st.empty()) n->top(); return n; }
static void pushwork(State* n) { st.forks++; n->depth++; work.push_back(n); }
// force v to a concrete value; siblings re-execute the current instruction under v != value
static uint64_t conc(State& s, V& v, unsigned w) {
    if (!v.e) return v.c;
    E e = v.e;
    if (e->w != w) w = e->w;
    uint64_t val = evalm(s, e);
    E eq = X.bin(O_EQ, e, X.cst(val, w));
    bool kv; if (known(s, eq, kv) && kv) { v = C(val); return val; }
    std::vector<uint64_t> m; E ne = X.nott(eq);
    if (query(s, ne, &m)) {
        if (++s.conc_here > (uint32_t)opt.conc_cap) endpath(4, "too many values to enumerate at " + where(s));
        State* n = forkst(s); n->model = m; addpc(*n, ne); st.concr++; pushwork(n);
    }
    s.conc_here = 0;
    addpc(s, eq);
    v = C(val);
    return val;
}
static bool decide(State& s, E c, State** other) {   // returns side taken by s; *other = sibling on the opposite side (or null)
    *other = nullptr;
    bool v; if (known(s, c, v)) return v;
    bool side = evalm(s, c);
    E oc = side ? X.nott(c) : c; std::vector<uint64_t> m;
    if (query(s, oc, &m)) { State* n = forkst(s); n->model = m; addpc(*n, oc); *other = n; }
    addpc(s, side ? c : X.nott(c));
    return side;
}
static void check_assert(State& s, const V& c, const std::string& msg) {
    auto& a = st.asserts[msg]; a.first++;
    if (!c.e) { st.asserts_conc++; if (!(c.c & 1)) fail(s, "assert", msg); return; }
    a.second++; st.asserts_sym++;
    E e = c.e; if (e->w != 1) e = X.nott(X.bin(O_EQ, e, X.cst(0, e->w)));
    bool kv; if (known(s, e, kv)) { if (!kv) fail(s, "assert", msg); return; }
    std::vector<uint64_t> m; E n = X.nott(e);
    if (!evalm(s, e)) { violation(s, "assert", msg, s.model); if (!query(s, e, &m)) endpath(2, msg); s.model = m; addpc(s, e); return; }
    if (query(s, n, &m)) violation(s, "assert", msg, m);
    addpc(s, e);
}

// ---------------------------------------------------------------- loads & stores
static Obj* chk(State& s, uint64_t addr, uint64_t n, bool wr, uint32_t& id, uint32_t& off) {
    uint64_t hi = addr >> 32; off = (uint32_t)addr;
    if (hi == 0) fail(s, "memory", "null or wild pointer dereference");
    id = hi - 1;
    Obj* o = s.get(id);
    if (!o) fail(s, "memory", id >= FN_BASE ? "data access through a function pointer" : "access to an invalid or expired object");
    if (o == &FREED_MARK) fail(s, "memory", "use after free");
    if ((uint64_t)off + n > o->size) fail(s, "memory", "out-of-bounds access");
    if (o->kind == K_EXT) unmodelled(s, std::string("access to external global ") + (gid_rev.count(id) ? gid_rev[id]->getName().str() : "?"));
    if (wr) { if (o->kind == K_CONST) fail(s, "memory", "write to constant object"); o = s.wr(id); }
    return o;
}
static E byteE(State& s, Obj* o, uint32_t off) {
    if (o->s[off] == B_CONC) return X.cst(o->d[off], 8);
    SymB& b = o->y[off];
    return X.extract(b.e, b.i * 8, 8);
}
static void define_undef(State& s, uint32_t id, uint32_t off, uint32_t n) {
    Obj* o = s.wr(id); o->sym();
    // one fresh variable for the whole undefined run
    for (uint32_t i = 0; i < n;) {
        if (o->s[off + i] != B_UNDEF) { i++; continue; }
        uint32_t k = i; while (k < n && k - i < 8 && o->s[off + k] == B_UNDEF) k++;
        E v = X.var(newvar(s, (k - i) * 8), (k - i) * 8);
        for (uint32_t j = i; j < k; j++) { o->s[off + j] = B_SYM; o->y[off + j] = {v, (uint8_t)(j - i)}; }
        i = k;
    }
}
static V load(State& s, uint64_t addr, unsigned w) {
    if (w > 64) unmodelled(s, "load wider than 64 bits");
    uint32_t n = (w + 7) / 8, id, off;
    Obj* o = chk(s, addr, n, false, id, off);
    uint64_t sb = 0; memcpy(&sb, o->s + off, n);
    if (sb == 0) { uint64_t v = 0; memcpy(&v, o->d + off, n); return C(v & maskw(w)); }
    for (uint32_t i = 0; i < n; i++) if (o->s[off + i] == B_UNDEF) { define_undef(s, id, off, n); o = s.get(id); break; }
    if (o->s[off] == B_SYM && o->y[off].i == 0 && o->y[off].e->w >= n * 8) {
        E e = o->y[off].e; bool same = true;
        for (uint32_t i = 1; i < n && same; i++) same = o->s[off + i] == B_SYM && o->y[off + i].e == e && o->y[off + i].i == i;
        if (same) return mk(X.extract(e, 0, w));
    }
    E r = byteE(s, o, off);
    for (uint32_t i = 1; i < n; i++) r = X.concat(byteE(s, o, off + i), r);
    return mk(X.extract(r, 0, w));
}
static void store(State& s, uint64_t addr, const V& v, unsigned w) {
    if (w > 64) unmodelled(s, "store wider than 64 bits");
    uint32_t n = (w + 7) / 8, id, off;
    Obj* o = chk(s, addr, n, true, id, off);
    if (!v.e) { uint64_t x = v.c & maskw(w); memcpy(o->d + off, &x, n); memset(o->s + off, 0, n); return; }
    E e = X.zext(v.e, n * 8); o->sym();
    if (e->op == O_CONST) { memcpy(o->d + off, &e->c, n); memset(o->s + off, 0, n); return; }
    for (uint32_t i = 0; i < n; i++) { o->s[off + i] = B_SYM; o->y[off + i] = {e, (uint8_t)i}; }
}
static void copymem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    uint32_t id, off, id2, off2;
    Obj* a = chk(s, src, n, false, id, off); a->rc++;
    Obj* b;
    try { b = chk(s, dst, n, true, id2, off2); } catch (...) { a->put(); throw; }
    memmove(b->d + off2, a->d + off, n);
    if (a->y) {
        b->sym(); memmove(b->y + off2, a->y + off, n * sizeof(SymB));
    }
    memmove(b->s + off2, a->s + off, n);
    a->put();
}
static std::string cstr(State& s, uint64_t addr) {
    std::string r;
    for (int i = 0; i < 400; i++) { V b = load(s, addr + i, 8); if (b.e || !b.c) break; r += (char)b.c; }
    return r;
}

// ---------------------------------------------------------------- constants & decoding
static uint64_t gaddr(const GlobalVariable* g);
static FuncInfo* fi(const Function* f) {
    auto it = fmap.find(f); if (it != fmap.end()) return it->second;
    FuncInfo* x = new FuncInfo; x->f = const_cast<Function*>(f); x->name = f->getName().str(); x->idx = funcs.size(); funcs.push_back(x); fmap[f] = x;
    auto h = handlers.find(x->name); if (h != handlers.end()) x->h = h->second;
    return x;
}
static uint64_t faddr(const Function* f) {
    if (f->isDeclaration() && f->hasExternalWeakLinkage() && !handlers.count(f->getName().str())) return 0;
    return mkaddr(FN_BASE + fi(f)->idx);
}
static V binop(State* s, unsigned op, unsigned w, const V& a, const V& b);
static void evalc(Constant* c, std::vector<V>& out) {
    Type* t = c->getType();
    if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) out.push_back(C(0)); else out.push_back(C(i->getZExtValue())); return; }
    if (auto* f = dyn_cast<ConstantFP>(c)) { out.push_back(C(f->getType()->isX86_FP80Ty() ? 0 : f->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(C(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0; i < ti(t)->leaves.size(); i++) out.push_back(C(0)); return; }
    if (auto* f = dyn_cast<Function>(c)) { out.push_back(C(faddr(f))); return; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(C(gaddr(g))); return; }
    if (auto* g = dyn_cast<GlobalAlias>(c)) { evalc(g->getAliasee(), out); return; }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < a->getNumOperands(); i++) evalc(a->getOperand(i), out); return; }
    if (auto* a = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < a->getNumElements(); i++) evalc(a->getElementAsConstant(i), out); return; }
    if (auto* x = dyn_cast<ConstantExpr>(c)) {
        std::vector<V> o;
        switch (x->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0); evalc(x->getOperand(0), o);
            if (!cast<GEPOperator>(x)->accumulateConstantOffset(*DL, off)) { errs() << "const gep: " << *x << "\n"; abort(); }
            out.push_back(C(o[0].c + off.getSExtValue())); return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            evalc(x->getOperand(0), o);
            out.push_back(C(o[0].c & (x->getType()->isIntegerTy() ? maskw(x->getType()->getIntegerBitWidth()) : ~0ull))); return;
        case Instruction::Trunc: evalc(x->getOperand(0), o); out.push_back(C(o[0].c & maskw(t->getIntegerBitWidth()))); return;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
            std::vector<V> p; evalc(x->getOperand(0), o); evalc(x->getOperand(1), p);
            out.push_back(binop(nullptr, x->getOpcode(), t->getIntegerBitWidth(), o[0], p[0])); return;
        }
        default: break;
        }
    }
    errs() << "unsupported constant: " << *c << "\n"; out.push_back(C(0));
}
static void initc(Obj* o, uint64_t off, Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c)) return;
    if (isa<UndefValue>(c)) return;
    if (auto* a = dyn_cast<ConstantDataSequential>(c)) {
        if (a->getElementType()->isIntegerTy(8)) { memcpy(o->d + off, a->getRawDataValues().data(), a->getNumElements()); return; }
    }
    if (auto* a = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(a->getType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initc(o, off + L->getElementOffset(i), a->getOperand(i)); return; }
    if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initc(o, off + i * es, a->getOperand(i)); return; }
    std::vector<V> v; evalc(c, v); auto& L = ti(t)->leaves;
    for (size_t i = 0; i < v.size() && i < L.size(); i++) { if (L[i].w > 64) continue; memcpy(o->d + off + L[i].off, &v[i].c, (L[i].w + 7) / 8); }
}
static uint64_t gaddr(const GlobalVariable* g) {
    auto it = gids.find(g); if (it == gids.end()) abort();
    if (!g->hasInitializer() && g->hasExternalWeakLinkage()) return 0;
    return mkaddr(it->second);
}

struct Decoder {
    FuncInfo* F; std::unordered_map<Value*, int> slot; std::unordered_map<BasicBlock*, uint32_t> bstart;
    std::unordered_map<Constant*, int> ck;
    int opnd(Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = ck.find(c); if (it != ck.end()) return it->second;
            std::vector<V> o; evalc(c, o); int r = -2 - (int)cpool.size(); for (auto& x : o) cpool.push_back(x);
            // element i of a constant aggregate lives at cpool[k+i]; encoded operand is r-i
            ck[c] = r; return r;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return -1;
        auto it = slot.find(v); if (it == slot.end()) { errs() << "no slot for " << *v << "\n"; abort(); }
        return it->second;
    }
    static int sub(int o, int i) { return o >= 0 ? o + i : o - i; }
    static unsigned leafidx(Type* t, ArrayRef<unsigned> idx) {
        unsigned r = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += ti(s->getElementType(k))->leaves.size(); t = s->getElementType(i); }
            else { auto* a = cast<ArrayType>(t); r += i * ti(a->getElementType())->leaves.size(); t = a->getElementType(); }
        }
        return r;
    }
    Edge edge(BasicBlock* from, BasicBlock* to) {
        Edge e; e.target = bstart[to];
        for (auto& p : to->phis()) {
            int d = slot[&p], s = opnd(p.getIncomingValueForBlock(from)); unsigned n = ti(p.getType())->leaves.size();
            for (unsigned i = 0; i < n; i++) e.copies.push_back({d + (int)i, sub(s, i)});
        }
        return e;
    }
    void run() {
        Function& f = *F->f; uint32_t ns = 0;
        for (auto& a : f.args()) { slot[&a] = ns; F->argslot.push_back(ns); ns += ti(a.getType())->leaves.size(); }
        F->nargleaves = ns;
        uint32_t pc = 0;
        for (auto& b : f) {
            bstart[&b] = pc;
            for (auto& i : b) {
                unsigned n = ti(i.getType())->leaves.size();
                if (n) { slot[&i] = ns; ns += n; }
                if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
                pc++;
            }
        }
        F->nslots = ns;
        for (auto& b : f) for (auto& i : b) {
            if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
            F->code.push_back(dec(i, &b));
        }
        F->decoded = true;
    }
    Ins dec(Instruction& i, BasicBlock* b) {
        Ins r; r.op = i.getOpcode(); r.I = &i; Type* t = i.getType();
        auto sit = slot.find(&i); if (sit != slot.end()) r.dst = sit->second;
        r.n = ti(t)->leaves.size(); if (r.n) r.w = ti(t)->leaves[0].w; r.t = ti(t);
        switch (i.getOpcode()) {
        case Instruction::Br: {
            auto& br = cast<BranchInst>(i);
            if (br.isConditional()) { r.a = opnd(br.getCondition()); r.edges.push_back(edge(b, br.getSuccessor(0))); r.edges.push_back(edge(b, br.getSuccessor(1))); }
            else r.edges.push_back(edge(b, br.getSuccessor(0)));
            break;
        }
        case Instruction::Switch: {
            auto& sw = cast<SwitchInst>(i); r.a = opnd(sw.getCondition()); r.w = sw.getCondition()->getType()->getIntegerBitWidth();
            r.edges.push_back(edge(b, sw.getDefaultDest()));
            for (auto& c : sw.cases()) { r.cases.push_back(c.getCaseValue()->getZExtValue()); r.edges.push_back(edge(b, c.getCaseSuccessor())); }
            break;
        }
        case Instruction::Ret: {
            auto& rt = cast<ReturnInst>(i); r.n = 0;
            if (rt.getReturnValue()) { r.a = opnd(rt.getReturnValue()); r.n = ti(rt.getReturnValue()->getType())->leaves.size(); }
            break;
        }
        case Instruction::Call: case Instruction::Invoke: {
            auto& c = cast<CallBase>(i); Value* cv = c.getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
            if (auto* f = dyn_cast<Function>(cv)) r.fn = fi(f); else if (isa<InlineAsm>(cv)) r.fn = nullptr, r.a = -1; else r.a = opnd(cv);
            unsigned k = 0;
            for (auto& a : c.args()) {
                if (isa<MetadataAsValue>(a.get())) { k++; continue; }
                int o = opnd(a.get()); unsigned n = ti(a->getType())->leaves.size();
                if (c.isByValArgument(k)) r.byval.push_back({(int)r.ops.size(), (uint32_t)DL->getTypeAllocSize(c.getParamByValType(k))});
                for (unsigned j = 0; j < n; j++) { r.ops.push_back(sub(o, j)); r.gepw.push_back(ti(a->getType())->leaves[j].w); }
                k++;
            }
            if (auto* iv = dyn_cast<InvokeInst>(&i)) { r.edges.push_back(edge(b, iv->getNormalDest())); r.edges.push_back(edge(b, iv->getUnwindDest())); }
            break;
        }
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(i); r.imm = DL->getTypeAllocSize(a.getAllocatedType()); r.a = a.isArrayAllocation() ? opnd(a.getArraySize()) : -1;
            if (a.isArrayAllocation()) r.w2 = a.getArraySize()->getType()->getIntegerBitWidth();
            break;
        }
        case Instruction::Load: r.a = opnd(i.getOperand(0)); r.sc = cast<LoadInst>(i).getOrdering() == AtomicOrdering::SequentiallyConsistent; break;
        case Instruction::Store: r.a = opnd(i.getOperand(1)); r.b = opnd(i.getOperand(0)); r.t = ti(i.getOperand(0)->getType()); r.sc = cast<StoreInst>(i).getOrdering() == AtomicOrdering::SequentiallyConsistent; break;
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(i); r.a = opnd(g.getPointerOperand());
            if (t->isVectorTy()) { r.op = 250; break; }
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value* ix = it.getOperand();
                if (auto* stt = it.getStructTypeOrNull()) { r.imm += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(ix)) { r.imm += es * ci->getSExtValue(); continue; }
                r.gep.push_back({opnd(ix), es}); r.gepw.push_back(ix->getType()->getIntegerBitWidth());
            }
            break;
        }
        case Instruction::ICmp: case Instruction::FCmp: {
            auto& c = cast<CmpInst>(i); r.a = opnd(i.getOperand(0)); r.b = opnd(i.getOperand(1)); r.pred = c.getPredicate();
            r.w2 = ti(i.getOperand(0)->getType())->leaves[0].w; break;
        }
        case Instruction::Select: r.a = opnd(i.getOperand(0)); r.b = opnd(i.getOperand(1)); r.c = opnd(i.getOperand(2)); r.imm = i.getOperand(0)->getType()->isVectorTy(); break;
        case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(i); int o = opnd(e.getAggregateOperand()); r.a = sub(o, leafidx(e.getAggregateOperand()->getType(), e.getIndices())); break; }
        case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(i); r.a = opnd(e.getAggregateOperand()); r.b = opnd(e.getInsertedValueOperand()); r.imm = leafidx(t, e.getIndices()); r.w2 = ti(e.getInsertedValueOperand()->getType())->leaves.size(); break; }
        case Instruction::ExtractElement: r.a = opnd(i.getOperand(0)); r.b = opnd(i.getOperand(1)); r.imm = ti(i.getOperand(0)->getType())->leaves.size(); break;
        case Instruction::InsertElement: r.a = opnd(i.getOperand(0)); r.b = opnd(i.getOperand(1)); r.c = opnd(i.getOperand(2)); break;
        case Instruction::ShuffleVector: {
            auto& sv = cast<ShuffleVectorInst>(i); r.a = opnd(i.getOperand(0)); r.b = opnd(i.getOperand(1)); r.imm = ti(i.getOperand(0)->getType())->leaves.size();
            for (int m : sv.getShuffleMask()) r.ops.push_back(m); break;
        }
        case Instruction::AtomicRMW: { auto& a = cast<AtomicRMWInst>(i); r.a = opnd(a.getPointerOperand()); r.b = opnd(a.getValOperand()); r.pred = a.getOperation(); r.sc = a.getOrdering() == AtomicOrdering::SequentiallyConsistent; break; }
        case Instruction::AtomicCmpXchg: { auto& a = cast<AtomicCmpXchgInst>(i); r.a = opnd(a.getPointerOperand()); r.b = opnd(a.getCompareOperand()); r.c = opnd(a.getNewValOperand()); r.w = ti(a.getCompareOperand()->getType())->leaves[0].w; r.sc = a.getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent; break; }
        case Instruction::Resume: r.a = opnd(i.getOperand(0)); break;
        case Instruction::Fence: case Instruction::Unreachable: case Instruction::LandingPad: break;
        default:
            for (auto& o : i.operands()) { int k = opnd(o.get()); if (r.a == -1) r.a = k; else if (r.b == -1) r.b = k; }
            if (i.getNumOperands() >= 1 && !ti(i.getOperand(0)->getType())->leaves.empty()) r.w2 = ti(i.getOperand(0)->getType())->leaves[0].w;
        }
        return r;
    }
};
static void decode(FuncInfo* f) { Decoder d; d.F = f; d.run(); }

// ---------------------------------------------------------------- arithmetic
static V binop(State* s, unsigned op, unsigned w, const V& a, const V& b) {
    Op o;
    switch (op) {
    case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
    case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SRem: o = O_SREM; break;
    case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break;
    case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
    default: {
        double x, y; float fx, fy;
        if (a.e || b.e) unmodelled(*s, "symbolic floating point");
        if (w == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); } else { memcpy(&fx, &a.c, 4); memcpy(&fy, &b.c, 4); x = fx; y = fy; }
        double r;
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; default: unmodelled(*s, "binary op"); }
        uint64_t c = 0; if (w == 64) memcpy(&c, &r, 8); else { fx = (float)r; memcpy(&c, &fx, 4); }
        return C(c);
    }
    }
    if (w > 64) unmodelled(*s, "integer wider than 64 bits");
    if (s && (o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM)) {
        if (!b.e) { if (!b.c) fail(*s, "arith", "division by zero"); }
        else { E z = X.bin(O_EQ, b.e, X.cst(0, w)); std::vector<uint64_t> m; if (z->op != O_CONST && query(*s, z, &m)) violation(*s, "arith", "division by zero", m); assume(*s, X.nott(z)); }
    }
    if (!a.e && !b.e) return C(ExprMgr::fold(o, w, a.c, b.c));
    return mk(X.bin(o, toE(a, w), toE(b, w)));
}
static V icmp(unsigned p, unsigned w, const V& a, const V& b) {
    Op o; bool neg = false, sw = false;
    switch (p) {
    case CmpInst::ICMP_EQ: o = O_EQ; break; case CmpInst::ICMP_NE: o = O_EQ; neg = true; break;
    case CmpInst::ICMP_ULT: o = O_ULT; break; case CmpInst::ICMP_ULE: o = O_ULE; break; case CmpInst::ICMP_UGT: o = O_ULT; sw = true; break; case CmpInst::ICMP_UGE: o = O_ULE; sw = true; break;
    case CmpInst::ICMP_SLT: o = O_SLT; break; case CmpInst::ICMP_SLE: o = O_SLE; break; case CmpInst::ICMP_SGT: o = O_SLT; sw = true; break; default: o = O_SLE; sw = true; break;
    }
    const V &x = sw ? b : a, &y = sw ? a : b;
    if (!x.e && !y.e) return C(ExprMgr::fold(o, w, x.c, y.c) ^ (neg ? 1 : 0));
    E e = X.bin(o, toE(x, w), toE(y, w));
    return mk(neg ? X.nott(e) : e);
}
static V ite(const V& c, const V& a, const V& b, unsigned w) {
    if (!c.e) return c.c & 1 ? a : b;
    return mk(X.ite(c.e, toE(a, w), toE(b, w)));
}

// ---------------------------------------------------------------- frames, exceptions, threads
static void enter(State& s, FuncInfo* f, const V* args, unsigned n) {
    if (!f->decoded) decode(f);
    auto& t = s.T();
    if (t.st.size() > 800) fail(s, "memory", "stack overflow (recursion deeper than 800 frames)");
    Frame* fr = new Frame; fr->rc = 1; fr->f = f; fr->pc = 0; fr->regs.resize(f->nslots, V{nullptr, 0});
    for (unsigned i = 0; i < n && i < f->nargleaves; i++) fr->regs[i] = args[i];
    t.st.push_back(fr);
    st.fns.insert(f->name);
}
static void dropframe(State& s) {
    Frame* f = s.top();
    for (uint32_t id : f->allocas) s.release(id, true);
    s.T().st.pop_back();
    if (--f->rc == 0) delete f;
}
static void take(State& s, Frame* f, const Edge& e) {
    size_t n = e.copies.size();
    if (n == 1) { int o = e.copies[0].second; f->regs[e.copies[0].first] = o >= 0 ? f->regs[o] : cpool[-2 - o]; }
    else if (n) {
        static std::vector<V> tmp; tmp.clear();
        for (auto& c : e.copies) tmp.push_back(c.second >= 0 ? f->regs[c.second] : cpool[-2 - c.second]);
        for (size_t i = 0; i < n; i++) f->regs[e.copies[i].first] = tmp[i];
    }
    f->pc = e.target;
}
static std::map<uint64_t, int> tid_ids;
static int tidfor(uint64_t ti) { auto& r = tid_ids[ti]; if (!r) r = tid_ids.size(); return r; }
static const GlobalVariable* gvat(uint64_t addr) { uint32_t id = (addr >> 32) - 1; auto it = gid_rev.find(id); return it == gid_rev.end() ? nullptr : it->second; }
static bool derives(const GlobalVariable* d, const GlobalVariable* b) {
    if (d == b || d->getName() == b->getName()) return true;
    if (!d->hasInitializer()) return false;
    auto* cs = dyn_cast<ConstantStruct>(d->getInitializer()); if (!cs) return false;
    Value* vt = cs->getOperand(0)->stripInBoundsConstantOffsets(); std::string vn = vt->getName().str();
    if (vn.find("__si_class_type_info") != std::string::npos) { if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) return derives(g, b); }
    if (vn.find("__vmi_class_type_info") != std::string::npos) {
        for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (derives(g, b)) return true;
    }
    return false;
}
static bool catches(uint64_t thrown, uint64_t handler) {
    if (!handler) return true;
    auto *a = gvat(thrown), *b = gvat(handler);
    if (!a || !b) return false;
    return derives(a, b);
}
static std::string tiname(uint64_t t) { auto* g = gvat(t); if (!g) return "?"; std::string n = g->getName().str(); if (n.rfind("_ZTI", 0) == 0) return demangle("_ZN" + n.substr(4) + "E") == "_ZN" + n.substr(4) + "E" ? demangle(n) : demangle(n); return n; }
static void unwind(State& s) {
    auto& t = s.T(); Exc ex = t.cur;
    while (!t.st.empty()) {
        Frame* f = s.top(); Ins& in = f->f->code[f->pc];
        if (in.op == Instruction::Invoke) {
            auto* iv = cast<InvokeInst>(in.I); LandingPadInst* lp = iv->getLandingPadInst();
            int sel = -1;
            for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
                if (lp->isCatch(i)) {
                    std::vector<V> o; evalc(lp->getClause(i), o);
                    if (catches(ex.ti, o[0].c)) sel = tidfor(o[0].c);
                } else {
                    std::vector<V> o; evalc(lp->getClause(i), o); bool allowed = false;
                    for (auto& x : o) if (catches(ex.ti, x.c)) allowed = true;
                    if (!allowed) fail(s, "terminate", "exception escapes an exception specification: " + tiname(ex.ti));
                }
            }
            if (sel < 0 && lp->isCleanup()) sel = 0;
            if (sel >= 0) {
                take(s, f, in.edges[1]);
                Ins& l = f->f->code[f->pc];
                f->regs[l.dst] = C(ex.addr); f->regs[l.dst + 1] = C(sel); f->pc++;
                return;
            }
        }
        dropframe(s);
    }
    fail(s, "terminate", "uncaught exception " + tiname(ex.ti) + " in thread " + std::to_string(s.cur));
}

// ---- scheduling
static bool mutex_free(State& s, uint64_t m, int tid) { auto it = s.mtx.find(m); return it == s.mtx.end() || it->second.count == 0 || it->second.owner == tid; }
static bool enabled(State& s, int i) {
    Thread& t = s.th[i];
    switch (t.status) {
    case T_RUN: return true;
    case T_YIELD: return false;
    case T_MUTEX: { auto it = s.mtx.find(t.on); return it == s.mtx.end() || (it->second.count == 0 && it->second.readers == 0); }
    case T_RW: { auto it = s.mtx.find(t.on); return it == s.mtx.end() || it->second.count == 0; }
    case T_JOIN: return s.th[t.on].status == T_DONE;
    default: return false;
    }
}
static V choose(State& s, const char* name, unsigned n, const std::function<void(State&, unsigned)>& cont) {
    // fresh variable with value < n; every alternative is a sibling state that continues with cont(state, value)
    if (opt.replay) { size_t k = s.in.size(); uint64_t v = k < opt.fixed.size() ? opt.fixed[k] : 0; input(s, name, 8); if (v >= n) v = 0; cont(s, v); return C(v); }
    E e = input(s, name, 8);
    for (unsigned v = 1; v < n; v++) {
        State* o = forkst(s); o->model[e->c] = v; addpc(*o, X.bin(O_EQ, e, X.cst(v, 8))); cont(*o, v); pushwork(o);
    }
    addpc(s, X.bin(O_EQ, e, X.cst(0, 8))); cont(s, 0);
    return C(0);
}
static void switch_to(State& s, int t) { s.cur = t; Thread& x = s.th[t]; if (x.status == T_MUTEX || x.status == T_RW || x.status == T_JOIN) x.status = T_RUN; }
// current thread cannot continue: pick another one
static void reschedule(State& s) {
    std::vector<int> en; int n = s.th.size();
    for (int i = 0; i < n; i++) if (enabled(s, i)) en.push_back(i);
    std::vector<int> sp;
    if (s.explore && s.spurious > 0) for (int i = 0; i < n; i++) if (s.th[i].status == T_COND && !s.th[i].timed) sp.push_back(i);
    if (s.explore) for (int i = 0; i < n; i++) if (s.th[i].status == T_COND && s.th[i].timed) sp.push_back(i);
    if (en.empty() && sp.empty()) {
        for (int i = 0; i < n; i++) if (s.th[i].status == T_YIELD) { s.th[i].status = T_RUN; s.cur = i; return; }
        for (int i = 0; i < n; i++) if (s.th[i].status == T_COND && s.th[i].timed) { s.th[i].timedout = true; s.th[i].status = T_RUN; s.cur = i; return; }
        std::string d;
        for (int i = 0; i < n; i++) {
            auto& t = s.th[i]; if (t.status == T_DONE) continue;
            const char* w = t.status == T_MUTEX || t.status == T_RW ? "waits for a mutex" : t.status == T_COND ? "waits for a notification" : t.status == T_JOIN ? "joins a thread" : "?";
            d += " thread" + std::to_string(i) + " " + w + ";";
        }
        s.cur = 0;
        fail(s, "deadlock", "no thread can make progress:" + d);
    }
    auto go = [](State& q, int who, bool spurious) {
        if (spurious) { if (q.th[who].timed) q.th[who].timedout = true; else q.spurious--; q.th[who].status = T_RUN; q.cur = who; }
        else switch_to(q, who);
    };
    if (!s.explore || en.size() + sp.size() == 1) {
        if (en.empty() && !sp.empty() && s.explore) {
            // only a spurious wake-up could continue: a schedule without it is a deadlock unless something is yielding
            bool yl = false; for (auto& t : s.th) if (t.status == T_YIELD) yl = true;
            if (!yl && !s.th[sp[0]].timed) { State q(s); q.cur = 0; std::string d; violation(q, "deadlock", "no thread can make progress without a spurious wake-up", q.model); }
            if (yl) { for (int i = 0; i < n; i++) if (s.th[i].status == T_YIELD) { s.th[i].status = T_RUN; s.cur = i; return; } }
            go(s, sp[0], true); return;
        }
        go(s, en[0], false); return;
    }
    if (en.empty()) {
        bool untimed = true; for (int i : sp) if (s.th[i].timed) untimed = false;
        for (int i = 0; i < n; i++) if (s.th[i].status == T_YIELD) { s.th[i].status = T_RUN; s.cur = i; return; }
        if (untimed) { State q(s); q.cur = 0; violation(q, "deadlock", "no thread can make progress without a spurious wake-up", q.model); }
    }
    choose(s, "sched", en.size() + sp.size(), [en, sp, go](State& q, unsigned v) { if (v < en.size()) go(q, en[v], false); else go(q, sp[v - en.size()], true); });
}
// scheduling point before a visible operation of the current thread; returns true if s switched away
static bool schedpoint(State& s) {
    if (!s.explore) return false;
    Thread& t = s.T();
    if (t.skip) { t.skip = false; return false; }
    std::vector<int> en; int n = s.th.size();
    if (s.preempt > 0) for (int i = 0; i < n; i++) if (i != s.cur && enabled(s, i)) en.push_back(i);
    std::vector<int> sp;
    if (s.preempt > 0) for (int i = 0; i < n; i++) if (i != s.cur && s.th[i].status == T_COND && (s.th[i].timed || s.spurious > 0)) sp.push_back(i);
    if (en.empty() && sp.empty()) return false;
    int me = s.cur;
    choose(s, "sched", 1 + en.size() + sp.size(), [&](State& q, unsigned v) {
        q.th[me].skip = true;
        if (v == 0) return;
        q.preempt--;
        if (v - 1 < en.size()) switch_to(q, en[v - 1]);
        else { int w = sp[v - 1 - en.size()]; if (q.th[w].timed) q.th[w].timedout = true; else q.spurious--; q.th[w].status = T_RUN; q.cur = w; }
    });
    return true;   // always re-dispatch; skip flag makes the operation go ahead when scheduled
}
static bool watched(State& s, uint64_t a, unsigned n) { if (!s.explore || s.watch.empty() || s.T().st.back()->f->f->hasFnAttribute("no-jump-tables")) return false;   /* the runtime library is not instrumented in the native build either */
    for (auto& w : s.watch) if (a < w.second && a + n > w.first) return true; return false; }

#include "handlers.hpp"

// ---------------------------------------------------------------- interpreter loop
static void do_return(State& s, V* rv, unsigned n) {
    bool dt = s.T().st.back()->dtor_ret;
    dropframe(s);
    auto& t = s.T();
    if (t.st.empty()) {
        t.status = T_DONE;
        if (s.cur == 0) endpath(0, "done");
        reschedule(s);
        return;
    }
    if (dt) return;   // engine-inserted call: re-dispatch the caller's instruction pointer as it stands
    Frame* f = s.top(); Ins& in = f->f->code[f->pc];
    for (unsigned i = 0; i < n && i < in.n; i++) f->regs[in.dst + i] = rv[i];
    if (in.op == Instruction::Invoke) take(s, f, in.edges[0]); else f->pc++;
}

static uint64_t step_budget_left = 0;
static void run(State& s) {
    static std::vector<V> av; V ret[16];
    for (;;) {
        if (s.steps > opt.maxsteps) endpath(4, "step limit at " + where(s));
        Frame* f = s.top(); V* R = f->regs.data(); Ins* code = f->f->code.data();
        int cur0 = s.cur;
        for (;;) {
            const Ins& in = code[f->pc];
            s.steps++; st.steps++;
            if (opt.trace) { std::string t; raw_string_ostream os(t); os << *in.I; fprintf(stderr, "[%d] %s: %s\n", s.cur, f->f->name.substr(0, 40).c_str(), os.str().c_str()); }
            #define G(o) ((o) >= 0 ? R[o] : cpool[-2 - (o)])
            switch (in.op) {
            case Instruction::Br: {
                if (in.a == -1) { take(s, f, in.edges[0]); break; }
                V c = G(in.a);
                if (!c.e) { take(s, f, in.edges[c.c & 1 ? 0 : 1]); break; }
                State* o; bool side = decide(s, c.e, &o);
                if (o) { st.branch_at[f->f->name]++; take(*o, o->top(), in.edges[side ? 1 : 0]); pushwork(o); }
                take(s, f, in.edges[side ? 0 : 1]);
                break;
            }
            case Instruction::Switch: {
                V c = G(in.a);
                if (!c.e) { unsigned k = 0; for (unsigned i = 0; i < in.cases.size(); i++) if (in.cases[i] == c.c) k = i + 1; take(s, f, in.edges[k]); break; }
                // group by target edge
                E dflt = X.cst(1, 1); std::vector<E> conds(in.edges.size(), nullptr);
                for (unsigned i = 0; i < in.cases.size(); i++) { conds[i + 1] = X.bin(O_EQ, c.e, X.cst(in.cases[i], in.w)); dflt = X.bin(O_AND, dflt, X.nott(conds[i + 1])); }
                conds[0] = dflt;
                int taken = -1;
                for (unsigned i = 0; i < conds.size(); i++) if (evalm(s, conds[i])) taken = i;
                for (unsigned i = 0; i < conds.size(); i++) {
                    if ((int)i == taken) continue;
                    std::vector<uint64_t> m; if (conds[i]->op == O_CONST && !conds[i]->c) continue;
                    if (query(s, conds[i], &m)) { State* o = forkst(s); o->model = m; addpc(*o, conds[i]); st.branch_at[f->f->name]++; take(*o, o->top(), in.edges[i]); pushwork(o); }
                }
                addpc(s, conds[taken]); take(s, f, in.edges[taken]);
                break;
            }
            case Instruction::Ret: {
                for (unsigned i = 0; i < in.n; i++) ret[i] = G(in.a >= 0 ? in.a + (int)i : in.a - (int)i);
                do_return(s, ret, in.n);
                goto refresh;
            }
            case Instruction::Call: case Instruction::Invoke: {
                FuncInfo* fn = in.fn;
                if (!fn) {
                    if (in.a == -1) { // inline asm: only compiler barriers are tolerated
                        if (in.op == Instruction::Invoke) take(s, f, in.edges[0]); else f->pc++;
                        break;
                    }
                    V cv = G(in.a); uint64_t a = conc(s, cv, 64); uint32_t id = (a >> 32) - 1;
                    if (id < FN_BASE || id - FN_BASE >= funcs.size() || (uint32_t)a) fail(s, "memory", "call through an invalid function pointer");
                    fn = funcs[id - FN_BASE];
                }
                av.clear(); for (int o : in.ops) av.push_back(G(o));
                if (fn->h) {
                    V* rp = ret; ret[0] = C(0); ret[1] = C(0);
                    Res r = fn->h(s, in, av.data(), rp);
                    if (r == R_NEXT) {
                        f = s.top(); R = f->regs.data();
                        for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = ret[i];
                        if (in.op == Instruction::Invoke) take(s, f, in.edges[0]); else f->pc++;
                        goto refresh;
                    }
                    goto refresh;
                }
                if (fn->f->isDeclaration()) unmodelled(s, "call to unmodelled function " + demangle(fn->name));
                for (auto& bv : in.byval) {
                    V p = av[bv.first]; uint64_t a = conc(s, p, 64); uint32_t id = s.alloc(bv.second, K_STACK); s.top()->allocas.push_back(id); copymem(s, mkaddr(id), a, bv.second); av[bv.first] = C(mkaddr(id));
                }
                enter(s, fn, av.data(), av.size());
                goto refresh;
            }
            case Instruction::Alloca: {
                uint64_t sz = in.imm; if (in.a != -1) { V n = G(in.a); sz *= conc(s, n, in.w2); }
                uint32_t id = s.alloc(sz, K_STACK); f->allocas.push_back(id); R[in.dst] = C(mkaddr(id)); f->pc++; break;
            }
            case Instruction::Load: {
                V p = G(in.a); uint64_t a = conc(s, p, 64);
                if ((in.sc || watched(s, a, in.t->size)) && schedpoint(s)) goto refresh;
                if (in.n == 1) R[in.dst] = load(s, a, in.w);
                else for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = load(s, a + in.t->leaves[i].off, in.t->leaves[i].w);
                f->pc++; break;
            }
            case Instruction::Store: {
                V p = G(in.a); uint64_t a = conc(s, p, 64);
                if ((in.sc || watched(s, a, in.t->size)) && schedpoint(s)) goto refresh;
                for (unsigned i = 0; i < in.t->leaves.size(); i++) { V v = G(in.b >= 0 ? in.b + (int)i : in.b - (int)i); store(s, a + in.t->leaves[i].off, v, in.t->leaves[i].w); }
                f->pc++; break;
            }
            case Instruction::GetElementPtr: {
                V p = G(in.a); uint64_t cc = in.imm;
                if (!p.e) { cc += p.c; p = C(0); }
                for (unsigned i = 0; i < in.gep.size(); i++) {
                    V x = G(in.gep[i].first);
                    if (!x.e) cc += (uint64_t)sx(x.c, in.gepw[i]) * in.gep[i].second;
                    else { E e = X.bin(O_MUL, X.sext(x.e, 64), X.cst(in.gep[i].second, 64)); p = p.e ? mk(X.bin(O_ADD, p.e, e)) : mk(e); }
                }
                R[in.dst] = p.e ? mk(X.bin(O_ADD, p.e, X.cst(cc, 64))) : C(cc);
                f->pc++; break;
            }
            case Instruction::ICmp:
                for (unsigned i = 0; i < in.n; i++) { int k = i; R[in.dst + k] = icmp(in.pred, in.w2, G(in.a >= 0 ? in.a + k : in.a - k), G(in.b >= 0 ? in.b + k : in.b - k)); }
                f->pc++; break;
            case Instruction::FCmp: {
                V a = G(in.a), b = G(in.b); if (a.e || b.e) unmodelled(s, "symbolic floating point");
                double x, y; if (in.w2 == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); } else { float p, q; memcpy(&p, &a.c, 4); memcpy(&q, &b.c, 4); x = p; y = q; }
                bool un = std::isnan(x) || std::isnan(y), r; unsigned p = in.pred;
                bool eq = x == y, lt = x < y, gt = x > y;
                r = ((p & 1) && eq && !un) || ((p & 2) && gt && !un) || ((p & 4) && lt && !un) || ((p & 8) && un);
                R[in.dst] = C(r); f->pc++; break;
            }
            case Instruction::Select: {
                for (unsigned i = 0; i < in.n; i++) { int k = i; V c = G(in.imm ? (in.a >= 0 ? in.a + k : in.a - k) : in.a); R[in.dst + k] = ite(c, G(in.b >= 0 ? in.b + k : in.b - k), G(in.c >= 0 ? in.c + k : in.c - k), in.t->leaves[k].w); }
                f->pc++; break;
            }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
                if (in.w > 64 || in.w2 > 64) unmodelled(s, "integer wider than 64 bits");
                for (unsigned k = 0; k < in.n; k++) {
                    V a = G(in.a >= 0 ? in.a + (int)k : in.a - (int)k);
                    if (in.op == Instruction::BitCast && in.w != in.w2) unmodelled(s, "vector bitcast");
                    if (in.w == in.w2) { R[in.dst + k] = a; continue; }
                    if (!a.e) { R[in.dst + k] = C((in.op == Instruction::SExt ? (uint64_t)sx(a.c, in.w2) : a.c) & maskw(in.w)); continue; }
                    if (in.w < in.w2) R[in.dst + k] = mk(X.extract(a.e, 0, in.w));
                    else R[in.dst + k] = mk(in.op == Instruction::SExt ? X.sext(a.e, in.w) : X.zext(a.e, in.w));
                }
                f->pc++; break;
            }
            case Instruction::ExtractValue: for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = G(in.a >= 0 ? in.a + (int)i : in.a - (int)i); f->pc++; break;
            case Instruction::InsertValue:
                for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = G(in.a >= 0 ? in.a + (int)i : in.a - (int)i);
                for (unsigned i = 0; i < in.w2; i++) R[in.dst + in.imm + i] = G(in.b >= 0 ? in.b + (int)i : in.b - (int)i);
                f->pc++; break;
            case Instruction::ExtractElement: { V ix = G(in.b); uint64_t k = conc(s, ix, 64); if (k >= in.imm) unmodelled(s, "vector index"); R[in.dst] = G(in.a >= 0 ? in.a + (int)k : in.a - (int)k); f->pc++; break; }
            case Instruction::InsertElement: {
                V ix = G(in.c); uint64_t k = conc(s, ix, 64); V nv = G(in.b);
                for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = G(in.a >= 0 ? in.a + (int)i : in.a - (int)i);
                R[in.dst + k] = nv; f->pc++; break;
            }
            case Instruction::ShuffleVector: {
                std::vector<V> o;
                for (int m : in.ops) { if (m < 0) o.push_back(C(0)); else if ((uint64_t)m < in.imm) o.push_back(G(in.a >= 0 ? in.a + m : in.a - m)); else { int k = m - in.imm; o.push_back(G(in.b >= 0 ? in.b + k : in.b - k)); } }
                for (unsigned i = 0; i < o.size(); i++) R[in.dst + i] = o[i];
                f->pc++; break;
            }
            case Instruction::AtomicRMW: {
                V p = G(in.a); uint64_t a = conc(s, p, 64);
                if ((in.sc || watched(s, a, 8)) && schedpoint(s)) goto refresh;
                V old = load(s, a, in.w), v = G(in.b), nv;
                switch (in.pred) {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: nv = binop(&s, Instruction::Add, in.w, old, v); break;
                case AtomicRMWInst::Sub: nv = binop(&s, Instruction::Sub, in.w, old, v); break;
                case AtomicRMWInst::And: nv = binop(&s, Instruction::And, in.w, old, v); break;
                case AtomicRMWInst::Or: nv = binop(&s, Instruction::Or, in.w, old, v); break;
                case AtomicRMWInst::Xor: nv = binop(&s, Instruction::Xor, in.w, old, v); break;
                default: unmodelled(s, "atomicrmw");
                }
                store(s, a, nv, in.w); R[in.dst] = old; f->pc++; break;
            }
            case Instruction::AtomicCmpXchg: {
                V p = G(in.a); uint64_t a = conc(s, p, 64);
                if ((in.sc || watched(s, a, 8)) && schedpoint(s)) goto refresh;
                V old = load(s, a, in.w), ex = G(in.b), nv = G(in.c);
                V eq = icmp(CmpInst::ICMP_EQ, in.w, old, ex);
                store(s, a, ite(eq, nv, old, in.w), in.w);
                R[in.dst] = old; R[in.dst + 1] = eq; f->pc++; break;
            }
            case Instruction::Fence: f->pc++; break;
            case Instruction::Resume: {
                auto& t = s.T(); V a = G(in.a); t.cur = s.excs[a.c]; dropframe(s); if (t.st.empty()) fail(s, "terminate", "uncaught exception " + tiname(t.cur.ti)); unwind(s); goto refresh;
            }
            case Instruction::Unreachable: fail(s, "unreachable", "unreachable code executed"); 
            case Instruction::SIToFP: case Instruction::UIToFP: {
                V a = G(in.a); if (a.e) unmodelled(s, "symbolic floating point");
                double d = in.op == Instruction::SIToFP ? (double)sx(a.c, in.w2) : (double)a.c; uint64_t c = 0;
                if (in.w == 64) memcpy(&c, &d, 8); else { float q = in.op == Instruction::SIToFP ? (float)sx(a.c, in.w2) : (float)a.c; memcpy(&c, &q, 4); }
                R[in.dst] = C(c); f->pc++; break;
            }
            case Instruction::FPToSI: case Instruction::FPToUI: {
                V a = G(in.a); if (a.e) unmodelled(s, "symbolic floating point");
                double d; if (in.w2 == 64) memcpy(&d, &a.c, 8); else { float q; memcpy(&q, &a.c, 4); d = q; }
                R[in.dst] = C((in.op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(in.w)); f->pc++; break;
            }
            case Instruction::FPExt: { V a = G(in.a); if (in.w > 64) unmodelled(s, "long double"); float q; memcpy(&q, &a.c, 4); double d = q; uint64_t c; memcpy(&c, &d, 8); R[in.dst] = C(c); f->pc++; break; }
            case Instruction::FPTrunc: { V a = G(in.a); if (in.w2 > 64) unmodelled(s, "long double"); double d; memcpy(&d, &a.c, 8); float q = d; uint64_t c = 0; memcpy(&c, &q, 4); R[in.dst] = C(c); f->pc++; break; }
            case Instruction::FNeg: { V a = G(in.a); R[in.dst] = C(a.c ^ (1ull << (in.w - 1))); f->pc++; break; }
            default:
                if (Instruction::isBinaryOp(in.op)) {
                    for (unsigned k = 0; k < in.n; k++) R[in.dst + k] = binop(&s, in.op, in.w, G(in.a >= 0 ? in.a + (int)k : in.a - (int)k), G(in.b >= 0 ? in.b + (int)k : in.b - (int)k));
                    f->pc++; break;
                }
                unmodelled(s, std::string("instruction ") + in.I->getOpcodeName());
            }
            if (g_stop) endpath(5, "stopped");
            if (f->rc > 1) break;     // forked: re-fetch a private frame
            continue;
        refresh:
            break;
        }
        (void)cur0;
        if (g_stop) endpath(5, "stopped");
    }
}

// ---------------------------------------------------------------- output
static std::string jesc(const std::string& s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
static void jpairs(std::ostream& o, const std::vector<std::pair<std::string, uint64_t>>& v) {
    o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << "[\"" << jesc(v[i].first) << "\"," << v[i].second << "]"; o << "]";
}
static void emit(const std::string& path, double t0) {
    std::ofstream o(path);
    o << "{\"entry\":\"" << jesc(opt.entry) << "\",\"paths\":" << st.paths << ",\"killed\":" << st.killed << ",\"forks\":" << st.forks << ",\"steps\":" << st.steps
      << ",\"asserts_sym\":" << st.asserts_sym << ",\"asserts_conc\":" << st.asserts_conc << ",\"concretisations\":" << st.concr << ",\"incomplete\":" << st.incomplete << ",\"errors\":" << st.errors
      << ",\"queries\":" << S.queries << ",\"sat\":" << S.sat << ",\"unsat\":" << S.unsat << ",\"unknown\":" << S.unknown << ",\"guessed\":" << S.guessed << ",\"core_hits\":" << S.cache_unsat << ",\"z3_calls\":" << S.z3calls << ",\"z3_s\":" << S.z3secs << ",\"solver_s\":" << S.secs << ",\"wall_s\":" << now() - t0;
    o << ",\"reach\":{"; bool fst = true; for (auto& r : st.reach) { o << (fst ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; fst = false; } o << "}";
    o << ",\"errs\":{"; fst = true; for (auto& r : st.errs) { o << (fst ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; fst = false; } o << "}";
    o << ",\"branch_at\":{"; fst = true; for (auto& r : st.branch_at) { o << (fst ? "" : ",") << "\"" << jesc(demangle(r.first)) << "\":" << r.second; fst = false; } o << "}";
    o << ",\"asserts\":{"; fst = true; for (auto& r : st.asserts) { o << (fst ? "" : ",") << "\"" << jesc(r.first) << "\":[" << r.second.first << "," << r.second.second << "]"; fst = false; } o << "}";
    o << ",\"fns\":["; fst = true; for (auto& f : st.fns) { o << (fst ? "" : ",") << "\"" << jesc(demangle(f)) << "\""; fst = false; } o << "]";
    o << ",\"viols\":["; fst = true;
    for (auto& v : st.viols) {
        o << (fst ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"in\":"; jpairs(o, v.in);
        o << ",\"trace\":["; for (size_t i = 0; i < v.trace.size(); i++) o << (i ? "," : "") << "\"" << jesc(v.trace[i]) << "\""; o << "]}"; fst = false;
    }
    o << "],\"samples\":["; fst = true;
    for (auto& v : st.samples) { o << (fst ? "" : ",") << "{\"in\":"; jpairs(o, v.in); o << ",\"outs\":"; jpairs(o, v.outs); o << "}"; fst = false; }
    o << "]}\n";
}

static double deadline;
static bool late() { double t = now(); return t > deadline || (g_found && *g_found > 0 && t > *g_found + 15); }
static uint64_t smp_seen = 0, rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void finish(State& s, const PathEnd& e) {
    switch (e.kind) {
    case 0: {
        st.paths++;
        smp_seen++;
        int slot = -1;
        if ((int)st.samples.size() < opt.samples) { st.samples.emplace_back(); slot = st.samples.size() - 1; }
        else { uint64_t k = rnd() % smp_seen; if (k < (uint64_t)opt.samples) slot = k; }
        if (slot >= 0) {
            Sample sm; sm.in = inputs(s, s.model); X.newstamp();
            for (size_t i = 0; i < s.outs.size(); i++) sm.outs.push_back({s.outs[i].first, s.outs[i].second.e ? X.eval(s.outs[i].second.e, s.model) : s.outs[i].second.c});
            st.samples[slot] = sm;
        }
        break;
    }
    case 1: st.killed++; break;
    case 2: st.paths++; break;
    case 3: st.errors++; st.errs[e.msg]++; if (opt.verbose) fprintf(stderr, "ERROR %s\n", e.msg.c_str()); break;
    case 4: st.incomplete++; st.errs[e.msg]++; if (opt.verbose) fprintf(stderr, "LIMIT %s\n", e.msg.c_str()); break;
    default: break;
    }
    if (e.kind == 0 || e.kind == 2) for (auto& r : s.reached) st.reach[r.first]++;
}
static void run_one(State* s) {
    try { run(*s); } catch (PathEnd& e) { finish(*s, e); }
    delete s;
}

// Prepare bitcode for the native replay build: announce every memory access (scheduling points), optionally ask for ASan.
static int instrument(const char* in, const char* out, bool asan) {
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(in, err, ctx);
    if (!mod) { err.print("symx", errs()); return 3; }
    auto* i64 = Type::getInt64Ty(ctx); auto* i32 = Type::getInt32Ty(ctx); auto* pt = PointerType::get(ctx, 0); auto* vt = Type::getVoidTy(ctx); const DataLayout& dl = mod->getDataLayout();
    FunctionCallee f1 = mod->getOrInsertFunction("vp_mem", vt, pt, i64, i32), f2 = mod->getOrInsertFunction("vp_mem2", vt, pt, pt, i64);
    auto C64 = [&](uint64_t v) { return ConstantInt::get(i64, v); }; auto C32 = [&](uint64_t v) { return ConstantInt::get(i32, v); };
    for (auto& f : *mod) {
        if (f.isDeclaration()) continue;
        if (asan) f.addFnAttr(Attribute::SanitizeAddress);
        std::vector<Instruction*> is; for (auto& b : f) for (auto& i : b) is.push_back(&i);
        for (auto* i : is) {
            if (auto* l = dyn_cast<LoadInst>(i)) CallInst::Create(f1, {l->getPointerOperand(), C64(dl.getTypeStoreSize(l->getType())), C32(l->getOrdering() == AtomicOrdering::SequentiallyConsistent)}, "", i);
            else if (auto* l = dyn_cast<StoreInst>(i)) CallInst::Create(f1, {l->getPointerOperand(), C64(dl.getTypeStoreSize(l->getValueOperand()->getType())), C32(l->getOrdering() == AtomicOrdering::SequentiallyConsistent)}, "", i);
            else if (auto* l = dyn_cast<AtomicRMWInst>(i)) CallInst::Create(f1, {l->getPointerOperand(), C64(8), C32(l->getOrdering() == AtomicOrdering::SequentiallyConsistent)}, "", i);
            else if (auto* l = dyn_cast<AtomicCmpXchgInst>(i)) CallInst::Create(f1, {l->getPointerOperand(), C64(8), C32(l->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent)}, "", i);
            else if (auto* m = dyn_cast<MemTransferInst>(i)) { if (m->getLength()->getType() == i64) CallInst::Create(f2, {m->getDest(), m->getSource(), m->getLength()}, "", i); }
            else if (auto* m = dyn_cast<MemSetInst>(i)) { if (m->getLength()->getType() == i64) CallInst::Create(f2, {m->getDest(), m->getDest(), m->getLength()}, "", i); }
        }
    }
    std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*mod, os); return 0;
}
int main(int argc, char** argv) {
    if (argc >= 4 && std::string(argv[1]) == "--instrument") return instrument(argv[2], argv[3], argc > 4);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "-j") opt.jobs = atoi(argv[++i]);
        else if (a == "--time") opt.tmax = atof(argv[++i]); else if (a == "-v") opt.verbose = true; else if (a == "--stop-first") opt.stop_first = true;
        else if (a == "--samples") opt.samples = atoi(argv[++i]); else if (a == "--seed") opt.seed = atoll(argv[++i]); else if (a == "--frontier") opt.frontier = atoi(argv[++i]);
        else if (a == "--steps") opt.maxsteps = atoll(argv[++i]); else if (a == "--conc-cap") opt.conc_cap = atoi(argv[++i]); else if (a == "--trace") opt.trace = true;
        else if (a == "--fixed") { opt.replay = true; std::string l = nx(); std::stringstream ss(l); std::string t; while (std::getline(ss, t, ',')) opt.fixed.push_back(strtoull(t.c_str(), 0, 0)); }
        else opt.bc = a;
    }
    g_found = (std::atomic<double>*)mmap(nullptr, sizeof(double), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *g_found = 0;
    double t0 = now(); deadline = t0 + opt.tmax; rng ^= opt.seed * 0x9e3779b97f4a7c15ull; if (!rng) rng = 1;
    struct rlimit rl = {RLIM_INFINITY, RLIM_INFINITY}; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? 512u << 20 : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl);
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(opt.bc, err, ctx);
    if (!mod) { err.print("symx", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout(); S.init(); register_handlers();
    FREED_MARK.rc = 1 << 30;
    for (auto& g : M->globals()) { if (g.getName().startswith("llvm.")) continue; gids[&g] = next_gid; gid_rev[next_gid] = &g; next_gid++; }
    for (auto& f : *M) fi(&f);
    State* s = new State; s->next_id = next_gid;
    for (auto& p : gids) {
        const GlobalVariable* g = p.first; Obj* o; uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 8;
        if (g->hasInitializer()) { o = Obj::make(sz, g->isConstant() ? K_CONST : K_GLOBAL, false); initc(o, 0, const_cast<Constant*>(g->getInitializer())); }
        else o = Obj::make(sz ? sz : 64, K_EXT, false);
        s->wch(p.second / CH)->o[p.second % CH] = o;
    }
    Function* ef = M->getFunction(opt.entry);
    if (!ef) { fprintf(stderr, "symx: no entry %s\n", opt.entry.c_str()); return 3; }
    // run global constructors then the entry: a synthetic list executed frame by frame
    std::vector<std::pair<uint64_t, Function*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op.get()); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    s->th.emplace_back();
    bool dead = false;
    for (auto& c : ctors) {
        enter(*s, fi(c.second), nullptr, 0);
        try { run(*s); } catch (PathEnd& e) { if (e.kind != 0) { finish(*s, e); dead = true; break; } }
        s->th[0].status = T_RUN;
    }
    if (!work.empty()) { fprintf(stderr, "symx: fork in a constructor\n"); return 3; }
    if (!dead) { enter(*s, fi(ef), nullptr, 0); work.push_back(s); }
    // phase 1: widen to a frontier (breadth first)
    double tw = now();
    while (!work.empty() && !g_stop) {
        if (opt.jobs > 1 && (int)work.size() >= opt.frontier) break;
        if (opt.jobs > 1 && work.size() >= 24 && now() - tw > 6) break;
        if (late()) break;
        State* n;
        if (opt.jobs > 1) { n = work.front(); work.pop_front(); } else { n = work.back(); work.pop_back(); }
        run_one(n);
    }
    if (work.empty() || g_stop || late() || opt.jobs <= 1) {
        if (!work.empty() && !g_stop) { st.incomplete += work.size(); st.errs["time limit"] += work.size(); }
        emit(opt.out.empty() ? "/dev/stdout" : opt.out, t0);
        fflush(nullptr); _exit(0);
    }
    // phase 2: workers share the frontier through an atomic index
    struct Shared { std::atomic<uint32_t> next; std::atomic<int> stop; };
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = 0; sh->stop = 0;
    std::vector<State*> items(work.begin(), work.end()); work.clear();
    for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[rnd() % i]);
    emit(opt.out + ".p", t0);
    std::vector<pid_t> pids;
    for (int w = 0; w < opt.jobs; w++) {
        pid_t p = fork();
        if (p) { pids.push_back(p); continue; }
        st = Stats(); S.queries = S.sat = S.unsat = S.unknown = 0; S.secs = 0; smp_seen = 0; rng += w * 7919;
        bool timeout = false;
        for (;;) {
            uint32_t k = sh->next++;
            if (k >= items.size()) break;
            work.push_back(items[k]);
            while (!work.empty()) {
                if (sh->stop || g_stop) { work.clear(); break; }
                if (late()) { timeout = true; break; }
                State* n = work.back(); work.pop_back();
                run_one(n);
                if (g_stop) sh->stop = 1;
            }
            if (timeout) { st.incomplete += work.size() + 1; st.errs["time limit"]++; break; }
            if (sh->stop) break;
        }
        emit(opt.out + ".w" + std::to_string(w), now());
        fflush(nullptr); _exit(0);
    }
    int bad = 0;
    for (pid_t p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad++; }
    std::ofstream o(opt.out); o << "{\"workers\":" << opt.jobs << ",\"crashed\":" << bad << ",\"frontier\":" << items.size() << ",\"wall_s\":" << now() - t0 << "}\n";
    o.close();
    _exit(0);
}
