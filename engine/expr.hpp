// Hash-consed bit-vector expression DAG with constant folding, a concrete evaluator and a Z3 translation.
#pragma once
#include <z3.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum Op : uint8_t {
    O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
    O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT
};

struct Expr {
    Op op; uint8_t w; uint8_t lo; uint32_t id;
    uint64_t c;                 // constant value, or variable index
    const Expr *a, *b, *d;
    mutable Z3_ast zbv = nullptr, zbool = nullptr;
    mutable uint64_t stamp = 0, ev = 0;
    mutable std::vector<uint32_t>* vars = nullptr;   // variables it depends on (computed on demand)
    mutable uint64_t mark = 0; mutable Z3_ast ind = nullptr; mutable uint32_t gen = 0;
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprKeyHash {
    size_t operator()(const Expr* e) const {
        size_t h = e->op * 1000003u + e->w * 7919u + e->lo * 104729u;
        auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
        mix(e->c); mix(e->a ? e->a->id : 0); mix(e->b ? e->b->id : 0); mix(e->d ? e->d->id : 0);
        return h;
    }
};
struct ExprKeyEq {
    bool operator()(const Expr* x, const Expr* y) const {
        return x->op == y->op && x->w == y->w && x->lo == y->lo && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d;
    }
};

struct ExprMgr {
    std::unordered_set<Expr*, ExprKeyHash, ExprKeyEq> tab;
    uint32_t next_id = 1;
    E intern(Op op, unsigned w, uint64_t c, E a, E b = nullptr, E d = nullptr, unsigned lo = 0) {
        Expr k; k.op = op; k.w = w; k.lo = lo; k.c = c; k.a = a; k.b = b; k.d = d; k.id = 0;
        auto it = tab.find(&k);
        if (it != tab.end()) return *it;
        Expr* e = new Expr(k); e->id = next_id++;
        tab.insert(e);
        return e;
    }
    E cst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w), nullptr); }
    E var(uint32_t idx, unsigned w) { return intern(O_VAR, w, idx, nullptr); }
    static bool isc(E e) { return e->op == O_CONST; }
    static bool isc(E e, uint64_t v) { return e->op == O_CONST && e->c == (v & maskw(e->w)); }

    static uint64_t fold(Op op, unsigned w, uint64_t x, uint64_t y) {
        uint64_t m = maskw(w);
        switch (op) {
        case O_ADD: return (x + y) & m;
        case O_SUB: return (x - y) & m;
        case O_MUL: return (x * y) & m;
        case O_UDIV: return y ? x / y : m;
        case O_UREM: return y ? x % y : x;
        case O_SDIV: { int64_t p = sx(x, w), q = sx(y, w); if (!q) return (p < 0 ? 1 : m); if (q == -1) return (0 - x) & m; return (uint64_t)(p / q) & m; }
        case O_SREM: { int64_t p = sx(x, w), q = sx(y, w); if (!q) return x; if (q == -1) return 0; return (uint64_t)(p % q) & m; }
        case O_AND: return x & y;
        case O_OR: return x | y;
        case O_XOR: return x ^ y;
        case O_SHL: return y >= w ? 0 : (x << y) & m;
        case O_LSHR: return y >= w ? 0 : (x >> y);
        case O_ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
        case O_EQ: return x == y;
        case O_ULT: return x < y;
        case O_ULE: return x <= y;
        case O_SLT: return sx(x, w) < sx(y, w);
        case O_SLE: return sx(x, w) <= sx(y, w);
        default: return 0;
        }
    }
    static bool iscmp(Op op) { return op >= O_EQ && op <= O_SLE; }
    E nott(E a) { return bin(O_XOR, a, cst(1, 1)); }
    static bool isnot(E a) { return a->op == O_XOR && a->w == 1 && isc(a->b, 1); }

    E bin(Op op, E a, E b) {
        unsigned w = a->w, rw = iscmp(op) ? 1 : w;
        if (isc(a) && isc(b)) return cst(fold(op, w, a->c, b->c), rw);
        bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
        if (comm && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
        uint64_t m = maskw(w);
        switch (op) {
        case O_ADD:
            if (isc(b, 0)) return a;
            if (isc(b) && a->op == O_ADD && isc(a->b)) return bin(O_ADD, a->a, cst(a->b->c + b->c, w));
            break;
        case O_SUB:
            if (a == b) return cst(0, w);
            if (isc(b)) return bin(O_ADD, a, cst(0 - b->c, w));
            if (a->op == O_ADD && isc(a->b) && a->a == b) return a->b;
            if (a->op == O_ADD && b->op == O_ADD && a->a == b->a && isc(a->b) && isc(b->b)) return cst(a->b->c - b->b->c, w);
            break;
        case O_MUL:
            if (isc(b, 0)) return b;
            if (isc(b, 1)) return a;
            if (isc(b) && (b->c & (b->c - 1)) == 0) return bin(O_SHL, a, cst(__builtin_ctzll(b->c), w));
            break;
        case O_UDIV:
            if (isc(b, 1)) return a;
            if (isc(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(O_LSHR, a, cst(__builtin_ctzll(b->c), w));
            break;
        case O_UREM:
            if (isc(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(O_AND, a, cst(b->c - 1, w));
            break;
        case O_AND:
            if (isc(b, 0)) return b;
            if (isc(b, m)) return a;
            if (a == b) return a;
            if (w == 1 && (bin2not(a, b))) return cst(0, 1);
            if (isc(b) && a->op == O_AND && isc(a->b)) return bin(O_AND, a->a, cst(a->b->c & b->c, w));
            if (isc(b) && a->op == O_ZEXT && (b->c & ~maskw(a->a->w)) == 0) return zext(bin(O_AND, a->a, cst(b->c, a->a->w)), w);
            if (isc(b) && a->op == O_ZEXT) return bin(O_AND, a, cst(b->c & maskw(a->a->w), w));
            if (isc(b) && a->op == O_CONCAT && b->c == maskw(a->b->w)) return zext(a->b, w);
            // low mask -> zext(extract)
            if (isc(b) && b->c && (b->c & (b->c + 1)) == 0 && a->op != O_ZEXT) { unsigned k = 64 - __builtin_clzll(b->c); if (k < w) return zext(extract(a, 0, k), w); }
            break;
        case O_OR:
            if (isc(b, 0)) return a;
            if (isc(b, m)) return b;
            if (a == b) return a;
            if (w == 1 && (bin2not(a, b))) return cst(1, 1);
            break;
        case O_XOR:
            if (isc(b, 0)) return a;
            if (a == b) return cst(0, w);
            if (isc(b) && a->op == O_XOR && isc(a->b)) return bin(O_XOR, a->a, cst(a->b->c ^ b->c, w));
            if (w == 1 && isc(b, 1)) {
                if (a->op == O_ULT) return bin(O_ULE, a->b, a->a);
                if (a->op == O_ULE) return bin(O_ULT, a->b, a->a);
                if (a->op == O_SLT) return bin(O_SLE, a->b, a->a);
                if (a->op == O_SLE) return bin(O_SLT, a->b, a->a);
            }
            break;
        case O_SHL:
            if (isc(b, 0)) return a;
            if (isc(b) && b->c >= w) return cst(0, w);
            if (isc(b)) return concat(extract(a, 0, w - b->c), cst(0, b->c));
            break;
        case O_LSHR:
            if (isc(b, 0)) return a;
            if (isc(b) && b->c >= w) return cst(0, w);
            if (isc(b)) return zext(extract(a, b->c, w - b->c), w);
            break;
        case O_ASHR:
            if (isc(b, 0)) return a;
            if (isc(b)) { unsigned s = b->c >= w ? w - 1 : b->c; return sext(extract(a, s, w - s), w); }
            break;
        case O_EQ:
            if (a == b) return cst(1, 1);
            if (w == 1 && isc(b)) return b->c ? a : nott(a);
            if (isc(b)) {
                if (a->op == O_ITE && isc(a->b) && isc(a->d)) {
                    bool t = a->b->c == b->c, f = a->d->c == b->c;
                    if (t && f) return cst(1, 1);
                    if (t) return a->a;
                    if (f) return nott(a->a);
                    return cst(0, 1);
                }
                if (a->op == O_ZEXT) { if (b->c & ~maskw(a->a->w)) return cst(0, 1); return bin(O_EQ, a->a, cst(b->c, a->a->w)); }
                if (a->op == O_SEXT) { if ((uint64_t)(sx(b->c, a->a->w)) != (uint64_t)sx(b->c, w)) return cst(0, 1); return bin(O_EQ, a->a, cst(b->c, a->a->w)); }
                if (a->op == O_ADD && isc(a->b)) return bin(O_EQ, a->a, cst(b->c - a->b->c, w));
                if (a->op == O_XOR && isc(a->b)) return bin(O_EQ, a->a, cst(b->c ^ a->b->c, w));
                if (a->op == O_CONCAT) {
                    unsigned lw = a->b->w;
                    return bin(O_AND, bin(O_EQ, a->a, cst(b->c >> lw, a->a->w)), bin(O_EQ, a->b, cst(b->c, lw)));
                }
            }
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_EQ, a->a, b->a);
            if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(O_EQ, a->a, b->a);
            break;
        case O_ULT:
            if (a == b) return cst(0, 1);
            if (isc(b, 0)) return cst(0, 1);
            if (isc(a, m)) return cst(0, 1);
            if (isc(b, 1)) return bin(O_EQ, a, cst(0, w));
            if (isc(a, 0)) return nott(bin(O_EQ, b, cst(0, w)));
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_ULT, a->a, b->a);
            if (isc(b) && a->op == O_ZEXT) { if (b->c > maskw(a->a->w)) return cst(1, 1); return bin(O_ULT, a->a, cst(b->c, a->a->w)); }
            if (isc(a) && b->op == O_ZEXT) { if (a->c >= maskw(b->a->w)) return cst(0, 1); return bin(O_ULT, cst(a->c, b->a->w), b->a); }
            break;
        case O_ULE:
            if (a == b) return cst(1, 1);
            if (isc(a, 0) || isc(b, m)) return cst(1, 1);
            if (isc(b)) return bin(O_ULT, a, cst(b->c + 1, w));
            if (isc(a)) return bin(O_ULT, cst(a->c - 1, w), b);
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_ULE, a->a, b->a);
            break;
        case O_SLT:
            if (a == b) return cst(0, 1);
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_ULT, a->a, b->a);
            if (isc(b) && a->op == O_ZEXT) { if (sx(b->c, w) <= 0) return cst(0, 1); return bin(O_ULT, a, b); }
            if (isc(a) && b->op == O_ZEXT) { if (sx(a->c, w) < 0) return cst(1, 1); return bin(O_ULT, a, b); }
            if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(O_SLT, a->a, b->a);
            break;
        case O_SLE:
            if (a == b) return cst(1, 1);
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_ULE, a->a, b->a);
            if (isc(b) && sx(b->c, w) != sx(m >> 1, w)) return bin(O_SLT, a, cst(b->c + 1, w));
            break;
        default: break;
        }
        return intern(op, rw, 0, a, b);
    }
    bool bin2not(E a, E b) { return (isnot(a) && a->a == b) || (isnot(b) && b->a == a); }
    E ite(E c, E t, E f) {
        if (isc(c)) return c->c ? t : f;
        if (t == f) return t;
        if (t->w == 1) {
            if (isc(t) && isc(f)) return t->c ? c : nott(c);
            if (isc(t)) return t->c ? bin(O_OR, c, f) : bin(O_AND, nott(c), f);
            if (isc(f)) return f->c ? bin(O_OR, nott(c), t) : bin(O_AND, c, t);
        }
        if (isnot(c)) return ite(c->a, f, t);
        return intern(O_ITE, t->w, 0, c, t, f);
    }
    E zext(E a, unsigned w) {
        if (a->w == w) return a;
        if (isc(a)) return cst(a->c, w);
        if (a->op == O_ZEXT) return zext(a->a, w);
        return intern(O_ZEXT, w, 0, a);
    }
    E sext(E a, unsigned w) {
        if (a->w == w) return a;
        if (isc(a)) return cst((uint64_t)sx(a->c, a->w), w);
        if (a->op == O_SEXT) return sext(a->a, w);
        if (a->op == O_ZEXT) return zext(a->a, w);
        return intern(O_SEXT, w, 0, a);
    }
    E extract(E a, unsigned lo, unsigned n) {
        if (lo == 0 && n == a->w) return a;
        if (isc(a)) return cst(a->c >> lo, n);
        switch (a->op) {
        case O_EXTRACT: return extract(a->a, a->lo + lo, n);
        case O_ZEXT:
            if (lo >= a->a->w) return cst(0, n);
            if (lo + n <= a->a->w) return extract(a->a, lo, n);
            return zext(extract(a->a, lo, a->a->w - lo), n);
        case O_SEXT:
            if (lo + n <= a->a->w) return extract(a->a, lo, n);
            if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), n);
            break;
        case O_CONCAT: {
            unsigned lw = a->b->w;
            if (lo >= lw) return extract(a->a, lo - lw, n);
            if (lo + n <= lw) return extract(a->b, lo, n);
            return concat(extract(a->a, 0, lo + n - lw), extract(a->b, lo, lw - lo));
        }
        case O_ITE: if (isc(a->b) || isc(a->d)) return ite(a->a, extract(a->b, lo, n), extract(a->d, lo, n)); break;
        case O_AND: case O_OR: case O_XOR:
            return bin(a->op, extract(a->a, lo, n), extract(a->b, lo, n));
        case O_ADD: case O_SUB: case O_MUL:
            if (lo == 0 && (isc(a->b))) return bin(a->op, extract(a->a, 0, n), extract(a->b, 0, n));
            break;
        default: break;
        }
        return intern(O_EXTRACT, n, 0, a, nullptr, nullptr, lo);
    }
    E concat(E hi, E lo) {   // hi:lo
        unsigned w = hi->w + lo->w;
        if (isc(hi) && isc(lo)) return cst((hi->c << lo->w) | lo->c, w);
        if (isc(hi, 0)) return zext(lo, w);
        if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w)
            return extract(hi->a, lo->lo, w);
        if (hi->op == O_EXTRACT && hi->a == lo && hi->lo == lo->w) return extract(lo, 0, w);
        // hi = zext(extract(x)), lo = extract(x) adjoining
        if (hi->op == O_ZEXT) return zext(concat(hi->a, lo), w);
        if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->w)
            return concat(extract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
        if (hi->op == O_EXTRACT && lo->op == O_CONCAT && isc(lo->a)) {}
        return intern(O_CONCAT, w, 0, hi, lo);
    }

    // ---- concrete evaluation under an assignment (vector indexed by variable number) ----
    uint64_t stamp = 1;
    void newstamp() { stamp++; }
    uint64_t eval(E e, const std::vector<uint64_t>& asg) {
        if (e->op == O_CONST) return e->c;
        if (e->op == O_VAR) return e->c < asg.size() ? asg[e->c] & maskw(e->w) : 0;
        if (e->stamp == stamp) return e->ev;
        uint64_t r;
        switch (e->op) {
        case O_ITE: r = eval(e->a, asg) ? eval(e->b, asg) : eval(e->d, asg); break;
        case O_ZEXT: r = eval(e->a, asg); break;
        case O_SEXT: r = (uint64_t)sx(eval(e->a, asg), e->a->w) & maskw(e->w); break;
        case O_EXTRACT: r = (eval(e->a, asg) >> e->lo) & maskw(e->w); break;
        case O_CONCAT: r = (eval(e->a, asg) << e->b->w) | eval(e->b, asg); break;
        default: r = fold(e->op, e->a->w, eval(e->a, asg), eval(e->b, asg));
        }
        e->stamp = stamp; e->ev = r;
        return r;
    }
};

// ---- incremental Z3 back end ----
struct Solver {
    Z3_context ctx; Z3_solver s;
    std::vector<E> asserted;
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0;
    unsigned timeout_ms = 60000;
    void init() {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        s = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 40000000u); // deterministic budget per query; no timer thread (fork-safe)
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    }
    Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_ast bv(E e) {
        if (e->zbv) return e->zbv;
        Z3_ast r;
        if (e->w == 1 && e->op != O_CONST && e->op != O_VAR && e->op != O_EXTRACT) {
            r = Z3_mk_ite(ctx, boolean(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
            return e->zbv = keep(r);
        }
        switch (e->op) {
        case O_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, bvs(e->w)); break;
        case O_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), bvs(e->w)); break;
        case O_ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
        case O_SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
        case O_MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
        case O_UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
        case O_SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
        case O_UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
        case O_SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
        case O_AND: r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
        case O_OR: r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
        case O_XOR: r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
        case O_SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
        case O_LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
        case O_ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
        case O_ITE: r = Z3_mk_ite(ctx, boolean(e->a), bv(e->b), bv(e->d)); break;
        case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
        case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
        case O_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, bv(e->a)); break;
        case O_CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
        default: abort();
        }
        return e->zbv = keep(r);
    }
    Z3_ast boolean(E e) {
        if (e->zbool) return e->zbool;
        Z3_ast r;
        switch (e->op) {
        case O_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case O_EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, boolean(e->a), boolean(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
        case O_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
        case O_ULE: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
        case O_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
        case O_SLE: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
        case O_AND: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case O_OR: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case O_XOR: if (ExprMgr::isc(e->b, 1)) r = Z3_mk_not(ctx, boolean(e->a)); else r = Z3_mk_xor(ctx, boolean(e->a), boolean(e->b)); break;
        case O_ITE: r = Z3_mk_ite(ctx, boolean(e->a), boolean(e->b), boolean(e->d)); break;
        case O_ADD: case O_SUB: r = Z3_mk_xor(ctx, boolean(e->a), boolean(e->b)); break;
        case O_MUL: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        default: r = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
        }
        return e->zbool = keep(r);
    }
    // Each constraint E gets an indicator literal i_E with i_E => E asserted once; a query assumes the indicators of the
    // constraints that share variables (transitively) with the question. Unsatisfiable cores are remembered.
    uint32_t generation = 1; size_t live = 0; uint64_t mk = 1, cache_unsat = 0, guessed = 0, z3calls = 0; double z3secs = 0;
    std::unordered_map<E, std::vector<std::vector<E>>> cores; std::unordered_map<Z3_ast, E> byind;
    const std::vector<uint32_t>& vars(E e) {
        if (e->vars) return *e->vars;
        std::vector<uint32_t>* r = new std::vector<uint32_t>();
        if (e->op == O_VAR) r->push_back((uint32_t)e->c);
        else { for (E x : {e->a, e->b, e->d}) if (x) { auto& v = vars(x); r->insert(r->end(), v.begin(), v.end()); } std::sort(r->begin(), r->end()); r->erase(std::unique(r->begin(), r->end()), r->end()); }
        e->vars = r; return *r;
    }
    Z3_ast indicator(E e) {
        if (!e->ind) { char n[24]; snprintf(n, sizeof n, "i%u", e->id); e->ind = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bool_sort(ctx))); byind[e->ind] = e; }
        if (e->gen != generation) { e->gen = generation; live++; Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, e->ind, boolean(e))); }
        return e->ind;
    }
    std::vector<E> slice; std::vector<uint32_t> svars;
    void mkslice(const std::vector<E>& pc, E extra, size_t nv) {
        slice.clear(); svars.clear(); std::vector<char> in(nv, 0), used(pc.size(), 0);
        for (uint32_t v : vars(extra)) if (!in[v]) { in[v] = 1; svars.push_back(v); }
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
                bool hit = false; for (uint32_t v : vars(pc[i])) if (in[v]) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1; slice.push_back(pc[i]); 
                for (uint32_t v : vars(pc[i])) if (!in[v]) { in[v] = 1; svars.push_back(v); ch = true; }
            }
        }
    }
    // 1 sat, 0 unsat, -1 unknown. `base` satisfies pc; on sat *model = base updated to satisfy extra as well.
    int check(ExprMgr& X, const std::vector<E>& pc, E extra, const std::vector<uint8_t>& widths, const std::vector<uint64_t>& base, std::vector<uint64_t>* model) {
        if (!extra) { if (model) *model = base; return 1; }
        struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        auto done = [&](int r) { clock_gettime(CLOCK_MONOTONIC, &t1); secs += (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9; queries++; if (r > 0) sat++; else if (r == 0) unsat++; else unknown++; return r; };
        mkslice(pc, extra, widths.size());
        // a model found by changing one variable of the question
        {
            std::vector<uint64_t> m = base; std::vector<uint64_t> pool = {0, 1, 2};
            for (uint32_t v : svars) { pool.push_back(base[v]); pool.push_back(base[v] + 1); pool.push_back(base[v] - 1); }
            std::sort(pool.begin(), pool.end()); pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
            for (uint32_t v : vars(extra)) {
                for (uint64_t c : pool) {
                    if ((c & maskw(widths[v])) != c) continue;
                    m[v] = c; X.newstamp(); if (!X.eval(extra, m)) continue;
                    bool ok = true; for (E e : slice) if (!X.eval(e, m)) { ok = false; break; }
                    if (ok) { guessed++; if (model) *model = m; return done(1); }
                }
                m[v] = base[v];
            }
        }
        mk++; for (E e : slice) e->mark = mk; extra->mark = mk;
        auto it = cores.find(extra);
        if (it != cores.end()) for (auto& c : it->second) { bool all = true; for (E e : c) if (e->mark != mk) { all = false; break; } if (all) { cache_unsat++; return done(0); } }
        if (live > 40) { Z3_solver_reset(ctx, s); live = 0; generation++; }
        std::vector<Z3_ast> as; for (E e : slice) as.push_back(indicator(e)); as.push_back(indicator(extra));
        struct timespec z0, z1; clock_gettime(CLOCK_MONOTONIC, &z0);
        Z3_lbool r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
        clock_gettime(CLOCK_MONOTONIC, &z1); z3secs += (z1.tv_sec - z0.tv_sec) + (z1.tv_nsec - z0.tv_nsec) * 1e-9; z3calls++;
        if (r == Z3_L_TRUE) {
            if (model) {
                Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m); *model = base;
                for (uint32_t i : svars) {
                    Z3_func_decl fd = Z3_mk_func_decl(ctx, Z3_mk_int_symbol(ctx, i), 0, nullptr, bvs(widths[i])); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, fd));
                    Z3_ast v = Z3_model_get_const_interp(ctx, m, fd); (*model)[i] = 0;
                    if (v) { Z3_inc_ref(ctx, v); uint64_t u = 0; if (Z3_get_numeral_uint64(ctx, v, &u)) (*model)[i] = u; Z3_dec_ref(ctx, v); }
                    Z3_dec_ref(ctx, Z3_func_decl_to_ast(ctx, fd));
                }
                Z3_model_dec_ref(ctx, m);
                X.newstamp(); bool ok = X.eval(extra, *model); for (E e : slice) if (!X.eval(e, *model)) ok = false;
                if (!ok) { fprintf(stderr, "internal: solver model does not satisfy the path condition\n"); abort(); }
            }
            return done(1);
        }
        if (r == Z3_L_FALSE) {
            Z3_ast_vector cv = Z3_solver_get_unsat_core(ctx, s); Z3_ast_vector_inc_ref(ctx, cv); std::vector<E> core; bool has = false;
            for (unsigned i = 0; i < Z3_ast_vector_size(ctx, cv); i++) { auto b = byind.find(Z3_ast_vector_get(ctx, cv, i)); if (b != byind.end()) { core.push_back(b->second); if (b->second == extra) has = true; } }
            Z3_ast_vector_dec_ref(ctx, cv);
            if (!has) core.push_back(extra);
            auto& l = cores[extra]; if (l.size() < 64) l.push_back(core);
            return done(0);
        }
        return done(-1);
    }
};
