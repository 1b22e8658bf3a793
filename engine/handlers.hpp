// Modelled functions: the harness API, memory, exceptions, threads and the LLVM intrinsics.
#define H(name) static Res name(State& s, const Ins& in, V* a, V* r)
static std::string sarg(State& s, V& v) { return cstr(s, conc(s, v, 64)); }
static void trace(State& s, const std::string& t) { if (s.trace.size() < 400) s.trace.push_back(t); }
static unsigned nargs(const Ins& in) { return in.ops.size(); }
static void advance(State& s, const Ins& in) { Frame* f = s.top(); if (in.op == Instruction::Invoke) take(s, f, in.edges[0]); else f->pc++; }

H(h_u64) { std::string n = sarg(s, a[0]); r[0] = mk(input(s, n, 64)); return R_NEXT; }
H(h_u32) { std::string n = sarg(s, a[0]); r[0] = mk(input(s, n, 32)); return R_NEXT; }
H(h_u16) { std::string n = sarg(s, a[0]); r[0] = mk(input(s, n, 16)); return R_NEXT; }
H(h_u8) { std::string n = sarg(s, a[0]); r[0] = mk(input(s, n, 8)); return R_NEXT; }
H(h_bool) { std::string n = sarg(s, a[0]); r[0] = mk(input(s, n, 1)); return R_NEXT; }
H(h_assume) { if (!a[0].e) { if (!(a[0].c & 1)) endpath(1, "assume"); return R_NEXT; } assume(s, a[0].e); return R_NEXT; }
H(h_assert) { std::string m = sarg(s, a[1]); check_assert(s, a[0], m); return R_NEXT; }
H(h_fail) { std::string m = sarg(s, a[0]); st.asserts[m].first++; st.asserts_conc++; fail(s, "assert", m); }
H(h_kill) { endpath(1, "killed"); }
H(h_choose) {
    std::string n = sarg(s, a[0]); uint64_t k = conc(s, a[1], 32);
    if (k == 0) endpath(1, "empty choice");
    if (k == 1) { input(s, n, 8); r[0] = C(0); if (!opt.replay) { addpc(s, X.bin(O_EQ, X.var(s.in.back().var, 8), X.cst(0, 8))); } return R_NEXT; }
    const Ins* ip = &in;
    choose(s, n.c_str(), k, [ip](State& q, unsigned v) { Frame* f = q.top(); f->regs[ip->dst] = C(v); advance(q, *ip); });
    return R_STAY;
}
H(h_concretize) { r[0] = C(conc(s, a[0], 64)); return R_NEXT; }
H(h_is_symbolic) { r[0] = C(a[0].e ? 1 : 0); return R_NEXT; }
H(h_reach) { std::string n = sarg(s, a[0]); bool f = false; for (auto& p : s.reached) if (p.first == n) f = true; if (!f) s.reached.push_back({n, 1}); return R_NEXT; }
H(h_out) { std::string n = sarg(s, a[0]); s.outs.push_back({n, a[1]}); return R_NEXT; }
H(h_note) { std::string n = sarg(s, a[0]); trace(s, n + (a[1].e ? " = <symbolic>" : " = " + std::to_string(a[1].c))); return R_NEXT; }
H(h_print) { std::string n = sarg(s, a[0]); if (opt.verbose) { if (a[1].e) fprintf(stderr, "[vp] %s = <sym:%d> model %llu\n", n.c_str(), (int)a[1].e->op, (unsigned long long)evalm(s, a[1].e)); else fprintf(stderr, "[vp] %s = %llu\n", n.c_str(), (unsigned long long)a[1].c); } return R_NEXT; }
H(h_native) { r[0] = C(0); return R_NEXT; }
H(h_ite) { r[0] = ite(a[0], a[1], a[2], 64); return R_NEXT; }
H(h_nop) { r[0] = C(0); return R_NEXT; }
H(h_unsupported) { unmodelled(s, "call to " + in.fn->name); }

// ---- memory
H(h_malloc) {
    uint64_t n = conc(s, a[0], 64);
    if (n > (64u << 20)) { r[0] = C(0); return R_NEXT; }      // allocations above 64 MiB fail in the model
    r[0] = C(mkaddr(s.alloc(n, K_HEAP))); return R_NEXT;
}
H(h_calloc) { uint64_t n = conc(s, a[0], 64) * conc(s, a[1], 64); r[0] = C(mkaddr(s.alloc(n, K_HEAP, false))); return R_NEXT; }
static void dofree(State& s, uint64_t p) {
    if (!p) return;
    uint32_t id = (p >> 32) - 1; Obj* o = (p >> 32) ? s.get(id) : nullptr;
    if (o == &FREED_MARK) fail(s, "memory", "double free");
    if (!o || o->kind != K_HEAP || (uint32_t)p) fail(s, "memory", "free of something that is not the start of a heap block");
    s.release(id, false);
}
H(h_free) { dofree(s, conc(s, a[0], 64)); return R_NEXT; }
H(h_realloc) {
    uint64_t p = conc(s, a[0], 64), n = conc(s, a[1], 64); uint32_t id = s.alloc(n, K_HEAP);
    if (p) { uint32_t o, off; Obj* ob = chk(s, p, 0, false, o, off); copymem(s, mkaddr(id), p, std::min<uint64_t>(n, ob->size)); dofree(s, p); }
    r[0] = C(mkaddr(id)); return R_NEXT;
}
H(h_memcpy) { uint64_t d = conc(s, a[0], 64), x = conc(s, a[1], 64), n = conc(s, a[2], 64);
    if ((watched(s, d, n) || watched(s, x, n)) && schedpoint(s)) return R_STAY;
    copymem(s, d, x, n); r[0] = C(d); return R_NEXT; }
H(h_memset) {
    uint64_t d = conc(s, a[0], 64), n = conc(s, a[2], 64); r[0] = C(d); if (!n) return R_NEXT;
    if (watched(s, d, n) && schedpoint(s)) return R_STAY;
    uint32_t id, off; Obj* o = chk(s, d, n, true, id, off); V v = a[1];
    if (!v.e) { memset(o->d + off, (int)(v.c & 255), n); memset(o->s + off, 0, n); }
    else { E e = X.extract(v.e, 0, 8); o->sym(); for (uint64_t i = 0; i < n; i++) { o->s[off + i] = B_SYM; o->y[off + i] = {e, 0}; } }
    return R_NEXT;
}
H(h_memcmp) {
    uint64_t p = conc(s, a[0], 64), q = conc(s, a[1], 64), n = conc(s, a[2], 64); E res = X.cst(0, 32);
    std::vector<std::pair<V, V>> b;
    for (uint64_t i = 0; i < n; i++) {
        V x = load(s, p + i, 8), y = load(s, q + i, 8); b.push_back({x, y});
        if (!x.e && !y.e && x.c != y.c) break;
    }
    for (size_t i = b.size(); i-- > 0;) {
        E x = toE(b[i].first, 8), y = toE(b[i].second, 8); E eq = X.bin(O_EQ, x, y);
        res = X.ite(eq, res, X.ite(X.bin(O_ULT, x, y), X.cst(0xffffffff, 32), X.cst(1, 32)));
    }
    r[0] = mk(res); return R_NEXT;
}
H(h_objsize) { r[0] = C(~0ull); return R_NEXT; }

// ---- exceptions
H(h_cxa_alloc) { r[0] = C(mkaddr(s.alloc(conc(s, a[0], 64), K_HEAP))); return R_NEXT; }
H(h_cxa_free) { dofree(s, conc(s, a[0], 64)); return R_NEXT; }
H(h_throw) {
    auto& t = s.T(); t.cur = Exc{a[0].c, a[1].c, a[2].c, 0}; s.excs[t.cur.addr] = t.cur;
    unwind(s); return R_FRAME;
}
static std::string tiname_raw(uint64_t t) { auto* g = gvat(t); return g ? g->getName().str() : ""; }
H(h_begin_catch) {
    uint64_t p = a[0].c; auto& t = s.T();
    for (size_t i = 0; i < t.caught.size(); i++) if (t.caught[i].addr == p) { Exc e = t.caught[i]; t.caught.erase(t.caught.begin() + i); e.count++; t.caught.push_back(e); r[0] = C(p); return R_NEXT; }
    Exc e = s.excs[p]; e.count = 1; t.caught.push_back(e); r[0] = C(p);
    if (tiname_raw(e.ti).rfind("_ZTIP", 0) == 0) r[0] = load(s, p, 64);       // a thrown pointer is handed over by value
    return R_NEXT;
}
H(h_end_catch) {
    auto& t = s.T(); if (t.caught.empty()) return R_NEXT;
    Exc& e = t.caught.back();
    if (e.count < 0) { if (++e.count == 0) t.caught.pop_back(); return R_NEXT; }   // rethrown: object stays alive
    if (--e.count > 0) return R_NEXT;
    Exc x = e; t.caught.pop_back();
    if (s.excs.count(x.addr) && s.excs[x.addr].count == -99) return R_NEXT;          // an exception_ptr refers to it
    if (x.dtor) {
        uint32_t id = (x.dtor >> 32) - 1; FuncInfo* fn = funcs[id - FN_BASE];
        if (!fn->h && !fn->f->isDeclaration()) { advance(s, in); V p = C(x.addr); enter(s, fn, &p, 1); s.T().st.back()->dtor_ret = true; return R_FRAME; }
    }
    return R_NEXT;
}
H(h_rethrow) {
    auto& t = s.T(); if (t.caught.empty()) fail(s, "terminate", "rethrow without an active exception");
    t.cur = t.caught.back(); t.caught.back().count = -t.caught.back().count; unwind(s); return R_FRAME;
}
H(h_cur_exc) { auto& t = s.T(); if (t.caught.empty()) { r[0] = C(0); return R_NEXT; } s.excs[t.caught.back().addr].count = -99; r[0] = C(t.caught.back().addr); return R_NEXT; }   // kept alive from here on
H(h_init_exc) { s.excs[a[0].c] = Exc{a[0].c, a[1].c, a[2].c, -99}; r[0] = a[0]; return R_NEXT; }
H(h_rethrow_ptr) { auto& t = s.T(); auto it = s.excs.find(conc(s, a[0], 64)); if (it == s.excs.end()) fail(s, "terminate", "rethrow of a null exception pointer"); t.cur = it->second; t.cur.count = 0; unwind(s); return R_FRAME; }
// offset of base b in d (through non-virtual inheritance), -1: none
static int64_t baseoff(const GlobalVariable* d, const GlobalVariable* b) {
    if (d == b || d->getName() == b->getName()) return 0;
    if (!d->hasInitializer()) return -1;
    auto* cs = dyn_cast<ConstantStruct>(d->getInitializer()); if (!cs) return -1;
    std::string vn = cs->getOperand(0)->stripInBoundsConstantOffsets()->getName().str();
    if (vn.find("__si_class_type_info") != std::string::npos) { if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) return baseoff(g, b); }
    if (vn.find("__vmi_class_type_info") != std::string::npos)
        for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) { int64_t f = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue(), o = baseoff(g, b); if (o >= 0 && !(f & 1)) return o + (f >> 8); }
    return -1;
}
H(h_dynamic_cast) {
    auto ld = [&](uint64_t q) { V v = load(s, q, 64); return conc(s, v, 64); };
    uint64_t p = conc(s, a[0], 64), vp = ld(p); int64_t top = (int64_t)ld(vp - 16); uint64_t full = p + top, ti = ld(vp - 8);
    auto *d = gvat(ti), *b = gvat(conc(s, a[2], 64)); int64_t o = d && b ? baseoff(d, b) : -1;
    r[0] = C(o < 0 ? 0 : full + o); return R_NEXT;
}
// formatted text: values that are symbolic appear as "?" (only log messages are formatted)
static std::string format(State& s, const std::string& f, V* a, unsigned n) {
    std::string o; unsigned k = 0;
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { o += f[i]; continue; }
        if (f[i + 1] == '%') { o += '%'; i++; continue; }
        std::string sp = "%"; int l = 0; i++;
        while (i < f.size() && strchr("-+ #0123456789.*", f[i])) { if (f[i] == '*') { sp += k < n && !a[k].e ? std::to_string((int)a[k].c) : "0"; k++; } else sp += f[i]; i++; }
        while (i < f.size() && strchr("lhzjtq", f[i])) { if (strchr("lzjtq", f[i])) l++; else l--; i++; }
        char c = i < f.size() ? f[i] : 0; if (!c) break;
        if (k >= n) { o += "?"; continue; }
        V v = a[k++]; char b[512];
        if (c == 's') { uint64_t p = conc(s, v, 64); std::string t; size_t dot = sp.find('.'); size_t mx = dot == std::string::npos ? 4096 : atoi(sp.c_str() + dot + 1);
            if (!p) t = "(null)"; else for (size_t j = 0; j < mx; j++) { V x = load(s, p + j, 8); if (x.e) t += '?'; else if (!x.c) break; else t += (char)x.c; }
            size_t w = 0; bool left = sp.size() > 1 && sp[1] == '-'; w = atoi(sp.c_str() + 1 + left); while (t.size() < w && w < 400) t = left ? t + " " : " " + t; o += t; continue; }
        if (v.e) { o += "?"; continue; }
        if (strchr("di", c)) { long long x = l > 0 ? (long long)v.c : l == -1 ? (short)v.c : l == -2 ? (signed char)v.c : (int)v.c; snprintf(b, 512, (sp + "ll" + c).c_str(), x); }
        else if (strchr("uxXo", c)) { unsigned long long x = l > 0 ? v.c : l == -1 ? (unsigned short)v.c : l == -2 ? (unsigned char)v.c : (unsigned)v.c; snprintf(b, 512, (sp + "ll" + c).c_str(), x); }
        else if (c == 'c') snprintf(b, 512, (sp + "c").c_str(), (int)v.c);
        else if (c == 'p') snprintf(b, 512, "%p", (void*)v.c);
        else if (strchr("fFeEgG", c)) { double d; memcpy(&d, &v.c, 8); snprintf(b, 512, (sp + c).c_str(), d); }
        else { o += "?"; continue; }
        o += b;
    }
    return o;
}
static void puttext(State& s, uint64_t p, const std::string& t) { uint32_t id, off; Obj* o = chk(s, p, t.size() + 1, true, id, off); memcpy(o->d + off, t.c_str(), t.size() + 1); memset(o->s + off, 0, t.size() + 1); }
H(h_snprintf) { uint64_t n = conc(s, a[1], 64); std::string t = format(s, sarg(s, a[2]), a + 3, nargs(in) - 3); r[0] = C((uint32_t)t.size()); if (n) puttext(s, conc(s, a[0], 64), t.substr(0, n - 1)); return R_NEXT; }
H(h_sprintf) { std::string t = format(s, sarg(s, a[1]), a + 2, nargs(in) - 2); r[0] = C((uint32_t)t.size()); puttext(s, conc(s, a[0], 64), t); return R_NEXT; }
// relative lookup tables: element = trunc(sub(ptrtoint target, ptrtoint table)); taken from the initialiser, object addresses do not subtract
H(h_load_relative) {
    uint64_t p = conc(s, a[0], 64), o = conc(s, a[1], 64); auto* g = gvat(p); if (!g || !g->hasInitializer() || (uint32_t)p) unmodelled(s, "relative load");
    Constant* c = const_cast<Constant*>(g->getInitializer())->getAggregateElement((unsigned)(o / 4)); if (!c) fail(s, "memory", "read outside a lookup table");
    Value* v = c; for (int i = 0; i < 6; i++) { auto* ce = dyn_cast<ConstantExpr>(v); if (!ce) break; v = ce->getOperand(0); if (ce->getOpcode() == Instruction::PtrToInt) { std::vector<V> out; evalc(cast<Constant>(v), out); r[0] = out[0]; return R_NEXT; } }
    unmodelled(s, "relative load");
}
H(h_self100) { r[0] = C(s.cur + 100); return R_NEXT; }
H(h_get_exc) { r[0] = a[0]; return R_NEXT; }
H(h_typeid_for) { r[0] = C(tidfor(a[0].c)); return R_NEXT; }
H(h_terminate) { fail(s, "terminate", "std::terminate / abort called"); }
H(h_exit) { endpath(0, "exit"); }
H(h_assert_fail) { fail(s, "assert", "assertion in the code failed: " + sarg(s, a[0])); }
H(h_pure) { fail(s, "terminate", "pure virtual call"); }

// ---- threads
H(h_thread_create) {
    uint64_t fnp = conc(s, a[0], 64); uint32_t id = (fnp >> 32) - 1; FuncInfo* fn = funcs[id - FN_BASE]; V arg = a[1];
    if (s.th.size() >= 12) unmodelled(s, "more than 12 threads");
    int me = s.cur, nid = s.th.size();
    s.th.emplace_back(); s.cur = nid; enter(s, fn, &arg, 1); s.cur = me;
    r[0] = C(nid); return R_NEXT;
}
H(h_thread_join) {
    uint64_t t = conc(s, a[0], 64); if (t >= s.th.size()) fail(s, "thread", "join of an unknown thread");
    if (s.th[t].status == T_DONE) return R_NEXT;
    s.T().status = T_JOIN; s.T().on = t; reschedule(s); return R_SWITCH;
}
H(h_self) { r[0] = C(s.cur); return R_NEXT; }
H(h_nthreads) { int n = 0; for (auto& t : s.th) if (t.status != T_DONE) n++; r[0] = C(n); return R_NEXT; }
H(h_run_others) {   // let every other thread run until all of them are blocked or finished
    Thread& t = s.T();
    if (t.phase == 7) { t.phase = 0; return R_NEXT; }
    t.phase = 7; t.status = T_YIELD; reschedule(s); return R_SWITCH;
}
H(h_yield) { if (schedpoint(s)) return R_SWITCH; r[0] = C(0); return R_NEXT; }
H(h_explore) { s.preempt = (int)conc(s, a[0], 32); s.spurious = (int)conc(s, a[1], 32); s.explore = s.preempt >= 0; return R_NEXT; }
H(h_watch) { uint64_t p = conc(s, a[0], 64), n = conc(s, a[1], 64); s.watch.push_back({p, p + n}); return R_NEXT; }
static Mtx& mx(State& s, uint64_t a) { auto it = s.mtx.find(a); if (it == s.mtx.end()) it = s.mtx.insert({a, Mtx{-1, 0, 0}}).first; return it->second; }
static bool recursive_kind(State& s, uint64_t m) { V k = load(s, m + 16, 32); return !k.e && (k.c & 3) == 1; }
H(h_mutex_lock) {
    uint64_t m = conc(s, a[0], 64); uint32_t id, off; chk(s, m, 40, false, id, off);
    if (schedpoint(s)) return R_SWITCH;
    Mtx& x = mx(s, m);
    if (x.count == 0 && x.readers == 0) { x.owner = s.cur; x.count = 1; return R_NEXT; }
    if (x.owner == s.cur && x.count > 0) {
        if (recursive_kind(s, m)) { x.count++; return R_NEXT; }
        fail(s, "deadlock", "a thread locks a non-recursive mutex it already holds");
    }
    Thread& t = s.T(); t.status = T_MUTEX; t.on = m; t.skip = true; reschedule(s); return R_SWITCH;
}
H(h_mutex_trylock) {
    uint64_t m = conc(s, a[0], 64); if (schedpoint(s)) return R_SWITCH;
    Mtx& x = mx(s, m);
    if (x.count == 0 && x.readers == 0) { x.owner = s.cur; x.count = 1; r[0] = C(0); return R_NEXT; }
    if (x.owner == s.cur && x.count && recursive_kind(s, m)) { x.count++; r[0] = C(0); return R_NEXT; }
    r[0] = C(16); return R_NEXT;
}
H(h_mutex_unlock) {
    Thread& t = s.T();
    if (t.phase == 3) { t.phase = 0; t.skip = false; return R_NEXT; }    // second visit, after the scheduling point
    uint64_t m = conc(s, a[0], 64); uint32_t id, off; chk(s, m, 40, false, id, off);
    Mtx& x = mx(s, m);
    if (x.count == 0 || x.owner != s.cur) fail(s, "thread", "unlock of a mutex the thread does not hold");
    x.count--; if (x.count) return R_NEXT;
    x.owner = -1; s.mtx.erase(m);
    if (s.explore) { bool sk = t.skip; t.skip = false; t.phase = 3; if (schedpoint(s)) { for (auto& q : work) (void)q; return R_SWITCH; } t.phase = 0; t.skip = sk; }
    return R_NEXT;
}
H(h_rdlock) {
    uint64_t m = conc(s, a[0], 64); if (schedpoint(s)) return R_SWITCH; Mtx& x = mx(s, m);
    if (x.count == 0) { x.readers++; return R_NEXT; }
    if (x.owner == s.cur) fail(s, "deadlock", "a thread read-locks a rwlock it holds for writing");
    s.T().status = T_RW; s.T().on = m; s.T().skip = true; reschedule(s); return R_SWITCH;
}
H(h_rwunlock) {
    uint64_t m = conc(s, a[0], 64); Mtx& x = mx(s, m);
    if (x.count) { x.count = 0; x.owner = -1; } else if (x.readers) x.readers--; else fail(s, "thread", "unlock of a rwlock that is not held");
    if (!x.count && !x.readers) s.mtx.erase(m);
    return R_NEXT;
}
static Res condwait(State& s, V* a, V* r, bool timed) {
    uint64_t cv = conc(s, a[0], 64), m = conc(s, a[1], 64); Thread& t = s.T();
    if (t.phase == 0) {
        if (schedpoint(s)) return R_SWITCH;
        Mtx& x = mx(s, m);
        if (!x.count || x.owner != s.cur) fail(s, "thread", "condition wait without holding the mutex");
        t.arg = x.count; s.mtx.erase(m);
        t.phase = 1; t.status = T_COND; t.on = cv; t.timed = timed; t.timedout = false; t.skip = false; reschedule(s); return R_SWITCH;
    }
    t.skip = false;
    Mtx& x = mx(s, m);
    if (x.count == 0 && x.readers == 0) { x.owner = s.cur; x.count = t.arg; t.phase = 0; r[0] = C(t.timedout ? 1 : 0); t.timed = false; return R_NEXT; }
    t.status = T_MUTEX; t.on = m; reschedule(s); return R_SWITCH;
}
H(h_cond_wait) { return condwait(s, a, r, false); }
H(h_cond_timedwait) { return condwait(s, a, r, true); }
H(h_cond_notify) {
    uint64_t cv = conc(s, a[0], 64), all = conc(s, a[1], 32);
    if (schedpoint(s)) return R_SWITCH;
    std::vector<int> w; for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].status == T_COND && s.th[i].on == cv) w.push_back(i);
    if (w.empty()) return R_NEXT;
    if (all) { for (int i : w) s.th[i].status = T_RUN; return R_NEXT; }
    if (w.size() == 1 || !s.explore) { s.th[w[0]].status = T_RUN; return R_NEXT; }
    const Ins* ip = &in;
    choose(s, "wake", w.size(), [ip, w](State& q, unsigned v) { q.th[w[v]].status = T_RUN; advance(q, *ip); });
    return R_STAY;
}
H(h_cond_waiters) { uint64_t cv = conc(s, a[0], 64); int n = 0; for (auto& t : s.th) if (t.status == T_COND && t.on == cv) n++; r[0] = C(n); return R_NEXT; }
H(h_lock_held) { uint64_t m = conc(s, a[0], 64); auto it = s.mtx.find(m); r[0] = C(it != s.mtx.end() && it->second.count && it->second.owner == s.cur); return R_NEXT; }

// ---- integer intrinsics
static unsigned W0(const Ins& in) { return in.gepw.empty() ? 0 : in.gepw[0]; }
static Res minmax(State& s, const Ins& in, V* a, V* r, unsigned pred) {
    unsigned n = in.n, w = W0(in);
    for (unsigned i = 0; i < n; i++) r[i] = ite(icmp(pred, w, a[i], a[n + i]), a[i], a[n + i], w);
    return R_NEXT;
}
H(h_umin) { return minmax(s, in, a, r, CmpInst::ICMP_ULT); }
H(h_umax) { return minmax(s, in, a, r, CmpInst::ICMP_UGT); }
H(h_smin) { return minmax(s, in, a, r, CmpInst::ICMP_SLT); }
H(h_smax) { return minmax(s, in, a, r, CmpInst::ICMP_SGT); }
H(h_abs) { unsigned w = W0(in); V z = C(0); r[0] = ite(icmp(CmpInst::ICMP_SLT, w, a[0], z), binop(&s, Instruction::Sub, w, z, a[0]), a[0], w); return R_NEXT; }
H(h_uaddo) { unsigned w = W0(in); r[0] = binop(&s, Instruction::Add, w, a[0], a[1]); r[1] = icmp(CmpInst::ICMP_ULT, w, r[0], a[0]); return R_NEXT; }
H(h_usubo) { unsigned w = W0(in); r[0] = binop(&s, Instruction::Sub, w, a[0], a[1]); r[1] = icmp(CmpInst::ICMP_ULT, w, a[0], a[1]); return R_NEXT; }
H(h_umulo) {
    unsigned w = W0(in); r[0] = binop(&s, Instruction::Mul, w, a[0], a[1]);
    if (!a[0].e && !a[1].e) { unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; r[1] = C(p > maskw(w)); return R_NEXT; }
    V x = a[0], y = a[1]; if (!x.e) std::swap(x, y);
    if (y.e) unmodelled(s, "symbolic x symbolic umul.with.overflow");
    r[1] = y.c ? icmp(CmpInst::ICMP_UGT, w, x, C(maskw(w) / y.c)) : C(0); return R_NEXT;
}
static Res sovf(State& s, const Ins& in, V* a, V* r, unsigned op) {
    unsigned w = W0(in); r[0] = binop(&s, op, w, a[0], a[1]);
    E x = toE(a[0], w), y = toE(a[1], w), q = toE(r[0], w); E sx_ = X.extract(x, w - 1, 1), sy = X.extract(y, w - 1, 1), sq = X.extract(q, w - 1, 1);
    E ne = X.nott(X.bin(O_EQ, sx_, sq)); E c = op == Instruction::Add ? X.bin(O_EQ, sx_, sy) : X.nott(X.bin(O_EQ, sx_, sy));
    r[1] = mk(X.bin(O_AND, c, ne)); return R_NEXT;
}
H(h_saddo) { return sovf(s, in, a, r, Instruction::Add); }
H(h_ssubo) { return sovf(s, in, a, r, Instruction::Sub); }
H(h_usubsat) { unsigned w = W0(in); r[0] = ite(icmp(CmpInst::ICMP_ULT, w, a[0], a[1]), C(0), binop(&s, Instruction::Sub, w, a[0], a[1]), w); return R_NEXT; }
H(h_uaddsat) { unsigned w = W0(in); V x = binop(&s, Instruction::Add, w, a[0], a[1]); r[0] = ite(icmp(CmpInst::ICMP_ULT, w, x, a[0]), C(maskw(w)), x, w); return R_NEXT; }
H(h_bswap) { unsigned w = W0(in); if (!a[0].e) { uint64_t v = 0; for (unsigned i = 0; i < w / 8; i++) v |= ((a[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); r[0] = C(v); return R_NEXT; }
    E e = X.extract(a[0].e, 0, 8); for (unsigned i = 1; i < w / 8; i++) e = X.concat(e, X.extract(a[0].e, 8 * i, 8)); r[0] = mk(e); return R_NEXT; }
static E bitat(E x, unsigned i) { return X.extract(x, i, 1); }
H(h_ctlz) { unsigned w = W0(in); if (!a[0].e) { r[0] = C(a[0].c ? __builtin_clzll(a[0].c) - (64 - w) : w); return R_NEXT; }
    E e = X.cst(w, w); for (unsigned i = 0; i < w; i++) e = X.ite(bitat(a[0].e, i), X.cst(w - 1 - i, w), e); r[0] = mk(e); return R_NEXT; }
H(h_cttz) { unsigned w = W0(in); if (!a[0].e) { r[0] = C(a[0].c ? __builtin_ctzll(a[0].c) : w); return R_NEXT; }
    E e = X.cst(w, w); for (unsigned i = w; i-- > 0;) e = X.ite(bitat(a[0].e, i), X.cst(i, w), e); r[0] = mk(e); return R_NEXT; }
H(h_ctpop) { unsigned w = W0(in); if (!a[0].e) { r[0] = C(__builtin_popcountll(a[0].c)); return R_NEXT; }
    E e = X.cst(0, w); for (unsigned i = 0; i < w; i++) e = X.bin(O_ADD, e, X.zext(bitat(a[0].e, i), w)); r[0] = mk(e); return R_NEXT; }
H(h_fshl) { unsigned w = W0(in); V k = a[2]; uint64_t n = conc(s, k, w) % w; if (!n) { r[0] = a[0]; return R_NEXT; }
    r[0] = binop(&s, Instruction::Or, w, binop(&s, Instruction::Shl, w, a[0], C(n)), binop(&s, Instruction::LShr, w, a[1], C(w - n))); return R_NEXT; }
H(h_fshr) { unsigned w = W0(in); V k = a[2]; uint64_t n = conc(s, k, w) % w; if (!n) { r[0] = a[1]; return R_NEXT; }
    r[0] = binop(&s, Instruction::Or, w, binop(&s, Instruction::Shl, w, a[0], C(w - n)), binop(&s, Instruction::LShr, w, a[1], C(n))); return R_NEXT; }
H(h_first) { r[0] = a[0]; return R_NEXT; }
H(h_false) { r[0] = C(0); return R_NEXT; }
H(h_llvm_assume) { return R_NEXT; }
H(h_trap) { fail(s, "terminate", "trap"); }
static Res vreduce(State& s, const Ins& in, V* a, V* r, unsigned op) { V x = a[0]; for (unsigned i = 1; i < nargs(in); i++) x = binop(&s, op, W0(in), x, a[i]); r[0] = x; return R_NEXT; }
H(h_vor) { return vreduce(s, in, a, r, Instruction::Or); }
H(h_vadd) { return vreduce(s, in, a, r, Instruction::Add); }
H(h_vand) { return vreduce(s, in, a, r, Instruction::And); }
static double asd(const V& v) { double d; memcpy(&d, &v.c, 8); return d; }
static V fromd(double d) { uint64_t c; memcpy(&c, &d, 8); return C(c); }
static float asf(const V& v) { float d; uint32_t c = v.c; memcpy(&d, &c, 4); return d; }
static V fromf(float d) { uint32_t c; memcpy(&c, &d, 4); return C(c); }
H(h_fmuladd) { if (in.w == 64) r[0] = fromd(asd(a[0]) * asd(a[1]) + asd(a[2])); else r[0] = fromf(asf(a[0]) * asf(a[1]) + asf(a[2])); return R_NEXT; }
#define FP1(nm, f) H(nm) { if (a[0].e) unmodelled(s, "floating-point function of a symbolic value"); if (in.w == 64) r[0] = fromd(f(asd(a[0]))); else r[0] = fromf(f(asf(a[0]))); return R_NEXT; }
FP1(h_floor, std::floor) FP1(h_round, std::round) FP1(h_trunc, std::trunc) FP1(h_sqrt, std::sqrt) FP1(h_log2, std::log2) FP1(h_log, std::log) FP1(h_exp, std::exp) FP1(h_fabs, std::fabs) FP1(h_rint, std::rint)
#define FP2(nm, f) H(nm) { if (a[0].e || a[1].e) unmodelled(s, "floating-point function of a symbolic value"); if (in.w == 64) r[0] = fromd(f(asd(a[0]), asd(a[1]))); else r[0] = fromf(f(asf(a[0]), asf(a[1]))); return R_NEXT; }
FP2(h_pow, std::pow) FP2(h_fmod, std::fmod) FP2(h_fmin, std::fmin) FP2(h_fmax, std::fmax)
H(h_lround) { if (a[0].e) unmodelled(s, "floating-point function of a symbolic value"); r[0] = C((uint64_t)std::lround(asd(a[0]))); return R_NEXT; }
H(h_ceil) { if (in.w == 64) r[0] = fromd(std::ceil(asd(a[0]))); else r[0] = fromf(std::ceil(asf(a[0]))); return R_NEXT; }

static void register_handlers() {
    auto R = [&](const char* n, Handler h) { handlers[n] = h; };
    R("vp_u64", h_u64); R("vp_u32", h_u32); R("vp_u16", h_u16); R("vp_u8", h_u8); R("vp_bool", h_bool);
    R("vp_assume", h_assume); R("vp_assert", h_assert); R("vp_fail", h_fail); R("vp_kill", h_kill); R("vp_choose", h_choose);
    R("vp_concretize", h_concretize); R("vp_is_symbolic", h_is_symbolic); R("vp_reach", h_reach); R("vp_out", h_out); R("vp_note", h_note); R("vp_print", h_print); R("vp_native", h_native); R("vp_ite", h_ite);
    R("vp_thread_create", h_thread_create); R("vp_thread_join", h_thread_join); R("vp_self", h_self); R("vp_nthreads", h_nthreads); R("vp_run_others", h_run_others); R("vp_yield", h_yield); R("vp_explore", h_explore); R("vp_watch", h_watch);
    R("vp_cond_wait", h_cond_wait); R("vp_cond_timedwait", h_cond_timedwait); R("vp_cond_notify", h_cond_notify); R("vp_cond_waiters", h_cond_waiters); R("vp_lock_held", h_lock_held);
    R("malloc", h_malloc); R("calloc", h_calloc); R("free", h_free); R("realloc", h_realloc); R("vp_malloc", h_malloc); R("vp_free", h_free);
    R("memcpy", h_memcpy); R("memmove", h_memcpy); R("memset", h_memset); R("memcmp", h_memcmp); R("bcmp", h_memcmp);
    R("__cxa_allocate_exception", h_cxa_alloc); R("__cxa_free_exception", h_cxa_free); R("__cxa_throw", h_throw); R("__cxa_begin_catch", h_begin_catch); R("__cxa_end_catch", h_end_catch);
    R("__cxa_rethrow", h_rethrow); R("__cxa_get_exception_ptr", h_get_exc); R("llvm.eh.typeid.for", h_typeid_for); R("llvm.eh.typeid.for.p0", h_typeid_for);
    R("_ZSt9terminatev", h_terminate); R("abort", h_terminate); R("__assert_fail", h_assert_fail); R("__cxa_pure_virtual", h_pure); R("exit", h_exit); R("_exit", h_exit);
    R("__cxa_atexit", h_nop); R("_ZSt21ios_base_library_initv", h_nop); R("_ZSt18uncaught_exceptionv", h_nop); R("_ZSt19uncaught_exceptionsv", h_nop); R("pthread_cond_init", h_nop); R("pthread_cond_destroy", h_nop); R("__gxx_personality_v0", h_nop);
    R("pthread_mutex_lock", h_mutex_lock); R("pthread_mutex_unlock", h_mutex_unlock); R("pthread_mutex_timedlock", h_mutex_lock); R("pthread_mutex_clocklock", h_mutex_lock); R("pthread_mutex_trylock", h_mutex_trylock); R("pthread_mutex_init", h_nop); R("pthread_mutex_destroy", h_nop);
    R("pthread_rwlock_rdlock", h_rdlock); R("pthread_rwlock_wrlock", h_mutex_lock); R("pthread_rwlock_unlock", h_rwunlock); R("pthread_rwlock_init", h_nop); R("pthread_rwlock_destroy", h_nop);
    R("vp_current_exception", h_cur_exc); R("__cxa_init_primary_exception", h_init_exc); R("vp_rethrow_exception", h_rethrow_ptr); R("__dynamic_cast", h_dynamic_cast); R("snprintf", h_snprintf); R("sprintf", h_sprintf);
    R("floor", h_floor); R("round", h_round); R("trunc", h_trunc); R("sqrt", h_sqrt); R("log2", h_log2); R("log", h_log); R("exp", h_exp); R("pow", h_pow); R("fmod", h_fmod); R("ceil", h_ceil); R("lround", h_lround); R("llround", h_lround);
    R("floorf", h_floor); R("roundf", h_round); R("ceilf", h_ceil); R("sqrtf", h_sqrt); R("fmin", h_fmin); R("fmax", h_fmax);
    R("pthread_self", h_self100); R("sched_yield", h_yield);
    static const struct { const char* p; Handler h; } pre[] = {
        {"llvm.memcpy.", h_memcpy}, {"llvm.memmove.", h_memcpy}, {"llvm.memset.", h_memset}, {"llvm.lifetime.", h_nop}, {"llvm.dbg.", h_nop}, {"llvm.experimental.noalias", h_nop}, {"llvm.invariant.", h_nop}, {"llvm.prefetch", h_nop}, {"llvm.stacksave", h_nop}, {"llvm.stackrestore", h_nop}, {"llvm.donothing", h_nop},
        {"llvm.umin.", h_umin}, {"llvm.umax.", h_umax}, {"llvm.smin.", h_smin}, {"llvm.smax.", h_smax}, {"llvm.abs.", h_abs}, {"llvm.uadd.with", h_uaddo}, {"llvm.usub.with", h_usubo}, {"llvm.umul.with", h_umulo}, {"llvm.sadd.with", h_saddo}, {"llvm.ssub.with", h_ssubo},
        {"llvm.usub.sat", h_usubsat}, {"llvm.uadd.sat", h_uaddsat}, {"llvm.bswap.", h_bswap}, {"llvm.ctlz.", h_ctlz}, {"llvm.cttz.", h_cttz}, {"llvm.ctpop.", h_ctpop}, {"llvm.fshl.", h_fshl}, {"llvm.fshr.", h_fshr},
        {"llvm.expect.", h_first}, {"llvm.launder.", h_first}, {"llvm.strip.", h_first}, {"llvm.threadlocal.address", h_first}, {"llvm.is.constant", h_false}, {"llvm.objectsize", h_objsize}, {"llvm.assume", h_llvm_assume}, {"llvm.trap", h_trap}, {"llvm.ubsantrap", h_trap},
        {"llvm.vector.reduce.or", h_vor}, {"llvm.vector.reduce.add", h_vadd}, {"llvm.vector.reduce.and", h_vand}, {"llvm.fmuladd", h_fmuladd}, {"llvm.ceil", h_ceil}, {"llvm.floor", h_floor}, {"llvm.round.", h_round}, {"llvm.trunc.", h_trunc}, {"llvm.sqrt", h_sqrt}, {"llvm.fabs", h_fabs}, {"llvm.log2", h_log2}, {"llvm.log.", h_log}, {"llvm.exp.", h_exp}, {"llvm.pow.", h_pow}, {"llvm.minnum", h_fmin}, {"llvm.maxnum", h_fmax}, {"llvm.rint", h_rint}, {"llvm.nearbyint", h_rint}, {"llvm.lround", h_lround}, {"llvm.va_start", h_unsupported}, {"llvm.va_end", h_nop}, {"llvm.load.relative", h_load_relative}};
    for (auto& f : *M) if (f.getName().startswith("llvm.")) for (auto& p : pre) if (f.getName().startswith(p.p)) handlers[f.getName().str()] = p.h;
}
