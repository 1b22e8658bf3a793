#include <sys/uio.h>
// Native side of the harness API: replays an assignment found by the solver (or a sampled path) against the real code
// compiled to machine code. Threads are coroutines scheduled with exactly the choice logic of the engine.
#include "vp.h"
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <map>
#include <mutex>
#include <pthread.h>
#include <random>
#include <signal.h>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#define ASAN 1
#endif

static std::vector<uint64_t> vals; static size_t vpos;
static std::string scratch;
extern "C" { uint64_t vp_clock_ns = 1000000000ull; uint32_t vp_random_value = 12345; int vp_fs_fail_at = -1; int vp_fs_opens; int vp_fs_fail_op = -1; int vp_fs_crash_at = -1; }
static void cleanup() { if (!scratch.empty()) { vp_fs_reset(); rmdir(scratch.c_str()); } }
[[noreturn]] static void die(int code) { fflush(stdout); cleanup(); _exit(code); }
[[noreturn]] static void viol(const char* kind, const char* msg) { printf("NATIVE-VIOLATION %s: %s\n", kind, msg); die(10); }
static uint64_t next() { if (vpos >= vals.size()) { vpos++; return 0; } return vals[vpos++]; }

enum { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE, T_YIELD, T_RW };
struct Th {
    ucontext_t ctx; char* stack = nullptr; int status = T_RUN; void* on = nullptr; uint64_t jt = 0; int phase = 0; bool skip = false, timed = false, timedout = false; int64_t arg = 0;
    void (*fn)(void*) = nullptr; void* a = nullptr; void* eh_caught = nullptr; unsigned eh_unc = 0;
};
struct Mtx { int owner = -1, count = 0, readers = 0; };
static std::vector<Th*> th; static int cur; static std::map<void*, Mtx> mtx; static bool exploring; static int preempt, spurious; static std::vector<std::pair<char*, char*>> watchv;
static bool inited;
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
static void go(int t) {
    if (t == cur) return;
    Th *o = th[cur], *n = th[t]; void** g = (void**)__cxxabiv1::__cxa_get_globals();
    o->eh_caught = g[0]; o->eh_unc = *(unsigned*)(g + 1); g[0] = n->eh_caught; *(unsigned*)(g + 1) = n->eh_unc;
    cur = t; swapcontext(&o->ctx, &n->ctx);
}
static bool enabled(int i) {
    Th& t = *th[i];
    switch (t.status) {
    case T_RUN: return true;
    case T_MUTEX: { auto it = mtx.find(t.on); return it == mtx.end() || (it->second.count == 0 && it->second.readers == 0); }
    case T_RW: { auto it = mtx.find(t.on); return it == mtx.end() || it->second.count == 0; }
    case T_JOIN: return th[t.jt]->status == T_DONE;
    default: return false;
    }
}
static void to(int t) { Th& x = *th[t]; if (x.status == T_MUTEX || x.status == T_RW || x.status == T_JOIN) x.status = T_RUN; go(t); }
static void to_sp(int w) { Th& x = *th[w]; if (x.timed) x.timedout = true; else spurious--; x.status = T_RUN; go(w); }
static void reschedule() {
    std::vector<int> en, sp; int n = th.size();
    for (int i = 0; i < n; i++) if (enabled(i)) en.push_back(i);
    if (exploring && spurious > 0) for (int i = 0; i < n; i++) if (th[i]->status == T_COND && !th[i]->timed) sp.push_back(i);
    if (exploring) for (int i = 0; i < n; i++) if (th[i]->status == T_COND && th[i]->timed) sp.push_back(i);
    auto yielders = [&]() { for (int i = 0; i < n; i++) if (th[i]->status == T_YIELD) { th[i]->status = T_RUN; go(i); return true; } return false; };
    if (en.empty() && sp.empty()) {
        if (yielders()) return;
        for (int i = 0; i < n; i++) if (th[i]->status == T_COND && th[i]->timed) { th[i]->timedout = true; th[i]->status = T_RUN; go(i); return; }
        viol("deadlock", "no thread can make progress");
    }
    if (!exploring || en.size() + sp.size() == 1) {
        if (en.empty() && exploring) {
            if (yielders()) return;
            if (!th[sp[0]]->timed && vpos >= vals.size()) viol("deadlock", "no thread can make progress without a spurious wake-up");
            to_sp(sp[0]); return;
        }
        to(en[0]); return;
    }
    if (en.empty()) {
        if (yielders()) return;
        bool untimed = true; for (int i : sp) if (th[i]->timed) untimed = false;
        if (untimed && vpos >= vals.size()) viol("deadlock", "no thread can make progress without a spurious wake-up");
    }
    uint64_t v = next(); if (v >= en.size() + sp.size()) v = 0;
    if (v < en.size()) to(en[v]); else to_sp(sp[v - en.size()]);
}
static void schedpoint() {
    if (!exploring) return;
    if (th[cur]->skip) { th[cur]->skip = false; return; }
    std::vector<int> en, sp; int n = th.size();
    if (preempt > 0) for (int i = 0; i < n; i++) if (i != cur && enabled(i)) en.push_back(i);
    if (preempt > 0) for (int i = 0; i < n; i++) if (i != cur && th[i]->status == T_COND && (th[i]->timed || spurious > 0)) sp.push_back(i);
    if (en.empty() && sp.empty()) return;
    uint64_t v = next(); if (v > en.size() + sp.size()) v = 0;
    if (v == 0) return;
    preempt--;
    if (v - 1 < en.size()) to(en[v - 1]); else to_sp(sp[v - 1 - en.size()]);
}
static void tmain() {
    Th* t = th[cur]; t->fn(t->a); t->status = T_DONE; reschedule();
    abort();
}
extern "C" {
uint64_t vp_u64(const char*) { return next(); }
uint32_t vp_u32(const char*) { return next(); }
uint16_t vp_u16(const char*) { return next(); }
uint8_t vp_u8(const char*) { return next(); }
bool vp_bool(const char*) { return next() & 1; }
void vp_assume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); die(77); } }
void vp_assert(bool c, const char* m) { if (!c) viol("assert", m); }
void vp_fail(const char* m) { viol("assert", m); }
void vp_kill() { printf("ASSUME-FAILED\n"); die(77); }
uint32_t vp_choose(const char*, uint32_t n) { uint32_t v = next(); return v < n ? v : 0; }
uint64_t vp_concretize(uint64_t v) { return v; }
bool vp_is_symbolic(uint64_t) { return false; }
void vp_reach(const char* t) { printf("REACH %s\n", t); }
void vp_out(const char* n, uint64_t v) { printf("OUT %s %llu\n", n, (unsigned long long)v); }
void vp_note(const char* n, uint64_t v) { printf("NOTE %s = %llu\n", n, (unsigned long long)v); }
void vp_print(const char* n, uint64_t v) { printf("PRINT %s = %llu\n", n, (unsigned long long)v); }
bool vp_native() { return true; }
uint64_t vp_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t vp_thread_create(void (*fn)(void*), void* arg) {
    Th* t = new Th; t->fn = fn; t->a = arg; t->stack = (char*)malloc(1 << 20); getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = 1 << 20; t->ctx.uc_link = nullptr;
    makecontext(&t->ctx, tmain, 0); th.push_back(t); return th.size() - 1;
}
void vp_thread_join(uint64_t t) { if (th[t]->status == T_DONE) return; th[cur]->status = T_JOIN; th[cur]->jt = t; reschedule(); }
uint64_t vp_self() { return cur; }
uint64_t vp_nthreads() { int n = 0; for (auto* t : th) if (t->status != T_DONE) n++; return n; }
void vp_run_others() { th[cur]->status = T_YIELD; reschedule(); }
void vp_yield() { schedpoint(); }
void vp_explore(int p, int s) { preempt = p; spurious = s; exploring = p >= 0; }
void vp_watch(const void* p, size_t n) { watchv.push_back({(char*)p, (char*)p + n}); }
void vp_mem(const void* p, uint64_t n, int sc) {       // inserted before every memory access of the code under test
    if (!exploring) return;
    bool w = sc; for (auto& r : watchv) if ((char*)p < r.second && (char*)p + n > r.first) w = true;
    if (w) schedpoint();
}
void vp_mem2(const void* p, const void* q, uint64_t n) {
    if (!exploring) return;
    bool w = false; for (auto& r : watchv) if (((char*)p < r.second && (char*)p + n > r.first) || ((char*)q < r.second && (char*)q + n > r.first)) w = true;
    if (w) schedpoint();
}
static Mtx& mx(void* m) { return mtx[m]; }
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == 1; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!inited) return 0;
    (void)*(volatile int*)&m->__data.__kind;       // the real function touches the mutex
    schedpoint();
    for (;;) {
        Mtx& x = mx(m);
        if (x.count == 0 && x.readers == 0) { x.owner = cur; x.count = 1; return 0; }
        if (x.owner == cur && x.count > 0) { if (rec(m)) { x.count++; return 0; } viol("deadlock", "a thread locks a non-recursive mutex it already holds"); }
        th[cur]->status = T_MUTEX; th[cur]->on = m; reschedule();
    }
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!inited) return 0;
    (void)*(volatile int*)&m->__data.__kind;       // the real function touches the mutex
    schedpoint(); Mtx& x = mx(m);
    if (x.count == 0 && x.readers == 0) { x.owner = cur; x.count = 1; return 0; }
    if (x.owner == cur && x.count && rec(m)) { x.count++; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!inited) return 0;
    (void)*(volatile int*)&m->__data.__kind;       // the real function touches the mutex
    Mtx& x = mx(m);
    if (x.count == 0 || x.owner != cur) viol("thread", "unlock of a mutex the thread does not hold");
    if (--x.count) return 0;
    mtx.erase(m); bool sk = th[cur]->skip; th[cur]->skip = false; schedpoint(); th[cur]->skip = sk; return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!inited) return 0;
    schedpoint();
    for (;;) { Mtx& x = mx(m); if (x.count == 0) { x.readers++; return 0; } if (x.owner == cur) viol("deadlock", "a thread read-locks a rwlock it holds for writing"); th[cur]->status = T_RW; th[cur]->on = m; reschedule(); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!inited) return 0;
    schedpoint();
    for (;;) { Mtx& x = mx(m); if (x.count == 0 && x.readers == 0) { x.owner = cur; x.count = 1; return 0; } if (x.owner == cur && x.count) viol("deadlock", "a thread locks a non-recursive mutex it already holds"); th[cur]->status = T_MUTEX; th[cur]->on = m; reschedule(); }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!inited) return 0; Mtx& x = mx(m); if (x.count) { x.count = 0; x.owner = -1; } else if (x.readers) x.readers--; if (!x.count && !x.readers) mtx.erase(m); return 0; }
static int cwait(void* cv, void* m, bool timed) {
    schedpoint(); Mtx& x = mx(m); Th* t = th[cur];
    if (!x.count || x.owner != cur) viol("thread", "condition wait without holding the mutex");
    int64_t cnt = x.count; mtx.erase(m); t->status = T_COND; t->on = cv; t->timed = timed; t->timedout = false; reschedule();
    for (;;) { Mtx& y = mx(m); if (y.count == 0 && y.readers == 0) { y.owner = cur; y.count = cnt; t->timed = false; return t->timedout; } t->status = T_MUTEX; t->on = m; reschedule(); }
}
void vp_cond_wait(void* cv, void* m) { cwait(cv, m, false); }
int vp_cond_timedwait(void* cv, void* m) { return cwait(cv, m, true); }
void vp_cond_notify(void* cv, int all) {
    schedpoint(); std::vector<int> w; for (int i = 0; i < (int)th.size(); i++) if (th[i]->status == T_COND && th[i]->on == cv) w.push_back(i);
    if (w.empty()) return;
    if (all) { for (int i : w) th[i]->status = T_RUN; return; }
    if (w.size() == 1 || !exploring) { th[w[0]]->status = T_RUN; return; }
    uint64_t v = next(); if (v >= w.size()) v = 0; th[w[v]]->status = T_RUN;
}
int vp_cond_waiters(void* cv) { int n = 0; for (auto* t : th) if (t->status == T_COND && t->on == cv) n++; return n; }
bool vp_lock_held(void* m) { auto it = mtx.find(m); return it != mtx.end() && it->second.count && it->second.owner == cur; }

// files: a private scratch directory
const char* vp_scratch() { return scratch.c_str(); }
void vp_fs_reset() {
    DIR* d = opendir(scratch.c_str()); if (!d) return;
    while (dirent* e = readdir(d)) { if (e->d_name[0] == '.') continue; syscall(SYS_unlink, (scratch + "/" + e->d_name).c_str()); }
    closedir(d);
}
long vp_fs_size(const char* p) { struct stat s; return stat(p, &s) ? -1 : s.st_size; }
typedef FILE* (*fopen_t)(const char*, const char*);
void vp_fs_corrupt(const char* p, long off, uint8_t v) { static fopen_t f = (fopen_t)dlsym(RTLD_NEXT, "fopen"); FILE* x = f(p, "r+"); if (!x) return; fseek(x, off, SEEK_SET); fputc(v, x); fclose(x); }
static std::map<std::string, std::string> kept; static bool have_kept;
static bool ours(const char* p) { return inited && !scratch.empty() && strncmp(p, scratch.c_str(), scratch.size()) == 0; }
static bool file_exists(const char* p) { struct stat s; return stat(p, &s) == 0; }
static void mutate() {
    if (vp_fs_crash_at < 0 || vp_fs_crash_at-- > 0) return;
    static fopen_t f = (fopen_t)dlsym(RTLD_NEXT, "fopen"); kept.clear(); have_kept = true; DIR* d = opendir(scratch.c_str());
    while (dirent* e = readdir(d)) { if (e->d_name[0] == '.') continue; FILE* x = f((scratch + "/" + e->d_name).c_str(), "r"); std::string& b = kept[e->d_name]; int c; while ((c = fgetc(x)) != EOF) b.push_back((char)c); fclose(x); }
    closedir(d);
}
bool vp_fs_crash() {
    vp_fs_crash_at = -1; if (!have_kept) return false; have_kept = false; vp_fs_reset(); static fopen_t f = (fopen_t)dlsym(RTLD_NEXT, "fopen");
    for (auto& k : kept) { FILE* x = f((scratch + "/" + k.first).c_str(), "w"); for (char c : k.second) fputc(c, x); fclose(x); } return true;
}
static bool failop() { return vp_fs_fail_op >= 0 && vp_fs_fail_op-- == 0; }
int truncate64(const char* p, off64_t n) { if (ours(p)) { if (failop()) { errno = EIO; return -1; } if (file_exists(p)) mutate(); } typedef int (*fn)(const char*, off64_t); return ((fn)dlsym(RTLD_NEXT, "truncate64"))(p, n); }
int remove(const char* p) { if (ours(p)) { if (failop()) { errno = EIO; return -1; } if (file_exists(p)) mutate(); } typedef int (*fn)(const char*); return ((fn)dlsym(RTLD_NEXT, "remove"))(p); }
int rename(const char* p, const char* q) { if (ours(p)) { if (failop()) { errno = EIO; return -1; } if (file_exists(p)) mutate(); } typedef int (*fn)(const char*, const char*); return ((fn)dlsym(RTLD_NEXT, "rename"))(p, q); }
int unlink(const char* p) { if (inited && ours(p)) { if (failop()) { errno = EIO; return -1; } if (file_exists(p)) mutate(); } typedef int (*fn)(const char*); return ((fn)dlsym(RTLD_NEXT, "unlink"))(p); }
ssize_t write(int fd, const void* b, size_t n) { if (inited && fd > 2 && n) mutate(); typedef ssize_t (*fn)(int, const void*, size_t); return ((fn)dlsym(RTLD_NEXT, "write"))(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { if (inited && fd > 2) mutate(); typedef ssize_t (*fn)(int, const struct iovec*, int); return ((fn)dlsym(RTLD_NEXT, "writev"))(fd, v, c); }
static FILE* my_open(const char* sym, const char* p, const char* m) {
    fopen_t f = (fopen_t)dlsym(RTLD_NEXT, sym);
    if (ours(p) && !(vp_fs_fail_at == 0) && (m[0] == 'w' || (m[0] == 'a' && !file_exists(p)))) mutate();
    if (inited) { vp_fs_opens++; if (vp_fs_fail_at >= 0 && vp_fs_fail_at-- == 0) { errno = EACCES; return nullptr; } }
    return f(p, m);
}
FILE* fopen64(const char* p, const char* m) { return my_open("fopen64", p, m); }
FILE* fopen(const char* p, const char* m) { return my_open("fopen", p, m); }
}
namespace std {
random_device::result_type random_device::_M_getval() { return vp_random_value; }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vp_clock_ns)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_clock_ns)); }
} }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { vp_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { vp_cond_notify(this, 0); }
void condition_variable::notify_all() noexcept { vp_cond_notify(this, 1); }
static void tramp(void* p) { thread::_State* st = (thread::_State*)p; st->_M_run(); delete st; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { uint64_t t = vp_thread_create(&tramp, s.release()); *(uint64_t*)(void*)&_M_id = t + 100; }
void thread::join() { vp_thread_join(*(uint64_t*)(void*)&_M_id - 100); *(uint64_t*)(void*)&_M_id = 0; }
void thread::detach() { *(uint64_t*)(void*)&_M_id = 0; }
unsigned thread::hardware_concurrency() noexcept { return 2; }
}
static void onterm() { printf("NATIVE-VIOLATION terminate: std::terminate called"); if (std::current_exception()) printf(" (exception in flight)"); printf("\n"); die(10); }
static void onsig(int s) { printf("NATIVE-VIOLATION memory: signal %d\n", s); die(10); }
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
#ifndef ASAN
    struct sigaction sa = {}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
#endif
    signal(SIGALRM, [](int) { printf("NATIVE-TIMEOUT\n"); die(78); }); alarm(60);
    std::set_terminate(onterm);
    if (FILE* f = ((fopen_t)dlsym(RTLD_NEXT, "fopen"))(argv[2], "r")) { unsigned long long v; while (fscanf(f, "%llu", &v) == 1) vals.push_back(v); fclose(f); }
    const char* td = getenv("TMPDIR"); std::string tmpl = std::string(td ? td : "/tmp") + "/vpXXXXXX"; std::vector<char> b(tmpl.begin(), tmpl.end()); b.push_back(0); if (char* d = mkdtemp(b.data())) scratch = d;
    if (auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1])) {
        th.push_back(new Th); cur = 0; inited = true; f(); exploring = false; printf("DONE %zu/%zu\n", vpos, vals.size()); die(0);
    }
    printf("no such entry\n"); die(3);
}
