// Run-time shim linked (as bitcode) into every symbolic module: the parts of libstdc++/libc that live in shared objects.
// Template code (std::string, iostreams, containers) is the real libstdc++ code, instantiated below.
#include "vp.h"
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>

extern "C" void* vp_malloc(size_t);
extern "C" void vp_free(void*);

// ---------------------------------------------------------------- allocation
void* operator new(size_t n) { void* p = vp_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vp_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vp_malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vp_malloc(n); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, size_t) noexcept { vp_free(p); }
void operator delete[](void* p, size_t) noexcept { vp_free(p); }
namespace std { const nothrow_t nothrow{}; }

// ---------------------------------------------------------------- C strings
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int vsnprintf(char* b, size_t n, const char*, va_list) { if (n) b[0] = 0; return 0; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
time_t time(time_t* t) { time_t v = (time_t)(vp_clock_ns / 1000000000ull); if (t) *t = v; return v; }
int pthread_once(int* c, void (*f)()) { while (*c == 1) vp_yield(); if (*c == 0) { *c = 1; f(); *c = 2; } return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
void* vp_current_exception(); void vp_rethrow_exception(void*);
int printf(const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
char __libc_single_threaded = 0;
int* __errno_location() { static int e; return &e; }
void* __dso_handle = nullptr;
int __cxa_guard_acquire(uint64_t* g) { return *(char*)g == 0; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}
long syscall(long, ...) { return 0; }
int usleep(unsigned) { return 0; }
int nanosleep(const struct timespec*, struct timespec*) { return 0; }
int clock_nanosleep(int, int, const struct timespec*, struct timespec*) { return 0; }
}

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
namespace __exception_ptr { exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) {} void exception_ptr::_M_addref() noexcept {} void exception_ptr::_M_release() noexcept { _M_exception_object = nullptr; } void* exception_ptr::_M_get() const noexcept { return _M_exception_object; } }
exception_ptr current_exception() noexcept { return exception_ptr(vp_current_exception()); }
void rethrow_exception(exception_ptr p) { vp_rethrow_exception(p._M_get()); __builtin_unreachable(); }
nested_exception::~nested_exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char* dupmsg(const char* s, size_t n) { char* p = (char*)vp_malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupmsg("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupmsg(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupmsg(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupmsg(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* n = dupmsg(o._M_p, strlen(o._M_p)); vp_free((void*)_M_p); _M_p = n; return *this; }
__cow_string::~__cow_string() { vp_free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupmsg("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define EXC_ROOT(N) N::N(const char* s) : _M_msg(s, strlen(s)) {} N::N(const std::string& s) : _M_msg(s) {} N::N(const N& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    N& N::operator=(const N& o) noexcept { _M_msg = o._M_msg; return *this; } N::~N() noexcept {} const char* N::what() const noexcept { return _M_msg._M_p; } \
    N::N(N&& o) noexcept : exception(o), _M_msg(o._M_msg) {} N& N::operator=(N&& o) noexcept { _M_msg = o._M_msg; return *this; }
EXC_ROOT(logic_error)
EXC_ROOT(runtime_error)
#define EXC_L(N, B) N::N(const char* s) : B(s) {} N::N(const std::string& s) : B(s) {} N::~N() noexcept {}
EXC_L(domain_error, logic_error) EXC_L(invalid_argument, logic_error) EXC_L(length_error, logic_error) EXC_L(out_of_range, logic_error)
EXC_L(range_error, runtime_error) EXC_L(overflow_error, runtime_error) EXC_L(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("", 0); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
namespace { struct vcat : error_category { const char* n; vcat(const char* s) : n(s) {} const char* name() const noexcept override { return n; } std::string message(int) const override { return n; } };
    vcat c_sys("system"), c_gen("generic"), c_ios("iostream"); }
namespace _V2 {
const error_category& system_category() noexcept { return c_sys; }
const error_category& generic_category() noexcept { return c_gen; }
}
const error_category& iostream_category() noexcept { return c_ios; }
ios_base::failure::failure(const std::string& s) : system_error(io_errc::stream, s) {}
ios_base::failure::failure(const std::string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const throw() { return runtime_error::what(); }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(std::string(s)); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(std::string(s)); }

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
    static const std::size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
    for (std::size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n | 1; return n | 1;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
    if (ne + ni > _M_next_resize) {
        std::size_t want = std::max<std::size_t>(ne + ni, _M_next_resize ? 0 : 11);
        if (want >= nb) return {true, _M_next_bkt(std::max<std::size_t>(want + 1, nb * 2))};
        _M_next_resize = nb; return {false, 0};
    }
    return {false, 0};
}
}
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
// ordered but unbalanced: the trees in these harnesses are tiny. All real nodes are black, the header is red.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) { h._M_left = h._M_right = &h; }
    else { _Rb_tree_node_base* m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m; m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m; }
    return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// ---------------------------------------------------------------- environment: random, clocks, threads
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return vp_random_value; }
random_device::result_type random_device::_M_getval_pretr1() { return vp_random_value; }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vp_clock_ns)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_clock_ns)); }
} }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { vp_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { vp_cond_notify(this, 0); }
void condition_variable::notify_all() noexcept { vp_cond_notify(this, 1); }
thread::_State::~_State() {}
static void tramp(void* p) { thread::_State* st = (thread::_State*)p; st->_M_run(); delete st; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { uint64_t t = vp_thread_create(&tramp, s.release()); *(uint64_t*)(void*)&_M_id = t + 100; }
void thread::join() { vp_thread_join(*(uint64_t*)(void*)&_M_id - 100); *(uint64_t*)(void*)&_M_id = 0; }
void thread::detach() { *(uint64_t*)(void*)&_M_id = 0; }
unsigned thread::hardware_concurrency() noexcept { return 2; }

// ---------------------------------------------------------------- iostreams
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
bool ios_base::sync_with_stdio(bool) { return true; }
locale::facet::~facet() {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
locale::id codecvt<char, char, mbstate_t>::id;
locale::id ctype<char>::id;
size_t locale::id::_M_id() const throw() { return this == &std::ctype<char>::id ? 1 : this == &codecvt<char, char, mbstate_t>::id ? 2 : 5; }
namespace {
// same vtable layout as codecvt<char,char,mbstate_t>: an identity conversion
typedef __codecvt_abstract_base<char, char, mbstate_t> cvb;
struct vcodecvt : cvb { vcodecvt() : cvb(1) {} ~vcodecvt() {}
    result do_out(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const override { fn = f; tn = t; return noconv; }
    result do_unshift(mbstate_t&, char* t, char*, char*& tn) const override { tn = t; return noconv; }
    result do_in(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const override { fn = f; tn = t; return noconv; }
    int do_encoding() const throw() override { return 1; }
    bool do_always_noconv() const throw() override { return true; }
    int do_length(mbstate_t&, const char* f, const char* e, size_t m) const override { return std::min<size_t>(m, e - f); }
    int do_max_length() const throw() override { return 1; } };
struct fake_impl { int rc; const void** facets; size_t n; const void** caches; char** names; };
alignas(16) char cc_mem[sizeof(vcodecvt)];
alignas(16) char ct_mem[1024]; ctype_base::mask ct_tab[256];
const void* facet_tab[8]; const void* cache_tab[8];
fake_impl the_impl = {1, facet_tab, 8, cache_tab, nullptr};
void init_locale() { if (!facet_tab[2]) { facet_tab[2] = new (cc_mem) vcodecvt(); facet_tab[1] = ct_mem; ctype<char>* c = (ctype<char>*)ct_mem; c->_M_widen_ok = 1; c->_M_narrow_ok = 1; for (int i = 0; i < 256; i++) { c->_M_widen[i] = c->_M_narrow[i] = (char)i; ct_tab[i] = (isspace(i) ? ctype_base::space : 0) | (isdigit(i) ? ctype_base::digit : 0) | (isalpha(i) ? ctype_base::alpha : 0) | (i >= 32 && i < 127 ? ctype_base::print : 0); } c->_M_table = ct_tab; } }
}
locale::locale() throw() : _M_impl((_Impl*)&the_impl) { init_locale(); }
const locale& locale::classic() { static locale l; return l; }

static ostream& putnum(ostream& o, uint64_t v, bool neg) {
    ostream::sentry g(o); if (!g) return o;
    char b[72]; int n = 0; auto f = o.flags(); unsigned base = f & ios_base::hex ? 16 : f & ios_base::oct ? 8 : 10;
    if (vp_is_symbolic(v)) b[n++] = '?';                       // only log messages are formatted
    else { do { unsigned d = v % base; b[n++] = d < 10 ? '0' + d : (f & ios_base::uppercase ? 'A' : 'a') + d - 10; v /= base; } while (v); if (f & ios_base::showbase) { if (base == 16) { b[n++] = 'x'; b[n++] = '0'; } else if (base == 8) b[n++] = '0'; } }
    if (neg) b[n++] = '-'; else if ((f & ios_base::showpos) && base == 10) b[n++] = '+';
    long pad = o.width() > n ? o.width() - n : 0; o.width(0); bool left = f & ios_base::left;
    if (!left) while (pad-- > 0) o.rdbuf()->sputc(o.fill());
    while (n) o.rdbuf()->sputc(b[--n]);
    if (left) while (pad-- > 0) o.rdbuf()->sputc(o.fill());
    return o;
}
#define SDEC(o, v) (((o).flags() & (ios_base::hex | ios_base::oct)) ? putnum(o, (uint64_t)(v), false) : vp_is_symbolic(v) ? putnum(o, v, false) : (v) < 0 ? putnum(o, 0 - (uint64_t)(v), true) : putnum(o, v, false))
ostream& ins_l(ostream* self, long v) asm("_ZNSo9_M_insertIlEERSoT_");
ostream& ins_l(ostream* self, long v) { return SDEC(*self, v); }
ostream& ins_x(ostream* self, long long v) asm("_ZNSo9_M_insertIxEERSoT_");
ostream& ins_x(ostream* self, long long v) { return SDEC(*self, v); }
ostream& ins_m(ostream* self, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_");
ostream& ins_m(ostream* self, unsigned long v) { return putnum(*self, v, false); }
ostream& ins_y(ostream* self, unsigned long long v) asm("_ZNSo9_M_insertIyEERSoT_");
ostream& ins_y(ostream* self, unsigned long long v) { return putnum(*self, v, false); }
ostream& ins_b(ostream* self, bool v) asm("_ZNSo9_M_insertIbEERSoT_");
ostream& ins_b(ostream* self, bool v) { if (self->flags() & ios_base::boolalpha) return *self << (v ? "true" : "false"); return putnum(*self, v, false); }
ostream& ins_PKv(ostream* self, const void* v) asm("_ZNSo9_M_insertIPKvEERSoT_");
ostream& ins_PKv(ostream* self, const void* v) { auto f = self->flags(); self->setf(ios_base::hex, ios_base::basefield); self->setf(ios_base::showbase); putnum(*self, (uint64_t)v, false); self->flags(f); return *self; }
ostream& ins_d(ostream* self, double v) asm("_ZNSo9_M_insertIdEERSoT_");
ostream& ins_d(ostream* self, double v) { char b[64]; snprintf(b, 64, "%g", v); return *self << b; }
template <typename T> static istream& getnum(istream& i, T& v) {
    istream::sentry g(i); if (!g) return i; char b[32]; int n = 0; int c = i.rdbuf()->sgetc();
    while (c != -1 && n < 30 && (isdigit(c) || (n == 0 && (c == '-' || c == '+')))) { b[n++] = (char)c; c = i.rdbuf()->snextc(); }
    b[n] = 0; if (c == -1) i.setstate(ios_base::eofbit); if (!n) { v = 0; i.setstate(ios_base::failbit); } else v = (T)strtoull(b, nullptr, 10); return i;
}
istream& ext_l(istream* self, long& v) asm("_ZNSi10_M_extractIlEERSiRT_");
istream& ext_l(istream* self, long& v) { return getnum(*self, v); }
istream& ext_x(istream* self, long long& v) asm("_ZNSi10_M_extractIxEERSiRT_");
istream& ext_x(istream* self, long long& v) { return getnum(*self, v); }
istream& ext_m(istream* self, unsigned long& v) asm("_ZNSi10_M_extractImEERSiRT_");
istream& ext_m(istream* self, unsigned long& v) { return getnum(*self, v); }
istream& ext_y(istream* self, unsigned long long& v) asm("_ZNSi10_M_extractIyEERSiRT_");
istream& ext_y(istream* self, unsigned long long& v) { return getnum(*self, v); }
istream& ext_j(istream* self, unsigned int& v) asm("_ZNSi10_M_extractIjEERSiRT_");
istream& ext_j(istream* self, unsigned int& v) { return getnum(*self, v); }
istream& ext_t(istream* self, unsigned short& v) asm("_ZNSi10_M_extractItEERSiRT_");
istream& ext_t(istream* self, unsigned short& v) { return getnum(*self, v); }
istream& ext_b(istream* self, bool& v) asm("_ZNSi10_M_extractIbEERSiRT_");
istream& ext_b(istream* self, bool& v) { return getnum(*self, v); }
template class basic_string<char>;
template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template <> istream& operator>>(istream& i, string& s) {
    istream::sentry g(i); if (!g) return i; s.clear(); long w = i.width() > 0 ? i.width() : 1l << 30, n = 0; int c = i.rdbuf()->sgetc();
    while (n < w && c != -1 && !isspace(c)) { s.push_back((char)c); n++; c = i.rdbuf()->snextc(); }
    i.width(0); if (c == -1) i.setstate(ios_base::eofbit); if (!n) i.setstate(ios_base::failbit); return i;
}
template <> istream& getline(istream& i, string& s, char d) {
    istream::sentry g(i, true); if (!g) return i; s.clear(); long n = 0; int c = i.rdbuf()->sgetc();
    while (c != -1 && (char)c != d) { s.push_back((char)c); n++; c = i.rdbuf()->snextc(); }
    if (c == -1) { i.setstate(ios_base::eofbit); if (!n) i.setstate(ios_base::failbit); } else i.rdbuf()->sbumpc(); return i;
}
template <> istream& istream::ignore(streamsize k, int_type d) {
    _M_gcount = 0; sentry g(*this, true); if (!g) return *this;
    while (_M_gcount < k) { int c = rdbuf()->sbumpc(); if (c == -1) { setstate(ios_base::eofbit); break; } _M_gcount++; if (d != -1 && c == d) break; }
    return *this;
}
template <> istream& istream::ignore(streamsize k) { return ignore(k, -1); }
_Sp_locker::_Sp_locker(const void*) noexcept {} _Sp_locker::_Sp_locker(const void*, const void*) noexcept {} _Sp_locker::~_Sp_locker() {}
template istream& ws(istream&);
template <> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof) {
    streamsize n = 0; eof = true;
    for (int c = in->sgetc(); c != -1; c = in->snextc()) { if (out->sputc((char)c) == -1) { eof = false; break; } n++; }
    return n;
}
}

// ---------------------------------------------------------------- in-memory file system behind std::__basic_file<char>
struct vfile { char name[64]; char* data; long size, cap; bool exists; };
struct vhandle { int file; long pos; bool rd, wr, app; };
static vfile files[16]; static int nfiles; static vfile kept[16]; static int nkept = -1;
extern "C" { int vp_fs_crash_at = -1; int vp_fs_fail_op = -1; int vp_fs_fail_at = -1; int vp_fs_opens; uint64_t vp_clock_ns = 1000000000ull; uint32_t vp_random_value = 12345; }
static int vfind(const char* n, bool create) {
    for (int i = 0; i < nfiles; i++) if (strcmp(files[i].name, n) == 0) return i;
    if (!create) return -1;
    vfile& f = files[nfiles]; strncpy(f.name, n, 63); f.data = nullptr; f.size = f.cap = 0; f.exists = false; return nfiles++;
}
static void vgrow(vfile& f, long n) {
    if (n > f.cap) { long c = n < 256 ? 256 : n * 2; char* p = (char*)vp_malloc(c); memset(p, 0, c); if (f.size) memcpy(p, f.data, f.size); if (f.data) vp_free(f.data); f.data = p; f.cap = c; }
}
static void mutate() {
    if (vp_fs_crash_at < 0 || vp_fs_crash_at-- > 0) return;
    nkept = nfiles; for (int i = 0; i < nfiles; i++) { kept[i] = files[i]; kept[i].cap = files[i].size + 1; kept[i].data = (char*)vp_malloc(kept[i].cap); if (files[i].size) memcpy(kept[i].data, files[i].data, files[i].size); }
}
extern "C" {
bool vp_fs_crash() { vp_fs_crash_at = -1; if (nkept < 0) return false; nfiles = nkept; for (int i = 0; i < nfiles; i++) files[i] = kept[i]; nkept = -1; return true; }
const char* vp_scratch() { return "/vp"; }
void vp_fs_reset() { nfiles = 0; }
long vp_fs_size(const char* p) { int i = vfind(p, false); return i < 0 || !files[i].exists ? -1 : files[i].size; }
void vp_fs_corrupt(const char* p, long off, uint8_t v) { int i = vfind(p, false); if (i >= 0 && off < files[i].size) files[i].data[off] = v; }
static bool failop() { return vp_fs_fail_op >= 0 && vp_fs_fail_op-- == 0; }
int truncate64(const char* p, int64_t len) {
    if (failop()) return -1;
    int i = vfind(p, false); if (i < 0 || !files[i].exists) return -1;
    mutate(); vfile& f = files[i]; if (len > f.size) { vgrow(f, len); memset(f.data + f.size, 0, len - f.size); } else if (len < f.size) memset(f.data + len, 0, f.size - len);
    f.size = len; return 0;
}
int truncate(const char* p, int64_t len) { return truncate64(p, len); }
int remove(const char* p) { if (failop()) return -1; int i = vfind(p, false); if (i < 0 || !files[i].exists) return -1; mutate(); files[i].exists = false; files[i].size = 0; return 0; }
int unlink(const char* p) { return remove(p); }
int rename(const char* a, const char* b) {
    if (failop()) return -1;
    int i = vfind(a, false); if (i < 0 || !files[i].exists) return -1; mutate(); int j = vfind(b, true);
    vgrow(files[j], files[i].size + 1); if (files[i].size) memcpy(files[j].data, files[i].data, files[i].size); files[j].size = files[i].size; files[j].exists = true; files[i].exists = false; files[i].size = 0; return 0;
}
}
namespace std {
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
int __basic_file<char>::fd() throw() { return 3; }
__basic_file<char>* __basic_file<char>::open(const char* name, ios_base::openmode m, int) {
    if (is_open()) return nullptr;
    bool in = m & ios_base::in, out = m & ios_base::out, tr = m & ios_base::trunc, app = m & ios_base::app;
    // libstdc++'s fopen mode table: combinations outside it fail
    const char* mode = !in && out && !tr && !app ? "w" : !in && !tr && app ? "a" : !in && out && tr && !app ? "w" : in && !out && !tr && !app ? "r" : in && out && !tr && !app ? "r+" : in && out && tr && !app ? "w+" : in && !tr && app ? "a+" : nullptr;
    if (!mode) return nullptr;
    vp_fs_opens++;
    if (vp_fs_fail_at >= 0 && vp_fs_fail_at-- == 0) return nullptr;
    int i = vfind(name, mode[0] != 'r');
    if (i < 0 || (mode[0] == 'r' && !files[i].exists)) return nullptr;
    vfile& f = files[i];
    if (!f.exists || mode[0] == 'w') mutate();
    if (!f.exists) { f.exists = true; f.size = 0; }
    if (mode[0] == 'w') f.size = 0;
    vhandle* h = (vhandle*)vp_malloc(sizeof(vhandle)); h->file = i; h->pos = 0; h->rd = in || mode[1] == '+'; h->wr = out || app; h->app = app;
    _M_cfile = (__c_file*)h; _M_cfile_created = true;
    return this;
}
__basic_file<char>* __basic_file<char>::close() { if (!is_open()) return nullptr; vp_free(_M_cfile); _M_cfile = nullptr; return this; }
static streamsize putn(void* cf, const char* s, streamsize n, bool count) {
    vhandle* h = (vhandle*)cf; if (!h || !h->wr) return -1; vfile& f = files[h->file]; if (count) mutate();
    if (h->app) h->pos = f.size;
    vgrow(f, h->pos + n + 1); if (h->pos > f.size) memset(f.data + f.size, 0, h->pos - f.size);
    if (n) memcpy(f.data + h->pos, s, n);
    h->pos += n; if (h->pos > f.size) f.size = h->pos; return n;
}
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize m) { streamsize r = putn(_M_cfile, a, n, true); if (r < 0) return r; return r + putn(_M_cfile, b, m, false); }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n) { return putn(_M_cfile, s, n, n > 0); }
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) {
    vhandle* h = (vhandle*)_M_cfile; if (!h || !h->rd) return -1; vfile& f = files[h->file];
    long k = f.size - h->pos; if (k <= 0) return 0; if (k > n) k = n; memcpy(s, f.data + h->pos, k); h->pos += k; return k;
}
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() {
    vhandle* h = (vhandle*)_M_cfile; if (!h) return -1; long b = w == ios_base::beg ? 0 : w == ios_base::cur ? h->pos : files[h->file].size;
    if (b + o < 0) return -1; h->pos = b + o; return h->pos;
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { vhandle* h = (vhandle*)_M_cfile; if (!h) return 0; long k = files[h->file].size - h->pos; return k > 0 ? k : 0; }
}

// calendar time (UTC)
#include <time.h>
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* r) {
    long long s = *t, d = s / 86400, q = s % 86400; if (q < 0) { q += 86400; d--; }
    long long z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    r->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1); r->tm_mon = (int)(mp < 10 ? mp + 2 : mp - 10); r->tm_year = (int)(y + (r->tm_mon <= 1) - 1900); r->tm_hour = (int)(q / 3600); r->tm_min = (int)(q / 60 % 60); r->tm_sec = (int)(q % 60); r->tm_wday = (int)(((d % 7) + 11) % 7); r->tm_yday = 0; r->tm_isdst = 0; return r;
}
extern "C" struct tm* gmtime(const time_t* t) { static struct tm r; return gmtime_r(t, &r); }
extern "C" struct tm* localtime(const time_t* t) { return gmtime(t); }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* r) { return gmtime_r(t, r); }
