// Language and library features an edit of the code might start to use: every one must be executable by the engine.
#include "vp.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <any>
#include <cassert>
#include <cinttypes>
#define A(...) vp_assert((bool)(__VA_ARGS__), #__VA_ARGS__)
HARNESS(p_map) { std::map<int,int> m; for (int i = 0; i < 20; i++) m[(i * 7) % 20] = i; int k = 0; for (auto& p : m) A(p.first == k++); m.erase(5); A(m.find(5) == m.end()); A(m.lower_bound(5)->first == 6); A(m.upper_bound(7)->first == 8);
    auto it = m.begin(); while (it != m.end()) if (it->first % 2) it = m.erase(it); else ++it; A(m.rbegin()->first == 18); std::map<int,int> c = m; A(c == m); c.clear(); A(c.emplace(1, 2).second); m.insert_or_assign(2, 3); A(m.at(2) == 3); c.try_emplace(4, 5); A(m.count(4) == 1); }
HARNESS(p_set) { std::set<std::string> s; s.insert("b"); s.insert("a"); s.insert("b"); A(s.size() == 2); A(*s.begin() == "a"); std::multiset<uint64_t> m{3, 1, 2, 2}; A(m.count(2) == 2); std::multimap<int,int> mm; mm.emplace(1, 2); mm.emplace(1, 3); auto r = mm.equal_range(1); A(std::distance(r.first, r.second) == 2); }
HARNESS(p_uset) { std::unordered_set<int> s; for (int i = 0; i < 40; i++) s.insert(i * 3); A(s.count(9)); A(!s.count(10)); s.erase(9); std::unordered_map<std::string, int> m; m["x"] = 1; m["y"] = 2; A(m.size() == 2); A(m["x"] == 1); for (auto it = m.begin(); it != m.end();) it = m.erase(it); std::unordered_map<int32_t, std::shared_ptr<int>> q; q.reserve(10); q.emplace(3, std::make_shared<int>(4)); A(*q.at(3) == 4); }
HARNESS(p_alg) { std::vector<uint64_t> v{5, 3, 9, 1, 7}; std::sort(v.begin(), v.end()); A(std::is_sorted(v.begin(), v.end())); std::sort(v.begin(), v.end(), std::greater<uint64_t>()); A(v[0] == 9); std::stable_sort(v.begin(), v.end()); A(v[0] == 1);
    std::nth_element(v.begin(), v.begin() + 2, v.end()); A(v[2] == 5); std::partial_sort(v.begin(), v.begin() + 2, v.end(), std::greater<>()); A(v[0] == 9); A(std::any_of(v.begin(), v.end(), [](uint64_t x) { return x == 3; })); A(std::all_of(v.begin(), v.end(), [](uint64_t x) { return x > 0; })); A(std::none_of(v.begin(), v.end(), [](uint64_t x) { return x > 10; }));
    A(std::count_if(v.begin(), v.end(), [](uint64_t x) { return x > 4; }) == 3); A(std::accumulate(v.begin(), v.end(), 0ull) == 25); std::reverse(v.begin(), v.end()); v.erase(std::remove_if(v.begin(), v.end(), [](uint64_t x) { return x == 7; }), v.end()); A(v.size() == 4); A(*std::max_element(v.begin(), v.end()) == 9); A(*std::min_element(v.begin(), v.end()) == 1);
    std::vector<uint64_t> w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](uint64_t x) { return x > 3; }); std::transform(w.begin(), w.end(), w.begin(), [](uint64_t x) { return x + 1; }); std::rotate(v.begin(), v.begin() + 1, v.end()); std::fill(w.begin(), w.end(), 3); std::fill_n(w.begin(), 1, 4); std::iota(w.begin(), w.end(), 1); A(w[0] == 1); A(std::find(v.begin(), v.end(), 42) == v.end()); std::for_each(w.begin(), w.end(), [](uint64_t& x) { x++; }); std::swap(v, w);
    std::inplace_merge(v.begin(), v.begin() + 1, v.end()); A(std::lower_bound(v.begin(), v.end(), 2) == v.begin()); A(std::binary_search(v.begin(), v.end(), 2)); A(std::equal(v.begin(), v.end(), v.begin())); auto mm = std::minmax(3, 4); A(mm.second == 4); A(std::clamp(5, 1, 3) == 3); std::make_heap(v.begin(), v.end()); std::pop_heap(v.begin(), v.end()); A(std::unique(v.begin(), v.end()) == v.end()); A(std::adjacent_find(v.begin(), v.end()) == v.end()); std::partition(v.begin(), v.end(), [](uint64_t x) { return x > 2; }); std::vector<std::pair<int,int>> pp{{1, 2}, {0, 3}}; std::sort(pp.begin(), pp.end()); A(pp[0].first == 0); auto mi = std::mismatch(v.begin(), v.end(), v.begin()); A(mi.first == v.end()); }
HARNESS(p_symalg) { uint64_t a[4]; for (auto& x : a) x = vp_range("x", 0, 3); std::vector<uint64_t> v(a, a + 4); std::sort(v.begin(), v.end(), std::greater<uint64_t>()); A(v[0] >= v[1] && v[1] >= v[2] && v[2] >= v[3]); std::nth_element(v.begin(), v.begin() + 1, v.end()); A(v[0] <= v[1] && v[1] <= v[2]); }
HARNESS(p_str) { std::string s = std::to_string(12345); A(s == "12345"); A(std::to_string(-7) == "-7"); A(std::to_string(18446744073709551615ull) == "18446744073709551615"); A(std::stoi("42") == 42); A(std::stoull("123") == 123); A(std::stol("-5") == -5); s += "abc"; s.append(3, 'x'); s.insert(0, "zz"); A(s.find("abc") == 7); A(s.rfind('x') == 12); A(s.substr(2, 3) == "123"); A(s.compare(0, 2, "zz") == 0); s.erase(0, 2); s.replace(0, 2, "QQQ"); s.push_back('!'); s.pop_back(); s.resize(3); A(s == "QQQ"); std::string_view v(s); A(v.substr(1) == "QQ"); A(v.find('Q') == 0); s.assign("hello"); A(s.find_first_of("lo") == 2); A(s.find_last_of("l") == 3); A(s.find_first_not_of("he") == 2); s.reserve(100); s.shrink_to_fit(); A(!s.empty() && s.front() == 'h' && s.back() == 'o'); std::string t = s + "x" + std::string(2, 'c'); t.swap(s); A(t < s); A(s.at(0) == 'h'); bool th = false; try { s.at(100); } catch (std::out_of_range& e) { th = true; } A(th); A(std::strcmp("a", "b") < 0); A(std::strchr("abc", 'b')); A(std::strstr("abc", "bc")); A(std::atoi("12") == 12); A(std::strtoul("77", nullptr, 10) == 77); A(std::strtol("ff", nullptr, 16) == 255); A(std::memchr("abc", 'c', 3)); A(strrchr("aba", 'a')); A(strnlen("abc", 2) == 2); }
HARNESS(p_sstream) { std::ostringstream o; o << "a" << 12 << ' ' << 3ull << -4 << "\n" << true << std::endl; A(o.str() == "a12 3-4\n1\n"); std::stringstream s; s << std::hex << 255 << std::dec << std::setw(5) << std::setfill('0') << 7; A(s.str() == "ff00007"); std::istringstream i("12 abc 3"); unsigned long x; std::string w; i >> x >> w; A(x == 12 && w == "abc"); std::string l; std::istringstream j("l1\nl2"); std::getline(j, l); A(l == "l1"); std::getline(j, l, ';'); A(l == "l2"); A(j.eof()); o.str(""); A(o.str().empty()); }
HARNESS(p_opt) { std::optional<uint64_t> o; A(!o); o = 3; A(o.value_or(1) == 3); A(*o == 3); bool t = false; o.reset(); try { o.value(); } catch (std::bad_optional_access&) { t = true; } A(t); std::variant<int, std::string> v = "x"; A(std::get<1>(v) == "x"); A(std::holds_alternative<std::string>(v)); std::tuple<int, bool> u{1, true}; auto [a, b] = u; A(a == 1 && b); std::any y = 3; A(std::any_cast<int>(y) == 3); int r = 0; std::tie(r, std::ignore) = u; A(r == 1); A(std::visit([](auto&& q) { return sizeof(q) > 4; }, v)); }
HARNESS(p_ptr) { auto p = std::make_shared<std::vector<int>>(3); std::weak_ptr<std::vector<int>> w = p; A(w.lock()); A(w.use_count() == 1); p.reset(); A(!w.lock()); A(w.expired()); auto u = std::make_unique<int>(3); auto v = std::move(u); A(!u && *v == 3); struct B : std::enable_shared_from_this<B> { virtual ~B() {} }; auto b = std::make_shared<B>(); A(b->shared_from_this() == b); A(!b->weak_from_this().expired()); std::unique_ptr<char[]> ca(new char[4]()); A(ca[3] == 0); std::unique_ptr<int, std::function<void(int*)>> d(new int, [](int* x) { delete x; }); auto sp = std::shared_ptr<int>(new int(4), [](int* x) { delete x; }); A(std::const_pointer_cast<const int>(sp)); struct D : B { int x = 1; }; std::shared_ptr<B> bb = std::make_shared<D>(); A(std::dynamic_pointer_cast<D>(bb)); A(std::static_pointer_cast<D>(bb)->x == 1); A(dynamic_cast<D*>(bb.get())); B onlyb; A(!dynamic_cast<D*>((B*)&onlyb)); std::weak_ptr<B> wb; bool t = false; try { std::shared_ptr<B> q(wb); } catch (std::bad_weak_ptr&) { t = true; } A(t);
    std::shared_ptr<int> at; std::atomic_store(&at, std::make_shared<int>(3)); A(*std::atomic_load(&at) == 3); }
HARNESS(p_lock) { std::mutex m, n; { std::lock_guard<std::mutex> g(m); } { std::unique_lock<std::mutex> g(m, std::defer_lock); g.lock(); g.unlock(); A(g.try_lock()); } { std::scoped_lock g(m, n); } { std::unique_lock<std::mutex> a(m, std::defer_lock), b(n, std::defer_lock); std::lock(a, b); } { m.lock(); std::lock_guard<std::mutex> g(m, std::adopt_lock); } { std::unique_lock<std::mutex> g(m, std::try_to_lock); A(g.owns_lock()); } std::shared_mutex s; { std::shared_lock<std::shared_mutex> g(s); } { std::unique_lock<std::shared_mutex> g(s); } std::shared_timed_mutex st; { std::shared_lock<std::shared_timed_mutex> g(st); } std::recursive_mutex r; { std::lock_guard<std::recursive_mutex> a(r), b(r); } std::once_flag f; int c = 0; std::call_once(f, [&] { c++; }); std::call_once(f, [&] { c++; }); A(c == 1); std::timed_mutex tm; A(tm.try_lock()); tm.unlock(); { std::unique_lock<std::timed_mutex> g(tm, std::chrono::seconds(1)); A(g.owns_lock()); } A(std::try_lock(m, n) == -1); m.unlock(); n.unlock(); }
HARNESS(p_cv) { std::mutex m; std::condition_variable cv; bool ok = false; std::thread t([&] { std::lock_guard<std::mutex> g(m); ok = true; cv.notify_all(); }); { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return ok; }); cv.wait_for(g, std::chrono::milliseconds(1), [&] { return ok; }); cv.wait_until(g, std::chrono::steady_clock::now() + std::chrono::seconds(1), [&] { return ok; }); } t.join(); A(!t.joinable()); std::condition_variable_any ca; { std::unique_lock<std::mutex> g(m); ca.wait(g, [&] { return ok; }); } ca.notify_one(); std::this_thread::yield(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); A(std::this_thread::get_id() != t.get_id()); std::thread::hardware_concurrency(); }
static void unused_future() { std::promise<int> p; auto f = p.get_future(); p.set_value(3); A(f.get() == 3); std::packaged_task<int()> k([] { return 4; }); auto g = k.get_future(); k(); A(g.get() == 4); }
HARNESS(p_atomic) { std::atomic<bool> b(false); A(!b.exchange(true)); std::atomic<uint64_t> u(1); A(u.fetch_add(2) == 1); A(u++ == 3); uint64_t e = 4; A(u.compare_exchange_strong(e, 9)); u.store(7, std::memory_order_release); A(u.load(std::memory_order_acquire) == 7); u -= 1; u.fetch_sub(1); u |= 8; u.fetch_and(15); std::atomic_flag f = ATOMIC_FLAG_INIT; A(!f.test_and_set()); f.clear(); std::atomic<int*> p{nullptr}; int x; p = &x; A(p.load() == &x); std::atomic_thread_fence(std::memory_order_seq_cst); std::atomic<int32_t> i{3}; int32_t w = 3; while (!i.compare_exchange_weak(w, 5)) {} A(i == 5); std::atomic<uint8_t> u8{1}; u8 ^= 3; A(u8 == 2); }
HARNESS(p_func) { std::function<int(int)> f = [](int x) { return x + 1; }; A(f(1) == 2); auto g = std::bind(f, std::placeholders::_1); A(g(2) == 3); std::function<void()> e; A(!e); bool t = false; try { e(); } catch (std::bad_function_call&) { t = true; } A(t); std::list<std::function<void()>> l; int c = 0; l.push_back([&c] { c++; }); for (auto& q : l) q(); A(c == 1); auto r = std::ref(c); r.get()++; A(std::invoke(f, 3) == 4); auto mf = std::mem_fn(&std::string::size); std::string s("ab"); A(mf(s) == 2); A(std::hash<std::string>()(s) == std::hash<std::string>()(s)); }
HARNESS(p_seq) { std::list<int> l{3, 1, 2}; l.sort(); A(l.front() == 1); l.remove(2); l.remove_if([](int x) { return x == 3; }); std::list<int> k{8, 9}; l.splice(l.end(), k); l.reverse(); A(l.front() == 9); l.unique(); l.merge(k); std::deque<int> d; for (int i = 0; i < 300; i++) d.push_back(i); for (int i = 0; i < 250; i++) d.pop_front(); A(d.front() == 250); d.push_front(1); d.insert(d.begin() + 3, 7); d.erase(d.begin()); d.resize(5); std::queue<int> q; q.push(1); A(q.front() == 1); q.pop(); std::stack<int> st; st.push(2); A(st.top() == 2); std::priority_queue<int> pq; pq.push(1); pq.push(5); A(pq.top() == 5); std::array<int, 4> a{}; a.fill(2); A(a[3] == 2); std::bitset<70> b; b.set(65); A(b.count() == 1 && b.test(65)); std::vector<bool> vb(100); vb[77] = true; A(vb[77]); A(std::count(vb.begin(), vb.end(), true) == 1); std::vector<std::string> vs; vs.emplace_back("x"); vs.insert(vs.begin(), "y"); vs.resize(10); vs.shrink_to_fit(); vs.erase(vs.begin()); std::vector<int> z(5, 1); z.assign(3, 2); z.insert(z.end(), {1, 2, 3}); A(z.size() == 6); A(z.back() == 3); bool t = false; try { z.at(10); } catch (std::exception& e) { t = true; } A(t); std::initializer_list<int> il{1, 2}; for (int i : il) (void)i; }
HARNESS(p_num) { double d = 3.7; A((int)std::ceil(d) == 4); A((int)std::floor(d) == 3); A(std::abs(-3) == 3); A(std::round(d) == 4.0); A(std::lround(d) == 4); A(std::min<double>(d, 2) == 2); A(std::pow(2.0, 3.0) == 8); A(std::sqrt(16.0) == 4); A((uint64_t)(d * 10) == 37); A(std::numeric_limits<uint64_t>::max() == ~0ull); unsigned x = vp_range32("x", 1, 100); A(x / 3 * 3 + x % 3 == x); A(__builtin_popcount(7) == 3); A(std::gcd(12, 18) == 6); float f = 1.5f; A((int)(f * 2) == 3); A(std::isnan(d) == false); A(std::log2(8.0) == 3); A(std::fmod(5.0, 3.0) == 2); int32_t y = (int32_t)x; A(std::max(y, 0) == y); A((x & (x - 1)) < x); uint64_t o; A(!__builtin_add_overflow((uint64_t)x, (uint64_t)5, &o)); A(!__builtin_mul_overflow((uint64_t)x, (uint64_t)5, &o)); A(!__builtin_mul_overflow((int32_t)x, 5, &y)); }
HARNESS(p_chrono) { using namespace std::chrono; auto a = steady_clock::now(); auto b = system_clock::now(); auto c = high_resolution_clock::now(); A(duration_cast<milliseconds>(steady_clock::now() - a).count() >= 0); (void)c; auto t = system_clock::to_time_t(b); (void)t; A(milliseconds(1500) > seconds(1)); A(duration_cast<microseconds>(milliseconds(2)).count() == 2000); std::time(nullptr); A(floor<seconds>(milliseconds(1500)).count() == 1); }
HARNESS(p_rand) { std::random_device rd; std::default_random_engine e(rd()); std::uniform_int_distribution<int32_t> d(5, 10); int v = d(e); A(v >= 5 && v <= 10); std::mt19937 g(3); std::uniform_int_distribution<> q(0, 9); A(q(g) < 10); std::minstd_rand ms(3); A(ms() > 0); }
HARNESS(p_file) { std::string f = std::string(vp_scratch()) + "/pf"; { std::ofstream o(f, std::ios::binary); o << "abc" << 12; o.put('x'); o.flush(); A(o.good()); } { std::ifstream i(f, std::ios::binary | std::ios::ate); A(i.is_open()); A((long)i.tellg() == 6); i.seekg(1); char c; i.get(c); A(c == 'b'); char b[3]; i.read(b, 2); A(i.gcount() == 2); A(b[0] == 'c'); A(i.peek() == '2'); A((char)i.get() == '2'); i.clear(); i.seekg(0, std::ios::beg); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); A(s == "abc12x"); i.ignore(3); } { std::fstream x(f, std::ios::in | std::ios::out | std::ios::binary); x.seekp(2); x.write("Z", 1); x.seekg(0); char b[8]; x.read(b, 6); A(b[2] == 'Z'); x.close(); } { std::fstream x; x.open(f.c_str(), std::ios::in | std::ios::app | std::ios::out); x << "q"; x.sync(); } { std::ifstream i(f); std::string l; A((bool)std::getline(i, l)); A(l == "abZ12xq"); A(!std::getline(i, l)); } A(std::rename(f.c_str(), (f + "2").c_str()) == 0); A(std::remove((f + "2").c_str()) == 0); A(!std::ifstream(f)); }
struct E1 : std::runtime_error { int k; E1(int i) : std::runtime_error("e1"), k(i) {} };
HARNESS(p_exc) { int n = 0; try { try { throw E1(3); } catch (std::exception& e) { n++; A(std::string(e.what()) == "e1"); throw; } } catch (E1& e) { n += e.k; } A(n == 4); try { throw 5; } catch (int i) { n = i; } A(n == 5); std::exception_ptr p; try { throw std::logic_error("l"); } catch (...) { p = std::current_exception(); } bool t = false; try { std::rethrow_exception(p); } catch (std::logic_error&) { t = true; } A(t); try { throw std::system_error(std::make_error_code(std::errc::io_error), "x"); } catch (std::system_error& e) { A(e.code() == std::errc::io_error); } auto q = std::make_exception_ptr(std::runtime_error("r")); t = false; try { std::rethrow_exception(q); } catch (std::runtime_error& e) { t = true; } A(t); try { throw std::invalid_argument("i"); } catch (const std::logic_error& e) { n = 9; } A(n == 9); A(std::uncaught_exceptions() == 0); struct G { ~G() {} } g; try { G gg; throw std::range_error("x"); } catch (...) { } const char* w = ""; try { throw "s"; } catch (const char* s) { w = s; } A(*w == 's'); }
HARNESS(p_fmt) { char b[32]; snprintf(b, sizeof b, "%d-%s", 12, "ab"); A(std::string(b) == "12-ab"); sprintf(b, "%lu %u %x", 5ul, 6u, 255); A(std::string(b) == "5 6 ff"); snprintf(b, sizeof b, "%05d|%-4d|%c|%%|%llu|%p", 42, 7, 'z', 99ull, (void*)0); A(std::string(b).substr(0, 14) == "00042|7   |z|%"); A(snprintf(b, 4, "%d", 123456) == 6); A(std::string(b) == "123"); snprintf(b, sizeof b, "%" PRIu64 "%zu%i%hhu", (uint64_t)1, (size_t)2, 3, (unsigned char)4); A(std::string(b) == "1234"); snprintf(b, 32, "%.*s|%.2s", 2, "abc", "xyz"); A(std::string(b) == "ab|xy"); }
static thread_local int tl = 3; static int& stat() { static std::vector<int> v(3, 1); return v[0]; } enum class ec : uint8_t { a, b };
template <typename... T> static int vsum(T... t) { return (t + ... + 0); }
HARNESS(p_lang) { tl++; A(tl == 4); stat()++; A(stat() == 2); A(vsum(1, 2, 3) == 6); ec e = (ec)vp_choose("e", 2); switch (e) { case ec::a: A(true); break; case ec::b: break; } uint32_t x = vp_range32("x", 0, 9); switch (x) { case 0: case 3: x = 10; break; case 7: x = 11; break; default: x = 12; } A(x >= 10); int arr[5] = {1, 2, 3, 4, 5}; A(arr[vp_range32("i", 0, 4)] > 0); struct S { uint32_t a : 3, b : 29; } s; s.a = vp_range32("b", 0, 7); s.b = 5; A(s.b == 5); goto l; l: int vla[vp_choose("n", 3) + 1]; vla[0] = 1; A(vla[0] == 1); unsigned char buf[16]; std::memset(buf, 0, 16); uint64_t y = vp_u64("y"), z; std::memcpy(buf + 3, &y, 8); std::memcpy(&z, buf + 3, 8); A(y == z); std::memmove(buf, buf + 3, 8); std::memcpy(&z, buf, 8); A(y == z); auto lam = [&](auto q) mutable { return q + x; }; A(lam(1u) == x + 1); if (auto it = 3; it > 2) A(true); volatile int vv = 3; A(vv == 3); union { uint32_t u; uint8_t b[4]; } un; un.u = 0x01020304; A(un.b[0] == 4); int64_t neg = -(int64_t)vp_range("g", 1, 5); A(neg < 0 && (neg >> 1) < 0); A((int8_t)200 < 0); }
HARNESS(p_sym64) { uint64_t a = vp_u64("a"), b = vp_u64("b"); A(std::min(a, b) <= std::max(a, b)); uint32_t sh = vp_range32("s", 0, 31); A((1ull << sh) > 0); A(a - a % 8 <= a); uint64_t q = vp_range("q", 1, 4); A(a / q <= a); A(a % q < q); bool t = a > b; A((t ? a : b) >= a); int64_t sa = (int64_t)a; A(sa == (int64_t)a); A((uint8_t)(a >> 8) == ((a / 256) & 255)); double d = (double)vp_concretize(q); A(d >= 1); }
