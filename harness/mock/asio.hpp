// The parts of asio that cornerstone uses, as a set of pending operations of which the harness completes any one at a time with any outcome asio
// documents: an operation completes once; closing a socket aborts what is pending on it; a failed connect leaves the socket open; cancelling or
// re-arming a timer aborts waits that have not expired, an expired wait is queued and still runs; buffers are used at completion time.
#pragma once
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <memory>
#include <mutex>
#include <string>
#include <system_error>
#include <vector>
namespace vpnet {
enum kind { RESOLVE = 1, CONNECT, WRITE, READ, ACCEPT, WAIT };
struct stream { std::vector<unsigned char> q[2]; bool closed[2] = {false, false}; };
struct sock { bool open = false; std::shared_ptr<stream> s; int side = 0; };
struct call { virtual ~call() {} virtual void run(std::error_code ec, size_t n) = 0; };
template <class H> struct call_of : call { H h; call_of(H&& x) : h(std::move(x)) {} void run(std::error_code ec, size_t n) override { h(ec, n); } };
struct op { kind k; void* obj; std::shared_ptr<sock> s; unsigned char* buf = nullptr; size_t len = 0; std::string host, port; unsigned long long at = 0; bool ready = false; std::error_code ec; size_t n = 0; std::unique_ptr<call> c; };
struct state { std::vector<std::unique_ptr<op>> ops; bool threads = false; int accepted = 0, opened = 0; std::mutex m; std::condition_variable cv; int waits = 0; };
inline state*& N() { static state* s = new state(); return s; }
inline void wake() { if (N()->threads) { std::lock_guard<std::mutex> g(N()->m); N()->cv.notify_all(); } }
template <class H> op* start(kind k, void* obj, H&& h) { op* o = new op(); o->k = k; o->obj = obj; o->c.reset(new call_of<H>(std::move(h))); N()->ops.emplace_back(o); return o; }
inline void abort_of(void* obj) { for (auto& o : N()->ops) if (o->obj == obj && !o->ready) { o->ready = true; o->ec = std::error_code(ECANCELED, std::generic_category()); } wake(); }
inline unsigned long long now() { return (unsigned long long)std::chrono::steady_clock::now().time_since_epoch().count(); }
// --- the harness's side
inline std::error_code err(int e) { return std::error_code(e, std::generic_category()); }
inline int find(kind k, bool ready = false) { for (size_t i = 0; i < N()->ops.size(); i++) if (N()->ops[i]->k == k && (ready || !N()->ops[i]->ready)) return (int)i; return -1; }
inline void finish(int i, std::error_code ec, size_t n = 0) { std::unique_ptr<op> o = std::move(N()->ops[i]); N()->ops.erase(N()->ops.begin() + i); o->c->run(ec, n); }
inline void run_ready(int i) { op* o = N()->ops[i].get(); finish(i, o->ec, o->n); }
inline void fail(int i, int e) { finish(i, err(e)); }
inline std::shared_ptr<stream> connect_ok(int i) { op* o = N()->ops[i].get(); auto st = std::make_shared<stream>(); o->s->s = st; o->s->side = 0; finish(i, std::error_code()); return st; }
inline void accept_ok(int i, std::shared_ptr<stream> st) { op* o = N()->ops[i].get(); o->s->open = true; o->s->s = st; o->s->side = 1; N()->accepted++; finish(i, std::error_code()); }
inline bool can_write(op* o) { return o->s->s && o->s->open && !o->s->s->closed[1 - o->s->side]; }
inline void write_ok(int i) { op* o = N()->ops[i].get(); auto& q = o->s->s->q[o->s->side]; q.insert(q.end(), o->buf, o->buf + o->len); finish(i, std::error_code(), o->len); }
inline bool can_read(op* o) { return o->s->s && o->s->s->q[1 - o->s->side].size() >= o->len; }
inline void read_ok(int i) { op* o = N()->ops[i].get(); auto& q = o->s->s->q[1 - o->s->side]; memcpy(o->buf, q.data(), o->len); q.erase(q.begin(), q.begin() + o->len); finish(i, std::error_code(), o->len); }
inline void read_eof(int i) { op* o = N()->ops[i].get(); size_t n = 0; if (o->s->s) { auto& q = o->s->s->q[1 - o->s->side]; n = q.size() < o->len ? q.size() : 0; if (n) memcpy(o->buf, q.data(), n); q.clear(); } finish(i, err(ENODATA), n); }
}
namespace asio {
using error_code = std::error_code;
struct mutable_buffer { unsigned char* p; size_t n; };
template <class T> mutable_buffer buffer(T* p, size_t n) { return {(unsigned char*)p, n}; }
class io_service { public:
    // what a worker thread does: run what is ready until nothing is outstanding
    size_t run() {
        auto* S = vpnet::N(); size_t c = 0; if (!S->threads) return 0;
        for (;;) {
            std::unique_ptr<vpnet::op> o;
            { std::unique_lock<std::mutex> g(S->m); for (;;) { if (S->ops.empty()) return c; int k = -1; for (size_t i = 0; i < S->ops.size(); i++) if (S->ops[i]->ready) { k = (int)i; break; } if (k >= 0) { o = std::move(S->ops[k]); S->ops.erase(S->ops.begin() + k); break; } S->cv.wait(g); } }
            o->c->run(o->ec, o->n); c++; o.reset(); vpnet::wake();
        }
    }
    void stop() {} void reset() {} void restart() {} bool stopped() const { return false; } template <class H> void post(H&& h); template <class H> void dispatch(H&& h);
};
using io_context = io_service;
class steady_timer { public:
    using clock_type = std::chrono::steady_clock; using duration = clock_type::duration; using time_point = clock_type::time_point;
    explicit steady_timer(io_service&) {} steady_timer(io_service&, const duration& d) { expires_after(d); } steady_timer(io_service&, const time_point& t) { expires_at(t); } steady_timer(const steady_timer&) = delete; ~steady_timer() { vpnet::abort_of(this); }
    size_t expires_after(const duration& d) { vpnet::abort_of(this); at_ = vpnet::now() + (unsigned long long)d.count(); return 0; }
    size_t expires_at(const time_point& t) { vpnet::abort_of(this); at_ = (unsigned long long)t.time_since_epoch().count(); return 0; }
    time_point expiry() const { return time_point(duration((long long)at_)); }
    size_t expires_from_now(const duration& d) { return expires_after(d); } size_t expires_from_now(const duration& d, error_code& e) { e = error_code(); return expires_after(d); } time_point expires_at() const { return expiry(); }
    size_t cancel() { vpnet::abort_of(this); return 0; } size_t cancel(error_code& e) { e = error_code(); return cancel(); }
    size_t cancel_one() { for (auto& o : vpnet::N()->ops) if (o->obj == this && !o->ready) { o->ready = true; o->ec = std::error_code(ECANCELED, std::generic_category()); vpnet::wake(); return 1; } return 0; }
    template <class H> void async_wait(H&& h) { auto f = [h = std::forward<H>(h)](error_code e, size_t) mutable { h(e); }; vpnet::op* o = vpnet::start(vpnet::WAIT, this, std::move(f)); o->at = at_; vpnet::N()->waits++; vpnet::wake(); }
private: unsigned long long at_ = 0; };
namespace ip { struct tcp {
    static tcp v4() { return tcp(); } static tcp v6() { return tcp(); }
    struct endpoint { unsigned short port; endpoint(tcp, unsigned short p) : port(p) {} };
    class socket { public:
        explicit socket(io_service&) : s(std::make_shared<vpnet::sock>()) {} socket(const socket&) = delete; ~socket() { close(); }
        bool is_open() const { return s->open; }
        void close() { if (!s->open) { return; } s->open = false; vpnet::abort_of(s.get()); if (s->s) { s->s->closed[s->side] = true; s->s.reset(); } }
        void close(error_code& e) { close(); e = error_code(); } void cancel() { vpnet::abort_of(s.get()); } void cancel(error_code& e) { cancel(); e = error_code(); }
        enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both }; void shutdown(shutdown_type) { if (s->s) s->s->closed[s->side] = true; } void shutdown(shutdown_type t, error_code& e) { shutdown(t); e = error_code(); }
        std::shared_ptr<vpnet::sock> s; };
    class acceptor { public:
        acceptor(io_service&, const endpoint& e) : port(e.port) {} ~acceptor() { close(); } bool is_open() const { return open; } void close() { open = false; vpnet::abort_of(this); } void close(error_code& e) { close(); e = error_code(); } void cancel() { vpnet::abort_of(this); } void cancel(error_code& e) { cancel(); e = error_code(); }
        template <class H> void async_accept(socket& k, H&& h) { auto f = [h = std::forward<H>(h)](error_code e, size_t) mutable { h(e); }; vpnet::op* o = vpnet::start(vpnet::ACCEPT, this, std::move(f)); o->s = k.s; }
        unsigned short port; bool open = true; };
    class resolver { public:
        struct iterator {}; struct query { enum flags { all_matching = 1, canonical_name = 2, passive = 4, numeric_host = 8, numeric_service = 16 }; std::string h, p; query(const std::string& a, const std::string& b, flags = all_matching) : h(a), p(b) {} };
        explicit resolver(io_service&) {} ~resolver() { vpnet::abort_of(this); } void cancel() { vpnet::abort_of(this); }
        template <class H> void async_resolve(const query& q, H&& h) { auto f = [h = std::forward<H>(h)](error_code e, size_t) mutable { h(e, iterator()); }; vpnet::op* o = vpnet::start(vpnet::RESOLVE, this, std::move(f)); o->host = q.h; o->port = q.p; } };
}; }
template <class I, class H> void async_connect(ip::tcp::socket& k, I it, H&& h) { k.close(); k.s->open = true; vpnet::N()->opened++; auto f = [h = std::forward<H>(h), it](error_code e, size_t) mutable { h(e, it); }; vpnet::op* o = vpnet::start(vpnet::CONNECT, k.s.get(), std::move(f)); o->s = k.s; }
template <class B, class H> void async_write(ip::tcp::socket& k, B&& b, H&& h) { auto f = [h = std::forward<H>(h)](error_code e, size_t n) mutable { h(e, n); }; vpnet::op* o = vpnet::start(vpnet::WRITE, k.s.get(), std::move(f)); o->s = k.s; o->buf = b.p; o->len = b.n; }
template <class B, class H> void async_read(ip::tcp::socket& k, B&& b, H&& h) { auto f = [h = std::forward<H>(h)](error_code e, size_t n) mutable { h(e, n); }; vpnet::op* o = vpnet::start(vpnet::READ, k.s.get(), std::move(f)); o->s = k.s; o->buf = b.p; o->len = b.n; }
template <class H> void post_(H&& h) { auto f = [h = std::forward<H>(h)](error_code, size_t) mutable { h(); }; vpnet::op* o = vpnet::start(vpnet::WAIT, nullptr, std::move(f)); o->ready = true; vpnet::wake(); }
template <class H> void post(io_service&, H&& h) { post_(std::forward<H>(h)); }
template <class H> void io_service::post(H&& h) { post_(std::forward<H>(h)); } template <class H> void io_service::dispatch(H&& h) { post_(std::forward<H>(h)); }
namespace error { enum basic_errors { operation_aborted = ECANCELED, connection_refused = ECONNREFUSED, not_connected = ENOTCONN, eof = ENODATA }; inline error_code make_error_code(basic_errors e) { return vpnet::err((int)e); } }
}
namespace std { template <> struct is_error_code_enum<asio::error::basic_errors> : true_type {}; }
