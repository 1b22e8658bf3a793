// The asio transport, timers and loggers on a network whose operations complete in any order and with any outcome: C15, C22, C23.
#include "vp.h"
#include "cornerstone.hxx"
#include "asio.hpp"
#include <cstring>
#include <fstream>
using namespace cornerstone; using namespace vpnet;
#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
static const int NTYPES = 19, HDR = 45, RSP = 26;
class no_log : public logger { public: void debug(const std::string&) override {} void info(const std::string&) override {} void warn(const std::string&) override {} void err(const std::string&) override {} };
// what the message handler is given, and what it answers
struct seen { msg_type t; int32 src, dst; ulong term, lt, li, ci; std::vector<ptr<log_entry>> es; };
static std::vector<seen>* S; static ptr<resp_msg> (*reply)(seen&); static bool handler_throws;
ptr<resp_msg> raft_server::process_req(req_msg& r) { S->push_back({r.get_type(), r.get_src(), r.get_dst(), r.get_term(), r.get_last_log_term(), r.get_last_log_idx(), r.get_commit_idx(), r.log_entries()}); if (handler_throws) { handler_throws = false; throw std::out_of_range("x"); } return reply(S->back()); }
static ptr<msg_handler> the_handler() { static long store[512]; return ptr<msg_handler>(ptr<msg_handler>(), (msg_handler*)store); }
static asio_service* svc; static ptr<rpc_listener>* lis;
static void world(bool server) { N() = new state(); S = new std::vector<seen>(); svc = new asio_service(); vp_run_others(); if (server) { ptr<logger> l = cs_new<no_log>(); lis = new ptr<rpc_listener>(svc->create_rpc_listener(9000, l)); ptr<msg_handler> h = the_handler(); (*lis)->listen(h); } }
static ptr<rpc_client> dial() { ptr<rpc_client> c = svc->create_client("tcp://h1.x:9000"); vp_assert((bool)c, "a client for a proper endpoint"); return c; }
// a healthy network delivers everything
static void pump() {
    for (int k = 0; k < 200; k++) {
        bool did = false;
        for (size_t i = 0; i < N()->ops.size(); i++) {
            op* o = N()->ops[i].get(); if (o->k == WAIT || (o->k == ACCEPT && !o->ready)) continue; did = true;
            if (o->ready) run_ready(i); else if (o->k == RESOLVE) { vp_assert(o->host == "h1.x" && o->port == "9000", "the host and port of the endpoint are used"); finish(i, std::error_code()); }
            else if (o->k == CONNECT) { auto st = connect_ok(i); int a = find(ACCEPT); if (a >= 0) accept_ok(a, st); }
            else if (o->k == WRITE) { if (can_write(o)) write_ok(i); else fail(i, EPIPE); }
            else if (o->k == READ) { if (can_read(o)) read_ok(i); else if (o->s->s && o->s->s->closed[1 - o->s->side]) read_eof(i); else if (!o->s->s) fail(i, ENOTCONN); else { did = false; continue; } }
            break;
        }
        if (!did) return;
    }
    vp_fail("the network comes to rest");
}
static bool same(const byte* a, buffer& b, size_t n) { if (b.size() != n) return false; b.pos(0); return n == 0 || memcmp(a, b.data(), n) == 0; }
// ---------------------------------------------------------------- one request after another over one connection
static ulong a_term, a_next; static int32 a_src, a_dst; static bool a_acc; static byte a_type;
static ptr<resp_msg> sym_reply(seen&) { a_term = vp_u64("r_term"); a_next = vp_u64("r_next"); a_src = (int32)vp_u32("r_src"); a_dst = (int32)vp_u32("r_dst"); a_acc = vp_bool("r_acc"); a_type = vp_u8("r_type"); vp_assume(a_type >= 1 && a_type <= NTYPES); return cs_new<resp_msg>(a_term, (msg_type)a_type, a_src, a_dst, a_next, a_acc); }
HARNESS(rpc_wire) {
    world(true); reply = sym_reply; ptr<rpc_client> c = dial(); const int R = VP_THOROUGH ? 3 : 2;
    for (int k = 0; k < R; k++) {
        ulong term = vp_u64("term"), lt = vp_u64("lt"), li = vp_u64("li"), ci = vp_u64("ci"); int32 src = (int32)vp_u32("src"), dst = (int32)vp_u32("dst"); byte ty = vp_u8("type"); vp_assume(ty >= 1 && ty <= NTYPES);
        ptr<req_msg> q = cs_new<req_msg>(term, (msg_type)ty, src, dst, lt, li, ci); int n = vp_choose("entries", 3); byte img[2][16]; size_t len[2]; ulong et[2]; byte vt[2];
        for (int e = 0; e < n; e++) { static const size_t L[4] = {0, 1, 3, 9}; len[e] = L[vp_choose("len", k == 0 ? 4 : 2)]; et[e] = vp_u64("eterm"); vt[e] = vp_u8("etype"); vp_assume(vt[e] >= 1 && vt[e] <= 5); bufptr b = buffer::alloc(len[e]); for (size_t j = 0; j < len[e]; j++) { byte x = vp_u8("data"); b->put(x); img[e][j] = x; } if (!vp_choose("pos", k == 0 ? 2 : 1)) b->pos(0); q->log_entries().push_back(cs_new<log_entry>(et[e], std::move(b), (log_val_type)vt[e])); }
        int calls = 0; rpc_handler h = [&](ptr<resp_msg>& r, const ptr<rpc_exception>& x) { calls++; vp_assert(!x && (bool)r, "a healthy network delivers the response"); vp_assert(r->get_term() == a_term && r->get_type() == a_type && r->get_src() == a_src && r->get_dst() == a_dst && r->get_next_idx() == a_next && r->get_accepted() == a_acc, "the response arrives unchanged"); };
        c->send(q, h); pump(); vp_assert(calls == 1, "a request completes once"); vp_assert(S->size() == (size_t)k + 1, "a request arrives once"); seen& s = S->back();
        vp_assert(s.t == ty && s.src == src && s.dst == dst && s.term == term && s.lt == lt && s.li == li && s.ci == ci, "the request arrives unchanged"); vp_assert(s.es.size() == (size_t)n, "all entries arrive");
        for (int e = 0; e < n; e++) { vp_assert(s.es[e]->get_term() == et[e] && s.es[e]->get_val_type() == vt[e] && same(img[e], s.es[e]->get_buf(), len[e]), "entries arrive unchanged and in order"); vp_reach("entry"); }
    }
    vp_assert(N()->opened == 1, "a connection is used again"); vp_reach("reused"); vp_out("n", S->size());
}
// ---------------------------------------------------------------- failures at every point, responses matched with requests
struct callstate { int calls = 0; bool failed = false, ok = false; };
static ptr<rpc_client>* C; static std::vector<ptr<req_msg>>* reqs; static callstate cs[8]; static int nsent, resend, nent; static ulong nxt[8];
static void submit();
static void on_done(int k, ptr<resp_msg>& r, const ptr<rpc_exception>& x) {
    cs[k].calls++; vp_assert(cs[k].calls == 1, "a request completes once"); vp_assert((bool)r != (bool)x, "a response or an error");
    if (x) { cs[k].failed = true; vp_assert(x->req() == (*reqs)[k], "an error names its own request"); } else { cs[k].ok = true; vp_assert(r->get_next_idx() == nxt[k], "a request gets the response to itself"); }
    if (k == resend && nsent < 4) submit();
}
static void submit() { int k = nsent++; nxt[k] = vp_u64("answer"); ptr<req_msg> q = cs_new<req_msg>((ulong)k, msg_type::vote_request, 1, 2, 0, 0, 100 + k); for (int i = 0; i < nent; i++) { bufptr b = buffer::alloc(1); b->put((byte)i); b->pos(0); q->log_entries().push_back(cs_new<log_entry>((ulong)k, std::move(b))); } reqs->push_back(q); rpc_handler h = [k](ptr<resp_msg>& r, const ptr<rpc_exception>& x) { on_done(k, r, x); }; (*C)->send(q, h); }
static ulong be(const unsigned char* p, int n) { ulong v = 0; for (int i = n; i-- > 0;) v = v << 8 | p[i]; return v; }
// the other end answers a complete request
static void peer_end(std::shared_ptr<stream> st) { while (st->q[0].size() >= (size_t)HDR + nent * 14) { vp_assert((int)be(st->q[0].data() + 41, 4) == nent * 14, "the header tells the size of the entries"); int k = (int)(be(st->q[0].data() + 33, 8) - 100); vp_assert(k >= 0 && k < nsent, "a request of the client"); st->q[0].erase(st->q[0].begin(), st->q[0].begin() + HDR + nent * 14); unsigned char b[RSP] = {2}; for (int i = 0; i < 8; i++) b[17 + i] = (unsigned char)(nxt[k] >> (8 * i)); b[25] = 1; st->q[1].insert(st->q[1].end(), b, b + RSP); } }
static std::shared_ptr<stream>* ST; static bool idle_closed;
static bool net_step(bool bad) {
    for (size_t i = 0; i < N()->ops.size(); i++) {
        op* o = N()->ops[i].get(); if (o->k == WAIT) continue;
        if (o->ready) { run_ready(i); return true; }
        switch (o->k) {
            case RESOLVE: if (bad) fail(i, EHOSTUNREACH); else finish(i, std::error_code()); return true;
            case CONNECT: if (bad) fail(i, ECONNREFUSED); else { idle_closed = false; *ST = connect_ok(i); } return true;
            case WRITE: if (!can_write(o)) fail(i, o->s->s ? EPIPE : ENOTCONN); else if (bad) { if (vp_choose("arrived", 2)) { auto& q = o->s->s->q[0]; q.insert(q.end(), o->buf, o->buf + o->len); } o->s->s->closed[1] = true; fail(i, ECONNRESET); } else write_ok(i); return true;
            case READ: if (!o->s->s) { fail(i, ENOTCONN); return true; } peer_end(o->s->s); if (bad) { if (vp_choose("partial", 2)) { auto& q = o->s->s->q[1]; if (q.size() > 7) q.resize(7); } else o->s->s->q[1].clear(); o->s->s->closed[1] = true; read_eof(i); } else if (can_read(o)) read_ok(i); else read_eof(i); return true;
            default: vp_fail("unexpected operation");
        }
    }
    return false;
}
HARNESS(rpc_pairing) {
    world(false); C = new ptr<rpc_client>(dial()); reqs = new std::vector<ptr<req_msg>>(); ST = new std::shared_ptr<stream>(); nsent = 0; idle_closed = false; nent = vp_choose("entries", 3); for (auto& x : cs) x = callstate(); resend = (int)vp_choose("resend", 3) - 1; int faults = 0; const int MAXF = VP_THOROUGH ? 3 : 2, MAXR = 3, STEPS = 40; submit();
    for (int k = 0; k < STEPS; k++) {
        bool pend = false; for (auto& o : N()->ops) if (o->k != WAIT) pend = true; bool more = nsent < MAXR; if (!pend && !more) break;
        int e = vp_choose("event", (pend ? 1 : 0) + (pend && faults < MAXF ? 1 : 0) + (more ? 1 : 0) + (!pend && *ST && !(*ST)->closed[1] && faults < MAXF ? 1 : 0)); if (!pend) e += 2; else if (faults >= MAXF && e == 1) e = 2;
        if (e == 0) net_step(false); else if (e == 1) { faults++; net_step(true); vp_reach("fault"); } else if (e == 2 && more) submit(); else { faults++; (*ST)->closed[1] = idle_closed = true; vp_reach("closed by the peer"); }
    }
    for (int k = 0; k < nsent; k++) { vp_assert(cs[k].calls == 1, "every request completes"); if (cs[k].ok) vp_reach("answered"); else vp_assert(faults > 0, "nothing fails without a failure"); }
    int failed = 0; for (int k = 0; k < nsent; k++) failed += cs[k].failed; vp_assert(failed <= faults, "one failure of the network fails one request"); resend = -1;
    bool stale = *ST && idle_closed && !(*ST)->closed[0]; int before = nsent; submit(); while (net_step(false)) {} vp_assert(cs[before].calls == 1, "every request completes"); if (stale) { submit(); while (net_step(false)) {} before++; } vp_assert(cs[before].ok, "once the network works again, requests work again"); vp_out("n", nsent);
}
// ---------------------------------------------------------------- whatever arrives on a connection
static ptr<resp_msg> plain_reply(seen&) { return cs_new<resp_msg>(5, msg_type::vote_response, 2, 1, 9, true); }
static ptr<resp_msg> no_reply(seen&) { return ptr<resp_msg>(); }
static std::shared_ptr<stream> incoming() { auto st = std::make_shared<stream>(); int a = find(ACCEPT); vp_assert(a >= 0, "the listener keeps accepting connections"); accept_ok(a, st); return st; }
static void good_request(std::shared_ptr<stream> st, byte mark) { unsigned char b[HDR] = {1}; b[33] = mark; st->q[0].insert(st->q[0].end(), b, b + HDR); }
HARNESS(rpc_malformed) {
    world(true); int mode = vp_choose("reply", 3); reply = mode == 1 ? no_reply : plain_reply; if (mode == 0 && vp_choose("accept_fails", 2)) { int a = find(ACCEPT); vp_assert(a >= 0, "the listener accepts connections"); fail(a, vp_choose("why", 2) ? ECONNABORTED : EMFILE); vp_reach("not accepted"); } auto st = incoming(); bool first = mode == 0 && vp_choose("first", 2); if (first) { reply = plain_reply; good_request(st, 7); pump(); vp_assert(S->size() == 1 && st->q[1].size() == (size_t)RSP, "a proper request is answered"); st->q[1].clear(); reply = mode == 1 ? no_reply : plain_reply; }
    size_t base = S->size(); unsigned char h[HDR]; for (auto& x : h) x = vp_u8("h"); static const int32 SZ[] = {0, 1, 12, 13, 14, 15, 27, 0x1000001, -1, (int32)0x80000000, 0x1000000}; int32 n = SZ[vp_choose("size", 11)]; memcpy(h + HDR - 4, &n, 4); st->q[0].insert(st->q[0].end(), h, h + HDR);
    bool sane = n >= 0 && n < 0x1000000; unsigned char d[32]; size_t have = 0; if (sane && n) { have = n; for (size_t i = 0; i < have; i++) d[i] = vp_u8("d"); size_t at = 0; while (at + 13 <= have) { static const int32 V[] = {0, 1, 2, 14, -1, 0x7fffffff, (int32)0x80000000}; int32 v = V[vp_choose("vsize", 7)]; memcpy(d + at + 9, &v, 4); if (v < 0 || (size_t)v > have - at - 13) break; at += 13 + v; } }
    bool cut = vp_choose("cut", 2); if (cut && have) have--; else cut = false; st->q[0].insert(st->q[0].end(), d, d + have); if (mode == 2) handler_throws = true; bool late = mode == 0 && vp_choose("late", 2); if (cut || late) st->closed[0] = true; pump();
    // what a receiver has to make of these bytes
    bool valid = sane && !cut && h[0] >= 1 && h[0] <= NTYPES; std::vector<size_t> at; if (valid) { size_t p = 0; while (p < have && valid) { if (have - p < 13) { valid = false; break; } int32 v; memcpy(&v, d + p + 9, 4); if (v < 0 || (size_t)v > have - p - 13) { valid = false; break; } at.push_back(p); p += 13 + v; } }
    if (!valid) { vp_assert(S->size() == base, "what is not a request is not handled"); vp_assert(st->closed[1] || (n == 0x1000000 && !st->closed[0]), "a connection that does not speak the protocol is closed"); vp_assert(st->q[1].empty(), "what is not a request is not answered"); vp_reach("refused"); }
    else {
        vp_assert(S->size() == base + 1, "a request is handled once"); seen& s = S->back(); vp_assert(s.t == h[0] && (uint32_t)s.src == (uint32_t)be(h + 1, 4) && (uint32_t)s.dst == (uint32_t)be(h + 5, 4) && s.term == be(h + 9, 8) && s.lt == be(h + 17, 8) && s.li == be(h + 25, 8) && s.ci == be(h + 33, 8), "a request is what the bytes say"); vp_assert(s.es.size() == at.size(), "all entries are taken");
        for (size_t k = 0; k < at.size(); k++) { int32 v; memcpy(&v, d + at[k] + 9, 4); vp_assert(s.es[k]->get_term() == be(d + at[k], 8) && s.es[k]->get_val_type() == d[at[k] + 8] && same(d + at[k] + 13, s.es[k]->get_buf(), v), "an entry is what the bytes say"); } vp_reach("taken");
        if (mode == 0 && !late) { vp_assert(st->q[1].size() == (size_t)RSP && st->q[1][0] == 2, "a request is answered"); st->q[1].clear(); vp_assert(!st->closed[1], "the connection stays"); good_request(st, 8); pump(); vp_assert(S->size() == base + 2 && S->back().ci == 8, "the next request of the connection is handled"); } else if (mode) vp_assert(st->closed[1], "a request that cannot be answered closes the connection");
    }
    handler_throws = false; reply = plain_reply; size_t z = S->size(); auto s2 = incoming(); good_request(s2, 9); pump(); vp_assert(S->size() == z + 1 && S->back().ci == 9 && s2->q[1].size() == (size_t)RSP, "other connections are served"); vp_out("n", S->size());
}
// a response of arbitrary bytes
HARNESS(rpc_bad_response) {
    world(false); C = new ptr<rpc_client>(dial()); int calls = 0; ptr<req_msg> q = cs_new<req_msg>(1, msg_type::vote_request, 1, 2, 0, 0, 0); unsigned char b[RSP]; for (auto& x : b) x = vp_u8("b");
    rpc_handler h = [&](ptr<resp_msg>& r, const ptr<rpc_exception>& x) { calls++; bool known = b[0] >= 1 && b[0] <= NTYPES; if (x) { vp_assert(!known, "a proper response is handed over"); vp_assert(x->req() == q, "an error names its own request"); vp_reach("error"); } else { vp_assert(known, "only a proper response is handed over"); vp_assert(r->get_type() == b[0] && (uint32_t)r->get_src() == (uint32_t)be(b + 1, 4) && (uint32_t)r->get_dst() == (uint32_t)be(b + 5, 4) && r->get_term() == be(b + 9, 8) && r->get_next_idx() == be(b + 17, 8) && r->get_accepted() == (b[25] == 1), "a response is what the bytes say"); vp_reach("response"); } };
    (*C)->send(q, h); int i = find(RESOLVE); finish(i, std::error_code()); i = find(CONNECT); auto st = connect_ok(i); i = find(WRITE); write_ok(i); st->q[1].insert(st->q[1].end(), b, b + RSP); i = find(READ); read_ok(i); vp_assert(calls == 1, "a request completes once"); vp_out("calls", calls);
}
// ---------------------------------------------------------------- timers
class a_task : public delayed_task { public: int runs = 0; bool armed = false; unsigned long long due = 0; protected: void exec() override { runs++; vp_assert(armed, "a task runs once per schedule, and not after it is cancelled"); vp_assert(vp_clock_ns >= due, "a task does not run before its delay is over"); armed = false; } };
static void expire_all() { for (auto& o : N()->ops) if (o->k == WAIT && !o->ready && o->at <= vp_clock_ns) { o->ready = true; } }
HARNESS(sched_tasks) {
    world(false); for (auto& o : N()->ops) o->at = ~0ull; vp_clock_ns = 1ull << 40; ptr<a_task> t[2]; for (auto& x : t) x = cs_new<a_task>(); const int K = VP_THOROUGH ? 7 : 6; int T = 1;
    for (int k = 0; k < K; k++) {
        int w = 0; ptr<delayed_task> b = t[w]; int nr = 0; for (auto& o : N()->ops) if (o->ready) nr++;
        switch (vp_choose("event", 4)) {
            case 0: { static const int32 D[] = {0, 7, 100}; int32 ms = D[vp_choose("ms", 3)]; svc->schedule(b, ms); t[w]->armed = true; t[w]->due = vp_clock_ns + (unsigned long long)ms * 1000000ull; vp_reach("scheduled"); break; }
            case 1: svc->cancel(b); t[w]->armed = false; vp_reach("cancelled"); break;
            case 2: { unsigned long long d = (unsigned long long)vp_u8("dt") << 20; vp_clock_ns += d; expire_all(); break; }
            case 3: if (!nr) vp_kill(); { int c = vp_choose("which", nr), i = 0; for (size_t j = 0; j < N()->ops.size(); j++) if (N()->ops[j]->ready && c-- == 0) { i = (int)j; break; } run_ready(i); vp_reach("ran"); break; }
        }
    }
    (void)T; bool want = t[0]->armed; int had = t[0]->runs; vp_clock_ns += 1ull << 58; expire_all(); for (int g = 0; g < 20; g++) { int c = -1; for (size_t j = 0; j < N()->ops.size(); j++) if (N()->ops[j]->ready) { c = (int)j; break; } if (c < 0) break; run_ready(c); } vp_assert(t[0]->runs == had + (want ? 1 : 0), "a scheduled task runs"); vp_out("runs", t[0]->runs);
}
// any delay
HARNESS(sched_delay) { world(false); vp_clock_ns = vp_u64("clock"); vp_assume(vp_clock_ns < 1ull << 60); ptr<a_task> t = cs_new<a_task>(); ptr<delayed_task> b = t; int32 ms = (int32)vp_u32("ms"); vp_assume(ms >= 0); svc->schedule(b, ms); op* o = N()->ops.back().get(); vp_assert(o->k == WAIT && o->at == vp_clock_ns + (unsigned long long)ms * 1000000ull, "a task is due after its delay"); vp_reach("scheduled"); vp_out("n", N()->ops.size()); }
// ---------------------------------------------------------------- several threads use one client
static void sender(void*) { submit(); }
static void driver() { for (int g = 0; g < 60; g++) if (!net_step(false)) return; vp_fail("the network comes to rest"); }
// the list of requests a client holds (an empty std::list points to itself) is watched, if it has one
static void watch_pending(void* c) { uint64_t* w = (uint64_t*)c; for (int k = 0; k + 2 < 20; k++) if (w[k] == (uint64_t)(w + k) && w[k + 1] == w[k] && w[k + 2] == 0) { vp_watch(w + k, 24); vp_reach("watched"); return; } }
HARNESS(rpc_threads) {
    world(false); C = new ptr<rpc_client>(dial()); reqs = new std::vector<ptr<req_msg>>(); reqs->reserve(8); ST = new std::shared_ptr<stream>(); nsent = 0; for (auto& x : cs) x = callstate(); resend = (int)vp_choose("resend", 2) - 1; bool dense = vp_choose("dense", 2); if (dense) watch_pending(C->get()); submit(); if (vp_choose("connected", 2)) driver(); vp_explore(dense ? 2 : VP_THOROUGH ? 4 : 3, 0); uint64_t a = vp_thread_create(&sender, nullptr), b = vp_thread_create(&sender, nullptr); driver(); vp_thread_join(a); vp_thread_join(b); vp_explore(-1, 0); driver();
    for (int k = 0; k < nsent; k++) vp_assert(cs[k].calls == 1 && cs[k].ok, "every request completes with its response"); if (nsent == 4) vp_reach("from a handler"); vp_reach("all"); vp_out("n", nsent);
}
// a log store hands out the entries it holds: while one is sent, the state machine or the server may read it
static ptr<log_entry>* SE; static ptr<req_msg>* SQ; static rpc_handler* SH; static int s_kind; static bool s_right;
static void entry_sender(void*) { (*C)->send(*SQ, *SH); }
static void entry_reader(void*) {
    buffer& b = (*SE)->get_buf(); b.pos(0); if (s_kind == 0) { ptr<cluster_config> c = cluster_config::deserialize(b); s_right = c->get_log_idx() == 7 && c->get_prev_log_idx() == 5 && c->get_servers().size() == 1 && c->get_servers().front()->get_id() == 3 && c->get_servers().front()->get_endpoint() == "e3"; }
    else { ulong x = b.get_ulong(); byte y = b.get_byte(); s_right = x == 0x1122334455667788ull && y == 0x5a; }
}
HARNESS(rpc_shared) {
    world(true); reply = [](seen&) { return cs_new<resp_msg>(1, msg_type::append_entries_response, 2, 1, 3, true); }; C = new ptr<rpc_client>(dial()); ptr<req_msg> q = cs_new<req_msg>(1, msg_type::append_entries_request, 1, 2, 1, 1, 1); int calls = 0; rpc_handler h = [&](ptr<resp_msg>& r, const ptr<rpc_exception>& x) { calls++; vp_assert(!x && (bool)r, "a healthy network delivers the response"); }; (*C)->send(q, h); pump();
    s_kind = vp_choose("read by", 2); bufptr b = buffer::alloc(9); if (s_kind == 0) { ptr<cluster_config> c = cs_new<cluster_config>(7, 5); c->get_servers().push_back(cs_new<srv_config>(3, "e3")); b = c->serialize(); } else { b->put((ulong)0x1122334455667788ull); b->put((byte)0x5a); b->pos(0); }
    size_t n = b->size(); byte img[64]; vp_assert(n <= 64, "small"); memcpy(img, b->data(), n); const void* mem = b.get(); ptr<log_entry> e = cs_new<log_entry>(1, std::move(b), s_kind ? log_val_type::app_log : log_val_type::conf); SE = &e; ptr<req_msg> q2 = cs_new<req_msg>(1, msg_type::append_entries_request, 1, 2, 1, 1, 1); q2->log_entries().push_back(e); SQ = &q2; SH = &h;
    vp_watch(mem, n + 4); vp_explore(VP_THOROUGH ? 3 : 2, 0); uint64_t t1 = vp_thread_create(&entry_sender, nullptr), t2 = vp_thread_create(&entry_reader, nullptr); vp_thread_join(t1); vp_thread_join(t2); vp_explore(-1, 0); pump();
    vp_assert(calls == 2 && S->size() == 2 && S->back().es.size() == 1, "a request arrives once"); vp_assert(same(img, S->back().es[0]->get_buf(), n), "an entry arrives unchanged, whoever reads it meanwhile"); vp_assert(s_right, "an entry can be read while it is sent"); vp_reach(s_kind ? "state machine" : "server"); vp_out("n", n);
}
// ---------------------------------------------------------------- loggers and the end of the service
static std::string lines_of(const std::string& f) { std::ifstream in(f.c_str(), std::ios::binary); std::string r; char c; while (in.get(c)) r += c; return r; }
static void expire_timer(void*) { for (auto& o : N()->ops) if (o->k == WAIT && !o->ready) { o->ready = true; break; } wake(); }
static bool ends(const std::string& s, size_t e, const std::string& t) { return e >= t.size() && s.compare(e - t.size(), t.size(), t) == 0; }
static void check_lines(const std::string& got, const std::vector<std::string>& want) {
    size_t e = 0, k = 0; while (e < got.size()) { size_t p = got.find('\n', e); vp_assert(p != std::string::npos, "whole lines"); vp_assert(k < want.size() && ends(got, p, want[k]) && p - e >= want[k].size(), "the log holds the lines of its level, in order"); k++; e = p + 1; } vp_assert(k == want.size(), "every line is in the log when the service is stopped"); vp_out("lines", k);
}
static char sym_char() { byte c = vp_u8("char"); vp_assume(c != 10); return (char)c; }
static ptr<logger>* LG; static void log_thread(void*) { (*LG)->err("c-text"); }
// every line of the level, once, in order, whatever the moments of the flushes
HARNESS(log_lines) {
    world(false); std::string f = std::string(vp_scratch()) + "/l"; int lev = vp_choose("level", 5); ptr<logger> l = svc->create_logger((asio_service::log_level)lev, f); int n = vp_choose("lines", 4); std::vector<std::string> want; vp_clock_ns = (ulong)vp_u32("clock") * 1000000000ull;
    for (int k = 0; k < n; k++) { int w = vp_choose("as", 4); std::string t(1, (char)('a' + k)); t += "-text"; t += sym_char(); if (w == 0) l->debug(t); else if (w == 1) l->info(t); else if (w == 2) l->warn(t); else l->err(t); if (w >= lev) want.push_back(t); if (n < 3 && vp_choose("flush", 2)) { int i = find(WAIT); vp_assert(i >= 0, "logs are flushed again and again"); finish(i, std::error_code()); check_lines(lines_of(f), want); vp_reach("flushed"); } }
    int i = find(WAIT); N()->ops[i]->ready = true; N()->threads = true; vp_thread_create([](void*) { asio::io_service s; s.run(); }, nullptr); svc->stop(); check_lines(lines_of(f), want); if (want.size() == 3) vp_reach("all"); vp_reach("stopped"); l->err("late"); want.push_back("late"); if (lev > 3) want.pop_back(); delete svc; vp_run_others(); l.reset(); check_lines(lines_of(f), want);
}
// two loggers and two threads: each file has its own lines
static void flush_thread(void*) { int i = find(WAIT); if (i >= 0) finish(i, std::error_code()); }
HARNESS(log_threads) {
    world(false); std::string f = std::string(vp_scratch()) + "/l", g = std::string(vp_scratch()) + "/m"; ptr<logger> l = svc->create_logger(asio_service::log_level::debug, f), m = svc->create_logger((asio_service::log_level)2, g); LG = &l; int other = vp_choose("other", 3), gone = vp_choose("drop", 2); std::string t = "a-text", u = "b-text"; t += sym_char(); u += sym_char();
    m->warn(u); if (other == 2) { m->info(t); m->err(t); } if (gone && !other) { m.reset(); vp_reach("one dropped"); }
    if (other) { vp_watch(l.get(), 760); vp_explore(VP_THOROUGH ? 2 : 1, 0); uint64_t x = vp_thread_create(other == 1 ? &log_thread : &flush_thread, nullptr); l->info(t); vp_thread_join(x); vp_explore(-1, 0); } else l->info(t);
    int i = find(WAIT); vp_assert(i >= 0, "logs are flushed again and again"); bool stop = vp_choose("stop", 2); if (stop) { N()->ops[i]->ready = true; N()->threads = true; vp_thread_create([](void*) { asio::io_service s; s.run(); }, nullptr); svc->stop(); } else finish(i, std::error_code());
    std::vector<std::string> lm; lm.push_back(u); if (other == 2) lm.push_back(t); check_lines(lines_of(g), lm); std::string got = lines_of(f);
    if (other == 1) { size_t p = got.find("a-text"), q = got.find("c-text"); vp_assert(p != std::string::npos && q != std::string::npos && got.find("a-text", p + 1) == std::string::npos && got.find("c-text", q + 1) == std::string::npos, "lines of several threads are all there, once"); vp_reach("two threads"); } else { std::vector<std::string> ll; ll.push_back(t); check_lines(got, ll); vp_reach(other ? "flushing" : "two loggers"); }
    if (stop) { vp_run_others(); vp_assert(N()->ops.empty(), "nothing keeps the service's threads running after it is stopped"); }
}
// the service can be stopped at any moment
HARNESS(service_stop) {
    N() = new state(); N()->threads = true; int timer = vp_choose("timer", 2), twice = vp_choose("twice", 2), n = vp_choose("lines", 2), other = n && !timer ? vp_choose("other", 2) : 0; svc = new asio_service(); std::string f = std::string(vp_scratch()) + "/l"; ptr<logger> l = svc->create_logger(asio_service::log_level::debug, f); LG = &l; std::vector<std::string> want; vp_run_others(); vp_explore(VP_THOROUGH ? 3 : 2, 0); uint64_t x = 0; if (timer) x = vp_thread_create(&expire_timer, nullptr); if (other) { x = vp_thread_create(&log_thread, nullptr); } if (n) { std::string t = "a-text"; if (!other) t += sym_char(); l->info(t); want.push_back(t); }
    svc->stop(); if (twice) svc->stop(); std::string got = lines_of(f); if (timer || other) vp_thread_join(x); vp_explore(-1, 0); vp_run_others(); vp_assert(N()->ops.empty(), "nothing keeps the service's threads running after it is stopped"); if (other) { vp_assert(got.find("a-text") != std::string::npos, "a line is in the log when the service is stopped"); } else check_lines(got, want); vp_reach("stopped"); delete svc; vp_run_others(); if (other) { l.reset(); got = lines_of(f); size_t p = got.find("a-text"), q = got.find("c-text"); vp_assert(p != std::string::npos && q != std::string::npos && got.find("a-text", p + 1) == std::string::npos && got.find("c-text", q + 1) == std::string::npos, "lines of several threads are all there, once"); vp_reach("two threads"); }
}
// ---------------------------------------------------------------- endpoints
static bool alnum(byte c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
HARNESS(rpc_endpoint) {
    world(false); static const char* PRE[] = {"tcp://", "tcp:/", "udp://", "xtcp://", "TCP://"}; int pr = vp_choose("scheme", 5); std::string e = PRE[pr]; static const char* FIX[] = {"", "a.b", "node", ":1"}; const int L = VP_THOROUGH ? 4 : 3; std::string pre = FIX[vp_choose("before", 3)], post = vp_choose("after", 2) ? FIX[3] : ""; int n = pr ? 1 : 1 + vp_choose("len", L); e += pre; std::string mid; for (int i = 0; i < n; i++) mid += (char)vp_u8("c"); e += mid; e += post;
    std::string a = pre + mid + post; size_t col = std::string::npos; for (size_t i = 0; i < a.size(); i++) if (a[i] == ':') col = i;
    bool ok = pr == 0 && col != std::string::npos && col > 0 && col + 1 < a.size(); if (ok) { for (size_t i = col + 1; i < a.size(); i++) ok &= a[i] >= '0' && a[i] <= '9'; bool label = false; for (size_t i = 0; i < col; i++) { if (a[i] == '.') { ok &= label; label = false; } else { ok &= alnum(a[i]) || a[i] == '-'; label = true; } } ok &= label; }
    ptr<rpc_client> c = svc->create_client(e); vp_assert((bool)c == ok, "there is a client exactly for tcp, a host name and a port"); if (!c) { vp_reach("none"); return; } vp_reach("client"); ptr<req_msg> q = cs_new<req_msg>(1, msg_type::vote_request, 1, 2, 0, 0, 0); rpc_handler h = [](ptr<resp_msg>&, const ptr<rpc_exception>&) {}; c->send(q, h); int i = find(RESOLVE); vp_assert(i >= 0, "the host is looked up"); vp_assert(N()->ops[i]->host == a.substr(0, col) && N()->ops[i]->port == a.substr(col + 1), "the host and port of the endpoint are used"); vp_out("n", n);
}
