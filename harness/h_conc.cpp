// Two threads inside one server: C27. What two concurrent calls do must be what they do one after the other, in one of the two orders.
#include "raft_env.hpp"
#include "raft_lead.hpp"
#ifndef VP_DEBUG
#define VP_DEBUG 0
#endif
static ulong T; static byte tagx, tagy; static int role, nsrv; static bool both_app, with_snp; static int freed, newconf;
enum { VOTE2, VOTE3, APP2, APP3, PREV, TIMEOUT, CLIENT, REPL, VRESP2, VRESP3, NEWER, ARESP2, ARESP3, HB2, ADD, REM, SNAP, NCALLS };
static bool fits(int c) { if (c == VRESP2 || c == VRESP3) return role == 1; if (c == ARESP2 || c == ARESP3 || c == HB2 || c == ADD || c == REM) return role == 2; if (c == NEWER) return role != 0; if (c == TIMEOUT) return role != 2; if (c == SNAP) return role == 0; return true; }
struct result { bool done = false; std::vector<ulong> v; };
static ptr<delayed_task> t_elect, t_hb; static sent s_v2, s_v3, s_a2, s_a3;
static void world_up() {
    world* o = W; new_world(1); (void)o; W->params->snapshot_distance_ = 0; W->d_term = T; W->d_conf = mkconf(nsrv, 1, 0); W->params->max_append_size_ = 10; W->exit_ok = true; { ptr<log_entry> e = mkconfent(1, *W->d_conf), f = mkent(1, 0x11); if (newconf) { ptr<cluster_config> c = mkconf(newconf == 1 ? 4 : newconf == 2 ? 2 : 3, 2, 1); f = mkconfent(1, *c); } W->log->append(e); W->log->append(f); } W->sm_idx = 1; on_send = nullptr; boot();
    if (role == 0) { req_msg r(T, msg_type::append_entries_request, 2, 1, 1, 2, 1); deliver(r); }
    if (role >= 1) { vp_clock_ns = 1700000000000000000ull; election_timeout(); }
    if (role == 2) { int i = pending_to(2, msg_type::vote_request); answer(i, mkresp(W->d_term, msg_type::vote_response, 2, 1, true)); i = pending_to(3, msg_type::vote_request); if (i >= 0) answer(i, mkresp(W->d_term, msg_type::vote_response, 3, 1, true)); client(0x21); for (int p = 2; p <= nsrv; p++) { int j = pending_to(p, msg_type::append_entries_request); vp_assert(j >= 0, "followers are sent to"); } }
    t_elect = t_hb = nullptr; for (auto& t : W->tm) if (t.pending) { if (t.election) t_elect = t.task; else if (!t.retry && !t_hb) t_hb = t.task; }
    auto get = [&](int p, msg_type y) { int i = pending_to(p, y); if (i < 0) return sent{}; sent s = W->out[i]; W->out[i].done = true; return s; }; s_v2 = s_v3 = s_a2 = s_a3 = sent{};
    if (role == 1) { s_v2 = get(2, msg_type::vote_request); s_v3 = get(3, msg_type::vote_request); } if (role == 2) { s_a2 = get(2, msg_type::append_entries_request); s_a3 = get(3, msg_type::append_entries_request); }
}
static void put(result& r, ptr<resp_msg> p) { r.v.push_back(p ? 1 : 0); if (p) { r.v.push_back(p->get_accepted()); r.v.push_back(p->get_term()); r.v.push_back(p->get_next_idx()); r.v.push_back(p->get_type()); } }
static void back(sent& s, ptr<resp_msg> p) { rpc_handler h = s.h; h(p, ptr<rpc_exception>()); }
static void call(int c, byte tag, result& res) {
    raft_server* s = W->srv; ulong t = T;
    switch (c) {
    case VOTE2: case VOTE3: { req_msg r(t + 2, msg_type::vote_request, c == VOTE2 ? 2 : 3, 1, t + 1, 9, 0); put(res, s->process_req(r)); break; }
    case APP2: { ulong lt = role == 2 ? t + 2 : role == 1 ? t + 1 : t; req_msg r(lt, msg_type::append_entries_request, 2, 1, 1, 2, both_app ? 1 : 3); r.log_entries().push_back(mkent(lt, 0x41)); put(res, s->process_req(r)); break; }
    case APP3: { req_msg r(t + 3, msg_type::append_entries_request, 3, 1, 1, 1, 2); r.log_entries().push_back(mkent(t + 2, 0x42)); r.log_entries().push_back(mkent(t + 3, 0x43)); put(res, s->process_req(r)); break; }
    case PREV: { req_msg r(t, msg_type::prevote_request, 3, 1, t + 1, 9, 0); put(res, s->process_req(r)); break; }
    case TIMEOUT: if (t_elect) t_elect->execute(); break;
    case HB2: if (t_hb) t_hb->execute(); break;
    case CLIENT: { std::vector<bufptr> l; l.push_back(mkbuf(tag)); ptr<async_result<bool>> a = s->append_entries(l); break; }
    case REPL: { bufptr b = mkbuf(tag); res.v.push_back(s->replicate_log(b, ptr<void>(), 0)); break; }
    case VRESP2: back(s_v2, mkresp(T + 1, msg_type::vote_response, 2, 1, true)); break;
    case VRESP3: if (s_v3.req) back(s_v3, mkresp(T + 1, msg_type::vote_response, 3, 1, true)); break;
    case NEWER: { sent& x = role == 1 ? s_v2 : s_a2; back(x, mkresp(T + 4, role == 1 ? msg_type::vote_response : msg_type::append_entries_response, 2, 1, false)); break; }
    case ARESP2: case ARESP3: { sent& x = c == ARESP2 ? s_a2 : s_a3; if (!x.req) break; back(x, mkresp(T + 1, msg_type::append_entries_response, c == ARESP2 ? 2 : 3, x.req->get_last_log_idx() + x.req->log_entries().size() + 1, true)); break; }
    case ADD: { req_msg r(0, msg_type::add_server_request, 0, 1, 0, 0, 0); ptr<srv_config> n = mksrv(tag == tagx ? 5 : 6); r.log_entries().push_back(cs_new<log_entry>(0, n->serialize(), log_val_type::cluster_server)); put(res, s->process_req(r)); break; }
    case REM: { req_msg r(0, msg_type::remove_server_request, 0, 1, 0, 0, 0); bufptr b = buffer::alloc(sz_int); b->put((int32)2); b->pos(0); r.log_entries().push_back(cs_new<log_entry>(0, std::move(b), log_val_type::cluster_server)); put(res, s->process_req(r)); break; }
    case SNAP: { ptr<snapshot> sp = cs_new<snapshot>(3, 1, mkconf(nsrv, 1, 0), 1); bufptr d = buffer::alloc(1); d->put((byte)7); d->pos(0); snapshot_sync_req q(sp, 0, std::move(d), true); req_msg r(t, msg_type::install_snapshot_request, 2, 1, 1, 3, 3); r.log_entries().push_back(cs_new<log_entry>(t, q.serialize(), log_val_type::snp_sync_req)); put(res, s->process_req(r)); break; }
    }
    res.done = true;
}
struct arg { int c; byte tag; result r; };
static void runner(void* p) { arg* a = (arg*)p; call(a->c, a->tag, a->r); }
static void state(std::vector<ulong>& v) {
    v.push_back(W->d_term); v.push_back((ulong)(int64_t)W->d_vote); v.push_back(election_timer() >= 0); int hb = 0; for (auto& t : W->tm) if (!t.election && t.pending) hb++; v.push_back(hb); v.push_back(W->log->start); v.push_back(W->log->v.size()); v.push_back(W->sm_idx); v.push_back(W->applied_snp); v.push_back(W->exits); v.push_back(W->leader);
    for (auto& e : W->log->v) { v.push_back(e->get_term()); v.push_back((ulong)e->get_val_type()); v.push_back(tag_of(*e)); }
    for (int k = with_snp; k < 2; k++) for (auto& o : W->sm) if ((o.kind == A_COMMIT) == (k == 0)) { v.push_back(o.kind); v.push_back(o.idx); v.push_back(o.tag); } int m = 0; for (auto& s : W->d_conf->get_servers()) m |= 1 << s->get_id(); v.push_back(m);
    for (int p = 2; p <= 6; p++) for (auto& s : W->out) if (s.to == p && !(freed & 1 << p)) { v.push_back(s.req->get_type()); v.push_back(s.req->get_term()); v.push_back(s.req->get_last_log_idx()); v.push_back(s.req->get_last_log_term()); v.push_back(s.req->log_entries().size()); v.push_back(s.req->get_commit_idx()); }
}
static bool same(const std::vector<ulong>& a, const std::vector<ulong>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
enum { AT_ONCE, XY, YX, XY_BG, YX_BG, NO_TIMER, NO_CLIENT, NORDERS };     // _BG: the work in the background is done after both calls only
static bool is_timer(int c) { return c == TIMEOUT || c == HB2; }
static std::vector<ulong> run(int x, int y, int order) {
    world_up(); arg a{x, tagx, {}}, b{y, tagy, {}};
    if (order == AT_ONCE) { bool dense = !VP_THOROUGH || vp_choose("dense", 2); if (dense) vp_watch(W->srv, sizeof *W->srv); W->log->guard = W->conc = true; vp_explore(dense ? 1 : 2, 0); uint64_t t1 = vp_thread_create(&runner, &a), t2 = vp_thread_create(&runner, &b); vp_thread_join(t1); vp_thread_join(t2); vp_explore(-1, 0); W->conc = W->log->guard = false; vp_run_others(); }
    else {
        bool skipx = (order == NO_TIMER && is_timer(x)) || (order == NO_CLIENT && (x == CLIENT)), skipy = (order == NO_TIMER && is_timer(y)) || (order == NO_CLIENT && (y == CLIENT)), first_y = order == YX || order == YX_BG, bg = order == XY_BG || order == YX_BG;
        for (int k = 0; k < 2; k++) { bool isx = (k == 0) != first_y; arg& z = isx ? a : b; if (isx ? skipx : skipy) z.r.done = true; else call(z.c, z.tag, z.r); if (!bg) vp_run_others(); }
        vp_run_others();
    }
    vp_assert(a.r.done && b.r.done, "every call returns"); std::vector<ulong> v = a.r.v; v.push_back(77); for (ulong z : b.r.v) v.push_back(z); v.push_back(78); state(v); return v;
}
static void pair_of(int r, int nc = 0) {
    role = r; nsrv = 3; newconf = nc; T = vp_u64("term"); vp_assume(T >= 2 && T < TMAX); tagx = 0x51; tagy = 0x52; int x = nc ? (r == 2 ? ARESP2 : APP2) : vp_choose("first", NCALLS), y = vp_choose("second", NCALLS); if (!fits(x) || !fits(y) || (y < x && !nc)) vp_kill(); if (x == y && (x == VRESP2 || x == VRESP3 || x == NEWER || x == ARESP2 || x == ARESP3 || x == TIMEOUT || x == HB2)) vp_kill(); if (y == NEWER || x == NEWER) if (x == VRESP2 || x == ARESP2 || y == ARESP2) vp_kill();
    both_app = x == APP2 && y == APP3; with_snp = y == SNAP;      /* what two leaders committed agrees; how far the background came before the snapshot is open */
    freed = 0; if (role == 2) for (int z : {x, y}) { if (z == NEWER || z == ARESP2) freed |= 4; if (z == ARESP3) freed |= 8; }      /* a peer is free as soon as its answer is there, before the answer is looked at */
    std::vector<ulong> c = run(x, y, AT_ONCE); bool timer = is_timer(x) || is_timer(y), cl = role == 2 && (x == CLIENT || y == CLIENT); int ok = 0; vp_out("len", c.size());
    for (int o = XY; o < NORDERS && !ok; o++) { if ((o == NO_TIMER && !timer) || (o == NO_CLIENT && !cl)) continue; std::vector<ulong> d = run(x, y, o); if (same(c, d)) ok = o; else if (VP_DEBUG) { for (size_t i = 0; i < c.size() || i < d.size(); i++) { vp_out("c", i < c.size() ? c[i] : 999); vp_out("d", i < d.size() ? d[i] : 999); } } }
    vp_assert(ok != 0, "two calls at the same time do what they do one after the other"); if (ok == XY) vp_reach("in order"); if (ok == YX) vp_reach("the other way round"); vp_out("term", W->d_term);
}
// one call lets a change of the configuration be applied in the background while the other one is served
HARNESS(conf_race) { int r = vp_choose("leader", 2) ? 2 : 0, nc = 1 + vp_choose("change", 2); pair_of(r, nc); vp_reach(nc == 1 ? "joins" : "leaves"); }
HARNESS(pair_follower) { pair_of(0); }
HARNESS(pair_candidate) { pair_of(1); }
HARNESS(pair_leader) { pair_of(2); }
// a follower forwards while the configuration it looks its leader up in is replaced
static void forwarder(void* p) { result* r = (result*)p; call(CLIENT, tagx, *r); }
static void newsman(void* p) { req_msg r(T, msg_type::append_entries_request, 2, 1, T, 3, 3); put(*(result*)p, W->srv->process_req(r)); ((result*)p)->done = true; }
HARNESS(forward_race) {
    role = 0; nsrv = 3; T = vp_u64("term"); vp_assume(T >= 2 && T < TMAX); tagx = 0x51; tagy = 0x52; world_up(); ptr<cluster_config> c = mkconf(4, 3, 1); { req_msg r(T, msg_type::append_entries_request, 2, 1, 1, 2, 2); r.log_entries().push_back(mkconfent(T, *c)); vp_assert(deliver(r)->get_accepted() && last_idx() == 3, "the leader's entry is taken"); }
    bool asked = vp_choose("asked before", 2); if (asked) { result z; call(CLIENT, tagy, z); } size_t o0 = W->out.size(); result a, b; vp_watch(W->srv, sizeof *W->srv); vp_watch(W->conf_at, sizeof(cluster_config)); W->log->guard = W->conc = true; vp_explore(2, 0);
    uint64_t t1 = vp_thread_create(&forwarder, &a), t2 = vp_thread_create(&newsman, &b); vp_thread_join(t1); vp_thread_join(t2); vp_explore(-1, 0); W->conc = W->log->guard = false; vp_run_others(); vp_assert(a.done && b.done, "every call returns");
    vp_assert(W->out.size() == o0 + 1 && W->out[o0].to == 2 && W->out[o0].req->get_type() == msg_type::client_request && W->out[o0].req->log_entries().size() == 1, "a follower forwards to its leader"); vp_assert(W->d_conf->get_log_idx() == 3, "the configuration is applied"); vp_reach(asked ? "asked" : "first"); vp_out("sent", W->out.size());
}
