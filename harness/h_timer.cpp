// Timer callbacks that are already on their way when the server's situation changes: C22.
#include "raft_env.hpp"
#include "raft_lead.hpp"
static const int PRE = VP_THOROUGH ? 4 : 3;
static ptr<delayed_task>* run_me; static bool ran;
static void timer_thread(void*) { (*run_me)->execute(); ran = true; }
static void start_timer(size_t k) { run_me = new ptr<delayed_task>(W->tm[k].task); W->tm[k].pending = false; ran = false; }
static void raw_answer(size_t i, ptr<resp_msg> r) { W->out[i].done = true; rpc_handler h = W->out[i].h; h(r, ptr<rpc_exception>()); }
static void raw_fail(int32 to) { for (size_t i = 0; i < W->out.size(); i++) if (!W->out[i].done && W->out[i].to == to) { W->out[i].done = true; rpc_handler h; h.swap(W->out[i].h); ptr<resp_msg> n; h(n, cs_new<rpc_exception>(std::string("e"), W->out[i].req)); } }
static size_t hb_timer(int which) { int c = 0; for (size_t i = 0; i < W->tm.size(); i++) if (!W->tm[i].election && !W->tm[i].retry && W->tm[i].pending) { if (c == which) return i; c++; } vp_kill(); }
// the election timer expires while the last vote comes in, or a message of a leader
HARNESS(timer_election) {
    new_world(1); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; W->d_conf = mkconf(3, 0, 0); bool pv = vp_choose("prevote", 2); W->params->prevote_enabled_ = pv; W->params->snapshot_distance_ = 0; boot(); int what = vp_choose("what", 3);
    if (what == 0) { election_timeout(); if (pv) { int i = pending_to(2, msg_type::prevote_request); vp_assert(i >= 0, "asked"); answer(i, mkresp(W->d_term, msg_type::prevote_response, 2, 1, true)); } }
    ulong t0 = W->d_term; int v = pending_to(2, msg_type::vote_request); if (what == 0) vp_assert(v >= 0, "a vote is asked for"); int e = election_timer(); vp_assert(e >= 0, "the election timer runs"); start_timer(e); vp_explore(PRE, 0); uint64_t t = vp_thread_create(&timer_thread, nullptr);
    if (what == 0) raw_answer(v, mkresp(t0, msg_type::vote_response, 2, 1, true));
    else { ulong lt = vp_u64("leader_term"); vp_assume(lt >= t0 && lt < TMAX); req_msg r(lt, what == 1 ? msg_type::append_entries_request : msg_type::vote_request, 2, 1, what == 1 ? 0 : lt, what == 1 ? 0 : 5, 0); W->srv->process_req(r); }
    vp_thread_join(t); vp_explore(-1, 0); vp_run_others(); if (W->leader) vp_reach("elected"); else vp_reach("not elected");
    vp_assert(W->d_term <= t0 + (what == 0) + TMAX, "ok"); if (what == 0) vp_assert(W->leader ? W->d_term == t0 : W->d_term == t0 + 1 || (pv && W->d_term == t0), "a late timeout either comes first and starts a new election or does nothing");
    vp_assert(W->leader || election_timer() >= 0, "a server that does not lead waits for a leader"); if (W->leader) { for (size_t i = 0; i < W->tm.size(); i++) if (W->tm[i].election) vp_assert(!W->tm[i].pending, "a leader has no election timer"); int c = 0; for (size_t i = 0; i < W->tm.size(); i++) if (!W->tm[i].election && W->tm[i].pending) c++; vp_assert(c == 2, "a leader has a heartbeat for every follower"); } vp_out("term", W->d_term - T);
}
// a heartbeat expires while its follower is removed, or while the leader steps down
HARNESS(timer_heartbeat) {
    new_world(1); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; W->d_conf = mkconf(3, 1, 0); W->params->snapshot_distance_ = 0; { ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); } W->sm_idx = 1; boot(); lead(3); for (int32 p = 2; p <= 3; p++) { int i = pending_to(p, msg_type::append_entries_request); if (i >= 0) answer(i, mkresp(vterm, msg_type::append_entries_response, p, last_idx() + 1, true)); }
    int what = vp_choose("what", 2);
    if (what == 0) {
        req_msg r(0, msg_type::remove_server_request, 0, 1, 0, 0, 0); bufptr b = buffer::alloc(sz_int); b->put((int32)3); b->pos(0); r.log_entries().push_back(cs_new<log_entry>(0, std::move(b), log_val_type::cluster_server)); ptr<resp_msg> p = deliver(r); vp_assert(p && p->get_accepted(), "a server can be removed");
        int i = pending_to(3, msg_type::leave_cluster_request); vp_assert(i >= 0, "it is told"); W->in_ext = true; answer(i, mkresp(vterm, msg_type::leave_cluster_response, 3, last_idx() + 1, true)); W->in_ext = false;
        int q = -1; for (int k = 0; k < 4; k++) { i = pending_to(2, msg_type::append_entries_request); vp_assert(i >= 0, "the change is sent"); if (W->out[i].req->log_entries().size()) { q = i; break; } answer(i, mkresp(vterm, msg_type::append_entries_response, 2, last_idx(), true)); } vp_assert(q >= 0, "the change is sent");
        if (vp_choose("idle", 2)) { for (size_t k = 0; k < W->out.size(); k++) if (!W->out[k].done && W->out[k].to == 3) answer_err(k); }
        size_t h = hb_timer(vp_choose("which", 2)); start_timer(h); for (auto& o : W->out) if (o.done) o.h = rpc_handler(); vp_explore(PRE, 0); uint64_t t = vp_thread_create(&timer_thread, nullptr); raw_answer(q, mkresp(vterm, msg_type::append_entries_response, 2, last_idx() + 1, true)); raw_fail(3); vp_thread_join(t); vp_explore(-1, 0); vp_run_others();
        vp_assert(W->d_conf->get_servers().size() == 2, "the removal is committed"); int c = 0; for (size_t k = 0; k < W->tm.size(); k++) if (!W->tm[k].election && !W->tm[k].retry && W->tm[k].pending) { c++; } vp_assert(c == 1, "exactly the remaining follower has a heartbeat"); vp_reach("removed");
    } else {
        size_t h = hb_timer(vp_choose("which", 2)); start_timer(h); ulong nt = vp_u64("newer"); vp_assume(nt > vterm && nt < TMAX); int by = vp_choose("by", 3); ulong pt = vp_u64("pt"); vp_assume(pt <= nt); int owed = -1; if (by == 2) { size_t o = hb_timer(1); if (o == h) vp_kill(); fire((int)o); owed = pending_to(3, msg_type::append_entries_request); if (owed < 0) vp_kill(); } vp_explore(PRE, 0); uint64_t t = vp_thread_create(&timer_thread, nullptr); if (by < 2) { req_msg r(nt, by ? msg_type::vote_request : msg_type::append_entries_request, 2, 1, pt, 0, 0); W->srv->process_req(r); } else raw_answer(owed, mkresp(nt, msg_type::append_entries_response, 3, 1, false)); vp_thread_join(t); vp_explore(-1, 0); vp_run_others();
        vp_assert(!W->leader && election_timer() >= 0, "a deposed leader waits for the next one"); for (size_t k = 0; k < W->tm.size(); k++) if (!W->tm[k].election) vp_assert(!W->tm[k].pending, "a follower sends no heartbeats"); for (auto& o : W->out) if (o.req->get_type() == msg_type::append_entries_request) vp_assert(o.req->get_term() == vterm, "a follower sends no heartbeats"); vp_reach("deposed");
    }
    vp_out("term", W->d_term);
}
// a server is stopped while a failed membership request waits to be sent again; and if it is not stopped, the request is sent again
HARNESS(timer_retry) {
    new_world(1); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; W->d_conf = mkconf(3, 1, 0); W->params->snapshot_distance_ = 0; W->params->election_timeout_lower_bound_ = 1000; W->params->election_timeout_upper_bound_ = 2000; { ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); } W->sm_idx = 1; boot(); lead(3); for (int32 p = 2; p <= 3; p++) { int i = pending_to(p, msg_type::append_entries_request); if (i >= 0) answer(i, mkresp(vterm, msg_type::append_entries_response, p, last_idx() + 1, true)); }
    bool join = vp_choose("join", 2); int32 who = join ? 4 : 3; req_msg r(0, join ? msg_type::add_server_request : msg_type::remove_server_request, 0, 1, 0, 0, 0); if (join) { ptr<srv_config> s = mksrv(4); r.log_entries().push_back(cs_new<log_entry>(0, s->serialize(), log_val_type::cluster_server)); } else { bufptr b = buffer::alloc(sz_int); b->put((int32)3); b->pos(0); r.log_entries().push_back(cs_new<log_entry>(0, std::move(b), log_val_type::cluster_server)); }
    W->in_ext = true; ptr<resp_msg> p = deliver(r); vp_assert(p && p->get_accepted(), "a change is taken"); int times = 1 + vp_choose("failures", 2);
    for (int k = 0; k < times; k++) {
        int i = pending_to(who, join ? msg_type::join_cluster_request : msg_type::leave_cluster_request); vp_assert(i >= 0, "the server is told, and told again after a failure"); answer_err(i); int q = -1; for (size_t m = 0; m < W->tm.size(); m++) if (W->tm[m].retry && W->tm[m].pending) { vp_assert(q < 0, "one retry at a time"); q = (int)m; } vp_assert(q >= 0, "a failed request is tried again"); if (k + 1 < times) fire(q);
    }
    int then = vp_choose("then", 4);
    if (then >= 2) {      // the leadership ends meanwhile; this server may be elected again
        ulong nt = vp_u64("newer"); vp_assume(nt > W->d_term && nt < TMAX - 2); req_msg q(nt, msg_type::vote_request, 2, 1, 0, 0, 0); deliver(q); vp_assert(!W->leader, "deposed"); if (then == 3) lead(3); size_t o = W->out.size(); for (size_t m = 0; m < W->tm.size(); m++) if (W->tm[m].retry && W->tm[m].pending) fire((int)m);
        vp_assert(W->out.size() == o && pending_to(who, join ? msg_type::join_cluster_request : msg_type::leave_cluster_request) < 0, "a request of an ended leadership is not sent again"); vp_reach("given up");
    } else if (then == 0) { delete W->srv; W->gone = true; for (auto& t : W->tm) vp_assert(!t.pending, "no timer is left running"); for (auto& t : W->tm) t.task->execute(); vp_reach("stopped"); }
    else { for (size_t m = 0; m < W->tm.size(); m++) if (W->tm[m].retry && W->tm[m].pending) { fire((int)m); break; } vp_assert(pending_to(who, join ? msg_type::join_cluster_request : msg_type::leave_cluster_request) >= 0, "a failed request is sent again"); vp_reach("sent again"); }
    vp_out("term", W->d_term - T);
}
