// The thread that applies committed entries, against message handling and shutdown: C21.
#include "raft_env.hpp"
#include "raft_lead.hpp"
static byte tags[12]; static void sym_tags() { for (int i = 1; i < 12; i++) tags[i] = vp_u8("content"); }     // content of the entry at each index
static const int PRE = VP_THOROUGH ? 4 : 3;
static void boot_only() {
    raft_params* p = new raft_params(); memcpy((void*)p, (void*)W->params, sizeof *p);
    context* c = new context(cs_new<mock_mgr>(), cs_new<mock_sm>(), cs_new<mock_lis>(), cs_new<mock_log>(), cs_new<mock_fac>(), cs_new<mock_sched>(), cs_new<mock_ev>(), p);
    W->leader = false; W->srv = new raft_server(c);
}
// every entry once, in order; a snapshot replaces what it covers
static void in_order(ulong from, ulong conf = 0) { ulong at = from; for (auto& s : W->sm) if (s.kind == A_COMMIT) { if (W->applied_snp && at < W->applied_snp && s.idx == W->applied_snp + 1) at = W->applied_snp; if (conf && at + 1 == conf) at = conf; vp_assert(s.idx == at + 1, "entries are applied once, in order"); vp_assert(s.tag == tags[s.idx], "what is applied is the committed entry"); at = s.idx; } }
static void settle() { vp_explore(-1, 0); vp_run_others(); }
static ptr<resp_msg> app(ulong T, ulong prev, ulong pt, int n, ulong commit) { req_msg r(T, msg_type::append_entries_request, 2, W->id, pt, prev, commit); for (int i = 0; i < n; i++) r.log_entries().push_back(mkent(T, tags[prev + 1 + i])); return W->srv->process_req(r); }

// what is committed is applied without any further message
static void commit_run(bool told) {
    int role = vp_choose("role", 2); new_world(1); sym_tags(); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; bool early = vp_choose("early", 2);
    if (role == 0) {
        W->d_conf = mkconf(2, 0, 0); W->params->snapshot_distance_ = 0; if (early) vp_explore(PRE, 1); boot_only(); if (!early) { vp_run_others(); vp_explore(PRE, 1); }
        int two = vp_choose("two", 2); ulong c1 = vp_u64("commit1"); vp_assume(c1 <= 2); app(T, 0, 0, 1, c1); ulong want = c1 < 1 ? c1 : 1; ulong n = 1;
        if (two) { ulong c2 = vp_u64("commit2"); vp_assume(c2 >= c1 && c2 <= 2); app(T, 1, T, 1, c2); want = c2; n = 2; vp_reach("two"); }
        settle(); in_order(0); vp_assert(W->sm_idx == want, "what is committed is applied, no message is needed for it"); if (want) vp_reach("applied"); if (told) vp_assert(want == 0 || W->idle_at == want, "being caught up is told after everything is applied"); vp_out("idx", W->sm_idx); (void)n;
    } else {
        W->d_conf = mkconf(1, 0, 0); W->params->snapshot_distance_ = 0; boot_only(); vp_run_others(); election_timeout(); vp_run_others(); vp_assert(W->leader, "alone"); ulong b = W->log->next_slot();
        if (early) { std::vector<bufptr> w; w.push_back(mkbuf(tags[last_idx() + 1])); W->srv->append_entries(w); vp_run_others(); }
        vp_explore(PRE, 1); { std::vector<bufptr> v; v.push_back(mkbuf(tags[last_idx() + 1])); v.push_back(mkbuf(tags[last_idx() + 2])); W->srv->append_entries(v); }
        settle(); in_order(b - 1); vp_assert(W->sm_idx == last_idx() && last_idx() >= b + 1, "what is committed is applied, no message is needed for it"); vp_reach("leader"); if (told) vp_assert(W->idle_at == W->sm_idx, "being caught up is told after everything is applied"); vp_out("idx", W->sm_idx);
    }
}
HARNESS(bg_commit) { commit_run(false); }
HARNESS(bg_told) { commit_run(true); }
// a server can be stopped at any moment: the stop ends and nothing of the server runs afterwards
HARNESS(bg_stop) {
    new_world(1); sym_tags(); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; W->d_conf = mkconf(2, 0, 0); W->params->snapshot_distance_ = 0; int work = vp_choose("work", 4); bool early = vp_choose("early", 2); if (work == 2) { ptr<cluster_config> c = mkconf(3, 1, 0); ptr<log_entry> e = mkconfent(T, *c); W->log->append(e); } if (work == 1) { ptr<log_entry> e = mkent(T, tags[1]); W->log->append(e); }
    W->yields = true; if (early) vp_explore(PRE, 1); boot_only(); if (!early) { vp_run_others(); vp_explore(PRE, 1); }
    if (work == 3) { election_timer(); int k = election_timer(); vp_assert(k >= 0, "a timer runs"); ptr<delayed_task> t = W->tm[k].task; W->tm[k].pending = false; t->execute(); int v = pending_to(2, msg_type::vote_request); vp_assert(v >= 0, "a vote is asked for"); rpc_handler h = W->out[v].h; ptr<resp_msg> y = mkresp(W->d_term, msg_type::vote_response, 2, 1, true); h(y, ptr<rpc_exception>()); vp_assert(W->leader, "leads"); }
    else if (work) app(T, 1, T, 0, 1);
    delete W->srv; W->gone = true; settle(); in_order(0); vp_assert(W->sm_idx <= 1, "only committed entries are applied"); vp_reach(work == 3 ? "leader" : work == 2 ? "conf" : work ? "entry" : "idle"); if (W->sm_idx == 0 && work == 1) vp_reach("stopped before"); for (auto& t : W->tm) vp_assert(!t.pending, "no timer is left running"); vp_out("conf_saves", W->conf_saves);
}
// a snapshot is installed while entries are being applied
HARNESS(bg_snapshot) {
    new_world(1); sym_tags(); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; W->d_conf = mkconf(2, 0, 0); int dist = vp_choose("distance", 2); W->params->snapshot_distance_ = dist; W->params->reserved_log_items_ = 0; const int L = VP_THOROUGH ? 3 : 2; bool conf = vp_choose("conf", 2);
    for (int i = 0; i < L; i++) { ptr<log_entry> e; if (conf && i == L - 1) { ptr<cluster_config> c = mkconf(3, i + 1, 0); e = mkconfent(T, *c); } else e = mkent(T, tags[1 + i]); W->log->append(e); }
    boot_only(); vp_run_others(); W->yields = W->log->yields = true; ulong at = L + vp_choose("beyond", 2); if (!conf && vp_choose("within", 2)) at = L - 1; vp_explore(PRE, 0);
    ulong cm = vp_u64("commit"); vp_assume(cm <= (ulong)L); app(T, L, T, 0, cm); ptr<cluster_config> sc = mkconf(3, conf ? L : 1, 0); bufptr d = buffer::alloc(1); d->put((byte)7); d->pos(0); ptr<snapshot> sp = cs_new<snapshot>(at, T, sc, 1); snapshot_sync_req q(sp, 0, std::move(d), true);
    req_msg r(T, msg_type::install_snapshot_request, 2, 1, T, at, at); r.log_entries().push_back(cs_new<log_entry>(T, q.serialize(), log_val_type::snp_sync_req)); ptr<resp_msg> p = W->srv->process_req(r);
    if (W->applied_snp == at) { vp_reach("installed"); vp_assert(p->get_accepted(), "an applied snapshot is accepted"); } else { vp_reach("already applied"); vp_assert(at <= cm, "a snapshot newer than the state is taken"); }
    app(T, at, T, 1, at + 1); settle(); vp_assert(W->sm_idx == at + 1, "what follows is applied"); in_order(0, conf ? L : 0); for (auto& s : W->snap_info) vp_assert(s.term == T && s.conf <= s.idx, "a snapshot carries the term of its last entry"); vp_out("idx", W->sm_idx);
}
