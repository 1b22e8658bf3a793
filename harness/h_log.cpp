// Replication: C04 (log matching on followers), C05 (commit rule of leaders), C06 (applied exactly once, in order), C14 (one outstanding
// request per peer, heartbeats), C24 (truthful requests), C25 (catching up).
#include "raft_env.hpp"
#include "raft_lead.hpp"

// ---------------------------------------------------------------- a leader's log as the rest of the cluster knows it
struct model_log { int n; ulong term[8]; bool conf[8]; };       // 1-based: term[i], i = 1..n
static byte ltag(int i) { return (byte)(0x80 + i); }
static ptr<log_entry> ment(model_log& L, int i) { if (L.conf[i]) { ptr<cluster_config> c = mkconf(3, i, 0); return mkconfent(L.term[i], *c); } return mkent(L.term[i], ltag(i)); }
static ulong mterm(model_log& L, int i) { return i == 0 ? 0 : L.term[i]; }
static ptr<resp_msg> append_from(model_log& L, int32 src, ulong term, int prev, int cnt, ulong commit) {
    req_msg r(term, msg_type::append_entries_request, src, W->id, mterm(L, prev), prev, commit);
    for (int i = prev + 1; i <= prev + cnt; i++) r.log_entries().push_back(ment(L, i));
    ptr<resp_msg> p = deliver(r);
    vp_assert((bool)p && p->get_type() == msg_type::append_entries_response && p->get_src() == W->id && p->get_dst() == src, "an append request is answered to its sender");
    return p;
}
// what the state machine believes is in the log but not yet decided
struct spec_view { std::vector<smop> live; size_t seen = 0;
    void sync() {
        for (; seen < W->sm.size(); seen++) {
            smop o = W->sm[seen];
            if (o.kind == A_PRE) { for (auto& x : live) vp_assert(x.idx != o.idx, "an entry is offered to the state machine only after what was there before is rolled back"); live.push_back(o); }
            else if (o.kind == A_ROLLBACK) {
                bool ok = false; for (size_t k = 0; k < live.size(); k++) if (live[k].idx == o.idx && live[k].tag == o.tag) { live.erase(live.begin() + k); ok = true; break; }
                vp_assert(ok, "only entries the state machine was offered are rolled back, once");
            }
        }
    }
    void check() {
        sync(); size_t apps = 0;
        for (size_t k = 0; k < W->log->v.size(); k++) {
            log_entry& e = *W->log->v[k]; if (e.get_val_type() != log_val_type::app_log) continue; apps++;
            bool ok = false; for (auto& x : live) if (x.idx == W->log->start + k && x.tag == tag_of(e)) ok = true;
            vp_assert(ok, "every entry stored in the log is offered to the state machine");
        }
        size_t in = 0; for (auto& x : live) if (x.idx >= W->log->start) in++;
        vp_assert(in == apps, "every entry removed from the log is rolled back");
    }
};
static void seed_view(spec_view& v) { for (size_t k = 0; k < W->log->v.size(); k++) if (W->log->v[k]->get_val_type() == log_val_type::app_log) v.live.push_back({A_PRE, W->log->start + k, tag_of(*W->log->v[k])}); }

// A follower with an arbitrary log (possibly diverged after its commit index) and a current leader with an arbitrary log that
// agrees with it as Raft's invariants demand (log matching, leader completeness).
static void diverged(model_log& L, int flen, int llen, int snap, int commit, ulong T, int confat_f, int confat_l, int keep = 0) {
    W->d_conf = mkconf(3, 1, 0); W->d_term = vp_u64("my_term"); vp_assume(W->d_term >= 1 && W->d_term <= T);
    L.n = llen; ulong p = 1; for (int i = 1; i <= llen; i++) { L.term[i] = vp_u64("lead_term"); L.conf[i] = i == confat_l; vp_assume(L.term[i] >= p && L.term[i] <= T); p = L.term[i]; }
    ulong f[8]; p = 1; for (int i = 1; i <= flen; i++) { f[i] = vp_u64("my_log_term"); vp_assume(f[i] >= p && f[i] <= W->d_term); p = f[i]; }
    for (int i = 1; i <= flen && i <= llen; i++) {
        if (i <= commit || i <= snap) vp_assume(f[i] == L.term[i]);
        else if (i > 1) vp_assume(f[i] != L.term[i] || f[i - 1] == L.term[i - 1]);
    }
    if (snap) { W->snp = cs_new<snapshot>(snap, f[snap], mkconf(3, 1, 0), 5); W->log->start = snap + 1 - keep; }
    for (int i = snap + 1 - keep; i <= flen; i++) {
        ptr<log_entry> e;
        if (i == confat_f) { ptr<cluster_config> c = mkconf(3, i, 0); e = mkconfent(f[i], *c); } else e = mkent(f[i], i <= commit ? ltag(i) : (byte)(0x10 + i));
        W->log->append(e);
    }
    W->sm_idx = commit; W->log->writes = 0;
}
HARNESS(append_follower) {
    new_world(1); const int M = VP_THOROUGH ? 4 : 3;
    int flen = vp_choose("my_len", M + 1), llen = vp_choose("lead_len", M + 1), snap = vp_choose("snap", flen < llen ? flen + 1 : llen + 1);
    int cmax = flen < llen ? flen : llen; if (snap > 2 && !VP_THOROUGH) vp_kill(); int commit = snap + vp_choose("commit", cmax - snap + 1); int keep = snap > 1 ? vp_choose("reserved", VP_THOROUGH ? snap : 2) : 0;
    int cf = vp_choose("my_conf", 2) ? flen : 0; if (cf && cf <= commit) vp_kill(); int cl = 0;
    ulong T = vp_u64("lead_cur_term"); vp_assume(T >= 1 && T < TMAX);
    model_log L; diverged(L, flen, llen, snap, commit, T, cf, cl, keep);
    boot(); spec_view view; seed_view(view); view.seen = W->sm.size();
    const int R = 1; bool late = vp_choose("late", 2);
    for (int r = 0; r < R; r++) {
        std::vector<ptr<log_entry>> old = W->log->v; ulong ostart = W->log->start; ulong olast = last_idx();
        int prev = vp_choose("prev", llen + 1), cnt = vp_choose("cnt", llen - prev + 1);
        ulong ci = vp_u64("commit_idx"); vp_assume(ci <= (ulong)llen);
        for (int i = 1; i <= flen && i <= llen; i++) (void)i;
        if (late) {      // from a leader of an earlier term
            ulong t = vp_u64("old_term"); vp_assume(t >= 1 && t < W->d_term); int ow = W->log->writes; size_t nsm = W->sm.size(); ulong term = W->d_term; int32 vote = W->d_vote; ptr<resp_msg> p = append_from(L, 2, t, prev, cnt, ci);
            vp_assert(!p->get_accepted(), "a request of an earlier leader is refused"); vp_assert(W->log->writes == ow && W->log->v == old && W->sm.size() == nsm && W->d_term == term && W->d_vote == vote, "a request of an earlier leader changes nothing"); vp_reach("late"); return;
        }
        ptr<resp_msg> p = append_from(L, 2, T, prev, cnt, ci);
        auto oterm = [&](int i) -> ulong { return i == 0 ? 0 : (ulong)i < ostart ? (i == snap ? W->snp->get_last_log_term() : mterm(L, i)) : old[i - ostart]->get_term(); };
        bool holds = prev == 0 || ((ulong)prev <= olast && oterm(prev) == mterm(L, prev));
        vp_assert(p->get_accepted() == holds, "an append request is accepted exactly if the entry before the new ones is in the log");
        if (!holds) {
            vp_assert(W->log->writes == 0 && last_idx() == olast, "a refused append changes nothing"); vp_assert(p->get_next_idx() <= olast + 1, "a refusal names an index inside the log to continue from"); vp_reach("refused");
        } else {
            vp_assert(p->get_next_idx() == (ulong)(prev + cnt + 1), "acceptance confirms exactly the entries of the request");
            vp_assert(last_idx() >= (ulong)(prev + cnt), "accepted entries are in the log");
            int conflict = 0;
            for (int i = prev + 1; i <= prev + cnt; i++) {
                if ((ulong)i < ostart) continue;
                bool had = (ulong)i <= olast && oterm(i) == L.term[i]; if (!had && !conflict) conflict = i;
                log_entry& e = *W->log->v[i - ostart];
                vp_assert(e.get_term() == L.term[i], "accepted entries carry the leader's terms");
                vp_assert(had && !conflict ? &e == old[i - ostart].get() || tag_of(e) == ltag(i) : tag_of(e) == ltag(i), "accepted entries carry the leader's content");
            }
            for (ulong i = ostart; i <= olast; i++) {
                if (conflict && i >= (ulong)conflict) break;
                vp_assert(i <= last_idx() && W->log->v[i - ostart] == old[i - ostart], "entries before the first difference are kept");
            }
            if (conflict) { vp_assert(last_idx() == (ulong)(prev + cnt), "entries after a difference are discarded"); if ((ulong)conflict <= olast) vp_reach("conflict"); vp_assert(conflict > commit, "committed entries are never replaced"); }
            else vp_assert(last_idx() == olast, "an append without news changes nothing");
            vp_reach("accepted");
        }
        view.check();
        // configuration changes: a server knows of one exactly if an uncommitted one is in its log (asked through leave requests)
        vp_out("acc", p->get_accepted()); vp_out("last", last_idx());
    }
}

// ---- C06: what is applied, in which order
static std::vector<byte>* gt;      // committed content by index (0: unknown)
struct apply_check { size_t seen = 0; ulong last;
    void check(ulong committed_max, std::function<byte(ulong)> content, std::function<bool(ulong)> is_app) {
        for (; seen < W->sm.size(); seen++) {
            smop o = W->sm[seen]; if (o.kind != A_COMMIT) continue;
            for (ulong i = last + 1; i < o.idx && i < last + 10; i++) vp_assert(!is_app(i), "no entry is skipped");
            vp_assert(o.idx > last, "entries are applied in increasing order, once"); vp_assert(o.idx <= committed_max, "only committed entries are applied"); vp_assert(o.tag == content(o.idx), "the applied content is the committed content"); last = o.idx;
        }
    }
};
HARNESS(apply_follower) {
    from_start = true;
    new_world(1); const int M = 3; int flen = vp_choose("my_len", M + 1), llen = 1 + vp_choose("lead_len", M), snap = vp_choose("snap", 2); if (snap > flen) vp_kill();
    int cmax = flen < llen ? flen : llen; int commit = snap + vp_choose("commit", cmax - snap + 1);
    ulong T = vp_u64("lead_cur_term"); vp_assume(T >= 1 && T < TMAX); int confl = vp_choose("conf", 2) ? llen : 0;
    model_log L; if (confl && confl <= commit) vp_kill(); diverged(L, flen, llen, snap, commit, T, 0, confl); W->d_conf = mkconf(3, confl ? 0 : 1, 0); if (confl) W->d_conf = mkconf(3, 1, 0);
    boot(); apply_check ac; ac.last = commit;
    auto content = [&](ulong i) -> byte { return i <= (ulong)llen ? ltag((int)i) : 0; }; auto isapp = [&](ulong i) -> bool { return !(confl && i == (ulong)confl); };
    ulong cmaxseen = commit; const int K = VP_THOROUGH ? 3 : 2; int crashes = 0; ulong must = commit;
    for (int k = 0; k < K; k++) {
        if (k && crashes == 0 && vp_choose("crash", 2)) { crashes++; crash_and_restart(); vp_reach("restart"); }
        int prev = vp_choose("prev", llen + 1), cnt = vp_choose("cnt", llen - prev + 1);
        ulong ci = vp_u64("commit_idx"); vp_assume(ci >= (ulong)commit && ci <= (ulong)llen);
        if (ci > cmaxseen) cmaxseen = ci;
        ptr<resp_msg> p = append_from(L, 2, T, prev, cnt, ci);
        // entries that had the same term but another tag are the same entry: rename
        ac.check(cmaxseen, [&](ulong i) -> byte { for (size_t q = 0; q < W->log->v.size(); q++) if (W->log->start + q == i && i <= (ulong)llen && W->log->v[q]->get_term() == L.term[i]) return tag_of(*W->log->v[q]); return content(i); }, isapp);
        if (p->get_accepted()) { ulong r = (ulong)(prev + cnt); if (ci < r) r = ci; if (r > must) must = r; vp_reach("accepted"); }
        ulong lastapp = must; while (lastapp > (ulong)commit && !isapp(lastapp)) lastapp--;
        vp_assert(ac.last >= lastapp, "entries known to be committed are applied");
        if (ac.last > (ulong)commit) vp_reach("applied");
    }
    vp_out("applied", ac.last); vp_out("sm", W->sm.size());
}

// answers alone, without any heartbeat, bring every follower up to date
static void drain(int n, int32 except) {
    for (bool more = true; more;) { more = false; for (int32 p = 2; p <= n; p++) if (pending_to(p, msg_type::append_entries_request) >= 0) { peer_ack(p, true, 0); more = true; } }
    for (int32 p = 2; p <= n; p++) {
        ulong told = 0; for (size_t q = W->out.size(); q-- > 0 && !told;) if (W->out[q].to == p && W->out[q].req->get_type() == msg_type::append_entries_request) told = W->out[q].req->get_commit_idx() + 1;
        vp_assert(p == except || told == cv.known + 1, "every follower is told the commit index as soon as it answered, without waiting for a heartbeat"); vp_assert(p == except || cv.match[p] == last_idx(), "every follower is sent what it lacks as soon as it answered, without waiting for a heartbeat");
    }
}
HARNESS(commit_leader) {
    int n = 1 + vp_choose("servers", 5); new_world(1); W->d_conf = mkconf(n, 1, 0); W->params->max_append_size_ = 1 + vp_choose("limit", 2) * 99;
    ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; int len = 1 + vp_choose("len", 2); fill_log(len, T); int c0 = vp_choose("commit", len + 1); W->sm_idx = c0;
    cv.reset(n, c0); vterm = 0; boot(); on_send = append_monitor; if (n == 1) cv.reset(n, c0);
    lead(n); if (n == 1) { vterm = W->d_term; }
    apply_check ac; ac.last = c0; auto content = [&](ulong i) -> byte { return tag_of(*W->log->v[i - 1]); }; auto isapp = [](ulong) { return true; };
    const int K = n == 1 ? 2 : n <= 3 ? (VP_THOROUGH ? 6 : 5) : (VP_THOROUGH ? 5 : 4);
    int errs = 0; if (vp_choose("client0", 2)) client(0x40);
    for (int k = 0; k < K; k++) {
        int a = vp_choose("event", n + 1);
        if (a == 0) { if (W->log->v.size() >= 4) vp_kill(); vp_assert(client((byte)(0x41 + k)), "the leader accepts client entries"); if (n == 1) cv.known = last_idx(); }
        else if (a == 1) { if (k == 0 || n == 1) vp_kill(); int32 p = 2; int i = pending_to(p, msg_type::append_entries_request); if (i < 0) vp_kill(); answer_err(i); errs++; }
        else { int32 p = a; bool acc = p > 2 || vp_choose("acc", 2); if (!peer_ack(p, acc, 1 + vp_choose("hint", 2))) vp_kill(); }
        if (n == 1) cv.known = last_idx();
        ac.check(cv.known, content, isapp);
        vp_assert(sent_commit() <= cv.known, "a leader announces only entries of a majority, decided in its own term, as committed");
        vp_assert(ac.last == cv.known || n == 1, "entries of the leader's term held by a majority are committed");
        if (cv.known > (ulong)c0) vp_reach("advanced");
    }
    if (n > 1 && n <= 3) drain(n, errs ? 2 : 0);
    vp_out("known", cv.known); vp_out("applied", ac.last);
}
// a leader that loses and regains leadership forgets what followers confirmed before
HARNESS(commit_reelected) {
    const int n = 3; new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; fill_log(1, T); W->sm_idx = vp_choose("commit", 2);
    ulong c0 = W->sm_idx; cv.reset(n, c0); boot(); on_send = append_monitor; lead(n); apply_check ac; ac.last = c0;
    int nc = vp_choose("clients", 3); for (int i = 0; i < nc; i++) client((byte)(0x41 + i));
    for (int32 p = 2; p <= 3; p++) { int m = vp_choose("acks", p == 2 ? 3 : 1); for (int i = 0; i < m; i++) if (!peer_ack(p, true, 0)) vp_kill(); }
    ac.check(cv.known, [&](ulong i) -> byte { return tag_of(*W->log->v[i - 1]); }, [](ulong) { return true; });
    // another leader of a later term: it holds everything committed so far and may replace the rest
    ulong T2 = vp_u64("term2"); vp_assume(T2 > W->d_term && T2 < TMAX); ulong keep = cv.known + vp_choose("keep", 2); if (keep > last_idx()) vp_kill(); int fresh = vp_choose("fresh", 2);
    { req_msg r(T2, msg_type::append_entries_request, 3, 1, cv.term_of(keep), keep, cv.known); if (fresh) r.log_entries().push_back(mkent(T2, 0x60)); ptr<resp_msg> p = deliver(r); vp_assert(p->get_accepted() && !W->leader, "a follower of the new leader"); vp_reach("deposed"); }
    ulong known = cv.known; cv.reset(n, known); lead(n); ulong T3 = vterm; vp_assert(T3 > T2, "a later term");
    if (vp_choose("client", 2)) client(0x50);
    for (int k = 0; k < 3; k++) {
        int32 p = 2 + vp_choose("peer", 2); if (!peer_ack(p, vp_choose("acc", 2), 1)) vp_kill();
        vp_assert(sent_commit() <= cv.known, "a leader announces only entries of a majority, decided in its own term, as committed");
        vp_assert(applied_idx() <= cv.known, "a re-elected leader applies only entries a majority confirmed again");
        if (cv.known > known) vp_reach("advanced");
    }
    vp_out("known", cv.known);
}

// what one of five confirmed and lost again does not count towards a later majority
HARNESS(commit_stale_match) {
    const int n = 5; new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; fill_log(1, T); W->sm_idx = vp_choose("commit", 2); ulong c0 = W->sm_idx; cv.reset(n, c0); boot(); on_send = append_monitor; lead(n);
    int nc = 1 + vp_choose("clients", 3); for (int i = 0; i < nc; i++) client((byte)(0x41 + i)); int32 early = 2 + 3 * vp_choose("early", 2); int m = vp_choose("acks", 3); for (int i = 0; i < m; i++) if (!peer_ack(early, true, 0)) vp_kill(); vp_assert(applied_idx() <= c0, "one confirmation of five commits nothing");
    ulong T2 = vp_u64("term2"); vp_assume(T2 > W->d_term && T2 < TMAX); ulong keep = c0 + vp_choose("keep", 2); if (keep > last_idx()) vp_kill(); int fresh = vp_choose("fresh", 2);
    { req_msg r(T2, msg_type::append_entries_request, 3, 1, cv.term_of(keep), keep, c0); if (fresh) r.log_entries().push_back(mkent(T2, 0x60)); ptr<resp_msg> p = deliver(r); vp_assert(p->get_accepted() && !W->leader, "a follower of the new leader"); }
    cv.reset(n, c0); lead(n); int more = 1 + vp_choose("more", 2); for (int i = 0; i < more; i++) client((byte)(0x50 + i));
    for (int32 q = 2; q <= 5; q++) for (int k = vp_choose("peer_acks", 3); k > 0; k--) { if (!peer_ack(q, true, 0)) vp_kill(); vp_assert(sent_commit() <= cv.known, "a leader announces only entries of a majority, decided in its own term, as committed"); vp_assert(applied_idx() <= cv.known, "a re-elected leader applies only entries a majority confirmed again"); if (cv.known > c0) { vp_assert(applied_idx() == cv.known, "entries of the leader's term held by a majority are committed"); vp_reach("advanced"); } }
    vp_out("known", cv.known);
}
// ---- C25: a follower with any log catches up with its leader
HARNESS(catch_up) {
    const int n = 2; new_world(1); W->d_conf = mkconf(n, 1, 0); W->params->max_append_size_ = 1 + vp_choose("limit", 3);
    int len = 1 + vp_choose("len", 4); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T;
    int snap = vp_choose("snap", 2) ? len - 1 : 0, keep = 0; ulong base = 0;
    if (snap) { W->snp = cs_new<snapshot>(snap, 1, mkconf(n, 1, 0), 1 + 98 * vp_choose("big", 2)); W->log->start = snap + 1 - (keep = snap > 1 ? vp_choose("reserved", 2) : 0); W->sm_idx = snap; }
    fill_log(len - snap + keep, T); if (keep) { for (int i = 0; i < keep; i++) vp_assume(W->log->v[i]->get_term() == 1); } cv.reset(n, snap);
    // the follower: an arbitrary log that agrees with the leader's on a prefix
    std::vector<ulong> f; int flen = vp_choose("flen", 5), same = vp_choose("same", 5); if (same > flen || same > len) vp_kill();
    for (int i = 1; i <= flen; i++) { if (i <= same) f.push_back(cv.term_of(i) && i >= (int)W->log->start ? cv.term_of(i) : (i <= snap ? 1 : 1)); else { ulong t = vp_u64("fterm"); vp_assume(t >= 1 && t < TMAX); if (i <= len && (ulong)i >= W->log->start) vp_assume(t != cv.term_of(i)); f.push_back(t); } }
    if (snap && same < snap && flen > same) vp_kill();       // what a snapshot covers is committed; a follower holds a prefix of it or nothing
    ulong fsnap = 0; (void)base;
    boot(); on_send = append_monitor; lead(n); W->content = [](ulong) -> byte { return 9; };
    auto fterm = [&](ulong i) -> ulong { return i == 0 ? 0 : i <= fsnap ? (ulong)1 : f[i - 1]; };
    if (vp_choose("client", 2)) client(0x70);
    int rounds = 0, parts = 0; bool done = false; ulong Lc = 0;
    for (; rounds < 24 && !done; rounds++) {
        int i = pending_to(2, msg_type::append_entries_request); int j = pending_to(2, msg_type::install_snapshot_request);
        if (i < 0 && j < 0) vp_fail("a lagging follower's answer is followed by the next request at once, without waiting for a heartbeat");
        if (j >= 0) { req_msg& r = *W->out[j].req; fsnap = r.get_last_log_idx(); if (f.size() < fsnap) f.resize(fsnap, 1); bool part = W->snp->size() > 1 && !parts++; answer(j, mkresp(r.get_term(), msg_type::install_snapshot_response, 2, part ? 1 : W->snp->size(), true)); vp_reach("snapshot"); continue; }
        req_msg& r = *W->out[i].req; ulong pi = r.get_last_log_idx();
        if (pi > f.size() || fterm(pi) != r.get_last_log_term()) { answer(i, mkresp(r.get_term(), msg_type::append_entries_response, 2, f.size() + 1, false)); vp_reach("backed up"); continue; }
        ulong k = 0; for (; k < r.log_entries().size(); k++) if (pi + k + 1 > f.size() || fterm(pi + k + 1) != r.log_entries()[k]->get_term()) break;
        if (k < r.log_entries().size()) { f.resize(pi + k); for (; k < r.log_entries().size(); k++) f.push_back(r.log_entries()[k]->get_term()); }
        Lc = r.get_commit_idx() < pi + r.log_entries().size() ? r.get_commit_idx() : pi + r.log_entries().size();
        answer(i, mkresp(r.get_term(), msg_type::append_entries_response, 2, pi + r.log_entries().size() + 1, true));
        done = f.size() >= last_idx(); for (ulong q = W->log->start; q <= last_idx() && done; q++) if (fterm(q) != cv.term_of(q)) done = false;
        // decided only in the leader's own term
        if (done && cv.term_of(last_idx()) == vterm && Lc < last_idx()) done = false;
    }
    vp_assert(done, "a follower that answers truthfully ends up with the leader's log and commit index"); vp_reach("caught up"); vp_out("rounds", rounds);
}

HARNESS(prompt) {
    const int n = 3; new_world(1); W->d_conf = mkconf(n, 1, 0); W->params->max_append_size_ = 1 + vp_choose("limit", 2); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; int len = 1 + vp_choose("len", 2); fill_log(len, T); int c0 = vp_choose("commit", len + 1); W->sm_idx = c0; cv.reset(n, c0); boot(); on_send = append_monitor; lead(n);
    for (int k = 0; k < (VP_THOROUGH ? 7 : 6); k++) { int a = vp_choose("event", 4); if (a == 3) break; if (a == 0) { if (last_idx() >= 5) vp_kill(); client((byte)(0x41 + k)); vp_reach("client"); } else { bool acc = vp_choose("acc", 2); ulong hint = 1; if (!acc) { hint = vp_u64("hint"); vp_assume(hint >= cv.match[1 + a] + 1 && hint <= last_idx() + 1); int i = pending_to(1 + a, msg_type::append_entries_request); if (i < 0) vp_kill(); ulong pi = W->out[i].req->get_last_log_idx(); vp_assume(pi > cv.match[1 + a] && hint <= pi); hint = vp_concretize(hint); vp_reach("behind"); } if (!peer_ack(1 + a, acc, hint)) vp_kill(); } }
    drain(n, 0); vp_out("known", cv.known);
}

// ---- C14: heartbeats
HARNESS(heartbeats) {
    const int n = 2 + vp_choose("servers", 2); new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = 5; W->d_term = T; fill_log(1, T); W->sm_idx = 1;
    static const int32 los[] = {2, 150, 5000}; int32 lo = los[vp_choose("lower", 3)], up = lo;
    int32 hb = (int32)vp_u32("hb"), back = (int32)vp_u32("backoff"); vp_assume(hb >= 1 && hb <= 2 * lo && back >= 0 && back < (1 << 20));
    W->params->heart_beat_interval_ = hb; W->params->rpc_failure_backoff_ = back; W->params->election_timeout_lower_bound_ = lo; W->params->election_timeout_upper_bound_ = up; W->params->prevote_enabled_ = n > 2 && vp_choose("prevote", 2);
    cv.reset(n, 1); boot(); on_send = append_monitor; lead(n); int32 maxhb = W->params->max_hb_interval();
    const int32 P = 2; int fails = 0; int32 expect = hb;
    const int K = VP_THOROUGH ? 6 : 5;
    for (int k = 0; k <= K; k++) {
        int pend = 0; for (auto& t : W->tm) if (!t.election && t.pending) { pend++; vp_assert(t.ms >= (hb < maxhb ? hb : maxhb) && t.ms <= (hb > maxhb ? hb : maxhb), "the heartbeat interval stays between its configured bounds"); }
        vp_assert(pend == n - 1, "a leader keeps a heartbeat timer for every follower"); vp_assert(election_timer() < 0, "a leader has no election timer");
        int a = k == K ? 0 : vp_choose("event", n > 2 ? 5 : 4); int i = pending_to(P, msg_type::append_entries_request);
        if (a == 0) {          // every heartbeat timer fires
            size_t before = W->out.size(); int nt = (int)W->tm.size(); int idle = 0; for (int32 q = 2; q <= n; q++) if (pending_to(q, msg_type::append_entries_request) < 0) idle++;
            for (int t = 0; t < nt; t++) if (!W->tm[t].election && W->tm[t].pending) fire(t);
            vp_assert(W->out.size() == before + idle, "a heartbeat sends one request to every follower that owes no answer"); vp_reach("beat");
            bool found = false; for (auto& t : W->tm) if (!t.election && t.pending && t.ms == expect) found = true; vp_assert(found, "after failures the interval grows by the back-off, after success it is the configured one");
        } else if (a == 4) { int v = pending_to(3, vp_choose("pre", 2) ? msg_type::prevote_request : msg_type::vote_request); if (v < 0) vp_kill(); size_t before = W->out.size(); msg_type ty = W->out[v].req->get_type() == msg_type::vote_request ? msg_type::vote_response : msg_type::prevote_response; answer(v, mkresp(W->out[v].req->get_term(), ty, 3, 1, vp_choose("acc", 2))); vp_assert(W->out.size() == before, "a late vote makes a leader send nothing"); vp_reach("late vote"); }
        else if (a == 3) { if (last_idx() > 2) vp_kill(); client(0x33); vp_reach("client"); }
        else if (a == 1) { if (i < 0) vp_kill(); answer_err(i); fails++; int64_t e = (int64_t)expect + back; expect = e > maxhb ? maxhb : (int32)e; vp_reach("failed"); }
        else { if (i < 0) vp_kill(); size_t before = W->out.size(); peer_ack(P, true, 0); expect = hb; fails = 0; (void)before; vp_reach("answered"); }
    }
    // stepping down stops all heartbeats
    { req_msg r(W->d_term + 1, msg_type::append_entries_request, 2, 1, cv.term_of(1), 1, 1); deliver(r); for (auto& t : W->tm) vp_assert(t.election || !t.pending, "a server that stops leading stops its heartbeats"); vp_assert(election_timer() >= 0, "and waits for an election timeout"); }
    vp_out("sent", W->out.size());
}

// answers of an earlier leadership of this server come in late
HARNESS(late_answers) {
    const int n = 3; new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX - 8); W->d_term = T; fill_log(1, T); W->sm_idx = 1; cv.reset(n, 1); boot(); on_send = append_monitor; lead(n); bool again = false;
    for (int k = 0; k < (VP_THOROUGH ? 6 : 5); k++) {
        int a = vp_choose("event", 5); int old = -1, cur = -1; for (size_t i = 0; i < W->out.size(); i++) if (!W->out[i].done && W->out[i].to == 2 && W->out[i].req->get_type() == msg_type::append_entries_request) { if (W->out[i].req->get_term() == vterm) cur = (int)i; else old = (int)i; }
        if (a == 0) { for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && W->tm[t].pending) fire((int)t); }
        else if (a == 1) { if (last_idx() >= 3) vp_kill(); client((byte)(0x40 + k)); }
        else if (a == 2) { if (again) vp_kill(); again = true; ulong t2 = vp_u64("term2"); vp_assume(t2 > vterm && t2 < TMAX - 4); req_msg r(t2, msg_type::vote_request, 3, 1, 0, 0, 0); deliver(r); vp_assert(!W->leader, "deposed"); cv.reset(n, cv.known); lead(n); vp_reach("again"); }
        else if (a == 3) { if (old < 0) vp_kill(); int how = vp_choose("how", 3); req_msg& r = *W->out[old].req; if (how == 2) answer_err(old); else answer(old, mkresp(r.get_term(), msg_type::append_entries_response, 2, r.get_last_log_idx() + r.log_entries().size() + 1, how == 0)); vp_reach("late"); }
        else { if (cur < 0) vp_kill(); if (vp_choose("fails", 2)) answer_err(cur); else peer_ack(2, true, 0); vp_reach("answered"); }
        vp_assert(W->leader, "nothing of this ends a leadership"); vp_assert(applied_idx() <= cv.known, "late answers commit nothing");
    }
    for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && W->tm[t].pending) fire((int)t);
    for (int32 p = 2; p <= n; p++) { bool has = false; for (auto& o : W->out) if (!o.done && o.to == p && o.req->get_type() == msg_type::append_entries_request && o.req->get_term() == vterm) has = true; vp_assert(has, "a follower that owes no answer is sent a heartbeat"); }
    vp_out("sent", W->out.size());
}
