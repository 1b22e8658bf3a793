// Snapshots: C10 (transfer, installation, creation and compaction).
#include "raft_env.hpp"
#include "raft_lead.hpp"
static byte cont(ulong i) { return (byte)(i * 7 + 3); }
static ulong confirmed; static ulong conf_snap; static ulong snp_size;      // what the receiver holds of which snapshot
static int ids_of(cluster_config& c) { int m = 0; for (auto& s : c.get_servers()) m |= 1 << s->get_id(); return m; }
static ptr<snapshot_sync_req> parse(req_msg& r) {
    vp_assert(r.log_entries().size() == 1 && r.log_entries()[0]->get_val_type() == log_val_type::snp_sync_req, "a snapshot chunk"); buffer& b = r.log_entries()[0]->get_buf(); size_t p = b.pos(); b.pos(0); ptr<snapshot_sync_req> q = snapshot_sync_req::deserialize(b); b.pos(p); return q; }
static void snap_monitor(world& w, sent& s) {
    append_monitor(w, s); if (s.req->get_type() != msg_type::install_snapshot_request) return;
    req_msg& r = *s.req; ptr<snapshot_sync_req> q = parse(r); snapshot& sn = q->get_snapshot();
    vp_assert(r.get_term() == w.d_term && r.get_src() == w.id && r.get_dst() == s.to, "a snapshot request carries the leader's term and names sender and receiver");
    vp_assert(w.snp && sn.get_last_log_idx() <= w.snp->get_last_log_idx() && r.get_last_log_idx() == sn.get_last_log_idx() && r.get_last_log_term() == sn.get_last_log_term(), "a snapshot request names the snapshot it carries");
    if (sn.get_last_log_idx() == w.snp->get_last_log_idx()) vp_assert(sn.get_last_log_term() == w.snp->get_last_log_term() && sn.size() == w.snp->size() && ids_of(*sn.get_last_config()) == ids_of(*w.snp->get_last_config()), "the snapshot is described truthfully");
    if (conf_snap != sn.get_last_log_idx()) { conf_snap = sn.get_last_log_idx(); confirmed = 0; snp_size = sn.size(); vp_assert(q->get_offset() == 0, "a snapshot is sent from its start"); }
    vp_assert(q->get_offset() == confirmed, "a snapshot is sent without gaps"); ulong n = q->get_data().size(), want = sn.size() - confirmed; ulong blk = w.params->snapshot_block_size_ ? w.params->snapshot_block_size_ : 4096;
    if (want > blk) want = blk; vp_assert(n == want && n > 0, "a chunk has the configured size"); vp_assert(q->is_done() == (confirmed + n == sn.size()), "exactly the last chunk says it is the last");
    for (ulong k = 0; k < n && k < 8; k++) vp_assert(q->get_data().data()[k] == cont(confirmed + k), "a chunk carries the snapshot's bytes");
    for (auto& o : w.out) if (&o != &s && !o.done && o.to == s.to && o.req->get_term() == r.get_term() && (o.req->get_type() == msg_type::append_entries_request || o.req->get_type() == msg_type::install_snapshot_request)) vp_fail("at most one request per follower is outstanding");
}
static void hb() { size_t n = W->tm.size(); for (size_t k = 0; k < n; k++) if (!W->tm[k].election && !W->tm[k].retry && W->tm[k].pending) fire((int)k); }
HARNESS(snap_send) {
    const int n = 2; new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 2 && T < TMAX); W->d_term = T; W->content = cont;
    ulong at = 3, size = 1 + vp_choose("size", 5); W->params->snapshot_block_size_ = 1 + vp_choose("block", 3); W->snp = cs_new<snapshot>(at, 1, mkconf(n, 1, 0), size); W->log->start = at + 1; W->sm_idx = at; int tail = vp_choose("tail", 2); fill_log(tail, T);
    cv.reset(n, at); confirmed = conf_snap = 0; boot(); on_send = snap_monitor; lead(n); peer_ack(2, false, 1 + vp_choose("hint", 2)); bool done = false; int errs = 0, decl = 0;
    for (int k = 0; k < 14 && !done; k++) {
        int j = pending_to(2, msg_type::install_snapshot_request);
        if (j < 0) { int i = pending_to(2, msg_type::append_entries_request); if (i < 0) { hb(); continue; } req_msg& r = *W->out[i].req; vp_assert(conf_snap == at && confirmed == size, "log entries follow when the snapshot is complete"); vp_assert(r.get_last_log_idx() == at && r.get_last_log_term() == 1, "log entries follow the snapshot"); done = true; vp_reach("done"); break; }
        int a = vp_choose("answer", 3); req_msg& r = *W->out[j].req; ptr<snapshot_sync_req> q = parse(r);
        if (a == 0) { confirmed += q->get_data().size(); answer(j, mkresp(r.get_term(), msg_type::install_snapshot_response, 2, confirmed, true)); }
        else if (a == 1) { if (decl++) vp_kill(); answer(j, mkresp(r.get_term(), msg_type::install_snapshot_response, 2, 0, false)); vp_reach("declined"); }
        else { if (errs++) vp_kill(); answer_err(j); vp_reach("failed"); }
    }
    vp_assert(done, "a snapshot transfer that is answered ends"); vp_out("out", W->out.size());
}
// a newer snapshot is taken while a follower is being sent an older one
HARNESS(snap_send_newer) {
    const int n = 3; new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 2 && T < TMAX); W->d_term = T; W->content = cont; ulong at = 3, size = 2 + vp_choose("size", 3); W->params->snapshot_block_size_ = 1 + vp_choose("block", 2); W->params->snapshot_distance_ = 1; W->params->reserved_log_items_ = vp_choose("reserved", 2);
    W->snp = cs_new<snapshot>(at, 1, mkconf(n, 1, 0), size); W->log->start = at + 1; W->sm_idx = at; cv.reset(n, at); confirmed = conf_snap = 0; boot(); on_send = snap_monitor; lead(n); peer_ack(2, false, 1); int when = vp_choose("when", 3); bool made = false, done = false; int slow = vp_choose("slow", 3); auto finish = [&]() { auto h = W->snaps[0].second; bool yes = true; h(yes, ptr<std::exception>()); vp_run_others(); made = true; vp_reach("newer"); }; cv.before = 1;
    for (int k = 0; k < 24 && !done; k++) {
        if (k == when) { for (int c = 0; c < 2; c++) { client(0x41 + c); for (int r = 0; r < 3; r++) peer_ack(3, true, 0); } vp_assert(W->snaps.size() == 1, "a snapshot is taken at the configured distance"); ulong i = W->snaps[0].first; ulong sz2 = 1 + vp_choose("size2", 4); W->snp = cs_new<snapshot>(i, cv.term_of(i), mkconf(n, 1, 0), sz2); if (!slow) finish(); continue; }
        if (slow && k == when + slow) { finish(); continue; }
        int j = pending_to(2, msg_type::install_snapshot_request);
        if (j < 0) { int i = pending_to(2, msg_type::append_entries_request); if (i < 0) { hb(); continue; } req_msg& r = *W->out[i].req; if (made && conf_snap == at && r.get_last_log_idx() == at && W->log->start <= at) { peer_ack(2, false, 1); continue; } vp_assert(confirmed == snp_size, "log entries follow when a snapshot is complete"); vp_assert(r.get_last_log_idx() >= conf_snap, "log entries follow the snapshot"); if (made) { done = true; vp_reach("done"); } else peer_ack(2, true, 0); continue; }
        req_msg& r = *W->out[j].req; ptr<snapshot_sync_req> q = parse(r); confirmed += q->get_data().size(); answer(j, mkresp(r.get_term(), msg_type::install_snapshot_response, 2, confirmed, true));
    }
    vp_assert(done, "a snapshot transfer that is answered ends"); vp_out("out", W->out.size());
}
// sizes of any magnitude: one chunk at any offset the receiver confirmed
HARNESS(snap_send_large) {
    const int n = 2; new_world(1); W->d_conf = mkconf(n, 1, 0); W->d_term = 5; W->content = cont; ulong size = vp_u64("size"), off = vp_u64("offset"); vp_assume(size >= 1 && size < (1ull << 62) && off >= 1 && off < size);
    static const int32 bs[] = {1, 2, 5}; W->params->snapshot_block_size_ = bs[vp_choose("block", 3)]; vp_assume(size > (ulong)W->params->snapshot_block_size_ && off >= (ulong)W->params->snapshot_block_size_); vp_assume(size - off < 3 || size - off > 6);
    W->snp = cs_new<snapshot>(3, 1, mkconf(n, 1, 0), size); W->log->start = 4; W->sm_idx = 3; cv.reset(n, 3); confirmed = conf_snap = 0; boot(); on_send = snap_monitor; lead(n); peer_ack(2, false, 1);
    int j = pending_to(2, msg_type::install_snapshot_request); vp_assert(j >= 0, "a snapshot is sent"); confirmed = off; answer(j, mkresp(W->d_term, msg_type::install_snapshot_response, 2, off, true)); if (pending_to(2, msg_type::install_snapshot_request) < 0) hb();
    vp_assert(pending_to(2, msg_type::install_snapshot_request) >= 0, "the next chunk is sent"); vp_reach("chunk"); if (size > (1ull << 33)) vp_reach("large"); vp_out("out", W->out.size());
}
// a follower takes a snapshot
HARNESS(snap_install) {
    new_world(1); ulong T = vp_u64("term"); vp_assume(T >= 2 && T < TMAX); W->d_term = T; W->d_conf = mkconf(3, 1, 0); int len = vp_choose("len", 5), commit = vp_choose("commit", len + 1); { ptr<log_entry> e = mkconfent(1, *W->d_conf); if (len) W->log->append(e); } fill_log(len ? len - 1 : 0, T); W->sm_idx = commit; bool pend = vp_choose("pending_conf", 2);
    if (pend) { if (commit == len || len < 2) vp_kill(); ptr<cluster_config> c = mkconf(4, len, 1); ptr<log_entry> e = mkconfent(last_term(), *c); W->log->write_at(len, e); if (!commit) W->sm_idx = commit = 1; }
    W->params->snapshot_block_size_ = 2; boot(); ulong at = 1 + vp_choose("at", 5); ulong st = vp_u64("snap_term"); vp_assume(st >= 1 && st <= T); ulong T2 = vp_u64("leader_term"); vp_assume(T2 >= st && T2 < TMAX); int size = 1 + vp_choose("size", 3), blk = 1 + vp_choose("block", 2); int members = 2 + vp_choose("members", 3); ptr<cluster_config> sc = mkconf(members, at > 1 ? at - 1 : 1, 0);
    snapshot sn(at, st, sc, size); std::vector<ptr<log_entry>> old = W->log->v; W->log->fail_compact = vp_choose("compact_fails", 2); ulong t0 = W->d_term; ulong old_next = W->log->next_slot();
    bool ok = T2 >= t0 && at > (ulong)commit; ulong off = 0; bool dup = vp_choose("repeat", 2); 
    while (off < (ulong)size) {
        ulong l = size - off; if (l > (ulong)blk) l = blk; bufptr d = buffer::alloc(l); for (ulong k = 0; k < l; k++) d->put(cont(off + k)); d->pos(0); ptr<snapshot> sp = cs_new<snapshot>(at, st, cpconf(*sc), size); snapshot_sync_req q(sp, off, std::move(d), off + l == (ulong)size); bool last = off + l == (ulong)size;
        req_msg r(T2, msg_type::install_snapshot_request, 2, 1, st, at, at); r.log_entries().push_back(cs_new<log_entry>(T2, q.serialize(), log_val_type::snp_sync_req)); size_t sv = W->saved.size(); int ac = W->applied_cnt;
        ptr<resp_msg> p = deliver(r); vp_assert(p && p->get_type() == msg_type::install_snapshot_response && p->get_dst() == 2, "a snapshot request is answered");
        bool want = ok && !(last && W->log->fail_compact); bool known = T2 >= t0 && at <= (ulong)commit; vp_assert(p->get_accepted() == (want || known), "a chunk is accepted exactly if it is from the current leader and stored or applied already"); if (known) vp_assert(p->get_next_idx() >= (ulong)size, "a snapshot that is applied already is not asked for again");
        if (!ok) { vp_assert(W->saved.size() == sv && W->applied_cnt == ac && W->log->v.size() == old.size(), "a refused snapshot changes nothing"); vp_reach("refused"); return; }
        vp_assert(W->saved.size() == sv + 1 && W->saved.back().first == off && W->saved.back().second == l, "a chunk is stored at its offset"); if (want) vp_assert(p->get_next_idx() == off + l, "the next offset is confirmed"); vp_assert(W->applied_cnt == ac + (last && want), "a snapshot is applied exactly when it is complete");
        if (last && !want) { W->log->fail_compact = false; vp_reach("retry"); vp_assert(W->sm_idx == (ulong)commit && W->log->v.size() == old.size(), "a snapshot that cannot be installed changes nothing"); continue; }      // the leader sends the chunk again
        if (dup && !last) { dup = false; vp_reach("repeated"); continue; }
        off += l;
    }
    for (ulong k = 0; k < (ulong)size; k++) { bool f = false; for (auto& g : W->got) if (g.first == k) { vp_assert(g.second == cont(k), "the stored bytes are the snapshot's"); f = true; } vp_assert(f, "all bytes are stored"); }
    vp_assert(W->applied_snp == at && W->sm_idx == at, "the snapshot is what the state machine applies"); vp_assert(W->log->start == at + 1, "the log continues after the snapshot"); vp_assert(W->log->next_slot() == (old_next > at + 1 ? old_next : at + 1), "entries after the snapshot stay");
    vp_assert(ids_of(*W->d_conf) == ids_of(*sc), "the snapshot's configuration is in force and saved"); if (members >= 2) vp_assert(election_timer() >= 0, "the server watches its leader again");
    // life goes on: entries after the snapshot are taken and applied once
    { req_msg r(T2, msg_type::append_entries_request, 2, 1, st, at, at + 1); r.log_entries().push_back(mkent(T2, 0x77)); size_t s0 = W->sm.size(); bool had = W->log->next_slot() > at + 1 && W->log->v[0]->get_term() == T2; ptr<resp_msg> p = deliver(r); vp_assert(p->get_accepted() && p->get_next_idx() == at + 2, "entries after the snapshot are taken");
      int c = 0; for (size_t k = s0; k < W->sm.size(); k++) if (W->sm[k].kind == A_COMMIT) { c++; vp_assert(W->sm[k].idx == at + 1, "what follows the snapshot is applied next, once"); } (void)had; if (W->log->v[0]->get_val_type() == log_val_type::app_log) vp_assert(c == 1, "what follows the snapshot is applied next, once"); }
    bool leave = !vp_choose("then", 2); if (leave)
    // a membership change that was undecided before is decided by the snapshot: a leave request is declined only while one is undecided
    { bool undecided = false; for (ulong i = at + 2; i < W->log->next_slot(); i++) if (W->log->v[i - at - 1]->get_val_type() == log_val_type::conf) undecided = true; if (!undecided) { req_msg r(T2, msg_type::leave_cluster_request, 2, 1, 0, 0, 0); ptr<resp_msg> p = deliver(r); vp_assert(p && p->get_accepted(), "a snapshot decides the membership changes it covers"); } }
    if (members < 2 || at == 5 || pend || leave) { vp_reach("installed"); vp_out("start", W->log->start); return; }
    // as a leader it passes the snapshot on
    W->content = cont; confirmed = conf_snap = 0; cv.reset(members, at + 1); cv.before = 0; W->out.clear(); on_send = snap_monitor; lead(members); { int i = pending_to(2, msg_type::append_entries_request); vp_assert(i >= 0, "a new leader sends to its followers"); answer(i, mkresp(W->d_term, msg_type::append_entries_response, 2, 1, false)); }
    for (int k = 0; k < 8 && pending_to(2, msg_type::install_snapshot_request) < 0; k++) { if (!peer_ack(2, false, 1)) hb(); } vp_assert(pending_to(2, msg_type::install_snapshot_request) >= 0, "a follower that needs the snapshot gets it");
    vp_reach("installed"); vp_out("start", W->log->start);
}
// snapshots are created of committed states and the log is cut behind them
HARNESS(snap_create) {
    const int n = vp_choose("alone", 2) ? 1 : 2; new_world(1); W->d_conf = mkconf(n, 1, 0); W->d_term = 3; int dist = 1 + vp_choose("distance", 3), keep = vp_choose("reserved", 3) * 2; W->params->snapshot_distance_ = dist; W->params->reserved_log_items_ = keep; bool old = vp_choose("old_snapshot", 2);
    if (old) { W->snp = cs_new<snapshot>(2, 1, mkconf(n, 1, 0), 4); W->log->start = 3; W->sm_idx = 2; ulong t = vp_u64("t"); vp_assume(t >= 1 && t <= 3); ptr<log_entry> e = mkent(t, 0x11); W->log->append(e); cv.reset(n, 2); }
    else { ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); W->sm_idx = 1; cv.reset(n, 1); fill_log(vp_choose("backlog", 3), 3); }
    ulong lastsnap = old ? 2 : 0, floor_ = W->log->start; boot(); on_send = append_monitor; lead(n); size_t seen = 0; std::vector<ulong> conf_at; conf_at.push_back(1); const int K = VP_THOROUGH ? 6 : 5;
    if (n == 1) { }
    for (int k = 0; k < K; k++) {
        int a = vp_choose("event", 3); ulong ap0 = W->sm_idx, start0 = W->log->start; bool idle = seen == W->snaps.size();
        if (a == 0) { client((byte)(0x40 + k)); if (n == 2) { for (int r = 0; r < 3; r++) peer_ack(2, true, 0); } }
        else if (a == 1) { if (seen == W->snaps.size()) vp_kill(); bool okk = vp_choose("ok", 2); auto s = W->snaps[seen++]; if (okk) { W->snp = cs_new<snapshot>(s.first, cv.term_of(s.first), mkconf(n, 1, 0), 4); } ulong st0 = W->log->start, ls0 = last_idx(); auto h = s.second; h(okk, ptr<std::exception>()); vp_run_others();
            ulong want = st0; if (okk) { if (s.first > (ulong)keep && s.first - keep + 1 > want) want = s.first - keep + 1; lastsnap = s.first; vp_reach("created"); } else vp_reach("failed");
            vp_assert(last_idx() == ls0, "compaction removes no entry after the snapshot"); vp_assert(W->log->start == want, "the log keeps exactly the configured number of entries before a snapshot"); }
        else { if (seen == W->snaps.size()) vp_kill(); auto s = W->snaps[seen++]; auto h = s.second; bool no = false; h(no, cs_new<std::exception>()); vp_run_others(); vp_reach("failed"); }
        vp_assert(W->snaps.size() - seen <= 1, "one snapshot is created at a time");
        if (a == 0 && idle) for (ulong i = ap0 + 1; i <= W->sm_idx; i++) if (i - start0 >= (ulong)dist && (!lastsnap || i - lastsnap >= (ulong)dist)) { vp_assert(W->snaps.size() > seen && W->snaps.back().first == i, "a snapshot is taken at the configured distance"); break; }
        if (W->snaps.size() > seen) { ulong i = W->snaps.back().first; vp_assert(i <= W->sm_idx, "a snapshot is taken of an applied state"); vp_assert(!lastsnap || i - lastsnap >= (ulong)dist, "snapshots keep their distance"); vp_assert(W->snap_info.back().term == cv.term_of(i) && W->snap_info.back().idx == i, "a snapshot carries the term of its last entry"); vp_assert(W->snap_info.back().members == (n == 1 ? 2 : 6), "a snapshot carries the configuration in force"); }
    }
    (void)floor_; vp_out("start", W->log->start); vp_out("snaps", W->snaps.size());
}

// a server whose saved configuration is newer than its state takes snapshots with the configuration of their last entry
HARNESS(snap_create_replay) {
    new_world(1); int gap1 = 1 + vp_choose("before", 3), gap2 = vp_choose("between", 3), dist = 1 + vp_choose("distance", 2); W->params->snapshot_distance_ = dist; W->params->reserved_log_items_ = 0; W->snap_refuse = vp_choose("refused", 3); bool cut = vp_choose("compacted", 2); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T;
    // configurations: {1,2} at 1, {1} at c2 and, maybe, {1,3} at c3 (saved or not)
    ulong c2 = 1 + gap1 + 1, c3 = gap2 ? c2 + gap2 : 0; ptr<cluster_config> k1 = mkconf(2, 1, 0), k2 = mkconf(1, c2, 1); std::vector<int> mem(12, 6);
    { ptr<log_entry> e = mkconfent(1, *k1); W->log->append(e); } for (int i = 0; i < gap1; i++) { ptr<log_entry> e = mkent(1, 0x20); W->log->append(e); } { ptr<log_entry> e = mkconfent(1, *k2); W->log->append(e); } for (int i = 0; i < gap2; i++) { ptr<log_entry> e = mkent(1, 0x30); W->log->append(e); }
    (void)c3; for (ulong i = 1; i < 12; i++) mem[i] = i < c2 ? 6 : 2; W->d_conf = cpconf(*k2); ulong from = 1; if (cut) { W->snp = cs_new<snapshot>(1, 1, cpconf(*k1), 3); W->log->v.erase(W->log->v.begin()); W->log->start = 2; } W->sm_idx = from; cv.reset(1, 1); cv.before = 1; int r0 = W->snap_refuse; (void)r0;
    boot(); lead(1); vp_run_others(); vp_assert(W->sm_idx >= c2 - 1, "a single server commits everything");
    ulong next = from; bool pend = false; size_t seen = 0; int left = r0; ulong st = W->log->start, snp = cut ? 1 : 0;
    for (ulong i = from + 1; i <= last_idx(); i++) { if (pend || i - st < (ulong)dist || i < st || (snp && i - snp < (ulong)dist)) continue;
        vp_assert(seen < W->snaps.size() && W->snap_info[seen].idx == i, "a snapshot is taken at the configured distance, also after one was refused"); vp_assert(W->snap_info[seen].members == mem[i] && W->snap_info[seen].conf <= i, "a snapshot carries the configuration of its last entry"); seen++; if (left > 0) left--; else pend = true; if (i < c2) vp_reach("older"); }
    vp_assert(seen == W->snaps.size(), "one snapshot is created at a time"); (void)next; vp_reach("created"); vp_out("snaps", W->snaps.size());
}
