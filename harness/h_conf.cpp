// Client requests and membership: C11 (a leader only appends; clients' entries are taken exactly by a leader), C12 (one membership change
// at a time), C26 (joining servers end up with the cluster's log).
#include "raft_env.hpp"
#include "raft_lead.hpp"

static ptr<cluster_config> conf_of(log_entry& e) { buffer& b = e.get_buf(); size_t p = b.pos(); b.pos(0); ptr<cluster_config> c = cluster_config::deserialize(b); b.pos(p); return c; }
static int ids_of(cluster_config& c) { int m = 0; for (auto& s : c.get_servers()) { vp_assert(!(m >> s->get_id() & 1), "a configuration lists a server once"); m |= 1 << s->get_id(); } return m; }
static int bits(int m) { int c = 0; for (int i = 0; i < 31; i++) c += m >> i & 1; return c; }
static int committed_members;      // members of the latest committed configuration
// every configuration entry of the log: well formed, one change each, at most one of them undecided
static void check_confs(ulong committed) {
    int prev = -1; ulong previdx = 0; int undecided = 0;
    for (size_t k = 0; k < W->log->v.size(); k++) {
        log_entry& e = *W->log->v[k]; if (e.get_val_type() != log_val_type::conf) continue;
        ulong i = W->log->start + k; ptr<cluster_config> c = conf_of(e); int m = ids_of(*c);
        vp_assert(c->get_log_idx() == i, "a configuration names its own log index");
        if (prev >= 0) { vp_assert(bits(m ^ prev) <= 1, "a configuration differs from the previous one by at most one server"); vp_assert(c->get_prev_log_idx() == previdx, "a configuration names the previous one"); }
        if (i > committed) undecided++; else committed_members = m;
        prev = m; previdx = i;
    }
    vp_assert(undecided <= 1, "at most one membership change is undecided at any time");
}
static std::vector<ptr<log_entry>>* shadow;      // the leader's log before the event
static void append_only() { for (size_t k = 0; k < shadow->size(); k++) vp_assert(k < W->log->v.size() && same_entry((*shadow)[k], W->log->v[k]), "a leader never changes or removes entries of its log"); *shadow = W->log->v; }
static void nothing_added() { vp_assert(W->log->v.size() == shadow->size(), "a server that does not lead adds nothing to its log on its own"); }

static bool admin(msg_type t, int32 id) {
    req_msg r(0, t, 0, 1, 0, 0, 0);
    if (t == msg_type::add_server_request) { ptr<srv_config> s = mksrv(id); r.log_entries().push_back(cs_new<log_entry>(0, s->serialize(), log_val_type::cluster_server)); }
    else { bufptr b = buffer::alloc(sz_int); b->put(id); b->pos(0); r.log_entries().push_back(cs_new<log_entry>(0, std::move(b), log_val_type::cluster_server)); }
    W->in_ext = true; ptr<resp_msg> p = deliver(r); W->in_ext = false; vp_assert((bool)p, "answered"); return p->get_accepted();
}
static ulong joined[8];      // what a joining server holds
static bool is_ext(sent& s) { msg_type t = s.req->get_type(); return t == msg_type::join_cluster_request || t == msg_type::leave_cluster_request || t == msg_type::sync_log_request; }
static void conf_monitor(world& w, sent& s) {
    append_monitor(w, s);
    if (s.req->get_type() == msg_type::append_entries_request) { uint32_t m = cv.mem; for (size_t k = 0; k < w.log->v.size() && w.log->start + k <= cv.known; k++) if (w.log->v[k]->get_val_type() == log_val_type::conf) m |= ids_of(*conf_of(*w.log->v[k])); vp_assert(m >> s.to & 1, "a server is sent entries only after its addition is committed"); }
    if (is_ext(s)) { req_msg& r = *s.req; vp_assert(r.get_term() == w.d_term && r.get_src() == w.id && r.get_dst() == s.to, "a membership request carries the leader's term and names sender and receiver"); }
    if (s.req->get_type() == msg_type::sync_log_request) {
        req_msg& r = *s.req; vp_assert(r.log_entries().size() == 1 && r.log_entries()[0]->get_val_type() == log_val_type::log_pack, "a log pack"); buffer& b = r.log_entries()[0]->get_buf(); b.pos(0); int cnt = *b.data();
        vp_assert(cnt > 0 && cnt <= w.params->log_sync_batch_size_, "a joining server is sent a batch of the configured size");
        vp_assert(r.get_last_log_idx() + cnt <= cv.known, "a joining server is sent committed entries only");
        vp_assert(r.get_last_log_idx() == joined[s.to], "a joining server is sent what follows the entries it holds");
    }
}
static int ext_pending(int k) { for (size_t i = 0; i < W->out.size(); i++) if (!W->out[i].done && is_ext(W->out[i]) && k-- == 0) return (int)i; return -1; }
static void ext_answer(int i, bool acc) {
    req_msg& r = *W->out[i].req; int32 to = W->out[i].to; msg_type t = r.get_type(); ulong nx = 0; msg_type rt;
    if (t == msg_type::join_cluster_request) { rt = msg_type::join_cluster_response; nx = joined[to] + 1; }
    else if (t == msg_type::sync_log_request) { rt = msg_type::sync_log_response; buffer& b = r.log_entries()[0]->get_buf(); b.pos(0); joined[to] += *b.data(); nx = joined[to] + 1; }
    else { rt = msg_type::leave_cluster_response; nx = 1; }
    W->in_ext = true; answer(i, mkresp(r.get_term(), rt, to, acc ? nx : 0, acc)); W->in_ext = false;
}
static void conf_setup(int n, int extra, bool hb_max = false) {
    new_world(1); if (hb_max) W->params->heart_beat_interval_ = W->params->election_timeout_upper_bound_; W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T;
    { ulong t = vp_u64("conf_term"); vp_assume(t >= 1 && t <= T); ptr<log_entry> e = mkconfent(t, *W->d_conf); W->log->append(e); if (extra) fill_log(extra, T, t); }
    W->sm_idx = 1 + extra; W->params->log_sync_stop_gap_ = 1; W->params->log_sync_batch_size_ = 1; W->params->max_append_size_ = 10;
    for (auto& j : joined) j = 0;
    cv.reset(n, 1 + extra); boot(); on_send = conf_monitor; lead(n); shadow = new std::vector<ptr<log_entry>>(W->log->v); committed_members = cv.mem;
}
HARNESS(conf_changes) {
    int n = 2 + vp_choose("servers", 2); bool hbm = vp_choose("hb_max", 2); conf_setup(n, 1, hbm); bool was = true; const int K = VP_THOROUGH ? 7 : 5; ulong T2 = 0; int ladd = 0, lrm = 0;
    for (int k = 0; k < K; k++) {
        int a = vp_choose("event", 8); was = W->leader;
        if (a == 0) { int id = 4 + ladd++; if (id > 5) vp_kill(); bool ok = admin(msg_type::add_server_request, id); vp_assert(was || !ok, "only a leader accepts a membership change"); if (ok) vp_reach("add"); }
        else if (a == 1) { if (lrm >= 2) vp_kill(); int id = 2 + lrm++; bool ok = admin(msg_type::remove_server_request, id); vp_assert(was || !ok, "only a leader accepts a membership change"); if (ok) vp_reach("remove"); }
        else if (a <= 4) { int i = ext_pending(vp_choose("which", 2)); if (i < 0) vp_kill(); if (a == 2) ext_answer(i, true); else if (a == 3) ext_answer(i, false); else {
            bool alone = hbm && was && W->out[i].req->get_type() == msg_type::leave_cluster_request && bits(cv.mem) == 2; size_t l0 = W->log->v.size(); size_t l1 = l0; for (ulong q = cv.known + 1; q <= last_idx(); q++) if (W->log->v[q - 1]->get_val_type() == log_val_type::conf) alone = false;
            W->in_ext = true; answer_err(i); W->in_ext = false; (void)l1;
            if (alone) { cv.mem = 2; if (W->log->v.size() > l0) { cv.known = last_idx(); vp_reach("alone"); } }      // of two servers the unreachable one is removed at once
        } }
        else if (a == 5) { if (!peer_ack(2, true, 0)) vp_kill(); }
        else if (a == 6 && T2) { if (bits(cv.mem) == 1 || !election_timeout()) vp_kill(); vp_assert(!W->leader, "candidate"); vp_reach("stands"); }
        else if (a == 6) { T2 = vp_u64("term2"); vp_assume(T2 > W->d_term && T2 < TMAX); req_msg r(T2, msg_type::append_entries_request, 2, 1, cv.term_of(cv.known), cv.known, cv.known); deliver(r); vp_assert(!W->leader, "deposed"); vp_reach("deposed"); }
        else { bool f = false; for (size_t t = 0; t < W->tm.size(); t++) if (W->tm[t].retry && W->tm[t].pending) { W->in_ext = true; fire((int)t); W->in_ext = false; f = true; break; } if (!f) vp_kill(); vp_reach("retried"); }
        if (!was) nothing_added();
        append_only(); check_confs(cv.known); cv.mem = committed_members; vp_assert(sent_commit() <= cv.known, "only what a majority of the members holds is announced as committed");
        for (size_t q = 0; q < W->log->v.size(); q++) if (W->log->v[q]->get_val_type() == log_val_type::conf && q) vp_reach("changed");
    }
    vp_out("len", W->log->v.size()); vp_out("known", cv.known);
}

static void ack_all(int rounds) { for (int r = 0; r < rounds; r++) for (int32 p = 2; p <= 5; p++) peer_ack(p, true, 0); }
// a membership change is carried out when everybody answers
HARNESS(conf_add) {
    int n = 1 + vp_choose("servers", 3), extra = vp_choose("extra", 3); conf_setup(n, extra); W->params->log_sync_stop_gap_ = 1; W->params->log_sync_batch_size_ = 1 + 3 * vp_choose("batch", 2);
    if (n == 1) cv.known = last_idx();
    joined[4] = vp_choose("holds", 2);
    static const int cl[] = {0, 1, 3}; int busy = cl[vp_choose("busy", 3)]; for (int i = 0; i < busy; i++) { client((byte)(0x55 + i)); if (n == 1) cv.known = last_idx(); }
    vp_assert(admin(msg_type::add_server_request, 4), "a leader accepts a new server"); vp_assert(!admin(msg_type::add_server_request, 1), "a member is not added again"); if (n > 1) vp_assert(!admin(msg_type::add_server_request, 2), "a member is not added again");
    bool added = false;
    if (vp_choose("unreachable", 2)) {      // given up in the end, and the next one is not hindered
        int k = 0; for (; k < 40; k++) { int i = ext_pending(0); if (i >= 0) { W->in_ext = true; answer_err(i); W->in_ext = false; continue; } bool f = false; for (size_t t = 0; t < W->tm.size(); t++) if (W->tm[t].retry && W->tm[t].pending) { W->in_ext = true; fire((int)t); W->in_ext = false; f = true; break; } if (!f) break; }
        vp_assert(k < 40, "an unreachable server is given up"); append_only(); check_confs(cv.known); vp_assert(admin(msg_type::add_server_request, 5), "the next change is possible"); vp_assert(ext_pending(0) >= 0 && W->out[ext_pending(0)].to == 5, "the next server is invited"); vp_reach("given up"); vp_out("len", W->log->v.size()); return;
    }
    for (int k = 0; k < 16 && !added; k++) {
        int i = ext_pending(0); if (i >= 0) { ext_answer(i, true); if (n == 1) cv.known = last_idx(); } ack_all(1);
        for (size_t t = 0; t < W->tm.size(); t++) if (W->tm[t].retry && W->tm[t].pending) { W->in_ext = true; fire((int)t); W->in_ext = false; }
        append_only(); check_confs(cv.known); cv.mem = committed_members; added = committed_members >> 4 & 1;
    }
    vp_assert(added, "a server that takes the log is added"); vp_assert(W->d_conf->get_server(4) && (int)W->d_conf->get_servers().size() == n + 1, "the committed configuration is saved");
    vp_assert(joined[4] + 1 >= cv.known - 1 - busy, "a server is added after it took the log up to the configured gap");
    { int hb = 0; for (auto& t : W->tm) if (!t.election && !t.retry && t.pending) hb++; vp_assert(hb == n, "a leader keeps a heartbeat for every follower, a new one included"); }
    client(0x66); for (int k = 0; k < 6; k++) { for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && !W->tm[t].retry && W->tm[t].pending && k == 0) fire((int)t); ack_all(1); }
    vp_assert(cv.match[4] == last_idx(), "the new server is sent the rest of the log"); vp_reach("added"); vp_out("len", W->log->v.size());
}
// an endpoint nobody can be reached at
HARNESS(conf_bad_endpoint) {
    int n = 1 + vp_choose("servers", 3); conf_setup(n, 0); char c = (char)vp_u8("first"); vp_assume(c != 0); char e[3] = {c, '4', 0}; size_t len = 1 + vp_choose("len", 2); std::string ep(e, len); ptr<srv_config> s = cs_new<srv_config>(4, ep);
    req_msg r(0, msg_type::add_server_request, 0, 1, 0, 0, 0); r.log_entries().push_back(cs_new<log_entry>(0, s->serialize(), log_val_type::cluster_server)); W->in_ext = true; ptr<resp_msg> p = deliver(r); W->in_ext = false; vp_assert((bool)p, "answered");
    bool usable = len == 2 && c == 's'; if (usable) { vp_assert(p->get_accepted() && ext_pending(0) >= 0, "a server that can be reached is invited"); vp_reach("invited"); } else { vp_assert(!p->get_accepted() && ext_pending(0) < 0, "a server that cannot be reached is refused"); vp_assert(admin(msg_type::add_server_request, 5) && ext_pending(0) >= 0, "the next change is not hindered"); vp_reach("refused"); } append_only(); vp_out("len", W->log->v.size());
}
// a server joins a cluster whose log begins behind a snapshot
HARNESS(conf_add_snapshot) {
    int n = 1 + vp_choose("servers", 2), extra = vp_choose("extra", 3), keep = vp_choose("reserved", 2); new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; const ulong at = 3; ulong size = 1 + vp_choose("size", 3), off = 0;
    W->snp = cs_new<snapshot>(at, 1, mkconf(n, 1, 0), size); W->log->start = at + 1 - keep; if (keep) { ptr<log_entry> e = mkent(1, 0x33); W->log->append(e); } fill_log(extra, T); W->sm_idx = at + extra; W->params->log_sync_stop_gap_ = 1; W->params->log_sync_batch_size_ = 1 + vp_choose("batch", 2); W->params->max_append_size_ = 10; W->params->snapshot_block_size_ = 1 + vp_choose("block", 2); W->content = [](ulong i) -> byte { return (byte)(i + 5); };
    for (auto& j : joined) j = 0; cv.reset(n, at + extra); boot(); on_send = conf_monitor; lead(n); committed_members = cv.mem; shadow = new std::vector<ptr<log_entry>>(W->log->v); joined[4] = vp_choose("holds", 2);
    vp_assert(admin(msg_type::add_server_request, 4), "a leader accepts a new server"); bool added = false, err = false;
    for (int k = 0; k < 24 && !added; k++) {
        int j = pending_to(4, msg_type::install_snapshot_request);
        if (j >= 0) { req_msg& r = *W->out[j].req; vp_assert(r.get_term() == W->d_term && r.get_last_log_idx() == at && r.log_entries().size() == 1, "the snapshot is named"); buffer& b = r.log_entries()[0]->get_buf(); b.pos(0); ptr<snapshot_sync_req> q = snapshot_sync_req::deserialize(b); vp_assert(q->get_offset() == off, "a snapshot is sent without gaps");
            for (size_t x = 0; x < q->get_data().size(); x++) vp_assert(q->get_data().data()[x] == (byte)(off + x + 5), "a chunk carries the snapshot's bytes"); off += q->get_data().size(); vp_assert(off <= size && q->is_done() == (off == size), "exactly the last chunk says it is the last"); if (off == size) { joined[4] = at; vp_reach("snapshot"); }
            W->in_ext = true; answer(j, mkresp(r.get_term(), msg_type::install_snapshot_response, 4, off, true)); W->in_ext = false; continue; }
        int i = ext_pending(0); if (i >= 0) ext_answer(i, true); ack_all(1); for (size_t t = 0; t < W->tm.size(); t++) if (W->tm[t].retry && W->tm[t].pending) { W->in_ext = true; fire((int)t); W->in_ext = false; }
        if (n == 1) cv.known = last_idx(); append_only(); committed_members = cv.mem; check_confs(cv.known); cv.mem = committed_members; added = committed_members >> 4 & 1;
    }
    (void)err; vp_assert(added, "a server that takes the snapshot and the log is added"); vp_assert(off == size, "a server that joins behind a snapshot is sent the whole snapshot"); vp_assert(W->d_conf->get_server(4) && (int)W->d_conf->get_servers().size() == n + 1, "the committed configuration is saved");
    client(0x66); for (int k = 0; k < 6; k++) { for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && !W->tm[t].retry && W->tm[t].pending && k == 0) fire((int)t); ack_all(1); }
    vp_assert(cv.match[4] == last_idx(), "the new server is sent the rest of the log"); vp_reach("added"); vp_out("len", W->log->v.size());
}
HARNESS(conf_remove) {
    int n = 2 + vp_choose("servers", 3); conf_setup(n, 1); int32 x = 2 + vp_choose("who", n - 1); bool fails = vp_choose("unreachable", 2);
    vp_assert(!admin(msg_type::remove_server_request, 1), "a leader does not remove itself"); vp_assert(!admin(msg_type::remove_server_request, 5 + (n < 5)), "a stranger cannot be removed"); vp_assert(admin(msg_type::remove_server_request, x), "a leader removes a server");
    bool gone = false;
    for (int k = 0; k < 40 && !gone; k++) {
        int i = ext_pending(0); if (i >= 0) { if (fails) { bool two = bits(cv.mem) == 2; size_t l0 = W->log->v.size(); W->in_ext = true; answer_err(i); W->in_ext = false; if (two && W->log->v.size() > l0) { cv.mem = 2; cv.known = last_idx(); } else { int hb = 0; for (auto& t : W->tm) if (!t.election && !t.retry && t.pending) hb++; vp_assert(hb == bits(cv.mem) - 1, "an unreachable server remains a member until its removal is committed"); } } else ext_answer(i, true); }
        for (size_t t = 0; t < W->tm.size(); t++) if (W->tm[t].retry && W->tm[t].pending) { W->in_ext = true; fire((int)t); W->in_ext = false; }
        if (k == 0) for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && !W->tm[t].retry && W->tm[t].pending) fire((int)t);
        for (int r = 0; r < 2; r++) for (int32 p = 2; p <= 5; p++) if (p != x || !fails) peer_ack(p, true, 0);
        append_only(); check_confs(cv.known); cv.mem = committed_members; gone = !(committed_members >> x & 1);
        int hb = 0; for (auto& t : W->tm) if (!t.election && !t.retry && t.pending) hb++; vp_assert(hb == bits(cv.mem) - 1, "a leader keeps a heartbeat for exactly the other members");
    }
    vp_assert(gone, "a server is removed, answering or not"); vp_assert(!W->d_conf->get_server(x) && (int)W->d_conf->get_servers().size() == n - 1, "the committed configuration is saved");
    size_t o = W->out.size(); client(0x66); for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && W->tm[t].pending) fire((int)t);
    for (size_t q = o; q < W->out.size(); q++) vp_assert(W->out[q].to != x, "a removed server is sent nothing more");
    vp_reach("removed"); if (fails) vp_reach("unreachable"); vp_out("len", W->log->v.size());
}
// the server that is added: whatever it held before, it ends up with the cluster's log and configuration
HARNESS(join_new) {
    new_world(4); int own = vp_choose("own", 3); W->d_conf = cs_new<cluster_config>(own ? 1 : 0, 0); W->d_conf->get_servers().push_back(mksrv(4)); ulong T0 = vp_u64("my_term"); vp_assume(T0 >= 1 && T0 < TMAX); W->d_term = T0; W->d_vote = 4;
    for (int i = 0; i < own; i++) { ptr<log_entry> e = i == 0 ? mkconfent(1, *W->d_conf) : mkent(1, 0x20); W->log->append(e); } W->sm_idx = own; boot();
    ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); int n = 1 + vp_choose("servers", 2), len = 2 + vp_choose("len", 3); ulong lt[8]; ulong p = 1; for (int i = 1; i <= len; i++) { lt[i] = vp_u64("t"); vp_assume(lt[i] >= p && lt[i] <= T); p = lt[i]; }
    const int32 S = n == 1 ? 1 : 2; ptr<cluster_config> c0 = mkconf(n, 1, 0); auto ent = [&](int i) -> ptr<log_entry> { return i == 1 ? mkconfent(lt[1], *c0) : mkent(lt[i], (byte)(0x80 + i)); };
    ulong nx;
    { req_msg r(T, msg_type::join_cluster_request, S, 4, 0, len, len); r.log_entries().push_back(cs_new<log_entry>(T, c0->serialize(), log_val_type::conf)); ptr<resp_msg> q = deliver(r); vp_assert(q && q->get_type() == msg_type::join_cluster_response && q->get_accepted(), "a server accepts the invitation to join"); nx = vp_concretize(q->get_next_idx()); vp_assert(W->d_term == T, "a joining server takes the leader's term"); }
    int sn = vp_choose("snapshot", 3); if (sn > len) vp_kill();       // the cluster's log may begin behind a snapshot
    if (sn) { ptr<snapshot> sp = cs_new<snapshot>(sn, lt[sn], cpconf(*c0), 1); bufptr d = buffer::alloc(1); d->put((byte)7); d->pos(0); snapshot_sync_req q(sp, 0, std::move(d), true); req_msg r(T, msg_type::install_snapshot_request, S, 4, lt[sn], sn, len); r.log_entries().push_back(cs_new<log_entry>(T, q.serialize(), log_val_type::snp_sync_req));
        ptr<resp_msg> x = deliver(r); vp_assert(x && x->get_type() == msg_type::install_snapshot_response && x->get_accepted() && x->get_next_idx() == 1, "a joining server takes the snapshot"); vp_assert(W->applied_cnt == 1 && W->applied_snp == (ulong)sn && W->log->start == (ulong)sn + 1, "a joining server installs the snapshot"); nx = sn + 1; vp_reach("snapshot"); }
    int k = 0; for (; nx <= (ulong)len && k < 8; k++) {
        int cnt = 1 + vp_choose("cnt", 2); if (nx + cnt > (ulong)len + 1) cnt = len + 1 - nx;
        bufptr b = buffer::alloc(1 + 10 * cnt); b->put((byte)cnt); std::vector<ptr<log_entry>> es;
        // the bundled mem_log pack format; configuration entries are packed as their real bytes are not needed here
        for (int i = 0; i < cnt; i++) { ptr<log_entry> e = ent(nx + i); b->put(e->get_term()); b->put((byte)log_val_type::app_log); b->put((byte)(0x80 + nx + i)); } b->pos(0);
        req_msg r(T, msg_type::sync_log_request, S, 4, 0, nx - 1, len); r.log_entries().push_back(cs_new<log_entry>(T, std::move(b), log_val_type::log_pack)); ptr<resp_msg> q = deliver(r);
        vp_assert(q && q->get_accepted() && q->get_next_idx() == nx + cnt, "a joining server takes the log packs"); nx = vp_concretize(q->get_next_idx());
    }
    { size_t o = W->out.size(); election_timeout(); vp_assert(W->out.size() == o && W->d_term == T, "a joining server does not stand for election"); }
    // the configuration that adds it
    ptr<cluster_config> c1 = mkconf(n, len + 1, 1); c1->get_servers().push_back(mksrv(4));
    { req_msg r(T, msg_type::append_entries_request, S, 4, lt[len], len, len); r.log_entries().push_back(mkconfent(T, *c1)); ptr<resp_msg> q = deliver(r); vp_assert(q->get_accepted() && q->get_next_idx() == (ulong)len + 2, "and then ordinary entries"); }
    { req_msg r(T, msg_type::append_entries_request, S, 4, T, len + 1, len + 1); ptr<resp_msg> q = deliver(r); vp_assert(q->get_accepted(), "and heartbeats"); }
    vp_assert(W->log->start == (ulong)sn + 1 && last_idx() == (ulong)len + 1, "the joined server holds the whole log");
    for (int i = sn + 1; i <= len; i++) vp_assert(W->log->v[i - sn - 1]->get_term() == lt[i] && tag_of(*W->log->v[i - sn - 1]) == (byte)(0x80 + i), "the joined server holds the leader's entries");
    ulong last = sn; for (auto& o : W->sm) if (o.kind == A_COMMIT) { vp_assert(o.idx == last + 1 && o.tag == (byte)(0x80 + o.idx), "the joined server applies the leader's entries from the first on, in order"); last = o.idx; }
    vp_assert(last == (ulong)len, "the joined server applies everything committed"); vp_assert(W->d_conf->get_log_idx() == (ulong)len + 1 && W->d_conf->get_server(4) && (int)W->d_conf->get_servers().size() == n + 1, "the joined server saves the new configuration");
    vp_assert(election_timer() >= 0, "as a member it watches the leader"); vp_reach("joined"); vp_out("len", last_idx());
}

// a server whose log holds a membership change it did not start becomes leader
HARNESS(conf_inherited) {
    const int n = 3; new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX - 8); W->d_term = T; { ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); } W->sm_idx = 1; W->params->log_sync_stop_gap_ = 1; W->params->max_append_size_ = 10; for (auto& j : joined) j = 0;
    bool add = vp_choose("add", 2), restart = vp_choose("restart", 2), decided = !restart && vp_choose("decided", 2); int pad = vp_choose("pad", 2); uint32_t now = add ? 0x1e : 0x06; ulong ct = vp_u64("change_term"); vp_assume(ct >= 1 && ct <= T); const ulong at = 2 + pad;
    ptr<cluster_config> c2 = cs_new<cluster_config>(at, 1); for (int i = 1; i <= 4; i++) if (now >> i & 1) c2->get_servers().push_back(mksrv(i)); cv.reset(n, 1);
    auto ents = [&](std::vector<ptr<log_entry>>& v) { if (pad) v.push_back(mkent(1, 0x21)); v.push_back(mkconfent(ct, *c2)); };
    if (restart) { std::vector<ptr<log_entry>> v; ents(v); for (auto& e : v) W->log->append(e); } boot(); on_send = conf_monitor;
    if (!restart) { req_msg r(T, msg_type::append_entries_request, 2, 1, 1, 1, decided ? at : 1); ents(r.log_entries()); vp_assert(deliver(r)->get_accepted(), "taken"); } vp_assert((W->d_conf->get_log_idx() == at) == decided, "a configuration is saved exactly when it is committed");
    if (decided) { cv.mem = now; cv.known = at; } committed_members = cv.mem; shadow = new std::vector<ptr<log_entry>>(W->log->v);
    vp_assert(!admin(msg_type::add_server_request, 5) && !admin(msg_type::remove_server_request, 2), "only a leader accepts a membership change"); lead(bits(cv.mem)); uint32_t asked = 2; for (auto& o : W->out) if (o.req->get_type() == msg_type::vote_request) asked |= 1u << o.to; vp_assert(asked == cv.mem, "the members of the committed configuration are asked");
    if (!decided) {
        vp_assert(!admin(msg_type::add_server_request, 5) && !admin(msg_type::remove_server_request, 2), "no change is accepted while one is undecided"); vp_assert(ext_pending(0) < 0, "nobody is invited or asked to leave"); client(0x50); int left = 8; for (; left && cv.known < at; left--) { peer_ack(2, true, 0); append_only(); check_confs(cv.known); cv.mem = committed_members; vp_assert(sent_commit() <= cv.known, "only what a majority of the members holds is announced as committed"); }
        vp_assert(left, "the change is decided"); vp_reach("inherited");
    } else vp_reach("decided");
    int hb = 0; for (auto& t : W->tm) if (!t.election && !t.retry && t.pending) hb++; vp_assert(cv.mem == now && hb == bits(now) - 1, "a leader keeps a heartbeat for exactly the other members"); size_t o = W->out.size(); client(0x51); for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && W->tm[t].pending) fire((int)t); for (size_t q = o; q < W->out.size(); q++) vp_assert(now >> W->out[q].to & 1, "only members are sent entries");
    vp_assert(admin(msg_type::add_server_request, 5) && ext_pending(0) >= 0, "the next change is accepted"); append_only(); check_confs(cv.known); vp_out("known", cv.known);
}
// a server that is asked to leave
HARNESS(leave_follower) {
    const int n = 3; new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX - 8); W->d_term = T; { ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); } W->sm_idx = 1; W->params->prevote_enabled_ = vp_choose("prevote", 2); W->stop_on_exit = false; W->exit_ok = true; boot(); bool changing = vp_choose("changing", 2); ulong last = 1;
    auto beat = [&](ulong commit, ptr<cluster_config> c) { req_msg r(T, msg_type::append_entries_request, 2, 1, last == 1 ? 1 : T, last, commit); if (c) r.log_entries().push_back(mkconfent(T, *c)); vp_assert(deliver(r)->get_accepted(), "taken"); if (c) last++; };
    auto without = [&](int32 x) { ptr<cluster_config> c = cs_new<cluster_config>(last + 1, 1); for (int i = 1; i <= n; i++) if (i != x) c->get_servers().push_back(mksrv(i)); return c; };
    beat(1, ptr<cluster_config>()); if (changing) beat(1, without(3)); req_msg r(T, msg_type::leave_cluster_request, 2, 1, 0, last, 1); ptr<resp_msg> p = deliver(r); vp_assert(p && p->get_type() == msg_type::leave_cluster_response && p->get_dst() == 2, "answered"); vp_assert(p->get_accepted() == !changing, "a server agrees to leave unless another change is undecided");
    if (changing) { size_t o = W->out.size(); election_timeout(); vp_assert(W->out.size() > o && !W->exits, "a server that refused to leave goes on as before"); vp_reach("refused"); vp_out("exits", W->exits); return; }
    int left = 2; size_t o = W->out.size();
    for (int k = 0; k < 5; k++) {
        int a = vp_choose("event", 4);
        if (a == 0) { if (!election_timeout()) vp_fail("it waits on"); left--; vp_assert(W->out.size() == o && W->d_term == T, "a server that is leaving does not stand for election"); vp_assert((W->exits == 1) == (left == 0), "a leaving server stops after two timeouts without news, not before"); if (!left) { vp_assert(W->exits == 1 && !W->d_conf->get_server(1) && W->d_conf->get_servers().size() == 2, "it leaves with a configuration without itself"); vp_reach("left alone"); vp_out("exits", 1); return; } }
        else if (a == 1) { beat(1, ptr<cluster_config>()); left = 2; vp_assert(!W->exits, "news keep it"); vp_reach("news"); }
        else if (a == 2) { req_msg v(T, msg_type::vote_request, 3, 1, 0, 0, 0); deliver(v); left = 2; vp_assert(!W->exits, "news keep it"); }
        else { beat(1, without(1)); vp_assert(!W->exits && W->d_conf->get_server(1), "a removal counts when it is committed"); beat(last, ptr<cluster_config>()); vp_assert(W->exits == 1 && W->exit_code == 0 && !W->d_conf->get_server(1) && W->d_conf->get_servers().size() == 2, "a removed server saves the configuration and stops"); vp_reach("removed"); vp_out("exits", 1); return; }
    }
    vp_out("exits", W->exits);
}
// ---- C11: client entries
static void follow(int32 leader_id) { ulong t = vp_u64("leader_term"); vp_assume(t >= W->d_term && t < TMAX); req_msg r(t, msg_type::append_entries_request, leader_id, 1, cv.term_of(last_idx()), last_idx(), 0); ptr<resp_msg> p = deliver(r); vp_assert(p->get_accepted(), "follower"); }
static int32 ldr;      // the leader this server follows
static int setup_role(int n) {
    new_world(1); W->d_conf = mkconf(n, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX - 4); W->d_term = T;
    { ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); } fill_log(vp_choose("len", 2), T); W->sm_idx = 1; cv.reset(n, 1); boot(); on_send = append_monitor;
    int role = vp_choose("role", 5); if (n == 1 && role > 1) vp_kill(); ldr = 2;      // 0 leader, 1 fresh, 2 follower, 3 candidate, 4 deposed
    if (role == 0) lead(n); else if (role == 2) { follow(2); if (n > 2 && vp_choose("moved", 2)) { std::vector<bufptr> l; l.push_back(mkbuf(1)); W->srv->append_entries(l); vp_run_others(); vp_assert(W->out.back().to == 2, "a follower forwards to its leader"); answer(W->out.size() - 1, cs_new<resp_msg>(W->d_term, msg_type::append_entries_response, 2, 1, 5, true)); W->d_term++; ulong t = W->d_term; W->d_term--; req_msg r(t, msg_type::append_entries_request, 3, 1, cv.term_of(last_idx()), last_idx(), 0); vp_assert(deliver(r)->get_accepted(), "follower"); ldr = 3; vp_reach("moved"); } } else if (role == 4) { lead(n); req_msg r(W->d_term + 1, msg_type::vote_request, 2, 1, 0, 0, 0); deliver(r); vp_assert(!W->leader, "deposed"); } else if (role == 3) { vp_clock_ns = 1700000000000000000ull; election_timeout(); }
    return role;
}
HARNESS(client_requests) {
    int n = 1 + vp_choose("servers", 3); int role = setup_role(n); bool L = role == 0; shadow = new std::vector<ptr<log_entry>>(W->log->v);
    size_t sm0 = W->sm.size(), len0 = W->log->v.size(), o0 = W->out.size(); ulong next0 = W->log->next_slot(); int cnt = vp_choose("cnt", 3), how = vp_choose("how", 3); byte tg[2] = {vp_u8("a"), vp_u8("b")}; int hollow = cnt ? vp_choose("hollow", cnt + 1) - 1 : -1; auto buf = [&](int i) -> bufptr { return i == hollow ? buffer::alloc(0) : mkbuf(tg[i]); }; if (hollow >= 0) { tg[hollow] = 0; vp_reach("hollow"); }
    bool took = false;
    if (how == 0) {            // a client's request over the wire
        ulong ct = vp_u64("client_term"); req_msg r(ct, msg_type::client_request, 0, 1, 0, 0, 0); for (int i = 0; i < cnt; i++) r.log_entries().push_back(cs_new<log_entry>(vp_u64("et"), buf(i), log_val_type::app_log));
        ptr<resp_msg> p = deliver(r); vp_assert((bool)p, "a client is answered"); took = p->get_accepted(); vp_assert(took == L, "client entries are accepted exactly by a leader");
        if (!took && !L && role != 4) vp_assert(p->get_dst() == (role == 2 ? ldr : -1), "a client is told who leads"); if (took && n > 1) vp_assert(p->get_next_idx() == next0 + cnt, "a client is told where its entries end");
        if (L) vp_reach("wire");
    } else if (how == 1) {
        std::vector<bufptr> l; for (int i = 0; i < cnt; i++) l.push_back(buf(i)); ptr<async_result<bool>> r = W->srv->append_entries(l); vp_run_others();
        if (L || cnt == 0 || role != 2) { took = L && cnt > 0; vp_assert(r->get() == took, "append_entries reports whether the entries were accepted"); }
        else {
            vp_assert(W->out.size() == o0 + 1 && W->out[o0].to == ldr, "a follower forwards to the leader"); req_msg& q = *W->out[o0].req; vp_assert(q.get_type() == msg_type::client_request && (int)q.log_entries().size() == cnt, "all entries are forwarded");
            for (int i = 0; i < cnt; i++) vp_assert(tag_of(*q.log_entries()[i]) == tg[i] && q.log_entries()[i]->get_buf().size() == (i == hollow ? 0 : 1) && q.log_entries()[i]->get_val_type() == log_val_type::app_log, "the forwarded entries are the client's"); int done = 0; bool res = false, bad = false;
            async_result<bool>::handler_type h = [&](bool v, const ptr<std::exception>& e) { done++; res = v; bad = (bool)e; }; r->when_ready(h); vp_assert(done == 0, "no result before the leader answers");
            int a = vp_choose("answer", 3); if (a == 2) answer_err(o0); else answer(o0, cs_new<resp_msg>(W->d_term, msg_type::append_entries_response, ldr, 1, 5, a == 1));
            vp_assert(done == 1 && res == (a == 1) && bad == (a == 2), "the leader's answer is the result"); vp_reach("forwarded");
        }
    } else {
        if (cnt != 1) vp_kill(); bufptr b = buf(0); ptr<int> ck = cs_new<int>(7); ptr<void> vck = ck; bool withc = vp_choose("cookie", 2); took = W->srv->replicate_log(b, withc ? vck : ptr<void>(), 42); vp_run_others(); vp_assert(took == L, "replicate_log reports whether the entry was accepted");
        if (took) { const uptr<log_entry_cookie>& k = W->log->v.back()->get_cookie(); vp_assert((bool)k == withc, "the cookie stays with its entry"); if (withc) vp_assert(k->tag() == 42 && k->value() == vck, "the cookie stays with its entry"); for (size_t q = sm0; q < W->sm.size(); q++) vp_assert(W->sm[q].ctag == (withc ? 42 : 0) && W->sm[q].cval == (withc ? vck : ptr<void>()), "the state machine gets the entry's cookie"); vp_reach("replicated"); }
    }
    for (size_t k = 0; k < len0; k++) vp_assert(k < W->log->v.size() && same_entry((*shadow)[k], W->log->v[k]), "a leader never changes or removes entries of its log");
    size_t grew = W->log->v.size() - len0; vp_assert(grew == (took ? (size_t)cnt : 0), "accepted entries are appended once, refused ones not at all");
    for (size_t i = 0; i < grew; i++) { log_entry& e = *W->log->v[len0 + i]; vp_assert(e.get_term() == W->d_term && tag_of(e) == tg[i] && e.get_buf().size() == (i == hollow ? 0 : 1) && e.get_val_type() == log_val_type::app_log, "an accepted entry keeps its content and gets the leader's term"); }
    size_t pre = 0; for (size_t k = sm0; k < W->sm.size(); k++) if (W->sm[k].kind == A_PRE) { vp_assert(pre < grew && W->sm[k].idx == W->log->start + len0 + pre && W->sm[k].tag == tg[pre], "an accepted entry is offered to the state machine at its index, in order"); pre++; }
    vp_assert(pre == grew, "an accepted entry is offered to the state machine"); if (n == 1 && took) vp_assert(W->sm_idx == last_idx(), "a single server commits at once");
    if (took) vp_reach("taken"); else vp_reach("refused"); vp_out("len", W->log->v.size());
}
// requests of several threads
struct race_arg { int kind; byte tag; bool res; size_t cut = 0; };
static void racer(void* p) {
    race_arg& a = *(race_arg*)p;
    if (a.kind == 0) { bufptr b = mkbuf(a.tag); a.res = W->srv->replicate_log(b, ptr<void>(), 0); }
    else if (a.kind == 1) { req_msg r(0, msg_type::client_request, 0, 1, 0, 0, 0); r.log_entries().push_back(mkent(0, a.tag)); ptr<resp_msg> q = W->srv->process_req(r); a.res = q->get_accepted(); }
    else if (a.kind == 2) { req_msg r(W->d_term + 1, msg_type::append_entries_request, 2, 1, cv.term_of(1), 1, 1); W->srv->process_req(r); }
    else if (a.kind == 3) {      // deposed and elected again
        req_msg r(W->d_term + 1, msg_type::append_entries_request, 2, 1, cv.term_of(1), 1, 1); W->srv->process_req(r); a.cut = W->log->v.size(); int e = election_timer(); if (e < 0) return; W->tm[e].pending = false; ptr<delayed_task> t = W->tm[e].task; t->execute();
        int i = pending_to(2, msg_type::vote_request); if (i < 0) return; ptr<resp_msg> y = mkresp(W->d_term, msg_type::vote_response, 2, 1, true); W->out[i].done = true; rpc_handler h = W->out[i].h; h(y, ptr<rpc_exception>()); a.res = W->leader;
    }
    else { int i = pending_to(2, msg_type::append_entries_request); W->out[i].done = true; rpc_handler h = W->out[i].h; ptr<resp_msg> r = mkresp(W->d_term, msg_type::append_entries_response, 2, last_idx() + 1, true); h(r, ptr<rpc_exception>()); }
}
HARNESS(client_race) {
    const int n = 3; new_world(1); W->d_conf = mkconf(n, 1, 0); W->d_term = 3; { ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); } W->sm_idx = 1; cv.reset(n, 1); boot(); lead(n); ulong T = W->d_term;
    race_arg a{(int)vp_choose("first", 2), 0x31, false}, b{(int)vp_choose("second", 4), 0x32, false}; W->log->guard = true;
    vp_explore(VP_THOROUGH ? 3 : 2, 0); uint64_t t1 = vp_thread_create(&racer, &a), t2 = vp_thread_create(&racer, &b); vp_thread_join(t1); vp_thread_join(t2); vp_explore(-1, 0); vp_run_others();
    int fa = 0, fb = 0; for (size_t k = 1; k < W->log->v.size(); k++) { log_entry& e = *W->log->v[k]; if (tag_of(e) == 0x31) fa++; if (tag_of(e) == 0x32) fb++; vp_assert(e.get_term() == (b.kind == 3 && k >= b.cut ? W->d_term : T), "an entry gets the term of the leadership that accepted it"); }
    if (b.kind == 3) { vp_assert(b.res, "elected again"); b.res = false; vp_reach("again"); } vp_assert(fa == (a.res ? 1 : 0) && fb == (b.res ? 1 : 0), "an entry is in the log once exactly if it was accepted");
    size_t pre = 0; for (auto& o : W->sm) if (o.kind == A_PRE) { pre++; vp_assert(o.idx < W->log->next_slot() && tag_of(*W->log->v[o.idx - 1]) == o.tag, "an accepted entry is offered to the state machine at its index"); } vp_assert(pre == (size_t)(fa + fb), "every accepted entry is offered to the state machine");
    for (auto& s : W->out) if (s.req->get_type() == msg_type::append_entries_request) vp_assert(s.req->get_term() == T || (b.kind == 3 && s.req->get_term() == W->d_term), "append requests carry the leadership's term");
    if (a.res) vp_reach("accepted"); else vp_reach("refused"); vp_out("fa", fa); vp_out("fb", fb);
}

// entries that were never committed give way to those of a new leader; configurations before them stay undecided
HARNESS(conf_overwritten) {
    new_world(1); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX - 1); W->d_term = T; W->params->max_append_size_ = 10; W->params->log_sync_stop_gap_ = 1; W->params->log_sync_batch_size_ = 1; W->conf_mono = true; int gap = vp_choose("gap", 2); const ulong k = 2 + gap; bool more = vp_choose("more", 2);
    ptr<cluster_config> c1 = mkconf(3, 1, 0), c2 = mkconf(4, k, 1), c3 = mkconf(3, k + 1, k); std::vector<ptr<log_entry>> all; all.push_back(mkconfent(T, *c1)); if (gap) all.push_back(mkent(T, 0x21)); all.push_back(mkconfent(T, *c2)); if (more) all.push_back(mkconfent(T, *c3)); const ulong proven = more ? k : 1;
    ulong sm = vp_choose("applied", more ? (int)k + 1 : 2); bool fresh = vp_choose("received", 2); W->sm_idx = sm; W->d_conf = sm >= k ? cpconf(*c2) : sm ? cpconf(*c1) : mkconf(3, 0, 0); if (!fresh) for (auto& e : all) W->log->append(e); boot();
    if (fresh) { if (sm) vp_kill(); req_msg r(T, msg_type::append_entries_request, 2, 1, 0, 0, 0); for (auto& e : all) r.log_entries().push_back(e); vp_assert(deliver(r)->get_accepted(), "entries of the leader are taken"); }
    ulong at = 1 + vp_choose("from", (int)all.size()); if (at <= sm || (!fresh && at <= proven)) vp_kill(); bool conf = vp_choose("with", 2); ulong T2 = T + 1; bool alone = at == 1; if (alone && !conf) vp_kill();
    { req_msg r(T2, msg_type::append_entries_request, 3, 1, at > 1 ? T : 0, at - 1, vp_choose("commit", 2) ? sm : 0); if (conf) { ptr<cluster_config> c = at == 1 ? mkconf(3, 1, 0) : mkconf(2, at, at > k ? k : 1); r.log_entries().push_back(mkconfent(T2, *c)); } else r.log_entries().push_back(mkent(T2, 0x31)); vp_assert(deliver(r)->get_accepted() && last_idx() == at, "entries of the leader are taken"); }
    if (!fresh && sm < proven) sm = proven; int un = 0; for (ulong i = sm + 1; i <= last_idx(); i++) if (W->log->v[i - 1]->get_val_type() == log_val_type::conf) un++;
    for (auto& o : W->out) o.done = true; int n = (int)W->d_conf->get_servers().size(); cv.reset(n, sm); for (auto& j : joined) j = 0; on_send = append_monitor; lead(n); ulong len = last_idx(); vp_assert(len == at, "a configuration in the log is not replaced by the initial one"); bool ok = admin(msg_type::add_server_request, 5);
    vp_assert(ok == !un, "a change is possible exactly when none is undecided"); vp_reach(un ? "undecided" : "possible"); vp_out("len", len);
}
// a server that takes over with configurations in its log, applied, known to be committed or not
HARNESS(conf_inherit) {
    new_world(1); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T; W->params->max_append_size_ = 10; W->params->log_sync_stop_gap_ = 1; W->params->log_sync_batch_size_ = 1; int gap = vp_choose("gap", 2), rm = vp_choose("remove", 2), third = vp_choose("tail", 2); const ulong k = 2 + gap, len = k + third;
    ptr<cluster_config> c1 = mkconf(3, 1, 0), c2 = mkconf(rm ? 2 : 4, k, 1); std::vector<ptr<log_entry>> all; all.push_back(mkconfent(T, *c1)); if (gap) all.push_back(mkent(T, 0x21)); all.push_back(mkconfent(T, *c2)); if (third) all.push_back(mkent(T, 0x22));
    ulong have = vp_choose("have", (int)len + 1), sm = vp_choose("applied", (int)have + 1), saved = sm; if (!sm && have && vp_choose("replay", 2)) saved = vp_choose("saved", (int)have + 1);
    W->conf_mono = true; for (ulong i = 0; i < have; i++) W->log->append(all[i]); W->sm_idx = sm; W->d_conf = saved >= k ? cpconf(*c2) : saved >= 1 ? cpconf(*c1) : mkconf(3, 0, 0); boot(); ulong known = saved;
    int ord = vp_choose("order", 3); ulong c = vp_choose("commit", (int)len + 1); if (c < known || (ord == 2 && have == len)) vp_kill();
    auto app = [&](ulong prev, ulong n, ulong cm) { req_msg r(T, msg_type::append_entries_request, 2, 1, prev ? T : 0, prev, cm); for (ulong i = 0; i < n; i++) r.log_entries().push_back(all[prev + i]); ptr<resp_msg> p = deliver(r); vp_assert(p->get_accepted(), "entries of the leader are taken"); ulong m = prev + n; if (cm < m) m = cm; if (m > known) known = m; };
    if (ord == 0) app(have, len - have, c); else if (ord == 1) { app(have, len - have, 0); app(len, 0, c); } else for (ulong i = have; i < len; i++) app(i, 1, c);
    vp_assert((ulong)W->d_conf->get_log_idx() >= (saved >= k ? k : saved >= 1 ? 1 : 0), "the saved configuration never goes back"); bool decided = known >= k; int n = decided ? (rm ? 2 : 4) : 3; if (saved > sm && !decided) n = 3;
    int add = vp_choose("add", 2); for (auto& j : joined) j = 0; cv.reset(n, known); for (auto& o : W->out) o.done = true; on_send = append_monitor; lead(n); shadow = new std::vector<ptr<log_entry>>(W->log->v); bool ok = add ? admin(msg_type::add_server_request, 5) : admin(msg_type::remove_server_request, 2);
    bool app_decided = decided; if (saved > known || (!decided && ok)) { } vp_assert(!ok || app_decided, "no change is started while one is undecided"); if (sm + (c > sm ? 1 : 0) || true) { if (decided && c >= k) vp_assert(ok, "a change is possible when none is undecided"); }
    if (ok) { vp_reach("possible"); return; } vp_reach("undecided"); if (decided) return;
    // what was undecided is decided with the next entry of the new leader
    client(0x55); for (int r = 0; r < 3; r++) for (int p = 2; p <= 3; p++) peer_ack(p, true, 0); vp_assert(cv.known == last_idx(), "the change gets decided"); vp_assert(ids_of(*W->d_conf) == ids_of(*c2), "the change takes effect"); shadow = new std::vector<ptr<log_entry>>(W->log->v);
    vp_assert(admin(msg_type::add_server_request, 5), "a change is possible when none is undecided"); vp_reach("decided"); vp_out("len", last_idx());
}
// a follower that has changes in its log that it did not apply yet, with and without a restart: votes are counted by a configuration that is not known to be replaced
HARNESS(conf_unapplied) {
    new_world(1); W->d_conf = mkconf(3, 1, 0); ulong T = vp_u64("term"); vp_assume(T >= 2 && T < TMAX - 8); W->d_term = T; { ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); } W->sm_idx = 1; bool prevote = W->params->prevote_enabled_ = vp_choose("prevote", 2);
    int changes = 1 + vp_choose("changes", 3), gap = vp_choose("gap", 2); bool grow = vp_choose("grow", 2), restart = vp_choose("restart", 2); ulong last = 1, prev = 1, at[4] = {1, 0, 0, 0}; int mem[4] = {14, 0, 0, 0}; std::vector<ptr<log_entry>> es;
    for (int k = 1; k <= changes; k++) {
        if (gap) { es.push_back(cs_new<log_entry>(T, mkbuf(0x30))); last++; } ptr<cluster_config> c = cs_new<cluster_config>(last + 1, prev); mem[k] = grow ? mem[k - 1] | 16 << (k - 1) : k == 1 ? 6 : k == 2 ? 14 : 30; for (int i = 1; i <= 6; i++) if (mem[k] >> i & 1) c->get_servers().push_back(mksrv(i)); es.push_back(mkconfent(T, *c)); prev = at[k] = ++last;
    }
    int known = changes - 1; if (restart) { for (auto& e : es) W->log->append(e); boot(); vp_reach("restarted"); }
    else {
        known += vp_choose("told", 2); boot(); req_msg r(T, msg_type::append_entries_request, 2, 1, 1, 1, at[known]); r.log_entries() = es; ptr<resp_msg> p = W->srv->process_req(r); vp_assert(p->get_accepted(), "taken"); size_t o = W->out.size(); int k = election_timer(); vp_assert(k >= 0, "a follower waits for an election timeout");
        ptr<delayed_task> t = W->tm[k].task; W->tm[k].pending = false; t->execute(); bool stood = W->out.size() > o; if (known) { vp_assert(!stood && W->d_term == T, "votes are not asked for before a configuration that is known to be committed is applied"); vp_assert(election_timer() >= 0, "it tries again later"); vp_reach("waited"); } else { vp_assert(stood, "an undecided change does not keep a server from standing"); vp_out("stood", 1); return; }
        vp_run_others();
    }
    vp_assert(W->d_conf->get_log_idx() == at[known], "the last configuration known to be committed is applied"); size_t o = W->out.size(); vp_assert(election_timeout(), "it waits for an election timeout"); int to = 0; for (size_t q = o; q < W->out.size(); q++) { vp_assert(W->out[q].req->get_type() == (prevote ? msg_type::prevote_request : msg_type::vote_request), "votes are asked for"); to |= 1 << W->out[q].to; }
    vp_assert(to == (mem[known] & ~2), "votes are asked of the members of the last configuration known to be committed"); if (known) vp_reach("stands"); vp_out("to", to);
}
// a server that was a member before, with its files or without, is invited again: what it is sent has configurations with it
HARNESS(join_again) {
    mem_log L; L.whole_packs = true; ulong T = vp_u64("term"); vp_assume(T >= 2 && T < TMAX); int gap = vp_choose("gap", 2); ulong ca = 2 + gap, cb = ca + 1 + vp_choose("stay", 2), len = cb + vp_choose("tail", 2); const int32 S = 2;
    auto with = [&](ulong i, ulong prev, bool me) { ptr<cluster_config> c = mkconf(2, i, prev); if (me) c->get_servers().push_back(mksrv(4)); return c; }; auto conf_at = [&](ulong i) { return i >= cb ? with(cb, ca, false) : i >= ca ? with(ca, 1, true) : with(1, 0, false); };
    for (ulong i = 1; i <= len; i++) { ptr<log_entry> e = i == 1 || i == ca || i == cb ? mkconfent(T - 1, *conf_at(i)) : mkent(T - 1, (byte)(0x80 + i)); L.append(e); }
    new_world(4); W->log->whole_packs = true; W->stop_on_exit = false; ulong had = vp_choose("files", 2) ? ca + vp_choose("applied", (int)(cb - ca + (cb == len))) : 0; if (had) { for (ulong i = 1; i <= had; i++) W->log->v.push_back(L.v[i - 1]); W->sm_idx = had; W->d_conf = conf_at(had); W->d_term = T - 1; if (had >= cb) vp_reach("knew"); } else { W->d_conf = cs_new<cluster_config>(0, 0); W->d_conf->get_servers().push_back(mksrv(4)); W->d_term = 0; } boot();
    ulong nx; { req_msg r(T, msg_type::join_cluster_request, S, 4, 0, len, len); r.log_entries().push_back(cs_new<log_entry>(T, conf_at(cb)->serialize(), log_val_type::conf)); ptr<resp_msg> q = deliver(r); vp_assert(q && q->get_accepted(), "a server accepts the invitation to join"); nx = vp_concretize(q->get_next_idx()); }
    auto out = [&]() { size_t o = W->out.size(); election_timeout(); vp_assert(W->out.size() == o && W->d_term == T && !W->exits, "a server that joins again waits until it is a member again"); };
    int sn = vp_choose("snapshot", (int)len + 1); auto snap = [&](ulong at, ptr<cluster_config> c) { ptr<snapshot> sp = cs_new<snapshot>(at, at > len ? T : T - 1, c, 1); bufptr d = buffer::alloc(1); d->put((byte)7); d->pos(0); snapshot_sync_req q(sp, 0, std::move(d), true); req_msg r(T, msg_type::install_snapshot_request, S, 4, at > len ? T : T - 1, at, at); r.log_entries().push_back(cs_new<log_entry>(T, q.serialize(), log_val_type::snp_sync_req)); ptr<resp_msg> x = deliver(r); vp_assert(x && x->get_accepted(), "a joining server takes the snapshot"); };
    if (sn) { snap(sn, conf_at(sn)); nx = sn + 1; vp_reach("snapshot"); out(); }
    for (int k = 0; nx <= len && k < 8; k++) { int cnt = 1 + vp_choose("cnt", 2); if (nx + cnt > len + 1) cnt = len + 1 - nx; req_msg r(T, msg_type::sync_log_request, S, 4, 0, nx - 1, len); r.log_entries().push_back(cs_new<log_entry>(T, L.pack(nx, cnt), log_val_type::log_pack)); ptr<resp_msg> q = deliver(r); vp_assert(q && q->get_accepted() && q->get_next_idx() == nx + cnt, "a joining server takes the log packs"); nx = vp_concretize(q->get_next_idx()); out(); }
    if (vp_choose("invited again", 2)) { req_msg r(T, msg_type::join_cluster_request, S, 4, 0, len, len); r.log_entries().push_back(cs_new<log_entry>(T, conf_at(cb)->serialize(), log_val_type::conf)); ptr<resp_msg> q = deliver(r); vp_assert(q && q->get_accepted() && q->get_next_idx() == len + 1, "an invitation again goes on with what follows"); out(); vp_reach("again"); }
    ptr<cluster_config> c1 = with(len + 1, cb, true); int how = vp_choose("end", 3);
    if (how < 2) { req_msg r(T, msg_type::append_entries_request, S, 4, T - 1, len, len); r.log_entries().push_back(mkconfent(T, *c1)); ptr<resp_msg> q = deliver(r); vp_assert(q->get_accepted() && q->get_next_idx() == len + 2, "and then ordinary entries"); out(); }
    if (how > 0) { snap(len + 1, c1); vp_reach("by snapshot"); } else { req_msg r(T, msg_type::append_entries_request, S, 4, T, len + 1, len + 1); ptr<resp_msg> q = deliver(r); vp_assert(q->get_accepted(), "and heartbeats"); }
    vp_assert(!W->exits && W->d_conf->get_log_idx() == len + 1 && W->d_conf->get_server(4), "the joined server saves the new configuration"); size_t o = W->out.size(); vp_assert(election_timeout(), "as a member it watches the leader"); vp_assert(W->out.size() == o + 2, "as a member it stands for election when the leader is silent"); vp_reach("joined"); vp_out("start", W->log->start);
}

// a member that left and came back elsewhere is reached where the latest configuration says
HARNESS(moved_member) {
    new_world(1); ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX - 4); W->d_term = T; W->params->max_append_size_ = 10; W->params->log_sync_stop_gap_ = 1; W->params->snapshot_distance_ = 0; ptr<cluster_config> c1 = mkconf(3, 1, 0), c2 = cs_new<cluster_config>(2, 1), c3 = cs_new<cluster_config>(3, 2);
    for (int i : {1, 3}) { c2->get_servers().push_back(mksrv(i)); c3->get_servers().push_back(mksrv(i)); } bool front = vp_choose("listed first", 2); ptr<srv_config> mv = cs_new<srv_config>(2, ep(7)); if (front) c3->get_servers().push_front(mv); else c3->get_servers().push_back(mv);
    W->d_conf = cpconf(*c1); W->sm_idx = 1; { ptr<log_entry> e = mkconfent(T, *c1); W->log->append(e); } boot(); int how = vp_choose("how", 3); bool cached = vp_choose("asked before", 2);
    auto hear = [&](int from, ulong t) { req_msg r(t, msg_type::append_entries_request, from, 1, T, last_idx(), last_idx()); deliver(r); }; auto ask = [&](int to) { size_t o0 = W->out.size(); std::vector<bufptr> l; l.push_back(mkbuf(0x31)); ptr<async_result<bool>> r = W->srv->append_entries(l); vp_run_others(); vp_assert(W->out.size() == o0 + 1 && W->out[o0].to == to && W->out[o0].req->get_type() == msg_type::client_request, "a follower forwards to where its leader is now"); answer((int)o0, cs_new<resp_msg>(W->d_term, msg_type::append_entries_response, 2, 1, 5, true)); vp_assert(r->get(), "the leader's answer is the result"); };
    if (cached) { hear(2, T); ask(2); } ulong t = T + (cached ? 1 : 0);
    if (how == 2) { ptr<snapshot> sp = cs_new<snapshot>(3, T, cpconf(*c3), 1); bufptr d = buffer::alloc(1); d->put((byte)7); d->pos(0); snapshot_sync_req q(sp, 0, std::move(d), true); req_msg r(t, msg_type::install_snapshot_request, 3, 1, T, 3, 3); r.log_entries().push_back(cs_new<log_entry>(t, q.serialize(), log_val_type::snp_sync_req)); vp_assert(deliver(r)->get_accepted(), "the snapshot is taken"); vp_reach("snapshot"); }
    else { req_msg r(t, msg_type::append_entries_request, 3, 1, T, 1, how ? 2 : 3); r.log_entries().push_back(mkconfent(T, *c2)); r.log_entries().push_back(mkconfent(T, *c3)); vp_assert(deliver(r)->get_accepted(), "entries are taken"); if (how) { req_msg q(t, msg_type::append_entries_request, 3, 1, T, 3, 3); deliver(q); } vp_reach("entries"); }
    vp_assert(W->d_conf->get_log_idx() == 3, "the configuration is applied"); if (vp_choose("restarted", 2)) crash_and_restart();
    if (vp_choose("then", 2) == 0) { hear(2, t + 1); ask(7); vp_reach("forwarded"); return; }
    for (auto& o : W->out) o.done = true; size_t o0 = W->out.size(); on_send = [](world&, sent& s) { vp_assert(s.to == 7 || s.to == 3, "a member that moved is reached where the latest configuration says"); }; election_timeout(); int k = 0;
    for (size_t i = o0; i < W->out.size(); i++) if (W->out[i].req->get_type() == msg_type::prevote_request) { vp_assert(W->out[i].req->get_dst() == (W->out[i].to == 7 ? 2 : 3), "messages name who they are for"); k++; } vp_assert(k == 0 || k == 2, "every member is asked"); if (k) { int j = pending_to(7, msg_type::prevote_request); vp_assert(j >= 0, "every member is asked"); answer(j, mkresp(W->d_term, msg_type::prevote_response, 2, 1, true)); }
    int j = pending_to(7, msg_type::vote_request); vp_assert(j >= 0 && pending_to(3, msg_type::vote_request) >= 0, "every member is asked for its vote"); answer(j, mkresp(W->d_term, msg_type::vote_response, 2, 1, true)); j = pending_to(7, msg_type::append_entries_request); vp_assert(j >= 0, "the leader replicates to where its members are"); vp_reach("leads"); vp_out("then", how);
}
