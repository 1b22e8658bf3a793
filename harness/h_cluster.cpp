// Three real servers and the messages between them: C29. Three leaderships with losses and crashes in between, then undisturbed operation.
#include "raft_env.hpp"
static const int MAXN = 5; static int N = 3; static world* S[MAXN + 1]; static ulong T0; struct led { ulong term; int id; }; static std::vector<led> leds; struct ent { bool set = false; byte tag = 0; }; static ent hist[16]; static ulong hmax; static int nclient;
static void as(int i) { W = S[i]; }
static const char *ONE = "a term has one leader", *SAME = "all servers apply the same entries", *FULL = "a leader has every entry that was applied anywhere", *MATCH = "entries of one index and term are the same everywhere", *ORDER = "entries are applied in order, none is left out or repeated";
static size_t seen[MAXN + 1]; static int wrote[MAXN + 1]; static ulong at[MAXN + 1];
// snapshots: complete when asked for, the content tells the index they are of
static ulong snap_size; static byte snap_byte(ulong idx, ulong off) { return (byte)(idx * 16 + off + 1); }
static void whole_snapshot(world& w, ulong idx) { for (ulong off = 0; off < snap_size; off++) { byte b = 0; for (auto& g : w.got) if (g.first == off) b = g.second; vp_assert(b == snap_byte(idx, off), "an applied snapshot is whole"); } }
static void snapshots() {
    world* w0 = W; for (int i = 1; i <= N; i++) while (S[i]->snaps.size()) { W = S[i]; auto s = W->snaps[0]; auto f = W->snap_info[0]; W->snaps.erase(W->snaps.begin()); W->snap_info.erase(W->snap_info.begin()); vp_assert(N == 4 ? f.members == (f.conf == 1 ? 14 : 30) : f.members == 14, "a snapshot has the configuration of its index"); W->snp = cs_new<snapshot>(f.idx, f.term, mkconf(f.members == 30 ? 4 : 3, f.conf, f.conf == 1 ? 0 : 1), snap_size); bool yes = true; s.second(yes, ptr<std::exception>()); vp_run_others(); vp_reach("snapshot"); }
    W = w0;
}
static bool other[MAXN + 1][16];     // entries of the server's own log that are not given to the state machine
static void look() {
    for (int i = 1; i <= N; i++) { mem_log& a = *S[i]->log; for (ulong x = a.start; x < a.next_slot(); x++) other[i][x & 15] = a.v[x - a.start]->get_val_type() != log_val_type::app_log; }
    for (int i = 1; i <= N; i++) { world* w = S[i]; for (; seen[i] < w->sm.size(); seen[i]++) { smop& o = w->sm[seen[i]]; if (o.kind == A_SNAPSHOT) { whole_snapshot(*w, o.idx); vp_assert(o.idx > at[i], ORDER); at[i] = o.idx; } if (o.kind != A_COMMIT) continue; ulong x = at[i]; do x++; while (x < w->log->next_slot() && other[i][x & 15]); if (o.idx != x) { vp_out("server", i); vp_out("applied", o.idx); vp_out("due", x); vp_out("end", w->log->next_slot()); vp_out("start", w->log->start); for (auto& e : w->log->v) vp_out("kind", (int)e->get_val_type()); } vp_assert(o.idx == x, ORDER); at[i] = o.idx; ent& h = hist[o.idx & 15]; if (!h.set) { h.set = true; h.tag = o.tag; if (o.idx > hmax) hmax = o.idx; } else vp_assert(h.tag == o.tag, SAME); } }
    snapshots();
    for (int i = 1; i <= N; i++) if (S[i]->leader) { ulong t = S[i]->d_term; bool known = false; for (auto& l : leds) if (l.id == i) { if (l.term == t) known = true; } else vp_assert(l.term != t, ONE);
        if (!known) { leds.push_back({t, i}); world* w = S[i]; for (ulong x = 1; x <= hmax; x++) if (hist[x].set) vp_assert(x < w->log->start || (x < w->log->next_slot() && tag_of(*w->log->v[x - w->log->start]) == hist[x].tag), FULL); } }
    bool news[MAXN + 1]; for (int i = 1; i <= N; i++) { news[i] = S[i]->log->writes != wrote[i]; wrote[i] = S[i]->log->writes; }
    for (int i = 1; i <= N; i++) for (int j = i + 1; j <= N; j++) if (news[i] || news[j]) { mem_log &a = *S[i]->log, &b = *S[j]->log; for (ulong x = std::max(a.start, b.start); x < a.next_slot() && x < b.next_slot(); x++) { log_entry &e = *a.v[x - a.start], &f = *b.v[x - b.start]; if (&e != &f) vp_assert((e.get_term() != f.get_term()) | ((e.get_val_type() == f.get_val_type()) & (tag_of(e) == tag_of(f))), MATCH); } }
}
static ptr<log_entry> cpent(log_entry& e) { buffer& b = e.get_buf(); size_t p = b.pos(); b.pos(0); bufptr c = buffer::copy(b); c->pos(0); b.pos(p); return cs_new<log_entry>(e.get_term(), std::move(c), e.get_val_type()); }
static ptr<req_msg> cpreq(req_msg& q) { ptr<req_msg> r = cs_new<req_msg>(q.get_term(), q.get_type(), q.get_src(), q.get_dst(), q.get_last_log_term(), q.get_last_log_idx(), q.get_commit_idx()); for (auto& e : q.log_entries()) r->log_entries().push_back(cpent(*e)); return r; }
static std::vector<ptr<req_msg>> held; static bool dead[MAXN + 1], leaving[MAXN + 1], anew[MAXN + 1]; static int M0 = 3;      // servers that stopped or were asked to leave; members at the beginning
enum { OK, LOST, LATE, NEVER };       // the answer arrives; is lost; the request is overtaken by its failure; neither arrives
static int next_req(int i, int j, bool votes) { for (size_t k = 0; k < S[i]->out.size(); k++) { sent& s = S[i]->out[k]; if (s.done || s.to != j) continue; msg_type t = s.req->get_type(); if ((t == msg_type::vote_request || t == msg_type::prevote_request) == votes) return (int)k; } return -1; }
// a server that joins begins with nothing
static ptr<resp_msg> take(req_msg& q) { int j = q.get_dst(); bool m = S[j]->d_conf->get_server(j) && S[j]->d_conf->get_servers().size() > 1; ptr<resp_msg> p = deliver(q); if (q.get_type() == msg_type::join_cluster_request && p->get_accepted() && (!m || anew[j]) && at[j] + 1 > p->get_next_idx()) at[j] = vp_concretize(p->get_next_idx() - 1); if (q.get_type() == msg_type::join_cluster_request && p->get_accepted()) anew[j] = false; if (q.get_type() == msg_type::leave_cluster_request && p->get_accepted()) leaving[j] = true; return p; }
static bool exchange(int i, int j, int how, bool votes) {
    int k = next_req(i, j, votes); if (k < 0) return false; as(i); ptr<req_msg> q = cpreq(*W->out[k].req); ptr<resp_msg> p; if (dead[j]) how = NEVER;
    if (how == OK || how == LOST) { as(j); p = take(*q); vp_assert((bool)p, "a request is answered"); if (dead[j]) how = LOST; } if (how == LATE) held.push_back(q);
    as(i); if (how == OK) answer(k, p); else answer_err(k); look(); return true;
}
static void elect(int i, int mask) {
    as(i); if (W->leader || dead[i]) return; if (!election_timeout()) vp_fail("a server that does not lead has an election timeout ahead"); look();
    for (int round = 0; round < 2; round++) for (int j = 1; j <= N; j++) if (j != i) while (exchange(i, j, mask >> j & 1 ? OK : NEVER, true));
}
// entries to one follower: what is outstanding, or a heartbeat
static void replicate(int i, int j, int how) {
    as(i); if (!W->leader) return; if (next_req(i, j, false) < 0) { for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && !W->tm[t].retry && W->tm[t].pending) fire((int)t); look(); if (next_req(i, j, false) < 0) vp_fail("a leader sends heartbeats"); }
    exchange(i, j, how, false);
}
static void submit(int i) { as(i); if (!W->leader) return; byte tag = (byte)(0x40 + nclient++); std::vector<bufptr> l; l.push_back(mkbuf(tag)); W->srv->append_entries(l); vp_run_others(); look(); }
static void crash(int i) { as(i); for (auto& s : W->out) s.done = true; W->sm.clear(); seen[i] = 0; at[i] = W->sm_idx; W->leader = false; W->in_ext = false; crash_and_restart(); W->in_ext = N >= 4; look(); }
static void late() { for (auto& q : held) if (!dead[q->get_dst()]) { as(q->get_dst()); take(*q); look(); } held.clear(); }
static void settle() {
    for (int round = 0; round < 12; round++) {
        int l = 0; for (int i = 1; i <= N; i++) if (S[i]->leader && (!l || S[i]->d_term > S[l]->d_term)) l = i; if (!l) { elect(1 + (round + 2) % N, 14); continue; }
        as(l); if (last_term() != W->d_term) submit(l); ulong want = S[l]->log->next_slot(); auto even = [&]() { for (int i = 1; i <= N; i++) if (at[i] + 1 != want || S[i]->log->next_slot() != want) return false; return true; }; for (int x = 0; x < 8 && !even(); x++) for (int j = 1; j <= N; j++) if (j != l && S[l]->leader) replicate(l, j, OK);
        if (!S[l]->leader) continue; ulong end = S[l]->log->next_slot() - 1; bool all = hist[end & 15].set; for (int i = 1; i <= N; i++) all = all && at[i] == end && S[i]->log->next_slot() == end + 1; if (all) { vp_reach("settled"); return; }
    }
    for (int i = 1; i <= N; i++) { vp_out("leader", S[i]->leader); vp_out("term", S[i]->d_term); vp_out("end", S[i]->log->next_slot()); vp_out("at", at[i]); vp_out("start", S[i]->log->start); vp_out("snp", S[i]->snp ? S[i]->snp->get_last_log_idx() : 0); vp_out("out", S[i]->out.size()); for (size_t k = 0; k < S[i]->out.size() && k < 28; k++) { sent& s = S[i]->out[k]; vp_out("to", s.to); vp_out("type", (int)s.req->get_type()); vp_out("last", s.req->get_last_log_idx()); vp_out("n", s.req->log_entries().size()); vp_out("done", s.done); } }
    vp_fail("once nothing is disturbed, an entry is applied everywhere");
}
static int reserved;
static void up(bool prevote, bool snaps = false, bool fixed = false) {
    vp_clock_ns = 1700000000000000000ull; leds.clear(); held.clear(); hmax = 0; nclient = 0; for (auto& h : hist) h = ent(); T0 = 5; if (!fixed) { T0 = vp_u64("term"); vp_assume(T0 >= 1 && T0 < TMAX); } ulong t1 = vp_u64("first_term"); vp_assume(t1 >= 1 && t1 <= T0);
    for (int i = 1; i <= N; i++) { S[i] = new_world(i); W->params->prevote_enabled_ = prevote; W->params->log_sync_batch_size_ = 1; W->params->log_sync_stop_gap_ = 1; if (snaps) { W->params->snapshot_distance_ = 2; W->params->reserved_log_items_ = reserved; W->params->snapshot_block_size_ = 1; W->snap_content = snap_byte; } W->d_conf = mkconf(M0, 1, 0); dead[i] = leaving[i] = anew[i] = false; W->d_term = T0; W->monotone = true; ptr<log_entry> e = mkconfent(t1, *W->d_conf); W->log->append(e); W->sm_idx = 1; seen[i] = 0; wrote[i] = 0; at[i] = 1; if (i > M0) { W->d_conf = cs_new<cluster_config>(0, 0); W->d_conf->get_servers().push_back(mksrv(i)); W->d_term = 0; W->monotone = false; W->log = cs_new<mem_log>(); W->sm_idx = at[i] = 0; } W->log->whole_packs = true; boot(); W->in_ext = N >= 4; }
}
HARNESS(cluster) {
    bool prevote = vp_choose("prevote", 2); up(prevote); int l = 1; const int full = VP_THOROUGH;
    for (int era = 0; era < 2; era++) {
        bool wide = full || !era; if (era) { l = 1 + vp_choose("candidate", N); if (l == 1 && S[1]->leader) vp_kill(); } int m = vp_choose("asked", era && full ? 3 : 2); elect(l, m == 0 ? 14 : m == 1 ? 1 << (l % N + 1) : 1 << ((l + 1) % N + 1)); if (!S[l]->leader) vp_reach("not elected"); else if (era) vp_reach("again");
        if (wide ? !full || vp_choose("client", 2) : vp_choose("client", 2)) submit(l); if (S[l]->leader) for (int j = 1; j <= N; j++) if (j != l) { int r = vp_choose("round", wide && !prevote ? 3 : 2); for (int k = 0; k < r; k++) replicate(l, j, k == 0 ? vp_choose("how", prevote ? 1 : wide ? 3 : 2) : OK); }
        int x = vp_choose("crash", wide ? 3 : 2); if (x == 1) crash(l); else if (x == 2) crash(l % N + 1); if (x) vp_reach("crash");
        if (era && held.size()) { late(); vp_reach("late"); }
    }
    elect(full ? 1 + vp_choose("last", N) : vp_choose("last", 2) ? l : l % N + 1, 14); settle(); vp_out("applied", hmax);
}
// three leaderships without losses within them: any server asks any one other for its vote, and brings either, none or both up to date
static void brief(int l, int other, bool client, int fed) { for (int k = 0; k < 3 && !S[l]->leader; k++) elect(l, 1 << other); if (!S[l]->leader) { vp_reach("not elected"); return; } if (client) submit(l); for (int j = 1, b = 1; j <= N; j++) if (j != l) { if (fed & b) for (int k = 0; k < 3; k++) replicate(l, j, OK); b <<= 1; } }
static int another(int l) { int k = 1 + vp_choose("voter", N - 1); return k < l ? k : k + 1; }
HARNESS(cluster_deep) {
    up(false, false, true); bool twice = vp_choose("twice", 2); brief(1, 2, true, vp_choose("fed", twice ? 4 : 3)); if (twice) { submit(1); int f = vp_choose("fed", 4); for (int j = 2; j <= 3; j++) if (f >> (j - 2) & 1) for (int k = 0; k < 3; k++) replicate(1, j, OK); vp_reach("twice"); } const int eras = (VP_THOROUGH ? 3 : 2) - twice;
    for (int era = 0; era < eras; era++) { int l = 1 + vp_choose("candidate", N); if (S[l]->leader) { crash(l); vp_reach("crash"); } brief(l, another(l), vp_choose("client", 2), vp_choose("fed", 4)); if (S[l]->leader) vp_reach("again"); }
    int l = 1 + vp_choose("last", N); if (S[l]->leader) crash(l); int v = VP_THOROUGH ? 14 : 1 << another(l); for (int k = 0; k < 3 && !S[l]->leader; k++) elect(l, v); settle(); vp_out("applied", hmax);
}
// snapshots at every second entry: a follower that was left behind gets one
HARNESS(cluster_snap) {
    const int full = VP_THOROUGH; snap_size = 1 + vp_choose("size", 2); reserved = vp_choose("reserved", 2); up(false, true); int lag = 3; elect(1, 14); if (!S[1]->leader) vp_fail("the first candidate is elected");
    int n = 1 + vp_choose("entries", 2); for (int k = 0; k < n; k++) { submit(1); for (int r = 0; r < 2; r++) replicate(1, 2, OK); }
    int l = 1; if (vp_choose("other", 2)) { l = 1 + 1; elect(l, 14); if (!S[l]->leader) vp_fail("a server that has everything is elected"); submit(l); for (int r = 0; r < 2; r++) replicate(l, 1, OK); }
    int r = vp_choose("round", 5 + full); for (int k = 0; k < r; k++) replicate(l, lag, k + 2 + full >= r ? vp_choose("how", 4) : OK);
    int x = vp_choose("crash", 3); if (x == 1) crash(l); else if (x == 2) crash(lag); if (x) vp_reach("crash");
    if (vp_choose("again", 2)) { int m = 1 + vp_choose("candidate", N); if (m == l && S[l]->leader) vp_kill(); elect(m, 14); if (S[m]->leader) { vp_reach("again"); if (vp_choose("client", 2)) submit(m); for (int j = 1; j <= N; j++) if (j != m && vp_choose("heard", 2)) replicate(m, j, OK); l = m; } }
    if (held.size()) { late(); vp_reach("late"); }
    elect(vp_choose("last", 2) ? l : l % N + 1, 14); settle(); for (int i = 1; i <= N; i++) if (S[i]->applied_cnt) vp_reach("installed"); vp_out("applied", hmax);
}

// a fourth server joins, asked for at the leader or elsewhere; messages to it are lost or late, the leader may be lost meanwhile
static ptr<async_result<bool>> asked; static void ask(int l, int via) {
    as(via); srv_config c(4, ep(4)); asked = W->srv->add_srv(c); vp_run_others(); if (via == l) return; int k = pending_to(l, msg_type::add_server_request); vp_assert(k >= 0, "a request is forwarded to the leader");
    ptr<req_msg> q = cpreq(*W->out[k].req); as(l); ptr<resp_msg> p = deliver(*q); as(via); answer(k, p); look(); vp_assert(asked->get() == p->get_accepted(), "the caller is told what the leader answered");
}
static bool retries(int l) { as(l); bool any = false; size_t n = W->tm.size(); for (size_t t = 0; t < n; t++) if (W->tm[t].retry && W->tm[t].pending) { fire((int)t); any = true; } look(); return any; }
static bool member(int l, int j) { return (bool)S[l]->d_conf->get_server(j); }
static void settle_joined(bool more = false) {
    int asks = 0; for (int round = 0; round < 14; round++) {
        int l = 0; for (int i = 1; i <= N; i++) if (S[i]->leader && (!l || S[i]->d_term > S[l]->d_term)) l = i; if (!l) { elect(1 + (round + 2) % 3, 30); continue; }
        as(l); if (more || W->log->v.empty() || last_term() != W->d_term || W->log->v.back()->get_val_type() != log_val_type::app_log) submit(l); more = false; ulong want = S[l]->log->next_slot(); auto even = [&]() { for (int i = 1; i <= N; i++) if (member(l, i) && (at[i] + 1 != want || S[i]->log->next_slot() != want)) return false; return true; };
        for (int x = 0; x < 8 && !even(); x++) for (int j = 1; j <= N; j++) if (j != l && member(l, j) && S[l]->leader) replicate(l, j, OK);
        if (!S[l]->leader) continue; if (S[l]->log->next_slot() != want || !even()) continue; if (member(l, 4)) { vp_reach("settled"); return; }
        bool busy = false; for (int x = 0; x < 12 && (next_req(l, 4, false) >= 0 || retries(l)); x++) { exchange(l, 4, OK, false); busy = true; } if (S[l]->log->next_slot() != want) continue; if (!busy && asks++ < 2) { ask(l, l); vp_assert(asked->get(), "a leader without a pending change accepts a new server"); }
    }
    for (int i = 1; i <= N; i++) { vp_out("leader", S[i]->leader); vp_out("term", S[i]->d_term); vp_out("end", S[i]->log->next_slot()); vp_out("at", at[i]); vp_out("member", member(i, 4)); for (size_t k = 0; k < S[i]->out.size() && k < 28; k++) { sent& s = S[i]->out[k]; vp_out("to", s.to); vp_out("type", (int)s.req->get_type()); vp_out("last", s.req->get_last_log_idx()); vp_out("n", s.req->log_entries().size()); vp_out("done", s.done); } }
    vp_fail("once nothing is disturbed, a new server becomes a member and has everything");
}
HARNESS(cluster_add) {
    const int full = VP_THOROUGH; N = 4; bool snap = vp_choose("snapshots", 2); if (snap) { reserved = vp_choose("reserved", 2); snap_size = 2; } up(false, snap, true); elect(1, 14); submit(1); submit(1); for (int j = 2; j <= 3; j++) { int r = vp_choose("fed", 2); for (int k = 0; k < 2 * r; k++) replicate(1, j, OK); }
    int via = 1 + vp_choose("via", 2); if (via == 2 && at[2] < 2) vp_kill(); ask(1, via); int bad = 0, n = vp_choose("progress", 8); for (int k = 0; k < n; k++) { if (next_req(1, 4, false) < 0 && !retries(1)) vp_kill(); int how = bad < 1 + full ? vp_choose("how", 4) : OK; if (how) bad++; exchange(1, 4, how, false); }
    int fed = vp_choose("fed", 4); for (int j = 2; j <= 3; j++) if (fed >> (j - 2) & 1) for (int k = 0; k < 3; k++) replicate(1, j, OK);
    if (held.size() && vp_choose("soon", 2)) { late(); vp_reach("late"); }
    int x = vp_choose("disturb", 5); if (x == 1) crash(1); else if (x == 4) crash(4); else if (x == 2) elect(2, 14); else if (x == 3) { elect(3, 14); elect(3, 14); } if (x) vp_reach("disturbed"); if (x > 1 && x < 4 && S[x]->leader) { vp_reach("again"); int r = vp_choose("heard", 4); for (int k = 0; k < r; k++) replicate(x, x == 2 ? 3 : 2, OK); }
    settle_joined(); if (held.size()) { late(); vp_reach("late"); settle_joined(true); } if (S[4]->applied_cnt) vp_reach("installed"); vp_out("applied", hmax);
}

// two changes of the members one after the other, and a server that has them in its log but stopped before it applied them
static ptr<resp_msg> crash_unapplied(int j, req_msg& q) {      // takes the request and stops before the applying thread gets to run; what the old one does afterwards has no effect
    as(j); world* w = W; ptr<resp_msg> p = W->srv->process_req(q); world* n = new world(); n->id = j; n->params = w->params; n->d_term = w->d_term; n->d_vote = w->d_vote; n->d_has = w->d_has; n->d_conf = cpconf(*w->d_conf); n->log = cs_new<mem_log>(); n->log->start = w->log->start; n->log->v = w->log->v; n->log->whole_packs = true; n->snp = w->snp; n->sm_idx = w->sm_idx; n->monotone = w->monotone; n->snap_content = w->snap_content;
    w->stop_on_exit = false; w->exit_ok = true; vp_run_others(); W = S[j] = n; seen[j] = 0; at[j] = n->sm_idx; boot(); W->in_ext = N >= 4; look(); return p;
}
static void join(int l, int who) {
    as(l); srv_config c(who, ep(who)); ptr<async_result<bool>> r = W->srv->add_srv(c); vp_run_others(); vp_assert(r->get(), "a leader without a pending change accepts a new server");
    for (int x = 0; x < 12 && (next_req(l, who, false) >= 0 || retries(l)); x++) exchange(l, who, OK, false);
}
static void settle_members() {
    for (int round = 0; round < 14; round++) {
        int l = 0; for (int i = 1; i <= N; i++) if (S[i]->leader && (!l || S[i]->d_term > S[l]->d_term)) l = i; if (!l) { elect(1 + (round + 2) % 3, 62); continue; }
        as(l); if (last_term() != W->d_term || W->log->v.back()->get_val_type() != log_val_type::app_log) submit(l); ulong want = S[l]->log->next_slot(); auto even = [&]() { for (int i = 1; i <= N; i++) if (member(l, i) && (at[i] + 1 != want || S[i]->log->next_slot() != want)) return false; return true; };
        for (int x = 0; x < 8 && !even(); x++) for (int j = 1; j <= N; j++) if (j != l && member(l, j) && S[l]->leader) replicate(l, j, OK);
        if (S[l]->leader && S[l]->log->next_slot() == want && even()) { vp_reach("settled"); return; }
    }
    vp_fail("once nothing is disturbed, an entry is applied everywhere");
}
HARNESS(cluster_grow) {
    N = 5; up(false, false, true); elect(1, 14); for (int j = 2; j <= 3; j++) for (int k = 0; k < 2; k++) replicate(1, j, OK);
    join(1, 4); int fed = vp_choose("fed", 3); for (int j = 2; j <= 3; j++) if (fed != j - 1) { replicate(1, j, OK); if (vp_choose("learns", 2)) replicate(1, j, OK); } if (!member(1, 4)) vp_kill();
    if (vp_choose("told", 2)) { replicate(1, 4, OK); replicate(1, 4, OK); }
    join(1, 5); for (int j = 2; j <= 4; j++) { int x = vp_choose("got", 3); if (x == 1) for (int k = 0; k < 3; k++) replicate(1, j, OK); if (x == 2) for (int y = 0; y < 3 && S[j]->log->next_slot() < S[1]->log->next_slot(); y++) { as(1); if (next_req(1, j, false) < 0) vp_kill(); int k = next_req(1, j, false); ptr<req_msg> q = cpreq(*W->out[k].req); ptr<resp_msg> p = crash_unapplied(j, *q); as(1); answer(k, p); look(); vp_reach("crash"); } }
    int c = 2 + vp_choose("candidate", 3), asked = vp_choose("asked", 15) + 1, k = 0, mask = 0; for (int j = 2; j <= 5; j++) if (j != c) { if (asked >> k & 1) mask |= 1 << j; k++; } if (asked > 7) vp_kill();
    elect(c, mask); bool won = S[c]->leader; if (won) vp_reach("again"); submit(1); for (int j = 2; j <= 5; j++) if (j != c && !(mask >> j & 1)) for (int x = 0; x < 3; x++) if (member(1, j)) replicate(1, j, OK);
    if (won) { submit(c); for (int j = 2; j <= 5; j++) if (mask >> j & 1) for (int x = 0; x < 4; x++) if (member(c, j)) replicate(c, j, OK); }
    settle_members(); vp_out("applied", hmax);
}

// a server is removed, asked for at any server; messages to it are lost or late, the leader or that server may be lost meanwhile; afterwards it may join again
static void on_exit(world& w) { vp_assert(leaving[w.id] || (w.exit_code == 0 && !w.d_conf->get_server(w.id)), "only a server that was asked to leave or was removed stops"); dead[w.id] = true; vp_reach(w.exit_code == 0 ? "removed" : "left"); }
static void forget(int j, bool all) {      // a new process of that server, with its files or without
    for (int i = 1; i <= N; i++) if (i != j) for (size_t k = 0; k < S[i]->out.size(); k++) if (S[i]->out[k].to == j && !S[i]->out[k].done) { as(i); answer_err(k); look(); }
    world* w = S[j]; new_world(j); W->params->prevote_enabled_ = w->params->prevote_enabled_; W->params->log_sync_batch_size_ = W->params->log_sync_stop_gap_ = 1; S[j] = W; W->log->whole_packs = true; seen[j] = 0; at[j] = 0; wrote[j] = 0; dead[j] = leaving[j] = false; anew[j] = true; W->stop_on_exit = false; W->exit_ok = true; W->at_exit = on_exit;
    if (all) { W->d_conf = cs_new<cluster_config>(0, 0); W->d_conf->get_servers().push_back(mksrv(j)); W->d_term = 0; } else { W->log->v = w->log->v; W->d_conf = cpconf(*w->d_conf); W->d_term = w->d_term; W->d_vote = w->d_vote; W->sm_idx = at[j] = w->sm_idx; } boot(); W->in_ext = true;
}
static int find_leader() { int l = 0; for (int i = 1; i <= N; i++) if (!dead[i] && S[i]->leader && (!l || S[i]->d_term > S[l]->d_term)) l = i; return l; }
static void bring(int l, ulong want) { auto even = [&]() { for (int i = 1; i <= N; i++) if (!dead[i] && member(l, i) && (at[i] + 1 != want || S[i]->log->next_slot() != want)) return false; return true; }; for (int x = 0; x < 8 && !even(); x++) for (int j = 1; j <= N; j++) if (j != l && !dead[j] && member(l, j) && S[l]->leader) replicate(l, j, OK); }
static bool remove(int l, int via, int who) {
    as(via); ptr<async_result<bool>> r = W->srv->remove_srv(who); vp_run_others(); if (via != l) { int k = pending_to(l, msg_type::remove_server_request); vp_assert(k >= 0, "a request is forwarded to the leader"); ptr<req_msg> q = cpreq(*W->out[k].req); as(l); ptr<resp_msg> p = deliver(*q); as(via); answer(k, p); look(); vp_assert(r->get() == p->get_accepted(), "the caller is told what the leader answered"); } return r->get();
}
static void show(int who) { for (int i = 1; i <= N; i++) { vp_out("server", i); vp_out("leader", S[i]->leader); vp_out("dead", dead[i]); vp_out("term", S[i]->d_term); vp_out("end", S[i]->log->next_slot()); vp_out("at", at[i]); vp_out("member", member(i, who)); for (size_t k = 0; k < S[i]->out.size() && k < 28; k++) { sent& s = S[i]->out[k]; vp_out("to", s.to); vp_out("type", (int)s.req->get_type()); vp_out("last", s.req->get_last_log_idx()); vp_out("n", s.req->log_entries().size()); vp_out("done", s.done); } }  }
static void settle_removed(int who) {
    int asks = 0; for (int round = 0; round < 16; round++) {
        int l = find_leader(); if (!l || l == who) { int c = 1 + (round % 2) % (M0 - 1); if (l == c) c = c % (M0 - 1) + 1; elect(c, 14); continue; }
        as(l); if (last_term() != W->d_term || W->log->v.back()->get_val_type() != log_val_type::app_log) submit(l); bring(l, S[l]->log->next_slot()); if (!S[l]->leader) continue;
        if (!member(l, who)) { submit(l); ulong want = S[l]->log->next_slot(); bring(l, want); bool all = true; for (int i = 1; i <= N; i++) if (i != who && !dead[i]) all = all && at[i] + 1 == want && S[i]->log->next_slot() == want && !member(i, who); if (all) { vp_reach("settled"); return; } continue; }
        bool busy = false; for (int x = 0; x < 14 && member(l, who) && S[l]->leader && (next_req(l, who, false) >= 0 || retries(l)); x++) { exchange(l, who, OK, false); busy = true; } if (!S[l]->leader || !member(l, who)) continue; if (!busy && asks++ < 3) vp_assert(remove(l, l, who), "a leader without a pending change accepts a removal");
    }
    for (int i = 1; i <= N; i++) { vp_out("leader", S[i]->leader); vp_out("dead", dead[i]); vp_out("term", S[i]->d_term); vp_out("end", S[i]->log->next_slot()); vp_out("at", at[i]); vp_out("member", member(i, who)); for (size_t k = 0; k < S[i]->out.size() && k < 28; k++) { sent& s = S[i]->out[k]; vp_out("to", s.to); vp_out("type", (int)s.req->get_type()); vp_out("last", s.req->get_last_log_idx()); vp_out("n", s.req->log_entries().size()); vp_out("done", s.done); } }
    vp_fail("once nothing is disturbed, a removed server is no member any more");
}
HARNESS(cluster_remove) {
    const int full = VP_THOROUGH; N = 3; M0 = 2 + vp_choose("servers", 2); N = M0; const int who = M0; up(false, false, true); for (int i = 1; i <= N; i++) S[i]->in_ext = true; S[who]->stop_on_exit = false; S[who]->exit_ok = true; S[who]->at_exit = on_exit;
    elect(1, 14); submit(1); for (int j = 2; j <= N; j++) { int r = vp_choose("fed", 2); for (int k = 0; k < 2 * r; k++) replicate(1, j, OK); }
    int via = 1 + vp_choose("via", M0); if (via > 1 && at[via] < 2) vp_kill(); if (via > 1) vp_reach("forwarded"); vp_assert(remove(1, via, who), "a leader without a pending change accepts a removal"); int bad = 0, n = vp_choose("progress", 5); for (int k = 0; k < n; k++) { if (!member(1, who) || (next_req(1, who, false) < 0 && !retries(1))) vp_kill(); int how = bad < 1 + full ? vp_choose("how", 4) : OK; if (how) bad++; exchange(1, who, how, false); }
    if (M0 == 3) { int f = vp_choose("round", 3); for (int k = 0; k < f; k++) replicate(1, 2, OK); } int h = vp_choose("heard", 4); for (int k = 0; k < h; k++) { if (next_req(1, who, false) < 0) vp_kill(); exchange(1, who, OK, false); }
    if (held.size() && vp_choose("soon", 2)) { late(); vp_reach("late"); }
    int x = vp_choose("disturb", 6); if (x == 1) crash(1); else if (x == 2) elect(2, 14); else if (x == 3) { if (who == 2) vp_kill(); elect(3, 14); elect(3, 14); } else if (x == 4) { if (dead[who]) vp_kill(); S[who]->exit_ok = S[who]->stop_on_exit = false; leaving[who] = false; crash(who); S[who]->exit_ok = true; } else if (x == 5) { if (dead[who] || (M0 == 2 && member(1, who))) vp_kill(); for (int k = 0; k < 2; k++) elect(who, 0); } if (x) vp_reach("disturbed");
    settle_removed(who); if (held.size()) { late(); vp_reach("late"); settle_removed(who); }
    if (!dead[who] && vp_choose("waits", 2)) { for (int k = 0; k < 2; k++) elect(who, 14); settle_removed(who); vp_reach("waited"); }
    if (vp_choose("back", 2)) { forget(who, vp_choose("empty", 2)); int l = find_leader(); as(l); submit(l); bring(l, S[l]->log->next_slot()); join(l, who); vp_assert(next_req(l, who, false) < 0 || member(l, who) || S[l]->log->v.back()->get_val_type() == log_val_type::conf, "it joins"); for (int k = 0; k < 4 && !member(l, who); k++) for (int j = 1; j <= N; j++) if (j != l && member(l, j)) replicate(l, j, OK); if (!member(l, who)) show(who); vp_assert(member(l, who), "a server that was removed can join again"); replicate(l, who, OK); submit(l); ulong want = S[l]->log->next_slot(); bring(l, want); for (int i = 1; i <= N; i++) if (at[i] + 1 != want || !member(i, who)) show(who); for (int i = 1; i <= N; i++) vp_assert(at[i] + 1 == want && member(i, who), "a server that was removed can join again"); vp_reach("back"); }
    vp_out("applied", hmax);
}

HARNESS(cluster_shrink) {
    N = M0 = 5; up(false, false, true); for (int i = 1; i <= N; i++) S[i]->in_ext = true; for (int i = 4; i <= 5; i++) { S[i]->stop_on_exit = false; S[i]->exit_ok = true; S[i]->at_exit = on_exit; } elect(1, 62); for (int j = 2; j <= 5; j++) for (int k = 0; k < 2; k++) replicate(1, j, OK);
    auto drop = [&](int who) { vp_assert(remove(1, 1, who), "a leader without a pending change accepts a removal"); for (int x = 0; x < 6 && !leaving[who]; x++) exchange(1, who, OK, false); vp_assert(leaving[who], "it agrees to leave"); };
    drop(5); int fed = vp_choose("fed", 4); bool learns = vp_choose("learns", 2); for (int j = 2; j <= 5; j++) if (fed == 3 ? j < 5 : fed == 2 ? j == 2 || j == 5 : fed == 1 ? j == 2 || j == 4 : j == 2 || j == 3) { replicate(1, j, OK); if (learns && member(1, j)) replicate(1, j, OK); }
    if (member(1, 5)) vp_kill(); drop(4);
    for (int j = 2; j <= 4; j++) { int x = vp_choose("got", 3); if (x == 1) for (int k = 0; k < 3; k++) if (member(1, j)) replicate(1, j, OK); if (x == 2) for (int y = 0; y < 3 && S[j]->log->next_slot() < S[1]->log->next_slot(); y++) { as(1); if (next_req(1, j, false) < 0) vp_kill(); int k = next_req(1, j, false); ptr<req_msg> q = cpreq(*W->out[k].req); ptr<resp_msg> p = crash_unapplied(j, *q); if (j > 3) { W->stop_on_exit = false; W->exit_ok = true; W->at_exit = on_exit; leaving[j] = false; } as(1); answer(k, p); look(); vp_reach("crash"); } }
    int c = 2 + vp_choose("candidate", 4), asked = vp_choose("asked", 14) + 1, k = 0, mask = 0; for (int j = 2; j <= 5; j++) if (j != c) { if (asked >> k & 1) mask |= 1 << j; k++; } if (asked > 7) vp_kill();
    elect(c, mask); bool won = S[c]->leader; if (won) vp_reach("again"); submit(1); for (int j = 2; j <= 5; j++) if (j != c && !(mask >> j & 1)) for (int x = 0; x < 3; x++) if (member(1, j)) replicate(1, j, OK);
    if (won) { submit(c); for (int j = 2; j <= 5; j++) if (mask >> j & 1) for (int x = 0; x < 4; x++) if (member(c, j)) replicate(c, j, OK); }
    settle_members(); vp_out("applied", hmax);
}

// two changes asked for at the same time: one is undecided while the other one begins
HARNESS(cluster_two) {
    bool add = vp_choose("add", 2); M0 = 4; N = add ? 5 : 4; up(false, false, true); for (int i = 1; i <= N; i++) S[i]->in_ext = true; for (int i = 3; i <= 4; i++) { S[i]->stop_on_exit = false; S[i]->exit_ok = true; S[i]->at_exit = on_exit; } elect(1, 30); submit(1); for (int j = 2; j <= 4; j++) for (int k = 0; k < 2; k++) replicate(1, j, OK);
    vp_assert(remove(1, 1, 4), "a leader without a pending change accepts a removal"); if (add) { as(1); srv_config c(5, ep(5)); ptr<async_result<bool>> r = W->srv->add_srv(c); vp_run_others(); vp_assert(r->get(), "a leader without a pending change accepts a new server"); } else vp_assert(remove(1, 1, 3), "a leader without a pending change accepts a removal");
    int n = VP_THOROUGH ? 7 : 6; for (int k = 0; k < n; k++) { int j = vp_choose("step", N + 1); if (j == 0) break; if (j == 1) { if (!retries(1)) vp_kill(); } else if (!exchange(1, j, OK, false)) vp_kill(); }
    for (int x = 0; x < 24; x++) { bool busy = false; for (int j = 2; j <= N; j++) { as(1); if (next_req(1, j, false) >= 0) { exchange(1, j, OK, false); busy = true; } } retries(1); if (!busy) { bool un = false; as(1); for (ulong i = at[1] + 1; i < W->log->next_slot(); i++) un = true; if (!un && x > 4) break; for (int j = 2; j <= N; j++) if (member(1, j)) replicate(1, j, OK); } }
    submit(1); bring(1, S[1]->log->next_slot()); submit(1); bring(1, S[1]->log->next_slot()); vp_assert(S[1]->leader, "nobody disturbs the leader");
    for (int i = 1; i <= N; i++) if (!dead[i] && (member(1, i) || i < 3)) { for (int j = 1; j <= N; j++) { bool want = j == 5 ? true : j < 3 || !leaving[j]; if (!want) vp_reach("removed"); vp_assert(member(i, j) == want, "changes that were agreed to are carried out, others are not"); } vp_assert(at[i] + 1 == S[1]->log->next_slot(), "every member gets everything"); }
    if (leaving[3] && leaving[4]) vp_reach("both"); vp_reach("settled"); vp_out("applied", hmax);
}
