// Crashes inside the handling of a message: C28. Before every durable operation of the server under test (saving the state or the configuration,
// changing the log, applying to the state machine) the durable state may be kept as an image; the server is later restarted from the image.
#include "raft_env.hpp"
static ulong promised;      // what the follower confirmed before the crash
static world* IMG; static int crash_at, ops; static std::string crash_op; static std::vector<sent> img_out;
static void take() {
    IMG = new world(); IMG->id = W->id; IMG->d_term = W->d_term; IMG->d_vote = W->d_vote; IMG->d_has = W->d_has; IMG->d_conf = cpconf(*W->d_conf); IMG->log = cs_new<mem_log>(); IMG->log->start = W->log->start; IMG->log->v = W->log->v; IMG->sm_idx = W->sm_idx; IMG->snp = W->snp; IMG->params = W->params; IMG->conf_mono = W->conf_mono; IMG->sm = W->sm; IMG->applied_snp = W->applied_snp;
}
static void durable_op(const char* what) { ops++; if (!IMG && ops == crash_at) { crash_op = what; take(); } }
static void kept(); static void again();
static bool restart() { if (!IMG) return false; W = IMG; IMG = nullptr; crash_at = 0; kept(); boot(); if (vp_choose("asked anew", 2)) again(); return true; }
static int ids(cluster_config& c) { int m = 0; for (auto& s : c.get_servers()) m |= 1 << s->get_id(); return m; }
// ---- a leader that keeps to the protocol
static std::vector<ptr<log_entry>> L; static ulong LS, LT, Lsnap, Lnext; static ptr<cluster_config> Lconf;      // log (from index 1), first index still in its log, term, snapshot, next index for the follower
static ulong lterm(ulong i) { return i ? L[i - 1]->get_term() : 0; }
static void again() { Lnext = L.size() + 1; }      // a leader elected meanwhile begins at its end
static bool crashed() { return IMG != nullptr; }
static void app(ulong prev, ulong n, ulong commit, ptr<resp_msg>& p) { req_msg r(LT, msg_type::append_entries_request, 2, 1, lterm(prev), prev, commit); for (ulong i = 0; i < n; i++) r.log_entries().push_back(cs_new<log_entry>(L[prev + i]->get_term(), buffer::copy(L[prev + i]->get_buf()), L[prev + i]->get_val_type())); p = deliver(r); }
static void kept() {
    for (ulong i = 1; i <= promised; i++) { if (i < W->log->start || i <= W->sm_idx) { vp_assert(i <= W->sm_idx || (i < W->log->start && W->snp && W->snp->get_last_log_idx() >= i), "what a server confirmed survives a crash"); continue; } vp_assert(i < W->log->next_slot(), "what a server confirmed survives a crash"); log_entry& e = *W->log->v[i - W->log->start]; vp_assert(e.get_term() == lterm(i) && tag_of(e) == tag_of(*L[i - 1]), "what a server confirmed survives a crash"); }
    vp_assert(W->d_term >= (promised ? LT : 0), "the term a server answered in survives a crash");
}
// one exchange; true if the follower is known to hold everything
static bool exchange(ulong commit, int batch) {
    if (Lnext < LS) {
        ulong at = Lsnap, size = 2; for (ulong off = 0; off < size; off++) { bufptr d = buffer::alloc(1); d->put((byte)(0x70 + off)); d->pos(0); ptr<snapshot> sp = cs_new<snapshot>(at, lterm(at), cpconf(*Lconf), size); snapshot_sync_req q(sp, off, std::move(d), off + 1 == size); req_msg r(LT, msg_type::install_snapshot_request, 2, 1, lterm(at), at, commit); r.log_entries().push_back(cs_new<log_entry>(LT, q.serialize(), log_val_type::snp_sync_req));
            ptr<resp_msg> p = deliver(r); if (crashed()) return false; vp_assert((bool)p, "a snapshot request is answered"); if (!p->get_accepted()) { Lnext = at + 1; return false; } }
        Lnext = at + 1; promised = at; return false;
    }
    ulong n = L.size() + 1 - Lnext; if (n > (ulong)batch) n = batch; ptr<resp_msg> p; app(Lnext - 1, n, commit, p); if (crashed()) return false; vp_assert((bool)p && p->get_term() == LT, "a request is answered");
    if (p->get_accepted()) { vp_assert(p->get_next_idx() == Lnext + n, "what was sent is confirmed"); Lnext = p->get_next_idx(); promised = Lnext - 1; return Lnext == L.size() + 1 && n == 0; }
    if (p->get_next_idx() > 0 && p->get_next_idx() < Lnext) Lnext = p->get_next_idx(); else Lnext--; vp_assert(Lnext >= 1, "a follower accepts what follows nothing"); return false;
}
static void caught_up(ulong commit) {
    vp_assert(W->log->next_slot() >= L.size() + 1 && W->log->start <= L.size() + 1, "the log has the leader's entries"); for (ulong i = W->log->start; i <= L.size(); i++) { log_entry& e = *W->log->v[i - W->log->start]; vp_assert(e.get_term() == L[i - 1]->get_term() && e.get_val_type() == L[i - 1]->get_val_type() && tag_of(e) == tag_of(*L[i - 1]), "the log is the leader's"); }
    ulong at = 0; for (ulong i = 1; i <= commit; i++) if (L[i - 1]->get_val_type() == log_val_type::app_log) at = i; vp_assert(W->sm_idx >= at, "what is committed is applied"); ptr<cluster_config> c = Lconf; for (ulong i = 1; i <= commit; i++) if (L[i - 1]->get_val_type() == log_val_type::conf) { L[i - 1]->get_buf().pos(0); c = cluster_config::deserialize(L[i - 1]->get_buf()); L[i - 1]->get_buf().pos(0); } if (commit) vp_assert(ids(*W->d_conf) == ids(*c), "the committed configuration is the saved one");
}
// what the state machine was given since it last was at `from`
static void applied_in_order(ulong from) { ulong at = from; for (auto& s : W->sm) if (s.kind == A_COMMIT) { if (W->applied_snp > at && s.idx > W->applied_snp) at = W->applied_snp; do at++; while (at <= L.size() && L[at - 1]->get_val_type() != log_val_type::app_log); vp_assert(s.idx == at, "entries are applied in order, none is left out"); vp_assert(at <= L.size() && s.tag == tag_of(*L[at - 1]), "what is applied is the committed entry"); } }
static ulong began; static void setup(bool snap) {
    new_world(1); promised = 0; IMG = nullptr; ops = 0; crash_at = 0; L.clear(); const int n = VP_THOROUGH ? 4 : 3; LT = vp_u64("term"); vp_assume(LT >= 2 && LT < TMAX); int len = 2 + vp_choose("len", n - 1); int cat = vp_choose("conf", 2) ? 1 + vp_choose("conf_at", len - 1) : 0; ulong t0 = 1;
    ptr<cluster_config> c1 = mkconf(3, 1, 0); for (int i = 0; i < len; i++) { ulong t = vp_u64("t"); vp_assume(t >= t0 && t <= LT); t0 = t; if (i == 0) L.push_back(mkconfent(t, *c1)); else if (i == cat) { ptr<cluster_config> c = mkconf(4, i + 1, 1); L.push_back(mkconfent(t, *c)); } else L.push_back(mkent(t, (byte)(0x40 + i))); }
    int pre = vp_choose("common", len + 1), own = pre ? vp_choose("own", 3) : 0; for (int i = 0; i < pre; i++) W->log->v.push_back(cs_new<log_entry>(L[i]->get_term(), buffer::copy(L[i]->get_buf()), L[i]->get_val_type())); ulong o0 = pre ? lterm(pre) : 1; for (int i = 0; i < own; i++) { ulong t = vp_u64("own_t"); vp_assume(t >= o0 && t < LT); if (pre + i < len) vp_assume(t != lterm(pre + i + 1)); o0 = t; if (i == 0 && vp_choose("own_conf", 2)) { ptr<cluster_config> c = mkconf(2, pre + 1, cat && cat < pre ? cat + 1 : 1); W->log->v.push_back(mkconfent(t, *c)); } else W->log->v.push_back(mkent(t, (byte)(0x60 + i))); }
    ulong sm = vp_choose("applied", pre + 1); W->sm_idx = sm; W->d_term = vp_choose("same_term", 2) ? LT : LT - 1; ptr<cluster_config> sc = mkconf(sm > (ulong)cat && cat ? 4 : 3, sm > (ulong)cat && cat ? cat + 1 : sm ? 1 : 0, sm > (ulong)cat && cat ? 1 : 0); W->d_conf = sc; LS = 1; Lsnap = 0; Lconf = c1;
    if (snap) { Lsnap = sm + 1 + vp_choose("snap", len); if (Lsnap > (ulong)len) vp_kill(); LS = Lsnap + 1; if (cat && Lsnap > (ulong)cat) Lconf = mkconf(4, cat + 1, 1); if ((ulong)pre >= Lsnap && vp_choose("behind", 2)) vp_kill(); }
    W->conf_mono = true; began = sm; boot(); Lnext = len + 1; durable_hook = durable_op;
}
static void finish(const char* never, ulong from) {
    ulong c = L.size(); for (int k = 0; k < 16; k++) if (exchange(c, 2) && !crashed()) { caught_up(c); applied_in_order(from); return; } vp_fail(never);
}
// a follower crashes at any point of taking entries, and is brought up to date after the restart
HARNESS(crash_append) {
    setup(false); ulong from = began; crash_at = 1 + vp_choose("crash", VP_THOROUGH ? 14 : 9); int batch = 1 + vp_choose("batch", 2); ulong c = vp_choose("commit", 2) ? L.size() : W->sm_idx; bool up = false; for (int k = 0; k < 16 && !crashed() && !up; k++) up = exchange(c, batch); if (!crashed()) { vp_assert(up, "a follower catches up"); if (ops + 1 < crash_at) vp_kill(); take(); crash_op = "idle"; }
    ulong len = IMG->log->next_slot(); (void)len; restart(); ulong at = W->sm_idx; (void)at; finish("a follower catches up after a crash", from); vp_reach("restarted"); if (crash_op == "idle") vp_reach("idle"); if (crash_op == "log") vp_reach("log"); if (crash_op == "apply") vp_reach("apply"); if (crash_op == "conf") vp_reach("conf"); if (crash_op == "state") vp_reach("state"); vp_out("ops", ops);
}
// the same while a snapshot is installed; the moment between the compaction of the log and the installation has an entry of its own
static void install(bool gap) {
    setup(true); ulong from = began; crash_at = 1 + vp_choose("crash", VP_THOROUGH ? 14 : 9); Lnext = vp_choose("straight", 2) ? LS - 1 : L.size() + 1; bool up = false; for (int k = 0; k < 16 && !crashed() && !up; k++) up = exchange(L.size(), 2); if (!crashed()) { vp_assert(up, "a follower catches up"); if (ops + 1 < crash_at) vp_kill(); take(); crash_op = "idle"; }
    bool g = crash_op == "snapshot"; if (g != gap) vp_kill(); restart(); vp_reach("restarted"); finish(gap ? "a follower catches up after a crash between the compaction of its log and the installation of the snapshot" : "a follower catches up after a crash", from); if (crash_op == "idle") vp_reach("idle"); if (crash_op == "compact") vp_reach("compact"); if (crash_op == "conf") vp_reach("conf"); if (crash_op == "state") vp_reach("state"); vp_out("ops", ops);
}
HARNESS(crash_install) { install(false); }
HARNESS(crash_install_gap) { install(true); }
