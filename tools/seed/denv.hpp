// (demonstration only) Environment of one raft_server: durable state, log store, state machine, network and timers, all recorded.
// The server is only driven through its public interface (process_req, response handlers, timer tasks, client calls).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <chrono>
#include <functional>
#include <vector>
#include <mutex>
#include <unistd.h>
static void need(bool c, const char* m) { if (!c) { printf("FAILED: %s\n", m); fflush(stdout); _exit(1); } }
#define vp_assert(c, m) ((void)(c))
#define vp_concretize(x) (x)
static void settle() { std::this_thread::sleep_for(std::chrono::milliseconds(120)); }
#define vp_run_others settle
static void vp_kill() { printf("system_exit\n"); fflush(stdout); _exit(3); }
#include "cornerstone.hxx"
#include <cstring>
#include <typeinfo>
using namespace cornerstone;
#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
static const ulong TMAX = 1ull << 60;                 // terms and indices stay below this (no 64-bit wrap-around)

static bufptr mkbuf(byte tag) { bufptr b = buffer::alloc(1); b->put(tag); b->pos(0); return b; }
static byte tag_of(log_entry& e) { buffer& b = e.get_buf(); size_t p = b.pos(); b.pos(0); byte t = b.size() ? *b.data() : 0; b.pos(p); return t; }
static ptr<log_entry> mkent(ulong term, byte tag) { return cs_new<log_entry>(term, mkbuf(tag), log_val_type::app_log); }
static std::string ep(int32 id) { char c[3] = {'s', (char)('0' + id), 0}; return std::string(c); }
static ptr<srv_config> mksrv(int32 id) { return cs_new<srv_config>(id, ep(id)); }
static ptr<cluster_config> mkconf(int n, ulong idx, ulong prev) { ptr<cluster_config> c = cs_new<cluster_config>(idx, prev); for (int i = 1; i <= n; i++) c->get_servers().push_back(mksrv(i)); return c; }
static ptr<cluster_config> cpconf(const cluster_config& o) { bufptr b = const_cast<cluster_config&>(o).serialize(); return cluster_config::deserialize(*b); }
static ptr<log_entry> mkconfent(ulong term, cluster_config& c) { return cs_new<log_entry>(term, c.serialize(), log_val_type::conf); }

// Reference log store: exactly the contract of log_store.hxx; write_at discards what follows, as the bundled store does.
class mem_log : public log_store {
public:
    ulong start; std::vector<ptr<log_entry>> v; bool fail_compact = false; int writes = 0;
    mem_log() : start(1) {}
    ulong next_slot() const override { return start + v.size(); }
    ulong start_index() const override { return start; }
    ptr<log_entry> last_entry() const override { return v.empty() ? cs_new<log_entry>(0, buffer::alloc(0)) : v.back(); }
    ulong append(ptr<log_entry>& e) override { writes++; v.push_back(e); return start + v.size() - 1; }
    void write_at(ulong i, ptr<log_entry>& e) override {
        writes++; vp_assert(i >= start && i < next_slot(), "write_at is only asked for an index inside the log");
        i = vp_concretize(i); v.resize(i - start); v.push_back(e);
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong e) override {
        if (s >= e || s >= next_slot()) return ptr<std::vector<ptr<log_entry>>>();
        vp_assert(s >= start && e <= next_slot(), "log_entries is only asked for a range inside the log");
        s = vp_concretize(s); e = vp_concretize(e);
        ptr<std::vector<ptr<log_entry>>> r = cs_new<std::vector<ptr<log_entry>>>();
        for (ulong i = s; i < e; i++) r->push_back(v[i - start]);
        return r;
    }
    ptr<log_entry> entry_at(ulong i) override { if (i < start || i >= next_slot()) return ptr<log_entry>(); return v[vp_concretize(i) - start]; }
    ulong term_at(ulong i) override { if (i < start || i >= next_slot()) return 0; return v[vp_concretize(i) - start]->get_term(); }
    bufptr pack(ulong i, int32 cnt) override {
        vp_assert(i >= start && cnt >= 0 && i + cnt <= next_slot(), "pack is only asked for entries inside the log");
        bufptr b = buffer::alloc(1 + 10 * cnt); b->put((byte)cnt);
        for (int32 k = 0; k < cnt; k++) { log_entry& e = *v[i - start + k]; b->put(e.get_term()); b->put((byte)e.get_val_type()); b->put(tag_of(e)); }
        b->pos(0); return b;
    }
    void apply_pack(ulong i, buffer& p) override {
        vp_assert(i >= start && i <= next_slot(), "apply_pack starts inside the log");
        v.resize(i - start); byte n = p.get_byte();
        for (byte k = 0; k < n; k++) { ulong t = p.get_ulong(); byte ty = p.get_byte(), tag = p.get_byte(); v.push_back(cs_new<log_entry>(t, mkbuf(tag), (log_val_type)ty)); }
    }
    bool compact(ulong last) override {
        if (fail_compact) return false;
        vp_assert(last >= start, "compact is only asked for entries still in the log");
        last = vp_concretize(last);
        if (last + 1 >= next_slot()) v.clear(); else v.erase(v.begin(), v.begin() + (last + 1 - start));
        start = last + 1; return true;
    }
};

struct sent { int32 to; ptr<req_msg> req; rpc_handler h; bool done; };
struct timer { ptr<delayed_task> task; int32 ms; bool pending; bool election; int fired; };
struct applied { ulong idx; byte tag; };
enum { A_COMMIT = 1, A_PRE, A_ROLLBACK };
struct smop { int kind; ulong idx; byte tag; };

struct world {
    int32 id = 1;
    // durable
    ulong d_term = 0; int32 d_vote = -1; bool d_has = true; ptr<cluster_config> d_conf; ptr<mem_log> log; ulong sm_idx = 0; ptr<snapshot> snp;
    // observed
    std::vector<sent> out; std::vector<timer> tm; std::vector<smop> sm; int exits = 0, exit_code = 0, saves = 0, conf_saves = 0, ev_leader = 0, ev_follower = 0;
    bool leader = false; bool stop_on_exit = true; void (*at_exit)(world&) = nullptr; std::function<void()> at_save; bool monotone = false;
    raft_server* srv = nullptr; raft_params* params = nullptr;
    // snapshot traffic seen by the state machine
    std::vector<std::pair<ulong, ulong>> saved; ulong applied_snp = 0; int applied_cnt = 0; bool apply_ok = true; int32 short_read = -1; std::function<byte(ulong)> content; std::vector<std::pair<ulong, byte>> got;
    std::vector<std::pair<ulong, async_result<bool>::handler_type>> snaps;
};
static world* W;

class mock_log : public logger { public: void debug(const std::string&) override {} void info(const std::string&) override {} void warn(const std::string&) override {} void err(const std::string&) override {} };
class mock_mgr : public state_mgr {
public:
    ptr<cluster_config> load_config() override { return cpconf(*W->d_conf); }
    void save_config(const cluster_config& c) override { W->d_conf = cpconf(c); W->conf_saves++; }
    void save_state(const srv_state& s) override {
        if (W->monotone) {
            vp_assert(s.get_term() >= W->d_term, "the persisted term never decreases");
            vp_assert(s.get_term() != W->d_term || W->d_vote == -1 || s.get_voted_for() == W->d_vote, "a persisted vote never changes within its term");
        }
        W->d_term = s.get_term(); W->d_vote = s.get_voted_for(); W->d_has = true; W->saves++; if (W->at_save) W->at_save();
    }
    ptr<srv_state> read_state() override { if (!W->d_has) return ptr<srv_state>(); ptr<srv_state> s = cs_new<srv_state>(); s->set_term(W->d_term); s->set_voted_for(W->d_vote); return s; }
    ptr<log_store> load_log_store() override { return W->log; }
    int32 server_id() override { return W->id; }
    void system_exit(const int code) override { W->exits++; W->exit_code = code; if (W->at_exit) W->at_exit(*W); if (W->stop_on_exit) vp_kill(); }
};
class mock_sm : public state_machine {
public:
    void commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { W->sm.push_back({A_COMMIT, i, peek(d)}); W->sm_idx = i; }
    void pre_commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { W->sm.push_back({A_PRE, i, peek(d)}); }
    void rollback(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { W->sm.push_back({A_ROLLBACK, i, peek(d)}); }
    void save_snapshot_data(snapshot& s, const ulong off, buffer& d) override { W->saved.push_back({off, d.size()}); size_t n = d.size(); if (n > 64) n = 64; d.pos(0); for (size_t k = 0; k < n; k++) W->got.push_back({off + k, d.data()[k]}); }
    bool apply_snapshot(snapshot& s) override { W->applied_snp = s.get_last_log_idx(); W->applied_cnt++; if (!W->apply_ok) return false; W->snp = cs_new<snapshot>(s.get_last_log_idx(), s.get_last_log_term(), cpconf(*s.get_last_config()), s.size()); W->sm_idx = s.get_last_log_idx(); return true; }
    int read_snapshot_data(snapshot& s, const ulong off, buffer& d) override {
        vp_assert(off <= s.size() && d.size() <= s.size() - off, "snapshot data is only read inside the snapshot");
        if (W->short_read >= 0) return W->short_read;
        if (W->content) for (size_t k = 0; k < d.size(); k++) d.data()[k] = W->content(off + k);
        return (int)d.size();
    }
    ptr<snapshot> last_snapshot() override { return W->snp; }
    ulong last_commit_index() override { return W->sm_idx; }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override { W->snaps.push_back({s.get_last_log_idx(), done}); }
    static byte peek(buffer& d) { size_t p = d.pos(); d.pos(0); byte t = d.size() ? *d.data() : 0; d.pos(p); return t; }
};
class mock_rpc : public rpc_client { public: int32 to; mock_rpc(int32 t) : to(t) {}
    void send(ptr<req_msg>& r, rpc_handler& h) override;
};
class mock_fac : public rpc_client_factory { public: ptr<rpc_client> create_client(const std::string& e) override { return cs_new<mock_rpc>((int32)(e[1] - '0')); } };
class mock_sched : public delayed_task_scheduler { public:
    void schedule(ptr<delayed_task>& t, int32 ms) override {
        t->reset();
        for (auto& x : W->tm) if (x.task == t) { x.ms = ms; x.pending = true; return; }
        W->tm.push_back({t, ms, true, typeid(*t) == typeid(timer_task<void>), 0});
    }
private:
    void cancel_impl(ptr<delayed_task>& t) override { for (auto& x : W->tm) if (x.task == t) x.pending = false; }
};
class mock_ev : public raft_event_listener { public: void on_event(raft_event e) override {
    if (e == raft_event::become_leader) { W->leader = true; W->ev_leader++; } else if (e == raft_event::become_follower) { W->leader = false; W->ev_follower++; } } };
class mock_lis : public rpc_listener { public: void listen(ptr<msg_handler>&) override {} void stop() override {} };

static void (*on_send)(world&, sent&) = nullptr;       // property-specific monitor
inline void mock_rpc::send(ptr<req_msg>& r, rpc_handler& h) {
    vp_assert((bool)r, "a request is sent");
    W->out.push_back({to, r, h, false});
    if (on_send) on_send(*W, W->out.back());
}

static world* new_world(int32 id = 1) { W = new world(); W->id = id; W->log = cs_new<mem_log>(); W->params = new raft_params(); W->d_conf = mkconf(1, 0, 0); return W; }
static raft_server* boot() {
    raft_params* p = new raft_params(); memcpy((void*)p, (void*)W->params, sizeof *p);
    context* c = new context(cs_new<mock_mgr>(), cs_new<mock_sm>(), cs_new<mock_lis>(), cs_new<mock_log>(), cs_new<mock_fac>(), cs_new<mock_sched>(), cs_new<mock_ev>(), p);
    W->leader = false; W->srv = new raft_server(c); vp_run_others(); return W->srv;
}
// crash: everything volatile is lost, a new server starts from what was persisted
static raft_server* crash_and_restart() { W->tm.clear(); W->out.clear(); return boot(); }

static ptr<resp_msg> deliver(req_msg& r) { ptr<resp_msg> x = W->srv->process_req(r); vp_run_others(); return x; }
static void answer(size_t i, ptr<resp_msg> r) { W->out[i].done = true; rpc_handler h = W->out[i].h; h(r, ptr<rpc_exception>()); vp_run_others(); }
static void answer_err(size_t i) { W->out[i].done = true; rpc_handler h = W->out[i].h; ptr<resp_msg> n; h(n, cs_new<rpc_exception>(std::string("e"), W->out[i].req)); vp_run_others(); }
static int election_timer() { int k = -1; for (size_t i = 0; i < W->tm.size(); i++) if (W->tm[i].election && W->tm[i].pending) k = (int)i; return k; }
static void fire(int i) { ptr<delayed_task> t = W->tm[i].task; W->tm[i].pending = false; W->tm[i].fired++; t->execute(); vp_run_others(); }
static bool election_timeout() { int k = election_timer(); if (k < 0) return false; fire(k); return true; }
// index of the last unanswered request of a type to a peer, -1 if none
static int pending_to(int32 to, msg_type ty) { for (size_t i = W->out.size(); i-- > 0;) if (!W->out[i].done && W->out[i].to == to && W->out[i].req->get_type() == ty) return (int)i; return -1; }
static ptr<resp_msg> mkresp(ulong term, msg_type ty, int32 src, ulong next, bool acc) { return cs_new<resp_msg>(term, ty, src, W->id, next, acc); }
static void put(ulong term, byte tag) { ptr<log_entry> e = mkent(term, tag); W->log->append(e); }
static ulong last_term() { return W->log->v.empty() ? (W->snp ? W->snp->get_last_log_term() : 0) : W->log->v.back()->get_term(); }
static ulong last_idx() { return W->log->next_slot() - 1; }
