L = "src/fs_log_store.cxx"
STORE = r'''
#include "denv.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
static ptr<log_entry> se(ulong t, int n, byte c) { bufptr b = buffer::alloc(n); for (int i = 0; i < n; i++) b->put(c); b->pos(0); return cs_new<log_entry>(t, std::move(b)); }
static bool is(fs_log_store& s, ulong i, ulong t, int n, byte c) { ptr<log_entry> e = s.entry_at(i); return e && e->get_term() == t && (int)e->get_buf().size() == n && (n == 0 || e->get_buf().data()[0] == c); }
'''
seed("S03", "C03", [(S, """                    msg_type::vote_request,
                    id_,
                    it->second->get_id(),
                    term_for_log(log_store_->next_slot() - 1),""", """                    msg_type::vote_request,
                    id_,
                    it->second->get_id(),
                    log_store_->last_entry()->get_term(),""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 4; W->log->start = 6; W->snp = cs_new<snapshot>(5, 4, mkconf(3, 1, 0), 3); W->sm_idx = 5; boot(); election_timeout();
    int i = pending_to(2, msg_type::vote_request); need(i >= 0 && W->out[i].req->get_last_log_term() == 4 && W->out[i].req->get_last_log_idx() == 5, "the end of the log is described truthfully"); _exit(0);
}
''', "a candidate whose whole log is compacted into its snapshot", "the candidate claims an older last term than it has, so the only server holding all committed entries cannot be elected")



seed("S10", "C10", [(S, '''        p.set_snapshot_in_sync(snp);
    }

    ulong offset''', '''        if (sync_ctx == nilptr)
        {
            p.set_snapshot_in_sync(snp);
        }
    }

    ulong offset''')], r'''
#include "denv.hpp"
static ptr<snapshot_sync_req> chunk() { int i = pending_to(2, msg_type::install_snapshot_request); need(i >= 0, "a chunk is sent"); buffer& b = W->out[i].req->log_entries()[0]->get_buf(); b.pos(0); return snapshot_sync_req::deserialize(b); }
int main() {
    // a follower is half way through a snapshot when a newer one is taken
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 2; W->log->start = 4; W->snp = cs_new<snapshot>(3, 1, mkconf(3, 1, 0), 6); W->sm_idx = 3; W->params->snapshot_block_size_ = 2; W->params->snapshot_distance_ = 1; W->params->reserved_log_items_ = 0; boot(); election_timeout();
    answer(pending_to(3, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, 3, 4, true)); need(W->leader, "elected"); ulong t = W->d_term;
    answer(pending_to(2, msg_type::append_entries_request), mkresp(t, msg_type::append_entries_response, 2, 1, false)); need(chunk()->get_offset() == 0, "starts");
    answer(pending_to(2, msg_type::install_snapshot_request), mkresp(t, msg_type::install_snapshot_response, 2, 2, true)); need(chunk()->get_offset() == 2, "goes on");
    for (int c = 0; c < 2; c++) { std::vector<bufptr> l; l.push_back(mkbuf(0x41)); W->srv->append_entries(l)->get(); settle(); for (int r = 0; r < 3; r++) { int i = pending_to(3, msg_type::append_entries_request); if (i >= 0) answer(i, mkresp(t, msg_type::append_entries_response, 3, W->out[i].req->get_last_log_idx() + W->out[i].req->log_entries().size() + 1, true)); } }
    need(W->snaps.size() == 1, "a newer snapshot is taken"); ulong at = W->snaps[0].first; W->snp = cs_new<snapshot>(at, t, mkconf(3, 1, 0), 6); auto h = W->snaps[0].second; bool yes = true; h(yes, ptr<std::exception>());
    answer(pending_to(2, msg_type::install_snapshot_request), mkresp(t, msg_type::install_snapshot_response, 2, 4, true));
    ptr<snapshot_sync_req> q = chunk(); need(q->get_snapshot().get_last_log_idx() == 3 ? q->get_offset() == 4 : q->get_offset() == 0, "the newer snapshot is sent from its start"); _exit(0);
}
''', "a newer snapshot completed by the leader while a follower is in the middle of being sent the previous one", "the follower receives the first part of one snapshot and the rest of another and applies the mixture")

seed("S11", "C11", [(S, '''            rpc_success = resp && resp->get_accepted();''', '''            rpc_success = resp != nilptr;''')], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 3; put(1, 0x10); boot(); req_msg a(4, msg_type::append_entries_request, 2, 1, 1, 1, 0); need(deliver(a)->get_accepted(), "follower");
    std::vector<bufptr> l; l.push_back(mkbuf(0x41)); size_t o = W->out.size(); ptr<async_result<bool>> r = W->srv->append_entries(l); need(W->out.size() == o + 1 && W->out[o].to == 2, "forwarded");
    answer(o, cs_new<resp_msg>(5, msg_type::append_entries_response, 2, 1, 0, false)); need(r->get() == false, "a refusal of the leader is reported to the client"); _exit(0);
}
''', "a forwarded request that reaches a server which no longer leads", "clients are told their entry was accepted although it is nowhere")

seed("S12", "C12", [(H, '''    if (config_changing_)
    {
        // the previous config has not committed yet
        l_->info("previous config has not committed yet");
        return resp;
    }

    int32 srv_id''', '''    if (config_changing_ && srv_to_join_)
    {
        // the previous config has not committed yet
        l_->info("previous config has not committed yet");
        return resp;
    }

    int32 srv_id'''), (H, '''    if (config_changing_)
    {
        l_->info("previous config has not committed yet, will try again");
        timer_task<void>::executor exec = [this, srv_id,''', '''    if (config_changing_ && srv_to_join_)
    {
        l_->info("previous config has not committed yet, will try again");
        timer_task<void>::executor exec = [this, srv_id,''')], r'''
#include "denv.hpp"
static void rm(int32 id) { req_msg r(0, msg_type::remove_server_request, 0, 1, 0, 0, 0); bufptr b = buffer::alloc(sz_int); b->put(id); b->pos(0); r.log_entries().push_back(cs_new<log_entry>(0, std::move(b), log_val_type::cluster_server)); deliver(r); int i = pending_to(id, msg_type::leave_cluster_request); if (i >= 0) answer(i, mkresp(W->d_term, msg_type::leave_cluster_response, id, 1, true)); }
int main() {
    new_world(1); W->d_conf = mkconf(5, 1, 0); W->d_term = 1; ptr<log_entry> e = mkconfent(1, *W->d_conf); W->log->append(e); W->sm_idx = 1; boot(); election_timeout();
    for (int p = 2; p <= 3; p++) answer(pending_to(p, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, p, 2, true)); need(W->leader, "elected");
    rm(2); rm(3); int n = 0; for (auto& x : W->log->v) if (x->get_val_type() == log_val_type::conf) n++; need(n <= 2, "one membership change at a time"); _exit(0);
}
''', "two removals asked for before the first one is committed", "two membership changes are undecided at once, so disjoint majorities become possible")

seed("S18", "C18", [(L, '''entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ - buf_size_ + start_idx_ : start_idx_, buf_size_);''', '''entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ - buf_size_ + 1 : start_idx_, buf_size_);''')], STORE + r'''
int main() {
    { fs_log_store s(".", 2); for (int i = 1; i <= 8; i++) { ptr<log_entry> e = se(i, i, 97 + i); s.append(e); } need(s.compact(4), "compacted"); }
    try { fs_log_store s(".", 2); need(s.start_index() == 5 && s.next_slot() == 9, "reopened"); for (int i = 5; i <= 8; i++) need(is(s, i, i, i, 'a' + i) && s.term_at(i) == (ulong)i, "entries keep their content"); } catch (std::exception&) { need(false, "the store can be opened"); } _exit(0);
}
''', "opening a compacted store that holds more entries than its buffer", "entries are read at wrong indices after a restart")

seed("S19", "C19", [(L, '''    idx_bak_file.seekg(0);
    data_bak_file.seekg(0);
    start_idx_bak_file.seekg(0);
    data_file_.open(''', '''    data_bak_file.seekg(0);
    start_idx_bak_file.seekg(0);
    data_file_.open(''')], STORE + r'''
#include <dlfcn.h>
#include <sys/syscall.h>
static int fail_at = 0, cnt = 0;
extern "C" int truncate64(const char* p, off64_t n) { if (++cnt == fail_at) return -1; return (int)syscall(SYS_truncate, p, n); }
extern "C" int truncate(const char* p, off_t n) { return truncate64(p, n); }
int main() {
    for (int at = 1; at <= 2; at++) {
        std::string d = "d" + std::to_string(at); mkdir(d.c_str(), 0755); { fs_log_store s(d, 100); for (int i = 1; i <= 4; i++) { ptr<log_entry> e = se(i, i, 'a' + i); s.append(e); } cnt = 0; fail_at = at; bool ok = s.compact(2); fail_at = 0; need(!ok, "cannot compact"); }
        fs_log_store s(d, 1); need(s.start_index() == 1 && s.next_slot() == 5, "nothing is lost"); for (int i = 1; i <= 4; i++) need(is(s, i, i, i, 'a' + i), "nothing is changed");
    }
    _exit(0);
}
''', "a compaction whose last file operation (truncating the index) fails", "the restored index lacks the compacted entries while the start index includes them, entries are read at wrong indices")

seed("S20", "C20", [("include/async.hxx", '''        cv_.notify_all();''', '''        cv_.notify_one();''')], r'''
#include "denv.hpp"
int main() {
    for (int k = 0; k < 3; k++) { auto r = std::make_shared<async_result<int>>(); std::atomic<int> got(0); std::thread a([r, &got]() { if (r->get() == 5) got++; }), b([r, &got]() { if (r->get() == 5) got++; }); a.detach(); b.detach(); settle(); int v = 5; r->set_result(v, ptr<std::exception>()); settle(); settle(); need(got == 2, "every waiter gets the result"); }
    _exit(0);
}
''', "two threads waiting for the same result", "one of the waiters never returns")

seed("S26", "C26", [(L, '''        start_idx_file_ << *start_idx_buf;
        start_idx_file_.flush();
        end_compaction();
        entries_in_store_ -=''', '''        start_idx_file_ << *start_idx_buf;
        end_compaction();
        start_idx_file_.flush();
        entries_in_store_ -=''')], STORE + r'''
#include <sys/syscall.h>
#include <fcntl.h>
static int die_at = 0, cnt = 0;
static void op() { if (die_at && ++cnt == die_at) _exit(7); }
extern "C" int remove(const char* p) { int r = (int)syscall(SYS_unlink, p); op(); return r; }
extern "C" int truncate64(const char* p, off64_t n) { int r = (int)syscall(SYS_truncate, p, n); op(); return r; }
int main() {
    for (int at = 1; at <= 16; at++) {
        std::string d = "d" + std::to_string(at); mkdir(d.c_str(), 0755);
        pid_t c = fork(); if (!c) { fs_log_store s(d, 100); for (int i = 1; i <= 5; i++) { ptr<log_entry> e = se(i, i, 'a' + i); s.append(e); } cnt = 0; die_at = at; s.compact(3); die_at = 0; _exit(0); }
        int st; waitpid(c, &st, 0); fs_log_store s(d, 100); ulong b = s.start_index(); need((b == 1 || b == 4) && s.next_slot() == 6, "before or after"); for (ulong i = b; i <= 5; i++) need(is(s, i, i, (int)i, 'a' + (int)i), "entries keep their index and content");
    }
    _exit(0);
}
''', "a crash right at the end of a partial compaction", "after the crash the remaining entries are found at the indices of the compacted ones")
