H = "src/raft_server_req_handlers.cxx"; R = "src/raft_server_resp_handlers.cxx"; S = "src/raft_server.cxx"
seed("S01", "C01", [(H, """        state_->set_voted_for(req.get_src());
        ctx_->state_mgr_->save_state(*state_);
    }

    return resp;
}

ptr<resp_msg> raft_server::handle_prevote_req""", """        ctx_->state_mgr_->save_state(*state_);
        state_->set_voted_for(req.get_src());
    }

    return resp;
}

ptr<resp_msg> raft_server::handle_prevote_req""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 1; put(1, 0x10); boot();
    req_msg a(5, msg_type::vote_request, 2, 1, 1, 1, 0); need(deliver(a)->get_accepted(), "first candidate gets the vote");
    crash_and_restart();
    req_msg b(5, msg_type::vote_request, 3, 1, 1, 1, 0); need(!deliver(b)->get_accepted(), "no second vote in the same term after a restart");
    _exit(0);
}
''', "a crash after a vote was granted, then a vote request of another candidate in the same term", "the vote is persisted before it is recorded, so a restart forgets it and a second candidate gets a vote in the same term")

seed("S02", "C02", [(R, """        if (votes_granted_ > (int32)((peers_.size() + 1) / 2))
        {
            l_->info(sstrfmt("Server is elected""", """        if (votes_granted_ > (int32)(peers_.size() / 2))
        {
            l_->info(sstrfmt("Server is elected""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(4, 1, 0); W->d_term = 1; put(1, 0x10); boot(); election_timeout();
    answer(pending_to(2, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, 2, 2, true));
    need(!W->leader, "two votes of four are no majority"); _exit(0);
}
''', "a cluster with an even number of servers", "half of the votes of an even cluster make a leader, two leaders of one term are possible")

seed("S04", "C04", [(H, """    resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
    return resp;""", """    resp->accept(log_store_->next_slot());
    return resp;""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 3; put(1, 0x10); put(2, 0x11); put(2, 0x12); boot();
    req_msg a(4, msg_type::append_entries_request, 2, 1, 1, 1, 0); ptr<resp_msg> p = deliver(a);
    need(p->get_accepted() && p->get_next_idx() == 2, "only what was in the request is confirmed"); _exit(0);
}
''', "a follower with a diverged tail that accepts a heartbeat matching an earlier entry", "the follower confirms entries the leader does not have; the leader commits entries without a majority")

seed("S05", "C05", [(R, """std::sort(matched_indexes.begin(), matched_indexes.end(), std::greater<ulong>());""", """std::sort(matched_indexes.begin(), matched_indexes.end());""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(4, 1, 0); W->d_term = 1; put(1, 0x10); W->sm_idx = 1; boot(); election_timeout();
    for (int p = 2; p <= 3; p++) answer(pending_to(p, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, p, 2, true));
    need(W->leader, "elected"); std::vector<bufptr> l; l.push_back(mkbuf(0x41)); need(W->srv->append_entries(l)->get(), "accepted"); settle();
    answer(pending_to(2, msg_type::append_entries_request), mkresp(W->d_term, msg_type::append_entries_response, 2, 2, true));
    answer(pending_to(2, msg_type::append_entries_request), mkresp(W->d_term, msg_type::append_entries_response, 2, 3, true));
    for (auto& o : W->sm) need(o.kind != A_COMMIT, "two of four servers are no majority"); _exit(0);
}
''', "a cluster with an even number of servers", "a leader commits entries that only half of the cluster stores")

seed("S06", "C06", [(S, """      quick_commit_idx_(ctx->state_machine_->last_commit_index()),
""", """      quick_commit_idx_(ctx->state_mgr_->load_log_store()->next_slot() - 1),
""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 3; put(1, 0x10); put(2, 0x11); put(2, 0x12); W->sm_idx = 1; boot();
    req_msg a(4, msg_type::append_entries_request, 2, 1, 1, 1, 1); deliver(a); settle();
    for (auto& o : W->sm) need(o.kind != A_COMMIT, "entries that were not committed are not applied after a restart"); _exit(0);
}
''', "a restart with entries in the log that are not committed yet", "a restarted server applies uncommitted entries")

seed("S07", "C07", [(H, """req.get_type() == msg_type::vote_request ||
            req.get_type() == msg_type::install_snapshot_request)""", """req.get_type() == msg_type::vote_request)""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 3; put(1, 0x10); boot();
    req_msg r(7, msg_type::install_snapshot_request, 2, 1, 5, 9, 0);
    snapshot_sync_req sr(cs_new<snapshot>(9, 5, mkconf(3, 1, 0), 3), 0, buffer::alloc(2), false); r.log_entries().push_back(cs_new<log_entry>(7, sr.serialize(), log_val_type::snp_sync_req));
    ptr<resp_msg> p = deliver(r); need(W->d_term == 7 && p->get_term() == 7, "the newer term of a snapshot request is adopted"); _exit(0);
}
''', "a snapshot chunk from a leader of a newer term reaching a server still in an older one", "a server serves a leader of a newer term without adopting (and persisting) that term")

seed("S08", "C08", [(R, """        bool vote_added = prevote_state_->add_voted_server(resp.get_src());
        if (!vote_added)""", """        bool vote_added = prevote_state_->add_voted_server(resp.get_src());
        if (!vote_added && !resp.get_accepted())""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(5, 1, 0); W->d_term = 3; put(1, 0x10); W->params->prevote_enabled_ = true; boot(); election_timeout();
    int i = pending_to(2, msg_type::prevote_request); need(i >= 0, "asked");
    answer(i, mkresp(3, msg_type::prevote_response, 2, 2, true)); answer(i, mkresp(3, msg_type::prevote_response, 2, 2, true));
    need(W->d_term == 3, "one server's prevote counts once"); _exit(0);
}
''', "the same peer's positive prevote response arriving twice", "a server becomes candidate and raises the term without a majority of prevotes")

seed("S13", "C13", [(H, """    bool leader = is_leader();

    // check""", """    bool leader = role_ == srv_role::leader;

    // check""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 1; W->params->election_timeout_upper_bound_ = 100; W->params->election_timeout_lower_bound_ = 50; put(1, 0x10); boot(); election_timeout();
    answer(pending_to(2, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, 2, 2, true)); need(W->leader, "elected");
    std::this_thread::sleep_for(std::chrono::milliseconds(400)); need(!W->srv->is_leader(), "lease expired");
    std::vector<bufptr> l; l.push_back(mkbuf(0x41)); need(!W->srv->append_entries(l)->get(), "an expired leader refuses client entries"); _exit(0);
}
''', "a leader cut off from the majority for longer than twice the election timeout", "an expired leader accepts client entries")

seed("S14", "C14", [("src/peer.cxx", """    if (req->get_type() == msg_type::append_entries_request || req->get_type() == msg_type::install_snapshot_request)
    {
        set_free(req->get_term());
    }

    if (err == nilptr)
    {
        resume_hb_speed();""", """    if (err == nilptr)
    {
        if (req->get_type() == msg_type::append_entries_request || req->get_type() == msg_type::install_snapshot_request)
        {
            set_free(req->get_term());
        }

        resume_hb_speed();""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(2, 1, 0); W->d_term = 1; put(1, 0x10); W->sm_idx = 1; boot(); election_timeout();
    answer(pending_to(2, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, 2, 2, true)); need(W->leader, "elected");
    answer_err(pending_to(2, msg_type::append_entries_request)); size_t n = W->out.size();
    for (size_t i = 0; i < W->tm.size(); i++) if (!W->tm[i].election && W->tm[i].pending) { fire((int)i); break; }
    need(W->out.size() == n + 1, "after a failed request the next heartbeat is sent"); _exit(0);
}
''', "one failed request to a follower", "a follower whose request failed once is never contacted again")

seed("S16", "C16", [("src/buffer.cxx", """    if (size >= 0x8000)
    {""", """    if (size > 0x8000)
    {""")], r'''
#include "denv.hpp"
int main() {
    bufptr b = buffer::alloc(0x8000); b->pos(0x8000); need(b->pos() == 0x8000 && b->size() == 0x8000, "a full buffer keeps its size and position"); _exit(0);
}
''', "a buffer of exactly 32768 bytes", "the size and position of a 32 KiB buffer are misread, reads and writes go wrong")

seed("S17", "C17", [("src/cluster_config.cxx", """    result->put((int32)servers_.size());
""", """    result->put((int32)srv_buffs.size() & 0x7f);
""")], r'''
#include "denv.hpp"
int main() {
    cluster_config c(7, 3); for (int i = 1; i <= 130; i++) c.get_servers().push_back(cs_new<srv_config>(i, std::string("a")));
    bufptr b = c.serialize(); ptr<cluster_config> d = cluster_config::deserialize(*b); need(d->get_servers().size() == 130, "all servers survive"); _exit(0);
}
''', "a configuration with more than 127 servers", "a configuration with many servers loses members when stored or sent")

seed("S25", "C25", [(R, """        if (resp.get_next_idx() > 0 && p->get_next_log_idx() > resp.get_next_idx())""", """        if (resp.get_next_idx() > 0 && p->get_next_log_idx() >= resp.get_next_idx())""")], r'''
#include "denv.hpp"
int main() {
    new_world(1); W->d_conf = mkconf(2, 1, 0); W->d_term = 5; put(1, 0x10); put(5, 0x11); W->sm_idx = 1; boot(); election_timeout();
    answer(pending_to(2, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, 2, 3, true)); need(W->leader, "elected");
    // the follower's log has two entries too, but another one at index 2: it refuses and names index 3 every time
    for (int k = 0; k < 4; k++) { int i = pending_to(2, msg_type::append_entries_request); need(i >= 0, "keeps trying"); if (W->out[i].req->get_last_log_idx() <= 1) _exit(0); answer(i, mkresp(W->d_term, msg_type::append_entries_response, 2, 3, false)); }
    need(false, "the leader moves back to where the logs agree");
}
''', "a follower whose log has the same length as the leader's but a different last entry", "the leader offers the same position for ever, the follower never catches up")
