S_, Q_ = "src/raft_server.cxx", "src/raft_server_req_handlers.cxx"
seed("S09", "C09", [(Q_, '''                restart_election_timer();
                l_->info("snapshot is successfully applied");
''', '''                l_->info("snapshot is successfully applied");
''')], r'''
#include "denv.hpp"
int main() {
    // the leader dies right after a follower installed its snapshot
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 2; W->params->snapshot_distance_ = 0; put(1, 0x10); W->sm_idx = 1; boot();
    ptr<snapshot> sp = cs_new<snapshot>(5, 2, mkconf(3, 1, 0), 1); bufptr d = mkbuf(7); snapshot_sync_req q(sp, 0, std::move(d), true);
    req_msg r(2, msg_type::install_snapshot_request, 2, 1, 2, 5, 5); r.log_entries().push_back(cs_new<log_entry>(2, q.serialize(), log_val_type::snp_sync_req)); need(deliver(r)->get_accepted(), "the snapshot is installed");
    need(election_timeout(), "the follower has an election timeout ahead"); need(W->d_term > 2 || pending_to(2, msg_type::prevote_request) >= 0 || pending_to(2, msg_type::vote_request) >= 0, "it stands for election"); _exit(0);
}
''', "a leader that dies after a follower installed a snapshot and before it sends anything else", "the follower has no election timeout any more and never stands for election")
seed("S24", "C24", [(S_, '''    srv_to_join_.reset();
    role_ = srv_role::follower;
    restart_election_timer();
    if (ctx_->event_listener_)
''', '''    srv_to_join_.reset();
    bool led = role_ == srv_role::leader;
    role_ = srv_role::follower;
    restart_election_timer();
    if (ctx_->event_listener_ && led)
''')], r'''
#include "denv.hpp"
int main() {
    // a candidate hears of the leader of its own term
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 2; W->params->prevote_enabled_ = false; put(1, 0x10); W->sm_idx = 1; boot();
    need(election_timeout() && W->d_term == 3, "it is a candidate of term 3"); int before = W->ev_follower; req_msg r(3, msg_type::append_entries_request, 2, 1, 1, 1, 1); need(deliver(r)->get_accepted(), "the leader is accepted"); need(W->ev_follower > before, "the listener is told that the server follows"); _exit(0);
}
''', "a candidate that gives up because another server leads", "the event listener is not told that the server follows again")
seed("S27", "C27", [(S_, '''void raft_server::handle_election_timeout()
{
    recur_lock(lock_);
    if (steps_to_down_ > 0)
    {
''', '''void raft_server::handle_election_timeout()
{
    if (steps_to_down_ > 0)
    {
        recur_lock(lock_);
''')], r'''
#include "denv.hpp"
int main() {
    // the election timeout expires while a request of a newer term is being handled
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 2; W->params->prevote_enabled_ = false; put(1, 0x10); W->sm_idx = 1; boot();
    int k = election_timer(); need(k >= 0, "a timeout is ahead"); ptr<delayed_task> t = W->tm[k].task; std::thread th; bool once = false;
    W->at_save = [&]() { if (once) return; once = true; th = std::thread([&]() { t->execute(); }); std::this_thread::sleep_for(std::chrono::milliseconds(300)); };
    req_msg r(5, msg_type::vote_request, 2, 1, 9, 9, 0); ptr<resp_msg> p = W->srv->process_req(r); th.join(); settle();
    need(p && p->get_accepted() && p->get_term() == 5, "the vote of the new term is free whichever comes first"); _exit(0);
}
''', "an election timeout that expires while a vote request of a newer term is being handled", "the server becomes a candidate in the middle of handling the request, refuses the vote it should grant and ends up a follower asking for votes")
seed("S28", "C28", [(S_, '''        voted_servers_.clear();
        ctx_->state_mgr_->save_state(*state_);
        become_follower();
''', '''        voted_servers_.clear();
        if (role_ != srv_role::follower)
        {
            ctx_->state_mgr_->save_state(*state_);
        }

        become_follower();
''')], r'''
#include "denv.hpp"
int main() {
    // a follower takes an entry of a new leader and crashes
    new_world(1); W->d_conf = mkconf(3, 1, 0); W->d_term = 2; put(1, 0x10); W->sm_idx = 1; boot();
    req_msg r(5, msg_type::append_entries_request, 2, 1, 1, 1, 1); r.log_entries().push_back(mkent(5, 0x20)); ptr<resp_msg> p = deliver(r); need(p->get_accepted() && p->get_term() == 5, "the entry is confirmed in term 5");
    crash_and_restart(); req_msg o(4, msg_type::append_entries_request, 3, 1, 1, 1, 1); o.log_entries().push_back(mkent(4, 0x30)); p = deliver(o); need(!p->get_accepted(), "the leader of an older term is refused"); need(W->log->next_slot() == 3 && tag_of(*W->log->entry_at(2)) == 0x20, "what was confirmed is kept"); _exit(0);
}
''', "a follower that confirms an entry of a new leader, crashes and then hears of the leader of an older term", "the restarted server follows the older leader and replaces the entry it had confirmed to the newer one")
