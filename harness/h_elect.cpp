// Elections: C01 (one durable vote per term), C02 (majority), C03 (up-to-date candidates), C07 (terms), C08 (prevote), C13 (lease).
#include "raft_env.hpp"

// ---- ghost record of every vote this server ever cast
struct cast_vote { ulong term; int32 cand; };
static std::vector<cast_vote>* votes;
static void record_vote(ulong term, int32 cand) {
    for (auto& v : *votes) vp_assert(v.term != term || v.cand == cand, "at most one candidate gets this server's vote in a term");
    votes->push_back({term, cand});
}
static void vote_send_monitor(world& w, sent& s) {
    if (s.req->get_type() != msg_type::vote_request) return;
    vp_assert(w.d_term == s.req->get_term() && w.d_vote == w.id, "the candidate's vote for itself is persisted before it asks others");
    record_vote(s.req->get_term(), w.id);
}
static void setup(int n, int nlog, ulong snap, bool prevote) {
    new_world(1); W->d_conf = mkconf(n, 1, 0); W->params->prevote_enabled_ = prevote; W->params->defensive_prevote_ = prevote && VP_THOROUGH && vp_choose("defensive", 2);
    ulong T = vp_u64("term"); vp_assume(T >= 1 && T < TMAX); W->d_term = T;
    with_snapshot(n, snap, T); fill_log(nlog, T, snap ? W->snp->get_last_log_term() : 1);
}
static ptr<resp_msg> vote_req(int32 src, ulong term, ulong lt, ulong li) {
    req_msg r(term, msg_type::vote_request, src, W->id, lt, li, vp_u64("req_ci")); ptr<resp_msg> p = deliver(r);
    vp_assert((bool)p && p->get_type() == msg_type::vote_response && p->get_src() == W->id && p->get_dst() == src, "a vote request is answered to its sender");
    return p;
}
static ptr<resp_msg> heartbeat(int32 src, ulong term, ulong pi = 0, ulong pt = 0, ulong commit = 0) { req_msg r(term, msg_type::append_entries_request, src, W->id, pt, pi, commit); return deliver(r); }

HARNESS(vote_history) {
    setup(3, VP_THOROUGH ? vp_choose("nlog", 2) : 1, 0, vp_choose("prevote", 2)); W->monotone = true; W->exit_ok = true;      // messages of a second leader of the same term are among the events
    votes = new std::vector<cast_vote>(); W->d_has = vp_choose("has_state", 2);
    if (!W->d_has) { W->d_term = 0; W->log->v.clear(); }
    else { static const int32 vs[] = {-1, 1, 2, 3}; W->d_vote = vs[vp_choose("voted", 4)]; if (W->d_vote != -1) record_vote(W->d_term, W->d_vote); }
    on_send = vote_send_monitor; boot();
    const int K = VP_THOROUGH ? 4 : 3;
    for (int k = 0; k < K; k++) {
        switch (vp_choose("step", 7)) {
        case 0: {
            int32 src = 2 + vp_choose("src", 2); ulong t = vp_u64("req_term"); vp_assume(t < TMAX);
            ptr<resp_msg> p = vote_req(src, t, vp_u64("req_lt"), vp_u64("req_li"));
            if (p->get_accepted()) {
                vp_assert(p->get_term() == t, "a vote is granted for the candidate's term");
                vp_assert(W->d_term == t && W->d_vote == src, "a granted vote is persisted before it is answered");
                record_vote(t, src); vp_reach("granted");
            } else vp_reach("refused");
            break; }
        case 1: if (!election_timeout()) vp_kill(); break;
        case 2: crash_and_restart(); vp_reach("restart"); break;
        case 3: { ulong t = vp_u64("hb_term"); vp_assume(t < TMAX); heartbeat(3, t); break; }
        case 4: { ulong t = vp_u64("pv_term"); vp_assume(t < TMAX); req_msg r(t, msg_type::prevote_request, 2, 1, vp_u64("pv_lt"), vp_u64("pv_li"), vp_u64("pv_ci")); deliver(r); break; }
        case 5: { int i = pending_to(2, msg_type::vote_request); if (i < 0) vp_kill(); ulong t = vp_u64("resp_term"); vp_assume(t < TMAX && t >= W->out[i].req->get_term()); bool acc = t == W->out[i].req->get_term() && vp_choose("acc", 2); answer(i, mkresp(t, msg_type::vote_response, 2, 1, acc)); break; }
        case 6: { int i = pending_to(2, msg_type::prevote_request); if (i < 0) vp_kill(); ulong t = vp_u64("presp_term"); vp_assume(t < TMAX); answer(i, mkresp(t, msg_type::prevote_response, 2, 1, vp_choose("acc", 2))); break; }
        }
    }
    vp_out("term", W->d_term); vp_out("vote", (uint32_t)W->d_vote); vp_out("leader", W->leader);
}

// the end of an election of this server, then others' elections
HARNESS(vote_after_election) {
    setup(3, 1, 0, false); W->monotone = true; W->exit_ok = true; votes = new std::vector<cast_vote>(); on_send = vote_send_monitor; vp_clock_ns = 1000000000000ull; boot(); election_timeout(); ulong T = W->d_term;
    for (int32 p = 2; p <= 3; p++) { int a = vp_choose("answer", 4); if (a == 0) continue; int i = pending_to(p, msg_type::vote_request); if (i < 0) vp_kill(); ulong t = T; if (a == 3) { t = vp_u64("resp_term"); vp_assume(t > T && t < TMAX); } answer(i, mkresp(t, msg_type::vote_response, p, 1, a == 1)); if (a == 2) vp_reach("lost"); }
    for (int k = 0; k < 2; k++) switch (vp_choose("step", 4)) {
        case 0: { int32 src = 2 + vp_choose("src", 2); ulong t = vp_u64("req_term"); vp_assume(t < TMAX); ptr<resp_msg> p = vote_req(src, t, vp_u64("req_lt"), vp_u64("req_li")); if (p->get_accepted()) { vp_assert(p->get_term() == t, "a vote is granted for the candidate's term"); vp_assert(W->d_term == t && W->d_vote == src, "a granted vote is persisted before it is answered"); record_vote(t, src); vp_reach("granted"); } break; }
        case 1: crash_and_restart(); vp_reach("restart"); break;
        case 2: { ulong t = vp_u64("hb_term"); vp_assume(t < TMAX); heartbeat(3, t); break; }
        case 3: if (!election_timeout()) vp_kill(); break; }
    vp_out("term", W->d_term); vp_out("vote", (uint32_t)W->d_vote);
}

// ---- C02
static std::vector<int32>* granters; static ulong gterm;
static bool granted(int32 p) { for (int32 x : *granters) if (x == p) return true; return false; }
static void check_leader(int n, bool stale) {
    bool maj = (int)granters->size() * 2 > n;
    vp_assert(!W->leader || maj, "a server leads only with votes of a majority of the cluster in its current term");
    vp_assert(W->leader || stale || !maj, "a candidate with votes of a majority leads");
    vp_assert(W->leader == W->srv->is_leader(), "is_leader agrees with the announced role");
}
HARNESS(elect_majority) {
    int n = 1 + vp_choose("servers", 5); setup(n, 1, 0, false); granters = new std::vector<int32>(); gterm = 0; vp_clock_ns = 1000000000000ull; ulong lostterm = 0; bool stale = false;
    boot(); vp_assert(!W->leader, "a server starts as follower");
    int K = n == 1 ? 1 : n <= 3 ? 5 : (VP_THOROUGH ? 6 : 5);
    for (int k = 0; k < K && !W->leader; k++) {
        int a = k == 0 ? 0 : vp_choose("event", n + 1);
        if (a == 0) {
            ulong before = W->d_term; if (!election_timeout()) vp_fail("a candidate can time out again");
            vp_assert(W->d_term == before + 1, "every election starts a new term"); gterm = W->d_term; granters->clear(); granters->push_back(1); stale = false;
        } else if (a == 1) {       // learns of another leader: the election is over (with the leader's term equal to ours no later vote can make a majority, C01)
            ulong t = vp_u64("hb_term"); vp_assume(t >= W->d_term && t < TMAX); if (t == W->d_term) lostterm = t; heartbeat(2 <= n ? 2 : 1, t); if (n == 1) vp_kill(); granters->clear(); gterm = 0;
            vp_assert(!W->leader, "a server that hears from a leader does not lead"); vp_reach("stepped back");
            // late votes of the abandoned election must not count
        } else {
            int32 p = a; int i = -1;      // answer the oldest or the newest unanswered vote request to peer p
            int np = 0; for (auto& s : W->out) if (!s.done && s.to == p && s.req->get_type() == msg_type::vote_request) np++;
            bool oldest = np > 1 && vp_choose("oldest", 2);
            for (size_t j = 0; j < W->out.size(); j++) if (!W->out[j].done && W->out[j].to == p && W->out[j].req->get_type() == msg_type::vote_request) { i = (int)j; if (oldest) break; }
            if (i < 0) vp_kill();
            ulong rt = W->out[i].req->get_term(); bool acc = vp_choose("acc", 2);
            ulong t = rt; if (!acc) { t = vp_u64("resp_term"); vp_assume(t >= rt && t < TMAX); }
            if (acc) vp_assume(t != lostterm);
            if (acc && t == gterm && !granted(p)) granters->push_back(p);
            if (!acc && t == gterm && rt < gterm) stale = true;      // a late refusal of an earlier request may be taken for a refusal of this one
            ulong cur = W->d_term;
            answer(i, mkresp(t, msg_type::vote_response, p, 1, acc));
            if (t > cur) { granters->clear(); gterm = 0; vp_assert(!W->leader && W->d_term == t, "a newer term in a vote response ends the election"); }
        }
        if (gterm == 0) vp_assert(!W->leader, "no leadership without an election"); else check_leader(n, stale);
    }
    if (W->leader) vp_reach("leader");
    vp_out("leader", W->leader); vp_out("granters", granters->size());
}
// the same peer answering twice (two requests of one election never exist, so replay the handler) counts once
HARNESS(elect_duplicates) {
    int n = 3 + 2 * vp_choose("servers", 2); setup(n, 1, 0, false); vp_clock_ns = 1000000000000ull; boot(); election_timeout();
    int32 p = 2 + vp_choose("peer", n - 1); int i = pending_to(p, msg_type::vote_request); vp_assert(i >= 0, "every other server is asked for its vote");
    for (int32 q = 2; q <= n; q++) vp_assert(pending_to(q, msg_type::vote_request) >= 0, "every other server is asked for its vote");
    ulong T = W->d_term; int reps = (n + 1) / 2;
    for (int k = 0; k < reps; k++) answer(i, mkresp(T, msg_type::vote_response, p, 1, true));
    vp_assert(!W->leader || n == 3, "one server's vote counts once");
    if (n == 3) vp_assert(W->leader, "a majority of three is two");
    // votes from strangers never count
    if (n == 5) { int j = pending_to(2 == p ? 3 : 2, msg_type::vote_request); for (int k = 0; k < 3; k++) answer(j, mkresp(T, msg_type::vote_response, 8, 1, true)); vp_assert(!W->leader, "votes of servers outside the configuration do not count"); vp_reach("stranger"); }
    vp_reach("dup"); vp_out("leader", W->leader);
}

// ---- C03
HARNESS(vote_up_to_date) {
    int snap = vp_choose("snap", 3); setup(3, vp_choose("nlog", 4), snap == 0 ? 0 : snap == 1 ? 1 : 5, vp_choose("prevote", 2)); W->params->defensive_prevote_ = false;
    boot();
    ulong myT = last_term(), myI = last_idx();
    ulong lt = vp_u64("req_lt"), li = vp_u64("req_li"), t = vp_u64("req_term"); vp_assume(t < TMAX && lt < TMAX && li < TMAX);
    bool uptodate = lt > myT || (lt == myT && li >= myI);
    if (vp_choose("kind", 2) == 0) {
        ulong old = W->d_term; ptr<resp_msg> p = vote_req(2, t, lt, li);
        vp_assert(!p->get_accepted() || uptodate, "no vote for a candidate whose log is behind");
        vp_assert(!p->get_accepted() || t >= old, "no vote for an older term");
        vp_assert(p->get_accepted() || !(uptodate && t > old), "an up-to-date candidate of a newer term gets the vote");
        vp_assert(p->get_accepted() || !(uptodate && t == old), "an up-to-date candidate of this term gets an unused vote");
        vp_reach(p->get_accepted() ? "granted" : "refused"); vp_out("acc", p->get_accepted());
    } else {
        req_msg r(t, msg_type::prevote_request, 2, 1, lt, li, vp_u64("pv_ci")); ulong old = W->d_term; ptr<resp_msg> p = deliver(r);
        vp_assert((bool)p && p->get_type() == msg_type::prevote_response, "a prevote request is answered");
        vp_assert(!p->get_accepted() || (uptodate && t >= old), "no prevote for a candidate whose log or term is behind");
        vp_assert(p->get_accepted() || !(uptodate && t >= old), "an eligible candidate gets the prevote");
        vp_reach(p->get_accepted() ? "pre-granted" : "pre-refused"); vp_out("acc", p->get_accepted());
    }
}
// vote, prevote and append requests describe the sender's own log truthfully
HARNESS(vote_request_contents) {
    int snap = vp_choose("snap", 2); bool pv = vp_choose("prevote", 2); setup(3, vp_choose("nlog", 4), snap ? 4 : 0, pv); boot();
    ulong T = W->d_term; election_timeout();
    int cnt = 0;
    for (auto& s : W->out) {
        cnt++; vp_assert(s.req->get_type() == (pv ? msg_type::prevote_request : msg_type::vote_request), "an election timeout asks for (pre)votes");
        vp_assert(s.req->get_term() == (pv ? T : T + 1), "the request carries the candidate's term");
        vp_assert(s.req->get_src() == 1 && s.req->get_dst() == s.to, "the request names sender and receiver");
        vp_assert(s.req->get_last_log_idx() == last_idx() && s.req->get_last_log_term() == last_term(), "the request carries the index and term of the candidate's last entry");
    }
    vp_assert(cnt == 2, "every other server is asked once"); vp_reach("asked");
}

// ---- C07
static void reach_role(int role, int n) {
    vp_clock_ns = 1000000000000ull; boot();
    if (role >= 1) { election_timeout(); }
    if (role == 2) { for (int32 p = 2; p <= n / 2 + 1; p++) answer(pending_to(p, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, p, 1, true)); vp_assert(W->leader, "elected"); }
}
HARNESS(term_requests) {
    setup(3, 1 + vp_choose("nlog", 2), 0, false); int role = vp_choose("role", 3); reach_role(role, 3); W->monotone = true;
    if (role == 0 && vp_choose("knew", 2)) {      // the sender led an earlier term
        { req_msg q(W->d_term, msg_type::append_entries_request, 3, 1, last_term(), last_idx(), 0); vp_assert(deliver(q)->get_accepted(), "the leader of the term is followed"); }
        { req_msg q(W->d_term + 1, msg_type::vote_request, 2, 1, last_term(), last_idx(), 0); deliver(q); } vp_reach("knew");
    }
    ulong old = W->d_term; int32 oldv = W->d_vote; size_t oldn = W->log->v.size(); int oldw = W->log->writes; size_t oldsm = W->sm.size(); int olds = W->saves;
    ulong t = vp_u64("req_term"); vp_assume(t < TMAX);
    static const msg_type ty[] = {msg_type::append_entries_request, msg_type::vote_request, msg_type::install_snapshot_request, msg_type::prevote_request};
    int k = vp_choose("type", 4);
    ulong li = vp_u64("li"), lt = vp_u64("lt"), ci = vp_u64("ci"); vp_assume(li < TMAX && lt < TMAX && ci < TMAX);
    if (k == 0) { vp_assume(lt <= t); if (role == 2) vp_assume(t != old); }      // two leaders of one term cannot exist (C01, C02)
    if (k == 2 && role == 2) vp_assume(t != old);
    req_msg r(t, ty[k], 3, 1, lt, li, ci);
    if (k == 0) { ptr<log_entry> e = mkent(t, 0x80); r.log_entries().push_back(e); }
    if (k == 2) { snapshot_sync_req sr(cs_new<snapshot>(li, lt, mkconf(3, 1, 0), 3), 0, buffer::alloc(3), false); r.log_entries().push_back(cs_new<log_entry>(t, sr.serialize(), log_val_type::snp_sync_req)); }
    ptr<resp_msg> p = deliver(r);
    vp_assert((bool)p, "answered"); vp_assert(p->get_term() == W->d_term, "every response carries the current, persisted term");
    if (k == 3) { vp_assert(W->d_term == old && W->d_vote == oldv && W->saves == olds, "a prevote request changes neither term nor vote"); vp_reach("prevote"); }
    else {
        vp_assert(W->d_term == (t > old ? t : old), "the term becomes the maximum of the two terms");
        if (t > old) { vp_assert(!W->leader, "a leader steps down for a newer term"); vp_assert(election_timer() >= 0, "a server that steps down waits for an election timeout"); vp_assert(W->d_vote == -1 || (k == 1 && W->d_vote == 3), "a new term starts without a vote"); vp_reach("higher"); }
        if (t < old) {
            vp_assert(!p->get_accepted(), "a request of an older term is refused");
            vp_assert(W->d_vote == oldv && W->log->v.size() == oldn && W->log->writes == oldw && W->sm.size() == oldsm && W->saved.empty(), "a request of an older term changes nothing");
            vp_assert(W->leader == (role == 2), "a request of an older term does not change the role"); vp_reach("lower");
        }
    }
    vp_out("term", W->d_term); vp_out("acc", p->get_accepted());
}
HARNESS(term_responses) {
    setup(3, 1 + vp_choose("nlog", 2), 0, vp_choose("prevote", 2)); if (W->params->prevote_enabled_) W->params->defensive_prevote_ = true; int role = W->params->prevote_enabled_ ? 1 : 1 + vp_choose("role", 2); reach_role(role, 3); W->monotone = true;
    ulong old = W->d_term; int32 oldv = W->d_vote; int32 p = 2 + vp_choose("peer", 2);
    msg_type q = W->params->prevote_enabled_ ? msg_type::prevote_request : role == 2 ? msg_type::append_entries_request : msg_type::vote_request;
    int i = pending_to(p, q); if (i < 0) vp_kill();
    ulong t = vp_u64("resp_term"); vp_assume(t < TMAX); ulong nx = vp_u64("next"); vp_assume(nx >= 1 && nx <= W->log->next_slot()); bool acc = vp_choose("acc", 2); if (acc) vp_assume(t <= old);
    size_t nsm = W->sm.size();
    answer(i, mkresp(t, (msg_type)(q + 1), p, nx, acc));
    if (W->params->prevote_enabled_) {
        if (!acc) vp_assert(W->d_term == old && W->d_vote == oldv, "a prevote response alone changes neither term nor vote");
        vp_reach("prevote");
    } else {
        vp_assert(W->d_term == (t > old ? t : old), "a response with a newer term is adopted, an older one is not");
        if (t > old) { vp_assert(!W->leader, "a leader or candidate steps down for a newer term"); vp_assert(W->d_vote == -1, "a new term starts without a vote"); vp_assert(election_timer() >= 0, "a server that steps down waits for an election timeout"); vp_reach("higher"); }
        if (t < old) { vp_assert(W->leader == (role == 2) && W->sm.size() == nsm, "a response of an older term changes nothing"); vp_reach("lower"); }
    }
    vp_out("term", W->d_term);
}

// ---- C08
HARNESS(prevote_majority) {
    int n = 2 + vp_choose("servers", 4); setup(n, 1, 0, true); vp_clock_ns = 1000000000000ull; boot(); W->monotone = true;
    ulong T = W->d_term; int32 V = W->d_vote; int saves = W->saves;
    election_timeout(); granters = new std::vector<int32>(); granters->push_back(1); bool cand = false;
    const int K = n <= 3 ? 4 : (VP_THOROUGH ? 5 : 4);
    for (int k = 0; k < K && !cand; k++) {
        int a = vp_choose("event", n + 1);
        if (a == 0) { ulong t = vp_u64("pt"); vp_assume(t < TMAX); req_msg r(t, msg_type::prevote_request, 2, 1, vp_u64("lt"), vp_u64("li"), vp_u64("pv_ci")); deliver(r); }
        else if (a == 1) { if (!election_timeout()) vp_kill(); granters->clear(); granters->push_back(1); vp_reach("again"); }
        else {
            int np = 0; for (auto& s : W->out) if (!s.done && s.to == a && s.req->get_type() == msg_type::prevote_request) np++;
            int i = -1; bool oldest = np > 1 && vp_choose("oldest", 2); for (size_t j = 0; j < W->out.size(); j++) if (!W->out[j].done && W->out[j].to == a && W->out[j].req->get_type() == msg_type::prevote_request) { i = (int)j; if (oldest) break; }
            if (i < 0) vp_kill(); ulong t = vp_u64("rt"); vp_assume(t < TMAX); int how = vp_choose("outcome", 3); bool acc = how == 1;
            if (how == 2) { answer_err(i); }
            else { if (acc && !granted(a)) granters->push_back(a); answer(i, mkresp(t, msg_type::prevote_response, a, 1, acc)); }
        }
        for (auto& s : W->out) if (s.req->get_type() == msg_type::vote_request) cand = true;
        if (cand) { vp_assert((int)granters->size() * 2 > n, "a server becomes candidate only after prevotes of a majority"); vp_reach("candidate"); }
        else vp_assert(W->d_term == T && W->d_vote == V && W->saves == saves, "prevoting changes neither term nor vote");
        vp_assert(!W->leader, "prevotes alone never make a leader");
    }
    vp_out("cand", cand);
}

// repeated or foreign prevotes do not make a majority; a server that hears from its leader refuses prevotes in defensive mode
HARNESS(prevote_duplicates) {
    int n = 3 + vp_choose("servers", 3); setup(n, 1, 0, true); vp_clock_ns = 1000000000000ull; boot(); election_timeout(); ulong T = W->d_term;
    int32 p = 2 + vp_choose("peer", n - 1); for (int32 q = 2; q <= n; q++) vp_assert(pending_to(q, msg_type::prevote_request) >= 0, "every other server is asked for its prevote");
    int i = pending_to(p, msg_type::prevote_request); bool acc = n != 3; int reps = 1 + vp_choose("reps", 3);
    for (int k = 0; k < reps; k++) answer(i, mkresp(T, msg_type::prevote_response, p, 1, acc));
    vp_assert(W->d_term == T, "one server's prevote counts once");
    vp_reach("dup"); vp_out("term", W->d_term - T);
}
HARNESS(prevote_defensive) {
    setup(3, 1, 0, true); W->params->defensive_prevote_ = true; vp_clock_ns = 1000000000000ull; boot();
    int st = vp_choose("state", 3);       // 0: nothing happened yet, 1: own election timeout passed, 2: and then a leader was heard again
    if (st >= 1) election_timeout(); ulong lt = vp_u64("lt"), li = vp_u64("li"), t = vp_u64("t"), ht = vp_u64("ht"); vp_assume(t < TMAX && ht < TMAX && ht >= W->d_term);
    if (st == 2) heartbeat(3, ht, 0, 0);
    bool elig = t >= W->d_term && (lt > last_term() || (lt == last_term() && li >= last_idx()));
    req_msg r(t, msg_type::prevote_request, 2, 1, lt, li, vp_u64("pv_ci")); ptr<resp_msg> p = deliver(r);
    vp_assert((bool)p && (!p->get_accepted() || (st == 1 && elig)), "in defensive mode a server that follows a live leader refuses prevotes");
    vp_assert(p->get_accepted() || st != 1 || !elig, "in defensive mode a server that misses its leader supports eligible candidates");
    vp_reach(p->get_accepted() ? "granted" : "refused");
}

// ---- C09: elections keep happening until there is a leader
static void timer_invariant() {
    int e = 0; for (auto& t : W->tm) if (t.election && t.pending) e++;
    if (W->leader) { vp_assert(e == 0, "a leader has no election timer"); int hb = 0; for (auto& t : W->tm) if (!t.election && t.pending) hb++; vp_assert(hb == (int)W->d_conf->get_servers().size() - 1, "a leader has a heartbeat timer for every other server"); }
    else { vp_assert(e == 1, "a server that does not lead waits for an election timeout"); int32 ms = 0; for (auto& t : W->tm) if (t.election && t.pending) ms = t.ms; vp_assert(ms >= W->params->election_timeout_lower_bound_ && ms <= W->params->election_timeout_upper_bound_, "the election timeout is within its bounds"); }
}
HARNESS(election_liveness) {
    static const int ns[] = {1, 2, 3, 5}; int n = ns[vp_choose("servers", 4)]; setup(n, 1, 0, n == 5 || vp_choose("prevote", 2)); int snaps = 0; vp_clock_ns = 1700000000000000000ull; vp_random_value = VP_THOROUGH && vp_choose("rnd", 2) ? 77 : 1; boot(); timer_invariant();
    W->d_vote = -1; const int K = VP_THOROUGH ? 4 : 3;
    for (int k = 0; k < K; k++) {
        int a = vp_choose("event", 7); ulong t;
        switch (a) {
        case 6: { if (n == 1 || snaps++) vp_kill(); t = vp_u64("snp_req_term"); vp_assume(t < TMAX); if (W->leader) vp_assume(t != W->d_term); ulong st = vp_u64("snp_term"); vp_assume(st >= 1 && st <= t); ptr<snapshot> sp = cs_new<snapshot>(4, st, mkconf(n, 1, 0), 2); bool done = vp_choose("done", 2); bufptr d = buffer::alloc(1); d->put((byte)7); d->pos(0); snapshot_sync_req q(sp, done ? 1 : 0, std::move(d), done); req_msg r(t, msg_type::install_snapshot_request, 2, 1, st, 4, 4); r.log_entries().push_back(cs_new<log_entry>(t, q.serialize(), log_val_type::snp_sync_req)); deliver(r); vp_reach("snapshot"); break; }
        case 0: if (!election_timeout()) vp_kill(); break;
        case 1: { if (n == 1) vp_kill(); t = vp_u64("hb_term"); vp_assume(t < TMAX); if (W->leader) vp_assume(t != W->d_term); heartbeat(2, t); break; }
        case 2: { if (n == 1) vp_kill(); t = vp_u64("vote_term"); vp_assume(t < TMAX); vote_req(2, t, vp_u64("lt"), vp_u64("li")); break; }
        case 3: case 4: { int i = -1; for (size_t j = 0; j < W->out.size(); j++) if (!W->out[j].done && W->out[j].to == 2) i = (int)j; if (i < 0) vp_kill(); msg_type ty = W->out[i].req->get_type(); ulong rt = W->out[i].req->get_term();
            if (a == 4) { answer_err(i); break; }
            bool acc = vp_choose("acc", 2); t = vp_u64("resp_term"); vp_assume(t >= rt && t < TMAX); if (acc && ty != msg_type::prevote_request) vp_assume(t == rt);
            answer(i, mkresp(t, (msg_type)(ty + 1), 2, W->log->next_slot(), acc)); break; }
        case 5: { if (n == 1) vp_kill(); t = vp_u64("pv_term"); vp_assume(t < TMAX); req_msg r(t, msg_type::prevote_request, 2, 1, vp_u64("plt"), vp_u64("pli"), vp_u64("pv_ci")); deliver(r); break; }
        }
        timer_invariant(); if (W->leader) vp_reach("leader");
    }
    // from here on everybody answers: the server is elected after a few of its own timeouts
    if (!W->leader) {
        if (vp_choose("lost", 2)) for (auto& o : W->out) o.done = true;
        for (int r = 0; r < 4 && !W->leader; r++) {
            vp_assert(election_timeout(), "an election timeout is pending");
            for (int again = 0; again < 3; again++) for (size_t j = 0; j < W->out.size() && !W->leader; j++) if (!W->out[j].done) { msg_type ty = W->out[j].req->get_type(); ulong rt = W->out[j].req->get_term();
                if (ty == msg_type::append_entries_request) { W->out[j].done = true; continue; } if (ty == msg_type::vote_request && rt != W->d_term) { W->out[j].done = true; continue; }
                answer(j, mkresp(rt, (msg_type)(ty + 1), W->out[j].to, W->log->next_slot(), true)); }
        }
        vp_assert(W->leader, "with all servers answering, a server that keeps timing out is elected"); vp_reach("elected in the end");
    }
    vp_out("leader", W->leader); vp_out("saves", W->saves);
}

// ---- C24: what listeners are told. A server leads exactly if it has no election timeout ahead of it.
static ulong ev_known; static bool ev_busy; static int ev_bad;
static void ev_listen(raft_event e) {
    if (!W->srv) return;
    if (e == raft_event::logs_catch_up) { ulong k = ev_known < last_idx() ? ev_known : last_idx(); ulong a = 0; for (ulong i = W->log->start; i <= k; i++) if (W->log->v[i - W->log->start]->get_val_type() == log_val_type::app_log) a = i; vp_assert(W->sm_idx >= a, "being caught up is told when everything known to be committed is applied"); return; }
    bool l = W->srv->is_leader(); if (e == raft_event::become_leader) vp_assert(l && election_timer() < 0, "leading is told by a server that leads"); else vp_assert(!l, "following is told by a server that does not lead");
}
HARNESS(role_events) {
    static const int ns[] = {1, 2, 3}; int n = ns[vp_choose("servers", 3)]; setup(n, 1, 0, vp_choose("prevote", 2)); W->log->v[0] = mkconfent(W->log->v[0]->get_term(), *W->d_conf); W->sm_idx = 1; vp_clock_ns = 1700000000000000000ull; no_listener = vp_choose("no_listener", 2); W->srv = nullptr; ev_known = 1; on_event_hook = ev_listen; boot(); const int K = (VP_THOROUGH ? 4 : 3) - no_listener; W->d_vote = -1; bool cand = false; if (vp_choose("leads", 2)) { election_timeout(); for (int r = 0; r < 2; r++) for (int p = 2; p <= n / 2 + 1; p++) for (int y = 0; y < 2; y++) { int i = pending_to(p, y ? msg_type::vote_request : msg_type::prevote_request); if (i >= 0) answer(i, mkresp(W->d_term, y ? msg_type::vote_response : msg_type::prevote_response, p, 1, true)); } if (!no_listener) vp_assert(W->leader && W->ev_leader == 1, "leading is told exactly once, when a server begins to lead"); }
    for (int k = 0; k < K; k++) {
        bool lead0 = election_timer() < 0; int L0 = W->ev_leader, F0 = W->ev_follower, I0 = W->idle; ulong t0 = W->d_term, sm0 = W->sm_idx; bool stood = cand, told = false, quiet = false; int a = vp_choose("event", 6); ulong t; if (n == 1 && a != 0 && a != 5) vp_kill();
        switch (a) {
        case 0: if (!election_timeout()) vp_kill(); break;
        case 1: { t = vp_u64("hb_term"); vp_assume(t < TMAX); if (lead0) vp_assume(t != t0); ulong li = last_idx(), lt = last_term(); int e = vp_choose("entries", 2); ulong cm = vp_choose("commit", 2) ? li + e : 1; req_msg r(t, msg_type::append_entries_request, 2, 1, lt, li, cm); for (int i = 0; i < e; i++) r.log_entries().push_back(mkent(t, 0x55)); if (t >= t0 && cm > ev_known) ev_known = cm; ptr<resp_msg> p = deliver(r); if (t >= t0) { vp_assert(p->get_accepted(), "a matching request of the leader is accepted"); if (stood && t == t0) told = true; else if (t == t0) quiet = true; } break; }
        case 2: { t = vp_u64("vote_term"); vp_assume(t < TMAX); bool ok = vp_choose("good", 2); vote_req(2, t, ok ? TMAX : 0, ok ? 100 : 0); break; }
        case 3: { int i = -1; for (size_t j = 0; j < W->out.size(); j++) if (!W->out[j].done && W->out[j].to == 2) i = (int)j; if (i < 0) vp_kill(); msg_type ty = W->out[i].req->get_type(); ulong rt = W->out[i].req->get_term(); bool acc = vp_choose("acc", 2); t = vp_u64("resp_term"); vp_assume(t >= rt && t < TMAX); if (acc && ty != msg_type::prevote_request) vp_assume(t == rt); if (acc && lead0 && rt == t0 && ty == msg_type::append_entries_request) { ulong m = W->out[i].req->get_last_log_idx() + W->out[i].req->log_entries().size(); if (n == 2 && m > ev_known && W->log->v[m - 1]->get_term() == t0) ev_known = m; answer(i, mkresp(t, (msg_type)(ty + 1), 2, m + 1, true)); } else answer(i, mkresp(t, (msg_type)(ty + 1), 2, 1, acc)); break; }
        case 4: { t = vp_u64("pv_term"); vp_assume(t < TMAX); req_msg r(t, msg_type::prevote_request, 2, 1, TMAX, 100, 0); deliver(r); quiet = !lead0; break; }
        case 5: { if (!lead0) vp_kill(); if (n == 1) ev_known = last_idx() + 1; std::vector<bufptr> l; l.push_back(mkbuf(7)); W->srv->append_entries(l); vp_run_others(); quiet = true; break; }
        }
        if (no_listener) continue; bool lead1 = election_timer() < 0; int dL = W->ev_leader - L0, dF = W->ev_follower - F0;
        vp_assert(dL == (!lead0 && lead1 ? 1 : 0), "leading is told exactly once, when a server begins to lead"); if (lead0 && !lead1) { vp_assert(dF >= 1, "following is told when a server stops leading"); vp_reach("deposed"); } bool asks = W->d_term > t0 && W->d_vote == 1; if (told || (W->d_term > t0 && !asks)) cand = false; if (asks) cand = !lead1; if (told || (W->d_term > t0 && !asks)) vp_assert(dF >= 1, "following is told when a candidate gives up or a newer term is adopted"); if (quiet) vp_assert(dF == 0, "nothing is told while nothing changes");
        vp_assert(W->leader == lead1, "the last thing told is true"); if (W->sm_idx > sm0) { vp_assert(W->idle > I0, "being caught up is told after applying"); vp_reach("caught up"); } if (lead1 && !lead0) vp_reach("leader");
    }
    if (no_listener) vp_reach("no listener"); vp_out("leader", W->leader); vp_out("events", W->ev_leader + W->ev_follower);
}

// ---- C13
static bool submit(int how) {
    size_t before = W->log->v.size(); bool r;
    if (how == 0) { std::vector<bufptr> l; l.push_back(mkbuf(7)); r = W->srv->append_entries(l)->get(); } else if (how == 1) { bufptr b = mkbuf(7); r = W->srv->replicate_log(b, ptr<void>(), 0); } else { req_msg q(0, msg_type::client_request, 0, 1, 0, 0, 0); q.log_entries().push_back(mkent(0, 7)); r = W->srv->process_req(q)->get_accepted(); }
    vp_run_others(); vp_assert(W->log->v.size() == before + r, "an entry is appended exactly if it is accepted"); return r;
}
HARNESS(leader_lease) {
    int n = 1 + vp_choose("servers", 5); setup(n, 1, 0, false); const int32 up = 2; W->params->election_timeout_upper_bound_ = up; W->params->election_timeout_lower_bound_ = 1;
    const uint64_t T0 = 1700000000000000000ull, MS = 1000000; vp_clock_ns = T0; boot(); election_timeout();
    for (int32 p = 2; p <= n / 2 + 1; p++) answer(pending_to(p, msg_type::vote_request), mkresp(W->d_term, msg_type::vote_response, p, 1, true));
    vp_assert(W->leader && W->srv->is_leader(), "a freshly elected leader leads");
    // every peer answers one more time at an arbitrary moment (or never again), then an arbitrary time passes; times in ns
    int64_t last[6]; for (int32 p = 2; p <= n; p++) last[p] = p <= n / 2 + 1 ? 0 : -1;
    uint64_t now = 0;
    for (int32 p = 2; p <= n; p++) {
        int i = pending_to(p, msg_type::append_entries_request);
        int how = i < 0 ? 0 : vp_choose("answers", n <= 4 || VP_THOROUGH ? 4 : 2); if (!how) continue;      // not at all, accepting, refusing, with an error
        uint64_t d = vp_u32("ns"); vp_assume(d < 8 * MS); now += d; vp_clock_ns = T0 + now; if (how == 3) { answer_err(i); vp_reach("failed"); continue; }
        answer(i, mkresp(W->d_term, msg_type::append_entries_response, p, how == 1 ? W->log->next_slot() : 1, how == 1)); last[p] = (int64_t)now; if (how == 2) vp_reach("refused");
    }
    if (vp_choose("beat", 2)) { uint64_t d = vp_u32("ns"); vp_assume(d < 8 * MS); now += d; vp_clock_ns = T0 + now; size_t o = W->out.size(); for (size_t t = 0; t < W->tm.size(); t++) if (!W->tm[t].election && W->tm[t].pending) fire((int)t); if (W->out.size() > o) vp_reach("sent"); }      // what is only sent counts for nothing
    if (vp_choose("asked", 2)) W->srv->is_leader();
    static const uint64_t far[] = {0, 0x7ffffff0ull * MS, 0xfffffffeull * MS};      // also after 2^31 and 2^32 ms
    uint64_t d = vp_u32("ns"); vp_assume(d < 8 * MS); now += d + far[vp_choose("far", 3)]; vp_clock_ns = T0 + now;
    int sure = 1, maybe = 1;
    for (int32 p = 2; p <= n; p++) if (last[p] >= 0) { int64_t e = (int64_t)now - last[p]; if (e <= 2 * (int64_t)(up * MS)) sure++; if (e < (2 * (int64_t)up + 1) * (int64_t)MS) maybe++; }
    bool is = W->srv->is_leader();
    vp_assert(is || sure * 2 <= n, "is_leader holds while a majority answered within twice the election timeout");
    vp_assert(!is || maybe * 2 > n, "is_leader does not hold once no majority answered within twice the election timeout");
    int how = vp_choose("how", 3); vp_assert(submit(how) == is, "exactly a leader with a recent majority accepts client entries");
    vp_reach(is ? "valid" : "expired");
    // a server that does not lead any more, or stands for election, claims nothing
    if (n > 1 && vp_choose("deposed", 2)) { ulong t = W->d_term; req_msg q(t + 1, msg_type::vote_request, 2, 1, 0, 0, 0); deliver(q); vp_assert(!W->leader && !W->srv->is_leader() && !submit(how), "a deposed leader claims nothing"); if (vp_choose("stands", 2)) { election_timeout(); vp_assert(!W->leader && W->d_term == t + 2, "candidate"); vp_assert(!W->srv->is_leader() && !submit(how), "a candidate claims nothing"); } vp_reach("deposed"); }
    vp_out("is", is);
}
