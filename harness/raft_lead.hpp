// A leader driven through an election, and what its peers confirmed to it.
#pragma once
#include "raft_env.hpp"
// ---------------------------------------------------------------- leader side
static ulong vterm;      // term of the current leadership
static void lead(int n) {
    vp_clock_ns = 1700000000000000000ull; if (!election_timeout()) vp_fail("can stand for election");
    if (W->params->prevote_enabled_) for (int32 p = 2; p <= n / 2 + 1; p++) { int i = pending_to(p, msg_type::prevote_request); vp_assert(i >= 0, "every server is asked"); answer(i, mkresp(W->d_term, msg_type::prevote_response, p, 1, true)); }
    for (int32 p = 2; p <= n / 2 + 1 && !W->leader; p++) { int i = pending_to(p, msg_type::vote_request); vp_assert(i >= 0, "every server is asked"); answer(i, mkresp(W->d_term, msg_type::vote_response, p, 1, true)); }
    vp_assert(W->leader, "elected"); vterm = W->d_term;
}
struct cluster_view { int n; uint32_t mem; ulong match[6]; ulong known; ulong base; ulong before = 0;       // match[p]: what p confirmed in this term; known: highest index that may be committed
    void reset(int nn, ulong b) { n = nn; mem = ((1u << (nn + 1)) - 1) & ~1u; for (int i = 0; i < 6; i++) match[i] = 0; known = base = b; }
    ulong term_of(ulong i) { if (i == 0) return 0; if (i < W->log->start) return before && W->snp && i < W->snp->get_last_log_idx() ? before : W->snp ? W->snp->get_last_log_term() : 0; return W->log->v[i - W->log->start]->get_term(); }
    // highest index a majority holds whose entry is of the leader's term
    void advance() {
        for (ulong i = last_idx(); i > known; i--) { int c = 1, m = 1; for (int p = 2; p <= 5; p++) if (mem >> p & 1) { m++; if (match[p] >= i) c++; } if (c * 2 > m && term_of(i) == vterm) { known = i; break; } }
    }
};
static cluster_view cv;
static bool same_entry(const ptr<log_entry>& a, const ptr<log_entry>& b) { if (a == b) return true; if (!a || !b) return false; buffer &x = a->get_buf(), &y = b->get_buf(); size_t p = x.pos(), q = y.pos(); x.pos(0); y.pos(0); bool r = a->get_term() == b->get_term() && a->get_val_type() == b->get_val_type() && x.size() == y.size() && memcmp(x.data(), y.data(), x.size()) == 0; x.pos(p); y.pos(q); return r; }
static void append_monitor(world& w, sent& s) {
    if (s.req->get_type() != msg_type::append_entries_request) return;
    req_msg& r = *s.req;
    vp_assert(r.get_term() == w.d_term && r.get_src() == w.id && r.get_dst() == s.to, "an append request carries the leader's term and names sender and receiver");
    vp_assert(r.get_last_log_idx() < w.log->next_slot(), "an append request starts inside the leader's log");
    vp_assert(r.get_last_log_idx() + 1 >= w.log->start, "entries that were compacted are not sent as log entries");
    vp_assert(r.get_last_log_term() == cv.term_of(r.get_last_log_idx()), "an append request carries the term of the entry before the new ones");
    vp_assert(r.log_entries().size() <= (size_t)w.params->max_append_size_, "an append request respects the size limit");
    ulong want = last_idx() - r.get_last_log_idx(); if (want > (ulong)w.params->max_append_size_) want = w.params->max_append_size_;
    vp_assert(r.log_entries().size() == want, "an append request carries all following entries up to the limit");
    for (size_t k = 0; k < r.log_entries().size(); k++) vp_assert(same_entry(r.log_entries()[k], w.log->v[r.get_last_log_idx() + 1 + k - w.log->start]), "an append request carries the leader's entries");
    for (auto& o : w.out) if (&o != &s && !o.done && o.to == s.to && o.req->get_term() == r.get_term() && (o.req->get_type() == msg_type::append_entries_request || o.req->get_type() == msg_type::install_snapshot_request)) vp_fail("at most one append request per follower is outstanding");
}
static bool client(byte tag) { std::vector<bufptr> l; l.push_back(mkbuf(tag)); ptr<async_result<bool>> r = W->srv->append_entries(l); vp_run_others(); return r->get(); }
// a peer answers its outstanding append request truthfully
static bool peer_ack(int32 p, bool acc, ulong hint) {
    int i = pending_to(p, msg_type::append_entries_request); if (i < 0) return false;
    req_msg& r = *W->out[i].req; ulong m = r.get_last_log_idx() + r.log_entries().size();
    if (acc) { if (r.get_term() == vterm && cv.match[p] < m) cv.match[p] = m; cv.advance(); answer(i, mkresp(r.get_term(), msg_type::append_entries_response, p, m + 1, true)); }
    else answer(i, mkresp(r.get_term(), msg_type::append_entries_response, p, hint, false));
    return true;
}
static ulong applied_idx() { ulong m = 0; for (auto& o : W->sm) if (o.kind == A_COMMIT && o.idx > m) m = o.idx; return m; }
static ulong sent_commit() { ulong m = 0; for (auto& o : W->out) if (o.req->get_type() == msg_type::append_entries_request && o.req->get_commit_idx() > m) m = o.req->get_commit_idx(); return m; }

