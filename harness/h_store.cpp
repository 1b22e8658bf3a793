// The bundled file log store against an abstract log: C18 (every history), C19 (packs, compaction with failures), C26 (crash points).
#include "vp.h"
#include "cornerstone.hxx"
#include <cstring>
using namespace cornerstone;
#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
static const ulong TMAX = 1ull << 60;
struct rent { ulong term; byte type; std::string data; };
struct ref_log { ulong start = 1; std::vector<rent> v; ulong next() const { return start + v.size(); } };
static rent mkr(int len) { rent r; r.term = vp_u64("term"); vp_assume(r.term >= 1 && r.term < TMAX); r.type = 1 + vp_u8("type") % 2; for (int i = 0; i < len; i++) r.data.push_back((char)vp_u8("byte")); return r; }
static ptr<log_entry> ent(const rent& r) { bufptr b = buffer::alloc(r.data.size()); for (char c : r.data) b->put((byte)c); b->pos(0); return cs_new<log_entry>(r.term, std::move(b), (log_val_type)r.type); }
static ptr<log_entry> mkr_plain() { bufptr b = buffer::alloc(1); b->put((byte)1); b->pos(0); return cs_new<log_entry>(1, std::move(b)); }
static void same(log_entry& e, const rent& r, const char* what) {
    buffer& b = e.get_buf(); b.pos(0); vp_assert(b.size() == r.data.size(), what); vp_assert(e.get_term() == r.term && (byte)e.get_val_type() == r.type, what);
    for (size_t i = 0; i < r.data.size(); i++) vp_assert(b.data()[i] == (byte)r.data[i], what);
}
static void compare(fs_log_store& s, ref_log& r, bool full = true) {
    vp_assert(s.start_index() == r.start && s.next_slot() == r.next(), "the store has the entries of the log");
    ptr<log_entry> l = s.last_entry(); if (r.v.empty()) { vp_assert(l && l->get_term() == 0, "an empty log has no last entry"); } else { vp_assert((bool)l, "the last entry is found"); same(*l, r.v.back(), "the last entry is the log's"); }
    for (ulong i = r.start; i < r.next(); i++) { ptr<log_entry> e = s.entry_at(i); vp_assert((bool)e, "every entry is found"); same(*e, r.v[i - r.start], "an entry reads as written"); vp_assert(s.term_at(i) == r.v[i - r.start].term, "an entry's term reads as written"); }
    vp_assert(!s.entry_at(r.next()), "there is nothing behind the last entry");
    if (full) for (ulong a = r.start; a <= r.next(); a++) for (ulong b = a; b <= r.next() + 1; b++) {
        ptr<std::vector<ptr<log_entry>>> v = s.log_entries(a, b); ulong n = b > r.next() ? r.next() - a : b - a;
        if (n == 0) { vp_assert(!v || v->empty(), "an empty range has no entries"); continue; }
        vp_assert(v && v->size() == n, "a range has exactly its entries"); for (ulong k = 0; k < n; k++) { vp_assert((bool)(*v)[k], "a range has exactly its entries"); same(*(*v)[k], r.v[a + k - r.start], "a range has exactly its entries"); }
    }
}
static std::string dir() { return std::string(vp_scratch()); }
static int sizes[4] = {-1, 1, 2, 3};
static int some_len() { return VP_THOROUGH ? (int)vp_choose("len", 3) : 2 * (int)vp_choose("len", 2); }
static void apply(ptr<fs_log_store>& s, ref_log& r, int bs, int k, bool allow_pack) {
    int a = vp_choose("op", allow_pack ? 5 : 4);
    if (a == 0) { rent e = mkr(some_len()); ptr<log_entry> p = ent(e); r.v.push_back(e); ulong i = s->append(p); vp_assert(i == r.next() - 1, "append tells the index"); }
    else if (a == 1) { ulong i = r.start + vp_choose("at", (int)r.v.size() + 1); rent e = mkr(some_len()); ptr<log_entry> p = ent(e); s->write_at(i, p); if (i < r.next()) vp_reach("overwritten"); r.v.resize(i - r.start); r.v.push_back(e); }
    else if (a == 2) { ulong i = r.start + vp_choose("upto", (int)r.v.size() + 2); vp_assert(s->compact(i), "compaction succeeds"); if (i + 1 >= r.next()) r.v.clear(); else { r.v.erase(r.v.begin(), r.v.begin() + (i + 1 - r.start)); vp_reach("compacted"); } r.start = i + 1; }
    else if (a == 3) { s.reset(); s = cs_new<fs_log_store>(dir(), bs); vp_reach("reopened"); }
}
HARNESS(store_history) {
    int bs = sizes[vp_choose("buffer", 4)]; ptr<fs_log_store> s = cs_new<fs_log_store>(dir(), bs); ref_log r; const int K = VP_THOROUGH ? 5 : 4; int pre = vp_choose("prefill", 3);
    for (int i = 0; i < pre; i++) { rent e = mkr(i + 1); ptr<log_entry> p = ent(e); s->append(p); r.v.push_back(e); }
    compare(*s, r); for (int k = 0; k < K; k++) { apply(s, r, bs, k, false); compare(*s, r); }
    { ptr<log_entry> p = mkr_plain(); ulong at = vp_choose("beyond", 2) ? r.next() + 1 : r.start - 1; bool threw = false; try { s->write_at(at, p); } catch (const std::exception&) { threw = true; } vp_assert(threw, "writing outside the log is refused"); compare(*s, r, false); }
    vp_out("start", s->start_index()); vp_out("next", s->next_slot());
}

// packs: what is packed from one store and applied to another is the same log there
HARNESS(store_pack) {
    int bs = sizes[vp_choose("buffer", 3)]; ref_log a, b; std::vector<bufptr> packs; std::vector<ulong> at; int n = 2 + vp_choose("source", 3), cut = vp_choose("cut", 2);
    { fs_log_store s(dir(), bs); for (int i = 0; i < n; i++) { rent e = mkr(i == 1 ? vp_choose("len", 3) : 1); ptr<log_entry> p = ent(e); s.append(p); a.v.push_back(e); } if (cut) { s.compact(1); a.v.erase(a.v.begin()); a.start = 2; }
      ulong i = a.start + vp_choose("from", (int)a.v.size()); int np = 1 + vp_choose("two", 2); 
      for (int k = 0; k < np && i < a.next(); k++) { int c = 1 + vp_choose("cnt", 3); packs.push_back(s.pack(i, c)); at.push_back(i); i += c; if (i > a.next()) i = a.next(); } at.push_back(i); compare(s, a, false); }
    vp_fs_reset(); ulong first = at[0]; ptr<fs_log_store> d = cs_new<fs_log_store>(dir(), bs); int dcut = vp_choose("dst_cut", 2); if (dcut) { if (first < 2) vp_kill(); }
    int m = (int)first - 1 + vp_choose("more", 3);       // the receiver holds everything before the pack and maybe more
    for (int i = 0; i < m; i++) { rent e = mkr(i == 0 ? 2 : 1); ptr<log_entry> p = ent(e); d->append(p); b.v.push_back(e); } if (dcut) { d->compact(1); b.v.erase(b.v.begin()); b.start = 2; }
    for (size_t k = 0; k < packs.size(); k++) { packs[k]->pos(0); if (at[k] < b.next()) vp_reach("overwritten"); else vp_reach("appended"); d->apply_pack(at[k], *packs[k]); b.v.resize(at[k] - b.start); for (ulong i = at[k]; i < at[k + 1]; i++) b.v.push_back(a.v[i - a.start]); compare(*d, b); }
    if (vp_choose("reopen", 2)) { d.reset(); d = cs_new<fs_log_store>(dir(), bs); compare(*d, b); } rent e = mkr(1); ptr<log_entry> p = ent(e); d->append(p); b.v.push_back(e); compare(*d, b); vp_out("next", d->next_slot());
}
// compaction that cannot get its files
HARNESS(store_compact_fails) {
    int bs = sizes[vp_choose("buffer", 3)]; ref_log r; ptr<fs_log_store> s = cs_new<fs_log_store>(dir(), bs); int n = 1 + vp_choose("n", 3); for (int i = 0; i < n; i++) { rent e = mkr(i % 2 ? 2 : 1); ptr<log_entry> p = ent(e); s->append(p); r.v.push_back(e); }
    ulong upto = r.start + vp_choose("upto", n + 1); vp_fs_opens = 0; int kind = vp_choose("kind", 2), at = vp_choose("fail_at", kind ? 8 : 14); bool failed = false; ulong st = r.start;
    if (kind == 0) vp_fs_fail_at = at; else vp_fs_fail_op = at;
    try { if (!s->compact(upto)) failed = true; } catch (const std::exception&) {      // the store gives up: nothing is lost for the next one
        vp_fs_fail_at = vp_fs_fail_op = -1; s.reset(); s = cs_new<fs_log_store>(dir(), bs); vp_reach("gave up"); ref_log nw = r; if (upto + 1 >= r.next()) nw.v.clear(); else nw.v.erase(nw.v.begin(), nw.v.begin() + (upto + 1 - st)); nw.start = upto + 1; compare(*s, s->start_index() == r.start ? r : nw); return; }
    bool hit = kind == 0 ? vp_fs_fail_at < 0 : vp_fs_fail_op < 0; vp_fs_fail_at = vp_fs_fail_op = -1;
    if (!failed) { if (upto + 1 >= r.next()) r.v.clear(); else r.v.erase(r.v.begin(), r.v.begin() + (upto + 1 - st)); r.start = upto + 1; vp_reach("compacted"); } else { vp_assert(hit, "compaction succeeds when nothing fails"); vp_reach("failed"); }
    compare(*s, r); rent e = mkr(1); ptr<log_entry> p = ent(e); s->append(p); r.v.push_back(e); compare(*s, r); s.reset(); s = cs_new<fs_log_store>(dir(), bs); compare(*s, r); vp_out("next", s->next_slot());
}

// the process is killed at any point: what was acknowledged before is kept, the operation under way is done or not done
static bool matches(log_entry& x, const rent& r) { buffer& b = x.get_buf(); b.pos(0); bool o = x.get_term() == r.term && (byte)x.get_val_type() == r.type && b.size() == r.data.size(); for (size_t i = 0; o && i < r.data.size(); i++) o = o && b.data()[i] == (byte)r.data[i]; return o; }
static bool equals(fs_log_store& s, ref_log& r) { return s.start_index() == r.start && s.next_slot() == r.next(); }
HARNESS(store_crash) {
    int bs = sizes[vp_choose("buffer", 3)]; ref_log r, pack_src; bufptr pk = buffer::alloc(0); int a = vp_choose("op", 5); rent pe[2];
    if (a == 4) { fs_log_store s(dir(), bs); for (int i = 0; i < 2; i++) { pe[i] = mkr(1 + i); ptr<log_entry> p = ent(pe[i]); s.append(p); } pk = s.pack(1, 2); }
    vp_fs_reset(); bool fresh = a == 3; int n = fresh ? 0 : vp_choose("n", 4), cut = 0; ptr<fs_log_store> s; if (!fresh) s = cs_new<fs_log_store>(dir(), bs);
    for (int i = 0; i < n; i++) { rent e = mkr(i % 2 ? 2 : 1); ptr<log_entry> p = ent(e); s->append(p); r.v.push_back(e); } if (n > 1) cut = vp_choose("cut", 2); if (cut) { vp_assert(s->compact(1), "compaction succeeds"); r.v.erase(r.v.begin()); r.start = 2; }
    ref_log mid = r, nw = r; ulong at = 0; rent e; ptr<log_entry> p; if (a <= 1) { e = mkr(vp_choose("len", 3)); p = ent(e); }
    if (a == 1 || a == 4) at = r.start + vp_choose("at", (int)r.v.size() + 1); if (a == 2) at = r.start + vp_choose("upto", (int)r.v.size() + 1);
    int c = vp_choose("crash_at", 32); vp_fs_crash_at = c;
    if (a == 0) { s->append(p); nw.v.push_back(e); }
    else if (a == 1) { s->write_at(at, p); mid.v.resize(at - r.start); nw = mid; nw.v.push_back(e); }      // what is overwritten may be gone
    else if (a == 2) { s->compact(at); if (at + 1 >= r.next()) nw.v.clear(); else nw.v.erase(nw.v.begin(), nw.v.begin() + (at + 1 - r.start)); nw.start = at + 1; }
    else if (a == 3) { s = cs_new<fs_log_store>(dir(), bs); }
    else { pk->pos(0); s->apply_pack(at, *pk); mid.v.resize(at - r.start); nw = mid; nw.v.push_back(pe[0]); nw.v.push_back(pe[1]); }
    s.reset(); if (!vp_fs_crash()) vp_kill(); vp_reach("crash"); if (c == 31) vp_fail("harness bound: more file operations than crash points");
    if (vp_choose("again", 2)) { int c2 = vp_choose("crash2_at", 12); vp_fs_crash_at = c2; s = cs_new<fs_log_store>(dir(), bs); s.reset(); if (!vp_fs_crash()) vp_kill(); vp_reach("crash while starting"); if (c2 == 11) vp_fail("harness bound: more file operations than crash points"); }
    s = cs_new<fs_log_store>(dir(), bs); ref_log* w = equals(*s, nw) ? &nw : equals(*s, mid) ? &mid : &r;
    if (equals(*s, r) && equals(*s, nw) && at && at < r.next() && matches(*s->entry_at(at), r.v[at - r.start])) w = &r;
    if (w == &nw) vp_reach("done"); if (w == &r) vp_reach("not done"); compare(*s, *w);
    rent f = mkr(1); ptr<log_entry> q = ent(f); s->append(q); w->v.push_back(f); compare(*s, *w, false); s.reset(); s = cs_new<fs_log_store>(dir(), bs); compare(*s, *w, false); vp_out("next", s->next_slot());
}
// readers and one writer on different threads
static fs_log_store* RS; static ref_log* RR; static int r_kind, w_kind; static ulong r_idx; static rent w_new;
static void reader(void*) {
    if (r_kind == 0) { ptr<log_entry> e = RS->entry_at(r_idx); vp_assert((bool)e, "an entry is found while others are written"); same(*e, RR->v[r_idx - 1], "an entry reads as written while others are written"); }
    else if (r_kind == 1) vp_assert(RS->term_at(2) == RR->v[1].term, "an entry's term reads as written while others are written");
    else if (r_kind == 4) { ulong n = RS->next_slot(), b = RS->start_index(); vp_assert(n == 5 || (w_kind == 0 && n == 6), "the next index is read as of before or after a write"); vp_assert(b == 1 || (w_kind == 1 && b == 2), "the first index is read as of before or after a write"); }
    else if (r_kind == 5) { ptr<log_entry> e = RS->last_entry(); vp_assert((bool)e, "the last entry is found while others are written"); if (w_kind == 1 || matches(*e, RR->v[3])) same(*e, RR->v[3], "the last entry is the log's while others are written"); else same(*e, w_new, "the last entry is the log's while others are written"); }
    else { ulong a = r_kind == 2 ? 2 : 3; ptr<std::vector<ptr<log_entry>>> v = RS->log_entries(a, 4); vp_assert(v && v->size() == 4 - a, "a range has exactly its entries while others are written"); for (ulong k = a; k < 4; k++) { vp_assert((bool)(*v)[k - a], "a range has exactly its entries while others are written"); same(*(*v)[k - a], RR->v[k - 1], "a range has exactly its entries while others are written"); } }
}
static void writer(void*) { if (w_kind == 0) { ptr<log_entry> p = ent(w_new); RS->append(p); } else if (w_kind == 1) RS->compact(1); else { ptr<log_entry> p = ent(w_new); RS->write_at(4, p); } }
HARNESS(store_race) {
    int bs = sizes[1 + vp_choose("buffer", 3)]; ref_log r; fs_log_store s(dir(), bs); for (int i = 0; i < 4; i++) { rent e = mkr(i % 2 + 1); ptr<log_entry> p = ent(e); s.append(p); r.v.push_back(e); } RS = &s; RR = &r; r_kind = vp_choose("read", 6); r_idx = 2 + 2 * vp_choose("last", 2); w_kind = vp_choose("write", r_idx == 4 ? 2 : 3); w_new = mkr(1); if (r_kind == 4) { if (bs != 2) vp_kill(); vp_watch(&s, sizeof s); }
    vp_explore(r_kind == 4 && !VP_THOROUGH ? 1 : 2, 0); uint64_t a = vp_thread_create(&reader, nullptr), b = vp_thread_create(&writer, nullptr); vp_thread_join(a); vp_thread_join(b); vp_explore(-1, 0);
    if (w_kind == 0) r.v.push_back(w_new); else if (w_kind == 2) r.v[3] = w_new; else { r.v.erase(r.v.begin()); r.start = 2; } compare(s, r); vp_reach("read"); vp_out("next", s.next_slot());
}
