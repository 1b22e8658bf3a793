// C16: buffer codec against a byte-array reference.  C17: serialisation round trips.
#include "vp.h"
#include "cornerstone.hxx"
#include <cstring>
#include <fstream>
using namespace cornerstone;
#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
static const size_t SIZES[] = {0, 1, 4, 8, 13, 0x7fff, 0x8000, 0x8001};
static const int NSIZES = 8;

// Reference: an array window [win, win+WIN) of the buffer content plus size and position.
struct ref {
    size_t size, pos, win; byte b[64]; bool def[64];
};
static size_t pick_pos(size_t size) {
    switch (vp_choose("pos", 8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return size > 9 ? size - 9 : size / 2;
    case 3: return size > 8 ? size - 8 : size / 3;
    case 4: return size > 4 ? size - 4 : size;
    case 5: return size > 1 ? size - 1 : size;
    case 6: return size;
    default: return size + 3;
    }
}
static void same(buffer& b, const ref& r, const char* m) {
    vp_assert(b.size() == r.size, "buffer size never changes");
    vp_assert(b.pos() == r.pos, m);
    vp_assert(b.pos() <= b.size(), "position stays within the buffer");
}

HARNESS(buf_ops) {
    size_t size = SIZES[vp_choose("size", NSIZES)];
    bufptr b = buffer::alloc(size);
    vp_assert(b->size() == size && b->pos() == 0, "fresh buffer has the requested size and position 0");
    ref r; r.size = size; r.pos = 0; r.win = size > 32 ? size - 24 : 0;
    byte* base = b->data();
    for (size_t i = 0; i < 24; i++) r.def[i] = false;
    const int K = VP_THOROUGH ? 3 : 2;
    for (int k = 0; k < K; k++) {
        size_t p = pick_pos(size);
        b->pos(p); r.pos = p > size ? size : p;
        same(*b, r, "pos(p) moves to min(p, size)");
        vp_assert(b->data() == base + r.pos, "data() points at the current position");
        int op = vp_choose("op", 5); size_t avail = r.size - r.pos; bool threw = false; size_t need = 0; byte img[16]; int n = 0;
        uint64_t v = vp_u64("v");
        char sb[4]; size_t sl = 0;
        switch (op) {
        case 0: need = 1; for (n = 0; n < 1; n++) img[n] = v; break;
        case 1: need = 4; for (n = 0; n < 4; n++) img[n] = v >> (8 * n); break;
        case 2: need = 8; for (n = 0; n < 8; n++) img[n] = v >> (8 * n); break;
        case 3: sl = vp_choose("len", 3); for (size_t i = 0; i < sl; i++) { sb[i] = (char)(v >> (8 * i)); vp_assume(sb[i] != 0); img[i] = sb[i]; } img[sl] = 0; need = n = sl + 1; break;
        case 4: need = n = 3; for (int i = 0; i < 3; i++) img[i] = v >> (8 * i); break;
        }
        try {
            switch (op) {
            case 0: b->put((byte)v); break;
            case 1: b->put((int32)v); break;
            case 2: b->put((ulong)v); break;
            case 3: b->put(std::string(sb, sl)); break;
            case 4: { bufptr s = buffer::alloc(4); s->put((byte)9); s->put((byte)v); s->put((byte)(v >> 8)); s->put((byte)(v >> 16)); s->pos(1); b->put(*s); vp_assert(s->pos() == 1 && s->size() == 4, "source buffer is not consumed"); break; }
            }
        } catch (const std::overflow_error&) { threw = true; }
        vp_assert(threw == (need > avail), "put succeeds exactly when the value fits");
        if (threw) { vp_reach("put rejected"); same(*b, r, "a rejected put does not move the position"); continue; }
        vp_reach("put accepted");
        r.pos += need; same(*b, r, "put advances by the encoded size");
        for (size_t i = 0; i < need; i++) vp_assert(base[r.pos - need + i] == img[i], "put writes the little-endian image");
        // read back
        size_t at = r.pos - need; b->pos(at); r.pos = at;
        switch (op) {
        case 0: vp_assert(b->get_byte() == (byte)v, "get_byte returns what put stored"); break;
        case 1: vp_assert(b->get_int() == (int32)v, "get_int returns what put stored"); break;
        case 2: vp_assert(b->get_ulong() == (ulong)v, "get_ulong returns what put stored"); break;
        case 3: { const char* s = b->get_str(); if (sl == 0) { vp_assert(s == nullptr, "empty string reads as null"); continue; } vp_assert(s != nullptr, "get_str finds the string"); for (size_t i = 0; i < sl; i++) vp_assert(s[i] == sb[i], "get_str returns what put stored"); vp_assert(s[sl] == 0, "get_str is terminated"); break; }
        case 4: { bufptr d = buffer::alloc(3); b->get(d); for (int i = 0; i < 3; i++) vp_assert(d->data()[i] == img[i], "get(buffer) returns what put stored"); vp_assert(d->pos() == 0, "get(buffer) leaves the target position"); break; }
        }
        r.pos += need; same(*b, r, "get advances by the encoded size");
        vp_reach("read back");
    }
    vp_out("pos", b->pos());
}

// reads never go past the end, for every position and every content
HARNESS(buf_reads) {
    size_t size = SIZES[vp_choose("size", NSIZES)];
    bufptr b = buffer::alloc(size);
    byte* base = b->data(); byte c[16]; size_t w0 = size > 12 ? size - 12 : 0;
    for (size_t i = w0; i < size; i++) { c[i - w0] = vp_u8("c"); base[i] = c[i - w0]; }
    size_t p = pick_pos(size); if (p < w0) p = w0; if (p > size) p = size;
    b->pos(p); size_t avail = size - p; size_t need = 0; bool threw = false; uint64_t got = 0; int op = vp_choose("op", 4);
    const char* s = nullptr; bufptr d = buffer::alloc(op == 3 ? vp_choose("dst", 6) : 0); size_t dp = d->size() ? vp_choose("dst_pos", 3) : 0; if (dp > d->size()) dp = d->size(); byte* db = d->data(); byte mark = vp_u8("mark"); for (size_t i = 0; i < d->size(); i++) db[i] = mark; d->pos(dp);
    try {
        switch (op) {
        case 0: need = 1; got = b->get_byte(); break;
        case 1: need = 4; got = (uint32_t)b->get_int(); break;
        case 2: need = 8; got = b->get_ulong(); break;
        case 3: need = d->size() - dp; b->get(d); break;
        }
    } catch (const std::overflow_error&) { threw = true; }
    vp_assert(threw == (need > avail), "get succeeds exactly when enough bytes are left"); vp_assert(d->pos() == dp, "get(buffer) leaves the target position"); for (size_t i = 0; i < (threw ? d->size() : dp); i++) vp_assert(db[i] == mark, "get(buffer) writes only what it reads");
    if (threw) { vp_assert(b->pos() == p, "a rejected get does not move the position"); vp_reach("get rejected"); return; }
    vp_assert(b->pos() == p + need, "get advances by the encoded size");
    if (op < 3) { uint64_t e = 0; for (size_t i = 0; i < need; i++) e |= (uint64_t)c[p - w0 + i] << (8 * i); vp_assert(got == e, "get decodes little-endian"); }
    else for (size_t i = 0; i < need; i++) vp_assert(d->data()[i] == c[p - w0 + i], "get(buffer) copies the bytes at the position");
    vp_reach("get accepted"); vp_out("got", got);
}
HARNESS(buf_str) {   // get_str on arbitrary bytes: null unless a terminated, non-empty string starts here
    size_t size = vp_choose("size", 6); bufptr b = buffer::alloc(size); byte c[8];
    for (size_t i = 0; i < size; i++) { c[i] = vp_u8("c"); b->data()[i] = c[i]; }
    size_t p = vp_choose("p", size + 1); b->pos(p);
    const char* s = b->get_str(); size_t e = p; while (e < size && c[e]) e++;
    bool ok = e < size && e > p;
    vp_assert((s != nullptr) == ok, "get_str finds exactly the terminated non-empty strings");
    if (ok) { vp_reach("found"); vp_assert(b->pos() == e + 1, "get_str consumes the terminator"); vp_assert((const byte*)s == b->data() - (e + 1 - p), "get_str points at the string"); }
    else { vp_reach("none"); vp_assert(b->pos() == p, "a failed get_str does not move the position"); }
}
HARNESS(buf_copy) {
    size_t size = vp_choose("size", 7); bufptr b = buffer::alloc(size); byte c[8];
    for (size_t i = 0; i < size; i++) { c[i] = vp_u8("c"); b->data()[i] = c[i]; }
    size_t p = vp_choose("p", size + 1); b->pos(p);
    bufptr k = buffer::copy(*b);
    vp_assert(k->size() == size - p && k->pos() == 0 && b->pos() == p, "copy takes the unread part and leaves the source alone");
    for (size_t i = p; i < size; i++) vp_assert(k->data()[i - p] == c[i], "copy has the same bytes");
    if (k->size()) { k->data()[0] ^= 1; vp_assert(b->data()[0] == c[p], "copy does not alias the source"); vp_reach("copied"); }
}
// a buffer written to a stream and read back
HARNESS(buf_stream) {
    size_t size = vp_choose("size", 6); bufptr b = buffer::alloc(size); byte c[8], old = vp_u8("old"); for (size_t i = 0; i < size; i++) { c[i] = vp_u8("c"); b->data()[i] = c[i]; }
    size_t p = vp_choose("p", size + 1); b->pos(p); std::string f = std::string(vp_scratch()) + "/b"; { std::ofstream o(f.c_str(), std::ios::binary); o << *b; } vp_assert(b->pos() == p && b->size() == size, "writing a buffer to a stream leaves it alone");
    std::string got; { std::ifstream in(f.c_str(), std::ios::binary); char x; while (in.get(x)) got += x; } vp_assert(got.size() == size - p, "a stream gets the unread part of the buffer"); for (size_t i = p; i < size; i++) vp_assert((byte)got[i - p] == c[i], "a stream gets the unread part of the buffer");
    size_t n = vp_choose("dst", 6), q = vp_choose("q", n + 1); bufptr d = buffer::alloc(n); byte* db = d->data(); for (size_t i = 0; i < n; i++) db[i] = old; d->pos(q); bool threw = false;
    { std::ifstream in(f.c_str(), std::ios::binary); try { in >> *d; } catch (const std::ios::failure&) { threw = true; } } vp_assert(threw == (n - q > size - p), "a buffer is filled from a stream exactly if the stream has enough"); vp_assert(d->pos() == q && d->size() == n, "filling a buffer from a stream does not move it");
    for (size_t i = 0; i < q; i++) vp_assert(db[i] == old, "what is before the position is kept"); if (!threw) { for (size_t i = q; i < n; i++) vp_assert(db[i] == c[p + i - q], "a buffer reads from a stream what was written"); vp_reach("filled"); } else vp_reach("short"); vp_out("n", n);
}
HARNESS(buf_alloc_limit) {
    uint64_t n = vp_u64("n"); vp_assume(n >= 0x80000000ull);
    bool threw = false; try { buffer::alloc(n); } catch (const std::out_of_range&) { threw = true; }
    vp_assert(threw, "sizes of 2^31 and above are refused"); vp_reach("refused");
}

// ---------------------------------------------------------------- C17
static std::string sym_str(const char* nm, size_t len) { std::string s; for (size_t i = 0; i < len; i++) { char c = (char)vp_u8(nm); vp_assume(c != 0); s.push_back(c); } return s; }
static ptr<cluster_config> sym_conf(int maxsrv, int maxlen) {
    ptr<cluster_config> c = cs_new<cluster_config>((ulong)vp_u64("log_idx"), (ulong)vp_u64("prev_idx"));
    int n = vp_choose("nsrv", maxsrv + 1);
    for (int i = 0; i < n; i++) c->get_servers().push_back(cs_new<srv_config>((int32)vp_u32("id"), sym_str("ep", 1 + vp_choose("eplen", maxlen))));
    return c;
}
static void same_conf(cluster_config& a, cluster_config& b) {
    vp_assert(a.get_log_idx() == b.get_log_idx(), "config log index survives");
    vp_assert(a.get_prev_log_idx() == b.get_prev_log_idx(), "config previous log index survives");
    vp_assert(a.get_servers().size() == b.get_servers().size(), "server count survives");
    auto x = a.get_servers().begin(); auto y = b.get_servers().begin();
    for (; x != a.get_servers().end(); ++x, ++y) {
        vp_assert((*x)->get_id() == (*y)->get_id(), "server id survives, in order");
        vp_assert((*x)->get_endpoint().size() == (*y)->get_endpoint().size(), "endpoint length survives");
        for (size_t i = 0; i < (*x)->get_endpoint().size(); i++) vp_assert((*x)->get_endpoint()[i] == (*y)->get_endpoint()[i], "endpoint survives");
    }
}
HARNESS(ser_srv_config) {
    srv_config s((int32)vp_u32("id"), sym_str("ep", 1 + vp_choose("eplen", VP_THOROUGH ? 6 : 4)));
    bufptr b = s.serialize(); vp_assert(b->pos() == 0, "serialised buffer is positioned at its start");
    ptr<srv_config> t = srv_config::deserialize(*b);
    vp_assert(t->get_id() == s.get_id(), "server id survives"); vp_assert(t->get_endpoint().size() == s.get_endpoint().size(), "endpoint length survives");
    for (size_t i = 0; i < s.get_endpoint().size(); i++) vp_assert(t->get_endpoint()[i] == s.get_endpoint()[i], "endpoint survives");
    vp_assert(b->pos() == b->size(), "the whole encoding is consumed"); vp_reach("ok"); vp_out("id", (uint32_t)t->get_id());
}
HARNESS(ser_cluster_config) {
    ptr<cluster_config> c = sym_conf(VP_THOROUGH ? 4 : 3, 2); bufptr b = c->serialize(); vp_assert(b->pos() == 0, "serialised buffer is positioned at its start");
    ptr<cluster_config> d = cluster_config::deserialize(*b); same_conf(*c, *d); vp_assert(b->pos() == b->size(), "the whole encoding is consumed"); vp_reach("ok");
    vp_out("idx", d->get_log_idx());
}
HARNESS(ser_snapshot) {
    ptr<cluster_config> c = sym_conf(2, 1); snapshot s((ulong)vp_u64("idx"), (ulong)vp_u64("term"), c, (ulong)vp_u64("size")); bufptr b = s.serialize(); vp_assert(b->pos() == 0, "serialised buffer is positioned at its start");
    ptr<snapshot> d = snapshot::deserialize(*b);
    vp_assert(d->get_last_log_idx() == s.get_last_log_idx(), "snapshot index survives"); vp_assert(d->get_last_log_term() == s.get_last_log_term(), "snapshot term survives"); vp_assert(d->size() == s.size(), "snapshot size survives");
    same_conf(*c, *d->get_last_config()); vp_reach("ok"); vp_out("idx", d->get_last_log_idx());
}
HARNESS(ser_snapshot_sync) {
    ptr<cluster_config> c = sym_conf(2, 1); ptr<snapshot> s = cs_new<snapshot>((ulong)vp_u64("idx"), (ulong)vp_u64("term"), c, (ulong)vp_u64("size"));
    size_t n = vp_choose("n", 5), off = vp_choose("dpos", 2); if (off > n) off = n;
    bufptr data = buffer::alloc(n); byte img[8]; for (size_t i = 0; i < n; i++) { img[i] = vp_u8("d"); data->put(img[i]); } data->pos(off);
    ulong o = vp_u64("offset"); bool done = vp_bool("done");
    snapshot_sync_req r(s, o, std::move(data), done); bufptr b = r.serialize(); vp_assert(b->pos() == 0, "serialised buffer is positioned at its start");
    ptr<snapshot_sync_req> d = snapshot_sync_req::deserialize(*b);
    vp_assert(d->get_offset() == o, "offset survives"); vp_assert(d->is_done() == done, "done flag survives"); vp_assert(d->get_data().size() - d->get_data().pos() == n - off, "chunk length survives");
    for (size_t i = off; i < n; i++) vp_assert(d->get_data().data()[i - off] == img[i], "chunk bytes survive");
    vp_assert(d->get_snapshot().get_last_log_idx() == s->get_last_log_idx() && d->get_snapshot().get_last_log_term() == s->get_last_log_term() && d->get_snapshot().size() == s->size(), "snapshot meta survives");
    same_conf(*c, *d->get_snapshot().get_last_config()); vp_reach("ok"); vp_out("off", o);
}
HARNESS(ser_log_entry) {
    size_t n = vp_choose("n", VP_THOROUGH ? 9 : 6); bufptr data = buffer::alloc(n); byte img[16]; for (size_t i = 0; i < n; i++) { img[i] = vp_u8("d"); data->put(img[i]); } data->pos(vp_choose("pos", n + 1));
    ulong t = vp_u64("term"); byte vt = vp_u8("type");
    ptr<log_entry> e = cs_new<log_entry>(t, std::move(data), (log_val_type)vt); bufptr b = e->serialize(); vp_assert(b->pos() == 0, "serialised buffer is positioned at its start");
    vp_assert(log_entry::term_in_buffer(*b) == t && b->pos() == 0, "the term can be read without consuming the entry");
    ptr<log_entry> d = log_entry::deserialize(*b);
    vp_assert(d->get_term() == t, "term survives"); vp_assert((byte)d->get_val_type() == vt, "entry type survives"); vp_assert(d->get_buf().size() == n && d->get_buf().pos() == 0, "payload size survives");
    for (size_t i = 0; i < n; i++) vp_assert(d->get_buf().data()[i] == img[i], "payload bytes survive"); vp_reach("ok"); vp_out("term", d->get_term());
}
// malformed input: decoding arbitrary bytes either throws a C++ exception or yields an object; it never touches memory outside the buffer
HARNESS(ser_malformed) {
    size_t n = vp_choose("n", VP_THOROUGH ? 30 : 27); bufptr b = buffer::alloc(n); for (size_t i = 0; i < n; i++) b->data()[i] = vp_u8("b");
    int what = vp_choose("what", 3); bool threw = false;
    try {
        if (what == 0) { log_entry::deserialize(*b); }
        else if (what == 1) { srv_config::deserialize(*b); }
        else { cluster_config::deserialize(*b); }
    } catch (const std::exception&) { threw = true; }
    vp_assert(b->pos() <= b->size(), "position stays within the buffer");
    vp_reach(threw ? "rejected" : "accepted");
}

// many servers: counts around the limits of narrower encodings
HARNESS(ser_cluster_config_many) {
    static const int ns[] = {127, 128, 255, 256, 300}; int n = ns[vp_choose("servers", 5)]; ulong a = vp_u64("idx"), b = vp_u64("prev");
    cluster_config c(a, b); for (int i = 0; i < n; i++) c.get_servers().push_back(cs_new<srv_config>(i + 1, std::string("e")));
    bufptr s = c.serialize(); ptr<cluster_config> d = cluster_config::deserialize(*s);
    vp_assert(d->get_log_idx() == a && d->get_prev_log_idx() == b && (int)d->get_servers().size() == n, "a large configuration keeps all its servers");
    int k = 0; for (auto& x : d->get_servers()) { k++; vp_assert(x->get_id() == k, "a large configuration keeps the order of its servers"); } vp_reach("ok");
}
