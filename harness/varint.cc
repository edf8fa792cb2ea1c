// C13: LEB128, VLU and little-endian variable integers
#include "asn1ref.h"

struct Codec { const char *nm; bytes (*enc)(uint64_t); int (*wr)(crefl_buf*, uint64_t, bool); bool (*rd)(crefl_buf*, uint64_t&, bool); };
static int leb_w(crefl_buf *b, uint64_t v, bool bv) { u64 x = v; return bv ? crefl_leb_u64_write_byval(b, x) : crefl_leb_u64_write(b, &x); }
static bool leb_r(crefl_buf *b, uint64_t &v, bool bv) { u64 x = ~0ull; bool ok; if (bv) { u64_result r = crefl_leb_u64_read_byval(b); ok = r.error == 0; x = r.value; } else ok = crefl_leb_u64_read(b, &x) == 0; v = x; return ok; }
static int vlu_w(crefl_buf *b, uint64_t v, bool bv) { u64 x = v; return bv ? crefl_vlu_u64_write_byval(b, x) : crefl_vlu_u64_write(b, &x); }
static bool vlu_r(crefl_buf *b, uint64_t &v, bool bv) { u64 x = ~0ull; bool ok; if (bv) { u64_result r = crefl_vlu_u64_read_byval(b); ok = r.error == 0; x = r.value; } else ok = crefl_vlu_u64_read(b, &x) == 0; v = x; return ok; }
static const Codec codecs[] = { { "leb", ref::leb, leb_w, leb_r }, { "vlu", ref::vlu, vlu_w, vlu_r } };
static const uint64_t LIMIT = 1ull << 56;

static void one(const Codec &c, uint64_t v)
{
    if (v >= LIMIT) {
        for (int bv = 0; bv < 2; bv++) { Block b(16); crefl_buf q = mkbuf(b); CHECK(c.wr(&q, v, bv) != 0, std::string(c.nm) + ":out_of_range", "%llx written as %s", (unsigned long long)v, hex(b.p, q.data_offset).c_str()); }
        h::stat("out_of_range"); h::evals(2); return;
    }
    bytes want = c.enc(v); h::cover(hash_bytes(want.data(), want.size(), c.nm[0]));
    for (int bv = 0; bv < 2; bv++) {
        std::string k = std::string(c.nm) + (bv ? "_byval:" : ":"); 
        Block b(want.size()); crefl_buf q = mkbuf(b); int rc = c.wr(&q, v, bv);
        CHECK(rc == 0, k + "write", "%llx", (unsigned long long)v); written_is(b, q.data_offset, want, k + "bytes", k.c_str());
        // exactly the bytes, then with other data behind them
        for (int tail = 0; tail < 2; tail++) { bytes in = want; if (tail) { in.push_back(0xff); in.push_back(0x81); }
            Block ib(in); crefl_buf s = mkbuf(ib); uint64_t g; CHECK(c.rd(&s, g, bv) && g == v && s.data_offset == want.size(), k + "read", "%s read as %llx", hex(in).c_str(), (unsigned long long)g); }
        for (size_t n = 0; n < want.size(); n++) { bytes cut(want.begin(), want.begin() + n); Block ib(cut); crefl_buf s = mkbuf(ib); uint64_t g; CHECK(!c.rd(&s, g, bv), k + "truncated", "%s of %s read as %llx", hex(cut).c_str(), hex(want).c_str(), (unsigned long long)g); h::stat("truncations"); }
    }
    h::evals(2);
}
static void random_values(Rng &r, uint64_t) { for (int i = 0; i < 100; i++) { uint64_t v = r.chance(1, 2) ? gen_tag(r) : r.u64(); for (auto &c : codecs) one(c, v); } h::stat("values", 200); }
static void small_values(Rng &, uint64_t k) { for (uint64_t v = k << 8; v < (k + 1) << 8; v++) for (auto &c : codecs) one(c, v); h::stat("values_exhaustive", 512); }
static void arbitrary(Rng &r, uint64_t)
{
    for (int it = 0; it < 200; it++) {
        bytes b = r.bytes(r.below(12)); if (r.chance(1, 2)) for (auto &x : b) if (r.chance(7, 8)) x |= 0x80; if (!b.empty() && r.chance(1, 4)) b[0] = (uint8_t)((r.next() << r.below(8)) | ((1u << r.below(9)) - 1));
        Block ib(b); h::cover(hash_bytes(b.data(), b.size()));
        // LEB128: at most eight groups of seven, last one without the continuation bit
        size_t n = 0; uint64_t v = 0; bool done = false; while (n < b.size() && n < 8) { v |= (uint64_t)(b[n] & 127) << (7 * n); if (!(b[n++] & 128)) { done = true; break; } }
        for (int bv = 0; bv < 2; bv++) { crefl_buf s = mkbuf(ib); uint64_t g; bool ok = leb_r(&s, g, bv); CHECK(ok == done, "leb:verdict", "%s %s", hex(b).c_str(), ok ? "accepted" : "refused"); if (ok) CHECK(g == v && s.data_offset == n, "leb:decode", "%s read as %llx", hex(b).c_str(), (unsigned long long)g); }
        // VLU: unary length in the low bits
        bool vok = !b.empty(); unsigned len = 0; v = 0; if (vok) { while (len < 8 && (b[0] >> len & 1)) len++; len++; vok = len <= 8 && b.size() >= len; if (vok) v = len == 8 ? ref::le_u(b.data(), 8) >> 8 : ref::le_u(b.data(), len) >> len; }
        for (int bv = 0; bv < 2; bv++) { crefl_buf s = mkbuf(ib); uint64_t g; bool ok = vlu_r(&s, g, bv); CHECK(ok == vok, "vlu:verdict", "%s %s", hex(b).c_str(), ok ? "accepted" : "refused"); if (ok) CHECK(g == v && s.data_offset == len, "vlu:decode", "%s read as %llx", hex(b).c_str(), (unsigned long long)g); }
        h::stat(done ? "leb_accepted" : "leb_refused"); h::stat(vok ? "vlu_accepted" : "vlu_refused"); h::evals(4);
    }
}
static void le(Rng &r, uint64_t)
{
    for (int it = 0; it < 100; it++) {
        u64 v = r.u64(); s64 s = (s64)v;
        for (int sg = 0; sg < 2; sg++) {
            bytes c = ref::rev(sg ? ref::s64be(s) : ref::u64be(v)); size_t n = c.size(); h::cover(hash_bytes(c.data(), n, 7 + sg));
            size_t p1 = sg ? crefl_le_ber_integer_s64_length(&s) : crefl_le_ber_integer_u64_length(&v), p2 = sg ? crefl_le_ber_integer_s64_length_byval(s) : crefl_le_ber_integer_u64_length_byval(v);
            CHECK(p1 == n && p2 == n, "le:length", "%llx signed %d predicted %zu/%zu want %zu", v, sg, p1, p2, n);
            size_t w = r.chance(1, 3) ? n + r.below(9 - n) : n; c.resize(w, sg && s < 0 ? 0xff : 0);
            for (int bv = 0; bv < 2; bv++) {
                std::string k = fmt("le:%s%s:", sg ? "s64" : "u64", bv ? "_byval" : "");
                Block b(w); crefl_buf q = mkbuf(b); int rc = sg ? (bv ? crefl_le_ber_integer_s64_write_byval(&q, w, s) : crefl_le_ber_integer_s64_write(&q, w, &s)) : (bv ? crefl_le_ber_integer_u64_write_byval(&q, w, v) : crefl_le_ber_integer_u64_write(&q, w, &v));
                CHECK(rc == 0, k + "write", "%llx in %zu", v, w); written_is(b, q.data_offset, c, k + "bytes", k.c_str());
                for (size_t m = w + 1; m-- > 0;) { bytes cut(c.begin(), c.begin() + m); Block ib(cut); crefl_buf t = mkbuf(ib); u64 g = 0x5555; bool ok;
                    if (sg) { s64 x = 0x5555; if (bv) { s64_result z = crefl_le_ber_integer_s64_read_byval(&t, w); ok = z.error == 0; x = z.value; } else ok = crefl_le_ber_integer_s64_read(&t, w, &x) == 0; g = (u64)x; }
                    else { if (bv) { u64_result z = crefl_le_ber_integer_u64_read_byval(&t, w); ok = z.error == 0; g = z.value; } else ok = crefl_le_ber_integer_u64_read(&t, w, &g) == 0; }
                    if (m == w) CHECK(ok && g == v && t.data_offset == w, k + "read", "%s read as %llx", hex(c).c_str(), g); else CHECK(!ok, k + "truncated", "%s of %zu read as %llx", hex(cut).c_str(), w, g); }
                // widths that do not exist
                size_t bad = r.below(2) ? 0 : 9 + r.below(20); Block bb(40); crefl_buf bq = mkbuf(bb);
                rc = sg ? (bv ? crefl_le_ber_integer_s64_write_byval(&bq, bad, s) : crefl_le_ber_integer_s64_write(&bq, bad, &s)) : (bv ? crefl_le_ber_integer_u64_write_byval(&bq, bad, v) : crefl_le_ber_integer_u64_write(&bq, bad, &v)); CHECK(rc != 0, k + "bad_width_write", "%zu", bad);
                bool e; u64 g; s64 x; if (sg) e = bv ? crefl_le_ber_integer_s64_read_byval(&bq, bad).error != 0 : crefl_le_ber_integer_s64_read(&bq, bad, &x) != 0; else e = bv ? crefl_le_ber_integer_u64_read_byval(&bq, bad).error != 0 : crefl_le_ber_integer_u64_read(&bq, bad, &g) != 0; CHECK(e, k + "bad_width_read", "%zu", bad);
            }
            h::evals(2); h::stat("le_values");
        }
    }
}
static void stream(Rng &r, uint64_t)
{
    size_t n = 1 + r.below(80); bytes want; std::vector<uint64_t> v; std::vector<int> ci; Block b(n * 9); crefl_buf q = mkbuf(b);
    for (size_t i = 0; i < n; i++) { v.push_back(gen_tag(r)); ci.push_back((int)r.below(2)); CHECK(codecs[ci[i]].wr(&q, v[i], r.below(2)) == 0, "stream:write", "%llx", (unsigned long long)v[i]); ref::put(want, codecs[ci[i]].enc(v[i])); }
    written_is(b, q.data_offset, want, "stream:bytes", "stream"); Block in(want); crefl_buf s = mkbuf(in);
    for (size_t i = 0; i < n; i++) { uint64_t g; CHECK(codecs[ci[i]].rd(&s, g, r.below(2)) && g == v[i], "stream:read", "element %zu of %s", i, hex(want).c_str()); }
    CHECK(s.data_offset == want.size(), "stream:end", "x"); h::evals(n); h::stat("stream_values", n); if (h::g_case % 401 == 0) h::sample(fmt("%zu values: %s", n, hex(want).c_str()));
}
FAMILIES({ "small", 256, 4096, small_values }, { "random", 1500, 150000, random_values }, { "arbitrary", 2000, 200000, arbitrary }, { "le", 1200, 100000, le }, { "stream", 1500, 100000, stream })
