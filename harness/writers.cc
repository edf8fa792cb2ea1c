// C15: every writer at every capacity, and the buffer as a bounded byte array with one cursor
#include "asn1ref.h"

// a buffer of `cap` bytes that starts `lead` bytes into its memory position. In the sanitizer build the
// block ends exactly at the capacity; otherwise guard bytes follow.
struct Out {
    size_t cap; Block mem; crefl_buf q;
#ifdef VF_SAN
    enum { guard = 0 };
#else
    enum { guard = 32 };
#endif
    Out(size_t lead, size_t cap) : cap(lead + cap), mem(lead + cap + guard) { q.data = (char*)mem.p; q.data_size = lead + cap; q.data_offset = lead; }
    bool intact(size_t lead) { for (size_t i = 0; i < lead; i++) if (mem.p[i] != 0xA5) return false; for (size_t i = cap; i < mem.n; i++) if (mem.p[i] != 0xA5) return false; return true; }
};
typedef std::function<int(crefl_buf*)> Fn;
static void writer(const char *name, const bytes &want, const Fn &f, Rng &r)
{
    size_t lead = r.below(3) ? 0 : r.below(9);
    for (size_t cap = 0; cap <= want.size() + 1; cap++) {
        if (want.size() > 40 && cap > 24 && cap + 20 < want.size() && r.chance(9, 10)) continue;
        Out o(lead, cap); int rc = f(&o.q); std::string k = std::string(name) + ":";
        CHECK(o.intact(lead), k + "outside", "capacity %zu of %zu for %s", cap, want.size(), hex(want).c_str());
        CHECK(o.q.data_offset <= o.cap && o.q.data_offset >= lead, k + "cursor", "capacity %zu of %zu: cursor %zu", cap, want.size(), o.q.data_offset);
        if (cap >= want.size()) { CHECK(rc == 0, k + "fails", "capacity %zu for %s", cap, hex(want).c_str());
            CHECK(o.q.data_offset == lead + want.size() && (want.empty() || memcmp(o.mem.p + lead, want.data(), want.size()) == 0), k + "bytes", "capacity %zu wrote %s want %s", cap, hex(o.mem.p + lead, o.q.data_offset - lead).c_str(), hex(want).c_str()); 
            for (size_t i = lead + want.size(); i < o.cap; i++) CHECK(o.mem.p[i] == 0xA5, k + "excess", "byte %zu behind the %zu written", i, want.size());
            h::stat("fits"); }
        else { CHECK(rc != 0, k + "succeeds", "capacity %zu but %zu needed for %s", cap, want.size(), hex(want).c_str()); h::stat("does_not_fit"); }
        h::evals();
    }
    h::cover(hash_bytes(want.data(), want.size(), hash_bytes(name, strlen(name)))); h::stat(std::string("writer:") + name);
}
static bytes vfbytes(double d, bool w) { char t[24]; crefl_buf q = { t, 0, sizeof t }; float f = (float)d; int rc = w ? crefl_vf_f64_write(&q, &d) : crefl_vf_f32_write(&q, &f); CHECK(rc == 0, "vf:roomy", "%a", d); return bytes(t, t + q.data_offset); }
static void writers(Rng &r, uint64_t)
{
    for (int it = 0; it < 6; it++) {
        u64 v = r.u64(), t56 = gen_tag(r); s64 s = (s64)r.u64(); double d = gen_f64(r); float f = gen_f32(r); unsigned cls = (unsigned)r.below(4); bool con = r.below(2), bo = r.below(2); asn1_tag tag = (asn1_tag)r.below(31);
        bytes str = r.bytes(r.chance(1, 10) ? 200 + r.below(200) : r.below(30)); asn1_string os = { str.size(), str.data() };
        asn1_oid oid; std::vector<uint64_t> a{ r.below(3), r.below(40) }; for (size_t n = r.below(14); n; n--) a.push_back(gen_tag(r)); oid.count = a.size(); for (size_t i = 0; i < a.size(); i++) oid.oid[i] = a[i];
        size_t uw = ref::u64be(v).size(), sw = ref::s64be(s).size();
        writer("tag", ref::base128(t56), [&](crefl_buf *b) { return crefl_asn1_ber_tag_write(b, t56); }, r);
        writer("ident", ref::ident(cls, con, t56), [&](crefl_buf *b) { return crefl_asn1_ber_ident_write(b, mkid(cls, con, t56)); }, r);
        writer("length", ref::length(v), [&](crefl_buf *b) { return crefl_asn1_ber_length_write(b, v); }, r);
        writer("ber_boolean", { (uint8_t)(bo ? 255 : 0) }, [&](crefl_buf *b) { return crefl_asn1_ber_boolean_write(b, 1, &bo); }, r);
        writer("der_boolean", ref::tlv(tag, { (uint8_t)(bo ? 255 : 0) }), [&](crefl_buf *b) { return crefl_asn1_der_boolean_write(b, tag, &bo); }, r);
        writer("ber_u64", ref::u64be(v), [&](crefl_buf *b) { return crefl_asn1_ber_integer_u64_write(b, uw, &v); }, r);
        writer("ber_u64_byval", ref::u64be(v), [&](crefl_buf *b) { return crefl_asn1_ber_integer_u64_write_byval(b, uw, v); }, r);
        writer("ber_s64", ref::s64be(s), [&](crefl_buf *b) { return crefl_asn1_ber_integer_s64_write(b, sw, &s); }, r);
        writer("ber_s64_byval", ref::s64be(s), [&](crefl_buf *b) { return crefl_asn1_ber_integer_s64_write_byval(b, sw, s); }, r);
        writer("der_u64", ref::tlv(tag, ref::u64be(v)), [&](crefl_buf *b) { return crefl_asn1_der_integer_u64_write(b, tag, &v); }, r);
        writer("der_u64_byval", ref::tlv(tag, ref::u64be(v)), [&](crefl_buf *b) { return crefl_asn1_der_integer_u64_write_byval(b, tag, v); }, r);
        writer("der_s64", ref::tlv(tag, ref::s64be(s)), [&](crefl_buf *b) { return crefl_asn1_der_integer_s64_write(b, tag, &s); }, r);
        writer("der_s64_byval", ref::tlv(tag, ref::s64be(s)), [&](crefl_buf *b) { return crefl_asn1_der_integer_s64_write_byval(b, tag, s); }, r);
        writer("le_u64", ref::rev(ref::u64be(v)), [&](crefl_buf *b) { return crefl_le_ber_integer_u64_write(b, uw, &v); }, r);
        writer("le_u64_byval", ref::rev(ref::u64be(v)), [&](crefl_buf *b) { return crefl_le_ber_integer_u64_write_byval(b, uw, v); }, r);
        writer("le_s64", ref::rev(ref::s64be(s)), [&](crefl_buf *b) { return crefl_le_ber_integer_s64_write(b, sw, &s); }, r);
        writer("le_s64_byval", ref::rev(ref::s64be(s)), [&](crefl_buf *b) { return crefl_le_ber_integer_s64_write_byval(b, sw, s); }, r);
        bytes rc = ref::real(d); size_t rn = rc.size(); if (d == 0 && !std::signbit(d) && crefl_asn1_ber_real_f64_length(&d) == 0) { rc.clear(); rn = 0; }
        writer("ber_real", rc, [&](crefl_buf *b) { return crefl_asn1_ber_real_f64_write(b, rn, &d); }, r);
        writer("ber_real_byval", rc, [&](crefl_buf *b) { return crefl_asn1_ber_real_f64_write_byval(b, rn, d); }, r);
        writer("der_real", ref::tlv(tag, rc), [&](crefl_buf *b) { return crefl_asn1_der_real_f64_write(b, tag, &d); }, r);
        writer("der_real_byval", ref::tlv(tag, rc), [&](crefl_buf *b) { return crefl_asn1_der_real_f64_write_byval(b, tag, d); }, r);
        bytes v64 = vfbytes(d, true), v32 = vfbytes(f, false);
        writer("vf_f64", v64, [&](crefl_buf *b) { return crefl_vf_f64_write(b, &d); }, r);
        writer("vf_f64_byval", v64, [&](crefl_buf *b) { return crefl_vf_f64_write_byval(b, d); }, r);
        writer("vf_f32", v32, [&](crefl_buf *b) { return crefl_vf_f32_write(b, &f); }, r);
        writer("vf_f32_byval", v32, [&](crefl_buf *b) { return crefl_vf_f32_write_byval(b, f); }, r);
        writer("leb", ref::leb(t56), [&](crefl_buf *b) { return crefl_leb_u64_write(b, &t56); }, r);
        writer("leb_byval", ref::leb(t56), [&](crefl_buf *b) { return crefl_leb_u64_write_byval(b, t56); }, r);
        writer("vlu", ref::vlu(t56), [&](crefl_buf *b) { return crefl_vlu_u64_write(b, &t56); }, r);
        writer("vlu_byval", ref::vlu(t56), [&](crefl_buf *b) { return crefl_vlu_u64_write_byval(b, t56); }, r);
        writer("ber_oid", ref::oid(a), [&](crefl_buf *b) { return crefl_asn1_ber_oid_write(b, ref::oid(a).size(), &oid); }, r);
        writer("der_oid", ref::tlv(tag, ref::oid(a)), [&](crefl_buf *b) { return crefl_asn1_der_oid_write(b, tag, &oid); }, r);
        writer("ber_octets", str, [&](crefl_buf *b) { return crefl_asn1_ber_octets_write(b, str.size(), &os); }, r);
        writer("der_octets", ref::tlv(tag, str), [&](crefl_buf *b) { return crefl_asn1_der_octets_write(b, tag, &os); }, r);
        writer("der_null", ref::tlv(tag, {}), [&](crefl_buf *b) { return crefl_asn1_der_null_write(b, tag); }, r);
        writer("ber_null", {}, [&](crefl_buf *b) { return crefl_asn1_ber_null_write(b, 0); }, r);
        // widths the caller gets wrong
        size_t bad = r.chance(1, 2) ? 9 + r.below(30) : (size_t)r.u64() | 16; Out o(0, 48);
        int e = crefl_asn1_ber_integer_u64_write(&o.q, bad, &v) == 0; e |= crefl_asn1_ber_integer_u64_write_byval(&o.q, bad, v) == 0; e |= crefl_asn1_ber_integer_s64_write(&o.q, bad, &s) == 0; e |= crefl_asn1_ber_integer_s64_write_byval(&o.q, bad, s) == 0;
        e |= crefl_asn1_ber_integer_u64_write(&o.q, 0, &v) == 0; e |= crefl_asn1_ber_null_write(&o.q, 1 + r.below(9)) == 0;
        CHECK(!e && o.q.data_offset == 0, "bad_width", "%zu", bad);
        size_t much = r.chance(1, 2) ? 49 + r.below(100) : (size_t)0 - 1 - r.below(100); CHECK(crefl_asn1_ber_octets_write(&o.q, much, &os) != 0 && o.intact(0), "octets:huge", "%zu", much);
    }
}
// a writer continues behind an earlier one, and fails when the rest is too small, leaving what was written
static void fill(Rng &r, uint64_t)
{
    size_t cap = r.below(120); Out o(0, cap); bytes model;
    for (int i = 0; i < 200; i++) {
        u64 v = r.u64(); bytes w; int rc; double d = gen_f64(r); size_t at = o.q.data_offset;
        switch (r.below(5)) {
        case 0: w = ref::tlv(2, ref::u64be(v)); rc = crefl_asn1_der_integer_u64_write(&o.q, asn1_tag_integer, &v); break;
        case 1: v &= (1ull << 56) - 1; w = ref::leb(v); rc = crefl_leb_u64_write(&o.q, &v); break;
        case 2: w = ref::tlv(9, ref::real(d)); rc = crefl_asn1_der_real_f64_write(&o.q, asn1_tag_real, &d); break;
        case 3: w = ref::length(v); rc = crefl_asn1_ber_length_write(&o.q, v); break;
        default: v &= (1ull << 56) - 1; w = ref::vlu(v); rc = crefl_vlu_u64_write_byval(&o.q, v); break;
        }
        CHECK(o.intact(0) && o.q.data_offset <= cap, "fill:outside", "at %zu", at);
        if (at + w.size() <= cap) { CHECK(rc == 0, "fill:fails", "%zu bytes at %zu of %zu", w.size(), at, cap); model.insert(model.begin() + at, w.begin(), w.end()); model.resize(at + w.size()); }
        else { CHECK(rc != 0, "fill:succeeds", "%zu bytes at %zu of %zu", w.size(), at, cap); h::stat("fill_refused"); }
        CHECK(at == 0 || memcmp(o.mem.p, model.data(), at) == 0, "fill:disturbed", "before %zu", at);
        if (rc != 0) { crefl_buf_seek(&o.q, at); if (r.chance(1, 4)) break; }
        h::evals();
    }
}
// operation sequences against a byte array with a cursor
static void ops(Rng &r, uint64_t)
{
    size_t n = r.chance(1, 8) ? 0 : r.below(80); crefl_buf *heap = r.chance(1, 2) ? crefl_buf_new(n) : nullptr; Block mem(n); crefl_buf loc = mkbuf(mem), *q = heap ? heap : &loc;
    bytes m(n, heap ? 0 : 0xA5); size_t cur = 0; std::string log;
    auto body = [&]() {
        for (int i = 0; i < 60; i++) {
            bool in = cur <= n; size_t left = in ? n - cur : 0; uint64_t v = r.u64();
            #define WR(T, B) { bool fit = left >= B / 8, un = fit && r.chance(1, 3); size_t k = un ? crefl_buf_write_unchecked_i##B(q, (T)v) : crefl_buf_write_i##B(q, (T)v); log += "w" #B " "; CHECK(k == (fit ? B / 8 : 0), "ops:write_i" #B, "returned %zu with %zu left, %s", k, left, log.c_str()); if (fit) { for (int j = 0; j < B / 8; j++) m[cur + j] = (uint8_t)(v >> (8 * j)); cur += B / 8; } }
            #define RD(T, B) { T x = 0; bool fit = left >= B / 8, un = fit && r.chance(1, 3); size_t k = un ? crefl_buf_read_unchecked_i##B(q, &x) : crefl_buf_read_i##B(q, &x); log += "r" #B " "; CHECK(k == (fit ? B / 8 : 0), "ops:read_i" #B, "returned %zu with %zu left, %s", k, left, log.c_str()); if (fit) { uint64_t w = ref::le_u(&m[cur], B / 8); CHECK((T)w == x, "ops:read_value" #B, "%s", log.c_str()); cur += B / 8; } }
            switch (r.below(14)) {
            case 0: WR(int8_t, 8) break; case 1: WR(int16_t, 16) break; case 2: WR(int32_t, 32) break; case 3: WR(int64_t, 64) break;
            case 4: RD(int8_t, 8) break; case 5: RD(int16_t, 16) break; case 6: RD(int32_t, 32) break; case 7: RD(int64_t, 64) break;
            case 8: case 9: { size_t k = r.below(left + 4); Block s(r.bytes(k)); log += fmt("wb%zu ", k); bool fit = in && k <= left; size_t g = fit && r.chance(1, 3) ? crefl_buf_write_bytes_unchecked(q, (char*)s.p, k) : crefl_buf_write_bytes(q, (char*)s.p, k); CHECK(g == (fit ? k : 0), "ops:write_bytes", "%s returned %zu", log.c_str(), g); if (fit) { for (size_t j = 0; j < k; j++) m[cur + j] = s.p[j]; cur += k; } break; }
            case 10: { size_t k = r.below(left + 4); Block d(k); log += fmt("rb%zu ", k); bool fit = in && k <= left; size_t g = fit && r.chance(1, 3) ? crefl_buf_read_bytes_unchecked(q, (char*)d.p, k) : crefl_buf_read_bytes(q, (char*)d.p, k); CHECK(g == (fit ? k : 0), "ops:read_bytes", "%s returned %zu", log.c_str(), g); if (fit) { CHECK(k == 0 || memcmp(d.p, &m[cur], k) == 0, "ops:read_bytes_value", "%s", log.c_str()); cur += k; } break; }
            case 11: { size_t k = r.chance(1, 2) ? (size_t)0 - 1 - r.below(200) : ((size_t)1 << 63) + r.below(9); char one[1]; log += "huge "; CHECK(crefl_buf_write_bytes(q, one, k) == 0 && crefl_buf_read_bytes(q, one, k) == 0, "ops:huge", "%s", log.c_str()); h::stat("huge_lengths"); break; }
            case 12: cur = r.chance(1, 8) ? n + 1 + r.below(5) : r.chance(1, 12) ? (size_t)0 - r.below(9) : r.below(n + 1); log += fmt("seek%zu ", cur); crefl_buf_seek(q, cur); break;
            default: if (r.chance(1, 2)) { cur = 0; log += "reset "; crefl_buf_reset(q); } else { crefl_span s = crefl_buf_remaining(q); size_t c = std::min(cur, n); CHECK(s.length == n - c && s.data == crefl_buf_data(q) + c, "ops:remaining", "%s length %zu", log.c_str(), s.length); }
            }
            CHECK(crefl_buf_offset(q) == cur, "ops:cursor", "%s at %zu want %zu", log.c_str(), crefl_buf_offset(q), cur);
            CHECK(n == 0 || memcmp(crefl_buf_data(q), m.data(), n) == 0, "ops:content", "%s", log.c_str());
            h::evals(); h::stat("buffer_ops");
        }
    };
    try { body(); } catch (const CaseFail&) { if (heap) crefl_buf_destroy(heap); throw; }
    h::cover(hash_str(log)); if (h::g_case % 997 == 0) h::sample(fmt("buffer of %zu: %s", n, log.c_str()));
    if (heap) crefl_buf_destroy(heap);
}
static std::string captured(const std::function<void()> &f)
{
    fflush(stdout); int old = dup(1); FILE *t = tmpfile(); dup2(fileno(t), 1); f(); fflush(stdout); dup2(old, 1); close(old);
    std::string s; long n = ftell(t); fseek(t, 0, SEEK_END); n = ftell(t); s.resize((size_t)n); rewind(t); if (n) n = (long)fread(&s[0], 1, (size_t)n, t); fclose(t); return s;
}
static void dump(Rng &r, uint64_t)
{
    size_t n = r.below(70); Block b(r.bytes(n)); crefl_buf q = mkbuf(b); q.data_offset = r.below(4) ? r.below(n + 1) : r.below(4) ? n + r.below(40) : n + r.below(4000); size_t want = std::min(n, q.data_offset); std::string out = captured([&] { crefl_buf_dump(&q); });
    std::vector<int> got; std::vector<int> row; for (size_t p = 0; p < out.size();) { size_t e = out.find('\n', p); if (e == std::string::npos) e = out.size(); std::string l = out.substr(p, e - p); p = e + 1; if (l.find("0x") == std::string::npos) continue; row.clear(); for (size_t i = 0; (i = l.find("0x", i)) != std::string::npos; i += 2) row.push_back((int)strtol(l.c_str() + i, 0, 16)); got.insert(got.end(), row.rbegin(), row.rend()); }
    CHECK(got.size() == want, "dump:count", "%zu bytes shown of %zu with the cursor at %zu", got.size(), n, q.data_offset); if (q.data_offset > n) h::stat("dumps_with_cursor_behind_end"); for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == b.p[i], "dump:byte", "byte %zu shown as %02x is %02x", i, got[i], b.p[i]);
    for (int c = 0; c < 256; c++) { size_t cap = r.below(16); Block t(cap); crefl_format_byte((char*)t.p, cap, (uint8_t)c); }
    h::evals(257); h::stat("dumps");
}
FAMILIES({ "writers", 500, 40000, writers }, { "fill", 2000, 100000, fill }, { "ops", 15000, 1000000, ops }, { "dump", 200, 5000, dump })
