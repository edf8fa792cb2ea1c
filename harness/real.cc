// C10: ASN.1 REAL
#include "asn1ref.h"
using ref::Verdict; using ref::ACCEPT; using ref::REJECT; using ref::EITHER;

static void roundtrip1(double v, unsigned slack)
{
    bytes c = ref::real(v), want = ref::tlv(9, c); bool zero = v == 0 && !std::signbit(v);
    size_t n = crefl_asn1_ber_real_f64_length(&v), n2 = crefl_asn1_ber_real_f64_length_byval(v);
    std::string id = fmt("%a (%016llx)", v, (unsigned long long)ref::dbits(v));
    if (zero && n == 0) { c.clear(); want = ref::tlv(9, c); }       // X.690 8.5.2 form of plus zero
    CHECK(n == c.size() && n2 == n, "real:length", "%s predicted %zu/%zu want %zu", id.c_str(), n, n2, c.size());
    for (int bv = 0; bv < 2; bv++) {
        std::string k = bv ? "real_byval:" : "real:";
        Block b(c.size() + slack), d(want.size() + slack); crefl_buf q = mkbuf(b), dq = mkbuf(d);
        int rc = bv ? crefl_asn1_ber_real_f64_write_byval(&q, n, v) : crefl_asn1_ber_real_f64_write(&q, n, &v);
        CHECK(rc == 0, k + "write", "%s", id.c_str()); written_is(b, q.data_offset, c, k + "bytes", id.c_str());
        rc = bv ? crefl_asn1_der_real_f64_write_byval(&dq, asn1_tag_real, v) : crefl_asn1_der_real_f64_write(&dq, asn1_tag_real, &v);
        CHECK(rc == 0, k + "der_write", "%s", id.c_str()); written_is(d, dq.data_offset, want, k + "der_bytes", id.c_str());
        Block bi(c), di(want); crefl_buf bq = mkbuf(bi), eq = mkbuf(di); double x = 5, y = 5; int e1, e2;
        if (bv) { f64_result a = crefl_asn1_ber_real_f64_read_byval(&bq, n), e = crefl_asn1_der_real_f64_read_byval(&eq, asn1_tag_real); e1 = (int)a.error; e2 = (int)e.error; x = a.value; y = e.value; }
        else { e1 = crefl_asn1_ber_real_f64_read(&bq, n, &x); e2 = crefl_asn1_der_real_f64_read(&eq, asn1_tag_real, &y); }
        CHECK(e1 == 0 && same(x, v) && bq.data_offset == c.size(), k + "read", "%s from %s gave %a error %d", id.c_str(), hex(c).c_str(), x, e1);
        CHECK(e2 == 0 && same(y, v) && eq.data_offset == want.size(), k + "der_read", "%s from %s gave %a error %d", id.c_str(), hex(want).c_str(), y, e2);
    }
    h::evals(2); h::cover(ref::dbits(v));
}
static void roundtrip(Rng &r, uint64_t)
{
    for (int i = 0; i < 200; i++) roundtrip1(gen_f64(r), (unsigned)r.below(3));
    h::stat("random_doubles", 200);
}
// every exponent (subnormal positions included) x mantissa shapes
static void grid(Rng &r, uint64_t e)
{
    for (int s = 0; s < 2; s++) for (int k = 0; k <= 52; k++) for (int shape = 0; shape < 3; shape++) {
        uint64_t m = shape == 0 ? (k < 52 ? 1ull << k : 0) : shape == 1 ? (~0ull << k) : (~0ull >> (12 + (k < 52 ? k : 51)));
        m &= (1ull << 52) - 1; 
        roundtrip1(ref::bitsd((uint64_t)s << 63 | e << 52 | m), 0);
    }
    h::stat("exponents_covered");
}
// what accepted contents must denote
static void judge_value(const bytes &c, double got, bool ok, const char *which)
{
    ref::Real w; Verdict v = ref::real_value(c.data(), c.size(), w); std::string hx = hex(c);
    if (v == REJECT) { CHECK(!ok, "decode:accepts_invalid", "%s %s gave %a", which, hx.c_str(), got); h::stat("invalid_refused"); return; }
    if (w.special) { if (v == ACCEPT) CHECK(ok, "decode:refuses_valid", "%s %s", which, hx.c_str()); if (ok) CHECK(same(got, w.value), "decode:special", "%s %s gave %a", which, hx.c_str(), got); h::stat("special"); return; }
    if (w.decimal) { 
        if (ok && !c.empty() && !(c[0] & 0x80)) { std::string t((const char*)c.data() + 1, c.size() - 1); for (auto &x : t) if (x == ',') x = '.'; char *end; double d = strtod(t.c_str(), &end); CHECK(std::fabs(got - d) <= std::fabs(d) * 1e-12, "decode:decimal", "%s %s gave %a", which, hx.c_str(), got); }
        h::stat("unsupported_form"); return; }
    // sign * frac * 2^exp
    if (w.frac == 0) { if (ok) CHECK(got == 0, "decode:zero", "%s %s gave %a", which, hx.c_str(), got); if (v == ACCEPT && w.exp == 0 && !w.neg && c.size() == 3) CHECK(ok, "decode:refuses_zero", "%s", hx.c_str()); h::stat("zero_mantissa"); return; }
    int top = 63 - __builtin_clzll(w.frac), tz = __builtin_ctzll(w.frac); int64_t x = w.exp + top;
    bool representable = x <= 1023 && top - tz <= 52 && w.exp + tz >= -1074;
    if (x > 1023) { if (ok) CHECK(std::isinf(got) && std::signbit(got) == w.neg, "decode:overflow", "%s %s gave %a", which, hx.c_str(), got); h::stat("overflow"); return; }
    if (x < -1075 - 2) { if (ok) CHECK(got == 0 || (std::fabs(got) <= 5e-324 && std::signbit(got) == w.neg), "decode:underflow", "%s %s gave %a", which, hx.c_str(), got); h::stat("underflow"); return; }
    long double val = ldexpl((long double)w.frac, (int)w.exp); if (w.neg) val = -val;
    if (representable) { if (v == ACCEPT) CHECK(ok, "decode:refuses_representable", "%s %s", which, hx.c_str()); if (ok) CHECK((long double)got == val, "decode:value", "%s %s gave %a want %La", which, hx.c_str(), got, val); h::stat("representable"); }
    else { if (ok) CHECK((std::isinf(got) || (long double)nextafter(got, -HUGE_VAL) < val) && (std::isinf(got) || (long double)nextafter(got, HUGE_VAL) > val) && (!std::isinf(got) || val * (w.neg ? -1 : 1) > DBL_MAX), "decode:rounding", "%s %s gave %a want %La", which, hx.c_str(), got, val); h::stat("rounded"); }
}
static void decode(Rng &r, uint64_t)
{
    for (int it = 0; it < 100; it++) {
        bytes c; uint64_t sh = r.below(10);
        if (sh == 0) c = r.bytes(r.below(12));
        else if (sh == 1) { c = { (uint8_t)(0x40 | r.below(64)) }; if (r.chance(1, 4)) ref::put(c, r.bytes(1 + r.below(3))); }
        else if (sh == 2) { c = { (uint8_t)r.below(4) }; std::string t = fmt("%g", gen_f64(r)); ref::put(c, bytes(t.begin(), t.end())); }
        else {
            unsigned base = r.chance(7, 8) ? 0 : (unsigned)r.below(4), f = r.chance(7, 8) ? 0 : (unsigned)r.below(4), em = r.chance(9, 10) ? (unsigned)r.below(2) : (unsigned)r.below(4);
            c = { (uint8_t)(0x80 | r.below(2) << 6 | base << 4 | f << 2 | em) };
            size_t el = em < 3 ? em + 1 : 1 + r.below(4); if (em == 3) c.push_back((uint8_t)el);
            int64_t e = r.chance(1, 3) ? r.range(-1080, -1000) : r.chance(1, 3) ? r.range(940, 1030) : r.chance(1, 4) ? (int64_t)r.u64() : r.range(-130, 130);
            for (size_t i = el; i-- > 0;) c.push_back((uint8_t)((uint64_t)e >> (8 * i)));
            uint64_t m = r.u64(); bytes mb = ref::u64be(m); if (r.chance(1, 6)) mb.insert(mb.begin(), r.below(5), 0); if (r.chance(1, 20)) mb.insert(mb.begin(), 1 + r.below(3), (uint8_t)r.next()); if (r.chance(1, 20)) mb.clear(); ref::put(c, mb);
            if (r.chance(1, 20)) c.resize(r.below(c.size() + 1));
        }
        h::cover(hash_bytes(c.data(), c.size()));
        Block b(c), d(ref::tlv(9, c)); crefl_buf q = mkbuf(b), dq = mkbuf(d); double x = 7, y = 7;
        bool ok = crefl_asn1_ber_real_f64_read(&q, c.size(), &x) == 0; judge_value(c, x, ok, "ber");
        if (ok) CHECK(q.data_offset == c.size(), "decode:consumed", "%s %zu", hex(c).c_str(), q.data_offset);
        q.data_offset = 0; f64_result z = crefl_asn1_ber_real_f64_read_byval(&q, c.size()); judge_value(c, z.value, z.error == 0, "ber_byval");
        CHECK((z.error == 0) == ok && (!ok || same(x, z.value)), "decode:byval", "%s", hex(c).c_str());
        bool ok2 = crefl_asn1_der_real_f64_read(&dq, asn1_tag_real, &y) == 0; judge_value(c, y, ok2, "der");
        dq.data_offset = 0; z = crefl_asn1_der_real_f64_read_byval(&dq, asn1_tag_real); judge_value(c, z.value, z.error == 0, "der_byval");
        if (it == 7 && h::g_case % 199 == 0) h::sample(fmt("contents %s %s %a", hex(c).c_str(), ok ? "->" : "refused", x));
        h::evals(4);
    }
}
// contents that continue past the length given belong to the next element
static void bounded(Rng &r, uint64_t)
{
    for (int it = 0; it < 40; it++) {
        bytes c = ref::real(gen_f64(r)), all = c; ref::put(all, r.bytes(1 + r.below(8))); size_t len = r.below(c.size() + 1); bytes head(all.begin(), all.begin() + len);
        Block b(all); crefl_buf q = mkbuf(b); double x = 7; bool ok = crefl_asn1_ber_real_f64_read(&q, len, &x) == 0; judge_value(head, x, ok, "bounded");
        if (ok) CHECK(q.data_offset == len, "bounded:consumed", "%s len %zu consumed %zu", hex(all).c_str(), len, q.data_offset);
        q.data_offset = 0; f64_result z = crefl_asn1_ber_real_f64_read_byval(&q, len); judge_value(head, z.value, z.error == 0, "bounded_byval"); h::evals(2);
    }
}
FAMILIES({ "grid", 2048, 2048, grid }, { "roundtrip", 3000, 400000, roundtrip }, { "decode", 4000, 400000, decode }, { "bounded", 1000, 50000, bounded })
