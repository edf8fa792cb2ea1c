// C11 (round trip of every float) and C12 (arbitrary input): variable-length floats, docs/vf128.md
#include "asn1ref.h"
using ref::Verdict; using ref::ACCEPT; using ref::REJECT; using ref::EITHER;

// one interface to both widths
struct W64 { typedef double F; typedef uint64_t U; enum { ms = 52, bias = 1023 }; static const char *nm() { return "f64"; }
    static U bits(F f) { return ref::dbits(f); } static F make(U u) { return ref::bitsd(u); }
    static int wr(crefl_buf *b, F v, bool bv) { return bv ? crefl_vf_f64_write_byval(b, v) : crefl_vf_f64_write(b, &v); }
    static bool rd(crefl_buf *b, F &v, bool bv) { if (bv) { f64_result r = crefl_vf_f64_read_byval(b); v = r.value; return r.error == 0; } return crefl_vf_f64_read(b, &v) == 0; } };
struct W32 { typedef float F; typedef uint32_t U; enum { ms = 23, bias = 127 }; static const char *nm() { return "f32"; }
    static U bits(F f) { return ref::fbits(f); } static F make(U u) { return ref::bitsf(u); }
    static int wr(crefl_buf *b, F v, bool bv) { return bv ? crefl_vf_f32_write_byval(b, v) : crefl_vf_f32_write(b, &v); }
    static bool rd(crefl_buf *b, F &v, bool bv) { if (bv) { f32_result r = crefl_vf_f32_read_byval(b); v = r.value; return r.error == 0; } return crefl_vf_f32_read(b, &v) == 0; } };

static unsigned slen(int64_t v) { unsigned n = 1; while (n < 8 && (v < -(1ll << (8 * n - 1)) || v >= (1ll << (8 * n - 1)))) n++; return n; }
static unsigned ulen(uint64_t v) { unsigned n = 1; while (n < 8 && (v >> (8 * n))) n++; return n; }

// m * 2^e with m odd, of a finite non-zero float
template <class W> static void split(typename W::F f, uint64_t &m, int64_t &e)
{
    uint64_t b = W::bits(f); int x = (int)((b >> W::ms) & (2 * W::bias + 1)); m = b & ((1ull << W::ms) - 1);
    e = (x ? x : 1) - W::bias - W::ms; if (x) m |= 1ull << W::ms;
    int t = __builtin_ctzll(m); m >>= t; e += t;
}

// what the documentation asks of the octets written for f
template <class W> static void format(const uint8_t *p, size_t n, typename W::F f, const std::string &k, const std::string &id)
{
    std::string hx = hex(p, n); ref::Vf d = ref::vf(p, n);
    CHECK(d.v == ACCEPT && d.used == n, k + "format", "%s written as %s", id.c_str(), hx.c_str());
    bool ext = p[0] & 0x80; unsigned ex = (p[0] >> 4) & 3, mn = p[0] & 15;
    if (std::isnan(f)) { CHECK(!ext && d.cls == 3 && n == 1 && mn == 8, k + "nan", "%s written as %s", id.c_str(), hx.c_str()); return; }
    CHECK(d.neg == (bool)std::signbit(f), k + "sign", "%s written as %s", id.c_str(), hx.c_str());
    if (std::isinf(f)) { CHECK(!ext && d.cls == 2 && n == 1, k + "inf", "%s written as %s", id.c_str(), hx.c_str()); return; }
    if (f == 0) { CHECK(!ext && d.cls == 0 && n == 1, k + "zero", "%s written as %s", id.c_str(), hx.c_str()); return; }
    uint64_t m; int64_t e; split<W>(f, m, e);
    CHECK(d.cls == 1 && d.m == m && d.e == e, k + "denotes", "%s written as %s", id.c_str(), hx.c_str());
    unsigned top = 63 - (unsigned)__builtin_clzll(m); int64_t x = e + top;
    // float7: a multiple of 1/16 below 1, of 1/16 below 2, of 1/8 below 4
    bool inl = x <= 1 && (x < 1 ? e >= -4 : e >= -3);
    CHECK(inl == !ext, k + "inline", "%s written as %s", id.c_str(), hx.c_str());
    if (!ext) return;
    if (m == 1) { CHECK(mn == 0 && ex == slen(x), k + "power_of_two", "%s written as %s", id.c_str(), hx.c_str()); return; }
    if (ex == 0) { CHECK(x <= -1 && x >= -8, k + "unary_range", "%s written as %s", id.c_str(), hx.c_str()); CHECK(mn == ulen(m << (-x - 1)), k + "unary_minimal", "%s written as %s", id.c_str(), hx.c_str()); }
    else { CHECK(ex == slen(x) && mn == ulen(m), k + "minimal", "%s written as %s", id.c_str(), hx.c_str()); CHECK(p[1 + ex] & 1, k + "trailing_zeros", "%s written as %s", id.c_str(), hx.c_str()); }
    CHECK(n <= 1 + slen(x) + ulen(m), k + "compact", "%s written as %s", id.c_str(), hx.c_str());
}
template <class W> static void rt(typename W::F f)
{
    std::string id; uint8_t first[24]; size_t fn = 0;
    for (int bv = 0; bv < 2; bv++) {
        uint8_t tmp[24]; memset(tmp, 0xA5, sizeof tmp); crefl_buf q = { (char*)tmp, 0, sizeof tmp };
        int rc = W::wr(&q, f, bv); size_t n = q.data_offset;
        if (id.empty()) id = fmt("%s %a (%llx)", W::nm(), (double)f, (unsigned long long)W::bits(f));
        std::string k = std::string(W::nm()) + (bv ? "_byval:" : ":");
        CHECK(rc == 0 && n >= 1 && n <= 17, k + "write", "%s", id.c_str());
        for (size_t i = n; i < sizeof tmp; i++) CHECK(tmp[i] == 0xA5, k + "excess", "%s wrote behind its %zu bytes", id.c_str(), n);
        if (!bv) { memcpy(first, tmp, fn = n); format<W>(tmp, n, f, k, id); }
        else CHECK(n == fn && memcmp(first, tmp, n) == 0, k + "same_bytes", "%s pointer %s byval %s", id.c_str(), hex(first, fn).c_str(), hex(tmp, n).c_str());
        crefl_buf s = { (char*)tmp, 0, n }; typename W::F g = 42; bool ok = W::rd(&s, g, bv);
        CHECK(ok && s.data_offset == n, k + "read", "%s from %s consumed %zu", id.c_str(), hex(tmp, n).c_str(), s.data_offset);
        CHECK(std::isnan(f) ? std::isnan(g) : W::bits(f) == W::bits(g), k + "value", "%s from %s gave %a", id.c_str(), hex(tmp, n).c_str(), (double)g);
    }
    h::evals(2);
}
// fast path without strings for the sweeps; falls into rt() to describe a failure
template <class W> static void rt_fast(typename W::F f)
{
    char t[24], u[24]; crefl_buf q = { t, 0, sizeof t }, q2 = { u, 0, sizeof u }; typename W::F g = 42, g2 = 43;
    bool ok = W::wr(&q, f, false) == 0 && W::wr(&q2, f, true) == 0 && q.data_offset == q2.data_offset && memcmp(t, u, q.data_offset) == 0;
    if (ok) { crefl_buf s = { t, 0, q.data_offset }, s2 = s; ok = W::rd(&s, g, false) && W::rd(&s2, g2, true) && s.data_offset == q.data_offset && s2.data_offset == q.data_offset &&
        (std::isnan(f) ? std::isnan(g) && std::isnan(g2) : W::bits(f) == W::bits(g) && W::bits(f) == W::bits(g2)); }
    if (!ok) { rt<W>(f); h::viol(std::string(W::nm()) + ":sweep", fmt("%llx", (unsigned long long)W::bits(f))); throw CaseFail(); }
}
static void random64(Rng &r, uint64_t) { for (int i = 0; i < 300; i++) { double f = gen_f64(r); rt<W64>(f); h::cover(ref::dbits(f)); } h::stat("f64_random", 300); }
static void random32(Rng &r, uint64_t) { for (int i = 0; i < 300; i++) { float f = gen_f32(r); rt<W32>(f); h::cover(mix64(ref::fbits(f))); } h::stat("f32_random", 300); }
static void grid64(Rng &, uint64_t e)
{
    for (int s = 0; s < 2; s++) for (int k = 0; k <= 52; k++) for (int j = 0; j < 4; j++) {
        uint64_t m = j == 0 ? (k < 52 ? 1ull << k : 0) : j == 1 ? ~0ull << k : j == 2 ? ~0ull >> (12 + (k < 52 ? k : 51)) : (1ull << 51 | (k < 52 ? 1ull << k : 0));
        double f = ref::bitsd((uint64_t)s << 63 | e << 52 | (m & ((1ull << 52) - 1))); rt<W64>(f); h::cover(ref::dbits(f));
    }
    h::stat("f64_exponents");
}
static void grid32(Rng &, uint64_t e)
{
    for (int s = 0; s < 2; s++) for (int a = 0; a <= 23; a++) for (int b = 0; b <= 23; b++) {
        uint32_t m = ((a < 23 ? 1u << a : 0) | (b < 23 ? 1u << b : 0)); for (int j = 0; j < 2; j++) { float f = ref::bitsf((uint32_t)s << 31 | (uint32_t)e << 23 | ((j ? ~m : m) & 0x7fffff)); rt<W32>(f); h::cover(mix64(ref::fbits(f))); }
    }
    h::stat("f32_exponents");
}
// every float: 2^32 patterns in blocks. quick takes one in 331 of each block, thorough all of them
static void sweep32(Rng &r, uint64_t k)
{
    uint32_t step = h::g_tier ? 1 : 331, at = h::g_tier ? 0 : (uint32_t)r.below(331); uint64_t n = 0;
    for (uint64_t i = at; i < (1u << 20); i += step) { float f = ref::bitsf((uint32_t)(k << 20 | i)); rt_fast<W32>(f); n++; }
    h::stat("f32_sweep", n); h::evals(n); h::cover(mix64(k + 99));
}
// several values one behind the other
static void stream(Rng &r, uint64_t)
{
    size_t n = 1 + r.below(60); Block b(n * 17); crefl_buf q = mkbuf(b); std::vector<double> v; std::vector<int> w;
    for (size_t i = 0; i < n; i++) { int wide = (int)r.below(2); double f = wide ? gen_f64(r) : (double)gen_f32(r); bool bv = r.below(2);
        CHECK((wide ? W64::wr(&q, f, bv) : W32::wr(&q, (float)f, bv)) == 0, "stream:write", "element %zu", i); v.push_back(f); w.push_back(wide); }
    bytes all(b.p, b.p + q.data_offset); Block in(all); crefl_buf s = mkbuf(in);
    for (size_t i = 0; i < n; i++) { bool bv = r.below(2); if (w[i]) { double g; CHECK(W64::rd(&s, g, bv) && same(g, v[i]), "stream:read", "element %zu of %s", i, hex(all).c_str()); } else { float g; CHECK(W32::rd(&s, g, bv) && samef(g, (float)v[i]), "stream:read", "element %zu of %s", i, hex(all).c_str()); } }
    CHECK(s.data_offset == all.size(), "stream:end", "%zu of %zu", s.data_offset, all.size()); h::evals(n); h::stat("stream_values", n);
    if (h::g_case % 211 == 0) h::sample(fmt("%zu values: %s", n, hex(all).c_str()));
}

// ---- C12 -------------------------------------------------------------------------------------
template <class W> static void judge(const bytes &in, const bytes &id)
{
    Block b(in); ref::Vf d = ref::vf(in.data(), in.size()); typename W::F f[2]; bool ok[2];
    for (int bv = 0; bv < 2; bv++) {
        std::string k = std::string(W::nm()) + (bv ? "_byval:" : ":"); crefl_buf q = mkbuf(b); f[bv] = 42; ok[bv] = W::rd(&q, f[bv], bv); std::string hx = hex(in);
        CHECK(q.data_offset <= q.data_size, k + "beyond", "%s", hx.c_str());
        if (d.v == REJECT) { CHECK(!ok[bv], k + "accepts_truncated", "%s gave %a", hx.c_str(), (double)f[bv]); h::stat("truncated"); continue; }
        if (d.v == ACCEPT) CHECK(ok[bv], k + "refuses_valid", "%s", hx.c_str());
        if (!ok[bv]) { h::stat("refused"); continue; }
        CHECK(q.data_offset == d.used, k + "consumed", "%s consumed %zu", hx.c_str(), q.data_offset);
        typename W::F g = f[bv]; bool neg = std::signbit(g);
        if (d.cls == 4) { h::stat("reserved"); continue; }
        if (d.cls == 3) { CHECK(std::isnan(g), k + "nan", "%s gave %a", hx.c_str(), (double)g); h::stat("nan"); continue; }
        CHECK(neg == d.neg, k + "sign", "%s gave %a", hx.c_str(), (double)g);
        if (d.cls == 2) { CHECK(std::isinf(g), k + "inf", "%s gave %a", hx.c_str(), (double)g); h::stat("inf"); continue; }
        if (d.cls == 0) { CHECK(g == 0, k + "zero", "%s gave %a", hx.c_str(), (double)g); h::stat("zero"); continue; }
        bool over, under; uint64_t want = ref::truncate(d.m, d.e, W::ms, W::bias, over, under); uint64_t got = W::bits(g) & ~((typename W::U)1 << (sizeof(g) * 8 - 1));
        if (under) { CHECK(g == 0 || std::isinf(g) || got == 1, k + "underflow", "%s gave %a", hx.c_str(), (double)g); h::stat("underflow"); continue; }
        CHECK(got == want, k + (over ? "overflow" : "value"), "%s gave %a (%llx) want %llx", hx.c_str(), (double)g, (unsigned long long)got, (unsigned long long)want);
        h::stat(over ? "overflow" : "finite");
    }
    CHECK(ok[0] == ok[1] && (!ok[0] || d.cls == 4 || (std::isnan(f[0]) && std::isnan(f[1])) || W::bits(f[0]) == W::bits(f[1])), std::string(W::nm()) + ":variants_differ", "%s", hex(in).c_str());
    h::evals(2); h::cover(hash_bytes(in.data(), in.size()));
}
static void both(const bytes &b) { judge<W64>(b, b); judge<W32>(b, b); }
static void hostile(Rng &r, uint64_t)
{
    for (int it = 0; it < 80; it++) {
        bytes b; uint8_t pre = (uint8_t)(r.next()); unsigned ex = (pre >> 4) & 3, mn = pre & 15;
        if (r.chance(1, 3)) { pre |= 0x80; mn = (unsigned)r.below(9); pre = (pre & 0xf0) | mn; }
        b.push_back(pre);
        int64_t e = 0; switch (r.below(6)) { case 0: e = r.range(-1100, -1000); break; case 1: e = r.range(1000, 1040); break; case 2: e = r.range(-170, -110); break; case 3: e = r.range(100, 140); break; case 4: e = (int64_t)r.u64(); break; default: e = r.range(-12, 12); }
        for (unsigned i = 0; i < ex; i++) b.push_back((uint8_t)((uint64_t)e >> (8 * i)));
        uint64_t m = r.u64(); if (r.chance(1, 3)) { m = r.next() | 1; if (mn && mn < 8) m &= (1ull << (8 * mn)) - 1; m <<= r.below(64); }
        for (unsigned i = 0; i < mn; i++) b.push_back((uint8_t)(i < 8 ? m >> (8 * i) : r.chance(2, 3) ? 0 : r.next()));
        if (r.chance(1, 8)) b.resize(r.below(b.size() + 1)); else if (r.chance(1, 3)) ref::put(b, r.bytes(r.below(4)));
        both(b); if (it == 5 && h::g_case % 301 == 0) h::sample("input " + hex(b));
    }
}
static void random_bytes(Rng &r, uint64_t) { for (int it = 0; it < 100; it++) both(r.bytes(r.below(20))); }
// values written at one width and read at the other
static void cross(Rng &r, uint64_t)
{
    for (int it = 0; it < 60; it++) {
        char t[24]; crefl_buf q = { t, 0, sizeof t }; double f = gen_f64(r);
        if (r.chance(1, 3)) { uint64_t b = ref::dbits(gen_f64(r)) & ~(2047ull << 52); f = ref::bitsd(b | (uint64_t)(1023 + (r.below(2) ? r.range(-152, -124) : r.range(124, 130))) << 52); }
        if (r.below(2)) crefl_vf_f64_write(&q, &f); else { float g = gen_f32(r); crefl_vf_f32_write(&q, &g); }
        both(bytes(t, t + q.data_offset)); h::stat("cross_width");
    }
}
// every header byte x exponent bytes x one-byte mantissa, and every truncation of each
static void headers(Rng &r, uint64_t k)
{
    unsigned ex = (unsigned)(k >> 4) & 3, mn = (unsigned)k & 15;
    for (int i = 0; i < 64; i++) { bytes b{ (uint8_t)k }; for (unsigned j = 0; j < ex; j++) b.push_back((uint8_t)(r.chance(1, 3) ? 0 : r.chance(1, 2) ? 255 : r.next())); for (unsigned j = 0; j < mn; j++) b.push_back((uint8_t)(r.chance(1, 3) ? 0 : r.next()));
        for (size_t n = 0; n <= b.size(); n++) both(bytes(b.begin(), b.begin() + n)); }
    if (ex <= 2 && mn <= 1 && (k & 0x80)) for (int e = 0; e < (ex == 0 ? 1 : ex == 1 ? 256 : 65536); e += ex == 2 ? (h::g_tier ? 1 : 7) : 1) for (int m = 0; m < (mn ? 256 : 1); m += mn && ex == 2 ? 37 : 1) {
        bytes b{ (uint8_t)k }; for (unsigned j = 0; j < ex; j++) b.push_back((uint8_t)(e >> (8 * j))); if (mn) b.push_back((uint8_t)m); both(b); }
    h::stat("headers");
}
#ifdef VF_C12
FAMILIES({ "headers", 256, 256, headers }, { "hostile", 3000, 300000, hostile }, { "random", 1500, 100000, random_bytes }, { "cross", 1500, 150000, cross })
#else
FAMILIES({ "grid64", 2048, 2048, grid64 }, { "grid32", 256, 256, grid32 }, { "random64", 1500, 200000, random64 }, { "random32", 800, 60000, random32 }, { "stream", 2000, 200000, stream }, { "sweep32", 4096, 4096, sweep32 })
#endif
