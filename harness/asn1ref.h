// Independent reference codecs, written from X.690, X.660 and docs/vf128.md, that judge what
// the library reads and writes. Nothing here calls the library.
#pragma once
#include "common.h"
#include <cfloat>
#include <crefl/asn1.h>

typedef std::vector<uint8_t> bytes;

namespace ref {

static inline void put(bytes &o, const bytes &v) { o.insert(o.end(), v.begin(), v.end()); }

// base 128, big endian, most significant group first, shortest
static inline bytes base128(uint64_t v)
{
    bytes r; r.push_back(v & 127); v >>= 7;
    while (v) { r.insert(r.begin(), (uint8_t)(0x80 | (v & 127))); v >>= 7; }
    return r;
}
static inline bytes ident(unsigned cls, bool con, uint64_t tag)
{
    bytes r; r.push_back((uint8_t)(cls << 6 | (con ? 0x20 : 0) | (tag < 31 ? tag : 31)));
    if (tag >= 31) put(r, base128(tag));
    return r;
}
static inline bytes length(uint64_t n)
{
    bytes r; if (n < 128) { r.push_back((uint8_t)n); return r; }
    while (n) { r.insert(r.begin(), (uint8_t)n); n >>= 8; }
    r.insert(r.begin(), (uint8_t)(0x80 | r.size()));
    return r;
}
static inline bytes u64be(uint64_t v)
{
    bytes r; do { r.insert(r.begin(), (uint8_t)v); v >>= 8; } while (v); return r;
}
static inline bytes s64be(int64_t v)
{
    bytes r; for (int i = 7; i >= 0; i--) r.push_back((uint8_t)((uint64_t)v >> (8 * i)));
    while (r.size() > 1 && ((r[0] == 0 && r[1] < 128) || (r[0] == 255 && r[1] >= 128))) r.erase(r.begin());
    return r;
}
static inline bytes rev(bytes r) { std::reverse(r.begin(), r.end()); return r; }
static inline bytes tlv(uint64_t tag, const bytes &c)
{
    bytes r = ident(0, false, tag); put(r, length(c.size())); put(r, c); return r;
}
static inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint32_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static inline float bitsf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }

// X.690 8.5 with the DER restrictions of 11.3.1: base 2, F = 0, odd mantissa, fewest octets
static inline bytes real(double v)
{
    uint64_t b = dbits(v); bool s = b >> 63; int e = (int)((b >> 52) & 2047); uint64_t m = b & ((1ull << 52) - 1);
    if (e == 2047) return bytes{ (uint8_t)(m ? 0x42 : s ? 0x41 : 0x40) };
    if (e == 0 && m == 0) return s ? bytes{ 0x43 } : bytes{ 0x80, 0, 0 };
    int64_t x = (e ? e : 1) - 1023 - 52; if (e) m |= 1ull << 52;
    while (!(m & 1)) { m >>= 1; x++; }
    bytes ex = s64be(x), r; r.push_back((uint8_t)(0x80 | (s ? 0x40 : 0) | (ex.size() - 1)));
    put(r, ex); put(r, u64be(m)); return r;
}
static inline bytes oid(const std::vector<uint64_t> &a)
{
    bytes r; if (a.size() < 2) return r;
    put(r, base128(a[0] * 40 + a[1]));
    for (size_t i = 2; i < a.size(); i++) put(r, base128(a[i]));
    return r;
}

enum Verdict { REJECT, ACCEPT, EITHER };

struct Cur { const uint8_t *p; size_t n, o; bool get(uint8_t &b) { if (o >= n) return false; b = p[o++]; return true; } };

// base 128 of at most 56 bits; a padded form may be refused, if taken it must have its value
static inline Verdict rd_base128(Cur &c, uint64_t &v)
{
    uint8_t b; v = 0; unsigned k = 0; bool pad = false;
    while (c.get(b)) {
        if (k == 0 && b == 0x80) pad = true;
        if (v >> 49) return REJECT;              // would not fit in 56 bits
        v = v << 7 | (b & 127); k++;
        if (!(b & 128)) return pad || k > 8 ? EITHER : ACCEPT;
    }
    return REJECT;
}
static inline Verdict rd_ident(Cur &c, unsigned &cls, bool &con, uint64_t &tag)
{
    uint8_t b; if (!c.get(b)) return REJECT;
    cls = b >> 6; con = (b >> 5) & 1; tag = b & 31;
    if (tag < 31) return ACCEPT;
    Verdict r = rd_base128(c, tag);
    if (r == REJECT) return REJECT;
    return tag < 31 ? REJECT : r;
}
static inline Verdict rd_length(Cur &c, uint64_t &n)
{
    uint8_t b; if (!c.get(b)) return REJECT;
    if (b < 128) { n = b; return ACCEPT; }
    unsigned k = b & 127; if (k == 0 || k == 127) return REJECT;
    n = 0; Verdict r = k > 8 ? EITHER : ACCEPT;
    for (unsigned i = 0; i < k; i++) {
        if (!c.get(b)) return REJECT;
        if (n >> 56) return REJECT;
        n = n << 8 | b;
    }
    return r;
}
static inline Verdict worse(Verdict a, Verdict b) { return a == REJECT || b == REJECT ? REJECT : a == EITHER || b == EITHER ? EITHER : ACCEPT; }

// header of a universal primitive with the given tag whose contents are all there
static inline Verdict rd_hdr(Cur &c, uint64_t want, uint64_t &len)
{
    unsigned cls; bool con; uint64_t tag;
    Verdict a = rd_ident(c, cls, con, tag); if (a == REJECT) return REJECT;
    Verdict b = rd_length(c, len); if (b == REJECT) return REJECT;
    if (cls != 0 || con || tag != want) return REJECT;
    if (len > c.n - c.o) return REJECT;
    return worse(a, b);
}
static inline Verdict int_u64(const uint8_t *p, size_t n, uint64_t &v)
{
    if (n == 0) return REJECT;
    v = 0; for (size_t i = 0; i < n; i++) { if (v >> 56) return REJECT; v = v << 8 | p[i]; }
    return n > 8 ? EITHER : ACCEPT;
}
static inline Verdict int_s64(const uint8_t *p, size_t n, int64_t &v)
{
    if (n == 0) return REJECT;
    uint64_t x = p[0] & 0x80 ? ~0ull : 0;
    for (size_t i = 0; i < n; i++) {
        if (i + 8 < n && p[i] != (p[0] & 0x80 ? 0xff : 0)) return REJECT;
        x = x << 8 | p[i];
    }
    if (n > 8 && ((x >> 63) != (p[0] >> 7))) return REJECT;
    v = (int64_t)x; return n > 8 ? EITHER : ACCEPT;
}
// arcs of the contents of an object identifier
static inline Verdict oid_arcs(const uint8_t *p, size_t n, std::vector<uint64_t> &a)
{
    Cur c{ p, n, 0 }; a.clear(); Verdict r = ACCEPT;
    if (n == 0) return EITHER;
    while (c.o < n) {
        uint64_t v; Verdict q = rd_base128(c, v); if (q == REJECT) return REJECT;
        r = worse(r, q);
        if (a.empty()) { uint64_t x = v < 40 ? 0 : v < 80 ? 1 : 2; a.push_back(x); a.push_back(v - 40 * x); }
        else a.push_back(v);
        if (a.size() > asn1_oid_comp_max) return REJECT;
    }
    return r;
}

// contents of a REAL. `exact` says that the value is known exactly as sign * frac * 2^exp
struct Real { bool special; double value; bool exact; bool neg; uint64_t frac; int64_t exp; bool decimal; };
static inline Verdict real_value(const uint8_t *p, size_t n, Real &r)
{
    r = Real(); if (n == 0) { r.special = true; r.value = 0.0; return EITHER; }
    uint8_t b = p[0];
    if ((b >> 6) == 1) {
        if (n != 1 || b > 0x43) return REJECT;
        r.special = true;
        r.value = b == 0x40 ? HUGE_VAL : b == 0x41 ? -HUGE_VAL : b == 0x42 ? (double)NAN : -0.0;
        return ACCEPT;
    }
    if (!(b & 0x80)) { r.decimal = true; return EITHER; }
    unsigned base = (b >> 4) & 3, f = (b >> 2) & 3, em = b & 3; size_t el, o = 1; Verdict v = ACCEPT;
    if (base == 3) return REJECT;
    if (em == 3) { if (n < 2) return REJECT; el = p[1]; o = 2; v = EITHER; if (el == 0) return REJECT; } else el = em + 1;
    if (em == 2) v = EITHER;
    if (base || f) v = EITHER;
    if (n < o + el + 1) return REJECT;
    int64_t x; if (el > 8 || int_s64(p + o, el, x) == REJECT) { r.decimal = true; return EITHER; }
    size_t ml = n - o - el; uint64_t m; Verdict mv = int_u64(p + o + el, ml, m);
    if (mv == REJECT) { r.decimal = true; return EITHER; }      // more than 64 bits of mantissa
    if (mv == EITHER) v = EITHER;
    if (x > (1ll << 40) || x < -(1ll << 40)) { r.decimal = true; return EITHER; }
    r.neg = b & 0x40; r.frac = m; r.exp = x * (base == 0 ? 1 : base == 1 ? 3 : 4) + f; r.exact = true;
    return v;
}

// little endian variable width integers
static inline uint64_t le_u(const uint8_t *p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n && i < 8; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static inline int64_t le_s(const uint8_t *p, size_t n) { uint64_t v = le_u(p, n); if (n < 8 && (p[n - 1] & 0x80)) v |= ~0ull << (8 * n); return (int64_t)v; }

static inline bytes leb(uint64_t v) { bytes r; do { uint8_t b = v & 127; v >>= 7; r.push_back(b | (v ? 128 : 0)); } while (v); return r; }
static inline bytes vlu(uint64_t v)
{
    unsigned n = 1; while (n < 8 && (v >> (7 * n))) n++;
    uint64_t x = v << n | ((1ull << (n - 1)) - 1); bytes r;
    for (unsigned i = 0; i < n; i++) r.push_back((uint8_t)(x >> (8 * i)));
    return r;
}

// docs/vf128.md: what an encoding denotes: class and, if finite, sign * m * 2^e with m odd or 0
struct Vf { Verdict v; size_t used; bool neg; int cls; /* 0 zero 1 finite 2 inf 3 nan 4 anything */ uint64_t m; int64_t e; };
static inline Vf vf(const uint8_t *p, size_t n)
{
    Vf r = Vf(); if (n == 0) { r.v = REJECT; return r; }
    uint8_t b = p[0]; r.neg = b & 0x40; unsigned ex = (b >> 4) & 3, mn = b & 15; r.v = ACCEPT; r.used = 1;
    if (!(b & 0x80)) {
        if (ex == 3) { r.cls = mn ? 3 : 2; return r; }
        if (ex == 0) { if (!mn) { r.cls = 0; return r; } r.m = mn; r.e = -4; }
        else { r.m = 16 | mn; r.e = (int)ex - 1 - 4; }
        r.cls = 1;
    } else {
        r.used = 1 + ex + mn;
        if (n < r.used) { r.v = REJECT; return r; }
        if (ex == 0 && mn == 0) { r.v = EITHER; r.cls = 4; return r; }
        int64_t x = ex ? le_s(p + 1, ex) : 0;
        const uint8_t *q = p + 1 + ex;
        for (unsigned i = 8; i < mn; i++) if (q[i]) { r.v = EITHER; r.cls = 4; return r; }
        uint64_t m = le_u(q, mn);
        if (mn > 8) r.v = EITHER;
        if (mn == 0) { r.m = 1; r.e = x; r.cls = 1; return r; }
        if (m == 0) { r.v = EITHER; r.cls = 4; return r; }
        unsigned tz = (unsigned)__builtin_ctzll(m), top = 63 - (unsigned)__builtin_clzll(m);
        if (ex == 0) x = -(int64_t)tz - 1;
        r.m = m; r.e = x - (int64_t)top; r.cls = 1;
    }
    while (!(r.m & 1)) { r.m >>= 1; r.e++; }
    return r;
}
// truncate m * 2^e to a binary float with the given mantissa size and bias; returns bits without sign
// over: larger than the largest finite value. under: below the smallest subnormal
static inline uint64_t truncate(uint64_t m, int64_t e, int ms, int bias, bool &over, bool &under)
{
    over = under = false;
    int top = 63 - __builtin_clzll(m); int64_t x = e + top;        // exponent of the leading one
    if (x > bias) { over = true; return (uint64_t)(2 * bias + 1) << ms; }
    int64_t lsb = (x < 1 - bias ? 1 - bias : x) - ms;              // weight of the last place
    int64_t sh = lsb - e; uint64_t q;
    if (sh <= 0) q = m << -sh; else q = sh > 63 ? 0 : m >> sh;
    if (q == 0) { under = true; return 0; }
    if (x < 1 - bias) return q;
    return (uint64_t)(x + bias) << ms | (q & ((1ull << ms) - 1));
}

} // namespace ref

// a double whose class, exponent and mantissa shape are all likely to be interesting
static inline double gen_f64(Rng &r)
{
    uint64_t s = r.below(2) << 63, e, m;
    switch (r.below(8)) {
    case 0: e = 0; break;
    case 1: e = 1 + r.below(3); break;
    case 2: e = 2044 + r.below(4); break;
    case 3: case 4: e = 1023 - 12 + r.below(24); break;
    case 5: e = 1023 + 40 + r.below(30); break;
    case 6: { static const int k[] = { 128, 127, 129, 256, 75, 76, 180, 203, 204, 52, 53 }; int d = k[r.below(11)]; e = 1023 + (r.below(2) ? d : -d) + (int)r.below(5) - 2; break; }
    default: e = r.below(2048);
    }
    switch (r.below(6)) {
    case 0: m = 0; break;
    case 1: m = 1ull << r.below(52); break;
    case 2: { unsigned k = (unsigned)r.below(53); m = k ? (r.next() >> (64 - k)) : 0; break; }
    case 3: { unsigned k = (unsigned)r.below(53); m = r.next() << k; break; }
    case 4: { unsigned k = (unsigned)r.below(53); m = ~0ull << k; break; }
    default: m = r.next();
    }
    return ref::bitsd(s | (e & 2047) << 52 | (m & ((1ull << 52) - 1)));
}
static inline float gen_f32(Rng &r)
{
    uint32_t s = (uint32_t)r.below(2) << 31, e, m;
    switch (r.below(5)) {
    case 0: e = (uint32_t)r.below(3); break;
    case 1: e = 252 + (uint32_t)r.below(4); break;
    case 2: e = 127 - 12 + (uint32_t)r.below(24); break;
    default: e = (uint32_t)r.below(256);
    }
    switch (r.below(5)) {
    case 0: m = 0; break;
    case 1: m = 1u << r.below(23); break;
    case 2: m = (uint32_t)r.next() << r.below(24); break;
    case 3: m = (uint32_t)(r.next() & 0x7fffff) >> r.below(24); break;
    default: m = (uint32_t)r.next();
    }
    return ref::bitsf(s | (e & 255) << 23 | (m & 0x7fffff));
}
static inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || ref::dbits(a) == ref::dbits(b); }
static inline bool samef(float a, float b) { return (std::isnan(a) && std::isnan(b)) || ref::fbits(a) == ref::fbits(b); }
static inline crefl_buf mkbuf(Block &b) { crefl_buf k; k.data = (char*)b.p; k.data_offset = 0; k.data_size = b.n; return k; }
static inline asn1_id mkid(unsigned cls, bool con, uint64_t tag) { asn1_id i; memset(&i, 0, sizeof i); i._class = cls; i._constructed = con; i._identifier = tag; return i; }
// tag numbers dense around the changes of encoding width
static inline uint64_t gen_tag(Rng &r)
{
    uint64_t t;
    switch (r.below(4)) {
    case 0: t = r.below(40); break;
    case 1: { unsigned k = 1 + (unsigned)r.below(8); t = (k == 8 ? (1ull << 56) : (1ull << (7 * k))) + (uint64_t)r.range(-2, 2); break; }
    case 2: t = r.next() >> (8 + r.below(56)); break;
    default: t = r.u64();
    }
    return t & ((1ull << 56) - 1);
}
// exactly the expected bytes were written at the start of the block
static inline void written_is(Block &b, size_t n, const bytes &want, const std::string &key, const char *what)
{
    CHECK(n == want.size() && n <= b.n && (n == 0 || memcmp(b.p, want.data(), n) == 0), key, "%s wrote %s, expected %s",
        what, hex(b.p, n > b.n ? b.n : n).c_str(), hex(want).c_str());
    for (size_t i = n; i < b.n; i++) CHECK(b.p[i] == 0xA5, key, "%s touched byte %zu behind its %zu", what, i, n);
}
