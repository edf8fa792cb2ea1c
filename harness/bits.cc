// C24: bits.h and endian.h in C and C++, with the compiler's intrinsics and with the generic code.
#include "common.h"
#include "bits_tab.h"
extern "C" { extern const bits_tab bits_c, bits_cxx, bits_fallback_c, bits_fallback_cxx; extern const endian_tab endian_c, endian_cxx, endian_fallback_c; }
static const bits_tab *bt[] = { &bits_c, &bits_cxx, &bits_fallback_c, &bits_fallback_cxx };
static const endian_tab *et[] = { &endian_c, &endian_cxx, &endian_fallback_c };
static unsigned rclz(uint64_t v, int w) { unsigned n = 0; for (int i = w - 1; i >= 0 && !(v >> i & 1); i--) n++; return n; }
static unsigned rctz(uint64_t v, int w) { unsigned n = 0; for (int i = 0; i < w && !(v >> i & 1); i++) n++; return n; }
static unsigned rpop(uint64_t v) { unsigned n = 0; for (int i = 0; i < 64; i++) n += v >> i & 1; return n; }
static void one32(uint32_t v)
{
    unsigned c = rclz(v, 32), t = rctz(v, 32), p = rpop(v);
    for (auto b : bt) {
        EXPECT(b->clz32(v) == c && b->clz32s((int)v) == c, "bits:clz32", "%s clz(%#x) = %u/%u, not %u", b->name, v, b->clz32(v), b->clz32s((int)v), c);
        EXPECT(b->ctz32(v) == t && b->ctz32s((int)v) == t, "bits:ctz32", "%s ctz(%#x) = %u/%u, not %u", b->name, v, b->ctz32(v), b->ctz32s((int)v), t);
        EXPECT(b->pop32(v) == p && b->pop32s((int)v) == p, "bits:popcnt32", "%s popcnt(%#x) = %u/%u, not %u", b->name, v, b->pop32(v), b->pop32s((int)v), p);
    }
    for (auto e : et) for (int i = 0; i < e->n32; i++) {
        uint32_t y = e->e32[i](v); uint8_t m[4]; memcpy(m, &y, 4); uint8_t x[4]; memcpy(x, &v, 4);
        for (int k = 0; k < 4; k++) {
            uint8_t want = e->k32[i] == 0 ? x[3 - k] : e->k32[i] == 1 ? (uint8_t)(v >> (24 - 8 * k)) : (uint8_t)(v >> (8 * k));
            EXPECT(m[k] == want, "endian:32", "%s function %d of %#x", e->name, i, v);
        }
    }
    h::evals(bits_c.name ? 87 : 1); h::cover(mix64(v));
}
static void one64(uint64_t v)
{
    unsigned c = rclz(v, 64), t = rctz(v, 64), p = rpop(v);
    for (auto b : bt) {
        EXPECT(b->clz64(v) == c && b->clz64s((long long)v) == c, "bits:clz64", "%s clz(%#llx), not %u", b->name, (unsigned long long)v, c);
        EXPECT(b->ctz64(v) == t && b->ctz64s((long long)v) == t, "bits:ctz64", "%s ctz(%#llx), not %u", b->name, (unsigned long long)v, t);
        EXPECT(b->pop64(v) == p && b->pop64s((long long)v) == p, "bits:popcnt64", "%s popcnt(%#llx), not %u", b->name, (unsigned long long)v, p);
        if (b->clzl) EXPECT(b->clzl(v) == c && b->clzls((long)v) == c && b->ctzl(v) == t && b->ctzls((long)v) == t && b->popl(v) == p && b->popls((long)v) == p, "bits:long", "%s long overloads of %#llx", b->name, (unsigned long long)v);
    }
    for (auto e : et) for (int i = 0; i < e->n64; i++) {
        uint64_t y = e->e64[i](v); uint8_t m[8]; memcpy(m, &y, 8); uint8_t x[8]; memcpy(x, &v, 8);
        for (int k = 0; k < 8; k++) {
            uint8_t want = e->k64[i] == 0 ? x[7 - k] : e->k64[i] == 1 ? (uint8_t)(v >> (56 - 8 * k)) : (uint8_t)(v >> (8 * k));
            EXPECT(m[k] == want, "endian:64", "%s function %d of %#llx", e->name, i, (unsigned long long)v);
        }
    }
    h::evals(96); h::cover(mix64(v) + 1);
}
static void w16(Rng &, uint64_t i)
{
    for (uint32_t v = (uint32_t)i * 1024; v < ((uint32_t)i + 1) * 1024; v++) {
        for (auto e : et) for (int f = 0; f < e->n16; f++) {
            uint16_t y = e->e16[f]((uint16_t)v); uint8_t m[2]; memcpy(m, &y, 2);
            uint8_t lo = (uint8_t)v, hi = (uint8_t)(v >> 8); uint16_t one = 1; bool le = *(uint8_t*)&one;
            bool sw = e->k16[f] == 0 ? true : e->k16[f] == 1 ? le : !le; uint16_t want = sw ? (uint16_t)(lo << 8 | hi) : (uint16_t)v;
            EXPECT(y == want, "endian:16", "%s function %d of %#x", e->name, f, v);
        }
        if (v < 256) for (auto e : et) EXPECT(e->e8[0]((uint8_t)v) == v && e->e8[1]((uint8_t)v) == v, "endian:8", "%s %#x", e->name, v);
        one32(v); one32(~v); one32(v << 16); one64(v); one64(~(uint64_t)v); one64((uint64_t)v << 48); one64((uint64_t)v << 24);
    }
    if (!i) h::sample("all 16-bit values and their complements and shifted copies in 32 and 64 bits; 4 implementations each");
}
static void rnd(Rng &r, uint64_t) { for (int i = 0; i < 500; i++) { uint64_t v = r.u64(); one64(v); one32((uint32_t)v); one32((uint32_t)(v >> 32)); } }
static void runs(Rng &, uint64_t i)   // all runs of ones
{
    for (unsigned len = 1; len <= 64; len++) { uint64_t m = (len == 64 ? ~0ull : (1ull << len) - 1) << i; one64(m); one64(~m); one32((uint32_t)m); one64(m | 1ull << 63); one64(m | 1); }
}
FAMILIES({"word", 64, 64, w16}, {"runs", 64, 64, runs}, {"random", 400, 100000, rnd})
