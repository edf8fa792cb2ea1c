#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
static unsigned w_clz32(unsigned v) { return clz(v); }
static unsigned w_clz32s(int v) { return clz(v); }
static unsigned w_clz64(unsigned long long v) { return clz(v); }
static unsigned w_clz64s(long long v) { return clz(v); }
static unsigned w_ctz32(unsigned v) { return ctz(v); }
static unsigned w_ctz32s(int v) { return ctz(v); }
static unsigned w_ctz64(unsigned long long v) { return ctz(v); }
static unsigned w_ctz64s(long long v) { return ctz(v); }
static unsigned w_pop32(unsigned v) { return popcnt(v); }
static unsigned w_pop32s(int v) { return popcnt(v); }
static unsigned w_pop64(unsigned long long v) { return popcnt(v); }
static unsigned w_pop64s(long long v) { return popcnt(v); }
#ifdef __cplusplus
static unsigned w_clzl(unsigned long v) { return clz(v); }
static unsigned w_clzls(long v) { return clz(v); }
static unsigned w_ctzl(unsigned long v) { return ctz(v); }
static unsigned w_ctzls(long v) { return ctz(v); }
static unsigned w_popl(unsigned long v) { return popcnt(v); }
static unsigned w_popls(long v) { return popcnt(v); }
extern "C" {
#define LTAB w_clzl, w_clzls, w_ctzl, w_ctzls, w_popl, w_popls
#else
#define LTAB 0, 0, 0, 0, 0, 0
#endif
extern const struct bits_tab CAT(bits_, IMPL);
const struct bits_tab CAT(bits_, IMPL) = { IMPL_NAME, w_clz32, w_clz32s, w_clz64, w_clz64s, w_ctz32, w_ctz32s, w_ctz64, w_ctz64s,
    w_pop32, w_pop32s, w_pop64, w_pop64s, LTAB };
#ifdef __cplusplus
}
#endif
