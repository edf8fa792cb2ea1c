typedef unsigned short W16; typedef unsigned W32; typedef unsigned long long W64;
#define F16(n, e) static W16 n(W16 x) { return (W16)(e); }
#define F32(n, e) static W32 n(W32 x) { return (W32)(e); }
#define F64(n, e) static W64 n(W64 x) { return (W64)(e); }
F16(a0, bswap16(x)) F16(a1, be16(x)) F16(a2, le16(x)) F16(a3, htobe16(x)) F16(a4, htole16(x)) F16(a5, be16toh(x)) F16(a6, le16toh(x))
F32(b0, bswap32(x)) F32(b1, be32(x)) F32(b2, le32(x)) F32(b3, htobe32(x)) F32(b4, htole32(x)) F32(b5, be32toh(x)) F32(b6, le32toh(x))
F64(c0, bswap64(x)) F64(c1, be64(x)) F64(c2, le64(x)) F64(c3, htobe64(x)) F64(c4, htole64(x)) F64(c5, be64toh(x)) F64(c6, le64toh(x))
F16(a7, htobe((unsigned short)x)) F16(a8, htobe((short)x)) F16(a9, htole((unsigned short)x)) F16(a10, htole((short)x))
F16(a11, betoh((unsigned short)x)) F16(a12, betoh((short)x)) F16(a13, letoh((unsigned short)x)) F16(a14, letoh((short)x))
F32(b7, htobe((unsigned)x)) F32(b8, htobe((int)x)) F32(b9, htole((unsigned)x)) F32(b10, htole((int)x))
F32(b11, betoh((unsigned)x)) F32(b12, betoh((int)x)) F32(b13, letoh((unsigned)x)) F32(b14, letoh((int)x))
F64(c7, htobe((unsigned long)x)) F64(c8, htobe((long long)x)) F64(c9, htole((unsigned long)x)) F64(c10, htole((long long)x))
F64(c11, betoh((unsigned long)x)) F64(c12, betoh((long long)x)) F64(c13, letoh((unsigned long)x)) F64(c14, letoh((long)x))
F64(c15, htobe((unsigned long long)x) == htobe((long)x) && betoh((unsigned long long)x) == betoh((long)x) && letoh((unsigned long long)x) == letoh((long long)x) && htole((unsigned long long)x) == htole((long)x) ? htobe((unsigned long long)x) : ~htobe((unsigned long long)x))
static unsigned char d0(unsigned char x) { return le8(x); }
static unsigned char d1(unsigned char x) { return be8(x); }
#define KINDS { 0, 1, 2, 1, 2, 1, 2, 1, 1, 2, 2, 1, 1, 2, 2, 1 }
#ifdef __cplusplus
extern "C" {
#endif
extern const struct endian_tab CAT(endian_, IMPL);
const struct endian_tab CAT(endian_, IMPL) = { IMPL_NAME,
    { a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14 },
    { b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14 },
    { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15 },
    { d0, d1 }, KINDS, KINDS, KINDS, 15, 15, 16 };
#ifdef __cplusplus
}
#endif
