A = "src/asn1.cc"
HDR = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <crefl/model.h>
#include <crefl/buf.h>
#include <crefl/asn1.h>
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
'''
S("s-c08-length-top-octet", "C08", "a length of 2^56 or more", "eight-octet DER lengths are written but rejected on reading",
  [(A, "    else if (llen > 8) {\n        goto err;", "    else if (llen >= 8) {\n        goto err;")],
  HDR + r'''
int main() {
    for (int s = 0; s < 64; s++) {
        u64 l = 1ull << s, r = 0; crefl_buf *b = crefl_buf_new(32);
        if (crefl_asn1_ber_length_write(b, l) < 0) FAIL("write %d", s);
        crefl_buf_reset(b);
        if (crefl_asn1_ber_length_read(b, &r) < 0 || r != l) FAIL("length 2^%d lost", s);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c08-byval-neg-length", "C08", "negative powers of two of whole octets (-128, -32768, ...) through the by-value interface",
  "the by-value length negates instead of complementing, so the encodings are one octet too long and differ from the pointer variant",
  [(A, "    const s64 v = value;\n    return v == 0 ? 1 : 8 - ((clz(v < 0 ? ~v : v)-1) / 8);", "    const u64 v = value < 0 ? 0 - (u64)value : (u64)value;\n    return v == 0 ? 1 : v >> 63 ? 8 : 8 - ((clz(v)-1) / 8);")],
  HDR + r'''
int main() {
    s64 v[] = { -128, -32768, -8388608ll, -1, -129, 127, 128 };
    for (s64 x : v) {
        crefl_buf *b = crefl_buf_new(32), *c = crefl_buf_new(32);
        if (crefl_asn1_der_integer_s64_write(b, asn1_tag_integer, &x) < 0) FAIL("write");
        if (crefl_asn1_der_integer_s64_write_byval(c, asn1_tag_integer, x) < 0) FAIL("write byval");
        if (b->data_offset != c->data_offset || memcmp(b->data, c->data, b->data_offset)) FAIL("%lld: variants differ", (long long)x);
    }
    return 0;
}''')
S("s-c08-high-tag-form", "C08", "identifier number exactly 31", "tag number 31 is written in the single-octet form, which announces a subsequent tag number",
  [(A, "    if (_id._identifier >= 0x1f) {\n        if (crefl_asn1_ber_tag_write", "    if (_id._identifier > 0x1f) {\n        if (crefl_asn1_ber_tag_write"),
   (A, "    return 1 + ((_id._identifier >= 0x1f) ?", "    return 1 + ((_id._identifier > 0x1f) ?")],
  HDR + r'''
int main() {
    for (u64 t = 0; t < 300; t++) {
        crefl_buf *b = crefl_buf_new(32); asn1_id id = { t, 1, asn1_class_private }, r; memset(&r, 0, sizeof r);
        if (crefl_asn1_ber_ident_write(b, id) < 0) FAIL("write");
        size_t n = b->data_offset; crefl_buf_reset(b); b->data_size = n;
        if (n != crefl_asn1_ber_ident_length(id)) FAIL("length of %d", (int)t);
        if (crefl_asn1_ber_ident_read(b, &r) < 0 || r._identifier != t) FAIL("tag %d lost", (int)t);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c10-exp-width", "C10", "a double whose odd-mantissa exponent lies in -256..-129 or 128..255",
  "exponent lengths are computed from the magnitude without room for the sign bit",
  [(A, "        crefl_asn1_ber_integer_s64_length(&sexp),", "        (size_t)(sexp < -255 || sexp > 255 ? 2 : 1),")],
  HDR + r'''
int main() {
    for (int e = -1000; e < 1000; e++) {
        double d = ldexp(1.5, e), r = 0; crefl_buf *b = crefl_buf_new(32);
        if (crefl_asn1_der_real_f64_write(b, asn1_tag_real, &d) < 0) FAIL("write");
        crefl_buf_reset(b);
        if (crefl_asn1_der_real_f64_read(b, asn1_tag_real, &r) < 0 || memcmp(&r, &d, 8)) FAIL("1.5*2^%d lost", e);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c13-leb-limit", "C13", "values of 2^49 and more by value", "the by-value LEB reader stops at seven bytes",
  [(A, "            return u64_result { 0, -1 };\n        }\n        v |= ((u64)b & 0x7f) << w;\n        w += 7;\n    } while ((b & 0x80) && w < 56);", "            return u64_result { 0, -1 };\n        }\n        v |= ((u64)b & 0x7f) << w;\n        w += 7;\n    } while ((b & 0x80) && w < 49);")],
  HDR + r'''
int main() {
    for (int s = 0; s < 56; s++) {
        u64 x = 1ull << s; crefl_buf *b = crefl_buf_new(32);
        if (crefl_leb_u64_write(b, &x) < 0) FAIL("write");
        crefl_buf_reset(b);
        u64_result r = crefl_leb_u64_read_byval(b);
        if (r.error < 0 || r.value != x) FAIL("2^%d lost", s);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c16-final-fill", "C16", "messages of 55 bytes modulo 64", "the padding of the last block is taken to need another block one byte early",
  [("src/sha256.cc", "    if (fill > 56) {\n        memset(ctx->block + fill, 0, 64-fill);", "    if (fill >= 56) {\n        memset(ctx->block + fill, 0, 64-fill);")],
  r'''
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <crefl/sha256.h>
int main() {
    // SHA-256 of 55 times 'a'
    static const unsigned char want[32] = { 0x9f,0x4f,0x9f };
    unsigned char m[64], r[32]; memset(m, 'a', sizeof m);
    sha256_ctx c; sha256_init(&c); sha256_update(&c, m, 55); sha256_final(&c, r);
    char hex[65]; for (int i = 0; i < 32; i++) sprintf(hex + 2*i, "%02x", r[i]);
    const char *exp = "9f4390f8d30c2dd92ec9f095b65e2b9ae9b0a925a5258e241c9f1e910f734318";
    (void)want;
    if (strcmp(hex, exp)) { printf("%s\n", hex); return 1; }
    return 0;
}''')
S("s-c16-count-32", "C16", "messages of 512 MiB and more, or a bit count above 2^32", "the bit count is truncated to 32 bits",
  [("src/sha256.cc", "lowCount = htobe64((ctx->nbytes * 8));", "lowCount = htobe64((uint64_t)((uint32_t)ctx->nbytes * 8u));")],
  r'''
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <crefl/sha256.h>
int main() {
    static unsigned char m[1 << 20]; memset(m, 'b', sizeof m);
    sha256_ctx c; sha256_init(&c); for (int i = 0; i < 520; i++) sha256_update(&c, m, sizeof m);
    unsigned char r[32]; sha256_final(&c, r);
    char hex[65]; for (int i = 0; i < 32; i++) sprintf(hex + 2*i, "%02x", r[i]);
    FILE *p = popen("python3 -c \"import hashlib;h=hashlib.sha256();[h.update(b'b'*(1<<20)) for i in range(520)];print(h.hexdigest())\"", "r");
    char want[80] = ""; if (!p || fscanf(p, "%64s", want) != 1) return 2; pclose(p);
    if (strcmp(hex, want)) { printf("%s\n%s\n", hex, want); return 1; }
    return 0;
}''')
H = "include/crefl/hashmap.h"
S("s-c17-eq-subset", "C17", "comparison of a map with a proper superset", "equality only tests one inclusion",
  [(H, "            auto j = const_cast<hashmap&>(*this).find(i.first);\n            if (j == const_cast<hashmap&>(*this).end()) return false;\n            if (i.second != j->second) return false;", "            auto j = const_cast<hashmap&>(*this).find(i.first);\n            if (j == const_cast<hashmap&>(*this).end()) break;\n            if (i.second != j->second) return false;")],
  r'''
#include <cstdio>
#include <crefl/hashmap.h>
int main() {
    hashmap<unsigned long long, unsigned long long> a, b;
    a[1] = 2; b[1] = 2; b[3] = 4;
    if (a == b) { puts("proper subset compares equal"); return 1; }
    return 0;
}''')
S("s-c17-erase-value", "C17", "an erased key inserted again through operator[]",
  "erase leaves the old value in the slot, which operator[] hands out for the next key put there",
  [(H, "                data[i].second = Value(0);\n", "")],
  r'''
#include <cstdio>
#include <crefl/hashmap.h>
int main() {
    hashmap<unsigned long long, unsigned long long> a;
    a[5] = 77; a.erase(5);
    if (a[5] != 0) { puts("stale value"); return 1; }
    return 0;
}''')
S("s-c24-popcnt-fallback", "C24", "the portable popcount with the top byte set", "the portable 64-bit population count folds with a 16-bit mask too few",
  [("include/crefl/bits.h", "    val = (val & 0x00000000FFFFFFFFULL) + ((val >> 32) & 0x00000000FFFFFFFFULL);\n    return (unsigned)val;", "    val = (val + (val >> 32)) & 0x3FULL;\n    return (unsigned)val;")],
  r'''
#include <cstdio>
#undef __GNUC__
#include <crefl/bits.h>
int main() {
    if (popcnt_u64(~0ull) != 64) { puts("popcnt(~0) wrong"); return 1; }
    return 0;
}''')

S("s-c14-long-count", "C14", "an OID of fifteen arcs through the text form", "the sixteenth-component guard of the formatter truncates at fourteen arcs",
  [(A, "    size_t count = obj->count > asn1_oid_comp_max ?\n        asn1_oid_comp_max : obj->count;\n    for (size_t i = 0; i < count; i ++) {", "    size_t count = obj->count >= asn1_oid_comp_max ?\n        asn1_oid_comp_max - 1 : obj->count;\n    for (size_t i = 0; i < count; i ++) {")],
  HDR + r"""
int main() {
    const char *t = "1.2.3.4.5.6.7.8.9.10.11.12.13.14.15"; asn1_oid o; char s[256]; size_t n = sizeof s;
    if (crefl_asn1_oid_from_string(&o, t, strlen(t)) < 0) FAIL("rejected");
    crefl_asn1_oid_to_string(s, &n, &o);
    if (strcmp(s, t)) FAIL("%s", s);
    return 0;
}""")
S("s-c14-combine-write", "C14", "an OID below root 2 with a second arc of 40 or more, length prediction against the bytes written",
  "the predicted length takes the first two arcs as one octet",
  [(A, "            length = crefl_asn1_ber_tag_length(obj->oid[0] * 40 + obj->oid[1]);", "            length = crefl_asn1_ber_tag_length(obj->oid[0] * 40) > 1 ? 2 : obj->oid[1] < 128 ? 1 : crefl_asn1_ber_tag_length(obj->oid[1]);")],
  HDR + r"""
int main() {
    for (u64 a = 0; a < 3; a++) for (u64 c = 0; c < (a < 2 ? 40 : 2000); c++) {
        asn1_oid o = { 4, { a, c, 7, 300 } }, r; memset(&r, 0, sizeof r); crefl_buf *b = crefl_buf_new(64);
        if (crefl_asn1_der_oid_write(b, asn1_tag_object_identifier, &o) < 0) FAIL("write");
        crefl_buf_reset(b);
        if (crefl_asn1_der_oid_read(b, asn1_tag_object_identifier, &r) < 0 || r.count != 4 || r.oid[0] != a || r.oid[1] != c) FAIL("%llu.%llu lost", a, c);
        crefl_buf_destroy(b);
    }
    return 0;
}""")
S("s-c09-len-octets", "C09", "a truncated long-form length whose missing octets matter", "the long form of the length octets is accepted when the buffer ends inside it",
  [(A, "    for (size_t i = 0; i < llen; i++) {\n        if (crefl_buf_read_i8(buf, &b) != 1) {\n            goto err;\n        }\n        l <<= 8;", "    for (size_t i = 0; i < llen; i++) {\n        if (crefl_buf_read_i8(buf, &b) != 1) {\n            if (i == 0) goto err;\n            break;\n        }\n        l <<= 8;")],
  HDR + r"""
int main() {
    crefl_buf *b = crefl_buf_new(2); u64 l; b->data[0] = (char)0x82; b->data[1] = 1;
    if (crefl_asn1_ber_length_read(b, &l) >= 0) FAIL("truncated length accepted");
    return 0;
}""")
S("s-c11-byval-choice", "C11", "a double in (2^-9, 1) whose unary form and exponent form take equally many bytes",
  "the by-value writer prefers the exponent form where the pointer variant (and the format) use the unary form, so the variants write different bytes",
  [(A, "            if (vf_man_a + vf_exp_a < vf_man_b) {", "            if (vf_man_a + vf_exp_a <= vf_man_b) {", 2)],
  HDR + r"""
int main() {
    for (int k = 0; k < 100000; k++) {
        double v = ldexp(1.0 + (k * 2 + 1) * 0x1p-52, -1 - k % 8);
        crefl_buf *b = crefl_buf_new(32), *c = crefl_buf_new(32);
        if (crefl_vf_f64_write(b, &v) < 0 || crefl_vf_f64_write_byval(c, v) < 0) FAIL("write");
        if (b->data_offset != c->data_offset || memcmp(b->data, c->data, b->data_offset)) FAIL("%a: variants differ", v);
        crefl_buf_destroy(b); crefl_buf_destroy(c);
    }
    return 0;
}""")
S("s-c11-f64-subnormal-tz", "C11", "a 64-bit subnormal whose only set bit is its lowest", "powers of two among the 64-bit subnormals with an odd exponent are written with the exponent of their neighbour",
  [(A, "    u64 frac = (u64)f64_mant_dec(value) << (f64_exp_size + 1);\n\n    return crefl_vf_f64_data { sign, sexp, frac };", "    u64 mant = (u64)f64_mant_dec(value), frac = mant << (f64_exp_size + 1);\n    if (sexp == -(s64)f64_exp_bias && (mant & 1) && clz(frac) < 2) frac ^= 1ull << (f64_exp_size + 1);\n\n    return crefl_vf_f64_data { sign, sexp, frac };")],
  HDR + r"""
int main() {
    for (u64 u = (1ull << 51) | 1; u < (1ull << 51) + 2000; u += 2) {
        double v, r; memcpy(&v, &u, 8); crefl_buf *b = crefl_buf_new(32);
        if (crefl_vf_f64_write(b, &v) < 0) FAIL("write");
        crefl_buf_reset(b);
        if (crefl_vf_f64_read(b, &r) < 0 || memcmp(&r, &v, 8)) FAIL("subnormal %llx lost", u);
        crefl_buf_destroy(b);
    }
    return 0;
}""")
LEBW = "    u64 x = *value;\n    u64 v = 0;\n\n    if (x >= (1ull << 56)) {\n        return -1;\n    }\n\n    len = (x == 0) ? 1 : 8 - ((clz(x) - 1) / 7) + 1;\n    if (crefl_buf_check_capacity(buf, len) < 0) {"
S("s-c15-leb-cap", "C15", "a multi-byte LEB128 value and exactly one byte too little space", "the capacity test of the LEB128 writer leaves out the final byte, which is then written unchecked",
  [(A, LEBW, LEBW.replace("capacity(buf, len)", "capacity(buf, len > 1 ? len - 1 : 1)"))],
  HDR + r'''
int main() {
    for (u64 x = 1; x < (1ull << 55); x <<= 3) for (size_t cap = 0; cap < 9; cap++) {
        char mem[32]; memset(mem, 0x5a, sizeof mem);
        crefl_buf b = { mem, 0, cap };
        int r = crefl_leb_u64_write(&b, &x);
        for (size_t i = cap; i < sizeof mem; i++) if (mem[i] != 0x5a) FAIL("wrote past capacity %zu for %llx (%d)", cap, x, r);
    }
    return 0;
}''')
S("s-c12-f32-nan", "C12", "an inline special with a payload in the low bits read as a 32-bit float by value",
  "the payload of inline NaNs is reduced to its top bit, so that other NaNs become infinities",
  [(A, "            vp_exp = f32_exp_mask;\n            vp_man = (u32)vf_man << (f32_mant_size - 4);\n        }\n        else {\n            /* inline normal - adjust exponent bias from 2-bit bias 1 to\n             * the IEEE 754 bias then left-justify the mantissa. */\n            vp_exp = f32_exp_bias + vf_exp - 1;\n            vp_man = (u32)vf_man << (f32_mant_size - 4);\n        }\n    }\n    /* out-of-line little-endian exponent and mantissa */\n    else {\n        u64 vx_man;\n        s64 vx_exp;\n        if (crefl_vf_extern_get(vr_man, vr_exp, vf_exp == 0, f32_mant_size, f32_exp_bias, &vx_man, &vx_exp) < 0) {\n            return f32_result { 0, -1 };",
       "            vp_exp = f32_exp_mask;\n            vp_man = (u32)(vf_man >> 3) << (f32_mant_size - 1);\n        }\n        else {\n            /* inline normal - adjust exponent bias from 2-bit bias 1 to\n             * the IEEE 754 bias then left-justify the mantissa. */\n            vp_exp = f32_exp_bias + vf_exp - 1;\n            vp_man = (u32)vf_man << (f32_mant_size - 4);\n        }\n    }\n    /* out-of-line little-endian exponent and mantissa */\n    else {\n        u64 vx_man;\n        s64 vx_exp;\n        if (crefl_vf_extern_get(vr_man, vr_exp, vf_exp == 0, f32_mant_size, f32_exp_bias, &vx_man, &vx_exp) < 0) {\n            return f32_result { 0, -1 };")],
  HDR + r'''
int main() {
    for (int i = 1; i < 16; i++) {
        crefl_buf *b = crefl_buf_new(1); b->data[0] = (char)(0x30 | i);
        f32_result r = crefl_vf_f32_read_byval(b);
        if (r.error < 0 || !(r.value != r.value)) FAIL("payload %d does not decode to NaN", i);
    }
    return 0;
}''')
