A = "src/asn1.cc"
HDR = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <crefl/model.h>
#include <crefl/buf.h>
#include <crefl/db.h>
#include <crefl/link.h>
#include <crefl/asn1.h>
#include <crefl/hashmap.h>
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
'''
S("s-c08-ptr-min-length", "C08", "a negative power of two that is the smallest of its width, through the pointer interface only",
  "the pointer variant counts the bits of the magnitude instead of the complement and encodes -128 and the like in one byte too many",
  [(A, "size_t crefl_asn1_ber_integer_s64_length(const s64 *value)\n{\n    const s64 v = *value;\n    return v == 0 ? 1 : 8 - ((clz(v < 0 ? ~v : v)-1) / 8);",
       "size_t crefl_asn1_ber_integer_s64_length(const s64 *value)\n{\n    const s64 v = *value;\n    return v == 0 ? 1 : 8 - ((clz(v < 0 && v != INT64_MIN ? -v : v < 0 ? ~v : v)-1) / 8);")],
  HDR + r'''
int main() {
    for (int k = 7; k < 64; k += 8) for (s64 d = -1; d <= 1; d++) {
        s64 v = (s64)(~0ull << k); if (k < 63) v += d;
        size_t a = crefl_asn1_ber_integer_s64_length(&v), b = crefl_asn1_ber_integer_s64_length_byval(v);
        if (a != b) FAIL("lengths of %lld differ: %zu %zu", (long long)v, a, b);
    }
    return 0;
}''')
S("s-c08-octets-64k", "C08", "an octet string of 64 KiB or more is written", "only the length modulo 65536 is copied by the octet string writer",
  [(A, "int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *obj)\n{\n    size_t copy_count = len", "int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *obj)\n{\n    uint16_t copy_count = len")],
  HDR + r'''
int main() {
    for (size_t n : { (size_t)0, (size_t)100, (size_t)65535, (size_t)65536, (size_t)70000 }) {
        std::string s(n, 'x'), r(n, 'y'); crefl_buf *b = crefl_buf_new(n + 64);
        asn1_string o { n, (u8*)&s[0] }, p { n, (u8*)&r[0] };
        if (crefl_asn1_der_octets_write(b, asn1_tag_octet_string, &o) < 0) FAIL("write %zu", n);
        crefl_buf_reset(b);
        if (crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &p) < 0 || p.count != n || r != s) FAIL("read %zu", n);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c09-nine-length", "C09", "a length with nine octets, the first of which is shifted out", "lengths of nine octets are accepted and the top octet is lost",
  [(A, "    else if (llen > 8) {\n        goto err;", "    else if (llen > 9) {\n        goto err;")],
  HDR + r'''
int main() {
    for (int n = 9; n < 127; n++) {
        crefl_buf *b = crefl_buf_new(200); u64 l = 0;
        memset(b->data, 0, 200); b->data[0] = (char)(0x80 | n); b->data[1] = 1; b->data[n] = 5;
        if (crefl_asn1_ber_length_read(b, &l) == 0) FAIL("%d octets accepted as %llu", n, (unsigned long long)l);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c09-null-low", "C09", "a null whose length is a multiple of 256", "the null reader tests only the low octet of the length",
  [(A, "int crefl_asn1_ber_null_read(crefl_buf *buf, size_t len)\n{\n    return len == 0 ? 0 : -1;", "int crefl_asn1_ber_null_read(crefl_buf *buf, size_t len)\n{\n    return (u8)len == 0 ? 0 : -1;")],
  HDR + r'''
int main() {
    for (int n = 1; n < 2000; n++) {
        crefl_buf *b = crefl_buf_new(n + 16);
        asn1_hdr h = { { asn1_tag_null, 0, asn1_class_universal }, (u64)n };
        crefl_asn1_ber_ident_write(b, h._id); crefl_asn1_ber_length_write(b, n); crefl_buf_reset(b);
        if (crefl_asn1_der_null_read(b, asn1_tag_null) == 0) FAIL("null of %d octets accepted", n);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c09-tag-ten", "C09", "a tag number or object identifier arc of nine octets", "tag numbers may have one octet more than fits in 56 bits and the top bits are lost",
  [(A, "        l <<= 7;\n        l |= (uint8_t)b & 0x7f;\n        w += 7;\n    } while ((b & 0x80) && w < 56);", "        l <<= 7;\n        l |= (uint8_t)b & 0x7f;\n        w += 7;\n    } while ((b & 0x80) && w < 70);")],
  HDR + r'''
int main() {
    for (int n = 1; n < 14; n++) {
        crefl_buf *b = crefl_buf_new(32); u64 t = 0;
        for (int i = 0; i < n - 1; i++) b->data[i] = (char)0xff;
        b->data[n - 1] = 0x7f;
        int r = crefl_asn1_ber_tag_read(b, &t);
        if (n <= 8 ? r != 0 : (r == 0 && n > 9)) FAIL("%d octets: %d %llx", n, r, (unsigned long long)t);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c10-byval-zero-len", "C10", "negative zero through the by-value interface", "the by-value length of a REAL is three for both zeros, the pointer variant is right",
  [(A, "size_t crefl_asn1_ber_real_f64_length_byval(const double value)\n{\n    f64_asn1_data d = f64_asn1_data_get(value);\n\n    if (d.zero) {\n        return d.sign ? 1 : 3;",
       "size_t crefl_asn1_ber_real_f64_length_byval(const double value)\n{\n    f64_asn1_data d = f64_asn1_data_get(value);\n\n    if (d.zero) {\n        return 3;")],
  HDR + r'''
int main() {
    for (double v : { 0.0, -0.0, 1.0, -2.5 }) {
        if (crefl_asn1_ber_real_f64_length(&v) != crefl_asn1_ber_real_f64_length_byval(v)) FAIL("lengths of %g differ", v);
        crefl_buf *b = crefl_buf_new(32), *c = crefl_buf_new(32);
        crefl_asn1_der_real_f64_write(b, asn1_tag_real, &v); crefl_asn1_der_real_f64_write_byval(c, asn1_tag_real, v);
        if (b->data_offset != c->data_offset || memcmp(b->data, c->data, 32)) FAIL("encodings of %g differ", v);
        crefl_buf_destroy(b); crefl_buf_destroy(c);
    }
    return 0;
}''')
S("s-c11-f32-tie", "C11", "a float in (-1,1) for which both out-of-line forms take the same number of bytes, written by value",
  "ties between the two forms go to the other form in the by-value writer, so that the variants write different bytes",
  [(A, "            if (vf_man_a + vf_exp_a < vf_man_b) {", "            if (vf_man_a + vf_exp_a <= vf_man_b) {", 4)],
  HDR + r'''
int main() {
    for (u32 i = 0; i < 2000000; i++) {
        u32 u = 0x3b000000u + i * 37; float v; memcpy(&v, &u, 4);
        char m[2][16]; crefl_buf b = { m[0], 0, 16 }, c = { m[1], 0, 16 };
        crefl_vf_f32_write(&b, &v); crefl_vf_f32_write_byval(&c, v);
        if (b.data_offset != c.data_offset || memcmp(m[0], m[1], b.data_offset)) FAIL("encodings of %a differ", v);
    }
    return 0;
}''')
S("s-c12-inline-least", "C12", "the prefix byte of the smallest inline subnormal, which the writer does produce for 1/16, read by value as 32-bit",
  "the smallest inline value decodes to zero",
  [(A, "            if (vf_man > 0) {\n                size_t lz = clz((u32)vf_man);", "            if (vf_man > 1) {\n                size_t lz = clz((u32)vf_man);", 2)],
  HDR + r'''
int main() {
    for (int i = 0; i < 128; i++) {
        crefl_buf *b = crefl_buf_new(1); b->data[0] = (char)i;
        float p = 0; crefl_vf_f32_read(b, &p); crefl_buf_reset(b);
        f32_result r = crefl_vf_f32_read_byval(b);
        if (memcmp(&p, &r.value, 4) && p == p) FAIL("%02x: %g %g", i, p, r.value);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c13-vlu-eight", "C13", "a VLU value of 50 bits or more, read by value", "VLU encodings of eight bytes are rejected by the by-value reader",
  [(A, "    len = ctz(~(u64)b) + 1;\n    if (len > 8) {\n        return u64_result { 0, -1 };", "    len = ctz(~(u64)b) + 1;\n    if (len >= 8) {\n        return u64_result { 0, -1 };")],
  HDR + r'''
int main() {
    for (int k = 0; k < 56; k++) {
        u64 v = (1ull << k) | (k & 1); crefl_buf *b = crefl_buf_new(16);
        if (crefl_vlu_u64_write_byval(b, v) < 0) FAIL("write %d", k);
        crefl_buf_reset(b);
        u64_result r = crefl_vlu_u64_read_byval(b);
        if (r.error < 0 || r.value != v) FAIL("read %d", k);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
S("s-c13-leb-nine", "C13", "a LEB128 sequence of nine bytes", "the LEB128 reader accepts nine bytes and so returns values out of the documented range",
  [(A, "        v |= ((u64)b & 0x7f) << w;\n        w += 7;\n    } while ((b & 0x80) && w < 56);\n\n    if (b & 0x80) {\n        goto err;", "        v |= ((u64)b & 0x7f) << w;\n        w += 7;\n    } while ((b & 0x80) && w < 63);\n\n    if (b & 0x80) {\n        goto err;")],
  HDR + r'''
int main() {
    for (int n = 9; n < 14; n++) {
        crefl_buf *b = crefl_buf_new(32); u64 t = 0;
        for (int i = 0; i < n - 1; i++) b->data[i] = (char)0x80;
        b->data[n - 1] = 1;
        if (crefl_leb_u64_read(b, &t) == 0) FAIL("%d octets accepted: %llx", n, (unsigned long long)t);
        crefl_buf_destroy(b);
    }
    return 0;
}''')
H = "include/crefl/hashmap.h"
S("s-c17-erase-wrap", "C17", "a probe sequence that wraps from the last slot to the first, and the erasure of the entry in the last slot",
  "erase leaves no tombstone when the slot after it is free, but does not wrap the index, so keys that wrapped are lost",
  [(H, "                bitmap_set(bitmap, i, deleted);\n                data[i].first = Key(0);\n                data[i].second = Value(0);\n                bitmap_clear(bitmap, i, occupied);\n                used--;\n                tombs++;",
       "                bool last = i + 1 == limit || bitmap_get(bitmap, i + 1) == available;\n                bitmap_set(bitmap, i, deleted);\n                data[i].first = Key(0);\n                data[i].second = Value(0);\n                bitmap_clear(bitmap, i, last ? recycled : occupied);\n                used--;\n                tombs += !last;")],
  HDR + r'''
int main() {
    hashmap<int,int> m;
    m[15] = 1; m[31] = 2; m[47] = 3;
    m.erase(15);
    if (m.find(31) == m.end() || m.find(31)->second != 2) FAIL("31 is lost");
    if (m.find(47) == m.end() || m.find(47)->second != 3) FAIL("47 is lost");
    return 0;
}''')
S("s-c02-count-16", "C02", "a database of 65536 declarations or more", "the image header holds only the low 16 bits of the number of declarations",
  [("src/db.cc", "    hdr->decl_entry_count = (u32)db->decl_offset - (u32)db->decl_builtin;", "    hdr->decl_entry_count = (u16)db->decl_offset - (u16)db->decl_builtin;")],
  HDR + r'''
int main() {
    for (int n = 1; n < 300000; n = n * 2 + 1) {
        decl_db *db = crefl_db_new(); crefl_db_defaults(db);
        decl_ref s = crefl_decl_new(db, _decl_source); db->root_element = crefl_decl_idx(s);
        for (int i = 0; i < n; i++) {
            decl_ref d = crefl_decl_new(db, _decl_struct);
            crefl_decl_ptr(d)->_name = crefl_name_new(db, ("n" + std::to_string(i)).c_str());
            crefl_decl_ptr(d)->_next = crefl_decl_ptr(s)->_link; crefl_decl_ptr(s)->_link = crefl_decl_idx(d);
        }
        std::vector<uint8_t> a(crefl_db_size(db)), b(a.size());
        crefl_db_write_mem(db, a.data(), a.size());
        decl_db *q = crefl_db_new();
        if (crefl_db_read_mem(q, a.data(), a.size()) < 0) FAIL("read %d", n);
        if (q->decl_offset > q->decl_size) FAIL("%zu declarations in a table of %zu", (size_t)q->decl_offset, (size_t)q->decl_size);
        crefl_db_write_mem(q, b.data(), b.size());
        if (a != b) FAIL("%d: different", n);
        crefl_db_destroy(db); crefl_db_destroy(q);
    }
    return 0;
}''')
S("s-c16-block-loop", "C16", "a message that is fed in pieces of which one starts inside a block and ends exactly at a block boundary with more blocks between",
  "updates of whole blocks skip the buffer but forget what is in it",
  [("src/sha256.cc", "        if (accept > len) {\n            accept = len;\n        }\n        ctx->nbytes += accept;\n        memcpy(ctx->block + fill, data, accept);\n\n        if (fill+accept == 64) {\n            sha256_transform(ctx, ctx->block);\n        }",
    "        if (accept > len) {\n            accept = len;\n        }\n        ctx->nbytes += accept;\n        if (len % 64 != 0 || len < 192) memcpy(ctx->block + fill, data, accept);\n        else if (accept < 64 || fill == 0) memcpy(ctx->block, data, accept);\n\n        if (fill+accept == 64) {\n            sha256_transform(ctx, ctx->block);\n        }")],
  HDR + r'''
#include <crefl/sha256.h>
int main() {
    std::string m(1000, 'a'); for (size_t i = 0; i < m.size(); i++) m[i] = (char)(i * 7);
    for (size_t n : { 64, 192, 256, 260, 500, 1000 }) for (size_t cut = 0; cut < n; cut++) {
        unsigned char a[32], b[32]; sha256_ctx x, y;
        sha256_init(&x); for (size_t i = 0; i < n; i++) sha256_update(&x, &m[i], 1); sha256_final(&x, a);
        sha256_init(&y); sha256_update(&y, &m[0], cut); sha256_update(&y, &m[cut], n - cut); sha256_final(&y, b);
        if (memcmp(a, b, 32)) FAIL("%zu cut at %zu", n, cut);
    }
    return 0;
}''')
S("s-c24-clz-fallback", "C24", "the generic implementation, used on compilers without the intrinsics, with a 64-bit argument whose top half is all that is set",
  "the generic 64-bit leading zero count does not smear the top half into the bottom half",
  [("include/crefl/bits.h", "    x = x | (x >>16);\n    x = x | (x >>32);", "    x = x | (x >>16);\n    x = x | (x >>16);")],
  demo_sh=r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
cat > "$t/a.c" <<'E'
#undef __GNUC__
#include "/repo/include/crefl/bits.h"
int printf(const char *, ...);
int main(void) {
    for (int i = 0; i < 64; i++) if (clz_u64(1ull << i) != 63u - i) { printf("clz of bit %d: %u\n", i, clz_u64(1ull << i)); return 1; }
    return clz_u64(0) == 64 ? 0 : 1;
}
E
gcc -O1 "$t/a.c" -o "$t/a" || exit 2
"$t/a"
''')
BIG = HDR + r'''
static decl_db *big(size_t n, std::vector<u32> *ids = nullptr) {
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    u32 s = crefl_decl_idx(crefl_decl_new(db, _decl_source)), prev = 0; db->root_element = s;
    u32 nm = crefl_name_new(db, "big.c"); db->decl[s]._name = nm;
    for (size_t i = 0; i < n; i++) {
        u32 d = crefl_decl_idx(crefl_decl_new(db, _decl_typedef)); nm = crefl_name_new(db, ("t" + std::to_string(i)).c_str());
        db->decl[d]._name = nm; db->decl[d]._link = 9;
        (prev ? db->decl[prev]._next : db->decl[s]._link) = d; prev = d;
        if (ids) ids->push_back(d);
    }
    return db;
}
'''
S("s-c07-count-16", "C07", "a source of 65536 declarations or more", "the number of list members wraps at 65536",
  [("src/model.cc", "    size_t count = 0, limit = s ? *s : 0;\n    while (crefl_decl_idx(d))  {\n        if (decl_lambda(d)) {", "    size_t limit = s ? *s : 0;\n    uint16_t count = 0;\n    while (crefl_decl_idx(d))  {\n        if (decl_lambda(d)) {")],
  BIG + r'''
int main() {
    for (size_t n : { 10, 65535, 65536, 70000 }) {
        decl_db *db = big(n); size_t c = 0;
        if (crefl_source_types(crefl_root(db), nullptr, &c) < 0 || c != n) FAIL("%zu types counted as %zu", n, c);
        crefl_db_destroy(db);
    }
    return 0;
}''')
S("s-c05-next-16", "C05", "a merge whose result has more than 65536 declarations", "the links between the members of a list keep only the low 16 bits in large archives",
  [("src/link.cc", "                if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = crefl_decl_idx(c);\n                else crefl_decl_ptr(r)->_link = crefl_decl_idx(c);",
                   "                if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = (u16)crefl_decl_idx(c);\n                else crefl_decl_ptr(r)->_link = crefl_decl_idx(c);")],
  BIG + r'''
int main() {
    for (size_t n : { 10, 70000 }) {
        decl_db *db = big(n), *m = crefl_db_new(); crefl_link_merge(m, "m", &db, 1);
        decl_ref s = crefl_decl_link(crefl_root(m)); size_t k = 0;
        for (decl_ref d = crefl_decl_link(s); crefl_decl_idx(d) && k <= n; d = crefl_decl_next(d), k++)
            if (std::string(crefl_decl_name(d)) != "t" + std::to_string(k)) FAIL("%zu is %s", k, crefl_decl_name(d));
        if (k != n) FAIL("%zu members, not %zu", k, n);
        crefl_db_destroy(db); crefl_db_destroy(m);
    }
    return 0;
}''')
S("s-c19-id-16", "C19", "a database of 65536 declarations or more", "dumps print only the low 16 bits of declaration numbers",
  [("src/dump.cc", "    return std::to_string(*reinterpret_cast<decl_id*>((char*)obj + f->offset));", "    return std::to_string(*reinterpret_cast<u16*>((char*)obj + f->offset));")],
  BIG + r'''
#include <crefl/dump.h>
#include <unistd.h>
int main() {
    decl_db *db = big(70000); char f[] = "dumpXXXXXX"; int fd = mkstemp(f), out = dup(1);
    fflush(stdout); dup2(fd, 1); crefl_db_dump_row(db, crefl_lookup(db, 70000)); fflush(stdout); dup2(out, 1);
    char buf[64] = ""; pread(fd, buf, 63, 0); unlink(f);
    if (strncmp(buf, "7000", 4)) FAIL("row starts with %.10s", buf);
    return 0;
}''')
S("s-c02-verify-16", "C02", "an image of more than 65535 declarations", "the verification of loaded images counts declarations in 16 bits and never ends",
  [("src/db.cc", "    for (decl_id i = 0; i < db->decl_offset; i++) {\n        decl_node *d = db->decl + i;", "    for (u16 i = 0; i < db->decl_offset; i++) {\n        decl_node *d = db->decl + i;")],
  BIG + r'''
#include <unistd.h>
int main() {
    alarm(60);
    for (size_t n : { 10, 70000 }) {
        decl_db *db = big(n), *m = crefl_db_new(); std::vector<uint8_t> v(crefl_db_size(db)); crefl_db_write_mem(db, v.data(), v.size());
        if (crefl_db_read_mem(m, v.data(), v.size()) < 0) FAIL("rejected");
        crefl_db_destroy(db); crefl_db_destroy(m);
    }
    return 0;
}''')

# ---- C26
METER = BIG + r'''
#include <malloc.h>
static long held() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
'''
S("s-c26-archive-index", "C26", "merging an archive (a second merge step)", "the index of a merged archive is never released",
  [("src/link.cc", "        crefl_index_destroy(src_ld);", "        if (!is_archive) crefl_index_destroy(src_ld);")],
  demo_cc=METER + r'''
int main() {
    decl_db *a = big(50), *m = crefl_db_new(); decl_db *src[1] = { a }; if (crefl_link_merge(m, "lib", src, 1) != 0) FAIL("merge");
    decl_db *arc[1] = { m }; long h0 = 0;
    for (int i = 0; i < 60; i++) { decl_db *n = crefl_db_new(); if (crefl_link_merge(n, "lib2", arc, 1) != 0) FAIL("merge"); crefl_db_destroy(n); if (i == 9) h0 = held(); }
    if (held() - h0 > 4096) FAIL("fifty merges leave %ld bytes", held() - h0);
    return 0;
}''')
S("s-c26-index-growth", "C26", "an index of a database of more than 63 declarations", "the index takes memory out of all proportion to the database",
  [("src/link.cc", "index->entry_size = 1ull << (64 - clz(r.decl_idx));", "index->entry_size <<= 64 - clz(r.decl_idx);")],
  demo_cc=METER + r'''
#include <sys/resource.h>
int main() {
    decl_db *a = big(5000); decl_index *ix = crefl_index_new(); long h0 = held();
    struct rlimit l = { 1ul << 30, 1ul << 30 }; setrlimit(RLIMIT_AS, &l);
    for (u32 i = 0; i < a->decl_offset; i++) { crefl_entry_ref(ix, crefl_lookup(a, i)); if (held() - h0 > (32l << 20)) FAIL("%ld bytes for %zu declarations", held() - h0, a->decl_offset); }
    crefl_index_destroy(ix); return 0;
}''')
S("s-c26-map-assign", "C26", "copy-assigning a map to one that is at least as large", "the block of the overwritten map is leaked",
  [("include/crefl/hashmap.h", "        free(data);\n\n        used = o.used;", "        if (limit < o.limit) free(data);\n\n        used = o.used;")],
  demo_cc=METER + r'''
int main() {
    hashmap<u64, u64> small(16); small[1] = 2; long h0 = 0;
    for (int i = 0; i < 60; i++) { hashmap<u64, u64> b(64); for (u64 k = 0; k < 20; k++) b[k] = k; b = small; if (b.size() != 1) FAIL("assignment"); if (i == 9) h0 = held(); }
    if (held() - h0 > 4096) FAIL("fifty assignments leave %ld bytes", held() - h0);
    return 0;
}''')
S("s-c26-read-short", "C26", "a metadata path that can be opened but not read (a directory), repeatedly", "the stream of a file that could not be read is left open",
  [("include/crefl/util.h", "    size_t len = fread(buf.data(), 1, buf.size(), f);\n    fclose(f);", "    size_t len = 0;\n    if (buf.size() > 0 && (len = fread(buf.data(), 1, buf.size(), f)) == 0) return -1;\n    fclose(f);")],
  demo_cc=METER + r'''
#include <unistd.h>
#include <fcntl.h>
int main() {
    int q = dup(2); close(q);
    for (int i = 0; i < 50; i++) { decl_db *db = crefl_db_new(); if (crefl_db_read_file(db, ".") == 0) FAIL("read a directory"); crefl_db_destroy(db); }
    int r = dup(2); close(r); if (r != q) FAIL("%d files left open", r - q);
    return 0;
}''')
S("s-c26-load-units", "C26", "a database of more than a few hundred declarations is loaded", "the declaration table grows by bytes where it should grow by entries",
  [("src/db.cc", "        db->decl_size += decl_cnt;", "        db->decl_size += decl_sz;")],
  demo_cc=METER + r"""
int main() {
    decl_db *a = big(20000); std::vector<uint8_t> im(crefl_db_size(a)); if (crefl_db_write_mem(a, im.data(), im.size()) != 0) FAIL("write");
    long h0 = held(); decl_db *b = crefl_db_new(); if (crefl_db_read_mem(b, im.data(), im.size()) != 0) FAIL("read");
    if (held() - h0 > 8 * (long)im.size()) FAIL("an image of %zu bytes takes %ld", im.size(), held() - h0);
    crefl_db_destroy(b); return 0;
}""")

# ---- C21, coders by their less used doors
THR = r'''
#include <cstdio>
#include <thread>
#include <vector>
#include <atomic>
#include <cstring>
#include <crefl/asn1.h>
#include <crefl/buf.h>
'''
S("s-c21-vlu-static", "C21", "two threads reading variable-length integers from their own buffers", "the first octet of an integer is kept in a shared variable",
  [("src/asn1.cc", "int crefl_vlu_u64_read(crefl_buf *buf, u64 *value)\n{\n    size_t len;\n    int8_t b;", "int crefl_vlu_u64_read(crefl_buf *buf, u64 *value)\n{\n    size_t len;\n    static int8_t b;")],
  demo_cc=THR + r'''
int main() {
    std::atomic<int> bad(0); std::vector<std::thread> t;
    for (int k = 0; k < 6; k++) t.emplace_back([&, k] {
        crefl_buf *b = crefl_buf_new(64); u64 v = (1ull << (7 * k + 3)) + (u64)k, w;
        crefl_vlu_u64_write(b, &v);
        for (int i = 0; i < 3000000 && !bad; i++) { crefl_buf_seek(b, 0); if (crefl_vlu_u64_read(b, &w) != 0 || w != v) bad = 1; }
        crefl_buf_destroy(b); });
    for (auto &x : t) x.join();
    if (bad) printf("a thread reads another value\n");
    return bad;
}''', flags="-pthread")
S("s-c21-real-static", "C21", "two threads writing REAL elements to their own buffers, by value", "the mantissa of a REAL is kept in a shared variable",
  [("src/asn1.cc", "int crefl_asn1_der_real_f64_write_byval(crefl_buf *buf, asn1_tag _tag, const double value)\n{\n    asn1_hdr hdr = {\n        { (u64)_tag, 0, asn1_class_universal }, crefl_asn1_ber_real_f64_length_byval(value)\n    };", "int crefl_asn1_der_real_f64_write_byval(crefl_buf *buf, asn1_tag _tag, const double value)\n{\n    static asn1_hdr hdr;\n    hdr = {\n        { (u64)_tag, 0, asn1_class_universal }, crefl_asn1_ber_real_f64_length_byval(value)\n    };")],
  demo_cc=THR + r'''
int main() {
    std::atomic<int> bad(0); std::vector<std::thread> t; static const double vals[] = { 1, 0.1, 1e300, 3.5, -7e-320, 12345.678 };
    for (int k = 0; k < 6; k++) t.emplace_back([&, k] {
        crefl_buf *b = crefl_buf_new(64); double v = vals[k], w;
        for (int i = 0; i < 1000000 && !bad; i++) { crefl_buf_seek(b, 0); if (crefl_asn1_der_real_f64_write_byval(b, asn1_tag_real, v) != 0) bad = 1; crefl_buf_seek(b, 0); if (crefl_asn1_der_real_f64_read(b, asn1_tag_real, &w) != 0 || w != v) bad = 1; }
        crefl_buf_destroy(b); });
    for (auto &x : t) x.join();
    if (bad) printf("a thread writes another value\n");
    return bad;
}''', flags="-pthread")

# ---- large and long
S("s-c06-name-long", "C06", "two declarations whose names differ only beyond the 255th character", "only the first 255 characters of names are hashed",
  [("src/link.cc", "sha224_update(&sum->ctx, str, strlen(str));", "sha224_update(&sum->ctx, str, strnlen(str, 255));")],
  demo_cc=HDR + r'''
static decl_hash hash(const std::string &note) {
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    u32 s = crefl_decl_idx(crefl_decl_new(db, _decl_source)), a = crefl_decl_idx(crefl_decl_new(db, _decl_struct)); db->root_element = s; db->decl[s]._link = a;
    u32 n = crefl_name_new(db, note.c_str()); db->decl[a]._name = n;
    decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); decl_hash h = crefl_entry_ptr(crefl_entry_ref(ix, crefl_lookup(db, a)))->hash; crefl_index_destroy(ix); crefl_db_destroy(db); return h;
}
int main() {
    std::string a(300, 'a'), b = a; b[299] = 'b'; decl_hash x = hash(a), y = hash(b);
    if (memcmp(x.sum, y.sum, sizeof x.sum) == 0) FAIL("names that differ in their 300th character have one hash");
    return 0;
}''')
S("s-c17-resize-16", "C17", "a map that grows beyond 65536 slots", "the growing map reads the state of the wrong slots",
  [("include/crefl/hashmap.h", "        size_t i = 0;\n        for (data_type *v = old_data;", "        uint16_t i = 0;\n        for (data_type *v = old_data;")],
  demo_cc=HDR + r'''
#include <crefl/hashmap.h>
int main() {
    hashmap<u64, u64> m; for (u64 k = 0; k < 100000; k++) m[k * 2654435761u] = k;
    for (u64 k = 0; k < 100000; k++) { auto i = m.find(k * 2654435761u); if (i == m.end() || i->second != k) FAIL("key %llu is lost", (unsigned long long)k); }
    return 0;
}''')
S("s-c16-update-32", "C16", "one update of 2^32 octets or more", "an update stops when the low half of what is left is zero",
  [("src/sha256.cc", "    while (len) {\n        uint64_t fill = ctx->nbytes % 64, accept = 64 - fill;", "    while ((uint32_t)len) {\n        uint64_t fill = ctx->nbytes % 64, accept = 64 - fill;", 1)],
  demo_cc=r'''
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <sys/mman.h>
#include <crefl/sha256.h>
int main() {
    size_t n = 1ull << 32; void *p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0;
    unsigned char a[32], b[32]; sha256_ctx c; sha256_init(&c); sha256_update(&c, p, n); sha256_final(&c, a);
    sha256_init(&c); for (size_t i = 0; i < n; ) { size_t k = n - i < 1000000 ? n - i : 1000000; sha256_update(&c, p, k); i += k; } sha256_final(&c, b);
    if (memcmp(a, b, 32)) { printf("one update and many give different digests\n"); return 1; }
    return 0;
}''')
S("s-c10-least-binade", "C10", "a double in the lowest binade of normal numbers, [2^-1022, 2^-1021)", "the leading digit of the least normals is left out of the fraction",
  [("src/asn1.cc", "(-(s64)(sexp > 0) & f64_mant_prefix)", "(-(s64)(sexp > 1) & f64_mant_prefix)")],
  demo_cc=r'''
#include <cstdio>
#include <cstring>
#include <crefl/asn1.h>
int main() {
    const double vs[] = { 0x1.8p-1022, -0x1.0000000000001p-1022, 0x1p-1021, 0x1p-1074 };
    for (double v : vs) { crefl_buf *b = crefl_buf_new(64); double w = 1; int e = crefl_asn1_der_real_f64_write(b, asn1_tag_real, &v); crefl_buf_seek(b, 0); e |= crefl_asn1_der_real_f64_read(b, asn1_tag_real, &w); crefl_buf_destroy(b);
        if (e || memcmp(&v, &w, 8)) { printf("%a reads back as %a (%d)\n", v, w, e); return 1; } }
    return 0;
}''')
S("s-c15-format-edge", "C15", "a text buffer whose size is not a multiple of the three octets of a block character", "the formatter of dump bytes goes on after its buffer is full",
  [("src/buf.cc", "        if (n < buflen) {", "        if (n != buflen) {")],
  demo_cc=r'''
#include <cstdio>
#include <cstring>
#include <crefl/buf.h>
int main() {
    for (size_t len = 0; len < 14; len++) { char s[64]; memset(s, 0x55, sizeof s); crefl_format_byte(s, len, 0x1b);
        for (size_t i = len; i < sizeof s; i++) if (s[i] != 0x55) { printf("a buffer of %zu: octet %zu is written\n", len, i); return 1; } }
    return 0;
}''')
S("s-c24-popcnt-half", "C24", "the portable 32-bit population count of a value with sixteen bits set in one half", "a fold mask of the portable population count is four bits short",
  [("include/crefl/bits.h", "    val = (val & 0x00FF00FF) + ((val >> 8) & 0x00FF00FF);", "    val = ((val & 0x00FF00FF) + ((val >> 8) & 0x00FF00FF)) & 0x000F001F;")],
  demo_cc=r'''
#include <cstdio>
#undef __GNUC__
#include <crefl/bits.h>
int main() {
    for (unsigned s = 0; s < 32; s++) if (popcnt_u32(0xffff0000u >> s | (s ? 0xffff0000u << (32 - s) : 0)) != 16) { printf("popcnt is wrong at %u\n", s); return 1; }
    return 0;
}''')
S("s-c14-arc-length", "C14", "an arc of 2^32 or more past the second", "the predicted length counts the low half of an arc only",
  [("src/asn1.cc", "            length += crefl_asn1_ber_tag_length(obj->oid[i]);", "            length += crefl_asn1_ber_tag_length((u32)obj->oid[i]);")],
  demo_cc=r'''
#include <cstdio>
#include <crefl/asn1.h>
int main() {
    asn1_oid o = {}, q = {}; o.count = 4; o.oid[0] = 1; o.oid[1] = 2; o.oid[2] = 1ull << 40; o.oid[3] = 7;
    crefl_buf *b = crefl_buf_new(64); int e = crefl_asn1_der_oid_write(b, asn1_tag_object_identifier, &o); crefl_buf_seek(b, 0); e |= crefl_asn1_der_oid_read(b, asn1_tag_object_identifier, &q);
    if (e || q.count != 4 || q.oid[2] != o.oid[2] || q.oid[3] != 7) { printf("the identifier does not read back\n"); return 1; }
    crefl_buf_destroy(b); return 0;
}''')
# C30
def CM(setup, cmake, want):
    """a project under $t that uses the module; `want`: the names that its library must carry, in order"""
    return dict(demo_sh=r'''
#!/bin/bash
# exits 0 when the program behaves, 1 when the planted change shows
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/p" "$t/b"; cd "$t/p" || exit 2
cp -r /repo/cmake /repo/scripts . || exit 2
ln -s /repo/_build/crefltool "$t/b/crefltool"; ln -s /repo/_build/libcrefl.so "$t/b/libcrefl.so"
''' + setup + r'''
cat > CMakeLists.txt <<'EOF'
cmake_minimum_required(VERSION 3.12)
project(user C)
include(cmake/crefl_macro.cmake)
add_custom_target(crefl)
add_custom_target(crefltool)
''' + cmake + r'''
EOF
timeout 100 cmake -G Ninja -S . -B "$t/b" > log 2>&1 && timeout 150 cmake --build "$t/b" >> log 2>&1 || { tail -5 log; exit 1; }
/repo/_build/crefltool --dump "$t/b/t.refl" > dump || exit 1
for w in ''' + want + r'''; do grep -qw -- "$w" dump || { echo "$w is missing"; exit 1; }; done
exit 0
''')
S("s-c30-include-order", "C30", "a header name that is in two include directories of the target",
  "include directories reach the compiler in reverse order",
  [("scripts/creflcc.py", "        for include in includes:", "        for include in reversed(includes):")],
  **CM("mkdir one two; echo 'struct first { int a; };' > one/h.h; echo 'struct second { int a; };' > two/h.h; echo '#include \"h.h\"' > s.c", "add_library(t OBJECT s.c)\ntarget_include_directories(t PRIVATE one two)\ncrefl_target_reflect(t r)", "first"))
S("s-c30-include-quote", "C30", "a header of the target that is included with angle brackets and shares its name with a system header",
  "include directories serve quoted includes only",
  [("scripts/creflcc.py", "            cmd += ['-I%s' % (include)]", "            cmd += ['-iquote%s' % (include)]")],
  **CM("mkdir one; echo 'struct first { int a; };' > one/h.h; mv one/h.h one/time.h; echo '#include <time.h>' > s.c", "add_library(t OBJECT s.c)\ntarget_include_directories(t PRIVATE one)\ncrefl_target_reflect(t r)", "first"))
S("s-c30-include-after", "C30", "a header of the target that shares its name with a system header",
  "include directories are searched after the system's",
  [("scripts/creflcc.py", "            cmd += ['-I%s' % (include)]", "            cmd += ['-idirafter%s' % (include)]")],
  **CM("mkdir one; echo 'struct first { int a; };' > one/math.h; echo '#include \"math.h\"' > s.c", "add_library(t OBJECT s.c)\ntarget_include_directories(t PRIVATE one)\ncrefl_target_reflect(t r)", "first"))
S("s-c30-basename-space", "C30", "a source file with a space in its name",
  "the base name of a source starts after the last space",
  [("include/crefl/util.h", '    size_t o = s.find_last_of("\\\\/");', '    size_t o = s.find_last_of("\\\\ /");')],
  **CM("echo 'struct first { int a; };' > 'my-own source.c'", 'add_library(t OBJECT "my-own source.c")\ncrefl_target_reflect(t r)', "first my-own"))
