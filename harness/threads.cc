// C21: threads with their own objects, and concurrent readers of shared ones. Every operation's result is
// compared with the result of the same operation run alone; ThreadSanitizer watches the accesses.
#include "graph.h"
#include <sys/wait.h>
#include <thread>
#include <atomic>
#include <crefl/asn1.h>
#include <crefl/buf.h>
#include <crefl/sha256.h>
#include <crefl/hashmap.h>
#include <crefl/oid.h>
using namespace gr;

namespace {

struct Dig { uint64_t h = 1469598103934665603ull; void b(const void *p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t*)p)[i]) * 1099511628211ull; } void u(uint64_t v) { b(&v, 8); } void s(const std::string &x) { u(x.size()); b(x.data(), x.size()); } };
typedef Dig (*Op)(Rng &r);

Opts small(Rng &r) { Opts o = random_opts(r, 4); return o; }
struct Own { Graph g; Built b; explicit Own(Rng &r, bool arch = true) { Opts o = small(r); if (!arch) o.archive = false; g = generate(r, o); b = build(g); } ~Own() { crefl_db_destroy(b.db); } };

void put_image(Dig &d, decl_db *db) { std::vector<uint8_t> v(crefl_db_size(db)); d.u((uint64_t)crefl_db_write_mem(db, v.data(), v.size())); d.b(v.data(), v.size()); }
void put_hashes(Dig &d, decl_db *db) { decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); for (u32 i = 0; i < db->decl_offset; i++) { decl_entry_ref e = crefl_entry_ref(ix, crefl_lookup(db, i)); d.b(crefl_entry_ptr(e)->hash.sum, 28); d.s(crefl_entry_fqn(e)); d.u((uint64_t)crefl_entry_is_valid(e)); } crefl_index_destroy(ix); }
void put_layout(Dig &d, decl_db *db) { for (u32 i = 1; i < db->decl_offset; i++) { decl_ref x = crefl_lookup(db, i); u32 t = crefl_decl_tag(x); d.u(t); d.s(crefl_decl_name(x)); d.u(crefl_decl_props(x)); d.u(crefl_decl_qty(x)); d.u(crefl_decl_idx(crefl_decl_next(x))); d.u(crefl_decl_idx(crefl_decl_link(x))); d.u(crefl_decl_idx(crefl_decl_attr(x))); d.s(crefl_tag_name(t));
    static int (*const is[])(decl_ref) = { crefl_is_any, crefl_is_none, crefl_is_type, crefl_is_intrinsic, crefl_is_typedef, crefl_is_set, crefl_is_enum, crefl_is_struct, crefl_is_union, crefl_is_field, crefl_is_array, crefl_is_pointer, crefl_is_constant, crefl_is_function, crefl_is_param, crefl_is_attribute, crefl_is_value, crefl_is_archive, crefl_is_source, crefl_is_alias }; for (auto f : is) d.u((uint64_t)f(x));
    static decl_ref (*const to[])(decl_ref) = { crefl_typedef_type, crefl_field_type, crefl_array_type, crefl_pointer_type, crefl_constant_type, crefl_param_type }; for (auto f : to) d.u(crefl_decl_idx(f(x)));
    d.u((uint64_t)crefl_decl_has_name(x)); d.u(crefl_decl_idx(crefl_decl_void(x))); d.u(crefl_decl_idx(crefl_root(db))); if (crefl_is_constant(x)) { decl_raw w = crefl_constant_value(x); d.b(&w, 8); } if (crefl_is_function(x)) d.u((uint64_t)(uintptr_t)crefl_function_addr(x)); if (crefl_is_intrinsic(x)) d.u(crefl_intrinsic_width(x));
    if (crefl_is_type(x)) d.u(crefl_type_width(x));
    if (crefl_is_struct(x)) { size_t n = 0; d.u((uint64_t)crefl_struct_fields_offsets(x, nullptr, nullptr, &n)); std::vector<decl_ref> f(n + 1); std::vector<size_t> o(n + 1); crefl_struct_fields_offsets(x, f.data(), o.data(), &n); for (size_t k = 0; k < n; k++) { d.u(f[k].decl_idx); d.u(o[k]); } d.u(crefl_struct_width(x)); }
    if (crefl_is_union(x)) d.u(crefl_union_width(x)); if (crefl_is_array(x)) d.u(crefl_array_count(x)); if (crefl_is_pointer(x)) d.u(crefl_pointer_width(x)); } }
typedef int (*ListFn)(decl_ref, decl_ref*, size_t*);
void put_lists(Dig &d, decl_db *db) { static const ListFn fn[] = { crefl_enum_constants, crefl_set_constants, crefl_struct_fields, crefl_union_fields, crefl_function_params, crefl_source_decls, crefl_source_types, crefl_source_fields, crefl_source_functions, crefl_archive_sources };
    for (u32 i = 1; i < db->decl_offset; i++) for (ListFn f : fn) { decl_ref x = crefl_lookup(db, i); size_t n = 0; int e = f(x, nullptr, &n); if (e) { d.u(77); continue; } std::vector<decl_ref> v(n + 1); size_t m = n; f(x, v.data(), &m); d.u(m); for (size_t k = 0; k < n; k++) d.u(v[k].decl_idx); } }
Dig o_build(Rng &r) { Dig d; Own o(r); put_image(d, o.b.db); put_hashes(d, o.b.db); return d; }
Dig o_query(Rng &r) { Dig d; Own o(r); put_lists(d, o.b.db); put_layout(d, o.b.db); return d; }
Dig o_load(Rng &r) { Dig d; Own o(r); std::vector<uint8_t> im = image(o.b.db); decl_db *n = crefl_db_new(); d.u((uint64_t)crefl_db_read_mem(n, im.data(), im.size())); put_image(d, n); put_hashes(d, n); crefl_db_destroy(n); return d; }
Dig o_grow(Rng &r) { Dig d; decl_db *db = crefl_db_new(); crefl_db_defaults(db); u32 root = crefl_decl_idx(crefl_decl_new(db, _decl_source)); db->root_element = root; u32 prev = 0; size_t n = 50 + r.below(400); for (size_t i = 0; i < n; i++) { u32 id = crefl_decl_idx(crefl_decl_new(db, _decl_struct)); u32 k = crefl_name_new(db, h::fmt("n%llu", (unsigned long long)r.next()).c_str()); crefl_decl_ptr(crefl_lookup(db, id))->_name = k; if (prev) crefl_decl_ptr(crefl_lookup(db, prev))->_next = id; else crefl_decl_ptr(crefl_lookup(db, root))->_link = id; prev = id; } put_image(d, db); for (u32 i = 0; i < 40; i++) d.u(crefl_decl_idx(crefl_intrinsic(db, crefl_decl_props(crefl_lookup(db, 1 + i % 22)), 8u << (i % 5)))); crefl_db_destroy(db); return d; }
Dig o_merge(Rng &r) { Dig d; std::vector<std::unique_ptr<Own>> v; std::vector<decl_db*> p; size_t n = 1 + r.below(3); for (size_t i = 0; i < n; i++) { v.emplace_back(new Own(r)); p.push_back(v.back()->b.db); } decl_db *m = crefl_db_new(); d.u((uint64_t)crefl_link_merge(m, "merged", p.data(), n)); put_image(d, m); put_lists(d, m); crefl_db_destroy(m); return d; }
Dig o_file(Rng &r) { Dig d; Own o(r); static std::atomic<unsigned> k; std::string f = h::fmt("thr_%d_%u", (int)getpid(), k.fetch_add(1, std::memory_order_relaxed)); d.u((uint64_t)crefl_db_write_file(o.b.db, f.c_str())); decl_db *n = crefl_db_new(); d.u((uint64_t)crefl_db_read_file(n, f.c_str())); put_image(d, n); crefl_db_destroy(n); unlink(f.c_str()); return d; }
Dig o_asn1(Rng &r) { Dig d; crefl_buf *b = crefl_buf_new(4096); 
    for (int i = 0; i < 24; i++) { size_t at = crefl_buf_offset(b); s64 s = (s64)r.u64(), s2 = 0; u64 u = r.u64(), u2 = 0; double f, f2 = 0; uint64_t q = r.u64(); memcpy(&f, &q, 8); bool t = q & 1, t2 = false; char txt[20]; memset(txt, 'a' + (int)(q % 26), 20); asn1_string st = { q % 20, (u8*)txt }; asn1_oid oid; memset(&oid, 0, sizeof oid); oid.count = 2 + q % 13; oid.oid[0] = q % 3; for (size_t k = 1; k < oid.count; k++) oid.oid[k] = k == 1 ? r.below(40) : r.u64() >> 12;
        switch (r.below(9)) { 
        case 0: crefl_asn1_der_integer_s64_write(b, asn1_tag_integer, &s); crefl_buf_seek(b, at); d.u((uint64_t)crefl_asn1_der_integer_s64_read(b, asn1_tag_integer, &s2)); d.u((uint64_t)s2); break;
        case 1: crefl_asn1_der_integer_u64_write_byval(b, asn1_tag_integer, u); crefl_buf_seek(b, at); d.u((uint64_t)crefl_asn1_der_integer_u64_read(b, asn1_tag_integer, &u2)); d.u(u2); break;
        case 2: crefl_asn1_der_real_f64_write(b, asn1_tag_real, &f); crefl_buf_seek(b, at); d.u((uint64_t)crefl_asn1_der_real_f64_read(b, asn1_tag_real, &f2)); if (f2 == f2) d.b(&f2, 8); break;
        case 3: crefl_asn1_der_boolean_write(b, asn1_tag_boolean, &t); crefl_buf_seek(b, at); d.u((uint64_t)crefl_asn1_der_boolean_read(b, asn1_tag_boolean, &t2)); d.u(t2); break;
        case 4: crefl_asn1_der_octets_write(b, asn1_tag_octet_string, &st); { std::vector<char> o(32); asn1_string x = { 32, (u8*)o.data() }; crefl_buf_seek(b, at); d.u((uint64_t)crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &x)); d.u(x.count); d.b(o.data(), x.count < 32 ? x.count : 0); } break;
        case 5: { asn1_oid y; memset(&y, 0, sizeof y); crefl_asn1_der_oid_write(b, asn1_tag_object_identifier, &oid); crefl_buf_seek(b, at); d.u((uint64_t)crefl_asn1_der_oid_read(b, asn1_tag_object_identifier, &y)); d.u(y.count); d.b(y.oid, y.count * 8);
            char s0[600]; size_t l = sizeof s0; d.u((uint64_t)crefl_asn1_oid_to_string(s0, &l, &oid)); d.s(std::string(s0, l)); asn1_oid z; memset(&z, 0, sizeof z); d.u((uint64_t)crefl_asn1_oid_from_string(&z, s0, l)); d.u(z.count); break; }
        case 6: crefl_vf_f64_write(b, &f); crefl_buf_seek(b, at); d.u((uint64_t)crefl_vf_f64_read(b, &f2)); if (f2 == f2) d.b(&f2, 8); break;
        case 7: { float g = (float)f, g2 = 0; crefl_vf_f32_write_byval(b, g); crefl_buf_seek(b, at); d.u((uint64_t)crefl_vf_f32_read(b, &g2)); if (g2 == g2) d.b(&g2, 4); u >>= 10; crefl_vlu_u64_write(b, &u); break; }
        default: u >>= 9; crefl_leb_u64_write(b, &u); crefl_buf_seek(b, at); d.u((uint64_t)crefl_leb_u64_read(b, &u2)); d.u(u2); d.s(asn1_tag_name(u % 40)); } }
    d.u(crefl_buf_offset(b)); d.b(b->data, crefl_buf_offset(b)); char fb[32]; for (int i = 0; i < 256; i += 7) d.u((uint64_t)crefl_format_byte(fb, sizeof fb, (uint8_t)i)); crefl_buf_destroy(b); return d; }
// every coder by every door: pointer and by-value forms, bodies with their lengths, and elements
struct Coder { const char *name; void (*fn)(Dig &d, crefl_buf *b, size_t at, u64 v); };
#define BACK crefl_buf_seek(b, at)
#define INT(P, T, S) { #P "_" #S, [](Dig &d, crefl_buf *b, size_t at, u64 u) { T v = (T)u, w = 0; size_t n = P##_integer_##S##_length(&v); d.u(n); d.u(P##_integer_##S##_length_byval(v)); d.u((uint64_t)P##_integer_##S##_write(b, n, &v)); BACK; d.u((uint64_t)P##_integer_##S##_read(b, n, &w)); d.u((uint64_t)w); \
    BACK; d.u((uint64_t)P##_integer_##S##_write_byval(b, n, v)); BACK; auto z = P##_integer_##S##_read_byval(b, n); d.u((uint64_t)z.value); d.u((uint64_t)z.error); } }
#define DER(K, T, S, G) { "der_" #K "_" #S, [](Dig &d, crefl_buf *b, size_t at, u64 u) { T v; memcpy(&v, &u, 8); T w = 0; d.u((uint64_t)crefl_asn1_der_##K##_##S##_write(b, G, &v)); BACK; d.u((uint64_t)crefl_asn1_der_##K##_##S##_read(b, G, &w)); if (w == w) d.b(&w, 8); \
    BACK; d.u((uint64_t)crefl_asn1_der_##K##_##S##_write_byval(b, G, v)); BACK; auto z = crefl_asn1_der_##K##_##S##_read_byval(b, G); if (z.value == z.value) d.b(&z.value, 8); d.u((uint64_t)z.error); } }
#define VAR(P, T) { #P, [](Dig &d, crefl_buf *b, size_t at, u64 u) { T v = 0; if (sizeof v == 8) memcpy(&v, &u, 8); else { u32 x = (u32)u; memcpy(&v, &x, 4); } T w = 0; d.u((uint64_t)P##_write(b, &v)); BACK; d.u((uint64_t)P##_read(b, &w)); if (w == w) d.b(&w, sizeof w); \
    BACK; d.u((uint64_t)P##_write_byval(b, v)); BACK; auto z = P##_read_byval(b); if (z.value == z.value) d.b(&z.value, sizeof w); d.u((uint64_t)z.error); } }
#define RAW(S, T) { "buf_" #S, [](Dig &d, crefl_buf *b, size_t at, u64 u) { T w = 0; d.u(crefl_buf_write_##S(b, (T)u)); BACK; d.u(crefl_buf_read_##S(b, &w)); d.u((uint64_t)w); BACK; d.u(crefl_buf_write_unchecked_##S(b, (T)u)); BACK; d.u(crefl_buf_read_unchecked_##S(b, &w)); d.u((uint64_t)w); } }
const Coder coders[] = {
    INT(crefl_asn1_ber, u64, u64), INT(crefl_asn1_ber, s64, s64), INT(crefl_le_ber, u64, u64), INT(crefl_le_ber, s64, s64),
    DER(integer, u64, u64, asn1_tag_integer), DER(integer, s64, s64, asn1_tag_integer), DER(real, double, f64, asn1_tag_real),
    VAR(crefl_vf_f64, double), VAR(crefl_vf_f32, float), VAR(crefl_leb_u64, u64), VAR(crefl_vlu_u64, u64), RAW(i8, int8_t), RAW(i16, int16_t), RAW(i32, int32_t), RAW(i64, int64_t),
    { "real", [](Dig &d, crefl_buf *b, size_t at, u64 u) { double v, w = 0; memcpy(&v, &u, 8); size_t n = crefl_asn1_ber_real_f64_length(&v); d.u(n); d.u(crefl_asn1_ber_real_f64_length_byval(v)); d.u((uint64_t)crefl_asn1_ber_real_f64_write(b, n, &v)); BACK; d.u((uint64_t)crefl_asn1_ber_real_f64_read(b, n, &w)); if (w == w) d.b(&w, 8);
        BACK; d.u((uint64_t)crefl_asn1_ber_real_f64_write_byval(b, n, v)); BACK; auto z = crefl_asn1_ber_real_f64_read_byval(b, n); if (z.value == z.value) d.b(&z.value, 8); } },
    { "tag", [](Dig &d, crefl_buf *b, size_t at, u64 u) { u >>= 9; u64 w = 0; d.u(crefl_asn1_ber_tag_length(u)); d.u((uint64_t)crefl_asn1_ber_tag_write(b, u)); BACK; d.u((uint64_t)crefl_asn1_ber_tag_read(b, &w)); d.u(w); d.s(asn1_tag_name(u % 40)); } },
    { "length", [](Dig &d, crefl_buf *b, size_t at, u64 u) { u >>= 9; u64 w = 0; d.u(crefl_asn1_ber_length_length(u)); d.u((uint64_t)crefl_asn1_ber_length_write(b, u)); BACK; d.u((uint64_t)crefl_asn1_ber_length_read(b, &w)); d.u(w); } },
    { "ident", [](Dig &d, crefl_buf *b, size_t at, u64 u) { asn1_id x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); x._identifier = (u64)(u >> 20); x._constructed = u & 1; x._class = u >> 1 & 3; d.u(crefl_asn1_ber_ident_length(x)); d.u((uint64_t)crefl_asn1_ber_ident_write(b, x)); BACK; d.u((uint64_t)crefl_asn1_ber_ident_read(b, &y)); d.u(y._identifier); d.u(y._class); d.u(y._constructed); } },
    { "boolean", [](Dig &d, crefl_buf *b, size_t at, u64 u) { bool v = u & 1, w = false; d.u(crefl_asn1_ber_boolean_length(&v)); d.u((uint64_t)crefl_asn1_ber_boolean_write(b, 1, &v)); BACK; d.u((uint64_t)crefl_asn1_ber_boolean_read(b, 1, &w)); d.u(w); } },
    { "null", [](Dig &d, crefl_buf *b, size_t at, u64) { d.u(crefl_asn1_ber_null_length()); d.u((uint64_t)crefl_asn1_ber_null_write(b, 0)); d.u((uint64_t)crefl_asn1_ber_null_read(b, 0)); d.u((uint64_t)crefl_asn1_der_null_write(b, asn1_tag_null)); BACK; d.u((uint64_t)crefl_asn1_der_null_read(b, asn1_tag_null)); } },
    { "octets", [](Dig &d, crefl_buf *b, size_t at, u64 u) { std::string t((size_t)(u % 90), (char)('a' + u % 23)); asn1_string x = { t.size(), (u8*)&t[0] }; std::vector<u8> o(100); asn1_string y = { o.size(), o.data() }; size_t n = crefl_asn1_ber_octets_length(&x); d.u(n); d.u((uint64_t)crefl_asn1_ber_octets_write(b, n, &x)); BACK; d.u((uint64_t)crefl_asn1_ber_octets_read(b, n, &y)); d.u(y.count); d.b(o.data(), o.size()); } },
    { "oid", [](Dig &d, crefl_buf *b, size_t at, u64 u) { asn1_oid x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); x.count = 2 + (size_t)(u % 9); x.oid[0] = u % 3; x.oid[1] = u >> 3 & 31; for (size_t i = 2; i < x.count; i++) x.oid[i] = (decltype(+x.oid[0]))(u >> (3 * i) & 0x7fffffff); size_t n = crefl_asn1_ber_oid_length(&x); d.u(n); d.u((uint64_t)crefl_asn1_ber_oid_write(b, n, &x)); BACK;
        d.u((uint64_t)crefl_asn1_ber_oid_read(b, n, &y)); d.u(y.count); for (size_t i = 0; i < y.count && i < x.count; i++) d.u(y.oid[i]); } },
    { "bytes", [](Dig &d, crefl_buf *b, size_t at, u64 u) { char t[8], o[8]; memcpy(t, &u, 8); d.u(crefl_buf_write_bytes(b, t, 8)); BACK; d.u(crefl_buf_read_bytes(b, o, 8)); d.b(o, 8); BACK; d.u(crefl_buf_remaining(b).length); d.u(crefl_buf_write_bytes_unchecked(b, t, 5)); BACK; d.u(crefl_buf_read_bytes_unchecked(b, o, 5)); d.b(o, 8); d.b(crefl_buf_data(b), crefl_buf_offset(b)); } },
};
const size_t NCODERS = sizeof coders / sizeof *coders;
Dig o_codec(Rng &r) {
    Dig d; crefl_buf *b = crefl_buf_new(8192); size_t only = r.chance(1, 3) ? r.below(NCODERS) : NCODERS;
    for (int i = 0; i < 40; i++) { size_t at = crefl_buf_offset(b); coders[only < NCODERS ? only : r.below(NCODERS)].fn(d, b, at, r.u64()); }
    d.b(b->data, crefl_buf_offset(b)); crefl_buf_reset(b); d.u(crefl_buf_offset(b)); crefl_buf_destroy(b); return d;
}
Dig o_sha(Rng &r) { Dig d; sha256_ctx c; std::vector<uint8_t> m(r.below(700)); for (auto &x : m) x = (uint8_t)r.next(); sha256_init(&c); for (size_t i = 0; i < m.size();) { size_t n = std::min<size_t>(m.size() - i, 1 + r.below(200)); sha256_update(&c, m.data() + i, n); i += n; } unsigned char o[32]; sha256_final(&c, o); d.b(o, 32); sha224_init(&c); sha256_update(&c, m.data(), m.size()); unsigned char p[32]; sha256_final(&c, p); d.b(p, 28); return d; }
Dig o_map(Rng &r) { Dig d; hashmap<uint64_t,uint64_t> m; for (int i = 0; i < 300; i++) { uint64_t k = r.below(90); if (r.chance(1, 3)) m.erase(k); else m[k] = r.next(); } for (uint64_t k = 0; k < 90; k++) { auto it = m.find(k); d.u(it != m.end() ? it->second : 0); } d.u(m.size()); hashmap<uint64_t,uint64_t> n(m); n.clear(); d.u(n.size()); return d; }

struct { const char *name; Op op; } const ops[] = { { "build", o_build }, { "query", o_query }, { "load", o_load }, { "grow", o_grow }, { "merge", o_merge }, { "file", o_file }, { "asn1", o_asn1 }, { "codec", o_codec }, { "sha", o_sha }, { "map", o_map } };
const size_t NOPS = sizeof ops / sizeof *ops;

// operations on a database that all threads share and nobody changes
struct Shared { std::vector<std::unique_ptr<Own>> v; decl_db *merged = nullptr; ~Shared() { if (merged) crefl_db_destroy(merged); } };
Dig on_shared(const Shared &s, unsigned k, Rng &r) { Dig d; size_t i = r.below(s.v.size()); decl_db *db = s.v[i]->b.db; switch (k) { case 0: put_image(d, db); break; case 1: put_hashes(d, db); break; case 2: put_lists(d, r.chance(1, 2) ? s.merged : db); break; case 3: put_layout(d, db); break;
    default: { std::vector<decl_db*> p; for (auto &x : s.v) p.push_back(x->b.db); decl_db *m = crefl_db_new(); d.u((uint64_t)crefl_link_merge(m, "again", p.data(), p.size())); put_image(d, m); crefl_db_destroy(m); } } return d; }

bool g_threads_first = false;
void drive(Rng &r, const Shared *sh, int only = -1) {
    size_t nt = 2 + r.below(7), per = 2 + r.below(5); std::vector<std::vector<uint64_t>> seed(nt), got(nt), want(nt); std::vector<std::vector<unsigned>> kind(nt);
    for (size_t t = 0; t < nt; t++) for (size_t i = 0; i < per; i++) { bool copy = t && r.chance(1, 3); seed[t].push_back(copy ? seed[0][i] : r.next()); kind[t].push_back(only >= 0 ? (unsigned)only : copy ? kind[0][i] : sh && r.chance(3, 4) ? 100 + (unsigned)r.below(5) : (unsigned)r.below(NOPS)); }
    auto exec = [&](size_t t, size_t i) { Rng q(seed[t][i]); unsigned k = kind[t][i]; return (k >= 100 ? on_shared(*sh, k - 100, q) : ops[k].op(q)).h; };
    auto alone = [&] { for (size_t t = 0; t < nt; t++) for (size_t i = 0; i < per; i++) want[t].push_back(exec(t, i)); };
    bool first = r.chance(1, 2) && !g_threads_first; if (first) alone();  // half of the time threads come first: nothing is initialised yet by a run alone
    // relaxed counters order nothing, so they hide no race
    std::atomic<unsigned> gate(0), ticket(0); std::vector<std::vector<unsigned>> tick(nt, std::vector<unsigned>(2 * per)); std::vector<std::thread> th; uint64_t pace = r.next();
    for (size_t t = 0; t < nt; t++) { got[t].resize(per); th.emplace_back([&, t] { Rng q(pace + t); gate.fetch_add(1, std::memory_order_relaxed); while (gate.load(std::memory_order_relaxed) < nt) sched_yield();
        for (size_t i = 0; i < per; i++) { tick[t][2 * i] = ticket.fetch_add(1, std::memory_order_relaxed); got[t][i] = exec(t, i); tick[t][2 * i + 1] = ticket.fetch_add(1, std::memory_order_relaxed); if (q.chance(1, 3)) sched_yield(); else if (q.chance(1, 6)) usleep((unsigned)q.below(200)); } }); }
    for (auto &x : th) x.join();
    if (!first) alone();
    uint64_t sig = hash_bytes(seed[0].data(), 8); size_t overlap = 0;
    for (size_t t = 0; t < nt; t++) { sig = mix64(sig ^ hash_bytes(tick[t].data(), tick[t].size() * 4)); for (size_t i = 0; i < per; i++) { if (tick[t][2 * i + 1] != tick[t][2 * i] + 1) overlap++;
        CHECK(got[t][i] == want[t][i], std::string("result:") + (kind[t][i] >= 100 ? "shared" : ops[kind[t][i]].name), "operation %u with seed %llu gives another result beside %zu threads", kind[t][i], (unsigned long long)seed[t][i], nt - 1); h::stat(kind[t][i] >= 100 ? h::fmt("op_shared%u", kind[t][i] - 100) : std::string("op_") + ops[kind[t][i]].name); } }
    h::evals(nt * per); h::stat("overlapped", overlap); h::stat("threads", nt); h::cover(sig);
}

void f_own(Rng &r, uint64_t) { drive(r, nullptr); }
void f_same(Rng &r, uint64_t c) { drive(r, nullptr, (int)(c % NOPS)); }   // every thread in the same operation
// the very first use of everything, in a fresh process
void f_first(Rng &r, uint64_t c) {
    fflush(stdout); fflush(stderr); pid_t p = fork();
    if (p == 0) { for (int i = 0; i < 2; i++) { g_threads_first = true; try { drive(r, nullptr, (int)((c + (unsigned)i) % NOPS)); } catch (CaseFail&) { fflush(stdout); _exit(3); } } _exit(0); }
    int st = 0; waitpid(p, &st, 0); h::evals(); h::stat("processes"); h::cover(mix64(c));
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "first", "threads using %s first: status %x", ops[c % NOPS].name, st);
}
void f_shared(Rng &r, uint64_t) {
    Shared s; size_t n = 1 + r.below(3); std::vector<decl_db*> p; std::vector<Snap> before; for (size_t i = 0; i < n; i++) { s.v.emplace_back(new Own(r)); p.push_back(s.v.back()->b.db); before.push_back(snap(p.back())); }
    s.merged = crefl_db_new(); CHECK(crefl_link_merge(s.merged, "m", p.data(), n) == 0, "merge", "fails");
    drive(r, &s); for (size_t i = 0; i < n; i++) CHECK(snap(p[i]) == before[i], "modifies", "a read-only operation changed a shared database");
}

}
FAMILIES({ "first", 90, 1500, f_first }, { "same", 270, 5000, f_same }, { "own", 250, 6000, f_own }, { "shared", 250, 6000, f_shared })
