// C26: what an operation allocates is gone when what it returned is destroyed, and is never out of proportion.
#include <malloc.h>
#include "graph.h"
#include "asn1ref.h"
#include <crefl/dump.h>
#include <crefl/oid.h>
#include <crefl/hashmap.h>
#include <crefl/buf.h>
#include <unordered_map>

// every allocation and release of the process passes here
static struct Meter { long blocks, bytes, peak; void in(size_t n) { blocks++; bytes += (long)n; if (bytes > peak) peak = bytes; } void out(size_t n) { blocks--; bytes -= (long)n; } } meter;
#ifdef VF_SAN
#include <sanitizer/allocator_interface.h>
static void on_malloc(const volatile void *p, size_t n) { meter.in(n); }
static void on_free(const volatile void *p) { if (p) meter.out(__sanitizer_get_allocated_size((const void*)p)); }
static bool hooked = [] { return __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0; }();
#else
extern "C" { void *__libc_malloc(size_t); void __libc_free(void*); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void*, size_t); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) meter.in(malloc_usable_size(p)); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); if (p) meter.in(malloc_usable_size(p)); return p; }
void free(void *p) { if (p) meter.out(malloc_usable_size(p)); __libc_free(p); }
void *realloc(void *p, size_t n) { size_t o = p ? malloc_usable_size(p) : 0; void *q = __libc_realloc(p, n); if (q) { if (p) meter.out(o); meter.in(malloc_usable_size(q)); } else if (p && !n) meter.out(o); return q; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) meter.in(malloc_usable_size(p)); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; } }
static bool hooked = true;
#endif

using namespace gr;
namespace {

int g_null = -1, g_out = -1, g_err = -1;
struct Quiet { Quiet() { fflush(stdout); fflush(stderr); if (g_null < 0) { g_null = open("/dev/null", O_WRONLY); g_out = dup(1); g_err = dup(2); } dup2(g_null, 1); dup2(g_null, 2); } ~Quiet() { fflush(stdout); fflush(stderr); dup2(g_out, 1); dup2(g_err, 2); } };

// f leaves nothing behind, however often it runs; at no time does it hold more than room
template <class F> void steady(const char *what, size_t room, F f)
{
    f();                                            // what is set up once, such as the streams' own buffers
    auto lowest_free = [] { int fd = dup(2); close(fd); return fd; }; int fd0 = lowest_free();
    long b0 = meter.blocks, y0 = meter.bytes; meter.peak = meter.bytes;
    for (int i = 0; i < 3; i++) f();
    long b1 = meter.blocks - b0, y1 = meter.bytes - y0, top = meter.peak - y0;
    int fd1 = lowest_free(); for (int i = 0; i < 50 && fd1 > fd0; i++) { usleep(2000); fd1 = lowest_free(); }  // the sanitizer's own thread reads files now and then
    CHECK(fd1 <= fd0, std::string("open:") + what, "%s leaves a file open", what);
    CHECK(b1 <= 0 && y1 <= 0, std::string("left:") + what, "three runs of %s leave %ld blocks of %ld bytes", what, b1, y1);
    CHECK((size_t)top <= room, std::string("peak:") + what, "%s takes %ld bytes at once, %zu are enough", what, top, room);
    h::evals(); h::stat(std::string("steady ") + what);
    h::cover(hash_bytes(&top, sizeof top, hash_str(what)));
}
// generous: several copies of the data, and a fixed part for the builtin types and the first blocks of tables
size_t room(size_t data) { return 100000 + 10 * data; }

typedef int (*ListFn)(decl_ref, decl_ref*, size_t*);
const ListFn lists[] = { crefl_enum_constants, crefl_set_constants, crefl_struct_fields, crefl_union_fields, crefl_function_params, crefl_source_decls, crefl_source_types, crefl_source_fields, crefl_source_functions, crefl_archive_sources };

std::vector<uint8_t> some_image(Rng &r, size_t decls) { Opts o = random_opts(r, decls); Graph g = sometimes_nameless(r, generate(r, o)); Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db); return image(b.db); }
size_t path_room(decl_db *db) { size_t longest = 0; for (size_t i = 0; i < db->decl_offset; i++) longest = std::max(longest, strlen(crefl_decl_name(crefl_lookup(db, i)))); return room(crefl_db_size(db)) + db->decl_offset * (longest + 2) * 16; }

// databases: made, loaded, refused, saved, queried, printed
void f_db(Rng &r, uint64_t c)
{
    std::vector<uint8_t> im = some_image(r, r.chance(1, 8) ? 120 : 8), bad = im, cut(im.begin(), im.begin() + (long)r.below(im.size() + 1));
    for (int i = 0, k = 1 + (int)r.below(4); i < k; i++) { size_t at = r.below(bad.size()); bad[at] = r.chance(1, 2) ? (uint8_t)r.next() : r.chance(1, 2) ? 0xff : (uint8_t)(bad[at] + 1); }
    if (r.chance(1, 3)) { u32 big[] = { 0xffffffff, 0x7fffffff, 0x10000000, 0x1000000 }; memcpy(&bad[r.below(2) ? 8 : 12], &big[r.below(4)], 4); }
    size_t cnt = 1 + r.below(3000), nl = 1 + r.below(40);
    steady("create", room(cnt * (40 + nl)), [&] { decl_db *db = crefl_db_new(); crefl_db_defaults(db); char nm[64]; for (size_t i = 0; i < cnt; i++) { memset(nm, 'a' + (int)(i % 26), nl); nm[nl] = 0; decl_ref d = crefl_decl_new(db, _decl_struct); crefl_decl_ptr(d)->_name = crefl_name_new(db, nm); } crefl_db_destroy(db); });
    for (auto *v : { &im, &bad, &cut }) {
        const char *k = v == &im ? "load" : v == &bad ? "load damaged" : "load truncated"; int rc = 0;
        steady(k, room(v->size()), [&] { Quiet q; decl_db *db = crefl_db_new(); rc = crefl_db_read_mem(db, v->data(), v->size()); crefl_db_destroy(db); });
        h::stat(rc == 0 ? "loads accepted" : "loads rejected");
        steady("load twice", room(v->size() + im.size()), [&] { Quiet q; decl_db *db = crefl_db_new(); crefl_db_read_mem(db, v->data(), v->size()); crefl_db_read_mem(db, im.data(), im.size()); crefl_db_destroy(db); });
    }
    Db d(crefl_db_new()); { Quiet q; CHECK(crefl_db_read_mem(d.p, im.data(), im.size()) == 0, "load", "own image"); }
    std::vector<uint8_t> out(im.size());
    steady("save", room(0), [&] { crefl_db_write_mem(d.p, out.data(), out.size()); crefl_db_write_mem(d.p, out.data(), out.size() - 1); });
    std::string f = h::fmt("res_%d_%llu", (int)getpid(), (unsigned long long)c);
    steady("save file", room(im.size()), [&] { Quiet q; if (crefl_db_write_file(d.p, f.c_str()) != 0) abort(); crefl_db_write_file(d.p, "/nonexistent/x"); crefl_db_write_file(d.p, "/dev/full"); });
    steady("load file", room(im.size()), [&] { Quiet q; decl_db *db = crefl_db_new(); if (crefl_db_read_file(db, f.c_str()) != 0) abort(); crefl_db_destroy(db); db = crefl_db_new(); crefl_db_read_file(db, "/nonexistent/x"); crefl_db_read_file(db, "."); crefl_db_read_file(db, "/dev/null"); crefl_db_destroy(db); });
    { FILE *p = fopen(f.c_str(), "wb"); fwrite(bad.data(), 1, bad.size(), p); fclose(p); }
    steady("load damaged file", room(im.size()), [&] { Quiet q; decl_db *db = crefl_db_new(); crefl_db_read_file(db, f.c_str()); crefl_db_destroy(db); }); unlink(f.c_str());
    size_t n = d.p->decl_offset, cap = r.below(20); decl_ref slots[20]; size_t offs[20];
    steady("query", room(0), [&] { volatile size_t sink = 0; for (u32 i = 0; i < n; i++) { decl_ref x = crefl_lookup(d.p, i); for (ListFn fn : lists) { size_t k = cap; sink += (size_t)fn(x, slots, &k); } size_t k = cap; crefl_struct_fields_offsets(x, slots, offs, &k); sink += crefl_type_width(x) + crefl_is_type(x) + strlen(crefl_decl_name(x)); } crefl_intrinsic(d.p, _decl_sint, 32); });
    crefl_db_dump_fmt fm = (crefl_db_dump_fmt)r.below(8); { Quiet q; crefl_db_set_dump_fmt(fm); }
    steady("dump", path_room(d.p), [&] { Quiet q; crefl_db_dump(d.p); crefl_db_dump_stats(d.p); });
    h::sample(h::fmt("database of %zu declarations and %zu bytes: made, loaded, refused, saved, queried, printed", n, im.size()));
}

// hashing and merging
void f_link(Rng &r, uint64_t)
{
    std::vector<std::unique_ptr<Db>> own; std::vector<decl_db*> p; size_t k = r.below(5), data = 0; bool rec = r.chance(1, 2);
    for (size_t i = 0; i < k; i++) { Opts o = random_opts(r, r.chance(1, 8) ? 60 : 6); o.orphans = false; o.recursion = rec; o.unique = rec; o.uniq = "u" + std::to_string(i); Graph g = generate(r, o); own.emplace_back(new Db(build(g).db)); p.push_back(own.back()->p); data += path_room(p.back()); }
    for (auto db : p) {
        steady("index", path_room(db), [&] { decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); for (u32 i = 0; i < db->decl_offset; i++) { decl_entry_ref e = crefl_entry_ref(ix, crefl_lookup(db, i)); volatile size_t s = strlen(crefl_entry_fqn(e)); (void)s; } crefl_index_destroy(ix); });
        size_t cnt = r.below(4000); steady("index names", room(cnt * 32), [&] { decl_index *ix = crefl_index_new(); for (size_t i = 0; i < cnt; i++) crefl_entry_name_new(ix, i % 3 ? "a name" : "some longer name than that"); crefl_index_destroy(ix); });
    }
    steady("merge", room(0) + data * 4, [&] { decl_db *m = crefl_db_new(); if (crefl_link_merge(m, "some/where/lib", p.data(), p.size()) != 0) abort(); crefl_db_destroy(m); });
    decl_db *m = crefl_db_new(); Db om(m); crefl_link_merge(m, "lib", p.data(), p.size()); std::vector<decl_db*> two(1, m); two.insert(two.end(), p.begin(), p.end());
    steady("merge again", room(0) + data * 8, [&] { decl_db *a = crefl_db_new(); crefl_link_merge(a, "lib", two.data(), two.size()); crefl_db_destroy(a); });
    h::sample(h::fmt("%zu databases hashed and merged into %zu declarations", k, m->decl_offset));
}

// codecs, identifiers, buffers: no operation allocates for good, whatever it is given
void f_codec(Rng &r, uint64_t)
{
    { long a = meter.blocks, y = meter.bytes; void *p = malloc(1000); std::string s(5000, 'x'); asm volatile("" :: "r"(p), "r"(s.data()) : "memory"); CHECK(meter.blocks == a + 2 && meter.bytes >= y + 6000, "meter", "does not see allocations"); free(p); }
    for (int it = 0; it < 8; it++) {
        bytes in = r.bytes(r.below(40)); if (r.chance(1, 2) && in.size() > 4) { in[0] = (uint8_t)r.below(31); in[1] = (uint8_t)(in.size() - 2); }
        u64 v = r.u64(); s64 s = (s64)r.u64(); double d = gen_f64(r); float f = gen_f32(r); bool b = r.below(2); size_t cap = r.below(40);
        steady("decode", room(in.size()), [&] { asn1_hdr h; u64 x; s64 y; bool z; double e; float g; asn1_oid o; size_t n = 0; char *p = (char*)in.data();
            auto at = [&] { return crefl_buf { p, 0, in.size() }; }; crefl_buf q;
            q = at(); crefl_asn1_ber_ident_read(&q, &h._id); crefl_asn1_ber_length_read(&q, &h._length); q = at(); crefl_asn1_der_boolean_read(&q, asn1_tag_boolean, &z); q = at(); crefl_asn1_der_integer_u64_read(&q, asn1_tag_integer, &x); q = at(); crefl_asn1_der_integer_s64_read(&q, asn1_tag_integer, &y);
            q = at(); crefl_asn1_der_real_f64_read(&q, asn1_tag_real, &e); q = at(); crefl_asn1_der_oid_read(&q, asn1_tag_object_identifier, &o); q = at(); crefl_leb_u64_read(&q, &x); q = at(); crefl_vlu_u64_read(&q, &x); q = at(); crefl_vf_f64_read(&q, &e); q = at(); crefl_vf_f32_read(&q, &g); });
        steady("encode", room(cap), [&] { crefl_buf *q = crefl_buf_new(cap); for (int i = 0; i < 3; i++) { crefl_asn1_der_integer_u64_write(q, asn1_tag_integer, &v); crefl_asn1_der_integer_s64_write(q, asn1_tag_integer, &s); crefl_asn1_der_real_f64_write(q, asn1_tag_real, &d); crefl_asn1_der_boolean_write(q, asn1_tag_boolean, &b); crefl_vf_f64_write(q, &d); crefl_vf_f32_write(q, &f); crefl_leb_u64_write(q, &v); crefl_vlu_u64_write_byval(q, v); } { Quiet z; crefl_buf_dump(q); } crefl_buf_destroy(q); });
        std::string t; for (size_t i = 0, k = r.below(18); i < k; i++) t += (i ? "." : "") + std::to_string(r.chance(1, 3) ? r.below(3) : r.u64() >> r.below(64)); if (r.chance(1, 4)) t += r.chance(1, 2) ? "." : "x";
        steady("oid", room(t.size()), [&] { asn1_oid o; size_t n = 0; if (crefl_asn1_oid_from_string(&o, t.c_str(), t.size()) == 0) { char z[1000]; n = sizeof z; crefl_asn1_oid_to_string(z, &n, &o); crefl_buf *q = crefl_buf_new(200); crefl_asn1_der_oid_write(q, asn1_tag_object_identifier, &o); crefl_buf_destroy(q); } });
        h::cover(hash_bytes(in.data(), in.size(), v));
    }
}

// the container owns one block, and only while it lives
void f_map(Rng &r, uint64_t)
{
    typedef hashmap<u64, u64> M; size_t n = r.below(r.chance(1, 10) ? 20000 : 300), init = (size_t)1 << r.below(9), era = r.below(4); uint64_t seed = r.next();
    steady("map", room(n * 64 + init * 32), [&] { Rng q(seed); M a(init); for (size_t i = 0; i < n; i++) { a[q.below(n) * 7] = i; if (q.below(4) < era) a.erase(q.below(n) * 7); }
        M b(a), c(std::move(a)), e; e = b; e = std::move(c); b = e; M g(std::move(b)); g.clear(); for (size_t i = 0; i < n / 2; i++) g.insert(i, i); e = e; });
    h::cover(seed);
}

}
FAMILIES({ "db", 260, 20000, f_db }, { "link", 260, 20000, f_link }, { "codec", 400, 30000, f_codec }, { "map", 600, 40000, f_map })
