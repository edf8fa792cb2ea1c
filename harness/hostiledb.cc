// C01: arbitrary and near-valid images through the loader and every consumer.
#include "graph.h"
#include <crefl/dump.h>
using namespace gr;

namespace {

int g_null = -1, g_out = -1;
struct Quiet { Quiet() { fflush(stdout); if (g_null < 0) { g_null = open("/dev/null", O_WRONLY); g_out = dup(1); } dup2(g_null, 1); } ~Quiet() { fflush(stdout); dup2(g_out, 1); } };

std::vector<uint8_t> base_image(Rng &r, size_t decls, size_t *nn = nullptr) {
    Opts o = random_opts(r, decls); Graph g = generate(r, o); Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db);
    std::vector<uint8_t> im;
    if (r.chance(1, 6)) { Graph g2 = generate(r, o); Built b2 = build(g2); Db o2(b2.db); decl_db *p[] = { b.db, b2.db }; Db m(crefl_db_new()); crefl_link_merge(m.p, "m", p, 2); im = image(m.p); } else im = image(b.db);
    if (nn) *nn = im.size() >= 20 ? *(u32*)&im[8] : 0;
    return im;
}

const size_t LIM = 60000; const size_t DEPTH = 1500;

// how far plain recursion over the image goes and how many steps it takes; a repeated node on the
// current path is a reference back and counts as one step
struct Cost {
    const decl_db *db; std::vector<double> c; std::vector<uint32_t> d; std::vector<char> st;
    Cost(const decl_db *db) : db(db), c(db->decl_offset, 1), d(db->decl_offset, 1), st(db->decl_offset, 0) {}
    void visit(u32 root) {
        std::vector<std::pair<u32, int>> s { { root, 0 } };
        while (!s.empty()) {
            auto &t = s.back(); u32 i = t.first; 
            if (t.second == 0) { if (st[i]) { s.pop_back(); continue; } st[i] = 1; }
            const decl_node &n = db->decl[i]; u32 e[3] = { n._attr, n._link, n._next };
            if (t.second < 3) { u32 x = e[t.second++]; if (x && !st[x]) s.push_back({ x, 0 }); continue; }
            double k = 1; uint32_t dep = 0; for (int q = 0; q < 3; q++) if (e[q]) { if (st[e[q]] == 2) { k += c[e[q]]; dep = std::max(dep, d[e[q]]); } else k += 1; }
            c[i] = std::min(k, 1e15); d[i] = dep + 1; st[i] = 2; s.pop_back();
        }
    }
    double total = 0; uint32_t depth = 0;
    void all() { for (u32 i = 0; i < db->decl_offset; i++) { visit(i); total += c[i]; depth = std::max(depth, d[i]); } }
};

void invariant(decl_db *db) {
    CHECK(db->decl_offset >= 1 && db->decl_offset <= db->decl_size && db->name_offset >= 1 && db->name_offset <= db->name_size, "accept:sizes", "decl %zu/%zu name %zu/%zu", db->decl_offset, db->decl_size, db->name_offset, db->name_size);
    CHECK(db->root_element < db->decl_offset, "accept:root", "%u of %zu", db->root_element, db->decl_offset);
    CHECK(db->name[db->name_offset - 1] == 0, "accept:unterminated", "last name byte %02x", (uint8_t)db->name[db->name_offset - 1]);
    for (u32 i = 0; i < db->decl_offset; i++) { const decl_node &n = db->decl[i];
        CHECK(n._link < db->decl_offset, "accept:link", "node %u link %u of %zu", i, n._link, db->decl_offset); CHECK(n._next < db->decl_offset, "accept:next", "node %u next %u of %zu", i, n._next, db->decl_offset);
        CHECK(n._attr < db->decl_offset, "accept:attr", "node %u attr %u of %zu", i, n._attr, db->decl_offset); CHECK(n._name < db->name_offset, "accept:name", "node %u name %u of %zu", i, n._name, db->name_offset); }
}

// what is accepted is what the image says, all of it
void faithful(const decl_db *db, const std::vector<uint8_t> &v) {
    CHECK(v.size() >= 20 && !memcmp(v.data(), "crefl", 5), "accept:header", "%zu bytes accepted", v.size());
    u32 nn, names, root; memcpy(&nn, &v[8], 4); memcpy(&names, &v[12], 4); memcpy(&root, &v[16], 4);
    if (nn == 0) { h::stat("accepted without declarations"); return; }
    size_t bytes = (size_t)nn * sizeof(decl_node); CHECK(v.size() - 20 >= bytes && v.size() - 20 - bytes >= names, "accept:truncated", "%u declarations and %u name bytes in %zu bytes", nn, names, v.size());
    CHECK(db->decl_offset >= nn && db->name_offset >= names, "accept:partial", "%zu of %u declarations, %zu of %u name bytes", db->decl_offset, nn, db->name_offset, names);
    CHECK(db->decl_offset - nn == root && db->root_element == root, "accept:root", "declarations from %zu, root %u, the image's root is %u", db->decl_offset - nn, (u32)db->root_element, root);
    CHECK(!memcmp(db->decl + root, &v[20], bytes), "accept:decls", "the declarations are not those of the image");
    CHECK(!memcmp(db->name + db->name_offset - names, &v[20 + bytes], names), "accept:names", "the names are not those of the image");
}

typedef int (*ListFn)(decl_ref, decl_ref*, size_t*);
const ListFn lists[] = { crefl_enum_constants, crefl_set_constants, crefl_struct_fields, crefl_union_fields, crefl_function_params, crefl_source_decls, crefl_source_types, crefl_source_fields, crefl_source_functions, crefl_archive_sources };

void node_queries(Rng &r, decl_db *db, decl_ref d, bool layout) {
    volatile size_t sink = 0;
    sink += crefl_decl_tag(d) + crefl_decl_props(d) + crefl_decl_qty(d) + strlen(crefl_decl_name(d)) + crefl_decl_has_name(d) + strlen(crefl_tag_name(crefl_decl_tag(d)));
    for (decl_ref x : { crefl_decl_next(d), crefl_decl_link(d), crefl_decl_attr(d), crefl_typedef_type(d), crefl_field_type(d), crefl_array_type(d), crefl_pointer_type(d), crefl_constant_type(d), crefl_param_type(d), crefl_decl_void(d) })
        sink += crefl_decl_tag(x) + (unsigned char)crefl_decl_name(x)[0];
    sink += crefl_is_type(d) + crefl_array_count(d) + crefl_constant_value(d).ux + (size_t)crefl_function_addr(d) + crefl_intrinsic_width(d) + crefl_pointer_width(d);
    for (ListFn f : lists) {
        size_t n = 0, want; int rc = f(d, nullptr, &n); want = n; if (rc != 0) { size_t k = 2; Block b(2 * sizeof(decl_ref)); CHECK(f(d, (decl_ref*)b.p, &k) != 0, "query:rc", "list query succeeds with a buffer only"); continue; }
        CHECK(n < db->decl_offset, "query:many", "%zu members in %zu declarations", n, db->decl_offset);
        size_t cap = r.below(n + 2); Block b(cap * sizeof(decl_ref)); n = cap; CHECK(f(d, (decl_ref*)b.p, &n) == 0 && n == want, "query:again", "%zu then %zu", want, n);
        for (size_t i = 0; i < std::min(cap, want); i++) { decl_ref x = ((decl_ref*)b.p)[i]; CHECK(x.db == db && x.decl_idx > 0 && x.decl_idx < db->decl_offset, "query:member", "member %zu", x.decl_idx); }
    }
    if (layout) {
        sink += crefl_type_width(d) + crefl_struct_width(d) + crefl_union_width(d);
        size_t n = 0; if (crefl_struct_fields_offsets(d, nullptr, nullptr, &n) == 0) { size_t cap = r.below(n + 2); Block b(cap * sizeof(decl_ref)), o(cap * sizeof(size_t)); size_t k = cap; CHECK(crefl_struct_fields_offsets(d, (decl_ref*)b.p, (size_t*)o.p, &k) == 0 && k == n, "query:offsets", "%zu then %zu", n, k); }
    }
}

void consume(Rng &r, decl_db *db) {
    Cost k(db); k.all(); bool cheap = k.total < LIM * 20 && k.depth < DEPTH;
    h::stat(cheap ? "consumed" : "too_deep_or_wide"); if (!cheap) return; // bounded nesting only, see the property
    h::stat("steps", (uint64_t)k.total);
    Snap before = snap(db);
    for (u32 i = 0; i < db->decl_offset; i++) node_queries(r, db, crefl_lookup(db, i), true);
    crefl_intrinsic(db, (u32)r.u64(), r.below(130)); crefl_root(db);
    { decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); for (u32 i = 0; i < db->decl_offset; i++) { decl_entry_ref e = crefl_entry_ref(ix, crefl_lookup(db, i)); volatile size_t n = strlen(crefl_entry_fqn(e)) + crefl_entry_is_marked(e) + crefl_entry_is_valid(e); (void)n; } crefl_index_destroy(ix); }
    { Quiet q; crefl_db_set_dump_fmt((crefl_db_dump_fmt)r.below(8)); crefl_db_dump(db); crefl_db_dump_stats(db); }
    CHECK(snap(db) == before, "consumers:modify", "a consumer changed the database");
    // serialise again
    std::vector<uint8_t> im = image(db); CHECK(im.size() == crefl_db_size(db), "reserialise", "fails"); { Db d(crefl_db_new()); int rc = crefl_db_read_mem(d.p, im.data(), im.size()); CHECK(rc == 0, "reload", "an accepted image is rejected when written again"); CHECK(snap(d.p) == before, "reload:differs", "reloaded database differs"); }
    // merge alone and with another
    if (k.total < LIM) {
        decl_db *p[3] = { db, db, db }; size_t n = 1 + r.below(2); std::unique_ptr<Db> other; if (r.chance(1, 3)) { Opts o; o.decls = 3; Graph g = generate(r, o); other.reset(new Db(build(g).db)); p[r.below(2)] = other->p; n = 2; }
        Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, "m", p, n) == 0, "merge", "fails"); invariant(m.p); h::stat("merged");
        std::vector<uint8_t> i2 = image(m.p); Db d(crefl_db_new()); if (crefl_db_read_mem(d.p, i2.data(), i2.size()) == 0) h::stat("merged_reloaded"); else h::stat("merged_not_reloaded");
        CHECK(snap(db) == before, "merge:modifies", "merging changed its input");
    }
}

void judge(Rng &r, const std::vector<uint8_t> &v, const char *kind) {
    int rc; Db d(crefl_db_new());
    { size_t sh = r.chance(1, 4) ? r.below(8) : 0; Block in(v.size() + sh); if (v.size()) memcpy(in.p + sh, v.data(), v.size());
      rc = crefl_db_read_mem(d.p, in.p + sh, v.size()); CHECK(!v.size() || !memcmp(in.p + sh, v.data(), v.size()), "input", "loading changed the input"); }
    h::evals(); h::stat(std::string(rc == 0 ? "accepted " : "rejected ") + kind);
    if (rc == 0) { invariant(d.p); faithful(d.p, v); h::cover(hash_bytes(v.data(), v.size())); consume(r, d.p); }
}

u32 interesting(Rng &r, u32 n, u32 old) {
    switch (r.below(9)) { case 0: return 0; case 1: return n; case 2: return n - 1; case 3: return n + 1; case 4: return ~0u - (u32)r.below(3); case 5: return old + (u32)r.range(-2, 2); case 6: return (u32)r.u64(); default: return (u32)r.below(n + 1); }
}

// single and multiple field changes in valid images
void f_fields(Rng &r, uint64_t) {
    size_t nn; std::vector<uint8_t> im = base_image(r, 6, &nn); if (im.size() < 20) return;
    u32 names; memcpy(&names, &im[12], 4); u32 total = 23 + (u32)nn;
    for (int t = 0; t < 25; t++) {
        std::vector<uint8_t> v = im; size_t k = 1 + (r.chance(1, 3) ? r.below(6) : 0);
        for (size_t i = 0; i < k && nn; i++) {
            size_t node = r.below(nn), f = r.below(7), off = 20 + 32 * node + 4 * f; if (off + 8 > v.size()) continue;
            if (f == 6) { u64 q = r.u64(); memcpy(&v[off], &q, 8); continue; }
            u32 x; memcpy(&x, &v[off], 4);
            if (f == 0) x = r.chance(9, 10) ? (u32)r.below(20) : (u32)r.u64(); else if (f == 1) x = r.chance(1, 2) ? x ^ (1u << r.below(32)) : (u32)r.u64(); else if (f == 2) x = interesting(r, 130 + names, x); else x = interesting(r, total, x);
            memcpy(&v[off], &x, 4);
        }
        judge(r, v, "fields"); h::sample(h::fmt("%zu changed fields in an image of %zu nodes, %zu bytes", k, nn, v.size()));
    }
}

// references rewired at random, always in range: the shapes the loader must judge by structure
void f_rewire(Rng &r, uint64_t) {
    size_t nn; std::vector<uint8_t> im = base_image(r, 4, &nn); if (im.size() < 20 || !nn) return; u32 total = 23 + (u32)nn;
    for (int t = 0; t < 25; t++) {
        std::vector<uint8_t> v = im; size_t k = 1 + r.below(8);
        for (size_t i = 0; i < k; i++) { size_t node = r.below(nn); size_t f = r.chance(1, 6) ? 0 : 3 + r.below(3); u32 x = f == 0 ? (u32)r.below(19) : (u32)(r.chance(1, 10) ? r.below(23) : r.chance(1, 3) ? 23 + node + (u32)r.range(-3, 3) : 23 + r.below(nn)); if (f && x >= total) x = total - 1; memcpy(&v[20 + 32 * node + 4 * f], &x, 4); }
        judge(r, v, "rewire");
    }
}

// tiny dense graphs: every tag, every reference among a handful of nodes
void f_dense(Rng &r, uint64_t) {
    for (int t = 0; t < 40; t++) {
        u32 n = 1 + (u32)r.below(r.chance(1, 4) ? 14 : 5); std::vector<uint8_t> v; auto put = [&](uint64_t x, int k) { for (int i = 0; i < k; i++) v.push_back((uint8_t)(x >> (8 * i))); };
        for (char c : std::string("crefl000")) v.push_back((uint8_t)c); std::string names = r.chance(1, 4) ? "" : std::string("a\0bb\0ccc\0", 9); put(n, 4); put(names.size(), 4); put(23, 4);
        unsigned zero = (unsigned)r.below(4); // how sparse
        auto ref = [&]() -> u32 { return r.below(4) < zero ? 0 : r.chance(1, 8) ? (u32)r.below(23) : 23 + (u32)r.below(n); };
        for (u32 i = 0; i < n; i++) { put(r.below(19), 4); put(r.chance(1, 3) ? r.next() : 1u << r.below(25), 4); put(names.empty() ? r.below(2) : r.below(2) ? 0 : r.below(127), 4); put(ref(), 4); put(ref(), 4); put(ref(), 4); put(r.chance(1, 2) ? r.below(70) : r.u64(), 8); }
        v.insert(v.end(), names.begin(), names.end()); judge(r, v, "dense");
    }
}

void f_bytes(Rng &r, uint64_t) {
    std::vector<uint8_t> im = base_image(r, 5);
    for (int t = 0; t < 25; t++) {
        std::vector<uint8_t> v = im; 
        switch (r.below(8)) {
        case 0: v.resize(r.below(v.size() + 1)); break;
        case 1: { std::vector<uint8_t> e = r.bytes(r.below(100)); v.insert(v.end(), e.begin(), e.end()); break; }
        case 2: for (size_t i = 0, k = 1 + r.below(8); i < k; i++) v[r.below(v.size())] ^= (uint8_t)(1 << r.below(8)); break;
        case 3: for (size_t i = 0, k = 1 + r.below(4); i < k; i++) v[r.below(v.size())] = (uint8_t)r.next(); break;
        case 4: { size_t a = r.below(v.size()), n = r.below(v.size() - a + 1); v.erase(v.begin() + (long)a, v.begin() + (long)(a + n)); break; }
        case 5: { size_t a = r.below(v.size()); std::vector<uint8_t> e = r.bytes(r.below(60)); v.insert(v.begin() + (long)a, e.begin(), e.end()); break; }
        case 6: { v = r.bytes(r.below(400)); if (r.chance(3, 4)) { if (v.size() < 20) v.resize(20); memcpy(v.data(), "crefl000", 8); u32 c = (u32)r.below(12), n = (u32)r.below(100), rt = r.chance(5, 6) ? 23 : (u32)r.below(40); memcpy(&v[8], &c, 4); memcpy(&v[12], &n, 4); memcpy(&v[16], &rt, 4); } break; }
        default: { // header fields
            for (size_t f = 8; f < 20; f += 4) if (r.chance(1, 2)) { u32 x; memcpy(&x, &v[f], 4); x = interesting(r, x, x); memcpy(&v[f], &x, 4); } 
            if (r.chance(1, 2) && v.size() > 20) v.back() = (uint8_t)(1 + r.below(255)); break; }
        }
        judge(r, v, "bytes");
    }
    for (size_t k = 0; k <= 24; k++) { std::vector<uint8_t> v(im.begin(), im.begin() + (long)std::min(k, im.size())); judge(r, v, "short"); }
}

// counts whose table sizes overflow narrower arithmetic
void f_counts(Rng &r, uint64_t) {
    for (int t = 0; t < 40; t++) {
        std::vector<uint8_t> v(20 + r.below(200)); for (auto &b : v) b = r.chance(1, 2) ? 0 : (uint8_t)r.next(); memcpy(v.data(), "crefl000", 8);
        static const u32 c[] = { 0, 1, 2, 0x7ffffff, 0x8000000, 0x8000001, 0x10000000, 0x10000001, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xf8000000, 0xf8000001 };
        u32 x = r.chance(2, 3) ? c[r.below(14)] : (u32)r.u64(), y = r.chance(1, 3) ? (u32)r.below(30) : r.chance(2, 3) ? c[r.below(14)] : (u32)(v.size() - 20 - 32ull * x), z = 23; memcpy(&v[8], &x, 4); memcpy(&v[12], &y, 4); memcpy(&v[16], &z, 4); judge(r, v, "counts"); }
}

// loading into a database again after a failure, and files
void f_sequence(Rng &r, uint64_t c) {
    std::vector<uint8_t> im = base_image(r, 4); std::string f = h::fmt("hostile_%d_%llu", (int)getpid(), (unsigned long long)c);
    for (int t = 0; t < 6; t++) { std::vector<uint8_t> v = im; size_t k = r.below(5); for (size_t i = 0; i < k; i++) v[r.below(v.size())] = (uint8_t)r.next(); if (r.chance(1, 3)) v.resize(r.below(v.size() + 1));
        FILE *p = fopen(f.c_str(), "wb"); fwrite(v.data(), 1, v.size(), p); fclose(p); Db d(crefl_db_new()); int rc = crefl_db_read_file(d.p, f.c_str()); Db e(crefl_db_new()); Block in(v); int rm = crefl_db_read_mem(e.p, in.p, in.n);
        CHECK((rc == 0) == (rm == 0), "file:status", "file %d memory %d", rc, rm); if (rc == 0) { invariant(d.p); CHECK(snap(d.p) == snap(e.p), "file:differs", "file and memory loads differ"); consume(r, d.p); } h::evals(2); }
    unlink(f.c_str());
}

// a long flat image: lists of tens of thousands of members are not nesting
void f_wide(Rng &r, uint64_t c) {
    Graph g; u32 tag = c % 2 ? _decl_struct : _decl_enum; int s = g.add(_decl_source, "w.c"), d = g.add(tag, "wide"); g.n[s].link = d; std::vector<int> l; size_t n = 3000 + r.below(20000);
    for (size_t i = 0; i < n; i++) { int f = g.add(tag == _decl_struct ? _decl_field : _decl_constant, "m" + std::to_string(i), 0, i); g.n[(size_t)f].link = B(10); l.push_back(f); } g.list(g.n[(size_t)d].link, l);
    Built b = build(g); Db own(b.db); std::vector<uint8_t> im = image(b.db); Block in(im); Db x(crefl_db_new()); CHECK(crefl_db_read_mem(x.p, in.p, in.n) == 0, "wide:read", "%zu members rejected", n);
    invariant(x.p); decl_ref q = crefl_lookup(x.p, b.id[(size_t)d]); for (u32 i = 23; i < 26; i++) node_queries(r, x.p, crefl_lookup(x.p, i), true);
    { decl_index *ix = crefl_index_new(); crefl_index_scan(ix, x.p); crefl_index_destroy(ix); } { Quiet z; crefl_db_set_dump_fmt(crefl_db_dump_ext_all); crefl_db_dump(x.p); }
    decl_db *p[] = { x.p, x.p }; Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, "m", p, 2) == 0, "wide:merge", "%zu", n); (void)q; h::stat("wide_members", n); h::evals();
}

}
FAMILIES({ "fields", 1500, 200000, f_fields }, { "rewire", 1500, 200000, f_rewire }, { "dense", 1500, 200000, f_dense }, { "bytes", 500, 60000, f_bytes }, { "counts", 200, 8000, f_counts }, { "sequence", 150, 8000, f_sequence }, { "wide", 6, 60, f_wide })
