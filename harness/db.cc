// C02: serialisation round trips against an independent serialiser of the documented image
// layout, at every capacity, in memory and through files; damaged headers and prefixes.
#include "graph.h"
#include <sys/stat.h>
using namespace gr;

namespace {

void put(std::vector<uint8_t> &v, uint64_t x, int n) { for (int i = 0; i < n; i++) v.push_back((uint8_t)(x >> (8 * i))); }

// the image a database must have, written from its tables
std::vector<uint8_t> reference(const decl_db *db) {
    std::vector<uint8_t> v; for (char c : std::string("crefl000")) v.push_back((uint8_t)c);
    put(v, db->decl_offset - db->decl_builtin, 4); put(v, db->name_offset - db->name_builtin, 4); put(v, db->root_element, 4);
    for (size_t i = db->decl_builtin; i < db->decl_offset; i++) { const decl_node &n = db->decl[i];
        put(v, n._tag, 4); put(v, n._props, 4); put(v, n._name, 4); put(v, n._next, 4); put(v, n._link, 4); put(v, n._attr, 4); put(v, n._quantity, 8); }
    for (size_t i = db->name_builtin; i < db->name_offset; i++) v.push_back((uint8_t)db->name[i]);
    return v;
}
size_t builtin_names() { size_t n = 1; for (auto &b : builtins) n += strlen(b.name) + 1; return n; }

// an image made without the library at all
std::vector<uint8_t> handmade(const Graph &g, Rng &r) {
    size_t n = g.n.size(), base = 1 + num_builtins; std::vector<size_t> ord(n), pos(n); for (size_t i = 0; i < n; i++) ord[i] = i;
    if (r.chance(1, 2)) for (size_t i = n; i-- > 2; ) std::swap(ord[i], ord[1 + r.below(i)]);
    for (size_t i = 0; i < n; i++) pos[ord[i]] = i;
    std::string names; std::vector<uint8_t> v; std::map<std::string, u32> seen; bool share = r.chance(1, 2);
    for (char c : std::string("crefl000")) v.push_back((uint8_t)c);
    std::vector<u32> nm(n, 0);
    for (size_t i : ord) { const std::string &s = g.n[i].name; if (s.empty()) continue;
        auto f = seen.find(s); if (share && f != seen.end()) { nm[i] = f->second; continue; }
        nm[i] = seen[s] = (u32)(builtin_names() + names.size()); names.append(s.c_str(), s.size() + 1); }
    put(v, n, 4); put(v, names.size(), 4); put(v, base, 4);
    auto ref = [&](int x) -> u32 { return x == -1 ? 0 : is_b(x) ? (u32)(-1 - x) : (u32)(base + pos[(size_t)x]); };
    for (size_t i : ord) { const Node &x = g.n[i]; put(v, x.tag, 4); put(v, x.props, 4); put(v, nm[i], 4); put(v, ref(x.next), 4); put(v, ref(x.link), 4); put(v, ref(x.attr), 4); put(v, x.qty, 8); }
    v.insert(v.end(), names.begin(), names.end());
    return v;
}

Opts opts(Rng &r) { Opts o = random_opts(r, r.chance(1, 8) ? 40 : 8); return o; }

void same_tables(decl_db *a, decl_db *b, const char *how) {
    CHECK(a->decl_offset == b->decl_offset && a->decl_builtin == b->decl_builtin && a->name_offset == b->name_offset && a->name_builtin == b->name_builtin && a->root_element == b->root_element,
        "load:counts", "%s: %zu/%zu decls, %zu/%zu names, root %u/%u", how, a->decl_offset, b->decl_offset, a->name_offset, b->name_offset, a->root_element, b->root_element);
    for (size_t i = 0; i < a->decl_offset; i++) {
        decl_ref x = crefl_lookup(a, i), y = crefl_lookup(b, i);
        CHECK(crefl_decl_tag(x) == crefl_decl_tag(y) && crefl_decl_props(x) == crefl_decl_props(y) && crefl_decl_qty(x) == crefl_decl_qty(y) &&
            crefl_decl_idx(crefl_decl_next(x)) == crefl_decl_idx(crefl_decl_next(y)) && crefl_decl_idx(crefl_decl_link(x)) == crefl_decl_idx(crefl_decl_link(y)) &&
            crefl_decl_idx(crefl_decl_attr(x)) == crefl_decl_idx(crefl_decl_attr(y)) && crefl_decl_has_name(x) == crefl_decl_has_name(y) && !strcmp(crefl_decl_name(x), crefl_decl_name(y)),
            "load:decl", "%s: declaration %zu (%s '%s')", how, i, crefl_tag_name(crefl_decl_tag(x)), crefl_decl_name(x));
    }
    CHECK(!memcmp(a->name, b->name, a->name_offset), "load:names", "%s", how);
    h::evals(a->decl_offset);
}

void f_roundtrip(Rng &r, uint64_t) {
    Opts o = opts(r); Graph g = sometimes_nameless(r, generate(r, o)); Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db);
    if (r.chance(1, 4)) crefl_name_new(b.db, "unused name at the end");
    Snap s0 = snap(b.db); std::vector<uint8_t> want = reference(b.db);
    size_t sz = crefl_db_size(b.db);
    CHECK(sz == want.size(), "size", "%zu want %zu; %s", sz, want.size(), describe(g).c_str());
    Block out(sz); CHECK(crefl_db_write_mem(b.db, out.p, sz) == 0, "write:exact", "%zu bytes", sz);
    CHECK(!memcmp(out.p, want.data(), sz), "write:bytes", "%s", describe(g).c_str());
    CHECK(snap(b.db) == s0, "write:modifies", "writing changed the database");
    CHECK(crefl_db_magic(out.p) == 0, "magic", "own image not recognised");
    // from an exact block, from an unaligned address, and twice
    size_t shift = r.below(8); Block in(sz + shift); memcpy(in.p + shift, out.p, sz);
    Db d(crefl_db_new()); CHECK(crefl_db_read_mem(d.p, in.p + shift, sz) == 0, "read:rejects", "own image of %s", describe(g).c_str());
    CHECK(!memcmp(in.p + shift, out.p, sz), "read:modifies", "loading changed its input");
    same_tables(b.db, d.p, "memory");
    CHECK(crefl_db_size(d.p) == sz, "size:again", "%zu %zu", crefl_db_size(d.p), sz);
    Block again(sz); CHECK(crefl_db_write_mem(d.p, again.p, sz) == 0 && !memcmp(again.p, out.p, sz), "write:again", "second serialisation differs; %s", describe(g).c_str());
    { Bisim q(b.db, d.p); CHECK(q.eq(b.db->root_element, d.p->root_element), "load:graph", "%s", q.why.c_str()); }
    // a loaded database can be extended and stays what it was
    if (r.chance(1, 3)) {
        Snap s1 = snap(d.p); size_t k = 1 + r.below(80);
        for (size_t i = 0; i < k; i++) { decl_ref e = crefl_decl_new(d.p, _decl_constant); u32 id = crefl_decl_idx(e); u32 nm = crefl_name_new(d.p, gen_name(r, true).c_str()); crefl_decl_ptr(crefl_lookup(d.p, id))->_name = nm; }
        CHECK(!memcmp(d.p->decl, s1.d.data(), s1.d.size() * sizeof(decl_node)) && !memcmp(d.p->name, s1.n.data(), s1.n.size()), "extend", "extending a loaded database changed it");
        std::vector<uint8_t> w2 = reference(d.p), i2 = image(d.p); CHECK(i2 == w2, "extend:write", "%zu %zu", i2.size(), w2.size());
        Db e(crefl_db_new()); CHECK(crefl_db_read_mem(e.p, i2.data(), i2.size()) == 0, "extend:read", "rejected"); same_tables(d.p, e.p, "extended");
    }
    h::stat("images"); h::stat("image_bytes", sz); h::cover(hash_bytes(out.p, sz)); h::evals();
    h::sample(h::fmt("%zu nodes, %zu bytes: ", g.n.size(), sz) + describe(g));
}

void f_handmade(Rng &r, uint64_t) {
    Opts o = opts(r); Graph g = sometimes_nameless(r, generate(r, o)); std::vector<uint8_t> im = handmade(g, r); Block in(im);
    Db d(crefl_db_new()); CHECK(crefl_db_read_mem(d.p, in.p, in.n) == 0, "read:handmade", "%s", describe(g).c_str());
    CHECK(crefl_decl_idx(crefl_root(d.p)) == 1 + num_builtins, "read:root", "%u", crefl_decl_idx(crefl_root(d.p)));
    std::vector<uint8_t> again = image(d.p); CHECK(again == im, "write:handmade", "%s", describe(g).c_str());
    Built b = build(g, &r, 0, 0); Db own(b.db); Bisim q(b.db, d.p); CHECK(q.eq(b.db->root_element, d.p->root_element), "load:handmade", "%s", q.why.c_str());
    h::stat("handmade"); h::evals(); h::cover(hash_bytes(im.data(), im.size()));
}

void f_capacity(Rng &r, uint64_t) {
    Opts o; o.decls = r.below(4); o.odd = r.chance(1, 2); Graph g = sometimes_nameless(r, generate(r, o)); Built b = build(g); Db own(b.db);
    std::vector<uint8_t> want = reference(b.db); size_t sz = want.size(); std::vector<size_t> caps;
    if (sz < 400) for (size_t i = 0; i <= sz + 40; i++) caps.push_back(i);
    else { for (size_t i = 0; i < 60; i++) caps.push_back(i); for (size_t i = sz - 40; i <= sz + 40; i++) caps.push_back(i); for (int i = 0; i < 80; i++) caps.push_back(r.below(sz)); 
           size_t names = b.db->name_offset - b.db->name_builtin; caps.push_back(sz - names); caps.push_back(sz - names + 1); caps.push_back(sz - names - 1); }
    for (size_t cap : caps) {
        // exact-size block for the sanitizer, and a framed one for the shipped build
        { Block out(cap); int rc = crefl_db_write_mem(b.db, out.p, cap);
          CHECK((rc == 0) == (cap >= sz), "capacity:status", "capacity %zu of %zu gives %d", cap, sz, rc);
          if (rc == 0) { CHECK(!memcmp(out.p, want.data(), sz), "capacity:bytes", "capacity %zu", cap); for (size_t i = sz; i < cap; i++) CHECK(out.p[i] == 0xA5, "capacity:tail", "byte %zu of %zu written", i, cap); } }
        std::vector<uint8_t> fr(cap + 128, 0x5A); int rc = crefl_db_write_mem(b.db, fr.data() + 64, cap);
        CHECK((rc == 0) == (cap >= sz), "capacity:status", "capacity %zu of %zu gives %d", cap, sz, rc);
        for (size_t i = 0; i < 64; i++) CHECK(fr[i] == 0x5A && fr[64 + cap + i] == 0x5A, "capacity:outside", "capacity %zu of %zu", cap, sz);
        h::evals(2); h::cover(mix64(sz) ^ cap);
    }
    // every proper prefix is refused, from an exact block
    for (size_t k = 0; k < sz; k = (sz < 500 || k < 60 || k + 60 > sz) ? k + 1 : k + 1 + r.below(40)) {
        Block in(k); if (k) memcpy(in.p, want.data(), k); Db d(crefl_db_new()); int rc = crefl_db_read_mem(d.p, in.p, k);
        CHECK(rc != 0, "prefix:accepted", "%zu of %zu bytes", k, sz); h::evals();
    }
}

void f_header(Rng &r, uint64_t c) {
    Opts o; o.decls = r.below(5); Graph g = sometimes_nameless(r, generate(r, o)); Built b = build(g); Db own(b.db); std::vector<uint8_t> im = image(b.db);
    CHECK(im.size() >= 20, "write", "no image");
    for (size_t i = 0; i < 8; i++) for (int k = 0; k < 8; k++) {
        std::vector<uint8_t> v = im; v[i] ^= (uint8_t)(1 << k); Block in(v); Db d(crefl_db_new());
        CHECK(crefl_db_magic(in.p) != 0, "magic:accepts", "%s", hex(v.data(), 8).c_str());
        CHECK(crefl_db_read_mem(d.p, in.p, in.n) != 0, "header:magic", "%s accepted", hex(v.data(), 8).c_str()); h::evals();
    }
    // builtin tables of another size: the first declaration would be a different one
    for (int t = 0; t < 40; t++) {
        u32 root = t < 34 ? (u32)t : (u32)r.u64(); if (root == 1 + num_builtins) continue;
        std::vector<uint8_t> v = im; memcpy(&v[16], &root, 4); Block in(v); Db d(crefl_db_new());
        CHECK(crefl_db_read_mem(d.p, in.p, in.n) != 0, "header:root", "root %u accepted", root); h::evals(); h::cover(root);
    }
    // counts that the input does not hold
    for (int t = 0; t < 60; t++) {
        std::vector<uint8_t> v = im; size_t f = 8 + 4 * r.below(2); u32 x; memcpy(&x, &v[f], 4); u32 y = r.chance(1, 3) ? x + 1 + (u32)r.below(5) : r.chance(1, 2) ? x + (u32)r.u64() : (u32)(0u - 1 - r.below(100));
        if (y <= x) continue; memcpy(&v[f], &y, 4); Block in(v); Db d(crefl_db_new());
        CHECK(crefl_db_read_mem(d.p, in.p, in.n) != 0, "header:count", "field %zu %u for %u accepted", f, y, x); h::evals();
    }
    // a rejected load leaves a database which can still be released, and another load works
    Db d(crefl_db_new()); CHECK(crefl_db_read_mem(d.p, im.data(), im.size()) == 0, "header:good", "good image rejected");
    (void)c;
}

std::string slurp(const std::string &f) { FILE *p = fopen(f.c_str(), "rb"); std::string s; if (!p) return "<missing>"; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, p)) > 0) s.append(buf, n); fclose(p); return s; }

void f_file(Rng &r, uint64_t c) {
    Opts o = opts(r); if (r.chance(1, 10)) o.decls = 300; Graph g = sometimes_nameless(r, generate(r, o)); Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db);
    std::vector<uint8_t> want = reference(b.db); std::string f = h::fmt("img_%d_%llu.refl", (int)getpid(), (unsigned long long)c);
    // over nothing, over something longer, over something shorter
    size_t old = r.below(3); if (old) { FILE *p = fopen(f.c_str(), "wb"); std::string junk(old == 1 ? want.size() + 1 + r.below(5000) : r.below(want.size()), 'J'); fwrite(junk.data(), 1, junk.size(), p); fclose(p); }
    CHECK(crefl_db_write_file(b.db, f.c_str()) == 0, "file:write", "%s", f.c_str());
    std::string got = slurp(f); CHECK(got.size() == want.size() && !memcmp(got.data(), want.data(), want.size()), "file:bytes", "%zu bytes for %zu", got.size(), want.size());
    Db d(crefl_db_new()); CHECK(crefl_db_read_file(d.p, f.c_str()) == 0, "file:read", "%s", f.c_str()); same_tables(b.db, d.p, "file");
    CHECK(image(d.p) == want, "file:again", "second serialisation differs");
    CHECK(slurp(f) == got, "file:changed", "reading changed the file");
    // the same file rewritten from the loaded database
    CHECK(crefl_db_write_file(d.p, f.c_str()) == 0 && slurp(f) == got, "file:rewrite", "%s", f.c_str());
    unlink(f.c_str()); h::stat("files"); h::evals(4); h::cover(hash_bytes(want.data(), want.size()));
}

// larger than any internal buffer
void f_big(Rng &r, uint64_t c) {
    decl_db *db = crefl_db_new(); Db own(db); crefl_db_defaults(db);
    u32 root = crefl_decl_idx(crefl_decl_new(db, _decl_source)); db->root_element = root; u32 prev = 0; size_t n = c % 3 == 0 ? 65533 + r.below(6) : c % 3 == 1 ? 20000 + r.below(20000) : h::g_tier && r.chance(1, 4) ? (1u << 20) + r.below(4) : 100000 + r.below(60000);
    u32 nm = crefl_name_new(db, std::string(r.below(1 << 20), 'n').c_str()); crefl_decl_ptr(crefl_lookup(db, root))->_name = nm;
    for (size_t i = 0; i < n; i++) { u32 id = crefl_decl_idx(crefl_decl_new(db, _decl_typedef)); u32 k = crefl_name_new(db, ("t" + std::to_string(r.u64())).c_str()); decl_node *p = crefl_decl_ptr(crefl_lookup(db, id)); p->_name = k; p->_link = 9;
        if (prev) crefl_decl_ptr(crefl_lookup(db, prev))->_next = id; else crefl_decl_ptr(crefl_lookup(db, root))->_link = id; prev = id; }
    std::vector<uint8_t> want = reference(db); CHECK(image(db) == want, "big:write", "%zu", want.size());
    Db d(crefl_db_new()); CHECK(crefl_db_read_mem(d.p, want.data(), want.size()) == 0, "big:read", "%zu", want.size()); same_tables(db, d.p, "big"); CHECK(image(d.p) == want, "big:again", "%zu", want.size());
    std::string f = h::fmt("big_%d.refl", (int)getpid()); CHECK(crefl_db_write_file(db, f.c_str()) == 0, "big:file", ""); std::string got = slurp(f); CHECK(got.size() == want.size() && !memcmp(got.data(), want.data(), want.size()), "big:filebytes", "%zu", got.size());
    Db e(crefl_db_new()); CHECK(crefl_db_read_file(e.p, f.c_str()) == 0, "big:fileread", ""); same_tables(db, e.p, "bigfile"); unlink(f.c_str()); h::stat("big_image_bytes", want.size()); h::evals(3);
}

}
FAMILIES({ "roundtrip", 2500, 200000, f_roundtrip }, { "handmade", 1200, 60000, f_handmade }, { "capacity", 120, 6000, f_capacity },
         { "header", 60, 3000, f_header }, { "file", 300, 10000, f_file }, { "big", 3, 16, f_big })
