// C07: list queries at every capacity against the member lists of the shadow graph.
#include "graph.h"
using namespace gr;

namespace {

typedef int (*ListFn)(decl_ref, decl_ref*, size_t*);
bool any(u32) { return true; }
bool is_field(u32 t) { return t == _decl_field; }
bool is_const(u32 t) { return t == _decl_constant; }
bool is_param(u32 t) { return t == _decl_param; }
bool is_func(u32 t) { return t == _decl_function; }
bool is_source(u32 t) { return t == _decl_source; }
bool is_type(u32 t) { return t == _decl_typedef || t == _decl_intrinsic || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_array || t == _decl_pointer || t == _decl_qualifier; }
struct Query { const char *name; ListFn fn; u32 tag; bool (*sel)(u32); };
const Query queries[] = {
    { "enum_constants", crefl_enum_constants, _decl_enum, is_const }, { "set_constants", crefl_set_constants, _decl_set, is_const },
    { "struct_fields", crefl_struct_fields, _decl_struct, is_field }, { "union_fields", crefl_union_fields, _decl_union, is_field },
    { "function_params", crefl_function_params, _decl_function, is_param }, { "source_decls", crefl_source_decls, _decl_source, any },
    { "source_types", crefl_source_types, _decl_source, is_type }, { "source_fields", crefl_source_fields, _decl_source, is_field },
    { "source_functions", crefl_source_functions, _decl_source, is_func }, { "archive_sources", crefl_archive_sources, _decl_archive, is_source },
};

std::vector<u32> members(decl_db *db, u32 id, bool (*sel)(u32)) {
    std::vector<u32> v; for (u32 i = db->decl[id]._link; i; i = db->decl[i]._next) if (sel(db->decl[i]._tag)) v.push_back(i); return v;
}

struct Slots { // cap entries in a block of exactly that size; filled with a pattern no query would write
    Block b; size_t cap; explicit Slots(size_t cap) : b(cap * sizeof(decl_ref)), cap(cap) {}
    decl_ref *p() { return (decl_ref*)b.p; }
    bool untouched(size_t i) { for (size_t k = 0; k < sizeof(decl_ref); k++) if (b.p[i * sizeof(decl_ref) + k] != 0xA5) return false; return true; }
};

std::vector<size_t> caps(Rng &r, size_t n, bool all) {
    std::vector<size_t> c; if (all && n < 12) { for (size_t i = 0; i <= n + 3; i++) c.push_back(i); return c; }
    c = { 0, 1, n, n + 1, n + 2 + r.below(40) }; if (n) { c.push_back(n - 1); c.push_back(r.below(n)); c.push_back(n / 2); } return c;
}

void one(Rng &r, decl_db *db, u32 id, const Query &q, bool all) {
    decl_ref d = crefl_lookup(db, id); u32 tag = db->decl[id]._tag;
    if (tag != q.tag) {
        Slots s(4); size_t n = r.below(5); CHECK(q.fn(d, s.p(), &n) != 0, std::string("wrongkind:") + q.name, "%s of a %s succeeds", q.name, crefl_tag_name(tag));
        for (size_t i = 0; i < 4; i++) CHECK(s.untouched(i), std::string("wrongkind:writes:") + q.name, "slot %zu", i);
        n = 3; CHECK(q.fn(d, nullptr, &n) != 0, std::string("wrongkind:") + q.name, "%s of a %s succeeds without buffer", q.name, crefl_tag_name(tag));
        h::evals(2); h::stat("wrong_kind"); return;
    }
    std::vector<u32> want = members(db, id, q.sel);
    size_t garbage[] = { 0, 1, want.size(), want.size() + 7, (size_t)r.u64(), ~(size_t)0 };
    for (size_t g : garbage) { size_t n = g; CHECK(q.fn(d, nullptr, &n) == 0 && n == want.size(), std::string("count:") + q.name, "%s of node %u: %zu members, want %zu (initial %zu)", q.name, id, n, want.size(), g); h::evals(); }
    CHECK(q.fn(d, nullptr, nullptr) == 0, std::string("nobuffer:") + q.name, "%s", q.name);
    for (size_t cap : caps(r, want.size(), all)) for (int rep = 0; rep < 2; rep++) {
        Slots s(cap); size_t n = cap;
        CHECK(q.fn(d, s.p(), &n) == 0, std::string("fails:") + q.name, "%s of node %u capacity %zu", q.name, id, cap);
        CHECK(n == want.size(), std::string("count:") + q.name, "%s of node %u: %zu members, want %zu, capacity %zu", q.name, id, n, want.size(), cap);
        for (size_t i = 0; i < cap; i++) {
            if (i < want.size()) CHECK(s.p()[i].db == db && s.p()[i].decl_idx == want[i], std::string("member:") + q.name, "%s of node %u: entry %zu is %zu want %u (capacity %zu)", q.name, id, i, s.p()[i].decl_idx, want[i], cap);
            else CHECK(s.untouched(i), std::string("beyond:") + q.name, "%s of node %u: slot %zu of %zu written with %zu members", q.name, id, i, cap, want.size());
        }
        h::evals(); h::stat("fetches");
    }
    h::stat(std::string("q_") + q.name); h::stat("members", want.size()); if (want.size() > 30) h::stat("long_lists");
}

void offsets(Rng &r, decl_db *db, u32 id, bool all) {
    decl_ref d = crefl_lookup(db, id); u32 tag = db->decl[id]._tag;
    if (tag != _decl_struct) { Slots s(4); size_t o[4] = { 7, 7, 7, 7 }, n = 4; CHECK(crefl_struct_fields_offsets(d, s.p(), o, &n) != 0, "wrongkind:offsets", "%s", crefl_tag_name(tag));
        for (size_t i = 0; i < 4; i++) CHECK(s.untouched(i) && o[i] == 7, "wrongkind:writes:offsets", "slot %zu", i); h::evals(); return; }
    std::vector<u32> want = members(db, id, is_field); size_t total = want.empty() ? 0 : want.size() + 1;
    size_t n = (size_t)r.u64(); CHECK(crefl_struct_fields_offsets(d, nullptr, nullptr, &n) == 0 && n == total, "count:offsets", "node %u: %zu want %zu", id, n, total);
    CHECK(crefl_struct_fields_offsets(d, nullptr, nullptr, nullptr) == 0, "nobuffer:offsets", "node %u", id);
    std::vector<size_t> ref; 
    { ref.assign(total + 1, 0); n = total; CHECK(crefl_struct_fields_offsets(d, nullptr, ref.data(), &n) == 0 && n == total, "count:offsets", "node %u: %zu want %zu", id, n, total); }
    for (size_t cap : caps(r, total, all)) for (int mode = 0; mode < 3; mode++) {
        Slots s(cap); Block ob(cap * sizeof(size_t)); size_t *o = (size_t*)ob.p; n = cap;
        CHECK(crefl_struct_fields_offsets(d, mode == 1 ? nullptr : s.p(), mode == 2 ? nullptr : o, &n) == 0 && n == total, "count:offsets", "node %u capacity %zu: %zu want %zu", id, cap, n, total);
        size_t pat; memset(&pat, 0xA5, sizeof pat);
        for (size_t i = 0; i < cap; i++) {
            bool in = i < total;
            if (mode != 1) { if (i < want.size()) CHECK(s.p()[i].db == db && s.p()[i].decl_idx == want[i], "member:offsets", "node %u entry %zu is %zu want %u", id, i, s.p()[i].decl_idx, want[i]);
                else if (in) CHECK(s.p()[i].db == db && s.p()[i].decl_idx == 0, "member:offsets_end", "node %u", id);
                else if (total) CHECK(s.untouched(i), "beyond:offsets", "node %u slot %zu of %zu, %zu members", id, i, cap, total); }
            if (mode != 2) { if (in) CHECK(o[i] == ref[i], "again:offsets", "node %u entry %zu %zu then %zu", id, i, ref[i], o[i]); else if (total) CHECK(o[i] == pat, "beyond:offsets_o", "node %u slot %zu of %zu", id, i, cap); }
        }
        h::evals(); h::stat("offset_fetches");
    }
}

void all_nodes(Rng &r, decl_db *db, bool full) {
    Snap before = snap(db);
    for (u32 id = 0; id < db->decl_offset; id++) {
        for (const Query &q : queries) if (q.tag == db->decl[id]._tag || r.chance(1, 8)) one(r, db, id, q, full);
        if (db->decl[id]._tag == _decl_struct || r.chance(1, 8)) offsets(r, db, id, full);
    }
    CHECK(snap(db) == before, "modifies", "list queries changed the database"); h::stat("databases");
}

void f_graphs(Rng &r, uint64_t) {
    Opts o = random_opts(r, r.chance(1, 8) ? 60 : 8); if (r.chance(1, 5)) o.big = 200;
    Graph g = generate(r, o); Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db);
    all_nodes(r, b.db, r.chance(1, 2));
    h::cover(hash_str(describe(g, 100000))); h::sample(describe(g));
    if (r.chance(1, 3)) { // the same through a loaded image
        std::vector<uint8_t> im = image(b.db); Db d(crefl_db_new()); CHECK(crefl_db_read_mem(d.p, im.data(), im.size()) == 0, "load", "rejected"); all_nodes(r, d.p, false);
    }
}

// merged archives: lists hold alias nodes
void f_merged(Rng &r, uint64_t) {
    std::vector<std::unique_ptr<Db>> in; std::vector<decl_db*> p; size_t k = 1 + r.below(4); Opts o = random_opts(r, 6); o.archive = false; o.unique = true; uint64_t s = r.next();
    for (size_t i = 0; i < k; i++) { Rng q(r.chance(1, 2) ? s : r.next()); Graph g = generate(q, o); in.emplace_back(new Db(build(g).db)); p.push_back(in.back()->p); }
    Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, "m", p.data(), p.size()) == 0, "merge", "fails"); all_nodes(r, m.p, false); h::cover(hash_bytes(m.p->decl, m.p->decl_offset * sizeof(decl_node)));
}

// lists of every small shape: each pattern of member kinds up to five long, in every kind of list
void f_shapes(Rng &r, uint64_t c) {
    static const u32 kinds[] = { _decl_field, _decl_constant, _decl_struct, _decl_function, _decl_param, _decl_typedef, _decl_source, _decl_alias, _decl_pointer, _decl_enum,
        _decl_qualifier, _decl_array, _decl_union, _decl_set, _decl_intrinsic, _decl_attribute, _decl_value, _decl_archive, _decl_none };
    size_t n = c % 6; uint64_t x = c / 6; decl_db *db = crefl_db_new(); Db own(db); crefl_db_defaults(db);
    static const u32 heads[] = { _decl_enum, _decl_set, _decl_struct, _decl_union, _decl_function, _decl_source, _decl_archive };
    for (u32 t : heads) { u32 h0 = crefl_decl_idx(crefl_decl_new(db, t)); if (!db->root_element) db->root_element = h0; u32 prev = 0; uint64_t y = x * 2654435761u + c;
        for (size_t i = 0; i < n; i++) { u32 kind = kinds[y % 19]; y = mix64(y); if (r.chance(1, 2)) kind = t == _decl_enum || t == _decl_set ? _decl_constant : t == _decl_function ? _decl_param : t == _decl_archive ? _decl_source : _decl_field;
            u32 m = crefl_decl_idx(crefl_decl_new(db, kind)); decl_node *p = crefl_decl_ptr(crefl_lookup(db, m)); if (kind == _decl_field || kind == _decl_param || kind == _decl_alias || kind == _decl_typedef || kind == _decl_qualifier || kind == _decl_pointer || kind == _decl_array) p->_link = 9;
            if (prev) crefl_decl_ptr(crefl_lookup(db, prev))->_next = m; else crefl_decl_ptr(crefl_lookup(db, h0))->_link = m; prev = m; } }
    all_nodes(r, db, true); h::cover(hash_bytes(db->decl, db->decl_offset * sizeof(decl_node)));
}

// lists longer than any small counter
void f_big(Rng &r, uint64_t c) {
    static const struct { u32 head, mem; } kinds[] = { { _decl_source, _decl_typedef }, { _decl_struct, _decl_field }, { _decl_enum, _decl_constant }, { _decl_source, _decl_function }, { _decl_set, _decl_constant },
        { _decl_union, _decl_field }, { _decl_function, _decl_param }, { _decl_source, _decl_field }, { _decl_archive, _decl_source } };
    u32 head = kinds[c % 9].head, mem = kinds[c % 9].mem; size_t n = c % 2 ? 100000 + r.below(60000) : 65534 + r.below(5);
    decl_db *db = crefl_db_new(); Db own(db); crefl_db_defaults(db); u32 root = crefl_decl_idx(crefl_decl_new(db, head)); db->root_element = root; u32 prev = 0;
    for (size_t i = 0; i < n; i++) { bool other = r.chance(1, 200); u32 id = crefl_decl_idx(crefl_decl_new(db, other ? (u32)_decl_attribute : mem)); if (mem == _decl_field || mem == _decl_typedef) db->decl[id]._link = 9;
        (prev ? db->decl[prev]._next : db->decl[root]._link) = id; prev = id; }
    Snap before = snap(db);
    for (const Query &q : queries) if (q.tag == head) one(r, db, root, q, false);
    if (head == _decl_struct) offsets(r, db, root, false);
    CHECK(snap(db) == before, "modifies", "list queries changed the database"); h::stat("big_lists"); h::cover(mix64(n) ^ head);
}

}
FAMILIES({ "big", 9, 90, f_big }, { "graphs", 1500, 100000, f_graphs }, { "merged", 300, 20000, f_merged }, { "shapes", 1500, 60000, f_shapes })
