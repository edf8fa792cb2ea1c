// C22: creation histories against a shadow of everything handed out so far.
#include "graph.h"
using namespace gr;

namespace {

struct Shadow {
    decl_db *db; std::vector<std::pair<u32, decl_node>> nodes; std::vector<std::pair<u32, std::string>> names;
    std::set<u32> ids; std::map<u32, size_t> spans; size_t grown_d = 0, grown_n = 0;
    explicit Shadow(bool defaults) : db(crefl_db_new()) {
        CHECK(db->decl_offset >= 1 && db->name_offset >= 1, "new:reserved", "decl %zu name %zu", db->decl_offset, db->name_offset);
        CHECK(crefl_db_size(db) == 20, "new:size", "%zu", crefl_db_size(db));
        if (defaults) { crefl_db_defaults(db); take(); }
    }
    Shadow(decl_db *db, int) : db(db) { take(); }
    void take() {
        for (u32 i = 1; i < db->decl_offset; i++) { nodes.push_back({ i, db->decl[i] }); ids.insert(i);
            if (db->decl[i]._name) names.push_back({ db->decl[i]._name, crefl_decl_name(crefl_lookup(db, i)) }); }
        for (auto &n : names) spans[n.first] = n.second.size() + 1;
    }
    ~Shadow() { if (db) crefl_db_destroy(db); }
    // the whole database against the shadow
    void verify(const char *when) {
        for (auto &n : nodes) {
            CHECK(n.first < db->decl_offset, "node:lost", "%s node %u of %zu", when, n.first, db->decl_offset);
            decl_node *p = crefl_decl_ptr(crefl_lookup(db, n.first));
            CHECK(!memcmp(p, &n.second, sizeof(decl_node)), "node:changed", "%s node %u now %s was %s", when, n.first,
                hex(p, sizeof *p).c_str(), hex(&n.second, sizeof *p).c_str());
        }
        for (auto &n : names) {
            CHECK(n.first < db->name_offset, "name:lost", "%s name %u of %zu", when, n.first, db->name_offset);
            const char *s = db->name + n.first;
            CHECK(!memcmp(s, n.second.c_str(), n.second.size() + 1), "name:changed", "%s name %u '%.40s' was '%.40s'", when, n.first, s, n.second.c_str());
        }
        CHECK(db->name[0] == 0, "name:empty", "%s", when);
        static const decl_node zero = {};
        CHECK(!memcmp(db->decl, &zero, sizeof zero), "node:zero", "%s", when);
        h::stat("full_verifications"); h::evals(nodes.size() + names.size());
    }
    u32 node(Rng &r) {
        u32 tag = (u32)r.below(19); size_t cap = db->decl_size;
        decl_ref d = crefl_decl_new(db, tag); u32 id = crefl_decl_idx(d);
        bool grew = db->decl_size != cap;
        CHECK(d.db == db && id != 0 && id < db->decl_offset && db->decl_offset <= db->decl_size, "node:ref", "id %u offset %zu size %zu", id, db->decl_offset, db->decl_size);
        CHECK(ids.insert(id).second, "node:notfresh", "id %u", id);
        decl_node want = {}; want._tag = tag;
        CHECK(!memcmp(crefl_decl_ptr(d), &want, sizeof want), "node:notclear", "id %u %s", id, hex(crefl_decl_ptr(d), sizeof want).c_str());
        CHECK(crefl_decl_tag(d) == tag && !crefl_decl_props(d) && !crefl_decl_qty(d) && crefl_decl_idx(crefl_decl_next(d)) == 0 &&
              crefl_decl_idx(crefl_decl_link(d)) == 0 && crefl_decl_idx(crefl_decl_attr(d)) == 0 && !crefl_decl_has_name(d) &&
              crefl_decl_name(d)[0] == 0, "node:accessors", "id %u", id);
        nodes.push_back({ id, want }); h::stat("nodes");
        if (grew) { grown_d++; h::stat("decl_growths"); verify("after decl growth"); }
        return id;
    }
    u32 name(const std::string &s) {
        size_t cap = db->name_size; u32 id = crefl_name_new(db, s.c_str()); bool grew = db->name_size != cap;
        if (s.empty()) { CHECK(id == 0, "name:emptyid", "%u", id); return id; }
        CHECK(id != 0 && id + s.size() + 1 <= db->name_offset && db->name_offset <= db->name_size, "name:ref", "id %u len %zu offset %zu size %zu", id, s.size(), db->name_offset, db->name_size);
        auto i = spans.upper_bound(id);
        if (i != spans.end()) CHECK(id + s.size() + 1 <= i->first, "name:overlap", "%u+%zu next %u", id, s.size(), i->first);
        if (i != spans.begin()) { --i; CHECK(i->first + i->second <= id, "name:overlap", "%u+%zu then %u", i->first, i->second, id); }
        spans[id] = s.size() + 1;
        CHECK(!strcmp(db->name + id, s.c_str()), "name:readback", "'%.40s' for '%.40s'", db->name + id, s.c_str());
        names.push_back({ id, s }); h::stat("names");
        if (grew) { grown_n++; h::stat("name_growths"); verify("after name growth"); }
        return id;
    }
    void fill(Rng &r) { // set the fields of a random node as a builder would
        if (nodes.empty()) return;
        auto &n = nodes[r.below(nodes.size())]; decl_ref d = crefl_lookup(db, n.first); decl_node *p = crefl_decl_ptr(d);
        auto any = [&]() { return (u32)r.below(db->decl_offset); };
        switch (r.below(6)) {
        case 0: n.second._props = p->_props = (u32)r.u64(); CHECK(crefl_decl_props(d) == n.second._props, "set:props", "%u", n.first); break;
        case 1: n.second._next = p->_next = any(); CHECK(crefl_decl_idx(crefl_decl_next(d)) == n.second._next, "set:next", "%u", n.first); break;
        case 2: n.second._link = p->_link = any(); CHECK(crefl_decl_idx(crefl_decl_link(d)) == n.second._link, "set:link", "%u", n.first); break;
        case 3: n.second._attr = p->_attr = any(); CHECK(crefl_decl_idx(crefl_decl_attr(d)) == n.second._attr, "set:attr", "%u", n.first); break;
        case 4: n.second._quantity = p->_quantity = r.u64(); CHECK(crefl_decl_qty(d) == n.second._quantity, "set:qty", "%u", n.first); break;
        default: if (!names.empty()) { auto &m = r.pick(names); n.second._name = p->_name = m.first;
            CHECK(crefl_decl_has_name(d) && !strcmp(crefl_decl_name(d), m.second.c_str()), "set:name", "%u", n.first); }
        }
    }
};

std::string a_name(Rng &r, size_t room) {
    size_t n;
    switch (r.below(12)) {
    case 0: n = 0; break;
    case 1: n = 1; break;
    case 2: n = room ? room - 1 : 0; break;               // fills the table exactly with its NUL
    case 3: n = room; break;                              // one too many
    case 4: n = room > 1 ? room - 2 : 0; break;
    case 5: n = room + 1 + r.below(8); break;
    case 6: n = r.chance(1, 30) ? r.below(200000) : r.below(2000); break;
    case 7: n = 30 + r.below(4); break;
    default: n = r.below(24);
    }
    if (n > 300000) n = r.below(60);
    std::string s(n, 0); for (auto &c : s) c = (char)(r.chance(1, 8) ? 1 + r.below(255) : 'a' + r.below(26));
    return s;
}

void f_history(Rng &r, uint64_t) {
    size_t k = 1 + r.below(3); std::vector<std::unique_ptr<Shadow>> dbs;
    for (size_t i = 0; i < k; i++) dbs.emplace_back(new Shadow(r.chance(2, 3)));
    size_t ops = r.chance(1, 10) ? r.below(h::g_tier ? 20000 : 3000) : r.below(400); unsigned mode = (unsigned)r.below(3);
    std::string trace;
    for (size_t i = 0; i < ops; i++) {
        Shadow &s = *dbs[r.below(k)]; size_t c = r.below(100);
        unsigned wn = mode == 0 ? 40 : mode == 1 ? 85 : 8;
        if (c < wn) { s.node(r); if (trace.size() < 40) trace += 'n'; }
        else if (c < wn + (100 - wn) * 2 / 3) { size_t room = s.db->name_size - s.db->name_offset; s.name(a_name(r, room)); if (trace.size() < 40) trace += 's'; }
        else { s.fill(r); if (trace.size() < 40) trace += 'f'; }
        if (r.chance(1, 64)) { for (auto &x : dbs) x->verify("periodic"); }
        h::cover(hash_bytes(&s.db->decl_offset, 8, mix64(s.db->name_offset * 131 + s.db->decl_size)));
    }
    for (auto &x : dbs) { x->verify("end"); h::stat("databases"); }
    // independent databases: destroying one does not touch the others
    while (dbs.size() > 1) { dbs.erase(dbs.begin() + (long)r.below(dbs.size())); for (auto &x : dbs) x->verify("after destroying another database"); }
    h::sample(h::fmt("%zu databases, %zu operations (%s...): %zu nodes, %zu names", k, ops, trace.c_str(), dbs[0]->nodes.size(), dbs[0]->names.size()));
}

// defaults added after, and again after, other declarations
void f_defaults(Rng &r, uint64_t c) {
    Shadow s(c % 2);
    for (size_t i = 0, n = r.below(80); i < n; i++) { if (r.chance(1, 2)) s.node(r); else s.name(a_name(r, s.db->name_size - s.db->name_offset)); if (r.chance(1, 3)) s.fill(r); }
    size_t before = s.db->decl_offset;
    crefl_db_defaults(s.db);
    s.verify("after defaults");
    CHECK(s.db->decl_offset == before + num_builtins, "builtin:count", "%zu", s.db->decl_offset - before);
    for (size_t i = 0; i < num_builtins; i++) {
        decl_ref d = crefl_lookup(s.db, before + i);
        CHECK(crefl_is_intrinsic(d) && crefl_is_type(d) && !strcmp(crefl_decl_name(d), builtins[i].name) && crefl_decl_props(d) == builtins[i].props &&
            crefl_decl_qty(d) == builtins[i].width, "builtin:table", "%zu is %s props %x width %llu", i, crefl_decl_name(d), crefl_decl_props(d), crefl_decl_qty(d));
        CHECK(!crefl_decl_idx(crefl_decl_next(d)) && !crefl_decl_idx(crefl_decl_link(d)) && !crefl_decl_idx(crefl_decl_attr(d)), "builtin:links", "%zu", i);
        h::evals();
    }
}

// looking builtin types up by property and width, as the compiler plugin does
void f_lookup(Rng &r, uint64_t) {
    decl_db *db = crefl_db_new(); Db own(db); crefl_db_defaults(db); Snap before = snap(db);
    for (size_t i = 0; i < num_builtins; i++) {
        const Builtin &b = builtins[i];
        decl_ref d = crefl_intrinsic(db, b.props, b.width);
        CHECK(crefl_decl_idx(d) == i + 1 && !strcmp(crefl_decl_name(d), b.name), "builtin:lookup", "%s gives %s", b.name, crefl_decl_name(d));
        static const u32 kinds[] = { _decl_sint, _decl_uint, _decl_float, _decl_cfloat };
        for (u32 k : kinds) if (b.width && (b.props & k) == k && strcmp(b.name, "sign")) { // sign and bool are both signed, one bit
            d = crefl_intrinsic(db, k, b.width);
            CHECK(crefl_decl_idx(d) == i + 1, "builtin:lookupkind", "%s gives %s", b.name, crefl_decl_name(d));
        }
        h::evals();
    }
    for (int t = 0; t < 300; t++) {
        u32 p = r.chance(1, 2) ? (u32)r.below(512) : (u32)r.u64(); u64 w = r.chance(3, 4) ? 1ull << r.below(9) : r.u64();
        size_t want = 0;
        for (size_t i = num_builtins; i-- > 0; ) if (builtins[i].width == w && (builtins[i].props & p) == p) want = i + 1;
        decl_ref d = crefl_intrinsic(db, p, w);
        CHECK(d.db == db && crefl_decl_idx(d) == want, "intrinsic:search", "props %x width %llu gives %u want %zu", p, w, crefl_decl_idx(d), want);
        if (want) CHECK(crefl_is_intrinsic(d), "intrinsic:kind", "%u", crefl_decl_idx(d)); else CHECK(crefl_is_none(d), "intrinsic:none", "%u", crefl_decl_idx(d));
        h::cover(p * 1000003ull + w); h::evals();
    }
    // a user's own intrinsic is found after the builtins
    decl_ref u = crefl_decl_new(db, _decl_intrinsic); u32 ui = crefl_decl_idx(u); crefl_decl_ptr(u)->_width = 24; crefl_decl_ptr(u)->_props = _decl_uint;
    CHECK(crefl_decl_idx(crefl_intrinsic(db, _decl_uint, 24)) == ui, "intrinsic:user", "%u", ui);
    db->decl_offset--; Snap after = snap(db);
    CHECK(before == after, "intrinsic:modifies", "lookup changed the database");
    // kinds
    static int (*preds[])(decl_ref) = { crefl_is_none, crefl_is_intrinsic, crefl_is_typedef, crefl_is_set, crefl_is_enum, crefl_is_struct, crefl_is_union, crefl_is_field,
        crefl_is_array, crefl_is_pointer, crefl_is_constant, crefl_is_function, crefl_is_param, nullptr, crefl_is_attribute, crefl_is_value, crefl_is_archive, crefl_is_source, crefl_is_alias };
    static const char *tags[] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" };
    for (u32 t = 0; t < 19; t++) {
        decl_ref d = crefl_decl_new(db, t);
        for (u32 q = 0; q < 19; q++) if (preds[q]) CHECK(!!preds[q](d) == (q == t), "kind:predicate", "tag %u predicate %u", t, q);
        bool type = t == 1 || t == 2 || (t >= 3 && t <= 6) || t == 8 || t == 9 || t == 13;
        CHECK(!!crefl_is_type(d) == type && crefl_is_any(d), "kind:type", "tag %u", t);
        CHECK(!strcmp(crefl_tag_name(t), tags[t]), "kind:name", "tag %u %s", t, crefl_tag_name(t)); h::evals(20);
    }
    CHECK(strlen(crefl_tag_name(19 + (u32)r.below(1000))) > 0 && strlen(crefl_tag_name(~0u)) > 0, "kind:unknown", "unknown tag");
}

// very large tables: many growths, every earlier node and name still there
void f_large(Rng &r, uint64_t c) {
    Shadow s(true); size_t n = h::g_tier ? 400000 : c == 0 ? 150000 : 40000;
    for (size_t i = 0; i < n; i++) {
        u32 id = s.node(r);
        if (r.chance(1, 2)) { u32 k = s.name("n" + std::to_string(r.u64())); s.nodes.back().second._name = crefl_decl_ptr(crefl_lookup(s.db, id))->_name = k; }
        if (r.chance(1, 4)) s.fill(r);
    }
    if (r.chance(1, 2)) s.name(std::string((h::g_tier ? 40u : 3u) << 20, 'L'));
    s.verify("end"); h::stat("max_nodes", s.db->decl_offset); 
}

// building goes on in databases that were loaded or merged
void f_continued(Rng &r, uint64_t) {
    Opts o = random_opts(r, 1 + r.below(40)); o.unique = true; o.archive = false; Graph g = generate(r, o); Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db);
    decl_db *db = crefl_db_new(); size_t kind = r.below(2);
    if (kind == 0) { CHECK(crefl_link_merge(db, "m", &b.db, 1) == 0, "merge", "fails"); }
    else { std::vector<uint8_t> im = image(b.db);
        CHECK(crefl_db_read_mem(db, im.data(), im.size()) == 0, "load", "rejected"); }
    Shadow s(db, 0);
    for (size_t i = 0, n = 5 + r.below(300); i < n; i++) { if (r.chance(1, 2)) s.node(r); else if (r.chance(1, 2)) s.name(a_name(r, s.db->name_size - s.db->name_offset)); else s.fill(r); }
    s.verify("end"); h::stat(kind ? "loaded_then_built" : "merged_then_built"); h::cover(hash_bytes(&s.db->decl_offset, 8, mix64(s.db->name_offset)));
}

// a graph built in any order reads back as designed
void f_graph(Rng &r, uint64_t) {
    Opts o = random_opts(r, 10); Graph g = generate(r, o);
    Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db);
    for (size_t i = 0; i < g.n.size(); i++) {
        decl_ref d = crefl_lookup(b.db, b.id[i]); const Node &n = g.n[i];
        CHECK(crefl_decl_tag(d) == n.tag && crefl_decl_props(d) == n.props && crefl_decl_qty(d) == n.qty && crefl_decl_name(d) == n.name &&
            !!crefl_decl_has_name(d) == !n.name.empty() && crefl_decl_idx(crefl_decl_next(d)) == ref_id(b, n.next) && crefl_decl_idx(crefl_decl_link(d)) == ref_id(b, n.link) &&
            crefl_decl_idx(crefl_decl_attr(d)) == ref_id(b, n.attr), "graph:readback", "node %zu %s", i, describe(g).c_str());
        h::evals();
    }
    CHECK(crefl_decl_idx(crefl_root(b.db)) == b.id[0], "graph:root", "%u", crefl_decl_idx(crefl_root(b.db)));
    // single-valued queries answer the stored value for the right kind and none/zero otherwise
    Snap before = snap(b.db);
    for (u32 i = 0; i < b.db->decl_offset; i++) {
        decl_ref d = crefl_lookup(b.db, i); const decl_node &n = b.db->decl[i]; u32 t = n._tag;
        auto ty = [&](decl_ref x, u32 tag, const char *w) { CHECK(x.db == b.db && crefl_decl_idx(x) == (t == tag ? n._link : 0), "query:type", "%s of node %u (%s)", w, i, crefl_tag_name(t)); };
        ty(crefl_typedef_type(d), _decl_typedef, "typedef"); ty(crefl_field_type(d), _decl_field, "field"); ty(crefl_array_type(d), _decl_array, "array");
        ty(crefl_pointer_type(d), _decl_pointer, "pointer"); ty(crefl_constant_type(d), _decl_constant, "constant"); ty(crefl_param_type(d), _decl_param, "param");
        CHECK(crefl_array_count(d) == (t == _decl_array ? n._count : 0), "query:count", "node %u", i);
        CHECK(crefl_constant_value(d).ux == (t == _decl_constant ? n._value : 0), "query:value", "node %u", i);
        CHECK(crefl_function_addr(d) == (t == _decl_function ? (void*)n._addr : nullptr), "query:addr", "node %u", i);
        h::evals(9);
    }
    CHECK(snap(b.db) == before, "query:modifies", "queries changed the database");
    h::cover(hash_str(describe(g, 1000)));
}

}
FAMILIES({ "history", 1500, 60000, f_history }, { "defaults", 200, 4000, f_defaults }, { "lookup", 40, 2000, f_lookup },
         { "large", 4, 24, f_large }, { "continued", 400, 20000, f_continued }, { "graph", 1200, 60000, f_graph })
