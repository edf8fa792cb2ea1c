// C05: merged databases compared with their inputs by bisimulation through aliases.
#include "graph.h"
using namespace gr;

namespace {

struct Src { std::string name; decl_db *db; u32 node; };   // one source to find in the result

void in_bounds(decl_db *db) {
    for (u32 i = 0; i < db->decl_offset; i++) { const decl_node &n = db->decl[i];
        CHECK(n._link < db->decl_offset && n._next < db->decl_offset && n._attr < db->decl_offset && n._name < db->name_offset, "bounds", "node %u link %u next %u attr %u name %u", i, n._link, n._next, n._attr, n._name);
        if (n._tag == _decl_alias) CHECK(n._link && db->decl[n._link]._tag != _decl_alias, "alias:target", "alias %u to %s", i, crefl_tag_name(db->decl[n._link]._tag)); }
    CHECK(db->name_offset && db->name[db->name_offset - 1] == 0, "bounds:names", "names not terminated");
}

// definitions that do not lead to a cycle, numbered by content; the merged database holds each content once
struct Canon { decl_db *db; std::vector<int> id; std::map<std::vector<uint64_t>, int> seen; enum { unseen = 0, active = -1, cyclic = -2 };
    explicit Canon(decl_db *d) : db(d), id(d->decl_offset, 0) {}
    int of(u32 i) {
        while (db->decl[i]._tag == _decl_alias) i = db->decl[i]._link;
        if (i < db->decl_builtin) return (int)i + 1;
        if (id[i] == active) return cyclic;
        if (id[i] != unseen) return id[i];
        id[i] = active; const decl_node &n = db->decl[i]; std::vector<uint64_t> k { n._tag, n._props, n._quantity }; bool bad = false;
        for (const char *p = db->name + n._name; *p; p++) k.push_back((unsigned char)*p);
        auto list = [&](u32 c) { k.push_back(~0ull); for (; c; c = db->decl[c]._next) { int v = of(c); bad = bad || v == cyclic; k.push_back((uint64_t)v); } };
        list(n._attr);
        if (container(n._tag)) list(n._link); else if (n._link) { k.push_back(~1ull); int v = of(n._link); bad = bad || v == cyclic; k.push_back((uint64_t)v); }
        return id[i] = bad ? (int)cyclic : seen.insert({ k, 1000000 + (int)seen.size() }).first->second; }
    void once(const char *how) { std::map<int, u32> first; size_t n = 0;
        for (u32 i = db->decl_builtin; i < db->decl_offset; i++) if (collection(db->decl[i]._tag)) { int v = of(i); if (v == cyclic) continue; n++; auto f = first.insert({ v, i });
            CHECK(f.second, "shared", "%s: %s '%s' is stored as %u and as %u", how, crefl_tag_name(db->decl[i]._tag), db->name + db->decl[i]._name, f.first->second, i); }
        h::stat("definitions_stored_once", n); h::evals(n); } };

// every source of the inputs, in order and once, structurally equal
void compare(decl_db *m, const std::vector<Src> &want, const char *arch, const char *how) {
    in_bounds(m);
    decl_ref root = crefl_root(m); CHECK(crefl_is_archive(root), "root", "%s: root is a %s", how, crefl_tag_name(crefl_decl_tag(root)));
    CHECK(!strcmp(crefl_decl_name(root), arch), "archive:name", "%s: '%s' want '%s'", how, crefl_decl_name(root), arch);
    size_t n = 0; CHECK(crefl_archive_sources(root, nullptr, &n) == 0 && n == want.size(), "sources:count", "%s: %zu sources, want %zu", how, n, want.size());
    std::vector<decl_ref> r(n + 1); CHECK(crefl_archive_sources(root, r.data(), &n) == 0, "sources", "%s", how);
    size_t raw = 0; for (u32 i = m->decl[m->root_element]._link; i; i = m->decl[i]._next) raw++; CHECK(raw == want.size(), "sources:others", "%s: %zu list entries for %zu sources", how, raw, want.size());
    for (size_t i = 0; i < want.size(); i++) {
        CHECK(want[i].name == crefl_decl_name(r[i]), "sources:order", "%s: source %zu is '%s' want '%s'", how, i, crefl_decl_name(r[i]), want[i].name.c_str());
        Bisim q(want[i].db, m); CHECK(q.eq(want[i].node, crefl_decl_idx(r[i])), "graph", "%s: source %zu of %zu ('%s'): %s", how, i, want.size(), want[i].name.c_str(), q.why.c_str());
        h::stat("nodes_compared", q.pairs); h::evals(q.pairs + 1);
    }
    Canon(m).once(how);
    u32 al = 0; for (u32 i = 0; i < m->decl_offset; i++) al += m->decl[i]._tag == _decl_alias; h::stat("aliases", al);
}

// a source including some of a set of shared headers and adding its own declarations
struct Pool { std::vector<uint64_t> hdr; Opts o; bool recursion; };
int make_source(Gen &x, Rng &r, const Pool &p, const std::string &nm, const std::string &uniq) {
    int s = x.g.add(_decl_source, nm); std::vector<int> v; std::vector<size_t> inc; for (size_t i = 0; i < p.hdr.size(); i++) if (r.chance(2, 3)) inc.push_back(i);
    for (size_t i = inc.size(); i-- > 1; ) if (r.chance(1, 3)) std::swap(inc[i], inc[r.below(i + 1)]);
    std::vector<int> alltypes, allcolls;
    for (size_t i : inc) { x.r = Rng(p.hdr[i]); x.o.uniq = "h" + std::to_string(i) + "_"; x.serial = 0; x.types.clear(); x.colls.clear(); size_t k = 1 + p.hdr[i] % 4;
        for (size_t j = 0; j < k; j++) v.push_back(x.top());
        alltypes.insert(alltypes.end(), x.types.begin(), x.types.end()); allcolls.insert(allcolls.end(), x.colls.begin(), x.colls.end()); }
    x.types = alltypes; x.colls = allcolls; x.r = Rng(r.next()); x.o.uniq = uniq; x.serial = 0;
    for (size_t j = 0, k = r.below(p.o.decls + 1); j < k; j++) v.push_back(x.top());
    x.types.clear(); x.colls.clear();
    int h; x.g.list(h, v); x.g.n[(size_t)s].link = h; return s;
}

struct Inputs { std::vector<std::unique_ptr<Db>> own; std::vector<decl_db*> p; std::vector<Src> want; std::string desc; };

void add_input(Inputs &in, Rng &r, const Pool &p, bool archive) {
    size_t serial = in.p.size(); Gen x(r.next(), p.o); std::vector<std::pair<std::string, int>> srcs;
    auto uq = [&](size_t j) { return (p.o.unique ? "d" + std::to_string(serial) + "_" + std::to_string(j) + "_" : std::string()); };
    auto nm = [&](size_t j) { return r.chance(1, 6) ? std::string("same.c") : r.chance(1, 12) ? odd_name(r) : "s" + std::to_string(serial) + "_" + std::to_string(j) + ".c"; };
    if (archive) { int a = x.g.add(_decl_archive, "in" + std::to_string(serial)); std::vector<int> v; size_t k = r.below(4); for (size_t j = 0; j < k; j++) { std::string n = nm(j); int s = make_source(x, r, p, n, uq(j)); v.push_back(s); srcs.push_back({ n, s }); }
        int h; x.g.list(h, v); x.g.n[(size_t)a].link = h; in.desc += h::fmt("A%zu ", k); }
    else { std::string n = nm(0); int s = make_source(x, r, p, n, uq(0)); srcs.push_back({ n, s }); in.desc += "S "; }
    Built b = build(x.g, &r, (int)r.below(2), (int)r.below(3)); in.own.emplace_back(new Db(b.db)); in.p.push_back(b.db);
    for (auto &s : srcs) in.want.push_back({ s.first, b.db, b.id[(size_t)s.second] });
}

void f_merge(Rng &r, uint64_t c) {
    Pool p; p.o = random_opts(r, r.chance(1, 10) ? 20 : 5); p.o.archive = p.o.orphans = false; p.o.recursion = r.chance(1, 2); p.o.unique = p.o.recursion && r.chance(1, 2); 
    for (size_t i = 0, k = r.below(4); i < k; i++) p.hdr.push_back(r.next());
    Inputs in; size_t k = r.chance(1, 20) ? 0 : r.chance(1, 15) ? 5 + r.below(20) : 1 + r.below(4);
    for (size_t i = 0; i < k; i++) {
        if (!in.p.empty() && r.chance(1, 8)) { // the same database given twice
            size_t w = r.below(in.p.size()); decl_db *d = in.p[w]; in.p.push_back(d); std::vector<Src> again; 
            if (crefl_is_archive(crefl_root(d))) { for (u32 s = d->decl[d->root_element]._link; s; s = d->decl[s]._next) again.push_back({ crefl_decl_name(crefl_lookup(d, s)), d, s }); } else again.push_back({ crefl_decl_name(crefl_root(d)), d, d->root_element });
            in.want.insert(in.want.end(), again.begin(), again.end()); in.desc += "= "; in.own.emplace_back(new Db(nullptr)); continue; }
        add_input(in, r, p, r.chance(1, 4));
    }
    std::vector<Snap> before; for (auto d : in.p) before.push_back(snap(d));
    static const std::pair<const char*, const char*> names[] = { { "lib.refl", "lib.refl" }, { "/tmp/x/lib.refl", "lib.refl" }, { "a/b", "b" }, { "plain", "plain" } };
    auto nm = names[r.below(4)];
    Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, nm.first, in.p.data(), in.p.size()) == 0, "status", "merge of %s fails", in.desc.c_str());
    for (size_t i = 0; i < in.p.size(); i++) CHECK(snap(in.p[i]) == before[i], "inputs", "input %zu changed by merging", i);
    compare(m.p, in.want, nm.second, "merged");
    // deterministic
    { Db m2(crefl_db_new()); CHECK(crefl_link_merge(m2.p, nm.first, in.p.data(), in.p.size()) == 0 && image(m2.p) == image(m.p), "deterministic", "second merge differs"); }
    // save and load
    std::vector<uint8_t> im = image(m.p); CHECK(!im.empty(), "serialise", "fails"); Db l(crefl_db_new()); CHECK(crefl_db_read_mem(l.p, im.data(), im.size()) == 0, "load", "merged image of %s rejected", in.desc.c_str());
    compare(l.p, in.want, nm.second, "loaded"); CHECK(image(l.p) == im, "load:image", "differs");
    // merge again, alone, and with another input before or after
    { decl_db *one[] = { r.chance(1, 2) ? m.p : l.p }; Db a(crefl_db_new()); Snap s = snap(one[0]); CHECK(crefl_link_merge(a.p, "again", one, 1) == 0, "again", "fails"); CHECK(snap(one[0]) == s, "inputs", "archive changed by merging"); compare(a.p, in.want, "again", "merged again"); }
    { Inputs e; for (size_t i = 0; i < 40; i++) e.p.push_back(nullptr); add_input(e, r, p, r.chance(1, 3)); bool first = r.chance(1, 2); decl_db *two[2] = { first ? e.p.back() : m.p, first ? m.p : e.p.back() };
      std::vector<Src> want; if (first) { want = e.want; want.insert(want.end(), in.want.begin(), in.want.end()); } else { want = in.want; want.insert(want.end(), e.want.begin(), e.want.end()); }
      Db a(crefl_db_new()); CHECK(crefl_link_merge(a.p, "both", two, 2) == 0, "both", "fails"); compare(a.p, want, "both", "merged with another");
      std::vector<uint8_t> i2 = image(a.p); Db b(crefl_db_new()); CHECK(crefl_db_read_mem(b.p, i2.data(), i2.size()) == 0, "both:load", "rejected"); }
    h::stat("merges", 5); h::stat("inputs", in.p.size()); h::stat(p.o.recursion ? "recursive" : "acyclic"); h::cover(hash_bytes(im.data(), im.size()));
    h::sample(h::fmt("%zu inputs (%s) with %zu shared headers: %zu sources, %zu merged declarations", in.p.size(), in.desc.c_str(), p.hdr.size(), in.want.size(), m.p->decl_offset));
}

// different definitions under the same names: nothing may be confused
void f_conflict(Rng &r, uint64_t) {
    Opts o; o.decls = 1 + r.below(5); o.recursion = r.chance(1, 2); o.odd = false; Graph g = generate(r, o); Inputs in; size_t k = 2 + r.below(4);
    for (size_t i = 0; i < k; i++) {
        Graph m = g; size_t muts = r.below(4);
        for (size_t t = 0; t < muts; t++) { Node &n = m.n[r.below(m.n.size())]; switch (r.below(4)) { case 0: if (!container(n.tag) || collection(n.tag)) n.props ^= 1u << r.below(25); break; case 1: n.qty ^= 1ull << r.below(16); break; case 2: if (n.tag != _decl_source) n.name += "_"; break; default: if (is_b(n.link)) n.link = B((int)r.range(1, 22)); } }
        Built b = build(m, &r, (int)r.below(2), 0); in.own.emplace_back(new Db(b.db)); in.p.push_back(b.db); in.want.push_back({ m.n[0].name, b.db, b.id[0] });
    }
    Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, "c", in.p.data(), k) == 0, "status", "fails"); compare(m.p, in.want, "c", "conflicting"); h::stat("conflict_merges"); std::vector<uint8_t> im = image(m.p); h::cover(hash_bytes(im.data(), im.size()));
}

// recursive types under the same names with different definitions
void f_recursive_fixed() {
    // struct A { B *b; [int x;] }; struct B { A *a; };
    auto mk = [&](bool extra) { Graph g; int s = g.add(_decl_source, extra ? "two.c" : "one.c"); int A = g.add(_decl_struct, "A"), Bn = g.add(_decl_struct, "B");
        int pb = g.add(_decl_pointer, "*B", 0, 64), pa = g.add(_decl_pointer, "*A", 0, 64), fb = g.add(_decl_field, "b"), fa = g.add(_decl_field, "a"); g.n[pb].link = Bn; g.n[pa].link = A; g.n[fb].link = pb; g.n[fa].link = pa;
        std::vector<int> l { fb }; if (extra) { int x = g.add(_decl_field, "x"); g.n[x].link = B(10); l.push_back(x); } g.list(g.n[A].link, l); g.n[Bn].link = fa; std::vector<int> top { A, Bn }; g.list(g.n[s].link, top); return g; };
    Graph g1 = mk(false), g2 = mk(true); Built b1 = build(g1), b2 = build(g2); Db o1(b1.db), o2(b2.db); decl_db *p[] = { b1.db, b2.db };
    Db m(crefl_db_new()); crefl_link_merge(m.p, "m", p, 2); u32 s = m.p->decl[m.p->root_element]._link; s = m.p->decl[s]._next;
    Bisim q(b2.db, m.p); CHECK(q.eq(b2.id[0], s), "recursive-conflict", "sources one.c { struct A { struct B *b; }; struct B { struct A *a; }; } and two.c { struct A { struct B *b; int x; }; struct B { struct A *a; }; }: %s", q.why.c_str());
    h::evals();
}

// records of few names that refer to each other, some only declared; sources differ in one of them or not at all
void f_recursive(Rng &r, uint64_t c) {
    if (c == 0) f_recursive_fixed();
    size_t recs = 1 + r.below(6), names = 1 + r.below(recs), k = 1 + r.below(5); static const char *const nm[] = { "A", "B", "C", "D", "E", "F" };
    struct F { int kind; size_t to; }; struct R { size_t name; uint32_t tag; std::vector<F> f; }; std::vector<R> base(recs);
    auto field = [&] { int kind = r.chance(1, 5) ? 0 : 1 + (int)r.below(4); return F { kind, kind ? r.below(recs) : r.below(3) }; };
    for (size_t i = 0; i < recs; i++) { base[i].name = recs == names ? i : r.below(names); base[i].tag = r.chance(1, 6) ? _decl_union : _decl_struct; if (r.chance(1, 6)) continue; for (size_t j = 0, m = 1 + r.below(3); j < m; j++) base[i].f.push_back(field()); }
    Inputs in; size_t diff = 0;
    for (size_t s = 0; s < k; s++) {
        std::vector<std::vector<R>> part; size_t parts = r.chance(1, 4) ? 2 : 1;     // twice in one source: the same or not
        for (size_t q = 0; q < parts; q++) { std::vector<R> v = base; if (r.chance(2, 3)) { diff++; R &x = v[r.below(recs)]; switch (r.below(4)) { case 0: x.f.clear(); break; case 1: x.f.push_back(field()); break; case 2: if (!x.f.empty()) x.f[r.below(x.f.size())] = field(); break; default: x.tag ^= _decl_struct ^ _decl_union; } } part.push_back(v); }
        Graph g; int src = g.add(_decl_source, h::fmt("s%zu.c", s)); std::vector<int> top;
        for (auto &v : part) { std::vector<int> id; for (auto &x : v) id.push_back(g.add(x.tag, nm[x.name]));
            std::map<size_t, int> shared; bool share = r.chance(1, 2);
            for (size_t i = 0; i < recs; i++) { std::vector<int> l; size_t j = 0;
                for (auto &f : v[i].f) { int d = g.add(_decl_field, std::string(1, (char)('a' + j++)));
                    if (!f.kind) g.n[d].link = B(9 + (int)f.to);
                    else if (f.kind == 4) { // a function that takes a pointer to the record
                        int ret = g.add(_decl_param, ""), par = g.add(_decl_param, "p"), fn = g.add(_decl_function, "fn"), pt = g.add(_decl_pointer, "", 0, 64), pf = g.add(_decl_pointer, "", 0, 64); g.n[pt].link = id[f.to]; g.n[ret].link = B(9); g.n[par].link = pt; g.list(g.n[fn].link, { ret, par }); g.n[pf].link = fn; g.n[d].link = pf; }
                    else { int p; if (share && shared.count(f.to)) p = shared[f.to]; else { p = g.add(_decl_pointer, std::string("*") + nm[v[f.to].name], 0, 64); g.n[p].link = id[f.to]; shared[f.to] = p; }
                        if (f.kind == 3) { int a = g.add(_decl_array, "", 0, 2); g.n[a].link = p; p = a; } g.n[d].link = p; }
                    l.push_back(d); }
                if (!l.empty()) g.list(g.n[id[i]].link, l); }
            std::vector<int> t = id; for (size_t i = t.size(); i-- > 1; ) std::swap(t[i], t[r.below(i + 1)]); top.insert(top.end(), t.begin(), t.end()); }
        g.list(g.n[src].link, top); Built b = build(g, &r, (int)r.below(2), 0); in.own.emplace_back(new Db(b.db)); in.p.push_back(b.db); in.want.push_back({ g.n[0].name, b.db, b.id[0] });
    }
    Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, "r", in.p.data(), k) == 0, "status", "fails"); compare(m.p, in.want, "r", "recursive");
    { decl_db *one[] = { m.p }; Db a(crefl_db_new()); CHECK(crefl_link_merge(a.p, "again", one, 1) == 0, "again", "fails"); compare(a.p, in.want, "again", "recursive again"); }
    // one source at a time, in steps
    { std::vector<std::unique_ptr<Db>> own; decl_db *acc = in.p[0]; std::vector<Src> want { in.want[0] }; 
      for (size_t i = 1; i < k; i++) { decl_db *two[] = { acc, in.p[i] }; own.emplace_back(new Db(crefl_db_new())); CHECK(crefl_link_merge(own.back()->p, "step", two, 2) == 0, "step", "fails"); acc = own.back()->p; want.push_back(in.want[i]); compare(acc, want, "step", "recursive in steps"); } }
    std::vector<uint8_t> im = image(m.p); Db l(crefl_db_new()); CHECK(crefl_db_read_mem(l.p, im.data(), im.size()) == 0, "load", "rejected"); compare(l.p, in.want, "r", "recursive loaded");
    h::stat("recursive_merges"); h::stat("recursive_differences", diff); h::cover(hash_bytes(im.data(), im.size()));
}

// more declarations than a 16-bit number counts: in one source, or in the archive only
void f_big(Rng &r, uint64_t c) {
    size_t k = c % 3 == 2 ? 257 + r.below(60) : c % 2 ? 1 : 2 + r.below(3), each = 66000 / k + r.below(3000); Inputs in; bool shared = r.chance(1, 2);
    for (size_t i = 0; i < k; i++) {
        decl_db *db = crefl_db_new(); in.own.emplace_back(new Db(db)); in.p.push_back(db); crefl_db_defaults(db); u32 s = crefl_decl_idx(crefl_decl_new(db, _decl_source)), prev = 0, nm = crefl_name_new(db, h::fmt("s%zu.c", i).c_str()); db->decl[s]._name = nm; db->root_element = s;
        auto node = [&](u32 tag, const std::string &name, u32 link) { u32 d = crefl_decl_idx(crefl_decl_new(db, tag)), t = crefl_name_new(db, name.c_str()); db->decl[d]._name = t; db->decl[d]._link = link; return d; };
        for (size_t j = 0, made = 0; made < each; j++) { u32 d; std::string u = shared && j % 4 == 0 ? "h" + std::to_string(j) : "x" + std::to_string(i) + "_" + std::to_string(j);
            if (j % 3) { d = node(_decl_typedef, u, 1 + (u32)((u[0] * 7 + j) % 22)); made++; }
            else { u32 f = node(_decl_field, "f", 9), p = node(_decl_pointer, "", 9), g = node(_decl_field, "g", p); db->decl[p]._quantity = 64; db->decl[f]._next = g; d = node(_decl_struct, u, f); made += 4; }
            (prev ? db->decl[prev]._next : db->decl[s]._link) = d; prev = d; }
        in.want.push_back({ h::fmt("s%zu.c", i), db, s });
    }
    Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, "big", in.p.data(), k) == 0, "status", "merge fails"); compare(m.p, in.want, "big", "large");
    decl_db *one[] = { m.p }; Db a(crefl_db_new()); CHECK(crefl_link_merge(a.p, "again", one, 1) == 0, "again", "fails"); compare(a.p, in.want, "again", "large again");
    std::vector<uint8_t> im = image(m.p); Db l(crefl_db_new()); CHECK(crefl_db_read_mem(l.p, im.data(), im.size()) == 0, "load", "rejected"); compare(l.p, in.want, "big", "large loaded");
    h::stat("big_merges"); h::cover(hash_bytes(im.data(), im.size()));
}

}
FAMILIES({ "big", 3, 40, f_big }, { "merge", 900, 60000, f_merge }, { "conflict", 900, 60000, f_conflict }, { "recursive", 1500, 150000, f_recursive })
