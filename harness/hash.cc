// C06: declaration hashes under rebuilding, reordering, serialising, merging and mutation.
#include "graph.h"
using namespace gr;

namespace {

typedef std::string H;
struct Index { decl_index *ix; explicit Index(decl_db *db) : ix(crefl_index_new()) { crefl_index_scan(ix, db); } ~Index() { crefl_index_destroy(ix); }
    H at(decl_db *db, u32 id) { decl_entry_ref e = crefl_entry_ref(ix, crefl_lookup(db, id)); decl_entry *p = crefl_entry_ptr(e); return H((const char*)p->hash.sum, sizeof p->hash.sum); }
    bool valid(decl_db *db, u32 id) { return crefl_entry_is_valid(crefl_entry_ref(ix, crefl_lookup(db, id))); } };

void sum(const H &x) { uint64_t v; memcpy(&v, x.data(), 8); h::stat("hash_sum", v & 0xffffffff); }

// hashes of all graph nodes; empty for unreachable ones
std::vector<H> hashes(const Graph &g, const Built &b, const std::vector<char> &reach) {
    Snap before = snap(b.db); std::vector<H> v(g.n.size());
    { Index ix(b.db); 
      for (size_t i = 0; i < g.n.size(); i++) if (reach[i]) { CHECK(ix.valid(b.db, b.id[i]), "invalid", "node %zu not hashed: %s", i, describe(g).c_str()); v[i] = ix.at(b.db, b.id[i]); CHECK(v[i] != H(28, '\0'), "zero", "node %zu", i); h::evals(); } }
    CHECK(snap(b.db) == before, "modifies", "hashing changed the database");
    return v;
}

// content identity <-> hash, over everything this process has seen
std::unordered_map<std::string, H> by_content; std::unordered_map<H, std::string> by_hash;
void identity(const Graph &g, const std::vector<H> &v, const std::vector<char> &cyc) {
    Canon c(g);
    for (size_t i = 0; i < g.n.size(); i++) if (!v[i].empty() && !cyc[i]) {
        std::string id = c.id((int)i);
        auto f = by_content.find(id);
        if (f != by_content.end()) { CHECK(f->second == v[i], "identity:differs", "node %zu (%s '%s') hashes differently from an identical declaration: %s", i, crefl_tag_name(g.n[i].tag), g.n[i].name.c_str(), describe(g).c_str()); h::stat("identical_pairs"); }
        auto k = by_hash.find(v[i]);
        if (k != by_hash.end()) CHECK(k->second == id, "identity:collides", "node %zu (%s '%s') has the hash of a different declaration: %s", i, crefl_tag_name(g.n[i].tag), g.n[i].name.c_str(), describe(g).c_str());
        if (by_content.size() < 1500000) { by_content[id] = v[i]; by_hash[v[i]] = id; }
        h::evals(2);
    }
}

void f_orders(Rng &r, uint64_t) {
    Opts o = random_opts(r, 8); Graph g = generate(r, o); std::vector<char> reach = reachable(g, 0), cyc = cyclic(g);
    Built b0 = build(g); Db own(b0.db); std::vector<H> v0 = hashes(g, b0, reach);
    identity(g, v0, cyc); sum(v0[0]);
    { std::vector<H> again = hashes(g, b0, reach); CHECK(again == v0, "again", "second scan differs: %s", describe(g).c_str()); }
    for (int k = 0; k < 3; k++) {
        Built b = build(g, &r, k > 0, k); Db o2(b.db); std::vector<H> v = hashes(g, b, reach);
        for (size_t i = 0; i < v.size(); i++) CHECK(v[i] == v0[i], "order", "node %zu (%s '%s') hashes differently in another creation order: %s", i, crefl_tag_name(g.n[i].tag), g.n[i].name.c_str(), describe(g).c_str());
        if (k == 1) { // also with unrelated material before it
            decl_db *db = crefl_db_new(); Db o3(db); crefl_db_defaults(db); }
    }
    { std::vector<uint8_t> im = image(b0.db); Db d(crefl_db_new()); CHECK(crefl_db_read_mem(d.p, im.data(), im.size()) == 0, "load", "rejected");
      Built b; b.db = d.p; b.id = b0.id; std::vector<H> v = hashes(g, b, reach); CHECK(v == v0, "loaded", "hashes differ after loading: %s", describe(g).c_str()); }
    size_t nc = 0; for (size_t i = 0; i < g.n.size(); i++) if (reach[i]) { h::stat(cyc[i] ? "nodes_recursive" : "nodes_acyclic"); nc += cyc[i]; }
    h::cover(hash_bytes(v0[0].data(), 28)); h::sample(h::fmt("%zu nodes, %zu in or reaching cycles: ", g.n.size(), nc) + describe(g));
}

// one change to one reachable declaration
bool mutate(Rng &r, Graph &g, const std::vector<char> &reach, const std::vector<char> &cyc, int &at, std::string &what) {
    std::vector<int> cand; for (size_t i = 0; i < g.n.size(); i++) if (reach[i]) cand.push_back((int)i);
    int i = r.pick(cand); Node &n = g.n[(size_t)i]; at = i; bool anycyc = cyc[0];
    switch (r.below(10)) {
    case 0: { what = "name"; std::string old = n.name; size_t k = r.below(5);
        if (k == 0) n.name += "x"; else if (k == 1 && !n.name.empty()) n.name.pop_back(); else if (k == 2 && !n.name.empty()) n.name[r.below(n.name.size())] ^= 1 + (char)r.below(7); else if (k == 3) n.name = n.name.empty() ? "q" : ""; else n.name = gen_name(r, true) + n.name;
        if (n.name.find('\0') != std::string::npos || n.name == old) { n.name = old + "y"; } return true; }
    case 1: { what = "kind"; // within the same link shape
        static const u32 cont[] = { _decl_struct, _decl_union, _decl_enum, _decl_set, _decl_function }, leaf[] = { _decl_field, _decl_typedef, _decl_constant, _decl_param, _decl_qualifier, _decl_pointer, _decl_array, _decl_attribute, _decl_value };
        u32 old = n.tag; if (anycyc && collection(old)) { if (old == _decl_struct) n.tag = _decl_union; else n.tag = _decl_struct; return true; }
        if (anycyc && old == _decl_pointer) return false; 
        if (collection(old)) { while (n.tag == old) n.tag = cont[r.below(5)]; } else if (container(old) || old == _decl_intrinsic) return false; else { while (n.tag == old || (anycyc && n.tag == _decl_pointer)) n.tag = leaf[r.below(9)]; } return true; }
    case 2: what = "properties"; n.props ^= 1u << r.below(25); return true;
    case 3: what = "value"; { u64 old = n.qty; n.qty = r.chance(1, 2) ? n.qty ^ (1ull << r.below(64)) : n.qty + 1; if (n.qty == old) n.qty++; } return true;
    case 4: { what = "attribute added"; int a = g.add(_decl_attribute, "extra"); Node &m = g.n[(size_t)i]; if (r.chance(1, 2) || m.attr < 0) { g.n[(size_t)a].next = m.attr; m.attr = a; } else { int p = m.attr; while (g.n[(size_t)p].next >= 0) p = g.n[(size_t)p].next; g.n[(size_t)p].next = a; } return true; }
    case 5: what = "attribute removed"; { for (int k : cand) if (g.n[(size_t)k].attr >= 0) { at = k; g.n[(size_t)k].attr = g.n[(size_t)g.n[(size_t)k].attr].next; return true; } return false; }
    case 6: { what = "member order"; std::vector<int> c2; for (int k : cand) if (container(g.n[(size_t)k].tag) && g.n[(size_t)k].link >= 0 && g.n[(size_t)g.n[(size_t)k].link].next >= 0) c2.push_back(k);
        if (c2.empty()) return false; int k = at = r.pick(c2); std::vector<int> l; for (int m = g.n[(size_t)k].link; m >= 0; m = g.n[(size_t)m].next) l.push_back(m);
        size_t x = r.below(l.size()), y = r.below(l.size()); const Node &p = g.n[(size_t)l[x]], &q = g.n[(size_t)l[y]]; if (p.name == q.name && p.tag == q.tag && p.props == q.props && p.qty == q.qty) return false;
        std::swap(l[x], l[y]); for (int m : l) g.n[(size_t)m].next = -1; g.list(g.n[(size_t)k].link, l); return true; }
    case 7: { what = "member removed"; std::vector<int> c2; for (int k : cand) if (container(g.n[(size_t)k].tag) && g.n[(size_t)k].link >= 0) c2.push_back(k);
        if (c2.empty()) return false; int k = at = r.pick(c2); std::vector<int> l; for (int m = g.n[(size_t)k].link; m >= 0; m = g.n[(size_t)m].next) l.push_back(m);
        l.erase(l.begin() + (long)r.below(l.size())); for (int m : l) g.n[(size_t)m].next = -1; g.n[(size_t)k].link = -1; g.list(g.n[(size_t)k].link, l); return true; }
    case 8: { what = "pointer target"; // another collection, told apart by its kind or name
        std::vector<int> c2, to; for (int k : cand) { const Node &p = g.n[(size_t)k]; if (p.tag == _decl_pointer && p.link >= 0 && collection(g.n[(size_t)p.link].tag)) c2.push_back(k); if (collection(p.tag)) to.push_back(k); }
        if (c2.empty()) return false; int k = at = r.pick(c2), t = r.pick(to); const Node &p = g.n[(size_t)g.n[(size_t)k].link], &q = g.n[(size_t)t]; if (p.tag == q.tag && p.name == q.name) return false;
        g.n[(size_t)k].link = t; return true; }
    default: { what = "member type"; // another builtin
        std::vector<int> c2; for (int k : cand) if (!container(g.n[(size_t)k].tag) && is_b(g.n[(size_t)k].link)) c2.push_back(k);
        if (c2.empty()) return false; int k = at = r.pick(c2); int old = g.n[(size_t)k].link; while (g.n[(size_t)k].link == old) g.n[(size_t)k].link = B((int)r.range(1, 22)); return true; }
    }
}

void f_mutate(Rng &r, uint64_t) {
    Opts o = random_opts(r, 5); o.orphans = false; Graph g = generate(r, o);
    std::vector<char> reach0 = reachable(g, 0); std::vector<H> v0; { Built b = build(g); Db own(b.db); v0 = hashes(g, b, reach0); }
    for (int t = 0; t < 12; t++) {
        Graph m = g; int at; std::string what; std::vector<char> cyc = cyclic(g);
        if (!mutate(r, m, reach0, cyc, at, what)) { t++; continue; }
        bool acyclic = true; for (char c : cyc) if (c) acyclic = false;
        { std::vector<char> mc = cyclic(m); for (char c : mc) if (c) acyclic = false; }
        std::vector<char> reach = reachable(m, 0); Built b = build(m, &r, (int)r.below(2), 0); Db own(b.db); std::vector<H> v = hashes(m, b, reach);
        CHECK(v[(size_t)at] != v0[(size_t)at], "mutation:same", "%s of node %d changed, hash did not: %s", what.c_str(), at, describe(m).c_str());
        CHECK(v[0] != v0[0], "mutation:root", "%s of node %d changed, hash of the root did not: %s", what.c_str(), at, describe(m).c_str());
        if (acyclic) { identity(m, v, cyclic(m));
            for (size_t i = 0; i < g.n.size(); i++) if (!v0[i].empty() && !v[i].empty()) {
                std::vector<char> rr = reachable(g, (int)i), r2 = reachable(m, (int)i); bool touches = rr[(size_t)at] || r2[(size_t)at];
                CHECK((v[i] == v0[i]) == !touches, "mutation:spread", "%s of node %d: hash of node %zu %s", what.c_str(), at, i, touches ? "unchanged" : "changed"); } }
        h::stat("mutation " + what); h::evals(2); h::cover(hash_bytes(v[0].data(), 28));
    }
}

// hashes survive merging: every declaration of every input, through aliases
void f_merged(Rng &r, uint64_t c) {
    size_t k = 1 + r.below(4); std::vector<std::unique_ptr<Db>> in; std::vector<decl_db*> p; uint64_t shared = r.next(); std::string which; std::vector<std::vector<char>> rec;
    Opts o = random_opts(r, 6); o.archive = false; o.unique = true;
    for (size_t i = 0; i < k; i++) { bool same = r.chance(1, 3); Opts q = o; q.uniq = same ? "s" : "x" + std::to_string(i) + "_"; Rng s(same ? shared : r.next()); Graph g = generate(s, q); Built b = build(g, &r, (int)r.below(2), 0); in.emplace_back(new Db(b.db)); p.push_back(b.db);
        std::vector<char> cyc = cyclic(g), byid(b.db->decl_offset, 0); for (size_t j = 0; j < cyc.size(); j++) byid[b.id[j]] = cyc[j]; rec.push_back(byid); which += same ? 's' : 'u'; }
    Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, "arch", p.data(), k) == 0, "merge", "fails");
    Snap before = snap(m.p); Index mi(m.p); CHECK(snap(m.p) == before, "modifies", "hashing changed the merged database");
    u32 s = m.p->decl[m.p->root_element]._link;
    for (size_t i = 0; i < k; i++, s = m.p->decl[s]._next) {
        CHECK(s, "merge:sources", "source %zu missing", i); Bisim q(p[i], m.p); if (!q.eq(p[i]->root_element, s)) { h::stat("merge_differs"); continue; } // C05 reports it
        Index si(p[i]);
        for (auto &x : q.seen) if (!rec[i][x.first]) { CHECK(si.at(p[i], x.first) == mi.at(m.p, x.second), "merged", "source %zu node %u (%s '%s') has another hash after merging (%s)", i, x.first, crefl_tag_name(p[i]->decl[x.first]._tag), crefl_decl_name(crefl_lookup(p[i], x.first)), which.c_str()); h::evals(); h::stat("merged_nodes"); }
    }
    for (u32 i = m.p->root_element; i < m.p->decl_offset; i++) if (m.p->decl[i]._tag == _decl_alias) { CHECK(mi.at(m.p, i) == mi.at(m.p, m.p->decl[i]._link), "alias", "alias %u", i); h::stat("aliases"); h::evals(); }
    h::cover(hash_bytes(m.p->decl, m.p->decl_offset * sizeof(decl_node)));
}

// hand-picked recursive shapes; deep chains
void f_recursive(Rng &r, uint64_t c) {
    Graph g; int src = g.add(_decl_source, "r.c"); std::vector<int> l; size_t n = c % 3 == 0 ? 1 + r.below(5) : c % 3 == 1 ? 2 + r.below(60) : 200 + r.below(600);
    std::vector<int> st, pt; bool anon = r.chance(1, 4); bool through_typedef = r.chance(1, 3), list_all = r.chance(1, 2);
    for (size_t i = 0; i < n; i++) { int s = g.add(r.chance(1, 2) ? _decl_struct : _decl_union, anon ? "" : "s" + std::to_string(i)); st.push_back(s); if (i == 0 || list_all) l.push_back(s); }
    for (size_t i = 0; i < n; i++) { std::vector<int> f; size_t k = 1 + r.below(3);
        for (size_t j = 0; j < k; j++) { int x = g.add(_decl_field, "f" + std::to_string(j)); int p = g.add(_decl_pointer, "", 0, 64); int to = st[j == 0 ? (i + 1) % n : r.below(n)];
            if (through_typedef) { int t = g.add(_decl_typedef, "t"); g.n[(size_t)t].link = to; to = t; } if (r.chance(1, 6)) { int q = g.add(_decl_qualifier, "const_", _decl_const); g.n[(size_t)q].link = to; to = q; }
            g.n[(size_t)p].link = to; g.n[(size_t)x].link = p; f.push_back(x); }
        g.list(g.n[(size_t)st[i]].link, f); }
    g.list(g.n[(size_t)src].link, l);
    std::vector<char> reach = reachable(g, 0); Built b0 = build(g); Db own(b0.db); std::vector<H> v0 = hashes(g, b0, reach);
    for (int k = 1; k < 3; k++) { Built b = build(g, &r, 1, k); Db o2(b.db); CHECK(hashes(g, b, reach) == v0, "order", "recursive graph of %zu types", n); }
    Graph m = g; size_t at = (size_t)st[r.below(n)]; if (r.chance(1, 2)) m.n[at].name += "z"; else m.n[at].props ^= 1 << r.below(20);
    if (reach[at]) { Built b = build(m); Db o2(b.db); std::vector<H> v = hashes(m, b, reach); CHECK(v[at] != v0[at] && v[0] != v0[0], "mutation:recursive", "type %zu of %zu", at, n); }
    for (int t = 0; t < 4 && n > 1; t++) { // a pointer inside the recursion is turned to another type of the recursion
        Graph q = g; std::vector<size_t> ps; for (size_t i = 0; i < q.n.size(); i++) if (reach[i] && q.n[i].link >= 0 && (q.n[i].tag == _decl_pointer || q.n[i].tag == _decl_typedef || q.n[i].tag == _decl_qualifier) && collection(q.n[(size_t)q.n[i].link].tag)) ps.push_back(i);
        size_t p = r.pick(ps); int old = q.n[p].link, to = r.pick(st); if (q.n[(size_t)old].name == q.n[(size_t)to].name && q.n[(size_t)old].tag == q.n[(size_t)to].tag) continue;
        q.n[p].link = to; Built b = build(q); Db o2(b.db); std::vector<H> v = hashes(q, b, reachable(q, 0)); h::evals(); h::stat("recursive_retargets");
        CHECK(v[p] != v0[p] && v[0] != v0[0], "mutation:retarget", "node %zu (%s) now refers to %s '%s' instead of %s '%s', the hash is the same", p, crefl_tag_name(q.n[p].tag), crefl_tag_name(q.n[(size_t)to].tag), q.n[(size_t)to].name.c_str(), crefl_tag_name(q.n[(size_t)old].tag), q.n[(size_t)old].name.c_str()); }
    sum(v0[0]); h::stat("recursive_types", n); h::evals(); h::cover(hash_bytes(v0[0].data(), 28));
}

// more declarations than a 16-bit number counts: equal contents hash equally wherever they stand
void f_big(Rng &r, uint64_t c) {
    Graph g; int src = g.add(_decl_source, "big.c"); std::vector<int> l; size_t n = 66000 + r.below(3000), kinds = 50 + r.below(4000);
    for (size_t i = 0; i < n; i++) { size_t k = i % kinds; int d = g.add(k % 5 ? _decl_typedef : _decl_constant, "t" + std::to_string(k / 2), 0, k % 5 ? 0 : k); if (k % 5) g.n[(size_t)d].link = B(1 + (int)(k % 22)); l.push_back(d); }
    g.list(g.n[(size_t)src].link, l); std::vector<char> reach(g.n.size(), 1);
    Built b0 = build(g); Db own(b0.db); std::vector<H> v0 = hashes(g, b0, reach); std::map<H, size_t> seen;
    for (size_t i = 1; i < v0.size(); i++) { CHECK(v0[i] == v0[1 + (i - 1) % kinds], "big:differs", "declaration %zu of %zu", i, n); auto f = seen.insert({ v0[i], (i - 1) % kinds }); CHECK(f.first->second == (i - 1) % kinds, "big:collides", "declarations %zu and %zu of %zu", i, f.first->second, n); }
    { Built b = build(g, &r, 1, 1); Db o2(b.db); CHECK(hashes(g, b, reach) == v0, "order", "large graph of %zu declarations", n); }
    { Graph m = g; size_t at = 1 + (c % 2 ? 65536 + r.below(n - 65536) : r.below(n)); m.n[at].name += "x"; Built b = build(m); Db o2(b.db); std::vector<H> v = hashes(m, b, reach);
      for (size_t i = 0; i < v.size(); i++) CHECK((v[i] == v0[i]) == (i && i != at), "mutation:big", "name of declaration %zu of %zu changed: hash of %zu", at, n, i); }
    h::evals(n * 3); h::stat("big_graphs"); h::cover(hash_bytes(v0[0].data(), 28));
}

// names as long as the format allows to store: every character of every one of them counts
void f_names(Rng &r, uint64_t c) {
    Opts o = random_opts(r, 3); o.orphans = false; Graph g = generate(r, o); std::vector<char> reach = reachable(g, 0); std::vector<int> cand; for (size_t i = 0; i < g.n.size(); i++) if (reach[i] && g.n[i].tag != _decl_intrinsic) cand.push_back((int)i);
    if (cand.empty()) return;
    static const size_t len[] = { 60, 130, 255, 256, 257, 300, 511, 600, 1023, 1024, 1100, 2050, 4095, 4097, 5000, 8200, 20000, 65535, 65536, 66000 };
    size_t n = len[c % 20] + r.below(3); int at = r.pick(cand); std::string s(n, 'a'); for (auto &x : s) x = 'a' + (char)r.below(26);
    g.n[(size_t)at].name = s; std::vector<H> v0; { Built b = build(g); Db own(b.db); v0 = hashes(g, b, reach); }
    for (int t = 0; t < 5; t++) {
        Graph m = g; std::string &x = m.n[(size_t)at].name; size_t p = t == 0 ? n - 1 : t == 1 ? 0 : r.below(n);
        if (t < 3) x[p] = x[p] == 'z' ? 'y' : (char)(x[p] + 1); else if (t == 3) x.pop_back(); else x += "q";
        Built b = build(m); Db own(b.db); std::vector<H> v = hashes(m, b, reach); h::evals();
        CHECK(v[(size_t)at] != v0[(size_t)at] && v[0] != v0[0], "mutation:long-name", "a name of %zu characters changed %s, the hash is the same", n, t < 3 ? fmt("at %zu", p).c_str() : t == 3 ? "by losing its last" : "by gaining one"); }
    h::stat("long_names"); h::cover(mix64(n) ^ hash_bytes(v0[0].data(), 28));
}

}
FAMILIES({ "big", 2, 20, f_big }, { "orders", 1500, 150000, f_orders }, { "mutate", 900, 80000, f_mutate }, { "names", 200, 6000, f_names }, { "merged", 500, 40000, f_merged }, { "recursive", 150, 6000, f_recursive })
