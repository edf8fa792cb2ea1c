// Abstract declaration graphs: generator, builder into a real database, extraction,
// content identity. Independent of the library: only the public API is used to build and read.
#pragma once
#include "common.h"
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/link.h>

namespace gr {

// references: -1 none, >= 0 node of the graph, <= -2 builtin number -1-ref (1..22)
static inline int B(int idx) { return -1 - idx; }
static inline bool is_b(int r) { return r <= -2; }

struct Node { u32 tag = 0, props = 0; std::string name; u64 qty = 0; int link = -1, next = -1, attr = -1; };

struct Graph {
    std::vector<Node> n;               // n[0] is the root
    int add(u32 tag, const std::string &name = "", u32 props = 0, u64 qty = 0) {
        Node x; x.tag = tag; x.name = name; x.props = props; x.qty = qty; n.push_back(x); return (int)n.size() - 1;
    }
    void list(int &head, const std::vector<int> &v) { head = v.empty() ? -1 : v[0]; for (size_t i = 0; i + 1 < v.size(); i++) n[v[i]].next = v[i + 1]; }
};

struct Builtin { const char *name; u32 props; u64 width; };
// the builtin types and their properties, written out here; builtins[i] is declaration i + 1
static const Builtin builtins[] = {
    { "void", _decl_void | _decl_pad_bit, 0 },
    { "bool", _decl_sint | _decl_pad_byte, 1 },
    { "bit", _decl_uint | _decl_pad_pow2, 1 },
    { "sign", _decl_sint | _decl_pad_pow2, 1 },
    { "ubyte", _decl_uint | _decl_pad_pow2, 8 },
    { "byte", _decl_sint | _decl_pad_pow2, 8 },
    { "ushort", _decl_uint | _decl_pad_pow2, 16 },
    { "short", _decl_sint | _decl_pad_pow2, 16 },
    { "uint", _decl_uint | _decl_pad_pow2, 32 },
    { "int", _decl_sint | _decl_pad_pow2, 32 },
    { "ulong", _decl_uint | _decl_pad_pow2, 64 },
    { "long", _decl_sint | _decl_pad_pow2, 64 },
    { "ucent", _decl_uint | _decl_pad_pow2, 128 },
    { "cent", _decl_sint | _decl_pad_pow2, 128 },
    { "half", _decl_float | _decl_pad_pow2, 16 },
    { "float", _decl_float | _decl_pad_pow2, 32 },
    { "double", _decl_float | _decl_pad_pow2, 64 },
    { "quad", _decl_float | _decl_pad_pow2, 128 },
    { "chalf", _decl_cfloat | _decl_pad_pow2, 32 },
    { "cfloat", _decl_cfloat | _decl_pad_pow2, 64 },
    { "cdouble", _decl_cfloat | _decl_pad_pow2, 128 },
    { "cquad", _decl_cfloat | _decl_pad_pow2, 256 },
};
static const size_t num_builtins = sizeof(builtins) / sizeof(builtins[0]);   // 22

static inline bool container(u32 t) {
    return t == _decl_archive || t == _decl_source || t == _decl_set || t == _decl_enum ||
           t == _decl_struct || t == _decl_union || t == _decl_function;
}
static inline bool collection(u32 t) { return container(t) && t != _decl_archive && t != _decl_source; }

// ---- names ----------------------------------------------------------------------
static inline std::string odd_name(Rng &r) {
    switch (r.below(10)) {
    case 0: { std::string s(1 + (r.chance(1, 6) ? r.below(1500) : r.below(200)), 'a' + (char)r.below(26)); if (r.chance(1, 2)) s.back() = 'z'; return s; }
    case 1: return "\xc3\xa9t\xc3\xa9_\xe2\x82\xac";
    case 2: return "a::b::c";
    case 3: return ";N=x;P=(T=struct)";
    case 4: return "%s%n%d";
    case 5: return " leading and trailing ";
    case 6: { std::string s; for (size_t i = 0, k = 1 + r.below(12); i < k; i++) s += (char)(1 + r.below(255)); return s; }
    case 7: return "*[3]const_int";
    case 8: return std::string(13 + r.below(20), 'x');          // around the column widths
    default: return "_" + std::to_string(r.below(5));
    }
}
static inline std::string gen_name(Rng &r, bool odd) {
    static const char *pool[] = { "a", "b", "c", "x", "y", "node", "next", "item", "data", "len", "foo", "bar", "value", "ptr", "flags", "id" };
    if (odd && r.chance(1, 6)) return odd_name(r);
    std::string s = pool[r.below(16)];
    if (r.chance(1, 2)) s += std::to_string(r.below(20));
    return s;
}

struct Opts {
    size_t decls = 8;       // top level declarations
    bool recursion = true;  // cycles through pointers
    bool odd = true;        // odd names
    bool attrs = true;
    bool archive = false;   // root is an archive of several sources
    bool orphans = false;   // unreachable nodes
    bool unique = false;    // top level collections get globally distinct names
    unsigned big = 0;       // extra members per collection
    std::string uniq;       // distinguishes the unique names of different sources
};

struct Gen {
    Graph g; Rng r; Opts o;
    std::vector<int> types;     // complete types usable by value
    std::vector<int> colls;     // all collections, also those under construction
    unsigned serial = 0;
    Gen(uint64_t seed, const Opts &o) : r(seed), o(o) {}
    std::string name() { return gen_name(r, o.odd); }
    int builtin(bool nonvoid = true) { return B((int)r.range(nonvoid ? 2 : 1, 22)); }
    int intbuiltin() { return B((int)r.range(6, 13)); }
    void attrs(int d) {
        if (!o.attrs || !r.chance(1, 6)) return;
        static const char *an[] = { "always_inline", "deprecated", "pure", "packed", "used", "annotate", "alias", "aligned" };
        std::vector<int> v;
        for (size_t i = 0, k = 1 + r.below(3); i < k; i++) {
            size_t w = r.below(8);
            int a = g.add(_decl_attribute, an[w]);
            if (w >= 5 && r.chance(9, 10)) {
                int val = g.add(_decl_value, w == 7 ? "" : r.chance(1, 2) ? name() : "text of " + name(), 0, w == 7 ? 1ull << r.below(12) : 0);
                g.n[a].link = val;
            }
            v.push_back(a);
        }
        int h; g.list(h, v); g.n[d].attr = h;
    }
    std::string tname(int t) { return is_b(t) || t < 0 ? "b" : g.n[t].name; }
    int qualify(int t) {
        u32 p = (u32)(1 + r.below(7)); std::string s;
        if (p & 1) s += "const_"; if (p & 2) s += "volatile_"; if (p & 4) s += "restrict_";
        int q = g.add(_decl_qualifier, s + tname(t), (p & 1 ? _decl_const : 0) | (p & 2 ? _decl_volatile : 0) | (p & 4 ? _decl_restrict : 0));
        g.n[q].link = t; return q;
    }
    int pointer(int depth) {
        int t;
        size_t k = r.below(10);
        if (k < 2) t = builtin(false);
        else if (k < 6 && !colls.empty() && o.recursion) t = r.pick(colls);
        else if (k < 8 && !types.empty()) t = r.pick(types);
        else t = type(depth + 1);
        if (r.chance(1, 6) && !(t >= 0 && g.n[t].tag == _decl_function)) t = qualify(t);
        int p = g.add(_decl_pointer, r.chance(1, 2) ? "*" + tname(t) : "", 0, 64);
        g.n[p].link = t; return p;
    }
    int type(int depth) {
        size_t k = depth > 4 ? r.below(60) : r.below(100);
        if (k < 35 || types.empty()) return builtin();
        if (k < 60) return r.pick(types);
        int t;
        if (k < 75) t = pointer(depth);
        else if (k < 85) {
            int e = type(depth + 1);
            t = g.add(_decl_array, r.chance(1, 2) ? "[]" + tname(e) : "", r.chance(1, 8) ? _decl_vla : 0, r.chance(1, 10) ? r.u64() >> 40 : r.below(9));
            g.n[t].link = e;
        }
        else if (k < 93) t = qualify(type(depth + 1));
        else return coll((u32)(r.chance(1, 3) ? _decl_enum : r.chance(1, 2) ? _decl_struct : _decl_union), depth + 1, r.chance(2, 3));
        types.push_back(t);
        return t;
    }
    int member(u32 tag, int depth) {
        if (tag == _decl_enum || tag == _decl_set) {
            int c = g.add(_decl_constant, name(), 0, r.chance(1, 3) ? r.u64() : r.below(10));
            if (r.chance(3, 4)) g.n[c].link = intbuiltin();
            attrs(c); return c;
        }
        if (tag == _decl_function) {
            int p = g.add(_decl_param, r.chance(4, 5) ? name() : "", r.chance(1, 4) ? _decl_out : _decl_in);
            int t = type(depth + 1); g.n[p].link = t; attrs(p); return p;
        }
        bool bits = r.chance(1, 7);
        int f = g.add(_decl_field, r.chance(9, 10) ? name() : "");
        if (bits) { g.n[f].props |= _decl_bitfield; g.n[f].qty = r.below(17); g.n[f].link = intbuiltin(); }
        else { int t = type(depth + 1); g.n[f].link = t; }
        attrs(f); return f;
    }
    int coll(u32 tag, int depth, bool anon) {
        std::string nm = anon ? "" : name();
        if (o.unique && !anon) nm += "_u" + o.uniq + std::to_string(serial++);
        int d = g.add(tag, nm);
        if (tag == _decl_enum || tag == _decl_set) g.n[d].qty = 8ull << r.below(4);
        if (tag == _decl_function) {
            g.n[d].props = (r.chance(1, 2) ? _decl_extern_c | _decl_global : _decl_static) | (r.chance(1, 4) ? _decl_inline : 0) | (r.chance(1, 9) ? _decl_noreturn : 0);
            if (r.chance(1, 5)) g.n[d].qty = r.u64();
        }
        colls.push_back(d);
        std::vector<int> v; size_t k = r.chance(1, 10) ? 0 : 1 + r.below(depth ? 4 : 7);
        if (o.big && !depth && r.chance(1, 3)) k += r.below(o.big);
        for (size_t i = 0; i < k; i++) {
            if (collection(tag) && (tag == _decl_struct || tag == _decl_union) && depth < 3 && r.chance(1, 12)) {
                // a definition nested in the member list, used by the next field
                int c = coll((u32)(r.chance(1, 2) ? _decl_struct : _decl_enum), depth + 1, r.chance(1, 2));
                v.push_back(c); int f = g.add(_decl_field, name()); g.n[f].link = c; v.push_back(f);
            } else v.push_back(member(tag, depth));
        }
        int h; g.list(h, v); g.n[d].link = h;
        attrs(d);
        if (tag != _decl_function) types.push_back(d);
        return d;
    }
    int top() {
        size_t k = r.below(100);
        if (k < 30) return coll(_decl_struct, 0, r.chance(1, 8));
        if (k < 42) return coll(_decl_union, 0, r.chance(1, 8));
        if (k < 54) return coll(_decl_enum, 0, r.chance(1, 5));
        if (k < 58) return coll(_decl_set, 0, false);
        if (k < 75) return coll(_decl_function, 0, false);
        if (k < 88) { int t = g.add(_decl_typedef, name()); int l = type(1); g.n[t].link = l; attrs(t); types.push_back(t); return t; }
        if (k < 96) { int f = g.add(_decl_field, name(), _decl_static | (r.chance(1, 2) ? _decl_extern_c : 0)); int l = type(1); g.n[f].link = l; attrs(f); return f; }
        if (k < 98) { int a = g.add(_decl_array, name(), 0, r.below(5)); int l = type(1); g.n[a].link = l; return a; }
        int i = g.add(_decl_intrinsic, name(), (u32)r.below(512), r.below(200)); types.push_back(i); return i;
    }
    int source(const std::string &nm) {
        int s = g.add(_decl_source, nm); std::vector<int> v;
        for (size_t i = 0; i < o.decls; i++) v.push_back(top());
        int h; g.list(h, v); g.n[s].link = h; return s;
    }
    Graph make() {
        if (o.archive) {
            int a = g.add(_decl_archive, "lib" + name()); std::vector<int> v;
            size_t k = 1 + r.below(4);
            for (size_t i = 0; i < k; i++) { v.push_back(source("src" + std::to_string(i) + ".c")); types.clear(); if (r.chance(1, 2)) colls.clear(); }
            int h; g.list(h, v); g.n[a].link = h;
        } else source(r.chance(3, 4) ? name() + ".c" : name());
        if (o.orphans) for (size_t i = 0, k = r.below(8); i < k; i++) top();
        return std::move(g);
    }
};

static inline Graph generate(Rng &r, const Opts &o) { Gen x(r.next(), o); return x.make(); }

// now and then a graph without any names
static inline Graph sometimes_nameless(Rng &r, Graph g) { if (r.chance(1, 16)) { for (auto &x : g.n) x.name.clear(); h::stat("nameless_graphs"); } return g; }

// ---- building into a real database ---------------------------------------------
struct Built { decl_db *db = nullptr; std::vector<u32> id; };

static inline u32 ref_id(const Built &b, int r) { return r == -1 ? 0 : is_b(r) ? (u32)(-1 - r) : b.id[(size_t)r]; }

// order: 0 as generated, 1 random; names: 0 as used, 1 shared, 2 all names before all nodes
static inline Built build(const Graph &g, Rng *r = nullptr, int order = 0, int names = 0)
{
    Built b; b.db = crefl_db_new(); crefl_db_defaults(b.db);
    size_t n = g.n.size(); b.id.assign(n, 0);
    std::vector<size_t> ord(n); for (size_t i = 0; i < n; i++) ord[i] = i;
    if (order == 1 && r) for (size_t i = n; i-- > 2; ) std::swap(ord[i], ord[1 + r->below(i)]);
    std::map<std::string, u32> seen;
    auto nm = [&](const std::string &s) -> u32 {
        if (names == 1) { auto i = seen.find(s); if (i != seen.end()) return i->second; }
        u32 k = crefl_name_new(b.db, s.c_str()); seen[s] = k; return k;
    };
    std::vector<u32> pre(n, 0);
    if (names == 2) for (size_t i : ord) pre[i] = nm(g.n[i].name);
    for (size_t i : ord) {
        decl_ref d = crefl_decl_new(b.db, g.n[i].tag); b.id[i] = crefl_decl_idx(d);
        u32 k = names == 2 ? pre[i] : nm(g.n[i].name);
        crefl_decl_ptr(d)->_name = k;
        crefl_decl_ptr(d)->_props = g.n[i].props;
        crefl_decl_ptr(d)->_quantity = g.n[i].qty;
    }
    for (size_t i : ord) {
        decl_node *p = crefl_decl_ptr(crefl_lookup(b.db, b.id[i]));
        p->_link = ref_id(b, g.n[i].link); p->_next = ref_id(b, g.n[i].next); p->_attr = ref_id(b, g.n[i].attr);
    }
    b.db->root_element = b.id[0];
    return b;
}

// ---- snapshots -----------------------------------------------------------------------
struct Snap { std::vector<decl_node> d; std::vector<char> n; size_t db_, nb; u32 root;
    bool operator==(const Snap &o) const { return d.size() == o.d.size() && n == o.n && db_ == o.db_ && nb == o.nb && root == o.root &&
        (d.empty() || !memcmp(d.data(), o.d.data(), d.size() * sizeof(decl_node))); } };
static inline Snap snap(const decl_db *db) {
    return Snap { std::vector<decl_node>(db->decl, db->decl + db->decl_offset), std::vector<char>(db->name, db->name + db->name_offset),
        db->decl_builtin, db->name_builtin, db->root_element };
}
static inline std::vector<uint8_t> image(decl_db *db) {
    std::vector<uint8_t> v(crefl_db_size(db)); 
    if (crefl_db_write_mem(db, v.data(), v.size()) != 0) v.clear();
    return v;
}

// ---- structural equality across databases, through aliases ------------------------
struct Bisim {
    decl_db *a, *b; std::set<std::pair<u32, u32>> seen; std::string why; size_t pairs = 0;
    Bisim(decl_db *a, decl_db *b) : a(a), b(b) {}
    bool no(u32 x, u32 y, const char *w) { if (why.empty()) why = h::fmt("%s at %u/%u (%s '%s' / %s '%s')", w, x, y,
        crefl_tag_name(crefl_decl_tag(crefl_lookup(a, x))), crefl_decl_name(crefl_lookup(a, x)),
        crefl_tag_name(crefl_decl_tag(crefl_lookup(b, y))), crefl_decl_name(crefl_lookup(b, y))); return false; }
    static u32 res(decl_db *db, u32 x) { for (int i = 0; i < 1000 && x && db->decl[x]._tag == _decl_alias; i++) x = db->decl[x]._link; return x; }
    // members reported by the list queries (fields, enumerators, parameters) must stay members
    static size_t plain(decl_db *db, u32 x) { size_t n = 0; for (; x; x = db->decl[x]._next) { u32 t = db->decl[x]._tag; n += t == _decl_field || t == _decl_constant || t == _decl_param || t == _decl_source || t == _decl_attribute; } return n; }
    bool lists(u32 x, u32 y, u32 px, u32 py) {
        if (plain(a, x) != plain(b, y)) return no(px, py, "queryable members");
        while (x && y) { if (!eq(x, y)) return false; x = a->decl[x]._next; y = b->decl[y]._next; }
        return x || y ? no(px, py, "list length") : true;
    }
    bool eq(u32 x, u32 y) {
        x = res(a, x); y = res(b, y);
        if (!x || !y) return x == y ? true : no(x, y, "missing node");
        bool bx = x < a->decl_builtin, by = y < b->decl_builtin;
        if (bx || by) return bx && by && x == y ? true : no(x, y, "builtin");
        if (!seen.insert({ x, y }).second) return true;
        pairs++;
        const decl_node p = a->decl[x], q = b->decl[y];
        if (p._tag != q._tag) return no(x, y, "tag");
        if (p._props != q._props) return no(x, y, "props");
        if (p._quantity != q._quantity) return no(x, y, "quantity");
        if (strcmp(a->name + p._name, b->name + q._name)) return no(x, y, "name");
        if (!lists(p._attr, q._attr, x, y)) return false;
        if (container(p._tag)) return lists(p._link, q._link, x, y);
        return eq(p._link, q._link);
    }
};

// ---- content identity of acyclic parts ------------------------------------------
// children of a node's content: attribute list, then link (list for containers)
static inline std::vector<int> contents(const Graph &g, int i) {
    std::vector<int> v; const Node &n = g.n[(size_t)i];
    for (int a = n.attr; a >= 0; a = g.n[(size_t)a].next) v.push_back(a);
    if (container(n.tag)) for (int a = n.link; a >= 0; a = g.n[(size_t)a].next) v.push_back(a);
    else if (n.link >= 0) v.push_back(n.link);
    return v;
}
// nodes that are on a cycle or reach one
static inline std::vector<char> cyclic(const Graph &g) {
    size_t n = g.n.size(); std::vector<char> st(n, 0), cyc(n, 0);
    // iterate: a node is acyclic when all contents are acyclic
    std::vector<char> ok(n, 0); std::vector<std::vector<int>> ch(n), rev(n); std::vector<size_t> left(n);
    std::vector<int> q;
    for (size_t i = 0; i < n; i++) { ch[i] = contents(g, (int)i); left[i] = ch[i].size(); for (int c : ch[i]) rev[(size_t)c].push_back((int)i); if (!left[i]) q.push_back((int)i); }
    while (!q.empty()) { int i = q.back(); q.pop_back(); ok[(size_t)i] = 1; for (int p : rev[(size_t)i]) if (--left[(size_t)p] == 0) q.push_back(p); }
    for (size_t i = 0; i < n; i++) cyc[i] = !ok[i];
    return cyc;
}
static inline std::vector<char> reachable(const Graph &g, int from) {
    std::vector<char> s(g.n.size(), 0); std::vector<int> q { from }; s[(size_t)from] = 1;
    while (!q.empty()) { int i = q.back(); q.pop_back(); for (int c : contents(g, i)) if (!s[(size_t)c]) { s[(size_t)c] = 1; q.push_back(c); } }
    return s;
}
// canonical description of an acyclic node; equal strings <=> structurally identical
struct Canon {
    const Graph &g; std::map<int, std::string> memo;
    Canon(const Graph &g) : g(g) {}
    std::string id(int i) {
        if (is_b(i)) return "b" + std::to_string(-1 - i);
        if (i < 0) return "0";
        auto m = memo.find(i); if (m != memo.end()) return m->second;
        const Node &n = g.n[(size_t)i]; std::string s;
        s = h::fmt("%u,%u,%llu,%zu:", n.tag, n.props, n.qty, n.name.size()) + n.name;
        s += "[A"; for (int a = n.attr; a >= 0; a = g.n[(size_t)a].next) s += id(a) + ";";
        s += "][L"; if (container(n.tag)) { for (int a = n.link; a >= 0; a = g.n[(size_t)a].next) s += id(a) + ";"; } else s += id(n.link);
        s += "]";
        // compress
        uint64_t h1 = hash_bytes(s.data(), s.size()), h2 = hash_bytes(s.data(), s.size(), 0x1234567890abcdefull);
        return memo[i] = h::fmt("%016llx%016llx", (unsigned long long)h1, (unsigned long long)h2);
    }
};

static inline std::string describe(const Graph &g, size_t max = 12) {
    std::string s;
    for (size_t i = 0; i < g.n.size() && i < max; i++) { const Node &n = g.n[i];
        s += h::fmt("%zu:%s '%s' p=%x q=%llu l=%d n=%d a=%d; ", i, crefl_tag_name(n.tag), n.name.substr(0, 20).c_str(), n.props, n.qty, n.link, n.next, n.attr); }
    if (g.n.size() > max) s += h::fmt("... %zu nodes", g.n.size());
    return s;
}

struct Db { // owns a database
    decl_db *p; explicit Db(decl_db *p) : p(p) {} ~Db() { if (p) crefl_db_destroy(p); }
    Db(const Db&) = delete; Db& operator=(const Db&) = delete;
};

// a random mix of generator options
static inline Opts random_opts(Rng &r, size_t maxdecls) {
    Opts o; o.decls = r.below(maxdecls + 1); o.recursion = r.chance(2, 3); o.odd = r.chance(1, 2); o.attrs = r.chance(3, 4);
    o.archive = r.chance(1, 4); o.orphans = r.chance(1, 4); o.big = r.chance(1, 6) ? (unsigned)r.below(80) : 0;
    return o;
}

} // namespace gr
