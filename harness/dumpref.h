// An independent formatter of the metadata dumps and statistics.
#pragma once
#include "graph.h"
#include <crefl/dump.h>
namespace dr {
using namespace gr;

struct Ref {
    decl_db *db; std::vector<std::string> hash, fqn;
    std::vector<char> begun, done;
    explicit Ref(decl_db *db) : db(db), hash(db->decl_offset, std::string(56, '0')), fqn(db->decl_offset), begun(db->decl_offset, 0), done(db->decl_offset, 0) {
        decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db);
        for (u32 i = 0; i < db->decl_offset; i++) hash[i] = h::hex(crefl_entry_ptr(crefl_entry_ref(ix, crefl_lookup(db, i)))->hash.sum, 28);
        crefl_index_destroy(ix);
        walk(db->root_element, 0, "");
    }
    // a qualified name is the path of names by which a declaration is first reached
    void walk(u32 x, u32 parent, std::string prefix) {
        const decl_node &n = db->decl[x];
        if (n._tag == _decl_alias && !begun[x]) { begun[x] = 1; walk(n._link, parent, prefix); done[x] = 1; return; }
        std::string nm = db->name + n._name;
        u32 pt = db->decl[parent]._tag;
        if (pt == _decl_source || pt == _decl_archive) prefix = nm;
        else if (n._tag == _decl_array || n._tag == _decl_pointer || nm.empty()) ;
        else prefix += (prefix.empty() ? "" : "::") + nm;
        if (done[x]) return;
        begun[x] = 1;
        for (u32 a = n._attr; a; a = db->decl[a]._next) walk(a, x, prefix);
        if (n._link) { if (container(n._tag)) for (u32 a = n._link; a; a = db->decl[a]._next) walk(a, x, prefix);
            else if (!begun[n._link] || done[n._link]) walk(n._link, x, prefix); }
        fqn[x] = prefix; done[x] = 1;
    }
    static std::string cell(const std::string &s, size_t w, char pad = ' ') { return s.size() < w ? s + std::string(w - s.size(), pad) : s.substr(0, w - 1) + "\xe2\x80\xa6"; }
    std::string props(u32 x) {
        static const struct { u32 p; const char *n; } names[] = { { 1 << 10, "const" }, { 1 << 11, "volatile" }, { 1 << 12, "restrict" }, { 1 << 13, "static" }, { 1 << 14, "extern_c" }, { 1 << 15, "inline" }, { 1 << 16, "noreturn" },
            { 1 << 17, "local" }, { 1 << 18, "global" }, { 1 << 19, "weak" }, { 1 << 20, "default" }, { 1 << 21, "hidden" }, { 1 << 22, "in" }, { 1 << 23, "out" }, { 1 << 24, "vla" } };
        const decl_node &n = db->decl[x]; std::string s; for (auto &q : names) if (n._props & q.p) s += (s.empty() ? "" : ",") + std::string(q.n);
        auto add = [&](const char *k, const std::string &v) { s += (s.empty() ? "" : ",") + std::string(k) + "=" + v; };
        std::string v = std::to_string(n._quantity);
        switch (n._tag) { case _decl_set: case _decl_enum: case _decl_pointer: case _decl_intrinsic: add("width", v); break; case _decl_array: add("size", v); break;
            case _decl_constant: case _decl_value: add("value", v); break; case _decl_function: add("addr", h::fmt("0x%llx", n._quantity)); break;
            case _decl_field: if (n._props & _decl_bitfield) add("width", v); break; case _decl_none: s = ""; break; default: if (n._tag > _decl_alias) s = ""; }
        return s;
    }
    struct Col { const char *name; size_t w; };
    static std::vector<Col> cols(int f) { bool ext = f >= 4; std::vector<Col> c { { "id", 5 }, { "attr", 5 }, { "next", 5 }, { "link", 5 }, { "type", 10 }, { "name", ext ? 28u : 15u }, { "props", ext ? 25u : 15u }, { "detail", ext ? 30u : 20u } };
        if (f % 4 >= 2) c.push_back({ "hash", 57 }); if (f % 4 % 2) c.push_back({ "fqn", ext ? 30u : 23u }); return c; }
    std::string row(u32 x, int f) {
        const decl_node &n = db->decl[x]; std::string s; u32 q = n._tag == _decl_alias ? n._link : x; const decl_node &l = db->decl[n._link]; std::string ln = db->name + l._name;
        for (Col c : cols(f)) { std::string k = c.name, v;
            if (k == "id") v = std::to_string(x); else if (k == "attr") v = std::to_string(n._attr); else if (k == "next") v = std::to_string(n._next); else if (k == "link") v = std::to_string(n._link);
            else if (k == "type") v = tag(n._tag); else if (k == "name") v = n._name ? db->name + n._name : "(anonymous)"; else if (k == "props") v = props(x);
            else if (k == "detail") v = tag(l._tag) + "(\"" + (ln.empty() ? "anonymous" : ln) + "\")"; else if (k == "hash") v = hash[x]; else v = tag(db->decl[q]._tag) + " " + fqn[q];
            s += cell(v, c.w); }
        return s + "\n";
    }
    static std::string tag(u32 t) { static const char *n[] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" }; return t < 19 ? n[t] : crefl_tag_name(t); }
    static std::string names(int f) { std::string s; for (Col c : cols(f)) s += cell(c.name, c.w); return s + "\n"; }
    static std::string lines(int f) { std::string s; for (Col c : cols(f)) s += cell("", c.w, '-'); return s + "\n"; }
    std::string dump(int f) { std::string s = names(f) + lines(f); for (u32 i = db->root_element; i < db->decl_offset; i++) s += row(i, f); return s + lines(f); }
    std::string stats() {
        size_t du = db->decl_offset - 23, nb = 1; for (auto &b : builtins) nb += strlen(b.name) + 1; size_t nu = db->name_offset - nb;
        return h::fmt("decl.builtin %zu bytes (%zu records)\ndecl.user    %zu bytes (%zu records)\nname.builtin %zu bytes\nname.user    %zu bytes\nfile.size    %zu bytes\n", 23 * (size_t)32, (size_t)23, du * 32, du, nb, nu, 20 + du * 32 + nu);
    }
};
}
