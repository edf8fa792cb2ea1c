D = "src/db.cc"; M = "src/model.cc"; L = "src/link.cc"; P = "src/dump.cc"; U = "include/crefl/util.h"
MH = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/link.h>
#include <crefl/dump.h>
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
static decl_ref node(decl_db *db, decl_tag t, const char *n) {
    decl_ref r = crefl_decl_new(db, t); decl_id i = crefl_name_new(db, n); crefl_decl_ptr(r)->_name = i; return r;
}
static void link_(decl_ref a, decl_ref b) { crefl_decl_ptr(a)->_link = crefl_decl_idx(b); }
static void next_(decl_ref a, decl_ref b) { crefl_decl_ptr(a)->_next = crefl_decl_idx(b); }
static void attr_(decl_ref a, decl_ref b) { crefl_decl_ptr(a)->_attr = crefl_decl_idx(b); }
static decl_db *start() {
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    decl_ref s = node(db, _decl_source, "a.c"); db->root_element = crefl_decl_idx(s); return db;
}
static std::vector<uint8_t> image(decl_db *db) {
    std::vector<uint8_t> v(crefl_db_size(db)); if (crefl_db_write_mem(db, v.data(), v.size()) != 0) v.clear(); return v;
}
static decl_hash hash_of(decl_db *db, decl_ref d) {
    decl_index *x = crefl_index_new(); crefl_index_scan(x, db);
    decl_hash h = crefl_entry_ptr(crefl_entry_ref(x, d))->hash; crefl_index_destroy(x); return h;
}
static bool same(decl_hash a, decl_hash b) { return memcmp(a.sum, b.sum, sizeof a.sum) == 0; }
'''
# C01
S("s-c01-attr-edge", "C01", "an attribute reference exactly one past the last declaration",
  "such an image is accepted and the first consumer that follows the attribute reads outside the table",
  [(D, "if (d->_attr >= db->decl_offset) {", "if (d->_attr > db->decl_offset) {")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref r = crefl_root(db), t = node(db, _decl_typedef, "t");
    link_(r, t); link_(t, crefl_intrinsic(db, _decl_sint, 32));
    crefl_decl_ptr(t)->_attr = (decl_id)db->decl_offset;
    auto v = image(db); decl_db *o = crefl_db_new();
    if (crefl_db_read_mem(o, v.data(), v.size()) == 0) FAIL("attribute outside the table accepted");
    return 0;
}''')
S("s-c01-name-edge", "C01", "a name reference exactly at the end of the name table",
  "such an image is accepted although the name lies outside the table and is not terminated",
  [(D, "        if (d->_name >= db->name_offset) {", "        if (d->_name > db->name_offset) {")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref r = crefl_root(db), t = node(db, _decl_typedef, "t");
    link_(r, t); link_(t, crefl_intrinsic(db, _decl_sint, 32)); crefl_decl_ptr(t)->_name = (decl_id)db->name_offset;
    auto v = image(db); decl_db *o = crefl_db_new();
    if (crefl_db_read_mem(o, v.data(), v.size()) == 0) FAIL("name outside the table accepted");
    return 0;
}''')
S("s-c01-index-zero", "C01", "a scan that grows the hash index to more than twice its size at once, as for an image whose source links to a late declaration first",
  "part of the grown hash index is not cleared, so stale heap contents pass for finished hashes and names",
  [(L, "            (index->entry_size - old_size) * sizeof(decl_entry));", "            old_size * sizeof(decl_entry));")], MH + r'''
int main() {
    for (int k = 0; k < 40; k++) { std::vector<void*> p; for (int i = 8; i < 20; i++) { void *m = malloc(1u << i); memset(m, 0xff, 1u << i); p.push_back(m); } for (void *m : p) free(m); }
    decl_db *db = start(); decl_ref r = crefl_root(db), last = r, first = r;
    for (int i = 0; i < 700; i++) {
        decl_ref t = node(db, _decl_typedef, ("t" + std::to_string(i)).c_str());
        link_(t, crefl_intrinsic(db, _decl_sint, 32));
        if (i) next_(t, last); last = t;      /* listed last to first */
    }
    link_(r, last);
    decl_index *x = crefl_index_new(); 
    char *junk = (char*)malloc(2000000); memset(junk, 0xff, 2000000); free(junk);
    crefl_index_scan(x, db);
    for (decl_ref d = last; crefl_decl_idx(d); d = crefl_decl_next(d)) {
        decl_entry *e = crefl_entry_ptr(crefl_entry_ref(x, d));
        if (e->fqn >= x->name_offset || strcmp(x->name + e->fqn, crefl_decl_name(d))) FAIL("decl %d has no name of its own", (int)crefl_decl_idx(d));
    }
    return 0;
}''')
# C02
S("s-c02-magic-prefix", "C02", "an image whose magic differs from the right one only after its fourth octet",
  "files of another kind or version are accepted as metadata",
  [(D, "    return memcmp(addr, decl_db_magic, sizeof(decl_db_magic));", "    return memcmp(addr, decl_db_magic, 4);")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref t = node(db, _decl_typedef, "t"); link_(crefl_root(db), t); link_(t, crefl_intrinsic(db, _decl_sint, 32));
    auto v = image(db);
    for (size_t i = 0; i < 8; i++) {
        auto w = v; w[i] ^= 0x20; decl_db *o = crefl_db_new();
        if (crefl_db_read_mem(o, w.data(), w.size()) == 0) FAIL("magic octet %zu is not checked", i);
        crefl_db_destroy(o);
    }
    return 0;
}''')
S("s-c02-capacity-header", "C02", "an output buffer that is short by no more than the header",
  "serialising into a slightly short buffer writes past its end and reports success",
  [(D, "    if (total_sz > output_sz) return -1;", "    if (decl_sz + name_sz > output_sz) return -1;")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref t = node(db, _decl_typedef, "t"); link_(crefl_root(db), t); link_(t, crefl_intrinsic(db, _decl_sint, 32));
    size_t n = crefl_db_size(db);
    for (size_t c = 0; c < n; c++) {
        std::vector<uint8_t> b(n + 64, 0xa5);
        if (crefl_db_write_mem(db, b.data(), c) == 0) FAIL("%zu of %zu octets accepted", c, n);
        for (size_t i = c; i < b.size(); i++) if (b[i] != 0xa5) FAIL("octet %zu written with capacity %zu", i, c);
    }
    return 0;
}''')
S("s-c02-name-16", "C02", "more than 65535 octets of names",
  "the name table size is stored in sixteen bits, so databases with many names do not load back",
  [(D, "    hdr->name_table_size = (u32)name_sz;", "    hdr->name_table_size = (u16)name_sz;")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref last = crefl_root(db); bool f = true;
    for (int i = 0; i < 9000; i++) {
        decl_ref t = node(db, _decl_typedef, ("typename" + std::to_string(i)).c_str()); link_(t, crefl_intrinsic(db, _decl_sint, 32));
        if (f) link_(last, t); else next_(last, t); f = false; last = t;
    }
    auto v = image(db); decl_db *o = crefl_db_new();
    if (crefl_db_read_mem(o, v.data(), v.size()) != 0) FAIL("not loaded back");
    if (image(o) != v) FAIL("differs");
    return 0;
}''')
# C05
S("s-c05-quantity-int", "C05", "a value, bound or width that does not fit in 32 bits",
  "merging truncates 64-bit values to 32 bits",
  [(L, "        crefl_decl_ptr(r)->_quantity = crefl_decl_qty(d);", "        crefl_decl_ptr(r)->_quantity = (int)crefl_decl_qty(d);")], MH + r'''
int main() {
    u64 vals[] = { 1, 0x7fffffff, 0x80000000ull, 0x123456789abull, ~0ull, 1ull << 63 };
    for (u64 v : vals) {
        decl_db *db = start(); decl_ref e = node(db, _decl_enum, "e"); link_(crefl_root(db), e);
        decl_ref c = node(db, _decl_constant, "c"); link_(e, c); link_(c, crefl_intrinsic(db, _decl_uint, 64)); crefl_decl_ptr(c)->_value = v;
        decl_db *o = crefl_db_new(); if (crefl_link_merge(o, "o", &db, 1) != 0) FAIL("merge");
        decl_ref m = crefl_decl_link(crefl_decl_link(crefl_decl_link(crefl_root(o))));
        if (crefl_decl_ptr(m)->_value != v) FAIL("constant %llx lost", (unsigned long long)v);
    }
    return 0;
}''')
S("s-c05-alias-props", "C05", "the same named definition listed in two merged sources, where the second is an alias",
  "the second occurrence of a shared definition is attached to the previous alias target list by copying its next link",
  [(L, "        crefl_decl_ptr(r)->_link = crefl_decl_idx(a);\n        return r;", "        crefl_decl_ptr(r)->_link = crefl_is_enum(a) ? crefl_decl_ptr(a)->_link : crefl_decl_idx(a);\n        return r;")], MH + r'''
static decl_db *mk() {
    decl_db *db = start(); decl_ref e = node(db, _decl_enum, "e"); link_(crefl_root(db), e); crefl_decl_ptr(e)->_width = 32;
    decl_ref c = node(db, _decl_constant, "c"); link_(e, c); link_(c, crefl_intrinsic(db, _decl_sint, 32)); return db;
}
int main() {
    decl_db *in[2] = { mk(), mk() }, *o = crefl_db_new(); if (crefl_link_merge(o, "o", in, 2) != 0) FAIL("merge");
    decl_ref s = crefl_decl_link(crefl_root(o)); int n = 0;
    for (; crefl_decl_idx(s); s = crefl_decl_next(s), n++) {
        decl_ref d = crefl_decl_link(s); if (crefl_is_alias(d)) d = crefl_decl_link(d);
        if (!crefl_is_enum(d)) FAIL("source %d holds a %s", n, crefl_tag_name(crefl_decl_tag(d)));
    }
    return n == 2 ? 0 : 1;
}''')
# C06
S("s-c06-quantity-half", "C06", "two declarations that differ only in the upper half of a 64-bit value",
  "their hashes collide, so merging replaces one by the other",
  [(L, "    crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));", "    crefl_hash_update(sum, &node->_quantity, sizeof(node->_attr));")], MH + r'''
static decl_hash h(u64 v) {
    decl_db *db = start(); decl_ref e = node(db, _decl_enum, "e"); link_(crefl_root(db), e);
    decl_ref c = node(db, _decl_constant, "c"); link_(e, c); link_(c, crefl_intrinsic(db, _decl_uint, 64)); crefl_decl_ptr(c)->_value = v;
    return hash_of(db, e);
}
int main() {
    for (int b = 0; b < 64; b++) if (same(h(0), h(1ull << b))) FAIL("bit %d of a value is not hashed", b);
    return 0;
}''')
S("s-c06-recursive-name", "C06", "recursive types that differ only in which enclosing type a member points back to",
  "the reference to a type that is being hashed loses its name, so different recursive types hash equally",
  [(L, "                crefl_hash_absorb(sum, crefl_decl_name(next));\n            } else {", "            } else {")], MH + r'''
static decl_hash h(bool outer) {
    decl_db *db = start(); decl_ref a = node(db, _decl_struct, "A"); link_(crefl_root(db), a);
    decl_ref b = node(db, _decl_struct, "B"), f = node(db, _decl_field, "p"), p = node(db, _decl_pointer, "");
    link_(a, b); link_(b, f); link_(f, p); crefl_decl_ptr(p)->_width = 64; link_(p, outer ? a : b);
    return hash_of(db, a);
}
int main() { if (same(h(true), h(false))) FAIL("pointers to different enclosing types hash equally"); return 0; }''')
# C07
S("s-c07-type-qualifier", "C07", "a source that lists a qualified type among its declarations",
  "qualifier nodes are no longer types, so type lists omit them",
  [(M, "           t == _decl_array   || t == _decl_pointer   || t == _decl_qualifier;", "           t == _decl_array   || t == _decl_pointer;")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref q = node(db, _decl_qualifier, "const_int"), t = node(db, _decl_typedef, "t");
    link_(crefl_root(db), q); next_(q, t); link_(q, crefl_intrinsic(db, _decl_sint, 32)); link_(t, q);
    size_t n = 0; crefl_source_types(crefl_root(db), nullptr, &n); if (n != 2) FAIL("%zu types", n);
    return 0;
}''')
S("s-c07-fetch-edge", "C07", "a caller's buffer that is shorter than the list",
  "list queries write one entry more than the caller offered",
  [(M, "            if (r && count < limit) {", "            if (r && count <= limit && limit) {")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref s = node(db, _decl_struct, "s"), last = s; link_(crefl_root(db), s);
    for (int i = 0; i < 6; i++) { decl_ref f = node(db, _decl_field, "f"); link_(f, crefl_intrinsic(db, _decl_sint, 32)); if (i) next_(last, f); else link_(s, f); last = f; }
    for (size_t cap = 0; cap < 9; cap++) {
        decl_ref r[16]; memset(r, 0xee, sizeof r); size_t n = cap; crefl_struct_fields(s, r, &n);
        if (n != 6) FAIL("count %zu", n);
        for (size_t i = cap; i < 16; i++) if (r[i].decl_idx != 0xeeeeeeeeeeeeeeeeull) FAIL("entry %zu written, %zu offered", i, cap);
    }
    return 0;
}''')
S("s-c07-set-constants", "C07", "constants of a set declaration, queried with the enum query or the set query",
  "the set query answers for enums instead of for sets",
  [(M, "    if (!crefl_is_set(d)) return -1;", "    if (!crefl_is_set(d) && !crefl_is_enum(d)) return -1;")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref e = node(db, _decl_enum, "e"), s = node(db, _decl_set, "s"); link_(crefl_root(db), e); next_(e, s);
    size_t n = 0;
    if (crefl_set_constants(e, nullptr, &n) == 0) FAIL("an enum is no set");
    if (crefl_set_constants(s, nullptr, &n) != 0) FAIL("a set is a set");
    return 0;
}''')
# C22
S("s-c22-name-if", "C22", "a single name longer than twice the current name buffer",
  "the name buffer is doubled only once and the name is copied past its end",
  [(M, "        while (db->name_offset + len > db->name_size) {\n            db->name_size <<= 1;\n        }\n        db->name = (char*)", "        db->name_size <<= 1;\n        db->name = (char*)")], MH + r'''
int main() {
    for (size_t len = 1; len < 5000; len += 37) {
        decl_db *db = crefl_db_new(); std::string s(len, 'x'); decl_id i = crefl_name_new(db, s.c_str());
        if (db->name_offset > db->name_size) FAIL("name of %zu octets in a buffer of %zu", len, db->name_size);
        if (s != db->name + i) FAIL("lost");
        crefl_db_destroy(db);
    }
    return 0;
}''')
S("s-c22-zero-on-grow", "C22", "declarations created in a database that was loaded from an image",
  "new declarations are cleared only when the table grows here, so those in room left by the loader hold stale heap contents",
  [(M, "        db->decl = (decl_node*)realloc(db->decl, sizeof(decl_node) * db->decl_size);\n    }\n    decl_ref d = { db, db->decl_offset++ };\n    memset(crefl_decl_ptr(d), 0, sizeof(decl_node));",
       "        db->decl = (decl_node*)realloc(db->decl, sizeof(decl_node) * db->decl_size);\n        memset(db->decl + db->decl_offset, 0, sizeof(decl_node) * (db->decl_size - db->decl_offset));\n    }\n    decl_ref d = { db, db->decl_offset++ };")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref last = crefl_root(db);
    for (int i = 0; i < 200; i++) { decl_ref t = node(db, _decl_typedef, "t"); link_(t, crefl_intrinsic(db, _decl_sint, 32)); if (i) next_(last, t); else link_(last, t); last = t; }
    auto v = image(db);
    for (int k = 0; k < 20; k++) {
        for (size_t n = 1000; n < 40000; n += 500) { char *p = (char*)malloc(n); memset(p, 0xff, n); char *q = (char*)malloc(8); free(p); free(q); }
        char *p = (char*)malloc(60000); memset(p, 0xff, 60000); free(p);
        decl_db *o = crefl_db_new(); if (crefl_db_read_mem(o, v.data(), v.size()) != 0) FAIL("read");
        for (int i = 0; i < 24; i++) {
            decl_ref d = crefl_decl_new(o, _decl_field); decl_node z; memset(&z, 0, sizeof z); z._tag = _decl_field;
            if (memcmp(crefl_decl_ptr(d), &z, sizeof z)) FAIL("new declaration %d is not clean", i);
        }
        crefl_db_destroy(o);
    }
    return 0;
}''')

S("s-c22-growth-64k", "C22", "the 65537th declaration of one database",
  "table sizes wrap at sixteen bits, so growing beyond 65536 declarations loses the table",
  [(M, "        db->decl_size <<= 1;\n", "        db->decl_size += db->decl_size < 65536 ? db->decl_size : 0;\n")], MH + r'''
int main() {
    decl_db *db = start();
    for (int i = 0; i < 200000; i++) {
        decl_ref d = crefl_decl_new(db, _decl_field);
        if (crefl_decl_idx(d) >= db->decl_size) FAIL("declaration %d lies outside the table", i);
    }
    return 0;
}''')
S("s-c05-any-intrinsic", "C05", "a database whose own intrinsic declarations are used as types and that is merged after another one",
  "an intrinsic type of the input is taken for a builtin when its number lies inside the output",
  [(L, "    /* lookup node in our hash table to decide whether to copy or alias */\n", "    /* intrinsics that are already there */\n    if (_is_child && crefl_is_intrinsic(d) && crefl_decl_idx(d) < db->decl_offset) {\n        return decl_ref {db, crefl_decl_idx(d) };\n    }\n")], MH + r'''
static decl_db *mk(int n) {
    decl_db *db = start(); decl_ref t = node(db, _decl_typedef, ("t" + std::to_string(n)).c_str()), i = node(db, _decl_intrinsic, "fixed24");
    crefl_decl_ptr(i)->_width = 24; crefl_decl_ptr(i)->_props = _decl_sint; link_(crefl_root(db), t); link_(t, i); return db;
}
int main() {
    decl_db *in[3] = { mk(0), mk(1), mk(2) }, *o = crefl_db_new(); if (crefl_link_merge(o, "o", in, 3) != 0) FAIL("merge");
    for (decl_ref s = crefl_decl_link(crefl_root(o)); crefl_decl_idx(s); s = crefl_decl_next(s)) {
        decl_ref i = crefl_decl_link(crefl_decl_link(s));
        if (strcmp(crefl_decl_name(i), "fixed24") || !crefl_is_intrinsic(i)) FAIL("a typedef became a %s %s", crefl_tag_name(crefl_decl_tag(i)), crefl_decl_name(i));
    }
    return 0;
}''')
S("s-c05-qualified-share", "C05", "two types of one list that are merged where an earlier source holds a declaration that is not a collection with the same hash",
  "typedefs seen before are replaced by aliases of the first one, whose own attributes and place in its list they then show",
  [(L, "             crefl_is_struct(d) || crefl_is_union(d) ||\n             crefl_is_function(d));\n}\n\nstatic decl_ref crefl_find_copy", "             crefl_is_struct(d) || crefl_is_union(d) ||\n             crefl_is_function(d) || crefl_is_constant(d));\n}\n\nstatic decl_ref crefl_find_copy")], MH + r'''
int main() {
    decl_db *db = start(); decl_ref a = node(db, _decl_enum, "a"), b = node(db, _decl_enum, "b"); link_(crefl_root(db), a); next_(a, b);
    for (decl_ref e : { a, b }) {
        crefl_decl_ptr(e)->_width = 32;
        decl_ref c = node(db, _decl_constant, ""), d = node(db, _decl_constant, crefl_decl_name(e)); crefl_decl_ptr(c)->_value = 1; crefl_decl_ptr(d)->_value = 2;
        link_(e, c); next_(c, d); link_(c, crefl_intrinsic(db, _decl_sint, 32)); link_(d, crefl_intrinsic(db, _decl_sint, 32));
    }
    decl_db *o = crefl_db_new(); if (crefl_link_merge(o, "o", &db, 1) != 0) FAIL("merge");
    for (decl_ref e = crefl_decl_link(crefl_decl_link(crefl_root(o))); crefl_decl_idx(e); e = crefl_decl_next(e)) {
        size_t n = 0; crefl_enum_constants(e, nullptr, &n); if (n != 2) FAIL("enum %s has %zu constants", crefl_decl_name(e), n);
    }
    return 0;
}''')
S("s-c06-field-width", "C06", "structures that differ only in the width of a bit-field",
  "the widths of fields are not hashed",
  [(L, "    crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));", "    if (!crefl_is_field(d)) crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));")], MH + r"""
static decl_hash h(int w) {
    decl_db *db = start(); decl_ref t = node(db, _decl_struct, "s"), f = node(db, _decl_field, "f"); link_(crefl_root(db), t); link_(t, f); link_(f, crefl_intrinsic(db, _decl_sint, 32));
    crefl_decl_ptr(f)->_props = _decl_bitfield; crefl_decl_ptr(f)->_width = w; return hash_of(db, t);
}
int main() { for (int a = 1; a < 32; a++) for (int b = 1; b < a; b++) if (same(h(a), h(b))) FAIL("widths %d and %d", a, b); return 0; }""")
S("s-c06-value-name", "C06", "declarations that differ only in the text of an annotation",
  "the texts of attribute values are not hashed",
  [(L, "    crefl_hash_absorb(sum, crefl_decl_name(d));\n    crefl_hash_absorb(sum, props_delimeter);", "    if (!crefl_is_value(d)) crefl_hash_absorb(sum, crefl_decl_name(d));\n    crefl_hash_absorb(sum, props_delimeter);")], MH + r"""
static decl_hash h(const char *text) {
    decl_db *db = start(); decl_ref t = node(db, _decl_field, "t"), a = node(db, _decl_attribute, "annotate"), v = node(db, _decl_value, text); link_(crefl_root(db), t); link_(t, crefl_intrinsic(db, _decl_sint, 32));
    crefl_decl_ptr(t)->_attr = crefl_decl_idx(a); link_(a, v); return hash_of(db, t);
}
int main() { return same(h("first"), h("second")) ? 1 : 0; }""")
S("s-c06-props-byte", "C06", "declarations that differ only in a property above the eighth bit",
  "only the low octet of the properties is hashed",
  [(L, "    crefl_hash_update(sum, &node->_props, sizeof(node->_props));", "    crefl_hash_update(sum, &node->_props, sizeof(node->_props) / 2);")], MH + r'''
static decl_hash h(decl_set p) {
    decl_db *db = start(); decl_ref t = node(db, _decl_field, "t"); link_(crefl_root(db), t); link_(t, crefl_intrinsic(db, _decl_sint, 32));
    crefl_decl_ptr(t)->_props = p; return hash_of(db, t);
}
int main() { for (int b = 0; b < 32; b++) if (same(h(0), h(1u << b))) FAIL("property bit %d is not hashed", b); return 0; }''')
