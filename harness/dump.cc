// C19: captured dumps against an independent formatter. C18: exports for the tool checks.
#include "dumpref.h"
#include <sys/stat.h>
using namespace dr;

namespace {

// everything written to standard output while it lives
struct Capture {
    int saved, fd; std::string file;
    Capture() { static unsigned n = 0; fflush(stdout); file = h::fmt("cap_%d_%u", (int)getpid(), n++ % 4); fd = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); saved = dup(1); dup2(fd, 1); }
    std::string take() { fflush(stdout); dup2(saved, 1); close(saved); saved = -1; off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); lseek(fd, 0, SEEK_SET); size_t k = 0; while (k < s.size()) { ssize_t r = read(fd, &s[k], s.size() - k); if (r <= 0) break; k += (size_t)r; } close(fd); unlink(file.c_str()); return s; }
    ~Capture() { if (saved >= 0) { fflush(stdout); dup2(saved, 1); close(saved); close(fd); unlink(file.c_str()); } }
};

void differ(const std::string &got, const std::string &want, const char *key, const std::string &what) {
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t a = i; while (a > 0 && want[std::min(a, want.size()) - 1] != '\n') a--;
    h::viol(key, h::fmt("%s: byte %zu (line %zu): got '%s' want '%s'", what.c_str(), i, (size_t)std::count(want.begin(), want.begin() + (long)std::min(i, want.size()), '\n') + 1, got.substr(std::min(a, got.size()), 260).c_str(), want.substr(a, 260).c_str())); throw CaseFail();
}

Graph named_graph(Rng &r, Opts o) { // names around every column width
    Graph g = generate(r, o);
    if (r.chance(1, 2)) for (auto &n : g.n) if (!n.name.empty() && r.chance(1, 2)) { static const int w[] = { 5, 10, 15, 20, 23, 25, 28, 30, 57 }; size_t len = (size_t)std::max<int64_t>(0, w[r.below(9)] + r.range(-9, 2)); if (r.chance(1, 8)) len = r.below(600); std::string s; while (s.size() < len) s += r.chance(1, 10) ? "\xc3\xa9" : r.chance(1, 20) ? "%s" : std::string(1, (char)('a' + r.below(26))); if (len < 800 && !s.empty()) n.name = s; }
    return g;
}

void check_dumps(Rng &r, decl_db *db, const char *how, int only = -1) {
    Ref ref(db); Snap before = snap(db);
    for (int f = 0; f < 8; f++) if (only < 0 || f == only) {
        crefl_db_set_dump_fmt((crefl_db_dump_fmt)f); std::string got; { Capture c; crefl_db_dump(db); got = c.take(); }
        differ(got, ref.dump(f), "dump", h::fmt("%s, format %d", how, f));
        h::evals(db->decl_offset - db->root_element); h::stat("rows", db->decl_offset - db->root_element); h::stat("dumps");
    }
    // single rows and the header parts, in any order
    int f = (int)r.below(8); crefl_db_set_dump_fmt((crefl_db_dump_fmt)f); std::string got, want; { Capture c; for (int i = 0; i < 4; i++) { u32 x = (u32)r.below(db->decl_offset); crefl_db_dump_row(db, crefl_lookup(db, x)); want += ref.row(x, f); if (r.chance(1, 3)) { crefl_db_header_names(); want += Ref::names(f); } if (r.chance(1, 3)) { crefl_db_header_lines(); want += Ref::lines(f); } } got = c.take(); }
    differ(got, want, "row", h::fmt("%s rows, format %d", how, f));
    { Capture c; crefl_db_dump_stats(db); got = c.take(); } differ(got, ref.stats(), "stats", how);
    CHECK(snap(db) == before, "modifies", "dumping changed the database"); h::evals(6);
}

void f_dump(Rng &r, uint64_t) {
    Graph g = named_graph(r, random_opts(r, r.chance(1, 10) ? 40 : 8)); Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db);
    check_dumps(r, b.db, "built"); h::cover(hash_str(describe(g, 100000))); h::sample(describe(g));
    if (r.chance(1, 4)) { std::vector<uint8_t> im = image(b.db); Db d(crefl_db_new()); CHECK(crefl_db_read_mem(d.p, im.data(), im.size()) == 0, "load", "rejected"); check_dumps(r, d.p, "loaded"); }
}

void f_merged(Rng &r, uint64_t) {
    std::vector<std::unique_ptr<Db>> in; std::vector<decl_db*> p; size_t k = 1 + r.below(3); uint64_t s = r.next(); Opts o = random_opts(r, 5); o.archive = false;
    for (size_t i = 0; i < k; i++) { Rng q(r.chance(1, 2) ? s : r.next()); Graph g = named_graph(q, o); in.emplace_back(new Db(build(g).db)); p.push_back(in.back()->p); }
    Db m(crefl_db_new()); CHECK(crefl_link_merge(m.p, "merged.refl", p.data(), k) == 0, "merge", "fails"); check_dumps(r, m.p, "merged"); h::cover(hash_bytes(m.p->decl, m.p->decl_offset * sizeof(decl_node)));
}

// every property bit on every kind; extreme values
void f_props(Rng &r, uint64_t c) {
    decl_db *db = crefl_db_new(); Db own(db); crefl_db_defaults(db); u32 root = crefl_decl_idx(crefl_decl_new(db, _decl_source)); db->root_element = root; u32 prev = 0;
    for (int i = 0; i < 60; i++) { u32 tag = i < 19 && c == 0 ? (u32)i : (u32)r.below(19); if (tag == _decl_alias) tag = _decl_field; u32 id = crefl_decl_idx(crefl_decl_new(db, tag)); decl_node *n = crefl_decl_ptr(crefl_lookup(db, id)); n->_props = r.chance(1, 3) ? 1u << r.below(32) : r.chance(1, 4) ? ~0u : (u32)r.u64(); n->_quantity = r.chance(1, 4) ? ~0ull : r.u64();
        std::string nm = r.chance(1, 4) ? "" : gen_name(r, true); u32 k = crefl_name_new(db, nm.c_str()); n = crefl_decl_ptr(crefl_lookup(db, id)); n->_name = k; if (!container(tag)) n->_link = (u32)r.below(23);
        if (prev) crefl_decl_ptr(crefl_lookup(db, prev))->_next = id; else crefl_decl_ptr(crefl_lookup(db, root))->_link = id; prev = id; }
    check_dumps(r, db, "props"); h::cover(hash_bytes(db->decl, db->decl_offset * sizeof(decl_node)));
}

// ids beyond the column width
void f_many(Rng &r, uint64_t c) {
    decl_db *db = crefl_db_new(); Db own(db); crefl_db_defaults(db); u32 root = crefl_decl_idx(crefl_decl_new(db, _decl_source)); db->root_element = root; u32 prev = 0, k = crefl_name_new(db, "shared"); bool over = c % 2; size_t n = over ? 65500 + r.below(200) + (h::g_tier ? 60000 : 0) : 10000 + r.below(1000);
    for (size_t i = 0; i < n; i++) { u32 id = crefl_decl_idx(crefl_decl_new(db, _decl_typedef)); decl_node *p = crefl_decl_ptr(crefl_lookup(db, id)); p->_name = k; p->_link = 1 + (u32)r.below(22); if (prev) crefl_decl_ptr(crefl_lookup(db, prev))->_next = id; else crefl_decl_ptr(crefl_lookup(db, root))->_link = id; prev = id; }
    check_dumps(r, db, "many", over ? (int)r.below(8) : -1);
}

void save(const std::string &f, const std::string &s) { FILE *p = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), p); fclose(p); }

// images with everything a tool must print about them, for the drivers
void f_export(Rng &r, uint64_t c) {
    std::string dir = h::opt("dir"); if (dir.empty()) return;
    Opts o = random_opts(r, c % 10 == 9 ? 120 : 6); Graph g = named_graph(r, o); Built b = build(g, &r, (int)r.below(2), (int)r.below(3)); Db own(b.db);
    // every image size modulo the sixteen bytes of an emitted line
    if ((crefl_db_size(b.db) - c) % 2) crefl_name_new(b.db, "xx");
    while (crefl_db_size(b.db) % 16 != c % 16) crefl_name_new(b.db, "x");
    std::vector<uint8_t> im = image(b.db); Ref ref(b.db); std::string base = dir + h::fmt("/x%llu", (unsigned long long)c);
    save(base + ".refl", std::string(im.begin(), im.end())); save(base + ".stats", ref.stats()); for (int f = 0; f < 8; f++) save(base + h::fmt(".d%d", f), ref.dump(f));
    h::stat("exported"); h::cover(hash_bytes(im.data(), im.size()));
}

}
FAMILIES({ "dump", 700, 60000, f_dump }, { "merged", 200, 15000, f_merged }, { "props", 60, 6000, f_props }, { "many", 2, 8, f_many }, { "export", 160, 1600, f_export })
