// C17: hashmap against std::map over random operation histories.
#include "common.h"
#include <crefl/hashmap.h>
#include <unordered_map>
#if defined(__SANITIZE_ADDRESS__) || defined(VF_SAN)
#include <sanitizer/allocator_interface.h>
static size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live_bytes() { return 0; }   // malloc's own caches count as used: only the sanitizer build counts bytes
#endif
static int g_mask = 0;   // what the current hasher does
template <class K> struct VHash { size_t operator()(const K &k) const {
    uint64_t v = (uint64_t)(int64_t)k;
    switch (g_mask) {
    case 0: return (size_t)v;                       // identity
    case 1: return 0;                               // everything collides at the first slot
    case 2: return (size_t)-1;                      // everything collides at the last slot, wrapping around
    case 3: return (size_t)(v % 3);
    case 4: return (size_t)(v << 4);                // clusters
    case 5: return (size_t)(v << 40);               // only high bits differ
    case 6: return (size_t)(0 - v);                 // downwards, wraps
    default: return (size_t)mix64(v);
    } } };
template <class K> struct VEq { bool operator()(const K &a, const K &b) const { return a == b; } };
// an equivalence coarser than identity, with the hash that goes with it
template <class K> struct HalfHash { size_t operator()(const K &k) const { return VHash<uint64_t>()((uint64_t)k >> 1); } };
template <class K> struct HalfEq { bool operator()(const K &a, const K &b) const { return (uint64_t)a >> 1 == (uint64_t)b >> 1; } };
template <class K> struct HalfLess { bool operator()(const K &a, const K &b) const { return (uint64_t)a >> 1 < (uint64_t)b >> 1; } };
struct Odd { uint8_t b[5]; Odd(int v = 0) { for (int i = 0; i < 5; i++) b[i] = (uint8_t)(v >> (i * 7)); } bool operator!=(const Odd &o) const { return memcmp(b, o.b, 5); } bool operator==(const Odd &o) const { return !(*this != o); } };
struct alignas(8) Wide { uint64_t a[3]; Wide(int v = 0) { for (auto &x : a) x = mix64((uint64_t)v); } bool operator!=(const Wide &o) const { return memcmp(a, o.a, 24); } bool operator==(const Wide &o) const { return !(*this != o); } };
struct Bad { std::string key, detail; };

static std::vector<std::string> g_counts; static uint64_t n_ops, n_growth, n_resize_tomb, n_erase_hit, n_reinsert, n_copies, n_iter; static uint64_t g_trace;

template <class K, class V, class H, class P, class L>
static void history(Rng &r)
{
    typedef hashmap<K, V, H, P> M; typedef std::map<K, V, L> R;
    g_mask = (int)r.below(8);
    static const size_t sizes[] = { 1, 2, 4, 8, 16, 32, 64, 128, 1024 };
    size_t init = sizes[r.chance(2, 3) ? r.below(6) : r.below(9)];
    uint64_t space = r.chance(1, 2) ? 1 + r.below(12) : r.chance(1, 2) ? 1 + r.below(100) : 1 + r.below(3000);
    if (g_mask == 1 || g_mask == 2 || g_mask == 3) space = std::min<uint64_t>(space, 200);
    bool extreme = r.chance(1, 4);
    auto mk = [&](uint64_t i) -> K { if (extreme && i % 3 == 0) return (K)(0 - i); return (K)i; };
    size_t nm = 1 + r.below(3);
    std::vector<std::unique_ptr<M>> ms; std::vector<R> rs(nm);
    for (size_t i = 0; i < nm; i++) ms.emplace_back(r.chance(1, 4) ? new M() : new M(init));
    std::vector<bool> valid(nm, true);
    size_t nops = 5 + r.below(space > 500 ? 3000 : 250);
    unsigned we = 1 + (unsigned)r.below(4), wi = 1 + (unsigned)r.below(6);
    std::string log; bool keep = nops < 300;
    int vcount = 1;
    auto fail = [&](const char *key, const std::string &d) { throw Bad{key, d + fmt(" hasher=%d init=%zu space=%llu ", g_mask, init, (unsigned long long)space) + log}; };
    auto same = [&](size_t i) {
        M &m = *ms[i]; R &q = rs[i]; R seen; size_t n = 0;
        if (m.size() != q.size()) fail("map:size", fmt("size %zu, reference %zu", m.size(), q.size()));
        for (auto it = m.begin(); it != m.end(); ++it, ++n) {
            auto f = q.find(it->first);
            if (f == q.end()) fail("map:iter-ghost", "iteration visits a key that is not there");
            if (!((*it).second == f->second)) fail("map:iter-value", "iteration shows another value");
            if (it->first != f->first) fail("map:iter-key", "iteration shows another key of the same class");
            if (!seen.insert({it->first, it->second}).second) fail("map:iter-twice", "iteration visits a key twice");
        }
        if (n != q.size()) fail("map:iter-count", fmt("%zu visited of %zu", n, q.size()));
        n_iter++;
    };
    for (size_t op = 0; op < nops; op++) {
        size_t x = r.below(nm), y = r.below(nm);
        if (!valid[x]) {   // moved-from: may only be assigned to or destroyed
            if (!valid[y]) { ms[x].reset(new M(init)); rs[x].clear(); }
            else if (r.chance(1, 2)) { *ms[x] = *ms[y]; rs[x] = rs[y]; }
            else { ms[x].reset(new M(*ms[y])); rs[x] = rs[y]; }
            valid[x] = true; if (keep) log += fmt("revive%zu<%zu ", x, y);
        }
        M &m = *ms[x]; R &q = rs[x]; K k = mk(r.below(space)); V v((int)(vcount++)); size_t cap0 = m.capacity(), t0 = m.tombs;
        unsigned d = (unsigned)r.below(40); const char *nm_op = "";
        n_ops++;
        if (d < 8 + wi) {
            bool had = q.count(k); typename M::iterator it{nullptr, 0};
            switch (r.below(4)) {
            case 0: it = m.insert(k, v); nm_op = "ins"; break;
            case 1: it = m.insert(typename M::value_type(k, v)); nm_op = "insp"; break;
            case 2: it = m.insert(m.end(), typename M::value_type(k, v)); nm_op = "insh"; break;
            default: { V &ref = m[k]; if (had ? !(ref == q.find(k)->second) : !(ref == V(0)) && sizeof(V) <= 8 && std::is_arithmetic<V>::value) fail("map:index-value", "operator[] shows another value"); ref = v; it = m.find(k); nm_op = "idx"; } break;
            }
            if (had) { q.find(k)->second = v; } else { q.emplace(k, v); n_reinsert++; }
            if (it == m.end() || !P()(it->first, k) || !(it->second == v)) fail("map:insert-result", "the iterator returned does not show the inserted entry");
        } else if (d < 16 + wi + 2 * we) {
            n_erase_hit += q.count(k); q.erase(k);
            auto it = m.find(k);
            if (it != m.end() && r.chance(1, 2)) m.erase(it->first); else m.erase(k);   // also by reference into the map itself
            if (m.find(k) != m.end()) fail("map:erase", "an erased key is found"); nm_op = "era";
        } else if (d < 33) {
            auto it = m.find(k); auto f = q.find(k); nm_op = "fnd";
            if ((it == m.end()) != (f == q.end())) fail("map:find", fmt("find says %d, reference %d", it != m.end(), f != q.end()));
            if (f != q.end() && !(it->second == f->second)) fail("map:find-value", "find shows another value");
        } else switch (d) {
        case 33: if (r.chance(1, 4)) { m.clear(); q.clear(); if (m.begin() != m.end()) fail("map:clear", "entries after clear"); nm_op = "clr"; } break;
        case 34: ms[y].reset(new M(m)); rs[y] = rs[x]; if (x == y) { } valid[y] = true; n_copies++; nm_op = "cpy"; break;
        case 35: if (valid[y] || true) { *ms[y] = *ms[x]; rs[y] = rs[x]; valid[y] = true; n_copies++; nm_op = "asg"; } break;
        case 36: if (x != y) { if (r.chance(1, 2)) { *ms[y] = std::move(*ms[x]); } else { ms[y].reset(new M(std::move(*ms[x]))); } rs[y] = rs[x]; valid[y] = true; valid[x] = false; nm_op = "mov"; same(y); }
                 else { M &self = *ms[x]; self = std::move(*ms[y]); nm_op = "selfmov"; } break;
        case 37: if (valid[y]) { std::swap(*ms[x], *ms[y]); std::swap(rs[x], rs[y]); nm_op = "swp"; } break;
        case 38: if (valid[y]) {
                 bool eq = rs[x].size() == rs[y].size() && std::equal(rs[x].begin(), rs[x].end(), rs[y].begin(), [](const auto &a, const auto &b) { return P()(a.first, b.first) && a.second == b.second; });
                 if ((*ms[x] == *ms[y]) != eq || (*ms[x] != *ms[y]) == eq) fail("map:compare", fmt("comparison says %d, reference %d", *ms[x] == *ms[y], eq)); nm_op = "cmp"; } break;
        default: { // iteration that changes values and erases what it stands on
            nm_op = "sweep"; bool er = r.chance(1, 3);
            for (auto it = m.begin(); it != m.end(); ) {
                auto cur = it++; K kk = cur->first; auto f = q.find(kk); if (f == q.end()) fail("map:iter-ghost", "iteration visits a key that is not there");
                V nv((int)(vcount++)); cur->second = nv; f->second = nv;
                if (er && r.chance(1, 3)) { m.erase(kk); q.erase(kk); }
            } } break;
        }
        if (keep) log += fmt("%s%zu:%llu ", nm_op, x, (unsigned long long)k);
        g_trace = mix64(g_trace ^ hash_bytes(nm_op, strlen(nm_op)) ^ (uint64_t)k ^ (x << 50));
        if (valid[x]) {
            if (ms[x]->size() != rs[x].size()) fail("map:size", fmt("size %zu, reference %zu", ms[x]->size(), rs[x].size()));
            if (ms[x]->capacity() > cap0 && d < 8 + wi) { n_growth++; if (t0) n_resize_tomb++; same(x); }
            if (nops < 300 || op % 64 == 0) same(x);
        }
    }
    for (size_t i = 0; i < nm; i++) if (valid[i]) { same(i); for (uint64_t s = 0; s < space && s < 300; s++) { K k = mk(s); auto it = ms[i]->find(k); auto f = rs[i].find(k); if ((it == ms[i]->end()) != (f == rs[i].end())) fail("map:find", "final lookup"); } }
}
template <class K, class V, class H = VHash<K>, class P = VEq<K>, class L = std::less<K>>
static void guarded(Rng &r, const char *what)
{
    Rng r2 = r; Bad bad; bool failed = false; size_t b0 = live_bytes();
    try { history<K, V, H, P, L>(r2); } catch (const Bad &b) { failed = true; bad = b; }
    size_t b1 = live_bytes();
    CHECK(!failed, bad.key, "%s %s", what, bad.detail.c_str());
    CHECK(b1 <= b0, "map:leak", "%s %zd bytes are still allocated after all maps are gone", what, (ssize_t)(b1 - b0));
    h::evals(); h::cover(g_trace);
}
static void histories(Rng &r, uint64_t i)
{
    switch (i % 9) {
    case 0: guarded<int, int>(r, "int,int"); break;
    case 1: guarded<uint64_t, uint64_t>(r, "u64,u64"); break;
    case 2: guarded<uint8_t, uint8_t>(r, "u8,u8"); break;
    case 3: guarded<uint16_t, Odd>(r, "u16,odd"); break;
    case 4: guarded<unsigned, Wide>(r, "u32,wide"); break;
    case 5: guarded<uint64_t, uint8_t>(r, "u64,u8"); break;
    case 6: guarded<int, int, HalfHash<int>, HalfEq<int>, HalfLess<int>>(r, "coarse"); break;
    case 7: guarded<long, int, std::hash<long>, std::equal_to<long>>(r, "std"); break;
    default: guarded<int8_t, Odd>(r, "s8,odd"); break;
    }
    h::stat("operations", n_ops); h::stat("growths", n_growth); h::stat("growths_with_tombstones", n_resize_tomb); h::stat("erase_hits", n_erase_hit); h::stat("new_keys", n_reinsert); h::stat("copies", n_copies); h::stat("full_comparisons", n_iter);
    n_ops = n_growth = n_resize_tomb = n_erase_hit = n_reinsert = n_copies = n_iter = 0;
    if (i == 0) h::sample("int->int histories over insert/[]/find/erase/clear/copy/move/swap/compare/iterate, whole contents compared after every operation");
}
// small histories enumerated: every sequence of insert/erase over 3 keys that share one probe chain
static void tiny(Rng &, uint64_t i)
{
    static const int L = 7; uint64_t n = 1; for (int k = 0; k < L; k++) n *= 6;
    for (uint64_t s = i; s < n; s += 64) {
        for (int msk = 0; msk < 3; msk++) for (size_t init = 1; init <= 8; init <<= 1) {
            g_mask = msk; hashmap<int, int, VHash<int>> m(init); std::map<int, int> q; uint64_t c = s;
            for (int k = 0; k < L; k++, c /= 6) {
                int key = (int)(c % 6) / 2 * 8 + 7, v = k + 1; if (c & 1) { m.erase(key); q.erase(key); } else { m.insert(key, v); q[key] = v; }
                CHECK(m.size() == q.size(), "tiny:size", "sequence %llu step %d", (unsigned long long)s, k);
                size_t cnt = 0; for (auto e : m) { cnt++; CHECK(q.count(e.first) && q[e.first] == e.second, "tiny:iter", "sequence %llu step %d", (unsigned long long)s, k); }
                CHECK(cnt == q.size(), "tiny:iter-count", "sequence %llu step %d", (unsigned long long)s, k);
                for (int key2 = 7; key2 <= 31; key2 += 8) CHECK((m.find(key2) != m.end()) == (q.count(key2) == 1), "tiny:find", "sequence %llu step %d", (unsigned long long)s, k);
            }
            h::evals();
        }
        h::cover(mix64(s));
    }
    h::stat("enumerated_sequences", (n - i + 63) / 64);
}
// more entries than sixteen bits count
static void large(Rng &r, uint64_t c)
{
    typedef hashmap<uint64_t, uint32_t> M; std::unordered_map<uint64_t, uint32_t> q; M m; size_t n = 66000 + r.below(c % 2 ? 90000 : 3000); uint64_t mul = r.next() | 1, keep = 0;
    auto key = [&](uint64_t k) { return c % 3 == 0 ? k : c % 3 == 1 ? k * mul : mix64(k); };
    auto same = [&](M &x, const char *when) { CHECK(x.size() == q.size(), "large:size", "%s: %zu entries, expected %zu", when, x.size(), q.size()); size_t k = 0; for (auto it = x.begin(); it != x.end(); ++it) { auto f = q.find(it->first); CHECK(f != q.end() && f->second == it->second, "large:iter", "%s: entry %zu", when, k); k++; } CHECK(k == q.size(), "large:iter-count", "%s: %zu entries visited of %zu", when, k, q.size());
        for (auto &e : q) { auto it = x.find(e.first); CHECK(it != x.end() && it->second == e.second, "large:find", "%s: a key of %zu is not found", when, q.size()); } };
    for (size_t i = 0; i < n; i++) { uint64_t k = key(i); if (i & 1) m[k] = (uint32_t)i; else m.insert(k, (uint32_t)i); q[k] = (uint32_t)i; if (r.chance(1, 4)) { k = key(r.below(i + 1)); m.erase(k); q.erase(k); } if (i == 65535 || i == 65536 || i == 65540) same(m, "growing"); }
    same(m, "full"); M d(m); same(d, "copied"); CHECK(d == m, "large:compare", "a copy differs"); for (size_t i = 0; i < n; i++) CHECK((m.find(key(n + i)) != m.end()) == (q.count(key(n + i)) == 1), "large:ghost", "a key that was never there is found");
    for (size_t i = 0; i < n; i++) if (r.chance(2, 3)) { m.erase(key(i)); q.erase(key(i)); } else keep++;
    same(m, "shrunk"); for (size_t i = 0; i < n; i += 3) { m[key(i)] = 7; q[key(i)] = 7; } same(m, "refilled"); m.clear(); q.clear(); same(m, "cleared");
    h::evals(n * 6); h::stat("large_maps"); h::cover(mix64(n) ^ keep);
}
FAMILIES({"history", 9000, 400000, histories}, {"tiny", 64, 64, tiny}, {"large", 6, 60, large})
