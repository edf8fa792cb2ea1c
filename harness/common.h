// Shared monitor runtime for the crefl harnesses (/verif/harness/*.cc).
//
// A harness is a set of cases numbered 0..N-1. Every case derives all of its
// random choices from (VERIF_SEED, family, case number), so that any single case can be
// replayed with --only. The monitors are CHECK()s inside the cases and the sanitizers
// the program is built with. Results are reported on stdout in a line protocol which
// lib/vf.py collects:
//   @@VIOL key|case|detail     an oracle rejected an execution
//   @@STAT name count          what the monitors observed
//   @@SAMPLE text              an actual case, written out
//   @@DONE evaluations         the run came to its end
#pragma once
#include <sys/resource.h>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

typedef uint64_t u64_;

static inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char *c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return mix64(h ^ n);
}
static inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    // 64-bit values dense around all powers of two, with uniform bit lengths
    uint64_t u64()
    {
        switch (below(8)) {
        case 0: return below(300);
        case 1: { uint64_t v = 1ull << below(64); return v + (uint64_t)range(-2, 2); }
        case 2: { uint64_t v = 1ull << below(64); return 0 - v + (uint64_t)range(-2, 2); }
        case 3: { uint64_t v = next(); return v & (0xffull << (8 * below(8))); }
        case 4: return ~(next() & (0xffull << (8 * below(8))));
        case 5: { unsigned n = (unsigned)below(64); return next() >> n; }
        case 6: { uint64_t v = 1ull << below(64); uint64_t w = 1ull << below(64); return v - w; }
        default: return next();
        }
    }
    std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); for (auto &b : v) b = (uint8_t)next(); return v; }
    template <class T> const T& pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct CaseFail {};

namespace h {

struct Family { const char *name; uint64_t quick, thorough; void (*fn)(Rng&, uint64_t); };

static uint64_t g_seed = 1, g_case = 0, g_evals = 0;
static const char *g_family = "";
static int g_tier = 0;              // 0 quick, 1 thorough
static uint64_t g_shard = 0, g_shards = 1;
static volatile uint64_t *g_progress = nullptr;
static std::map<std::string, uint64_t> g_stats;
static std::map<std::string, uint64_t> g_violkeys;
static std::unordered_set<uint64_t> g_cover;
static unsigned g_samples = 0;
static std::map<std::string, std::string> g_opts;

static inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static inline std::string fmt(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
    std::string s = n >= 0 ? std::string(p, (size_t)n) : std::string(); free(p); return s;
}
static inline std::string clean(std::string s)
{
    for (auto &c : s) if (c == '\n' || c == '\r' || c == '|') c = ' ';
    if (s.size() > 1500) s.resize(1500);
    return s;
}
static inline std::string hex(const void *p, size_t n)
{
    static const char d[] = "0123456789abcdef"; std::string s; const uint8_t *b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    return s;
}
static inline std::string hex(const std::vector<uint8_t> &v) { return hex(v.data(), v.size()); }
static inline void stat(const std::string &k, uint64_t n = 1) { g_stats[k] += n; }
static inline void evals(uint64_t n = 1) { g_evals += n; }
static inline void cover(uint64_t hsh) { if (g_cover.size() < 300000) g_cover.insert(hsh); }
static inline void sample(const std::string &s)
{
    if (g_samples < 3) { g_samples++; printf("@@SAMPLE %s\n", clean(s).c_str()); }
}
static inline void viol(const std::string &key, const std::string &detail)
{
    if (g_violkeys[key]++ < 3) {
        printf("@@VIOL %s|%s:%llu|%s\n", clean(key).c_str(), g_family,
            (unsigned long long)g_case, clean(detail).c_str());
        fflush(stdout);
    }
}
static inline const char* opt(const char *k, const char *d = "") { auto i = g_opts.find(k); return i == g_opts.end() ? d : i->second.c_str(); }

// heap block of exactly n bytes so that ASan sees a one-byte overrun; freed on scope exit
struct Block
{
    uint8_t *p; size_t n;
    explicit Block(size_t n) : p((uint8_t*)malloc(n ? n : 1)), n(n) { if (!n) { free(p); p = (uint8_t*)malloc(0); } if (n) memset(p, 0xA5, n); }
    explicit Block(const std::vector<uint8_t> &v) : Block(v.size()) { if (n) memcpy(p, v.data(), n); }
    Block(const Block&) = delete; Block& operator=(const Block&) = delete;
    ~Block() { free(p); }
    std::vector<uint8_t> vec() const { return std::vector<uint8_t>(p, p + n); }
};

extern const Family families[];
extern const size_t num_families;

static int run(int argc, char **argv)
{
#ifdef VF_REL
    // what grows without end meets its own limit before the machine's
#ifndef VF_AS_GB
#define VF_AS_GB 4
#endif
    { struct rlimit rl = { (rlim_t)VF_AS_GB << 30, (rlim_t)VF_AS_GB << 30 }; setrlimit(RLIMIT_AS, &rl); }
#endif
    const char *only_family = nullptr; long long only = -1; uint64_t from = 0; double scale = 1.0;
    const char *covfile = nullptr, *progfile = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") g_seed = strtoull(val(), 0, 0);
        else if (a == "--tier") g_tier = !strcmp(val(), "thorough");
        else if (a == "--family") only_family = val();
        else if (a == "--only") only = atoll(val());
        else if (a == "--from") from = strtoull(val(), 0, 0);
        else if (a == "--shard") { const char *v = val(); g_shard = strtoull(v, 0, 0); const char *s = strchr(v, '/'); if (s) g_shards = strtoull(s + 1, 0, 0); }
        else if (a == "--scale") scale = atof(val());
        else if (a == "--cover") covfile = val();
        else if (a == "--progress") progfile = val();
        else if (a == "--list") { for (size_t k = 0; k < num_families; k++) printf("%s %llu %llu\n", families[k].name, (unsigned long long)families[k].quick, (unsigned long long)families[k].thorough); return 0; }
        else if (a.rfind("--opt=", 0) == 0) { size_t e = a.find('=', 6); if (e != std::string::npos) g_opts[a.substr(6, e - 6)] = a.substr(e + 1); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    static uint64_t dummy[2]; g_progress = dummy;
    if (progfile) {
        int fd = open(progfile, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) g_progress = (volatile uint64_t*)m;
        }
        if (fd >= 0) close(fd);
    }
    for (size_t k = 0; k < num_families; k++) {
        const Family &f = families[k];
        if (only_family && strcmp(only_family, f.name)) continue;
        uint64_t n = g_tier ? f.thorough : f.quick;
        n = (uint64_t)std::ceil((double)n * scale);
        g_family = f.name;
        uint64_t fh = hash_bytes(f.name, strlen(f.name));
        for (uint64_t c = from; c < n; c++) {
            if (only >= 0) { c = (uint64_t)only; }
            else if (c % g_shards != g_shard) continue;
            g_case = c; g_progress[0] = k; g_progress[1] = c;
            Rng r(mix64(g_seed * 0x10001 + fh) ^ mix64(c + 77));
            try { f.fn(r, c); } catch (const CaseFail&) {}
            if (only >= 0) break;
        }
        from = 0;
    }
    for (auto &s : g_stats) printf("@@STAT %s %llu\n", s.first.c_str(), (unsigned long long)s.second);
    if (covfile) {
        FILE *o = fopen(covfile, "wb");
        if (o) { std::vector<uint64_t> v(g_cover.begin(), g_cover.end()); fwrite(v.data(), 8, v.size(), o); fclose(o); }
    }
    printf("@@DONE %llu\n", (unsigned long long)g_evals);
    fflush(stdout);
    return 0;
}

} // namespace h

using h::Block; using h::hex; using h::fmt;

// record a violation and abandon the case
#define CHECK(cond, key, ...) do { if (!(cond)) { h::viol(key, std::string(#cond " :: ") + h::fmt(__VA_ARGS__)); throw CaseFail(); } } while (0)
// record a violation and go on
#define EXPECT(cond, key, ...) do { if (!(cond)) { h::viol(key, std::string(#cond " :: ") + h::fmt(__VA_ARGS__)); } } while (0)

#define FAMILIES(...) namespace h { const Family families[] = { __VA_ARGS__ }; \
    const size_t num_families = sizeof(families) / sizeof(families[0]); } \
    int main(int argc, char **argv) { return h::run(argc, argv); }
