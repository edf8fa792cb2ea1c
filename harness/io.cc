// C23: metadata files under limits, truncation and unusable paths.
#include "graph.h"
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace gr;

namespace {

size_t count() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
// a sanitizer's own thread opens files for moments: the smallest of a few counts, or the count expected
size_t fds(size_t want = 0) { size_t m = count(); for (int i = 0; i < 3 || (i < 40 && want && m > want); i++) { if (i > 2) usleep(500); m = std::min(m, count()); } return m; }
std::string slurp(const std::string &f) { std::string s; FILE *p = fopen(f.c_str(), "rb"); if (!p) return "<missing>"; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) s.append(b, k); fclose(p); return s; }
void spill(const std::string &f, const void *d, size_t n) { FILE *p = fopen(f.c_str(), "wb"); if (!p || fwrite(d, 1, n, p) != n || fclose(p)) abort(); }
struct Dir { std::string d; Dir() { static unsigned n; d = h::fmt("io_%d_%u", (int)getpid(), n++); mkdir(d.c_str(), 0700); } std::string operator/(const char *s) const { return d + "/" + s; }
    ~Dir() { for (const char *s : { "f", "g", "l", "sub" }) { unlink((d + "/" + s).c_str()); rmdir((d + "/" + s).c_str()); } rmdir(d.c_str()); } };
struct Quiet { int s; Quiet() { fflush(stderr); s = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { fflush(stderr); dup2(s, 2); close(s); } };

// runs f in a process with the given limit; its result, or -100 - signal
template <class F> int limited(int what, rlim_t k, F f) {
    pid_t p = fork(); if (p == 0) { signal(SIGXFSZ, SIG_IGN); rlimit l { k, k }; setrlimit(what, &l); _exit(f() ? 1 : 0); }
    int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -100 - WTERMSIG(st);
}

void f_write(Rng &r, uint64_t) {
    Dir d; Graph g = generate(r, random_opts(r, r.chance(1, 6) ? 150 : 8)); Built b = build(g); Db own(b.db); std::vector<uint8_t> im = image(b.db); std::string want(im.begin(), im.end()), f = d / "f"; Snap before = snap(b.db);
    std::string old(r.below(4) ? r.below(2 * im.size()) : 0, '#'); bool had = r.chance(1, 2);
    auto reset = [&] { unlink(f.c_str()); if (had) spill(f, old.data(), old.size()); };
    // nothing in the way: exactly the image, whatever was there
    reset(); size_t n0 = fds(); int ret = crefl_db_write_file(b.db, f.c_str()); EXPECT(ret == 0, "write", "write fails with %d", ret); CHECK(slurp(f) == want, "written", "file differs from the image (%zu bytes there before)", old.size()); EXPECT(fds(n0) <= n0, "fd", "descriptors left open");
    h::evals();
    // a limit at every place that matters
    std::vector<size_t> ks { 0, 1, im.size() / 2, im.size() - 1, im.size(), im.size() + 1 }; for (int i = 0; i < 4; i++) ks.push_back(r.below(im.size())); for (size_t q = 4096; q < im.size(); q += 4096) if (r.chance(1, 3)) ks.push_back(q);
    for (size_t k : ks) { reset(); int e = limited(RLIMIT_FSIZE, k, [&] { size_t a = fds(); int e = crefl_db_write_file(b.db, f.c_str()); if (fds(a) > a) _exit(77); return e != 0; });
        h::evals(); h::stat("limits"); CHECK(e >= 0 && e != 77 && e != 99, e == 77 ? "fd" : "crash", "limit %zu of %zu: %d", k, im.size(), e);
        if (k >= im.size()) CHECK(e == 0 && slurp(f) == want, "write", "limit %zu of %zu: error", k, im.size()); else CHECK(e == 1, "short", "limit %zu of %zu bytes: reported as written", k, im.size()); }
    // places that cannot be written
    spill(d / "g", "x", 1); mkdir((d / "sub").c_str(), 0700); symlink("l", (d / "l").c_str()); std::string longname(5000, 'n');
    for (std::string p : { std::string(""), d.d, d / "none/f", d / "g/f", d / "l", d / "sub", longname, std::string("/dev/full") }) { Quiet q; size_t a = fds(); int e = crefl_db_write_file(b.db, p.c_str()); h::evals(); CHECK(e != 0, "badpath", "writing to '%s' succeeds", p.substr(0, 40).c_str()); EXPECT(fds(a) <= a, "fd", "writing to '%s' leaves a descriptor", p.substr(0, 40).c_str()); }
    reset(); { Quiet q; int e = limited(RLIMIT_NOFILE, 0, [&] { return crefl_db_write_file(b.db, f.c_str()) != 0; }); CHECK(e == 1, "badpath", "out of descriptors: %d", e); }
    CHECK(slurp(f) == (had ? old : "<missing>"), "touched", "file changed though it was not opened"); h::evals();
    CHECK(snap(b.db) == before, "modifies", "writing changed the database"); h::cover(hash_str(want));
}

void f_read(Rng &r, uint64_t) {
    Dir d; Graph g = generate(r, random_opts(r, r.chance(1, 6) ? 60 : 5)); Built b = build(g); Db own(b.db); std::vector<uint8_t> im = image(b.db); std::string f = d / "f"; Snap want = snap(b.db);
    auto rd = [&](const std::string &p, std::string *out) { Db n(crefl_db_new()); size_t a = fds(); Snap s0 = snap(n.p); int e; { Quiet q; e = crefl_db_read_file(n.p, p.c_str()); } size_t z = fds(a); EXPECT(z <= a, "fd", "reading '%s' leaves a descriptor (%zu, %zu before)", p.substr(0, 40).c_str(), z, a); if (e == 0 && out) { std::vector<uint8_t> o = image(n.p); *out = std::string(o.begin(), o.end()); } h::evals(); (void)s0; return e; };
    std::string got; spill(f, im.data(), im.size()); CHECK(rd(f, &got) == 0 && got == std::string(im.begin(), im.end()), "read", "whole file not read back");
    size_t step = im.size() > 400 ? im.size() / 100 : 1;
    for (size_t k = 0; k < im.size(); k += 1 + r.below(step)) { spill(f, im.data(), k); h::stat("truncations"); CHECK(rd(f, nullptr) != 0, "truncated", "%zu of %zu bytes accepted", k, im.size()); }
    // wrong magic; and the same verdict as for the same bytes in memory
    for (int i = 0; i < 6; i++) { std::vector<uint8_t> x = im; if (i < 2) x[r.below(8)] ^= (uint8_t)(1u << r.below(8)); else if (i < 4) x[r.below(20)] ^= (uint8_t)(1u << r.below(8)); else x[r.below(x.size())] = (uint8_t)r.u64();
        spill(f, x.data(), x.size()); std::string a; int e = rd(f, &a); Db m(crefl_db_new()); int e2 = crefl_db_read_mem(m.p, x.data(), x.size()); CHECK((e == 0) == (e2 == 0), "differs", "file %d, memory %d", e, e2); if (i < 2) CHECK(e != 0, "magic", "wrong magic accepted"); if (e == 0) { std::vector<uint8_t> o = image(m.p); CHECK(std::string(o.begin(), o.end()) == a, "differs", "file and memory give different databases"); } }
    mkdir((d / "sub").c_str(), 0700); symlink("l", (d / "l").c_str()); spill(d / "g", im.data(), im.size()); std::string longname(5000, 'n');
    for (std::string p : { std::string(""), d.d, d / "sub", d / "none", d / "g/x", d / "l", longname, std::string("/dev/null") }) CHECK(rd(p, nullptr) != 0, "badpath", "reading '%s' succeeds", p.substr(0, 40).c_str());
    { Quiet q; spill(f, im.data(), im.size()); CHECK(limited(RLIMIT_NOFILE, 0, [&] { decl_db *n = crefl_db_new(); return crefl_db_read_file(n, f.c_str()) != 0; }) == 1, "badpath", "out of descriptors"); }
    // without permission
    if (getuid() == 0) { Quiet q; chmod(f.c_str(), 0); pid_t p = fork(); if (p == 0) { if (setgid(65534) || setuid(65534)) _exit(1); decl_db *n = crefl_db_new(); _exit(crefl_db_read_file(n, f.c_str()) != 0 && crefl_db_write_file(b.db, f.c_str()) != 0 ? 1 : 0); } int st = 0; waitpid(p, &st, 0); h::stat("permission"); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1, "permission", "status %d", st); chmod(f.c_str(), 0600); }
    // fifo and directory contents are never waited for or guessed at: a file that was fine still is
    CHECK(rd(f, &got) == 0 && got == std::string(im.begin(), im.end()), "read", "file not read back after errors"); h::cover(hash_bytes(im.data(), im.size())); h::sample(h::fmt("%zu bytes", im.size()));
}

}
FAMILIES({ "write", 160, 6000, f_write }, { "read", 160, 6000, f_read })
