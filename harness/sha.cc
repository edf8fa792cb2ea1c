// C16: SHA-224/SHA-256. Records with digests computed by Python's hashlib (OpenSSL) are the
// oracle; the harness feeds them in arbitrary chunkings, interleaved contexts and reused contexts.
#define VF_AS_GB 12 // room to map the longest message; zero pages take no memory
#include "common.h"
#include <crefl/sha256.h>
struct Rec { std::vector<uint8_t> m; uint8_t d224[28], d256[32]; };
static std::vector<Rec> recs;
static void load()
{
    if (!recs.empty()) return;
    FILE *f = fopen(h::opt("file"), "rb"); if (!f) { perror("records"); exit(3); }
    uint32_t n;
    while (fread(&n, 4, 1, f) == 1) {
        Rec r; r.m.resize(n);
        if ((n && fread(r.m.data(), 1, n, f) != n) || fread(r.d224, 1, 28, f) != 28 || fread(r.d256, 1, 32, f) != 32) exit(3);
        recs.push_back(std::move(r));
    }
    fclose(f);
}
struct Run   // one digest computation in progress
{
    const Rec *r; bool small; sha256_ctx *c; size_t pos; std::string log;
    void start(Rng &g) { if (g.chance(1, 2)) memset(c, (int)g.below(256), sizeof *c); if (small) sha224_init(c); else sha256_init(c); pos = 0; log.clear(); }
    void step(Rng &g)
    {
        size_t left = r->m.size() - pos, n;
        switch (g.below(8)) {
        case 0: n = 0; break;
        case 1: n = 1; break;
        case 2: n = 64; break;
        case 3: n = 64 - (pos & 63); break;
        case 4: n = 63 + g.below(3); break;
        case 5: n = g.below(200); break;
        case 6: n = left; break;
        default: n = g.below(left + 1); break;
        }
        if (n > left) n = left;
        if (!n && g.chance(1, 3)) { sha256_update(c, nullptr, 0); h::stat("null_updates"); }
        else {
            // exact heap block at a chosen misalignment so that over-reads are caught
            size_t off = g.below(9); Block b(n + off); if (n) memcpy(b.p + off, r->m.data() + pos, n);
            if (small) sha224_update(c, b.p + off, n); else sha256_update(c, b.p + off, n);
            for (size_t i = 0; i < n; i++) if (b.p[off + i] != r->m[pos + i]) { h::viol("sha:input-modified", "update changed its input"); throw CaseFail(); }
        }
        pos += n; if (log.size() < 200) log += fmt("%zu,", n);
    }
    void finish()
    {
        size_t want = small ? 28 : 32; Block out(want + 16); memset(out.p, 0xC3, want + 16);
        Block tight(want);
        sha256_ctx copy = *c;
        if (small) { sha224_final(c, out.p); sha224_final(&copy, tight.p); } else { sha256_final(c, out.p); sha256_final(&copy, tight.p); }
        const uint8_t *ref = small ? r->d224 : r->d256;
        CHECK(!memcmp(out.p, ref, want), small ? "sha224:digest" : "sha256:digest", "len=%zu chunks=%s got=%s want=%s", r->m.size(), log.c_str(), hex(out.p, want).c_str(), hex(ref, want).c_str());
        CHECK(!memcmp(tight.p, ref, want), "sha:copied-context", "len=%zu", r->m.size());
        for (size_t i = want; i < want + 16; i++) CHECK(out.p[i] == 0xC3, "sha:output-overrun", "len=%zu byte %zu", r->m.size(), i);
        h::evals(); h::stat(small ? "sha224_digests" : "sha256_digests"); h::stat(fmt("tail_%s", r->m.size() % 64 < 56 ? "one_block" : "two_blocks"));
        h::cover(hash_str(log) ^ mix64(r->m.size() * 2 + small) ^ hash_bytes(r->m.data(), std::min<size_t>(64, r->m.size())));
    }
};
static void all(Rng &g, uint64_t i)   // every record, both algorithms, whole and random chunkings
{
    load(); const Rec &r = recs[i % recs.size()];
    for (int small = 0; small < 2; small++) {
        sha256_ctx *c = (sha256_ctx*)malloc(sizeof *c); Run u{&r, !!small, c, 0, ""};
        struct F { void *p; ~F() { free(p); } } f{c};
        u.start(g);
        { Block b(r.m); if (small) sha224_update(c, b.p, b.n); else sha256_update(c, b.p, b.n); u.pos = b.n; u.log = "whole"; }
        u.finish();
        for (int k = 0; k < 3; k++) { u.start(g); while (u.pos < r.m.size()) u.step(g); if (g.chance(1, 4)) u.step(g); u.finish(); }   // same context reused
    }
    if (i < 3) h::sample(fmt("%zu byte message, digests compared with hashlib", r.m.size()));
}
static void bytewise(Rng &g, uint64_t i)
{
    load(); const Rec &r = recs[g.below(recs.size())]; if (r.m.size() > 3000) return;
    size_t step = 1 + i % 70;
    for (int small = 0; small < 2; small++) {
        sha256_ctx c; Run u{&r, !!small, &c, 0, fmt("step%zu", step)}; std::string l = u.log; u.start(g); u.log = l;
        while (u.pos < r.m.size()) { size_t n = std::min(step, r.m.size() - u.pos); sha256_update(&c, r.m.data() + u.pos, n); u.pos += n; }
        u.finish();
    }
}
static void interleaved(Rng &g, uint64_t)
{
    load(); size_t n = 2 + g.below(4); std::vector<sha256_ctx> cs(n); std::vector<Run> us; std::vector<int> live;
    for (size_t i = 0; i < n; i++) { us.push_back(Run{&recs[g.below(recs.size())], g.chance(1, 2), &cs[i], 0, ""}); us[i].start(g); live.push_back((int)i); }
    while (!live.empty()) {
        size_t k = g.below(live.size()); Run &u = us[live[k]];
        if (u.pos == u.r->m.size()) { u.finish(); live.erase(live.begin() + k); h::stat("interleaved_contexts"); }
        else u.step(g);
    }
}
// messages whose length in bits or bytes does not fit 32 bits: zero bytes, digests from hashlib
static void big(Rng &, uint64_t i)
{
#ifndef VF_SAN
    std::string spec = h::opt("big"); size_t p = 0; std::vector<std::string> parts;   // len:one:d224:d256,...
    while (p < spec.size()) { size_t e = spec.find(',', p); if (e == std::string::npos) e = spec.size(); parts.push_back(spec.substr(p, e - p)); p = e + 1; }
    if (i >= parts.size()) return;
    std::string s = parts[i]; size_t a = s.find(':'), b = s.find(':', a + 1), c = s.find(':', b + 1);
    size_t len = strtoull(s.c_str(), 0, 10); bool one = s[a + 1] == '1', small = s[b + 1] == '4'; std::string want = s.substr(c + 1);
    size_t map = one ? len : (size_t)1 << 24;
    uint8_t *m = (uint8_t*)mmap(0, map, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { h::stat("big_skipped"); return; }
    sha256_ctx ctx; if (small) sha224_init(&ctx); else sha256_init(&ctx);
    for (size_t left = len; left; ) { size_t n = std::min(left, map); sha256_update(&ctx, m, n); left -= n; h::g_progress[1] = h::g_progress[1]; }
    uint8_t d[32]; sha256_final(&ctx, d); munmap(m, map);
    std::string got = hex(d, small ? 28 : 32);
    EXPECT(got == want, "sha:long-message", "%zu zero bytes one_update=%d: got %s want %s", len, one, got.c_str(), want.c_str());
    h::evals(); h::stat("long_messages"); h::cover(mix64(len));
#endif
}
FAMILIES({"all", 1200, 6000, all}, {"bytewise", 700, 20000, bytewise}, {"interleaved", 1500, 60000, interleaved}, {"big", 4, 8, big})
