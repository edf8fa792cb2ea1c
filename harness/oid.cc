// C14: object identifiers between text, arcs, DER and names
#include "asn1ref.h"
#include <crefl/oid.h>

static const struct { const char *der, *names; } registry[] = {
#include "oids.inc"
};
static std::set<std::string> &known()
{
    static std::set<std::string> s;
    if (s.empty()) {
        for (auto &e : registry) s.insert(e.der);
        // identifiers the tree's own data file adds
        std::string extra = h::opt("extra"); size_t i = 0; while (i < extra.size()) { size_t j = extra.find(',', i); if (j == std::string::npos) j = extra.size(); s.insert(extra.substr(i, j - i)); i = j + 1; }
    }
    return s;
}
static std::vector<uint64_t> gen_arcs(Rng &r, size_t n)
{
    std::vector<uint64_t> a; const uint64_t top = (1ull << 56) - 1;
    a.push_back(r.below(3));
    for (size_t i = 1; i < n; i++) {
        uint64_t v = gen_tag(r);
        if (i == 1 && a[0] < 2) v = r.chance(1, 3) ? 39 : r.chance(1, 3) ? 0 : r.below(40);
        else if (i == 1) { if (r.chance(1, 2)) { static const uint64_t k[] = { 0, 1, 39, 40, 47, 48, 79, 80, 100, 127, 128, 999, 16303, 16304 }; v = k[r.below(14)]; } if (v > top - 80) v = top - 80; }
        a.push_back(v);
    }
    return a;
}
static std::string dotted(const std::vector<uint64_t> &a) { std::string s; for (size_t i = 0; i < a.size(); i++) s += (i ? "." : "") + std::to_string(a[i]); return s; }
static asn1_oid make(const std::vector<uint64_t> &a) { asn1_oid o; memset(&o, 0xee, sizeof o); o.count = a.size(); for (size_t i = 0; i < a.size(); i++) o.oid[i] = a[i]; return o; }
static bool eq(const asn1_oid &o, const std::vector<uint64_t> &a) { if (o.count != a.size()) return false; for (size_t i = 0; i < a.size(); i++) if (o.oid[i] != a[i]) return false; return true; }

static void check(Rng &r, const std::vector<uint64_t> &a)
{
    std::string s = dotted(a); asn1_oid o = make(a); bytes c = ref::oid(a), want = ref::tlv(6, c); h::cover(hash_bytes(c.data(), c.size()));
    size_t n = crefl_asn1_ber_oid_length(&o);
    CHECK(n == c.size(), "oid:length", "%s predicted %zu want %zu", s.c_str(), n, c.size());
    Block b(c.size() + r.below(3)), d(want.size() + r.below(3)); crefl_buf q = mkbuf(b), dq = mkbuf(d);
    CHECK(crefl_asn1_ber_oid_write(&q, n, &o) == 0, "oid:ber_write", "%s", s.c_str()); written_is(b, q.data_offset, c, "oid:ber_bytes", s.c_str());
    CHECK(crefl_asn1_der_oid_write(&dq, asn1_tag_object_identifier, &o) == 0, "oid:der_write", "%s", s.c_str()); written_is(d, dq.data_offset, want, "oid:der_bytes", s.c_str());
    Block bi(c), di(want); crefl_buf bq = mkbuf(bi), eqb = mkbuf(di); asn1_oid x, y; memset(&x, 0xdd, sizeof x); memset(&y, 0xdd, sizeof y);
    CHECK(crefl_asn1_ber_oid_read(&bq, c.size(), &x) == 0 && eq(x, a) && bq.data_offset == c.size(), "oid:ber_read", "%s from %s", s.c_str(), hex(c).c_str());
    CHECK(crefl_asn1_der_oid_read(&eqb, asn1_tag_object_identifier, &y) == 0 && eq(y, a) && eqb.data_offset == want.size(), "oid:der_read", "%s from %s", s.c_str(), hex(want).c_str());
    // text, into every kind of buffer
    for (int k = 0; k < 3; k++) {
        size_t cap = k == 0 ? s.size() + 1 : k == 1 ? s.size() + 1 + r.below(50) : r.below(s.size() + 1); Block t(cap); size_t len = cap;
        CHECK(crefl_asn1_oid_to_string((char*)t.p, &len, &o) == 0, "oid:to_string", "%s", s.c_str());
        CHECK(len == s.size(), "oid:to_string_length", "%s reported %zu", s.c_str(), len);
        if (cap > s.size()) CHECK(std::string((char*)t.p) == s, "oid:to_string_text", "%s became %s", s.c_str(), (char*)t.p);
        else if (cap) { size_t m = strnlen((char*)t.p, cap); CHECK(m < cap && s.compare(0, m, (char*)t.p) == 0, "oid:to_string_cut", "%s in %zu", s.c_str(), cap); }
    }
    { size_t len = 0; CHECK(crefl_asn1_oid_to_string(nullptr, &len, &o) == 0 && len == s.size(), "oid:to_string_size", "%s asked %zu", s.c_str(), len); }
    Block t(bytes(s.begin(), s.end())); asn1_oid z; memset(&z, 0xdd, sizeof z);
    CHECK(crefl_asn1_oid_from_string(&z, (char*)t.p, t.n) == 0 && eq(z, a), "oid:from_string", "%s gave %llu arcs", s.c_str(), z.count);
    h::evals(5); h::stat("identifiers"); h::stat(fmt("arcs:%02zu", a.size()));
}
static void random_ids(Rng &r, uint64_t) { for (int i = 0; i < 60; i++) { auto a = gen_arcs(r, 2 + r.below(14)); check(r, a); if (i == 1 && h::g_case % 200 == 0) h::sample(dotted(a) + " " + hex(ref::oid(a))); } }
static void first_arcs(Rng &r, uint64_t k)
{
    for (uint64_t y = 0; y < 200; y++) { if (k < 2 && y >= 40) break; check(r, { k, y }); check(r, { k, y, 3 }); check(r, { k, y, 840, 113549, 1, 1 }); }
}
// text that is no identifier, and identifiers that do not fit
static void malformed(Rng &r, uint64_t)
{
    for (int it = 0; it < 60; it++) {
        std::vector<uint64_t> a = gen_arcs(r, 2 + r.below(14)); std::string s = dotted(a); bool bad = true; 
        switch (r.below(10)) {
        case 0: s.insert(r.below(s.size() + 1), 1, " -+ax/:,;\t\n"[r.below(11)]); break;
        case 1: s.insert(r.below(s.size() + 1), 1, '\0'); break;
        case 2: s += "."; break;
        case 3: s = "." + s; break;
        case 4: { size_t p = s.find('.'); s.insert(p, "."); break; }
        case 5: s += "." + std::to_string((1ull << 56) + (r.next() >> 8) * r.below(200)); break;
        case 6: s += ".99999999999999999999" + std::to_string(r.next()); break;
        case 7: while (a.size() <= 15) a.push_back(gen_tag(r)); while (r.below(2)) a.push_back(1); s = dotted(a); break;
        case 8: s += std::string(1, (char)(128 + r.below(128))); break;
        default: { std::string t = s; t[r.below(t.size())] = (char)r.next(); bad = false; for (char c : t) if (!(isdigit((unsigned char)c) || c == '.')) bad = true; s = t; }
        }
        Block t(bytes(s.begin(), s.end())); asn1_oid o; memset(&o, 0xdd, sizeof o); bool ok = crefl_asn1_oid_from_string(&o, (char*)t.p, t.n) == 0; h::cover(hash_str(s));
        std::string shown = s; for (auto &c : shown) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
        if (bad) CHECK(!ok, "text:accepts_malformed", "'%s'", shown.c_str()); else if (ok) CHECK(o.count <= 15, "text:count", "'%s'", shown.c_str());
        h::stat(ok ? "text_accepted" : "text_refused"); h::evals();
    }
}
static std::string unhex(const std::string &x) { std::string s; for (size_t i = 0; i + 1 < x.size(); i += 2) s += (char)strtol(x.substr(i, 2).c_str(), 0, 16); return s; }
static const char* desc(const std::string &der) { Block b(bytes(der.begin(), der.end())); return crefl_asn1_oid_desc((const char*)b.p, b.n); }
static bool names(const std::string &list, const char *n) { std::string s = "|" + list + "|"; return n && *n && s.find("|" + std::string(n) + "|") != std::string::npos; }
// the whole registry, and its neighbourhood: every prefix, extension and one-octet change
static void lookup(Rng &r, uint64_t k)
{
    size_t n = sizeof(registry) / sizeof(registry[0]);
    for (size_t i = k; i < n; i += 64) {
        std::string der = unhex(registry[i].der); const char *d = desc(der);
        CHECK(names(registry[i].names, d), "registry:name", "%s is '%s', registered as %s", registry[i].der, d ? d : "(null)", registry[i].names); std::string first = d;
        std::vector<uint64_t> a; CHECK(ref::oid_arcs((const uint8_t*)der.data(), der.size(), a) == ref::ACCEPT, "registry:data", "%s", registry[i].der); if (a.size() <= 15) check(r, a);
        std::vector<std::string> near; near.push_back(der + '\0'); near.push_back(der + "\1"); near.push_back(std::string(1, '\0') + der);
        for (size_t m = 0; m < der.size(); m++) near.push_back(der.substr(0, m));
        for (int j = 0; j < 12; j++) { std::string t = der; t[r.below(t.size())] ^= (char)(1 << r.below(8)); near.push_back(t); t = der; t[t.size() - 1] = (char)(t[t.size() - 1] + r.range(-3, 3)); near.push_back(t); }
        for (auto &t : near) { std::string x = hex(t.data(), t.size()); if (known().count(x)) continue; const char *e = desc(t); CHECK(e && !*e, "registry:stray", "%s is '%s' but is not registered", x.c_str(), e); h::stat("unregistered_lookups"); }
        CHECK(first == desc(der), "registry:stable", "%s", registry[i].der); h::stat("registered_lookups"); h::evals(2 + near.size());
    }
}
static void lookup_random(Rng &r, uint64_t) { for (int i = 0; i < 100; i++) { bytes b = r.bytes(r.below(30)); if (r.chance(1, 2)) b = ref::oid(gen_arcs(r, 2 + r.below(12))); std::string t(b.begin(), b.end()); if (known().count(hex(b))) continue; const char *e = desc(t); CHECK(e && !*e, "registry:stray", "%s is '%s'", hex(b).c_str(), e); h::stat("unregistered_lookups"); h::evals(); } }
FAMILIES({ "random", 1200, 150000, random_ids }, { "first", 3, 3, first_arcs }, { "malformed", 1000, 100000, malformed }, { "lookup", 64, 64, lookup }, { "lookup_random", 100, 5000, lookup_random })
