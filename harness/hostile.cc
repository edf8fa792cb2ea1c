// C09: arbitrary bytes given to every ASN.1 reader. The reference decoder says whether the bytes
// must be accepted, must be refused, or may be either; what is accepted must have its value and
// must consume exactly its bytes.
#include "asn1ref.h"
using ref::Cur; using ref::Verdict; using ref::ACCEPT; using ref::REJECT; using ref::EITHER;

// a piece of input: random bytes, or a well-formed element that is then damaged
static bytes element(Rng &r, uint64_t tag)
{
    bytes c;
    switch (tag == 1 ? 0 : tag == 2 ? 1 : tag == 9 ? 2 : tag == 6 ? 3 : tag == 5 ? 4 : r.below(6)) {
    case 0: c = { (uint8_t)(r.below(2) ? 255 : r.below(256)) }; break;
    case 1: c = r.below(2) ? ref::s64be((int64_t)r.u64()) : ref::u64be(r.u64()); if (r.chance(1, 4)) c.insert(c.begin(), r.below(4), r.below(2) ? 0 : 255); break;
    case 2: c = ref::real(gen_f64(r)); break;
    case 3: { std::vector<uint64_t> a{ r.below(3), r.below(40) }; for (size_t n = r.below(r.chance(1, 8) ? 18 : 6); n; n--) a.push_back(gen_tag(r)); c = ref::oid(a); break; }
    case 4: break;
    default: c = r.bytes(r.below(r.chance(1, 10) ? 300 : 20));
    }
    bytes b = ref::ident(r.chance(1, 12) ? (unsigned)r.below(4) : 0, r.chance(1, 12), r.chance(1, 12) ? gen_tag(r) : tag);
    uint64_t n = c.size();
    switch (r.below(16)) {
    case 0: n = r.u64(); break;
    case 1: n += r.below(4); break;
    case 2: n -= std::min<uint64_t>(n, r.below(4)); break;
    default: break;
    }
    bytes l = ref::length(n);
    switch (r.below(16)) {
    case 0: l = { 0x80 }; break;                       // indefinite
    case 1: { bytes be; for (int i = 7; i >= 0; i--) be.push_back((uint8_t)(n >> (8 * i))); unsigned k = 1 + (unsigned)r.below(12);
              while (be.size() < k) be.insert(be.begin(), r.chance(1, 4) ? (uint8_t)r.next() : 0); be.erase(be.begin(), be.end() - k); be.insert(be.begin(), (uint8_t)(0x80 | k)); l = be; break; }
    case 2: l = { (uint8_t)(0x80 | r.below(128)) }; ref::put(l, r.bytes(r.below(12))); break;
    default: break;
    }
    ref::put(b, l); ref::put(b, c);
    return b;
}
static void damage(Rng &r, bytes &b)
{
    for (unsigned k = (unsigned)r.below(3); k; k--) {
        switch (r.below(6)) {
        case 0: if (!b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); break;
        case 1: if (!b.empty()) b[r.below(b.size())] = (uint8_t)(r.below(2) ? 255 : r.below(2) ? 128 : r.next()); break;
        case 2: b.resize(r.below(b.size() + 1)); break;
        case 3: if (!b.empty()) b.erase(b.begin() + r.below(b.size())); break;
        case 4: b.insert(b.begin() + r.below(b.size() + 1), (uint8_t)r.next()); break;
        default: { bytes x = r.bytes(r.below(6)); ref::put(b, x); }
        }
    }
}
static bytes gen(Rng &r, uint64_t tag)
{
    bytes b;
    if (r.chance(1, 6)) {
        b = r.bytes(r.below(24));
        if (!b.empty() && r.chance(3, 4)) b[0] = (uint8_t)tag;
        if (b.size() > 1 && r.chance(1, 2)) b[1] = (uint8_t)r.below(12);
    } else { b = element(r, tag); if (r.chance(1, 2)) damage(r, b); }
    return b;
}
static const char *vname(Verdict v) { return v == ACCEPT ? "accept" : v == REJECT ? "reject" : "either"; }
static void judge(Verdict v, bool ok, const std::string &key, const bytes &b)
{
    h::evals(); h::stat(fmt("%s:%s", vname(v), ok ? "taken" : "refused"));
    CHECK(!(v == ACCEPT && !ok), key + ":refuses_valid", "%s", hex(b).c_str());
    CHECK(!(v == REJECT && ok), key + ":accepts_invalid", "%s", hex(b).c_str());
}

// DER readers on whole elements
static void der(Rng &r, uint64_t)
{
    static const uint64_t tags[] = { 1, 2, 4, 5, 6, 9 };
    for (int it = 0; it < 60; it++) {
        uint64_t tag = tags[r.below(6)]; if (r.chance(1, 20)) tag = r.below(31);
        bytes b = gen(r, r.chance(1, 30) ? tags[r.below(6)] : tag); asn1_tag t = (asn1_tag)tag;
        h::cover(hash_bytes(b.data(), b.size(), tag));
        Cur c{ b.data(), b.size(), 0 }; uint64_t len = 0; Verdict hv = ref::rd_hdr(c, tag, len);
        const uint8_t *p = b.data() + c.o; size_t end = c.o + (hv == REJECT ? 0 : (size_t)len);
        Block in(b);
        { // boolean
            Verdict v = hv == REJECT || len != 1 ? REJECT : hv; crefl_buf q = mkbuf(in); bool x = false; bool ok = crefl_asn1_der_boolean_read(&q, t, &x) == 0; judge(v, ok, "der:boolean", b);
            if (ok) CHECK(x == (p[0] != 0) && q.data_offset == end, "der:boolean:value", "%s", hex(b).c_str());
        }
        { // unsigned
            uint64_t w = 0; Verdict v = hv == REJECT ? REJECT : ref::worse(hv, ref::int_u64(p, len, w));
            crefl_buf q = mkbuf(in); u64 x = 1; bool ok = crefl_asn1_der_integer_u64_read(&q, t, &x) == 0; judge(v, ok, "der:u64", b);
            if (ok) CHECK(x == w && q.data_offset == end, "der:u64:value", "%s read as %llx", hex(b).c_str(), x);
            crefl_buf q2 = mkbuf(in); u64_result y = crefl_asn1_der_integer_u64_read_byval(&q2, t);
            CHECK((y.error == 0) == ok && (!ok || (y.value == x && q2.data_offset == q.data_offset)), "der:u64:byval", "%s", hex(b).c_str());
        }
        { // signed
            int64_t w = 0; Verdict v = hv == REJECT ? REJECT : ref::worse(hv, ref::int_s64(p, len, w));
            crefl_buf q = mkbuf(in); s64 x = 1; bool ok = crefl_asn1_der_integer_s64_read(&q, t, &x) == 0; judge(v, ok, "der:s64", b);
            if (ok) CHECK(x == w && q.data_offset == end, "der:s64:value", "%s read as %llx", hex(b).c_str(), x);
            crefl_buf q2 = mkbuf(in); s64_result y = crefl_asn1_der_integer_s64_read_byval(&q2, t);
            CHECK((y.error == 0) == ok && (!ok || (y.value == x && q2.data_offset == q.data_offset)), "der:s64:byval", "%s", hex(b).c_str());
        }
        { // octets
            Block d(r.chance(1, 2) ? (size_t)std::min<uint64_t>(len, 400) : r.below(30)); bool null = r.chance(1, 5); size_t cap = null ? r.below(1000) : d.n;
            asn1_string s = { cap, null ? nullptr : d.p }; crefl_buf q = mkbuf(in); bool ok = crefl_asn1_der_octets_read(&q, t, &s) == 0; judge(hv, ok, "der:octets", b);
            if (ok) { CHECK(s.count == len && q.data_offset == end, "der:octets:count", "%s", hex(b).c_str());
                size_t m = std::min<uint64_t>(cap, len); if (!null) CHECK(m == 0 || memcmp(d.p, p, m) == 0, "der:octets:value", "%s", hex(b).c_str()); 
                for (size_t i = m; !null && i < d.n; i++) CHECK(d.p[i] == 0xA5, "der:octets:excess", "%s", hex(b).c_str()); }
        }
        { // null
            Verdict v = hv == REJECT || len ? REJECT : hv; crefl_buf q = mkbuf(in); bool ok = crefl_asn1_der_null_read(&q, t) == 0; judge(v, ok, "der:null", b);
            if (ok) CHECK(q.data_offset == end, "der:null:consumed", "%s", hex(b).c_str());
        }
        { // object identifier
            std::vector<uint64_t> w; Verdict v = hv == REJECT ? REJECT : ref::worse(hv, ref::oid_arcs(p, len, w)); asn1_oid o; memset(&o, 0xee, sizeof o);
            crefl_buf q = mkbuf(in); bool ok = crefl_asn1_der_oid_read(&q, t, &o) == 0; judge(v, ok, "der:oid", b);
            if (ok) { CHECK(o.count == w.size() && q.data_offset == end, "der:oid:count", "%s count %llu", hex(b).c_str(), o.count); for (size_t i = 0; i < w.size(); i++) CHECK(o.oid[i] == w[i], "der:oid:value", "%s", hex(b).c_str()); }
        }
        { // real: the value is C10's business
            crefl_buf q = mkbuf(in), q2 = mkbuf(in); double x = 1; bool ok = crefl_asn1_der_real_f64_read(&q, t, &x) == 0; f64_result y = crefl_asn1_der_real_f64_read_byval(&q2, t);
            judge(hv == REJECT ? REJECT : EITHER, ok, "der:real", b); CHECK((y.error == 0) == ok && (!ok || same(x, y.value)), "der:real:byval", "%s", hex(b).c_str());
            if (ok) CHECK(q.data_offset == end && q2.data_offset == end, "der:real:consumed", "%s", hex(b).c_str());
        }
        if (h::g_case % 101 == 0 && it < 3) h::sample(fmt("tag %llu input %s header %s", (unsigned long long)tag, hex(b).c_str(), vname(hv)));
    }
}
// BER readers of the parts, with a length given by the caller
static void ber(Rng &r, uint64_t)
{
    for (int it = 0; it < 80; it++) {
        bytes b; 
        if (r.chance(1, 2)) b = r.bytes(r.below(14));
        else { size_t n = r.below(14); for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(r.chance(2, 3) ? 0x80 | r.below(128) : r.next())); }
        if (r.chance(1, 6)) b.insert(b.begin(), 0x1f | (uint8_t)(r.below(8) << 5));
        if (r.chance(1, 6)) b.insert(b.begin(), 0x80 | (uint8_t)r.below(11));
        size_t off = r.below(b.size() + 1) * r.below(2); h::cover(hash_bytes(b.data(), b.size(), off));
        Block in(b); crefl_buf q = mkbuf(in); const uint8_t *p = b.data(); std::string hx = hex(b) + fmt("@%zu", off);
        {   q.data_offset = off; u64 v = 1; Cur c{ p, b.size(), off }; uint64_t w; Verdict x = ref::rd_base128(c, w); bool ok = crefl_asn1_ber_tag_read(&q, &v) == 0; judge(x, ok, "ber:tag", b);
            if (ok) CHECK(v == w && q.data_offset == c.o, "ber:tag:value", "%s read as %llx", hx.c_str(), v); }
        {   q.data_offset = off; asn1_id v; memset(&v, 0xff, sizeof v); Cur c{ p, b.size(), off }; unsigned cl; bool cn; uint64_t tg; Verdict x = ref::rd_ident(c, cl, cn, tg); bool ok = crefl_asn1_ber_ident_read(&q, &v) == 0; judge(x, ok, "ber:ident", b);
            if (ok) CHECK(v._class == cl && v._constructed == cn && v._identifier == tg && q.data_offset == c.o, "ber:ident:value", "%s", hx.c_str()); }
        {   q.data_offset = off; u64 v = 1; Cur c{ p, b.size(), off }; uint64_t w; Verdict x = ref::rd_length(c, w); bool ok = crefl_asn1_ber_length_read(&q, &v) == 0; judge(x, ok, "ber:length", b);
            if (ok) CHECK(v == w && q.data_offset == c.o, "ber:length:value", "%s read as %llx", hx.c_str(), v); }
        // contents of a given length: shorter, equal and longer than what is left, and absurd
        size_t rest = b.size() - off, len = r.chance(1, 8) ? (size_t)r.u64() : r.chance(1, 8) ? rest + 1 + r.below(4) : r.below(rest + 1); bool fits = len <= rest; p += off;
        {   q.data_offset = off; bool v = false, ok = crefl_asn1_ber_boolean_read(&q, len, &v) == 0; judge(fits && len == 1 ? ACCEPT : REJECT, ok, "ber:boolean", b); if (ok) CHECK(v == (p[0] != 0) && q.data_offset == off + 1, "ber:boolean:value", "%s", hx.c_str()); }
        for (int bv = 0; bv < 2; bv++) { q.data_offset = off; u64 v = 1; uint64_t w = 0; bool ok; if (bv) { u64_result z = crefl_asn1_ber_integer_u64_read_byval(&q, len); ok = z.error == 0; v = z.value; } else ok = crefl_asn1_ber_integer_u64_read(&q, len, &v) == 0;
            judge(fits ? ref::int_u64(p, len, w) : REJECT, ok, bv ? "ber:u64_byval" : "ber:u64", b); if (ok) CHECK(v == w && q.data_offset == off + len, "ber:u64:value", "%s len %zu read as %llx", hx.c_str(), len, v); }
        for (int bv = 0; bv < 2; bv++) { q.data_offset = off; s64 v = 1; int64_t w = 0; bool ok; if (bv) { s64_result z = crefl_asn1_ber_integer_s64_read_byval(&q, len); ok = z.error == 0; v = z.value; } else ok = crefl_asn1_ber_integer_s64_read(&q, len, &v) == 0;
            judge(fits ? ref::int_s64(p, len, w) : REJECT, ok, bv ? "ber:s64_byval" : "ber:s64", b); if (ok) CHECK(v == w && q.data_offset == off + len, "ber:s64:value", "%s len %zu read as %llx", hx.c_str(), len, v); }
        {   q.data_offset = off; std::vector<uint64_t> w; asn1_oid o; bool ok = crefl_asn1_ber_oid_read(&q, len, &o) == 0; Verdict x = !fits ? (len ? REJECT : EITHER) : ref::oid_arcs(p, len, w);
            judge(x, ok, "ber:oid", b); if (ok) { CHECK(o.count == w.size() && q.data_offset == off + len, "ber:oid:count", "%s len %zu", hx.c_str(), len); for (size_t i = 0; i < w.size(); i++) CHECK(o.oid[i] == w[i], "ber:oid:value", "%s", hx.c_str()); } }
        {   q.data_offset = off; Block d(r.below(20)); asn1_string s = { d.n, d.p }; bool ok = crefl_asn1_ber_octets_read(&q, len, &s) == 0; judge(fits ? ACCEPT : REJECT, ok, "ber:octets", b);
            if (ok) { size_t m = std::min(d.n, len); CHECK(s.count == len && q.data_offset == off + len && (m == 0 || memcmp(d.p, p, m) == 0), "ber:octets:value", "%s", hx.c_str()); } }
        {   q.data_offset = off; bool ok = crefl_asn1_ber_null_read(&q, len) == 0; judge(len == 0 ? ACCEPT : REJECT, ok, "ber:null", b); }
        for (int bv = 0; bv < 2; bv++) { q.data_offset = off; double x; bool ok; if (bv) ok = crefl_asn1_ber_real_f64_read_byval(&q, len).error == 0; else ok = crefl_asn1_ber_real_f64_read(&q, len, &x) == 0; judge(fits && len ? EITHER : REJECT, ok, "ber:real", b); if (ok) CHECK(q.data_offset == off + len, "ber:real:consumed", "%s len %zu", hx.c_str(), len); }
    }
}
// walk a damaged stream the way a consumer does: header, then contents by tag, until the end or an error
static void walk(Rng &r, uint64_t)
{
    bytes b; for (size_t n = 1 + r.below(8); n; n--) { static const uint64_t tags[] = { 1, 2, 4, 5, 6, 9, 16, 17, 12, 100 }; ref::put(b, element(r, tags[r.below(10)])); }
    damage(r, b); Block in(b); crefl_buf q = mkbuf(in); size_t steps = 0; h::cover(hash_bytes(b.data(), b.size()));
    while (q.data_offset < q.data_size && steps < b.size() + 2) {
        size_t at = q.data_offset; asn1_id id; u64 len; steps++;
        if (crefl_asn1_ber_ident_read(&q, &id) < 0 || crefl_asn1_ber_length_read(&q, &len) < 0) break;
        CHECK(q.data_offset > at && q.data_offset <= q.data_size, "walk:progress", "%s at %zu", hex(b).c_str(), at);
        size_t c0 = q.data_offset; int rc = 0; bool bo; u64 u; double d; asn1_oid o; Block db(8); asn1_string s = { db.n, db.p };
        switch (id._identifier) {
        case 1: rc = crefl_asn1_ber_boolean_read(&q, len, &bo); break;
        case 2: rc = crefl_asn1_ber_integer_u64_read(&q, len, &u); break;
        case 5: rc = crefl_asn1_ber_null_read(&q, len); break;
        case 6: rc = crefl_asn1_ber_oid_read(&q, len, &o); break;
        case 9: rc = crefl_asn1_ber_real_f64_read(&q, len, &d); break;
        case 16: case 17: if (id._constructed && len <= q.data_size - c0) { h::stat("walk_entered"); continue; } 
        default: rc = crefl_asn1_ber_octets_read(&q, len, &s);
        }
        CHECK(q.data_offset <= q.data_size, "walk:beyond", "%s at %zu", hex(b).c_str(), at);
        if (rc < 0) { h::stat("walk_stopped"); break; }
        CHECK(q.data_offset == c0 + len, "walk:consumed", "%s at %zu", hex(b).c_str(), at);
        h::stat("walk_elements");
    }
    h::evals();
}
// every input of one and two bytes, and every header of three
static void small(Rng &, uint64_t k)
{
    uint8_t b0 = (uint8_t)k; 
    for (int n = 1; n <= 3; n++) for (int x = 0; x < (n == 1 ? 1 : n == 2 ? 256 : 65536); x += n == 3 ? 1 : 1) {
        if (n == 3 && (x & 0xff) % 5 && (x >> 8) % 3) continue;
        bytes b{ b0 }; if (n > 1) b.push_back((uint8_t)x); if (n > 2) { b[1] = (uint8_t)(x >> 8); b.push_back((uint8_t)x); }
        Block in(b); crefl_buf q = mkbuf(in); asn1_id v; Cur c{ b.data(), b.size(), 0 }; unsigned cl; bool cn; uint64_t tg, w;
        Verdict e = ref::rd_ident(c, cl, cn, tg); bool ok = crefl_asn1_ber_ident_read(&q, &v) == 0; judge(e, ok, "small:ident", b); if (ok) CHECK(v._identifier == tg && v._class == cl && v._constructed == cn && q.data_offset == c.o, "small:ident:value", "%s", hex(b).c_str());
        q.data_offset = 0; c.o = 0; u64 l; e = ref::rd_length(c, w); ok = crefl_asn1_ber_length_read(&q, &l) == 0; judge(e, ok, "small:length", b); if (ok) CHECK(l == w && q.data_offset == c.o, "small:length:value", "%s", hex(b).c_str());
        q.data_offset = 0; Verdict hv; { c.o = 0; hv = ref::rd_hdr(c, 1, w); } bool bo; ok = crefl_asn1_der_boolean_read(&q, asn1_tag_boolean, &bo) == 0; judge(hv == REJECT || w != 1 ? REJECT : hv, ok, "small:boolean", b);
        q.data_offset = 0; { c.o = 0; hv = ref::rd_hdr(c, 5, w); } ok = crefl_asn1_der_null_read(&q, asn1_tag_null) == 0; judge(hv == REJECT || w ? REJECT : hv, ok, "small:null", b);
    }
    h::cover(mix64(k)); h::stat("small_prefixes");
}
FAMILIES({ "der", 3000, 200000, der }, { "ber", 2000, 150000, ber }, { "walk", 20000, 1000000, walk }, { "small", 256, 256, small })
