// C08: DER primitives encode in the predicted, shortest form and decode to the encoded value
#include "asn1ref.h"

static void ident(Rng &r, uint64_t)
{
    for (int i = 0; i < 200; i++) {
        unsigned cls = (unsigned)r.below(4); bool con = r.below(2); uint64_t tag = gen_tag(r);
        bytes want = ref::ident(cls, con, tag);
        size_t slack = r.below(3);
        asn1_id id = mkid(cls, con, tag);
        CHECK(crefl_asn1_ber_ident_length(id) == want.size(), "ident:length", "tag %llu predicted %zu want %zu", (unsigned long long)tag, crefl_asn1_ber_ident_length(id), want.size());
        Block b(want.size() + slack); crefl_buf k = mkbuf(b);
        CHECK(crefl_asn1_ber_ident_write(&k, id) == 0, "ident:write", "class %u con %d tag %llu", cls, con, (unsigned long long)tag);
        written_is(b, k.data_offset, want, "ident:bytes", "ident_write");
        Block in(want); crefl_buf q = mkbuf(in); asn1_id got; memset(&got, 0xff, sizeof got);
        CHECK(crefl_asn1_ber_ident_read(&q, &got) == 0, "ident:read", "%s refused", hex(want).c_str());
        CHECK(got._class == cls && got._constructed == con && got._identifier == tag, "ident:value", "%s read as class %u con %u tag %llu", hex(want).c_str(), (unsigned)got._class, (unsigned)got._constructed, (unsigned long long)got._identifier);
        CHECK(q.data_offset == want.size(), "ident:consumed", "%s consumed %zu", hex(want).c_str(), q.data_offset);
        // the bare tag codec under it
        bytes tw = ref::base128(tag); Block tb(tw.size() + slack); crefl_buf tk = mkbuf(tb); u64 tv = 0;
        CHECK(crefl_asn1_ber_tag_length(tag) == tw.size(), "tag:length", "tag %llu predicted %zu", (unsigned long long)tag, crefl_asn1_ber_tag_length(tag));
        CHECK(crefl_asn1_ber_tag_write(&tk, tag) == 0, "tag:write", "tag %llu", (unsigned long long)tag);
        written_is(tb, tk.data_offset, tw, "tag:bytes", "tag_write");
        Block ti(tw); crefl_buf tq = mkbuf(ti);
        CHECK(crefl_asn1_ber_tag_read(&tq, &tv) == 0 && tv == tag && tq.data_offset == tw.size(), "tag:read", "%s read as %llu", hex(tw).c_str(), (unsigned long long)tv);
        // a tag that does not fit in 56 bits has no encoding here
        uint64_t big = (1ull << 56) + (r.next() >> 8) * (r.below(255)); if (big < (1ull << 56)) big |= 1ull << 63;
        Block bb(16); crefl_buf bk = mkbuf(bb);
        CHECK(crefl_asn1_ber_tag_write(&bk, big) != 0, "tag:toobig", "tag %llx written as %s", (unsigned long long)big, hex(bb.p, bk.data_offset).c_str());
        h::evals(3); h::stat("identifiers"); h::cover(hash_bytes(want.data(), want.size()));
    }
}
static void length(Rng &r, uint64_t)
{
    for (int i = 0; i < 200; i++) {
        uint64_t n = r.u64(); bytes want = ref::length(n); Block b(want.size() + r.below(3)); crefl_buf k = mkbuf(b);
        CHECK(crefl_asn1_ber_length_length(n) == want.size(), "length:length", "%llx predicted %zu", (unsigned long long)n, crefl_asn1_ber_length_length(n));
        CHECK(crefl_asn1_ber_length_write(&k, n) == 0, "length:write", "%llx", (unsigned long long)n);
        written_is(b, k.data_offset, want, "length:bytes", "length_write");
        Block in(want); crefl_buf q = mkbuf(in); u64 got = ~n;
        CHECK(crefl_asn1_ber_length_read(&q, &got) == 0 && got == n && q.data_offset == want.size(), "length:read", "%s read as %llx", hex(want).c_str(), (unsigned long long)got);
        h::evals(); h::stat("lengths"); h::cover(hash_bytes(want.data(), want.size(), 3));
    }
}
static void integer(Rng &r, uint64_t)
{
    for (int i = 0; i < 150; i++) {
        u64 v = r.u64(); s64 s = (s64)v; asn1_tag tag = (asn1_tag)(r.chance(1, 2) ? 2 : r.below(31));
        for (int sg = 0; sg < 2; sg++) {
            bytes c = sg ? ref::s64be(s) : ref::u64be(v), want = ref::tlv(tag, c); size_t n = c.size();
            size_t p1 = sg ? crefl_asn1_ber_integer_s64_length(&s) : crefl_asn1_ber_integer_u64_length(&v);
            size_t p2 = sg ? crefl_asn1_ber_integer_s64_length_byval(s) : crefl_asn1_ber_integer_u64_length_byval(v);
            const char *nm = sg ? "s64" : "u64";
            CHECK(p1 == n && p2 == n, std::string("integer:length:") + nm, "%llx predicted %zu/%zu, want %zu", (unsigned long long)v, p1, p2, n);
            for (int byval = 0; byval < 2; byval++) {
                std::string key = fmt("integer:%s%s:", nm, byval ? "_byval" : "");
                Block b(n + r.below(3)); crefl_buf k = mkbuf(b);
                int rc = sg ? (byval ? crefl_asn1_ber_integer_s64_write_byval(&k, n, s) : crefl_asn1_ber_integer_s64_write(&k, n, &s))
                            : (byval ? crefl_asn1_ber_integer_u64_write_byval(&k, n, v) : crefl_asn1_ber_integer_u64_write(&k, n, &v));
                CHECK(rc == 0, key + "ber_write", "%llx", (unsigned long long)v);
                written_is(b, k.data_offset, c, key + "ber_bytes", "ber write");
                Block d(want.size() + r.below(3)); crefl_buf dk = mkbuf(d);
                rc = sg ? (byval ? crefl_asn1_der_integer_s64_write_byval(&dk, tag, s) : crefl_asn1_der_integer_s64_write(&dk, tag, &s))
                        : (byval ? crefl_asn1_der_integer_u64_write_byval(&dk, tag, v) : crefl_asn1_der_integer_u64_write(&dk, tag, &v));
                CHECK(rc == 0, key + "der_write", "%llx", (unsigned long long)v);
                written_is(d, dk.data_offset, want, key + "der_bytes", "der write");
                Block bi(c), di(want); crefl_buf bq = mkbuf(bi), dq = mkbuf(di); uint64_t g1 = ~v, g2 = ~v; int e1, e2;
                if (sg) {
                    s64 a = ~s, bb = ~s;
                    if (byval) { s64_result x = crefl_asn1_ber_integer_s64_read_byval(&bq, n), y = crefl_asn1_der_integer_s64_read_byval(&dq, tag); e1 = (int)x.error; e2 = (int)y.error; a = x.value; bb = y.value; }
                    else { e1 = crefl_asn1_ber_integer_s64_read(&bq, n, &a); e2 = crefl_asn1_der_integer_s64_read(&dq, tag, &bb); }
                    g1 = (uint64_t)a; g2 = (uint64_t)bb;
                } else {
                    u64 a = ~v, bb = ~v;
                    if (byval) { u64_result x = crefl_asn1_ber_integer_u64_read_byval(&bq, n), y = crefl_asn1_der_integer_u64_read_byval(&dq, tag); e1 = (int)x.error; e2 = (int)y.error; a = x.value; bb = y.value; }
                    else { e1 = crefl_asn1_ber_integer_u64_read(&bq, n, &a); e2 = crefl_asn1_der_integer_u64_read(&dq, tag, &bb); }
                    g1 = a; g2 = bb;
                }
                CHECK(e1 == 0 && g1 == v && bq.data_offset == n, key + "ber_read", "%s read as %llx error %d", hex(c).c_str(), (unsigned long long)g1, e1);
                CHECK(e2 == 0 && g2 == v && dq.data_offset == want.size(), key + "der_read", "%s read as %llx error %d", hex(want).c_str(), (unsigned long long)g2, e2);
                h::evals(2);
            }
            // any wider form carries the same value too (BER)
            size_t wide = n + r.below(9 - n); bytes w(wide, sg && s < 0 ? 0xff : 0); std::copy(c.begin(), c.end(), w.end() - n);
            Block wb(wide); crefl_buf wk = mkbuf(wb);
            int rc = sg ? crefl_asn1_ber_integer_s64_write(&wk, wide, &s) : crefl_asn1_ber_integer_u64_write(&wk, wide, &v);
            CHECK(rc == 0, std::string("integer:wide:") + nm, "%llx in %zu", (unsigned long long)v, wide);
            written_is(wb, wk.data_offset, w, std::string("integer:widebytes:") + nm, "ber write of a given width");
            Block wi(w); crefl_buf wq = mkbuf(wi); u64 gu; s64 gs; rc = sg ? crefl_asn1_ber_integer_s64_read(&wq, wide, &gs) : crefl_asn1_ber_integer_u64_read(&wq, wide, &gu);
            CHECK(rc == 0 && (sg ? (uint64_t)gs : gu) == v, std::string("integer:wideread:") + nm, "%s", hex(w).c_str());
            h::stat("integers"); h::cover(hash_bytes(want.data(), want.size(), 5 + sg));
        }
    }
}
static void boolnull(Rng &r, uint64_t)
{
    for (int i = 0; i < 60; i++) {
        bool v = r.below(2); asn1_tag tag = (asn1_tag)(r.chance(1, 2) ? 1 : r.below(31));
        bytes c{ (uint8_t)(v ? 0xff : 0) }, want = ref::tlv(tag, c); Block b(1 + r.below(3)), d(3 + r.below(3)); crefl_buf k = mkbuf(b), dk = mkbuf(d);
        CHECK(crefl_asn1_ber_boolean_length(&v) == 1, "bool:length", "%d", v);
        CHECK(crefl_asn1_ber_boolean_write(&k, 1, &v) == 0, "bool:ber_write", "%d", v); written_is(b, k.data_offset, c, "bool:ber_bytes", "boolean");
        CHECK(crefl_asn1_der_boolean_write(&dk, tag, &v) == 0, "bool:der_write", "%d", v); written_is(d, dk.data_offset, want, "bool:der_bytes", "boolean");
        Block bi(c), di(want); crefl_buf bq = mkbuf(bi), dq = mkbuf(di); bool a = !v, e = !v;
        CHECK(crefl_asn1_ber_boolean_read(&bq, 1, &a) == 0 && a == v && bq.data_offset == 1, "bool:ber_read", "%d", v);
        CHECK(crefl_asn1_der_boolean_read(&dq, tag, &e) == 0 && e == v && dq.data_offset == 3, "bool:der_read", "%d", v);
        asn1_tag nt = (asn1_tag)(r.chance(1, 2) ? 5 : r.below(31)); bytes nw = ref::tlv(nt, {}); Block nb(2 + r.below(3)), ni(nw); crefl_buf nk = mkbuf(nb), nq = mkbuf(ni);
        CHECK(crefl_asn1_ber_null_length() == 0, "null:length", "x");
        CHECK(crefl_asn1_der_null_write(&nk, nt) == 0, "null:write", "x"); written_is(nb, nk.data_offset, nw, "null:bytes", "null");
        CHECK(crefl_asn1_der_null_read(&nq, nt) == 0 && nq.data_offset == 2, "null:read", "x");
        CHECK(crefl_asn1_ber_null_read(&nq, 0) == 0 && crefl_asn1_ber_null_write(&nq, 0) == 0 && nq.data_offset == 2, "null:ber", "x");
        h::evals(2); h::stat("booleans"); h::stat("nulls"); h::cover(mix64(tag * 4 + v + 100 * nt));
    }
}
static void octets(Rng &r, uint64_t)
{
    for (int i = 0; i < 40; i++) {
        size_t n = r.chance(1, 20) ? 60000 + r.below(12000) : r.chance(1, 3) ? 120 + r.below(20) : r.chance(1, 3) ? 250 + r.below(12) : r.below(40);
        bytes c = r.bytes(n); asn1_tag tag = (asn1_tag)(r.chance(1, 2) ? 4 : r.below(31)); bytes want = ref::tlv(tag, c);
        Block src(c); asn1_string s = { n, src.p };
        CHECK(crefl_asn1_ber_octets_length(&s) == n, "octets:length", "%zu", n);
        Block b(n + r.below(3)), d(want.size() + r.below(3)); crefl_buf k = mkbuf(b), dk = mkbuf(d);
        CHECK(crefl_asn1_ber_octets_write(&k, n, &s) == 0, "octets:ber_write", "%zu", n); written_is(b, k.data_offset, c, "octets:ber_bytes", "octets");
        CHECK(crefl_asn1_der_octets_write(&dk, tag, &s) == 0, "octets:der_write", "%zu", n); written_is(d, dk.data_offset, want, "octets:der_bytes", "octets");
        // ask for the length only, then read it into exactly that much; then a truncated copy
        Block in(want); crefl_buf q = mkbuf(in); asn1_string o = { 0, nullptr };
        CHECK(crefl_asn1_der_octets_read(&q, tag, &o) == 0 && o.count == n && q.data_offset == want.size(), "octets:count_only", "%zu got %llu", n, (unsigned long long)o.count);
        Block dst(n); q.data_offset = 0; o.count = n; o.str = dst.p;
        CHECK(crefl_asn1_der_octets_read(&q, tag, &o) == 0 && o.count == n && q.data_offset == want.size(), "octets:der_read", "%zu", n);
        CHECK(n == 0 || memcmp(dst.p, c.data(), n) == 0, "octets:der_value", "%zu", n);
        size_t cut = r.below(n + 1); Block part(cut); q.data_offset = 0; o.count = cut; o.str = part.p;
        CHECK(crefl_asn1_der_octets_read(&q, tag, &o) == 0 && q.data_offset == want.size(), "octets:truncated_read", "%zu/%zu", cut, n);
        CHECK(cut == 0 || memcmp(part.p, c.data(), cut) == 0, "octets:truncated_value", "%zu/%zu", cut, n);
        Block bi(c); crefl_buf bq = mkbuf(bi); Block d2(n); o.count = n; o.str = d2.p;
        CHECK(crefl_asn1_ber_octets_read(&bq, n, &o) == 0 && bq.data_offset == n && (n == 0 || memcmp(d2.p, c.data(), n) == 0), "octets:ber_read", "%zu", n);
        h::evals(4); h::stat("octet_strings"); h::cover(hash_bytes(want.data(), std::min<size_t>(want.size(), 64), n));
    }
}
// a record of many elements written one behind the other and read back in order, with either
// interface on either side
static void stream(Rng &r, uint64_t)
{
    size_t n = 1 + r.below(40); struct El { int kind; u64 v; double d; bytes s; }; std::vector<El> els; bytes want;
    Block out(n * 80 + 16); crefl_buf k = mkbuf(out);
    for (size_t i = 0; i < n; i++) {
        El e; e.kind = (int)r.below(7); e.v = r.u64(); e.d = gen_f64(r); int rc = 0; bool bv = r.below(2); bytes w;
        switch (e.kind) {
        case 0: { bool x = e.v & 1; rc = crefl_asn1_der_boolean_write(&k, asn1_tag_boolean, &x); w = ref::tlv(1, { (uint8_t)(x ? 255 : 0) }); break; }
        case 1: rc = bv ? crefl_asn1_der_integer_u64_write_byval(&k, asn1_tag_integer, e.v) : crefl_asn1_der_integer_u64_write(&k, asn1_tag_integer, &e.v); w = ref::tlv(2, ref::u64be(e.v)); break;
        case 2: { s64 x = (s64)e.v; rc = bv ? crefl_asn1_der_integer_s64_write_byval(&k, asn1_tag_integer, x) : crefl_asn1_der_integer_s64_write(&k, asn1_tag_integer, &x); w = ref::tlv(2, ref::s64be(x)); break; }
        case 3: rc = bv ? crefl_asn1_der_real_f64_write_byval(&k, asn1_tag_real, e.d) : crefl_asn1_der_real_f64_write(&k, asn1_tag_real, &e.d); w = ref::tlv(9, ref::real(e.d)); break;
        case 4: { e.s = r.bytes(r.below(40)); asn1_string s = { e.s.size(), e.s.data() }; rc = crefl_asn1_der_octets_write(&k, asn1_tag_octet_string, &s); w = ref::tlv(4, e.s); break; }
        case 5: rc = crefl_asn1_der_null_write(&k, asn1_tag_null); w = ref::tlv(5, {}); break;
        case 6: { asn1_oid o; o.count = 2 + r.below(4); for (size_t j = 0; j < o.count; j++) { o.oid[j] = j == 0 ? r.below(3) : j == 1 ? r.below(40) : gen_tag(r); } 
                  e.s.assign((uint8_t*)&o, (uint8_t*)&o + sizeof(o)); rc = crefl_asn1_der_oid_write(&k, asn1_tag_object_identifier, &o); w = ref::tlv(6, ref::oid(std::vector<uint64_t>(o.oid, o.oid + o.count))); break; }
        }
        CHECK(rc == 0, "stream:write", "element %zu kind %d", i, e.kind);
        ref::put(want, w); els.push_back(e);
    }
    written_is(out, k.data_offset, want, "stream:bytes", "sequence of elements");
    if (h::g_case % 97 == 0) h::sample(fmt("%zu elements: %s", n, hex(want).c_str()));
    Block in(want); crefl_buf q = mkbuf(in);
    for (size_t i = 0; i < n; i++) {
        El &e = els[i]; bool bv = r.below(2), ok = false;
        switch (e.kind) {
        case 0: { bool x; ok = crefl_asn1_der_boolean_read(&q, asn1_tag_boolean, &x) == 0 && x == (bool)(e.v & 1); break; }
        case 1: { u64 x; if (bv) { auto z = crefl_asn1_der_integer_u64_read_byval(&q, asn1_tag_integer); ok = z.error == 0 && z.value == e.v; } else ok = crefl_asn1_der_integer_u64_read(&q, asn1_tag_integer, &x) == 0 && x == e.v; break; }
        case 2: { s64 x; if (bv) { auto z = crefl_asn1_der_integer_s64_read_byval(&q, asn1_tag_integer); ok = z.error == 0 && z.value == (s64)e.v; } else ok = crefl_asn1_der_integer_s64_read(&q, asn1_tag_integer, &x) == 0 && x == (s64)e.v; break; }
        case 3: { double x; if (bv) { auto z = crefl_asn1_der_real_f64_read_byval(&q, asn1_tag_real); ok = z.error == 0 && same(z.value, e.d); } else ok = crefl_asn1_der_real_f64_read(&q, asn1_tag_real, &x) == 0 && same(x, e.d); break; }
        case 4: { Block d(e.s.size()); asn1_string s = { d.n, d.p }; ok = crefl_asn1_der_octets_read(&q, asn1_tag_octet_string, &s) == 0 && s.count == e.s.size() && d.vec() == e.s; break; }
        case 5: ok = crefl_asn1_der_null_read(&q, asn1_tag_null) == 0; break;
        case 6: { asn1_oid x, o; memcpy(&o, e.s.data(), sizeof o); ok = crefl_asn1_der_oid_read(&q, asn1_tag_object_identifier, &x) == 0 && x.count == o.count; for (size_t j = 0; ok && j < o.count; j++) ok = x.oid[j] == o.oid[j]; break; }
        }
        CHECK(ok, "stream:read", "element %zu kind %d of %s", i, e.kind, hex(want).c_str());
        h::evals(); h::stat("stream_elements");
    }
    CHECK(q.data_offset == want.size(), "stream:end", "%zu of %zu", q.data_offset, want.size());
    h::cover(hash_bytes(want.data(), want.size(), 11));
}
FAMILIES({ "ident", 400, 40000, ident }, { "length", 200, 20000, length }, { "integer", 600, 60000, integer },
    { "boolnull", 40, 400, boolnull }, { "octets", 150, 6000, octets }, { "stream", 4000, 300000, stream })
