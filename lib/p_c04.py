import os, random, shutil
from concurrent.futures import ThreadPoolExecutor
import cgen, hdr, refl, plug
from vf import NPROC

LIMIT = 1 << 24     # bit-fields of objects larger than this are not probed


def leaf(d):
    """a named member that reaches into d"""
    for m in d.members:
        if m.kind != "field": continue
        if m.name: return m
        if getattr(m, "anon", False):
            l = leaf(m.type[1])
            if l: return l
    return None


class Probes:
    """C statements that print what the compiler says, and what each line is about"""
    def __init__(self): self.code, self.want = [], []
    def add(self, what, expr): self.want.append(what); self.code.append('P(%d, %s);' % (len(self.want) - 1, expr))
    def bits(self, what, tag, name):
        self.want.append(what); k = len(self.want) - 1
        self.code.append('if (sizeof(%s) <= %d) { %s *p = calloc(1, sizeof(%s) + 64); p->%s = -1; B(%d, p, sizeof(%s)); free(p); }' % (tag, LIMIT, tag, tag, name, k, tag))


def offset(pr, what, tag, m):
    if hasattr(m, "bits"): pr.bits(what, tag, m.name)
    else: pr.add(what, "offsetof(%s, %s) * 8" % (tag, m.name))


def record(pr, g, d):
    tag = "%s %s" % (d.kind, d.name or d.ptag)
    pr.add(("size", d), "sizeof(%s) * 8" % tag)
    for m in d.members:
        if m.kind in ("struct", "union") and not m.fwd: record(pr, g, m)
        elif m.kind == "enum": pr.add(("size", m), "sizeof(enum %s) * 8" % (m.name or m.ptag))
        elif m.kind == "field":
            if getattr(m, "anon", False):
                l = leaf(m.type[1])
                if l is not None and d.kind == "struct":
                    offset(pr, ("outer", d, m), tag, l); offset(pr, ("inner", d, m), "%s %s" % (m.type[1].kind, m.type[1].ptag), l)
            elif m.name:
                if d.kind == "struct": offset(pr, ("offset", d, m), tag, m)
                if not hasattr(m, "bits") and g.is_complete(m.type): pr.add(("width", d, m), "sizeof(((%s *)0)->%s) * 8" % (tag, m.name))


class Match:
    """the metadata's nodes for the declarations of the model, found by name"""
    def __init__(self, db, top):
        self.db, self.at = db, {}
        self.walk(db.root, top)
    def walk(self, id, members):
        got = [self.db.n[self.db.real(i)] for i in self.db.chain(self.db.n[id].link)]; used = set()
        for m in members:
            for k, n in enumerate(got):
                if k in used or n.tag != m.kind or n.name != m.name: continue
                if m.kind in ("struct", "union") and not m.fwd and not n.link and m.members: continue   # a mention without members
                used.add(k); self.at[id_(m)] = n
                if m.members and m.kind != "function": self.walk(n.id, m.members)
                break


def id_(m): return id(m)


def check(db, g, top, pr, values, report, stat):
    """values: what the compiler printed, by probe"""
    mt = Match(db, top); seen = set()
    def node(m):
        n = mt.at.get(id_(m))
        if n is None: report("missing", "%s is not in the metadata" % m)
        return n
    def offs(n):
        o = dict(n.offs[:-1]) if n.offs else {}
        return o
    vals = dict((k, v) for k, v in values)
    for k, what in enumerate(pr.want):
        if k not in vals: continue
        v = vals[k]; kind = what[0]; d = what[1]; n = node(d)
        if n is None: continue
        if kind == "size":
            stat("sizes_" + d.kind)
            if d.kind == "typedef" or d.kind == "field":
                t = db.n[db.real(n.link)]
                if t.width != v: report("size", "%s: type %r is %d bits wide, the compiler makes it %d" % (d, t.name[:80], t.width, v))
                continue
            if n.width != v: report("size", "%s is %d bits wide, the compiler makes it %d" % (d, n.width, v))
            if d.kind == "struct":
                nf = sum(m.kind == "field" for m in d.members)
                if n.swidth != v: report("struct-width", "%s: struct width %d, the compiler makes it %d" % (d, n.swidth, v))
                if nf and (len(n.offs) != nf + 1 or n.offs[-1] != (0, v)): report("offset-entries", "%s: %d entries ending in %s for %d fields and %d bits" % (d, len(n.offs), n.offs[-1:], nf, v))
                if n.offs and [x[0] for x in n.offs[:-1]] != n.fields: report("offset-fields", "%s: offsets of other fields" % d)
            elif d.kind == "union" and n.uwidth != v: report("union-width", "%s: union width %d, the compiler makes it %d" % (d, n.uwidth, v))
        elif kind == "offset":
            stat("offsets_bitfield" if hasattr(what[2], "bits") else "offsets"); f = node(what[2])
            if f is not None and offs(n).get(f.id) != v: report("offset", "%s.%s is at bit %s, the compiler puts it at %d" % (d, what[2].name, offs(n).get(f.id), v))
        elif kind == "inner":
            o = vals.get(k - 1)
            if o is None: continue
            stat("offsets_anonymous"); f = node(what[2])
            if f is not None and offs(n).get(f.id) != o - v: report("offset-anonymous", "the anonymous member %s of %s is at bit %s, the compiler puts it at %d" % (what[2].type[1], d, offs(n).get(f.id), o - v))
        elif kind == "width":
            stat("widths"); f = node(what[2])
            if f is None: continue
            t = db.n[db.real(f.link)]
            if t.width != v: report("width", "%s.%s: type %r is %d bits wide, the compiler makes it %d" % (d, what[2].name, t.name[:80], t.width, v))
            if t.tag == "pointer" and t.pwidth != v: report("pointer-width", "%s.%s: pointer of %d bits" % (d, what[2].name, t.pwidth))
            if t.tag == "intrinsic" and t.name != "bool" and t.iwidth != v: report("intrinsic-width", "%s.%s: %s of %d bits, the compiler makes it %d" % (d, what[2].name, t.name, t.iwidth, v))
            m = cgen.meaning(what[2].type)
            while m[0] == "arr":
                if t.tag == "qualifier": t = db.n[db.real(t.link)]
                if t.tag != "array" or t.count != (m[1] or 0): report("array-count", "%s.%s: %s of %s elements, the program has %s" % (d, what[2].name, t.tag, getattr(t, "count", None), m[1])); break
                stat("array_counts"); m = m[2]; t = db.n[db.real(t.link)]


HEAD = """#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#define P(k, v) printf("%%d %%llu\\n", k, (unsigned long long)(v))
#define B(k, p, n) bit(k, p, n)
static void bit(int k, const void *p, size_t n) { const unsigned char *b = p; for (size_t i = 0; i < n * 8; i++) if (b[i / 8] >> (i %% 8) & 1) { P(k, i); return; } P(k, 18446744073709551615ull); }
%s
"""


def probes(g):
    pr = Probes(); again = set()
    for d in g.top:
        if d.fwd or id(d) in again: continue
        again.add(id(d))
        if d.kind in ("struct", "union"): record(pr, g, d)
        elif d.kind == "enum": pr.add(("size", d), "sizeof(enum %s) * 8" % (d.name or d.ptag))
        elif d.kind == "typedef" and g.is_complete(d.type): pr.add(("size", d), "sizeof(%s) * 8" % d.name)
        elif d.kind == "field" and g.is_complete(d.type): pr.add(("size", d), "sizeof(%s) * 8" % d.name)
    return pr


def probe_values(c, d, name, exe):
    rc, out, err = c.run([plug.CLANG, "-w", "-O0", "-fms-extensions", name, "-o", exe], cwd=d, timeout=120)
    if rc != 0: return None, err.decode(errors="replace")
    rc, out, err = c.run([os.path.join(d, exe)], cwd=d)
    if rc != 0: return None, "probe exits %s" % rc
    return [tuple(int(x) for x in l.split()) for l in out.decode().split("\n") if l], None


def unit(c, pl, i):
    r = random.Random("c04/%s/%s" % (c.seed, i)); g = cgen.Gen(r, packed=False, probe=True, bodies=False, huge=True)
    items = g.unit(r.choice([2, 6, 12, 25, 40])); text = g.render(items); pr = probes(g); rep = "unit:%d" % i
    d = os.path.join(c.work, "u%d" % i); os.makedirs(d)
    def bad(key, detail): c.add_violation(key, rep, detail, text[:20000])
    try:
        with open(os.path.join(d, "g.c"), "w") as f: f.write(text)
        with open(os.path.join(d, "p.c"), "w") as f: f.write(HEAD % g.render(items, probe=True) + "int main(void) {\n" + "\n".join(pr.code) + "\nreturn 0; }\n")
        v = pl.variants()[i % len(pl.variants())]
        rc, out, err = pl.run(v, "g.c", "g.refl", d); f = pl.failed(rc, err)
        if f and f[0] == "rejected": c.add_stat("program_not_accepted"); c.add_sample("not accepted: " + f[1][:600]); return
        if f: bad("plugin:" + f[0], f[1]); return
        vals, e = probe_values(c, d, "p.c", "p")
        if vals is None: c.add_stat("probe_not_accepted"); c.add_sample("probe: " + e[:900]); return
        dbs, e = pl.read("san" if i % 2 else "rel", ["g.refl"], d)
        if e: bad("reader:" + e[0], e[1]); return
        db = dbs["g.refl"]
        if db.rejected: bad("unreadable", "the library rejects what the plugin wrote"); return
        c.evals += len(vals); c.add_cover(str(vals))
        try: check(db, g, g.top, pr, vals, lambda k, t: bad("layout:" + k, t[:1200]), c.add_stat)
        except refl.Mismatch as x: bad("graph", str(x))
        if i < 2: c.add_sample(text[:900])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gcc_header(c, pl, h): hdr.unit(c, pl, h, "layout", "gcc:" + h, lambda key, detail: c.add_violation(key, "gcc:" + h, detail, detail))


def run(c):
    pl = plug.Plugin(c, san=False)
    if c.replay:
        k, _, v = c.replay.partition(":")
        gcc_header(c, pl, v) if k == "gcc" else unit(c, pl, int(v)); return "replay"
    every = hdr.available(); more = random.Random("gcc%s" % c.seed).sample(every, min(120, len(every))) + ["stdio.h", "signal.h", "netinet/in.h", "pthread.h", "sys/stat.h"] if c.quick else every
    n = int((400 if c.quick else 12000) * c.scale)
    with ThreadPoolExecutor(NPROC) as ex:
        for j in [ex.submit(unit, c, pl, i) for i in range(n)] + [ex.submit(gcc_header, c, pl, h) for h in more]: j.result()
    if c.stats.get("program_not_accepted", 0) + c.stats.get("probe_not_accepted", 0) > n // 4: raise RuntimeError("the compiler accepts too few of the programs")
    c.assumptions += ["the ABI is that of the LLVM 14 clang the metadata comes from (x86-64 System V)"]
    return "one per distinct vector of sizes and offsets the compiler gave for a generated program, each entry compared with the layout queries"
