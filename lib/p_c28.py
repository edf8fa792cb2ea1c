import os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import plug
from vf import NPROC, REPO, VARIANTS, BuildError, sh

# spelling, name in the metadata, printf format of a live value
SCALARS = [("signed char", "byte", "%hhd"), ("char", "byte", "%hhd"), ("unsigned char", "ubyte", "%hhu"), ("short", "short", "%hd"), ("unsigned short", "ushort", "%hu"), ("int", "int", "%d"), ("unsigned", "uint", "%u"),
           ("long", "long", "%ld"), ("unsigned long", "ulong", "%lu"), ("long long", "long", "%lld"), ("unsigned long long", "ulong", "%llu"), ("float", "float", "%f"), ("double", "double", "%f")]


class Rec:
    def __init__(self, kind, name, tag): self.kind, self.name, self.tag, self.fields, self.fwd = kind, name, tag, [], False
    def text(self, ind=0):
        pad = "    " * (ind + 1)
        return "%s %s {\n%s%s}" % (self.kind, self.name or "TAG(%s)" % self.tag, "".join("%s%s;\n" % (pad, decl(t, n, ind + 1, own)) for n, t, own in self.fields), "    " * ind)


def decl(t, d, ind=0, own=False):
    k = t[0]
    if k == "s": return t[1][0] + " " + d
    if k == "void": return "void " + d
    if k == "p":
        i = "*" + d
        return decl(t[1], "(" + i + ")" if t[1][0] == "a" else i, ind, own)
    if k == "a": return decl(t[2], "%s[%d]" % (d, t[1]), ind, own)
    if k == "td": return t[1] + " " + d
    if k == "r": return (t[1].text(ind) if own else "%s %s" % (t[1].kind, t[1].tag)) + " " + d


def strip(t):
    while t[0] == "td": t = t[2]
    return t


def tname(t):
    t = strip(t); k = t[0]
    return t[1][1] if k == "s" else "void" if k == "void" else "*" + tname(t[1]) if k == "p" else "[%d]%s" % (t[1], tname(t[2])) if k == "a" else t[1].name


def count(t):
    """scalars in an object"""
    t = strip(t)
    return t[1] * count(t[2]) if t[0] == "a" else sum(count(f) for n, f, own in t[1].fields) + 1 if t[0] == "r" else 1


class Gen:
    def __init__(self, r): self.r, self.n, self.recs, self.tds, self.top = r, 0, [], [], []

    def name(self, p):
        self.n += 1; s = "%s%d" % (p, self.n)
        if self.r.random() < .12: s += "_" + "long" * self.r.randrange(1, 50)
        return s

    def type(self, depth=0):
        r = self.r; k = r.randrange(12)
        if k < 4: return ("s", r.choice(SCALARS))
        if k < 6 and self.recs: return ("r", r.choice(self.recs))
        if k == 6 and self.tds: return r.choice(self.tds)
        if k < 9: return ("p", r.choice([("void",), self.type(depth + 1)]) if depth < 4 else ("s", r.choice(SCALARS)))
        if k < 11 and depth < 3: return ("a", r.choice([1, 2, 3, 5, 17, 0, 130 if depth == 0 else 2]), self.type(depth + 1))
        return ("s", r.choice(SCALARS))

    def record(self, depth=0, anon=False):
        r = self.r; x = Rec("struct" if depth == 0 and r.random() < .8 or r.random() < .6 else "union", "", self.name("R")); x.name = "" if anon else x.tag
        for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9, 40 if r.random() < .1 else 2])):
            k = r.randrange(10)
            if k < 2 and depth < 3:
                y = self.record(depth + 1, r.random() < .6)
                if not y.fields: continue
                t = ("r", y); m = "" if not y.name and r.random() < .5 else self.name("f")
                if m and r.random() < .3 and count(t) < 300: t = ("a", r.choice([1, 2, 3]), t)
                x.fields.append((m, t, True)); continue
            t = self.type()
            if count(t) > 900: continue
            if k == 2 and x.name: t = ("p", ("r", x))
            x.fields.append((self.name("f"), t, False))
            if count(("r", x)) > 3000: break
        return x

    def unit(self, n):
        r = self.r
        for _ in range(n):
            k = r.randrange(10)
            if k < 5:
                x = self.record()
                if x.fields and r.random() < .2: f = Rec(x.kind, x.name, x.tag); f.fwd = True; self.top.append(("fwd", f))
                self.top.append(("rec", x)); self.recs.append(x)
            elif k < 7:
                t = self.type() if r.random() < .9 else ("void",); d = ("td", self.name("T"), t); self.top.append(("typedef", d))
                if t[0] != "void" and count(t) < 900: self.tds.append(d)
            elif k < 8: self.top.append(("var", self.name("v"), self.type()))
            elif k < 9: self.top.append(("enum", self.name("E")))
            else: self.top.append(("fn", self.name("fn"), r.choice([("void",), ("s", r.choice(SCALARS)), ("p", self.type(2))] + ([("r", r.choice(self.recs))] if self.recs else [])), [(self.name("p"), self.type(1)) for _ in range(r.randrange(5))]))

        if r.random() < .2:
            # more than 65535 elements and bytes ahead of another member
            k = ("s", r.choice(SCALARS[:6])); x = Rec("struct", "", self.name("Big")); x.name = x.tag
            x.fields = [(self.name("f"), r.choice([("a", r.randrange(65536, 70000), k), ("a", 300, ("a", r.randrange(219, 250), k))]), False), (self.name("f"), self.type(2), False), (self.name("f"), ("s", r.choice(SCALARS)), False)]
            if count(x.fields[1][1]) < 900: self.top.append(("rec", x))

    def text(self):
        o = ""
        for t in self.top:
            if t[0] == "fwd": o += "%s %s;\n" % (t[1].kind, t[1].tag)
            elif t[0] == "rec": o += t[1].text() + ";\n"
            elif t[0] == "typedef": o += "typedef %s;\n" % decl(t[1][2], t[1][1])
            elif t[0] == "var": o += "extern %s;\n" % decl(t[2], t[1])
            elif t[0] == "enum": o += "enum %s { %s_A, %s_B = 7 };\n" % (t[1], t[1], t[1])
            else: o += "%s;\n" % decl(t[2], "%s(%s)" % (t[1], ", ".join(decl(p, n) for n, p in t[3]) or "void"))
        return o


class Emit:
    """C statements that print the expectation, with the compiler's own sizes and member accesses"""
    def __init__(self): self.code, self.k = [], 0
    def put(self, s, *args): self.code.append('E("%s"%s);' % (s.replace("\n", "\\n"), "".join(", " + a for a in args)))
    def size(self, t):
        # the metadata's word for void has no size
        t = strip(t); return "0ul" if t[0] == "void" else "sizeof(%s) * 8" % decl(t, "")

    # ---- a live object ----
    def value(self, t, e):
        t = strip(t); k = t[0]
        if k == "s": self.put(t[1][2], e)
        elif k == "p": self.put("(%s) 0x%%016llx" % tname(t), "(unsigned long long)%s" % e)
        elif k == "a":
            self.k += 1; n = "n%d" % self.k; self.put("[ "); self.code.append("{ int %s = 0;" % n); self.elements(t, e, n); self.code.append("}"); self.put(" ]")
        else: self.record(t[1], e)
    def elements(self, t, e, n):
        t = strip(t)
        if t[0] != "a": self.code.append('if (%s++) E(", ");' % n); self.value(t, e); return
        self.k += 1; i = "i%d" % self.k; self.code.append("for (int %s = 0; %s < %d; %s++) {" % (i, i, t[1], i)); self.elements(t[2], "%s[%s]" % (e, i), n); self.code.append("}")
    def record(self, x, e):
        self.put(x.name + (" { " if x.fields else "{}"))
        for n, t, own in x.fields:
            self.put("%s : " % n)
            if n: self.value(t, "%s.%s" % (e, n))
            else: self.record(t[1], e)
            self.put("; ")
        if x.fields: self.put("}")

    # ---- listings ----
    def list_structs(self, g):
        for t in g.top:
            if t[0] not in ("rec", "fwd") or t[1].kind != "struct": continue
            self.put("struct %s : %%zu\n" % t[1].name, "0ul" if t[0] == "fwd" else self.size(("r", t[1])))
            for n, f, own in t[1].fields: self.put("\\tfield %s : %%zu\n" % n, self.size(f))
    def dname(self, t):
        t = strip(t)
        if t[0] == "r": return "%s %s" % (t[1].kind, t[1].name or "/* anonymous id=# */")
        return tname(t)
    def show_rec(self, x, depth, fwd=False):
        pad = "    " * depth
        self.put("%s%s /* size=%%zu */%s" % (pad, self.dname(("r", x)), " {\n" if x.fields else ""), "0ul" if fwd else self.size(("r", x)))
        for n, t, own in x.fields: self.show_field(n, t, depth + 1); self.put(";\n")
        if x.fields: self.put(pad + "}")
    def show_field(self, n, t, depth):
        s = strip(t)
        if s[0] == "r": self.show_rec(s[1], depth)
        else: self.put("    " * depth + self.dname(t))
        self.put(" /* size=%%zu */ %s" % n, self.size(t))
    def show(self, g):
        for t in g.top:
            if t[0] == "enum": continue
            if t[0] in ("rec", "fwd"): self.show_rec(t[1], 0, t[0] == "fwd")
            elif t[0] == "typedef": self.put("typedef "); self.show_field(t[1][1], t[1][2], 0)
            elif t[0] == "var": self.show_field(t[1], t[2], 0)
            else: self.put("%s %s(" % (self.dname(t[2]), t[1]) + ", ".join("%s %s" % (tname(p), n) for n, p in t[3]) + ")")
            self.put(";\n")


MAIN = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define TAG(x) x
#include "t.h"
#include "printer.h"
static FILE *E_;
#define E(...) fprintf(E_, __VA_ARGS__)
static unsigned long long s_ = %dull;
static void fill(void *p, size_t n) { unsigned char *b = p; unsigned m = (unsigned)(s_ >> 13) %% 4; for (size_t i = 0; i < n; i++) { s_ ^= s_ << 13; s_ ^= s_ >> 7; s_ ^= s_ << 17; b[i] = m == 0 ? (unsigned char)(s_ >> 20) : m == 1 ? (s_ & 3 ? 0 : (unsigned char)(s_ >> 20)) : m == 2 ? (i %% 8 > 5 ? 0x7f - (s_ >> 9) %% 3 : (unsigned char)(s_ >> 20)) : (unsigned char)(s_ >> 20 & 0x3f); } }
int main(void)
{
    decl_db *db = crefl_db_internal();
%s
    crefl_db_destroy(db);
    return 0;
}
"""
LISTS = r"""#include <stdio.h>
#define TAG(x) x
#include "t.h"
static FILE *E_;
#define E(...) fprintf(E_, __VA_ARGS__)
int main(void)
{
    E_ = fopen("want1", "w");
%s
    fclose(E_); E_ = fopen("want2", "w");
%s
    fclose(E_);
    return 0;
}
"""


def objects(g, r):
    """what main() does with the printer: (code, number of lines)"""
    code, n = ['E_ = fopen("want3", "w");'], 0
    recs = [t[1] for t in g.top if t[0] == "rec" and t[1].kind == "struct"]
    for x in recs + [r.choice(recs) for _ in range(3 if recs else 0)]:
        e = Emit(); e.record(x, "(*o)"); n += 1
        code += ["{ struct %s *o = malloc(sizeof *o); fill(o, sizeof *o); crefl_print(crefl_type(db, struct %s), o);" % (x.tag, x.tag)] + e.code + ['E("\\n"); free(o); }']
    for s, m, f in SCALARS:
        kind, w = ("_decl_float", "") if f == "%f" else (("_decl_uint" if "u" in f else "_decl_sint"), "")
        n += 1; code.append('{ %s *o = malloc(sizeof *o); fill(o, sizeof *o); crefl_print(crefl_intrinsic(db, %s, sizeof *o * 8), o); E("%s\\n", *o); free(o); }' % (s, kind, f))
    known = [t[1].tag for t in g.top if t[0] in ("rec", "fwd")]
    for w in [x[:-1] for x in known[:3]] + ["absent"]:
        if w in known: continue
        n += 1; code.append('crefl_print(crefl_type(db, struct %s), &db); E("\\n");' % w)
    return "\n".join(code + ["fclose(E_);"]), n


def unit(c, pl, tools, fixed, i):
    r = random.Random("c28/%s/%s" % (c.seed, i)); g = Gen(r); g.unit(r.choice([1, 2, 4, 8, 16, 30])); rep = "unit:%d" % i; v = "san" if i % 3 else "rel"
    d = os.path.join(c.work, "u%d" % i); os.makedirs(d); text = g.text()
    def bad(key, detail): c.add_violation(key, rep, detail[:3000], text[:20000])
    def step(what, cmd):
        rc, out, err = c.run(cmd, cwd=d, timeout=40); e = err.decode(errors="replace")
        if rc == "timeout": bad("hang:" + what, what + " does not terminate"); return None
        if rc != 0 or "runtime error:" in e: bad(c.crash_key(e, rc) if rc not in (0, 1) else "step:" + what, "%s: exit %s %s" % (what, rc, e[-2000:])); return None
        return out
    def build(what, cmd):
        rc, out, err = c.run(cmd, cwd=d, timeout=120)
        if rc != 0: raise BuildError("%s: %s" % (what, (err or out).decode(errors="replace")[:3000]))
    def same(key, got, want):
        got = re.sub(rb"anonymous id=\d+", b"anonymous id=#", got)
        if got == want: return
        a, b = got.split(b"\n"), want.split(b"\n"); k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        x, y = (z[k] if k < len(z) else b"(nothing)" for z in (a, b)); p = len(os.path.commonprefix([x, y]))
        bad(key, "line %d: prints ...%r, expected ...%r" % (k, x[max(0, p - 60):p + 100], y[max(0, p - 60):p + 100]))
    try:
        open(os.path.join(d, "t.h"), "w").write(text); open(os.path.join(d, "t.c"), "w").write('#ifndef TAG\n#define TAG(x)\n#endif\n#include "t.h"\n')
        code, n = objects(g, r); open(os.path.join(d, "main.c"), "w").write(MAIN % (r.randrange(1, 2 ** 63), code))
        a, b = Emit(), Emit(); a.list_structs(g); b.show(g); open(os.path.join(d, "lists.c"), "w").write(LISTS % ("\n".join(a.code), "\n".join(b.code)))
        rc, out, err = pl.run("rel", "t.c", "t.refl", d); f = pl.failed(rc, err)
        if f: bad("plugin:" + f[0], f[1]); return
        build("expectations", [plug.CLANG, "-w", "-O0", "-fms-extensions", "lists.c", "-o", "lists"])
        build("main", [VARIANTS[v]["cc"]] + [x for x in c.cflags(v, False) if not x.startswith("-O")] + ["-O0", "-w", "-fms-extensions", "-I", os.path.join(REPO, "samples/example3_printer"), "-c", "main.c", "-o", "main.o"])
        if step("lists", [os.path.join(d, "lists")]) is None: return
        want = {k: open(os.path.join(d, "want%d" % k), "rb").read() for k in (1, 2)}
        for name, exe in fixed[v]["file"]:
            out = step(name, [exe, "t.refl"])
            if out is None: return
            same("listing:" + name, out, want[1])
        if step("merge", [tools[v], "--merge", "all.refl", "t.refl"]) is None or step("emit", [tools[v], "--emit", "all.c", "all.refl"]) is None: return
        build("emitted", ["gcc", "-w", "-O0", "-c", "all.c", "-o", "all.o"])
        for name, objs, k in (("example2_embed", fixed[v]["embed"], 2), ("example3_printer", fixed[v]["printer"] + ["main.o"], 3)):
            build("link", [VARIANTS[v]["cxx"]] + VARIANTS[v]["flags"] + objs + ["all.o"] + c.build_lib(v) + ["-o", name, "-lpthread"])
            out = step(name, [os.path.join(d, name)])
            if out is None: return
            if k == 3: want[3] = open(os.path.join(d, "want3"), "rb").read(); c.add_stat("objects_printed", n)
            same("values" if k == 3 else "listing:" + name, out, want[k]); c.evals += out.count(b"\n"); c.add_cover(out); c.add_stat("bytes_compared", len(out))
        c.evals += want[1].count(b"\n")
        if i < 2: c.add_sample(out.decode(errors="replace")[:900])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(c):
    pl = plug.Plugin(c, san=False); tools = {v: c.build_tool("crefltool", v) for v in ("san", "rel")}; fixed = {}
    S = os.path.join(REPO, "samples")
    doc = os.path.join(c.work, "readme.c"); m = re.search(r"```C\n(.*?)```", open(os.path.join(REPO, "README.md"), errors="replace").read(), re.S)
    if m: open(doc, "w").write(m[1])
    for v in ("san", "rel"):
        fixed[v] = {"file": [("example1_file", c.build("example1_file", v, [os.path.join(S, "example1_file/main.c")], extra=["-w"]))]}
        if m: fixed[v]["file"].append(("README example", c.build("readme", v, [doc], extra=["-w"])))
        for k, src in (("embed", "example2_embed/main.c"), ("printer", "example3_printer/printer.c")):
            o = os.path.join(c.work, "%s_%s.o" % (k, v)); r = sh([VARIANTS[v]["cc"]] + c.cflags(v, False) + ["-w", "-c", os.path.join(S, src), "-o", o])
            if r.returncode != 0: raise BuildError(r.stdout.decode(errors="replace"))
            fixed[v][k] = [o]
    if c.replay: unit(c, pl, tools, fixed, int(c.replay.split(":")[1])); return "replay"
    n = int((80 if c.quick else 3000) * c.scale)
    with ThreadPoolExecutor(NPROC) as ex:
        for j in [ex.submit(unit, c, pl, tools, fixed, i) for i in range(n)]: j.result()
    return "one per distinct output of a sample program, each compared with what the compiler's own sizes and member accesses say about the same declarations and objects"
