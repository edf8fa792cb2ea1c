import os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import cgen, refl, plug
from vf import NPROC

CXX = plug.CLANG + "++"
PRE = "#define restrict __restrict\n#define _Noreturn __attribute__((noreturn))\n#define _Bool bool\n#define _Thread_local thread_local\n"


def listing(d): return sorted(os.listdir(d))


def xc(args): return [y for x in args for y in ("-Xclang", x)]


def direct(pl, v, args, src, opts=()):
    """the compiler as the documentation invokes it"""
    return [plug.CLANG, "-c"] + xc(["-load", os.path.join(pl.dir[v], "libcrefl.so"), "-plugin", "crefl"]) + xc([y for x in args for y in ("-plugin-arg-crefl", x)]) + list(opts) + [src]


def modes(c, pl, tools, i):
    """what -debug, -dump and their order do to the metadata of a C program: nothing"""
    r = random.Random("modes/%s/%d" % (c.seed, i)); g = cgen.Gen(r, others=True, huge=True); items = g.unit(r.choice([0, 1, 2, 4, 8, 16])); text = g.render(items); rep = "modes:%d" % i
    d = os.path.join(c.work, "m%d" % i); os.makedirs(d)
    def bad(key, detail): c.add_violation(key, rep, detail, text[:20000])
    try:
        open(os.path.join(d, "g.c"), "w").write(text); v = pl.variants()[i % len(pl.variants())]; w = pl.variants()[(i + 1) % len(pl.variants())]
        rc, out, err = pl.run(v, "g.c", "a.refl", d); f = pl.failed(rc, err)
        if f and f[0] == "rejected": c.add_stat("program_not_accepted"); return
        if f: bad("plain:" + f[0], f[1]); return
        A = open(os.path.join(d, "a.refl"), "rb").read()
        if out: bad("plain:stdout", "prints %r" % out[:200])
        def same(name, how):
            p = os.path.join(d, name)
            if not os.path.exists(p): bad(how + ":nothing", "%s writes no metadata" % how); return
            B = open(p, "rb").read(); os.unlink(p)
            if B != A: bad(how + ":bytes", "%s writes other metadata than a run without (%d and %d bytes)" % (how, len(B), len(A)))
            c.evals += 1; c.add_stat(how)
        def check(rc, out, err, how):
            f = pl.failed(rc, err)
            if f: bad(how + ":" + f[0], "%s (%s): %s" % (how, w, f[1])); return False
            return True
        tool = tools[i % len(tools)]; rc, table, e = c.run([tool, "--dump", "a.refl"], cwd=d)
        if rc != 0: bad("tool", "crefltool --dump exits %s: %s" % (rc, e[-500:])); return
        # creflcc's own debug option
        rc, out, err = c.run(pl.command(w, ["g.c"], "b.refl") + ["-d"], cwd=d, env=pl.env(w))
        if check(rc, out, err, "creflcc -d"):
            same("b.refl", "creflcc -d")
            if out: bad("debug:stdout", "prints %r to standard output" % out[:200])
            if b"g.c" not in err: bad("debug:silent", "-d prints nothing about the file")
        # documented options in any order and number
        args = [["-o", "c.refl"]] + r.choice([[["-dump"]], [["-debug"]], [["-dump"], ["-debug"]], [["-debug"], ["-dump"], ["-debug"]]]); r.shuffle(args); flat = [x for a in args for x in a]
        rc, out, err = c.run(direct(pl, w, flat, "g.c", r.choice([[], ["-O2"], ["-g"], ["-std=gnu11"], ["-w"], ["-Wall"]])), cwd=d, env=pl.env(w))
        if check(rc, out, err, "options"):
            same("c.refl", "options"); want = table if "-dump" in flat else b""
            if out != want: bad("dump:differs", "%s prints %d bytes, crefltool --dump %d; first difference: %r" % (" ".join(flat), len(out), len(want), next(((a, b) for a, b in zip(out.split(b"\n"), want.split(b"\n")) if a != b), "length")))
            if "-dump" in flat: c.add_stat("tables compared"); c.evals += 1
        before = listing(d); only = r.choice([["-dump"], ["-debug"], ["-debug", "-dump"]])
        rc, out, err = c.run(direct(pl, w, only, "g.c"), cwd=d, env=pl.env(w))
        if check(rc, out, err, "no output file"):
            if out != (table if "-dump" in only else b""): bad("dump:differs", "%s prints another table" % only)
            c.add_stat("without output file"); c.evals += 1
        # the last of two outputs is the one that counts
        rc, out, err = c.run(direct(pl, w, ["-o", "x.refl", "-o", "y.refl"], "g.c"), cwd=d, env=pl.env(w))
        if check(rc, out, err, "two outputs"): same("y.refl", "two outputs")
        if listing(d) != before or open(os.path.join(d, "g.c")).read() != text or open(os.path.join(d, "a.refl"), "rb").read() != A: bad("files", "the folder was %s, is %s" % (before, listing(d)))
        c.add_cover(A)
        if i < 2: c.add_sample("in every mode the same %d bytes: %s" % (len(A), text[:600]))
    finally: shutil.rmtree(d, ignore_errors=True)


class Outer(list):
    """C++ keeps the tags of nested definitions inside the record; only outer ones can be mentioned elsewhere"""
    def append(self, d):
        if d.depth == 0: list.append(self, d)


def internal(d):
    """constant variables have internal linkage in C++"""
    return hasattr(d, "filled") and d.type[2][0] == "q" and "const" in d.type[2][1]


class CxxGen(cgen.Gen):
    def __init__(self, r, **kw): super().__init__(r, **kw); self.records, self.enums = Outer(), Outer()
    def param_type(self, depth=0):
        t = super().param_type(depth)
        return t[:3] + (False,) if t[0] == "arr" else t
    def qual(self, t): return super().qual(t)


def common(c, pl, i):
    """a program that is C and C++ alike reflects the same in C++ mode, in linkage specifications and namespaces too"""
    r = random.Random("cxx/%s/%d" % (c.seed, i)); g = CxxGen(r); items = g.unit(r.choice([1, 1, 2, 3, 5, 8])); rep = "cxx:%d" % i
    how = r.choice(["plain", "extern", "extern", "each", "namespace", "both", "nested"])
    body = g.render(items); linked = how in ("extern", "both", "nested")
    if how == "each": # some declarations under a linkage specification of their own, some not
        parts = []; flip = set()
        for it in items:
            t = g.render([it]); k = r.randrange(3)
            if it[0] == "raw" or "#" in t: k = 0
            if k: t = 'extern "C" {\n%s}\n' % t; flip.add(id(it[1]))
            if k == 2: t = 'extern "C" {\nextern "C++" { extern "C" {\n%s}}}\n' % t
            parts.append(t)
        body = "".join(parts)
    text = PRE + {"plain": "%s", "each": "%s", "extern": 'extern "C" {\n%s}\n', "namespace": "namespace N {\n%s}\n", "both": 'namespace N {\nextern "C" {\n%s}\n}\n', "nested": '#ifdef __cplusplus\nextern "C" {\n#endif\nnamespace N { inline namespace M {\n%s} }\n#ifdef __cplusplus\n}\n#endif\n'}[how].replace("%s", body)
    d = os.path.join(c.work, "x%d" % i); os.makedirs(d)
    def bad(key, detail): c.add_violation(key, rep, "(%s) %s" % (how, detail), text[:20000])
    try:
        inc = []
        if r.random() < .5: # as a header found by -I
            inc = ["-I", "inc", "-I", "more"]; os.makedirs(os.path.join(d, "more")); open(os.path.join(d, "more", "h.h"), "w").write(text); src = "#include <h.h>\n"; how += ", header"
        else: src = text
        open(os.path.join(d, "g.cc"), "w").write(src)
        rc, out, err = c.run([CXX, "-w", "-xc++", "-fsyntax-only", "g.cc"] + inc, cwd=d)
        if rc != 0: c.add_stat("not C++"); return
        v = pl.variants()[i % len(pl.variants())]
        rc, out, err = c.run(pl.command(v, ["g.cc"], "g.refl") + ["--cpp"] + inc, cwd=d, env=pl.env(v)); f = pl.failed(rc, err)
        if f: bad("cxx:" + f[0], "creflcc --cpp (%s): %s" % (v, f[1])); return
        dbs, e = pl.read("san" if i % 2 else "rel", ["g.refl"], d)
        if e: bad("cxx:reader:" + e[0], e[1]); return
        db = dbs["g.refl"]
        if db.rejected: bad("cxx:unreadable", "the library rejects what the plugin wrote"); return
        for x in g.top:
            if x.kind in ("function", "field") and (internal(x) or not (linked or how.startswith("each"))): x.props = x.props - {"extern_c"}
        if how.startswith("each"):
            for n in db.n.values(): n.props &= ~refl.PROP["extern_c"]       # linkage is compared in the other shapes
            for x in g.top:
                if x.kind in ("function", "field"): x.props = x.props - {"extern_c"}
        cm = refl.Compare(db)
        try: cm.source(db.root, "g.cc", g.top)
        except refl.Mismatch as x: bad("cxx:unfaithful", str(x)[:1500])
        c.evals += sum(cm.count.values()); c.add_stat("compared in C++ mode, " + how)
        for k, n in cm.count.items(): c.add_stat("compared_" + k, n)
        c.add_cover(open(os.path.join(d, "g.refl"), "rb").read())
    finally: shutil.rmtree(d, ignore_errors=True)


# what only C++ has; names start with Zx, %d numbers them. the second list is not allowed in linkage specifications
ONLY = ["class Zx%d { int a; public: Zx%d() {} ~Zx%d(); int f(int) const; static int s; virtual void g(); };", "class Zx%d; Zx%d *Zxp%d; Zx%d Zxf%d(Zx%d);", "struct Zx%d { Zx%d add(Zx%d) const; static Zx%d zero; typedef Zx%d self; using other = Zx%d; };", "enum class Zx%d : short { A, B = -3 };",
        "auto Zx%d() { return 3; }", "auto Zx%d();", "auto Zx%d = [](int x) { return x; };", "int Zxi%d; int &Zxr%d = Zxi%d; auto &&Zxs%d = static_cast<int &&>(Zxi%d);", "struct ZxB%d { int a; virtual ~ZxB%d(); }; struct Zx%d : private virtual ZxB%d { using ZxB%d::a; int b; };",
        "using Zx%d = int (*)(int);", "constexpr int Zx%d = 4; static_assert(Zx%d == 4, \"\");", "struct Zx%d { int b : 3; int a[2]; Zx%d(const Zx%d &) = delete; operator bool() const; Zx%d *operator->(); struct In { Zx%d *up; } in; union { int u; float v; }; };", "struct Zx%d { class ZxIn; enum E { ZxE%d } e; class ZxIn *p; }; class Zx%d::ZxIn { Zx%d a; };",
        "void Zx%d(decltype(nullptr)); int (&Zxa%d)[3] = *(int (*)[3])0;", "struct Zx%d { auto m() { return [this] { return this; }; } }; struct ZxD%d : Zx%d { using Zx%d::Zx%d; };", "struct Zx%d { int m; void n(); }; int Zx%d::*ZxM%d = &Zx%d::m; void (Zx%d::*ZxN%d)() = &Zx%d::n;", "struct Zx%d { friend int Zxg%d(Zx%d &) { return 1; } friend struct ZxF%d; friend class ZxG%d; int c; };",
        "int Zx%d(int a = 3); int Zx%d(double); int Zx%d(const int *, ...);", "struct Zx%d { static int Zxf(); int Zxg(); }; int Zx%d::Zxf() { return 1; } int Zx%d::Zxg() { return 2; }", "struct Zx%d { struct In; struct In { Zx%d *p; class Deep { In q; } *d; } i; mutable int k; static thread_local int t; };", "decltype(auto) Zx%d(int x) { return (x); }", "typedef struct ZxA%d { int f() { return 1; } int q; } Zx%d;"]
TEMPLATES = ["template<class T> struct Zx%d { T a; int n : sizeof(T); T f(T x) { return x; } enum { v = sizeof(T) }; struct In { T a[v]; }; union { T x; int y; }; typedef T type; };", "template<class T, int N> T Zx%d(T (&x)[N]) { struct L { T y; } l; return x[0]; }", "template<class T> T Zx%d = T();", "template<class T> using Zx%d = T *; Zx%d<int> Zxq%d;",
             "template<class T> struct Zx%d { T x; static T Zxs; void Zxf(); }; template<class T> T Zx%d<T>::Zxs; template<class T> void Zx%d<T>::Zxf() {} template<> struct Zx%d<int> { int y; }; template struct Zx%d<char>; extern template struct Zx%d<short>; Zx%d<long> Zxv%d;", "template<class... T> struct Zx%d; template<class T, class... U> struct Zx%d<T, U...> : Zx%d<U...> { T t; }; template<> struct Zx%d<> {}; Zx%d<int, char> Zxv%d;",
             "struct Zx%d { template<class T> T f(T); template<class T> struct In { T x; }; template<class T> operator T(); template<class T> friend void ZxF%d(T); In<int> i; }; template<class T> T Zx%d::f(T x) { return x; }", "template<template<class> class C, class T> struct Zx%d { C<T> c; typename C<T>::type t; friend T; };", "template<class T> auto Zx%d(T x) -> decltype(x + 1); template<> auto Zx%d(int x) -> decltype(x + 1) { return x; }",
             "template<class T> constexpr bool Zx%d = sizeof(T) == 1; template<> constexpr bool Zx%d<int> = false;", "struct Zx%d { template<class T> static const T Zxk; int z; }; template<class T> const T Zx%d::Zxk = T();", "template<class T> struct Zx%d { enum class E : T; E e; T *p; alignas(T) char b[sizeof(T)]; int f : 3; }; template<class T> enum class Zx%d<T>::E : T { A };"]
MEMBERS = ["int zx%d(int) const;", "static int zx%d;", "void operator()(int) { }", "typedef int zx%d;", "using zx%d = int;", "template<class T> T zx%d(T);", "template<class T> struct zx%d { T t; };", "friend void Zxf%d();", "friend class ZxF%d;", "explicit operator int() const;", "static constexpr int zx%d = 3;", "void zx%d() &&; void zx%d() const &;", "public:", "static_assert(1, \"\");"]


def dress(r, items, g, linked):
    """the text of the items with members and declarations among them that only C++ has; linked leaves out templates"""
    out = []; k = [r.randrange(1000)]
    def fill(t): k[0] += 1; return t.replace("%d", str(k[0]))
    only = [fill(t) for t in r.choices(ONLY + ([] if linked else TEMPLATES), k=r.randint(1, 8))] + [None] * len(items); r.shuffle(only); it = iter(items)
    def members(m): return m.group(0) + " " + " ".join(fill(t) for t in r.choices(MEMBERS, k=r.randint(1, 3)) if not (linked and "template" in t)) if r.random() < .5 else m.group(0)
    for x in only:
        if x is not None: out.append(x + "\n" if r.random() < .7 or "::" in x else "namespace Zxn%d { %s }\n" % (k[0], x)); continue
        x = next(it); t = g.render([x])
        if x[0] not in ("raw", "fn") and "#" not in t: t = re.sub(r"\b(struct|union)((?: __attribute__\(\((?:[^()]|\([^()]*\))*\)\))*) (\w+) \{", members, t)
        out.append(t)
    return "".join(out)


def own(nodes): return [n for n in nodes if not n.name.startswith("Zx") and not n.name.startswith("operator")]


def rich(c, pl, i):
    """C++ of its own around and inside the declarations of a program that is C and C++ alike changes nothing of them"""
    r = random.Random("rich/%s/%d" % (c.seed, i)); g = CxxGen(r); items = g.unit(r.choice([1, 2, 3, 5, 8])); rep = "rich:%d" % i
    how = r.choice(["plain", "plain", "namespace", "extern"]); text = PRE + {"plain": "%s", "namespace": "namespace N {\n%s}\n", "extern": 'extern "C" {\n%s}\n'}[how].replace("%s", dress(r, items, g, how == "extern"))
    d = os.path.join(c.work, "rich%d" % i); os.makedirs(d); open(os.path.join(d, "g.cc"), "w").write(text)
    try: judge(c, pl, d, i, rep, "rich", how, text, g, own, how == "extern")
    finally: shutil.rmtree(d, ignore_errors=True)


def judge(c, pl, d, i, rep, fam, how, text, g, keep, linked, args=()):
    def bad(key, detail): c.add_violation(key, rep, "(%s) %s" % (how, detail), text[:20000])
    rc, out, err = c.run([CXX, "-w", "-xc++", "-fsyntax-only", "g.cc"] + list(args), cwd=d)
    if rc != 0: c.add_stat("%s: not C++" % fam); return
    v = pl.variants()[i % len(pl.variants())]
    rc, out, err = c.run(pl.command(v, ["g.cc"], "g.refl") + ["--cpp"], cwd=d, env=pl.env(v), timeout=600) if not args else c.run([CXX, "-xc++"] + list(args) + direct(pl, v, ["-o", "g.refl"], "g.cc")[1:], cwd=d, env=pl.env(v), timeout=600)
    f = pl.failed(rc, err)
    if f: bad("%s:%s" % (fam, f[0]), "C++ mode (%s): %s" % (v, f[1])); return
    dbs, e = pl.read("san" if i % 2 else "rel", ["g.refl"], d)
    if e: bad("%s:reader:%s" % (fam, e[0]), e[1]); return
    db = dbs["g.refl"]
    if db.rejected: bad("%s:unreadable" % fam, "the library rejects what the plugin wrote"); return
    for x in g.top:
        if x.kind in ("function", "field") and (internal(x) or not linked): x.props = x.props - {"extern_c"}
    try: nodes = len(db.n); db.prune(keep); cm = refl.Compare(db); cm.source(db.root, "g.cc", g.top)
    except refl.Mismatch as x: bad("%s:unfaithful" % fam, str(x)[:1500]); return
    c.evals += sum(cm.count.values()); c.add_stat("%s: compared, %s" % (fam, how)); c.add_stat("%s: declarations of C++" % fam, nodes)
    c.add_cover(open(os.path.join(d, "g.refl"), "rb").read())


def library():
    """headers of the C++ libraries that are installed"""
    out = []
    for base, depth in (("/usr/include/c++", 2), ("/usr/include/boost", 2), ("/usr/include/gtest", 1), ("/usr/include/rapidcheck", 2)):
        for p, ds, fs in os.walk(base):
            ds.sort(); rel = os.path.relpath(p, base); n = 0 if rel == "." else rel.count("/") + 1
            if n >= depth: ds[:] = []
            if base.endswith("c++") and n != 1: continue
            out += [os.path.join(p, f) for f in sorted(fs) if f.endswith((".h", ".hpp")) or base.endswith("c++")]
    return out


def real(c, pl, i, h):
    """headers of real C++ libraries are taken, and what comes after them is unchanged"""
    r = random.Random("real/%s/%d" % (c.seed, i)); g = CxxGen(r); items = g.unit(r.choice([1, 2, 3])); rep = "real:%d" % i; std = r.choice(["-std=c++14", "-std=c++17", "-std=gnu++20"])
    text = '#include "%s"\nstruct Zxmark;\n' % h + PRE + g.render(items); d = os.path.join(c.work, "real%d" % i); os.makedirs(d); open(os.path.join(d, "g.cc"), "w").write(text)
    def after(nodes): k = max([j for j, n in enumerate(nodes) if n.name == "Zxmark"], default=None); return nodes if k is None else nodes[k + 1:]
    try: judge(c, pl, d, i, rep, "library", std, text, g, after, False, [std, "-w"])
    finally: shutil.rmtree(d, ignore_errors=True)


def wrong(c, pl, tool):
    """options that make no sense are refused, aloud, and nothing is written"""
    d = os.path.join(c.work, "wrong"); os.makedirs(d); open(os.path.join(d, "g.c"), "w").write("struct A { int a; };\n"); open(os.path.join(d, "h.c"), "w").write("struct B { int b; };\n")
    py = lambda v, *a: pl.command(v, [], "o.refl")[:4] + list(a)
    for v in pl.variants():
        cases = [("no option", direct(pl, v, [], "g.c")), ("unknown option", direct(pl, v, ["-o", "o.refl", "-dumb"], "g.c")), ("unknown option first", direct(pl, v, ["--dump", "-o", "o.refl"], "g.c")), ("-o without a name", direct(pl, v, ["-dump", "-o"], "g.c")), ("stray word", direct(pl, v, ["o.refl", "-dump"], "g.c")),
                 ("no such source", direct(pl, v, ["-o", "o.refl"], "missing.c")), ("creflcc: no source", py(v, "-o", "o.refl")), ("creflcc: no output", py(v, "g.c")), ("creflcc: no such source", py(v, "-o", "o.refl", "missing.c")), ("creflcc: unknown option", py(v, "-o", "o.refl", "--frob", "g.c")),
                 ("creflcc: no plugin there", [x if x != pl.dir[v] else d for x in py(v, "-o", "o.refl", "g.c")])]
        for name, cmd in cases:
            rc, out, err = c.run(cmd, cwd=d, env=pl.env(v)); c.evals += 1; c.add_stat("refused"); c.add_cover("wrong " + name)
            if rc == 0 or rc == "timeout" or (isinstance(rc, int) and (rc < 0 or rc >= 128)) or b"Sanitizer" in err or b"PLEASE submit" in err: c.add_violation("accepted:" + name, "wrong:" + name, "%s: exit %s %s" % (name, rc, err[-800:].decode(errors="replace")), " ".join(cmd))
            if not err.strip(): c.add_violation("silent:" + name, "wrong:" + name, "%s: exit %s without a word" % (name, rc), " ".join(cmd))
            if listing(d) != ["g.c", "h.c"]: c.add_violation("written:" + name, "wrong:" + name, "leaves %s" % listing(d), " ".join(cmd)); [os.unlink(os.path.join(d, x)) for x in listing(d) if x not in ("g.c", "h.c")]
        # several sources and one output: all of them, or a refusal
        rc, out, err = c.run(py(v, "-o", "o.refl", "g.c", "h.c"), cwd=d, env=pl.env(v)); c.evals += 1
        if rc == 0:
            dump = c.run([tool, "--dump-all", "o.refl"], cwd=d)[1] if os.path.exists(os.path.join(d, "o.refl")) else b""
            if b" A " not in dump or b" B " not in dump: c.add_violation("several sources", "wrong:several", "creflcc exits 0 for two sources and leaves out one of them", dump.decode(errors="replace")[:3000])
        elif not err.strip(): c.add_violation("silent:several", "wrong:several", "refused without a word", "")
        for x in listing(d):
            if x not in ("g.c", "h.c"): os.unlink(os.path.join(d, x))
        # show the command only
        rc, out, err = c.run(py(v, "-n", "-o", "o.refl", "g.c"), cwd=d, env=pl.env(v)); c.evals += 1
        if rc != 0 or b"-plugin" not in out or listing(d) != ["g.c", "h.c"]: c.add_violation("no-exec", "wrong:no-exec", "creflcc -n: exit %s, prints %r, leaves %s" % (rc, out[:300], listing(d)), "")
        else: # and the command is the one that does it
            cmd = [x for x in out.decode().replace("\\\n", " ").split()]; rc, o2, err = c.run(cmd, cwd=d, env=pl.env(v)); c.evals += 1
            if rc != 0 or listing(d) != ["g.c", "h.c", "o.refl"]: c.add_violation("no-exec", "wrong:no-exec", "the command creflcc -n shows exits %s and leaves %s: %s" % (rc, listing(d), err[-500:]), "")
            else: os.unlink(os.path.join(d, "o.refl"))


def pick(c, n):
    hs = library(); r = random.Random("headers/%s" % c.seed); r.shuffle(hs); return hs[:n]


def run(c):
    pl = plug.Plugin(c); tools = [c.build_tool("crefltool", v) for v in ("san", "rel")]
    if c.replay:
        k, _, v = c.replay.partition(":")
        modes(c, pl, tools, int(v)) if k == "modes" else common(c, pl, int(v)) if k == "cxx" else rich(c, pl, int(v)) if k == "rich" else real(c, pl, int(v), pick(c, int(v) + 1)[int(v)]) if k == "real" else wrong(c, pl, tools[1])
        return "replay"
    hs = pick(c, int((28 if c.quick else 4000) * c.scale))
    n, m = int((160 if c.quick else 5000) * c.scale), int((420 if c.quick else 12000) * c.scale)
    with ThreadPoolExecutor(NPROC) as ex:
        jobs = [ex.submit(wrong, c, pl, tools[1])] + [ex.submit(modes, c, pl, tools, i) for i in range(n)] + [ex.submit(common, c, pl, i) for i in range(m)] + [ex.submit(real, c, pl, i, h) for i, h in enumerate(hs)] + [ex.submit(rich, c, pl, i) for i in range(m // 2)]
        for j in jobs: j.result()
    if c.stats.get("program_not_accepted", 0) > n // 4 or c.stats.get("not C++", 0) > m // 2: raise RuntimeError("the compiler accepts too few of the programs")
    c.assumptions += ["LLVM 14 clang is the compiler the plugin runs in; how declarations that only C++ has are shown is not judged"]
    return "one per run whose metadata, output and files were compared with those of a plain run, distinct by the bytes of the metadata; and one per declaration compared with the model in C++ mode"
