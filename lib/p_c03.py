import json, os, random, shutil
from concurrent.futures import ThreadPoolExecutor
import cgen, hdr, refl, plug
from vf import NPROC

HEADERS = ["stdio.h", "stdlib.h", "string.h", "math.h", "time.h", "signal.h", "errno.h", "ctype.h", "wchar.h", "locale.h", "setjmp.h", "stdint.h", "stdarg.h", "complex.h", "fenv.h", "pthread.h", "unistd.h", "fcntl.h", "dirent.h", "poll.h", "netdb.h", "pwd.h",
           "sys/types.h", "sys/stat.h", "sys/socket.h", "sys/time.h", "sys/mman.h", "sys/resource.h", "netinet/in.h", "arpa/inet.h", "elf.h", "link.h", "semaphore.h", "search.h", "regex.h", "glob.h", "spawn.h", "termios.h", "ucontext.h", "sys/epoll.h", "netinet/tcp.h", "linux/input.h", "linux/videodev2.h", "linux/perf_event.h", "linux/if_ether.h"]
KIND = {"TypedefDecl": "typedef", "EnumDecl": "enum", "EnumConstantDecl": "constant", "FunctionDecl": "function", "VarDecl": "field", "FieldDecl": "field"}


BIG = 10 ** 6   # units from this number on are big ones


def build_unit(seed, i, quick):
    if i >= BIG:
        r = random.Random("big/%s/%s" % (seed, i)); g = cgen.Gen(r, others=True); return g, g.big(i % 4, r.choice([65530, 65536, 66000, 70000]))
    r = random.Random("%s/%s" % (seed, i)); n = r.choice([1, 2, 4, 8, 16, 24, 40 if quick else 90])
    g = cgen.Gen(r, others=True, huge=True, fwd_enums=True); items = g.unit(n)
    return g, items


def split(g, items, r):
    """the program as one file, or with its first part in headers"""
    if r.random() < .75 or len(items) < 2: return {"g.c": g.render(items)}
    k = r.randrange(1, len(items)); m = r.randrange(0, k + 1)
    lines = [g.render([x]) for x in items]
    return {"h1.h": "#ifndef H1\n#define H1\n" + "".join(lines[:m]) + "#endif\n", "sub/h2.h": "#pragma once\n#include \"h1.h\"\n" + "".join(lines[m:k]), "g.c": "#include <h2.h>\n#include \"h1.h\"\n#include \"h2.h\"\n" + "".join(lines[k:])}


def unit(c, pl, i, keep=None):
    r = random.Random("split/%s/%s" % (c.seed, i)); g, items = build_unit(c.seed, i, c.quick); files = split(g, items, r)
    rep = "unit:%d" % i; d = os.path.join(c.work, "u%d" % i); os.makedirs(os.path.join(d, "sub")); os.makedirs(os.path.join(d, "other"))
    text = "".join("/* %s */\n%s" % kv for kv in sorted(files.items()))
    def bad(key, detail): c.add_violation(key, rep, detail, text[:20000])
    try:
        for k, v in files.items():
            with open(os.path.join(d, k), "w") as f: f.write(v)
        vs = pl.variants(); a = vs[i % len(vs)]; b = vs[(i + 1) % len(vs)]; inc = [d, os.path.join(d, "sub")]
        limit = 300 if i >= BIG else 60; rc, out, err = pl.run(a, "g.c", "a.refl", d, inc, timeout=limit)
        f = pl.failed(rc, err)
        if f and f[0] == "rejected": c.add_stat("program_not_accepted"); c.add_sample("not accepted: " + f[1][:600]); return
        if f: bad("plugin:" + f[0], "plugin (%s): %s" % (a, f[1])); return
        c.evals += 1
        A = os.path.join(d, "a.refl")
        if not os.path.exists(A): bad("no-output", "the plugin exits 0 and writes nothing"); return
        # the same source from another place, and with the other build of the plugin
        rc, out, err = pl.run(b, os.path.join(d, "g.c"), os.path.join(d, "other", "zz.refl"), os.path.join(d, "other"), inc, timeout=limit)
        f = pl.failed(rc, err)
        if f: bad("plugin:" + f[0], "plugin (%s): %s" % (b, f[1])); return
        with open(A, "rb") as x, open(os.path.join(d, "other", "zz.refl"), "rb") as y:
            X, Y = x.read(), y.read()
        c.evals += 1; c.add_stat("reruns")
        if X != Y: bad("not-reproducible", "two runs on the same source write different metadata (%d and %d bytes, first difference at %d)" % (len(X), len(Y), next((k for k in range(min(len(X), len(Y))) if X[k] != Y[k]), min(len(X), len(Y)))))
        dbs, e = pl.read("san" if i % 2 else "rel", ["a.refl"], d)
        if e: bad("reader:" + e[0], e[1]); return
        db = dbs["a.refl"]
        if db.rejected: bad("unreadable", "the library rejects what the plugin wrote"); return
        cm = refl.Compare(db)
        try: cm.source(db.root, "g.c", g.top)
        except refl.Mismatch as x:
            msg = str(x); key = "unfaithful:" + ("order" if ": declaration " in msg else "attributes" if ": attributes" in msg else "value" if ": value" in msg else "type" if ": type is" in msg else "reference" if "refers to" in msg else "bits" if "bit-field" in msg else "properties" if "properties" in msg else "other")
            bad(key, msg[:1500])
        c.evals += sum(cm.count.values())
        for k, v in cm.count.items(): c.add_stat("compared_" + k, v)
        c.add_cover(X)
        if i >= BIG: c.add_stat("big_units"); c.add_stat("most_declarations", max(0, len(db.n) - c.stats.get("most_declarations", 0)))
        if i < 3: c.add_sample(text[:900])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def jdecls(n, rec=None):
    """(kind, name, extra, children) of the declarations the compiler lists below n"""
    out = []
    for x in n.get("inner", []):
        k = x.get("kind")
        if x.get("isImplicit") and k != "FieldDecl": continue
        if k == "RecordDecl": out.append((x["tagUsed"], x.get("name", ""), None, jdecls(x)))
        elif k in ("TypedefDecl", "EnumConstantDecl", "VarDecl"): out.append((KIND[k], x.get("name", ""), None, []))
        elif k == "FieldDecl": out.append(("field", x.get("name", ""), bool(x.get("isBitfield")), []))
        elif k == "EnumDecl": out.append(("enum", x.get("name", ""), None, jdecls(x)))
        elif k == "FunctionDecl": out.append(("function", x.get("name", ""), [p.get("name", "") for p in x.get("inner", []) if p.get("kind") == "ParmVarDecl"], []))
    return out


def header(c, pl, hs):
    """system headers: the declarations are those of the compiler's own syntax tree"""
    name = hs[0].replace("/", "_"); d = os.path.join(c.work, "h_" + name); os.makedirs(d); rep = "headers:" + ",".join(hs)
    def bad(key, detail): c.add_violation(key, rep, detail, detail)
    try:
        with open(os.path.join(d, "h.c"), "w") as f: f.write("#define _GNU_SOURCE 1\n" + "".join("#include <%s>\n" % h for h in hs))
        rc, js, err = c.run([plug.CLANG, "-fsyntax-only", "-Xclang", "-ast-dump=json", "h.c"], cwd=d, timeout=120)
        if rc != 0: c.add_stat("header_not_here"); return
        want = jdecls(json.loads(js)); v = pl.variants()[len(name) % len(pl.variants())]
        rc, out, err = pl.run(v, "h.c", "h.refl", d)
        f = pl.failed(rc, err)
        if f: bad("plugin:" + f[0], "plugin (%s) on %s: %s" % (v, hs, f[1])); return
        dbs, e = pl.read("rel", ["h.refl"], d)
        if e: bad("reader:" + e[0], e[1]); return
        db = dbs["h.refl"]; n = [0]
        def walk(id, want, path):
            got = [db.n[db.real(i)] for i in db.chain(db.n[id].link)]
            for i in range(max(len(got), len(want))):
                g = (got[i].tag, got[i].name) if i < len(got) else None; w = want[i][:2] if i < len(want) else None
                if g != w: bad("header-order", "%s of <%s>: declaration %d of %d is %s, the compiler has %s (%d)" % ("/".join(path) or "top", hs[0], i, len(got), g, w, len(want))); return False
                n[0] += 1; x = got[i]; k, name, extra, kids = want[i]
                if k == "field" and extra is not None and bool(x.props & refl.PROP["bitfield"]) != extra: bad("header-bits", "%s of <%s>: bit-field: %s" % ("/".join(path + [name]), hs[0], not extra)); return False
                if k == "function" and [db.n[p].name for p in db.chain(x.link)][1:] != extra: bad("header-params", "%s of <%s>: parameters are %s" % (name, hs[0], [db.n[p].name for p in db.chain(x.link)])); return False
                if k in ("struct", "union", "enum") and not walk(x.id, kids, path + [name]): return False
            return True
        walk(db.root, want, []); c.evals += n[0]; c.add_stat("header_declarations", n[0]); c.add_stat("headers"); c.add_cover("header " + hs[0])
    except refl.Mismatch as x: bad("header-graph", str(x))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gcc_header(c, pl, h): hdr.unit(c, pl, h, "types", "gcc:" + h, lambda key, detail: c.add_violation(key, "gcc:" + h, detail, detail))


def run(c):
    pl = plug.Plugin(c)
    if c.replay:
        k, _, v = c.replay.partition(":")
        if k == "gcc": gcc_header(c, pl, v)
        else: unit(c, pl, int(v)) if k == "unit" else header(c, pl, v.split(","))
        return "replay"
    n = int((400 if c.quick else 12000) * c.scale)
    sets = [[h] for h in (random.Random(c.seed).sample(HEADERS, 14) if c.quick else HEADERS)] + ([] if c.quick else [HEADERS])
    every = hdr.available(); more = random.Random("gcc%s" % c.seed).sample(every, min(60, len(every))) + ["stdio.h", "signal.h", "sys/socket.h"] if c.quick else every
    with ThreadPoolExecutor(NPROC) as ex:
        jobs = [ex.submit(unit, c, pl, BIG + i) for i in range(4 if c.quick else 24)] + [ex.submit(unit, c, pl, i) for i in range(n)] + [ex.submit(header, c, pl, s) for s in sets] + [ex.submit(gcc_header, c, pl, h) for h in more]
        for j in jobs: j.result()
    if c.stats.get("program_not_accepted", 0) > n // 4: raise RuntimeError("the compiler accepts too few of the programs")
    c.assumptions += ["LLVM 14 clang is the compiler the plugin runs in; gcc's debug information tells what it takes the same text to declare"]
    return "one per generated program whose metadata was read back and compared declaration by declaration with the generator's model, distinct by the bytes of the metadata; and one per system header compared with the compiler's syntax tree"
