import os, random, shutil
from concurrent.futures import ThreadPoolExecutor
import cgen, refl, plug, p_c04
from vf import NPROC


def project(seed, i, quick):
    """headers and sources: [(name, text lines, probe text lines, top)], the headers each source includes"""
    r = random.Random("c25/%s/%s" % (seed, i)); nh = r.choice([0, 1, 2, 3]); ns = r.choice([1, 2, 2, 3, 4, 6 if quick else 12])
    size = r.choice([2, 5, 9]); headers = []; avail = []
    def gen(tag, base, bodies):
        g = cgen.Gen(r, packed=False, probe=True, bodies=bodies, tag=tag)
        for b in base:
            g.records += b.records; g.enums += b.enums; g.typedefs += b.typedefs
        return g
    for h in range(nh):
        base = [x for x in range(h) if r.random() < .5]     # headers this one includes
        inc = closure(headers, base); g = gen("H%d_" % h, [headers[x]["g"] for x in inc], False); g.header = True; items = only_declarations(g, g.unit(size))
        headers.append({"g": g, "base": base, "items": items, "text": g.render(items), "probe": g.render(items, probe=True)})
    sources = []; clash = r.random() < .5
    for s in range(ns):
        base = [x for x in range(nh) if r.random() < .7]; r.shuffle(base); inc = closure(headers, base)
        g = gen("M%d_" % s, [headers[x]["g"] for x in inc], True); items = g.unit(r.choice([0, 1, 4, size]))
        if clash and r.random() < .8:     # a declaration that elsewhere is the same, or different in one detail
            for k in range(4):
                if r.random() < .25: continue
                d = namesake("%s/%s/%d" % (seed, i, k), "Clash%d_%d" % (i, k), r)
                g.top.append(d); items.append(({"struct": "rec", "union": "rec", "enum": "enum", "typedef": "typedef", "function": "fn", "field": "var"}[d.kind], d))
        sources.append({"name": r.choice(["m%d.c", "src%d.x.c", "a file %d.c"]) % s, "g": g, "base": base, "inc": inc, "text": g.render(items), "probe": g.render(items, probe=True)})
    return headers, sources, r


INT, CHAR, LONG = ("int", "int", 1, 32), ("int", "char", 1, 8), ("int", "long", 1, 64)


def namesake(key, name, r):
    """a declaration that is the same for the same key, but for one change or none"""
    b = random.Random(key); kind = b.choice(["struct", "struct", "struct", "union", "enum", "typedef", "function", "field"]); m = r.choice([None, None, None] + list(range(14)))
    def ty(): return b.choice([INT, CHAR, LONG, ("bool",), ("float", "double", 64), ("ptr", CHAR), ("ptr", ("q", frozenset(["const"]), CHAR)), ("arr", 3, INT, False), ("ptr", ("ptr", INT))])
    def other(t): return {0: ("ptr", t), 1: ("q", frozenset(["volatile"]), t) if t[0] in ("int", "bool") else LONG, 2: ("arr", 4, t, False), 3: ("int", "unsigned", 0, 32)}[r.randrange(4)] if t[0] != "arr" else ("arr", 4, t[2], False)
    def note(x): return [("annotate", x, True)]
    d = cgen.Decl(kind, name)
    if b.random() < .5: d.attrs = note("one")
    if m == 12: d.attrs = note("two")
    if m == 13: d.attrs = [] if d.attrs else [("deprecated", None, True)]
    def fields():
        out = []; n = b.randrange(2, 6)
        for k in range(n):
            f = cgen.Decl("field", "m%d" % k); f.type = ty()
            if b.random() < .4: f.type = INT; f.bits = b.randrange(2, 20); f.props = {"bitfield"}
            if b.random() < .3: f.attrs = note("f%d" % k)
            out.append(f)
        return out
    if kind in ("struct", "union"):
        d.members = fields(); inner = cgen.Decl("enum", ""); inner.ptag = "PT" + name; v = 0
        for k in range(2): x = cgen.Decl("constant", "%s_k%d" % (name, k)); x.value = b.randrange(99); x.expr = "%d" % x.value; inner.members.append(x)
        inner.qty = 32; f = cgen.Decl("field", "sel"); f.type = ("enum", inner); fs = d.members
        x = r.choice(fs); bf = [y for y in fs if hasattr(y, "bits")]; at = [y for y in fs if y.attrs]
        if m == 4: x = r.choice([y for y in fs if y not in bf] or [x])
        if m is not None and m not in (10, 12, 13) and r.random() < .5: m = r.choice([0] * (len(bf) > 0) + [2] * (len(at) > 0) + [4, 6, 8])
        if m in (0, 1) and bf: r.choice(bf).bits += 1
        elif m == 2 and at: r.choice(at).attrs = note("changed")
        elif m == 3 and at: r.choice(at).attrs = []
        elif m == 4 and not hasattr(x, "bits"): x.type = other(x.type)
        elif m == 5: x.name += "x"
        elif m == 6: fs[0], fs[1] = fs[1], fs[0]
        elif m == 7: fs.pop()
        elif m == 8: inner.members[1].value += 1; inner.members[1].expr = "%d" % inner.members[1].value
        elif m == 9: inner.members[0].name += "x"
        elif m == 10: d.kind = "union" if kind == "struct" else "struct"
        elif m == 11: y = cgen.Decl("field", "more"); y.type = INT; fs.append(y)
        d.members = fs + [inner, f]; d.body = [([y], None) for y in fs] + [([f], inner)]
    elif kind == "enum":
        for k in range(3): x = cgen.Decl("constant", "%s_k%d" % (name, k)); x.value = b.randrange(99); x.expr = "%d" % x.value; d.members.append(x)
        if m is not None and m < 5: x = r.choice(d.members); x.value += 1; x.expr = "%d" % x.value
        elif m is not None and m < 8: r.choice(d.members).name += "x"
        d.qty = 32
    elif kind in ("typedef", "field"):
        d.type = ty(); d.inline = None
        if m is not None and m < 8: d.type = other(d.type)
        if kind == "field": d.var = True; d.spell = "extern "; d.props = {"static", "extern_c"}
    else:
        for k in range(b.randrange(1, 4)): x = cgen.Decl("param", "p%d" % k); x.type = b.choice([INT, CHAR, LONG, ("ptr", CHAR)]); d.members.append(x)
        d.ret = b.choice([("void",), INT, ("ptr", CHAR)]); d.body = False; d.variadic = d.noret = False; d.spell = ""; d.props = {"global", "extern_c"}
        x = r.choice(d.members)
        if m in (0, 1): x.type = ("ptr", x.type)
        elif m in (2, 3): x.name += "x"
        elif m in (4, 5): d.ret = LONG
        elif m in (6, 7): d.spell = "static inline "; d.props = {"static", "inline"}; d.body = True
    return d


def closure(headers, base):
    """the headers included, in the order their text comes"""
    out = []
    def add(x):
        if x in out: return
        for y in headers[x]["base"]: add(y)
        if x not in out: out.append(x)
    for x in base: add(x)
    return out


def only_declarations(g, items):
    """headers define no objects"""
    for k, d in items:
        if k == "var":
            if getattr(d, "inline", None) is not None or d.spell in ("", "_Thread_local "):
                d.spell = "static " if getattr(d, "inline", None) is not None else "extern "; d.props = {"static"} if d.spell == "static " else {"static", "extern_c"}
                d.attrs = [a for a in d.attrs if a[0] != "used"] if d.spell == "extern " else d.attrs
    return items


def unit(c, pl, tools, link, i):
    headers, sources, r = project(c.seed, i, c.quick); rep = "unit:%d" % i; d = os.path.join(c.work, "u%d" % i); os.makedirs(d)
    for h, x in enumerate(headers):
        for k, suffix in (("text", ""), ("probe", "_p")):
            with open(os.path.join(d, "h%d%s.h" % (h, suffix)), "w") as f: f.write("#ifndef H%d\n#define H%d\n%s%s#endif\n" % (h, h, "".join('#include "h%d%s.h"\n' % (y, suffix) for y in x["base"]), x[k]))
    for x in sources:
        with open(os.path.join(d, x["name"]), "w") as f: f.write("".join('#include "h%d.h"\n' % y for y in x["base"]) + x["text"])
    text = "".join("/* %s */\n%s" % (x, open(os.path.join(d, x)).read()) for x in sorted(os.listdir(d)) if not x.endswith("_p.h"))
    def bad(key, detail): c.add_violation(key, rep, detail, text[:30000])
    def step(what, cmd, env=None):
        rc, out, err = c.run(cmd, cwd=d, env=env, timeout=120); e = err.decode(errors="replace")
        if rc == "timeout": bad("hang:" + what, what + " does not terminate"); return None
        if "Sanitizer" in e or "runtime error:" in e or rc not in (0, 1): bad(c.crash_key(e, rc), "%s: exit %s %s" % (what, rc, e[-2000:])); return None
        if rc != 0: bad("step:" + what, "%s exits %s: %s" % (what, rc, e[-1500:])); return None
        return out.decode(errors="replace")
    try:
        refls = []
        for k, x in enumerate(sources):
            v = pl.variants()[(i + k) % len(pl.variants())]; o = "m%d.refl" % k
            rc, out, err = pl.run(v, x["name"], o, d); f = pl.failed(rc, err)
            if f and f[0] == "rejected": c.add_stat("program_not_accepted"); c.add_sample("not accepted: " + f[1][:600]); return
            if f: bad("plugin:" + f[0], f[1]); return
            refls.append(o)
        tool = tools["san" if i % 2 else "rel"]
        cut = r.randrange(1, len(refls)) if len(refls) > 2 and r.random() < .3 else 0    # merged in two steps
        if cut:
            if step("merge", [tool, "--merge", "part.refl"] + refls[:cut]) is None: return
            c.add_stat("merged_in_steps")
        if step("merge", [tool, "--merge", "all.refl"] + (["part.refl"] if cut else []) + refls[cut:]) is None: return
        if step("emit", [tool, "--emit", "all.c", "all.refl"]) is None: return
        # the program: its own sources, the metadata and the reader
        objs = []
        rc, out, err = c.run(["gcc", "-w", "-O0", "-c", "all.c", "-o", "all.o"], cwd=d, timeout=120)
        if rc != 0: bad("emitted-text", "the emitted source does not compile: " + err.decode(errors="replace")[:1500]); return
        for k, x in enumerate(sources):
            rc, out, err = c.run([plug.CLANG, "-w", "-O0", "-c", x["name"], "-o", "s%d.o" % k], cwd=d, timeout=120)
            if rc != 0: c.add_stat("program_not_accepted"); c.add_sample("not accepted: " + err.decode(errors="replace")[:600]); return
            objs.append("s%d.o" % k)
        rc, out, err = c.run(link + objs + ["all.o", "-o", "prog"], cwd=d, timeout=120)
        if rc != 0:
            e = err.decode(errors="replace")
            if "__crefl_main" in e: bad("link", "the emitted metadata does not link: " + e[-1500:])
            else: c.add_stat("program_not_linked"); c.add_sample("not linked: " + e[-900:])
            return
        out = step("program", [os.path.join(d, "prog")])
        if out is None: return
        db = refl.Db(out)
        root = db.n.get(db.root)
        if root is None or root.tag != "archive": bad("root", "the root is %s" % (root and root.tag)); return
        src = [db.n[x] for x in db.chain(root.link)]
        if root.sources != [x.id for x in src]: bad("sources", "sources query gives %s of %s" % (root.sources, [x.id for x in src])); return
        if [x.name for x in src] != [x["name"] for x in sources]: bad("sources", "sources are %s, the program has %s" % ([x.name for x in src], [x["name"] for x in sources])); return
        c.evals += 1; c.add_cover(out); c.add_stat("programs_of_%02d_sources" % len(sources)); c.add_stat("headers_%d" % len(headers))
        if db.n and any(n.tag == "alias" for n in db.n.values()): c.add_stat("programs_with_shared_definitions")
        for k, x in enumerate(sources):
            top = [t for y in x["inc"] for t in headers[y]["g"].top] + x["g"].top
            cm = refl.Compare(db, merged=True)
            try: cm.source(src[k].id, x["name"], top)
            except refl.Mismatch as e: bad("unfaithful", "source %d of %d: %s" % (k, len(sources), str(e)[:1500])); return
            c.evals += sum(cm.count.values())
            for a, b in cm.count.items(): c.add_stat("compared_" + a, b)
            # layout, as this source's compiler sees it
            if k < (2 if c.quick else 99):
                class G: pass
                g = x["g"]; gg = cgen.Gen(random.Random(0)); gg.top = top; gg.is_complete = g.is_complete; pr = p_c04.probes(gg)
                with open(os.path.join(d, "p%d.c" % k), "w") as f: f.write(p_c04.HEAD % ("".join('#include "h%d_p.h"\n' % y for y in x["base"]) + x["probe"]) + "int main(void) {\n" + "\n".join(pr.code) + "\nreturn 0; }\n")
                vals, e = p_c04.probe_values(c, d, "p%d.c" % k, "p%d" % k)
                if vals is None: c.add_stat("probe_not_accepted"); c.add_sample("probe: " + e[:900]); continue
                old = db.root; db.root = src[k].id
                try: p_c04.check(db, gg, top, pr, vals, lambda a, b: bad("layout:" + a, b[:1200]), c.add_stat)
                finally: db.root = old
                c.evals += len(vals)
        if i < 2: c.add_sample(text[:1200])
    except refl.Mismatch as x: bad("graph", str(x))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def many(c, pl, tools, link):
    """a program of more sources than eight bits count"""
    r = random.Random("c25/many/%s" % c.seed); n = r.randrange(257, 300); d = os.path.join(c.work, "many"); os.makedirs(d)
    def bad(key, detail): c.add_violation(key, "many:0", detail)
    def one(k):
        with open(os.path.join(d, "s%d.c" % k), "w") as f: f.write("struct common { int a; };\nstruct own_%d { int x[%d]; };\nextern struct own_%d v_%d;\n" % (k, k + 1, k, k))
        rc, out, err = pl.run("rel", "s%d.c" % k, "m%d.refl" % k, d); f = pl.failed(rc, err)
        if f: bad("plugin:" + f[0], f[1])
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, range(n)))
    if c.viols: return
    t = tools["san" if c.seed % 2 else "rel"]; fs = ["m%d.refl" % k for k in range(n)]
    try:
        for cut in (0, r.choice([256, 100])): # all at once; a part first
            for what, cmd in ([("merge", [t, "--merge", "part.refl"] + fs[:cut])] if cut else []) + [("merge", [t, "--merge", "all.refl"] + (["part.refl"] if cut else []) + fs[cut:]), ("emit", [t, "--emit", "all.c", "all.refl"]), ("emitted-text", ["gcc", "-w", "-O0", "-c", "all.c", "-o", "all.o"]), ("link", link + ["all.o", "-o", "prog"]), ("program", [os.path.join(d, "prog")])]:
                rc, out, err = c.run(cmd, cwd=d, timeout=120)
                if rc != 0: bad("hang:" + what if rc == "timeout" else "step:" + what, "%s of %d sources (first %d): exit %s %s" % (what, n, cut, rc, err.decode(errors="replace")[-1500:])); return
            db = refl.Db(out.decode(errors="replace"))
            got = [db.n[x].name for x in db.chain(db.n[db.root].link)]; want = ["s%d.c" % k for k in range(n)]
            if got != want or db.n[db.root].sources != db.chain(db.n[db.root].link): bad("sources", "%d sources (%s ... %s), the program has %d (first %d)" % (len(got), got[:2], got[-2:], n, cut)); return
            for k, s in enumerate(db.chain(db.n[db.root].link)):
                m = [db.n[db.real(x)] for x in db.chain(db.n[s].link)]; own = [x for x in m if x.name == "own_%d" % k]; f = [db.n[y] for x in m if x.tag == "struct" for y in x.fields]
                if [(x.tag, x.name) for x in m] != [("struct", "common"), ("struct", "own_%d" % k), ("field", "v_%d" % k)] or [y.name for y in f] != ["a", "x"] or db.n[f[1].link].tag != "array" or db.n[f[1].link].qty != k + 1 or db.real(m[2].link) != own[0].id:
                    bad("unfaithful", "source %d of %d: %s with members %s" % (k, n, [(x.tag, x.name) for x in m], [y.name for y in f])); return
            c.evals += n; c.add_cover(out)
        c.add_stat("sources_of_the_largest_program", n)
    except (refl.Mismatch, KeyError, IndexError, TypeError) as x: bad("graph", "%d sources: %r" % (n, x))
    finally: shutil.rmtree(d, ignore_errors=True)


def run(c):
    pl = plug.Plugin(c)
    tools = {v: c.build_tool("crefltool", v) for v in ("san", "rel")}
    o = os.path.join(c.work, "rr.o")
    from vf import REPO, HARNESS, sh, BuildError
    r = sh(["gcc", "-std=gnu11", "-O1", "-w", "-DEMBEDDED", "-I" + os.path.join(REPO, "include"), "-c", os.path.join(HARNESS, "readrefl.c"), "-o", o])
    if r.returncode != 0: raise BuildError(r.stdout.decode(errors="replace"))
    link = ["g++", o] + c.build_lib("rel")
    if c.replay: unit(c, pl, tools, link, int(c.replay.split(":")[1])) if not c.replay.startswith("many") else many(c, pl, tools, link); return "replay"
    many(c, pl, tools, link)
    n = int((120 if c.quick else 4000) * c.scale)
    with ThreadPoolExecutor(NPROC) as ex:
        for j in [ex.submit(unit, c, pl, tools, link, i) for i in range(n)]: j.result()
    if c.stats.get("program_not_accepted", 0) + c.stats.get("probe_not_accepted", 0) + c.stats.get("program_not_linked", 0) > n // 4: raise RuntimeError("the compiler accepts too few of the programs")
    return "one per distinct output of a program that enumerated its own reflection, each compared with the generator's model of its sources and with the compiler's sizes and offsets"
