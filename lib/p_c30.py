"""C30: the CMake module. Generated projects that use crefl_target_reflect the way the repository's own
CMakeLists.txt does are configured, built, edited and built again; the library that the macro adds is linked
into a program that prints the metadata it carries, which is compared with what the project's sources say."""
import os, random, shutil
from concurrent.futures import ThreadPoolExecutor
import plug, refl
from vf import REPO, HARNESS, NPROC, sh, BuildError


class Project:
    def __init__(self, r, i):
        self.r, self.n, self.gen = r, 0, ["Ninja", "Unix Makefiles"][i % 2]
        dirs = ["", "src", "src/deep/er", "lib-x", "a.b"] + (["two words"] if r.random() < .3 else [])
        self.incs = r.sample(["inc", "include/public", "third_party/v1.2/include", "inc-b", "inc three"], r.randrange(0, 4))
        self.headers, self.text = {}, {}       # header name -> its structs; file -> text
        for d in self.incs:
            for _ in range(r.randrange(1, 3)): h = ["h%d.h", "h%d.h", "h %d.h", "x/h-%d.inc"][r.randrange(4)] % len(self.headers); self.headers[h] = [d, self.struct("H")]
        if self.headers and r.random() < .3: self.headers[r.choice(["math.h", "assert.h", "time.h"])] = [r.choice(self.incs), self.struct("H")]
        self.inherited = r.random() < .3 and len(self.incs) > 0      # the last directory comes with a linked library
        own = self.incs[:-1] if self.inherited else self.incs
        self.glob = own[-1] if r.random() < .3 and own else None      # include_directories() of the directory comes first
        order = [x for x in self.incs if x == self.glob] + [x for x in self.incs if x != self.glob]
        self.decoys = {}                        # namesakes of headers, further back in the search order
        for h, (d, _) in self.headers.items():
            if r.random() < .3:
                for d in order[order.index(d) + 1:]: self.decoys[os.path.join(d, h)] = self.struct("Decoy")
        self.targets = []
        for t in range(r.randrange(1, 3)):
            srcs = {}
            for k in range(r.randrange(1, 6)):
                d = r.choice(dirs); base = r.choice(["s%d%d.c" % (t, k), "s%d%d.c" % (t, k), "same.c", "x-%d_%d.v2.c" % (t, k), "a word-%d%d.c" % (t, k)])
                f = os.path.join(d, base)
                if f in srcs or any(f in x[1] for x in self.targets): continue
                near = None
                if r.random() < .4: near = ["near%d_%d.h" % (t, k), self.struct("N")]
                srcs[f] = dict(near=near, uses=sorted(r.sample(sorted(self.headers), r.randrange(0, len(self.headers) + 1))), own=[self.struct("S") for _ in range(r.randrange(1, 4))])
            if srcs: self.targets.append(("t%d" % t if r.random() < .7 else "my-target.%d" % t, srcs, r.choice(["add_library(%s STATIC %s)", "add_library(%s OBJECT %s)"])))
    def struct(self, p):
        self.n += 1
        return ("%s%d" % (p, self.n), [("f%d" % k, self.r.randrange(1, 500)) for k in range(self.r.randrange(1, 5))])
    @staticmethod
    def c(s): return "struct %s { %s};\n" % (s[0], "".join("int %s[%d]; " % f for f in s[1]))
    def files(self):
        out = {}
        for h, (d, s) in self.headers.items(): out[os.path.join(d, h)] = "#ifndef G_%s\n#define G_%s\n%s#endif\n" % (s[0], s[0], self.c(s))
        for f, s in self.decoys.items(): out[f] = self.c(s)
        for _, srcs, _ in self.targets:
            for f, m in srcs.items():
                if m["near"]: out[os.path.join(os.path.dirname(f), m["near"][0])] = self.c(m["near"][1])
                out[f] = "".join('#include %s\n' % (('<%s>' if (len(f) + len(h)) % 2 else '"%s"') % h) for h in m["uses"]) + ('#include "%s"\n' % m["near"][0] if m["near"] else "") + "".join(self.c(s) for s in m["own"])
        q = lambda x: '"%s"' % x if " " in x else x
        t = "cmake_minimum_required(VERSION 3.12)\nproject(user C)\ninclude(cmake/crefl_macro.cmake)\nadd_custom_target(crefl)\nadd_custom_target(crefltool)\n"
        own = self.incs[:-1] if self.inherited else self.incs
        if self.glob: t += "include_directories(%s)\n" % q(self.glob); own = [x for x in own if x != self.glob]
        if self.inherited: t += "add_library(dep INTERFACE)\ntarget_include_directories(dep INTERFACE %s)\n" % q("${CMAKE_CURRENT_SOURCE_DIR}/" + self.incs[-1])
        for n, srcs, add in self.targets:
            t += add % (n, " ".join(q(x) for x in srcs)) + "\n"
            if own: t += "target_include_directories(%s PRIVATE %s)\n" % (n, " ".join(q(x) for x in own))
            if self.inherited: t += "target_link_libraries(%s PRIVATE dep)\n" % n
            t += "crefl_target_reflect(%s %s_refl)\n" % (n, n)
        out["CMakeLists.txt"] = t
        return out
    def want(self, srcs):
        out = []
        for f, m in srcs.items(): out.append((os.path.basename(f), [self.headers[h][1] for h in m["uses"]] + ([m["near"][1]] if m["near"] else []) + m["own"]))
        return out
    def edit(self):
        """changes one file, returns what kind"""
        r = self.r; srcs = r.choice(self.targets)[1]; f = r.choice(list(srcs)); m = srcs[f]; k = r.randrange(4)
        if k == 0 and m["near"]: m["near"][1] = (m["near"][1][0], self.struct("x")[1] + [("extra%d" % self.n, 3)]); return "near header", [os.path.join(os.path.dirname(f), m["near"][0])]
        if k == 1 and m["uses"]: h = r.choice(m["uses"]); s = self.headers[h][1]; self.headers[h][1] = (s[0], s[1] + [("extra%d_%d" % (self.n, len(s[1])), 5)]); return "header", [os.path.join(self.headers[h][0], h)]
        if k == 2 and len(m["own"]) > 1: m["own"].pop(); return "source", [f]
        m["own"].append(self.struct("E")); return "source", [f]


def show(ss): return ", ".join("%s{%s}" % (s[0], ",".join("%s:%d" % f for f in s[1])) for s in ss)


def carried(db):
    out = []
    for s in db.chain(db.n[db.root].link):
        ms = []
        for x in db.chain(db.n[s].link):
            n = db.n[db.real(x)]
            fs = []
            for y in (n.fields if n.tag == "struct" else []):
                f = db.n[db.real(y)]; a = db.n[db.real(f.link)]; fs.append((f.name, a.qty if a.tag == "array" else -1))
            ms.append((n.name, fs))
        out.append((db.n[s].name, ms))
    return out


def unit(c, pl, tool, prog, i):
    r = random.Random("c30/%s/%d" % (c.seed, i)); p = Project(r, i); base = os.path.join(c.work, "p%d" % i); src = os.path.join(base, "project"); b = os.path.join(base, r.choice(["build", "project/build"]))
    def bad(key, detail): c.add_violation(key, "project:%d" % i, "%s, %s: %s\n%s" % (p.gen, key, detail, p.files()["CMakeLists.txt"]), str(i))
    try:
        for d in ("cmake", "scripts"): shutil.copytree(os.path.join(REPO, d), os.path.join(src, d))
        def write(only=None):
            for f, t in p.files().items():
                if only is not None and f not in only: continue
                f = os.path.join(src, f); os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "w") as o: o.write(t)
        write(); os.makedirs(b)
        os.symlink(os.path.join(pl.dir["rel"], "libcrefl.so"), os.path.join(b, "libcrefl.so")); os.symlink(tool, os.path.join(b, "crefltool"))
        rc, out, err = c.run(["cmake", "-G", p.gen, "-DCMAKE_C_COMPILER=gcc", "-S", src, "-B", b], timeout=200)
        if rc != 0: bad("configure", "exit %s %s" % (rc, err.decode(errors="replace")[-1500:])); return
        what = "first build"
        for step in range(1 + r.randrange(1, 4)):
            if step: what, only = p.edit(); what += " edited"; write(only)
            rc, out, err = c.run(["cmake", "--build", b, "-j", "2"], timeout=300)
            o = (out + err).decode(errors="replace")
            if rc != 0: bad("build", "%s: exit %s %s" % (what, rc, o[-2500:])); return
            for n, srcs, _ in p.targets:
                exe = os.path.join(base, "prog")
                lib = os.path.join(b, "lib%s_refl.a" % n)
                if not os.path.exists(lib): bad("library", "%s: lib%s_refl.a is not there" % (what, n)); return
                rc, out, err = c.run(prog + [lib, "-o", exe], timeout=200)
                if rc != 0: bad("link", "%s: %s" % (what, err.decode(errors="replace")[-1500:])); return
                rc, out, err = c.run([exe]); db = refl.Db(out.decode(errors="replace")) if rc == 0 else None
                if rc != 0: bad("program", "exit %s" % rc); return
                got, want = carried(db), p.want(srcs); c.evals += len(want)
                if [x[0] for x in got] != [x[0] for x in want]: bad("sources", "%s: target %s carries the sources %s, has %s" % (what, n, [x[0] for x in got], [x[0] for x in want])); return
                for (f, g), (_, w) in zip(got, want):
                    if g != w: bad(("stale" if step else "declarations"), "%s: %s of target %s carries %s, declares %s" % (what, f, n, show(g), show(w))); return
                c.add_cover(out)
            c.add_stat(what + " " + p.gen)
        if i < 2: c.add_sample(p.files()["CMakeLists.txt"])
    except (refl.Mismatch, KeyError, IndexError) as x: bad("graph", repr(x))
    finally: shutil.rmtree(base, ignore_errors=True)


def run(c):
    if not shutil.which("cmake"): raise BuildError("no cmake")
    pl = plug.Plugin(c, san=False); tool = c.build_tool("crefltool", "rel")
    o = os.path.join(c.work, "rr.o")
    r = sh(["gcc", "-std=gnu11", "-O1", "-w", "-DEMBEDDED", "-I" + os.path.join(REPO, "include"), "-c", os.path.join(HARNESS, "readrefl.c"), "-o", o])
    if r.returncode != 0: raise BuildError(r.stdout.decode(errors="replace"))
    prog = ["g++", "-w", o] + c.build_lib("rel")
    if c.replay: unit(c, pl, tool, prog, int(c.replay.split(":")[-1])); return "replay"
    n = int((48 if c.quick else 1000) * c.scale)
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(lambda i: None if len(c.viols) > 20 else unit(c, pl, tool, prog, i), range(n)))
    return ("generated CMake projects (one to two targets, sources in nested directories, several include directories by target, by directory and by a linked library, "
            "both generators, build directory inside and outside the source) configured, built, edited in sources and headers and built again with the module and scripts of the tree; "
            "the metadata that each target's reflection library carries is read at run time and compared with what the sources declare; distinct = distinct printed databases")
