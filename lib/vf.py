"""Driver shared by all checks: builds /repo's current tree under instrumentation, runs
monitored workloads, collects what the monitors report, applies the known-findings file,
and writes the evidence."""
import os, sys, re, json, time, glob, shutil, signal, struct, subprocess, tempfile, threading, array
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
LLVM = "/opt/llvm/bin"
NPROC = min(8, os.cpu_count() or 4)

COMMON = ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-g", "-w"]
CXXSTD = ["-std=c++17", "-include", "cstdint"]
VARIANTS = {
    # what the sanitizers watch: every load, store, shift, conversion and signed operation
    "san": dict(cc="clang", cxx="clang++", flags=["-O1", "-fno-omit-frame-pointer", "-DVF_SAN=1",
                "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    # the shipped configuration
    "rel": dict(cc="gcc", cxx="g++", flags=["-O2", "-DNDEBUG", "-DVF_REL=1"]),
    # the same with the other compiler: harness random choices then match those of "san"
    "relc": dict(cc="clang", cxx="clang++", flags=["-O2", "-DNDEBUG", "-DVF_REL=1"]),
    # not optimised: shared variables that an optimiser can keep in registers are races all the same
    "tsan": dict(cc="clang", cxx="clang++", flags=["-O0", "-fno-omit-frame-pointer", "-DVF_TSAN=1",
                 "-fsanitize=thread"]),
    "msan": dict(cc="clang", cxx="clang++", flags=["-O1", "-fno-omit-frame-pointer", "-DVF_MSAN=1",
                 "-fsanitize=memory", "-fno-sanitize-recover=all"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:symbolize=1:max_malloc_fill_size=4096:malloc_fill_byte=190:hard_rss_limit_mb=4000",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:symbolize=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4",
    "MSAN_OPTIONS": "exitcode=99:symbolize=1",
}


# the coders run unoptimised under the sanitizers: an optimiser drops stray loads whose value is not used
UNOPT = ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16")


class BuildError(Exception):
    pass


class Enough(Exception):
    """nothing more to learn from this tree: what runs does not terminate"""


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


class Check:
    def __init__(self, pid, level="exploration", argv=None):
        argv = sys.argv[2:] if argv is None else argv
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.replay = None
        self.scale = 1.0
        i = 0
        while i < len(argv):
            if argv[i] == "--tier": self.tier = argv[i + 1]; i += 2
            elif argv[i] == "--seed": self.seed = int(argv[i + 1]); i += 2
            elif argv[i] == "--scale": self.scale = float(argv[i + 1]); i += 2
            elif argv[i] == "--replay": self.replay = argv[i + 1]; i += 2   # variant:family:case
            else: raise SystemExit("unknown argument " + argv[i])
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.stats, self.samples, self.evals = {}, [], 0
        self.cover = set()
        self.hangs = 0
        self.viols = []            # (key, case, detail, replay text)
        self.lock = threading.Lock()
        self.libs = {}
        self.assumptions = []
        self.notes = {}
        self.env = dict(os.environ, LC_ALL="C.UTF-8", **SAN_ENV)
        sym = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
        if sym:
            for k in ("ASAN", "MSAN", "TSAN", "UBSAN"):
                self.env[k + "_SYMBOLIZER_PATH"] = sym

    # ---- building ---------------------------------------------------------------
    def lib_sources(self):
        out = []
        for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cc")) + glob.glob(os.path.join(REPO, "src", "*.c"))):
            with open(f, errors="replace") as fh:
                if re.search(r'#\s*include\s*[<"](clang|llvm)/', fh.read()):
                    continue
            out.append(f)
        return out

    def compile_many(self, jobs):
        """jobs: list of (cmd, what)"""
        def one(j):
            r = sh(j[0])
            return (j[1], r.returncode, r.stdout.decode(errors="replace"))
        with ThreadPoolExecutor(NPROC) as ex:
            for what, rc, out in ex.map(one, jobs):
                if rc != 0:
                    raise BuildError("%s failed:\n%s" % (what, out[:4000]))

    def cflags(self, variant, cxx=True):
        return (CXXSTD if cxx else ["-std=gnu11"]) + COMMON + VARIANTS[variant]["flags"]

    def build_lib(self, variant, extra=(), pic=False):
        key = (variant, tuple(extra), pic)
        if key in self.libs:
            return self.libs[key]
        d = os.path.join(self.work, "lib_%s_%d" % (variant, len(self.libs)))
        os.makedirs(d)
        jobs, objs = [], []
        for s in self.lib_sources():
            o = os.path.join(d, os.path.basename(s) + ".o")
            cxx = s.endswith(".cc")
            jobs.append(([VARIANTS[variant]["cxx" if cxx else "cc"]] + self.cflags(variant, cxx) + (["-O0"] if variant == "san" and self.pid in UNOPT else []) + list(extra) +
                         (["-fPIC"] if pic else []) + ["-c", s, "-o", o], "compile " + s))
            objs.append(o)
        self.compile_many(jobs)
        self.libs[key] = objs
        return objs

    def build(self, name, variant, sources, extra=(), link=(), lib=True, lib_extra=()):
        """build an executable from harness sources and the library"""
        jobs, objs = [], []
        d = os.path.join(self.work, "bin_%s_%s" % (name, variant))
        os.makedirs(d, exist_ok=True)
        for s in sources:
            p = s if os.path.isabs(s) else os.path.join(HARNESS, s)
            o = os.path.join(d, os.path.basename(p) + ".o")
            cxx = not p.endswith(".c")
            jobs.append(([VARIANTS[variant]["cxx" if cxx else "cc"]] + self.cflags(variant, cxx) + list(extra) +
                         ["-c", p, "-o", o], "compile " + p))
            objs.append(o)
        self.compile_many(jobs)
        if lib:
            objs = objs + self.build_lib(variant, lib_extra)
        exe = os.path.join(d, name)
        r = sh([VARIANTS[variant]["cxx"]] + VARIANTS[variant]["flags"] + ["-g"] + objs + ["-o", exe, "-lpthread"] + list(link))
        if r.returncode != 0:
            raise BuildError("link %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
        return exe

    @staticmethod
    def harness_file(name):
        return os.path.join(HARNESS, name)

    def build_harness(self, variant, src, **kw):
        return self.build(os.path.splitext(os.path.basename(src))[0], variant, [src], **kw)

    def build_all(self, todo):
        """todo: list of (variant, src, kw); builds concurrently, returns exes"""
        out = [None] * len(todo)
        def one(k):
            v, s, kw = todo[k]
            out[k] = self.build_harness(v, s, **kw)
        for v in sorted(set(t[0] for t in todo)):
            if todo[0][2].get("lib", True):
                self.build_lib(v)
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, range(len(todo))))
        return out

    def build_plugin(self, san=False):
        """libcrefl.so from the current tree, loadable by the LLVM 14 clang; with the library it links"""
        key = "plugin-san" if san else "plugin"
        if key in self.libs:
            return self.libs[key]
        d = os.path.join(self.work, key)
        os.makedirs(d)
        lc = os.path.join(LLVM, "llvm-config")
        # the last -std wins: the plugin is built with LLVM's, as the project's build does
        cxxflags = sh([lc, "--cxxflags"]).stdout.decode().split()
        ldflags = sh([lc, "--ldflags"]).stdout.decode().split()
        libs = sh([lc, "--libs"]).stdout.decode().split()
        base = ["g++", "-std=gnu++17", "-g0", "-w", "-fPIC", "-include", "cstdint", "-I" + os.path.join(REPO, "include")] + (["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"] if san else ["-O1"])
        jobs, objs = [], []
        for s in self.lib_sources() + sorted(glob.glob(os.path.join(REPO, "src", "*.cc"))):
            o = os.path.join(d, os.path.basename(s) + ".o")
            if o in objs: continue
            objs.append(o)
            isref = s not in self.lib_sources()
            jobs.append((base + ["-DNDEBUG"] + (cxxflags if isref else []) + ["-c", s, "-o", o], "compile " + s))
        self.compile_many(jobs)
        so = os.path.join(d, "libcrefl.so")
        r = sh(["g++", "-shared", "-o", so] + (["-fsanitize=address"] if san else []) + objs + ldflags + ["-lclang-cpp"] + libs)
        if r.returncode != 0:
            raise BuildError("link plugin:\n" + r.stdout.decode(errors="replace")[-4000:])
        self.libs[key] = so
        return so

    def build_tool(self, name, variant):
        return self.build(name, variant, [os.path.join(REPO, "tool", name + ".cc")])

    # ---- running ----------------------------------------------------------------
    def run(self, cmd, timeout=60, stdin=None, cwd=None, env=None):
        """run one program; returns (rc or 'timeout', stdout bytes, stderr bytes)"""
        e = dict(self.env); e.update(env or {})
        for attempt in (1, 2):
            if self.quick and self.hangs >= 3 and self.viols: raise Enough()    # a tree on which everything hangs
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                                 cwd=cwd or self.work, env=e, start_new_session=True)
            try:
                out, err = p.communicate(stdin, timeout=timeout * attempt)
                return p.returncode, out, err
            except subprocess.TimeoutExpired:
                pass
            finally:
                if p.returncode is None:
                    try: os.killpg(p.pid, 9)
                    except OSError: pass
                    out, err = p.communicate()
        with self.lock: self.hangs += 1
        return "timeout", out or b"", err or b""

    @staticmethod
    def crash_key(err, rc):
        """a stable name for a sanitizer report or a fatal signal"""
        m = re.search(r"(AddressSanitizer|UndefinedBehaviorSanitizer|ThreadSanitizer|MemorySanitizer): ([A-Za-z0-9_-]+)", err)
        kind = m.group(2) if m else None
        if not kind or kind in ("undefined-behavior",):
            m2 = re.search(r"runtime error: ([^\n]*)", err)
            if m2: kind = "ub-" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:60].strip().replace(" ", "_")
        if not kind and "Assertion `" in err: kind = "assert"
        if not kind: kind = "signal%s" % rc
        fn = ""
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*)", err):
            line = m.group(1)
            if REPO + "/" in line or "/repo/" in line:
                fn = re.split(r"[ (]", line)[0]
                break
        m = re.search(r"Assertion `([^']*)'", err)
        if kind == "assert" or (m and not fn): fn = fn or m.group(1)
        return "san:%s:%s" % (kind, fn)

    def add_violation(self, key, case, detail, replay=""):
        with self.lock:
            self.viols.append((key, case, detail, replay))

    def add_stat(self, k, n=1):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + n

    def add_sample(self, s):
        with self.lock:
            if len(self.samples) < 8: self.samples.append(s[:1500])

    def add_cover(self, s):
        import hashlib
        if isinstance(s, str): s = s.encode(errors="replace")
        with self.lock:
            self.cover.add(int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "little"))

    def _shard(self, exe, variant, idx, shards, family, opts, stall, budget, scale, env=None):
        start = 0
        fams = None
        crashes = 0
        t_end = time.time() + budget
        frm, fam_list = 0, None
        e = dict(self.env); e.update(env or {})
        lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, env=e).stdout.decode().split("\n")
        names = [l.split()[0] for l in lst if l.strip()]
        todo = [family] if family else names
        for fam in todo:
            frm = 0
            while True:
                if self.quick and self.hangs: return
                prog = os.path.join(self.work, "prog_%s_%s_%d" % (os.path.basename(exe), variant, idx))
                cov = prog + ".cov"
                for f in (prog, cov):
                    if os.path.exists(f): os.unlink(f)
                cmd = [exe, "--seed", str(self.seed), "--tier", self.tier, "--family", fam, "--shard", "%d/%d" % (idx, shards),
                       "--from", str(frm), "--cover", cov, "--progress", prog, "--scale", repr(scale)] + \
                      ["--opt=%s=%s" % kv for kv in (opts or {}).items()]
                outf, errf = open(prog + ".out", "w+b"), open(prog + ".err", "w+b")
                p = subprocess.Popen(cmd, stdout=outf, stderr=errf, stdin=subprocess.DEVNULL, cwd=self.work, env=e)
                last, last_t, hung = None, time.time(), False
                while True:
                    try:
                        p.wait(timeout=0.05 if last is None else 0.5); break
                    except subprocess.TimeoutExpired:
                        pass
                    cur = self._progress(prog)
                    if cur != last: last, last_t = cur, time.time()
                    if self.quick and self.hangs: p.kill(); p.wait(); break
                    if time.time() - last_t > stall:
                        hung = True; p.kill(); p.wait(); break
                    if time.time() > t_end:
                        p.kill(); p.wait(); break
                outf.seek(0); errf.seek(0)
                out = outf.read().decode(errors="replace"); err = errf.read().decode(errors="replace")
                outf.close(); errf.close()
                done = self._collect(out, variant)
                if os.path.exists(cov):
                    a = array.array("Q")
                    with open(cov, "rb") as fh: a.frombytes(fh.read())
                    with self.lock:
                        if len(self.cover) < 3000000: self.cover.update(a)
                if done: break
                if self.quick and self.hangs and (hung or p.returncode == -9): return    # one confirmed hang is enough
                prg = self._progress(prog)
                case = prg[1] if prg else 0
                if not hung and time.time() > t_end:
                    self.add_stat("budget_cut_" + fam); break
                rep = "%s:%s:%d" % (variant, fam, case)
                if hung:
                    # a hang is believed only when the case alone hangs again, with twice the patience
                    try:
                        subprocess.run([exe, "--seed", str(self.seed), "--tier", self.tier, "--family", fam, "--only", str(case)] +
                                       ["--opt=%s=%s" % kv for kv in (opts or {}).items()],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=stall * 2, env=e, cwd=self.work)
                        self.add_stat("slow_cases")
                    except subprocess.TimeoutExpired:
                        with self.lock: self.hangs += 1
                        self.add_violation("hang:" + fam, rep, "case does not terminate within %ds" % (stall * 2), rep)
                else:
                    self.add_violation(self.crash_key(err, p.returncode), rep,
                                       "exit %s; %s" % (p.returncode, self._brief(err)), rep + "\n" + err[-6000:])
                crashes += 1
                if crashes >= 6: return
                frm = case + 1

    @staticmethod
    def _brief(err):
        for l in err.split("\n"):
            if "runtime error" in l or "ERROR: " in l or "Assertion" in l or "WARNING: " in l:
                return l.strip()[:300]
        return err[-300:].replace("\n", " ")

    @staticmethod
    def _progress(f):
        try:
            with open(f, "rb") as fh:
                b = fh.read(16)
            return struct.unpack("QQ", b) if len(b) == 16 else None
        except OSError:
            return None

    def _collect(self, out, variant):
        done = False
        for l in out.split("\n"):
            if l.startswith("@@STAT "):
                _, k, n = l.rsplit(" ", 2) if l.count(" ") > 2 else l.split(" ")
                k = l[7:].rsplit(" ", 1)[0]
                self.add_stat(k, int(n))
            elif l.startswith("@@SAMPLE "): self.add_sample(l[9:])
            elif l.startswith("@@DONE "):
                done = True
                with self.lock: self.evals += int(l[7:])
            elif l.startswith("@@VIOL "):
                f = l[7:].split("|")
                rep = "%s:%s" % (variant, f[1] if len(f) > 1 else "")
                self.add_violation(f[0], rep, "|".join(f[2:]), rep)
        return done

    def run_harness(self, exe, variant, family=None, opts=None, shards=NPROC, stall=60, budget=None, scale=None, env=None):
        if self.replay:
            v, f, c = (self.replay.split(":") + ["", ""])[:3]
            if v != variant or (family and f != family): return
            p = subprocess.run([exe, "--seed", str(self.seed), "--tier", self.tier, "--family", f, "--only", c] +
                               ["--opt=%s=%s" % kv for kv in (opts or {}).items()], env=self.env, cwd=self.work)
            print("replay exit", p.returncode)
            return
        budget = budget or (600 if self.quick else 4 * 3600)
        if self.quick: budget = max(20, min(budget, self.t0 + 720 - time.time()))
        ths = [threading.Thread(target=self._shard, args=(exe, variant, i, shards, family, opts, stall, budget, scale or self.scale, env))
               for i in range(shards)]
        for t in ths: t.start()
        for t in ths: t.join()

    # ---- finishing ----------------------------------------------------------------
    def known(self):
        out = {}
        f = os.path.join(VERIF, "known_findings")
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid: out[m.group(2)] = m.group(3).strip()
        return out

    def finish(self, rule):
        known = self.known()
        hit, bad = {}, {}
        for key, case, detail, rep in self.viols:
            if key in known: hit.setdefault(key, (case, detail))
            else: bad.setdefault(key, []).append((case, detail, rep))
        for k in known:
            if k in hit: print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
            else: self.add_stat("known_finding_not_reproduced:" + k)
        rdir = os.path.join(VERIF, "replays")
        n = 0
        for key in sorted(bad):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.txt" % (self.pid, n)); n += 1
            with open(path, "w") as f:
                f.write("property %s\nkey %s\nreproduce: cd /verif && VERIF_SEED=%d python3 check.py %s --tier %s --replay %s\n" % (
                    self.pid, key, self.seed, self.pid, self.tier, bad[key][0][0]))
                for case, detail, rep in bad[key][:5]: f.write("\ncase %s\n%s\n%s\n" % (case, detail, rep))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  %s x%d: %s" % (key, len(bad[key]), bad[key][0][1][:400]))
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": dict(evaluations=self.evals, distinct_nontrivial=len(self.cover), rule=rule,
                               samples=self.samples or ["(none)"],
                               observed=dict(sorted(self.stats.items())), **self.notes),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f: json.dump(ev, f, indent=1); f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        print("%s %s: %d evaluations, %d distinct, %d violation(s), %.1fs" % (
            self.pid, self.tier, self.evals, len(self.cover), len(bad), time.time() - self.t0))
        self.cleanup()
        return 1 if bad else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)
