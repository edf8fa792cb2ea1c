import os, random, re, resource, select, shutil, signal, subprocess
import vf
from concurrent.futures import ThreadPoolExecutor
from vf import REPO
FMT = ["--dump", "--dump-fqn", "--dump-sum", "--dump-all", "--dump-ext", "--dump-ext-fqn", "--dump-ext-sum", "--dump-ext-all", "--stats"]


def slurp(f):
    try: return open(f, "rb").read()
    except OSError: return None


def limit(k):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
    return f


def run(c):
    exes = c.build_all([("san", "io.cc", {}), ("rel", "io.cc", {})])
    for v, exe in zip(("san", "rel"), exes): c.run_harness(exe, v)
    if c.replay: return ""
    # a pipe nobody reads from; a child that is just starting may hold the other end for a moment
    rd, nobody = os.pipe(); os.close(rd); po = select.poll(); po.register(nobody, 0)
    while not po.poll(1000): pass
    tool = {v: c.build_tool("crefltool", v) for v in ("san", "rel")}
    asn = {v: c.build_tool("asn1tool", v) for v in ("san", "rel")}
    plugin = os.path.dirname(c.build_plugin())
    dump = c.build_harness("rel", "dump.cc")
    d = os.path.join(c.work, "x"); os.makedirs(d)
    c.run_harness(dump, "rel", family="export", opts={"dir": d}, scale=0.1 if c.quick else 0.3)
    files = sorted(x[:-5] for x in os.listdir(d) if x.endswith(".refl"))
    files.sort(key=lambda f: -os.path.getsize(os.path.join(d, f + ".refl")))
    files = files[:6] + files[-4:] if c.quick else files[:40] + files[-10:]
    der = os.path.join(d, "a.der"); open(der, "wb").write((b"\x30\x0b\x02\x01\x05\x06\x03\x2a\x03\x04\x13\x01x") * 900)
    src = os.path.join(d, "a.c"); open(src, "w").write("struct s { int a; struct { char b[3]; } c; };\n" + "".join("int f%d(struct s *p, const char *q);\n" % i for i in range(400)))

    # can a child of ours be traced here?
    probe = os.path.join(d, "probe"); open(probe, "w").write("x" * 10)
    try: r = subprocess.run(["strace", "-f", "-qq", "-o", probe + ".log", "-P", probe, "-e", "trace=read", "-e", "inject=read:error=EIO:when=1", "cat", probe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60); traced = r.returncode == 1
    except (OSError, subprocess.TimeoutExpired): traced = False
    if not traced: c.notes["strace"] = "cannot inject faults here; limits and devices only"

    def launch(cmd, pre=None, out=subprocess.PIPE, env=None, timeout=120):
        e = dict(c.env); e.update(env or {})
        if c.quick and c.hangs >= 2 and c.viols: raise vf.Enough()
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, preexec_fn=pre, env=e, cwd=c.work, start_new_session=True)
        try: so, se = p.communicate(timeout=timeout); return p.returncode, so or b"", se
        except subprocess.TimeoutExpired:
            c.hangs += 1; return "timeout", b"", b""
        finally:
            if p.returncode is None: os.killpg(p.pid, 9); p.communicate()

    def judge(what, rc, err, ok, must_fail=False, quiet_ok=False):
        """ok: the whole output is in place"""
        c.evals += 1; c.add_cover(what); c.add_stat("failed" if rc else "succeeded")
        if rc == "timeout": c.add_violation("hang", what, what + ": does not terminate", ""); return
        if rc not in (0, 1): c.add_violation(c.crash_key(err.decode(errors="replace"), rc), what, "%s: exits %s: %s" % (what, rc, err.decode(errors="replace")[:1500]), ""); return
        if rc == 0 and not ok: c.add_violation("incomplete", what, "%s: exits 0 but the output is not complete" % what, "")
        if rc == 0 and must_fail: c.add_violation("unreported", what, "%s: the failure is not reported, exits 0" % what, "")
        if rc and not err.strip() and not quiet_ok: c.add_violation("silent", what, "%s: exits %s without a diagnostic" % (what, rc), "")

    # commands: (label, argv, output file or None for standard output, its expected bytes, inputs)
    def commands(f, w):
        img = os.path.join(d, f + ".refl"); cs = []
        for k, m in enumerate(FMT):
            want = slurp(os.path.join(d, f + (".stats" if m == "--stats" else ".d%d" % k)))
            cs.append(("crefltool " + m + " " + f, [tool, m, img], None, want, [img]))
        o = os.path.join(w, "o.c"); cs.append(("crefltool --emit " + f, [tool, "--emit", o, img], o, None, [img]))
        other = os.path.join(d, files[0] + ".refl"); o = os.path.join(w, "o.refl")
        cs.append(("crefltool --merge " + f, [tool, "--merge", o, img, other], o, None, [img, other]))
        cs.append(("asn1tool", [asn, "--dump", der], None, None, [der]))
        return cs

    def argv(a, v): return [a[0][v]] + a[1:]

    def one(job):
        fi, f = job; r = random.Random("%d:%s" % (c.seed, f)); w = os.path.join(c.work, "w%d" % fi); os.makedirs(w)
        for label, a, out, want, inputs in commands(f, w):
            # undisturbed
            v = "rel"; rc, so, se = launch(argv(a, v)); full = slurp(out) if out else so
            if want is not None and so != want: c.add_violation("output", label, label + ": output differs from the metadata", "")
            judge(label, rc, se, True)
            if rc != 0: c.add_violation("fails", label, "%s exits %s without a fault: %s" % (label, rc, se[:300]), ""); continue
            def reset():
                if out:
                    if os.path.lexists(out): os.unlink(out)
                    if r.random() < .5: open(out, "wb").write(b"old" * r.randrange(4000))
            # a limit on file sizes
            ks = {0, 1, len(full) - 1, len(full) // 2, len(full), 4096, 8192, r.randrange(len(full) + 1)}
            for k in sorted(x for x in ks if x <= len(full)):
                reset(); v = r.choice(["san", "rel"]); so_f = os.path.join(w, "so"); h = open(so_f, "wb") if not out else subprocess.DEVNULL
                rc, _, se = launch(argv(a, v), limit(k), h)
                judge("%s, limit %d of %d" % (label, k, len(full)), rc, se, slurp(out or so_f) == full, quiet_ok=True)
                if k == len(full) and rc != 0: c.add_violation("fails", label, "%s exits %s with just enough room: %s" % (label, rc, se[:300]), "")
            # standard output that takes nothing
            if not out:
                for name, h, pre in (("/dev/full", open("/dev/full", "wb"), None), ("closed", subprocess.DEVNULL, lambda: os.close(1)), ("broken pipe", None, lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN))):
                    if h is None: h = os.dup(nobody)
                    v = r.choice(["san", "rel"]); rc, _, se = launch(argv(a, v), pre, h)
                    if isinstance(h, int) and h > 2: os.close(h)
                    judge("%s, standard output %s" % (label, name), rc, se, False)
            else:
                bad = [("/dev/full", "/dev/full"), ("directory", w), ("missing directory", os.path.join(w, "none", "o")), ("below a file", os.path.join(inputs[0], "o")), ("empty name", "")]
                for name, p in bad:
                    b = list(a); b[2] = p; v = r.choice(["san", "rel"]); rc, _, se = launch(argv(b, v)); judge("%s, output %s" % (label, name), rc, se, False)
                # the output replaces what was there, whatever its size
                open(out, "wb").write(b"old" * (len(full) + 10)); rc, _, se = launch(argv(a, "san")); judge(label + ", existing output", rc, se, slurp(out) == full)
            # inputs that cannot be used
            for i, x in enumerate(inputs):
                data = slurp(x); t = os.path.join(w, "in")
                bad = [("missing", os.path.join(w, "none")), ("directory", w), ("empty name", ""), ("below a file", os.path.join(x, "y"))]
                cuts = [0, 1, 7, 8, 19, 20, 21, len(data) - 1, r.randrange(len(data))] if a[0] is tool else []
                for k in cuts: bad.append(("truncated to %d" % k, k))
                if a[0] is tool: bad.append(("wrong magic", b"drefl" + data[5:]))
                else: bad.append(("truncated", data[:-1]))
                for name, p in bad:
                    if isinstance(p, int): open(t, "wb").write(data[:p]); p = t
                    elif isinstance(p, bytes): open(t, "wb").write(p); p = t
                    b = list(a); b[b.index(x)] = p; reset(); had = slurp(out) if out else None; v = r.choice(["san", "rel"])
                    rc, so, se = launch(argv(b, v)); judge("%s, input %d %s" % (label, i, name), rc, se, False)
                    if out and slurp(out) != had: c.add_stat("output_touched_after_bad_input")
            # faults of single system calls, on the input and on the output
            if traced:
                plan = []
                for x in inputs: plan += [(x, s, e, 1) for s, e in (("open,openat", "EACCES"), ("read", "EIO"), ("read", "EISDIR"), ("fstat,newfstatat,stat,statx", "EIO"))]
                o = out or os.path.join(w, "so")
                plan += [(o, "write", e, n) for e in ("ENOSPC", "EIO", "EDQUOT") for n in (1, 2, "2+")] + [(o, "close", "EIO", 1), (o, "close", "ENOSPC", 1)]
                if out: plan += [(o, "open,openat", "EROFS", 1)]
                if c.quick: plan = r.sample(plan, min(7, len(plan)))
                for x in inputs: plan += [(x, "read", "EIO", 2), (x, "read", 0, 1), (x, "read", 0, "2+")]      # 0: the file ends early
                for p, s, e, n in plan:
                    reset(); so_f = os.path.join(w, "so"); log = os.path.join(w, "log"); h = open(so_f, "wb") if not out else subprocess.DEVNULL
                    cmd = ["strace", "-f", "-qq", "-o", log, "-P", p, "-e", "trace=" + s, "-e", "inject=%s:%s=%s:when=%s" % (s, "retval" if e == 0 else "error", e, n)] + argv(a, "rel")
                    rc, _, se = launch(cmd, None, h); hit = len(re.findall(rb"INJECTED", slurp(log) or b""))
                    c.add_stat("injected_faults", hit)
                    done = slurp(out or so_f) == full
                    # a failing close of standard output after main has ended is out of the program's hands
                    must = hit > 0 and (s in ("write",) or (s == "close" and out)) or (hit and s == "read" and e != 0)
                    judge("%s, %s of %s number %s gives %s (%d injected)" % (label, s, os.path.basename(p), n, e, hit), rc, se, done, must)
                    if not hit and rc != 0: c.add_violation("fails", label, "%s exits %s without a fault (%s): %s" % (label, rc, s, se[:300]), "")
        shutil.rmtree(w)

    with ThreadPoolExecutor(8) as ex: list(ex.map(one, enumerate(files)))

    # wrong usage
    for v in ("san", "rel"):
        img = os.path.join(d, files[0] + ".refl")
        for t, a in ((tool, []), (tool, ["--dump"]), (tool, ["--nonsense", img]), (tool, ["--emit", os.path.join(d, "u.c")]), (tool, ["--merge", os.path.join(d, "u")]), (tool, ["--dump", img, img]), (asn, []), (asn, ["--dump"]), (asn, ["--what", der]), (asn, ["--dump", der, der])):
            rc, so, se = launch([t[v]] + a); judge("usage %s %s" % (os.path.basename(t[v]), " ".join(a)), rc, se, False)

    # the compiler plugin
    py = ["python3", os.path.join(REPO, "scripts/creflcc.py"), "-p", plugin]
    base = os.path.join(d, "base.refl"); rc, so, se = launch(py + ["-o", base, src]); full = slurp(base)
    if rc != 0 or not full: c.add_violation("fails", "plugin", "creflcc exits %s: %s" % (rc, se[-500:]), ""); return ""
    jobs = [("output %s" % n, p, None) for n, p in (("/dev/full", "/dev/full"), ("directory", d), ("missing directory", os.path.join(d, "none", "o")), ("below a file", os.path.join(src, "o")))]
    jobs += [("limit %d of %d" % (k, len(full)), os.path.join(d, "p%d.refl" % k), limit(k)) for k in sorted({0, 1, 4096, len(full) // 2, len(full) - 1, len(full)})]
    def plug(j):
        name, o, pre = j
        rc, so, se = launch(py + ["-o", o, src], pre); judge("plugin, " + name, rc if rc == "timeout" else int(rc != 0), se, pre is not None and slurp(o) == full)
        if pre and o.endswith("p%d.refl" % len(full)) and rc != 0: c.add_violation("fails", "plugin", "creflcc exits %s with just enough room: %s" % (rc, se[-500:]), "")
    with ThreadPoolExecutor(8) as ex: list(ex.map(plug, jobs))
    rc, so, se = launch(py + ["-o", os.path.join(d, "m.refl"), os.path.join(d, "missing.c")]); judge("plugin, missing source", int(rc != 0), se, False)
    if traced:
        for s, e in (("write", "ENOSPC"), ("close", "EIO"), ("open,openat", "EROFS")):
            o = os.path.join(d, "t.refl"); log = os.path.join(d, "log")
            if os.path.exists(o): os.unlink(o)
            rc, so, se = launch(["strace", "-f", "-qq", "-o", log, "-P", o, "-e", "trace=" + s, "-e", "inject=%s:error=%s:when=1" % (s, e)] + py + ["-o", o, src]); hit = (slurp(log) or b"").count(b"INJECTED")
            c.add_stat("injected_faults", hit); judge("plugin, %s gives %s (%d injected)" % (s, e, hit), int(rc != 0), se, slurp(o) == full, hit > 0)
    return ("library reads and writes under file-size and descriptor limits, at every truncation, without permission and at unusable paths; every tool mode "
            "and the plugin with bad inputs, outputs that are full, closed, limited to k bytes, directories or missing, and single system calls of the "
            "input and output failing (strace injection); exit 0 requires the complete expected output, a fired fault requires exit 1 and a diagnostic, "
            "no fault requires exit 0; distinct = distinct databases and fault scenarios")
