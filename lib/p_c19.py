import os
from concurrent.futures import ThreadPoolExecutor
FMT = ["--dump", "--dump-fqn", "--dump-sum", "--dump-all", "--dump-ext", "--dump-ext-fqn", "--dump-ext-sum", "--dump-ext-all"]


def run(c):
    exes = c.build_all([("san", "dump.cc", {}), ("rel", "dump.cc", {})])
    for v, exe in zip(("san", "rel"), exes):
        for fam in ("dump", "merged", "props", "many"):
            c.run_harness(exe, v, family=fam)
    if c.replay: return ""
    # the same through the tool, reading files
    d = os.path.join(c.work, "export"); os.makedirs(d)
    c.run_harness(exes[1], "rel", family="export", opts={"dir": d})
    tools = [c.build_tool("crefltool", "san"), c.build_tool("crefltool", "rel")]
    def one(f):
        base = os.path.join(d, f[:-5]); img = open(base + ".refl", "rb").read()
        for k, flag in enumerate(FMT):
            tool = tools[(k + len(img)) % 2]
            rc, out, err = c.run([tool, flag, base + ".refl"])
            want = open(base + ".d%d" % k, "rb").read()
            if rc != 0: c.add_violation("tool:status", f, "crefltool %s exits %s: %s" % (flag, rc, err.decode(errors="replace")[-500:]), base)
            elif out != want:
                g, w = out.split(b"\n"), want.split(b"\n")
                i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
                c.add_violation("tool:dump", f, "crefltool %s line %d: got %r want %r (%d lines, want %d)" % (flag, i + 1, g[i:i + 1], w[i:i + 1], len(g), len(w)), "")
            c.add_stat("tool_dumps"); c.evals += 1
        if open(base + ".refl", "rb").read() != img: c.add_violation("tool:modified", f, "crefltool changed its input", "")
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, sorted(x for x in os.listdir(d) if x.endswith(".refl"))))
    return ("all eight dump formats of generated, loaded and merged databases (names around every column width, every property bit and extreme values on "
            "every kind, ids past the column width, cycles, unreachable declarations) captured from standard output and compared with an independent "
            "formatter, single rows and statistics included, and through crefltool on exported files; distinct = distinct databases")
