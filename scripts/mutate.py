#!/usr/bin/env python3
"""mutate.py FILE N SEED [--jobs K] [--lines a-b]: mutation testing of the checks. Small changes of FILE are made in scratch
copies of /repo; the checks that watch FILE run on each until one raises a violation; survivors are listed for review."""
import sys, os, re, random, subprocess, shutil, tempfile, threading, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "src/asn1.cc": None,
 "src/buf.cc": "C15 C13 C08 C26", "include/crefl/buf.h": "C15 C13 C08",
 "src/db.cc": "C02 C22 C01 C23 C18 C19 C26", "src/model.cc": "C07 C04 C28 C22 C06 C01 C19 C05", "samples/example3_printer/printer.c": "C28", "samples/example2_embed/main.c": "C28", "samples/example1_file/main.c": "C28", "src/link.cc": "C06 C05 C25 C01 C21 C26", "src/dump.cc": "C19 C01 C18 C23 C21",
 "src/oid.cc": "C14 C20 C21", "src/reflect.cc": "C03 C04 C25 C27 C23", "src/sha256.cc": "C16 C06", "src/types.cc": "C22 C19 C07 C03 C02", "include/crefl/hashmap.h": "C17 C05 C06 C26",
 "include/crefl/bits.h": "C24 C13 C08", "include/crefl/endian.h": "C24 C15 C16", "include/crefl/util.h": "C23 C02 C18", "include/crefl/model.h": "C07 C03 C22", "include/crefl/link.h": "C06 C05",
 "tool/crefltool.cc": "C18 C19 C23 C25", "tool/asn1tool.cc": "C20 C23", "scripts/creflcc.py": "C27 C03 C23", "scripts/parse_oids.py": "C14"}


def asn1(line, lines):
    f = ""
    for l in reversed(lines[:line + 1]):
        m = re.match(r"^[a-z].*?(\w+)\(", l)
        if m: f = m.group(1); break
    first = "C10 C09" if "real" in f or "f64_asn1" in f else "C11 C12" if "vf" in f else "C13 C12 C11" if re.search("leb|vlu|_le_", f) else "C14 C09 C20" if "oid" in f else "C20" if "tag_name" in f else "C11 C12 C10" if re.match("_?f(32|64)", f) else "C08 C09"
    rest = [c for c in "C08 C09 C10 C11 C12 C13 C14 C15".split() if c not in first.split()]
    return " ".join(first.split() + rest)


def mutants(text, lo, hi):
    lines = text.split("\n"); out = []; comment = False; depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*") and "*/" not in s: comment = True; continue
        if not s or s.startswith(("//", "/*", "#", "*", "static_assert", "namespace", "using", "enum", "template", "extern \"C\"")): continue
        if not lo <= i + 1 <= hi: continue
        def add(k, new):
            if new != l: out.append((i, k, new))
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\1" * len(m.group(0)), l)   # leave strings alone
        code = re.sub(r"//.*|/\*.*?\*/", lambda m: "\1" * len(m.group(0)), code)
        for pat, reps in ((r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
                          (r" & ", [" | "]), (r" \| ", [" & "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" \+= ", [" = ", " -= "]), (r" \|= ", [" = ", " &= "]), (r"\+\+", ["--"]), (r"\* ", []), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" % ", [" / "]), (r" / ", [" * "])):
            for m in re.finditer(pat, code):
                for rp in reps: add(pat, l[:m.start()] + rp + l[m.end():])
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
            v = int(m.group(1), 0); add("lit", l[:m.start()] + str(v + 1) + l[m.end():])
            if v: add("lit", l[:m.start()] + str(v - 1) + l[m.end():])
        if s.endswith(";") and not re.match(r"(return|goto|break|continue|else|case|default|for|\}|[\w:<>,\*& ]+ \*?\w+( = .*|\[.*)?;$|typedef|struct|static|const|using|void \w|size_t \w|int \w|u\d+ \w)", s): add("del", "    " * 0 + l[:len(l) - len(l.lstrip())] + ";")
        elif re.match(r"^\w+(->|\.|\[|\()?.* = ", s) and s.endswith(";") and not re.match(r"^(const |static |u\d+|s\d+|int|size_t|auto|bool|char|std::|decl_\w+ |crefl_\w+ |FILE)", s): add("del", ";")
        if s in ("break;", "continue;", "goto err;", "return -1;"): add("del", ";" if s != "return -1;" else "return 0;")
        m = re.match(r"^(\s*(?:\} else )?if )\((.*)\)( \{)?$", l)
        if m: add("if0", m.group(1) + "(0 && (" + m.group(2) + "))" + (m.group(3) or "")); add("if1", m.group(1) + "(1 || (" + m.group(2) + "))" + (m.group(3) or ""))
    return out


def main():
    a = sys.argv[1:]; jobs = 3; lo, hi = 1, 10 ** 9
    if "--jobs" in a: k = a.index("--jobs"); jobs = int(a[k + 1]); del a[k:k + 2]
    if "--lines" in a: k = a.index("--lines"); lo, hi = map(int, a[k + 1].split("-")); del a[k:k + 2]
    f, n, seed = a[0], int(a[1]), int(a[2]); text = open("/repo/" + f).read(); lines = text.split("\n")
    ms = mutants(text, lo, hi); random.Random(seed).shuffle(ms); print("%s: %d candidates" % (f, len(ms))); ms = ms[:n]
    free = []; lock = threading.Lock(); base = tempfile.mkdtemp(prefix="mutate_")
    for j in range(jobs):
        d = os.path.join(base, str(j)); os.makedirs(d + "/verif")
        subprocess.run("mkdir %s/repo && cd /repo && git archive HEAD | tar x -C %s/repo && cp -a /repo/.git %s/repo/.git" % (d, d, d), shell=True, check=True)
        for x in os.listdir(V):
            if x not in (".git", "seeded", "evidence", "replays"): subprocess.run(["cp", "-a", os.path.join(V, x), d + "/verif"], check=True)
        free.append(d)
    def one(m):
        i, k, new = m
        with lock: d = free.pop()
        try:
            ls = list(lines); ls[i] = new; open(os.path.join(d, "repo", f), "w").write("\n".join(ls))
            checks = (asn1(i, lines) if MAP[f] is None else MAP[f]).split(); log = []
            for c in checks:
                p = subprocess.Popen([sys.executable, "check.py", c, "--tier", "quick"], cwd=d + "/verif", env=dict(os.environ, VF_REPO=d + "/repo", VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
                try: t, _ = p.communicate(timeout=900)
                except subprocess.TimeoutExpired: log.append(c + ":timeout"); os.killpg(p.pid, 9); p.communicate(); continue
                if p.returncode == 1: return m, "killed " + c + (" after " + " ".join(log) if log else ""), ""
                if p.returncode == 2:
                    t = t.decode(errors="replace")
                    if "cannot build" in t: return m, "nobuild", t[-200:]
                    log.append(c + ":rc2")
                else: log.append(c)
            return m, "SURVIVED" + (" (rc2)" if any("rc2" in x or "timeout" in x for x in log) else ""), " ".join(log)
        finally:
            open(os.path.join(d, "repo", f), "w").write(text)
            with lock: free.append(d)
    tot = {}
    with ThreadPoolExecutor(jobs) as ex:
        for fu in [ex.submit(one, m) for m in ms]:
            (i, k, new), r, x = fu.result(); tot[r.split()[0]] = tot.get(r.split()[0], 0) + 1
            if r.startswith("killed") and "rc2" not in r and "timeout" not in r: continue
            if r == "nobuild": continue
            print("%s:%d [%s] %s %s\n  - %s\n  + %s" % (f, i + 1, k, r, x, lines[i].strip(), new.strip())); sys.stdout.flush()
    print("TOTAL", f, tot)
    shutil.rmtree(base)
main()
