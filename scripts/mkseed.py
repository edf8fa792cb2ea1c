#!/usr/bin/env python3
"""mkseed.py [id...]: writes seeded/<id>/ from the specs in scripts/seedspecs/*.py.
A spec calls S(id, prop, needs, breaks, [(file, old, new), ...], demo_cc=..., demo_sh=...)."""
import os, sys, glob, subprocess, tempfile, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = """#!/bin/bash
# exits 0 when the library behaves, 1 when the planted change shows
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -include cstdint -O1 -g %s -I/repo/include "$here/demo.cc" /repo/_build/libcmodel.a -o "$t/demo" || exit 2
cd "$t" && timeout 250 ./demo
"""
def main():
    want = set(sys.argv[1:])
    specs = []
    def S(id, prop, needs, breaks, edits, demo_cc=None, demo_sh=None, flags="", files=None):
        specs.append((id, prop, needs, breaks, edits, demo_cc, demo_sh, flags, files or {}))
    for f in sorted(glob.glob(os.path.join(V, "scripts", "seedspecs", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"S": S})
    assert len(set(s[0] for s in specs)) == len(specs)
    for id, prop, needs, breaks, edits, cc, shs, flags, files in specs:
        if want and id not in want: continue
        t = tempfile.mkdtemp(prefix="mkseed_")
        try:
            for f in sorted(set(e[0] for e in edits)):
                src = open(os.path.join(REPO, f)).read()
                for g, old, new, *nth in edits:
                    if g != f: continue
                    n = src.count(old)
                    if nth:      # the nth occurrence, counted from 1
                        parts = src.split(old)
                        src = old.join(parts[:nth[0]]) + new + old.join(parts[nth[0]:])
                        continue
                    if n != 1: raise SystemExit("%s: %d matches of %r in %s" % (id, n, old, f))
                    src = src.replace(old, new)
                for d, c in (("a", open(os.path.join(REPO, f)).read()), ("b", src)):
                    os.makedirs(os.path.dirname(os.path.join(t, d, f)), exist_ok=True)
                    open(os.path.join(t, d, f), "w").write(c)
            diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE).stdout.decode()
        finally:
            shutil.rmtree(t)
        cur = None; orig = set()
        for l in diff.split("\n"):
            if l.startswith("--- "):
                cur = l[4:].strip()[2:]
                orig = set(subprocess.run(["git", "-C", REPO, "show", "0fb5cfa:" + cur], stdout=subprocess.PIPE).stdout.decode().split("\n"))
            elif l.startswith("-") and l[1:].strip() and l[1:] not in orig:
                print("WARNING %s: line not in the original: %s" % (id, l[1:]))
        if not any(l.startswith("-") and not l.startswith("---") and l[1:].strip() for l in diff.split("\n")): print("NOTE %s: only adds lines" % id)
        d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if cc: open(os.path.join(d, "demo.cc"), "w").write(cc.lstrip("\n"))
        for n, c in files.items(): open(os.path.join(d, n), "w").write(c.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(shs.lstrip("\n") if shs else SH % flags)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", id)
main()
