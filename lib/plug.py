"""Runs the compiler plugin the way creflcc.py does, and reads what it wrote through the query interface."""
import os, subprocess, sys
import refl
from vf import REPO, LLVM

CLANG = os.path.join(LLVM, "clang")


class Plugin:
    def __init__(self, c, san=True):
        self.c = c
        self.dir = {"rel": os.path.dirname(c.build_plugin())}
        self.preload = None
        if san:
            so = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
            if os.path.isabs(so): self.dir["san"] = os.path.dirname(c.build_plugin(True)); self.preload = so
            # can clang run with the sanitizer's run time at all here? (nothing of the plugin is loaded)
            if self.preload and c.run([CLANG, "--version"], env=self.env("san"))[0] != 0:
                del self.dir["san"]; c.notes["plugin_sanitizer"] = "the sanitizer run time cannot be preloaded here"
        c.build_lib("san"); c.build_lib("rel")
        self.reader = {v: c.build("readrefl", v, ["readrefl.c"]) for v in ("san", "rel")}

    def env(self, v):
        return {"LD_PRELOAD": self.preload, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99"} if v == "san" else {}

    def variants(self): return list(self.dir)

    def command(self, v, srcs, out, include=()):
        return [sys.executable, os.path.join(REPO, "scripts", "creflcc.py"), "-p", self.dir[v], "-o", out] + [x for i in include for x in ("-I", i)] + srcs

    def run(self, v, src, out, cwd, include=(), timeout=60):
        rc, so, se = self.c.run(self.command(v, [src], out, include), cwd=cwd, env=self.env(v), timeout=timeout)
        if b"error:" in se and b"Sanitizer" not in se:  # the compiler's word, or the plugin's?
            alone = self.c.run([CLANG, "-w", "-fms-extensions", "-fsyntax-only"] + [x for i in include for x in ("-I", i)] + [src], cwd=cwd, timeout=timeout)
            if alone[0] == 0: se = b"PLUGIN REFUSES what the compiler accepts: " + se
        return rc, so, se

    def failed(self, rc, err):
        """a reason when the run was not a clean success"""
        e = err.decode(errors="replace")
        if e.startswith("PLUGIN REFUSES"): return "refused", e[:3000]
        if "error:" in e and "Sanitizer" not in e: return "rejected", e   # the compiler did not accept the program
        if rc == "timeout": return "hang", "does not terminate"
        if "Sanitizer" in e or "PLEASE submit a bug report" in e: return self.c.crash_key(e, rc), e[-3000:]
        if rc != 0: return "exit:%s" % rc, "exits %s: %s" % (rc, e[-1500:])
        return None

    def read(self, v, files, cwd):
        rc, out, err = self.c.run([self.reader[v]] + files, cwd=cwd, timeout=300)
        e = err.decode(errors="replace")
        if rc != 0 or "runtime error" in e: return None, (self.c.crash_key(e, rc), "reading the metadata: exit %s %s" % (rc, e[-2000:]))
        return refl.files(out.decode(errors="replace")), None
