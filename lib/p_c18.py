import os, random, struct
from concurrent.futures import ThreadPoolExecutor

MAIN = """#include <stdio.h>
#include <stdlib.h>
extern const unsigned char __crefl_main_data[];
extern const size_t __crefl_main_size;
int main(void) { printf("%zu\\n", __crefl_main_size); fwrite(__crefl_main_data, 1, __crefl_main_size, stdout); return 0; }
"""


def run(c):
    exe = c.build_harness("rel", "dump.cc")
    d = os.path.join(c.work, "export"); os.makedirs(d)
    c.run_harness(exe, "rel", family="export", opts={"dir": d})
    if c.replay: return ""
    tools = [c.build_tool("crefltool", "san"), c.build_tool("crefltool", "rel")]
    main = os.path.join(c.work, "main.c"); open(main, "w").write(MAIN)
    mo = os.path.join(c.work, "main.o"); c.run(["gcc", "-c", main, "-o", mo])
    # a large one
    big = os.path.join(d, "big.refl"); n = (1 << 20) + 5 if c.quick else (8 << 20) + 11
    names = bytes([97 + i % 26 for i in range(n - 1)]) + b"\0"
    open(big, "wb").write(b"crefl000" + struct.pack("<III", 1, len(names), 23) + struct.pack("<6IQ", 17, 0, 0, 0, 0, 0, 0) + names)
    files = sorted(x[:-5] for x in os.listdir(d) if x.endswith(".refl"))
    def one(f):
        base = os.path.join(d, f); img = open(base + ".refl", "rb").read()
        tool = tools[len(img) % 2]; cf, ex = base + ".c", base + ".exe"
        rng = random.Random(len(img) * 7919 + c.seed)
        if rng.random() < 0.3: open(cf, "wb").write(b"stale /*" * rng.randrange(1, 20000))   # the output replaces what was there
        rc, out, err = c.run([tool, "--emit", cf, base + ".refl"], timeout=120)
        if rc != 0: c.add_violation("emit:status", f, "crefltool --emit exits %s: %s" % (rc, err.decode(errors="replace")[-500:]), ""); return
        if out: c.add_violation("emit:stdout", f, "crefltool --emit prints %r" % out[:200], "")
        if open(base + ".refl", "rb").read() != img: c.add_violation("emit:modified", f, "crefltool changed its input", "")
        cc = ["gcc", "clang"][rng.randrange(2)]
        rc, out, err = c.run([cc, "-w", cf, mo, "-o", ex], timeout=300)
        if rc != 0: c.add_violation("emit:compile", f, "emitted C does not compile: %s" % err.decode(errors="replace")[-500:], ""); return
        rc, out, err = c.run([ex])
        size, _, data = out.partition(b"\n")
        if rc != 0 or size != str(len(img)).encode() or data != img:
            k = next((i for i in range(min(len(data), len(img))) if data[i] != img[i]), -1)
            c.add_violation("emit:bytes", f, "emitted array has %s bytes, file has %d; first difference at %d" % (size.decode(errors="replace")[:20], len(img), k), "")
        os.unlink(ex)
        c.add_stat("emitted"); c.add_stat("emitted_bytes", len(img)); c.add_stat("size mod 16 = %d" % (len(img) % 16)); c.evals += 1; c.add_cover(img)
        want = open(base + ".stats", "rb").read() if os.path.exists(base + ".stats") else None
        if want:
            for t in tools:
                rc, out, err = c.run([t, "--stats", base + ".refl"])
                if rc != 0 or out != want: c.add_violation("stats", f, "crefltool --stats exits %s and prints %r want %r" % (rc, out[:400], want), "")
                c.add_stat("statistics"); c.evals += 1
        c.add_sample("%s: %d bytes emitted, compiled with %s, read back" % (f, len(img), cc))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, files))
    return ("exported metadata files of every size modulo the emitted line length, and one of a megabyte and more, emitted by crefltool, compiled with gcc or clang, "
            "linked and run to print the array and its size, which must be the file; statistics compared with counts computed independently; distinct = distinct files")
