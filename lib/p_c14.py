import os, random, re, sys
from vf import REPO


def generator(c, i):
    """parse_oids.py on a list in the format of data/oids.txt: every identifier, as X.690 reads it"""
    r = random.Random("list/%s/%d" % (c.seed, i)); rows = []
    def b128(n):
        o = [n & 127]
        while n > 127: n >>= 7; o.insert(0, n & 127 | 128)
        return o
    if i == 0: # the list that is there
        text = open(os.path.join(REPO, "data/oids.txt")).read()
        for l in text.split("\n"):
            m = re.match(r'OBJ_(\w+)="(.*)"', l.strip())
            if m: rows.append((m.group(1), [int(x, 16) for x in re.findall(r"\\x([0-9A-Fa-f]{2})", m.group(2))]))
    else:
        for k in range(r.choice([1, 2, 5, 40])):
            a = r.randrange(3); arcs = [a, r.choice([0, 1, 39, r.randrange(40)]) if a < 2 else r.choice([0, 39, 40, 47, 48, 100, 999, 2 ** 14 - 81, r.randrange(2 ** 40)])] + [r.choice([0, 1, 127, 128, 16383, 16384, 113549, r.randrange(2 ** r.randrange(1, 60))]) for _ in range(r.choice([0, 0, 1, 3, 7]))]
            rows.append(("n%d_%s" % (k, "x" * r.randrange(30)), b128(arcs[0] * 40 + arcs[1]) + [y for x in arcs[2:] for y in b128(x)]))
        text = "".join('OBJ_%s="%s"\n' % (n, "".join("\\x%02X" % x for x in o)) for n, o in rows)
    def dotted(o):
        subs, v = [], 0
        for x in o:
            v = v << 7 | x & 127
            if x < 128: subs.append(v); v = 0
        a = min(subs[0] // 40, 2); return ".".join(str(x) for x in [a, subs[0] - 40 * a] + subs[1:])
    d = os.path.join(c.work, "list%d" % i); os.makedirs(os.path.join(d, "data")); open(os.path.join(d, "data", "oids.txt"), "w").write(text); rep = "list:%d" % i
    for opt, want in (("--strings", [(dotted(o), n) for n, o in rows]), ("--bytes", [(",".join("0x%02x" % x for x in o), len(o), n) for n, o in rows])):
        rc, out, err = c.run([sys.executable, os.path.join(REPO, "scripts", "parse_oids.py"), opt], cwd=d); out = out.decode(errors="replace")
        got = [(m[0], m[1]) for m in re.findall(r'^\{ "([0-9.]+)",\s+"(\w+)"\s*\},?$', out, re.M)] if opt == "--strings" else [(m[0], int(m[1]), m[2]) for m in re.findall(r'^\{ \{ ([0-9a-fx,]+) \}, (\d+), "(\w+)" *\},?$', out, re.M)]
        c.evals += len(want); c.add_stat("list rows", len(want)); c.add_cover("%d %s" % (i, opt))
        if rc != 0 or sorted(got) != sorted(want) or len(out.strip().split("\n")) != len(want):
            c.add_violation("list:" + opt, rep, "parse_oids.py %s exits %s; first difference: %s" % (opt, rc, next(((a, b) for a, b in zip(sorted(got), sorted(want)) if a != b), "%d rows of %d" % (len(got), len(want)))), text[:3000])


def run(c):
    extra = ""
    if c.replay and c.replay.startswith("list:"): generator(c, int(c.replay[5:])); return "replay"
    if not c.replay:
        for i in range(30 if c.quick else 400): generator(c, i)
    try:
        # a registry the current tree extends is not a stray entry
        names = set()
        for l in open(os.path.join(REPO, "data/oids.txt")):
            m = re.match(r'OBJ_(\w+)="(.*)"', l.strip())
            if m: names.add("".join(re.findall(r"\\x([0-9A-Fa-f]{2})", m.group(2))).lower())
        base = set(re.findall(r'\{ "([0-9a-f]+)"', open(c.harness_file("oids.inc")).read()))
        extra = ",".join(sorted(names - base))
    except OSError:
        pass
    for v, exe in zip(("san", "rel"), c.build_all([("san", "oid.cc", {}), ("rel", "oid.cc", {})])):
        c.run_harness(exe, v, opts={"extra": extra} if extra else None)
    return ("identifiers of 2 to 15 arcs with arcs at every encoding width, all first-arc combinations, converted text<->arcs<->BER/DER against a "
            "reference encoder, into every text capacity; malformed text; the complete registry and its neighbourhood (prefixes, extensions, one-octet "
            "changes) looked up; distinct = distinct identifiers and texts")
