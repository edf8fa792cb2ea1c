import os, random, re, sys, threading
from vf import REPO
from concurrent.futures import ThreadPoolExecutor

TAGS = ("reserved boolean integer bit_string octet_string null object_identifier object_descriptor external real enumerated embedded_pdv "
        "utf8_string relative_oid reserved_14 reserved_15 sequence set numeric_string printable_string t61_string reserved_21 ia5_string "
        "utc_time generalized_time graphic_string iso646_string general_string utf32_string reserved_29 utf16_string reserved_31").split()
MAXDEPTH = 1000


class Odd(Exception): pass      # an encoding that may be refused
class Bad(Exception): pass      # one that must be


def b128(v):
    r = [v & 127]; v >>= 7
    while v: r.insert(0, 0x80 | v & 127); v >>= 7
    return bytes(r)


def ident(cls, con, tag): return bytes([cls << 6 | con << 5 | (tag if tag < 31 else 31)]) + (b128(tag) if tag >= 31 else b"")


def length(n, pad=None):
    if pad is None and n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8 or 1, "big")
    if pad: b = bytes(max(0, pad - len(b))) + b
    return bytes([0x80 | len(b)]) + b


class Printer:
    """what asn1tool must print, from X.690; lines are (text, kind) where kind says how exactly content is specified"""
    def __init__(self, data, names): self.d, self.o, self.lines, self.names, self.odd, self.n = data, 0, [], names, False, 0
    def byte(self):
        if self.o >= len(self.d): raise Bad("truncated")
        self.o += 1; return self.d[self.o - 1]
    def header(self):
        b = self.byte(); cls, con, tag = b >> 6, b >> 5 & 1, b & 31
        if tag == 31:
            tag, k = 0, 0
            while True:
                b = self.byte(); k += 1
                if k == 1 and b == 0x80: self.odd = True
                tag = tag << 7 | b & 127
                if tag >> 56: raise Bad("tag number")
                if not b & 128: break
            if k > 8: self.odd = True
            if tag < 31: raise Bad("high form of a low tag")
        b = self.byte()
        if b < 128: n = b
        else:
            k = b & 127
            if k == 0 or k == 127: raise Bad("length form")
            if k > 8: self.odd = True
            n = 0
            for _ in range(k): n = n << 8 | self.byte()
        return cls, con, tag, n
    def text(self, cls, tag, c):
        """content column; None when there is none"""
        if cls: return "", True
        if tag in (2, 3, 9): return "{" + ",".join("%02x" % x for x in c) + "}", True
        if tag in (19, 23): return '"' + c.decode("latin1") + '"', not any(x == 0 for x in c)
        if tag == 6:
            arcs, v, ok = [], 0, len(c) > 0 and not c[-1] & 128
            start = True
            for x in c:
                if start and x == 0x80: ok = False
                v = v << 7 | x & 127; start = False
                if v >> 56: ok = False
                if not x & 128: arcs.append(v); v = 0; start = True
            name = self.names.get(bytes(c).hex(), "")
            if name is None: return "", False
            if not ok or len(arcs) > 14: return name, False
            a = arcs[0]; first = [min(a // 40, 2)]; first.append(a - 40 * first[0])
            return "%s (%s)" % (name, ".".join(str(x) for x in first + arcs[1:])), True
        return "", True
    def element(self, limit, depth):
        if depth > MAXDEPTH: raise Bad("depth")
        cls, con, tag, n = self.header(); at = self.o
        if at > limit or n > limit - at: raise Bad("contents")
        self.n += 1
        name = TAGS[tag] if tag < 32 else "<unknown>"
        head = "[%5d;%-5d]%s|-%s%-20s" % (at, n, "  " * depth, "*" if con else " ", name)
        if con:
            self.lines.append((head, True, ""))
            while self.o < at + n: self.element(at + n, depth + 1)
            return
        text, exact = self.text(cls, tag, self.d[at:at + n])
        has = not cls and tag in (2, 3, 6, 9, 19, 23)
        self.lines.append((head + ("  " * max(0, 15 - depth) if has else "") + (text if exact else ""), exact, text))
        self.o = at + n
    def run(self):
        self.err = None
        if not self.d: self.odd = True
        try:
            while self.o < len(self.d): self.element(len(self.d), 0)
        except Bad as e: self.err = str(e)


def match(out, lines):
    """index of the first line that out does not continue with, and the rest of out"""
    for k, (t, exact, _) in enumerate(lines):
        if exact:
            w = (t + "\n").encode("latin1")
            if not out.startswith(w): return k, out
            out = out[len(w):]
        else:   # lenient content: anything up to what starts the next element
            w = t.encode("latin1")
            if not out.startswith(w): return k, out
            out = out[len(w):]
            nxt = (lines[k + 1][0].encode("latin1")) if k + 1 < len(lines) else None
            j = out.find(b"\n" + nxt) if nxt is not None else out.find(b"\n")
            if nxt is None: j = len(out) - 1 if out.endswith(b"\n") else -1
            if j < 0: return (k + 1, b"") if out.endswith(b"\n") else (k, out)      # the output ends with this element
            out = out[j + 1:]
    return len(lines), out


def content(r, tag, names):
    k = r.randrange(6)
    if tag == 6:
        if k < 2 and names: return bytes.fromhex(r.choice(names))
        if k == 5: return bytes(r.randrange(256) for _ in range(r.randrange(12)))
        arcs = [r.choice([0, 1, 39, 40, 79, 80, 119, 120, 127, 128, 16383, 16384, r.getrandbits(r.randrange(1, 57))]) for _ in range(r.randrange(1, 15))]
        if r.random() < .15: arcs = [r.getrandbits(56) | 1 << r.randrange(40, 56) for _ in range(r.randrange(8, 15))]      # the longest texts
        return b"".join(b128(a) for a in arcs)
    if tag in (19, 23): return bytes(r.choice(b"ABCabc 019%sdn()\"\\-Z") for _ in range(r.choice([0, 1, 13, 100, 255, 256, 300, r.randrange(40)] + [65535, 65536, 70000] * (r.random() < .05)))) if k else bytes(r.randrange(256) for _ in range(r.randrange(30)))
    return bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 8, 9, r.randrange(200), r.randrange(200)] + [254, 255, 256, 257, 1000, 4000, 65535, 65536, 70000] * (r.random() < .06))))


def gen(r, names, depth, budget):
    cls = r.choice([0, 0, 0, 0, 1, 2, 3]); con = r.random() < (0.45 if depth < 30 else 0.1)
    tag = r.choice([2, 3, 6, 9, 19, 23, 6, 1, 4, 5, 12, 16, 17]) if r.random() < .6 else r.choice([r.randrange(31), r.randrange(31, 200), r.choice([31, 32, 127, 128, 16383, 16384, (1 << 56) - 1, r.getrandbits(56)])])
    if tag > 30 and r.random() < .5: tag = r.randrange(31)
    if con:
        body = b""
        for _ in range(r.randrange(5)):
            if budget[0] <= 0: break
            body += gen(r, names, depth + 1, budget)
    else: body = content(r, tag if cls == 0 else 0, names)
    budget[0] -= 1
    pad = r.choice([1, 2, 3, 4, 8, 8, 12]) if r.random() < .12 else None
    if pad and r.random() < .8: pad = min(pad, 8)
    return ident(cls, con, tag) + length(len(body), pad) + body


def case(r, k, names):
    f = k % 10
    if f in (0, 1, 2, 3):
        b = [r.choice([3, 20, 120])]; return b"".join(gen(r, names, 0, b) for _ in range(r.randrange(1, 6)))
    if f == 4:      # deep nesting, near the limit too
        d = r.choice([10, 14, 15, 16, 17, 100, 500, 998, 999, 1000, 1001, 1002, 3000, 60000 if r.random() < .2 else 40]); x = ident(0, 0, 2) + length(1) + b"\x05"
        parts = [x]
        n = len(x); hdrs = []
        for _ in range(d): h = ident(r.choice([0, 2]), 1, 16) + length(n); hdrs.append(h); n += len(h)
        return b"".join(reversed(hdrs)) + x
    if f == 5: return bytes(r.getrandbits(8) for _ in range(r.randrange(1, 60)))
    b = [r.choice([2, 10, 40])]; x = bytearray(b"".join(gen(r, names, 0, b) for _ in range(r.randrange(1, 4))))
    m = r.randrange(6)
    if m == 0: return bytes(x[:r.randrange(len(x))])
    if m == 1 and x: x[r.randrange(min(len(x), 12))] = r.choice([0x80, 0x81, 0x84, 0x88, 0x89, 0xff, 0x1f, 0x3f, r.randrange(256)])
    elif m == 2: x += r.choice([b"\x02", b"\x30\x80", b"\x04\x05ab", b"\x04\x88" + b"\xff" * 8, b"\x30\x84\x7f\xff\xff\xff", b"\x1f\x81"])
    elif m == 3:    # an inner length that leaves its parent
        inner = gen(r, names, 0, [3]); x = bytearray(ident(0, 1, 16) + length(max(0, len(inner) - r.randrange(1, 4))) + inner + bytes(r.getrandbits(8) for _ in range(r.randrange(6))))
    elif m == 4:
        for _ in range(r.randrange(1, 4)):
            if x: x[r.randrange(len(x))] = r.getrandbits(8)
    else:
        i = r.randrange(len(x) + 1); x[i:i] = bytes(r.getrandbits(8) for _ in range(r.randrange(1, 4)))
    return bytes(x)


def run(c):
    sys.setrecursionlimit(20000); threading.stack_size(256 << 20)
    names = {}
    for n, s in re.findall(r'\{ "([0-9a-f]+)", "([^"]*)"', open(c.harness_file("oids.inc")).read()): names[n] = s
    try:    # the current tree may register more, or others
        for l in open(os.path.join(REPO, "data/oids.txt")):
            m = re.match(r'OBJ_(\w+)="(.*)"', l.strip())
            if m: names.setdefault("".join(re.findall(r"\\x([0-9A-Fa-f]{2})", m.group(2))).lower(), None)
    except OSError: pass
    amb = {n for n, s in names.items() if s is None or "," in s or "|" in s or " " in s}
    oids = sorted(names); tab = {n: None if n in amb else s for n, s in names.items()}
    tools = [c.build_tool("asn1tool", "san"), c.build_tool("asn1tool", "rel")]
    d = os.path.join(c.work, "der"); os.makedirs(d)
    total = int((3000 if c.quick else 60000) * c.scale)

    def one(k):
        r = random.Random("%d:%d" % (c.seed, k)); data = case(r, k, oids); f = os.path.join(d, "c%d" % k)
        p = Printer(data, tab); p.run()
        open(f, "wb").write(data)
        rc, out, err = c.run([tools[k % 2], "--dump", f], timeout=60)
        changed = open(f, "rb").read() != data; os.unlink(f)
        show = "input %s: " % (data.hex() if len(data) < 200 else data[:200].hex() + "... (%d bytes)" % len(data))
        def viol(key, text): c.add_violation(key, "%s:%d" % ("asn1tool", k), show + text, "%s:asn1tool:%d" % (["san", "rel"][k % 2], k))
        if rc == "timeout": viol("hang", "does not terminate"); return
        if rc not in (0, 1): viol(c.crash_key(err.decode(errors="replace"), rc), "exits %s: %s" % (rc, err.decode(errors="replace")[:1500])); return
        if changed: viol("modified", "asn1tool changed its input")
        n, rest = match(out, p.lines)
        c.evals += 1; c.add_stat("elements", p.n); c.add_stat("malformed" if p.err else "wellformed")
        want = p.lines[n][0] + " ..." * (not p.lines[n][1]) if n < len(p.lines) else "nothing more"
        if p.err:
            if rest and n == len(p.lines): viol("extra", "error in input (%s) after %d elements, but also printed %r" % (p.err, n, rest[:200]))
            elif rest and not p.odd: viol("extra", "element %d of %d before the error (%s): printed %r, expected %r" % (n, len(p.lines), p.err, rest[:200], want))
            if rc == 0: viol("accepted", "malformed input (%s) exits 0" % p.err)
            if not err.strip(): viol("silent", "malformed input without a diagnostic")
        elif p.odd:
            if rest: viol("extra", "element %d: printed %r, expected %r" % (n, rest[:200], want))
        else:
            if rc != 0: viol("rejected", "well-formed input exits %s after %d of %d elements: %s" % (rc, n, len(p.lines), err[:300]))
            elif n < len(p.lines) or rest: viol("output", "element %d of %d: printed %r, expected %r" % (n, len(p.lines), rest[:300], want))
            elif err.strip(): viol("stderr", "well-formed input gives %r" % err[:200])
        c.add_cover(data)
        if k < 6: c.add_sample(out.decode(errors="replace")[:600])

    if c.replay:
        one(int(c.replay.split(":")[-1])); return ""
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(total)))
    return ("generated BER/DER files (all classes, tag widths, padded lengths, nesting to past the limit of 1000, every printed content kind, registered "
            "and unregistered identifiers) and damaged ones (truncated, mutated, inner lengths leaving the parent, indefinite forms) printed by asn1tool "
            "(sanitized and plain) and compared line by line with an independent X.690 printer; distinct = distinct inputs")
