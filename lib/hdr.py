"""What another compiler (gcc, through its debug information) says about the types of a header, next to
what the metadata of the same header says."""
import os, re, shutil
import plug

WORDS = ["_Float32", "_Float64", "_Float32x", "_Float64x"]     # typedefs of clang's C library view, keywords of gcc
DIE = re.compile(r"^ <([0-9a-f]+)><([0-9a-f]+)>: Abbrev Number: (\d+)(?: \(DW_TAG_(\w+)\))?")
ATTR = re.compile(r"^    <[0-9a-f]+>   DW_AT_(\w+) *: *(.*)$")


class Die:
    def __init__(self, id, tag): self.id, self.tag, self.at, self.kids = id, tag, {}, []


class Dwarf:
    """the debug information of one object file"""
    def __init__(self, text):
        self.d, self.top, stack = {}, [], []
        for l in text.split("\n"):
            m = DIE.match(l)
            if m:
                lv = int(m.group(1)); cur = None
                if m.group(3) == "0": continue
                cur = Die(int(m.group(2), 16), m.group(4)); self.d[cur.id] = cur
                del stack[lv:]
                if lv == 1: self.top.append(cur)
                if lv: stack[-1].kids.append(cur)
                stack.append(cur); continue
            m = ATTR.match(l)
            if m and stack:
                v = m.group(2)
                if m.group(1) == "name": v = v.rpartition("): ")[2] if v.startswith("(ind") or v.startswith("(alt") else v
                stack[-1].at[m.group(1)] = v.strip()
        self.named = {}
        for x in self.top:
            if "name" in x.at and "declaration" not in x.at: self.named.setdefault((x.tag, x.at["name"]), x)
    def type(self, x):
        t = x.at.get("type")
        return self.d[int(t[1:-1], 16)] if t else None
    @staticmethod
    def num(x, k, default=None):
        v = x.at.get(k)
        if v is None: return default
        try: return int(v.split("\t")[0].split()[0], 0)
        except ValueError: return None          # an expression
    def strip(self, x):
        while x is not None and x.tag in ("typedef", "const_type", "volatile_type", "restrict_type"): x = self.type(x)
        return x
    def shape(self, x, depth=0):
        """a type, typedefs replaced, qualifiers of arrays at their elements"""
        q = set()
        while x is not None and x.tag in ("typedef", "const_type", "volatile_type", "restrict_type"):
            if x.tag != "typedef": q.add(x.tag[:-5])
            x = self.type(x)
        if x is None: return qual(q, "void")
        t = x.tag
        if t == "base_type":
            n, e = self.num(x, "byte_size", 0) * 8, x.at.get("encoding", "").partition("(")[2].rstrip(")")
            s = {"signed": "s", "signed char": "s", "unsigned": "u", "unsigned char": "u", "float": "f", "boolean": "b", "complex float": "c"}.get(e)
            return qual(q, s + str(n) if s and not x.at.get("name", "").startswith("complex int") else "?")
        if t == "pointer_type": return qual(q, "*" + self.shape(self.type(x), depth + 1) if depth < 40 else "?")
        if t == "subroutine_type": return "void"
        if t in ("structure_type", "union_type", "enumeration_type"): return qual(q, "%s %s" % (t.split("_")[0].replace("structure", "struct").replace("enumeration", "enum"), x.at.get("name", "")))
        if t == "array_type":
            if "GNU_vector" in x.at: return "?"
            dims = []
            for k in x.kids:
                n = self.num(k, "count"); u = self.num(k, "upper_bound")
                dims.append(n if n is not None else u + 1 if u is not None else 0)
            e = self.type(x); s = self.shape(e, depth + 1)
            if q: s = qual(q, s)
            return "".join("[%d]" % (n % 2 ** 64) for n in dims) + s
        return "?"


def qual(q, s):
    if not q: return s
    dims = ""
    while s.startswith("["): k = s.index("]") + 1; dims += s[:k]; s = s[k:]
    if s.startswith("("): w, _, s = s[1:].partition(")"); q = set(q) | set(w.split())
    return dims + "(" + " ".join(sorted(q)) + ")" + s


def shape(db, i, depth=0):
    """the same of a type in the metadata"""
    q = set(); n = db.n[db.real(i)]
    while n.tag in ("qualifier", "typedef"):
        if n.tag == "qualifier": q |= {k for b, k in ((1 << 10, "const"), (1 << 11, "volatile"), (1 << 12, "restrict")) if n.props & b}
        n = db.n[db.real(n.link)]
    if n.tag == "intrinsic":
        if n.name == "void": return qual(q, "void")
        if n.name == "bool": return qual(q, "b8")
        return qual(q, ("s" if n.props & 8 else "u" if n.props & 16 else "f" if n.props & 2 else "c") + str(n.qty))
    if n.tag == "pointer": return qual(q, "*" + shape(db, n.link, depth + 1) if depth < 40 else "?")
    if n.tag in ("struct", "union", "enum"): return qual(q, "%s %s" % (n.tag, n.name))
    if n.tag == "array": s = "[%d]" % n.qty + shape(db, n.link, depth + 1); return qual(q, s) if q else s
    return "?"


def same(w, g):
    """w: of the compiler, g: of the metadata. Types without a word in the format are left open."""
    if "?" in w or "?" in g: return True
    return w == g


def debug_info(c, d, src, db):
    """Dwarf of the header unit in d/src, with a pointer to every function and variable of the metadata; None when gcc does not take the text"""
    rc, out, err = c.run([plug.CLANG, "-E", "-P", src], cwd=d, timeout=120)
    if rc != 0: return None
    top = [db.n[db.real(i)] for i in db.chain(db.n[db.root].link)]
    names = sorted({x.name for x in top if x.tag in ("function", "field") and x.name})
    for extra in (names, []):
        with open(os.path.join(d, "gcc.c"), "w") as f: f.write(out.decode(errors="replace") + "".join("\n__typeof__(%s) *vf_of_%s;" % (n, n) for n in extra) + "\n")
        rc, _, err = c.run(["gcc", "-w", "-std=gnu11"] + ["-D%s=vf_gcc%s" % (w, w) for w in WORDS] + ["-gdwarf-5", "-gno-strict-dwarf", "-fno-eliminate-unused-debug-types", "-O0", "-c", "gcc.c", "-o", "gcc.o"], cwd=d, timeout=120)
        if rc == 0: break
    if rc != 0: return None
    rc, out, err = c.run(["readelf", "--debug-dump=info", "gcc.o"], cwd=d, timeout=120)
    return Dwarf(out.decode(errors="replace")) if rc == 0 else None


def unit(c, pl, h, part, rep, bad):
    """reflects one system header and compares it; part: types or layout"""
    d = os.path.join(c.work, "gcc_" + h.replace("/", "_")); os.makedirs(d)
    try:
        with open(os.path.join(d, "h.c"), "w") as f: f.write("#define _GNU_SOURCE 1\n#include <%s>\n" % h)
        if c.run([plug.CLANG, "-w", "-fsyntax-only", "h.c"], cwd=d, timeout=120)[0] != 0: c.add_stat("header_not_here"); return
        rc, out, err = pl.run("rel", "h.c", "h.refl", d); f = pl.failed(rc, err)
        if f: bad("plugin:" + f[0], "plugin on <%s>: %s" % (h, f[1])); return
        dbs, e = pl.read("rel", ["h.refl"], d)
        if e: bad("reader:" + e[0], e[1]); return
        db = dbs["h.refl"]
        if db.rejected: bad("unreadable", "the library rejects the metadata of <%s>" % h); return
        dw = debug_info(c, d, "h.c", db)
        if dw is None: c.add_stat("header_not_for_gcc"); return
        n = [0]
        def stat(k, v=1): n[0] += v; c.add_stat(k, v)
        report = lambda k, t: bad("header-" + k, "<%s>: %s" % (h, t[:1200]))
        if part == "types": types(db, dw, report, stat)
        elif not packing(d): layout(db, dw, report, stat)
        c.evals += n[0]; c.add_stat("gcc_headers"); c.add_cover("gcc header " + h)
    except refl.Mismatch as x: bad("header-graph", "<%s>: %s" % (h, x))
    finally: shutil.rmtree(d, ignore_errors=True)


def available():
    """system headers, by the name they are included with"""
    out = []
    for base in ("/usr/include", "/usr/include/x86_64-linux-gnu"):
        for sub in ("", "sys", "linux", "net", "netinet", "arpa", "asm", "bits/types", "rpc", "protocols", "scsi", "sound", "drm", "rdma", "mtd", "video", "xen", "asm-generic"):
            d = os.path.join(base, sub)
            if os.path.isdir(d): out += [os.path.join(sub, f) for f in os.listdir(d) if f.endswith(".h")]
    return sorted(set(out))


KIND = {"struct": "structure_type", "union": "union_type", "enum": "enumeration_type"}


def members(db, n): return [db.n[db.real(i)] for i in db.chain(n.link)]


def records(db, dw):
    """pairs of a record or enum in the metadata and in the debug information"""
    out, seen = [], set()
    def pair(n, x, path):
        if (n.id, x.id) in seen or "declaration" in x.at or not n.link: return
        seen.add((n.id, x.id)); out.append((n, x, path))
        if n.tag == "enum": return
        ms = {m.at["name"]: m for m in x.kids if m.tag == "member" and "name" in m.at}
        for f in members(db, n):
            if f.tag != "field" or not f.name or f.name not in ms: continue
            t = db.n[db.real(f.link)]
            while t.tag in ("array", "qualifier", "pointer"): t = db.n[db.real(t.link)]
            y = dw.type(ms[f.name])
            while y is not None and y.tag in ("array_type", "const_type", "volatile_type", "restrict_type", "typedef", "pointer_type"): y = dw.type(y)
            if t.tag in KIND and y is not None and y.tag == KIND[t.tag] and not t.name and "name" not in y.at: pair(t, y, path + "." + f.name)
    for n in members(db, db.n[db.root]):
        if n.tag in KIND and n.name and n.link:
            x = dw.named.get((KIND[n.tag], n.name))
            if x is not None: pair(n, x, n.tag + " " + n.name)
        if n.tag == "typedef":
            x = dw.named.get(("typedef", n.name)); t = db.n[db.real(n.link)]
            if x is not None and t.tag in KIND and not t.name:
                y = dw.type(x)
                if y is not None and y.tag == KIND[t.tag]: pair(t, y, n.name)
    return out


def types(db, dw, report, stat):
    """names, types, bit-field widths and values as the other compiler has them"""
    for n, x, path in records(db, dw):
        ms = members(db, n)
        if n.tag == "enum":
            w = [(k.at["name"], dw.num(k, "const_value")) for k in x.kids if k.tag == "enumerator"]; bits = 8 * dw.num(x, "byte_size", 0)
            if n.qty != bits: report("enum-width", "%s: %d bits, gcc %d" % (path, n.qty, bits))
            g = [(m.name, m.value) for m in ms if m.tag == "constant"]
            if [(a, b % 2 ** bits) for a, b in w] != [(a, b % 2 ** bits) for a, b in g]: report("enumerators", "%s: %s, gcc %s" % (path, g[:12], w[:12]))
            stat("gcc_enumerators", len(w)); continue
        g = [m for m in ms if m.tag == "field" and (m.name or not m.props & 1 << 9)]; w = [k for k in x.kids if k.tag == "member"]
        if not w: continue              # gcc keeps the members of a transparent union elsewhere
        if [m.name for m in g] != [k.at.get("name", "") for k in w]: report("members", "%s: %s, gcc %s" % (path, [m.name for m in g], [k.at.get("name") for k in w])); continue
        for m, k in zip(g, w):
            b = dw.num(k, "bit_size"); stat("gcc_members")
            if (m.qty if m.props & 1 << 9 else None) != b: report("bits", "%s.%s: bit-field of %s bits, gcc %s" % (path, m.name, m.qty, b))
            if not m.name: continue
            s, t = dw.shape(dw.type(k)), shape(db, m.link)
            if not same(s, t): report("type", "%s.%s is %s, gcc %s" % (path, m.name, t, s))
    last = {n.name: n for n in members(db, db.n[db.root]) if n.tag == "field"}      # an array can get its bound late
    for n in members(db, db.n[db.root]):
        if n.tag == "typedef":
            x = dw.named.get(("typedef", n.name))
            if x is None: continue
            s, t = dw.shape(dw.type(x)), shape(db, n.link); stat("gcc_typedefs")
            if not same(s, t): report("type", "typedef %s is %s, gcc %s" % (n.name, t, s))
        if n.tag in ("function", "field") and n.name:
            x = dw.named.get(("variable", "vf_of_" + n.name))
            y = dw.type(x) if x is not None else None
            y = dw.type(y) if y is not None else None
            if n.tag == "field":
                if x is None or y is None or last[n.name] is not n: continue
                s, t = dw.shape(y), shape(db, n.link); stat("gcc_variables")
                if not same(s, t): report("type", "variable %s is %s, gcc %s" % (n.name, t, s))
                continue
            while y is not None and y.tag in ("const_type", "volatile_type"): y = dw.type(y)     # pure or noreturn functions
            if y is None or y.tag != "subroutine_type": continue
            ps = [db.n[p] for p in db.chain(n.link)]; w = [dw.type(y)] + [dw.type(k) for k in y.kids if k.tag == "formal_parameter"]
            if "prototyped" not in y.at: continue
            stat("gcc_functions")
            if len(ps) != len(w): report("params", "%s: %d parameters, gcc %d" % (n.name, len(ps) - 1, len(w) - 1)); continue
            bare = lambda s: re.sub(r"^(\([a-z ]*\))?", "", s)
            decay = lambda s: re.sub(r"^\[\d+\]", "*", s)      # parameters keep the form they are written in
            for i, (p, k) in enumerate(zip(ps, w)):
                s, t = bare(dw.shape(k)), bare(decay(shape(db, p.link)))
                if i and t == "void" and s == "*void": continue     # written as a function: no word
                if not same(s, t): report("type", "%s %d of %s is %s, gcc %s" % ("parameter" if i else "return", i, n.name, t, s))


def packing(d):
    """does a pragma change how records are laid out?"""
    with open(os.path.join(d, "gcc.c")) as f: return "#pragma pack" in f.read()


def layout(db, dw, report, stat):
    """sizes and offsets, of records without packed and alignment attributes"""
    memo = {}
    def attributed(n, depth=0):         # by its own attributes or by what it holds
        if n.id in memo: return memo[n.id]
        memo[n.id] = any(db.n[a].name in ("packed", "aligned") for a in db.chain(n.attr)); r = memo[n.id]
        for f in members(db, n) if n.tag in ("struct", "union") else []:
            if r: break
            if f.tag != "field": continue
            r = any(db.n[a].name in ("packed", "aligned") for a in db.chain(f.attr)); t = db.n[db.real(f.link)]
            while t.tag in ("array", "qualifier"): t = db.n[db.real(t.link)]
            if t.tag in ("struct", "union") and not r: r = attributed(t)
        memo[n.id] = r; return r
    aligned = {}
    def special(x):                     # alignment or a type without a word, as gcc has it
        x = dw.strip(x)
        while x is not None and x.tag == "array_type":
            if "GNU_vector" in x.at: return True
            x = dw.strip(dw.type(x))
        if x is None or x.tag == "atomic_type": return x is not None
        if "alignment" in x.at: return True
        if x.tag not in ("structure_type", "union_type"): return dw.shape(x) == "?"
        if x.id not in aligned:
            aligned[x.id] = False
            aligned[x.id] = any("alignment" in k.at or has_aligned_typedef(dw.type(k)) or special(dw.type(k)) for k in x.kids if k.tag == "member")
        return aligned[x.id]
    def has_aligned_typedef(x):
        while x is not None and x.tag in ("typedef", "const_type", "volatile_type", "restrict_type", "array_type"):
            if "alignment" in x.at: return True
            x = dw.type(x)
        return False
    for n, x, path in records(db, dw):
        size = dw.num(x, "byte_size")
        if n.tag == "enum" or size is None or attributed(n) or special(x): continue
        if n.width != size * 8: report("size", "%s is %d bits wide, gcc %d" % (path, n.width, size * 8)); continue
        stat("gcc_sizes")
        if n.tag != "struct": continue
        o = dict(n.offs[:-1]) if n.offs else {}
        g = [m for m in members(db, n) if m.tag == "field" and (m.name or not m.props & 1 << 9)]; w = [k for k in x.kids if k.tag == "member"]
        if len(g) != len(w): continue
        for m, k in zip(g, w):
            v = dw.num(k, "data_bit_offset"); v = 8 * dw.num(k, "data_member_location", 0) if v is None else v
            stat("gcc_offsets")
            if o.get(m.id) != v: report("offset", "%s.%s is at bit %s, gcc puts it at %d" % (path, m.name, o.get(m.id), v))
    for n in members(db, db.n[db.root]):
        if n.tag != "typedef": continue
        x = dw.named.get(("typedef", n.name)); t = db.n[db.real(n.link)]; y = dw.strip(x)
        if x is None or y is None or has_aligned_typedef(x) or special(y) or (t.tag in ("struct", "union") and (attributed(t) or not t.link)) or y.tag not in ("base_type", "pointer_type", "enumeration_type"): continue
        size = dw.num(y, "byte_size"); stat("gcc_sizes")
        if t.tag != "qualifier" and size and t.width != 8 * size and y.at.get("name") != "_Bool": report("size", "typedef %s is %d bits wide, gcc %d" % (n.name, t.width, 8 * size))
