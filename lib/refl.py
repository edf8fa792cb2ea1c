"""Parses what readrefl prints and compares it with a cgen model."""
from cgen import meaning

CONTAINERS = {"archive", "source", "set", "enum", "struct", "union", "function"}
PROP = {"bitfield": 1 << 9, "const": 1 << 10, "volatile": 1 << 11, "restrict": 1 << 12, "static": 1 << 13, "extern_c": 1 << 14, "inline": 1 << 15, "noreturn": 1 << 16, "global": 1 << 18, "in": 1 << 22, "out": 1 << 23, "vla": 1 << 24}
LISTS = {"struct": ("fields",), "union": ("ufields",), "enum": ("enums",), "function": ("params",), "source": ("decls", "types", "sfields", "funcs")}
TYPES = {"intrinsic", "typedef", "set", "enum", "struct", "union", "array", "pointer", "qualifier"}


class Node: pass


class Db:
    def __init__(self, text):
        self.n, self.root, self.rejected = {}, 0, False
        for l in text.split("\n"):
            if l.startswith("ROOT "): self.root = int(l[5:])
            elif l == "rejected": self.rejected = True
            elif l.startswith("N "):
                p = l.split(" "); n = Node(); n.id = int(p[1])
                for kv in p[2:]:
                    k, v = kv.split("=", 1)
                    if k == "tag": n.tag = v
                    elif k == "name": n.name = bytes.fromhex(v.strip('"')).decode(errors="replace")
                    elif k == "offs": n.offs = [tuple(int(x) for x in y.split(":")) for y in v.split(",")] if v else []
                    elif k in ("enums", "fields", "ufields", "params", "decls", "types", "sfields", "funcs", "sources"): setattr(n, k, v if v == "bad" else [int(x) for x in v.split(",")] if v else [])
                    else: setattr(n, k, int(v))
                self.n[n.id] = n

    def chain(self, i):
        out, seen = [], set()
        while i:
            if i in seen or i not in self.n: raise Mismatch("list through %d does not end" % i)
            seen.add(i); out.append(i); i = self.n[i].next
        return out

    def prune(self, keep):
        """leaves out declarations of the source that keep(nodes) does not return"""
        root = self.n[self.root]; ids = [x.id for x in keep([self.n[i] for i in self.chain(root.link)])]
        for k in ("decls", "types", "sfields", "funcs"):
            q = getattr(root, k, None)
            if isinstance(q, list): setattr(root, k, [i for i in q if i in set(ids)])
        for i, j in zip([None] + ids, ids + [0]):
            if i is None: root.link = j
            else: self.n[i].next = j

    def real(self, i):
        k = 0
        while i and self.n[i].tag == "alias":
            i = self.n[i].link; k += 1
            if k > 1000: raise Mismatch("alias chain")
        return i


class Mismatch(Exception): pass


def files(out):
    """readrefl output for several files"""
    parts = out.split("FILE ")[1:]; r = {}
    for p in parts:
        name, _, rest = p.partition("\n"); r[name] = Db(rest)
    return r


class Compare:
    def __init__(self, db, merged=False):
        self.db, self.merged, self.where, self.refs, self.count = db, merged, {}, [], {}

    def fail(self, path, text): raise Mismatch("%s: %s" % ("/".join(path), text))

    def note(self, k): self.count[k] = self.count.get(k, 0) + 1

    def names(self, t):
        """name of a derived type node, from the names of what it is made of"""
        k = t[0]
        return None

    def source(self, root, name, top):
        n = self.db.n[root]
        if n.tag != "source": self.fail([name], "root is a %s" % n.tag)
        if n.name != name: self.fail([name], "source is named %r" % n.name)
        self.members(root, top, [name])
        self.check_refs()

    def members(self, id, want, path):
        n = self.db.n[id]; ids = self.db.chain(n.link)
        for k, q in ((k, getattr(n, k, None)) for k in LISTS.get(n.tag, ())):
            sel = {"fields": {"field"}, "ufields": {"field"}, "sfields": {"field"}, "enums": {"constant"}, "params": {"param"}, "funcs": {"function"}, "types": TYPES, "decls": None}[k]
            if q == "bad" or q is None or q != [i for i in ids if sel is None or self.db.n[i].tag in sel]: self.fail(path, "%s query gives %s of %s" % (k, q, ids))
        got = [self.db.n[self.db.real(i)] for i in ids]
        for i in range(max(len(got), len(want))):
            g = "%s %r" % (got[i].tag, got[i].name[:60]) if i < len(got) else "nothing"; w = "%s %r" % (want[i].kind, want[i].name[:60]) if i < len(want) else "nothing"
            if i >= len(got) or i >= len(want) or (got[i].tag, got[i].name) != (want[i].kind, want[i].name): self.fail(path, "declaration %d of %d is %s, the program has %s (%d)" % (i, len(got), g, w, len(want)))
        for g, w in zip(got, want): self.decl(g, w, path + [w.name[:40] or "<%s>" % w.kind])

    def decl(self, n, d, path):
        if id(d) in self.where:
            if self.where[id(d)] != n.id and not self.merged: self.fail(path, "declared twice")
            return
        self.where[id(d)] = n.id; self.note(d.kind)
        self.attrs(n, d, path)
        have = n.props; want = 0
        for p in d.props: want |= PROP[p]
        if d.kind == "enum":
            if n.qty != d.qty or have: self.fail(path, "enum of %d bits, properties %x; the compiler uses %d" % (n.qty, have, d.qty))
            self.members(n.id, d.members, path)
        elif d.kind in ("struct", "union"):
            if have: self.fail(path, "properties %x" % have)
            if d.fwd:
                if n.link: self.fail(path, "declared without members but has some")
            else: self.members(n.id, d.members, path)
        elif d.kind == "constant":
            if n.value != d.value % 2 ** 64: self.fail(path, "value %d, the program has %d" % (n.value, d.value))
            if n.qty != n.value: self.fail(path, "quantity %d, value %d" % (n.qty, n.value))
            t = self.db.n[n.type]
            if t.tag != "intrinsic" or not t.props & 1: self.fail(path, "type of a constant is %s %s" % (t.tag, t.name))
        elif d.kind in ("field", "typedef"):
            if have != want: self.fail(path, "properties %x, the program has %x (%s)" % (have, want, ",".join(sorted(d.props))))
            bits = getattr(d, "bits", 0)
            if n.qty != bits: self.fail(path, "bit-field width %d, the program has %d" % (n.qty, bits))
            self.type(n.link, meaning(d.type), path, d)
            if n.type != self.db.real(n.link) and n.type != n.link: self.fail(path, "type query gives %d, link %d" % (n.type, n.link))
        elif d.kind == "function":
            if have != want: self.fail(path, "properties %x, the program has %x (%s)" % (have, want, ",".join(sorted(d.props))))
            ids = self.db.chain(n.link)
            if n.params != ids: self.fail(path, "params query gives %s of %s" % (n.params, ids))
            if len(ids) != len(d.members) + 1: self.fail(path, "%d parameters, the program has %d" % (len(ids) - 1, len(d.members)))
            for i, x in enumerate(ids):
                p = self.db.n[x]; w = d.members[i - 1] if i else None; pp = path + [(w.name or "#%d" % i) if w else "return"]
                if p.tag != "param": self.fail(pp, "is a %s" % p.tag)
                if p.name != (w.name if w else ""): self.fail(pp, "parameter is named %r" % p.name)
                if i == 0:
                    if p.props != PROP["out"]: self.fail(pp, "properties %x" % p.props)
                elif p.props & ~PROP["in"]: self.fail(pp, "properties %x" % p.props)
                self.type(p.link, meaning(w.type if w else d.ret), pp, w); self.note("param")
                if w: self.attrs(p, w, pp)
                elif p.attr: self.fail(pp, "attribute on the return value")

    def attrs(self, n, d, path):
        ids = self.db.chain(n.attr); want = [a for a in d.attrs if a[2]]
        got = []
        for i in ids:
            a = self.db.n[i]
            if a.tag != "attribute": self.fail(path, "attribute list holds a %s" % a.tag)
            v = None
            if a.link:
                x = self.db.n[a.link]
                if x.tag != "value": self.fail(path, "attribute value is a %s" % x.tag)
                v = x.qty if x.name == "" and a.name == "aligned" else x.name
            got.append((a.name, v))
        want = [(a[0], a[1] * 8 if a[0] == "aligned" and a[1] is not None else a[1]) for a in want]
        for k in got: self.note("attribute")
        if got != want: self.fail(path, "attributes %s, the program has %s" % (got, want))

    def type(self, i, t, path, d=None):
        """node i stands for the type t"""
        k = t[0]; r = self.db.real(i)
        if r not in self.db.n: self.fail(path, "type %d is not there" % r)
        n = self.db.n[r]
        def bad(w): self.fail(path, "type is %s %r (properties %x, quantity %d), the program has %s" % (n.tag, n.name, n.props, n.qty, w))
        self.note("type_" + k)
        if k == "other": return # the metadata has no word for it
        if k in ("rec", "enum"): 
            if n.tag != t[1].kind: bad(t[1].kind + " " + t[1].name)
            self.refs.append((r, t[1], path)); return
        if k == "void":
            if n.tag != "intrinsic" or n.name != "void": bad("void")
        elif k == "bool":
            if n.tag != "intrinsic" or n.name != "bool": bad("_Bool")
        elif k in ("int", "float", "cfloat"):
            w = t[2] if k == "int" else t[1]; p = (1 | (8 if t[1] else 16)) if k == "int" else (2 | 32) if k == "float" else (4 | 32)
            if n.tag != "intrinsic" or n.qty != w or n.props & 63 != p or n.width != w: bad("%s of %d bits" % ({"int": ("unsigned", "signed")[t[1]] if k == "int" else ""}.get(k, k), w))
        elif k == "ptr":
            if n.tag != "pointer" or n.qty != 64 or n.props: bad("pointer")
            self.type(n.link, t[1], path + ["*"])
            if n.name != "*" + self.db.n[self.db.real(n.link)].name and not self.merged: bad("pointer to " + self.db.n[n.link].name)
        elif k == "arr":
            e = t # the qualifiers of the elements are the array's too
            while e[0] == "arr": e = e[2]
            if n.tag == "qualifier" and e[0] == "q" and n.props == sum(PROP[q] for q in e[1]): n = self.db.n[self.db.real(n.link)]
            c = t[1] if isinstance(t[1], int) else 0; vla = isinstance(t[1], str)
            if n.tag != "array" or n.qty != c or n.count != c: bad("array of %s" % t[1])
            p = (PROP["static"] if t[3] else 0) | (PROP["vla"] if vla and n.props & PROP["vla"] else 0)
            if n.props != p: bad("array with properties %x" % p)
            if vla and not n.props & PROP["vla"]: bad("variable length array")
            self.type(n.link, t[2], path + ["[]"])
        elif k == "q":
            p = 0
            for q in t[1]: p |= PROP[q]
            if n.tag != "qualifier" or n.props != p: bad("%s qualifier" % " ".join(sorted(t[1])))
            self.type(n.link, t[2], path + ["q"])
        else: raise ValueError(k)

    def check_refs(self):
        while self.refs:
            r, d, path = self.refs.pop(); d = d.defn or d; w = self.where.get(id(d))
            if w is None:
                if self.merged or getattr(d, "builtin", False):
                    if not self.merged: self.where[id(d)] = r
                    self.decl(self.db.n[r], d, path + ["->"]); continue
                self.fail(path, "the model has lost %r" % d)
            if w == r: self.note("reference"); continue
            if self.merged: # a shared definition: the same thing declared elsewhere
                n = self.db.n[r]
                if (n.tag, n.name) != (d.kind, d.name): self.fail(path, "refers to %s %r, the program to %s %r" % (n.tag, n.name, d.kind, d.name))
                sub = Compare(self.db, True); sub.where = {}; sub.depth = getattr(self, "depth", 0) + 1
                if sub.depth < 6: sub.decl(n, d, path + ["->"])
                continue
            n = self.db.n[r]
            self.fail(path, "refers to declaration %d (%s %r), not to %d" % (r, n.tag, n.name, w))
