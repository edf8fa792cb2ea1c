"""Generates C translation units together with a model of what they declare. The model is what C says the
text means; nothing here looks at the metadata."""
import random

INTS = [("char", 1, 8), ("signed char", 1, 8), ("unsigned char", 0, 8), ("short", 1, 16), ("unsigned short", 0, 16), ("short int", 1, 16), ("int", 1, 32), ("unsigned", 0, 32), ("unsigned int", 0, 32), ("signed", 1, 32),
        ("long", 1, 64), ("unsigned long", 0, 64), ("long unsigned int", 0, 64), ("long long", 1, 64), ("unsigned long long", 0, 64), ("__int128", 1, 128), ("unsigned __int128", 0, 128)]
FLOATS = [("float", 32), ("double", 64), ("long double", 128)]


class Decl:
    """kind: struct union enum typedef field constant function param source"""
    def __init__(self, kind, name, **kw):
        self.kind, self.name, self.attrs, self.members, self.type, self.props, self.qty, self.fwd, self.flex = kind, name, [], [], None, set(), None, False, False
        self.ptag = None        # a tag for the compiler's view of records that have none
        self.defn = None        # of a forward declaration: the definition
        self.depth = 0
        self.__dict__.update(kw)
    def __repr__(self): return "%s %s" % (self.kind, self.name or self.ptag)


def va_list():
    """the compiler's own type for variable arguments: an array of one record that no source spells out"""
    d = Decl("struct", "__va_list_tag", builtin=True)
    for n, t in (("gp_offset", ("int", "unsigned", 0, 32)), ("fp_offset", ("int", "unsigned", 0, 32)), ("overflow_arg_area", ("ptr", ("void",))), ("reg_save_area", ("ptr", ("void",)))): d.members.append(Decl("field", n, type=t))
    return ("td", Decl("typedef", "__builtin_va_list", type=("arr", 1, ("rec", d), False)))


VA_LIST = va_list()


def cstr(s):
    o = '"'
    for ch in s.encode(): o += chr(ch) if 32 <= ch < 127 and ch not in (34, 92, 63) else "\\%03o" % ch
    return o + '"'


def attr_text(attrs, r=None):
    """attrs: list of (name, value or None, listed)"""
    if not attrs: return ""
    t = [n if v is None else "%s(%s)" % (n, cstr(v) if isinstance(v, str) else v) for n, v, _ in attrs]
    if r and len(t) > 1 and r.random() < .4: return " ".join("__attribute__((%s))" % x for x in t)
    return "__attribute__((%s))" % ", ".join(t)


class Gen:
    def __init__(self, r, odd_names=True, attrs=True, packed=True, bodies=True, tag="", probe=False, size=None, others=False, huge=False, fwd_enums=False):
        self.fwd_enums, self.fenums = fwd_enums, []
        self.huge, self.others, self.enum_packed = huge, others, attrs
        self.r, self.n, self.odd, self.attrs_on, self.packed, self.bodies, self.tag, self.probe_mode = r, 0, odd_names, attrs, packed, bodies, tag, probe
        self.records, self.enums, self.typedefs, self.fwds, self.top, self.size = [], [], [], [], [], size
        self.all_records, self.pend, self.inrec = [], [], 0

    # ---- names and attributes ----
    def name(self, p="n"):
        self.n += 1; r = self.r; s = "%s%s%d" % (p, self.tag, self.n); k = r.randrange(30)
        if not self.odd: return s
        if k == 0: s += "_" + "long" * r.randrange(1, 90)
        elif k == 1: s += "é" * r.randrange(1, 4)
        elif k == 2: s = "_" * r.randrange(1, 4) + s
        elif k == 3: s += "$"
        return s

    def attrs(self, *allowed, p=.12):
        r = self.r
        if not self.attrs_on or r.random() > p: return []
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            k = r.choice(list(allowed) + ["annotate"] * 3)
            if k == "annotate": out.append((k, r.choice(["", "x", "key=value", "big-endian", "quoted \"text\" \\ %s", "é", "tab\there", "long " * r.randrange(1, 120)]), True))
            elif k == "aligned": out.append((k, r.choice([1, 2, 4, 8, 16, 32, 64, 128]), True))
            elif k == "cold" or k == "noinline": out.append((k, None, False))
            elif k not in [o[0] for o in out]: out.append((k, None, True))
        if any(o[0] == "packed" for o in out) and any(o[0] == "aligned" for o in out): out = [o for o in out if o[0] != "packed"]
        if sum(o[0] == "aligned" for o in out) > 1:
            k = [o for o in out if o[0] == "aligned"][0]; out = [o for o in out if o[0] != "aligned"] + [k]
        return out

    # ---- types: ("int", spelling, signed, width) ("bool",) ("float", sp, w) ("cfloat", sp, w) ("void",) ("ptr", T) ("arr", n, T, static) ("q", set, T)
    #      ("rec", Decl) ("enum", Decl) ("td", Decl) ("fptr", ret, [params])
    def scalar(self):
        r = self.r; k = r.randrange(12)
        if k == 0: return ("bool",)
        if k == 1: return ("float",) + r.choice(FLOATS)
        if k == 2: s, w = r.choice(FLOATS); return ("cfloat", s, w * 2)
        s, sg, w = r.choice(INTS); return ("int", s, sg, w)

    def complete(self, depth=0):
        """an object type"""
        r = self.r; k = r.randrange(20)
        if k == 6 and self.others and r.random() < .3:
            return r.choice([("vec", r.choice([("int", "int", 1, 32), ("float", "float", 32), ("int", "unsigned char", 0, 8)]), r.choice([8, 16, 32])), ("atomic", self.scalar())])
        if k == 0 and r.random() < .12: return VA_LIST
        if k < 7: return self.scalar()
        if k < 9 and self.records: return ("rec", r.choice(self.records))
        if k < 10 and self.enums: return ("enum", r.choice(self.enums))
        if k < 12 and self.typedefs:
            t = r.choice(self.typedefs)
            if self.is_complete(t.type): return ("td", t)
        if k < 15: return self.pointer(depth)
        if k < 17 and depth < 4: return ("arr", self.bound(), self.element(depth + 1), False)
        if k < 18: return self.qual(self.complete(depth + 1))
        if k == 18 and depth < 3:
            p, self.pend = self.pend, None # prototype scope
            t = ("fptr", r.choice([("void",), self.scalar()]), [self.param_type(depth + 1) for _ in range(r.randrange(3))]); self.pend = p; return t
        return self.scalar()

    def element(self, depth):
        while True:
            t = self.complete(depth)
            if not self.has_flex(t): return t

    def bound(self):
        r = self.r; return r.choice([1, 2, 3, 7, 16, r.randrange(1, 300), 65536 if r.random() < .1 else 5, 0 if r.random() < .3 else 4])

    def pointer(self, depth):
        r = self.r; k = r.randrange(8)
        if k == 0: t = ("void",)
        elif k == 2 and self.pend is not None and r.random() < .25: # the first mention of a tag declares it
            f = Decl(r.choice(["struct", "union"]), self.name("S")); f.fwd = True; self.pend.append(f); self.__dict__.setdefault("_allf", []).append(f); t = ("rec", f)
        elif k == 1 and self.fwds: t = ("rec", r.choice(self.fwds))
        elif k <= 3 and (self.records): t = ("rec", r.choice(self.records))
        elif k == 4 and depth < 5: t = self.pointer(depth + 1)
        else: t = self.complete(depth + 1) if depth < 5 else self.scalar()
        if r.random() < .3: t = self.qual(t)
        p = ("ptr", t)
        if r.random() < .15: p = ("q", frozenset(r.sample(["const", "volatile", "restrict"], r.randrange(1, 4))), p)
        return p

    def qual(self, t):
        # of arrays the elements are qualified, so those are left to the element type
        b = self.strip(t)
        if b[0] == "fptr" or (b[0] == "arr" and t[0] != "td"): return t
        return ("q", frozenset(self.r.sample(["const", "volatile"], self.r.randrange(1, 3))), t)

    def strip(self, t):
        while True:
            if t[0] == "td": t = t[1].type
            elif t[0] == "q": t = t[2]
            else: return t

    def is_complete(self, t):
        t = self.strip(t)
        if t[0] == "void": return False
        if t[0] == "rec": return not t[1].fwd
        if t[0] == "arr": return t[1] is not None and self.is_complete(t[2])
        return True

    def has_flex(self, t):
        t = self.strip(t)
        if t[0] == "rec": return t[1].flex
        if t[0] == "arr": return t[1] is None or self.has_flex(t[2])
        return False

    def param_type(self, depth=0):
        r = self.r
        for _ in range(9):
            t = self.complete(depth)
            if r.random() < .15: t = ("arr", r.choice([None, 3, 8, "*"]) if True else 0, self.element(2), False)
            if t[0] == "arr" and isinstance(t[1], int) and t[1] > 0 and r.random() < .3: t = t[:3] + (True,)
            return t
        return self.scalar()

    def has_bool(self, t): return self.strip(t)[0] == "bool"

    # ---- spelling ----
    def base(self, t, probe):
        k = t[0]
        if k in ("int", "float"): return t[1]
        if k == "cfloat": return "_Complex " + t[1]
        if k == "bool": return "_Bool"
        if k == "void": return "void"
        if k in ("rec", "enum"): return "%s %s" % (t[1].kind, t[1].name or t[1].ptag)
        if k == "td": return t[1].name
        if k == "vec": return "__attribute__((vector_size(%d))) %s" % (t[2], self.base(t[1], probe))
        if k == "atomic": return "_Atomic(%s)" % self.base(t[1], probe)
        raise ValueError(k)

    def declare(self, t, d, probe=False, inline=None):
        """C declaration of d with type t; inline: (Decl, text) spelled out where t mentions that record"""
        k = t[0]
        if k == "ptr":
            inner = "*" + d
            if t[1][0] in ("arr",): inner = "(" + inner + ")"
            return self.declare(t[1], inner, probe, inline)
        if k == "fptr": return self.declare(t[1], "(*%s)(%s)" % (d, ", ".join(self.declare(p, "", probe) for p in t[2]) or "void"), probe, inline)
        if k == "arr":
            n = "" if t[1] is None else str(t[1])
            return self.declare(t[2], "%s[%s%s]" % (d, "static " if t[3] else "", n), probe, inline)
        if k == "q":
            while t[2][0] == "q": t = ("q", t[1] | t[2][1], t[2][2])
            qs = " ".join(sorted(t[1]))
            if t[2][0] == "ptr":
                inner = "* " + qs + " " + d; p = t[2][1]
                if p[0] == "arr": inner = "(" + inner + ")"
                return self.declare(p, inner, probe, inline)
            b = t[2]
            return (qs + " " + self.declare(b, d, probe, inline)) if b[0] != "fptr" else self.declare(b, d, probe, inline)
        if inline and k in ("rec", "enum") and t[1] is inline[0]: return inline[1] + " " + d
        return self.base(t, probe) + " " + d

    # ---- declarations ----
    def enum(self, depth=0, count=None):
        r = self.r; d = Decl("enum", self.name("E") if r.random() < .7 else ""); d.attrs = self.attrs("deprecated", *(["packed"] if self.enum_packed else [])); d.depth = depth
        if not d.name: d.ptag = self.name("PT")
        v, lo, hi = -1, 0, 0
        for i in range(count or r.choice([1, 1, 2, 3, 5, 8, 40])):
            c = Decl("constant", self.name("K")); c.attrs = self.attrs("deprecated", p=.04); c.expr = None
            if r.random() < .5 or v >= 2 ** 63 - 1:
                k = r.randrange(8)
                if k == 0: v = r.choice([-1, -128, -2147483648, -2 ** 40, -2 ** 63 + 1]) if d.qty is None else v
                elif k == 1: v = r.choice([0x7fffffff, 0xffffffff, 0x80000000, 2 ** 40, 2 ** 62])
                else: v = r.choice([0, 1, 2, 10, 255, 256, r.randrange(10000)])
                c.expr = {0: "0x%x" % v, 1: "(%d)" % v, 2: "%d + %d" % (v - 3, 3) if v < 2 ** 31 else "%d" % v}.get(r.randrange(4), "%d" % v) if v >= 0 else "(%d)" % v
            else: v += 1
            lo, hi = min(lo, v), max(hi, v); c.value = v; d.members.append(c)
        if lo < 0: d.qty = 32 if lo >= -2 ** 31 and hi < 2 ** 31 else 64
        else: d.qty = 32 if hi < 2 ** 32 else 64
        if any(a[0] == "packed" for a in d.attrs):
            for w in (64, 32, 16, 8):
                if (-2 ** (w - 1) <= lo and hi < 2 ** (w - 1)) if lo < 0 else hi < 2 ** w: d.qty = w
        return d

    def record(self, depth=0, tagless=False, count=None):
        r = self.r; d = Decl("struct" if r.random() < .7 else "union", "" if tagless else self.name("S")); d.depth = depth
        if tagless: d.ptag = self.name("PT")
        d.attrs = self.attrs("deprecated", "unused", *(["packed", "aligned"] if self.packed else [])); n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 12]) if depth else r.choice([0, 1, 2, 3, 4, 6, 8, 15, 60 if r.random() < .15 else 5])
        self.all_records.append(d); body = []; n = count or n; fields = seen = 0
        while fields < n:
            self.member(d, body, depth)
            fields += sum(m.kind == "field" for m in d.members[seen:]); seen = len(d.members)
        if r.random() < .25 and not self.probe_mode and not tagless: # definitions without declarators at the end
            for _ in range(r.choice([1, 1, 1, 2])):
                if depth < 3 and r.random() < .6:
                    t = self.record(depth + 1)
                    if t.flex: continue
                    self.records.append(t)
                else:
                    t = self.enum(depth + 1)
                    if t.name: self.enums.append(t)
                d.members.append(t); body.append(([], t))
        if d.kind == "struct" and n and r.random() < .08 and depth == 0 and any(m.kind == "field" and m.name for m in d.members) and not any(m.kind == "field" and self.has_flex(m.type) for m in d.members):
            f = Decl("field", self.name("f")); f.type = ("arr", None, self.element(2), False); self.flush(f, d.members); d.members.append(f); d.flex = True; body.append(([f], None))
        d.body = body
        return d

    def member(self, d, body, depth):
        """appends member declarations; body items: ([fields], inline Decl or None) or ('decl', Decl)"""
        r = self.r; k = r.randrange(24)
        if k < 4 and depth < (3 if r.random() < .95 else 9):     # a nested definition with declarators
            anon = r.random() < .4; t = self.record(depth + 1, tagless=anon or r.random() < .4)
            if t.flex: return
            d.members.append(t)
            if anon: # C11 anonymous member
                f = Decl("field", ""); f.type = ("rec", t); f.anon = True; d.members.append(f); body.append(([f], t)); return
            fs = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                f = Decl("field", self.name("f")); f.type = self.wrap(("rec", t)); f.attrs = self.attrs("unused", "deprecated", p=.08); fs.append(f)
            d.members += fs; body.append((fs, t))
            if t.name: self.records.append(t)
            return
        if k == 4 and depth < 4:
            t = self.enum(depth + 1); d.members.append(t)
            if r.random() < .3: body.append(([], t)); 
            else:
                f = Decl("field", self.name("f")); f.type = self.wrap(("enum", t)); d.members.append(f); body.append(([f], t))
            if t.name: self.enums.append(t)
            return
        if k == 5 and depth < 3 and not self.probe_mode:         # a tag declared, no member
            t = self.record(depth + 1)
            if t.flex or not t.name: return
            d.members.append(t); body.append(([], t)); self.records.append(t); return
        if k in (6, 7, 8, 9):                                    # a run of bit-fields
            for _ in range(r.choice([1, 2, 3, 6])):
                f = Decl("field", self.name("b")); ty, w = self.bitfield_type(); f.type = ty; f.bits = r.choice([1, w, r.randrange(1, w + 1), r.randrange(1, w + 1)])
                if r.random() < .2: f.name = ""; f.bits = r.choice([0, f.bits]) if ty[0] != "bool" else f.bits
                f.attrs = self.attrs("unused", p=.05) if f.name else []
                f.props = {"bitfield"}; d.members.append(f); body.append(([f], None))
            return
        if self.huge and depth == 0 and r.random() < .02 and not getattr(d, "huge", False): # bigger than 32 bits can count; such records are used nowhere
            b = r.choice([(1 << 16) + 1, 70000, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + r.randrange(1, 99), 1 << 40, (1 << 50) + 3]); f = Decl("field", self.name("f"))
            f.type = ("arr", b, self.scalar() if b < 1 << 45 else ("int", "char", 1, 8), False)
            if b < 1 << 33 and r.random() < .6: f.type = ("arr", r.choice([2, 3, 70001]), f.type, False)
            d.huge = True; d.members.append(f); body.append(([f], None)); return
        fs = []
        for _ in range(r.choice([1, 1, 1, 2])):
            f = Decl("field", self.name("f")); f.attrs = self.attrs("unused", "deprecated", *(["packed", "aligned"] if self.packed else []), p=.08)
            f.type = self.complete(0) if r.random() > .1 or not d.name else ("ptr", ("rec", d))
            if self.has_flex(f.type): f.type = self.scalar()
            if fs: # declarators of one declaration share the base type
                if self.strip(fs[0].type)[0] in ("ptr", "arr", "fptr", "q") or fs[0].type[0] in ("q", "td"): break
                f.type = self.wrap(fs[0].type)
            fs.append(f); self.flush(f, d.members)
        d.members += fs; body.append((fs, None))

    def bitfield_type(self):
        r = self.r; k = r.randrange(10)
        if k == 0: return ("bool",), 1
        if k == 1 and self.enums:
            e = r.choice(self.enums)
            if e.qty == 32: return ("enum", e), 32
        if k == 2:
            c = [t for t in self.typedefs if self.strip(t.type)[0] == "int" and self.strip(t.type)[3] <= 64 and t.type[0] in ("int", "td")]
            if c: t = r.choice(c); return ("td", t), self.strip(t.type)[3]
        s, sg, w = r.choice([i for i in INTS if i[2] <= 64]); return ("int", s, sg, w), w

    def wrap(self, t):
        r = self.r; k = r.randrange(6)
        if k == 0: return ("ptr", t)
        if k == 1: return ("arr", r.choice([1, 2, 5]), t, False)
        if k == 2: return ("arr", r.choice([2, 3]), ("arr", r.choice([1, 4]), t, False), False)
        if k == 3: return ("ptr", ("ptr", t))
        return t

    def function(self):
        p, self.pend = self.pend, None # tags first mentioned in a prototype are gone after it
        try: return self.function1()
        finally: self.pend = p

    def function1(self):
        r = self.r; d = Decl("function", self.name("fn")); static, inline = r.random() < .3, r.random() < .2; noret = r.random() < .06; body = self.bodies and (r.random() < .4 or (inline and not static and False))
        d.ret = r.choice([("void",), self.scalar(), self.pointer(0)] + ([("rec", r.choice(self.records))] if self.records else [])); d.ret = self.scalar() if self.has_flex(d.ret) and d.ret[0] == "rec" else d.ret
        n = r.choice([0, 1, 2, 3, 6, 12 if r.random() < .2 else 2])
        for i in range(n):
            p = Decl("param", self.name("p") if body or r.random() < .8 else ""); t = self.param_type()
            if t[0] == "arr" and t[1] == "*" and body: t = ("arr", None, t[2], False)
            if self.has_flex(t) and self.strip(t)[0] == "rec": t = self.scalar()
            if t[0] == "arr" and i and d.members[-1].name and self.strip(d.members[-1].type) == ("int", "int", 1, 32) and r.random() < .7: t = ("arr", d.members[-1].name, t[2], False)
            p.type = t; p.attrs = self.attrs("unused", p=.08) if p.name else []; d.members.append(p)
        allowed = ["deprecated", "unused", "cold", "noinline", "pure"] + ([] if d.ret == ("void",) else ["warn_unused_result"]) + (["used"] if body else []) + (["always_inline"] if inline else [])
        d.attrs = self.attrs(*allowed, p=.25)
        if any(a[0] == "always_inline" for a in d.attrs): d.attrs = [a for a in d.attrs if a[0] != "noinline"]
        if not body and not inline and not static and self.attrs_on and not self.probe_mode and r.random() < .06: d.attrs = [x for x in d.attrs if x[0] not in ("deprecated", "unused")] + [("alias", r.choice(["target", "t$", "a name", "long" * 40]), True)]
        d.body = body; d.variadic = n > 0 and r.random() < .1; d.noret = noret
        d.spell = ("static " if static else r.choice(["", "", "extern "]) if not inline else "") + ("inline " if inline else "") + ("_Noreturn " if noret else "")
        d.props = {"static"} if static else {"global", "extern_c"}
        if inline: d.props.add("inline")
        if noret: d.props.add("noreturn")
        return d

    def variable(self):
        r = self.r; d = Decl("field", self.name("v")); k = r.randrange(5); d.var = True
        if self.others and k in (2, 3) and r.random() < .15: # the type is that of the initialiser
            d.type, d.init = r.choice([(("int", "int", 1, 32), "5"), (("float", "double", 64), "2.5"), (("int", "unsigned long", 0, 64), "7ul"), (("ptr", ("ptr", ("void",))), "(void **)0"), (("int", "unsigned char", 0, 8), "(unsigned char)3")])
            d.spell = ("static " if k == 2 else "") + "__auto_type "; d.props = {"static"} if k == 2 else {"static", "extern_c"}; return d
        if k > 1 and r.random() < .12:  # the bound is that of the initialiser
            n = r.choice([1, 2, 3, 17, 300]); e = r.choice([("int", "int", 1, 32), ("float", "double", 64), ("int", "char", 1, 8), ("ptr", ("void",)), ("q", frozenset(["const"]), ("int", "unsigned short", 0, 16)), ("arr", r.randrange(1, 5), ("int", "char", 1, 8), False)])
            d.spell = ["static ", "", "_Thread_local "][k - 2]; d.props = {"static"} if k == 2 else {"extern_c"} if k == 4 else {"static", "extern_c"}
            d.type, d.written = ("arr", n, e, False), ("arr", None, e, False)
            d.filled = '"%s"' % ("x" * (n - 1)) if e[1] == "char" and r.random() < .7 else "{ [%d] = %s }" % (n - 1, '"a"' if e[0] == "arr" else "0") if r.random() < .5 else "{ %s }" % ", ".join([{"arr": "{ 1 }", "ptr": "(void *)0"}.get(e[0], "3")] * n)
            d.attrs = self.attrs("unused", "deprecated", "used", p=.12); return d
        d.type = self.complete(0)
        if self.has_flex(d.type): d.type = self.scalar()
        if r.random() < .1 and k < 2: d.type = ("arr", None, self.element(2), False); k = 0
        d.spell = ["extern ", "extern ", "static ", "", "_Thread_local "][k]
        d.props = {"static"} if k == 2 else {"extern_c"} if k == 4 else {"static", "extern_c"}
        d.attrs = self.attrs("unused", "deprecated", *(["used"] if k not in (0, 1) else []), *(["aligned"] if self.packed else []), p=.12)
        return d

    def typedef(self):
        r = self.r; d = Decl("typedef", self.name("T")); k = r.randrange(8); d.inline = None
        if k == 0 and self.fwds: d.type = ("rec", r.choice(self.fwds))
        elif k == 1 and self.typedefs: d.type = ("td", r.choice(self.typedefs))
        elif k == 2: d.type = ("void",)
        else: d.type = self.complete(0)
        if self.has_flex(d.type) and self.strip(d.type)[0] == "arr": d.type = self.scalar()
        d.attrs = self.attrs("deprecated", "unused", *(["aligned"] if self.packed and self.is_complete(d.type) and self.strip(d.type)[0] != "arr" else []), p=.1)
        if any(a[0] == "aligned" for a in d.attrs): d.noarray = True
        return d

    # ---- units: a list of items ("text", ...) that render() turns into C, and self.top the declarations they make, in order ----
    def unit(self, n):
        r = self.r; items = []
        for _ in range(n):
            k = r.randrange(20)
            if k < 6:
                d = self.record()
                pend = [f for f in self.fwds if f.defn is None and f.kind == d.kind and not self.refers(f, d)]
                if pend and d.name and r.random() < .6: f = r.choice(pend); d.name = f.name; f.defn = d; self.fwds.remove(f)
                huge = getattr(d, "huge", False); m = 1 if huge else r.random()
                if m < .15: # with a typedef of it
                    t = Decl("typedef", self.name("T")); t.type = self.wrap(("rec", d)) if not d.flex else ("rec", d); t.inline = d
                    if r.random() < .5 and not any(x is d for f in self.fwds for x in [f.defn]) and not self.refers(d) and not any(f.defn is d for f in self.allf()): d.name = ""; d.ptag = self.name("PT")
                    self.top.append(d); self.flush(d); self.top.append(t); items.append(("typedef", t))
                    if self.is_complete(t.type): self.typedefs.append(t)
                elif m < .25 and not d.flex: # with variables
                    v = Decl("field", self.name("v")); v.var = True; v.spell = r.choice(["", "static "]); v.props = {"static"} | (set() if v.spell else {"extern_c"}); v.type = self.wrap(("rec", d)); v.inline = d
                    self.top.append(d); self.flush(d); self.top.append(v); items.append(("var", v))
                else: self.top.append(d); self.flush(d); items.append(("rec", d))
                if d.name and not huge: self.records.append(d)
            elif k < 8 and self.fwd_enums and r.random() < .15:
                d = Decl("enum", self.name("E")); d.fwd = True; d.qty = 0; self.fenums.append(d); self.top.append(d); items.append(("fwd", d))
                if r.random() < .7: v = Decl("field", self.name("v")); v.var = True; v.spell = "extern "; v.props = {"static", "extern_c"}; v.type = ("ptr", ("enum", d)); self.top.append(v); items.append(("var", v))
            elif k < 8:
                d = self.enum()
                if self.fenums and d.name and r.random() < .6: f = self.fenums.pop(r.randrange(len(self.fenums))); d.name = f.name; f.defn = d
                self.top.append(d); items.append(("enum", d)); d.name and self.enums.append(d)
            elif k < 10:
                d = Decl(r.choice(["struct", "union"]), self.name("S")); d.fwd = True; self.fwds.append(d); self.top.append(d); items.append(("fwd", d)); self.__dict__.setdefault("_allf", []).append(d)
            elif k < 13:
                d = self.typedef(); self.flush(d); self.top.append(d); items.append(("typedef", d))
                if not any(a[0] == "aligned" for a in d.attrs): self.typedefs.append(d)
            elif k < 17:
                d = self.function(); self.top.append(d); items.append(("fn", d))
            else:
                d = self.variable(); self.flush(d); self.top.append(d); items.append(("var", d))
            if r.random() < .05: self.again(items)
            if r.random() < .06 and not self.probe_mode: items.append(("raw", r.choice([";", "_Static_assert(1, \"x\");", "#pragma pack(push)\n#pragma pack(pop)", "#define M_%d 1" % self.n, "/* comment { */", "#line %d \"other.c\"" % r.randrange(1, 1000)])))
        return items

    def big(self, k, n):
        """a unit with a list of more than n declarations in one place, and ordinary declarations around it"""
        r = self.r; items = self.unit(4)
        if k == 0: d = self.enum(count=n); self.top.append(d); items.append(("enum", d)); d.name and self.enums.append(d)
        elif k == 1: d = self.record(count=n); self.top.append(d); self.flush(d); items.append(("rec", d)); d.name and self.records.append(d)
        elif k == 2: # as many types of their own
            t0 = self.scalar()
            for i in range(n):
                d = Decl("typedef", self.name("T")); d.type = ("arr", i + 1, t0, False); d.inline = None; self.top.append(d); items.append(("typedef", d))
        else:
            recs = []
            while n > 0:
                j = r.randrange(5)
                if j == 0: d = Decl("typedef", self.name("T")); d.type = self.scalar(); d.inline = None; items.append(("typedef", d)); n -= 1
                elif j == 1: d = self.enum(); items.append(("enum", d)); n -= 1 + len(d.members)
                elif j == 2: d = self.variable(); self.flush(d); items.append(("var", d)); n -= 1
                elif j == 3:
                    d = Decl(r.choice(["struct", "union"]), self.name("S")); d.body = []; self.all_records.append(d)
                    for _ in range(r.randrange(1, 9)): f = Decl("field", self.name("f")); f.type = self.scalar() if r.random() < .8 or not recs else ("rec", r.choice(recs)); d.members.append(f); d.body.append(([f], None)); n -= 1
                    items.append(("rec", d)); recs.append(d); n -= 1
                else: d = self.function(); items.append(("fn", d)); n -= 2 + len(d.members)
                self.top.append(d)
            self.records += recs
        return items + self.unit(8)

    def flush(self, d, into=None):
        """tags declared by being mentioned in d come where the declaration that mentions them goes to"""
        into = self.top if into is None else into
        p = [f for f in self.pend if self.refers(f, d)]
        into += p; self.fwds += p; self.pend = []

    def again(self, items):
        """declares something once more"""
        r = self.r; k = r.randrange(4); import copy
        if k == 0:
            c = [d for d in self.top if d.kind in ("struct", "union") and d.name and not d.attrs and not self.meant(d).attrs]
            if c: o = r.choice(c); d = Decl(o.kind, o.name); d.fwd = True; d.again = o; self.top.append(d); items.append(("fwd", d))
        elif k == 1:
            c = [d for d in self.top if d.kind == "function" and not d.attrs and not d.noret and "inline" not in d.props and not any(p.attrs for p in d.members) and not any(self.inarr(p.type) for p in d.members)]
            if c: d = copy.copy(r.choice(c)); d.body = False; d.spell = "static " if "static" in d.props else ""; self.top.append(d); items.append(("fn", d))
        elif k == 2:
            c = [d for d in self.top if d.kind == "field" and d.spell == "extern " and not d.attrs and getattr(d, "inline", None) is None]
            if c: d = copy.copy(r.choice(c)); d.spell = "extern "; self.top.append(d); items.append(("var", d))
        else:
            c = [d for d in self.top if d.kind == "typedef" and not d.attrs and d.inline is None and not self.vla(d.type)]
            if c: d = copy.copy(r.choice(c)); self.top.append(d); items.append(("typedef", d))

    def meant(self, d):
        """the definition of a record, if there is one by now"""
        while getattr(d, "again", None): d = d.again
        return d.defn or d

    def inarr(self, t): return t[0] == "arr" and not isinstance(t[1], int)
    def vla(self, t): return False

    def allf(self): return self.__dict__.get("_allf", [])

    def refers(self, d, top=None):
        """does top, or d itself, mention d's tag?"""
        def in_t(t):
            if t[0] in ("rec",): return t[1] is d
            if t[0] == "ptr": return in_t(t[1])
            if t[0] in ("arr", "q"): return in_t(t[2])
            if t[0] == "fptr": return in_t(t[1]) or any(in_t(x) for x in t[2])
            return False
        def in_d(x): return (x.type is not None and in_t(x.type)) or any(in_d(m) for m in x.members if m is not x)
        return in_d(top or d)

    def rec_text(self, d, ind, probe):
        r = random.Random(len(d.members)); tag = d.name or (d.ptag if probe else ""); a = attr_text(d.attrs, r)
        if d.kind == "enum":
            cs = ["%s%s%s%s" % ("  " * (ind + 1), c.name, " " + attr_text(c.attrs, r) if c.attrs else "", " = " + c.expr if c.expr else "") for c in d.members]
            return "enum %s%s {\n%s\n%s}" % (a + " " if a else "", tag, ",\n".join(cs), "  " * ind)
        s = "%s %s%s {\n" % (d.kind, a + " " if a else "", tag); pad = "  " * (ind + 1)
        for fs, inl in d.body:
            text = self.rec_text(inl, ind + 1, probe) if inl is not None else None
            if not fs: s += pad + text + ";\n"; continue
            if getattr(fs[0], "anon", False): s += pad + text + ";\n"; continue
            parts = []
            for i, f in enumerate(fs):
                dd = f.name + (" : %d" % f.bits if hasattr(f, "bits") else "")
                full = self.declare(f.type, dd, probe, (inl, "\0") if inl is not None else None)
                if i == 0: parts.append((full.replace("\0", text) if text else full) + (" " + attr_text(f.attrs) if f.attrs else ""))
                else:
                    b = "\0 " if inl is not None else self.base(fs[0].type, probe) + " "
                    assert full.startswith(b), (full, b)
                    parts.append(full[len(b):] + (" " + attr_text(f.attrs) if f.attrs else ""))
            s += pad + ", ".join(parts) + ";\n"
        return s + "  " * ind + "}"

    LOCAL = ["struct local%d { int a; } l%d; (void)l%d;", "enum { LOCAL%d = 3 } e%d; (void)e%d;", "static int s%d; for (int i%d = 0; i%d < 3; i%d++) s%d += i%d;", "typedef unsigned lt%d; lt%d x%d = 1; (void)x%d;",
             "int y%d = ({ struct inner%d { char c; } z%d = { 1 }; z%d.c; }); (void)y%d;", "extern int ext%d; (void)sizeof(ext%d);", "int fproto%d(struct paramscope%d *);", "goto lab%d; lab%d: ;", "(void)((struct lit%d { int q; }){ 1 }).q;", "(void)sizeof(struct szs%d { int q; });",
             "int __attribute__((annotate(\"local\"))) an%d = 2; (void)an%d;", "{ union deep%d { int a; float f; } d%d; { struct deeper%d { int a; } e%d; (void)e%d; } (void)d%d; }"]

    def render(self, items, probe=False):
        out = []
        for it in items:
            k, d = it[0], it[1]
            if k == "raw": out.append(d); continue
            a = " " + attr_text(d.attrs) if d.attrs else ""
            if k in ("rec", "enum"): out.append(self.rec_text(d, 0, probe) + ";")
            elif k == "fwd": out.append("%s %s;" % (d.kind, d.name))
            elif k == "typedef":
                inl = getattr(d, "inline", None); t = self.declare(d.type, d.name, probe, (inl, self.rec_text(inl, 0, probe)) if inl is not None else None); out.append("typedef %s%s;" % (t, a))
            elif k == "var":
                if hasattr(d, "init"): out.append("%s%s = %s;" % (d.spell, d.name, d.init)); continue
                if hasattr(d, "filled"): out.append("%s%s%s = %s;" % (d.spell, self.declare(d.written, d.name, probe), a, d.filled)); continue
                inl = getattr(d, "inline", None); t = self.declare(d.type, d.name, probe, (inl, self.rec_text(inl, 0, probe)) if inl is not None else None); out.append("%s%s%s;" % (d.spell, t, a))
            elif k == "fn":
                r = random.Random(len(out)); ps = ", ".join(self.declare(p.type, p.name, probe) + (" " + attr_text(p.attrs) if p.attrs else "") for p in d.members) or "void"
                if d.variadic: ps += ", ..."
                sig = self.declare(d.ret, "%s(%s)" % (d.name, ps), probe) if d.ret[0] not in ("ptr", "q", "fptr") else self.declare(d.ret, "%s(%s)" % (d.name, ps), probe)
                if not d.body: out.append("%s%s%s;" % (d.spell, sig, a))
                else:
                    body = "".join("  " + x.replace("%d", str(self.n + len(out) * 50 + i)) + "\n" for i, x in enumerate(r.sample(self.LOCAL, r.randrange(5))))
                    body += "  for (;;) ;\n"
                    out.append("%s %s%s {\n%s}" % (attr_text(d.attrs), d.spell, sig, body))
        return "\n".join(out) + "\n"


# ---- what the types mean ----
def qualify(q, m):
    if m[0] == "q": return ("q", m[1] | q, m[2])
    if m[0] == "arr": return ("arr", m[1], qualify(q, m[2]), m[3])
    return ("q", q, m)


def meaning(t):
    k = t[0]
    if k == "td": return meaning(t[1].type)
    if k in ("vec", "atomic", "fn"): return ("other",)
    if k == "q":
        return qualify(t[1], meaning(t[2]))
    if k == "ptr": return ("ptr", meaning(t[1]))
    if k == "fptr": return ("ptr", ("void",))
    if k == "arr": return ("arr", t[1], meaning(t[2]), t[3])
    if k == "int": return ("int", t[2], t[3])
    if k == "float": return ("float", t[2])
    if k == "cfloat": return ("cfloat", t[2])
    return t
