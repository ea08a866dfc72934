"""Model-first generator of CommsDSL protocols: builds the expected object model and, next to it, the schema text."""
import math
from .etree import E, UNITS, norm_ws

NYD = 4294967295
MAXU = (1 << 64) - 1
INTS = {"int8": (1, True), "uint8": (1, False), "int16": (2, True), "uint16": (2, False), "int32": (4, True), "uint32": (4, False),
        "int64": (8, True), "uint64": (8, False), "intvar": (10, True), "uintvar": (10, False)}
OVR = ["any", "replace", "extend", "none"]
OVRF = ["valueOverride", "readOverride", "writeOverride", "refreshOverride", "lengthOverride", "validOverride", "nameOverride"]
OVRM = ["readOverride", "writeOverride", "refreshOverride", "lengthOverride", "validOverride", "nameOverride"]


class F:
    """A field (or other object) of the expected model; keys as in the dump, extra ones start with '_'."""
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return "F(%s %s)" % (self.__dict__.get("kind"), self.__dict__.get("name"))


class Raw(str):
    """bytes of a data value"""


class C:
    """A condition."""
    def __init__(self, kind, l="", op="", r="", conds=()):
        self.kind, self.l, self.op, self.r, self.conds = kind, l, op, r, list(conds)

    def text(self):
        if self.op == "!":
            return "!" + self.r
        if not self.op:
            return self.r
        return "%s %s %s" % (self.l, self.op, self.r)

    def elem(self, tag="cond"):
        if self.kind == "expr":
            return None
        e = E(self.kind)
        for c in self.conds:
            if c.kind == "expr":
                e.kids.append(E(tag).p("value", c.text()))
            else:
                e.kids.append(c.elem(tag))
        return e

    def walk(self):
        yield self
        for c in self.conds:
            yield from c.walk()


def clone(x, root=True):
    if isinstance(x, F):
        if x.__dict__.get("ext") is not None and not root:
            return x
        n = F()
        for k, v in x.__dict__.items():
            n.__dict__[k] = clone(v, False)
        if root:
            n.ext = None
        return n
    if isinstance(x, list):
        return [clone(v, False) for v in x]
    if isinstance(x, tuple):
        return tuple(clone(v, False) for v in x)
    if isinstance(x, dict):
        return {k: clone(v, False) for k, v in x.items()}
    return x


def tlen(t):
    return INTS[t][0]


def signed(t):
    return INTS[t][1]


def is_var(t):
    return t.endswith("var")


def trange(t):
    if t == "intvar":
        return -(1 << 63), (1 << 63) - 1
    if t == "uintvar":
        return 0, MAXU
    n, s = INTS[t]
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)


def brange(t, bits):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed(t) else (0, (1 << bits) - 1)


def wbits(f):
    """Number of value bits on the wire"""
    if f._bits:
        return f._bits
    if is_var(f.type):
        return min(f.len * 7, 64)
    return f.len * 8


def int_range(f):
    """Range of the values which can be serialized."""
    lo, hi = brange(f.type, wbits(f))
    tlo, thi = trange(f.type)
    off = getattr(f, "off", 0)
    return max(lo - off, tlo), min(hi - off, thi)


# ------------------------------------------------------------------------------------------ lengths (C02)
def sat(v):
    return min(v, MAXU)


def min_len(f):
    k = f.kind
    if k in ("int", "enum"):
        return 1 if is_var(f.type) else f.len
    if k == "set":
        return f.len
    if k == "float":
        return 4 if f.type == "float" else 8
    if k == "bitfield":
        return sum(bit_len(m) for m in f.members) // 8
    if k == "bundle":
        return sum(min_len(m) for m in f.members)
    if k in ("string", "data"):
        if f.len:
            return f.len
        if k == "string" and f.zterm:
            return 1
        return min_len(f.prefix) if f.prefix else 0
    if k == "list":
        if f.count:
            r = f.count * min_len(f.elem)
            if f.elprefix:
                r += min_len(f.elprefix) * (1 if f.elemFixed else f.count)
            return r
        for p in (f.cprefix, f.lprefix):
            if p:
                return min_len(p)
        return min_len(f.tsuffix) if f.tsuffix else 0
    if k == "ref":
        return min_len(f.field)
    return 0     # optional, variant


def max_len(f):
    k = f.kind
    if k in ("int", "enum", "set"):
        return f.len
    if k in ("float", "bitfield"):
        return min_len(f)
    if k == "bundle":
        if any(m.sem == "length" for m in f.members):
            return MAXU
        return sat(sum(max_len(m) for m in f.members))
    if k in ("string", "data"):
        if f.len:
            return f.len
        if f.prefix and f.prefix.kind == "int":
            return sat(max_len(f.prefix) + int_max_code(f.prefix))
        return MAXU
    if k == "list":
        elp = max_len(f.elprefix) if f.elprefix else 0
        if f.count:
            if f.delprefix:
                pass
            return sat(f.count * max_len(f.elem) + elp * (1 if f.elemFixed else f.count))
        if f.cprefix and f.cprefix.kind == "int":
            n = int_max_code(f.cprefix)
            return sat(n * max_len(f.elem) + max_len(f.cprefix) + elp * (1 if f.elemFixed else n))
        if f.lprefix and f.lprefix.kind == "int":
            return sat(max_len(f.lprefix) + int_max_code(f.lprefix))
        return MAXU
    if k in ("ref", "optional"):
        return max_len(f.field)
    return max([max_len(m) for m in f.members])


def int_max_code(f):
    lo, hi = brange(f.type, wbits(f))
    return max(0, hi - f.off)


def bit_len(f):
    """Bits of a bitfield member"""
    if f._bits:
        return f._bits
    return min_len(f) * 8


def has_kind(f, kind):
    if f.kind == kind:
        return True
    subs = [getattr(f, "field", None), getattr(f, "elem", None)] if f.kind in ("ref", "optional", "list") else f.members if f.kind in ("bundle", "variant", "bitfield") else []
    return any(has_kind(x, kind) for x in subs if x is not None)


def msg_len(m):
    lo = sum(min_len(f) for f in m.fields if f.since <= m.since)
    hi = sum(max_len(f) for f in m.fields)
    return sat(lo), sat(hi)


# ------------------------------------------------------------------------------------------ options
class Opt:
    def __init__(self, **k):
        self.wire = False          # only protocols whose generated code is executed
        self.refs = True           # values through references
        self.reuse = True
        self.reuse_p, self.msgreuse_p, self.copy_p = 18, 12, 20
        self.versions = True
        self.versionp = 60         # chance of a schema with several versions
        self.minv = 0              # least version of a schema with several
        self.sincep = 35           # chance of an element added later
        self.vcv = 10              # validCheckVersion
        self.subver = 25           # version of values
        self.verfield = False      # interface fields with the version
        self.multi = False         # several schemas
        self.wild = True
        self.extras = True
        self.texts = True
        self.codes = True          # copyCodeFrom / overrides
        self.nfields = (2, 9)
        self.nmsgs = (0, 6)
        self.depth = 3
        self.display = True
        self.interfaces = True
        self.frames = True
        self.kinds = None
        self.compile = False
        self.samenames = False     # equal names in different scopes
        self.nns = None            # number of namespaces
        self.idmax = 200           # of the messages, executable protocols
        self.nonuniqp = 12         # chance of permission of equal message ids
        self.sameids = 0           # chance of an id of another message, when permitted
        self.bitrefs = 1           # weight of references among members of bitfields
        self.platp = 35            # chance of platforms
        self.msgidenums = None     # number of enums with message ids, executable protocols
        self.valuep = 60           # chance of values of the interface in a frame
        self.csump = 60            # of a checksum
        self.framens = False       # frames in several namespaces, executable protocols
        self.__dict__.update(k)


WORDS = ["Alpha", "beta", "Gamma", "delta_x", "Eps", "zeta2", "Some Text", "x", "Value", "the_field", "A", "status"]
TEXTS = ["Some description.", "a < b && c > d", "quote \" and 'apos'", "100% of #1 {x} \\y ~ ^2 _z $q", "ünïcode ✓", "multi word text here",
         "--", "a, b; c", "0", "true", "&amp;", "tail."]


class Scope:
    def __init__(self, kind, since=0, depr=NYD, sibs=None, tail=True, iface=None):
        self.kind, self.since, self.depr, self.sibs, self.tail = kind, since, depr, sibs, tail

    def conds_ok(self):
        return self.kind in ("bundle", "message")


def refdepth(f):
    """length of a chain of references, and the field at its end"""
    n = 0
    while f.kind == "ref":
        f, n = f.field, n + 1
    return n, f


class Builder:
    def __init__(self, r, opt):
        self.r, self.o = r, opt
        self.n = 0
        self.reg = []           # (path, cls, value, allowed) value references : cls in num fp bool str data
        self.fields = {}        # path -> F of namespace level fields, in order
        self.msgs, self.ifaces, self.frames = {}, {}, {}
        self.decls = []         # (ns path tuple, section, E, path)
        self.used = set()
        self.ids = set()
        self.schema_name = None

    # ------------------------------------------------------------------ small things
    def name(self, pre):
        self.n += 1
        st = self.r.below(6)
        base = "%s%d" % (pre, self.n)
        if st == 4:
            base = "%s_%d" % (pre.capitalize(), self.n)
        elif st == 5:
            base = "%sX%d" % (pre.capitalize(), self.n)
        return base

    def text(self):
        r = self.r
        if r.chance(70):
            return r.pick(TEXTS)
        return norm_ws("".join(chr(32 + r.below(95)) for _ in range(r.rng(1, 12)))).lstrip("^\\ ") or "t"

    def flag(self, f, e, attr, prop, num=12, kind="bool"):
        if self.r.chance(num):
            v = self.r.chance(70)
            f.__dict__[attr] = v
            e.p(prop, "true" if v else "false", "bool")
            self.used.add(prop)

    def regval(self, path, cls, val):
        self.reg.append((path, cls, val))

    def numval(self, lo, hi, own=None, num=25):
        """-> (value, text, kind): a number of the range, possibly through a reference"""
        r = self.r
        if self.o.refs and r.chance(num):
            cand = [(p, v) for p, c, v in self.reg if c == "num" and lo <= v <= hi]
            if cand:
                p, v = r.pick(cand[-12:])
                self.used.add("numref")
                return v, p, "raw"
        if own and r.chance(30):
            n, v = r.pick(own)
            if lo <= v <= hi:
                self.used.add("ownspecial")
                return v, n, "raw"
        v = r.num(lo, hi)
        return v, str(v), "num"

    def versions(self, f, e, S, must_same, is_msg=False):
        """since / deprecated of a member"""
        r = self.r
        f.since, f.depr, f.removed = S.since, S.depr, False
        if S.kind in ("ns", "anon", "interface", "bitfield") and not is_msg:
            f.since, f.depr = (S.since, S.depr) if S.kind in ("anon", "bitfield") else (0, NYD)
            return
        if not self.o.versions or self.V == 0:
            return
        top = min(self.V, S.depr - 1)
        if not must_same and r.chance(self.o.sincep) and top >= S.since:
            f.since = r.rng(S.since, top)
            if f.since != S.since or r.chance(50):
                e.p("sinceVersion", str(f.since), "num")
                self.used.add("since")
        top = min(self.V, S.depr)
        if r.chance(20) and f.since + 1 <= top:
            f.depr = r.rng(f.since + 1, top)
            e.p("deprecated", str(f.depr), "num")
            self.used.add("deprecated")
            if r.chance(50) and not (must_same and self.o.wire):
                f.removed = True
                e.p("removed", "true", "bool")
                self.used.add("removed")

    def sub_versions(self, f, e):
        """versions of special / enum value / bit / range of field f"""
        r = self.r
        since, depr = f.since, f.depr
        if self.o.versions and self.V and r.chance(self.o.subver):
            top = min(self.V, f.depr - 1)
            if top > since:
                since = r.rng(since, top)
                e.p("sinceVersion", str(since), "num")
            top = min(self.V, f.depr)
            if r.chance(40) and since + 1 <= top:
                depr = r.rng(since + 1, top)
                e.p("deprecated", str(depr), "num")
            self.used.add("valueversion")
        return since, depr

    def sub_texts(self, e):
        r = self.r
        desc = disp = ""
        if self.o.texts and r.chance(25):
            desc = self.text()
            e.p("description", desc, "text")
        if self.o.texts and r.chance(25):
            disp = self.text()
            e.p("displayName", disp, "text")
        return desc, disp

    # ------------------------------------------------------------------ fields
    LEAF = [(8, "int"), (4, "enum"), (4, "set"), (2, "float"), (3, "string"), (2, "data"), (3, "bitfield")]
    COMP = [(4, "bundle"), (4, "list"), (3, "ref"), (3, "optional"), (2, "variant")]

    def kind(self, S, d):
        k = self.LEAF if d <= 0 else self.LEAF + self.COMP
        if self.o.kinds:
            k = [x for x in k if x[1] in self.o.kinds]
        return self.r.weighted(k)

    def field(self, S, d, kind=None, name=None, base=None, sem=None, **kw):
        """Creates a field; returns (F, E)"""
        r = self.r
        kind = kind or self.kind(S, d)
        if kind == "ref" and not self.fields:
            kind = "int"
        if base is None and self.o.reuse and r.chance(self.o.reuse_p) and not kw and sem is None:
            cand = [p for p, x in self.fields.items() if x.kind == kind and self.reuse_ok(x, S)]
            if cand:
                base = r.pick(cand[-6:])
        e = E(kind)
        if base is not None:
            b = self.fields[base]
            f = clone(b)
            self.used.add("reuse-" + kind)
            e.p("reuse", base)
            f.copyCode = ""
            if self.o.codes and r.chance(20):
                f.copyCode = base
                e.p("reuseCode", "true", "bool")
            f.ovr = [0] * 7
        else:
            f = F(kind=kind, displayName="", description="", sem="none", pseudo=False, fixed=False, custom=False, failInv=False,
                  forceGen=False, ovr=[0] * 7, copyCode="", xattrs={}, ext=None, _bits=0)
        f.ext = None
        f._base = base
        f._e = e
        f.name = name or self.pool([x.name for x in S.sibs]) if self.o.samenames and S.sibs is not None and S.kind != "interface" else name or self.name("f")
        e.p("name", f.name, "raw")
        f._must_same = kw.get("must_same", True)
        self.versions(f, e, S, kw.get("must_same", True))
        if self.o.texts:
            if r.chance(25):
                f.displayName = self.text()
                e.p("displayName", f.displayName, "text")
            if r.chance(25):
                if self.o.refs and r.chance(20) and any(c == "str" and norm_ws(v) == v and v for _, c, v in self.reg):
                    p, v = r.pick([(p, v) for p, c, v in self.reg if c == "str" and norm_ws(v) == v and v])
                    f.description = v
                    e.p("description", "^" + p, "raw")
                    self.used.add("strref")
                else:
                    f.description = self.text()
                    e.p("description", f.description, "text")
        if self.o.extras and r.chance(6):
            self.n += 1
            k, v = "xt_%s%d" % (r.pick("abc"), self.n), self.text()
            f.xattrs[k] = v
            e.p(k, v, "extra")
        if not self.o.wire:
            self.flag(f, e, "pseudo", "pseudo", 4)
            self.flag(f, e, "fixed", "fixedValue", 4)
        self.flag(f, e, "custom", "customizable", 6)
        self.flag(f, e, "failInv", "failOnInvalid", 8)
        self.flag(f, e, "forceGen", "forceGen", 5)
        if self.o.codes and not self.o.compile:
            for i, pn in enumerate(OVRF):
                if r.chance(3):
                    f.ovr[i] = r.below(4)
                    e.p(pn, OVR[f.ovr[i]], "kw")
                    self.used.add("override")
            if self.o.codes and r.chance(3) and self.fields:
                p = r.pick(list(self.fields))
                f.copyCode = p
                e.drop("reuseCode")
                e.p("copyCodeFrom", p)
        getattr(self, "k_" + kind)(f, e, S, d, base is not None, sem, kw)
        if sem:
            f.sem = sem
            e.setp("semanticType", {"messageid": "messageId"}.get(sem, sem), "kw")
        if r.chance(6) or getattr(f, "vml", False):
            f.vml = True
            e.p("validateMinLength", str(min_len(f)), "num")
            self.used.add("validateMinLength")
        return f, e

    def reuse_ok(self, b, S):
        if S.kind == "bitfield" and b._bits == 0 and b.kind != "bitfield":
            return False
        if b.sem != "none":
            return False
        if self.has_detached(b):
            return False
        if self.o.wire and not S.tail and self.greedy(b):
            return False
        # the elements of the reused subtree must fit into the versions of the new parent
        def fits(x):
            if x.kind in ("bundle", "variant", "bitfield"):
                return all(fits(m) for m in x.members if not m.ext)
            return True
        # every nested member known only from later than the deprecation of the parent would be inconsistent
        if S.since or S.depr != NYD:
            if b.kind in ("bundle", "variant") and any(m.since > 0 or m.depr != NYD for m in b.members):
                return False
        return fits(b)

    def has_detached(self, f):
        return False

    def greedy(self, f):
        """consumes all the available input"""
        k = f.kind
        if k in ("string", "data"):
            return not (f.len or f.prefix or f.dprefix or (k == "string" and f.zterm))
        if k == "list":
            return not (f.count or f.cprefix or f.lprefix or f.tsuffix or f.dcprefix or f.dlprefix or f.dtsuffix)
        if k in ("ref", "optional"):
            return self.greedy(f.field) or (k == "optional" and f.mode == 0 and not f.cond)
        if k in ("bundle", "variant"):
            return any(self.greedy(m) for m in f.members)
        return False

    # -- int
    def ranges(self, f, e, lo, hi, mk):
        r = self.r
        n = r.below(4) if r.chance(35) else 0
        attrs = set()
        for _ in range(n):
            m = r.weighted([(4, "validRange"), (4, "validValue"), (1, "validMin"), (1, "validMax")])
            if self.o.wire and f.off and m in ("validMin", "validMax"):
                m = "validRange"
            ver = E(m)
            a, ta, _ = self.numval(lo, hi)
            if m == "validRange":
                b, tb, _ = self.numval(a, hi)
                t = "[%s%s%s%s]" % (ta, r.pick([",", ", "]), tb, "")
                rng = (a, b)
            elif m == "validValue":
                t, rng = ta, (a, a)
            elif m == "validMin":
                t, rng = ta, (a, mk[1])
            else:
                t, rng = ta, (mk[0], a)
            self.used.add(m)
            since, depr = self.sub_versions(f, ver)
            if ver.props or m in attrs or r.chance(50):
                ver.props.insert(0, ["value", t, "raw"])
                e.kids.append(ver)
            else:
                attrs.add(m)
                e.p(m, t, "raw")
            f.valid.append((rng[0], rng[1], since, depr))

    def k_int(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        bits = kw.get("bits", 0)
        if not reuse:
            if kw.get("unsigned"):
                f.type = r.pick(["uint8", "uint16", "uint8", "uint32", "uintvar", "uint64"] if not self.o.wire else ["uint8", "uint16", "uint8", "uintvar"])
            elif bits:
                f.type = r.pick([t for t in INTS if not is_var(t) and tlen(t) * 8 >= bits])
            elif self.o.bitrefs > 1 and r.chance(40):
                f.type = r.pick(["int8", "int16", "int32"])
            else:
                f.type = r.pick(list(INTS))
            e.p("type", f.type, "kw")
            f.endian, f.off, f.scal, f.valid, f.specials, f.nonUniq = self.endian, 0, (1, 1), [], [], False
            f.units, f.vcv, f.dd, f.doff, f.sext, f.avail = 0, False, 0, 0, True, False
            f.len = tlen(f.type)
            if not bits and r.chance(20) and f.len > 1:
                f.len = r.rng(1, f.len)
                if is_var(f.type) and self.o.wire:
                    f.len = r.rng(2, 5)
                e.p("length", str(f.len), "num")
                self.used.add("length")
            f._bits = 0
            if bits:
                f._bits = bits
                if bits != f.len * 8 or r.chance(50):
                    e.p("bitLength", str(bits), "num")
            f.defv = 0
        elif bits and r.chance(0):
            pass
        if r.chance(25 if not reuse else 15):
            f.endian = r.below(2)
            e.p("endian", ["little", "big"][f.endian], "kw")
            self.used.add("endian")
        if r.chance(10):
            f.scal = (r.pick([1, 2, 3, 180, -5, 1000]), r.pick([1, 2, 10, 100, 7, 4294967296]))
            if f.scal[1] == 1 and r.chance(60):
                e.p("scaling", str(f.scal[0]), "raw")
            else:
                e.p("scaling", "%d/%d" % f.scal, "raw")
            self.used.add("scaling")
        if not reuse and r.chance(15) and not bits:
            lo, hi = trange(f.type)
            m = 1000 if tlen(f.type) > 2 else 60
            if signed(f.type):
                m = min(m, 60)
            f.off = r.rng(-m, m)
            if f.off < 0 and not signed(f.type) and brange(f.type, wbits(f))[1] - f.off > hi and self.o.wire:
                f.off = -f.off
            e.p("serOffset", str(f.off), "num")
            self.used.add("serOffset")
        lo, hi = int_range(f)
        if lo > hi:
            f.off = 0
            e.drop("serOffset")
            lo, hi = int_range(f)
        mk = int_minmax(f)
        if not reuse and not (lo <= 0 <= hi):
            f.defv = r.num(lo, hi)
            e.p("defaultValue", str(f.defv), "num")
        # specials
        if kw.get("unsigned") is None:
            if r.chance(30):
                self.flag(f, e, "nonUniq", "nonUniqueSpecialsAllowed", 20)
                vals = {s[5] for s in f.specials}
                names = {s[0] for s in f.specials}
                for _ in range(r.rng(1, 3)):
                    s = E("special")
                    nm = "S%d" % (len(names) + 1) if r.chance(60) else self.name("sv")
                    own = [(x[0], x[5]) for x in f.specials]
                    v, t, k = self.numval(lo, hi, own if f.nonUniq else None)
                    if nm in names or (v in vals and not f.nonUniq):
                        continue
                    s.p("name", nm)
                    s.p("val", t, k)
                    since, depr = self.sub_versions(f, s)
                    desc, disp = self.sub_texts(s)
                    f.specials.append((nm, since, depr, desc, disp, v))
                    names.add(nm)
                    vals.add(v)
                    e.kids.append(s)
                    self.used.add("special")
        own = [(x[0], x[5]) for x in f.specials]
        m = r.below(4) if not e.has("defaultValue") else 0
        if m == 1 or (m == 2 and own):
            f.defv, t, k = self.numval(lo, hi, own)
            e.p("defaultValue", t, k)
            self.used.add("default")
        elif m == 3 and r.chance(40):
            f.defv, t, k = self.numval(lo, hi, own)
            e.p("defaultValidValue", t, k)
            f.valid.append((f.defv, f.defv, f.since, f.depr))
            self.used.add("defaultValidValue")
        self.flag(f, e, "vcv", "validCheckVersion", self.o.vcv)
        if kw.get("unsigned") is None:
            self.ranges(f, e, lo, hi, mk)
        if self.o.display:
            if r.chance(12):
                u = r.below(len(UNITS))
                f.units = u + 1
                e.p("units", UNITS[u], "unit")
                self.used.add("units")
            if r.chance(8):
                f.dd = r.below(7)
                e.p("displayDecimals", str(f.dd), "num")
            if r.chance(8):
                f.doff = r.num(-1000, 1000)
                e.p("displayOffset", str(f.doff), "num")
        self.flag(f, e, "sext", "signExt", 65 if self.o.bitrefs > 1 and f.type[0] == "i" else 5)
        if not self.o.wire:
            self.flag(f, e, "avail", "availableLengthLimit", 4)

    # -- float
    def fpval(self, ty, own=None):
        r = self.r
        if self.o.refs and r.chance(20):
            cand = [(p, v) for p, c, v in self.reg if c == "fp" and (ty == "double" or fits32(v))]
            if cand:
                p, v = r.pick(cand[-8:])
                self.used.add("fpref")
                return v, p
        if own and r.chance(25):
            return tuple(reversed(r.pick(own)))
        m = r.below(8)
        if m == 0:
            t = r.pick(["nan", "inf", "-inf", "NaN", "Inf"])
            return float(t), t
        if m <= 3:
            v = r.num(-1000, 1000)
            return float(v), str(v) if m < 3 else "%d.0" % v
        if m <= 5:
            v = r.num(-10000, 10000) / 64.0
            return v, repr(v)
        t = "%d.%de%d" % (r.num(-9, 9), r.below(10), r.rng(-9, 9))
        return float(t), t

    def k_float(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        if not reuse:
            f.type = r.pick(["float", "double"])
            e.p("type", f.type, "kw")
            f.len = 4 if f.type == "float" else 8
            f.defv, f.valid, f.specials, f.nonUniq = 0.0, [], [], False
            f.units, f.vcv, f.dd = 0, False, 0
            f.endian = self.endian
        if r.chance(25):
            f.endian = r.below(2)
            e.p("endian", ["little", "big"][f.endian], "kw")
            self.used.add("endian")
        if r.chance(35):
            names = {s[0] for s in f.specials}
            for _ in range(r.rng(1, 3)):
                s = E("special")
                nm = self.name("fs")
                v, t = self.fpval(f.type)
                if any(same_fp(v, x[5]) for x in f.specials) or nm in names:
                    continue
                s.p("name", nm)
                s.p("val", t)
                since, depr = self.sub_versions(f, s)
                desc, disp = self.sub_texts(s)
                f.specials.append((nm, since, depr, desc, disp, v))
                names.add(nm)
                e.kids.append(s)
                self.used.add("fpspecial")
        own = [(x[0], x[5]) for x in f.specials]
        if r.chance(40):
            f.defv, t = self.fpval(f.type, own)
            e.p("defaultValue", t)
        self.flag(f, e, "vcv", "validCheckVersion", self.o.vcv)
        if r.chance(10):
            e.p("validFullRange", "true", "bool")
            m = 3.4028234663852886e38 if f.type == "float" else 1.7976931348623157e308
            f.valid.append((-m, m, f.since, f.depr))
            self.used.add("validFullRange")
        special = set()
        for _ in range(r.below(4) if r.chance(40) else 0):
            m = r.pick(["validRange", "validValue", "validMin", "validMax"])
            v, t = self.fpval(f.type)
            tm = 3.4028234663852886e38 if f.type == "float" else 1.7976931348623157e308
            if m == "validValue":
                if not math.isfinite(v):
                    key = "nan" if math.isnan(v) else v
                    if key in special:
                        continue
                    special.add(key)
                rng = (v, v)
            elif not math.isfinite(v):
                continue
            elif m == "validMin":
                rng = (v, tm)
            elif m == "validMax":
                rng = (-tm, v)
            else:
                w = v + r.below(1000) / 8.0
                t = "[%s, %s]" % (t, repr(w))
                rng = (v, w)
            c = E(m)
            since, depr = self.sub_versions(f, c)
            c.props.insert(0, ["value", t, "raw"])
            e.kids.append(c)
            f.valid.append((rng[0], rng[1], since, depr))
            self.used.add("fp" + m)
        if self.o.display:
            if r.chance(12):
                u = r.below(len(UNITS))
                f.units = u + 1
                e.p("units", UNITS[u], "unit")
            if r.chance(8):
                f.dd = r.below(7)
                e.p("displayDecimals", str(f.dd), "num")

    # -- enum
    def k_enum(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        bits = kw.get("bits", 0)
        if not reuse:
            if bits:
                f.type = r.pick([t for t in INTS if not is_var(t) and tlen(t) * 8 >= bits])
            elif self.o.bitrefs > 1 and not sem and r.chance(40):
                f.type = r.pick(["int8", "int16", "int32"])
            else:
                f.type = r.pick(list(INTS)) if not sem else r.pick(["uint8", "uint16", "uintvar", "uint8"])
            e.p("type", f.type, "kw")
            f.endian, f.defv, f.values, f.nonUniqAllowed, f.vcv, f.hex, f.avail = self.endian, 0, [], False, False, False, False
            f.len = tlen(f.type)
            f._bits = 0
            if not bits and r.chance(20) and f.len > 1:
                f.len = r.rng(1, f.len)
                if is_var(f.type) and self.o.wire:
                    f.len = r.rng(2, 5)
                e.p("length", str(f.len), "num")
            if bits:
                f._bits = bits
                if bits != f.len * 8 or r.chance(50):
                    e.p("bitLength", str(bits), "num")
        if r.chance(20):
            f.endian = r.below(2)
            e.p("endian", ["little", "big"][f.endian], "kw")
        self.flag(f, e, "nonUniqAllowed", "nonUniqueAllowed", 15)
        if not f.nonUniqAllowed and len({x[5] for x in f.values}) < len(f.values):
            f.nonUniqAllowed = True
            e.setp("nonUniqueAllowed", "true", "bool")
        self.flag(f, e, "vcv", "validCheckVersion", self.o.vcv)
        lo, hi = brange(f.type, wbits(f))
        lo, hi = max(lo, trange(f.type)[0]), min(hi, trange(f.type)[1])
        names = {v[0] for v in f.values}
        have = {v[5] for v in f.values}
        want = r.rng(1, 5) if not reuse or r.chance(40) else 0
        nxt = None
        tries = 0
        while want > 0 and tries < 20:
            tries += 1
            s = E("validValue")
            nm = self.name("V")
            own = [(x[0], x[5]) for x in f.values]
            if nxt is not None and r.chance(50) and nxt <= hi:
                v, t, k = nxt, str(nxt), "num"
            else:
                v, t, k = self.numval(lo, hi, own if f.nonUniqAllowed and r.chance(30) else None)
            if kw.get("small"):
                v = abs(v) % 200
                t, k = str(v), "num"
            if v in have and not f.nonUniqAllowed:
                nxt = v + 1 if v < hi else lo
                if tries > 10:
                    break
                continue
            if nm in names:
                continue
            nxt = v + 1
            s.p("name", nm)
            s.p("val", t, k)
            since, depr = self.sub_versions(f, s)
            desc, disp = self.sub_texts(s)
            f.values.append((nm, since, depr, desc, disp, v))
            names.add(nm)
            have.add(v)
            e.kids.append(s)
            want -= 1
        if not f.values:
            s = E("validValue").p("name", "Only").p("val", str(lo), "num")
            f.values.append(("Only", f.since, f.depr, "", "", lo))
            e.kids.append(s)
        if r.chance(50):
            n, v = r.pick([(x[0], x[5]) for x in f.values])
            f.defv = v
            e.p("defaultValue", n if r.chance(60) else str(v), "raw")
            self.used.add("enumdefault")
        if not signed(f.type):
            self.flag(f, e, "hex", "hexAssign", 10)
        if not self.o.wire:
            self.flag(f, e, "avail", "availableLengthLimit", 4)

    # -- set
    def boolval(self):
        r = self.r
        if self.o.refs and r.chance(20):
            cand = [(p, v) for p, c, v in self.reg if c == "bool"]
            if cand:
                p, v = r.pick(cand[-8:])
                self.used.add("boolref")
                return v, p, "raw"
        v = bool(r.below(2))
        return v, "true" if v else "false", "bool"

    def k_set(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        bits = kw.get("bits", 0)
        if not reuse:
            f._bits = 0
            if bits:
                f._bits = bits
                e.p("bitLength", str(bits), "num")
                f.len = (bits + 7) // 8
                if r.chance(40):
                    cand = [t for t in ("uint8", "uint16", "uint32", "uint64") if tlen(t) * 8 >= bits]
                    f.type = r.pick(cand)
                    f.len = tlen(f.type)
                    e.p("type", f.type, "kw")
                else:
                    f.type = {1: "uint8", 2: "uint16", 3: "uint32", 4: "uint32"}.get(f.len, "uint64")
            elif r.chance(50):
                f.len = r.rng(1, 8)
                f.type = {1: "uint8", 2: "uint16", 3: "uint32", 4: "uint32"}.get(f.len, "uint64")
                e.p("length", str(f.len), "num")
            else:
                f.type = r.pick(["uint8", "uint16", "uint32", "uint64"])
                f.len = tlen(f.type)
                e.p("type", f.type, "kw")
                if r.chance(15) and f.len > 1:
                    f.len = r.rng(1, f.len)
                    e.p("length", str(f.len), "num")
            f.endian, f.defBit, f.resBit, f.bitsInfo, f.nonUniqAllowed, f.vcv, f.avail = self.endian, False, False, [], False, False, False
        if r.chance(20):
            f.endian = r.below(2)
            e.p("endian", ["little", "big"][f.endian], "kw")
        self.flag(f, e, "nonUniqAllowed", "nonUniqueAllowed", 8)
        if not f.nonUniqAllowed and len({x[5] for x in f.bitsInfo}) < len(f.bitsInfo):
            f.nonUniqAllowed = True
            e.setp("nonUniqueAllowed", "true", "bool")
        self.flag(f, e, "vcv", "validCheckVersion", self.o.vcv)
        if not reuse and r.chance(25):
            f.defBit, t, k = self.boolval()
            e.p("defaultValue", t, k)
        if not reuse and r.chance(20):
            f.resBit = bool(r.below(2))
            e.p("reservedValue", "true" if f.resBit else "false", "bool")
        width = bits or f._bits or f.len * 8
        names = {b[0] for b in f.bitsInfo}
        used = {b[5] for b in f.bitsInfo}
        for _ in range(r.rng(1, 5) if not reuse or r.chance(40) else 0):
            idx = r.below(width)
            nm = self.name("b")
            if nm in names:
                continue
            if idx in used and not (f.nonUniqAllowed):
                continue
            same = [b for b in f.bitsInfo if b[5] == idx]
            s = E("bit").p("name", nm).p("idx", str(idx), "num")
            dv, res, rv = f.defBit, False, f.resBit
            since, depr = f.since, f.depr
            if same:
                # must be consistent with the other bit of this index
                if any(b[7] for b in same) or self.V:
                    continue
                dv = same[0][6]
                if dv != f.defBit:
                    s.p("defaultValue", "true" if dv else "false", "bool")
                rv = same[0][8]
                if rv != f.resBit:
                    s.p("reservedValue", "true" if rv else "false", "bool")
                self.used.add("overlapbits")
            else:
                res = r.chance(15)
                if res:
                    s.p("reserved", "true", "bool")
                else:
                    since, depr = self.sub_versions(f, s)
                if r.chance(25):
                    dv, t, k = self.boolval()
                    s.p("defaultValue", t, k)
                if r.chance(15):
                    rv = bool(r.below(2))
                    s.p("reservedValue", "true" if rv else "false", "bool")
            desc, disp = self.sub_texts(s)
            f.bitsInfo.append((nm, since, depr, desc, disp, idx, dv, res, rv))
            names.add(nm)
            used.add(idx)
            e.kids.append(s)
        if not self.o.wire:
            self.flag(f, e, "avail", "availableLengthLimit", 3)

    # -- bitfield
    def k_bitfield(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        if not reuse:
            f.endian, f.members, f.validCond = self.endian, [], None
        if r.chance(25):
            f.endian = r.below(2)
            e.p("endian", ["little", "big"][f.endian], "kw")
        if not reuse:
            total = 8 * r.pick([1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
            S2 = Scope("bitfield", f.since, f.depr, f.members)
            kids = []
            left = total
            while left > 0:
                w = left if r.chance(15) and left <= 64 else r.rng(1, min(left, 24))
                if len(f.members) >= 6:
                    w = left
                left -= w
                k = r.weighted([(4, "int"), (2, "enum"), (3, "set"), (self.o.bitrefs, "ref")])
                if k == "ref":
                    def suits(x):
                        y = refdepth(x)[1]
                        return (y.kind in ("int", "enum") and x.sem == "none" and y.sem == "none" and not is_var(y.type) and y.len * 8 >= w and
                                getattr(y, "off", 0) == 0 and (y is x or x._bits == 0))
                    cand = [p for p, x in self.fields.items() if suits(x)]
                    refs = [p for p in cand if self.fields[p].kind == "ref"]
                    if refs and r.chance(60):
                        deep = max(refdepth(self.fields[p])[0] for p in refs)
                        cand = [p for p in refs if refdepth(self.fields[p])[0] == deep] if r.chance(60) else refs
                        self.used.add("bitref-chain")
                    if not cand:
                        k = "int"
                    else:
                        m, me = self.mkref(r.pick(cand), S2)
                        m._bits = w
                        if w != min_len(m.field) * 8 or r.chance(50):
                            me.p("bitLength", str(w), "num")
                        f.members.append(m)
                        kids.append(me)
                        self.used.add("bitref")
                        continue
                m, me = self.field(S2, 0, kind=k, bits=w)
                f.members.append(m)
                kids.append(me)
            e.wrap = ("members", kids, True)
        if f.validCond is None and r.chance(10):
            c = self.cond(f.members, 1)
            if c:
                self.setcond(f, e, "validCond", c)

    def setcond(self, f, e, prop, c):
        if c.kind == "expr":
            e.p(prop, c.text(), "raw")
        else:
            e.post.append(E(prop, kids=[c.elem(prop)]))
        f.__dict__[prop] = c
        self.used.add(prop)

    def mkref(self, path, S, name=None):
        r = self.r
        b = self.fields[path]
        f = F(kind="ref", displayName=b.displayName, description="", sem=b.sem if b.sem != "messageid" else "none", pseudo=False, fixed=False,
              custom=False, failInv=False, forceGen=False, ovr=[0] * 7, copyCode="", xattrs={}, ext=None, _bits=0, field=b, _base=None)
        e = E("ref")
        f._e = e
        e.p("field", path)
        if name is None and b.name not in [x.name for x in (S.sibs or [])] and r.chance(30):
            f.name = b.name
            self.used.add("refname")
        else:
            f.name = name or self.name("r")
            e.p("name", f.name)
        f.since, f.depr, f.removed = S.since, S.depr, False
        self.ref_flags(f, e)
        return f, e

    def k_ref(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        if reuse:
            self.ref_flags(f, e)
            return
        cand = [p for p, x in self.fields.items() if not (self.o.wire and not S.tail and self.greedy(x)) and x.sem != "length" and
                not (self.o.wire and S.kind == "list" and self.greedy(x))]
        if not cand:
            raise NoRef()
        p = r.pick(cand[-10:])
        if self.o.bitrefs > 1 and r.chance(60):
            p = r.pick([x for x in cand if self.fields[x].kind == "ref" and refdepth(self.fields[x])[1].kind in ("int", "enum")] or [p])
        f.field = self.fields[p]
        e.props.insert(0, ["field", p, "raw"])
        self.ref_flags(f, e)
        if not e.has("displayName"):
            f.displayName = f.field.displayName
        f.sem = f.field.sem if f.field.sem != "messageid" else "none"
        self.used.add("ref")

    def ref_flags(self, f, e):
        """the code generators refuse a reference whose failOnInvalid and pseudo differ"""
        if self.o.compile:
            for a, pn in (("failInv", "failOnInvalid"), ("pseudo", "pseudo")):
                e.drop(pn)
                want = getattr(f.field, a)
                f.__dict__[a] = want
                if want or f._base:
                    e.p(pn, "true" if want else "false", "bool")

    # -- string / data
    def prefix(self, of, S, tag):
        """length / count prefix field; returns (F or path F, emit(e))"""
        r = self.r
        cand = [p for p, x in self.fields.items() if x.kind == "int" and not signed(x.type) and x.sem == "none" and not x.valid and not x.specials
                and not x.failInv and not x.pseudo and not x.fixed and x.off >= 0 and (not self.o.wire or (x.len <= 4 and x.off == 0 and x.defv == 0))]
        if cand and r.chance(40):
            p = r.pick(cand[-5:])
            self.used.add("prefixref")
            return self.fields[p], lambda e: e.p(tag, p)
        f, fe = self.field(Scope("anon", of.since, of.depr), 0, kind="int", unsigned=True)
        self.used.add("prefixchild")
        if self.o.wire:
            for k in ("validateMinLength", "serOffset", "defaultValue", "defaultValidValue", "failOnInvalid", "scaling"):
                fe.drop(k)
            f.off, f.defv, f.failInv, f.valid, f.scal = 0, 0, False, [], (1, 1)
        return f, lambda e: e.kids.append(E(tag, kids=[fe]))

    def det(self, S, size):
        """detached prefix: an earlier sibling"""
        if not S.conds_ok() or not S.sibs:
            return None
        c = [x for x in S.sibs if x.kind == "int" and not signed(x.type) and x.since == S.since and x.depr == S.depr and not (self.o.wire and x.removed) and x.sem == "none" and
             x.off == 0 and not getattr(x, "_det", False) and not x.valid and not x.fixed and not x.failInv and x.defv == 0]
        return self.r.pick(c) if c else None

    def k_string(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        data = f.kind == "data"
        if not reuse:
            f.defv, f.len, f.prefix, f.dprefix, f.valid = "", 0, None, "", []
            if not data:
                f.enc, f.zterm = "", False
            m = r.below(6 if not (self.o.wire and not S.tail) else 5)
            if m == 0:
                f.len = r.rng(1, 20)
                e.p("length", str(f.len), "num")
                self.used.add("fixedlen")
            elif m == 1 and not data:
                f.zterm = True
                e.p("zeroTermSuffix", "true", "bool")
                self.used.add("zterm")
            elif m == 2 and self.det(S, True) is not None:
                x = self.det(S, True)
                x._det = True
                f.dprefix = x.name
                e.p("lengthPrefix", "$" + x.name)
                self.used.add("detached")
            elif m < 5:
                f.prefix, emit = self.prefix(f, S, "lengthPrefix")
                emit(e)
        if not data and r.chance(15):
            f.enc = r.pick(["utf-8", "ascii", "UTF-16", "x y"])
            e.p("encoding", f.enc, "text")
        vl = r.chance(35)
        if vl:
            f.defv, t, k = self.strval(data, f.len)
            if r.chance(20):
                e.p("defaultValidValue", t, k)
                f.valid.append((f.defv, f.since, f.depr))
            else:
                e.p("defaultValue", t, k)
        attr = False
        for _ in range(r.below(3) if r.chance(25) else 0):
            v, t, k = self.strval(data, f.len)
            c = E("validValue")
            since, depr = self.sub_versions(f, c)
            if any(x[0] == v for x in f.valid):
                continue
            if not c.props and not attr and r.chance(50):
                attr = True
                e.p("validValue", t, k)
            else:
                c.props.insert(0, ["value", t, k])
                e.kids.append(c)
            f.valid.append((v, since, depr))
            self.used.add("strvalid")

    k_data = k_string

    def strval(self, data, maxlen):
        r = self.r
        if self.o.refs and r.chance(25):
            cls = "data" if data else "str"
            cand = [(p, v) for p, c, v in self.reg if c == cls and v and not (maxlen and len(v) > maxlen)]
            if cand:
                p, v = r.pick(cand[-6:])
                self.used.add("strref")
                return v, "^" + p, "raw"
        n = r.rng(1, min(maxlen or 8, 8))
        if data:
            v = Raw(bytes(r.below(256) for _ in range(n)).decode("latin-1"))
            return v, v.encode("latin-1").hex(), "hex"
        if r.chance(50):
            v = r.pick(["hello", "a b", "x<y&z", "q\"t'", "%d", "0x1", "Z"])[:maxlen or 99].strip() or "a"
        else:
            v = norm_ws("".join(chr(33 + r.below(94)) for _ in range(n))).lstrip("^\\") or "k"
        if r.chance(5) and not self.o.wire and len(v) < (maxlen or 99):
            self.used.add("stresc")
            return "^" + v, "\\^" + v, "raw"
        return v, v, "text"

    # -- bundle
    def k_bundle(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        if not reuse:
            f.members, f.aliases, f.validCond = [], [], None
            kids = []
        else:
            for m in f.members:
                m.since = max(m.since, f.since)
            drop = [m for m in f.members if m.removed and m.depr <= f.since]
            assert not drop
            kids = []
            if f.aliases and r.chance(25):
                e.p("reuseAliases", "false", "bool")
                f.aliases = []
            if r.chance(25) and not self.o.wire:
                # replace one of the members
                i = r.below(len(f.members))
                old = f.members[i]
                if self.replaceable(f, old):
                    m, me = self.field(Scope("bundle", f.since, f.depr, None, S.tail), d - 1, name=old.name, must_same=True)
                    f.members[i] = m
                    e.kids.append(E("replace", kids=[me]))
                    self.used.add("replace")
        n = r.rng(1, 4) if not reuse else (r.rng(1, 2) if r.chance(30) and not (self.o.wire and any(self.greedy(m) for m in f.members)) else 0)
        self.members(f, kids, n, d, "bundle", S.tail, length_ok=not reuse and not S.kind == "anon")
        if kids:
            e.wrap = ("members", kids, True)
        self.aliases(f, e, f.members, 12)
        if f.validCond is None and r.chance(12):
            c = self.cond(f.members, 1)
            if c:
                self.setcond(f, e, "validCond", c)
        elif f.validCond is None and r.chance(8):
            cand = [p for p, x in self.fields.items() if x.kind == "bundle" and x.validCond and self.cond_fits(x.validCond, x.members, f.members)]
            if cand:
                p = r.pick(cand)
                e.p("copyValidCondFrom", p)
                f.validCond = self.fields[p].validCond
                self.used.add("copyValidCondFrom")

    def replaceable(self, f, m):
        if m.sem != "none" or getattr(m, "_det", False):
            return False
        if getattr(m, "dprefix", "") or any(getattr(m, k, "") for k in ("dcprefix", "dlprefix", "delprefix", "dtsuffix")):
            return False
        names = set()
        for x in f.members:
            for a in ("cond", "validCond"):
                c = getattr(x, a, None)
                if c:
                    names |= cond_names(c)
            for k in ("dprefix", "dcprefix", "dlprefix", "delprefix", "dtsuffix"):
                names.add(getattr(x, k, ""))
        if f.__dict__.get("validCond"):
            names |= cond_names(f.validCond)
        for a in f.__dict__.get("aliases") or []:
            names.add(a["field"].split(".")[0])
        return m.name not in names

    def cond_fits(self, c, src, dst):
        """all the fields used in the condition are available in dst as the same kind of field"""
        by = {m.name: m for m in dst}
        bs = {m.name: m for m in src}
        return all(n in by and n in bs and by[n].kind == bs[n].kind and getattr(by[n], "_src", 1) == getattr(bs[n], "_src", 2) for n in cond_names(c))

    def members(self, f, kids, n, d, scope, tail, length_ok=False):
        r = self.r
        lst = f.members if scope != "message" else f.fields
        for i in range(n):
            last = i == n - 1
            S2 = Scope(scope, f.since, f.depr, lst, tail and last)
            same = not any(m.since == f.since for m in lst)
            if scope == "message":
                same = False
            if self.o.wire and not same and any(m.since > f.since for m in lst):
                # later members may not be older in the executable subset
                pass
            try:
                if length_ok and i == 0 and r.chance(8) and scope == "bundle":
                    m, me = self.field(S2, 0, kind="int", unsigned=True, sem="length", must_same=True)
                    self.used.add("semlength")
                else:
                    m, me = self.field(S2, d - 1, must_same=same)
            except NoRef:
                continue
            if m.name in [x.name for x in lst]:
                continue
            lst.append(m)
            kids.append(me)
        if not lst and scope != "message":
            m, me = self.field(Scope(scope, f.since, f.depr, lst, tail), 0, kind="int")
            lst.append(m)
            kids.append(me)

    def aliases(self, f, e, flds, num):
        r = self.r
        if not flds or not r.chance(num):
            return
        names = {m.name for m in flds} | {a["name"] for a in f.aliases}
        for _ in range(r.rng(1, 2)):
            m = r.pick(flds)
            path = m.name
            while m.kind in ("bundle", "bitfield") and r.chance(60):
                m = r.pick(m.members)
                path += "." + m.name
            nm = self.name("al")
            if nm in names:
                continue
            desc = ""
            a = E("alias").p("name", nm).p("field", "$" + path)
            if self.o.texts and r.chance(30):
                desc = self.text()
                a.p("description", desc, "text")
            f.aliases.append({"name": nm, "field": path, "description": desc})
            names.add(nm)
            e.post.append(a)
            self.used.add("alias" + (".path" if "." in path else ""))

    # -- list
    def k_list(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        if reuse:
            return
        f.count, f.cprefix, f.lprefix, f.elprefix, f.tsuffix = 0, None, None, None, None
        f.dcprefix = f.dlprefix = f.delprefix = f.dtsuffix = ""
        f.elemFixed = False
        cand = [p for p, x in self.fields.items() if x.sem not in ("length", "messageid") and not (self.o.wire and (self.greedy(x) or min_len(x) == 0))]
        if cand and r.chance(45):
            p = r.pick(cand[-8:])
            f.elem = self.fields[p]
            if r.chance(80) or True:
                e.p("element", p)
            self.used.add("elemref")
        else:
            while True:
                try:
                    el, ee = self.field(Scope("anon", f.since, f.depr, None, False), d - 1)
                    break
                except NoRef:
                    continue
            if self.o.wire and (self.greedy(el) or min_len(el) == 0):
                el, ee = self.field(Scope("anon", f.since, f.depr, None, False), 0, kind="int")
            f.elem = el
            e.wrap = ("element", [ee], False)
        pos = 7 if not (self.o.wire and not S.tail) else 6
        m = r.below(pos)
        if m == 0:
            f.count = r.rng(1, 5)
            e.p("count", str(f.count), "num")
            self.used.add("count")
        elif m <= 2:
            x = self.det(S, False) if r.chance(25) else None
            if x is not None:
                x._det = True
                f.dcprefix = x.name
                e.p("countPrefix", "$" + x.name)
                self.used.add("detached")
            else:
                f.cprefix, emit = self.prefix(f, S, "countPrefix")
                emit(e)
        elif m <= 4:
            x = self.det(S, True) if r.chance(25) else None
            if x is not None:
                x._det = True
                f.dlprefix = x.name
                e.p("lengthPrefix", "$" + x.name)
                self.used.add("detached")
            else:
                f.lprefix, emit = self.prefix(f, S, "lengthPrefix")
                emit(e)
        elif m == 5:
            if self.o.wire:
                f.count = r.rng(1, 3)
                e.p("count", str(f.count), "num")
            else:
                t, te = self.field(Scope("anon", f.since, f.depr), 0, kind="int", unsigned=True)
                f.tsuffix = t
                e.kids.append(E("termSuffix", kids=[te]))
                self.used.add("termSuffix")
        if m != 5 and r.chance(20):
            f.elprefix, emit = self.prefix(f, S, "elemLengthPrefix")
            emit(e)
            self.used.add("elemLengthPrefix")
            if min_len(f.elem) == max_len(f.elem) and r.chance(40):
                f.elemFixed = True
                e.p("elemFixedLength", "true", "bool")
                self.used.add("elemFixed")

    # -- optional
    def k_optional(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        if not reuse:
            f.mode, f.cond, f.missRF, f.missInv = 0, None, False, False
            cand = [p for p, x in self.fields.items() if x.kind not in ("optional",) and x.sem == "none" and not (self.o.wire and self.greedy(x) and not S.tail)]
            if cand and r.chance(45):
                p = r.pick(cand[-8:])
                f.field = self.fields[p]
                e.p("field", p)
            else:
                while True:
                    try:
                        el, ee = self.field(Scope("anon", f.since, f.depr, None, S.tail), d - 1)
                        break
                    except NoRef:
                        continue
                if self.o.wire and (self.greedy(el) and not S.tail or el.kind == "optional"):
                    el, ee = self.field(Scope("anon", f.since, f.depr, None, S.tail), 0, kind="int")
                f.field = el
                if r.chance(30):
                    e.wrap = ("field", [ee], False)
                else:
                    e.wrap = ("field", [ee], False)
        c = None
        if S.conds_ok() and S.sibs and f.cond is None and r.chance(70):
            c = self.cond([x for x in S.sibs], 2)
        force = self.o.wire and not S.tail and c is None and f.cond is None
        if r.chance(60) or force:
            f.mode = r.below(3)
            if force and f.mode == 0:
                f.mode = 1
            e.p("defaultMode", [["tent", "tentative", "t"], ["exist", "exists", "e"], ["miss", "missing", "m"]][f.mode][r.below(3)], "kw")
        if c is not None:
            if c.kind == "expr":
                e.p("cond", c.text())
            else:
                e.kids.append(c.elem())
            f.cond = c
            self.used.add("cond-" + c.kind)
        if not self.o.wire or True:
            self.flag(f, e, "missRF", "missingOnReadFail", 6)
            self.flag(f, e, "missInv", "missingOnInvalid", 6)

    # -- variant
    def k_variant(self, f, e, S, d, reuse, sem, kw):
        r = self.r
        kids = []
        if not reuse:
            f.members, f.defIdx = [], -1
        else:
            for m in f.members:
                m.since = max(m.since, f.since)
        if self.o.wire:
            if not reuse:
                self.wire_variant(f, kids, d, S)
        else:
            n = r.rng(1, 3) if not reuse else (1 if r.chance(20) else 0)
            self.members(f, kids, n, d, "variant", S.tail)
        if kids:
            e.wrap = ("members", kids, True)
        if r.chance(50):
            if r.chance(20):
                f.defIdx = -1
                e.p("defaultMember", "-1", "num")
            else:
                i = r.below(len(f.members))
                f.defIdx = i
                e.p("defaultMember", f.members[i].name if r.chance(50) else str(i), "raw")
            self.used.add("defaultMember")

    def wire_variant(self, f, kids, d, S):
        """members distinguishable by a leading key"""
        r = self.r
        for i in range(r.rng(1, 3)):
            b = F(kind="bundle", displayName="", description="", sem="none", pseudo=False, fixed=False, custom=False, failInv=False,
                  forceGen=False, ovr=[0] * 7, copyCode="", xattrs={}, ext=None, _bits=0, since=f.since, depr=f.depr, removed=False,
                  name=self.name("vm"), members=[], aliases=[], validCond=None, _base=None)
            e = E("bundle").p("name", b.name)
            b._e = e
            k = F(kind="int", displayName="", description="", sem="none", pseudo=False, fixed=True, custom=False, failInv=True,
                  forceGen=False, ovr=[0] * 7, copyCode="", xattrs={}, ext=None, _bits=0, since=f.since, depr=f.depr, removed=False,
                  name="key", type="uint8", len=1, endian=self.endian, off=0, scal=(1, 1), valid=[(i + 1, i + 1, f.since, f.depr)], specials=[],
                  nonUniq=False, units=0, vcv=False, dd=0, doff=0, sext=True, avail=False, defv=i + 1, _base=None)
            ke = E("int").p("name", "key").p("type", "uint8", "kw").p("fixedValue", "true", "bool").p("failOnInvalid", "true", "bool").p("defaultValidValue", str(i + 1), "num")
            k._e = ke
            b.members.append(k)
            ks = [ke]
            S2 = Scope("bundle", f.since, f.depr, b.members, S.tail)
            for j in range(r.rng(0, 2)):
                try:
                    m, me = self.field(Scope("bundle", f.since, f.depr, b.members, S.tail and j == 1), d - 2)
                except NoRef:
                    continue
                if self.o.wire and self.greedy(m) and not (S.tail and j == 1):
                    continue
                b.members.append(m)
                ks.append(me)
            e.wrap = ("members", ks, True)
            f.members.append(b)
            kids.append(e)
        self.used.add("variant")

    # ------------------------------------------------------------------ conditions
    def targets(self, sibs, pre="$"):
        """field paths usable in conditions -> [(path, F, through)]"""
        out = []

        def add(path, m, depth):
            x = deref(m)
            out.append((path, x, m))
            if x.kind in ("bundle", "bitfield") and depth < 2:
                for y in x.members:
                    add(path + "." + y.name, y, depth + 1)
        for m in sibs:
            add(pre + m.name, m, 0)
        return out

    def cond(self, sibs, depth, pre="$", extra=()):
        r = self.r
        t = [x for x in list(self.targets(sibs, pre)) + list(extra) if x[1].kind in ("int", "enum", "set", "float", "string", "data", "list", "optional")]
        if not t:
            return None
        return self._cond(t, depth)

    def _cond(self, t, depth):
        r = self.r
        if depth > 0 and r.chance(30):
            sub = [self._cond(t, depth - 1) for _ in range(r.rng(2, 3))]
            sub = [s for s in sub if s]
            if len(sub) >= 2:
                return C(r.pick(["and", "or"]), conds=sub)
        for _ in range(4):
            c = self._expr(t)
            if c:
                return c
        return None

    def _expr(self, t):
        r = self.r
        path, x, m = r.pick(t)
        op = r.pick(["=", "!=", "<", "<=", ">", ">="])
        k = x.kind
        if k in ("int", "enum"):
            oth = [y for y in t if y[1].kind in ("int", "enum") and y[0] != path and y[2].kind != "optional" and
                   signed(y[1].type) == signed(x.type)]
            if oth and r.chance(15):
                self.used.add("condfield")
                return C("expr", path, op, r.pick(oth)[0])
            lo, hi = int_range(x) if k == "int" else brange(x.type, wbits(x))
            if self.o.wire:
                hi = min(hi, (1 << 63) - 1)
            own = [(v[0], v[5]) for v in (x.specials if k == "int" else x.values)]
            if x.sem in ("length", "version") or m.sem in ("length", "version"):
                own, hi = [], min(hi, (1 << 63) - 1)
            if own and r.chance(50) and m.kind != "ref":
                n, v = r.pick(own)
                self.used.add("condspecial")
                return C("expr", path, op if k == "int" else r.pick(["=", "!="]), n if r.chance(60) or v > hi else str(v))
            return C("expr", path, op, str(r.num(max(lo, -(1 << 63)), min(hi, MAXU))))
        if k == "set":
            if not x.bitsInfo:
                return None
            b = r.pick([b for b in x.bitsInfo])
            if r.chance(80):
                self.used.add("condbit")
                return C("expr", "", r.pick(["", "!"]), path + "." + b[0])
            return C("expr", path, r.pick(["=", "!="]), str(r.num(0, min((1 << (x.len * 8)) - 1, (1 << 63) - 1))))
        if k == "float":
            if self.o.wire:
                return None
            return C("expr", path, op, "%d.5" % r.below(100))
        if k in ("string", "data", "list"):
            if m.kind == "optional" or "." in path and self.o.wire:
                return None
            self.used.add("condsize")
            return C("expr", path[0] + "#" + path[1:], op, str(r.below(20)))
        if k == "optional":
            if m.kind == "ref" and self.o.wire:
                return None
            self.used.add("condexists")
            return C("expr", "", r.pick(["", "!"]), path[0] + "?" + path[1:])
        return None

    # ------------------------------------------------------------------ namespace level things
    def register(self, path, f):
        """value references offered by a namespace level field"""
        x = f

        def reg(p, x, d):
            if x.kind == "ref" or (x.kind == "optional" and False):
                return reg(p, x.field, d)
            if x.kind == "int":
                self.regval(p, "num", x.defv)
                for s in x.specials:
                    self.regval(p + "." + s[0], "num", s[5])
            elif x.kind == "enum":
                self.regval(p, "num", x.defv)
                for s in x.values:
                    self.regval(p + "." + s[0], "num", s[5])
            elif x.kind == "float":
                self.regval(p, "fp", x.defv)
                for s in x.specials:
                    self.regval(p + "." + s[0], "fp", s[5])
            elif x.kind == "set":
                self.regval(p, "bool", x.defBit)
                self.regval(p, "num", int(x.defBit))
                for b in x.bitsInfo:
                    self.regval(p + "." + b[0], "bool", b[6])
                    self.regval(p + "." + b[0], "num", int(b[6]))
            elif x.kind == "string":
                self.regval(p, "str", x.defv)
            elif x.kind == "data":
                self.regval(p, "data", x.defv)
            elif x.kind in ("bundle", "bitfield") and d < 2:
                for m in x.members:
                    reg(p + "." + m.name, m, d + 1)
            elif x.kind == "optional" and d < 2 and not x.field.ext:
                reg(p + "." + x.field.name, x.field, d + 1)
        if "." in path or not self.o.ambiguous_ns:
            reg(path, x, 0)

    def ns_path(self, ns, name):
        return ".".join(list(ns) + [name])

    def pool(self, taken):
        """a name which is likely to be used in other scopes as well"""
        for _ in range(3):
            n = self.r.pick(["alpha", "beta", "Gamma", "delta", "field1", "x", "Value", "Status"])
            if n not in taken:
                return n
        return self.name("f")

    def ns_field(self, ns, kind=None, **kw):
        if self.o.samenames:
            kw["name"] = self.pool([x.name for x in self.node(ns).fields] + [x[-1] for x in self.nss if x and x[:-1] == tuple(ns)])
        for _ in range(5):
            try:
                f, e = self.field(Scope("ns"), self.o.depth, kind=kind, **kw)
                break
            except NoRef:
                continue
        else:
            f, e = self.field(Scope("ns"), 0, kind="int")
        path = self.ns_path(ns, f.name)
        f.ext = path
        self.fields[path] = f
        self.node(ns).fields.append(f)
        self.decls.append((tuple(ns), "fields", e, path))
        self.register(path, f)
        return f

    def node(self, ns):
        n = self.root
        for i in range(len(ns)):
            p = tuple(ns[:i + 1])
            if p not in self.nodes:
                self.nodes[p] = F(name=ns[i], displayName="", description="", xattrs={}, ns=[], fields=[], interfaces=[], messages=[], frames=[],
                                  path=".".join(p))
                n.ns.append(self.nodes[p])
            n = self.nodes[p]
        if not ns:
            if () not in self.nodes:
                self.nodes[()] = F(name="", displayName="", description="", xattrs={}, ns=[], fields=[], interfaces=[], messages=[], frames=[], path="")
                self.root.ns.append(self.nodes[()])
            n = self.nodes[()]
        return n

    def interface(self, ns):
        r = self.r
        f = F(kind="interface", name=self.name("Iface"), description="", copyCode="", xattrs={}, aliases=[], fields=[], since=0, depr=NYD, ext=None)
        e = E("interface").p("name", f.name)
        if self.o.texts and r.chance(30):
            f.description = self.text()
            e.p("description", f.description, "text")
        base = None
        cand = [p for p, x in self.ifaces.items()]
        if cand and self.o.reuse and r.chance(40):
            p = r.pick(cand)
            b = self.ifaces[p]
            m = r.pick(["copyFieldsFrom", "reuse"])
            e.p(m, p)
            f.fields = [clone(x, False) for x in b.fields]
            f.aliases = clone(b.aliases)
            if m == "reuse" and not f.description:
                f.description = b.description
            ap = "copyFieldsAliases" if m == "copyFieldsFrom" else "reuseAliases"
            if f.aliases and r.chance(25):
                e.p(ap, "false", "bool")
                f.aliases = []
            self.used.add("iface-" + m)
        kids = []
        has_ver = any(deref(x).sem == "version" for x in f.fields)
        for i in range(r.rng(0, 3)):
            S2 = Scope("interface", 0, NYD, f.fields, False)
            try:
                if not has_ver and self.o.verfield and r.chance(60):
                    has_ver = True
                    m, me = self.field(S2, 0, kind="int", unsigned=True, sem="version")
                else:
                    m, me = self.field(S2, 1)
            except NoRef:
                continue
            if self.o.wire and (m.kind == "optional" or has_kind(m, "variant")) or m.name in [x.name for x in f.fields]:
                continue
            f.fields.append(m)
            kids.append(me)
        if kids:
            e.wrap = ("fields", kids, True)
        self.aliases(f, e, f.fields, 20)
        path = self.ns_path(ns, f.name)
        f.ext = path
        self.ifaces[path] = f
        self.node(ns).interfaces.append(f)
        self.decls.append((tuple(ns), "interface", e, path))
        return f

    def message(self, ns):
        r = self.r
        f = F(kind="message", name=self.name("Msg"), displayName="", description="", order=0, removed=False, copyCode="", custom=False, failInv=False,
              sender=0, ovr=[0] * 6, construct=None, readCond=None, validCond=None, platforms=[], xattrs={}, aliases=[], fields=[], ext=None, vml=False)
        e = E("message").p("name", f.name)
        base = None
        if self.o.reuse and self.msgs and r.chance(self.o.msgreuse_p):
            base = r.pick(list(self.msgs)[-5:])
            b = self.msgs[base]
            if b.since or b.depr != NYD or any(x.since or x.removed for x in b.fields):
                base = None
        if base:
            b = self.msgs[base]
            e.p("reuse", base)
            f = clone(b)
            f.ext = None
            f.name = e.get("name")
            f.removed = False
            f.copyCode = ""
            f.ovr = [0] * 6
            self.used.add("msg-reuse")
            if self.o.codes and r.chance(20):
                e.p("reuseCode", "true", "bool")
                f.copyCode = base
            if f.aliases and r.chance(25):
                e.p("reuseAliases", "false", "bool")
                f.aliases = []
        # id
        if base is None or r.chance(100):
            en = [(p, v) for p, v in self.enumids if v not in self.ids]
            if self.nonUniq and self.o.sameids and self.ids and r.chance(self.o.sameids):
                f.id = r.pick(sorted(self.ids))
                e.p("id", str(f.id), "num")
            elif en and r.chance(60):
                p, f.id = r.pick(en)
                e.p("id", p)
                self.used.add("id-ref")
            else:
                hi = self.o.idmax if self.o.wire else MAXU
                while True:
                    f.id = r.num(0, hi) if r.chance(30 if not self.o.wire or hi > 200 else 0) else r.below(200)
                    if f.id not in self.ids:
                        break
                    if self.nonUniq and r.chance(50):
                        break
                    f.id = r.below(100000 if not self.o.wire else 200)
                    if f.id not in self.ids:
                        break
                e.p("id", str(f.id), "num")
            if f.id in self.ids:
                f.order = 1 + max(m.order for m in self.msgs.values() if m.id == f.id)
                e.p("order", str(f.order), "num")
                self.used.add("order")
            elif r.chance(5) and not self.o.wire:
                f.order = r.below(10)
                e.p("order", str(f.order), "num")
            self.ids.add(f.id)
        if self.o.texts:
            if r.chance(30):
                f.displayName = self.text()
                e.p("displayName", f.displayName, "text")
            if r.chance(30):
                f.description = self.text()
                e.p("description", f.description, "text")
        self.versions(f, e, Scope("msg", 0, NYD), bool(base), is_msg=True)
        if self.platforms and r.chance(40):
            pl = r.subset(self.platforms, 50)
            if r.chance(50) and pl:
                f.platforms = sorted(pl)
                e.p("platforms", "+" + ",".join(r.shuffle(pl)))
                self.used.add("platforms")
            elif not r.chance(50) and len(pl) < len(self.platforms) and pl:
                f.platforms = sorted(set(self.platforms) - set(pl))
                e.p("platforms", "-" + ",".join(pl))
                self.used.add("platforms-")
        self.flag(f, e, "custom", "customizable", 8)
        if r.chance(35):
            f.sender = r.below(3)
            e.p("sender", ["both", "client", "server"][f.sender], "kw")
            self.used.add("sender")
        self.flag(f, e, "failInv", "failOnInvalid", 8)
        kids = []
        if base is None and self.o.reuse and r.chance(self.o.copy_p):
            cm = [p for p, x in self.msgs.items() if x.fields and not x.depr != NYD]
            cb = [p for p, x in self.fields.items() if x.kind == "bundle" and all(m.sem == "none" for m in x.members)]
            cand = cm[-5:] + cb[-5:]
            cand = [p for p in cand if all(f.since < x.depr <= f.depr or x.depr == NYD for x in self.copy_src(p)[0]) and f.depr == NYD]
            if cand:
                p = r.pick(cand)
                flds, al = self.copy_src(p)
                e.p("copyFieldsFrom", p)
                f.fields = [clone(x, False) for x in flds if not (x.removed and x.depr <= f.since)]
                gone = {x.name for x in flds} - {x.name for x in f.fields}
                for x in f.fields:
                    x.since = max(x.since, f.since)
                f.aliases = [dict(a) for a in al if a["field"].split(".")[0] not in gone]
                if f.aliases and r.chance(25):
                    e.p("copyFieldsAliases", "false", "bool")
                    f.aliases = []
                if gone and (any(cond_names(c) & gone for x in f.fields for c in [getattr(x, "cond", None)] if c) or
                             any(getattr(x, k, "") in gone for x in f.fields for k in ("dprefix", "dcprefix", "dlprefix", "delprefix", "dtsuffix"))):
                    # dangling: do not copy after all
                    e.drop("copyFieldsFrom")
                    e.drop("copyFieldsAliases")
                    f.fields, f.aliases = [], []
                else:
                    self.used.add("copyFieldsFrom")
        n = r.rng(0, 5)
        if self.o.wire and any(self.greedy(x) for x in f.fields):
            n = 0
        if base is not None and (f.construct or f.readCond or f.validCond) and r.chance(50):
            n = 0
        self.members(f, kids, n, self.o.depth, "message", True)
        if kids:
            e.wrap = ("fields", kids, True)
        self.aliases(f, e, f.fields, 15)
        if self.o.codes and not self.o.compile:
            for i, pn in enumerate(OVRM):
                if r.chance(3):
                    f.ovr[i] = r.below(4)
                    e.p(pn, OVR[f.ovr[i]], "kw")
            if self.msgs and r.chance(4) and not e.has("reuseCode"):
                f.copyCode = r.pick(list(self.msgs))
                e.p("copyCodeFrom", f.copyCode)
        ifx = [t for t in self.iface_targets() if t[1].kind in ("int", "enum", "set")]
        if f.validCond is None and r.chance(10):
            c = self.cond(f.fields, 1, extra=ifx if r.chance(50) else ())
            if c:
                self.setcond(f, e, "validCond", c)
        if f.readCond is None and ifx and r.chance(12):
            c = self._cond(ifx, 1)
            if c:
                self.setcond(f, e, "readCond", c)
        sets = [t for t in ifx if t[1].kind == "set" and t[1].bitsInfo and t[2].kind != "optional"]
        if f.construct is None and sets and r.chance(12):
            def bit():
                p, x, _ = r.pick(sets)
                return C("expr", "", r.pick(["", "!"]), p + "." + r.pick(x.bitsInfo)[0])
            c = bit() if r.chance(60) else C("and", conds=[bit(), bit()])
            self.setcond(f, e, "construct", c)
            if r.chance(30) and f.readCond is None:
                e.p("constructAsReadCond", "true", "bool")
                f.readCond = c
                self.used.add("constructAsReadCond")
            if r.chance(30) and f.validCond is None:
                e.p("constructAsValidCond", "true", "bool")
                f.validCond = c
                self.used.add("constructAsValidCond")
        path = self.ns_path(ns, f.name)
        f.ext = path
        self.msgs[path] = f
        self.node(ns).messages.append(f)
        self.decls.append((tuple(ns), "message", e, path))
        if kids and (r.chance(8) or f.vml):
            f.vml = True
            e.p("validateMinLength", str(msg_len(f)[0]), "num")
        return f

    def iface_targets(self):
        out = []
        for x in self.ifaces.values():
            out += self.targets(x.fields, "%")
        return out

    def copy_src(self, p):
        if p in self.msgs:
            return self.msgs[p].fields, self.msgs[p].aliases
        return self.fields[p].members, self.fields[p].aliases

    # ------------------------------------------------------------------ frames
    def layer_field(self, kind, **kw):
        r = self.r
        f, e = self.field(Scope("anon", 0, NYD), 0, kind=kind, **kw)
        return f, e

    def frame(self, ns):
        r = self.r
        f = F(kind="frame", name=self.name("Frame"), displayName="", description="", xattrs={}, layers=[], ext=None)
        e = E("frame").p("name", f.name)
        if self.o.texts and r.chance(30):
            f.description = self.text()
            e.p("description", f.description, "text")
        kids = []

        def lay(kind, fld=None, fe=None, path=None, **k):
            nm = self.name(kind)
            le = E(kind).p("name", nm)
            L = F(kind=kind, name=nm, displayName="", description="", xattrs={}, **k)
            L.field = None
            if path is not None:
                L.field = self.fields[path]
                le.p("field", path)
            elif fld is not None:
                L.field = fld
                le.wrap = ("field", [fe], False)
            if self.o.texts and r.chance(15):
                L.description = self.text()
                le.p("description", L.description, "text")
            if self.o.texts and r.chance(15):
                L.displayName = self.text()
                le.p("displayName", L.displayName, "text")
            f.layers.append(L)
            kids.append(le)
            return L, le

        def ufield(fits=None, semver=False):
            cand = [p for p, x in self.fields.items() if x.kind == "int" and not signed(x.type) and x.sem == "none" and not x.pseudo and not x.fixed and
                    (not self.o.wire or (not x.failInv and not x.valid and x.len >= 2))]
            if cand and r.chance(30):
                return {"path": r.pick(cand)}
            a, b = self.field(Scope("anon", 0, NYD), 0, kind="int", unsigned=True)
            if self.o.wire:
                for k in ("validateMinLength", "serOffset", "defaultValue", "defaultValidValue", "failOnInvalid", "scaling", "length"):
                    b.drop(k)
                a.off, a.defv, a.failInv, a.valid, a.scal = 0, 0, False, [], (1, 1)
                a.type = r.weighted([(6, "uint16"), (1, "uint8"), (2, "uint32"), (1, "uintvar"), (1, "uint64")])
                b.setp("type", a.type)
                a.len = tlen(a.type)
                if a.type in ("uint32", "uint64") and r.chance(60):
                    a.len = r.rng(2, a.len)
                    b.setp("length", str(a.len), "num")
                if r.chance(20):
                    a.off = r.rng(1, 9)
                    b.setp("serOffset", str(a.off), "num")
            return {"fld": a, "fe": b}

        vals = [x for x in self.ifaces.values()]
        order = ["id"]
        if r.chance(60):
            order.insert(r.below(len(order) + 1), "size")
        seen = set()
        top_ifaces = [x for x in self.ifaces.values()]
        if vals and r.chance(self.o.valuep):
            it = r.pick(vals)
            for i, fl in enumerate(it.fields):
                if deref(fl).kind in ("int", "set", "enum", "bitfield", "float") and r.chance(60 if deref(fl).sem != "version" else 90):
                    order.insert(r.below(len(order) + 1), ("value", it, i, fl))
        if r.chance(15) and not self.o.wire:
            order.insert(r.below(len(order) + 1), "custom")
        if r.chance(50):
            order.insert(0, "sync")
        pre_sum = False
        first_named = None
        csum = r.weighted([(4, "after"), (2, "before")]) if r.chance(self.o.csump) else None
        if csum == "before":
            order.insert(r.rng(0 if order[0] != "sync" else 1, len(order)), "checksum_until")
        order.append("payload")
        if csum == "after":
            order.append("checksum_from")
            if r.chance(15):
                order.append("checksum_from")
        if r.chance(20) and not (self.o.wire and csum == "before"):
            order.insert(r.rng(order.index("payload") + 1, len(order)), "sync_after")

        def suffix(L, le, kinds):
            """the layer from which the suffix starts: not after the one of the previous suffixes"""
            head = f.layers[:[x.kind for x in f.layers].index("payload")]
            cand = [x for x in head if x.kind in kinds]
            lim = getattr(f, "_lim", None)
            if lim is not None:
                cand = [x for x in cand if f.layers.index(x) <= lim]
            if not cand:
                return False
            c = r.pick(cand)
            f._lim = f.layers.index(c)
            L.from_ = c.name
            le.p("from", c.name)
            return True
        for o in order:
            if o == "sync":
                if r.chance(50):
                    fld, fe = self.field(Scope("anon", 0, NYD), 0, kind="int", unsigned=True)
                    if self.o.wire:
                        for k in ("validateMinLength", "serOffset", "defaultValue", "defaultValidValue", "failOnInvalid", "length", "scaling"):
                            fe.drop(k)
                        fe.setp("type", "uint16")
                        fld.type, fld.len, fld.off, fld.scal, fld.valid, fld.failInv = "uint16", 2, 0, (1, 1), [], False
                        fld.defv = r.rng(1, 65535)
                        fe.p("defaultValue", str(fld.defv), "num")
                    lay("sync", fld, fe, seek=False, esc=None, vbr=False, after=False, **{"from_": ""})
                else:
                    lay("sync", seek=False, esc=None, vbr=False, after=False, from_="", **ufield_sync(self, r))
            elif o == "size":
                lay("size", **ufield())
            elif o == "id":
                cand = [p for p, x in self.fields.items() if x.kind == "enum" and x.sem == "messageid"]
                if cand:
                    lay("id", path=r.pick(cand))
                else:
                    lay("id", **ufield())
            elif o == "payload":
                lay("payload")
            elif o == "custom":
                L, le = lay("custom", sem="custom", until="", from_="", **ufield())
            elif o == "checksum_until":
                L, le = lay("checksum", alg=None, calg="", from_="", until="", vbr=False, **self.csum_field(r))
                self.csum(L, le)
                L._want_until = True
            elif o == "checksum_from":
                L, le = lay("checksum", alg=None, calg="", from_="", until="", vbr=False, **self.csum_field(r))
                self.csum(L, le)
                if not suffix(L, le, ("size", "id", "value") if self.o.wire else ("size", "id", "value", "sync", "custom")):
                    f.layers.pop()
                    kids.pop()
                    continue
                self.flag(L, le, "vbr", "verifyBeforeRead", 25)
            elif o == "sync_after":
                L, le = lay("sync", seek=False, esc=None, vbr=False, after=True, from_="", **ufield_sync(self, r))
                if r.chance(50) and suffix(L, le, ("size", "id", "value", "sync")):
                    L.vbr = True
                    le.p("verifyBeforeRead", "true", "bool")
            else:
                _, it, i, fl = o
                same = sorted(x.ext for x in [it])
                # a field of the same kind as the interface field
                x = deref(fl)
                if fl.kind == "ref":
                    k = {"path": fl.field.ext} if fl.field.ext else None
                    if k is None:
                        continue
                    fld = None
                else:
                    fe = fl._e.copy()
                    for pn in ("sinceVersion", "semanticType", "validateMinLength"):
                        fe.drop(pn)
                    fld = clone(fl)
                    fld.sem = "none"
                    k = {"fld": fld, "fe": fe}
                L, le = lay("value", ifaces=[it.ext], fname=fl.name, fidx=i, pseudo=False, **k)
                le.p("interfaces", it.ext)
                le.p("interfaceFieldName", fl.name)
                self.flag(L, le, "pseudo", "pseudo", 12)
                self.used.add("valuelayer")
        for i, (L, le) in enumerate(zip(f.layers, kids)):
            if getattr(L, "_want_until", False):
                c = r.pick([x for x in f.layers[i + 1:] if not self.o.wire or x.kind == "payload"])
                L.until = c.name
                le.p("until", c.name)
        e.wrap = ("layers", kids, True)
        path = self.ns_path(ns, f.name)
        f.ext = path
        self.frames[path] = f
        self.node(ns).frames.append(f)
        self.decls.append((tuple(ns), "frame", e, path))
        self.used.add("frame")

    def csum_field(self, r):
        f, e = self.field(Scope("anon", 0, NYD), 0, kind="int", unsigned=True)
        if self.o.wire:
            for k in ("validateMinLength", "serOffset", "defaultValue", "defaultValidValue", "failOnInvalid", "length", "scaling"):
                e.drop(k)
            f.off, f.defv, f.failInv, f.valid, f.scal = 0, 0, False, [], (1, 1)
            f.type = r.pick(["uint16", "uint32", "uint8"])
            f.len = tlen(f.type)
            e.setp("type", f.type)
        return {"fld": f, "fe": e}

    def csum(self, L, le):
        r = self.r
        algs = [("sum", 1), ("crc-ccitt", 2), ("crc-16", 3), ("crc-32", 4), ("xor", 5), ("custom", 0)]
        a = r.pick(algs if not self.o.wire else algs[:5])
        if self.o.wire and L.field is not None:
            if L.field.len < {"crc-ccitt": 2, "crc-16": 2, "crc-32": 4}.get(a[0], 1):
                a = ("sum", 1)
        L.alg = a[1]
        le.p("alg", a[0], "kw")
        if a[0] == "custom":
            L.calg = self.name("MyAlg")
            le.p("algName", L.calg)

    # ------------------------------------------------------------------ whole schema
    def build(self):
        r, o = self.r, self.o
        self.V = max(o.minv, r.below(6)) if o.versions and r.chance(o.versionp) else 0
        self.endian = r.below(2) if r.chance(50) else 0
        self.nonUniq = False
        self.enumids = []
        self.nodes = {}
        self.root = F(ns=[])
        o.__dict__.setdefault("ambiguous_ns", False)
        s = F(name=self.name("Schema") if not self.schema_name else self.schema_name, displayName="", description="", id=0, version=self.V, dsl=0,
              endian=self.endian, nonUniqIds=False, xattrs={}, platforms=[], ns=self.root.ns)
        sp = E("schema").p("name", s.name)
        if self.V or r.chance(30):
            sp.p("version", str(self.V), "num")
        if self.endian or r.chance(50):
            sp.p("endian", ["little", "big"][self.endian], "kw")
        if r.chance(50):
            s.id = r.num(0, (1 << 32) - 1)
            sp.p("id", str(s.id), "num")
        if o.texts and r.chance(40):
            s.description = self.text()
            sp.p("description", s.description, "text")
        if o.texts and r.chance(20):
            s.displayName = self.text()
            sp.p("displayName", s.displayName, "text")
        if r.chance(o.nonuniqp):
            self.nonUniq = s.nonUniqIds = True
            sp.p("nonUniqueMsgIdAllowed", "true", "bool")
        self.schema, self.sprops = s, sp
        self.platforms = ["plat%d" % i for i in range(r.below(4))] if r.chance(o.platp) else []
        s.platforms = sorted(self.platforms)
        nss = [()]
        if o.nns or (o.nns is None and r.chance(55)):
            for i in range(o.nns or r.rng(1, 2)):
                n = self.pool([x[0] for x in nss if x]) if o.samenames and r.chance(60) else self.name("ns")
                nss.append((n,))
                if r.chance(30):
                    nss.append((n, self.pool([]) if o.samenames and r.chance(60) else self.name("sub")))
                    if r.chance(30):
                        nss.append(nss[-1] + (self.pool([]) if o.samenames and r.chance(60) else self.name("deep"),))
        if o.wire and len(nss) > 1 and r.chance(30):
            nss = nss[1:]
        self.nss = nss
        nf = r.rng(*o.nfields)
        for i in range(o.msgidenums if o.msgidenums is not None else 1 if r.chance(45) or o.wire else 0):
            f = self.ns_field(nss[0] if not i else r.pick(nss), kind="enum", sem="messageid", small=True)
            self.enumids += [("%s.%s" % (f.ext, v[0]), v[5]) for v in f.values]
        for i in range(nf):
            self.ns_field(r.pick(nss))
        if o.interfaces:
            for i in range(r.below(3) if not o.wire else 1):
                self.interface(r.pick(nss) if not o.wire else nss[0])
        for i in range(r.rng(*o.nmsgs)):
            if r.chance(15):
                self.ns_field(r.pick(nss))
            self.message(r.pick(nss))
        if o.frames:
            for i in range(r.below(3) if not o.wire else r.rng(1, 3) if o.framens else 1):
                self.frame(r.pick(nss[:2]) if not o.wire else r.pick(nss) if o.framens else nss[0])
        return self


def ufield_sync(b, r):
    fld, fe = b.field(Scope("anon", 0, NYD), 0, kind="int", unsigned=True)
    if b.o.wire:
        for k in ("validateMinLength", "serOffset", "defaultValue", "defaultValidValue", "failOnInvalid", "length", "scaling"):
            fe.drop(k)
        fe.setp("type", "uint8")
        fld.type, fld.len, fld.off, fld.scal, fld.valid, fld.failInv = "uint8", 1, 0, (1, 1), [], False
        fld.defv = r.rng(1, 255)
        fe.p("defaultValue", str(fld.defv), "num")
    return {"fld": fld, "fe": fe}


class NoRef(Exception):
    pass


def cond_names(c):
    out = set()
    for x in c.walk():
        for s in (x.l, x.r):
            if s.startswith("$"):
                out.add(s[1:].lstrip("?#").split(".")[0])
    return out


def deref(m):
    while m.kind == "ref":
        m = m.field
    return m


def fits32(v):
    if not math.isfinite(v):
        return True
    return abs(v) <= 3.4028234663852886e38


def same_fp(a, b):
    return a == b or (a != a and b != b)


def int_minmax(f):
    """the limits the library uses for open ended ranges"""
    lo, hi = brange(f.type, wbits(f))
    tlo, thi = trange(f.type)
    return max(lo - f.off, tlo), min(hi - f.off, thi)


# ------------------------------------------------------------------------------------------ schema documents
def section_doc(b, decls=None, merge=True, first=True):
    """One schema document with the given declarations, in order; consecutive ones of one namespace share their blocks."""
    e = b.sprops.copy() if first else E("schema").p("name", b.schema.name)
    if b.platforms and first:
        e.kids.append(E("platforms", kids=[E("platform").p("name", p) for p in b.platforms]))
    decls = b.decls if decls is None else decls
    tree = e
    cur_ns, cur_el = (), e
    open_wrap = None
    stack = [((), e)]
    for ns, sec, el, path in decls:
        # find the common ancestor
        while stack[-1][0] != ns[:len(stack[-1][0])] or (not merge and stack[-1][0] == ns and len(ns) > 0 and False):
            stack.pop()
            open_wrap = None
        while stack[-1][0] != ns:
            k = len(stack[-1][0])
            n = E("ns").p("name", ns[k])
            stack[-1][1].post.append(n)
            stack.append((ns[:k + 1], n))
            open_wrap = None
        host = stack[-1][1]
        wrap = {"fields": "fields", "message": "messages", "frame": "frames", "interface": "interfaces"}[sec]
        if sec != "fields" and not merge:
            host.post.append(el)
            open_wrap = None
            continue
        if open_wrap and open_wrap[0] is host and open_wrap[1] == wrap and merge:
            open_wrap[2].kids.append(el)
        else:
            w = E(wrap, kids=[el])
            host.post.append(w)
            open_wrap = (host, wrap, w)
    return e
