"""C10: declared values, validity rules, names and other static information of the classes generated by commsdsl2comms."""
import math
from ..harness import Check, Result, Violation, Skip, fingerprint
from .. import codec, gencheck, gencpp
from ..gencpp import acc, cls
from ..proto import deref

UNITS = ["Nanoseconds", "Microseconds", "Milliseconds", "Seconds", "Minutes", "Hours", "Days", "Weeks", "Nanometers", "Micrometers", "Millimeters",
         "Centimeters", "Meters", "Kilometers", "NanometersPerSecond", "MicrometersPerSecond", "MillimetersPerSecond", "CentimetersPerSecond",
         "MetersPerSecond", "KilometersPerSecond", "KilometersPerHour", "Hertz", "Kilohertz", "Megahertz", "Gigahertz", "Degrees", "Radians", "Nanoamps",
         "Microamps", "Milliamps", "Amps", "Kiloamps", "Nanovolts", "Microvolts", "Millivolts", "Volts", "Kilovolts", "Bytes", "Kilobytes", "Megabytes",
         "Gigabytes", "Terabytes"]


def shown(disp, name):
    return "" if disp == "_" else disp or name


def hx(s):
    return "x" + s.encode().hex()


def unhx(t):
    return None if t in ("null", "-") else bytes.fromhex(t[1:]).decode("utf-8", "replace")


# ------------------------------------------------------------------------------------------------- static information
class Info:
    """the answer of the command I"""

    def __init__(self, toks):
        self.t, self.p = toks, 0

    def next(self):
        self.p += 1
        return self.t[self.p - 1]

    def key(self, k):
        t = self.next()
        assert t == k, (t, k, self.t[max(0, self.p - 10):self.p + 5])

    def peek(self):
        return self.t[self.p]

    def value(self):
        self.next()
        return self.next()

    def node(self):
        d = {}
        self.key("{")
        self.key("name"); d["name"] = unhx(self.next())
        self.key("len"); d["len"] = self.next(), self.next()
        self.key("vd"); d["vd"] = self.next()
        while True:
            k = self.next()
            if k == "}":
                return d
            if k in ("int", "enum", "set", "float", "units", "dd", "doff"):
                d[k] = self.next()
            elif k == "sc":
                d[k] = int(self.next()), int(self.next())
            elif k == "sp":
                f = self.next()
                if f == "-":
                    d[k] = None
                else:
                    d[k] = [(self.value(), unhx(self.next())) for _ in range(int(self.next()))]
                    if (f == "1") != bool(d[k]):
                        d["sp-flag"] = f
            elif k == "en":
                d[k] = [(self.value(), unhx(self.next()), unhx(self.next())) for _ in range(int(self.next()))]
            elif k == "bits":
                d[k] = {}
                while True:
                    t = self.next()
                    if t in (".", "-"):
                        break
                    d[k][int(t)] = unhx(self.next())
            elif k in ("list", "optional"):
                d[k] = self.node() if self.peek() == "{" else None
            elif k in ("bundle", "bitfield"):
                d[k] = [self.node() for _ in range(int(self.next()))]
            elif k == "variant":
                d["names"] = []
                while not (self.peek().isdigit() and self.t[self.p + 1] in ("{", "}")):
                    d["names"].append(unhx(self.next()))
                d[k] = [self.node() for _ in range(int(self.next()))]
            else:
                assert k in ("string", "data"), (k, self.t[max(0, self.p - 10):self.p + 5])
                d[k] = True


class Wrong(Exception):
    pass


def same(what, got, want):
    if got != want:
        raise Wrong("%s is %r, must be %r" % (what, got, want))


def names_of(entries, enc=lambda v: str(v)):
    out = {}
    for x in entries:
        out.setdefault(enc(x[5]), set()).add(shown(x[4], x[0]))
    return out


def check_node(n, d, path, st, name=None):
    f = n.f
    name = shown(f.displayName, f.name) if name is None else name
    path = path + "." + f.name
    same("name of %s" % path, d["name"], name)
    if n.wrap:
        st["version-optional"] = st.get("version-optional", 0) + 1
        if "optional" not in d:
            raise Wrong("%s is not optional" % path)
        d = d["optional"]
        same("name of the field inside %s" % path, d["name"], name)
    while n.kind == "ref":
        n = n.sub
    f, k = n.f, n.kind
    st[k] = st.get(k, 0) + 1
    vt = {1: "1", 2: "2", 3: "4", 4: "4"}
    if k == "int":
        if "int" not in d:
            raise Wrong("%s is not a number" % path)
        want = (f.scal[0], f.scal[1])
        same("scaling of " + path, d["sc"], want)
        same("display offset of " + path, d.get("doff"), str(f.doff))
    if k in ("int", "float"):
        if k not in d:
            raise Wrong("%s is not %s" % (path, k))
        if k == "float":
            same("size of " + path, d["float"], "4" if f.type == "float" else "8")
        same("units of " + path, d["units"], UNITS[f.units - 1] if f.units else "-")
        same("display decimals of " + path, d["dd"], "-" if k == "int" and f.scal[0] == f.scal[1] else str(f.dd))
        enc = (lambda v: str(v)) if k == "int" else (lambda v: str(codec.fbits(v, f.type)))
        exp = names_of(f.specials, enc)
        for x in f.specials:
            exp[enc(x[5])].add(x[0])        # the generator names special values by their names
        check_named("special value", path, [(v, nm) for v, nm in d.get("sp") or []], exp)
        if exp:
            st["specials"] = st.get("specials", 0) + len(exp)
        if "sp-flag" in d:
            raise Wrong("hasSpecials() of %s returns %s" % (path, d["sp-flag"]))
    elif k == "enum":
        exp = names_of(f.__dict__.get("named", f.values))
        check_named("enum value", path, [(v, nm) for v, nm, _ in d["en"] if nm is not None], exp)
        for v, nm, vn in d["en"]:
            if nm is None and vn is not None or nm is not None and vn not in exp.get(v, set()):
                raise Wrong("%s: valueName(%s) is %r, must be one of %s" % (path, v, vn, sorted(exp.get(v, ()))))
    elif k == "set":
        exp = {}
        for b in f.bitsInfo:
            exp.setdefault(b[5], set()).add(shown(b[4], b[0]))
        res = {b[5] for b in f.bitsInfo if b[7]}
        for i in range(64):
            got = d["bits"].get(i)
            if got is None and i in exp and i not in res and "" not in exp[i] or got is not None and got not in exp.get(i, set()):
                raise Wrong("%s: name of the bit %d is %r, must be one of %s" % (path, i, got, sorted(exp.get(i, ()))))
    elif k == "list":
        if d.get("list") is not None:
            check_node(n.elem, d["list"], path, st)
    elif k in ("bundle", "bitfield"):
        if len(d.get(k, [])) != len(n.members):
            raise Wrong("%s does not have %d members" % (path, len(n.members)))
        for m, x in zip(n.members, d[k]):
            check_node(m, x, path, st)
    elif k == "optional":
        if "optional" not in d:
            raise Wrong("%s is not optional" % path)
        check_node(n.sub, d["optional"], path, st)
    elif k == "variant":
        same("number of members of " + path, len(d.get("variant", [])), len(n.members))
        if d["names"]:
            same("member names of " + path, d["names"][:len(n.members)], [shown(m.f.displayName, m.f.name) for m in n.members])
            same("name after the last member of " + path, d["names"][len(n.members)], None)
        for m, x in zip(n.members, d["variant"]):
            check_node(m, x, path, st)
    else:
        if k not in d:
            raise Wrong("%s is not %s" % (path, k))


def check_named(what, path, got, exp):
    for v, nm in got:
        if nm not in exp.get(v, set()):
            raise Wrong("%s: %s %s is named %r, must be one of %s" % (path, what, v, nm, sorted(exp.get(v, ()))))
    miss = set(exp) - {v for v, _ in got}
    if miss:
        raise Wrong("%s: no name of the %s %s" % (path, what, sorted(miss)[0]))


# ----------------------------------------------------------------------------------------------- functions of the values
PRE = "{ using namespace drv; "


class Probe:
    """statements which print what the functions of one message and of its fields tell, together with the expected tokens"""

    def __init__(self):
        self.code, self.want, self.n = [], [], 0

    def add(self, stmt, want, what):
        self.code.append(stmt)
        self.want.append((str(want), what))


def probe_node(p, n, ty, path):
    """ty: C++ type of the field"""
    path = path + "." + n.f.name
    T = "T%d" % p.n
    p.n += 1
    p.code.append("using %s = %s;" % (T, ty))
    if n.wrap:
        W = T
        T = "T%d" % p.n
        p.n += 1
        p.code.append("using %s = typename %s::Field;" % (T, W))
    while n.kind == "ref":
        n = n.sub
    f, k = n.f, n.kind
    if k == "int" or k == "float":
        num = (lambda v: "i %d" % v) if k == "int" else (lambda v: "f %s" % codec.fbits(v, f.type))
        for s in f.specials:
            c = cls(s[0])
            fixed = k == "int" and f.fixed
            if not fixed:
                p.add("{ %s f; f.set%s(); dump(f, o); }" % (T, c), num(s[5]), "%s: value after set%s()" % (path, c))
            p.add("{ %s f; f.forceValue(%s::value%s()); dump(f, o); }" % (T, T, c), num(s[5]), "%s: value%s()" % (path, c))
            p.add("{ %s f; f.forceValue(%s::value%s()); o << ' ' << f.is%s(); }" % (T, T, c, c), "1", "%s: is%s() of the special value" % (path, c))
            others = [x for x in f.specials if x[5] != s[5] and not (x[5] != x[5] and s[5] != s[5])]
            for x in others[:2]:
                p.add("{ %s f; f.forceValue(%s::value%s()); o << ' ' << f.is%s(); }" % (T, T, cls(x[0]), c), "0", "%s: is%s() of the special value %s" % (path, c, x[0]))
    elif k == "enum" and f.sem != "messageid":
        for x in f.__dict__.get("named", f.values):
            p.add("{ %s f; f.forceValue(%s::ValueType::%s); dump(f, o); }" % (T, T, x[0]), "i %d" % x[5], "%s: enumerator %s" % (path, x[0]))
    elif k == "set":
        for b in f.bitsInfo:
            if b[7]:
                continue
            a = b[0]
            p.add("o << ' ' << static_cast<unsigned>(%s::BitIdx_%s);" % (T, a), b[5], "%s: position of the bit %s" % (path, a))
            p.add("{ %s f; f.setValue(0); f.setBitValue_%s(true); dump(f, o); }" % (T, a), "i %d" % (1 << b[5]), "%s: value after setBitValue_%s()" % (path, a))
            p.add("{ %s f; f.setValue(0); f.setBitValue_%s(true); o << ' ' << f.getBitValue_%s(); f.setBitValue_%s(false); o << f.getBitValue_%s(); }" % (T, a, a, a, a),
                  "10", "%s: getBitValue_%s()" % (path, a))
    elif k == "list":
        if n.elem is not None and not (n.elem.kind == "int" and deref(n.elem.f).len == 1 and False):
            p.code.append("if constexpr (requires { typename %s::ElementType; }) {" % T)
            probe_node(p, n.elem, "typename %s::ElementType" % T, path)
            p.code.append("}")
    elif k in ("bundle", "bitfield", "variant"):
        for i, m in enumerate(n.members):
            a = acc(m.f.name)
            p.add("o << ' ' << static_cast<unsigned>(%s::FieldIdx_%s);" % (T, a), i, "%s: index of the member %s" % (path, a))
            if k == "variant":
                p.add("{ %s f; f.reset(); f.initField_%s(); o << ' ' << f.currentField() << (static_cast<void*>(&f.accessField_%s()) == static_cast<void*>(&f.template accessField<%d>())); }" % (T, a, a, i),
                      "%d1" % i, "%s: selection of the member %s" % (path, a))
            else:
                p.add("{ %s f; o << ' ' << (static_cast<void*>(&f.field_%s()) == static_cast<void*>(&std::get<%d>(f.value()))); }" % (T, a, i), "1", "%s: member %s" % (path, a))
            probe_node(p, m, "std::tuple_element_t<%d, typename %s::%s>" % (i, T, "Members" if k == "variant" else "ValueType"), path)
        if k == "bundle":
            for al in getattr(f, "aliases", None) or []:
                probe_alias(p, al, T, n.members, path)
    elif k == "optional":
        probe_node(p, n.sub, "typename %s::Field" % T, path)


def probe_alias(p, al, T, nodes, path):
    """alias of one of the fields"""
    name, target = al["name"], al["field"]
    parts = target.lstrip("$").split(".")
    expr, cur = "f", nodes
    for i, x in enumerate(parts):
        n = next((y for y in cur if y.f.name == x), None)
        if n is None:
            return
        expr += ".field_%s()" % acc(x)
        if i + 1 < len(parts):
            if n.wrap or n.kind not in ("bundle", "bitfield"):
                return
            cur = n.members
    p.add("{ %s f; o << ' ' << (static_cast<const void*>(&f.field_%s()) == static_cast<const void*>(&%s)); }" % (T, acc(name), expr), "1", "%s: alias %s of %s" % (path, name, target))


def probes(c):
    """one table per message"""
    c.probes = []
    for i, M in enumerate(c.msgs):
        p = Probe()
        p.code.append("using M = M%d;" % i)
        for j, n in enumerate(M.nodes):
            a = acc(n.f.name)
            p.add("o << ' ' << static_cast<unsigned>(M::FieldIdx_%s);" % a, j, "index of the field %s" % a)
            p.add("{ M m; o << ' ' << (static_cast<void*>(&m.field_%s()) == static_cast<void*>(&std::get<%d>(m.fields()))); }" % (a, j), "1", "field %s" % a)
            probe_node(p, n, "std::tuple_element_t<%d, typename M::AllFields>" % j, c.paths[i])
        for j, n in enumerate(c.cc.ifields):
            a = acc(n.f.name)
            p.add("{ M m; o << ' ' << (static_cast<void*>(&m.transportField_%s()) == static_cast<void*>(&std::get<%d>(m.transportFields()))); }" % (a, j), "1", "transport field %s" % a)
        for al in getattr(M.m, "aliases", None) or []:
            probe_alias(p, al, "M", M.nodes, c.paths[i])
        c.probes.append(p)
    # the code depends on types known to be dependent for `if constexpr` only inside of a template
    return [{"inc": [], "code": "[&]<class M%d>(M%d*) { using namespace drv; %s }(static_cast<::M%d*>(nullptr));" %
             (i, i, "\n".join(p.code), i)} for i, p in enumerate(c.probes)]


# ------------------------------------------------------------------------------------------------------------ the check
def case(r, ctx, per=10, **kw):
    c = gencheck.Case(r, ctx, tables=probes, **{**dict(verfield=True), **kw})
    st, lines, exp = {}, [], []

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for mi, M in enumerate(c.msgs):
        lines += ["m %d I" % mi, "m %d D" % mi, "t %d" % mi]
        exp += [("I", mi), ("D", mi), ("t", mi)]
        for k in range(per):
            tv = M.gen_transport(r)
            for good in (True, False):
                v = M.gen(r, tv, good)
                if v is None:
                    continue
                head = "T" + M.ttoks(tv)
                try:
                    ok = M.valid(v, tv)
                    enc = M.encode(v, tv)
                except codec.Discard:
                    count("value:not decided")
                    continue
                lines.append("m %d W %s%s" % (mi, head, M.toks(v)))
                exp.append(("W", mi, ok, None))
                count("value:valid" if ok else "value:invalid")
                for q in [enc, gencheck.tweak(r, enc)]:
                    try:
                        res = M.decode(q, tv)
                        want = M.valid(res[1], tv) if res[0] == 0 else None
                    except codec.Discard:
                        continue
                    lines.append("m %d R %s x%s" % (mi, head, q.hex()))
                    exp.append(("R", mi, want, res[0]))
                    count("read:refused" if want is None else "read:valid" if want else "read:invalid")
    out = c.run(lines)
    for l, o, e in zip(lines, out, exp):
        cmd, mi = e[:2]
        M, p = c.msgs[mi], c.paths[mi]
        if cmd == "I":
            t = o.split()
            m = M.m
            try:
                same("id of " + p, int(t[1]), m.id)
                same("name of " + p, unhx(t[3]), shown(m.displayName, m.name))
                assert t[7] == "fields", o
                it = Info(t[8:])
                same("number of fields of " + p, int(it.next()), len(M.nodes))
                for n in M.nodes:
                    check_node(n, it.node(), p, st)
            except Wrong as w:
                c.fail("message %s: %s" % (p, w), "info", answer=o)
        elif cmd == "D":
            head, _, rest = o.partition(" b ")
            t = head.split()
            if int(t[1]) != M.m.id or unhx(t[3]) != shown(M.m.displayName, M.m.name):
                c.fail("message %s: id and name are %s" % (p, head), "idname")
            try:
                tv = M.transport_default()
            except codec.Discard:
                continue
            try:
                v = M.default(tv)
                want = M.state(v, tv).split()
                full = True
            except codec.Discard:
                try:        # what a default constructed field holds is known, whether it is valid or can be encoded is not
                    want = (M.toks(v) + " T" + M.ttoks(tv)).split()
                    full = False
                except codec.Discard:
                    continue
            got = ("b " + rest).partition(" R ")[0].split()
            count("default")
            if not full:
                got = got[:got.index("S")]
            if got != want:
                c.fail("message %s: default constructed is\n %s, must be\n %s" % (p, " ".join(got), " ".join(want)), "default", answer=o)
        elif cmd == "t":
            pr = c.probes[mi]
            want = " ".join(w for w, _ in pr.want).split()
            got = o.split()
            count("function results", len(pr.want))
            if got != want:
                pos = 0
                for w, what in pr.want:
                    w = w.split()
                    if got[pos:pos + len(w)] != w:
                        c.fail("message %s: %s gives %s, must be %s" % (p, what, got[pos:pos + len(w)], w), "function", answer=o)
                    pos += len(w)
                c.fail("message %s: more values than expected" % p, "function", answer=o)
        else:
            t = o.split()
            if cmd == "R":
                k = gencheck.kind_of(int(t[0]))
                if k != gencheck.kind_of(e[3]):
                    c.fail("message %s: read reports %s, must be %s" % (p, k, gencheck.kind_of(e[3])), "refuse", command=l, answer=o)
                if k != "ok":
                    continue
            got = t[t.index("S") + 1]
            if got != str(int(e[2])):
                c.fail("message %s: valid() is %s, must be %s" % (p, got, int(e[2])), "valid", command=l, answer=o)
    nontrivial = st.get("value:valid", 0) >= 4 and (st.get("value:invalid", 0) >= 1 or st.get("read:refused", 0) >= 1)
    return Result(fingerprint(c.text), nontrivial, c.kinds() + list(st.items()), {"schema": c.text, "commands": lines[:6], "answers": out[:6]})


VALUES = ["int", "enum", "set", "float", "string", "data", "bitfield", "ref"]

CHECK = Check("C10", [
    ("mixed", lambda r, c: case(r, c), 80, 6000),
    ("values", lambda r, c: case(r, c, depth=2, nfields=(5, 10), kinds=VALUES), 70, 6000),
    ("versions", lambda r, c: case(r, c, versionp=85, vcv=40, subver=40), 60, 6000),
    ("composed", lambda r, c: case(r, c, depth=4, nfields=(2, 4), kinds=["int", "enum", "set", "bundle", "optional", "variant", "ref", "list", "bitfield"]), 50, 4000),
], "a schema with at least 4 valid and some invalid or refused messages",
    setup=gencpp.setup, quick_s=420,
    assumptions=["the generated code is compiled against cpp/minicomms, a stand-in of the COMMS library written for this check (the library itself is not available here)",
                 "expected values come from vt/codec.py, an independent model of the schema"])
