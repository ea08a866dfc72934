"""C06: one rule of the language is broken somewhere in a valid schema: it must be refused, the error naming the place;
the schema without the violation is accepted."""
import re
from ..common import *
from ..etree import E
from ..harness import Check
from .. import apps

FIELDS = ["int", "enum", "set", "float", "string", "data", "list", "bundle", "bitfield", "optional", "variant", "ref"]
NAMED = FIELDS + ["message", "interface", "frame", "alias", "bit", "special", "sync", "size", "id", "value", "payload", "checksum", "custom", "ns"]
LAYERS = ["sync", "size", "id", "value", "payload", "checksum", "custom"]
WRAPS = {"fields", "members", "layers", "messages", "interfaces", "frames", "ns", "schema", "platforms", "message", "interface", "frame"}


class N:
    """element with its place in the document"""
    def __init__(self, e, lst, i, anc):
        self.e, self.lst, self.i, self.anc = e, lst, i, anc

    @property
    def parent(self):
        return self.anc[-1] if self.anc else None


def nodes(doc):
    out = []
    def go(e, anc):
        for lst in [e.kids] + ([e.wrap[1]] if e.wrap else []) + [e.post]:
            for i, k in enumerate(lst):
                out.append(N(k, lst, i, anc + [e]))
                go(k, anc + [e])
    go(doc, [])
    return out


def is_decl(n):
    return n.e.tag in FIELDS + ["message", "interface", "frame"] and n.parent is not None and n.parent.tag in ("fields", "messages", "interfaces", "frames", "ns", "schema") \
        and not any(a.tag in ("message", "interface", "frame") for a in n.anc)


def in_replace(n):
    return any(a.tag == "replace" for a in n.anc)


def children(e):
    return e.kids + (e.wrap[1] if e.wrap else []) + e.post


OPS = []


def op(weight=10):
    def deco(f):
        OPS.append((weight, f))
        return f
    return deco


class Doc:
    def __init__(self, r, b, doc):
        self.r, self.b, self.doc = r, b, doc
        self.nodes = nodes(doc)
        self.at = None              # the node which breaks the rule

    def sel(self, pred):
        c = [n for n in self.nodes if pred(n)]
        if not c:
            return None
        # equal chance for every kind of element
        k = self.r.pick(sorted({n.e.tag for n in c}))
        n = self.r.pick([x for x in c if x.e.tag == k])
        self.at = n
        return n

    def fields(self, *kinds):
        return [n for n in self.nodes if n.e.tag in (kinds or FIELDS)]


# ---- values of properties
BAD = {
    "num": ["abc!", "1x", "--1", "0x", "1 2", "99999999999999999999999", "1;", "-"],
    "bool": ["maybe", "2", "truee", "-1", "yes"],
    "kw": ["bogus_kw", "1", "true", "-"],
    "unit": ["parsec", "1", "-"],
    "hex": ["0g", "abc", "zz", "12 3"],
}


@op(40)
def malformed(d):
    """malformed value of a property"""
    r = d.r
    c = {}
    for n in d.nodes + [N(d.doc, None, 0, [])]:
        for q in n.e.props:
            if q[2] in BAD and not q[0].startswith("xt_"):
                c.setdefault((n.e.tag, q[0]), []).append((n, q))
    if not c:
        return None
    k = r.pick(sorted(c))
    n, q = r.pick(c[k])
    d.at = n
    v = r.pick(BAD[q[2]])
    if q[2] == "kw" and q[0] == "semanticType" and v == "1":
        v = "bogus"
    q[1], q[2] = v, "raw"
    return "%s=\"%s\" of <%s>" % (q[0], v, n.e.tag)


@op(10)
def floats(d):
    c = [(n, q) for n in d.nodes for q in n.e.props if (n.e.tag == "float" and q[0] in ("defaultValue", "validMin", "validMax", "validRange", "validValue"))
         or (n.e.tag in ("special",) and q[0] == "val" and n.parent.tag == "float")]
    if not c:
        return None
    n, q = d.r.pick(c)
    d.at = n
    q[1] = d.r.pick(["abc!", "1.5.5", "1e", "0,5", "1.5x", "[1", "1e999"])
    return "%s=\"%s\" of <%s> of float" % (q[0], q[1], n.e.tag)


@op(25)
def twice(d):
    """the same property given twice"""
    skip = ("validRange", "validValue", "validMin", "validMax", "interfaces", "platforms", "value", "meta", "platform")
    c = {}
    for n in d.nodes + [N(d.doc, None, 0, [])]:
        for q in n.e.props:
            if q[0] in skip or q[0].startswith("xt_") or n.e.tag in ("platform",):
                continue
            c.setdefault((n.e.tag, q[0]), []).append((n, q))
    if not c:
        return None
    k = d.r.pick(sorted(c))
    n, q = d.r.pick(c[k])
    d.at = n
    n.e.kids.insert(0, E(q[0]).p("value", q[1]))
    return "%s of <%s> given twice" % (q[0], n.e.tag)


# ---- names
@op(15)
def bad_name(d):
    n = d.sel(lambda n: n.e.tag in NAMED and n.e.get("name"))
    if not n:
        return None
    v = d.r.pick(["1abc", "a-b", "a b", "9", "a.b", "$a", "a,b", "ä", "a:", "@a", "class!"])
    n.e.setp("name", v)
    return "name=\"%s\" of <%s>" % (v, n.e.tag)


@op(15)
def no_name(d):
    n = d.sel(lambda n: n.e.tag in NAMED and n.e.get("name") and not n.e.has("reuse") and not nameless(n))
    if not n:
        return None
    n.e.drop("name")
    return "<%s> without a name" % n.e.tag


def nameless(n):
    """the name is taken from elsewhere"""
    return n.e.tag == "ref"


@op(25)
def same_name(d):
    """two siblings of one name"""
    groups = {}
    for n in d.nodes:
        if n.e.tag in NAMED and n.e.get("name") and n.e.tag != "ns":
            if n.e.tag in FIELDS:
                k = "f"
            elif n.e.tag in LAYERS and not n.e.tag in FIELDS:
                k = "l"
            else:
                k = n.e.tag
            if n.e.tag == "alias":
                k = "f"
            if n.parent.tag in ("fields", "messages", "interfaces", "frames") and not any(a.tag in ("message", "interface") for a in n.anc):
                key = (id(n.anc[-2]) if len(n.anc) > 1 else 0, k)
            elif n.parent.tag in ("element", "field", "lengthPrefix", "countPrefix", "elemLengthPrefix", "termSuffix", "replace"):
                continue
            elif k == "f":
                # own fields of the holder only, not the ones nested in its lists and optionals
                holder = n.anc[-2] if n.parent.tag in ("members", "fields") else n.parent
                if holder.tag not in ("bundle", "bitfield", "variant", "message", "interface"):
                    continue
                key = (id(holder), k)
            else:
                key = (id(n.parent), k)
            groups.setdefault(key, []).append(n)
    g = [v for k, v in sorted(groups.items(), key=lambda x: x[1][0].e.tag) if len(v) > 1]
    if not g:
        return None
    tags = sorted({v[0].e.tag + "/" + v[0].parent.tag for v in g})
    t = d.r.pick(tags)
    v = d.r.pick([x for x in g if x[0].e.tag + "/" + x[0].parent.tag == t])
    i = d.r.below(len(v) - 1)
    j = d.r.rng(i + 1, len(v) - 1)
    d.at = v[j]
    nm = v[i].e.get("name")
    v[j].e.setp("name", nm)
    return "two of the name %s in <%s>" % (nm, v[j].parent.tag)


# ---- missing things
MANDATORY = {"int": ["type"], "float": ["type"], "enum": ["type"], "ref": ["field"], "alias": ["field"], "bit": ["idx"], "special": ["val"], "checksum": ["alg"],
             "message": ["id"], "value": ["interfaceFieldName"]}


@op(20)
def missing(d):
    c = [(n, p) for n in d.nodes for p in MANDATORY.get(n.e.tag, []) + (["val"] if n.e.tag == "validValue" and n.parent.tag == "enum" else [])
         if n.e.has(p) and not n.e.has("reuse") and not (n.e.tag == "value" and n.parent.tag != "layers" and n.parent.tag != "frame")]
    if not c:
        return None
    k = d.r.pick(sorted({(n.e.tag, p) for n, p in c}))
    n, p = d.r.pick([x for x in c if (x[0].e.tag, x[1]) == k])
    d.at = n
    n.e.drop(p)
    return "<%s> without %s" % (n.e.tag, p)


@op(12)
def no_content(d):
    """element of a list, field of an optional, members, values, payload removed"""
    def pred(n):
        e = n.e
        if e.has("reuse") or e.has("copyFieldsFrom"):
            return False
        return e.tag in ("list", "optional", "bundle", "bitfield", "enum", "id", "size", "sync", "checksum", "frame") and not (e.tag == "value")
    n = d.sel(pred)
    if not n:
        return None
    e = n.e
    if e.wrap and e.wrap[0] in ("element", "field"):
        e.wrap = None
    if e.tag == "list":
        e.drop("element")
        e.kids = [k for k in e.kids if k.tag != "element" and k.tag not in FIELDS]
        if any(k.tag == "element" for k in children(e)):
            return None
    elif e.tag in ("optional", "id", "size", "sync", "checksum"):
        e.drop("field")
        e.kids = [k for k in e.kids if k.tag != "field" and k.tag not in FIELDS]
        if any(k.tag in FIELDS or k.tag == "field" for k in children(e)):
            return None
    elif e.tag in ("bundle", "bitfield"):
        e.wrap = (e.wrap[0], [], e.wrap[2]) if e.wrap else None
        e.post = []
        e.kids = [k for k in e.kids if k.tag not in FIELDS and k.tag != "members"]
    elif e.tag == "enum":
        e.kids = [k for k in e.kids if k.tag != "validValue"]
        e.post = [k for k in e.post if k.tag != "validValue"]
    else:
        for lst in [e.kids, e.wrap[1] if e.wrap else [], e.post]:
            lst[:] = [k for k in lst if k.tag != "payload"]
            for k in lst:
                if k.tag == "layers":
                    k.kids = [x for x in k.kids if x.tag != "payload"]
    return "<%s> without its content" % e.tag


# ---- references
REFS = {"ref": ["field"], "optional": ["field"], "list": ["element", "countPrefix", "lengthPrefix", "elemLengthPrefix", "termSuffix"], "string": ["lengthPrefix"], "data": ["lengthPrefix"],
        "alias": ["field"], "message": ["copyFieldsFrom"], "interface": ["copyFieldsFrom"], "id": ["field"], "size": ["field"], "value": ["field"], "custom": ["field"], "checksum": ["field", "from", "until"],
        "sync": ["field"]}


@op(25)
def dangling(d):
    c = []
    for n in d.nodes:
        for p in REFS.get(n.e.tag, []) + (["reuse"] if n.e.tag in FIELDS + ["message", "interface"] else []) + (["interfaces"] if n.e.tag == "value" else []):
            if n.e.has(p):
                c.append((n, p))
    if not c:
        return None
    k = d.r.pick(sorted({(n.e.tag, p) for n, p in c}))
    n, p = d.r.pick([x for x in c if (x[0].e.tag, x[1]) == k])
    d.at = n
    old = n.e.get(p)
    names = [x.e.get("name") for x in d.nodes if x.e.tag in NAMED and x.e.get("name")]
    v = d.r.pick(["No_such", "No_such.thing", "@No_schema.thing", "@" + d.b.schema.name + ".No_such", old + "_no", old + ".", old + "..x", "." + old, "@", "$No_such", "@" + d.b.schema.name,
                  "^" + old, old + ".No_such", old.rpartition(".")[0] + ".No_such", "1" + old, old + "," if p != "interfaces" else ",", old[:-1] + "#"])
    if v in names:
        return None
    n.e.setp(p, v)
    return "%s=\"%s\" of <%s>" % (p, v, n.e.tag)


def paths(d, what):
    """full paths of the declarations of the document, in order"""
    out = []
    for n in d.nodes:
        if is_decl(n) and n.e.tag in what and n.e.get("name"):
            p = [a.get("name") for a in n.anc if a.tag == "ns"]
            out.append((".".join(p + [n.e.get("name")]), n))
    return out


@op(20)
def wrong_kind(d):
    """reference to an element of an unsuitable kind"""
    c = []
    for n in d.nodes:
        if n.e.has("reuse"):
            c.append((n, "reuse"))
        if n.e.tag == "message" and n.e.has("copyFieldsFrom"):
            c.append((n, "copyFieldsFrom"))
        if n.e.tag in ("list", "string", "data"):
            for p in ("lengthPrefix", "countPrefix"):
                if n.e.has(p) and not n.e.get(p).startswith("$"):
                    c.append((n, p))
        if n.e.tag in ("ref", "optional", "list"):
            for p in ("field", "element"):
                if n.e.has(p):
                    c.append((n, p))
    if not c:
        return None
    n, p = d.r.pick(c)
    d.at = n
    here = d.nodes.index(n)
    before = [x for x in d.nodes[:here] if is_decl(x)]
    ps = paths(d, FIELDS + ["message", "interface", "frame"])
    if p == "reuse":
        bad = [q for q, x in ps if x.e.tag != n.e.tag]
    elif p == "copyFieldsFrom":
        bad = [q for q, x in ps if x.e.tag not in ("message", "interface", "bundle", "ref")]
    elif p in ("lengthPrefix", "countPrefix"):
        bad = [q for q, x in ps if x.e.tag in ("list", "string", "data", "float", "message", "interface", "frame", "variant", "bitfield")]
    else:
        bad = [q for q, x in ps if x.e.tag in ("message", "interface", "frame")]
    others = {q for q, x in ps if q not in bad}
    bad = [q for q in bad if q not in others]
    if not bad:
        return None
    v = d.r.pick(bad)
    n.e.setp(p, v)
    return "%s of <%s> refers %s" % (p, n.e.tag, v)


@op(15)
def forward(d):
    """a global field refers to itself or to one defined later"""
    ps = paths(d, FIELDS)
    if not ps:
        return None
    i = d.r.below(len(ps))
    j = d.r.rng(i, len(ps) - 1)
    if len([1 for q, x in ps if q == ps[j][0]]) > 1:
        return None
    p, n = ps[i]
    d.at = n
    e = n.e
    n.lst[n.i] = x = d.r.pick([E("ref").p("name", e.get("name") or "Zq").p("field", ps[j][0]),
                               E(ps[j][1].e.tag).p("name", e.get("name") or "Zq").p("reuse", ps[j][0]),
                               E("list").p("name", e.get("name") or "Zq").p("element", ps[j][0]).p("count", "2"),
                               E("optional").p("name", e.get("name") or "Zq").p("field", ps[j][0])])
    d.mark = x
    return "<%s> referring to %s element" % (x.tag, "itself" if i == j else "a later defined")


# ---- numbers and types
@op(25)
def numbers(d):
    """values which do not fit"""
    r = d.r
    c = []
    for n in d.nodes:
        e = n.e
        if e.has("reuse"):
            continue
        if e.tag in ("int", "enum") and e.has("type"):
            c.append((n, "length"))
            if e.tag == "enum" or n.parent.tag in ("members", "bitfield"):
                c.append((n, "value"))
            c.append((n, "default"))
            if any(a.tag == "bitfield" for a in n.anc[-2:]):
                c.append((n, "bits"))
        if e.tag == "set":
            c.append((n, "bitidx"))
            c.append((n, "setlen"))
        if e.tag == "int":
            c += [(n, "scaling"), (n, "range"), (n, "special"), (n, "decimals")]
        if e.tag == "variant":
            c.append((n, "member"))
        if e.tag == "schema":
            c.append((n, "version"))
    if not c:
        return None
    k = r.pick(sorted({x[1] for x in c}))
    n, k = r.pick([x for x in c if x[1] == k])
    d.at = n
    e = n.e
    t = (e.get("type") or "").lower()
    big = {"int8": 1 << 7, "uint8": 1 << 8, "int16": 1 << 15, "uint16": 1 << 16, "int32": 1 << 31, "uint32": 1 << 32, "int64": 1 << 63, "uint64": 1 << 64, "intvar": 1 << 63, "uintvar": 1 << 64}.get(t, 1 << 64)
    size = {"int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "int64": 8, "uint64": 8, "intvar": 10, "uintvar": 10}.get(t, 0)
    over = str(r.pick([big, big + 1, -big - 1, -big * 2, 1 << 64, big * 16])) if size else "0"
    if k == "length":
        e.setp("length", r.pick(["0", str(size + 1), "300", "-1"]))
    elif k == "value":
        if e.tag == "enum":
            e.kids.append(E("validValue").p("name", "Zq_v").p("val", over))
        else:
            e.kids.append(E("special").p("name", "Zq_v").p("val", over))
    elif k == "default":
        e.setp("defaultValue", over)
    elif k == "bits":
        e.setp("bitLength", r.pick(["0", str(8 * size + 1), "65", "-3", "128"]))
    elif k == "bitidx":
        i = r.pick([64, 65, 1000, 4294967295, 4294967296, -1, 255])
        e.kids.append(E("bit").p("name", "Zq_b").p("idx", str(i)))
    elif k == "setlen":
        e.setp("length", r.pick(["9", "0", "-1", "4294967296", "100"]))
    elif k == "scaling":
        e.setp("scaling", r.pick(["1/0", "0/1", "0", "1/", "/1", "1/2/3", "a/b", "1.5", "1 /x"]))
    elif k == "range":
        lo = r.rng(1, 20)
        e.kids.append(E("validRange").p("value", r.pick(["[%d, %d]" % (lo + 1, lo), "[%d %d]" % (lo, lo + 1), "%d, %d" % (lo, lo + 1), "[%d, %d" % (lo, lo + 1), "[,]", "[]", "[1,2,3]", "[a,b]", "[0, %d]" % (1 << 64)])))
    elif k == "special":
        e.kids.append(E("special").p("name", r.pick(["Zq_s", "Zq_s"])).p("val", r.pick(["", "zz.yy", "1x"]) or "x y"))
    elif k == "decimals":
        e.setp("displayDecimals", r.pick(["-1", "x", "4294967296", "1.5"]))
    elif k == "member":
        e.setp("defaultMember", r.pick([str(r.pick([100, 1000, 4294967296, 1 << 63])), "No_such", "1x"]))
    e.props = [[a, v, "raw" if a in ("length", "bitLength", "defaultValue", "displayDecimals", "scaling", "defaultMember") else q] for a, v, q in e.props]
    return "%s of <%s type=\"%s\">" % (k, e.tag, t)


@op(12)
def duplicates(d):
    """values which must be unique"""
    r = d.r
    c = []
    for n in d.nodes:
        e = n.e
        if e.tag == "enum" and e.get("nonUniqueAllowed") in (None, "false", "0") and not e.has("reuse"):
            vs = [k for k in e.kids if k.tag == "validValue"]
            if vs:
                c.append((n, vs, "validValue", "val"))
        if e.tag == "set" and e.get("nonUniqueAllowed") in (None, "false", "0") and not e.has("reuse"):
            vs = [k for k in e.kids if k.tag == "bit"]
            if vs:
                c.append((n, vs, "bit", "idx"))
        if e.tag == "int" and e.get("nonUniqueSpecialsAllowed") in (None, "false", "0") and not e.has("reuse"):
            vs = [k for k in e.kids if k.tag == "special"]
            if vs:
                c.append((n, vs, "special", "val"))
    if not c:
        return None
    n, vs, tag, p = r.pick(c)
    d.at = n
    n.e.kids.append(E(tag).p("name", "Zq_d").p(p, r.pick(vs).get(p)))
    return "repeated %s of <%s>" % (p, n.e.tag)


@op(40)
def versions(d):
    r = d.r
    V = d.b.V
    num = lambda e, p: int(str(e.get(p)), 0) if e.get(p) is not None else None
    hold = lambda n: [a for a in n.anc if a.tag in ("message", "bundle")]
    def ok(n):
        return n.e.tag in FIELDS + ["message", "validValue", "special", "bit"] and any(a.tag in ("message", "bundle") for a in n.anc + [n.e]) and n.parent.tag not in (
            "lengthPrefix", "countPrefix", "elemLengthPrefix", "termSuffix", "element", "field") and (n.e.tag != "bit" or n.e.get("reserved") is None) and (n.e.tag != "validValue" or n.parent.tag == "enum")
    low = lambda n: max([num(a, "sinceVersion") or 0 for a in hold(n)] or [0])
    deps = lambda n: [num(a, "deprecated") for a in hold(n) if a.get("deprecated") is not None]
    k = r.below(6)
    n = d.sel({3: lambda n: ok(n) and n.e.tag != "message" and low(n) > 0, 4: lambda n: ok(n) and n.e.tag != "message" and bool(deps(n)),
               5: lambda n: ok(n) and n.e.tag != "message" and bool(deps(n)) and min(deps(n)) < V}.get(k, ok))
    if not n:
        return None
    e = n.e
    lo = low(n)
    if k == 0:
        e.setp("sinceVersion", str(V + r.rng(1, 3)))
        e.drop("deprecated")
        e.drop("removed")
    elif k == 1:
        e.setp("deprecated", str(V + r.rng(1, 3)))
    elif k == 2:
        s = r.rng(lo, V)
        e.setp("sinceVersion", str(s))
        e.setp("deprecated", str(r.rng(0, s)))
    elif k == 3:
        # before the holder exists
        e.setp("sinceVersion", str(r.below(lo)))
        e.drop("deprecated")
        e.drop("removed")
    elif k == 4:
        # when the holder is gone already
        e.setp("sinceVersion", str(r.rng(min(deps(n)), V)))
        e.drop("deprecated")
        e.drop("removed")
    else:
        # deprecated after the holder is
        dp = min(deps(n))
        if r.chance(70):
            e.setp("sinceVersion", str(r.rng(lo, dp - 1)))
        e.setp("deprecated", str(r.rng(dp + 1, V)))
    return "version %d of <%s>" % (k, e.tag)


# ---- combinations
@op(15)
def exclusive(d):
    r = d.r
    n = d.sel(lambda n: n.e.tag in ("string", "data", "list") and not n.e.has("reuse"))
    if not n:
        return None
    e = n.e
    has_pre = lambda p: e.has(p) or any(k.tag == p for k in children(e))
    pre = lambda p: E(p, kids=[E("int").p("name", "Zq_p").p("type", "uint8")])
    if e.tag == "string":
        if e.has("length"):
            if r.chance(50):
                e.setp("zeroTermSuffix", "true")
            else:
                if has_pre("lengthPrefix"):
                    return None
                e.kids.append(pre("lengthPrefix"))
        elif has_pre("lengthPrefix"):
            if r.chance(50):
                e.setp("length", "5")
            else:
                e.setp("zeroTermSuffix", "true")
        elif e.get("zeroTermSuffix") in ("true", "1"):
            if r.chance(50):
                e.setp("length", "5")
            else:
                e.kids.append(pre("lengthPrefix"))
        else:
            return None
    elif e.tag == "data":
        if e.has("length") and not has_pre("lengthPrefix"):
            e.kids.append(pre("lengthPrefix"))
        elif has_pre("lengthPrefix"):
            e.setp("length", "5")
        else:
            return None
    else:
        have = [p for p in ("count", "countPrefix", "lengthPrefix", "termSuffix") if has_pre(p)]
        if not have:
            return None
        x = r.pick([p for p in ("count", "countPrefix", "lengthPrefix", "termSuffix") if p not in have])
        if x == "count":
            e.p("count", "3")
        else:
            e.kids.append(pre(x))
    return "exclusive properties of <%s>" % e.tag


@op(12)
def bitfield(d):
    r = d.r
    n = d.sel(lambda n: n.e.tag == "bitfield" and not n.e.has("reuse") and not in_replace(n))
    if not n:
        return None
    ms = n.e.wrap[1] if n.e.wrap else None
    if not ms:
        return None
    k = r.below(4)
    at = r.below(len(ms) + 1)
    if k == 0:
        ms.insert(at, E("int").p("name", "Zq_m").p("type", "uint8").p("bitLength", str(r.rng(1, 7))))
    elif k == 1:
        ms.insert(at, r.pick([E("float").p("type", "float"), E("string").p("length", "1"), E("data").p("length", "1"), E("bundle"), E("list").p("count", "1")]).p("name", "Zq_m"))
    elif k == 2:
        for i in range(8):
            ms.append(E("int").p("name", "Zq_m%d" % i).p("type", "uint8").p("bitLength", "8"))
    else:
        m = r.pick(ms)
        if m.tag not in ("int", "enum", "set") or m.has("reuse"):
            return None
        if d.b.V == 0 or n.e.get("sinceVersion") == str(d.b.V) or any(a.get("sinceVersion") not in (None, "0") for a in n.anc):
            return None
        m.setp("sinceVersion", str(d.b.V))
    return "bitfield %s" % ["not of whole bytes", "with an unsuitable member", "too big", "with a versioned member"][k]


@op(20)
def conditions(d):
    r = d.r
    bad = ["$No_such=1", "$No_such", "%No_such=1", "$", "=1", "$a=", "No_such=1", "1=1", "true", "!", "!No_such", "$No_such.x!=$No_such", "$x==", "", ">", "a>b"]
    c = []
    for n in d.nodes:
        if n.e.tag == "optional" and any(a.tag in ("message", "bundle") for a in n.anc) and not n.e.has("reuse") and n.parent.tag in ("members", "fields", "message", "bundle"):
            c.append((n, "cond"))
        if n.e.tag == "bundle" and not n.e.has("reuse"):
            c.append((n, "validCond"))
        if n.e.tag == "bitfield" and not n.e.has("reuse"):
            c.append((n, "validCond"))
        if n.e.tag == "message" and not n.e.has("reuse"):
            c += [(n, "validCond"), (n, "readCond"), (n, "construct")]
    if not c:
        return None
    n, p = r.pick(c)
    d.at = n
    e = n.e
    if e.has(p) or any(k.tag in (p, "and", "or") for k in children(e)):
        e.drop(p)
        for lst in (e.kids, e.post):
            lst[:] = [k for k in lst if k.tag not in (p, "and", "or")]
    m = r.below(4)
    if m == 0:
        x = E(r.pick(["and", "or"]), kids=[E(p).p("value", "$No_such=1"), E(p).p("value", "$No_such=2")])
        e.post.append(E(p, kids=[x]) if p != "cond" else x)
        w = "of unknown fields"
    elif m == 1:
        sib = [x for x in children(e)] if p != "cond" else []
        x = E(r.pick(["and", "or"]))
        if r.chance(50):
            x.kids.append(E(p).p("value", r.pick(bad) or "$No_such"))
        e.post.append(E(p, kids=[x]) if p != "cond" else x)
        w = "with less than two conditions"
    else:
        v = r.pick(bad) or "?"
        e.p(p, v)
        w = v
    return "%s %s of <%s>" % (p, w, e.tag)


@op(12)
def msg_ids(d):
    """two messages of the same id"""
    if d.b.schema.nonUniqIds:
        same_order = True
    else:
        same_order = False
    groups = {}
    for n in d.nodes:
        if n.e.tag == "message" and n.e.has("id"):
            top = [a.get("name") for a in n.anc if a.tag == "ns"]
            groups.setdefault(top[0] if top else "", []).append(n)
    g = [v for k, v in sorted(groups.items()) if len(v) > 1]
    if not g:
        return None
    v = d.r.pick(g)
    i = d.r.below(len(v) - 1)
    j = d.r.rng(i + 1, len(v) - 1)
    v[j].e.setp("id", v[i].e.get("id"))
    if same_order:
        for k in (i, j):
            v[k].e.setp("order", "0")
    d.at = None
    d.noline = True
    return "two messages of the same id%s" % (" and order" if same_order else "")


@op(15)
def frames(d):
    r = d.r
    n = d.sel(lambda n: n.e.tag == "frame" and n.e.wrap)
    if not n:
        return None
    ls = n.e.wrap[1]
    tags = [x.tag for x in ls]
    pay = tags.index("payload") if "payload" in tags else None
    if pay is None:
        return None
    u8 = lambda: E("field", kids=[E("int").p("name", "Zq_f").p("type", "uint8")])
    k = r.below(9)
    if k == 0:
        ls.append(E("payload").p("name", "Zq_l"))
        w = "two payloads"
    elif k == 1:
        if "id" in tags:
            ls.insert(r.below(pay + 1), E("id", kids=[u8()]).p("name", "Zq_l"))
            w = "two ids"
        else:
            ls.append(E("id", kids=[u8()]).p("name", "Zq_l"))
            w = "id after payload"
    elif k == 2:
        ls.append(E(r.pick(["id", "size"]), kids=[u8()]).p("name", "Zq_l"))
        w = "layer after payload"
    elif k == 3:
        ls.insert(r.below(len(ls) + 1), E("checksum", kids=[u8()]).p("name", "Zq_l").p("alg", "sum"))
        w = "checksum of nothing"
    elif k == 4:
        ls.append(E("checksum", kids=[u8()]).p("name", "Zq_l").p("alg", "sum").p("from", r.pick(["No_such", "Zq_l", "payload_"])))
        w = "checksum from an unknown layer"
    elif k == 5:
        if pay == 0:
            return None
        ls.insert(0, E("checksum", kids=[u8()]).p("name", "Zq_l").p("alg", "sum").p("from", ls[r.rng(0, pay - 1)].get("name")))
        w = "checksum before the layer it starts from"
    elif k == 6:
        ls.append(E("checksum", kids=[u8()]).p("name", "Zq_l").p("alg", "sum").p("until", ls[r.rng(0, pay)].get("name")))
        w = "checksum after the layer it ends with"
    elif k == 7:
        ls.insert(r.below(len(ls) + 1), E("value", kids=[u8()]).p("name", "Zq_l").p("interfaceFieldName", "No_such_field"))
        w = "value of an unknown interface field"
    else:
        ls.insert(r.below(len(ls) + 1), E(r.pick(["bogus", "int", "message"])).p("name", "Zq_l"))
        w = "unknown layer"
    return "frame: " + w


@op(15)
def alien(d):
    """elements which are not allowed at their place"""
    r = d.r
    n = d.sel(lambda n: n.e.wrap or n.e.tag in ("fields", "messages", "interfaces", "frames", "element", "field", "lengthPrefix", "countPrefix", "members"))
    if not n:
        return None
    e = n.e
    x = E(r.pick(["bogus", "message", "frame", "layer", "Int", "byte", "bit"])).p("name", "Zq_a").p("type", "uint8").p("id", "4000000000")
    if e.wrap:
        if not e.wrap[1]:
            return None
        if r.chance(50):
            r.pick(e.wrap[1]).tag = x.tag
        else:
            e.wrap[1].insert(r.below(len(e.wrap[1]) + 1), x)
    elif e.tag == "messages":
        x.tag = r.pick(["bogus", "frame", "int"])
        e.kids.append(x)
    elif e.tag == "frames":
        x.tag = r.pick(["bogus", "message", "int"])
        e.kids.append(x)
    elif e.tag == "interfaces":
        x.tag = r.pick(["bogus", "message", "int"])
        e.kids.append(x)
    elif e.tag == "fields":
        e.kids.insert(r.below(len(e.kids) + 1), x)
    else:
        if not e.kids:
            return None
        if r.chance(50):
            e.kids[0].tag = x.tag
        else:
            e.kids.append(r.pick([E("int").p("name", "Zq_a").p("type", "uint8"), x]))
    return "<%s> with an element it does not take" % e.tag


@op(10)
def semantic(d):
    r = d.r
    n = d.sel(lambda n: n.e.tag in FIELDS and not n.e.has("reuse") and n.e.tag not in ("enum", "ref"))
    if not n:
        return None
    e = n.e
    bad = {"int": [], "set": ["messageId", "version"], "float": ["messageId", "version", "length"], "string": ["messageId", "version", "length"], "data": ["messageId", "version", "length"],
           "list": ["messageId", "version", "length"], "bitfield": ["messageId", "version"], "bundle": ["messageId", "version"],
           "variant": ["messageId", "version", "length"], "optional": ["messageId", "version", "length"]}[e.tag]
    if not bad:
        return None
    v = r.pick(bad)
    e.setp("semanticType", v)
    return "semanticType=\"%s\" of <%s>" % (v, e.tag)


@op(8)
def messages(d):
    r = d.r
    n = d.sel(lambda n: n.e.tag == "message")
    if not n:
        return None
    e = n.e
    k = r.below(4)
    if k == 0:
        e.setp("platforms", r.pick(["+No_such", "-No_such", "No_such", "+", "-", "plat0", "+plat0,,plat1", ","]))
    elif k == 1:
        e.post.append(E("alias").p("name", "Zq_al").p("field", r.pick(["$No_such", "No_such", "$", "$No_such.x", "%x", ""]) or "$.x"))
    elif k == 2:
        e.setp("id", r.pick(["-1", "18446744073709551616", "No.such", "1x", "x"]), "raw")
        for q in e.props:
            if q[0] == "id":
                q[2] = "raw"
    else:
        if e.has("copyFieldsFrom"):
            return None
        e.p("copyFieldsFrom", r.pick(["No_such", "@No.such", ""]) or "a b")
    return "message: %d" % k


@op(8)
def schema_props(d):
    r = d.r
    e = d.doc
    k = r.below(5)
    if k == 0:
        e.setp("endian", r.pick(["middle", "1", "bigg"]))
    elif k == 1:
        e.setp("version", r.pick(["-1", "x", "1.0", "4294967296"]))
    elif k == 2:
        e.setp("name", r.pick(["1a", "a b", "a-b", "a.b"]))
    elif k == 3:
        e.setp("id", r.pick(["x", "-1", "4294967296", "1e3"]))
    else:
        e.setp("nonUniqueMsgIdAllowed", "maybe")
    for q in e.props:
        q[2] = "raw" if q[0] in ("endian", "version", "id", "nonUniqueMsgIdAllowed") else q[2]
    d.at = None
    return "schema property %d" % k


# ------------------------------------------------------------------------------------------
def mark_of(d):
    """outermost declaration which holds the violation"""
    if d.at is None or not d.at.anc:
        return None
    x = getattr(d, "mark", None)
    if x is not None:
        return x
    for n in d.nodes:
        if is_decl(n) and (n.e is d.at.e or n.e in d.at.anc):
            return n.e
    return None


def lines_of(doc, e):
    """first and last line of the element in the rendered document"""
    e.p("zz_mark", "1")
    t = etree.render(doc).split("\n")
    e.drop("zz_mark")
    a = [i for i, l in enumerate(t) if 'zz_mark="1"' in l][0]
    ind = len(t[a]) - len(t[a].lstrip())
    if t[a].rstrip().endswith("/>") or ("</%s>" % e.tag) in t[a]:
        return a + 1, a + 1
    for i in range(a + 1, len(t)):
        if len(t[i]) - len(t[i].lstrip()) <= ind and t[i].strip():
            return a + 1, i + 1
    return a + 1, len(t)


def case(r, ctx, ops=None, gen=False, **kw):
    b = build_proto(r, **kw)
    n = r.weighted([(60, 1), (25, 2), (15, 3)]) if not gen else 1
    cut = [i * len(b.decls) // n for i in range(n + 1)]
    docs = [proto.section_doc(b, b.decls[cut[i]:cut[i + 1]], first=i == 0) for i in range(n)]
    base = [etree.render(x) for x in docs]
    which = r.below(n)
    pool = ops or OPS
    f = r.weighted(pool)
    d = Doc(r, b, docs[which])
    what = f(d)
    if what is None:
        raise Skip()
    m = mark_of(d)
    rng = lines_of(docs[which], m) if m is not None else None
    texts = list(base)
    texts[which] = etree.render(docs[which])
    if texts == base:
        raise Skip()
    shown = "\n<!-- next file -->\n".join(texts)
    files = [write(ctx, "s%d.xml" % i, t) for i, t in enumerate(base)]
    try:
        res = dumper(ctx).run(files, flags="v")
    except dumpproc.Crash as c:
        raise Violation("the library process died on a valid schema", sig="crash", schema="\n".join(base), crash=str(c))
    if not res["ok"]:
        raise Violation("the schema without the violation is refused: %s" % (errors(res) or ["?"])[0][-300:], sig="rejected", schema="\n".join(base))
    files = [write(ctx, "s%d.xml" % i, t) for i, t in enumerate(texts)]
    try:
        res = dumper(ctx).run(files, flags="v")
    except dumpproc.Crash as c:
        raise Violation("%s: the library process dies instead of refusing the schema" % what, sig="crash:" + f.__name__, schema=shown, crash=str(c)[-1500:])
    if res["ok"]:
        raise Violation("%s is accepted" % what, sig="accepted:" + what[:40], schema=shown, errors=errors(res)[:3])
    err = errors(res)
    if not err:
        raise Violation("%s is refused without an error" % what, sig="silent:" + f.__name__, schema=shown)
    if not getattr(d, "noline", False):
        places = [(i, int(x.group(1))) for i in range(n) for l in err for x in [re.search(re.escape(files[i]) + r":(\d+):", l)] if x]
        if not places:
            raise Violation("%s: the error does not name the file and the line: %s" % (what, err[0][:200]), sig="noplace:" + err[0][:60], schema=shown, errors=err[:3])
        if not any(i == which and 1 <= l <= texts[i].count("\n") + 1 and (rng is None or rng[0] <= l <= rng[1]) for i, l in places):
            raise Violation("%s in lines %s of file %d: the error is reported for another place: %s" % (what, rng, which, err[0][-200:]), sig="place:" + f.__name__, schema=shown, errors=err[:3])
    cls = [f.__name__, "files=%d" % n]
    if gen:
        a = r.pick(GENS)
        o = ctx.fresh("out")
        x = apps.run(a, ["-o", o] + files)
        if x.rc == 0:
            raise Violation("%s: %s reports success" % (what, a), sig="gen-success:" + a, schema=shown)
        cls.append(a)
    return Result(fingerprint(texts), True, cls, texts[which])


GENS = ["commsdsl2comms", "commsdsl2c", "commsdsl2test", "commsdsl2swig", "commsdsl2emscripten", "commsdsl2latex", "commsdsl2tools_qt"]

CHECK = Check("C06", [
    ("mixed", lambda r, c: case(r, c), 12000, 400000),
    ("leaf", lambda r, c: case(r, c, depth=0, nfields=(2, 6), nmsgs=(0, 1)), 8000, 200000),
    ("composed", lambda r, c: case(r, c, depth=4, nfields=(2, 5), nmsgs=(0, 2)), 6000, 150000),
    ("messages", lambda r, c: case(r, c, depth=2, nfields=(1, 3), nmsgs=(2, 6)), 6000, 150000),
    ("reuse", lambda r, c: case(r, c, depth=2, nfields=(3, 8), nmsgs=(1, 4), reuse_p=50, msgreuse_p=40, copy_p=40), 5000, 120000),
    ("generators", lambda r, c: case(r, c, gen=True, nfields=(1, 4), nmsgs=(1, 3)), 400, 6000),
], "the broken schema differs from the valid one by the violation of one rule",
    setup=apps.setup(GENS, dumper=True),
    assumptions=["every violation operator (vt/checks/c06.py) breaks a rule of the language wherever it is applied"])
