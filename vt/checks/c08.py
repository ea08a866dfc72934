"""C08: code generated for an older version, with or without a minimal remote version, is the code of the older schema."""
from ..harness import Check, Skip
from .. import build, etree, gencpp, proto
from ..common import all_fields, parse
from ..proto import NYD
from . import c09, c10, c11, c12

TUPLES = {"int": (2, 1), "float": (2, 1), "enum": (None, 1), "string": (1, None), "data": (1, None)}


def num(e, name):
    v = e.get(name)
    return None if v is None else int(str(v), 0)


# ------------------------------------------------------------------------------------------------------- document
def late(e, n):
    """deprecations after the version n did not happen yet"""
    for x in e.walk():
        d = num(x, "deprecated")
        if d is not None and d > n:
            x.drop("deprecated")
            x.drop("removed")


def prune_doc(e, n):
    """without everything introduced after the version n"""
    def keep(l):
        out = []
        for k in l:
            if (num(k, "sinceVersion") or 0) <= n:
                prune_doc(k, n)
                out.append(k)
        return out
    e.kids, e.post = keep(e.kids), keep(e.post)
    if e.wrap:
        e.wrap = (e.wrap[0], keep(e.wrap[1]), e.wrap[2])


# ---------------------------------------------------------------------------------------------------------- model
def prune(b, n, m, st):
    """the same for the model; elements gone before the version m are not there either"""
    def count(k):
        st[k] = st.get(k, 0) + 1

    def fix(x):
        if x.__dict__.get("depr", NYD) > n:
            x.depr = NYD
            if "removed" in x.__dict__:
                x.removed = False

    def here(x, what):
        if x.since > n:
            count("introduced later: " + what)
            return False
        if x.__dict__.get("removed") and x.depr <= m:
            count("gone before: " + what)
            return False
        return True

    def tuples(l, i, what):
        out = []
        for t in l:
            if t[i] > n:
                count("introduced later: " + what)
                continue
            d = t[i + 1] if t[i + 1] <= n else NYD
            if d <= m:
                count("gone before: " + what)
                continue
            out.append(t[:i + 1] + (d,) + t[i + 2:])
        return out
    seen = set()
    for f in list(all_fields(b)):
        if id(f) in seen:
            continue
        seen.add(id(f))
        fix(f)
        if f.kind in TUPLES:
            vi, si = TUPLES[f.kind]
            if vi is not None:
                old = f.valid
                f.valid = tuples(old, vi, "valid value of " + f.kind)
                if not f.valid and any(x[vi] <= n for x in old):
                    raise Skip("no valid value is left")
            if si is not None:
                k = "values" if f.kind == "enum" else "specials"
                old = f.__dict__[k]
                f.named = [x for x in old if x[1] <= n]         # deprecated values are not valid but still have names
                f.__dict__[k] = tuples(old, si, k + " of " + f.kind)
                f.gone = [x for x in old if not any(y[0] == x[0] for y in f.__dict__[k])]     # still usable as a number
                if f.kind == "enum" and not f.values and any(x[1] <= n for x in old):
                    raise Skip("no value of an enum is left")       # refused with an error
        if f.kind == "set":
            f.bitsInfo = [x[:2] + (x[2] if x[2] <= n else NYD,) + x[3:] for x in f.bitsInfo if x[1] <= n or count("introduced later: bit")]
        if f.__dict__.get("members"):
            f.members = [x for x in f.members if here(x, "member")]
    for k in list(b.msgs):
        x = b.msgs[k]
        fix(x)
        if not here(x, "message"):
            del b.msgs[k]
    for x in list(b.msgs.values()) + list(b.ifaces.values()):
        for f in x.fields:
            fix(f)
        x.fields = [f for f in x.fields if here(f, "field")]
    b.V = b.schema.version = n


# ---------------------------------------------------------------------------------------------------------- cases
class Older:
    def __init__(self, forced, minrem):
        self.forced, self.minrem = forced, minrem
        self.st = {}

    def __call__(self, c, r, ctx):
        b = c.b
        if not b.V:
            raise Skip("one version only")
        n = b.V
        doc = proto.section_doc(b).copy()
        if self.forced:
            # what stays may need what is gone: such schema says nothing about the older version
            for n in r.shuffle(list(range(b.V)))[:3]:
                d = doc.copy()
                late(d, n)
                older = d.copy()
                older.setp("version", str(n))
                prune_doc(older, n)
                if parse(ctx, etree.render(older))["ok"]:
                    break
            else:
                raise Skip("no older schema is a valid one")
            doc = d
        m = r.below(n + 1) if self.minrem else 0
        V = b.V
        prune(b, n, m, self.st)
        if not b.msgs:
            raise Skip("no message in the older version")
        c.text = etree.render(doc)
        self.classes = [("versions back:%d" % min(V - n, 5), 1), ("minimal version:%s" % min(m, 4), 1)]
        return (["--force-schema-version", str(n)] if self.forced else []) + (["-m", str(m)] if self.minrem else []), m


def case(what, r, ctx, forced, minrem, **kw):
    p = Older(forced, minrem)
    res = what.case(r, ctx, prep=p, **{**dict(verfield=r.chance(75), versionp=100, minv=1, sincep=r.pick([35, 50, 70]), subver=r.pick([0, 0, 10, 40])), **kw})
    res.classes += list(p.st.items()) + p.classes
    res.nontrivial = res.nontrivial and bool(p.st or minrem)
    return res


def setup():
    gencpp.setup()
    build.ensure(["vt_dumper"], "std")


LISTS = dict(nmsgs=(3, 12), nfields=(0, 2), depth=1, framens=True, platp=60)
CHECK = Check("C08", [
    ("encoding", lambda r, c: case(c09, r, c, True, False), 60, 4000),
    ("values", lambda r, c: case(c10, r, c, True, False), 60, 4000),
    ("minimal", lambda r, c: case(c09, r, c, False, True, verfield=True), 40, 3000),
    ("lists", lambda r, c: case(c11, r, c, True, r.chance(40), verfield=True, **LISTS), 40, 3000),
    ("frames", lambda r, c: case(c12, r, c, True, r.chance(40)), 40, 3000),
    ("both", lambda r, c: case(c10, r, c, True, True, verfield=True), 50, 3000),
], "the older version misses at least one element (or there is a minimal version) and the program went through valid and refused messages",
    setup=setup, quick_s=420,
    assumptions=["the generated code is compiled against cpp/minicomms, a stand-in of the COMMS library (not available here)",
                 "schemas whose older version is not a valid schema (a remaining element needs a newer one) are skipped"])
