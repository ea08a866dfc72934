"""C05: metamorphic - the same declarations distributed over files and blocks, or several schemas interleaved."""
from ..common import *
from ..harness import Check
from .. import refs


def split(r, decls, k):
    """k consecutive, possibly empty parts"""
    cuts = sorted(r.below(len(decls) + 1) for _ in range(k - 1))
    out, p = [], 0
    for c in cuts + [len(decls)]:
        out.append(decls[p:c])
        p = c
    return out


def ns_elems(doc):
    """(path, element) of the namespaces"""
    out = []
    def go(e, path):
        for k in e.kids + (e.wrap[1] if e.wrap else []) + e.post:
            if k.tag == "ns":
                p = path + (k.get("name"),)
                out.append((p, k))
                go(k, p)
    go(doc, ())
    return out


def docs_of(r, b, used, kmax=4):
    parts = split(r, b.decls, r.rng(1, kmax))
    docs = []
    plats = list(b.platforms)
    for i, p in enumerate(parts):
        d = proto.section_doc(b, p, merge=r.chance(50), first=i == 0)
        if i:
            m = r.below(3)
            if m == 1:
                d.props = []
                used.add("anonymous-file")
            elif m == 2:
                d.props = [list(q) for q in b.sprops.props if q[0] == "name" or r.chance(50)]
                used.add("repeated-props")
            if plats and r.chance(30):
                d.kids.append(E("platform").p("name", r.pick(plats)))
                used.add("repeated-platform")
        docs.append(d)
    if len(docs) > 1:
        used.add("files")
    return docs


from ..etree import E


def case(r, ctx, qualify=True, **kw):
    b = build_proto(r, nns=r.below(4), **kw)
    used = set()
    # texts of namespaces: given once or repeated in any of the definitions
    texts = {}
    base = proto.section_doc(b)
    for nm, n in ns_elems(base):
        texts.setdefault(nm, (b.text() if r.chance(50) else "", b.text() if r.chance(50) else ""))
    t1 = None
    docs = docs_of(r, b, used)
    occ = {}
    for d in docs:
        for nm, n in ns_elems(d):
            occ.setdefault(nm, []).append(n)
    for nm, els in occ.items():
        if len(els) > 1:
            used.add("reopened-ns")
        for j, prop in enumerate(("description", "displayName")):
            v = texts.get(nm, ("", ""))[j]
            if v:
                sel = [x for x in els if r.chance(50)] or [r.pick(els)]
                for x in sel:
                    x.p(prop, v, "text")
    first = set()
    for nm, n in ns_elems(base):
        if nm not in first:
            first.add(nm)
            for j, prop in enumerate(("description", "displayName")):
                if texts[nm][j]:
                    n.p(prop, texts[nm][j], "text")
    t1 = etree.render(base)
    if qualify and r.chance(50):
        used.add("qualified")
        known = set(b.fields) | set(b.msgs) | set(b.ifaces)
        for d in docs:
            refs.rewrite(d, lambda p, t: "@%s.%s" % (b.schema.name, t) if r.chance(70) else t, known)
    ts = [etree.render(d) for d in docs]
    a = accepted(ctx, t1)
    c = accepted(ctx, ts, "a schema split over files / blocks")
    d = model.diff([model.Got(b.V).schema(s) for s in a["schemas"]], [model.Got(b.V).schema(s) for s in c["schemas"]])
    if d:
        raise Violation("splitting changes the model: %s" % d[0], sig="diff", differences="\n".join(d[:10]), single=t1, split="\n<!-- next file -->\n".join(ts))
    if ts[0] != t1:
        used.add("differs")
    return Result(fingerprint(ts), len(used) >= 2 and len(b.decls) >= 2, sorted(used), "\n<!-- next file -->\n".join(ts))


def multi(r, ctx, **kw):
    """several schemas: files of different schemas interleaved give the same schemas as each parsed alone"""
    bs, alone, order = [], [], []
    used = set()
    n = r.rng(2, 3)
    for i in range(n):
        b = proto.Builder(r, proto.Opt(**kw))
        b.schema_name = "Sch%s" % "ABC"[i]
        b.build()
        bs.append(b)
        t = etree.render(proto.section_doc(b))
        alone.append(accepted(ctx, t)["schemas"])
    queues = []
    for b in bs:
        parts = split(r, b.decls, r.rng(1, 3))
        queues.append([proto.section_doc(b, p, merge=r.chance(50), first=j == 0) for j, p in enumerate(parts)])
    files, seen, last = [], [], None
    anon = 0
    while any(queues):
        i = r.pick([i for i in range(n) if queues[i]])
        if i not in seen:
            # the schemas are listed in the order of their first file
            seen.append(i)
        d = queues[i].pop(0)
        if last == i and r.chance(60):
            d.props = []        # continues the current schema
            anon += 1
        last = i
        files.append(etree.render(d))
    c = accepted(ctx, files, "interleaved files of several schemas", flags="mvd")
    exp = [model.Got(bs[i].V).schema(alone[i][0]) for i in seen]
    got = [model.Got(bs[i].V).schema(s) for i, s in zip(seen, c["schemas"])]
    d = model.diff(exp, got)
    if d:
        raise Violation("interleaving files of several schemas changes a model: %s" % d[0], sig="multi", differences="\n".join(d[:10]), files="\n<!-- next -->\n".join(files))
    return Result(fingerprint(files), len(files) > n, ["multi:%d" % n, "files:%d" % len(files)] + (["anonymous-file"] if anon else []), "\n<!-- next file -->\n".join(files))


CHECK = Check("C05", [
    ("split", lambda r, c: case(r, c), 9000, 300000),
    ("references", lambda r, c: case(r, c, depth=2, nfields=(4, 10), nmsgs=(1, 6), samenames=True, reuse_p=40), 6000, 200000),
    ("multi", lambda r, c: multi(r, c, nfields=(1, 5), nmsgs=(0, 3), depth=2), 3000, 100000),
], "at least two declarations distributed over several files, re-opened namespaces or with qualified references; several schemas: more files than schemas",
    setup=setup_dumper,
    assumptions=["a namespace text (description, displayName) is given in any of the definitions of the namespace, with one value only"])
