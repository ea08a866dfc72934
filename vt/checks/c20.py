"""C20: references resolve to the very element they name, whatever the names of the other elements and schemas."""
from ..common import *
from ..etree import E
from ..harness import Check
from .. import refs


def shuffled(r, seq):
    out = list(seq)
    r.shuffle(out)
    return out


def lookups(r, b, paths, sname):
    """(reference, the element it must give or None)"""
    out = []
    for p in paths:
        out.append(("@%s.%s" % (sname, p), "@%s.%s" % (sname, p)))
    known = {p.lower() for p in paths}       # names differing by letter case only are one name
    bad = []
    for p in list(b.msgs) + list(b.ifaces) + list(b.frames):
        if p.lower() not in known:
            bad.append(p)
    for p in paths:
        last = p.rpartition(".")
        bad += [last[2], p + "." + last[2], p + "x", p[:-1], last[0], "x." + p, last[0] + "." + last[2][::-1], p + ".", "." + p]
    for f in b.fields.values():
        for m in getattr(f, "members", None) or []:
            if f.ext and m.name:
                bad.append(f.ext + "." + m.name)
    for p in shuffled(r, bad)[:12]:
        if p and p.lower() not in known and "," not in p:
            out.append(("@%s.%s" % (sname, p), None))
    for p in shuffled(r, paths)[:3]:
        out += [("@No_%s.%s" % (sname, p), None), ("@%s" % p, None)]
    return out


def look(res, want, text):
    got = res.get("found") or []
    if len(got) != len(want):
        raise Violation("%d answers to %d lookups" % (len(got), len(want)), sig="answers", schema=text)
    for (ref, exp), g in zip(want, got):
        if g != exp:
            raise Violation("lookup of %s gives %s instead of %s" % (ref, g, exp), sig="lookup", schema=text)


def case(r, ctx, **kw):
    b = build_proto(r, samenames=True, **kw)
    text = etree.render(proto.section_doc(b))
    paths = sorted(b.fields)
    want = lookups(r, b, paths, b.schema.name)
    # without the name of the schema: the last one is looked at
    want += [(w[0].partition(".")[2], w[1]) for w in want if w[0].startswith("@%s." % b.schema.name)]
    want = [w for w in want if w[0]]
    res = accepted(ctx, text, lookups=[w[0] for w in want])
    same(model.latin(model.Exp(b, lens=False, owner=lambda p: b.schema.name).schema()), model.Got(b.V, lens=False, full=True).schema(res["schemas"][0]),
         "the parsed model differs from the declared one", text)
    if want:
        look(res, want, text)
    nrefs = sum(text.count(x) for x in ('field="', 'reuse="', 'element="', 'Prefix="', 'copyFieldsFrom="'))
    return Result(fingerprint(text), len(paths) >= 2 and nrefs >= 1, classes(b), text)


def decoy(r, b, name, libs):
    """fields of the same names, which are something else"""
    top = E("schema").p("name", name).p("version", str(b.V))
    host = {"": top}
    for p in sorted(b.fields, key=lambda p: (p.count("."), p)):
        ns, _, n = p.rpartition(".")
        cur = ""
        for k in ns.split(".") if ns else []:
            up = cur
            cur = (cur + "." if cur else "") + k
            if cur not in host:
                host[cur] = E("ns").p("name", k)
                host[up].post.append(host[cur])
    for p in sorted(b.fields):
        ns, _, n = p.rpartition(".")
        w = r.pick(["int", "enum", "string", "bundle"])
        if w == "int":
            e = E("int").p("name", n).p("type", "int64").p("defaultValue", "-77").p("displayName", "decoy")
        elif w == "enum":
            e = E("enum", kids=[E("validValue").p("name", "Decoy").p("val", "123")]).p("name", n).p("type", "uint8")
        elif w == "string":
            e = E("string").p("name", n).p("defaultValue", "decoy")
        else:
            e = E("bundle", wrap=("members", [E("int").p("name", "decoy").p("type", "uint8")], False)).p("name", n)
        host[ns].post.append(E("fields", kids=[e]))
    return top


def cross(r, ctx, broken=False, **kw):
    """the first fields live in a library schema (or two), other schemas have elements of the same names"""
    b = build_proto(r, samenames=True, **kw)
    fd = [d for d in b.decls if d[1] == "fields"]
    if len(fd) < 2:
        raise Skip()
    k = r.rng(1, len(fd) - 1)
    two = r.chance(40) and k >= 2
    cut = r.rng(1, k - 1) if two else 0
    main = b.schema.name
    n1, n2 = r.pick([("LibA", "LibB"), ("Lib", "Lib2"), ("Lib2", "Lib"), ("lib", "lib_b"), (main + "_x", main[:-1]), (main + "2", "X" + main)])
    parts = [(n1, fd[:cut]), (n2, fd[cut:k])] if two else [(n1, fd[:k])]
    inlib = {id(x) for _, p in parts for x in p}
    parts.append((main, [d for d in b.decls if id(d) not in inlib]))
    own = {d[3]: n for n, p in parts for d in p if d[1] == "fields"}
    allp = set(b.fields) | set(b.msgs) | set(b.ifaces)
    docs = []
    for n, p in parts:
        d = proto.section_doc(b, p, merge=r.chance(70))
        if n != main:
            d.setp("name", n)
            d.kids = [x for x in d.kids if x.tag != "platforms"]
        docs.append((n, d))
    hits = []
    def fn(me):
        def f(p, t):
            o = own.get(p, main)
            if o != me:
                hits.append((p, me, t))
                return "@%s.%s" % (o, t)
            return "@%s.%s" % (o, t) if r.chance(25) else t
        return f
    bad = None
    if broken:
        # one of the references loses the schema or gets a wrong one
        me, d = docs[-1]
        probe = d.copy()
        cnt = [0]
        def count(p, t):
            cnt[0] += own.get(p, main) != me
            return t
        refs.rewrite(probe, count, allp)
        if not cnt[0]:
            raise Skip()
        at = r.below(cnt[0])
        way = r.pick(["plain", "main", "unknown", "later"])
        seen = [0]
        inner = fn(me)
        def f2(p, t):
            nonlocal bad
            x = inner(p, t)
            if own.get(p, main) != me:
                seen[0] += 1
                if seen[0] - 1 == at:
                    x = {"plain": t, "main": "@%s.%s" % (main, t), "unknown": "@Unknown.%s" % t, "later": "@Later.%s" % t}[way]
                    bad = "%s for an element of %s" % (x, own.get(p, main))
            return x
        for n, x in docs[:-1]:
            refs.rewrite(x, fn(n), allp)
        refs.rewrite(d, f2, allp)
    else:
        for n, d in docs:
            refs.rewrite(d, fn(n), allp)
    names = [n for n, _ in docs]
    if r.chance(60):
        at = r.below(len(docs))
        docs.insert(at, ("Decoy", decoy(r, b, "Decoy", own)))
    if broken and r.chance(60):
        docs.append(("Later", decoy(r, b, "Later", own)))
    texts = [etree.render(d) for _, d in docs]
    shown = "\n<!-- next file -->\n".join(texts)
    if broken:
        res = parse(ctx, texts, flags="mvd")
        if res["ok"]:
            raise Violation("the reference %s is accepted" % bad, sig="accepted", schema=shown)
        if not errors(res):
            raise Violation("the reference %s is refused silently" % bad, sig="silent", schema=shown)
        return Result(fingerprint(texts), True, [way], shown)
    want = []
    for n in names:
        mine = sorted(p for p in b.fields if own.get(p, main) == n)
        others = [o for o in names if o != n]
        want += [("@%s.%s" % (n, p), "@%s.%s" % (n, p)) for p in mine]
        want += [("@%s.%s" % (o, p), None) for o in others for p in mine]
    last = docs[-1][0]
    res = accepted(ctx, texts, "schema using the fields of another one", flags="mvd", lookups=[w[0] for w in want])
    exp = flat(model.latin(model.Exp(b, lens=False, owner=lambda p: own.get(p, main)).schema()))
    got = {}
    for s in res["schemas"]:
        if s["name"] != "Decoy":
            g = flat(model.Got(b.V, lens=False, full=True).schema(s))
            for q, x in g.items():
                if q in got:
                    raise Violation("%s is reported for two schemas" % (q,), sig="twice", schema=shown)
                got[q] = x
    same(exp, got, "the parsed model differs from the declared one", shown)
    look(res, want, shown)
    return Result(fingerprint(texts), bool(hits), classes(b) + (["decoy"] if len(docs) > len(names) else []) + (["three"] if two else []), shown)


def flat(s):
    out = {}
    for n in s["ns"]:
        for (k, p), x in model.flatten(n).items():
            out["%s %s" % (k, p)] = x
    return out


CHECK = Check("C20", [
    ("lookup", lambda r, c: case(r, c, nns=r.rng(1, 4), nfields=(4, 10), nmsgs=(0, 4), depth=2, reuse_p=30), 8000, 300000),
    ("values", lambda r, c: case(r, c, nns=r.rng(0, 3), nfields=(5, 12), nmsgs=(0, 1), depth=1, kinds=["int", "enum", "set", "float", "string", "data"]), 8000, 250000),
    ("messages", lambda r, c: case(r, c, nns=r.rng(1, 3), nfields=(2, 6), nmsgs=(2, 8), depth=3), 5000, 150000),
    ("schemas", lambda r, c: cross(r, c, nns=r.rng(0, 3), nfields=(3, 9), nmsgs=(0, 4), depth=2, reuse_p=30), 7000, 250000),
    ("broken", lambda r, c: cross(r, c, broken=True, nns=r.rng(0, 3), nfields=(3, 9), nmsgs=(0, 3), depth=2, reuse_p=30), 5000, 150000),
], "at least two namespace level fields and a reference; several schemas: a reference to a field of another schema",
    setup=setup_dumper,
    assumptions=["the expected model is built by the generator (vt/proto.py) from the CommsDSL rules independently of the parser",
                 "references are paths from the root of the schema, there is no implicit search of the enclosing namespaces"])
