"""C03: metamorphic - a randomly respelled document must give the same model as the canonical spelling."""
from ..common import *
from ..harness import Check


def canon(schemas, V):
    return [model.Got(V).schema(s) for s in schemas]


def case(r, ctx, **kw):
    b = build_proto(r, **kw)
    doc = proto.section_doc(b)
    t1 = etree.render(doc)
    style = etree.Noisy(r, cdata=True, level=r.pick([30, 50, 70, 100]))
    merge = r.chance(50)
    doc2 = doc if merge else proto.section_doc(b, merge=False)
    t2 = etree.render(doc2, style)
    r1 = accepted(ctx, t1)
    r2 = accepted(ctx, t2, "an equivalent spelling of a valid schema")
    a, c = canon(r1["schemas"], b.V), canon(r2["schemas"], b.V)
    d = model.diff(a, c)
    if d:
        raise Violation("an equivalent spelling changes the model: %s" % d[0], sig="diff", differences="\n".join(d[:10]), canonical=t1, respelled=t2)
    used = set(style.used)
    if not merge:
        used.add("unwrapped")
    return Result(fingerprint(t2), len(used) >= 3 and t1 != t2, sorted("spelling:" + u for u in used), t2)


CHECK = Check("C03", [
    ("mixed", lambda r, c: case(r, c), 9000, 300000),
    ("leaf", lambda r, c: case(r, c, depth=0, nmsgs=(0, 2)), 6000, 200000),
    ("messages", lambda r, c: case(r, c, depth=2, nfields=(1, 3), nmsgs=(2, 8)), 6000, 150000),
], "the respelled text differs and uses at least 3 kinds of equivalent spelling (child properties, text, CDATA, case, number base, unit synonyms, comments, "
   "character references, quoting, order, wrappers ...)",
    setup=setup_dumper,
    assumptions=["free text properties are compared after the white space normalisation the DSL applies to element text"])
