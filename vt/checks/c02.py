"""C02: reported lengths against an independent length calculation; validateMinLength accepted exactly when right."""
from ..common import *
from ..harness import Check
import copy


def lens(x, path=""):
    """all the length facts of a (normalised) dump"""
    out = {}
    if isinstance(x, dict):
        p = path
        if "name" in x:
            p = path + "/" + str(x["name"])
        for k in ("min", "max", "bits"):
            if k in x:
                out[p + ":" + k] = x[k]
        for k, v in x.items():
            out.update(lens(v, p + ("" if k in ("ns", "fields", "messages", "members") else "." + k)))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            nm = "" if isinstance(v, dict) and "name" in v else "[%d]" % i
            out.update(lens(v, path + nm))
    return out


def case(r, ctx, **kw):
    reuse = r.chance(60)
    b = build_proto(r, texts=False, extras=False, codes=False, reuse=reuse, **kw)
    doc = proto.section_doc(b)
    text = etree.render(doc)
    res = accepted(ctx, text)
    exp = lens(model.latin(model.Exp(b).schema()))
    got = lens(model.Got(b.V).schema(res["schemas"][0]))
    bad = [(k, exp.get(k), got.get(k)) for k in sorted(set(exp) | set(got)) if exp.get(k) != got.get(k)]
    if bad:
        raise Violation("length of %s is %s, must be %s" % (bad[0][0], bad[0][2], bad[0][1]), sig="len",
                        differences="\n".join(map(str, bad[:10])), schema=text)
    # a wrong expectation of the author is refused, a right one is not
    cand = [f for f in all_fields(b) if f.__dict__.get("_e") is not None and f.__dict__.get("_base") is None and not f._e.has("validateMinLength") and not f._bits]
    cls = []
    if cand and not reuse:
        f = r.pick(cand)
        right = proto.min_len(f)
        e = f._e
        # the element must be part of the document
        inside = [x for x in doc.walk() if x is e]
        if inside:
            delta = r.pick([0, 1, -1, 0, 7])
            v = right + delta
            if v >= 0:
                e.p("validateMinLength", str(v), "num")
                t2 = etree.render(doc)
                res = parse(ctx, t2)
                e.drop("validateMinLength")
                if delta == 0 and not res["ok"]:
                    raise Violation("right validateMinLength %d of %s is refused: %s" % (v, f.name, errors(res)[:1]), sig="vml", schema=t2)
                if delta and (res["ok"] or not errors(res)):
                    raise Violation("wrong validateMinLength %d (is %d) of %s is accepted" % (v, right, f.name), sig="vml2", schema=t2)
                cls = ["validateMinLength:%s" % ("right" if delta == 0 else "wrong")]
    n = len(exp)
    varlen = any(exp[k] != exp.get(k[:-3] + "max") for k in exp if k.endswith(":min"))
    return Result(fingerprint(text), n >= 6 and varlen, classes(b) + cls, text)


CHECK = Check("C02", [
    ("mixed", lambda r, c: case(r, c), 9000, 300000),
    ("composed", lambda r, c: case(r, c, depth=6, nfields=(2, 6), nmsgs=(0, 4), kinds=["int", "enum", "string", "data", "list", "bundle", "optional", "variant", "ref", "bitfield"]), 9000, 300000),
    ("sequences", lambda r, c: case(r, c, depth=2, nfields=(3, 8), nmsgs=(0, 2), kinds=["int", "string", "data", "list", "ref", "bundle"]), 6000, 200000),
], "at least two elements with lengths, one of them of variable length",
    setup=setup_dumper,
    assumptions=["lengths are computed from the generated model by vt/proto.py min_len/max_len/msg_len, written from the CommsDSL rules"])
