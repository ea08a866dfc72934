"""Things shared by the checks of the parser."""
import os
from . import build, dumpproc, etree, model, proto
from .harness import Violation, Skip, Result, fingerprint


def setup_dumper():
    build.ensure(["vt_dumper"], "std")


def dumper(ctx, config="std"):
    return ctx.get("dumper-" + config, lambda: dumpproc.Dumper(config))


def write(ctx, name, text):
    p = os.path.join(ctx.tmp, name)
    with open(p, "wb") as f:
        f.write(text.encode("utf-8") if isinstance(text, str) else text)
    return p


def parse(ctx, texts, config="std", **kw):
    """Parses the documents; a crash is a violation of whatever is being checked."""
    if isinstance(texts, str):
        texts = [texts]
    files = [write(ctx, "s%d.xml" % i, t) for i, t in enumerate(texts)]
    kw.setdefault("prefixes", ["xt_"])
    try:
        return dumper(ctx, config).run(files, **kw)
    except dumpproc.Crash as c:
        raise Violation("the library process died on a valid schema: " + str(c).strip()[-300:], sig="crash", schema="\n".join(texts), crash=str(c))


def errors(res):
    return ["%d: %s" % (l, m) for l, m in res["log"] if l >= 3]


def accepted(ctx, texts, what="a valid schema", **kw):
    res = parse(ctx, texts, **kw)
    if not res["ok"] or errors(res):
        e = errors(res)
        raise Violation("%s is rejected: %s" % (what, (e or ["?"])[0][-300:]), sig="rejected",
                        schema=texts if isinstance(texts, str) else "\n<!-- next file -->\n".join(texts), errors=e[:5])
    return res


def same(exp, got, what, text, extra=None):
    d = model.diff(exp, got)
    if d:
        raise Violation("%s: %s" % (what, d[0]), sig="diff", differences="\n".join(d[:12]), schema=text, **(extra or {}))


def walk_fields(fs):
    for f in fs:
        yield f
        for a in ("members",):
            for m in getattr(f, a, None) or []:
                yield from walk_fields([m])
        for a in ("prefix", "elem", "cprefix", "lprefix", "elprefix", "tsuffix", "field"):
            m = getattr(f, a, None)
            if m is not None and isinstance(m, proto.F) and m.ext is None:
                yield from walk_fields([m])


def all_fields(b):
    for f in b.fields.values():
        yield from walk_fields([f])
    for m in list(b.msgs.values()) + list(b.ifaces.values()):
        yield from walk_fields(m.fields)
    for fr in b.frames.values():
        for l in fr.layers:
            if l.field is not None and l.field.ext is None:
                yield from walk_fields([l.field])


def classes(b):
    out = set(b.used)
    for f in all_fields(b):
        out.add("kind:" + f.kind)
    return sorted(out)


def build_proto(r, **kw):
    return proto.Builder(r, proto.Opt(**kw)).build()
