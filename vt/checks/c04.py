"""C04: metamorphic - a schema with reuse / copying against the same schema written out in full."""
from ..common import *
from ..harness import Check
from .. import apps, emit


def mark(b):
    return {u for u in b.used if u.startswith(("reuse", "msg-reuse", "copyFieldsFrom", "iface-", "replace", "copyValidCondFrom"))}


def case(r, ctx, gen=False, **kw):
    b = build_proto(r, **kw)
    decls = emit.explicit_decls(b)
    t1, t2 = etree.render(proto.section_doc(b)), etree.render(proto.section_doc(b, decls))
    r1 = accepted(ctx, t1)
    r2 = accepted(ctx, t2, "a schema with all definitions written out in full")
    a = [model.Got(b.V).schema(s) for s in r1["schemas"]]
    c = [model.Got(b.V).schema(s) for s in r2["schemas"]]
    d = model.diff(c, a)
    if d:
        raise Violation("reusing / copying differs from writing it out (expected: written out): %s" % d[0], sig="diff", differences="\n".join(d[:10]),
                        reusing=t1, explicit=t2)
    used = mark(b)
    # valid ranges which cover each other are merged only when given together: the meaning is the same, the generated text is not
    plain = not b.ghosts and not any(f.kind == "float" and len(f.valid) > 1 for f in all_fields(b))
    if gen and plain:
        f1, f2 = write(ctx, "reuse.xml", t1), write(ctx, "full.xml", t2)
        res = []
        for n, f in (("a", f1), ("b", f2)):
            o = ctx.fresh("out_" + n)
            x = apps.run("commsdsl2comms", ["-o", o, f])
            res.append((x.rc, apps.tree(o)))
        if res[0][0] != res[1][0]:
            raise Violation("commsdsl2comms ends with status %d for reusing, %d for the schema written out" % (res[0][0], res[1][0]), sig="status",
                            reusing=t1, explicit=t2)
        if res[0][0] == 0:
            used.add("generated")
            d = apps.diff_trees(apps.code_only(res[0][1]), apps.code_only(res[1][1]))
            if d:
                raise Violation("generated code differs (reusing / written out): %s" % d, sig="gen", reusing=t1, explicit=t2)
    return Result(fingerprint(t1), bool(used & mark(b)), sorted(used), t1)


REUSE = dict(reuse_p=55, msgreuse_p=40, copy_p=50)
CHECK = Check("C04", [
    ("mixed", lambda r, c: case(r, c, **REUSE), 8000, 300000),
    ("leaf", lambda r, c: case(r, c, depth=0, nfields=(4, 12), nmsgs=(0, 1), **REUSE), 6000, 200000),
    ("composed", lambda r, c: case(r, c, depth=4, nfields=(4, 9), nmsgs=(0, 2), kinds=["int", "set", "enum", "bundle", "bitfield", "variant", "optional", "list"], **REUSE), 5000, 150000),
    ("messages", lambda r, c: case(r, c, depth=1, nfields=(2, 5), nmsgs=(3, 12), **REUSE), 5000, 150000),
    ("generated", lambda r, c: case(r, c, gen=True, wire=True, codes=False, nfields=(3, 8), nmsgs=(1, 5), **REUSE), 1500, 40000),
], "the schema reuses or copies at least one field, message or interface",
    setup=apps.setup(["commsdsl2comms"], dumper=True),
    assumptions=["the written out schema is produced by vt/emit.py from the expected model; override codes and validateMinLength are not compared for elements "
                 "that re-specify them", "code overrides of the reused element are documented not to be inherited"])
