"""C01: model-first generation; the dumped object model must equal the one the text was produced from."""
from ..common import *
from ..harness import Check


def case(r, ctx, **kw):
    b = build_proto(r, **kw)
    text = etree.render(proto.section_doc(b))
    res = accepted(ctx, text)
    if len(res["schemas"]) != 1:
        raise Violation("%d schemas reported" % len(res["schemas"]), sig="schemas", schema=text)
    exp = model.latin(model.Exp(b, lens=False).schema())
    same(exp, model.Got(b.V, lens=False).schema(res["schemas"][0]), "the parsed model differs from the declared one", text)
    allm = sorted(model.latin(["@%s.%s" % (b.schema.name, m)])[0] for m in b.msgs)
    return Result(fingerprint(text), len(b.used) >= 5 and bool(b.fields or b.msgs), classes(b), text)


CHECK = Check("C01", [
    ("mixed", lambda r, c: case(r, c), 15000, 500000),
    ("leaf-values", lambda r, c: case(r, c, depth=0, nfields=(3, 10), nmsgs=(0, 1), kinds=["int", "enum", "set", "float", "string", "data"]), 10000, 300000),
    ("composed", lambda r, c: case(r, c, depth=5, nfields=(2, 6), nmsgs=(0, 3)), 7000, 200000),
    ("messages", lambda r, c: case(r, c, depth=2, nfields=(1, 4), nmsgs=(3, 12)), 7000, 200000),
], "the schema declares something and uses at least 5 distinct optional DSL features (properties, references, reuse, versions, ...)",
    setup=setup_dumper,
    assumptions=["the expected model is built by the generator (vt/proto.py) from the CommsDSL rules independently of the parser; valid ranges are compared "
                 "as the set of valid values per schema version, named values with their effective versions",
                 "the generator avoids constructs the DSL leaves undefined (see DESIGN.md)"])
