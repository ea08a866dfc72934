"""The same protocol written as two schemas: a part of the global fields moves into a schema which is given first."""
import re
from . import proto

NUMERIC = {"int", "float", "enum", "set", "bitfield"}


def values(el):
    """the properties which may refer to a field"""
    for e in el.walk():
        for q in e.props:
            if q[0] != "name" and q[2] != "text":
                yield q


def pattern(paths):
    return re.compile(r"(?<![\w@.$%])(" + "|".join(re.escape(p) for p in sorted(paths, key=len, reverse=True)) + r")(?!\w)", re.I)


def versioned(el):
    """what a version means is decided by the schema of the element, the other one has no interface with a version"""
    return any(q[0] in ("sinceVersion", "deprecated") for e in el.walk() for q in e.props)


def split(r, b, name=None, iface=True):
    """-> name and document of the first schema, document of the second one, the moved fields; None when there is nothing to move"""
    decls = [(ns, sec, el.copy(), path) for ns, sec, el, path in b.decls]
    glob = {path for ns, sec, el, path in decls if sec == "fields"}
    moved, out = [], set()
    for d in decls:
        ns, sec, el, path = d
        if sec != "fields":
            continue
        rest = glob - out
        if b.fields[path].__dict__.get("sem") == "messageid" or el.get("semanticType") is not None or r.chance(30) or versioned(el) or \
                rest and any(pattern(rest).search(q[1]) for q in values(el)):
            continue
        moved.append(d)
        out.add(path)
    if not out:
        return None
    aux = name or r.pick(["Aux", "zz_base", "Common_Fields"])
    pat = pattern(out)
    stay = [d for d in decls if not any(d is m for m in moved)]
    for d in stay:
        for q in values(d[2]):
            q[1] = pat.sub(lambda m: "@%s.%s" % (aux, m.group(1)), q[1])
    # an interface has no options: its fields use the ones of their schema, which do not cover the fields of the other one further inside
    reach = set()
    for ns, sec, el, path in stay:
        hit = any("@" in q[1] for q in values(el)) or reach and any(pattern(reach).search(q[1]) for q in values(el))
        if sec == "fields" and hit:
            reach.add(path)
        if sec == "interface" and hit and (not iface or reach and any(pattern(reach).search(q[1]) for q in values(el))):
            return None
    main = proto.section_doc(b, stay)
    doc = proto.section_doc(b, moved, first=False)
    doc.setp("name", aux)
    if b.schema.version:
        doc.p("version", str(b.schema.version), "num")
    end = b.endian
    if r.chance(50):
        # fields which do not say how they are written follow their own schema
        end = 1 - end
        for d in moved:
            def walk(e):
                if e.tag in NUMERIC and not e.has("endian") and not e.has("reuse"):
                    e.p("endian", ["little", "big"][b.endian], "kw")
                if e.tag == "bitfield":
                    return
                for k in e.kids + (e.wrap[1] if e.wrap else []) + e.post:
                    walk(k)
            walk(d[2])
    if end or r.chance(50):
        doc.p("endian", ["little", "big"][end], "kw")
    return aux, doc, main, out
