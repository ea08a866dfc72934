"""Writes a model (proto.F) out in full: no reuse, no copying, no value references."""
import math
from .etree import E, UNITS
from .proto import F, NYD, OVR, OVRF, OVRM, tlen, deref, Raw
from .harness import Skip

SEM = {"messageid": "messageId"}


def boolp(e, prop, v, default=False):
    if bool(v) != default:
        e.p(prop, "true" if v else "false", "bool")


def num(x):
    return str(x)


def fpt(v):
    if v != v:
        return "nan"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    return repr(v)


def versions(e, since, depr, ps, pd, removed=False):
    if since < ps:
        since = ps
    if depr > pd:
        depr = pd
    if depr != NYD and depr <= since:
        raise Skip("element which never exists")
    if since != ps:
        e.p("sinceVersion", num(since), "num")
    if depr != pd:
        e.p("deprecated", num(depr), "num")
        if removed:
            e.p("removed", "true", "bool")
    elif removed:
        e.p("deprecated", num(depr), "num")
        e.p("removed", "true", "bool")


def esc_str(v):
    if v.startswith("^") or v.startswith("\\^"):
        return "\\" + v
    return v


def sub_texts(e, x):
    if x[3]:
        e.p("description", x[3], "text")
    if x[4]:
        e.p("displayName", x[4], "text")


def setcond(e, prop, c):
    if c is None:
        return
    if c.kind == "expr":
        e.p(prop, c.text())
    else:
        e.post.append(E(prop, kids=[c.elem(prop)]))


def aliases(e, al):
    for a in al:
        x = E("alias").p("name", a["name"]).p("field", "$" + a["field"])
        if a["description"]:
            x.p("description", a["description"], "text")
        e.post.append(x)


def field(f, ps=0, pd=NYD, bitfield=False, scope_versions=True):
    """element of the field f inside a parent known from ps till pd"""
    e = E(f.kind)
    e.p("name", f.name)
    s, d = max(f.since, ps), min(f.depr, pd)
    if scope_versions:
        versions(e, f.since, f.depr, ps, pd, f.removed)
    if f.displayName and not (f.kind == "ref" and f.displayName == f.field.displayName):
        e.p("displayName", f.displayName, "text")
    elif f.kind == "ref" and not f.displayName and f.field.displayName:
        raise Skip("cleared display name")
    if f.description:
        e.p("description", esc_str(f.description), "text")
    for k, v in f.xattrs.items():
        e.p(k, v, "extra")
    for a, p in (("pseudo", "pseudo"), ("fixed", "fixedValue"), ("custom", "customizable"), ("failInv", "failOnInvalid"), ("forceGen", "forceGen")):
        boolp(e, p, f.__dict__[a])
    for i, p in enumerate(OVRF):
        if f.ovr[i]:
            e.p(p, OVR[f.ovr[i]], "kw")
    if f.copyCode:
        e.p("copyCodeFrom", f.copyCode)
    if f.sem != "none" and not (f.kind == "ref" and f.field.sem == f.sem):
        e.p("semanticType", SEM.get(f.sem, f.sem), "kw")
    globals()["k_" + f.kind](f, e, s, d, bitfield)
    return e


def endian(f, e):
    e.p("endian", ["little", "big"][f.endian], "kw")


def bits(f, e):
    if f._bits:
        e.p("bitLength", num(f._bits), "num")


def named(e, tag, x, s, d, prop="val", t=None):
    c = E(tag).p("name", x[0]).p(prop, t if t is not None else num(x[5]))
    versions(c, x[1], x[2], s, d)
    sub_texts(c, x)
    e.kids.append(c)
    return c


def k_int(f, e, s, d, bf):
    e.p("type", f.type, "kw")
    if f.len != tlen(f.type):
        e.p("length", num(f.len), "num")
    bits(f, e)
    endian(f, e)
    if f.off:
        e.p("serOffset", num(f.off), "num")
    if tuple(f.scal) != (1, 1):
        e.p("scaling", "%d/%d" % tuple(f.scal))
    e.p("defaultValue", num(f.defv))
    boolp(e, "nonUniqueSpecialsAllowed", f.nonUniq or len({x[5] for x in f.specials}) < len(f.specials))
    for x in f.specials:
        named(e, "special", x, s, d)
    for a, b, vs, vd in f.valid:
        c = E("validRange").p("value", "[%d, %d]" % (a, b)) if a != b else E("validValue").p("value", num(a))
        if ghost(vs, vd, s, d):
            continue
        versions(c, vs, vd, s, d)
        e.kids.append(c)
    if f.units:
        e.p("units", UNITS[f.units - 1], "unit")
    boolp(e, "validCheckVersion", f.vcv)
    if f.dd:
        e.p("displayDecimals", num(f.dd))
    if f.doff:
        e.p("displayOffset", num(f.doff))
    boolp(e, "signExt", f.sext, True)
    boolp(e, "availableLengthLimit", f.avail)


GHOSTS = []


def ghost(vs, vd, s, d):
    """never active while the field exists"""
    if min(vd, d) <= max(vs, s):
        GHOSTS.append(1)
        return True
    return False


def k_float(f, e, s, d, bf):
    e.p("type", f.type, "kw")
    endian(f, e)
    e.p("defaultValue", fpt(f.defv))
    boolp(e, "nonUniqueSpecialsAllowed", f.nonUniq)
    for x in f.specials:
        named(e, "special", x, s, d, t=fpt(x[5]))
    for a, b, vs, vd in f.valid:
        if ghost(vs, vd, s, d):
            continue
        c = E("validValue").p("value", fpt(a)) if a != a or a == b else E("validRange").p("value", "[%s, %s]" % (fpt(a), fpt(b)))
        versions(c, vs, vd, s, d)
        e.kids.append(c)
    if f.units:
        e.p("units", UNITS[f.units - 1], "unit")
    boolp(e, "validCheckVersion", f.vcv)
    if f.dd:
        e.p("displayDecimals", num(f.dd))


def k_enum(f, e, s, d, bf):
    e.p("type", f.type, "kw")
    if f.len != tlen(f.type):
        e.p("length", num(f.len), "num")
    bits(f, e)
    endian(f, e)
    boolp(e, "nonUniqueAllowed", f.nonUniqAllowed)
    for x in f.values:
        named(e, "validValue", x, s, d)
    e.p("defaultValue", num(f.defv))
    boolp(e, "validCheckVersion", f.vcv)
    boolp(e, "hexAssign", f.hex)
    boolp(e, "availableLengthLimit", f.avail)


def k_set(f, e, s, d, bf):
    if f.len == tlen(f.type):
        e.p("type", f.type, "kw")
    elif not f._bits:
        e.p("length", num(f.len), "num")
        e.p("type", f.type, "kw")
    bits(f, e)
    endian(f, e)
    boolp(e, "nonUniqueAllowed", f.nonUniqAllowed)
    boolp(e, "validCheckVersion", f.vcv)
    boolp(e, "defaultValue", f.defBit)
    boolp(e, "reservedValue", f.resBit)
    for nm, vs, vd, desc, disp, idx, dv, res, rv in f.bitsInfo:
        c = E("bit").p("name", nm).p("idx", num(idx))
        if not res:
            versions(c, vs, vd, s, d)
        elif (max(vs, s), min(vd, d)) != (s, d):
            raise Skip("reserved bit with versions")
        boolp(c, "defaultValue", dv, f.defBit)
        boolp(c, "reserved", res)
        boolp(c, "reservedValue", rv, f.resBit)
        sub_texts(c, (nm, vs, vd, desc, disp))
        e.kids.append(c)
    boolp(e, "availableLengthLimit", f.avail)


def k_bitfield(f, e, s, d, bf):
    endian(f, e)
    e.wrap = ("members", [field(m, s, d, True, False) for m in f.members], True)
    setcond(e, "validCond", f.validCond)


def k_bundle(f, e, s, d, bf):
    e.wrap = ("members", [field(m, s, d) for m in f.members], True)
    aliases(e, f.aliases)
    setcond(e, "validCond", f.validCond)


def sub(e, prop, f, s, d, ref_as_child=False):
    if f is None:
        return
    if f.ext:
        e.p(prop, f.ext)
    else:
        e.kids.append(E(prop, kids=[field(f, s, d, scope_versions=False)]))


def detached(e, prop, name):
    if name:
        e.p(prop, "$" + name)


def k_string(f, e, s, d, bf):
    data = f.kind == "data"
    val = (lambda v: v.encode("latin-1").hex()) if data else esc_str
    if f.len:
        e.p("length", num(f.len))
    if not data:
        boolp(e, "zeroTermSuffix", f.zterm)
        if f.enc:
            e.p("encoding", f.enc, "text")
    sub(e, "lengthPrefix", f.prefix, s, d)
    detached(e, "lengthPrefix", f.dprefix)
    if f.defv:
        e.p("defaultValue", val(f.defv), "text")
    for v, vs, vd in f.valid:
        if ghost(vs, vd, s, d):
            continue
        if not v:
            raise Skip("empty valid value")
        c = E("validValue").p("value", val(v), "text")
        versions(c, vs, vd, s, d)
        e.kids.append(c)


k_data = k_string


def k_list(f, e, s, d, bf):
    if f.elem.ext:
        e.p("element", f.elem.ext)
    else:
        e.wrap = ("element", [field(f.elem, s, d, scope_versions=False)], False)
    if f.count:
        e.p("count", num(f.count))
    for p, a, b in (("countPrefix", "cprefix", "dcprefix"), ("lengthPrefix", "lprefix", "dlprefix"), ("elemLengthPrefix", "elprefix", "delprefix"),
                    ("termSuffix", "tsuffix", "dtsuffix")):
        sub(e, p, f.__dict__[a], s, d)
        detached(e, p, f.__dict__[b])
    boolp(e, "elemFixedLength", f.elemFixed)


def k_ref(f, e, s, d, bf):
    e.props.insert(0, ["field", f.field.ext, "raw"])
    bits(f, e)


def k_optional(f, e, s, d, bf):
    e.p("defaultMode", ["tentative", "exists", "missing"][f.mode], "kw")
    if f.field.ext:
        e.p("field", f.field.ext)
    else:
        e.wrap = ("field", [field(f.field, s, d, scope_versions=False)], False)
    if f.cond is not None:
        if f.cond.kind == "expr":
            e.p("cond", f.cond.text())
        else:
            e.kids.append(f.cond.elem())
    boolp(e, "missingOnReadFail", f.missRF)
    boolp(e, "missingOnInvalid", f.missInv)


def k_variant(f, e, s, d, bf):
    e.wrap = ("members", [field(m, s, d) for m in f.members], True)
    if f.defIdx != -1:
        e.p("defaultMember", num(f.defIdx))


def message(m):
    e = E("message").p("name", m.name).p("id", num(m.id))
    if m.order:
        e.p("order", num(m.order))
    versions(e, m.since, m.depr, 0, NYD, m.removed)
    if m.displayName:
        e.p("displayName", m.displayName, "text")
    if m.description:
        e.p("description", esc_str(m.description), "text")
    if m.platforms:
        e.p("platforms", "+" + ",".join(m.platforms))
    boolp(e, "customizable", m.custom)
    boolp(e, "failOnInvalid", m.failInv)
    if m.sender:
        e.p("sender", ["both", "client", "server"][m.sender], "kw")
    for i, p in enumerate(OVRM):
        if m.ovr[i]:
            e.p(p, OVR[m.ovr[i]], "kw")
    if m.copyCode:
        e.p("copyCodeFrom", m.copyCode)
    for k, v in m.xattrs.items():
        e.p(k, v, "extra")
    if m.fields:
        e.wrap = ("fields", [field(f, m.since, m.depr) for f in m.fields], True)
    aliases(e, m.aliases)
    for p in ("construct", "readCond", "validCond"):
        setcond(e, p, m.__dict__[p])
    return e


def interface(m):
    e = E("interface").p("name", m.name)
    if m.description:
        e.p("description", esc_str(m.description), "text")
    if m.copyCode:
        e.p("copyCodeFrom", m.copyCode)
    for k, v in m.xattrs.items():
        e.p(k, v, "extra")
    if m.fields:
        e.wrap = ("fields", [field(f, 0, NYD, scope_versions=False) for f in m.fields], True)
    aliases(e, m.aliases)
    return e


def frame(f, orig):
    e = orig.copy()
    for L, le in zip(f.layers, e.wrap[1]):
        if L.field is not None and not L.field.ext:
            le.wrap = ("field", [field(L.field, 0, NYD, scope_versions=False)], False)
    return e


def explicit_decls(b):
    """the declarations of the builder, each written out in full"""
    out = []
    del GHOSTS[:]
    for ns, sec, e, path in b.decls:
        if sec == "fields":
            x = field(b.fields[path], 0, NYD, scope_versions=False)
        elif sec == "message":
            x = message(b.msgs[path])
        elif sec == "interface":
            x = interface(b.ifaces[path])
        else:
            x = frame(b.frames[path], e)
        out.append((ns, sec, x, path))
    b.ghosts = len(GHOSTS)      # values which are never active and cannot be written out
    return out
