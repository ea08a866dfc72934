"""Comparison of the expected model (proto.Builder) with the dump of the real one."""
import math
from .proto import NYD, MAXU, min_len, max_len, bit_len, msg_len, trange, int_range, F, C, Raw


def iv_union(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def fv_union(ivs):
    out, odd = [], set()
    for a, b in ivs:
        if a != a:
            odd.add("nan")
        elif math.isinf(a) and a == b:
            odd.add(str(a))
        else:
            out.append([a, b])
    res = []
    for a, b in sorted(out):
        if res and a <= res[-1][1]:
            res[-1][1] = max(res[-1][1], b)
        else:
            res.append([a, b])
    return [[repr(a), repr(b)] for a, b in res] + sorted(odd)


def by_version(ranges, since, depr, V, conv, lo=None, hi=None):
    """semantic view of valid ranges: for every version of the element the union of the active ones"""
    res, prev = [], None
    for v in range(since, min(depr, V + 1)):
        act = []
        for a, b, s, d in ranges:
            if s <= v < d:
                if lo is not None:
                    a, b = max(a, lo), min(b, hi)
                    if a > b:
                        continue
                act.append((a, b))
        u = conv(act)
        if u != prev:
            res.append([v, u])
            prev = u
    return res


def fp(x):
    return "nan" if x != x else repr(float(x))


def vals(lst, since, depr, n):
    """named values with effective versions"""
    return sorted([[x[0], max(x[1], since), min(x[2], depr)] + list(x[3:n]) for x in lst])


# ---- expected side -------------------------------------------------------------------------------
class Exp:
    def __init__(self, b, lens=True, owner=None):
        self.b, self.V, self.lens = b, b.V, lens
        self.owner = owner      # path -> name of the schema: references are shown with the schema they lead to
        self.sname = b.schema.name

    def cond(self, c):
        if c is None:
            return None
        if c.kind == "expr":
            return {"l": c.l, "op": c.op, "r": c.r, "li": operand(c.l), "ri": operand(c.r)}
        return {"type": 0 if c.kind == "and" else 1, "conds": [self.cond(x) for x in c.conds]}

    def sub(self, f, s=0, d=NYD):
        if f is None:
            return None
        if f.ext:
            return "@%s.%s" % (self.owner(f.ext), f.ext) if self.owner else f.ext
        return self.field(f, s, d)

    def aliases(self, a):
        return sorted([[x["name"], x["field"], x["description"]] for x in a])

    def field(self, f, since=0, depr=NYD):
        s, d = max(since, f.since), min(depr, f.depr)
        o = {"kind": f.kind, "name": f.name, "displayName": f.displayName, "description": f.description, "sem": f.sem, "since": s, "depr": d,
             "removed": f.removed, "pseudo": f.pseudo, "fixed": f.fixed, "custom": f.custom, "failInv": f.failInv, "forceGen": f.forceGen,
             "ovr": list(f.ovr), "copyCode": f.copyCode, "xattrs": sorted([k, v] for k, v in f.xattrs.items()),
             "ref0": f.ext or "", "ref1": "@%s.%s" % (self.owner(f.ext) if self.owner else self.sname, f.ext) if f.ext else ""}
        if self.lens:
            o["min"], o["max"] = min_len(f), max_len(f)
            o["bits"] = f._bits
        k = f.kind
        if k == "int":
            lo, hi = trange(f.type)
            o.update(type=f.type, endian=f.endian, off=f.off, minV=int_range(f)[0], maxV=int_range(f)[1], scal=list(f.scal), units=f.units,
                     vcv=f.vcv, dd=f.dd, doff=f.doff, sext=f.sext, avail=f.avail,
                     valid=by_version(f.valid, s, d, self.V, iv_union, lo, hi), specials=vals(f.specials, s, d, 6))
            o["def"] = f.defv
        elif k == "float":
            o.update(type=f.type, endian=f.endian, units=f.units, vcv=f.vcv, dd=f.dd, nonUniq=f.nonUniq,
                     valid=by_version(f.valid, s, d, self.V, fv_union),
                     specials=vals([x[:5] + (fp(x[5]),) for x in f.specials], s, d, 6))
            o["def"] = fp(f.defv)
        elif k == "enum":
            vv = [x[5] for x in f.values]
            o.update(type=f.type, endian=f.endian, vcv=f.vcv, hex=f.hex, avail=f.avail, nonUniqAllowed=f.nonUniqAllowed,
                     uniq=len(set(vv)) == len(vv), values=vals(f.values, s, d, 6), rev=sorted([x[5], x[0]] for x in f.values))
            o["def"] = f.defv
        elif k == "set":
            ii = [x[5] for x in f.bitsInfo]
            o.update(type=f.type, endian=f.endian, vcv=f.vcv, avail=f.avail, nonUniqAllowed=f.nonUniqAllowed, defBit=f.defBit, resBit=f.resBit,
                     uniq=len(set(ii)) == len(ii), bitsInfo=vals(f.bitsInfo, s, d, 9), rev=sorted([x[5], x[0]] for x in f.bitsInfo))
        elif k == "bitfield":
            o.update(endian=f.endian, members=[self.field(m, s, d) for m in f.members], validCond=self.cond(f.validCond))
        elif k == "bundle":
            o.update(members=[self.field(m, s, d) for m in f.members], aliases=self.aliases(f.aliases), validCond=self.cond(f.validCond))
        elif k in ("string", "data"):
            o.update(len=f.len, prefix=self.sub(f.prefix, s, d), dprefix=f.dprefix, valid=by_version([(x[0], x[0], x[1], x[2]) for x in f.valid], s, d, self.V,
                                                                                             lambda a: sorted({x[0] for x in a})))
            o["def"] = f.defv
            if k == "string":
                o.update(enc=f.enc, zterm=f.zterm)
        elif k == "list":
            o.update(elem=self.sub(f.elem, s, d), count=f.count, cprefix=self.sub(f.cprefix, s, d), lprefix=self.sub(f.lprefix, s, d), elprefix=self.sub(f.elprefix, s, d),
                     tsuffix=self.sub(f.tsuffix, s, d), dcprefix=f.dcprefix, dlprefix=f.dlprefix, delprefix=f.delprefix, dtsuffix=f.dtsuffix, elemFixed=f.elemFixed)
        elif k == "ref":
            o.update(field=self.sub(f.field, s, d))
        elif k == "optional":
            o.update(mode=f.mode, field=self.sub(f.field, s, d), cond=self.cond(f.cond), missRF=f.missRF, missInv=f.missInv)
        elif k == "variant":
            o.update(members=[self.field(m, s, d) for m in f.members], defIdx=f.defIdx)
        return o

    def message(self, m):
        o = {"name": m.name, "displayName": m.displayName, "description": m.description, "id": m.id, "order": m.order, "since": m.since, "depr": m.depr,
             "removed": m.removed, "ref0": m.ext, "ref1": "@%s.%s" % (self.sname, m.ext), "custom": m.custom, "failInv": m.failInv, "sender": m.sender,
             "ovr": list(m.ovr), "copyCode": m.copyCode, "construct": self.cond(m.construct), "readCond": self.cond(m.readCond),
             "validCond": self.cond(m.validCond), "platforms": m.platforms, "aliases": self.aliases(m.aliases),
             "fields": [self.field(f, m.since, m.depr) for f in m.fields]}
        if self.lens:
            o["min"], o["max"] = msg_len(m)
        return o

    def interface(self, m):
        return {"name": m.name, "description": m.description, "ref0": m.ext, "ref1": "@%s.%s" % (self.sname, m.ext), "copyCode": m.copyCode,
                "aliases": self.aliases(m.aliases), "fields": [self.field(f) for f in m.fields]}

    def layer(self, l):
        o = {"kind": l.kind, "name": l.name, "displayName": l.displayName, "description": l.description, "field": self.sub(l.field)}
        d = l.__dict__
        for k in ("sem", "until", "seek", "vbr", "after", "alg", "calg", "fname", "fidx", "pseudo"):
            if k in d:
                o[k] = d[k]
        if "from_" in d:
            o["from"] = d["from_"]
        if "esc" in d:
            o["esc"] = self.sub(d["esc"])
        if "ifaces" in d:
            o["ifaces"] = ["@%s.%s" % (self.owner(x), x) if self.owner else x for x in d["ifaces"]]
        return o

    def frame(self, f):
        return {"name": f.name, "displayName": f.displayName, "description": f.description, "ref0": f.ext, "ref1": "@%s.%s" % (self.sname, f.ext),
                "layers": [self.layer(x) for x in f.layers]}

    def ns(self, n):
        srt = lambda l: sorted(l, key=lambda x: x["name"])
        return {"name": n.name, "displayName": n.displayName, "description": n.description,
                "ref0": n.path, "ref1": "@%s%s" % (self.sname, "." + n.path if n.path else ""),
                "hasMsgs": has_msgs(n), "ns": srt([self.ns(x) for x in n.ns]), "fields": srt([self.field(f) for f in n.fields]),
                "interfaces": srt([self.interface(x) for x in n.interfaces]), "messages": srt([self.message(x) for x in n.messages]),
                "frames": srt([self.frame(x) for x in n.frames])}

    def schema(self):
        s = self.b.schema
        return {"name": s.name, "displayName": s.displayName, "description": s.description, "id": s.id, "version": s.version, "dsl": s.dsl,
                "endian": s.endian, "nonUniqIds": s.nonUniqIds, "ref": "@" + s.name, "platforms": sorted(s.platforms),
                "ns": sorted([self.ns(x) for x in s.ns], key=lambda x: x["name"])}


def has_msgs(n):
    return bool(n.messages)


def operand(v):
    if not v:
        return [0, 0, ""]
    if v[0] not in "$%":
        return [1, 0, v]
    t = 2 if v[0] == "$" else 3
    if v[1:2] == "#":
        return [t, 1, v[2:]]
    if v[1:2] == "?":
        return [t, 2, v[2:]]
    return [t, 0, v[1:]]


def unqual(ref):
    return ref[ref.index(".") + 1:] if ref.startswith("@") else ref


# ---- dumped side ---------------------------------------------------------------------------------
class Got:
    def __init__(self, V, lens=True, full=False):
        self.V, self.lens, self.full = V, lens, full

    def sub(self, f, s=0, d=NYD):
        if f is None:
            return None
        if isinstance(f, str):
            if self.full:
                return f
            return f[f.index(".") + 1:] if f.startswith("@") else f
        return self.field(f, s, d)

    def aliases(self, a):
        return sorted([[x["name"], x["field"], x["description"]] for x in a])

    def field(self, f, since=0, depr=NYD):
        s, d = max(since, f["since"]), min(depr, f["depr"])
        o = {k: f[k] for k in ("kind", "name", "displayName", "description", "sem", "removed", "pseudo", "fixed", "custom", "failInv", "forceGen", "ovr",
                               "copyCode", "ref0", "ref1")}
        o["copyCode"] = unqual(o["copyCode"])
        o["since"], o["depr"], o["xattrs"] = s, d, sorted(f["xattrs"])
        if self.lens:
            o["min"], o["max"], o["bits"] = f["min"], f["max"], f["bits"]
        k = f["kind"]
        cp = lambda *ks: o.update({x: f[x] for x in ks})
        if k == "int":
            lo, hi = trange(f["type"])
            cp("type", "endian", "off", "def", "scal", "units", "vcv", "dd", "doff", "sext", "avail")
            o["minV"], o["maxV"] = max(f["minV"], lo), min(f["maxV"], hi)
            o["valid"] = by_version(f["valid"], s, d, self.V, iv_union, lo, hi)
            o["specials"] = vals(f["specials"], s, d, 6)
        elif k == "float":
            cp("type", "endian", "units", "vcv", "dd", "nonUniq")
            o["def"] = fp(float(f["def"]))
            o["valid"] = by_version([(float(a), float(b), x, y) for a, b, x, y in f["valid"]], s, d, self.V, fv_union)
            o["specials"] = vals([list(x[:5]) + [fp(float(x[5]))] for x in f["specials"]], s, d, 6)
        elif k == "enum":
            cp("type", "endian", "vcv", "hex", "avail", "nonUniqAllowed", "uniq", "def")
            o["values"], o["rev"] = vals(f["values"], s, d, 6), sorted(f["rev"])
        elif k == "set":
            cp("type", "endian", "vcv", "avail", "nonUniqAllowed", "uniq", "defBit", "resBit")
            o["bitsInfo"], o["rev"] = vals(f["bitsInfo"], s, d, 9), sorted(f["rev"])
        elif k == "bitfield":
            cp("endian", "validCond")
            o["members"] = [self.field(m, s, d) for m in f["members"]]
        elif k == "bundle":
            cp("validCond")
            o["members"], o["aliases"] = [self.field(m, s, d) for m in f["members"]], self.aliases(f["aliases"])
        elif k in ("string", "data"):
            cp("len", "dprefix", "def")
            o["prefix"] = self.sub(f.get("prefix"), s, d)
            o["valid"] = by_version([(x[0], x[0], x[1], x[2]) for x in f["valid"]], s, d, self.V, lambda a: sorted({x[0] for x in a}))
            if k == "string":
                cp("enc", "zterm")
        elif k == "list":
            cp("count", "dcprefix", "dlprefix", "delprefix", "dtsuffix", "elemFixed")
            for x in ("elem", "cprefix", "lprefix", "elprefix", "tsuffix"):
                o[x] = self.sub(f.get(x), s, d)
        elif k == "ref":
            o["field"] = self.sub(f["field"], s, d)
        elif k == "optional":
            cp("mode", "cond", "missRF", "missInv")
            o["field"] = self.sub(f["field"], s, d)
        elif k == "variant":
            cp("defIdx")
            o["members"] = [self.field(m, s, d) for m in f["members"]]
        return o

    def message(self, m):
        o = {k: m[k] for k in ("name", "displayName", "description", "id", "order", "since", "depr", "removed", "ref0", "ref1", "custom", "failInv",
                               "sender", "ovr", "copyCode", "construct", "readCond", "validCond", "platforms")}
        o["copyCode"] = unqual(o["copyCode"])
        o["aliases"] = self.aliases(m["aliases"])
        o["fields"] = [self.field(f, m["since"], m["depr"]) for f in m["fields"]]
        if self.lens:
            o["min"], o["max"] = m["min"], m["max"]
        return o

    def interface(self, m):
        o = {k: m[k] for k in ("name", "description", "ref0", "ref1", "copyCode")}
        o["copyCode"] = unqual(o["copyCode"])
        o["aliases"] = self.aliases(m["aliases"])
        o["fields"] = [self.field(f) for f in m["fields"]]
        return o

    def layer(self, l):
        o = {k: v for k, v in l.items() if k not in ("xattrs", "xelems")}
        o["field"] = self.sub(l.get("field"))
        if l["kind"] == "sync":
            o["esc"] = self.sub(l.get("esc"))
        if "ifaces" in o:
            o["ifaces"] = [self.sub(x) for x in o["ifaces"]]
        return o

    def frame(self, f):
        o = {k: f[k] for k in ("name", "displayName", "description", "ref0", "ref1")}
        o["layers"] = [self.layer(x) for x in f["layers"]]
        return o

    def ns(self, n):
        o = {k: n[k] for k in ("name", "displayName", "description", "ref0", "ref1", "hasMsgs")}
        srt = lambda l: sorted(l, key=lambda x: x["name"])
        o["ns"] = srt([self.ns(x) for x in n["ns"]])
        o["fields"] = srt([self.field(f) for f in n["fields"]])
        o["interfaces"] = srt([self.interface(x) for x in n["interfaces"]])
        o["messages"] = srt([self.message(x) for x in n["messages"]])
        o["frames"] = srt([self.frame(x) for x in n["frames"]])
        return o

    def schema(self, s):
        o = {k: s[k] for k in ("name", "displayName", "description", "id", "version", "dsl", "endian", "nonUniqIds", "ref")}
        o["platforms"] = sorted(s["platforms"])
        o["ns"] = sorted([self.ns(x) for x in s["ns"]], key=lambda x: x["name"])
        return o


def latin(x):
    """the dump shows the bytes of strings one by one"""
    if isinstance(x, dict):
        return {k: latin(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [latin(v) for v in x]
    if isinstance(x, str) and not isinstance(x, Raw):
        return x.encode("utf-8").decode("latin-1")
    return x


def diff(a, b, path="", out=None, limit=8):
    """differences expected / got, readable"""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                out.append("%s.%s: expected %r, missing" % (path, k, a[k]))
            else:
                diff(a[k], b[k], "%s.%s" % (path, k), out, limit)
        for k in b:
            if k not in a:
                out.append("%s.%s: unexpected %r" % (path, k, b[k]))
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            lab = x.get("name", i) if isinstance(x, dict) else i
            diff(x, y, "%s[%s]" % (path, lab), out, limit)
    elif a != b or isinstance(a, bool) != isinstance(b, bool):
        out.append("%s: expected %s, got %s" % (path, short(a), short(b)))
    return out


def short(x):
    s = repr(x)
    if isinstance(x, list) and x and isinstance(x[0], dict):
        s = "[%s]" % ", ".join(str(y.get("name")) for y in x)
    return s if len(s) < 300 else s[:300] + "..."


def flatten(ns, kind_lists=("fields", "interfaces", "messages", "frames")):
    """path -> element of a namespace tree"""
    out = {}
    for k in kind_lists:
        for x in ns[k]:
            out[(k, x["ref0"])] = x
    for n in ns["ns"]:
        out.update(flatten(n))
    return out
