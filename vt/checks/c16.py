"""C16: the C interface generated by commsdsl2c against the C++ classes of commsdsl2comms: programs doing the same through both."""
import os, re, subprocess
from ..harness import Check, Result, Violation, Skip, fingerprint
from .. import build, codec, gencpp
from ..gencpp import acc, cls
from .c13 import domain
from .c15 import Project, files, use, shape

SIGNED = ("int8", "int16", "int32", "int64", "intvar")


class Gen:
    """functions dumping and changing every kind of fields through the C interface (cd_, cm_) and through the C++ classes (xd_, xm_)"""

    def __init__(self, p, cc):
        self.p, self.b, self.cc, self.prefix = p, p.b, cc, p.main
        self.done, self.text, self.fwd = set(), [], []
        self.kinds = {}
        self.glob = {id(f): path for path, f in self.b.fields.items()}

    def cname(self, path, sub=""):
        return gencpp.scope(path, sub, self.p.aux if path in self.p.moved and sub == "field" else self.prefix).replace("::", "_")

    @property
    def opt(self):
        """options of all the schemas"""
        return "%s::options::DefaultOptionsT<%s::options::DefaultOptions>" % (self.p.main, self.p.aux) if self.p.aux else "%s::options::DefaultOptions" % self.p.main

    def home(self, path):
        return self.p.aux if path in self.p.moved else self.p.main

    def ext(self, f):
        """handle and C++ type of a global field"""
        path = self.glob[id(f)]
        h = self.cname(path, "field")
        self.field(codec.Node(f, self.cc, None), h)
        return h, "::%s<%s>" % (gencpp.scope(path, "field", self.home(path)), "::" + self.opt if self.p.aux else "")

    def field(self, n, base):
        """returns the name of the handle"""
        if base in self.done:
            return base
        self.done.add(base)
        if n.wrap:
            self.one("optional", None, base, base, inner=(self.one(n.kind, n, base + "Field", base), None))
            return base
        return self.one(n.kind, n, base, base)

    def one(self, kind, n, h, mb, inner=None):
        f = n.f if n else None
        self.kinds[kind if n else "version-optional"] = self.kinds.get(kind if n else "version-optional", 0) + 1
        cd, xd, ops = [], [], []            # ops: (C, C++)
        if kind == "int" or kind == "float":
            cd.append("cdrv::num(o, %s_getValue(f));" % h)
            xd.append("cdrv::num(o, f.getValue());")
            if f.fixed:
                pass
            elif kind == "int":
                ops.append(("%s_setValue(f, static_cast<%s_ValueType>(r.num()));" % (h, h), "f.setValue(static_cast<typename std::decay_t<decltype(f)>::ValueType>(r.num()));"))
            else:
                fl = "float" if f.type == "float" else "double"
                rnd = "auto n = r.num(); %s v; std::memcpy(&v, &n, sizeof(v)); if (v != v) v = 0; if (r.below(2)) v = static_cast<%s>(r.below(1000)) / 8;" % (fl, fl)
                ops.append((rnd + " %s_setValue(f, v);" % h, rnd + " f.setValue(v);"))
            for s in f.specials:
                c = cls(s[0])
                cd.append("cdrv::num(o, %s_value%s()); o << %s_is%s(f);" % (h, c, h, c))
                xd.append("cdrv::num(o, f.value%s()); o << f.is%s();" % (c, c))
                if not f.fixed:
                    ops.append(("%s_set%s(f);" % (h, c), "f.set%s();" % c))
        elif kind == "enum":
            vals = [(x[0], x[5] & codec.mask(64)) for x in f.values]
            for nm, v in vals:
                self.text.append("static_assert(static_cast<unsigned long long>(%s_ValueType_%s) == %dULL, \"enumerator\");" % (mb, nm, v))
            cd.append("{ auto v = %s_getValue(f);%s o << \" ?\"; }" % (h, "".join(" if (static_cast<unsigned long long>(v) == static_cast<unsigned long long>(%s_ValueType_%s)) o << \" %d\"; else" % (mb, a, v) for a, v in vals)))
            xd.append("{ auto v = static_cast<%s_ValueType>(f.getValue());%s o << \" ?\"; }" % (h, "".join(" if (static_cast<unsigned long long>(v) == %dULL) o << \" %d\"; else" % (v, v) for a, v in vals)))
            for nm, v in vals[:12] if not f.fixed else ():
                ops.append(("%s_setValue(f, %s_ValueType_%s);" % (h, mb, nm), "f.setValue(static_cast<std::decay_t<decltype(f.getValue())>>(%dULL));" % v))
        elif kind == "set":
            cd.append("o << \" \" << static_cast<unsigned long long>(%s_getValue(f));" % h)
            xd.append("o << \" \" << static_cast<unsigned long long>(f.getValue());")
            ops.append(("%s_setValue(f, static_cast<%s_ValueType>(r.num()));" % (h, h), "f.setValue(static_cast<std::decay_t<decltype(f.getValue())>>(r.num()));"))
            for x in f.bitsInfo:
                nm, i = x[0], x[5]
                if x[7]:
                    continue            # reserved
                self.text.append("static_assert(static_cast<unsigned>(%s_BitIdx_%s) == %dU, \"bit\");" % (h, nm, i))
                cd.append("o << %s_getBitValue_%s(f) << %s_getBitValue(f, %s_BitIdx_%s);" % (h, nm, h, h, nm))
                xd.append("o << ((static_cast<unsigned long long>(f.getValue()) >> %d) & 1) << ((static_cast<unsigned long long>(f.getValue()) >> %d) & 1);" % (i, i))
                setx = "bool v = r.below(2); auto x = f.getValue(); f.setValue(static_cast<decltype(x)>(v ? x | (1ULL << %d) : x & ~(1ULL << %d)));" % (i, i)
                ops.append(("bool v = r.below(2); %s_setBitValue_%s(f, v);" % (h, nm), setx))
                ops.append(("bool v = r.below(2); %s_setBitValue(f, %s_BitIdx_%s, v);" % (h, h, nm), setx))
        elif kind in ("string", "data"):
            ch = "char" if kind == "string" else "std::uint8_t"
            cd.append("cdrv::cbytes<%s>(o, f, &%s_getValue, &%s_valueSize);" % (ch, h, h))
            xd.append("cdrv::xbytes<%s>(o, f);" % ch)
            ops.append(("auto s = r.bytes(9); %s_setValue(f, reinterpret_cast<const %s*>(s.data()), s.size());" % (h, ch), "auto s = r.bytes(9); f.value().assign(s.begin(), s.end());"))
        elif kind in ("bundle", "bitfield"):
            for m in n.members:
                mh = self.field(m, "%sMembers_%s" % (mb, cls(m.f.name)))
                a = acc(m.f.name)
                cd.append("cd_%s(o, %s_field_%s(f));" % (mh, h, a))
                xd.append("xd_%s(o, f.field_%s());" % (mh, a))
                ops.append(("cm_%s(o, r, %s_field_%s(f));" % (mh, h, a), "xm_%s(o, r, f.field_%s());" % (mh, a)))
        elif kind == "ref":
            g, t = self.ext(f.field)
            cd.append("cd_%s(o, %s_ref(f));" % (g, h))
            xd.append("xd_%s(o, reinterpret_cast<%s&>(f));" % (g, t))
            ops.append(("cm_%s(o, r, %s_ref(f));" % (g, h), "xm_%s(o, r, reinterpret_cast<%s&>(f));" % (g, t)))
        elif kind == "list":
            if id(f.elem) in self.glob:
                g, t = self.ext(f.elem)
                cast = "reinterpret_cast<%s&>(%%s)" % t
            else:
                g, cast = self.field(n.elem, "%sMembers_%s" % (mb, cls(f.elem.name))), "%s"
            cd.append("{ auto n = %s_count(f); o << \" l\" << n; for (std::size_t i = 0; i < n; ++i) cd_%s(o, %s_at(f, i)); o << (%s_at(f, n) == nullptr) << (%s_at(f, n + 7) == nullptr); }" % (h, g, h, h, h))
            xd.append("{ auto n = f.value().size(); o << \" l\" << n; for (auto& e : f.value()) xd_%s(o, %s); o << 1 << 1; }" % (g, cast % "e"))
            ops.append(("auto n = r.below(5); %s_resize(f, n);" % h, "auto n = r.below(5); f.value().resize(n);"))
            ops += 2 * [("auto n = %s_count(f); auto i = r.below(n + 2); if (n < 8) { auto* e = %s_insert(f, i); o << (e == nullptr) << (e == %s_at(f, i)); if (e) cm_%s(o, r, e); }" % (h, h, h, g),
                         "auto& v = f.value(); auto n = v.size(); auto i = r.below(n + 2); if (n < 8) { if (i < n) v.insert(v.begin() + i, typename std::decay_t<decltype(v)>::value_type()); else v.resize(i + 1); "
                         "o << 0 << 1; xm_%s(o, r, %s); }" % (g, cast % "v[i]"))]
            ops.append(("if (%s_count(f) < 8) { auto* e = %s_append(f); o << (e == nullptr) << (e == %s_at(f, %s_count(f) - 1)); if (e) cm_%s(o, r, e); }" % (h, h, h, h, g),
                        "if (f.value().size() < 8) { f.value().emplace_back(); o << 0 << 1; xm_%s(o, r, %s); }" % (g, cast % "f.value().back()")))
            ops.append(("o << %s_remove(f, r.below(%s_count(f) + 2));" % (h, h),
                        "auto& v = f.value(); auto i = r.below(v.size() + 2); o << (i < v.size()); if (i < v.size()) v.erase(v.begin() + i);"))
            ops += 2 * [("auto n = %s_count(f); if (n) cm_%s(o, r, %s_at(f, r.below(n)));" % (h, g, h), "auto& v = f.value(); if (!v.empty()) { auto& e = v[r.below(v.size())]; xm_%s(o, r, %s); }" % (g, cast % "e"))]
        elif kind == "optional":
            if inner:
                g, cast = inner[0], "%s"
            elif id(f.field) in self.glob:
                g, t = self.ext(f.field)
                cast = "reinterpret_cast<%s&>(%%s)" % t
            else:
                g, cast = self.field(n.sub, "%sMembers_%s" % (mb, cls(f.field.name))), "%s"
            cd.append("o << \" o\" << %s_doesExist(f) << %s_isMissing(f) << %s_isTentative(f); cd_%s(o, %s_field(f));" % (h, h, h, g, h))
            xd.append("o << \" o\" << f.doesExist() << f.isMissing() << f.isTentative(); xd_%s(o, %s);" % (g, cast % "f.field()"))
            for x in ("setExists", "setMissing", "setTentative"):
                ops.append(("%s_%s(f);" % (h, x), "f.%s();" % x))
            ops += 2 * [("cm_%s(o, r, %s_field(f));" % (g, h), "xm_%s(o, r, %s);" % (g, cast % "f.field()"))]
        elif kind == "variant":
            ms = []
            for i, m in enumerate(n.members):
                mh = self.field(m, "%sMembers_%s" % (mb, cls(m.f.name)))
                a = acc(m.f.name)
                ms.append((mh, a))
                self.text.append("static_assert(static_cast<int>(%s_FieldIdx_%s) == %d, \"member\");" % (mb, a, i))
                ops.append(("%s_reset(f); cm_%s(o, r, %s_initField_%s(f));" % (h, mh, h, a), "f.reset(); xm_%s(o, r, f.initField_%s());" % (mh, a)))
                ops.append(("if (%s_currentField(f) == %s_FieldIdx_%s) %s_deinitField_%s(f);" % (h, mb, a, h, a), "if (f.currentField() == %dU) f.reset();" % i))
                ops.append(("%s_selectField(f, %s_FieldIdx_%s); cm_%s(o, r, %s_accessField_%s(f));" % (h, mb, a, mh, h, a), "f.selectField(%dU); xm_%s(o, r, f.accessField_%s());" % (i, mh, a)))
            ops.append(("%s_reset(f);" % h, "f.reset();"))
            n_ = len(ms)
            self.text.append("static_assert(static_cast<int>(%s_FieldIdx_numOfValues) == %d, \"members\");" % (mb, n_))
            self.text.append("static std::ostream* vo_%s = nullptr;" % h)
            cd.append("o << \" v\" << static_cast<int>(%s_currentField(f));" % h)
            xd.append("o << \" v\" << std::min<std::size_t>(f.currentField(), %d);" % n_)
            cd.append("{ auto* save = vo_%s; vo_%s = &o; %s_MemHandler hn = {}; %s_currFieldExec(f, &hn); %s_currFieldExec(f, nullptr);" % (h, h, mb, h, h) +
                      "".join(" hn.handle_%s = [](%s* x) { *vo_%s << \" %s\"; cd_%s(*vo_%s, x); };" % (a, mh, h, a, mh, h) for mh, a in ms) + " %s_currFieldExec(f, &hn); vo_%s = save; }" % (h, h))
            xd.append("switch (f.currentField()) {" + "".join(" case %d: o << \" %s\"; xd_%s(o, f.accessField_%s()); break;" % (i, a, mh, a) for i, (mh, a) in enumerate(ms)) + " default: break; }")
        else:
            raise Skip("kind " + kind)
        L = len(ops) + 1
        self.fwd.append("static void cd_%s(std::ostream& o, %s* f); static void cm_%s(std::ostream& o, cdrv::Rng& r, %s* f); template <class F> void xd_%s(std::ostream& o, F& f); template <class F> void xm_%s(std::ostream& o, cdrv::Rng& r, F& f);" %
                        (h, h, h, h, h, h))
        self.text.append("static void cd_%s(std::ostream& o, %s* f) { (void)o; if (!f) { o << \" NULL\"; return; } o << \"(\"; %s cdrv::ccommon(o, static_cast<const %s*>(f), &%s_write, &%s_length, &%s_name, &%s_valid); o << \")\"; }" %
                         (h, h, " ".join(cd), h, h, h, h, h))
        self.text.append("template <class F> void xd_%s(std::ostream& o, F& f) { o << \"(\"; %s cdrv::xcommon(o, f); o << \")\"; }" % (h, " ".join(xd)))
        self.text.append("static void cm_%s(std::ostream& o, cdrv::Rng& r, %s* f) { (void)o; if (r.below(9) == 0) { cdrv::cread(o, r, f, &%s_read); return; } switch (r.below(%d)) {%s default: break; } }" %
                         (h, h, h, L, "".join(" case %d: { %s break; }" % (i, x[0]) for i, x in enumerate(ops))))
        self.text.append("template <class F> void xm_%s(std::ostream& o, cdrv::Rng& r, F& f) { (void)o; if (r.below(9) == 0) { cdrv::xread(o, r, f); return; } switch (r.below(%d)) {%s default: break; } }" %
                         (h, L, "".join(" case %d: { %s break; }" % (i, x[1]) for i, x in enumerate(ops))))
        return h


def frame_code(p, g, b, I, own, msgs, d, out, bundle):
    """functions which do the same through the C frame functions and through the C++ frame; returns the headers they need"""
    ns = list(b.ifaces)[0].rpartition(".")[0]
    text = {}
    for h in files(d + "/include", ".h"):
        with open(os.path.join(d, "include", h)) as f:
            text[h] = f.read()
    inc = []
    # what is handled is decided by the mask
    out.append("template <class M> void RefHandler::handle(M& m) { (void)m;\n  if constexpr (std::is_same_v<M, RefIface>) iface(*o, m.name(), static_cast<unsigned long long>(m.getId()), mask);\n" +
               "".join("  else if constexpr (std::is_same_v<M, X%d>) { if ((mask >> %d) & 1) { *o << \" M%d\"; xd_m%d(*o, m); } else iface(*o, m.name(), static_cast<unsigned long long>(static_cast<RefIface&>(m).getId()), mask); }\n" % (i, i, i, i) for i in own) +
               "  else if constexpr (std::is_base_of_v<RefIface, M>) handle(static_cast<RefIface&>(m));\n  else *o << \" UNKNOWN\"; }")
    out.append("struct User { std::ostream* o; unsigned long long mask; };")
    done = []
    for k, (path, fr) in enumerate(b.frames.items()):
        if ns and not (path + ".").startswith(ns + "."):
            continue
        F = g.cname(path, "frame")
        h = [x for x, t in text.items() if re.search(r"\b%s_processInputData\(" % F, t)]
        if len(h) != 1:
            p.fail("frame %s: declared in %s" % (path, h), "c-frame")
        t = text[h[0]]
        H = re.search(r"\b%s_processInputData\([^)]*?(\w+)\* handler" % F, t).group(1)
        ID = re.search(r"\b%s_createMsg\(\w+\* \w+, (\w+) " % F, t).group(1)
        ht = next(x for x in text.values() if re.search(r"\} %s;" % H, x))
        names = re.findall(r"\(\*handle_(\w+)\)", ht)
        # messages of the namespace of the interface (the nameless one does not contain the others, it may still handle them)
        must = [m for i, m in own.items() if ns or "." not in list(msgs)[i]] + [I]
        if len(set(names)) != len(names) or not set(must) <= set(names) <= set(own.values()) | {I}:
            p.fail("%s has the functions %s, must have %s" % (H, sorted(names), sorted(must)), "c-handler")
        hand = {i: m for i, m in own.items() if m in names}
        fv = re.search(r"typedef struct\s*\{([^{}]*)\} %s_FrameValues;" % F, t)
        members = re.findall(r"(\*?) m_(\w+);", fv.group(1)) if fv else []
        fns = path.rpartition(".")[0]
        inc += [gencpp.header(path, "frame", p.main)]
        if bundle:
            am = gencpp.scope((fns + "." if fns else "") + bundle, "input", p.main) + "<RefIface, %s>" % g.opt
            inc += [gencpp.header((fns + "." if fns else "") + bundle, "input", p.main)]
        else:
            l = sorted((m.id, m.order, i) for i, (x, m) in enumerate(msgs.items()) if (x.startswith(fns + ".") if fns else "." not in x))
            am = "std::tuple<%s>" % ", ".join("X%d" % x[2] for x in l)
        lay = {acc(l.name): l for l in fr.layers}
        pay = next((l.name for l in fr.layers if l.kind == "payload"), None)
        vals_c, vals_x = [], []
        for star, nm in members:
            if nm in lay and lay[nm].kind != "payload":
                vals_c.append("cdrv::num(a, static_cast<long long>(fv.m_%s));" % nm)
                vals_x.append("cdrv::num(b, static_cast<long long>(static_cast<decltype(fv.m_%s)>(std::get<std::tuple_size_v<typename RF::AllFields> - std::tuple_size_v<typename std::decay_t<decltype(xf.layer_%s())>::AllFields>>(all).value())));" % (nm, nm))
        haspay = acc(pay) in [m for _, m in members]
        if not haspay:
            p.fail("frame %s: no payload among the values of the frame" % path, "c-frame")
        missing = [n for n, l in lay.items() if l.kind in ("size", "id", "sync") and l.field is not None and l.field.kind == "int" and n not in [m for _, m in members]]
        if missing:
            p.fail("frame %s: no value of the layer %s" % (path, missing[0]), "c-frame")
        P = acc(pay)
        sub = {"O": g.opt, "k": k, "F": F, "H": H, "ID": ID, "I": I, "P": P, "X": gencpp.scope(path, "frame", p.main), "A": am, "vc": " ".join(vals_c), "vx": " ".join(vals_x),
               "hn": "\n".join("  if ((mask >> %d) & 1) h.handle_%s = [](struct %s_* m, void* u) { auto& o = *static_cast<User*>(u)->o; o << \" M%d\"; cd_m%d(o, m); };" % (i, m, m, i, i) for i, m in hand.items()),
               "ids": ", ".join(str(m.id & codec.mask(64)) + "ULL" for m in b.msgs.values()),
               "lay": " ".join("a << (%s_layer_%s(cf) != nullptr); b << 1;" % (F, n) for n in lay),
               "n": len(msgs), "hm": sum(1 << i for i in hand) | 1 << 63,
               "mk": "\n".join("""      case %d: { auto* m = %s_alloc(); X%d x; std::ostringstream null;
        for (auto n = rng.below(5); n > 0; --n) { cdrv::Rng s1 = rng, s2 = rng; cm_m%d(null, s1, m); xm_m%d(null, s2, x); rng.next(); }
        put(%s_toInterface(m), static_cast<RefIface&>(x)); %s_free(m); break; }""" % (i, M, i, i, i, M, M) for i, M in own.items())}
        out.append("""static void frame%(k)d(cdrv::Rng& rng, std::ostream& o) {
  using RF = %(X)s<RefIface, %(A)s, %(O)s>;
  auto* cf = %(F)s_alloc(); RF xf; std::vector<std::uint8_t> in;
  bool good = true;
  std::ostringstream a, b;
  auto check = [&](const char* what) { if (good && a.str() != b.str()) { o << "DIFF " << what << " 0\\t" << a.str() << "\\t" << b.str(); good = false; } a.str(""); b.str(""); };
  %(lay)s check("layers");
  auto mask = rng.below(3) ? rng.next() ^ (rng.next() << 30) : rng.below(2) ? ~0ULL : (1ULL << 63);
  if (rng.below(3)) mask |= 1ULL << 63; else mask &= ~(1ULL << 63);
  mask &= %(hm)dULL;
  User user{&a, mask}; RefHandler rh; rh.o = &b; rh.mask = mask;
  %(H)s h = {};
%(hn)s
  if (mask >> 63) h.handle_%(I)s = [](struct %(I)s_* m, void* u) { auto& o = *static_cast<User*>(u)->o; iface(o, %(I)s_name(m), static_cast<unsigned long long>(%(I)s_getId(m)), ~0ULL); };
  auto put = [&](%(I)s* c, RefIface& x) {
    a << "dispatch"; b << "dispatch"; %(I)s_dispatch(c, &h, &user); x.dispatch(rh); check("dispatch");
    auto lc = %(F)s_messageLength(cf, c); auto lx = xf.length(x);
    a << "len " << lc; b << "len " << lx;
    auto room = rng.below(3) ? lx : rng.below(3) ? lx + 3 : rng.below(lx + 1);
    std::vector<std::uint8_t> cb(room + 4, 0xee), xb(room + 4, 0xee);
    std::size_t n = room; auto* it = xb.data();
    auto ce = %(F)s_writeMessage(cf, c, cb.data(), &n); auto xe = xf.write(x, it, room);
    a << " es " << static_cast<int>(ce); b << " es " << static_cast<int>(xe);
    if (xe == comms::ErrorStatus::Success) {
      a << " " << n << "x" << drv::hex(cb.data(), cb.size()); b << " " << (it - xb.data()) << "x" << drv::hex(xb.data(), xb.size());
      in.insert(in.end(), xb.data(), it);
    }
    check("writing"); };
  for (auto n = 1 + rng.below(4); n > 0; --n) {
    switch (rng.below(%(n)d)) {
%(mk)s
    default: break; }
    if (rng.below(5) == 0) for (auto c : rng.bytes(4)) in.push_back(static_cast<std::uint8_t>(c));
  }
  if (!in.empty() && rng.below(3) == 0) in[rng.below(in.size())] = static_cast<std::uint8_t>(rng.num());
  if (rng.below(5) == 0) in.resize(rng.below(in.size() + 1));
  for (unsigned long long id : {%(ids)s, static_cast<unsigned long long>(rng.num() & 0xff)}) for (unsigned idx = 0; idx < 3; ++idx) {
    auto* c = %(F)s_createMsg(cf, static_cast<%(ID)s>(id), idx); auto x = xf.createMsg(static_cast<RefIface::MsgIdType>(id), idx);
    a << " " << id << "/" << idx << ":"; b << " " << id << "/" << idx << ":";
    if (c) { a << static_cast<unsigned long long>(%(I)s_getId(c)) << cdrv::str(%(I)s_name(c)) << "l" << %(I)s_length(c); %(F)s_deleteMsg(c); }
    if (x) b << static_cast<unsigned long long>(x->getId()) << cdrv::str(x->name()) << "l" << x->length();
  }
  check("createMsg");
  a << "all"; b << "all";
  a << " =" << %(F)s_processInputData(cf, in.data(), in.size(), &h, &user);
  b << " =" << (in.empty() ? 0 : comms::processAllWithDispatch(const_cast<const std::uint8_t*>(in.data()), in.size(), xf, rh));
  check("processInputData");
  std::size_t pos = 0;
  for (int step = 0; step < 6 && good && pos < in.size(); ++step) {
    bool values = rng.below(3) != 0; bool payload = rng.below(3) != 0; auto cap = rng.below(12);
    %(F)s_FrameValues fv; std::memset(&fv, 0, sizeof(fv)); std::vector<std::uint8_t> pb(cap + 2, 0xee), xb(cap + 2, 0xee);
    fv.m_%(P)s = payload ? pb.data() : nullptr; fv.m_%(P)sLen = cap;
    auto n1 = %(F)s_processInputDataSingleMsg(cf, in.data() + pos, in.size() - pos, &h, &user, values ? &fv : nullptr);
    std::size_t n2 = 0; bool some = false; std::size_t gotLen = cap; typename RF::AllFields all;
    while (n2 < in.size() - pos) {
      typename RF::MsgPtr msg; const std::uint8_t* it = in.data() + pos + n2;
      auto es = xf.readFieldsCached(all, msg, it, in.size() - pos - n2);
      if (es == comms::ErrorStatus::NotEnoughData) break;
      if (es == comms::ErrorStatus::ProtocolError) { ++n2; continue; }
      some = true; n2 = static_cast<std::size_t>(it - in.data()) - pos;
      if (es == comms::ErrorStatus::Success) msg->dispatch(rh);
      break;
    }
    a << " =" << n1; b << " =" << n2;
    if (values && some) {
      %(vc)s
      %(vx)s
      if (payload) { auto& v = std::get<std::tuple_size_v<typename RF::AllFields> - 1>(all).value(); gotLen = std::min<std::size_t>(cap, v.size()); std::copy_n(v.begin(), gotLen, xb.begin());
        a << "p" << fv.m_%(P)sLen; b << "p" << gotLen; a << "x" << drv::hex(pb.data(), pb.size()); b << "x" << drv::hex(xb.data(), xb.size()); }
    }
    check(values ? "processInputDataSingleMsg with values" : "processInputDataSingleMsg");
    if (!n2) break;
    pos += n2;
  }
  %(F)s_free(cf);
  if (good) o << "ok";
}""" % sub)
        done.append(k)
    return inc, done


def program(r, ctx, rounds=40, frames=False, **kw):
    p = Project(r, ctx, twop=40, noiface=True, **kw)
    b = p.b
    if not domain("commsdsl2c", b):
        raise Skip("schema outside of the domain of commsdsl2c")
    p.comms = []
    cc = codec.Ctx(b)
    g = Gen(p, cc)
    extra, sel, bundle, opt = [], list(b.msgs), "AllMessages", set()
    if r.chance(25):
        g.prefix = r.pick(["pre", "Pre_1", "a_b"])
        extra += ["-P", g.prefix]
    k = r.below(10)
    if k < 2:
        sel = [x for x in b.msgs if r.chance(60)]
        with open(os.path.join(p.root, "list.txt"), "w") as f:
            f.write("\n".join(sel) + r.pick(["", "\n", "\r\n"]))
        extra += ["--messages-list", os.path.join(p.root, "list.txt")]
        bundle = None
    elif k < 4 and b.schema.platforms:
        pl = r.pick(b.schema.platforms)
        sel = [x for x, m in b.msgs.items() if not m.platforms or pl in m.platforms]
        extra += ["--force-platform", pl]
        bundle = cls(pl) + "Messages"
    elif k < 6:
        bundle = r.pick(["ClientInputMessages", "ServerInputMessages", "AllMessages"])
        extra += ["--comms-input", bundle]
    if r.chance(20) and b.ifaces:
        extra += ["--force-interface", r.pick(list(b.ifaces))]
    opt = {"option:" + x for x in extra if x.startswith("-")}
    for fr in b.frames:
        n = fr.rpartition(".")[0]
        if not any((n == "" and "." not in x) or (n and x.startswith(n + ".")) for x in sel):
            raise Skip("nothing selected for a frame")
    d = p.out("commsdsl2c", extra)
    ip = list(b.ifaces)[0] if b.ifaces else "Message"
    I = g.cname(ip)
    main, t = [], []
    tr = []
    for n in cc.ifields:
        h = g.field(n, "%sFields_%s" % (I, cls(n.f.name)))
        tr.append((h, acc(n.f.name)))
    own = {}
    ns = ip.rpartition(".")[0]
    msgs = {path: m for path, m in b.msgs.items() if path in sel and (not ns or (path + ".").startswith(ns + ".") or not b.ifaces)}
    if not msgs:
        raise Skip("no messages with an interface")
    for i, (path, m) in enumerate(msgs.items()):
        M = g.cname(path, "message")
        t.append("using X%d = %s<RefIface, %s>;" % (i, gencpp.scope(path, "message", p.main), g.opt))
        fs = []
        for n in cc.fields(m):
            h = g.field(n, "%sFields_%s" % (M, cls(n.f.name)))
            fs.append((h, acc(n.f.name)))
        own[i] = M
        t.append("static void cd_m%d(std::ostream& o, %s* m) { auto* f = %s_toInterface(m); (void)f; %s %s }" %
                 (i, M, M, " ".join("cd_%s(o, %s_transportField_%s(f));" % (h, I, a) for h, a in tr), " ".join("cd_%s(o, %s_field_%s(m));" % (h, M, a) for h, a in fs)))
        t.append("static void xd_m%d(std::ostream& o, X%d& m) { %s %s }" %
                 (i, i, " ".join("xd_%s(o, m.transportField_%s());" % (h, a) for h, a in tr), " ".join("xd_%s(o, m.field_%s());" % (h, a) for h, a in fs)))
        nf = len(tr) + len(fs)
        t.append("static void cm_m%d(std::ostream& o, cdrv::Rng& r, %s* m) { auto* f = %s_toInterface(m); (void)f; switch (r.below(%d)) {%s%s default: break; } }" %
                 (i, M, M, nf + 1, "".join(" case %d: cm_%s(o, r, %s_transportField_%s(f)); break;" % (k, h, I, a) for k, (h, a) in enumerate(tr)),
                  "".join(" case %d: cm_%s(o, r, %s_field_%s(m)); break;" % (k + len(tr), h, M, a) for k, (h, a) in enumerate(fs))))
        t.append("static void xm_m%d(std::ostream& o, cdrv::Rng& r, X%d& m) { switch (r.below(%d)) {%s%s default: break; } }" %
                 (i, i, nf + 1, "".join(" case %d: xm_%s(o, r, m.transportField_%s()); break;" % (k, h, a) for k, (h, a) in enumerate(tr)),
                  "".join(" case %d: xm_%s(o, r, m.field_%s()); break;" % (k + len(tr), h, a) for k, (h, a) in enumerate(fs))))
        t.append("""static void io_c%(i)d(std::ostream& o, cdrv::Rng& r, %(M)s* m) {
  auto* f = %(M)s_toInterface(m);
  o << (%(M)s_fromInterface(f) == m) << " id " << static_cast<unsigned long long>(%(I)s_getId(f)) << "/" << static_cast<unsigned long long>(%(M)s_doGetId(m)) << " n " << cdrv::str(%(I)s_name(f)) << cdrv::str(%(M)s_doName(m))
    << " v " << %(I)s_valid(f) << %(M)s_doValid(m) << " l " << %(I)s_length(f) << "/" << %(M)s_doLength(m);
  auto n = %(I)s_length(f); auto room = r.below(4) ? n : r.below(n + 3);
  for (int k = 0; k < 2; ++k) {
    std::vector<std::uint8_t> buf(room + 4, 0xee); auto* it = buf.data();
    auto es = k ? %(I)s_write(f, &it, room) : %(M)s_doWrite(m, &it, room);
    o << " w" << static_cast<int>(es); if (es == 0) o << "+" << (it - buf.data()) << "x" << drv::hex(buf.data(), buf.size());
    if (es == 0 && k) {
      std::vector<std::uint8_t> in(buf.data(), it);
      auto w = r.below(4); if (w == 0) in.resize(r.below(in.size() + 1)); else if (w == 1) for (auto c : r.bytes(3)) in.push_back(static_cast<std::uint8_t>(c)); else if (w == 2 && !in.empty()) in[r.below(in.size())] = static_cast<std::uint8_t>(r.num());
      const std::uint8_t* p = in.data();
      auto rs = r.below(2) ? %(I)s_read(f, &p, in.size()) : %(M)s_doRead(m, &p, in.size());
      o << " r" << static_cast<int>(rs); if (rs == 0) o << "+" << (p - in.data());
    } } }
static void io_x%(i)d(std::ostream& o, cdrv::Rng& r, X%(i)d& m) {
  RefIface& f = m;
  auto id = static_cast<unsigned long long>(f.getId());
  o << 1 << " id " << id << "/" << id << " n " << cdrv::str(f.name()) << cdrv::str(m.doName()) << " v " << f.valid() << m.doValid() << " l " << f.length() << "/" << m.doLength();
  auto n = f.length(); auto room = r.below(4) ? n : r.below(n + 3);
  for (int k = 0; k < 2; ++k) {
    std::vector<std::uint8_t> buf(room + 4, 0xee); auto* it = buf.data();
    auto es = k ? f.write(it, room) : m.doWrite(it, room);
    o << " w" << static_cast<int>(es); if (es == comms::ErrorStatus::Success) o << "+" << (it - buf.data()) << "x" << drv::hex(buf.data(), buf.size());
    if (es == comms::ErrorStatus::Success && k) {
      std::vector<std::uint8_t> in(buf.data(), it);
      auto w = r.below(4); if (w == 0) in.resize(r.below(in.size() + 1)); else if (w == 1) for (auto c : r.bytes(3)) in.push_back(static_cast<std::uint8_t>(c)); else if (w == 2 && !in.empty()) in[r.below(in.size())] = static_cast<std::uint8_t>(r.num());
      const std::uint8_t* p = in.data();
      auto rs = r.below(2) ? f.read(p, in.size()) : m.doRead(p, in.size());
      o << " r" << static_cast<int>(rs); if (rs == comms::ErrorStatus::Success) o << "+" << (p - in.data());
    } } }""" % {"i": i, "M": M, "I": I})
        main.append("""case %(i)d: { auto* m = %(M)s_alloc(); X%(i)d x; int steps = 0;
  auto same = [&](const char* what) { std::ostringstream a, b; cd_m%(i)d(a, m); xd_m%(i)d(b, x); if (a.str() == b.str()) return true; o << "DIFF " << what << " " << steps << "\\t" << a.str() << "\\t" << b.str(); return false; };
  bool good = same("default");
  for (; good && steps < 12; ++steps) {
    std::ostringstream a, b; cdrv::Rng s1 = rng, s2 = rng; bool io = rng.below(4) == 0; rng.next();
    if (io) { io_c%(i)d(a, s1, m); io_x%(i)d(b, s2, x); } else { cm_m%(i)d(a, s1, m); xm_m%(i)d(b, s2, x); }
    if (a.str() != b.str()) { o << "DIFF " << (io ? "io" : "op") << " " << steps << "\\t" << a.str() << "\\t" << b.str(); good = false; break; }
    good = same(io ? "after io" : "after op");
  }
  if (good) o << "ok"; %(M)s_free(m); break; }""" % {"i": i, "M": M})
    fcode, finc, fdone = [], [], []
    if frames and b.frames:
        finc, fdone = frame_code(p, g, b, I, own, msgs, d, fcode, bundle)
        if not fdone:
            raise Skip("no frames with an interface")
    inc = ["cdrv.h"] + files(d + "/include", ".h") + [gencpp.header(ip, "", p.main)] + [gencpp.header(x, "message", p.main) for x in msgs] + [gencpp.header(x, "field", g.home(x)) for x in b.fields if g.cname(x, "field") in g.done]
    inc += [x + "/options/DefaultOptions.h" for x in (p.main, p.aux) if x]
    if fdone:
        inc += ["comms/process.h"] + finc
    pre = "struct RefHandler;\nusing RefIface = %s<%s, comms::option::app::Handler<RefHandler>>;\n" % (gencpp.scope(ip, "", p.main), ", ".join(gencpp.IFACE_OPTS))
    hd = "inline void iface(std::ostream& o, const char* name, unsigned long long id, unsigned long long mask) { if (mask >> 63) o << \" I\" << cdrv::str(name) << id; }\nstruct RefHandler { std::ostream* o = nullptr; unsigned long long mask = 0; template <class M> void handle(M& m); };\n"
    src = os.path.join(p.root, "drv.cpp")
    with open(src, "w") as f:
        f.write('#include "gendrv.h"\n' + use(dict.fromkeys(inc)) + hd + pre + "\n".join(g.fwd + g.text + t + fcode) + "\n")
        if not fdone:
            f.write("template <class M> void RefHandler::handle(M&) {}\n")
        f.write("int main() { return drv::loop([](drv::Tok& t, std::ostream& o) { auto c = t.next(); std::size_t i = std::strtoul(t.next().c_str(), nullptr, 10); cdrv::Rng rng{std::strtoull(t.next().c_str(), nullptr, 10)};\n")
        f.write("if (c == \"m\") switch (i) {\n" + "\n".join(main) + "\ndefault: break; }\n")
        f.write("".join("if (c == \"f\" && i == %d) frame%d(rng, o);\n" % (i, i) for i in fdone))
        f.write("}); }\n")
    srcs = files(d, ".cpp")
    with open(src[:-7] + "lib.cpp", "w") as f:
        f.write('#include "gendrv.h"\n' + use(srcs))
    inc = ["-I" + gencpp.pch_dir(ctx), "-I" + gencpp.CPP + "/cdrv"]
    fl = p.flags([d, d + "/include"])
    p.cxx(inc + fl + ["-c", src[:-7] + "lib.cpp", "-o", src[:-7] + "lib.o"], "the sources do not compile", "c-compile")
    p.cxx(inc + fl + ["-c", src, "-o", src + ".o"], "use of the C interface and of the C++ classes does not compile", "c-use")
    p.cxx([src + ".o", src[:-7] + "lib.o", "-o", src[:-4]], "use of the C interface does not link", "c-link")
    prog = gencpp.Compiled(src[:-4])
    lines = [] if fdone else ["m %d %d" % (i, r.bits(40)) for i in range(len(msgs)) for _ in range(rounds)]
    if fdone:
        lines += ["f %d %d" % (i, r.bits(40)) for i in fdone for _ in range(rounds * 4)]
    try:
        out = prog.run(lines)
    except Violation as v:
        v.info["schema"] = (p.base or "") + p.text
        raise
    for l, a in zip(lines, out):
        a = a.strip()
        if not a.startswith("ok"):
            w, x, y = (a.split("\t") + ["", ""])[:3]
            k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            what = list(msgs)[int(l.split()[1])] if l[0] == "m" else list(b.frames)[int(l.split()[1])]
            p.fail("%s: the C interface differs from the C++ class (%s):\n ...%s\n ...%s" % (what, w, x[max(0, k - 80):k + 80], y[max(0, k - 80):k + 80]), "c-differs:" + " ".join(w.split()[:-1]), command=l, c=x, cpp=y)
    return Result(fingerprint((p.base or "") + p.text), len(lines) >= 20 and sum(g.kinds.values()) > 2, [("handle:" + k, v) for k, v in g.kinds.items()] + [(c, 1) for c in shape(b) | opt | ({"two schemas"} if p.aux else set())] + [("histories", len(lines))],
                  {"messages": len(msgs), "handles": sum(g.kinds.values()), "histories": len(lines)})


CHECK = Check("C16", [
    ("messages", lambda r, c: program(r, c), 26, 3000),
    ("frames", lambda r, c: program(r, c, frames=True, csump=r.pick([30, 60]), extras=False), 26, 3000),
], "a schema with at least 3 kinds of handles and 20 histories",
    setup=lambda: (build.ensure(["commsdsl2comms", "commsdsl2c"]), gencpp.pch()), quick_s=400,
    assumptions=["the generated code is compiled against cpp/minicomms, a stand-in of the COMMS library"])
