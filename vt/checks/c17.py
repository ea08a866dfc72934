"""C17: the bindings of commsdsl2emscripten, compiled against a stand-in of embind, against the C++ classes of commsdsl2comms."""
import os, re
from ..harness import Check, Result, Violation, Skip, fingerprint
from .. import build, codec, gencpp
from ..gencpp import acc, cls
from .c13 import domain
from .c15 import Project, files, use, shape
from .c12 import Frame
from .c16 import Gen

WIDE = ("int64", "uint64", "intvar", "uintvar")


class Em(Gen):
    """functions dumping and changing the fields through the bound functions (cd_, cm_) and directly (xd_, xm_)"""

    def __init__(self, p, cc, main):
        super().__init__(p, cc)
        self.mainns, self.classes, self.want = main, {}, {}

    def cname(self, path, sub=""):
        s = gencpp.scope(path, sub, self.home(path) if sub == "field" else self.p.main)
        return "_".join(s.split("::")[0 if self.mainns else 1:])

    def cls(self, name, ctors="()(copy)"):
        self.classes[name] = ctors

    def one(self, kind, n, h, mb, inner=None):
        f = n.f if n else None
        what = kind if n else "version-optional"
        self.kinds[what] = self.kinds.get(what, 0) + 1
        self.cls(h, "()(copy)" if n else None)
        cd, xd, ops = [], [], []            # ops: (bound, direct)
        want = self.want.setdefault(h, set())
        c = lambda fn, *a: want.add(fn) or "CALL(%s, %s, *f%s)" % (h, fn, "".join(", " + x for x in a))
        cn = lambda nm, fn, *a: want.add(nm) or "CALLN(%s, \"%s\", %s, *f%s)" % (h, nm, fn, "".join(", " + x for x in a))
        st = lambda fn, *a: want.add(fn) or "EB(%s, %s)(%s)" % (h, fn, ", ".join(a))
        fixed = f is not None and f.__dict__.get("fixed")
        if kind in ("int", "float"):
            cd.append("cdrv::num(o, %s);" % c("getValue"))
            xd.append("cdrv::num(o, f.getValue());")
            if kind == "float":
                fl = "float" if f.type == "float" else "double"
                rnd = "auto n = r.num(); %s v; std::memcpy(&v, &n, sizeof(v)); if (v != v) v = 0; if (r.below(2)) v = static_cast<%s>(r.below(1000)) / 8; " % (fl, fl)
            else:
                rnd = "auto v = static_cast<typename std::decay_t<decltype(f%s)>::ValueType>(r.num()); "
            if not fixed:
                a, b = (rnd % "[0]", rnd % "") if "%s" in rnd else (rnd, rnd)
                a, b = a.replace("decltype(f[0])", "decltype(*f)"), b
                ops.append((a + c("setValue", "v") + ";", b + "f.setValue(v);"))
                ops.append((a + "std::invoke(PROP(%s, \"value\", getValue, setValue).second, *f, v); if (std::invoke(PROP(%s, \"value\", getValue, setValue).first, *f) != %s) o << \" property\";" % (h, h, c("getValue")), b + "f.setValue(v);"))
            for s in f.specials:
                x = cls(s[0])
                cd.append("cdrv::num(o, %s); o << %s;" % (st("value" + x), c("is" + x)))
                xd.append("cdrv::num(o, f.value%s()); o << f.is%s();" % (x, x))
                if not fixed:
                    ops.append((c("set" + x) + ";", "f.set%s();" % x))
            if f.specials or kind == "float":
                cd.append("o << %s;" % st("hasSpecials"))
                xd.append("o << %d;" % bool(f.specials))
            if kind == "int" and f.scal[0] != f.scal[1]:
                cd.append("o << \" d\" << %s;" % st("displayDecimals"))
                xd.append("o << \" d\" << f.displayDecimals();")
            if kind == "int" and tuple(f.scal) != (1, 1):
                cd.append("cdrv::num(o, %s);" % c("getScaled"))
                xd.append("cdrv::num(o, f.template getScaled<double>());")
                if not fixed:
                    ops.append((c("setScaled", c("getScaled")) + ";", "f.setScaled(f.template getScaled<double>());"))
        elif kind == "enum":
            wide = f.type in WIDE
            vals = [(x[0], x[5] & codec.mask(64)) for x in f.values]
            msgid = f.__dict__.get("sem") == "messageid"
            if not wide and not msgid:
                for nm, v in vals:
                    self.enums.append((h, nm, v))
            cd.append("o << \" \" << static_cast<unsigned long long>(%s) << \" \" << static_cast<unsigned long long>(%s) << drv::hexs(%s) << drv::hexs(%s);" %
                      (c("getValue"), c("getValueConstant"), c("valueName"), st("valueNameOf", c("getValue"))))
            xd.append("o << \" \" << static_cast<unsigned long long>(f.getValue()) << \" \" << static_cast<unsigned long long>(f.getValue()); std::string s(f.valueName() ? f.valueName() : \"\"); o << drv::hexs(s) << drv::hexs(s);")
            for nm, v in vals[:8] if not fixed else ():
                e = "static_cast<std::decay_t<decltype(f->getValue())>>(%dULL)" % v
                ops.append((c("setValue", e) + ";", "f.setValue(static_cast<std::decay_t<decltype(f.getValue())>>(%dULL));" % v))
                ops.append((c("setValueConstant", st("asConstant", e)) + ";", "f.setValue(static_cast<std::decay_t<decltype(f.getValue())>>(%dULL));" % v))
        elif kind == "set":
            cd.append("o << \" \" << static_cast<unsigned long long>(%s);" % c("getValue"))
            xd.append("o << \" \" << static_cast<unsigned long long>(f.getValue());")
            if not fixed:
                ops.append((c("setValue", "static_cast<std::decay_t<decltype(f->getValue())>>(r.num())") + ";", "f.setValue(static_cast<std::decay_t<decltype(f.getValue())>>(r.num()));"))
            for x in f.bitsInfo:
                nm, i = x[0], x[5]
                if x[7]:
                    continue            # reserved
                self.bits.append((h, nm, i))
                cd.append("o << %s << %s;" % (c("getBitValue_" + nm), c("getBitValue", "%dU" % i)))
                xd.append("o << ((static_cast<unsigned long long>(f.getValue()) >> %d) & 1) << ((static_cast<unsigned long long>(f.getValue()) >> %d) & 1);" % (i, i))
                if not fixed:
                    setx = "bool v = r.below(2); auto x = f.getValue(); f.setValue(static_cast<decltype(x)>(v ? x | (1ULL << %d) : x & ~(1ULL << %d)));" % (i, i)
                    ops.append(("bool v = r.below(2); %s;" % c("setBitValue_" + nm, "v"), setx))
                    ops.append(("bool v = r.below(2); %s;" % c("setBitValue", "%dU" % i, "v"), setx))
        elif kind == "string":
            cd.append("o << \" \" << cdrv::blob(%s);" % c("getValue"))
            xd.append("o << \" \" << cdrv::blob(f.getValue());")
            if not fixed:
                ops.append(("auto s = r.bytes(9); %s;" % c("setValue", "std::decay_t<decltype(f->getValue())>(s.begin(), s.end())"), "auto s = r.bytes(9); f.value().assign(s.begin(), s.end());"))
        elif kind == "data":
            cd.append("o << \" \" << cdrv::blob(*%s);" % c("getValue"))
            xd.append("o << \" \" << cdrv::blob(f.getValue());")
            if not fixed:
                for e in ("setValue", "std::vector<std::uint8_t>(s.begin(), s.end())"), ("assignJsArray", "emscripten::val::array(std::vector<std::uint8_t>(s.begin(), s.end()))"):
                    ops.append(("auto s = r.bytes(9); %s;" % c(*e), "auto s = r.bytes(9); f.value().assign(s.begin(), s.end());"))
        elif kind in ("bundle", "bitfield"):
            for m in n.members:
                mh = self.field(m, "%sMembers_%s" % (mb, cls(m.f.name)))
                a = acc(m.f.name)
                g = cn("field_" + a, "field_%s_" % a)
                cd.append("cd_%s(o, %s);" % (mh, g))
                xd.append("xd_%s(o, f.field_%s());" % (mh, a))
                ops.append(("cm_%s(o, r, %s);" % (mh, g), "xm_%s(o, r, f.field_%s());" % (mh, a)))
        elif kind == "ref":
            g, t = self.ext(f.field)
            cd.append("cd_%s(o, %s);" % (g, c("ref")))
            xd.append("xd_%s(o, reinterpret_cast<%s&>(f));" % (g, t))
            ops.append(("cm_%s(o, r, %s);" % (g, c("ref")), "xm_%s(o, r, reinterpret_cast<%s&>(f));" % (g, t)))
        elif kind == "list":
            if id(f.elem) in self.glob:
                g, t = self.ext(f.elem)
                cast = "reinterpret_cast<%s&>(%%s)" % t
            else:
                g, cast = self.field(n.elem, "%sMembers_%s" % (mb, cls(f.elem.name))), "%s"
            self.cls(g + "_Vector")
            vec = "std::vector<%s>" % g
            v = lambda fn, sig, *a: "em::fn<%s>(\"%s_Vector\", \"%s\")(*v%s)" % (sig, g, fn, "".join(", " + x for x in a))
            size = v("size", "std::size_t (*)(const %s&)" % vec)
            at = lambda i: v("at", "%s* (*)(%s&, std::size_t)" % (g, vec), i)
            cd.append("{ auto* v = %s; if (static_cast<const void*>(v) != static_cast<const void*>(%s)) o << \" getValue\"; auto n = %s; o << \" l\" << n; for (std::size_t i = 0; i < n; ++i) cd_%s(o, %s); }" % (c("value"), c("getValue"), size, g, at("i")))
            xd.append("{ auto n = f.value().size(); o << \" l\" << n; for (auto& e : f.value()) xd_%s(o, %s); }" % (g, cast % "e"))
            if not fixed:
                ops.append(("auto n = r.below(5); auto* v = %s; %s;" % (c("value"), v("resize", "void (*)(%s&, std::size_t)" % vec, "n")), "auto n = r.below(5); f.value().resize(n);"))
                ops.append(("%s w(r.below(4)); if (!w.empty()) cm_%s(o, r, &w[0]); %s;" % (vec, g, c("setValue", "w")),
                            "auto& v = f.value(); v.clear(); v.resize(r.below(4)); if (!v.empty()) { xm_%s(o, r, %s); }" % (g, cast % "v[0]")))
                ops += 2 * [("auto* v = %s; auto n = %s; if (n) cm_%s(o, r, %s);" % (c("value"), size, g, at("r.below(n)")), "auto& v = f.value(); if (!v.empty()) { auto& e = v[r.below(v.size())]; xm_%s(o, r, %s); }" % (g, cast % "e"))]
        elif kind == "optional":
            if inner:
                g, cast = inner[0], "%s"
            elif id(f.field) in self.glob:
                g, t = self.ext(f.field)
                cast = "reinterpret_cast<%s&>(%%s)" % t
            else:
                g, cast = self.field(n.sub, "%sMembers_%s" % (mb, cls(f.field.name))), "%s"
            cd.append("o << \" o\" << %s << %s << %s << static_cast<int>(%s); cd_%s(o, %s);" % (c("doesExist"), c("isMissing"), c("isTentative"), c("getMode"), g, c("field")))
            xd.append("o << \" o\" << f.doesExist() << f.isMissing() << f.isTentative() << static_cast<int>(f.getMode()); xd_%s(o, %s);" % (g, cast % "f.field()"))
            for x in ("setExists", "setMissing", "setTentative"):
                ops.append((c(x) + ";", "f.%s();" % x))
                ops.append((c("setMode", "comms::field::OptionalMode::" + {"setExists": "Exists", "setMissing": "Missing", "setTentative": "Tentative"}[x]) + ";", "f.%s();" % x))
            ops += 2 * [("cm_%s(o, r, %s);" % (g, c("field")), "xm_%s(o, r, %s);" % (g, cast % "f.field()"))]
        elif kind == "variant":
            ms = []
            for i, m in enumerate(n.members):
                mh = self.field(m, "%sMembers_%s" % (mb, cls(m.f.name)))
                a = acc(m.f.name)
                ms.append((mh, a))
                ops.append(("%s; cm_%s(o, r, %s);" % (c("reset"), mh, c("initField_" + a)), "f.reset(); xm_%s(o, r, f.initField_%s());" % (mh, a)))
                ops.append(("%s; cm_%s(o, r, %s);" % (c("selectField", "%dU" % i), mh, c("accessField_" + a)), "f.selectField(%dU); xm_%s(o, r, f.accessField_%s());" % (i, mh, a)))
            ops.append((c("reset") + ";", "f.reset();"))
            n_ = len(ms)
            H = mb + "_Handler"
            self.cls(H, "()")
            cd.append("o << \" v\" << std::min<std::size_t>(%s, %d) << \"/\" << %s;" % (c("currentField"), n_, c("totalFields")))
            xd.append("o << \" v\" << std::min<std::size_t>(f.currentField(), %d) << \"/%d\";" % (n_, n_))
            cd.append("{ auto save = std::move(emscripten::Registry::get().call); { %sWrapper w; auto* self = &w; (void)self; emscripten::Registry::get().call = [&](const void*, const char* name, const emscripten::val& v) { auto hook = emscripten::Registry::get().call;" % H +
                      "".join(" if (std::string(name) == \"handle_%s\") { auto* p = std::any_cast<%s*>(&v.ptr); o << \" %s\"; if (p) cd_%s(o, *p); else o << \"?\"; return; }" % (a, mh, a, mh) for mh, a in ms) +
                      " o << \" ??\" << name; }; %s; } emscripten::Registry::get().call = nullptr; { %s w; %s; } emscripten::Registry::get().call = std::move(save); }" % (c("currentFieldExec", "w"), H, c("currentFieldExec", "w")))
            xd.append("switch (f.currentField()) {" + "".join(" case %d: o << \" %s\"; xd_%s(o, f.accessField_%s()); break;" % (i, a, mh, a) for i, (mh, a) in enumerate(ms)) + " default: break; }")
            for mh, a in ms:
                self.handled.append((H, "handle_" + a))
        else:
            raise Skip("kind " + kind)
        L = len(ops) + 1
        self.fwd.append("static void cd_%s(std::ostream& o, %s* f); static void cm_%s(std::ostream& o, cdrv::Rng& r, %s* f); template <class F> void xd_%s(std::ostream& o, F& f); template <class F> void xm_%s(std::ostream& o, cdrv::Rng& r, F& f);" %
                        (h, h, h, h, h, h))
        common = "{ std::vector<std::uint8_t> b{7}; o << \" [\" << %s << (%s ? \" v\" : \" -\"); auto es = %s; em::bytes(o, es, b); o << \"]\"; %s e(*f);" % (c("length"), c("valid"), c("writeDataBuf", "b"), h) + \
            "".join(" if (em::glob<bool (*)(const %s&, const %s&)>(\"%s_%s\")(*f, e) != (*f %s e)) o << \" %s\";" % (h, h, x, h, y, x) for x, y in (("eq", "=="), ("lt", "<"))) + " }"
        self.text.append("static void cd_%s(std::ostream& o, %s* f) { (void)o; if (!f) { o << \" NULL\"; return; } o << \"(\"; %s %s o << \")\"; }" % (h, h, " ".join(cd), common))
        self.text.append("template <class F> void xd_%s(std::ostream& o, F& f) { o << \"(\"; %s em::xcommon(o, f); o << \")\"; }" % (h, " ".join(xd)))
        rd = "if (r.below(9) == 0) { auto s = r.bytes(12); std::vector<std::uint8_t> v(s.begin(), s.end()); o << \" r\" << static_cast<int>(r.below(2) ? %s : %s); return; } if (r.below(9) == 0) { o << %s; return; }" % (
            c("readDataBuf", "v"), c("readJsArray", "emscripten::val::array(v)"), c("refresh"))
        self.text.append("static void cm_%s(std::ostream& o, cdrv::Rng& r, %s* f) { (void)o; %s switch (r.below(%d)) {%s default: break; } }" %
                         (h, h, rd, L, "".join(" case %d: { %s break; }" % (i, x[0]) for i, x in enumerate(ops))))
        self.text.append("template <class F> void xm_%s(std::ostream& o, cdrv::Rng& r, F& f) { (void)o; if (r.below(9) == 0) { em::xread(o, r, f); return; } if (r.below(9) == 0) { o << f.refresh(); return; } switch (r.below(%d)) {%s default: break; } }" %
                         (h, L, "".join(" case %d: { %s break; }" % (i, x[1]) for i, x in enumerate(ops))))
        return h


def select(r, p, b):
    """random selection of the messages"""
    extra, sel, opt = [], list(b.msgs), set()
    force = r.chance(20)
    if force:
        extra.append("--force-main-ns-in-names")
    k = r.below(10)
    if k < 2:
        sel = [x for x in b.msgs if r.chance(60)]
        with open(os.path.join(p.root, "list.txt"), "w") as f:
            f.write("\n".join(sel) + r.pick(["", "\n", "\r\n"]))
        extra += ["--messages-list", os.path.join(p.root, "list.txt")]
    elif k < 4 and b.schema.platforms:
        pl = r.pick(b.schema.platforms)
        sel = [x for x, m in b.msgs.items() if not m.platforms or pl in m.platforms]
        extra += ["--force-platform", pl]
    if not sel:
        raise Skip("nothing selected")
    opt = {"option:" + x for x in extra if x.startswith("-")}
    return sel, opt, force, extra


def program(r, ctx, rounds=40, **kw):
    p = Project(r, ctx, twop=25, noiface=True, nns=0, **kw)
    b = p.b
    app = "commsdsl2emscripten"
    if not domain(app, b) or len(b.ifaces) != 1:
        raise Skip("schema outside of the domain of " + app)
    cc = codec.Ctx(b)
    sel, opt, force, extra = select(r, p, b)
    d = p.out(app, extra)
    g = Em(p, cc, force or p.base is not None)
    g.enums, g.bits, g.handled = [], [], []
    ip = list(b.ifaces)[0]
    I = g.cname(ip)
    H = (p.main + "_" if g.mainns else "") + "MsgHandler"
    g.cls(I, "")
    g.cls(H, "()")
    tr, t, main = [], [], []
    for n in cc.ifields:
        tr.append((g.field(n, "%sFields_%s" % (I, cls(n.f.name))), acc(n.f.name)))
    msgs = {x: b.msgs[x] for x in b.msgs if x in sel}
    O = "%s_ProtocolOptions" % p.main
    names = {}
    for i, (path, m) in enumerate(msgs.items()):
        M = names[i] = g.cname(path, "message")
        g.cls(M)
        g.handled.append((H, "handle_" + M))
        fs = [(g.field(n, "%sFields_%s" % (M, cls(n.f.name))), acc(n.f.name)) for n in cc.fields(m)]
        trf = lambda a: "CALLN(%s, \"transportField_%s\", transportField_%s_, *m)" % (I, a, a)
        own = lambda a: "CALLN(%s, \"field_%s\", field_%s_, *m)" % (M, a, a)
        t.append("using X%d = %s<RefIface, %s>;" % (i, gencpp.scope(path, "message", p.main), O))
        t.append("static void cd_m%d(std::ostream& o, %s* m) { %s %s o << \" l\" << CALL(%s, length, *m) << CALL(%s, valid, *m) << drv::hexs(CALL(%s, name, *m)) << static_cast<unsigned long long>(CALL(%s, getId, *m)); %s e(*m); em::glob<bool (*)(const %s&, const %s&)>(\"eq_%s\")(*m, e); }" %
                 (i, M, " ".join("cd_%s(o, %s);" % (h, trf(a)) for h, a in tr), " ".join("cd_%s(o, %s);" % (h, own(a)) for h, a in fs), I, I, I, I, M, M, M, M))
        t.append("static void xd_m%d(std::ostream& o, X%d& m) { %s %s o << \" l\" << m.length() << m.valid() << drv::hexs(m.name()) << static_cast<unsigned long long>(m.getId()); }" %
                 (i, i, " ".join("xd_%s(o, m.transportField_%s());" % (h, a) for h, a in tr), " ".join("xd_%s(o, m.field_%s());" % (h, a) for h, a in fs)))
        nf = len(tr) + len(fs)
        t.append("static void cm_m%d(std::ostream& o, cdrv::Rng& r, %s* m) { auto k = r.below(%d); switch (k) {%s%s case %d: { auto s = r.bytes(20); std::vector<std::uint8_t> v(s.begin(), s.end()); o << \" r\" << static_cast<int>(r.below(2) ? CALL(%s, readDataBuf, *m, v) : CALL(%s, readJsArray, *m, emscripten::val::array(v))); break; } default: o << CALL(%s, refresh, *m); break; } }" %
                 (i, M, nf + 2, "".join(" case %d: cm_%s(o, r, %s); break;" % (k, h, trf(a)) for k, (h, a) in enumerate(tr)),
                  "".join(" case %d: cm_%s(o, r, %s); break;" % (k + len(tr), h, own(a)) for k, (h, a) in enumerate(fs)), nf, I, I, I))
        t.append("static void xm_m%d(std::ostream& o, cdrv::Rng& r, X%d& m) { auto k = r.below(%d); switch (k) {%s%s case %d: { auto s = r.bytes(20); std::vector<std::uint8_t> v(s.begin(), s.end()); r.below(2); const std::uint8_t* it = v.data(); o << \" r\" << static_cast<int>(m.read(it, v.size())); break; } default: o << m.refresh(); break; } }" %
                 (i, i, nf + 2, "".join(" case %d: xm_%s(o, r, m.transportField_%s()); break;" % (k, h, a) for k, (h, a) in enumerate(tr)),
                  "".join(" case %d: xm_%s(o, r, m.field_%s()); break;" % (k + len(tr), h, a) for k, (h, a) in enumerate(fs)), nf))
        main.append("""case %(i)d: { %(M)s c; auto* m = &c; X%(i)d x; int steps = 0;
  auto same = [&](const char* what) { std::ostringstream a, b; cd_m%(i)d(a, m); xd_m%(i)d(b, x); if (a.str() == b.str()) return true; o << "DIFF " << what << " " << steps << "\\t" << a.str() << "\\t" << b.str(); return false; };
  bool good = same("default");
  for (; good && steps < 12; ++steps) {
    std::ostringstream a, b; cdrv::Rng s1 = rng, s2 = rng; rng.next();
    cm_m%(i)d(a, s1, m); xm_m%(i)d(b, s2, x);
    if (a.str() != b.str()) { o << "DIFF op " << steps << "\\t" << a.str() << "\\t" << b.str(); good = false; break; }
    good = same("after op");
  }
  if (good) { std::string got; %(H)sWrapper w; emscripten::Registry::get().call = [&](const void*, const char* name, const emscripten::val& v) { auto* q = std::any_cast<%(M)s*>(&v.ptr); got += std::string(name) + (q && *q == m ? "=" : "?"); };
    CALL(%(I)s, dispatch, *m, w); emscripten::Registry::get().call = nullptr;
    if (got != "handle_%(M)s=") { o << "DIFF dispatch 0\\t" << got << "\\thandle_%(M)s="; good = false; } }
  if (good) o << "ok"; break; }""" % {"i": i, "M": M, "I": I, "H": H})
    frames = []
    for k, (path, fr) in enumerate(b.frames.items()):
        F = g.cname(path, "frame")
        frames.append(k)
        g.cls(F)
        g.cls(F + "_AllFields")
        order = sorted((m.id, m.order, i) for i, (x, m) in enumerate(msgs.items()))
        lay = [acc(l.name) for l in fr.layers]
        t.append("""static void frame%(k)d(cdrv::Rng& rng, std::ostream& o) {
  using RF = %(X)s<RefIface, std::tuple<%(A)s>, %(O)s>;
  %(F)s cf; RF xf; std::ostringstream a, b; std::vector<std::uint8_t> all; %(lay)s
  for (int n = 0; n < 3; ++n) {
    if (rng.below(4) == 0) { auto s = rng.bytes(6); all.insert(all.end(), s.begin(), s.end()); continue; }
    cdrv::Rng s1 = rng, s2 = rng; auto which = rng.below(%(N)d); rng.next();
    switch (which) {%(cases)s }
    if (a.str() != b.str()) { o << "DIFF write " << n << "\\t" << a.str() << "\\t" << b.str(); return; }
  }
  if (rng.below(3) == 0 && !all.empty()) { if (rng.below(2)) all.resize(rng.below(all.size())); else all[rng.below(all.size())] = static_cast<std::uint8_t>(rng.num()); }
  auto js = rng.below(2);
  std::ostringstream c, x;
  %(H)sWrapper w;
  emscripten::Registry::get().call = [&](const void*, const char* name, const emscripten::val& v) { %(disp)s c << " ?"; };
  auto used = js ? CALL(%(F)s, processInputJsArray, cf, emscripten::val::array(all), w) : CALL(%(F)s, processInputData, cf, all, w);
  c << " used " << used;
  RefHandler h; h.o = &x;
  const std::uint8_t* p = all.data();
  auto used2 = all.empty() ? 0 : comms::processAllWithDispatch(p, all.size(), xf, h);
  x << " used " << used2;
  if (c.str() != x.str()) { o << "DIFF process 0\\t" << c.str() << "\\t" << x.str(); emscripten::Registry::get().call = nullptr; return; }
  std::ostringstream c2, x2;
  emscripten::Registry::get().call = [&](const void*, const char* name, const emscripten::val& v) { auto& c = c2; %(disp)s c << " ?"; };
  h.o = &x2;
  %(F)s_AllFields vals; std::string f1, f2;
  std::size_t pos = 0;
  for (int n = 0; n < 5; ++n) {
    std::vector<std::uint8_t> rest(all.begin() + static_cast<std::ptrdiff_t>(pos), all.end());
    auto q = rng.below(3);
    auto got = q == 0 ? CALL(%(F)s, processInputJsArraySingleMsg, cf, emscripten::val::array(rest), w, &vals) : CALL(%(F)s, processInputDataSingleMsg, cf, rest, w, q == 1 ? &vals : nullptr);
    c2 << " used " << got;
    std::size_t len = 0;
    typename RF::AllFields ff;
    while (len < rest.size()) {
      typename RF::MsgPtr msg; const std::uint8_t* it = rest.data() + len; auto from = it;
      auto es = q < 2 ? xf.readFieldsCached(ff, msg, it, rest.size() - len) : xf.read(msg, it, rest.size() - len);
      if (es == comms::ErrorStatus::NotEnoughData) break;
      if (es == comms::ErrorStatus::ProtocolError) { ++len; continue; }
      len += static_cast<std::size_t>(it - from);
      if (q < 2) { %(fields)s }
      if (es == comms::ErrorStatus::Success) msg->dispatch(h);
      break;
    }
    x2 << " used " << len; if (f1 != f2) { c2 << f1; x2 << f2; }
    if (c2.str() != x2.str()) { o << "DIFF single " << n << "\\t" << c2.str() << "\\t" << x2.str(); emscripten::Registry::get().call = nullptr; return; }
    if (!got) break;
    pos += got;
  }
  emscripten::Registry::get().call = nullptr;
  o << "ok";
}""" % {"k": k, "F": F, "H": H, "fields": " ".join("f1 += ' ' + em::wire(reinterpret_cast<const std::tuple_element_t<%d, typename RF::AllFields>&>(*CALL(%s_AllFields, get%s, vals))); f2 += ' ' + em::wire(std::get<%d>(ff));" % (j, F, cls(l.name), j) for j, l in enumerate(Frame(cc, fr, {}).order)), "X": gencpp.scope(path, "frame", p.main), "A": ", ".join("X%d" % x[2] for x in order), "O": O, "N": len(msgs),
            "lay": " ".join("if (!CALL(%s, layer_%s, cf)) o << \"NULL\";" % (F, l) for l in lay) + " %s_AllFields av; " % F + " ".join("if (!CALL(%s_AllFields, get%s, av)) o << \"NULL\";" % (F, cls(l.name)) for l in fr.layers),
            "cases": "".join(" case %d: { %s m; X%d x; std::ostringstream a0, b0; for (int j = 0; j < 3; ++j) { cm_m%d(a0, s1, &m); xm_m%d(b0, s2, x); } std::vector<std::uint8_t> o1; auto e1 = CALL(%s, writeMessage, cf, m, o1); std::vector<std::uint8_t> o2(xf.length(x) + 8); auto* it = o2.data(); auto e2 = xf.write(x, it, o2.size()); o2.resize(static_cast<std::size_t>(it - o2.data()));"
                             " a << a0.str() << static_cast<int>(e1); b << b0.str() << static_cast<int>(e2); if (e1 == comms::ErrorStatus::Success) { a << drv::hex(o1.data(), o1.size()); all.insert(all.end(), o1.begin(), o1.end()); } if (e2 == comms::ErrorStatus::Success) b << drv::hex(o2.data(), o2.size()); break; }" % (i, M, i, i, i, F) for i, M in names.items()),
            "disp": " ".join("if (std::string(name) == \"handle_%s\") { auto* p = std::any_cast<%s*>(&v.ptr); c << \" M%d\"; if (p) cd_m%d(c, *p); return; }" % (M, M, i, i) for i, M in names.items())})
    inc = ["cdrv.h"] + [x for x in files(d + "/include", ".h")]
    inc += [gencpp.header(ip, "", p.main)] + [gencpp.header(x, "message", p.main) for x in msgs] + [gencpp.header(x, "field", g.home(x)) for x in b.fields if g.cname(x, "field") in g.done] + [gencpp.header(x, "frame", p.main) for x in b.frames]
    src = os.path.join(p.root, "drv.cpp")
    pre = "struct RefHandler;\nusing RefIface = %s<%s, comms::option::app::Handler<RefHandler>>;\nstruct RefHandler { std::ostream* o = nullptr; template <class M> void handle(M& m); };\n" % (gencpp.scope(ip, "", p.main), ", ".join(gencpp.IFACE_OPTS))
    with open(src, "w") as f:
        # the sources themselves: wrappers are known only there
        f.write('#include "gendrv.h"\n' + use(files(d, ".cpp")) + use(["cdrv.h", "emdrv.h", "comms/process.h"]) + use(dict.fromkeys(x for x in inc if x.split("/")[0] != "cc_emscripten")) + pre + "\n".join(g.fwd + g.text + t) + "\n")
        f.write("template <class M> void RefHandler::handle(M& m) { (void)m; %s { *o << \" ?\"; } }\n" % "".join("if constexpr (std::is_same_v<M, X%d>) { *o << \" M%d\"; xd_m%d(*o, m); } else " % (i, i, i) for i in names))
        f.write("int main() { return drv::loop([](drv::Tok& t, std::ostream& o) { auto c = t.next(); std::size_t i = std::strtoul(t.next().c_str(), nullptr, 10); cdrv::Rng rng{std::strtoull(t.next().c_str(), nullptr, 10)};\ntry {\n")
        f.write("if (c == \"m\") switch (i) {\n" + "\n".join(main) + "\ndefault: break; }\n")
        f.write("".join("if (c == \"f\" && i == %d) frame%d(rng, o);\n" % (i, i) for i in frames))
        f.write("if (c == \"l\") { std::ostringstream s; em::lint(s); auto x = s.str(); for (auto& ch : x) if (ch == '\\n') ch = '|'; o << x; }\n")
        f.write("if (c == \"e\") { " + "".join("if (!em::enumerator(\"%s_ValueType\", \"%s\", %dULL)) o << \"value of %s %s|\";\n" % (h, nm, v, h, nm) for h, nm, v in g.enums) +
                "".join("if (!em::enumerator(\"%s_BitIdx\", \"%s\", %dULL)) o << \"bit of %s %s|\";\n" % (h, nm, v, h, nm) for h, nm, v in g.bits) + " }\n")
        f.write("} catch (const em::Unbound& e) { o << \"UNBOUND \" << e.what(); emscripten::Registry::get().call = nullptr; }\n}); }\n")
    fl = p.flags([d, d + "/include"])
    args = ["-I" + gencpp.pch_dir(ctx), "-I" + gencpp.CPP + "/cdrv", "-I" + gencpp.CPP + "/embind"] + fl
    p.cxx(args + ["-c", src, "-o", src + ".o"], "the bindings do not compile", "em-compile")
    p.cxx([src + ".o", "-o", src[:-4]], "the bindings do not link", "em-link")
    prog = gencpp.Compiled(src[:-4])
    lines = ["l 0 0", "e 0 0"] + ["m %d %d" % (i, r.bits(40)) for i in range(len(msgs)) for _ in range(rounds)] + ["f %d %d" % (i, r.bits(40)) for i in frames for _ in range(rounds * 4)]
    try:
        out = prog.run(lines)
    except Violation as v:
        v.info["schema"] = (p.base or "") + p.text
        raise
    seen = {}
    for x in out[0].strip("|\n ").split("|"):
        w = x.split("\t")
        if w[0] == "class":
            seen[w[1]] = w[2] if len(w) > 2 else ""
        elif w[0] == "unbound" and any(y in p.text + (p.base or "") for y in WIDE) and "ValueType" in x:
            continue                    # the generator warns about these
        else:
            p.fail("wrong set of bindings: " + " ".join(w), "em-" + w[0])
    for n, ct in g.classes.items():
        if n not in seen:
            p.fail("%s is not bound" % n, "em-missing")
        if ct is not None and seen[n] != ct:
            p.fail("%s is bound with the constructors %s instead of %s" % (n, seen[n] or "none", ct or "none"), "em-constructor")
    glob = tuple(g.cname(x, "field") for x in b.fields)
    fr = tuple(g.cname(x, "frame") for x in b.frames)
    for n in seen:
        if n not in g.classes and not n.startswith(glob + fr) and not n.endswith("DataBuf"):
            p.fail("%s is bound but there is no such element" % n, "em-extra")
    if out[1].strip():
        p.fail("bindings of the enums: " + out[1].strip(), "em-enum")
    for l, a in list(zip(lines, out))[2:]:
        a = a.strip()
        if not a.startswith("ok"):
            w, x, y = (a.split("\t") + ["", ""])[:3]
            k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            what = list(msgs)[int(l.split()[1])] if l[0] == "m" else list(b.frames)[int(l.split()[1])]
            p.fail("%s: the bound functions differ from the C++ class (%s):\n ...%s\n ...%s" % (what, w, x[max(0, k - 80):k + 80], y[max(0, k - 80):k + 80]), "em-differs:" + " ".join(w.split()[:-1]), command=l, c=x, cpp=y)
    return Result(fingerprint((p.base or "") + p.text), len(lines) >= 20 and sum(g.kinds.values()) > 2,
                  [("class:" + k, v) for k, v in g.kinds.items()] + [(c, 1) for c in shape(b) | opt | ({"two schemas"} if p.aux else set())] + [("histories", len(lines))],
                  {"messages": len(msgs), "classes": len(seen), "histories": len(lines)})


DECL = re.compile(r"^(static |virtual )?(.*?[\s&*>])?(~?\w+|operator[=<]+)\((.*)\)( const)?( = 0)?$", re.S)


EMS = ("readJsArray", "assignJsArray", "asConstant", "getValueConstant", "setValueConstant")       # of emscripten only
EMS_AS = {"readDataBuf": "read", "writeDataBuf": "write"}


def declared(text):
    """the declarations of a header for SWIG: (kind, name, members); a member is (access, text, body of a nested enum or None)"""
    text = re.sub(r"//[^\n]*", "", text)
    text = "\n".join(l for l in text.split("\n") if not l.startswith("#"))
    out, i = [], 0

    def stmt(i):
        depth, j, k = 0, i, None
        while j < len(text):
            if text[j] == "{":
                k = j if depth == 0 else k
                depth += 1
            elif text[j] == "}":
                depth -= 1
                if depth < 0:
                    return None, None, j + 1
            elif text[j] == ";" and depth == 0:
                return text[i:k if k else j].strip(), (k + 1 if k else None), j + 1
            j += 1
        return None, None, len(text)

    while i < len(text):
        head, body, j = stmt(i)
        if head is None:
            break
        m = re.match(r"(class|struct) (\w+)(?:\s*:\s*public (\w+))?$", head)
        if m and body:
            access, mem, k = ("private" if m.group(1) == "class" else "public"), [], body
            while True:
                h, b, e = stmt(k)
                if h is None:
                    break
                while True:
                    a = re.match(r"(public|protected|private)\s*:\s*", h)
                    if not a:
                        break
                    access, h = a.group(1), h[a.end():]
                mem.append((access, " ".join(h.split()), text[b:e - 1].rsplit("}", 1)[0] if b else None))
                k = e
            out.append(("class", m.group(2), m.group(3), mem))
        elif head.startswith("enum"):
            out.append(("enum", re.match(r"enum (?:class )?(\w+)", head).group(1), head, text[body:j - 1].rsplit("}", 1)[0]))
        elif head.startswith(("class ", "using ")):
            out.append(("other", head, None, None))
        elif head:
            out.append(("function", " ".join(head.split()), None, None))
        i = j
    return out


def params(s):
    s, out, depth = s.split("=")[0] if "=" in s and "," not in s else s, [], 0
    for x in re.split(r",(?![^<]*>)", s):
        x = x.split("=")[0].strip()
        if not x:
            continue
        m = re.match(r"(.*[\s&*>])(\w+)$", x)
        ty = m.group(1).strip() if m and m.group(1).strip() not in ("const", "") else x
        out.append(ty)
    return out


def enumerators(body):
    v, n = [], -1
    for x in body.split(","):
        x = x.strip()
        if x:
            a = [y.strip() for y in x.split("=")]
            n = eval(re.sub(r"(?<=[0-9a-fA-F])[ULul]+\b", "", a[1]), {"__builtins__": {}}) if len(a) > 1 else n + 1
            v.append((a[0], n))
    return v


def swig(r, ctx, rounds=30, **kw):
    """every declaration of the SWIG interface names what exists in its C++ code; classes work as the ones of commsdsl2comms"""
    p = Project(r, ctx, twop=25, noiface=True, nns=0, **kw)
    b = p.b
    app = "commsdsl2swig"
    if not domain(app, b) or len(b.ifaces) != 1:
        raise Skip("schema outside of the domain of " + app)
    cc = codec.Ctx(b)
    sel, opt, force, extra = select(r, p, b)
    d = p.out(app, extra)
    g = Em(p, cc, force or p.base is not None)
    g.enums, g.bits, g.handled = [], [], []
    ip = list(b.ifaces)[0]
    I = g.cname(ip)
    pre = p.main + "_" if g.mainns else ""
    H, DB = pre + "MsgHandler", pre + "DataBuf"
    need = {I, H}
    for n in cc.ifields:
        g.field(n, "%sFields_%s" % (I, cls(n.f.name)))
    msgs = {x: b.msgs[x] for x in b.msgs if x in sel}
    for path, m in msgs.items():
        M = g.cname(path, "message")
        need.add(M)
        for n in cc.fields(m):
            g.field(n, "%sFields_%s" % (M, cls(n.f.name)))
    for path, fr in b.frames.items():
        need |= {g.cname(path, "frame"), g.cname(path, "frame") + "_AllFields"}
    need |= set(g.classes)
    main = [x for x in files(d, ".i")]
    if len(main) != 1:
        p.fail("the interface files are %s" % main, "swig-main")
    text = open(os.path.join(d, main[0])).read()
    code = "".join(re.findall(r"%\{(.*?)%\}", text, re.S))
    rest = re.sub(r"%\{.*?%\}", "", text, flags=re.S)
    incs = re.findall(r'^%include "(include/[^"]+)"', rest, re.M)
    have = ["include/" + x for x in files(d + "/include", ".h")]
    for x in have:
        if incs.count(x) != 1:
            p.fail("%s is included %d times" % (x, incs.count(x)), "swig-include")
    for x in incs:
        if x not in have:
            p.fail("%s does not exist" % x, "swig-include")
    decls, seen, renamed, templ, direct = [], {}, {}, {}, set()
    for l in rest.split("\n"):
        m = re.match(r'%include "(include/[^"]+)"', l)
        if m:
            new = declared(open(os.path.join(d, m.group(1))).read())
            decls += new
            for kind, nm, a, mem in new:
                if kind == "class":
                    if nm in seen:
                        p.fail("class %s is declared twice" % nm, "swig-twice")
                    seen[nm] = (a, mem)
                elif kind == "function" and "operator" in nm:
                    key = re.sub(r"\s*\b(first|second)\b", "", nm).replace("bool ", "").replace(" ", "")
                    if key not in renamed:
                        p.fail("%s is not renamed before its declaration" % nm, "swig-rename")
        m = re.match(r"%rename\((\w+)\) (.*);", l)
        if m:
            key = m.group(2).replace(" ", "")
            if key in renamed or m.group(1) in renamed.values():
                p.fail("renamed twice: " + l, "swig-rename")
            renamed[key] = m.group(1)
        m = re.match(r"%template\((\w+)\) (.*);", l)
        if m:
            if m.group(1) in templ:
                p.fail("instantiated twice: " + l, "swig-template")
            templ[m.group(1)] = m.group(2)
        m = re.match(r'%feature\("director"\) (\w+);', l)
        if m:
            direct.add(m.group(1))
    for n in need:
        vec = n[:-len("_Vector")] if n.endswith("_Vector") else None
        if n not in seen and not (vec and templ.get(n) == "std::vector<%s>" % vec):
            p.fail("%s is not declared" % n, "swig-missing")
    for h, nm in g.handled:
        pass
    for h, fns in g.want.items():
        names = {DECL.match(x[1]).group(3) for x in seen[h][1] if x[0] == "public" and x[2] is None and DECL.match(x[1])}
        for fn in fns | {"name"}:
            if fn not in EMS and EMS_AS.get(fn, fn) not in names:
                p.fail("%s has no function %s" % (h, fn), "swig-function:" + re.sub(r"_.*", "", fn))
    enums = {(h, re.match(r"enum (?:class )?(\w+)", x[1]).group(1)): dict(enumerators(x[2])) for h, (_, mem) in seen.items() for x in mem if x[2] is not None}
    for what, pre2, lst in ("ValueType", "", g.enums), ("BitIdx", "BitIdx_", g.bits):
        for h, nm, v in lst:
            if enums.get((h, what), {}).get(pre2 + nm, -1 << 70) & ((1 << 64) - 1) != v:
                p.fail("%s::%s%s is not declared with the value %d" % (h, pre2, nm, v), "swig-enum")
    g.handled += [(H, "handle_" + g.cname(x, "message")) for x in msgs]
    for h, fn in g.handled:
        if fn not in {DECL.match(x[1]).group(3) for x in seen[h][1] if x[2] is None and DECL.match(x[1])}:
            p.fail("%s has no function %s" % (h, fn), "swig-function:handle")
    for h, fn in [(I, x) for x in ("name", "getId", "read", "write", "refresh", "length", "valid", "dispatch")] + [(I, "transportField_" + acc(n.f.name)) for n in cc.ifields] + \
            [(g.cname(x, "message"), "field_" + acc(n.f.name)) for x, m in msgs.items() for n in cc.fields(m)] + \
            [(g.cname(x, "frame"), fn) for x, f in b.frames.items() for fn in ["processInputData", "processInputDataSingleMsg", "writeMessage", "appendMessage"] + ["layer_" + acc(l.name) for l in f.layers]]:
        if fn not in {DECL.match(x[1]).group(3) for x in seen[h][1] if x[0] == "public" and x[2] is None and DECL.match(x[1])}:
            p.fail("%s has no function %s" % (h, fn), "swig-function:" + re.sub(r"_.*", "", fn))
    for n in [H] + [h for h, _ in g.handled]:
        if n not in direct:
            p.fail("%s cannot be extended, it is not a director" % n, "swig-director")
    glob = tuple(g.cname(x, "field") for x in b.fields)
    fr = tuple(g.cname(x, "frame") for x in b.frames)
    for n in seen:
        if n not in need and not n.startswith(glob + fr):
            p.fail("%s is declared but there is no such element" % n, "swig-extra")
    # what SWIG generates: a call of every declared function
    uses, chk = [], []
    for k, (kind, nm, base, mem) in enumerate(decls):
        if kind == "enum":
            for e, v in enumerators(mem):
                sc = nm + "::" if "class" in base else ""
                uses.append("static_assert(static_cast<long long>(%s%s) == %dLL%s, \"%s\");" % (sc, e, v if v < 1 << 63 else v - (1 << 64), "", e))
        elif kind == "function":
            m = DECL.match(nm)
            if "operator" in nm:
                a = params(m.group(4))
                uses.append("static bool u%d(%s a, %s b) { return a %s b; }" % (k, a[0], a[1], m.group(3)[8:]))
            else:
                uses.append("static %s u%d() { return %s(); }" % (m.group(2), k, m.group(3)))
        elif kind == "class":
            if base:
                uses.append("static_assert(std::is_base_of_v<%s, %s>, \"\");" % (base, nm))
            body = []
            for j, (access, h, en) in enumerate(mem):
                if access != "public" or "~" in h:
                    continue
                if en is not None:
                    m = re.match(r"enum (class )?(\w+)", h)
                    for e, v in enumerators(en):
                        body.append("static_assert(static_cast<unsigned long long>(%s::%s%s) == %dULL, \"%s\");" % (nm, m.group(2) + "::" if m.group(1) else "", e, v & ((1 << 64) - 1), e))
                    continue
                m = re.match(r"using (\w+) = (.*)$", h)
                if m:
                    body.append("static_assert(std::is_convertible_v<%s::%s, %s> || std::is_base_of_v<%s::%s, %s>, \"%s\");" % (2 * (nm, m.group(1), m.group(2)) + (m.group(1),)))
                    continue
                m = DECL.match(h)
                if not m:
                    m = re.match(r"([\w:<>]+)\s+(m_\w+)$", h)
                    if not m:
                        p.fail("cannot read the declaration " + h, "swig-decl")
                    body.append("static auto v%d(%s& x) { return &x.%s; }" % (j, nm, m.group(2)))
                    continue
                st, ret, fn, ar, const = m.group(1), (m.group(2) or "").strip(), m.group(3), params(m.group(4)), m.group(5)
                if fn == nm:
                    body.append("static_assert(std::is_constructible_v<%s%s>, \"\");" % (nm, "".join(", " + x for x in ar)))
                    continue
                pa = ", ".join("%s a%d" % (x, i) for i, x in enumerate(ar))
                call = ", ".join("static_cast<%s>(a%d)" % (x, i) if "&" in x else "a%d" % i for i, x in enumerate(ar))
                if st == "static ":
                    body.append("static %s u%d(%s) { return %s::%s(%s); }" % (ret, j, pa, nm, fn, call))
                else:
                    body.append("static %s u%d(%s%s& x%s) { return x.%s(%s); }" % (ret, j, "const " if const else "", nm, ", " + pa if pa else "", fn, call))
            uses.append("struct U%d : %s { %s };" % (k, nm, "\n ".join(body)))
    for n, t in templ.items():
        uses.append("using %s_T = %s;" % (n, t))
    # the declarations themselves are C++
    dsrc = os.path.join(p.root, "decl.cpp")
    with open(dsrc, "w") as f:
        f.write("#include <cstdint>\n#include <string>\n#include <vector>\n" + "".join('#include "%s"\n' % x for x in incs))
    fl = p.flags()
    p.cxx(gencpp.FLAGS + ["-w", "-I" + d, "-fsyntax-only", dsrc], "the declarations for SWIG are not consistent", "swig-decl")
    src = os.path.join(p.root, "drv.cpp")
    order = sorted((m.id, m.order, i) for i, (x, m) in enumerate(msgs.items()))
    O = "%s_ProtocolOptions" % p.main if p.main + "_ProtocolOptions" in code else "ProtocolOptions"
    names = [g.cname(x, "message") for x in msgs]
    drv = []
    for i, path in enumerate(msgs):
        drv.append("struct X%d : %s<%s, %s> {};" % (i, gencpp.scope(path, "message", p.main), I, O))
    HD = "struct Seen : %s { std::string* s = nullptr; %s void handle_%s(%s&) override { *s += \" ?\"; } };" % (
        H, " ".join("void handle_%s(%s& m) override { *s += \" %s\" + show(m); }" % (M, M, M) for M in names), I, I)
    drv.append("static std::string show(const %s& m) { std::ostringstream o; %s b; auto es = m.write(b); o << static_cast<unsigned long long>(m.getId()) << '/' << m.name() << '/' << m.length() << m.valid() << static_cast<int>(es) << drv::hex(b.data(), b.size()); return o.str(); }" % (I, DB))
    drv += [HD, "template <class F> std::string wire(const F& f) { std::vector<std::uint8_t> b; auto it = std::back_inserter(b); f.write(it, b.max_size()); return drv::hex(b.data(), b.size()); }"]
    mcase = "".join("""case %(i)d: { %(M)s m; %(X)s x; auto s = rng.bytes(24); %(DB)s v(s.begin(), s.end()); auto it = v.cbegin(); int e1 = 0, e2 = 0; if (rng.below(4)) { e1 = static_cast<int>(m.read(v)); e2 = static_cast<int>(x.read(it, v.size())); }
  bool r1 = rng.below(2) ? (m.refresh() == x.refresh()) : true; std::string got; Seen h; h.s = &got; auto a = show(m), b = show(x); m.dispatch(h);
  if (e1 != e2 || !r1 || a != b || got != " %(M)s" + a) o << "DIFF message 0\t" << e1 << a << got << "\t" << e2 << b; else o << "ok"; break; }
""" % {"i": i, "M": M, "X": "%s<%s, %s>" % (gencpp.scope(list(msgs)[i], "message", p.main), I, O), "DB": DB} for i, M in enumerate(names))
    fcase = "".join("""if (c == "f" && i == %(k)d) {
  using RF = %(X)s<%(I)s, std::tuple<%(A)s>, %(O)s>; RF xf; %(F)s cf; %(F)s_AllFields all; std::string f1, f2; %(DB)s buf, ref; std::ostringstream a, b;
  for (int n = 0; n < 3; ++n) switch (rng.below(%(N)d)) { %(cases)s }
  if (buf != ref) a << " append";
  if (rng.below(3) == 0 && !buf.empty()) { if (rng.below(2)) buf.resize(rng.below(buf.size())); else buf[rng.below(buf.size())] = static_cast<std::uint8_t>(rng.num()); }
  std::string g1, g2; Seen h1, h2; h1.s = &g1; h2.s = &g2;
  a << cf.processInputData(buf, h1); b << (buf.empty() ? 0 : comms::processAllWithDispatch(buf.cbegin(), buf.size(), xf, h2));
  std::size_t pos = 0;
  for (int n = 0; n < 5; ++n) {
    %(DB)s rest(buf.begin() + static_cast<std::ptrdiff_t>(pos), buf.end());
    bool q = rng.below(2); auto got = cf.processInputDataSingleMsg(rest, h1, q ? &all : nullptr); a << " used " << got;
    std::size_t len = 0; typename RF::AllFields ff;
    while (len < rest.size()) {
      typename RF::MsgPtr msg; auto it = rest.cbegin() + static_cast<std::ptrdiff_t>(len); auto from = it; std::size_t idx = 0;
      auto es = q ? xf.readFieldsCached(ff, msg, it, rest.size() - len, comms::frame::msgIndex(idx)) : xf.read(msg, it, rest.size() - len, comms::frame::msgIndex(idx));
      if (es == comms::ErrorStatus::NotEnoughData) break;
      if (es == comms::ErrorStatus::ProtocolError) { ++len; continue; }
      len += static_cast<std::size_t>(it - from);
      if (q) { %(fields)s }
      if (es == comms::ErrorStatus::Success) msg->dispatch(h2);
      break;
    }
    b << " used " << len;
    if (!got) break;
    pos += got;
  }
  a << g1 << f1; b << g2 << f2;
  if (a.str() != b.str()) o << "DIFF frame 0\t" << a.str() << "\t" << b.str(); else o << "ok";
}
""" % {"k": k, "F": g.cname(path, "frame"), "X": gencpp.scope(path, "frame", p.main), "I": I, "O": O, "DB": DB, "N": len(names),
       "fields": " ".join("f1 += ' ' + wire(reinterpret_cast<const std::tuple_element_t<%d, typename RF::AllFields>&>(all.m_%s)); f2 += ' ' + wire(std::get<%d>(ff));" % (j, acc(l.name), j) for j, l in enumerate(Frame(cc, fr, {}).order)),
       "A": ", ".join(names[x[2]] for x in order),
       "cases": "".join("case %d: { %s m; auto s = rng.bytes(24); m.read(%s(s.begin(), s.end())); m.refresh(); auto it = std::back_inserter(ref); auto e2 = xf.write(m, it, ref.max_size() - ref.size()); auto e1 = cf.appendMessage(m, buf); a << static_cast<int>(e1); b << static_cast<int>(e2); if (e1 == comms::ErrorStatus::Success) { auto old = buf; auto w = cf.writeMessage(m); %s last(buf.end() - static_cast<std::ptrdiff_t>(w.size()), buf.end()); if (last != w) a << \" writeMessage\"; } break; } " % (i, M, DB, DB) for i, M in enumerate(names))} for k, (path, fr) in enumerate(b.frames.items()))
    with open(src, "w") as f:
        f.write('#include "gendrv.h"\n#include <cassert>\n' + code + '\n#include "cdrv.h"\n#include "comms/process.h"\n' + "\n".join(x for x in drv if not x.startswith("struct X")) + "\nnamespace uses {\n" + "\n".join(uses) + "\n}\n")
        f.write("int main() { return drv::loop([](drv::Tok& t, std::ostream& o) { auto c = t.next(); std::size_t i = std::strtoul(t.next().c_str(), nullptr, 10); cdrv::Rng rng{std::strtoull(t.next().c_str(), nullptr, 10)};\n")
        f.write("if (c == \"m\") switch (i) {\n" + mcase + "default: break; }\n" + fcase + "}); }\n")
    args = ["-I" + gencpp.pch_dir(ctx), "-I" + gencpp.CPP + "/cdrv"] + fl
    p.cxx(args + ["-c", src, "-o", src + ".o"], "what the SWIG interface declares does not compile", "swig-compile")
    p.cxx([src + ".o", "-o", src[:-4]], "the code of the SWIG interface does not link", "swig-link")
    prog = gencpp.Compiled(src[:-4])
    lines = ["m %d %d" % (i, r.bits(40)) for i in range(len(names)) for _ in range(rounds)] + ["f %d %d" % (i, r.bits(40)) for i in range(len(b.frames)) for _ in range(rounds * 4)]
    try:
        out = prog.run(lines)
    except Violation as v:
        v.info["schema"] = (p.base or "") + p.text
        raise
    for l, a in zip(lines, out):
        a = a.strip()
        if not a.startswith("ok"):
            p.fail("the class for SWIG differs from the C++ class: " + a[:300], "swig-differs", command=l)
    return Result(fingerprint((p.base or "") + p.text), len(uses) >= 10, [("class:" + k, v) for k, v in g.kinds.items()] +
                  [(c, 1) for c in shape(b) | opt | ({"two schemas"} if p.aux else set())] + [("declarations", len(uses)), ("histories", len(lines))],
                  {"classes": len(seen), "declarations": len(uses), "histories": len(lines)})


CHECK = Check("C17", [
    ("bindings", lambda r, c: program(r, c, csump=r.pick([30, 60]), extras=False, nonuniqp=r.pick([10, 100]), sameids=50, nmsgs=r.pick([(1, 4), (2, 6)])), 40, 3000),
    ("interface", lambda r, c: swig(r, c, csump=r.pick([30, 60]), extras=False, nonuniqp=r.pick([10, 100]), sameids=50, nmsgs=r.pick([(1, 4), (2, 6)])), 40, 3000),
], "a schema with at least 3 kinds of bound fields and 20 histories",
    setup=lambda: (build.ensure(["commsdsl2comms", "commsdsl2emscripten", "commsdsl2swig"]), gencpp.pch()), quick_s=400,
    assumptions=["the generated code is compiled against cpp/minicomms and cpp/embind, stand-ins of the COMMS library and of embind"])
