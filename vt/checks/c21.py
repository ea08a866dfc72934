"""C21: customization level, option bundles and naming do not change what the generated code does on the wire."""
import os
from ..harness import Check, Result, Violation, Skip, fingerprint
from .. import codec, gencheck, gencpp, etree, proto
from ..codec import Discard
from ..proto import deref
from .c12 import Frame

BUNDLES = ["DataView", "BareMetal", "Client", "Server"]


class Variant:
    def __init__(self, r, b, base=False):
        self.args, self.level, self.main, self.tops, self.ns = [], "limited", b.schema.name, (), False
        if base:
            return
        self.level = r.pick(["full", "limited", "none"])
        if self.level != "limited" or r.chance(30):
            self.args += ["--customization", self.level]
        if r.chance(40):
            self.main = "ren_" + str(r.below(90)) if r.chance(60) else b.schema.name + "X"
            self.args += ["-n", self.main]
        if r.chance(30):
            self.args.append("--force-main-ns-in-options")
            self.ns = True
        if r.chance(25):
            self.args.append("--code-inject-comments")
        if r.chance(20):
            self.args += ["-V", "%d.%d.%d" % (r.below(9), r.below(9), r.below(9))]
        if not r.chance(10):
            self.tops = tuple(r.shuffle(list(BUNDLES))[:r.weighted([(60, 1), (25, 2), (10, 3), (5, 4)])])

    def topt(self):
        if not self.tops:
            return None
        o = ""
        for t in reversed(self.tops):
            o = "%s::options::%sDefaultOptions%s" % (self.main, t, "T<%s>" % o if o else "")
        return o

    def inc(self):
        return ["%s/options/%sDefaultOptions.h" % (self.main, t) for t in self.tops]

    def text(self):
        return "%s %s" % (" ".join(self.args), self.topt())

    # --- what the options must do
    def custom(self, f):
        return self.level != "none" or f.custom

    def seq(self, f, fixed):
        if not self.custom(f):
            return "s"
        s = "s"
        if "DataView" in self.tops and f.kind != "list":
            s += "v"
        if "BareMetal" in self.tops:
            s += "x" if fixed else "f32"
        return s

    def store(self, f):
        f = deref(f)
        k = f.kind
        if k in ("string", "data"):
            return [self.seq(f, f.len)]
        if k == "list":
            return [self.seq(f, f.count)] + self.store(f.elem)
        if k in ("bundle", "bitfield", "variant"):
            return self.all(f.members)
        if k == "optional":
            return self.store(f.field)
        return ["."]

    def all(self, fs):
        return ["("] + [t for f in fs for t in self.store(f)] + [")"]

    def msg(self, m):
        fl = set()
        if m.sender and (self.level != "none" or m.custom):
            for t in self.tops:
                if t in ("Client", "Server"):
                    fl |= set("RD" if (m.sender == 1) == (t == "Client") else "WF")
        return "".join(x for x in "RDWF" if x in fl) + "-"

    def frame(self, F):
        out = ["P" if "BareMetal" in self.tops and any(L.kind == "id" for L in F.order) else "-", "("]
        for L in F.order:
            if L.kind == "payload":
                out.append("s" + ("v" if "DataView" in self.tops else "") + ("f256" if "BareMetal" in self.tops else ""))
            else:
                out += self.store(L.field)
        return out + [")"]


def program(ctx, b, text, v, i, frames):
    name = "g%d" % i
    try:
        out = gencpp.generate(ctx, b, text, v.args, name)
        tb = [{"inc": v.inc(), "code": ""}] if v.tops else []
        src = gencpp.main_cpp(b, v.main, frames=frames, tables=tb, topt=v.topt())
        return gencpp.compile_(ctx, src, [out + "/include"], name="drv%d" % i, schema=text)
    except Violation as e:
        e.info["schema"], e.info["variant"] = text, v.text()
        raise


def outcome(line, ans, v):
    """what must be the same"""
    def one(x):
        k = gencheck.kind_of(int(x))
        # the members of a variant without custom options are read at once, hence the reason of the failure may differ
        return "fail" if v.level != "limited" and k != "ok" else k
    t = line.split()
    a = ans.split()
    if t[2] in ("R", "r") and a[0] != "0":
        return one(a[0])
    if t[2] == "P":
        return [one(x) for x in a]
    return ans


def case(r, ctx, per=5, nvar=2, frames=True, **kw):
    b = gencheck.build_proto(r, **{**dict(wire=True, compile=True, codes=False, nmsgs=(1, 5), nfields=(1, 5), verfield=r.chance(40)), **kw})
    if not b.msgs:
        raise Skip("no message")
    text = etree.render(proto.section_doc(b))
    st = {}

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    cc = codec.Ctx(b, None, 0)
    msgs = [codec.Msg(cc, m) for m in b.msgs.values()]
    lines = []
    for mi, M in enumerate(msgs):
        lines += ["m %d I" % mi, "m %d D" % mi]
        for k in range(per):
            tv = M.gen_transport(r)
            v = M.gen(r, tv, k % 4 != 3)
            if v is None:
                continue
            try:
                enc = M.encode(v, tv)
            except Discard:
                enc = bytes(r.below(256) for _ in range(r.below(24)))
            head = "T" + M.ttoks(tv)
            lines.append("m %d W %s%s" % (mi, head, M.toks(v)))
            count("write")
            for q in (enc, gencheck.tweak(r, enc), gencheck.tweak(r, enc)):
                lines.append("m %d R %s x%s" % (mi, head, q.hex()))
                count("read")
            if len(enc) <= 64:
                lines.append("m %d P %s x%s" % (mi, head, enc.hex()))
    fs = []
    if frames:
        for fi, (fp, f) in enumerate(b.frames.items()):
            allm = {}
            for i, p in enumerate(b.msgs):
                allm.setdefault(b.msgs[p].id, []).append(i)
            fs.append(Frame(cc, f, allm))
            lines.append("f %d l" % fi)
            for mi, M in enumerate(msgs):
                for k in range(2):
                    tv = M.gen_transport(r)
                    v = M.gen(r, tv, True)
                    if v is None:
                        continue
                    try:
                        enc = fs[-1].encode(M, v, tv)
                    except Discard:
                        continue
                    lines.append("f %d w %d T%s%s" % (fi, mi, M.ttoks(tv), M.toks(v)))
                    for q in (enc, gencheck.tweak(r, enc)):
                        lines.append("f %d r x%s" % (fi, q.hex()))
                    count("frame")
    opts = ["m %d O" % i for i in range(len(msgs))] + ["f %d o" % i for i in range(len(fs))]
    vs = [Variant(r, b, True)] + [Variant(r, b) for _ in range(nvar)]
    for v in vs[1:]:
        count("level:" + v.level)
        for t in v.tops:
            count("bundle:" + t)
        for a in v.args:
            if a.startswith("-"):
                count("argument:" + a)
        if len(v.tops) > 1:
            count("bundles composed")
    base = None
    for i, v in enumerate(vs):
        def fail(msg, sig, **info):
            raise Violation(msg, sig=sig, schema=text, variant=v.text(), **info)
        prog = program(ctx, b, text, v, i, bool(fs))
        try:
            out = [o.strip() for o in prog.run(lines + opts)]
        except Violation as e:
            e.info["schema"], e.info["variant"] = text, v.text()
            raise
        res, oo = out[:len(lines)], out[len(lines):]
        if base is None:
            base = res
        for l, a, o in zip(lines, base, res):
            if outcome(l, a, v) != outcome(l, o, v):
                fail("options change the behaviour: %s\n default: %s\n variant (%s): %s" % (l[:300], a[:600], v.text(), o[:600]), "differs", command=l)
        for p, m, o in zip(b.msgs, b.msgs.values(), oo):
            want = [v.msg(m)] + v.all(m.fields)
            if o.split() != want:
                fail("message %s with %s: options in effect\n %s, must be\n %s" % (p, v.text(), o, " ".join(want)), "options")
            count("sequence:customized", sum(1 for t in want if len(t) > 1 and t[0] == "s"))
            count("sequence:standard", sum(1 for t in want if t == "s"))
            if want[0] != "-":
                count("message:%s" % want[0])
        for p, F, o in zip(b.frames, fs, oo[len(msgs):]):
            want = v.frame(F)
            if o.split() != want:
                fail("frame %s with %s: options in effect\n %s, must be\n %s" % (p, v.text(), o, " ".join(want)), "frame-options")
    nontrivial = st.get("write", 0) >= 3 and any(v.tops or v.args for v in vs[1:])
    return Result(fingerprint(text, *[v.text() for v in vs]), nontrivial, list(st.items()), {"schema": text, "variants": [v.text() for v in vs[1:]], "commands": lines[:5], "answers": base[:5]})


CHECK = Check("C21", [
    ("mixed", lambda r, c: case(r, c), 26, 3000),
    ("sequences", lambda r, c: case(r, c, depth=3, nfields=(2, 6), kinds=["string", "data", "list", "ref", "bundle", "optional", "variant", "int"]), 22, 3000),
    ("senders", lambda r, c: case(r, c, nmsgs=(4, 9), nfields=(0, 2), depth=1), 18, 3000),
], "a schema with at least 3 written values compared under options other than the default ones",
    setup=gencpp.setup, quick_s=400,
    assumptions=["the generated code is compiled against cpp/minicomms, a stand-in of the COMMS library written for this check; storage and no-implementation options are only recorded there"])
