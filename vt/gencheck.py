"""Common part of the checks of the C++ code generated by commsdsl2comms: schema -> code -> program, oracle."""
import os
from . import proto, etree, gencpp, codec, refs, multi
from .common import build_proto
from .harness import Violation, Skip, fingerprint


def kind_of(st):
    return "ok" if st == 0 else "not-enough-data" if st == 2 else "bad"


class Case:
    def __init__(self, r, ctx, args=(), frames=False, tables=None, topt=None, version_dep=None, minrem=0, prep=None, twop=25, **kw):
        self.b = b = build_proto(r, **{**dict(wire=True, compile=True, codes=False, nmsgs=(1, 5)), **kw})
        if not b.msgs:
            raise Skip("no message")
        self.text = etree.render(proto.section_doc(b))
        args = list(args)
        base = two = None
        if not prep and r.chance(twop):
            # the same protocol, a part of its fields comes from another schema
            two = multi.split(r, b)
        if two:
            base, self.text = etree.render(two[1]), etree.render(two[2])
        if prep:        # other text, model and options of the same protocol
            a, minrem = prep(self, r, ctx)
            args += a
        args += self.build_args(r, ctx, b)
        self.out = gencpp.generate(ctx, b, self.text, args, base=base)
        self.two = bool(two)
        if two:
            self.text = base + "\n" + self.text
        self.main = b.schema.name
        self.cc = codec.Ctx(b, version_dep, minrem)
        self.msgs = [codec.Msg(self.cc, m) for m in b.msgs.values()]
        self.paths = list(b.msgs)
        src = gencpp.main_cpp(b, self.main, frames=frames, tables=tables(self) if tables else (), topt=topt, base=two[0] if two and os.path.exists("%s/include/%s/options" % (self.out, two[0])) else None)
        try:
            self.prog = gencpp.compile_(ctx, src, [self.out + "/include"], schema=self.text)
        except Violation as v:
            v.info["schema"] = self.text
            raise

    def build_args(self, r, ctx, b):
        return ()

    def run(self, lines):
        try:
            return [o.strip() for o in self.prog.run(lines)]
        except Violation as v:
            v.info["schema"] = self.text
            raise

    def fail(self, msg, sig, **info):
        raise Violation(msg, sig=sig, **info, schema=self.text)

    def kinds(self):
        """what the messages are made of"""
        ks = {}

        def walk(n):
            f = n.f
            tag = [n.kind]
            if n.wrap:
                ks["version-optional"] = ks.get("version-optional", 0) + 1
            if n.kind == "optional" and f.cond is not None:
                tag.append("cond")
            if n.kind in ("string", "data"):
                tag.append("fixed" if f.len else "prefix" if f.prefix is not None else "detached" if f.dprefix else "zterm" if n.kind == "string" and f.zterm else "rest")
            if n.kind == "list":
                tag.append("fixed" if f.count else "count" if f.cprefix is not None else "length" if f.lprefix is not None else "detached" if codec.det_of(f) else "rest")
                if f.elprefix is not None:
                    tag.append("elem")
            if n.kind in ("int", "enum") and codec.is_var(f.type):
                tag.append("var")
            if getattr(n, "lenidx", None) is not None:
                tag.append("length")
            if f.failInv:
                ks["failOnInvalid"] = ks.get("failOnInvalid", 0) + 1
            t = "-".join(tag)
            ks[t] = ks.get(t, 0) + 1
            for x in [getattr(n, a, None) for a in ("sub", "elem", "prefix", "cprefix", "lprefix", "elprefix")] + list(getattr(n, "members", [])):
                if x is not None:
                    walk(x)
        for m in self.msgs:
            for n in m.nodes:
                walk(n)
        return [("field:" + k, v) for k, v in ks.items()] + ([("two schemas", 1)] if self.two else [])


def tweak(r, enc):
    x = bytearray(enc)
    for _ in range(1 + r.below(2)):
        m = r.below(6)
        if x and m < 4:
            i = r.below(len(x))
            x[i] = [r.below(256), x[i] ^ (1 << r.below(8)), (x[i] + 1) & 255, (x[i] - 1) & 255][m]
        elif m == 4:
            x[r.below(len(x) + 1):] = bytes(r.below(256) for _ in range(r.below(8)))
        elif x:
            del x[r.below(len(x))]
    return bytes(x)


def novalid(toks):
    """state without the validity flag"""
    out = toks.split() if isinstance(toks, str) else list(toks)
    for i, t in enumerate(out):
        if t == "S":
            out[i + 1] = "_"
    return out
