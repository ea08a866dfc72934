"""C12: reading and writing of framed messages by the frames generated by commsdsl2comms."""
from ..harness import Check, Result, Violation, Skip, fingerprint
from .. import codec, gencheck, gencpp
from ..codec import OK, NED, BAD, Discard, NotEnough, Bad
from .c11 import under
import binascii, zlib


def crc16(data):
    """CRC-16/ARC"""
    x = 0
    for b in data:
        x ^= b
        for _ in range(8):
            x = x >> 1 ^ (0xa001 if x & 1 else 0)
    return x


def bits_sum(alg, data, size):
    m = (1 << (8 * size)) - 1
    if alg == 1:
        return sum(data) & m
    if alg == 5:
        x = 0
        for b in data:
            x ^= b
        return x
    return {2: lambda: binascii.crc_hqx(data, 0xffff), 3: lambda: crc16(data), 4: lambda: zlib.crc32(data)}[alg]() & m


class Frame:
    """oracle of one frame"""

    def __init__(self, cc, f, cands):
        self.cc, self.f, self.cands = cc, f, cands     # cands: id -> [message index] in the order they are tried
        pay = [x.kind for x in f.layers].index("payload")
        self.order = list(f.layers[:pay + 1])
        last = None
        for s in f.layers[pay + 1:]:
            # a suffix wraps everything from the layer it mentions, and the suffixes before it
            name = s.from_ or f.layers[pay].name
            i = next(i for i, x in enumerate(self.order) if x.name == name)
            if last is not None:
                i = min(i, self.order.index(last))
            self.order.insert(i, s)
            last = s
        for a, L in enumerate(self.order):
            # of the same start the later one is outer
            assert L.kind != "sync" or not L.after or a < len(self.order) - 1
        self.nodes = [cc.node(L.field) if L.field is not None else None for L in self.order]
        self.suffix = {id(s) for s in f.layers[pay + 1:]}

    def encode(self, M, v, tv, i=0):
        L, n = self.order[i], self.nodes[i]
        V = self.cc.V
        if L.kind == "payload":
            return M.encode(v, tv)
        rest = self.encode(M, v, tv, i + 1)
        if L.kind == "sync":
            x = n.encode(n.default(V), V)
            return rest + x if id(L) in self.suffix else x + rest
        if L.kind == "size":
            return self.put(n, len(rest)) + rest
        if L.kind == "id":
            return self.put(n, M.m.id) + rest
        if L.kind == "value":
            return rest if L.pseudo else n.encode(tv[L.fidx], V) + rest
        x = self.put(n, bits_sum(L.alg, rest, codec.tlen(codec.deref(L.field).type)))
        return rest + x if id(L) in self.suffix else x + rest

    def put(self, n, x):
        lo, hi = codec.int_range(codec.deref(n.f)) if codec.deref(n.f).kind == "int" else (None, None)
        if lo is not None and not lo <= x <= hi:
            raise Discard()
        return n.encode(x, self.cc.V)

    def decode(self, msgs, buf):
        """(status, consumed, message index, value, transport)"""
        self.msgs, self.buf = msgs, buf
        try:
            pos, res = self.dec(0, 0, len(buf), None, {})
            return (OK, pos) + res
        except NotEnough:
            return NED, 0, None, None, None
        except Bad:
            return BAD, 0, None, None, None

    def one(self, n, pos, end):
        return n.decode(self.buf, pos, end, self.cc.V)

    def dec(self, i, pos, end, mi, sets):
        L, n = self.order[i], self.nodes[i]
        V = self.cc.V
        suf = id(L) in self.suffix
        if L.kind == "payload":
            M = self.msgs[mi]
            tv = M.transport_default()
            for k, x in sets.items():
                tv[k] = x
            st, v, used = M.decode(self.buf[pos:end], tv)
            if st == NED:
                raise NotEnough()
            if st != OK:
                raise Bad()
            return pos + used, (mi, v, tv, self.cc.dirty)
        if L.kind in ("sync", "checksum") and suf:
            size = codec.tlen(codec.deref(L.field).type)
            if end - pos < size:
                raise NotEnough()
            if L.vbr:
                got = self.one(n, end - size, end)[0]
                if got != self.expect(L, n, pos, end - size):
                    raise Bad()
            p, res = self.dec(i + 1, pos, end - size, mi, sets)
            got, q = self.one(n, p, end)
            if got != self.expect(L, n, pos, p):
                raise Bad()
            return q, res
        if L.kind == "value" and L.pseudo:
            return self.dec(i + 1, pos, end, mi, {**sets, L.fidx: n.default(V)})
        got, p = self.one(n, pos, end)
        if L.kind == "sync":
            if got != n.default(V):
                raise Bad()
            return self.dec(i + 1, p, end, mi, sets)
        if L.kind == "value":
            return self.dec(i + 1, p, end, mi, {**sets, L.fidx: got})
        if L.kind == "size":
            if end - p < got:
                raise NotEnough()
            try:
                _, res = self.dec(i + 1, p, p + got, mi, sets)
            except NotEnough:
                raise Bad()
            return p + got, res
        if L.kind == "id":
            fails = []
            for mi in self.cands.get(got & codec.mask(64), []):
                try:
                    return self.dec(i + 1, p, end, mi, sets)
                except (NotEnough, Bad) as e:
                    fails.append(e)
            if not fails:
                raise Bad()
            if len({type(e) for e in fails}) > 1:
                raise Discard()
            raise fails[0]
        assert L.kind == "checksum"
        if L.vbr and got != self.expect(L, n, p, end):
            raise Bad()
        q, res = self.dec(i + 1, p, end, mi, sets)
        if got != self.expect(L, n, p, q):
            raise Bad()
        return q, res

    def expect(self, L, n, a, b):
        if L.kind == "sync":
            return n.default(self.cc.V)
        return bits_sum(L.alg, self.buf[a:b], codec.tlen(codec.deref(L.field).type))

    def kinds(self):
        out = []
        for L in self.order:
            t = L.kind
            if t == "checksum":
                t += ":%s:%s" % (["", "sum", "crc-ccitt", "crc-16", "crc-32", "xor"][L.alg], "after" if id(L) in self.suffix else "before")
            elif t == "sync" and L.after:
                t += ":after"
            elif t == "value" and L.pseudo:
                t += ":pseudo"
            if L.kind in ("checksum", "sync") and L.vbr:
                t += ":early"
            out.append("layer:" + t)
        return out


OPTS = [None, "DataViewDefaultOptions", "{f}"]


def case(r, ctx, per=3, **kw):
    c = gencheck.Case(r, ctx, frames=True, topt=None, **{**dict(verfield=r.chance(40), nmsgs=(2, 6), nfields=(0, 4), depth=2, nonuniqp=25), **kw})
    b = c.b
    if not b.frames:
        raise Skip("no frame")
    if any(n.wrap for n in c.cc.ifields) and any(L.kind == "value" for f in b.frames.values() for L in f.layers):
        raise Skip("transport value of a version dependent field")
    lines, exp, st = [], [], {}

    def count(k):
        st[k] = st.get(k, 0) + 1
    order = list(b.msgs)
    for fi, (fp, f) in enumerate(b.frames.items()):
        ns = tuple(fp.split(".")[:-1])
        allm = {}
        for i, p in enumerate(order):
            allm.setdefault(b.msgs[p].id, []).append(i)
        own = {}
        for i in sorted((i for i, p in enumerate(order) if under(p, ns)), key=lambda i: (b.msgs[order[i]].id, b.msgs[order[i]].order)):
            own.setdefault(b.msgs[order[i]].id, []).append(i)
        for cmd, cands in (("f", allm), ("g", own)):
            F = Frame(c.cc, f, cands)
            for k in F.kinds():
                count(k)
            V = c.cc.V
            lines.append("%s %d l" % (cmd, fi))
            dl = sum(len(n.encode(n.default(V), V)) for L, n in zip(F.order, F.nodes) if n is not None and not (L.kind == "value" and L.pseudo))
            exp.append(("l", fp, "%d b %d%s x" % (dl, len(F.nodes), "".join(n.tok(n.default(V)) for n in F.nodes if n is not None)), None, None))
            for mi, M in enumerate(c.msgs):
                for k in range(per):
                    tv = M.gen_transport(r)
                    v = M.gen(r, tv, k != 2)
                    if v is None:
                        continue
                    try:
                        enc = F.encode(M, v, tv)
                    except Discard:
                        count("write:not decided")
                        continue
                    lines.append("%s %d w %d T%s%s" % (cmd, fi, mi, M.ttoks(tv), M.toks(v)))
                    exp.append(("w", fp, "0 %d x%s" % (len(enc), enc.hex()), None, enc))
                    count("write")
                    ins = [enc, enc + bytes(r.below(256) for _ in range(r.rng(1, 4)))] + [gencheck.tweak(r, enc) for _ in range(3)]
                    x = damaged(r, F, enc, c)
                    if x is not None:
                        ins.append(x)
                    for i, q in enumerate(ins):
                        try:
                            res = F.decode(c.msgs, q)
                        except Discard:
                            count("read:not decided")
                            continue
                        lines.append("%s %d r x%s" % (cmd, fi, q.hex()))
                        exp.append(("r", fp, res, q, i))
                        count("read:" + gencheck.kind_of(res[0]) + (":canonical" if i == 0 else ""))
                    if len(enc) <= 48 and k == 0:
                        try:
                            ks = [gencheck.kind_of(F.decode(c.msgs, enc[:n])[0]) for n in range(len(enc))]
                        except Discard:
                            continue
                        lines.append("%s %d p x%s" % (cmd, fi, enc.hex()))
                        exp.append(("p", fp, ks, enc, None))
    out = c.run(lines)
    for l, o, (cmd, fp, want, q, i) in zip(lines, out, exp):
        if cmd in ("w", "l"):
            if o != want:
                c.fail("frame %s: %s\n %s, must be\n %s" % (fp, "message is written as" if cmd == "w" else "length and fields of the new frame are", o, want), "write" if cmd == "w" else "frame-default", command=l)
        elif cmd == "p":
            got = [gencheck.kind_of(int(x.rstrip("!"))) for x in o.split()]
            if got != want:
                i = next(i for i in range(len(want)) if i >= len(got) or got[i] != want[i])
                c.fail("frame %s: first %d bytes of x%s: %s, must be %s" % (fp, i, q.hex(), got[i:i + 1], want[i]), "prefix", command=l)
            bad = [x for x in o.split() if x.endswith("!") and x != "0!"]
            if bad:
                c.fail("frame %s: a message after unsuccessful read of a part of x%s" % (fp, q.hex()), "half", command=l)
        else:
            t = o.split()
            k = gencheck.kind_of(int(t[0]))
            if k != gencheck.kind_of(want[0]):
                c.fail("frame %s: read of x%s reports %s, must be %s" % (fp, q.hex(), k, gencheck.kind_of(want[0])), "read", command=l, answer=o, want=str(want))
            if k != "ok":
                if t[2:] != ["M", "-"]:
                    c.fail("frame %s: a message after unsuccessful read of x%s" % (fp, q.hex()), "half", command=l, answer=o)
                continue
            if int(t[1]) != want[1]:
                c.fail("frame %s: read of x%s consumes %s bytes, must be %d" % (fp, q.hex(), t[1], want[1]), "consumed", command=l, answer=o)
            mi, v, tv, dirty = want[2:]
            M = c.msgs[mi]
            ws = ("M %d%s T%s" % (mi, M.toks(v), M.ttoks(tv))).split()
            if codec.settled(t[2:]) != codec.settled(ws):
                c.fail("frame %s: x%s is read as\n %s, must be\n %s" % (fp, q.hex(), " ".join(t[2:]), " ".join(ws)), "value", command=l)
    nontrivial = st.get("write", 0) >= 3 and st.get("read:ok", 0) >= 3 and st.get("read:bad", 0) >= 1
    return Result(fingerprint(c.text), nontrivial, list(st.items()), {"schema": c.text, "commands": lines[:6], "answers": out[:6]})


def damaged(r, F, enc, c):
    """another message id in a valid frame, hence with the right checksum"""
    M = r.pick(c.msgs)
    tv = M.gen_transport(r)
    v = M.gen(r, tv, True)
    if v is None:
        return None
    save = M.m.id
    try:
        M.m.id = r.pick([r.below(256), r.pick(c.msgs).m.id])
        return F.encode(M, v, tv)
    except Discard:
        return None
    finally:
        M.m.id = save


CHECK = Check("C12", [
    ("mixed", lambda r, c: case(r, c), 60, 4000),
    ("transport", lambda r, c: case(r, c, verfield=True, valuep=100), 60, 4000),
    ("sameids", lambda r, c: case(r, c, nonuniqp=100, sameids=50), 30, 3000),
    ("checksums", lambda r, c: case(r, c, nfields=(0, 3), depth=1, csump=100), 60, 3000),
], "a schema whose frame wrote at least 3 messages, read 3 and rejected one",
    setup=gencpp.setup, quick_s=400,
    assumptions=["the generated code is compiled against cpp/minicomms, a stand-in of the COMMS library written for this check (the library itself is not available here)",
                 "the bytes of a frame and the outcome of its reading are computed by an independent model of the layers"])
