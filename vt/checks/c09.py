"""C09: encoding and decoding of the classes generated by commsdsl2comms against an independent codec (vt/codec.py)."""
from ..harness import Check, Result, Violation, Skip, fingerprint
from .. import codec, gencheck, gencpp


def case(r, ctx, per=12, **kw):
    c = gencheck.Case(r, ctx, **{**dict(verfield=r.chance(60)), **kw})
    lines, exp, st = [], [], {}

    def count(k):
        st[k] = st.get(k, 0) + 1
    for mi, M in enumerate(c.msgs):
        for k in range(per):
            tv = M.gen_transport(r)
            v = M.gen(r, tv, k % 4 != 3)
            if v is None:
                count("value:none")
                continue
            try:
                want = M.state(v, tv)
                ch, nv = M.refresh(v, tv)
                want2 = M.state(nv, tv)
                enc = M.encode(v, tv)
            except codec.Discard:
                count("value:no encoding")
                continue
            head = "T" + M.ttoks(tv)
            lines.append("m %d W %s%s" % (mi, head, M.toks(v)))
            exp.append(("W", mi, want, want2, None))
            count("write")
            ins = [enc, gencheck.tweak(r, enc), gencheck.tweak(r, enc)]
            if k % 4 == 0:
                ins.append(bytes(r.below(256) for _ in range(r.below(32))))
            for i, q in enumerate(ins):
                try:
                    res = M.decode(q, tv)
                    ws = M.state(res[1], tv) if res[0] == 0 else None
                except codec.Discard:
                    count("read:not decided")
                    continue
                lines.append("m %d R %s x%s" % (mi, head, q.hex()))
                exp.append(("R", mi, res, ws, q))
                count("read:" + gencheck.kind_of(res[0]) + (":canonical" if i == 0 else ""))
            if len(enc) <= 64:
                try:
                    ks = [gencheck.kind_of(M.decode(enc[:n], tv)[0]) for n in range(len(enc))]
                except codec.Discard:
                    continue
                lines.append("m %d P %s x%s" % (mi, head, enc.hex()))
                exp.append(("P", mi, ks, None, enc))
                st["prefix"] = st.get("prefix", 0) + len(ks)
    out = c.run(lines)
    for l, o, (cmd, mi, want, ws, q) in zip(lines, out, exp):
        p = c.paths[mi]
        if cmd == "W":
            got, _, rest = o.partition(" R ")
            if "MISMATCH" in o:
                c.fail("message %s: virtual and direct functions disagree" % p, "virtual", command=l, answer=o)
            if gencheck.novalid(got) != gencheck.novalid(want):
                c.fail("message %s: value is encoded as\n %s, must be\n %s" % (p, got, want), "write", command=l)
            if gencheck.novalid(rest)[1:] != gencheck.novalid(ws):
                c.fail("message %s: refreshed value is\n %s, must be\n %s" % (p, rest, ws), "refresh", command=l)
        elif cmd == "R":
            t = o.split()
            k = gencheck.kind_of(int(t[0]))
            if k != gencheck.kind_of(want[0]):
                c.fail("message %s: read of x%s reports %s, must be %s" % (p, q.hex(), k, gencheck.kind_of(want[0])), "read", command=l, answer=o, want=str(want[1]))
            if k == "ok":
                if int(t[1]) != want[2]:
                    c.fail("message %s: read of x%s consumes %s bytes, must be %d" % (p, q.hex(), t[1], want[2]), "consumed", command=l, answer=o)
                got = o.partition(" R ")[0].split()[2:]
                if codec.settled(gencheck.novalid(got)) != codec.settled(gencheck.novalid(ws)):
                    c.fail("message %s: x%s is read as\n %s, must be\n %s" % (p, q.hex(), " ".join(got), ws), "value", command=l)
        else:
            got = [gencheck.kind_of(int(x)) for x in o.split()]
            if got != want:
                i = next(i for i in range(len(want)) if i >= len(got) or got[i] != want[i])
                c.fail("message %s: first %d bytes of x%s: %s, must be %s" % (p, i, q.hex(), got[i:i + 1], want[i]), "prefix", command=l)
    nontrivial = st.get("write", 0) >= 4 and st.get("read:ok", 0) >= 4
    return Result(fingerprint(c.text), nontrivial, c.kinds() + list(st.items()), {"schema": c.text, "commands": lines[:6], "answers": out[:6]})


COMPOSED = dict(depth=5, nfields=(2, 5), kinds=["int", "enum", "set", "string", "data", "list", "bundle", "optional", "variant", "ref", "bitfield"])

CHECK = Check("C09", [
    ("mixed", lambda r, c: case(r, c), 100, 6000),
    ("composed", lambda r, c: case(r, c, **COMPOSED), 60, 6000),
    ("versions", lambda r, c: case(r, c, verfield=True, versionp=85, vcv=40, subver=40), 50, 5000),
    ("sequences", lambda r, c: case(r, c, depth=2, nfields=(3, 8), kinds=["int", "string", "data", "list", "ref", "bundle", "optional"]), 60, 4000),
    ("bitfields", lambda r, c: case(r, c, per=8, depth=2, nmsgs=(2, 4), nfields=(12, 18), kinds=["int", "int", "ref", "ref", "ref", "bitfield", "bitfield"], bitrefs=8), 36, 3000),
    ("numbers", lambda r, c: case(r, c, depth=2, nfields=(6, 12), kinds=["int", "enum", "set", "float", "bitfield", "ref"]), 40, 3000),
], "a schema with at least 4 encoded values and 4 accepted inputs",
    setup=gencpp.setup, quick_s=400,
    assumptions=["the generated code is compiled against cpp/minicomms, a stand-in of the COMMS library written for this check (the library itself is not available here)",
                 "expected encodings come from vt/codec.py, an independent codec of the schema model"])
