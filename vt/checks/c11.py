"""C11: message bundles, message id enumeration, factories and dispatch functions generated by commsdsl2comms."""
from ..harness import Check, Result, Violation, Skip, fingerprint
from .. import codec, gencheck, gencpp
import os

MARK = "T%d"
DISPATCH = ["dispatch::dispatch{n}Message<{o}>(id, {m}, h)", "dispatch::dispatch{n}Message<{o}>(id, idx, {m}, h)",
            "dispatch::dispatch{n}MessageDefaultOptions(id, {m}, h)", "dispatch::dispatch{n}MessageDefaultOptions(id, idx, {m}, h)",
            "dispatch::{n}MsgDispatcher<{o}>::dispatch(id, {m}, h)", "dispatch::{n}MsgDispatcher<{o}>::dispatch(id, idx, {m}, h)",
            "dispatch::{n}MsgDispatcherDefaultOptions::dispatch(id, {m}, h)", "dispatch::{n}MsgDispatcherDefaultOptions::dispatch(id, idx, {m}, h)",
            "dispatch::{n}MsgDispatcher<{o}>::template dispatch<B>(id, {m}, h)", "dispatch::{n}MsgDispatcher<{o}>::template dispatch<B>(id, idx, {m}, h)"]


def under(path, ns):
    """messages of the namespace; the nameless one does not include the named ones"""
    parts = tuple(path.split(".")[:-1])
    return parts[:len(ns)] == ns if ns else not parts


def macro(name):
    """ClientInputMessages -> CLIENT_INPUT_MESSAGES"""
    out = ""
    for i, c in enumerate(name):
        if c.isupper() and i and not name[i - 1].isupper() and out[-1] != "_":
            out += "_"
        out += c.upper()
    return out


def bundles(c, extra):
    b = c.b
    order = {p: i for i, p in enumerate(b.msgs)}
    out = []
    nss = sorted({f[:k] for f in [tuple(p.split(".")[:-1]) for p in b.frames] for k in range(0 if not f else 1, len(f) + 1)})
    for ns in nss:
        own = [p for p in b.msgs if under(p, ns)]
        own.sort(key=lambda p: (b.msgs[p].id, b.msgs[p].order))
        groups = [("", own)] + [(gencpp.cls(pl), [p for p in own if not b.msgs[p].platforms or pl in b.msgs[p].platforms]) for pl in b.schema.platforms]
        groups += [(gencpp.cls(n), [p for p in own if p in ps]) for n, ps in extra]
        for g, ps in groups:
            sub = [("", ps), ("ClientInput", [p for p in ps if b.msgs[p].sender != 1]), ("ServerInput", [p for p in ps if b.msgs[p].sender != 2])]
            for s, q in sub:
                out.append((ns, g + s, ("All" if not g + s else g + s) + "Messages", [order[p] for p in q], bool(own)))
    return out


def tables(c):
    c.bnd = bundles(c, c.extra)
    opts = "%s::options::DefaultOptions" % c.main
    out = []
    for k, (ns, disp, name, ids, full) in enumerate(c.bnd):
        sc = "::".join((c.main,) + ns)
        base = "/".join((c.main,) + ns)
        inc = [base + "/input/%s.h" % name]
        tup = "%s::input::%s<Iface, %s>" % (sc, name, opts)
        code = ['auto k = t.next(); using B = %s;' % tup,
                "static_assert(std::is_same_v<B, %s::input::%s<Iface>>);" % (sc, name),
                "static_assert(std::is_same_v<B, std::tuple<%s>>, \"members of the bundle %s\");" % (", ".join("M%d" % i for i in ids), name)]
        if full or ids:
            mac = "_".join((c.main,) + ns).upper() + "_ALIASES_FOR_" + macro(name)
            own = [c.paths[i].split(".")[-1] for i in ids]
            if len({gencpp.cls(x) for x in own}) == len(own):
                code.append("{ %s(Al, Ias, Iface, %s); %s }" % (mac, opts, " ".join("static_assert(std::is_same_v<Al%sIas, M%d>);" % (gencpp.cls(x), i) for x, i in zip(own, ids))))
                code.append("{ %s_DEFAULT_OPTIONS(Al, Ias, Iface); %s }" % (mac, " ".join("static_assert(std::is_same_v<Al%sIas, M%d>);" % (gencpp.cls(x), i) for x, i in zip(own, ids))))
        code.append('if (k == "b") { drv::bundle<B>(o); }')
        if full:
            inc += [base + "/factory/%sDynMemMsgFactory.h" % name, base + "/dispatch/Dispatch%sMessage.h" % disp]
            fac = "%s::factory::%sDynMemMsgFactory<Iface, %s>" % (sc, name, opts)
            code.append('if (k == "c") { o << " u" << %s::hasUniqueIds() << " f" << %s::isDispatchPolymorphic() << %s::hasInPlaceAllocation() << %s::hasForcedDispatch() << %s::hasGenericMessageSupport(); drv::factory<Ref, %s>(t, o); }' % ((fac,) * 6))
            sw = " ".join("case %d: { %s; break; }" % (i, "%s::%s" % (sc, d.format(n=disp, o=opts, m="static_cast<Iface&>(*p)"))) for i, d in enumerate(DISPATCH))
            code.append('if (k == "d") { auto kind = std::stoi(t.next()); auto id = static_cast<typename Iface::MsgIdType>(std::stoull(t.next())); std::size_t idx = std::stoul(t.next()); '
                        'auto p = drv::make<Ref, Iface>(std::stoul(t.next())); drv::Handler<Ref, Iface> h{o}; switch (kind) { %s default: break; } }' % sw)
        out.append({"inc": inc, "code": " ".join(code)})
    # message ids
    inc, code = [], []
    for ns, names in c.msgids:
        base = "/".join((c.main,) + ns) + "/MsgId.h"
        sc = "::".join((c.main,) + ns)
        inc.append(base)
        code += ['o << " " << static_cast<std::intmax_t>(%s::MsgId_%s);' % (sc, n) for n, _ in names]
        code.append('o << " s" << std::numeric_limits<std::underlying_type_t<%s::MsgId>>::digits;' % sc)
    out.append({"inc": inc, "code": " ".join(code)})
    return out


def msgid_list(b, extra=None):
    """namespaces with the enumeration of message ids, and its enumerators"""
    out = []
    nss = sorted({tuple(p.split(".")[:-1]) for p in b.ifaces})
    if not b.ifaces:
        nss = [()]
    for ns in nss:
        en = [x for p, x in b.fields.items() if x.kind == "enum" and x.sem == "messageid" and under(p, ns)]
        if not en and not ns:
            en = [x for p, x in b.fields.items() if x.kind == "enum" and x.sem == "messageid"]
        if len(en) == 1:
            out.append((ns, [(v[0], v[5]) for v in en[0].values]))
            continue
        ms = [p for p in b.msgs if under(p, ns)]
        if not ms and not ns:
            ms = list(b.msgs)
        out.append((ns, [("_".join(p.split(".")[:-1] + [gencpp.cls(p.split(".")[-1])]), b.msgs[p].id) for p in ms]))
    return out


class C11(gencheck.Case):
    def build_args(self, r, ctx, b):
        args, self.extra = [], []
        for i in range(r.below(3) if r.chance(60) else 0):
            ps = r.subset(list(b.msgs), 50)
            if not ps:
                continue
            f = os.path.join(ctx.tmp, "sel%d.txt" % i)
            with open(f, "w") as o:
                o.write(r.pick(["\n", "\r\n"]).join(r.shuffle(list(ps))) + r.pick(["", "\n"]))
            n = r.pick(["Sel%d", "pick%d"]) % i if r.chance(70) else ""
            self.extra.append((n or "sel%d" % i, set(ps)))
            args.append((n + "@" if n else "") + f)
        if args:
            args = ["--extra-messages-bundle", ",".join(args)]
        self.msgids = msgid_list(b)
        return args


def case(r, ctx, **kw):
    c = C11(r, ctx, tables=tables, **{**dict(nmsgs=(3, 12), nfields=(0, 2), depth=1, framens=True, platp=60, twop=0), **kw})
    b, order = c.b, list(c.b.msgs)
    lines, exp, st = [], [], {}

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    mids = [b.msgs[p].id for p in order]
    own = [v for _, names in c.msgids for _, v in names]
    if max(mids) >= 1 << 32 > max(own + [0]):
        raise Skip("the interface is not meant for the ids of the other namespaces")
    top = (1 << 64) - 1 if max(mids) >= 1 << 32 else (1 << 32) - 1 if max(mids) >= 256 else 255
    lines.append("t %d" % len(c.bnd))
    exp.append(("ids", None, None))
    for k, (ns, disp, name, ids, full) in enumerate(c.bnd):
        lines.append("t %d b" % k)
        exp.append(("bundle", name, [len(ids)] + [x for i in ids for x in (mids[i], "x" + (b.msgs[order[i]].displayName or b.msgs[order[i]].name).encode().hex())]))
        count("bundle:" + ("empty" if not ids else "full" if len(ids) == len(order) else "part"))
        if not full:
            count("bundle:no messages")
            continue
        by = {}
        for i in ids:
            by.setdefault(mids[i], []).append(i)
        uniq = all(len(v) < 2 for v in by.values())
        count("bundle:unique ids" if uniq else "bundle:repeated ids")
        probe = sorted(set(mids))
        probe += [x for x in {r.below(top + 1), mids[0] ^ 1, 0, top, r.pick(mids) + 1, max(r.pick(mids) - 1, 0)} if 0 <= x <= top]
        for x in probe:
            for idx in range(3):
                got = by.get(x, [])
                m = got[idx] if idx < len(got) and not (uniq and idx) else None
                lines.append("t %d c %d %d" % (k, x, idx))
                exp.append(("create", (name, x, idx), ["u%d" % uniq, "f0010", "-" if m is None else m, 1 if m is None else 0, "c1", "n%d" % len(got)]))
                count("create:" + ("nothing" if m is None else "index" if idx else "message"))
        for i, mid in enumerate(mids):
            same = [j for j in range(len(mids)) if mids[j] == mid]
            got = by.get(mid, [])
            idx = got.index(i) if i in got else r.below(2) if not got else len(got)
            kind = r.below(len(DISPATCH))
            withidx = kind % 2 == 1
            if not withidx:
                # without the index the first message with the id is meant
                if got and got[0] != i:
                    kind, withidx = kind + 1, True
                else:
                    idx = 0
            elif r.chance(25) and i in got:
                idx = len(got) + r.below(2)
            hit = i in got and idx < len(got) and got[idx] == i
            lines.append("t %d d %d %d %d %d" % (k, kind, mid, idx, i))
            exp.append(("dispatch", (name, DISPATCH[kind], mid, idx), [i, i] if hit else ["generic"]))
            count("dispatch:" + ("message" if hit else "generic"))
        i = r.below(len(mids))
        x = next((x for x in probe if x not in by), None)
        if x is not None:
            kind = r.below(len(DISPATCH))
            lines.append("t %d d %d %d %d %d" % (k, kind, x, 0, i))
            exp.append(("dispatch", (name, DISPATCH[kind], x, 0), ["generic"]))
            count("dispatch:unknown id")
    out = c.run(lines)
    for l, o, (kind, what, want) in zip(lines, out, exp):
        if kind == "ids":
            got = [x for x in o.split() if not x.startswith("s")]
            want = [v if v < 1 << 63 else v - (1 << 64) for _, names in c.msgids for _, v in names]
            if got != [str(x) for x in want]:
                c.fail("message ids are %s, must be %s" % (got, want), "msgid", names=str(c.msgids))
            count("message ids", len(want))
            continue
        if o.split() != [str(x) for x in want]:
            c.fail("%s %s: %s, must be %s" % (kind, what, o, " ".join(map(str, want))), kind, command=l, messages=str(list(zip(order, mids))))
    nontrivial = len(order) >= 2 and st.get("create:message", 0) >= 2 and st.get("dispatch:message", 0) >= 2
    return Result(fingerprint(c.text), nontrivial, list(st.items()), {"schema": c.text, "commands": lines[:6], "answers": out[:6]})


CHECK = Check("C11", [
    ("mixed", lambda r, c: case(r, c), 60, 4000),
    ("sameids", lambda r, c: case(r, c, nonuniqp=100, sameids=50), 40, 3000),
    ("platforms", lambda r, c: case(r, c, platp=100, versions=False), 30, 2000),
    ("bigids", lambda r, c: case(r, c, msgidenums=0, idmax=(1 << r.pick([16, 31, 32, 63, 64])) - 1), 40, 3000),
    ("namespaces", lambda r, c: case(r, c, nns=2, nmsgs=(4, 14), msgidenums=r.below(3)), 30, 2000),
], "a schema with at least two messages, two of which are created and two dispatched to their handlers",
    setup=gencpp.setup, quick_s=400,
    assumptions=["the generated code is compiled against cpp/minicomms, a stand-in of the COMMS library written for this check (the library itself is not available here)"])
