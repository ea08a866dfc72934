"""C22: projects of commsdsl2tools_qt and commsdsl2test, compiled and driven."""
import json, os, re, subprocess
from ..harness import Check, Result, Skip, fingerprint
from .. import build, codec, gencheck, gencpp
from ..codec import Discard
from . import c15
from .c11 import under
from .c12 import Frame

TOOLS = os.path.join(gencpp.CPP, "toolsqt")


def hexs(s):
    return "x" + s.encode().hex()


def project(r, ctx, app, comms=None, **kw):
    p = c15.Project(r, ctx, comms=comms, **kw)
    b = p.b
    if not b.frames or not b.ifaces:
        raise Skip("schema outside of the domain of " + app)
    p.cc = codec.Ctx(b)
    p.paths = list(b.msgs)
    p.msgs = [codec.Msg(p.cc, m) for m in b.msgs.values()]
    return p


def frame_of(p, fp):
    """oracle of the frame: it knows the messages of its namespace"""
    b = p.b
    ns = tuple(fp.split(".")[:-1])
    cands = {}
    for i in sorted((i for i, q in enumerate(p.paths) if under(q, ns)), key=lambda i: (b.msgs[p.paths[i]].id, b.msgs[p.paths[i]].order)):
        cands.setdefault(b.msgs[p.paths[i]].id, []).append(i)
    return Frame(p.cc, b.frames[fp], cands)


def execute(p, exe, lines):
    try:
        return [o.strip() for o in gencpp.Compiled(exe).run(lines)]
    except gencpp.Violation as v:
        v.info.update(schema=p.text, args=" ".join(p.common + ["|"] + p.comms))
        raise


# --- plugins ---------------------------------------------------------------------------------------------------------------------------
NAMES = ["Prot", "My prot", "p1", "Some Protocol", "X-1", "a_b", "Two  words", "SomeProtocol"]


def plugin(r, ctx, **kw):
    p = project(r, ctx, "commsdsl2tools_qt", comms=lambda b: [], **kw)
    b, main = p.b, p.main
    extra, infos = [], []
    fr, ifs = list(b.frames), list(b.ifaces)
    ver = None
    i = p.comms.index("-V") if "-V" in p.comms else -1
    if i >= 0 and r.chance(70):
        ver = p.comms[i + 1]
        extra += ["-V", ver]
    desc = b.schema.description or "Protocol " + b.schema.name
    if r.chance(70):
        spec = []
        names = r.shuffle(NAMES)[:r.rng(1, 3)]
        seen = set()
        for n in names:
            if re.sub(r"\W+", "_", n).lower() in seen:
                continue
            seen.add(re.sub(r"\W+", "_", n).lower())
            f, i, d, pid = r.pick(fr + [""]), r.pick(ifs + [""]), r.pick(["", "some text", "text with \"quotes\"", "back\\slash"]), r.pick(["", "id_" + n.strip(), "x.y", "q1"])
            if len(names) == 1 and r.chance(30):
                n = ""
            spec.append(":".join([f, i, n, d, pid][:r.pick([5, 5, 5, 4, 3])]))
            v = spec[-1].split(":") + ["", ""]
            name = n or b.schema.name
            infos.append((f or None, i or None, name, v[3] or desc, v[4] or name))
        extra += ["--protocol", ",".join(spec)]
    else:
        infos.append((None, None, b.schema.name, desc, b.schema.name))
    if r.chance(20):
        extra.append("--force-main-ns-in-options")
        # options of the protocol are scoped in the same way
    p2 = p
    if "--force-main-ns-in-options" in extra:
        p.comms.append("--force-main-ns-in-options")
        p.dirs.clear()
        p.out("commsdsl2comms", p.comms)
    d = p.out("commsdsl2tools_qt", extra)
    p.common = p.common + extra
    srcs = c15.files(d, ".cpp")
    pdir = "cc_tools_qt_plugin/%s/plugin" % main
    heads = sorted(x for x in c15.files(d, ".h") if x.startswith(pdir + "/Plugin_"))
    if len(heads) != len(infos):
        p.fail("%d plugins are asked for, there are %s" % (len(infos), heads), "plugins")
    flags = p.flags([d, TOOLS])
    main_cpp = ['#include "gendrv.h"', '#include "cc_tools_qt/tools.h"']
    main_cpp += ['#include "%s"' % s for s in r.shuffle(srcs)]
    main_cpp.append("int main() { return drv::loop([](drv::Tok& t, std::ostream& o) { auto i = std::strtoul(t.next().c_str(), nullptr, 10); switch (i) {")
    for k, h in enumerate(heads):
        c = "cc_tools_qt_plugin::%s::plugin::%s" % (main, os.path.basename(h)[:-2])
        main_cpp.append(" case %d: { %s p; cc_tools_qt::pluginCmd(p, %s::vtMetadata(), t, o); break; }" % (k, c, c))
    main_cpp.append(" default: break; } }); }")
    src = os.path.join(p.root, "m.cpp")
    with open(src, "w") as f:
        f.write("\n".join(main_cpp) + "\n")
    p.cxx(["-I" + gencpp.pch_dir(ctx)] + flags + [src, "-o", src[:-4]], "the plugin does not compile", "plugin-compile")
    alone = r.shuffle(srcs + c15.files(d, ".h"))[:3]
    for s in alone:
        with open(src, "w") as f:
            f.write('#include "%s"\n' % s)
        p.cxx(p.pch() + flags + ["-fsyntax-only", src], "%s does not compile alone" % s, "plugin-compile-alone")
    # what the plugins are
    out = execute(p, src[:-4], ["%d i" % k for k in range(len(heads))])
    byname = {}
    for k, o in enumerate(out):
        t = o.split()
        byname.setdefault(bytes.fromhex(t[2][1:]).decode(), []).append((k, t))
    order = sorted(range(len(p.paths)), key=lambda i: (b.msgs[p.paths[i]].id, b.msgs[p.paths[i]].order))
    wantmsgs = [(signed(b.msgs[p.paths[i]].id), hexs(shown(b.msgs[p.paths[i]]))) for i in order]
    with open(os.path.join(d, "CMakeLists.txt")) as f:
        cm = f.read()
    st = {}

    def count(k):
        st[k] = st.get(k, 0) + 1
    for f, i, name, text, pid in infos:
        if len(byname.get(name, [])) != 1:
            p.fail("no (single) protocol is named \"%s\": %s" % (name, sorted(byname)), "protocol-name")
        k, t = byname[name][0]
        h = os.path.basename(heads[k])[:-2]
        if t[0] != "1":
            p.fail("plugin \"%s\" is not one of a protocol" % name, "type")
        meta = bytes.fromhex(t[1][1:]).decode()
        m = re.match(r'^IID ("(?:[^"\\]|\\.)*") FILE "([^"]*)"$', meta)
        if not m or cstr(m.group(1)) != pid or m.group(2) != h + ".json":
            p.fail("metadata of \"%s\" is %s, the id must be \"%s\" and the file %s.json" % (name, meta, pid, h), "metadata")
        got = list(zip([int(x) for x in t[4::3]], t[5::3]))
        for n, x in zip(t[4::3], t[6::3]):
            x = bytes.fromhex(x[1:]).decode()
            if int(x, 0 if x[:2] in ("0x", "0X") else 10) & ((1 << 64) - 1) != int(n) & ((1 << 64) - 1):
                p.fail("id %s of a message is shown by the plugin \"%s\" as %s" % (n, name, x), "id-string")
        if got != wantmsgs:
            p.fail("messages of the plugin \"%s\" are %s, must be %s" % (name, got, wantmsgs), "messages")
        prot = h[len("Plugin_"):]
        js, cfg = os.path.join(d, pdir, h + ".json"), os.path.join(d, pdir, prot + ".cfg")
        try:
            with open(js) as x:
                j = json.load(x)
            with open(cfg) as x:
                c = json.load(x)
        except (OSError, ValueError) as e:
            p.fail("description or configuration of the plugin \"%s\": %s" % (name, e), "json", file=open(js).read() if os.path.exists(js) else "")
        wn = name if name.endswith("Protocol") else name + " Protocol"
        if j.get("name") != wn or j.get("type") != "protocol" or j.get("version") != ("v" + ver if ver else None):
            p.fail("description of the plugin \"%s\" is %s, the name must be \"%s\", the version %s" % (name, j, wn, ver), "json-values")
        if words(" ".join(j.get("desc", []))) != words(text):
            p.fail("description of the plugin \"%s\" is %s, must be \"%s\"" % (name, j.get("desc"), text), "json-desc")
        if c.get("cc_plugins_list") != ["cc.EchoSocketPlugin", pid]:
            p.fail("configuration of the plugin \"%s\" is %s, must have \"%s\"" % (name, c, pid), "cfg")
        calls = re.findall(r"^\s*cc_plugin\s*\(\s*\"?([^\s\")]+)\"?\s+\"?([^\s\")]+)\"?\s*\)", cm, re.M)
        mine = [x for x in calls if x[0] == prot]
        iface = "_".join(gencpp.scope(i or ifs[0], "", "m").split("::")[1:])
        if len(mine) != 1 or mine[0][1] != iface or not re.search(r"^\s*cc_plugin_%s\s*\(\s*\)" % re.escape(iface), cm, re.M):
            p.fail("the build of the plugin \"%s\" (%s, %s) is %s" % (name, prot, iface, calls), "cmake")
        # how it works
        fp = f or fr[0]
        F = frame_of(p, fp)
        if any(n.wrap for n in p.cc.ifields) and any(L.kind == "value" for L in F.order):
            continue
        drive(r, p, src[:-4], k, F, fp, order, count)
    return Result(fingerprint(p.text + str(p.common)), st.get("message", 0) >= 4 and st.get("frame read", 0) >= 2,
                  list(st.items()) + [(x, 1) for x in c15.shape(b) | {"plugins:%d" % len(infos)}] + [("file compiled alone", len(alone))],
                  {"plugins": infos, "answers": out[:2]})


def signed(x):
    return x - (1 << 64) if x >= 1 << 63 else x


def shown(m):
    return m.displayName or m.name


def words(s):
    return s.replace("\\n", " ").split()


def cstr(s):
    return json.loads(s)


def drive(r, p, exe, k, F, fp, order, count):
    b, cc = p.b, p.cc
    lines, exp = [], []
    seen = {}
    for i in order:
        m, M = b.msgs[p.paths[i]], p.msgs[i]
        idx = seen.setdefault(m.id, 0)
        seen[m.id] += 1
        try:
            tv = M.transport_default()
            dv = M.default(tv)
        except Discard:
            continue
        for n in range(3):
            v = M.gen(r, tv, True)
            if v is None:
                continue
            try:
                enc = M.encode(v, tv)
                st, v2, used = M.decode(enc, tv)
                if st or used != len(enc) or cc.dirty:
                    continue
                fenc = F.encode(M, v, tv)
            except Discard:
                continue
            x = " x" + enc.hex()
            try:
                want = "%d %s %d x%s 1 %d%s x%s%s 1%s x%s" % (signed(m.id), hexs(shown(m)), M.valid(dv, tv), M.encode(dv, tv).hex(), M.valid(v2, tv), x, fenc.hex(), x, x, M.encode(dv, tv).hex())
            except Discard:
                continue
            lines.append("%d m %d %d x%s" % (k, signed(m.id), idx, enc.hex()))
            exp.append((want + "".join(" %d" % (j == i) for j in order), p.paths[i]))
            count("message")
        # framed input with any transport values
        for n in range(2):
            tv = M.gen_transport(r)
            v = M.gen(r, tv, True)
            if v is None:
                continue
            try:
                enc = F.encode(M, v, tv)
                res = F.decode(p.msgs, enc)
            except Discard:
                continue
            if res[0] or res[1] != len(enc) or res[5]:
                continue
            parts = layer_bytes(F, M, v, tv, enc)
            mi = res[2]
            got = b.msgs[p.paths[mi]]
            w = "%d %s x%s" % (signed(got.id), hexs(shown(got)), p.msgs[mi].encode(res[3], res[4]).hex())
            if any(L.kind == "value" and L.pseudo for L in F.f.layers):
                count("transport message of a pseudo layer")
            w += " T %d x%s %d" % (signed(m.id) if any(L.kind == "id" for L in F.order) else 0, enc.hex(), len(parts))
            for L, x in parts:
                w += " %s x%s" % ("-" if L.kind == "payload" else "?", x.hex())
            # the shortest beginning which can be read has no payload
            at = [L.kind for L, _ in parts].index("payload")
            w += " >=%d" % sum(len(x) for n, (L, x) in enumerate(parts) if n < at or n > at and L.field.kind == "int" and not L.field.type.endswith("var"))
            lines.append("%d r x%s" % (k, enc.hex()))
            exp.append((w, fp))
            count("frame read")
            bad = gencheck.tweak(r, enc)
            try:
                res = F.decode(p.msgs, bad)
            except Discard:
                continue
            if res[0]:
                lines.append("%d r x%s" % (k, bad.hex()))
                exp.append(("-", fp))
                count("frame refused")
    for l, o, (want, what) in zip(lines, execute(p, exe, lines), exp):
        ot, wt = o.split(), want.split()
        if len(ot) != len(wt) or any(not same(x, y) for x, y in zip(ot, wt)) or want == "-" and o != "-":
            p.fail("plugin with %s: command %s: answer\n %s, must be\n %s" % (what, l[:120], o, want), "plugin-" + l.split()[1], command=l)


def same(x, y):
    if y.startswith(">="):
        return int(x) >= int(y[2:])
    return x == y or y in ("?", "-")


def layer_bytes(F, M, v, tv, enc):
    """(layer, its bytes) in the order of declaration, which is the one of the bytes"""
    pay = M.encode(v, tv)
    L = F.f.layers
    pi = [x.kind for x in L].index("payload")
    sizes = {}

    def walk(i, data):
        l, n = F.order[i], F.nodes[i]
        if l.kind == "payload":
            sizes[id(l)] = len(data)
            return
        if l.kind == "value" and l.pseudo:
            sizes[id(l)] = 0
            return walk(i + 1, data)
        rest = F.encode(M, v, tv, i + 1)
        sizes[id(l)] = len(data) - len(rest)
        walk(i + 1, rest)
    walk(0, enc)
    out, pos = [], 0
    for l in L:
        out.append((l, enc[pos:pos + sizes[id(l)]]))
        pos += sizes[id(l)]
    return out


# --- the test program ------------------------------------------------------------------------------------------------------------------
class Text:
    """regular expression of what the test program prints for the fields of a message"""

    def __init__(self):
        self.out = []

    def put(self, x):
        self.out.append(re.escape(x.encode() if isinstance(x, str) else x))

    def num(self, v):
        if v < 0:
            hx = "|".join("%x" % (v & codec.mask(n)) for n in (8, 16, 32, 64) if v >= -(1 << n - 1))
        else:
            hx = "%x" % v
        self.out.append(("%d \\| 0x(?:%s)" % (v, hx)).encode())

    def one_of(self, names):
        self.out.append(b"(?:" + b"|".join(re.escape(n.encode()) for n in sorted(names)) + b")")

    def field(self, n, v, ind, name=None):
        name = display(n.f) if name is None else name
        self.put("    " * ind + name + " : ")
        if n.wrap:
            if self.opt(v[0]):
                self.field_in(n, v[1], ind + 1, name)
        else:
            self.value(n, v, ind)
        self.put("\n")

    def field_in(self, n, v, ind, name):
        self.put("    " * ind + name + " : ")
        self.value(n, v, ind)
        self.put("\n")

    def opt(self, mode):
        if mode == codec.MISSING:
            self.put("<missing>")
            return False
        if mode != codec.EXISTS:
            raise Discard()
        self.put("<exists>\n")
        return True

    def value(self, n, v, ind):
        while n.kind == "ref":
            n = n.sub
        f, k = n.f, n.kind
        if k == "int":
            self.num(v)
        elif k == "enum":
            names = {x[4] or x[0] for x in f.values if x[5] == v}
            if "_" in names or "" in names:
                raise Discard()
            if names:
                self.one_of(names)
                self.put(" (")
            self.num(v)
            if names:
                self.put(")")
        elif k == "set":
            self.put("0x%x" % v)
            bits = {}
            for b in f.bitsInfo:
                bits.setdefault(b[5], []).append(b)
            for i in sorted(bits):
                if any((b[4] or b[0]) == "_" for b in bits[i]):
                    raise Discard()
                res = any(b[7] for b in bits[i])
                if res:
                    self.out.append(b"(?:")
                self.put("\n" + "    " * (ind + 1))
                self.one_of({b[4] or b[0] for b in bits[i]})
                self.put(" : " + ("true" if v >> i & 1 else "false"))
                if res:
                    self.out.append(b")?")
        elif k == "float":
            x = codec.fval(v, f.type)
            self.put("%g" % x) if x == x else self.out.append(b"-?nan")
        elif k == "string":
            self.put(v)
        elif k == "data":
            self.put("".join("%02x " % x for x in v))
        elif k == "list":
            if v:
                self.put("\n")
            for x in v:
                self.field(n.elem, x, ind + 1)
        elif k in ("bundle", "bitfield"):
            self.put("\n")
            for m, x in zip(n.members, v):
                self.field(m, x, ind + 1)
        elif k == "optional":
            if self.opt(v[0]):
                self.field(n.sub, v[1], ind + 1)
        elif k == "variant":
            if v is None:
                self.put("<none>")
            else:
                self.put("(%d)\n" % v[0])
                self.field(n.members[v[0]], v[1], ind + 1)
        else:
            raise AssertionError(k)


def display(f):
    return "" if f.displayName == "_" else f.displayName or f.name


def messages(M, v):
    t = Text()
    m = M.m
    t.put("\n" + shown(m) + " (")
    t.out.append(("(?:0x0*%x|%d|%d)" % (m.id, m.id, signed(m.id))).encode())
    t.put("):\n")
    for n, x in zip(M.nodes, v):
        t.field(n, x, 1)
    t.put("\n")
    return b"".join(t.out)


def harness(r, ctx, **kw):
    p = project(r, ctx, "commsdsl2test", comms=lambda b: ["--force-main-ns-in-options"] if r.chance(20) else [], **kw)
    b, cc = p.b, p.cc
    if any(n.wrap for n in cc.ifields) and any(L.kind == "value" for f in b.frames.values() for L in f.layers):
        raise Skip("transport value of a version dependent field")
    d = p.out("commsdsl2test")
    with open(d + "/CMakeLists.txt") as f:
        defs = dict(c15.DEF.findall(f.read()))
    fp = r.pick(list(b.frames))
    how = "chosen"
    scopes = {gencpp.scope(q, "frame", p.main): q for q in b.frames}
    if r.chance(50) and defs.get("FRAME") in scopes:
        fp, how = scopes[defs["FRAME"]], "default"
    defs["FRAME"] = gencpp.scope(fp, "frame", p.main)
    m = re.match(r"^%s::(?:(\w+(?:::\w+)*)::)?input::AllMessages$" % re.escape(p.main), defs.get("INPUT_MESSAGES", ""))
    if not m:
        p.fail("messages of the test program are %s" % defs, "test-messages")
    srcs = c15.files(d, ".cpp")
    args = ["-D%s=%s" % x for x in defs.items()] + ["-D%s_HEADER=%s.h" % (k, v.replace("::", "/")) for k, v in defs.items()]
    exe = os.path.join(p.root, "t")
    p.cxx(p.pch() + p.flags() + ["-UNDEBUG"] + args + [os.path.join(d, srcs[0]), "-o", exe], "the test program does not compile with %s" % defs, "test-compile")
    # the bundle of messages which is handled
    bundles = {}
    for ns in sorted({()} | {tuple(q.split(".")[:-1]) for q in p.paths}):
        if os.path.exists(os.path.join(p.inc, p.main, *ns, "input", "AllMessages.h")):
            bundles["::".join([p.main, *ns, "input", "AllMessages"])] = ns
    if bundles and r.chance(50):
        defs["INPUT_MESSAGES"] = r.pick(sorted(bundles))
    if defs["INPUT_MESSAGES"] not in bundles:
        raise Skip("no messages in the bundle of the test program")
    ns = bundles[defs["INPUT_MESSAGES"]]
    cands, mine = {}, sorted((i for i, q in enumerate(p.paths) if under(q, ns)), key=lambda i: (b.msgs[p.paths[i]].id, b.msgs[p.paths[i]].order))
    if not mine:
        raise Skip("no messages in the bundle of the test program")
    for i in mine:
        cands.setdefault(b.msgs[p.paths[i]].id, []).append(i)
    F = Frame(cc, b.frames[fp], cands)
    sized = any(L.kind == "size" for L in F.order)
    runs = 0
    handled = 0
    covered = set()
    for _ in range(4 if sized else 12):
        data, n = b"", r.pick([1, 3, 10, 40]) if sized else 1
        for _ in range(n):
            M = p.msgs[r.pick(mine)]
            tv = M.gen_transport(r)
            v = M.gen(r, tv, True)
            if v is None:
                continue
            try:
                data += F.encode(M, v, tv)
            except Discard:
                continue
        if not data:
            continue
        if r.chance(30):
            data = data[:r.below(len(data)) + 1]
        try:
            want, hs = b"", 0
            pos, end = 0, 0
            while end < len(data):
                end = min(end + 1024, len(data))
                while pos < end:
                    res = F.decode(p.msgs, data[pos:end])
                    if res[0] == codec.NED:
                        break
                    if res[0] != codec.OK or res[1] == 0 or res[5]:
                        raise Discard()
                    want += messages(p.msgs[res[2]], res[3])
                    hs += 1
                    covered.add(res[2])
                    pos += res[1]
        except Discard:
            continue
        x = subprocess.run([exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        runs += 1
        handled += hs
        if x.returncode or x.stderr or not re.fullmatch(want, x.stdout, re.S):
            p.fail("test program with the frame %s: input x%s of %d message(s): status %d, it prints\n%s\nmust be like\n%s" % (fp, data.hex()[:300], hs, x.returncode, x.stdout.decode("utf-8", "replace")[:600], want.decode("utf-8", "replace")[:600]),
                   "harness", err=x.stderr.decode("utf-8", "replace")[-300:], input=data.hex())
    return Result(fingerprint(p.text), handled >= 3, [("program run", runs), ("message printed", handled), ("kind of message printed", len(covered)), ("program:" + how, 1)] + [(x, 1) for x in c15.shape(b)],
                  {"defs": defs, "handled": handled})


def setup():
    build.ensure(["commsdsl2comms", "commsdsl2tools_qt", "commsdsl2test"], "std")
    gencpp.pch()


CHECK = Check("C22", [
    ("plugin", lambda r, c: plugin(r, c), 24, 2000),
    ("harness", lambda r, c: harness(r, c), 24, 2000),
], "a plugin with at least 4 handled messages and 2 frames read, a test program with at least 3 messages printed",
    setup=setup, quick_s=400,
    assumptions=["the generated code is compiled against cpp/minicomms, a stand-in of the COMMS library, and cpp/toolsqt, a stand-in of the cc_tools_qt library and Qt (the libraries themselves are not available here)"])
