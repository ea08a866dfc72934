"""C13: output of a generator is a function of the schemas and the options only."""
import os, shutil
from ..harness import Check, Result, Violation, Skip, fingerprint
from ..common import build_proto
from .. import apps, etree, proto, build
from . import c05

ENVS = [{"LC_ALL": "C.utf8"}, {"LANG": "de_DE.UTF-8", "LC_ALL": ""}, {"TZ": "Pacific/Auckland"}, {"HOME": "/"}, {"COMMSDSL": "x", "OUTPUT_DIR": "/nonexistent"}, {"COLUMNS": "20", "TERM": "xterm"},
        {"SOURCE_DATE_EPOCH": "1"}]
TAGS = ["", "", "", "", "-sp ace", "-ünï", "-a.b", "-x+y"]


def domain(app, b):
    """schemas the generator is able to process"""
    if app in ("commsdsl2swig", "commsdsl2emscripten"):
        return b.msgs and b.frames and b.ifaces
    return bool(b.msgs)


def app_args(r, app, b, root):
    a = []
    if r.chance(25):
        a += ["-n", "other%d" % r.below(50)]
    if r.chance(20):
        a.append("--code-inject-comments")
    if r.chance(20) and b.V:
        a += ["--force-schema-version", str(r.rng(max(1, b.V - 2), b.V))] if app != "commsdsl2latex" and not b.ifaces else []
    if app == "commsdsl2comms":
        if r.chance(30):
            a += ["--customization", r.pick(["full", "limited", "none"])]
        if r.chance(20):
            a += ["-V", "1.2.%d" % r.below(9)]
        if r.chance(15):
            a.append("--force-main-ns-in-options")
    if app == "commsdsl2c" and r.chance(30):
        a += ["-P", "pre%d_" % r.below(9)]
    if app == "commsdsl2tools_qt" and r.chance(30):
        a += ["--protocol", "%s:%s:name:descr" % (r.pick(list(b.frames) + [""]), r.pick(list(b.ifaces) + [""]))] if b.frames and b.ifaces else []
    return a


def snap(d, skip=()):
    res = {}
    for p, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if os.path.join(p, x) not in skip]
        for x in dirs:
            res[os.path.relpath(os.path.join(p, x), d)] = None
        for x in files:
            q = os.path.join(p, x)
            with open(q, "rb") as f:
                res[os.path.relpath(q, d)] = f.read()
    return res


def respell(r, p):
    """another spelling of an absolute path of an existing directory entry"""
    m = r.below(4)
    if m == 0:
        return p
    d, n = os.path.split(p)
    return "/".join([d, {1: ".", 2: "", 3: "../" + os.path.basename(d)}[m], n])


def case(r, ctx, weights=None, nvar=3, **kw):
    app = r.weighted(weights or [(30, "commsdsl2comms"), (12, "commsdsl2c"), (10, "commsdsl2test"), (14, "commsdsl2swig"), (14, "commsdsl2emscripten"), (10, "commsdsl2latex"), (10, "commsdsl2tools_qt")])
    sw = app in ("commsdsl2swig", "commsdsl2emscripten")
    b = build_proto(r, **{**dict(wire=True, compile=True, codes=False, nmsgs=(1, 4), nfields=(0, 4), extras=False, nns=0 if sw or r.chance(50) else None), **kw})
    if not domain(app, b):
        raise Skip("schema outside of the domain of " + app)
    used = set()
    docs = c05.docs_of(r, b, used) if r.chance(60) else [proto.section_doc(b)]
    texts = [etree.render(d) for d in docs]
    root = os.path.realpath(ctx.fresh("c13"))
    for d in ("in", "in/sub", "code", "empty"):
        os.makedirs(os.path.join(root, d))
    names = []
    for i, t in enumerate(texts):
        n = "%ss%d%s.xml" % (r.pick(["", "sub/"]), i, r.pick(TAGS))
        names.append(n)
        with open(os.path.join(root, "in", n), "wb") as f:
            f.write(t.encode())
    args = app_args(r, app, b, root)
    code = r.chance(40)
    if code:
        for n in r.subset(["CMakeLists.txt.append", "extra/some file.txt", "note.md", "include/own.h", "CMakeLists.txt.prepend", "include/%s/own2.h" % b.schema.name], 50):
            p = os.path.join(root, "code", n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("# code %d\n" % r.below(100))

    def run(cwd, out, files, env=None, extra=()):
        a = list(args) + list(extra)
        if code:
            a += ["-c", rel(os.path.join(root, "code"), cwd) if r.chance(40) else os.path.join(root, "code")]
        if out is not None:
            a += ["-o", out]
        x = apps.run(app, a + files, cwd=cwd, env=env)
        return x, " ".join(a + files)

    def rel(p, cwd):
        q = os.path.relpath(p, cwd)
        return r.pick([q, "./" + q]) if not q.startswith("..") else q
    inp = [os.path.join(root, "in", n) for n in names]
    base_out = os.path.join(root, "out")
    before = snap(root)
    x, cmd = run(os.path.join(root, "empty"), base_out, inp)
    info = {"schema": "\n<!-- next file -->\n".join(texts), "app": app, "base": cmd}
    if x.rc != 0:
        raise Violation("%s fails (status %d) on a valid schema: %s" % (app, x.rc, (x.err or x.out).strip()[-300:]), sig="genfail:" + app, **info)

    def unchanged(out, what, **more):
        d = apps.diff_trees(before, snap(root, skip=(out,)))
        if d:
            raise Violation("%s: a file outside of the output directory is changed: %s" % (app, d), sig="outside", what=what, **{**info, **more})
    unchanged(base_out, "the first run")
    base = apps.tree(base_out)
    cls = {"app:" + app} | {"option:" + a for a in args if a.startswith("-")}
    if len(texts) > 1:
        cls.add("several files")
    if code:
        cls.add("custom code")
    for k in range(nvar):
        shutil.rmtree(base_out, ignore_errors=True)
        out = os.path.join(root, r.pick(["out", "out2", "o/p/q", "sp ace/ü", "deep/a/../b"]))
        real = os.path.normpath(out)
        kinds, env, extra, prior = [], None, [], {}
        cwd = root if r.chance(30) else os.path.join(root, r.pick(["in", "empty", "in/sub", "code"]))
        if cwd == os.path.join(root, "code") and code:
            cwd = root
        oarg = out
        m = r.below(3)
        if m == 1:
            oarg = os.path.relpath(out, cwd)
            kinds.append("relative output")
        elif m == 2:
            os.makedirs(real)
            cwd, oarg = real, None
            kinds.append("output to the current directory")
        if r.chance(40):
            # something is there already
            kinds.append("output directory in use")
            os.makedirs(real, exist_ok=True)
            sel = r.subset(sorted(p for p, v in base.items() if v is not None), 60)
            for p in sel:
                q = os.path.join(real, p)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as f:
                    f.write(r.pick([b"", b"something else", base[p], base[p] + b"// more\n", base[p][:len(base[p]) // 2]]))
            for n in ("stale.h", "include/%s/message/Stale.h" % b.schema.name, "CMakeLists.txt.append"):
                if r.chance(50):
                    q = os.path.join(real, n)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "wb") as f:
                        f.write(b"stale")
                    prior[n] = b"stale"
        if r.chance(50):
            env = r.pick(ENVS)
            kinds.append("environment")
        if r.chance(25):
            extra = [r.pick(["-q", "-d"])]
            kinds.append("verbosity")
        m = r.below(5)
        files = list(inp)
        if m == 1:
            files = [rel(p, cwd) for p in inp]
            kinds.append("relative inputs")
        elif m == 2:
            files = [respell(r, p) for p in inp]
            kinds.append("other spelling of paths")
        elif m >= 3:
            n = r.rng(1, len(inp))
            pre = r.pick(["", os.path.join(root, "in"), os.path.join(root, "in") + "/", os.path.relpath(os.path.join(root, "in"), cwd)])
            ls = names[:n] if pre else inp[:n]
            eol = r.pick(["\n", "\r\n"])
            lf = os.path.join(root, "list.txt")
            with open(lf, "wb") as f:
                f.write((eol.join(ls) + r.pick(["", eol, eol + eol])).encode())
            extra = extra + [r.pick(["-i", "--input-files-list"]), lf]
            if pre:
                extra += ["-p", pre]
                kinds.append("prefix")
            files = inp[n:]
            kinds.append("list of inputs" if not files else "list of inputs and arguments")
            before["list.txt"] = open(lf, "rb").read()
        top = os.path.join(root, os.path.relpath(real, root).split("/")[0])
        if out != real:
            os.makedirs(os.path.join(root, "deep/a"), exist_ok=True)
        x, cmd = run(cwd, oarg, files, env, extra)
        more = {"variant": cmd, "cwd": os.path.relpath(cwd, root), "env": str(env), "kinds": ", ".join(kinds)}
        if x.rc != 0:
            raise Violation("%s fails (status %d) when run another way (%s): %s" % (app, x.rc, ", ".join(kinds), (x.err or x.out).strip()[-300:]), sig="variant-fails", **{**info, **more})
        unchanged(top, "a variant", **more)
        got = apps.tree(real)
        exp = dict(prior)
        exp.update(base)
        d = apps.diff_trees(exp, got)
        if d:
            raise Violation("%s: output depends on the way it is run (%s): %s" % (app, ", ".join(kinds), d), sig="differs", **{**info, **more})
        shutil.rmtree(top)
        if os.path.exists(os.path.join(root, "list.txt")):
            os.unlink(os.path.join(root, "list.txt"))
            before.pop("list.txt", None)
        cls |= set(kinds)
    return Result(fingerprint(texts, app, args), len(base) > 3, sorted(cls), {"app": app, "args": args, "files": len(texts), "outputs": len(base)})


ALL = lambda a: [(100, a)]
CHECK = Check("C13", [
    ("mixed", lambda r, c: case(r, c), 900, 60000),
    ("comms", lambda r, c: case(r, c, ALL("commsdsl2comms"), nmsgs=(2, 6), depth=4), 300, 30000),
    ("large", lambda r, c: case(r, c, nmsgs=(4, 10), nfields=(0, 8)), 200, 20000),
], "an output of more than 3 files produced in 4 different ways",
    setup=apps.setup(), quick_s=120)
