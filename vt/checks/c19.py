"""C19: exit status and diagnostics tell the truth."""
import os, re, resource, signal, shutil, subprocess
from ..harness import Check, Result, Violation, Skip, fingerprint
from ..common import build_proto
from .. import apps, build, etree, proto
from . import c06, c13

APPS = [(30, "commsdsl2comms"), (14, "commsdsl2c"), (10, "commsdsl2test"), (14, "commsdsl2swig"), (14, "commsdsl2emscripten"), (10, "commsdsl2latex"), (10, "commsdsl2tools_qt")]
# listed in known_findings.txt: the tests of the project rely on success with --warn-as-err and this warning
UNBINDABLE = "emscripten cannot handle enum values with types wider than long, cannot provide bindings for "
SELECT = ("commsdsl2c", "commsdsl2swig", "commsdsl2emscripten")


class Out:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        self.errors = [l for l in (out + "\n" + err).split("\n") if l.startswith("[ERROR]")]
        self.warnings = [l for l in (out + "\n" + err).split("\n") if l.startswith(("[WARNING]", "WARNING:"))]


class World:
    """schema, application and scratch directory of one case"""

    def __init__(self, r, ctx, app=None, **kw):
        self.r, self.ctx = r, ctx
        self.app = app or r.weighted(APPS)
        sw = self.app in ("commsdsl2swig", "commsdsl2emscripten")
        self.b = b = build_proto(r, **{**dict(wire=True, compile=True, codes=False, nmsgs=(1, 4), nfields=(0, 4), extras=False, nns=0 if sw or r.chance(60) else None, platp=40), **kw})
        if not c13.domain(self.app, b):
            raise Skip("schema outside of the domain of " + self.app)
        self.root = os.path.realpath(ctx.fresh("c19"))
        os.makedirs(self.root + "/cwd")
        self.text = etree.render(proto.section_doc(b))
        self.schema = self.put("s.xml", self.text)
        self.out = self.root + "/out"
        self.n = 0

    def put(self, name, data):
        p = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data.encode() if isinstance(data, str) else data)
        return p

    def run(self, args, limit=None):
        e = dict(apps.ENV)

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            p = subprocess.run([build.app(self.app)] + args, cwd=self.root + "/cwd", env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=120, preexec_fn=pre)
        except subprocess.TimeoutExpired:
            self.fail("does not terminate within 120 s", "hang", args)
        x = Out(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))
        if x.rc < 0 or "Unhandled exception" in x.err:
            self.fail("dies with signal %d: %s" % (-x.rc, (x.err or x.out).strip()[-300:]), "dies", args)
        if any(l.startswith(("[ERROR]", "[WARNING]")) for l in x.out.split("\n")):
            self.fail("an error or a warning is not printed to the error stream", "stream", args)
        if x.rc == 0 and x.errors:
            self.fail("reports success after an error: " + x.errors[0], "success-after-error", args)
        if x.rc == 0 and [l for l in x.warnings if UNBINDABLE not in l] and ("-w" in args or "--warn-as-err" in args):
            self.fail("reports success after a warning, which must be treated as an error: " + x.warnings[0], "success-after-warning", args)
        if x.rc and not x.errors:
            self.fail("fails with status %d without any error message: %s" % (x.rc, (x.err or x.out).strip()[-200:]), "silent", args)
        return x

    def fail(self, what, sig, args=(), **more):
        raise Violation("%s %s" % (self.app, what), sig=sig, app=self.app, args=" ".join(args), schema=self.text, **more)

    def must_fail(self, what, sig, args, **kw):
        x = self.run(args, **kw)
        if x.rc == 0:
            self.fail("reports success: " + what, sig, args)
        return x

    def must_pass(self, what, sig, args):
        x = self.run(args)
        if x.rc:
            self.fail("fails (status %d): %s: %s" % (x.rc, what, (x.errors or x.warnings or [x.err[-200:]])[0][-300:]), sig, args)
        return x

    def base(self, args=()):
        self.must_pass("a valid schema", "valid-fails", list(args) + ["-o", self.out, self.schema])
        t = apps.tree(self.out)
        if not t:
            self.fail("writes nothing and reports success", "empty", args)
        return t

    def same(self, base, what, sig, args):
        d = apps.diff_trees(base, apps.tree(self.out))
        if d:
            self.fail("%s: output differs: %s" % (what, d), sig, args)

    def clean(self):
        if os.path.islink(self.out) or os.path.isfile(self.out):
            os.unlink(self.out)
        else:
            shutil.rmtree(self.out, ignore_errors=True)


def code_dir(r, w, args, p):
    if not r.chance(p):
        return []
    for n in r.subset(["extra/some file.txt", "note.md", "include/own.h"], 60):
        w.put("code/" + n, "x" * r.pick([10, 3000]))
    os.makedirs(w.root + "/code", exist_ok=True)
    return ["-c", w.root + "/code"]


def writing(r, ctx, **kw):
    """every output file which cannot be written"""
    w = World(r, ctx, **kw)
    args = c13.app_args(r, w.app, w.b, w.root)
    args += code_dir(r, w, args, 30)
    base = w.base(args)
    files = sorted(p for p, v in base.items() if v is not None)
    dirs = sorted({os.path.dirname(p) for p in files} - {""})
    cls = ["app:" + w.app]
    fails = 0
    for k in range(10):
        w.clean()
        m = r.weighted([(30, "directory"), (35, "full"), (15, "file"), (5, "outfile"), (5, "below"), (15, "limit")])
        a = args + ["-o", w.out, w.schema]
        kw2 = {}
        if m == "directory":
            p = r.pick(files)
            os.makedirs(os.path.join(w.out, p))
            what = "%s cannot be opened (a directory has the name)" % p
        elif m == "full":
            p = r.pick(files)
            if not base[p]:
                continue
            os.makedirs(os.path.dirname(os.path.join(w.out, p)), exist_ok=True)
            os.symlink("/dev/full", os.path.join(w.out, p))
            what = "%s cannot be written (no space left)" % p
        elif m == "file":
            if not dirs:
                continue
            p = r.pick(dirs)
            os.makedirs(os.path.dirname(os.path.join(w.out, p)), exist_ok=True)
            with open(os.path.join(w.out, p), "w"):
                pass
            what = "directory %s cannot be created (a file has the name)" % p
        elif m == "outfile":
            with open(w.out, "w"):
                pass
            what = "the output directory is a file"
        elif m == "below":
            a = args + ["-o", w.schema + "/o", w.schema]
            what = "the output directory is below a file"
        else:
            big = sorted(len(v) for v in base.values() if v)
            kw2["limit"] = r.below(big[-1] - 1) + 1 if big[-1] > 1 else 1
            what = "files of more than %d bytes cannot be written" % kw2["limit"]
        w.must_fail(what, "write-" + m, a, **kw2)
        fails += 1
        cls.append("write-" + m)
    w.clean()
    return Result(fingerprint(w.text, w.app, args), fails > 3, cls, {"app": w.app, "args": args, "files": len(files)})


def bad_options(r, w):
    """(what, arguments) which must be refused"""
    b, app = w.b, w.app
    V = b.V or 0
    L = []
    add = lambda what, *a: L.append((what, list(a)))
    add("quiet and debug together", *r.pick([("-q", "-d"), ("--quiet", "--debug"), ("-d", "--quiet")]))
    add("missing list of inputs", "-i", w.root + "/nothing.txt")
    add("list of inputs is a directory", "-i", w.root)
    add("list of inputs with a missing file", "-i", w.put("l1.txt", r.pick(["%s/none.xml\n", "none.xml\n", "\n%s/none.xml"]).replace("%s", w.root)))
    add("list of inputs with wrong prefix", "-i", w.put("l2.txt", "s.xml\n"), "-p", r.pick(["/nonexistent", w.root + "/cwd", w.root + "/x"]))
    add("missing code input directory", "-c", w.root + "/nocode")
    add("forced schema version above the version of the schema", "--force-schema-version", str(V + r.pick([1, 2, 1000])))
    for o in ["--force-schema-version"] + (["-m", "--min-remote-version"] if app not in ("commsdsl2test", "commsdsl2tools_qt") else []):
        add("not a number for " + o, o, r.pick(["abc", "1x", "-1", "1.5", "99999999999", " ", "0x"]))
    if app == "commsdsl2comms":
        add("missing file of extra bundle", "--extra-messages-bundle", r.pick(["", "Name@"]) + w.root + "/none.txt")
        add("unknown message in extra bundle", "--extra-messages-bundle", "Some@" + w.put("l3.txt", unknown_message(r, w)))
        if len(b.msgs) > 1:
            add("second extra bundle missing", "--extra-messages-bundle", "A@%s,B@%s" % (w.put("l4.txt", r.pick(sorted(b.msgs)) + "\n"), w.root + "/none.txt"))
    if app in SELECT:
        m = r.pick(sorted(b.msgs))
        add("missing list of messages", "--messages-list", w.root + "/none.txt")
        add("unknown message in the list", "--messages-list", w.put("l5.txt", unknown_message(r, w)))
        add("unknown platform", "--force-platform", r.pick(["Zzz", "plat", "plat77", r.pick(b.platforms or ["p"]) + "x"]))
        if b.platforms:
            add("list of messages and platform", "--messages-list", w.put("l6.txt", m + "\n"), "--force-platform", r.pick(b.platforms))
        add("unknown interface", "--force-interface", r.pick(["Zzz", r.pick(sorted(b.ifaces) or ["a"]) + "x", m, "a.b.c"]))
    if app == "commsdsl2tools_qt":
        add("unknown frame of a plugin", "--protocol", "Zzz:%s:n:d" % r.pick(sorted(b.ifaces) or ["x"]))
        add("unknown interface of a plugin", "--protocol", "%s:Zzz:n:d" % r.pick(sorted(b.frames) or ["x"]))
    L.append(("option without its value", None, r.pick(["-o", "-i", "-p", "-c", "-n", "--force-schema-version"])))
    return L


def unknown_message(r, w):
    ms = sorted(w.b.msgs)
    m = r.pick(ms)
    bad = r.pick(["Zzz", m + "x", "x." + m, m[:-1] or "q", m + ".a", "@Zzz." + m])
    if bad in ms:
        bad = "Zzz"
    l = [x for x in r.subset(ms, 40)]
    l.insert(r.below(len(l) + 1), bad)
    return "\n".join(l) + r.pick(["", "\n"])


def options(r, ctx, **kw):
    """values of options which cannot be honoured"""
    w = World(r, ctx, **kw)
    w.base()
    w.clean()
    cls = ["app:" + w.app]
    bad = bad_options(r, w)
    bad = r.shuffle(bad)
    for what, a, *last in bad[:6]:
        w.clean()
        args = ["-o", w.out, w.schema]
        if a is None:
            args += last
        elif r.chance(50):
            args = a + args
        else:
            args = args + a
        w.must_fail(what, "option:" + what[:30], args)
        cls.append("option:" + re.sub(r" for .*", "", what))
    w.clean()
    return Result(fingerprint(w.text, w.app, str(bad[:6])), True, cls, {"app": w.app, "options": [str(x) for x in bad[:6]]})


def inputs(r, ctx, **kw):
    """inputs which cannot be used"""
    w = World(r, ctx, **kw)
    w.base()
    cls = ["app:" + w.app]
    full = w.text
    cut = r.below(max(1, full.rstrip().rfind("<") - 1)) + 1
    L = [("no input", []), ("missing file", [w.root + "/none.xml"]), ("directory as input", [w.root + "/cwd"]), ("empty file", [w.put("e.xml", "")]),
         ("not XML", [w.put("n.xml", r.pick(["hello", "{}", "<a", "\0\0\0", "<?xml version=\"1.0\"?>"]))]),
         ("cut file", [w.put("c.xml", full[:cut])]), ("wrong root", [w.put("r.xml", "<?xml version=\"1.0\"?>\n<scheme name=\"a\"/>\n")]),
         ("second file missing", [w.schema, w.root + "/none.xml"]), ("second file empty", [w.schema, w.put("e2.xml", "")]),
         ("first file missing", [w.root + "/none.xml", w.schema]), ("another schema without the option allowing it", [w.put("o.xml", "<?xml version=\"1.0\"?>\n<schema name=\"Other%d\" endian=\"big\"/>\n" % r.below(99)), w.schema]),
         ("the same file twice", [w.schema, w.schema]), ("empty name of a file", [""]), ("unreadable link", [link(w)])]
    L = r.shuffle(L)
    for what, files in L[:6]:
        w.clean()
        args = ["-o", w.out] + files if r.chance(70) else files + ["-o", w.out]
        if r.chance(30) and files and all(files):
            lf = w.put("list.txt", "\n".join(files) + "\n")
            args = ["-o", w.out, "-i", lf]
        w.must_fail(what, "input:" + what, args)
        cls.append("input:" + what)
    w.clean()
    return Result(fingerprint(w.text, w.app, str(L[:6])), True, cls, {"app": w.app, "inputs": [x[0] for x in L[:6]]})


def link(w):
    p = w.root + "/loop.xml"
    if not os.path.islink(p):
        os.symlink(p, p)
    return p


def warn(r, ctx, **kw):
    """warnings and verbosity"""
    w = World(r, ctx, **kw)
    args = c13.app_args(r, w.app, w.b, w.root)
    x = w.must_pass("a valid schema", "valid-fails", args + ["-o", w.out, w.schema])
    base = apps.tree(w.out)
    cls = ["app:" + w.app]
    for v in ("-q", "-d", "--quiet", "--debug"):
        if not r.chance(50):
            continue
        w.clean()
        y = w.must_pass("verbosity option " + v, "verbosity", [v] + args + ["-o", w.out, w.schema])
        w.same(base, "with " + v, "verbosity-output", [v])
        if y.warnings != x.warnings:
            w.fail("other warnings with %s: %s" % (v, (y.warnings + x.warnings)[0]), "verbosity-warnings")
        if v in ("-q", "--quiet") and y.out:
            w.fail("prints with %s: %s" % (v, y.out[:200]), "quiet")
        cls.append("verbosity")
    w.clean()
    we = r.pick(["-w", "--warn-as-err"])
    a = [we] + args + ["-o", w.out, w.schema]
    if x.warnings and all(UNBINDABLE in l for l in x.warnings):
        pass
    elif x.warnings:
        w.must_fail("a warning with " + we, "warn-as-err", a)
        cls.append("schema with warnings")
    else:
        w.must_pass("a schema without warnings with " + we, "warn-as-err-valid", a)
        w.same(base, "with " + we, "warn-output", [we])
    # something worth a warning
    doc = proto.section_doc(w.b)
    es = [n.e for n in c06.nodes(doc) if c06.is_decl(n)]
    m = r.below(3)
    if m == 0 or not es:
        extra, what = [r.pick(["--zzz", "-Z", "--qui", "-", "--", "-ox", "--warn"])], "unknown option"
        text = w.text
    else:
        e = r.pick(es)
        e.p("zzz%d" % r.below(99), "value", "text")
        extra, what = [], "unknown property"
        text = etree.render(doc)
    w.put("s.xml", text)
    w.text = text
    w.clean()
    x = w.must_pass(what, "warning-fails", args + extra + ["-o", w.out, w.schema])
    if not x.warnings:
        w.fail("%s: no warning" % what, "no-warning", extra)
    w.same(base, "with " + what, "warn-output", extra) if not extra else None
    w.clean()
    w.must_fail("%s with %s" % (what, we), "warn-as-err", [we] + args + extra + ["-o", w.out, w.schema])
    cls.append(what)
    w.clean()
    return Result(fingerprint(text, w.app, args, extra), True, cls, {"app": w.app, "args": args})


def broken(r, ctx, **kw):
    """schemas with a violation of a rule"""
    w = World(r, ctx, **kw)
    doc = proto.section_doc(w.b)
    f = r.weighted(c06.OPS)
    what = f(c06.Doc(r, w.b, doc))
    if what is None:
        raise Skip("violation not applicable")
    text = etree.render(doc)
    w.base()
    w.clean()
    w.put("s.xml", text)
    w.text = text
    w.must_fail(what, "broken", ["-o", w.out, w.schema])
    w.clean()
    return Result(fingerprint(text, w.app), True, ["app:" + w.app, "broken:" + f.__name__], {"app": w.app, "what": what})


OVERRIDES = ["read", "write", "refresh", "length", "valid", "name"]


def external(r, ctx, **kw):
    """code which the schema requires is not there"""
    w = World(r, ctx, app="commsdsl2comms", **kw)
    w.base()
    w.clean()
    doc = proto.section_doc(w.b)
    ns = [n for n in c06.nodes(doc) if (n.e.tag in c06.FIELDS or n.e.tag == "message") and not c06.in_replace(n) and n.parent.tag != "replace"
          and not any(p[0].endswith("Override") for p in n.e.props)]
    if not ns:
        raise Skip("nothing to override")
    k = r.pick(sorted({n.e.tag for n in ns}))
    n = r.pick([x for x in ns if x.e.tag == k])
    what = r.pick(OVERRIDES + (["value"] if k != "message" else []))
    n.e.p(what + "Override", r.pick(["replace", "extend"]), "kw")
    w.text = etree.render(doc)
    w.put("s.xml", w.text)
    code = []
    if r.chance(50):
        w.put("code/include/%s/field/other%d.h.%s" % (w.b.schema.name, r.below(9), what), "// other")
        code = ["-c", w.root + "/code"]
    x = w.must_fail("%sOverride of %s requires code which is not provided" % (what, k), "external", code + ["-o", w.out, w.schema])
    return Result(fingerprint(w.text), True, ["external:" + k, "override:" + what], {"what": what, "element": k, "error": x.errors[0][-160:]})


WIDE = """<?xml version="1.0"?>
<schema name="wide" endian="big">
    <fields><enum name="MsgId" type="uint8" semanticType="messageId"><validValue name="M1" val="1"/></enum>
        <enum name="E" type="uint64"><validValue name="V1" val="0x7fffffffffffffff"/></enum></fields>
    <message name="Msg1" id="MsgId.M1"><ref field="E"/></message>
    <interface name="Interface"/>
    <frame name="Frame"><id name="Id"><ref field="MsgId"/></id><payload name="Data"/></frame>
</schema>
"""


def unbindable(ctx):
    d = ctx.fresh("known")
    with open(os.path.join(d, "s.xml"), "w") as f:
        f.write(WIDE)
    x = apps.run("commsdsl2emscripten", ["-w", "-o", os.path.join(d, "out"), os.path.join(d, "s.xml")])
    return x.rc == 0 and UNBINDABLE in x.err


CHECK = Check("C19", [
    ("writing", writing, 400, 10000),
    ("options", options, 700, 20000),
    ("inputs", inputs, 400, 10000),
    ("warnings", warn, 500, 15000),
    ("broken", broken, 800, 20000),
    ("external", external, 400, 10000),
], "a run which must fail (or warn) next to a run of the same generator on the same schema which must succeed",
    setup=apps.setup(), quick_s=120,
    known=[("sig=unbindable-enum commsdsl2emscripten --warn-as-err exits with 0 after the warning about an enum with values wider than long", unbindable)])
