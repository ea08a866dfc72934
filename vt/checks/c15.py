"""C15: generated projects are complete, self consistent and compile."""
import json, os, re, subprocess
from ..harness import Check, Result, Violation, Skip, fingerprint
from ..common import build_proto
from .. import apps, build, etree, gencpp, multi, proto
from .c13 import domain

MINI = os.path.join(gencpp.CPP, "minicomms")


class Project:
    """a schema, its C++ code, and the projects of the other generators for the same options"""

    def __init__(self, r, ctx, common=None, comms=None, twop=0, noiface=False, **kw):
        self.r, self.ctx = r, ctx
        self.b = b = build_proto(r, **{**dict(wire=True, compile=True, codes=False, nmsgs=(1, 4), nfields=(0, 4), verfield=r.chance(75), versionp=r.pick([40, 80]), sincep=r.pick([35, 35, 75])), **kw})
        if not b.msgs:
            raise Skip("no message")
        two = multi.split(r, b, iface=not noiface) if r.chance(twop) else None
        self.text = etree.render(two[2] if two else proto.section_doc(b))
        self.base = etree.render(two[1]) if two else None
        self.root = os.path.realpath(ctx.fresh("c15"))
        self.main = b.schema.name
        self.aux, self.moved = (two[0], two[3]) if two else (None, ())
        self.common, self.comms = [], []
        if r.chance(20):
            self.main = r.pick(["other", "Other_ns", "x1"])
            self.common += ["-n", self.main]
        if r.chance(15):
            self.common.append("--code-inject-comments")
        if common:
            self.common += common(b)
        if r.chance(30):
            self.comms += ["--customization", r.pick(["full", "limited", "none"])]
        if r.chance(20):
            self.comms += ["-V", "%d.%d.%d" % (r.below(300), r.below(9), r.below(9))]
        if comms:
            self.comms += comms(b)
        self.dirs = {}
        self.out("commsdsl2comms", self.comms)
        if self.aux and not os.path.isdir(os.path.join(self.inc, self.aux)):
            self.aux, self.moved = None, ()        # none of its fields is used

    def out(self, app, extra=()):
        if app not in self.dirs:
            p = os.path.join(self.root, "s.xml")
            with open(p, "wb") as f:
                f.write(self.text.encode())
            d = os.path.join(self.root, app)
            ps = [p]
            if self.base:
                ps.insert(0, os.path.join(self.root, "base.xml"))
                with open(ps[0], "wb") as f:
                    f.write(self.base.encode())
            apps.generate(app, ps, d, args=self.common + list(extra) + (["-s"] if self.base else []), schema=(self.base or "") + self.text)
            self.dirs[app] = d
        return self.dirs[app]

    @property
    def inc(self):
        return self.dirs["commsdsl2comms"] + "/include"

    def fail(self, msg, sig, **info):
        raise Violation(msg, sig=sig, **info, schema=(self.base or "") + self.text, args=" ".join(self.common + ["|"] + self.comms))

    def cxx(self, args, what, sig, cxx=None):
        p = subprocess.run([cxx or gencpp.CXX] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            err = [l for l in p.stdout.split("\n") if "error" in l or "undefined" in l]
            self.fail("%s: %s" % (what, (err or [p.stdout[-300:]])[0].replace(self.root + "/", "")[-300:]), sig, compiler="\n".join(err[:6]) + "\n" + p.stdout[:3000])

    def flags(self, incs=()):
        return gencpp.FLAGS + ["-w"] + ["-I" + i for i in incs] + ["-I" + self.inc, "-I" + MINI, "-I" + gencpp.CPP + "/gendrv"]

    def pch(self):
        return ["-I" + gencpp.pch_dir(self.ctx), "-include", "gendrv.h"]


def files(d, ext):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs if f.endswith(ext))


def shape(b):
    c = {"namespaces:%d" % len(b.nss), "frames:%d" % len(b.frames), "interfaces:%d" % len(b.ifaces)}
    return c | {"layer:" + x.kind for f in b.frames.values() for x in f.layers}


def use(hs):
    return "".join('#include "%s"\n' % h for h in hs)


INC = re.compile(r'^\s*#\s*include\s+"([^"]+)"', re.M)
SWIGSTD = re.compile(r"^(std_\w+\.i|stdint\.i|enums\.swg|\w+\.swg|typemaps\.i)$")


def refs(p, d, roots, external):
    """(file, mentioned file) which does not exist"""
    for f in files(d, (".h", ".hpp", ".cpp", ".i", ".c")):
        with open(os.path.join(d, f), errors="replace") as x:
            t = x.read()
        names = [(n, False) for n in INC.findall(t)] + ([(n, True) for n in re.findall(r'^\s*%(?:include|import)\s+"([^"]+)"', t, re.M)] if f.endswith((".i", ".h")) else [])
        for n, sw in names:
            if n.startswith(external) or sw and SWIGSTD.match(n):
                continue
            if not any(os.path.isfile(os.path.join(q, n)) for q in [os.path.dirname(os.path.join(d, f)), d] + roots):
                return f, n
    return None


# --- headers of commsdsl2comms ----------------------------------------------------------------------------------------------------
def headers(r, ctx, **kw):
    bundle = None

    def comms(b):
        nonlocal bundle
        a = []
        if r.chance(25):
            a.append("--force-main-ns-in-options")
        if r.chance(20) and b.V:
            a.append("--version-independent-code")
        if r.chance(25) and b.msgs:
            bundle = r.subset(list(b.msgs), 50) or list(b.msgs)[:1]
            p = os.path.join(ctx.fresh("bnd"), "m.txt")
            with open(p, "w") as f:
                f.write("\n".join(bundle) + "\n")
            a += ["--extra-messages-bundle", "Own@" + p]
        return a
    p = Project(r, ctx, comms=comms, twop=25, **kw)
    hs = files(p.inc, ".h")
    if bundle is not None and not any(h.endswith("input/OwnMessages.h") or "/Own" in h for h in hs):
        p.fail("the requested bundle of messages is not generated", "bundle", files=" ".join(hs))
    src = os.path.join(p.root, "a.cpp")
    # all of them together, in any order, twice
    order = r.shuffle(hs) + r.shuffle(hs)
    with open(src, "w") as f:
        f.write('#include "gendrv.h"\n' + use(order))
    p.cxx(["-fsyntax-only"] + ["-I" + gencpp.pch_dir(ctx)] + p.flags() + [src], "the headers do not compile together", "headers-together")
    alone = r.shuffle(hs)[:10]
    for h in alone:
        with open(src, "w") as f:
            f.write(use([h]))
        p.cxx(["-fsyntax-only"] + p.pch() + p.flags() + [src], "%s does not compile alone" % h, "header-alone")
    missing = refs(p, p.dirs["commsdsl2comms"], [p.inc], ("comms/",))
    if missing:
        p.fail("%s mentions a file which does not exist: %s" % missing, "missing-file")
    return Result(fingerprint(p.text + str(p.common + p.comms)), True, [(c, 1) for c in shape(p.b) | {"option:" + a for a in p.common + p.comms if a.startswith("-")}] +
                  [("header compiled alone", len(alone)), ("header compiled with others", len(hs))], {"headers": len(hs), "args": p.common + p.comms})


# --- program of commsdsl2test ------------------------------------------------------------------------------------------------------
DEF = re.compile(r'if \("\$\{OPT_TEST_(\w+)\}" STREQUAL ""\)\s*set \(OPT_TEST_\w+ "([^"]*)"\)')


def program(r, ctx):
    p = Project(r, ctx, comms=lambda b: ["--force-main-ns-in-options"] if r.chance(20) else [])
    b = p.b
    if not b.frames or not b.ifaces:
        raise Skip("schema outside of the domain of commsdsl2test")
    d = p.out("commsdsl2test")
    with open(d + "/CMakeLists.txt") as f:
        defs = dict(DEF.findall(f.read()))
    if set(defs) != {"INTERFACE", "FRAME", "OPTIONS", "INPUT_MESSAGES"}:
        p.fail("defaults of the test program: %s" % defs, "test-defaults")
    how = {"how": "defaults"}
    if r.chance(50):
        how["how"] = "chosen"
        fp = r.pick(list(b.frames))
        defs["FRAME"] = gencpp.scope(fp, "frame", p.main)
        for k, sub in (("OPTIONS", "options"), ("INPUT_MESSAGES", "input")):
            hs = [h for h in files(os.path.join(p.inc, p.main), ".h") if ("/" + h).find("/" + sub + "/") >= 0]
            hs = [h for h in hs if "Messages" in h and "Fwd" not in h] if k == "INPUT_MESSAGES" else [h for h in hs if h.endswith("DefaultOptions.h") and "MsgFactory" not in h]
            defs[k] = p.main + "::" + r.pick(sorted(hs))[:-2].replace("/", "::")
    srcs = files(d, ".cpp")
    if len(srcs) != 1:
        p.fail("sources of the test program: %s" % srcs, "test-sources")
    args = ["-D%s=%s" % x for x in defs.items()] + ["-D%s_HEADER=%s.h" % (k, v.replace("::", "/")) for k, v in defs.items()]
    exe = os.path.join(p.root, "t")
    p.cxx(p.pch() + p.flags() + args + [os.path.join(d, srcs[0]), "-o", exe], "the test program does not compile with %s" % defs, "test-compile")
    x = subprocess.run([exe], input=b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if x.returncode or x.stdout:
        p.fail("the test program fails (status %d) without input" % x.returncode, "test-run", err=x.stderr.decode("utf-8", "replace")[-300:])
    return Result(fingerprint(p.text), True, [(c, 1) for c in shape(b) | {"program:" + how["how"]}], {"defs": defs})


# --- library of commsdsl2c ---------------------------------------------------------------------------------------------------------
CFUN = re.compile(r"^[\w ][\w \*]*?[ \*](\w+)\s*\(([^;{}]*?)\)\s*;", re.M | re.S)


def cdecls(text):
    """names of the functions declared by a C header"""
    t = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    t = re.sub(r"//[^\n]*", " ", t)
    t = re.sub(r"^\s*#[^\n]*", "", t, flags=re.M)
    return [m.group(1) for m in CFUN.finditer(t) if not m.group(0).lstrip().startswith(("typedef", "return")) and m.group(1) != "void"]


def clib(r, ctx, **kw):
    p = Project(r, ctx, twop=25, noiface=True, **kw)
    if not domain("commsdsl2c", p.b):
        raise Skip("schema outside of the domain of commsdsl2c")
    extra = ["-P", r.pick(["pre_", "Pre%d_" % r.below(9)])] if r.chance(30) else []
    d = p.out("commsdsl2c", extra)
    hs = files(d + "/include", ".h")
    src = os.path.join(p.root, "a.c")
    names = {}
    for h in hs:
        with open(os.path.join(d, "include", h)) as f:
            for n in cdecls(f.read()):
                names.setdefault(n, []).append(h)
    dup = [(n, l) for n, l in names.items() if len(l) > 1]
    if dup:
        p.fail("%s is declared more than once: %s" % dup[0], "c-duplicate")
    inc = ["-I" + d + "/include"]
    # each alone, as C and as C++; all together
    for h in r.shuffle(hs)[:6] + [None]:
        with open(src, "w") as f:
            f.write(use([h] if h else r.shuffle(hs) + hs) + "extern int vt;\n")
        what = ("%s does not compile alone" % h) if h else "the C headers do not compile together"
        p.cxx(["-std=c99", "-fsyntax-only"] + inc + [src], what + " as C", "c-header", cxx="gcc")
        p.cxx(["-std=c++11", "-x", "c++", "-fsyntax-only"] + inc + [src], what + " as C++", "c-header-cpp")
    with open(src, "w") as f:
        f.write(use(hs) + "typedef void (*F)(void);\nF all[] = {\n" + "".join("  (F)%s,\n" % n for n in names) + "  0 };\nint main(void) { return all[0] == 0; }\n")
    o = src[:-2]
    p.cxx(["-std=c99", "-w", "-c"] + inc + [src, "-o", o + "_c.o"], "use of all the declared functions does not compile", "c-header", cxx="gcc")
    srcs = files(d, ".cpp")
    with open(o + "_u.cpp", "w") as f:
        f.write('#include "gendrv.h"\n' + use(srcs))
    p.cxx(["-I" + gencpp.pch_dir(ctx)] + p.flags([d, d + "/include"]) + ["-c", o + "_u.cpp", "-o", o + "_u.o"], "the sources do not compile", "c-compile")
    for s in r.shuffle(srcs)[:3]:
        p.cxx(p.pch() + p.flags([d, d + "/include"]) + ["-fsyntax-only", os.path.join(d, s)], "%s does not compile" % s, "c-compile-alone")
    for s in r.shuffle(files(d, "_comms.h"))[:2]:
        with open(o + "_h.cpp", "w") as f:
            f.write(use([s]))
        p.cxx(p.pch() + p.flags([d, d + "/include"]) + ["-fsyntax-only", o + "_h.cpp"], "%s does not compile alone" % s, "c-compile-alone")
    p.cxx([o + "_c.o", o + "_u.o", "-o", o], "declared functions are not defined", "c-link")
    return Result(fingerprint(p.text), len(names) >= 10, [(c, 1) for c in shape(p.b) | {"option:" + a for a in p.common + extra if a.startswith("-")}] + [("C function", len(names))],
                  {"functions": len(names), "files": len(srcs)})


# --- build files and references between the files of all the projects -----------------------------------------------------------------
PKG = {
    "LibCommsConfig.cmake": "if (NOT TARGET cc::comms)\n add_library(cc::comms INTERFACE IMPORTED)\n target_include_directories(cc::comms INTERFACE \"%s\")\nendif ()\nset(LibComms_DIR ${CMAKE_CURRENT_LIST_DIR})\n" % MINI,
    "CC_Compile.cmake": "macro (cc_compile)\nendmacro ()\nmacro (cc_msvc_force_warn_opt)\nendmacro ()\n",
    "cc_tools_qtConfig.cmake": "if (NOT TARGET cc::cc_tools_qt)\n add_library(cc::cc_tools_qt INTERFACE IMPORTED)\n target_include_directories(cc::cc_tools_qt INTERFACE \"${CMAKE_CURRENT_LIST_DIR}\")\nendif ()\n",
    "Qt5Config.cmake": "if (NOT TARGET Qt5::Core)\n add_library(Qt5::Core INTERFACE IMPORTED)\n add_library(Qt5::Widgets INTERFACE IMPORTED)\nendif ()\n",
    "FindSWIG.cmake": "set (SWIG_FOUND TRUE)\n",
    "UseSWIG.cmake": "macro (swig_add_library name)\n cmake_parse_arguments(sal \"\" \"LANGUAGE;OUTPUT_DIR\" \"SOURCES\" ${ARGN})\n"
                     " foreach (s ${sal_SOURCES})\n  if (NOT EXISTS ${s})\n   message (FATAL_ERROR \"Cannot find source file: ${s}\")\n  endif ()\n endforeach ()\n"
                     " file (APPEND ${CMAKE_BINARY_DIR}/swig.txt \"${sal_SOURCES}\\n\")\n add_library(${name} INTERFACE)\nendmacro ()\n"
                     "macro (target_link_libraries)\nendmacro ()\nmacro (target_compile_options)\nendmacro ()\n",
}
CMAKE = ["cmake", "-G", "Ninja", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DCMAKE_C_COMPILER_WORKS=1", "-DCMAKE_CXX_COMPILER_WORKS=1", "-DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON",
         "-DCMAKE_CXX_STANDARD=17"]


def cmake(p, src, name, args=()):
    pk = os.path.join(p.root, "pkg")
    if not os.path.isdir(pk):
        os.mkdir(pk)
        for n, t in PKG.items():
            with open(os.path.join(pk, n), "w") as f:
                f.write(t)
    bd = os.path.join(p.root, "build_" + name)
    x = subprocess.run(CMAKE + ["-S", src, "-B", bd, "-DCMAKE_PREFIX_PATH=%s;%s" % (pk, p.root + "/inst"), "-DCMAKE_MODULE_PATH=" + pk, "-DCMAKE_INSTALL_PREFIX=" + p.root + "/inst",
                                "-DLibComms_DIR=" + pk, "-Dcc_tools_qt_DIR=" + pk, "-DQt5_DIR=" + pk] + list(args),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, CC="gcc", CXX="g++"))
    if x.returncode:
        p.fail("the project generated by %s cannot be configured: %s" % (name, " ".join(re.sub(r"\s+", " ", x.stdout[x.stdout.find("CMake Error"):])[:300].split())), "configure:" + name, log=x.stdout[-2000:])
    cc = os.path.join(bd, "compile_commands.json")
    listed = []
    if os.path.exists(cc):
        with open(cc) as f:
            listed = [os.path.realpath(os.path.join(e["directory"], e["file"])) for e in json.load(f)]
    return bd, listed


def links(r, ctx, weights=None):
    app = r.weighted(weights or [(10, "commsdsl2comms"), (35, "commsdsl2c"), (10, "commsdsl2test"), (20, "commsdsl2swig"), (20, "commsdsl2emscripten"), (15, "commsdsl2latex"), (25, "commsdsl2tools_qt")])
    sw = app in ("commsdsl2swig", "commsdsl2emscripten")
    own = []

    def common(b):
        return []
    p = Project(r, ctx, common=common, twop=25, nns=0 if sw else r.below(5))
    b = p.b
    if not domain(app, b) or (app in ("commsdsl2tools_qt", "commsdsl2test") and not (b.frames and b.ifaces)):
        raise Skip("schema outside of the domain of " + app)
    if app == "commsdsl2tools_qt" and r.chance(60):
        protos = []
        for i in range(r.rng(1, 3)):
            protos.append("%s:%s:%s:descr %d:%s" % (r.pick(list(b.frames)), r.pick(list(b.ifaces)), "plug%d" % i, i, r.pick(["id%d" % i, "p%d_x" % i])))
        own += ["--protocol", ",".join(protos)]
    if app == "commsdsl2c" and r.chance(30):
        own += ["-P", "pre_"]
    if sw and r.chance(30):
        own += ["--force-main-ns-in-names"]
    if sw and r.chance(20) and "-V" in p.comms:
        own += ["--has-code-version"]
    if app in ("commsdsl2c",) + (("commsdsl2swig", "commsdsl2emscripten") if True else ()) and r.chance(30):
        sel = r.subset(list(b.msgs), 60) or list(b.msgs)[:1]
        q = os.path.join(p.root, "list.txt")
        with open(q, "w") as f:
            f.write("\n".join(sel) + "\n")
        own += ["--messages-list", q]
    d = p.out(app, own) if app != "commsdsl2comms" else p.dirs[app]
    ext = {"commsdsl2tools_qt": ("comms/", "cc_tools_qt/", "Q", "ui_", "moc_"), "commsdsl2emscripten": ("comms/", "emscripten/")}.get(app, ("comms/",))
    bad = refs(p, d, [d + "/include", p.inc], ext)
    if bad:
        p.fail("%s: %s mentions a file which does not exist: %s" % ((app,) + bad), "missing-file:" + app, own=" ".join(own))
    args = []
    inst = os.path.join(p.root, "inst")
    bd, _ = cmake(p, p.dirs["commsdsl2comms"], "commsdsl2comms")
    x = subprocess.run(["cmake", "--install", bd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if x.returncode:
        p.fail("the project generated by commsdsl2comms cannot be installed", "install", log=x.stdout[-1000:])
    got, want = set(files(inst + "/include", "")), set(files(p.inc, ""))
    if got != want:
        p.fail("installed headers differ: %s" % sorted(got ^ want)[:3], "install")
    listed = []
    if app == "commsdsl2latex":
        texs = set(files(d, ".tex"))
        main = [t for t in texs if "/" not in t]
        seen = []
        for t in texs:
            with open(os.path.join(d, t), errors="replace") as f:
                seen += re.findall(r"\\(?:input|include)\{([^}]*)\}", f.read())
        seen = [x if x.endswith(".tex") else x + ".tex" for x in seen]
        for x in seen:
            if x not in texs:
                p.fail("file %s of the specification does not exist" % x, "missing-file:" + app)
            if seen.count(x) > 1:
                p.fail("file %s is included %d times" % (x, seen.count(x)), "listed:" + app)
        lost = texs - set(seen) - set(main)
        if lost or len(main) != 1:
            p.fail("files are not part of the specification: %s" % sorted(lost or main)[:3], "listed:" + app)
        cmake(p, d, app, ["-DOUTPUT_DIR=" + inst])
    elif app != "commsdsl2comms":
        if app == "commsdsl2swig":
            args.append("-DOPT_SWIG_LANGUAGES=python;java")
        if app == "commsdsl2emscripten":
            args += ["-DEMSCRIPTEN=1", "-DOPT_FIND_COMMS=ON", "-DOPT_FIND_PROTOCOL=ON"]
        bd, listed = cmake(p, d, app, args)
        if app == "commsdsl2swig":
            with open(bd + "/swig.txt") as f:
                listed = [os.path.realpath(x) for x in f.read().split("\n")[0].split(";") if x]
            have = [os.path.realpath(os.path.join(d, x)) for x in files(d, ".i")]
        else:
            have = [os.path.realpath(os.path.join(d, x)) for x in files(d, ".cpp")]
        listed = [x for x in listed if "_autogen" not in x]
        if sorted(have) != sorted(listed):
            diff = sorted(set(have) ^ set(listed)) or [x for x in listed if listed.count(x) > 1]
            p.fail("%s: sources and the build file disagree: %s" % (app, os.path.relpath(diff[0], d)), "listed:" + app, own=" ".join(own))
        if app == "commsdsl2swig":
            with open(have[0]) as f:
                t = f.read()
            sub = re.findall(r'^\s*%include\s+"(include/[^"]+)"', t, re.M)
            lost = sorted(set(files(d, ".h")) ^ set(sub)) or [x for x in sub if sub.count(x) > 1]
            if lost:
                p.fail("%s: headers and the main file disagree: %s" % (app, lost[0]), "listed:" + app)
    return Result(fingerprint(p.text + app + str(own)), True, [(c, 1) for c in shape(b) | {"app:" + app} | {"option:" + a for a in own + p.common if a.startswith("-")}], {"app": app, "own": own, "listed": len(listed)})


def bits(r):
    """sometimes many members of bitfields which are references"""
    return dict(bitrefs=8, kinds=["int", "set", "enum", "ref", "bitfield", "bitfield", "bitfield"]) if r.chance(35) else {}


CHECK = Check("C15", [
    ("headers", lambda r, c: headers(r, c, **bits(r)), 24, 2000),
    ("program", program, 24, 2000),
    ("clib", lambda r, c: clib(r, c, **bits(r)), 24, 2000),
    ("links", links, 60, 4000),
], "a project of a schema with at least one message (C library: at least 10 functions)",
    setup=lambda: (build.ensure(build.APPS), gencpp.pch()), quick_s=400,
    assumptions=["the COMMS library is represented by the stand-in cpp/minicomms; the other external packages (Qt, cc_tools_qt, SWIG, emscripten) by empty package files: their sources are not compiled by this check, "
                 "only their references are followed"])
