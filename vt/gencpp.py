"""Generating, compiling and running the C++ code of commsdsl2comms together with the stand-in of the COMMS library."""
import os, shutil, subprocess, threading
from . import apps, build, etree, proto
from .harness import Violation, Skip

CPP = os.path.join(build.VERIF, "cpp")
CXX = os.environ.get("VT_CXX", "g++")
FLAGS = ["-std=c++20", "-O0", "-fno-var-tracking", "-D_GLIBCXX_ASSERTIONS"]


def pch():
    """precompiled header of the driver; returns the include directory to put first"""
    d = os.path.join(build.BUILD, "pch")
    os.makedirs(d, exist_ok=True)
    import fcntl, hashlib
    h = hashlib.sha1()
    for root in (os.path.join(CPP, "minicomms", "comms"), os.path.join(CPP, "gendrv")):
        for n in sorted(x for x in os.listdir(root) if os.path.isfile(os.path.join(root, x))):
            with open(os.path.join(root, n), "rb") as f:
                h.update(f.read())
    h.update(" ".join([CXX] + FLAGS).encode())
    with open(d + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(d, "stamp")
        if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
            r = subprocess.run([CXX] + FLAGS + ["-I", os.path.join(CPP, "minicomms"), "-x", "c++-header", os.path.join(CPP, "gendrv", "gendrv.h"),
                                                "-o", os.path.join(d, "gendrv.h.gch")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise build.BuildError("precompiled header:\n" + r.stdout[-3000:])
            with open(stamp, "w") as f:
                f.write(h.hexdigest())
    return d


def setup():
    build.ensure(["commsdsl2comms"], "std")
    pch()


def cls(n):
    return n[0].upper() + n[1:]


def acc(n):
    return n[0].lower() + n[1:]


def scope(path, sub="", main=None):
    """C++ scope of the element of the given schema path"""
    parts = path.split(".")
    return "::".join([main] + parts[:-1] + ([sub] if sub else []) + [cls(parts[-1])])


def header(path, sub="", main=None):
    parts = path.split(".")
    return "/".join([main] + parts[:-1] + ([sub] if sub else []) + [cls(parts[-1])]) + ".h"


IFACE_OPTS = ["comms::option::app::ReadIterator<const std::uint8_t*>", "comms::option::app::WriteIterator<std::uint8_t*>",
              "comms::option::app::IdInfoInterface", "comms::option::app::LengthInfoInterface", "comms::option::app::ValidCheckInterface",
              "comms::option::app::NameInterface", "comms::option::app::RefreshInterface"]


def iface_type(b, main):
    return scope(list(b.ifaces)[0] if b.ifaces else "Message", "", main)


GFRAME = "%s<Iface, %s::input::AllMessages<Iface, %s>, %s>"


def main_cpp(b, main, frames=False, tables=(), topt=None, base=None):
    """text of the program; messages are numbered in the order of b.msgs"""
    ip = list(b.ifaces)[0] if b.ifaces else "Message"
    inc = [header(ip, "", main)] + [header(p, "message", main) for p in b.msgs]
    t = []
    if frames:
        inc += [header(p, "frame", main) for p in b.frames]
    for tb in tables:
        inc += tb["inc"]
    t.append('#include "gendrv.h"')
    t += ['#include "%s"' % i for i in dict.fromkeys(inc + [main + "/Version.h"])]
    t.append('static_assert(%s::specVersion() == %dU, "version of the schema");' % (main, b.V))
    t.append("using Iface = %s<%s>;" % (scope(ip, "", main), ", ".join(IFACE_OPTS)))
    gopt = None
    if base:
        # options of both schemas
        t[1:1] = ['#include "%s/options/DefaultOptions.h"' % x for x in (base, main)]
        gopt = "%s::options::DefaultOptionsT<%s::options::DefaultOptions>" % (main, base)
        topt = topt or gopt
    names = []
    for i, p in enumerate(b.msgs):
        t.append("using M%d = %s<Iface%s>;" % (i, scope(p, "message", main), (", " + topt) if topt else ""))
        names.append("M%d" % i)
    t.append("using Ref = std::tuple<%s>;" % ", ".join(names))
    t.append("int main() { return drv::loop([](drv::Tok& t, std::ostream& o) {")
    t.append("  auto c = t.next(); std::size_t i = std::strtoul(t.next().c_str(), nullptr, 10); (void)i;")
    t.append('  if (c == "m") { auto k = t.next()[0]; switch (i) {')
    for i in range(len(names)):
        t.append("    case %d: drv::MsgOps<Iface, M%d>::run(k, t, o); break;" % (i, i))
    t.append("  default: break; } }")
    if frames:
        for i, p in enumerate(b.frames):
            t.append('  if (c == "f" && i == %d) drv::frameCmd<%s<Iface, Ref%s>, Ref>(t.next()[0], t, o);' %
                     (i, scope(p, "frame", main), (", " + topt) if topt else ""))
        for i, p in enumerate(b.frames):
            t.append('  if (c == "g" && i == %d) drv::frameCmd<%s, Ref>(t.next()[0], t, o);' % (i, scope(p, "frame", main) + "<Iface>" if not gopt else
                                                                                                       GFRAME % (scope(p, "frame", main), scope(p, "frame", main).rsplit("::frame::", 1)[0], gopt, gopt)))
    for i, tb in enumerate(tables):
        t.append('  if (c == "t" && i == %d) { %s }' % (i, tb["code"]))
    t.append("}); }")
    return "\n".join(t) + "\n"


class Compiled:
    def __init__(self, exe):
        self.exe = exe

    def run(self, lines, timeout=60):
        """one answer per command"""
        if not lines:
            return []
        try:
            p = subprocess.run([self.exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Violation("generated code does not terminate", sig="gen-hang")
        out = p.stdout.split("\n")
        if p.returncode != 0 or len(out) != len(lines) + 2 or out[-2] != "end":
            n = len(out) - 1
            raise Violation("generated code dies (status %s) on the command %s: %s %s" % (p.returncode, lines[n][:300] if n < len(lines) else "?", p.stderr[-300:], out[-1][:100]),
                            sig="gen-crash")
        return out[:-2]


def compile_(ctx, src, incs, name="drv", extra=(), schema=None, sig="compile"):
    d = os.path.join(ctx.tmp, name)
    with open(d + ".cpp", "w") as f:
        f.write(src)
    if os.path.exists(d):
        os.unlink(d)
    cmd = [CXX] + FLAGS + list(extra) + ["-I", pch_dir(ctx)] + ["-I" + i for i in incs] + ["-I", os.path.join(CPP, "minicomms"), "-I", os.path.join(CPP, "gendrv"), d + ".cpp", "-o", d]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        err = [l for l in r.stdout.split("\n") if "error" in l]
        raise Violation("generated code does not compile: %s" % (err or [r.stdout[-300:]])[0][-300:], sig=sig, schema=schema, compiler="\n".join(err[:6]) + "\n" + r.stdout[:3000])
    return Compiled(d)


def pch_dir(ctx):
    return ctx.get("pch", pch)


def generate(ctx, b, text, args=(), name="g", base=None):
    """base: text of the schema which is given before this one"""
    files = []
    if base is not None:
        files.append(os.path.join(ctx.tmp, name + "_base.xml"))
        with open(files[0], "wb") as f:
            f.write(base.encode())
        args = list(args) + ["-s"]
    p = os.path.join(ctx.tmp, name + ".xml")
    with open(p, "wb") as f:
        f.write(text.encode())
    out = os.path.join(ctx.tmp, name)
    shutil.rmtree(out, ignore_errors=True)
    apps.generate("commsdsl2comms", files + [p], out, args=args, schema=text if base is None else base + "\n" + text)
    return out
