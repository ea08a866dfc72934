"""Running the code generators."""
import os, resource, shutil, subprocess
from . import build
from .harness import Violation

ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0"}


def setup(apps=None, dumper=False):
    def f():
        build.ensure(list(apps or build.APPS) + (["vt_dumper"] if dumper else []), "std")
    return f


class Run:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def run(name, args, cwd=None, env=None, timeout=120):
    e = dict(ENV)
    e.update(env or {})
    try:
        p = subprocess.run([build.app(name)] + list(args), cwd=cwd or "/", env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Violation("%s does not terminate within %d s: %s" % (name, timeout, " ".join(args)), sig="hang")
    return Run(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))


def tree(d):
    """relative path -> content"""
    res = {}
    for root, dirs, files in os.walk(d):
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                res[os.path.relpath(p, d)] = f.read()
        for n in dirs:
            p = os.path.join(root, n)
            if not os.listdir(p):
                res[os.path.relpath(p, d) + "/"] = None
    return res


def generate(name, files, out, args=(), schema=None, **kw):
    """runs a generator which must succeed"""
    r = run(name, list(args) + ["-o", out] + list(files), **kw)
    if r.rc != 0:
        raise Violation("%s fails (status %d) on a valid schema: %s" % (name, r.rc, (r.err or r.out).strip()[-400:]), sig="genfail:" + name, schema=schema,
                        args=" ".join(args))
    return r


def diff_trees(a, b):
    """first difference, readable, or None"""
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return "%s only in the second" % k
        if k not in b:
            return "%s only in the first" % k
        if a[k] != b[k]:
            la, lb = (a[k] or b"").split(b"\n"), (b[k] or b"").split(b"\n")
            for i, (x, y) in enumerate(zip(la + [None] * len(lb), lb + [None] * len(la))):
                if x != y:
                    return "%s:%d: %r / %r" % (k, i + 1, x, y)
    return None


def _sorted_runs(ls):
    """the order of the options listing valid values follows the order of attributes and elements in the schema"""
    out, run = [], []
    for l in ls:
        if l.lstrip().startswith(b"comms::option::def::Valid"):
            run.append(l)
            continue
        out += sorted(set(run))
        run = []
        out.append(l)
    return out + sorted(set(run))


def code_only(t):
    """the text of the files without comment lines, order of valid values options normalised"""
    out = {}
    for k, v in t.items():
        if v is not None and k.endswith((".h", ".cpp", ".hpp")):
            ls = [l for l in v.split(b"\n") if l.strip() and not l.lstrip().startswith(b"//")]
            if b"option::def::Valid" in v:
                ls = _sorted_runs([l.rstrip(b",") for l in ls])
            v = b"\n".join(l.split(b"///<")[0].rstrip() for l in ls)
        out[k] = v
    return out
