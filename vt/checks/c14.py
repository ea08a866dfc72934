"""C14: custom code is injected where the hook is advertised, nowhere else; other files are copied unchanged."""
import os, re
from ..harness import Check, Result, Violation, Skip, fingerprint
from ..common import build_proto
from .. import apps, etree, proto, build
from . import c13

HOOK = re.compile(r'^(\s*)(?://|%|#) \[CODE INJECT\]: (.*) with "([^"]*)"\.\s*$')
NOTE = re.compile(r'^\s*(?://|%|#) \[[A-Z ]+\]: ')
FUNCS = {"read", "write", "length", "valid", "refresh", "name", "construct"}
SECTIONS = {"content", "document", "package", "macro", "pdf_replace", "html_replace"}
ADDS = {"append", "public", "protected", "private", "inc", "sources", "prepend", "prepend_lang", "bind", "value", "content_prepend", "content_append", "title_append",
        "package_append", "macro_append", "pdf_append", "html_append", "html_cmd_append"}
LENCHK = re.compile(r"^\s*(// Compile time check for serialisation length\.|static const std::size_t Msg(Min|Max)Len = .*|static_assert\(Msg(Min|Max)Len .*)$")
ACCESS = re.compile(r"^\s*(public|protected|private):$")
WRAP = re.compile(r"^(/// @brief .*|template <typename TIter>|(static |explicit )?([\w:]+ )?([\w:]+\*? )?\w+\([^()]*\)( const)?|\{)$")
WEIGHTS = [(40, "commsdsl2comms"), (10, "commsdsl2c"), (4, "commsdsl2test"), (11, "commsdsl2swig"), (11, "commsdsl2emscripten"), (12, "commsdsl2latex"), (12, "commsdsl2tools_qt")]
TEXTS = ["x = 1; // %d", "#include \"%s\"", "  indented {", "\ttab }", "\\path\\n & 100% $1 ~^_", "\"q\" 'a' <b>", "ünï © ☃", "a  b   c", "}", "void f();", "@a@ ##", "%"]


class Hook:
    def __init__(self, path, desc):
        self.path, self.desc, self.places = path, desc, []
        self.stem, _, self.suf = path.rpartition(".")
        self.base = self.suf[:-5] if self.suf.endswith("_body") else self.suf
        self.body = self.base != self.suf
        t = self.suf
        if t == "replace":
            self.kind = "file"
        elif t in SECTIONS or t == "title" and "whole" in desc:
            self.kind = "section"
        elif t == "title":
            self.kind = "title"
        elif t == "extend":
            self.kind = "extend"
        elif self.base in FUNCS:
            self.kind = "func"
        elif t in ADDS:
            self.kind = "add"
        else:
            self.kind = None


def lines_of(data):
    return data.decode("utf-8", "surrogateescape").split("\n")


def hooks_of(tree):
    res = {}
    for f, c in sorted(tree.items()):
        if c is None or b"[CODE INJECT]" not in c:
            continue
        for i, l in enumerate(lines_of(c)):
            m = HOOK.match(l)
            if m:
                res.setdefault(m.group(3), Hook(m.group(3), m.group(2))).places.append((f, i))
            elif "[CODE INJECT]" in l:
                raise Violation("unreadable hook comment in %s: %s" % (f, l), sig="hook-comment")
    return res


def content(r, k, latex_title=False):
    mark = "@@%d@@" % k
    if latex_title:
        return [mark + " Title %d" % r.below(9)]
    res = [mark + "first"]
    for _ in range(r.below(4)):
        t = r.pick(TEXTS)
        res.append("" if r.chance(20) else t.replace("%d", str(r.below(99))).replace("%s", "h%d.h" % r.below(9)))
    res.append("  " * r.below(3) + mark + "last")
    return res


def plain(lines):
    """without blank lines, hook comments and remarks"""
    return [l.rstrip() for l in lines if l.strip() and not NOTE.match(l)]


def take(lines, hook, text, where):
    """replaces the injected text by its anchor; lines are not stripped yet"""
    k = text[0].split("@@")[1]
    first = [i for i, l in enumerate(lines) if "@@%s@@first" % k in l]
    if hook.kind == "title":
        at = [i for i, l in enumerate(lines) if text[0] in l]
        if len(at) != 1 or not re.match(r"^\s*\\\w+\{%s$" % re.escape(text[0]), lines[at[0]].rstrip().rstrip("}").rstrip()):
            raise Violation("the title supplied as %s is not used as the title in %s" % (hook.path, where), sig="title")
        j = at[0]
        rest = lines[j + 1:]
        if not lines[j].rstrip().endswith("}"):
            while rest and not rest[0].strip():
                rest = rest[1:]
            if not rest or rest[0].strip() != "}":
                raise Violation("the heading with the title of %s is not closed in %s" % (hook.path, where), sig="title")
            rest = rest[1:]
        return lines[:j] + ["@" + hook.path] + rest
    n = len(hook_places(hook, where))
    if len(first) != n:
        raise Violation("the content of %s appears %d times in %s, the hook is advertised %d times there" % (hook.path, len(first), where, n), sig="times:" + hook.suf)
    for i in reversed(first):
        ind = lines[i][:len(lines[i]) - len(lines[i].lstrip())]
        j = i
        for t in [t for t in text if t.strip()]:
            while j < len(lines) and not lines[j].strip():
                j += 1
            got = lines[j].rstrip() if j < len(lines) else None
            if got != (ind + t).rstrip():
                raise Violation("the content of %s is not verbatim in %s: expected \"%s\", is \"%s\"" % (hook.path, where, ind + t, got), sig="verbatim:" + hook.suf)
            j += 1
        lines = lines[:i] + [ind + "@" + hook.path] + lines[j:]
    return lines


def hook_places(h, f):
    return [i for g, i in h.places if g == f]


def norm(ls):
    """differences which custom operations bring to other lines of the class"""
    res = []
    skip = None
    for l in ls:
        t = l.rstrip(",")
        if skip is not None:
            # the default construction which stays available under another name
            if l == skip + "}":
                skip = None
            continue
        if re.match(r"^\s*void constructOrig\(\)$", t):
            skip = t[:len(t) - len(t.lstrip())]
            continue
        if re.match(r"^\s*comms::option::def::FieldType<.*>$", t):
            continue
        if LENCHK.match(t) or re.match(r"^\s*comms::option::def::HasCustom\w+$", t) or t.strip().startswith("// Make sure to add the following lines"):
            continue
        t = t.replace("(!Base::doValid())", "(!doValid())")
        res.append(re.sub(r"^(\s*)// (Q_\w+)", r"\1\2", t))
    return res


def drop_generated(ls):
    """without the generated read of variants and bundles, which gives way to custom operations of the members"""
    res, skip = [], False
    for l in ls:
        if l.strip() == "COMMS_MSVC_WARNING_PUSH":
            skip = True
        if not skip:
            res.append(l)
        if l.strip() == "COMMS_MSVC_WARNING_POP":
            skip = False
    return res


def default_func(lines, hook, i):
    """lines of the default definition which the hook at line i of A replaces"""
    ind = re.match(r"\s*", lines[i]).group(0)
    j = i - 1
    while j >= 0 and (not lines[j].strip() or HOOK.match(lines[j]) and HOOK.match(lines[j]).group(3).rpartition(".")[0] == hook.stem and
                      HOOK.match(lines[j]).group(3).rpartition(".")[2] in (hook.base, hook.base + "_body")):
        j -= 1
    if j < 0 or lines[j].rstrip() != ind + "}":
        return None
    k = j - 1
    while k >= 0 and not (lines[k].startswith(ind) and lines[k][len(ind):].rstrip() == "{"):
        k -= 1
    return None if k < 1 else lines[k - 1].rstrip()


def compare(a, b, f, used, names):
    """a: lines of the plain output; b: of the output with the code injected, the injected text replaced by anchors"""
    byp = {"@" + h.path: h for h in used}
    A = []
    for i, l in enumerate(a):
        m = HOOK.match(l)
        A.append(m.group(1) + "@" + m.group(3) if m and "@" + m.group(3) in byp else l)
    B = list(b)
    for h in used:
        if h.kind == "extend":
            n = os.path.basename(h.stem).split(".")[0]
            pat = re.compile(r"\b%sOrig(?=T?\b)" % re.escape(n))
            if not any(pat.search(l) for l in b):
                raise Violation("%s: %s is supplied, the class %s is not renamed to %sOrig" % (f, h.path, n, n), sig="extend")
            if any(re.match(r"^\s*(class|struct|using) %s\b" % re.escape(n), l) for l in b):
                # a definition with the plain name must not stay where the hook is (same names in other scopes of the file are fine)
                da = sum(bool(re.match(r"^\s*(class|struct|using) %s\b" % re.escape(n), l)) for l in a)
                db = sum(bool(re.match(r"^\s*(class|struct|using) %s\b" % re.escape(n), l)) for l in b)
                if db != da - sum(g.kind == "extend" and os.path.basename(g.stem).split(".")[0] == n for g in used):
                    raise Violation("%s: %d definitions of %s with %s, %d without" % (f, db, n, h.path, da), sig="extend")
            B = [pat.sub(n, l) for l in B]
        if h.kind == "func":
            for i in hook_places(h, f):
                d = default_func(a, h, i)
                if d is None:
                    continue
                fn = re.search(r"(\w+)\([^()]*\)[^()]*$", d)
                if not fn or h.base not in ("construct",) and not fn.group(1).lower().endswith(h.base):
                    continue
                fn = fn.group(1)
                da, db = sum(l.rstrip() == d for l in a), sum(l.rstrip() == d for l in b)
                # a body is put into the same signature
                if not h.body and db >= da and not any(g.body and g.base == h.base for g in used):
                    raise Violation("%s: the default definition of %s stays beside the one of %s" % (f, fn, h.path), sig="default-stays:" + h.suf)
            B = [re.sub(r"\b(do[A-Z]\w*|read|write|length|valid|refresh|name)Orig\(", r"\1(", l) for l in B]
    A, B = norm(plain(A)), norm(plain(B))
    if any(h.kind in ("func", "extend") and re.search(r"/Vm\w*(/|\.h$)", h.stem) for h in used):
        A, B = drop_generated(A), drop_generated(B)

    def split(ls):
        segs, anch, cur = [], [], []
        for l in ls:
            if l.lstrip() in byp:
                segs.append(cur)
                anch.append(l)
                cur = []
            else:
                cur.append(l)
        return segs + [cur], anch
    sa, aa = split(A)
    sb, ab = split(B)
    strip = [x.strip() for x in aa]
    if strip != [x.strip() for x in ab]:
        raise Violation("%s: code is injected at other places than advertised: %s, advertised %s" % (f, [x.strip() for x in ab][:6], strip[:6]), sig="order")
    for x, y in zip(aa, ab):
        h = byp[x.strip()]
        if x != y and not h.body and h.kind in ("add", "extend"):
            raise Violation("%s: the content of %s is indented differently from its hook" % (f, h.path), sig="indent")
    rep = [byp[x].kind in ("func", "section", "title") for x in strip]
    for k, (x, y) in enumerate(zip(sa, sb)):
        before = k > 0 and rep[k - 1]
        after = k < len(rep) and rep[k]
        hb = byp[strip[k - 1]] if before else None
        ha = byp[strip[k]] if after else None
        y = list(y)
        if hb and hb.body:
            if not y or y[0].strip() != "}":
                raise Violation("%s: no function is closed after the body %s" % (f, hb.path), sig="body")
            y = y[1:]
        if ha and ha.body:
            w = 0
            if not y or y[-1].strip() != "{":
                raise Violation("%s: no function is opened before the body %s" % (f, ha.path), sig="body")
            while w < len(y) and w < 5 and WRAP.match(y[-1 - w].strip()) and (w == 0 or y[-1 - w].strip() != "{"):
                w += 1
            sig = [l for l in y[len(y) - w:] if "(" in l and not l.strip().startswith("///")]
            cls = os.path.basename(ha.stem).split(".")[0]
            if len(sig) != 1 or not re.search(r"\b%s\(" % (cls if ha.base == "construct" else "(do)?" + ha.base), sig[0], re.I):
                raise Violation("%s: the body %s is put into \"%s\"" % (f, ha.path, " / ".join(sig).strip()), sig="body")
            y = y[:len(y) - w]
        if x == y:
            continue
        info = "%s differs beyond the injected code: between %s and %s" % (f, strip[k - 1] if k else "the start", strip[k] if k < len(strip) else "the end")
        if not before and not after:
            raise Violation(info + ": " + first_diff(x, y), sig="changed")
        # deletion of the default next to the anchor
        ok, gone = False, []
        for lo in range(0, len(x) - len(y) + 1):
            if x[lo:lo + len(y)] == y and (lo == 0 or before) and (lo + len(y) == len(x) or after):
                ok, gone = True, [g for g in (x[:lo], x[lo + len(y):]) if g]
                break
        if not ok:
            raise Violation(info + ": " + first_diff(x, y), sig="changed")
        for g in gone:
            t = re.sub(r'"([^"\\\n]|\\.)*"', '""', "\n".join(g))
            if t.count("{") != t.count("}") and (hb or ha).kind == "func":
                raise Violation(info + ": the removed text is not a complete definition: " + t[:200], sig="changed")
            n = sum(bool(re.match(r"^\s*\{$", l)) for l in g if len(l) - len(l.lstrip()) == min(len(q) - len(q.lstrip()) for q in g))
            if (hb or ha).kind == "func" and n > 1:
                raise Violation(info + ": more than one definition is removed: " + t[:300], sig="changed")


def first_diff(x, y):
    for i in range(max(len(x), len(y))):
        p, q = x[i] if i < len(x) else None, y[i] if i < len(y) else None
        if p != q:
            return "expected \"%s\", is \"%s\"" % (p, q)


def choose(r, hooks):
    """a set of hooks whose effects can be told apart"""
    order = r.shuffle(sorted(hooks))
    n = r.weighted([(30, 1), (30, r.rng(2, 6)), (25, r.rng(7, 40)), (15, len(order))])
    used, files, whole, ops = [], set(), set(), set()
    first = {}
    for p in order:
        first.setdefault(hooks[p].suf, p)
    # every suffix gets its share
    order = r.shuffle(sorted(first.values()))[:max(1, n)] + order
    for p in order:
        h = hooks[p]
        if len(used) >= n:
            break
        if h in used or h.kind is None:
            continue
        fs = {f for f, _ in h.places}
        if fs & whole:
            continue
        if h.kind in ("file", "section"):
            if fs & files:
                continue
            whole |= fs
        if h.kind == "func":
            if (h.stem, h.base) in ops:
                continue
            ops.add((h.stem, h.base))
        files |= fs
        used.append(h)
    return used


def extra_files(r, b, tree, main):
    """plain files: relative path -> content"""
    res = {}
    s = b.schema.name
    ns = scope_name(s)
    for _ in range(r.weighted([(30, 0), (30, 1), (40, r.rng(2, 5))])):
        d = r.pick(["", "extra/", "include/%s/" % ns, "include/%s/frame/checksum/" % ns, "include/%s2/" % ns, "doc/", "include/", "a b/ünï/", "cc_x/%s/" % ns])
        n = r.pick(["Own%d.h", "note%d.md", "file%d", "data%d.bin", ".hidden%d", "x%d.tar.gz", "Own%d.cpp", "own.append%d.txt", "readme%d.reader", "cfg%d.json"]) % r.below(20)
        t = r.pick(["text %d\n", "namespace %s\n{\n}\n" % ns + "// %d", "namespace %s2 {}\n%%d" % ns, "", "no end of line %d", "\r\n\x00\xff%d \r\n", "using namespace %s::field;\n%%d" % ns])
        res[d + n] = (t % r.below(99) if "%d" in t else t).encode("latin1")
    if r.chance(15):
        p = r.pick(sorted(f for f in tree if tree[f] is not None))
        if "include/" not in p or main is None:
            res[p] = b"// replaced as a whole\n"
    return res


def scope_name(s):
    return s


def placed(path, data, ns, main):
    """where and how a plain file is expected in the output"""
    if main is None or main == ns:
        return path, data
    pre = "include/%s/" % ns
    if path.startswith(pre):
        path = "include/%s/%s" % (main, path[len(pre):])
    return path, re.sub(rb"\bnamespace %s\b" % ns.encode(), b"namespace " + main.encode(), data)


def case(r, ctx, weights=None, **kw):
    app = r.weighted(weights or WEIGHTS)
    sw = app in ("commsdsl2swig", "commsdsl2emscripten")
    b = build_proto(r, **{**dict(wire=True, compile=True, codes=False, nmsgs=(1, 4), nfields=(0, 4), extras=False, nns=0 if sw or r.chance(40) else None), **kw})
    if not c13.domain(app, b) or app in ("commsdsl2test", "commsdsl2tools_qt") and not (b.frames and b.ifaces):
        raise Skip("schema outside of the domain of " + app)
    text = etree.render(proto.section_doc(b))
    args = c13.app_args(r, app, b, None)
    flag = "--code-inject-comments"
    noflag = [a for a in args if a != flag]
    main = noflag[noflag.index("-n") + 1] if "-n" in noflag else None
    src = ctx.fresh("c14") + "/s.xml"
    os.makedirs(os.path.dirname(src), exist_ok=True)
    with open(src, "wb") as fh:
        fh.write(text.encode())
    info = {"schema": text, "app": app, "args": " ".join(noflag)}

    def gen(name, a):
        o = ctx.fresh("out_" + name)
        x = apps.run(app, a + ["-o", o, src])
        if x.rc != 0:
            raise Violation("%s fails (status %d): %s" % (app, x.rc, (x.err or x.out).strip()[-300:]), sig="genfail:" + app, **info)
        return apps.tree(o)
    try:
        A = gen("a", noflag + [flag])
        hooks = hooks_of(A)
        used = choose(r, hooks) if hooks else []
        texts = {h.path: content(r, k, h.kind == "title") for k, h in enumerate(used)}
        extra = extra_files(r, b, A, main)
        tails = {}
        if app == "commsdsl2comms" and r.chance(40):
            # documented: text can be appended to every generated file
            taken = {f for h in used for f, _ in h.places} | set(extra)
            for f in r.subset(sorted(f for f in A if A[f] is not None), r.pick([4, 20, 100])):
                if f + ".append" not in hooks and f not in taken:
                    tails[f] = "@@tail %d" % len(tails)
        code = ctx.fresh("code")
        ns = scope_name(b.schema.name)

        def put(p, data):
            p = os.path.join(code, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(data)
        for p, t in texts.items():
            put(p, ("\n".join(t) + ("\n" if r.chance(85) else "")).encode())
        for p, d in extra.items():
            put(p, d)
        for f, t in tails.items():
            put((f if main is None else f.replace("include/%s/" % main, "include/%s/" % ns)) + ".append", t.encode() + b"\n")
        os.makedirs(code, exist_ok=True)
        info["code"] = "\n".join("%s:\n%s" % (p, "\n".join("    " + x for x in t)) for p, t in list(texts.items())[:20]) + "\n" + "\n".join(list(extra) + ["%s.append" % f for f in tails])
        B = gen("b", noflag + [flag, "-c", code])
        C = D = None
        if r.chance(30):
            C, D = gen("c", noflag + ["-c", code]), gen("d", noflag)
        copies = {}
        for p, d in extra.items():
            q, d = placed(p, d, ns, main)
            copies[q] = d
        for q, d in copies.items():
            for T in (B, C):
                if T is not None and T.get(q) != d:
                    raise Violation("%s: the file %s is not copied unchanged (%s)" % (app, q, "missing" if q not in T else "content differs: %r, expected %r" % (T[q][:80], d[:80])), sig="copy")
        files = {f for h in used for f, _ in h.places}
        for T in (B, C):
            if T is None:
                continue
            more = sorted(f for f in set(T) - set(A) - set(copies) if T[f] is not None)
            if more:
                raise Violation("%s: with custom code there is an unexpected file %s" % (app, more[0]), sig="unexpected:" + more[0].rpartition(".")[2])
            less = sorted(set(A) - set(T))
            if [f for f in less if A[f] is not None]:
                raise Violation("%s: with custom code there is no file %s" % (app, less[0]), sig="missing")
        for f in sorted(A):
            if A[f] is None or f in copies:
                continue
            here = [h for h in used if hook_places(h, f)]
            if f in tails:
                a, c = plain(lines_of(A[f])), plain(lines_of(B[f]))
                n = [l.strip() for l in c].count(tails[f])
                if n != 1 or [l for l in c if l.strip() != tails[f]] != a:
                    raise Violation("%s: the content of %s.append is in the file %d times, ends with %s" % (app, f, n, c[-2:]), sig="tail")
                continue
            if not here:
                if A[f] != B[f]:
                    raise Violation("%s: %s changes though no code for it is supplied: %s" % (app, f, first_diff(plain(lines_of(A[f])), plain(lines_of(B[f])))), sig="leak")
                continue
            w = [h for h in here if h.kind == "file"]
            if w:
                t = [l.rstrip() for l in lines_of(B[f]) if l.strip()]
                if t != [l.rstrip() for l in texts[w[0].path] if l.strip()]:
                    raise Violation("%s: %s is not the content of %s: %s" % (app, f, w[0].path, first_diff(texts[w[0].path], t)), sig="replace")
                continue
            bl = lines_of(B[f])
            for h in here:
                bl = take(bl, h, texts[h.path], f)
            compare(lines_of(A[f]), bl, f, here, None)
        if C is not None:
            for f in sorted(C):
                if C[f] is None or f in copies or f in tails:
                    continue
                here = [h for h in used if hook_places(h, f)]
                if not here:
                    if C[f] != D.get(f):
                        raise Violation("%s: %s changes though no code for it is supplied: %s" % (app, f, first_diff(plain(lines_of(D[f])), plain(lines_of(C[f])))), sig="leak2")
                    continue
                if b"[CODE INJECT]" in C[f]:
                    raise Violation("%s: hook comments in %s without --code-inject-comments" % (app, f), sig="comments")
                if [h for h in here if h.kind == "file"]:
                    if plain(lines_of(C[f])) != plain(lines_of(B[f])):
                        raise Violation("%s: %s is not replaced without --code-inject-comments" % (app, f), sig="replace2")
                    continue
                cl = lines_of(C[f])
                for h in here:
                    cl = take(cl, h, texts[h.path], f)
                got = [l.strip() for l in cl if l.strip()[:1] == "@" and l.strip()[1:] in texts]
                bl = lines_of(B[f])
                for h in here:
                    bl = take(bl, h, texts[h.path], f)
                exp = [l.strip() for l in bl if l.strip()[:1] == "@" and l.strip()[1:] in texts]
                if got != exp:
                    raise Violation("%s: the order of injected code in %s depends on --code-inject-comments" % (app, f), sig="order2")
    except Violation as e:
        for k, v in info.items():
            e.info.setdefault(k, v)
        raise
    cls = {"app:" + app} | {"suffix:" + h.suf for h in used}
    if extra:
        cls.add("plain files")
    if tails:
        cls.add("appended to files without hooks")
    if main:
        cls.add("renamed main namespace")
    if len(used) > 6:
        cls.add("many hooks")
    return Result(fingerprint(text, app, sorted(texts), sorted(extra)), bool(used or extra), sorted(cls), "%s %s\n%s\n%s" % (app, " ".join(noflag), info["code"][:800], text[:1500]))


# ---- copying of code and override types

FOPS = ["value", "read", "write", "refresh", "length", "valid", "name"]
APPS_ = ["inc", "public", "protected", "private", "append"]


class Elem:
    def __init__(self, kind, ns, name):
        self.kind, self.ns, self.name = kind, ns, name
        self.own, self.ovr, self.base, self.copy, self.reuse = {}, {}, None, None, False
        self.typ = None
        self.depr, self.gone = 0, False

    @property
    def ref(self):
        return (self.ns + "." if self.ns else "") + self.name

    def path(self, sub=""):
        return ({"field": "field/", "message": "message/", "interface": ""}[self.kind]) + self.name + sub + ".h"


FTYPES = {"int": 'type="uint16"', "float": 'type="float"', "string": 'length="4"', "data": "", "enum": 'type="uint8"', "set": 'length="1"', "bundle": "", "list": 'count="2"'}
FKIDS = {"enum": '<validValue name="V" val="0"/>', "set": '<bit name="b" idx="0"/>', "bundle": '<members><int name="m" type="uint8"/></members>', "list": '<element><int name="e" type="int8"/></element>'}


def copy_model(r):
    """elements in the order of the schema"""
    names = r.shuffle(["a", "b", "z", "m"])[:r.rng(0, 3)]
    blocks = [r.pick([""] + names) for _ in range(r.rng(1, 5))]
    els, n = [], 0
    for ns in blocks:
        grp = []
        for kind in ("field", "message", "interface"):
            for _ in range(r.rng(0, 4 if kind != "interface" else 2)):
                n += 1
                e = Elem(kind, ns, {"field": "F", "message": "M", "interface": "I"}[kind] + str(n))
                prev = [x for x in els if x.kind == kind]
                e.typ = r.pick(sorted(FTYPES)) if kind == "field" else None
                if prev and r.chance(60):
                    s = r.pick(prev)
                    how = r.below(3) if kind != "interface" else r.rng(1, 2)
                    if how == 0:
                        e.copy = s
                    else:
                        e.base, e.typ = s, s.typ
                        e.reuse = how == 1
                        if e.reuse:
                            e.copy = s
                ops = FOPS if kind == "field" else FOPS[1:] if kind == "message" else []
                for op in ops:
                    if r.chance(18):
                        e.ovr[op] = r.pick(["any", "none", "replace", "extend"])
                n2 = r.weighted([(40, 0), (40, 2), (20, 9)])
                for suf in r.shuffle(ops + APPS_ + ([] if kind == "interface" else ["construct_body"]) + ([] if kind == "interface" else ["construct"]) + ["extend"])[:n2]:
                    if suf in ("construct_body",) and "construct" in e.own or suf == "construct" and "construct_body" in e.own:
                        continue
                    e.own[suf] = ("%s_body" % suf) if suf in FOPS and suf != "value" and r.chance(40) else suf
                els.append(e)
                grp.append(e)
    return els


def remove(r, els):
    """removed messages, which are not in the output with -m 2; True when there is any"""
    for e in els:
        if e.kind == "message" and (r.chance(30) or e.base and e.base.depr):
            e.depr = r.pick([1, 3])
            e.gone = e.depr == 1
    return any(e.gone for e in els)


def copy_expect(els):
    """texts expected in every element: dict suffix -> list of (owner, suffix file); None when refused"""
    bad = []
    for e in els:
        cc = dict(e.copy.cc) if e.copy and not e.copy.gone else {}
        if e.gone:
            # not a part of the selected version
            e.cc = e.all = {}
            continue
        for op in (FOPS if e.kind == "field" else FOPS[1:] if e.kind == "message" else []):
            t = e.ovr.get(op, "any")
            if t == "none":
                cc.pop(op, None)
            elif op in e.own:
                cc[op] = [(e, e.own[op])]
            if t in ("replace", "extend") and op not in cc:
                bad.append((e, op))
        if "construct_body" in e.own:
            cc["construct_body"] = [(e, "construct_body")]
        for suf in APPS_:
            if suf in e.own:
                cc[suf] = cc.get(suf, []) + [(e, suf)]
        e.cc = cc
        e.all = dict(cc)
        for suf in ("construct", "extend"):
            if suf in e.own:
                e.all[suf] = [(e, suf)]
        if "construct" in e.own:
            # the body belongs to the constructor which is replaced
            e.all.pop("construct_body", None)
    return bad


def copy_schema(els):
    out, cur = [], None
    out.append('<schema name="S" endian="big" version="3">')
    i = 0
    while i < len(els):
        ns = els[i].ns
        j = i
        while j < len(els) and els[j].ns == ns:
            j += 1
        body = []
        for e in els[i:j]:
            at = 'name="%s"' % e.name
            if e.base:
                at += ' reuse="%s"' % e.base.ref
                if e.reuse:
                    at += ' reuseCode="true"'
            elif e.kind == "field":
                at += " " + FTYPES[e.typ]
            if e.copy and not e.reuse:
                at += ' copyCodeFrom="%s"' % e.copy.ref
            for op, v in sorted(e.ovr.items()):
                at += ' %sOverride="%s"' % (op, v)
            if e.kind == "field":
                body.append('<fields><%s %s forceGen="true">%s</%s></fields>' % (e.typ, at, "" if e.base else FKIDS.get(e.typ, ""), e.typ))
            elif e.kind == "message":
                if e.depr:
                    at += ' deprecated="%d" removed="true"' % e.depr
                body.append('<messages><message %s id="%s"/></messages>' % (at, e.name[1:]))
            else:
                body.append('<interfaces><interface %s/></interfaces>' % at)
        out += ['<ns name="%s">' % ns] + body + ["</ns>"] if ns else body
        i = j
    out += ['<frames><frame name="FR"><id name="ID"><int name="ID" type="uint8"/></id><payload name="PL"/></frame></frames>', "</schema>"]
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + "\n".join(out) + "\n"


def copy_case(r, ctx):
    els = copy_model(r)
    if not els:
        raise Skip("no elements")
    minv = r.chance(30)
    if minv:
        minv = remove(r, els)
    bad = copy_expect(els)
    if bad and r.chance(75):
        # the code which the override type asks for is supplied
        for e, op in bad:
            e.own[op] = op
        bad = copy_expect(els)
    text = copy_schema(els)
    root = ctx.fresh("copy")
    os.makedirs(root, exist_ok=True)
    with open(root + "/s.xml", "w") as fh:
        fh.write(text)
    main = r.pick([None, None, "Other"])
    flag = r.chance(50)
    texts = {}
    for i, e in enumerate(els):
        for suf, fsuf in sorted(e.own.items()):
            p = "include/S/" + (e.ns + "/" if e.ns else "") + e.path() + "." + fsuf
            texts[e, fsuf] = "@@%d.%s@@ %s" % (i, suf, r.pick(["x", "{ }", "a \\ b", "\"s\""]))
            p = os.path.join(root, "code", p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write(texts[e, fsuf] + "\n")
    os.makedirs(root + "/code", exist_ok=True)
    args = (["-n", main] if main else []) + (["-m", "2"] if minv else []) + (["--code-inject-comments"] if flag else [])
    info = {"schema": text, "args": " ".join(args), "code": "\n".join("%s.%s: %s" % (e.ref, f, t) for (e, f), t in texts.items())}
    x = apps.run("commsdsl2comms", args + ["-q", "-c", root + "/code", "-o", root + "/o", root + "/s.xml"])
    cls = {"copied code", "removed source" if any(e.copy and e.copy.gone and not e.gone and e.copy.own for e in els) else "all present", "flag" if flag else "no flag"} | {"override:" + v for e in els for v in e.ovr.values()}
    key = fingerprint(text, sorted(info["code"].split("\n")), args)
    if bad:
        if x.rc == 0:
            raise Violation("commsdsl2comms succeeds although %s of %s must be overridden (%s) and there is no code for it" % (bad[0][1], bad[0][0].ref, bad[0][0].ovr[bad[0][1]]), sig="required", **info)
        if not any('"%s"' % op in x.err + x.out and e.ref in x.err + x.out for e, op in bad):
            raise Violation("the missing code for %s is not named: %s" % (", ".join("%s of %s" % (op, e.ref) for e, op in bad), (x.err + x.out)[-300:]), sig="required-msg", **info)
        return Result(key, True, sorted(cls | {"required code missing"}), text[:1000])
    if x.rc != 0:
        raise Violation("commsdsl2comms fails (status %d): %s" % (x.rc, (x.err or x.out).strip()[-300:]), sig="copy-fail", **info)
    for e in els:
        if e.gone:
            continue
        p = root + "/o/include/%s/" % (main or "S") + (e.ns + "/" if e.ns else "") + e.path()
        c = open(p).read() if os.path.exists(p) else None
        if c is None:
            raise Violation("there is no %s" % p[len(root):], sig="copy-missing", **info)
        got = re.findall(r"@@\d+\.\w+@@", c)
        exp = {}
        for suf, l in e.all.items():
            for o, fsuf in l:
                exp[texts[o, fsuf].split(" ")[0]] = (suf, o, fsuf)
        for m, (suf, o, fsuf) in exp.items():
            n = got.count(m)
            if n != 1:
                raise Violation("%s %s: the code %s of %s is in its file %d times" % (e.kind, e.ref, fsuf, o.ref, n), sig="copy-count:" + suf, **info)
        for m in got:
            if m not in exp:
                i, suf = m.strip("@").split(".")
                raise Violation("%s %s has the code %s of %s, which was not asked for" % (e.kind, e.ref, suf, els[int(i)].ref), sig="copy-leak:" + suf, **info)
        for suf, l in e.all.items():
            for o, fsuf in l:
                t = texts[o, fsuf]
                if not re.search(r"^\s*" + re.escape(t) + "$", c, re.M):
                    raise Violation("%s %s: the code %s of %s is not verbatim" % (e.kind, e.ref, fsuf, o.ref), sig="copy-verbatim", **info)
                if fsuf.endswith("_body") and fsuf != "construct_body":
                    fn = ("do" + suf.capitalize()) if e.kind == "message" else suf
                    before = c[:c.index(t)].rstrip().split("\n")[-2:]
                    if before[-1].strip() != "{" or not re.search(r"\b%s\(" % fn, before[0]):
                        raise Violation("%s %s: the body %s of %s is put into %s" % (e.kind, e.ref, fsuf, o.ref, before), sig="copy-body", **info)
        # code of a parent's own class is not named Orig unless there is something to replace
        for op in ("name",) if e.kind != "interface" and e.typ not in ("list", "bundle") else ():
            fn = "doName" if e.kind == "message" else "name"
            orig = bool(re.search(r"\bstatic const char\* %sOrig\(\)" % fn, c))
            plain_ = bool(re.search(r"\bstatic const char\* %s\(\)\s*\{\s*return (::)?\w+::" % fn, c))
            have = op in e.cc
            t = e.ovr.get(op, "any")
            if have and t == "replace" and (orig or plain_):
                raise Violation("%s %s: the generated name stays although it is replaced" % (e.kind, e.ref), sig="copy-orig", **info)
            if have and t != "replace" and (not orig or plain_):
                raise Violation("%s %s: the generated name is not kept as %sOrig()" % (e.kind, e.ref, fn), sig="copy-orig", **info)
            if not have and (orig or not plain_ and e.kind == "message"):
                raise Violation("%s %s: there is no generated name" % (e.kind, e.ref), sig="copy-orig", **info)
    return Result(key, any(e.copy for e in els), sorted(cls), text[:1000] + "\n" + info["code"][:600])


CHECK = Check("C14", [
    ("all", lambda r, c: case(r, c), 500, 12000),
    ("comms", lambda r, c: case(r, c, weights=[(1, "commsdsl2comms")], depth=3), 250, 6000),
    ("copy", copy_case, 400, 12000),
], "code is supplied for at least one advertised hook, or at least one plain file",
    setup=apps.setup(),
    assumptions=["a custom operation may add the HasCustom* options to the class and keep the default operation under the name with suffix Orig",
                 "blank lines are not compared"])
