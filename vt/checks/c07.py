"""C07: hostile input against the library built with AddressSanitizer, UBSan and assertions: structured mutations of
valid schemas, grammar made documents, raw bytes, several files, and coverage guided fuzzing (libFuzzer)."""
import os, re, subprocess
from ..common import *
from ..etree import E
from ..harness import Check
from .. import build, dumpproc

VALUES = ["", "0", "1", "-1", "2", "3", "4", "7", "8", "9", "15", "16", "31", "32", "63", "64", "65", "127", "128", "255", "256", "32767", "32768", "65535", "65536",
          "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
          "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0x", "0xff", "0XFFFFFFFFFFFFFFFF",
          "-0x1", "0x8000000000000000", "1 2", "1/0", "0/1", "1/2", "-1/3", "/", "1/", "1e400", "-1e400", "1e-400", "nan", "inf", "-inf", "+inf", "0.5", "1.", ".5", ".", "..", "a.", ".a", "a.b",
          "a.b.c", "^", "^a", "^^a", "^.", "\\^", "\\", "@", "@a", "@a.b", "^@a.b", "@.a", "@@", "$", "$a", "$a.b", "$.", "$$", "%", "%a", "%.", "!", "!$a", "!%a", "$a=1", "$a != $b",
          "$a>-1", "$a=", "=1", "=", "!=", "$a=^b", "$a=%b", "?$a", "!?$a", "!!$a", "#$a=1", "#$a", "$#a=1", "$?a", "$a=#$b", "$a=#", "$a.", "$a..b=1", "[", "]", "[]", "[1]", "[1,2]", "[2,1]", "[,]", "[1,]", "[,1]", "[1", "1,2",
          "[1,2,3]", "[-5, 5]", "[nan,1]", "[nan,nan]", "[min,max]", "[a.b,a.c]", "true", "false", "yes", "True", "int8", "uint8", "int16", "uint16", "int32", "uint32",
          "int64", "uint64", "intvar", "uintvar", "float", "double", "big", "little", "+", "-", "+a", "-a", "a,b", ",", ",,", "+a,b", "+a,,b", "ab", "abc", "f", "ff", "0g", "00 11",
          "version", "messageId", "length", "none", "replace", "extend", "any", "both", "client", "server", "exists", "missing", "tentative", "sum", "crc-16", "crc-32",
          "crc-ccitt", "xor", "custom", "ms", "km/h", "mhz", "a", "b", "c", "public", "1a", "a b", "\u00e9", "\U0001f600", "a" * 300, "9" * 400, "\x01?", "%s%n", "true1", "tru"]

with open(os.path.join(build.VERIF, "cpp", "dsl_names.inc")) as _f:
    NAMES = re.findall(r'"([^"]*)"', _f.read())
FIELDS = ["int", "enum", "set", "float", "string", "data", "list", "bundle", "bitfield", "optional", "variant", "ref"]


class San(dumpproc.Dumper):
    pass


def run(ctx, texts, what, flags="vd"):
    files = []
    for i, t in enumerate(texts):
        files.append(t[1:] if isinstance(t, str) and t.startswith("\0") else write(ctx, "h%d.xml" % i, t))
    if not files:
        files = [write(ctx, "h0.xml", "")]
    d = dumper(ctx, "asan")
    try:
        res = d.run(files, flags=flags, prefixes=["xt_"], timeout=60)
    except dumpproc.Crash as c:
        s = str(c)
        m = re.search(r"([A-Za-z_]+\.(?:cpp|h):\d+): .*Assertion `(.*?)'", s) or re.search(r"(runtime error: [^\n]*)", s) or re.search(r"(ERROR: AddressSanitizer: \S+)", s) \
            or re.search(r"(terminate called[^\n]*)", s) or re.search(r"(no answer within)", s)
        key = m.group(0)[:160] if m else s[:160]
        raise Violation("%s makes the parser fail: %s" % (what, key), sig=re.sub(r"0x[0-9a-f]+", "", key)[:80],
                        input="\n<!-- next file -->\n".join(t if isinstance(t, str) else repr(t) for t in texts), report=s[:3000])
    if not res["ok"] and not errors(res):
        raise Violation("%s is refused without any reported error" % what, sig="silent", input="\n<!-- next file -->\n".join(map(str, texts)))
    return res


CORE = ["", ".", "0", "-1", "$", "%", "^", "@", "a", "1", "64", "18446744073709551615", "nan", "4294967296", "a.", "@a", "$a", "[]", "[1,1]", ","]


def twist(r, v, schema="S"):
    m = r.below(12)
    return [v + ".", "." + v, v + "x", "-" + v, v + "0" * r.rng(1, 20), v[:-1], "@%s.%s" % (schema, v), "^" + v, "$" + v, v + "." + v, v + "," + v, v.rpartition(".")[0]][m]


def value(r, pool, orig=""):
    m = r.below(10)
    if m <= 3 and pool:
        return r.pick(pool)
    if m <= 5:
        return r.pick(CORE)
    if m == 6:
        return twist(r, orig or (r.pick(pool) if pool else "x"))
    return r.pick(VALUES)


def parents(doc):
    """(list, index) of every element below the root"""
    out = []
    def go(e):
        for lst in (e.kids, e.wrap[1] if e.wrap else [], e.post):
            for i, k in enumerate(lst):
                out.append((lst, i))
                go(k)
    go(doc)
    return out


def mutate(r, doc, pool, names):
    nodes = list(doc.walk())
    x = r.pick(nodes)
    m = r.below(12)
    if m <= 3 and x.props:
        q = r.pick(x.props)
        q[1] = value(r, pool, str(q[1]))
        return "value"
    if m == 4:
        x.props.append([r.pick(names), value(r, pool), "raw"])
        return "attr+"
    if m == 5 and x.props:
        del x.props[r.below(len(x.props))]
        return "attr-"
    par = parents(doc)
    if not par:
        x.props.append([r.pick(names), value(r, pool), "raw"])
        return "attr+"
    lst, i = r.pick(par)
    if m == 6:
        del lst[i]
        return "elem-"
    if m == 7:
        y = r.pick(par)
        lst.insert(i, y[0][y[1]].copy() if y[1] < len(y[0]) else lst[i].copy())
        return "copy"
    if m == 8:
        lst[i].tag = r.pick(FIELDS + names)
        return "tag"
    if m == 9:
        e = E(r.pick(names))
        if r.chance(50):
            e.p(r.pick(["name", "value", "field", "val", "idx"]), value(r, pool))
        lst.insert(i, e)
        return "elem+"
    if m == 10:
        lst[i] = E(r.pick(names), kids=[lst[i]])
        return "wrap"
    if x.props:
        q = x.props.pop(r.below(len(x.props)))
        x.kids.append(E(q[0]).p("value", q[1]))
        return "child"
    x.kids = x.kids[::-1]
    return "order"


def pool_of(doc):
    return sorted({q[1] for x in doc.walk() for q in x.props if isinstance(q[1], str)})


SIZES = [dict(nfields=(1, 3), nmsgs=(0, 1), depth=2), dict(nfields=(2, 5), nmsgs=(1, 3)), dict(nfields=(1, 2), nmsgs=(0, 2), depth=4, texts=False)]


def dup_attrs(e):
    """XML does not allow an attribute twice: later ones become children"""
    for x in e.walk():
        seen, keep = set(), []
        for q in x.props:
            if not re.match(r"^[A-Za-z_][\w.-]*$", q[0]):
                continue
            if q[0] in seen:
                continue
            seen.add(q[0])
            keep.append(q)
        x.props = keep


def clean(s):
    return "".join(c for c in s if c in "\t\n" or ord(c) >= 32)


def render_any(r, doc):
    dup_attrs(doc)
    for x in doc.walk():
        for q in x.props:
            q[1] = clean(str(q[1]))
            q[2] = "raw"
    return etree.render(doc)


def base_doc(r, **kw):
    b = build_proto(r, **(kw or r.pick(SIZES)))
    return b, proto.section_doc(b)


def mutated(r, ctx):
    b, doc = base_doc(r)
    pool = pool_of(doc)
    cls = []
    for i in range(r.weighted([(50, 1), (25, 2), (15, 3), (10, 6)])):
        cls.append(mutate(r, doc, pool, NAMES))
    t = render_any(r, doc)
    res = run(ctx, [t], "a mutated schema (%s)" % ",".join(cls))
    return Result(fingerprint(t), True, cls + ["accepted" if res["ok"] else "refused"], t)


def values(r, ctx):
    """one property of a valid schema with a hostile value, the document otherwise untouched"""
    b, doc = base_doc(r)
    byname = {}
    for x in doc.walk():
        for q in x.props:
            byname.setdefault((x.tag, q[0]), []).append((x, q))
    x, q = r.pick(byname[r.pick(sorted(byname))])
    m = r.below(10)
    q[1] = r.pick(CORE) if m < 4 else twist(r, str(q[1]), doc.get("name") or "S") if m < 6 else value(r, pool_of(doc) if m == 6 else [])
    t = render_any(r, doc)
    res = run(ctx, [t], "%s=\"%s\" of <%s>" % (q[0], q[1][:60], x.tag))
    return Result(fingerprint(t), True, ["attr:" + q[0], "accepted" if res["ok"] else "refused"], t)


def each(r, ctx):
    """every kind of property of one schema is dropped / made empty, every kind of element dropped / emptied, one at a time"""
    b, doc = base_doc(r, **r.pick([dict(nfields=(1, 3), nmsgs=(0, 2), depth=2), dict(nfields=(2, 4), nmsgs=(1, 2)), dict(nfields=(1, 2), nmsgs=(0, 1), depth=4, texts=False)]))
    render_any(r, doc)
    byname = {}
    for n, x in enumerate(doc.walk()):
        for i, q in enumerate(x.props):
            byname.setdefault((x.tag, q[0]), []).append((n, i))
        byname.setdefault((x.tag, ""), []).append((n, -1))
    ops = [(k, o) for k in sorted(byname) for o in (("drop", "blank") if k[1] else ("elem", "kids"))]
    for i in range(len(ops) - 1, 0, -1):
        j = r.below(i + 1)
        ops[i], ops[j] = ops[j], ops[i]
    n = acc = 0
    texts = []
    for k, o in ops[:25]:
        at, i = r.pick(byname[k])
        d = doc.copy()
        x = list(d.walk())[at]
        if o == "drop":
            del x.props[i]
        elif o == "blank":
            x.props[i][1] = ""
        elif o == "kids":
            x.kids, x.wrap, x.post = [], None, []
        else:
            hit = [(l, m) for l, m in parents(d) if l[m] is x]
            if not hit:
                continue
            del hit[0][0][hit[0][1]]
        t = etree.render(d)
        res = run(ctx, [t], "%s of <%s %s>" % (o, k[0], k[1]))
        n += 1
        acc += res["ok"]
        texts.append(t)
    return Result(fingerprint(texts), n > 5, [("each: accepted", acc), ("each: refused", n - acc)], texts[0] if texts else "")


def grammar(r, ctx):
    """a document made of known tags and properties in any order"""
    names = ["a", "b", "c", "d"]
    attrs = r.subset(NAMES, 25) or NAMES

    def val(n):
        if n == "name":
            return r.pick(names)
        if n in ("type",):
            return r.pick(["uint8", "int64", "uintvar", "float", "double", "int32", "uint16"])
        if n in ("field", "element", "reuse", "lengthPrefix", "countPrefix", "copyFieldsFrom", "elemLengthPrefix", "termSuffix", "interfaces"):
            return r.pick(["a", "b", "c", "a.b", "$a", "$b", "$c", "d"])
        if n in ("cond", "validCond", "readCond", "construct"):
            return r.pick(["$a=1", "$b", "$a.b!=$c", "%a", "?$a", "#$b>2", "$c=$d"])
        if n in ("bitLength", "length", "id", "val", "idx", "value", "count"):
            return r.pick(["0", "1", "2", "4", "7", "8", "16", "64", "300"])
        return r.pick(VALUES)

    def elem(d, tags):
        e = E(r.pick(tags))
        if r.chance(85):
            e.p("name", r.pick(names))
        for i in range(r.below(4)):
            n = r.pick(attrs if r.chance(50) else ["type", "length", "bitLength", "field", "element", "reuse", "val", "idx", "value", "cond", "lengthPrefix", "countPrefix", "defaultValue"])
            e.p(n, val(n))
        if e.tag in ("int", "enum", "float") and not e.has("type") and r.chance(80):
            e.p("type", val("type"))
        if d > 0:
            nxt = {"list": ["element"] + FIELDS, "bundle": ["members", "replace", "alias"] + FIELDS, "bitfield": ["members"] + FIELDS, "variant": ["members"] + FIELDS,
                   "optional": ["field", "and", "or", "cond"] + FIELDS, "and": ["cond", "or"], "or": ["cond", "and"], "enum": ["validValue"], "set": ["bit"],
                   "int": ["special", "validValue", "validRange"], "float": ["special", "validRange"], "message": ["fields", "replace", "alias"] + FIELDS,
                   "frame": ["layers", "sync", "size", "id", "value", "payload", "checksum", "custom"], "layers": ["sync", "size", "id", "value", "payload", "checksum", "custom"],
                   "interface": ["fields", "alias"] + FIELDS, "ns": ["fields", "messages", "interfaces", "frames", "ns", "message", "interface", "frame"],
                   "messages": ["message"], "interfaces": ["interface"], "frames": ["frame"], "sync": ["escField", "field"] + FIELDS}
            for i in range(r.below(4)):
                e.kids.append(elem(d - 1, nxt.get(e.tag, FIELDS) if r.chance(90) else NAMES))
        return e
    root = E("schema").p("name", "S").p("endian", "big")
    if r.chance(50):
        root.p(r.pick(NAMES), r.pick(VALUES))
    for i in range(r.rng(1, 4)):
        k = r.pick(["fields", "fields", "messages", "interfaces", "frames", "ns", "message", "interface", "frame"])
        if k == "fields":
            root.kids.append(E("fields", kids=[elem(r.rng(1, 4), FIELDS) for j in range(r.rng(1, 4))]))
        else:
            root.kids.append(elem(r.rng(2, 5), [k]))
    t = render_any(r, root)
    res = run(ctx, [t], "a document of known elements")
    return Result(fingerprint(t), len(list(root.walk())) > 3, ["accepted" if res["ok"] else "refused"], t)


TOKENS = [b"<", b">", b"/>", b"</", b"&", b"&#0;", b"&#x10ffff;", b"&lt;", b"&x;", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?xml version='1.0'?>", b"<!DOCTYPE schema [<!ENTITY x '&y;'>]>", b"\x00", b"\xff\xfe",
          b"\xef\xbb\xbf", b"'", b'"', b" xmlns='u'", b" xmlns:a='u'", b"<a:int name='q'/>", b"xml:lang='e'", b"\r\n", b"\xc3\x28"]


def raw(r, ctx):
    b, doc = base_doc(r, nfields=(1, 3), nmsgs=(0, 2), depth=2)
    t = etree.render(doc, etree.Noisy(r, cdata=True) if r.chance(40) else None).encode()
    cls = []
    for i in range(r.rng(1, 4)):
        m = r.below(7)
        p = r.below(len(t) + 1)
        if m == 0:
            t = t[:p] + bytes([r.below(256)]) + t[p + 1:]
        elif m == 1:
            t = t[:p] + r.pick(TOKENS) + t[p:]
        elif m == 2:
            t = t[:p]
        elif m == 3:
            k = r.below(60)
            t = t[:p] + t[p + k:]
        elif m == 4:
            k, o = r.below(200), r.below(len(t) + 1)
            t = t[:p] + t[o:o + k] + t[p:]
        elif m == 5:
            t = t.replace(b"UTF-8", r.pick([b"UTF-16", b"ISO-8859-1", b"x", b"", b"US-ASCII"]))
        else:
            s = t.decode("utf-8", "replace")
            t = s.encode(r.pick(["utf-16", "utf-16-le", "utf-32", "latin-1"]), "replace")
        cls.append("raw%d" % m)
        if not t:
            break
    res = run(ctx, [t], "a damaged document")
    return Result(fingerprint(t), True, cls + ["accepted" if res["ok"] else "refused"], repr(t[:3000]))


def files(r, ctx):
    """several files, some unusable"""
    texts, cls = [], []
    n = r.rng(1, 4)
    b, doc = base_doc(r)
    parts = [b.decls[i * len(b.decls) // n:(i + 1) * len(b.decls) // n] for i in range(n)]
    for i in range(n):
        d = proto.section_doc(b, parts[i], first=i == 0)
        m = r.below(8)
        if m == 0:
            texts.append("\0" + r.pick(["/nonexistent/file.xml", ctx.tmp, "/dev/null", ""]))
            cls.append("nofile")
            continue
        if m == 1:
            texts.append(r.pick(["", " ", "<schema/>", "<x/>", "<schema name='S'/>", "<schema name='T' endian='little' version='1'/>", "<ns name='n'/>",
                                 "<schema name='S'><schema/></schema>", "text"]))
            cls.append("tiny")
            continue
        if m == 2:
            d = doc
            cls.append("whole-again")
        if m == 3:
            d.props = []
        if m == 4:
            d.setp("name", r.pick(["Other", "a b", "", d.get("name") or "x"]))
            cls.append("other-name")
        if m >= 6:
            dd = d.copy()
            mutate(r, dd, pool_of(doc), NAMES)
            d = dd
            cls.append("mutated")
        d = d.copy()
        texts.append(render_any(r, d))
    res = run(ctx, texts, "a sequence of files (%s)" % ",".join(cls), flags=r.pick(["vd", "vdm", "vdi", "vdmiI"]))
    return Result(fingerprint(texts), len(texts) > 1 or bool(cls), cls + ["accepted" if res["ok"] else "refused"], "\n<!-- next -->\n".join(texts))


LENGTH = 4000 if build.os.environ.get("VERIF_TIER", "quick") == "quick" else 200000


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")


def FUZZ():
    return os.path.join(build.BUILD, "asan", "vt_fuzz_parse")


def judge(ctx, data):
    """runs one input of the fuzzer on its own"""
    f = write(ctx, "artifact", data)
    p = subprocess.run([FUZZ(), "-timeout=60", "-rss_limit_mb=3000", f], env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ctx.tmp)
    if p.returncode:
        out = p.stdout.decode(errors="replace")
        m = re.search(r"([A-Za-z_]+\.(?:cpp|h):\d+): .*Assertion `(.*?)'", out) or re.search(r"(runtime error: [^\n]*)", out) or re.search(r"(ERROR: \S+: [^\n]*)", out)
        raise Violation("coverage guided fuzzing makes the parser fail: %s" % (m.group(0)[:160] if m else out[-300:]), sig="fuzz", confirmed=True, raw=data.hex(),
                        input=data.decode("utf-8", "replace"), report=out[-3500:])


def coverage(r, ctx):
    """one bounded libFuzzer run over a small generated corpus"""
    d = ctx.fresh("corpus")
    k = 0
    for i in range(30):
        try:
            b, doc = base_doc(r)
        except Skip:
            continue
        t = etree.render(doc, etree.Noisy(r) if r.chance(30) else None).encode()
        if len(t) < 6000:
            with open(os.path.join(d, "c%03d" % k), "wb") as f:
                f.write(t)
            k += 1
    seed = r.rng(1, (1 << 30))
    art = ctx.fresh("art")
    p = subprocess.run([FUZZ(), "-seed=%d" % seed, "-runs=%d" % LENGTH, "-max_len=9000", "-timeout=60", "-rss_limit_mb=3000",
                        "-print_final_stats=1", "-artifact_prefix=%s/" % art, d], env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
    out = p.stdout.decode(errors="replace")
    if p.returncode != 0:
        names = sorted(os.listdir(art))
        if not names:
            raise RuntimeError("libFuzzer ended with status %d: %s" % (p.returncode, out[-2000:]))
        path = os.path.join(art, names[0])
        small = os.path.join(art, "small")
        subprocess.run([FUZZ(), "-minimize_crash=1", "-runs=3000", "-max_total_time=40", "-exact_artifact_path=" + small, path], env=ENV, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for f in (small, path):
            if os.path.exists(f):
                with open(f, "rb") as h:
                    data = h.read()
                judge(ctx, data)
        raise RuntimeError("libFuzzer reported a failure which does not happen again: %s" % out[-2000:])
    m = re.search(r"stat::number_of_executed_units:\s*(\d+)", out)
    cov = re.findall(r"cov: (\d+)", out)
    return Result(fingerprint(seed), True, [("libFuzzer executions", int(m.group(1)) if m else 0)], "libFuzzer seed %d, %s executions, %s covered edges"
                  % (seed, m.group(1) if m else "?", cov[-1] if cov else "?"))


coverage.reproduce = lambda info: lambda r, ctx: judge(ctx, bytes.fromhex(info["raw"]))


def setup():
    build.ensure(["vt_dumper", "vt_fuzz_parse"], "asan")


CHECK = Check("C07", [
    ("mutated", mutated, 14000, 300000),
    ("values", values, 14000, 300000),
    ("each", each, 2000, 60000),
    ("grammar", grammar, 14000, 300000),
    ("raw", raw, 4000, 120000),
    ("files", files, 4000, 120000),
    ("coverage", coverage, 16, 64),
], "the input differs from a valid schema by a mutation or is made of the known elements (more than three of them)",
    setup=setup,
    assumptions=["the library is compiled by clang with AddressSanitizer, UndefinedBehaviorSanitizer and assertions enabled; memory leaks are not judged",
                 "every accessor used by cpp/dump_model.h (all accessors of the parse interfaces) is called on accepted input"])
