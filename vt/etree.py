"""Schema text: element tree with typed properties, canonical writer and notation-varying writer."""

# property kinds: name (identifier / path, exact), num (integer literal), kw (case-insensitive keyword), bool, unit,
# text (free text), fp, hex, raw (anything written as is)


class E:
    __slots__ = ("tag", "props", "kids", "wrap", "uid", "post")

    def __init__(self, tag, props=None, kids=None, wrap=None):
        self.tag = tag
        self.props = list(props or [])      # [name, value, kind]
        self.kids = list(kids or [])        # child elements which are not simple properties (before members)
        self.wrap = wrap                    # (wrapper tag, [E], direct allowed) : members / fields / layers
        self.post = []                      # children after the members (aliases, ...)

    def p(self, name, value, kind="raw"):
        self.props.append([name, value, kind])
        return self

    def has(self, name):
        return any(q[0] == name for q in self.props)

    def get(self, name):
        for q in self.props:
            if q[0] == name:
                return q[1]
        return None

    def setp(self, name, value, kind="raw"):
        for q in self.props:
            if q[0] == name:
                q[1] = value
                return
        self.p(name, value, kind)

    def drop(self, name):
        self.props = [q for q in self.props if q[0] != name]

    def copy(self):
        e = E(self.tag, [list(q) for q in self.props], [k.copy() for k in self.kids])
        if self.wrap:
            e.wrap = (self.wrap[0], [k.copy() for k in self.wrap[1]], self.wrap[2])
        e.post = [k.copy() for k in self.post]
        return e

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()
        if self.wrap:
            for k in self.wrap[1]:
                yield from k.walk()
        for k in self.post:
            yield from k.walk()


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


UNIT_SYN = {
    "ns": ["nanosec", "nanosecs", "nanosecond", "nanoseconds"], "us": ["microsec", "microsecs", "microsecond", "microseconds"],
    "ms": ["millisec", "millisecs", "millisecond", "milliseconds"], "s": ["sec", "secs", "second", "seconds"],
    "min": ["mins", "minute", "minutes"], "h": ["hour", "hours"], "d": ["day", "days"], "w": ["week", "weeks"],
    "nm": ["nanometer", "nanometre", "nanometers", "nanometres"], "um": ["micrometer", "micrometre", "micrometers"],
    "mm": ["millimeter", "millimetre", "millimeters"], "cm": ["centimeter", "centimetre", "centimeters"],
    "m": ["meter", "metre", "meters", "metres"], "km": ["kilometer", "kilometre", "kilometers"],
    "nm/s": ["nmps", "nanometer/second", "nanometers/second"], "um/s": ["umps", "micrometers/second"],
    "mm/s": ["mmps", "millimeters/second"], "cm/s": ["cmps", "centimeters/second"], "m/s": ["mps", "meters/second", "metres/second"],
    "km/s": ["kmps", "kps", "kilometers/second"], "km/h": ["kmph", "kph", "kilometers/hour"], "hz": ["hertz"],
    "khz": ["kilohertz"], "mhz": ["megahertz"], "ghz": ["gigahertz"], "deg": ["degree", "degrees"], "rad": ["radian", "radians"],
    "na": ["nanoamp", "nanoamps"], "ua": ["microamp", "microamps"], "ma": ["milliamp", "milliamps"], "a": ["amp", "amps", "ampere", "amperes"],
    "ka": ["kiloamp", "kiloamps"], "nv": ["nanovolt", "nanovolts"], "uv": ["microvolt", "microvolts"], "mv": ["millivolt", "millivolts"],
    "v": ["volt", "volts"], "kv": ["kilovolt", "kilovolts"], "b": ["byte", "bytes"], "kb": ["kilobyte", "kilobytes"],
    "mb": ["megabyte", "megabytes"], "gb": ["gigabyte", "gigabytes"], "tb": ["terabyte", "terabytes"],
}
UNITS = list(UNIT_SYN)   # order equals the order of the enumeration of the library (1 = ns ...)


class Canon:
    """Everything as attributes, members in wrappers."""
    def val(self, v, kind):
        return v

    def elem(self, e, ind, out):
        pad = "  " * ind
        multi = {}
        for n, v, k in e.props:
            multi.setdefault(n, []).append((v, k))
        attrs = "".join(' %s="%s"' % (n, esc(self.val(v[0][0], v[0][1]))) for n, v in multi.items())
        kids = []
        for n, v in multi.items():
            for x, k in v[1:]:
                kids.append((n, x, k))
        if not kids and not e.kids and not e.wrap and not e.post:
            out.append("%s<%s%s/>" % (pad, e.tag, attrs))
            return
        out.append("%s<%s%s>" % (pad, e.tag, attrs))
        for n, x, k in kids:
            out.append('%s  <%s value="%s"/>' % (pad, n, esc(self.val(x, k))))
        for k in e.kids:
            self.elem(k, ind + 1, out)
        if e.wrap:
            out.append("%s  <%s>" % (pad, e.wrap[0]))
            for k in e.wrap[1]:
                self.elem(k, ind + 2, out)
            out.append("%s  </%s>" % (pad, e.wrap[0]))
        for k in e.post:
            self.elem(k, ind + 1, out)
        out.append("%s</%s>" % (pad, e.tag))


def render(e, style=None):
    out = ['<?xml version="1.0" encoding="UTF-8"?>']
    (style or Canon()).elem(e, 0, out)
    return "\n".join(out) + "\n"


def norm_ws(s):
    return " ".join(s.split())


class Noisy(Canon):
    """Random, equivalent spelling of the same tree."""
    # elements whose property given as child may carry only text / value
    def __init__(self, r, cdata=False, level=50):
        self.r = r
        self.cdata = cdata
        self.level = level
        self.used = set()

    def case(self, s):
        m = self.r.below(4)
        self.used.add("case")
        if m == 1:
            return s.upper()
        if m == 2:
            return s[:1].upper() + s[1:]
        if m == 3:
            return "".join(c.upper() if self.r.below(2) else c.lower() for c in s)
        return s

    def val(self, v, kind):
        r = self.r
        if not r.chance(self.level):
            return v
        if kind == "kw":
            return self.case(v)
        if kind == "bool":
            self.used.add("bool")
            t = v.lower() in ("true", "1")
            return r.pick(["true", "1", "True", "TRUE", "tRuE"] if t else ["false", "0", "False", "FALSE"])
        if kind == "unit":
            self.used.add("unit")
            return self.case(r.pick([v] + UNIT_SYN.get(v.lower(), [])))
        if kind == "num":
            try:
                n = int(v, 10)
            except ValueError:
                return v
            self.used.add("num")
            neg = "-" if n < 0 else ""
            a = abs(n)
            return r.pick([v, "%s0x%x" % (neg, a), "%s0x%X" % (neg, a), "%s0X%X" % (neg, a), "%s0x%08x" % (neg, a)])
        if kind == "hex":
            self.used.add("hex")
            s = self.case(v) if r.chance(50) else v
            if r.chance(50) and len(s) >= 4:
                s = s[:2] + " " + s[2:]
            return s
        return v

    def ws(self):
        return self.r.pick(["", " ", "\n", "\t", "  \n "])

    def text(self, s):
        """character data spelling"""
        r = self.r
        out = []
        for ch in s:
            if ord(ch) > 32 and r.chance(6):
                out.append(r.pick(["&#%d;" % ord(ch), "&#x%x;" % ord(ch)]))
                self.used.add("charref")
            else:
                out.append({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;"}.get(ch, ch))
        return "".join(out)

    def attr(self, n, v):
        r = self.r
        t = self.text(v)
        if r.chance(30) and v == v.strip() and v:
            t = r.pick([" ", "  ", ""]) + t + r.pick([" ", "", "  "])
            self.used.add("attrws")
        if r.chance(20):
            self.used.add("quote")
            return "%s='%s'" % (n, t.replace("'", "&apos;"))
        return "%s%s=%s\"%s\"" % (n, r.pick(["", " "]), r.pick(["", " "]), t)

    def misc(self):
        r = self.r
        if r.chance(12):
            self.used.add("comment")
            return r.pick(["<!-- x -->", "<!-- <int name=\"z\"/> -->", "<!---->", "\n<!-- a\n b -->\n"])
        return ""

    def elem(self, e, ind, out):
        r = self.r
        seen = {}
        attrs, childs = [], []
        force_attr = bool(e.wrap and e.wrap[2] and not e.kids and not e.post and r.chance(40))
        names = [q[0] for q in e.props]
        if force_attr and len(set(names)) != len(names):
            force_attr = False
        if e.tag in NO_CHILD_PROPS:
            force_attr = True
        for n, v, k in e.props:
            s = self.val(v, k)
            as_child = n in seen or (not force_attr and r.chance(self.level // 2))
            if k == "extra" or (n == "value" and e.tag in VALUE_ATTR):
                as_child = False
            if as_child and n not in seen and (s == "" or norm_ws(s) != s or n in ATTR_ONLY):
                as_child = False
            seen[n] = 1
            if not as_child:
                attrs.append(self.attr(n, s))
                continue
            self.used.add("childprop")
            if r.chance(50) or s == "" or norm_ws(s) != s:
                childs.append("<%s %s/>" % (n, self.attr("value", s)) if r.chance(50) else "<%s %s></%s>" % (n, self.attr("value", s), n))
            else:
                self.used.add("textprop")
                t = s
                if r.chance(40):
                    t2 = t.replace(" ", r.pick(["  ", "\n", " \t "]))
                else:
                    t2 = t
                body = self.text(t2)
                if self.cdata and r.chance(25) and "]]>" not in t2:
                    self.used.add("cdata")
                    body = "<![CDATA[%s]]>" % t2
                childs.append("<%s>%s%s%s</%s>" % (n, self.ws(), body, self.ws(), n))
        attrs = r.shuffle(attrs) if r.chance(60) else attrs
        head = "<" + e.tag + "".join(r.pick([" ", "\n  ", "  "]) + a for a in attrs)
        if not childs and not e.kids and not e.wrap and not e.post:
            out.append(head + r.pick(["/>", " />", "></%s>" % e.tag, ">\n</%s>" % e.tag]))
            return
        out.append(head + ">")
        parts = []
        for c in childs:
            parts.append([c])
        for k in e.kids:
            o = []
            self.elem(k, 0, o)
            parts.append(o)
        if e.wrap:
            o = []
            wrapped = not force_attr or e.tag in NO_CHILD_PROPS
            if wrapped:
                o.append("<%s>" % e.wrap[0] + self.misc())
            else:
                self.used.add("direct")
            for k in e.wrap[1]:
                self.elem(k, 0, o)
                o.append(self.misc())
            if wrapped:
                o.append("</%s>" % e.wrap[0])
            parts.append(o)
        for k in e.post:
            o = []
            self.elem(k, 0, o)
            parts.append(o)
        # simple properties may come after the other children
        if childs and r.chance(40):
            nc = len(childs)
            parts = parts[nc:] + parts[:nc]
            self.used.add("proporder")
        for o in parts:
            out.append(self.misc())
            out += o
        out.append(self.misc() + "</%s>" % e.tag)


# properties that are only looked for as attributes (a child of the same name means something else)
ATTR_ONLY = {"validRange", "validValue", "validMin", "validMax", "field", "element", "lengthPrefix", "countPrefix",
             "elemLengthPrefix", "termSuffix", "cond", "and", "or", "escField", "replace", "construct_", "message_", "frame_"}
NO_CHILD_PROPS = set()
# elements which are a property of their parent as well: the value has to be found right there
VALUE_ATTR = {"validRange", "validValue", "validMin", "validMax", "cond", "validCond", "readCond", "construct"}
