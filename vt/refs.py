"""Rewriting of the references inside a schema document."""
import re

PATHS = {"reuse", "field", "element", "lengthPrefix", "countPrefix", "elemLengthPrefix", "termSuffix", "copyFieldsFrom", "copyValidCondFrom",
         "interfaces", "copyCodeFrom", "copyConstructFrom", "copyReadCondFrom", "id"}
VALUES = {"val", "defaultValue", "defaultValidValue", "validValue", "validRange", "validMin", "validMax", "value", "description", "reservedValue"}


def rewrite(e, fn, paths):
    """fn(path of the referenced element, whole reference) -> new reference; paths: known elements"""
    def one(tok):
        pre = ""
        t = tok
        if t[:1] == "^":
            pre, t = "^", t[1:]
        for p in longest:
            if t == p or t.startswith(p + "."):
                return pre + fn(p, t)
        return tok
    longest = sorted(paths, key=len, reverse=True)
    for x in e.walk():
        for q in x.props:
            n, v, k = q
            if k not in ("raw",) or not isinstance(v, str):
                continue
            if n in PATHS and x.tag != "alias" and not v.startswith("$"):
                q[1] = one(v)
            elif n in VALUES:
                if n in ("value", "validRange") and v.startswith("["):
                    q[1] = re.sub(r"[^\[\], ]+", lambda m: one(m.group(0)), v)
                elif n == "value" and x.tag in ("cond", "validCond", "readCond", "construct"):
                    continue
                elif n == "value" and "$" in v:
                    continue
                else:
                    q[1] = one(v)
