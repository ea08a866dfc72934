"""Independent encoder / decoder of the protocols described by proto.py models (the executable subset), with the declared
default values, validity and presence rules.  Used as the oracle of the code generated by commsdsl2comms."""
import math, struct
from .proto import NYD, deref, signed, is_var, tlen, trange, brange, wbits, int_range

OK, NED, PROTO, BAD = 0, 2, 3, 6       # comms::ErrorStatus
TENT, EXISTS, MISSING = 0, 1, 2


class NotEnough(Exception):
    pass


class Bad(Exception):
    pass


def settled(toks):
    """the token list without the contents of what is missing"""
    toks = toks.split() if isinstance(toks, str) else toks
    out, pos = [], 0

    def tree(pos, keep):
        t = toks[pos]
        if keep:
            out.append(t)
        if t[0] == "x":
            return pos + 1
        if t in ("i", "f"):
            if keep:
                out.append(toks[pos + 1])
            return pos + 2
        n = toks[pos + 1]
        if keep:
            out.append(n)
        pos += 2
        if t in ("l", "b"):
            for _ in range(int(n)):
                pos = tree(pos, keep)
            return pos
        if t == "v":
            return pos if n == "-" else tree(pos, keep)
        assert t == "o", t
        return tree(pos, keep and n != "2")
    while pos < len(toks):
        if toks[pos] in ("b", "l", "o", "v", "i", "f"):
            pos = tree(pos, True)
        else:
            out.append(toks[pos])
            pos += 1
    return out


class Discard(Exception):
    """the value has no encoding"""


class Ctx:
    def __init__(self, b, version_dep=None, minrem=0):
        self.b = b
        self.V = b.V
        self.minrem = minrem
        self.iface = list(b.ifaces.values())[0] if b.ifaces else None
        ver = self.iface is not None and any(deref(x).sem == "version" or x.sem == "version" for x in self.iface.fields)
        self.vd = ver if version_dep is None else version_dep
        self.dirty = False
        self.memo = {}
        self.globs = {id(f) for f in b.fields.values()}
        self.ifields = [Node(x, self, 0) for x in self.iface.fields] if self.iface else []
        self.veridx = next((i for i, x in enumerate(self.iface.fields) if x.sem == "version" or deref(x).sem == "version"), None) if self.iface else None

    def node(self, f, since=None, floor=0):
        k = (id(f), since, floor)
        if k not in self.memo:
            self.memo[k] = Node(f, self, since, floor)
        return self.memo[k]

    def fields(self, msg):
        return [self.node(x, msg.since) for x in msg.fields]

    def version(self, tv):
        return tv[self.veridx] & 0xffffffff if self.vd else self.V       # COMMS holds versions as unsigned


def mask(n):
    return (1 << n) - 1


def vrange(f):
    """range of the C++ type of the value"""
    if not is_var(f.type):
        return trange(f.type)
    n = 16 if f.len <= 2 else 32 if f.len <= 4 else 64
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed(f.type) else (0, mask(n))


def cast(v, t):
    """C++ conversion to the integral type"""
    n = min(8, tlen(t)) * 8
    v &= mask(n)
    if signed(t) and v >> (n - 1):
        v -= 1 << n
    return v


def fbits(v, ty):
    if v != v:
        return "nan"
    if ty == "float":
        try:
            return struct.unpack("<I", struct.pack("<f", v))[0]
        except OverflowError:
            return struct.unpack("<I", struct.pack("<f", math.copysign(math.inf, v)))[0]
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def fval(bits, ty):
    if bits == "nan":
        return math.nan
    return struct.unpack("<f", struct.pack("<I", bits))[0] if ty == "float" else struct.unpack("<d", struct.pack("<Q", bits))[0]


def alive(since, depr, ver):
    return since <= ver and (depr == NYD or ver < depr)


class Node:
    """field in its place: wrap tells whether its presence depends on the version"""

    def __init__(self, f, ctx, parent_since, floor=0):
        self.f, self.ctx = f, ctx
        # version it is there from, the copied members may be older than the message
        since = f.since if id(f) in ctx.globs else max(floor, parent_since or 0, f.since)
        gone = f.__dict__.get("removed", False) and f.depr != NYD
        self.wrap = parent_since is not None and ctx.vd and (f.since > ctx.minrem or gone) and (f.since > parent_since or gone)
        self.kind = f.kind
        k = f.kind
        nd = lambda x: ctx.node(x, None, since)
        if k == "ref":
            self.sub = nd(f.field)
        elif k == "optional":
            self.sub = nd(f.field)
        elif k == "list":
            self.elem = nd(f.elem)
            self.cprefix, self.lprefix, self.elprefix = [nd(x) if x is not None else None for x in (f.cprefix, f.lprefix, f.elprefix)]
        elif k in ("bundle", "bitfield", "variant"):
            self.members = [ctx.node(m, since) for m in f.members]
        elif k in ("string", "data"):
            self.prefix = nd(f.prefix) if f.prefix is not None else None
        self.lenidx = next((i for i, m in enumerate(f.members) if m.sem == "length"), None) if k == "bundle" else None

    def __repr__(self):
        return "Node(%s %s)" % (self.kind, self.f.name)

    # ------------------------------------------------------------------------------------------------- existence
    def exists(self, ver):
        f = self.f
        return f.since <= ver and (not f.removed or f.depr == NYD or ver < f.depr)

    # --------------------------------------------------------------------------------------------------- default
    def default(self, ver):
        v = self.default_in(ver)
        if self.wrap:
            return [EXISTS if self.exists(ver) else MISSING, v]
        return v

    def default_in(self, ver):
        f, k = self.f, self.kind
        if k == "int":
            if f.sem == "version" and f.defv == 0:
                return self.ctx.V
            return f.defv
        if k == "enum":
            return f.defv
        if k == "set":
            v = 0
            info = {b[5]: b for b in f.bitsInfo}
            for i in range(f._bits or f.len * 8):
                if info[i][6] if i in info else f.defBit:
                    v |= 1 << i
            return v
        if k == "float":
            return fbits(f.defv, f.type)
        if k == "string":
            return f.defv.encode()
        if k == "data":
            return f.defv.encode("latin-1")
        if k == "list":
            return []
        if k in ("bundle", "bitfield"):
            return self.fixlen([m.default(ver) for m in self.members], ver)
        if k == "ref":
            return self.sub.default(ver)
        if k == "optional":
            return [f.mode, self.sub.default(ver)]
        if k == "variant":
            return None if f.defIdx < 0 else [f.defIdx, self.members[f.defIdx].default(ver)]
        raise AssertionError(k)

    def fixlen(self, vals, ver):
        if self.lenidx is not None:
            n = sum(self.members[i].length(vals[i], ver) for i in range(self.lenidx + 1, len(vals)))
            m = self.members[self.lenidx].f
            vals[self.lenidx] = cast(n, deref(m).type)
        return vals

    # -------------------------------------------------------------------------------------------------- validity
    def alive(self, since, depr, ver):
        if depr == self.f.depr != NYD and ver >= depr or since == self.f.since and ver < since:
            raise Discard()         # the field as a whole is deprecated or not introduced: nothing is said about its values
        return alive(since, depr, ver)

    def valid(self, v, ver, iv=None):
        if self.wrap:
            if v[0] == MISSING:
                return True
            v = v[1]
        return self.valid_in(v, ver, iv)

    def valid_in(self, v, ver, iv=None):
        f, k = self.f, self.kind
        vcv = getattr(f, "vcv", False) and self.ctx.vd
        if k == "int":
            return not f.valid or any(lo <= v <= hi and (not vcv or self.alive(s, d, ver)) for lo, hi, s, d in f.valid)
        if k == "enum":
            return any(x[5] == v and (not vcv or self.alive(x[1], x[2], ver)) for x in f.values)
        if k == "set":
            info = {}
            for b in f.bitsInfo:
                info.setdefault(b[5], b)
            for i in range(f._bits or f.len * 8):
                bit = bool(v >> i & 1)
                if i not in info:
                    if bit != f.resBit:
                        return False
                else:
                    b = info[i]
                    if (b[7] or (vcv and not self.alive(b[1], b[2], ver))) and bit != b[8]:
                        return False
            return True
        if k == "float":
            x = fval(v, f.type)
            if not f.valid:
                return True
            for lo, hi, s, d in f.valid:
                if vcv and not self.alive(s, d, ver):
                    continue
                if lo != lo:
                    if x != x:
                        return True
                elif math.isinf(lo) and lo == hi:
                    if x == lo:
                        return True
                elif x == x and fcmp(lo, f.type) <= x <= fcmp(hi, f.type):
                    return True
            return False
        if k in ("string", "data"):
            if not f.valid:
                return True
            enc = "utf-8" if k == "string" else "latin-1"
            return any(x[0].encode(enc) == v for x in f.valid)
        if k == "list":
            return all(self.elem.valid(x, ver) for x in v)
        if k in ("bundle", "bitfield"):
            if not all(m.valid(x, ver) for m, x in zip(self.members, v)):
                return False
            return f.validCond is None or cond_eval(f.validCond, self.members, v, self.ctx, iv)
        if k == "ref":
            return self.sub.valid(v, ver)
        if k == "optional":
            return v[0] == MISSING or self.sub.valid(v[1], ver)
        if k == "variant":
            return v is not None and self.members[v[0]].valid(v[1], ver)
        raise AssertionError(k)

    def failinv(self):
        return self.f.failInv

    # -------------------------------------------------------------------------------------------------- encoding
    def length(self, v, ver):
        return len(self.encode(v, ver))

    def encode(self, v, ver):
        if self.wrap:
            return self.encode_in(v[1], ver) if v[0] == EXISTS else b""
        return self.encode_in(v, ver)

    def order(self):
        return "big" if self.f.endian == 1 else "little"

    def raw(self, v):
        """the value as unsigned number of the serialized bits"""
        f = self.f
        return (v + getattr(f, "off", 0)) & mask(wbits(f)) if self.kind != "set" else v & mask(f._bits or f.len * 8)

    def encode_in(self, v, ver):
        f, k = self.f, self.kind
        if k in ("int", "enum") and is_var(f.type):
            return var_bytes(v + getattr(f, "off", 0), signed(f.type), f.endian == 1)
        if k in ("int", "enum", "set"):
            n = f.len
            return ((v + getattr(f, "off", 0)) & mask(8 * n)).to_bytes(n, self.order())
        if k == "float":
            n = 4 if f.type == "float" else 8
            if v == "nan":
                return (0x7fc00000 if n == 4 else 0x7ff8 << 48).to_bytes(n, self.order())
            return v.to_bytes(n, self.order())
        if k in ("string", "data"):
            if f.len:
                return v[:f.len].ljust(f.len, b"\0")
            if self.prefix is not None:
                return self.prefix.encode(self.fit(self.prefix, len(v)), ver) + v
            if k == "string" and f.zterm:
                return v + b"\0"
            return v
        if k == "list":
            items = v
            if f.count:
                items = v[:f.count] + [self.elem.default(ver)] * (f.count - len(v))
            out = b""
            for i, x in enumerate(items):
                e = self.elem.encode(x, ver)
                if self.elprefix is not None and (i == 0 or not f.elemFixed):
                    out += self.elprefix.encode(self.fit(self.elprefix, len(e)), ver)
                out += e
            if not f.count and self.cprefix is not None:
                return self.cprefix.encode(self.fit(self.cprefix, len(v)), ver) + out
            if not f.count and self.lprefix is not None:
                return self.lprefix.encode(self.fit(self.lprefix, len(out)), ver) + out
            return out
        if k == "bundle":
            return b"".join(m.encode(x, ver) for m, x in zip(self.members, v))
        if k == "bitfield":
            pos, al = 0, 0
            for m, x in zip(self.members, v):
                w = m.bits()
                al |= (m.numraw(x) & mask(w)) << pos
                pos += w
            return al.to_bytes(pos // 8, self.order())
        if k == "ref":
            return self.sub.encode(v, ver)
        if k == "optional":
            return self.sub.encode(v[1], ver) if v[0] == EXISTS else b""
        if k == "variant":
            return b"" if v is None else self.members[v[0]].encode(v[1], ver)
        raise AssertionError(k)

    def fit(self, pref, n):
        lo, hi = int_range(pref.f)
        if not lo <= n <= hi:
            raise Discard()
        return n

    def bits(self):
        f = self.f
        if f._bits:
            return f._bits
        if self.kind == "ref":
            return self.sub.f.len * 8
        return f.len * 8

    def numraw(self, v):
        if self.kind == "ref":
            return self.sub.numraw(v)
        return v + getattr(self.f, "off", 0)

    # -------------------------------------------------------------------------------------------------- decoding
    def decode(self, buf, pos, end, ver, fl=None, fc=None, cur=None):
        """(value, new position); cur: the value before the read (optional mode)"""
        if self.wrap:
            ex = self.exists(ver)
            if cur is not None:
                ex = cur[0] != MISSING
            if not ex:
                return [MISSING, cur[1] if cur is not None else self.default_in(ver)], pos
            v, pos = self.decode_in(buf, pos, end, ver, fl, fc, cur[1] if cur is not None else None)
            return [EXISTS, v], pos
        return self.decode_in(buf, pos, end, ver, fl, fc, cur)

    def decode_in(self, buf, pos, end, ver, fl=None, fc=None, cur=None):
        v, pos = self.decode_raw(buf, pos, end, ver, fl, fc, cur)
        if self.failinv() and self.kind != "ref" and not self.valid_in(v, ver):
            raise Bad()
        return v, pos

    def decode_raw(self, buf, pos, end, ver, fl, fc, cur):
        f, k = self.f, self.kind
        if k in ("int", "enum") and is_var(f.type):
            bs = []
            while True:
                if pos >= end:
                    raise NotEnough()
                if len(bs) >= f.len:
                    raise Bad()
                c = buf[pos]
                pos += 1
                bs.append(c & 0x7f)
                if not c & 0x80:
                    break
            if f.endian == 1:
                bs.reverse()
            v = sum(x << (7 * i) for i, x in enumerate(bs)) & mask(64)
            n = min(64, 7 * len(bs))
            if signed(f.type) and v >> (n - 1) & 1:
                v -= 1 << n
            v -= getattr(f, "off", 0)
            lo, hi = vrange(f)
            if not lo <= v <= hi:
                raise Discard()         # does not fit the type of the value
            return v, pos
        if k in ("int", "enum", "set"):
            if end - pos < f.len:
                raise NotEnough()
            return self.fromraw(int.from_bytes(buf[pos:pos + f.len], self.order()), f.len * 8), pos + f.len
        if k == "float":
            n = 4 if f.type == "float" else 8
            if end - pos < n:
                raise NotEnough()
            v = int.from_bytes(buf[pos:pos + n], self.order())
            x = fval(v, f.type)
            return v, pos + n
        if k in ("string", "data"):
            if f.len:
                if end - pos < f.len:
                    raise NotEnough()
                v = bytes(buf[pos:pos + f.len])
                return (v.split(b"\0")[0] if k == "string" else v), pos + f.len
            if self.prefix is not None:
                n, pos = self.prefix.decode(buf, pos, end, ver)
                if end - pos < n:
                    raise NotEnough()
                return bytes(buf[pos:pos + n]), pos + n
            if k == "string" and f.zterm:
                i = bytes(buf[pos:end]).find(b"\0")
                if i < 0:
                    raise NotEnough()
                return bytes(buf[pos:pos + i]), pos + i + 1
            if fl is not None:
                if end - pos < fl:
                    raise NotEnough()
                return bytes(buf[pos:pos + fl]), pos + fl
            return bytes(buf[pos:end]), end
        if k == "list":
            if f.count:
                return self.dec_n(buf, pos, end, ver, f.count)
            if self.cprefix is not None:
                n, pos = self.cprefix.decode(buf, pos, end, ver)
                return self.dec_n(buf, pos, end, ver, n)
            if self.lprefix is not None:
                n, pos = self.lprefix.decode(buf, pos, end, ver)
                return self.dec_len(buf, pos, end, ver, n)
            if fc is not None:
                return self.dec_n(buf, pos, end, ver, fc)
            if fl is not None:
                return self.dec_len(buf, pos, end, ver, fl)
            return self.dec_all(buf, pos, end, ver)
        if k == "bundle":
            v = cur if cur is not None else self.default_in(ver)
            return dec_seq(self.members, list(v), buf, pos, end, ver, self.ctx, self.lenidx, None)
        if k == "bitfield":
            n = sum(m.bits() for m in self.members) // 8
            if end - pos < n:
                raise NotEnough()
            al = int.from_bytes(buf[pos:pos + n], self.order())
            out, at = [], 0
            for m in self.members:
                w = m.bits()
                x = m
                while x.kind == "ref":
                    x = x.sub
                val = x.fromraw(al >> at & mask(w), w)
                if x.failinv() and not x.valid_in(val, ver):
                    raise Bad()
                out.append(val)
                at += w
            return out, pos + n
        if k == "ref":
            return self.sub.decode(buf, pos, end, ver, fl, fc, cur)
        if k == "optional":
            mode = cur[0] if cur is not None else f.mode
            inner = cur[1] if cur is not None else None
            keep = inner if inner is not None else self.sub.default(ver)
            if mode == MISSING:
                return [MISSING, keep], pos
            if mode == TENT and pos == end:
                return [MISSING, keep], pos
            try:
                v, p = self.sub.decode(buf, pos, end, ver, cur=inner)
            except (NotEnough, Bad):
                if not f.missRF:
                    raise
                self.ctx.dirty = True
                return [MISSING, keep], pos
            if f.missInv and not self.sub.valid(v, ver):
                self.ctx.dirty = True
                return [MISSING, keep], pos
            return [EXISTS, v], p
        if k == "variant":
            err = Bad
            for i, m in enumerate(self.members):
                try:
                    d = self.ctx.dirty
                    v, p = m.decode(buf, pos, end, ver)
                    return [i, v], p
                except (NotEnough, Bad) as e:
                    self.ctx.dirty = d
                    if isinstance(e, NotEnough):
                        err = NotEnough
            raise err()
        raise AssertionError(k)

    def fromraw(self, v, bits):
        f = self.f
        if self.kind == "set":
            return v
        if signed(f.type) and getattr(f, "sext", True) and v >> (bits - 1) & 1:
            v -= 1 << bits
        return cast(v - getattr(f, "off", 0), f.type)

    def dec_elem(self, buf, pos, end, ver, st):
        limit = None
        if self.elprefix is not None:
            if not self.f.elemFixed:
                limit, pos = self.elprefix.decode(buf, pos, end, ver)
            else:
                if st.get("n") is None:
                    st["n"], pos = self.elprefix.decode(buf, pos, end, ver)
                limit = st["n"]
        if limit is None:
            return self.elem.decode(buf, pos, end, ver)
        if end - pos < limit:
            raise NotEnough()
        try:
            v, _ = self.elem.decode(buf, pos, pos + limit, ver)
        except NotEnough:
            raise Bad()
        return v, pos + limit

    def dec_n(self, buf, pos, end, ver, n):
        out, st = [], {}
        for _ in range(n):
            v, pos = self.dec_elem(buf, pos, end, ver, st)
            out.append(v)
            if len(out) > 5000:
                raise Discard()
        return out, pos

    def dec_all(self, buf, pos, end, ver):
        out, st = [], {}
        while pos < end:
            p0 = pos
            v, pos = self.dec_elem(buf, pos, end, ver, st)
            if pos == p0:
                raise Discard()
            out.append(v)
        return out, pos

    def dec_len(self, buf, pos, end, ver, n):
        if end - pos < n:
            raise NotEnough()
        try:
            return self.dec_all(buf, pos, pos + n, ver)
        except NotEnough:
            raise Bad()

    # --------------------------------------------------------------------------------------------------- refresh
    def refresh(self, v, ver):
        """(changed, value)"""
        if self.wrap:
            if v[0] == MISSING:
                return False, v
            c, x = self.refresh_in(v[1], ver)
            return c, [v[0], x]
        return self.refresh_in(v, ver)

    def refresh_in(self, v, ver):
        f, k = self.f, self.kind
        if k == "int":
            if f.failInv and not f.fixed and f.valid and not self.valid_in(v, ver):
                nv = min(x[0] for x in f.valid)
                if not self.valid_in(nv, ver):
                    raise Discard()     # replaced by some value
                return True, nv
            return False, v
        if k == "ref":
            return self.sub.refresh(v, ver)
        if k == "optional":
            if v[0] == MISSING:
                return False, v
            c, x = self.sub.refresh(v[1], ver)
            if f.missInv and not self.sub.valid(x, ver):
                return True, [MISSING, x]
            return c, [v[0], x]
        if k == "list":
            rs = [self.elem.refresh(x, ver) for x in v]
            return any(r[0] for r in rs), [r[1] for r in rs]
        if k == "variant":
            if v is None:
                return False, v
            c, x = self.members[v[0]].refresh(v[1], ver)
            return c, [v[0], x]
        if k in ("bundle", "bitfield"):
            return refresh_seq(self.members, v, ver, self.ctx, self, None)
        return False, v

    # ---------------------------------------------------------------------------------------------------- tokens
    def tok(self, v):
        if self.wrap:
            return " o %d%s" % (v[0], self.tok_in(v[1]))
        return self.tok_in(v)

    def tok_in(self, v):
        k = self.kind
        if k in ("int", "enum", "set"):
            return " i %d" % v
        if k == "float":
            return " f %s" % ("nan" if v == "nan" or math.isnan(fval(v, self.f.type)) else v)
        if k in ("string", "data"):
            return " x" + v.hex()
        if k == "list":
            return " l %d" % len(v) + "".join(self.elem.tok(x) for x in v)
        if k in ("bundle", "bitfield"):
            return toks(self.members, v)
        if k == "ref":
            return self.sub.tok(v)
        if k == "optional":
            return " o %d%s" % (v[0], self.sub.tok(v[1]))
        return " v -" if v is None else " v %d%s" % (v[0], self.members[v[0]].tok(v[1]))

    # ------------------------------------------------------------------------------------------------ generation
    def gen(self, r, ver, good=True, size=3):
        """value which has an encoding; good: valid unless impossible"""
        if self.wrap:
            if not self.exists(ver):
                return [MISSING, self.default_in(ver)]
            return [EXISTS, self.gen_in(r, ver, good, size)]
        return self.gen_in(r, ver, good, size)

    def gen_in(self, r, ver, good, size):
        for _ in range(6):
            v = self.gen_raw(r, ver, good, size)
            if not good or self.kind in ("list", "bundle", "bitfield", "optional", "variant", "ref"):
                return v
            try:
                if self.valid_in(v, ver):
                    return v
            except Discard:
                return v
        return v

    def gen_raw(self, r, ver, good, size):
        f, k = self.f, self.kind
        if k == "int":
            if f.fixed:
                return f.defv
            lo, hi = int_range(f)
            lo, hi = max(lo, vrange(f)[0]), min(hi, vrange(f)[1])
            if signed(f.type) and not f.sext and not is_var(f.type) and (f._bits or f.len * 8) < tlen(f.type) * 8:
                lo, hi = max(lo, -f.off), hi
            if f.len * 8 > 63 and not signed(f.type):
                pass
            c = [lo, hi, lo + 1, hi - 1, f.defv] + [s[5] for s in f.specials]
            for a, b, s, d in f.valid:
                c += [a, b, a - 1, b + 1, (a + b) // 2] if not good else [a, b, (a + b) // 2]
                if b > a:
                    c += [r.num(a, b)]
            m = r.below(3)
            if m == 0 or (good and f.valid and m == 1):
                v = r.pick(c)
                if lo <= v <= hi:
                    return v
            return r.num(lo, hi)
        if k == "enum":
            lo, hi = brange(f.type, wbits(f))
            lo, hi = max(lo, trange(f.type)[0]), min(hi, trange(f.type)[1])
            if good or r.chance(60):
                c = [x[5] for x in f.values if not f.vcv or not self.ctx.vd or alive(x[1], x[2], ver)] or [x[5] for x in f.values]
                return r.pick(c)
            v = r.pick([x[5] for x in f.values])
            v = r.pick([v + 1, v - 1, r.num(lo, hi)])
            return v if lo <= v <= hi else lo
        if k == "set":
            n = f._bits or f.len * 8
            v = r.num(0, mask(n))
            if good:
                info = {}
                for b in f.bitsInfo:
                    info.setdefault(b[5], b)
                for i in range(n):
                    w = None
                    if i not in info:
                        w = f.resBit
                    elif info[i][7] or (f.vcv and self.ctx.vd and not alive(info[i][1], info[i][2], ver)):
                        w = info[i][8]
                    if w is not None:
                        v = v | (1 << i) if w else v & ~(1 << i)
            return v
        if k == "float":
            m = r.below(8)
            fmt = {"float": "<f"}.get(f.type, "<d")
            if f.valid and (m < 5 if good else m < 3):
                lo, hi, s, d = r.pick(f.valid)
                if not math.isfinite(lo):
                    return fbits(lo, f.type)
                x = r.pick([lo, hi, lo + (hi - lo) / 2 if math.isfinite(hi - lo) else 0.0])
                return fbits(x, f.type)
            if m == 5 and f.specials:
                return fbits(r.pick(f.specials)[5], f.type)
            if m == 6:
                return fbits(r.pick([math.nan, math.inf, -math.inf, 0.0, -0.0]), f.type)
            return fbits(struct.unpack(fmt, struct.pack(fmt, r.num(-1000000, 1000000) / 64.0))[0], f.type)
        if k in ("string", "data"):
            if f.valid and (good or r.chance(40)):
                v = r.pick(f.valid)[0].encode("utf-8" if k == "string" else "latin-1")
            else:
                n = f.len if f.len and k == "data" else r.below((f.len or 9) + 1)
                if f.len == 0 and r.chance(3):
                    n = r.rng(120, 140)
                v = bytes(r.below(256) for _ in range(n))
                if k == "string" and (f.len or f.zterm):
                    v = bytes(c or 65 for c in v)
            if f.len and k == "data":
                v = v[:f.len].ljust(f.len, b"\0")
            return v
        if k == "list":
            n = f.count or r.below(size + 1)
            out = [self.elem.gen(r, ver, good, max(1, size - 1)) for _ in range(n)]
            if self.elprefix is not None and f.elemFixed and out and len({self.elem.length(x, ver) for x in out}) > 1:
                raise Discard()
            return out
        if k in ("bundle", "bitfield"):
            return gen_seq(self.members, r, ver, good, size, self.ctx, self, None)
        if k == "ref":
            return self.sub.gen(r, ver, good, size)
        if k == "optional":
            mode = r.pick([EXISTS, EXISTS, MISSING]) if f.mode == TENT else f.mode
            if not f.cond and f.mode != TENT:
                pass
            return self.gen_mode(mode, r, ver, good, size)
        if k == "variant":
            i = r.below(len(self.members))
            return [i, self.members[i].gen(r, ver, good, size)]
        raise AssertionError(k)

    def gen_mode(self, mode, r, ver, good, size):
        if mode == MISSING:
            return [MISSING, self.sub.default(ver)]
        v = self.sub.gen(r, ver, good, size)
        if self.f.mode == TENT and not self.f.cond and self.sub.length(v, ver) == 0:
            return [MISSING, self.sub.default(ver)]
        return [EXISTS, v]


def fcmp(x, ty):
    """the number as the field's type"""
    return struct.unpack("<f", struct.pack("<f", x))[0] if ty == "float" and abs(x) <= 3.4028234663852886e38 else x


def var_bytes(v, sg, big):
    out = []
    if not sg:
        v &= mask(64)
    while True:
        b = v & 0x7f
        v >>= 7
        out.append(b)
        if (not sg and v == 0) or (sg and ((v == 0 and not b & 0x40) or (v == -1 and b & 0x40))):
            break
    if big:
        out.reverse()
    return bytes(x | 0x80 for x in out[:-1]) + bytes(out[-1:])


def toks(nodes, vals):
    return " b %d" % len(nodes) + "".join(n.tok(v) for n, v in zip(nodes, vals))


# ------------------------------------------------------------------------------------------------ members of a scope
def opt_of(node, v):
    """the (inner) optional of the node: (field, value list) or None"""
    while True:
        if node.wrap:
            v = v[1]
        if node.kind == "ref":
            node = node.sub
            continue
        return (node, v) if node.kind == "optional" else (None, None)


def own_cond(node):
    return node.f.cond if node.kind == "optional" else None


def inner(node, v):
    """value without the version wrapper"""
    return v[1] if node.wrap else v


def set_mode(node, v, mode):
    """value of the conditional optional with the other mode"""
    if node.wrap:
        return [v[0], [mode, v[1][1]]]
    return [mode, v[1]]


def det_of(f):
    """(name of the sibling, count or length) of the detached prefix"""
    if f.kind in ("string", "data") and f.dprefix:
        return f.dprefix, "len"
    if f.kind == "list":
        if f.dcprefix:
            return f.dcprefix, "count"
        if f.dlprefix:
            return f.dlprefix, "len"
    return None


def dec_seq(nodes, vals, buf, pos, end, ver, ctx, lenidx, iv):
    for i, n in enumerate(nodes):
        c = own_cond(n)
        if c is not None:
            vals[i] = set_mode(n, vals[i], EXISTS if cond_eval(c, nodes, vals, ctx, iv) else MISSING)
        fl = fc = None
        d = det_of(n.f)
        if d:
            j = next(j for j, x in enumerate(nodes) if x.f.name == d[0])
            pv = inner(nodes[j], vals[j])
            fl, fc = (pv, None) if d[1] == "len" else (None, pv)
        try:
            vals[i], pos = n.decode(buf, pos, end, ver, fl, fc, vals[i])
        except NotEnough:
            if lenidx is not None and i > lenidx:
                raise Bad()
            raise
        if i == lenidx:
            want = vals[i]
            if end - pos < want:
                raise NotEnough()
            end = pos + want
    if lenidx is not None:
        pos = end
    return vals, pos


def refresh_seq(nodes, vals, ver, ctx, bundle, iv):
    vals = list(vals)
    ch = False
    for i, n in enumerate(nodes):
        c, vals[i] = n.refresh(vals[i], ver)
        ch = ch or c
    if bundle is not None and bundle.lenidx is not None:
        old = list(vals)
        bundle.fixlen(vals, ver)
        ch = ch or old != vals
    for i, n in enumerate(nodes):
        c = own_cond(n)
        if c is not None:
            mode = EXISTS if cond_eval(c, nodes, vals, ctx, iv) else MISSING
            if inner(n, vals[i])[0] != mode:
                vals[i] = set_mode(n, vals[i], mode)
                ch = True
        d = det_of(n.f)
        if d:
            j = next(j for j, x in enumerate(nodes) if x.f.name == d[0])
            want = det_value(n, vals[i], d[1], ver)
            want = cast(want, nodes[j].f.type)
            if inner(nodes[j], vals[j]) != want:
                vals[j] = [vals[j][0], want] if nodes[j].wrap else want
                ch = True
    if bundle is not None and bundle.lenidx is not None:
        old = list(vals)
        bundle.fixlen(vals, ver)
        if old != vals:
            raise Discard()         # the length of what became present: known after one more refresh
    return ch, vals


def det_value(n, v, what, ver):
    x = inner(n, v)
    if what == "count":
        return len(x)
    return len(n.encode_in(x, ver))


def gen_seq(nodes, r, ver, good, size, ctx, bundle, iv):
    vals = [n.default(ver) for n in nodes]
    for i, n in enumerate(nodes):
        c = own_cond(n)
        if c is not None and (not n.wrap or n.exists(ver)):
            mode = EXISTS if cond_eval(c, nodes[:i], vals[:i], ctx, iv) else MISSING
            v = n.gen_mode(mode, r, ver, good, size)
            vals[i] = [EXISTS, v] if n.wrap else v
            if mode == EXISTS and v[0] == MISSING:
                raise Discard()
        elif c is not None:
            # not there in this version, still subject to the condition
            mode = EXISTS if cond_eval(c, nodes[:i], vals[:i], ctx, iv) else MISSING
            vals[i] = set_mode(n, vals[i], mode)
        else:
            vals[i] = n.gen(r, ver, good, size)
        d = det_of(n.f)
        if d:
            j = next(j for j, x in enumerate(nodes) if x.f.name == d[0])
            want = det_value(n, vals[i], d[1], ver)
            lo, hi = int_range(nodes[j].f)
            if not lo <= want <= hi:
                raise Discard()
            vals[j] = [vals[j][0], want] if nodes[j].wrap else want
    # conditions depend on the prefixes set afterwards
    for i, n in enumerate(nodes):
        c = own_cond(n)
        if c is not None:
            mode = EXISTS if cond_eval(c, nodes, vals, ctx, iv) else MISSING
            if inner(n, vals[i])[0] != mode:
                raise Discard()
    if bundle is not None and bundle.lenidx is not None:
        n = sum(nodes[i].length(vals[i], ver) for i in range(bundle.lenidx + 1, len(vals)))
        lo, hi = int_range(deref(nodes[bundle.lenidx].f))
        if not lo <= n <= hi:
            raise Discard()
        vals[bundle.lenidx] = n
        for i, nd in enumerate(nodes):
            c = own_cond(nd)
            if c is not None and (inner(nd, vals[i])[0] == EXISTS) != cond_eval(c, nodes, vals, ctx, iv):
                raise Discard()
    return vals


# --------------------------------------------------------------------------------------------------------- conditions
class Gone(Exception):
    """the operand is not there in the selected version(s)"""


def resolve(path, nodes, vals, ctx, iv):
    """(node, value, all the optional on the way exist, rest of the path)"""
    if path[0] == "%":
        nodes, vals = ctx.ifields, iv
    parts = path[1:].lstrip("#?").split(".")
    by = {n.f.name: i for i, n in enumerate(nodes)}
    if parts[0] not in by:
        raise Gone()
    i = by[parts[0]]
    node, v, ok = nodes[i], vals[i], True
    parts = parts[1:]
    while True:
        if node.wrap:
            ok = ok and v[0] == EXISTS
            v = v[1]
        if node.kind == "ref":
            node = node.sub
            continue
        if parts and node.kind in ("bundle", "bitfield"):
            by = {n.f.name: i for i, n in enumerate(node.members)}
            if parts[0] not in by:
                raise Gone()
            i = by[parts[0]]
            parts = parts[1:]
            node, v = node.members[i], v[i]
            continue
        if parts and node.kind == "optional":
            ok = ok and v[0] == EXISTS
            node, v = node.sub, v[1]
            if parts[0] == node.f.name:
                parts = parts[1:]
            continue
        return node, v, ok, parts


def cond_eval(c, nodes, vals, ctx, iv):
    if c.kind != "expr":
        rs = [cond_eval(x, nodes, vals, ctx, iv) for x in c.conds]
        return all(rs) if c.kind == "and" else any(rs)
    try:
        return expr_eval(c, nodes, vals, ctx, iv)
    except Gone:
        return not c.l and c.op == "!"


def expr_eval(c, nodes, vals, ctx, iv):
    if not c.l:
        node, v, ok, rest = resolve(c.r, nodes, vals, ctx, iv)
        if c.r[1] == "?":
            ex = ok and v[0] == EXISTS
            return ex != (c.op == "!")
        bit = next((b for b in node.f.bitsInfo if b[0] == rest[0]), None)
        if bit is None:
            raise Gone()
        return ok and bool(v >> bit[5] & 1) != (c.op == "!")
    node, v, ok, rest = resolve(c.l, nodes, vals, ctx, iv)
    assert not rest, c.text()
    if c.l[1] == "#":
        a, b = len(v), int(c.r)
    elif c.r[0] in "$%":
        n2, b, ok2, rest = resolve(c.r, nodes, vals, ctx, iv)
        ok = ok and ok2
        a = v
        lo, hi = vrange(node.f)
        if not lo <= b <= hi:
            raise Discard()         # compared as the type of the left operand
    else:
        a, b = v, None
        if node.kind == "int":
            b = next((s[5] for s in node.f.__dict__.get("gone", []) + node.f.specials if s[0] == c.r), None)
        elif node.kind == "enum":
            b = next((s[5] for s in node.f.__dict__.get("gone", []) + node.f.values if s[0] == c.r), None)
        if b is None:
            b = int(c.r)
        lo, hi = (0, mask(node.f._bits or node.f.len * 8)) if node.kind == "set" else vrange(node.f)
        if not lo <= b <= hi:
            raise Discard()         # literal converted to the type of the operand
    if not ok:
        return False
    return {"=": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[c.op]


# ---------------------------------------------------------------------------------------------------------- messages
def removed_in(n):
    return n.wrap and n.f.removed or any(removed_in(m) for m in getattr(n, "members", ())) or \
        any(getattr(n, a, None) is not None and removed_in(getattr(n, a)) for a in ("sub", "elem"))


class Msg:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.nodes = ctx.fields(m)

    def transport_default(self):
        if any(removed_in(n) for n in self.ctx.ifields):
            raise Discard()         # default mode of removed transport fields is not specified
        tv = [n.default(self.ctx.V) for n in self.ctx.ifields]
        if self.m.construct is not None:
            for c in self.m.construct.walk():
                if c.kind == "expr":
                    set_bit(self.ctx.ifields, tv, c.r, c.op != "!")
        return tv

    def default(self, tv):
        ver = self.ctx.version(tv)
        return [n.default(ver) for n in self.nodes]

    def gen_transport(self, r):
        ctx = self.ctx
        tv = [n.gen(r, ctx.V, True) for n in ctx.ifields]
        if ctx.veridx is not None:
            n = ctx.ifields[ctx.veridx]
            lo, hi = int_range(deref(n.f))
            v = r.pick([ctx.V, r.below(ctx.V + 2), r.below(ctx.V + 2)])
            if v < ctx.minrem:
                v = ctx.minrem + r.below(ctx.V + 2 - ctx.minrem)
            if not lo <= v <= hi:
                v = n.default(ctx.V)
            tv[ctx.veridx] = v
        m = self.m
        for _ in range(8):
            try:
                if m.readCond is None or cond_eval(m.readCond, [], [], ctx, tv) or r.chance(10):
                    break
            except Discard:
                pass
            tv2 = [n.gen(r, ctx.V, True) for n in ctx.ifields]
            if ctx.veridx is not None:
                tv2[ctx.veridx] = tv[ctx.veridx]
            tv = tv2
        return tv

    def gen(self, r, tv, good=True):
        for _ in range(30):
            try:
                v = gen_seq(self.nodes, r, self.ctx.version(tv), good, 3, self.ctx, None, tv)
                self.encode(v, tv)
                return v
            except Discard:
                continue
        return None

    def encode(self, v, tv):
        ver = self.ctx.version(tv)
        return b"".join(n.encode(x, ver) for n, x in zip(self.nodes, v))

    def valid(self, v, tv):
        ver = self.ctx.version(tv)
        return all(n.valid(x, ver, tv) for n, x in zip(self.nodes, v)) and \
            (self.m.validCond is None or cond_eval(self.m.validCond, self.nodes, v, self.ctx, tv))

    def decode(self, buf, tv):
        """(status, value, consumed); the contents of a value which became missing by its content is not known (ctx.dirty)"""
        ver = self.ctx.version(tv)
        self.ctx.dirty = False
        if self.m.readCond is not None and not cond_eval(self.m.readCond, [], [], self.ctx, tv):
            return BAD, None, 0
        try:
            v, pos = dec_seq(self.nodes, self.default(tv), buf, 0, len(buf), ver, self.ctx, None, tv)
        except NotEnough:
            return NED, None, 0
        except Bad:
            return BAD, None, 0
        if self.m.failInv and not self.valid(v, tv):
            return BAD, None, 0
        return OK, v, pos

    def refresh(self, v, tv):
        return refresh_seq(self.nodes, v, self.ctx.version(tv), self.ctx, None, tv)

    def toks(self, v):
        return toks(self.nodes, v)

    def ttoks(self, tv):
        return toks(self.ctx.ifields, tv)

    def state(self, v, tv):
        b = self.encode(v, tv)
        return "%s T%s S %d %d 0 x%s" % (self.toks(v), self.ttoks(tv), self.valid(v, tv), len(b), b.hex())


def set_bit(nodes, vals, path, val):
    parts = path[1:].split(".")
    bit = parts.pop()
    for i, n in enumerate(nodes):
        if n.f.name == parts[0]:
            break
    hold, idx = vals, i
    while True:
        if n.wrap:
            hold, idx = hold[idx], 1
        if n.kind == "ref":
            n = n.sub
            continue
        if len(parts) > 1:
            parts.pop(0)
            for i, x in enumerate(n.members):
                if x.f.name == parts[0]:
                    break
            hold, idx, n = hold[idx], i, n.members[i]
            continue
        break
    b = next(b for b in n.f.bitsInfo if b[0] == bit)
    hold[idx] = hold[idx] | (1 << b[5]) if val else hold[idx] & ~(1 << b[5])
