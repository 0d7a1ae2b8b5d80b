"""Symbolic strings and byte strings: ropes of segments.

A rope is a list of segments.  A segment is a concrete str/bytes, a Cs (a run
of symbolic single units: code points of 21 bits or bytes of 8 bits) or an Opq,
a slice [off, off+n) with symbolic bounds of a Base whose content is not looked
at: input text of any length, a packed integer, decimal digits, base64 text, an
XML document...  Ropes without a symbolic segment collapse to str/bytes.
"""
import base64 as _b64
import re as _re

import z3

from . import core
from .core import SymBool, SymInt, Unsupported, ball, bany, mkbool, mkbv, mkint, sint

SW, BW = 21, 8

# content of opaque inputs in counterexamples: letters that are no hex digits
# and that none of the repository's patterns spell
ALPHABET = "jkqvwz"


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    return a + b


def both_int(a, b):
    return type(a) is int and type(b) is int


def seq(a, b):
    """Structural equality of two lengths, without the solver."""
    if both_int(a, b):
        return a == b
    if type(a) is SymInt and type(b) is SymInt and a.bv is None and b.bv is None:
        return a.lin == b.lin
    d = a - b
    return type(d) is int and d == 0


def eqn(a, b):
    """Equality of lengths as bool/SymBool."""
    return True if seq(a, b) else (a == b)


def br(c):
    return core.E.branch(c.e) if type(c) is SymBool else bool(c)


def must(c):
    return core.E.must(c.e) if type(c) is SymBool else bool(c)


# ------------------------------------------------------------------------ bases
class Base(object):
    text = False  # ASCII text: the same slice is valid as str and as bytes
    safe = False  # letters and digits only

    def length(self):
        raise NotImplementedError

    def concrete(self, m, kind):
        raise NotImplementedError

    def expand(self):
        """The whole content as a list of segments, or None when it is opaque."""
        return None


def content(name, n):
    """Deterministic content of an opaque input: all short windows differ."""
    import hashlib

    return hashlib.shake_256(name.encode()).digest(n).translate(TABLE).decode("ascii")


TABLE = "".join(ALPHABET[b % len(ALPHABET)] for b in range(256)).encode("ascii")


def mval(m, t):
    if type(t) is SymBool:
        return z3.is_true(m.eval(t.e, model_completion=True))
    if type(t) is SymInt:
        t = t.bv if t.bv is not None else t.e
    if isinstance(t, (bool, int)):
        return t
    v = m.eval(t, model_completion=True)
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    raise Unsupported("no value for %s" % t)


class InBase(Base):
    text = True

    def __init__(self, name, n):
        self.name = name
        self.n = n

    def length(self):
        return self.n

    def concrete(self, m, kind):
        s = content(self.name, mval(m, self.n))
        return s if kind is str else s.encode("ascii")


class PackBase(Base):
    def __init__(self, value, size, little, signed=False):
        self.value, self.size, self.little, self.signed = value, size, little, signed

    def length(self):
        return self.size

    def concrete(self, m, kind):
        v = mval(m, self.value)
        return int(v).to_bytes(self.size, "little" if self.little else "big", signed=self.signed)

    def expand(self):
        v = self.value
        if v.bv is None and self.size <= 4:
            bv = z3.Int2BV(v.e, 8 * self.size)
        elif v.bv is None:
            bv = z3.Int2BV(v.e, 8 * self.size)
        else:
            bv = v.bv
            if 8 * self.size > bv.size():
                bv = z3.SignExt(8 * self.size - bv.size(), bv)
        units = []
        for i in range(self.size):
            u = z3.simplify(z3.Extract(8 * i + 7, 8 * i, bv))
            units.append(u.as_long() if z3.is_bv_value(u) else u)
        if not self.little:
            units.reverse()
        return [Cs(units)]


DEC_LEN = {}


class DecBase(Base):
    """str(int)."""

    text = True

    def __init__(self, value):
        self.value = value
        self._n = None

    def length(self):
        if self._n is None:
            e = self.value.e
            hit = DEC_LEN.get(e.get_id())
            if hit is None:
                a = z3.If(e >= 0, e, -e)
                n = z3.IntVal(20)
                for k in range(19, 0, -1):
                    n = z3.If(a < 10**k, z3.IntVal(k), n)
                hit = DEC_LEN[e.get_id()] = (sint(n + z3.If(e < 0, z3.IntVal(1), z3.IntVal(0))), a < 10**20, e)
            core.E.assume(hit[1])
            self._n = hit[0]
        return self._n

    def concrete(self, m, kind):
        s = str(mval(m, self.value))
        return s if kind is str else s.encode()

    def expand(self):
        e = self.value.e
        E = core.E
        out = []
        if E.branch(e < 0):
            out.append(45)
            e = -e
        n = 1
        while not E.branch(e < 10**n):
            n += 1
        units = []
        for k in range(n - 1, -1, -1):
            d = (e / (10**k)) % 10
            units.append(z3.simplify(z3.Int2BV(d, 16) + 48))
        return [out, units]  # converted by Opq.expand with the right width


class B64Base(Base):
    text = True

    def __init__(self, inner):
        self.inner = inner

    def length(self):
        n = xlen(self.inner)
        return (n + 2) // 3 * 4

    def concrete(self, m, kind):
        b = _b64.b64encode(conc(self.inner, m))
        return b.decode() if kind is str else b

    def expand(self):
        ats = atoms(self.inner)
        if any(type(a) is Opq for a in ats):
            return None
        alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
        out = []

        def enc(bv6):
            r = z3.BitVecVal(ord("/"), 16)
            v = z3.ZeroExt(10, bv6)
            r = z3.If(
                z3.ULT(v, 26),
                v + 65,
                z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4, z3.If(v == 62, z3.BitVecVal(43, 16), r))),
            )
            r = z3.simplify(r)
            return r.as_long() if z3.is_bv_value(r) else r

        for i in range(0, len(ats), 3):
            grp = ats[i : i + 3]
            bs = [bv8(x) for x in grp] + [z3.BitVecVal(0, 8)] * (3 - len(grp))
            w = z3.Concat(*bs)
            four = [enc(z3.Extract(23 - 6 * k, 18 - 6 * k, w)) for k in range(4)]
            for k in range(3 - len(grp)):
                four[3 - k] = 61
            out.extend(four)
        return [[], out]


class WrapBase(Base):
    """A length preserving or scaling injective transformation of a rope."""

    def __init__(self, tag, inner, n, conc_fn, text=False):
        self.tag, self.inner, self.n, self.fn = tag, inner, n, conc_fn
        self.text = text

    def length(self):
        return self.n

    def expand(self):
        if not self.tag.startswith("enc:utf-16"):
            return None
        ats = atoms(self.inner)
        if any(isinstance(a, Opq) for a in ats):
            return None
        b = encode(from_atoms(str, ats), self.tag[4:])
        return [s if isinstance(s, (bytes, Cs)) else s for s in (b.segs if is_rope(b) else [b])]

    def concrete(self, m, kind):
        v = self.fn(conc(self.inner, m))
        if kind is str and isinstance(v, bytes):
            v = v.decode("latin-1")
        elif kind is bytes and isinstance(v, str):
            v = v.encode()
        return v


class UfBase(Base):
    """The result of an uninterpreted total function of concrete-able arguments."""

    def __init__(self, tag, args, n, conc_fn, text=False):
        self.tag, self.args, self.n, self.fn, self.text = tag, args, n, conc_fn, text
        self.safe = tag.startswith("hexhash:")

    def length(self):
        return self.n

    def concrete(self, m, kind):
        v = self.fn(*[conc(a, m) for a in self.args])
        if kind is str and isinstance(v, bytes):
            v = v.decode("latin-1")
        elif kind is bytes and isinstance(v, str):
            v = v.encode("latin-1")
        return v


def bv8(u):
    return z3.BitVecVal(u, 8) if isinstance(u, int) else u


# --------------------------------------------------------------------- segments
class Cs(object):
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = tuple(u)

    def length(self):
        return len(self.u)

    def __repr__(self):
        return "Cs(%d)" % len(self.u)


class Opq(object):
    __slots__ = ("base", "off", "n")

    def __init__(self, base, off=0, n=None):
        self.base = base
        self.off = off
        self.n = base.length() if n is None else n

    def length(self):
        return self.n

    def full(self):
        return type(self.off) is int and self.off == 0 and seq(self.n, self.base.length())

    def __repr__(self):
        return "Opq(%s,%s,%s)" % (type(self.base).__name__, self.off, self.n)


def slen(seg):
    return len(seg) if isinstance(seg, (str, bytes)) else seg.length()


def width(kind):
    return SW if kind is str else BW


def fitw(u, w):
    """Adapt the width of a unit."""
    if isinstance(u, int):
        return u
    s = u.size()
    if s == w:
        return u
    r = z3.simplify(z3.ZeroExt(w - s, u) if s < w else z3.Extract(w - 1, 0, u))
    return r.as_long() if z3.is_bv_value(r) else r


def expand_seg(seg, kind):
    """An Opq as a list of concrete/Cs segments, or None."""
    if not isinstance(seg, Opq):
        return [seg]
    e = seg.base.expand()
    if e is None:
        return None
    if len(e) == 2 and isinstance(e[0], list):
        units = list(e[0]) + list(e[1])
        segs = [Cs([fitw(u, width(kind)) for u in units])]
    else:
        segs = []
        for s in e:
            if isinstance(s, Cs):
                segs.append(Cs([fitw(u, width(kind)) for u in s.u]))
            elif isinstance(s, str) and kind is bytes:
                segs.append(s.encode("ascii"))
            elif isinstance(s, bytes) and kind is str:
                segs.append(s.decode("ascii"))
            else:
                segs.append(s)
    if seg.full():
        return segs
    total = 0
    for s in segs:
        total = add(total, slen(s))
    # the base's own length formula and the expansion agree
    if not seq(total, seg.base.length()):
        core.E.assume((total == seg.base.length()).e) if type(total == seg.base.length()) is SymBool else None
    left, right = cut(segs, seg.off, kind)
    mid, _ = cut(right, seg.n, kind)
    return mid


def cut(segs, p, kind):
    """Split a segment list at position p, 0 <= p <= total."""
    pos = 0
    segs = list(segs)
    i = 0
    while i < len(segs):
        seg = segs[i]
        n = slen(seg)
        if type(p) is int and type(pos) is int and p <= pos:
            return segs[:i], segs[i:]
        if seq(p, pos):
            return segs[:i], segs[i:]
        end = add(pos, n)
        if br(p >= end):
            pos = end
            i += 1
            continue
        k = p - pos
        if isinstance(seg, Opq):
            a = Opq(seg.base, seg.off, k)
            b = Opq(seg.base, add(seg.off, k), seg.n - k)
            return segs[:i] + [a], [b] + segs[i + 1 :]
        if type(k) is not int:
            k = core.realise_int(k)
        if isinstance(seg, Cs):
            return segs[:i] + [Cs(seg.u[:k])], [Cs(seg.u[k:])] + segs[i + 1 :]
        return segs[:i] + [seg[:k]], [seg[k:]] + segs[i + 1 :]
    return segs, []


def adjacent(p, s):
    end = add(p.off, p.n)
    if seq(end, s.off):
        return True
    return core.E is not None and must(eqn(end, s.off))


def build(kind, segs):
    out = []
    for s in segs:
        if isinstance(s, Rope):
            todo = s.segs
        else:
            todo = (s,)
        for s in todo:
            if isinstance(s, (str, bytes)):
                if not s:
                    continue
            elif isinstance(s, Cs):
                if not s.u:
                    continue
                if all(isinstance(u, int) for u in s.u):
                    s = "".join(map(chr, s.u)) if kind is str else bytes(s.u)
            elif isinstance(s, Opq):
                if type(s.n) is int and s.n == 0:
                    continue
            if out:
                p = out[-1]
                if isinstance(p, (str, bytes)) and isinstance(s, (str, bytes)):
                    out[-1] = p + s
                    continue
                if isinstance(p, Cs) and isinstance(s, Cs):
                    out[-1] = Cs(p.u + s.u)
                    continue
                if isinstance(p, Opq) and isinstance(s, Opq) and p.base is s.base and adjacent(p, s):
                    out[-1] = Opq(p.base, p.off, add(p.n, s.n))
                    continue
            out.append(s)
    if not out:
        return kind()
    if len(out) == 1 and isinstance(out[0], (str, bytes)):
        return out[0]
    return (SymStr if kind is str else SymBytes)(out)


def segs_of(x):
    return x.segs if isinstance(x, Rope) else ([x] if x else [])


def is_rope(x):
    return type(x) in (SymStr, SymBytes)


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


def is_bytes(x):
    return type(x) is SymBytes or isinstance(x, (bytes, bytearray))


def kind_of(x):
    return str if is_str(x) else bytes


def xlen(x):
    if not is_rope(x):
        return len(x)
    n = x._n
    if n is None:
        n = 0
        for s in x.segs:
            n = add(n, slen(s))
        x._n = n
    return n


def conc(x, m):
    """Concrete value of a (possibly symbolic) value under a model."""
    t = type(x)
    if t in (SymInt, SymBool):
        return mval(m, x)
    if t is core.SymReal:
        v = m.eval(x.e, model_completion=True)
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if is_rope(x):
        kind = x.KIND
        out = []
        for s in x.segs:
            if isinstance(s, (str, bytes)):
                out.append(s)
            elif isinstance(s, Cs):
                vals = []
                for u in s.u:
                    if not isinstance(u, int):
                        v = m.eval(u, model_completion=True)
                        u = v.as_long()
                    vals.append(u)
                out.append("".join(map(chr, vals)) if kind is str else bytes(vals))
            else:
                c = s.base.concrete(m, kind)
                off = mval(m, s.off)
                out.append(c[off : off + mval(m, s.n)])
        return kind().join(out)
    if t is list:
        return [conc(i, m) for i in x]
    if t is tuple:
        return tuple(conc(i, m) for i in x)
    if t is dict:
        return {conc(k, m): conc(v, m) for k, v in x.items()}
    return x


# ------------------------------------------------------------------- operations
def atoms(x, split=True, keep=()):
    """A rope as a list of units (int/BV) and opaque, non-empty segments."""
    if not is_rope(x):
        return [ord(c) for c in x] if isinstance(x, str) else list(x)
    kind = x.KIND
    out = []

    def put(seg):
        if isinstance(seg, str):
            out.extend(map(ord, seg))
        elif isinstance(seg, bytes):
            out.extend(seg)
        elif isinstance(seg, Cs):
            out.extend(seg.u)
        else:
            ex = None if keep and isinstance(seg.base, keep) else expand_seg(seg, kind)
            if ex is None:
                if br(eqn(seg.n, 0)):
                    return
                out.append(seg)
            else:
                for s in ex:
                    put(s)

    for seg in x.segs:
        put(seg)
    return out


def from_atoms(kind, ats):
    segs = []
    run = []
    for a in ats:
        if isinstance(a, Opq):
            if run:
                segs.append(Cs(run))
                run = []
            segs.append(a)
        else:
            run.append(a)
    if run:
        segs.append(Cs(run))
    # split concrete runs out of the Cs
    out = []
    for s in segs:
        if isinstance(s, Cs):
            cur, isint = [], None
            for u in s.u:
                k = isinstance(u, int)
                if k != isint and cur:
                    out.append(Cs(cur))
                    cur = []
                isint = k
                cur.append(u)
            if cur:
                out.append(Cs(cur))
        else:
            out.append(s)
    return build(kind, out)


def uval(u, w):
    return z3.BitVecVal(u, w) if isinstance(u, int) else fitw(u, w)


def ueq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = uval(a, w), uval(b, w)
    return mkbool(z3.simplify(a == b))


def urange(u, lo, hi):
    if isinstance(u, int):
        return lo <= u <= hi
    s = u.size()
    top = (1 << s) - 1
    if lo > top:
        return False
    hi = min(hi, top)
    c = []
    if lo > 0:
        c.append(z3.UGE(u, lo))
    if hi < top:
        c.append(z3.ULE(u, hi))
    if not c:
        return True
    return mkbool(z3.simplify(z3.And(*c)))


def uint(u):
    """A unit as an integer."""
    if isinstance(u, int):
        return u
    return mkbv(z3.simplify(z3.ZeroExt(core.W - u.size(), u)), u.size() + 1)


def int_to_unit(v, kind):
    """An int in range as a unit."""
    if type(v) is not SymInt:
        return int(v)
    w = width(kind)
    if v.bv is not None:
        r = z3.simplify(z3.Extract(w - 1, 0, v.bv))
    else:
        r = z3.simplify(z3.Int2BV(v.e, w))
    return r.as_long() if z3.is_bv_value(r) else r


def norm_index(i, n, default):
    if i is None:
        return default
    if not both_int(i, n) and seq(i, n):
        return n
    if br(i < 0):
        i = add(i, n)
        if br(i < 0):
            return 0
        return i
    if br(i > n):
        return n
    return i


def xslice(x, a, b, step=None):
    kind = kind_of(x)
    if step is not None and not (type(step) is int and step == 1):
        ats = atoms(x)
        if any(isinstance(t, Opq) for t in ats):
            raise Unsupported("extended slice of an opaque string")
        conv = core.concretise_int
        return from_atoms(
            kind, ats[(None if a is None else conv(a)) : (None if b is None else conv(b)) : conv(step)]
        )
    n = xlen(x)
    a = norm_index(a, n, 0)
    b = norm_index(b, n, n)
    if both_int(a, b):
        if b <= a:
            return kind()
    elif seq(a, b):
        return kind()
    elif not br(b > a):
        return kind()
    segs = segs_of(x)
    if not (type(a) is int and a == 0):
        _, segs = cut(segs, a, kind)
    if not seq(b, n):
        segs, _ = cut(segs, b - a, kind)
    return build(kind, segs)


def xindex(x, i):
    kind = kind_of(x)
    n = xlen(x)
    if br(i < 0):
        i = add(i, n)
    if br(i < 0) or br(i >= n):
        raise IndexError(("string" if kind is str else "index") + " index out of range")
    r = xslice(x, i, add(i, 1))
    if kind is str:
        return r
    ats = atoms(r)
    if len(ats) != 1 or isinstance(ats[0], Opq):
        raise Unsupported("byte of an opaque string")
    return uint(ats[0])


def concat(a, b):
    kind = kind_of(a)
    return build(kind, [a, b])


def structural(s):
    return isinstance(s.base, (B64Base, WrapBase, UfBase)) or hasattr(s.base, "tree_eq")


def base_eq(p, q):
    """Equality of two full structured bases, None when it is not decided here."""
    if p is q:
        return True
    if type(p) is not type(q):
        return None
    if isinstance(p, B64Base):
        return eq(p.inner, q.inner)
    if isinstance(p, DecBase):
        return mkbool(z3.simplify(p.value.e == q.value.e))
    if isinstance(p, PackBase):
        if (p.size, p.little, p.signed) == (q.size, q.little, q.signed):
            return p.value == q.value
        return None
    if isinstance(p, WrapBase):
        return eq(p.inner, q.inner) if p.tag == q.tag else None
    if isinstance(p, UfBase):
        if p.tag != q.tag or len(p.args) != len(q.args):
            return None
        # injective by assumption (distinct arguments, distinct results)
        return ball([sx_eq(a, b) for a, b in zip(p.args, q.args)])
    if hasattr(p, "tree_eq"):
        return p.tree_eq(q)
    return None


def sx_eq(a, b):
    if isinstance(a, bytearray) or isinstance(b, bytearray):
        a, b = getattr(a, "v", a), getattr(b, "v", b)
    if is_rope(a) or is_rope(b):
        return eq(a, b)
    return a == b


def canonical_int(s):
    s = s if isinstance(s, str) else s.decode("latin-1")
    if _re.fullmatch(r"-?[0-9]+", s) and str(int(s)) == s:
        return int(s)
    return None


def eq(a, b):
    """Equality of two strings of the same kind (bool or SymBool)."""
    if is_str(a) != is_str(b):
        return False
    if not is_rope(a) and not is_rope(b):
        return a == b
    kind = kind_of(a)
    A, B = list(segs_of(a)), list(segs_of(b))
    # whole-string structured comparisons
    for x, y in ((A, B), (B, A)):
        if len(x) == 1 and isinstance(x[0], Opq) and x[0].full():
            base = x[0].base
            if len(y) == 1 and isinstance(y[0], Opq) and y[0].full():
                r = base_eq(base, y[0].base)
                if r is not None:
                    return r
            lit = y[0] if len(y) == 1 and isinstance(y[0], (str, bytes)) else ("" if not y else None)
            if lit is not None:
                if isinstance(base, DecBase):
                    v = canonical_int(lit)
                    return False if v is None else mkbool(z3.simplify(base.value.e == v))
                if isinstance(base, B64Base):
                    try:
                        raw = _b64.b64decode(lit, validate=True)
                        ok = _b64.b64encode(raw) == (lit if isinstance(lit, bytes) else lit.encode())
                    except Exception:
                        ok = False
                    return eq(base.inner, raw) if ok else False
    na, nb = xlen(a), xlen(b)
    if not br(eqn(na, nb)):
        return False
    conds = []
    w = width(kind)
    guard = 0
    while A and B:
        guard += 1
        if guard > 2000:
            raise Unsupported("string comparison too long")
        x, y = A[0], B[0]
        if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return False
            A[0], B[0] = x[k:], y[k:]
            A = A if A[0] else A[1:]
            B = B if B[0] else B[1:]
            continue
        if not isinstance(x, Opq) and not isinstance(y, Opq):
            ux = x.u if isinstance(x, Cs) else (tuple(map(ord, x)) if isinstance(x, str) else tuple(x))
            uy = y.u if isinstance(y, Cs) else (tuple(map(ord, y)) if isinstance(y, str) else tuple(y))
            k = min(len(ux), len(uy))
            for i in range(k):
                c = ueq(ux[i], uy[i], w)
                if c is False:
                    return False
                if c is not True:
                    conds.append(c)
            A = ([Cs(ux[k:])] if len(ux) > k else []) + A[1:]
            B = ([Cs(uy[k:])] if len(uy) > k else []) + B[1:]
            continue
        if isinstance(x, Opq) and isinstance(y, Opq):
            if x.base is y.base:
                same = eqn(x.off, y.off)
                if same is True or br(same):
                    if seq(x.n, y.n) or br(x.n <= y.n):
                        rest = y.n - x.n
                        B[0] = Opq(y.base, add(y.off, x.n), rest)
                        A = A[1:]
                        if type(rest) is int and rest == 0:
                            B = B[1:]
                    else:
                        A[0] = Opq(x.base, add(x.off, y.n), x.n - y.n)
                        B = B[1:]
                    continue
            elif x.full() and y.full() and (seq(x.n, y.n) or br(eqn(x.n, y.n))):
                r = base_eq(x.base, y.base)
                if r is not None:
                    if r is False:
                        return False
                    if r is not True:
                        conds.append(r)
                    A, B = A[1:], B[1:]
                    continue
        # drop what is empty
        if isinstance(x, Opq) and not must(x.n > 0):
            if br(eqn(x.n, 0)):
                A = A[1:]
                continue
        if isinstance(y, Opq) and not must(y.n > 0):
            if br(eqn(y.n, 0)):
                B = B[1:]
                continue
        ex = expand_seg(x, kind) if isinstance(x, Opq) else None
        if ex is not None:
            A = list(ex) + A[1:]
            continue
        ey = expand_seg(y, kind) if isinstance(y, Opq) else None
        if ey is not None:
            B = list(ey) + B[1:]
            continue
        xb = x.base if isinstance(x, Opq) else None
        yb = y.base if isinstance(y, Opq) else None
        if isinstance(xb, (InBase, UfBase)) or isinstance(yb, (InBase, UfBase)):
            # generic content: two distinct non-empty pieces are different
            return False
        raise Unsupported("comparison of %r with %r" % (x, y))
    for rest in (A, B):
        for s in rest:
            if not br(eqn(slen(s), 0)):
                return False
    return ball(conds)


def pack_int(v, size, little, signed=False):
    lo = -(1 << (8 * size - 1)) if signed else 0
    hi = (1 << (8 * size - 1)) if signed else (1 << (8 * size))
    if type(v) is not SymInt:
        return int(v).to_bytes(size, "little" if little else "big", signed=signed)
    if not (br(v >= lo) and br(v < hi)):
        raise OverflowError("int too big to convert")
    return build(bytes, [Opq(PackBase(v, size, little, signed))])


def unpack_int(x, little, signed=False):
    """Integer of the bytes x (of concrete length)."""
    if not is_rope(x):
        return int.from_bytes(x, "little" if little else "big", signed=signed)
    segs = segs_of(x)
    n = xlen(x)
    if len(segs) == 1 and isinstance(segs[0], Opq) and segs[0].full():
        b = segs[0].base
        if isinstance(b, PackBase) and (b.little == little or b.size == 1):
            if b.signed == signed:
                return b.value
            v = b.value
            if signed and not b.signed:
                return mkint(z3.If(v.e >= 1 << (8 * b.size - 1), v.e - (1 << (8 * b.size)), v.e))
            return mkint(z3.If(v.e < 0, v.e + (1 << (8 * b.size)), v.e))
    ats = atoms(x)
    if any(isinstance(a, Opq) for a in ats):
        raise Unsupported("integer in opaque bytes")
    if little:
        ats = ats[::-1]
    bv = z3.simplify(z3.Concat(*[bv8(a) for a in ats])) if len(ats) > 1 else bv8(ats[0])
    w = 8 * len(ats)
    if w <= 56:
        ext = z3.SignExt if signed else z3.ZeroExt
        return mkbv(z3.simplify(ext(core.W - w, bv)), w + 1)
    if w > 160 and not signed:
        return Big(bv)
    return sint(z3.BV2Int(bv, is_signed=signed))


class Big(object):
    """A large non-negative integer made of bytes (an RSA modulus)."""

    _sx = True
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @property
    def __class__(self):
        return int

    @staticmethod
    def _mk(v):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if v.size() <= 56:
            return core.mkbv(z3.simplify(z3.ZeroExt(core.W - v.size(), v)), v.size() + 1)
        return Big(v)

    def __rshift__(self, k):
        k = core.concretise_int(k)
        n = self.v.size()
        return 0 if k >= n else Big._mk(z3.Extract(n - 1, k, self.v))

    def __and__(self, o):
        if is_int_mask(o):
            k = min(int(o).bit_length(), self.v.size())
            return Big._mk(z3.Extract(k - 1, 0, self.v)) if k else 0
        if type(o) is not SymInt and isinstance(o, int) and 0 <= o < 1 << self.v.size():
            return Big._mk(self.v & z3.BitVecVal(int(o), self.v.size()))
        raise Unsupported("bit operation on a large integer")

    __rand__ = __and__

    def __floordiv__(self, o):
        if type(o) is not SymInt and isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        raise Unsupported("division of a large integer")

    def __mod__(self, o):
        if type(o) is not SymInt and isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        raise Unsupported("modulus of a large integer")

    def __divmod__(self, o):
        return self // o, self % o

    def __eq__(self, o):
        if type(o) is Big and o.v.size() == self.v.size():
            return mkbool(z3.simplify(self.v == o.v))
        if type(o) not in (Big, SymInt) and isinstance(o, int):
            return mkbool(z3.simplify(self.v == int(o))) if 0 <= o < 1 << self.v.size() else False
        raise Unsupported("comparison of large integers")

    def __ne__(self, o):
        return core.bnot(self == o)

    def __gt__(self, o):
        if type(o) in (Big, SymInt) or not isinstance(o, int):
            raise Unsupported("comparison of large integers")
        return True if o < 0 else False if o >= 1 << self.v.size() else mkbool(z3.simplify(z3.UGT(self.v, int(o))))

    def __ge__(self, o):
        return self > o - 1

    def __lt__(self, o):
        return core.bnot(self >= o)

    def __le__(self, o):
        return core.bnot(self > o)

    def __bool__(self):
        return bool(self > 0)

    def __hash__(self):
        return 13

    def bit_length(self):
        n = self.v.size()
        while n and not br(self >> (n - 1) == 1):
            n -= 1
        return n

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = core.concretise_int(length)
        if signed:
            raise Unsupported("signed large integer")
        n = self.v.size()
        if 8 * length < n and not br(self < (1 << 8 * length)):
            raise OverflowError("int too big to convert")
        us = [z3.simplify(z3.Extract(min(8 * i + 7, n - 1), 8 * i, self.v)) if 8 * i < n else z3.BitVecVal(0, 8) for i in range(length)]
        us = [z3.simplify(z3.ZeroExt(8 - u.size(), u)) if u.size() < 8 else u for u in us]
        return build(bytes, [Cs(us if byteorder == "little" else us[::-1])])


def is_int_mask(o):
    return type(o) not in (SymInt, Big) and isinstance(o, int) and o >= 0 and o & (o + 1) == 0


# ------------------------------------------------------------------ text codecs
def encode(x, encoding="utf-8", errors="strict"):
    encoding = (encoding or "utf-8").lower().replace("_", "-")
    if not is_rope(x):
        return x.encode(encoding, errors)
    out = []
    enc = {"utf8": "utf-8", "utf-16be": "utf-16-be", "utf-16le": "utf-16-le", "us-ascii": "ascii"}.get(
        encoding, encoding
    )
    if enc not in ("utf-8", "utf-16-le", "utf-16-be", "ascii", "latin-1"):
        raise Unsupported("encode " + encoding)
    for seg in x.segs:
        if isinstance(seg, str):
            out.append(seg.encode(enc, errors))
        elif isinstance(seg, Opq):
            if enc in ("utf-8", "ascii", "latin-1"):
                if seg.base.text:
                    out.append(seg)
                elif hasattr(seg.base, "encoded"):
                    out.append(seg.base.encoded(seg, enc))
                else:
                    out.append(_enc_opq(seg, enc, errors))
            else:
                ex = expand_seg(seg, str)
                if ex is not None and not isinstance(seg.base, (DecBase, B64Base)):
                    out.append(encode(build(str, ex), enc, errors))
                else:
                    out.append(_enc_opq(seg, enc, errors))
        else:
            for u in seg.u:
                out.append(_encode_unit(u, enc, errors))
    return build(bytes, out)


def _enc_opq(seg, enc, errors):
    inner = build(str, [seg])
    if enc.startswith("utf-16"):
        if not seg.base.text:
            raise Unsupported("utf-16 of non ASCII opaque text")
        n = seg.n * 2
    else:
        raise Unsupported("encode an opaque non ASCII string")
    return Opq(WrapBase("enc:" + enc, inner, n, lambda s: s.encode(enc, errors)))


def _encode_unit(u, enc, errors):
    if isinstance(u, int):
        return chr(u).encode(enc, errors)

    def ex(v, hi, lo):
        return z3.simplify(z3.Extract(hi, lo, v))

    def err(reason):
        raise UnicodeEncodeError(enc, "\ud800", 0, 1, reason)

    E = core.E
    if enc in ("ascii", "latin-1"):
        lim = 128 if enc == "ascii" else 256
        if not E.branch(z3.ULT(u, lim)):
            err("ordinal not in range(%d)" % lim)
        return Cs([ex(u, 7, 0)])
    if enc == "utf-8":
        if E.branch(z3.ULT(u, 0x80)):
            return Cs([ex(u, 7, 0)])

        def pre(val, bits, e):
            return z3.simplify(z3.Concat(z3.BitVecVal(val, bits), e))

        if E.branch(z3.ULT(u, 0x800)):
            return Cs([pre(0b110, 3, ex(u, 10, 6)), pre(0b10, 2, ex(u, 5, 0))])
        if E.branch(z3.ULT(u, 0x10000)):
            if errors != "surrogatepass" and E.branch(z3.And(z3.UGE(u, 0xD800), z3.ULE(u, 0xDFFF))):
                err("surrogates not allowed")
            return Cs([pre(0b1110, 4, ex(u, 15, 12)), pre(0b10, 2, ex(u, 11, 6)), pre(0b10, 2, ex(u, 5, 0))])
        return Cs(
            [
                pre(0b11110, 5, ex(u, 20, 18)),
                pre(0b10, 2, ex(u, 17, 12)),
                pre(0b10, 2, ex(u, 11, 6)),
                pre(0b10, 2, ex(u, 5, 0)),
            ]
        )
    # utf-16
    be = enc.endswith("be")
    if E.branch(z3.ULT(u, 0x10000)):
        if errors != "surrogatepass" and E.branch(z3.And(z3.UGE(u, 0xD800), z3.ULE(u, 0xDFFF))):
            err("surrogates not allowed")
        units = [ex(u, 15, 8), ex(u, 7, 0)]
        return Cs(units if be else units[::-1])
    v = u - 0x10000
    hi = z3.simplify(z3.Concat(z3.BitVecVal(0b110110, 6), ex(v, 19, 10)))
    lo = z3.simplify(z3.Concat(z3.BitVecVal(0b110111, 6), ex(v, 9, 0)))
    out = []
    for h in (hi, lo):
        p = [ex(h, 15, 8), ex(h, 7, 0)]
        out.extend(p if be else p[::-1])
    return Cs([x.as_long() if z3.is_bv_value(x) else x for x in out])


def decode(x, encoding="utf-8", errors="strict"):
    encoding = (encoding or "utf-8").lower().replace("_", "-")
    if not is_rope(x):
        return bytes(x).decode(encoding, errors)
    enc = {"utf8": "utf-8", "utf-16be": "utf-16-be", "utf-16le": "utf-16-le", "us-ascii": "ascii"}.get(
        encoding, encoding
    )
    if enc in ("utf-8", "ascii", "latin-1", "utf-8-sig"):
        out = []
        pend = []

        def flush():
            if pend:
                out.append(_decode_units(pend[:], enc, errors))
                del pend[:]

        first = True
        for seg in x.segs:
            if isinstance(seg, bytes):
                pend.extend(seg)
            elif isinstance(seg, Cs):
                pend.extend(seg.u)
            elif seg.base.text:
                flush()
                out.append(seg)
            else:
                dec = getattr(seg.base, "decoded", None)
                if dec is not None:
                    flush()
                    out.append(dec(seg, enc))
                    continue
                e = expand_seg(seg, bytes)
                if e is None:
                    raise Unsupported("decode %s of %r" % (enc, seg))
                for s in e:
                    pend.extend(s if isinstance(s, bytes) else s.u)
        flush()
        return build(str, out)
    if enc in ("utf-16-le", "utf-16-be"):
        out = []
        pend = []
        for seg in x.segs:
            if isinstance(seg, bytes):
                pend.extend(seg)
            elif isinstance(seg, Cs):
                pend.extend(seg.u)
            elif isinstance(seg.base, WrapBase) and seg.base.tag == "enc:" + enc:
                if len(pend) % 2:
                    raise Unsupported("odd utf-16 offset before opaque text")
                out.append(_decode16(pend, enc, errors))
                pend = []
                if seg.full():
                    out.append(seg.base.inner)
                else:
                    a, n = seg.off, seg.n
                    if br((a % 2) != 0) or br((n % 2) != 0):
                        raise UnicodeDecodeError(enc, b"\x00", 0, 1, "truncated data")
                    out.append(xslice(seg.base.inner, a // 2, (a + n) // 2))
            else:
                e = expand_seg(seg, bytes)
                if e is None:
                    raise Unsupported("decode %s of %r" % (enc, seg))
                for s in e:
                    pend.extend(s if isinstance(s, bytes) else s.u)
        out.append(_decode16(pend, enc, errors))
        return build(str, out)
    table = charmap(encoding)
    if table is not None:
        return _decode_map(x, encoding, table, errors)
    raise Unsupported("decode " + encoding)


def charmap(encoding):
    """The characters of the 256 bytes in a one byte code page (None: undefined), or None."""
    import codecs

    name = codecs.lookup(encoding).name
    if name not in CHARMAPS:
        t = []
        for b in range(256):
            try:
                c = bytes([b]).decode(name)
            except UnicodeDecodeError:
                c = None
            t.append(c)
        one = name.startswith(("cp", "iso8859", "koi8", "mac", "latin")) and not name.startswith(("cp932", "cp949", "cp950", "cp65001"))
        CHARMAPS[name] = t if one and all(c is None or len(c) == 1 for c in t) else None
    return CHARMAPS[name]


CHARMAPS = {}


def _decode_map(x, enc, table, errors):
    ascii_ok = all(table[b] == chr(b) for b in range(128))
    out = []
    for seg in x.segs:
        if isinstance(seg, bytes):
            out.append(seg.decode(enc, errors))
            continue
        if isinstance(seg, Opq):
            if seg.base.text and ascii_ok:
                out.append(seg)
                continue
            e = expand_seg(seg, bytes)
            if e is None:
                raise Unsupported("decode %s of %r" % (enc, seg))
            out.append(_decode_map(build(bytes, e), enc, table, errors) if is_rope(build(bytes, e)) else build(bytes, e).decode(enc, errors))
            continue
        for u in seg.u:
            if isinstance(u, int):
                out.append(bytes([u]).decode(enc, errors))
                continue
            bad = [b for b in range(256) if table[b] is None]
            if bad and br(mkbool(z3.simplify(z3.Or(*[u == b for b in bad])))):
                if errors == "strict":
                    raise UnicodeDecodeError(enc, b"?", 0, 1, "character maps to <undefined>")
                raise Unsupported("decode %s with errors=%s" % (enc, errors))
            w = z3.ZeroExt(SW - 8, u)
            r = w
            for b in range(256):
                if table[b] is not None and ord(table[b]) != b:
                    r = z3.If(u == b, z3.BitVecVal(ord(table[b]), SW), r)
            out.append(Cs([z3.simplify(r)]))
    return build(str, out)


def _decode16(units, enc, errors):
    be = enc.endswith("be")
    E = core.E

    def err(reason):
        raise UnicodeDecodeError(enc, b"\x00", 0, 1, reason)

    words = []
    for i in range(0, len(units) - 1, 2):
        a, b = units[i], units[i + 1]
        if not be:
            a, b = b, a
        if isinstance(a, int) and isinstance(b, int):
            words.append(a << 8 | b)
        else:
            words.append(z3.simplify(z3.Concat(bv8(a), bv8(b))))
    words = [w.as_long() if not isinstance(w, int) and z3.is_bv_value(w) else w for w in words]
    out = []
    i = 0

    def isr(w, lo, hi):
        if isinstance(w, int):
            return lo <= w <= hi
        return E.branch(z3.And(z3.UGE(w, lo), z3.ULE(w, hi)))

    while i < len(words):
        w = words[i]
        if isr(w, 0xD800, 0xDFFF):
            ok = errors == "surrogatepass"
            why = None
            if isr(w, 0xDC00, 0xDFFF):
                why = "illegal encoding"
            elif i + 1 >= len(words):
                why = "unexpected end of data"
            elif not isr(words[i + 1], 0xDC00, 0xDFFF):
                why = "illegal UTF-16 surrogate"
            if why:
                if errors not in ("strict", "surrogatepass"):
                    raise Unsupported("utf-16 errors=" + errors)
                if not ok:
                    err(why)
                out.append(w if isinstance(w, int) else z3.simplify(z3.ZeroExt(SW - 16, w)))
                i += 1
                continue
            v = words[i + 1]
            hw, lw = (z3.BitVecVal(t, 16) if isinstance(t, int) else t for t in (w, v))
            c = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(9, 0, hw), z3.Extract(9, 0, lw)) + 0x10000
            c = z3.simplify(c)
            out.append(c.as_long() if z3.is_bv_value(c) else c)
            i += 2
        else:
            out.append(w if isinstance(w, int) else z3.simplify(z3.ZeroExt(SW - 16, w)))
            i += 1
    if len(units) % 2:
        err("truncated data")
    return from_atoms(str, out)


def _decode_units(units, enc, errors):
    E = core.E
    if all(isinstance(u, int) for u in units):
        return bytes(units).decode(enc, errors)

    def err(reason):
        raise UnicodeDecodeError(enc, b"\x80", 0, 1, reason)

    def rng(u, lo, hi):
        c = urange(u, lo, hi)
        return br(c)

    out = []
    if enc in ("ascii", "latin-1"):
        for u in units:
            if enc == "ascii" and not rng(u, 0, 127):
                err("ordinal not in range(128)")
            out.append(u if isinstance(u, int) else z3.ZeroExt(SW - 8, u))
        return from_atoms(str, out)
    if enc == "utf-8-sig":
        raise Unsupported("utf-8-sig on symbolic units")
    if errors != "strict":
        raise Unsupported("lenient decode")
    i = 0

    def cat(parts):
        r = z3.Concat(*parts) if len(parts) > 1 else parts[0]
        r = z3.simplify(z3.ZeroExt(SW - r.size(), r)) if r.size() < SW else z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def low(u, bits):
        return z3.Extract(bits - 1, 0, bv8(u))

    while i < len(units):
        u = units[i]
        if rng(u, 0, 0x7F):
            out.append(u if isinstance(u, int) else cat([u]))
            i += 1
            continue
        if rng(u, 0xC2, 0xDF):
            need, bits = 1, 5
        elif rng(u, 0xE0, 0xEF):
            need, bits = 2, 4
        elif rng(u, 0xF0, 0xF4):
            need, bits = 3, 3
        else:
            err("invalid start byte")
        if i + need >= len(units):
            # fewer continuation bytes than required
            if i + need > len(units) - 1:
                err("unexpected end of data")
        conts = units[i + 1 : i + 1 + need]
        for c in conts:
            if not rng(c, 0x80, 0xBF):
                err("invalid continuation byte")
        v = cat([low(u, bits)] + [low(c, 6) for c in conts])
        lo, hi = {1: (0x80, 0x7FF), 2: (0x800, 0xFFFF), 3: (0x10000, 0x10FFFF)}[need]
        if not rng(v, lo, hi) or (need == 2 and rng(v, 0xD800, 0xDFFF)):
            err("invalid continuation byte")
        out.append(v)
        i += 1 + need
    return from_atoms(str, out)


# ---------------------------------------------------------------------- methods
def inert_safe(pat):
    s = pat if isinstance(pat, str) else pat.decode("latin-1")
    return not any(c in ALPHABET for c in s)


B64ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="


def blob_sets(seg):
    """Per position (modulo a period) the set of units an opaque atom holds."""
    b = seg.base
    if isinstance(b, InBase):
        return [ALPHABET]
    if isinstance(b, B64Base):
        return [B64ALPHA]
    if isinstance(b, DecBase):
        return ["0123456789"] if core.E.must(b.value.e >= 0) else None
    if isinstance(b, UfBase) and b.tag.startswith("hexhash:"):
        return ["0123456789abcdef"]
    if isinstance(b, WrapBase) and b.tag.startswith("enc:utf-16") and seg.full():
        inner = [s for s in b.inner.segs]
        if len(inner) == 1 and isinstance(inner[0], Opq) and isinstance(inner[0].base, InBase):
            return ["\0", ALPHABET] if b.tag.endswith("be") else [ALPHABET, "\0"]
    return None


def blob_excludes(seg, disjoint, start_inside):
    """True when a sequence of unit tests cannot hold over the opaque atom:
    starting at its first unit or, with start_inside, at any of its units.
    disjoint(t, chars) says that test t fails for all of chars."""
    sets = blob_sets(seg)
    if sets is None:
        return False
    per = len(sets)
    for q in range(per if start_inside else 1):
        if not any(disjoint(t, sets[(q + t) % per]) for t in range(per - q)):
            return False
    return True


def lazily(x, fn):
    """fn(atoms of x), with numbers and base64 text spelled out only when needed."""
    if any(isinstance(s, Opq) and isinstance(s.base, (DecBase, B64Base)) for s in x.segs):
        try:
            return fn(atoms(x, keep=(DecBase, B64Base)))
        except Unsupported:
            pass
    return fn(atoms(x))


def match_at(ats, i, pat, kind):
    """Does the concrete/atom list pat match at atom i (forks)?"""
    if i + len(pat) > len(ats):
        # an opaque atom may stand for many units
        window = ats[i:]
        if not any(isinstance(a, Opq) for a in window):
            return False
    conds = []
    for k, p in enumerate(pat):
        if i + k >= len(ats):
            return False
        a = ats[i + k]
        if isinstance(a, Opq):
            if isinstance(p, int):
                rest = pat[k:]

                def disjoint(t, chars):
                    return t < len(rest) and isinstance(rest[t], int) and chr(rest[t]) not in chars

                if blob_excludes(a, disjoint, k == 0):
                    return False
            raise Unsupported("pattern against %r" % a)
        if isinstance(p, Opq):
            raise Unsupported("opaque pattern")
        c = ueq(a, p, width(kind))
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    c = ball(conds)
    return br(c)


def find_atoms(ats, pat, start, kind):
    for i in range(start, len(ats) + 1):
        if not pat:
            return i
        if i < len(ats) and match_at(ats, i, pat, kind):
            return i
    return -1


class Rope(object):
    _sx = True
    __slots__ = ("segs", "_n")
    KIND = None

    def __init__(self, segs):
        self.segs = segs
        self._n = None

    # python protocol
    def __hash__(self):
        return 17

    def __eq__(self, o):
        if type(o) is type(self) or isinstance(o, self.KIND):
            return eq(self, o)
        if self.KIND is bytes and isinstance(o, bytearray):
            return eq(self, o.v if hasattr(o, "v") else bytes(o))
        return False

    def __ne__(self, o):
        return core.bnot(self == o)

    def sx_truth(self):
        n = xlen(self)
        return z3.BoolVal(n != 0) if type(n) is int else n.e != 0

    def __bool__(self):
        return core.E.branch(self.sx_truth())

    def __add__(self, o):
        if self.KIND is bytes and isinstance(o, bytearray):
            return build(bytes, [self, o.v if hasattr(o, "v") else bytes(o)])
        if type(o) is type(self) or isinstance(o, self.KIND):
            return build(self.KIND, [self, o])
        if isinstance(o, (str, bytes)) or is_rope(o):
            raise TypeError("can't concat %s to %s" % (o.__class__.__name__, self.KIND.__name__))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, self.KIND):
            return build(self.KIND, [o, self])
        raise TypeError("can't concat %s to %s" % (self.KIND.__name__, type(o).__name__))

    def __mul__(self, k):
        k = core.concretise_int(k)
        return build(self.KIND, [self] * k)

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return xslice(self, i.start, i.stop, i.step)
        return xindex(self, i)

    def __len__(self):
        n = xlen(self)
        return n if type(n) is int else core.realise_int(n)

    def __iter__(self):
        ats = atoms(self)
        for a in ats:
            if isinstance(a, Opq):
                raise Unsupported("iteration over opaque text")
            if self.KIND is str:
                yield from_atoms(str, [a])
            else:
                yield uint(a)

    def __contains__(self, o):
        return br(self.sx_contains(o))

    def sx_contains(self, o):
        if self.KIND is bytes and (isinstance(o, int)):
            o = bytes([o]) if type(o) is not SymInt else build(bytes, [Cs([int_to_unit(o, bytes)])])
        if not (type(o) is type(self) or isinstance(o, self.KIND)):
            raise TypeError("'in <string>' requires string as left operand")
        if is_rope(o) and len(o.segs) == 1 and isinstance(o.segs[0], Opq):
            # opaque text as a whole: it is there, or only by coincidence
            p = o.segs[0]
            for s in self.segs:
                if isinstance(s, Opq) and s.base is p.base and seq(s.off, p.off) and seq(s.n, p.n):
                    return True
        return find_atoms(atoms(self), atoms(o), 0, self.KIND) >= 0

    def __lt__(self, o):
        return self._order(o) < 0

    def __gt__(self, o):
        return self._order(o) > 0

    def __le__(self, o):
        return self._order(o) <= 0

    def __ge__(self, o):
        return self._order(o) >= 0

    def _order(self, o):
        a, b = atoms(self), atoms(o)
        for x, y in zip(a, b):
            if isinstance(x, Opq) or isinstance(y, Opq):
                if isinstance(x, Opq) and isinstance(y, Opq) and x.base is y.base and seq(x.off, y.off) and seq(x.n, y.n):
                    continue
                raise Unsupported("ordering of opaque text")
            if br(ueq(x, y, width(self.KIND))):
                continue
            if isinstance(x, int) and isinstance(y, int):
                return -1 if x < y else 1
            w = width(self.KIND)
            return -1 if core.E.branch(z3.ULT(uval(x, w), uval(y, w))) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __str__(self):
        return "<symbolic %s>" % self.KIND.__name__

    __repr__ = __str__

    def __format__(self, spec):
        return "<symbolic>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")

    # shared methods
    def _lift(self, o):
        return atoms(o)

    def _mk(self, ats):
        return from_atoms(self.KIND, ats)

    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return sx_method(xslice(self, start, end), "startswith", p)
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        n = xlen(p)
        if type(n) is int and n == 0:
            return True
        if not br(xlen(self) >= n):
            return False
        return eq(xslice(self, 0, n), p)

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return sx_method(xslice(self, start, end), "endswith", p)
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        n = xlen(p)
        if type(n) is int and n == 0:
            return True
        if not br(xlen(self) >= n):
            return False
        return eq(xslice(self, xlen(self) - n, None), p)

    def removeprefix(self, p):
        return xslice(self, xlen(p), None) if br(self.startswith(p)) else self

    def removesuffix(self, p):
        return xslice(self, 0, xlen(self) - xlen(p)) if xlen(p) and br(self.endswith(p)) else self

    def find(self, p, start=0, end=None):
        if self.KIND is bytes and isinstance(p, int):
            p = bytes([int(p)])
        ats = atoms(self)
        if end is not None:
            raise Unsupported("find with end")
        r = find_atoms(ats, atoms(p), core.concretise_int(start or 0), self.KIND)
        if r < 0:
            return -1
        n = 0
        for a in ats[:r]:
            n = add(n, a.n if isinstance(a, Opq) else 1)
        return n

    def index(self, p, start=0):
        r = self.find(p, start)
        if type(r) is int and r == -1:
            raise ValueError("substring not found")
        return r

    def rfind(self, p):
        ats, pat = atoms(self), atoms(p)
        for i in range(len(ats) - len(pat), -1, -1):
            if match_at(ats, i, pat, self.KIND):
                n = 0
                for a in ats[:i]:
                    n = add(n, a.n if isinstance(a, Opq) else 1)
                return n
        return -1

    def rindex(self, p):
        r = self.rfind(p)
        if type(r) is int and r == -1:
            raise ValueError("substring not found")
        return r

    def count(self, p):
        ats, pat = atoms(self), atoms(p)
        c = i = 0
        while True:
            i = find_atoms(ats, pat, i, self.KIND)
            if i < 0:
                return c
            c += 1
            i += len(pat)

    def replace(self, old, new, count=-1):
        ats, pat, rep = atoms(self), atoms(old), atoms(new)
        out = []
        i = 0
        n = 0
        if not pat:
            raise Unsupported("replace of the empty string")
        while i < len(ats):
            if count < 0 or n < count:
                if match_at(ats, i, pat, self.KIND):
                    out.extend(rep)
                    i += len(pat)
                    n += 1
                    continue
            out.append(ats[i])
            i += 1
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            ats = atoms(self)
            out = []
            cur = []
            n = 0
            i = 0
            while i < len(ats):
                a = ats[i]
                if not isinstance(a, Opq) and br(is_space(a, self.KIND)):
                    if cur:
                        out.append(self._mk(cur))
                        cur = []
                    i += 1
                    continue
                if not cur and 0 <= maxsplit <= len(out):
                    rest = ats[i:]
                    while rest and not isinstance(rest[-1], Opq) and br(is_space(rest[-1], self.KIND)):
                        rest = rest[:-1]
                    out.append(self._mk(rest))
                    return out
                cur.append(a)
                i += 1
            if cur:
                out.append(self._mk(cur))
            return out
        pat = atoms(sep)
        if not pat:
            raise ValueError("empty separator")

        def go(ats):
            out = []
            i = last = 0
            while maxsplit < 0 or len(out) < maxsplit:
                i = find_atoms(ats, pat, last, self.KIND)
                if i < 0:
                    break
                out.append(self._mk(ats[last:i]))
                last = i + len(pat)
            out.append(self._mk(ats[last:]))
            return out

        return lazily(self, go)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit on whitespace")
        ats, pat = atoms(self), atoms(sep)
        out = []
        end = len(ats)
        i = end - len(pat)
        while i >= 0 and len(out) < maxsplit:
            if match_at(ats, i, pat, self.KIND):
                out.append(self._mk(ats[i + len(pat) : end]))
                end = i
                i -= len(pat)
            else:
                i -= 1
        out.append(self._mk(ats[:end]))
        return out[::-1]

    def partition(self, sep):
        pat = atoms(sep)

        def go(ats):
            i = find_atoms(ats, pat, 0, self.KIND)
            if i < 0:
                return self, self.KIND(), self.KIND()
            return self._mk(ats[:i]), sep, self._mk(ats[i + len(pat) :])

        return lazily(self, go)

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        if len(p) == 1:
            return self.KIND(), self.KIND(), self
        return p[0], sep, p[1]

    def splitlines(self, keepends=False):
        ats = atoms(self)
        out, cur = [], []
        i = 0
        while i < len(ats):
            a = ats[i]
            if not isinstance(a, Opq):
                if br(ueq(a, 13, width(self.KIND))):
                    nl = [a]
                    if i + 1 < len(ats) and not isinstance(ats[i + 1], Opq) and br(
                        ueq(ats[i + 1], 10, width(self.KIND))
                    ):
                        nl.append(ats[i + 1])
                        i += 1
                    out.append(self._mk(cur + (nl if keepends else [])))
                    cur = []
                    i += 1
                    continue
                c = ueq(a, 10, width(self.KIND))
                if self.KIND is str:
                    c = bany([c] + [ueq(a, v, SW) for v in (11, 12, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029)])
                if br(c):
                    out.append(self._mk(cur + ([a] if keepends else [])))
                    cur = []
                    i += 1
                    continue
            cur.append(a)
            i += 1
        if cur:
            out.append(self._mk(cur))
        return out

    def _strip(self, chars, left, right):
        ats = atoms(self, keep=(DecBase,) if chars is None else ())

        def hit(a):
            if isinstance(a, Opq):
                if not isinstance(a.base, (InBase, B64Base, DecBase)):
                    raise Unsupported("strip opaque")
                if chars is not None and any(chr(c) in ALPHABET for c in atoms(chars)):
                    raise Unsupported("strip opaque")
                return False
            if chars is None:
                return br(is_space(a, self.KIND))
            return br(bany([ueq(a, c, width(self.KIND)) for c in atoms(chars)]))

        i, j = 0, len(ats)
        while left and i < j and hit(ats[i]):
            i += 1
        while right and j > i and hit(ats[j - 1]):
            j -= 1
        if i == 0 and j == len(ats):
            return self
        return self._mk(ats[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _case(self, lower):
        out = []
        for a in atoms(self):
            if isinstance(a, Opq):
                if lower and isinstance(a.base, InBase):
                    out.append(a)
                    continue
                raise Unsupported("case of opaque text")
            if isinstance(a, int):
                c = chr(a)
                if self.KIND is bytes:
                    out.extend(c.encode("latin-1").lower() if lower else c.encode("latin-1").upper())
                else:
                    out.extend(map(ord, c.lower() if lower else c.upper()))
                continue
            if self.KIND is str and not core.E.branch(z3.ULT(a, 128)):
                v = realise_unit(a)
                out.extend(map(ord, chr(v).lower() if lower else chr(v).upper()))
                continue
            if lower:
                out.append(z3.simplify(z3.If(z3.And(z3.UGE(a, 65), z3.ULE(a, 90)), a + 32, a)))
            else:
                out.append(z3.simplify(z3.If(z3.And(z3.UGE(a, 97), z3.ULE(a, 122)), a - 32, a)))
        return self._mk(out)

    def lower(self):
        return self._case(True)

    def upper(self):
        return self._case(False)

    casefold = lower

    def join(self, items):
        return join(self, items)

    def isdigit(self):
        ats = atoms(self)
        if not ats:
            return False
        if all(type(a) is Opq for a in ats):
            return False
        return ball([False if isinstance(a, Opq) else urange(a, 48, 57) for a in ats])

    isdecimal = isnumeric = isdigit

    def isspace(self):
        ats = atoms(self)
        return bool(ats) and ball([False if isinstance(a, Opq) else is_space(a, self.KIND) for a in ats])

    def isascii(self):
        return ball([True if isinstance(a, Opq) else urange(a, 0, 127) for a in atoms(self)])

    def zfill(self, n):
        k = core.concretise_int(n - xlen(self))
        return build(self.KIND, [("0" if self.KIND is str else b"0") * k, self]) if k > 0 else self


def is_space(a, kind):
    if isinstance(a, int):
        return chr(a).isspace() if kind is str else bytes([a]).isspace()
    cs = [urange(a, 9, 13), ueq(a, 32, width(kind))]
    if kind is str:
        cs += [urange(a, 0x1C, 0x1F)] + [ueq(a, v, SW) for v in (0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)]
        cs += [urange(a, 0x2000, 0x200A)]
    return bany(cs)


def realise_unit(u):
    if isinstance(u, int):
        return u
    for _ in range(core.E.realise_cap):
        v = core.E.value(u)
        if core.E.branch(u == v):
            return v.as_long()
    core.note_realised("unit")
    raise core.E._die(core.Cut("too many concrete values of a symbolic character"))


def join(sep, items):
    kind = kind_of(sep)
    out = []
    for i, it in enumerate(items):
        if not (is_str(it) if kind is str else is_bytes(it)):
            raise TypeError("sequence item %d: expected %s instance, %s found" % (i, kind.__name__, type(it).__name__))
        if i:
            out.append(sep)
        out.append(it)
    return build(kind, out)


class SymStr(Rope):
    __slots__ = ()
    KIND = str

    @property
    def __class__(self):
        return str

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self, encoding, errors)

    def isalnum(self):
        ats = atoms(self)
        out = []
        for a in ats:
            if isinstance(a, Opq):
                continue
            if isinstance(a, int):
                out.append(chr(a).isalnum())
            else:
                if not core.E.branch(z3.ULT(a, 128)):
                    raise Unsupported("isalnum of a non ASCII character")
                out.append(bany([urange(a, 48, 57), urange(a, 65, 90), urange(a, 97, 122)]))
        return bool(ats) and ball(out)

    def format(self, *a, **k):
        raise Unsupported("format on a symbolic format string")

    def translate(self, table):
        out = []
        for a in atoms(self):
            if isinstance(a, Opq):
                out.append(a)
                continue
            hit = None
            for key, val in table.items():
                if br(ueq(a, key, SW)):
                    hit = (val,)
                    break
            if hit is None:
                out.append(a)
            elif hit[0] is None:
                continue
            elif isinstance(hit[0], int):
                out.append(hit[0])
            else:
                out.extend(atoms(hit[0]))
        return from_atoms(str, out)


class SymBytes(Rope):
    __slots__ = ()
    KIND = bytes

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def hex(self):
        return decode(hexlify(self), "ascii")

    def tobytes(self):
        return self


def nib_to_hex(n, w):
    """4 bit vector -> lower case hex digit unit of width w."""
    v = z3.ZeroExt(w - 4, n)
    return z3.simplify(z3.If(z3.ULT(v, 10), v + 48, v + 87))


def hexlify(x):
    if not is_rope(x):
        import binascii

        return binascii.hexlify(x)
    out = []
    for a in atoms(x):
        if isinstance(a, Opq):
            raise Unsupported("hex of opaque bytes")
        if isinstance(a, int):
            out.extend(b"%02x" % a)
        else:
            out.append(nib_to_hex(z3.Extract(7, 4, a), 8))
            out.append(nib_to_hex(z3.Extract(3, 0, a), 8))
    return from_atoms(bytes, out)


def hexval(u, kind):
    """(valid, 4 bit value) of a hex digit unit."""
    w = width(kind)
    if isinstance(u, int):
        try:
            return True, z3.BitVecVal(int(chr(u), 16) if chr(u) in "0123456789abcdefABCDEF" else 1 // 0, 4)
        except ZeroDivisionError:
            return False, None
    d, l, U = urange(u, 48, 57), urange(u, 97, 102), urange(u, 65, 70)
    ok = bany([d, l, U])
    low = z3.Extract(3, 0, u)
    v = z3.simplify(z3.If(core.b2z(d), low, low + 9))
    return ok, v


def unhexlify(x):
    import binascii

    if not is_rope(x):
        return binascii.unhexlify(x)
    kind = x.KIND
    ats = atoms(x)
    if any(isinstance(a, Opq) for a in ats):
        raise Unsupported("unhexlify of opaque text")
    if len(ats) % 2:
        raise binascii.Error("Odd-length string")
    if kind is str and not br(ball([urange(a, 0, 127) for a in ats])):
        raise ValueError("string argument should contain only ASCII characters")
    vals = [hexval(a, kind) for a in ats]
    if not br(ball([v[0] for v in vals])):
        raise binascii.Error("Non-hexadecimal digit found")
    out = []
    for i in range(0, len(vals), 2):
        b = z3.simplify(z3.Concat(vals[i][1], vals[i + 1][1]))
        out.append(b.as_long() if z3.is_bv_value(b) else b)
    return from_atoms(bytes, out)


def sx_method(x, name, *a, **k):
    """Call a str/bytes method where x or an argument may be symbolic."""
    if is_rope(x):
        return getattr(x, name)(*a, **k)
    if not any(is_rope(i) for i in a) and not any(is_rope(i) for i in k.values()):
        if name == "join":
            items = list(a[0])
            if any(is_rope(i) for i in items):
                return join(x, items)
            return x.join(items)
        return getattr(x, name)(*a, **k)
    if name == "join":
        return join(x, list(a[0]))
    lifted = (SymStr if isinstance(x, str) else SymBytes)([x] if x else [])
    return getattr(lifted, name)(*a, **k)


def dec(v):
    """str(v) of a symbolic integer."""
    return build(str, [Opq(DecBase(v))])
