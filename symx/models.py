"""Models of the operations and C functions the code under test uses."""
import base64
import binascii
import builtins
import collections
import copy
import hashlib
import ipaddress
import logging
import math
import os
import queue
import re
import string
import struct
import sys
import time
import types
import uuid
import warnings
import xml.etree.ElementTree as ET

import z3

from . import core, rope, sre, xmlm
from .core import SymBool, SymInt, SymReal, Unsupported, ball, bany, is_sym, mkbool, mkint, sint
from .rope import Cs, Opq, Rope, SymBytes, SymStr, atoms, br, build, from_atoms, is_bytes, is_rope, is_str, xlen

MODELS = {}
_keep = []
PYTYPES = (types.FunctionType, types.MethodType)


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[id(f)] = g
            _keep.append(f)
        return g

    return deco


def any_sym(a, k=None):
    for x in a:
        if is_sym(x):
            return True
    if k:
        for x in k.values():
            if is_sym(x):
                return True
    return False


def deep_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return any(deep_sym(i, depth - 1) for kv in x.items() for i in kv)
    return False


# -------------------------------------------------------------------- bytearray
class SymByteArray(object):
    """A bytearray whose content may be symbolic: a cell holding bytes."""

    def __init__(self, v=b""):
        self.v = v

    @property
    def __class__(self):
        return bytearray

    __hash__ = None

    def __len__(self):
        n = rope.xlen(self.v)
        return n if type(n) is int else core.realise_int(n)

    def __bool__(self):
        return bool(self.v)

    def __eq__(self, o):
        o = cell(o)
        return rope.eq(self.v, o) if is_bytes(o) else False

    def __ne__(self, o):
        return core.bnot(self == o)

    def __iter__(self):
        return iter(self.v)

    def __contains__(self, o):
        return bool(sx_in(cell(o), self.v))

    def __getitem__(self, k):
        r = sx_get(self.v, k)
        return SymByteArray(r) if isinstance(k, slice) else r

    def _cut(self, k):
        if not isinstance(k, slice):
            n = rope.xlen(self.v)
            i = k + n if br(k < 0) else k
            if br(i < 0) or br(i >= n):
                raise IndexError("bytearray index out of range")
            return sx_get(self.v, slice(None, i, None)), sx_get(self.v, slice(i + 1, None, None))
        if k.step not in (None, 1):
            raise Unsupported("extended slice of a bytearray")
        tail = b"" if k.stop is None else sx_get(self.v, slice(k.stop, None, None))
        if k.stop is not None and k.start is not None and br(k.start > k.stop):
            raise Unsupported("reversed slice of a bytearray")
        return (b"" if k.start is None else sx_get(self.v, slice(None, k.start, None))), tail

    def __setitem__(self, k, x):
        a, b = self._cut(k)
        if not isinstance(k, slice):
            x = m_bytes([x])
        elif not is_bytes(x):
            x = m_bytes(x)
        self.v = build(bytes, [a, cell(x), b])

    def __delitem__(self, k):
        a, b = self._cut(k)
        self.v = build(bytes, [a, b])

    def __add__(self, o):
        o = cell(o)
        if not is_bytes(o):
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        return SymByteArray(build(bytes, [self.v, o]))

    def __radd__(self, o):
        return build(bytes, [o, self.v])

    def __iadd__(self, o):
        self.v = (self + o).v
        return self

    def __mul__(self, k):
        return SymByteArray(sx_mul(self.v, k))

    def extend(self, o):
        o = cell(o)
        self += o if is_bytes(o) else m_bytes(list(o))

    def append(self, x):
        self += m_bytes([x])

    def insert(self, i, x):
        self[i:i] = m_bytes([x])

    def clear(self):
        self.v = b""

    def copy(self):
        return SymByteArray(self.v)

    def __copy__(self):
        return SymByteArray(self.v)

    def __deepcopy__(self, memo):
        return SymByteArray(self.v)

    def pop(self, i=-1):
        x = sx_get(self.v, i)
        del self[i]
        return x

    def reverse(self):
        self.v = sx_get(self.v, slice(None, None, -1))

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError(name)
        return lambda *a, **k: sx_m(self.v, name, *a, **k)

    def __reduce__(self):
        raise Unsupported("pickling a bytearray")


def cell(x):
    return x.v if type(x) is SymByteArray else x


def cells(a):
    """Arguments in which bytearrays are replaced by what they hold."""
    for x in a:
        t = type(x)
        if t is SymByteArray or t in (list, tuple) and any(type(i) is SymByteArray for i in x):
            return tuple(_cells1(i) for i in a)
    return a


def _cells1(x):
    t = type(x)
    if t is list or t is tuple:
        return t(cell(i) for i in x)
    return cell(x)


# ------------------------------------------------------------------ entry points
def sx_enter(q):
    e = core.E
    if e is not None:
        e.stats.functions.add(q)


def sx_loop():
    e = core.E
    if e is not None:
        e.loop()


SAFE_OWNERS = (list, dict, set, frozenset, collections.deque, tuple, type(ET.Element("x")), type(iter([])))
SAFE_FUNCS = {
    id(f)
    for f in (
        getattr,
        setattr,
        hasattr,
        delattr,
        isinstance,
        issubclass,
        callable,
        id,
        iter,
        next,
        any,
        all,
        sorted,
        print,
        max,
        min,
        sum,
        divmod,
        abs,
        list,
        tuple,
        dict,
        set,
        frozenset,
        zip,
        enumerate,
        reversed,
        slice,
        object,
        property,
        super,
        staticmethod,
        classmethod,
        ET.Element,
        ET.SubElement,
        collections.deque,
        copy.copy,
        copy.deepcopy,
        queue.SimpleQueue,
        memoryview,
    )
}
STR_TYPES = (str, bytes)


def sx_c(f, *a, **k):
    m = MODELS.get(id(f))
    if m is not None:
        return m(*(a if f is type else cells(a)), **k)
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        return f(*a, **k)
    if id(f) not in SAFE_FUNCS and not (isinstance(f, type) and f.__module__.split(".")[0] in ("pypsrp", "props")):
        a = cells(a)
    if t is types.BuiltinMethodType:
        owner = f.__self__
        if owner is not None and not isinstance(owner, types.ModuleType):
            return sx_m(owner, f.__name__, *a, **k)
    if is_sym(f):
        return f(*a, **k)
    if any_sym(a, k) or any(deep_sym(x) for x in a):
        return call_native(f, a, k)
    return f(*a, **k)


def call_native(f, a, k):
    if id(f) in SAFE_FUNCS:
        return f(*a, **k)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*a, **k)
        if f.__flags__ & (1 << 9):  # heap type: a Python class
            init = f.__init__
            new = f.__new__
            if isinstance(init, types.FunctionType) or isinstance(new, types.FunctionType):
                return f(*a, **k)
            if issubclass(f, (list, dict, set, tuple)) and not hasattr(f, "_fields"):
                return f(*a, **k)
    elif not isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodDescriptorType, types.WrapperDescriptorType, types.MethodWrapperType)):
        return f(*a, **k)
    else:
        if isinstance(f, (types.MethodWrapperType, types.WrapperDescriptorType)):
            return f(*a, **k)
        owner = getattr(f, "__self__", None)
        if isinstance(owner, SAFE_OWNERS):
            return f(*a, **k)
        if isinstance(f, types.MethodDescriptorType) and a:
            if f.__objclass__ in (str, bytes):
                return sx_m(a[0], f.__name__, *a[1:], **k)
            if issubclass(f.__objclass__, SAFE_OWNERS):
                return f(*a, **k)
    n = getattr(f, "__qualname__", None) or getattr(f, "__name__", str(f))
    core.note_realised(n)
    return f(*[realise(x) for x in a], **{q: realise(x) for q, x in k.items()})


def realise(x, depth=3):
    """A concrete value by case splitting (bounded; recorded)."""
    if type(x) is SymInt:
        return core.realise_int(x)
    if type(x) is SymBool:
        return bool(x)
    if type(x) is SymReal:
        return float(x)
    if is_rope(x):
        out = []
        for s in x.segs:
            if isinstance(s, (str, bytes)):
                out.append(s)
            elif isinstance(s, Cs):
                for u in s.u:
                    v = rope.realise_unit(u)
                    out.append(chr(v) if x.KIND is str else bytes([v]))
            else:
                ex = rope.expand_seg(s, x.KIND)
                if ex is not None:
                    out.append(realise(build(x.KIND, ex)))
                    continue
                off, n = core.concretise_int(s.off), core.concretise_int(s.n)
                if isinstance(s.base, rope.InBase):
                    c = rope.content(s.base.name, off + n)
                    out.append(c[off:] if x.KIND is str else c[off:].encode())
                elif isinstance(s.base, rope.B64Base) and s.full():
                    b = base64.b64encode(realise(s.base.inner))
                    out.append(b.decode() if x.KIND is str else b)
                else:
                    raise Unsupported("concrete value of %r" % s)
        return x.KIND().join(out)
    if isinstance(x, SymUUID):
        return uuid.UUID(bytes=realise(x.b))
    if depth and type(x) in (list, tuple):
        return type(x)(realise(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return {realise(a, depth - 1): realise(b, depth - 1) for a, b in x.items()}
    return x


METHODS = {}


def method(t, *names):
    def deco(g):
        for n in names:
            METHODS[(t, n)] = g
        return g

    return deco


def _log(self, *a, **k):
    return None


for _n in ("debug", "info", "warning", "error", "exception", "critical", "log", "warn"):
    METHODS[(logging.Logger, _n)] = _log


def sx_m(obj, name, *a, **k):
    t = type(obj)
    if t is str or t is bytes or t is SymStr or t is SymBytes:
        a = cells(a)
        if t is str and name == "format":
            return fmt_format(obj, a, k)
        if t is str and name == "format_map":
            return fmt_format(obj, (), a[0])
        return rope.sx_method(obj, name, *a, **k)
    h = METHODS.get((t, name))
    if h is not None:
        return h(obj, *cells(a), **k)
    if isinstance(obj, dict):
        if name in DICT_METHODS:
            return DICT_METHODS[name](obj, *a, **k)
    elif t is type:
        a = cells(a)
        if obj is int and name == "from_bytes":
            return int_from_bytes(*a, **k)
        if obj is bytes and name == "fromhex":
            return bytes.fromhex(a[0]) if not is_rope(a[0]) else rope.unhexlify(a[0].replace(" ", ""))
        if obj in (str, bytes) and a and name != "maketrans":
            return sx_m(a[0], name, *a[1:], **k)
        if obj is dict and name == "fromkeys":
            return dict.fromkeys(*a)
    elif isinstance(obj, int) and t is not SymInt and name == "to_bytes":
        return obj.to_bytes(*[realise(x) for x in a], **k)
    elif isinstance(obj, (set, frozenset)) and name in ("add", "discard", "remove", "__contains__"):
        return set_method(obj, name, *a)
    elif isinstance(obj, logging.Logger):
        if name in ("debug", "info", "warning", "error", "exception", "critical", "log"):
            return None
    f = getattr(obj, name)
    return sx_c2(f, obj, *a, **k)


def sx_c2(f, owner, *a, **k):
    m = MODELS.get(id(f))
    if m is not None:
        return m(*cells(a), **k)
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        return f(*a, **k)
    if not isinstance(owner, SAFE_OWNERS):
        a = cells(a)
    if any_sym(a, k) or any(deep_sym(x) for x in a):
        if t is types.BuiltinMethodType and isinstance(owner, SAFE_OWNERS):
            return f(*a, **k)
        return call_native(f, a, k)
    return f(*a, **k)


# ------------------------------------------------------------------ dictionaries
MISSING = object()


def key_eq(a, b):
    if is_rope(a) or is_rope(b):
        if is_str(a) and is_str(b) or is_bytes(a) and is_bytes(b):
            return rope.eq(a, b)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return ball([key_eq(x, y) for x, y in zip(a, b)])
    return a == b


def rkey(d, key):
    """The key already in d that equals key, or MISSING."""
    ks = deep_sym(key)
    if not ks:
        try:
            if key in d:
                return key
        except TypeError:
            raise
        for q in d:
            if deep_sym(q):
                break
        else:
            return MISSING
    for q in list(d):
        if not ks and not deep_sym(q):
            continue
        if br(key_eq(q, key)):
            return q
    return MISSING


def d_get(d, key, default=None):
    q = rkey(d, key)
    return default if q is MISSING else d[q]


def d_getitem(d, key):
    q = rkey(d, key)
    if q is MISSING:
        m = getattr(type(d), "__missing__", None)
        if m is not None:
            return m(d, key)
        raise KeyError(key)
    return dict.__getitem__(d, q) if type(d) is dict else d[q]


def d_set(d, key, v):
    q = rkey(d, key)
    d[key if q is MISSING else q] = v


def d_del(d, key):
    q = rkey(d, key)
    if q is MISSING:
        raise KeyError(key)
    del d[q]


def d_pop(d, key, *default):
    q = rkey(d, key)
    if q is MISSING:
        if default:
            return default[0]
        raise KeyError(key)
    return dict.pop(d, q)


def d_setdefault(d, key, default=None):
    q = rkey(d, key)
    if q is MISSING:
        d[key] = default
        return default
    return d[q]


def d_update(d, *a, **k):
    for x in a:
        for q, v in x.items() if hasattr(x, "items") else x:
            d_set(d, q, v)
    for q, v in k.items():
        d_set(d, q, v)


DICT_METHODS = {
    "get": d_get,
    "pop": d_pop,
    "setdefault": d_setdefault,
    "__contains__": lambda d, key: rkey(d, key) is not MISSING,
    "__getitem__": d_getitem,
    "__setitem__": d_set,
    "update": d_update,
}


def set_method(s, name, x):
    hit = MISSING
    if not deep_sym(x):
        if x in s:
            hit = x
    if hit is MISSING:
        for q in list(s):
            if (deep_sym(q) or deep_sym(x)) and br(key_eq(q, x)):
                hit = q
                break
    if name == "__contains__":
        return hit is not MISSING
    if name == "add":
        if hit is MISSING:
            s.add(x)
    elif name == "discard":
        if hit is not MISSING:
            s.discard(hit)
    else:
        if hit is MISSING:
            raise KeyError(x)
        s.remove(hit)


class DictView(object):
    """Assignment target wrapper for dictionaries with symbolic keys."""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return d_getitem(self.d, k)

    def __setitem__(self, k, v):
        d_set(self.d, k, v)

    def __delitem__(self, k):
        d_del(self.d, k)


def sx_w(obj):
    if isinstance(obj, dict):
        return DictView(obj)
    return obj


def sx_get(obj, key):
    t = type(obj)
    if t is str or t is bytes:
        if isinstance(key, slice):
            if is_sym(key.start) or is_sym(key.stop) or is_sym(key.step):
                return rope.xslice(obj, key.start, key.stop, key.step)
        elif is_sym(key):
            return rope.xindex(obj, key)
        return obj[key]
    if isinstance(obj, dict):
        return d_getitem(obj, key)
    if t in (list, tuple):
        if isinstance(key, slice):
            if is_sym(key.start) or is_sym(key.stop) or is_sym(key.step):
                key = slice(realise(key.start), realise(key.stop), realise(key.step))
        elif type(key) in (SymInt, SymBool):
            n = len(obj)
            if br(key < -n) or br(key >= n):
                raise IndexError("list index out of range")
            key = core.realise_int(key if type(key) is SymInt else key._int())
        return obj[key]
    return obj[key]


def sx_in(a, b):
    t = type(b)
    if t is SymStr or t is SymBytes:
        return b.sx_contains(a)
    if t is str or t is bytes:
        if is_rope(a):
            return rope.find_atoms(atoms(b), atoms(a), 0, t) >= 0
        if is_sym(a):
            return bany([a == x for x in b])
        return a in b
    if isinstance(b, dict):
        return rkey(b, a) is not MISSING
    if t in (set, frozenset):
        return set_method(b, "__contains__", a)
    if t in (list, tuple):
        for x in b:
            if x is a or br(safe_eq(x, a)):
                return True
        return False
    if t is type({}.keys()):
        return sx_in(a, list(b))
    return a in b


def safe_eq(a, b):
    r = a == b
    if r is True or r is False or type(r) is SymBool:
        return r
    return bool(r)


def sx_nin(a, b):
    return not sx_in(a, b)


# -------------------------------------------------------------------- formatting
def to_str(v, conv=None):
    if conv in ("r", "a", 114, 97):
        if deep_sym(v):
            return sym_repr(v)
        return repr(v)
    return m_str(v)


def sym_repr(v):
    if is_rope(v):
        q = build(str, ["b'" if v.KIND is bytes else "'", v if v.KIND is str else "<symbolic>", "'"])
        return q
    if type(v) is SymInt:
        return rope.dec(v)
    return "<symbolic repr>"


def own_text(x):
    """Its text may be symbolic although nothing shows on the outside."""
    if isinstance(x, BaseException):
        return True
    t = type(x)
    return isinstance(getattr(t, "__str__", None), types.FunctionType) and t.__module__.split(".")[0] in ("pypsrp", "props")


FMT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\d+))?(?P<conv>[a-zA-Z%])")


def sx_mod(a, b):
    if not (type(a) in (str, bytes) or is_rope(a)):
        if type(a) is SymInt or type(b) is SymInt:
            return a % b
        return a % b
    if not is_rope(a):
        args = b if type(b) is tuple else (b,)
        if not any(deep_sym(x) for x in args) and not (
            isinstance(b, dict) and any(deep_sym(x) for x in b.values())
        ) and not any(own_text(x) for x in args):
            return a % b
    if is_rope(a):
        if any(not isinstance(s, (str, bytes)) and not isinstance(s, (Cs, Opq)) for s in a.segs):
            raise Unsupported("% on a symbolic format")
    isb = is_bytes(a)
    segs = rope.segs_of(a)
    args = list(b) if type(b) is tuple else [b]
    ai = 0
    out = []
    for seg in segs:
        if not isinstance(seg, (str, bytes)):
            # symbolic text in a format string: only safe without '%'
            if isinstance(seg, Cs):
                if not br(ball([core.bnot(rope.ueq(u, 37, u.size() if not isinstance(u, int) else 8)) for u in seg.u])):
                    raise Unsupported("symbolic format string")
            out.append(seg)
            continue
        s = seg.decode("latin-1") if isb else seg
        pos = 0
        for mt in FMT.finditer(s):
            lit = s[pos : mt.start()]
            out.append(lit.encode("latin-1") if isb else lit)
            pos = mt.end()
            conv = mt.group("conv")
            if conv == "%":
                out.append(b"%" if isb else "%")
                continue
            if mt.group("key") is not None:
                v = b[mt.group("key")]
            else:
                if ai >= len(args):
                    raise TypeError("not enough arguments for format string")
                v = args[ai]
                ai += 1
            r = fmt_one(v, conv, mt.group("flags") or "", mt.group("width"), mt.group("prec"), isb, mt.group(0))
            out.append(r)
        lit = s[pos:]
        out.append(lit.encode("latin-1") if isb else lit)
    if ai < len(args) and not isinstance(b, dict):
        raise TypeError("not all arguments converted during string formatting")
    return build(bytes if isb else str, out)


def fmt_one(v, conv, flags, width, prec, isb, spec):
    if not deep_sym(v) and not own_text(v):
        if "(" in spec:
            spec = "%" + spec[spec.index(")") + 1 :]
        r = (spec.encode("latin-1") if isb else spec) % (v,)
        return r
    if conv in "di" or (conv == "u"):
        if is_rope(v):
            raise TypeError("%d format: a real number is required, not " + v.KIND.__name__)
        if type(v) is SymReal:
            v = v.sx_int()
        if type(v) is SymBool:
            v = v._int()
        r = rope.dec(v) if type(v) is SymInt else str(v)
        if width:
            n = int(width) - xlen(r)
            n = core.concretise_int(n)
            if n > 0:
                r = build(str, [("0" if "0" in flags else " ") * n, r])
        return rope.encode(r, "ascii") if isb else r
    if conv in "xX":
        r = hex_of(v, int(width or 0) if "0" in flags else 0)
        if conv == "X":
            r = rope.sx_method(r, "upper")
        return rope.encode(r, "ascii") if isb else r
    if conv in "srab":
        if isb:
            if conv in "sb" and is_bytes(v):
                return v
            raise Unsupported("bytes format")
        r = to_str(v, conv)
        if width and core.concretise_int(int(width) - xlen(r)) > 0:
            raise Unsupported("padded format")
        return r
    if conv == "c":
        return m_chr(v) if type(v) is SymInt else v
    raise Unsupported("format %" + conv)


def hex_of(v, minw):
    """Lower case hexadecimal digits of a non negative integer."""
    if type(v) is not SymInt:
        return "%0*x" % (minw, int(v))
    if br(v < 0):
        raise Unsupported("hex of a negative number")
    w = max(minw, 1)
    while not br(v < 16**w):
        w += 1
        if w > 16:
            raise Unsupported("hex of a large number")
    bv = v._as_bv().bv
    us = []
    for i in range(w - 1, -1, -1):
        us.append(rope.nib_to_hex(z3.Extract(4 * i + 3, 4 * i, bv), rope.SW))
    return from_atoms(str, [u.as_long() if z3.is_bv_value(u) else u for u in us])


def fmt_value(v, conv, spec):
    if conv not in (None, -1, "s", 115, "r", 114, "a", 97):
        raise Unsupported("conversion")
    if conv in ("r", 114, "a", 97):
        v = to_str(v, "r")
    elif conv in ("s", 115):
        v = m_str(v)
    if not deep_sym(v) and not is_sym(spec):
        if isinstance(v, BaseException):
            v = m_str(v)
            if is_rope(v):
                return v
        return format(v, spec or "")
    if not spec:
        return m_str(v)
    mt = re.fullmatch(r"(0)?(\d+)?([dxXs]?)", spec)
    if not mt:
        raise Unsupported("format spec %s" % spec)
    conv = mt.group(3) or ("d" if type(v) is SymInt else "s")
    return fmt_one(v, conv, mt.group(1) or "", mt.group(2), None, False, "%" + spec)


def sx_f(*parts):
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, conv, spec = p
            if conv == -1:
                conv = None
            r = fmt_value(v, conv, spec)
            out.append(r)
    return build(str, out)


def fmt_format(s, a, k):
    if not any(deep_sym(x) for x in a) and not any(deep_sym(x) for x in k.values()) and not any(
        isinstance(x, BaseException) for x in list(a) + list(k.values())
    ):
        return s.format(*a, **k)
    out = []
    auto = 0
    F = string.Formatter()
    for lit, field, spec, conv in F.parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        else:
            first, rest = __import__("_string").formatter_field_name_split(field)
            v = a[first] if isinstance(first, int) else k[first]
            for is_attr, i in rest:
                v = getattr(v, i) if is_attr else sx_get(v, i)
        out.append(fmt_value(v, conv, spec))
    return build(str, out)


def sx_mul(a, b):
    if type(b) is SymInt and (isinstance(a, (str, bytes, list, tuple)) or is_rope(a)):
        return a * core.realise_int(b)
    if type(a) is SymInt and (isinstance(b, (str, bytes, list, tuple)) or is_rope(b)):
        return b * core.realise_int(a)
    return a * b


# ---------------------------------------------------------------------- builtins
@model(len)
def m_len(x):
    if is_rope(x):
        return xlen(x)
    return len(x)


@model(type)
def m_type(*a):
    if len(a) == 1 and type(a[0]) is SymByteArray:
        return bytearray
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a)


@model(str)
def m_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        if is_bytes(x):
            return sx_m(x, "decode", *a[1:], **k)
        return str(*a, **k)
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return rope.dec(x)
    if t is SymBool:
        return "True" if bool(x) else "False"
    if t is SymReal:
        return str(float(x))
    if t is SymBytes:
        return sym_repr(x)
    if isinstance(x, SymUUID):
        return x.text()
    if isinstance(x, BaseException) and len(x.args) == 1 and deep_sym(x.args[0]):
        if type(x).__str__ in (BaseException.__str__, Exception.__str__, OSError.__str__):
            return m_str(x.args[0])
    if t in (list, tuple, dict) and deep_sym(x):
        return "<symbolic %s>" % t.__name__
    m = getattr(t, "__str__", None)
    if isinstance(m, types.FunctionType) and t.__module__.split(".")[0] in ("pypsrp", "props"):
        return m(x)
    return str(x)


@model(repr)
def m_repr(x):
    return sym_repr(x) if is_sym(x) else repr(x)


@model(bool)
def m_bool(x=False):
    return bool(x)


@model(int)
def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get("base", 10)
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x._int()
    if type(x) is SymReal:
        return x.sx_int()
    if is_rope(x):
        return parse_int(x, core.concretise_int(base))
    if isinstance(x, SymUUID):
        raise TypeError("int() argument")
    m = getattr(type(x), "__int__", None)
    return int(*a, **k)


def parse_int(x, base):
    if len(x.segs) == 1 and isinstance(x.segs[0], Opq) and isinstance(x.segs[0].base, rope.DecBase) and x.segs[0].full() and base == 10:
        return x.segs[0].base.value
    ats = atoms(x)
    bad = ValueError("invalid literal for int() with base %d" % base)
    for a in ats:
        if isinstance(a, Opq):
            raise bad
    while ats and br(rope.is_space(ats[0], x.KIND)):
        ats = ats[1:]
    while ats and br(rope.is_space(ats[-1], x.KIND)):
        ats = ats[:-1]
    neg = False
    w = rope.width(x.KIND)
    if ats:
        if br(rope.ueq(ats[0], 45, w)):
            neg = True
            ats = ats[1:]
        elif br(rope.ueq(ats[0], 43, w)):
            ats = ats[1:]
    if not ats:
        raise bad
    if base == 10:
        # digits outside ASCII and underscores are recorded as cuts
        ok = ball([rope.urange(u, 48, 57) for u in ats])
        if not br(ok):
            odd = bany([core.bnot(rope.urange(u, 0, 127)) if x.KIND is str else False for u in ats] + [rope.ueq(u, 95, w) for u in ats])
            if br(odd):
                raise Unsupported("int() of underscores or non ASCII characters")
            raise bad
        v = 0
        for u in ats:
            d = rope.uint(u) - 48
            v = v * 10 + d
        return -v if neg else v
    if base == 16:
        hv = [rope.hexval(u, x.KIND) for u in ats]
        if not br(ball([h[0] for h in hv])):
            raise bad
        bv = z3.Concat(*[h[1] for h in hv]) if len(hv) > 1 else hv[0][1]
        if bv.size() > 56:
            return sint(z3.BV2Int(bv))
        r = core.mkbv(z3.simplify(z3.ZeroExt(core.W - bv.size(), bv)), bv.size() + 1)
        return -r if neg else r
    raise Unsupported("int() with base %d" % base)


@model(float)
def m_float(*a):
    if not a or not is_sym(a[0]):
        return float(*a)
    x = a[0]
    if type(x) in (SymReal,):
        return x
    if type(x) is SymInt:
        return SymReal(z3.ToReal(x.e))
    if is_rope(x):
        if len(x.segs) == 1 and isinstance(x.segs[0], Opq) and isinstance(x.segs[0].base, rope.DecBase):
            return SymReal(z3.ToReal(x.segs[0].base.value.e))
        return float(realise(x))
    return float(x)


@model(bytes)
def m_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    if is_rope(x):
        if x.KIND is bytes:
            return x
        return rope.encode(x, *a[1:], **k)
    if type(x) is SymInt:
        return bytes(core.realise_int(x))
    if type(x) in (list, tuple) and deep_sym(x):
        return from_atoms(bytes, [rope.int_to_unit(byte_range(i), bytes) for i in x])
    if hasattr(type(x), "__next__") or isinstance(x, (SymRange, collections.deque)):
        return m_bytes(list(x))
    if isinstance(x, SymUUID):
        raise TypeError("cannot convert 'UUID' object to bytes")
    return bytes(*a, **k)


def byte_range(i):
    if type(i) is SymInt and not (br(i >= 0) and br(i <= 255)):
        raise ValueError("bytes must be in range(0, 256)")
    return i


@model(bytearray)
def m_bytearray(*a, **k):
    if a and is_str(a[0]) and len(a) == 1 and not k:
        raise TypeError("string argument without an encoding")
    return SymByteArray(m_bytes(*a, **k) if a else b"")


@model(memoryview)
def m_memoryview(x):
    return x if is_rope(x) else memoryview(x)


@model(reversed)
def m_reversed(x):
    return iter(list(iter(x))[::-1]) if is_rope(x) else reversed(x)


@model(list)
def m_list(*a):
    if a and is_rope(a[0]):
        return [x for x in iter(a[0])]
    return list(*a)


@model(tuple)
def m_tuple(*a):
    if a and is_rope(a[0]):
        return tuple([x for x in iter(a[0])])
    return tuple(*a)


@model(ord)
def m_ord(c):
    if not is_rope(c):
        return ord(c)
    ats = atoms(c)
    if len(ats) != 1:
        raise TypeError("ord() expected a character, but string of length %d found" % len(ats))
    if isinstance(ats[0], Opq):
        raise Unsupported("ord of opaque text")
    return rope.uint(ats[0])


@model(chr)
def m_chr(i):
    if type(i) is not SymInt:
        return chr(i)
    if not (br(i >= 0) and br(i <= 0x10FFFF)):
        raise ValueError("chr() arg not in range(0x110000)")
    return from_atoms(str, [rope.int_to_unit(i, str)])


@model(range)
def m_range(*a):
    if not any_sym(a):
        return range(*a)
    return SymRange(*a)


class SymRange(object):
    def __init__(self, *a):
        self.start, self.stop, self.step = 0, None, 1
        if len(a) == 1:
            self.stop = a[0]
        else:
            self.start, self.stop = a[0], a[1]
            if len(a) == 3:
                self.step = a[2]
        if br(self.step == 0):
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        up = br(self.step > 0)
        while br(i < self.stop) if up else br(i > self.stop):
            core.E.loop()
            yield i
            i = i + self.step

    def __len__(self):
        return sum(1 for _ in self)

    def __reversed__(self):
        return iter(list(self)[::-1])


@model(min)
def m_min(*a, **k):
    return _minmax(min, a, k, lambda x, y: x <= y)


@model(max)
def m_max(*a, **k):
    return _minmax(max, a, k, lambda x, y: x >= y)


def _minmax(f, a, k, keep):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(type(x) in (SymInt, SymReal) for x in xs):
        return f(xs, **k) if len(a) == 1 or k else f(*a)
    r = xs[0]
    for x in xs[1:]:
        if type(r) in (SymInt, int) and type(x) in (SymInt, int):
            c = keep(r, x)
            if type(c) is SymBool:
                r = sint(z3.If(c.e, core.zint(r), core.zint(x)))
            elif not c:
                r = x
        elif not br(keep(r, x)):
            r = x
    return r


@model(round)
def m_round(x, n=None):
    if type(x) is SymInt:
        return x
    if type(x) is SymReal:
        raise Unsupported("round of a real")
    return round(x) if n is None else round(x, n)


@model(math.ceil)
def m_ceil(x):
    return x.sx_ceil() if type(x) is SymReal else (x if type(x) is SymInt else math.ceil(x))


@model(math.floor)
def m_floor(x):
    return x.sx_floor() if type(x) is SymReal else (x if type(x) is SymInt else math.floor(x))


@model(hex)
def m_hex(x):
    return build(str, ["0x", hex_of(x, 0)]) if type(x) is SymInt else hex(x)


@model(format)
def m_format(v, spec=""):
    return fmt_value(v, None, spec)


@model(map)
def m_map(f, *its):
    return (sx_c(f, *xs) for xs in zip(*its))


@model(filter)
def m_filter(f, it):
    return (x for x in it if (sx_c(f, x) if f is not None else x))


@model(sorted)
def m_sorted(it, key=None, reverse=False):
    kf = (lambda x: sx_c(key, x)) if key is not None else None
    return sorted(it, key=kf, reverse=reverse)


@model(getattr)
def m_getattr(o, n, *d):
    return getattr(o, realise(n) if is_sym(n) else n, *d)


@model(setattr)
def m_setattr(o, n, v):
    return setattr(o, realise(n) if is_sym(n) else n, v)


@model(hasattr)
def m_hasattr(o, n):
    return hasattr(o, realise(n) if is_sym(n) else n)


@model(hash)
def m_hash(x):
    return 0 if deep_sym(x) else hash(x)


# ------------------------------------------------------------------------ struct
STRUCT = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True), "L": (4, False), "l": (4, True), "Q": (8, False), "q": (8, True)}


def parse_fmt(fmt):
    if is_bytes(fmt):
        fmt = fmt.decode()
    order = "@"
    if fmt and fmt[0] in "@=<>!":
        order, fmt = fmt[0], fmt[1:]
    little = order in "<" or (order in "@=" and sys.byteorder == "little")
    out = []
    for cnt, c in re.findall(r"(\d*)\s*([a-zA-Z?])", fmt):
        if c in ("s", "x"):
            out.append((c, int(cnt or 1), False))
            continue
        if c not in STRUCT:
            raise Unsupported("struct format " + c)
        size, signed = STRUCT[c]
        if order == "@" and c in "lL":
            size = 8
        for _ in range(int(cnt or 1)):
            out.append((c, size, signed))
    return little, out, order


@model(struct.calcsize)
def m_calcsize(fmt):
    return struct.calcsize(fmt)


@model(struct.pack)
def m_pack(fmt, *vals):
    if not any_sym(vals):
        return struct.pack(fmt, *vals)
    little, items, order = parse_fmt(fmt)
    if order == "@" and len(items) > 1:
        raise Unsupported("native alignment")
    n = sum(1 for c, _, _ in items if c != "x")
    if n != len(vals):
        raise struct.error("pack expected %d items for packing (got %d)" % (n, len(vals)))
    out = []
    vals = list(vals)
    for c, size, signed in items:
        if c == "x":
            out.append(b"\0" * size)
            continue
        v = vals.pop(0)
        if c == "s":
            if rope.must(rope.eqn(xlen(v), size)) if is_rope(v) else len(v) == size:
                out.append(v)
                continue
            k = core.concretise_int(xlen(v))
            out.append(rope.xslice(v, 0, size))
            out.append(b"\0" * max(0, size - k))
            continue
        if is_rope(v) or not isinstance(v, int):
            raise struct.error("required argument is not an integer")
        try:
            out.append(rope.pack_int(v, size, little, signed))
        except OverflowError:
            raise struct.error("argument out of range")
    return build(bytes, out)


@model(struct.unpack)
def m_unpack(fmt, data):
    if not is_rope(data):
        return struct.unpack(fmt, data)
    little, items, order = parse_fmt(fmt)
    if order == "@" and len(items) > 1:
        raise Unsupported("native alignment")
    total = sum(s for _, s, _ in items)
    if not br(rope.eqn(xlen(data), total)):
        raise struct.error("unpack requires a buffer of %d bytes" % total)
    out = []
    pos = 0
    for c, size, signed in items:
        piece = rope.xslice(data, pos, pos + size)
        pos += size
        if c == "x":
            continue
        out.append(piece if c == "s" else rope.unpack_int(piece, little, signed))
    return tuple(out)


@model(struct.unpack_from)
def m_unpack_from(fmt, data, offset=0):
    n = struct.calcsize(fmt)
    if not is_rope(data) and not is_sym(offset):
        return struct.unpack_from(fmt, data, offset)
    if not br(xlen(data) >= offset + n):
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % n)
    return m_unpack(fmt, rope.xslice(data, offset, offset + n))


@method(struct.Struct, "pack")
def st_pack(s, *v):
    return m_pack(s.format, *v)


@method(struct.Struct, "unpack")
def st_unpack(s, d):
    return m_unpack(s.format, d)


@method(struct.Struct, "unpack_from")
def st_unpack_from(s, d, offset=0):
    return m_unpack_from(s.format, d, offset)


def int_from_bytes(data, byteorder="big", *, signed=False):
    if type(data) in (list, tuple):
        data = m_bytes(data)
    if not is_rope(data):
        return int.from_bytes(data, byteorder, signed=signed)
    if type(xlen(data)) is not int:
        core.realise_int(xlen(data))
    return rope.unpack_int(data, byteorder == "little", signed)


# ------------------------------------------------------------- base64 / binascii
@model(base64.b64encode, base64.standard_b64encode)
def m_b64encode(x, altchars=None):
    if not is_rope(x):
        return base64.b64encode(x, altchars)
    if x.KIND is str:
        raise TypeError("a bytes-like object is required, not 'str'")
    return build(bytes, [Opq(rope.B64Base(x))])


@model(base64.b64decode, base64.standard_b64decode)
def m_b64decode(x, altchars=None, validate=False):
    if not is_rope(x):
        return base64.b64decode(x, altchars, validate)
    if len(x.segs) == 1 and isinstance(x.segs[0], Opq) and isinstance(x.segs[0].base, rope.B64Base):
        s = x.segs[0]
        if s.full():
            return s.base.inner
        if br((s.off % 4) == 0) and br((s.n % 4) == 0):
            return rope.xslice(s.base.inner, s.off // 4 * 3, (s.off + s.n) // 4 * 3)
        raise binascii.Error("Incorrect padding")
    for s in x.segs:
        if isinstance(s, Opq) and not (isinstance(s.base, rope.B64Base) and s.full()):
            raise Unsupported("base64 decoding of %r" % s)
    if any(isinstance(s, Cs) for s in x.segs):
        return b64_units(x)
    out = []
    for s in x.segs:
        if isinstance(s, (str, bytes)):
            t = s if isinstance(s, str) else s.decode("latin-1")
            if t.strip() == "":
                continue
            raise Unsupported("base64 decoding of mixed text")
        out.append(s.base.inner)
    return build(bytes, out)


@model(base64.encodebytes)
def m_encodebytes(x):
    if not is_rope(x):
        return base64.encodebytes(x)
    raise Unsupported("encodebytes")


def b64_units(x):
    """b64decode of symbolic characters assumed canonical (others are cut)."""
    ats = atoms(x)
    vals = []
    pad = 0
    for u in ats:
        if isinstance(u, Opq):
            raise Unsupported("base64 of mixed text")
        w = rope.width(x.KIND)
        A, a, d = rope.urange(u, 65, 90), rope.urange(u, 97, 122), rope.urange(u, 48, 57)
        p, sl, e = rope.ueq(u, 43, w), rope.ueq(u, 47, w), rope.ueq(u, 61, w)
        if br(e):
            pad += 1
            continue
        if pad or not br(bany([A, a, d, p, sl])):
            raise Unsupported("base64 of text outside the alphabet")
        b = z3.Extract(7, 0, rope.uval(u, w)) if w > 8 else rope.uval(u, w)
        v = z3.If(core.b2z(A), b - 65, z3.If(core.b2z(a), b - 71, z3.If(core.b2z(d), b + 4, z3.If(core.b2z(p), z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))
        vals.append(z3.simplify(z3.Extract(5, 0, v)))
    if (len(vals) + pad) % 4:
        raise binascii.Error("Incorrect padding")
    out = []
    for i in range(0, len(vals), 4):
        g = vals[i : i + 4]
        n = len(g)
        if n == 1:
            raise binascii.Error("Invalid base64-encoded string")
        c = z3.Concat(*(g + [z3.BitVecVal(0, 6)] * (4 - n)))
        for k in range(n - 1):
            out.append(z3.simplify(z3.Extract(23 - 8 * k, 16 - 8 * k, c)))
    return from_atoms(bytes, [u.as_long() if z3.is_bv_value(u) else u for u in out])


@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(x, *a):
    return rope.hexlify(x) if is_rope(x) else binascii.hexlify(x, *a)


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(x):
    return rope.unhexlify(x)


@model(base64.b16decode)
def m_b16decode(x, casefold=False):
    if not is_rope(x):
        return base64.b16decode(x, casefold)
    return rope.unhexlify(x)


@model(base64.b16encode)
def m_b16encode(x):
    return rope.hexlify(x).upper() if is_rope(x) else base64.b16encode(x)


# ---------------------------------------------------------------------------- re
def _re(fname, pfn):
    real = getattr(re, fname)

    @model(real)
    def f(pattern, *a, **k):
        if fname in ("sub", "subn"):
            if len(a) > 1 and is_rope(a[1]) or is_sym(a[0]):
                flags = k.get("flags", a[3] if len(a) > 3 else 0)
                cnt = k.get("count", a[2] if len(a) > 2 else 0)
                return pfn(sre.as_pattern(pattern, flags), a[0], lift(a[1]), cnt)
            if callable(a[0]):
                return p_native_sub(fname, sre.as_pattern(pattern, k.get("flags", 0)), *a, **{q: v for q, v in k.items() if q != "flags"})
            return real(pattern, *a, **k)
        if is_rope(a[0]):
            flags = k.get("flags", 0)
            if fname == "split":
                return pfn(sre.as_pattern(pattern, flags), a[0], *(a[1:2] or [k.get("maxsplit", 0)]))
            if len(a) > 1:
                flags = a[1]
            return pfn(sre.as_pattern(pattern, flags), a[0])
        return real(pattern, *a, **k)

    @method(re.Pattern, fname)
    def g(p, *a, **k):
        if fname in ("sub", "subn"):
            s = a[1] if len(a) > 1 else k.get("string")
            if is_rope(s) or is_sym(a[0]):
                return pfn(p, a[0], lift(s), *(a[2:3] or [k.get("count", 0)]))
            if callable(a[0]):
                return p_native_sub(fname, p, *a, **k)
            return getattr(p, fname)(*a, **k)
        if is_rope(a[0]):
            return pfn(p, *a, **k)
        return getattr(p, fname)(*a, **k)


def p_native_sub(fname, p, repl, s, *a, **k):
    """Concrete subject, callable replacement (which may return a rope)."""
    out = []
    hit = {"sym": False}

    def r(mt):
        v = repl(mt)
        if is_rope(v):
            hit["sym"] = True
            out.append(v)
            return s[:0]
        return v

    res = getattr(p, fname)(r, s, *a, **k)
    if not hit["sym"]:
        return res
    f = sre.p_sub if fname == "sub" else sre.p_subn
    return f(p, repl, lift(s), *a, **k)


def lift(x):
    if is_rope(x):
        return x
    return (SymStr if isinstance(x, str) else SymBytes)([x] if x else [])


_re("sub", sre.p_sub)
_re("subn", sre.p_subn)
_re("match", sre.p_match)
_re("search", sre.p_search)
_re("fullmatch", sre.p_fullmatch)
_re("findall", sre.p_findall)
_re("finditer", sre.iter_matches)
_re("split", sre.p_split)


@model(re.escape)
def m_escape(x):
    return re.escape(realise(x))


# -------------------------------------------------------------------------- uuid
class SymUUID(object):
    """A GUID with symbolic bytes (big endian, RFC 4122 order)."""

    _sx = True
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    @property
    def __class__(self):
        return uuid.UUID

    @property
    def bytes(self):
        return self.b

    @property
    def bytes_le(self):
        b = self.b
        return build(
            bytes,
            [rope.xslice(b, 0, 4, 1)[::-1], rope.xslice(b, 4, 6)[::-1], rope.xslice(b, 6, 8)[::-1], rope.xslice(b, 8, 16)],
        )

    @property
    def hex(self):
        return rope.decode(rope.hexlify(self.b), "ascii")

    @property
    def int(self):
        return rope.unpack_int(self.b, False)

    @property
    def version(self):
        raise Unsupported("uuid version")

    def text(self):
        h = self.hex
        return build(str, [h[0:8], "-", h[8:12], "-", h[12:16], "-", h[16:20], "-", h[20:32]])

    def __eq__(self, o):
        if isinstance(o, uuid.UUID):
            return rope.eq(self.b, o.bytes)
        return False

    def __ne__(self, o):
        return core.bnot(self == o)

    def __hash__(self):
        return 19

    def __str__(self):
        return "<symbolic uuid>"

    __repr__ = __str__


def mkuuid(b):
    if not is_rope(b):
        return uuid.UUID(bytes=b)
    return SymUUID(b)


@model(uuid.UUID)
def m_uuid(hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, **k):
    if is_rope(bytes_le):
        if not br(rope.eqn(xlen(bytes_le), 16)):
            raise ValueError("bytes_le is not a 16-char string")
        b = bytes_le
        ats = atoms(b)
        if len(ats) != 16 or any(isinstance(a, Opq) for a in ats):
            raise Unsupported("GUID of opaque bytes")
        order = [3, 2, 1, 0, 5, 4, 7, 6] + list(range(8, 16))
        return mkuuid(from_atoms(builtins.bytes, [ats[i] for i in order]))
    if is_rope(bytes):
        if not br(rope.eqn(xlen(bytes), 16)):
            raise ValueError("bytes is not a 16-char string")
        return mkuuid(bytes)
    if is_rope(hex):
        s = hex.replace("urn:", "").replace("uuid:", "").strip("{}").replace("-", "")
        if not br(rope.eqn(xlen(s), 32)):
            raise ValueError("badly formed hexadecimal UUID string")
        try:
            return mkuuid(rope.unhexlify(s))
        except binascii.Error:
            raise ValueError("badly formed hexadecimal UUID string")
    if is_sym(int):
        return mkuuid(rope.pack_int(int, 16, False))
    args = {n: v for n, v in (("hex", hex), ("bytes", bytes), ("bytes_le", bytes_le), ("fields", fields), ("int", int), ("version", version)) if v is not None}
    args.update(k)
    return uuid.UUID(**args)


_counter = {"uuid": 0, "time": 0}


def reset_env():
    _counter["uuid"] = 0
    _counter["time"] = 0


@model(uuid.uuid4)
def m_uuid4():
    _counter["uuid"] += 1
    d = hashlib.sha256(b"uuid%d" % _counter["uuid"]).digest()[:16]
    return uuid.UUID(bytes=d, version=4)


# --------------------------------------------------------------------- time, env
@model(time.sleep)
def m_sleep(s):
    hook = ENV.get("sleep")
    if hook is not None:
        return hook(s)
    return None


ENV = {}


@model(warnings.warn)
def m_warn(message, category=None, stacklevel=1, source=None, **k):
    hook = ENV.get("warn")
    if hook is not None:
        return hook(message)
    return None


@model(time.time, time.monotonic, time.perf_counter)
def m_time():
    hook = ENV.get("time")
    if hook is not None:
        return hook()
    _counter["time"] += 1
    return 1000.0 + _counter["time"]


@model(os.urandom)
def m_urandom(n):
    n = core.concretise_int(n)
    out = b""
    while len(out) < n:
        _counter["uuid"] += 1
        out += hashlib.sha256(b"rand%d" % _counter["uuid"]).digest()
    return out[:n]


# --------------------------------------------------------------------------- XML
@model(ET.tostring)
def m_tostring(element, encoding=None, method=None, **k):
    return xmlm.tostring(element, encoding, method, **k)


@model(ET.fromstring, ET.XML)
def m_fromstring(text, parser=None):
    if parser is not None and is_rope(text):
        raise Unsupported("custom parser")
    return xmlm.fromstring(text) if is_rope(text) else ET.fromstring(text)


# ----------------------------------------------------------------------- hashing
class SymHash(object):
    def __init__(self, name, data=b""):
        self.name = name
        self.data = data

    def update(self, d):
        self.data = rope.concat(self.data, d)

    @property
    def digest_size(self):
        return hashlib.new(self.name).digest_size

    def settle(self):
        if is_rope(self.data) and br(rope.eqn(xlen(self.data), 0)):
            self.data = b""

    def digest(self):
        self.settle()
        if not is_rope(self.data):
            return hashlib.new(self.name, self.data).digest()
        n = self.name
        return build(bytes, [Opq(rope.UfBase("hash:" + n, [self.data], self.digest_size, lambda d: hashlib.new(n, d).digest()))])

    def hexdigest(self):
        self.settle()
        if not is_rope(self.data):
            return hashlib.new(self.name, self.data).hexdigest()
        n = self.name
        return build(
            str,
            [Opq(rope.UfBase("hexhash:" + n, [self.data], 2 * self.digest_size, lambda d: hashlib.new(n, d).hexdigest(), text=True))],
        )

    def copy(self):
        return SymHash(self.name, self.data)


def _mkhash(name, real):
    @model(real)
    def f(data=b"", **k):
        return SymHash(name, data)


for _n in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512"):
    _mkhash(_n, getattr(hashlib, _n))


@model(hashlib.new)
def m_hnew(name, data=b"", **k):
    return SymHash(name, data)


@model(copy.deepcopy)
def m_deepcopy(x, memo=None):
    return copy.deepcopy(x, memo)


# ---------------------------------------------------------------- addresses
def _mkaddr(cls):
    @model(cls)
    def f(address):
        if is_rope(address):
            # an opaque text stands for texts that are no address
            raise ipaddress.AddressValueError("not an address")
        return cls(address)


for _c in (ipaddress.IPv6Address, ipaddress.IPv4Address):
    _mkaddr(_c)


@model(ipaddress.ip_address)
def m_ip_address(address):
    if is_rope(address):
        raise ValueError("not an address")
    return ipaddress.ip_address(address)


# ---------------------------------------------------------------- cryptography's hashes
try:
    from cryptography.hazmat.primitives import hashes as _hashes
except ImportError:  # pragma: no cover
    _hashes = None


class CryptoHash(object):
    def __init__(self, algorithm, data=b""):
        self.algorithm, self.data, self.done = algorithm, data, False

    def _open(self):
        if self.done:
            from cryptography.exceptions import AlreadyFinalized

            raise AlreadyFinalized("Context was already finalized.")

    def update(self, d):
        self._open()
        self.data = rope.concat(self.data, d)

    def copy(self):
        self._open()
        return CryptoHash(self.algorithm, self.data)

    def finalize(self):
        self._open()
        self.done = True
        return SymHash(self.algorithm.name.replace("-", "_"), self.data).digest()


if _hashes is not None:

    @model(_hashes.Hash)
    def m_crypto_hash(algorithm, backend=None):
        _hashes.Hash(algorithm)  # refuses what is no hash algorithm
        return CryptoHash(algorithm)


# ---------------------------------------------------------------- PKCS7 padding
try:
    from cryptography.hazmat.primitives.padding import PKCS7 as _PKCS7
except ImportError:  # pragma: no cover
    _PKCS7 = None


class Pkcs7(object):
    """cryptography's PKCS7: contexts give out what can no longer be padding."""

    def __init__(self, block_size):
        if not (0 <= block_size <= 2040):
            raise ValueError("block_size must be in range(0, 2041).")
        if block_size % 8 != 0:
            raise ValueError("block_size must be a multiple of 8.")
        self.block_size = block_size

    def padder(self):
        return _Padder(self.block_size // 8)

    def unpadder(self):
        return _Unpadder(self.block_size // 8)


class _Padder(object):
    def __init__(self, size):
        self.size, self.buf, self.done = size, b"", False

    def _check(self):
        if self.done:
            from cryptography.exceptions import AlreadyFinalized

            raise AlreadyFinalized("Context was already finalized.")

    def update(self, data):
        self._check()
        self.buf = self.buf + data
        n = core.realise_int(xlen(self.buf), 4096) if is_sym(xlen(self.buf)) else xlen(self.buf)
        k = n // self.size * self.size
        out, self.buf = self.buf[:k], self.buf[k:]
        return out

    def finalize(self):
        self._check()
        self.done = True
        n = self.size - xlen(self.buf)
        return self.buf + bytes([n]) * n


class _Unpadder(_Padder):
    def update(self, data):
        self._check()
        self.buf = self.buf + data
        n = core.realise_int(xlen(self.buf), 4096) if is_sym(xlen(self.buf)) else xlen(self.buf)
        k = max((n - 1) // self.size * self.size, 0)
        out, self.buf = self.buf[:k], self.buf[k:]
        return out

    def finalize(self):
        self._check()
        self.done = True
        if xlen(self.buf) != self.size:
            raise ValueError("Invalid padding bytes.")
        for n in range(1, self.size + 1):
            if self.buf[self.size - 1] == n:
                if self.buf[self.size - n :] == bytes([n]) * n:
                    return self.buf[: self.size - n]
                break
        raise ValueError("Invalid padding bytes.")


if _PKCS7 is not None:

    @model(_PKCS7)
    def m_pkcs7(block_size):
        return Pkcs7(block_size)
