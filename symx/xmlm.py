"""XML documents with symbolic text: ElementTree's tostring/fromstring.

The elements themselves are real ElementTree elements whose text or attribute
values may be ropes.  Serialising such a tree gives an opaque document that
carries the tree and knows its exact length; parsing it back gives a copy of
the tree after the normalisation a parser performs.  The literal markup comes
from the real ElementTree.tostring run over a tree with placeholder tokens, and
ropes that mix markup and symbolic text are parsed by the real parser the same
way."""
import re
import xml.etree.ElementTree as ET

import z3

from . import core, rope
from .core import Unsupported, ball, bany, sint
from .rope import Base, Cs, DecBase, InBase, B64Base, Opq, add, atoms, br, build, eqn, from_atoms, is_rope, ueq, urange, SW

TOKEN = re.compile("SXq([0-9]+)Z")
TOKENB = re.compile(b"SXq([0-9]+)Z")

real_tostring = ET.tostring
real_fromstring = ET.fromstring

ILLEGAL = re.compile("[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]")


def has_sym(el):
    for e in el.iter():
        if core.is_sym(e.text) or core.is_sym(e.tail) or core.is_sym(e.tag):
            return True
        for v in e.attrib.values():
            if core.is_sym(v):
                return True
        for k in e.attrib:
            if core.is_sym(k):
                return True
    return False


def clone(el, f=None, af=None):
    """Copy of a tree; f maps text/tail, af maps attribute values."""
    new = ET.Element(el.tag, {k: (af(v) if af else v) for k, v in el.attrib.items()})
    new.text = f(el.text) if f and el.text is not None else el.text
    new.tail = f(el.tail) if f and el.tail is not None else el.tail
    for c in el:
        new.append(clone(c, f, af))
    return new


def unit_len(u, enc, attr):
    """Length of one symbolic character once escaped and encoded (an Int term)."""
    I = z3.IntVal
    n = I(1)
    if enc == "utf-8":
        n = z3.If(z3.ULT(u, 0x80), I(1), z3.If(z3.ULT(u, 0x800), I(2), z3.If(z3.ULT(u, 0x10000), I(3), I(4))))
        n = z3.If(z3.And(z3.UGE(u, 0xD800), z3.ULE(u, 0xDFFF)), I(8), n)
    elif enc == "us-ascii":
        d = z3.If(
            z3.ULT(u, 1000), I(6), z3.If(z3.ULT(u, 10000), I(7), z3.If(z3.ULT(u, 100000), I(8), z3.If(z3.ULT(u, 1000000), I(9), I(10))))
        )
        n = z3.If(z3.ULT(u, 0x80), I(1), d)
    esc = [(38, 5), (60, 4), (62, 4)] + ([(34, 6), (13, 5), (10, 5), (9, 5)] if attr else [])
    for c, k in esc:
        n = z3.If(u == c, I(k), n)
    return n


class XmlBase(Base):
    def __init__(self, tree, kw, kind):
        self.tree = tree
        self.kw = kw
        self.kind = kind
        self._n = None
        self._text = None
        self._parts = None
        self._twin = None

    @property
    def enc(self):
        e = (self.kw.get("encoding") or "us-ascii").lower()
        return e

    def parts(self):
        """[literal, (rope, in_attribute), literal, ...]"""
        if self._parts is None:
            subs = []

            def put(attr):
                def f(v):
                    if type(v) is core.SymInt:
                        v = rope.dec(v)
                    if not is_rope(v):
                        return v
                    if not attr and br(eqn(rope.xlen(v), 0)):
                        return ""  # an empty text is written as <e />
                    subs.append((v, attr))
                    return "SXq%dZ" % (len(subs) - 1)

                return f

            t = clone(self.tree, put(False), put(True))
            raw = real_tostring(t, **self.kw)
            pat = TOKENB if isinstance(raw, bytes) else TOKEN
            out = []
            pieces = pat.split(raw)
            for i, p in enumerate(pieces):
                out.append(p if i % 2 == 0 else subs[int(p)])
            self._parts = out
        return self._parts

    def length(self):
        if self._n is None:
            n = 0
            for p in self.parts():
                if not isinstance(p, tuple):
                    n = add(n, len(p))
                    continue
                r, attr = p
                for s in r.segs:
                    if isinstance(s, str):
                        n = add(n, len(esc_lit(s, attr, self.enc)))
                    elif isinstance(s, Cs):
                        for u in s.u:
                            if isinstance(u, int):
                                n = add(n, len(esc_lit(chr(u), attr, self.enc)))
                            else:
                                enc = self.enc if self.kind is bytes else "unicode"
                                n = add(n, sint(unit_len(u, enc, attr)))
                    elif s.base.text:
                        n = add(n, s.n)
                    else:
                        raise Unsupported("length of %r inside XML" % s)
            self._n = n
        return self._n

    @property
    def text(self):
        if self._text is None:
            ok = True
            for p in self.parts():
                if not isinstance(p, tuple):
                    ok = ok and p.isascii()
                    continue
                for s in p[0].segs:
                    if isinstance(s, str):
                        ok = ok and s.isascii()
                    elif isinstance(s, Cs):
                        if self.enc != "us-ascii" or self.kind is str:
                            ok = ok and core.E.must(
                                z3.And(*[z3.BoolVal(u < 128) if isinstance(u, int) else z3.ULT(u, 128) for u in s.u])
                            )
                    else:
                        ok = ok and bool(s.base.text)
            self._text = ok
        return self._text

    def twin(self):
        if self._twin is None:
            kw = dict(self.kw)
            other = str if self.kind is bytes else bytes
            kw["encoding"] = "unicode" if other is str else "utf-8"
            self._twin = XmlBase(self.tree, kw, other)
            self._twin._twin = self
        return self._twin

    def decoded(self, seg, enc):
        if not seg.full() or enc not in ("utf-8",):
            raise Unsupported("decode a piece of a non ASCII document")
        return Opq(self.twin())

    def encoded(self, seg, enc):
        return self.decoded(seg, enc)

    def expand(self):
        out = []
        lit = bytes if self.kind is bytes else str
        for p in self.parts():
            if not isinstance(p, tuple):
                out.append(p)
                continue
            r, attr = p
            e = escape(r, attr)
            if lit is bytes:
                if self.enc == "us-ascii":
                    e = rope.encode(e, "ascii") if is_rope(e) else e.encode("ascii", "xmlcharrefreplace")
                else:
                    e = rope.encode(e, "utf-8")
            out.extend(rope.segs_of(e))
        return out

    def concrete(self, m, kind):
        t = clone(self.tree, lambda v: rope.conc(v, m) if core.is_sym(v) else v, lambda v: rope.conc(v, m) if core.is_sym(v) else v)
        for e in t.iter():
            if isinstance(e.text, int):
                e.text = str(e.text)
        r = real_tostring(t, **self.kw)
        if kind is str and isinstance(r, bytes):
            return r.decode("utf-8")
        if kind is bytes and isinstance(r, str):
            return r.encode("utf-8")
        return r

    def tree_eq(self, q):
        if type(q) is not XmlBase:
            return None
        return tree_eq(self.tree, q.tree)


def tree_eq(a, b):
    if a.tag != b.tag or len(a) != len(b) or sorted(map(str, a.attrib)) != sorted(map(str, b.attrib)):
        return False
    cs = [rope.sx_eq(a.text or "", b.text or ""), rope.sx_eq(a.tail or "", b.tail or "")]
    for k, v in a.attrib.items():
        cs.append(rope.sx_eq(v, b.attrib[k]))
    for x, y in zip(a, b):
        cs.append(tree_eq(x, y))
    return ball(cs)


def esc_lit(s, attr, enc):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    if attr:
        s = s.replace('"', "&quot;").replace("\r", "&#13;").replace("\n", "&#10;").replace("\t", "&#09;")
    if enc == "unicode":
        return s
    return s.encode(enc, "xmlcharrefreplace")


def escape(r, attr=False):
    if not is_rope(r):
        return esc_lit(r, attr, "unicode")
    table = {38: "&amp;", 60: "&lt;", 62: "&gt;"}
    if attr:
        table.update({34: "&quot;", 13: "&#13;", 10: "&#10;", 9: "&#09;"})
    out = []
    for s in r.segs:
        if isinstance(s, str):
            out.append(esc_lit(s, attr, "unicode"))
        elif isinstance(s, Cs):
            for u in s.u:
                if isinstance(u, int):
                    out.append(esc_lit(chr(u), attr, "unicode"))
                    continue
                for c, e in table.items():
                    if br(ueq(u, c, SW)):
                        out.append(e)
                        break
                else:
                    out.append(Cs([u]))
        elif s.base.text and (isinstance(s.base, (InBase, DecBase, B64Base)) or s.base.safe):
            out.append(s)
        else:
            ats = atoms(build(str, [s]))
            if any(isinstance(a, Opq) for a in ats):
                raise Unsupported("escape of %r" % s)
            out.append(escape(from_atoms(str, ats), attr))
    return build(str, out)


def parse_error(msg="not well-formed (invalid token): line 1, column 0"):
    err = ET.ParseError(msg)
    err.code = 4
    err.position = (1, 0)
    return err


def legal_unit(u):
    return bany(
        [ueq(u, 9, SW), ueq(u, 10, SW), ueq(u, 13, SW), urange(u, 0x20, 0xD7FF), urange(u, 0xE000, 0xFFFD), urange(u, 0x10000, 0x10FFFF)]
    )


def norm(v, attr=False):
    """What a parser returns for serialised character data (None when empty)."""
    if v is None:
        return None
    if type(v) is core.SymInt:
        raise TypeError("cannot serialize %r (type int)" % v)
    if not is_rope(v):
        if not isinstance(v, str):
            raise TypeError("cannot serialize %r (type %s)" % (v, type(v).__name__))
        if ILLEGAL.search(v):
            raise parse_error()
        if not attr:
            v = v.replace("\r\n", "\n").replace("\r", "\n")
        return v if (v or attr) else None
    for s in v.segs:
        if isinstance(s, str):
            if ILLEGAL.search(s):
                raise parse_error()
        elif isinstance(s, Cs):
            if not br(ball([legal_unit(u) for u in s.u])):
                raise parse_error()
    plain = attr or not any(isinstance(s, Cs) or (isinstance(s, str) and "\r" in s) for s in v.segs)
    if not plain:
        # line ends: only explode when a carriage return is possible
        poss = False
        for s in v.segs:
            if isinstance(s, str):
                poss = poss or "\r" in s
            elif isinstance(s, Cs):
                c = bany([ueq(u, 13, SW) for u in s.u])
                poss = poss or br(c)
        if poss:
            ats = atoms(v)
            out = []
            i = 0
            while i < len(ats):
                a = ats[i]
                if not isinstance(a, Opq) and br(ueq(a, 13, SW)):
                    out.append(10)
                    if i + 1 < len(ats) and not isinstance(ats[i + 1], Opq) and br(ueq(ats[i + 1], 10, SW)):
                        i += 1
                else:
                    out.append(a)
                i += 1
            v = from_atoms(str, out)
    if not attr and is_rope(v):
        if br(eqn(rope.xlen(v), 0)):
            return None
    return v if (attr or not isinstance(v, str) or v or is_rope(v)) else None


def reparse(tree):
    t = clone(tree, norm, lambda v: norm(v, True))
    if any(isinstance(a, str) and a.startswith("xmlns") for e in t.iter() for a in e.attrib):
        qualify(t, {})
    return t


def qualify(e, scope):
    """Namespaces declared by plain xmlns attributes."""
    for a in [a for a in e.attrib if isinstance(a, str) and (a == "xmlns" or a.startswith("xmlns:"))]:
        if is_rope(e.attrib[a]):
            raise Unsupported("symbolic namespace")
        scope = dict(scope)
        scope[a[6:]] = e.attrib.pop(a)
    if isinstance(e.tag, str):
        e.tag = resolve(e.tag, scope, True)
    for a in list(e.attrib):
        if ":" in a and not a.startswith("{"):
            e.attrib[resolve(a, scope, False)] = e.attrib.pop(a)
    for c in e:
        qualify(c, scope)


def resolve(name, scope, tag):
    if name.startswith("{"):
        return name
    prefix, _, local = name.rpartition(":")
    if prefix in ("xml",):
        return "{http://www.w3.org/XML/1998/namespace}" + local
    if prefix:
        if prefix not in scope:
            raise parse_error("unbound prefix: line 1, column 0")
        return "{%s}%s" % (scope[prefix], local)
    ns = scope.get("") if tag else None
    return "{%s}%s" % (ns, name) if ns else name


def tostring(element, encoding=None, method=None, **kw):
    if not has_sym(element):
        return real_tostring(element, encoding, method, **kw)
    args = dict(kw)
    args["encoding"] = encoding
    args["method"] = method
    for e in element.iter():
        for v in [e.text, e.tail] + list(e.attrib.values()):
            if v is not None and not rope.is_str(v):
                raise TypeError("cannot serialize %r (type %s)" % (v, v.__class__.__name__))
        if core.is_sym(e.tag):
            raise Unsupported("symbolic tag")
    kind = str if (encoding or "").lower() == "unicode" else bytes
    if (encoding or "us-ascii").lower() not in ("unicode", "utf-8", "us-ascii"):
        raise Unsupported("tostring encoding %s" % encoding)
    tail = element.tail
    base = XmlBase(clone(element), args, kind)
    return build(kind, [Opq(base)])


def fromstring(text, parser=None):
    if not is_rope(text):
        return real_fromstring(text)
    segs = text.segs
    if len(segs) == 1 and isinstance(segs[0], Opq) and isinstance(segs[0].base, XmlBase):
        s = segs[0]
        if s.full() or br(eqn(s.off, 0)) and br(eqn(s.n, s.base.length())):
            return reparse(s.base.tree)
        raise parse_error("unclosed token: line 1, column 0")
    subs = []
    raw = []

    def put(seg):
        if isinstance(seg, (str, bytes)):
            raw.append(seg if isinstance(seg, str) else seg.decode("utf-8"))
        elif isinstance(seg, Cs):
            kind = text.KIND
            if kind is bytes:
                # whole runs of bytes are decoded together
                d = rope.decode(build(bytes, [seg]), "utf-8")
            else:
                d = build(str, [seg])
            for a in atoms(d):
                if isinstance(a, int):
                    raw.append(chr(a))
                    continue
                if not br(legal_unit(a)):
                    raise parse_error()
                for c in (60, 38, 62, 34, 39, 13, 10, 9, 32):
                    if br(ueq(a, c, SW)):
                        raw.append(chr(c))
                        break
                else:
                    subs.append(build(str, [Cs([a])]))
                    raw.append("SXq%dZ" % (len(subs) - 1))
        elif seg.base.text and isinstance(seg.base, (InBase, DecBase, B64Base)):
            if br(eqn(seg.n, 0)):
                return
            subs.append(build(str, [seg]))
            raw.append("SXq%dZ" % (len(subs) - 1))
        elif isinstance(seg.base, XmlBase) and not seg.full():
            if br(eqn(seg.n, 0)):
                return
            if br(eqn(seg.off, 0)) and br(eqn(seg.n, seg.base.length())):
                for s in seg.base.expand():
                    put(s)
            else:
                raise parse_error("unclosed token: line 1, column 0")
        else:
            ex = rope.expand_seg(seg, text.KIND)
            if ex is None:
                raise Unsupported("parse of %r" % seg)
            for s in ex:
                put(s)

    for seg in segs:
        put(seg)
    t = real_fromstring("".join(raw))

    def back(v):
        if v is None or "SXq" not in v:
            return v
        out = []
        for i, p in enumerate(TOKEN.split(v)):
            out.append(p if i % 2 == 0 else subs[int(p)])
        return build(str, out)

    return clone(t, back, back)
