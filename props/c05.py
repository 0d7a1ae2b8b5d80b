"""C05: text escaping."""
import xml.etree.ElementTree as ET

from symx.api import obligation

from pypsrp.serializer import Serializer


def ref_encode(h, units):
    """[MS-PSRP] 2.2.5.3.2 on a list of characters: the list of pieces of the
    encoded form.  Conditions split the path, so the result is exact."""
    out = ""
    n = len(units)
    for i in range(n):
        c = units[i]
        o = ord(c)
        if h.split(h.any(o <= 0x1F, h.all(o >= 0x7F, o <= 0x9F))):
            out = out + "_x" + hex4(o) + "_"
        elif h.split(o >= 0x10000):
            v = o - 0x10000
            out = out + "_x" + hex4(0xD800 + (v >> 10)) + "__x" + hex4(0xDC00 + (v & 0x3FF)) + "_"
        elif i + 1 < n and h.split(h.all(c == "_", h.any(units[i + 1] == "x", units[i + 1] == "X"))):
            out = out + "_x005F_"
        else:
            out = out + c
    return out


def hex4(v):
    return "%04X" % v


def strings(h, shape):
    """Build a string from a template: '?' any character, 'h' any hex digit,
    anything else literal."""
    s = ""
    for c in shape:
        if c == "?":
            s = s + h.chars("c", 1)
        elif c == "h":
            d = h.chars("h", 1, 0x30, 0x66)
            o = ord(d)
            h.assume(h.any(o <= 0x39, h.all(o >= 0x41, o <= 0x46), o >= 0x61))
            s = s + d
        else:
            s = s + c
    return s


@obligation(
    "C05",
    quick=[{"shape": "?"}, {"shape": "??"}, {"shape": "???"}, {"shape": "?_x??"}, {"shape": "_x00??_"}, {"shape": "__x0041?"}, {"shape": "_xD83D_?"}, {"shape": "?x0041_"}, {"shape": "_?0041_?"}],
    thorough=[{"shape": "????"}, {"shape": "?_x???"}, {"shape": "_x????_"}, {"shape": "?_x00??_?"}, {"shape": "_x?_x?_"}, {"shape": "?x???_"}, {"shape": "_?????_"}],
    bounds="strings of the given shape, each ? any Unicode scalar value",
)
def round_trip(h, shape):
    """decoding the encoded form of a string gives the string back, and the encoded form is the reference encoding (escape of _ before x/X, of control characters, of the UTF-16 code units of supplementary characters, nothing else)"""
    s = strings(h, shape)
    sr = Serializer()
    e = sr.serialize(s)
    h.check(e.tag == "S", "tag")
    t = e.text
    h.check(t == ref_encode(h, s), "the encoded text differs from the reference encoding")
    h.observe("t", t)
    back = sr.deserialize(e)
    h.check(back == s, "decode(encode(s)) != s")
    h.reach("done")


@obligation(
    "C05",
    quick=[{"n": 2}],
    thorough=[{"n": 3}],
    bounds="strings of n characters, each any Unicode scalar value that XML can carry escaped or not (not U+FFFE/U+FFFF)",
)
def legal_xml(h, n):
    """the encoded text holds only characters XML allows verbatim: no C0/C1 control, no surrogate, no supplementary character"""
    s = h.chars("s", n)
    t = Serializer().serialize(s).text
    for c in t:
        o = ord(c)
        h.check(h.all(o >= 0x20, h.no(h.all(o >= 0x7F, o <= 0x9F)), h.no(h.all(o >= 0xD800, o <= 0xDFFF)), o <= 0xFFFF), "illegal character in the encoded text")
    h.reach("done")


def hexval(h, c):
    o = ord(c)
    return h.ite(o <= 0x39, o - 0x30, h.ite(o <= 0x46, o - 0x37, o - 0x57))


@obligation(
    "C05",
    quick=[{"shape": "hhhh"}, {"shape": "?hhhh"}, {"shape": "hhhh?"}, {"shape": "hhhhhhhh"}],
    thorough=[{"shape": "?hhhh?"}, {"shape": "hhhh?hhhh"}, {"shape": "?hhhhhhhh?"}],
    bounds="text with one or two escapes of any UTF-16 code unit in either letter case, with any character (not _) before, between and after",
)
def decode(h, shape):
    """every _xHHHH_ escape is decoded to that UTF-16 code unit, two that form a surrogate pair to the supplementary character, and everything else is kept"""
    s, want = "", []
    i = 0
    while i < len(shape):
        if shape[i] == "?":
            c = h.chars("c", 1, 0, 0x10FFFF, False, ["_"])
            s = s + c
            want.append(ord(c))
            i += 1
        else:
            d = strings(h, "hhhh")
            v = 0
            for c in d:
                v = v * 16 + hexval(h, c)
            s = s + "_x" + d + "_"
            want.append(v)
            i += 4
    got = Serializer().deserialize(el(s))
    j = 0
    for c in got:
        o = ord(c)
        h.check(j < len(want), "too many characters")
        if h.split(h.all(o >= 0x10000, want[j] <= 0xFFFF)):
            h.check(j + 1 < len(want) and h.must(h.all(want[j] == 0xD800 + ((o - 0x10000) >> 10), want[j + 1] == 0xDC00 + ((o - 0x10000) & 0x3FF))), "surrogate pair")
            j += 2
        else:
            h.check(o == want[j], "a code unit differs")
            j += 1
    h.check(j == len(want), "characters lost")
    h.reach("done")


def el(text):
    e = ET.Element("S")
    e.text = text
    return e


@obligation(
    "C05",
    quick=[{"shape": "_x???_"}, {"shape": "?x00g0_"}, {"shape": "_x00??_"}, {"shape": "_x0041?"}],
    thorough=[{"shape": "_?0??1_"}, {"shape": "_x????_"}],
    bounds="text of the given shape, each ? any Unicode scalar value",
)
def not_an_escape(h, shape):
    """text that is not an escape (wrong length, no hex digits, no underscore) is kept as it is, whatever characters it is made of, and no text makes decoding fail"""
    s = strings(h, shape)
    got = Serializer().deserialize(el(s))
    hexd = True
    if len(s) == 7:
        cs = [h.any(h.all(ord(c) >= 0x30, ord(c) <= 0x39), h.all(ord(c) >= 0x41, ord(c) <= 0x46), h.all(ord(c) >= 0x61, ord(c) <= 0x66)) for c in s[2:6]]
        hexd = h.all(s[0] == "_", s[1] == "x", s[6] == "_", *cs)
    else:
        hexd = False
    if h.split(hexd):
        h.check(len(got) == 1, "an escape is not decoded")
        h.reach("escape")
    else:
        h.check(got == s, "text that is no escape is changed")
        h.reach("kept")


@obligation("C05", quick={"n": 2}, thorough={"n": 3}, bounds="n characters, any UTF-16 code units per character with the low or high byte equal to any of those of an escape's bytes")
def byte_aligned(h, n):
    """characters whose UTF-16 bytes only look like an escape at an odd offset are kept"""
    pre = h.chars("p", 1, 1, 0xD7FF)
    h.assume(pre != "_")
    s = pre + "\u5f00\u7800" + h.chars("a", n, 0x3000, 0x3900) + "\u3400\u3100\u5f00"
    got = Serializer().deserialize(el(s))
    h.check(got == s, "changed")
    h.reach("done")
