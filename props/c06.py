"""C06: primitive values."""
import base64
import uuid
import xml.etree.ElementTree as ET

from symx.api import obligation

from pypsrp.serializer import Serializer, TaggedValue

RANGE = {
    "By": (0, 255),
    "SB": (-128, 127),
    "U16": (0, 65535),
    "I16": (-32768, 32767),
    "U32": (0, 2**32 - 1),
    "I32": (-(2**31), 2**31 - 1),
    "U64": (0, 2**64 - 1),
    "I64": (-(2**63), 2**63 - 1),
}


def wire(sr, v):
    """Serialise, put on the wire, parse."""
    return ET.fromstring(ET.tostring(sr.serialize(v), encoding="utf-8", method="xml"))


@obligation("C06", bounds="every integer tag, every value of its range; untagged int of any value that fits one of the tags")
def integers(h):
    """every integer is sent as its decimal digits under the tag of its type and read back as the same integer"""
    tag = h.pick("tag", ["By", "SB", "U16", "I16", "U32", "I32", "U64", "I64", None])
    lo, hi = RANGE[tag] if tag else (-(2**63), 2**64 - 1)
    v = h.int("v", lo, hi)
    own = tag
    if tag is None:
        own = [t for t in ("I32", "I64", "U64") if h.split(h.all(v >= RANGE[t][0], v <= RANGE[t][1]))][0]
    sr = Serializer()
    e = wire(sr, v if tag is None else TaggedValue(tag, v))
    h.check(e.tag == own, "tag")
    h.check(e.text == str(v), "text")
    h.check(len(e.attrib) == 0, "attributes")
    got = sr.deserialize(e)
    h.check(got == v and isinstance(got, int), "read back differently")
    h.observe("v", got)
    h.reach(tag or "int")


@obligation("C06", bounds="both truth values, tagged or not; server spelling true/True")
def booleans(h):
    """booleans are sent as true/false (not as integers) and read back, whatever the letter case the server uses"""
    sr = Serializer()
    for v in (True, False):
        e = wire(sr, TaggedValue("B", v) if h.bool("tagged") else v)
        h.check(e.tag == "B" and e.text == ("true" if v else "false"), "boolean")
        h.check(sr.deserialize(e) is v, "read back")
    e = ET.Element("B")
    e.text = h.pick("text", ["true", "True", "TRUE", "false", "False"])
    h.check(sr.deserialize(e) is (e.text.lower() == "true"), "server spelling")
    h.reach("done")


@obligation("C06", quick={"n": 4}, thorough={"n": 8}, bounds="byte strings: any n or fewer bytes, and opaque ones of any length up to 2^20")
def byte_arrays(h, n):
    """bytes are sent as base64 and read back as the same bytes, also when empty"""
    sr = Serializer()
    if h.bool("short"):
        k = h.count("n", 0, n)
        v = h.bytes("v", k) if k else b""
    else:
        v = h.blob("v", 0, 1 << 20)
    e = wire(sr, TaggedValue("BA", v) if h.bool("tagged") else v)
    h.check(e.tag == "BA", "tag")
    h.check((e.text or "") == base64.b64encode(v).decode("ascii"), "text")
    got = sr.deserialize(e)
    h.check(isinstance(got, bytes) and got == v, "read back")
    h.reach("done")


@obligation("C06", bounds="any UTF-16 code unit value other than what chr() cannot make")
def characters(h):
    """a character is sent as its decimal code and read back"""
    c = h.chars("c", 1, 0, 0xFFFF)
    sr = Serializer()
    e = wire(sr, TaggedValue("C", c))
    h.check(e.tag == "C" and e.text == str(ord(c)), "code")
    h.check(sr.deserialize(e) == c, "read back")
    h.reach("done")


@obligation("C06", bounds="any GUID")
def guids(h):
    """a GUID is sent in its text form and read back"""
    u = uuid.UUID(bytes=h.bytes("u", 16))
    sr = Serializer()
    e = wire(sr, TaggedValue("G", u) if h.bool("tagged") else u)
    h.check(e.tag == "G" and e.text == str(u), "text")
    h.check(sr.deserialize(e) == u, "read back")
    h.reach("done")


@obligation("C06", bounds="every text like tag, any text of 1 to 2^20 inert characters or one character of any kind")
def texts(h):
    """text, URI, XML document and script block values keep their tag and text; durations, dates, versions and decimals are passed on as text"""
    tag = h.pick("tag", ["S", "URI", "XD", "SBK", "TS", "Version", "DT"])
    sr = Serializer()
    if h.bool("one") and tag not in ("TS", "Version", "DT"):
        v = h.chars("c", 1, 0x20, 0xD7FF)
        h.assume(h.no(h.all(ord(v) >= 0x7F, ord(v) <= 0x9F)))
    else:
        v = h.text("v", 1, 1 << 20)
    e = wire(sr, TaggedValue(tag, v) if h.bool("tagged") or tag != "S" else v)
    h.check(e.tag == tag, "tag")
    h.check(e.text == v, "text")
    h.check(sr.deserialize(e) == v, "read back")
    d = ET.Element(h.pick("server", ["DT", "TS", "D", "Version"]))
    d.text = v
    h.check(sr.deserialize(d) == v, "server value")
    h.reach("done")


@obligation("C06", bounds="null, empty text (all spellings), each with and without a tag")
def empty(h):
    """null is Nil whatever the tag and reads back as None; empty text is not null"""
    sr = Serializer()
    tag = h.pick("tag", [None, "S", "I32", "BA", "B", "G", "LST", "DCT", "SS"])
    e = wire(sr, None if tag is None else TaggedValue(tag, None))
    h.check(e.tag == "Nil" and e.text is None, "null")
    h.check(sr.deserialize(e) is None, "null read back")
    e = wire(sr, "")
    h.check(e.tag == "S", "empty")
    h.check(sr.deserialize(e) == "", "empty read back")
    for t in ("S", "URI", "XD", "SBK"):
        h.check(sr.deserialize(ET.Element(t)) == "", "empty element")
    h.reach("done")
