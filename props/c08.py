"""C08: object graphs."""
import xml.etree.ElementTree as ET

from props import clixml
from props.c05 import ref_encode
from symx.api import obligation

from pypsrp.complex_objects import GenericComplexObject, ObjectMeta, CommandParameter
from pypsrp.exceptions import SerializationError
from pypsrp.serializer import Serializer

TYPES = [[], ["A", "System.Object"], ["A", "B"], ["B", "A"], ["A"]]


def wire(e):
    return ET.fromstring(ET.tostring(e, encoding="utf-8", method="xml"))


def leaf(h):
    k = h.pick("leaf", ["int", "text", "none", "list"])
    if k == "int":
        return h.int("i", -(2**31), 2**31 - 1)
    if k == "text":
        return h.text("t", 0, 1 << 16)
    if k == "list":
        return [h.int("i", 0, 9)]
    return None


@obligation(
    "C08",
    quick={"n": 2},
    thorough={"n": 3},
    bounds="objects with each of five type name lists, with or without a display string (any text), n extended and n adapted properties and one bare value, property values 32 bit integers, text, null or a list",
)
def generic(h, n):
    """an object is sent with its type names, display string and every property under its own name in the section (extended or adapted) it belongs to, and reads back the same"""
    o = GenericComplexObject()
    o.types = list(h.pick("types", TYPES))
    if h.bool("str"):
        o.to_string = h.text("string", 0, 1 << 16)
    o.extended_properties = {"e%d" % i: leaf(h) if i < 1 else i for i in range(n)}
    o.adapted_properties = {"e%d" % i: h.int("a", 0, 99) for i in range(n)}
    if h.bool("set"):
        o.property_sets = [leaf(h)]
    sr = Serializer()
    e = wire(sr.serialize(o))
    node = clixml.read(h, e)
    h.check(node.tag == "Obj" and node.types == o.types, "type names")
    h.check(node.to_string == o.to_string, "display string")
    h.check(sorted(x.name for x in node.ms or []) == sorted(o.extended_properties), "extended property names")
    h.check(sorted(x.name for x in node.props or []) == sorted(o.adapted_properties), "adapted property names")
    for x in node.ms or []:
        clixml.check_value(h, x, o.extended_properties[x.name], "extended")
    for x in node.props or []:
        clixml.check_value(h, x, o.adapted_properties[x.name], "adapted")
    got = sr.deserialize(e)
    h.check(isinstance(got, GenericComplexObject) or len(o.types) and "System.Object" not in o.types, "kind")
    if isinstance(got, GenericComplexObject):
        h.check(got.types == o.types, "types read back")
        h.check(got.to_string == o.to_string, "display string read back")
        clixml.same(h, dict(sorted(got.extended_properties.items())), dict(sorted(o.extended_properties.items())), "extended")
        clixml.same(h, dict(sorted(got.adapted_properties.items())), dict(sorted(o.adapted_properties.items())), "adapted")
        clixml.same(h, got.property_sets, o.property_sets, "bare values")
        h.reach("read back")
    h.reach("sent")


@obligation(
    "C08",
    quick={"n": 3, "k": 2},
    thorough={"n": 3, "k": 3},
    bounds="any graph of n objects, the first k with two properties, the others with one, that may refer to any object, itself included",
)
def sharing(h, n, k):
    """an object reachable in several ways, or from itself, is sent in full once and referred to by its id under the right property name after that; reading back gives a graph of the same shape"""
    objs = [GenericComplexObject() for _ in range(n)]
    edges = {}
    for i, o in enumerate(objs):
        o.types = ["System.Management.Automation.PSCustomObject", "System.Object"]
        o.extended_properties["id"] = i
        for p in ("left", "right") if i < k else ("left",):
            t = h.pick("edge", [None] + list(range(n)))
            edges[(i, p)] = t
            o.extended_properties[p] = None if t is None else objs[t]
    sr = Serializer()
    e = wire(sr.serialize(objs[0]))
    node = clixml.read(h, e)
    seen = set()

    def walk(x, i, ref):
        if x.tag == "Ref":
            h.check(i in seen, "a Ref to an object that was not sent")
            h.check(x.target.msv("id").text == str(i), "a Ref to the wrong object")
            return
        h.check(i not in seen, "an object is sent twice")
        seen.add(i)
        h.check(x.tag == "Obj" and x.msv("id").text == str(i), "the wrong object")
        for p in ("left", "right"):
            if (i, p) in edges:
                c = x.msv(p)
                h.check(c is not None, "a property lost its name")
                t = edges[(i, p)]
                if t is None:
                    h.check(c.tag == "Nil", "null")
                else:
                    walk(c, t, p)

    walk(node, 0, None)
    got = sr.deserialize(e)
    byid = {}

    def back(g, i):
        if i in byid:
            h.check(byid[i] is g, "a shared object was duplicated")
            return
        byid[i] = g
        h.check(g.extended_properties["id"] == i, "wrong object read back")
        for p in ("left", "right"):
            if (i, p) in edges:
                t = edges[(i, p)]
                if t is None:
                    h.check(g.extended_properties[p] is None, "null")
                else:
                    back(g.extended_properties[p], t)

    back(got, 0)
    h.reach("done")


@obligation("C08", quick={"n": 3}, thorough={"n": 5}, bounds="n sibling objects, each with any of five type name lists that share names")
def type_names(h, n):
    """every object is sent, and read back, with its own complete type name list, however many others share its first name"""
    root = GenericComplexObject()
    root.types = ["System.Object"]
    want = []
    for i in range(n):
        o = GenericComplexObject()
        o.types = list(h.pick("types", [t + ["System.Object"] for t in TYPES if "System.Object" not in t] + [["A", "System.Object", "B"]]))
        want.append(o.types)
        root.extended_properties["p%d" % i] = o
    sr = Serializer()
    e = wire(sr.serialize(root))
    node = clixml.read(h, e)
    for i in range(n):
        h.check(node.msv("p%d" % i).types == want[i], "type names of a sibling")
    got = sr.deserialize(e)
    for i in range(n):
        h.check(got.extended_properties["p%d" % i].types == want[i], "type names read back")
    h.reach("done")


@obligation("C08", quick={"n": 2}, thorough={"n": 3}, bounds="n parameter values, each one of two objects or text")
def fixed_names(h, n):
    """an object given as the value of several fields of known name keeps the field's name every time"""
    shared = [GenericComplexObject(), GenericComplexObject()]
    for i, o in enumerate(shared):
        o.types = ["System.Object"]
        o.extended_properties["id"] = i
    params = []
    for i in range(n):
        which = h.pick("value", [0, 1, "text"])
        params.append((which, CommandParameter(name="n%d" % i, value=shared[which] if which != "text" else "text")))
    sr = Serializer()
    e = wire(sr.serialize([p for _, p in params]))
    node = clixml.read(h, e)
    h.check(len(node.items) == n, "items")
    for i, (which, _) in enumerate(params):
        x = node.items[i]
        h.check(x.msv("N").text == "n%d" % i, "parameter name")
        v = x.msv("V")
        h.check(v is not None, "the value of a parameter has no name")
        if which == "text":
            h.check(v.tag == "S" and v.text == "text", "text value")
        else:
            t = v.target if v.tag == "Ref" else v
            h.check(t.msv("id").text == str(which), "the wrong object")
    h.reach("done")


@obligation("C08", quick=[{"n": 1}, {"n": 2}], thorough={"n": 3}, bounds="property names of n characters, each any Unicode scalar value that XML can carry escaped or not")
def names(h, n):
    """property names are escaped like text and read back unchanged"""
    name = h.chars("name", n, 0, 0x10FFFF, False, [0xFFFE, 0xFFFF])
    for c in name:
        # a tab or line break would be normalised inside an attribute: escaped anyway
        pass
    o = GenericComplexObject()
    o.types = ["System.Object"]
    sec = h.pick("section", ["extended_properties", "adapted_properties"])
    getattr(o, sec)[name] = 7
    sr = Serializer()
    el = sr.serialize(o)
    box = el.find("MS") if sec == "extended_properties" else el.find("Props")
    h.check(list(box)[0].attrib["N"] == ref_encode(h, name), "the property name is not escaped")
    got = sr.deserialize(wire(el))
    props = getattr(got, sec)
    h.check(len(props) == 1, "number of properties")
    for k in props:
        h.check(k == name, "the property name read back differs")
        h.check(props[k] == 7, "value")
    h.reach("done")


@obligation("C08", quick={"n": 2}, thorough={"n": 3}, bounds="server documents with n objects, each with new type names, a reference to earlier ones, or none; references to earlier objects")
def server_refs(h, n):
    """references to type names and to objects in a document from the server are resolved, and each document starts afresh"""
    sr = Serializer()
    for doc in range(2):
        root = ET.Element("Obj", RefId="0")
        ET.SubElement(ET.SubElement(root, "TN", RefId="0"), "T").text = "System.Collections.ArrayList"
        box = ET.SubElement(root, "LST")
        want = []
        known = {}
        for i in range(n):
            kind = h.pick("kind", ["new", "ref", "obj"])
            if kind == "obj":
                h.assume(len(want) > 0)
                j = h.pick("to", list(range(len(want))))
                ET.SubElement(box, "Ref", RefId=str(want[j][2]))
                want.append((want[j][0], want[j][1], want[j][2]))
                continue
            o = ET.SubElement(box, "Obj", RefId=str(i + 1))
            if kind == "new":
                t = ["doc%d" % doc, "T%d" % i, "System.Object"]
                known[i + 1] = t
                tn = ET.SubElement(o, "TN", RefId=str(i + 1))
                for x in t:
                    ET.SubElement(tn, "T").text = x
            else:
                h.assume(len(known) > 0)
                k = h.pick("tn", sorted(known))
                t = known[k]
                ET.SubElement(o, "TNRef", RefId=str(k))
            ms = ET.SubElement(o, "MS")
            txt = h.text("v", 1, 1 << 16)
            ET.SubElement(ms, "S", N="v").text = txt
            want.append((t, txt, i + 1))
        got = sr.deserialize(wire(root))
        h.check(len(got) == n, "items")
        for i in range(n):
            h.check(got[i].types == want[i][0], "type names")
            h.check(got[i].extended_properties["v"] == want[i][1], "property")
            for j in range(i):
                h.check((got[i] is got[j]) == (want[i][2] == want[j][2]), "identity")
        for i in range(n):
            got[i].types.append("Mine")
            for j in range(n):
                h.check((want[i][2] == want[j][2]) == ("Mine" in got[j].types), "objects share their type names")
            got[i].types.remove("Mine")
    h.reach("done")


UNREAD = [
    ["System.Collections.ArrayList", "System.Object"],
    ["System.Collections.Hashtable", "System.Object"],
    ["System.Collections.Queue", "System.Object"],
    ["System.Management.Automation.Host.Size", "System.ValueType", "System.Object"],
    ["System.ConsoleColor", "System.Enum", "System.ValueType", "System.Object"],
    ["System.Management.Automation.PSCredential", "System.Object"],
]


@obligation("C08", quick={}, bounds="a document whose first object is a list, dictionary, queue, size, color or credential with a property of its own that holds an object, of any text; afterwards objects of its type names and references to it")
def unread(h):
    """what a document tells in a place that is not part of the value read there is known to the rest of the document"""
    sr = Serializer()
    root = ET.Element("Obj", RefId="0")
    ET.SubElement(ET.SubElement(root, "TN", RefId="0"), "T").text = "System.Collections.ArrayList"
    box = ET.SubElement(root, "LST")
    types = h.pick("kind", UNREAD)
    o = ET.SubElement(box, "Obj", RefId="1")
    tn = ET.SubElement(o, "TN", RefId="1")
    for x in types:
        ET.SubElement(tn, "T").text = x
    a, b, c = h.text("inner", 1, 1 << 16), h.text("x", 1, 1 << 10), h.int("n", 0, 15)
    if types[0].endswith("ArrayList"):
        ET.SubElement(ET.SubElement(o, "LST"), "S").text = b
    elif types[0].endswith("Queue"):
        ET.SubElement(ET.SubElement(o, "QUE"), "S").text = b
    elif types[0].endswith("Hashtable"):
        en = ET.SubElement(ET.SubElement(o, "DCT"), "En")
        ET.SubElement(en, "S", N="Key").text = b
        ET.SubElement(en, "I32", N="Value").text = str(c)
    elif types[0].endswith("ConsoleColor"):
        ET.SubElement(o, "ToString").text = "T"
        ET.SubElement(o, "I32").text = str(c)
    p = ET.SubElement(o, h.pick("section", ["MS", "Props"]) if types[0].startswith("System.Co") else "MS")
    if types[0].endswith("Size"):
        q = ET.SubElement(o, "Props")
        ET.SubElement(q, "I32", N="Width").text = str(c)
        ET.SubElement(q, "I32", N="Height").text = "3"
    if types[0].endswith("PSCredential"):
        q = ET.SubElement(o, "Props")
        ET.SubElement(q, "S", N="UserName").text = b
        ET.SubElement(q, "Nil", N="Password")
    i = ET.SubElement(p, "Obj", N="Extra", RefId="2")
    tn = ET.SubElement(i, "TN", RefId="2")
    for x in ("Some.Thing", "System.Object"):
        ET.SubElement(tn, "T").text = x
    ET.SubElement(ET.SubElement(i, "MS"), "S", N="v").text = a
    after = h.pick("after", ["names", "object", "both", "in an object"])
    t = h.text("after", 1, 1 << 10)
    if after in ("names", "both"):
        e = ET.SubElement(box, "Obj", RefId="3")
        ET.SubElement(e, "TNRef", RefId="2")
        ET.SubElement(ET.SubElement(e, "MS"), "S", N="v").text = t
    if after in ("object", "both"):
        ET.SubElement(box, "Ref", RefId="2")
    if after == "in an object":
        e = ET.SubElement(box, "Obj", RefId="3")
        ET.SubElement(e, "TNRef", RefId="2")
        m = ET.SubElement(e, "MS")
        ET.SubElement(m, "Ref", N="v", RefId="2")
        ET.SubElement(m, "Ref", N="w", RefId="2")
    h.reach("read")
    got = sr.deserialize(wire(root))
    h.check(len(got) == (3 if after == "both" else 2), "items")
    f = got[0]
    if types[0].endswith("ArrayList"):
        h.check(f == [b], "the list")
    elif types[0].endswith("Queue"):
        h.check(f.qsize() == 1 and f.get() == b, "the queue")
    elif types[0].endswith("Hashtable"):
        h.check(f == {b: c}, "the dictionary")
    elif types[0].endswith("ConsoleColor"):
        h.check(f.value == c, "the color")
    elif types[0].endswith("Size"):
        h.check(f.width == c and f.height == 3, "the size")
    else:
        h.check(f.username == b and f.password is None, "the credential")
    own = ["Some.Thing", "System.Object"]
    if after == "in an object":
        h.check(got[1].types == own, "type names")
        x = got[1].extended_properties["v"]
        h.check(x is got[1].extended_properties["w"] and x.types == own and x.extended_properties["v"] == a, "the object referred to")
        return
    if after != "object":
        h.check(got[1].types == own and got[1].extended_properties["v"] == t, "an object of the same type names")
    if after != "names":
        x = got[-1]
        h.check(x.types == own and x.extended_properties["v"] == a, "the object referred to")


@obligation("C08", quick={"n": 2}, thorough={"n": 3}, bounds="two documents, received or sent, on one session; the second refers to a type name list or an object only the first one defined")
def stale_refs(h, n):
    """a reference in a document to a number that only an earlier document of the session defined never resolves to what the earlier document meant"""
    sr = Serializer()
    k = h.count("k", 0, n)
    for i in range(k):
        root = ET.Element("Obj", RefId="0")
        ET.SubElement(ET.SubElement(root, "TN", RefId="0"), "T").text = "Old.Type%d" % i
        ET.SubElement(ET.SubElement(root, "MS"), "S", N="v").text = h.text("v", 1, 100)
        if h.bool("sent"):
            v = GenericComplexObject()
            v.types = ["Old.Type%d" % i]
            sr.serialize(v)
        else:
            sr.deserialize(wire(root))
    what = h.pick("what", ["tn", "obj", "send"])
    if what == "send":
        v = GenericComplexObject()
        v.types = ["Old.Type0"]
        e = sr.serialize(v)
        h.check(e.find("TN") is not None and e.find("TN/T").text == "Old.Type0", "type names are sent as a reference to an earlier document")
        h.reach("send")
        return
    root = ET.Element("Obj", RefId="1")
    ms = ET.Element("MS")
    if what == "tn":
        ET.SubElement(root, "TNRef", RefId="0")
    else:
        ET.SubElement(ms, "Ref", N="r", RefId="0")
    root.append(ms)
    try:
        got = sr.deserialize(wire(root))
    except (KeyError, SerializationError):
        h.reach("refused")
        return
    if what == "tn":
        h.check("Old.Type%d" % (k - 1) not in got.types, "type names of an earlier document are used")
        h.check("Old.Type0" not in got.types, "type names of an earlier document are used")
    else:
        h.check(not isinstance(got.extended_properties.get("r"), GenericComplexObject), "an object of an earlier document is used")


SMA = "System.Management.Automation."
ENUMS = [
    ("System.ConsoleColor", "Color", 15), (SMA + "CommandOrigin", "CommandOrigin", 1), (SMA + "ProgressRecordType", "ProgressRecordType", 1), (SMA + "SessionStateEntryVisibility", "SessionStateEntryVisibility", 1),
    (SMA + "Runspaces.ApartmentState", "ApartmentState", 2), (SMA + "Runspaces.PSThreadOptions", "PSThreadOptions", 3), (SMA + "Runspaces.PipelineResultTypes", "PipelineResultTypes", 3),
    (SMA + "Runspaces.RemoteStreamOptions", "RemoteStreamOptions", 15), (SMA + "Remoting.RemoteHostMethodId", "HostMethodIdentifier", 51),
]  # fmt: skip
OBJECTS = [
    (SMA + "Host.Coordinates", "Coordinates", [("I32", "X", "x"), ("I32", "Y", "y")]),
    (SMA + "Host.Size", "Size", [("I32", "Width", "width"), ("I32", "Height", "height")]),
    (SMA + "Host.KeyInfo", "KeyInfoDotNet", [("I32", "VirtualKeyCode", "code"), ("S", "ControlKeyState", "state")]),
    (SMA + "PSCredential", "PSCredential", [("S", "UserName", "username")]),
    (SMA + "ParameterMetadata", "ParameterMetadata", [("S", "Name", "name"), ("S", "ParameterType", "parameter_type"), ("B", "SwitchParameter", "switch_parameter"), ("B", "IsDynamic", "dynamic")]),
    ("System.Globalization.CultureInfo", "CultureInfo", [("I32", "LCID", "lcid"), ("S", "Name", "name"), ("S", "DisplayName", "display_name"), ("S", "IetfLanguageTag", "ietf_language_tag"), ("S", "ThreeLetterISOLanguageName", "three_letter_iso_name"), ("S", "ThreeLetterWindowsLanguageName", "three_letter_windows_name"), ("S", "TwoLetterISOLanguageName", "two_letter_iso_language_name")]),
]  # fmt: skip


@obligation("C08", quick=[{"what": w} for w in ("enum", "object")], bounds="one value of each enumeration and small class the client has a class for, of any values, live, deserialized or of a derived class, alone, in an array, a generic list, a property of another object or as the value of a dictionary")
def known(h, what):
    """an object of a type the client has a class for becomes an object of that class with its values, wherever it stands"""
    import pypsrp.complex_objects as co

    place = h.pick("place", ["alone", "array", "list", "property", "entry"])
    full, cls, info = h.pick("type", ENUMS if what == "enum" else OBJECTS)
    types = [full, "System.Enum", "System.ValueType", "System.Object"] if what == "enum" else [full, "System.Object"]
    origin = h.pick("origin", ["live", "deserialized", "derived"])
    if origin != "live":
        types = ["Deserialized." + t for t in (["Some.Derived"] if origin == "derived" else []) + types]
    o = ET.Element("Obj", RefId="9")
    tn = ET.SubElement(o, "TN", RefId="9")
    for t in types:
        ET.SubElement(tn, "T").text = t
    want = {}
    if what == "enum":
        want["value"] = v = h.int("v", 0, info)
        ET.SubElement(o, "ToString").text = "T"
        ET.SubElement(o, "I32").text = str(v)
    else:
        ET.SubElement(o, "ToString").text = "T"
        p = ET.SubElement(o, "Props")
        for tag, name, attr in info:
            v = h.text(attr, 1, 1000) if tag == "S" else h.int(attr, -(2**31), 2**31 - 1) if tag == "I32" else h.bool(attr) and True
            ET.SubElement(p, tag, N=name).text = ("true" if v else "false") if tag == "B" else str(v)
            want[attr] = v
        if cls == "PSCredential":
            ET.SubElement(p, "Nil", N="Password")
        elif cls == "KeyInfoDotNet":
            ET.SubElement(p, "C", N="Character").text = "65"
            ET.SubElement(p, "B", N="KeyDown").text = "true"
            want["character"], want["key_down"] = "A", True
        elif cls == "ParameterMetadata":
            ET.SubElement(p, "Nil", N="Aliases")
            want["aliases"] = None
    doc = o
    if place != "alone":
        doc = ET.Element("Obj", RefId="1")
        tn = ET.SubElement(doc, "TN", RefId="1")
        names = {
            "array": [full + "[]", "System.Array", "System.Object"],
            "list": ["System.Collections.Generic.List`1[[%s, Some.Assembly, Version=1.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]" % full, "System.Object"],
            "property": ["Some.Thing", "System.Object"],
            "entry": ["System.Collections.Hashtable", "System.Object"],
        }[place]
        for t in names:
            ET.SubElement(tn, "T").text = t
        if place == "property":
            o.attrib["N"] = "p"
            ET.SubElement(doc, h.pick("section", ["MS", "Props"])).append(o)
        elif place == "entry":
            en = ET.SubElement(ET.SubElement(doc, "DCT"), "En")
            ET.SubElement(en, "S", N="Key").text = "k"
            o.attrib["N"] = "Value"
            en.append(o)
        else:
            ET.SubElement(doc, "LST").append(o)
    h.reach("read")
    got = Serializer().deserialize(wire(doc))
    if place in ("array", "list"):
        h.check(len(got) == 1, "items")
        got = got[0]
    elif place == "property":
        got = dict(got.adapted_properties, **got.extended_properties)["p"]
    elif place == "entry":
        got = got["k"]
    h.check(type(got) is getattr(co, cls), "%s is read as %s" % (full, type(got).__name__))
    for a in want:
        h.check(getattr(got, a) == want[a], "%s of %s" % (a, cls))
