"""C07: containers."""
import queue
import xml.etree.ElementTree as ET

from props import clixml
from symx.api import obligation

from pypsrp.complex_objects import DictionaryMeta, ListMeta, QueueMeta, StackMeta
from pypsrp.serializer import Serializer, TaggedValue


def wire(e):
    return ET.fromstring(ET.tostring(e, encoding="utf-8", method="xml"))


def leaf(h):
    k = h.pick("leaf", ["int", "text", "bool", "none", "bytes"])
    if k == "int":
        return h.int("i", -(2**31), 2**31 - 1)
    if k == "text":
        return h.text("t", 0, 1 << 16)
    if k == "bool":
        return h.bool("b") and True
    if k == "bytes":
        return h.blob("y", 0, 1 << 16)
    return None


class Make(object):
    """Builds a value from a shape such as [l, {k: l}, Q[l]] twice, so that the
    caller's object can be compared with an untouched twin."""

    def __init__(self, h):
        self.h = h
        self.leaves = 0

    def two(self, shape):
        h = self.h
        if shape == "l":
            v = leaf(h)
            return v, v
        if shape == "i":
            v = h.int("i", -(2**31), 2**31 - 1)
            return v, v
        if shape == "s":
            v = h.text("s", 0, 1 << 16)
            return v, v
        if isinstance(shape, dict):
            a, b = {}, {}
            n = 0
            for k, s in shape.items():
                key = "key%d" % n if k.startswith("s") else n
                n += 1
                a[key], b[key] = self.two(s)
            return a, b
        if shape and shape[0] == "Q":
            a, b = queue.Queue(), queue.Queue()
            for s in shape[1:]:
                x, y = self.two(s)
                a.put(x)
                b.put(y)
            return a, b
        a, b = [], []
        for s in shape:
            x, y = self.two(s)
            a.append(x)
            b.append(y)
        return a, b


SHAPES = [
    ["l", "l"],
    {"s1": "l", "i2": "l"},
    ["Q", "l", "l"],
    [["l"], {"s1": "i"}, ["Q", "i", "s"], "l"],
    {"s1": ["i", "s"], "s2": {"i1": "l"}, "i3": ["Q", "s"]},
    ["Q", ["i"], "s", {"s1": []}, ["Q"]],
    [[], {}, ["Q"], [[[]]]],
]


@obligation(
    "C07",
    quick=[{"shape": s} for s in SHAPES],
    thorough=[{"shape": [["l", "l"], {"s1": "l"}]}, {"shape": {"s1": ["l"], "i2": ["Q", "l", "i"], "s3": {"s": ["l"]}}}, {"shape": ["l", "l", "l"]}, {"shape": ["Q", "l", "l", ["l"]]}],
    bounds="containers of the given nesting; leaves any 32 bit integer, text of any length up to 65536, bytes of any length up to 65536, booleans, null",
)
def nested(h, shape):
    """a nest of lists, dictionaries and queues is sent with the right container element, type names, entry order and unique ids, reads back equal, leaves the caller's object as it was, and can be sent a second time with the same result"""
    v, twin = Make(h).two(shape)
    sr = Serializer()
    e = wire(sr.serialize(v))
    clixml.check_value(h, clixml.read(h, e), twin)
    got = sr.deserialize(e)
    clixml.same(h, got, twin, "read back")
    clixml.same(h, v, twin, "caller's value after serialising")
    e2 = wire(sr.serialize(v))
    clixml.check_value(h, clixml.read(h, e2), twin, "second time")
    h.reach("done")


@obligation("C07", quick={"n": 3}, thorough={"n": 5}, bounds="stacks of up to n leaves of any kind, tagged or with metadata")
def stacks(h, n):
    """a stack is sent top first under its own type names and the caller's list is left alone"""
    k = h.count("n", 0, n)
    v = [leaf(h) if i < 2 else h.int("i", 0, 9) for i in range(k)]
    twin = list(v)
    sr = Serializer()
    if h.bool("tagged"):
        e = sr.serialize(TaggedValue("STK", v))
    else:
        e = sr.serialize(v, StackMeta())
    node = clixml.read(h, wire(e))
    h.check(node.container == "STK" and node.types == clixml.STACK_TYPES, "not a stack")
    h.check(len(node.items) == k, "items lost")
    for i in range(k):
        clixml.check_value(h, node.items[i], twin[k - 1 - i])
    h.check(len(v) == k, "the caller's list was emptied")
    for i in range(k):
        clixml.same(h, v[i], twin[i], "the caller's list was changed")
    got = sr.deserialize(wire(e))
    h.check(isinstance(got, list) and len(got) == k, "read back")
    for i in range(k):
        clixml.same(h, got[i], twin[k - 1 - i])
    h.reach("done")


@obligation("C07", quick={"n": 2}, thorough={"n": 3}, bounds="every container tag, up to n leaves of any kind, explicit tags on the container and on a first item")
def tagged(h, n):
    """explicitly tagged containers and items keep their tags, and the metadata given by the caller is not changed by serialising"""
    kind = h.pick("kind", ["LST", "IE", "QUE", "STK", "DCT"])
    vals = [leaf(h) for _ in range(h.count("n", 0, n))]
    first = h.bool("first tagged")
    if first:
        vals.insert(0, TaggedValue("U64", h.int("u", 0, 2**64 - 1)))
    meta = {"LST": ListMeta(), "IE": ListMeta("IE"), "QUE": QueueMeta(), "STK": StackMeta(), "DCT": DictionaryMeta()}[kind]
    sr = Serializer()

    def build():
        if kind == "QUE":
            q = queue.Queue()
            for x in vals:
                q.put(x)
            return q
        if kind == "DCT":
            return tuple((i, x) for i, x in enumerate(vals))
        return list(reversed(vals)) if kind == "STK" else list(vals)

    how = h.pick("how", ["tag", "meta"])
    for again in range(2):
        e = sr.serialize(TaggedValue(kind, build())) if how == "tag" else sr.serialize(build(), meta)
        node = clixml.read(h, wire(e))
        h.check(node.container == kind, "container")
        h.check(len(node.items) == len(vals), "items")
        items = [x[1] for x in node.items] if kind == "DCT" else node.items
        if first:
            h.check(items[0].tag == "U64" and items[0].text == str(vals[0].value), "tagged item")
        for i in range(1 if first else 0, len(vals)):
            clixml.check_value(h, items[i], vals[i])
    h.reach(kind)


def prim(h, refs):
    """A server side value: (element, expected)"""
    k = h.pick("item", ["S", "I32", "hash", "list", "plain", "queue"])
    if k == "S":
        t = h.text("t", 1, 1 << 16)
        e = ET.Element("S")
        e.text = t
        return e, t
    if k == "I32":
        v = h.int("v", -(2**31), 2**31 - 1)
        e = ET.Element("I32")
        e.text = str(v)
        return e, v
    refs[0] += 1
    o = ET.Element("Obj", RefId=str(refs[0]))
    t = h.text("inner", 1, 1 << 16)
    if k == "plain":
        ms = ET.SubElement(o, "MS")
        ET.SubElement(ms, "S", N="p").text = t
        return o, ("plain", t)
    refs[0] += 1
    tn = ET.SubElement(o, "TN", RefId=str(refs[0]))
    if k == "hash":
        ET.SubElement(tn, "T").text = "System.Collections.Hashtable"
        en = ET.SubElement(ET.SubElement(o, "DCT"), "En")
        ET.SubElement(en, "S", N="Key").text = "k"
        ET.SubElement(en, "S", N="Value").text = t
        return o, {"k": t}
    if k == "list":
        ET.SubElement(tn, "T").text = "System.Collections.ArrayList"
        ET.SubElement(ET.SubElement(o, "LST"), "S").text = t
        return o, [t]
    ET.SubElement(tn, "T").text = "System.Collections.Queue"
    ET.SubElement(ET.SubElement(o, "QUE"), "S").text = t
    q = queue.Queue()
    q.put(t)
    return o, q


@obligation(
    "C07",
    quick={"n": 2},
    thorough={"n": 3},
    bounds="server lists of every known type name or of a class derived from it, n items of any kind in any order (text, integer, hashtable, list, queue, object without type names)",
)
def server_lists(h, n):
    """a list from the server reads back item by item whatever the mixture of item kinds: dictionaries as dictionaries, lists as lists, untyped objects as generic objects"""
    from pypsrp.complex_objects import GenericComplexObject

    tname = h.pick("type", ["System.Object[]", "System.Collections.ArrayList", "System.Array", "Deserialized.System.Object[]", "System.Collections.Generic.List`1[[System.Object, mscorlib, Version=4.0.0.0]]", "System.Collections.Stack"])
    refs = [0]
    o = ET.Element("Obj", RefId="0")
    tn = ET.SubElement(o, "TN", RefId="0")
    if h.bool("derived"):
        ET.SubElement(tn, "T").text = "Deserialized.Some.Derived"
    ET.SubElement(tn, "T").text = tname
    ET.SubElement(tn, "T").text = "System.Object"
    box = ET.SubElement(o, "STK" if tname.endswith("Stack") else "LST")
    want = []
    for _ in range(n):
        e, w = prim(h, refs)
        # known finding, see untyped_after_primitive
        h.assume(not (isinstance(w, tuple) and any(isinstance(x, (str, int)) for x in want)))
        box.append(e)
        want.append(w)
    got = Serializer().deserialize(wire(o))
    h.check(isinstance(got, list), "not a list")
    h.check(len(got) == n, "number of items")
    for g, w in zip(got, want):
        if isinstance(w, tuple):
            h.check(isinstance(g, GenericComplexObject), "an untyped object in a list is not decoded")
            h.check(g.extended_properties["p"] == w[1], "property of an object in a list")
        else:
            clixml.same(h, g, w, "item")
    h.reach("done")


@obligation("C07", quick={"n": 2}, thorough={"n": 3}, bounds="server dictionaries of every known type name or of a class derived from it, n entries with keys text or integer, values of any kind")
def server_dicts(h, n):
    """a dictionary from the server reads back key by key"""
    from pypsrp.complex_objects import GenericComplexObject

    tname = h.pick("type", ["System.Collections.Hashtable", "System.Management.Automation.PSPrimitiveDictionary", "Deserialized.System.Collections.Hashtable", "System.Management.Automation.PSBoundParametersDictionary", "System.Collections.Generic.Dictionary`2[[System.String, mscorlib],[System.Object, mscorlib]]"])
    refs = [0]
    o = ET.Element("Obj", RefId="0")
    tn = ET.SubElement(o, "TN", RefId="0")
    if h.bool("derived"):
        ET.SubElement(tn, "T").text = "Deserialized.Some.Derived"
    ET.SubElement(tn, "T").text = tname
    ET.SubElement(tn, "T").text = "System.Object"
    box = ET.SubElement(o, "DCT")
    want = []
    for i in range(n):
        en = ET.SubElement(box, "En")
        if h.bool("intkey"):
            ET.SubElement(en, "I32", N="Key").text = str(i)
            key = i
        else:
            ET.SubElement(en, "S", N="Key").text = "k%d" % i
            key = "k%d" % i
        e, w = prim(h, refs)
        e.attrib["N"] = "Value"
        en.append(e)
        want.append((key, w))
    got = Serializer().deserialize(wire(o))
    h.check(isinstance(got, dict) and len(got) == n, "not a dictionary of that size")
    for k, w in want:
        h.check(k in got, "key lost")
        g = got[k]
        if isinstance(w, tuple):
            h.check(isinstance(g, GenericComplexObject) and g.extended_properties["p"] == w[1], "object value")
        else:
            clixml.same(h, g, w, "entry")
    h.reach("done")


@obligation("C07", bounds="the one list [1, object without type names]")
def untyped_after_primitive(h):
    """an object without type names behind a primitive in a list is decoded like one in front of it"""
    o = ET.Element("Obj", RefId="0")
    ET.SubElement(ET.SubElement(o, "TN", RefId="0"), "T").text = "System.Collections.ArrayList"
    box = ET.SubElement(o, "LST")
    ET.SubElement(box, "I32").text = "1"
    x = ET.SubElement(box, "Obj", RefId="1")
    ET.SubElement(ET.SubElement(x, "MS"), "S", N="p").text = "v"
    h.reach("done")
    got = Serializer().deserialize(wire(o))
    h.check(len(got) == 2 and got[0] == 1, "the list")
    h.check(not isinstance(got[1], str), "an untyped object behind a primitive in a list comes back as text")
    h.check(got[1].extended_properties["p"] == "v", "property")
