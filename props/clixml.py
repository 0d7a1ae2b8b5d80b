"""Reference reader of CLIXML ([MS-PSRP] 2.2.5), written from the specification.
Runs symbolically and concretely."""
import base64

CONTAINERS = ("LST", "IE", "QUE", "STK", "DCT")


class Node(object):
    """One serialised value."""

    def __init__(self, tag, name=None, text=None):
        self.tag, self.name, self.text = tag, name, text
        self.types = None
        self.to_string = None
        self.items = None
        self.container = None
        self.props = None
        self.ms = None
        self.sets = []
        self.refid = None

    def prop(self, name):
        for n in (self.props or []) + (self.ms or []):
            if n.name == name:
                return n
        return None

    def msv(self, name):
        for n in self.ms or []:
            if n.name == name:
                return n
        return None


class Reader(object):
    def __init__(self, h):
        self.h = h
        self.objs = {}
        self.tns = {}

    def read(self, e):
        h = self.h
        name = e.attrib.get("N")
        if e.tag == "Ref":
            h.check(e.attrib.get("RefId") in self.objs, "a Ref to an object not yet sent")
            n = self.objs[e.attrib["RefId"]]
            r = Node("Ref", name)
            r.target = n
            return r
        if e.tag != "Obj":
            h.check(len(list(e)) == 0, "a primitive %s has children" % e.tag)
            return Node(e.tag, name, e.text)
        n = Node("Obj", name)
        n.refid = e.attrib["RefId"]
        h.check(n.refid not in self.objs, "an object id is used twice")
        self.objs[n.refid] = n
        n.types = []
        for c in e:
            if c.tag == "TN":
                n.types = [t.text for t in c]
                h.check(c.attrib["RefId"] not in self.tns, "a type name id is used twice")
                self.tns[c.attrib["RefId"]] = n.types
            elif c.tag == "TNRef":
                h.check(c.attrib["RefId"] in self.tns, "a TNRef to type names not yet sent")
                n.types = self.tns[c.attrib["RefId"]]
            elif c.tag == "ToString":
                n.to_string = c.text or ""
            elif c.tag in CONTAINERS:
                n.container = c.tag
                n.items = []
                for i in c:
                    if c.tag == "DCT":
                        h.check(i.tag == "En", "a dictionary entry is not En")
                        kv = [self.read(x) for x in i]
                        h.check(len(kv) == 2 and kv[0].name == "Key" and kv[1].name == "Value", "a dictionary entry is not Key, Value")
                        n.items.append((kv[0], kv[1]))
                    else:
                        n.items.append(self.read(i))
            elif c.tag == "Props":
                n.props = [self.read(x) for x in c]
            elif c.tag == "MS":
                n.ms = [self.read(x) for x in c]
            else:
                n.sets.append(self.read(c))
        return n


def read(h, e):
    return Reader(h).read(e)


LIST_TYPES = ["System.Object[]", "System.Array", "System.Object"]
DICT_TYPES = ["System.Collections.Hashtable", "System.Object"]
QUEUE_TYPES = ["System.Collections.Queue", "System.Object"]
STACK_TYPES = ["System.Collections.Stack", "System.Object"]


def same_text(h, node, text, what):
    """The text of an element; an empty element has no text."""
    t = node.text
    h.check((t if t is not None else "") == text, "%s: wrong text" % what)


def check_value(h, node, v, what="value"):
    """The node is the serialised form of the plain Python value v."""
    import queue
    import uuid

    if v is None:
        h.check(node.tag == "Nil", "%s: not Nil" % what)
    elif isinstance(v, bool):
        h.check(node.tag == "B", "%s: not B" % what)
        same_text(h, node, "true" if v else "false", what)
    elif isinstance(v, int):
        h.check(node.tag == "I32", "%s: not I32 but %s" % (what, node.tag))
        same_text(h, node, str(v), what)
    elif isinstance(v, str):
        h.check(node.tag == "S", "%s: not S but %s" % (what, node.tag))
        same_text(h, node, v, what)
    elif isinstance(v, bytes):
        h.check(node.tag == "BA", "%s: not BA" % what)
        same_text(h, node, base64.b64encode(v).decode("ascii"), what)
    elif isinstance(v, uuid.UUID):
        h.check(node.tag == "G", "%s: not G" % what)
        same_text(h, node, str(v), what)
    elif isinstance(v, (list, queue.Queue)):
        q = isinstance(v, queue.Queue)
        h.check(node.tag == "Obj" and node.container == ("QUE" if q else "LST"), "%s: not a list" % what)
        h.check(node.types == (QUEUE_TYPES if q else LIST_TYPES), "%s: wrong types" % what)
        items = list(v.queue) if q else v
        h.check(len(node.items) == len(items), "%s: wrong number of items" % what)
        for i in range(len(items)):
            check_value(h, node.items[i], items[i], what + "[]")
    elif isinstance(v, dict):
        h.check(node.tag == "Obj" and node.container == "DCT", "%s: not a dictionary" % what)
        h.check(node.types == DICT_TYPES, "%s: wrong types" % what)
        h.check(len(node.items) == len(v), "%s: wrong number of entries" % what)
        for (k, x), (rk, rx) in zip(v.items(), node.items):
            check_value(h, rk, k, what + " key")
            check_value(h, rx, x, what + " value")
    else:
        h.fail("no reference for %s" % type(v))


def same(h, a, b, what="value"):
    """Equality of decoded values with types (1, True and "1" differ)."""
    import queue

    for t in (bool, int, str, bytes, list, dict, queue.Queue):
        h.check(isinstance(a, t) == isinstance(b, t), "%s: kinds differ" % what)
    if isinstance(a, (list, queue.Queue)):
        x = list(a.queue) if isinstance(a, queue.Queue) else a
        y = list(b.queue) if isinstance(b, queue.Queue) else b
        h.check(len(x) == len(y), "%s: lengths differ" % what)
        for i in range(len(x)):
            same(h, x[i], y[i], what + "[]")
    elif isinstance(a, dict):
        h.check(len(a) == len(b), "%s: sizes differ" % what)
        for (k, x), (k2, y) in zip(a.items(), b.items()):
            same(h, k, k2, what + " key")
            same(h, x, y, what + " value")
    elif a is None or b is None:
        h.check(a is None and b is None, "%s: None" % what)
    else:
        h.check(a == b, "%s: values differ" % what)
