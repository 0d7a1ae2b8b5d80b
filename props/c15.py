"""C15: the input of a pipeline."""
import base64
import xml.etree.ElementTree as ET

from props import clixml, lib, peer
from symx.api import obligation

from pypsrp.complex_objects import ObjectMeta
from pypsrp.powershell import PowerShell
from pypsrp.serializer import TaggedValue

CREATE, INPUT, END = 0x00021006, 0x00041002, 0x00041003


def item(h, pool, kinds):
    """(value, check of its serialised form)"""
    k = h.pick("kind", kinds)

    def prim(tag, text):
        def chk(n):
            h.check(n.tag == tag and n.text == text, "%s is sent as %s" % (tag, n.tag))

        return chk

    if k == "text":
        v = h.text("t", 1, 4096)
        return v, prim("S", v)
    if k == "int":
        v = h.int("i", -(2**31), 2**31 - 1)
        return v, prim("I32", str(v))
    if k == "zero":
        return 0, prim("I32", "0")
    if k == "false":
        return False, prim("B", "false")
    if k == "null":
        return None, lambda n: h.check(n.tag == "Nil", "null")
    if k == "empty":
        return "", lambda n: h.check(n.tag == "S" and not n.text, "empty text")
    if k == "bytes":
        return b"\x00\xff", prim("BA", "AP8=")
    if k == "dict":
        v = h.text("v", 1, 100)

        def chk(n):
            h.check(n.container == "DCT" and len(n.items) == 1 and n.items[0][0].text == "k" and n.items[0][1].text == v, "dictionary")

        return {"k": v}, chk
    if k == "no entries":
        return {}, lambda n: h.check(n.container == "DCT" and len(n.items) == 0, "empty dictionary")
    if k == "tagged":
        v = h.int("i", 0, 2**64 - 1)
        return TaggedValue("U64", v), prim("U64", str(v))
    if k == "made":
        v = h.text("t", 1, 100)
        return pool.serialize(v, ObjectMeta("XD")), prim("XD", v)
    v = h.text("t", 1, 100)

    def chk(n):
        h.check(n.container == "LST" and len(n.items) == 1 and n.items[0].text == v, "list")

    return [[v]], chk  # a list in the list of items


KINDS = ["text", "int", "zero", "false", "null", "empty", "bytes", "dict", "no entries", "tagged", "made"]


def check(h, srv, ps, pool, n, want, small=False):
    """What was sent from request n on: the pipeline, then the items, then the end of the input once."""
    reqs = srv.log[n:]
    h.check(reqs[0].kind == "Command" and all([r.kind == "Send" for r in reqs[1:]]), "requests")
    data = b""
    for r in reqs:
        if r.kind == "Command":
            data += base64.b64decode(r.resource.find(peer.RSP + "Arguments").text)
        else:
            s = r.resource.findall(peer.RSP + "Stream")
            h.check(len(s) == 1 and s[0].attrib["Name"] == "stdin", "stream")
            h.check(s[0].attrib["CommandId"] == srv.command_id, "the input goes to another command")
            data += base64.b64decode(s[0].text)
    msgs = lib.reassemble(h, lib.parse_fragments(h, data))
    types = [int.from_bytes(bytes(m[1][4:8]), "little") for m in msgs]
    h.check(types[0] == CREATE, "the first message is not the pipeline")
    root = clixml.read(h, ET.fromstring(msgs[0][1][40:]))
    no_input = root.msv("NoInput")
    h.check(no_input.tag == "B", "NoInput")
    if want is None:
        h.check(no_input.text == "true" and len(msgs) == 1, "no input was given, yet input is announced or sent")
        h.reach("none")
        return
    h.check(no_input.text == "false", "input is sent to a pipeline that was announced without input")
    h.check(types[1:] == [INPUT] * len(want) + [END], "messages sent after the pipeline: %s" % types[1:])
    for m, chk in zip(msgs[1:], want):
        h.check(m[1][8:40] == msgs[0][1][8:40], "pool or pipeline id")
        chk(clixml.read(h, ET.fromstring(m[1][40:])))
    h.check(msgs[-1][1][8:40] == msgs[0][1][8:40] and not msgs[-1][1][40:], "end of the input")
    h.reach("%d items" % len(want))


class Renaming(peer.Server):
    """May give a command an id of its own choice."""

    def pick_command_id(self, cid):
        return lib.PID2 if self.h.bool("renamed") else cid


def start(h, **kw):
    srv = Renaming(h)
    ws, pool = peer.open_pool(h, srv, **kw)
    return srv, pool, PowerShell(pool).add_script("s")


@obligation("C15", bounds="one value of every kind (any text of up to 4096 characters, any 32 bit integer, zero, false, null, empty text, bytes, empty and non-empty dictionary, tagged value, element made by serialize, list), or no input")
def single(h):
    """a single value is sent as one input object, whatever it is, followed by the end of the input; no input announces none and sends none"""
    srv, pool, ps = start(h)
    n = len(srv.log)
    if h.bool("none"):
        ps.begin_invoke(None)
        return check(h, srv, ps, pool, n, None)
    v, chk = item(h, pool, [k for k in KINDS if k != "null"] + ["list"])
    ps.begin_invoke(v)
    check(h, srv, ps, pool, n, [chk])


@obligation(
    "C15",
    quick=[{"n": 2}],
    thorough=[{"n": 3}],
    bounds="a list of up to n items of every kind, or of none; the server gives the command an id of its own or not",
)
def listed(h, n):
    """each item of a list is sent as an input object of its own, in order; the list itself is left alone"""
    srv, pool, ps = start(h)
    items = [item(h, pool, KINDS + ["list"] if i == 0 else ["text", "null", "zero"]) for i in range(h.count("n", 0, n))]
    values = [v[0] if isinstance(v, list) else v for v, _ in items]
    mine = list(values)
    k = len(srv.log)
    ps.begin_invoke(values)
    check(h, srv, ps, pool, k, [c for _, c in items])
    h.check(len(values) == len(mine) and all([a is b for a, b in zip(values, mine)]), "the caller's list was changed")


@obligation(
    "C15",
    quick=[{"n": 2, "m": 2}],
    thorough=[{"n": 3, "m": 2}],
    bounds="a generator of up to n values or lists of up to m values; each a text, zero, false, null or empty text; also one that yields nothing or empty lists",
)
def generated(h, n, m):
    """everything a generator yields is sent in order, lists item by item, followed by the end of the input exactly once"""
    srv, pool, ps = start(h)
    plan, want = [], []
    for _ in range(h.count("n", 0, n)):
        if h.bool("list"):
            l = []
            for _ in range(h.count("m", 0, m)):
                v, c = item(h, pool, ["text", "null"])
                l.append(v)
                want.append(c)
            plan.append(l)
        else:
            v, c = item(h, pool, ["text", "zero", "false", "null", "empty", "no entries"])
            plan.append(v)
            want.append(c)
    k = len(srv.log)
    ps.begin_invoke(x for x in plan)
    check(h, srv, ps, pool, k, want)


@obligation(
    "C15",
    quick=[{"n": n, "size": s, "gen": g} for n, s in ((1, 1500), (2, 500)) for g in (0, 1)],
    thorough=[{"n": n, "size": s, "gen": g} for n, s in ((1, 6000), (2, 1500), (3, 500)) for g in (0, 1)],
    bounds="n texts of up to `size` characters, with an envelope size that leaves about 600 bytes per request; as list or generator",
)
def large(h, n, size, gen):
    """input larger than a request is spread over several and is complete"""
    srv = peer.Server(h)
    srv.open_states = [peer.capability("2.1"), peer.pool_state(2)]
    ws, pool = peer.open_pool(h, srv, {"max_envelope_size": 3000})
    ps = PowerShell(pool).add_script("s")
    items = [h.text("t", 1, size) for _ in range(n)]

    def chk(t):
        return lambda node: h.check(node.tag == "S" and node.text == t, "text")

    k = len(srv.log)
    ps.begin_invoke((x for x in items) if gen else items)
    check(h, srv, ps, pool, k, [chk(t) for t in items])
    for r in srv.log[k:]:
        h.check(len(r.raw) <= 3000, "request larger than the envelope size")


@obligation("C15", bounds="a generator that fails after up to two items, or a value that cannot be sent")
def broken(h):
    """an error while producing the input reaches the caller"""
    srv, pool, ps = start(h)

    class Boom(Exception):
        pass

    n = h.count("n", 0, 2)

    def gen():
        for _ in range(n):
            yield "x"
        raise Boom()

    try:
        ps.begin_invoke(gen())
    except Boom:
        h.reach("raised")
    else:
        h.fail("the error of the generator is lost")
