"""C16: pool requests that wait for an answer (runspace counts, reset)."""
import xml.etree.ElementTree as ET

from props import clixml, lib, peer, records
from symx.api import obligation

from pypsrp.exceptions import InvalidPSRPOperation, WSManFaultError

SET_MAX, SET_MIN, AVAIL, RESET = 0x00021002, 0x00021003, 0x00021007, 0x0002100C
NUMBER = {"max": SET_MAX, "min": SET_MIN, "available": AVAIL, "reset": RESET}


class Srv(peer.Server):
    def __init__(self, h):
        peer.Server.__init__(self, h)
        self.got = []  # (message type, ci, properties)
        self.script = None

    def on_send(self, name, cid, data):
        h = self.h
        h.check(name == "stdin" and cid is None, "stream")
        for _, m in lib.reassemble(h, lib.parse_fragments(h, data)):
            t = int.from_bytes(bytes(m[4:8]), "little")
            n = clixml.read(h, ET.fromstring(m[40:]))
            ci = [v for v in n.ms if v.name.lower() == "ci"]
            h.check(len(ci) == 1 and ci[0].tag == "I64", "call id")
            self.got.append((t, ci[0].text, n))
            self.script(ci[0].text)


def answer(srv, ci, value):
    return srv.frag(records.AVAILABILITY, records.availability(ci, value))


def noise(h, srv, seen):
    """Something else the server says first."""
    k = h.pick("noise", ["event", "event+", "private", "empty", "timeout"])
    if k in ("empty", "timeout"):
        srv.queue.append(None if k == "empty" else peer.Fault(peer.TIMEDOUT))
        return b""
    if k == "private":
        p = srv.frag(records.PRIVATE_DATA, records.private_data("k", "v"))
    else:
        seen.append(1)
        p = srv.frag(records.USER_EVENT, records.user_event("e"))
    if k == "event+":
        return p
    srv.queue.append(p)
    return b""


def request(h, srv, pool, m, op, k, refuse=True):
    """One request and everything that must be true afterwards; m: the reference."""
    events = []
    ok = h.pick("answer", ["yes", "no", "fault"] if refuse else ["yes", "no"])
    value = avail = None
    if op == "available":
        avail = h.int("avail", 0, 2**31 - 1)
        if ok == "no":
            ok = "yes"
    elif op in ("min", "max"):
        value = h.int("value", 1, 2**31 - 1)
        h.assume(value != m[op])

    def script(ci):
        if ok == "fault":
            raise peer.Fault("5", "denied")
        pre = b""
        for _ in range(h.count("before", 0, k)):
            pre = pre + noise(h, srv, events)
        post = b""
        if h.bool("after"):
            events.append(1)
            post = srv.frag(records.USER_EVENT, records.user_event("e"))
        srv.queue.append(pre + answer(srv, ci, avail if op == "available" else ok == "yes") + post)

    srv.script = script
    n, n_ev = len(srv.got), len(pool.user_events)
    err = out = None
    try:
        if op == "min":
            pool.min_runspaces = value
        elif op == "max":
            pool.max_runspaces = value
        elif op == "reset":
            pool.reset_runspace_state()
        else:
            out = pool.get_available_runspaces()
    except (InvalidPSRPOperation, WSManFaultError) as e:
        err = e
    want = {"yes": type(None), "no": InvalidPSRPOperation, "fault": WSManFaultError}[ok]
    h.check(type(err) is want, "%s answered with %s: %s" % (op, ok, type(err).__name__))
    h.check(len(srv.got) == n + 1 and srv.got[n][0] == NUMBER[op], "message")
    for t, ci, _ in srv.got[:n]:
        h.check(ci != srv.got[n][1], "a call id is used twice")
    node = srv.got[n][2]
    want_props = {"min": 2, "max": 2}.get(op, 1)
    h.check(len(node.ms) == want_props, "fields")
    if value is not None:
        name = "MinRunspaces" if op == "min" else "MaxRunspaces"
        h.check(node.msv(name).tag == "I32" and node.msv(name).text == str(value), "value")
        if ok == "yes":
            m[op] = value
    if op == "available":
        if ok == "yes":
            h.check(out == avail and type(out) is type(avail), "the number of available runspaces")
    h.check(h.all(pool.min_runspaces == m["min"], pool.max_runspaces == m["max"]), "%s answered with %s: the pool's runspace counts are wrong afterwards" % (op, ok))
    h.check(len(srv.queue) == 0, "returned before the answer")
    h.check(len(pool.user_events) - n_ev == len(events), "events")
    h.check(pool.state == 2, "state")
    h.reach("%s %s" % (op, ok))


OPS = ["min", "max", "available", "reset"]


@obligation(
    "C16",
    quick=[{"n": 2, "first": f, "k": 1} for f in OPS],
    thorough=[{"n": 3, "first": f, "k": 2} for f in OPS],
    bounds="n requests in a row (minimum, maximum, available, reset) with any values, each granted, denied or refused with a fault, with up to k other messages, empty responses or operation timeouts before the answer and another message behind it in the same payload",
)
def requests(h, n, first, k):
    """each request names the right value and a call id of its own, waits for its answer, and changes the pool's counts exactly when the server granted it"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    m = {"min": 1, "max": 1}
    for i in range(n):
        request(h, srv, pool, m, first if i == 0 else h.pick("op", OPS), k if i == n - 1 else 0)


@obligation("C16", bounds="server protocol versions of one to four components, each of any value up to 2^31 - 1; reset")
def reset_version(h):
    """resetting the runspace state is refused, and nothing sent, when the server's protocol is older than 2.3, and only then"""
    srv = Srv(h)
    parts = [h.int("part", 0, 2**31 - 1) for _ in range(h.count("parts", 1, 4))]
    v = ".".join([str(p) for p in parts])
    minor = parts[1] if len(parts) > 1 else 0
    ok = h.any(parts[0] > 2, h.all(parts[0] == 2, minor >= 3))
    srv.open_states = [peer.capability(v), peer.pool_state(2)]
    ws, pool = peer.open_pool(h, srv)
    srv.script = lambda ci: srv.queue.append(answer(srv, ci, True))
    n = len(srv.log)
    try:
        pool.reset_runspace_state()
    except InvalidPSRPOperation:
        h.check(h.no(ok), "refused")
        h.check(len(srv.log) == n, "reset")
        h.reach("refused")
    else:
        h.check(ok, "reset with an older version")
        h.check(srv.got[-1][0] == RESET, "reset")
        h.reach("done")


@obligation("C16", bounds="an answer to a request that was answered with a fault before, granting or refusing it, once or twice, arriving during the next request in a payload of its own or not; any values")
def late(h):
    """a late answer to an abandoned request is not taken for the answer to the next one"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    a, b = h.int("a", 2, 2**31 - 1), h.int("b", 2, 2**31 - 1)
    seen = []

    def first(ci):
        seen.append(ci)
        srv.queue.append(peer.Fault("5", "denied"))

    srv.script = first
    try:
        pool.max_runspaces = a
    except WSManFaultError:
        h.reach("abandoned")
    else:
        # waiting on is as good
        h.reach("not abandoned")
        return

    good, old = h.bool("good"), h.bool("old")
    twice = h.bool("twice")

    def simple(ci):
        x, y = answer(srv, seen[0], old), answer(srv, ci, good)
        if twice:
            x = x + answer(srv, seen[0], old)
        if h.bool("together"):
            srv.queue.append(x + y)
        else:
            srv.queue += [x, y]

    srv.script = simple
    try:
        pool.min_runspaces = b
    except InvalidPSRPOperation:
        h.check(not good, "granted, yet refused")
        h.check(pool.min_runspaces == 1, "count")
    else:
        h.check(good, "denied, yet accepted")
        h.check(pool.min_runspaces == b, "count")
    h.check(len(srv.queue) == 0, "returned before the answer")
