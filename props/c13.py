"""C13: the life of a runspace pool."""
import base64
import xml.etree.ElementTree as ET

from props import lib, peer, records
from symx.api import obligation

from pypsrp.exceptions import InvalidPSRPOperation, InvalidRunspacePoolStateError, WSManFaultError
from pypsrp.powershell import PowerShell, RunspacePool

BEFORE_OPEN, OPENED, CLOSED, CLOSING, BROKEN, NEGOTIATION_SENT, DISCONNECTED = 0, 2, 3, 4, 5, 6, 9


class Srv(peer.Server):
    """Answers availability requests; may refuse one request."""

    def __init__(self, h):
        peer.Server.__init__(self, h)
        self.refuse = False
        self.refused = 0
        self.answer = True

    def on_request(self, r):
        if self.refuse and r.kind in ("Create", "Delete", "Disconnect", "Reconnect", "Signal", "Command"):
            self.refused += 1
            raise_fault(r)

    def on_send(self, name, cid, data):
        for f in lib.parse_fragments(self.h, data):
            if f.data[4:8] in (b"\x0c\x10\x02\x00", b"\x03\x10\x02\x00", b"\x02\x10\x02\x00"):
                ci = [e for e in ET.fromstring(f.data[40:]).iter("I64") if e.attrib["N"].lower() == "ci"][0].text
                self.queue.append(self.frag(records.AVAILABILITY, records.availability(ci, self.answer)))


def raise_fault(r):
    from pypsrp.exceptions import WinRMTransportError

    raise WinRMTransportError("http", 500, peer.fault_envelope(r.message_id, "5", "access is denied").decode("utf-8"))


def kinds(srv, n):
    return [r.kind for r in srv.log[n:]]


STATES = ["BeforeOpen", "Opening", "Opened", "Closed", "Closing", "Broken", "NegotiationSent", "NegotiationSucceeded", "Connecting", "Disconnected"]
ALLOWED = {"open": [BEFORE_OPEN], "connect": [DISCONNECTED], "disconnect": [OPENED], "reset": [BEFORE_OPEN, OPENED]}


def tell(h, err, state, allowed, names, what):
    """The error names the state that is and those in which the operation is possible."""
    h.check(err.current_state == state, what + ": the error has another state")
    exp = err.expected_state if isinstance(err.expected_state, (list, tuple, set)) else [err.expected_state]
    h.check(sorted(set(exp)) == sorted(allowed), what + ": the error does not have the states in which this is possible")
    msg = str(err)
    for i in [state] + allowed:
        h.check(names[i] in msg, what + ": the error does not name the states")



OPS = ["open", "close", "connect", "disconnect", "reset", "min", "broken"]


def act(h, srv, pool, m, op, refuse=False):
    """One operation; m is the reference state."""
    n = len(srv.log)
    srv.refuse = refuse
    want = None  # expected error
    sends = []
    new = m["state"]
    s = m["state"]
    if op == "open":
        if s == BEFORE_OPEN:
            sends, new = ["Create", "Receive"], OPENED
        elif s != OPENED:
            want = InvalidRunspacePoolStateError
        f = pool.open
    elif op == "close":
        if s not in (CLOSED, CLOSING, BROKEN):
            sends, new = (["Delete"] if s != BEFORE_OPEN else []), CLOSED
        f = pool.close
    elif op == "connect":
        if s == DISCONNECTED:
            sends, new = ["Reconnect"], OPENED
        elif s != OPENED:
            want = InvalidRunspacePoolStateError
        f = pool.connect
    elif op == "disconnect":
        if s == OPENED:
            sends, new = ["Disconnect"], DISCONNECTED
        elif s != DISCONNECTED:
            want = InvalidRunspacePoolStateError
        f = pool.disconnect
    elif op == "reset":
        if s == OPENED:
            sends = ["Send", "Receive"]
        elif s != BEFORE_OPEN:
            want = InvalidRunspacePoolStateError
        f = pool.reset_runspace_state
    elif op == "min":
        v = h.int("min", 1, 2**31 - 1)
        if s == OPENED:
            sends = [] if h.split(v == m["min"]) else ["Send", "Receive"]
        m["min"] = v

        def f():
            pool.min_runspaces = v

    elif op == "broken":
        if s != OPENED:
            return
        srv.queue.append(srv.frag(records.POOL_STATE, peer.pool_state(BROKEN)))
        sends, new, want = ["Receive"], BROKEN, InvalidPSRPOperation
        f = pool._receive
    if refuse and sends and sends[0] in ("Create", "Delete", "Disconnect", "Reconnect"):
        sends, new, want = sends[:1], s, WSManFaultError
    err = None
    try:
        f()
    except (InvalidRunspacePoolStateError, InvalidPSRPOperation, WSManFaultError) as e:
        err = e
    srv.refuse = False
    if want is None:
        h.check(err is None, "%s in state %s fails: %s" % (op, s, type(err).__name__))
    else:
        h.check(type(err) is want, "%s in state %s does not raise %s but %s" % (op, s, want.__name__, type(err).__name__))
    if want is InvalidRunspacePoolStateError:
        tell(h, err, s, ALLOWED[op], STATES, op)
    h.check(pool.state == new, "%s in state %s leads to %s, not %s" % (op, s, pool.state, new))
    h.check(kinds(srv, n) == sends, "%s in state %s sends %s, not %s" % (op, s, kinds(srv, n), sends))
    for r in srv.log[n:]:
        if r.kind != "Create":
            h.check(r.selectors == [("ShellId", srv.shell_id)], "%s is not directed at the shell" % r.kind)
        h.check(r.uri == pool.shell.resource_uri, "%s is not directed at the configuration" % r.kind)
    if op == "min":
        h.check(pool.min_runspaces == v, "minimum runspaces")
    m["state"] = new
    h.reach("%s in %s" % (op, s))


@obligation(
    "C13",
    quick=[{"n": 4, "first": f} for f in OPS[:-1]],
    thorough=[{"n": 6, "first": f} for f in OPS[:-1]],
    bounds="every sequence of n operations of open, close, connect, disconnect, reset, setting the minimum to any value, and a broken state from the server",
)
def life(h, n, first):
    """each operation is allowed in exactly the documented states, sends exactly the requests that belong to it and leads to the right state; refused operations send nothing"""
    srv = Srv(h)
    pool = RunspacePool(peer.connect(srv), configuration_name="Some.Other")
    m = {"state": BEFORE_OPEN, "min": 1}
    act(h, srv, pool, m, first)
    for _ in range(n - 1):
        act(h, srv, pool, m, h.pick("op", OPS))


@obligation(
    "C13",
    quick=[{"n": 1, "m": 1}],
    thorough=[{"n": 2, "m": 2}],
    bounds="n operations, then one the server refuses with a fault, then m more operations",
)
def refused(h, n, m):
    """an operation the server refuses leaves the pool in the state it was in, so that it can be tried again"""
    srv = Srv(h)
    pool = RunspacePool(peer.connect(srv))
    st = {"state": BEFORE_OPEN, "min": 1}
    if h.bool("opened"):
        act(h, srv, pool, st, "open")
    for _ in range(n):
        act(h, srv, pool, st, h.pick("op", ["close", "disconnect", "connect"]))
    act(h, srv, pool, st, h.pick("op", ["open", "close", "connect", "disconnect"]), True)
    for _ in range(m):
        act(h, srv, pool, st, h.pick("op", ["open", "close", "connect", "disconnect"]))


@obligation(
    "C13",
    quick=[{"k": 2, "st": s} for s in (OPENED, BROKEN, CLOSED)],
    thorough=[{"k": 4, "st": s} for s in (OPENED, BROKEN, CLOSED)],
    bounds="session capability, up to k of init data / private data / user event, and the final pool state, in one payload or spread over several with any grouping, or an operation timeout before; any version texts",
)
def opening(h, k, st):
    """opening waits until the server has given a state, whatever comes before and however it is grouped, and takes over what the server said"""
    srv = Srv(h)
    pv, sv, av = h.pick("pv", ["2.1", "2.2", "2.3"]), h.text("sv", 1, 100), h.text("av", 1, 100)
    parts = [srv.frag(0x00010002, peer.capability(pv, av, sv))]
    mn, mx = h.int("mn", 1, 2**31 - 1), h.int("mx", 1, 2**31 - 1)
    seen = {"init": 0, "private": 0, "event": 0}
    t = h.text("t", 1, 4096)
    for _ in range(h.count("n", 0, k)):
        x = h.pick("m", ["init", "private", "event"])
        seen[x] += 1
        parts.append({"init": lambda: srv.frag(records.INIT_DATA, records.init_data(mn, mx)), "private": lambda: srv.frag(records.PRIVATE_DATA, records.private_data("k", t)), "event": lambda: srv.frag(records.USER_EVENT, records.user_event(t))}[x]())
    parts.append(srv.frag(records.POOL_STATE, peer.pool_state(st)))
    q = [parts[0]]
    for p in parts[1:]:
        if h.bool("join"):
            q[-1] = q[-1] + p
        else:
            q.append(p)
    slow = h.count("slow", 0, 2 if len(parts) < 3 else 0)
    if slow:
        # nothing to say for longer than the operation timeout
        q.insert(0 if slow == 1 else len(q) - 1, peer.Fault(peer.TIMEDOUT))
    create = srv.handle_Create

    def handle(r):
        out = create(r)
        srv.queue = q
        return out

    srv.handle_Create = handle
    pool = RunspacePool(peer.connect(srv))
    try:
        pool.open()
    except InvalidPSRPOperation:
        h.check(st == BROKEN, "open fails")
        h.reach("broken")
    else:
        h.check(st != BROKEN, "a broken pool opens")
        h.reach("not broken")
    h.check(pool.state == st, "state")
    h.check(len(srv.queue) == 0, "open returned too early")
    h.check(pool.protocol_version == pv and pool.serialization_version == sv and pool.ps_version == av, "versions")
    if seen["init"]:
        h.check(h.all(pool.min_runspaces == mn, pool.max_runspaces == mx), "runspace counts")
    else:
        h.check(pool.min_runspaces == 1 and pool.max_runspaces == 1, "runspace counts")
    h.check((pool.application_private_data is not None) == (seen["private"] > 0), "private data")
    h.check(len(pool.user_events) == seen["event"], "events")


@obligation("C13", bounds="with-statement, body returning or raising one of five kinds of exceptions; any of the operations before it ends")
def context(h):
    """leaving a with block closes the pool, on errors too, and passes the error on"""
    srv = Srv(h)
    pool = RunspacePool(peer.connect(srv))
    op = h.pick("op", ["none", "close", "disconnect"])

    class Boom(Exception):
        pass

    boom = h.pick("raise", [None, Boom(), WSManFaultError(5), InvalidPSRPOperation("x"), KeyboardInterrupt(), SystemExit()])
    try:
        with pool as p:
            h.check(p is pool and pool.state == OPENED, "not opened")
            if op == "close":
                pool.close()
            elif op == "disconnect":
                pool.disconnect()
            if boom is not None:
                raise boom
    except (Boom, WSManFaultError, InvalidPSRPOperation, KeyboardInterrupt, SystemExit) as e:
        h.check(e is boom, "raise")
        h.reach("raised")
    else:
        h.check(boom is None, "the error is swallowed")
        h.reach("left")
    h.check(pool.state == CLOSED, "not closed")
    h.check(srv.kinds().count("Delete") == 1, "the shell is not deleted exactly once")


@obligation("C13", bounds="every thread option, apartment state, any runspace counts, no profile or not, any idle timeout or none, any configuration name of up to 100 characters, up to two application arguments of any text")
def creation(h):
    """the shell is created as the pool was configured"""
    from props import clixml

    srv = Srv(h)
    name = h.text("name", 1, 100)
    mn, mx = h.int("mn", 1, 2**31 - 1), h.int("mx", 1, 2**31 - 1)
    options = h.bool("options")
    ap, th = (h.int("ap", 0, 2), h.int("th", 0, 3)) if options else (0, 0)
    kw = {}
    if options and h.bool("no_profile"):
        kw["no_profile"] = True
    idle = h.int("idle", 1, 2**31 - 1) if options and h.bool("idle?") else None
    if idle is not None:
        kw["idle_timeout"] = idle
    args = None
    n = None if options else h.pick("args", [None, 0, 1, 2])
    if n is not None:
        args = {"k%d" % i: h.text("v", 1, 100) for i in range(n)}
    pool = RunspacePool(peer.connect(srv), ap, th, None, name, mn, mx, **kw)
    pool.open(args)
    r = srv.log[0]
    h.check(r.uri == "http://schemas.microsoft.com/powershell/" + name, "resource uri")
    h.check(all([x.uri == r.uri for x in srv.log]), "resource uri of later requests")
    h.check(r.resource.attrib["ShellId"] == pool.id, "shell id")
    opts = {o[0]: (o[1], o[2]) for o in r.options}
    h.check(opts["protocolversion"][0] == "2.3" and opts["protocolversion"][1]["MustComply"] == "true", "protocol version option")
    h.check(("WINRS_NOPROFILE" in opts) == ("no_profile" in kw), "no profile")
    it = r.resource.find(peer.RSP + "IdleTimeOut")
    h.check((it is not None) == (idle is not None), "idle timeout")
    if idle is not None:
        h.check(it.text == "PT" + str(idle) + "S", "idle timeout value")
    h.check(r.resource.find(peer.RSP + "InputStreams").text == "stdin pr", "input streams")
    h.check(r.resource.find(peer.RSP + "OutputStreams").text == "stdout", "output streams")
    msgs = lib.reassemble(h, lib.parse_fragments(h, srv.pool_in[0]))
    h.check(len(msgs) == 2, "messages in creationXml")
    h.check(msgs[0][1][:8] == b"\x02\x00\x00\x00\x02\x00\x01\x00" and msgs[1][1][:8] == b"\x02\x00\x00\x00\x04\x00\x01\x00", "kinds of messages")
    cap = clixml.read(h, ET.fromstring(msgs[0][1][40:]))
    for n_, v in (("protocolversion", "2.3"), ("PSVersion", "2.0"), ("SerializationVersion", "1.1.0.1")):
        h.check(cap.msv(n_).tag == "Version" and cap.msv(n_).text == v, n_)
    init = clixml.read(h, ET.fromstring(msgs[1][1][40:]))
    h.check(init.msv("MinRunspaces").text == str(mn) and init.msv("MaxRunspaces").text == str(mx), "runspace counts")
    h.check(init.msv("ApartmentState").sets[0].text == str(ap), "apartment state")
    h.check(init.msv("PSThreadOptions").sets[0].text == str(th), "thread options")
    aa = init.msv("ApplicationArguments")
    if args is None:
        h.check(aa.tag == "Nil", "application arguments")
    else:
        clixml_args(h, aa, args)
    h.reach("done")


class Late(Srv):
    """Answers the creation once it has both messages completely, as a server does."""

    answered = False

    def handle_Create(self, r):
        out = Srv.handle_Create(self, r)
        self.states, self.queue = self.queue, []
        self.complete()
        return out

    def on_send(self, name, cid, data):
        if self.answered:
            return Srv.on_send(self, name, cid, data)
        self.h.check(name == "stdin" and cid is None, "the rest of the creation is not sent to the pool")
        self.complete()

    def complete(self):
        ends = [f.end for p in self.pool_in for f in lib.parse_fragments(self.h, p)]
        if len([e for e in ends if e]) == 2:
            self.answered = True
            self.queue.extend(self.states)


@obligation(
    "C13",
    quick={"k": 3},
    thorough={"k": 8},
    bounds="any maximum envelope size from 8 KiB to 8 MiB (other than the 150 KiB default), any configuration name of up to 256 characters, with an idle timeout and no profile or without, one application argument of any length needing at most k requests; the server answers once it has the whole of both messages",
    assumes=["XML text made of characters that need no escaping"],
)
def large(h, k):
    """application arguments too large for one request reach the server completely, in the requests that follow the creation, before the client waits for the answer"""
    from props import clixml

    env = h.int("envelope", 8 << 10, 8 << 20)
    h.assume(env != 153600)
    srv = Late(h)
    kw = {"idle_timeout": h.int("idle", 1, 2**31 - 1), "no_profile": True} if h.bool("options") else {}
    pool = RunspacePool(peer.connect(srv, max_envelope_size=env), configuration_name=h.text("configuration", 1, 256), **kw)
    t = h.text("t", 1, 1 << 25)
    h.assume(len(t) <= (env - 6000) * k // 2)
    pool.open({"k": t})
    h.check(pool.state == OPENED, "not opened")
    h.check(all([len(r.raw) <= env for r in srv.log]), "a request is longer than the maximum envelope size")
    frags = []
    for p in srv.pool_in:
        frags += lib.parse_fragments(h, p)
    msgs = lib.reassemble(h, frags)
    h.check(len(msgs) == 2, "messages in the creation")
    h.check(msgs[0][1][:8] == b"\x02\x00\x00\x00\x02\x00\x01\x00" and msgs[1][1][:8] == b"\x02\x00\x00\x00\x04\x00\x01\x00", "kinds of messages")
    clixml_args(h, clixml.read(h, ET.fromstring(msgs[1][1][40:])).msv("ApplicationArguments"), {"k": t})
    h.check(kinds(srv, 0) == ["Create"] + ["Send"] * (len(srv.pool_in) - 1) + ["Receive"], "the requests of the creation")
    h.reach("in %d requests" % len(srv.pool_in))
    pool.close()
    h.check(kinds(srv, len(srv.log) - 1) == ["Delete"], "close")


def clixml_args(h, node, args):
    from props import clixml

    h.check(node.container == "DCT" and len(node.items) == len(args), "application arguments")
    for k, v in node.items:
        h.check(k.text in args and v.text == args[k.text], "application argument")
