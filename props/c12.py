"""C12: output and stream records are delivered once and in order."""
import warnings

from props import lib, peer, records
from symx.api import obligation

from pypsrp.powershell import PowerShell, RunspacePoolWarning

KINDS = ["output"] + list(records.STREAMS)
OTHER = ["user_event", "running", "unknown"]
TERMINAL = [3, 4, 5]


class Run(object):
    """A pipeline and what the server has said for it."""

    def __init__(self, h, srv, pool):
        self.h, self.srv = h, srv
        self.ps = PowerShell(pool).add_script("s")
        self.want = {k: [] for k in KINDS}
        self.queue = []

    def say(self, kind, t):
        """The payload of one message."""
        srv, pid = self.srv, self.ps.id
        if kind == "output":
            self.want["output"].append(t)
            return srv.frag(records.OUTPUT, peer.output(t), pid)
        if kind in records.STREAMS:
            n, make, _ = records.STREAMS[kind]
            self.want[kind].append(t)
            return srv.frag(n, make(t), pid)
        if kind == "user_event":
            return srv.frag(records.USER_EVENT, records.user_event(t))
        if kind == "running":
            return srv.frag(records.STATE, records.pipe_state(1), pid)
        return srv.frag(0x00041006 if kind == "state" else records.INIT_DATA, records.init_data(1, 1))

    def end(self, state, err):
        if err is not None:
            self.want["error"].append(err)
        return self.srv.frag(records.STATE, records.pipe_state(state, err), self.ps.id)

    def check(self, what):
        h, ps = self.h, self.ps
        got = {"output": ps.output}
        for k in records.STREAMS:
            get = records.STREAMS[k][2]
            got[k] = [get(x) for x in getattr(ps.streams, k)]
        for k in KINDS:
            h.check(len(got[k]) == len(self.want[k]), "%s: %s: %d records are there" % (what, k, len(got[k])))
            for a, b in zip(got[k], self.want[k]):
                h.check(a == b, "%s: %s: records out of order or altered" % (what, k))


class Srv(peer.Server):
    """Receives are answered from the queue of the pipeline they are for."""

    def __init__(self, h):
        peer.Server.__init__(self, h)
        self.queues = {}

    def handle_Receive(self, r):
        cid = r.resource.find(peer.RSP + "DesiredStream").attrib.get("CommandId")
        if cid in self.queues:
            self.pipe_queue = self.queues[cid]
        return peer.Server.handle_Receive(self, r)


def deal(h, parts, gaps):
    """Messages grouped into payloads, with quiet receives between them."""
    out = [parts[0]]
    for p, g in zip(parts[1:], gaps):
        if g == "join":
            out[-1] = out[-1] + p
            continue
        if g == "timeout":
            out.append(peer.Fault(peer.TIMEDOUT))
        elif g == "empty":
            out.append(None)
        out.append(p)
    return out


@obligation(
    "C12",
    quick=[{"k": 2, "first": f, "all": 1} for f in KINDS + OTHER] + [{"k": 3, "first": f, "all": 0} for f in ("output", "error", "progress")],
    thorough=[{"k": 3, "first": f, "all": 1} for f in KINDS + OTHER],
    bounds="k messages of any kind (output, six streams, pool messages, a running state) with any text of up to 4096 characters, then stopped, completed or failed with or without an error record; each gap between messages: same payload, next payload, after an operation timeout, after an empty response",
)
def delivery(h, k, first, all):
    """every output and stream record arrives once, in the server's order, in its own list; the pipeline ends in the state the server gave"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    r = Run(h, srv, pool)
    r.ps.begin_invoke()
    kinds = KINDS + OTHER if all else ["output", "error", "progress"]
    parts = []
    for i in range(k):
        parts.append(r.say(first if i == 0 else h.pick("kind", kinds), lib.odd(h, "t", 1, 4096)))
    state, err = h.pick("state", [(3, 0), (4, 0), (5, 0), (5, 1), (4, 1)] if all else [(4, 0), (5, 1)])
    err = lib.odd(h, "err", 1, 4096) if err else None
    parts.append(r.end(state, err))
    gaps = [h.pick("gap", ["join", "next", "timeout", "empty"] if i == k - 1 and all else ["join", "timeout"]) for i in range(k)]
    srv.pipe_queue = deal(h, parts, gaps)
    out = r.ps.end_invoke()
    h.check(out is r.ps.output, "end_invoke does not return the output")
    r.check("after the end")
    h.check(r.ps.state == state, "state")
    h.check(r.ps.had_errors == (state == 5), "had_errors")
    h.check(len(srv.pipe_queue) == 0, "stopped before everything was received")
    h.reach("done")


@obligation("C12", bounds="every kind of value as output: null, booleans, integers, empty and non-empty text, bytes, lists, dictionaries, objects; between two texts")
def values(h):
    """an output is delivered whatever its value is"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    r = Run(h, srv, pool)
    r.ps.begin_invoke()
    i = h.int("i", -(2**31), 2**31 - 1)
    t = lib.odd(h, "t", 1, 4096)
    E = peer.el
    lst = records.typed(["System.Object[]", "System.Array", "System.Object"], peer.ET.Element("Obj", RefId="0"))
    ls = peer.ET.SubElement(lst, "LST")
    full = h.bool("full")
    if full:
        ls.append(E("S", None, t))
    v = h.pick("v", [(E("Nil"), None), (E("B", None, "false"), False), (E("I32", None, str(i)), i), (E("S"), None), (E("BA", None, ""), b""), (lst, [t] if full else [])])
    srv.pipe_queue = [
        srv.frag(records.OUTPUT, peer.output("a"), r.ps.id) + srv.frag(records.OUTPUT, peer.xb(v[0]), r.ps.id),
        srv.frag(records.OUTPUT, peer.output("b"), r.ps.id) + srv.frag(records.STATE, records.pipe_state(4), r.ps.id),
    ]
    out = r.ps.end_invoke()
    h.check(len(out) == 3 and out[0] == "a" and out[2] == "b", "outputs")
    if v[0].tag == "S":
        h.check(out[1] == "" or out[1] is None, "empty text")
    elif v[1] is None:
        h.check(out[1] is None, "null")
    else:
        h.check(out[1] == v[1] and isinstance(out[1], type(v[1])), "value")
    h.reach("done")


@obligation("C12", quick=[{"n": 2, "k": 2}], thorough=[{"n": 2, "k": 3}, {"n": 3, "k": 2}], bounds="n messages in k fragments each, the first cut anywhere in its text; each gap between fragments: same payload, next payload, after an operation timeout, after an empty response, after a message for the pool")
def cut(h, n, k):
    """a message whose fragments arrive in several payloads is delivered, whatever lies between them"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    r = Run(h, srv, pool)
    r.ps.begin_invoke()
    parts = []
    for i in range(n):
        t = lib.odd(h, "t", 2, 4096)
        kind = "error" if i == 1 else "output"
        r.want[kind].append(t)
        srv.oid += 1
        data, num = (peer.output(t), records.OUTPUT) if kind == "output" else (records.error(t), records.ERROR)
        m = lib.message(lib.CLIENT, num, lib.RPID, r.ps.id, data)
        c = 40
        if i == 0:
            c = h.int("cut", 43, 4200)
            h.assume(c < len(m) - 4)
        cuts = [0] + [40 - 8 * j for j in range(k - 2, 0, -1)] + [c, len(m)]
        for j in range(k):
            parts.append(lib.fragment(srv.oid, j, j == 0, j == k - 1, m[cuts[j] : cuts[j + 1]]))
    parts.append(r.end(4, None))
    gaps = []
    for i in range(len(parts) - 1):
        g = h.pick("gap", ["join", "next", "timeout", "empty", "event"] if i < n * k - 1 else ["next"])
        if g == "event":
            parts[i] = parts[i] + r.say("user_event", "x")
            g = "next"
        gaps.append(g)
    srv.pipe_queue = deal(h, parts, gaps)
    r.ps.end_invoke()
    r.check("cut")
    h.reach("done")


@obligation("C12", quick=[{"k": 1}], thorough=[{"k": 3}], bounds="two pipelines of one pool polled in any order; k messages (output or error) for them; one message in each is cut into two fragments (anywhere in its text; after its header), received in separate payloads, with messages of the other pipeline in between")
def two(h, k):
    """what the server sends for one pipeline never ends up in another, also when fragments of their messages interleave"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    rs = [Run(h, srv, pool) for _ in range(2)]
    for r in rs:
        r.ps.begin_invoke()
        srv.queues[r.ps._command_id] = r.queue
    for r in rs:
        # a message in two fragments
        t = lib.odd(h, "long", 2, 4096)
        r.want["output"].append(t)
        srv.oid += 1
        m = lib.message(lib.CLIENT, records.OUTPUT, lib.RPID, r.ps.id, peer.output(t))
        # at any byte of the text for the first, at the headers' border for the second
        c = 40
        if r is rs[0]:
            c = h.int("cut", 43, 4200)
            h.assume(c < len(m) - 4)
        r.queue.append(lib.fragment(srv.oid, 0, True, False, m[:c]))
        r.queue.append(lib.fragment(srv.oid, 1, False, True, m[c:]))
    for _ in range(k):
        r = rs[h.count("which", 0, 1)]
        r.queue.append(r.say(h.pick("kind", ["output", "error"]), lib.odd(h, "t", 1, 4096)))
    for r in rs:
        r.queue.append(r.end(4, None))
    order = []
    while any(r.ps.state == 1 for r in rs):
        live = [r for r in rs if r.ps.state == 1]
        r = live[h.count("poll", 0, 1)] if len(live) == 2 else live[0]
        r.ps.poll_invoke()
    for r in rs:
        r.check("both")
    h.reach("done")


@obligation("C12", bounds="two invocations of one object, records in both, streams cleared in between or not, by any terminal states")
def again(h):
    """a further invocation appends to what is there; clear_streams empties everything and leaves lists handed out before alone"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    r = Run(h, srv, pool)
    before = None
    for i in range(2):
        r.ps.begin_invoke()
        parts = [r.say(h.pick("kind", ["output", "warning", "information"]), lib.odd(h, "t", 1, 4096)), r.end(h.pick("state", TERMINAL), None)]
        srv.pipe_queue = deal(h, parts, ["next"])
        out = r.ps.end_invoke()
        r.check("invocation %d" % i)
        r.ps.close()
        if i == 0 and h.bool("clear"):
            n = len(out)
            r.ps.clear_streams()
            h.check(len(out) == n, "clear_streams empties a list that was handed out")
            r.want = {k: [] for k in KINDS}
            r.check("cleared")
    h.reach("done")


@obligation("C12", bounds="messages for the pool received while no pipeline is polled: user events, private data, init data, a warning; any text; in any order of two, together or apart")
def pool_messages(h):
    """messages for the pool are kept (events, private data), reported (warnings) or applied (runspace counts)"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    want = []
    parts = []
    warned = []
    for _ in range(2):
        k = h.pick("kind", ["event", "private", "init", "warning"])
        t = lib.odd(h, "t", 1, 4096)
        want.append((k, t))
        n = h.int("n", 1, 2**31 - 1)
        if k == "event":
            parts.append(srv.frag(records.USER_EVENT, records.user_event(t)))
        elif k == "private":
            parts.append(srv.frag(records.PRIVATE_DATA, records.private_data("k", t)))
        elif k == "init":
            parts.append(srv.frag(records.INIT_DATA, records.init_data(n, n)))
        else:
            parts.append(srv.frag(records.WARNING, records.informational("warn")))
        want[-1] = (k, t, n)
    srv.queue = deal(h, parts, [h.pick("gap", ["join", "next"])])
    keep = warnings.warn
    warnings.warn = lambda *a, **k: warned.append(a)
    try:
        while srv.queue:
            pool._receive()
    finally:
        warnings.warn = keep
    ev = [w for w in want if w[0] == "event"]
    h.check(len(pool.user_events) == len(ev), "events")
    for a, b in zip(pool.user_events, ev):
        h.check(a.source_id == b[1], "event text or order")
    for k, t, n in want:
        if k == "private":
            last = t
        if k == "init":
            count = n
    if any(w[0] == "private" for w in want):
        h.check(pool.application_private_data.data["k"] == last, "private data")
    if any(w[0] == "init" for w in want):
        h.check(h.all(pool.min_runspaces == count, pool.max_runspaces == count), "runspace counts")
    h.check(len(warned) == len([w for w in want if w[0] == "warning"]), "warnings")
    for w in warned:
        h.check(w[1] is RunspacePoolWarning and w[0] == "warn", "warning")
    h.reach("done")
