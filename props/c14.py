"""C14: the life of a pipeline."""
from props import lib, peer, records
from props.c13 import tell
from symx.api import obligation

from pypsrp.exceptions import InvalidPipelineStateError, InvalidPSRPOperation, WSManFaultError
from pypsrp.powershell import PowerShell

NOT_STARTED, RUNNING, STOPPING, STOPPED, COMPLETED, FAILED, DISCONNECTED = range(7)
ENDED = (STOPPED, COMPLETED, FAILED)
TERMINATE = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/signal/Terminate"
CTRL_C = "powershell/signal/ctrl_c"


class Srv(peer.Server):
    """May refuse a request; may name the commands itself."""

    def __init__(self, h, rename=False):
        peer.Server.__init__(self, h)
        self.rename = rename
        self.refuse = False
        self.n = 0
        self.queues = {}
        self.meanwhile = None  # done while a signal is under way

    def on_request(self, r):
        if self.refuse:
            raise peer.Fault("5", "access is denied")

    def pick_command_id(self, cid):
        if not self.rename:
            return cid
        self.n += 1
        return "8E2A0A3C-0000-0000-0000-%012d" % self.n

    def handle_Receive(self, r):
        cid = r.resource.find(peer.RSP + "DesiredStream").attrib.get("CommandId")
        if cid is not None:
            if cid not in self.queues:
                self.h.fail("received for the command %s the server does not know" % cid)
            self.pipe_queue = self.queues[cid]
        return peer.Server.handle_Receive(self, r)

    def handle_Connect(self, r):
        return peer.ET.Element(peer.RSP + "ConnectResponse")

    def handle_Signal(self, r):
        if self.meanwhile is not None:
            f, self.meanwhile = self.meanwhile, None
            f()
        return peer.Server.handle_Signal(self, r)


STATES = ["NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"]
ALLOWED = {"begin": [NOT_STARTED] + list(ENDED), "stop": [RUNNING], "close": list(ENDED), "connect": [DISCONNECTED], "nested": [RUNNING]}


class Model(object):
    """What a pipeline must be like."""

    def __init__(self, h, srv, pool):
        self.h, self.srv = h, srv
        self.ps = PowerShell(pool).add_script("s")
        self.state = NOT_STARTED
        self.cid = None
        self.out = []
        self.reconnected = False
        self.rename = srv.rename

    def begin(self):
        if self.state in (NOT_STARTED,) + ENDED:
            return self.ps.begin_invoke, ["Command"], RUNNING, None
        return self.ps.begin_invoke, [], self.state, InvalidPipelineStateError

    def finish(self, state):
        """The server ends the pipeline."""
        if self.state != RUNNING:
            return self.ps.end_invoke, [], self.state, None
        t = self.h.text("out", 1, 4096)
        self.out.append(t)
        f = self.srv.frag
        self.srv.queues[self.cid].append(f(records.OUTPUT, peer.output(t), self.ps.id) + f(records.STATE, records.pipe_state(state), self.ps.id))
        return self.ps.end_invoke, ["Receive"], state, None

    def poll(self):
        if self.state != RUNNING:
            return None
        self.srv.queues[self.cid].append(peer.Fault(peer.TIMEDOUT))
        return self.ps.poll_invoke, ["Receive"], RUNNING, None

    def stop(self):
        if self.state in (STOPPING, STOPPED):
            return self.ps.stop, [], self.state, None
        if self.state == RUNNING:
            return self.ps.stop, ["Signal"], STOPPED, None
        return self.ps.stop, [], self.state, InvalidPipelineStateError

    def close(self):
        if self.state == NOT_STARTED:
            return self.ps.close, [], self.state, None
        if self.state in ENDED:
            return self.ps.close, ["Signal"], self.state, None
        return self.ps.close, [], self.state, InvalidPipelineStateError

    def connect(self):
        if self.state == DISCONNECTED:
            return self.ps.connect_async, ["Connect"], RUNNING, None
        return self.ps.connect_async, [], self.state, InvalidPipelineStateError

    def nested(self):
        if self.state != RUNNING:
            want = InvalidPipelineStateError
        elif self.reconnected:
            want = InvalidPSRPOperation
        else:
            want = None
        return self.ps.create_nested_power_shell, [], self.state, want

    def act(self, op, arg=None, refuse=False):
        h, srv = self.h, self.srv
        x = getattr(self, op)(*([] if arg is None else [arg]))
        if x is None:
            return
        f, sends, new, want = x
        before = self.state
        n = len(srv.log)
        refuse = refuse and bool(sends)
        if refuse:
            new, want = self.state, WSManFaultError
            if op == "finish":
                self.out.pop()
                srv.queues[self.cid].pop()
        srv.refuse = refuse
        err = out = None
        try:
            out = f()
        except (InvalidPipelineStateError, InvalidPSRPOperation, WSManFaultError) as e:
            err = e
        srv.refuse = False
        what = "%s in state %s%s" % (op, before, " (refused)" if refuse else "")
        if want is None:
            h.check(err is None, what + " fails: %s" % type(err).__name__)
        else:
            h.check(type(err) is want, what + " does not raise %s but %s" % (want.__name__, type(err).__name__))
        if want is InvalidPipelineStateError:
            tell(h, err, before, ALLOWED[op], STATES, op)
        sent = [r.kind for r in srv.log[n:]]
        h.check(sent == sends, what + " sends %s" % sent)
        h.check(self.ps.state == new, what + " leads to state %s" % self.ps.state)
        self.state = new
        known = self.ps.runspace_pool.pipelines
        if op in ("stop", "close") and want is None and sends:
            h.check(self.ps.id not in known, what + ": the pool still knows the pipeline")
        elif new == RUNNING:
            h.check(known.get(self.ps.id) is self.ps, what + ": the pool does not know the pipeline")
        for r in srv.log[n:]:
            h.check(r.selectors == [("ShellId", srv.shell_id)], what + ": not directed at the shell")
            if r.kind == "Command":
                h.check(r.resource.attrib["CommandId"] == self.ps.id, what + ": command id")
                if not refuse:
                    self.cid = srv.command_id
                    self.reconnected = False
                    srv.queues.setdefault(self.cid, [])
            elif r.kind == "Receive":
                h.check(r.resource.find(peer.RSP + "DesiredStream").attrib["CommandId"] == self.cid, what + ": wrong command")
            elif r.kind == "Signal":
                h.check(r.resource.attrib["CommandId"] == self.cid, what + ": signals %s" % r.resource.attrib["CommandId"])
                h.check(r.resource.find(peer.RSP + "Code").text == (CTRL_C if op == "stop" else TERMINATE), what + ": signal")
            elif r.kind == "Connect":
                h.check(r.resource.attrib["CommandId"] == self.cid, what + ": connects to %s" % r.resource.attrib["CommandId"])
                if not refuse:
                    self.reconnected = True
        if op == "nested" and want is None:
            h.check(out.is_nested and out.state == NOT_STARTED and out.runspace_pool is self.ps.runspace_pool and out.id != self.ps.id, "nested pipeline")
        if op == "finish" and want is None:
            h.check(out is self.ps.output, "end_invoke does not return the output")
        h.check(len(self.ps.output) == len(self.out) and all([a == b for a, b in zip(self.ps.output, self.out)]), what + ": output")
        h.reach(what)


def disconnect(pool, models):
    pool.disconnect()
    for m in models:
        if m.state == RUNNING:
            m.state = DISCONNECTED
    pool.connect()
    for m in models:
        m.h.check(m.ps.state == m.state, "disconnecting the pool turns a pipeline in state %s into %s" % (m.state, m.ps.state))


OTHERS = ["finish", "stop", "close", "disconnect", "connect"]
OPS = ["begin", "finish", "poll", "stop", "close", "connect", "nested", "disconnect"]


def one(h, pool, m, op, refuse=False, others=()):
    if op == "disconnect":
        disconnect(pool, [m] + list(others))
    else:
        m.act(op, h.pick("end", ENDED) if op == "finish" and m.state == RUNNING else ENDED[0] if op == "finish" else None, refuse)


@obligation(
    "C14",
    quick=[{"n": 3, "first": f} for f in OPS if f != "begin"] + [{"n": 4, "first": "begin", "second": f} for f in OPS],
    thorough=[{"n": 6, "first": "begin", "second": f} for f in OPS],
    bounds="every sequence of n operations: begin, the server ending the pipeline as completed, stopped or failed, an operation timeout while polling, stop, close, disconnecting and reconnecting the pool, connecting to the pipeline, making a nested pipeline",
)
def life(h, n, first, second=None):
    """each operation is allowed in exactly the documented states, sends exactly the request that belongs to it, for the right command, and leads to the right state"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    m = Model(h, srv, pool)
    one(h, pool, m, first)
    if second:
        one(h, pool, m, second)
    for _ in range(n - 2 if second else n - 1):
        one(h, pool, m, h.pick("op", OPS))


@obligation(
    "C14",
    quick=[{"n": 4, "second": f} for f in OPS],
    thorough=[{"n": 6, "second": f} for f in OPS],
    bounds="begin and n-1 further operations as above; the server gives every command an id of its own choice",
)
def renamed(h, n, second):
    """every request for a pipeline uses the command id the server gave it"""
    srv = Srv(h, True)
    ws, pool = peer.open_pool(h, srv)
    m = Model(h, srv, pool)
    one(h, pool, m, "begin")
    one(h, pool, m, second)
    for _ in range(n - 2):
        one(h, pool, m, h.pick("op", OPS))


@obligation(
    "C14",
    quick=[{"n": 1, "m": 2, "op": f} for f in ("begin", "finish", "stop", "close", "connect")],
    thorough=[{"n": 3, "m": 2, "op": f} for f in ("begin", "finish", "stop", "close", "connect")],
    bounds="up to n operations after begin, one operation the server refuses with a fault, m further ones",
)
def refused(h, n, m, op):
    """an operation the server refuses raises, leaves the pipeline in the state it was in, and can be tried again"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    p = Model(h, srv, pool)
    k = h.count("before", 0, n + 1)
    for i in range(k):
        one(h, pool, p, "begin" if i == 0 else h.pick("op", ["finish", "stop", "disconnect"]))
    one(h, pool, p, op, True)
    for _ in range(m):
        one(h, pool, p, h.pick("op", ["begin", "finish", "stop", "close", "connect"]))


@obligation(
    "C14",
    quick=[{"n": 2, "op": f} for f in OTHERS],
    thorough=[{"n": 4, "op": f} for f in OTHERS],
    bounds="two running pipelines, n operations on either",
)
def others(h, n, op):
    """an operation on one pipeline does not change another one, which still ends with its own output"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    ms = [Model(h, srv, pool) for _ in range(2)]
    for m in ms:
        one(h, pool, m, "begin")
    for i in range(n):
        m = ms[h.count("which", 0, 1)]
        o = ms[1] if m is ms[0] else ms[0]
        one(h, pool, m, h.pick("op", OTHERS) if i else op, others=[o])
        h.check(o.ps.state == o.state, "the other pipeline changes its state")
        h.check(len(o.ps.output) == len(o.out), "the other pipeline gets output")
    for m in ms:
        if m.state == DISCONNECTED:
            one(h, pool, m, "connect")
        if m.state == RUNNING:
            one(h, pool, m, "finish")


@obligation("C14", bounds="with statement around a pipeline that was not started, ended in any state, or is still running; the body raising or not")
def context(h):
    """leaving a with block closes the pipeline and passes errors on"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    m = Model(h, srv, pool)
    do = h.pick("do", ["nothing", "ended"])
    boom = h.bool("raise")

    class Boom(Exception):
        pass

    try:
        with m.ps as p:
            h.check(p is m.ps, "the with target")
            if do == "ended":
                one(h, pool, m, "begin")
                one(h, pool, m, "finish")
            if boom:
                raise Boom()
    except Boom:
        h.check(boom, "raise")
    else:
        h.check(not boom, "the error is swallowed")
    h.check(srv.signals == ([(m.cid, TERMINATE)] if do == "ended" else []), "signals")
    h.reach("done")


@obligation("C14", bounds="any poll timeout in seconds and any default operation timeout")
def poll_timeout(h):
    """polling with a timeout asks the server for exactly that operation timeout, without one for the connection's"""
    srv = Srv(h)
    dflt = h.int("default", 1, 2**31 - 1)
    ws, pool = peer.open_pool(h, srv, {"operation_timeout": dflt, "read_timeout": 2**31})
    m = Model(h, srv, pool)
    one(h, pool, m, "begin")
    t = h.int("t", 1, 2**31 - 1) if h.bool("given") else None
    srv.queues[m.cid].append(peer.Fault(peer.TIMEDOUT))
    m.ps.poll_invoke(timeout=t)
    h.check(srv.log[-1].timeout == "PT" + str(dflt if t is None else t) + "S", "operation timeout")
    h.reach("done")


@obligation("C14", bounds="stop called, any pipeline operation called by another thread while the server has not answered it, and stop called again afterwards")
def stopping(h):
    """while a stop is under way the pipeline is in the state Stopping: another stop asks for nothing, nothing else is allowed"""
    srv = Srv(h, h.bool("rename"))
    ws, pool = peer.open_pool(h, srv)
    m = Model(h, srv, pool)
    one(h, pool, m, "begin")
    op = h.pick("meanwhile", ["stop", "begin", "close", "connect", "nested"])
    seen = []

    def other():
        n = len(srv.log)
        m.state = STOPPING
        f, sends, new, want = getattr(m, op)()
        try:
            f()
            err = None
        except (InvalidPipelineStateError, InvalidPSRPOperation) as e:
            err = e
        h.check(type(err) is want if want else err is None, "%s while stopping: %s" % (op, type(err).__name__))
        h.check(len(srv.log) == n, op + " while stopping sends something")
        h.check(m.ps.state == STOPPING, "state while stopping")
        m.state = RUNNING
        seen.append(op)

    srv.meanwhile = other
    one(h, pool, m, "stop")
    h.check(seen == [op], "one signal")
    one(h, pool, m, "stop")
    one(h, pool, m, "close")
    h.reach(op)
