"""C10: the pipeline a user builds is the pipeline the server is told to run."""
import base64
import queue
import xml.etree.ElementTree as ET

from props import clixml, lib, peer
from symx.api import obligation

from pypsrp.complex_objects import GenericComplexObject, PSInvocationState
from pypsrp.exceptions import InvalidPSRPOperation
from pypsrp.powershell import PowerShell
from pypsrp.serializer import TaggedValue

PSOBJECTS = "System.Collections.Generic.List`1[[System.Management.Automation.PSObject, System.Management.Automation, Version=1.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]"
RESULT = ["System.Management.Automation.Runspaces.PipelineResultTypes", "System.Enum", "System.ValueType", "System.Object"]


class Srv(peer.Server):
    def __init__(self, h, proto="2.3"):
        peer.Server.__init__(self, h)
        self.open_states[0] = peer.capability(proto=proto)
        self.created = []

    def handle_Command(self, r):
        out = peer.Server.handle_Command(self, r)
        self.created.append((self.command_id, [self.pipe_in.pop()[1]]))
        return out

    def on_send(self, name, cid, data):
        if cid is not None:
            self.created[-1][1].append(data)

    def pipeline(self, i=-1):
        """The CREATE_PIPELINE message of the i-th pipeline, read by the reference reader."""
        h = self.h
        cid, chunks = self.created[i]
        frags = []
        for c in chunks:
            frags += lib.parse_fragments(h, c)
        msgs = lib.reassemble(h, frags, "pipeline")
        raw = msgs[0][1]
        h.check(raw[:8] == lib.message(lib.SERVER, 0x00021006, None, None, b"")[:8], "not a CREATE_PIPELINE message")
        self.rest = [m[1] for m in msgs[1:]]
        return clixml.read(h, ET.fromstring(raw[40:]))


def new(h, proto="2.3", **kw):
    srv = Srv(h, proto)
    ws, pool = peer.open_pool(h, srv, **kw)
    return srv, pool


class Cmd(object):
    def __init__(self, text, script, local):
        self.text, self.script, self.local = text, script, local
        self.args = []
        self.end = False
        self.my = self.to = self.prev = self.error = self.warning = self.verbose = self.debug = self.information = 0


def boolean(h, node, v, what):
    if v is None:
        h.check(node.tag == "Nil", what)
    else:
        h.check(node.tag == "B" and node.text == ("true" if v else "false"), what)


NAMES = {0: "None", 1: "Output", 2: "Error", 8: "Null"}


def result(h, n, v, what, prev=False):
    h.check(n is not None, what + " is missing")
    h.check(n.tag == "Obj" and n.types == RESULT, what + ": type")
    h.check(n.to_string == ("Output, Error" if prev and v == 3 else NAMES[v]), what + ": display string")
    h.check(len(n.sets) == 1 and n.sets[0].tag == "I32" and n.sets[0].text == str(v), what + " differs")


def check_command(h, n, c, proto, value):
    h.check(n.tag == "Obj", "a command is not an object")
    h.check(n.msv("Cmd").tag == "S", "Cmd")
    clixml.same_text(h, n.msv("Cmd"), c.text, "Cmd")
    boolean(h, n.msv("IsScript"), c.script, "IsScript")
    boolean(h, n.msv("UseLocalScope"), c.local, "UseLocalScope")
    result(h, n.msv("MergeMyResult"), c.my, "MergeMyResult")
    result(h, n.msv("MergeToResult"), c.to, "MergeToResult")
    result(h, n.msv("MergePreviousResults"), c.prev, "MergePreviousResults", True)
    for name, v, since in (("MergeError", c.error, 2), ("MergeWarning", c.warning, 2), ("MergeVerbose", c.verbose, 2), ("MergeDebug", c.debug, 2), ("MergeInformation", c.information, 3)):
        if int(proto[2:]) >= since:
            result(h, n.msv(name), v, name)
        else:
            h.check(n.msv(name) is None, name + " is sent to a server that does not know it")
    a = n.msv("Args")
    h.check(a.tag == "Obj" and a.container == "LST" and a.types == [PSOBJECTS, "System.Object"], "Args: not a list")
    h.check(len(a.items) == len(c.args), "number of arguments")
    for x, (name, v) in zip(a.items, c.args):
        h.check(x.tag == "Obj" and len(x.ms) == 2, "an argument has not exactly a name and a value")
        if name is None:
            h.check(x.msv("N").tag == "Nil", "a positional argument has a name")
        else:
            h.check(x.msv("N").tag == "S", "parameter name")
            clixml.same_text(h, x.msv("N"), name, "parameter name")
        value(x.msv("V"), v)


def check_pipeline(h, node, cmds, proto, value=None, nested=False):
    """The PowerShell object holds the statements of the model."""
    value = value or (lambda n, v: clixml.check_value(h, n, v, "argument"))
    statements, cur = [], []
    for c in cmds:
        cur.append(c)
        if c.end:
            statements.append(cur)
            cur = []
    if cur:
        statements.append(cur)

    def lst(n, want):
        h.check(n.tag == "Obj" and n.container == "LST" and n.types == [PSOBJECTS, "System.Object"], "a command list is not a list")
        h.check(len(n.items) == len(want), "number of commands in a statement")
        for x, c in zip(n.items, want):
            check_command(h, x, c, proto, value)

    p = node.msv("PowerShell")
    boolean(h, p.msv("IsNested"), nested, "IsNested")
    lst(p.msv("Cmds"), statements[0])
    ex = p.msv("ExtraCmds")
    if len(statements) < 2:
        h.check(ex is None or ex.tag == "Nil", "extra statements")
    else:
        h.check(ex.tag == "Obj" and ex.container == "LST", "several statements are not sent")
        h.check(len(ex.items) == len(statements), "number of statements")
        for x, s in zip(ex.items, statements):
            lst(x.msv("Cmds"), s)


def step(h, ps, cmds, op, light=False):
    if op in ("cmdlet", "script"):
        t = lib.odd(h, "cmd", 1, 1 << 12) if cmds else h.text("cmd", 0, 1 << 12)
        local = h.pick("local", [None, True, False]) if len(cmds) == 0 and not light else None
        if op == "cmdlet":
            r = ps.add_cmdlet(t, local)
        else:
            r = ps.add_script(t, local)
        cmds.append(Cmd(t, op == "script", local))
    elif op == "statement":
        r = ps.add_statement()
        cmds[-1].end = True
    elif op == "arg":
        v = h.int("v", -(2**31), 2**31 - 1)
        r = ps.add_argument(v)
        cmds[-1].args.append((None, v))
    elif op == "one":
        v = lib.odd(h, "v", 1, 1 << 10)
        n = lib.odd(h, "n", 1, 100)
        r = ps.add_parameter(n, v)
        cmds[-1].args.append((n, v))
    else:
        v = lib.odd(h, "v", 1, 1 << 10)
        n = lib.odd(h, "n", 1, 100)
        r = ps.add_parameters({n: v})
        cmds[-1].args.append((n, v))
    h.check(r is ps, "the calls cannot be chained")


OPS = ["cmdlet", "script", "statement", "arg", "param", "one"]


@obligation(
    "C10",
    quick=[{"first": "cmdlet", "then": t, "n": 2} for t in OPS] + [{"first": "script", "then": t, "n": 1} for t in OPS],
    thorough=[{"first": f, "then": t, "n": 3} for f in ("cmdlet", "script") for t in OPS],
    bounds="every sequence of up to n+2 builder calls (cmdlet, script, statement, argument, parameters, parameter) starting with a command; texts up to 4096 characters, any 32 bit argument",
)
def structure(h, first, then, n):
    """the statements, commands, arguments and parameters sent are those the builder calls made, in order and grouped into the same statements, and sending them again gives the same"""
    srv, pool = new(h)
    ps = PowerShell(pool)
    cmds = []
    step(h, ps, cmds, first)
    if h.pick("more", [1, 0]):
        step(h, ps, cmds, then)
        for _ in range(h.count("n", 0, n)):
            step(h, ps, cmds, h.pick("op", OPS))
    ps.begin_invoke()
    check_pipeline(h, srv.pipeline(), cmds, "2.3")
    h.check(srv.rest == [], "more is sent than the pipeline")
    h.check(srv.created[-1][0] == ps.id, "command id")
    h.reach("done")


@obligation("C10", quick=[{"n": 1, "clear": c} for c in (0, 1)], thorough=[{"n": 3, "clear": c} for c in (0, 1)], bounds="a pipeline built from up to n builder calls, invoked and finished, up to n more calls on the same object, invoked again")
def reuse(h, n, clear):
    """commands added to a pipeline that was run before continue it where it was left: the earlier run does not turn them into a statement of their own, and clear_commands starts afresh"""
    srv, pool = new(h)
    ps = PowerShell(pool)
    cmds = []
    step(h, ps, cmds, "cmdlet", True)
    for _ in range(h.count("n", 0, n)):
        step(h, ps, cmds, h.pick("op", ["cmdlet", "statement", "arg"]), True)
    ps.begin_invoke()
    srv.pipe_queue.append(srv.frag(0x00041006, peer.pipe_state(4), ps.id))
    ps.end_invoke()
    if h.bool("close"):
        ps.close()
    if clear:
        h.check(ps.clear_commands() is ps, "the calls cannot be chained")
        cmds = []
        step(h, ps, cmds, "script", True)
    for _ in range(h.count("m", 0, n)):
        step(h, ps, cmds, h.pick("op2", ["cmdlet", "statement", "arg"]), True)
    ps.begin_invoke()
    check_pipeline(h, srv.pipeline(), cmds, "2.3")
    h.reach("done")


def some(h, pool, all=True):
    """(argument, check of its serialised form)"""
    from props.c07 import leaf

    k = h.pick("kind", ["tagged", "element", "object"] if not all else ["leaf", "list", "dict", "tagged", "object", "element", "switch"])
    if k == "leaf":
        v = leaf(h)
        return v, lambda n: clixml.check_value(h, n, v)
    if k == "list":
        v = [h.int("i", 0, 99), [h.text("t", 0, 100)]]
        return v, lambda n: clixml.check_value(h, n, v)
    if k == "dict":
        v = {"a": h.text("t", 0, 100), "b": [h.int("i", 0, 99)]}
        return v, lambda n: clixml.check_value(h, n, v)
    if k == "tagged":
        i = h.int("u", 0, 2**64 - 1)
        return TaggedValue("U64", i), lambda n: h.check(n.tag == "U64" and n.text == str(i), "tagged argument")
    if k == "object":
        o = GenericComplexObject()
        o.types = ["A", "System.Object"]
        t = h.text("t", 0, 100)
        o.extended_properties["p"] = t

        def chk(n):
            h.check(n.tag == "Obj" and n.types == ["A", "System.Object"], "object argument")
            clixml.same_text(h, n.msv("p"), t, "property of an object argument")

        return o, chk
    if k == "element":
        i = h.int("u", 0, 2**64 - 1)
        return pool.serialize(i), lambda n: h.check(n.tag == ("I32" if h.must(i < 2**31) else n.tag) and n.text == str(i), "serialised argument")
    return None, lambda n: h.check(n.tag == "Nil", "switch")


@obligation("C10", quick=[{"n": 1, "m": 1}], thorough=[{"n": 2, "m": 1}, {"n": 2, "m": 2}], bounds="one or two statements, n arguments of every kind (text, integer, boolean, null, bytes, list, dictionary, tagged value, object, element made by serialize, switch) on the first command and m on the second")
def arguments(h, n, m):
    """every argument arrives with its value and type whatever statement its command is in; the caller's values can be used again"""
    srv, pool = new(h)
    ps = PowerShell(pool)
    cmds = []
    for k in (n, m):
        t = h.text("cmd", 1, 100)
        ps.add_cmdlet(t)
        c = Cmd(t, False, None)
        cmds.append(c)
        for i in range(k):
            v, chk = some(h, pool, len(cmds) == 1)
            if len(cmds) == 1 and h.pick("named", [0, 1]):
                ps.add_parameter("Name%d" % i, v)
                c.args.append(("Name%d" % i, chk))
            else:
                ps.add_argument(v)
                c.args.append((None, chk))
        if k == n and len(cmds) == 1 and h.bool("statement"):
            ps.add_statement()
            c.end = True
    ps.begin_invoke()
    check_pipeline(h, srv.pipeline(), cmds, "2.3", lambda x, chk: chk(x))
    h.reach("done")


MERGES = ["error", "warning", "verbose", "debug", "information", "all", "previous", "reset"]


@obligation(
    "C10",
    quick=[{"proto": p, "n": n} for p, n in (("2.1", 2), ("2.2", 1), ("2.3", 1))],
    thorough=[{"proto": p, "n": 3} for p in ("2.1", "2.2", "2.3")],
    bounds="every sequence of up to n merge calls with every target, on the last of two commands, for each server protocol version",
)
def merges(h, proto, n):
    """merge calls affect exactly the last command and the streams named; targets that are not allowed, and streams the server's protocol does not know, are refused and change nothing"""
    srv, pool = new(h, proto)
    ps = PowerShell(pool)
    ps.add_cmdlet("a").add_cmdlet("b")
    first, c = Cmd("a", False, None), Cmd("b", False, None)
    minor = int(proto[2:])
    val = {"none": 0, "output": 1, "null": 8}
    for _ in range(n):
        m = h.pick("merge", MERGES)
        if m == "previous":
            on = h.bool("on") and True
            h.check(ps.merge_previous(on) is ps, "the calls cannot be chained")
            c.prev = 3 if on else 0
            continue
        if m == "reset":
            h.check(ps.merge_reset() is ps, "the calls cannot be chained")
            c.my = c.to = c.prev = c.error = c.warning = c.verbose = c.debug = c.information = 0
            continue
        to = h.pick("to", ["none", "output", "null", "other"])
        need = {"error": 0, "all": 0, "information": 3}.get(m, 2)
        legal = to in (["none", "output"] if m in ("error", "all") else ["none", "output", "null"]) and minor >= need
        try:
            h.check(getattr(ps, "merge_" + m)(to) is ps, "the calls cannot be chained")
            h.check(legal, "an impossible merge is accepted")
        except InvalidPSRPOperation:
            h.check(not legal, "a possible merge is refused")
            continue
        if m in ("error", "all"):
            c.error = c.to = val[to]
            c.my = 2 if to == "output" else 0
        if m == "all" and minor >= 2:
            c.warning = c.verbose = c.debug = val[to]
        if m == "all" and minor >= 3:
            c.information = val[to]
        if m not in ("error", "all"):
            setattr(c, m, val[to])
    ps.begin_invoke()
    check_pipeline(h, srv.pipeline(), [first, c], proto)
    h.reach("done")


@obligation("C10", quick=[{}], bounds="every combination of the invocation options; any history text; nested or not")
def options(h):
    """the options of the invocation are sent as given"""
    own = h.pick("apartment of the pool", [2, 0])
    srv, pool = new(h, apartment_state=own)
    ps = PowerShell(pool)
    if h.bool("nested"):
        ps.state = PSInvocationState.RUNNING
        ps = ps.create_nested_power_shell()
    ps.add_cmdlet("a")
    hist = h.text("history", 1, 1000) if h.bool("hist") else None
    ps.history_string = hist
    add = h.bool("add") and True
    red = h.bool("redirect") and True
    ap = h.pick("apartment", [None, 0, 1, 2])
    rs = h.pick("stream", [0, 15])
    inp = h.pick("input", [None, "list"])
    ps.begin_invoke([1] if inp else None, add_to_history=add, redirect_shell_error_to_out=red, apartment_state=ap, remote_stream_options=rs)
    n = srv.pipeline()
    boolean(h, n.msv("NoInput"), inp is None, "NoInput")
    boolean(h, n.msv("AddToHistory"), add, "AddToHistory")
    boolean(h, n.msv("IsNested"), ps.is_nested, "IsNested")
    a = n.msv("ApartmentState")
    h.check(a.types[0] == "System.Management.Automation.Runspaces.ApartmentState" and a.sets[0].text == str(own if ap is None else ap), "apartment state")
    r = n.msv("RemoteStreamOptions")
    h.check(r.types[0] == "System.Management.Automation.Runspaces.RemoteStreamOptions" and r.sets[0].text == str(rs), "stream options")
    hi = n.msv("HostInfo")
    for x in ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost"):
        boolean(h, hi.msv(x), True, x)
    p = n.msv("PowerShell")
    if hist is None:
        h.check(p.msv("History").tag == "Nil", "history")
    else:
        clixml.same_text(h, p.msv("History"), hist, "history")
    boolean(h, p.msv("RedirectShellErrorOutputPipe"), red, "redirect")
    check_pipeline(h, n, [Cmd("a", False, None)], "2.3", nested=ps.is_nested)
    h.reach("done")


@obligation("C10", bounds="the documented options by name, alone, in any pair and all; any number from 0 to 15")
def stream_options(h):
    """the remote stream options are sent as the number MS-PSRP gives them, with their names"""
    from pypsrp.complex_objects import RemoteStreamOptions

    names = [("ErrorRecord", "ERROR_RECORD"), ("WarningRecord", "WARNING_RECORD"), ("DebugRecord", "DEBUG_RECORD"), ("VerboseRecord", "VERBOSE_RECORD")]
    how = h.pick("how", ["number", "named", "all", "default"])
    srv, pool = new(h)
    ps = PowerShell(pool)
    ps.add_cmdlet("a")
    kw = {}
    if how == "number":
        v = h.int("v", 0, 15)
        flags = [(v & (1 << i)) != 0 for i in range(4)]
        kw = {"remote_stream_options": v}
    elif how == "named":
        a, b = h.count("a", 0, 3), h.count("b", 0, 3)
        flags = [i in (a, b) for i in range(4)]
        v = (1 << a) | (1 << b)
        kw = {"remote_stream_options": getattr(RemoteStreamOptions, "ADD_INVOCATION_INFO_TO_" + names[a][1]) | getattr(RemoteStreamOptions, "ADD_INVOCATION_INFO_TO_" + names[b][1])}
    else:
        v, flags = 15, [True] * 4
        kw = {"remote_stream_options": RemoteStreamOptions.ADD_INVOCATION_INFO} if how == "all" else {}
    ps.begin_invoke(**kw)
    r = srv.pipeline().msv("RemoteStreamOptions")
    h.check(r.types == ["System.Management.Automation.Runspaces.RemoteStreamOptions", "System.Enum", "System.ValueType", "System.Object"], "types")
    h.check(r.sets[0].tag == "I32" and r.sets[0].text == str(v), "the number")
    flags = [bool(f) for f in flags]
    want = "AddInvocationInfo" if all(flags) else ", ".join(["AddInvocationInfoTo" + n for (n, _), f in zip(names, flags) if f])
    h.check(r.to_string == want, "the names")
    h.reach(how)


@obligation("C10", quick=[{}], bounds="a pipeline without commands, in any protocol version")
def empty(h):
    """a pipeline without commands is refused before anything is sent"""
    srv, pool = new(h)
    ps = PowerShell(pool)
    if h.bool("cleared"):
        ps.add_cmdlet("a")
        h.check(ps.clear_commands() is ps, "the calls cannot be chained")
    n = len(srv.log)
    try:
        ps.begin_invoke()
    except InvalidPSRPOperation:
        h.check(len(srv.log) == n, "something was sent")
        h.reach("refused")
        return
    h.fail("accepted")


@obligation("C10", quick=[{}], bounds="a queue as the argument of a command or of one in a second statement")
def queue_argument(h):
    """a queue can be passed as an argument like any other value"""
    srv, pool = new(h)
    ps = PowerShell(pool)
    q = queue.Queue()
    q.put(h.int("i", 0, 9))
    ps.add_cmdlet("a")
    cmds = [Cmd("a", False, None)]
    if h.bool("second"):
        ps.add_statement().add_cmdlet("b")
        cmds[0].end = True
        cmds.append(Cmd("b", False, None))
    ps.add_argument(q)
    cmds[-1].args.append((None, q))
    h.reach("built")
    try:
        ps.begin_invoke()
    except TypeError:
        h.fail("a queue cannot be passed as an argument")
    check_pipeline(h, srv.pipeline(), cmds, "2.3")
    h.check(q.qsize() == 1, "the caller's queue is emptied")
    h.reach("done")
