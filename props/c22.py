"""C22: WinRS shells and processes."""
import base64
import xml.etree.ElementTree as ET

from props import lib, peer
from symx.api import obligation

from pypsrp.exceptions import WSManFaultError
from pypsrp.shell import CommandState, Process, SignalCode, WinRS
from pypsrp.wsman import OptionSet

RSP, WSMAN = peer.RSP, peer.WSMAN
CMD = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/cmd"
STATE = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/"


class Shells(peer.Peer):
    """A WinRS server."""

    def __init__(self, h):
        peer.Peer.__init__(self, h)
        self.shell_id = h.text("shell id", 1, 64)
        self.selectors = [("ShellId", self.shell_id)]
        self.uri = None
        self.fields = []
        self.queue = {}
        self.commands = 0
        self.open = 0
        self.refuse = {}

    def on_request(self, r):
        self.h.check(self.uri is None or r.uri == self.uri, "resource URI of %s" % r.kind)
        if r.kind != "Create":
            h = self.h
            h.check(len(r.selectors) == len(self.selectors), "selectors")
            for (a, b), (c, d) in zip(r.selectors, self.selectors):
                h.check(a == c and b == d, "%s is not directed at the shell" % r.kind)
        if self.refuse.get(r.kind):
            raise peer.Fault("5", "denied")

    def handle_Create(self, r):
        self.open += 1
        out = ET.Element(RSP + "Shell")
        ET.SubElement(out, RSP + "ShellId").text = self.shell_id
        for k, v in self.fields:
            ET.SubElement(out, RSP + k).text = v
        rc = ET.Element(peer.WST + "ResourceCreated")
        rp = ET.SubElement(rc, peer.WSA + "ReferenceParameters")
        st = ET.SubElement(rp, WSMAN + "SelectorSet")
        for k, v in self.selectors:
            ET.SubElement(st, WSMAN + "Selector", Name=k).text = v
        return [rc, out]

    def handle_Delete(self, r):
        self.open -= 1
        return None

    def handle_Command(self, r):
        self.commands += 1
        self.command = r
        out = ET.Element(RSP + "CommandResponse")
        ET.SubElement(out, RSP + "CommandId").text = "cmd-%d-" % self.commands + self.h.text("command id", 1, 36)
        self.ids = getattr(self, "ids", []) + [out[0].text]
        return out

    def handle_Send(self, r):
        return ET.Element(RSP + "SendResponse")

    def handle_Signal(self, r):
        return ET.Element(RSP + "SignalResponse")

    def handle_Receive(self, r):
        h = self.h
        d = r.resource.find(RSP + "DesiredStream")
        h.check(d.text == "stdout stderr", "streams asked for")
        cid = d.attrib.get("CommandId")
        for i, own in enumerate(self.ids):
            if own == cid:
                break
        else:
            h.fail("receives for another command")
        q = self.queue.get(i)
        if not q:
            h.fail("receives although the process has ended")
        x = q.pop(0)
        if x is None:
            raise peer.Fault(peer.TIMEDOUT, "timeout")
        if isinstance(x, peer.Fault):
            raise x
        rr = ET.Element(RSP + "ReceiveResponse")
        for name, data in x[0]:
            s = ET.SubElement(rr, RSP + "Stream", Name=name, CommandId=cid)
            if data is None:
                s.attrib["End"] = "true"
            else:
                s.text = base64.b64encode(data).decode("ascii")
        if x[1] is not None:
            s = ET.SubElement(rr, RSP + "CommandState", CommandId=cid, State=STATE + x[1])
            if x[2] is not None:
                ET.SubElement(s, RSP + "ExitCode").text = str(x[2])
        return rr


def child(h, e, name, want):
    els = [c for c in e if c.tag == RSP + name]
    if want is None:
        h.check(len(els) == 0, "%s is sent" % name)
    else:
        h.check(len(els) == 1, "%s: %d times" % (name, len(els)))
        h.check(els[0].text == want, name)


@obligation(
    "C22",
    quick=[{"n": 2, "some": False}, {"n": 1, "some": True}],
    thorough=[{"n": 5, "some": False}],
    bounds="every setting of a shell given or not, with any text, any number, n environment variables of any name and value; the server returning its own values and selectors; opened, closed and opened again",
)
def opening(h, n, some):
    """the shell is created exactly as configured, requests for it are directed at what the server created, and it is deleted once"""
    names = ["name", "working_directory", "id", "idle_time_out", "codepage", "env", "uri"]
    only = h.pick("only", [None] + names) if some else None
    but = h.pick("all but", [None] + names) if some and only is None else None
    pick = lambda name: name == only if only else name != but
    srv = Shells(h)
    kw = {}
    for k in ("name", "working_directory", "id"):
        if pick(k):
            kw[k] = lib.odd(h, k, 1, 255)
    for k in ("idle_time_out", "lifetime", "codepage"):
        if (pick(k) if k != "lifetime" else "idle_time_out" in kw):
            kw[k] = h.int(k, 0, 1 << 31)
    if pick("env"):
        kw["environment"] = {("v%d" % i) + h.text("variable", 0, 64) + " V": lib.odd(h, "variable value", 1, 4096) for i in range(n)}
    profile = h.pick("no_profile", [None, True, False])
    if profile is not None:
        kw["no_profile"] = profile
    if but != "name":
        kw["input_streams"], kw["output_streams"] = h.text("in", 1, 64), h.text("out", 1, 64)
    srv.uri = CMD
    if pick("uri"):
        srv.uri = kw["resource_uri"] = h.text("uri", 1, 200)
    owner = h.text("owner", 1, 64)
    srv.fields = [("ResourceUri", srv.uri), ("Owner", owner), ("ClientIP", "10.0.0.1"), ("ShellRunTime", "P0DT0H0M2S"), ("ShellInactivity", "P0DT0H0M1S")]
    if "idle_time_out" in kw:
        srv.fields.append(("IdleTimeOut", "PT%d.000S" % kw["idle_time_out"]))
    srv.selectors = [("ShellId", srv.shell_id), ("Other", lib.odd(h, "selector", 1, 20))]
    ws = peer.connect(srv)
    sh = WinRS(ws, **kw)
    for turn in range(2):
        sh.open()
        sh.open()
        h.check(srv.kinds().count("Create") == turn + 1, "the shell is created again")
        r = srv.log[-1]
        e = r.resource
        h.check(e.tag == RSP + "Shell", "content")
        if turn == 0:
            h.check(e.attrib.get("ShellId") == kw.get("id"), "id")
        child(h, e, "InputStreams", kw.get("input_streams", "stdin"))
        child(h, e, "OutputStreams", kw.get("output_streams", "stdout stderr"))
        for k, name in (("name", "Name"), ("working_directory", "WorkingDirectory")):
            child(h, e, name, kw.get(k))
        child(h, e, "Lifetime", "PT%dS" % kw["lifetime"] if "lifetime" in kw else None)
        if "idle_time_out" in kw:
            v = [c.text for c in e if c.tag == RSP + "IdleTimeOut"]
            h.check(len(v) == 1, "idle timeout")
            h.check(v[0] == "PT%dS" % kw["idle_time_out"] or v[0] == "PT%d.000S" % kw["idle_time_out"], "idle timeout")
        else:
            child(h, e, "IdleTimeOut", None)
        envs = [c for c in e if c.tag == RSP + "Environment"]
        h.check(len(envs) == (1 if "environment" in kw else 0), "environment")
        if envs:
            got = [(c.attrib["Name"], c.text) for c in envs[0]]
            h.check(len(got) == n, "variables")
            for (a, b), (c, d) in zip(got, kw["environment"].items()):
                h.check(a == c and b == d, "variable")
        opts = {a: (b, c) for a, b, c in r.options}
        h.check(len(opts) == (1 if profile else 0) + (1 if "codepage" in kw else 0), "options")
        if profile:
            h.check(opts["WINRS_NOPROFILE"][0] == "TRUE", "profile")
        if "codepage" in kw:
            h.check(opts["WINRS_CODEPAGE"][0] == str(kw["codepage"]), "code page")
        h.check(sh.id == srv.shell_id and sh.owner == owner, "what the server told")
        Process(sh, "a").begin_invoke()
        sh.close()
        sh.close()
        h.check(srv.kinds().count("Delete") == turn + 1, "deleted")
    h.reach("done")


@obligation("C22", quick={"k": 2}, thorough={"k": 4}, bounds="an option set of up to k options of any names and values, with attributes or not, given to open two shells or one twice; no profile and code page of each given or not")
def given_options(h, k):
    """the options given are sent with those of the shell, and are still what they were to be given again"""
    srv = Shells(h)
    ws = peer.connect(srv)
    given = OptionSet()
    want = []
    for i in range(h.count("options", 1, k)):
        n, v = h.text("option", 1, 100), h.text("value", 1, 100)
        if h.bool("must comply"):
            given.add_option(n, v, {"MustComply": "true"})
            want.append((n, v, {"MustComply": "true"}))
        else:
            given.add_option(n, v)
            want.append((n, v, {}))
    sh = None
    for turn in range(2):
        if sh is None or h.bool("another shell"):
            kw = {}
            if h.bool("no profile"):
                kw["no_profile"] = True
            if h.bool("code page"):
                kw["codepage"] = h.int("page", 0, 1 << 31)
            sh = WinRS(ws, **kw)
        sh.open(base_options=given)
        got = list(srv.log[-1].options)
        own = ([("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"})] if "no_profile" in kw else []) + ([("WINRS_CODEPAGE", str(kw["codepage"]), {})] if "codepage" in kw else [])
        h.check(len(got) == len(want) + len(own), "number of options")
        for (a, b, c), (d, e, f) in zip(got, want + own):
            h.check(a == d and b == e and {x: y for x, y in c.items() if x != "Name"} == f, "an option")
        h.check(len(given.values) == len(want) and h.all(*[a == d and b == e for (a, b, _), (d, e, _) in zip(given.values, want)]), "the options given are changed")
        sh.close()
    h.reach("done")


@obligation("C22", bounds="any executable, up to three arguments of any text (or none given), with or without the cmd shell; any input of any size, last or not; any signal; a second process in the same shell")
def requests(h):
    """a process is started with exactly its command and arguments, and input and signals go to it as they are"""
    srv = Shells(h)
    with WinRS(peer.connect(srv)) as sh:
        other = Process(sh, "other")
        other.begin_invoke()
        exe = lib.odd(h, "exe", 1, 8192)
        n = h.count("args", 0, 3)
        args = [lib.odd(h, "arg", 0, 8192) if i else h.text("arg", 0, 8192) for i in range(n)]
        if n == 0 and h.pick("none", [False, True]):
            args = None
        no_shell = h.pick("no_shell", [False, True])
        p = Process(sh, exe, args, no_shell=no_shell)
        p.begin_invoke()
        r = srv.log[-1]
        h.check(r.kind == "Command" and r.resource.tag == RSP + "CommandLine", "command line")
        kids = list(r.resource)
        h.check(kids[0].tag == RSP + "Command" and kids[0].text == exe, "executable")
        h.check(len(kids) == 1 + n and h.all(*[k.tag == RSP + "Arguments" and (k.text or "") == a for k, a in zip(kids[1:], args or [])]), "arguments")
        h.check([(a, b) for a, b, _ in r.options] == [("WINRS_SKIP_CMD_SHELL", str(no_shell))], "options")
        target, k = (p, 1) if h.pick("which", [True, False]) else (other, 0)
        h.check(target.id == srv.ids[k], "id")
        data = h.blob("data", 0, 1 << 16)
        end = h.pick("end", [True, False])
        target.send(data, end=end)
        r = srv.log[-1]
        st = list(r.resource)
        h.check(r.kind == "Send" and len(st) == 1 and st[0].tag == RSP + "Stream", "input")
        h.check(st[0].attrib["Name"] == "stdin" and st[0].attrib["CommandId"] == srv.ids[k], "where the input goes")
        h.check(st[0].attrib.get("End", "false").lower() == ("true" if end else "false"), "end of input")
        h.check(base64.b64decode(st[0].text or "") == data, "input data")
        code = h.pick("signal", [SignalCode.CTRL_C, SignalCode.CTRL_BREAK, SignalCode.TERMINATE, "own"])
        target.signal(code)
        r = srv.log[-1]
        h.check(r.kind == "Signal" and r.resource.attrib["CommandId"] == srv.ids[k], "signal's target")
        h.check([c.text for c in r.resource] == [code], "signal")
    h.check(srv.open == 0, "the shell is left open")
    h.reach("done")


def result(h, last):
    """One answer to a receive: streams in some order, state, exit code."""
    data = []
    for name, full in h.pick("streams", [[], [("stderr", True)], [("stdout", True), ("stderr", True)], [("stderr", False), ("stdout", True)], [("stdout", True), ("stdout", True)], [("stderr", True), ("stderr", True)]]):
        data.append((name, h.blob("data", 1, 1 << 16) if full else None))
    if last:
        return data, "Done", h.int("rc", -(2**31), 2**32 - 1)
    return data, h.pick("state", ["Running", None]), None


@obligation(
    "C22",
    quick=[{"n": 2, "quiet": 1}],
    thorough=[{"n": 2, "quiet": 3}, {"n": 3, "quiet": 0}],
    bounds="a process answering with up to n results before its last, each with up to two pieces of any size for either stream, pauses longer than the operation timeout in between, any exit code",
)
def output(h, n, quiet):
    """invoke returns when the process has ended, with all its output in order and apart, and its exit code"""
    srv = Shells(h)
    sh = WinRS(peer.connect(srv))
    sh.open()
    p = Process(sh, "exe")
    q = srv.queue[0] = []
    out = {"stdout": b"", "stderr": b""}
    k = h.count("results", 0, n)
    for i in range(k + 1):
        if i < quiet and h.pick("quiet", [False, True]):
            q.append(None)
        x = result(h, i == k)
        q.append(x)
        for name, d in x[0]:
            if d is not None:
                out[name] = out[name] + d
    rc = q[-1][2]
    p.invoke()
    h.check(len(q) == 0, "returns before the process has ended")
    h.check(p.state == CommandState.DONE and p.rc == rc and type(p.rc) is type(rc), "exit code")
    h.check(p.stdout == out["stdout"], "standard output")
    h.check(p.stderr == out["stderr"], "standard error")
    h.reach("%d" % k)


@obligation("C22", bounds="two processes polled alternately, each with up to two results; polling with any timeout; one poll refused with another fault")
def polling(h):
    """polling takes one result, of its own process, within the time given; an operation timeout changes nothing, any other fault reaches the caller and changes nothing"""
    srv = Shells(h)
    to = h.int("operation timeout", 1, 3600)
    sh = WinRS(peer.connect(srv, operation_timeout=to))
    sh.open()
    ps = [Process(sh, "a"), Process(sh, "b")]
    want = []
    for i, p in enumerate(ps):
        p.begin_invoke()
        want.append([b"", b"", CommandState.PENDING, None])
    for step in range(3):
        i = h.pick("which", [0, 1]) if step else 0
        if want[i][2] == CommandState.DONE:
            continue
        what = h.pick("what", ["data", "quiet", "fault", "done"])
        x = {"quiet": None, "fault": peer.Fault("5", "denied")}.get(what)
        if what in ("data", "done"):
            a, b = h.blob("out", 1, 4096), h.blob("err", 1, 4096)
            rc = h.int("rc", -(2**31), 2**32 - 1) if what == "done" else None
            x = ([("stdout", a), ("stderr", b)], "Done" if what == "done" else "Running", rc)
            w = want[i]
            want[i] = [w[0] + a, w[1] + b, CommandState.DONE if what == "done" else CommandState.RUNNING, rc]
        srv.queue[i] = [x]
        t = h.pick("own timeout", [False, True]) if step == 2 else step == 1
        t = h.int("timeout", 1, 3600) if t else None
        try:
            ps[i].poll_invoke(timeout=t) if t is not None else ps[i].poll_invoke()
        except WSManFaultError as e:
            h.check(what == "fault" and e.code == 5, "a fault is made up")
        else:
            h.check(what != "fault", "a fault is lost")
        h.check(srv.log[-1].timeout == "PT%dS" % (t if t is not None else to), "operation timeout")
        for p, w in zip(ps, want):
            h.check(p.stdout == w[0] and p.stderr == w[1], "output after %s" % what)
            h.check(p.state == w[2] and p.rc == w[3], "state after %s" % what)
        h.reach(what)


@obligation("C22", bounds="refused creation or deletion of a shell; an exception in the with block")
def refused(h):
    """a shell that could not be created can be opened again and is not deleted; leaving a with block deletes it once, whatever happened"""
    srv = Shells(h)
    sh = WinRS(peer.connect(srv))
    what = h.pick("what", ["create", "body", "delete"])
    if what == "create":
        srv.refuse["Create"] = 1
        try:
            with sh:
                h.fail("the body runs without a shell")
        except WSManFaultError:
            pass
        sh.close()
        h.check(srv.kinds() == ["Create"], "requests")
        srv.refuse.clear()
        sh.open()
        h.check(srv.kinds() == ["Create", "Create"] and sh.opened, "cannot be opened")
    elif what == "body":
        own = h.pick("exception", [KeyError("own"), KeyboardInterrupt()])
        try:
            with sh:
                raise own
        except (KeyError, KeyboardInterrupt):
            h.check(srv.kinds() == ["Create", "Delete"] and not sh.opened, "the shell is left open")
        else:
            h.fail("the error is lost")
    else:
        sh.open()
        srv.refuse["Delete"] = 1
        try:
            sh.close()
        except WSManFaultError:
            pass
        else:
            h.fail("the refusal is lost")
        srv.refuse.clear()
        sh.close()
        h.check(srv.open == 0, "cannot be closed")
    h.reach(what)
