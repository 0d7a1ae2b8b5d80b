"""C25: running commands and scripts through the client."""
import xml.etree.ElementTree as ET

from props import clixml, lib, peer, records
from props.c05 import ref_encode, strings
from props.c10 import Cmd, check_pipeline
from props.c22 import RSP, Shells
from props.c23 import FileSrv, check_uri, client, configuration
from symx.api import obligation

from pypsrp.client import Client
from pypsrp.exceptions import WSManFaultError
from pypsrp.shell import SignalCode

CODES = [None, "437", "utf-8", "cp1252", "utf-16-le", "ascii", "cp850"]


@obligation(
    "C25",
    quick=[{"n": 2, "m": 1}],
    thorough=[{"n": 4, "m": 1}, {"n": 2, "m": 3}],
    bounds="any command; the output n bytes of any value, in one to m + 1 pieces cut anywhere, in seven encodings; the error output n bytes; any exit code; a pause in between",
)
def cmd(h, n, m):
    """the output is the whole of what the process wrote, decoded as one text in the encoding asked for; the exit code is the process's; the shell is closed and the process told to end in any case"""
    srv = Shells(h)
    c = client(h, srv)
    command = lib.odd(h, "command", 1, 8000)
    enc = h.pick("encoding", CODES)
    kw = {} if enc is None else {"encoding": enc}
    out, err = h.bytes("out", n), h.bytes("err", n if n < 3 else 1)
    pieces = []
    cuts = [0] + sorted([h.count("cut", 0, n) for _ in range(m)]) + [n]
    for a, b in zip(cuts, cuts[1:]):
        pieces.append(([("stdout", out[a:b])], "Running", None))
    pieces[0][0].append(("stderr", err[:1]))
    rc = h.int("rc", -(2**31), 2**32 - 1)
    if m == 1 and h.bool("pause"):
        pieces.append(None)
    pieces.append(([("stderr", err[1:])], "Done", rc))
    srv.queue[0] = pieces
    codec = enc or "437"
    want = []
    for b in (out, err):
        try:
            want.append(b.decode(codec))
        except UnicodeDecodeError:
            want.append(None)
    try:
        got = c.execute_cmd(command, **kw)
    except UnicodeDecodeError:
        h.check(want[0] is None or want[1] is None, "text that can be decoded is refused")
        got = None
    h.check(srv.open == 0 and srv.kinds().count("Delete") == 1, "the shell is left open")
    h.check(len(pieces) == 0, "output was not asked for")
    r = [r for r in srv.log if r.kind == "Command"]
    h.check(len(r) == 1 and r[0].resource.find(RSP + "Command").text == command, "command")
    h.check(r[0].resource.find(RSP + "Arguments") is None, "arguments")
    s = [r for r in srv.log if r.kind == "Signal"]
    h.check(len(s) == 1 and s[0].resource.find(RSP + "Code").text in (SignalCode.CTRL_C, SignalCode.TERMINATE), "the process is not told to end")
    if got is None:
        h.reach("not text")
        return
    h.check(want[0] is not None and want[1] is not None, "text that cannot be decoded is made up")
    h.check(len(got) == 3 and got[0] == want[0], "standard output")
    h.check(got[1] == want[1], "standard error")
    h.check(got[2] == rc, "exit code")
    h.reach("done")


@obligation("C25", quick={"n": 2}, thorough={"n": 4}, bounds="up to n environment variables of any name and value; the process ending without exit code; the command, a receive or the signal refused")
def cmd_shell(h, n):
    """the environment is set for the shell; without exit code it is -1; a fault reaches the caller and the shell is closed"""
    srv = Shells(h)
    c = client(h, srv)
    env = None
    if h.bool("environment"):
        env = {}
        for i in range(h.count("n", 1, n)):
            env["v%d" % i + h.text("name", 1, 100) + " V"] = lib.odd(h, "value", 0, 1000)
    what = h.pick("refused", [None, "Command", "Receive", "Signal"])
    if what:
        srv.refuse[what] = 1
    rc = h.pick("rc", [0, 1, None])
    srv.queue[0] = [([("stdout", b"x")], "Done", rc)]
    try:
        out, err, code = c.execute_cmd("c", environment=env)
    except WSManFaultError as e:
        h.check(what is not None and e.code == 5, "a fault is made up")
        h.check(srv.open == 0, "the shell is left open")
        h.reach("refused")
        return
    h.check(what is None, "a fault is lost")
    h.check(out == "x" and err == "" and code == (-1 if rc is None else rc) and type(code) is int, "result")
    create = [r for r in srv.log if r.kind == "Create"][0]
    e = create.resource.find(RSP + "Environment")
    got = [] if e is None else [(v.attrib["Name"], v.text or "") for v in e]
    h.check(len(got) == len(env or {}), "number of variables")
    for (a, b), (x, y) in zip(got, (env or {}).items()):
        h.check(a == x and b == y, "variable")
    h.check(srv.open == 0, "the shell is left open")
    h.reach("done")


@obligation(
    "C25",
    quick=[{"n": 2, "lines": 2, "rec": False}, {"n": 0, "lines": 1, "rec": True}],
    thorough=[{"n": 2, "lines": 3, "rec": True}, {"n": 5, "lines": 8, "rec": False}],
    bounds="any script; up to n environment variables of any name and value; up to `lines` lines of output of any text; records of any text; completed or failed",
)
def ps(h, n, lines, rec):
    """the script is run as it is, with the environment set before, once; the output is its lines, the streams and errors are the server's; the pool is closed"""
    srv = FileSrv(h)
    c = client(h, srv)
    script = lib.odd(h, "script", 1, 1 << 16)
    env = None
    if h.bool("environment"):
        env = {}
        for i in range(h.count("n", 0, n)):
            env["v%d" % i + h.text("name", 1, 100) + " V"] = lib.odd(h, "value", 0, 1000)
    cmds = []
    for a, b in (env or {}).items():
        x = Cmd("New-Item", False, None)
        x.args = [("Path", "env:"), ("Name", a), ("Value", b), ("Force", True)]
        cmds.append(x)
        x = Cmd("Out-Null", False, None)
        x.end = True
        cmds.append(x)
    x = Cmd("Invoke-Expression", False, None)
    x.args = [("Command", script)]
    cmds.append(x)
    x = Cmd("Out-String", False, None)
    x.args = [("Stream", None)]
    cmds.append(x)
    want = []
    for i in range(h.count("lines", 0, lines)):
        t = h.text("line", 0, 4096)
        want.append(t)
        srv.answer.append((records.OUTPUT, peer.output(t)))
    rec = h.pick("record", [None] + sorted(records.STREAMS) if rec else [None])
    t = h.text("record text", 1, 4096)
    if rec:
        srv.answer.append((records.STREAMS[rec][0], records.STREAMS[rec][1](t)))
    failed = h.bool("failed")
    srv.answer.append((records.STATE, records.pipe_state(5, t) if failed else records.pipe_state(4)))
    conf = configuration(h, not cmds[2:])
    out, streams, errors = c.execute_ps(script, environment=env, **conf)
    check_uri(h, srv, conf)
    check_pipeline(h, srv.pipeline(), cmds, "2.3")
    h.check(len(srv.created) == 1, "run more than once")
    h.check(out == "\n".join(want), "output")
    h.check(errors is True if failed else errors is False, "errors")
    for k in records.STREAMS:
        got = [records.STREAMS[k][2](r) for r in getattr(streams, k)]
        w = [t] if k == rec else []
        if k == "error" and failed:
            w = w + [t]
        h.check(len(got) == len(w) and all([a == b for a, b in zip(got, w)]), "stream %s" % k)
    h.check(srv.deleted == 1, "the pool is left open")
    h.reach("failed" if failed else "done")


@obligation(
    "C25",
    quick=[{"shape": s} for s in ("?", "??", "?|?", "_|x000D_")],
    thorough=[{"shape": s} for s in ("????", "?|?|?", "??|??", "_x00|??_", "?x00?A_")],
    bounds="error lines of the given shapes (| between lines), each ? any character; other streams and progress objects between them; as text or bytes; text that is no CLIXML of up to 64 KiB",
)
def sanitise(h, shape):
    """the errors in CLIXML output become the text the server wrote, in order; other text is left alone"""
    kind = h.pick("kind", ["clixml", "none", "plain"] if shape == "?" else ["clixml"])
    asbytes = h.pick("bytes", [False, True] if shape == "?" else [False])
    if kind == "plain":
        t = h.pick("start", ["", "#< CLIXM", "error: "]) + h.text("text", 0, 1 << 16)
        h.check(Client.sanitise_clixml(t.encode("utf-8") if asbytes else t) == t, "text is changed")
        h.reach("plain")
        return
    root = ET.Element("Objs", {"Version": "1.1.0.1", "xmlns": "http://schemas.microsoft.com/powershell/2004/04"})
    o = ET.SubElement(root, "Obj", S="progress", RefId="0")
    ET.SubElement(ET.SubElement(o, "MS"), "S", N="Error").text = "no error"
    ET.SubElement(root, "S", S="verbose").text = "verbose"
    want = ""
    if kind == "clixml":
        for i, s in enumerate(shape.split("|")):
            line = strings(h, s)
            for c in line:
                h.assume(h.no(h.all(ord(c) >= 0xFFFE, ord(c) <= 0xFFFF)))
            ET.SubElement(root, "S", S="Error").text = ref_encode(h, line)
            if i == 0:
                ET.SubElement(root, "S", S="warning").text = "warning_x000A_"
            want = want + line
    text = "#< CLIXML" + h.pick("gap", ["\r\n", "\n"] if shape == "?" else ["\r\n"]) + ET.tostring(root, encoding="unicode")
    got = Client.sanitise_clixml(text.encode("utf-8") if asbytes else text)
    h.check(got == want, "error text")
    h.reach(kind)
