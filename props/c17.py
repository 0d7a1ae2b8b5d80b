"""C17: host calls."""
import uuid
import xml.etree.ElementTree as ET

from props import clixml, lib, peer, records
from symx.api import obligation

from pypsrp.complex_objects import Color, Coordinates, CultureInfo, Size
from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface
from pypsrp.powershell import PowerShell

POOL_CALL, POOL_RESPONSE, PIPE_CALL, PIPE_RESPONSE = 0x00021100, 0x00021101, 0x00041100, 0x00041101

# [MS-PSRP] 2.2.3.17: number, name, owner, number of parameters
METHODS = [
    (1, "GetName", "host", 0), (2, "GetVersion", "host", 0), (3, "GetInstanceId", "host", 0), (4, "GetCurrentCulture", "host", 0), (5, "GetCurrentUICulture", "host", 0),
    (6, "SetShouldExit", "host", 1), (7, "EnterNestedPrompt", "host", 0), (8, "ExitNestedPrompt", "host", 0), (9, "NotifyBeginApplication", "host", 0), (10, "NotifyEndApplication", "host", 0),
    (11, "ReadLine", "ui", 0), (12, "ReadLineAsSecureString", "ui", 0), (13, "Write1", "ui", 1), (14, "Write2", "ui", 3), (15, "WriteLine1", "ui", 0), (16, "WriteLine2", "ui", 1), (17, "WriteLine3", "ui", 3),
    (18, "WriteErrorLine", "ui", 1), (19, "WriteDebugLine", "ui", 1), (20, "WriteProgress", "ui", 2), (21, "WriteVerboseLine", "ui", 1), (22, "WriteWarningLine", "ui", 1), (23, "Prompt", "ui", 3),
    (24, "PromptForCredential1", "ui", 4), (25, "PromptForCredential2", "ui", 6), (26, "PromptForChoice", "ui", 4),
    (27, "GetForegroundColor", "raw", 0), (28, "SetForegroundColor", "raw", 1), (29, "GetBackgroundColor", "raw", 0), (30, "SetBackgroundColor", "raw", 1), (31, "GetCursorPosition", "raw", 0),
    (32, "SetCursorPosition", "raw", 1), (33, "GetWindowPosition", "raw", 0), (34, "SetWindowPosition", "raw", 1), (35, "GetCursorSize", "raw", 0), (36, "SetCursorSize", "raw", 1), (37, "GetBufferSize", "raw", 0),
    (38, "SetBufferSize", "raw", 1), (39, "GetWindowSize", "raw", 0), (40, "SetWindowSize", "raw", 1), (41, "GetWindowTitle", "raw", 0), (42, "SetWindowTitle", "raw", 1), (43, "GetMaxWindowSize", "raw", 0),
    (44, "GetMaxPhysicalWindowSize", "raw", 0), (45, "GetKeyAvailable", "raw", 0), (46, "ReadKey", "raw", 1), (47, "FlushInputBuffer", "raw", 0), (48, "SetBufferContents1", "raw", 2), (49, "SetBufferContents2", "raw", 2),
    (50, "GetBufferContents", "raw", 1), (51, "ScrollBufferContents", "raw", 4),
]  # fmt: skip
NUMBER = {m[1]: m[0] for m in METHODS}
NAME = {m[0]: m[1] for m in METHODS}


def call(ci, mi, args):
    m = records.typed(["System.Management.Automation.Remoting.RemoteHostMethodId", "System.Enum", "System.ValueType", "System.Object"], peer.ET.Element("Obj", N="mi", RefId="1"))
    peer.ET.SubElement(m, "ToString").text = NAME.get(mi, "Other") if isinstance(mi, int) else "Other"
    m.append(peer.el("I32", None, str(mi)))
    p = records.typed(["System.Collections.ArrayList", "System.Object"], peer.ET.Element("Obj", N="mp", RefId="2"))
    p.find("TN").attrib["RefId"] = "1"
    l = peer.ET.SubElement(p, "LST")
    for a in args:
        l.append(a)
    return peer.xb(peer.obj(0, [peer.el("I64", "ci", str(ci)), m, p]))


class Srv(peer.Server):
    def __init__(self, h):
        peer.Server.__init__(self, h)
        self.responses = []

    def on_send(self, name, cid, data):
        h = self.h
        if name != "pr":
            return
        for _, m in lib.reassemble(h, lib.parse_fragments(h, data)):
            t = int.from_bytes(bytes(m[4:8]), "little")
            h.check(t in (POOL_RESPONSE, PIPE_RESPONSE), "a message of type %x is sent on the host response stream" % t)
            self.responses.append((t, m[24:40], clixml.read(h, ET.fromstring(m[40:]))))


def response(h, r, number, pid, ci, mi):
    """One response to the given call; returns the result node."""
    t, p, n = r
    h.check(t == number, "type of the response")
    h.check(p == uuid.UUID(pid or lib.NIL).bytes_le, "pipeline of the response")
    h.check(n.msv("ci").tag == "I64" and n.msv("ci").text == str(ci), "call id of the response")
    m = n.msv("mi")
    h.check(m.tag == "Obj" and len(m.sets) == 1 and m.sets[0].text == str(mi), "method of the response")
    h.check(n.msv("me") is None, "an error is returned")
    return n.msv("mr")


def make_host(h, rec):
    raw = PSHostRawUserInterface("t", 1, None, None, None, None, None, None, None, None)
    ui = PSHostUserInterface(raw)
    host = PSHost(None, None, False, "n", None, ui, "1.0")
    for _, name, owner, _ in METHODS:
        setattr({"host": host, "ui": ui, "raw": raw}[owner], name, (lambda o, n: lambda *a: rec(o, n, a))(owner, name))
    return host


def open_pool(h, srv, host):
    """The pool is opened without the host: its values are not all serialisable."""
    ws, pool = peer.open_pool(h, srv)
    pool.host = host
    return pool


def begin(ps):
    host, ps.runspace_pool.host = ps.runspace_pool.host, None
    ps.begin_invoke()
    ps.runspace_pool.host = host


def results(h):
    """(Python value, check of its wire form)"""
    k = h.pick("result", ["none", "text", "int", "false", "zero", "empty", "object"])
    if k == "none":
        return None, None
    if k == "text":
        t = lib.odd(h, "r", 1, 4096)
        return t, lambda n: h.check(n.tag == "S" and n.text == t, "text result")
    if k == "int":
        i = h.int("r", -(2**31), 2**31 - 1)
        return i, lambda n: h.check(n.tag == "I32" and n.text == str(i), "integer result")
    if k == "false":
        return False, lambda n: h.check(n.tag == "B" and n.text == "false", "false")
    if k == "zero":
        return 0, lambda n: h.check(n.tag == "I32" and n.text == "0", "zero")
    if k == "empty":
        return "", lambda n: h.check(n.tag == "S" and not n.text, "empty text")
    x, y = h.int("x", 0, 32767), h.int("y", 0, 32767)

    def chk(n):
        h.check(n.prop("X").text == str(x) and n.prop("Y").text == str(y), "coordinates")

    return Coordinates(x=x, y=y), chk


GROUPS = 8


@obligation(
    "C17",
    quick=[{"g": g, "full": 0} for g in range(GROUPS)],
    thorough=[{"g": g, "full": 1} for g in range(GROUPS)],
    bounds="every host method, for the pool or a pipeline, any call id, every argument any text (first) or 32 bit integer, every kind of result; the call before, between or after output",
)
def dispatch(h, g, full):
    """a host call reaches exactly the method it names, once, with its arguments in order and the pool and pipeline it belongs to; a result is sent back once with the id of the call, no result sends nothing"""
    srv = Srv(h)
    calls = []
    value, chk = results(h) if full or g == 0 else (None, None) if h.bool("no result") else (7, lambda n: h.check(n.tag == "I32" and n.text == "7", "result"))

    def rec(owner, name, args):
        calls.append((owner, name, args))
        return value

    pool = open_pool(h, srv, make_host(h, rec))
    mi, name, owner, n = h.pick("method", [m for m in METHODS if m[0] % GROUPS == g])
    ci = h.int("ci", 0, 2**63 - 1)
    args, els = [], []
    for i in range(n):
        if i == 0:
            v = lib.odd(h, "arg", 1, 4096)
            els.append(peer.el("S", None, v))
        else:
            v = h.int("arg", -(2**31), 2**31 - 1)
            els.append(peer.el("I32", None, str(v)))
        args.append(v)
    ps = None
    data = call(ci, mi, els)
    if h.bool("pipeline"):
        ps = PowerShell(pool).add_script("s")
        begin(ps)
        f = lambda t, d: srv.frag(t, d, ps.id)
        q = [f(records.OUTPUT, peer.output("a")), f(PIPE_CALL, data), f(records.OUTPUT, peer.output("b")), f(records.STATE, records.pipe_state(4))]
        srv.pipe_queue = q if h.bool("apart") else [q[0] + q[1] + q[2] + q[3]]
        out = ps.end_invoke()
        h.check(out == ["a", "b"], "output")
    else:
        srv.queue.append(srv.frag(POOL_CALL, data))
        pool._receive()
    h.check(len(calls) == 1, "%s: %d methods are called" % (name, len(calls)))
    h.check(calls[0][:2] == (owner, name), "method %d calls %s of %s" % (mi, calls[0][1], calls[0][0]))
    a = calls[0][2]
    h.check(a[0] is pool and a[1] is ps, "pool and pipeline")
    h.check(len(a) == n + 2 and all([x == y for x, y in zip(a[2:], args)]), "arguments")
    if chk is None:
        h.check(len(srv.responses) == 0, "a response without a result")
        h.reach("no result")
    else:
        h.check(len(srv.responses) == 1, "%d responses" % len(srv.responses))
        chk(response(h, srv.responses[0], PIPE_RESPONSE if ps else POOL_RESPONSE, ps and ps.id, ci, mi))
        h.reach("result")


@obligation("C17", quick=[{"n": 2}], thorough=[{"n": 4}], bounds="n calls in one payload or apart, each with its own id and result, for one pipeline or the pool")
def several(h, n):
    """each call gets its own result back, in the order of the calls"""
    srv = Srv(h)
    todo, done = [], []

    def rec(owner, name, args):
        done.append(name)
        return todo[len(done) - 1][2]

    pool = open_pool(h, srv, make_host(h, rec))
    ps = PowerShell(pool).add_script("s")
    begin(ps)
    parts = []
    for i in range(n):
        mi = h.pick("method", [1, 11, 41])
        ci = h.int("ci", 0, 2**63 - 1)
        r = lib.odd(h, "r", 1, 100)
        on_pool = h.bool("pool")
        todo.append((mi, ci, r, on_pool))
        parts.append(srv.frag(POOL_CALL if on_pool else PIPE_CALL, call(ci, mi, []), None if on_pool else ps.id))
    parts.append(srv.frag(records.STATE, records.pipe_state(4), ps.id))
    q = [parts[0]]
    for p in parts[1:]:
        if h.bool("join"):
            q[-1] = q[-1] + p
        else:
            q.append(p)
    srv.pipe_queue = q
    ps.end_invoke()
    h.check(done == [NAME[t[0]] for t in todo], "methods called")
    h.check(len(srv.responses) == n, "number of responses")
    for r, (mi, ci, v, on_pool) in zip(srv.responses, todo):
        x = response(h, r, POOL_RESPONSE if on_pool else PIPE_RESPONSE, None if on_pool else ps.id, ci, mi)
        h.check(x.tag == "S" and x.text == v, "result")
    h.reach("done")


@obligation("C17", bounds="any method number from 52 to 2^31-1 with a host, any method of the table without one; for a pipeline")
def unsupported(h):
    """a call that cannot be made calls nothing, is not answered and does not disturb the pipeline"""
    srv = Srv(h)
    calls = []
    host = h.bool("host")
    pool = open_pool(h, srv, make_host(h, lambda *a: calls.append(a)) if host else None)
    mi = h.int("mi", 52, 2**31 - 1) if host else h.pick("m", [1, 11, 23, 27, 51, 52])
    ps = PowerShell(pool).add_script("s")
    begin(ps)
    srv.pipe_queue = [srv.frag(PIPE_CALL, call(1, mi, []), ps.id) + srv.frag(records.OUTPUT, peer.output("a"), ps.id) + srv.frag(records.STATE, records.pipe_state(4), ps.id)]
    h.check(ps.end_invoke() == ["a"] and ps.state == 4, "the pipeline is disturbed")
    h.check(not calls and not srv.responses, "something was called or answered")
    h.reach("done")


def xy(name_a, a, name_b, b):
    return peer.obj(5, [peer.el("I32", name_a, str(a)), peer.el("I32", name_b, str(b))])


def real_host(h, v):
    raw = PSHostRawUserInterface(v["title"], v["cursor"], Color(value=1), Color(value=2), Coordinates(x=v["a"], y=v["b"]), Coordinates(x=v["b"], y=v["a"]), Size(width=v["a"], height=v["b"]), Size(width=8, height=9), Size(width=6, height=7), Size(width=v["b"], height=v["a"]))
    return PSHost(None, None, False, v["title"], None, PSHostUserInterface(raw), "1.0")


def colour(h, n, i):
    h.check(n.types and n.types[0] == "System.ConsoleColor" and n.sets[0].text == str(i), "colour")


@obligation("C17", quick=[{"what": w} for w in ("color", "position", "size", "title", "cursor")], bounds="every setter of the raw user interface with any value, then its getter, through the server; every other getter keeps its value")
def raw_ui(h, what):
    """what the server sets on the host's raw user interface is what it gets back"""
    srv = Srv(h)
    v = {"title": lib.odd(h, "title", 1, 100), "cursor": h.int("cursor", 0, 100), "a": h.int("a", 0, 32767), "b": h.int("b", 0, 32767)}
    host = real_host(h, v)
    pool = open_pool(h, srv, host)

    def do(name, *args):
        k = len(srv.responses)
        srv.queue.append(srv.frag(POOL_CALL, call(5, NUMBER[name], args)))
        pool._receive()
        if len(srv.responses) == k:
            return None
        return response(h, srv.responses[-1], POOL_RESPONSE, None, 5, NUMBER[name])

    def pair(n, x, y):
        return n.prop(x).text, n.prop(y).text

    i, j = h.int("i", 0, 32767), h.int("j", 0, 32767)
    fg, bg = 1, 2
    cur, win, buf, wsz, title, csize = ("a", "b"), ("b", "a"), ("a", "b"), ("b", "a"), v["title"], v["cursor"]
    p = {"cur": (v["a"], v["b"]), "win": (v["b"], v["a"]), "buf": (v["a"], v["b"]), "wsz": (v["b"], v["a"])}
    if what == "color":
        c = h.int("color", 0, 15)
        if h.bool("fore"):
            h.check(do("SetForegroundColor", peer.el("I32", None, str(c))) is None, "set")
            fg = c
        else:
            h.check(do("SetBackgroundColor", peer.el("I32", None, str(c))) is None, "set")
            bg = c
    elif what in ("position", "size"):
        k, m = h.pick("which", [("cur", "SetCursorPosition"), ("win", "SetWindowPosition")] if what == "position" else [("buf", "SetBufferSize"), ("wsz", "SetWindowSize")])
        h.check(do(m, xy("x", i, "y", j) if what == "position" else xy("width", i, "height", j)) is None, "set")
        p[k] = (i, j)
    elif what == "title":
        title = lib.odd(h, "new", 1, 4096)
        h.check(do("SetWindowTitle", peer.el("S", None, title)) is None, "set")
    else:
        csize = h.int("new", 0, 100)
        h.check(do("SetCursorSize", peer.el("I32", None, str(csize))) is None, "set")
    colour(h, do("GetForegroundColor"), fg)
    colour(h, do("GetBackgroundColor"), bg)
    for m, k in (("GetCursorPosition", "cur"), ("GetWindowPosition", "win")):
        h.check(pair(do(m), "X", "Y") == (str(p[k][0]), str(p[k][1])), m)
    for m, k in (("GetBufferSize", "buf"), ("GetWindowSize", "wsz")):
        h.check(pair(do(m), "Width", "Height") == (str(p[k][0]), str(p[k][1])), m)
    h.check(pair(do("GetMaxWindowSize"), "Width", "Height") == ("6", "7") and pair(do("GetMaxPhysicalWindowSize"), "Width", "Height") == ("8", "9"), "maximum sizes")
    h.check(do("GetWindowTitle").text == title, "title")
    h.check(do("GetCursorSize").text == str(csize), "cursor size")
    n = do("GetKeyAvailable")
    h.check(n.tag == "B" and n.text == "false", "key available")
    h.reach("done")


WRITES = [
    ("Write1", lambda h, t: [t], "stdout", "%s"), ("Write2", lambda h, t: [3, 4, t], "stdout", "%s"), ("WriteLine1", lambda h, t: [], "stdout", "\r\n"), ("WriteLine2", lambda h, t: [t], "stdout", "%s\r\n"),
    ("WriteLine3", lambda h, t: [3, 4, t], "stdout", "%s\r\n"), ("WriteErrorLine", lambda h, t: [t], "stderr", "%s\r\n"), ("WriteDebugLine", lambda h, t: [t], "stdout", "DEBUG: %s\r\n"),
    ("WriteVerboseLine", lambda h, t: [t], "stdout", "VERBOSE: %s\r\n"), ("WriteWarningLine", lambda h, t: [t], "stdout", "WARNING: %s\r\n"),
]  # fmt: skip


@obligation("C17", quick=[{"n": 2}], thorough=[{"n": 3}], bounds="n writes of any kind with any text of up to 4096 characters; an exit code of any 32 bit value")
def writes(h, n):
    """the default user interface collects everything written, in order, errors apart; the exit code is kept"""
    srv = Srv(h)
    host = real_host(h, {"title": "t", "cursor": 1, "a": 1, "b": 2})
    pool = open_pool(h, srv, host)
    ps = PowerShell(pool).add_script("s")
    ps.begin_invoke()
    want = {"stdout": [], "stderr": []}
    data = b""
    for _ in range(n):
        name, args, where, text = h.pick("write", WRITES)
        t = lib.odd(h, "t", 1, 4096)
        els = [peer.el("S", None, a) if not isinstance(a, int) else peer.el("I32", None, str(a)) for a in args(h, t)]
        want[where].append(text.replace("%s", "") + t if text.endswith(": %s") else (text[: text.index("%s")] + t + text[text.index("%s") + 2 :] if "%s" in text else text))
        data += srv.frag(PIPE_CALL, call(1, NUMBER[name], els), ps.id)
    rc = h.int("rc", -(2**31), 2**31 - 1)
    data += srv.frag(PIPE_CALL, call(1, 6, [peer.el("I32", None, str(rc))]), ps.id) + srv.frag(records.STATE, records.pipe_state(4), ps.id)
    srv.pipe_queue = [data]
    ps.end_invoke()
    for k in want:
        got = getattr(host.ui, k)
        h.check(len(got) == len(want[k]) and all([a == b for a, b in zip(got, want[k])]), k)
    h.check(host.rc == rc, "exit code")
    h.check(not srv.responses, "a write is answered")
    h.reach("done")


@obligation("C17", bounds="name, version, instance id and cultures of the host: any texts, any LCID")
def identity(h):
    """the host's name, version, instance id and culture are returned as they are"""
    srv = Srv(h)
    host = real_host(h, {"title": lib.odd(h, "name", 1, 100), "cursor": 1, "a": 1, "b": 2})
    lcid, cn, tag = h.int("lcid", 0, 65535), lib.odd(h, "culture", 1, 20), lib.odd(h, "tag", 1, 20)
    ui = h.bool("ui culture")
    c = CultureInfo(lcid=lcid, name=cn, display_name="d", ietf_language_tag=tag, three_letter_iso_name="eng", three_letter_windows_name="ENU", two_letter_iso_language_name="en")
    host.current_culture = host.current_ui_culture = c
    a, b = h.int("major", 0, 99), h.int("minor", 0, 99)
    host.version = str(a) + "." + str(b)
    pool = open_pool(h, srv, host)
    m = h.pick("m", ["GetName", "GetVersion", "GetInstanceId", "GetCurrentUICulture" if ui else "GetCurrentCulture"])
    srv.queue.append(srv.frag(POOL_CALL, call(7, NUMBER[m], [])))
    pool._receive()
    h.check(len(srv.responses) == 1, "no response")
    n = response(h, srv.responses[0], POOL_RESPONSE, None, 7, NUMBER[m])
    if m == "GetName":
        h.check(n.tag == "S" and n.text == host.name, "name")
    elif m == "GetVersion":
        h.check(n.tag == "Version" and n.text == str(a) + "." + str(b), "version")
    elif m == "GetInstanceId":
        h.check(n.tag == "G" and n.text == str(host.instance_id), "instance id")
    else:
        for k, v in (("LCID", str(lcid)), ("Name", cn), ("DisplayName", "d"), ("IetfLanguageTag", tag), ("ThreeLetterISOLanguageName", "eng"), ("ThreeLetterWindowsLanguageName", "ENU"), ("TwoLetterISOLanguageName", "en")):
            h.check(n.prop(k).text == v, "culture " + k)
    h.reach(m)


@obligation("C17", bounds="no host, a host without user interface, without raw user interface, or with both; any title, sizes, positions, cursor size, colours")
def host_info(h):
    """opening a pool and starting a pipeline tell the server exactly what the host has and the values of its raw user interface"""
    from pypsrp.powershell import RunspacePool

    srv = Srv(h)
    k = h.pick("host", ["none", "no ui", "no raw", "full"])
    v = {"title": lib.odd(h, "title", 1, 100), "cursor": h.int("cursor", 0, 100), "a": h.int("a", 0, 32767), "b": h.int("b", 0, 32767)}
    host = real_host(h, v)
    fg, bg = h.int("fg", 0, 15), h.int("bg", 0, 15)
    host.ui.raw_ui.foreground_color, host.ui.raw_ui.background_color = Color(value=fg), Color(value=bg)
    if k == "no raw":
        host.ui.raw_ui = None
    elif k == "no ui":
        host.ui = None
    pool = RunspacePool(peer.connect(srv), host=None if k == "none" else host)
    pool.open()
    msgs = lib.reassemble(h, lib.parse_fragments(h, srv.pool_in[0]))
    infos = [clixml.read(h, ET.fromstring(msgs[1][1][40:])).msv("HostInfo")]
    ps = PowerShell(pool).add_script("s")
    ps.begin_invoke()
    msgs = lib.reassemble(h, lib.parse_fragments(h, srv.pipe_in[0][1]))
    infos.append(clixml.read(h, ET.fromstring(msgs[0][1][40:])).msv("HostInfo"))
    a, b = v["a"], v["b"]
    for n in infos:
        flags = [n.msv(x).text for x in ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost")]
        h.check(flags == {"none": ["true", "true", "true", "true"], "no ui": ["false", "true", "true", "false"], "no raw": ["false", "false", "true", "false"], "full": ["false", "false", "false", "false"]}[k], "%s: %s" % (k, flags))
        d = n.msv("_hostDefaultData")
        if k != "full":
            h.check(d is None or d.tag == "Nil", "default data")
            continue
        t = d.msv("data")
        h.check(t.container == "DCT" and len(t.items) == 10, "data")
        vals = {}
        for key, val in t.items:
            h.check(key.tag == "I32", "key")
            vals[key.text] = val

        def s(key, typ, text):
            x = vals[key]
            h.check(x.msv("T").text == typ and x.msv("V").text == text, "host data " + key)

        def o(key, typ, m, x, p, y):
            z = vals[key]
            h.check(z.msv("T").text == typ and z.msv("V").msv(m).text == str(x) and z.msv("V").msv(p).text == str(y), "host data " + key)

        s("0", "System.ConsoleColor", str(fg))
        s("1", "System.ConsoleColor", str(bg))
        o("2", "System.Management.Automation.Host.Coordinates", "x", a, "y", b)
        o("3", "System.Management.Automation.Host.Coordinates", "x", b, "y", a)
        s("4", "System.Int32", str(v["cursor"]))
        o("5", "System.Management.Automation.Host.Size", "width", a, "height", b)
        o("6", "System.Management.Automation.Host.Size", "width", b, "height", a)
        o("7", "System.Management.Automation.Host.Size", "width", 6, "height", 7)
        o("8", "System.Management.Automation.Host.Size", "width", 8, "height", 9)
        s("9", "System.String", v["title"])
    h.reach(k)


def shape(h, dims, leaf):
    return [leaf() if len(dims) == 1 else shape(h, dims[1:], leaf) for _ in range(dims[0])]


def flat(v):
    return [y for x in v for y in (flat(x) if isinstance(x, list) else [x])]


@obligation(
    "C17",
    quick=[{"d": 1, "n": 3}, {"d": 2, "n": 3}, {"d": 3, "n": 2}],
    thorough=[{"d": 2, "n": 5}, {"d": 3, "n": 3}, {"d": 4, "n": 2}],
    bounds="arrays of d dimensions of 1 to n elements each, the last one also of none, any 32 bit integers, made by the client or received and sent on",
)
def arrays(h, d, n):
    """a multi-dimensional array is sent as its elements row by row with its lengths, reads back as the same nested lists, any number of times, and can be sent on"""
    from pypsrp.complex_objects import Array, ObjectMeta
    from pypsrp.serializer import Serializer

    dims = [h.count("dim", 0 if i == d - 1 else 1, n) for i in range(d)]
    want = shape(h, dims, lambda: h.int("v", -(2**31), 2**31 - 1))
    vals = flat(want)
    order = h.pick("order", ["array", "send", "mae"])

    def wire(x):
        r = clixml.read(h, ET.fromstring(ET.tostring(x, encoding="utf-8")))
        mae, mal = r.msv("mae"), r.msv("mal")
        h.check([i.text for i in mal.items] == [str(i) for i in dims], "lengths")
        h.check(len(mae.items) == len(vals), "number of elements")
        for a, b in zip(mae.items, vals):
            h.check(a.tag == "I32" and a.text == str(b), "element")
        return ET.tostring(x, encoding="utf-8")

    mine = Array(array=want)
    data = wire(Serializer().serialize(mine))
    got = Serializer().deserialize(ET.fromstring(data), ObjectMeta("Obj", object=Array))

    def look():
        if order == "send":
            wire(Serializer().serialize(got))
        elif order == "mae":
            h.check(len(got.mae) == len(vals) and all([a == b for a, b in zip(got.mae, vals)]) and got.mal == dims, "mae, mal")
        h.check(same(got.array, want), "array")

    def same(a, b):
        if isinstance(b, list):
            return isinstance(a, list) and len(a) == len(b) and all([same(x, y) for x, y in zip(a, b)])
        return a == b

    look()
    look()
    wire(Serializer().serialize(got))
    wire(Serializer().serialize(mine))
    h.check(same(mine.array, want), "the client's array is changed")
    h.reach("done")


def either(n, name):
    x = n.msv(name)
    return n.prop(name) if x is None else x


@obligation("C17", quick=[{"what": w} for w in ("key", "cells", "fields", "choice", "size", "credential")], bounds="a key, up to two buffer cells, named fields, a choice, a size or credentials of any values as the result of the method; the arguments of any values: texts, 32 bit integers, cells, rectangles")
def structured(h, what):
    """what a host method returns is sent with each of its values in its own place, and what the server passes to it arrives the same way"""
    from pypsrp.complex_objects import Array, BufferCell, KeyInfo, PSCredential
    from pypsrp.serializer import Serializer

    srv = Srv(h)
    calls = []
    pool = open_pool(h, srv, make_host(h, lambda o, n, a: calls.append((n, a)) or value))
    i, j, k = h.int("i", 0, 32767), h.int("j", 0, 2**31 - 1), h.int("k", 0, 2**31 - 1)
    c = h.chars("c", 1, 0x20, 0xD7FF)
    t, u = lib.odd(h, "t", 1, 1000), lib.odd(h, "u", 1, 1000)
    b = h.bool("b") and True
    if what == "key":
        name, value = "ReadKey", KeyInfo(code=i, character=c, state=j, key_down=b)
        els = [peer.el("I32", None, str(k))]

        def took(a):
            h.check(len(a) == 1 and a[0] == k, "the options of ReadKey")

        def gave(n):
            h.check(n.msv("virtualKeyCode").tag == "I32" and n.msv("virtualKeyCode").text == str(i), "key code")
            h.check(n.msv("character").tag == "C" and n.msv("character").text == str(ord(c)), "character")
            h.check(n.msv("controlKeyState").tag == "I32" and n.msv("controlKeyState").text == str(j), "key state")
            h.check(n.msv("keyDown").tag == "B" and n.msv("keyDown").text == ("true" if b else "false"), "key down")
    elif what == "cells":
        fg, bg, ty = h.int("fg", 0, 15), 9, h.int("ty", 0, 2)
        if h.bool("background"):
            fg, bg = 9, fg
        m = h.count("cells", 1, 2)
        name = "GetBufferContents"
        value = Array(array=[[BufferCell(character=c, foreground_color=Color(value=fg), background_color=Color(value=bg), cell_type=ty) for _ in range(m)]])
        names = ("left", "top", "right", "bottom")
        rect = (i, j, k, i)
        els = [peer.obj(5, [peer.el("I32", x, str(y)) for x, y in zip(names, rect)])]

        def took(a):
            h.check(len(a) == 1 and all([a[0].extended_properties[x] == y for x, y in zip(names, rect)]), "the rectangle")

        def gave(n):
            h.check([x.text for x in n.msv("mal").items] == ["1", str(m)], "lengths")
            h.check(len(n.msv("mae").items) == m, "number of cells")
            for cell in n.msv("mae").items:
                h.check(either(cell, "character").tag == "C" and either(cell, "character").text == str(ord(c)), "character")
                colour(h, either(cell, "foregroundColor"), fg)
                colour(h, either(cell, "backgroundColor"), bg)
                h.check(either(cell, "bufferCellType").tag == "I32" and either(cell, "bufferCellType").text == str(ty), "type of the cell")
    elif what == "fields":
        name, value = "Prompt", {"first": j, "second": t}
        els = [peer.el("S", None, t), peer.el("S", None, u), peer.el("I32", None, str(k))]

        def took(a):
            h.check(len(a) == 3 and a[0] == t and a[1] == u and a[2] == k, "caption, message, fields")

        def gave(n):
            h.check(n.container == "DCT" and len(n.items) == 2, "fields")
            for (x, y), (a, b) in zip(n.items, (("first", j), ("second", t))):
                clixml.check_value(h, x, a)
                clixml.check_value(h, y, b)
    elif what == "choice":
        name, value = "PromptForChoice", j
        els = [peer.el("S", None, t), peer.el("S", None, u), peer.el("S", None, t), peer.el("I32", None, str(k))]

        def took(a):
            h.check(len(a) == 4 and a[0] == t and a[1] == u and a[2] == t and a[3] == k, "caption, message, choices, default")

        def gave(n):
            h.check(n.tag == "I32" and n.text == str(j), "choice")
    elif what == "size":
        name, value = h.pick("size", ["GetBufferSize", "GetWindowSize", "GetMaxWindowSize"]), Size(width=i, height=j)
        els = []

        def took(a):
            h.check(len(a) == 0, "arguments")

        def gave(n):
            h.check(either(n, "Width").text == str(i) and either(n, "Height").text == str(j), "size")
    else:
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

        pool._serializer.cipher = Cipher(algorithms.AES(b"k" * 32), modes.CBC(b"\x00" * 16))
        name, value = "PromptForCredential1", PSCredential(username=t, password="secret")
        els = [peer.el("S", None, u), peer.el("S", None, t), peer.el("S", None, t), peer.el("S", None, u)]

        def took(a):
            h.check(len(a) == 4 and a[0] == u and a[1] == t and a[2] == t and a[3] == u, "caption, message, user, target")

        def gave(n):
            h.check(n.types == ["System.Management.Automation.PSCredential", "System.Object"], "types of credentials")
            clixml.check_value(h, n.prop("UserName"), t)
            h.check(n.prop("Password").tag == "SS", "the password")

    srv.queue.append(srv.frag(POOL_CALL, call(9, NUMBER[name], els)))
    pool._receive()
    h.check(len(calls) == 1 and calls[0][0] == name, "the method called")
    took(calls[0][1][2:])
    h.check(len(srv.responses) == 1, "responses")
    gave(response(h, srv.responses[0], POOL_RESPONSE, None, 9, NUMBER[name]))
    h.reach(what)
