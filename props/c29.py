"""C29: asking whether a pool is alive."""
import xml.etree.ElementTree as ET

import requests
import requests.adapters
from requests.packages.urllib3.connection import HTTPConnection, HTTPSConnection
from requests.packages.urllib3.util.retry import Retry

from props import lib, net, peer
from symx.api import obligation

from pypsrp import _pool_manager
from pypsrp.exceptions import AuthenticationError, WinRMTransportError, WSManFaultError
from pypsrp.powershell import RunspacePool

OPENED, CLOSED, DISCONNECTED = 2, 3, 9
SHELL_URI = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
GONE = (2150858793, 2150858843)  # operation timed out, unexpected selectors
ERRORS = {
    "read timeout": requests.ReadTimeout,
    "connect timeout": requests.ConnectTimeout,
    "refused": requests.ConnectionError,
    "timeout": TimeoutError,
    "proxy": requests.exceptions.ProxyError,
    "no new connection": _pool_manager.NewConnectionDisabled,
}


class Srv(peer.Server):
    def __init__(self, h):
        peer.Server.__init__(self, h)
        self.fate = None
        self.inside = []

    def on_request(self, r):
        if r.kind == "Get":
            self.inside.append(_pool_manager.DisableNewConnectionsContext.current() is not None)

    def handle_Get(self, r):
        kind, v = self.fate
        if kind == "error":
            raise v
        if kind == "fault":
            raise peer.Fault(str(v))
        if kind == "no shell":
            return ET.Element(peer.RSP + "Other")
        s = ET.Element(peer.RSP + "Shell")
        ET.SubElement(s, peer.RSP + "ShellId").text = self.shell_id
        for i in range(v[1]):
            ET.SubElement(s, peer.RSP + "Field%d" % i).text = self.h.text("field", 0, 100)
        if v[0] is not None:
            ET.SubElement(s, peer.RSP + "State").text = v[0]
        return s


def outcome(h, srv, short):
    """What the server does, and what has to come of it: True, False or an error."""
    if short:
        srv.fate, want = h.pick("before", [(("state", ("Connected", 0)), True), (("state", ("Disconnected", 0)), False), (("error", requests.ReadTimeout()), False), (("fault", 5), WSManFaultError)])
        return want
    kind = h.pick("answer", ["state", "no shell", "fault", "error"])
    if kind == "state":
        st = h.pick("state", ["Connected", "Disconnected", None, "any"])
        if st == "any":
            st = h.text("state text", 0, 100)
            h.assume(h.no(st == "Disconnected"))
        srv.fate = kind, (st, h.count("fields", 0, 1))
        return st is None or h.no(st == "Disconnected")
    if kind == "no shell":
        srv.fate = kind, None
        return True
    if kind == "fault":
        code = h.pick("code", ["timed out", "selectors", "other"])
        n = {"timed out": GONE[0], "selectors": GONE[1]}.get(code)
        if n is None:
            n = h.int("fault", 1, 2**32 - 1)
            h.assume(h.all(*[n != g for g in GONE]))
        srv.fate = kind, n
        return WSManFaultError if code == "other" else False
    name = h.pick("error", sorted(ERRORS) + ["authentication", "http", "other"])
    if name in ERRORS:
        srv.fate = kind, ERRORS[name]()
        return False
    e = {"authentication": AuthenticationError("no"), "http": WinRMTransportError("http", 503, "busy"), "other": KeyError("x")}[name]
    srv.fate = kind, e
    return type(e)


@obligation("C29", quick={"n": 2}, thorough={"n": 3}, bounds="n questions in a row, each answered with any state and other fields, with any fault, or failing in nine ways; any timeout or none; the pool closed afterwards")
def alive(h, n):
    """a pool is alive exactly when the server still has it and nobody disconnected it; one question is sent, which waits no longer than asked for and makes no new connection; a pool that is gone is closed without another request, and an error that says nothing about the pool changes nothing"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    state = OPENED
    for i in range(n):
        want = outcome(h, srv, i < n - 1)
        t = h.pick("timeout given", [None, h.int("timeout", 1, 2**31 - 1)]) if i == 0 else None
        k = len(srv.log)
        srv.inside = []
        try:
            got = pool.is_alive() if t is None else pool.is_alive(timeout=t)
        except Exception as e:
            h.check(want is not True and want is not False and isinstance(want, type) and isinstance(e, want), "%s for %s" % (type(e).__name__, srv.fate[0]))
            h.reach("error")
        else:
            h.check(not isinstance(want, type), "an error is lost")
            h.check(got is True or got is False, "the answer")
            h.check(got == want, "whether it is alive")
            if not got:
                state = CLOSED
            h.reach("alive" if got else "gone")
        h.check(pool.state == state, "the state of the pool")
        h.check([r.kind for r in srv.log[k:]] == ["Get"], "the requests")
        r = srv.log[k]
        h.check(r.uri == SHELL_URI and r.selectors == [("ShellId", srv.shell_id)] and r.resource is None, "the question")
        h.check(r.timeout == "PT%dS" % (20 if t is None else t), "the operation timeout")
        if t is None:
            h.check(r.kw.get("timeout") is None, "the HTTP timeout")
        else:
            h.check(r.kw.get("timeout") is not None, "no HTTP timeout")
            h.check(r.kw["timeout"] == t + 2, "the HTTP timeout")
        h.check(not r.kw.get("retries_on_read_timeout"), "the question is repeated")
        h.check(srv.inside == [True], "the question may make a new connection")
        h.check(_pool_manager.DisableNewConnectionsContext.current() is None, "no new connections can be made afterwards")
    k = len(srv.log)
    pool.close()
    h.check([r.kind for r in srv.log[k:]] == ([] if state == CLOSED else ["Delete"]), "closing")


OPS = ["enter", "leave", "connect 0", "connect 1", "connect 2", "raise"]


@obligation("C29", quick=[{"n": 4, "ops": 4}, {"n": 3, "ops": 6}], thorough=[{"n": 6, "ops": 4}, {"n": 5, "ops": 6}], bounds="every sequence of n operations of forbidding new connections (nested or not), allowing them again (normally or by an exception), and connecting through one of two adapters, with and without TLS")
def connections(h, n, ops):
    """while new connections are forbidden none is made, whichever adapter it is for; otherwise every one is; nothing of it reaches adapters which are not pypsrp's"""
    made = []
    adapters = [_pool_manager.create_request_adapter(max_retries=Retry(0)), _pool_manager.create_request_adapter(max_retries=Retry(0), key_password="k")]
    other = requests.adapters.HTTPAdapter()
    old = HTTPConnection.connect, HTTPSConnection.connect
    HTTPConnection.connect = HTTPSConnection.connect = lambda self: made.append(self)
    pools = {}
    scheme = h.pick("scheme", ["http", "https"])
    try:
        stack = []
        for i in range(n):
            op = h.pick("op", OPS[:ops])
            if op == "enter":
                c = _pool_manager.DisableNewConnectionsContext()
                c.__enter__()
                stack.append(c)
            elif op in ("leave", "raise"):
                if not stack:
                    continue
                e = h.pick("exception", [KeyError("x"), KeyboardInterrupt()]) if op == "raise" else None
                r = stack.pop().__exit__(type(e) if e else None, e, None)
                h.check(not r, "an exception is swallowed")
            else:
                which = int(op[-1])
                a = other if which == 2 else adapters[which]
                key = (which, scheme)
                if key not in pools:
                    pools[key] = a.poolmanager.connection_from_url("%s://server:1/" % scheme)
                conn = pools[key]._new_conn()
                k = len(made)
                try:
                    conn.connect()
                    done = True
                except _pool_manager.NewConnectionDisabled:
                    done = False
                h.check(done == (not stack or which == 2), "a new connection is %s" % ("made" if done else "refused"))
                h.check(len(made) == k + (1 if done else 0), "the connection")
                h.reach("connected" if done else "refused")
            h.check((_pool_manager.DisableNewConnectionsContext.current() is not None) == bool(stack), "whether new connections are forbidden")
        while stack:
            stack.pop().__exit__(None, None, None)
    finally:
        HTTPConnection.connect, HTTPSConnection.connect = old
