"""C19: repeating requests, and how long they may take."""
import requests

from props import http, peer
from props.c18 import make
from symx.api import obligation

from pypsrp.exceptions import AuthenticationError, WinRMTransportError
from pypsrp.wsman import WSMan

KINDS = ["ok", "read", "connect", "refused", "401", "503"]
ERR = {"read": requests.ReadTimeout, "connect": requests.ConnectTimeout, "refused": requests.ConnectionError}
FINAL = {"refused": requests.ConnectionError, "401": AuthenticationError, "503": WinRMTransportError}


class Ctx(http.Context):
    SIGS = (16,)


class Line(object):
    """Every request meets the next fate; keeps a record."""

    def __init__(self, h, auth, fates=None, kinds=KINDS):
        self.h, self.auth = h, auth
        self.kinds = list(kinds)
        self.record = []  # (fate, blank, error, timeout, request, last wrapped with the current context)
        self.ctxs = [Ctx(h)]
        self.fates = fates
        self.sleeps = []

    def __call__(self, req, timeout):
        h = self.h
        n = len(self.record)
        fate = self.fates[n] if self.fates is not None else h.pick("fate", self.kinds)
        bl = http.blank(req)
        w = self.ctxs[-1].wrapped
        e = ERR[fate]("planned") if fate in ERR else None
        self.record.append((fate, bl, e, timeout, req, w[-1] if w else None))
        if e is not None:
            raise e
        if fate != "ok":
            return http.Response(int(fate), b"", None, "no")
        if bl:
            # a new security context for the connection
            self.ctxs.append(Ctx(h))
            self.auth.contexts["server"] = self.ctxs[-1]
            return http.Response(200, b"", None)
        return http.Response(200, b"answer")


def expect(line, h, start, wrap, need_auth, r, msg, timeout):
    """Walk through what was sent from `start` on; returns the final outcome."""
    tries = 0
    i = start
    while True:
        h.check(i < len(line.record), "gives up too early")
        fate, bl, e, to, req, w = line.record[i]
        h.check(to == timeout, "the HTTP timeout")
        h.check(need_auth is None or bl == need_auth, "a blank request is %s" % ("sent without need" if bl else "missing"))
        if not bl:
            if wrap:
                h.check(w is not None, "the message is not encrypted with the current security context")
                plain, hd, ct, pad = w
                h.check(plain == msg, "the message sent")
                h.check(req.body == http.part("SPNEGO", str(len(msg) + pad), hd, ct) + b"--Encrypted Boundary--\r\n", "the request")
            else:
                h.check(req.body == msg, "the message sent again differs")
        i += 1
        if fate in ("read", "connect"):
            tries += 1
            if wrap:
                need_auth = True
            if tries > r:
                return i, e, need_auth, tries
            continue
        if fate == "ok":
            if bl:
                need_auth = False
                continue
            need_auth = False
            return i, None, need_auth, tries
        # whether the context is still good is open
        return i, FINAL[fate], None if wrap else False, tries


@obligation(
    "C19",
    quick=[{"r": 0, "k": 2}, {"r": 2, "k": 1}, {"r": 7, "k": 1, "kinds": ("ok", "read")}, {"r": 2, "k": 2, "kinds": ("ok", "connect")}],
    thorough=[{"r": 1, "k": 3}, {"r": 5, "k": 1}, {"r": 8, "k": 1, "kinds": ("ok", "read", "401")}],
    bounds="k messages over one connection with up to r retries each, encrypted or not; every request answered, timing out while connecting or reading, failing otherwise, refused or answered with an error status; any connection and read timeouts, or one for the request; any backoff; kinds: only these fates",
)
def retries(h, r, k, kinds=KINDS):
    """a message is sent again only after a timeout, at most r times, unchanged and with a fresh security context; any other failure and the last timeout reach the caller"""
    wrap = h.pick("wrap", [False, True])
    ct, rt = h.int("connection timeout", 1, 3600), h.int("read timeout", 1, 3600)
    backoff = h.int("backoff", 1, 100)
    sleeps = []
    h.on("sleep", sleeps.append)
    t = make(h, None, "negotiate", Ctx(h), ssl=not wrap, connection_timeout=ct, read_timeout=rt, reconnection_backoff=backoff)
    line = Line(h, t.session.auth, kinds=kinds)
    t.session.handler = line
    need = wrap
    for _ in range(k):
        msg = h.blob("msg", 1, 1 << 14)
        own = h.pick("own timeout", [False, True])
        to = h.int("timeout", 1, 3600) if own else None
        start, ns = len(line.record), len(sleeps)
        err = out = None
        try:
            out = t.send(msg, retries_on_read_timeout=r, timeout=to) if own else t.send(msg, retries_on_read_timeout=r)
        except Exception as e:
            err = e
        end, want, need, tries = expect(line, h, start, wrap, need, r, msg, to if own else (ct, rt))
        h.check(end == len(line.record), "sent again although %s" % line.record[end - 1][0])
        if want is None:
            h.check(err is None, "a success is reported as an error")
            h.check(out == b"answer", "answer")
        elif isinstance(want, type):
            h.check(isinstance(err, want), "wrong error")
            if want is WinRMTransportError:
                h.check(err.code == 503, "status")
        else:
            h.check(err is want, "the timeout does not reach the caller")
        done = len(sleeps) - ns
        h.check(done == (tries if want is None or isinstance(want, type) else tries - 1), "pauses between attempts")
        for i in range(ns, len(sleeps)):
            h.check(sleeps[i] > 0, "no pause before another attempt")
        h.reach("%s after %d" % ("ok" if want is None else "error", tries))


METHODS = ["command", "connect", "create", "delete", "disconnect", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]


class Any(peer.Peer):
    def __getattr__(self, name):
        if name.startswith("handle_"):
            return lambda r: None
        raise AttributeError(name)


@obligation("C19", bounds="every WSMan operation; the first request times out while connecting or reading 1 to 7 times; with or without an operation timeout of 1 to 3600 s")
def repeated(h):
    """only a receive is sent again after a timeout, up to five times; every other request is sent once, and its time limit is longer than the server's"""
    import xml.etree.ElementTree as ET

    m = h.pick("method", METHODS)
    n = h.count("timeouts", 1, 7)
    kind = h.pick("kind", [requests.ReadTimeout, requests.ConnectTimeout])
    own = h.pick("own timeout", [False, True])
    to = h.int("timeout", 1, 3600) if own else None
    ws = WSMan("server", username="u", password="p", auth="basic", connection_timeout=11, read_timeout=12)
    srv = Any(h)
    bodies = []

    def handler(req, timeout):
        bodies.append(req.body)
        if own:
            h.check(timeout > to, "the HTTP timeout is not longer than the operation timeout")
        else:
            h.check(timeout == (11, 12), "the HTTP timeouts are not those configured")
        if len(bodies) <= n:
            raise kind("planned")
        return http.Response(200, srv.send(req.body))

    h.on("sleep", lambda s: None)
    ws.transport.session = http.Session(h, handler)
    err = None
    try:
        getattr(ws, m)("uri", ET.Element("a"), timeout=to)
    except kind as e:
        err = e
    limit = 6 if m == "receive" else 1
    h.check(len(bodies) == min(n + 1, limit), "%s is sent %d times when %d time out" % (m, len(bodies), n))
    h.check((err is not None) == (n >= limit), "outcome")
    for b in bodies:
        h.check(b == bodies[0], "the request sent again differs")
    h.reach(m)
