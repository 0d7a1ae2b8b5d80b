"""C27: authentication with Negotiate, Kerberos and NTLM."""
import base64
import hashlib

import spnego
from cryptography import x509
from cryptography.exceptions import UnsupportedAlgorithm
from cryptography.hazmat.primitives import hashes

from props import http, lib, net
from props.c26 import some, wsman
from symx.api import obligation

from pypsrp.exceptions import AuthenticationError, WinRMTransportError
from pypsrp.wsman import WSMan

MSG = b"message"


class Ctx(http.Context):
    """A security context which gives out the tokens planned."""

    def __init__(self, h, nego, plan=None):
        http.Context.__init__(self, h)
        self.nego = nego
        self.steps = []  # tokens received
        self.out = []  # tokens given out
        self._complete = False
        self.plan = plan  # (number of tokens, whether the last server token is awaited)

    @property
    def complete(self):
        return self._complete

    def step(self, in_token=None):
        h = self.h
        self.steps.append(in_token)
        k, awaits = self.plan
        if len(self.out) < k:
            tok = h.blob("token", 1, 1 << 16)
            self.out.append(tok)
            if len(self.out) == k and not awaits:
                self._complete = True
            return tok
        self._complete = True
        return None


class Server(object):
    """Answers requests: a 401 that starts, tokens, the end."""

    def __init__(self, h, offer, rounds=None, sock=None):
        self.h, self.offer, self.rounds, self.sock = h, offer, rounds, sock
        self.calls = []  # arguments of spnego.client
        self.ctxs = []
        self.tokens = []  # tokens sent to the client
        self.answers = []
        self.plan = (1, False)
        self.established = False
        self.scheme = None

    def client(self, *a, **k):
        self.calls.append((a, k))
        c = Ctx(self.h, self, self.plan)
        self.ctxs.append(c)
        return c

    def answer(self, status, headers=None, text="no"):
        a = net.Answer(status, b"", headers, text, self.sock)
        self.answers.append(a)
        return a

    def __call__(self, sent):
        h = self.h
        if sent.headers.get("Authorization") is None:
            if self.established:
                return self.answer(200)
            return self.answer(401, {"www-authenticate": self.offer})
        self.established = True
        return self.answer(200)


def argument(calls, name, position=None, default=None):
    a, k = calls[0]
    if name in k:
        return k[name]
    if position is not None and len(a) > position:
        return a[position]
    return default


OFFERS = [
    # what the server offers, the scheme used, the protocols it goes with
    ("Negotiate", "Negotiate", ("negotiate", "kerberos", "ntlm")),
    ("negotiate", "Negotiate", ("negotiate", "kerberos", "ntlm")),
    ("Negotiate, Basic realm=\"WSMAN\"", "Negotiate", ("negotiate", "kerberos", "ntlm")),
    ("Basic realm=\"WSMAN\", Kerberos, Negotiate", "Negotiate", ("negotiate", "kerberos", "ntlm")),
    ("NTLM, Negotiate", "Negotiate", ("negotiate", "kerberos", "ntlm")),
    ("Kerberos", "Kerberos", ("negotiate", "kerberos")),
    ("Basic realm=\"WSMAN\", Kerberos", "Kerberos", ("negotiate", "kerberos")),
    ("NTLM", "NTLM", ("negotiate", "ntlm")),
    ("ntlm, Basic realm=\"x\"", "NTLM", ("negotiate", "ntlm")),
    ("Basic realm=\"WSMAN\"", None, ()),
    ("CredSSP", None, ()),
    (None, None, ()),
]


@obligation("C27", bounds="every authentication asked for and twelve offers of the server; with message encryption or without; any token")
def offers(h):
    """the scheme used is one the server offers, Negotiate before others, and the protocol is the one asked for; where none fits the caller is told and no token is sent"""
    auth = h.pick("auth", ["negotiate", "kerberos", "ntlm"])
    offer, scheme, fits = h.pick("offer", OFFERS)
    enc = h.pick("encryption", ["never", "auto"])
    srv = Server(h, offer)
    if offer is None:
        srv.offer = ""
    with net.Net(h, srv, client=srv.client) as n:
        t = wsman(h, "server", ssl=False, encryption=enc, auth=auth, username="u", password="p").transport
        try:
            t.send(MSG)
        except AuthenticationError:
            h.check(scheme is None, "authentication refused")
            h.check(not srv.calls and len(n.sent) == 1, "a token is sent")
            h.reach("none offered")
            return
        except ValueError:
            h.check(scheme is not None and auth not in fits, "authentication refused")
            h.check(not srv.calls and len(n.sent) == 1, "a token is sent")
            h.reach("does not fit")
            return
    h.check(scheme is not None and auth in fits, "authentication with what was not offered")
    h.check(len(srv.calls) == 1, "a single context")
    want = auth if scheme == "Negotiate" or auth != "negotiate" else scheme.lower()
    h.check(argument(srv.calls, "protocol") == want, "the protocol")
    h.check(bool(int(argument(srv.calls, "options", 7, 0)) & int(spnego.NegotiateOptions.wrapping_winrm)) == (enc == "auto"), "the context is made for message encryption or not")
    ctx = srv.ctxs[0]
    h.check(len(n.sent) == (2 if enc == "never" else 3), "requests")
    a = n.sent[1].headers["Authorization"]
    h.check((a if isinstance(a, bytes) else a.encode("ascii")) == scheme.encode("ascii") + b" " + base64.b64encode(ctx.out[0]), "the token sent")
    if enc == "never":
        h.check(n.sent[1].body == MSG, "the message is not sent with the token")
    else:
        h.check(http.blank(n.sent[0]) and http.blank(n.sent[1]), "the message is sent in the clear")
        kind = "KERBEROS" if scheme == "Kerberos" else "SPNEGO"
        _, hd, ct, pad = ctx.wrapped[0]
        h.check(ctx.wrapped[0][0] == MSG and n.sent[2].body == http.part(kind, str(len(MSG) + pad), hd, ct) + b"--Encrypted Boundary--\r\n", "the encrypted message")
    h.reach(scheme + " " + want)


@obligation("C27", bounds="any first answer that is not 401: seven statuses (200 to 503) with nine offers of the server and any text; each authentication asked for")
def unasked(h):
    """no token is made or sent where the server did not ask for one with 401"""
    auth = h.pick("auth", ["negotiate", "kerberos", "ntlm"])
    offer = h.pick("offer", [o[0] for o in OFFERS if o[0]][:8] + ["Negotiate YWJj"])
    status = h.pick("status", [200, 202, 400, 403, 407, 500, 503])
    text = h.text("text", 0, 4096)
    srv = Server(h, offer)

    def handler(sent):
        return net.Answer(status, b"x", {"www-authenticate": offer, "proxy-authenticate": offer}, text)

    with net.Net(h, handler, client=srv.client) as n:
        t = wsman(h, "server", ssl=True, auth=auth, username="u", password="p").transport
        try:
            out = t.send(MSG)
            h.check(status < 300 and out == b"x", "an error is taken for an answer")
        except WinRMTransportError as e:
            h.check(status >= 300 and e.code == status and e.response_text == text, "the error")
    h.check(not srv.calls and len(n.sent) == 1 and n.sent[0].body == MSG, "authentication that was not asked for")
    h.reach(str(status))


@obligation("C27", bounds="any user name, password, service, host name to use instead of the server's, each given or not; delegation and channel binding on, off or not given; HTTP and HTTPS, with message encryption or without")
def options(h):
    """the security context is made for exactly the credentials, service and host given, delegates and binds the channel exactly when asked, and is made for message encryption exactly when that is used"""
    ssl = True if h.bool("ssl") else False
    enc = h.pick("encryption", ["auto", "always", "never"])
    user, pw = lib.odd(h, "user", 0, 255), lib.odd(h, "password", 0, 255)
    user, pw = h.pick("credentials given", [(None, None), (user, None), (user, pw)])
    service = h.pick("service given", [None, lib.odd(h, "service", 1, 255)])
    host = h.pick("override given", [None, lib.odd(h, "override", 1, 255)])
    delegate = h.pick("delegate", [None, False, True])
    cbt = h.pick("send_cbt", [None, False, True])
    der = h.blob("der", 1, 4096)
    srv = Server(h, "Negotiate", sock=Tls(der) if ssl else net.Plain())
    kw = some(h, username=user, password=pw, negotiate_service=service, negotiate_hostname_override=host, negotiate_delegate=delegate, negotiate_send_cbt=cbt)
    with Certs(h, der, hashes.SHA256()), net.Net(h, srv, client=srv.client) as n:
        t = WSMan("server.dom", ssl=ssl, encryption=enc, auth="negotiate", **kw).transport
        t.send(MSG)
    h.reach("sent")
    h.check(len(srv.calls) == 1, "contexts")
    for name, given, value in (("username", user, argument(srv.calls, "username", 0)), ("password", pw, argument(srv.calls, "password", 1))):
        if given is None:
            h.check(value is None, "the %s is made up" % name)
        else:
            h.check(value is not None, "the %s is lost" % name)
            h.check(value == given, "the %s" % name)
    value = argument(srv.calls, "hostname", 2)
    h.check(value == ("server.dom" if host is None else host), "the host name")
    value = argument(srv.calls, "service", 3)
    if service is None:
        h.check(value.lower() in ("host", "wsman", "http"), "the service")
    else:
        h.check(value == service, "the service")
    req = argument(srv.calls, "context_req", 5, spnego.ContextReq.default)
    h.check(bool(req & spnego.ContextReq.delegate) == (delegate is True), "delegation")
    h.check(req & ~spnego.ContextReq.delegate == spnego.ContextReq.default, "the requirements of the context")
    wrap = enc == "always" if ssl else enc != "never"
    opt = argument(srv.calls, "options", 7, 0)
    h.check(bool(int(opt) & int(spnego.NegotiateOptions.wrapping_winrm)) == wrap, "the context is made for message encryption: %s" % (not wrap))
    bind = argument(srv.calls, "channel_bindings", 4)
    if ssl and cbt is not False:
        h.check(bind is not None, "no channel binding")
        h.check(bind.application_data == b"tls-server-end-point:" + hashlib.sha256(der).digest(), "the channel binding")
        h.reach("bound")
    else:
        h.check(bind is None or not bind.application_data, "a channel binding")


class Tls(net.Tls):
    pass


class Certs(object):
    """The only certificate there is."""

    def __init__(self, h, der, algorithm):
        class Cert(object):
            @property
            def signature_hash_algorithm(self):
                if algorithm == "unknown":
                    raise UnsupportedAlgorithm("unknown")
                return algorithm

        def load(data, backend=None):
            h.check(data == der, "another certificate than the server's")
            return Cert()

        self.p = net.patched(x509, "load_der_x509_certificate", load)

    def __enter__(self):
        return self.p.__enter__()

    def __exit__(self, *a):
        return self.p.__exit__()


ALGS = [
    (hashes.MD5(), "sha256"),
    (hashes.SHA1(), "sha256"),
    (hashes.SHA224(), "sha224"),
    (hashes.SHA256(), "sha256"),
    (hashes.SHA384(), "sha384"),
    (hashes.SHA512(), "sha512"),
    (hashes.SHA3_256(), "sha3_256"),
    (hashes.SHA3_512(), "sha3_512"),
    (None, "sha256"),
    ("unknown", "sha256"),
]


@obligation("C27", bounds="any certificate, signed with ten kinds of hash (known, broken, unknown, none); the socket known or not")
def binding(h):
    """the channel binding is the hash of the server's certificate that RFC 5929 asks for: SHA-256 for MD5 and SHA-1 (and what is unknown), else the hash of its signature; where there is no certificate there is no binding and authentication goes on"""
    alg, want = h.pick("algorithm", ALGS)
    known = h.pick("socket", ["tls", "plain", "unknown"])
    der = h.blob("der", 1, 4096)
    sock = {"tls": net.Tls(der), "plain": net.Plain(), "unknown": None}[known]
    srv = Server(h, "Negotiate", sock=sock)
    with Certs(h, der, alg), net.Net(h, srv, client=srv.client) as n:
        t = wsman(h, "server", ssl=True, auth="negotiate").transport
        t.send(MSG)
    h.check(len(srv.calls) == 1 and len(n.sent) == 2, "requests")
    bind = argument(srv.calls, "channel_bindings", 4)
    if known != "tls":
        h.check(bind is None or not bind.application_data, "a channel binding without certificate")
        h.reach("no certificate")
        return
    h.check(bind is not None, "no channel binding")
    h.check(bind.application_data == b"tls-server-end-point:" + hashlib.new(want, der).digest(), "the channel binding")
    h.reach("bound")


HEADERS = ["%s", "%s, Basic realm=\"WSMAN\"", "%s,Basic realm=\"WSMAN\""]


@obligation(
    "C27",
    quick={"n": 3},
    thorough={"n": 5},
    bounds="contexts of up to n tokens, awaiting a last answer or not, any tokens; each request with a token answered by a token, by nothing, by a refusal or by an error; any message; each way the scheme is written; two messages",
)
def tokens(h, n):
    """the tokens go back and forth in order and unaltered, each with the whole request on the same connection, until the context is complete or the server gives none; the last answer is the answer, and the message is not taken as sent before"""
    scheme = h.pick("scheme", ["Negotiate", "Kerberos", "NTLM"])
    auth = {"Negotiate": "negotiate", "Kerberos": "kerberos", "NTLM": "ntlm"}[scheme]
    spell, shape = h.pick("spelling", [(scheme, HEADERS[0]), (scheme, HEADERS[1]), (scheme.lower(), HEADERS[2])])
    msg = h.blob("msg", 1, 1 << 16)
    answer = h.text("answer", 0, 1 << 16)
    script = []  # what was answered to each request with a token
    given = []  # tokens of the server, None where there was none

    def note(a):
        srv.answers.append(a)
        return a

    def handler(sent):
        if sent.headers.get("Authorization") is None:
            if srv.established:
                script.append("later")
                return net.Answer(200, b"x", {}, answer)
            return srv.answer(401, {"www-authenticate": shape % spell})
        kind = h.pick("answer", ["token", "token200", "none200", "none401", "none500"])
        script.append(kind)
        if kind.startswith("token"):
            tok = h.blob("server token", 1, 1 << 16)
            given.append(tok)
            hd = {"www-authenticate": shape % ("%s %s" % (spell, base64.b64encode(tok).decode("ascii")))}
            if kind == "token":
                return srv.answer(401, hd)
            srv.established = True
            return note(net.Answer(200, b"x", hd, answer))
        given.append(None)
        if kind == "none200":
            srv.established = True
            return note(net.Answer(200, b"x", {}, answer))
        if kind == "none500":
            srv.established = True
            return note(net.Answer(500, b"x", {}, answer))
        return srv.answer(401, {"www-authenticate": shape % spell})

    srv = Server(h, spell)
    srv.plan = (h.count("tokens", 1, n), h.pick("awaits", [False, True]))
    with net.Net(h, handler, client=srv.client) as w:
        t = WSMan("server", ssl=True, auth=auth, username="u", password="p").transport
        try:
            out = t.send(msg)
            end = 200
        except AuthenticationError:
            end = 401
        except WinRMTransportError as e:
            h.check(e.code == 500 and e.response_text == answer, "the error")
            end = 500
        h.check(len(srv.ctxs) == 1, "a single context")
        ctx = srv.ctxs[0]
        k, awaits = srv.plan
        # what must have happened
        h.check(len(w.sent) >= 2 and w.sent[0].headers.get("Authorization") is None, "the first request")
        h.check(len(ctx.steps) >= 1 and ctx.steps[0] is None, "the first token")
        sent = 1
        turns = 0
        last = None
        while True:
            # a token is there to be sent
            h.check(len(w.sent) > sent, "a token is not sent")
            s = w.sent[sent]
            a = s.headers["Authorization"]
            h.check((a if isinstance(a, bytes) else a.encode("ascii")) == scheme.encode("ascii") + b" " + base64.b64encode(ctx.out[turns]), "the token sent")
            h.check(s.body == msg and s.request.method == "POST" and s.request.url == w.sent[0].request.url, "the request sent with the token")
            h.check(s.headers.get("Content-Type") == w.sent[0].headers.get("Content-Type"), "the headers sent with the token")
            h.check(s.adapter is w.sent[0].adapter and s.timeout == w.sent[0].timeout and s.verify == w.sent[0].verify, "the settings of the request with the token")
            last = script[turns]
            tok = given[turns]
            turns += 1
            sent += 1
            if tok is None:
                break
            h.check(len(ctx.steps) > turns, "the server's token is not used")
            h.check(ctx.steps[turns] == tok, "the token received")
            if len(ctx.out) == turns:
                break
        h.check(len(w.sent) == sent, "more is sent than needed")
        h.check(len(ctx.steps) == turns + (1 if given[-1] is not None else 0), "the context gets more than the server sent")
        h.check(end == (int(last[-3:]) if last[-3:].isdigit() else 401), "the end: %d after %s" % (end, last))
        for a in srv.answers[: sent - 1]:
            h.check(a.raw.released == 1, "a connection is not released for the next token")
        h.reach("end %d" % end)
        if end == 200:
            h.check(out == b"x", "the answer")
            got = t.send(msg)
            h.check(got == b"x" and len(w.sent) == sent + 1 and len(srv.ctxs) == 1, "the next message")
            h.reach("next")
