"""C26: how the server is reached."""
import requests

from props import lib, net, peer
from symx.api import obligation

import pypsrp.wsman
from pypsrp.client import Client
from pypsrp.wsman import WSMan

ENC = ("credssp", "kerberos", "negotiate", "ntlm")


def wsman(h, server, **kw):
    """A connection, made with WSMan or with Client."""
    if h.bool("Client"):
        return Client(server, **kw).wsman
    return WSMan(server, **kw)


def some(h, **kw):
    """Some of the settings: those which are not None."""
    return {k: v for k, v in kw.items() if v is not None}


IP6 = [("::1", "[::1]"), ("fe80::1", "[fe80::1]"), ("2001:db8:0:0:0:0:0:1", "[2001:db8::1]"), ("::ffff:10.0.0.1", "[::ffff:a00:1]"), ("FE80::A", "[fe80::a]"), ("10.0.0.1", "10.0.0.1"), ("a:b", "a:b"), ("1:2:3:4:5:6:7", "1:2:3:4:5:6:7")]


@obligation("C26", bounds="any server name, several spellings of IPv4 and IPv6 addresses, any port of 0 to 65535 or none, any path or none, with and without TLS")
def endpoint(h):
    """the endpoint consists of the scheme, the server, the port and the path given; an IPv6 address is put into brackets, and where no port is given it is the one of WinRM"""
    addr, want = h.pick("address", [(None, None)] + IP6)
    if addr is None:
        addr = want = h.text("server", 1, 255)
    port = h.pick("port given", [None, h.int("port", 0, 65535)])
    path = h.pick("path given", [None, h.text("path", 0, 1000)])
    ssl = h.pick("ssl", [None, False, True])
    ws = wsman(h, addr, **some(h, port=port, path=path, ssl=ssl, auth="negotiate"))
    tls = ssl is not False
    if port is None:
        port = 5986 if tls else 5985
    url = "%s://%s:%d/%s" % ("https" if tls else "http", want, port, "wsman" if path is None else path)
    h.reach("https" if tls else "http")
    h.check(ws.transport.endpoint == url, "the endpoint")


PROXY_ENV = [
    {},
    {"HTTP_PROXY": "http://p1:1"},
    {"HTTPS_PROXY": "http://p2:2"},
    {"http_proxy": "http://p1:1", "https_proxy": "http://p2:2"},
    {"ALL_PROXY": "http://p3:3"},
    {"HTTP_PROXY": "http://p1:1", "HTTPS_PROXY": "http://p2:2", "NO_PROXY": "localhost,server.dom"},
    {"HTTP_PROXY": "http://p1:1", "HTTPS_PROXY": "http://p2:2", "NO_PROXY": "other"},
]


@obligation("C26", bounds="any proxy or none, no_proxy set or not, seven sets of environment variables (with exceptions for the host or not), with and without TLS; two messages")
def proxy(h):
    """the request goes to the proxy given; without one, and unless no_proxy is set, to the one the environment names for the scheme and host; else directly"""
    env = h.pick("env", PROXY_ENV)
    ssl = True if h.bool("ssl") else False
    given = h.pick("proxy given", [None, lib.odd(h, "proxy", 1, 255)])
    no_proxy = h.pick("no_proxy", [None, False, True])
    with net.Net(h, net.ok, env) as n:
        t = wsman(h, "server.dom", auth="basic", username="u", password="p", encryption="auto" if ssl else "never", **some(h, ssl=ssl, proxy=given, no_proxy=no_proxy)).transport
        for _ in range(2):
            t.send(b"message")
    h.check(len(n.sent) == 2, "requests")
    low = {k.lower(): v for k, v in env.items()}
    if given is not None:
        want = given
    elif no_proxy or "server.dom" in low.get("no_proxy", ""):
        want = None
    else:
        want = low.get("https_proxy" if ssl else "http_proxy") or low.get("all_proxy")
    h.reach("proxy" if want is not None else "direct")
    for s in n.sent:
        if want is None:
            h.check(not s.proxy, "a proxy is used")
        else:
            h.check(s.proxy == want, "the proxy used")


@obligation("C26", bounds="server certificates not validated, validated, or validated against any file, with any of the environment variables that name one; HTTP(S); any password, any files and key password of the client certificate")
def tls(h):
    """the certificate of the server is validated exactly as asked: never left out unless asked to, against the file given, else against the one the environment names; a client certificate, its key and the key's password are used as given, and only then is the server told that there is one"""
    env = h.pick("env", [{}, {"REQUESTS_CA_BUNDLE": "/bundle1"}, {"CURL_CA_BUNDLE": "/bundle2"}, {"REQUESTS_CA_BUNDLE": "/bundle1", "CURL_CA_BUNDLE": "/bundle2"}])
    cv = h.pick("cert_validation", [None, True, False, lib.odd(h, "file", 1, 255)])
    cert = h.pick("auth", ["basic", "certificate"])
    pw = h.pick("key password", [None, lib.odd(h, "keypw", 0, 255)])
    pem, key = lib.odd(h, "pem", 1, 255), lib.odd(h, "key", 1, 255)
    kw = some(h, cert_validation=cv, certificate_key_password=pw)
    if cert == "certificate":
        kw.update(certificate_pem=pem, certificate_key_pem=key)
    else:
        kw.update(username="u", password="p")
    with net.Net(h, net.ok, env) as n:
        t = wsman(h, "server", auth=cert, **kw).transport
        for _ in range(2):
            t.send(b"message")
    h.check(len(n.sent) == 2, "requests")
    for s in n.sent:
        if cv is False:
            h.check(s.verify is False, "the certificate is validated although it must not be")
            h.reach("not validated")
        elif cv is None or cv is True:
            h.check(s.verify is not False and s.verify is not None, "the certificate is not validated")
            want = env.get("REQUESTS_CA_BUNDLE") or env.get("CURL_CA_BUNDLE") or True
            h.check(s.verify == want, "the certificates trusted")
            h.reach("validated")
        else:
            h.check(s.verify is not False and s.verify is not None and s.verify is not True, "the file of trusted certificates is not used")
            h.check(s.verify == cv, "the file of trusted certificates")
            h.reach("validated against a file")
        auth = s.headers.get("Authorization")
        if cert == "certificate":
            h.check(isinstance(s.cert, tuple) and len(s.cert) == 2, "no client certificate")
            h.check(s.cert[0] == pem, "the client certificate")
            h.check(s.cert[1] == key, "the key of the client certificate")
            h.check(auth == "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual", "the server is not told about the certificate")
            kp = s.adapter.poolmanager.connection_pool_kw.get("key_password")
            if pw is None:
                h.check(kp is None, "a key password")
            else:
                h.check(kp is not None, "the key password is lost")
                h.check(kp == pw, "the key password")
        else:
            h.check(s.cert is None, "a client certificate")
            h.check(type(auth) is net.Basic, "no basic authentication")


@obligation("C26", bounds="basic, certificate and CredSSP authentication; any user name and password, either missing; certificate files missing; with and without TLS; encryption as allowed")
def credentials(h):
    """basic authentication sends the user name and password given; what is needed and missing is an error of the caller and nothing is sent, neither at first nor when it is tried again"""
    auth = h.pick("auth", ["basic", "certificate", "credssp"])
    ssl = True if h.bool("ssl") else False
    user = h.pick("user given", [None, lib.odd(h, "user", 0, 255)])
    pw = h.pick("password given", [None, lib.odd(h, "password", 0, 255)])
    pem = h.pick("pem given", [None, lib.odd(h, "pem", 1, 255)]) if auth == "certificate" else None
    key = h.pick("key given", [None, lib.odd(h, "key", 1, 255)]) if auth == "certificate" else None
    port = h.pick("port given", [None, 443]) if auth == "certificate" else None
    made = []

    class Cred(pypsrp.wsman.HttpCredSSPAuth):
        def __init__(self, username=None, password=None, **kw):
            self.username, self.password = username, password
            made.append(kw)

        def __call__(self, r):
            return r

    with net.patched(pypsrp.wsman, "HttpCredSSPAuth", Cred):
        with net.Net(h, net.ok) as n:
            t = wsman(h, "server", encryption="auto" if ssl else "never", **some(h, auth=auth, ssl=ssl, port=port, username=user, password=pw, certificate_pem=pem, certificate_key_pem=key)).transport
            valid = user is not None and pw is not None
            if auth == "certificate":
                valid = pem is not None and key is not None and ssl
            for _ in range(2):
                try:
                    t.send(b"message")
                except ValueError:
                    h.check(not valid, "refused although everything needed was given")
                    h.reach("refused")
                else:
                    h.check(valid, "accepted although something needed is missing")
    if not valid:
        h.check(not n.sent, "something is sent")
        return
    h.check(len(n.sent) == 2, "requests")
    for s in n.sent:
        h.check(s.headers["User-Agent"] == "Python PSRP Client", "the user agent")
        h.check(s.headers["Accept-Encoding"] == "identity", "the server may compress its answers")
        h.check(s.headers["Content-Type"] == "application/soap+xml;charset=UTF-8", "content type")
        h.check(s.body == b"message" and s.request.method == "POST", "the request")
        a = s.headers.get("Authorization")
        if auth == "basic":
            h.check(type(a) is net.Basic, "no basic authentication")
            h.check(a.username == user, "the user name")
            h.check(a.password == pw, "the password")
            h.reach("basic")
        if auth == "credssp":
            h.check(len(made) == 1 and type(t.session.auth) is Cred, "no CredSSP authentication")
            h.check(t.session.auth.username == user, "the user name")
            h.check(t.session.auth.password == pw, "the password")
            h.check(made[0] == {}, "settings for CredSSP which were not given")
            h.reach("credssp")


@obligation("C26", bounds="each setting of CredSSP missing or any value")
def credssp(h):
    """the settings for CredSSP reach it as given"""
    mech = h.pick("mechanism given", [None, lib.odd(h, "mechanism", 0, 20)])
    tls12 = h.pick("disable_tlsv1_2", [None, False, True])
    low = h.pick("minimum given", [None, h.int("minimum", 0, 10)])
    made = []

    class Cred(pypsrp.wsman.HttpCredSSPAuth):
        def __init__(self, username=None, password=None, **kw):
            made.append(kw)

        def __call__(self, r):
            return r

    with net.patched(pypsrp.wsman, "HttpCredSSPAuth", Cred):
        with net.Net(h, net.ok) as n:
            t = wsman(h, "server", auth="credssp", username="u", password="p", **some(h, credssp_auth_mechanism=mech, credssp_disable_tlsv1_2=tls12, credssp_minimum_version=low)).transport
            t.send(b"message")
    h.reach("made")
    h.check(len(made) == 1, "CredSSP is set up %d times" % len(made))
    want = some(h, auth_mechanism=mech, disable_tlsv1_2=tls12, minimum_version=low)
    # the defaults may be passed as well
    default = {"auth_mechanism": "auto", "disable_tlsv1_2": False, "minimum_version": 2}
    for k in default:
        if k in want:
            h.check(k in made[0], "%s is not passed on" % k)
            h.check(made[0][k] == want[k], "%s is changed" % k)
        else:
            h.check(k not in made[0] or made[0][k] == default[k], "%s is made up" % k)
    h.check(not [k for k in made[0] if k not in default], "unknown settings")


@obligation("C26", quick={"n": 3}, thorough={"n": 6}, bounds="retries of 0 to n; any sequence of connections failing; backoff of 0 to 100; with and without TLS")
def retries(h, n):
    """the HTTP library tries a failed connection again as often as configured and no further, and never sends a request again that may have arrived"""
    from requests.packages.urllib3.exceptions import MaxRetryError, NewConnectionError, ProtocolError, ReadTimeoutError

    ssl = True if h.bool("ssl") else False
    r = h.pick("retries given", [None, h.int("retries", 0, n)])
    back = h.pick("backoff given", [None, h.int("backoff", 0, 100)])
    with net.Net(h, net.ok) as w:
        t = wsman(h, "server", auth="basic", username="u", password="p", encryption="auto" if ssl else "never", ssl=ssl, **some(h, reconnection_retries=r, reconnection_backoff=back)).transport
        t.send(b"message")
    retry = w.sent[0].adapter.max_retries
    h.reach("sent")
    h.check(retry.backoff_factor == (2.0 if back is None else back), "the backoff")
    allowed = 0 if r is None else r
    tries = 0
    cur = retry
    while tries <= n:
        try:
            cur = cur.increment("POST", "/wsman", error=NewConnectionError(None, "refused"))
        except MaxRetryError:
            break
        tries += 1
    h.check(tries == allowed, "a connection is tried again %d times" % tries)
    for e in (ReadTimeoutError(None, "/wsman", "timeout"), ProtocolError("reset")):
        try:
            retry.increment("POST", "/wsman", error=e)
        except Exception:
            continue
        h.fail("a request that may have arrived is sent again")


@obligation("C26", bounds="with Client and WSMan, used in a with block or closed by hand, zero to three requests, all answered or one failing, an error raised in the block or not, with and without TLS")
def closing(h):
    """all requests of a connection go through one session, which is closed when the caller closes the connection or leaves the with block, whatever happened; nothing is sent to close it, and closing what was never used neither fails nor connects"""
    kind = h.pick("kind", [Client, WSMan])
    ssl = h.bool("ssl")
    n = h.count("requests", 0, 3)
    bad = h.count("failing", 0, n)
    raises = h.bool("error in the block")
    block = h.bool("with block")

    def handler(sent):
        if bad and len(nt.sent) == bad:
            raise requests.exceptions.ConnectionError("broken")
        return net.ok(sent)

    closed = []
    real = requests.adapters.HTTPAdapter.close
    requests.adapters.HTTPAdapter.close = lambda self: closed.append(self)
    try:
        with net.Net(h, handler) as nt:
            kw = {} if ssl else {"encryption": "never"}
            conn = kind("server", ssl=ssl, auth="basic", username="u", password="p", **kw)

            def use():
                ws = conn.wsman if kind is Client else conn
                for i in range(n):
                    try:
                        ws.transport.send(b"<x/>")
                        h.check(i + 1 != bad, "a request that failed is taken for a success")
                    except requests.exceptions.ConnectionError:
                        h.check(i + 1 == bad, "a request failed for no reason")
                if raises:
                    raise KeyError("caller")

            try:
                if block:
                    with conn as c:
                        h.check(c is conn, "the with block does not give the connection")
                        use()
                else:
                    try:
                        use()
                    finally:
                        conn.close()
                h.check(not raises, "the caller's error was swallowed")
            except KeyError:
                h.check(raises, "an unexpected error")
            used = [s.adapter for s in nt.sent]
    finally:
        requests.adapters.HTTPAdapter.close = real
    h.reach("used" if n else "unused")
    h.check(len(nt.sent) == n, "closing sent a request, or a request was not sent once")
    h.check(all(a is used[0] for a in used), "requests of one connection are not sent through one session")
    h.check(all(any(a is c for c in closed) for a in used), "the connection is left open")
