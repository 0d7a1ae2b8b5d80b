"""A stand-in for the requests session below the real HTTP transport.

`transport(h, ws, server)` gives a real `_TransportHTTP` a session whose
`send` calls `server.http(request)`; message encryption runs through a context
whose wrap_winrm / unwrap_winrm are inert opaque data (see Context)."""
import requests

from pypsrp.wsman import HttpCredSSPAuth

SOAP = "application/soap+xml;charset=UTF-8"


class Prepared(object):
    def __init__(self, method, url, headers, body):
        self.method, self.url, self.headers, self.body = method, url, headers, body


class Response(object):
    def __init__(self, status, content=b"", content_type=SOAP, text=None):
        self.status_code = status
        self.content = content
        self.headers = {}
        if content_type is not None:
            self.headers["content-type"] = content_type
        self._text = text
        self.request = None

    @property
    def text(self):
        return self.content.decode("utf-8") if self._text is None else self._text

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError("status", response=self)


class Context(object):
    """Message encryption of one security context: a table of what was wrapped."""

    complete = True
    SIGS = (16, 60, 70000)

    def __init__(self, h, response_auth_header="negotiate"):
        self.h = h
        self.response_auth_header = response_auth_header
        self.wrapped = []  # (plaintext, header, ciphertext, padding) sent
        self.sig = None  # a fixed length for what is received
        self.sealed = []  # (plaintext, header, ciphertext) received

    def wrap_winrm(self, message):
        h = self.h
        n = h.pick("sig", self.SIGS)
        hd, ct = h.blob("sig", n, n), h.blob("sealed", 1, 1 << 20)
        pad = h.int("pad", 0, 16)
        self.wrapped.append((message, hd, ct, pad))
        return hd, ct, pad

    def seal(self, plain):
        n = self.sig if self.sig is not None else self.h.pick("sig", self.SIGS)
        hd, ct = self.h.blob("sig", n, n), self.h.blob("sealed", 1, 1 << 20)
        self.sealed.append((plain, hd, ct))
        return hd, ct

    def unwrap_winrm(self, header, data):
        """Succeeds only for exactly what was sealed, in order."""
        self.h.check(len(self.sealed) > 0, "unwraps more than was received")
        plain, hd, ct = self.sealed.pop(0)
        self.h.check(header == hd, "unwraps with another signature than was received")
        self.h.check(data == ct, "unwraps other data than was received")
        return plain


class NegoAuth(object):
    def __init__(self, hostname, context):
        self.contexts = {hostname: context}


class CredAuth(HttpCredSSPAuth):
    def __init__(self, hostname, context):
        self.contexts = {hostname: context}


class Session(object):
    """The surface of requests.Session the transport uses."""

    def __init__(self, h, handler, auth=None):
        self.h = h
        self.headers = {"User-Agent": "Python PSRP Client", "Accept-Encoding": "identity"}
        self.auth = auth
        self.handler = handler
        self.sent = []  # (Prepared, timeout)
        self.closed = 0

    def prepare_request(self, request):
        hd = dict(self.headers)
        hd.update(request.headers or {})
        return Prepared(request.method, request.url, hd, request.data)

    def send(self, request, timeout=None):
        self.sent.append((request, timeout))
        return self.handler(request, timeout)

    def close(self):
        self.closed += 1


def blank(request):
    """A request without content (made for authentication only)."""
    return request.body is None or (isinstance(request.body, (bytes, str, list, dict)) and len(request.body) == 0)


MIME = {
    "SPNEGO": "application/HTTP-SPNEGO-session-encrypted",
    "CREDSSP": "application/HTTP-CredSSP-session-encrypted",
    "KERBEROS": "application/HTTP-Kerberos-session-encrypted",
}


def part(proto, length, header, data, boundary="--Encrypted Boundary"):
    """One encrypted part as MS-WSMV 2.2.9.1 lays it out."""
    t = "%s\r\n\tContent-Type: %s\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%s\r\n%s\r\n\tContent-Type: application/octet-stream\r\n" % (
        boundary,
        MIME[proto],
        length,
        boundary,
    )
    return t.encode("ascii") + len(header).to_bytes(4, "little") + header + data
