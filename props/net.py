"""A network below the real requests session: `Net` takes the place of
requests.adapters.HTTPAdapter.send and hands every request to a handler, so
that everything above it (pypsrp's transport, its authentication, the requests
session with its settings) is the real thing. The environment variables
requests looks at are those given to Net. Use as a context manager."""
import os
import sys

import requests
import requests.adapters
import requests.auth
import requests.models
import spnego
from requests.packages.urllib3.response import HTTPResponse
from requests.structures import CaseInsensitiveDict
from requests.utils import select_proxy

import pypsrp.wsman
from symx.native import plain

ENV = ["HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "NO_PROXY", "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NETRC", "HOME"]
ENV += [e.lower() for e in ENV if e.endswith("PROXY")]


class Raw(HTTPResponse):
    """What urllib3 gives for a response; only what authentication looks at."""

    def __init__(self, sock=None):
        self._fp = None
        self._original_response = None
        self.released = 0
        if sock is not None:
            self._fp = _Fp(sock)

    def release_conn(self):
        self.released += 1

    def close(self):
        pass

    def __del__(self):
        pass


class _Fp(object):
    def __init__(self, sock):
        self.fp = _FpFp(sock)


class _FpFp(object):
    def __init__(self, sock):
        self.raw = _FpRaw(sock)


class _FpRaw(object):
    def __init__(self, sock):
        self._sock = sock


class Plain(object):
    """The socket of a connection without TLS."""


class Tls(object):
    def __init__(self, cert):
        self.cert = cert

    def getpeercert(self, binary=False):
        return self.cert


class Answer(requests.Response):
    """A response; its text is given where the decoding is not of interest."""

    def __init__(self, status, content=b"", headers=None, text=None, sock=None):
        requests.Response.__init__(self)
        self.status_code = status
        self._content = content
        self._content_consumed = True
        self.headers = CaseInsensitiveDict(headers or {})
        self._txt = text
        self.raw = Raw(sock)

    @property
    def text(self):
        return requests.Response.text.fget(self) if self._txt is None else self._txt


class Sent(object):
    """One request as it went out."""

    def __init__(self, adapter, request, timeout, verify, cert, proxies):
        self.adapter, self.request, self.timeout, self.verify, self.cert = adapter, request, timeout, verify, cert
        self.proxy = select_proxy(request.url, proxies)
        self.proxies = proxies

    @property
    def headers(self):
        return self.request.headers

    @property
    def body(self):
        return self.request.body


class Basic(object):
    """The value of the Authorization header made of a user name and a password."""

    def __init__(self, username, password):
        self.username, self.password = username, password


class patched(object):
    """Puts `new` in the place of module.name, also where pypsrp imported it by name."""

    def __init__(self, module, name, new):
        self.module, self.name, self.new = module, name, new

    def __enter__(self):
        self.old = getattr(self.module, self.name)
        self.where = [(self.module, self.name)]
        for m in list(sys.modules):
            if m == "pypsrp" or m.startswith("pypsrp."):
                mod = sys.modules[m]
                self.where += [(mod, k) for k, v in list(vars(mod).items()) if v is self.old and mod is not self.module]
        for m, k in self.where:
            setattr(m, k, self.new)
        return self

    def __exit__(self, *a):
        for m, k in self.where:
            setattr(m, k, self.old)
        return False


class Net(object):
    def __init__(self, h, handler, env=None, client=None):
        self.h = h
        self.handler = handler
        self.env = env or {}
        self.client = client
        self.sent = []

    def __enter__(self):
        net = self
        self.saved = {k: os.environ.get(k) for k in ENV}
        for k in ENV:
            os.environ.pop(k, None)
        os.environ["HOME"] = "/nonexistent"
        os.environ.update(self.env)

        def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            s = Sent(self, request, timeout, verify, cert, proxies)
            net.sent.append(s)
            r = net.handler(s)
            r.request, r.url, r.connection = request, request.url, self
            return r

        def client(*a, **k):
            return net.client(*a, **k)

        def basic(username, password):
            return Basic(username, password)

        def valid(header):
            if plain(header[0]) and plain(header[1]):
                return self.old[2](header)

        def size(o):
            return self.old[3](o) if plain(o) else 1

        self.old = (requests.adapters.HTTPAdapter.send, requests.auth._basic_auth_str, requests.models.check_header_validity, requests.models.super_len)
        requests.models.check_header_validity = valid
        requests.models.super_len = size
        requests.adapters.HTTPAdapter.send = send
        requests.auth._basic_auth_str = basic
        self.spnego = patched(spnego, "client", client)
        if self.client is not None:
            self.spnego.__enter__()
        return self

    def __exit__(self, *a):
        requests.adapters.HTTPAdapter.send, requests.auth._basic_auth_str, requests.models.check_header_validity, requests.models.super_len = self.old
        if self.client is not None:
            self.spnego.__exit__()
        for k, v in self.saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        return False


def ok(sent):
    return Answer(200, b"<a/>", {"content-type": "application/soap+xml;charset=UTF-8"}, "<a/>")
