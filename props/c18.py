"""C18: message encryption."""
from props import http
from symx.api import obligation

from pypsrp.exceptions import WinRMError
from pypsrp.wsman import WSMan

AUTHS = ["basic", "certificate", "credssp", "kerberos", "negotiate", "ntlm"]
ENC = ("credssp", "kerberos", "negotiate", "ntlm")


def make(h, handler, auth="negotiate", ctx=None, **kw):
    ws = WSMan("server", username="u", password="p", auth=auth, **kw)
    t = ws.transport
    a = None
    if auth in ENC:
        a = (http.CredAuth if auth == "credssp" else http.NegoAuth)("server", ctx)
    t.session = http.Session(h, handler, a)
    return t


@obligation("C18", bounds="every authentication (and an unknown one), encryption setting (and an unknown one), HTTP and HTTPS; any message of up to 16 KiB, answered with any text of up to 64 KiB, encrypted or not")
def policy(h):
    """without TLS nothing readable is sent unless the user said never; with TLS messages are encrypted exactly when the user said always; combinations that cannot work are refused"""
    ssl = h.bool("ssl")
    ssl = True if ssl else False
    enc = h.pick("enc", ["auto", "always", "never", "Always", ""])
    auth = h.pick("auth", AUTHS + ["Negotiate", "digest", ""])
    wrap = (enc == "always") if ssl else (enc != "never")
    valid = enc in ("auto", "always", "never") and auth in AUTHS and not (wrap and auth not in ENC)
    ctx = http.Context(h, h.pick("header", ["negotiate", "kerberos", "ntlm"]) if valid and wrap and auth != "credssp" else "negotiate")
    msg, answer = h.blob("msg", 1, 16384), h.blob("answer", 0, 1 << 16)

    def handler(req, timeout):
        if http.blank(req):
            return http.Response(200, b"", None)
        if not wrap:
            return http.Response(200, answer)
        proto = "CREDSSP" if auth == "credssp" else ("KERBEROS" if ctx.response_auth_header == "kerberos" else "SPNEGO")
        hd, ct = ctx.seal(answer)
        body = http.part(proto, str(len(answer)), hd, ct) + b"--Encrypted Boundary--\r\n"
        return http.Response(200, body, 'multipart/encrypted;protocol="%s";boundary="Encrypted Boundary"' % http.MIME[proto])

    try:
        t = make(h, handler, auth, ctx, ssl=ssl, encryption=enc)
    except ValueError:
        h.check(not valid, "encryption=%s, auth=%s, ssl=%s is refused" % (enc, auth, ssl))
        h.reach("refused")
        return
    h.check(valid, "encryption=%s, auth=%s, ssl=%s is accepted" % (enc, auth, ssl))
    out = t.send(msg)
    h.check(out == answer, "the answer is not what the server sent")
    sent = [r for r, _ in t.session.sent]
    for r in sent:
        h.check(r.url == "%s://server:%d/wsman" % ("https" if ssl else "http", 5986 if ssl else 5985) and r.method == "POST", "URL")
    if not wrap:
        h.check(len(sent) == 1 and sent[0].body == msg, "the request is not the message")
        h.check(sent[0].headers["Content-Type"] == http.SOAP, "content type")
        h.reach("plain")
        return
    h.check(len(sent) == 2 and http.blank(sent[0]), "no security context is set up before the message is sent")
    h.check(len(ctx.wrapped) == 1 and ctx.wrapped[0][0] == msg, "what is encrypted is not the message")
    proto = "CREDSSP" if auth == "credssp" else ("KERBEROS" if ctx.response_auth_header == "kerberos" else "SPNEGO")
    _, hd, ct, pad = ctx.wrapped[0]
    want = http.part(proto, str(len(msg) + pad), hd, ct) + b"--Encrypted Boundary--\r\n"
    h.check(sent[1].body == want, "the encrypted request")
    h.check(sent[1].headers["Content-Type"] == 'multipart/encrypted;protocol="%s";boundary="Encrypted Boundary"' % http.MIME[proto], "content type")
    h.check(sent[1].headers["Content-Length"] == str(len(want)), "content length")
    h.reach("encrypted " + proto)


@obligation("C18", quick={"k": 3}, thorough={"k": 12}, bounds="CredSSP with any message of up to k times 16 KiB")
def credssp_chunks(h, k):
    """CredSSP encrypts a long message in parts of at most 16 KiB which together are the message, each with its own length"""
    ctx = http.Context(h)
    msg = h.blob("msg", 1, 16384 * k)

    def handler(req, timeout):
        return http.Response(200, b"" if http.blank(req) else b"ok", None)

    t = make(h, handler, "credssp", ctx, ssl=False)
    t.send(msg)
    req = t.session.sent[-1][0]
    want, plain = b"", b""
    for p, hd, ct, pad in ctx.wrapped:
        h.check(len(p) <= 16384, "a part is longer than 16 KiB")
        want = want + http.part("CREDSSP", str(len(p) + pad), hd, ct)
        plain = plain + p
    h.check(plain == msg, "the parts are not the message")
    h.check(req.body == want + b"--Encrypted Boundary--\r\n", "the encrypted request")
    multi = len(ctx.wrapped) > 1
    h.check(
        req.headers["Content-Type"] == '%s;protocol="%s";boundary="Encrypted Boundary"' % ("multipart/x-multi-encrypted" if multi else "multipart/encrypted", http.MIME["CREDSSP"]),
        "content type",
    )
    h.check(req.headers["Content-Length"] == str(len(req.body)), "content length")
    h.reach("multi" if multi else "single")


@obligation("C18", quick={"n": 2}, thorough={"n": 4}, bounds="an answer of 1 to n encrypted parts of any length, the delimiter with or without a space, its length announced rightly or not for one of them; success or an error status")
def unwrap(h, n):
    """an encrypted answer is decrypted part by part and joined in order; a part of another length than announced is an error"""
    ctx = http.Context(h)
    parts = []
    delim = h.pick("delim", ["--Encrypted Boundary", "-- Encrypted Boundary"])
    k = h.count("parts", 1, n)
    bad = h.int("bad", -1, n - 1)
    off = h.int("off", 0, 1 << 20)
    status = h.pick("status", [200, 500])

    def handler(req, timeout):
        if http.blank(req):
            return http.Response(200, b"", None)
        body = b""
        for i in range(k):
            p = h.blob("plain", 0, 1 << 16)
            parts.append(p)
            hd, ct = ctx.seal(p)
            length = len(p)
            if bad == i:
                h.assume(off != length)
                length = off
            body = body + http.part("CREDSSP" if n > 1 else "SPNEGO", str(length), hd, ct, delim)
        kind = "multipart/encrypted" if k == 1 else "multipart/x-multi-encrypted"
        return http.Response(status, body + (delim + "--\r\n").encode("ascii"), kind + ';protocol="%s";boundary="Encrypted Boundary"' % http.MIME["SPNEGO"])

    t = make(h, handler, "credssp", ctx, ssl=False)
    try:
        out = t.send(b"message")
    except WinRMError as e:
        from pypsrp.exceptions import WinRMTransportError

        if type(e) is WinRMTransportError:
            h.check(status == 500, "an error without reason")
            h.check(e.code == 500, "status")
            h.check(h.no(h.all(bad >= 0, bad < k)), "a wrong length is accepted")
            whole = b""
            for p in parts:
                whole = whole + p
            h.check(e.response_text == whole.decode("utf-8"), "the text of the error")
            h.reach("error status")
            return
        h.check(h.all(bad >= 0, bad < k), "a right length is refused")
        h.reach("wrong length")
        return
    h.check(status == 200, "an error status is taken for success")
    h.check(h.no(h.all(bad >= 0, bad < k)), "a wrong length is accepted")
    whole = b""
    for p in parts:
        whole = whole + p
    h.check(out == whole, "the parts are not joined in order")
    h.check(len(ctx.sealed) == 0, "a part was left out")
    h.reach("%d parts" % k)


BOUNDARIES = ["Encrypted Boundary", "a", "'()+_,-./:=?", "((", "a+b", "x.y", "a-b", "?0", "x)"]


@obligation("C18", bounds="nine delimiters with every character RFC 2046 allows; the parameters of the content type in either order, any length of answer")
def boundary(h):
    """the answer is decrypted whatever delimiter the server chose and in whatever order it gives the content type's parameters"""
    ctx = http.Context(h)
    b = h.pick("boundary", BOUNDARIES)
    plain = h.blob("plain", 0, 1 << 16)
    first = h.bool("boundary first")

    def handler(req, timeout):
        if http.blank(req):
            return http.Response(200, b"", None)
        hd, ct = ctx.seal(plain)
        body = http.part("SPNEGO", str(len(plain)), hd, ct, "--" + b) + ("--" + b + "--\r\n").encode("ascii")
        if first:
            ctype = 'multipart/encrypted;boundary="' + b + '";protocol="%s"' % http.MIME["SPNEGO"]
        else:
            ctype = 'multipart/encrypted;protocol="%s";boundary="' % http.MIME["SPNEGO"] + b + '"'
        return http.Response(200, body, ctype)

    t = make(h, handler, "negotiate", ctx, ssl=False)
    h.check(t.send(b"message") == plain, "the answer")
    h.reach("done")


@obligation("C18", quick={"n": 8}, thorough={"n": 40}, bounds="an answer of 1 to n encrypted parts of any content, 16 KiB each but for the first, which has any length up to that")
def unwrap_many(h, n):
    """a long answer is decrypted whole, however many parts it has"""
    ctx = http.Context(h)
    ctx.sig = h.pick("sig", ctx.SIGS)
    parts = []
    k = h.count("parts", 1, n)

    def handler(req, timeout):
        if http.blank(req):
            return http.Response(200, b"", None)
        body = b""
        for i in range(k):
            p = h.blob("plain", 1 if i == 0 else 1 << 14, 1 << 14)
            parts.append(p)
            hd, ct = ctx.seal(p)
            body = body + http.part("CREDSSP", str(len(p)), hd, ct)
        kind = "multipart/encrypted" if k == 1 else "multipart/x-multi-encrypted"
        return http.Response(200, body + b"--Encrypted Boundary--\r\n", kind + ';protocol="%s";boundary="Encrypted Boundary"' % http.MIME["CREDSSP"])

    t = make(h, handler, "credssp", ctx, ssl=False)
    out = t.send(b"message")
    whole = b""
    for p in parts:
        whole = whole + p
    h.check(out == whole, "the parts are not joined in order")
    h.check(len(ctx.sealed) == 0, "a part was left out")
    h.reach("parts")
