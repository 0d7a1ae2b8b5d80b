"""C20: what becomes of a response."""
import xml.etree.ElementTree as ET

from props import http, peer
from symx.api import obligation

from pypsrp.exceptions import AuthenticationError, WinRMError, WinRMTransportError, WSManFaultError
from pypsrp.wsman import WSMan

S, F = peer.S, peer.FAULT


def connect(h, handler):
    ws = WSMan("server", username="u", password="p", auth="basic")
    ws.transport.session = http.Session(h, handler)
    return ws


def message_id(req):
    return ET.fromstring(req.body).find(S + "Header/" + peer.WSA + "MessageID").text


METHODS = ["command", "connect", "create", "delete", "disconnect", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]


@obligation("C20", quick={"n": 3}, thorough={"n": 8}, bounds="every WSMan operation; the response relates to the request, to nothing, to any text of n characters or to any other UUID; any content")
def related(h, n):
    """the body of a response is returned exactly when the response says it belongs to this request"""
    m = h.pick("method", METHODS)
    kind = h.pick("relation", ["own", "none", "other", "text", "empty", "bare"])
    answer = h.text("answer", 0, 4096)
    other = h.chars("other", n, 33, 126)
    ws = connect(h, None)

    def handler(req, timeout):
        own = message_id(req)
        rel = {"own": own, "none": None, "other": "uuid:12345678-9ABC-4DEF-8012-3456789ABCDE", "text": "uuid:" + other, "empty": "", "bare": own[5:]}[kind]
        if kind == "other":
            h.assume(rel != own)
        e = ET.Element("answer")
        e.text = answer
        return http.Response(200, peer.envelope(rel, e))

    ws.transport.session.handler = handler
    try:
        body = getattr(ws, m)("uri", ET.Element("a"))
    except WinRMError as e:
        h.check(type(e) is WinRMError and kind != "own", "the response to the request is refused")
        h.reach("refused")
        return
    h.check(kind == "own", "a response to something else is accepted")
    h.check(body.tag == S + "Body" and len(body) == 1 and body[0].tag == "answer", "body")
    h.check((body[0].text or "") == answer, "content")
    h.reach("accepted")


def text(h, name):
    """Text with white space around it, or none."""
    k = h.pick(name, ["none", "text", "blank"])
    if k == "none":
        return None, None
    if k == "blank":
        return " \n", None
    t = h.text(name + " text", 1, 4096)
    return "\n " + t + "\t", t


@obligation("C20", bounds="a fault with and without code, subcode, reason, detail, message and provider fault; any 32 bit code or a text; any texts, surrounded by white space; status 500 or another error status")
def faults(h):
    """a fault reaches the caller with the code, machine, reason and provider details the server gave, the details of the WSMan fault before those of the SOAP fault"""
    f = ET.Element(S + "Fault")
    want_code = want_machine = want_reason = None
    provider = path = provider_text = None
    if h.pick("code element", [True, False]):
        c = ET.SubElement(f, S + "Code")
        ET.SubElement(c, S + "Value").text = "s:Receiver"
        want_code = "s:Receiver"
        if h.pick("subcode", [True, False]):
            sc = ET.SubElement(c, S + "Subcode")
            want_code = "w:" + h.text("subcode", 1, 64)
            ET.SubElement(sc, S + "Value").text = want_code
    reason = h.pick("reason element", [True, False])
    if reason:
        r = ET.SubElement(f, S + "Reason")
        raw, want_reason = text(h, "reason")
        ET.SubElement(r, S + "Text").text = raw
    detail = h.pick("detail", ["none", "empty", "fault", "message", "provider"])
    if detail != "none":
        d = ET.SubElement(f, S + "Detail")
        if detail != "empty":
            w = ET.SubElement(d, F + "WSManFault")
            ck = h.pick("code", ["number", "text", "none"])
            if ck == "number":
                n = h.int("number", 0, 2**32 - 1)
                w.attrib["Code"] = str(n)
                want_code = n
            elif ck == "text":
                want_code = "w:" + h.text("code", 1, 64)
                w.attrib["Code"] = want_code
            if h.pick("machine", [True, False]):
                want_machine = h.text("machine", 1, 255)
                w.attrib["Machine"] = want_machine
            if detail != "fault":
                msg = ET.SubElement(w, F + "Message")
                if detail == "message":
                    raw, t = text(h, "message")
                    msg.text = raw
                    if raw is not None:
                        want_reason = t
                else:
                    provider, path = h.pick("provider given", [None, h.text("provider", 1, 64)]), h.pick("path given", [None, h.text("path", 1, 255)])
                    raw, provider_text = text(h, "provider text")
                    p = ET.SubElement(msg, F + "ProviderFault")
                    if provider is not None:
                        p.attrib["provider"] = provider
                    if path is not None:
                        p.attrib["path"] = path
                    p.text = raw
    status = h.int("status", 402, 599)
    ws = connect(h, lambda req, timeout: http.Response(status, peer.envelope(message_id(req), f)))
    try:
        ws.get("uri")
    except WSManFaultError as e:
        h.check(type(e.code) is type(want_code) or not isinstance(want_code, int), "type of the code")
        for name, got, want in (
            ("code", e.code, want_code),
            ("machine", e.machine, want_machine),
            ("reason", e.reason, want_reason),
            ("provider", e.provider, provider),
            ("path", e.provider_path, path),
            ("provider fault", e.provider_fault, provider_text),
        ):
            if want is None:
                h.check(got is None or got == "", "%s of the fault invented" % name)
            else:
                h.check(got is not None, "%s of the fault lost" % name)
                h.check(got == want, "%s of the fault" % name)
        str(e)
        h.reach(detail)
    else:
        h.fail("a fault is not reported")


@obligation("C20", bounds="every status from 400 to 599 with no content, any content that is no XML, XML that is no SOAP fault, or a fault")
def errors(h):
    """401 is an authentication error, every other error without a fault the transport error with its status and content"""
    status = h.int("status", 400, 599)
    kind = h.pick("content", ["empty", "text", "html", "envelope", "fault"])
    t = h.text("text", 1, 4096)
    if kind == "empty":
        body = b""
    elif kind == "text":
        body = t.encode("utf-8")
    elif kind == "html":
        e = ET.Element("html")
        e.text = t
        body = ET.tostring(e, encoding="utf-8", method="xml")
    elif kind == "envelope":
        body = peer.envelope("uuid:1", ET.Element("a"))
    else:
        body = peer.fault_envelope("uuid:1", "5", t)
    ws = connect(h, lambda req, timeout: http.Response(status, body))
    try:
        ws.get("uri")
    except AuthenticationError:
        h.check(status == 401, "not an authentication error")
        h.reach("401")
    except WSManFaultError as e:
        h.check(kind == "fault" and status != 401, "a fault is made up for an error response without one")
        h.check(e.code == 5 and e.reason == t, "fault")
        h.reach("fault")
    except WinRMTransportError as e:
        h.check(status != 401, "401 is not an authentication error")
        h.check(kind != "fault", "the fault is lost")
        h.check(e.code == status and e.protocol == "http", "status")
        h.check(e.response_text == body.decode("utf-8"), "content")
        str(e)
        h.reach("transport " + kind)
    else:
        h.fail("an error status is not reported")
