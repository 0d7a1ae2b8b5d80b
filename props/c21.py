"""C21: the WSMan requests."""
import xml.etree.ElementTree as ET

from props import http, lib, peer
from symx.api import obligation

from pypsrp.wsman import OptionSet, SelectorSet, WSMan

S, WSA, WSMAN, WSMV, XMLNS = peer.S, peer.WSA, peer.WSMAN, peer.WSMV, peer.XMLNS
SHELL = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/"
TRANSFER = "http://schemas.xmlsoap.org/ws/2004/09/transfer/"
ENUM = "http://schemas.xmlsoap.org/ws/2004/09/enumeration/"
ACTION = {
    "command": SHELL + "Command",
    "connect": SHELL + "Connect",
    "create": TRANSFER + "Create",
    "delete": TRANSFER + "Delete",
    "disconnect": SHELL + "Disconnect",
    "enumerate": ENUM + "Enumerate",
    "get": TRANSFER + "Get",
    "pull": ENUM + "Pull",
    "put": TRANSFER + "Put",
    "receive": SHELL + "Receive",
    "reconnect": SHELL + "Reconnect",
    "send": SHELL + "Send",
    "signal": SHELL + "Signal",
}
ANON = "http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous"


def one(h, header, tag, must=None):
    els = [e for e in header if e.tag == tag]
    h.check(len(els) == 1, "header %s: %d times" % (tag.split("}")[1], len(els)))
    e = els[0]
    got = e.attrib.get(S + "mustUnderstand")
    h.check(got == must, "mustUnderstand of %s" % tag.split("}")[1])
    return e


def rest(e):
    return {k: v for k, v in e.attrib.items() if k != S + "mustUnderstand"}


@obligation(
    "C21",
    quick=[{"n": 2, "method": "send"}, {"n": 1, "method": None}],
    thorough=[{"n": 4, "method": "get"}, {"n": 2, "method": None}],
    bounds="every WSMan operation with or without content, n options with attributes (one name repeated) and n selectors of any names and values, any locale and data locale, resource URI, operation timeout (own or of the connection) and envelope size; two requests in a row",
)
def header(h, n, method):
    """a request carries its action, resource, message id, session, locales, sizes, timeout, options, selectors and content, once each and exactly as given"""
    m = method or h.pick("method", sorted(ACTION))
    few = method is None and n == 1
    env, to = h.int("envelope", 8192, 1 << 24), h.int("operation timeout", 1, 86400)
    kw = {}
    loc = dloc = "en-US"
    lk = "both" if few else h.pick("locales", ["default", "locale", "both"])
    if lk != "default":
        loc = dloc = kw["locale"] = h.text("locale", 2, 20)
    if lk == "both":
        dloc = kw["data_locale"] = h.text("data locale", 2, 20)
    seen = []
    ws = WSMan("server", username="u", password="p", auth="basic", max_envelope_size=env, operation_timeout=to, **kw)

    def handler(req, timeout):
        seen.append((req, timeout))
        e = ET.fromstring(req.body)
        return http.Response(200, peer.envelope(e.find(S + "Header/" + WSA + "MessageID").text, None))

    ws.transport.session = http.Session(h, handler)
    own = True if few else h.pick("own timeout", [False, True])
    t = h.int("timeout", 1, 86400) if own else None
    uri = h.text("uri", 1, 200)
    opts = sels = None
    want_opts, want_sels = [], []
    if h.pick("options", [True, False]):
        opts = OptionSet()
        again = n > 1 and h.pick("an option given twice", [False, True])
        for i in range(n):
            a, b = "o%d" % i + lib.odd(h, "option", 1, 64), lib.odd(h, "option value", 0, 200) if i else h.text("option value", 0, 200)
            if again and i == n - 1:
                a = want_opts[0][0]
            at = {"MustComply": lib.odd(h, "attribute", 1, 10)} if i % 2 == 0 else None
            opts.add_option(a, b, at) if at else opts.add_option(a, b)
            want_opts.append((a, b, at or {}))
    if h.pick("selectors", [True, False]):
        sels = SelectorSet()
        for i in range(n):
            a, b = "s%d" % i + lib.odd(h, "selector", 1, 64), lib.odd(h, "selector value", 0, 200)
            sels.add_option(a, b)
            want_sels.append((a, b, {}))
    content = lib.odd(h, "content", 1, 4096)
    res = ET.Element("{ns}Res", {"a": content})
    res.text = content
    fn = getattr(ws, m)
    for _ in range(2):
        fn(uri, res, option_set=opts, selector_set=sels, timeout=t)
    h.check(len(seen) == 2, "requests")
    ids, sessions = [], []
    for req, timeout in seen:
        e = ET.fromstring(req.body)
        h.check(e.tag == S + "Envelope" and [c.tag for c in e] == [S + "Header", S + "Body"], "envelope")
        hd = e[0]
        h.check(one(h, hd, WSA + "Action", "true").text == ACTION[m], "action")
        h.check(one(h, hd, WSMAN + "ResourceURI", "true").text == uri, "resource")
        h.check(one(h, hd, WSMAN + "MaxEnvelopeSize", "true").text == str(env), "envelope size")
        h.check(one(h, hd, WSMAN + "OperationTimeout").text == "PT%sS" % (t if own else to), "operation timeout")
        h.check(rest(one(h, hd, WSMAN + "Locale", "false")).get(XMLNS + "lang") == loc, "locale")
        h.check(rest(one(h, hd, WSMV + "DataLocale", "false")).get(XMLNS + "lang") == dloc, "data locale")
        sessions.append(one(h, hd, WSMV + "SessionId", "false").text)
        ids.append(one(h, hd, WSA + "MessageID").text)
        h.check(one(h, hd, WSA + "To").text == "https://server:5986/wsman", "address")
        reply = one(h, hd, WSA + "ReplyTo")
        h.check(len(reply) == 1 and reply[0].tag == WSA + "Address" and reply[0].text == ANON, "reply address")
        for tag, child, must, want in ((WSMAN + "OptionSet", WSMAN + "Option", "true", want_opts), (WSMAN + "SelectorSet", WSMAN + "Selector", None, want_sels)):
            if not want:
                h.check(all(c.tag != tag for c in hd), "empty set sent")
                continue
            st = one(h, hd, tag, must)
            h.check(len(st) == len(want), "size of %s" % tag)
            for c, (a, b, at) in zip(st, want):
                h.check(c.tag == child and c.attrib["Name"] == a and (c.text or "") == b, "%s: entry" % child)
                h.check(len(c.attrib) == 1 + len(at), "attributes")
                for k, v in at.items():
                    h.check(c.attrib[k] == v, "attribute")
        h.check(len(e[1]) == 1, "body")
        r = e[1][0]
        h.check(r.tag == "{ns}Res" and (r.text or "") == content and r.attrib["a"] == content, "content")
    h.check(ids[0] != ids[1], "a message id is used twice")
    h.check(sessions[0] == sessions[1], "session id")
    for i in ids + sessions:
        h.check(i[:5] == "uuid:" and len(i) == 41, "form of an id")
    h.reach(m)
