"""A reference WSMan / PSRP server that stands in for the HTTP transport.

`Peer.send` is what `WSMan.invoke` calls with the serialised envelope.  It
parses the envelope, checks what every request must satisfy, hands the body to
`handle_<Action>` and returns a serialised response.  Written from MS-WSMV and
MS-PSRP, not from the code under test.  Runs symbolically and concretely."""
import base64
import xml.etree.ElementTree as ET

from props import lib

S = "{http://www.w3.org/2003/05/soap-envelope}"
WSA = "{http://schemas.xmlsoap.org/ws/2004/08/addressing}"
WSMAN = "{http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd}"
WSMV = "{http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd}"
RSP = "{http://schemas.microsoft.com/wbem/wsman/1/windows/shell}"
WST = "{http://schemas.xmlsoap.org/ws/2004/09/transfer}"
WSEN = "{http://schemas.xmlsoap.org/ws/2004/09/enumeration}"
PWSH = "{http://schemas.microsoft.com/powershell}"
FAULT = "{http://schemas.microsoft.com/wbem/wsman/1/wsmanfault}"
XMLNS = "{http://www.w3.org/XML/1998/namespace}"

ACTIONS = {
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Get": "Get",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Create": "Create",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Delete": "Delete",
    "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Enumerate": "Enumerate",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Command": "Command",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Connect": "Connect",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Disconnect": "Disconnect",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Receive": "Receive",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Reconnect": "Reconnect",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Send": "Send",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Signal": "Signal",
}
TIMEDOUT = "2150858793"


class Fault(Exception):
    def __init__(self, code, message="fault"):
        self.code, self.message = code, message


class Req(object):
    def __init__(self, h, message, kw):
        self.raw = message
        self.kw = kw
        env = ET.fromstring(message)
        h.check(env.tag == S + "Envelope", "the request is not a SOAP envelope")
        self.header = env.find(S + "Header")
        self.body = env.find(S + "Body")
        self.action = self.header.find(WSA + "Action").text
        self.kind = ACTIONS.get(self.action, self.action)
        self.message_id = self.header.find(WSA + "MessageID").text
        self.uri = self.header.find(WSMAN + "ResourceURI").text
        self.timeout = self.header.find(WSMAN + "OperationTimeout").text
        self.options = [(e.attrib["Name"], e.text, dict(e.attrib)) for e in self.header.findall(WSMAN + "OptionSet/" + WSMAN + "Option")]
        self.selectors = [(e.attrib["Name"], e.text) for e in self.header.findall(WSMAN + "SelectorSet/" + WSMAN + "Selector")]
        kids = list(self.body)
        self.resource = kids[0] if kids else None


def envelope(relates_to, body, action="Response"):
    env = ET.Element(S + "Envelope")
    hd = ET.SubElement(env, S + "Header")
    ET.SubElement(hd, WSA + "Action").text = action
    if relates_to is not None:
        ET.SubElement(hd, WSA + "RelatesTo").text = relates_to
    b = ET.SubElement(env, S + "Body")
    if body is not None:
        for x in body if isinstance(body, list) else [body]:
            b.append(x)
    return ET.tostring(env, encoding="utf-8", method="xml")


def fault_envelope(relates_to, code, message):
    f = ET.Element(S + "Fault")
    c = ET.SubElement(f, S + "Code")
    ET.SubElement(c, S + "Value").text = "s:Receiver"
    r = ET.SubElement(f, S + "Reason")
    ET.SubElement(r, S + "Text").text = message
    d = ET.SubElement(f, S + "Detail")
    w = ET.SubElement(d, FAULT + "WSManFault", Code=code, Machine="host")
    ET.SubElement(w, FAULT + "Message").text = message
    return envelope(relates_to, f)


class Peer(object):
    """The transport stand-in: one request, one response."""

    endpoint = "http://server:5985/wsman"

    def __init__(self, h):
        self.h = h
        self.log = []
        self.closed = 0

    def send(self, message, **kw):
        from pypsrp.exceptions import WinRMTransportError

        r = Req(self.h, message, kw)
        for o in self.log:
            self.h.check(o.message_id != r.message_id, "message id reused")
        self.log.append(r)
        try:
            self.on_request(r)
            body = getattr(self, "handle_" + r.kind)(r)
        except Fault as e:
            # requests decodes the body before it is put into the exception
            raise WinRMTransportError("http", 500, fault_envelope(r.message_id, e.code, e.message).decode("utf-8"))
        return envelope(r.message_id, body)

    def on_request(self, r):
        pass

    def close(self):
        self.closed += 1

    def kinds(self):
        return [r.kind for r in self.log]


def connect(peer, **kw):
    """A real WSMan object whose transport is the peer."""
    from pypsrp.wsman import WSMan

    kw.setdefault("ssl", True)
    ws = WSMan("server", auth="basic", username="u", password="p", **kw)
    ws.transport = peer
    return ws


def select(name, value):
    s = ET.Element(WSMAN + "SelectorSet")
    ET.SubElement(s, WSMAN + "Selector", Name=name).text = value
    return s


# ------------------------------------------------------------------ messages
def obj(refid, props, extra=""):
    """<Obj RefId=..><MS>..</MS></Obj> from ready made property elements."""
    o = ET.Element("Obj", RefId=str(refid))
    ms = ET.SubElement(o, "MS")
    for p in props:
        ms.append(p)
    return o


def el(tag, name=None, text=None, **attrib):
    e = ET.Element(tag, attrib)
    if name is not None:
        e.attrib["N"] = name
    if text is not None:
        e.text = text
    return e


def xb(e):
    return ET.tostring(e, encoding="utf-8", method="xml")


def capability(proto="2.3", ps="2.0", ser="1.1.0.1"):
    return xb(obj(0, [el("Version", "protocolversion", proto), el("Version", "PSVersion", ps), el("Version", "SerializationVersion", ser)]))


def pool_state(state):
    return xb(obj(0, [el("I32", "RunspaceState", state if not isinstance(state, int) else str(state))]))


def pipe_state(state):
    return xb(obj(0, [el("I32", "PipelineState", str(state))]))


def output(text):
    return xb(el("S", None, text))


class Server(Peer):
    """A PSRP server: pool creation, pipelines, queues of outgoing payloads."""

    shell_id = lib.RPID

    def __init__(self, h):
        Peer.__init__(self, h)
        self.oid = 100
        self.pool_in = []  # raw payloads received for the pool, in order
        self.pipe_in = []  # (command id, raw payload)
        self.pr_in = []
        self.queue = []  # payloads for the pool's receive
        self.pipe_queue = []  # payloads for a pipeline's receive
        self.signals = []
        self.rpid = None
        self.open_states = [capability(), pool_state(2)]

    # ---- outgoing
    def frag(self, mtype, data, pid=None):
        self.oid += 1
        m = lib.message(lib.CLIENT, mtype, lib.RPID, pid, data)
        return lib.fragment(self.oid, 0, True, True, m)

    def stream(self, data, name="stdout", command_id=None):
        rr = ET.Element(RSP + "ReceiveResponse")
        if data is not None:
            s = ET.SubElement(rr, RSP + "Stream", Name=name)
            if command_id is not None:
                s.attrib["CommandId"] = command_id
            s.text = base64.b64encode(data).decode("ascii")
        return rr

    # ---- requests
    def handle_Create(self, r):
        sh = r.resource
        self.create = sh
        c = sh.find(PWSH + "creationXml")
        if c is None:
            c = sh.find("creationXml")
        if c is not None:
            self.pool_in.append(base64.b64decode(c.text))
            self.queue.append(self.frag(0x00010002, self.open_states[0]) + self.frag(0x00021005, self.open_states[1]))
        out = ET.Element(RSP + "Shell")
        ET.SubElement(out, RSP + "ShellId").text = self.shell_id
        rc = ET.Element(WST + "ResourceCreated")
        rp = ET.SubElement(rc, WSA + "ReferenceParameters")
        rp.append(select("ShellId", self.shell_id))
        return [rc, out]

    def handle_Delete(self, r):
        return None

    def handle_Command(self, r):
        self.command = r.resource
        args = [a.text for a in r.resource.findall(RSP + "Arguments")]
        self.command_args = args
        cid = r.resource.attrib.get("CommandId")
        self.command_id = self.pick_command_id(cid)
        if args and args[0]:
            self.pipe_in.append((self.command_id, base64.b64decode(args[0])))
        out = ET.Element(RSP + "CommandResponse")
        ET.SubElement(out, RSP + "CommandId").text = self.command_id
        return out

    def pick_command_id(self, cid):
        return cid if cid is not None else lib.PID2

    def handle_Send(self, r):
        for s in r.resource.findall(RSP + "Stream"):
            data = base64.b64decode(s.text or "")
            name = s.attrib["Name"]
            cid = s.attrib.get("CommandId")
            if name == "pr":
                self.pr_in.append((cid, data))
            elif cid is not None:
                self.pipe_in.append((cid, data))
            else:
                self.pool_in.append(data)
            self.on_send(name, cid, data)
        return ET.Element(RSP + "SendResponse")

    def on_send(self, name, cid, data):
        pass

    def handle_Receive(self, r):
        st = r.resource.find(RSP + "DesiredStream")
        cid = st.attrib.get("CommandId")
        q = self.queue if cid is None else self.pipe_queue
        if not q:
            self.h.fail("the client keeps receiving although the server has nothing left to say")
        x = q.pop(0)
        if isinstance(x, Fault):
            raise x
        if isinstance(x, list):
            rr = ET.Element(RSP + "ReceiveResponse")
            for y in x:
                ET.SubElement(rr, RSP + "Stream", Name="stdout").text = base64.b64encode(y).decode("ascii")
            return rr
        return self.stream(x, command_id=cid)

    def handle_Signal(self, r):
        self.signals.append((r.resource.attrib.get("CommandId"), r.resource.find(RSP + "Code").text))
        return ET.Element(RSP + "SignalResponse")

    def handle_Disconnect(self, r):
        return ET.Element(RSP + "DisconnectResponse")

    def handle_Reconnect(self, r):
        return ET.Element(RSP + "ReconnectResponse")


def open_pool(h, server, ws_kw=None, **kw):
    from pypsrp.powershell import RunspacePool

    ws = connect(server, **(ws_kw or {}))
    pool = RunspacePool(ws, **kw)
    pool.open()
    return ws, pool
