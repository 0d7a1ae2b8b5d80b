"""C28: finding and taking over what another client left on the server."""
import base64
import xml.etree.ElementTree as ET

from props import lib, peer, records
from symx.api import obligation

from pypsrp.exceptions import InvalidPSRPOperation, WSManFaultError
from pypsrp.powershell import PowerShell, RunspacePool

OPENED, CLOSED, DISCONNECTED = 2, 3, 9
RUNNING, COMPLETED, PIPE_DISCONNECTED = 1, 4, 6
SHELL_URI = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
PSURI = "http://schemas.microsoft.com/powershell/Microsoft.PowerShell"
CAPABILITY, CONNECT_POOL, INIT_DATA, PRIVATE, STATE = 0x00010002, 0x00010008, 0x0002100B, 0x00021009, 0x00021005

IDS = ["6F9C4E8A-1B2D-4C3E-8F70-0123456789A%d" % i for i in range(4)]


def init_data(mn, mx):
    return peer.xb(peer.obj(0, [peer.el("I32", "MinRunspaces", str(mn)), peer.el("I32", "MaxRunspaces", str(mx))]))


def private(name, value):
    o = peer.obj(0, [])
    d = ET.SubElement(o.find("MS"), "Obj", N="ApplicationPrivateData", RefId="1")
    t = ET.SubElement(d, "TN", RefId="0")
    for x in ("System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"):
        ET.SubElement(t, "T").text = x
    en = ET.SubElement(ET.SubElement(d, "DCT"), "En")
    en.append(peer.el("S", "Key", name))
    en.append(peer.el("S", "Value", value))
    return peer.xb(o)


class Srv(peer.Server):
    """Has shells with commands of other clients."""

    def __init__(self, h, shells):
        peer.Server.__init__(self, h)
        self.shells = shells  # [(id, [command ids])]
        self.asked = []
        self.refuse = None
        self.connected = []
        self.state = h.pick("state", ["Disconnected", "Connected"])
        self.answer = None  # payload of the connect response
        self.queues = {}
        self.uris = {}  # shell id: resource URI, where it is not the usual one

    def on_request(self, r):
        if self.refuse is not None and r.kind == self.refuse:
            raise peer.Fault("5", "access is denied")

    def respond(self, items):
        out = ET.Element(peer.WSEN + "EnumerateResponse")
        ET.SubElement(out, peer.WSEN + "EnumerationContext")
        if items is not None:
            it = ET.SubElement(out, peer.WSMAN + "Items")
            for i in items:
                it.append(i)
        ET.SubElement(out, peer.WSMAN + "EndOfSequence")
        return out

    def handle_Enumerate(self, r):
        h = self.h
        h.check(r.resource.tag == peer.WSEN + "Enumerate", "the enumeration")
        h.check(r.selectors == [], "selectors of an enumeration")
        f = r.resource.find(peer.WSMAN + "Filter")
        if f is None:
            h.check(r.uri == SHELL_URI, "what is enumerated")
            self.asked.append(None)
            items = []
            for sid, cmds in self.shells:
                s = ET.Element(peer.RSP + "Shell")
                ET.SubElement(s, peer.RSP + "Name").text = h.text("name", 1, 100)
                ET.SubElement(s, peer.RSP + "ShellId").text = sid
                uri = self.uris.get(sid, PSURI)
                if uri is not None:
                    ET.SubElement(s, peer.RSP + "ResourceUri").text = uri
                ET.SubElement(s, peer.RSP + "State").text = self.state
                items.append(s)
            return self.respond(items or h.pick("no items", [None, []]))
        h.check(r.uri == SHELL_URI + "/Command", "what is enumerated")
        h.check(f.attrib["Dialect"] == "http://schemas.dmtf.org/wbem/wsman/1/wsman/SelectorFilter", "the dialect")
        sel = f.findall(peer.WSMAN + "SelectorSet/" + peer.WSMAN + "Selector")
        h.check(len(sel) == 1 and sel[0].attrib == {"Name": "ShellId"}, "the filter")
        self.asked.append(sel[0].text)
        cmds = [c for sid, c in self.shells if sid == sel[0].text]
        h.check(len(cmds) == 1, "commands of an unknown shell")
        items = []
        for c in cmds[0]:
            e = ET.Element(peer.RSP + "Command")
            ET.SubElement(e, peer.RSP + "State").text = "Running"
            ET.SubElement(e, peer.RSP + "CommandId").text = c
            ET.SubElement(e, peer.RSP + "CommandLine").text = h.text("line", 1, 100)
            items.append(e)
        return self.respond(items or None)

    def handle_Connect(self, r):
        self.connected.append(r)
        out = ET.Element(peer.RSP + "ConnectResponse")
        if r.resource.attrib.get("CommandId") is None:
            ET.SubElement(out, peer.PWSH + "connectResponseXml").text = base64.b64encode(self.answer).decode("ascii")
        return out

    def handle_Receive(self, r):
        cid = r.resource.find(peer.RSP + "DesiredStream").attrib.get("CommandId")
        if cid is not None:
            self.h.check(cid in self.queues, "received for another command")
            self.pipe_queue = self.queues[cid]
        return peer.Server.handle_Receive(self, r)

    def frag_for(self, sid, mtype, data, pid=None):
        self.oid += 1
        return lib.fragment(self.oid, 0, True, True, lib.message(lib.CLIENT, mtype, sid, pid, data))


def some_ids(h, n, k):
    shells = []
    low = h.bool("lower case")
    for i in range(h.count("shells", 0, n)):
        sid = IDS[i].lower() if low else IDS[i]
        cmds = ["0A1B2C3D-4E5F-6071-8293-A4B5C6D7E%d%02d" % (i, j) for j in range(h.count("commands", 0, k))]
        shells.append((sid, [c.lower() if low else c for c in cmds]))
    return shells


@obligation("C28", quick={"n": 2, "k": 2}, thorough={"n": 3, "k": 3}, bounds="up to n shells with up to k commands each, of any names, in any state, of any configuration, told or not, with a shell that is none of PowerShell's first, last or not at all; the first or a later enumeration refused")
def find(h, n, k):
    """every PowerShell shell of the server, and no other, becomes one disconnected pool with exactly its commands as disconnected pipelines, in the order of the server; nothing but the enumerations is sent"""
    shells = some_ids(h, n, k)
    srv = Srv(h, list(shells))
    what = h.pick("what", ["plain", "refused", "untold", "configuration", "other first", "other last"])
    if what == "untold":
        srv.uris = {s: None for s, _ in shells}
    elif what == "configuration" and shells:
        srv.uris[shells[-1][0]] = "http://schemas.microsoft.com/powershell/" + h.text("configuration", 1, 200)
    elif what.startswith("other"):
        srv.shells.insert(0 if what == "other first" else len(shells), (IDS[3], []))
        srv.uris[IDS[3]] = SHELL_URI + "/cmd"
    ws = peer.connect(srv)
    deny = what == "refused"
    if deny:
        srv.refuse = "Enumerate"
    try:
        pools = RunspacePool.get_runspace_pools(ws)
    except WSManFaultError:
        h.check(deny, "refused")
        h.reach("refused")
        return
    h.check(not deny, "the refusal is lost")
    asked = [s for s in srv.asked[1:] if s != IDS[3]]
    h.check(srv.asked[0] is None and asked == [s for s, _ in shells], "the enumerations")
    h.check(len(srv.log) == len(srv.asked), "other requests")
    h.check([p.id for p in pools] == [s for s, _ in shells], "the pools")
    for p, (s, cmds) in zip(pools, shells):
        h.check(p.state == DISCONNECTED, "the state of the pool")
        ps = p.create_disconnected_power_shells()
        h.check([x.id for x in ps] == cmds, "the pipelines")
        for x in ps:
            h.check(x.state == PIPE_DISCONNECTED and x.runspace_pool is p, "a pipeline")
    h.reach("found %d" % len(shells))


def check_connect(h, srv, r, sid, uri=PSURI):
    h.check(r.uri == uri and r.selectors == [("ShellId", sid)], "what is connected to")
    h.check(r.options == [("protocolversion", "2.3", {"Name": "protocolversion", "MustComply": "true"})], "the options")
    x = r.resource.find(peer.PWSH + "connectXml")
    h.check(r.resource.tag == peer.RSP + "Connect" and x is not None, "the connection data")
    msgs = lib.reassemble(h, lib.parse_fragments(h, base64.b64decode(x.text)))
    h.check(len(msgs) == 2 and h.all(msgs[0][0] != msgs[1][0]), "the messages")
    for (_, m), t in zip(msgs, (CAPABILITY, CONNECT_POOL)):
        head = lib.message(lib.SERVER, t, sid, None, b"")
        h.check(m[0 : len(head)] == head, "the header of a message")


def take(h, srv, pool, sid, group, pace="at once"):
    """Connects; returns (min, max, private value, names of what came)."""
    mn, mx = h.int("min", 1, 2**31 - 1), h.int("max", 1, 2**31 - 1)
    pv = lib.odd(h, "private", 1, 1000)
    cap = srv.frag_for(sid, CAPABILITY, peer.capability("2.3", "5.1", "1.1.0.1"))
    init = srv.frag_for(sid, INIT_DATA, init_data(mn, mx))
    priv = srv.frag_for(sid, PRIVATE, private("K", pv))
    state = srv.frag_for(sid, STATE, peer.pool_state(OPENED))
    if group == "state":
        srv.answer, srv.queue[:] = cap + init, [state]
        pv = None
    elif group == "together":
        srv.answer, srv.queue[:] = cap + init, [priv + state]
    elif group == "private early":
        srv.answer, srv.queue[:] = cap + init + priv, [state]
    elif group == "later":
        srv.answer, srv.queue[:] = cap + init, [priv, state]
    srv.queue[:0] = {"slow": [peer.Fault(peer.TIMEDOUT)], "slower": [peer.Fault(peer.TIMEDOUT)] * 2, "quiet": [b""]}.get(pace, [])
    pool.connect()
    return mn, mx, pv


GROUPS = ["state", "together", "private early"]


@obligation("C28", quick={"k": 1}, thorough={"k": 3}, bounds="a pool of another client with up to k pipelines; alone or among others, of any configuration; its counts, private data and versions of any value; what the server says grouped as it likes with the state in the first payload received, at once or after operation timeouts or an empty payload; each pipeline having written one output of any text; the pool closed or disconnected and connected again afterwards")
def takeover(h, k):
    """connecting negotiates with the shell found, takes over what the server says about it and leaves the pool opened; its pipelines give their output and end; closing it deletes that shell"""
    low = h.bool("lower case")
    sid = IDS[0].lower() if low else IDS[0]
    cmds = ["0A1B2C3D-4E5F-6071-8293-A4B5C6D7E0%02d" % j for j in range(h.count("commands", 0, k))]
    if low:
        cmds = [c.lower() for c in cmds]
    at = h.count("others before", 0, 1)
    srv = Srv(h, [(IDS[1], [])][:at] + [(sid, cmds)] + [(IDS[2], [])])
    uri = PSURI
    if at and not low:
        uri = srv.uris[sid] = "http://schemas.microsoft.com/powershell/" + h.text("configuration", 1, 200)
    ws = peer.connect(srv)
    pool = RunspacePool.get_runspace_pools(ws)[at]
    n = len(srv.log)
    pace = h.pick("pace", ["at once", "slow", "slower", "quiet"])
    mn, mx, pv = take(h, srv, pool, sid, h.pick("group", GROUPS), pace)
    h.check([r.kind for r in srv.log[n:]] == ["Connect"] + ["Receive"] * {"at once": 1, "slower": 3}.get(pace, 2), "the requests")
    check_connect(h, srv, srv.log[n], sid, uri)
    h.check(srv.log[n + 1].selectors == [("ShellId", sid)] and srv.log[n + 1].uri == uri, "received from another shell")
    h.check(pool.state == OPENED, "the pool is not opened")
    h.check(pool.min_runspaces == mn and pool.max_runspaces == mx, "the counts")
    if pv is not None:
        h.check(pool.application_private_data is not None, "the private data is lost")
        h.check(pool.application_private_data.data == {"K": pv}, "the private data")
    for c in cmds:
        (ps,) = [p for p in pool.create_disconnected_power_shells() if p.id == c]
        text = lib.odd(h, "output", 1, 1000)
        srv.queues = {c: [srv.frag_for(sid, 0x00041004, peer.output(text), c), srv.frag_for(sid, 0x00041006, peer.pipe_state(COMPLETED), c)]}
        n = len(srv.log)
        out = ps.connect()
        h.check(out == [text] and ps.state == COMPLETED, "the output")
        h.check([r.kind for r in srv.log[n:]] == ["Connect", "Receive", "Receive"], "the requests for a pipeline")
        r = srv.log[n]
        h.check(r.resource.attrib == {"CommandId": c} and r.selectors == [("ShellId", sid)] and r.uri == uri, "the pipeline connected to")
        h.reach("output")
    h.check(pool.create_disconnected_power_shells() == [], "pipelines left")
    n = len(srv.log)
    if h.bool("again"):
        pool.disconnect()
        h.check(pool.state == DISCONNECTED, "disconnected")
        pool.connect()
        h.check([r.kind for r in srv.log[n:]] == ["Disconnect", "Reconnect"] and pool.state == OPENED, "connecting to it once more")
        for r in srv.log[n:]:
            h.check(r.selectors == [("ShellId", sid)] and r.uri == uri, "another shell")
        h.reach("again")
        n = len(srv.log)
    pool.close()
    closed(h, srv, n, pool, sid, uri)


@obligation("C28", bounds="a pipeline of another client that writes an output of any text, after which the pool is disconnected, connected again and the pipeline connected to again, which writes another one; outputs in the payload of the end or before")
def interrupted(h):
    """output that was received before the pool was disconnected once more is kept, and what comes afterwards is added to it"""
    sid, c = IDS[0], "0A1B2C3D-4E5F-6071-8293-A4B5C6D7E000"
    srv = Srv(h, [(sid, [c])])
    ws = peer.connect(srv)
    (pool,) = RunspacePool.get_runspace_pools(ws)
    take(h, srv, pool, sid, "together")
    (ps,) = pool.create_disconnected_power_shells()
    ps.connect_async()
    a, b = h.text("first", 1, 1000), h.text("second", 1, 1000)
    srv.queues = {c: [srv.frag_for(sid, 0x00041004, peer.output(a), c)]}
    ps.poll_invoke()
    h.check(ps.output == [a] and ps.state == RUNNING, "the first output")
    pool.disconnect()
    h.check(ps.state == PIPE_DISCONNECTED, "the pipeline is not disconnected")
    pool.connect()
    x, y = srv.frag_for(sid, 0x00041004, peer.output(b), c), srv.frag_for(sid, 0x00041006, peer.pipe_state(COMPLETED), c)
    srv.queues = {c: [x + y] if h.bool("together") else [x, y]}
    n = len(srv.log)
    out = ps.connect()
    h.check(srv.log[n].kind == "Connect" and srv.log[n].resource.attrib == {"CommandId": c}, "the pipeline connected to")
    h.check(out == [a, b] and ps.state == COMPLETED, "the output")
    h.reach("done")


def closed(h, srv, n, pool, sid, uri=PSURI):
    h.check([r.kind for r in srv.log[n:]] == ["Delete"], "closing")
    h.check(srv.log[n].selectors == [("ShellId", sid)] and srv.log[n].uri == uri, "the shell deleted")
    h.check(pool.state == CLOSED, "closed")
    pool.close()
    h.check(len(srv.log) == n + 1, "deleted again")
    h.reach("closed")


@obligation("C28", bounds="a pool found on the server, in either case of its id, which is closed, or asked whether it is alive, or one of its pipelines is connected to, without connecting to it before")
def untaken(h):
    """whatever is asked of a pool that was found goes to its shell"""
    sid = h.pick("case", [IDS[0], IDS[0].lower()])
    cid = "0A1B2C3D-4E5F-6071-8293-A4B5C6D7E000"
    srv = Srv(h, [(sid, [cid])])
    (pool,) = RunspacePool.get_runspace_pools(peer.connect(srv))
    n = len(srv.log)
    op = h.pick("op", ["close", "pipeline"])
    if op == "close":
        pool.close()
        closed(h, srv, n, pool, sid)
    else:
        (ps,) = pool.create_disconnected_power_shells()
        ps.connect_async()
        h.check([r.kind for r in srv.log[n:]] == ["Connect"], "the request")
        h.check(srv.log[n].selectors == [("ShellId", sid)] and srv.log[n].resource.attrib == {"CommandId": cid}, "the pipeline connected to")
        h.reach("pipeline")


@obligation("C28", bounds="connecting to a pool that was found refused by the server; tried again afterwards")
def refused(h):
    """a refused connection leaves the pool disconnected, and it can be tried again"""
    srv = Srv(h, [(IDS[0], [])])
    (pool,) = RunspacePool.get_runspace_pools(peer.connect(srv))
    srv.refuse = "Connect"
    srv.answer = b""
    for _ in range(h.count("times", 1, 2)):
        try:
            pool.connect()
        except WSManFaultError:
            h.check(pool.state == DISCONNECTED, "the state after a refusal")
        else:
            h.fail("the refusal is lost")
    srv.refuse = None
    n = len(srv.log)
    take(h, srv, pool, IDS[0], h.pick("group", GROUPS))
    h.check([r.kind for r in srv.log[n:]] == ["Connect", "Receive"] and pool.state == OPENED, "trying again")
    check_connect(h, srv, srv.log[n], IDS[0])
    h.reach("again")


@obligation("C28", bounds="a pool of another client; the server sends its private data, of any value, in one payload and the state in the next")
def private_first(h):
    """a pool that was connected to is opened, however the server groups what it says"""
    srv = Srv(h, [(IDS[0], [])])
    (pool,) = RunspacePool.get_runspace_pools(peer.connect(srv))
    take(h, srv, pool, IDS[0], "later")
    h.reach("connected")
    h.check(pool.state == OPENED, "a pool connected to stays disconnected when its private data comes in a payload of its own")
