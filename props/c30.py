"""C30: metadata of commands."""
import base64
import xml.etree.ElementTree as ET

from props import lib, peer, records
from props.c12 import Srv
from symx.api import obligation

from pypsrp.complex_objects import CommandMetadata, CommandType, ParameterMetadata
from pypsrp.exceptions import InvalidRunspacePoolStateError
from pypsrp.powershell import PowerShell, RunspacePool

E = records.E
OPENED = 2
REQUEST = 0x0002100A
COUNT = ["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", "System.Management.Automation.PSCustomObject", "System.Object"]
COMMAND = ["Selected.System.Management.Automation.CmdletInfo", "System.Management.Automation.PSCustomObject", "System.Object"]
TYPES = ["System.Management.Automation.CommandTypes", "System.Enum", "System.ValueType", "System.Object"]
OUTPUTS = ["System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Management.Automation.PSTypeName, System.Management.Automation, Version=3.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]", "System.Object"]
PARAMETERS = ["System.Collections.Generic.Dictionary`2[[System.String, mscorlib],[System.Management.Automation.ParameterMetadata, System.Management.Automation]]", "System.Object"]
PARAMETER = ["System.Management.Automation.ParameterMetadata", "System.Object"]
ALIASES = ["System.Collections.ObjectModel.Collection`1[[System.String, mscorlib]]", "System.Object"]
STRINGS = ["System.String[]", "System.Array", "System.Object"]
NAMES = [("Alias", 1), ("Function", 2), ("Filter", 4), ("Cmdlet", 8), ("ExternalScript", 16), ("Application", 32), ("Script", 64), ("Workflow", 128), ("Configuration", 256)]


class Out(object):
    """Writes one object of the server, with its references."""

    def __init__(self):
        self.ref = 0
        self.tn = {}

    def obj(self, types, name=None):
        e = ET.Element("Obj", RefId=str(self.ref))
        self.ref += 1
        if name is not None:
            e.attrib["N"] = name
        k = tuple(types)
        if k in self.tn:
            ET.SubElement(e, "TNRef", RefId=self.tn[k])
        else:
            self.tn[k] = str(len(self.tn))
            t = ET.SubElement(e, "TN", RefId=self.tn[k])
            for x in types:
                ET.SubElement(t, "T").text = x
        return e

    def texts(self, types, name, values):
        e = self.obj(types, name)
        l = ET.SubElement(e, "LST")
        for v in values:
            l.append(E("S", None, v))
        return e


def opt(name, v):
    return E("Nil", name) if v is None else E("S", name, v)


def count(n):
    e = Out().obj(COUNT)
    ET.SubElement(e, "MS").append(E("I32", "Count", str(n)))
    return peer.xb(e)


class Cmd(object):
    def __init__(self, h, k):
        self.name = lib.odd(h, "name", 1, 200)
        self.namespace, self.uri = lib.odd(h, "namespace", 1, 200), h.text("help", 1, 200)
        self.type = h.int("type", 0, 0x1FF)
        vary = h.pick("which varies", ["namespace", "help", "output types", "parameters", "aliases", "flags"]) if k > 0 else None
        if vary == "namespace":
            self.namespace = None
        elif vary == "help":
            self.uri = None
        few = 1 if k else 0
        self.outputs = [h.text("output type", 1, 200) for _ in range(h.count("output types", 0, k) if vary == "output types" else few)]
        self.params = []
        for i in range(h.count("parameters", 0, k) if vary == "parameters" else k if vary in ("aliases", "flags") else few):
            p = h.text("parameter", 1, 100)
            for q in self.params:
                h.assume(q[0] != p)
            aliases = [h.text("alias", 1, 100) for _ in range(h.count("aliases", 0, k) if vary == "aliases" else few)]
            flags = h.pick("flags", [(False, False), (True, False), (False, True), (True, True)]) if vary == "flags" else (False, True)
            self.params.append((p, h.text("parameter type", 1, 100), aliases) + flags)

    def xml(self):
        o = Out()
        e = o.obj(COMMAND)
        ms = ET.SubElement(e, "MS")
        ms.append(E("S", "Name", self.name))
        ms.append(opt("Namespace", self.namespace))
        ms.append(opt("HelpUri", self.uri))
        t = o.obj(TYPES, "CommandType")
        ET.SubElement(t, "ToString").text = "T"
        ET.SubElement(t, "I32").text = str(self.type)
        ms.append(t)
        ms.append(E("Nil", "ResolvedCommandName"))
        ms.append(o.texts(OUTPUTS, "OutputType", self.outputs))
        ps = o.obj(PARAMETERS, "Parameters")
        d = ET.SubElement(ps, "DCT")
        for name, ptype, aliases, dynamic, switch in self.params:
            en = ET.SubElement(d, "En")
            en.append(E("S", "Key", name))
            p = o.obj(PARAMETER, "Value")
            ET.SubElement(p, "ToString").text = "System.Management.Automation.ParameterMetadata"
            pr = ET.SubElement(p, "Props")
            pr.append(E("S", "Name", name))
            pr.append(E("S", "ParameterType", ptype))
            pr.append(o.texts(ALIASES, "Aliases", aliases))
            pr.append(E("B", "IsDynamic", "true" if dynamic else "false"))
            pr.append(E("B", "SwitchParameter", "true" if switch else "false"))
            en.append(p)
        ms.append(ps)
        return peer.xb(e)

    def check(self, h, c):
        h.check(isinstance(c, CommandMetadata) and isinstance(c.command_type, CommandType), "what is returned")
        h.check(c.name == self.name, "the name")
        h.check(c.namespace == self.namespace, "the namespace")
        h.check(c.help_uri == self.uri, "the help")
        h.check(c.command_type.value == self.type, "the type of the command")
        h.check(list(c.output_type) == self.outputs, "the types of the output")
        h.check(list(c.parameters) == [p[0] for p in self.params], "the parameters")
        for name, ptype, aliases, dynamic, switch in self.params:
            p = c.parameters[name]
            h.check(isinstance(p, ParameterMetadata), "a parameter")
            h.check(p.name == name and p.parameter_type == ptype and list(p.aliases) == aliases, "a parameter")
            h.check(p.dynamic is dynamic and p.switch_parameter is switch, "the kind of a parameter")


class MetaSrv(Srv):
    def handle_Command(self, r):
        n = len(self.pipe_in)
        out = Srv.handle_Command(self, r)
        self.queues[self.command_id] = q = []
        h = self.h
        pid = self.command_id

        def frag(t, data):
            self.oid += 1
            return lib.fragment(self.oid, 0, True, True, lib.message(lib.CLIENT, t, lib.RPID, pid, data))

        parts = [frag(records.OUTPUT, x) for x in self.reply] + [frag(records.STATE, records.pipe_state(self.end, self.error))]
        self.reply = None
        for i, p in enumerate(parts):
            if i and (self.grouped and h.bool("joined")):
                q[-1] = q[-1] + p
            else:
                q.append(p)
        return out


def texts(e):
    """The texts of an <Obj><LST> or None."""
    if e is None:
        return "missing"
    if e.tag == "Nil":
        return None
    l = e.find("LST")
    return "no list" if l is None else [(x.tag, x.text) for x in l]


def check_request(h, srv, cid, names, ctype, namespace, args):
    blob = b"".join([d for c, d in srv.pipe_in if c == cid])
    msgs = lib.reassemble(h, lib.parse_fragments(h, blob), "the request")
    h.check(len(msgs) == 1, "one message")
    m = msgs[0][1]
    head = lib.message(lib.SERVER, REQUEST, srv.pool_id, cid, b"")
    h.check(m[0 : len(head)] == head, "the header of the message")
    ms = ET.fromstring(m[40:]).find("MS")
    fields = {e.attrib["N"]: e for e in ms}
    h.check(len(fields) == len(list(ms)) and sorted(fields) == ["ArgumentList", "CommandType", "Name", "Namespace"], "the fields")
    e = fields["Name"]
    h.check([x.text for x in e.findall("TN/T")] == STRINGS and texts(e) == [("S", n) for n in names], "the names")
    e = fields["CommandType"]
    t = e if e.tag == "I32" else e.find("I32")
    h.check(t is not None and t.text == str(ctype), "the types of command")
    h.check(texts(fields["Namespace"]) == (None if namespace is None else [("S", n) for n in namespace]), "the namespaces")
    h.check(texts(fields["ArgumentList"]) == (None if args is None else [("S" if isinstance(a, str) else "I32", a if isinstance(a, str) else str(a)) for a in args]), "the arguments")


def ask(h, srv, pool, names, arg, ctype, ns, args, kw, cmds):
    srv.reply = [count(len(cmds))] + [c.xml() for c in cmds]
    srv.end, srv.error = 4, None
    m = len(srv.log)
    got = pool.get_command_metadata(arg, **kw)
    rs = srv.log[m:]
    h.check(rs[0].kind == "Command" and set(r.kind for r in rs[1:]) <= {"Receive", "Signal", "Send"}, "the requests")
    check_request(h, srv, srv.command_id, names, ctype, ns, args)
    h.check(names == (arg if isinstance(arg, list) else [arg]), "the caller's names")
    h.check(len(got) == len(cmds), "the number of commands")
    for a, b in zip(cmds, got):
        a.check(h, b)
    h.check(pool.state == OPENED, "the pool")


def question(h, n):
    names = [lib.odd(h, "asked", 1, 200) for _ in range(h.count("names", 1, n))]
    arg = names[0] if len(names) == 1 and h.bool("a single name") else list(names)
    kw = {}
    ctype = 0x1FF
    ns = args = None
    if h.bool("types given"):
        ctype = kw["command_types"] = h.int("types", 1, 0x1FF)
    if h.bool("namespaces given"):
        ns = kw["namespace"] = [lib.odd(h, "wanted namespace", 1, 200) for _ in range(h.count("namespaces", 1, 2))]
    if h.bool("arguments given"):
        args = kw["arguments"] = [lib.odd(h, "argument", 1, 200), h.int("argument", -(1 << 31), (1 << 31) - 1)]
    return names, arg, ctype, ns, args, kw


@obligation("C30", quick={"n": 2}, thorough={"n": 4}, bounds="one or up to n names, any types of command, namespaces and arguments, each given or not; a second, plain question")
def asks(h, n):
    """the request says exactly what was asked, for each question anew"""
    srv = MetaSrv(h)
    srv.grouped = False
    ws, pool = peer.open_pool(h, srv)
    srv.pool_id = pool.id
    ask(h, srv, pool, *(question(h, n) + ([],)))
    h.reach("asked")
    t = lib.odd(h, "second", 1, 200)
    ask(h, srv, pool, [t], t, 0x1FF, None, None, {}, [])
    h.reach("asked again")


def commands(h, n, k):
    """Some commands, one of which varies."""
    c = h.count("commands", 0, n)
    x = h.pick("which varies", range(c)) if c > 1 else 0
    return [Cmd(h, k if i == x else -1) for i in range(c)]


@obligation("C30", quick=[{"n": 2, "k": 1}, {"n": 1, "k": 2}], thorough=[{"n": 3, "k": 1}, {"n": 2, "k": 3}], bounds="up to n commands with up to k output types, parameters and aliases each, of any values; the answer in any number of payloads; another question afterwards")
def metadata(h, n, k):
    """the metadata returned is what the server said, in its order"""
    srv = MetaSrv(h)
    srv.grouped = k < 2
    ws, pool = peer.open_pool(h, srv)
    srv.pool_id = pool.id
    ask(h, srv, pool, ["*"], "*", 0x1FF, None, None, {}, commands(h, n, k))
    h.reach("answered")
    srv.grouped = False
    ask(h, srv, pool, ["*"], "*", 0x1FF, None, None, {}, [Cmd(h, 0)])
    h.reach("answered again")


@obligation("C30", bounds="the server fails or stops the question, with an error or without, before or after the number of commands; the pool in each state; used again afterwards")
def failed(h):
    """a question that fails is an error and leaves the pool as it was; only an opened pool is asked"""
    srv = MetaSrv(h)
    srv.grouped = False
    ws, pool = peer.open_pool(h, srv)
    srv.pool_id = pool.id
    what = h.pick("what", ["fails", "state"])
    if what == "state":
        pool.state = s = h.pick("state", [0, 1, 3, 4, 5, 6, 7, 8, 9])
        m = len(srv.log)
        try:
            pool.get_command_metadata("x")
        except InvalidRunspacePoolStateError as e:
            h.reach("not opened")
            h.check(e.current_state == s, "the state named")
        else:
            h.fail("asked a pool which is not opened")
        h.check(len(srv.log) == m, "a request was sent")
        return
    srv.end = h.pick("end", [3, 5])
    srv.error = h.text("error", 1, 100) if h.bool("error") else None
    srv.reply = []
    try:
        pool.get_command_metadata("x")
    except Exception:
        h.reach("failed")
    else:
        h.fail("a failed question gives an answer")
    h.check(pool.state == OPENED, "the pool")
    srv.end, srv.error = 4, None
    c = Cmd(h, 0)
    srv.reply = [count(1), c.xml()]
    got = pool.get_command_metadata("x")
    h.check(len(got) == 1, "afterwards")
    c.check(h, got[0])


@obligation("C30", bounds="every combination of the nine types")
def types(h):
    """the text of a combination of command types names exactly those in it"""
    v = h.int("value", 1, 0x1FF)
    t = str(CommandType(value=v))
    h.reach("text")
    if h.split(v == 0x1FF):
        h.check(t == "All", "all types")
    else:
        h.check(t == ", ".join([n for n, b in NAMES if (v // b) % 2 == 1]), "the names")
