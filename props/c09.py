"""C09: the fields of PSRP messages."""
import xml.etree.ElementTree as ET

from props import clixml, lib
from symx.api import obligation

from pypsrp import complex_objects as co
from pypsrp import messages as ms
from pypsrp.serializer import Serializer

ENUM = ["System.Enum", "System.ValueType", "System.Object"]


class Doc(object):
    """Builds a server document; type names are sent once and referred to after."""

    def __init__(self, h):
        self.h = h
        self.ids = 0
        self.tns = {}
        self.most = 2
        self.valid = None

    def obj(self, types=(), name=None):
        e = ET.Element("Obj", RefId=str(self.ids))
        self.ids += 1
        if name is not None:
            e.attrib["N"] = name
        if types:
            key = "|".join(types)
            if key in self.tns:
                ET.SubElement(e, "TNRef", RefId=self.tns[key])
            else:
                self.tns[key] = str(len(self.tns))
                tn = ET.SubElement(e, "TN", RefId=self.tns[key])
                for t in types:
                    ET.SubElement(tn, "T").text = t
        return e

    def prim(self, tag, name, text):
        e = ET.Element(tag)
        if name is not None:
            e.attrib["N"] = name
        e.text = text
        return e

    def make(self, kind, name):
        """(element, check of the attribute)"""
        h = self.h
        if kind in ("S", "Version", "DT"):
            t = h.text("text", 1, 1 << 16)
            return self.prim(kind, name, t), lambda v: h.all(isinstance(v, str), v == t)
        if kind in ("I32", "I64", "U32"):
            lo, hi = {"I32": (-(2**31), 2**31 - 1), "I64": (-(2**63), 2**63 - 1), "U32": (0, 2**32 - 1)}[kind]
            i = h.int("int", lo, hi)
            return self.prim(kind, name, str(i)), lambda v: h.all(isinstance(v, int), v == i)
        if kind == "B":
            b = h.bool("flag")
            return self.prim("B", name, "true" if b else "false"), lambda v: v is (True if b else False)
        if kind == "G":
            return self.prim("G", name, "0a1b2c3d-4e5f-6071-8293-a4b5c6d7e8f9"), lambda v: str(v) == "0a1b2c3d-4e5f-6071-8293-a4b5c6d7e8f9"
        if kind == "Nil":
            return self.prim("Nil", name, None), lambda v: v is None
        if kind.startswith("enum:"):
            i = h.int("enum", *(self.valid[kind[5:]] if self.valid else (0, 63)))
            e = self.obj([kind[5:]] + ENUM, name)
            ET.SubElement(e, "ToString").text = "whatever"
            e.append(self.prim("I32", None, str(i)))
            return e, lambda v: h.all(v is not None, v.value == i)
        if kind in ("ints", "texts", "list"):
            n = h.count("n", 0, 2) if self.most == 2 else 1
            types = {"ints": ["System.Int32[]", "System.Array", "System.Object"], "texts": ["System.String[]", "System.Array", "System.Object"], "list": ["System.Collections.ArrayList", "System.Object"]}[kind]
            e = self.obj(types, name)
            l = ET.SubElement(e, "LST")
            vals = []
            for _ in range(n):
                x, c = self.make("I32" if kind == "ints" else "S", None)
                l.append(x)
                vals.append(c)
            return e, lambda v: h.all(isinstance(v, list), len(v) == n, *[vals[j](v[j]) for j in range(min(n, len(v)))])
        if kind == "dict":
            e = self.obj(["System.Collections.Hashtable", "System.Object"], name)
            d = ET.SubElement(e, "DCT")
            n = h.count("n", 0, 2) if self.most == 2 else 1
            vals = []
            for j in range(n):
                en = ET.SubElement(d, "En")
                en.append(self.prim("S", "Key", "key%d" % j))
                x, c = self.make("I32" if j else "S", "Value")
                en.append(x)
                vals.append(c)
            return e, lambda v: h.all(isinstance(v, dict), len(v) == n, *[vals[j](v["key%d" % j]) for j in range(min(n, len(v)))])
        if kind == "any":
            return self.make(h.pick("any", ["S", "I64", "B", "Nil", "generic", "list"]), name)
        if kind in ("generic", "exception"):
            # an object whose inner property has the name of an outer one
            e = self.obj(["System.Exception", "System.Object"], name)
            ET.SubElement(e, "ToString").text = "shown"
            p = ET.SubElement(e, "MS")
            inner = []
            for x in ("Message", "FullyQualifiedErrorId", "InformationalRecord_Message", "PipelineState", "ci"):
                y, c = self.make("S" if x[0] != "c" else "I64", x)
                p.append(y)
                inner.append((x, c))
            return e, lambda v: h.all(v is not None, str(v) == "shown", *[c(v.extended_properties[x]) for x, c in inner])
        raise ValueError(kind)


INVOCATION = [
    ("invocation_name", "InvocationInfo_InvocationName", "S", 0),
    ("invocation_bound_parameters", "InvocationInfo_BoundParameters", "dict", 0),
    ("invocation_unbound_arguments", "InvocationInfo_UnboundArguments", "list", 0),
    ("invocation_command_origin", "InvocationInfo_CommandOrigin", "enum:System.Management.Automation.CommandOrigin", 0),
    ("invocation_expecting_input", "InvocationInfo_ExpectingInput", "B", 0),
    ("invocation_line", "InvocationInfo_Line", "S", 0),
    ("invocation_offset_in_line", "InvocationInfo_OffsetInLine", "I32", 0),
    ("invocation_position_message", "InvocationInfo_PositionMessage", "S", 0),
    ("invocation_script_name", "InvocationInfo_ScriptName", "S", 0),
    ("invocation_script_line_number", "InvocationInfo_ScriptLineNumber", "I32", 0),
    ("invocation_history_id", "InvocationInfo_HistoryId", "I64", 0),
    ("invocation_pipeline_length", "InvocationInfo_PipelineLength", "I32", 0),
    ("invocation_pipeline_position", "InvocationInfo_PipelinePosition", "I32", 0),
    ("invocation_pipeline_iteration_info", "InvocationInfo_PipelineIterationInfo", "ints", 0),
    ("command_type", "CommandInfo_CommandType", "enum:System.Management.Automation.CommandTypes", 0),
    ("command_definition", "CommandInfo_Definition", "S", 0),
    ("command_name", "CommandInfo_Name", "S", 0),
    ("command_visibility", "CommandInfo_Visibility", "enum:System.Management.Automation.SessionStateEntryVisibility", 0),
]
ERROR = [
    ("exception", "Exception", "exception", 0),
    ("target_object", "TargetObject", "any", 0),
    ("fq_error", "FullyQualifiedErrorId", "S", 1),
    ("category", "ErrorCategory_Category", "I32", 1),
    ("activity", "ErrorCategory_Activity", "S", 0),
    ("reason", "ErrorCategory_Reason", "S", 0),
    ("target_name", "ErrorCategory_TargetName", "S", 0),
    ("target_type", "ErrorCategory_TargetType", "S", 0),
    ("message", "ErrorCategory_Message", "S", 0),
    ("details_message", "ErrorDetails_Message", "S", 0),
    ("action", "ErrorDetails_RecommendedAction", "S", 0),
    ("script_stacktrace", "ErrorDetails_ScriptStackTrace", "S", 0),
    ("extended_info_present", "SerializeExtendedInfo", "B", 1),
    ("pipeline_iteration_info", "PipelineIterationInfo", "ints", 0),
] + INVOCATION
INFORMATIONAL = [
    ("message", "InformationalRecord_Message", "S", 1),
    ("invocation", "InformationalRecord_SerializeInvocationInfo", "B", 1),
    ("pipeline_iteration_info", "InformationalRecord_PipelineIterationInfo", "ints", 0),
] + INVOCATION
# message type: (class, [(attribute, property name, kind, mandatory)]), [MS-PSRP] 2.2.2
RECEIVED = {
    "capability": (0x00010002, ms.SessionCapability, [("protocol_version", "protocolversion", "Version", 1), ("ps_version", "PSVersion", "Version", 1), ("serialization_version", "SerializationVersion", "Version", 1)]),
    "session_key": (0x00010006, ms.EncryptedSessionKey, [("session_key", "EncryptedSessionKey", "S", 1)]),
    "init_data": (0x0002100B, ms.RunspacePoolInitData, [("min_runspaces", "MinRunspaces", "I32", 1), ("max_runspaces", "MaxRunspaces", "I32", 1)]),
    "availability": (0x00021004, ms.RunspaceAvailability, [("response", "SetMinMaxRunspacesResponse", "avail", 1), ("ci", "ci", "I64", 1)]),
    "pool_state": (0x00021005, ms.RunspacePoolStateMessage, [("state", "RunspaceState", "I32", 1)]),
    "private_data": (0x00021009, ms.ApplicationPrivateData, [("data", "ApplicationPrivateData", "dict", 1)]),
    "user_event": (
        0x00021008,
        ms.UserEvent,
        [
            ("event_id", "PSEventArgs.EventIdentifier", "I32", 1),
            ("source_id", "PSEventArgs.SourceIdentifier", "S", 1),
            ("time", "PSEventArgs.TimeGenerated", "DT", 1),
            ("sender", "PSEventArgs.Sender", "Sor", 1),
            ("args", "PSEventArgs.SourceArgs", "Sor", 1),
            ("data", "PSEventArgs.MessageData", "Sor", 1),
            ("computer", "PSEventArgs.ComputerName", "S", 1),
            ("runspace_id", "PSEventArgs.RunspaceId", "G", 1),
        ],
    ),
    "pool_host_call": (0x00021100, ms.RunspacePoolHostCall, [("ci", "ci", "I64", 1), ("mi", "mi", "enum:System.Management.Automation.Remoting.RemoteHostMethodId", 1), ("mp", "mp", "list", 1)]),
    "pipe_host_call": (0x00041100, ms.PipelineHostCall, [("ci", "ci", "I64", 1), ("mi", "mi", "enum:System.Management.Automation.Remoting.RemoteHostMethodId", 1), ("mp", "mp", "list", 1)]),
    "pipeline_state": (0x00041006, ms.PipelineState, [("state", "PipelineState", "I32", 1)]),
    "error": (0x00041005, ms.ErrorRecordMessage, ERROR),
    "debug": (0x00041007, ms.DebugRecord, INFORMATIONAL),
    "verbose": (0x00041008, ms.VerboseRecord, INFORMATIONAL),
    "warning": (0x00041009, ms.WarningRecord, INFORMATIONAL),
    "progress": (
        0x00041010,
        ms.ProgressRecord,
        [
            ("activity", "Activity", "S", 1),
            ("activity_id", "ActivityId", "I32", 1),
            ("description", "StatusDescription", "Snil", 1),
            ("current_operation", "CurrentOperation", "Snil", 1),
            ("parent_activity_id", "ParentActivityId", "I32", 1),
            ("percent_complete", "PercentComplete", "I32", 1),
            ("progress_type", "Type", "enum:System.Management.Automation.ProgressRecordType", 1),
            ("seconds_remaining", "SecondsRemaining", "I32", 1),
        ],
    ),
    "information": (
        0x00041011,
        ms.InformationRecord,
        [
            ("message_data", "MessageData", "Sor", 1),
            ("source", "Source", "S", 1),
            ("time_generated", "TimeGenerated", "DT", 1),
            ("tags", "Tags", "texts", 1),
            ("user", "User", "S", 1),
            ("computer", "Computer", "S", 1),
            ("pid", "ProcessId", "U32", 1),
            ("native_thread_id", "NativeThreadId", "U32", 1),
            ("managed_thread_id", "ManagedThreadId", "U32", 1),
            ("write_information_stream", "WriteInformationStream", "B", 0),
        ],
    ),
}
# types of the outer object for records the server types
TYPED = {
    "error": ["System.Management.Automation.ErrorRecord", "System.Object"],
    "debug": ["System.Management.Automation.DebugRecord", "System.Management.Automation.InformationalRecord", "System.Object"],
    "information": ["System.Management.Automation.InformationRecord", "System.Object"],
    "progress": ["System.Management.Automation.ProgressRecord", "System.Object"],
}


def split(fields, part, of):
    """Every mandatory field; the optional ones dealt over `of` parts."""
    return [f for i, f in enumerate(fields) if f[3] or i % of == part]


def build(h, which, fields, absent, turned, rich):
    d = Doc(h)
    root = d.obj(TYPED.get(which, ()))
    ET.SubElement(root, "ToString").text = "shown"
    els, checks = [], []
    for attr, name, kind, must in fields:
        if not must and absent(attr):
            checks.append((attr, lambda v: v is None))
            continue
        if kind == "avail":
            kind = h.pick("avail", ["I64", "B"])
        elif kind == "Sor":
            kind = "any" if attr == rich else "S"
        elif kind == "Snil":
            kind = h.pick("nil", ["S", "Nil"]) if attr == rich else "S"
        elif kind == "any" and attr != rich:
            kind = "S"
        e, c = d.make(kind, name)
        els.append(e)
        checks.append((attr, c))
    if turned:
        els.reverse()
        # type names must be defined before they are referred to
        seen = {}
    p = ET.SubElement(root, "MS")
    p.append(d.prim("S", "SomethingNew", "x"))
    for e in els:
        p.append(e)
    if turned:
        fix_tn(root)
    return root, checks


def fix_tn(root):
    """Give the first occurrence of each type name list the definition."""
    defs = {}
    for tn in root.iter("TN"):
        defs[tn.attrib["RefId"]] = [t.text for t in tn]
    seen = []
    for o in root.iter("Obj"):
        for i, c in enumerate(list(o)):
            if c.tag in ("TN", "TNRef"):
                r = c.attrib["RefId"]
                n = ET.Element("TNRef" if r in seen else "TN", RefId=r)
                if r not in seen:
                    for t in defs[r]:
                        ET.SubElement(n, "T").text = t
                seen.append(r)
                o.remove(c)
                o.insert(i, n)


SMALL = ["capability", "session_key", "init_data", "availability", "pool_state", "private_data", "user_event", "pool_host_call", "pipe_host_call", "pipeline_state", "progress", "information"]


@obligation(
    "C09",
    quick=[{"which": w, "part": 0, "of": 1} for w in SMALL] + [{"which": w, "part": p, "of": 6} for w in ("error", "debug", "verbose", "warning") for p in range(6)],
    thorough=[{"which": w, "part": p, "of": 2} for w in ("error", "debug", "verbose", "warning") for p in range(2)],
    bounds="every kind of message a server sends; every field any value of its type (text up to 65536 characters, the whole integer range, lists and dictionaries of up to two entries, nested objects); the optional fields in groups, all absent or all present or each one absent; fields in order or reversed; an unknown field and, in nested objects, fields of the same name as outer ones",
)
def received(h, which, part, of):
    """each field of a message from the server ends up in the attribute documented for it, fields left out are None, and nothing else (order, unknown fields, fields of nested objects, type name references) matters"""
    number, cls, fields = RECEIVED[which]
    fields = split(fields, part, of)
    optional = [f[0] for f in fields if not f[3]]
    gone = h.pick("absent", ["", "*"] + optional) if optional else ""
    odd = [f[0] for f in fields if f[2] in ("Sor", "Snil", "any")]
    rich = h.pick("rich", odd) if odd else None
    form = h.pick("form", ["plain", "reversed", "bom"])
    root, checks = build(h, which, fields, lambda a: gone == "*" or a == gone, form == "reversed", rich)
    data = lib.message(lib.CLIENT, number, lib.RPID, None, ET.tostring(root, encoding="utf-8", method="xml"))
    if form == "bom":
        data = data[:40] + b"\xef\xbb\xbf" + data[40:]
    m = ms.Message.unpack(data, Serializer())
    h.check(isinstance(m.data, cls), "kind of message")
    for attr, c in checks:
        h.check(c(getattr(m.data, attr)), "%s is wrong" % attr)
    h.reach("done")


CONTAINERS = ("ints", "texts", "list", "dict", "exception", "generic", "Sor", "any")


@obligation(
    "C09",
    quick=[{"which": w} for w in ("error", "debug", "verbose", "warning", "user_event", "information", "progress", "pipe_host_call", "private_data")],
    bounds="every kind of message with objects in its fields, all of them present, in order or reversed; names of types and an object used by several fields, told in the first of them in the document, in a field the client does not know or in an object within it; texts up to 65536 characters, whole integer range",
)
def shared(h, which):
    """what is told once in a message and referred to afterwards is known wherever it was told: in a field of its own, in one read later or in one that is not known"""
    number, cls, fields = RECEIVED[which]
    d = Doc(h)
    d.most = 1
    root = d.obj(TYPED.get(which, ()))
    fields = [f for f in fields if f[3] or f[2] in CONTAINERS or f[2].startswith("enum:")]
    odd = [f[0] for f in fields if f[2] in ("Sor", "any", "exception")]
    told = h.pick("told", ["in a field", "in an unknown field", "deep in an unknown field"])
    same = [h.pick("the object", odd)] if odd and h.bool("an object") else []
    if same and len(odd) > 1:
        same.append(h.pick("and again", odd[odd.index(same[0]) + 1 :] or odd[:1]))
    els, checks, first = [], [], None
    for attr, name, kind, must in fields:
        if attr in same:
            if first is None:
                e, c = d.make("generic", name)
                first = (e, c)
            else:
                e, c = ET.Element("Ref", N=name, RefId=first[0].attrib["RefId"]), first[1]
        else:
            e, c = d.make({"Sor": "S", "any": "list", "avail": "I64", "Snil": "S"}.get(kind, kind), name)
        els.append(e)
        checks.append((attr, c))
    if h.bool("reversed"):
        els.reverse()
    p = ET.SubElement(root, "MS")
    for e in els:
        p.append(e)
    if told != "in a field":
        u = ET.Element("Obj", RefId=str(d.ids), N="SomethingNew")
        d.ids += 1
        l = ET.SubElement(u, "LST")
        if told[0] == "d":
            v = ET.SubElement(l, "Obj", RefId=str(d.ids))
            d.ids += 1
            l = ET.SubElement(ET.SubElement(ET.SubElement(v, "MS"), "Obj", N="Inner", RefId=str(d.ids)), "LST")
            d.ids += 1
        for k in d.tns.values():
            o = ET.SubElement(l, "Obj", RefId=str(d.ids))
            d.ids += 1
            ET.SubElement(o, "TNRef", RefId=k)
            ET.SubElement(o, "MS")
        if first is not None:
            l.append(ET.Element("Ref", RefId=first[0].attrib["RefId"]))
        p.insert(0, u)
    if first is not None:
        fix_ref(root, first[0])
    fix_tn(root)
    data = lib.message(lib.CLIENT, number, lib.RPID, None, ET.tostring(root, encoding="utf-8", method="xml"))
    h.reach("told " + told)
    m = ms.Message.unpack(data, Serializer())
    h.check(isinstance(m.data, cls), "kind of message")
    for attr, c in checks:
        h.check(c(getattr(m.data, attr)), "%s is wrong" % attr)


VALID = {
    "System.Management.Automation.CommandOrigin": (0, 1),
    "System.Management.Automation.CommandTypes": (1, 4),
    "System.Management.Automation.SessionStateEntryVisibility": (0, 1),
    "System.Management.Automation.Remoting.RemoteHostMethodId": (1, 54),
    "System.Management.Automation.ProgressRecordType": (0, 1),
}


@obligation(
    "C09",
    quick=[{"which": w, "part": 0, "of": 1} for w in SMALL] + [{"which": w, "part": p, "of": 6} for w in ("error", "debug", "verbose", "warning") for p in range(6)],
    thorough=[{"which": w, "part": p, "of": 3} for w in ("error", "debug", "verbose", "warning") for p in range(3)],
    bounds="every kind of message a server sends, received and sent again, or made from its values and sent; every field any value of its type that is valid; the optional fields in groups, all present or all absent",
)
def again(h, which, part, of):
    """a record that was received, or made from its values, is sent with every field under its name and tag, once, and reads back the same"""
    number, cls, fields = RECEIVED[which]
    fields = split(fields, part, of)
    optional = [f[0] for f in fields if not f[3]]
    gone = bool(optional) and h.bool("the optional ones are absent")
    d = Doc(h)
    d.most, d.valid = 1, VALID
    root = d.obj(TYPED.get(which, ()))
    p = ET.SubElement(root, "MS")
    tags, checks = {}, []
    for attr, name, kind, must in fields:
        if gone and not must:
            checks.append((attr, lambda v: v is None))
            continue
        e, c = d.make({"Sor": "S", "any": "generic" if attr == "target_object" else "list", "avail": "B", "Snil": "S"}.get(kind, kind), name)
        p.append(e)
        tags[name] = e.tag
        checks.append((attr, c))
    data = lib.message(lib.CLIENT, number, lib.RPID, None, ET.tostring(root, encoding="utf-8", method="xml"))
    sr = Serializer()
    m = ms.Message.unpack(data, sr).data
    how = h.pick("how", ["back", "made"])
    if how == "made":
        kw = {a: getattr(m, a) for a, c in checks}
        if which == "error":
            h.assume(kw["extended_info_present"])
            kw["invocation"] = kw.pop("extended_info_present")
        elif "invocation" in kw:
            h.assume(not kw["invocation"])
        m = cls(**kw)
        for attr, c in checks:
            h.check(c(getattr(m, attr)), "%s is not kept" % attr)
    h.reach(how)
    raw = ms.Message(ms.Destination.CLIENT, lib.RPID, None, m, sr).pack()
    n = clixml.read(h, ET.fromstring(raw[40:]))
    if which in ("error", "debug", "information"):
        h.check(n.types == TYPED[which], "the names of its type")
    for name, tag in tags.items():
        hit = [x for x in n.ms if x.name == name]
        h.check(len(hit) == 1 and hit[0].tag == tag, "%s is not sent once" % name)
    h.check(len(set([x.name for x in n.ms])) == len(n.ms), "a field is sent twice")
    h.check(set(x.name for x in n.ms) - set(tags) <= set(f[1] for f in RECEIVED[which][2]), "something else is sent")
    m = ms.Message.unpack(raw, Serializer()).data
    h.check(isinstance(m, cls), "kind of message")
    for attr, c in checks:
        h.check(c(getattr(m, attr)), "%s differs" % attr)


def fix_ref(root, obj):
    """Write the object where it is first, references to it elsewhere."""
    places = []
    for parent in root.iter():
        for i, c in enumerate(list(parent)):
            if c is obj or (c.tag == "Ref" and c.attrib["RefId"] == obj.attrib["RefId"]):
                places.append((parent, i, c.attrib.get("N")))
    full = obj
    for j, (parent, i, name) in enumerate(places):
        if j == 0:
            full.attrib.pop("N", None)
            if name is not None:
                full.attrib["N"] = name
            new = full
        else:
            new = ET.Element("Ref", RefId=full.attrib["RefId"])
            if name is not None:
                new.attrib["N"] = name
        parent.remove(list(parent)[i])
        parent.insert(i, new)


@obligation("C09", quick=[{"which": w} for w in SMALL + ["error", "warning"]], bounds="every kind of message a server sends, one mandatory field left out, any values in the others")
def mandatory(h, which):
    """a message that lacks a mandatory field is refused with an error instead of being passed on with a made up value"""
    from pypsrp.exceptions import SerializationError

    number, cls, fields = RECEIVED[which]
    fields = [f for f in fields if f[3]]
    gone = h.pick("gone", [f[0] for f in fields])
    root, checks = build(h, which, [f for f in fields if f[0] != gone], lambda a: False, False, None)
    data = lib.message(lib.CLIENT, number, lib.RPID, None, ET.tostring(root, encoding="utf-8", method="xml"))
    try:
        ms.Message.unpack(data, Serializer())
    except SerializationError:
        h.reach("refused")
        return
    h.fail("a message without its mandatory field is accepted")


@obligation("C09", quick=[{}], bounds="pipeline and pool state messages with an error record: any message text, category, present or absent; typed or not")
def state_errors(h):
    """the error record of a failed pipeline or pool is passed on with its fields"""
    pool = h.bool("pool")
    d = Doc(h)
    root = d.obj()
    p = ET.SubElement(root, "MS")
    st = h.int("state", 0, 8)
    p.append(d.prim("I32", "RunspaceState" if pool else "PipelineState", str(st)))
    err = None
    checks = []
    if h.bool("error"):
        err = d.obj(["System.Management.Automation.ErrorRecord", "System.Object"], "ExceptionAsErrorRecord")
        ET.SubElement(err, "ToString").text = "shown"
        q = ET.SubElement(err, "MS")
        for attr, name, kind, must in ERROR:
            if must or attr in ("exception", "message"):
                e, c = d.make(kind, name)
                q.append(e)
                checks.append((attr, c))
        if h.bool("first"):
            p.insert(0, err)
        else:
            p.append(err)
    data = lib.message(lib.CLIENT, 0x00021005 if pool else 0x00041006, lib.RPID, None, ET.tostring(root, encoding="utf-8", method="xml"))
    m = ms.Message.unpack(data, Serializer()).data
    h.check(m.state == st, "state")
    if err is None:
        h.check(m.error_record is None, "an error record is made up")
    else:
        h.check(isinstance(m.error_record, co.ErrorRecord), "no error record")
        h.check(str(m.error_record) == "shown", "text of the error record")
        for attr, c in checks:
            h.check(c(getattr(m.error_record, attr)), "%s of the error record is wrong" % attr)
    h.reach("done")


def sent(h, m, number, pid=None):
    """Pack a message and return the reference reading of its data."""
    raw = ms.Message(ms.Destination.SERVER, lib.RPID, pid, m, Serializer()).pack()
    h.check(raw[:40] == lib.message(lib.SERVER, number, lib.RPID, pid, b""), "header")
    return clixml.read(h, ET.fromstring(raw[40:]))


def fields(h, node, want, what):
    """The message holds exactly the given extended properties."""
    h.check(node.tag == "Obj" and not node.props and not node.sets, what + ": sections")
    got = node.ms or []
    h.check(len(got) == len(want), what + ": number of fields")
    for name, tag, text in want:
        hit = [n for n in got if n.name == name or (name == "ci" and n.name in ("ci", "CI"))]
        h.check(len(hit) == 1, "%s: %s missing" % (what, name))
        if tag is None:
            text(hit[0])
            continue
        h.check(hit[0].tag == tag, "%s: tag of %s" % (what, name))
        if text is not None:
            clixml.same_text(h, hit[0], text, what + ": " + name)


def enum_node(h, types, value):
    def chk(n):
        h.check(n.tag == "Obj" and n.types == types + ENUM, "enum types")
        h.check(len(n.sets) == 1 and n.sets[0].tag == "I32" and n.sets[0].name is None, "enum value")
        h.check(n.sets[0].text == str(value), "enum value")

    return chk


@obligation("C09", quick=[{}], bounds="every field any value of its type: 32/64 bit integers, text up to 65536 characters, time zone any bytes or absent, up to three names; every thread option and apartment state")
def messages_sent(h):
    """each message the client sends carries exactly the fields MS-PSRP defines for it, under their names and tags, with the values given"""
    which = h.pick("which", ["capability", "init", "public_key", "max", "min", "avail", "connect", "connect_empty", "reset", "end", "metadata", "host_response", "input"])
    i = h.int("i", -(2**31), 2**31 - 1)
    j = h.int("j", -(2**63), 2**63 - 1)
    t = h.text("t", 0, 1 << 16)
    if which == "capability":
        tz = h.blob("tz", 1, 1 << 10) if h.bool("zone") else None
        n = sent(h, ms.SessionCapability(protocol_version="2.3", ps_version="2.0", serialization_version="1.1.0.1", time_zone=tz), 0x00010002)
        want = [("protocolversion", "Version", "2.3"), ("PSVersion", "Version", "2.0"), ("SerializationVersion", "Version", "1.1.0.1")]
        if tz is not None:
            import base64

            want.append(("TimeZone", "BA", base64.b64encode(tz).decode("ascii")))
        fields(h, n, want, which)
    elif which == "init":
        th = h.pick("thread", [0, 1, 2, 3])
        ap = h.pick("apartment", [0, 1, 2])
        mx = h.int("mx", -(2**31), 2**31 - 1)
        args = h.pick("args", [0, 1])

        def appargs(n):
            if not args:
                h.check(n.tag == "Nil", "application arguments")
                return
            h.check(n.container == "DCT" and n.types == ["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"], "application arguments types")
            h.check(len(n.items) == 1 and n.items[0][0].text == "k", "application arguments key")
            clixml.check_value(h, n.items[0][1], t)

        def host(n):
            h.check(n.tag == "Obj", "host info")
            for x in ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost"):
                h.check(n.msv(x) is not None and n.msv(x).tag == "B" and n.msv(x).text == "true", "host info " + x)

        n = sent(
            h,
            ms.InitRunspacePool(i, mx, co.PSThreadOptions(value=th), co.ApartmentState(value=ap), co.HostInfo(host=None), {"k": t} if args else None),
            0x00010004,
        )
        fields(
            h,
            n,
            [
                ("MinRunspaces", "I32", str(i)),
                ("MaxRunspaces", "I32", str(mx)),
                ("PSThreadOptions", None, enum_node(h, ["System.Management.Automation.Runspaces.PSThreadOptions"], th)),
                ("ApartmentState", None, enum_node(h, ["System.Management.Automation.Runspaces.ApartmentState"], ap)),
                ("HostInfo", None, host),
                ("ApplicationArguments", None, appargs),
            ],
            which,
        )
    elif which == "public_key":
        fields(h, sent(h, ms.PublicKey(public_key=t), 0x00010005), [("PublicKey", "S", t)], which)
    elif which == "max":
        fields(h, sent(h, ms.SetMaxRunspaces(i, j), 0x00021002), [("MaxRunspaces", "I32", str(i)), ("ci", "I64", str(j))], which)
    elif which == "min":
        fields(h, sent(h, ms.SetMinRunspaces(i, j), 0x00021003), [("MinRunspaces", "I32", str(i)), ("ci", "I64", str(j))], which)
    elif which == "avail":
        fields(h, sent(h, ms.GetAvailableRunspaces(j), 0x00021007), [("ci", "I64", str(j))], which)
    elif which == "connect":
        fields(h, sent(h, ms.ConnectRunspacePool(i, i), 0x00010008), [("MinRunspaces", "I32", str(i)), ("MaxRunspaces", "I32", str(i))], which)
    elif which == "connect_empty":
        n = sent(h, ms.ConnectRunspacePool(), 0x00010008)
        h.check(n.tag == "S" and not n.text, "empty connect")
    elif which == "reset":
        fields(h, sent(h, ms.ResetRunspaceState(j), 0x0002100C), [("ci", "I64", str(j))], which)
    elif which == "end":
        raw = ms.Message(ms.Destination.SERVER, lib.RPID, lib.PID, ms.EndOfPipelineInput(), Serializer()).pack()
        h.check(raw == lib.message(lib.SERVER, 0x00041003, lib.RPID, lib.PID, b""), "end of input")
    elif which == "metadata":
        names = [h.text("name", 0, 100) for _ in range(h.count("n", 0, 3))]
        n = sent(h, ms.GetCommandMetadata(names, co.CommandType(value=co.CommandType.ALL), [t], []), 0x0002100A)

        def lst(vals):
            def chk(x):
                h.check(x.container == "LST" and len(x.items) == len(vals), "list")
                for a, b in zip(x.items, vals):
                    clixml.check_value(h, a, b)

            return chk

        fields(h, n, [("Name", None, lst(names)), ("CommandType", None, enum_node(h, ["System.Management.Automation.CommandTypes"], 0x1FF)), ("Namespace", None, lst([t])), ("ArgumentList", None, lst([]))], which)
    elif which == "host_response":
        pipe = h.bool("pipe") and True
        cls = ms.PipelineHostResponse if pipe else ms.RunspacePoolHostResponse
        k = h.pick("mi", [1, 11, 23, 46, 50])
        m = co.HostMethodIdentifier(value=k)
        n = sent(h, cls(ci=j, mi=m, mr=t), 0x00041101 if pipe else 0x00021101, lib.PID if pipe else None)
        fields(h, n, [("ci", "I64", str(j)), ("mi", None, enum_node(h, ["System.Management.Automation.Remoting.RemoteHostMethodId"], k)), ("mr", "S", t)], which)
    else:
        n = sent(h, ms.PipelineInput(data=t), 0x00041002, lib.PID)
        clixml.check_value(h, n, t)
    h.reach(which)
