"""Server messages with one text each, for harnesses about delivery."""
import xml.etree.ElementTree as ET

from props import peer

OUTPUT, ERROR, STATE, DEBUG, VERBOSE, WARNING, PROGRESS, INFORMATION = 0x00041004, 0x00041005, 0x00041006, 0x00041007, 0x00041008, 0x00041009, 0x00041010, 0x00041011
POOL_STATE, AVAILABILITY, INIT_DATA, PRIVATE_DATA, USER_EVENT = 0x00021005, 0x00021004, 0x0002100B, 0x00021009, 0x00021008
POOL_CALL, PIPE_CALL = 0x00021100, 0x00041100
E = peer.el


def typed(types, o):
    tn = ET.Element("TN", RefId="0")
    for t in types:
        ET.SubElement(tn, "T").text = t
    o.insert(0, tn)
    return o


def error_obj(text, name=None):
    o = typed(
        ["System.Management.Automation.ErrorRecord", "System.Object"],
        peer.obj(0, [E("S", "FullyQualifiedErrorId", text), E("I32", "ErrorCategory_Category", "0"), E("B", "SerializeExtendedInfo", "false")]),
    )
    o.insert(1, E("ToString", None, text))
    if name:
        o.attrib["N"] = name
    return o


def error(text):
    return peer.xb(error_obj(text))


def informational(text):
    o = peer.obj(0, [E("S", "InformationalRecord_Message", text), E("B", "InformationalRecord_SerializeInvocationInfo", "false")])
    o.insert(0, E("ToString", None, text))
    return peer.xb(o)


def progress(text):
    t = typed(["System.Management.Automation.ProgressRecordType", "System.Enum", "System.ValueType", "System.Object"], ET.Element("Obj", N="Type", RefId="1"))
    t.append(E("ToString", None, "Processing"))
    t.append(E("I32", None, "0"))
    return peer.xb(
        peer.obj(
            0,
            [
                E("S", "Activity", text),
                E("I32", "ActivityId", "1"),
                E("S", "StatusDescription", "d"),
                E("S", "CurrentOperation", "c"),
                E("I32", "ParentActivityId", "-1"),
                E("I32", "PercentComplete", "5"),
                t,
                E("I32", "SecondsRemaining", "-1"),
            ],
        )
    )


def information(text):
    tags = typed(["System.Collections.Generic.List`1[[System.String]]", "System.Object"], ET.Element("Obj", N="Tags", RefId="1"))
    ET.SubElement(tags, "LST")
    return peer.xb(
        peer.obj(
            0,
            [
                E("S", "MessageData", text),
                E("S", "Source", "s"),
                E("DT", "TimeGenerated", "2018-09-11T13:36:00.0000000+10:00"),
                tags,
                E("S", "User", "u"),
                E("S", "Computer", "c"),
                E("U32", "ProcessId", "1"),
                E("U32", "NativeThreadId", "0"),
                E("U32", "ManagedThreadId", "0"),
            ],
        )
    )


def availability(ci, response):
    r = E("B", "SetMinMaxRunspacesResponse", "true" if response else "false") if isinstance(response, bool) else E("I64", "SetMinMaxRunspacesResponse", str(response))
    return peer.xb(peer.obj(0, [r, E("I64", "ci", str(ci))]))


def init_data(mn, mx):
    return peer.xb(peer.obj(0, [E("I32", "MinRunspaces", str(mn)), E("I32", "MaxRunspaces", str(mx))]))


def private_data(key="k", value="v"):
    d = typed(["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"], ET.Element("Obj", N="ApplicationPrivateData", RefId="1"))
    en = ET.SubElement(ET.SubElement(d, "DCT"), "En")
    en.append(E("S", "Key", key))
    en.append(E("S", "Value", value))
    return peer.xb(peer.obj(0, [d]))


def user_event(text):
    return peer.xb(
        peer.obj(
            0,
            [
                E("I32", "PSEventArgs.EventIdentifier", "1"),
                E("S", "PSEventArgs.SourceIdentifier", text),
                E("DT", "PSEventArgs.TimeGenerated", "2018-09-11T13:36:00.0000000+10:00"),
                E("Nil", "PSEventArgs.Sender"),
                E("Nil", "PSEventArgs.SourceArgs"),
                E("Nil", "PSEventArgs.MessageData"),
                E("S", "PSEventArgs.ComputerName", "c"),
                E("G", "PSEventArgs.RunspaceId", "0a1b2c3d-4e5f-6071-8293-a4b5c6d7e8f9"),
            ],
        )
    )


def pipe_state(state, err=None):
    ps = [E("I32", "PipelineState", str(state))]
    if err is not None:
        ps.append(error_obj(err, "ExceptionAsErrorRecord"))
    return peer.xb(peer.obj(5, ps))


STREAMS = {
    "error": (ERROR, error, lambda r: r.fq_error),
    "debug": (DEBUG, informational, lambda r: r.message),
    "verbose": (VERBOSE, informational, lambda r: r.message),
    "warning": (WARNING, informational, lambda r: r.message),
    "progress": (PROGRESS, progress, lambda r: r.activity),
    "information": (INFORMATION, information, lambda r: r.message_data),
}
