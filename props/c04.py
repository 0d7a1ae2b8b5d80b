"""C04: header codecs."""
import uuid

from props import lib, peer
from symx.api import obligation

from pypsrp.messages import Destination, EndOfPipelineInput, Message, MessageType, PipelineInput, PipelineOutput
from pypsrp.powershell import Fragment
from pypsrp.serializer import Serializer


def guid_text(h, name):
    """Any GUID in its text form (hex digits concrete-shaped, bytes symbolic)."""
    return h.bytes(name, 16)


@obligation("C04", bounds="any 64 bit object and fragment ids, any flags, any data up to 2^31 bytes")
def fragment_pack(h):
    """a fragment is packed as big endian object id, fragment id, flag byte (1 start, 2 end, nothing else), 32 bit length, data"""
    oid = h.int("oid", 0, (1 << 64) - 1)
    fid = h.int("fid", 0, (1 << 64) - 1)
    s, e = h.bool("start"), h.bool("end")
    blob = h.blob("data", 0, 1 << 31)
    raw = Fragment(oid, fid, blob, s, e).pack()
    h.check(raw == lib.fragment(oid, fid, s, e, blob), "packed bytes differ")
    h.observe("head", raw[:21])
    h.reach("done")


@obligation("C04", bounds="any 21 header bytes in front of any data of at least the announced length (up to 2^31 bytes), followed by any rest")
def fragment_unpack(h):
    """unpacking reads those fields back exactly (reserved flag bits ignored), takes exactly the announced number of bytes and returns the rest untouched"""
    import struct

    oid = h.int("oid", 0, (1 << 64) - 1)
    fid = h.int("fid", 0, (1 << 64) - 1)
    flags = h.bytes("flags", 1)
    blob = h.blob("data", 0, 1 << 31)
    rest = h.blob("rest", 0, 1 << 20)
    raw = struct.pack(">Q", oid) + struct.pack(">Q", fid) + flags + struct.pack(">I", len(blob)) + blob + rest
    f, left = Fragment.unpack(raw)
    h.check(f.object_id == oid, "object id")
    h.check(f.fragment_id == fid, "fragment id")
    n = flags[0]
    h.check(f.start == (n % 2 == 1), "start flag")
    h.check(f.end == ((n // 2) % 2 == 1), "end flag")
    h.check(f.data == blob, "data")
    h.check(left == rest, "rest")
    h.observe("oid", f.object_id)
    h.observe("flags", [f.start, f.end])
    h.reach("done")


@obligation("C04", bounds="any run of two fragments with any ids, flags and data lengths up to 2^20")
def fragment_run(h):
    """packed fragments placed one after the other unpack one by one into the same fragments"""
    fs = []
    raw = b""
    for i in range(2):
        f = (h.int("oid", 0, (1 << 64) - 1), h.int("fid", 0, (1 << 64) - 1), h.blob("data", 0, 1 << 20), h.bool("start"), h.bool("end"))
        fs.append(f)
        raw = raw + Fragment(*f).pack()
    for f in fs:
        g, raw = Fragment.unpack(raw)
        h.check(h.all(g.object_id == f[0], g.fragment_id == f[1], g.data == f[2], g.start == f[3], g.end == f[4]), "fragment differs")
    h.check(len(raw) == 0, "bytes left over")
    h.reach("done")


@obligation("C04", bounds="any destination, any pool and pipeline ids (16 bytes each; the pipeline id may be absent), any text up to 2^20 characters")
def message_pack(h):
    """a message is packed as little endian destination and type, the two ids in little endian GUID form, then the UTF-8 XML without a byte order mark; an absent id is all zero"""
    import struct

    dest = h.pick("dest", [Destination.CLIENT, Destination.SERVER])
    rb = h.bytes("rpid", 16)
    pb = h.bytes("pid", 16)
    rpid = str(uuid.UUID(bytes=rb))
    with_pid = h.bool("has pid")
    pid = str(uuid.UUID(bytes=pb)) if with_pid else None
    text = h.text("text", 1, 1 << 20)
    if h.bool("end"):
        m, mtype, data = EndOfPipelineInput(), 0x00041003, b""
    else:
        m, mtype, data = PipelineInput(data=text), 0x00041002, peer.xb(peer.el("S", None, text))
    raw = Message(dest, rpid, pid, m, Serializer()).pack()
    want = struct.pack("<I", dest) + struct.pack("<I", mtype)
    for b, present in ((rb, True), (pb, with_pid)):
        if present:
            want = want + b[3:4] + b[2:3] + b[1:2] + b[0:1] + b[5:6] + b[4:5] + b[7:8] + b[6:7] + b[8:16]
        else:
            want = want + b"\x00" * 16
    want = want + data
    h.check(raw == want, "packed bytes differ")
    h.observe("head", raw[:40])
    h.reach("done")


@obligation("C04", bounds="any destination value, any two 16 byte ids, with and without a byte order mark, any text up to 2^20 characters")
def message_unpack(h):
    """unpacking reads the fields back exactly and ignores a byte order mark in front of the XML"""
    import struct

    dest = h.int("dest", 0, (1 << 32) - 1)
    rb = h.bytes("rpid", 16)
    pb = h.bytes("pid", 16)
    text = h.text("text", 1, 1 << 20)
    bom = b"\xef\xbb\xbf" if h.bool("bom") else b""
    raw = struct.pack("<I", dest) + struct.pack("<I", 0x00041004) + rb + pb + bom + peer.xb(peer.el("S", None, text))
    m = Message.unpack(raw, Serializer())
    h.check(m.destination == dest, "destination")
    h.check(m.message_type == MessageType.PIPELINE_OUTPUT, "type")
    h.check(isinstance(m.data, PipelineOutput) and m.data.data == text, "data")
    for got, b, what in ((m.rpid, rb, "rpid"), (m.pid, pb, "pid")):
        h.check(got.bytes_le == b, what)
    h.observe("dest", m.destination)
    h.reach("done")


TYPES = {
    "SESSION_CAPABILITY": 0x00010002,
    "INIT_RUNSPACEPOOL": 0x00010004,
    "PUBLIC_KEY": 0x00010005,
    "ENCRYPTED_SESSION_KEY": 0x00010006,
    "PUBLIC_KEY_REQUEST": 0x00010007,
    "CONNECT_RUNSPACEPOOL": 0x00010008,
    "RUNSPACEPOOL_INIT_DATA": 0x0002100B,
    "RESET_RUNSPACE_STATE": 0x0002100C,
    "SET_MAX_RUNSPACES": 0x00021002,
    "SET_MIN_RUNSPACES": 0x00021003,
    "RUNSPACE_AVAILABILITY": 0x00021004,
    "RUNSPACEPOOL_STATE": 0x00021005,
    "CREATE_PIPELINE": 0x00021006,
    "GET_AVAILABLE_RUNSPACES": 0x00021007,
    "USER_EVENT": 0x00021008,
    "APPLICATION_PRIVATE_DATA": 0x00021009,
    "GET_COMMAND_METADATA": 0x0002100A,
    "RUNSPACEPOOL_HOST_CALL": 0x00021100,
    "RUNSPACEPOOL_HOST_RESPONSE": 0x00021101,
    "PIPELINE_INPUT": 0x00041002,
    "END_OF_PIPELINE_INPUT": 0x00041003,
    "PIPELINE_OUTPUT": 0x00041004,
    "ERROR_RECORD": 0x00041005,
    "PIPELINE_STATE": 0x00041006,
    "DEBUG_RECORD": 0x00041007,
    "VERBOSE_RECORD": 0x00041008,
    "WARNING_RECORD": 0x00041009,
    "PROGRESS_RECORD": 0x00041010,
    "INFORMATION_RECORD": 0x00041011,
    "PIPELINE_HOST_CALL": 0x00041100,
    "PIPELINE_HOST_RESPONSE": 0x00041101,
}


@obligation("C04", bounds="every message type of the specification")
def message_types(h):
    """the type number of every message class is the specification's"""
    name = h.pick("type", sorted(TYPES))
    h.check(getattr(MessageType, name) == TYPES[name], "type number of %s" % name)
    h.reach("done")
