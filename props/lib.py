"""Reference pieces shared by the harnesses, written from MS-PSRP/MS-WSMV and
not from the code under test.  This module runs symbolically and concretely."""
import base64
import struct
import uuid
import xml.etree.ElementTree as ET

RPID = "6F9C4E8A-1B2D-4C3E-8F70-0123456789AB"
PID = "0A1B2C3D-4E5F-6071-8293-A4B5C6D7E8F9"
PID2 = "1A1B2C3D-4E5F-6071-8293-A4B5C6D7E8F9"

NIL = "00000000-0000-0000-0000-000000000000"
CLIENT = 1
SERVER = 2


def message(dest, mtype, rpid, pid, data):
    """[MS-PSRP] 2.2.1: destination, type, RPID, PID (little endian GUIDs), data."""
    out = struct.pack("<I", dest) + struct.pack("<I", mtype)
    out = out + uuid.UUID(rpid or NIL).bytes_le + uuid.UUID(pid or NIL).bytes_le
    return out + data


def fragment(oid, fid, start, end, blob):
    """[MS-PSRP] 2.2.4: one fragment.  start/end may be symbolic booleans."""
    flags = (1 if start else 0) + (2 if end else 0)
    return struct.pack(">Q", oid) + struct.pack(">Q", fid) + struct.pack("B", flags) + struct.pack(">I", len(blob)) + blob


class Frag(object):
    def __init__(self, oid, fid, start, end, data):
        self.oid, self.fid, self.start, self.end, self.data = oid, fid, start, end, data


def parse_fragments(h, data):
    """Reference parser of a run of fragments (fails the check on bad framing)."""
    out = []
    while len(data) > 0:
        h.check(len(data) >= 21, "a fragment is shorter than its header")
        oid = struct.unpack(">Q", data[0:8])[0]
        fid = struct.unpack(">Q", data[8:16])[0]
        flags = struct.unpack("B", data[16:17])[0]
        n = struct.unpack(">I", data[17:21])[0]
        h.check(len(data) >= n + 21, "a fragment's blob length exceeds the data")
        out.append(Frag(oid, fid, flags % 2 == 1, (flags // 2) % 2 == 1, data[21 : 21 + n]))
        data = data[21 + n :]
    return out


def reassemble(h, frags, what="stream"):
    """Reference reassembly of an in-order run of fragments of whole messages:
    returns [(object id, bytes)] and checks numbering and start/end marks."""
    msgs = []
    cur = None
    for f in frags:
        if cur is None:
            h.check(f.start, "%s: first fragment of a message is not marked start" % what)
            h.check(f.fid == 0, "%s: first fragment id is not 0" % what)
            cur = [f.oid, f.data, 1]
        else:
            h.check(h.no(f.start), "%s: later fragment is marked start" % what)
            h.check(f.oid == cur[0], "%s: object id changes inside a message" % what)
            h.check(f.fid == cur[2], "%s: fragment ids are not consecutive" % what)
            cur[1] = cur[1] + f.data
            cur[2] += 1
        if f.end:
            msgs.append((cur[0], cur[1]))
            cur = None
    h.check(cur is None, "%s: the last message has no end fragment" % what)
    return msgs


def odd(h, name, lo, hi, before=" A\\\"$,&<", after="\u00e9;'@b|%, "):
    """a text of up to hi characters between some that careless handling changes"""
    return before + h.text(name, lo, hi) + after
