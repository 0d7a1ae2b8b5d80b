"""C01: fragmentation is lossless."""
import xml.etree.ElementTree as ET

from props import lib
from symx.api import obligation

from pypsrp.messages import EndOfPipelineInput, MessageType, PipelineInput
from pypsrp.powershell import Fragmenter
from pypsrp.serializer import Serializer


def ref_input(text, pid):
    # MS-PSRP 2.2.2.17: the data is the serialised object itself
    e = ET.Element("S")
    e.text = text
    return lib.message(lib.SERVER, 0x00041002, lib.RPID, pid, ET.tostring(e, encoding="utf-8", method="xml"))


def same_id(a, b):
    return str(a).upper() == b


@obligation(
    "C01",
    quick=[{"k": 3, "lo": 22}, {"k": 10, "lo": 140}, {"k": 300, "lo": 140, "exact": True}],
    thorough=[{"k": 12, "lo": 22}, {"k": 80, "lo": 140}, {"k": 1500, "lo": 140, "exact": True}],
    bounds="one message whose data has any length such that it takes at most (exact: exactly) k fragments (text of up to 2^21 characters), any fragment size limit from lo to 2^20 bytes, with and without a pipeline id",
)
def one_message(h, k, lo, exact=False):
    """fragment() emits ids 0..n-1 under one object id with start only on the first and end only on the last, and the blobs concatenate to exactly the message's bytes; defragment() of them returns the message"""
    size = h.int("size", lo, 1 << 20)
    text = h.text("text", 0, 1 << 21)
    pid = lib.PID if h.bool("pid") else None
    h.assume(len(text) + 47 <= (size - 21) * k)
    if exact:
        h.assume(len(text) + 47 > (size - 21) * (k - 1))
    fr = Fragmenter(size, Serializer())
    frags = fr.fragment(PipelineInput(data=text), lib.RPID, pid)
    h.check(len(frags) >= 1, "no fragment at all")
    stream = b""
    parsed = []
    if exact:
        for f in frags:
            parsed.extend(lib.parse_fragments(h, f))
    else:
        for f in frags:
            stream = stream + f
        parsed = lib.parse_fragments(h, stream)
    h.check(len(parsed) == len(frags), "a packed fragment does not hold one fragment")
    msgs = lib.reassemble(h, parsed)
    h.check(len(msgs) == 1, "not one message")
    want = ref_input(text, pid)
    h.check(msgs[0][1] == want, "the blobs do not concatenate to the message")
    h.observe("n", len(frags))
    h.observe("oid", msgs[0][0])
    if len(frags) > 1:
        h.reach("several fragments")
    else:
        h.reach("one fragment")
    if exact:
        return
    out = Fragmenter(size, Serializer()).defragment(stream)
    h.check(len(out) == 1, "defragment does not return one message")
    m = out[0]
    h.check(m.message_type == MessageType.PIPELINE_INPUT, "type")
    h.check(same_id(m.rpid, lib.RPID) and same_id(m.pid, pid or lib.NIL), "ids")
    h.check(m.data.data == text, "defragment(fragment(m)) lost data")


@obligation(
    "C01",
    quick=[{"n": 2, "k": 3, "lo": 62}, {"n": 2, "k": 6, "lo": 140}, {"n": 3, "k": 3, "lo": 140}, {"n": 4, "k": 2, "lo": 140}],
    thorough=[{"n": 2, "k": 8, "lo": 62}, {"n": 2, "k": 30, "lo": 140}, {"n": 3, "k": 5, "lo": 140}, {"n": 4, "k": 3, "lo": 140}, {"n": 5, "k": 2, "lo": 140}],
    bounds="n messages (the last one the end-of-input message) of any lengths that take at most k payloads in total, any fragment size limit from lo to 2^20 bytes",
)
def packed_messages(h, n, k, lo):
    """fragment_multiple() (the batching used for pool creation and pipeline input) loses, duplicates and reorders nothing: the concatenated payloads parse into the messages in order under distinct object ids, and no payload splits a fragment"""
    size = h.int("size", lo, 1 << 20)
    texts = [h.text("text", 0, 1 << 20) for _ in range(n - 1)]
    total = 61 * n
    for t in texts:
        total = total + len(t) + 7
    h.assume(total <= (size - 21) * (k - 1))
    fr = Fragmenter(size, Serializer())
    blocks = [PipelineInput(data=t) for t in texts] + [EndOfPipelineInput()]
    payloads = fr.fragment_multiple(blocks, lib.RPID, lib.PID)
    parsed = []
    for p in payloads:
        h.check(len(p) > 0, "empty payload")
        parsed.extend(lib.parse_fragments(h, p))
    msgs = lib.reassemble(h, parsed)
    h.check(len(msgs) == n, "not %d messages" % n)
    want = [ref_input(t, lib.PID) for t in texts] + [lib.message(lib.SERVER, 0x00041003, lib.RPID, lib.PID, b"")]
    for i in range(n):
        h.check(msgs[i][1] == want[i], "message %d differs" % i)
        for j in range(i):
            h.check(msgs[i][0] != msgs[j][0], "two messages share an object id")
    if len(payloads) < n:
        h.reach("messages share a payload")
    else:
        h.reach("a message spans payloads")
    h.observe("payloads", len(payloads))


@obligation(
    "C01",
    quick={"n": 3},
    thorough={"n": 6},
    bounds="n consecutive calls of fragment()/fragment_multiple() on one fragmenter, each taking any of the two forms",
)
def object_ids(h, n):
    """object ids are positive and never reused by later calls on the same connection"""
    fr = Fragmenter(64, Serializer())
    seen = []
    for i in range(n):
        if h.bool("multi"):
            out = fr.fragment_multiple([PipelineInput(data="aaaaaaaaaaaaaaa"), EndOfPipelineInput()], lib.RPID, lib.PID)
        else:
            out = fr.fragment(PipelineInput(data="aaaaaaaaaaaaaaaaaaaaaaaa"), lib.RPID, lib.PID)
        parsed = []
        for p in out:
            parsed.extend(lib.parse_fragments(h, p))
        for oid, _ in lib.reassemble(h, parsed):
            h.check(oid > 0, "object id 0")
            h.check(oid not in seen, "object id reused")
            seen.append(oid)
    h.reach("done")
