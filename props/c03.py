"""C03: reassembly of interleaved fragments."""
from props import lib, peer
from symx.api import obligation

from pypsrp.exceptions import FragmentError
from pypsrp.messages import MessageType
from pypsrp.powershell import Fragmenter
from pypsrp.serializer import Serializer


def make(h, i, n, free):
    """A server message cut into n fragments at any points: [(oid, fid, start, end, blob)], text"""
    text = h.text("text", 0, 5000)
    raw = lib.message(lib.CLIENT, 0x00041004, lib.RPID, lib.PID, peer.output(text))
    cuts = [0]
    for j in range(n - 1):
        c = h.int("cut", 0, 5100)
        h.assume(c >= cuts[-1])
        h.assume(c <= len(raw))
        if free:
            # a boundary inside the fixed 40 byte header is as good as its ends
            h.assume(h.any(c <= 1, c >= 40))
        else:
            h.assume(h.all(c >= 44, c <= len(raw) - 4, c > cuts[-1]))
        cuts.append(c)
    cuts.append(len(raw))
    return [(i + 1, j, j == 0, j == n - 1, raw[cuts[j] : cuts[j + 1]]) for j in range(n)], text


@obligation(
    "C03",
    quick=[{"shape": [1, 1, 1]}, {"shape": [3, 2]}, {"shape": [2, 2, 1]}, {"shape": [4]}],
    thorough=[{"shape": [4, 3]}, {"shape": [3, 3]}, {"shape": [2, 2, 2]}, {"shape": [3, 2, 1]}, {"shape": [1, 1, 1, 1]}, {"shape": [6]}],
    bounds="messages with any text up to 5000 characters, cut into the given numbers of fragments at any points inside the text, fragments interleaved in every order and grouped into received payloads in every way",
)
def interleaved(h, shape):
    """however the fragments of several messages are interleaved and grouped into payloads, each message comes out exactly once, intact, as soon as its last fragment arrived and in that order"""
    run(h, shape, False)


@obligation(
    "C03",
    quick=[{"shape": [2, 2]}, {"shape": [3]}],
    thorough=[{"shape": [3, 3]}, {"shape": [4]}, {"shape": [2, 2, 2]}],
    bounds="messages with any text up to 5000 characters, cut into the given numbers of fragments at any points (also into empty fragments; at the ends of or behind the 40 byte header), in one payload, round robin",
)
def cuts(h, shape):
    """wherever a message is cut, even into empty pieces, it is put together again"""
    run(h, shape, True)


def run(h, shape, free):
    parts, texts = [], []
    for i, n in enumerate(shape):
        p, t = make(h, i, n, free)
        parts.append(list(p))
        texts.append(t)
    fr = Fragmenter(32768, Serializer())
    got, want = [], []
    payload = b""
    turn = 0
    while any(parts):
        live = [i for i, p in enumerate(parts) if p]
        if free or len(live) == 1:
            i = live[turn % len(live)]
            turn += 1
        else:
            i = h.pick("next", live)
        oid, fid, s, e, blob = parts[i].pop(0)
        payload = payload + lib.fragment(oid, fid, s, e, blob)
        if e:
            want.append(i)
        if not any(parts) or (not free and h.bool("flush")):
            msgs = fr.defragment(payload)
            payload = b""
            got.extend(msgs)
            h.check(len(got) == len(want), "wrong number of messages after a payload")
    h.check(len(got) == len(want), "messages lost")
    for m, i in zip(got, want):
        h.check(m.message_type == MessageType.PIPELINE_OUTPUT, "message type")
        h.check(m.data.data == texts[i], "message %d altered" % i)
        h.check(m.pid.hex == lib.PID.replace("-", "").lower(), "pid")
    h.observe("order", want)
    h.reach("done")


@obligation(
    "C03",
    quick={"n": 3, "steps": 3},
    thorough={"n": 4, "steps": 5},
    bounds="any sequence of fragment ids of one message (each any of 0..n-1), in any grouping; the message has n fragments",
)
def out_of_order(h, n, steps):
    """a fragment that is not the next one of its message (missing, repeated, reordered) raises FragmentError and is never merged"""
    text = "abcdefghijklmnopqrstuvwxyz"
    raw = lib.message(lib.CLIENT, 0x00041004, lib.RPID, lib.PID, peer.output(text))
    step = len(raw) // n + 1
    fr = Fragmenter(32768, Serializer())
    expect = 0
    done = 0
    for _ in range(steps):
        fid = h.count("fid", 0, n - 1)
        f = lib.fragment(7, fid, fid == 0, fid == n - 1, raw[fid * step : (fid + 1) * step])
        try:
            out = fr.defragment(f)
        except FragmentError:
            h.check(fid != expect, "the expected fragment is rejected")
            h.reach("rejected")
            h.observe("rejected", fid)
            return
        h.check(fid == expect, "an unexpected fragment is accepted")
        expect += 1
        if fid == n - 1:
            h.check(len(out) == 1 and out[0].data.data == text, "message altered")
            done += 1
            expect = 0
        else:
            h.check(out == [], "a message comes out early")
    h.observe("done", done)
    h.reach("accepted")


@obligation("C03", bounds="any two different 64 bit object ids, any 64 bit fragment id other than the expected one")
def ids(h):
    """messages are told apart by the full 64 bit object id, and the whole 64 bit fragment id is compared with the expected one"""
    a = h.int("a", 0, (1 << 64) - 1)
    b = h.int("b", 0, (1 << 64) - 1)
    h.assume(a != b)
    t1, t2 = "first", "second"
    r1 = lib.message(lib.CLIENT, 0x00041004, lib.RPID, lib.PID, peer.output(t1))
    r2 = lib.message(lib.CLIENT, 0x00041004, lib.RPID, lib.PID, peer.output(t2))
    fr = Fragmenter(32768, Serializer())
    out = fr.defragment(lib.fragment(a, 0, True, False, r1[:44]) + lib.fragment(b, 0, True, False, r2[:45]))
    h.check(out == [], "early")
    if h.bool("wrong"):
        fid = h.int("fid", 0, (1 << 64) - 1)
        h.assume(fid != 1)
        try:
            fr.defragment(lib.fragment(a, fid, False, True, r1[44:]))
        except FragmentError:
            h.reach("rejected")
            return
        h.fail("a wrong fragment id is accepted")
    out = fr.defragment(lib.fragment(b, 1, False, True, r2[45:]) + lib.fragment(a, 1, False, True, r1[44:]))
    h.check(len(out) == 2 and out[0].data.data == t2 and out[1].data.data == t1, "mixed up")
    h.reach("done")
