"""C11: secure strings and the session key exchange."""
import base64
import xml.etree.ElementTree as ET

import cryptography.hazmat.primitives.asymmetric.rsa as _rsa
import cryptography.hazmat.primitives.ciphers as _ciphers
from cryptography.hazmat.primitives.ciphers import algorithms as _algorithms
from cryptography.hazmat.primitives.ciphers import modes as _modes

# The primitives of the cryptography package are replaced by stand-ins chosen
# per check (RSA generation, AES, CBC); the code under test calls them as usual.
STUB = {"on": False, "key": None}
_real = {"gen": _rsa.generate_private_key, "AES": _algorithms.AES, "CBC": _modes.CBC, "Cipher": _ciphers.Cipher}


ZERO = b"\x00" * 16


class Aes(object):
    block_size = 128
    name = "AES"

    def __init__(self, key):
        self.key = key


class Cbc(object):
    name = "CBC"

    def __init__(self, iv):
        self.initialization_vector = iv


class Stream(object):
    """A block cipher context: whole blocks come out of update, the context is used once."""

    def __init__(self, mark, enc):
        self.mark, self.enc = mark, enc
        self.buf = b""
        self.started = False
        self.done = False

    def update(self, data):
        if self.done:
            raise ValueError("Context was already finalized.")
        self.buf = self.buf + data
        n = len(self.buf) // 16 * 16
        out, self.buf = self.buf[:n], self.buf[n:]
        if self.enc:
            if not self.started:
                self.started = True
                out = self.mark + out
            return out
        if not self.started and len(out) > 0:
            self.started = True
            if out[: len(self.mark)] != self.mark:
                raise Mismatch("the text was not encrypted with this key and IV")
            out = out[len(self.mark) :]
        return out

    def finalize(self):
        if self.done:
            raise ValueError("Context was already finalized.")
        self.done = True
        if len(self.buf) != 0:
            raise ValueError("The length of the provided data is not a multiple of the block length.")
        return b""


class Mismatch(Exception):
    pass


class StubCipher(object):
    def __init__(self, algorithm, mode, backend=None):
        self.algorithm, self.mode = algorithm, mode
        # stands for "depends on the key and the IV": 32 + 16 bytes
        self.mark = algorithm.key + mode.initialization_vector

    def encryptor(self):
        return Stream(self.mark, True)

    def decryptor(self):
        return Stream(self.mark, False)


def _gen(public_exponent, key_size, backend=None):
    if STUB["on"]:
        return STUB["key"](public_exponent, key_size)
    k = _real["gen"](public_exponent, key_size)
    STUB["made"] = k
    return k


def _aes(key):
    return Aes(key) if STUB["on"] else _real["AES"](key)


def _cbc(iv):
    return Cbc(iv) if STUB["on"] else _real["CBC"](iv)


def _cipher(algorithm, mode, backend=None):
    return StubCipher(algorithm, mode) if STUB["on"] else _real["Cipher"](algorithm, mode)


# the package looks its own classes up once, on first use
_real["Cipher"](_real["AES"](ZERO), _real["CBC"](ZERO)).encryptor()

_rsa.generate_private_key = _gen
_algorithms.AES = _aes
_modes.CBC = _cbc
_ciphers.Cipher = _cipher

from cryptography.hazmat.primitives.asymmetric.padding import PKCS1v15

from props import lib, peer
from symx.api import obligation

from pypsrp.complex_objects import PSCredential
from pypsrp.exceptions import InvalidPSRPOperation, SerializationError, WSManFaultError
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.serializer import Serializer, TaggedValue


class Key(object):
    """The client's RSA key pair."""

    def __init__(self, h, n, exponent, size):
        self.h, self.n, self.e, self.key_size = h, n, exponent, size

    def public_key(self):
        return self

    def public_numbers(self):
        return self

    def decrypt(self, data, pad):
        h = self.h
        h.check(isinstance(pad, PKCS1v15), "the session key is not unwrapped with PKCS#1 v1.5")
        h.check(len(data) == len(self.cipher_text), "session key: length")
        h.check(data == self.cipher_text, "the session key is not the reversed blob without its 12 byte header")
        return self.session_key


class Srv(peer.Server):
    real = False

    def arrange(self, session_key, free=False):
        """Use stand-ins (always in a symbolic run), else the real primitives."""
        h = self.h
        self.session_key = session_key
        STUB["on"] = h.sym or not self.real
        self.keys = []
        self.public = []
        self.got = []
        # the modulus: free, or fixed where it does not matter
        self.modulus = h.bytes("modulus", 256) if free else bytes([0xC3] + [7 * i % 256 for i in range(1, 256)])
        # the wrapped session key as it travels, and its 12 byte header
        self.wrapped = h.bytes("wrapped", 256) if free else bytes([11 * i % 256 for i in range(256)])
        self.header = h.bytes("header", 12) if free else b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00"

        def make(exponent, size):
            h.check(size == 2048, "the RSA key is not 2048 bits")
            k = Key(h, int.from_bytes(self.modulus, "big"), exponent, size)
            k.session_key = session_key
            k.cipher_text = bytes(reversed(self.wrapped)) if not h.sym else rev(self.wrapped)
            self.keys.append(k)
            return k

        STUB["key"] = make

    def on_send(self, name, cid, data):
        h = self.h
        for f in lib.parse_fragments(h, data):
            h.check(h.all(f.start, f.end), "split")
            self.got.append((name, cid, f.data))
            if f.data[4:8] == b"\x05\x00\x01\x00":
                h.check(name == "stdin" and cid is None, "the public key does not go to the pool")
                o = ET.fromstring(f.data[40:])
                x = o.find("MS/S")
                h.check(x is not None and x.attrib["N"] == "PublicKey", "PublicKey property")
                self.public.append(base64.b64decode(x.text))

    def session_key_message(self):
        blob = self.public[-1]
        if STUB["on"]:
            w = self.wrapped
        else:
            # the real thing: encrypt to the public key that was sent
            e = int.from_bytes(blob[16:20], "little")
            n = int.from_bytes(blob[20:], "little")
            w = bytes(reversed(_rsa.RSAPublicNumbers(e, n).public_key().encrypt(self.session_key, PKCS1v15())))
        text = base64.b64encode(self.header + w).decode("ascii")
        return self.frag(0x00010006, peer.xb(peer.obj(0, [peer.el("S", "EncryptedSessionKey", text)])))

    # what the other side does with secure strings
    def cipher(self):
        return _cipher(_aes(self.session_key), _cbc(ZERO))


def rev(b):
    out = b""
    for i in range(len(b)):
        out = b[i : i + 1] + out
    return out


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def encrypt(cipher, text):
    e = cipher.encryptor()
    return e.update(pad(text.encode("utf-16-le"))) + e.finalize()


def decrypt(h, cipher, data, text, what):
    d = cipher.decryptor()
    p = d.update(data) + d.finalize()
    h.check(p == pad(text.encode("utf-16-le")), "%s is not the padded UTF-16 text encrypted with the session key and a zero IV" % what)


LENGTHS = [0, 1, 7, 8, 9, 17]


def secret(h, n, name="secret"):
    """n characters, the last of which may be a supplementary one."""
    if n == 0:
        return ""
    return h.chars(name, n - 1, 0, 0xFFFF) + h.chars(name + "-last", 1)


@obligation("C11", quick=[{"n": n} for n in LENGTHS[:-1]], thorough=[{"n": n} for n in LENGTHS], bounds="secure strings of n characters (n up to 17: around the 8 and 16 character block boundaries), any Unicode text; directly, tagged, and inside a credential")
def send(h, n):
    """a secure string is sent as base64 of AES-CBC over the PKCS7 padded UTF-16LE text, and reads back"""
    STUB["on"] = True
    key = h.bytes("key", 32)
    c = StubCipher(Aes(key), Cbc(ZERO))
    s = Serializer()
    s.cipher = c
    t = secret(h, n)
    how = h.pick("how", ["tag", "credential"])
    if how == "tag":
        e = s.serialize(TaggedValue("SS", t))
    else:
        o = s.serialize(PSCredential(username="u", password=t))
        e = o.find("Props/SS") if o.find("Props/SS") is not None else o.find("MS/SS")
        h.check(e is not None and e.attrib["N"] == "Password", "Password property")
    h.check(e.tag == "SS", "element")
    decrypt(h, c, base64.b64decode(e.text), t, "the secure string")
    h.check(s.deserialize(e) == t, "the secure string does not read back")
    h.reach(how)


@obligation("C11", quick=[{"n": n} for n in LENGTHS[:-1]], thorough=[{"n": n} for n in LENGTHS], bounds="two secure strings of n and 1 characters in one message")
def receive(h, n):
    """secure strings from the server are decrypted, one after the other"""
    STUB["on"] = True
    c = StubCipher(Aes(h.bytes("key", 32)), Cbc(ZERO))
    s = Serializer()
    s.cipher = c
    t, u = secret(h, n), secret(h, 1, "second")
    o = peer.obj(0, [peer.el("SS", "a", base64.b64encode(encrypt(c, t)).decode("ascii")), peer.el("SS", "b", base64.b64encode(encrypt(c, u)).decode("ascii"))])
    v = s.deserialize(ET.fromstring(peer.xb(o)))
    h.check(v.extended_properties["a"] == t, "first secure string")
    h.check(v.extended_properties["b"] == u, "second secure string")
    h.reach("done")


@obligation("C11", bounds="secure strings of up to 3 characters; any text in a received secure string")
def without_key(h):
    """without a session key a secure string is refused, never sent in the clear, and a received one is left alone"""
    s = Serializer()
    if h.bool("send"):
        t = secret(h, h.pick("n", [0, 3]))
        try:
            s.serialize(h.pick("v", [TaggedValue("SS", t), PSCredential(username="u", password=t)]))
        except SerializationError:
            h.reach("refused")
        else:
            h.fail("a secure string was serialized without a key")
    else:
        t = h.text("t", 1, 1 << 20)
        v = s.deserialize(peer.el("SS", None, t))
        h.check(isinstance(v, ET.Element) and v.tag == "SS" and v.text == t, "received without key")
        h.reach("left alone")


@obligation("C11", bounds="every 2048 bit modulus, wrapped key, blob header and 256 bit session key")
def blob(h):
    """the public key is sent as the PUBLICKEYBLOB of MS-PSRP 2.2.2.3 and the session key is taken from the SIMPLEBLOB of 2.2.2.4"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    srv.arrange(h.bytes("session", 32), True)
    srv.handle_Receive = feed(srv, [])
    pool.exchange_keys()
    h.check(len(srv.public) == 1, "the public key is not sent exactly once")
    k = srv.keys[-1]
    want = b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00" + k.e.to_bytes(4, "little") + rev(srv.modulus)
    h.check(len(srv.public[0]) == 276 and srv.public[0] == want, "public key blob")
    h.reach("done")


def feed(srv, before):
    """Pool receives: first `before`, then the session key, then nothing."""
    left = list(before)
    state = {"sent": False}

    def handle(r):
        if r.resource.find(peer.RSP + "DesiredStream").attrib.get("CommandId") is not None:
            return peer.Server.handle_Receive(srv, r)
        if left:
            x = left.pop(0)
            if isinstance(x, peer.Fault):
                raise x
            return srv.stream(x)
        if not state["sent"]:
            srv.h.check(len(srv.public) > 0, "the client waits for a session key without having sent a public key")
            state["sent"] = True
            return srv.stream(srv.session_key_message())
        return peer.Server.handle_Receive(srv, r)

    return handle


@obligation("C11", quick=[{"k": 1, "real": r} for r in (0, 1)], thorough=[{"k": 3, "real": r} for r in (0, 1)], bounds="up to k other messages, empty responses and operation timeouts before the session key arrives; strings of up to 8 characters; in concrete replays of real=1 the real RSA and AES are used")
def exchange(h, k, real):
    """after the exchange both directions use the session key; it is done once; slow servers are waited for; the time limit is respected"""
    srv = Srv(h)
    srv.real = bool(real)
    ws, pool = peer.open_pool(h, srv)
    srv.arrange(h.bytes("session", 32))
    before = []
    for _ in range(h.count("before", 0, k)):
        before.append({"none": None, "state": srv.frag(0x00021005, peer.pool_state(2)), "timeout": peer.Fault(peer.TIMEDOUT)}[h.pick("b", ["none", "state", "timeout"])])
    srv.handle_Receive = feed(srv, before)
    pool.exchange_keys()
    for _ in range(h.count("again", 0, 1)):
        n = len(srv.log)
        pool.exchange_keys()
        h.check(len(srv.log) == n, "keys are exchanged again")
    h.check(len(srv.public) == 1, "the public key is not sent exactly once")
    c = srv.cipher()
    t = secret(h, h.pick("n", [0, 2, 8]))
    ps = PowerShell(pool).add_cmdlet("c").add_argument(TaggedValue("SS", t)).add_argument(TaggedValue("SS", t))
    ps.begin_invoke()
    x = ET.fromstring(lib.reassemble(h, lib.parse_fragments(h, srv.pipe_in[0][1]))[0][1][40:])
    ss = [e for e in x.iter("SS")]
    h.check(len(ss) == 2, "secure arguments")
    for e in ss:
        decrypt(h, c, base64.b64decode(e.text), t, "a secure argument")
    srv.pipe_queue.append(srv.frag(0x00041004, peer.xb(peer.el("SS", None, base64.b64encode(encrypt(c, t)).decode("ascii"))), ps.id))
    srv.pipe_queue.append(srv.frag(0x00041006, peer.pipe_state(4), ps.id))
    out = ps.end_invoke()
    h.check(len(out) == 1 and isinstance(out[0], str) and out[0] == t, "secure output")
    h.reach("done")


@obligation("C11", bounds="the request arrives while the pool or a pipeline is being received, alone or with output before and after it, once or twice")
def requested(h):
    """when the server asks for the public key the exchange takes place, once"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv)
    srv.arrange(h.bytes("session", 32))
    srv.handle_Receive = feed(srv, [])
    ps = PowerShell(pool).add_script("s")
    ps.begin_invoke()
    req = srv.frag(0x00010007, b"")
    twice = h.bool("twice")
    data = req
    if twice:
        data = data + srv.frag(0x00010007, b"")
    a = h.bool("before")
    b = h.bool("after")
    if a:
        data = srv.frag(0x00041004, peer.output("a"), ps.id) + data
    if b:
        data = data + srv.frag(0x00041004, peer.output("b"), ps.id)
    srv.pipe_queue.append(data)
    srv.pipe_queue.append(srv.frag(0x00041006, peer.pipe_state(4), ps.id))
    out = ps.end_invoke()
    h.check(out == (["a"] if a else []) + (["b"] if b else []), "output around the request")
    h.check(len(srv.public) == 1, "the public key was asked for and is not sent exactly once")
    e = pool.serialize(TaggedValue("SS", "x"))
    decrypt(h, srv.cipher(), base64.b64decode(e.text), "x", "a secure string after the exchange")
    h.reach("done")


@obligation("C11", quick={"k": 2}, thorough={"k": 4}, bounds="any session key timeout up to 10 minutes, up to k receives without a session key, any time (whole milliseconds) between them")
def limit(h, k):
    """the exchange is given up exactly when the session key has not come within the timeout"""
    srv = Srv(h)
    limit = h.int("limit", 0, 600000)
    ws, pool = peer.open_pool(h, srv, session_key_timeout_ms=limit)
    srv.arrange(h.bytes("session", 32))
    now = [0]
    deltas = [h.int("delta", 0, 700000) for _ in range(k + 1)]
    i = [0]
    h.on("time", lambda: now[0] / 1000)
    comes = h.count("comes", 0, k)

    def handle(r):
        if i[0] > k:
            h.fail("waits beyond the time limit")
        now[0] = now[0] + deltas[i[0]]
        i[0] += 1
        if i[0] > comes and comes < k:
            return srv.stream(srv.session_key_message())
        if i[0] % 2:
            raise peer.Fault(peer.TIMEDOUT)
        return srv.stream(None)

    srv.handle_Receive = handle
    h.assume(h.any(comes < k, h.any(*[sum(deltas[: j + 1]) > limit + 1 for j in range(k + 1)])))
    try:
        pool.exchange_keys()
    except InvalidPSRPOperation:
        h.check(now[0] >= limit, "gives up before the time limit")
        h.reach("gave up")
    else:
        h.check(comes < k, "returns without a session key")
        h.check(h.any(i[0] == 1, now[0] - deltas[i[0] - 1] <= limit + 1), "waits longer than the time limit")
        h.reach("exchanged")


@obligation("C11", quick={"n": 1}, thorough={"n": 2}, bounds="up to n + 1 failures before the exchange succeeds: the public key refused, a fault while waiting for the session key, or the time limit passed; the session key of an earlier try arriving late, before the one of the last try, or twice")
def again(h, n):
    """an exchange that fails tells the caller and can be done again, and a session key that comes late or twice does no harm"""
    srv = Srv(h)
    ws, pool = peer.open_pool(h, srv, session_key_timeout_ms=1000)
    srv.arrange(h.bytes("session", 32))
    now = [0]
    h.on("time", lambda: now[0])
    how = [h.pick("how", ["send", "fault", "late", "empty"]) for _ in range(h.count("failures", 1, n + 1))]
    real = srv.handle_Send
    due = []
    state = [None]

    def send(r):
        if state[0] == "send":
            raise peer.Fault("5", "denied")
        out = real(r)
        due.append(srv.session_key_message())
        return out

    def receive(r):
        if state[0] == "fault":
            raise peer.Fault("5", "denied")
        if state[0] is None:
            return srv.stream(due.pop(0))
        now[0] += 2
        if state[0] == "empty":
            due.pop()
            state[0] = "late"
        return srv.stream(None)

    srv.handle_Send, srv.handle_Receive = send, receive
    for x in how:
        state[0] = x
        try:
            pool.exchange_keys()
        except WSManFaultError as e:
            h.check(x in ("send", "fault") and e.code == 5, "fails although it was not refused")
        except InvalidPSRPOperation:
            h.check(x in ("late", "empty"), "gives up too early")
        else:
            h.fail("an exchange that failed is taken for done")
    state[0] = None
    pool.exchange_keys()
    while due:
        # what came late
        pool._receive()
    e = pool.serialize(TaggedValue("SS", "x"))
    decrypt(h, srv.cipher(), base64.b64decode(e.text), "x", "a secure string after the exchange")
    k = len(srv.log)
    pool.exchange_keys()
    h.check(len(srv.log) == k, "keys are exchanged again")
    h.reach("done")
