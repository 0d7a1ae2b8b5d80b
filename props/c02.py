"""C02: requests never exceed the size the server accepts."""
import xml.etree.ElementTree as ET

from props import lib, peer
from symx.api import obligation

from pypsrp.messages import EndOfPipelineInput, PipelineInput
from pypsrp.powershell import Fragmenter, PowerShell, RunspacePool
from pypsrp.serializer import Serializer


@obligation(
    "C02",
    quick=[{"k": 3, "lo": 22}, {"k": 8, "lo": 140}],
    thorough=[{"k": 10, "lo": 22}, {"k": 60, "lo": 140}],
    bounds="one message taking at most k fragments, any limit from lo to 2^20",
)
def one_message(h, k, lo):
    """every packed fragment (header included) is at most the limit, and all but the last fill it"""
    size = h.int("size", lo, 1 << 20)
    text = h.text("text", 0, 1 << 21)
    h.assume(len(text) + 47 <= (size - 21) * k)
    frags = Fragmenter(size, Serializer()).fragment(PipelineInput(data=text), lib.RPID, lib.PID)
    for f in frags:
        h.check(len(f) <= size, "a fragment exceeds the limit")
    h.observe("n", len(frags))
    h.reach("several" if len(frags) > 1 else "one")


@obligation(
    "C02",
    quick=[{"n": 2, "k": 3, "lo": 62}, {"n": 3, "k": 3, "lo": 140}, {"n": 4, "k": 2, "lo": 140}],
    thorough=[{"n": 2, "k": 8, "lo": 62}, {"n": 3, "k": 5, "lo": 140}, {"n": 4, "k": 3, "lo": 140}],
    bounds="n messages taking at most k payloads in total, any limit from lo to 2^20",
)
def packed_messages(h, n, k, lo):
    """every payload in which fragments of several messages are packed is at most the limit"""
    size = h.int("size", lo, 1 << 20)
    texts = [h.text("text", 0, 1 << 20) for _ in range(n - 1)]
    total = 61 * n
    for t in texts:
        total = total + len(t) + 7
    h.assume(total <= (size - 21) * (k - 1))
    out = Fragmenter(size, Serializer()).fragment_multiple([PipelineInput(data=t) for t in texts] + [EndOfPipelineInput()], lib.RPID, lib.PID)
    for p in out:
        h.check(len(p) <= size, "a payload exceeds the limit")
    h.observe("payloads", len(out))
    h.reach("packed" if len(out) < n else "split")


class Sizes(peer.Server):
    limit = None
    longest = 0

    def on_request(self, r):
        self.h.check(len(r.raw) <= self.limit(), "a %s request is longer than the maximum envelope size" % r.kind)
        adv = r.header.find(peer.WSMAN + "MaxEnvelopeSize").text
        self.h.check(adv == str(self.limit()), "the advertised maximum envelope size is not the one in force")


@obligation(
    "C02",
    quick={"k": 2},
    thorough={"k": 6},
    bounds="any maximum envelope size from 8 KiB to 8 MiB (other than the 150 KiB default), endpoint of 10 to 200 characters, locale of 2 to 20 characters, configuration name of up to 256 characters, one script of any length and one input of any length needing at most k requests each",
    assumes=["XML text made of characters that need no escaping (the script and input are inert opaque text); base64 payloads never need escaping"],
)
def envelopes(h, k):
    """the Create, Command and Send envelopes of a pool and a pipeline with input are never longer than the configured maximum envelope size, which is the one advertised in each header"""
    env = h.int("envelope", 8 << 10, 8 << 20)
    h.assume(env != 153600)
    srv = Sizes(h)
    srv.endpoint = h.text("endpoint", 10, 200)
    srv.limit = lambda: env
    loc = h.text("locale", 2, 20)
    ws = peer.connect(srv, max_envelope_size=env, locale=loc)
    # the constructor only knew the real endpoint: recompute as it does
    ws.update_max_payload_size(env)
    pool = RunspacePool(ws, configuration_name=h.text("configuration", 1, 256))
    pool.open()
    script = h.text("script", 0, 1 << 23)
    data = h.text("input", 0, 1 << 23)
    h.assume(len(script) <= (env - 4000) * k // 2)
    h.assume(len(data) <= (env - 4000) * k // 2)
    ps = PowerShell(pool)
    ps.add_script(script)
    ps.begin_invoke([data])
    h.observe("kinds", srv.kinds())
    h.reach("sent %d" % len(srv.log))


@obligation(
    "C02",
    quick={"k": 2},
    thorough={"k": 5},
    bounds="default client envelope size (150 KiB), any server protocol version of the form 2.n (n up to 9), one script of any length needing at most k requests after the pool is open",
    assumes=["XML text made of characters that need no escaping"],
)
def negotiated(h, k):
    """after the server's capability raises the envelope size from the default, requests use and never exceed the raised size; older servers keep the default"""
    minor = h.pick("minor", ["0", "1", "2", "3", "9"])
    srv = Sizes(h)
    state = {"env": 153600}
    srv.limit = lambda: state["env"]
    srv.open_states[0] = peer.capability(proto="2." + minor)
    ws = peer.connect(srv)
    pool = RunspacePool(ws)

    real = srv.handle_Receive

    def receive(r):
        out = real(r)
        if minor in ("2", "3", "9"):
            state["env"] = 512000
        return out

    srv.handle_Receive = receive
    pool.open()
    script = h.text("script", 0, 1 << 23)
    h.assume(len(script) <= 110000 * k if state["env"] == 153600 else len(script) <= 370000 * k)
    ps = PowerShell(pool)
    ps.add_script(script)
    ps.begin_invoke()
    h.check(ws.max_envelope_size == state["env"], "the envelope size in force is not the negotiated one")
    for i, (cid, data) in enumerate(srv.pipe_in):
        h.check(len(data) <= ws.max_payload_size, "a payload exceeds the negotiated payload size")
    if len(srv.pipe_in) > 1:
        h.check(len(srv.pipe_in[0][1]) > ws.max_payload_size - 64, "a full fragment does not use the negotiated size")
    h.observe("n", len(srv.pipe_in))
    h.reach("sent %d" % len(srv.pipe_in))


CFG = "{http://schemas.microsoft.com/wbem/wsman/1/config}"


class Configured(Sizes):
    kb = None

    def handle_Get(self, r):
        self.h.check(r.uri == "http://schemas.microsoft.com/wbem/wsman/1/config", "the size is not asked from the server's configuration")
        self.h.check(r.selectors == [] and r.resource is None, "the configuration is asked for in an unexpected way")
        c = ET.Element(CFG + "Config")
        other = ET.SubElement(c, CFG + "Service")
        ET.SubElement(other, CFG + "MaxEnvelopeSizekb").text = "1"
        ET.SubElement(c, CFG + "MaxTimeoutms").text = "60000"
        ET.SubElement(c, CFG + "MaxEnvelopeSizekb").text = str(self.kb)
        ET.SubElement(c, CFG + "MaxBatchItems").text = "32000"
        return c


@obligation(
    "C02",
    quick=[{"k": 2}, {"k": 2, "when": "made"}, {"k": 2, "when": "opened"}],
    thorough=[{"k": 6}, {"k": 3, "when": "made"}, {"k": 3, "when": "opened"}],
    bounds="any size a server can be configured with from 8 KiB to 8 MiB (other than the 150 KiB default), asked for before the pool is made (used fully), or when the pool is made or open; one script and one input of any length needing at most k requests each",
    assumes=["XML text made of characters that need no escaping"],
)
def asked(h, k, when=None):
    """when the server is asked for its maximum envelope size, one request is sent for it, the size it is configured with is taken over exactly, and every later request is at most that long and uses it fully"""
    kb = h.int("kb", 8, 8192)
    h.assume(kb != 150)
    srv = Configured(h)
    srv.kb = kb
    state = {"env": 153600}
    srv.limit = lambda: state["env"]
    ws = peer.connect(srv)
    pool = None
    if when:
        pool = RunspacePool(ws)
        if when == "opened":
            srv.open_states[0] = peer.capability(proto="2.1")
            pool.open()
    first = len(srv.log)
    before = ws.max_payload_size
    ws.update_max_payload_size()
    h.check(srv.kinds()[first:] == ["Get"], "asking for the size is not one request")
    env = kb * 1024
    state["env"] = env
    h.check(ws.max_envelope_size == env, "the size the server is configured with is not the one in force")
    h.check((ws.max_payload_size - before) * 4 <= (env - 153600) * 3 + 8 and (env - 153600) * 3 - 8 <= (ws.max_payload_size - before) * 4, "the payload size does not follow the envelope size")
    pool = pool or RunspacePool(ws)
    pool.open()
    script = h.text("script", 1, 1 << 23)
    data = h.text("input", 1, 1 << 23)
    h.assume(len(script) <= (env - 4000) * k // 2)
    h.assume(len(data) <= (env - 4000) * k // 2)
    ps = PowerShell(pool)
    ps.add_script(script)
    ps.begin_invoke([data])
    h.observe("kinds", srv.kinds())
    h.reach("sent %d" % len(srv.log))
