"""C23: copying a file to the server."""
import base64
import hashlib
import re
import xml.etree.ElementTree as ET

from props import clixml, lib, peer, records
from props.c10 import Srv
from symx.api import obligation

import pypsrp
from pypsrp.client import Client
from pypsrp.exceptions import WinRMError

INPUT, END = 0x00041002, 0x00041003


class FileSrv(Srv):
    """Runs one script and keeps the input of its pipeline."""

    def __init__(self, h, proto="2.3"):
        Srv.__init__(self, h, proto)
        self.deleted = 0
        self.answer = []  # (message type, data)

    def handle_Command(self, r):
        out = Srv.handle_Command(self, r)
        self.pipe_queue = [self.frag(t, d, self.command_id) for t, d in self.answer]
        return out

    def handle_Delete(self, r):
        self.deleted += 1
        return None

    def input(self):
        """The objects of the pipeline's input, in order."""
        h = self.h
        h.check(len(self.rest) > 0, "no input")
        out = []
        for i, m in enumerate(self.rest):
            t = int.from_bytes(bytes(m[4:8]), "little")
            h.check(t == (END if i == len(self.rest) - 1 else INPUT), "message %d of the input" % i)
            if t == INPUT:
                n = clixml.read(h, ET.fromstring(m[40:]))
                h.check(n.tag == "S", "the input is not text")
                out.append(n.text or "")
        return out


def client(h, srv, **kw):
    c = Client("server", ssl=True, auth="basic", username="u", password="p", **kw)
    c.wsman.transport = srv
    return c


def configuration(h, free=True):
    """The configuration asked for."""
    if free and h.bool("configuration"):
        return {"configuration_name": h.text("configuration name", 1, 200)}
    return {}


def check_uri(h, srv, conf):
    name = conf.get("configuration_name", "Microsoft.PowerShell")
    for r in srv.log:
        h.check(r.uri == "http://schemas.microsoft.com/powershell/" + name, "the configuration of %s" % r.kind)


def shipped(name):
    """The lines of a script that do something."""
    import os

    with open(os.path.join(os.path.dirname(pypsrp.__file__), "pwsh_scripts", name)) as f:
        text = f.read()
    while "<#" in text:
        a = text.index("<#")
        text = text[:a] + text[text.index("#>", a) + 2 :]
    return [l.strip() for l in text.split("\n") if l.strip() and not l.strip().startswith("#")]


def check_script(h, srv, name, args):
    root = srv.pipeline()
    c = root.msv("PowerShell").msv("Cmds").items
    h.check(len(c) == 1, "commands")
    text = re.sub("_x([0-9A-F]{4})_", lambda m: chr(int(m.group(1), 16)), c[0].msv("Cmd").text)
    lines = [l.strip() for l in text.split("\n")]
    h.check([l for l in lines if l and not l.startswith("#")] == shipped(name), "the script is not the one shipped")
    h.check(c[0].msv("Cmd").tag == "S", "script")
    a = c[0].msv("Args").items
    h.check(len(a) == len(args), "number of arguments")
    for x, v in zip(a, args):
        h.check(x.msv("N").tag == "Nil", "a positional argument has a name")
        clixml.check_value(h, x.msv("V"), v, "argument")
    boolean = c[0].msv("IsScript")
    h.check(boolean.tag == "B" and boolean.text == "true", "not run as a script")
    return root


SRC = [("file", False, "file"), ("$SX_DIR/file", False, None), ("~/file", True, "file"), ("$SX_DIR/d/file", True, "d/file"), ("f \u00e9", False, "f \u00e9"), ("%file$x", False, "%file$x"), ("missing", False, None), ("$SX_HOME/file", True, "file"), ("~/file", False, None)]


def source(fs, which, content):
    """(path given, expand, exists)"""
    given, expand, name = SRC[which]
    if name is not None:
        if "/" in name:
            import os

            os.makedirs(fs.path(name.split("/")[0]))
        fs.put(name, content)
    if given == "~/file" and not expand:
        fs.put("file", content)
    elif not given.startswith(("$", "~")):
        given = fs.path(given)
    elif not expand:
        given = fs.root + "/" + given
    return given, expand, name is not None


@obligation(
    "C23",
    quick=[{"env": 8192, "chunks": 2}, {"env": 153600, "chunks": 1}],
    thorough=[{"env": 8192, "chunks": 4}, {"env": 3500, "chunks": 4}, {"env": 16384, "chunks": 3}, {"env": 153600, "chunks": 2}],
    bounds="a file of any length up to `chunks` pieces and any content; the envelope size given by `env` (and what the server makes of it)",
)
def content(h, env, chunks):
    """the pieces of the input are the file's bytes in order, followed by their hash, in requests of the size allowed; the file is closed"""
    fs = h.fs()
    srv = FileSrv(h, "2.1" if env != 153600 else h.pick("proto", ["2.1", "2.2"]))
    data = h.blob("file", 0, int(env * 3 // 4 * chunks * 0.66))
    fs.put("file", data)
    srv.answer = [(records.OUTPUT, peer.output("C:\\file")), (records.STATE, records.pipe_state(4))]
    c = client(h, srv, max_envelope_size=env)
    conf = configuration(h, env != 8192)
    out = c.copy(fs.path("file"), "dest", **conf)
    check_uri(h, srv, conf)
    h.check(out == "C:\\file", "path returned")
    check_script(h, srv, "copy.ps1", ["dest", False])
    got = srv.input()
    h.check(len(got) >= 2, "pieces")
    joined = b""
    for x in got[:-1]:
        joined += base64.b64decode(x)
    h.check(joined == data, "the server receives another content than the file's")
    h.check(base64.b64decode(got[-1]) == hashlib.sha1(data).hexdigest().encode("ascii"), "hash")
    for r in srv.log:
        h.check(len(r.raw) <= max(env, 512000 if srv.open_states[0] == peer.capability("2.2") and env == 153600 else env), "request larger than the envelope size")
    h.check(srv.deleted == 1, "the pool is not closed")
    h.check(fs.open_files() == 0, "the file stays open")
    h.check(fs.get("file") == data, "the file was changed")
    h.reach("%d pieces" % (len(got) - 1))


@obligation("C23", bounds="every kind of path (with and without expansion, non-ASCII, missing); a file of up to 4096 bytes; any destination; the server's output, warnings and errors: any texts, up to two each, completed or failed")
def outcome(h):
    """the destination goes to the server as given; warnings are passed on; an error of the server raises with its text; otherwise the path the server gave is returned; the pool is closed in any case"""
    fs = h.fs()
    srv = FileSrv(h)
    data = h.blob("file", 1, 4096)
    which = h.count("src", 0, len(SRC) - 1)
    given, expand, exists = source(fs, which, data)
    # what the server is to expand is left to it
    dest = {2: "~/x", 3: "$SX_DIR/%TMP%\\$SX_HOME", 4: "~\\$SX_HOME"}.get(which) or h.text("dest", 1, 300)
    path, pad = h.text("path", 1, 300), h.pick("pad", ["", "\r\n", " "] if which == 0 else [""])
    warned, want = [], []
    h.on("warn", lambda m, *a, **k: warned.append(m))
    for _ in range(h.count("warnings", 0, 2 if which == 0 else 0)):
        t = h.text("warning", 1, 300)
        srv.answer.append((records.WARNING, records.informational(t)))
        want.append(t)
    if which == 0 and h.bool("noise"):
        srv.answer.append((records.OUTPUT, peer.output("noise")))
    kind = h.pick("outcome", ["done", "failed", "two errors", "more errors"])
    err = h.text("error", 1, 300)
    if kind == "more errors":
        for t in ("third", "fourth", "third"):
            srv.answer.append((records.ERROR, records.error(t)))
    if kind == "two errors":
        srv.answer.append((records.ERROR, records.error("first")))
    if kind == "done":
        srv.answer.append((records.OUTPUT, peer.output(pad + path + pad)))
    srv.answer.append((records.STATE, records.pipe_state(4) if kind == "done" else records.pipe_state(5, err)))
    c = client(h, srv)
    conf = configuration(h, which == 1)
    try:
        out = c.copy(given, dest, expand_variables=expand, **conf)
    except WinRMError as e:
        h.check(kind != "done", "fails although the server did not")
        h.check(err in str(e) and (kind != "two errors" or "first" in str(e)) and (kind != "more errors" or ("third" in str(e) and "fourth" in str(e))), "the error of the server is not told")
        h.check(srv.deleted == 1, "the pool is not closed")
        h.check(fs.open_files() == 0, "the file stays open")
        h.reach("error")
        return
    except OSError:
        h.check(not exists, "the file cannot be read")
        h.check(srv.deleted == srv.kinds().count("Create"), "the pool is not closed")
        h.reach("missing")
        return
    h.check(exists and kind == "done", "an error of the server is ignored")
    check_uri(h, srv, conf)
    h.check(out == path, "path returned")
    check_script(h, srv, "copy.ps1", [dest, expand])
    got = srv.input()
    h.check(len(got) == 2 and base64.b64decode(got[0]) == data, "content")
    h.check(len(warned) == len(want) and all([a == b for a, b in zip([str(w) for w in warned], want)]), "warnings")
    h.check(srv.deleted == 1, "the pool is not closed")
    h.reach("copied")
