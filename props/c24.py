"""C24: fetching a file from the server."""
import base64
import hashlib

from props import peer, records
from props.c23 import FileSrv, check_script, check_uri, client, configuration
from symx.api import obligation

from pypsrp.exceptions import WinRMError

DEST = [("dest", False), ("$SX_DIR/dest", True), ("~/dest", True), ("f \u00e9", False), ("%dest$x", False)]


def where(fs, which):
    given, expand = DEST[which]
    if given.startswith(("$", "~")):
        return given, expand, given.split("/", 1)[1]
    return fs.path(given), expand, given


def clean(h, fs, srv, name):
    h.check(srv.deleted == 1, "the pool is not closed")
    h.check(fs.open_files() == 0, "a file stays open")
    h.check([n for n in fs.names() if n != name] == [], "a temporary file is left behind")


@obligation(
    "C24",
    quick={"size": 1 << 16},
    thorough={"size": 1 << 24},
    bounds="a file of any length up to `size` and any content; os.write may take only a part of what it is given (twice), or every write fails; the destination exists with any content or not; every kind of destination; the text of the hash in the server's form",
)
def content(h, size):
    """after fetching the destination holds exactly the bytes of the file, whatever was there and however the system writes; no temporary file is left"""
    fs = h.fs()
    srv = FileSrv(h)
    data = h.blob("file", 1, size)
    which = h.count("dest", 0, len(DEST) - 1)
    given, expand, name = where(fs, which)
    old = None
    if h.bool("exists"):
        old = h.blob("old", 0, 4096)
        fs.put(name, old)
    short = h.pick("write", ["whole", "short", "fails"]) if which == 0 else "whole"
    count = []

    def limit(n):
        count.append(n)
        if len(count) > 2:
            return n
        k = h.int("written", 1, size)
        return h.ite(k < n, k, n)

    if short == "short":
        fs.limit_writes(limit)
    # what the server is to expand is left to it
    src = {1: "$SX_DIR/%TMP%\\$SX_HOME", 2: "~/x", 3: "~\\$SX_HOME"}.get(which) or h.text("src", 1, 300)
    srv.answer = [
        (records.OUTPUT, peer.output(base64.b64encode(data).decode("ascii"))),
        (records.OUTPUT, peer.output(hashlib.sha1(data).hexdigest())),
        (records.STATE, records.pipe_state(4)),
    ]
    c = client(h, srv)
    if short == "fails":
        fs.full()
    conf = configuration(h, which == 1)
    try:
        c.fetch(src, given, expand_variables=expand, **conf)
    except OSError:
        h.check(short == "fails", "fails")
        h.check(fs.get(name) is None if old is None else fs.get(name) == old, "the destination was touched")
        clean(h, fs, srv, name)
        h.reach("disk full")
        return
    h.check(short != "fails", "a write that failed is ignored")
    check_uri(h, srv, conf)
    check_script(h, srv, "fetch.ps1", [src, expand])
    got = fs.get(name)
    h.check(got is not None, "no file")
    h.check(got == data, "the file differs from the server's")
    clean(h, fs, srv, name)
    h.reach("fetched")


@obligation("C24", quick={"n": 2}, thorough={"n": 4}, bounds="the content and the hash the server tells do not belong together (the content cut off, n bytes changed, other content, or a hash that is no hash); the script failed with any error; the destination exists or not")
def refused(h, n):
    """what does not match the server's hash is not kept: the destination is left as it was and the caller is told; so is an error of the server"""
    fs = h.fs()
    srv = FileSrv(h)
    kind = h.pick("kind", ["cut", "changed", "other", "no hash", "failed"])
    old = None
    if h.bool("exists"):
        old = h.blob("old", 0, 4096)
        fs.put("dest", old)
    err = h.text("error", 1, 300)
    if kind == "changed":
        data, sent = h.bytes("file", n), h.bytes("sent", n)
    else:
        data = h.blob("file", 2, 4096)
        sent = data
        if kind == "cut":
            sent = data[: h.int("keep", 0, 4095)]
        elif kind == "other":
            sent = data + h.blob("more", 1, 10)
    if kind != "no hash":
        h.assume(h.no(sent == data) if kind != "failed" else True)
    digest = h.text("hash", 0, 50) if kind == "no hash" else hashlib.sha1(data).hexdigest()
    if kind != "failed" or h.bool("some output"):
        srv.answer = [(records.OUTPUT, peer.output(base64.b64encode(sent).decode("ascii"))), (records.OUTPUT, peer.output(digest))]
    srv.answer.append((records.STATE, records.pipe_state(5, err) if kind == "failed" else records.pipe_state(4)))
    c = client(h, srv)
    try:
        c.fetch("src", fs.path("dest"))
    except WinRMError as e:
        h.check(kind != "failed" or err in str(e), "the error of the server is not told")
    else:
        h.fail("content that does not match the hash is kept" if kind != "failed" else "an error of the server is ignored")
    got = fs.get("dest")
    h.check(got is None if old is None else got is not None and got == old, "the destination was touched")
    clean(h, fs, srv, "dest")
    h.reach(kind)
