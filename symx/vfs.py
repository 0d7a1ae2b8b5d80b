"""A file system whose files may have symbolic content.

`h.fs()` gives a harness a scratch directory with the same interface in both
worlds: under the engine it exists only here and the functions below replace
those of os, shutil, tempfile and io for paths inside it; in a replay it is a
real directory."""
import builtins
import io
import os
import pathlib
import shutil
import stat
import tempfile

from . import core, models, rope
from .core import SymInt, Unsupported
from .models import METHODS, method, model
from .rope import is_bytes, is_rope, is_str, xlen

ROOT = "/sx-virtual-fs"
BUF = 4096


class FS(object):
    def __init__(self):
        self.files = {}  # path -> [content]
        self.dirs = {ROOT, ROOT + "/tmp"}
        self.fds = {}
        self.next = 1000
        self.temps = 0
        self.write_limit = None
        self.is_full = False
        self.root = ROOT

    # ---- harness interface
    def path(self, name):
        return ROOT + "/" + name

    def put(self, name, content):
        self.files[ROOT + "/" + name] = [content]

    def get(self, name):
        n = self.files.get(ROOT + "/" + name)
        return None if n is None else n[0]

    def names(self):
        return sorted(p[len(ROOT) + 1 :] for p in self.files)

    def open_files(self):
        return len(self.fds)

    def limit_writes(self, fn):
        """os.write takes fn(n) of n bytes (or raises what fn raises)."""
        self.write_limit = fn

    def full(self):
        """Every write to a file fails from now on."""
        self.is_full = True

    # ---- for the models
    def norm(self, p):
        if isinstance(p, os.PathLike):
            p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if is_rope(p):
            p = models.realise(p)
        if not isinstance(p, str):
            return None
        p = os.path.normpath(p)
        return p if p == ROOT or p.startswith(ROOT + "/") else None

    def new_fd(self, node, flags_r, flags_w, append=False, path=None):
        fd = self.next
        self.next += 1
        self.fds[fd] = Fd(node, flags_r, flags_w, append, path)
        return fd

    def create(self, p, excl=False, trunc=True):
        if p in self.dirs:
            raise IsADirectoryError(21, "Is a directory", p)
        if os.path.dirname(p) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", p)
        if p in self.files:
            if excl:
                raise FileExistsError(17, "File exists", p)
            if trunc:
                self.files[p][0] = b""
            return self.files[p]
        self.files[p] = [b""]
        return self.files[p]

    def node(self, p):
        if p in self.dirs:
            raise IsADirectoryError(21, "Is a directory", p)
        if p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        return self.files[p]


class Fd(object):
    def __init__(self, node, r, w, append, path):
        self.node, self.r, self.w, self.append, self.path = node, r, w, append, path
        self.pos = 0

    def read(self, n=None):
        if not self.r:
            raise OSError(9, "Bad file descriptor")
        c = self.node[0]
        size = xlen(c)
        left = size - self.pos
        if rope.br(left <= 0):
            return b""
        if n is None or (not rope.br(left >= n)):
            n = left
        d = rope.xslice(c, self.pos, self.pos + n)
        self.pos = self.pos + n
        return d

    def write(self, d):
        if not self.w:
            raise OSError(9, "Bad file descriptor")
        if fs() is not None and fs().is_full:
            raise OSError(27, "File too large")
        c = self.node[0]
        size = xlen(c)
        if self.append:
            self.pos = size
        n = xlen(d)
        if rope.br(rope.eqn(self.pos, size)):
            self.node[0] = rope.concat(c, d)
        else:
            if rope.br(self.pos > size):
                raise Unsupported("hole in a file")
            end = self.pos + n
            tail = rope.xslice(c, end, None) if rope.br(end < size) else b""
            self.node[0] = rope.concat(rope.concat(rope.xslice(c, 0, self.pos), d), tail)
        self.pos = self.pos + n
        return n

    def seek(self, off, whence=0):
        if whence == 1:
            off = self.pos + off
        elif whence == 2:
            off = xlen(self.node[0]) + off
        self.pos = off
        return off

    def truncate(self, n):
        if rope.br(n > xlen(self.node[0])):
            raise Unsupported("hole in a file")
        self.node[0] = rope.xslice(self.node[0], 0, n)


def fs():
    return models.ENV.get("fs")


class File(object):
    """A buffered or raw binary file object."""

    def __init__(self, fs, fd, name, mode, raw=False, delete=None, closefd=True):
        self.closefd = closefd
        self.fs, self.fd, self.name, self.mode, self.raw, self.delete = fs, fd, name, mode, raw, delete
        self.pending = b""
        self.closed = False
        self.file = self

    @property
    def f(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.fd not in self.fs.fds:
            raise OSError(9, "Bad file descriptor")
        return self.fs.fds[self.fd]

    def fileno(self):
        self.f
        return self.fd

    def readable(self):
        return self.f.r

    def writable(self):
        return self.f.w

    def seekable(self):
        return True

    def read(self, n=-1):
        if not self.f.r:
            raise io.UnsupportedOperation("read")
        self.flush()
        return self.f.read(None if n is None or (isinstance(n, int) and type(n) is not SymInt and n < 0) else n)

    read1 = read

    def readinto(self, b):
        raise Unsupported("readinto")

    def readall(self):
        return self.read()

    def write(self, d):
        f = self.f
        if not f.w:
            raise io.UnsupportedOperation("write")
        if is_str(d):
            raise TypeError("a bytes-like object is required, not 'str'")
        if isinstance(d, (bytearray, memoryview)):
            d = d.v if hasattr(d, "v") else bytes(d)
        n = xlen(d)
        if self.raw:
            return os_write(self.fd, d)
        if rope.br(xlen(self.pending) + n <= BUF):
            self.pending = rope.concat(self.pending, d)
            return n
        self.flush()
        if rope.br(n > BUF):
            f.write(d)
        else:
            self.pending = d
        return n

    def writelines(self, it):
        for d in it:
            self.write(d)

    def flush(self):
        f = self.f
        p, self.pending = self.pending, b""
        if is_rope(p) or p:
            f.write(p)

    def seek(self, off, whence=0):
        self.flush()
        return self.f.seek(off, whence)

    def tell(self):
        return self.f.pos + xlen(self.pending)

    def truncate(self, n=None):
        self.flush()
        self.f.truncate(self.f.pos if n is None else n)

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
        finally:
            self.closed = True
            if self.closefd:
                self.fs.fds.pop(self.fd, None)
            if self.delete is not None:
                self.fs.files.pop(self.delete, None)

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass

    def unlink_now(self):
        self.fs.files.pop(self.delete, None)

    def __enter__(self):
        self.f
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        raise Unsupported("lines of a symbolic file")


def inside(p):
    f = fs()
    return f is not None and f.norm(p) is not None


def v_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    f = fs()
    if f is None:
        return builtins.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int) and not isinstance(file, bool):
        if file not in f.fds:
            return builtins.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd, name = file, file
    else:
        p = f.norm(file)
        if p is None:
            return builtins.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace("b", "").replace("t", "")
        plus = "+" in m
        m = m.replace("+", "")
        if m == "r":
            node = f.node(p)
        else:
            node = f.create(p, excl=m == "x", trunc=m in ("w", "x"))
        fd = f.new_fd(node, m == "r" or plus, m != "r" or plus, m == "a", p)
        name = file
    if "b" not in mode:
        raise Unsupported("text file")
    return File(f, fd, name, mode, raw=buffering == 0, closefd=closefd)


model(builtins.open, io.open)(v_open)


@model(os.fdopen)
def v_fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **k):
    return v_open(fd, mode, buffering, encoding, *a, **k)


@model(os.open)
def v_os_open(path, flags, mode=0o777, *, dir_fd=None):
    f = fs()
    p = f.norm(path) if f else None
    if p is None:
        return os.open(path, flags, mode)
    acc = flags & 3
    if flags & os.O_CREAT:
        node = f.create(p, excl=bool(flags & os.O_EXCL), trunc=bool(flags & os.O_TRUNC))
    else:
        node = f.node(p)
        if flags & os.O_TRUNC:
            node[0] = b""
    return f.new_fd(node, acc in (0, 2), acc in (1, 2), bool(flags & os.O_APPEND), p)


def fd_of(fd):
    f = fs()
    if f is None:
        return None
    if type(fd) is File:
        fd = fd.fileno()
    if fd in f.fds:
        return f.fds[fd]
    if isinstance(fd, int) and fd >= 1000 and fd < f.next:
        raise OSError(9, "Bad file descriptor")
    return None


@model(os.read)
def v_os_read(fd, n):
    d = fd_of(fd)
    return os.read(fd, n) if d is None else d.read(n)


@model(os.write)
def os_write(fd, data):
    d = fd_of(fd)
    if d is None:
        return os.write(fd, models.realise(data))
    f = fs()
    n = xlen(data)
    if f.write_limit is not None:
        n = f.write_limit(n)
        data = rope.xslice(data, 0, n)
    return d.write(data)


@model(os.close)
def v_os_close(fd):
    if fd_of(fd) is None:
        return os.close(fd)
    del fs().fds[fd]


@model(os.lseek)
def v_lseek(fd, off, how):
    d = fd_of(fd)
    return os.lseek(fd, off, how) if d is None else d.seek(off, how)


@model(os.fsync, os.fdatasync)
def v_fsync(fd):
    return os.fsync(fd) if fd_of(fd) is None else None


@model(os.ftruncate)
def v_ftruncate(fd, n):
    d = fd_of(fd)
    return os.ftruncate(fd, n) if d is None else d.truncate(n)


class Stat(object):
    def __init__(self, size, isdir=False):
        self.st_size = size
        self.st_mode = (stat.S_IFDIR | 0o755) if isdir else (stat.S_IFREG | 0o600)
        self.st_mtime = self.st_atime = self.st_ctime = 1000.0
        self.st_blksize = BUF
        self.st_nlink = 1


def v_stat_path(f, p):
    if p in f.dirs:
        return Stat(4096, True)
    return Stat(xlen(f.node(p)[0]))


@model(os.stat, os.lstat)
def v_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        d = fd_of(path)
        return os.stat(path) if d is None else Stat(xlen(d.node[0]))
    p = fs().norm(path) if fs() else None
    return os.stat(path) if p is None else v_stat_path(fs(), p)


@model(os.fstat)
def v_fstat(fd):
    return v_stat(fd)


def on_path(*real):
    """fn(fs, path, ...) for paths inside the virtual directory, the real one otherwise."""

    def deco(fn):
        for r in real:

            def g(path, *a, _r=r, **k):
                f = fs()
                p = f.norm(path) if f is not None and not isinstance(path, int) else None
                return _r(path, *a, **k) if p is None else fn(f, p, *a, **k)

            model(r)(g)
        return fn

    return deco


@on_path(os.path.getsize)
def v_getsize(f, p):
    return v_stat_path(f, p).st_size


@on_path(os.path.getmtime)
def v_getmtime(f, p):
    return v_stat_path(f, p).st_mtime


@on_path(os.path.exists, os.path.lexists)
def v_exists(f, p):
    return p in f.files or p in f.dirs


@on_path(os.path.isfile)
def v_isfile(f, p):
    return p in f.files


@on_path(os.path.isdir)
def v_isdir(f, p):
    return p in f.dirs


@on_path(os.path.islink)
def v_islink(f, p):
    return False


@on_path(os.access)
def v_access(f, p, mode, **k):
    return p in f.files or p in f.dirs


@on_path(os.remove, os.unlink)
def v_remove(f, p, **k):
    f.node(p)
    del f.files[p]


@on_path(os.chmod, os.utime)
def v_chmod(f, p, *a, **k):
    v_stat_path(f, p)


@on_path(os.mkdir)
def v_mkdir(f, p, *a, **k):
    if p in f.dirs or p in f.files:
        raise FileExistsError(17, "File exists", p)
    if os.path.dirname(p) not in f.dirs:
        raise FileNotFoundError(2, "No such file or directory", p)
    f.dirs.add(p)


@on_path(os.makedirs)
def v_makedirs(f, p, mode=0o777, exist_ok=False):
    if p in f.dirs or p in f.files:
        if exist_ok and p in f.dirs:
            return
        raise FileExistsError(17, "File exists", p)
    while p not in f.dirs:
        f.dirs.add(p)
        p = os.path.dirname(p)


@on_path(os.rmdir)
def v_rmdir(f, p, **k):
    if p not in f.dirs:
        raise FileNotFoundError(2, "No such file or directory", p)
    if any(os.path.dirname(x) == p for x in list(f.files) + list(f.dirs)):
        raise OSError(39, "Directory not empty", p)
    f.dirs.discard(p)


@on_path(os.listdir)
def v_listdir(f, p="."):
    if p not in f.dirs:
        raise FileNotFoundError(2, "No such file or directory", p)
    return [os.path.basename(x) for x in sorted(set(f.files) | f.dirs) if os.path.dirname(x) == p]


@on_path(shutil.rmtree)
def v_rmtree(f, p, ignore_errors=False, onerror=None, **k):
    if p not in f.dirs:
        if ignore_errors:
            return
        raise FileNotFoundError(2, "No such file or directory", p)
    for x in list(f.files):
        if x.startswith(p + "/"):
            del f.files[x]
    f.dirs = {d for d in f.dirs if d != p and not d.startswith(p + "/")}


def two(real):
    def deco(fn):
        def g(a, b, *x, **k):
            f = fs()
            p, q = (f.norm(a), f.norm(b)) if f is not None else (None, None)
            if p is None and q is None:
                return real(a, b, *x, **k)
            if p is None or q is None:
                raise Unsupported("copy across file systems")
            return fn(f, p, q, b, *x, **k)

        model(real)(g)
        return fn

    return deco


@two(os.rename)
@two(os.replace)
def v_rename(f, p, q, b, **k):
    n = f.node(p)
    if q in f.dirs:
        raise IsADirectoryError(21, "Is a directory", q)
    if os.path.dirname(q) not in f.dirs:
        raise FileNotFoundError(2, "No such file or directory", q)
    del f.files[p]
    f.files[q] = n


@two(os.link)
def v_link(f, p, q, b, **k):
    n = f.node(p)
    if q in f.dirs or q in f.files:
        raise FileExistsError(17, "File exists", q)
    f.files[q] = n


def v_copyfile(f, p, q, b, **k):
    n = f.node(p)
    if p == q:
        raise shutil.SameFileError("same file")
    f.create(q)
    if f.is_full:
        raise OSError(27, "File too large")
    f.files[q][0] = n[0]
    return b


def v_copy(f, p, q, b, **k):
    if q in f.dirs:
        q = os.path.join(q, os.path.basename(p))
        b = q
    v_copyfile(f, p, q, b)
    return b


def v_move(f, p, q, b, copy_function=None):
    if q in f.dirs:
        q = os.path.join(q, os.path.basename(p))
        if q in f.files:
            raise shutil.Error("Destination path '%s' already exists" % q)
        b = q
    v_rename(f, p, q, b)
    return b


two(shutil.copyfile)(v_copyfile)
two(shutil.copy)(v_copy)
two(shutil.copy2)(v_copy)
two(shutil.move)(v_move)
two(shutil.copymode)(lambda f, p, q, b, **k: None)
two(shutil.copystat)(lambda f, p, q, b, **k: None)


@model(shutil.copyfileobj)
def v_copyfileobj(a, b, length=0):
    if type(a) is not File and type(b) is not File:
        return shutil.copyfileobj(a, b, length) if length else shutil.copyfileobj(a, b)
    b.write(a.read())


def temp_name(f, suffix, prefix, dir):
    f.temps += 1
    d = f.norm(dir if dir is not None else tempfile.gettempdir())
    if d is None:
        raise Unsupported("temporary file outside the scratch directory")
    if d not in f.dirs:
        raise FileNotFoundError(2, "No such file or directory", d)
    return d + "/" + (os.fsdecode(prefix) if prefix else "tmp") + "%08d" % f.temps + (os.fsdecode(suffix) if suffix else "")


@model(tempfile.mkstemp)
def v_mkstemp(suffix=None, prefix=None, dir=None, text=False):
    f = fs()
    if f is None:
        return tempfile.mkstemp(suffix, prefix, dir, text)
    p = temp_name(f, suffix, prefix, dir)
    return f.new_fd(f.create(p, excl=True), True, True, False, p), p


@model(tempfile.mkdtemp)
def v_mkdtemp(suffix=None, prefix=None, dir=None):
    f = fs()
    if f is None:
        return tempfile.mkdtemp(suffix, prefix, dir)
    p = temp_name(f, suffix, prefix, dir)
    f.dirs.add(p)
    return p


@model(tempfile.NamedTemporaryFile)
def v_named(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
    f = fs()
    if f is None:
        return tempfile.NamedTemporaryFile(mode, buffering, encoding, newline, suffix, prefix, dir, delete, **k)
    if "b" not in mode:
        raise Unsupported("text file")
    p = temp_name(f, suffix, prefix, dir)
    fd = f.new_fd(f.create(p, excl=True), "r" in mode or "+" in mode, "w" in mode or "+" in mode, False, p)
    return File(f, fd, p, mode, raw=buffering == 0, delete=p if delete else None)


class TempDir(object):
    def __init__(self, suffix=None, prefix=None, dir=None, **k):
        self.name = v_mkdtemp(suffix, prefix, dir)

    def cleanup(self):
        v_rmtree(fs(), self.name, ignore_errors=True)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()


@model(tempfile.TemporaryDirectory)
def v_tempdir(*a, **k):
    return tempfile.TemporaryDirectory(*a, **k) if fs() is None else TempDir(*a, **k)


@model(tempfile.TemporaryFile)
def v_tempfile(*a, **k):
    if fs() is None:
        return tempfile.TemporaryFile(*a, **k)
    t = v_named(*a, **k)
    t.unlink_now()
    t.delete = None
    return t


# ---- pathlib
def _path(name):
    def deco(fn):
        real = getattr(pathlib.Path, name)

        def g(self, *a, **k):
            f = fs()
            p = f.norm(self) if f is not None else None
            return real(self, *a, **k) if p is None else fn(f, p, self, *a, **k)

        method(pathlib.PosixPath, name)(g)
        return fn

    return deco


_path("stat")(lambda f, p, s, **k: v_stat_path(f, p))
_path("exists")(lambda f, p, s, **k: p in f.files or p in f.dirs)
_path("is_file")(lambda f, p, s: p in f.files)
_path("is_dir")(lambda f, p, s: p in f.dirs)
_path("open")(lambda f, p, s, *a, **k: v_open(p, *a, **k))
_path("mkdir")(lambda f, p, s, mode=0o777, parents=False, exist_ok=False: v_makedirs(f, p, mode, exist_ok) if parents else None if exist_ok and p in f.dirs else v_mkdir(f, p))
_path("replace")(lambda f, p, s, t: (v_rename(f, p, f.norm(t), t), pathlib.Path(t))[1])
_path("rename")(lambda f, p, s, t: (v_rename(f, p, f.norm(t), t), pathlib.Path(t))[1])


@_path("unlink")
def p_unlink(f, p, s, missing_ok=False):
    if missing_ok and p not in f.files:
        return
    v_remove(f, p)


@_path("read_bytes")
def p_read(f, p, s):
    return f.node(p)[0]


@_path("write_bytes")
def p_write(f, p, s, data):
    f.create(p)[0] = data
    return xlen(data)


# ------------------------------------------------------------------ in a replay
class RealFS(object):
    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="symx-fs-", dir="/tmp"))
        os.mkdir(self.root + "/tmp")
        self._write = os.write
        self._limit = None
        self._fds = set(os.listdir("/proc/self/fd"))

    def path(self, name):
        return self.root + "/" + name

    def put(self, name, content):
        with open(self.root + "/" + name, "wb") as f:
            f.write(content)

    def get(self, name):
        try:
            with open(self.root + "/" + name, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def names(self):
        out = []
        for d, _, fs in os.walk(self.root):
            out += [os.path.relpath(os.path.join(d, x), self.root) for x in fs]
        return sorted(out)

    def open_files(self):
        n = 0
        for x in os.listdir("/proc/self/fd"):
            try:
                if os.readlink("/proc/self/fd/" + x).startswith(self.root):
                    n += 1
            except OSError:
                pass
        return n

    def limit_writes(self, fn):
        real = self._write

        def write(fd, data):
            try:
                mine = os.readlink("/proc/self/fd/%d" % fd).startswith(self.root)
            except OSError:
                mine = False
            if not mine:
                return real(fd, data)
            return real(fd, data[: fn(len(data))])

        os.write = write

    def full(self):
        import resource
        import signal

        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self._limit = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (0, self._limit[1]))

    def cleanup(self):
        os.write = self._write
        if self._limit is not None:
            import resource

            resource.setrlimit(resource.RLIMIT_FSIZE, self._limit)
        assert self.root.startswith("/tmp/symx-fs-")
        shutil.rmtree(self.root, ignore_errors=True)


class Place(object):
    """Environment while the scratch directory is in use."""

    def __init__(self, root):
        self.old = (tempfile.tempdir, os.environ.get("HOME"), os.environ.get("SX_DIR"), os.environ.get("SX_HOME"))
        tempfile.tempdir = root + "/tmp"
        os.environ["HOME"] = os.environ["SX_DIR"] = root
        os.environ["SX_HOME"] = "~"

    def undo(self):
        tempfile.tempdir = self.old[0]
        for n, v in zip(("HOME", "SX_DIR", "SX_HOME"), self.old[1:]):
            if v is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = v
