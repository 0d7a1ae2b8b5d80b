"""The harness interface.

A harness is an ordinary function `fn(h, **params)`.  `h` makes inputs and
states assertions.  Under the symbolic engine inputs are proxies; in a replay
the same harness runs with the solver's concrete values against the real,
uninstrumented code."""


class Obligation(object):
    def __init__(self, fn, prop, name, quick, thorough, bounds, assumes, budget):
        self.fn, self.prop, self.name = fn, prop, name
        self.quick, self.thorough = quick, thorough
        self.bounds, self.assumes, self.budget = bounds, assumes, budget

    def params(self, tier):
        """List of parameter dictionaries to run in this tier."""
        out = []
        for p in (self.quick, self.thorough if tier != "quick" else None):
            for q in [p] if isinstance(p, dict) else p or []:
                if q not in out:
                    out.append(q)
        return out


REGISTRY = {}


def obligation(prop, quick=None, thorough=None, bounds="", assumes=(), name=None, budget=None):
    """Register a harness.  quick/thorough: dict or list of dicts of parameters."""

    def deco(fn):
        o = Obligation(fn, prop, name or fn.__name__, {} if quick is None else quick, thorough, bounds, list(assumes), budget)
        if quick is False:
            o.quick = []
        REGISTRY.setdefault(prop, {})[o.name] = o
        return fn

    return deco


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


class ConcreteH(object):
    """Replays one assignment of the inputs."""

    sym = False

    def __init__(self, values):
        self.values = values
        self.used = {}
        self.failures = []
        self.observed = []
        self.reached = set()
        self.missing = []
        self._fs = None

    def _name(self, name):
        n = self.used.get(name, 0)
        self.used[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def _val(self, name, default):
        name = self._name(name)
        if name not in self.values:
            self.missing.append(name)
            return default
        return decode(self.values[name])

    def int(self, name, lo, hi):
        return self._val(name, lo)

    def bool(self, name):
        return bool(self._val(name, False))

    def count(self, name, lo, hi):
        return self._val(name, lo)

    def pick(self, name, options):
        options = list(options)
        return options[self._val(name, 0)]

    def text(self, name, lo=0, hi=1 << 20):
        from symx.rope import content

        n = self._name(name)
        if n not in self.values:
            self.missing.append(n)
            k = lo
        else:
            k = self.values[n]
        return content(n, k)

    def blob(self, name, lo=0, hi=1 << 20):
        return self.text(name, lo, hi).encode("ascii")

    def chars(self, name, n, lo=0, hi=0x10FFFF, surrogates=False, exclude=()):
        return self._val(name, "")

    def bytes(self, name, n):
        return self._val(name, b"")

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        if not c:
            self.failures.append(msg)
            raise CheckFailed(msg)

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        self.reached.add(label)

    def observe(self, label, value):
        self.observed.append([label, norm(value)])

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def no(self, a):
        return not a

    def split(self, c):
        return bool(c)

    def ite(self, c, a, b):
        return a if c else b

    def must(self, c):
        return bool(c)

    def on(self, what, fn):
        ENVHOOK(what, fn)

    def fs(self):
        from symx import vfs

        self._fs = vfs.RealFS()
        self._place = vfs.Place(self._fs.root)
        return self._fs

    def cleanup(self):
        if self._fs is not None:
            self._place.undo()
            self._fs.cleanup()


def ENVHOOK(what, fn):
    import time

    if what == "sleep":
        time.sleep = fn
    elif what == "time":
        time.time = fn
    elif what == "warn":
        import warnings

        warnings.warn = fn


def encode(v):
    """JSON form of an input value."""
    if isinstance(v, bytes):
        return {"b": v.hex()}
    if isinstance(v, str):
        return {"s": [ord(c) for c in v]}
    return v


def decode(v):
    if isinstance(v, dict):
        if "b" in v:
            return bytes.fromhex(v["b"])
        return "".join(map(chr, v["s"]))
    return v


def norm(v):
    """Comparable rendering of an observed value."""
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if isinstance(v, str):
        return "s:" + v.encode("utf-16-be", "surrogatepass").hex()
    if isinstance(v, bool) or v is None:
        return repr(v)
    if isinstance(v, int):
        return "i:%d" % v
    if isinstance(v, float):
        return "f:%r" % v
    if isinstance(v, (list, tuple)):
        return [norm(i) for i in v]
    if isinstance(v, dict):
        return sorted([[norm(a), norm(b)] for a, b in v.items()], key=repr)
    if isinstance(v, BaseException):
        return "exc:" + type(v).__name__
    return "t:" + type(v).__name__
