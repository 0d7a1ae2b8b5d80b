"""The symbolic side of the harness interface and the explorer."""
import os
import time
import traceback

import z3

from . import api, core, models, rope, vfs
from .core import SymBool, SymInt, Unsupported, ball, bany, bnot, mkbool
from .rope import Cs, InBase, Opq, build


class Input(object):
    def __init__(self, term, low=None, kind="int"):
        self.term, self.low, self.kind = term, low, kind

    def shrink_term(self):
        return self.term if self.low is not None and not isinstance(self.term, list) else None

    def shrink_low(self):
        return self.low

    def concrete(self, m):
        if self.kind == "str":
            return api.encode("".join(chr(m.eval(t, model_completion=True).as_long()) for t in self.term))
        if self.kind == "bytes":
            return api.encode(bytes(m.eval(t, model_completion=True).as_long() for t in self.term))
        v = m.eval(self.term, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return z3.is_true(v)


class SymH(object):
    sym = True

    def __init__(self, engine):
        self.E = engine
        self.used = {}
        self.observed = []

    def _name(self, name):
        n = self.used.get(name, 0)
        self.used[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def int(self, name, lo, hi):
        name = self._name(name)
        v = z3.Int(name)
        low = max(lo, 0) if hi >= 0 else None
        self.E.inputs[name] = Input(v, low)
        if lo == hi:
            self.E.assume(v == lo)
            return lo
        self.E.assume(z3.And(v >= lo, v <= hi))
        return SymInt(e=v)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.E.inputs[name] = Input(v)
        return SymBool(v)

    def count(self, name, lo, hi):
        v = self.int(name, lo, hi)
        return core.realise_int(v, hi - lo + 1)

    def pick(self, name, options):
        options = list(options)
        v = self.int(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if core.E.branch((v == i).e if type(v == i) is SymBool else v == i):
                return options[i]
        return options[-1]

    def text(self, name, lo=0, hi=1 << 20):
        return build(str, [Opq(self._in(name, lo, hi))])

    def blob(self, name, lo=0, hi=1 << 20):
        return build(bytes, [Opq(self._in(name, lo, hi))])

    def _in(self, name, lo, hi):
        name = self._name(name)
        v = z3.Int(name)
        self.E.inputs[name] = Input(v, lo)
        self.E.assume(z3.And(v >= lo, v <= hi))
        return InBase(name, SymInt(e=v) if lo != hi else lo)

    def chars(self, name, n, lo=0, hi=0x10FFFF, surrogates=False, exclude=()):
        name = self._name(name)
        us = [z3.BitVec("%s[%d]" % (name, i), rope.SW) for i in range(n)]
        self.E.inputs[name] = Input(us, kind="str")
        for u in us:
            c = [z3.UGE(u, lo), z3.ULE(u, hi)]
            if not surrogates:
                c.append(z3.Not(z3.And(z3.UGE(u, 0xD800), z3.ULE(u, 0xDFFF))))
            for x in exclude:
                c.append(u != (ord(x) if isinstance(x, str) else x))
            self.E.assume(z3.And(*c))
        return build(str, [Cs(us)])

    def bytes(self, name, n):
        name = self._name(name)
        us = [z3.BitVec("%s[%d]" % (name, i), 8) for i in range(n)]
        self.E.inputs[name] = Input(us, kind="bytes")
        return build(bytes, [Cs(us)])

    def assume(self, c):
        self.E.assume(core.b2z(c) if not isinstance(c, bool) or type(c) is SymBool else c)

    def check(self, c, msg):
        if type(c) is SymBool:
            self.E.check(c.e, msg)
        else:
            self.E.check(bool(c), msg)

    def fail(self, msg):
        self.E.check(False, msg)

    def reach(self, label):
        r = self.E.stats.reached
        r[label] = r.get(label, 0) + 1

    def observe(self, label, value):
        self.observed.append((label, value))

    def all(self, *cs):
        return ball(cs)

    def any(self, *cs):
        return bany(cs)

    def implies(self, a, b):
        return bany([bnot(a), b])

    def no(self, a):
        return bnot(a)

    def split(self, c):
        return bool(c)

    def ite(self, c, a, b):
        if type(c) is SymBool:
            p = None
            for x, y in ((a, b), (b, a)):
                if type(x) is SymInt and p is None:
                    p = x._bvpair(y)
            if p:
                u, v = p[:2] if type(a) is SymInt and a.bv is not None else (p[1], p[0])
                return core.mkbv(z3.simplify(z3.If(c.e, u, v)), p[2])
            return core.sint(z3.If(c.e, core.zint(a), core.zint(b)))
        return a if c else b

    def must(self, c):
        return rope.must(c)

    def on(self, what, fn):
        models.ENV[what] = fn

    def fs(self):
        """A scratch directory (see vfs)."""
        f = models.ENV["fs"] = vfs.FS()
        models.ENV["place"] = vfs.Place(f.root)
        return f


class Replayer(object):
    """Runs single assignments against the real code in a process of its own."""

    def __init__(self, prop):
        import os
        import subprocess
        import sys

        w = os.path.join(os.path.dirname(os.path.abspath(__file__)), "worker.py")
        self.p = subprocess.Popen([sys.executable, "-s", w, "con", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def fails(self, name, params, inputs):
        import json

        self.p.stdin.write(json.dumps({"name": name, "params": params, "inputs": inputs}) + "\n")
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                return True  # the caller finds out what happened
            if line.startswith("{"):
                return json.loads(line)["outcome"] in ("fail", "exception")


def weed(E, ob, params, since, state):
    """Drops counterexamples the real code does not share: the path is not
    encoded faithfully and counts as not explored."""
    if state.get("rep") is None:
        state["rep"] = Replayer(ob.prop)
    keep = []
    for v in E.violations[since:]:
        if state.get("spurious", 0) < MAX_SPURIOUS and not state["rep"].fails(ob.name, params, v[1]):
            state["spurious"] = state.get("spurious", 0) + 1
            w = "counterexample not shared by the real code: " + v[0]
            E.stats.cut[w] = E.stats.cut.get(w, 0) + 1
        else:
            keep.append(v)
    E.violations[since:] = keep


MAX_SPURIOUS = 30


def explore(ob, params, budget_s, sample_every=1, max_samples=40, max_paths=1000000, stop_after=3, timeout_ms=30000):
    """Explore every path of a harness.  Returns a JSON-able result."""
    E = core.Engine(timeout_ms=timeout_ms)
    core.set_engine(E)
    t0 = time.monotonic()
    E.deadline = t0 + budget_s
    S = E.stats
    samples = []
    exc_seen = {}
    status = "complete"
    spurious_note = []
    seen_msgs = set()
    lenient = {} if os.environ.get("VERIF_STRICT") != "1" else None
    while True:
        nviol = len(E.violations)
        E.start_path()
        models.reset_env()
        if "place" in models.ENV:
            models.ENV["place"].undo()
        models.ENV.clear()
        h = SymH(E)
        end = None
        try:
            ob.fn(h, **params)
            if E.dead is not None:
                raise E.dead
            end = "ok"
        except core.PathEnd:
            end = "infeasible"
            S.infeasible += 1
        except core.Cut as c:
            end = "cut"
            S.cut[c.why] = S.cut.get(c.why, 0) + 1
        except Unsupported as c:
            end = "unsupported"
            S.cut[c.why] = S.cut.get(c.why, 0) + 1
        except core.Inconclusive as c:
            end = "inconclusive"
            S.cut["INCONCLUSIVE " + str(c)] = S.cut.get("INCONCLUSIVE " + str(c), 0) + 1
        except core.Stop as c:
            status = "stopped: " + str(c)
            break
        except core.Fatal as c:
            status = "fatal: " + str(c)
            break
        except core.Control as c:
            status = "fatal: " + repr(c)
            break
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            if E.dead is not None:
                # a control exception was replaced on its way out
                d = E.dead
                if isinstance(d, core.PathEnd):
                    end = "infeasible"
                    S.infeasible += 1
                elif isinstance(d, core.Stop):
                    status = "stopped: " + str(d)
                    break
                elif isinstance(d, core.Fatal):
                    status = "fatal: " + str(d)
                    break
                else:
                    end = "cut"
                    w = getattr(d, "why", str(d))
                    S.cut[w] = S.cut.get(w, 0) + 1
            else:
                tb = traceback.extract_tb(e.__traceback__)
                where = "%s:%s" % (tb[-1].filename.split("/")[-1], tb[-1].lineno) if tb else "?"
                text = "%s: %s" % (type(e).__name__, e)
                gap = isinstance(e, TypeError) and any(n in str(e) for n in ("SymStr", "SymBytes", "SymInt", "SymBool", "SymUUID", "SymReal", "SymMatch"))
                gap = gap or (isinstance(e, AttributeError) and "Sym" in str(e))
                if gap:
                    end = "unsupported"
                    w = "unsupported: native operation (%s at %s)" % (text, where)
                    S.cut[w] = S.cut.get(w, 0) + 1
                else:
                    end = "exception"
                    try:
                        m = E.path_model()
                    except core.Inconclusive:
                        m = None
                    if m is None:
                        end = "infeasible"
                    else:
                        E.violations.append(
                            (
                                "unexpected exception %s" % text[:300],
                                E.concrete_inputs(m),
                                "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:]),
                            )
                        )
        S.paths += 1
        if end in ("ok", "cut", "unsupported") and len(samples) < max_samples * 4:
            try:
                m = E.path_model() if E.dead is None or end != "ok" else None
            except core.Control:
                m = None
            if m is not None:
                obs = None
                if end == "ok":
                    try:
                        obs = [[l, api.norm(rope.conc(v, m))] for l, v in h.observed]
                    except Unsupported:
                        obs = None
                samples.append({"inputs": E.concrete_inputs(m), "observed": obs, "end": end})
        if lenient is not None and len(E.violations) > nviol:
            weed(E, ob, params, nviol, lenient)
        if len(E.violations) >= stop_after:
            status = "stopped: violations"
            break
        if S.paths >= max_paths:
            status = "stopped: path limit"
            break
        if not E.backtrack():
            break
    if len(samples) > max_samples:
        step = len(samples) / float(max_samples)
        keep = [samples[int(i * step)] for i in range(max_samples)]
        odd = [s for s in samples if s["end"] != "ok"][:max_samples]
        samples = keep + [s for s in odd if s not in keep]
    return {
        "status": status,
        "paths": S.paths,
        "infeasible": S.infeasible,
        "branches": S.branches,
        "queries": S.queries,
        "solver_s": round(S.solver_s, 3),
        "checks": S.checks,
        "checks_solved": S.checks_solved,
        "cuts": S.cut,
        "reached": S.reached,
        "realised": S.realised,
        "functions": sorted(S.functions),
        "violations": [list(v) for v in E.violations],
        "samples": samples,
        "wall_s": round(time.monotonic() - t0, 2),
    }
