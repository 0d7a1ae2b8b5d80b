"""symx core: the path engine and the symbolic scalar proxies.

A run of a harness is a depth first exploration of its paths.  Every path is a
re-execution of the harness from the start under a prefix of recorded
decisions; a decision is taken whenever Python needs the truth value of a
symbolic condition and the solver says that both values are possible.
Everything here is deterministic: the prefix of the trace that two paths share
is the same list of z3 terms, so their assertions stay on the solver stack.
"""
import math
import time

import z3

W = 64  # width of bit-vector backed integers (two's complement, magnitudes are tracked)


class Control(BaseException):
    """Exceptions that steer the exploration; never caught by code under test."""


class PathEnd(Control):
    """The path's assumptions are unsatisfiable."""


class Cut(Control):
    """The path leaves the stated bounds (unwinding, concretisation limit...)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Inconclusive(Control):
    """The solver answered unknown."""


class Fatal(Control):
    """The exploration itself is broken (for example: not deterministic)."""


class Stop(Control):
    """Enough was found; stop exploring."""


class Unsupported(Control):
    """An operation that the encoding has no model for."""

    def __init__(self, what):
        super().__init__(what)
        self.why = "unsupported: " + what


BRANCH, ASSUME, CONST, FORCED, MUST, VALUE, CHECK = "B", "A", "C", "F", "M", "V", "K"


class Entry(object):
    __slots__ = ("kind", "cond", "taken", "alt", "framed")

    def __init__(self, kind, cond, taken, alt=False, framed=False):
        self.kind = kind
        self.cond = cond
        self.taken = taken
        self.alt = alt
        self.framed = framed


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.cut = {}
        self.infeasible = 0
        self.branches = 0
        self.steps = 0
        self.checks = 0
        self.checks_solved = 0
        self.functions = set()
        self.reached = {}
        self.realised = {}


class Engine(object):
    def __init__(self, timeout_ms=30000, loop_cap=4000, realise_cap=40, max_steps=200000):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout_ms)
        self.trace = []
        self.pos = 0
        self.stats = Stats()
        self.model = None  # a model of the current path condition, or None
        self.loop_cap = loop_cap
        self.realise_cap = realise_cap
        self.max_steps = max_steps
        self.loops = 0
        self.dead = None
        self.fresh_n = 0
        self.inputs = {}
        self.violations = []
        self.deadline = None
        self.path_notes = []
        self.memo = {}

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise self._die(Inconclusive("solver: unknown (%s)" % self.solver.reason_unknown()))
        return r == z3.sat

    def _die(self, exc):
        self.dead = exc
        return exc

    def _push(self, cond):
        self.solver.push()
        self.solver.add(cond)

    def _alive(self):
        if self.dead is not None:
            raise self.dead

    def _need_model(self):
        if self.model is None:
            if not self._check():
                raise self._die(PathEnd())
            self.model = self.solver.model()
        return self.model

    def _model_says(self, cond):
        v = self._need_model().eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ------------------------------------------------------------- decisions
    def _replay(self, kind, cond):
        e = self.trace[self.pos]
        if e.kind not in kind or (cond is not None and e.cond is not None and cond is not e.cond and not cond.eq(e.cond)):
            raise self._die(
                Fatal("re-execution diverged at decision %d: %s/%s vs %s/%s" % (self.pos, e.kind, e.cond, kind, cond))
            )
        self.pos += 1
        return e

    def _add(self, e):
        self.trace.append(e)
        self.pos += 1
        if self.pos > self.max_steps:
            raise self._die(Cut("decision limit"))

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        self._alive()
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise self._die(Stop("time budget"))
        key = getattr(cond, "sxkey", None) or cond.get_id()
        hit = self.memo.get(key)
        if hit is not None:
            return hit[1]
        r = self._branch(cond)
        self.memo[key] = (cond, r)
        return r

    def _branch(self, cond):
        if self.pos < len(self.trace):
            return self._replay((BRANCH, CONST, FORCED), cond).taken
        s = cond if hasattr(cond, "sxkey") else z3.simplify(cond)
        if z3.is_true(s) or z3.is_false(s):
            r = z3.is_true(s)
            self._add(Entry(CONST, cond, r))
            return r
        self.stats.branches += 1
        says = self._model_says(s)
        if says is None:
            t = self._check(s)
            f = self._check(z3.Not(s))
            m = None
        elif says:
            t = True
            f = self._check(z3.Not(s))
        else:
            f = True
            t = self._check(s)
        if t and f:
            # explore the true side first; a model survives when it agrees
            e = Entry(BRANCH, cond, True, alt=True, framed=True)
            self._push(s)
            if says is not True:
                self.model = None
            self._add(e)
            return True
        if not t and not f:
            raise self._die(PathEnd())
        self._add(Entry(FORCED, cond, t))
        return t

    def must(self, cond):
        """Is cond implied by the path condition?  Adds nothing to the path."""
        if cond is True or cond is False:
            return cond
        self._alive()
        key = getattr(cond, "sxkey", None) or cond.get_id()
        hit = self.memo.get(key)
        if hit is not None:
            return hit[1]
        r = self._must(cond)
        if r:
            self.memo[key] = (cond, r)
        return r

    def _must(self, cond):
        if self.pos < len(self.trace):
            return self._replay((MUST,), cond).taken
        s = cond if hasattr(cond, "sxkey") else z3.simplify(cond)
        if z3.is_true(s):
            r = True
        elif z3.is_false(s):
            r = False
        elif self._model_says(s) is False:
            r = False
        else:
            r = not self._check(z3.Not(s))
        self._add(Entry(MUST, cond, r))
        return r

    def assume(self, cond):
        if cond is True:
            return
        self._alive()
        if cond is False:
            raise self._die(PathEnd())
        if self.pos < len(self.trace):
            self._replay((ASSUME,), cond)
            return
        s = z3.simplify(cond)
        if z3.is_true(s):
            self._add(Entry(ASSUME, cond, True))
            return
        if self.model is not None and self._model_says(s) is not True:
            self.model = None
        self._push(s)
        self._add(Entry(ASSUME, cond, True, framed=True))
        self._need_model()

    def value(self, term):
        """A value the term can take on this path (not asserted)."""
        self._alive()
        if self.pos < len(self.trace):
            return self._replay((VALUE,), None).taken
        v = self._need_model().eval(term, model_completion=True)
        self._add(Entry(VALUE, None, v))
        return v

    def check(self, cond, msg):
        """Assert cond for every value on this path."""
        self._alive()
        if self.pos < len(self.trace):
            self._replay((CHECK,), cond if not isinstance(cond, bool) else None)
            return
        self.stats.checks += 1
        if cond is True:
            return self._add(Entry(CHECK, None, True))
        if cond is False:
            self._violation(msg, None)
            raise self._die(PathEnd())
        s = z3.simplify(cond)
        if z3.is_true(s):
            return self._add(Entry(CHECK, cond, True))
        self.stats.checks_solved += 1
        bad = self._model_says(s) is False or self._check(z3.Not(s))
        if bad:
            self._violation(msg, z3.Not(s))
            if not self._check(s):
                raise self._die(PathEnd())
            self._push(s)
            self.model = None
            return self._add(Entry(CHECK, cond, True, framed=True))
        self._add(Entry(CHECK, cond, True))

    def _violation(self, msg, neg):
        depth = self.solver.num_scopes()
        self.solver.push()
        try:
            if neg is not None:
                self.solver.add(neg)
            if not self._check():
                if neg is None:
                    raise self._die(PathEnd())
                raise self._die(Fatal("counterexample vanished"))
            m = self._minimise()
            self.violations.append((msg, self.concrete_inputs(m)))
        finally:
            self.solver.pop(self.solver.num_scopes() - depth)

    def _minimise(self):
        """Prefer small lengths: a bounded number of greedy shrinking queries."""
        m = self.solver.model()
        for name in list(self.inputs):
            inp = self.inputs[name]
            t = inp.shrink_term()
            if t is None:
                continue
            cur = m.eval(t, model_completion=True)
            if not z3.is_int_value(cur):
                continue
            cur = cur.as_long()
            lo = inp.shrink_low()
            tries = [lo, lo + 1, lo + 2, lo + 8, lo + 64, (cur + lo) // 2]
            for v in tries:
                if v >= cur:
                    continue
                self.solver.push()
                self.solver.add(t <= v)
                try:
                    ok = self._check()
                except Inconclusive:
                    self.dead = None
                    ok = False
                if ok:
                    m = self.solver.model()
                    break
                self.solver.pop()
        # the pushes stay until _violation drops every scope above its own
        return m

    def concrete_inputs(self, m):
        return {name: inp.concrete(m) for name, inp in self.inputs.items()}

    def path_model(self):
        m = self.model
        if m is None:
            if not self._check():
                return None
            m = self.model = self.solver.model()
        return m

    # ------------------------------------------------------------------ names
    def fresh(self, prefix):
        self.fresh_n += 1
        return "%s!%d" % (prefix, self.fresh_n)

    def loop(self):
        self.loops += 1
        if self.loops > self.loop_cap:
            self._alive()
            raise self._die(Cut("loop unwinding limit %d" % self.loop_cap))

    # -------------------------------------------------------------- exploring
    def start_path(self):
        self.pos = 0
        self.loops = 0
        self.dead = None
        self.fresh_n = 0
        self.inputs = {}
        self.memo = {}
        self.path_notes = []
        if self.trace:
            self.model = None

    def backtrack(self):
        """Drop the finished path; returns False when everything is explored."""
        self.model = None
        while self.trace:
            e = self.trace[-1]
            if e.kind == BRANCH and e.alt:
                self.solver.pop()
                e.alt = False
                e.taken = not e.taken
                self._push(e.cond if e.taken else z3.Not(e.cond))
                return True
            if e.framed:
                self.solver.pop()
            self.trace.pop()
        return False


E = None  # the engine of this process


def set_engine(e):
    global E
    E = e


def eng():
    return E


# ---------------------------------------------------------------------- scalars
def is_sym(x):
    return getattr(type(x), "_sx", False)


class SymBool(object):
    _sx = True
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    @property
    def __class__(self):
        return bool

    def __and__(self, o):
        return mkbool(z3.And(self.e, b2z(o)))

    def __or__(self, o):
        return mkbool(z3.Or(self.e, b2z(o)))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, b2z(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.e == b2z(o))
        if type(o) is SymInt or isinstance(o, int):
            return self._int() == o
        return False

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return 7

    def _int(self):
        return SymInt(e=z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __str__(self):
        return "<symbool>"

    __repr__ = __str__


def b2z(x):
    if type(x) is SymBool:
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_sym(x):
        return x.sx_truth()
    return z3.BoolVal(bool(x))


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bnot(x):
    if type(x) is SymBool:
        r = lin_not(x.e)
        if r is not None:
            return r
        return mkbool(z3.Not(x.e))
    return not x


def ball(xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return mkbool(z3.And(*out) if len(out) > 1 else out[0])


def bany(xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return mkbool(z3.Or(*out) if len(out) > 1 else out[0])


# ---- linear forms: most symbolic integers are sums of lengths; keeping them
# as Python data decides most comparisons without building a term.
ATOMS = []  # id -> z3 term
ATOM_ID = {}  # z3 ast id -> id
LIN_E = {}  # linear form -> z3 term
CMP = {}  # (kind, linear form) -> SymBool
ZERO = (0, ())


def lin_of_term(e):
    if z3.is_int_value(e):
        return (e.as_long(), ())
    k = e.get_id()
    a = ATOM_ID.get(k)
    if a is None:
        a = ATOM_ID[k] = len(ATOMS)
        ATOMS.append(e)
    return (0, ((a, 1),))


def lin_term(l):
    e = LIN_E.get(l)
    if e is None:
        c, ts = l
        parts = []
        for a, k in ts:
            t = ATOMS[a]
            parts.append(t if k == 1 else z3.IntVal(k) * t)
        if c or not parts:
            parts.append(z3.IntVal(c))
        e = parts[0]
        for x in parts[1:]:
            e = e + x
        LIN_E[l] = e
    return e


def lin_add(a, b, f):
    """a + f * b"""
    if not a[1] and f == 1:
        return (a[0] + b[0], b[1])
    if not b[1]:
        return (a[0] + f * b[0], a[1])
    d = dict(a[1])
    for k, v in b[1]:
        n = d.get(k, 0) + f * v
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return (a[0] + f * b[0], tuple(sorted(d.items())))


def lin_scale(a, f):
    if f == 0:
        return ZERO
    return (a[0] * f, tuple((k, v * f) for k, v in a[1]))


def lin_int(l):
    return SymInt(lin=l) if l[1] else l[0]


def lin_cmp(kind, l):
    """kind 'ge': l >= 0, 'eq': l == 0, 'ne': l != 0; bool or SymBool"""
    c, ts = l
    if not ts:
        return c >= 0 if kind == "ge" else ((c == 0) if kind == "eq" else (c != 0))
    if kind != "ge":
        # orient, so that a == b and b == a are one condition
        if ts[0][1] < 0:
            l = lin_scale(l, -1)
            c, ts = l
    key = (kind, l)
    hit = CMP.get(key)
    if hit is not None:
        return hit
    g = 0
    for _, k in ts:
        g = math.gcd(g, k)
    l2 = l
    if g > 1:
        if kind == "ge":
            l2 = (c // g, tuple((a, k // g) for a, k in ts))
        elif c % g:
            r = kind == "ne"
            CMP[key] = r
            return r
        else:
            l2 = (c // g, tuple((a, k // g) for a, k in ts))
    pos = [(a, k) for a, k in l2[1] if k > 0]
    neg = [(a, -k) for a, k in l2[1] if k < 0]
    cc = l2[0]
    lhs = lin_term((cc if cc > 0 else 0, tuple(pos)))
    rhs = lin_term((-cc if cc < 0 else 0, tuple(neg)))
    if kind == "ge":
        e = lhs >= rhs
    else:
        e = lhs == rhs
        if kind == "ne":
            e = z3.Not(e)
    e.sxkey = (kind, l2)
    r = SymBool(e)
    CMP[key] = r
    return r


def lin_not(e):
    """The negation of a keyed comparison, or None."""
    k = getattr(e, "sxkey", None)
    if k is None:
        return None
    kind, l = k
    if kind == "ge":
        return lin_cmp("ge", lin_add((-1, ()), l, -1))
    return lin_cmp("ne" if kind == "eq" else "eq", l)


def zint(x):
    """z3 Int term (or python int) of an int-like."""
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    raise TypeError("expected an integer, got %s" % type(x).__name__)


def mkint(e):
    if isinstance(e, int):
        return int(e)
    if type(e) is SymInt:
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e=e)


def sint(e):
    return mkint(z3.simplify(e))


def mkbv(bv, mag):
    """Integer backed by a W bit two's complement vector with |value| < 2**mag."""
    if z3.is_bv_value(bv):
        return bv.as_signed_long()
    return SymInt(bv=bv, mag=mag)


class SymInt(object):
    _sx = True
    __slots__ = ("_e", "bv", "mag", "_lin")

    def __init__(self, e=None, bv=None, mag=None, lin=None):
        self._e = e
        self.bv = bv
        self.mag = mag
        self._lin = lin

    @property
    def e(self):
        if self._e is None:
            if self._lin is not None:
                self._e = lin_term(self._lin)
            else:
                self._e = z3.simplify(z3.BV2Int(self.bv, is_signed=True))
        return self._e

    @property
    def lin(self):
        if self._lin is None:
            self._lin = lin_of_term(self.e)
        return self._lin

    @staticmethod
    def _lin_of(o):
        if type(o) is SymInt:
            return o.lin
        if type(o) is SymBool:
            return lin_of_term(zint(o))
        return (int(o), ())

    @property
    def __class__(self):
        return int

    def sx_truth(self):
        if self.bv is not None:
            return self.bv != 0
        r = lin_cmp("ne", self.lin)
        return r.e if type(r) is SymBool else z3.BoolVal(r)

    def __bool__(self):
        return E.branch(self.sx_truth())

    def __hash__(self):
        return 11

    def _bvpair(self, o):
        """(bv, bv, mag) when both sides have a small vector form."""
        if self.bv is None:
            return None
        if type(o) is SymInt:
            if o.bv is None:
                return None
            return self.bv, o.bv, max(self.mag, o.mag)
        if type(o) is int or isinstance(o, int) and type(o) is not SymBool:
            o = int(o)
            return self.bv, z3.BitVecVal(o, W), max(self.mag, o.bit_length() + 1)
        return None

    @staticmethod
    def _ok(o):
        return type(o) in (SymInt, SymBool) or isinstance(o, int)

    def _cmp(self, o, f):
        if type(o) is SymReal:
            return mkbool(z3.simplify(f(z3.ToReal(self.e), o.e)))
        if isinstance(o, float):
            return mkbool(z3.simplify(f(z3.ToReal(self.e), z3.RealVal(repr(o)))))
        if not self._ok(o):
            return NotImplemented
        p = self._bvpair(o)
        if p is not None and p[2] < W:
            return mkbool(z3.simplify(f(p[0], p[1])))
        d = lin_add(self.lin, self._lin_of(o), -1)
        k = f(0, 0), f(1, 0), f(0, 1)
        if k == (True, False, False):
            return lin_cmp("eq", d)
        if k == (False, False, True):  # <
            return lin_cmp("ge", lin_add((-1, ()), d, -1))
        if k == (True, False, True):  # <=
            return lin_cmp("ge", lin_scale(d, -1))
        if k == (False, True, False):  # >
            return lin_cmp("ge", lin_add(d, (1, ()), -1))
        return lin_cmp("ge", d)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return bnot(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _arith(self, o, f, mag, kind):
        if type(o) is SymReal:
            return SymReal(f(z3.ToReal(self.e), o.e))
        if isinstance(o, float):
            return SymReal(f(z3.ToReal(self.e), z3.RealVal(repr(o))))
        if not self._ok(o):
            return NotImplemented
        p = self._bvpair(o)
        if p is not None and mag(p) < W - 1:
            return mkbv(z3.simplify(f(p[0], p[1])), mag(p))
        a, b = self.lin, self._lin_of(o)
        if kind == "+":
            return lin_int(lin_add(a, b, 1))
        if kind == "-":
            return lin_int(lin_add(a, b, -1))
        if kind == "r-":
            return lin_int(lin_add(b, a, -1))
        if not a[1]:
            return lin_int(lin_scale(b, a[0]))
        if not b[1]:
            return lin_int(lin_scale(a, b[0]))
        return sint(f(self.e, zint(o)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda p: p[2] + 1, "+")

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a, lambda p: p[2] + 1, "+")

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda p: p[2] + 1, "-")

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, lambda p: p[2] + 1, "r-")

    def __mul__(self, o):
        if type(o) is not SymInt and isinstance(o, (str, bytes, list, tuple)):
            return NotImplemented
        if type(o) is SymInt:
            m = None if self.bv is None or o.bv is None else self.mag + o.mag
        else:
            m = None if self.bv is None else self.mag + int(o).bit_length() + 1 if self._ok(o) else None
        return self._arith(o, lambda a, b: a * b, lambda p: m, "*")

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return -self - 1

    def _divisor(self, o):
        if not self._ok(o):
            return None
        if type(o) is SymInt:
            if bool(o == 0):
                raise ZeroDivisionError("division by zero")
            if bool(o < 0):
                raise Unsupported("division by a negative symbolic integer")
            return o.e
        o = int(o)
        if o == 0:
            raise ZeroDivisionError("division by zero")
        return o

    def __floordiv__(self, o):
        d = self._divisor(o)
        if d is None:
            return NotImplemented
        if isinstance(d, int) and d < 0:
            return (0 - self).__floordiv__(-d)
        if isinstance(d, int) and self.bv is not None and d & (d - 1) == 0:
            return self >> (d.bit_length() - 1)
        return sint(self.e / (z3.IntVal(d) if isinstance(d, int) else d))

    def __mod__(self, o):
        d = self._divisor(o)
        if d is None:
            return NotImplemented
        if isinstance(d, int) and d < 0:
            raise Unsupported("negative modulus")
        if isinstance(d, int) and self.bv is not None and d & (d - 1) == 0:
            return self & (d - 1)
        return sint(self.e % (z3.IntVal(d) if isinstance(d, int) else d))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __rfloordiv__(self, o):
        return SymInt(e=z3.IntVal(int(o))).__floordiv__(self)

    def __rmod__(self, o):
        return SymInt(e=z3.IntVal(int(o))).__mod__(self)

    def __truediv__(self, o):
        if type(o) is SymInt:
            self._divisor(o)
            return SymReal(z3.ToReal(self.e) / z3.ToReal(o.e))
        if isinstance(o, (int, float)):
            if o == 0:
                raise ZeroDivisionError("division by zero")
            return SymReal(z3.ToReal(self.e) / z3.RealVal(repr(o)))
        return NotImplemented

    def __rtruediv__(self, o):
        self_d = self._divisor(self)
        return SymReal(z3.RealVal(repr(o)) / z3.ToReal(self_d))

    # bit operations
    def _as_bv(self):
        if self.bv is not None:
            return self
        # only when the path bounds the value
        e = self.e
        if E.must(z3.And(e >= 0, e < 2**32)):
            return SymInt(e=e, bv=z3.Int2BV(e, W), mag=33)
        if E.must(z3.And(e >= 0, e < 2**62)):
            return SymInt(e=e, bv=z3.Int2BV(e, W), mag=63)
        raise Unsupported("bit operation on an unbounded symbolic integer")

    def __and__(self, o):
        if type(o) is not SymInt and isinstance(o, int) and self.bv is None:
            o = int(o)
            if o >= 0 and (o & (o + 1)) == 0:
                return sint(self.e % (o + 1))
            if o > 0:
                low = (o & -o).bit_length() - 1
                m = o >> low
                if m & (m + 1) == 0:
                    return sint((self.e / (1 << low)) % (m + 1) * (1 << low))
        return self._bit(o, lambda a, b: a & b)

    __rand__ = __and__

    def _bit(self, o, f):
        if not self._ok(o):
            return NotImplemented
        a = self._as_bv()
        if type(o) is SymInt:
            o = o._as_bv()
        p = a._bvpair(o)
        if p is None or p[2] >= W:
            raise Unsupported("bit operation")
        return mkbv(z3.simplify(f(p[0], p[1])), p[2])

    def __or__(self, o):
        if type(o) is not SymInt and int(o) == 0:
            return self
        return self._bit(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __rshift__(self, k):
        k = concretise_int(k)
        if self.bv is not None:
            return mkbv(z3.simplify(self.bv >> k), max(self.mag - k, 1))
        return sint(self.e / (1 << k))

    def __lshift__(self, k):
        k = concretise_int(k)
        if self.bv is not None and self.mag + k < W - 1:
            return mkbv(z3.simplify(self.bv << k), self.mag + k)
        return sint(self.e * (1 << k))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __pow__(self, o):
        o = concretise_int(o)
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def bit_length(self):
        return int(self).bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import rope

        return rope.pack_int(self, length, byteorder == "little", signed)

    # realisation
    def __index__(self):
        return realise_int(self)

    def __int__(self):
        return realise_int(self)

    def __float__(self):
        return float(realise_int(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __str__(self):
        return "<symint>"

    __repr__ = __str__

    def __format__(self, spec):
        return format(realise_int(self), spec)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymReal(object):
    """Exact rational arithmetic for int / const expressions (no rounding)."""

    _sx = True
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = z3.simplify(e)

    @property
    def __class__(self):
        return float

    @staticmethod
    def _z(o):
        if type(o) is SymReal:
            return o.e
        if type(o) is SymInt:
            return z3.ToReal(o.e)
        if isinstance(o, (int, float)):
            return z3.RealVal(repr(o))
        raise TypeError("number expected")

    def __add__(self, o):
        return SymReal(self.e + self._z(o))

    __radd__ = __add__

    def __sub__(self, o):
        return SymReal(self.e - self._z(o))

    def __rsub__(self, o):
        return SymReal(self._z(o) - self.e)

    def __mul__(self, o):
        return SymReal(self.e * self._z(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        z = self._z(o)
        if E.branch(z == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(self.e / z)

    def __floordiv__(self, o):
        return SymReal(z3.ToReal(z3.ToInt(self.e / self._z(o))))

    def __neg__(self):
        return SymReal(-self.e)

    def sx_int(self):
        return sint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def sx_floor(self):
        return sint(z3.ToInt(self.e))

    def sx_ceil(self):
        return sint(-z3.ToInt(-self.e))

    def __floor__(self):
        return self.sx_floor()

    def __ceil__(self):
        return self.sx_ceil()

    def sx_truth(self):
        return self.e != 0

    def __bool__(self):
        return E.branch(self.e != 0)

    def __hash__(self):
        return 13

    def __eq__(self, o):
        try:
            return mkbool(z3.simplify(self.e == self._z(o)))
        except TypeError:
            return False

    def __ne__(self, o):
        return bnot(self == o)

    def __lt__(self, o):
        return mkbool(z3.simplify(self.e < self._z(o)))

    def __le__(self, o):
        return mkbool(z3.simplify(self.e <= self._z(o)))

    def __gt__(self, o):
        return mkbool(z3.simplify(self.e > self._z(o)))

    def __ge__(self, o):
        return mkbool(z3.simplify(self.e >= self._z(o)))

    def __float__(self):
        v = E.value(self.e)
        note_realised("float")
        E.assume(self.e == v)
        return float(v.numerator_as_long()) / float(v.denominator_as_long())

    def __str__(self):
        return "<symreal>"

    __repr__ = __str__


def note_realised(what):
    E.stats.realised[what] = E.stats.realised.get(what, 0) + 1


def realise_int(x, limit=None):
    """Case split a symbolic integer into concrete values (bounded)."""
    if type(x) is not SymInt:
        return int(x)
    limit = limit or E.realise_cap
    t = x.bv if x.bv is not None else x.e
    for _ in range(limit):
        v = E.value(t)
        n = v.as_signed_long() if z3.is_bv_value(v) else v.as_long()
        if E.branch(t == v):
            return n
    note_realised("int")
    raise E._die(Cut("more than %d concrete values of a symbolic integer" % limit))


def concretise_int(x):
    return realise_int(x) if type(x) is SymInt else int(x)
