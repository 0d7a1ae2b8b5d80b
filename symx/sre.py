"""Regular expressions over ropes: a backtracking matcher that runs the pattern
the code really compiled (parsed with the standard library's own parser) and
asks the solver whenever a symbolic unit is tested."""
import re

import z3

from . import core
from .core import Unsupported, ball, bany, bnot, mkbool
from .rope import (
    ALPHABET,
    B64Base,
    DecBase,
    InBase,
    Opq,
    Rope,
    atoms,
    blob_excludes,
    blob_sets,
    br,
    from_atoms,
    is_rope,
    is_space,
    ueq,
    urange,
    width,
)

try:
    from re import _constants as sc
    from re import _parser as sp
except ImportError:  # pragma: no cover
    import sre_constants as sc
    import sre_parse as sp

_cache = {}


def parsed(pat):
    r = _cache.get(pat)
    if r is None:
        r = _cache[pat] = sp.parse(pat.pattern, pat.flags)
    return r


class Ctx(object):
    def __init__(self, ats, kind, flags):
        self.ats = ats
        self.kind = kind
        self.flags = flags
        self.groups = {}


def word(u, kind, ascii_only):
    c = [urange(u, 48, 57), urange(u, 65, 90), urange(u, 97, 122), ueq(u, 95, width(kind))]
    if kind is bytes or ascii_only:
        return bany(c)
    if isinstance(u, int):
        ch = chr(u)
        return ch.isalnum() or ch == "_"
    if core.E.branch(z3.ULT(u, 128)):
        return bany(c)
    raise Unsupported("\\w on a non ASCII symbolic character")


def digit(u, kind, ascii_only):
    if isinstance(u, int) and kind is str and not ascii_only:
        return chr(u).isdecimal()
    if kind is str and not ascii_only and not isinstance(u, int):
        if not core.E.branch(z3.ULT(u, 128)):
            raise Unsupported("\\d on a non ASCII symbolic character")
    return urange(u, 48, 57)


def category(cat, u, cx):
    a = bool(cx.flags & re.ASCII)
    n = str(cat)
    neg = "NOT_" in n
    if "WORD" in n:
        r = word(u, cx.kind, a)
    elif "DIGIT" in n:
        r = digit(u, cx.kind, a)
    elif "SPACE" in n:
        if cx.kind is bytes or a:
            r = bany([urange(u, 9, 13), ueq(u, 32, width(cx.kind))])
        else:
            r = is_space(u, cx.kind)
    else:
        raise Unsupported("category %s" % n)
    return bnot(r) if neg else r


def lit(u, v, cx, ic):
    if ic:
        c = chr(v)
        alts = {v}
        if cx.kind is str:
            for x in (c.lower(), c.upper()):
                if len(x) == 1:
                    alts.add(ord(x))
            # the full set of simple case variants
            if c.lower() == "k":
                alts.add(0x212A)
            if c.lower() == "s":
                alts.add(0x17F)
        elif c.isascii():
            alts |= {ord(c.lower()), ord(c.upper())}
        return bany([ueq(u, x, width(cx.kind)) for x in sorted(alts)])
    return ueq(u, v, width(cx.kind))


def inset(u, items, cx, ic):
    neg = False
    out = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            out.append(lit(u, av, cx, ic))
        elif op is sc.RANGE:
            lo, hi = av
            out.append(urange(u, lo, hi))
            if ic:
                if lo <= 122 and hi >= 97:
                    out.append(urange(u, max(lo, 97) - 32, min(hi, 122) - 32))
                if lo <= 90 and hi >= 65:
                    out.append(urange(u, max(lo, 65) + 32, min(hi, 90) + 32))
        elif op is sc.CATEGORY:
            out.append(category(av, u, cx))
        else:
            raise Unsupported("set item %s" % op)
    r = bany(out)
    return bnot(r) if neg else r


def opq_alphabet(a):
    sets = blob_sets(a)
    if sets is not None and len(sets) == 1:
        return sets[0]
    if isinstance(a.base, DecBase):
        return "0123456789"
    raise Unsupported("regular expression over %r" % a)


def test(a, op, av, cx, ic):
    """Single unit test.  For an opaque atom the answer has to be uniform."""
    if isinstance(a, Opq):
        rs = {bool(test(ord(c), op, av, cx, ic)) for c in opq_alphabet(a)}
        if len(rs) == 1:
            return rs.pop()
        if isinstance(a.base, (B64Base, DecBase)) or rs == {True, False}:
            if op is sc.LITERAL and chr(av) not in ALPHABET:
                return False
        raise Unsupported("regular expression over %r" % a)
    if op is sc.LITERAL:
        return lit(a, av, cx, ic)
    if op is sc.NOT_LITERAL:
        return bnot(lit(a, av, cx, ic))
    if op is sc.ANY:
        if cx.flags & re.DOTALL:
            return True
        return bnot(ueq(a, 10, width(cx.kind)))
    if op is sc.IN:
        return inset(a, av, cx, ic)
    raise Unsupported("op %s" % op)


SINGLE = None


def single_ops():
    return (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)


def fixed(seq):
    """List of single-unit tests when the pattern has a fixed width, else None."""
    out = []
    for op, av in seq:
        if op in single_ops():
            out.append((op, av))
        elif op is sc.SUBPATTERN:
            group, add_flags, del_flags, p = av
            if add_flags or del_flags:
                return None
            sub = fixed(p)
            if sub is None:
                return None
            out.append(("open", group))
            out.extend(sub)
            out.append(("close", group))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            if lo != hi or int(lo) > 64:
                return None
            sub = fixed(p)
            if sub is None:
                return None
            out.extend(sub * int(lo))
        else:
            return None
    return out


def m_fixed(tests, i, cx, ic):
    conds = []
    groups = {}
    opens = {}
    p = i
    for k, (op, av) in enumerate(tests):
        if op == "open":
            opens[av] = p
            continue
        if op == "close":
            if av is not None:
                groups[av] = (opens[av], p)
            continue
        if p >= len(cx.ats):
            return None
        a = cx.ats[p]
        if isinstance(a, Opq):
            rest = [t for t in tests[k:] if t[0] not in ("open", "close")]

            def disjoint(t, chars):
                return t < len(rest) and not any(bool(test(ord(c), rest[t][0], rest[t][1], cx, ic)) for c in chars)

            if blob_excludes(a, disjoint, p == i):
                return None
            raise Unsupported("fixed width pattern inside %r" % a)
        r = test(a, op, av, cx, ic)
        if r is False:
            return None
        if r is not True:
            conds.append(r)
        p += 1
    if not br(ball(conds)):
        return None
    cx.groups.update(groups)
    return p


def m(seq, k, i, cx, flags, cont):
    """Match seq[k:] at atom i, then the continuation; returns end or None."""
    if k == len(seq):
        return cont(i)
    ic = bool(flags & re.IGNORECASE)
    op, av = seq[k]
    if op in single_ops():
        if i >= len(cx.ats):
            return None
        a = cx.ats[i]
        if isinstance(a, Opq):
            if test(a, op, av, cx, ic):
                raise Unsupported("single unit match inside %r" % a)
            return None
        if not br(test(a, op, av, cx, ic)):
            return None
        return m(seq, k + 1, i + 1, cx, flags, cont)
    if op is sc.SUBPATTERN:
        group, add_flags, del_flags, p = av

        def after(j):
            old = cx.groups.get(group)
            if group is not None:
                cx.groups[group] = (i, j)
            r = m(seq, k + 1, j, cx, flags, cont)
            if r is None and group is not None:
                if old is None:
                    cx.groups.pop(group, None)
                else:
                    cx.groups[group] = old
            return r

        return m(p, 0, i, cx, (flags | add_flags) & ~del_flags, after)
    if op is sc.BRANCH:
        for alt in av[1]:
            r = m(alt, 0, i, cx, flags, lambda j: m(seq, k + 1, j, cx, flags, cont))
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, p = av
        greedy = op is sc.MAX_REPEAT
        if len(p) == 1 and p[0][0] in single_ops():
            sop, sav = p[0]

            def hit(j):
                return j < len(cx.ats) and br(test(cx.ats[j], sop, sav, cx, ic))

            n = 0
            j = i
            while n < lo:
                if not hit(j):
                    return None
                n += 1
                j += 1
            if not greedy:
                while True:
                    r = m(seq, k + 1, j, cx, flags, cont)
                    if r is not None:
                        return r
                    if (hi is not sc.MAXREPEAT and n >= hi) or not hit(j):
                        return None
                    n += 1
                    j += 1
            stack = [j]
            while (hi is sc.MAXREPEAT or n < hi) and hit(j):
                n += 1
                j += 1
                stack.append(j)
            while stack:
                r = m(seq, k + 1, stack.pop(), cx, flags, cont)
                if r is not None:
                    return r
            return None

        def rep(n, j):
            def more():
                if hi is not sc.MAXREPEAT and n >= hi:
                    return None
                return m(p, 0, j, cx, flags, lambda x: rep(n + 1, x) if x > j or n < lo else None)

            def stop():
                return m(seq, k + 1, j, cx, flags, cont) if n >= lo else None

            for f in (more, stop) if greedy else (stop, more):
                r = f()
                if r is not None:
                    return r
            return None

        return rep(0, i)
    if op is sc.AT:
        n = str(av)
        if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            ok = i == 0
            if n == "AT_BEGINNING" and flags & re.MULTILINE and i > 0:
                a = cx.ats[i - 1]
                ok = not isinstance(a, Opq) and br(ueq(a, 10, width(cx.kind)))
        elif n in ("AT_END", "AT_END_STRING"):
            ok = i == len(cx.ats)
            if not ok and n == "AT_END":
                a = cx.ats[i]
                if (i == len(cx.ats) - 1 or flags & re.MULTILINE) and not isinstance(a, Opq):
                    ok = br(ueq(a, 10, width(cx.kind)))
        else:
            raise Unsupported("anchor %s" % n)
        return m(seq, k + 1, i, cx, flags, cont) if ok else None
    if op is sc.ASSERT or op is sc.ASSERT_NOT:
        direction, p = av
        if direction > 0:
            r = m(p, 0, i, cx, flags, lambda j: j)
        else:
            w = p.getwidth()
            if w[0] != w[1]:
                raise Unsupported("variable look-behind")
            r = m(p, 0, i - w[0], cx, flags, lambda j: j) if i >= w[0] else None
        ok = (r is not None) if op is sc.ASSERT else (r is None)
        return m(seq, k + 1, i, cx, flags, cont) if ok else None
    if op is sc.GROUPREF:
        g = cx.groups.get(av)
        if g is None:
            return None
        j = i
        for a in cx.ats[g[0] : g[1]]:
            if j >= len(cx.ats):
                return None
            b = cx.ats[j]
            if isinstance(a, Opq) or isinstance(b, Opq) or not br(ueq(a, b, width(cx.kind))):
                return None
            j += 1
        return m(seq, k + 1, j, cx, flags, cont)
    raise Unsupported("regular expression op %s" % op)


class SymMatch(object):
    _sx = True

    def __init__(self, pat, subject, cx, start, end):
        self.re = pat
        self.string = subject
        self._cx = cx
        self._g = dict(cx.groups)
        self._g[0] = (start, end)

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            s = self._span(g)
            out.append(None if s is None else from_atoms(self._cx.kind, self._cx.ats[s[0] : s[1]]))
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(
            default if self._g.get(i) is None else self.group(i) for i in range(1, self.re.groups + 1)
        )

    def groupdict(self, default=None):
        return {n: (self.group(n) if self._span(n) is not None else default) for n in self.re.groupindex}

    def _pos(self, i):
        n = 0
        for a in self._cx.ats[:i]:
            n = n + (a.n if isinstance(a, Opq) else 1)
        return n

    def start(self, g=0):
        s = self._span(g)
        return -1 if s is None else self._pos(s[0])

    def end(self, g=0):
        s = self._span(g)
        return -1 if s is None else self._pos(s[1])

    def span(self, g=0):
        return self.start(g), self.end(g)

    @property
    def lastindex(self):
        gs = [g for g in self._g if g]
        return max(gs) if gs else None

    def expand(self, template):
        return expand(template, self)


def expand(template, mt):
    if is_rope(template):
        raise Unsupported("symbolic replacement template")
    try:
        parts = sp.parse_template(template, mt.re)
    except Exception:
        raise Unsupported("replacement template")
    kind = mt._cx.kind
    out = kind()
    if isinstance(parts, tuple):  # pragma: no cover
        raise Unsupported("template format")
    for p in parts:
        if isinstance(p, int):
            g = mt.group(p)
            out = out + (g if g is not None else kind())
        elif p:
            out = out + p
    return out


def match_at(pat, ats, i, kind, full=False, subject=None):
    seq = parsed(pat)
    flags = pat.flags
    cx = Ctx(ats, kind, flags)
    fx = fixed(seq)
    if fx is not None:
        e = m_fixed(fx, i, cx, bool(flags & re.IGNORECASE))
        if e is not None and full and e != len(ats):
            e = None
    else:
        e = m(seq, 0, i, cx, flags, lambda j: j if not full or j == len(ats) else None)
    if e is None:
        return None
    return SymMatch(pat, subject, cx, i, e)


def as_pattern(p, flags=0):
    if isinstance(p, re.Pattern):
        return p
    if is_rope(p):
        raise Unsupported("symbolic pattern")
    return re.compile(p, flags)


def iter_matches(pat, x, start=0):
    kind = x.KIND
    # base64 text and numbers need not be spelled out for a pattern that tells nothing about it
    if any(isinstance(s, Opq) and isinstance(s.base, (B64Base, DecBase)) for s in x.segs):
        try:
            ms = list(_iter(pat, x, start, kind, atoms(x, keep=(B64Base, DecBase))))
        except Unsupported:
            ms = None
        if ms is not None:
            if not ms:
                return
            if all(not isinstance(a, Opq) for mt in ms for a in mt._cx.ats[mt._g[0][0] : mt._g[0][1]]):
                yield from ms
                return
    yield from _iter(pat, x, start, kind, atoms(x))


def _iter(pat, x, start, kind, ats):
    i = start
    while i <= len(ats):
        mt = match_at(pat, ats, i, kind, subject=x)
        if mt is None:
            i += 1
            continue
        yield mt
        e = mt._g[0][1]
        i = e if e > i else i + 1


def p_match(pat, x, pos=0):
    return match_at(pat, atoms(x), 0, x.KIND, subject=x)


def p_fullmatch(pat, x):
    return match_at(pat, atoms(x), 0, x.KIND, full=True, subject=x)


def p_search(pat, x, pos=0):
    for mt in iter_matches(pat, x):
        return mt
    return None


def p_findall(pat, x):
    out = []
    for mt in iter_matches(pat, x):
        if pat.groups == 0:
            out.append(mt.group())
        elif pat.groups == 1:
            g = mt.group(1)
            out.append(x.KIND() if g is None else g)
        else:
            out.append(mt.groups(x.KIND()))
    return out


def p_subn(pat, repl, x, count=0):
    kind = x.KIND
    ats = None
    out = kind()
    last = 0
    n = 0
    for mt in iter_matches(pat, x):
        ats = mt._cx.ats
        s, e = mt._g[0]
        out = out + from_atoms(kind, ats[last:s])
        if callable(repl):
            r = repl(mt)
        else:
            r = expand(repl, mt)
        out = out + r
        last = e
        n += 1
        if count and n >= count:
            break
    if ats is None:
        return x, 0
    return out + from_atoms(kind, ats[last:]), n


def p_sub(pat, repl, x, count=0):
    return p_subn(pat, repl, x, count)[0]


def p_split(pat, x, maxsplit=0):
    kind = x.KIND
    out = []
    last = 0
    ats = None
    n = 0
    for mt in iter_matches(pat, x):
        ats = mt._cx.ats
        s, e = mt._g[0]
        if s == e:
            continue
        out.append(from_atoms(kind, ats[last:s]))
        out.extend(mt.groups())
        last = e
        n += 1
        if maxsplit and n >= maxsplit:
            break
    out.append(x if ats is None else from_atoms(kind, ats[last:]))
    return out
