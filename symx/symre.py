"""Strings with symbolic characters and a regular expression matcher that runs on them.

A character is either a concrete one-character text or a solver variable with a finite domain of code points.  Every
test of a character is decided by the engine (and forks the path where both outcomes are possible), so a path stands
for all texts that drive the code the same way.
"""
import re as _re
import types
from re import _constants as C
from re import _parser as P

from . import core
from .core import Unsupported, f_and, f_or, mkbool
from .poly import Poly

WS = frozenset(map(ord, " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"))
DIGITS = frozenset(range(48, 58))


def dom(v):
    return core.engine().vars[v].dom


def test(x, codes):
    """is character x in the set of code points"""
    if type(x) is str:
        return ord(x) in codes
    return core.engine().branch(("m", x, frozenset(codes) & dom(x), True))


def test_fn(x, fn):
    if type(x) is str:
        return fn(ord(x))
    d = dom(x)
    return core.engine().branch(("m", x, frozenset(c for c in d if fn(c)), True))


def eq_formula(a, b):
    if type(a) is str and type(b) is str:
        return a == b
    if type(a) is str:
        a, b = b, a
    e = core.engine()
    if type(b) is str:
        return e.normalize(("m", a, frozenset((ord(b),)), True))
    if a == b:
        return True
    both = dom(a) & dom(b)
    return f_or([f_and([("m", a, frozenset((c,)), True), ("m", b, frozenset((c,)), True)]) for c in sorted(both)])


def mk(items):
    out = []
    for x in items:
        if type(x) is not str:
            d = dom(x)
            if len(d) == 1:
                (c,) = d
                x = chr(c)
        out.append(x)
    if all(type(x) is str for x in out):
        return "".join(out)
    return SymStr(out)


def items(s):
    return s._c if isinstance(s, SymStr) else tuple(s)


def is_sym(s):
    return isinstance(s, SymStr)


class SymStr:
    __symstr__ = True
    __slots__ = ("_c", "_h")

    def __init__(self, chars, opaque=None):
        self._c = tuple(chars)
        self._h = opaque

    def __len__(self):
        return len(self._c)

    def __iter__(self):
        return iter([mk((x,)) for x in self._c])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk(self._c[k])
        return mk((self._c[k],))

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk(self._c + tuple(items(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(tuple(o) + self._c)

    def __mul__(self, n):
        return mk(self._c * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported("% formatting of a symbolic text")

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        b = items(o)
        if len(b) != len(self._c):
            return False
        return mkbool(f_and([eq_formula(x, y) for x, y in zip(self._c, b)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash(self.concrete())

    def concrete(self):
        """decide every character (forks over all remaining values)"""
        out = []
        for x in self._c:
            if type(x) is not str:
                for c in sorted(dom(x)):
                    if test(x, (c,)):
                        x = chr(c)
                        break
            out.append(x)
        return "".join(out)

    def _order(self, o):
        """-1, 0, 1"""
        b = items(o)
        for x, y in zip(self._c, b):
            if type(x) is str and type(y) is str:
                if x != y:
                    return -1 if x < y else 1
                continue
            if type(y) is not str:
                y = mk((y,))
                y = y if type(y) is str else y.concrete()
            if type(x) is str:
                if x != y:
                    return -1 if x < y else 1
                continue
            if test_fn(x, lambda c: c < ord(y)):
                return -1
            if test_fn(x, lambda c: c > ord(y)):
                return 1
        return (len(self._c) > len(b)) - (len(self._c) < len(b))

    def __lt__(self, o):
        return self._order(o) < 0

    def __le__(self, o):
        return self._order(o) <= 0

    def __gt__(self, o):
        return self._order(o) > 0

    def __ge__(self, o):
        return self._order(o) >= 0

    def __bool__(self):
        return len(self._c) > 0

    def __contains__(self, o):
        return self.find(o) >= 0

    def __str__(self):
        return str_token(self)

    def __format__(self, spec):
        return str_token(self)

    def __repr__(self):
        return str_token(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # ---- str methods
    def _at(self, i, sub):
        """does sub occur at i (forking)"""
        b = items(sub)
        if i < 0 or i + len(b) > len(self._c):
            return False
        for k in range(len(b)):
            f = eq_formula(self._c[i + k], b[k])
            if not (core.engine().branch(f) if not isinstance(f, bool) else f):
                return False
        return True

    def find(self, sub, start=None, end=None):
        start, end, _ = slice(start, end).indices(len(self._c))
        for i in range(start, end - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        start, end, _ = slice(start, end).indices(len(self._c))
        for i in range(end - len(sub), start - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def _hits(self, sub, limit=-1):
        out, i = [], 0
        n = len(sub)
        if n == 0:
            raise Unsupported("empty search text")
        while i + n <= len(self._c):
            if limit >= 0 and len(out) >= limit:
                break
            if self._at(i, sub):
                out.append(i)
                i += n
            else:
                i += 1
        return out

    def count(self, sub, *a):
        s = self[slice(*a)] if a else self
        return len(s._hits(sub)) if is_sym(s) else s.count(sub)

    def replace(self, old, new, count=-1):
        out, p = [], 0
        for h in self._hits(old, count):
            out += self._c[p:h] + tuple(items(new))
            p = h + len(old)
        return mk(tuple(out) + self._c[p:])

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            out, p = [], 0
            for h in self._hits(sep, maxsplit):
                out.append(mk(self._c[p:h]))
                p = h + len(sep)
            out.append(mk(self._c[p:]))
            return out
        out, cur = [], []
        n = len(self._c)
        i = 0
        while i < n:
            if test(self._c[i], WS):
                if cur:
                    out.append(mk(cur))
                    cur = []
                    if 0 <= maxsplit <= len(out):
                        i += 1
                        while i < n and test(self._c[i], WS):
                            i += 1
                        if i < n:
                            out.append(mk(self._c[i:]))
                        return out
            else:
                if 0 <= maxsplit <= len(out) and not cur:
                    rest = mk(self._c[i:])
                    out.append(rest)
                    return out
                cur.append(self._c[i])
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None or maxsplit != 1:
            raise Unsupported("rsplit")
        h = self.rfind(sep)
        return [self] if h < 0 else [mk(self._c[:h]), mk(self._c[h + len(sep):])]

    def splitlines(self, keepends=False):
        out, cur = [], []
        for x in self._c:
            if test(x, frozenset((10, 13, 11, 12, 28, 29, 30, 0x85))):
                out.append(mk(cur + ([x] if keepends else [])))
                cur = []
            else:
                cur.append(x)
        if cur:
            out.append(mk(cur))
        return out

    def partition(self, sep):
        h = self.find(sep)
        return (self, "", "") if h < 0 else (mk(self._c[:h]), sep, mk(self._c[h + len(sep):]))

    def rpartition(self, sep):
        h = self.rfind(sep)
        return ("", "", self) if h < 0 else (mk(self._c[:h]), sep, mk(self._c[h + len(sep):]))

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(q, start) for q in p)
        return self._at(start, p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        return self._at(len(self._c) - len(p), p)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if p and self.endswith(p) else self

    def _set(self, chars):
        if chars is None:
            return WS
        if is_sym(chars):
            raise Unsupported("strip of symbolic characters")
        return frozenset(map(ord, chars))

    def lstrip(self, chars=None):
        s = self._set(chars)
        i = 0
        while i < len(self._c) and test(self._c[i], s):
            i += 1
        return mk(self._c[i:])

    def rstrip(self, chars=None):
        s = self._set(chars)
        i = len(self._c)
        while i > 0 and test(self._c[i - 1], s):
            i -= 1
        return mk(self._c[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def _map(self, fn):
        out = []
        e = core.engine()
        for x in self._c:
            if type(x) is str:
                out.extend(fn(x))
                continue
            d = dom(x)
            im = {c: fn(chr(c)) for c in d}
            if all(im[c] == chr(c) for c in d):
                out.append(x)
                continue
            if any(len(v) != 1 for v in im.values()):
                raise Unsupported("case mapping")
            w = new_char(e, "case", frozenset(ord(v) for v in im.values()), input=False)
            e.add(f_or([f_and([("m", x, frozenset((c,)), True), ("m", w, frozenset((ord(v),)), True)]) for c, v in sorted(im.items())]))
            out.append(w)
        return mk(out)

    def upper(self):
        return self._map(str.upper)

    def lower(self):
        return self._map(str.lower)

    casefold = lower

    def swapcase(self):
        return self._map(str.swapcase)

    def _all(self, fn):
        return len(self._c) > 0 and all(test_fn(x, lambda c: fn(chr(c))) for x in self._c)

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isupper(self):
        return self._all(str.isupper)

    def islower(self):
        return self._all(str.islower)

    def isascii(self):
        return all(test_fn(x, lambda c: c < 128) for x in self._c)

    def join(self, parts):
        return join(self, parts)

    def encode(self, *a):
        raise Unsupported("encode")

    def translate(self, table):
        out = []
        for x in self._c:
            if type(x) is str:
                out.extend(x.translate(table))
                continue
            hit = False
            for c in sorted(dom(x)):
                r = chr(c).translate(table)
                if r != chr(c) and test(x, (c,)):
                    out.extend(r)
                    hit = True
                    break
            if not hit:
                out.append(x)
        return mk(out)

    # ---- numbers
    def __symfloat__(self):
        return parse_number(self, False)

    def __symint__(self, base=10):
        if base != 10:
            raise Unsupported("int base")
        return parse_number(self, True)


def str_token(s):
    e = core.engine()
    d = e.__dict__.setdefault("str_tokens", {})
    t = f"\ue000s{len(d)}\ue001"
    d[t] = s
    return t


def new_char(e, name, codes, input=True):
    v = e.new_var(name, kind="char", input=input)
    e.vars[v].dom = frozenset(codes)
    if input:
        e.inputs[name] = v
    return v


def join(sep, parts):
    parts = list(parts)
    if not any(is_sym(p) for p in parts) and not is_sym(sep):
        return sep.join(parts)
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(items(sep))
        if not isinstance(p, (str, SymStr)):
            raise TypeError("sequence item: expected str instance")
        out.extend(items(p))
    return mk(out)


def _digit_value(x):
    if type(x) is str:
        return ord(x) - 48
    return core.SymReal(Poly.var(x) - Poly.const(48), core.ONE, core.INT)


def parse_number(s, integer):
    from .shims import Float, Int

    s = s.strip()
    if not is_sym(s):
        return Int(s) if integer else Float(s)
    e = core.engine()
    run = ""
    for x in s._c:
        run = run + x if type(x) is str else run + "\0"
    for t in list(getattr(e, "num_text", {})) + list(e.token_text):
        if t in run:
            raise Unsupported("number text mixed with symbolic characters")
    c = s._c
    n = len(c)
    bad = ValueError("could not convert string to float")
    i = 0
    neg = False
    if i < n and test(c[i], (45,)):
        neg = True
        i += 1
    elif i < n and test(c[i], (43,)):
        i += 1
    val = 0
    digits = 0
    while i < n and test(c[i], DIGITS):
        val = val * 10 + _digit_value(c[i])
        digits += 1
        i += 1
        if digits and i < n and test(c[i], (95,)):
            i += 1
            if not (i < n and test(c[i], DIGITS)):
                raise bad
    if integer:
        if i < n or not digits:
            raise bad
        return -val if neg else val
    k = 0
    if i < n and test(c[i], (46,)):
        i += 1
        while i < n and test(c[i], DIGITS):
            val = val * 10 + _digit_value(c[i])
            k += 1
            i += 1
            if i < n and test(c[i], (95,)):
                i += 1
                if not (i < n and test(c[i], DIGITS)):
                    raise bad
    if digits + k == 0:
        rest = SymStr(c[i:]) if not all(type(x) is str for x in c[i:]) else "".join(c[i:])
        for w in ("inf", "nan", "infinity"):
            if len(rest) == len(w) and all(test(x, (ord(q), ord(q.upper()))) for x, q in zip(items(rest), w)):
                return float(("-" if neg else "") + w)
        raise bad
    ex = 0
    if i < n and test(c[i], (69, 101)):
        i += 1
        eneg = False
        if i < n and test(c[i], (45,)):
            eneg = True
            i += 1
        elif i < n and test(c[i], (43,)):
            i += 1
        if i >= n:
            raise bad
        ds = c[i:]
        for x in ds:
            if not test(x, DIGITS):
                raise bad
        t = mk(ds)
        ex = int(t if type(t) is str else t.concrete())
        ex = -ex if eneg else ex
        i = n
    if i < n:
        raise bad
    from fractions import Fraction

    val = val * Fraction(10) ** (ex - k)
    if neg:
        val = -val
    if isinstance(val, core.SymReal):
        return core.SymReal(val.num, val.den, core.FLT)
    return float(val)


# ------------------------------------------------------------------ regular expressions
def _cat(name):
    return {C.CATEGORY_DIGIT: lambda ch: ch.isdigit(), C.CATEGORY_NOT_DIGIT: lambda ch: not ch.isdigit(),
            C.CATEGORY_SPACE: lambda ch: ch.isspace(), C.CATEGORY_NOT_SPACE: lambda ch: not ch.isspace(),
            C.CATEGORY_WORD: lambda ch: ch.isalnum() or ch == "_",
            C.CATEGORY_NOT_WORD: lambda ch: not (ch.isalnum() or ch == "_")}[name]


def _charfn(op, av, flags):
    ic = flags & _re.IGNORECASE
    if op is C.ANY:
        return (lambda c: True) if flags & _re.DOTALL else (lambda c: c != 10)
    if op in (C.LITERAL, C.NOT_LITERAL):
        want = {av} | ({ord(chr(av).lower()), ord(chr(av).upper())} if ic else set())
        return (lambda c: c in want) if op is C.LITERAL else (lambda c: c not in want)
    neg = False
    parts = []
    for o, a in av:
        if o is C.NEGATE:
            neg = True
        elif o is C.LITERAL:
            parts.append(lambda c, a=a: c == a)
        elif o is C.RANGE:
            parts.append(lambda c, a=a: a[0] <= c <= a[1])
        elif o is C.CATEGORY:
            f = _cat(a)
            parts.append(lambda c, f=f: f(chr(c)))
        else:
            raise Unsupported("character class")

    def fn(c):
        cs = {c} | ({ord(x) for x in (chr(c).lower(), chr(c).upper()) if len(x) == 1} if ic else set())
        return any(p(x) for p in parts for x in cs) != neg

    return fn


class _M:
    def __init__(self, chars, flags):
        self.s, self.n, self.flags = chars, len(chars), flags

    def one(self, node, x):
        key = id(node)
        fn = _fns.get((key, self.flags))
        if fn is None:
            fn = _charfn(node[0], node[1], self.flags)
            _fns[(key, self.flags)] = fn
            _keep.append(node)
        if type(x) is str:
            return fn(ord(x))
        d = dom(x)
        return core.engine().branch(("m", x, frozenset(c for c in d if fn(c)), True))

    def word(self, i):
        return 0 <= i < self.n and test_fn(self.s[i], lambda c: chr(c).isalnum() or c == 95)

    def run(self, ops, i, pos, g, k):
        if i == len(ops):
            return k(pos, g)
        node = ops[i]
        op, av = node
        nxt = lambda p, gg: self.run(ops, i + 1, p, gg, k)  # noqa: E731
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < self.n and self.one(node, self.s[pos]):
                return self.run(ops, i + 1, pos + 1, g, k)
            return None
        if op is C.AT:
            ok = self.at(av, pos)
            return nxt(pos, g) if ok else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(alt, 0, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, dele, p = av
            if add or dele:
                raise Unsupported("inline flags")

            def after(q, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (pos, q)
                return nxt(q, gg)

            return self.run(p, 0, pos, g, after)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            if op is C.POSSESSIVE_REPEAT:
                r = self.rep(p, lo, hi, pos, g, True, 0, lambda q, gg: (q, gg))
                return None if r is None else nxt(*r)
            return self.rep(p, lo, hi, pos, g, op is C.MAX_REPEAT, 0, nxt)
        if op is C.ATOMIC_GROUP:
            r = self.run(av, 0, pos, g, lambda q, gg: (q, gg))
            return None if r is None else nxt(*r)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                w, w2 = p.getwidth()
                if w != w2:
                    raise Unsupported("look behind")
                r = None
                if pos - w >= 0:
                    r = self.run(p, 0, pos - w, g, lambda q, gg: (q, gg))
            else:
                r = self.run(p, 0, pos, g, lambda q, gg: (q, gg))
            if op is C.ASSERT:
                return None if r is None else nxt(pos, r[1])
            return nxt(pos, g) if r is None else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            q = pos
            for x in self.s[a:b]:
                if q >= self.n:
                    return None
                f = eq_formula(x, self.s[q])
                if not (f if isinstance(f, bool) else core.engine().branch(f)):
                    return None
                q += 1
            return nxt(q, g)
        raise Unsupported(f"regular expression {op}")

    def rep(self, p, lo, hi, pos, g, greedy, cnt, k):
        def more():
            if hi is not C.MAXREPEAT and cnt >= hi:
                return None

            def again(q, gg):
                if q == pos and cnt >= lo:
                    return None
                return self.rep(p, lo, hi, q, gg, greedy, cnt + 1, k)

            return self.run(p, 0, pos, g, again)

        if cnt < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else k(pos, g)
        r = k(pos, g)
        return r if r is not None else more()

    def at(self, av, pos):
        nl = (10,)
        if av in (C.AT_BEGINNING_STRING,) or (av is C.AT_BEGINNING and not self.flags & _re.MULTILINE):
            return pos == 0
        if av is C.AT_BEGINNING:
            return pos == 0 or test(self.s[pos - 1], nl)
        if av is C.AT_END_STRING:
            return pos == self.n
        if av is C.AT_END:
            if pos == self.n:
                return True
            if self.flags & _re.MULTILINE:
                return test(self.s[pos], nl)
            return pos == self.n - 1 and test(self.s[pos], nl)
        if av is C.AT_BOUNDARY:
            return self.word(pos - 1) != self.word(pos)
        if av is C.AT_NON_BOUNDARY:
            return self.word(pos - 1) == self.word(pos)
        raise Unsupported(f"anchor {av}")


_fns = {}
_keep = []


class Match:
    def __init__(self, pat, string, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = pat, string, start, end, groups
        self.pos, self.endpos = 0, len(string)
        self.lastindex = max(groups) if groups else None

    def _id(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def span(self, g=0):
        g = self._id(g)
        if g == 0:
            return self._s, self._e
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        a, b = self.span(g)
        return None if a < 0 else self.string[a:b]

    def group(self, *g):
        if not g:
            return self._one(0)
        if len(g) == 1:
            return self._one(g[0])
        return tuple(self._one(x) for x in g)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if self._one(i) is None else self._one(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: default if self._one(i) is None else self._one(i) for n, i in self.re.groupindex.items()}

    @property
    def lastgroup(self):
        return next((n for n, i in self.re.groupindex.items() if i == self.lastindex), None)


class Pattern:
    def __init__(self, pattern, flags=0):
        if is_sym(pattern):
            raise Unsupported("symbolic regular expression")
        self._real = _re.compile(pattern, flags) if isinstance(pattern, str) else pattern
        self.pattern, self.flags = self._real.pattern, self._real.flags
        self.groups, self.groupindex = self._real.groups, self._real.groupindex
        self._ops = None

    def ops(self):
        if self._ops is None:
            key = (self.pattern, self.flags)
            self._ops = _parsed.get(key)
            if self._ops is None:
                self._ops = _parsed[key] = P.parse(self.pattern, self.flags & ~_re.UNICODE & ~_re.DEBUG)
        return self._ops

    def _try(self, s, i, full=False):
        m = _M(s._c, self.flags)
        ops = self.ops()
        n = len(s)
        r = m.run(ops, 0, i, {}, (lambda q, g: (q, g) if q == n else None) if full else (lambda q, g: (q, g)))
        return None if r is None else Match(self, s, i, r[0], r[1])

    def search(self, s, pos=0, *a):
        if not is_sym(s):
            return self._real.search(s, pos, *a)
        for i in range(pos, len(s) + 1):
            r = self._try(s, i)
            if r is not None:
                return r
        return None

    def match(self, s, pos=0, *a):
        return self._try(s, pos) if is_sym(s) else self._real.match(s, pos, *a)

    def fullmatch(self, s, pos=0, *a):
        return self._try(s, pos, True) if is_sym(s) else self._real.fullmatch(s, pos, *a)

    def finditer(self, s, pos=0):
        if not is_sym(s):
            yield from self._real.finditer(s, pos)
            return
        i = pos
        empty_ok = True
        while i <= len(s):
            r = self._try(s, i)
            if r is None or (r._e == r._s and not empty_ok):
                i += 1
                empty_ok = True
                continue
            yield r
            if r._e > r._s:
                i = r._e
                empty_ok = False
            else:
                i += 1
                empty_ok = True

    def findall(self, s, pos=0):
        if not is_sym(s):
            return self._real.findall(s, pos)
        out = []
        for m in self.finditer(s, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups("")[0])
            else:
                out.append(m.groups(""))
        return out

    def split(self, s, maxsplit=0):
        if not is_sym(s):
            return self._real.split(s, maxsplit)
        out, p = [], 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit * (1 + self.groups):
                break
            out.append(s[p:m.start()])
            out.extend(m.groups())
            p = m.end()
        out.append(s[p:])
        return out

    def subn(self, repl, s, count=0):
        if not is_sym(s):
            return self._real.subn(repl, s, count)
        out, p, n = "", 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out = out + s[p:m.start()] + self._repl(repl, m)
            p = m.end()
            n += 1
        return out + s[p:], n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def _repl(self, repl, m):
        if callable(repl):
            return repl(m)
        if "\\" not in repl:
            return repl
        out, i = "", 0
        for t in _re.finditer(r"\\(?:g<(\w+)>|(\d)|(.))", repl):
            out = out + repl[i:t.start()]
            i = t.end()
            if t.group(3):
                out = out + {"n": "\n", "t": "\t", "\\": "\\"}.get(t.group(3), t.group(3))
            else:
                q = t.group(1) or t.group(2)
                out = out + (m.group(int(q) if q.isdigit() else q) or "")
        return out + repl[i:]


_parsed = {}


class ReShim(types.ModuleType):
    def __init__(self):
        super().__init__("re")
        self.Match, self.Pattern = _re.Match, _re.Pattern

    def __getattr__(self, n):
        return getattr(_re, n)

    @staticmethod
    def compile(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def sub(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).subn(r, s, count)


# ------------------------------------------------------------------ source operators that plain str does not delegate
def v_in(a, b):
    if is_sym(a) or (isinstance(b, str) and is_sym(a)):
        if isinstance(b, str):
            if len(a) == 1:
                return test_fn(a._c[0], lambda c: chr(c) in b)
            return SymStr(b).find(a) >= 0
        if isinstance(b, (dict, set, frozenset)) or type(b).__name__ in ("dict_keys",):
            for x in b:
                if (isinstance(x, str) or is_sym(x)) and a == x:
                    return True
            return False
    return a in b


def v_join(obj, *a, **k):
    if isinstance(obj, (str, SymStr)) and len(a) == 1 and not k:
        return join(obj, a[0])
    return obj.join(*a, **k)


def v_fstr(*parts):
    out = ""
    for p in parts:
        if isinstance(p, (str, SymStr)):
            out = out + p
        else:
            v, conv, spec = p
            if is_sym(v) and not conv and not spec:
                out = out + v
                continue
            v = {"": lambda x: x, "s": str, "r": repr, "a": ascii}[conv](v)
            out = out + format(v, spec if isinstance(spec, str) else "")
    return out


def v_mod(a, b):
    """a % b"""
    from .core import SymReal

    if not isinstance(a, str):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if not any(is_sym(x) or isinstance(x, SymReal) for x in args):
        return a % b
    out, pos, args = "", 0, list(args)
    for m in _re.finditer(r"%([-+ #0]*)([0-9]*)(?:\.([0-9]+))?([sdrfgeiFGE%])", a):
        out = out + a[pos:m.start()]
        pos = m.end()
        if m.group(4) == "%":
            out = out + "%"
            continue
        v = args.pop(0)
        if is_sym(v) and m.group(4) == "s" and m.group(0) == "%s":
            out = out + v
        elif isinstance(v, SymReal):
            if m.group(4) in "sr":
                t = str(v)
            elif m.group(4) in "di":
                t = str(v.__trunc__())
            else:
                t = format(v, (m.group(1).replace("-", "<") + m.group(2)) + ("." + (m.group(3) or "6")) + m.group(4))
            out = out + t
        else:
            out = out + m.group(0) % (v,)
    return out + a[pos:]


def v_format(obj, *a, **k):
    """obj.format(...)"""
    import string

    if not isinstance(obj, str) or not any(is_sym(x) for x in list(a) + list(k.values())):
        return obj.format(*a, **k)
    out, n = "", 0
    f = string.Formatter()
    for lit, field, spec, conv in f.parse(obj):
        out = out + lit
        if field is None:
            continue
        if field == "":
            field, n = str(n), n + 1
        v, _ = f.get_field(field, a, k)
        out = out + (v if is_sym(v) and not spec and not conv else f.format_field(f.convert_field(v, conv), spec))
    return out


def v_sub(d, k):
    """d[k] for dictionaries with symbolic keys"""
    if is_sym(k) and isinstance(d, dict):
        for x in d:
            if (isinstance(x, str) or is_sym(x)) and k == x:
                return d[x]
        raise KeyError(k)
    return d[k]


def transform(tree, strings=True):
    import ast

    class T(ast.NodeTransformer):
        def _call(self, node, name, args):
            return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []), node)

        def visit_Compare(self, node):
            self.generic_visit(node)
            if not strings:
                return node
            if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
                c = self._call(node, "__verif_in__", [node.left, node.comparators[0]])
                if isinstance(node.ops[0], ast.NotIn):
                    return ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
                return c
            return node

        def visit_BinOp(self, node):
            self.generic_visit(node)
            if isinstance(node.op, ast.Mod):
                return self._call(node, "__verif_mod__", [node.left, node.right])
            return node

        def visit_Call(self, node):
            self.generic_visit(node)
            if isinstance(node.func, ast.Attribute) and node.func.attr == "format" and strings:
                return ast.copy_location(ast.Call(ast.Name("__verif_format__", ast.Load()), [node.func.value] + node.args, node.keywords), node)
            if strings and isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1 and not node.keywords \
                    and not isinstance(node.args[0], ast.Starred):
                return self._call(node, "__verif_join__", [node.func.value] + node.args)
            return node

        def visit_JoinedStr(self, node):
            self.generic_visit(node)
            if not strings:
                return node
            parts = []
            for v in node.values:
                if isinstance(v, ast.FormattedValue):
                    spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                    conv = "" if v.conversion == -1 else chr(v.conversion)
                    parts.append(ast.Tuple([v.value, ast.Constant(conv), spec], ast.Load()))
                else:
                    parts.append(v)
            return self._call(node, "__verif_fstr__", parts)

        def visit_Subscript(self, node):
            self.generic_visit(node)
            if not strings:
                return node
            if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple, ast.Constant)):
                return self._call(node, "__verif_sub__", [node.value, node.slice])
            return node

    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


HELPERS = {"__verif_in__": v_in, "__verif_join__": v_join, "__verif_fstr__": v_fstr, "__verif_sub__": v_sub, "__verif_mod__": v_mod,
           "__verif_format__": v_format}
