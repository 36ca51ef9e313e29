"""Symbolic execution core: symbolic reals / booleans by operator overloading, path forking by
re-execution, and an SMT back end (z3 nlsat -> z3 smt -> cvc5) that decides every branch and assertion.

All symbolic numbers are mathematical reals kept in a polynomial-fraction normal form (poly.py);
concrete Python floats are converted to the exact rational they denote.
"""
import math
import os
import re
import threading
import time
from fractions import Fraction

import numpy as _np
import z3

from .poly import ONE_M, Poly, cancel, norm_coef, rat_sqrt, square_part


class Unsupported(BaseException):
    """The code under test left the fragment the encoding covers; the path is cut and reported."""


class PathAbort(BaseException):
    """Infeasible path / failed assumption."""


class BudgetExceeded(BaseException):
    pass


class Stats:
    FIELDS = (
        "queries sat unsat unknown fast solver_s obligations obligations_trivial discharged refuted "
        "inconclusive cvc5 branches forks nlsat_s"
    ).split()

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: (round(getattr(self, f), 3) if isinstance(getattr(self, f), float) else getattr(self, f))
                for f in self.FIELDS}


ENGINE = None  # the engine of the path being executed


def engine():
    if ENGINE is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


# --------------------------------------------------------------------------- formulas
# bool | ('a', Poly, op) with op in '>', '>=', '=', '!=' (compared with 0)
#      | ('m', var, frozenset) membership of a character variable
#      | ('&', (f..)) | ('|', (f..))

_NEG = {">": ">=", ">=": ">", "=": "!=", "!=": "="}


def f_not(f):
    if f is True or f is False:
        return not f
    k = f[0]
    if k == "a":
        _, p, op = f
        if op in ("=", "!="):
            return ("a", p, _NEG[op])
        return mk_atom(-p, _NEG[op])
    if k == "m":
        return ("m", f[1], f[2], not f[3])
    if k == "&":
        return f_or([f_not(g) for g in f[1]])
    return f_and([f_not(g) for g in f[1]])


def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "&":
            out.extend(f[1])
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return True
    return out[0] if len(out) == 1 else ("&", tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "|":
            out.extend(f[1])
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return False
    return out[0] if len(out) == 1 else ("|", tuple(out))


def mk_atom(p, op):
    if p.is_const():
        c = p.const_value()
        return {">": c > 0, ">=": c >= 0, "=": c == 0, "!=": c != 0}[op]
    k, s, prim = p.primitive()
    if op in ("=", "!="):
        return ("a", prim, op)
    return ("a", prim if s > 0 else -prim, op)


def f_vars(f):
    if f is True or f is False:
        return frozenset()
    if f[0] == "a":
        return f[1].vars()
    if f[0] == "m":
        return frozenset((f[1],))
    s = frozenset()
    for g in f[1]:
        s |= f_vars(g)
    return s


class SymBool:
    __slots__ = ("f",)
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return engine().branch(self.f)

    def __and__(self, o):
        return mkbool(f_and([self.f, tof(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or([self.f, tof(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            a, b = self.f, tof(o)
            return mkbool(f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])]))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return "<symbolic bool>"


def tof(x):
    if isinstance(x, SymBool):
        return x.f
    return bool(x)


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


# --------------------------------------------------------------------------- symbolic reals
INT, FLT, NPF = 0, 1, 2
ONE = Poly.const(1)


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.floating, _np.integer, _np.bool_)) and not isinstance(x, SymReal)


def _kind(x):
    if isinstance(x, SymReal):
        return x.kind
    if isinstance(x, _np.floating):
        return NPF
    if isinstance(x, (int, _np.integer, bool)):
        return INT
    return FLT


def lift(x):
    """number -> SymReal, or None when x is not a finite number"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return SymReal(Poly.const(int(x)), ONE, INT)
    if isinstance(x, (int, _np.integer)):
        return SymReal(Poly.const(int(x)), ONE, INT)
    if isinstance(x, Fraction):
        return SymReal(Poly.const(x), ONE, FLT)
    if isinstance(x, (float, _np.floating)):
        v = float(x)
        if math.isnan(v) or math.isinf(v):
            return None
        return SymReal(Poly.const(Fraction(v)), ONE, NPF if isinstance(x, _np.floating) else FLT)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def mk(num, den, kind):
    if num.is_zero():
        return _const(0, kind)
    if den.is_const():
        d = den.const_value()
        if d != 1:
            num = num.scale(Fraction(1) / d)
        if num.is_const():
            return _const(num.const_value(), kind)
        return SymReal(num, ONE, kind)
    num, den = cancel(num, den)
    if den.is_const():
        return mk(num, den, kind)
    k, s, prim = den.primitive()
    num = num.scale(Fraction(s) / k)
    return SymReal(num, prim, kind)


def _const(c, kind):
    """constants stay symbolic objects holding an exact rational (no rounding back to float)"""
    return SymReal(Poly.const(c), ONE, kind)


class SymReal:
    __slots__ = ("num", "den", "kind")
    __array_priority__ = 1000

    def __init__(self, num, den, kind=FLT):
        self.num = num
        self.den = den
        self.kind = kind

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, (list, _np.ndarray)):
            return _arr(o, lambda v: self + v)
        b = lift(o)
        if b is None:
            return _special(self, o, "+")
        k = max(self.kind, b.kind)
        if self.den == b.den:
            return mk(self.num + b.num, self.den, k)
        r = engine().roots
        return mk(self.num.mul(b.den, r) + b.num.mul(self.den, r), self.den.mul(b.den, r), k)

    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.num, self.den, self.kind)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (list, _np.ndarray)):
            return _arr(o, lambda v: self - v)
        b = lift(o)
        if b is None:
            return _special(self, o, "-")
        return self + (-b)

    def __rsub__(self, o):
        if isinstance(o, (list, _np.ndarray)):
            return _arr(o, lambda v: v - self)
        b = lift(o)
        if b is None:
            return _special(self, o, "r-")
        return b + (-self)

    def __mul__(self, o):
        if isinstance(o, (list, _np.ndarray)):
            if isinstance(o, list) and self.kind != NPF:
                raise TypeError("can't multiply sequence by non-int of type 'float'")
            return _arr(o, lambda v: self * v)
        b = lift(o)
        if b is None:
            return _special(self, o, "*")
        k = max(self.kind, b.kind)
        r = engine().roots
        return mk(self.num.mul(b.num, r), self.den.mul(b.den, r), k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (list, _np.ndarray)):
            return _arr(o, lambda v: self / v)
        b = lift(o)
        if b is None:
            return _special(self, o, "/")
        k = max(self.kind, b.kind, FLT)
        e = engine()
        if b.num.is_const():
            zero = b.num.is_zero()
        else:
            zero = e.branch(mk_atom(b.num, "="))
        if zero:
            if k != NPF:
                raise ZeroDivisionError("float division by zero")
            s = e.sign(self)
            return float("nan") if s == 0 else (float("inf") if s > 0 else float("-inf"))
        r = e.roots
        q = mk(self.num.mul(b.den, r), self.den.mul(b.num, r), k)
        return q if e.div_hook is None else e.div_hook(q)

    def __rtruediv__(self, o):
        if isinstance(o, (list, _np.ndarray)):
            if isinstance(o, list) and self.kind != NPF:
                raise TypeError("unsupported operand type(s) for /: 'list' and 'float'")
            return _arr(o, lambda v: (lift(v) if lift(v) is not None else v) / self)
        b = lift(o)
        if b is None:
            return _special(self, o, "r/")
        return b / self

    def __pow__(self, n):
        if isinstance(n, SymReal) and n.num.is_const() and n.den.is_const():
            n = n.num.const_value()
        if isinstance(n, (float, _np.floating)) and float(n).is_integer():
            n = int(n)
        if isinstance(n, (int, _np.integer)) and not isinstance(n, bool):
            n = int(n)
            if n < 0:
                return 1 / (self ** (-n))
            r = _const(1, self.kind)
            for _ in range(n):
                r = r * self
            return r
        if n == 0.5 or n == Fraction(1, 2):
            return self.sqrt()
        if isinstance(n, (float, Fraction, _np.floating)) and Fraction(n).denominator == 2:
            return self.sqrt() ** int(2 * Fraction(n))
        raise Unsupported(f"power {n}")

    def __rpow__(self, n):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        if engine().branch_cmp(self, ">="):
            return self
        return -self

    def conjugate(self):
        return self

    def sqrt(self):
        return _sqrt(self, NPF, nan=True)

    def hypot(self, o):
        return _sqrt(self * self + o * o, NPF, nan=True)

    def fabs(self):
        return abs(self)

    def absolute(self):
        return abs(self)

    def square(self):
        return self * self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    # -- comparison
    def _cmp(self, o, op):
        b = lift(o)
        if b is None:
            if isinstance(o, (float, _np.floating)):
                v = float(o)
                if math.isnan(v):
                    return op == "!="
                return {"<": v > 0, "<=": v > 0, ">": v < 0, ">=": v < 0, "==": False, "!=": True}[op]
            return NotImplemented
        if op in ("<", "<="):
            d = b - self
        else:
            d = self - b
        zop = {"<": ">", "<=": ">=", ">": ">", ">=": ">=", "==": "=", "!=": "!="}[op]
        return mkbool(engine().sign_formula(d, zop))

    def __lt__(self, o):
        return _arr(o, lambda v: self < v) if isinstance(o, _np.ndarray) else self._cmp(o, "<")

    def __le__(self, o):
        return _arr(o, lambda v: self <= v) if isinstance(o, _np.ndarray) else self._cmp(o, "<=")

    def __gt__(self, o):
        return _arr(o, lambda v: self > v) if isinstance(o, _np.ndarray) else self._cmp(o, ">")

    def __ge__(self, o):
        return _arr(o, lambda v: self >= v) if isinstance(o, _np.ndarray) else self._cmp(o, ">=")

    def __eq__(self, o):
        return _arr(o, lambda v: self == v) if isinstance(o, _np.ndarray) else self._cmp(o, "==")

    def __ne__(self, o):
        return _arr(o, lambda v: self != v) if isinstance(o, _np.ndarray) else self._cmp(o, "!=")

    def __hash__(self):
        return hash((self.num, self.den))

    def __bool__(self):
        return engine().branch(engine().sign_formula(self, "!="))

    def const(self):
        if self.num.is_const() and self.den.is_const():
            return Fraction(self.num.const_value()) / Fraction(self.den.const_value())
        return None

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("symbolic value forced to a machine float")

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        raise Unsupported("symbolic value forced to int")

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1 and self.kind == INT:
            return int(c)
        if self.kind == INT:  # counts and indices are forked over, up to 40
            return engine().fork_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def is_integer(self):
        c = self.const()
        if c is not None:
            return c.denominator == 1
        return self == engine().quant(self, "floor")

    def __floordiv__(self, o):
        q = self / o
        if not isinstance(q, SymReal):
            return NotImplemented
        return engine().quant(q, "floor", kind=max(self.kind, _kind(o)) or 0)

    def __rfloordiv__(self, o):
        if lift(o) is None:
            return NotImplemented
        return lift(o).__floordiv__(self)

    def __mod__(self, o):
        n = self.__floordiv__(o)
        return n if n is NotImplemented else self - n * o

    def __rmod__(self, o):
        if isinstance(o, str) or lift(o) is None:
            return NotImplemented
        return lift(o).__mod__(self)

    def __divmod__(self, o):
        n = self.__floordiv__(o)
        return n, self - n * o

    def __rdivmod__(self, o):
        return lift(o).__divmod__(self)

    def __round__(self, nd=None):
        c = self.const()
        if c is not None:
            r = round(c, nd) if nd is not None else round(c)
            return r if nd is None else SymReal(Poly.const(r), ONE, self.kind)
        if nd is None:
            return engine().quant(self, "round", kind=INT)
        return engine().rounded(self, nd)

    def __ceil__(self):
        c = self.const()
        if c is not None:
            return math.ceil(c)
        return engine().quant(self, "ceil", kind=INT)

    def __floor__(self):
        c = self.const()
        if c is not None:
            return math.floor(c)
        return engine().quant(self, "floor", kind=INT)

    def __trunc__(self):
        c = self.const()
        if c is not None:
            return int(c)
        return engine().quant(self, "floor" if self >= 0 else "ceil", kind=INT)

    rint = lambda self: engine().quant(self, "round", kind=NPF)  # noqa: E731  (numpy ufuncs on object arrays)
    floor = lambda self: engine().quant(self, "floor", kind=NPF)  # noqa: E731
    ceil = lambda self: engine().quant(self, "ceil", kind=NPF)  # noqa: E731

    # -- text / misc
    def __format__(self, spec):
        return engine().num_token(self, spec)

    def __str__(self):
        return engine().num_token(self, "")

    def __repr__(self):
        return engine().num_token(self, "") if ENGINE is not None else "<symbolic real>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def tolist(self):
        return SymReal(self.num, self.den, max(FLT, self.kind) if self.kind else INT)

    def item(self):
        return self.tolist()

    def astype(self, t):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def dtype(self):
        return _np.dtype(float)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()


def _arr(o, fn):
    a = o if isinstance(o, _np.ndarray) else _obj(o)
    out = _np.empty(a.shape, dtype=object)
    for idx in _np.ndindex(a.shape):
        out[idx] = fn(a[idx])
    return out


def _obj(o):
    return _np.array(o, dtype=object)


def _special(a, o, op):
    """arithmetic with a concrete nan / inf"""
    if not isinstance(o, (float, _np.floating)):
        return NotImplemented
    v = float(o)
    if math.isnan(v):
        return v
    if op == "+":
        return v
    if op == "-":
        return -v
    if op == "r-":
        return v
    if op == "/":
        return _const(0, max(a.kind, FLT))
    s = engine().sign(a)
    if op == "*":
        return v * s if s else float("nan")
    if op == "r/":
        if s == 0:
            raise ZeroDivisionError("float division by zero")
        return v * s
    return NotImplemented


def _sqrt(x, kind, nan):
    """sqrt with square-part extraction; negative argument -> nan (numpy) or ValueError (math)"""
    e = engine()
    x = lift(x)
    if x.num.is_zero():
        return _const(0, kind)
    prod = x.num.mul(x.den, e.roots)
    s = e.sign_poly(prod, want_nonneg=True)
    if s < 0:
        if nan:
            return float("nan")
        raise ValueError("math domain error")
    if s == 0:
        return _const(0, kind)
    if e.float_roots and x.const() is not None:
        return _const(Fraction(math.sqrt(x.const())), kind)
    c, qs, r = square_part(prod)
    num = ONE
    for q, k in qs:
        if k % 2:
            sg = e.sign_poly(q)
            if sg == 0:
                return _const(0, kind)
            if sg < 0:
                q = -q
        for _ in range(k):
            num = num.mul(q, e.roots)
    if c < 0:
        c, r = -c, -r
    outer, inner = rat_sqrt(c)
    if r.is_const() and r.const_value() < 0:
        raise Unsupported("sqrt normal form")
    if inner != 1 or not r.is_const():
        r2 = r.scale(inner)
        if r2.is_const():
            o2, i2 = rat_sqrt(r2.const_value())
            outer *= o2
            if i2 != 1:
                num = num.mul(Poly.var(e.root(Poly.const(i2))), e.roots)
        else:
            num = num.mul(Poly.var(e.root(r2)), e.roots)
    num = num.scale(outer)
    den = x.den
    if not den.is_const():
        if e.sign_poly(den) < 0:
            den = -den
    elif den.const_value() < 0:
        den = -den
    return mk(num, den, kind)


# --------------------------------------------------------------------------- engine
class VarInfo:
    __slots__ = ("id", "name", "lo", "hi", "lo_strict", "hi_strict", "kind", "input", "z", "dom")

    def __init__(self, id, name, lo=None, hi=None, lo_strict=False, hi_strict=False, kind="real", input=False):
        self.id, self.name, self.lo, self.hi = id, name, lo, hi
        self.lo_strict, self.hi_strict, self.kind, self.input = lo_strict, hi_strict, kind, input
        self.z = z3.Real(f"{name}!{id}")
        self.dom = None


_z3_cache = {}


class Limits:
    branch_ms = 400
    check_ms = 3000
    deadline = None
    seed = 1
    use_cvc5 = True


class Engine:
    """one path"""

    def __init__(self, prefix, stats, limits):
        self.prefix = prefix
        self.pos = 0
        self.trace = []  # decisions taken
        self.pending = []  # alternative prefixes
        self.stats = stats
        self.lim = limits
        self.vars = []
        self.roots = {}
        self.rootmap = {}
        self.cons = []  # formulas on the path
        self.lits = {}  # atom key -> True/False
        self.model = None  # dict var id -> z3 value satisfying all constraints (or None)
        self.tokens = {}
        self.token_text = {}
        self.maybe_infeasible = False
        self.inputs = {}
        self.norm_hook = None  # rounding of vector norms / quotients (see rounding_hook)
        self.float_roots = False  # roots of constants are taken in doubles, as the program does
        self.div_hook = None
        self.z3c = {}
        self.notes = []
        self.uf_inverse = {}
        self.quants = []  # (result, argument, mode, unit) of roundings

    # -- variables ------------------------------------------------------------
    def new_var(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, kind="real", input=False):
        v = VarInfo(len(self.vars), name, lo, hi, lo_strict, hi_strict, kind, input)
        self.vars.append(v)
        return v.id

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, kind=FLT, input=True):
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        v = self.new_var(name, lo, hi, lo_strict, hi_strict, input=input)
        x = SymReal(Poly.var(v), ONE, kind)
        if input:
            self.inputs[name] = v
        return x

    def root(self, rad):
        k = rad.key()
        if k in self.rootmap:
            return self.rootmap[k]
        strict = self.poly_sign_fast(rad) == 1
        v = self.new_var("r", Fraction(0), None, lo_strict=strict, kind="root")
        self.roots[v] = rad
        self.rootmap[k] = v
        if ("a", rad, ">") in self.lits:
            self.vars[v].lo_strict = True
        return v

    def rounded(self, x, nd):
        return self.quant(x, "round", Fraction(1, 10 ** nd) if nd >= 0 else Fraction(10 ** -nd), x.kind)

    def quant(self, x, mode, unit=Fraction(1), kind=None):
        """multiple of unit next to x. Integrality is left out (sound for the verdict "holds"); models are repaired to
        obey it, see get_model"""
        kind = x.kind if kind is None else kind
        c = x.const()
        if c is not None:
            return _const(quantize(c, mode, unit), kind)
        key = ("quant", x.num.key(), x.den.key(), mode, unit)
        r = self.tokens.get(key)
        if r is None:
            r = self.real("rnd", input=False, kind=x.kind)
            self.tokens[key] = r
            self.quants.append((r, x, mode, unit))
            if mode == "round":
                self.add(tof(r - x <= unit / 2))
                self.add(tof(x - r <= unit / 2))
            elif mode == "floor":
                self.add(tof(r <= x))
                self.add(tof(x < r + unit))
            else:
                self.add(tof(r >= x))
                self.add(tof(x > r - unit))
        return SymReal(r.num, r.den, kind)

    def fork_int(self, n, limit=40):
        """the value of an integer, by forking"""
        for r, x, mode, unit in self.quants:  # integrality of rounded values is not among the constraints
            if unit == 1 and set(r.num.vars()) <= set(n.num.vars()):
                lower = bool(x < 0)
                for k in range(limit + 1):
                    v = -k if lower else k
                    # interval of x that gives v
                    hit = {"floor": lambda: x < v + 1 if not lower else x >= v, "ceil": lambda: x <= v if not lower else x > v - 1,
                           "round": lambda: x < v + Fraction(1, 2) if not lower else x > v - Fraction(1, 2)}[mode]()
                    if bool(hit):
                        self.add(tof(r == v))
                        break
                else:
                    raise Unsupported(f"integer beyond {limit}")
        neg = bool(n < 0)
        for k in range(neg, limit + 1):
            k = -k if neg else k
            if n == k:
                return k
        raise Unsupported(f"integer beyond {limit}")

    def num_token(self, x, spec):
        key = (x.num.key(), x.den.key(), spec)
        t = self.tokens.get(key)
        if t is None:
            t = f"\ue000{len(self.token_text)}\ue001"
            self.tokens[key] = t
            self.token_text[t] = (x, spec)
        return t

    def token_value(self, t):
        """number behind a text made by str() or format()"""
        x, spec = self.token_text[t]
        m = re.fullmatch(r"[-+ ]?[0-9]*\.([0-9]+)f", spec or "")
        if m:
            return self.rounded(x, int(m.group(1)))
        if spec:
            raise Unsupported(f"number read back from format {spec!r}")
        return x

    # -- sign reasoning ---------------------------------------------------------
    def var_sign(self, v):
        i = self.vars[v]
        if i.lo is not None:
            if i.lo > 0 or (i.lo == 0 and i.lo_strict):
                return 1
            if i.lo == 0:
                return 2  # >= 0
        if i.hi is not None:
            if i.hi < 0 or (i.hi == 0 and i.hi_strict):
                return -1
            if i.hi == 0:
                return -2
        return None

    def poly_sign_fast(self, p):
        """1 / -1 / 2 (>=0) / -2 (<=0) / 0 / None"""
        if not p.t:
            return 0
        tot = None
        strict = False
        for m, c in p.t.items():
            s = 1 if c > 0 else -1
            st = True
            for v, e in m:
                if e % 2 == 0:
                    vs = self.var_sign(v)
                    if vs not in (1, -1):
                        st = False
                    continue
                vs = self.var_sign(v)
                if vs is None:
                    return None
                if vs in (2, -2):
                    st = False
                if vs < 0:
                    s = -s
            if tot is None:
                tot = s
            elif tot != s:
                return None
            strict = strict or st
        return tot if strict else 2 * tot

    def lit_sign(self, p):
        """sign information of p from the path literals / variable bounds: subset of {-1,0,1} as tuple or None"""
        s = self.poly_sign_fast(p)
        if s is not None:
            return s
        if p.is_const():
            c = p.const_value()
            return (c > 0) - (c < 0)
        k, sg, prim = p.primitive()
        key = prim.key()
        info = self.lits.get(key)
        if info is None:
            return None
        # info: set of allowed signs of prim
        if sg < 0:
            info = frozenset(-x for x in info)
        if info == {1}:
            return 1
        if info == {-1}:
            return -1
        if info == {0}:
            return 0
        if info == {0, 1}:
            return 2
        if info == {0, -1}:
            return -2
        return None

    def simplify_atom(self, p, op):
        """drop factors of known sign; returns formula"""
        if p.is_const():
            return mk_atom(p, op)
        s = self.lit_sign(p)
        f = self._by_sign(s, op)
        if f is not None:
            return f
        if len(p) > 60:
            return mk_atom(p, op)
        mono = p.content_monomial()
        sgn = 1
        changed = False
        if mono:
            drop = []
            for v, e in mono:
                vs = self.var_sign(v)
                if vs == 1 or (vs == -1):
                    drop.append((v, e))
                    if vs == -1 and e % 2:
                        sgn = -sgn
            if drop:
                p = p.div_monomial(tuple(drop))
                changed = True
        if len(p) > 1 and len(p.vars()) <= 8 and len(p) <= 40:
            facs = _factors(p)
            if facs is not None and (len(facs[1]) > 1 or (facs[1] and facs[1][0][1] > 1)):
                c, fl = facs
                if c < 0:
                    sgn = -sgn
                keep = []
                zeroable = []
                for q, e in fl:
                    qs = self.lit_sign(q)
                    if qs == 1 or (qs == -1 and e % 2 == 0):
                        continue
                    if qs == -1:
                        sgn = -sgn
                        continue
                    if qs == 0:
                        return {">": False, ">=": True, "=": True, "!=": False}[op]
                    keep.append((q, e, qs))
                if op in ("=", "!="):
                    fs = [mk_atom(q, "=") for q, e, qs in keep]
                    r = f_or(fs)
                    return r if op == "=" else f_not(r)
                # factors with weak sign or even power contribute only zero-ness
                core = ONE
                for q, e, qs in keep:
                    if e % 2 == 0:
                        zeroable.append(q)
                    elif qs == 2:
                        zeroable.append(q)
                    elif qs == -2:
                        zeroable.append(q)
                        sgn = -sgn
                    else:
                        core = core.mul(q, {})
                core = core.scale(sgn)
                if op == ">":
                    return f_and([mk_atom(core, ">")] + [mk_atom(q, "!=") for q in zeroable])
                return f_or([mk_atom(core, ">=")] + [mk_atom(q, "=") for q in zeroable])
        if changed:
            p = p.scale(sgn)
            f = self._by_sign(self.lit_sign(p), op)
            if f is not None:
                return f
        return mk_atom(p, op)

    @staticmethod
    def _by_sign(s, op):
        if s is None:
            return None
        if s == 0:
            return op in (">=", "=")
        if s == 1:
            return op in (">", ">=", "!=")
        if s == -1:
            return op == "!="
        if s == 2 and op == ">=":
            return True
        if s == -2 and op == ">":
            return False
        return None

    def sign_formula(self, x, op):
        """formula for  x op 0  (x SymReal)"""
        num = x.num
        if not x.den.is_const():
            if op not in ("=", "!="):
                s = self.sign_poly(x.den, nonzero=True)
                if s < 0:
                    num = -num
        elif x.den.const_value() < 0:
            num = -num
        return self.simplify_atom(num, op)

    def branch_cmp(self, x, op):
        return self.branch(self.sign_formula(x, op))

    def sign_poly(self, p, want_nonneg=False, nonzero=False):
        s = self.lit_sign(p)
        if s in (1, -1, 0):
            return s
        if self.branch(self.simplify_atom(p, ">")):
            return 1
        if nonzero:
            return -1
        if self.branch(self.simplify_atom(p, "=")):
            return 0
        return -1

    def sign(self, x):
        x = lift(x)
        s = self.sign_poly(x.num)
        if s == 0:
            return 0
        if not x.den.is_const():
            if self.sign_poly(x.den, nonzero=True) < 0:
                s = -s
        return s

    # -- path constraints ---------------------------------------------------------
    def _learn(self, f):
        if f[0] == "a":
            _, p, op = f
            k, s, prim = p.primitive()
            allowed = {">": {1}, ">=": {0, 1}, "=": {0}, "!=": {-1, 1}}[op]
            if s < 0:
                allowed = {-x for x in allowed}
            key = prim.key()
            old = self.lits.get(key)
            new = frozenset(allowed) if old is None else old & frozenset(allowed)
            self.lits[key] = new
            # tighten bounds of single variables
            if len(p) <= 2 and len(p.vars()) == 1 and op != "!=":
                (v,) = p.vars()
                a = p.t.get(((v, 1),))
                if a is not None and all(m in (ONE_M, ((v, 1),)) for m in p.t):
                    b = p.const_value()
                    bound = Fraction(-b) / a
                    i = self.vars[v]
                    st = op == ">"
                    if op == "=" or a > 0:
                        if i.lo is None or bound > i.lo or (bound == i.lo and st):
                            i.lo, i.lo_strict = bound, st
                    if op == "=" or a < 0:
                        if i.hi is None or bound < i.hi or (bound == i.hi and st):
                            i.hi, i.hi_strict = bound, st
        elif f[0] == "&":
            for g in f[1]:
                self._learn(g)
        elif f[0] == "m":
            i = self.vars[f[1]]
            d = i.dom
            i.dom = (d & f[2]) if f[3] else (d - f[2])

    def add(self, f, check=False):
        f = self.normalize(f)
        if f is True:
            return
        if f is False:
            raise PathAbort("contradiction")
        self._learn(f)
        self.cons.append(f)
        if self.model is not None and not self.model_sat(f):
            self.model = None

    def normalize(self, f):
        if f is True or f is False:
            return f
        if f[0] == "a":
            return self.simplify_atom(f[1], f[2])
        if f[0] == "m":
            d = self.vars[f[1]].dom
            inside = d & f[2] if f[3] else d - f[2]
            if not inside:
                return False
            if inside == d:
                return True
            return f
        gs = [self.normalize(g) for g in f[1]]
        return f_and(gs) if f[0] == "&" else f_or(gs)

    def assume(self, cond):
        """restrict the path; abort if impossible"""
        f = self.normalize(tof(cond))
        if f is True:
            return
        if f is False:
            raise PathAbort("assumption false")
        if self.pos < len(self.prefix) or getattr(self, "skip_assume_check", False):
            self.add(f)
            return
        r, _ = self.solve([f], self.lim.branch_ms)
        if r == "unsat":
            raise PathAbort("assumption infeasible")
        if r == "unknown":
            self.maybe_infeasible = True
        self.add(f)

    def decide(self, n):
        """structural choice among n alternatives (no solver involved)"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d
        self.pos += 1
        for alt in range(n - 1, 0, -1):
            self.pending.append(self.trace + [alt])
        self.trace.append(0)
        return 0

    def branch(self, f):
        f = self.normalize(f)
        if f is True or f is False:
            return f
        self.stats.branches += 1
        if self.lim.deadline is not None and time.time() > self.lim.deadline:
            raise BudgetExceeded()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d in (2, 3):  # forced by the solver earlier (other side unsat): replay as implied
                val = d == 2
            else:
                val = bool(d)
            self.trace.append(d)
            self.add(f if val else f_not(f))
            return val
        g = f_not(f)
        mt = None
        model_t = None
        if self.model is not None:
            mt = self.model_sat(f)
        if mt is True:
            rt = "sat"
            rf, mf = self.solve([g], self.lim.branch_ms)
        elif mt is False:
            rf, mf = "sat", self.model
            rt, _m = self.solve([f], self.lim.branch_ms)
            if rt == "sat" and _m is not None:
                model_t = _m
        else:
            rt, _m = self.solve([f], self.lim.branch_ms)
            if rt == "sat" and _m is not None:
                self.model = _m
            if rt == "unsat":
                rf = "sat?"
            else:
                rf, mf = self.solve([g], self.lim.branch_ms)
        self.pos += 1
        if rt == "unsat" and rf == "unsat":
            raise PathAbort("infeasible")
        if rt == "unsat":
            self.trace.append(3)
            self.add(g)
            return False
        if rf == "unsat":
            self.trace.append(2)
            self.add(f)
            return True
        self.stats.forks += 1
        if rt == "unknown" or rf == "unknown":
            self.maybe_infeasible = True
        self.pending.append(self.trace + [0])
        self.trace.append(1)
        if mt is False:
            self.model = model_t
        self.add(f)
        return True

    # -- z3 ------------------------------------------------------------------
    def zpoly(self, p):
        k = p.key()
        r = self.z3c.get(k)
        if r is None:
            terms = []
            for m, c in p.t.items():
                fs = []
                for v, e in m:
                    z = self.vars[v].z
                    fs.extend([z] * e)
                if not fs:
                    terms.append(_zval(c))
                else:
                    t = fs[0] if len(fs) == 1 else z3.Product(*fs)
                    terms.append(t if c == 1 else _zval(c) * t)
            r = terms[0] if len(terms) == 1 else z3.Sum(*terms)
            self.z3c[k] = r
        return r

    def zf(self, f):
        if f is True:
            return z3.BoolVal(True)
        if f is False:
            return z3.BoolVal(False)
        k = f[0]
        if k == "a":
            z = self.zpoly(f[1])
            return {">": z > 0, ">=": z >= 0, "=": z == 0, "!=": z != 0}[f[2]]
        if k == "m":
            v = self.vars[f[1]].z
            o = z3.Or(*[v == c for c in sorted(f[2])]) if f[2] else z3.BoolVal(False)
            return o if f[3] else z3.Not(o)
        gs = [self.zf(g) for g in f[1]]
        return z3.And(*gs) if k == "&" else z3.Or(*gs)

    def var_cons(self, v):
        i = self.vars[v]
        out = []
        if i.lo is not None:
            out.append(i.z > _zval(i.lo) if i.lo_strict else i.z >= _zval(i.lo))
        if i.hi is not None:
            out.append(i.z < _zval(i.hi) if i.hi_strict else i.z <= _zval(i.hi))
        if v in self.roots:
            out.append(i.z * i.z == self.zpoly(self.roots[v]))
        if i.kind == "char":
            out.append(z3.Or(*[i.z == c for c in sorted(i.dom)]))
        return out

    def closure(self, vs):
        vs = set(vs)
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v in self.roots:
                for w in self.roots[v].vars():
                    if w not in vs:
                        vs.add(w)
                        todo.append(w)
        return vs

    def slice(self, fs):
        """(vars, constraints) of the connected component(s) of fs"""
        vs = set()
        for f in fs:
            vs |= f_vars(f)
        vs = self.closure(vs)
        left = [(c, f_vars(c)) for c in self.cons]
        used = []
        # roots connect their radicand's variables; a root nobody mentions is irrelevant
        while True:
            hit = [x for x in left if x[1] & vs]
            if not hit:
                break
            left = [x for x in left if not (x[1] & vs)]
            for c, w in hit:
                used.append(c)
                vs |= w
            vs = self.closure(vs)
        return vs, used

    def small_slice(self, fs):
        vs = set()
        for f in fs:
            vs |= f_vars(f)
        vs = self.closure(vs)
        return vs, [c for c in self.cons if f_vars(c) <= vs]

    def solve(self, fs, ms, want_model=True, full=False):
        """status and model of  path & fs  (over the connected slice)"""
        st = self.stats
        fs = [self.normalize(f) for f in fs]
        if any(f is False for f in fs):
            st.fast += 1
            return "unsat", None
        fs = [f for f in fs if f is not True]
        if not fs and not full:
            st.fast += 1
            return "sat", None
        if full:
            vs = set(range(len(self.vars)))
            used = list(self.cons)
        else:
            vs, used = self.slice(fs)
        goal = [self.zf(f) for f in fs]
        t0 = time.time()
        try:
            sv, sc = self.small_slice(fs)
            if not full and len(sc) < len(used):
                asserts = goal + [self.zf(c) for c in sc]
                for v in sorted(sv):
                    asserts += self.var_cons(v)
                r, _ = self._z3(asserts, min(ms, 250), first=True)
                if r == "unsat":
                    st.queries += 1
                    st.unsat += 1
                    return "unsat", None
            asserts = goal + [self.zf(c) for c in used]
            for v in sorted(vs):
                asserts += self.var_cons(v)
            r, m = self._z3(asserts, ms)
            st.queries += 1
            setattr(st, r, getattr(st, r) + 1)
            if r == "sat":
                return r, self._full_model(m, vs)
            return r, None
        finally:
            st.solver_s += time.time() - t0

    def _check(self, s, ms):
        """check() that cannot overrun: z3's own timeout is not always honoured inside nlsat"""
        t = threading.Timer(ms / 1000 * 2 + 2, z3.main_ctx().interrupt)
        t.daemon = True
        t.start()
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown
        finally:
            t.cancel()

    def _z3(self, asserts, ms, first=False):
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", max(1, int(ms)))
        s.add(*asserts)
        r = self._check(s, ms)
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        if first:
            return "unknown", None
        s = z3.Solver()
        s.set("timeout", max(1, int(ms)))
        s.set("random_seed", self.lim.seed)
        s.add(*asserts)
        r = self._check(s, ms)
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        if self.lim.use_cvc5 and ms >= 1000:
            r = _cvc5(s.to_smt2(), ms)
            self.stats.cvc5 += 1
            if r == "unsat":
                return "unsat", None
        return "unknown", None

    def _full_model(self, m, vs):
        """dict var id -> z3 numeral for the variables of the slice; merged with the previous model if possible"""
        out = {}
        for v in vs:
            out[v] = m.eval(self.vars[v].z, model_completion=True)
        if self.model is not None:
            for v, val in self.model.items():
                if v not in out:
                    out[v] = val
        return out

    def model_sat(self, f):
        """evaluate formula under the cached model: True/False/None"""
        vs = self.closure(f_vars(f))
        if self.model is None or any(v not in self.model for v in vs):
            return None
        sub = [(self.vars[v].z, self.model[v]) for v in vs]
        if any(z3.is_algebraic_value(x[1]) for x in sub):
            return None
        try:
            r = z3.simplify(z3.substitute(self.zf(f), *sub))
        except z3.Z3Exception:
            return None
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    def get_model(self, extra=(), ms=None):
        """concrete input values for path & extra -> (status, {name: float or str}); rounded values in it are rounded
        exactly if such a model is found"""
        r = self._get_model(extra, ms)
        if r[0] != "sat" or not self.quants:
            return r
        best, done = r, []
        step = 1 if len(self.quants) <= 8 else len(self.quants)
        for i in range(0, len(self.quants), step):
            for margin in (Fraction(1, 20), Fraction(0)):
                fs = []
                for y, x, mode, unit in self.quants[i:i + step]:
                    try:
                        c = quantize(x.num.evaluate(best[2]) / x.den.evaluate(best[2]), mode, unit)
                    except ZeroDivisionError:
                        return r
                    lo = {"round": -unit / 2, "floor": Fraction(0), "ceil": -unit}[mode] + margin * unit
                    fs += [tof(y == c), tof(x >= c + lo), tof(x <= c + lo + unit - 2 * margin * unit)]
                fs = [self.normalize(f) for f in fs]
                s = ("unsat",) if any(f is False for f in fs) else self._get_model(list(extra) + done + fs, ms)
                if s[0] == "sat":
                    best, done = s, done + fs
                    break
            else:
                return r
        return best

    def _get_model(self, extra=(), ms=None):
        """concrete input values for path & extra -> (status, {name: float or str})"""
        ms = ms or self.lim.check_ms
        comps = self._components(list(extra))
        vals = {}
        for vs, cs in comps:
            asserts = [self.zf(c) for c in cs]
            for v in sorted(vs):
                asserts += self.var_cons(v)
            t0 = time.time()
            r, m = self._z3(asserts, ms)
            self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            setattr(self.stats, r, getattr(self.stats, r) + 1)
            if r != "sat":
                return r, None
            for v in vs:
                vals[v] = _tofrac(m.eval(self.vars[v].z, model_completion=True))
        return "sat", {n: vals[v] for n, v in self.inputs.items()}, vals

    def _components(self, extra):
        cons = self.cons + [f for f in (self.normalize(f) for f in extra) if f is not True]
        parent = list(range(len(self.vars)))

        def find(a):
            while parent[a] != a:
                parent[a] = parent[parent[a]]
                a = parent[a]
            return a

        for v, r in self.roots.items():
            for w in r.vars():
                parent[find(w)] = find(v)
        for c in cons:
            vs = list(f_vars(c))
            for w in vs[1:]:
                parent[find(w)] = find(vs[0])
        groups = {}
        for v in range(len(self.vars)):
            groups.setdefault(find(v), (set(), []))[0].add(v)
        for c in cons:
            if c is False:
                return [(set(), [False])]
            vs = list(f_vars(c))
            groups[find(vs[0])][1].append(c)
        return list(groups.values())


_fac_cache = {}


def _factors(p):
    k = p.key()
    r = _fac_cache.get(k, 0)
    if r != 0:
        return r
    from .poly import _from_ring, _to_ring

    R, vs, (a,) = _to_ring([p])
    try:
        c, fl = a.factor_list()
    except Exception:
        _fac_cache[k] = None
        return None
    c = Fraction(int(c.numerator), int(c.denominator))
    out = []
    for f, e in fl:
        fp = _from_ring(vs, f)
        kk, s, prim = fp.primitive()
        c *= (s * kk) ** e
        out.append((prim, e))
    r = (c, out)
    if len(_fac_cache) > 20000:
        _fac_cache.clear()
    _fac_cache[k] = r
    return r


def _zval(c):
    c = Fraction(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}") if c.denominator != 1 else z3.RealVal(c.numerator)


def _tofrac(z):
    if z3.is_algebraic_value(z):
        z = z.approx(25)
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    if z3.is_int_value(z):
        return Fraction(z.as_long())
    return Fraction(0)


def _cvc5(smt2, ms):
    import shutil
    import subprocess

    exe = shutil.which("cvc5")
    if exe is None:
        return "unknown"
    txt = "(set-logic QF_NRA)\n" + "\n".join(
        l for l in smt2.splitlines() if not l.startswith("(set-info") and "set-logic" not in l)
    try:
        r = subprocess.run([exe, "--lang=smt2", f"--tlimit={int(ms)}", "-"], input=txt, capture_output=True,
                           text=True, timeout=ms / 1000 + 1)
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    return "unsat" if r.stdout.strip() == "unsat" else "unknown"


def quantize(c, mode, unit):
    q = Fraction(c) / unit
    return unit * (round(q) if mode == "round" else math.floor(q) if mode == "floor" else math.ceil(q))


def rounding_hook(e, eps, tag="norm"):
    """values passed through the hook are only known up to a relative rounding error eps (the same error for the
    same value)"""

    def hook(r):
        if not isinstance(r, SymReal) or r.const() is not None:
            return r
        key = (tag, r.num.key(), r.den.key())
        v = e.tokens.get(key)
        if v is None:
            d = e.real("delta", -eps, eps, input=False)
            v = SymReal.__mul__(r, 1 + d)
            e.tokens[key] = v
            e.tokens[(tag, v.num.key(), v.den.key())] = v
        return v

    return hook
