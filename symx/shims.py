"""Stand-ins for builtins and libraries that let the unmodified source of /repo run on symbolic values."""
import builtins
import functools
import io
import math as _math
import types
from fractions import Fraction

import numpy as _np

from . import core
from .core import FLT, INT, NPF, SymBool, SymReal, Unsupported, lift, mkbool, tof


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if type(x) is SymReal:
            return x.kind in (FLT, NPF)
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __repr__(cls):
        return "<class 'float'>"


class Float(metaclass=_FloatMeta):
    fromhex = float.fromhex

    def __new__(cls, x=0.0):
        if type(x) is SymReal:
            return SymReal(x.num, x.den, FLT)
        if type(x) is SymBool:
            return float(bool(x))
        if isinstance(x, str):
            r = _num_text(x)
            if r is not None:
                return SymReal(r.num, r.den, FLT)
        if hasattr(x, "__symfloat__"):
            return x.__symfloat__()
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return Float(x.item())
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if type(x) is SymReal:
            return x.kind == INT
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __repr__(cls):
        return "<class 'int'>"


class Int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if type(x) is SymReal:
            return x.__trunc__()
        if type(x) is SymBool:
            return int(bool(x))
        if isinstance(x, str):
            r = _num_text(x)
            if r is not None:  # the texts stand for numbers written with a decimal point
                raise ValueError(f"invalid literal for int() with base 10: {x!r}")
        if hasattr(x, "__symint__"):
            return x.__symint__(*a)
        return int(x, *a)

    from_bytes = int.from_bytes


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class Bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if type(x) is SymBool:
            return bool(x)
        return bool(x)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str) or getattr(type(x), "__symstr__", False)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, str)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, n):
        return getattr(str, n)


class Str(metaclass=_StrMeta):
    def __new__(cls, *a, **k):
        if a and getattr(type(a[0]), "__symstr__", False):
            return a[0]
        return str(*a, **k)


def _num_text(s):
    e = core.ENGINE
    if e is None:
        return None
    t = s.strip()
    if "_" in t:
        return None
    v = getattr(e, "num_text", {}).get(t)
    if v is None and t in e.token_text:
        v = e.token_value(t)
    return v


def Type(x, *a):
    if a:
        return type(x, *a)
    if type(x) is SymReal:
        return (Int, Float, np_shim.float64)[x.kind]
    if type(x) is SymBool:
        return Bool
    t = type(x)
    if getattr(t, "__symstr__", False):
        return Str
    if t is float:
        return Float
    if t is int:
        return Int
    if t is bool:
        return Bool
    if t is str:
        return Str
    if t is _np.float64:
        return np_shim.float64
    return t


_UNSHIM = {}


def Isinstance(x, t):
    if isinstance(t, tuple):
        return any(Isinstance(x, k) for k in t)
    if t is Type:
        return isinstance(x, type)
    return isinstance(x, t)


def Issubclass(x, t):
    x = {Float: float, Int: int, Bool: bool, Str: str}.get(x, x)
    return issubclass(x, t)


def Round(x, nd=None, **k):
    if "ndigits" in k:
        nd = k["ndigits"]
    if isinstance(x, SymReal):
        return x.__round__(nd)
    if getattr(type(x), "__symstr__", False):
        raise TypeError("type str doesn't define __round__ method")
    return round(x, nd) if nd is not None else round(x)


def Print(*a, sep=" ", end="\n", file=None, flush=False):
    if isinstance(file, VFile):  # the console is not observed
        file.write((" " if sep is None else sep).join(str(x) for x in a) + ("\n" if end is None else end))


def Any(it):
    for x in it:
        if x:
            return True
    return False


def Sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def Pow(a, b, *m):
    return pow(a, b, *m)


class VFile(io.StringIO):
    """write target: text goes to the virtual file system"""

    def __init__(self, fs, name, initial="", mode="w"):
        super().__init__(initial, newline=None if "r" in mode else "")
        self._fs = fs
        self._vname = str(name)
        self.name = str(name)
        self.mode = mode
        if "a" in mode:
            self.seek(0, 2)
        if "r" not in mode:
            fs[self._vname] = ""

    def write(self, s):
        if not isinstance(s, str):
            s = str(s)
        n = super().write(s)
        self._fs[self._vname] = self.getvalue()
        return n

    def close(self):
        if not self.closed and "r" not in self.mode:
            if self._vname not in self._fs or isinstance(self._fs[self._vname], str):
                self._fs[self._vname] = self.getvalue()
        super().close()

    def flush(self):
        pass


class SymLinesFile:
    """read source whose lines may be symbolic strings"""

    def __init__(self, name, lines, newline=None):
        self.name = name
        self._lines = [l[:-2] + "\n" if newline is None and l[-2:] == "\r\n" else l for l in lines]
        self._i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self._i >= len(self._lines):
            raise StopIteration
        self._i += 1
        return self._lines[self._i - 1]

    def readline(self):
        return next(self, "")

    def readlines(self):
        r = self._lines[self._i:]
        self._i = len(self._lines)
        return r

    def read(self):
        r = self.readlines()
        out = ""
        for x in r:
            out = out + x
        return out

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class YamlObject:
    def __init__(self, data):
        self.data = data


def _open(file, mode="r", *a, **k):
    e = core.ENGINE
    fs = e.fs if e is not None else {}
    from .vpath import key

    name = key(file)
    if any(c in mode for c in "wax"):
        init = fs.get(name, "") if "a" in mode and isinstance(fs.get(name, ""), str) else ""
        return VFile(fs, name, init, mode)
    if name in fs:
        v = fs[name]
        if isinstance(v, list):
            return SymLinesFile(name, list(v), k.get("newline"))
        if isinstance(v, YamlObject):
            f = VFile(fs, name, "", mode)
            f.yaml = v
            return f
        return VFile(fs, name, v, mode)
    return open(file, mode, *a, **k)


def _copytree(x, memo=None):
    """deep copy; parts that occur twice stay shared (as with YAML anchors)"""
    memo = {} if memo is None else memo
    if isinstance(x, (dict, list)):
        r = memo.get(id(x))
        if r is None:
            if isinstance(x, dict):
                r = memo[id(x)] = {}
                r.update((k, _copytree(v, memo)) for k, v in x.items())
            else:
                r = memo[id(x)] = []
                r.extend(_copytree(v, memo) for v in x)
        return r
    return x


class YamlShim(types.ModuleType):
    def __init__(self):
        super().__init__("yaml")
        import yaml

        self._y = yaml

    def __getattr__(self, n):
        return getattr(self._y, n)

    def _load(self, stream, fn):
        if hasattr(stream, "yaml"):
            return _copytree(stream.yaml.data)
        return fn(stream)

    def load(self, stream, Loader=None, **k):
        return self._load(stream, lambda s: self._y.load(s, Loader=Loader))

    def safe_load(self, stream):
        return self._load(stream, self._y.safe_load)

    def full_load(self, stream):
        return self._load(stream, self._y.full_load)

    def dump(self, data, stream=None, *a, **k):
        if stream is None:
            return self._y.dump(data, *a, **k)
        if isinstance(stream, VFile):
            stream._fs[stream._vname] = YamlObject(_copytree(data))
            return None
        return self._y.dump(data, stream, *a, **k)

    def safe_dump(self, data, stream=None, **k):
        return self.dump(data, stream, **k)


# ------------------------------------------------------------------ numpy
class _F64Meta(type):
    def __instancecheck__(cls, x):
        if type(x) is SymReal:
            return x.kind == NPF
        return isinstance(x, _np.float64)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, _np.float64)

    def __eq__(cls, o):
        return o is cls or o is _np.float64

    def __hash__(cls):
        return hash(_np.float64)


class Float64(metaclass=_F64Meta):
    def __new__(cls, x=0.0):
        v = Float(x)
        if isinstance(v, SymReal):
            return SymReal(v.num, v.den, NPF)
        return _np.float64(v)


class _FloatingMeta(_F64Meta):
    def __instancecheck__(cls, x):
        if type(x) is SymReal:
            return x.kind == NPF
        return isinstance(x, _np.floating)


class Floating(metaclass=_FloatingMeta):
    pass


def _has_sym(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(_has_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def _npk(x):
    """element stored in / read from a float array"""
    if type(x) is SymReal and x.kind != NPF:
        return SymReal(x.num, x.den, NPF)
    return x


class OArr(_np.ndarray):
    """object array standing for an array of floats"""

    def astype(self, dtype, *a, **k):
        if _has_sym(self):
            return NpShim.array(self, dtype=dtype)
        return _np.asarray(self).astype(_undt(dtype), *a, **k)

    def mean(self, axis=None, *a, **k):
        return NpShim.mean(self, axis)

    def round(self, decimals=0, out=None):
        return NpShim.round(self, decimals)

    def __getitem__(self, k):
        r = super().__getitem__(_mask(k))
        return r

    def __setitem__(self, k, v):
        super().__setitem__(_mask(k), v)


def _mask(k):
    """comparison results used as an index"""
    if isinstance(k, _np.ndarray) and k.dtype == object and k.size and all(isinstance(v, (SymBool, bool, _np.bool_)) for v in k.flat):
        return _np.array([bool(v) for v in k.flat], dtype=bool).reshape(k.shape)
    return k


def uf(name, *args, lo=None, hi=None):
    """function without a theory: the same value for the same argument, otherwise unconstrained within its range.
    Counterexamples that need more are not confirmed by the real code and never reported"""
    e = core.engine()
    args = [lift(a) for a in args]
    if all(a.const() is not None for a in args):
        return getattr(_math, name)(*[float(a.const()) for a in args])
    key = ("uf", name) + tuple((a.num.key(), a.den.key()) for a in args)
    r = e.tokens.get(key)
    if r is None:
        inv = {"exp": "log", "log": "exp", "radians": "degrees", "degrees": "radians"}.get(name)
        r = e.uf_inverse.get((inv, args[0].num.key(), args[0].den.key())) if inv else None
        if r is None:
            r = e.real("uf", lo, hi, input=False)
        e.tokens[key] = r
        e.uf_inverse[(name, r.num.key(), r.den.key())] = args[0]
    return r


PI = Fraction(314159265358979, 10 ** 14) + Fraction(1, 10 ** 14)
UF1 = {"exp": (0, None), "log": (None, None), "sin": (-1, 1), "cos": (-1, 1), "tan": (None, None), "tanh": (-1, 1),
       "atan": (-PI / 2, PI / 2), "acos": (0, PI), "asin": (-PI / 2, PI / 2), "cbrt": (None, None), "log2": (None, None),
       "log10": (None, None), "log1p": (None, None), "expm1": (-1, None), "exp2": (0, None), "sinh": (None, None), "cosh": (1, None)}
NPNAME = {"atan": "arctan", "acos": "arccos", "asin": "arcsin"}


def uf1(name, v, nan=False):
    if not isinstance(v, SymReal):
        return getattr(_np, NPNAME.get(name, name))(v)
    if name in ("acos", "asin") and not bool(abs(v) <= 1):
        if nan:
            return float("nan")
        raise ValueError("math domain error")
    if name in ("log", "log2", "log10") and not bool(v > 0):
        if nan:
            return float("nan") if v < 0 else -float("inf")
        raise ValueError("math domain error")
    return uf(name, v, lo=UF1[name][0], hi=UF1[name][1])


def _objarr(x):
    a = _np.array(x, dtype=object)
    if a.size:
        flat = a.reshape(-1)
        for i in range(flat.size):
            v = flat[i]
            if isinstance(v, (SymReal, SymBool)):
                flat[i] = _npk(v)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                flat[i] = _np.float64(v)
        a = flat.reshape(a.shape)
    return a.view(OArr)


def _floaty(dtype):
    return dtype is None or dtype in (float, Float, Float64, _np.float64, object, _np.object_, "float", "float64") \
        or dtype is _np.floating


class Linalg(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, n):
        return getattr(_np.linalg, n)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if not _has_sym(x):
            return _np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
        a = _np.asarray(x, dtype=object)
        if ord not in (None, 1, 2, "fro", _np.inf) or (ord in (1, _np.inf) and axis is None and a.ndim > 1):
            raise Unsupported("norm variant")
        if keepdims:
            r = Linalg.norm(x, ord, axis)
            return _objarr([[r]]) if axis is None and a.ndim == 2 else _objarr([r]) if axis is None else _np.expand_dims(r, axis)
        one = _norm if ord in (None, 2, "fro") else (lambda vs: sum(abs(v) for v in vs)) if ord == 1 \
            else (lambda vs: functools.reduce(lambda p, q: p if p >= q else q, [abs(v) for v in vs]))
        if axis is None:
            return one([v for v in a.flat])
        if axis < 0:
            axis += a.ndim
        a = _np.moveaxis(a, axis, -1)
        out = _np.empty(a.shape[:-1], dtype=object)
        for idx in _np.ndindex(out.shape):
            out[idx] = one(list(a[idx]))
        return out


def _norm(vals):
    s = 0
    for v in vals:
        if isinstance(v, (float, _np.floating)) and not _math.isfinite(v):
            return float("nan") if _math.isnan(v) else float("inf")
        s = lift(v) * v + s
    r = core._sqrt(lift(s), NPF, nan=True)
    e = core.ENGINE
    if getattr(e, "norm_hook", None) is not None:
        r = e.norm_hook(r)
    return r


def _elem(fn):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = _objarr(x)
        if isinstance(x, _np.ndarray):
            out = _np.empty(x.shape, dtype=object)
            for idx in _np.ndindex(x.shape):
                out[idx] = fn(x[idx])
            return out
        return fn(x)

    return g


def isclose1(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        fa = float("inf") if la is not None else float(a)
        fb = float("inf") if lb is not None else float(b)
        if la is None and lb is None:
            return bool(fa == fb) or (equal_nan and _math.isnan(fa) and _math.isnan(fb))
        return False
    d = la - lb
    if d.num.is_zero():
        return True
    c = lb.const()
    if c is not None:
        tol = lift(atol) + lift(rtol) * abs(c)
        return mkbool(core.f_and([tof(d <= tol), tof(-d <= tol)]))
    # |d| <= atol + rtol*max(lb, -lb), without splitting on the sign of lb
    fs = []
    for r in (lb, -lb):
        tol = lift(atol) + lift(rtol) * r
        fs.append(core.f_and([tof(d <= tol), tof(-d <= tol)]))
    return mkbool(core.f_or(fs))


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = Linalg()
        self.float64 = Float64
        self.double = Float64
        self.floating = Floating
        self.r_ = _RC(_np.r_)
        self.c_ = _RC(_np.c_)

    def __getattr__(self, n):
        if n.startswith("__"):
            return getattr(_np, n)
        f = getattr(_np, n)
        if callable(f) and not isinstance(f, type):
            m = {v: k for k, v in NPNAME.items()}.get(n, n)
            if m in UF1:
                return lambda x, *a, **k: _elem(lambda v: uf1(m, v, True))(x) if _has_sym(x) else f(x, *a, **k)
            return _wrap(n, f)
        return f

    @staticmethod
    def finfo(dtype=float):
        return _np.finfo(_undt(dtype) if not _has_sym(dtype) else _np.float64)

    @staticmethod
    def iinfo(dtype=int):
        return _np.iinfo(_undt(dtype) if not _has_sym(dtype) else _np.int64)

    @staticmethod
    def asarray(x, dtype=None, **k):
        return NpShim.array(x, dtype=dtype, copy=False) if _has_sym(x) else _np.asarray(x, dtype=_undt(dtype), **k)

    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        if not _has_sym(x):
            return _np.array(x, dtype=_undt(dtype), copy=True, **k)
        if dtype in (bool, Bool, _np.bool_, "bool"):
            a = _np.array(x, dtype=object)
            out = _np.empty(a.shape, dtype=bool)
            for i in _np.ndindex(a.shape):
                out[i] = bool(a[i])
            return out
        if dtype is object:
            if isinstance(x, _np.ndarray) and not copy:
                return x
            return _np.array(x, dtype=object)
        if dtype in (int, Int, _np.int64, "int"):
            return _elem(Int)(_objarr(x))
        if not _floaty(dtype):
            raise Unsupported(f"array dtype {dtype}")
        if isinstance(x, _np.ndarray) and not copy:
            return x if isinstance(x, OArr) or x.dtype != object else x.view(OArr)
        return _objarr(x)

    @staticmethod
    def fromiter(it, dtype=float, count=-1, **k):
        v = list(it)
        return NpShim.array(v, dtype=dtype) if _has_sym(v) else _np.fromiter(v, dtype=_undt(dtype), **k)

    @staticmethod
    def mean(x, axis=None, **k):
        if not _has_sym(x):
            return _np.mean(x, axis=axis, **k)
        a = _np.asarray(x, dtype=object)
        n = a.size if axis is None else a.shape[axis]
        return _np.sum(a, axis=axis) / n

    @staticmethod
    def average(x, axis=None, weights=None, **k):
        if not _has_sym(x) and not _has_sym(weights):
            return _np.average(x, axis=axis, weights=weights, **k)
        if weights is None:
            return NpShim.mean(x, axis)
        if axis is not None:
            raise Unsupported("average variant")
        a, w = _np.asarray(x, dtype=object), _np.asarray(weights, dtype=object)
        return _np.sum(a * w) / _np.sum(w)

    @staticmethod
    def gradient(*a, **k):
        if _has_sym(a):
            raise Unsupported("gradient")
        return _np.gradient(*a, **k)

    @staticmethod
    def interp(x, xp, fp, left=None, right=None, period=None):
        if not _has_sym([x, xp, fp, left, right]):
            return _np.interp(x, xp, fp, left, right, period)
        if period is not None:
            raise Unsupported("interp variant")
        xp, fp = list(xp), list(fp)

        def one(v):
            if v < xp[0]:
                return fp[0] if left is None else left
            if v > xp[-1]:
                return fp[-1] if right is None else right
            for i in range(len(xp) - 1):
                if v < xp[i + 1]:
                    return fp[i] + (lift(v) - xp[i]) * (lift(fp[i + 1]) - fp[i]) / (lift(xp[i + 1]) - xp[i])
            return fp[-1]

        return _elem(one)(x)

    @staticmethod
    def arctan2(a, b):
        if not _has_sym((a, b)):
            return _np.arctan2(a, b)
        return _bin(lambda p, q: uf("atan2", p, q, lo=-PI, hi=PI), a, b)

    @staticmethod
    def copysign(a, b):
        return _bin(MathShim.copysign, a, b) if _has_sym((a, b)) else _np.copysign(a, b)

    @staticmethod
    def signbit(x):
        return _elem(lambda v: v < 0 if isinstance(v, SymReal) else _np.signbit(v))(x) if _has_sym(x) else _np.signbit(x)

    @staticmethod
    def deg2rad(x):
        return x * _math.pi / 180

    radians = deg2rad

    @staticmethod
    def rad2deg(x):
        return x * 180 / _math.pi

    degrees = rad2deg

    @staticmethod
    def sqrt(x, *a, **k):
        if _has_sym(x):
            return _elem(lambda v: core._sqrt(lift(v), NPF, True) if lift(v) is not None else _np.sqrt(v))(x)
        return _np.sqrt(x, *a, **k)

    @staticmethod
    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not _has_sym(a) and not _has_sym(b):
            return _np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        if isinstance(a, (list, tuple, _np.ndarray)) or isinstance(b, (list, tuple, _np.ndarray)):
            aa, bb = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
            out = _np.empty(aa.shape, dtype=object)
            for i in _np.ndindex(aa.shape):
                out[i] = isclose1(aa[i], bb[i], rtol, atol, equal_nan)
            return out
        return isclose1(a, b, rtol, atol, equal_nan)

    @staticmethod
    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        r = NpShim.isclose(a, b, rtol, atol, equal_nan)
        return NpShim.all(r)

    @staticmethod
    def all(x, *a, **k):
        if _has_sym(x) and not a and not k:
            if isinstance(x, (SymBool, SymReal)):
                return bool(x)
            return builtins.all(bool(v) for v in _np.asarray(x, dtype=object).flat)
        return _np.all(x, *a, **k)

    @staticmethod
    def any(x, *a, **k):
        if _has_sym(x) and not a and not k:
            if isinstance(x, (SymBool, SymReal)):
                return bool(x)
            return builtins.any(bool(v) for v in _np.asarray(x, dtype=object).flat)
        return _np.any(x, *a, **k)

    @staticmethod
    def isnan(x):
        if _has_sym(x):
            return _elem(lambda v: False if isinstance(v, SymReal) else bool(_np.isnan(v)))(x)
        return _np.isnan(x)

    @staticmethod
    def isfinite(x):
        if _has_sym(x):
            return _elem(lambda v: True if isinstance(v, SymReal) else bool(_np.isfinite(v)))(x)
        return _np.isfinite(x)

    @staticmethod
    def isinf(x):
        if _has_sym(x):
            return _elem(lambda v: False if isinstance(v, SymReal) else bool(_np.isinf(v)))(x)
        return _np.isinf(x)

    @staticmethod
    def abs(x):
        return _elem(abs)(x) if _has_sym(x) else _np.abs(x)

    absolute = abs
    fabs = abs

    @staticmethod
    def sign(x):
        return _elem(lambda v: core.engine().sign(v))(x) if _has_sym(x) else _np.sign(x)

    @staticmethod
    def round(x, decimals=0):
        if _has_sym(x):
            return _elem(lambda v: v.__round__(decimals) if isinstance(v, SymReal) else round(v, decimals))(x)
        return _np.round(x, decimals)

    around = round

    @staticmethod
    def rint(x):
        return _elem(lambda v: lift(v).rint())(x) if _has_sym(x) else _np.rint(x)

    @staticmethod
    def floor(x):
        return _elem(lambda v: lift(v).floor())(x) if _has_sym(x) else _np.floor(x)

    @staticmethod
    def ceil(x):
        return _elem(lambda v: lift(v).ceil())(x) if _has_sym(x) else _np.ceil(x)

    @staticmethod
    def hypot(a, b):
        if _has_sym(a) or _has_sym(b):
            return _norm([a, b])
        return _np.hypot(a, b)

    @staticmethod
    def square(x):
        return _elem(lambda v: v * v)(x) if _has_sym(x) else _np.square(x)

    @staticmethod
    def maximum(a, b):
        if _has_sym(a) or _has_sym(b):
            return _bin(lambda x, y: x if x >= y else y, a, b)
        return _np.maximum(a, b)

    @staticmethod
    def minimum(a, b):
        if _has_sym(a) or _has_sym(b):
            return _bin(lambda x, y: x if x <= y else y, a, b)
        return _np.minimum(a, b)

    @staticmethod
    def linspace(a, b, num=50, endpoint=True, **k):
        num = num.__index__() if isinstance(num, SymReal) else num
        if not (_has_sym(a) or _has_sym(b)):
            return _np.linspace(a, b, num, endpoint=endpoint, **k)
        d = (num - 1) if endpoint else num
        return _objarr([a + (b - a) * Fraction(i, d) for i in range(num)])

    @staticmethod
    def reshape(x, *a, **k):
        return _np.reshape(NpShim.asarray(x), *a, **k)

    @staticmethod
    def savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", **k):
        X = _np.asarray(X, dtype=object)
        if X.ndim == 1:
            X = X.reshape(-1, 1)
        lines = []
        if header:
            lines.append(comments + header)
        for row in X:
            lines.append(delimiter.join(_fmt(fmt, v) for v in row))
        if footer:
            lines.append(comments + footer)
        with _open(fname, "w") as f:
            f.write("".join(l + newline for l in lines))

    @staticmethod
    def dot(a, b):
        if _has_sym(a) or _has_sym(b):
            return _np.dot(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        return _np.dot(a, b)

    @staticmethod
    def diff(x, *a, **k):
        return _np.diff(NpShim.asarray(x), *a, **k)

    @staticmethod
    def column_stack(t):
        return _np.column_stack([NpShim.asarray(x) for x in t])

    @staticmethod
    def argsort(x, *a, **k):
        return _np.argsort(NpShim.asarray(x), *a, **k) if not _has_sym(x) else _argsort(x)

    @staticmethod
    def where(c, *a):
        if _has_sym(c):
            if isinstance(c, (SymBool, SymReal)):
                c = bool(c)
            else:
                c = NpShim.array(c, dtype=bool)
        return _np.where(c, *a)


def _argsort(x):
    import functools

    a = list(_np.asarray(x, dtype=object).reshape(-1))
    return _np.array(sorted(range(len(a)), key=functools.cmp_to_key(
        lambda i, j: -1 if a[i] < a[j] else (1 if a[j] < a[i] else 0))), dtype=int)


def _undt(d):
    return {Float: float, Int: int, Bool: bool, Str: str, Float64: _np.float64}.get(d, d)


def _fmt(fmt, v):
    if isinstance(v, SymReal):
        return str(v) if fmt in ("%s", "%r") else format(v, fmt)
    return fmt % (v,)


def _bin(fn, a, b):
    if any(isinstance(t, (list, tuple, _np.ndarray)) for t in (a, b)):
        aa, bb = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        out = _np.empty(aa.shape, dtype=object)
        for i in _np.ndindex(aa.shape):
            out[i] = fn(aa[i], bb[i])
        return out
    return fn(a, b)


class _RC:
    def __init__(self, o):
        self._o = o

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = tuple(NpShim.asarray(x) if isinstance(x, (list, tuple)) else x for x in k)
        return self._o[k]


def _wrap(n, f):
    def g(*a, **k):
        if k.get("dtype") is not None:
            k["dtype"] = _undt(k["dtype"])
        if n in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like"):
            if _floaty(k.get("dtype")) and core.ENGINE is not None:
                k["dtype"] = object
                r = f(*a, **k)
                if n in ("empty", "empty_like"):
                    r[...] = 0.0
                return r
        a = tuple(_objarr(x) if isinstance(x, (list, tuple)) and _has_sym(x) else x for x in a)
        return f(*a, **k)

    g.__name__ = n
    if isinstance(f, _np.ufunc):
        for m in ("reduce", "accumulate", "outer", "at"):
            setattr(g, m, getattr(f, m))
    return g


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return f

        def g(*a, **k):
            if any(_has_sym(x) for x in a):
                cs = [x.const() if isinstance(x, SymReal) else x for x in a]
                if all(c is not None for c in cs):
                    return f(*[float(c) if isinstance(c, Fraction) else c for c in cs], **k)
                if n in UF1 and len(a) == 1:
                    return uf1(n, a[0])
                raise Unsupported(f"math.{n} of a symbolic value")
            return f(*a, **k)

        return g

    @staticmethod
    def floor(x):
        return x.__floor__() if isinstance(x, SymReal) else _math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if isinstance(x, SymReal) else _math.ceil(x)

    @staticmethod
    def trunc(x):
        return x.__trunc__() if isinstance(x, SymReal) else _math.trunc(x)

    @staticmethod
    def atan2(a, b):
        return uf("atan2", a, b, lo=-PI, hi=PI) if _has_sym((a, b)) else _math.atan2(a, b)

    @staticmethod
    def degrees(x):
        return x * 180 / _math.pi

    @staticmethod
    def radians(x):
        return x * _math.pi / 180

    @staticmethod
    def modf(x):
        if not isinstance(x, SymReal):
            return _math.modf(x)
        i = x.__trunc__()
        return x - i, i

    @staticmethod
    def fmod(a, b):
        if not _has_sym((a, b)):
            return _math.fmod(a, b)
        return lift(a) - (lift(a) / b).__trunc__() * lift(b)

    @staticmethod
    def sqrt(x):
        return core._sqrt(x, FLT, nan=False) if isinstance(x, SymReal) else _math.sqrt(x)

    @staticmethod
    def fabs(x):
        return abs(x) if isinstance(x, SymReal) else _math.fabs(x)

    @staticmethod
    def hypot(*v):
        return core._sqrt(lift(sum(lift(x) * x for x in v)), FLT, False) if _has_sym(v) else _math.hypot(*v)

    @staticmethod
    def dist(p, q):
        if _has_sym(p) or _has_sym(q):
            return MathShim.hypot(*[a - b for a, b in zip(p, q)])
        return _math.dist(p, q)

    @staticmethod
    def pow(a, b):
        return a ** b if _has_sym((a, b)) else _math.pow(a, b)

    @staticmethod
    def fsum(v):
        v = list(v)
        return Sum(v) if _has_sym(v) else _math.fsum(v)

    @staticmethod
    def prod(v, start=1):
        r = start
        for x in v:
            r = r * x
        return r

    @staticmethod
    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if not (_has_sym(a) or _has_sym(b)):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(lift(a) - b)
        m = max(abs(lift(a)), abs(lift(b)))
        return mkbool(core.f_or([tof(d <= lift(rel_tol) * m), tof(d <= abs_tol)]))

    @staticmethod
    def isnan(x):
        return False if isinstance(x, SymReal) else _math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if isinstance(x, SymReal) else _math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if isinstance(x, SymReal) else _math.isfinite(x)

    @staticmethod
    def copysign(a, b):
        if not _has_sym((a, b)):
            return _math.copysign(a, b)
        m = abs(lift(a))
        return m if lift(b) >= 0 else -m


np_shim = NpShim()
math_shim = MathShim()
