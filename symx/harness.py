"""Dual-mode harness context: the same property harness runs symbolically (deciding) and concretely (replay)."""
import math
import os
import re as _re
from fractions import Fraction

from . import core
from .core import FLT, PathAbort, SymBool, SymReal, Unsupported, f_not, lift, mkbool, tof

REL_NOISE = Fraction(1, 10 ** 9)


class Violation(Exception):
    pass


class Candidate:
    def __init__(self, label, models, choices, detail=""):
        self.label, self.models, self.choices, self.detail = label, models, choices, detail


STYLES = [
    lambda i: f"{900000 + i}.5",
    lambda i: f"-{900000 + i}.25",
    lambda i: f"{900000 + i}",
    lambda i: f"+{900000 + i}.75",
    lambda i: f".9{i:05d}1",
    lambda i: f"{900000 + i}.",
    lambda i: f"00{900000 + i}.125",
    lambda i: f"-.9{i:05d}2",
]


def fixed(x, style=0):
    """decimal text of a float without exponent"""
    from decimal import Decimal

    s = format(Decimal(repr(float(x))), "f")
    return s


class Ctx:
    symbolic = False

    def __init__(self, mods, params):
        self.m = mods
        self.p = params
        self.labels = set()
        self.reached = set()
        self.obs = []
        self.info = {}
        self._lits = 0

    def word(self, name, n, domain):
        """n symbolic characters"""
        return self.cat(*[self.char(f"{name}{i}", domain) for i in range(n)])

    # --- building programs
    def lit(self, x):
        """text literal standing for number x"""
        raise NotImplementedError

    def reach(self, label):
        self.reached.add(label)

    def observe(self, name, v):
        self.obs.append((name, v))

    # --- assertions
    def eq(self, label, a, b, tol=1e-7, rel=0.0):
        a, b = _val(a), _val(b)
        self.le(label, a, b, tol, rel, _both=True)

    def close_vec(self, label, va, vb, tol=1e-7, rel=0.0):
        va, vb = list(va), list(vb)
        if len(va) != len(vb):
            self.check(label + ".len", False)
            return
        for i, (a, b) in enumerate(zip(va, vb)):
            self.eq(f"{label}[{i}]", a, b, tol, rel)

    def fail(self, label, detail=""):
        self.check(label, False, detail)

    def raises(self, fn, exc=Exception):
        """the exception fn raises, or None"""
        try:
            fn()
        except exc as e:
            return e
        return None


def _val(x):
    import numpy as np

    if isinstance(x, np.ndarray) and x.size == 1:
        return x.item()
    return x


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, mods, params, eng):
        super().__init__(mods, params)
        self.e = eng
        eng.fs = {}
        eng.num_text = {}
        self.candidates = []
        self.inconclusive = []
        self.choices = {}
        self.checked = 0
        self.maxcand = 3

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, kind=FLT):
        if name in self.e.inputs:
            raise RuntimeError("duplicate input " + name)
        return self.e.real(name, lo, hi, lo_strict, hi_strict, kind=kind)

    def pos(self, name, hi=None):
        return self.real(name, 0, hi, lo_strict=True)

    def rounding(self, norm=None, div=None):
        """from here on vector norms / quotients of symbolic values carry any relative error up to the given one"""
        self.e.norm_hook = core.rounding_hook(self.e, norm) if norm else None
        self.e.div_hook = core.rounding_hook(self.e, div, "div") if div else None

    def char(self, name, domain):
        """one symbolic character of the domain"""
        from . import symre

        return symre.mk([symre.new_char(self.e, "ch_" + name, frozenset(map(ord, domain)))])

    def array(self, xs):
        from .shims import _objarr

        return _objarr(list(xs))

    def digit(self, c):
        """value of a decimal digit character"""
        from . import symre

        return symre._digit_value(symre.items(c)[0])

    def opaque(self, s):
        """text used as a key that is known to differ from every other key"""
        from . import symre

        return symre.SymStr(s._c, opaque=hash(("opaque", tuple(map(str, s._c))))) if symre.is_sym(s) else s

    def cat(self, *parts):
        from . import symre

        return symre.join("", parts)

    def choice(self, name, options):
        options = list(options)
        i = self.e.decide(len(options))
        self.choices[name] = i
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        self.e.assume(c)

    def lit(self, x, style=None):
        x = lift(x)
        c = x.const()
        if c is not None and float(c) == c:
            return fixed(float(c))
        i = self._lits
        self._lits += 1
        t = STYLES[(i if style is None else style) % len(STYLES)](i)
        self.e.num_text[t] = x
        return t

    def path(self, name):
        return "/nonexistent/verif-virtual/" + name

    def write_text(self, name, text):
        p = self.path(name)
        self.e.fs[p] = text
        return p

    def write_lines(self, name, lines):
        p = self.path(name)
        self.e.fs[p] = lines
        return p

    def write_yaml(self, name, obj):
        from .shims import YamlObject

        p = self.path(name)
        self.e.fs[p] = YamlObject(obj)
        return p

    def read_text(self, p):
        return self.e.fs.get(str(p))

    def read_yaml(self, p):
        v = self.e.fs.get(str(p))
        return v.data if v is not None and hasattr(v, "data") else v

    def in_folder(self):
        """run in the folder of the written files -> its path"""
        self.e.cwd = "/nonexistent/verif-virtual"
        return self.e.cwd

    def files(self):
        return set(self.e.fs)

    def num(self, text):
        """number behind a text the code under test wrote"""
        t = text.strip()
        if t in self.e.token_text:
            return self.e.token_value(t)
        if t in self.e.num_text:
            return self.e.num_text[t]
        return float(t)

    # ---
    def check(self, label, cond, detail=""):
        st = self.e.stats
        self.labels.add(label)
        self.checked += 1
        f = self.e.normalize(tof(cond))
        st.obligations += 1
        if f is True:
            st.obligations_trivial += 1
            st.discharged += 1
            return True
        g = f_not(f)
        return self._decide(label, f, [g], detail)

    def _decide(self, label, f, negs, detail=""):
        """negs: violation formulas; all must be unsat"""
        st = self.e.stats
        ok = True
        for g in negs:
            g = self.e.normalize(g)
            if g is False:
                continue
            r, _ = self.e.solve([g], self.e.lim.check_ms)
            if r == "unsat":
                continue
            was, ok = ok, False
            if r == "sat":
                st.refuted += 1
                if sum(c.label == label for c in self.candidates) < self.maxcand:
                    mods = self._models(g)
                    if mods:
                        self.candidates.append(Candidate(label, mods, dict(self.choices), detail))
                    elif self._infeasible:
                        st.refuted -= 1
                        ok = was
                    else:
                        self.inconclusive.append(label + " (no model)")
            else:
                st.inconclusive += 1
                self.inconclusive.append(label)
        if ok:
            st.discharged += 1
        elif f is False:
            raise PathAbort("assertion violated on the whole path")
        else:
            self.e.assume(mkbool(f))
        return ok

    def _models(self, g, strengthen=()):
        out = []
        self._infeasible = False
        for extra in list(strengthen) + [None]:
            fs = [g] + ([extra] if extra is not None else [])
            fs = [self.e.normalize(x) for x in fs]
            if any(x is False for x in fs):
                continue
            r = self.e.get_model([x for x in fs if x is not True])
            if r[0] == "sat":
                out.append(r[1])
            elif r[0] == "unsat" and extra is None:
                self._infeasible = True  # the complete path condition, not only the slice, was refuted
        return out

    def le(self, label, a, b, tol=1e-7, rel=0.0, _both=False):
        st = self.e.stats
        self.labels.add(label)
        self.checked += 1
        st.obligations += 1
        la, lb = lift(a) if not isinstance(a, (bool,)) else lift(a), lift(b)
        if la is None or lb is None:
            ok = False
            try:
                fa, fb = float(a), float(b)
                ok = (fa == fb) if _both else fa <= fb
            except (TypeError, ValueError):
                pass
            except Unsupported:
                fa = a if la is None else 0.0
                fb = b if lb is None else 0.0
                try:
                    ok = (not _both) and float(fa) <= float(fb)
                except TypeError:
                    ok = False
            if ok:
                st.discharged += 1
                return True
            return self._decide(label, False, [True], f"{a!r} vs {b!r}")
        d = la - lb
        if d.num.is_zero():
            st.obligations_trivial += 1
            st.discharged += 1
            return True
        t = lift(Fraction(tol))
        c = lb.const()
        if not rel:
            beyond = lambda x, m=0: tof(x > t + m)  # noqa: E731
        elif c is not None:
            t = t + Fraction(rel) * abs(c)
            beyond = lambda x, m=0: tof(x > t + m)  # noqa: E731
        else:  # x > t + rel*|lb| without splitting on the sign of lb
            r1, r2 = t + Fraction(rel) * lb, t - Fraction(rel) * lb
            beyond = lambda x, m=0: core.f_and([tof(x > r1 + m), tof(x > r2 + m)])  # noqa: E731
        negs = [beyond(d)]
        if _both:
            negs.append(beyond(-d))
        ok = True
        for i, g in enumerate(negs):
            g = self.e.normalize(g)
            if g is False:
                continue
            dd = d if i == 0 else -d
            r = None
            # exact claim first (usually easier), then the tolerance
            exact = self.e.normalize(tof(dd > 0))
            if exact is False:
                continue
            re_, _ = self.e.solve([exact], min(1000, self.e.lim.check_ms))
            if re_ == "unsat":
                continue
            r, _ = self.e.solve([g], self.e.lim.check_ms)
            if r == "unsat":
                continue
            was, ok = ok, False
            if r == "sat":
                st.refuted += 1
                if sum(c.label == label for c in self.candidates) < self.maxcand:
                    ms = self._models(g, [beyond(dd, m) for m in (1, Fraction(1, 100), Fraction(1, 10000))])
                    if ms:
                        self.candidates.append(Candidate(label, ms, dict(self.choices)))
                    elif self._infeasible:
                        st.refuted -= 1
                        ok = was
                        continue
                    else:
                        self.inconclusive.append(label + " (no model)")
            else:
                st.inconclusive += 1
                self.inconclusive.append(label)
        if ok:
            st.discharged += 1
        else:
            fs = [f_not(self.e.normalize(g)) for g in negs]
            f = core.f_and(fs)
            if f is False:
                raise PathAbort("violated")
            self.e.assume(mkbool(f))
        return ok


class ConcreteFailure(Exception):
    def __init__(self, label, detail=""):
        super().__init__(f"{label} {detail}")
        self.label, self.detail = label, detail


class ConCtx(Ctx):
    symbolic = False

    def __init__(self, mods, params, values, choices, tmp, collect=True):
        super().__init__(mods, params)
        self.values, self.choices, self.tmp = values, choices, tmp
        self.failures = []
        self.names_used = {}

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, kind=FLT):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None and not lo_strict else (hi if hi is not None and not hi_strict else (lo or 0) + 1)
        v = int(v) if kind == core.INT and Fraction(v).denominator == 1 else float(v)
        if lo is not None and (v < lo or (lo_strict and v <= lo)):
            raise PathAbort("bound")
        if hi is not None and (v > hi or (hi_strict and v >= hi)):
            raise PathAbort("bound")
        self.names_used[name] = v
        if kind == core.NPF:
            import numpy as np

            return np.float64(v)
        return v

    def pos(self, name, hi=None):
        return self.real(name, 0, hi, lo_strict=True)

    def rounding(self, norm=None, div=None):
        pass

    def char(self, name, domain):
        v = self.values.get("ch_" + name)
        if v is None:
            v = ord(sorted(domain)[0])
        if float(v) != int(v) or chr(int(v)) not in domain:
            raise PathAbort("domain")
        return chr(int(v))

    def array(self, xs):
        import numpy as np

        return np.array(list(xs))

    def digit(self, c):
        return int(c)

    def opaque(self, s):
        return s

    def cat(self, *parts):
        return "".join(parts)

    def choice(self, name, options):
        return list(options)[self.choices.get(name, 0)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        if not c:
            raise PathAbort("assumption")

    def lit(self, x, style=None):
        return fixed(x)

    def path(self, name):
        return os.path.join(self.tmp, name)

    def write_text(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return p

    def write_lines(self, name, lines):
        return self.write_text(name, "".join(lines))

    def write_yaml(self, name, obj):
        import yaml

        p = self.path(name)
        with open(p, "w", encoding="utf-8") as f:
            yaml.safe_dump(obj, f)
        return p

    def read_text(self, p):
        try:
            with open(p, encoding="utf-8") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def read_yaml(self, p):
        import yaml

        try:
            with open(p, encoding="utf-8") as f:
                return yaml.safe_load(f)
        except FileNotFoundError:
            return None

    def in_folder(self):
        os.chdir(self.tmp)
        return self.tmp

    def files(self):
        return {os.path.join(d, f) for d, _, fs in os.walk(self.tmp) for f in fs}

    def num(self, text):
        return float(text.strip())

    def check(self, label, cond, detail=""):
        self.labels.add(label)
        if not cond:
            self.failures.append((label, str(detail)))
        return bool(cond)

    def le(self, label, a, b, tol=1e-7, rel=0.0, _both=False):
        self.labels.add(label)
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            self.failures.append((label, f"{a!r} vs {b!r}"))
            return False
        t = (tol + rel * abs(b)) * 0.5
        d = a - b
        bad = not (abs(d) <= t if _both else d <= t)
        if a == b:
            bad = False
        if bad:
            self.failures.append((label, f"{a!r} vs {b!r} (tol {tol + rel * abs(b):g})"))
        return not bad


def parse_tokens(text):
    return _re.findall("\ue000\\d+\ue001", text)
