"""Multivariate rational polynomials used as normal forms of symbolic reals.

A Poly is an immutable dict  monomial -> coefficient,  monomial = sorted tuple of (var, exponent).
Variables are ints handed out by the engine; square-root variables are reduced by s*s = radicand.
"""
from fractions import Fraction
from math import gcd, isqrt

ONE_M = ()


def _mul_mono(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_key", "_vars")

    def __init__(self, terms):
        self.t = terms
        self._key = None
        self._vars = None

    @staticmethod
    def const(c):
        c = norm_coef(c)
        return Poly({ONE_M: c} if c != 0 else {})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): 1})

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.t:
                for v, _ in m:
                    s.add(v)
            self._vars = frozenset(s)
        return self._vars

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE_M in self.t)

    def const_value(self):
        return self.t.get(ONE_M, 0)

    def __len__(self):
        return len(self.t)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = norm_coef(n)
        return Poly(r)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: norm_coef(c * k) for m, c in self.t.items()})

    def mul(self, o, roots):
        """roots: dict var -> Poly radicand (s*s == radicand)"""
        if not self.t or not o.t:
            return Poly({})
        if o.is_const():
            return self.scale(o.const_value())
        if self.is_const():
            return o.scale(self.const_value())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mul_mono(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = norm_coef(n)
        return Poly(r).reduce(roots)

    def reduce(self, roots):
        if not roots:
            return self
        cur = self
        while True:
            hit = None
            for m in cur.t:
                for v, e in m:
                    if e >= 2 and v in roots:
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                return cur
            rad = roots[hit]
            groups = {}
            for m, c in cur.t.items():
                e = 0
                rest = []
                for v, ee in m:
                    if v == hit:
                        e = ee
                    else:
                        rest.append((v, ee))
                q, r1 = divmod(e, 2)
                if r1:
                    rest.append((hit, 1))
                    rest.sort()
                g = groups.setdefault(q, {})
                rm = tuple(rest)
                n = g.get(rm, 0) + c
                if n == 0:
                    g.pop(rm, None)
                else:
                    g[rm] = n
            out = Poly({})
            power = Poly.const(1)
            for q in range(max(groups) + 1):
                if q in groups:
                    out = out + Poly(groups[q]).mul(power, roots)
                power = power.mul(rad, roots)
            cur = out

    # -- helpers -------------------------------------------------------
    def content_monomial(self):
        """gcd of all monomials"""
        it = iter(self.t)
        try:
            g = dict(next(it))
        except StopIteration:
            return ()
        for m in it:
            d = dict(m)
            for v in list(g):
                e = min(g[v], d.get(v, 0))
                if e == 0:
                    del g[v]
                else:
                    g[v] = e
            if not g:
                break
        return tuple(sorted(g.items()))

    def div_monomial(self, mono):
        if not mono:
            return self
        d = dict(mono)
        r = {}
        for m, c in self.t.items():
            nm = []
            for v, e in m:
                e2 = e - d.get(v, 0)
                if e2:
                    nm.append((v, e2))
            r[tuple(nm)] = c
        return Poly(r)

    def lead(self):
        return max(self.t, key=_mono_order)

    def primitive(self):
        """(rational content k>0, sign, primitive poly with integer coefs, positive leading coef)"""
        if not self.t:
            return 0, 1, self
        g = 0
        den = 1
        for c in self.t.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        for c in self.t.values():
            g = gcd(g, int(c * den))
        k = Fraction(g, den)
        s = 1 if self.t[self.lead()] > 0 else -1
        return k, s, self.scale(Fraction(s) / k)

    def evaluate(self, env):
        r = 0
        for m, c in self.t.items():
            x = c
            for v, e in m:
                x = x * env[v] ** e
            r += x
        return r


def _mono_order(m):
    return (sum(e for _, e in m), m)


def exact_div(a, b):
    """a / b if exact (as free polynomials), else None"""
    if b.is_zero():
        return None
    if b.is_const():
        return a.scale(Fraction(1) / b.const_value())
    if not b.vars() <= a.vars():
        return None
    q = {}
    lb = b.lead()
    cb = b.t[lb]
    dlb = dict(lb)
    r = a
    n = 0
    while r.t:
        n += 1
        if n > 400:
            return None
        lm = r.lead()
        dl = dict(lm)
        for v, e in dlb.items():
            if dl.get(v, 0) < e:
                return None
        qm = []
        for v, e in lm:
            e2 = e - dlb.get(v, 0)
            if e2:
                qm.append((v, e2))
        qm = tuple(qm)
        c = norm_coef(Fraction(r.t[lm]) / cb)
        q[qm] = c
        sub = {}
        for m, cc in b.t.items():
            sub[_mul_mono(m, qm)] = cc * c
        r = r - Poly(sub)
    return Poly(q)


# -- sympy backed gcd / factorisation (cached) --------------------------
_gcd_cache = {}
_fac_cache = {}


def _to_ring(polys):
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ

    vs = sorted(set().union(*[p.vars() for p in polys]))
    R, *gens = ring([f"v{v}" for v in vs], QQ)
    idx = {v: i for i, v in enumerate(vs)}
    n = len(vs)
    out = []
    for p in polys:
        d = {}
        for m, c in p.t.items():
            e = [0] * n
            for v, k in m:
                e[idx[v]] = k
            f = Fraction(c)
            d[tuple(e)] = QQ(f.numerator, f.denominator)
        out.append(R.from_dict(d))
    return R, vs, out


def _from_ring(vs, f):
    t = {}
    for e, c in f.terms():
        m = tuple((vs[i], k) for i, k in enumerate(e) if k)
        t[m] = norm_coef(Fraction(int(c.numerator), int(c.denominator)))
    return Poly(t)


def cancel(num, den):
    """cancel common polynomial factors of num/den"""
    k = (num.key(), den.key())
    r = _gcd_cache.get(k)
    if r is not None:
        return r
    if len(num) * len(den) > 3000 or not (num.vars() & den.vars()):
        r = (num, den)
    else:
        R, vs, (a, b) = _to_ring([num, den])
        g, a1, b1 = a.cofactors(b)
        if g.is_ground:
            r = (num, den)
        else:
            r = (_from_ring(vs, a1), _from_ring(vs, b1))
    if len(_gcd_cache) > 20000:
        _gcd_cache.clear()
    _gcd_cache[k] = r
    return r


def square_part(p):
    """p = c * q^2 * r with rational c>0 or <0, q, r polynomials, r square-free (or 1). -> (c, [qs], r)"""
    k = p.key()
    r = _fac_cache.get(k)
    if r is not None:
        return r
    mono = p.content_monomial()
    if len(p) > 60:
        kk, s, prim = p.primitive()
        r = (s * kk, [], prim)
    elif p.is_const():
        r = (Fraction(p.const_value()), [], Poly.const(1))
    elif len(p) == 1:
        c = next(iter(p.t.values()))
        qs = [(Poly.var(v), e // 2) for v, e in mono if e >= 2]
        rest = Poly({tuple((v, 1) for v, e in mono if e % 2): 1})
        r = (Fraction(c), qs, rest)
    else:
        R, vs, (a,) = _to_ring([p])
        c, fl = a.factor_list()
        c = Fraction(int(c.numerator), int(c.denominator))
        qs = []
        rest = Poly.const(1)
        for f, e in fl:
            fp = _from_ring(vs, f)
            kk, s, prim = fp.primitive()
            c *= (s * kk) ** e
            if e >= 2:
                qs.append((prim, e // 2))
            if e % 2:
                rest = rest.mul(prim, {})
        r = (c, qs, rest)
    if len(_fac_cache) > 20000:
        _fac_cache.clear()
    _fac_cache[k] = r
    return r


def rat_sqrt(c):
    """exact rational sqrt of Fraction c>=0 as (outer, inner) with c = outer^2 * inner, inner int square-ish free"""
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    sn = isqrt(n)
    sd = isqrt(d)
    if sn * sn == n and sd * sd == d:
        return Fraction(sn, sd), 1
    # c = n*d/d^2
    m = n * d
    outer = Fraction(1, d)
    f = 2
    while f * f <= m and f < 2000:
        while m % (f * f) == 0:
            m //= f * f
            outer *= f
        f += 1
    s = isqrt(m)
    if s * s == m:
        return outer * s, 1
    return outer, m
