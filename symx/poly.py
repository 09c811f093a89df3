"""Exact multivariate polynomials and rational functions over named generators.

Coefficients are exact rationals; every IEEE double that the code under test
produces as a constant enters as the exact rational it denotes.  Monomials are
packed integers (EB bits of exponent per generator), so that multiplying
monomials is integer addition.
"""
from __future__ import annotations

from fractions import Fraction
from math import gcd

EB = 14
EMASK = (1 << EB) - 1


class Unsupported(Exception):
    """The engine cannot encode what the code under test does."""


class Gens:
    """Registry of generators (per process; reset between obligations)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.names = []
        self.bounds = []       # (lo, hi) Fractions or None
        self.index = {}
        self.alg = {}          # gen index -> (degree k, Poly rhs) meaning g**k == rhs
        self.algmask = 0
        self.info = []         # description for opaque generators
        self.opaque_key = {}
        self.facts = []        # extra (Poly, op) constraints known about opaque gens
        self.counter = 0

    def new(self, name, lo=None, hi=None, info=None):
        if name in self.index:
            raise ValueError(f"generator {name} exists")
        i = len(self.names)
        self.names.append(name)
        self.bounds.append((None if lo is None else Fraction(lo),
                            None if hi is None else Fraction(hi)))
        self.index[name] = i
        self.info.append(info)
        return i


GENS = Gens()


def mono_items(m):
    """Yield (gen, exp) of a packed monomial."""
    i = 0
    while m:
        e = m & EMASK
        if e:
            yield i, e
        m >>= EB
        i += 1


def mono_divides(a, b):
    """Whether monomial a divides b."""
    while a:
        if (a & EMASK) > (b & EMASK):
            return False
        a >>= EB
        b >>= EB
    return True


class Poly:
    __slots__ = ("_key", "d", "n")

    def __init__(self, n, d=1):
        self.n = n      # dict packed monomial -> int
        self.d = d      # positive int
        self._key = None

    # -- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        if not c:
            return Poly({}, 1)
        return Poly({0: c.numerator}, c.denominator)

    @staticmethod
    def gen(i):
        return Poly({1 << (EB * i): 1}, 1)

    # -- queries
    def is_zero(self):
        return not self.n

    def is_const(self):
        n = self.n
        return not n or (len(n) == 1 and 0 in n)

    def const_value(self):
        return Fraction(self.n.get(0, 0), self.d)

    def key(self):
        k = self._key
        if k is None:
            self.reduce()
            k = self._key = (self.d, frozenset(self.n.items()))
        return k

    def reduce(self):
        if self.d != 1:
            g = self.d
            for v in self.n.values():
                g = gcd(g, v)
                if g == 1:
                    return self
            self.n = {k: v // g for k, v in self.n.items()}
            self.d //= g
        return self

    def gens(self):
        r = 0
        for m in self.n:
            r |= m
        return {i for i, _ in mono_items(r)}

    def degree(self, gi=None):
        if gi is None:
            return max((sum(e for _, e in mono_items(m)) for m in self.n), default=0)
        s = EB * gi
        return max(((m >> s) & EMASK for m in self.n), default=0)

    def terms(self):
        for m, v in self.n.items():
            yield m, Fraction(v, self.d)

    # -- arithmetic
    def __neg__(self):
        return Poly({k: -v for k, v in self.n.items()}, self.d)

    def __add__(self, o):
        if not self.n:
            return o
        if not o.n:
            return self
        if self.d == o.d:
            if len(self.n) < len(o.n):
                a, b = o, self
            else:
                a, b = self, o
            r = dict(a.n)
            for k, v in b.n.items():
                t = r.get(k)
                if t is None:
                    r[k] = v
                else:
                    t += v
                    if t:
                        r[k] = t
                    else:
                        del r[k]
            return _norm(Poly(r, a.d))
        g = gcd(self.d, o.d)
        f1 = o.d // g
        f2 = self.d // g
        r = {k: v * f1 for k, v in self.n.items()}
        for k, v in o.n.items():
            t = r.get(k, 0) + v * f2
            if t:
                r[k] = t
            else:
                del r[k]
        return _norm(Poly(r, self.d * f1))

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.n) > len(o.n):
            a, b = o.n, self.n
        else:
            a, b = self.n, o.n
        r = {}
        if len(a) == 1:
            (k1, v1), = a.items()
            r = {k1 + k: v1 * v for k, v in b.items()}
        else:
            get = r.get
            for k1, v1 in a.items():
                for k2, v2 in b.items():
                    k = k1 + k2
                    r[k] = get(k, 0) + v1 * v2
            r = {k: v for k, v in r.items() if v}
        p = _norm(Poly(r, self.d * o.d))
        if GENS.algmask:
            p = reduce_alg(p)
        return p

    def scale(self, c):
        c = Fraction(c)
        if not c:
            return Poly({}, 1)
        cn, cd = c.numerator, c.denominator
        return _norm(Poly({k: v * cn for k, v in self.n.items()}, self.d * cd))

    def __pow__(self, e):
        r = Poly.const(1)
        b = self
        while e:
            if e & 1:
                r = r * b
            e >>= 1
            if e:
                b = b * b
        return r

    # -- calculus / substitution
    def diff(self, gi):
        s = EB * gi
        one = 1 << s
        r = {}
        for m, v in self.n.items():
            e = (m >> s) & EMASK
            if e:
                r[m - one] = v * e
        return Poly(r, self.d)

    def coeff(self, gi, k):
        """Coefficient of gi**k."""
        sh = EB * gi
        out = {}
        for m, c in self.n.items():
            if (m >> sh) & EMASK == k:
                out[m - (k << sh)] = c
        return Poly(out, self.d).reduce()

    def subs(self, mapping):
        """mapping: gen index -> Poly (simultaneous)."""
        res = Poly({}, 1)
        powers = {}

        def pw(gi, e):
            t = powers.get((gi, e))
            if t is None:
                t = mapping[gi] if e == 1 else pw(gi, e - 1) * mapping[gi]
                powers[gi, e] = t
            return t

        # group by the non-substituted part
        for m, v in self.n.items():
            rest = m
            t = None
            for gi, e in mono_items(m):
                if gi in mapping:
                    rest -= e << (EB * gi)
                    f = pw(gi, e)
                    t = f if t is None else t * f
            p = Poly({rest: v}, self.d)
            if t is not None:
                p = p * t
            res = res + p
        return res

    def eval(self, values):
        """values: gen index -> Fraction/float."""
        tot = 0
        for m, v in self.n.items():
            t = Fraction(v, self.d)
            for gi, e in mono_items(m):
                t = t * values[gi] ** e
            tot += t
        return tot

    def exact_div(self, o):
        """self / o if exact, else None (lexicographic on packed ints)."""
        if not o.n:
            raise ZeroDivisionError
        if not self.n:
            return self
        if o.is_const():
            return self.scale(1 / o.const_value())
        lm = max(o.n)
        lc = Fraction(o.n[lm], o.d)
        # quick reject: degrees per generator
        for gi in o.gens():
            if self.degree(gi) < o.degree(gi):
                return None
        oterms = [(m, Fraction(v, o.d) / lc) for m, v in o.n.items() if m != lm]
        # clear: divide by monic version, with integer arithmetic on a common denom
        den = 1
        for _, c in oterms:
            den = den * c.denominator // gcd(den, c.denominator)
        if den == 1:
            ot = [(m, c.numerator) for m, c in oterms]
            rem = dict(self.n)
            q = {}
            while rem:
                m = max(rem)
                if not mono_divides(lm, m):
                    return None
                v = rem.pop(m)
                qm = m - lm
                q[qm] = v
                for om, oc in ot:
                    k = om + qm
                    t = rem.get(k, 0) - v * oc
                    if t:
                        rem[k] = t
                    else:
                        rem.pop(k, None)
            return Poly(q, self.d).scale(1 / lc)
        rem = {m: Fraction(v, self.d) for m, v in self.n.items()}
        q = {}
        while rem:
            m = max(rem)
            if not mono_divides(lm, m):
                return None
            v = rem.pop(m)
            qm = m - lm
            q[qm] = v
            for om, oc in oterms:
                k = om + qm
                t = rem.get(k, 0) - v * oc
                if t:
                    rem[k] = t
                else:
                    rem.pop(k, None)
        return from_fracs(q).scale(1 / lc)

    def monic(self):
        """Return (unit, p) with self == unit * p, p primitive integer with
        positive leading coefficient."""
        g = 0
        for v in self.n.values():
            g = gcd(g, v)
        lm = max(self.n)
        if self.n[lm] < 0:
            g = -g
        return Fraction(g, self.d), Poly({k: v // g for k, v in self.n.items()}, 1)

    def __repr__(self):
        out = []
        for m, v in sorted(self.n.items()):
            c = Fraction(v, self.d)
            f = "*".join(GENS.names[i] + (f"**{e}" if e > 1 else "")
                         for i, e in mono_items(m))
            cs = str(c) if c.denominator < 10**6 else f"{float(c):.6g}"
            out.append(f"{cs}*{f}" if f else cs)
        s = " + ".join(out[:12]) or "0"
        return s + (f" + ...[{len(out)} terms]" if len(out) > 12 else "")


def _norm(p):
    if p.d != 1 and p.d.bit_length() > 120:
        p.reduce()
    return p


def from_fracs(q):
    d = 1
    for c in q.values():
        d = d * c.denominator // gcd(d, c.denominator)
    return Poly({m: c.numerator * (d // c.denominator) for m, c in q.items() if c}, d)


def reduce_alg(p):
    """Apply the rewriting rules g**k -> rhs of algebraic generators."""
    while True:
        hit = None
        for m in p.n:
            if m & GENS.algmask:
                for gi, e in mono_items(m & GENS.algmask_full):
                    rule = GENS.alg.get(gi)
                    if rule and e >= rule[0]:
                        hit = gi
                        break
            if hit is not None:
                break
        if hit is None:
            return p
        k, rhs = GENS.alg[hit]
        s = EB * hit
        keep = {}
        groups = {}
        for m, v in p.n.items():
            e = (m >> s) & EMASK
            if e >= k:
                q, r = divmod(e, k)
                groups.setdefault(q, {})[m - ((q * k) << s)] = v
            else:
                keep[m] = v
        res = Poly(keep, p.d)
        for q, g in groups.items():
            t = Poly(g, p.d)
            f = Poly.const(1)
            for _ in range(q):
                f = _mul_raw(f, rhs)
            res = res + _mul_raw(t, f)
        p = res


def _mul_raw(a, b):
    r = {}
    for k1, v1 in a.n.items():
        for k2, v2 in b.n.items():
            k = k1 + k2
            r[k] = r.get(k, 0) + v1 * v2
    return _norm(Poly({k: v for k, v in r.items() if v}, a.d * b.d))


def add_alg(gi, k, rhs):
    GENS.alg[gi] = (k, rhs)
    GENS.algmask |= (EMASK ^ 1 if k == 2 else EMASK) << (EB * gi)
    GENS.algmask_full = 0
    for g in GENS.alg:
        GENS.algmask_full |= EMASK << (EB * g)


ONE = Poly.const(1)
ZERO = Poly.const(0)


class Rat:
    """num / prod(factor**e); factors primitive non-constant polynomials."""

    __slots__ = ("den", "num")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}      # key -> (Poly, exp)

    @staticmethod
    def const(c):
        return Rat(Poly.const(c))

    def is_const(self):
        return not self.den and self.num.is_const()

    def const_value(self):
        return self.num.const_value()

    def is_zero(self):
        return self.num.is_zero()

    def __neg__(self):
        return Rat(-self.num, self.den)

    def __add__(self, o):
        if self.num.is_zero():
            return o
        if o.num.is_zero():
            return self
        if not self.den and not o.den:
            return Rat(self.num + o.num)
        if self.den == o.den or _same(self.den, o.den):
            return _cancel(self.num + o.num, self.den)
        lcm = dict(self.den)
        for k, (p, e) in o.den.items():
            if k not in lcm or lcm[k][1] < e:
                lcm[k] = (p, e)
        n1, n2 = self.num, o.num
        for k, (p, e) in lcm.items():
            e1 = self.den.get(k, (None, 0))[1]
            e2 = o.den.get(k, (None, 0))[1]
            if e > e1:
                n1 = n1 * p ** (e - e1)
            if e > e2:
                n2 = n2 * p ** (e - e2)
        return _cancel(n1 + n2, lcm)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.den and not o.den:
            return Rat(self.num * o.num)
        if self.num.is_zero() or o.num.is_zero():
            return Rat(ZERO)
        # cross-cancel first, so that products stay small
        n1, d2 = _cancel_raw(self.num, o.den)
        n2, d1 = _cancel_raw(o.num, self.den)
        den = dict(d1)
        for k, (p, e) in d2.items():
            den[k] = (p, e + den[k][1]) if k in den else (p, e)
        num = n1 * n2
        if GENS.algmask:
            return _cancel(num, den)
        return Rat(num, den)

    def inv(self):
        if self.num.is_zero():
            raise ZeroDivisionError("symbolic division by zero")
        num = ONE
        for p, e in self.den.values():
            num = num * p ** e
        if self.num.is_const():
            return Rat(num.scale(1 / self.num.const_value()))
        unit, parts = factor_light(self.num)
        num = num.scale(1 / unit)
        den = {}
        for p, e in parts:
            k = p.key()
            den[k] = (p, e + (den[k][1] if k in den else 0))
        return _cancel(num, den)

    def __truediv__(self, o):
        if o.is_const():
            c = o.const_value()
            if not c:
                raise ZeroDivisionError("symbolic division by zero")
            return Rat(self.num.scale(1 / c), self.den)
        return self * o.inv()

    def __pow__(self, e):
        if e < 0:
            return (self ** (-e)).inv()
        return Rat(self.num ** e, {k: (p, x * e) for k, (p, x) in self.den.items()}
                   if e else {})

    def diff(self, gi):
        # (n/d)' = n'/d - n d'/d^2, term by term over the factors
        r = Rat(self.num.diff(gi), self.den)
        r = _cancel(r.num, r.den)
        for p, e in self.den.values():
            dp = p.diff(gi)
            if dp.is_zero():
                continue
            r = r - Rat(self.num.scale(e), self.den) * Rat(dp) * Rat(p).inv()
        return r

    def subs(self, mapping):
        """mapping gen -> Rat."""
        if all(not v.den for v in mapping.values()):
            pm = {k: v.num for k, v in mapping.items()}
            r = Rat(self.num.subs(pm))
            for p, e in self.den.values():
                r = r / Rat(p.subs(pm)) ** e
            return r
        r = _subs_rat(self.num, mapping)
        for p, e in self.den.values():
            r = r / _subs_rat(p, mapping) ** e
        return r

    def eval(self, values):
        v = self.num.eval(values)
        for p, e in self.den.values():
            v = v / p.eval(values) ** e
        return v

    def key(self):
        return (self.num.key(), frozenset((k, e) for k, (_, e) in self.den.items()))

    def gens(self):
        g = self.num.gens()
        for p, _ in self.den.values():
            g |= p.gens()
        return g

    def __repr__(self):
        if not self.den:
            return repr(self.num)
        return f"({self.num!r}) / " + " ".join(
            f"({p!r})^{e}" for p, e in self.den.values())


def _subs_rat(p, mapping):
    r = Rat(ZERO)
    for m, v in p.n.items():
        t = Rat(Poly({0: v}, p.d))
        for gi, e in mono_items(m):
            t = t * (mapping[gi] if gi in mapping else Rat(Poly.gen(gi))) ** e
        r = r + t
    return r


def _same(a, b):
    if len(a) != len(b):
        return False
    return all(k in b and b[k][1] == e for k, (_, e) in a.items())


def _cancel_raw(num, den):
    if not den or num.is_zero():
        return num, (den if not num.is_zero() else {})
    out = {}
    for k, (p, e) in den.items():
        while e:
            q = num.exact_div(p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out[k] = (p, e)
    return num, out


def _cancel(num, den):
    return Rat(*_cancel_raw(num, den))


def factor_light(p):
    """Split off monomial content; returns unit and [(factor, exp)]."""
    unit, q = p.monic()
    parts = []
    common = None
    for m in q.n:
        if common is None:
            common = dict(mono_items(m))
        else:
            mm = dict(mono_items(m))
            common = {g: min(e, mm[g]) for g, e in common.items() if g in mm}
        if not common:
            break
    if common:
        sh = 0
        for g, e in common.items():
            parts.append((Poly.gen(g), e))
            sh += e << (EB * g)
        q = Poly({m - sh: v for m, v in q.n.items()}, 1)
    if not q.is_const():
        parts.append((q, 1))
    else:
        unit *= q.const_value()
    return unit, parts
