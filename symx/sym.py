"""Symbolic reals (Sym) that flow through the unmodified code under test, the
path condition (Ctx), and the proxies that stand in for numpy/math while the
code runs on symbolic values."""
from __future__ import annotations

import builtins
import ctypes
import gc
import math
import numbers
import types
import operator
import sys
from contextlib import contextmanager
from fractions import Fraction

import numpy as np

from .poly import (EB, GENS, ONE, ZERO, Poly, Rat, Unsupported, add_alg, factor_light,
                   mono_items)

_REAL = (int, float, Fraction, np.integer, np.floating)


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported(f"non-finite constant {x} meets a symbolic value")
    return Fraction(x)


class PathInfeasible(BaseException):
    pass


class Ctx:
    """Path condition and decisions of the current symbolic run."""

    def __init__(self, decisions=(), stats=None, feas_timeout=2000):
        self.prefix = list(decisions)
        self.taken = []          # (bool, forked?)
        self.path = []           # (Poly, op) all true on this path
        self.assumed = []        # assumptions (subset of path, for reports)
        self.dens = []           # (Rat, kind)
        self.den_ids = {}
        self.stats = stats if stats is not None else {}
        self.feas_timeout = feas_timeout
        self.max_branches = 4000
        self.cache = {}
        self.factor_sqrt = False
        self.generic = None      # gen -> value: branches follow this point

    def den(self, r, kind):
        k = (r.key(), kind)
        i = self.den_ids.get(k)
        if i is None:
            i = self.den_ids[k] = len(self.dens)
            self.dens.append((r, kind))
        return i

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def branch(self, poly, op):
        """Decide `poly op 0`; forks when both outcomes are feasible."""
        if self.generic is not None and poly.gens() <= self.generic.keys():
            v = poly.eval(self.generic)
            return {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0,
                    "eq": v == 0, "ne": v != 0}[op]
        from .solve import feasible, sign_interval
        s = sign_interval(poly, self)
        d = decide_by_sign(op, s)
        if d is not None:
            return d
        poly = strip_positive(poly)
        ck = (poly.key(), op)
        if ck in self.cache:
            return self.cache[ck]
        i = len(self.taken)
        if i >= self.max_branches:
            raise Unsupported("too many symbolic branches on one path")
        if i < len(self.prefix):
            val, forked = self.prefix[i]
        else:
            t = feasible(self, [(poly, op)])
            if t is False:
                val, forked = False, False
            else:
                f = feasible(self, [(poly, NEG[op])])
                if f is False:
                    val, forked = True, False
                else:
                    val, forked = True, True
        self.taken.append((val, forked))
        self.path.append((poly, op if val else NEG[op]))
        self.cache[ck] = val
        return val


def strip_positive(p):
    """p without monomial factors known to be positive (same sign as p)."""
    common = None
    for m in p.n:
        ex = {g: e for g, e in mono_items(m)}
        if common is None:
            common = {g: e for g, e in ex.items()
                      if GENS.bounds[g][0] is not None and GENS.bounds[g][0] > 0}
        else:
            common = {g: min(e, ex.get(g, 0)) for g, e in common.items()}
        if not any(common.values()):
            return p
    f = 0
    for g, e in (common or {}).items():
        f += e << (EB * g)
    return Poly({m - f: v for m, v in p.n.items()}, p.d) if f else p


NEG = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}


def decide_by_sign(op, s):
    """s: (lo, hi) with None for unbounded."""
    lo, hi = s
    if op == "lt":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "le":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    elif op == "gt":
        r = decide_by_sign("le", s)
        return None if r is None else not r
    elif op == "ge":
        r = decide_by_sign("lt", s)
        return None if r is None else not r
    elif op in ("eq", "ne"):
        r = None
        if lo is not None and hi is not None and lo == hi == 0:
            r = True
        elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
            r = False
        if r is not None:
            return r if op == "eq" else not r
    return None


CTX: Ctx | None = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


EMPTY = frozenset()


class SymBool:
    __slots__ = ("op", "poly")

    def __init__(self, poly, op):
        self.poly = poly
        self.op = op

    def __bool__(self):
        if self.poly.is_const():
            v = self.poly.const_value()
            return {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0,
                    "eq": v == 0, "ne": v != 0}[self.op]
        return ctx().branch(self.poly, self.op)

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __invert__(self):
        return SymBool(self.poly, NEG[self.op])

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"SymBool({self.poly!r} {self.op} 0)"


def _cmp(r, op):
    """Comparison of rational function r with 0."""
    p = r.num
    for q, e in r.den.values():
        if e % 2:
            p = p * q
    if p.is_const():
        return bool(SymBool(p, op))
    return SymBool(p, op)


def _obj0(x):
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return np.asarray(x, dtype=object)


def _arr_op(ufunc, a, b):
    a, b = np.broadcast_arrays(_obj0(a), _obj0(b))
    out = np.empty(a.shape, dtype=object)
    op = _PYOP[ufunc]
    for i in np.ndindex(out.shape):
        out[i] = op(a[i], b[i])
    return out if out.shape else out[()]


_PYCMP = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
          "eq": operator.eq, "ne": operator.ne}
_PYOP = {np.add: operator.add, np.subtract: operator.sub, np.multiply: operator.mul,
         np.true_divide: operator.truediv, np.power: operator.pow, np.less: operator.lt,
         np.less_equal: operator.le, np.greater: operator.gt,
         np.greater_equal: operator.ge, np.equal: operator.eq,
         np.not_equal: operator.ne}


def _nonfinite(o):
    return isinstance(o, (float, np.floating)) and not math.isfinite(o)


class Sym:
    __slots__ = ("r", "t")
    __array_priority__ = 1000.0

    def __init__(self, r, t=EMPTY):
        if not isinstance(r, Rat):
            r = Rat.const(to_fraction(r))
        self.r = r
        self.t = t

    # numpy-scalar-like interface
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(Rat.const(0))

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def reshape(self, *shape):
        a = np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)

    def is_const(self):
        return self.r.is_const()

    # arithmetic
    def _co(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, _REAL):
            return Sym(Rat.const(to_fraction(o)))
        if isinstance(o, (bool, np.bool_)):
            return Sym(Rat.const(int(o)))
        if isinstance(o, SymBool):
            return Sym(Rat.const(int(bool(o))))
        if isinstance(o, complex):
            if o.imag == 0:
                return Sym(Rat.const(to_fraction(o.real)))
            raise Unsupported("complex constant")
        if isinstance(o, np.ndarray) and o.shape == () and o.dtype != object:
            return self._co(o[()])
        return None

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.add, self, o)
        if _nonfinite(o) and self.is_const():
            a, b = np.float64(self.r.const_value()), np.float64(o)
            return a + b
        o = self._co(o)
        if o is None:
            return NotImplemented
        return Sym(self.r + o.r, self.t | o.t)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.subtract, self, o)
        if _nonfinite(o) and self.is_const():
            a, b = np.float64(self.r.const_value()), np.float64(o)
            return a - b
        o = self._co(o)
        if o is None:
            return NotImplemented
        return Sym(self.r - o.r, self.t | o.t)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.subtract, o, self)
        if _nonfinite(o) and self.is_const():
            a, b = np.float64(self.r.const_value()), np.float64(o)
            return b - a
        o = self._co(o)
        if o is None:
            return NotImplemented
        return Sym(o.r - self.r, self.t | o.t)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.multiply, self, o)
        if _nonfinite(o) and self.is_const():
            a, b = np.float64(self.r.const_value()), np.float64(o)
            return a * b
        o = self._co(o)
        if o is None:
            return NotImplemented
        return Sym(self.r * o.r, self.t | o.t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.true_divide, self, o)
        if _nonfinite(o) and self.is_const():
            a, b = np.float64(self.r.const_value()), np.float64(o)
            return a / b
        o = self._co(o)
        if o is None:
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.true_divide, o, self)
        if _nonfinite(o) and self.is_const():
            a, b = np.float64(self.r.const_value()), np.float64(o)
            return b / a
        o = self._co(o)
        if o is None:
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        raise Unsupported("floor division of a symbolic real")

    __rfloordiv__ = __mod__ = __rmod__ = __floordiv__

    def __neg__(self):
        return Sym(-self.r, self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.is_const():
            return Sym(Rat.const(abs(self.r.const_value())), self.t)
        if bool(self >= 0):
            return self
        return -self

    def __pow__(self, e):
        if isinstance(e, Sym):
            if e.is_const():
                e = e.r.const_value()
            elif self.is_const() and self.r.const_value() == 2 and exp2_able(e):
                return exp2(e)
            elif self.is_const() and self.r.const_value() > 0:
                return const_pow(self.r.const_value(), e)
            else:
                raise Unsupported("symbolic exponent")
        if isinstance(e, np.ndarray):
            return _arr_op(np.power, self, e)
        e = to_fraction(e)
        if e.denominator == 1:
            e = int(e)
            if e >= 0:
                return Sym(self.r ** e, self.t)
            return 1 / (self ** (-e))
        if e.denominator == 2:
            n = e.numerator
            s = sqrt(self)
            return s ** n
        raise Unsupported(f"power {e}")

    def __rpow__(self, b):
        if isinstance(b, np.ndarray):
            return _arr_op(np.power, b, self)
        b = self._co(b)
        if b is None:
            return NotImplemented
        return b ** self

    # comparisons
    def __lt__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.less, self, o)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return bool(_PYCMP["lt"](0.0, o))     # the value is a real number
        o = self._co(o)
        return NotImplemented if o is None else _cmp((self.r - o.r), "lt")

    def __le__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.less_equal, self, o)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return bool(_PYCMP["le"](0.0, o))     # the value is a real number
        o = self._co(o)
        return NotImplemented if o is None else _cmp((self.r - o.r), "le")

    def __gt__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.greater, self, o)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return bool(_PYCMP["gt"](0.0, o))     # the value is a real number
        o = self._co(o)
        return NotImplemented if o is None else _cmp((self.r - o.r), "gt")

    def __ge__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.greater_equal, self, o)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return bool(_PYCMP["ge"](0.0, o))     # the value is a real number
        o = self._co(o)
        return NotImplemented if o is None else _cmp((self.r - o.r), "ge")

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.equal, self, o)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return bool(_PYCMP["eq"](0.0, o))     # the value is a real number
        o = self._co(o)
        return NotImplemented if o is None else _cmp((self.r - o.r), "eq")

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return _arr_op(np.not_equal, self, o)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return bool(_PYCMP["ne"](0.0, o))     # the value is a real number
        o = self._co(o)
        return NotImplemented if o is None else _cmp((self.r - o.r), "ne")

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(self.r.const_value())
        raise Unsupported("concrete float required of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.r.const_value())
        raise Unsupported("concrete int required of a symbolic value")

    def __index__(self):
        if self.is_const() and self.r.const_value().denominator == 1:
            return int(self.r.const_value())
        raise Unsupported("concrete index required of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if self.is_const():
            return round(float(self), n)
        raise Unsupported("round")

    # methods numpy's object loops look for
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return opaque1("exp", self)

    def log(self):
        return opaque1("log", self)

    def cos(self):
        return opaque1("cos", self)

    def sin(self):
        return opaque1("sin", self)

    def arccos(self):
        return opaque1("arccos", self)

    def arcsin(self):
        return opaque1("arcsin", self)

    def arctanh(self):
        return opaque1("arctanh", self)

    def tanh(self):
        return opaque1("tanh", self)

    def log10(self):
        return opaque1("log10", self)

    def log2(self):
        return opaque1("log2", self)

    def square(self):
        return self * self

    def rint(self):
        raise Unsupported("rint")

    floor = ceil = rint

    def sign(self):
        if bool(self > 0):
            return Sym(1)
        if bool(self < 0):
            return Sym(-1)
        return Sym(0)

    def hypot(self, o):
        return sqrt(self * self + o * o)

    def __repr__(self):
        return f"<{self.r!r}>"

    def __format__(self, spec):
        return repr(self)


numbers.Real.register(Sym)


def _div(a, b):
    if b.is_const():
        c = b.r.const_value()
        if not c:
            if a.is_const() and not a.r.const_value():
                raise Unsupported("0/0")
            raise Unsupported("division by constant zero")
        return Sym(a.r / b.r, a.t | b.t)
    t = a.t | b.t | {ctx().den(Rat(b.r.num), "nz")}
    if ctx().factor_sqrt:
        mul, p = _rationalise(b.r.num)
        num = a.r * mul.r
        for q, e in b.r.den.values():
            num = num * Rat(q) ** e
        _, parts = factor_full(p)
        c = p
        for q, e in parts:
            num = num / Rat(q) ** e
            c = c.exact_div(q ** e)
        return Sym(num / Rat(c), t)
    return Sym(a.r / b.r, t)


def const(c):
    return Sym(Rat.const(to_fraction(c)))


def var(name, lo=None, hi=None):
    i = GENS.new(name, lo, hi)
    return Sym(Rat(Poly.gen(i)))


def opaque(key, name, lo=None, hi=None, info=None):
    """One generator per canonical key."""
    i = GENS.opaque_key.get(key)
    if i is None:
        GENS.counter += 1
        i = GENS.new(f"{name}#{GENS.counter}", lo, hi, info)
        GENS.opaque_key[key] = i
    return i


OPAQUE_NUM = {}     # name -> numeric function for evaluating models
BOUNDS1 = {"exp": (0, None), "cos": (-1, 1), "sin": (-1, 1),
           "arccos": (0, 4), "arcsin": (-2, 2), "tanh": (-1, 1),
           "arctanh": (None, None), "log": (None, None), "log10": (None, None),
           "log2": (None, None)}


ODD = ("sin", "arcsin", "tanh", "arctanh")


def opaque1(name, x, t=EMPTY):
    if x.is_const():
        v = getattr(np, name)(float(x.r.const_value()))
        return const(float(v))
    if name in ODD or name == "cos":
        m = max(x.r.num.n)
        if x.r.num.n[m] < 0:
            y = opaque1(name, -x, t)
            return -y if name in ODD else y
    lo, hi = BOUNDS1.get(name, (None, None))
    i = opaque((name, x.r.key()), name, lo, hi, (name, x.r))
    return Sym(Rat(Poly.gen(i)), x.t)


# derivative rules: (argument, value) -> derivative
DERIVATIVE = {
    "sqrt": lambda a, y: 1 / (2 * y),
    "exp": lambda a, y: y,
    "log": lambda a, y: 1 / a,
    "sin": lambda a, y: opaque1("cos", a),
    "cos": lambda a, y: -opaque1("sin", a),
    "tanh": lambda a, y: 1 - y * y,
    "arcsin": lambda a, y: 1 / sqrt(1 - a * a),
    "arccos": lambda a, y: -1 / sqrt(1 - a * a),
    "arctanh": lambda a, y: 1 / (1 - a * a),
}


def _isqrt_frac(c):
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def sqrt(x):
    if not isinstance(x, Sym):
        return const(math.sqrt(x))
    if x.is_const():
        c = x.r.const_value()
        if c < 0:
            raise Unsupported("sqrt of a negative constant")
        s = _isqrt_frac(c)
        if s is None and CTX is not None and CTX.factor_sqrt:
            return _sqrt_const(c)
        return Sym(Rat.const(s if s is not None else Fraction(math.sqrt(c))), x.t)
    if ctx().factor_sqrt:
        return _sqrt_factored(x)
    # sqrt(n/d) = sqrt(n*d)/d ; keep factored: pull even powers out
    t = x.t | {ctx().den(x.r, "ge0")}
    num = x.r.num
    unit, parts = factor_light(num)
    if unit < 0:
        unit = -unit
        parts.append((Poly.const(-1), 1))
    s = _isqrt_frac(unit)
    outside = Rat.const(s if s is not None else Fraction(math.sqrt(unit)))
    inside = ONE
    for p, e in parts:
        if e // 2:
            # sqrt(p^2) = |p|; decide the sign
            sg = _cmp(Rat(p), "ge")
            q = p if bool(sg) else -p
            outside = outside * Rat(q) ** (e // 2)
        if e % 2:
            inside = inside * p
    for p, e in x.r.den.values():
        # 1/p^e
        h = (e + 1) // 2
        sg = _cmp(Rat(p), "ge")
        q = p if bool(sg) else -p
        outside = outside / Rat(q) ** h
        if e % 2:
            inside = inside * p
    if inside.is_const():
        c = inside.const_value()
        s = _isqrt_frac(c) if c >= 0 else None
        if s is None:
            if c < 0:
                raise Unsupported("sqrt of a negative value")
            s = Fraction(math.sqrt(c))
        return Sym(outside * Rat.const(s), t)
    k = ("sqrt", inside.key())
    new = k not in GENS.opaque_key
    i = opaque(k, "sqrt", 0, None, ("sqrt", Rat(inside)))
    if new:
        add_alg(i, 2, inside)
    return Sym(outside * Rat(Poly.gen(i)), t)


def gamma(x):
    """Gamma function with Gamma(u+1) = u Gamma(u) normalisation."""
    if not isinstance(x, Sym):
        return math_orig["gamma"](x)
    if x.is_const():
        return const(math_orig["gamma"](float(x.r.const_value())))
    if x.r.den:
        raise Unsupported("gamma of a rational function")
    p = x.r.num
    from .solve import sign_interval
    lo, _ = sign_interval(p, None)
    # normal form: lower end of the argument's range in [1, 2)
    sh = math.floor(lo if lo is not None else p.const_value()) - 1
    base = Sym(x.r, x.t) - sh
    i = opaque(("gamma", base.r.key()), "gamma", *_gamma_bounds(base.r.num),
               ("gamma", base.r))
    g = Sym(Rat(Poly.gen(i)), x.t)
    if sh > 0:
        for j in range(sh):
            g = g * (base + j)
    else:
        for j in range(1, -sh + 1):
            g = g / (base - j)
    return g


# {{{ canonical square roots (ctx.factor_sqrt): one generator per irreducible factor

def _sqrt_atom(p):
    """sqrt of a nonnegative polynomial or prime, as one algebraic generator."""
    k = ("sqrt", p.key())
    new = k not in GENS.opaque_key
    lo = hi = None
    if p.is_const():
        f = Fraction(math.sqrt(p.const_value()))
        lo, hi = f * (1 - Fraction(1, 2**50)), f * (1 + Fraction(1, 2**50))
    else:
        from .solve import sign_interval
        a, b = sign_interval(p, None)
        lo = Fraction(math.sqrt(a) * (1 - 1e-12)) if a is not None and a > 0 else 0
        hi = Fraction(math.sqrt(b) * (1 + 1e-12)) if b is not None and b > 0 else None
    i = opaque(k, "sqrt", lo, hi, ("sqrt", Rat(p)))
    if new:
        add_alg(i, 2, p)
    return Sym(Rat(Poly.gen(i)))


def _sqrt_const(c):
    """Exact square root of a positive rational; big odd-power primes as one factor."""
    n = c.numerator * c.denominator
    out = const(Fraction(1, c.denominator))
    p = 2
    while p * p <= n and p < 5000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            out = out * p ** (e // 2)
            if e % 2:
                out = out * _sqrt_atom(Poly.const(p))
        p += 1 if p == 2 else 2
    if n > 1:
        r = math.isqrt(n)
        out = out * r if r * r == n else out * _sqrt_atom(Poly.const(n))
    return out


_FACTOR_CACHE = {}


def factor_full(p):
    """(unit, [(irreducible primitive factor, exponent)])"""
    unit, parts = factor_light(p)
    out = []
    for q, e in parts:
        if len(q.n) <= 2 or q.degree() <= 1:
            out.append((q, e))
            continue
        k = q.key()
        if k not in _FACTOR_CACHE:
            import sympy
            gens = sorted(q.gens())
            if len(gens) > 4 or q.degree() > 14 or len(q.n) > 400:
                raise Unsupported("factorisation of a large polynomial")
            xs = sympy.symbols(f"x0:{len(gens)}")
            from .poly import mono_items
            d = {}
            for m, c in q.terms():
                ee = dict(mono_items(m))
                d[tuple(ee.get(g, 0) for g in gens)] = sympy.Rational(c.numerator, c.denominator)
            u, fs = sympy.Poly(d, *xs).factor_list()
            r = []
            for f, fe in fs:
                t = ZERO
                for ee, c in f.terms():
                    mm = sum(x << (EB * g) for x, g in zip(ee, gens, strict=True))
                    t = t + Poly({mm: int(c.p)}, int(c.q))
                r.append((t, fe))
            _FACTOR_CACHE[k] = (Fraction(int(u.p), int(u.q)), r)
        u, r = _FACTOR_CACHE[k]
        unit *= u ** e
        out += [(f, fe * e) for f, fe in r]
    return unit, out


def _sqrt_factored(x):
    t = x.t | {ctx().den(x.r, "ge0")}
    unit, parts = factor_full(x.r.num)
    parts = list(parts)
    for p, e in x.r.den.values():
        u, ps = factor_full(p)
        unit /= u ** e
        parts += [(q, -f * e) for q, f in ps]
    exps = {}
    for p, e in parts:
        u, q = p.monic()
        # integer-primitive form with a positive leading coefficient
        unit *= u ** e
        k = q.key()
        exps[k] = (q, exps.get(k, (q, 0))[1] + e)
    out = const(1)
    for q, e in exps.values():
        if not e:
            continue
        if not bool(_cmp(Rat(q), "ge")):
            q = -q
            if e % 2:
                unit = -unit
        out = out * Sym(Rat(q)) ** (e // 2)
        if e % 2:
            out = out * _sqrt_atom(q)
    if unit < 0:
        raise Unsupported("sqrt of a negative value")
    return Sym((out * _sqrt_const(unit)).r, t)


def _rationalise(p):
    """p = (product of sqrt generators) * q: the multiplier 1/p as (Sym, q)."""
    _, parts = factor_light(p)
    mul = const(1)
    for q, e in parts:
        g = q.gens()
        if len(q.n) == 1 and len(g) == 1:
            gi, = g
            rule = GENS.alg.get(gi)
            if rule and rule[0] == 2:
                mul = mul * Sym(Rat(q)) ** e
                p = p.exact_div(q ** e) * rule[1] ** e
    return mul, p

# }}}


def _gamma_bounds(p):
    """Gamma is at least 0.885 on (0, oo) and at most its values at the ends."""
    from .solve import sign_interval
    lo, hi = sign_interval(p, None)
    if lo is None or lo <= 0:
        return (0, None) if lo is None or lo >= 0 else (None, None)
    if hi is None or hi > 50:
        return Fraction(7, 8), None
    up = max(math_orig["gamma"](float(lo)), math_orig["gamma"](float(hi)))
    return Fraction(7, 8), Fraction(up * (1 + 1e-9))


def exp2_able(x):
    return not x.r.den and all(m == 0 or c.denominator == 1 for m, c in x.r.num.terms())


def const_pow(b, e):
    """b**e for a positive constant, as an exponential (constant part split off)."""
    if e.r.den:
        raise Unsupported("power with a rational exponent")
    c = sum((c for m, c in e.r.num.terms() if m == 0), Fraction(0))
    rest = e - Sym(Rat.const(c))
    return const(float(b) ** float(c)) * opaque1("exp", rest * const(math_orig["log"](b)))


def exp2(x):
    if x.r.den:
        raise Unsupported("2**(rational function)")
    p = x.r.num
    res = const(1)
    for m, c in p.terms():
        if m == 0:
            if c.denominator == 1:
                res = res * Sym(Rat.const(Fraction(2) ** int(c)))
            else:
                res = res * const(2.0 ** float(c))
            continue
        if c.denominator != 1:
            raise Unsupported("2**(fractional coefficient)")
        from .solve import sign_interval
        lo, hi = sign_interval(Poly({m: 1}), None)
        lo = Fraction(2.0 ** float(lo) * (1 - 1e-9)) if lo is not None else 0
        hi = Fraction(2.0 ** float(hi) * (1 + 1e-9)) if hi is not None else None
        i = opaque(("exp2", m), "exp2", lo, hi, ("exp2", Rat(Poly({m: 1}))))
        res = res * Sym(Rat(Poly.gen(i))) ** int(c)
    return res


# {{{ patched numpy / math

math_orig = {k: getattr(math, k) for k in dir(math) if not k.startswith("_")}


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(v, Sym) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def to_float_array(x):
    """Object array of constants -> float array (None if not constant)."""
    a = np.asarray(x, dtype=object)
    out = np.empty(a.shape, dtype=np.float64)
    for i in np.ndindex(a.shape):
        v = a[i]
        if isinstance(v, Sym):
            if not v.is_const():
                return None
            v = float(v)
        try:
            out[i] = float(v)
        except (TypeError, ValueError):
            return None
    return out


def sym_array(x):
    a = np.array(x, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = a[i]
        out[i] = v if isinstance(v, Sym) else const(v)
    return out


def _is_float_dtype(dt):
    if dt is None:
        return True
    try:
        d = np.dtype(dt)
    except TypeError:
        return True
    return d.kind in "fcO"


def _filled(shape, value):
    a = np.empty(shape, dtype=object)
    c = const(value)
    for i in range(a.size):
        a.flat[i] = c
    return a


def _unary(name, fn):
    orig = getattr(np, name)

    def f(x, *args, **kwargs):
        if not has_sym(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                fa = to_float_array(x)
                if fa is not None:
                    x = fa
            return orig(x, *args, **kwargs)
        dest = kwargs.get("out", args[0] if args else None)
        if isinstance(dest, tuple):
            dest, = dest
        if (len(args) > 1 or set(kwargs) - {"where", "dtype", "out", "casting", "order"}
                or (dest is not None and dest.dtype != object)):
            raise Unsupported(f"np.{name} with extra arguments")
        where = kwargs.get("where", True)
        if isinstance(x, Sym) and dest is None and where is True:
            return fn(x)
        a = np.asarray(x, dtype=object)
        shape = a.shape if dest is None else dest.shape
        a = np.broadcast_to(a, shape)
        mask = None if where is True else np.broadcast_to(np.asarray(where), shape)
        out = np.full(shape, np.nan, dtype=object) if dest is None else dest
        for i in np.ndindex(shape):
            if mask is not None and not mask[i]:
                continue
            v = a[i]
            out[i] = orig(v) if _nonfinite(v) else fn(v if isinstance(v, Sym) else const(v))
        return out if dest is not None or out.shape else out[()]
    f.__name__ = name
    return f


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class _Float(float, metaclass=_FloatMeta):
    """The builtin float as seen by the code under test."""
    dtype = np.dtype(np.float64)

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.item()
        return x if isinstance(x, Sym) else float(x)


_ndarray_astype = np.ndarray.astype


def _astype(self, dtype, *args, **kw):
    """Symbolic entries stand for floats: a float dtype leaves them alone."""
    if self.dtype == object and self.size and np.dtype(dtype).kind in "fc" and has_sym(self):
        copy = kw.get("copy", args[3] if len(args) > 3 else True)
        return self.copy() if copy else self
    return _ndarray_astype(self, dtype, *args, **kw)


def _set_astype(fn):
    gc.get_referents(np.ndarray.__dict__)[0]["astype"] = fn
    ctypes.pythonapi.PyType_Modified(ctypes.py_object(np.ndarray))


class _Float64:
    """np.float64 both as a dtype and as a constructor."""
    dtype = np.dtype(np.float64)

    def __call__(self, x=0.0):
        return x if isinstance(x, Sym) else np.float64(x)

    def __eq__(self, o):
        return o is self or o is np.float64 or o == self.dtype

    def __hash__(self):
        return hash(np.float64)


class NPProxy:
    """numpy, with float allocations turned into arrays of symbolic constants
    and the elementary functions made aware of Sym."""

    def __init__(self):
        self.linalg = LAProxy()
        for name in ("sqrt", "exp", "log", "cos", "sin", "arccos", "arcsin", "arctanh",
                     "tanh", "log10", "log2"):
            setattr(self, name, _unary(name, getattr(Sym, name)))
        self.abs = self.absolute = self.fabs = _unary("abs", abs)
        self.isnan = _unary("isnan", lambda v: False)
        self.isinf = _unary("isinf", lambda v: False)
        self.isfinite = _unary("isfinite", lambda v: True)
        self.sign = _unary("sign", Sym.sign)
        self.real = _unary("real", lambda v: v)
        self.conj = self.conjugate = _unary("conj", lambda v: v)
        self.square = _unary("square", lambda v: v * v)
        self.asin = self.arcsin
        self.acos = self.arccos

    def __getattr__(self, name):
        return getattr(np, name)

    # allocation
    def zeros(self, shape, dtype=None, order="C", **kw):
        if _is_float_dtype(dtype):
            return _filled(shape, 0)
        return np.zeros(shape, dtype, order, **kw)

    def ones(self, shape, dtype=None, order="C", **kw):
        if _is_float_dtype(dtype):
            return _filled(shape, 1)
        return np.ones(shape, dtype, order, **kw)

    def empty(self, shape, dtype=None, order="C", **kw):
        if _is_float_dtype(dtype):
            return np.empty(shape, dtype=object)
        return np.empty(shape, dtype, order, **kw)

    def full(self, shape, fill_value, dtype=None, order="C", **kw):
        if _is_float_dtype(dtype):
            a = np.empty(shape, dtype=object)
            a[...] = fill_value if isinstance(fill_value, (Sym, np.ndarray)) \
                else const(fill_value)
            return a
        return np.full(shape, fill_value, dtype, order, **kw)

    def eye(self, N, M=None, k=0, dtype=float, **kw):   # noqa: N803
        if _is_float_dtype(dtype):
            return sym_array(np.eye(N, M, k))
        return np.eye(N, M, k, dtype=dtype, **kw)

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def _like(self, a, dtype):
        a = np.asarray(a) if not has_sym(a) else np.asarray(a, dtype=object)
        return a, _is_float_dtype(dtype if dtype is not None else a.dtype)

    def zeros_like(self, a, dtype=None, shape=None, **kw):
        a, fl = self._like(a, dtype)
        return _filled(shape or a.shape, 0) if fl else np.zeros_like(a, dtype=dtype)

    def ones_like(self, a, dtype=None, shape=None, **kw):
        a, fl = self._like(a, dtype)
        return _filled(shape or a.shape, 1) if fl else np.ones_like(a, dtype=dtype)

    def empty_like(self, a, dtype=None, shape=None, **kw):
        a, fl = self._like(a, dtype)
        return np.empty(shape or a.shape, dtype=object) if fl \
            else np.empty_like(a, dtype=dtype)

    def full_like(self, a, fill_value, dtype=None, shape=None, **kw):
        a, fl = self._like(a, dtype)
        return self.full(shape or a.shape, fill_value) if fl \
            else np.full_like(a, fill_value, dtype=dtype)

    def array(self, x, dtype=None, **kw):
        if has_sym(x) and _is_float_dtype(dtype):
            return np.array(x, dtype=object, **kw)
        return np.array(x, dtype=dtype, **kw)

    def asarray(self, x, dtype=None, *a, **kw):
        if has_sym(x) and _is_float_dtype(dtype):
            return np.asarray(x, dtype=object)
        return np.asarray(x, dtype, *a, **kw)

    def asanyarray(self, x, dtype=None, *a, **kw):
        return self.asarray(x, dtype)

    def ascontiguousarray(self, x, dtype=None, **kw):
        return self.asarray(x, dtype)

    def finfo(self, dt):
        try:
            if np.dtype(dt) == object:
                dt = np.float64
        except TypeError:
            if isinstance(dt, Sym):
                dt = np.float64
        return np.finfo(dt)

    float64 = _Float64()

    def dot(self, a, b, **kw):
        return np.dot(np.asarray(a), np.asarray(b))

    def hypot(self, a, b):
        if has_sym(a) or has_sym(b):
            return self.sqrt(np.asarray(a, dtype=object) ** 2 + np.asarray(b) ** 2)
        return np.hypot(a, b)

    def fromiter(self, it, dtype, count=-1, **kw):
        items = list(it)
        if has_sym(items):
            return np.array([*items, None], dtype=object)[:-1]
        return np.fromiter(items, dtype, count, **kw)

    def float_power(self, a, b):
        return self.power(a, b)

    def power(self, a, b):
        if has_sym(a) or has_sym(b):
            if isinstance(a, Sym) and not isinstance(b, np.ndarray):
                return a ** b
            return np.asarray(a, dtype=object) ** b
        return np.power(a, b)

    def copysign(self, a, b):
        if has_sym(a) or has_sym(b):
            if isinstance(b, Sym):
                return abs(a) if bool(b >= 0) else -abs(a)
            aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(aa.shape, dtype=object)
            for i in np.ndindex(aa.shape):
                out[i] = abs(aa[i]) if bool(bb[i] >= 0) else -abs(aa[i])
            return out
        return np.copysign(a, b)

    def linspace(self, a, b, num=50, endpoint=True, **kw):
        if has_sym(a) or has_sym(b):
            n = num - 1 if endpoint else num
            return sym_array([a + (b - a) * Fraction(i, n) if n else a
                              for i in range(num)])
        return np.linspace(a, b, num, endpoint, **kw)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **kw):
        return bool(np.all(self.isclose(a, b, rtol, atol)))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **kw):
        if has_sym(a) or has_sym(b):
            d = self.abs(np.asarray(a, dtype=object) - np.asarray(b, dtype=object))
            return d <= atol + rtol * self.abs(b)
        return np.isclose(a, b, rtol, atol, **kw)

    def array_equal(self, a, b, **kw):
        if has_sym(a) or has_sym(b):
            a, b = np.asarray(a), np.asarray(b)
            return a.shape == b.shape and bool(np.all(a == b))
        return np.array_equal(a, b, **kw)

    def isscalar(self, x):
        return True if isinstance(x, Sym) else np.isscalar(x)

    def issubdtype(self, a, b):
        if a == np.dtype(object):
            a = np.dtype(np.float64)
        return np.issubdtype(a, b)

    def where(self, cond, *args):
        if not args:
            return np.where(cond)
        if isinstance(cond, SymBool):
            cond = bool(cond)
        return np.where(cond, *args)

    def einsum(self, spec, *ops, **kw):
        if any(has_sym(o) for o in ops):
            kw.pop("optimize", None)
            return np.einsum(spec, *[np.asarray(o, dtype=object) for o in ops], **kw)
        ops2 = []
        for o in ops:
            if isinstance(o, np.ndarray) and o.dtype == object:
                f = to_float_array(o)
                o = f if f is not None else o
            ops2.append(o)
        return np.einsum(spec, *ops2, **kw)


def zeros_obj(shape):
    out = np.empty(shape, dtype=object)
    out[...] = 0
    return out


class LAProxy:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        orig = getattr(np.linalg, name)
        if not callable(orig):
            return orig

        def f(*args, **kwargs):
            args2 = []
            for a in args:
                if isinstance(a, np.ndarray) and a.dtype == object:
                    fa = to_float_array(a)
                    if fa is None:
                        raise Unsupported(f"linalg.{name} of a symbolic matrix")
                    a = fa
                args2.append(a)
            return orig(*args2, **kwargs)
        return f

    def det(self, a):
        if not _symmat(a):
            return self.__getattr__("det")(a)
        return _det(np.asarray(a, dtype=object))

    def solve(self, a, b):
        if not _symmat(a):
            if _symmat(b):
                ai = np.linalg.inv(to_float_array(a))
                return _refined_inv(to_float_array(a), ai) @ np.asarray(b, dtype=object)
            return self.__getattr__("solve")(a, b)
        return _adj_inv(np.asarray(a, dtype=object)) @ np.asarray(b)

    def inv(self, a):
        if not _symmat(a):
            return self.__getattr__("inv")(a)
        return _adj_inv(np.asarray(a, dtype=object))

    def cholesky(self, a, *args, **kw):
        if not _symmat(a):
            return self.__getattr__("cholesky")(a, *args, **kw)
        a = np.asarray(a, dtype=object)
        n = len(a)
        l = zeros_obj((n, n))
        for i in range(n):
            for j in range(i + 1):         # lower triangle, as LAPACK reads it
                v = a[i, j]
                for k in range(j):
                    v = v - l[i, k] * l[j, k]
                l[i, j] = sqrt(v if isinstance(v, Sym) else const(v)) if i == j else v / l[j, j]
        return l

    def eigvals(self, a):
        """Closed form for 1x1 and 2x2 matrices with real eigenvalues."""
        if not _symmat(a):
            return self.__getattr__("eigvals")(a)
        a = np.asarray(a, dtype=object)
        if len(a) == 1:
            return sym_array([a[0, 0]])
        if len(a) != 2:
            raise Unsupported("eigvals of a large symbolic matrix")
        h = (a[0, 0] - a[1, 1]) / 2
        m = (a[0, 0] + a[1, 1]) / 2
        r = sqrt(h * h + a[0, 1] * a[1, 0])
        return sym_array([m - r, m + r])

    def lstsq(self, a, b, *args, **kw):
        """Full-rank least-squares / minimum-norm solution."""
        if not _symmat(a):
            if not _symmat(b):
                return self.__getattr__("lstsq")(a, b, *args, **kw)
            x = to_float_array(np.asarray(a))
            return np.linalg.pinv(x) @ np.asarray(b, dtype=object), None, None, None
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        m, n = a.shape
        if m == n:
            x = _adj_inv(a) @ b
        elif m > n:
            x = _adj_inv(a.T @ a) @ (a.T @ b)
        else:
            x = a.T @ (_adj_inv(a @ a.T) @ b)
        return x, None, None, None

    def eigh(self, a, *args, **kw):
        """Closed form for 1x1 and 2x2 symmetric matrices, ascending eigenvalues."""
        if not _symmat(a):
            return self.__getattr__("eigh")(a, *args, **kw)
        a = np.asarray(a, dtype=object)
        n = a.shape[0]
        if n == 1:
            return sym_array([a[0, 0]]), sym_array([[1]])
        if n != 2:
            raise Unsupported("eigh of a large symbolic matrix")
        p, q, b = a[0, 0], a[1, 1], a[1, 0]     # lower triangle, as LAPACK reads it
        h = (p - q) / 2
        r = sqrt(h * h + b * b)
        m = (p + q) / 2
        lam = [m - r, m + r]
        v = np.empty((2, 2), dtype=object)
        for j, l in enumerate(lam):
            x, y = b, l - p
            s = sqrt(x * x + y * y)
            v[0, j], v[1, j] = x / s, y / s
        return sym_array(lam), v

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not _symmat(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                x = to_float_array(x)
            return np.linalg.norm(x, ord, axis, keepdims)
        x = np.asarray(x, dtype=object)
        if ord == np.inf and x.ndim == 1:
            return np.max([abs(v) for v in x])
        if ord == 1 and x.ndim == 1:
            return sum(abs(v) for v in x)
        if axis is not None and np.ndim(axis) == 0 and ord in (1, np.inf):
            return (np.sum if ord == 1 else np.max)(np.abs(x), axis=axis, keepdims=keepdims)
        if axis is None and x.ndim == 2 and ord in (1, np.inf):
            return np.max(np.sum(np.abs(x), axis=0 if ord == 1 else 1))
        if ord not in (None, 2, "fro") or (ord == 2 and x.ndim != 1 and axis is None):
            raise Unsupported("norm of a symbolic array")
        s = np.sum(x * x, axis=axis, keepdims=keepdims)
        return NP.sqrt(s)

    def multi_dot(self, arrays, **kw):
        r = arrays[0]
        for a in arrays[1:]:
            r = r @ a
        return r


def _symmat(a):
    if isinstance(a, Sym):
        return not a.is_const()
    a = np.asarray(a)
    return a.dtype == object and any(
        isinstance(v, Sym) and not v.is_const() for v in a.flat)


def _refined_inv(a, ai):
    """Inverse of a concrete matrix, exact when small, else the LAPACK one."""
    n = a.shape[0]
    if n <= 12:
        return _exact_inv(a)
    return sym_array(ai)


def _exact_inv(a):
    n = a.shape[0]
    m = [[to_fraction(a[i, j]) for j in range(n)]
         + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if not m[p][c]:
            raise np.linalg.LinAlgError("Singular matrix")
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [v / d for v in m[c]]
        for r in range(n):
            if r != c and m[r][c]:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c], strict=True)]
    return sym_array([[m[i][n + j] for j in range(n)] for i in range(n)])


def _det(a):
    n = a.shape[0]
    if n == 0:
        return const(1)
    if n == 1:
        return a[0, 0] * const(1)
    s = const(0)
    for j in range(n):
        if is_sym(a[0, j]) and a[0, j].r.is_zero():
            continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        s = s + (-1) ** j * a[0, j] * _det(minor)
    return s


def _adj_inv(a):
    n = a.shape[0]
    if n > 5:
        raise Unsupported("inverse of a large symbolic matrix")
    d = _det(a)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            out[i, j] = (-1) ** (i + j) * _det(minor) / d
    return out


NP = NPProxy()


def _math_wrap(name, fn):
    orig = math_orig[name]

    def f(*args):
        if any(isinstance(a, Sym) for a in args):
            return fn(*args)
        return orig(*args)
    f.__name__ = name
    return f


def _fabs(x):
    return abs(x)


def _sum_list(x):
    return sum(x) if has_sym(np.array([*x, None], dtype=object)) else math_orig["fsum"](x)


MATH_OVER = {
    "sqrt": _math_wrap("sqrt", sqrt),
    "gamma": _math_wrap("gamma", gamma),
    "cos": _math_wrap("cos", Sym.cos),
    "sin": _math_wrap("sin", Sym.sin),
    "exp": _math_wrap("exp", Sym.exp),
    "log": _math_wrap("log", Sym.log),
    "acos": _math_wrap("acos", Sym.arccos),
    "asin": _math_wrap("asin", Sym.arcsin),
    "fabs": _math_wrap("fabs", _fabs),
    "hypot": _math_wrap("hypot", lambda *a: sqrt(sum(x * x for x in a))),
    "pow": _math_wrap("pow", lambda a, b: a ** b),
    "fsum": lambda x: _sum_list(list(x)),
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)),
    "copysign": _math_wrap("copysign", lambda a, b: abs(a) if b >= 0 else -abs(a)),
    "isnan": _math_wrap("isnan", lambda x: False),
    "isinf": _math_wrap("isinf", lambda x: False),
    "isfinite": _math_wrap("isfinite", lambda x: True),
}
_BY_ID = {id(math_orig[k]): v for k, v in MATH_OVER.items()}


_FLOATS = (float, _Float, np.floating, np.float64, np.number, numbers.Real, numbers.Number)


def _isinstance(x, t):
    """A symbolic real stands for a float."""
    if isinstance(x, t):
        return True
    if isinstance(t, types.UnionType):
        t = t.__args__
    return isinstance(x, Sym) and any(
        u in _FLOATS for u in (t if isinstance(t, tuple) else (t,)))


_ABSENT = object()
EXTRA_PATCHES = []     # callables returning list of (obj, attr, value)


@contextmanager
def patched(extra=()):
    """Code of modepy.* sees the proxies inside this context."""
    saved = []

    def setp(d, k, v):
        saved.append((d, k, d[k]))
        d[k] = v

    np_ids = {}
    for name in list(NPProxy.__dict__) + list(NP.__dict__):
        if name.startswith("_") or name == "linalg":
            continue
        o = getattr(np, name, None)
        if o is not None:
            np_ids[id(o)] = getattr(NP, name)
    for name in ("det", "solve", "inv", "norm", "eigh", "cholesky", "eigvals", "lstsq"):
        np_ids[id(getattr(np.linalg, name))] = getattr(NP.linalg, name)
    nested = np.ndarray.astype is _astype
    try:
        _set_astype(_astype)
        for mname, mod in list(sys.modules.items()):
            if mod is None or not (mname == "modepy" or mname.startswith("modepy.")):
                continue
            d = mod.__dict__
            if "isinstance" not in d:
                saved.append((d, "isinstance", _ABSENT))
                d["isinstance"] = _isinstance
            if "float" not in d:
                saved.append((d, "float", _ABSENT))
                d["float"] = _Float
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                if v is np:
                    setp(d, k, NP)
                elif v is np.linalg:
                    setp(d, k, NP.linalg)
                elif id(v) in _BY_ID:
                    setp(d, k, _BY_ID[id(v)])
                elif callable(v) and id(v) in np_ids and not isinstance(v, type):
                    setp(d, k, np_ids[id(v)])
        for k, v in MATH_OVER.items():
            setp(math.__dict__, k, v)
        for obj, attr, val in extra:
            d = obj.__dict__
            saved.append((d, attr, d.get(attr, _ABSENT)))
            d[attr] = val
        yield
    finally:
        if not nested:
            _set_astype(_ndarray_astype)
        for d, k, v in reversed(saved):
            if v is _ABSENT:
                del d[k]
            else:
                d[k] = v

# }}}
