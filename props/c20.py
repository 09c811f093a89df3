"""Adaptive Gauss-Kronrod integration."""
import math

import numpy as np

from modepy.quadrature import kronrod as kmod
from modepy.quadrature.kronrod import quadgk
from symx import harness, sym

BOUNDS = ("orders 1-3 (default order 7 too on fixed intervals) with arbitrary polynomials of "
          "degree up to 3n+1, arbitrary break points (up to 3, increasing or decreasing) "
          "without refinement, and fixed break points with up to 3 (thorough 5) refinements "
          "along every error ordering, arbitrary absolute tolerance; doubly and semi-infinite "
          "intervals in both directions with arbitrary finite end point, with jumps at up to 3 inner "
          "break points; complex-valued "
          "polynomials on fixed intervals")


def poly(env, deg, name="c"):
    return env.reals(name, deg + 1, -1, 1)


def antiderivative(c, x):
    r = 0
    for k in range(len(c) - 1, -1, -1):
        r = (r + c[k] / (k + 1)) * x
    return r


def value(c, x):
    r = 0
    for k in range(len(c) - 1, -1, -1):
        r = r * x + c[k]
    return r


class Counter:
    def __init__(self, f):
        self.f, self.n = f, 0

    def __call__(self, x):
        self.n += 1
        return self.f(x)


def gk(env, f, *pts, **kw):
    """quadgk on symbolic values; the rule itself (no symbolic inputs) is computed by the
    code under test beforehand, in floating point."""
    rule = getattr(kmod, "kronrod", None)
    if env.symbolic and rule is not None:
        pre = {n: env.run(rule, n) for n in {kw.get("order", 7), 7}}
        harness.PATCH_EXTRA[:] = [(kmod, "kronrod", lambda n: pre[n] if n in pre else rule(n))]
    try:
        return env.call(quadgk, f, *pts, **kw)
    finally:
        harness.PATCH_EXTRA.clear()


def finite(env, n, deg, m, reverse):
    """Arbitrary break points, no refinement: on every interval an arbitrary polynomial (in
    the position relative to the interval) of its own."""
    p = [env.real("p0", -1, 0)]
    h = []
    for i in range(m):
        h.append(env.real(f"h{i}", 0.125, 0.5))
        p.append(p[-1] + h[-1])
    c = [poly(env, deg, f"c{i}") for i in range(m)]

    def f(x):
        for i in range(m):
            if i == m - 1 or bool(x < p[i + 1]):
                return value(c[i], (x - p[i]) / h[i])
    f = Counter(f)
    pts = p[::-1] if reverse else p
    # tolerance above every error: no refinement
    r, e = gk(env, f, *pts, order=n, abstol=100.0)
    ref = sum(h[i] * antiderivative(c[i], 1) for i in range(m))
    env.eq(r, -ref if reverse else ref, 1e-9, "integral")
    if deg <= 2 * n - 1:
        env.le(e, 1e-9, label="error estimate vanishes")
    env.true(f.n == m * (2 * n + 1), "evaluations")


def refined(env, n, deg, pts, k, rel, family=None):
    """Fixed break points, at most k refinements: the estimate stays the exact integral
    along every order of refinement, the reported error is that of a partition, and the
    iteration stops only when a tolerance is met or the evaluations are used up."""
    if family:
        d = env.reals("c", len(family), -1, 1)
        c = [sum(d[i] * s[j] for i, s in enumerate(family)) for j in range(deg + 1)]
        tol = env.real("abstol", 1 / 64, 0.25)
    else:
        c = poly(env, deg)
        tol = env.real("abstol", 0.0625, 1)
    f = Counter(lambda x: value(c, x))
    m = len(pts) - 1
    maxevals = m * (2 * n + 1) + k * (4 * n + 2) - 1 if k else 0
    r, e = gk(env, f, *pts, order=n, abstol=tol, reltol=rel, maxevals=maxevals)
    if deg <= 3 * n + 1:
        env.eq(r, antiderivative(c, pts[-1]) - antiderivative(c, pts[0]), 1e-9, "integral")
    env.le(-e, 1e-12, label="error estimate is not negative")
    if f.n < max(maxevals, m * (2 * n + 1)):
        met = bool(e <= tol + 1e-12)
        if not met:
            s = r if bool(r >= 0) else -r
            env.le(e, rel * s + 1e-12, label="stops only when a tolerance is met")
    env.true(f.n <= max(maxevals, m * (2 * n + 1)) + 4 * n + 2, "number of evaluations")
    splits = (f.n - m * (2 * n + 1)) // (4 * n + 2)
    if splits:
        # one refinement earlier no tolerance had been met
        r, e = gk(env, f, *pts, order=n, abstol=tol, reltol=rel,
                  maxevals=m * (2 * n + 1) + (splits - 1) * (4 * n + 2))
        env.le(tol, e + 1e-12, label="stops when the absolute tolerance is met")
        if rel:
            env.le(rel * r, e + 1e-12, label="stops when the relative tolerance is met")
            env.le(-rel * r, e + 1e-12, label="stops when the relative tolerance is met")
    if deg <= 2 * n - 1:
        env.le(e, 1e-9, label="error estimate vanishes")


def worst_first(env, n, family, pts, k):
    """The interval that is halved is one with the largest error estimate."""
    d = env.reals("c", len(family), -1, 1)
    c = [sum(d[i] * s[j] for i, s in enumerate(family)) for j in range(len(family[0]))]
    xs = []

    def f(x):
        xs.append(x)
        return value(c, x)
    m = len(pts) - 1
    _, e = gk(env, f, *pts, order=n, reltol=0.0, maxevals=m * (2 * n + 1) + (k - 1) * (4 * n + 2) + 1)
    env.true(len(xs) >= m * (2 * n + 1), "every interval is visited")

    err = {}

    def error(seg):
        if seg not in err:
            err[seg] = gk(env, lambda x: value(c, x), *seg, order=n, maxevals=0)[1]
        return err[seg]
    segs = [(pts[i], pts[i + 1]) for i in range(m)]
    batch = [float(env.value(x)) for x in xs[m * (2 * n + 1):]]
    step = 4 * n + 2
    env.true(len(batch) % step == 0, "whole intervals are evaluated")
    for j in range(len(batch) // step):
        b = batch[j * step:(j + 1) * step]
        hit = [i for i, (lo, hi) in enumerate(segs)
               if min(lo, hi) < min(b) and max(b) < max(lo, hi)]
        env.true(len(hit) == 1, "one interval at a time")
        lo, hi = segs.pop(hit[0])
        for other in segs:
            env.le(error(other) - error((lo, hi)), 1e-10, label=f"split {j}")
        segs += [(lo, (lo + hi) / 2), ((lo + hi) / 2, hi)]
    env.eq(e, sum(error(sg) for sg in segs), 1e-9, "error is that of the final intervals")


def infinite(env, kind, n, reverse, inner):
    """Integrands whose transform is a polynomial: exact whatever the coefficients."""
    deg = 3 * n + 1
    c = poly(env, deg)
    if kind == "both":
        def tau(x):
            r = math.sqrt(1 + 4 * float(x) ** 2)
            t = 2 * float(x) / (1 + r)
            return t, (1 - t * t) ** 2 / (1 + t * t)
        pts = [-math.inf, math.inf]
        ts = [-1, 1]
        if inner:
            pts = [-math.inf, -0.75, 0.5, math.inf]
            ts = [-1, None, None, 1]

        def f(x):
            t, dt = tau(x)
            return value(c, t) * dt
    else:
        s0 = env.real("s0", -1, 1)
        sg = 1 if kind == "pos" else -1

        def f(x):
            u = sg * (x - s0)
            d = 1 / (1 + u)
            return value(c, 1 - d) * d * d
        pts = [s0, sg * math.inf]
        if inner:
            pts = [s0, s0 + sg * env.real("h", 0.25, 2) if inner == "free" else s0 + sg * 0.75,
                   sg * math.inf]
        if kind == "neg":
            pts = pts[::-1]
    if reverse:
        pts = pts[::-1]
    r, e = gk(env, f, *pts, order=n, abstol=100.0)
    if kind == "both":
        ref = antiderivative(c, 1) - antiderivative(c, -1)
    else:
        ref = antiderivative(c, 1)
    env.eq(r, -ref if reverse else ref, 1e-7, "integral")
    if inner != "free":
        env.le(-e, 1e-12, label="error estimate is not negative")


def pieces(env, kind, n, reverse, at):
    """Integrands with jumps at the (inner) break points of an unbounded interval: between
    them, polynomials in the transformed variable."""
    deg = 2 * n - 1
    c = [poly(env, deg, f"c{i}_") for i in range(len(at) + 1)]
    if kind == "both":
        def tau(x):
            return 2 * float(x) / (1 + math.sqrt(1 + 4 * float(x) ** 2))

        def dtau(x):
            t = tau(x)
            return (1 - t * t) ** 2 / (1 + t * t)
        ts = [-1, *map(tau, at), 1]
        pts = [-math.inf, *at, math.inf]

        def f(x):
            return value(c[sum(x > a for a in at)], tau(x)) * dtau(x)
    else:
        s0 = env.real("s0", -1, 1)
        sg = 1 if kind == "pos" else -1
        ts = [0, *(a / (1 + a) for a in at), 1]
        pts = [s0, *(s0 + sg * a for a in at), sg * math.inf]

        def f(x):
            u = sg * (x - s0)
            d = 1 / (1 + u)
            return value(c[sum(bool(u > a) for a in at)], 1 - d) * d * d
        if kind == "neg":
            pts = pts[::-1]
    if reverse:
        pts = pts[::-1]
    r, e = gk(env, f, *pts, order=n, abstol=100.0)
    ref = sum(antiderivative(p, b) - antiderivative(p, a) for p, a, b in zip(c, ts, ts[1:]))
    env.eq(r, -ref if reverse else ref, 1e-7, "integral")
    env.le(e, 1e-7, label="error estimate vanishes")


class Pair:
    """A complex number with symbolic parts."""
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        return x if isinstance(x, Pair) else Pair(x, 0)

    def __add__(self, o):
        o = Pair.of(o)
        return Pair(self.re + o.re, self.im + o.im)

    def __neg__(self):
        return Pair(-self.re, -self.im)

    def __sub__(self, o):
        return self + -Pair.of(o)

    def __rsub__(self, o):
        return Pair.of(o) + -self

    def __mul__(self, o):
        o = Pair.of(o)
        return Pair(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def __truediv__(self, o):
        return Pair(self.re / o, self.im / o)

    def __abs__(self):
        return sym.sqrt(self.re * self.re + self.im * self.im)

    __radd__, __rmul__ = __add__, __mul__

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im


def complex_valued(env, n, deg, pts):
    """Complex integrands: both parts are integrated, the error is the modulus."""
    c, d = poly(env, deg, "c"), poly(env, deg, "d")
    mk = Pair if env.symbolic else (lambda a, b: complex(float(a), float(b)))
    kw = dict(order=n, abstol=math.inf)
    r, e = gk(env, lambda x: mk(value(c, x), value(d, x)), *pts, **kw)
    for part, k in ((r.real, c), (r.imag, d)):
        env.eq(part, antiderivative(k, pts[-1]) - antiderivative(k, pts[0]), 1e-9, "integral")
    if len(pts) == 2:
        e1, e2 = (gk(env, lambda x, k=k: value(k, x), *pts, **kw)[1] for k in (c, d))
        env.eq(e * e, e1 * e1 + e2 * e2, 1e-9, "error is the modulus")


def default_order(env, pts, ks):
    """Default order on a fixed interval: exact for degree 22, no error estimate for 13.
    Polynomials spanned by the monomials ks."""
    c = [env.real(f"c{k}", -1, 1) if k in ks else 0.0 for k in range(max(ks) + 1)]
    f = Counter(lambda x: value(c, x))
    small = max(ks) <= 13
    r, e = gk(env, f, *pts, **(dict(abstol=1e-6) if small else dict(maxevals=0)))
    env.eq(r, antiderivative(c, pts[-1]) - antiderivative(c, pts[0]), 1e-9, "integral")
    if small:
        env.le(e, 1e-9, label="error estimate vanishes")
    env.true(f.n == 15 * (len(pts) - 1), "no refinement")


def refused(env):
    for bad in (math.nan, math.inf, -math.inf):
        for at in range(15):
            cnt = [0]

            def f(x):
                cnt[0] += 1
                return bad if cnt[0] == at + 1 else 1.0
            try:
                with np.errstate(all="ignore"):
                    quadgk(f, 0, 1)
            except ValueError:
                ok = True
            else:
                ok = False
            env.true(ok, f"{bad} at evaluation {at}")
    for pts in ((), (1.0,)):
        try:
            quadgk(lambda x: x, *pts)
        except ValueError:
            ok = True
        else:
            ok = False
        env.true(ok, f"{len(pts)} points refused")


def obligations(tier, seed):
    big = tier == "thorough"
    for n in (1, 2, 3):
        for m in (1, 2) if n < 3 or big else (1,):
            for deg in sorted({max(2 * n - 1, 0), 3 * n + 1}):
                for rev in (False, True):
                    yield f"finite-{n}-{deg}-{m}-{rev}", "finite", dict(
                        n=n, deg=deg, m=m, reverse=rev)
    for n, deg in [(1, 1), (1, 3), (1, 4), (1, 6), (2, 5), (2, 7)]:
        for pts in ([-1, 1], [0, 0.5, 1], [1, -0.5]):
            for k in (0, 1, 2) + ((3,) if big else ()):
                for rel in (0.0, 0.125):
                    cost = (k + 1) * (1 + (rel > 0)) * {1: 1, 3: 6, 4: 13, 6: 25, 5: 3, 7: 7}[deg]
                    if not big and cost > 14 or cost > 110:
                        continue
                    yield f"refined-{n}-{deg}-{pts}-{k}-{rel}", "refined", dict(
                        n=n, deg=deg, pts=pts, k=k, rel=rel)
    for n, shape in [(1, [[0, 0, 1, 0, 1], [0, 1, 0, -1, 0.5]]),
                     (1, [[1, 0, 0, 0, 4], [0, 0, 0, 2, 1]]),
                     (2, [[0, 0, 0, 0, 1, 0, 1], [1, 0, 0, 1, 0, -2, 0]])]:
        for pts in ([-1, 1], [1, -0.5], [0, 0.25, 1]):
            for k in (2, 3) + ((4, 5) if big or n == 2 else ()):
                if not big and k == 3 and n == 1 and len(pts) == 2:
                    continue
                yield f"family-{n}-{shape}-{pts}-{k}", "refined", dict(
                    n=n, deg=len(shape[0]) - 1, pts=pts, k=k, rel=0.0, family=shape)
    # estimates that change from one refinement to the next
    for shape in ([[1, 0, -2, 0, 0, 0, 4], [0, 0, 1, 0, -3, 0, 2]],
                  [[1, 0, 0, 0, -1, 0, 0, 0, 2], [0, 0, 2, 0, 0, 0, -3, 0, 0]]):
        for pts in ([-1, 1], [1, -0.5], [0, 0.25, 1]):
            for rel in (0.125, 0.5):
                for k in (2, 3) if big else (2,):
                    yield f"changing-{shape}-{pts}-{k}-{rel}", "refined", dict(
                        n=1, deg=len(shape[0]) - 1, pts=pts, k=k, rel=rel, family=shape)
    for n, shape in [(1, [[0, 0, 1, 0, 1], [0, 1, 0, -1, 0.5]]),
                     (2, [[0, 0, 0, 0, 1, 0, 1], [1, 0, 0, 1, 0, -2, 0]])]:
        for pts, k in [([-1, 1], 2), ([0, 0.5, 1], 1), ([0, 0.25, 1], 2), ([1, 0, -0.75, -1], 1)]:
            if big or pts == [0, 0.5, 1] or (n, k) == (2, 2) and len(pts) == 2:
                yield f"worst-{n}-{pts}-{k}", "worst_first", dict(
                    n=n, family=shape, pts=pts, k=k)
    for kind in ("both", "pos", "neg"):
        for n in (1, 2, 3) + ((5,) if big else ()):
            for rev in (False, True):
                for inner in (None,) + (("fixed",) if n < 2 or big else ()) + (("free",) if kind != "both" and n == 1 else ()):
                    yield f"infinite-{kind}-{n}-{rev}-{inner}", "infinite", dict(
                        kind=kind, n=n, reverse=rev, inner=inner)
    for kind in ("both", "pos", "neg"):
        for n in (1, 2, 3):
            for at in ((0.5,), (0.25, 3.0), (-2.0, 0.0, 0.75)):
                if len(at) * n > (6 if big else 3):
                    continue
                if kind != "both" and at[0] < 0:
                    at = (0.125, 1.0, 7.0)
                for rev in (False, True):
                    yield f"pieces-{kind}-{n}-{at}-{rev}", "pieces", dict(
                        kind=kind, n=n, reverse=rev, at=list(at))
    for pts in ([-1, 1], [0, 1], [1, 0], [-0.75, 0.25, 0.5]):
        for ks in ([0, 12, 13], [1, 2, 11], [3, 4, 10], [5, 6, 9], [7, 8], [22, 21, 14],
                   [20, 19, 15], [18, 17, 16]):
            if len(pts) == 2 or ks[0] in (0, 7, 22) or big:
                yield f"default-{pts}-{ks}", "default_order", dict(pts=pts, ks=ks)
    for n, deg in [(1, 1), (1, 4), (2, 3), (2, 5), (2, 7), (3, 5), (3, 10)]:
        for pts in ([-1, 1], [1, -0.5], [0, 0.25, 1]):
            yield f"complex-{n}-{deg}-{pts}", "complex_valued", dict(n=n, deg=deg, pts=pts)
    yield "refused", "refused", {}
