"""Transplanted quadrature: maps and rules."""
import math
from functools import partial

import numpy as np

from modepy.quadrature import Quadrature
from modepy.quadrature import transplanted as tm
from modepy.quadrature.jacobi_gauss import LegendreGaussQuadrature
from modepy.quadrature.transplanted import (map_identity, map_kosloff_tal_ezer, map_sausage,
                                            map_strip, transplanted_1d_quadrature,
                                            transplanted_legendre_gauss_quadrature)
from symx import harness, sym

from .common import legendre_all, vec

BOUNDS = ("maps: every point of [-1,1] (strip: |s| <= 0.95), odd degrees up to 15 (thorough "
          "31), every alpha in [1e-6,0.9999] and every rho in [1.01,1e5] (strip: a grid of rho); "
          "transplanted rules: arbitrary node positions, weights and map, up to 4 nodes; "
          "exactness: Gauss rules up to 41 nodes, all polynomials of the degree the "
          "polynomial map leaves exact, and of degree 8 for the analytic maps")
ASSUMPTIONS = ["arcsin, arctanh and the Jacobi elliptic functions are uninterpreted, with "
               "their derivative rules"]


def _float(x):
    return x if isinstance(x, sym.Sym) else float(x)


def _ellipj(u, m):
    """sn, cn, dn with their derivative rules (the parameter is a plain number)."""
    from scipy.special import ellipj
    u = np.asarray(u)
    if u.dtype != object:
        return ellipj(u, m)
    m = sym.to_fraction(m if not isinstance(m, sym.Sym) else m.r.const_value())
    names = [f"{n}:{m}" for n in ("sn", "cn", "dn")]
    for nm in names:
        if nm not in sym.DERIVATIVE:
            sym.BOUNDS1[nm] = (-1, 1)
    def one(nm, a):
        i = sym.opaque((nm, a.r.key()), nm, -1, 1, (nm, a.r))
        return sym.Sym(sym.Rat(sym.Poly.gen(i)), a.t)
    sym.DERIVATIVE[names[0]] = lambda a, y: one(names[1], a) * one(names[2], a)
    sym.DERIVATIVE[names[1]] = lambda a, y: -one(names[0], a) * one(names[2], a)
    sym.DERIVATIVE[names[2]] = lambda a, y: -m * one(names[0], a) * one(names[1], a)
    out = []
    for nm in names:
        o = np.empty(u.shape, dtype=object)
        for i in np.ndindex(u.shape):
            o[i] = one(nm, u[i] if isinstance(u[i], sym.Sym) else sym.const(u[i]))
        out.append(o)
    return (*out, None)


def tcall(env, fn, *args, **kw):
    if env.symbolic:
        import scipy.special
        harness.PATCH_EXTRA[:] = [(tm, "float", _float), (scipy.special, "ellipj", _ellipj)]
    try:
        return env.call(fn, *args, **kw)
    finally:
        harness.PATCH_EXTRA.clear()


def derivative_claim(env, fn, s, g, gp, label):
    """gp is the derivative of g at every point of the array s."""
    for i in range(len(s)):
        if env.symbolic:
            d = env.total_diff(g[i], s[i])
            env.eq(env.cleared(gp[i] - d, d), 0, 1e-11, label)
        else:
            h = 1e-4
            p = [np.asarray(fn(np.array([min(max(s[i] + k * h, -1), 1)]))[0])[0]
                 for k in (-2, -1, 1, 2)]
            if abs(s[i]) < 1 - 2 * h:
                env.eq(gp[i] / (1 + abs(gp[i])),
                       (p[0] - 8 * p[1] + 8 * p[2] - p[3]) / (12 * h) / (1 + abs(gp[i])),
                       1e-5, label)


def identity(env, n):
    s = env.reals("s", n, -1, 1)
    g, gp = tcall(env, map_identity, s)
    env.eq(g, s, 0, "nodes")
    env.eq(gp, np.ones(n), 0, "jacobian")
    env.true(g is not s and not np.shares_memory(g, s), "nodes are a copy")


def sausage(env, degree, n=1):
    s = env.reals("s", n, -1, 1)
    g, gp = tcall(env, map_sausage, s, degree)
    env.true(np.shape(g) == (n,) and np.shape(gp) == (n,), "shapes")
    c = [math.comb(2 * k, k) / 4.0 ** k / (2 * k + 1) for k in range((degree + 1) // 2)]
    tot = sum(c)
    for i in range(n):
        r = 0
        for k in range(len(c) - 1, -1, -1):
            r = r * s[i] * s[i] + c[k]
        env.eq(g[i], r * s[i] / tot, 1e-11, "truncated arcsine")
    derivative_claim(env, lambda x: map_sausage(x, degree), s, g, gp, "jacobian")
    env.le(0.3, gp, label="increasing")
    for e in (-1.0, 1.0):
        gg, _ = tcall(env, map_sausage, np.array([e]), degree)
        env.eq(gg, np.array([e]), 1e-13, "end points are kept")
    if env.symbolic:
        gm, gpm = tcall(env, map_sausage, -s, degree)
        env.eq(gm, -g, 1e-12, "odd")
        env.eq(gpm, gp, 1e-12, "even jacobian")


def kte(env, by, n=1, lo=None, hi=None):
    s = env.reals("s", n, -1, 1)
    kw, tol = {}, 1e-12 if lo is None else 1e-9
    if by == "alpha":
        a = kw["alpha"] = env.real("a", lo or 0.05, hi or 0.95)
        if n > 1:
            kw["rho"] = 1.0          # ignored
    elif by == "rho":
        rho = kw["rho"] = env.real("rho", lo or 1.1, hi or 8)
        a = 2 / (rho + 1 / rho)
    else:
        a = 2 / (1.4 + 1 / 1.4)
    if env.symbolic:
        da = sym.opaque1("arcsin", a) if isinstance(a, sym.Sym) else math.asin(a)
        env.assume(da >= 1e-7)
    g, gp = tcall(env, map_kosloff_tal_ezer, s, **kw)
    env.true(np.shape(g) == (n,) and np.shape(gp) == (n,), "shapes")
    if env.symbolic:
        for i in range(n):
            env.eq(g[i] * da, sym.opaque1("arcsin", a * s[i]), tol, "map")
            r = sym.sqrt(1 - a * a * s[i] * s[i])
            env.eq(gp[i] * da * r, a, tol, "jacobian is the derivative")
        for i in range(n):
            env.le(0, gp[i] * da * r, label="increasing")
    else:
        env.eq(g, np.arcsin(a * s) / math.asin(a), tol, "map")
        env.eq(gp * np.sqrt(1 - (a * s) ** 2), np.full(n, a / math.asin(a)), tol,
               "jacobian is the derivative")
    for e in (-1.0, 1.0):
        gg, _ = tcall(env, map_kosloff_tal_ezer, np.array([e]), **kw)
        env.eq(gg, np.array([e]), 1e-9, "end points are kept")


def strip(env, rho, n=1):
    s = env.reals("s", n, -0.95, 0.95)
    g, gp = tcall(env, map_strip, s, rho=rho)
    env.true(np.shape(g) == (n,) and np.shape(gp) == (n,), "shapes")
    derivative_claim(env, lambda x: map_strip(x, rho=rho), s, g, gp,
                     "jacobian is the derivative")
    # increasing, odd, onto: at the exact nodes of a fine grid, by the real functions
    x = np.concatenate([-1 + np.logspace(-14, -1, 50), np.linspace(-0.9, 0.9, 101),
                        1 - np.logspace(-1, -14, 50)])
    gx, gpx = env.run(map_strip, x, rho=rho)
    env.true((gpx > 0).all(), "increasing")
    env.eq(gx, -gx[::-1], 1e-10, "odd")
    env.true(abs(gx[-1] - 1) < 1e-6, "onto")
    # conformal map of the ellipse with parameter rho onto a strip, as a Chebyshev series
    from numpy.polynomial.chebyshev import chebval
    k = np.arange(1, int(40 / math.log(rho)) | 1, 2)
    c = np.zeros(k[-1] + 1)
    with np.errstate(over="ignore"):
        c[k] = 1 / (k * np.sinh(np.minimum(k * math.log(rho), 700)))
    env.eq(gx, chebval(x, c) / c.sum(), 1e-6, "strip of that rho")


def strip_small(env, rho):
    """rho close to 1: still a map of [-1,1] onto itself."""
    with np.errstate(all="ignore"):
        gx, _ = env.run(map_strip, np.array([-1 + 1e-14, -0.5, 0.5, 1 - 1e-14]), rho=rho)
    env.true(np.all(np.abs(gx) <= 1 + 1e-6) and abs(gx[-1] - 1) < 1e-5, "onto")


def refused(env):
    def refuses(fn, *a, **k):
        try:
            fn(*a, **k)
        except ValueError:
            return True
        return False
    s = np.array([0.25])
    for d in (0, -1, -3, 2, 4, 10):
        env.true(refuses(map_sausage, s, d), f"sausage degree {d}")
    for al in (0.0, 1.0, -0.5, 1.5, math.nan, math.inf):
        env.true(refuses(map_kosloff_tal_ezer, s, alpha=al), f"alpha {al}")
    for rho in (1.0, 0.5, -2.0, 0.0):
        env.true(refuses(map_kosloff_tal_ezer, s, rho=rho), f"rho {rho}")
        env.true(refuses(map_strip, s, rho=rho), f"strip rho {rho}")
    for e in (1.0, -1.0, 1.5):
        env.true(refuses(map_strip, np.array([0.0, e])), f"strip at {e}")
    env.true(refuses(transplanted_1d_quadrature,
                     Quadrature(np.zeros((2, 3)), np.ones(3)), map_identity), "2-D rule")


def refused_range(env, which):
    """Parameters out of range are refused, all of them."""
    s = np.array([0.25])
    kw = {}
    if which == "alpha-low":
        kw["alpha"] = env.real("a", -5, 0)
    elif which == "alpha-high":
        kw["alpha"] = env.real("a", 1, 5)
    else:
        kw["rho"] = env.real("rho", -5, 1)
        if env.symbolic:
            env.assume(kw["rho"] > 0)
        elif kw["rho"] == 0:
            kw["rho"] = -1.0
    try:
        tcall(env, map_kosloff_tal_ezer, s, **kw)
    except ValueError:
        ok = True
    else:
        ok = False
    env.true(ok, "refused")


def rule(env, n, dim_axis, exact, ident):
    """Nodes are mapped, weights multiplied by the jacobian, exactness only survives the
    identity."""
    x = env.reals("x", (1, n) if dim_axis else n, -1, 1)
    w = env.reals("w", n, -2, 2)
    c = env.reals("c", 4, -1, 1)
    d = env.reals("d", 3, -1, 1)

    def g(s):
        return c[0] + s * (c[1] + s * (c[2] + s * c[3])), d[0] + s * (d[1] + s * d[2])
    kw = {} if exact is None else dict(exact_to=exact)
    base = env.call(Quadrature, x, w, **kw)
    q = env.call(transplanted_1d_quadrature, base, map_identity if ident else g)
    s = x[0] if dim_axis else x
    gn, gw = (s, np.ones(n)) if ident else g(s)
    env.eq(q.nodes, gn.reshape(1, n) if dim_axis else gn, 1e-12, "nodes")
    env.eq(q.weights, w * gw, 1e-12, "weights")
    env.true(q.dim == 1, "dimension")
    if ident and exact is not None:
        env.true(q.exact_to == exact, "exactness kept")
    else:
        try:
            q.exact_to
        except AttributeError:
            ok = True
        else:
            ok = False
        env.true(ok, "no exactness is claimed")
    env.eq(base.nodes, x, 0, "base rule untouched")
    env.eq(base.weights, w, 0, "base rule untouched")


MAPS = {"identity": map_identity}


def exact(env, n, which, par, dim_axis, backend):
    """The transplanted Gauss rule integrates all polynomials up to the degree the map
    leaves exact (or of degree 8, for the analytic maps with many nodes)."""
    if which == "identity":
        m, deg, tol = map_identity, 2 * n + 1, 1e-12
    elif which == "sausage":
        m, deg, tol = partial(map_sausage, degree=par), (2 * n + 2 - par) // par, 1e-11
    elif which == "kte":
        m, deg, tol = partial(map_kosloff_tal_ezer, rho=par), 8, 1e-9
    else:
        m, deg, tol = partial(map_strip, rho=par), 8, 1e-9
    q = env.run(transplanted_legendre_gauss_quadrature, n, m, backend=backend,
                force_dim_axis=dim_axis)
    env.true(np.shape(q.nodes) == ((1, n + 1) if dim_axis else (n + 1,)), "node shape")
    env.true(np.shape(q.weights) == (n + 1,), "weight shape")
    if which == "identity":
        env.true(q.exact_to == 2 * n + 1, "exactness")
    x = np.asarray(q.nodes, dtype=float).reshape(-1)
    env.true((np.diff(x) > 0).all() and abs(x).max() <= 1 + 1e-14, "nodes increase in [-1,1]")
    env.true((np.asarray(q.weights) > 0).all(), "positive weights")
    v = np.array([math.sqrt(k + 0.5) * p for k, p in enumerate(legendre_all(deg, x))])
    e = v @ q.weights
    e[0] -= math.sqrt(2)
    env.lin(e, tol, "all polynomials")


def obligations(tier, seed):
    big = tier == "thorough"
    for n in (1, 3):
        yield f"identity-{n}", "identity", dict(n=n)
    for d in range(1, 32 if big else 16, 2):
        yield f"sausage-{d}", "sausage", dict(degree=d)
    yield "sausage-3-2", "sausage", dict(degree=3, n=2)
    for by in ("alpha", "rho", "default"):
        yield f"kte-{by}", "kte", dict(by=by)
    for lo, hi in ((1e-6, 1e-3), (1e-3, 0.05), (0.95, 0.9999)):
        yield f"kte-alpha-{lo}", "kte", dict(by="alpha", lo=lo, hi=hi)
    for lo, hi in ((1.01, 1.1), (8, 100), (100, 1e5)):
        yield f"kte-rho-{lo}", "kte", dict(by="rho", lo=lo, hi=hi)
    yield "kte-alpha-2", "kte", dict(by="alpha", n=2)
    for rho in (1.12, 1.1637, 1.2, 1.2049, 1.4, 1.4142135, 2.0, 2.7182818, 3.5, 5.4321,
                8.0):
        yield f"strip-{rho}", "strip", dict(rho=rho)
    for rho in (1.01, 1.05, 1.1):
        yield f"strip-small-{rho}", "strip_small", dict(rho=rho)
    yield "strip-2", "strip", dict(rho=1.4, n=2)
    yield "refused", "refused", {}
    for w in ("alpha-low", "alpha-high", "rho"):
        yield f"refused-{w}", "refused_range", dict(which=w)
    for n in (1, 2, 4):
        for dim_axis in (False, True):
            for ex in (None, 0, 5):
                for ident in (False, True):
                    yield f"rule-{n}-{dim_axis}-{ex}-{ident}", "rule", dict(
                        n=n, dim_axis=dim_axis, exact=ex, ident=ident)
    for backend in (None, "builtin", "scipy"):
        for dim_axis in (False, True):
            for n in (0, 1, 2, 5, 12, 20):
                yield f"exact-{n}-identity-{dim_axis}-{backend}", "exact", dict(
                    n=n, which="identity", par=None, dim_axis=dim_axis, backend=backend)
            for d, ns in [(1, (1, 4, 9)), (3, (1, 5, 10, 19)), (5, (2, 7, 13, 20)),
                          (9, (4, 13, 24)), (15, (7, 23, 40))]:
                for n in ns:
                    yield f"exact-{n}-sausage-{d}-{dim_axis}-{backend}", "exact", dict(
                        n=n, which="sausage", par=d, dim_axis=dim_axis, backend=backend)
            for r in (1.2, 1.4, 2.0):
                for w in ("kte", "strip"):
                    yield f"exact-{w}-{r}-{dim_axis}-{backend}", "exact", dict(
                        n=80 if r == 1.2 else 60, which=w, par=r, dim_axis=dim_axis,
                        backend=backend)
