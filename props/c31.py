"""Quadrature rules as functionals: positive, sampling the element only, symmetric."""
from functools import partial

import numpy as np

import modepy as mp
from modepy.quadrature import Transformed1DQuadrature
from modepy.quadrature import transplanted as tm
from modepy.quadrature.kronrod import make_kronrod_quadrature

from .common import factors, make_space, vec

BOUNDS = ("every tabulated order of the simplex, square and cube rules (Xiao-Gimbutas, "
          "Vioreanu-Rokhlin, Witherden-Vincent, Jaskowiec-Sukumar), Grundmann-Moeller up to "
          "dimension 5, one-dimensional rules up to 64 (thorough 128) nodes, Jacobi weights from a "
          "grid of exponents up to N=12 (thorough 24), products of up to 3 rules, rules for "
          "spaces up to order 6, Gauss rules moved to an arbitrary interval (1 to 4 nodes), "
          "transplanted rules up to 20 nodes; integrands are arbitrary functions (one value in "
          "[-1,1], or [0,1], per point sampled; points closer than 1e-9 count as one)")


class Values:
    """An arbitrary function: one variable per point asked for."""
    def __init__(self, env, lo, hi, flat=False, name="F"):
        self.env, self.lo, self.hi, self.flat, self.name = env, lo, hi, flat, name
        self.points, self.vars = np.empty((0, 0)), []

    def at(self, x):
        x = np.asarray(x, dtype=float)
        d, n = x.shape
        if not self.vars:
            self.points = np.empty((d, 0))
        out = []
        for i in range(n):
            k = -1
            if self.vars:
                dist = np.abs(self.points - x[:, i:i + 1]).max(axis=0)
                k = int(dist.argmin())
                if dist[k] > 1e-9:
                    k = -1
            if k < 0:
                k = len(self.vars)
                self.vars.append(self.env.real(f"{self.name}{k}", self.lo, self.hi))
                self.points = np.hstack([self.points, x[:, i:i + 1]])
            out.append(self.vars[k])
        return vec(self.env, out)

    def __call__(self, x):
        return self.at(np.reshape(x, (1, -1)) if self.flat else x)


def generators(dims, swap=True):
    """Generators of the symmetry group of a product of simplices, as (A, b)."""
    d = sum(dims)
    out = []
    for k, m in enumerate(dims):
        o = sum(dims[:k])
        v = np.hstack([np.zeros((m, 1)), np.eye(m)]) * 2 - 1
        perms = [[1, 0, *range(2, m + 1)]]
        if m > 1:
            perms.append([*range(1, m + 1), 0])
        for p in perms:
            w = v[:, p]
            a, b = np.eye(d), np.zeros(d)
            sub = (w[:, 1:] - w[:, :1]) / 2
            a[o:o + m, o:o + m] = sub
            b[o:o + m] = w[:, 0] - sub @ v[:, 0]
            out.append((a, b))
    if swap and len(dims) > 1 and set(dims) == {1}:
        for p in ([1, 0, *range(2, d)], [*range(1, d), 0]):
            out.append((np.eye(d)[p], np.zeros(d)))
    return out


def barycentric(dims, x):
    """Per factor, the barycentric coordinates of the points."""
    out, o = [], 0
    for m in dims:
        last = (1 + x[o:o + m]) / 2
        out.append(np.vstack([1 - last.sum(axis=0), last]))
        o += m
    return out


def inside(env, q, dims, label):
    """A function that is affine in one factor and non-negative at its vertices is
    non-negative wherever the rule samples."""
    seen = []

    def f(x):
        x = np.atleast_2d(np.asarray(x, dtype=float))
        seen.append(x)
        return np.ones(x.shape[-1])

    env.run(q, f)
    env.true(len(seen) > 0, label + " samples the integrand")
    for x in seen:
        env.true(x.shape[0] == sum(dims) and bool(np.isfinite(x).all()), label + " points")
        for k, bary in enumerate(barycentric(dims, x)):
            c = vec(env, env.reals(f"v{k}_", len(bary), 0, 1))
            env.never([[(e + 1e-12, "lt") for e in bary.T @ c]], f"{label} inside factor {k}")


def check(env, q, dims, label, positive=True, symmetric=True, flat=False, swap=True):
    inside(env, q, dims, label)
    if positive:
        f = Values(env, 0, 1, flat, "P")
        r = env.call(q, f)
        env.le(1e-9 * (sum(f.vars) if positive == "strict" else 0), r, 1e-12,
               label + " positive")
    if symmetric:
        f = Values(env, -1, 1, flat)
        r = env.call(q, f)
        for k, (a, b) in enumerate(generators(dims, swap)):
            def g(x, a=a, b=b):
                x = np.reshape(x, (1, -1)) if flat else np.asarray(x)
                return f.at((a @ x).T.__add__(b).T)
            env.eq(env.call(q, g), r, 1e-10, f"{label} symmetry {k}")


TABLES = {
    # name: (constructor(order, dim), factor dimensions, positive, symmetric)
    "xg": (lambda n, d: mp.XiaoGimbutasSimplexQuadrature(n, d), True, False),
    "vr": (lambda n, d: mp.VioreanuRokhlinSimplexQuadrature(n, d), True, True),
    "js": (lambda n, d: mp.JaskowiecSukumarQuadrature(n, d), True, True),
    "gm": (lambda n, d: mp.GrundmannMoellerSimplexQuadrature(n, d), False, True),
    "wv": (lambda n, d: mp.WitherdenVincentQuadrature(n, d), True, True),
}


def table(env, rule, dim, orders):
    make, positive, symmetric = TABLES[rule]
    some = False
    for n in orders:
        try:
            q = make(n, dim)
        except mp.QuadratureRuleUnavailable:
            continue
        some = True
        check(env, q, [1] * dim if rule == "wv" else [dim], f"{rule}{dim} order {n}",
              positive and "strict", symmetric)
    env.true(some, "some order exists")


ONED = {
    "lg": lambda n, f: mp.LegendreGaussQuadrature(n, force_dim_axis=f),
    "lgscipy": lambda n, f: mp.LegendreGaussQuadrature(n, "scipy", f),
    "lgl": lambda n, f: mp.LegendreGaussLobattoQuadrature(n, force_dim_axis=f),
    "cc": lambda n, f: mp.ClenshawCurtisQuadrature(n, force_dim_axis=f),
    "fejer1": lambda n, f: mp.FejerQuadrature(n, 1, force_dim_axis=f),
    "fejer2": lambda n, f: mp.FejerQuadrature(n, 2, force_dim_axis=f),
    "cheb1": lambda n, f: mp.ChebyshevGaussQuadrature(n, 1, force_dim_axis=f),
    "cheb2": lambda n, f: mp.ChebyshevGaussQuadrature(n, 2, force_dim_axis=f),
}


def oned(env, rule, orders):
    for n in orders:
        for flat in (True, False):
            check(env, ONED[rule](n, not flat), [1], f"{rule} N={n}", "strict", flat=flat)


def kronrod(env, orders):
    for n in orders:
        q = make_kronrod_quadrature(n)
        check(env, q, [1], f"kronrod {n}", "strict", flat=True)
        check(env, q.gauss_quadrature, [1], f"embedded gauss {n}", "strict", flat=True)


def jacobi(env, alpha, beta, orders):
    """Weights of other rules are positive too; equal exponents make the rule even."""
    for n in orders:
        check(env, mp.JacobiGaussQuadrature(alpha, beta, n, force_dim_axis=True), [1],
              f"jacobi({alpha},{beta}) {n}", True, alpha == beta)
        if alpha == beta:
            check(env, mp.GaussGegenbauerQuadrature(alpha, n, force_dim_axis=True), [1],
                  f"gegenbauer {alpha} {n}")


def lg(n):
    return mp.LegendreGaussQuadrature(n, force_dim_axis=True)


MIXED = {
    "lg-lg": lambda: ([lg(2), lg(2)], [1, 1], True),
    "lg-lg-lg": lambda: ([lg(1), lg(1), lg(1)], [1, 1, 1], True),
    "lg-other": lambda: ([lg(1), lg(3)], [1, 1], False),
    "cc-lg-fejer": lambda: ([mp.ClenshawCurtisQuadrature(3, force_dim_axis=True), lg(1),
                             mp.FejerQuadrature(2, force_dim_axis=True)], [1, 1, 1], False),
    "vr-lg": lambda: ([mp.VioreanuRokhlinSimplexQuadrature(3, 2), lg(2)], [2, 1], False),
    "lg-vr": lambda: ([lg(2), mp.VioreanuRokhlinSimplexQuadrature(2, 2)], [1, 2], False),
    "js-lg": lambda: ([mp.JaskowiecSukumarQuadrature(3 + 1, 3), lg(1)], [3, 1], False),
    "wv-lg": lambda: ([mp.WitherdenVincentQuadrature(3, 2), lg(1)], [1, 1, 1], False),
    "lgl^2": lambda: (mp.LegendreGaussLobattoTensorProductQuadrature(3, 2), [1, 1], True),
    "lg^3": lambda: (mp.LegendreGaussTensorProductQuadrature(2, 3), [1, 1, 1], True),
}


def mixed(env, which):
    quads, dims, swap = MIXED[which]()
    q = mp.TensorProductQuadrature(quads) if isinstance(quads, list) else quads
    check(env, q, dims, which, "strict", True, swap=swap)


def space(env, desc, order):
    sp, shape = make_space(desc, order)
    q = mp.quadrature_for_space(sp, shape)
    dims = factors(desc)
    if desc == "s0":
        r = env.call(q, lambda x: vec(env, [env.real("F", 0, 1)] * x.shape[-1]))
        env.eq(r, env.real("F", 0, 1), 1e-12, "value at the point")
        return
    check(env, q, dims, f"{desc} {order}", "strict", False)


def moved(env, n, rule):
    """Nodes of a rule moved to [a, b] lie in [a, b], and it stays positive."""
    a = env.real("a", -2, 2)
    length = env.real("l", 0.0625, 4)
    q = {"lg": lambda: mp.LegendreGaussQuadrature(n - 1),
         "fejer": lambda: mp.FejerQuadrature(n, 1)}[rule]()
    t = env.call(Transformed1DQuadrature, q, a, a + length)
    xs = []

    def f(x):
        xs.append(x)
        return vec(env, fv)

    fv = env.reals("P", n, 0, 1)
    r = env.call(t, f)
    for x in xs:
        env.true(np.shape(x) == (n,), "points")
        for xi in x:
            env.le(a, xi + 1e-12, label="not left of the interval")
            env.le(xi, a + length + 1e-12, label="not right of the interval")
    env.le(0, r + 1e-12, label="positive")


TRANSPLANTS = {
    "identity": tm.map_identity,
    "sausage3": partial(tm.map_sausage, degree=3),
    "sausage9": partial(tm.map_sausage, degree=9),
    "sausage17": partial(tm.map_sausage, degree=17),
    "kte-rho": partial(tm.map_kosloff_tal_ezer, rho=1.4),
    "kte-alpha": partial(tm.map_kosloff_tal_ezer, alpha=0.9),
    "strip": partial(tm.map_strip, rho=1.4),
}


def transplanted(env, which, ns):
    for n in ns:
        q = tm.transplanted_legendre_gauss_quadrature(n, TRANSPLANTS[which])
        check(env, q, [1], f"{which} {n}", "strict", True, flat=True)


def obligations(tier, seed):
    big = tier == "thorough"
    for dim, step, top in ((2, 5, 50), (3, 5, 15)):
        for lo in range(1, top + 1, step):
            yield (f"xg{dim}-{lo}", "table",
                   dict(rule="xg", dim=dim, orders=list(range(lo, lo + step))))
    for dim, top in ((2, 20), (3, 10)):
        for lo in range(0, top + 1, 4):
            yield (f"vr{dim}-{lo}", "table",
                   dict(rule="vr", dim=dim, orders=list(range(lo, lo + 4))))
    for lo in range(0, 21, 3):
        if lo + 2 >= 2:
            yield f"js3-{lo}", "table", dict(rule="js", dim=3, orders=list(range(lo, lo + 3)))
    for dim, top in ((1, 6), (2, 6), (3, 4), (4, 3), (5, 2)):
        yield f"gm{dim}", "table", dict(rule="gm", dim=dim, orders=list(range(top + 1)))
    yield "wv2", "table", dict(rule="wv", dim=2, orders=list(range(1, 22)))
    yield "wv3", "table", dict(rule="wv", dim=3, orders=list(range(1, 12)))
    top = 128 if big else 64
    for rule in ONED:
        first = 0 if rule in ("lg", "lgscipy", "cheb1", "cheb2") else 1
        first = 2 if rule == "fejer2" else first
        for lo in range(first, top, 8):
            yield (f"{rule}-{lo}", "oned",
                   dict(rule=rule, orders=list(range(lo, min(lo + 8, top)))))
    for lo in range(1, top // 2, 8):
        yield f"kronrod-{lo}", "kronrod", dict(orders=list(range(lo, lo + 8)))
    for a in (-0.5, 0, 0.25, 1, 2.5):
        for b in (-0.75, 0, 0.25, 1, 4):
            yield (f"jacobi-{a}-{b}", "jacobi",
                   dict(alpha=a, beta=b, orders=list(range(25 if big else 13))))
    for which in MIXED:
        yield f"mixed-{which}", "mixed", dict(which=which)
    for desc, n in (("s0", 0), ("s1", 6), ("s2", 6), ("s3", 6), ("h2", 4), ("h3", 3), ("p", 4),
                    ("q", 4), ("g", 2), ("w", 2)):
        for k in range(n + 1):
            yield f"space-{desc}-{k}", "space", dict(desc=desc, order=k)
    for rule in ("lg", "fejer"):
        for n in (1, 2, 3, 4):
            yield f"moved-{rule}-{n}", "moved", dict(n=n, rule=rule)
    for which in TRANSPLANTS:
        yield (f"transplanted-{which}", "transplanted",
               dict(which=which, ns=[1, 2, 3, 4, 7, 12, 20]))
