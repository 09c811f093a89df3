"""Weight-1 quadrature rules integrate exactly to their advertised degree."""
import numpy as np

import modepy as mp
from modepy.quadrature import isinf
from modepy.quadrature.kronrod import gauss, make_kronrod_quadrature

from .common import (cartesian_ortho, factors, functional, legendre_all, ortho_basis,
                     ortho_simplex, volume)

BOUNDS = ("rules: Xiao-Gimbutas triangle 1-50, tetrahedron 1-15; Vioreanu-Rokhlin 2D 0-19, "
          "3D 0-10; Witherden-Vincent square 1-21 odd, cube 1-11 odd; Jaskowiec-Sukumar "
          "all tabulated; Grundmann-Moeller dim 0-7 (order by dim); Legendre-Gauss, "
          "Lobatto, Clenshaw-Curtis, Fejer 1/2 with up to 128 (thorough 256, Lobatto 160) nodes, "
          "both backends; Gauss-Kronrod; tensor-product rules. For every rule the "
          "integrand is an arbitrary polynomial of the advertised degree with "
          "coefficients in [-1,1] in an L2-orthogonal basis; integrands with more than "
          "4000 coefficient-node pairs enter through the vector of basis integrals")

SIMPLEX = {
    "xg": lambda n, d: mp.XiaoGimbutasSimplexQuadrature(n, d),
    "vr": lambda n, d: mp.VioreanuRokhlinSimplexQuadrature(n, d),
    "js": lambda n, d: mp.JaskowiecSukumarQuadrature(n, d),
    "gm": lambda n, d: mp.GrundmannMoellerSimplexQuadrature(n, d),
}
MIN_EXACT = {"xg": lambda n: n, "vr": lambda n: n, "js": lambda n: n,
             "gm": lambda n: 2 * n + 1, "wv": lambda n: n}
TOL = {"xg": 1e-10, "vr": 1e-10, "js": 1e-10, "gm": 1e-9, "wv": 1e-10}


def ref_vector(k, vol):
    r = np.zeros(k)
    r[0] = float(vol)
    return r


def check_nodes_shape(env, q, d, label):
    x, w = np.asarray(q.nodes), np.asarray(q.weights)
    env.true(x.ndim == 2 and x.shape[0] == d and w.shape == (x.shape[1],)
             and q.dim == d, f"{label} shapes")


def simplex(env, rule, orders, dim):
    for n in orders:
        q = SIMPLEX[rule](n, dim)
        lab = f"{rule}{dim} order {n}"
        check_nodes_shape(env, q, dim, lab)
        if dim == 0:
            env.true(isinf(q.exact_to), lab + " exact_to")
            functional(env, q, lambda x: np.ones((1, x.shape[1])), [1.0], 1e-12, lab)
            continue
        env.true(q.exact_to >= MIN_EXACT[rule](n), lab + " exact_to at least the degree "
                 "asked for")
        deg = q.exact_to
        K = ortho_simplex(dim, deg, np.zeros((dim, 1))).shape[0]
        functional(env, q, lambda x: ortho_simplex(dim, deg, x),
                   ref_vector(K, volume([dim])), TOL[rule] * max(1, K / 20), lab,
                   nx=len(q.weights))


def cube_rule(env, orders, dim):
    for n in orders:
        q = mp.WitherdenVincentQuadrature(n, dim)
        lab = f"wv{dim} order {n}"
        check_nodes_shape(env, q, dim, lab)
        env.true(q.exact_to >= n, lab + " exact_to at least the degree asked for")
        deg = q.exact_to
        K = cartesian_ortho(dim, deg, np.zeros((dim, 1))).shape[0]
        functional(env, q, lambda x: cartesian_ortho(dim, deg, x),
                   ref_vector(K, 2 ** dim), 1e-10 * max(1, K / 20), lab,
                   nx=len(q.weights))


ONED = {
    # name: (constructor(n, force), nodes(n), documented degree)
    "lg": (lambda n, f: mp.LegendreGaussQuadrature(n, force_dim_axis=f),
           lambda n: n + 1, lambda n: 2 * n + 1),
    "lgscipy": (lambda n, f: mp.LegendreGaussQuadrature(n, "scipy", f),
                lambda n: n + 1, lambda n: 2 * n + 1),
    "lgl": (lambda n, f: mp.LegendreGaussLobattoQuadrature(n, force_dim_axis=f),
            lambda n: n + 1, lambda n: 2 * n - 1),
    "lglscipy": (lambda n, f: mp.LegendreGaussLobattoQuadrature(
                     n, backend="scipy", force_dim_axis=f),
                 lambda n: n + 1, lambda n: 2 * n - 1),
    "cc": (lambda n, f: mp.ClenshawCurtisQuadrature(n, force_dim_axis=f),
           lambda n: n + 1, lambda n: n),
    "fejer1": (lambda n, f: mp.FejerQuadrature(n, 1, force_dim_axis=f),
               lambda n: n, lambda n: n - 1),
    "fejer2": (lambda n, f: mp.FejerQuadrature(n, 2, force_dim_axis=f),
               lambda n: n - 1, lambda n: n - 2),
}


def norm_legendre(n, x):
    return np.array([p * np.sqrt(2 * k + 1) for k, p in enumerate(legendre_all(n, x))])


def oned(env, rule, orders):
    make, npts, degree = ONED[rule]
    for n in orders:
        for force in (True, False):
            q = make(n, force)
            lab = f"{rule} N={n} force_dim_axis={force}"
            env.true(np.shape(q.nodes) == ((1, npts(n)) if force else (npts(n),))
                     and np.shape(q.weights) == (npts(n),) and q.dim == 1,
                     lab + " shapes")
            deg = degree(n)
            if not rule.startswith("fejer"):
                env.true(q.exact_to >= deg, lab + " exact_to")
                deg = q.exact_to
            else:
                try:
                    q.exact_to
                    deg = max(deg, q.exact_to)
                except AttributeError:
                    pass
            functional(env, q,
                       lambda x: norm_legendre(deg, x[0] if force else x),
                       ref_vector(deg + 1, 2), 1e-10 * max(1, n / 10), lab,
                       nx=npts(n))


def kronrod(env, orders):
    for n in orders:
        q = make_kronrod_quadrature(n)
        g = q.gauss_quadrature
        env.true(q.exact_to >= 3 * n + 1 and g.exact_to >= 2 * n - 1,
                 f"kronrod {n} exact_to")
        env.true(np.shape(g.nodes) == (n,) and np.shape(q.nodes) == (n + 1,)
                 and np.shape(q.weights_at_gauss_nodes) == (n,)
                 and np.shape(q.weights) == (n + 1,), f"kronrod {n} sizes")
        alone = mp.Quadrature(*gauss(n), exact_to=2 * n - 1)
        env.true(np.shape(alone.nodes) == np.shape(alone.weights) == (n,), f"gauss {n} sizes")
        for r, lab in ((q, f"kronrod {n}"), (g, f"kronrod {n} embedded gauss"),
                       (alone, f"gauss {n}")):
            d = r.exact_to
            functional(env, r, lambda x: norm_legendre(d, x), ref_vector(d + 1, 2),
                       1e-9 * max(1, n / 10), lab, nx=2 * n + 1)


def tensor(env, kind, n, dim):
    if kind == "lg":
        q = mp.LegendreGaussTensorProductQuadrature(n, dim)
        deg = 2 * n + 1
    else:
        q = mp.LegendreGaussLobattoTensorProductQuadrature(n, dim)
        deg = 2 * n - 1
    lab = f"{kind} tensor {n}^{dim}"
    check_nodes_shape(env, q, dim, lab)
    env.true(q.exact_to >= deg, lab + " exact_to")
    deg = q.exact_to
    # exact on every per-axis degree, not only in total degree
    K = ortho_basis([1] * dim, deg, np.zeros((dim, 1))).shape[0]
    functional(env, q, lambda x: ortho_basis([1] * dim, deg, x),
               ref_vector(K, 2 ** dim), 1e-10 * max(1, K / 20), lab, nx=len(q.weights))


def lg(n):
    return mp.LegendreGaussQuadrature(n, force_dim_axis=True)


MIXED = {
    "lg0xlg4": lambda: [lg(0), lg(4)],
    "lg3xlg1": lambda: [lg(3), lg(1)],
    "lg1xlg0xlg2": lambda: [lg(1), lg(0), lg(2)],
    "cc3xlg2": lambda: [mp.ClenshawCurtisQuadrature(3, force_dim_axis=True), lg(2)],
    "lg1xxg7": lambda: [lg(1), mp.XiaoGimbutasSimplexQuadrature(7, 2)],
    "xg2xlg4": lambda: [mp.XiaoGimbutasSimplexQuadrature(2, 2), lg(4)],
    "xg3xlg1": lambda: [mp.XiaoGimbutasSimplexQuadrature(3, 3), lg(1)],
    "fejer4xlg1": lambda: [mp.FejerQuadrature(4, force_dim_axis=True), lg(1)],
    "lg2xfejer3": lambda: [lg(2), mp.FejerQuadrature(3, 2, force_dim_axis=True)],
}


def mixed(env, which):
    """Products of different rules: exact to whatever degree they advertise, at least that
    of the factor of lowest degree; none advertised when a factor advertises none."""
    quads = MIXED[which]()
    q = mp.TensorProductQuadrature(quads)
    dims = [r.dim for r in quads]
    check_nodes_shape(env, q, sum(dims), which)
    if "fejer" in which:
        env.true(not hasattr(q, "exact_to"), which + " advertises no degree")
        deg = 3 if which.startswith("fejer4") else 1
    else:
        deg = q.exact_to
        env.true(deg >= min(r.exact_to for r in quads), which + " exact_to")
    K = ortho_basis(dims, deg, np.zeros((sum(dims), 1))).shape[0]
    functional(env, q, lambda x: ortho_basis(dims, deg, x), ref_vector(K, volume(dims)),
               1e-10 * max(1, K / 20), which, nx=len(q.weights))


def unavailable(env):
    """Rules that do not exist are refused, not silently replaced."""
    cases = [(mp.XiaoGimbutasSimplexQuadrature, [(51, 2), (16, 3), (0, 2), (5, 1), (5, 4),
                                                 (-1, 2)]),
             (mp.VioreanuRokhlinSimplexQuadrature, [(25, 2), (11, 3), (3, 1), (3, 4)]),
             (mp.WitherdenVincentQuadrature, [(2, 2), (4, 3), (23, 2), (13, 3), (3, 1)]),
             (mp.JaskowiecSukumarQuadrature, [(25, 3), (3, 2), (-1, 3)])]
    for cls, args in cases:
        for a in args:
            try:
                cls(*a)
            except mp.QuadratureRuleUnavailable:
                ok = True
            else:
                ok = False
            env.true(ok, f"{cls.__name__}{a} unavailable")
    for cls, args in [(mp.LegendreGaussLobattoQuadrature, [(0,), (-1,)]),
                      (mp.ClenshawCurtisQuadrature, [(0,), (-1,)]),
                      (mp.FejerQuadrature, [(0, 1), (-1, 1), (0, 2), (1, 2), (3, 0), (3, 3)]),
                      (make_kronrod_quadrature, [(0,), (-1,)]), (gauss, [(0,), (-1,)])]:
        for a in args:
            try:
                cls(*a)
            except Exception:
                ok = True
            else:
                ok = False
            env.true(ok, f"{cls.__name__}{a} refused")


def obligations(tier, seed):
    big = tier == "thorough"
    for lo, hi in [(48, 50), (44, 47), (40, 43), (35, 39), (30, 34), (21, 29), (1, 20)]:
        yield f"xg2-{lo}-{hi}", "simplex", dict(rule="xg", orders=list(range(lo, hi + 1)), dim=2)
    for lo in range(1, 16, 3):
        yield f"xg3-{lo}-{lo+2}", "simplex", dict(rule="xg", orders=list(range(lo, lo + 3)), dim=3)
    from modepy.quadrature.vr_quad_data_tet import tetrahedron_data as vr3
    from modepy.quadrature.vr_quad_data_tri import triangle_data as vr2
    for lo in range(0, 21, 5):
        yield f"vr2-{lo}-{lo+4}", "simplex", dict(rule="vr", dim=2,
            orders=[k for k in range(lo, lo + 5) if k in vr2 or k < 20])
    yield "vr3-0-5", "simplex", dict(rule="vr", orders=list(range(6)), dim=3)
    yield "vr3-6-10", "simplex", dict(rule="vr", orders=list(range(6, 11)), dim=3)
    for lo in range(0, 20, 4):
        yield f"js3-{lo}-{lo+3}", "simplex", dict(rule="js", orders=list(range(lo, lo + 4)), dim=3)
    for dim, top in [(0, 2), (1, 6), (2, 6), (3, 5), (4, 3), (5, 2), (6, 2), (7, 1)] + (
            [(4, 4), (5, 3)] if big else []):
        yield f"gm{dim}-0-{top}", "simplex", dict(rule="gm", orders=list(range(top + 1)), dim=dim)
    yield "wv2", "cube_rule", dict(orders=list(range(1, 22, 2)), dim=2)
    yield "wv3", "cube_rule", dict(orders=list(range(1, 12, 2)), dim=3)
    top = 256 if big else 128
    for rule, first in [("lg", 0), ("lgscipy", 0), ("lgl", 1), ("lglscipy", 1), ("cc", 1),
                        ("fejer1", 1), ("fejer2", 2)]:
        # (Lobatto weights beyond 168 are refused with an OverflowError)
        last = min(top, 160) if rule[:3] == "lgl" else top
        for lo in range(first, last + 1, 8):
            hi = min(lo + 7, last)
            yield f"{rule}-{lo}-{hi}", "oned", dict(rule=rule, orders=list(range(lo, hi + 1)))
    for lo in range(1, top + 1, 8):
        yield f"kronrod-{lo}-{lo+7}", "kronrod", dict(orders=list(range(lo, lo + 8)))
    for kind in ("lg", "lgl"):
        for dim, ns in [(1, [1, 4]), (2, [1, 3, 6]), (3, [1, 2, 4]), (4, [1, 2])]:
            for n in ns:
                yield f"tensor-{kind}-{dim}d-{n}", "tensor", dict(kind=kind, n=n, dim=dim)
    for which in MIXED:
        yield f"mixed-{which}", "mixed", dict(which=which)
    yield "unavailable", "unavailable", {}
