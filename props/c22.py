"""Tools for building quadrature rules."""
import math
import warnings

import numpy as np

import modepy as mp
from modepy.quadrature import construction as cm
from modepy.quadrature.construction import (LinearCombinationIntegrand,
                                            adapt_2d_integrands_to_complex_arg,
                                            find_weights_undetermined_coefficients,
                                            guess_nodes_vioreanu_rokhlin, linearly_combine,
                                            orthogonalize_basis, quad_gauss_newton_increment,
                                            quad_residual_and_jacobian)
from symx import harness, sym

from .common import make_space, obj, ortho_basis, random_params_points

BOUNDS = ("linear combinations of up to 4 functions, two levels deep, arbitrary coefficients "
          "and function values; orthogonalisation and nodes: arbitrary inner products for 1-3 "
          "(nodes: 2) functions, polynomial bases up to 15 functions in 1-3 dimensions; "
          "weights and Gauss-Newton increments: arbitrary 1x1 to 3x3, 3x2 and 2x3 systems, "
          "concrete systems up to 20x35 with arbitrary right-hand sides; Jacobians: arbitrary "
          "nodes and weights, 1-3 dimensions, up to 3 nodes and 6 integrands")


class Fn:
    """A function given by its values at the nodes 0, 1, ... (its argument is ignored)."""

    def __init__(self, values):
        self.values = values

    def __call__(self, x):
        return self.values


def linear(env, n, npts):
    """Combination of plain functions."""
    c = env.reals("c", n, -2, 2)
    v = env.reals("v", (n, npts), -2, 2)
    f = [Fn(v[i]) for i in range(n)]
    for make in (LinearCombinationIntegrand, linearly_combine):
        lc = env.call(make, c, f)
        r = env.call(lc, np.zeros(npts))
        env.eq(np.broadcast_to(r, (npts,)), c @ v if n else np.zeros(npts), 1e-11,
               "combination")
    for k in (n - 1, n + 1):
        if k < 0:
            continue
        try:
            env.call(LinearCombinationIntegrand, env.reals("d", k, -1, 1), f)
        except AssertionError:
            ok = True
        else:
            ok = False
        env.true(ok, "number of coefficients")


def nested(env, sizes, npts, kind, seq):
    """Combination of combinations: same values, flattened over the common basis."""
    seq = {"list": list, "tuple": tuple}[seq]
    m = max(sizes, default=0)
    n = len(sizes)
    v = env.reals("v", (m, npts), -2, 2)
    f = [Fn(v[i]) for i in range(m)]
    other = [Fn(v[i]) for i in range(m)]
    c = env.reals("c", n, -2, 2)
    inner, vals = [], []
    for i, k in enumerate(sizes):
        d = env.reals(f"d{i}", k, -2, 2)
        fs = f[:k]
        if kind == "foreign" and i == n - 1:
            fs = other[:k]
        if kind == "mixed" and i == n - 1:
            inner.append(Fn(d @ v[:k]))
        else:
            inner.append(env.call(LinearCombinationIntegrand, d, seq(fs)))
        vals.append(d @ v[:k])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if env.symbolic:
            harness.trace_functions(True)
            with sym.patched():
                lc = linearly_combine(c, seq(inner))
            harness.trace_functions(False)
        else:
            lc = linearly_combine(c, seq(inner))
    r = env.call(lc, np.zeros(npts))
    env.eq(np.broadcast_to(r, (npts,)), c @ np.array(vals), 1e-11, "combination")
    if kind == "common":
        env.true(not w, "no warning")
        env.true(isinstance(lc, LinearCombinationIntegrand)
                 and list(lc.functions) == f and len(lc.coefficients) == m, "flattened")
    else:
        env.true(len(w) == 1, "announced that it is not flattened")


def _solve_triangular(a, b, lower=False, **kw):
    from scipy.linalg import solve_triangular
    if not sym._symmat(a) and not sym._symmat(b):
        return solve_triangular(a, b, lower=lower, **kw)
    if not lower or kw:
        raise sym.Unsupported("solve_triangular")
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    x = sym.zeros_obj(b.shape)
    for i in range(len(a)):
        r = b[i]
        for j in range(i):
            r = r - a[i, j] * x[j]
        x[i] = r / a[i, i]
    return x


def tcall(env, fn, *args, **kw):
    if env.symbolic:
        import scipy.linalg
        harness.PATCH_EXTRA[:] = [(scipy.linalg, "solve_triangular", _solve_triangular)]
    try:
        return env.call(fn, *args, **kw)
    finally:
        harness.PATCH_EXTRA.clear()


def orthogonal(env, n):
    """Arbitrary inner product: basis values at n nodes form any triangular matrix."""
    v = obj(env, (n, n))
    v[...] = 0
    for i in range(n):
        for j in range(i):
            v[i, j] = env.real(f"v{i}{j}", -1, 1)
        v[i, i] = env.real(f"v{i}{i}", 0.5, 2)

    def integrate(f):
        return sum(f(np.zeros(n)))
    onb = tcall(env, orthogonalize_basis, integrate, [Fn(v[i]) for i in range(n)])
    env.true(len(onb) == n, "size")
    q = [env.call(f, np.zeros(n)) for f in onb]
    for i in range(n):
        for j in range(n):
            env.eq(sum(q[i] * q[j]), float(i == j), 1e-10, f"inner product {i},{j}")
        env.true(len(onb[i].functions) <= i + 1, "triangular")


def ortho_poly(env, desc, order, kind):
    """Polynomial bases with an exact integral; complex combinations included."""
    space, shape = make_space(desc, order)
    quad = mp.quadrature_for_space(mp.space_for_shape(shape, 2 * order), shape)
    base = list(mp.basis_for_space(space, shape).functions)
    n = len(base)
    rng = np.random.default_rng(5)
    mix = np.eye(n) + 0.3 * rng.normal(size=(n, n))
    if kind == "complex":
        mix = mix + 0.4j * rng.normal(size=(n, n))

    def make(i):
        return lambda x: sum(mix[i, k] * base[k](x) for k in range(n))
    fs = [make(i) for i in range(n)]
    if kind == "tuple":
        fs = tuple(fs)
    onb = env.run(orthogonalize_basis, quad, fs)
    x, w = quad.nodes, quad.weights
    q = np.array([f(x) for f in onb])
    g = (q * w) @ q.conj().T - np.eye(n)
    env.lin(g.real, 1e-9, "orthonormal")
    env.lin(g.imag, 1e-9, "orthonormal")
    # i-th function in the span of the first i+1
    v = np.array([f(x) for f in fs])
    for i in range(n):
        c, res, *_ = np.linalg.lstsq(v[:i + 1].T, q[i], rcond=None)
        env.eq(np.abs(c @ v[:i + 1] - q[i]).max(), 0, 1e-8, f"span {i}")
    # combinations of the result are flattened
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        d = rng.normal(size=n)
        lc = linearly_combine(d, onb)
    env.true(not rec and list(lc.functions) == list(fs), "flattened")
    e = (np.array([linearly_combine(r, onb)(x) for r in np.eye(n)]) - q).T
    env.lin(e.real, 1e-9, "values of the flattened combination")
    env.lin(e.imag, 1e-9, "values of the flattened combination")


class CPoints:
    def __init__(self, re, im):
        self.real, self.imag = re, im


def adapt(env, n):
    x, y = env.reals("x", n, -1, 1), env.reals("y", n, -1, 1)
    c = env.reals("c", 4, -1, 1)
    f = [lambda p: c[0] + c[1] * p[0] + c[2] * p[1] * p[1], lambda p: c[3] * p[0] * p[1]]
    g = env.call(adapt_2d_integrands_to_complex_arg, f)
    env.true(len(g) == 2, "one each")
    for a, b in zip(f, g):
        z = CPoints(x, y) if env.symbolic else x + 1j * y
        env.eq(env.call(b, z), a(np.array([x, y])), 1e-12, "value")


def nodes_small(env):
    """Two functions orthonormal under an arbitrary discrete inner product."""
    c, s = env.real("c", -1, 1), env.real("s", -1, 1)
    x = env.reals("x", 2, -2, 2)
    env.assume(c * c + s * s >= 1 - 1e-12)
    env.assume(c * c + s * s <= 1 + 1e-12)
    v = obj(env, (2, 2))
    v[0] = [c, s]
    v[1] = [-s, c]
    z = env.call(guess_nodes_vioreanu_rokhlin, lambda f: sum(f(x)), [Fn(v[0]), Fn(v[1])])
    m = [[sum(x * v[i] * v[j]) for j in range(2)] for i in range(2)]
    env.true(np.shape(z) == (2,), "shape")
    env.eq(z[0] + z[1], m[0][0] + m[1][1], 1e-9, "trace")
    env.eq(z[0] * z[1], m[0][0] * m[1][1] - m[0][1] * m[1][0], 1e-9, "determinant")


def nodes_interval(env, n, lo, hi):
    """On an interval these are the Gauss nodes: with the weights found for them every
    polynomial of degree 2n-1 is integrated."""
    from modepy.quadrature import Transformed1DQuadrature
    quad = Transformed1DQuadrature(mp.LegendreGaussQuadrature(n + 2), lo, hi)
    mid, half = (lo + hi) / 2, (hi - lo) / 2

    def leg(k):
        return lambda x: np.polynomial.legendre.legval(
            (x - mid) / half, [0] * k + [1]) * math.sqrt((k + 0.5) / half)
    onb = [leg(k) for k in range(n)]
    z = env.run(guess_nodes_vioreanu_rokhlin, quad, onb)
    env.true(z.shape == (n,), "shape")
    z = np.sort(z.real)
    ref = np.zeros(2 * n)
    ref[0] = math.sqrt(2 * half)
    w = env.run(find_weights_undetermined_coefficients, onb, z, ref[:n])
    e = np.array([leg(k)(z) for k in range(2 * n)]) @ w - ref
    env.lin(e, 1e-9, "all polynomials of degree 2n-1")


def nodes_2d(env, order):
    """Nodes for the triangle: as many as functions, symmetric, unisolvent: the weights
    found for them integrate the space."""
    shape = mp.Simplex(2)
    space = mp.PN(2, order)
    quad = mp.quadrature_for_space(mp.PN(2, 2 * order + 1), shape)
    onb = mp.orthonormal_basis_for_space(space, shape).functions

    def cint(f):
        return (f(quad.nodes[0] + 1j * quad.nodes[1]) * quad.weights).sum()
    z = env.run(guess_nodes_vioreanu_rokhlin, cint, adapt_2d_integrands_to_complex_arg(onb))
    env.true(z.shape == (len(onb),), "shape")
    x = np.array([z.real, z.imag])
    env.true((x >= -1).all() and (x.sum(axis=0) <= 1e-10).all(), "inside")
    # the mirror image of the set is the set
    d = np.abs(z[:, None] - (z.imag + 1j * z.real)[None, :]).min(axis=0)
    env.true(d.max() < 1e-6, "symmetric")
    ref = np.zeros(len(onb))
    ref[0] = math.sqrt(2)
    w = env.run(find_weights_undetermined_coefficients, onb, x, ref)
    env.lin(np.array([f(x) for f in onb]) @ w - ref, 1e-8, "space integrated")


def nodes_mixed(env, desc, order, seed):
    """A complex orthonormal basis of the space: the nodes are the eigenvalues of
    multiplication by z on it, so every polynomial takes the same sum over them."""
    shape = mp.Simplex(2) if desc == "s2" else mp.Hypercube(2)
    space = mp.space_for_shape(shape, order)
    quad = mp.quadrature_for_space(mp.space_for_shape(shape, 2 * order + 1), shape)
    onb = adapt_2d_integrands_to_complex_arg(mp.orthonormal_basis_for_space(space, shape).functions)
    n = len(onb)
    rng = np.random.default_rng(seed)
    u = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    fs = [lambda z, r=r: sum(a * f(z) for a, f in zip(r, onb)) for r in u]
    x, wt = np.asarray(quad.nodes), np.asarray(quad.weights)
    zq = x[0] + 1j * x[1]
    z = env.run(guess_nodes_vioreanu_rokhlin, lambda f: (f(zq) * wt).sum(), fs)
    env.true(z.shape == (n,), "shape")
    q = ortho_basis(desc, [order] * (1 if desc == "s2" else 2), x)
    m = (q * wt * zq) @ q.T / wt.sum()
    e = []
    p = np.eye(n, dtype=complex)
    for k in range(1, min(n, 6) + 1):
        p = p @ m
        e.append((z ** k).sum() - np.trace(p))
    e = np.array(e)
    env.lin(e.real, 1e-8 * n, "polynomials summed over the nodes")
    env.lin(e.imag, 1e-8 * n, "polynomials summed over the nodes")


def weights_complex(env, n, extra, lo):
    """Complex integrands, every right-hand side."""
    fs = [lambda x, k=k: np.exp(1j * k * np.pi * x[0]) for k in range(lo, lo + n)]
    x = (-1 + 2 * (np.arange(n + extra) + 0.3) / (n + extra)).reshape(1, -1)
    v = np.array([f(x) for f in fs])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = np.array([env.run(find_weights_undetermined_coefficients, fs, x, e)
                      for e in np.eye(n)]).T
    e = v @ w - np.eye(n)
    if extra < 0:
        e = v.conj().T @ e
    env.lin(e.real, 1e-8, "exact" if extra >= 0 else "least squares")
    env.lin(e.imag, 1e-8, "exact" if extra >= 0 else "least squares")


def det(a):
    n = len(a)
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    return sum((-1) ** j * a[0, j] * det(np.delete(a[1:], j, axis=1)) for j in range(n))


def weights_sym(env, m, n, dim):
    """m integrands with arbitrary values at n nodes, arbitrary reference integrals."""
    v = env.reals("v", (m, n), -2, 2)
    ref = env.reals("r", m, -1, 1)
    g = v @ v.T if m < n else (v.T @ v if m > n else None)
    env.assume(det(v if g is None else g) >= 0.25)
    x = np.zeros(n) if dim is None else np.zeros((dim, n))
    w = env.call(find_weights_undetermined_coefficients, [Fn(v[i]) for i in range(m)], x, ref)
    env.true(np.shape(w) == (n,), "shape")
    res = v @ w - ref
    if m > n:
        env.eq(v.T @ res, np.zeros(n), 1e-8, "least squares")
    else:
        env.eq(res, np.zeros(m), 1e-8, "integrands are integrated")


def weights_conc(env, desc, order, m_order):
    """Nodes of an interpolatory set; every right-hand side (linear in it)."""
    space, shape = make_space(desc, order)
    x = mp.edge_clustered_nodes_for_space(space, shape)
    big, _ = make_space(desc, m_order)
    fs = mp.basis_for_space(big, shape).functions
    m, n = len(fs), x.shape[1]
    v = np.array([np.broadcast_to(f(x), (n,)) for f in fs])
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        cols = [find_weights_undetermined_coefficients(fs, x, e) for e in np.eye(m)]
    env.true(bool(rec) == (m < n), "underdetermined systems are announced")
    cols = [env.run(find_weights_undetermined_coefficients, fs, x, e) for e in np.eye(m)]
    w = np.array(cols).T
    e = v @ w - np.eye(m)
    env.lin(v.T @ e if m > n else e, 1e-8, "least squares" if m > n else "exact")


def weights_refused(env):
    fs = [lambda x: x[0], lambda x: x[1]]
    for k in (0, 1, 3):
        try:
            find_weights_undetermined_coefficients(fs, np.zeros((2, 2)), np.zeros(k))
        except ValueError:
            ok = True
        else:
            ok = False
        env.true(ok, f"{k} reference integrals for 2 integrands")


MONO = {
    1: [(0,), (1,), (2,), (5,)],
    2: [(0, 0), (1, 0), (0, 1), (1, 1), (3, 2), (0, 4)],
    3: [(0, 0, 0), (1, 0, 0), (0, 1, 2), (1, 1, 1), (0, 0, 3)],
}


def monomial(ex, dx=None):
    def f(p):
        p = p if p.ndim == 2 else p[None, :]
        e = list(ex)
        c = 1.0
        if dx is not None:
            c = float(e[dx])
            e[dx] = max(e[dx] - 1, 0)
        r = c + 0 * p[0]
        for a, k in enumerate(e):
            for _ in range(k):
                r = r * p[a]
        return r
    return f


def jacobian(env, dim, nn, flat):
    """Residual, and its derivatives with respect to every weight and every coordinate."""
    x = env.reals("x", nn if flat else (dim, nn), -1, 1)
    w = env.reals("w", nn, -1, 1)
    ref = env.reals("r", len(MONO[dim]), -1, 1)
    fs = [monomial(ex) for ex in MONO[dim]]
    ds = [[monomial(ex, a) for ex in MONO[dim]] for a in range(dim)]
    q = env.call(quad_residual_and_jacobian, x, w, fs, ds, ref)
    m = len(fs)
    xx = x.reshape(dim, nn)
    env.true(np.shape(q.residual) == (m,) and np.shape(q.dresid_dweights) == (m, nn)
             and np.shape(q.dresid_dnodes) == (m, dim * nn), "shapes")
    for i, f in enumerate(fs):
        env.eq(q.residual[i], sum(w * f(x)) - ref[i], 1e-11, "residual")
        for j in range(nn):
            if env.symbolic:
                env.eq(q.dresid_dweights[i, j], env.diff(q.residual[i], w[j]), 1e-11,
                       "derivative by weight")
            else:
                env.eq(q.dresid_dweights[i, j], f(x)[j], 1e-11, "derivative by weight")
            for a in range(dim):
                if env.symbolic:
                    env.eq(q.dresid_dnodes[i, a * nn + j], env.diff(q.residual[i], xx[a, j]),
                           1e-11, "derivative by node")
                else:
                    env.eq(q.dresid_dnodes[i, a * nn + j], w[j] * ds[a][i](x)[j], 1e-11,
                           "derivative by node")


def jacobian_refused(env):
    x, w = np.zeros((2, 3)), np.zeros(3)
    f = [monomial((0, 0)), monomial((1, 0))]
    for ds in ([f], [f, f, f], [f, f[:1]], [f + f, f]):
        try:
            quad_residual_and_jacobian(x, w, f, ds, np.zeros(2))
        except ValueError:
            ok = True
        else:
            ok = False
        env.true(ok, f"derivatives of shape {[len(d) for d in ds]}")


def newton_sym(env, m, nn, dim):
    """The increment is the least-squares solution of the linearised system."""
    n = nn * (1 + dim)
    jw = env.reals("a", (m, nn), -2, 2)
    jn = env.reals("b", (m, dim * nn), -2, 2)
    r = env.reals("r", m, -1, 1)
    j = np.hstack([jw, jn])
    env.assume(det(j @ j.T if m < n else (j.T @ j if m > n else j)) >= 0.25)
    q = cm.QuadratureResidualJacobian(r, jw, jn)
    dw, dx = env.call(quad_gauss_newton_increment, q)
    env.true(np.shape(dw) == (nn,) and np.shape(dx) == (dim, nn), "shapes")
    res = jw @ dw + jn @ dx.reshape(-1) + r
    env.eq(j.T @ res if m > n else res, np.zeros(n if m > n else m), 1e-8,
           "linearised residual")


def newton_conc(env, dim, nn, m, seed):
    rng = np.random.default_rng(seed)
    jw, jn = rng.normal(size=(m, nn)), rng.normal(size=(m, dim * nn))
    out = []
    for r in np.eye(m):
        dw, dx = env.run(quad_gauss_newton_increment, cm.QuadratureResidualJacobian(r, jw, jn))
        env.true(dw.shape == (nn,) and dx.shape == (dim, nn), "shapes")
        out.append(np.concatenate([dw, *dx]))
    j = np.hstack([jw, jn])
    e = j @ np.array(out).T + np.eye(m)
    env.lin(j.T @ e, 1e-9, "normal equations")


def newton_step(env, desc, order, seed):
    """One step from a perturbed rule decreases the residual to second order: for every
    direction of perturbation (symbolic), the linearised rule is the exact rule again."""
    space, shape = make_space(desc, order)
    quad = mp.quadrature_for_space(space, shape)
    dim = quad.dim
    nn = len(quad.weights)
    basis = mp.basis_for_space(space, shape)
    fs = basis.functions
    ds = [[(lambda x, f=f, a=a: np.broadcast_to(f(x)[a], x.shape[1:])) for f in
           basis.gradients] if dim > 1 else [(lambda x, f=f: f(x)[0]) for f in basis.gradients]
          for a in range(dim)]
    ref = np.array([(np.broadcast_to(f(quad.nodes), nn) * quad.weights).sum() for f in fs])
    rng = np.random.default_rng(seed)
    h = 1e-5
    px, pw = h * rng.normal(size=(dim, nn)), h * rng.normal(size=nn)
    q = env.run(quad_residual_and_jacobian, quad.nodes + px, quad.weights + pw, fs, ds, ref)
    dw, dx = env.run(quad_gauss_newton_increment, q)
    x2, w2 = quad.nodes + px + dx, quad.weights + pw + dw
    e = np.array([(np.broadcast_to(f(x2), nn) * w2).sum() for f in fs]) - ref
    env.lin(e, 1e-6, "all polynomials after one step")


def obligations(tier, seed):
    big = tier == "thorough"
    for n in (0, 1, 2, 3, 4):
        for npts in (1, 2):
            yield f"linear-{n}-{npts}", "linear", dict(n=n, npts=npts)
    for sizes in ([1], [2], [3], [1, 2], [2, 1], [2, 2], [3, 3], [1, 1, 1], [1, 2, 3],
                  [3, 1, 2], [2, 4], [4, 4], [2, 2, 2], [1, 1]):
        for seq in ("list", "tuple"):
            yield f"nested-{sizes}-{seq}", "nested", dict(
                sizes=sizes, npts=1, kind="common", seq=seq)
        if len(sizes) > 1:
            for kind in ("foreign", "mixed"):
                yield f"nested-{kind}-{sizes}", "nested", dict(
                    sizes=sizes, npts=1, kind=kind, seq="list")
    for n in (1, 2, 3):
        yield f"orthogonal-{n}", "orthogonal", dict(n=n)
    for desc, orders in (("s1", (1, 3, 6)), ("s2", (1, 2, 4)), ("s3", (1, 2)), ("h2", (1, 2)),
                         ("h3", (1,))):
        for order in orders:
            for kind in ("real", "complex", "tuple"):
                yield f"ortho-{desc}-{order}-{kind}", "ortho_poly", dict(
                    desc=desc, order=order, kind=kind)
    for n in (1, 3):
        yield f"adapt-{n}", "adapt", dict(n=n)
    yield "nodes-2", "nodes_small", {}
    for n in (1, 2, 3, 5, 8, 13) + ((20, 30) if big else ()):
        for lo, hi in ((-1, 1), (0, 1), (-0.5, 2)):
            yield f"nodes-interval-{n}-{lo}-{hi}", "nodes_interval", dict(n=n, lo=lo, hi=hi)
    for order in (1, 2, 3, 4) + ((5, 6) if big else ()):
        yield f"nodes-triangle-{order}", "nodes_2d", dict(order=order)
        for desc in ("s2", "h2") if order < 6 else ("s2",):
            for s in (1, 2):
                yield f"nodes-mixed-{desc}-{order}-{s}", "nodes_mixed", dict(
                    desc=desc, order=order, seed=s)
    for n in (1, 2, 3, 5, 8):
        for extra in (-1, 0, 1, 3):
            for lo in sorted({-(n // 2), 0, 1}):
                if n + extra > 0:
                    yield f"weights-complex-{n}-{extra}-{lo}", "weights_complex", dict(
                        n=n, extra=extra, lo=lo)
    for m, n in ((1, 1), (2, 2), (3, 3), (2, 1), (3, 2), (1, 2), (2, 3)):
        for dim in (None, 2) if max(m, n) < 3 or big else (2,):
            yield f"weights-{m}-{n}-{dim}", "weights_sym", dict(m=m, n=n, dim=dim)
    for desc, order in (("s1", 3), ("s1", 7), ("s2", 2), ("s2", 4), ("s3", 2), ("s3", 3),
                        ("h2", 2)):
        for mo in (order - 1, order, order + 1):
            yield f"weights-{desc}-{order}-{mo}", "weights_conc", dict(
                desc=desc, order=order, m_order=mo)
    yield "weights-refused", "weights_refused", {}
    for dim in (1, 2, 3):
        for nn in (1, 2, 3):
            for flat in (False, True) if dim == 1 else (False,):
                yield f"jacobian-{dim}-{nn}-{flat}", "jacobian", dict(dim=dim, nn=nn, flat=flat)
    yield "jacobian-refused", "jacobian_refused", {}
    for m, nn, dim in ((2, 1, 1), (1, 1, 1), (3, 1, 2), (3, 1, 1), (1, 1, 2), (2, 1, 2)):
        yield f"newton-{m}-{nn}-{dim}", "newton_sym", dict(m=m, nn=nn, dim=dim)
    for dim, nn, m in ((1, 3, 6), (1, 4, 10), (2, 3, 5), (2, 5, 20), (3, 4, 16), (3, 5, 12)):
        yield f"newton-concrete-{dim}-{nn}-{m}", "newton_conc", dict(
            dim=dim, nn=nn, m=m, seed=seed)
    for desc, order in (("s1", 5), ("s2", 3), ("s3", 2), ("h2", 2)):
        yield f"newton-step-{desc}-{order}", "newton_step", dict(
            desc=desc, order=order, seed=seed)
