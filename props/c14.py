"""Mass matrices and nodal quadrature matrices."""
import warnings

import numpy as np

import modepy as mp
from modepy.matrices import (inverse_mass_matrix, mass_matrix, modal_quad_mass_matrix,
                             nodal_quad_mass_matrix,
                             nodal_quadrature_bilinear_form_matrix,
                             nodal_quadrature_test_matrix, spectral_diag_nodal_mass_matrix)
from modepy.modes import Basis, BasisNotOrthonormal
from modepy.quadrature import Quadrature, TensorProductQuadrature

from .c12 import ONB, degs, dominant, nodes, raised
from .common import factors, make_space, obj, ortho_basis, volume

BOUNDS = ("rules of up to 3 arbitrary nodes and weights with up to 3 arbitrary affine test, "
          "trial and interpolation functions on arbitrary node sets and node maps; shipped "
          "bases on all elements: orders up to 14 / 9 / 5 on the 1/2/3-simplex, 6 / 3 on "
          "square / cube, 4 on prisms, 1-2 "
          "on four-dimensional products (thorough 18 / 11 / 7, 8 / 4, 5), all pairs of "
          "polynomials, all nodal data, up to 9 complex exponentials, test and trial orders differing by up to 2")


def normalised(desc, order, x):
    """Polynomials of the space, orthonormal with mean square one."""
    return ortho_basis(desc, degs(desc, order), x)


def mass(env, desc, order, which):
    space, shape = make_space(desc, order)
    basis = mp.orthonormal_basis_for_space(space, shape)
    x = np.asarray(nodes(space, shape, which))
    v = normalised(desc, order, x)
    K = len(v)      # noqa: N806
    m = np.asarray(env.run(mass_matrix, basis, x), dtype=float)
    env.true(m.shape == (K, K), "shape")
    vol = float(volume(desc))
    env.lin(v @ m @ v.T - vol * np.eye(K), 1e-7 * max(1, vol), "inner products")
    env.lin(m - m.T, 1e-8, "symmetric", prefix="u")
    mi = np.asarray(env.run(inverse_mass_matrix, basis, x), dtype=float)
    env.lin(mi @ m - np.eye(K), 1e-7, "inverse", prefix="u")
    env.lin(m @ mi - np.eye(K), 1e-7, "inverse", prefix="u")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mi2 = np.asarray(env.run(inverse_mass_matrix, basis.functions, x), dtype=float)
        m2 = np.asarray(env.run(mass_matrix, basis.functions, x), dtype=float)
    env.lin(mi2 - mi, 1e-9 * K, "sequence of functions", prefix="u")
    env.lin(m2 - m, 1e-9 * K, "sequence of functions", prefix="u")
    mono = mp.monomial_basis_for_space(space, shape)
    env.true(refuses(NotImplementedError, inverse_mass_matrix, mono, x)
             and refuses(NotImplementedError, mass_matrix, mono, x),
             "bases that are not orthonormal are refused")


def refuses(exc, f, *args, **kw):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f(*args, **kw)
    except exc:
        return True
    return False


class Table(Basis):
    """Arbitrary table of values, stated to be orthonormal with some weight."""

    def __init__(self, v, weight):
        self.v, self.w = v, weight

    def orthonormality_weight(self):
        if self.w is None:
            raise BasisNotOrthonormal
        return self.w

    @property
    def mode_ids(self):
        return tuple((j,) for j in range(self.v.shape[1]))

    @property
    def functions(self):
        return tuple((lambda x, j=j: self.v[:, j].copy()) for j in range(self.v.shape[1]))

    @property
    def gradients(self):
        raise AssertionError

    def derivatives(self, axis):
        raise AssertionError


def abstract_mass(env, n, flip):
    v = dominant(env, n, "v")
    if flip:
        v = v[::-1]
    x = np.zeros((1, n))
    mi = env.call(inverse_mass_matrix, Table(v, 1), x)
    for i in range(n):
        for j in range(n):
            env.eq(mi[i, j], sum(v[i, k] * v[j, k] for k in range(n)), 1e-12, f"{i}{j}")
    m = env.call(mass_matrix, Table(v, 1), x)
    env.eq(np.asarray(v).T @ m @ v, np.eye(n), 1e-7, "V^T M V = 1")
    c = Table(np.eye(n), 2)
    env.true(refuses(NotImplementedError, inverse_mass_matrix, c, x)
             and refuses(NotImplementedError, mass_matrix, c, x), "weight other than one")
    env.true(refuses(NotImplementedError, inverse_mass_matrix, Table(np.eye(n), None), x),
             "not orthonormal")


class Affine:
    def __init__(self, c):
        self.c = c

    def __call__(self, x):
        return self.c[0] + sum(self.c[k + 1] * x[k] for k in range(len(self.c) - 1))


class Map:
    def __init__(self, b, dout):
        self.b, self.dout = b, dout

    def __call__(self, y):
        out = np.empty((self.dout, y.shape[1]), dtype=y.dtype)
        for k in range(self.dout):
            out[k] = self.b[k] + sum(self.b[k] * (j + 1) * y[j] for j in range(len(y)))
        return out


def space_nodes(env, name, n, dim):
    """n nodes near the vertices of a simplex: affine functions interpolate boundedly."""
    x = obj(env, (dim, n))
    for j in range(n):
        for i in range(dim):
            c = 1 if i == j - 1 else 0
            x[i, j] = c + env.real(f"{name}{i}{j}", -0.125, 0.125)
    return x


def interp_functions(n):
    """1, x_0, x_1, ..."""
    fs = [lambda x: 1 + 0 * x[0]]
    for k in range(n - 1):
        fs.append(lambda x, k=k: 1 * x[k])
    return fs


def test_matrix(env, nq, n, mapped, given):
    """For p affine with arbitrary coefficients and arbitrary data u:
    p(nodes)^T A u = sum_q w_q p(map(r_q)) u_q."""
    dim = max(n - 1, 1)
    if given:
        r = env.reals("r", (dim, nq), -1, 1)
    else:
        if nq != n:
            return
        r = space_nodes(env, "r", n, dim)
    w = env.reals("w", nq, -1, 2)
    q = Quadrature(r, w)
    x = space_nodes(env, "x", n, dim) if given else r
    fs = interp_functions(n)
    b = env.reals("b", dim, -1, 1)
    mp_ = Map(b, dim) if mapped else None
    a = env.call(nodal_quadrature_test_matrix, q, fs, fs, nodes=x if given else None,
                 test_function_node_map=mp_)
    env.true(np.shape(a) == (n, nq), "shape")
    if not mapped:
        # the older functions
        m = env.call(modal_quad_mass_matrix, q, fs)
        o = env.call(nodal_quad_mass_matrix, q, fs, x if given else None)
        env.true(np.shape(m) == np.shape(o) == (n, nq), "shape (deprecated)")
        for k, f in enumerate(fs):
            fx, ft = f(x), f(r)
            for j in range(nq):
                env.eq(m[k, j], w[j] * ft[j], 1e-12, f"modal {k} datum {j}")
                env.eq(sum(fx[i] * o[i, j] for i in range(n)), w[j] * ft[j], 1e-7,
                       f"deprecated function {k} datum {j}")
    tn = mp_(r) if mapped else r
    for k, f in enumerate(fs):
        fx, ft = f(x), f(tn)
        for j in range(nq):
            env.eq(sum(fx[i] * a[i, j] for i in range(n)), w[j] * ft[j], 1e-7,
                   f"function {k} datum {j}")


def bilinear(env, nq, nt, ns, mapped, outn):
    """p(out)^T A u(in) = sum_q w_q p(map(r_q)) t(r_q), t the interpolant of u."""
    dim = max(nt, ns) - 1 or 1
    r = env.reals("r", (dim, nq), -1, 1)
    w = env.reals("w", nq, -1, 2)
    q = Quadrature(r, w)
    ft, fs = interp_functions(nt), interp_functions(ns)
    if nt == ns and nq < 2:
        ft = fs                  # one and the same object
    xin = space_nodes(env, "x", ns, dim)
    if not outn and nt != ns:
        return
    xout = space_nodes(env, "y", nt, dim) if outn else xin
    b = env.reals("b", dim, -1, 1)
    mp_ = Map(b, dim) if mapped else None
    a = env.call(nodal_quadrature_bilinear_form_matrix, q, ft, fs, ft, fs, xin,
                 output_nodes=xout if outn else None, test_function_node_map=mp_)
    env.true(np.shape(a) == (nt, ns), "shape")
    tn = mp_(r) if mapped else r
    for i, f in enumerate(ft):
        fo, fq = f(xout), f(tn)
        for j, g in enumerate(fs):
            gi, gq = g(xin), g(r)
            lhs = sum(fo[k] * a[k, l] * gi[l] for k in range(nt) for l in range(ns))
            env.eq(lhs, sum(w[k] * fq[k] * gq[k] for k in range(nq)), 1e-7, f"pair {i} {j}")


def other_functions(env, nq, n):
    """Test and trial functions need not be the interpolation basis."""
    dim = max(n - 1, 1)
    r = env.reals("r", (dim, nq), -1, 1)
    w = env.reals("w", nq, -1, 2)
    q = Quadrature(r, w)
    x = space_nodes(env, "x", n, dim)
    y = space_nodes(env, "y", n, dim)
    fs = interp_functions(n)
    ts = [Affine(env.reals(f"t{k}", dim + 1, -1, 1)) for k in range(n)]
    ss = [Affine(env.reals(f"s{k}", dim + 1, -1, 1)) for k in range(n)]
    a = env.call(nodal_quadrature_test_matrix, q, ts, fs, nodes=x)
    for k in range(n):
        fx, tq = fs[k](x), ts[k](r)
        for j in range(nq):
            env.eq(sum(fx[i] * a[i, j] for i in range(n)), w[j] * tq[j], 1e-7,
                   f"test function {k} datum {j}")
    a = env.call(nodal_quadrature_bilinear_form_matrix, q, ts, ss, fs, fs, x, y)
    for i in range(n):
        fo, tq = fs[i](y), ts[i](r)
        for j in range(n):
            gi, sq = fs[j](x), ss[j](r)
            lhs = sum(fo[k] * a[k, l] * gi[l] for k in range(n) for l in range(n))
            env.eq(lhs, sum(w[k] * tq[k] * sq[k] for k in range(nq)), 1e-7, f"pair {i} {j}")


def shipped(env, desc, order, extra, kind):
    """Real spaces: inner products of all polynomials / sums against all data."""
    space, shape = make_space(desc, order)
    basis = ONB[kind](space, shape)
    x = np.asarray(nodes(space, shape, "edge"))
    o2 = raised(order, extra)
    space2, _ = make_space(desc, o2)
    basis2 = ONB[kind](space2, shape)
    y = np.asarray(nodes(space2, shape, "equi" if extra else "edge"))
    quad = mp.quadrature_for_space(make_space(desc, raised(order, order_top(order) + extra))[0],
                                   shape)
    r, w = np.asarray(quad.nodes), np.asarray(quad.weights)
    v, vq = normalised(desc, order, x), normalised(desc, order, r)
    v2, v2q = normalised(desc, o2, y), normalised(desc, o2, r)
    vol = float(volume(desc))
    a = np.asarray(env.run(nodal_quadrature_test_matrix, quad, basis.functions,
                            basis.functions, x), dtype=float)
    env.true(a.shape == (len(v), len(w)), "shape")
    env.lin(v @ a - vq * w, 1e-8 * max(1, vol), "test matrix", prefix="u")
    a = np.asarray(env.run(nodal_quadrature_bilinear_form_matrix, quad,
                            basis2.functions, basis.functions, basis2.functions,
                            basis.functions, x, y), dtype=float)
    env.true(a.shape == (len(v2), len(v)), "shape")
    ref = (v2q * w) @ vq.T
    tol = (1e-7 if kind == "onb" or order_top(order) < 4 else 1e-5) * max(1, vol)
    env.lin(v2 @ a @ v.T - ref, tol, "bilinear form matrix")
    if not extra:
        env.lin(ref - vol * np.eye(len(v)), 1e-7 * max(1, vol), "is the inner product")
        a = np.asarray(env.run(nodal_quadrature_bilinear_form_matrix, quad,
                                basis.functions, basis.functions, basis.functions,
                                basis.functions, x), dtype=float)
        env.lin(v @ a @ v.T - ref, tol, "one node set")
        if kind == "onb":
            m = np.asarray(env.run(mass_matrix, basis, x), dtype=float)
            env.lin(a - m, 1e-7, "mass matrix", prefix="u")
    bad = x[:, 1:]
    env.true(refuses(ValueError, nodal_quadrature_test_matrix, quad, basis.functions,
                     basis.functions, bad), "nodes not unisolvent")
    if len(w) != len(v):
        env.true(refuses(ValueError, nodal_quadrature_test_matrix, quad, basis.functions,
                         basis.functions), "quadrature nodes not unisolvent")
    f2, f1 = basis2.functions, basis.functions
    env.true(refuses(ValueError, nodal_quadrature_bilinear_form_matrix, quad, f2, f1, f2, f1,
                     bad, y), "input nodes not unisolvent")
    env.true(refuses(ValueError, nodal_quadrature_bilinear_form_matrix, quad, f2, f1, f2, f1,
                     x, y[:, 1:]), "output nodes not unisolvent")


def exponentials(env, m, lo, shift):
    """Complex functions: the forms are bilinear, nothing is conjugated."""
    n = 2 * m + 1
    fs = [lambda x, k=k: np.exp(1j * k * np.pi * x[0]) for k in range(lo, lo + n)]
    ts = [lambda x, k=k: np.exp(1j * k * np.pi * (x[0] + 0.1)) * (1 + 0.5j * k)
          for k in range(lo - 1, lo + n - 1)]
    x = (-1 + 2 * (np.arange(n) + shift) / n).reshape(1, -1)
    y = (-1 + 2 * (np.arange(n) + shift + 0.4) / n).reshape(1, -1)
    q = mp.LegendreGaussQuadrature(n + 1, force_dim_axis=True)
    r, w = np.asarray(q.nodes), np.asarray(q.weights)
    fx, fy, fr, tr = (np.array([f(z) for f in b])
                      for b, z in ((fs, x), (fs, y), (fs, r), (ts, r)))
    a = np.asarray(env.run(nodal_quadrature_test_matrix, q, ts, fs, x))
    env.true(a.shape == (n, len(w)), "shape")
    e = fx @ a - tr * w
    env.lin(e.real, 1e-9, "test matrix, every datum", prefix="u")
    env.lin(e.imag, 1e-9, "test matrix, every datum", prefix="u")
    for out, g in ((None, fx), (y, fy)):
        a = np.asarray(env.run(nodal_quadrature_bilinear_form_matrix, q, ts, fs, fs, fs, x,
                               *(() if out is None else (out,))))
        env.true(a.shape == (n, n), "shape")
        e = g @ a @ fx.T - (tr * w) @ fr.T
        env.lin(e.real, 1e-9, "bilinear form, every pair")
        env.lin(e.imag, 1e-9, "bilinear form, every pair")


def order_top(order):
    return max(order) if isinstance(order, list) else order


def spectral(env, dims, ns):
    """Diagonal of the spectral mass matrix of an arbitrary tensor-product rule."""
    qs, ws = [], []
    for k, n in enumerate(ns):
        w = env.reals(f"w{k}", n, -2, 2)
        ws.append(w)
        qs.append(Quadrature(env.reals(f"x{k}", (1, n), -1, 1), w))
    q = env.call(TensorProductQuadrature, qs)
    d = env.call(spectral_diag_nodal_mass_matrix, q)
    env.true(np.shape(d) == (int(np.prod(ns)),), "shape")
    for k, j in enumerate(np.ndindex(*ns[::-1])):
        ref = 1
        for w, i in zip(ws, j[::-1]):
            ref = ref * w[i]
        env.eq(d[k], ref, 1e-12, f"entry {j[::-1]}")
    env.true(refuses(ValueError, spectral_diag_nodal_mass_matrix,
                     mp.XiaoGimbutasSimplexQuadrature(2, 2)), "not a tensor product")
    env.true(refuses(ValueError, spectral_diag_nodal_mass_matrix, TensorProductQuadrature(
        [mp.XiaoGimbutasSimplexQuadrature(2, 2), mp.LegendreGaussQuadrature(1)])),
        "factors that are not one-dimensional")


def spectral_exact(env, d, n):
    """Gauss-Legendre nodes: exact inner products of all tensor polynomials."""
    q = TensorProductQuadrature(
        [mp.LegendreGaussQuadrature(n, force_dim_axis=True) for _ in range(d)])
    w = np.asarray(env.run(spectral_diag_nodal_mass_matrix, q), dtype=float)
    v = normalised(f"h{d}", n, np.asarray(q.nodes))
    env.lin((v * w) @ v.T - 2.0 ** d * np.eye(len(v)), 1e-9, "inner products")


def obligations(tier, seed):
    big = tier == "thorough"
    for m in (0, 1, 2, 4):
        for lo in sorted({-m, 0, 1 - m}):
            for shift in (0, 0.3):
                yield f"exponentials-{m}-{lo}-{shift}", "exponentials", dict(
                    m=m, lo=lo, shift=shift)
    for n in (1, 2, 3):
        for flip in (False, True):
            yield f"abstract-{n}-{flip}", "abstract_mass", dict(n=n, flip=flip)
    for n in (1, 2, 3):
        for nq in (1, 2, 3):
            for mapped in (False, True):
                yield f"test-{n}-{nq}-{mapped}", "test_matrix", dict(
                    nq=nq, n=n, mapped=mapped, given=True)
                if nq == n:
                    yield f"test-{n}-{nq}-{mapped}-quad", "test_matrix", dict(
                        nq=nq, n=n, mapped=mapped, given=False)
            yield f"others-{n}-{nq}", "other_functions", dict(nq=nq, n=n)
    for nt in (1, 2, 3):
        for ns in (1, 2, 3):
            for nq in ((1, 2) if nt * ns < 9 or big else (1,)):
                for mapped in (False, True):
                    yield f"bilinear-{nt}-{ns}-{nq}-{mapped}", "bilinear", dict(
                        nq=nq, nt=nt, ns=ns, mapped=mapped, outn=True)
                    if nt == ns:
                        yield f"bilinear-{nt}-{ns}-{nq}-{mapped}-same", "bilinear", dict(
                            nq=nq, nt=nt, ns=ns, mapped=mapped, outn=False)
    cfg = [("s1", 14, 18), ("s2", 9, 11), ("s3", 5, 7), ("h2", 6, 8), ("h3", 3, 4),
           ("p", 4, 5), ("q", 4, 5), ("g", 2, 3), ("w", 2, 2),
           ("h4", 1, 2)]
    mixed = [("h2", [1, 3]), ("p", [2, 1]), ("q", [2, 1]), ("h3", [1, 0, 2]),
             ("w", [1, 2, 1]), ("w", [2, 1, 0])]
    for desc, k in [(d, k) for d, n, m in cfg for k in range((m if big else n) + 1)] + mixed:
        for which in ("edge", "equi"):
            yield f"mass-{desc}-{k}-{which}", "mass", dict(desc=desc, order=k, which=which)
        for extra in (0, 1, 2):
            for kind in ONB:
                if kind == "mono" and order_top(k) > 5 or extra and desc == "s3" \
                        and order_top(k) > 5:
                    continue
                yield f"shipped-{desc}-{k}-{extra}-{kind}", "shipped", dict(
                    desc=desc, order=k, extra=extra, kind=kind)
    for ns in ([1], [3], [2, 3], [2, 1, 3], [2, 2, 2]):
        yield f"spectral-{ns}", "spectral", dict(dims=None, ns=ns)
    for d in (1, 2, 3):
        for n in (1, 2, 3, 4) + ((6, 10, 16) if d < 3 else ()):
            yield f"spectral-exact-{d}-{n}", "spectral_exact", dict(d=d, n=n)
