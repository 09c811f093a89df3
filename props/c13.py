"""Differentiation matrices."""
import numpy as np

import modepy as mp
from modepy.matrices import diff_matrices, diff_matrix_permutation, differentiation_matrices
from modepy.nodes import node_tuples_for_space

from .c12 import ONB, AtNodes, Recorder, degs, dominant, nodes, raised
from .common import bary_monomials, factors, make_space, point, total_degree_modes

BOUNDS = ("arbitrary (diagonally dominant) 1x1 to 3x3 basis tables with arbitrary gradient "
          "tables; shipped bases on all elements: orders up to 14 / 9 / 5 on the 1/2/3-simplex, "
          "6 / 3 on square / cube, 4 on prisms, 1-2 "
          "on four-dimensional products (thorough 18 / 11 / 7, 8 / 4, 5), all "
          "polynomials, complex exponentials up to frequency 10, equispaced and clustered nodes, separate output nodes; one output "
          "node anywhere in the closed element up to orders 5 / 3 / 2, 2, 1; permutations up "
          "to order 6 / 4 (2 / 1 on the 4/5-cube) with default and shuffled tuple lists")


def abstract(env, n, nout, dims, flip):
    """D_k V = G_k for arbitrary tables of values and gradients."""
    v = dominant(env, n, "v")
    if flip:
        v = v[::-1]
    g = env.reals("g", (dims, nout, n), -2, 2)
    fs = [AtNodes(v[:, j].copy(), v[:, j].copy()) for j in range(n)]
    gs = [Recorder(tuple(g[a, :, j].copy() for a in range(dims))) for j in range(n)]
    x, y = env.reals("x", (dims, n), -1, 1), env.reals("y", (dims, nout), -1, 1)
    same = nout == n
    for variant in range(2 if same else 1):
        args = [fs, gs, y if variant == 0 else x] + ([x] if variant == 0 else [])
        ds = env.call(differentiation_matrices, *args)
        env.true(isinstance(ds, tuple) and len(ds) == dims, "one matrix per axis")
        for a in range(dims):
            env.true(np.shape(ds[a]) == (nout, n), "shape")
            env.eq(ds[a] @ v, g[a], 1e-7, f"axis {a}")
        for f in gs:
            for p in f.asked:
                env.eq(p, args[2], 0, "gradients are evaluated at the output nodes")
            f.asked.clear()


def fourier(env, m, shift, lo=None):
    """Complex exponentials: D V = V' for them too."""
    lo = -m if lo is None else lo
    ks = range(lo, lo + 2 * m + 1)
    fs = [lambda x, k=k: np.exp(1j * k * np.pi * x[0]) for k in ks]
    gs = [lambda x, k=k: (1j * k * np.pi * np.exp(1j * k * np.pi * x[0]),) for k in ks]
    n = len(fs)
    x = (-1 + 2 * (np.arange(n) + shift) / n).reshape(1, -1)
    y = np.linspace(-1, 1, n + 4).reshape(1, -1)
    for out, args in ((x, (x,)), (y, (y, x))):
        d, = env.run(differentiation_matrices, fs, gs, *args)
        env.true(np.shape(d) == (out.shape[1], n), "shape")
        e = np.asarray(d) @ np.array([f(x) for f in fs]).T - np.array([g(out)[0] for g in gs]).T
        env.lin(e.real, 1e-9 * (m + 1), "every combination")
        env.lin(e.imag, 1e-9 * (m + 1), "every combination")


def deriv_table(desc, order, x):
    """Products of Legendre polynomials that form a basis of the space, and
    their partial derivatives, at concrete points: (K, n), (d, K, n)."""
    from itertools import product

    from numpy.polynomial import legendre as L      # noqa: N812
    fac = factors(desc)
    ms = [sum(t, ()) for t in product(*[total_degree_modes(d, n)
                                        for d, n in zip(fac, degs(desc, order))])]
    x = np.asarray(x, dtype=float)
    d = x.shape[0]

    def ev(m, ax):
        r = np.ones(x.shape[1])
        for i, k in enumerate(m):
            c = np.zeros(k + 1)
            c[k] = 1
            r = r * L.legval(x[i], L.legder(c) if i == ax else c)
        return r
    vals = np.array([ev(m, None) for m in ms])
    ders = np.array([[ev(m, ax) for m in ms] for ax in range(d)])
    return vals, ders


def matrices(env, desc, order, kind, which):
    space, shape = make_space(desc, order)
    basis = ONB[kind](space, shape)
    x = np.asarray(nodes(space, shape, which))
    n = x.shape[1]
    tol = 1e-7 * max(1, max(degs(desc, order), default=0)) ** 2
    fine = np.asarray(nodes(make_space(desc, raised(order, 1))[0], shape, which))
    coarse = x[:, ::2].copy()
    for name, args, out in [
            ("diff_matrices", (diff_matrices, basis, x), x),
            ("diff_matrices finer", (diff_matrices, basis, fine, x), fine),
            ("differentiation_matrices", (differentiation_matrices, basis.functions,
                                          basis.gradients, x), x),
            ("differentiation_matrices fewer", (differentiation_matrices, basis.functions,
                                                basis.gradients, coarse, x), coarse)]:
        ds = env.run(*args)
        env.true(len(ds) == shape.dim, name + " one matrix per axis")
        v, _ = deriv_table(desc, order, x)
        _, dv = deriv_table(desc, order, out)
        for a in range(shape.dim):
            m = np.asarray(ds[a], dtype=float)
            env.true(m.shape == (out.shape[1], n), name + " shape")
            env.lin(m @ v.T - dv[a].T, tol, f"{name} axis {a}")
    for bad in (fine, x[:, 1:] if n > 1 else None):
        if bad is None:
            continue
        try:
            differentiation_matrices(basis.functions, basis.gradients, x, bad)
        except ValueError:
            refused = True
        else:
            refused = False
        env.true(refused, "cannot interpolate: refused")
    try:
        differentiation_matrices(basis.functions, basis.gradients, fine)
    except ValueError:
        refused = True
    else:
        refused = False
    env.true(refused, "cannot interpolate: refused")


def anywhere(env, desc, order, kind, which):
    space, shape = make_space(desc, order)
    basis = ONB[kind](space, shape)
    old = np.asarray(nodes(space, shape, which))
    x, _ = point(env, desc)
    ds = env.call(differentiation_matrices, basis.functions, basis.gradients,
                  x.reshape(-1, 1), old)
    free = [env.real(f"z{i}") for i in range(shape.dim)] if env.symbolic else None
    for k, f in enumerate(bary_monomials(desc, order)):
        vals = f(old) * np.ones(old.shape[1])
        for a in range(shape.dim):
            env.true(np.shape(ds[a]) == (1, old.shape[1]), "shape")
            if env.symbolic:
                ref = env.subs(env.diff(f(np.array(free, dtype=object)), free[a]),
                               list(zip(free, x)))
            else:
                h = 1e-100j
                xc = x.astype(complex)
                xc[a] += h
                ref = np.imag(f(xc)) / 1e-100
            env.eq(sum(ds[a][0, j] * vals[j] for j in range(len(vals))), ref, 1e-6,
                   f"poly {k} axis {a}")


def permutation(env, desc, order, which, shuffle):
    space, shape = make_space(desc, order)
    tps = list(node_tuples_for_space(space))
    x = np.asarray(nodes(space, shape, which))
    if shuffle:
        p = np.random.default_rng(shuffle).permutation(len(tps))
        tps = [tps[i] for i in p]
        x = x[:, p]
    basis = mp.orthonormal_basis_for_space(space, shape)
    ds = [np.asarray(m, dtype=float) for m in env.run(diff_matrices, basis, x)]
    for a in range(shape.dim):
        perm = np.asarray(env.run(diff_matrix_permutation, tps, a))
        env.true(sorted(perm.tolist()) == list(range(len(tps))), "is a permutation")
        env.lin(ds[0][perm][:, perm] - ds[a], 1e-8 * len(tps), f"axis {a}", prefix="u")


def obligations(tier, seed):
    big = tier == "thorough"
    for m in (0, 1, 2, 5, 10):
        for shift in (0, 0.4):
            yield f"fourier-{m}-{shift}", "fourier", dict(m=m, shift=shift)
            for lo in sorted({0, 1 - m}):
                yield f"fourier-{m}-{shift}-from{lo}", "fourier", dict(
                    m=m, shift=shift, lo=lo)
    for n in (1, 2, 3):
        for nout in (1, 2, 3, 4):
            for dims in (1, 2, 3):
                for flip in (False, True):
                    if flip and n == 1:
                        continue
                    yield f"abstract-{n}-{nout}-{dims}-{flip}", "abstract", dict(
                        n=n, nout=nout, dims=dims, flip=flip)
    cfg = [("s1", 14, 18), ("s2", 9, 11), ("s3", 5, 7), ("h2", 6, 8), ("h3", 3, 4),
           ("p", 4, 5), ("q", 4, 5), ("g", 2, 3), ("w", 2, 2),
           ("h4", 1, 2)]
    mixed = [("h2", [1, 3]), ("p", [2, 1]), ("q", [2, 1]), ("h3", [1, 0, 2]),
             ("w", [1, 2, 1]), ("w", [2, 1, 0])]
    for desc, k in [(d, k) for d, n, m in cfg for k in range((m if big else n) + 1)] + mixed:
        for kind in ONB:
            if kind == "mono" and not isinstance(k, list) and k > 5:
                continue
            for which in ("edge", "equi"):
                yield f"matrices-{desc}-{k}-{kind}-{which}", "matrices", dict(
                    desc=desc, order=k, kind=kind, which=which)
    for desc, n, m in [("s1", 5, 8), ("s2", 3, 5), ("s3", 2, 3), ("h2", 2, 3), ("h3", 1, 1),
                       ("p", 1, 2), ("q", 1, 2)]:
        for k in range(1, (m if big else n) + 1):
            for kind in ONB:
                yield f"anywhere-{desc}-{k}-{kind}", "anywhere", dict(
                    desc=desc, order=k, kind=kind, which="edge" if k % 2 else "equi")
    for desc, ns in [("s1", (1, 4)), ("s2", (1, 2, 3, 5, 6)), ("s3", (1, 2, 3, 4)),
                     ("h2", (1, 2, 4)), ("h3", (1, 2)), ("h4", (1, 2)), ("h5", (1,))]:
        for n in ns:
            for which in ("edge", "equi"):
                for sh in (0, 1):
                    yield f"perm-{desc}-{n}-{which}-{sh}", "permutation", dict(
                        desc=desc, order=n, which=which, shuffle=sh)
