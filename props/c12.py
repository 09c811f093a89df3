"""Vandermonde and resampling matrices."""
import numpy as np

import modepy as mp
from modepy.matrices import multi_vandermonde, resampling_matrix, vandermonde

from .common import factors, make_space, obj, ortho_basis, point, random_params_points

BOUNDS = ("up to 4 functions of arbitrary values at up to 5 nodes; resampling with arbitrary "
          "(diagonally dominant) 1x1 to 3x3 basis tables; shipped bases on all elements: "
          "also with functions of sizes 1e-6 to 3, orders up to 14 / 9 / 5 on the 1/2/3-simplex, 6 / 3 on square / cube, 4 on prisms, 1-2 "
          "on four-dimensional products (thorough 18 / 12 / 7, 8 / 4, 5), complex exponentials up to frequency 8, functions "
          "with values of 2-4 different number types; all coefficient vectors / nodal data, and with "
          "one new node anywhere in the closed element up to orders 7 / 4 / 2, 3, 2")
ONB = {"onb": mp.orthonormal_basis_for_space, "mono": mp.monomial_basis_for_space}


class Recorder:
    """Function of the nodes with arbitrary values; notes what it is asked at."""

    def __init__(self, table):
        self.table, self.asked = table, []

    def __call__(self, x):
        self.asked.append(x)
        return self.table


def table(env, d, nf, npts):
    x = env.reals("x", (d, npts), -1, 1)
    v = env.reals("v", (npts, nf), -2, 2)
    fs = [Recorder(v[:, j].copy()) for j in range(nf)]
    m = env.call(vandermonde, fs, x)
    env.true(np.shape(m) == (npts, nf), "shape")
    env.eq(m, v, 0, "entries")
    for f in fs:
        env.true(len(f.asked) >= 1, "evaluated")
        for a in f.asked:
            env.eq(a, x, 0, "evaluated at the nodes")
    if not nf:
        return
    # the same function more than once
    order = [0, *range(nf), nf - 1, 0]
    env.eq(env.call(vandermonde, [fs[j] for j in order], x), v[:, order], 0,
           "repeated functions")
    dims = max(d, 1)
    g = env.reals("g", (dims, npts, nf), -2, 2)
    gs = [Recorder(tuple(g[a, :, j].copy() for a in range(dims))) for j in range(nf)]
    ms = env.call(multi_vandermonde, gs, x)
    env.true(isinstance(ms, tuple) and len(ms) == dims, "one matrix per component")
    for a in range(dims):
        env.eq(ms[a], g[a], 0, f"component {a}")
    for f in gs:
        for a in f.asked:
            env.eq(a, x, 0, "evaluated at the nodes")


VALUES = {"bool": [[True, False, True]], "int8": [[3, -2, 5]], "int64": [[7, 2**40 + 1, -4]],
          "float32": [[0.5, -1.25, 2.0]], "float64": [[0.1, -2.3, 1e-9]],
          "complex128": [[0.1 + 2j, -1j, 3.5 - 0.25j]]}


def mixed(env, types):
    """Functions with values of different number types: none is rounded to the type of
    another."""
    cols = []
    for k, t in enumerate(types):
        cols.append(env.reals(f"v{k}", 3, -2, 2) if t == "sym"
                    else np.array(VALUES[t][0], dtype=t))
    x = np.linspace(-1, 1, 3).reshape(1, 3)
    if "sym" in types and env.symbolic:
        m = env.call(vandermonde, [lambda x, c=c: c for c in cols], x)
        ms = env.call(multi_vandermonde, [lambda x, c=c: (c, c[::-1]) for c in cols], x)
    else:
        m = env.run(vandermonde, [lambda x, c=c: c for c in cols], x)
        ms = env.run(multi_vandermonde, [lambda x, c=c: (c, c[::-1]) for c in cols], x)
    env.true(np.shape(m) == (3, len(types)), "shape")
    for j, (c, t) in enumerate(zip(cols, types)):
        for what, col, ref in [("column", m[:, j], c), ("component 0", ms[0][:, j], c),
                               ("component 1", ms[1][:, j], c[::-1])]:
            if t == "sym":
                env.eq(col, ref, 0, f"{what} {j}")
            else:
                e = np.array([complex(a) - complex(b) for a, b in zip(col, ref)])
                env.lin(np.array([e.real, e.imag]).T, 1e-14, f"{what} {j}")


def fourier(env, m, extra, shift, lo=None):
    """Complex exponentials: what holds for real bases holds for them."""
    lo = -m if lo is None else lo
    n = 2 * m + 1
    fs = [lambda x, k=k: np.exp(1j * k * np.pi * x[0]) for k in range(lo, lo + n)]
    old = (-1 + 2 * (np.arange(n + extra) + shift) / (n + extra)).reshape(1, -1)
    new = np.linspace(-1, 1, 2 * n + 3).reshape(1, -1)
    r = np.asarray(env.run(resampling_matrix, fs, new, old, least_squares_ok=extra > 0))
    env.true(r.shape == (new.shape[1], old.shape[1]), "shape")
    v, w = (np.array([f(x) for f in fs]).T for x in (old, new))
    e = r @ v - w
    env.lin(e.real, 1e-9, "reproduces every combination")
    env.lin(e.imag, 1e-9, "reproduces every combination")
    if extra:
        q, _ = np.linalg.qr(v)
        e = r - r @ q @ q.conj().T
        env.lin(e.real, 1e-9, "kills data orthogonal to the space")
        env.lin(e.imag, 1e-9, "kills data orthogonal to the space")


class AtNodes:
    """Arbitrary values at two node sets, told apart by their size."""

    def __init__(self, old, new):
        self.t = {len(old): old, len(new): new}

    def __call__(self, x):
        return self.t[x.shape[-1]]


def dominant(env, n, name):
    m = obj(env, (n, n))
    for i in range(n):
        for j in range(n):
            m[i, j] = env.real(f"{name}{i}{j}", 1, 2) if i == j else \
                env.real(f"{name}{i}{j}", -0.25, 0.25)
    return m


def abstract(env, n, nnew, flip):
    """R V_old = V_new for arbitrary tables of basis values."""
    old = dominant(env, n, "o")
    if flip:
        old = old[::-1]
    new = env.reals("w", (nnew, n), -2, 2)
    fs = [AtNodes(old[:, j].copy(), new[:, j].copy()) for j in range(n)]
    xo, xn = np.zeros((1, n)), np.zeros((1, nnew))
    for ls in (False, True):
        r = env.call(resampling_matrix, fs, xn, xo, least_squares_ok=ls)
        env.true(np.shape(r) == (nnew, n), "shape")
        env.eq(r @ old, new, 1e-7, "reproduces every combination")


def nodes(space, shape, which):
    if which == "edge":
        return mp.edge_clustered_nodes_for_space(space, shape)
    if which == "equi":
        return mp.equispaced_nodes_for_space(space, shape)
    raise ValueError(which)


def raised(order, by):
    return [o + by for o in order] if isinstance(order, list) else order + by


def degs(desc, order):
    return order if isinstance(order, list) else [order] * len(factors(desc))


def resample(env, desc, order, kind):
    """Square: polynomials of the space are reproduced on other node sets (more, fewer or
    equally many nodes); least squares: additionally data orthogonal to the space vanish."""
    space, shape = make_space(desc, order)
    fs = ONB.get(kind, ONB["onb"])(space, shape).functions
    tol = 1e-7
    if kind == "scaled":
        tol = 1e-5
        # functions of very different size span the same space
        fs = [(lambda x, f=f, s=(1.0, 1e-6, 3.0)[i % 3]: s * f(x)) for i, f in enumerate(fs)]
    old = np.asarray(nodes(space, shape, "edge"))
    for name, new in [("equi", nodes(space, shape, "equi")),
                      ("itself", old),
                      ("reversed", old[:, ::-1].copy()),
                      ("finer", nodes(make_space(desc, raised(order, 1))[0], shape, "edge")),
                      ("one", old[:, :1].copy())]:
        new = np.asarray(new)
        r = np.asarray(env.run(resampling_matrix, fs, new, old), dtype=float)
        env.true(r.shape == (new.shape[1], old.shape[1]), "shape")
        e = r @ ortho_basis(desc, degs(desc, order), old).T \
            - ortho_basis(desc, degs(desc, order), new).T
        env.lin(e, tol / 10, f"polynomials to {name}")
    over = np.asarray(nodes(make_space(desc, raised(order, 1))[0], shape, "edge"))
    try:
        resampling_matrix(fs, old, over)
    except RuntimeError:
        refused = True
    else:
        refused = over.shape == old.shape
    env.true(refused, "too many nodes refused")
    r = np.asarray(env.run(resampling_matrix, fs, old, over, least_squares_ok=True),
                   dtype=float)
    env.true(r.shape == (old.shape[1], over.shape[1]), "shape")
    v = ortho_basis(desc, degs(desc, order), over).T
    env.lin(r @ v - ortho_basis(desc, degs(desc, order), old).T, tol,
            "least squares reproduces polynomials")
    q, _ = np.linalg.qr(v)
    env.lin(r - r @ q @ q.T, tol, "least squares kills data orthogonal to the space",
            prefix="u")
    if order and desc in ("s1", "s2", "s3"):
        under = np.asarray(nodes(make_space(desc, order - 1)[0], shape, "edge"))
        try:
            resampling_matrix(fs, old, under)
        except RuntimeError:
            refused = True
        else:
            refused = False
        env.true(refused, "too few nodes refused")
        r = np.asarray(env.run(resampling_matrix, fs, under, under, least_squares_ok=True),
                       dtype=float)
        env.lin(r - np.eye(len(r)), tol, "underdetermined least squares fits the data",
                prefix="u")


def anywhere(env, desc, order, kind, which):
    """One new node anywhere in the closed element: the row maps nodal values of every
    polynomial of the space to its value there."""
    space, shape = make_space(desc, order)
    fs = ONB[kind](space, shape).functions
    old = np.asarray(nodes(space, shape, which))
    x, params = point(env, desc)
    new = x.reshape(-1, 1)
    r = env.call(resampling_matrix, fs, new, old)
    env.true(np.shape(r) == (1, old.shape[1]), "shape")
    from .common import bary_monomials
    for k, f in enumerate(bary_monomials(desc, order)):
        vals = f(old) * np.ones(old.shape[1])
        env.eq(sum(r[0, j] * vals[j] for j in range(len(vals))), f(x), 1e-7, f"poly {k}")


def deprecated_tuple(env, npts, nf):
    """Functions with tuple values keep working with vandermonde."""
    g = env.reals("g", (2, npts, nf), -2, 2)
    x = env.reals("x", (2, npts), -1, 1)
    ms = env.call(vandermonde, [Recorder((g[0, :, j], g[1, :, j])) for j in range(nf)], x)
    env.true(len(ms) == 2, "two matrices")
    for a in range(2):
        env.eq(ms[a], g[a], 0, f"component {a}")


def obligations(tier, seed):
    big = tier == "thorough"
    for d in (1, 2, 3):
        for nf in (0, 1, 2, 4):
            for n in (1, 3, 5):
                yield f"table-{d}-{nf}-{n}", "table", dict(d=d, nf=nf, npts=n)
    for n in (1, 2, 3):
        for nn in ({1, 2, 4} - {n}):
            for flip in (False, True):
                yield f"abstract-{n}-{nn}-{flip}", "abstract", dict(n=n, nnew=nn, flip=flip)
    yield "tuples", "deprecated_tuple", dict(npts=3, nf=2)
    from itertools import permutations
    for types in [*permutations(VALUES, 2), ("bool", "int8", "float32", "complex128"),
                  ("float64", "float64", "complex128"), ("float32", "sym", "int8"),
                  ("int64", "sym"), ("sym", "float32", "bool")]:
        yield f"mixed-{'-'.join(types)}", "mixed", dict(types=list(types))
    for m in (0, 1, 2, 4, 8):
        for extra in (0, 1, 4):
            for shift in (0, 0.3):
                yield f"fourier-{m}-{extra}-{shift}", "fourier", dict(
                    m=m, extra=extra, shift=shift)
                for lo in sorted({0, 1 - m}):
                    yield f"fourier-{m}-{extra}-{shift}-from{lo}", "fourier", dict(
                        m=m, extra=extra, shift=shift, lo=lo)
    cfg = [("s0", 1, 2), ("s1", 14, 18), ("s2", 9, 12), ("s3", 5, 7), ("h2", 6, 8), ("h3", 3, 4),
           ("p", 4, 5), ("q", 4, 5), ("g", 2, 3), ("w", 2, 2),
           ("h4", 1, 2)]
    for desc, n, m in cfg:
        for k in range((m if big else n) + 1):
            for kind in (*ONB, "scaled"):
                if kind == "mono" and k > 5:
                    continue
                yield f"resample-{desc}-{k}-{kind}", "resample", dict(
                    desc=desc, order=k, kind=kind)
    for desc, order in [("h2", [1, 3]), ("p", [2, 1]), ("q", [2, 1]), ("h3", [1, 0, 2]),
             ("w", [1, 2, 1]), ("w", [2, 1, 0])]:
        yield f"resample-{desc}-{order}", "resample", dict(desc=desc, order=order, kind="onb")
    for desc, n, m in [("s1", 7, 8), ("s2", 4, 5), ("s3", 2, 3), ("h2", 3, 3), ("h3", 1, 1),
                       ("p", 2, 2), ("q", 2, 2)]:
        for k in range(1, (m if big else n) + 1):
            for kind in ONB:
                for which in ("edge", "equi"):
                    yield f"anywhere-{desc}-{k}-{kind}-{which}", "anywhere", dict(
                        desc=desc, order=k, kind=kind, which=which)
