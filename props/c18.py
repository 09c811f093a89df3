"""Affine maps and the unit / barycentric / equilateral coordinate systems."""
import math

import numpy as np

import modepy as mp
from modepy.tools import (EQUILATERAL_VERTICES, AffineMap, barycentric_to_equilateral,
                          barycentric_to_unit, equilateral_to_unit, unit_to_barycentric)

from .common import obj, vec

BOUNDS = ("affine maps in dimension 1-4 (inverses: 1-3) with arbitrary real matrix (diagonal in "
          "[1,2], off-diagonal in [-1/4,1/4]; row-permuted, negated and scaled variants, by "
          "2^-12, 2^12 and differently per axis) and offset, between spaces of dimension 1-4 "
          "that differ, batches of 1-5 arbitrary points, up to five maps side by side; "
          "conversions in dimension 1-4 (equilateral: 1-3) at every real point, batches of "
          "1-5 points")


def matrix(env, d, variant, tag=""):
    a = obj(env, (d, d))
    for i in range(d):
        for j in range(d):
            a[i, j] = env.real(f"a{tag}{i}{j}", 1, 2) if i == j else \
                env.real(f"a{tag}{i}{j}", -0.25, 0.25)
    if variant == "swap" and d > 1:
        a = a[::-1]
    if variant == "neg":
        a = -a
    if variant == "tiny":
        a = a * 2.0**-12
    if variant == "huge":
        a = a * 2.0**12
    if variant == "skewed":         # scales differ between the axes
        a = a * np.array([4.0 ** (3 * i) for i in range(d)])[:, None]
    return a


def scale(d, variant):
    """Powers of two by which the variants scale the rows of the matrix."""
    return {"tiny": [2.0**-12] * d, "huge": [2.0**12] * d,
            "skewed": [4.0 ** (3 * i) for i in range(d)]}.get(variant, [1.0] * d)


def det(a):
    d = len(a)
    if d == 1:
        return a[0, 0]
    if d == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    return sum((-1) ** j * a[0, j] * det(np.delete(np.delete(a, 0, 0), j, 1))
               for j in range(d))


def affine(env, d, npts, variant):
    a = matrix(env, d, variant)
    b = env.reals("b", d, -2, 2)
    sc = scale(d, variant)
    m = env.call(AffineMap, a, b)
    x = env.reals("x", (d, npts) if npts else d, -2, 2)
    y = env.call(m, x)
    env.true(np.shape(y) == x.shape, "shape")
    for i in np.ndindex(*x.shape):
        ref = b[i[0]] + sum(a[i[0], k] * x[(k, *i[1:])] for k in range(d))
        env.eq(y[i], ref, 1e-12 * max(1, *sc), f"value {i}")
    env.eq(env.call(lambda: m.jacobian) / np.prod(sc), det(a) / np.prod(sc), 1e-10, "jacobian")
    env.eq(m.a, a, 0, "matrix")
    env.eq(m.b, b, 0, "offset")


def inverse(env, d, npts, variant):
    a = matrix(env, d, variant)
    b = env.reals("b", d, -2, 2)
    m = env.call(AffineMap, a, b)
    inv = env.call(lambda: m.inverse)
    x = env.reals("x", (d, npts) if npts else d, -2, 2)
    sc = np.array(scale(d, variant))
    sc = sc.reshape(-1, *[1] * (x.ndim - 1))
    env.eq(env.call(m, env.call(inv, sc * x)) / sc, x, 1e-8, "m(inverse(x))")
    env.eq(env.call(inv, env.call(m, x)), x, 1e-8 * max(1, 1 / sc.min()), "inverse(m(x))")
    env.eq(env.call(lambda: m.jacobian * inv.jacobian), 1, 1e-8, "jacobians")
    # asking twice, or after use, gives the same map
    again = env.call(lambda: m.inverse)
    env.eq(env.call(again, x), env.call(inv, x), 0, "inverse again")
    env.eq(env.call(m, x), env.call(AffineMap(a, b) if not env.symbolic else
                                    env.call(AffineMap, a, b), x), 0, "map unchanged")


def several(env, d):
    """Maps do not share anything: each has its own inverse and Jacobian, in whatever order
    these are asked for; plain lists are as good as arrays."""
    a, b = [], []
    for k in range(3):
        a.append(matrix(env, d, ("plain", "swap", "neg")[k], tag=f"{k}_"))
        b.append(env.reals(f"b{k}_", d, -2, 2))
    a.append(a[0])          # same matrix, another offset
    b.append(b[1])
    a.append(a[1])          # other matrix, same offset
    b.append(b[0])
    ms = [env.call(AffineMap, x.tolist(), y.tolist()) for x, y in zip(a, b)]
    x = env.reals("x", (d, 2), -2, 2)
    invs = [env.call(lambda m=m: m.inverse) for m in ms[::-1]][::-1]
    for k, (m, inv) in enumerate(zip(ms, invs)):
        ref = np.array([[b[k][i] + sum(a[k][i, j] * x[j, c] for j in range(d))
                         for c in range(2)] for i in range(d)])
        env.eq(env.call(m, x), ref, 1e-11, f"map {k}")
        env.eq(env.call(inv, ref), x, 1e-7, f"inverse of map {k}")
        env.eq(env.call(lambda m=m: m.jacobian), det(a[k]), 1e-9, f"jacobian of map {k}")


def embedding(env, m, n, npts):
    """Maps into a space of another dimension (as those of faces)."""
    a, b = env.reals("a", (m, n), -2, 2), env.reals("b", m, -2, 2)
    f = env.call(AffineMap, a, b)
    x = env.reals("x", (n, npts) if npts else n, -2, 2)
    y = env.call(f, x)
    env.true(np.shape(y) == (m, *x.shape[1:]), "shape")
    for i in np.ndindex(*y.shape):
        ref = b[i[0]] + sum(a[i[0], k] * x[(k, *i[1:])] for k in range(n))
        env.eq(y[i], ref, 1e-11, f"value {i}")


def coordinates(env, d, npts):
    x = env.reals("x", (d, npts) if npts else d, -1, 1)
    bary = env.call(unit_to_barycentric, x if npts else x)
    env.true(np.shape(bary) == (d + 1, *x.shape[1:]), "barycentric shape")
    env.eq(sum(bary[i] for i in range(d + 1)), np.ones(x.shape[1:]), 1e-13, "sum to one")
    env.eq(env.call(barycentric_to_unit, bary), x, 1e-13, "unit -> barycentric -> unit")
    if d < 4:
        equi = env.call(barycentric_to_equilateral, bary)
        env.eq(env.call(equilateral_to_unit, equi), x, 1e-12, "-> equilateral -> unit")
    lam = env.reals("l", (d + 1, npts) if npts else d + 1, -1, 2)
    u = env.call(barycentric_to_unit, lam)
    for k in range(d):
        ref = sum(lam[j] * (1 if j == k + 1 else -1) for j in range(d + 1))
        env.eq(u[k], ref, 1e-12, f"vertex combination {k}")


def equilateral(env, d):
    """Unit vertices go to the listed vertices of an equilateral simplex with side two
    centred at the origin; distances are those of the equilateral metric."""
    v = mp.unit_vertices_for_shape(mp.Simplex(d))
    e = env.call(barycentric_to_equilateral, env.call(unit_to_barycentric, v))
    env.eq(e, EQUILATERAL_VERTICES[d].T, 1e-12, "vertices")
    env.eq(e.sum(axis=1), np.zeros(d), 1e-12, "centred")
    x = env.reals("x", (d, 2), -1, 1)
    p = env.call(barycentric_to_equilateral, env.call(unit_to_barycentric, x))
    # squared distance between two points in terms of barycentric differences:
    # |p - q|^2 = -4 sum_{i<j} dl_i dl_j
    b = env.call(unit_to_barycentric, x)
    dl = [b[i, 0] - b[i, 1] for i in range(d + 1)]
    ref = -4 * sum(dl[i] * dl[j] for i in range(d + 1) for j in range(i))
    env.eq(sum((p[k, 0] - p[k, 1]) ** 2 for k in range(d)), ref, 1e-11, "equilateral metric")
    for i in range(d + 1):
        for j in range(i):
            env.eq(sum((e[k, i] - e[k, j]) ** 2 for k in range(d)), 4, 1e-12, f"side {i}{j}")


def obligations(tier, seed):
    for m in (1, 2, 3, 4):
        if m < 4:
            yield f"several-{m}", "several", dict(d=m)
        for n in (1, 2, 3, 4):
            for npts in (0, 1, 2, 3, 4):
                if m != n:
                    yield f"embedding-{m}-{n}-{npts}", "embedding", dict(m=m, n=n, npts=npts)
    for d in (1, 2, 3, 4):
        for n in (0, 1, 2, 3, 5):
            for var in ("plain", "swap", "neg", "tiny", "huge", "skewed"):
                yield f"affine-{d}-{n}-{var}", "affine", dict(d=d, npts=n, variant=var)
                if d < 4:
                    yield f"inverse-{d}-{n}-{var}", "inverse", dict(d=d, npts=n, variant=var)
            if n:       # coordinate conversions take arrays of points only
                yield f"coordinates-{d}-{n}", "coordinates", dict(d=d, npts=n)
        if d < 4:
            yield f"equilateral-{d}", "equilateral", dict(d=d)
