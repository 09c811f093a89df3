"""Orthonormal bases: Gram matrix, span, weight; monomial span; value everywhere."""
import numpy as np

import modepy as mp
from modepy.modes import BasisNotOrthonormal

from .common import (FittedPoly, Integrator, bary_monomials, factors, gauss_points,
                     make_space, ortho_basis, point, tofloat, volume)

BOUNDS = ("total degree 0-14 / 0-8 / 0-5 on the 1/2/3-simplex, 0-6 / 0-3 on square / cube, "
          "0-3 on prisms, 0-1 on tetrahedron x segment, "
          "segment x triangle x segment and the 4-cube (thorough 16 / 10 / 6, 8 / 4, 4, 2), "
          "mixed orders on products; every coefficient vector in [-1,1], every point of the "
          "closed element (values: degree up to 8 / 6 / 3, square 3, cube 2, prisms 2; "
          "thorough 12 / 8 / 4); through quadrature up to 40 / 18 / 9, 11 / 5, 6, 4 (thorough 60 "
          "/ 24 / 12, 15 / 7, 8, 5)")
KIND = {"onb": mp.orthonormal_basis_for_space, "mono": mp.monomial_basis_for_space,
        "basis": mp.basis_for_space}


def top(order):
    return max(order) if isinstance(order, (list, tuple)) else order


def count(desc, order):
    from math import comb
    fac = factors(desc)
    deg = order if isinstance(order, (list, tuple)) else [order] * len(fac)
    r = 1
    for d, n in zip(fac, deg):
        r *= comb(n + d, d)
    return r


def gram(env, desc, order, kind):
    """<f, phi_j> = c_j for f = sum c_i phi_i, and Parseval for every polynomial of the
    space (so the functions are an orthonormal basis of exactly the space)."""
    space, shape = make_space(desc, order)
    basis = KIND[kind](space, shape)
    env.true(len(basis.functions) == len(basis.mode_ids) == space.space_dim
             == count(desc, order), "number of functions")
    env.true(basis.orthonormality_weight() == 1, "weight")
    it = Integrator(env, desc, 2 * top(order))
    p = it.table(basis.functions)
    g = tofloat(it.gram(p, p))
    # the claims are "for every coefficient vector"
    env.lin(g - np.eye(len(g)), 1e-8, "inner products")
    q = it.table(bary_monomials(desc, order))
    e = it.gram(p, q)
    h = tofloat(it.gram(q, q) - e.T.dot(e))
    env.lin(h, 1e-8, "Parseval", prefix="d")


def span_mono(env, desc, order):
    """The monomial basis is a basis of the same space: the orthonormal basis of the
    space is reproduced from it, and its size is the dimension."""
    space, shape = make_space(desc, order)
    basis = mp.monomial_basis_for_space(space, shape)
    env.true(len(basis.functions) == len(set(basis.mode_ids)) == space.space_dim
             == count(desc, order), "number of functions")
    try:
        basis.orthonormality_weight()
    except BasisNotOrthonormal:
        raised = True
    else:
        raised = False
    env.true(raised, "no orthonormality weight")
    x, _ = point(env, desc)
    ids = [flat(m) for m in basis.mode_ids]
    for f, m in zip(basis.functions, ids):
        ref = 1
        for xi, k in zip(x, m):
            ref = ref * xi ** k
        env.eq(env.call(f, x), ref, 1e-12, f"monomial {m}")
    env.true(len(set(ids)) == len(ids), "distinct")
    fac = factors(desc)
    deg = order if isinstance(order, (list, tuple)) else [order] * len(fac)
    for m in ids:
        i = 0
        for d, n in zip(fac, deg):
            env.true(sum(m[i:i + d]) <= n and len(m) == len(x), f"degree {m}")
            i += d


def flat(m):
    out = []
    for k in m:
        out += flat(k) if isinstance(k, tuple) else [k]
    return tuple(out)


def smooth(env, desc, order, kind, lo, hi):
    """On the closed element (singular vertices and edges of the collapsed coordinates
    included) each function takes the value of the polynomial it computes inside."""
    from .common import free_point, vec
    space, shape = make_space(desc, order)
    fs = KIND[kind](space, shape).functions[lo:hi]
    x, _ = point(env, desc)
    if env.symbolic:
        xg, at = free_point(env, desc)
    for k, f in enumerate(fs):
        if env.symbolic:
            ref = env.subs(env.generic(f, [vec(env, xg)], at), list(zip(xg, x)))
        else:
            ref = FittedPoly(f, desc, order)(x)
        env.eq(env.call(f, x), ref, 1e-7 if desc != "s3" or order < 4 else 1e-5, f"value {lo + k}")


def high(env, desc, order, kind):
    """High orders: orthonormal, in the space, and as many as its dimension; monomials
    compared with their powers at points determining the polynomial."""
    space, shape = make_space(desc, order)
    basis = KIND[kind](space, shape)
    env.true(len(basis.functions) == len(set(basis.mode_ids)) == space.space_dim
             == count(desc, order), "number of functions")
    x, w = gauss_points(desc, top(order))
    v = np.array([np.broadcast_to(env.run(f, x), x.shape[1:]) for f in basis.functions])
    if kind == "mono":
        ref = np.array([np.prod([xi ** k for xi, k in zip(x, flat(m))], axis=0)
                        for m in basis.mode_ids])
        o = ortho_basis(desc, order, x)
        env.lin(((v - ref) * w) @ o.T, 1e-10, "monomials")
        return
    o = ortho_basis(desc, order, x)
    nrm = (o * o) @ w
    g = (v * w) @ v.T * float(volume(desc))
    env.lin(g - np.eye(len(g)), 1e-8, "inner products")
    e = v - ((v * w) @ (o / nrm[:, None]).T) @ o
    env.eq(np.sqrt((e * e) @ w), np.zeros(len(v)), 1e-8, "in the space")


def zero(env, kind):
    """The zero-dimensional element: a single function, constant one."""
    space, shape = make_space("s0", 3)
    basis = KIND[kind](space, shape)
    env.true(len(basis.functions) == 1 == len(basis.mode_ids), "one function")
    n = 3
    r = env.call(basis.functions[0], np.empty((0, n)))
    env.eq(r * np.ones(n), np.ones(n), 0, "constant one")
    env.eq(env.call(basis.functions[0], np.empty((0,))), 1, 0, "single point")


def obligations(tier, seed):
    big = tier == "thorough"
    cfg = {"s1": (14, 16), "s2": (8, 10), "s3": (5, 6), "h2": (6, 8), "h3": (3, 4),
           "p": (3, 4), "q": (3, 4), "g": (1, 2), "w": (1, 1), "h4": (1, 1)}
    for desc, (a, b) in cfg.items():
        for n in range((b if big else a) + 1):
            yield f"gram-{desc}-{n}", "gram", dict(desc=desc, order=n, kind="onb")
            yield f"mono-{desc}-{n}", "span_mono", dict(desc=desc, order=n)
        yield f"default-{desc}", "gram", dict(desc=desc, order=min(a, 3), kind="basis")
    for desc, order in [("h2", [1, 3]), ("h2", [4, 0]), ("p", [2, 3]), ("p", [3, 1]),
                        ("q", [3, 2]), ("h3", [1, 2, 3]), ("q", [0, 3]), ("g", [2, 1]), ("w", [1, 2, 0]),
                        ("w", [2, 0, 1]), ("w", [0, 1, 3])]:
        yield f"gram-{desc}-{order}", "gram", dict(desc=desc, order=order, kind="onb")
        yield f"mono-{desc}-{order}", "span_mono", dict(desc=desc, order=order)
    for desc, (a, b) in {"s1": (40, 60), "s2": (18, 24), "s3": (9, 12), "h2": (11, 15),
                         "h3": (5, 7), "p": (6, 8), "q": (6, 8), "g": (4, 5),
                         "w": (2, 3), "h4": (2, 3)}.items():
        for n in range((b if big else a) + 1):
            for kind in ("onb", "mono"):
                yield f"high-{kind}-{desc}-{n}", "high", dict(desc=desc, order=n, kind=kind)
    for kind in KIND:
        yield f"zero-{kind}", "zero", dict(kind=kind)
    for desc, n, m in [("s1", 8, 12), ("s2", 6, 8), ("s3", 3, 4), ("h2", 3, 5), ("h3", 2, 2),
                       ("p", 2, 3), ("q", 2, 3)]:
        n = m if big else n
        k = count(desc, n)
        step = 7 if desc == "s3" else 12
        for lo in range(0, k, step):
            yield f"smooth-{desc}-{n}-{lo}", "smooth", dict(
                desc=desc, order=n, kind="onb", lo=lo, hi=lo + step)
