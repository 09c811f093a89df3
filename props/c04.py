"""quadrature_for_space integrates every function of the space over its shape."""
from itertools import product

import numpy as np

import modepy as mp

from .c01 import ref_vector
from .common import functional, make_space, make_shape, ortho_basis, volume

BOUNDS = ("simplices of dimension 0-5 with orders up to 40 / 50 / 23 / 6 / 3, hypercubes of "
          "dimension 0-3 up to 40 / 17 / 9, prisms in both factor orders up to 9 tet x segment up to 6, "
          "segment x triangle x segment up to 4 (thorough 60 / 50 / 26 / 8 / 5, 60 / 25 / 12, 11, 8); every "
          "combination of unequal factor orders up to 9 (square), 5 (prisms), 3 (cube) and "
          "2-4 on ten other products (thorough 12, 7, 4), and some far apart; integrand an arbitrary function of the space with "
          "coefficients in [-1,1]")


def space_quad(env, desc, orders):
    for order in orders:
        if desc in ("s4", "s5"):
            d = int(desc[1])
            fac, space, shape = [d], mp.PN(d, order), mp.Simplex(d)
        else:
            from .common import factors
            fac = factors(desc)
            space, shape = make_space(desc, order)
        q = mp.quadrature_for_space(space, shape)
        lab = f"{desc} order {order}"
        d = sum(fac)
        env.true(np.shape(q.nodes) == (d, len(q.weights)), lab + " shapes")
        o = list(order) if isinstance(order, (list, tuple)) else [order] * len(fac)
        K = ortho_basis(fac, o, np.zeros((d, 1))).shape[0]
        vol = float(volume(fac))
        if not fac:
            env.true(len(q.weights) == 1, lab)
        functional(env, q, lambda x: ortho_basis(fac, o, x), ref_vector(K, vol),
                   1e-9 * max(1, K / 20), lab, nx=len(q.weights))
        env.true(q.exact_to >= min(o, default=0), lab + " advertised degree")


def mixed(env, cases):
    """Spaces given as tensor products of explicitly built factors."""
    for dims, orders in cases:
        space = mp.TensorProductSpace(tuple(mp.PN(d, n) for d, n in zip(dims, orders)))
        shape = mp.TensorProductShape(tuple(mp.Simplex(d) for d in dims))
        q = mp.quadrature_for_space(space, shape)
        lab = f"{dims} {orders}"
        env.true(np.shape(q.nodes) == (sum(dims), len(q.weights)), lab + " shapes")
        K = ortho_basis(dims, orders, np.zeros((sum(dims), 1))).shape[0]
        functional(env, q, lambda x: ortho_basis(dims, orders, x),
                   ref_vector(K, float(volume(dims))), 1e-9 * max(1, K / 20), lab,
                   nx=len(q.weights))


def mismatch(env):
    """Mismatched space and shape are refused."""
    cases = [(mp.PN(2, 3), mp.Simplex(3), ValueError),
             (mp.PN(1, 3), mp.Simplex(2), ValueError),
             (mp.QN(2, 3), mp.Hypercube(3), ValueError),
             (mp.QN(3, 1), mp.Hypercube(2), ValueError),
             (mp.PN(2, 3), mp.Hypercube(2), NotImplementedError),
             (mp.QN(2, 3), mp.Simplex(2), NotImplementedError)]
    for sp, sh, exc in cases:
        try:
            mp.quadrature_for_space(sp, sh)
        except exc:
            ok = True
        else:
            ok = False
        env.true(ok, f"{sp!r} on {sh!r}")


def obligations(tier, seed):
    big = tier == "thorough"
    yield "s0", "space_quad", dict(desc="s0", orders=[0, 1, 5])
    yield "h0", "space_quad", dict(desc="h0", orders=[0, 1, 5])
    for desc, step, top in [("s1", 20, 60 if big else 40), ("s2", 6, 50), ("s3", 3, 26 if big else 23),
                            ("s4", 3, 8 if big else 6), ("s5", 3, 5 if big else 3),
                            ("h1", 20, 60 if big else 40), ("h2", 6, 25 if big else 17),
                            ("h3", 3, 12 if big else 9), ("p", 4, 11 if big else 9),
                            ("q", 4, 11 if big else 9), ("g", 3, 8 if big else 6),
                            ("w", 4, 6 if big else 4)]:
        for lo in range(0, top + 1, step):
            yield f"{desc}-{lo}", "space_quad", dict(
                desc=desc, orders=list(range(lo, min(lo + step, top + 1))))
    groups = {}
    for dims, n in [([1, 1], 12 if big else 9), ([2, 1], 7 if big else 5),
                    ([1, 2], 7 if big else 5), ([1, 1, 1], 4 if big else 3), ([3, 1], 4),
                    ([1, 3], 4), ([2, 1, 1], 2), ([1, 2, 1], 2),
                    ([1, 1, 2], 2), ([1] * 4, 2 if big else 1), ([1, 0], 3), ([0, 1], 3),
                    ([0, 1, 1], 2)]:
        for orders in product(range(n + 1), repeat=len(dims)):
            if any(o > 3 and d == 0 for d, o in zip(dims, orders)):
                continue
            groups.setdefault((*dims, "|", orders[0]), []).append((dims, list(orders)))
    groups["one"] = [([1], [7]), ([2], [4]), ([3], [5])]
    groups["far"] = [([1, 1], [0, 30]), ([1, 1], [25, 1]), ([2, 1], [1, 25]), ([2, 1], [20, 1]),
                     ([1, 2], [1, 20]), ([1, 2], [30, 2]), ([3, 1], [12, 1]), ([3, 1], [1, 20]),
                     ([1, 1, 1], [0, 20, 0]), ([1, 1, 1], [10, 0, 4])]
    for k, cases in groups.items():
        yield f"mixed-{''.join(map(str, k))}", "mixed", dict(cases=cases)
    yield "mismatch", "mismatch", {}
