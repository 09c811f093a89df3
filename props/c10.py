"""Interpolation nodes: inside, unisolvent, symmetric, conforming on faces, ordered."""
from fractions import Fraction
from itertools import permutations

import numpy as np

import modepy as mp
from modepy.nodes import (equidistant_nodes, node_tuples_for_space, warp_and_blend_nodes,
                          legendre_gauss_lobatto_tensor_product_nodes,
                          legendre_gauss_tensor_product_nodes)

from .common import factors, make_space, obj, ortho_basis, vec

BOUNDS = ("orders on the 1/2/3-simplex, square / cube and prisms: one polynomial per nodal "
          "data up to 20 / 10 / 6, 5 / 3, 4 / 3 / 2 (thorough 40 / 16 / 9, 9 / 5, 6 / 5 / 4); "
          "symmetry, faces and tuple order up to 30 / 24 / 17, 16 / 7, 7 / 7 / 5 (thorough "
          "60 / 40 / 22, 25 / 11, 11 / 11 / 8), 4- and 5-simplices up to 7 / 4, mixed orders on products; nodal "
          "data / polynomials with every coefficient vector in [-1,1]; warp of every real "
          "position (orders 2-5 in 2D, 2-3 in 3D, along whole edges up to 8)")
FAMILY = {"edge": mp.edge_clustered_nodes_for_space, "equi": mp.equispaced_nodes_for_space}


def nodes_of(env, desc, order, family):
    space, shape = make_space(desc, order)
    return space, shape, np.asarray(env.run(FAMILY[family], space, shape))


def degs(desc, order):
    return order if isinstance(order, list) else [order] * len(factors(desc))


def bary(desc, x):
    out, i = [], 0
    for d in factors(desc):
        l = [(1 + x[i + k]) / 2 for k in range(d)]
        out += [1 - sum(l), *l]
        i += d
    return np.array(out)


def unisolvent(env, desc, order, family):
    """The right number of nodes, in the closed element; for every choice of nodal data
    there is exactly one polynomial of the space taking it, boundedly so."""
    space, shape, x = nodes_of(env, desc, order, family)
    d = shape.dim
    env.true(x.shape == (d, space.space_dim), "shape")
    if d:
        env.le(-bary(desc, x), 1e-12, label="inside")
    v = ortho_basis(desc, degs(desc, order), x).T
    env.true(v.shape[0] == v.shape[1], "square")
    vi = np.linalg.pinv(v)
    env.lin(v @ vi - np.eye(len(v)), 1e-8, "every nodal data is attained", prefix="v")
    env.lin(vi @ v - np.eye(len(v)), 1e-8, "only once")
    n = max(degs(desc, order) + [0])
    bound = 4.0 ** d * (2.0 ** n if family == "equi" else 2.0 * (n + 1)) + 8
    env.lin(vi, bound, "coefficients bounded by the nodal data", prefix="v")


def pushed(desc, perm, x):
    """Affine map of the element permuting its vertices (simplex) or axes/ends."""
    if desc[0] == "s":
        b = bary(desc, x)[list(perm)]
        return 2 * b[1:] - 1
    axes, flips = perm
    return np.array([x[a] * s for a, s in zip(axes, flips)])


def symmetries(desc):
    d = int(desc[1:])
    if desc[0] == "s":
        return list(permutations(range(d + 1)))
    from itertools import product
    return [(a, s) for a in permutations(range(d)) for s in product([1, -1], repeat=d)]


def symmetric(env, desc, order, family):
    """Power sums of every polynomial over the node set are invariant under every
    symmetry of the element (the node set is)."""
    _, _, x = nodes_of(env, desc, order, family)
    deg = min(order + 2, 8)
    ref = ortho_basis(desc, deg, x).sum(axis=1)
    for s in symmetries(desc):
        e = ortho_basis(desc, deg, pushed(desc, s, x)).sum(axis=1) - ref
        env.lin(e, 1e-9 * len(x[0]), f"symmetry {s}")


def conforming(env, desc, order, family):
    """On every face the nodes are the images of the face element's own nodes (for the
    clustered nodes of the tetrahedron: on every edge; its faces use their own blend)."""
    _, shape, x = nodes_of(env, desc, order, family)
    on = bary_or_box(desc, x)
    if desc == "s3" and family == "edge":
        from itertools import combinations
        y = np.asarray(mp.edge_clustered_nodes_for_space(mp.PN(1, order), mp.Simplex(1)))[0]
        v = mp.unit_vertices_for_shape(shape)
        for i, j in combinations(range(4), 2):
            z = np.outer(v[:, i], (1 - y) / 2) + np.outer(v[:, j], (1 + y) / 2)
            off = (np.abs(z[:, :, None] - x[:, None, :]).max(axis=0) < 1e-9).sum(axis=1)
            env.true((off == 1).all(), f"edge {i}{j}")
        return
    for face in mp.faces_for_shape(shape):
        fs = mp.space_for_shape(face, order)
        y = np.asarray(env.run(FAMILY[family], fs, face))
        z = np.asarray(env.call(face.map_to_volume, y)).reshape(shape.dim, -1)
        tight = np.abs(bary_or_box(desc, z).reshape(len(on), -1)) < 1e-10
        i = [k for k in range(len(on)) if tight[k].all()]
        env.true(len(i) >= 1, f"face {face.face_index} lies on the boundary")
        mask = (np.abs(on[i]) < 1e-10).all(axis=0)
        env.true(mask.sum() == z.shape[1], f"face {face.face_index} node count")
        deg = min(order + 1, 6)
        e = (ortho_basis(desc, deg, x[:, mask]).sum(axis=1)
             - ortho_basis(desc, deg, z).sum(axis=1))
        env.lin(e, 1e-9 * max(1, z.shape[1]), f"face {face.face_index} nodes")


def bary_or_box(desc, x):
    if desc[0] == "s":
        return bary(desc, x)
    return np.array([f(xi) for xi in x for f in (lambda t: 1 - t, lambda t: 1 + t)])


def tuples(env, desc, order, family):
    """Node order: node k belongs to node_tuples_for_space(space)[k] - exactly (equi)
    or, for the clustered nodes, as factor-wise images (products) / same sort order
    along each edge."""
    space, shape, x = nodes_of(env, desc, order, family)
    tps = list(env.run(node_tuples_for_space, space))
    fac = factors(desc)
    dg = degs(desc, order)
    env.true(len(tps) == len(set(tps)) == space.space_dim, "tuples are distinct")
    i = 0
    for d, n in zip(fac, dg):
        env.true(all(min(t[i:i + d], default=0) >= 0 and sum(t[i:i + d]) <= n
                     for t in tps), "tuple range")
        i += d
    i = 0
    for d, n in zip(fac, dg):
        fx = np.asarray(FAMILY[family](mp.PN(d, n), mp.Simplex(d)))
        ft = list(node_tuples_for_space(mp.PN(d, n)))
        at = {tuple(t): k for k, t in enumerate(ft)}
        ref = np.array([fx[:, at[tuple(t[i:i + d])]] for t in tps]).T
        env.eq(x[i:i + d], ref, 1e-12, "factor nodes in tuple order")
        if family == "equi" and n:
            env.eq(x[i:i + d], np.array([[2 * k / n - 1 for k in t[i:i + d]]
                                         for t in tps]).T, 1e-13, "equispaced")
        if family == "edge" and n:
            # order-isomorphic along every axis line
            for t, a in at.items():
                for k in range(d):
                    u = (*t[:k], t[k] + 1, *t[k + 1:])
                    if u in at:
                        env.true(fx[k, at[u]] > fx[k, a], f"{t} before {u}")
        i += d
    # first factor fastest
    if len(fac) > 1:
        n0 = mp.PN(fac[0], dg[0]).space_dim
        env.true(len({t[fac[0]:] for t in tps[:n0]}) == 1
                 and len({t[:fac[0]] for t in tps[:n0]}) == n0, "first factor fastest")


# highest order in the quick and in the thorough tier
ORDERS = {
    "unisolvent": {"s0": (3, 5), "s1": (20, 40), "s2": (10, 16), "s3": (6, 9), "h2": (5, 9),
                   "h3": (3, 5), "p": (4, 6), "q": (3, 5), "g": (2, 4), "w": (2, 3),
                   "s4": (4, 6), "s5": (2, 3),
                   "h4": (2, 3)},
    "tuples": {"s0": (3, 5), "s1": (30, 60), "s2": (24, 40), "s3": (17, 22), "h2": (16, 25),
               "h3": (7, 11), "p": (7, 11), "q": (7, 11), "g": (5, 8), "w": (3, 5),
               "s4": (7, 11), "s5": (4, 6),
               "h4": (3, 5)},
    "symmetric": {"s1": (30, 60), "s2": (24, 40), "s3": (17, 22), "h2": (16, 25),
                  "h3": (7, 11), "s4": (5, 7)},
    "conforming": {"s1": (30, 60), "s2": (24, 40), "s3": (17, 22), "h2": (16, 25),
                   "h3": (7, 11)},
}
MAKERS = {"equi": equidistant_nodes, "warp": warp_and_blend_nodes}


def position(env, dim, n, lo=0):
    """An arbitrary real position n*(barycentric coordinates) in the simplex."""
    from .common import duffy
    us = [env.real(f"u{i}", lo, 1 - lo) if i == 0 or dim == 2 else Fraction(3 + 2 * i, 8)
          for i in range(dim)]
    return us, [(c + 1) * n / 2 for c in duffy(us)]


def with_tuple(dim, n, k, t, perm=False):
    ts = [tuple(a) for a in node_tuples_for_space(mp.PN(dim, n))]
    if perm:
        ts = ts[::-1]
    ts[k] = tuple(t)
    return ts


def given_tuples(env, which, dim, n):
    """node_tuples=: column k is the node of tuple k, whatever its position in the list
    and whatever the other tuples are."""
    _, t = position(env, dim, n, Fraction(1, 16))
    K = mp.PN(dim, n).space_dim     # noqa: N806
    if not env.symbolic:
        t = [float(v) for v in t]
    a = env.call(MAKERS[which], dim, n, with_tuple(dim, n, 0, t))
    b = env.call(MAKERS[which], dim, n, with_tuple(dim, n, K - 1, t, True))
    env.true(a.shape == b.shape == (dim, K), "shape")
    env.eq(a[:, 0], b[:, K - 1], 1e-9, "depends on the tuple only")
    if which == "equi":
        env.eq(a[:, 0], [v * 2 / n - 1 for v in t], 1e-12, "equidistant")
    d = env.call(MAKERS[which], dim, n)
    e = env.call(MAKERS[which], dim, n, with_tuple(dim, n, 0, t, True))
    env.eq(d[:, ::-1][:, 1:], e[:, 1:], 1e-12, "reversed list")


def given_1d(env, which, n):
    """In one dimension every permutation is honoured (index tuples)."""
    d = env.call(MAKERS[which], 1, n)
    for s in (1, 2, 3):
        ts = [((i * (n + 2 if s == 2 else 1) + s) % (n + 1),) for i in range(n + 1)]
        if len(set(ts)) != n + 1:
            continue
        r = env.call(MAKERS[which], 1, n, ts)
        env.eq(r[0], np.array([d[0, t[0]] for t in ts]), 1e-13, f"permutation {s}")


def edge_warp(env, dim, n):
    """Every position on an edge is moved along that edge, by the same one-dimensional
    map on all edges, which places the edge's nodes at the Legendre-Gauss-Lobatto
    points."""
    from numpy.polynomial import legendre as L      # noqa: N812
    s = env.real("s", Fraction(1, 64), Fraction(63, 64))
    res = []
    for i in range(dim + 1):
        for j in range(i + 1, dim + 1):
            b = [0] * (dim + 1)
            b[i], b[j] = 1 - s, s
            x = env.call(warp_and_blend_nodes, dim, n,
                         with_tuple(dim, n, 0, [n * v for v in b[1:]]))[:, 0]
            lam = [(1 + v) / 2 for v in x]
            lam = [1 - sum(lam), *lam]
            for k in range(dim + 1):
                if k not in (i, j):
                    env.eq(lam[k], 0, 1e-9, f"edge {i}{j} stays on the edge")
            res.append(lam[j])
            env.eq(lam[i] + lam[j], 1, 1e-9, f"edge {i}{j} sum")
    for k, r in enumerate(res[1:]):
        env.eq(r, res[0], 1e-8, f"edge {k + 1} like edge 0")
    # values at the equidistant positions
    lgl = [-1.0, *sorted(np.real(L.legroots(L.legder([0] * n + [1])))), 1.0]
    for k in range(1, n):
        v = env.subs(res[0], [(s, Fraction(k, n))]) if env.symbolic else None
        if v is not None:
            env.eq(v, (1 + lgl[k]) / 2, 1e-9, f"position {k} goes to a Lobatto point")


def lgl_lines(env, dim, n, kind):
    """legendre_gauss(_lobatto)_tensor_product_nodes: products of the 1D points."""
    from numpy.polynomial import legendre as L      # noqa: N812
    if kind == "lobatto":
        x = env.call(legendre_gauss_lobatto_tensor_product_nodes, dim, n)
        ref = np.array([-1.0, *sorted(np.real(L.legroots(L.legder([0] * n + [1])))), 1.0])
    else:
        x = env.call(legendre_gauss_tensor_product_nodes, dim, n)
        ref = np.sort(np.real(L.legroots([0] * (n + 1) + [1])))
    env.true(x.shape == (dim, (n + 1) ** dim), "shape")
    g = [m[::-1] for m in np.ndindex(*([n + 1] * dim))]
    env.eq(x, np.array([[ref[k] for k in m] for m in g]).T, 1e-10, "points")


def obligations(tier, seed):
    big = tier == "thorough"
    for kind, cfg in ORDERS.items():
        for desc, (n, m) in cfg.items():
            for k in range((m if big else n) + 1):
                for fam in FAMILY:
                    if kind in ("conforming", "symmetric") and not k:
                        continue
                    if kind == "unisolvent" and fam == "equi" and k > 14:
                        continue
                    yield f"{kind}-{desc}-{k}-{fam}", kind, dict(
                        desc=desc, order=k, family=fam)
    for desc, order in [("h2", [1, 4]), ("h2", [3, 2]), ("p", [2, 3]), ("p", [3, 1]),
                        ("q", [1, 4]), ("h3", [1, 3, 2])]:
        for fam in FAMILY:
            yield f"unisolvent-{desc}-{order}-{fam}", "unisolvent", dict(
                desc=desc, order=order, family=fam)
            yield f"tuples-{desc}-{order}-{fam}", "tuples", dict(
                desc=desc, order=order, family=fam)
    for dim, n in [(2, 2), (2, 3), (2, 4), (3, 2)] + ([(2, 5), (3, 3)] if big else []):
        for which in MAKERS:
            yield f"given-{which}-{dim}-{n}", "given_tuples", dict(which=which, dim=dim, n=n)
    for n in (1, 2, 4, 6):
        for which in MAKERS:
            yield f"given-{which}-1-{n}", "given_1d", dict(which=which, n=n)
    for dim, ns in [(2, (2, 3, 4, 5, 6, 7, 8)), (3, (2, 3, 4, 5))]:
        for n in ns:
            yield f"edge-{dim}-{n}", "edge_warp", dict(dim=dim, n=n)
    for dim in (1, 2, 3):
        for n in (1, 2, 3, 5):
            for kind in ("gauss", "lobatto"):
                yield f"lines-{kind}-{dim}-{n}", "lgl_lines", dict(dim=dim, n=n, kind=kind)
