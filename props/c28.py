"""Lebesgue constants: the norm of interpolation over the sample points."""
from itertools import product

import numpy as np

import modepy as mp
from modepy import tools
from modepy.tools import estimate_lebesgue_constant
from symx import harness, sym

from .common import factors, make_shape, ortho_basis, vec

BOUNDS = ("n from 0 to 12 / 5 / 3 on the 1/2/3-simplex, 4 / 1 on the square / cube, 2 on prisms "
          "(thorough 16 / 7 / 4, 5 / 1, 3), equispaced, edge-clustered and reordered nodes, "
          "edge-clustered ones on the segment up to 45 (thorough also 8 on the triangle and "
          "square); all "
          "nodal data bounded by one; two arbitrary nodes on the segment")


def sample(desc, m):
    """Equispaced points of the element with m+1 points per edge, shape (dim, npts)."""
    parts = []
    for d in factors(desc):
        parts.append([t for t in product(range(m + 1), repeat=d) if sum(t) <= m])
    pts = [sum(t, ()) for t in product(*parts)]
    return 2 * np.array(pts, dtype=float).T / m - 1


def lagrange(desc, n, nodes, x):
    """Values of the nodal interpolation functions, shape (npts, nnodes)."""
    v = ortho_basis(desc, n, nodes).T
    return np.linalg.solve(v.T, ortho_basis(desc, n, x)).T


def shuffled(n):
    return np.random.default_rng(7).permutation(n)


def norm(env, desc, n, family):
    shape = make_shape(desc)
    space = mp.space_for_shape(shape, n)
    f = mp.equispaced_nodes_for_space if family == "equi" else mp.edge_clustered_nodes_for_space
    nodes = np.asarray(f(space, shape))
    if family == "shuffled":
        nodes = nodes[:, shuffled(nodes.shape[1])]
    lam = env.run(estimate_lebesgue_constant, n, nodes, shape)
    env.true(isinstance(lam, float), "scalar")
    # no data bounded by one is amplified by more at a sample point
    u = vec(env, env.reals("u", nodes.shape[1], -1, 1))
    m = lagrange(desc, n, nodes, sample(desc, 10 * max(n, 1)))
    for row in m:
        env.le(row @ u, lam * (1 + 1e-8), label="amplification")
    # some data is amplified by that much
    m = lagrange(desc, n, nodes, sample(desc, (30 if shape.dim == 2 else 10) * max(n, 1)))
    j = np.abs(m).sum(axis=1).argmax()
    env.le(lam, m[j] @ np.sign(m[j]) * (1 + 1e-8), label="attained")


def segment(env):
    """Two arbitrary nodes: the two functions are linear."""
    a, b = env.real("a", -1, -0.25), env.real("b", 0.25, 1)
    x = vec(env, [a, b]).reshape(1, 2)
    if env.symbolic:
        harness.PATCH_EXTRA[:] = [
            (tools, "float", lambda v: v if isinstance(v, sym.Sym) else float(v))]
    try:
        lam = env.call(estimate_lebesgue_constant, 1, x, mp.Simplex(1))
    finally:
        harness.PATCH_EXTRA.clear()
    # largest at an end point of the element
    le = ((b + 1) + (a + 1)) / (b - a)
    re = ((1 - b) + (1 - a)) / (b - a)
    env.le(le, lam + 1e-9, label="left end")
    env.le(re, lam + 1e-9, label="right end")
    env.le((lam - le) * (lam - re), 1e-9, label="attained")


def refused(env):
    for d, e in ((1, 2), (2, 1), (2, 3), (3, 2)):
        nodes = mp.equispaced_nodes_for_space(mp.PN(d, 2), mp.Simplex(d))
        try:
            estimate_lebesgue_constant(2, nodes, mp.Simplex(e))
        except ValueError:
            ok = True
        else:
            ok = False
        env.true(ok, f"{d}-dimensional nodes on a {e}-dimensional element")


def obligations(tier, seed):
    big = tier == "thorough"
    for desc, n, m in [("s1", 12, 16), ("s2", 5, 7), ("s3", 3, 4), ("h2", 4, 5), ("h3", 1, 1),
                       ("p", 2, 3), ("q", 2, 3)]:
        for k in range((m if big else n) + 1):
            for family in ("equi", "edge", "shuffled"):
                yield f"norm-{desc}-{k}-{family}", "norm", dict(desc=desc, n=k, family=family)
    for desc, ns in (("s1", (16, 20, 30, 45)), ("s2", (8,) if big else ()),
                     ("h2", (8,) if big else ())):
        for k in ns:
            yield f"high-{desc}-{k}", "norm", dict(desc=desc, n=k, family="edge")
    yield "segment", "segment", {}
    yield "refused", "refused", {}
