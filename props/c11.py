"""Tensor-product arrays: node products, reshaping and back."""
import numpy as np

import modepy as mp
from modepy.tools import (reshape_array_for_tensor_product_space,
                          unreshape_array_for_tensor_product_space)

from .common import make_space, obj

BOUNDS = ("up to 5 factor node sets of dimension 0-3 with up to 6 nodes (one and two: up to 40 "
          "and 11), all coordinates and array entries arbitrary reals; spaces with up to 5 "
          "factors of orders 0-3 (two: up to 9), "
          "arrays with up to 3 extra axes, every position and sign of the axis argument, "
          "every mismatching order of the factor axes; factors of mixed number types")


def nodes(env, dims, ns, flat, repeat=None):
    """Column (j_0, j_1, ...) (first fastest) stacks node j_k of every factor k."""
    sets = []
    for k, (d, n) in enumerate(zip(dims, ns)):
        sets.append(env.reals(f"n{k}", (n,) if flat and d == 1 else (d, n), -2, 2))
    if repeat:
        # one and the same array for several factors
        sets, dims, ns = ([a[i] for i in repeat] for a in (sets, dims, ns))
    r = env.call(mp.tensor_product_nodes, sets)
    tot = int(np.prod(ns))
    env.true(np.shape(r) == (sum(dims), tot), "shape")
    for k, j in enumerate(np.ndindex(*ns[::-1])):
        j = j[::-1]
        row = 0
        for s, d, i in zip(sets, dims, j):
            for l in range(d):
                env.eq(r[row, k], s[i] if s.ndim == 1 else s[l, i], 0, f"node {j} row {row}")
                row += 1


def mixed(env, dims, ns, concrete, dtype):
    """Factors of different number types: nothing is rounded to the type of another."""
    sets = []
    for k, (d, n) in enumerate(zip(dims, ns)):
        if k in concrete:
            sets.append(np.arange(d * n).reshape(d, n).astype(dtype))
        else:
            sets.append(env.reals(f"n{k}", (d, n), -2, 2))
    r = env.call(mp.tensor_product_nodes, sets)
    env.true(np.shape(r) == (sum(dims), int(np.prod(ns))), "shape")
    for k, j in enumerate(np.ndindex(*ns[::-1])):
        row = 0
        for s, d, i in zip(sets, dims, j[::-1]):
            for l in range(d):
                env.eq(r[row, k], s[l, i], 0, f"node {j} row {row}")
                row += 1


def mismatch(env, spec, perm, trail, axis):
    """Arrays whose axes do not match the factors are refused, never rearranged."""
    space, ns = build(spec)
    sh = [ns[i] for i in perm]
    a = env.reals("a", (*sh, *trail), -2, 2)
    K = int(np.prod(ns))        # noqa: N806

    def refused(f, *args, **kw):
        try:
            env.call(f, *args, **kw)
        except ValueError:
            return True
        return False
    env.true(refused(unreshape_array_for_tensor_product_space, space, a, axis=axis)
             == (sh != ns), "refused exactly if the factor axes differ")
    b = env.reals("b", (K, *trail), -2, 2)
    for ax in range(-b.ndim - 2, b.ndim + 2):
        valid = -b.ndim <= ax < b.ndim and b.shape[ax] == K
        env.true(refused(reshape_array_for_tensor_product_space, space, b, axis=ax)
                 == (not valid), f"axis {ax}")
    n = 1 + len(trail)
    for ax in range(-n - 2, n + 2):
        valid = -n <= ax < n and list(a.shape[ax % n:ax % n + len(ns)]) == ns
        env.true(refused(unreshape_array_for_tensor_product_space, space, a, axis=ax)
                 == (not valid), f"undoing, axis {ax}")


def power(env, d, n, shape2):
    """tensor_product_nodes(d, x): the same one-dimensional nodes on every axis."""
    x = env.reals("x", (1, n) if shape2 else n, -2, 2)
    r = env.call(mp.tensor_product_nodes, d, x)
    x1 = x.reshape(-1)
    env.true(np.shape(r) == (d, n ** d), "shape")
    for k, j in enumerate(np.ndindex(*([n] * d))):
        env.eq(r[:, k], [x1[i] for i in j[::-1]], 0, f"node {j}")


def reshape(env, spec, lead, trail, axis):
    """Entry [.., i_0, i_1, .., ..] of the reshaped array is the entry of the combination
    of factor indices (i_0, i_1, ..); reshaping back restores the array."""
    space, ns = build(spec)
    K = int(np.prod(ns))        # noqa: N806
    env.true(space.space_dim == K, "dimension")
    a = env.reals("a", (*lead, K, *trail), -2, 2)
    pos = axis if axis >= 0 else axis + a.ndim
    assert pos == len(lead)
    r = env.call(reshape_array_for_tensor_product_space, space, a, axis=axis)
    single = not isinstance(space, mp.TensorProductSpace)
    want = a.shape if single else (*lead, *ns, *trail)
    env.true(np.shape(r) == want, "shape")
    if not single:
        for li in np.ndindex(*lead):
            for ti in np.ndindex(*trail):
                for k, j in enumerate(np.ndindex(*ns[::-1])):
                    env.eq(r[(*li, *j[::-1], *ti)], a[(*li, k, *ti)], 0, f"entry {j}")
    back = env.call(unreshape_array_for_tensor_product_space, space, r, axis=axis)
    env.true(np.shape(back) == a.shape, "shape after undoing")
    env.eq(back, a, 0, "round trip")
    env.eq(a, env.reals("a", (*lead, K, *trail), -2, 2), 0, "argument unchanged")


def build(spec):
    ns, bases = [], []
    for d, n in spec:
        s = mp.PN(d, n)
        bases.append(s)
        from math import comb
        ns.append(comb(n + d, d))
    if all(d == 1 for d, _ in spec) and len({n for _, n in spec}) == 1:
        return mp.QN(len(spec), spec[0][1]), ns
    return mp.TensorProductSpace(tuple(bases)), ns


def separable(env, spec, shape_desc):
    """Reshaped nodal / modal data vary with one factor per array axis: nodes of the
    space reshape to factor nodes, and values of a tensor-product basis function
    reshape to the outer product."""
    space, ns = build(spec)
    _, shape = make_space(shape_desc, 1)
    x = np.asarray(mp.edge_clustered_nodes_for_space(space, shape))
    r = env.call(reshape_array_for_tensor_product_space, space, x)
    i = 0
    for k, (d, n) in enumerate(spec):
        f = np.asarray(mp.edge_clustered_nodes_for_space(mp.PN(d, n), mp.Simplex(d)))
        for l in range(d):
            sh = [1] * len(ns)
            sh[k] = ns[k]
            env.eq(r[i], np.broadcast_to(f[l].reshape(sh), r[i].shape), 1e-13, f"axis {i}")
            i += 1
    basis = mp.orthonormal_basis_for_space(space, shape)
    c = env.reals("c", ns, -1, 1)
    flatc = env.call(unreshape_array_for_tensor_product_space, space, c)
    v = np.array([f(x) for f in basis.functions])
    vals = env.call(reshape_array_for_tensor_product_space, space, flatc @ v)
    ref = c
    i = 0
    for k, (d, n) in enumerate(spec):
        f = np.asarray(mp.edge_clustered_nodes_for_space(mp.PN(d, n), mp.Simplex(d)))
        b = mp.orthonormal_basis_for_space(mp.PN(d, n), mp.Simplex(d))
        m = np.array([np.broadcast_to(g(f), f.shape[1:]) for g in b.functions])
        ref = np.moveaxis(np.tensordot(ref, m, axes=(k, 0)), -1, k)
    env.eq(vals, ref, 1e-9, "separable evaluation")


def obligations(tier, seed):
    big = tier == "thorough"
    cases = [([1], [3]), ([1, 1], [2, 3]), ([1, 1, 1], [2, 1, 3]), ([2, 1], [3, 2]),
             ([1, 2], [3, 2]), ([2, 2], [2, 3]), ([3, 1], [2, 4]), ([1, 2, 1], [2, 3, 2]),
             ([1, 1, 1, 1], [2, 3, 1, 2]), ([0, 2], [1, 3]), ([2, 0, 1], [2, 1, 2])]
    cases += [([3, 2, 1], [4, 3, 2]), ([1, 1, 1, 1], [3, 2, 4, 3]), ([2, 3], [6, 4]),
              ([1, 1, 1, 1, 1], [2, 3, 2, 1, 2]), ([2, 1, 2, 1], [2, 3, 1, 2]),
              ([1, 1], [11, 7]), ([1], [40])]
    if big:
        cases += [([1] * 6, [2, 1, 3, 2, 2, 1]), ([3, 3], [9, 8]), ([1, 1], [25, 30])]
    for dims, ns in cases:
        for flat in (True, False):
            yield f"nodes-{dims}-{ns}-{flat}", "nodes", dict(dims=dims, ns=ns, flat=flat)
    for dims, ns, rep in [([1], [3], [0, 0]), ([2], [3], [0, 0]), ([1, 2], [3, 2], [0, 1, 0]),
                          ([1, 1], [2, 3], [0, 0, 1]), ([1], [2], [0, 0, 0])]:
        for flat in (True, False):
            yield f"nodes-repeated-{dims}-{ns}-{rep}-{flat}", "nodes", dict(
                dims=dims, ns=ns, flat=flat, repeat=rep)
    for dims, ns in [([1, 1], [2, 3]), ([2, 1], [3, 2]), ([1, 2, 1], [2, 2, 3])]:
        for k in range(len(dims)):
            for dt in ("int64", "float32", "int8", "bool"):
                yield f"mixed-{dims}-{ns}-{k}-{dt}", "mixed", dict(
                    dims=dims, ns=ns, concrete=[k], dtype=dt)
    from itertools import permutations
    for spec in [[(1, 1), (1, 2)], [(2, 1), (1, 1)], [(1, 2), (2, 1), (1, 0)],
                 [(2, 1), (1, 1), (1, 2)]]:
        for perm in permutations(range(len(spec))):
            for trail in [(), (2,), (5, 2)]:
                yield f"mismatch-{spec}-{perm}-{trail}", "mismatch", dict(
                    spec=spec, perm=list(perm), trail=list(trail),
                    axis=0 if len(trail) < 2 else -1 - len(trail))
    for d in (1, 2, 3, 4):
        for n in (1, 2, 3):
            if n ** d <= 27:
                for s in (True, False):
                    yield f"power-{d}-{n}-{s}", "power", dict(d=d, n=n, shape2=s)
    specs = [[(1, 2)], [(1, 1), (1, 1)], [(1, 1), (1, 2)], [(1, 3), (1, 0)], [(2, 1), (1, 1)],
             [(1, 2), (2, 1)], [(1, 1), (1, 2), (1, 0)], [(1, 1), (1, 1), (1, 1)], [(2, 2)]]
    specs += [[(3, 1), (1, 2)], [(2, 2), (2, 1)], [(1, 1), (1, 2), (1, 3), (1, 1)],
              [(1, 1), (1, 0), (2, 1), (1, 2), (1, 1)], [(1, 1)] * 4, [(1, 6), (1, 9)]]
    if big:
        specs += [[(2, 2), (1, 2), (2, 1)], [(1, 12), (1, 13)], [(3, 2), (1, 3), (1, 1)]]
    for spec in specs:
        for lead, trail in [((), ()), ((2,), ()), ((), (3,)), ((2,), (3,)), ((2, 3), (2,)),
                            ((3, 2), ())]:
            for axis in (len(lead), -1 - len(trail)):
                yield (f"reshape-{spec}-{lead}-{trail}-{axis}", "reshape",
                       dict(spec=spec, lead=list(lead), trail=list(trail), axis=axis))
    for spec, desc in [([(1, 2), (1, 2)], "h2"), ([(1, 2), (1, 1)], "h2"),
                       ([(2, 2), (1, 1)], "p"), ([(1, 2), (2, 1)], "q"),
                       ([(1, 1), (1, 2), (1, 1)], "h3")]:
        yield f"separable-{spec}-{desc}", "separable", dict(spec=spec, shape_desc=desc)
