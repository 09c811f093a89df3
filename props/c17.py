"""Submeshes tessellate the reference element."""
import itertools
import random

import numpy as np

import modepy as mp

from .common import make_space

BOUNDS = ("orders 1-24 / 1-16 / 1-8 in 1/2/3 dimensions (thorough 40 / 24 / 11), hypercubes of "
          "dimension 2-3 up to order 12 / 6 (thorough 16 / 8); every point of the element; node "
          "lists in the default order and in seeded permutations of it")


def sub_weights(desc, verts, x):
    """Barycentric coordinates (simplex) of x with respect to the sub-element."""
    d = len(x)
    a = np.vstack([verts.T, np.ones(len(verts))])
    ai = np.linalg.inv(a)
    return [sum(float(ai[i, k]) * x[k] for k in range(d)) + float(ai[i, d])
            for i in range(d + 1)]


def tessellation(env, desc, order, perm):
    """Every point of the element lies in some sub-element, the volumes add up to the
    element's (so overlaps have measure zero), vertices are listed positively oriented,
    every node is used, and indices refer to the list that was passed."""
    space, shape = make_space(desc, order)
    tps = list(mp.node_tuples_for_space(space))
    if perm:
        random.Random(perm).shuffle(tps)
    sub = env.call(mp.submesh_for_shape, shape, tps)
    d = shape.dim
    pts = np.array([[2 * k / order - 1 for k in t] for t in tps])
    x = env.reals("x", d, -1, 1)
    nv = shape.nvertices
    env.true(all(len(s) == nv and len(set(s)) == nv for s in sub), "vertex counts")
    env.true(len(set(map(frozenset, sub))) == len(sub), "distinct sub-elements")
    env.true({i for s in sub for i in s} == set(range(len(tps))), "every node used")
    vol, clauses, boxes = 0.0, [], []
    sgn = []
    for s in sub:
        v = pts[list(s)]
        boxes.append((v.min(axis=0), v.max(axis=0)))
        if desc[0] == "s":
            m = (v[1:] - v[0]).T
            det = np.linalg.det(m)
            sgn.append(det)
            vol += abs(det)
            ws = sub_weights(desc, v, x)
            clauses.append([(w + 1e-9, "lt") for w in ws])
        else:
            lo, hi = v.min(axis=0), v.max(axis=0)
            box = mp.unit_vertices_for_shape(shape).T
            env.eq(v, lo + (box + 1) / 2 * (hi - lo), 1e-12, f"vertex order {s}")
            vol += np.prod(hi - lo)
            clauses.append([(x[k] - float(lo[k]) + 1e-9, "lt") for k in range(d)]
                           + [(x[k] - float(hi[k]) - 1e-9, "gt") for k in range(d)])
    env.eq(vol, 2.0 ** d, 1e-9, "volumes add up")
    if desc[0] == "s":
        env.true(min(map(abs, sgn)) > 1e-9, "no degenerate sub-element")
        env.true(min(sgn) > 0, "orientation")
    # every point: cell by cell of the lattice (the cells cover the element), where only
    # the sub-elements whose bounding box meets the cell matter
    for c in itertools.product(range(order), repeat=d):
        if desc[0] == "s" and sum(c) > order - 1:
            continue
        lo = np.array([2 * k / order - 1 for k in c])
        hi = lo + 2 / order
        here = [cl for cl, (a, b) in zip(clauses, boxes)
                if (a < hi - 1e-12).all() and (b > lo + 1e-12).all()]
        inside = [[(x[k] - float(lo[k]), "ge")] for k in range(d)] \
            + [[(x[k] - float(hi[k]), "le")] for k in range(d)]
        if desc[0] == "s":
            inside.append([(sum(x) - (2 - d), "le")])
        env.never(here + inside, f"uncovered point in cell {c}")


def obligations(tier, seed):
    big = tier == "thorough"
    for desc, n, m in [("s1", 24, 40), ("s2", 16, 24), ("s3", 8, 11), ("h2", 12, 16), ("h3", 6, 8)]:
        for k in range(1, (m if big else n) + 1):
            for perm in (0, 1, 2):
                yield f"{desc}-{k}-{perm}", "tessellation", dict(desc=desc, order=k, perm=perm)
