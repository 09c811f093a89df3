"""Neighbouring elements: interpolants that share the nodal data of a face are continuous."""
from itertools import permutations

import numpy as np

import modepy as mp
from modepy.matrices import resampling_matrix
from modepy.tools import AffineMap

from .common import make_space, point, vec

BOUNDS = ("all nodal data; every pair of faces of two elements (segment, triangle, tetrahedron, "
          "square, cube, and triangle next to square) and every vertex correspondence; orders "
          "up to 12 / 9 / 7 on the 1/2/3-simplex, 8 / 3 on square / cube (thorough 18 / 12 / 9, "
          "12 / 5), equispaced and edge-clustered nodes; every point of the closed common face "
          "as well up to orders 6 / 4 / 2, 4 / 2; pairs of triangles with arbitrary vertices "
          "(areas at least 1/8) up to order 3")
KIND = {"s1": "s0", "s2": "s1", "s3": "s2", "h1": "s0", "h2": "s1", "h3": "h2"}


def node_set(space, shape, which):
    f = {"edge": mp.edge_clustered_nodes_for_space,
         "equi": mp.equispaced_nodes_for_space}[which]
    return np.asarray(f(space, shape), dtype=float).reshape(shape.dim, -1)


def pull_back(face, x):
    """Face coordinates of volume points and their distance from the face, from the
    vertices alone."""
    vol = mp.unit_vertices_for_shape(face.volume_shape)[:, list(face.volume_vertex_indices)]
    ref = mp.unit_vertices_for_shape(face)
    if face.dim == 0:
        return np.zeros((0, x.shape[1])), np.abs(x - vol[:, :1]).max(axis=0)
    hom = np.vstack([ref, np.ones(ref.shape[1])])
    m = vol @ np.linalg.pinv(hom)
    y = np.linalg.pinv(m[:, :-1]) @ (x - m[:, -1:])
    return y, np.abs(m[:, :-1] @ y + m[:, -1:] - x).max(axis=0)


def symmetries(shape):
    """Affine maps (matrix, offset) of the reference shape permuting its vertices."""
    v = mp.unit_vertices_for_shape(shape)
    if shape.dim == 0:
        return [(np.zeros((0, 0)), np.zeros(0))]
    hom = np.vstack([v, np.ones(v.shape[1])])
    out = []
    for perm in permutations(range(v.shape[1])):
        m = v[:, list(perm)] @ np.linalg.pinv(hom)
        if np.abs(m @ hom - v[:, list(perm)]).max() < 1e-10:
            out.append((m[:, :-1], m[:, -1]))
    return out


class Side:
    """One element seen from one of its faces."""

    def __init__(self, env, desc, order, which, index, kind="onb"):
        self.space, self.shape = make_space(desc, order)
        self.basis = (mp.monomial_basis_for_space if kind == "mono"
                      else mp.orthonormal_basis_for_space)(self.space, self.shape)
        self.x = node_set(self.space, self.shape, which)
        faces = mp.faces_for_shape(self.shape)
        self.face = faces[index]
        y, dist = pull_back(self.face, self.x)
        self.on = [i for i in range(self.x.shape[1]) if dist[i] < 1e-10]
        self.y = y[:, self.on]

    def trace(self, env, y):
        """Values at face points of the interpolant, per unit of nodal data."""
        z = np.asarray(self.face.map_to_volume(y)).reshape(self.shape.dim, -1)
        r = env.run(resampling_matrix, self.basis.functions, z, self.x)
        return np.asarray(r, dtype=float)


def face_count(desc):
    return len(mp.faces_for_shape(make_space(desc, 1)[1]))


def sample(face, order):
    """More than enough points of the closed face to tell polynomials apart."""
    if face.dim == 0:
        return np.zeros((0, 1))
    return node_set(mp.space_for_shape(face, order + 1), face, "edge")


def restricted(env, desc, order, which):
    """The trace on a face is the face's own interpolant of the data at its nodes; data at
    other nodes do not matter."""
    for index in range(face_count(desc)):
        s = Side(env, desc, order, which, index)
        fspace = mp.space_for_shape(s.face, order)
        env.true(len(s.on) == fspace.space_dim, f"face {index}: nodes determine the trace")
        y = sample(s.face, order)
        r = s.trace(env, y)
        off = [i for i in range(s.x.shape[1]) if i not in set(s.on)]
        if off:
            env.lin(r[:, off], 1e-9, f"face {index}: other data", prefix="o")
        fb = mp.basis_for_space(fspace, s.face)
        rf = np.asarray(env.run(resampling_matrix, fb.functions, y, s.y), dtype=float)
        env.lin(r[:, s.on] - rf, 1e-9, f"face {index}: the face's interpolant")


def match(env, y, m, b, other):
    """For each node of one side, the node of the other at the same place."""
    target = m @ y + b[:, None]
    out = []
    for i in range(y.shape[1]):
        d = np.abs(other - target[:, i:i + 1]).max(axis=0) if len(target) else np.zeros(
            other.shape[1])
        hit = np.flatnonzero(d < 1e-9)
        env.true(len(hit) == 1, f"node {i} has one partner")
        out.append(int(hit[0]) if len(hit) else 0)
    return out


def neighbours(env, left, right, order, which, pairs):
    """Equal data at coinciding nodes give equal traces, in every position of the faces."""
    sides, traces = {}, {}

    def side(desc, k):
        if (desc, k) not in sides:
            sides[desc, k] = Side(env, desc, order, which, k)
        return sides[desc, k]

    def trace(desc, k, pos, y):
        # the reference face is that of the first side for all faces of a shape
        if (desc, k, pos) not in traces:
            traces[desc, k, pos] = side(desc, k).trace(env, y)
        return traces[desc, k, pos]
    for i, j in pairs:
        a, b = side(left, i), side(right, j)
        env.true(len(a.on) == len(b.on), f"faces {i} and {j}: as many nodes")
        y = sample(a.face, order)
        ra = trace(left, i, None, y)
        for k, (m, off) in enumerate(symmetries(a.face)):
            partner = match(env, a.y, m, off, b.y)
            rb = trace(right, j, k, m @ y + off[:, None] if a.face.dim else y)
            env.lin(ra[:, a.on] - rb[:, [b.on[p] for p in partner]], 1e-9,
                    f"faces {i} and {j}, position {k}")


def everywhere(env, left, right, order, which, i, j):
    """The same at an arbitrary point of the closed common face."""
    kind = "mono" if left == "s3" else "onb"
    a, b = (Side(env, d, order, which, k, kind) for d, k in ((left, i), (right, j)))
    y, _ = point(env, KIND[left])
    y = y.reshape(-1, 1)
    u = env.reals("u", len(a.on), -1, 1)

    def value(s, y, data):
        z = env.call(s.face.map_to_volume, y)
        r = env.call(resampling_matrix, s.basis.functions, z, s.x)
        full = [0] * s.x.shape[1]
        for k, v in zip(s.on, data):
            full[k] = v
        return sum(r[0, k] * full[k] for k in range(len(full)))
    va = value(a, y, u)
    for k, (m, off) in enumerate(symmetries(a.face)):
        partner = match(env, a.y, m, off, b.y)
        data = [0] * len(u)
        for q, p in enumerate(partner):
            data[p] = u[q]
        yb = vec(env, [sum(m[r, c] * y[c, 0] for c in range(len(m))) + off[r]
                       for r in range(len(m))]).reshape(-1, 1)
        env.eq(value(b, yb, data), va, 1e-7, f"position {k}")


def physical(env, order, which, i, j, flip, sign):
    """Two triangles with arbitrary vertices and a common edge: the point of the edge is
    found from either side, and the interpolants agree there."""
    a, b = (Side(env, "s2", order, which, k) for k in (i, j))
    p = env.reals("p", (2, 4), -2, 2)

    def element(side, ends, tip):
        ids = list(side.face.volume_vertex_indices)
        vs = [None] * 3
        vs[ids[0]], vs[ids[1]] = ends
        vs[({0, 1, 2} - set(ids)).pop()] = tip
        det = ((vs[1][0] - vs[0][0]) * (vs[2][1] - vs[0][1])
               - (vs[1][1] - vs[0][1]) * (vs[2][0] - vs[0][0]))
        mat = np.empty((2, 2), dtype=object if env.symbolic else float)
        off = np.empty(2, dtype=mat.dtype)
        for r in range(2):
            for c in range(2):
                mat[r, c] = (vs[c + 1][r] - vs[0][r]) / 2
            off[r] = (vs[1][r] + vs[2][r]) / 2
        return det, mat, off
    da, ma, oa = element(a, (p[:, 0], p[:, 1]), p[:, 2])
    db, mb, ob = element(b, (p[:, 1], p[:, 0]) if flip else (p[:, 0], p[:, 1]), p[:, 3])
    env.assume(sign[0] * da >= 0.25)
    env.assume(sign[1] * db >= 0.25)
    fa, fb = env.call(AffineMap, ma, oa), env.call(AffineMap, mb, ob)
    t = env.real("t", -1, 1)
    y = vec(env, [t]).reshape(1, 1)
    za = env.call(a.face.map_to_volume, y)
    zb = env.call(lambda: fb.inverse(fa(za)))
    yb = vec(env, [-t if flip else t]).reshape(1, 1)
    env.eq(zb, env.call(b.face.map_to_volume, yb), 1e-9, "the same point of the edge")
    for k, ia in enumerate(a.on):
        xa = fa(a.x[:, ia])
        ib = b.on[match(env, a.y, np.array([[-1.0 if flip else 1.0]]), np.zeros(1), b.y)[k]]
        env.eq(env.call(fb, b.x[:, ib]), xa, 1e-9, f"node {k}")
    u = env.reals("u", len(a.on), -1, 1)
    part = match(env, a.y, np.array([[-1.0 if flip else 1.0]]), np.zeros(1), b.y)

    def value(s, z, data):
        r = env.call(resampling_matrix, s.basis.functions, z, s.x)
        return sum(r[0, k] * v for k, v in zip(s.on, data))
    data = [0] * len(u)
    for q, pr in enumerate(part):
        data[pr] = u[q]
    env.eq(value(b, zb, data), value(a, za, u), 1e-7, "continuous")


def obligations(tier, seed):
    big = tier == "thorough"
    cfg = [("s1", 12, 18), ("s2", 9, 12), ("s3", 7, 9), ("h2", 8, 12), ("h3", 3, 5)]
    for desc, n, m in cfg:
        for order in range(1, (m if big else n) + 1):
            for which in ("edge", "equi"):
                if which == "equi" and order > 9:
                    continue
                # nodes inside the faces of clustered tetrahedra are the tetrahedron's own
                yield f"restricted-{desc}-{order}-{which}", "restricted", dict(
                    desc=desc, order=order, which=which)
    for left, right, n, m, e in [("s1", "s1", 12, 18, 6), ("s2", "s2", 9, 12, 4),
                                 ("s3", "s3", 7, 9, 2), ("h2", "h2", 8, 12, 4),
                                 ("h3", "h3", 3, 5, 2), ("s2", "h2", 8, 12, 3),
                                 ("h2", "s2", 5, 8, 2)]:
        nl, nr = face_count(left), face_count(right)
        pairs = [(i, j) for i in range(nl) for j in range(nr) if left != right or i <= j]
        for order in range(1, (m if big else n) + 1):
            for which in ("edge", "equi"):
                if which == "equi" and order > 9:
                    continue
                yield f"neighbours-{left}-{right}-{order}-{which}", "neighbours", dict(
                    left=left, right=right, order=order, which=which, pairs=pairs)
                if order <= e:
                    for i, j in pairs[::1 if big else 5 if len(pairs) > 10 else 2]:
                        yield f"everywhere-{left}-{right}-{order}-{which}-{i}-{j}", "everywhere", \
                            dict(left=left, right=right, order=order, which=which, i=i, j=j)
    for order in (1, 2, 3):
        for i, j, flip in [(0, 1, False), (2, 1, True), (0, 2, True), (1, 1, False)]:
            for sign in ([1, 1], [1, -1], [-1, 1]):
                yield f"physical-{order}-{i}-{j}-{flip}-{sign}", "physical", dict(
                    order=order, which="edge" if order % 2 else "equi", i=i, j=j, flip=flip,
                    sign=sign)
