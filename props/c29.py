"""Summation by parts: mass, differentiation and face matrices belong together."""
import numpy as np

import modepy as mp
from modepy.matrices import (diff_matrices, mass_matrix, nodal_quadrature_bilinear_form_matrix,
                             nodal_quadrature_test_matrix, resampling_matrix)
from modepy.tools import AffineMap

from .c12 import ONB, nodes
from .common import make_space, obj

BOUNDS = ("all pairs of nodal data; orders 0-12 / 0-8 / 0-5 on the 1/2/3-simplex, 0-6 / 0-3 on "
          "square / cube (thorough 18 / 12 / 7, 9 / 4), equispaced and clustered nodes, "
          "orthonormal and (up to order 4) monomial bases; on affine images of the triangle "
          "and the square: every affine map with determinant at least 1/4 in modulus, orders "
          "up to 3 (thorough 4)")


def setup(env, desc, order, kind, which):
    space, shape = make_space(desc, order)
    basis = ONB[kind](space, shape)
    x = np.asarray(nodes(space, shape, which))
    onb = mp.orthonormal_basis_for_space(space, shape)
    m = np.asarray(env.run(mass_matrix, onb, x), dtype=float)
    if order or kind == "onb":
        d = [np.asarray(a, dtype=float) for a in env.run(diff_matrices, basis, x)]
    else:
        d = [np.zeros((1, 1))] * shape.dim
    return space, shape, basis, x, m, d


def face_forms(env, shape, order, basis, x, kind):
    """For every face: the bilinear form of two functions of the volume over the
    reference face, through the face's own nodes and rule."""
    out = []
    for face in mp.faces_for_shape(shape):
        fspace = mp.space_for_shape(face, order)
        fbasis = ONB[kind](fspace, face)
        y = np.asarray(nodes(fspace, face, "equi"))
        quad = mp.quadrature_for_space(mp.space_for_shape(face, 2 * order), face)
        a = np.asarray(env.run(nodal_quadrature_bilinear_form_matrix, quad, basis.functions,
                               fbasis.functions, basis.functions, fbasis.functions, y, x,
                               face.map_to_volume), dtype=float)
        z = np.asarray(face.map_to_volume(y)).reshape(shape.dim, -1)
        r = np.asarray(env.run(resampling_matrix, basis.functions, z, x), dtype=float)
        out.append((face, a @ r))
    return out


def by_parts(env, desc, order, kind, which):
    """(u, D v) + (D u, v) = sum over the faces of n u v, for all nodal data u, v."""
    _, shape, basis, x, m, d = setup(env, desc, order, kind, which)
    env.true(len(d) == shape.dim, "one derivative per axis")
    s = [m @ a + a.T @ m for a in d]
    for face, b in face_forms(env, shape, order, basis, x, kind):
        n = np.asarray(env.run(mp.face_normal, face, normalize=False), dtype=float)
        # the reference face's own spanning edges have length two
        for k in range(shape.dim):
            s[k] = s[k] - b * n[k] / 2 ** (shape.dim - 1)
    tol = (1e-8 if kind == "onb" else 1e-7) * (order + 1)
    for k in range(shape.dim):
        env.lin(s[k], tol, f"axis {k}, one argument", prefix="u")
        env.lin(s[k].sum(axis=0), tol * len(m), f"axis {k}, divergence theorem")


def quadrature_form(env, desc, order, kind):
    """As above by quadrature alone: testing with gradients and integrating by parts."""
    space, shape = make_space(desc, order)
    basis = ONB[kind](space, shape)
    x = np.asarray(nodes(space, shape, "edge"))
    q = mp.quadrature_for_space(mp.space_for_shape(shape, 2 * order), shape)
    f = basis.functions
    tol = (1e-8 if kind == "onb" else 1e-7) * (order + 1)
    m = np.asarray(env.run(nodal_quadrature_test_matrix, q, f, f, x), dtype=float)
    r = np.asarray(env.run(resampling_matrix, f, np.asarray(q.nodes), x), dtype=float)
    total = []
    for k in range(shape.dim):
        df = basis.derivatives(k)
        a = np.asarray(env.run(nodal_quadrature_test_matrix, q, df, f, x), dtype=float)
        # derivative of the test function against the data, both ways
        total.append(a @ r)
    s = [t + t.T for t in total]
    for face, b in face_forms(env, shape, order, basis, x, kind):
        n = np.asarray(mp.face_normal(face, normalize=False), dtype=float)
        for k in range(shape.dim):
            s[k] = s[k] - b * n[k] / 2 ** (shape.dim - 1)
    for k in range(shape.dim):
        env.lin(s[k], tol, f"axis {k}", prefix="u")
    dm = [np.asarray(e, dtype=float) for e in env.run(diff_matrices, basis, x)]
    for k in range(shape.dim):
        env.lin(total[k] - dm[k].T @ (m @ r), tol, f"axis {k}, strong against weak", prefix="u")


def mapped(env, desc, order, sign):
    """The same on every affine image of the element."""
    _, shape, basis, x, m, d = setup(env, desc, order, "onb", "edge")
    a = env.reals("a", (2, 2), -2, 2)
    det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    env.assume(sign * det >= 0.25)
    b = env.reals("b", 2, -1, 1)
    fwd = env.call(AffineMap, a, b)
    inv = env.call(lambda: fwd.inverse)
    jac = env.call(lambda: fwd.jacobian)
    g = inv.a
    vol = sign * jac
    vv = mp.unit_vertices_for_shape(shape)
    forms = face_forms(env, shape, order, basis, x, "onb")
    for k in range(2):
        s = [[0] * len(m) for _ in m]
        w = [m @ e for e in d]
        for i in range(len(m)):
            for j in range(len(m)):
                s[i][j] = sum(vol * g[l, k] * (w[l][i, j] + w[l][j, i]) for l in range(2))
        for face, form in forms:
            p = vv[:, list(face.volume_vertex_indices)]
            q = env.call(fwd, p)
            e = [q[l, 1] - q[l, 0] for l in range(2)]
            # outward normal of the reference face turned back tells the direction
            t = p[:, 1] - p[:, 0]
            n = np.asarray(mp.face_normal(face))
            orient = np.sign(t[1] * n[0] - t[0] * n[1]) * sign
            nk = orient * (e[1] if k == 0 else -e[0]) / 2
            for i in range(len(m)):
                for j in range(len(m)):
                    if abs(form[i, j]) > 1e-12:
                        s[i][j] = s[i][j] - nk * float(form[i, j])
        for i in range(len(m)):
            for j in range(len(m)):
                env.eq(s[i][j], 0, 1e-7, f"axis {k}, data {i} and {j}")


def obligations(tier, seed):
    big = tier == "thorough"
    for desc, n, t in [("s1", 12, 18), ("s2", 8, 12), ("s3", 5, 7), ("h2", 6, 9), ("h3", 3, 4)]:
        for order in range((t if big else n) + 1):
            for kind in ("onb", "mono"):
                if kind == "mono" and order > 4:
                    continue
                for which in ("edge", "equi"):
                    if which == "equi" and order > 8:
                        continue
                    yield f"parts-{desc}-{order}-{kind}-{which}", "by_parts", dict(
                        desc=desc, order=order, kind=kind, which=which)
                yield f"weak-{desc}-{order}-{kind}", "quadrature_form", dict(
                    desc=desc, order=order, kind=kind)
    for desc in ("s2", "h2"):
        for order in range(1, (5 if big else 4) if desc == "s2" else (4 if big else 3)):
            for sign in (1, -1):
                yield f"mapped-{desc}-{order}-{sign}", "mapped", dict(
                    desc=desc, order=order, sign=sign)
