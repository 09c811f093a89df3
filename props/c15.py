"""Face mass matrices: face data against volume functions."""
import numpy as np

import modepy as mp
from modepy.matrices import (modal_mass_matrix_for_face, modal_quad_mass_matrix_for_face,
                             nodal_mass_matrix_for_face, nodal_quad_mass_matrix_for_face,
                             nodal_quadrature_bilinear_form_matrix,
                             nodal_quadrature_test_matrix)
from modepy.quadrature import Quadrature

from .c12 import ONB, nodes
from .c14 import Affine, interp_functions, normalised, refuses, space_nodes
from .common import make_space

BOUNDS = ("every face of the 1/2/3-simplex and of the square and cube; rules of up to 3 "
          "arbitrary nodes and weights with up to 3 arbitrary affine functions on arbitrary "
          "node sets; shipped bases: volume orders 0-10 / 0-8 / 0-5, 0-5 / 0-3, face orders "
          "equal, one lower or two higher (thorough 0-14 / 0-10 / 0-6, 0-7 / 0-3), all face "
          "data and all volume polynomials")


def the_face(desc, k):
    shape = mp.Simplex(int(desc[1])) if desc[0] == "s" else mp.Hypercube(int(desc[1]))
    return shape, mp.faces_for_shape(shape)[k]


def nfaces(desc):
    d = int(desc[1])
    return d + 1 if desc[0] == "s" else 2 * d


def onto(desc, k, y):
    """Affine map given by where the face's vertices are (independent of the map)."""
    shape, face = the_face(desc, k)
    v = np.asarray(mp.unit_vertices_for_shape(shape))[:, list(face.volume_vertex_indices)]
    out = []
    for i in range(shape.dim):
        r = v[i, 0]
        for j in range(shape.dim - 1):
            # vertex 2**j of a hypercube / j+1 of a simplex differs along axis j only
            other = v[i, 2 ** j if desc[0] == "h" else j + 1]
            r = r + (1 + y[j]) / 2 * (other - v[i, 0])
        out.append(r)
    return out


def shipped(env, desc, order, forder, kind, k):
    shape, face = the_face(desc, k)
    space, _ = make_space(desc, order)
    basis = ONB[kind](space, shape)
    fspace = mp.space_for_shape(face, forder)
    fbasis = ONB[kind](fspace, face)
    x = np.asarray(nodes(space, shape, "edge"))
    y = np.asarray(nodes(fspace, face, "equi"))
    quad = mp.quadrature_for_space(mp.space_for_shape(face, order + forder), face)
    r, w = np.asarray(quad.nodes), np.asarray(quad.weights)
    fdesc = desc[0] + str(shape.dim - 1)
    # exact integrals by a fine rule with an independent map
    ref_q = mp.quadrature_for_space(mp.space_for_shape(face, order + forder + 2), face)
    rr, rw = np.asarray(ref_q.nodes), np.asarray(ref_q.weights)
    vol = np.array(onto(desc, k, rr)).reshape(shape.dim, -1) * np.ones(rr.shape[1])
    ref = (normalised(desc, order, vol) * rw) @ normalised(fdesc, forder, rr).T
    vx, fy = normalised(desc, order, x), normalised(fdesc, forder, y)
    nb, nf = len(vx), len(fy)
    tol = 1e-7 if kind == "onb" or order < 4 else 1e-5

    m = np.asarray(env.run(modal_mass_matrix_for_face, face, quad, fbasis.functions,
                           basis.functions), dtype=float)
    env.true(m.shape == (nb, nf), "modal shape")
    b_vol = np.array([np.broadcast_to(f(x), x.shape[1:]) for f in basis.functions])
    b_face = np.array([np.broadcast_to(f(y), y.shape[1:]) for f in fbasis.functions])
    cv = vx @ np.linalg.inv(b_vol)          # polynomials in terms of the volume basis
    cf = fy @ np.linalg.inv(b_face)
    env.lin(cv @ m @ cf.T - ref, tol, "modal")
    m = np.asarray(env.run(nodal_mass_matrix_for_face, face, quad, fbasis.functions,
                           basis.functions, x, y), dtype=float)
    env.true(m.shape == (nb, nf), "nodal shape")
    env.lin(vx @ m @ fy.T - ref, tol, "nodal")
    m = np.asarray(env.run(nodal_quadrature_bilinear_form_matrix, quad, basis.functions,
                           fbasis.functions, basis.functions, fbasis.functions, y, x,
                           face.map_to_volume), dtype=float)
    env.lin(vx @ m @ fy.T - ref, tol, "bilinear form")

    mapped = np.array(onto(desc, k, r)).reshape(shape.dim, -1) * np.ones(r.shape[1])
    sums = normalised(desc, order, mapped) * w
    m = np.asarray(env.run(modal_quad_mass_matrix_for_face, face, quad, basis.functions),
                   dtype=float)
    env.true(m.shape == (nb, len(w)), "modal quadrature shape")
    env.lin(cv @ m - sums, tol, "modal quadrature", prefix="u")
    for fn in ("old", "new"):
        if fn == "old":
            m = env.run(nodal_quad_mass_matrix_for_face, face, quad, basis.functions, x)
        else:
            m = env.run(nodal_quadrature_test_matrix, quad, basis.functions,
                        basis.functions, x, face.map_to_volume)
        m = np.asarray(m, dtype=float)
        env.true(m.shape == (nb, len(w)), "nodal quadrature shape")
        env.lin(vx @ m - sums, tol, f"nodal quadrature {fn}", prefix="u")
    env.true(refuses(ValueError, nodal_quad_mass_matrix_for_face, face, quad,
                     basis.functions, x[:, 1:]), "too few volume nodes")
    env.true(refuses(ValueError, nodal_mass_matrix_for_face, face, quad, fbasis.functions,
                     basis.functions, x, y[:, 1:]), "too few face nodes")


def abstract(env, desc, k, nq, nb, nf):
    """Arbitrary rules, affine functions and node sets."""
    shape, face = the_face(desc, k)
    d = shape.dim
    r = env.reals("r", (d - 1, nq), -1, 1)
    w = env.reals("w", nq, -1, 2)
    quad = Quadrature(r, w)
    ts = [Affine(env.reals(f"t{i}", d + 1, -1, 1)) for i in range(nb)]
    ss = [Affine(env.reals(f"s{i}", d, -1, 1)) for i in range(nf)]
    mapped = np.array(onto(desc, k, r), dtype=object if env.symbolic else float)
    tv = [t(mapped) for t in ts]
    sv = [s(r) * 1 if d > 1 else s.c[0] + 0 * w for s in ss]
    m = env.call(modal_mass_matrix_for_face, face, quad, ss, ts)
    mq = env.call(modal_quad_mass_matrix_for_face, face, quad, ts)
    env.true(np.shape(m) == (nb, nf) and np.shape(mq) == (nb, nq), "shapes")
    for i in range(nb):
        for q in range(nq):
            env.eq(mq[i, q], w[q] * tv[i][q], 1e-12, f"quadrature {i} {q}")
        for j in range(nf):
            env.eq(m[i, j], sum(w[q] * tv[i][q] * sv[j][q] for q in range(nq)), 1e-12,
                   f"modal {i} {j}")


def abstract_nodal(env, desc, k, nq):
    """As above for the nodal matrices, on arbitrary (unisolvent) node sets."""
    shape, face = the_face(desc, k)
    d = shape.dim
    r = env.reals("r", (d - 1, nq), -1, 1)
    w = env.reals("w", nq, -1, 2)
    quad = Quadrature(r, w)
    x = space_nodes(env, "x", d + 1, d)
    y = space_nodes(env, "y", d, d - 1)
    fs, gs = interp_functions(d + 1), interp_functions(d)
    mapped = np.array(onto(desc, k, r), dtype=object if env.symbolic else float)
    m = env.call(nodal_mass_matrix_for_face, face, quad, gs, fs, x, y)
    mq = env.call(nodal_quad_mass_matrix_for_face, face, quad, fs, x)
    for i, f in enumerate(fs):
        fx, fq = f(x), f(mapped)
        for q in range(nq):
            env.eq(sum(fx[a] * mq[a, q] for a in range(d + 1)), w[q] * fq[q], 1e-7,
                   f"quadrature {i} {q}")
        for j, g in enumerate(gs):
            gy, gq = g(y), g(r)
            lhs = sum(fx[a] * m[a, b] * gy[b] for a in range(d + 1) for b in range(d))
            env.eq(lhs, sum(w[q] * fq[q] * gq[q] for q in range(nq)), 1e-7, f"{i} {j}")


def obligations(tier, seed):
    big = tier == "thorough"
    for desc in ("s1", "s2", "s3", "h2", "h3"):
        for k in range(nfaces(desc)):
            for nq, nb, nf in [(1, 1, 1), (3, 2, 3), (2, 3, 2)]:
                if desc != "s1":
                    yield f"abstract-{desc}-{k}-{nq}{nb}{nf}", "abstract", dict(
                        desc=desc, k=k, nq=nq, nb=nb, nf=nf)
            if desc in ("s2", "h2"):
                for nq in (1, 2):
                    yield f"nodal-{desc}-{k}-{nq}", "abstract_nodal", dict(
                        desc=desc, k=k, nq=nq)
    for desc, n, m in [("s1", 10, 14), ("s2", 8, 10), ("s3", 5, 6), ("h2", 5, 7), ("h3", 3, 3)]:
        for order in range((m if big else n) + 1):
            for fo in sorted({order, max(order - 1, 0), order + 2}):
                for kind in ONB:
                    if kind == "mono" and (order > 4 or fo > 5):
                        continue
                    for k in range(nfaces(desc)):
                        yield f"shipped-{desc}-{order}-{fo}-{kind}-{k}", "shipped", dict(
                            desc=desc, order=order, forder=fo, kind=kind, k=k)
