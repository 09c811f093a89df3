"""Faces of the reference elements: maps, indices, normals, coverage."""
import numpy as np

import modepy as mp

from .common import make_shape, obj, vec

BOUNDS = ("simplices of dimension 1-3, hypercubes of dimension 1-3, prisms' vertex and face "
          "counts; every point of the face element, of the volume element and of the "
          "volume's boundary (exact linear arithmetic)")


def box_or_simplex(env, desc, d, name):
    """Free coordinates of an arbitrary point of the element, with its constraints
    as (expression >= 0) list."""
    x = env.reals(name, d, -1, 1)
    if desc == "s":
        cons = [xi + 1 for xi in x] + [(2 - d) - sum(x)] if d else []
    else:
        cons = [e for xi in x for e in (xi + 1, 1 - xi)]
    return x, cons


def inside_vol(desc, d, y):
    if desc == "s":
        return [yi + 1 for yi in y] + [(2 - d) - sum(y)]
    return [e for yi in y for e in (yi + 1, 1 - yi)]


def call_map(env, face, p, d):
    col = obj(env, (d - 1, 1))
    for i in range(d - 1):
        col[i, 0] = p[i]
    r = env.call(face.map_to_volume, col)
    env.true(np.shape(r) == (d, 1), "map shape")
    return [r[i, 0] for i in range(d)]


def face_maps(env, kind, d):
    """Each face map sends the face element into the boundary, its vertices to the
    listed volume vertices, and is affine and injective."""
    shape = make_shape(f"{kind}{d}")
    vv = mp.unit_vertices_for_shape(shape)
    faces = env.call(mp.faces_for_shape, shape)
    env.true(len(faces) == shape.nfaces, "number of faces")
    p, cons = box_or_simplex(env, kind if d > 2 else "s", d - 1, "p")
    for i, f in enumerate(faces):
        env.true(f.face_index == i and f.volume_shape == shape and f.dim == d - 1,
                 f"face {i} data")
        fv = mp.unit_vertices_for_shape(f)
        env.true(len(f.volume_vertex_indices) == fv.shape[1] == f.nvertices, "vertex count")
        z = call_map(env, f, [0 * v - 0.375 for v in p] if d > 1 else [], d)
        y = call_map(env, f, p, d)
        # inside the volume, on one common facet
        for k, e in enumerate(inside_vol(kind, d, y)):
            env.never([[(c, "ge")] for c in cons] + [[(e + 1e-12, "lt")]],
                      f"face {i} leaves the volume at side {k}")
        tight = [k for k, e in enumerate(inside_vol(kind, d, z))
                 if abs(float(num(e))) < 1e-12]
        env.true(len(tight) == 1, f"face {i} on one side")
        for k in tight:
            env.eq(inside_vol(kind, d, y)[k], 0, 1e-12, f"face {i} on the boundary")
        # vertices in order
        for q in range(fv.shape[1]):
            w = call_map(env, f, [float(v) for v in fv[:, q]], d)
            env.eq(w, vv[:, f.volume_vertex_indices[q]], 1e-12, f"face {i} vertex {q}")
        # affine, from the vertices
        v0 = vv[:, f.volume_vertex_indices[0]]
        for l in range(d):
            ref = v0[l]
            for q in range(d - 1):
                step = [k for k in range(fv.shape[1])
                        if (fv[:, k] - fv[:, 0] > 1).tolist() == [j == q for j in range(d - 1)]]
                ref = ref + (vv[l, f.volume_vertex_indices[step[0]]] - v0[l]) * (p[q] + 1) / 2
            env.eq(y[l], ref, 1e-12, f"face {i} affine {l}")


def num(e):
    return e.r.const_value() if hasattr(e, "r") else e


def normals(env, kind, d):
    """Unit, orthogonal to the face, pointing out of the element; the unnormalised
    normal is a positive multiple."""
    shape = make_shape(f"{kind}{d}")
    x, cons = box_or_simplex(env, kind, d, "x")
    vv = mp.unit_vertices_for_shape(shape)
    for i, f in enumerate(mp.faces_for_shape(shape)):
        n = np.asarray(env.call(mp.face_normal, f))
        env.true(n.shape == (d,), "shape")
        env.eq(sum(v * v for v in n), 1, 1e-12, f"face {i} unit")
        fv = vv[:, list(f.volume_vertex_indices)]
        for q in range(1, fv.shape[1]):
            env.eq(n @ (fv[:, q] - fv[:, 0]), 0, 1e-12, f"face {i} orthogonal {q}")
        out = sum(float(n[k]) * (x[k] - float(fv[k, 0])) for k in range(d))
        env.never([[(c, "ge")] for c in cons] + [[(out - 1e-12, "gt")]],
                  f"face {i} normal points outward")
        m = np.asarray(env.call(mp.face_normal, f, normalize=False), dtype=float)
        s = float(m @ n)
        env.true(s > 1e-6, f"face {i} unnormalised orientation")
        env.eq(m, s * n, 1e-12, f"face {i} unnormalised direction")
        # its length is the area of the parallelotope of the spanning edges
        span = fv[:, 1:d] - fv[:, [0]]
        env.eq(s * s, float(np.linalg.det(span.T @ span)) if d > 1 else 1.0, 1e-10,
               f"face {i} area factor")


def coverage(env, kind, d):
    """Every boundary point lies on some face; faces overlap only in lower dimension
    (areas add up to the surface), and the divergence theorem holds for every linear
    field."""
    shape = make_shape(f"{kind}{d}")
    faces = mp.faces_for_shape(shape)
    x, cons = box_or_simplex(env, kind, d, "x")
    sides = inside_vol(kind, d, x)
    vv = mp.unit_vertices_for_shape(shape)
    # on face i: exists p in the face element with map(p) = x  (affine, solved exactly)
    outside = []
    for f in faces:
        z = np.asarray(env.call(f.map_to_volume, np.full((d - 1, 1), -1.0)))[:, 0]
        cols = [np.asarray(f.map_to_volume(np.array([[1.0 if a == b else -1.0]
                                                     for a in range(d - 1)])))[:, 0] - z
                for b in range(d - 1)]
        alts = []
        n = np.asarray(mp.face_normal(f))
        on = sum(float(n[k]) * (x[k] - float(z[k])) for k in range(d))
        alts += [(on + 1e-9, "lt"), (on - 1e-9, "gt")]
        if d > 1:
            a = np.array(cols).T
            pi = np.linalg.pinv(a)
            t = [sum(float(pi[r, k]) * (x[k] - float(z[k])) for k in range(d))
                 for r in range(d - 1)]
            alts += [(v + 1e-9, "lt") for v in t]
            if kind == "s" or d == 2:
                alts += [(sum(t) - 1 - 1e-9, "gt")] if kind == "s" else \
                    [(v - 1 - 1e-9, "gt") for v in t]
            else:
                alts += [(v - 1 - 1e-9, "gt") for v in t]
        outside.append(alts)
    boundary = [(e, "le") for e in sides]
    env.never([[(c, "ge")] for c in cons] + [boundary] + outside, "uncovered boundary point")
    # divergence theorem with q exact for degree 1 on every face
    c = env.reals("c", (d, d + 1), -1, 1)
    total = 0
    for f in faces:
        q = mp.quadrature_for_space(mp.space_for_shape(f, 2), f) if d > 1 else None
        n = np.asarray(mp.face_normal(f))
        if d == 1:
            y = np.asarray(f.map_to_volume(np.empty((0, 1))))
            w = [1.0]
        else:
            y = np.asarray(f.map_to_volume(q.nodes))
            fv = vv[:, list(f.volume_vertex_indices)]
            span = (fv[:, 1:d] - fv[:, [0]]) / 2
            w = q.weights * np.sqrt(np.linalg.det(span.T @ span))
        for j in range(len(w)):
            for k in range(d):
                fk = c[k, 0] + sum(c[k, 1 + l] * float(y[l, j]) for l in range(d))
                total = total + fk * float(n[k] * w[j])
    from math import factorial
    vol = 2 ** d / (factorial(d) if kind == "s" else 1)
    env.eq(total, vol * sum(c[k, 1 + k] for k in range(d)), 1e-9, "divergence theorem")


def counts(env, desc, nv, nf):
    shape = make_shape(desc)
    v = np.asarray(env.call(mp.unit_vertices_for_shape, shape))
    env.true(shape.nvertices == nv == v.shape[1] and v.shape[0] == shape.dim, "vertices")
    env.true(shape.nfaces == nf, "faces")
    env.true(len({tuple(c) for c in v.T}) == nv, "distinct vertices")
    env.true(np.all(np.abs(v) == 1), "corners of the bi-unit element")


def hull(env, desc):
    """The element is the convex hull of the vertices (every vertex extreme, every
    point of the element a combination)."""
    from .common import point
    shape = make_shape(desc)
    v = np.asarray(env.call(mp.unit_vertices_for_shape, shape))
    x, params = point(env, desc)
    # barycentric-product weights of the point
    from .common import factors
    ws, i = [1], 0
    for d in factors(desc):
        lam = [(1 + x[i + k]) / 2 for k in range(d)]
        lam = [1 - sum(lam), *lam]
        ws = [w * l for l in lam for w in ws]
        i += d
    env.true(len(ws) == v.shape[1], "vertex count")
    for k in range(len(x)):
        env.eq(sum(w * float(v[k, q]) for q, w in enumerate(ws)), x[k], 1e-12,
               f"vertex order, coordinate {k}")


def obligations(tier, seed):
    for kind in "sh":
        for d in (1, 2, 3):
            yield f"maps-{kind}{d}", "face_maps", dict(kind=kind, d=d)
            yield f"normals-{kind}{d}", "normals", dict(kind=kind, d=d)
            yield f"coverage-{kind}{d}", "coverage", dict(kind=kind, d=d)
    for desc, nv, nf in [("s0", 1, 1), ("s1", 2, 2), ("s2", 3, 3), ("s3", 4, 4), ("h1", 2, 2),
                         ("h2", 4, 4), ("h3", 8, 6), ("p", 6, 5), ("q", 6, 5), ("g", 8, 6)]:
        yield f"counts-{desc}", "counts", dict(desc=desc, nv=nv, nf=nf)
        if desc != "s0":
            yield f"hull-{desc}", "hull", dict(desc=desc)
    if tier == "thorough":
        for desc, nv, nf in [("s4", 5, 5), ("s5", 6, 6), ("h4", 16, 8), ("h5", 32, 10)]:
            yield f"counts-{desc}", "counts", dict(desc=desc, nv=nv, nf=nf)
