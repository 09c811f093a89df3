"""Spaces, shapes and bases as values: dimensions, index sets, flattening, copies."""
import copy
import pickle

import numpy as np

import modepy as mp
from modepy.nodes import node_tuples_for_space
from modepy.tools import AffineMap

from .common import factors, make_shape, make_space, point

BOUNDS = ("orders up to 30 / 16 / 9 / 6 / 4 / 3 in 1-6 dimensions for simplices, 12 / 6 / 7 per axis "
          "for squares / cubes / prisms and mixed orders; copies and flattening: every point of the "
          "element, orders up to 3; copies of spaces up to order 30 / 12 / 9 and mixed: every "
          "combination of basis functions at the nodes")


def num_modes(fac, degs):
    from math import comb, prod
    return prod(comb(n + d, d) for d, n in zip(fac, degs))


def degrees_of(desc, order):
    fac = factors(desc)
    return list(order) if isinstance(order, (list, tuple)) else [order] * len(fac)


def dims(env, desc, order):
    """Dimensions, and the index sets: exactly the exponents of the space."""
    space, shape = make_space(desc, order)
    fac = factors(desc)
    degs = degrees_of(desc, order)
    d = sum(fac)
    n = num_modes(fac, degs)
    env.true(space.spatial_dim == d == shape.dim, "spatial dimension")
    env.true(space.space_dim == n and isinstance(space.space_dim, int), "dimension")
    if len(set(degs)) == 1:
        env.true(space.order == degs[0], "order")
    else:
        try:
            space.order
        except AttributeError:
            ok = True
        else:
            ok = False
        env.true(ok, "no single order")
    cons = []
    i = 0
    for f, g in zip(fac, degs):
        row = [0] * d
        row[i:i + f] = [1] * f
        cons.append((row, g))
        for a in range(i, i + f):
            e = [0] * d
            e[a] = -1
            cons.append((e, 0))
        i += f
    env.enumerates([flat(t) for t in env.run(node_tuples_for_space, space)], d, cons,
                   "node tuples")
    for make in (mp.orthonormal_basis_for_space, mp.monomial_basis_for_space,
                 mp.basis_for_space):
        if max(fac) > 3:
            break
        basis = env.run(make, space, shape)
        env.true(len(basis.functions) == n, "number of functions")
        env.enumerates([flat(t) for t in basis.mode_ids], d, cons, "mode identifiers")


def flat(t):
    out = []
    for v in t:
        out += flat(v) if isinstance(v, tuple) else [v]
    return out


def compare(env, b1, b2, x, label):
    """The two bases take the same values, and have the same gradients, at *x*."""
    env.true(len(b1.functions) == len(b2.functions), label + ": size")
    env.true(tuple(b1.mode_ids) == tuple(b2.mode_ids), label + ": identifiers")
    for f, g in zip(b1.functions, b2.functions):
        env.eq(env.call(f, x), env.call(g, x), 1e-12, label + ": functions")
    for f, g in zip(b1.gradients, b2.gradients):
        u, v = env.call(f, x), env.call(g, x)
        env.true(len(u) == len(v) == len(x), label + ": gradient length")
        for p, q in zip(u, v):
            env.eq(p, q, 1e-12, label + ": gradients")


WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy,
        "pickle": lambda o: pickle.loads(pickle.dumps(o)),
        "pickle2": lambda o: pickle.loads(pickle.dumps(o, protocol=2))}


def copies(env, desc, order, way):
    """Copied spaces, shapes and bases behave as the original, at every point."""
    cp = WAYS[way]
    space, shape = make_space(desc, order)
    space2, shape2 = env.run(cp, space), env.run(cp, shape)
    env.true(type(space2) is type(space) and type(shape2) is type(shape), "types")
    env.true(shape2 == shape and hash(shape2) == hash(shape), "shape equal")
    env.true(repr(space2) == repr(space) and repr(shape2) == repr(shape), "descriptions")
    env.true(space2.space_dim == space.space_dim
             and space2.spatial_dim == space.spatial_dim, "dimensions")
    env.true(getattr(space2, "order", None) == getattr(space, "order", None), "order")
    env.true(shape2.nvertices == shape.nvertices and shape2.nfaces == shape.nfaces
             and shape2.dim == shape.dim, "counts")
    env.eq(mp.unit_vertices_for_shape(shape2), mp.unit_vertices_for_shape(shape), 0,
           "vertices")
    x, _ = point(env, desc)
    b = mp.basis_for_space(space, shape)
    compare(env, b, mp.basis_for_space(space2, shape2), x, "basis of the copy")
    compare(env, b, env.run(cp, b), x, "copy of the basis")
    for f, g in zip(b.functions, env.run(cp, b.functions)):
        env.eq(env.call(g, x), env.call(f, x), 1e-12, "copied function")


def copies_high(env, desc, order, way):
    """Copied spaces of high order: the same modes and, for every coefficient vector, the
    same interpolant of nodal data."""
    cp = WAYS[way]
    space, shape = make_space(desc, order)
    other = env.run(cp, space)
    env.true(type(other) is type(space) and repr(other) == repr(space), "description")
    env.true((other.space_dim, other.spatial_dim, getattr(other, "order", None))
             == (space.space_dim, space.spatial_dim, getattr(space, "order", None)),
             "dimensions and order")
    env.true(list(env.run(mp.node_tuples_for_space, other))
             == list(mp.node_tuples_for_space(space)), "node tuples")
    b, b2 = mp.basis_for_space(space, shape), mp.basis_for_space(other, shape)
    env.true(b.mode_ids == b2.mode_ids, "modes")
    x = np.asarray(mp.edge_clustered_nodes_for_space(space, shape))
    y = np.asarray(env.run(mp.edge_clustered_nodes_for_space, other, shape))
    env.true(x.shape == y.shape, "nodes")
    env.lin(mp.vandermonde(b.functions, x) - mp.vandermonde(b2.functions, y), 1e-10,
            "every combination")


def copied_faces(env, desc, way):
    cp = WAYS[way]
    shape = make_shape(desc)
    for i, f in enumerate(mp.faces_for_shape(shape)):
        g = env.run(cp, f)
        env.true(type(g) is type(f) and g.dim == f.dim and g.face_index == f.face_index == i
                 and g.volume_vertex_indices == f.volume_vertex_indices
                 and g.volume_shape == shape, f"face {i}")
        if f.dim:
            x = env.reals(f"x{i}", (f.dim, 2), -1, 1)
            env.eq(env.call(g.map_to_volume, x), env.call(f.map_to_volume, x), 0,
                   f"map of face {i}")
        env.eq(mp.face_normal(g), mp.face_normal(f), 0, f"normal of face {i}")


def copied_rule(env, desc, order, way):
    space, shape = make_space(desc, order)
    q = mp.quadrature_for_space(space, shape)
    r = env.run(WAYS[way], q)
    c = env.reals("c", len(q.weights), -1, 1)
    env.eq(env.call(r, lambda x: c), env.call(q, lambda x: c), 1e-12, "application")
    env.eq(r.nodes, q.nodes, 0, "nodes")
    env.true(r.exact_to == q.exact_to and r.dim == q.dim, "attributes")


def copied_map(env, d, way):
    a = env.reals("a", (d, d), -1, 1)
    b = env.reals("b", d, -1, 1)
    x = env.reals("x", d, -1, 1)
    m = env.call(AffineMap, a, b)
    if way.startswith("pickle") and env.symbolic:
        m2 = copy.deepcopy(m)
    else:
        m2 = WAYS[way](m)
    env.eq(env.call(m2, x), env.call(m, x), 1e-14, "map")


def flattened(env, desc, nest, orders, named=False):
    """However factors are grouped, the space, its basis and the shape are those of the
    flat product."""
    shape = make_shape(desc)
    fac = factors(desc)
    parts = [mp.PN(d, n) for d, n in zip(fac, orders)]
    shapes = [mp.Simplex(d) for d in fac]
    flat_space = mp.TensorProductSpace(tuple(parts))

    def named_group(group):
        """The hypercube or QN that such a group is, where there is one."""
        if named and len(group) > 1:
            if all(g == mp.Simplex(1) for g in group):
                return mp.Hypercube(len(group))
            if all(isinstance(g, mp.PN) and g.spatial_dim == 1 for g in group) and \
                    len({g.order for g in group}) == 1:
                return mp.QN(len(group), group[0].order)
        return None

    def group(items, cls):
        it = iter(items)
        groups = [tuple(next(it) for _ in range(k)) for k in nest]
        return cls(tuple(named_group(g) or cls(g) for g in groups))
    sp = group(parts, mp.TensorProductSpace)
    sh = group(shapes, mp.TensorProductShape)
    if isinstance(sp, mp.TensorProductSpace):
        env.true(len(sp.bases) == len(fac) and all(
            (u.spatial_dim, u.order) == (d, n) for u, d, n in zip(sp.bases, fac, orders)),
            "flat bases")
        env.true(sh.bases == tuple(shapes), "flat shapes")
    env.true(sp.space_dim == flat_space.space_dim and sp.spatial_dim == sum(fac), "dimensions")
    env.true(sh.dim == sum(fac) and sh.nvertices == shape.nvertices
             and sh.nfaces == shape.nfaces, "shape counts")
    env.eq(mp.unit_vertices_for_shape(sh), mp.unit_vertices_for_shape(shape), 0, "vertices")
    flat_shape = mp.TensorProductShape(tuple(shapes))
    env.true(sh == flat_shape and hash(sh) == hash(flat_shape), "equal to the flat product")
    x, _ = point(env, desc)
    compare(env, mp.basis_for_space(sp, sh), mp.basis_for_space(flat_space, flat_shape), x,
            "basis of the grouped product")


def single(env, d, n):
    """Products of one factor are the factor; the one-dimensional cube is the segment."""
    s, p = mp.Simplex(d), mp.PN(d, n)
    env.true(mp.TensorProductShape((s,)) is s, "shape")
    env.true(mp.TensorProductSpace((p,)) is p, "space")
    if d == 1:
        env.true(mp.Hypercube(1) == s and type(mp.Hypercube(1)) is mp.Simplex, "segment")
        q = mp.QN(1, n)
        env.true(type(q) is mp.PN and q.order == n and q.spatial_dim == 1, "QN(1,n)")
    sp = mp.space_for_shape(s, n)
    env.true(type(sp) is mp.PN and sp.order == n and sp.spatial_dim == d, "space for simplex")
    one = mp.basis_for_space(mp.TensorProductSpace((p,)), mp.TensorProductShape((s,)))
    if d:
        x, _ = point(env, f"s{d}")
        compare(env, one, mp.basis_for_space(p, s), x, "basis")


def equality(env):
    """Equal exactly when type and parameters agree; usable as keys."""
    mk = [lambda d=d: mp.Simplex(d) for d in range(5)]
    mk += [lambda d=d: mp.Hypercube(d) for d in (0, 2, 3, 4)]
    mk += [lambda b=b: mp.TensorProductShape(tuple(mp.Simplex(d) for d in b))
           for b in ((1, 2), (2, 1), (1, 3), (3, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1))]
    for i, f in enumerate(mk):
        for j, g in enumerate(mk):
            env.true((f() == g()) == (i == j), f"{f()} == {g()}")
    d = {f(): i for i, f in enumerate(mk)}
    env.true(len(d) == len(mk) and all(d[f()] == i for i, f in enumerate(mk)), "as keys")


def refused(env):
    def refuses(exc, fn, *a):
        try:
            fn(*a)
        except exc:
            return True
        return False
    for desc in ("h2", "h3", "p", "q", "g"):
        sh = make_shape(desc)
        k = len(factors(desc))
        for m in (0, 1, k - 1, k + 1):
            if m != k:
                env.true(refuses(ValueError, mp.space_for_shape, sh, (2,) * m),
                         f"{m} orders for {desc}")
    env.true(refuses(NotImplementedError, mp.TensorProductShape,
                     (mp.Simplex(2), mp.Simplex(2))), "product of two triangles")

    class Odd(mp.Shape):
        nvertices = nfaces = 0
    for fn in (mp.faces_for_shape, mp.unit_vertices_for_shape):
        env.true(refuses(NotImplementedError, fn, Odd(2)), "unknown shape")
    env.true(refuses(NotImplementedError, mp.space_for_shape, Odd(2), 1), "unknown shape")

    class OddSpace(mp.FunctionSpace):
        spatial_dim = space_dim = 1
    for fn in (mp.basis_for_space, mp.orthonormal_basis_for_space,
               mp.monomial_basis_for_space, mp.equispaced_nodes_for_space,
               mp.edge_clustered_nodes_for_space, mp.quadrature_for_space):
        env.true(refuses(NotImplementedError, fn, OddSpace(), mp.Simplex(1)), "unknown space")
    env.true(refuses(NotImplementedError, mp.node_tuples_for_space, OddSpace()),
             "unknown space")


def obligations(tier, seed):
    big = tier == "thorough"
    for d, top in ((0, 3), (1, 30), (2, 16), (3, 9), (4, 6), (5, 4), (6, 3)):
        for n in range(top + 1 + (2 if big else 0)):
            yield f"dims-s{d}-{n}", "dims", dict(desc=f"s{d}", order=n)
    for desc, top in (("h2", 12), ("h3", 6), ("p", 7), ("q", 7), ("g", 4), ("h4", 3)):
        for n in range(top + 1):
            yield f"dims-{desc}-{n}", "dims", dict(desc=desc, order=n)
    for desc, os_ in (("h2", [[0, 3], [4, 1]]), ("h3", [[1, 0, 2], [3, 1, 2]]),
                      ("p", [[1, 3], [3, 0]]), ("q", [[2, 1], [0, 2]]), ("g", [[1, 2]])):
        for o in os_:
            yield f"dims-{desc}-{o}", "dims", dict(desc=desc, order=o)
    for way in WAYS:
        for desc, os_ in (("s1", (2, 5)), ("s2", (0, 2, 3)), ("s3", (1, 2)), ("h2", (2, 3, [1, 2], [3, 0])),
                          ("h3", (1, [0, 2, 1])), ("p", (1, 2, [1, 2], [2, 1])), ("q", (1, [2, 1])),
                          ("g", (1,))):
            for o in os_ + ((3,) if big and desc in ("s3", "p") else ()):
                yield f"copies-{way}-{desc}-{o}", "copies", dict(desc=desc, order=o, way=way)
        for desc, os_ in (("s1", (9, 17, 30)), ("s2", (9, 12)), ("s3", (7, 9)),
                          ("h2", (4, 7, 9, 12, [2, 9], [11, 3])), ("h3", (4, 6, [1, 9, 0])),
                          ("p", (4, 6, [1, 9], [8, 1])), ("q", (4, 5, [9, 2]))):
            for o in os_:
                yield f"high-{way}-{desc}-{o}", "copies_high", dict(
                    desc=desc, order=o, way=way)
        for desc in ("s1", "s2", "s3", "h2", "h3"):
            yield f"faces-{way}-{desc}", "copied_faces", dict(desc=desc, way=way)
            yield f"rule-{way}-{desc}", "copied_rule", dict(desc=desc, order=2, way=way)
        for d in (1, 2, 3):
            yield f"map-{way}-{d}", "copied_map", dict(d=d, way=way)
    for desc, nests in (("h2", [[2], [1, 1]]), ("h3", [[1, 2], [2, 1], [3], [1, 1, 1]]),
                        ("p", [[1, 1], [2]]), ("q", [[2]]), ("g", [[1, 1]])):
        for nest in nests:
            k = len(factors(desc))
            for orders in ([1] * k, [2, 1, 1][:k], [1, 2, 0][:k]):
                yield f"flat-{desc}-{nest}-{orders}", "flattened", dict(
                    desc=desc, nest=nest, orders=orders)
                if desc == "h3" and nest in ([1, 2], [2, 1]):
                    yield f"named-{desc}-{nest}-{orders}", "flattened", dict(
                        desc=desc, nest=nest, orders=orders, named=True)
    for d in range(4):
        for n in (0, 1, 3):
            yield f"single-{d}-{n}", "single", dict(d=d, n=n)
    yield "equality", "equality", {}
    yield "refused", "refused", {}
