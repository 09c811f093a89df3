"""Evaluation on arrays of points is evaluation point by point."""
import itertools

import numpy as np

import modepy as mp
from modepy.modes import TensorProductBasis, scaled_jacobi
from modepy.quadrature import transplanted

from .c06 import KIND
from .c21 import tcall
from .common import factors, make_shape, make_space, obj, point

BOUNDS = ("two arbitrary points of the closed element in arrays of zero to three point axes "
          "(empty arrays too), C-ordered, transposed and strided; orders up to 6 / 4 / 2 on "
          "the 1/2/3-simplex, 3 on the square, 1 on the cube, 2 on prisms and "
          "segment x triangle x segment (thorough 8 / 5 / 3, "
          "4, 2, 3); Jacobi polynomials up to degree 9 on any two reals; face maps of simplices and "
          "cubes up to dimension 3; the transplant maps; integer (8 and 64 bits) and single precision "
          "points for all combinations of functions of order up to 12 / 6 / 4, 5 / 3, 4")

# name -> (shape of the point axes, index of the point that goes there)
LAYOUTS = ["none", "one", "two", "same", "column", "three", "strided", "transposed", "empty"]


def lay(env, pts, layout):
    """Array with the given points (each a (dim,) array) in it, and where they are."""
    d = len(pts[0])
    a, b = pts
    if layout == "none":
        return a, {(): a}
    if layout == "empty":
        return obj(env, (d, 0)), {}
    shape, put = {
        "one": ((1,), {(0,): a}), "two": ((2,), {(0,): a, (1,): b}),
        "same": ((3,), {(0,): a, (1,): b, (2,): a}),
        "column": ((2, 1), {(0, 0): a, (1, 0): b}),
        "three": ((1, 2, 2), {(0, 0, 0): a, (0, 0, 1): b, (0, 1, 0): b, (0, 1, 1): a}),
        "strided": ((2,), {(0,): b, (1,): a}),
        "transposed": ((2, 2), {(0, 0): a, (0, 1): b, (1, 0): a, (1, 1): a})}[layout]
    if layout == "strided":
        x = obj(env, (2 * d, 5))
        x[...] = 0.25
        x = x[::2, 1:5:2]
    elif layout == "transposed":
        x = obj(env, (2, 2, d)).transpose(2, 1, 0)
    else:
        x = obj(env, (d, *shape))
    for ix, p in put.items():
        for k in range(d):
            x[(k, *ix)] = p[k]
    return x, put


def compare(env, res, put, shape, single, label):
    res = np.asarray(res, dtype=object if env.symbolic else None)
    env.true(res.shape == shape, label + " shape")
    for ix, p in put.items():
        env.eq(res[ix], single(p), 1e-12, label)


def basis(env, desc, order, kind, layout):
    space, shape = make_space(desc, order)
    b = KIND[kind](space, shape)
    pts = [point(env, desc, n)[0] for n in "uv"]
    x, put = lay(env, pts, layout)
    for k, f in enumerate(b.functions):
        compare(env, env.call(f, x), put, x.shape[1:], lambda p: env.call(f, p), f"function {k}")
    for k, g in enumerate(b.gradients):
        r = env.call(g, x)
        env.true(isinstance(r, tuple) and len(r) == len(x), f"gradient {k} length")
        for ax in range(len(x)):
            compare(env, r[ax], put, x.shape[1:], lambda p: env.call(g, p)[ax],
                    f"gradient {k} axis {ax}")
    for ax in range(len(x)):
        for k, f in enumerate(b.derivatives(ax)):
            compare(env, env.call(f, x), put, x.shape[1:], lambda p: env.call(f, p),
                    f"derivative {k} axis {ax}")


def number_types(env, desc, order, kind, dtype):
    """Points given as integers or in single precision are points like any other: every
    combination of the functions (and of their derivatives) is evaluated to what it is at
    the same points given in double precision."""
    space, shape = make_space(desc, order)
    if kind == "mixed":
        fs = [KIND[k](b, s) for k, b, s in zip(["onb", "mono"] * 2, space.bases, shape.bases)]
        b = TensorProductBasis(fs, dims_per_basis=tuple(s.dim for s in shape.bases))
    else:
        b = KIND[kind](space, shape)
    d = shape.dim
    if dtype.startswith("int"):
        x = np.array([t for t in itertools.product((-1, 0, 1), repeat=d)], int).T
        at = 0
        for k in factors(desc):
            x = x[:, x[at:at + k].sum(axis=0) <= 2 - k]
            at += k
        tol = 1e-11 if dtype == "int64" else 1e-4  # small integers go with single precision
    else:
        x = (np.array(mp.equispaced_nodes_for_space(space, shape)) + 1) * 0.8 - 0.95
        tol = 1e-4
    x = np.asarray(x).astype(dtype)
    x64 = x.astype(np.float64)
    npts = x.shape[1:]
    sets = [("value", [(f, None) for f in b.functions])]
    sets += [(f"derivative {a}", [(f, None) for f in b.derivatives(a)]) for a in range(d)]
    if d:
        sets += [(f"gradient {a}", [(g, a) for g in b.gradients]) for a in range(d)]
    for what, fs in sets:
        e = []
        for f, a in fs:
            got, ref = env.run(f, x), env.run(f, x64)
            if a is not None:
                got, ref = got[a], ref[a]
            env.true(np.shape(got) == np.shape(ref) == npts, f"{what} shape")
            e.append((np.asarray(got, np.float64) - ref) / max(1, np.max(np.abs(ref), initial=1)))
        env.lin(np.array(e).T, tol * len(fs), what)


def no_dimensions(env, kind, layout):
    """The one function on the point has one value, one, at every point of an array."""
    b = KIND[kind](mp.PN(0, 2), mp.Simplex(0))
    for shape in ((), (1,), (3,), (2, 3), (0,)):
        x = np.zeros((0, *shape))
        fs = b.functions
        env.true(len(fs) == 1, "one function")
        v = env.run(fs[0], x)
        env.true(np.shape(v) == shape and bool(np.all(np.asarray(v) == 1)),
                 f"one on points of shape {shape}")


def jacobis(env, n, a, b, layout):
    pts = [env.reals(k, 1, -3, 3) for k in "uv"]
    x, put = lay(env, pts, layout)
    x = x[0]
    for f in (mp.jacobi, mp.grad_jacobi, scaled_jacobi):
        compare(env, env.call(f, a, b, n, x), put, x.shape,
                lambda p: env.call(f, a, b, n, p[0]), f.__name__)


def faces(env, desc, layout):
    shape = make_shape(desc)
    d = shape.dim - 1
    pts = [env.reals(k, d, -1, 1) for k in "uv"]
    x, put = lay(env, pts, layout)
    for i, f in enumerate(mp.faces_for_shape(shape)):
        r = env.call(f.map_to_volume, x)
        env.true(np.shape(r) == (d + 1, *x.shape[1:]), f"face {i} shape")
        for ax in range(d + 1):
            compare(env, np.asarray(r)[ax], put, x.shape[1:],
                    lambda p: env.call(f.map_to_volume, p.reshape(d, 1))[ax, 0],
                    f"face {i} coordinate {ax}")


def maps(env, which, par, layout):
    fn = getattr(transplanted, f"map_{which}")
    pts = [env.reals(k, 1, -0.75, 0.75) for k in "uv"]
    x, put = lay(env, pts, layout)
    x = x[0]
    r = tcall(env, fn, x, **par)
    env.true(len(r) == 2, "two results")
    for i, what in enumerate(("map", "jacobian")):
        compare(env, r[i], put, x.shape, lambda p: tcall(env, fn, p, **par)[i][0], what)


def obligations(tier, seed):
    big = tier == "thorough"
    for kind in ("onb", "mono"):
        yield f"no-dimensions-{kind}", "no_dimensions", dict(kind=kind, layout="")
    for desc, n, m in [("s1", 12, 20), ("s2", 6, 10), ("s3", 4, 6), ("h2", 5, 8), ("h3", 3, 4),
                       ("p", 4, 6), ("q", 4, 6), ("g", 2, 3), ("w", 2, 2),
                       ("h2", [1, 6], [2, 9])]:
        for k in range((m if big else n) + 1) if isinstance(n, int) else [m if big else n]:
            for kind in ("onb", "mono") + (() if desc[0] == "s" else ("mixed",)):
                for dtype in ("int64", "float32") if k != 2 else ("int8", "int64", "float32"):
                    yield f"type-{dtype}-{kind}-{desc}-{k}", "number_types", dict(
                        desc=desc, order=k, kind=kind, dtype=dtype)
    for layout in LAYOUTS:
        for desc, n, m in [("s1", 6, 8), ("s2", 4, 5), ("s3", 2, 3), ("h2", 3, 4), ("h3", 1, 2),
                           ("p", 2, 3), ("q", 2, 2), ("h2", [2, 1], [1, 3])]:
            for kind in ("onb", "mono"):
                o = m if big else n
                yield f"basis-{kind}-{desc}-{o}-{layout}", "basis", dict(
                    desc=desc, order=o, kind=kind, layout=layout)
        for n in (0, 1, 2, 3, 4, 6, 9):
            for a, b in ((0, 0), (0.5, -0.25)):
                yield f"jacobi-{n}-{a}-{layout}", "jacobis", dict(n=n, a=a, b=b, layout=layout)
        for desc in ("s2", "s3", "h2", "h3"):
            if layout in ("one", "two", "same", "strided", "empty"):
                yield f"face-{desc}-{layout}", "faces", dict(desc=desc, layout=layout)
        for which, par in (("identity", {}), ("sausage", dict(degree=5)),
                           ("kosloff_tal_ezer", dict(alpha=0.5)),
                           ("strip", dict(rho=1.5))):
            if layout != "none" and (which, layout) != ("strip", "empty"):
                yield f"map-{which}-{layout}", "maps", dict(which=which, par=par, layout=layout)
