"""Gradients and derivatives are the true derivatives on the closed element."""
import numpy as np

import modepy as mp

from .c06 import KIND, count
from .common import FittedPoly, free_point, gauss_points, make_space, ortho_basis, point, vec

BOUNDS = ("every point of the closed element (singular vertices and edges included); "
          "orders up to 8 / 6 / 4 on the 1/2/3-simplex, 4 / 2 on the square / cube, 3 on "
          "prisms (thorough 12 / 8 / 4 / 6 / 3 / 4), mixed orders on products; all modes; as "
          "polynomials in the interior: every order up to 24 / 12 / 7, 8 / 4, 5, tetrahedron x segment 3, segment x "
          "triangle x segment and 4-cube 2 (thorough 40 / 18 / 10, 12 / 6, 7, 4), and a few single orders above: 45, 60 / "
          "21, 30 / 12, 14, 15, 20 / 8, 9, 5")


def grad(env, desc, order, kind, lo, hi):
    space, shape = make_space(desc, order)
    basis = KIND[kind](space, shape)
    d = shape.dim
    tol = 1e-6 if desc != "s3" or order < 5 else 1e-3
    fs, gs = basis.functions[lo:hi], basis.gradients[lo:hi]
    ds = [basis.derivatives(ax)[lo:hi] for ax in range(d)]
    env.true(len(basis.functions) == len(basis.gradients)
             == len(basis.derivatives(d - 1)), "counts")
    x, _ = point(env, desc)
    if env.symbolic:
        xg, at = free_point(env, desc)
    for k, (f, g) in enumerate(zip(fs, gs)):
        if env.symbolic:
            val = env.generic(f, [vec(env, xg)], at)
            refs = [env.subs(env.diff(val, xg[ax]), list(zip(xg, x)))
                    for ax in range(d)]
        else:
            p = FittedPoly(f, desc, order)
            refs = [p(x, ax) for ax in range(d)]
        gv = env.call(g, x)
        env.true(isinstance(gv, tuple) and len(gv) == d, f"tuple {lo+k}")
        for ax in range(d):
            dv = env.call(ds[ax][k], x)
            env.eq(gv[ax], refs[ax], tol, f"grad {lo+k} axis {ax}")
            env.eq(dv, refs[ax], tol, f"derivative {lo+k} axis {ax}")


ALL = {"s1": (24, 40), "s2": (12, 18), "s3": (7, 10), "h2": (8, 12), "h3": (4, 6),
       "p": (5, 7), "q": (5, 7), "g": (3, 4), "w": (2, 3), "h4": (2, 2)}

HIGH = {"s1": (45, 60), "s2": (21, 30), "s3": (12, 14), "h2": (15, 20), "h3": (8,),
        "p": (9,), "q": (9,), "g": (5,)}


def all_orders(env, desc, order, kind):
    """Every combination of the basis functions of the space, differentiated exactly (as
    the polynomial it is), has the gradients' combination as its gradient: compared as
    polynomials, through their expansions in orthogonal polynomials."""
    space, shape = make_space(desc, order)
    basis = KIND[kind](space, shape)
    d, n = shape.dim, max(order) if isinstance(order, list) else order
    x, w = gauss_points(desc, n)
    o = ortho_basis(desc, order, x)
    nrm = (o * o) @ w
    pr = (w * o / nrm[:, None]).T
    do = [np.imag(ortho_basis(desc, order, x + 1e-100j * np.eye(d)[:, a:a + 1])) / 1e-100
          for a in range(d)]
    v = np.array([np.broadcast_to(env.run(f, x), x.shape[1:]) for f in basis.functions])
    g = [env.run(f, x) for f in basis.gradients]
    tol = 1e-9 * (n + 1) ** 4
    for a in range(d):
        ga = np.array([np.broadcast_to(t[a], x.shape[1:]) for t in g])
        e = (ga - (v @ pr) @ do[a]) @ pr
        env.lin(e.T, tol, f"gradient, axis {a}")
        dv = np.array([np.broadcast_to(env.run(f, x), x.shape[1:])
                       for f in basis.derivatives(a)])
        env.lin(((dv - ga) @ pr).T, tol, f"derivative, axis {a}")


def obligations(tier, seed):
    big = tier == "thorough"
    for kind in ("onb", "mono"):
        for desc, n, m in [("s1", 8, 12), ("s2", 6, 8), ("s3", 4, 4), ("h2", 4, 6),
                           ("h3", 2, 3), ("p", 3, 4), ("q", 2, 3), ("h2", [1, 3], None),
                           ("p", [3, 1], None), ("q", [2, 1], None), ("h3", [0, 2, 1], None)]:
            n = m if big and m else n
            k = count(desc, n)
            step = 5 if desc == "s3" and kind == "onb" else 20
            for lo in range(0, k, step):
                yield f"{kind}-{desc}-{n}-{lo}", "grad", dict(
                    desc=desc, order=n, kind=kind, lo=lo, hi=lo + step)
    for desc, (n, m) in ALL.items():
        for k in range((m if big else n) + 1):
            for kind in ("onb", "mono"):
                if kind == "onb" or k <= 12:
                    yield f"all-{kind}-{desc}-{k}", "all_orders", dict(
                        desc=desc, order=k, kind=kind)
    for desc, ks in HIGH.items():
        for k in ks:
            yield f"all-onb-{desc}-{k}", "all_orders", dict(desc=desc, order=k, kind="onb")
    for desc, k in [("h2", [1, 6]), ("h2", [5, 2]), ("h3", [3, 1, 2]), ("p", [2, 5]),
                    ("p", [6, 1]), ("q", [1, 5]), ("q", [5, 2]), ("g", [2, 4]), ("g", [4, 1]),
                    ("w", [1, 2, 3]), ("w", [3, 1, 0]),
                    ("h4", [1, 2, 0, 3])]:
        for kind in ("onb", "mono"):
            yield f"all-{kind}-{desc}-{k}", "all_orders", dict(desc=desc, order=k, kind=kind)
    yield "default-s2", "grad", dict(desc="s2", order=2, kind="basis", lo=0, hi=6)
    yield "default-p", "grad", dict(desc="p", order=1, kind="basis", lo=0, hi=6)
