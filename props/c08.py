"""symbolicize_function: the expression means the function."""
import numpy as np
from pymbolic.mapper.evaluator import EvaluationMapper

import modepy as mp
from modepy.modes import jacobi, grad_jacobi, scaled_jacobi

from .c06 import KIND, count
from .common import make_space, point, obj

BOUNDS = ("every point of the closed element; orders up to 12 / 7 / 4 on the 1/2/3-simplex "
          "(thorough 16 / 9 / 5), 5 / 3 on square / cube, 3 on prisms (thorough 7 / 4, 4); all modes, values "
          "and gradients")


def evaluate(expr, x, name):
    return EvaluationMapper({name: x, "abs": abs})(expr)


def agree(env, desc, order, kind, lo, hi, name="r"):
    space, shape = make_space(desc, order)
    basis = KIND[kind](space, shape)
    x, _ = point(env, desc)
    d = shape.dim
    kw = {} if name == "r" else {"ref_coord_var_name": name}
    for k, (f, g) in list(enumerate(zip(basis.functions, basis.gradients)))[lo:hi]:
        e = mp.symbolicize_function(f, d, **kw)
        env.true(not isinstance(e, tuple), f"scalar {k}")
        env.eq(env.call(evaluate, e, x, name), env.call(f, x), 1e-10, f"value {k}")
        eg = mp.symbolicize_function(g, d, **kw)
        gv = env.call(g, x)
        env.true(isinstance(eg, tuple) and len(eg) == len(gv) == d, f"tuple {k}")
        for ax in range(d):
            env.eq(env.call(evaluate, eg[ax], x, name), gv[ax], 1e-10,
                   f"gradient {k} axis {ax}")


def one_d(env, n, a, b):
    """Jacobi polynomials on expressions."""
    import pymbolic.primitives as p
    x = env.real("x", -1, 1)
    for fn in (jacobi, grad_jacobi):
        e = fn(a, b, n, p.Variable("x"))
        env.eq(env.call(evaluate, e, x, "x"), env.call(fn, a, b, n, x), 1e-9, fn.__name__)


def obligations(tier, seed):
    big = tier == "thorough"
    for kind in ("onb", "mono"):
        for desc, n, m in [("s1", 12, 16), ("s2", 7, 9), ("s3", 4, 5), ("h2", 5, 7),
                           ("h3", 3, 4), ("p", 3, 4), ("q", 3, 4), ("h2", [1, 3], None),
                           ("p", [1, 3], None), ("q", [3, 1], None), ("h3", [1, 0, 2], None)]:
            n = m if big and m else n
            k = count(desc, n)
            step = 7 if desc == "s3" and kind == "onb" else 20
            for lo in range(0, k, step):
                yield f"{kind}-{desc}-{n}-{lo}", "agree", dict(
                    desc=desc, order=n, kind=kind, lo=lo, hi=lo + step)
    for name in ("q", "xyz", "ref_point"):
        for kind in ("onb", "mono"):
            for desc, n in [("s1", 3), ("s2", 2), ("s3", 1), ("h2", 1), ("p", 1), ("q", 1)]:
                yield f"name-{name}-{kind}-{desc}", "agree", dict(
                    desc=desc, order=n, kind=kind, lo=0, hi=8, name=name)
    for n in range(14 if big else 10):
        for a, b in [(0, 0), (1, 0), (0.5, -0.5), (2.0, 3.0)]:
            yield f"jacobi-{n}-{a}-{b}", "one_d", dict(n=n, a=a, b=b)
