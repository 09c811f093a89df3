"""The monomial helper: values, derivatives, integrals."""
from fractions import Fraction
from itertools import product
from math import factorial, prod

import numpy as np

from modepy.tools import Monomial

from .common import Integrator

BOUNDS = ("every exponent up to 16 / 8 / 5 / 3 per axis in 1-4 dimensions (thorough 24 / 11 / 6 / 4), factor any real in "
          "[-4,4], every point of [-1,1]^d (and, as far as the values go, two at once); "
          "closed forms: exponents up to 40 / 20 / 9 / 4 / 3 / 2 / 1 in 1-7 dimensions")


def exact_simplex(e):
    return Fraction(2 ** len(e) * prod(factorial(k) for k in e), factorial(len(e) + sum(e)))


def exact_cube(e):
    return Fraction(1, prod(k + 1 for k in e))


def values(env, exps):
    d = len(exps[0])
    f = env.real("f", -4, 4)
    x = env.reals("x", d, -1, 1)
    y = env.reals("y", (d, 2), -1, 1)
    for e in exps:
        m = Monomial(list(e), f)
        ref = f
        for xi, k in zip(x, e):
            ref = ref * ((1 + xi) / 2) ** k
        env.eq(env.call(m, x), ref, 1e-12, f"{e} value")
        v = env.call(m, y)
        env.true(np.shape(v) == (2,), f"{e} shape")
        for p in range(2):
            env.eq(v[p], env.call(m, y[:, p]), 1e-12, f"{e} batch")
        one = Monomial(e)
        env.eq(env.call(one, x) * f, ref, 1e-12, f"{e} default factor")


def derivatives(env, exps):
    d = len(exps[0])
    f = env.real("f", -4, 4)
    x = env.reals("x", d, -1, 1)
    for e in exps:
        m = Monomial(e, f)
        for ax in range(d):
            g = env.call(m.diff, ax)
            ref = f * (e[ax] if e[ax] else 0)
            for i, (xi, k) in enumerate(zip(x, e)):
                k = k - (i == ax)
                if k > 0:
                    ref = ref * ((1 + xi) / 2) ** k
            env.eq(env.call(g, x), ref, 1e-12, f"{e} axis {ax}")
            if env.symbolic:
                dv = env.diff(env.exact(env.call(m, x)), x[ax])
                env.eq(2 * dv, env.call(g, x), 1e-12, f"{e} axis {ax}: derivative")
            env.true(tuple(m.exponents) == tuple(e), f"{e} unchanged")
        env.eq(env.call(m, x) * 1, env.call(Monomial(e, f), x), 0, f"{e} unchanged")


def integrals(env, exps):
    """Closed forms against the integral of the function __call__ computes."""
    d = len(exps[0])
    f = env.real("f", -4, 4)
    deg = max(sum(e) for e in exps)
    for shape, name in ((f"s{d}", "simplex_integral"),
                        (f"h{d}" if d > 1 else "s1", "hypercube_integral")):
        it = Integrator(env, shape, deg)
        one = it.table([lambda x: 1 + 0 * x[0]])
        ref = it.gram(it.table([Monomial(e) for e in exps]), one)[:, 0]
        for e, r in zip(exps, ref):
            if name == "hypercube_integral":
                r = r / 2 ** d
            env.eq(env.call(getattr(Monomial(e, f), name)), r * f, 1e-12, f"{e} {name}")


def closed(env, exps):
    f = env.real("f", -4, 4)
    for e in exps:
        m = Monomial(e, f)
        s, c = exact_simplex(e), exact_cube(e)
        if not env.symbolic:
            s, c = float(s), float(c)
        env.eq(env.call(m.simplex_integral), f * s, 1e-12, f"{e} simplex")
        env.eq(env.call(m.hypercube_integral), f * c, 1e-12, f"{e} hypercube")
        env.eq(env.call(Monomial(e).simplex_integral), s, 1e-12, f"{e} simplex, factor one")
        env.eq(env.call(Monomial(e).hypercube_integral), c, 1e-12, f"{e} cube, factor one")


def obligations(tier, seed):
    tops = {1: 16, 2: 8, 3: 5, 4: 3} if tier == "quick" else {1: 24, 2: 11, 3: 6, 4: 4}
    for d, top in tops.items():
        exps = [list(e) for e in product(range(top + 1), repeat=d)]
        for lo in range(0, len(exps), 40):
            part = exps[lo:lo + 40]
            yield f"values-{d}-{lo}", "values", dict(exps=part)
            yield f"derivatives-{d}-{lo}", "derivatives", dict(exps=part)
            if d <= 3:
                yield f"integrals-{d}-{lo}", "integrals", dict(exps=part)
    for d, top in ((0, 0), (1, 40), (2, 20), (3, 9), (4, 4), (5, 3), (6, 2), (7, 1)):
        exps = [list(e) for e in product(range(top + 1), repeat=d)]
        yield f"closed-{d}", "closed", dict(exps=exps)
