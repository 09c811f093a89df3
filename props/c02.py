"""Gauss and Gauss-Lobatto rules for Jacobi weights."""
import math

import numpy as np

import modepy as mp
from modepy.quadrature.jacobi_gauss import (jacobi_gauss_lobatto_nodes,
                                             legendre_gauss_lobatto_nodes)

from .common import functional, jacobi_mass, jacobi_ref
from .c01 import ref_vector

BOUNDS = ("N = 0, 1 (Gauss, Gegenbauer) and N = 1, 2 (Lobatto) for every real "
          "alpha, beta in [-0.4, 3], in [-0.95, -0.55], within 2e-6..0.1 of -1/2, "
          "and of mixed sign (away from alpha + beta = -1), integrand an arbitrary polynomial of the full exactness "
          "degree; every N up to 24 and some up to 100 (thorough: every N up to 64, some up to 128) on a grid of alpha, beta in (-1, 4], "
          "both back ends, arbitrary polynomial of the full degree")
ASSUMPTIONS = ["the eigen-decomposition of 1x1 and 2x2 symmetric matrices is the closed form"]


def moments(env, a, b, n):
    """Moments of (1-x)^a (1+x)^b against ((1+x)/2)^k, relative to the zeroth."""
    out = [1 + 0 * a]
    for k in range(n):
        out.append(out[-1] * (b + 1 + k) / (a + b + 2 + k))
    return out


def mass(a, b):
    return 2 ** (a + b + 1) * math.gamma(a + 1) * math.gamma(b + 1) / math.gamma(a + b + 2)


def exponents(env, lo, hi, beta, equal, canonical):
    if canonical:
        env.canonical_sqrt()
    a = env.real("alpha", lo, hi)
    return (a, a) if equal else (a, env.real("beta", *(beta or (lo, hi))))


def symbolic(env, kind, n, lo, hi, beta=None):
    a, b = exponents(env, lo, hi, beta, kind == "gegenbauer", kind != "gauss")
    if kind == "gauss":
        q = env.call(mp.JacobiGaussQuadrature, a, b, n, force_dim_axis=True)
        deg = 2 * n + 1
    elif kind == "gegenbauer":
        q = env.call(mp.GaussGegenbauerQuadrature, a, n, force_dim_axis=True)
        deg = 2 * n + 1
    else:
        q = env.call(mp.JacobiGaussLobattoQuadrature, a, b, n, force_dim_axis=True)
        deg = 2 * n - 1
        env.eq(q.nodes[0, 0], -1, 1e-14, "left end")
        env.eq(q.nodes[0, -1], 1, 1e-14, "right end")
    env.true(q.exact_to >= deg, "exact_to")
    m = moments(env, a, b, deg)
    g = env.call(mass, a, b)
    for k in range(deg + 1):
        r = env.call(q, lambda x: ((1 + x[0]) / 2) ** k)
        env.eq(r, m[k] * g, 1e-8, f"degree {k}")


RULES = {
    "gauss": (lambda a, b, n, be, f: mp.JacobiGaussQuadrature(a, b, n, be, f),
              lambda n: 2 * n + 1),
    "lobatto": (lambda a, b, n, be, f: mp.JacobiGaussLobattoQuadrature(
        a, b, n, backend=be, force_dim_axis=f), lambda n: 2 * n - 1),
    "gegenbauer": (lambda a, b, n, be, f: mp.GaussGegenbauerQuadrature(a, n, be, f),
                   lambda n: 2 * n + 1),
    "cheb": (lambda a, b, n, be, f: mp.ChebyshevGaussQuadrature(
        n, 1 if a < 0 else 2, be, f), lambda n: 2 * n + 1),
}


def grid(env, rule, a, b, orders, backend):
    make, degree = RULES[rule]
    for n in orders:
        for force in (True, False):
            q = make(a, b, n, backend, force)
            lab = f"{rule}({a},{b}) N={n} {backend} force_dim_axis={force}"
            env.true(np.shape(q.nodes) == ((1, n + 1) if force else (n + 1,))
                     and np.shape(q.weights) == (n + 1,), lab + " shapes")
            env.true(q.exact_to >= degree(n), lab + " exact_to")
            deg = q.exact_to
            x = np.asarray(q.nodes).reshape(-1)
            env.true(np.all(np.abs(x) <= 1) and np.all(np.asarray(q.weights) > 0),
                     lab + " nodes inside, positive weights")
            if rule == "lobatto":
                env.true(x.min() == -1 and x.max() == 1, lab + " end points")
            mu = jacobi_mass(a, b)
            functional(env, q, lambda y: jacobi_ref(a, b, deg, y.reshape(-1)),
                       ref_vector(deg + 1, mu), 1e-9 * mu * max(1, n / 5), lab, nx=n + 1)


def lobatto_nodes(env, a, b, orders):
    """The node function and the rule agree (both spellings of the argument)."""
    for n in orders:
        x = jacobi_gauss_lobatto_nodes(a, b, n, force_dim_axis=True)
        y = jacobi_gauss_lobatto_nodes(a, b, n)
        q = mp.JacobiGaussLobattoQuadrature(a, b, n, force_dim_axis=True)
        env.true(x.shape == (1, n + 1) and y.shape == (n + 1,), f"shapes {n}")
        # extremality: the nodal polynomial is orthogonal to degree n-2 for weight
        g = mp.JacobiGaussQuadrature(a + 1, b + 1, n, "scipy", True)
        deg = n - 2

        def nodal(c, t):
            r = 1.0
            for xi in x[0, 1:-1]:
                r = r * (t[0] - xi) * 2
            return r * (c @ jacobi_ref(a + 1, b + 1, deg, t[0]))
        if deg >= 0:
            c = env.reals("c", deg + 1, -1, 1)
            env.eq(env.call(g, lambda t: nodal(c, t)), 0, 1e-9, f"orthogonality {n}")
        env.eq(np.asarray(q.nodes), x, 1e-13, f"rule nodes {n}")
        env.eq(y, x[0], 0, f"flat {n}")
        env.eq(x[0, [0, -1]], [-1, 1], 1e-15, f"end points {n}")
        if a == b == 0:
            for backend in (None, "builtin", "scipy"):
                for f in (legendre_gauss_lobatto_nodes,
                          lambda *r, **k: jacobi_gauss_lobatto_nodes(0, 0, *r, **k)):
                    z = f(n, backend=backend)
                    env.true(z.shape == (n + 1,), f"Legendre shape {n}")
                    env.eq(z, x[0], 1e-13, f"Legendre {n} {backend}")
                    z = f(n, backend=backend, force_dim_axis=True)
                    env.true(z.shape == (1, n + 1), f"Legendre shape {n}")
                    env.eq(z[0], x[0], 1e-13, f"Legendre {n} {backend}")


AB = [(0.0, 0.0), (-0.5, 0.5), (0.5, -0.5), (-0.5, -0.5), (0.5, 0.5), (1.0, 0.0),
      (0.0, 1.0), (2.0, 3.0), (3.0, 0.5), (-0.9, 0.3), (1.5, -0.75), (0.25, 2.0),
      (-0.3, -0.2), (-0.8, -0.7), (4.0, 4.0), (0.0, -0.6)]


def obligations(tier, seed):
    eps = 2**-20
    for lo, hi in [(-0.4, 3.0), (-0.95, -0.55), (-0.5 + eps, -0.4), (-0.55, -0.5 - eps)]:
        for kind, ns in [("gauss", (0, 1)), ("gegenbauer", (0, 1)), ("lobatto", (1, 2))]:
            for n in ns:
                yield f"symbolic-{kind}-{n}-{lo}", "symbolic", dict(kind=kind, n=n, lo=lo, hi=hi)
    for lo, hi, blo, bhi in [(-0.6, -0.4, -0.39, 0.5), (-0.95, -0.4, 0.0, 3.0),
                             (0.0, 3.0, -0.95, -0.4)]:
        for kind, ns in [("gauss", (0, 1)), ("lobatto", (1, 2))]:
            for n in ns:
                yield f"symbolic-{kind}-{n}-{lo}-{blo}", "symbolic", dict(
                    kind=kind, n=n, lo=lo, hi=hi, beta=[blo, bhi])
    orders = [*range(0, 25), 31, 32, 33, 40, 49, 64, 81, 100] if tier == "quick" else [*range(65), 81, 100, 127, 128]
    lorders = [max(1, n) for n in orders if n]
    for a, b in AB:
        sing = abs(a + b + 1) < 1e-14 and not a == b == -0.5
        if not sing:
            yield f"gauss-{a}-{b}", "grid", dict(rule="gauss", a=a, b=b, orders=orders, backend=None)
        yield f"gauss-scipy-{a}-{b}", "grid", dict(rule="gauss", a=a, b=b, orders=orders, backend="scipy")
        yield f"lobatto-{a}-{b}", "grid", dict(rule="lobatto", a=a, b=b, orders=lorders, backend=None)
        if b != 0:
            yield f"lobatto-scipy-{a}-{b}", "grid", dict(rule="lobatto", a=a, b=b, orders=lorders, backend="scipy")
        yield f"lobatto-nodes-{a}-{b}", "lobatto_nodes", dict(a=a, b=b, orders=[*range(1, 25), 30, 37, 50, 64, 100])
    for a in (-0.5, 0.0, 0.5, 1.5, -0.25, 3.0):
        yield f"gegenbauer-{a}", "grid", dict(rule="gegenbauer", a=a, b=a, orders=orders, backend=None)
    for a in (-0.5, 0.5):
        for be in ("builtin", "scipy"):
            yield f"cheb-{a}-{be}", "grid", dict(rule="cheb", a=a, b=a, orders=orders, backend=be)
