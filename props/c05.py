"""Jacobi polynomials: orthonormality, derivative, scaled normalisation."""
import math

import numpy as np

from modepy.modes import grad_jacobi, jacobi, scaled_jacobi

BOUNDS = ("degrees 0-6 (thorough 0-9) for every real alpha, beta in [-0.4, 3] and in "
          "[-0.95, -0.55]; the line alpha + beta = -1 with alpha in [-0.95, -0.05], and its "
          "neighbourhood, alpha + beta + 1 from 1e-6 to 1/2 on either side; fixed "
          "alpha, beta pairs up to degree 15 (thorough 20, derivatives 13), for every x (polynomial identities in x); "
          "all combinations of degrees up to 40 (thorough 60) and some up to 150 for 22 exponent pairs")


def mass(a, b):
    return 2 ** (a + b + 1) * math.gamma(a + 1) * math.gamma(b + 1) / math.gamma(a + b + 2)


def exponents(env, region):
    if isinstance(region, str) or not isinstance(region[0], str):
        env.canonical_sqrt()
    if region == "line":
        a = env.real("alpha", -0.95, -0.05)
        return a, -1 - a
    if region in ("above", "below"):
        a = env.real("alpha", -0.9, -0.1)
        b = env.real("beta", -0.95, 0.5)
        t = a + b + 1 if region == "above" else -1 - a - b
        env.assume(t >= 1e-6)
        env.assume(t <= 0.5)
        return a, b
    if isinstance(region[0], str):
        return float(region[1]), float(region[2])
    lo, hi = region
    return env.real("alpha", lo, hi), env.real("beta", lo, hi)


def moments(a, b, n):
    out = [1 + 0 * a]
    for k in range(n):
        out.append(out[-1] * (b + 1 + k) / (a + b + 2 + k))
    return out


def weighted_integral(env, f, deg, a, b):
    if env.symbolic:
        y = env.real("y")
        m = moments(a, b, deg)
        cs = env.coeffs(f(2 * y - 1), y)
        return sum(c * mk for c, mk in zip(cs, m)) * env.call(mass, a, b)
    from scipy.special import roots_jacobi
    x, w = roots_jacobi(deg // 2 + 2, a, b)
    return w @ (f(x) * np.ones_like(x))


def gram(env, region, pairs):
    a, b = exponents(env, region)
    for m, n in pairs:
        r = weighted_integral(
            env, lambda x: env.call(jacobi, a, b, m, x) * env.call(jacobi, a, b, n, x),
            m + n, a, b)
        env.eq(r, int(m == n), 1e-8, f"<P{m},P{n}>")


def deriv_ref(f, n, x):
    from numpy.polynomial import chebyshev as C     # noqa: N812
    t = np.cos(np.pi * (np.arange(2 * n + 3) + 0.5) / (2 * n + 3))
    c = C.chebfit(t, f(t) * np.ones_like(t), n + 1)
    return C.chebval(x, C.chebder(c))


def agree(env, g, d, label):
    env.eq(g, d, 1e-7 if env.symbolic else 1e-6 * max(1, abs(d)), label)


def derivative(env, region, ns):
    a, b = exponents(env, region)
    x = env.real("x", -1, 1)
    for n in ns:
        g = env.call(grad_jacobi, a, b, n, x)
        if env.symbolic:
            d = env.diff(env.call(jacobi, a, b, n, x), x)
        else:
            d = deriv_ref(lambda t: jacobi(a, b, n, t), n, x)
        agree(env, g, d, f"P{n}'")


def derivative_fixed(env, a, b, ns):
    """Fixed exponents, high degree: exact polynomial identity in x."""
    x = env.real("x", -1, 1)
    for n in ns:
        g = env.call(grad_jacobi, a, b, n, x)
        if env.symbolic:
            d = env.diff(env.call(jacobi, a, b, n, x), x)
        else:
            d = deriv_ref(lambda t: jacobi(a, b, n, t), n, x)
        scale = max(1.0, n ** 2.0 * (n + 2.0) ** (max(a, b, 0) + 1))
        env.eq(g, d, 1e-8 * scale if env.symbolic else 1e-6 * scale, f"P{n}'")


def scaled(env, region, ns):
    """scaled_jacobi is jacobi up to a constant, with the classical end values."""
    a, b = exponents(env, region)
    x = env.real("x", -1, 1)
    one = env.real("one", 1, 1)
    for n in ns:
        hi = lo = 1
        for i in range(1, n + 1):
            hi = hi * (a + i) / i
            lo = -lo * (b + i) / i
        for pt, v, lab in ((one, hi, "at 1"), (-one, lo, "at -1")):
            s = env.call(scaled_jacobi, a, b, n, pt)
            env.eq(s, v, 1e-7 if env.symbolic else 1e-7 * max(1, abs(v)), f"{n} {lab}")
        p = env.call(scaled_jacobi, a, b, n, x) * env.call(jacobi, a, b, n, one)
        q = env.call(jacobi, a, b, n, x) * env.call(scaled_jacobi, a, b, n, one)
        agree(env, p, q, f"{n} proportional")


def gram_fixed(env, a, b, n):
    """All pairs up to degree n at once: a polynomial sum c_i P_i has weighted inner
    product c_j with P_j (through the exact moments)."""
    c = env.reals("c", n + 1, -1, 1)
    if env.symbolic:
        y = env.real("y")
        ps = [env.coeffs(env.call(jacobi, a, b, k, 2 * y - 1), y) for k in range(n + 1)]
        m = moments(env.exact(a), env.exact(b), 2 * n)
        mu = mass(a, b)
        g = [[sum(ps[i][r] * ps[j][s] * m[r + s] for r in range(i + 1)
                  for s in range(j + 1)) * mu for i in range(n + 1)] for j in range(n + 1)]
    else:
        from scipy.special import roots_jacobi
        x, w = roots_jacobi(n + 2, a, b)
        v = np.array([jacobi(a, b, k, x) * np.ones_like(x) for k in range(n + 1)])
        g = v @ np.diag(w) @ v.T
    for j in range(n + 1):
        env.eq(sum(c[i] * g[j][i] for i in range(n + 1)), c[j], 1e-8, f"<f,P{j}>")


def high(env, a, b, n, ks=None):
    """Fixed exponents, degrees *ks* (all up to n): orthonormality and derivatives of every
    combination, through expansions in Legendre polynomials."""
    from numpy.polynomial import legendre as L      # noqa: N812
    from scipy.special import eval_jacobi, roots_jacobi
    ks = list(range(n + 1)) if ks is None else ks
    x, w = roots_jacobi(n + 2, a, b)
    v = np.array([env.run(jacobi, a, b, k, x) * np.ones_like(x) for k in ks])
    env.lin((v * w) @ v.T - np.eye(len(ks)), 1e-7, "orthonormal")
    x, w = L.leggauss(n + 2)
    o = L.legvander(x, n)
    pr = (w[:, None] * o) * (np.arange(n + 1) + 0.5)
    v = np.array([env.run(jacobi, a, b, k, x) * np.ones_like(x) for k in ks])
    g = np.array([env.run(grad_jacobi, a, b, k, x) * np.ones_like(x) for k in ks])
    c = v @ pr
    size = np.abs(v).max() * (n + 1.0) ** 2
    env.lin((v - c @ o.T).T / size, 1e-9, "polynomials of the degree")
    for i, k in enumerate(ks):
        env.eq(c[i, k + 1:] / size, np.zeros(n - k), 1e-11, f"degree of P{k}")
    d = np.zeros_like(c)
    if n:
        d[:, :-1] = L.legder(c.T).T
    env.lin((g @ pr - d).T / size, 1e-9 * (n + 1), "derivatives")
    x = np.append(x, [-1.0, 1.0])
    for k in ks:
        s = env.run(scaled_jacobi, a, b, k, x) * np.ones_like(x)
        r = eval_jacobi(k, a, b, x)
        env.eq(s / np.abs(r).max(), r / np.abs(r).max(), 1e-9, f"classical P{k}")


PAIRS = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (2.0, 2.0), (0.5, -0.5), (-0.5, -0.5),
         (-0.5, 0.5), (3.0, 1.0), (7.0, 0.0), (-0.75, -0.25), (0.25, 1.5)]


def obligations(tier, seed):
    big = tier == "thorough"
    top = 9 if big else 6
    regions = {"pos": [-0.4, 3.0], "neg": [-0.95, -0.55], "line": "line",
               "above": "above", "below": "below"}
    for rn, r in regions.items():
        for n in range(top + 1):
            yield f"gram-{rn}-{n}", "gram", dict(region=r, pairs=[(m, n) for m in range(n + 1)])
            yield f"derivative-{rn}-{n}", "derivative", dict(region=r, ns=[n])
            if n <= (8 if big else 4):
                yield f"scaled-{rn}-{n}", "scaled", dict(region=r, ns=[n])
    m = 60 if big else 40
    for a, b in [*PAIRS, (2.0, 0.0), (3.0, 0.0), (5.0, 0.0), (9.0, 0.0), (15.0, 0.0), (0.0, 4.0),
                 (1.0, 1.0), (4.0, 2.5), (-0.9, -0.9), (-0.9, 0.9), (0.3, -0.7)]:
        yield f"high-{a}-{b}", "high", dict(a=a, b=b, n=m)
        yield f"far-{a}-{b}", "high", dict(a=a, b=b, n=150, ks=[
            0, 1, 3, *range(50, 53), *range(63, 66), 80, 97, 98, 99, 100, 101, 127, 128, 150])
    n = 20 if big else 15
    for a, b in PAIRS:
        yield f"gram-{a}-{b}", "gram_fixed", dict(a=a, b=b, n=n)
        for lo in range(0, min(n, 13) + 1, 7):
            yield f"derivative-{a}-{b}-{lo}", "derivative_fixed", dict(
                a=a, b=b, ns=list(range(lo, min(lo + 7, n + 1, 14))))
        yield f"scaled-{a}-{b}", "scaled", dict(region=["fix", a, b], ns=[0, 1, 2, 3, 5, 8])
