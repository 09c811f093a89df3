"""Shared pieces of the harness bodies."""
from fractions import Fraction

import numpy as np

import modepy as mp


def make_shape(desc):
    """'s0','s1','s2','s3' simplices; 'h0'..'h3' hypercubes; 'p' = triangle x segment,
    'q' = segment x triangle; 'g' = tetrahedron x segment;
    'w' = segment x triangle x segment."""
    k, d = desc[0], int(desc[1:] or 0)
    if k == "s":
        return mp.Simplex(d)
    if k == "h":
        return mp.Hypercube(d)
    if k == "p":
        return mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))
    if k == "q":
        return mp.TensorProductShape((mp.Simplex(1), mp.Simplex(2)))
    if k == "g":
        return mp.TensorProductShape((mp.Simplex(3), mp.Simplex(1)))
    if k == "w":
        return mp.TensorProductShape((mp.Simplex(1), mp.Simplex(2), mp.Simplex(1)))
    raise ValueError(desc)


def make_space(desc, order):
    shape = make_shape(desc)
    if isinstance(order, list):
        order = tuple(order)
    return mp.space_for_shape(shape, order), shape


def factors(desc):
    """Dimensions of the simplicial factors, in axis order."""
    k, d = desc[0], int(desc[1:] or 0)
    if k == "s":
        return [d]
    if k == "h":
        return [1] * d
    return {"p": [2, 1], "q": [1, 2], "g": [3, 1], "w": [1, 2, 1]}[k]


def duffy(vs):
    """Collapsed coordinates in [0,1]^d -> closed bi-unit simplex; every point of the
    closed simplex is hit, vs -> 0 approaches the singular vertices/edges."""
    d = len(vs)
    if d == 0:
        return []
    if d == 1:
        return [2 * vs[0] - 1]
    if d == 2:
        a, b = vs
        return [2 * a * b - 1, 1 - 2 * b]
    if d == 3:
        a, b, c = vs
        return [2 * a * b * c - 1, 2 * (1 - b) * c - 1, 1 - 2 * c]
    raise ValueError(d)


def point(env, desc, name="u"):
    """An arbitrary point of the closed reference element, as shape (dim,) array;
    also returns the parameters in [0,1]."""
    coords, params = [], []
    for k, d in enumerate(factors(desc)):
        vs = [env.real(f"{name}{k}_{i}", 0, 1) for i in range(d)]
        params += vs
        coords += duffy(vs)
    return vec(env, coords), params


def vec(env, xs):
    out = np.empty(len(xs), dtype=object if env.symbolic else np.float64)
    for i, x in enumerate(xs):
        out[i] = x
    return out


def obj(env, shape):
    return np.empty(shape, dtype=object if env.symbolic else np.float64)


# {{{ oracles

GENERIC01 = [Fraction(23, 64), Fraction(37, 64), Fraction(29, 64), Fraction(41, 64)]


def generic_params(n):
    return [GENERIC01[i % 4] + Fraction(i, 97) for i in range(n)]


def free_point(env, desc, name="x"):
    """Unconstrained symbolic coordinates plus a generic interior point for branches."""
    nd = sum(factors(desc))
    xg = [env.real(f"{name}{i}") for i in range(nd)]
    at, k = [], 0
    gp = generic_params(nd)
    for d in factors(desc):
        at += duffy(gp[k:k + d])
        k += d
    return xg, list(zip(xg, at))


def random_params_points(desc, n, seed=5):
    """Concrete interior points of the element, shape (dim, n)."""
    rng = np.random.default_rng(seed)
    cols = []
    for d in factors(desc):
        u = 0.1 + 0.8 * rng.random((d, n))
        # uniform-ish: collapse with a power so that points spread
        if d == 2:
            u[1] = np.sqrt(u[1])
        if d == 3:
            u[1] = np.sqrt(u[1])
            u[2] = u[2] ** (1 / 3)
        cols += list(duffy(list(u)))
    return np.array(cols)


class FittedPoly:
    """Polynomial recovered from values of a concrete function on the element (the
    function is assumed polynomial of per-factor total degree <= degree)."""

    def __init__(self, f, desc, degree):
        from numpy.polynomial import legendre
        from itertools import product
        self.L = legendre
        fac = factors(desc)
        self.d = sum(fac)
        rngs = []
        deg = degree if isinstance(degree, (list, tuple)) else [degree] * len(fac)
        for d, n in zip(fac, deg):
            rngs.append([m for m in product(range(n + 1), repeat=d) if sum(m) <= n])
        self.modes = [sum(t, ()) for t in product(*rngs)]
        pts = random_params_points(desc, 4 * len(self.modes) + 10)
        v = np.asarray(f(pts), dtype=float)
        if v.shape != (pts.shape[1],):
            raise AssertionError(f"function value has shape {v.shape}")
        a = np.array([self.mode(m, pts) for m in self.modes]).T
        self.c, *_ = np.linalg.lstsq(a, v, rcond=None)
        self.resid = float(np.max(np.abs(a @ self.c - v)))

    def mode(self, m, x, ax=None):
        r = 1.0
        for i, n in enumerate(m):
            c = np.zeros(n + 1)
            c[n] = 1
            if i == ax:
                c = self.L.legder(c)
            r = r * self.L.legval(np.asarray(x[i], dtype=float), c)
        return r

    def __call__(self, x, ax=None):
        return sum(c * self.mode(m, x, ax) for c, m in zip(self.c, self.modes))

# }}}


# {{{ orthogonal polynomials, written independently of modepy (concrete arguments)

def legendre_all(n, x):
    x = np.asarray(x, dtype=float)
    ps = [np.ones_like(x), x]
    for k in range(1, n):
        ps.append(((2 * k + 1) * x * ps[-1] - k * ps[-2]) / (k + 1))
    return ps[:n + 1]


def _hjacobi(n, a, u, v):
    """v^k P_k^{(a,0)}(u/v), k = 0..n"""
    ps = [np.ones_like(u)]
    if n >= 1:
        ps.append(((a + 2) * u + a * v) / 2)
    for k in range(1, n):
        c = 2 * k + a
        d = 2 * (k + 1) * (k + a + 1) * c
        ps.append(((c + 1) * ((c + 2) * c * u + a * a * v) * ps[-1]
                   - 2 * (k + a) * k * (c + 2) * v * v * ps[-2]) / d)
    return ps


def total_degree_modes(d, n):
    from itertools import product
    return [m for m in product(range(n + 1), repeat=d) if sum(m) <= n]


def _inexact(x):
    x = np.asarray(x)
    return x if x.dtype.kind == "c" else x.astype(float)


def ortho_simplex(d, n, x):
    """L2-orthogonal basis of P_n on the bi-unit simplex, shape (K, npts), constant
    first and equal to one; every other function integrates to zero."""
    x = _inexact(x)
    if d == 0:
        return np.ones((1, x.shape[-1]))
    lam = [(1 + xi) / 2 for xi in x]
    lam = [1 - sum(lam), *lam]
    out = []
    cache = {}
    S = np.cumsum(lam, axis=0)      # noqa: N806
    for m in sorted(total_degree_modes(d, n), key=sum):
        r = 1.0
        s = 0
        for k in range(1, d + 1):
            a = 2 * s + k - 1
            if (k, a) not in cache:
                cache[k, a] = _hjacobi(n, a, lam[k] - S[k - 1], S[k])
            r = r * cache[k, a][m[k - 1]] * np.sqrt((2 * m[k - 1] + a + 1) / k)
            s += m[k - 1]
        out.append(np.broadcast_to(r, x.shape[1:]))
    return np.array(out)


def ortho_basis(desc, n, x):
    """As ortho_simplex for any shape (n per factor, total degree within a factor);
    desc may be a list of factor dimensions."""
    fac = desc if isinstance(desc, list) else factors(desc)
    n = list(n) if isinstance(n, (list, tuple)) else [n] * len(fac)
    x = _inexact(x)
    r = np.ones((1, x.shape[-1]))
    i = 0
    for d, k in zip(fac, n):
        b = ortho_simplex(d, k, x[i:i + d])
        i += d
        r = (r[:, None, :] * b[None, :, :]).reshape(-1, x.shape[-1])
    return r


def volume(desc):
    from math import factorial
    v = Fraction(1)
    for d in (desc if isinstance(desc, list) else factors(desc)):
        v *= Fraction(2 ** d, factorial(d))
    return v


def cartesian_ortho(d, n, x):
    """Orthogonal polynomials on [-1,1]^d of total degree <= n, constant first."""
    x = np.asarray(x, dtype=float)
    ls = [legendre_all(n, xi) for xi in x]
    out = []
    for m in sorted(total_degree_modes(d, n), key=sum):
        r = 1.0
        for l, k in zip(ls, m):
            r = r * l[k] * np.sqrt(2 * k + 1)
        out.append(np.broadcast_to(r, x.shape[1:]))
    return np.array(out)

# }}}


def functional(env, apply, phi, ref, tol, label, small=4000, nx=None):
    """Claim: for every coefficient vector c in [-1,1]^K the functional *apply* (code
    under test, given a function of the nodes) maps sum c_k phi_k to sum c_k ref_k.

    phi: nodes -> (K, npts). Small cases run with symbolic coefficients, larger ones
    with the vector-valued integrand (phi_k)_k, whose image is the coefficient vector
    of the linear functional."""
    ref = np.asarray(ref, dtype=float)
    K = len(ref)    # noqa: N806
    if env.symbolic and nx is not None and K * nx > small:
        e = env.call(apply, phi)
        e = np.asarray(e, dtype=float)
        env.true(e.shape == (K,), label + " shape")
        env.lin(e - ref, tol, label)
        return
    c = np.array([env.real(f"c{k}", -1, 1) for k in range(K)],
                 dtype=object if env.symbolic else float)
    r = env.call(apply, lambda x: c @ phi(x))
    env.eq(r, c @ ref, tol, label)

# }}}


def jacobi_ref(a, b, n, x):
    """Classical Jacobi polynomials P_0..P_n^{(a,b)}, scaled to unit L2 norm under the
    normalised weight; values only (concrete)."""
    from scipy.special import eval_jacobi, gammaln
    x = np.asarray(x, dtype=float)
    out = []
    g0 = (a + b + 1) * np.log(2) + gammaln(a + 1) + gammaln(b + 1) - gammaln(a + b + 2)
    for k in range(n + 1):
        if k == 0:
            out.append(np.ones_like(x))
            continue
        h = ((a + b + 1) * np.log(2) - np.log(2 * k + a + b + 1) + gammaln(k + a + 1)
             + gammaln(k + b + 1) - gammaln(k + a + b + 1) - gammaln(k + 1))
        out.append(eval_jacobi(k, a, b, x) * np.exp((g0 - h) / 2))
    return np.array(out)


def jacobi_mass(a, b):
    from scipy.special import gammaln
    return float(np.exp((a + b + 1) * np.log(2) + gammaln(a + 1) + gammaln(b + 1)
                        - gammaln(a + b + 2)))


# {{{ exact integrals over the reference element

def _jac_exponents(desc):
    """|det| of the Duffy map = const * prod u_i^e_i; returns (const, [e_i])."""
    c, e = 1, []
    for d in factors(desc):
        c *= 2 ** (d if d < 2 else 2 * (d - 1) if d == 2 else 3)
        e += {0: [], 1: [0], 2: [0, 1], 3: [0, 1, 2]}[d]
    return c, e


def gauss_points(desc, n):
    """Points and weights on the element (or product of simplices of the listed
    dimensions), exact for degree n + 2 twice over, weights summing to one."""
    fac = desc if isinstance(desc, list) else factors(desc)
    m = n + 3
    t, w = np.polynomial.legendre.leggauss(m)
    t, w = (1 + t) / 2, w / 2
    g = [a.reshape(-1) for a in np.meshgrid(*([t] * sum(fac)), indexing="ij")]
    ws = np.ones(m ** sum(fac))
    for a in np.meshgrid(*([w] * sum(fac)), indexing="ij"):
        ws = ws * a.reshape(-1)
    cs, k = [], 0
    for d in fac:
        us = g[k:k + d]
        cs += duffy(us)
        for i in range(1, d):
            ws = ws * us[i] ** i
        k += d
    return np.array(cs).reshape(sum(fac), -1), ws / ws.sum()


class Integrator:
    """Inner products over the reference element. Symbolic runs: functions are executed
    on a free symbolic point in collapsed coordinates u, giving the exact polynomial
    they compute, whose integral is taken term by term. Concrete runs: Gauss rules of
    sufficient degree (scipy)."""

    def __init__(self, env, desc, degree, name="z"):
        self.env, self.desc = env, desc
        self.nd = nd = sum(factors(desc))
        self.const, self.je = _jac_exponents(desc)
        if env.symbolic:
            self.u = [env.real(f"{name}{i}") for i in range(nd)]
            cs, k = [], 0
            for d in factors(desc):
                cs += duffy(self.u[k:k + d])
                k += d
            self.x = vec(env, cs)
            self.at = list(zip(self.u, generic_params(nd)))
        else:
            n = degree + 3
            t, w = np.polynomial.legendre.leggauss(n)
            t, w = (1 + t) / 2, w / 2
            g = np.meshgrid(*([t] * nd), indexing="ij")
            us = [a.reshape(-1) for a in g]
            ws = np.ones(n ** nd)
            for a in np.meshgrid(*([w] * nd), indexing="ij"):
                ws = ws * a.reshape(-1)
            cs, k = [], 0
            for d in factors(desc):
                cs += duffy(us[k:k + d])
                k += d
            self.x = np.array(cs).reshape(nd, -1)
            self.w = ws * float(self.const)
            for u, e in zip(us, self.je):
                self.w = self.w * u ** e

    def table(self, fs):
        """Values of the functions: exact polynomials in u / values at the nodes."""
        if not self.env.symbolic:
            out = []
            for f in fs:
                v = np.asarray(self.env.call(f, self.x), dtype=float)
                out.append(np.broadcast_to(v, self.x.shape[1:]))
            return np.array(out)
        polys = []
        for f in fs:
            v = self.env.generic(f, [self.x], self.at)
            v = self.env.exact(v[()] if isinstance(v, np.ndarray) else v)
            polys.append(self.env.poly_terms(v, self.u))
        return polys

    def gram(self, p, q):
        """Matrix of <p_i, q_j>."""
        if not self.env.symbolic:
            return (p * self.w) @ q.T
        from math import lcm
        monos_p = sorted({m for t in p for m in t})
        monos_q = sorted({m for t in q for m in t})
        top = max([max(m, default=0) for m in monos_p + monos_q] + [0])
        scale = lcm(*range(1, 2 * top + 5)) if self.nd else 1
        h = np.empty((len(monos_p), len(monos_q)), dtype=object)
        for i, a in enumerate(monos_p):
            for j, b in enumerate(monos_q):
                v = 1
                for x, y, e in zip(a, b, self.je):
                    v *= scale // (x + y + e + 1)
                h[i, j] = v
        cp, dp = _int_matrix(p, monos_p)
        cq, dq = _int_matrix(q, monos_q)
        g = cp.dot(h).dot(cq.T)
        out = np.empty(g.shape, dtype=object)
        den = dp * dq * scale ** self.nd
        for i in np.ndindex(g.shape):
            out[i] = Fraction(int(g[i]) * self.const, den)
        return out


def _int_matrix(p, monos):
    from math import lcm
    d = 1
    for t in p:
        for v in t.values():
            d = lcm(d, v.denominator)
    out = np.zeros((len(p), len(monos)), dtype=object)
    idx = {m: i for i, m in enumerate(monos)}
    for i, t in enumerate(p):
        for m, v in t.items():
            out[i, idx[m]] = v.numerator * (d // v.denominator)
    return out, d


def bary_monomials(desc, order):
    """Spanning set of the space (per-factor total degree): products of
    ((1+x)/2)^m, bounded by one, exact on symbolic coordinates."""
    from itertools import product
    fac = factors(desc)
    deg = list(order) if isinstance(order, (list, tuple)) else [order] * len(fac)
    ms = [sum(t, ()) for t in product(*[total_degree_modes(d, n)
                                        for d, n in zip(fac, deg)])]

    def make(m):
        def f(x):
            r = 1 + 0 * x[0] if len(x) else 1
            for i, k in enumerate(m):
                if k:
                    r = r * ((1 + x[i]) / 2) ** k
            return r
        return f
    return [make(m) for m in ms]


def tofloat(a):
    a = np.asarray(a)
    return np.array([float(v) for v in a.flat]).reshape(a.shape)

# }}}
