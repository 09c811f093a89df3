"""Rule application and composition: Quadrature(), intervals, tensor products."""
import numpy as np

import modepy as mp
from modepy.quadrature import Quadrature, Transformed1DQuadrature, inf, isinf
from modepy.quadrature.kronrod import KronrodGaussQuadrature, KronrodQuadrature

from .common import legendre_all, obj, vec

BOUNDS = ("rules with up to 4 nodes per factor (6 in direct application) and up to 3 "
          "factors of dimension 0-2, nodes, weights, integrand values / coefficients, "
          "interval ends and compared numbers all arbitrary reals (boxes: nodes [-1,1], "
          "weights [-2,2], coefficients [-1,1], interval in [-3,3] with length 1/100-6, both also scaled by 2^-24 to 2^24 independently); rules of up to 30 nodes (thorough 60) on "
          "six given intervals")


def sym_rule(env, dim, n, name, exact_to=None, flat=False):
    x = env.reals(name + "x", (n,) if flat else (dim, n), -1, 1)
    w = env.reals(name + "w", n, -2, 2)
    return Quadrature(x, w, exact_to=exact_to), x, w


def apply(env, dim, n, lead, flat=False):
    """The result is the weighted sum of the values f gives at exactly the nodes."""
    q, x, w = sym_rule(env, dim, n, "r", flat=flat)
    vals = env.reals("v", (*lead, n), -1, 1)
    seen = []

    def f(pts):
        seen.append(pts)
        return vals
    r = env.call(q, f)
    env.true(len(seen) >= 1, "evaluated")
    for pts in seen:
        env.eq(pts, x, 0, "evaluation points")
    ref = obj(env, lead)
    for i in np.ndindex(*lead):
        ref[i] = sum(w[j] * vals[(*i, j)] for j in range(n))
    env.true(np.shape(r) == tuple(lead), "result shape")
    env.eq(r, ref, 1e-12, "weighted sum")
    env.true(q.dim == (1 if flat else dim), "dim")


def interval(env, n, exact_to, flat, far=1.0, long=1.0):
    """Transformed1DQuadrature(q, l, r)(f) = (r-l)/2 q(f(l + (x+1)/2 (r-l)))."""
    ex = {"none": None, "inf": inf}.get(exact_to, exact_to)
    q, x, w = sym_rule(env, 1, n, "q", exact_to=ex, flat=flat)
    l = far * env.real("l", -3, 3)
    h = long * env.real("h", 0.01, 6)
    t = env.call(Transformed1DQuadrature, q, l, l + h)
    x1 = x if flat else x[0]
    env.true(np.shape(t.nodes) == np.shape(x), "node shape")
    t1 = t.nodes if flat else t.nodes[0]
    for j in range(n):
        env.eq(t1[j] / far, (l + (x1[j] + 1) * h / 2) / far, 1e-12 * max(1, long / far),
               f"node {j}")
        env.eq(t.weights[j] / long, w[j] * h / 2 / long, 1e-12 * max(1, far / long),
               f"weight {j}")
    same_exactness(env, t, ex)


def same_exactness(env, q, ex):
    if ex is None:
        try:
            q.exact_to
        except AttributeError:
            ok = True
        else:
            ok = False
        env.true(ok, "exactness stays unknown")
    elif isinf(ex):
        env.true(isinf(q.exact_to), "exactness stays infinite")
    else:
        env.true(q.exact_to == ex, "exactness is kept")


def empty_interval(env):
    """An interval is refused exactly when it has no positive length."""
    q, _, _ = sym_rule(env, 1, 2, "q")
    l = env.real("l", -3, 3)
    r = env.real("r", -3, 3)
    try:
        env.call(Transformed1DQuadrature, q, l, r)
        refused = False
    except ValueError:
        refused = True
    if refused:
        env.true(r <= l, "refused only when empty")
    else:
        env.true(r > l, "accepted only when nonempty")


def integral(env, rule, n, deg):
    """Gauss / Lobatto / Clenshaw-Curtis rules moved to [l, l+h] integrate every
    polynomial of the advertised degree over it."""
    make = {"lg": lambda: mp.LegendreGaussQuadrature(n, force_dim_axis=True),
            "lgl": lambda: mp.LegendreGaussLobattoQuadrature(n, force_dim_axis=True),
            "cc": lambda: mp.ClenshawCurtisQuadrature(n, force_dim_axis=True)}[rule]
    q = make()
    l = env.real("l", -1, 1)
    h = env.real("h", 0.01, 2)
    c = env.reals("c", deg + 1, -1, 1)
    t = env.call(Transformed1DQuadrature, q, l, l + h)
    env.true(t.exact_to >= deg, "degree kept")
    r = env.call(t, lambda x: sum(c[k] * x[0] ** k for k in range(deg + 1)))
    ref = sum(c[k] * ((l + h) ** (k + 1) - l ** (k + 1)) / (k + 1) for k in range(deg + 1))
    env.eq(r, ref, 1e-9, "integral over the interval")


def moved(env, rule, lo, hi):
    """The same for given intervals and high degrees."""
    make = {"lg": mp.LegendreGaussQuadrature, "lgl": mp.LegendreGaussLobattoQuadrature,
            "cc": mp.ClenshawCurtisQuadrature}[rule]
    for n in range(lo, hi + 1):
        q = make(n, force_dim_axis=True)
        for l, r in ((-1, 1), (0, 1), (-3, -2.5), (10, 10.75), (-5.0, 40.0), (1e-3, 2e-3)):
            t = Transformed1DQuadrature(q, l, r)
            env.true(t.exact_to == q.exact_to, "degree kept")
            x = 2 * (np.asarray(t.nodes)[0] - l) / (r - l) - 1
            e = np.array(legendre_all(q.exact_to, x)) @ np.asarray(t.weights)
            e[0] -= r - l
            env.lin(e / (r - l), 1e-9, f"order {n} on [{l}, {r}]")


def tensor(env, dims, ns, exact, degree, flat=False, repeat=None):
    """TensorProductQuadrature(qs)(f) is the iterated application of the factors."""
    ex = [{"none": None, "inf": inf}.get(e, e) for e in exact]
    rules = [sym_rule(env, d, n, f"r{k}", exact_to=e, flat=flat)
             for k, (d, n, e) in enumerate(zip(dims, ns, ex))]
    if repeat:
        # one and the same rule on several axes
        rules, ns, dims, ex = ([a[i] for i in repeat] for a in (rules, ns, dims, ex))
    q = env.call(mp.TensorProductQuadrature, [r[0] for r in rules])
    tot = sum(dims)
    env.true(np.shape(q.nodes) == (tot, int(np.prod(ns)))
             and np.shape(q.weights) == (int(np.prod(ns)),), "shapes")
    env.true(q.dim == tot, "dim")
    # integrand: product of per-axis polynomials with distinct symbolic coefficients
    # would not see swapped pairs, so use a full multi-degree polynomial
    exps = list(np.ndindex(*([degree + 1] * tot)))
    c = [env.real(f"c{i}", -1, 1) for i in range(len(exps))]

    def f(xs):
        s = 0
        for e, ck in zip(exps, c):
            t = ck
            for xi, p in zip(xs, e):
                if p:
                    t = t * xi ** p
            s = s + t
        return s
    r = env.call(q, lambda xs: vec(env, [f(list(xs[:, j])) for j in range(xs.shape[1])]))
    ref = 0
    for idx in np.ndindex(*ns):
        w = 1
        xs = []
        for (_, x, wt), j in zip(rules, idx):
            w = w * wt[j]
            xs += [x[j]] if flat else list(x[:, j])
        ref = ref + w * f(xs)
    env.eq(r, ref, 1e-9, "iterated sum")
    known = [e for e in ex]
    if not ex:
        same_exactness(env, q, inf)
    elif any(e is None for e in known):
        same_exactness(env, q, None)
    else:
        fin = [e for e in known if not isinf(e)]
        same_exactness(env, q, min(fin) if fin else inf)


def sentinel(env, kind):
    """inf compares above every finite number."""
    a = env.real("a", -10**6, 10**6) if kind == "real" else 10**6
    env.true(env.call(lambda: inf > a), "inf > a")
    env.true(env.call(lambda: inf >= a), "inf >= a")
    env.true(env.call(lambda: not inf < a), "not inf < a")
    env.true(env.call(lambda: not inf <= a), "not inf <= a")
    env.true(env.call(lambda: a < inf), "a < inf")
    env.true(env.call(lambda: not a > inf), "not a > inf")
    env.true(env.call(lambda: not a >= inf), "not a >= inf")
    env.true(env.call(lambda: a <= inf), "a <= inf")
    env.true(env.call(lambda: inf != a), "inf != a")
    env.true(inf == inf and not inf < inf and not inf > inf and inf <= inf
             and inf >= inf, "inf and itself")
    env.true(isinf(inf) and not isinf(5) and not isinf(None), "isinf")
    if not env.symbolic or kind == "int":
        env.true(isinf(inf + a), "inf + a")


def zero_dim(env):
    v = env.real("v", -1, 1)
    q = mp.ZeroDimensionalQuadrature()
    env.true(q.nodes.shape == (0, 1), "one node without coordinates")
    env.eq(env.call(q, lambda x: vec(env, [v])), v, 1e-13, "point evaluation")
    env.true(isinf(q.exact_to), "exact to all orders")


def kronrod_apply(env, n):
    """The Kronrod estimate is the sum over Gauss and Kronrod nodes of weight*value."""
    gx, gw = env.reals("gx", n, -1, 1), env.reals("gw", n, -2, 2)
    kx, kw = env.reals("kx", n + 1, -1, 1), env.reals("kw", n + 1, -2, 2)
    wg = env.reals("wg", n, -2, 2)
    g = KronrodGaussQuadrature(gx, gw, exact_to=3)
    q = KronrodQuadrature(nodes=kx, weights=kw, weights_at_gauss_nodes=wg, exact_to=5,
                          gauss_quadrature=g)
    c = env.reals("c", 4, -1, 1)

    def f(x):
        return sum(c[k] * x ** k for k in range(4))
    env.eq(env.call(q, f), sum(wg[j] * f(gx[j]) for j in range(n))
           + sum(kw[j] * f(kx[j]) for j in range(n + 1)), 1e-10, "kronrod sum")
    env.eq(env.call(g, f), sum(gw[j] * f(gx[j]) for j in range(n)), 1e-10, "gauss sum")


def obligations(tier, seed):
    big = tier == "thorough"
    for dim, n in [(1, 1), (1, 4), (2, 3), (3, 6), (2, 1)]:
        for lead in [(), (1,), (3,), (4,), (2, 2), (3, 1, 2)]:
            yield f"apply-{dim}-{n}-{len(lead)}{''.join(map(str, lead))}", "apply", dict(
                dim=dim, n=n, lead=list(lead))
    yield "apply-flat", "apply", dict(dim=1, n=4, lead=[2], flat=True)
    for ex in (3, "none", "inf"):
        for flat in (False, True):
            yield f"interval-{ex}-{flat}", "interval", dict(n=3, exact_to=ex, flat=flat)
    for far in (2.0**-24, 1.0, 2.0**20):
        for long in (2.0**-16, 1.0, 2.0**24):
            if (far, long) != (1, 1):
                yield f"interval-far{far}-long{long}", "interval", dict(
                    n=3, exact_to=3, flat=False, far=far, long=long)
    yield "empty-interval", "empty_interval", {}
    for rule, n, deg in [("lg", 0, 1), ("lg", 1, 3), ("lg", 3, 7), ("lgl", 1, 1),
                         ("lgl", 3, 5), ("cc", 1, 1), ("cc", 4, 4)]:
        yield f"integral-{rule}-{n}", "integral", dict(rule=rule, n=n, deg=deg)
    for rule in ("lg", "lgl", "cc"):
        for lo in range(1, 60 if big else 30, 10):
            yield f"moved-{rule}-{lo}", "moved", dict(rule=rule, lo=lo, hi=lo + 9)
    cases = [([1, 1], [2, 3], [3, 5], 2), ([1, 1], [4, 4], [5, 3], 1), ([2, 1], [3, 2], [2, "none"], 1),
             ([1, 2], [2, 3], ["none", 2], 1), ([1, 1, 1], [2, 3, 2], [4, 2, 3], 1),
             ([2], [3], [4], 1), ([2, 2], [2, 2], ["inf", 4], 1), ([0, 1], [1, 3], ["inf", 4], 1),
             ([1, 0], [3, 1], [4, "inf"], 1), ([0, 0], [1, 1], ["inf", "inf"], 1)]
    if big:
        cases += [([1, 1], [4, 4], [5, 3], 3), ([2, 1, 1], [2, 3, 2], [4, 2, 3], 1),
                  ([1, 1, 1], [3, 3, 3], [4, 2, 3], 1)]
    for k, (dims, ns, ex, deg) in enumerate(cases):
        yield f"tensor-{k}", "tensor", dict(dims=dims, ns=ns, exact=ex, degree=deg)
    yield "tensor-flat", "tensor", dict(dims=[1, 1], ns=[2, 3], exact=[2, 1], degree=1, flat=True)
    for rep in ([0, 0], [0, 0, 0], [0, 1, 0], [1, 0, 0]):
        yield f"tensor-repeated-{rep}", "tensor", dict(
            dims=[1, 1], ns=[2, 1], exact=[3, 2], degree=1, repeat=rep)
    yield "tensor-repeated-2d", "tensor", dict(
        dims=[2], ns=[2], exact=[3], degree=1, repeat=[0, 0])
    yield "sentinel-real", "sentinel", dict(kind="real")
    yield "sentinel-int", "sentinel", dict(kind="int")
    yield "zero-dim", "zero_dim", {}
    for n in (1, 2, 3):
        yield f"kronrod-apply-{n}", "kronrod_apply", dict(n=n)
