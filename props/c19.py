"""Modal decay: degrees, tail coefficients, decay fits."""
import math
import warnings

import numpy as np

import modepy as mp
from modepy.modal_decay import (degree_vector, estimate_relative_expansion_residual,
                                fit_modal_decay, interp_error_coefficient_estimator_matrix,
                                simplex_interp_error_coefficient_estimator_matrix)

from .c12 import ONB, degs, nodes
from .common import factors, make_space, ortho_basis, total_degree_modes

BOUNDS = ("degrees and tail estimators: orders up to 16 / 9 / 6 on the 1/2/3-simplex, 6 / 3 "
          "on square / cube, 4 on prisms, 1-2 "
          "on four-dimensional products (thorough 24 / 12 / 7, 9 / 4, 5), mixed orders, every "
          "tail length, all nodal data; decay fits: up to 16 / 15 / 20 modes in 1/2/3 "
          "dimensions, arbitrary coefficients bounded away from zero in every (from 5 modes "
          "on: sampled) order of magnitude, up to 2 elements, 0-2 ignored modes")
ASSUMPTIONS = ["logarithms are uninterpreted: fits are compared weight by weight and "
               "argument by argument"]


def lower(desc, order, k):
    return [min(n, k) for n in degs(desc, order)]


def mode_degrees(env, desc, order, basis, x):
    """Smallest k such that the mode lies in the space of order k (exact degree)."""
    top = max(degs(desc, order), default=0)
    b = np.array([np.broadcast_to(f(x), x.shape[1:]) for f in basis.functions]).T
    out = np.full(len(basis.functions), top + 1)
    for k in range(top, -1, -1):
        v = ortho_basis(desc, lower(desc, order, k), x).T
        q, _ = np.linalg.qr(v)
        res = np.abs(b - q @ (q.T @ b)).max(axis=0)
        out[res < 1e-8 * np.abs(b).max(axis=0)] = k
    return out, b


def degrees(env, desc, order, kind):
    space, shape = make_space(desc, order)
    basis = ONB[kind](space, shape)
    x = np.asarray(nodes(space, shape, "edge"))
    dv = np.asarray(env.run(degree_vector, basis))
    env.true(dv.shape == (len(basis.functions),), "shape")
    _, b = mode_degrees(env, desc, order, basis, x)
    bi = np.linalg.inv(b)
    # a mode listed with degree d lies in the space of order d; modes of higher degree do
    # not contribute to any polynomial of lower degree
    for k in range(max(degs(desc, order), default=0) + 1):
        v = ortho_basis(desc, lower(desc, order, k), x).T
        env.true((dv <= k).sum() == v.shape[1], f"number of modes up to degree {k}")
        e = bi @ v
        env.lin(e[dv > k], 1e-8 * (1 if kind == "onb" else 100),
                f"polynomials of degree {k}")
    basis_deg = mode_degrees(env, desc, order, basis, x)[0]
    env.true((basis_deg == dv).all(), "degree of every mode")


def tail(env, desc, order, kind, which):
    """The matrix gives the coefficients of exactly the modes of the highest degrees."""
    space, shape = make_space(desc, order)
    basis = ONB[kind](space, shape)
    x = np.asarray(nodes(space, shape, which))
    deg, b = mode_degrees(env, desc, order, basis, x)
    top = max(degs(desc, order), default=0)
    for n in range(1, top + 2):
        m = np.asarray(env.run(interp_error_coefficient_estimator_matrix, x, n, basis),
                       dtype=float)
        sel = np.eye(len(deg))[deg > top - n]
        env.true(m.shape == sel.shape, f"tail {n} shape")
        env.lin(m @ b - sel, 1e-7, f"tail {n}")
        if desc[0] == "s" and kind == "onb":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m2 = np.asarray(env.run(simplex_interp_error_coefficient_estimator_matrix,
                                        x, order, n), dtype=float)
            env.true(m2.shape == sel.shape, f"old tail {n} shape")
            env.lin(m2 @ b - sel, 1e-7, f"old tail {n}")


def reference(env, q2, dims, n, ignored):
    """Fit weights (exponent row, constant row) and the arguments of the logarithms, as
    described by Kloeckner/Warburton/Hesthaven (2011)."""
    ms = np.array([sum(t) for t in total_degree_modes(dims, n)], dtype=float)[ignored:]
    env_sq = list(q2)
    # max over modes min(k, N-1)..N
    a, b = env_sq[-1], env_sq[-2]
    env_sq[-1] = a if bool(a >= b) else b
    for k in range(len(q2) - 2, -1, -1):
        a, b = env_sq[k], env_sq[k + 1]
        env_sq[k] = a if bool(a >= b) else b
    norm2 = sum(env_sq)
    base = np.array([m ** -n if m else 1.0 for m in ms])
    base = base / math.sqrt((base ** 2).sum())
    args = [env_sq[ignored + k] + (float(base[k]) * norm2) ** 2 for k in range(len(ms))]
    a = np.array([[1.0, math.log(m) if m else 0.0] for m in ms])
    w = np.linalg.pinv(a) / 2
    return w, args


def coefficients(env, nel, K, perm):        # noqa: N803
    """Arbitrary coefficients whose magnitudes are in the given order (all orders are
    enumerated), with mixed signs."""
    c = np.empty((nel, K), dtype=object if env.symbolic else float)
    for el in range(nel):
        p = perm[el:] + perm[:el]
        s = 0
        for k in p:
            s = s + env.real(f"c{el}_{k}", 0.0625, 1)
            c[el, k] = -s if (k + el) % 3 == 1 else s
    return c


def fit(env, dims, n, ignored, nel, perm, zero=None):
    """Exponent and constant are the least-squares line through the logarithms of the
    non-increasing envelope of the coefficients (plus baseline), per element."""
    K = len(total_degree_modes(dims, n))        # noqa: N806
    c = coefficients(env, nel, K, list(perm))
    if zero is not None:
        c[:, zero] = 0
    e, k0 = env.call(fit_modal_decay, c, dims, n, ignored_modes=ignored)
    env.true(np.shape(e) == (nel,) and np.shape(k0) == (nel,), "shapes")
    for el in range(nel):
        w, args = reference(env, [v * v for v in c[el]], dims, n, ignored)
        if not env.symbolic:
            l = np.log(np.array(args, dtype=float))
            env.eq(e[el], w[1] @ l, 1e-8, f"exponent {el}")
            env.eq(math.log(k0[el]), w[0] @ l, 1e-8, f"constant {el}")
            continue
        _, t = env.opaque_terms(k0[el], "exp")
        env.true(len(t) == 1 and t[0][0] == 1, "constant is an exponential")
        for what, x, row in [("exponent", e[el], w[1]), ("constant", t[0][1], w[0])]:
            c0, terms = env.opaque_terms(x, "log")
            env.eq(c0, 0, 1e-10, f"{what} {el} offset")
            # merge equal arguments on both sides, then match
            left = merge(env, [(float(a), b) for a, b in terms])
            right = merge(env, list(zip(row, args)))
            for wr, ar in right:
                match = [i for i, (_, al) in enumerate(left) if same(env, al, ar)]
                if not match and abs(wr) < 1e-12:
                    continue
                env.true(len(match) == 1, f"{what} {el} logarithm")
                env.eq(left[match[0]][0], wr, 1e-9, f"{what} {el} weight")


def same(env, a, b):
    """Equal at every value? (polynomials whose coefficients agree to rounding)"""
    d = a - b
    if d.r.den:
        raise env.__class__.Unsupported("rational logarithm argument")
    return all(abs(float(c)) < 1e-10 for _, c in d.r.num.terms())


def merge(env, terms):
    out = []
    for w, a in terms:
        for t in out:
            if same(env, t[1], a):
                t[0] += w
                break
        else:
            out.append([w, a])
    return out


def per_element(env, dims, n, ignored):
    """Signs do not matter and elements do not influence each other."""
    K = len(total_degree_modes(dims, n))        # noqa: N806
    c = coefficients(env, 2, K, list(range(K))[::-1][1:] + [K - 1])
    signs = np.where((np.arange(2 * K).reshape(2, K) % 2) == 1, -1, 1)
    e, k0 = env.call(fit_modal_decay, c, dims, n, ignored)
    e2, k2 = env.call(fit_modal_decay, c * signs, dims, n, ignored)
    env.eq(e2, e, 1e-12, "sign: exponent")
    env.eq(k2, k0, 1e-8, "sign: constant")
    for el in range(2):
        e1, k1 = env.call(fit_modal_decay, c[el:el + 1], dims, n, ignored)
        env.eq(e1[0], e[el], 1e-12, f"element {el}: exponent")
        env.eq(k1[0], k0[el], 1e-8, f"element {el}: constant")


def residual(env, dims, n, ignored, lo, hi):
    """The relative residual is the L2 norm of the fitted power law over all higher
    degrees, divided by that of the coefficients; estimates beyond one are given as zero."""
    K = len(total_degree_modes(dims, n))        # noqa: N806
    c = np.empty((2, K), dtype=object if env.symbolic else float)
    for el in range(2):
        for k in range(K):
            a = (lo, hi)[el] * 0.25 ** k
            c[el, k] = env.real(f"c{el}_{k}", a, 1.5 * a) * (-1) ** (k + el)
    e, const = env.call(fit_modal_decay, c, dims, n, ignored_modes=ignored)
    for el in range(2):
        env.assume(e[el] < -0.55)
    r = env.call(estimate_relative_expansion_residual, c, dims, n, ignored_modes=ignored)
    env.true(np.shape(r) == (2,), "shape")
    for el in range(2):
        # integral from n+1 to infinity of (const x**e)**2
        tail = np.sqrt(-float(n + 1)**(2 * e[el] + 1) / (2 * e[el] + 1))
        ref = const[el] * tail / np.sqrt(sum(v * v for v in c[el]))
        if bool(ref > 1):
            env.eq(r[el], 0, 0, f"estimate {el} beyond one")
        else:
            env.eq(r[el], ref, 1e-8, f"estimate {el}")


def obligations(tier, seed):
    for dims, n in [(1, 2), (1, 3), (1, 5), (2, 2)]:
        for ig in (0, 1):
            for lo, hi in [(1.0, 30.0), (40.0, 0.5)]:
                yield f"residual-{dims}-{n}-{ig}-{lo}", "residual", dict(
                    dims=dims, n=n, ignored=ig, lo=lo, hi=hi)
    big = tier == "thorough"
    cfg = [("s1", 16, 24), ("s2", 9, 12), ("s3", 6, 7), ("h2", 6, 9), ("h3", 3, 4),
           ("p", 4, 5), ("q", 4, 5), ("g", 2, 2), ("w", 2, 2), ("h4", 1, 2)]
    mixed = [("h2", [1, 3]), ("h2", [3, 0]), ("p", [2, 1]), ("p", [1, 3]), ("q", [2, 1]),
             ("h3", [1, 0, 2])]
    for desc, k in [(d, k) for d, n, m in cfg for k in range((m if big else n) + 1)] + mixed:
        for kind in ONB:
            if kind == "mono" and max(degs(desc, k)) > 5:
                continue
            yield f"degrees-{desc}-{k}-{kind}", "degrees", dict(desc=desc, order=k, kind=kind)
            for which in ("edge", "equi"):
                yield f"tail-{desc}-{k}-{kind}-{which}", "tail", dict(
                    desc=desc, order=k, kind=kind, which=which)
    from itertools import permutations
    for dims, n in [(1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1), (1, 6), (1, 9), (1, 15), (2, 3), (2, 4), (3, 2), (3, 3)]:
        K = len(total_degree_modes(dims, n))        # noqa: N806
        r = np.random.default_rng(seed)
        if K <= 4:
            perms = list(permutations(range(K)))
        else:
            m = 60 if big else 8
            perms = [tuple(r.permutation(K).tolist()) for _ in range(m if K < 7 else m // 4)]
            perms = list(dict.fromkeys(perms))
        for p in perms:
            tag = "_".join(map(str, p))
            for ig in (0, 1, 2):
                if K - ig >= 2:
                    yield f"fit-{dims}-{n}-{ig}-{tag}", "fit", dict(
                        dims=dims, n=n, ignored=ig, nel=1, perm=p)
        for z in range(K):
            yield f"fit-{dims}-{n}-zero{z}", "fit", dict(
                dims=dims, n=n, ignored=1, nel=1, perm=perms[-1], zero=z)
        yield f"fit-{dims}-{n}-two", "fit", dict(dims=dims, n=n, ignored=1, nel=2,
                                                 perm=perms[-1])
        yield f"elements-{dims}-{n}", "per_element", dict(dims=dims, n=n, ignored=1)
