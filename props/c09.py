"""Mode enumeration: identifiers, order, tensor-product structure, hierarchy."""
import numpy as np

import modepy as mp
from modepy.modes import Basis, TensorProductBasis

from .c06 import KIND, count, flat, top
from .common import Integrator, bary_monomials, duffy, factors, generic_params, make_space, tofloat, vec

BOUNDS = ("tensor products of up to 3 factors of dimension 1-3 whose factor functions, "
          "gradients and points are arbitrary reals in [-2,2] (up to 3 functions per "
          "factor); shipped bases up to order 12 / 7 / 4 in 1/2/3 dimensions, 5 / 3 "
          "on square / cube, 3 on prisms (thorough 16 / 8 / 5, 6 / 3, 4)")


# identifiers of factor functions; only one-tuples of integers are merged into the
# identifier of the product
IDS = {"int": lambda name, i: (7 * i + 1,),
       "pair": lambda name, i: (3 * i + 1, i + 5),
       "label": lambda name, i: (name, i),
       "name": lambda name, i: (name + str(i),),
       "bare": lambda name, i: i}


class AbstractBasis(Basis):
    """A factor basis about which nothing is known: at the one point *x* every function
    and every gradient component has an arbitrary value, at any other it fails."""

    def __init__(self, env, name, dim, n, x, singles):
        self.env, self.dim, self.n, self.x = env, dim, n, x
        self.v = env.reals(name + "v", n, -2, 2)
        self.g = env.reals(name + "g", (n, dim), -2, 2)
        self.ids = tuple(IDS[singles](name, i) for i in range(n))

    def check(self, x):
        self.env.eq(x, self.x, 0, "coordinates handed to a factor")

    def orthonormality_weight(self):
        return self.weight

    @property
    def mode_ids(self):
        return self.ids

    @property
    def functions(self):
        def make(k):
            def f(x):
                self.check(x)
                return self.v[k]
            return f
        return tuple(make(k) for k in range(self.n))

    @property
    def gradients(self):
        def make(k):
            def f(x):
                self.check(x)
                return tuple(self.g[k])
            return f
        return tuple(make(k) for k in range(self.n))


def product(env, dims, ns, kinds):
    """Functions, gradients, derivatives, ids and weight of a product of arbitrary
    factor bases: first factor fastest, each factor sees its own coordinates."""
    x = env.reals("x", sum(dims), -2, 2)
    bs, i = [], 0
    w = 1
    for k, (d, n) in enumerate(zip(dims, ns)):
        b = AbstractBasis(env, f"b{k}", d, n, x[i:i + d], kinds[k])
        b.weight = env.real(f"w{k}", 0.5, 2)
        w = w * b.weight
        bs.append(b)
        i += d
    tp = TensorProductBasis(bs) if all(d == 1 for d in dims) and kinds[0] == "int" else \
        TensorProductBasis(bs, dims_per_basis=tuple(dims))
    ids = [m[::-1] for m in np.ndindex(*ns[::-1])]
    env.eq(env.call(tp.orthonormality_weight), w, 1e-13, "weight")
    fs, gs = tp.functions, tp.gradients
    ders = [tp.derivatives(ax) for ax in range(len(x))]
    env.true(len(fs) == len(gs) == len(tp.mode_ids) == len(ids)
             and all(len(d) == len(ids) for d in ders), "counts")
    env.true(len(set(tp.mode_ids)) == len(ids), "distinct identifiers")
    for k, m in enumerate(ids):
        ref = 1
        for b, j in zip(bs, m):
            ref = ref * b.v[j]
        env.eq(env.call(fs[k], x), ref, 1e-12, f"function {k}")
        want = sum((tuple(b.ids[j]) if kind == "int" else (b.ids[j],)
                    for b, j, kind in zip(bs, m, kinds)), ())
        env.true(tuple(tp.mode_ids[k]) == want, f"identifier {k}")
        gv = env.call(gs[k], x)
        env.true(isinstance(gv, tuple) and len(gv) == len(x), f"gradient length {k}")
        ax = 0
        for q, b in enumerate(bs):
            for l in range(b.dim):
                r = b.g[m[q], l]
                for p, b2 in enumerate(bs):
                    if p != q:
                        r = r * b2.v[m[p]]
                env.eq(gv[ax], r, 1e-12, f"gradient {k} axis {ax}")
                env.eq(env.call(ders[ax][k], x), r, 1e-12, f"derivative {k} axis {ax}")
                ax += 1


class PolyBasis(Basis):
    """Quadratic polynomials with arbitrary coefficients."""
    dim = 1

    def __init__(self, env, name, n):
        self.c = env.reals(name, (n, 3), -2, 2)
        self.ids = tuple(range(n))
        self.weight = env.real(name + "w", 0.5, 2)

    def orthonormality_weight(self):
        return self.weight

    @property
    def mode_ids(self):
        return self.ids

    def value(self, k, t):
        return self.c[k, 0] + self.c[k, 1] * t + self.c[k, 2] * t * t

    def slope(self, k, t):
        return self.c[k, 1] + 2 * self.c[k, 2] * t

    @property
    def functions(self):
        return tuple((lambda x, k=k: self.value(k, x[0])) for k in self.ids)

    @property
    def gradients(self):
        return tuple((lambda x, k=k: (self.slope(k, x[0]),)) for k in self.ids)


def repeated(env, ns, use):
    """One and the same basis on several axes."""
    different = [PolyBasis(env, f"b{i}", n) for i, n in enumerate(ns)]
    bs = [different[i] for i in use]
    x = env.reals("x", len(bs), -1, 1)
    tp = TensorProductBasis(bs)
    w = 1
    for b in bs:
        w = w * b.weight
    env.eq(env.call(tp.orthonormality_weight), w, 1e-12, "weight")
    ids = [m[::-1] for m in np.ndindex(*[b.c.shape[0] for b in bs[::-1]])]
    env.true(list(tp.mode_ids) == ids, "identifiers")
    ders = [tp.derivatives(ax) for ax in range(len(bs))]
    for k, m in enumerate(ids):
        ref = 1
        for b, j, t in zip(bs, m, x):
            ref = ref * b.value(j, t)
        env.eq(env.call(tp.functions[k], x), ref, 1e-11, f"function {k}")
        gv = env.call(tp.gradients[k], x)
        for ax in range(len(bs)):
            ref = 1
            for q, (b, j, t) in enumerate(zip(bs, m, x)):
                ref = ref * (b.slope(j, t) if q == ax else b.value(j, t))
            env.eq(gv[ax], ref, 1e-11, f"gradient {k} axis {ax}")
            env.eq(env.call(ders[ax][k], x), ref, 1e-11, f"derivative {k} axis {ax}")


def hierarchy(env, desc, order):
    """Function k of the orthonormal basis has, in each factor, exactly the total
    degree its identifier says and is orthogonal to every polynomial of lower degree;
    identifiers enumerate all multi-indices of the space once."""
    space, shape = make_space(desc, order)
    basis = mp.orthonormal_basis_for_space(space, shape)
    ids = [flat(m) for m in basis.mode_ids]
    fac = factors(desc)
    deg = order if isinstance(order, list) else [order] * len(fac)
    env.true(len(set(ids)) == len(ids) == count(desc, order), "identifiers")
    it = Integrator(env, desc, 2 * top(order))
    p = it.table(basis.functions)

    def factor_degrees(m):
        out, i = [], 0
        for d in fac:
            out.append(sum(m[i:i + d]))
            i += d
        return out
    degs = [factor_degrees(m) for m in ids]
    env.true(all(a <= b for d in degs for a, b in zip(d, deg)), "degrees")
    sets = {}
    for k, dk in enumerate(degs):
        sets.setdefault(tuple(dk), []).append(k)
    for dk, ks in sets.items():
        for f in range(len(fac)):
            if dk[f] == 0:
                continue
            low = list(deg)
            low[f] = dk[f] - 1
            q = it.table(bary_monomials(desc, low))
            e = tofloat(it.gram([p[k] for k in ks] if env.symbolic else p[ks], q))
            env.lin(e, 1e-8, f"degree {dk} factor {f} orthogonal to lower degree")
        # Parseval: q of exactly that degree is captured by the modes up to it
        sub = [k for k, d in enumerate(degs) if all(a <= b for a, b in zip(d, dk))]
        q = it.table(bary_monomials(desc, list(dk)))
        e = it.gram([p[k] for k in sub] if env.symbolic else p[sub], q)
        env.lin(tofloat(it.gram(q, q) - e.T.dot(e)), 1e-8, f"degree {dk} complete",
                prefix="d")


def simplex_axes(env, dim, order):
    """A mode whose identifier has degree n_i beyond axis i only does not depend on
    lower axes: identifiers' trailing structure (i, 0..) against the axis order."""
    space, shape = make_space(f"s{dim}", order)
    basis = mp.orthonormal_basis_for_space(space, shape)
    ids = [flat(m) for m in basis.mode_ids]
    u = env.reals("u", dim, 1 / 64, 1)
    v = env.reals("v", dim, 1 / 64, 1)
    for k, (f, m) in enumerate(zip(basis.functions, ids)):
        lead = next((i for i, a in enumerate(m) if a), dim)
        if lead == 0:
            continue
        # same trailing coordinates, arbitrary leading ones
        x = vec(env, duffy(list(u)))
        z = vec(env, duffy(list(v[:lead]) + list(u[lead:])))
        if env.symbolic:
            at = list(zip([*u, *v], generic_params(2 * dim)))
            a, b = env.generic(f, [x], at), env.generic(f, [z], at)
        else:
            a, b = f(x), f(z)
        env.eq(a, b, 1e-9, f"mode {m} depends on trailing axes only")


def obligations(tier, seed):
    big = tier == "thorough"
    for dims, ns in [([1, 1], [2, 3]), ([1, 1, 1], [2, 3, 2]), ([2, 1], [3, 2]),
                     ([1, 2], [2, 3]), ([3, 1], [2, 3]), ([2, 2], [2, 2]),
                     ([1, 2, 1], [2, 2, 3]), ([1], [3]), ([2], [3]), ([1, 1, 1, 1], [2, 1, 3, 2])]:
        for kinds in (["int"], ["label"], ["pair"], ["int", "pair"], ["pair", "int"],
                      ["bare", "int"], ["name"]):
            if len(dims) < len(kinds):
                continue
            kinds = (kinds * len(dims))[:len(dims)]
            name = "".join(k[0] if k != "name" else "m" for k in kinds)
            yield f"product-{dims}-{ns}-{name}", "product", dict(
                dims=dims, ns=ns, kinds=kinds)
    for ns, use in [([2], [0, 0]), ([3], [0, 0]), ([2], [0, 0, 0]), ([2, 1], [0, 1, 0]),
                    ([2, 3], [1, 0, 1]), ([2, 2], [0, 0, 1])]:
        yield f"repeated-{ns}-{use}", "repeated", dict(ns=ns, use=use)
    for desc, n, m in [("s1", 12, 16), ("s2", 7, 8), ("s3", 4, 5), ("h2", 5, 6),
                       ("h2", [1, 3], None), ("h3", 3, 3), ("p", 3, 4), ("q", 3, 4),
                       ("p", [3, 1], None), ("q", [2, 3], None), ("h3", [0, 2, 1], None)]:
        n = m if big and m else n
        yield f"hierarchy-{desc}-{n}", "hierarchy", dict(desc=desc, order=n)
    for d, n in [(2, 5), (3, 4)]:
        yield f"axes-{d}-{n}", "simplex_axes", dict(dim=d, order=n)
