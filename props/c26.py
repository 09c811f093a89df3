"""Purity: arguments and callback results are left alone, results depend on nothing else."""
import contextlib
import importlib
import os
import pickle
import pkgutil
from fractions import Fraction

import numpy as np

import modepy as mp
import modepy.matrices as matrices
import modepy.modes as modes
from modepy.matrices import (modal_mass_matrix_for_face, nodal_mass_matrix_for_face,
                             nodal_quadrature_bilinear_form_matrix,
                             nodal_quadrature_test_matrix, spectral_diag_nodal_mass_matrix)
from modepy.modal_decay import estimate_relative_expansion_residual, fit_modal_decay
from modepy.quadrature import Quadrature, Transformed1DQuadrature
from modepy.nodes import warp_factor
from modepy.quadrature.construction import (LinearCombinationIntegrand,
                                            QuadratureResidualJacobian,
                                            find_weights_undetermined_coefficients,
                                            linearly_combine, quad_gauss_newton_increment,
                                            quad_residual_and_jacobian)
from modepy.quadrature.kronrod import kronrod, make_kronrod_quadrature
from modepy.quadrature import transplanted as tp_maps
from modepy.tools import (Monomial, barycentric_to_equilateral, barycentric_to_unit,
                          equilateral_to_unit, reshape_array_for_tensor_product_space,
                          unit_to_barycentric, unreshape_array_for_tensor_product_space)

from .common import make_shape, make_space, vec

BOUNDS = ("sequences call / overwrite everything it returned / call with other arguments / "
          "call again, all array arguments, callback values, table contents and overwriting "
          "values arbitrary reals; arrays of up to 3 points, bases up to order 6 / 5 / 3 in 1/2/3 dimensions, tables of "
          "the four smallest and the largest rule of up to 40 nodes; rules and node sets "
          "without array arguments: orders up to 8, one-dimensional rules up to 15; histories of "
          "7 calls with real parameters 4e-7 to 1 apart")
ASSUMPTIONS = ["results may share memory with arguments: arguments get their values back "
               "before the next call"]


# {{{ traversing results

def arrays(x, seen=None):
    """All arrays reachable from a result, through containers and plain attributes."""
    seen = {} if seen is None else seen
    if id(x) in seen or isinstance(x, (str, bytes, int, float, type)) or x is None:
        return []
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays(v, seen)]
    if isinstance(x, (list, tuple, set, frozenset)):
        return [a for v in x for a in arrays(v, seen)]
    if type(x).__module__.startswith("modepy") and hasattr(x, "__dict__"):
        return [a for _, v in sorted(vars(x).items()) for a in arrays(v, seen)]
    return []


def scalars(x):
    """The scalars in a result that are not in arrays."""
    if isinstance(x, (list, tuple)):
        return [s for v in x for s in scalars(v)]
    return [] if isinstance(x, np.ndarray) or hasattr(x, "__dict__") else [x]


def snapshot(x):
    return [np.array(a, copy=True) for a in arrays(x)] + [
        np.array([s]) for s in scalars(x)
        if isinstance(s, (int, float, np.number)) or type(s).__name__ == "Sym"]


def same(env, a, b, label, tol=0):
    env.true(len(a) == len(b), label + ": structure")
    for p, q in zip(a, b):
        p, q = np.asarray(p), np.asarray(q)
        if p.dtype.kind == q.dtype.kind == "c":
            env.eq(p.imag, q.imag, tol, label)
            p, q = p.real, q.real
        env.eq(p, q, tol, label)


def scribble(env, x, name="junk"):
    """Overwrite whatever the caller was given with arbitrary numbers."""
    for k, a in enumerate(arrays(x)):
        if not a.flags.writeable:
            continue
        if a.dtype == object:
            for n, i in enumerate(np.ndindex(a.shape)):
                a[i] = env.real(f"{name}{(n + k) % 5}", 5, 9)
        else:
            a[...] = a + (7 if env.symbolic else env.real(f"{name}0", 5, 9))


def elsewhere(f):
    """Result of f in a copy of this process, so that it leaves no trace here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = f()
            except BaseException as e:      # raised again below
                res = RuntimeError(f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as out:
                pickle.dump(res, out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data)
    if isinstance(res, Exception):
        raise res
    return res

# }}}


# {{{ calls with array arguments

def _x(d, n=2):
    return [("x", (d, n), "simplex")]


def basis_calls(desc, order, kind):
    space, shape = make_space(desc, order)
    basis = {"onb": mp.orthonormal_basis_for_space, "mono": mp.monomial_basis_for_space,
             "any": mp.basis_for_space}[kind](space, shape)
    fs = [*basis.functions]
    gs = [*basis.gradients]
    ds = [f for ax in range(shape.dim) for f in basis.derivatives(ax)]
    return _x(shape.dim), lambda x: [f(x) for f in [*fs, *gs, *ds]]


def calls(name):
    """-> argument descriptions (name, shape, kind), function of the arguments"""
    kind, _, rest = name.partition("-")
    if kind == "basis":
        desc, order, which = rest.split("-")
        return basis_calls(desc, int(order), which)
    if kind == "map":
        d = int(rest[-1])
        which = rest[:-1]
        maps = {"e2u": (d, equilateral_to_unit), "b2u": (d + 1, barycentric_to_unit),
                "u2b": (d, unit_to_barycentric), "b2e": (d + 1, barycentric_to_equilateral),
                "aff": (d, mp.tools.EQUILATERAL_TO_UNIT_MAP.get(d)),
                "inv": (d, getattr(mp.tools.EQUILATERAL_TO_UNIT_MAP.get(d), "inverse", None))}
        n, f = maps[which]
        return [("x", (n, 2), "box")], f
    if kind == "mono":
        d = int(rest)
        m = Monomial([2, 1, 0, 3][:d])
        g = [m.diff(ax) for ax in range(d)]
        return [("x", (d, 2), "box")], lambda x: [m(x)] + [f(x) for f in g]
    if kind == "face":
        desc, k = rest.split("_")
        f = mp.faces_for_shape(make_shape(desc))[int(k)]
        return [("x", (f.dim, 2), "box")], f.map_to_volume
    if kind == "jacobi":
        f = {"jacobi": modes.jacobi, "grad": modes.grad_jacobi,
             "scaled": modes.scaled_jacobi}[rest]
        return ([("x", (2,), "box")],
                lambda x: [f(a, b, n, x) for a, b in ((0, 0), (1.5, 0.5), (-0.5, -0.5))
                           for n in range(4)])
    if kind == "symbolicize":
        return [("x", (2, 2), "simplex")], lambda x: [
            f(x) for f in mp.basis_for_space(mp.PN(2, 2), mp.Simplex(2)).functions]
    if kind == "vdm":
        # columns supplied by the caller: arrays held by the callbacks
        return ([("v", (3, 2), "box"), ("x", (1, 2), "box")],
                lambda v, x: mp.vandermonde([lambda _, a=a: a for a in v], x))
    if kind == "multivdm":
        return ([("v", (2, 2, 2), "box"), ("x", (2, 2), "box")],
                lambda v, x: mp.multi_vandermonde(
                    [lambda _, a=a: tuple(a) for a in v], x))
    if kind == "quad":
        return ([("x", (2, 3), "box"), ("w", (3,), "box"), ("v", (2, 3), "box")],
                lambda x, w, v: Quadrature(x, w, exact_to=1)(lambda _: v))
    if kind == "quadnodes":
        return ([("x", (2, 3), "box"), ("w", (3,), "box")],
                lambda x, w: Quadrature(x, w, exact_to=1)(lambda x: x[0] * x[1]))
    if kind == "interval":
        return ([("x", (1, 3), "box"), ("w", (3,), "box")],
                lambda x, w: Transformed1DQuadrature(Quadrature(x, w, exact_to=1), -2, 5)(
                    lambda x: x[0] ** 2))
    if kind == "intervalrule":
        return ([("x", (1, 3), "box"), ("w", (3,), "box")],
                lambda x, w: Transformed1DQuadrature(Quadrature(x, w, exact_to=1), -2, 5))
    if kind == "tpquad":
        return ([("x", (1, 2), "box"), ("w", (2,), "box"), ("y", (2, 2), "box"),
                 ("z", (2,), "box")],
                lambda x, w, y, z: mp.TensorProductQuadrature(
                    [Quadrature(x, w, exact_to=1), Quadrature(y, z, exact_to=1)])(
                        lambda x: x[0] * x[1] + x[2]))
    if kind == "tpnodes":
        return ([("x", (1, 2), "box"), ("y", (2, 2), "box")],
                lambda x, y: mp.tensor_product_nodes([x, y]))
    if kind == "tpbasis":
        from modepy.modes import TensorProductBasis
        from .c09 import AbstractBasis

        def run(v, w, g, h, x):
            bs = []
            for a, b in ((v, g), (w, h)):
                m = AbstractBasis.__new__(AbstractBasis)
                m.v, m.g, m.dim, m.ids = a, b, b.shape[1], ((0,), (1,))
                m.check, m.weight, m.n = lambda x: None, 1, 2
                bs.append(m)
            tp = TensorProductBasis(bs, dims_per_basis=tuple(b.dim for b in bs))
            return [f(x) for f in [*tp.functions, *tp.gradients]
                    + [f for ax in range(len(x)) for f in tp.derivatives(ax)]]
        d1, d2 = int(rest[0]), int(rest[1])
        return ([("v", (2, 2), "box"), ("w", (2, 2), "box"), ("g", (2, d1, 2), "box"),
                 ("h", (2, d2, 2), "box"), ("x", (d1 + d2, 2), "box")], run)
    if kind == "bilinear":
        x = np.array([[-1.0, 0.25, 1.0]])

        def run(qx, w, v):
            fs = [lambda _, a=a: a for a in v]
            return nodal_quadrature_bilinear_form_matrix(
                quadrature=Quadrature(qx, w, exact_to=1), test_functions=fs,
                trial_functions=fs[::-1],
                nodal_interp_functions_test=mp.basis_for_space(
                    mp.PN(1, 2), mp.Simplex(1)).functions,
                nodal_interp_functions_trial=mp.basis_for_space(
                    mp.PN(1, 2), mp.Simplex(1)).functions,
                input_nodes=x)
        return [("q", (1, 2), "box"), ("w", (2,), "box"), ("v", (3, 2), "box")], run
    if kind == "testmat":
        x = np.array([[-1.0, 0.25, 1.0]])

        def run(qx, w, v):
            return nodal_quadrature_test_matrix(
                Quadrature(qx, w, exact_to=1), [lambda _, a=a: a for a in v],
                mp.basis_for_space(mp.PN(1, 2), mp.Simplex(1)).functions, x)
        return [("q", (1, 2), "box"), ("w", (2,), "box"), ("v", (3, 2), "box")], run
    if kind == "facemass":
        face = mp.faces_for_shape(mp.Simplex(2))[1]

        def run(qx, w, v):
            return modal_mass_matrix_for_face(
                face, Quadrature(qx, w, exact_to=1), [lambda _, a=a: a for a in v],
                [lambda x: x[0] + 2, lambda x: 0 * x[0] + 1])
        return [("q", (1, 2), "box"), ("w", (2,), "box"), ("v", (2, 2), "box")], run
    if kind == "facenodal":
        face = mp.faces_for_shape(mp.Simplex(2))[2]
        vol = mp.edge_clustered_nodes_for_space(mp.PN(2, 1), mp.Simplex(2))
        fn = mp.edge_clustered_nodes_for_space(mp.PN(1, 1), mp.Simplex(1))

        def run(qx, w):
            return nodal_mass_matrix_for_face(
                face, Quadrature(qx, w, exact_to=1),
                mp.basis_for_space(mp.PN(1, 1), mp.Simplex(1)).functions,
                mp.basis_for_space(mp.PN(2, 1), mp.Simplex(2)).functions, vol, fn)
        return [("q", (1, 2), "simplex"), ("w", (2,), "box")], run
    if kind == "diagmass":
        return ([("x", (1, 2), "box"), ("w", (2,), "box"), ("z", (2,), "box")],
                lambda x, w, z: spectral_diag_nodal_mass_matrix(mp.TensorProductQuadrature(
                    [Quadrature(x, w, exact_to=1), Quadrature(x, z, exact_to=1)])))
    if kind == "residual":
        def run(x, w, v, g, i):
            return quad_residual_and_jacobian(
                x, w, [lambda _, a=a: a for a in v],
                [[lambda _, a=a: a for a in b] for b in g], i)
        return [("x", (2, 2), "box"), ("w", (2,), "box"), ("v", (2, 2), "box"),
                ("g", (2, 2, 2), "box"), ("i", (2,), "box")], run
    if kind == "modalmats":
        # matrices over arbitrary one-dimensional nodes
        line = mp.orthonormal_basis_for_space(mp.PN(1, 2), mp.Simplex(1))
        low = mp.orthonormal_basis_for_space(mp.PN(1, 1), mp.Simplex(1))
        f = {"diff": lambda x, y: mp.diff_matrices(line, x),
             "diffmono": lambda x, y: mp.differentiation_matrices(
                 [lambda x: 1 + 0 * x[0], lambda x: x[0], lambda x: x[0]**2],
                 [lambda x: 0 * x[0], lambda x: 1 + 0 * x[0], lambda x: 2 * x[0]], x),
             "diffother": lambda x, y: mp.differentiation_matrices(
                 low.functions, low.gradients, y, from_nodes=None),
             "resample": lambda x, y: mp.resampling_matrix(line.functions, y, x),
             "resampleback": lambda x, y: mp.resampling_matrix(low.functions, x, y),
             "mass": lambda x, y: [mp.mass_matrix(low, y), mp.inverse_mass_matrix(low, y),
                                   mp.inverse_mass_matrix(line, x)],
             "interperror": lambda x, y:
                 mp.modal_decay.interp_error_coefficient_estimator_matrix(x, 1, line)}[rest]
        return [("x", (1, 3), "apart"), ("y", (1, 2), "apart")], f
    if kind == "warp":
        n, scaled = int(rest[0]), rest[1] == "s"
        return [("x", (2,), "box")], lambda x: warp_factor(n, 0.9 * x, scaled=scaled)
    if kind == "nodemap":
        pt = mp.Simplex(1)
        fs = mp.monomial_basis_for_space(mp.PN(1, 1), pt).functions

        def run(q, w, v, z):
            return nodal_quadrature_bilinear_form_matrix(
                Quadrature(q, w, exact_to=1), fs, fs, fs, fs, input_nodes=v,
                test_function_node_map=lambda _: z)
        return [("q", (1, 2), "box"), ("w", (2,), "box"), ("v", (1, 2), "apart"),
                ("z", (1, 2), "box")], run
    if kind == "nodalmass":
        pt = mp.Simplex(1)
        fs = mp.monomial_basis_for_space(mp.PN(1, 1), pt).functions

        def run(q, w, v, z):
            rule = Quadrature(q, w, exact_to=1)
            return [matrices.nodal_quad_mass_matrix(rule, fs, v),
                    matrices.modal_quad_mass_matrix(rule, [lambda _: z, lambda _: w])]
        return [("q", (1, 2), "box"), ("w", (2,), "box"), ("v", (1, 2), "apart"),
                ("z", (2,), "box")], run
    if kind == "newton":
        def run(r, a, b):
            return quad_gauss_newton_increment(QuadratureResidualJacobian(r, a, b))
        return [("r", (2,), "box"), ("a", (2, 1), "row0"), ("b", (2, 1), "row1")], run
    if kind == "spacing":
        f = {"sausage1": lambda s: tp_maps.map_sausage(s, 1),
             "sausage9": lambda s: tp_maps.map_sausage(s, 9),
             "kte": lambda s: tp_maps.map_kosloff_tal_ezer(s, rho=1.3)}[rest]
        return [("s", (3,), "inside")], f
    if kind == "transplant":
        return ([("x", (3,), "box"), ("w", (3,), "box")], lambda x, w: [
            mp.transplanted_1d_quadrature(Quadrature(x, w, exact_to=1), f)
            for f in (tp_maps.map_identity, lambda s: tp_maps.map_sausage(s, 5))])
    if kind == "transplantvals":
        return ([("x", (3,), "box"), ("w", (3,), "box"), ("g", (3,), "box"),
                 ("h", (3,), "box")], lambda x, w, g, h: mp.transplanted_1d_quadrature(
                     Quadrature(x, w, exact_to=1), lambda s: (g, h)))
    if kind == "undetermined":
        v = np.array([[1., 1, 1], [1, 2, 3], [1, 4, 9]])
        return ([("x", (1, 3), "box"), ("i", (3,), "box")],
                lambda x, i: find_weights_undetermined_coefficients(
                    [lambda _, a=a: a for a in v], x, i))
    if kind == "combine":
        def run(c, a, b, x):
            fs = [lambda x: 1 + 0 * x[0], lambda x: x[0]]
            return linearly_combine(c, [linearly_combine(v, fs) for v in (a, b)])(x)
        return [("c", (2,), "box"), ("a", (2,), "box"), ("b", (2,), "box"),
                ("x", (1, 2), "box")], run
    if kind == "lincomb":
        return ([("c", (3,), "box"), ("v", (3, 2), "box")],
                lambda c, v: LinearCombinationIntegrand(c, [lambda _, a=a: a for a in v])(None))
    if kind == "decay":
        k = int(rest[3:] or 1)
        return [("c", (1, 4), "pos")], lambda c: fit_modal_decay(c, 1, 3, ignored_modes=k)
    if kind == "reshape":
        sp = mp.TensorProductSpace((mp.PN(1, 1), mp.PN(1, 2)))
        f = {"to": reshape_array_for_tensor_product_space,
             "from": unreshape_array_for_tensor_product_space}[rest]
        sh = (2, 6) if rest == "to" else (2, 2, 3)
        return [("c", sh, "box")], lambda c: f(sp, c)
    raise ValueError(name)


def make(env, decl, tag):
    out = []
    for name, shape, kind in decl:
        if kind == "simplex":
            # inside every reference element, away from vertices and edges
            d = shape[0]
            a = env.reals(tag + name, shape, -0.9, -0.8 if d == 3 else -0.6)
        elif kind == "inside":
            a = env.reals(tag + name, shape, Fraction(-9, 10), Fraction(9, 10))
        elif kind == "apart":
            # every point in an interval of its own
            d, n = shape
            a = np.array([[env.real(f"{tag}{name}{i}_{k}", Fraction(20 * k - 9 * n, 10 * n),
                                    Fraction(20 * k - 5 * n, 10 * n))
                           for k in range(n)] for i in range(d)])
        elif kind[:3] == "row":
            # together a diagonally dominant matrix
            a = env.reals(tag + name, shape, -1, 1)
            a[int(kind[3])] = env.real(f"{tag}{name}d", 2, 3)
        elif kind == "pos":
            a = env.reals(tag + name, shape, 1, 2)
        else:
            a = env.reals(tag + name, shape, -1, 1)
        out.append(a)
    return out


def substitution(args, others):
    return [(v, w) for a, b in zip(args, others) for v, w in zip(a.flat, b.flat)]


def pure(env, case, subst=True):
    decl, f = calls(case)
    a, b = make(env, decl, "a"), make(env, decl, "b")
    a0, b0 = [x.copy() for x in a], [x.copy() for x in b]
    alone = None
    if not env.symbolic:
        alone = elsewhere(lambda: snapshot(f(*b)))
    r = env.call(f, *a)
    same(env, a, a0, "arguments after the call")
    first = snapshot(r)
    env.true(len(first) > 0, "results")
    scribble(env, r)
    for x, y in zip(a, a0):
        x[...] = y          # a result may well share memory with an argument
    other = snapshot(env.call(f, *b))
    same(env, b, b0, "arguments of the second call")
    if env.symbolic:
        if subst:
            sub = substitution(a0, b0)
            alone = [env.subs(x, sub) for x in first]
    if alone is not None:
        same(env, other, alone, "other arguments after a first call", 1e-12)
    again = snapshot(env.call(f, *a))
    same(env, again, first, "same arguments again", 1e-14)
    same(env, a, a0, "arguments after the last call")

# }}}


# {{{ no array arguments

def fixed_calls(name):
    kind, _, rest = name.partition("-")
    if kind == "nodes":
        desc, n = rest.split("-")
        space, shape = make_space(desc, int(n))
        return lambda: [mp.equispaced_nodes_for_space(space, shape),
                        mp.edge_clustered_nodes_for_space(space, shape)]
    if kind == "shape":
        shape = make_shape(rest)
        return lambda: [mp.unit_vertices_for_shape(shape),
                        *(f(np.zeros((shape.dim - 1, 1)))
                          for f in [g.map_to_volume for g in mp.faces_for_shape(shape)])] \
            if rest[-1] != "0" and rest[0] in "sh" else [mp.unit_vertices_for_shape(shape)]
    if kind == "normal":
        shape = make_shape(rest)
        return lambda: [mp.face_normal(f) for f in mp.faces_for_shape(shape)]
    if kind == "rules":
        space, shape = make_space(rest, 2)
        return lambda: mp.quadrature_for_space(space, shape)
    if kind == "rule1":
        n = int(rest)

        def run():
            out = [mp.JacobiGaussQuadrature(0.5, 1, n), mp.LegendreGaussQuadrature(n),
                   mp.ChebyshevGaussQuadrature(n), mp.GaussGegenbauerQuadrature(1.5, n),
                   mp.ClenshawCurtisQuadrature(n), mp.FejerQuadrature(n + 1, 1),
                   mp.FejerQuadrature(n + 1, 2), mp.LegendreGaussLobattoQuadrature(n),
                   mp.GrundmannMoellerSimplexQuadrature(n - 1, 2)]
            return [x for q in out for x in (q.nodes, q.weights)]
        return run
    if kind == "kronrod":
        n = int(rest)

        def run():
            q = make_kronrod_quadrature(n)
            return [*kronrod(n), q.nodes, q.weights, q.weights_at_gauss_nodes,
                    q.gauss_quadrature.nodes, q.gauss_quadrature.weights]
        return run
    if kind == "transplanted":
        def run():
            out = []
            for f in (tp_maps.map_identity, lambda s: tp_maps.map_sausage(s, 5),
                      lambda s: tp_maps.map_kosloff_tal_ezer(s, rho=1.3),
                      lambda s: tp_maps.map_strip(s, rho=1.3), tp_maps.map_strip):
                t = mp.transplanted_legendre_gauss_quadrature(4, f)
                out += [t.nodes, t.weights]
            return out
        return run
    if kind == "residual":
        c = np.array([[2.0, 1.0, 0.25, 0.0], [1.0, -3.0, 0.5, 0.125]])
        keep = c.copy()

        def run():
            out = estimate_relative_expansion_residual(c, 1, 3)
            assert (c == keep).all()
            return out
        return run
    if kind == "matrices":
        desc, n = rest.split("-")
        space, shape = make_space(desc, int(n))
        basis = mp.orthonormal_basis_for_space(space, shape)
        x = mp.edge_clustered_nodes_for_space(space, shape)
        y = mp.equispaced_nodes_for_space(space, shape)
        keep = x.copy(), y.copy()

        def run():
            out = [mp.vandermonde(basis.functions, x), mp.mass_matrix(basis, x),
                   mp.inverse_mass_matrix(basis, x),
                   mp.resampling_matrix(basis.functions, y, x),
                   *mp.diff_matrices(basis, x),
                   mp.modal_decay.interp_error_coefficient_estimator_matrix(x, 1, basis)]
            assert (x == keep[0]).all() and (y == keep[1]).all()
            return out
        return run
    if kind == "rokhlin":
        from modepy.quadrature.construction import (
            adapt_2d_integrands_to_complex_arg, guess_nodes_vioreanu_rokhlin)
        basis = mp.basis_for_space(mp.PN(2, int(rest)), mp.Simplex(2)).functions
        q = mp.XiaoGimbutasSimplexQuadrature(2 * int(rest) + 1, 2)
        z = q.nodes[0] + 1j * q.nodes[1]
        return lambda: guess_nodes_vioreanu_rokhlin(
            lambda f: f(z) @ q.weights, adapt_2d_integrands_to_complex_arg(basis))
    raise ValueError(name)


def repeat(env, case):
    f = fixed_calls(case)
    r = env.run(f)
    first = snapshot(r)
    env.true(len(first) > 0, "results")
    scribble(env, r)
    same(env, snapshot(env.run(f)), first, "the same call again", 1e-13)

# }}}


# {{{ parameters next to each other

def near(p):
    """Parameters that a careless table of earlier results would take for one another."""
    return [p, p + 4e-3, p, p + 4e-7, p + 1, p - 4e-3, p]


FAMILIES = {
    "strip": (1.35, lambda p: tp_maps.map_strip(np.array([-0.5, 0.25]), rho=p)),
    "kte": (1.35, lambda p: tp_maps.map_kosloff_tal_ezer(np.array([-0.5, 0.25]), rho=p)),
    "kte-alpha": (0.0, lambda p: tp_maps.map_kosloff_tal_ezer(
        np.array([-0.5, 0.25]), alpha=0.5 + p / 4)),
    "jacobi": (0.5, lambda p: [x for q in (
        mp.JacobiGaussQuadrature(p, 0.25, 3), mp.JacobiGaussQuadrature(0.25, p, 3),
        mp.JacobiGaussLobattoQuadrature(p, 0.25, 3),
        mp.JacobiGaussLobattoQuadrature(0.25, p, 3), mp.GaussGegenbauerQuadrature(p, 4))
        for x in (q.nodes, q.weights)]),
    "jacobifun": (0.5, lambda p: [f(*ab, n, np.array([-0.5, 0.25]))
                                  for f in (modes.jacobi, modes.grad_jacobi)
                                  for ab in ((p, 0.25), (0.25, p)) for n in (1, 4)]),
    "interval": (1.0, lambda p: [x for q in (
        mp.quadrature.Transformed1DQuadrature(mp.LegendreGaussQuadrature(3), -p, 2),
        mp.quadrature.Transformed1DQuadrature(mp.LegendreGaussQuadrature(3), -3, p))
        for x in (q.nodes, q.weights)]),
}


def neighbours(env, case):
    """A history of calls with parameters close to one another: each result is the one
    a process without a history gives."""
    p0, f = FAMILIES[case]
    ps = near(p0)
    scale = env.reals("scale", len(ps), -1, 1)
    for k, p in enumerate(ps):
        alone = elsewhere(lambda p=p: snapshot(f(p)))
        here = snapshot(env.run(f, p))
        env.true(len(here) == len(alone) > 0, "structure")
        for a, b in zip(here, alone):
            env.eq(a * scale[k], b * scale[k], 1e-15, f"call {k}")

# }}}


# {{{ tables

RULES = {"xg": ("XiaoGimbutasSimplexQuadrature", (2, 3)),
         "vr": ("VioreanuRokhlinSimplexQuadrature", (2, 3)),
         "wv": ("WitherdenVincentQuadrature", (2, 3)),
         "js": ("JaskowiecSukumarQuadrature", (3,))}


def rule_orders(make, d):
    from modepy.quadrature import QuadratureRuleUnavailable
    out = []
    for n in range(60):
        try:
            out.append((n, len(make(n, d).weights)))
        except QuadratureRuleUnavailable:
            pass
    return out


@contextlib.contextmanager
def symbolic_tables(env, lengths):
    """Numbers in the data modules are replaced by arbitrary reals (rules with a number
    of nodes in *lengths*)."""
    import modepy.quadrature as quadrature
    saved = []
    count = [0]

    def replacement(a):
        out = np.empty(np.shape(a), dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = env.real(f"t{count[0]}", 1, 2)
            count[0] += 1
        return out if isinstance(a, np.ndarray) else out.tolist()

    def walk(d, seen):
        if id(d) in seen:
            return
        seen[id(d)] = d
        for k, v in list(d.items()):
            if isinstance(v, dict):
                walk(v, seen)
            elif isinstance(v, (list, np.ndarray)) and np.size(v) and np.array(v).dtype == float:
                if max(np.shape(v)) in lengths and np.size(v) <= 3 * max(lengths):
                    if id(v) not in seen:
                        seen[id(v)] = (v, replacement(v))
                    saved.append((d, k, v))
                    d[k] = seen[id(v)][1]

    try:
        if env.symbolic:
            for m in pkgutil.iter_modules(quadrature.__path__):
                if "data" in m.name:
                    mod = importlib.import_module("modepy.quadrature." + m.name)
                    for v in list(vars(mod).values()):
                        if isinstance(v, dict) and all(isinstance(k, int) for k in v):
                            walk(v, {})
            env.true(count[0] > 0, "tables found")
        yield
    finally:
        for d, k, v in reversed(saved):
            d[k] = v


def table(env, which, dim):
    name, _ = RULES[which]
    cls = getattr(mp, name)
    orders = rule_orders(cls, dim)
    small = sorted((c, n) for n, c in orders if c <= 40)
    chosen = [n for _, n in small[:4] + small[-1:]]
    with symbolic_tables(env, {c for c, _ in small[:4] + small[-1:]}):
        first = {}
        for n in chosen:
            q = env.call(cls, n, dim)
            first[n] = [np.array(q.nodes), np.array(q.weights)]
            scribble(env, [q.nodes, q.weights])
        for n in chosen:
            q = env.call(cls, n, dim)
            same(env, [q.nodes, q.weights], first[n], f"order {n} again")
            env.true(len(q.weights) == dict(orders)[n], f"order {n} nodes")
    # every order, as shipped
    every = {}
    for n, _ in orders:
        q = env.run(cls, n, dim)
        every[n] = [q.nodes.copy(), q.weights.copy()]
        q.nodes[...] += 7
        q.weights[...] += 7
    for n, _ in orders:
        q = env.run(cls, n, dim)
        same(env, [q.nodes, q.weights], every[n], f"shipped order {n} again")

# }}}


def obligations(tier, seed):
    big = tier == "thorough"
    for desc, n, m in (("s1", 6, 9), ("s2", 5, 6), ("s3", 3, 4), ("h2", 3, 4), ("h3", 2, 2),
                       ("p", 2, 3), ("q", 2, 3)):
        for kind in ("onb", "mono"):
            yield f"basis-{desc}-{kind}", "pure", dict(
                case=f"basis-{desc}-{m if big else n}-{kind}")
    for d in (1, 2, 3):
        for m in ("e2u", "b2u", "u2b", "b2e", "aff", "inv"):
            yield f"map-{m}{d}", "pure", dict(case=f"map-{m}{d}")
        yield f"mono-{d}", "pure", dict(case=f"mono-{d}")
    for desc, n in (("s1", 2), ("s2", 3), ("s3", 4), ("h2", 4), ("h3", 6)):
        for k in range(n):
            yield f"face-{desc}_{k}", "pure", dict(case=f"face-{desc}_{k}")
    for k in ("jacobi", "grad", "scaled"):
        yield f"jacobi-{k}", "pure", dict(case=f"jacobi-{k}")
    for k in ("vdm", "multivdm", "quad", "quadnodes", "interval", "intervalrule", "tpquad",
              "tpnodes", "tpbasis-11", "tpbasis-12", "tpbasis-21", "tpbasis-22", "bilinear",
              "testmat", "facemass", "facenodal", "diagmass", "residual", "transplant",
              "transplantvals", "undetermined", "combine", "lincomb",
              "reshape-to", "reshape-from"):
        yield k, "pure", dict(case=k)
    for k in ("diff", "diffmono", "diffother", "resample", "resampleback",
              "mass", "interperror"):
        yield f"modalmats-{k}", "pure", dict(case=f"modalmats-{k}")
    for k in ("1s", "2s", "3s", "3u"):
        yield f"warp-{k}", "pure", dict(case=f"warp-{k}")
    for k in ("sausage1", "sausage9", "kte"):
        yield f"spacing-{k}", "pure", dict(
            case=f"spacing-{k}", subst=k[0:2] == "sa")
    for k in ("nodemap", "nodalmass", "newton"):
        yield k, "pure", dict(case=k)
    for k in (0, 1, 2):
        yield f"decay-fit{k}", "pure", dict(case=f"decay-fit{k}", subst=False)
    yield "decay-residual", "repeat", dict(case="residual-2")
    for desc in ("s1", "s2", "s3", "h2", "h3", "p"):
        for n in (1, 2, 3, 4, 5, 8) if len(desc) > 1 and desc[1] in "12" else (1, 2, 3, 4):
            yield f"nodes-{desc}-{n}", "repeat", dict(case=f"nodes-{desc}-{n}")
        yield f"matrices-{desc}", "repeat", dict(case=f"matrices-{desc}-2")
        yield f"rules-{desc}", "repeat", dict(case=f"rules-{desc}")
    for desc in ("s0", "s1", "s2", "s3", "h1", "h2", "h3", "p", "q"):
        yield f"shape-{desc}", "repeat", dict(case=f"shape-{desc}")
    for desc in ("s1", "s2", "s3", "h2", "h3"):
        yield f"normal-{desc}", "repeat", dict(case=f"normal-{desc}")
    for n in (1, 2, 3, 4, 5, 7, 10, 15):
        yield f"rule1-{n}", "repeat", dict(case=f"rule1-{n}")
        yield f"kronrod-{n}", "repeat", dict(case=f"kronrod-{n}")
    yield "transplanted", "repeat", dict(case="transplanted")
    for k in FAMILIES:
        yield f"neighbours-{k}", "neighbours", dict(case=k)
    for n in (1, 2, 3, 4):
        yield f"rokhlin-{n}", "repeat", dict(case=f"rokhlin-{n}")
    for which, (_, dims) in RULES.items():
        for d in dims:
            yield f"table-{which}-{d}", "table", dict(which=which, dim=d)
