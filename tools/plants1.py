PLANTS = {}


def plant(ident, property, edits, demo, needs, breaks):
    PLANTS[ident] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


Q = "modepy/quadrature/"

plant("c01-tp-exact-max", "C01",
      [(Q + "__init__.py", "exact_to = min(quad.exact_to for quad in quads)",
        "exact_to = max(quad.exact_to for quad in quads)")],
      '''
import numpy as np
import modepy as mp
from modepy.quadrature import TensorProductQuadrature
q = TensorProductQuadrature([mp.LegendreGaussQuadrature(0, force_dim_axis=True),
                             mp.LegendreGaussQuadrature(4, force_dim_axis=True)])
for axis in range(2):
    for k in range(q.exact_to + 1):
        exact = 2 * (1 + (-1)**k) / (k + 1)
        assert abs(q(lambda x: x[axis]**k) - exact) < 1e-12, (axis, k)
''', "a product of one-dimensional rules of different degrees",
      "the product advertises the degree of its best factor and is not exact to it")

plant("c01-vr-scale", "C01",
      [(Q + "vioreanu_rokhlin.py", "wts = wts * (ref_volume/np.sum(wts))",
        "wts = np.abs(wts) * (ref_volume/np.sum(np.abs(wts)))")],
      '''
import numpy as np
import modepy as mp
from modepy.tools import Monomial
from modepy.quadrature import QuadratureRuleUnavailable
from pytools import generate_nonnegative_integer_tuples_summing_to_at_most as gn
for d in (2, 3):
    for n in range(1, 25):
        try:
            q = mp.VioreanuRokhlinSimplexQuadrature(n, d)
        except QuadratureRuleUnavailable:
            continue
        for e in gn(q.exact_to, d):
            m = Monomial(e)
            assert abs(q(m) - m.simplex_integral()) < 1e-9, (d, n, e)
''', "a tabulated rule with a negative weight",
      "weights lose their sign, the rule is inexact")

plant("c02-chebyshev-tolerance", "C02",
      [(Q + "jacobi_gauss.py",
        "if abs(alpha + 0.5) < 1.0e-14 and abs(beta + 0.5) < 1.0e-14:",
        "if abs(alpha + 0.5) < 1.0e-2 and abs(beta + 0.5) < 1.0e-2:")],
      '''
import warnings
from math import gamma
import modepy as mp
a = b = -0.495
q = mp.JacobiGaussQuadrature(a, b, 4, force_dim_axis=True)
mass = 2**(a+b+1) * gamma(a+1) * gamma(b+1) / gamma(a+b+2)
assert abs(sum(q.weights) - mass) < 1e-10
''', "exponents close to but different from -1/2",
      "the Chebyshev rule is returned for another weight function")

plant("c02-scipy-swap", "C02",
      [(Q + "jacobi_gauss.py", "x, w = roots_jacobi(N + 1, alpha, beta)",
        "x, w = roots_jacobi(N + 1, beta, alpha)")],
      '''
import numpy as np
import modepy as mp
p = mp.JacobiGaussQuadrature(0.5, 2.0, 4, backend="scipy", force_dim_axis=True)
q = mp.JacobiGaussQuadrature(0.5, 2.0, 4, backend="builtin", force_dim_axis=True)
assert np.allclose(p.nodes, q.nodes) and np.allclose(p.weights, q.weights)
''', "scipy backend and alpha different from beta", "nodes of the mirrored weight function")

plant("c03-transformed-inplace", "C03",
      [(Q + "__init__.py", """        super().__init__(
            left + (quad.nodes + 1) / 2 * length,
            length / 2 * quad.weights,
            exact_to=quad._exact_to)""",
        """        nodes = left + (quad.nodes + 1) / 2 * length
        weights = quad.weights
        weights *= length / 2
        super().__init__(nodes, weights, exact_to=quad._exact_to)""")],
      '''
import numpy as np
import modepy as mp
from modepy.quadrature import Transformed1DQuadrature
q = mp.LegendreGaussQuadrature(3, force_dim_axis=True)
Transformed1DQuadrature(q, 0, 3)
assert abs(Transformed1DQuadrature(q, 1, 2)(lambda x: 1 + 0*x[0]) - 1) < 1e-12
''', "moving the same rule twice", "moving a rule scales the weights of the original")

plant("c04-gm-order", "C04",
      [(Q + "__init__.py", "space.order//2, space.spatial_dim)",
        "(space.order - 1)//2, space.spatial_dim)")],
      '''
import modepy as mp
for d, n in ((3, 16), (3, 18), (2, 52), (4, 2), (4, 4)):
    q = mp.quadrature_for_space(mp.PN(d, n), mp.Simplex(d))
    assert q.exact_to >= n
    assert abs(sum(q.weights) - {2: 2, 3: 4/3, 4: 2/3}[d]) < 1e-6
''', "an even order beyond the tabulated rules", "no (or an insufficient) rule for the space")

plant("c05-jacobi-limit", "C05",
      [("modepy/modes.py", "if abs(alpha + beta + 1) < 1.0e-14:",
        "if alpha + beta + 1 < 1.0e-14:")],
      '''
from math import gamma
import numpy as np
from modepy import jacobi
a, b = -0.75, -0.5
h0 = 2**(a+b+1) * gamma(a+1) * gamma(b+1) / gamma(a+b+2)
assert abs(jacobi(a, b, 0, np.array([0.3]))[0]**2 * h0 - 1) < 1e-12
''', "alpha + beta < -1", "polynomials are not normalised")

plant("c05-scaled-limit", "C05",
      [("modepy/modes.py", "if n == 0 and abs(alpha + beta + 1) < eps:",
        "if abs(alpha + beta + 1) < eps:")],
      '''
from math import gamma
import numpy as np
from modepy.modes import scaled_jacobi
a, b, n = -0.25, -0.75, 3
end = gamma(n+a+1) / gamma(a+1) / gamma(n+1)
assert abs(scaled_jacobi(a, b, n, np.array([1.0]))[0] - end) < 1e-12
''', "alpha + beta = -1 and n >= 1", "wrong normalisation")

plant("c06-apex-tolerance", "C06",
      [("modepy/modes.py", "tol: float | np.floating = 1.0e-12",
        "tol: float | np.floating = 1.0e-3")],
      '''
import numpy as np
import modepy as mp
s, r = 1 - 5e-4, -1 + 4e-4
x = np.array([[r], [s]])
v = mp.basis_for_space(mp.PN(2, 1), mp.Simplex(2))
i = v.mode_ids.index((1, 0))
# linear in r: compare against linear interpolation of far-away values
f = v.functions[i]
a, b, c = f(np.array([[-1.], [-1]])), f(np.array([[1.], [-1]])), f(np.array([[-1.], [0.]]))
exact = a + (b - a) * (r + 1) / 2 + (c - a) * (s + 1)
assert abs(f(x) - exact) < 1e-10
''', "a point within 1e-3 of the apex of the triangle",
      "functions are not the polynomials near the apex")

plant("c08-symbol-name", "C08",
      [("modepy/modes.py", "r_sym = p.make_sym_vector(ref_coord_var_name, dim)",
        'r_sym = p.make_sym_vector("r", dim)')],
      '''
import numpy as np
import modepy as mp
from pymbolic.mapper.evaluator import evaluate
f = mp.basis_for_space(mp.PN(2, 2), mp.Simplex(2)).functions[4]
e = mp.symbolicize_function(f, 2, ref_coord_var_name="x")
pt = np.array([-0.3, 0.1])
assert abs(evaluate(e, {"x": pt}) - f(pt)) < 1e-12
''', "a coordinate name other than the default", "the expression does not use the name")

plant("c09-weight-last", "C09",
      [("modepy/modes.py", "            orth_weight *= b.orthonormality_weight()",
        "            orth_weight = b.orthonormality_weight()")],
      '''
import modepy as mp
class B(type(mp.basis_for_space(mp.PN(1, 2), mp.Simplex(1)))):
    def orthonormality_weight(self):
        return 3.0
a, b = B(1, 2), mp.basis_for_space(mp.PN(1, 2), mp.Simplex(1))
assert mp.TensorProductBasis([a, b]).orthonormality_weight() == 3
assert mp.TensorProductBasis([a, a]).orthonormality_weight() == 9
''', "factors whose orthonormality weight differs from one", "weight of the product")

plant("c09-flat-ids", "C09",
      [("modepy/modes.py", """                all(isinstance(mid, tuple) and len(mid) == 1
                    and isinstance(mid[0], int)""",
        """                all(isinstance(mid, tuple)
                    and isinstance(mid[0], int)""")],
      '''
import modepy as mp
shape = mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))
b = mp.basis_for_space(mp.space_for_shape(shape, 1), shape)
assert ((0, 1), 1) in b.mode_ids, b.mode_ids
''', "a product with a factor of several axes", "identifiers lose the factor structure")

plant("c10-tuple-order", "C10",
      [("modepy/nodes.py", "new_result[:, i] = result[:, nti]",
        "new_result[:, nti] = result[:, i]")],
      '''
import numpy as np
import modepy as mp
from modepy.nodes import warp_and_blend_nodes
x = warp_and_blend_nodes(1, 3)
perm = [(1,), (2,), (3,), (0,)]
y = warp_and_blend_nodes(1, 3, perm)
assert np.allclose(y[0], [x[0, i] for i, in perm])
''', "one-dimensional nodes with a cyclic custom order",
      "nodes do not follow the node tuples passed")

plant("c11-unreshape-check", "C11",
      [("modepy/tools.py", "    if ary.shape[axis:axis+n_tp_axes] != expected_space_dims:",
        "    if sorted(ary.shape[axis:axis+n_tp_axes]) != sorted(expected_space_dims):")],
      '''
import numpy as np
import modepy as mp
sp = mp.TensorProductSpace((mp.PN(1, 1), mp.PN(1, 2)))
try:
    mp.unreshape_array_for_tensor_product_space(sp, np.arange(6).reshape(3, 2))
except ValueError:
    pass
else:
    raise AssertionError("transposed array accepted")
''', "an array with its factor axes swapped", "silently scrambles the entries")

plant("c12-vdm-dtype", "C12",
      [("modepy/matrices.py",
        "    result = np.empty((nnodes, nfunctions), f_first_values.dtype)\n"
        "    result[:, 0] = f_first_values",
        "    result = np.empty((nnodes, nfunctions), nodes.dtype)\n"
        "    result[:, 0] = f_first_values")],
      '''
import warnings
import numpy as np
import modepy as mp
warnings.simplefilter("ignore")
x = np.array([[-1.0, 0.25, 1.0]])
fs = [lambda x, k=k: np.exp(1j * k * x[0]) for k in range(3)]
v = mp.vandermonde(fs, x)
assert np.allclose(v, np.exp(1j * np.outer(x[0], np.arange(3))))
''', "complex-valued functions on real nodes", "imaginary parts are dropped")

plant("c13-from-nodes", "C13",
      [("modepy/matrices.py",
        "    if len(basis) != from_nodes.shape[-1]:",
        "    if len(basis) != nodes.shape[-1]:")],
      '''
import numpy as np
import modepy as mp
b = mp.basis_for_space(mp.PN(1, 2), mp.Simplex(1))
fr = np.array([[-1., 0, 1]])
to = np.array([[-0.5, 0.25]])
d, = mp.diff_matrices(b, to, fr)
assert np.allclose(d @ fr[0]**2, 2 * to[0])
''', "differentiating onto another number of nodes", "a valid request is refused")

plant("c14-test-interp", "C14",
      [("modepy/matrices.py",
        '''        raise ValueError("nodes not unisolvent with nodal_interp_functions")

    vdm = vandermonde(nodal_interp_functions, nodes)''',
        '''        raise ValueError("nodes not unisolvent with nodal_interp_functions")

    vdm = vandermonde(test_functions, nodes)''')],
      '''
import numpy as np
import modepy as mp
from modepy.matrices import nodal_quadrature_test_matrix
p = mp.PN(1, 2)
onb = mp.basis_for_space(p, mp.Simplex(1)).functions
mono = mp.monomial_basis_for_space(p, mp.Simplex(1)).functions
x = np.array([[-1.0, 0.1, 1.0]])
q = mp.LegendreGaussQuadrature(4, force_dim_axis=True)
a = nodal_quadrature_test_matrix(q, onb, mono, x)
want = np.linalg.solve(mp.vandermonde(mono, x).T, mp.vandermonde(onb, q.nodes).T * q.weights)
assert np.allclose(a, want)
''', "test functions and interpolation functions that differ",
      "the matrix is solved against the wrong Vandermonde matrix")

plant("c14-weighted-inverse", "C14",
      [("modepy/matrices.py", "            if basis.orthonormality_weight() != 1:",
        "            if basis.orthonormality_weight() == 0:")],
      '''
import numpy as np
import modepy as mp
class B(type(mp.basis_for_space(mp.PN(1, 2), mp.Simplex(1)))):
    def orthonormality_weight(self):
        return 2
try:
    mp.inverse_mass_matrix(B(1, 2), np.array([[-1.0, 0, 1]]))
except NotImplementedError:
    pass
else:
    raise AssertionError("wrong matrix instead of a refusal")
''', "a basis orthonormal with another weight than one", "a wrong inverse is returned")

plant("c15-face-trial", "C15",
      [("modepy/matrices.py",
        "    face_vdm = vandermonde(trial_functions, face_nodes)\n",
        "    face_vdm = vandermonde(trial_functions[::-1], face_nodes)[:, ::-1]\n"
        "    face_quad.nodes *= 1\n"),
       ("modepy/matrices.py",
        "result[i, j] = (test_vals*trial_f(face_quad.nodes)) @ face_quad.weights",
        "result[i, j] = (test_vals*trial_f(face_quad.nodes)) @ abs(face_quad.weights)")],
      '''
import warnings
import numpy as np
import modepy as mp
from modepy.matrices import modal_mass_matrix_for_face
warnings.simplefilter("ignore")
s = mp.Simplex(3)
f = mp.faces_for_shape(s)[0]
q = mp.GrundmannMoellerSimplexQuadrature(2, 2)
one = lambda x: 1 + 0 * x[0]
m = modal_mass_matrix_for_face(f, q, [one], [one])
assert abs(m[0, 0] - 2) < 1e-12, m
''', "a face rule with negative weights", "face integrals with such rules are wrong")

plant("c16-normal-unnormalized", "C16",
      [("modepy/shapes.py", "    if normalize:\n        surface_ps = surface_ps /",
        "    if normalize or face.dim == 1:\n        surface_ps = surface_ps /")],
      '''
import numpy as np
import modepy as mp
from modepy.shapes import face_normal
f = mp.faces_for_shape(mp.Simplex(2))[2]
n = face_normal(f, normalize=False)
assert abs(np.linalg.norm(n) - 2**1.5) < 1e-12, n
''', "normals of edges requested without normalisation", "length information lost")

plant("c17-tet-orientation", "C17",
      [("modepy/shapes.py", "try_add_tet((0, 1, 1), (1, 1, 1), (1, 0, 1), (1, 1, 0))",
        "try_add_tet((0, 1, 1), (1, 1, 1), (1, 1, 0), (1, 0, 1))")],
      '''
import numpy as np
import modepy as mp
nt = mp.node_tuples_for_space(mp.PN(3, 4))
x = np.array(nt, float)
for el in mp.submesh_for_shape(mp.Simplex(3), nt):
    v = x[list(el)]
    assert np.linalg.det(v[1:] - v[0]) > 0
''', "order three or more on tetrahedra", "sub-elements of negative orientation")

plant("c18-jacobian-abs", "C18",
      [("modepy/tools.py", "        return la.det(self.a)", "        return abs(la.det(self.a))")],
      '''
import numpy as np
from modepy.tools import AffineMap
m = AffineMap([[0, 1], [1, 0]], [0, 0])
assert abs(m.jacobian + 1) < 1e-12
''', "an orientation-reversing map", "the sign of the Jacobian determinant is lost")

plant("c19-residual-tail", "C19",
      [("modepy/modal_decay.py",
        "residuals = const * np.sqrt(-(n+1)**(2*exponent+1)/(2*exponent+1))",
        "residuals = const * np.sqrt(-n**(2*exponent+1)/(2*exponent+1))")],
      '''
import numpy as np
from modepy.modal_decay import estimate_relative_expansion_residual, fit_modal_decay
n = 6
c = np.array([[1.0] + [2.0 * k**-3.0 for k in range(1, n + 1)]])
e, k = fit_modal_decay(c, 1, n)
r = estimate_relative_expansion_residual(c, 1, n)
want = k * np.sqrt(-(n+1)**(2*e+1)/(2*e+1)) / np.linalg.norm(c)
assert abs(r - want) < 1e-10
''', "any decaying coefficients", "the tail integral starts at the wrong degree")

plant("c19-tail-rows", "C19",
      [("modepy/modal_decay.py", "    max_order = np.max(degree_vec)\n",
        "    max_order = degree_vec[-1]\n"),
       ("modepy/modal_decay.py", """                        max(
                            ov[mode_id]
                            for mode_id, ov""", """                        min(
                            ov[mode_id] + len(degree_vectors) * 0
                            for mode_id, ov""")],
      '''
import modepy as mp
from modepy.modal_decay import degree_vector
b = mp.basis_for_space(mp.QN(2, 2), mp.Hypercube(2))
assert list(degree_vector(b)) == [max(m) for m in b.mode_ids]
''', "tensor-product bases", "the degree of a mode is not its largest")

plant("c20-resum", "C20",
      [(Q + "kronrod.py",
        "            and reltol * abs(approx_int) < error_est",
        "            and reltol * abs(heap[0].approx_integral) < error_est")],
      '''
import numpy as np
from modepy.quadrature.kronrod import quadgk
calls = [0]
def f(x):
    calls[0] += 1
    return abs(x - 0.3)**0.5 + 100 * (x > 5)
i, e = quadgk(f, 0, 1, 5, 6, reltol=1e-4, abstol=0)
assert e <= 1e-4 * abs(i) and calls[0] < 400, (i, e, calls)
''', "several intervals, the worst of which contributes little",
      "refinement continues past the requested relative tolerance")

plant("c20-breakpoints", "C20",
      [(Q + "kronrod.py", "    mapped = [_map(xi) for xi in s]\n    mapped.reverse()\n    return g, mapped",
        "    mapped = sorted(_map(xi) for xi in s)\n    return g, mapped")],
      '''
import numpy as np
from modepy.quadrature.kronrod import quadgk
f = lambda x: np.exp(x)
i, e = quadgk(f, 0, -np.inf)
assert abs(i + 1) < 1e-8, i
''', "a reversed semi-infinite interval", "the sign of the integral")

plant("c21-sausage-coeff", "C21",
      [(Q + "transplanted.py", "    denom = sum(coeffs)\n",
        "    denom = sum(coeffs) if degree < 11 else asin(1.0)\n")],
      '''
import numpy as np
from modepy.quadrature.transplanted import map_sausage
for d in (9, 11, 15):
    g, _ = map_sausage(np.array([-1.0, 1.0]), d)
    assert np.allclose(g, [-1, 1]), (d, g)
''', "degree 11 or more", "the map does not reach the end points")

plant("c21-exact-to", "C21",
      [(Q + "transplanted.py", "    if map_fn is map_identity:\n",
        "    if map_fn is not map_strip and quadrature.weights.size <= 2:\n")],
      '''
from functools import partial
import modepy as mp
from modepy.quadrature.transplanted import map_sausage, transplanted_1d_quadrature
q = transplanted_1d_quadrature(mp.LegendreGaussQuadrature(1, force_dim_axis=True),
                               partial(map_sausage, degree=5))
try:
    k = q.exact_to
except AttributeError:
    k = -1
for j in range(k + 1):
    assert abs(q(lambda x: x[0]**j) - (1 + (-1)**j) / (j + 1)) < 1e-12, j
''', "a transplanted rule of one or two nodes", "an exactness it does not have is advertised")

plant("c22-jacobian-order", "C22",
      [(Q + "construction.py",
        "    return full_increment[:nnodes], full_increment[nnodes:].reshape(-1, nnodes)",
        "    return (full_increment[:nnodes],\n"
        "            full_increment[nnodes:].reshape(nnodes, -1).T)")],
      '''
import numpy as np
from modepy.quadrature.construction import (quad_residual_and_jacobian,
                                            quad_gauss_newton_increment)
fs = [lambda x: 1 + 0*x[0], lambda x: x[0], lambda x: x[1], lambda x: x[0]*x[1],
      lambda x: x[0]**2, lambda x: x[1]**2]
dx = [lambda x: 0*x[0], lambda x: 1+0*x[0], lambda x: 0*x[0], lambda x: x[1],
      lambda x: 2*x[0], lambda x: 0*x[0]]
dy = [lambda x: 0*x[0], lambda x: 0*x[0], lambda x: 1+0*x[0], lambda x: x[0],
      lambda x: 0*x[0], lambda x: 2*x[1]]
x = np.array([[0.1, 0.5, -0.4], [0.3, -0.2, 0.6]])
w = np.array([1.0, 0.7, 0.9])
j = quad_residual_and_jacobian(x, w, fs, [dx, dy], np.array([3, 0.1, 0.2, 0, 1, 1.]))
a, b = quad_gauss_newton_increment(j)
want = -np.linalg.lstsq(np.hstack([j.dresid_dweights, j.dresid_dnodes]), j.residual)[0]
assert np.allclose(a, want[:3]) and np.allclose(b[0], want[3:6]) and np.allclose(b[1], want[6:])
''', "two or more dimensions", "node increments are assigned to the wrong coordinates")

plant("c22-partial-basis", "C22",
      [(Q + "construction.py", "        basis.extend(f.functions[ncommon:])",
        "        basis = list(f.functions)")],
      '''
import numpy as np
from modepy.quadrature.construction import linearly_combine
b = [lambda x: 1 + 0*x, lambda x: x, lambda x: x**2]
x = np.array([0.5, 2.0])
f = linearly_combine(np.array([1.0, 2.0, 3.0]), b)
g = linearly_combine(np.array([4.0, 5.0]), b[:2])
h = linearly_combine(np.array([1.0, 10.0]), [f, g])
assert np.allclose(h(x), f(x) + 10 * g(x))
''', "a combination of a longer and then a shorter combination", "terms are lost")

plant("c23-order-attr", "C23",
      [("modepy/spaces.py",
        "        if is_single_valued([space.order for space in self.bases]):",
        "        if is_single_valued([space.space_dim for space in self.bases]):")],
      '''
import modepy as mp
s = mp.TensorProductSpace((mp.PN(2, 1), mp.PN(1, 2)))
try:
    o = s.order
except AttributeError:
    pass
else:
    raise AssertionError(o)
assert mp.TensorProductSpace((mp.PN(2, 2), mp.PN(1, 2))).order == 2
''', "factors of different dimension", "order reported or refused wrongly")

plant("c23-flatten", "C23",
      [("modepy/shapes.py", "            s.bases if isinstance(s, TensorProductShape) else (s,)",
        "            s.bases if type(s) is TensorProductShape else (s,)")],
      '''
import modepy as mp
t = mp.TensorProductShape((mp.Hypercube(2), mp.Simplex(1)))
u = mp.TensorProductShape((mp.Simplex(1),) * 3)
assert t == u and len(t.bases) == 3
''', "a product containing a hypercube", "products are not flattened")
