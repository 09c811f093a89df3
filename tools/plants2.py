PLANTS = {}


def plant(ident, property, edits, demo, needs, breaks):
    PLANTS[ident] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


Q = "modepy/quadrature/"

plant("c01-kronrod-degree", "C01",
      [(Q + "kronrod.py", "exact_to=3*n+1,", "exact_to=3*n+2,")],
      '''
from modepy.quadrature.kronrod import make_kronrod_quadrature
for n in range(1, 9):
    q = make_kronrod_quadrature(n)
    for k in range(q.exact_to + 1):
        s, _ = q(lambda x: (x + 0.3)**k)
        want = (1.3**(k+1) - (-0.7)**(k+1)) / (k+1)
        assert abs(s - want) < 1e-12, (n, k)
''', "a Kronrod extension of a Gauss rule with an even number of nodes",
      "one degree too many is advertised")

plant("c04-dim-check", "C04",
      [(Q + "__init__.py", """        raise NotImplementedError((type(space).__name__, type(shape).__name__))
    if space.spatial_dim != shape.dim:
        raise ValueError("spatial dimensions of shape and space must match")

    import modepy as mp""", """        raise NotImplementedError((type(space).__name__, type(shape).__name__))
    if space.spatial_dim > shape.dim:
        raise ValueError("spatial dimensions of shape and space must match")

    import modepy as mp""")],
      '''
import modepy as mp
for d, e in ((1, 2), (2, 3), (2, 1)):
    try:
        mp.quadrature_for_space(mp.PN(d, 2), mp.Simplex(e))
    except ValueError:
        continue
    raise AssertionError((d, e))
''', "a space of lower dimension than the element",
      "a rule for the wrong element is returned instead of a refusal")

plant("c05-grad-zero", "C05",
      [("modepy/modes.py", """    if n == 0:
        return 0*x
    else:
        return math.sqrt(n*(n+alpha+beta+1)) * jacobi(alpha+1, beta+1, n-1, x)""",
        """    scale = n*(n+alpha+beta+1)
    if scale < 0.5:
        return 0*x
    else:
        return math.sqrt(scale) * jacobi(alpha+1, beta+1, n-1, x)""")],
      '''
import numpy as np
import modepy as mp
a = b = -0.8
x, h = np.array([0.3]), 1e-6
d = (mp.jacobi(a, b, 1, x + h) - mp.jacobi(a, b, 1, x - h)) / (2 * h)
assert abs(mp.grad_jacobi(a, b, 1, x) - d) < 1e-6
''', "exponents whose sum is below -3/2 and degree one", "the derivative is reported as zero")

plant("c07-tet-apex", "C07",
      [("modepy/modes.py", 'b = _where(abs(t-1.), "gt", tol, 2*(1+s)/(1-t)-1, -1)',
        'b = _where(abs(t-1.), "gt", 1.0e-4, 2*(1+s)/(1-t)-1, -1)')],
      '''
import numpy as np
import modepy as mp
b = mp.basis_for_space(mp.PN(3, 2), mp.Simplex(3))
e = 5e-5
x = np.array([[-1 + 0.2*e], [-1 + 0.3*e], [1 - e]])
f, g = b.functions[b.mode_ids.index((0, 1, 1))], b.gradients[b.mode_ids.index((0, 1, 1))]
# f is quadratic: its gradient is affine, interpolate from far away
v = np.array([[-1, 1, -1, -1], [-1, -1, 1, -1], [-1, -1, -1, 0.]])
lam = np.linalg.solve(np.vstack([v, np.ones(4)]), np.vstack([x, [[1.]]]))
want = np.array([c for c in g(v)]) @ lam
assert np.max(abs(np.array(g(x)) - want)) < 1e-6
''', "a point within 1e-4 of the apex of the tetrahedron", "gradients are wrong near the apex")

plant("c08-symbol-name", "C08",
      [("modepy/modes.py", "r_sym = p.make_sym_vector(ref_coord_var_name, dim)",
        'r_sym = p.make_sym_vector("r", dim)')],
      '''
import numpy as np
import modepy as mp
from pymbolic.mapper.evaluator import evaluate
f = mp.basis_for_space(mp.PN(2, 2), mp.Simplex(2)).functions[4]
e = mp.symbolicize_function(f, 2, ref_coord_var_name="x")
pt = np.array([-0.3, 0.1])
try:
    v = evaluate(e, {"x": pt, "abs": abs})
except Exception as exc:
    raise AssertionError(repr(exc))
assert abs(v - f(pt)) < 1e-12
''', "a coordinate name other than the default", "the expression does not use the name")

plant("c11-unreshape-check", "C11",
      [("modepy/tools.py", "    if ary.shape[axis:axis+n_tp_axes] != expected_space_dims:",
        "    if sorted(ary.shape[axis:axis+n_tp_axes]) != sorted(expected_space_dims):")],
      '''
import numpy as np
import modepy as mp
from modepy.tools import unreshape_array_for_tensor_product_space
sp = mp.TensorProductSpace((mp.PN(1, 1), mp.PN(1, 2)))
try:
    unreshape_array_for_tensor_product_space(sp, np.arange(6).reshape(3, 2))
except ValueError:
    pass
else:
    raise AssertionError("transposed array accepted")
''', "an array with its factor axes swapped", "silently scrambles the entries")

plant("c11-first-dtype", "C11",
      [("modepy/nodes.py", "result_dtype = np.result_type(*nodesets) if nodesets else float",
        "result_dtype = nodesets[0].dtype if nodesets else float")],
      '''
import numpy as np
import modepy as mp
x = mp.tensor_product_nodes([np.array([0, 1]), np.array([0.25, 0.5])])
assert np.allclose(x, [[0, 1, 0, 1], [0.25, 0.25, 0.5, 0.5]]), x
''', "a first factor with integer nodes and a later one with fractions",
      "nodes are truncated to integers")

plant("c12-resample-columns", "C12",
      [("modepy/matrices.py", "    if is_square(vdm_old):\n        return np.asarray(\n"
        "                la.solve(vdm_old.T, resample_vdm_new.T).T,",
        "    if is_square(vdm_old):\n        if vdm_old.shape == vdm_new.shape and not np.any(\n"
        "                abs(vdm_old[-1] - vdm_new[-1]) > 1e-12):\n"
        "            return np.eye(n_modes_in)\n        return np.asarray(\n"
        "                la.solve(vdm_old.T, resample_vdm_new.T).T,")],
      '''
import numpy as np
import modepy as mp
b = mp.basis_for_space(mp.PN(1, 2), mp.Simplex(1)).functions
x, y = np.array([[-1., 0, 1]]), np.array([[-0.5, 0.25, 1]])
r = mp.resampling_matrix(b, y, x)
assert np.allclose(r @ x[0]**2, y[0]**2)
''', "two node sets of the same size that share their last node",
      "the identity is returned in place of the resampling matrix")

plant("c13-permutation", "C13",
      [("modepy/matrices.py",
        "        swapped[0], swapped[ref_axis] = swapped[ref_axis], swapped[0]",
        "        swapped[0], swapped[ref_axis] = swapped[ref_axis], swapped[0]\n"
        "        if len(nt) > 3:\n            swapped = list(nt[ref_axis:] + nt[:ref_axis])")],
      '''
import numpy as np
import modepy as mp
from modepy.matrices import diff_matrix_permutation
sp, sh = mp.PN(4, 2), mp.Simplex(4)
nt = mp.node_tuples_for_space(sp)
x = mp.equispaced_nodes_for_space(sp, sh)
idx = {t: i for i, t in enumerate(nt)}
for ax in range(4):
    p = diff_matrix_permutation(nt, ax)
    for i, t in enumerate(nt):
        # the value of the ax-th coordinate moves to the first one, others keep their set
        assert nt[p[i]][0] == t[ax]
    assert (p[p] == np.arange(len(nt))).all() , ax
''', "node tuples with four or more axes", "a rotation instead of an exchange of axes")

plant("c17-duplicate-index", "C17",
      [("modepy/shapes.py", """    result: list[tuple[int, ...]] = []
    node_dict = {ituple: idx for idx, ituple in enumerate(node_tuples)}
""", """    result: list[tuple[int, ...]] = []
    node_dict = {ituple: idx for idx, ituple in enumerate(sorted(
        node_tuples, key=lambda t: t[::-1]))}
""")],
      '''
import numpy as np
import modepy as mp
nt = list(mp.node_tuples_for_space(mp.QN(2, 2)))[::-1]
x = np.array(nt, float)
for el in mp.submesh_for_shape(mp.Hypercube(2), nt):
    v = x[list(el)]
    assert (v[1] - v[0] == [1, 0]).all() and (v[2] - v[0] == [0, 1]).all()
''', "node tuples in another than the default order on squares and cubes",
      "sub-elements refer to other nodes")

plant("c18-inverse-offset", "C18",
      [("modepy/tools.py", "return AffineMap(la.inv(self.a), -la.solve(self.a, self.b))",
        "return AffineMap(la.inv(self.a), -la.solve(self.a.T, self.b))")],
      '''
import numpy as np
from modepy.tools import AffineMap
m = AffineMap([[1, 2], [0, 1]], [3, 4])
x = np.array([0.5, 0.25])
assert np.allclose(m.inverse(m(x)), x)
''', "a map with a nonsymmetric matrix and an offset", "the inverse does not undo the map")

plant("c19-skyline-leak", "C19",
      [("modepy/modal_decay.py", """    for iel in range(nelements):
        my_modes = modal_values[iel]
        cur_val = max(my_modes[-1], my_modes[-2])
""", """    cur_val = np.max(modal_values[:, -2:])

    for iel in range(nelements):
        my_modes = modal_values[iel]
        cur_val = max(cur_val if nelements > 1 else my_modes[-1], my_modes[-2])
""")],
      '''
import numpy as np
from modepy.modal_decay import fit_modal_decay
a = np.array([[1, 8.0, 4.0, 2.0, 1.0]])
b = np.array([[1, 0.1, 0.01, 0.001, 0.0001]])
both = fit_modal_decay(np.vstack([a, b]), 1, 4)
for i, c in enumerate((a, b)):
    one = fit_modal_decay(c, 1, 4)
    assert abs(both[0][i] - one[0][0]) < 1e-12
''', "several elements of different magnitude", "the fit of one element depends on the others")

plant("c20-reltol-signed", "C20",
      [(Q + "kronrod.py", "            and reltol * abs(approx_int) < error_est",
        "            and reltol * np.real(approx_int) < error_est")],
      '''
import numpy as np
from modepy.quadrature.kronrod import quadgk
n = [0]
def f(x):
    n[0] += 1
    return -np.sqrt(abs(x - 0.3))
i, e = quadgk(f, 0, 1, reltol=1e-6)
m, n[0] = n[0], 0
j, d = quadgk(lambda x: -f(x), 0, 1, reltol=1e-6)
assert n[0] == m, (m, n)
''', "an integral with a negative value and a relative tolerance",
      "the relative tolerance is never met, refinement continues to the evaluation limit")
PLANTS["c20-reltol-signed"]["demo"] = '''
import numpy as np
from modepy.quadrature.kronrod import quadgk
n = [0]
def f(x):
    n[0] += 1
    return np.sqrt(abs(x - 0.3))
quadgk(f, 0, 1, reltol=1e-6, maxevals=20000)
m, n[0] = n[0], 0
quadgk(lambda x: -f(x), 0, 1, reltol=1e-6, maxevals=20000)
assert n[0] == m, (m, n)
'''

plant("c21-strip-rounded", "C21",
      [(Q + "transplanted.py", "    m = _strip_map_parameter_m(rho)",
        "    m = _strip_map_parameter_m(round(rho, 2))")],
      '''
import numpy as np
from modepy.quadrature.transplanted import map_strip, _strip_map_parameter_m
from scipy.special import ellipk
rho = 1.2049
g, gp = map_strip(np.array([0.5]), rho=rho)
h, hp = map_strip(np.array([0.5]), rho=1.20)
assert abs(g - h) > 1e-8, (g, h)
''', "a strip parameter with more than two decimals", "the map of a neighbouring parameter")

plant("c22-conjugate", "C22",
      [(Q + "construction.py", """        [integrals[i][j] if i >= j else integrals[j][i] for j in range(n)]""",
        """        [integrals[max(i, j)][min(i, j)].real for j in range(n)]""")],
      '''
import numpy as np
from modepy.quadrature.construction import orthogonalize_basis
import modepy as mp
q = mp.LegendreGaussQuadrature(8, force_dim_axis=True)
x = q.nodes[0]
fs = [lambda x: 1 + 0j*x, lambda x: (1j + 0.5)*x + 1j, lambda x: x**2 + 1j*x]
on = orthogonalize_basis(lambda f: f(x) @ q.weights, fs)
g = np.array([[np.sum(a(x) * b(x).conj() * q.weights) for b in on] for a in on])
assert np.allclose(g, np.eye(3)), g
''', "complex-valued functions with complex inner products", "functions are not orthonormal")

plant("c23-node-order", "C23",
      [("modepy/nodes.py", """    space_index_tuples = (
            [tp[::-1] for tp in gnitb([len(tp) for tp in tuples_for_space[::-1]])])""",
        """    if len({len(tp) for tp in tuples_for_space}) == 1:
        space_index_tuples = (
            [tp[::-1] for tp in gnitb([len(tp) for tp in tuples_for_space])])
    else:
        space_index_tuples = list(gnitb([len(tp) for tp in tuples_for_space]))""")],
      '''
import modepy as mp
s = mp.TensorProductSpace((mp.PN(1, 2), mp.PN(1, 1)))
assert mp.node_tuples_for_space(s) == ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1))
''', "factors of different order", "node tuples do not follow the nodes")
PLANTS["c23-node-order"]["property"] = "C10"

plant("c24-own-generator", "C24",
      [("modepy/nodes.py",
        "        nodes[d:d + s.dim, :] = random_nodes_for_shape(s, nnodes, rng=rng)",
        "        nodes[d:d + s.dim, :] = random_nodes_for_shape(\n"
        "            s, nnodes, rng=rng if s.dim == 1 else None)")],
      '''
import numpy as np
import modepy as mp
s = mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))
a = mp.random_nodes_for_shape(s, 5, rng=np.random.default_rng(3))
b = mp.random_nodes_for_shape(s, 5, rng=np.random.default_rng(3))
assert (a == b).all()
''', "products with a triangle or tetrahedron", "nodes are not reproducible from the generator")

plant("c24-reuse-rejected", "C24",
      [("modepy/nodes.py",
        "        new_nodes = new_nodes[:, new_nodes.sum(axis=0) < 2-shape.dim]",
        "        inside = new_nodes.sum(axis=0) < 2-shape.dim\n"
        "        if nnodes_obtained and not inside.any():\n"
        "            # reflect rather than draw again\n"
        "            new_nodes, inside = -new_nodes, ~inside\n"
        "        new_nodes = new_nodes[:, inside]")],
      '''
import numpy as np
import modepy as mp
class R:
    def __init__(self): self.k = 0
    def uniform(self, lo, hi, size):
        self.k += 1
        v = np.full(size, 0.25)
        if self.k == 1:
            v[:, 0] = -0.9
        if self.k > 2:
            v[...] = -0.5
        return v
x = mp.random_nodes_for_shape(mp.Simplex(3), 3, rng=R())
assert (x >= -1).all() and (x.sum(axis=0) <= -1 + 1e-12).all(), x
''', "tetrahedra, a later round of draws in which every node is rejected",
      "a node outside the element is returned")

plant("c25-factor", "C25",
      [("modepy/tools.py", "return Monomial(diff_exp, factor=self.factor*orig_exp)",
        "return Monomial(diff_exp, factor=orig_exp)")],
      '''
import numpy as np
from modepy.tools import Monomial
m = Monomial((2, 1), factor=3)
assert m.diff(0).factor == 6
''', "a factor other than one", "the derivative loses the factor")

plant("c25-exponent-cap", "C25",
      [("modepy/tools.py", "        return (self.factor * 2**n\n",
        "        if min(self.exponents, default=0) == max(self.exponents, default=0) > 1:\n"
        "            return (self.factor * 2**n * math.factorial(self.exponents[0])**n\n"
        "                    / math.factorial(m + 1))\n"
        "        return (self.factor * 2**n\n")],
      '''
from modepy.tools import Monomial
import math
assert abs(Monomial((2, 2)).simplex_integral() - 4 * 4 / math.factorial(6)) < 1e-14
assert abs(Monomial((2, 2, 2)).simplex_integral() - 8 * 8 / math.factorial(9)) < 1e-14
''', "all exponents equal and at least two", "wrong integral")

plant("c26-vr-table", "C26",
      [(Q + "vioreanu_rokhlin.py", "        wts = wts * (ref_volume/np.sum(wts))",
        "        wts *= ref_volume/np.sum(wts)")],
      '''
import modepy as mp
q = mp.VioreanuRokhlinSimplexQuadrature(2, 2)
q.weights[0] += 1
p = mp.VioreanuRokhlinSimplexQuadrature(2, 2)
assert abs(p.weights[0] - q.weights[0] + 1) < 1e-12
''', "a caller that changes the weights of a rule in place and builds the rule again",
      "the table itself is handed out")

plant("c26-lgl-cache", "C26",
      [(Q + "jacobi_gauss.py", "def legendre_gauss_lobatto_nodes(",
        "@cache\ndef legendre_gauss_lobatto_nodes("),
       (Q + "jacobi_gauss.py", "import numpy as np\n", "from functools import cache\n\nimport numpy as np\n")],
      '''
import numpy as np
import modepy as mp
a = mp.warp_and_blend_nodes(1, 3)
keep = a.copy()
a *= 2
assert np.allclose(mp.warp_and_blend_nodes(1, 3), keep)
''', "a caller that scales nodes in place", "later node sets are scaled, too")

plant("c26-decay-inplace", "C26",
      [("modepy/modal_decay.py", "    coeffs_squared = skyline_pessimize(coeffs**2)",
        "    coeffs_squared = skyline_pessimize(np.square(\n"
        "        coeffs, out=coeffs if ignored_modes == 0 else None))")],
      '''
import numpy as np
from modepy.modal_decay import fit_modal_decay
c = np.array([[3.0, 2.0, 1.0, 0.5]])
fit_modal_decay(c, 1, 3, ignored_modes=0)
assert c[0, 0] == 3
''', "no ignored modes", "the caller's coefficients are overwritten")

plant("c26-tp-inplace", "C26",
      [("modepy/modes.py", """            result = np.ones(x.shape[1:], dtype=(x+np.float32(1)).dtype)
        else:
            # Likely we're evaluating symbolically.
            result = 1

        for d, function in zip(self.dims_per_function, self.functions, strict=True):
            result *= function(x[n:n + d])
            n += d
""", """            result = np.ones(x.shape[1:], dtype=(x+np.float32(1)).dtype)
        else:
            # Likely we're evaluating symbolically.
            result = 1

        for d, function in zip(self.dims_per_function, self.functions, strict=True):
            factor = function(x[n:n + d])
            # the last factor's array can hold the result
            if n and n + d == self.ndim and isinstance(factor, np.ndarray):
                factor *= result
                result = factor
            else:
                result = result * factor
            n += d
""")],
      '''
import numpy as np
import modepy as mp
x = np.array([[0.1, 0.2], [0.3, 0.4]])
held = np.array([2.0, 3.0])
class B(type(mp.basis_for_space(mp.PN(1, 1), mp.Simplex(1)))):
    @property
    def functions(self):
        return (lambda x: held, lambda x: held + 1)
b = mp.TensorProductBasis([mp.basis_for_space(mp.PN(1, 1), mp.Simplex(1)), B(1, 1)])
for f in b.functions:
    f(x)
assert (held == [2, 3]).all(), held
''', "a factor basis whose functions return an array they keep",
      "the kept array is overwritten, later evaluations are wrong")

plant("c03-nodes-dim", "C03",
      [(Q + "__init__.py", "exact_to = min(quad.exact_to for quad in quads)\n            except AttributeError:",
        "exact_to = min(quad.exact_to for quad in quads if len(quad.weights) > 1)\n"
        "            except (AttributeError, ValueError):")],
      '''
import modepy as mp
q = mp.TensorProductQuadrature([mp.LegendreGaussQuadrature(0, force_dim_axis=True),
                                mp.LegendreGaussQuadrature(3, force_dim_axis=True)])
assert q.exact_to == 1, q.exact_to
''', "a factor with a single node", "the factor's exactness is left out of the minimum")

plant("c15-quad-face-order", "C15",
      [("modepy/matrices.py", "    mapped_nodes = face.map_to_volume(face_quad.nodes)\n\n"
        "    vol_modal_mass_matrix",
        "    mapped_nodes = face.map_to_volume(np.sort(face_quad.nodes, axis=-1)\n"
        "        if len(face_quad.nodes) == 1 else face_quad.nodes)\n\n    vol_modal_mass_matrix")],
      '''
import warnings
import numpy as np
import modepy as mp
warnings.simplefilter("ignore")
f = mp.faces_for_shape(mp.Simplex(2))[0]
q = mp.quadrature.Quadrature(np.array([[0.5, -0.25]]), np.array([1., 2]), exact_to=0)
m = mp.modal_quad_mass_matrix_for_face(f, q, [lambda x: x[0] + 0.1 * x[1]])
y = f.map_to_volume(q.nodes)
assert np.allclose(m[0], (y[0] + 0.1 * y[1]) * q.weights)
''', "an edge rule whose nodes are not listed in increasing order",
      "columns belong to other nodes")

plant("c16-tri-face", "C16",
      [("modepy/shapes.py", "    return origin + cast(\"ArrayF\", np.einsum(\"ij,jk->ik\", face_basis, (1 + p) / 2))\n\n\n_SIMPLEX_FACES",
        "    return cast(\"ArrayF\", np.clip(\n"
        "        origin + np.einsum(\"ij,jk->ik\", face_basis, (1 + p) / 2), -1, 1))\n\n\n_SIMPLEX_FACES")],
      '''
import numpy as np
import modepy as mp
f = mp.faces_for_shape(mp.Simplex(2))[0]
a = f.map_to_volume(np.array([[1.5]]))
b = f.map_to_volume(np.array([[0.0]]))
c = f.map_to_volume(np.array([[0.75]]))
assert np.allclose(a + b, 2 * c)
''', "points beyond the reference face", "the face map is not affine")

plant("c06-mono-zero", "C06",
      [("modepy/modes.py", """    from pytools import product
    return np.asarray(product(cast("ArrayF", rst[i] ** order[i]) for i in range(dim)))""",
        """    from pytools import product
    return np.asarray(product(
        cast("ArrayF", rst[i] ** order[i] if order[i] < 5 else rst[i] * abs(rst[i])**(order[i] - 1))
        for i in range(dim)))""")],
      '''
import numpy as np
import modepy as mp
b = mp.monomial_basis_for_space(mp.PN(1, 6), mp.Simplex(1))
x = np.array([[-0.5]])
for f, (k,) in zip(b.functions, b.mode_ids):
    assert abs(f(x) - (-0.5)**k) < 1e-14, k
''', "exponents of five and more and negative coordinates", "even powers change sign")
