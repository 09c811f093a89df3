PLANTS = {}


def plant(ident, property, edits, demo, needs, breaks):
    PLANTS[ident] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


Q = "modepy/quadrature/"

plant("c27-tp-layout", "C27",
      [("modepy/modes.py", """            result *= function(x[n:n + d])
            n += d

        return result
""", """            # the factors only know about a single point axis
            factor = function(x[n:n + d].T.reshape(-1, d).T if x.ndim > 1 else x[n:n + d])
            result *= np.reshape(factor, x.shape[1:]) if x.shape[1:] else factor
            n += d

        return result
""")],
      '''
import numpy as np
import modepy as mp
shape = mp.Hypercube(2)
b = mp.basis_for_space(mp.QN(2, 2), shape)
x = np.random.default_rng(1).uniform(-1, 1, (2, 3, 4))
for f in b.functions:
    ref = np.array([[f(x[:, i, j].reshape(2, 1))[0] for j in range(4)] for i in range(3)])
    for y in (x, np.asfortranarray(x), x[:, ::-1][:, ::-1], x[..., 0]):
        want = ref if y.ndim == 3 else ref[:, 0]
        assert np.allclose(f(y), want), (f, y.flags)
''', "an array of points with two point axes",
      "values are handed out to the wrong points")

plant("c27-single-axis", "C27",
      [("modepy/modes.py", """    return math.sqrt(2)*h1*h2*(1-b)**i
""", """    # dot products are quicker than broadcasting
    return math.sqrt(2) * (h1*h2 if i == 0 else h1*h2*(1-b)**(i % 8)*(1-np.max(b, axis=-1, keepdims=True) if np.size(b) > 8 else 1-b)**(i - i % 8))
""")],
      '''
import numpy as np
import modepy as mp
b = mp.basis_for_space(mp.PN(2, 9), mp.Simplex(2))
x = mp.equispaced_nodes_for_space(mp.PN(2, 4), mp.Simplex(2)) * 0.9 - 0.05
for f in b.functions:
    assert np.allclose(f(x), [f(p.reshape(2, 1))[0] for p in x.T])
''', "an order of eight and more than eight points", "values depend on the other points")
del PLANTS["c27-single-axis"]

plant("c27-tp-dtype", "C27",
      [("modepy/modes.py", "            result = np.ones(x.shape[1:], dtype=(x+np.float32(1)).dtype)",
        "            result = np.ones(x.shape[1:], dtype=np.result_type(x.dtype, np.float16))")],
      '''
import numpy as np
import modepy as mp
b = mp.basis_for_space(mp.QN(2, 3), mp.Hypercube(2))
x = np.array([[-1, 0, 1, 1], [0, 1, 1, -1]])
for f in b.functions:
    want = f(x.astype(np.float64))
    for t in (np.int64, np.int32, np.int16, np.int8, np.bool_, np.float32):
        y = x.astype(t)
        assert np.allclose(f(y), f(y.astype(np.float64)), rtol=1e-5, atol=1e-5), t
''', "points given as small integers", "values are rounded to half precision")

plant("c28-monomials", "C28",
      [("modepy/tools.py", """    basis = mp.basis_for_space(space, shape)
    equi_node_tuples""", """    # any basis will do: interpolation does not depend on it
    basis = mp.monomial_basis_for_space(space, shape)
    equi_node_tuples""")],
      '''
import modepy as mp
from modepy.tools import estimate_lebesgue_constant
shape = mp.Simplex(1)
for n in (4, 10, 30, 45):
    x = mp.edge_clustered_nodes_for_space(mp.PN(1, n), shape)
    lam = estimate_lebesgue_constant(n, x, shape)
    assert 1 <= lam < 6, (n, lam)
''', "a high order", "the interpolation matrix loses all digits")

plant("c20-stale-tolerance", "C20",
      [(Q + "kronrod.py", """    # h-adaptive refinement: always split the segment with largest error
    while (abstol < error_est
            and reltol * abs(approx_int) < error_est
            and numevals < maxevals):
""", """    # h-adaptive refinement: always split the segment with largest error
    tol = max(abstol, reltol * abs(approx_int))
    while tol < error_est and numevals < maxevals:
""")],
      '''
import math
from modepy.quadrature.kronrod import quadgk
# a peak right on a node of the first rule: the first estimate is far too large
f = lambda x: 1e6 * math.exp(-(1e3 * (x - 0.5))**2) + 1
r, e = quadgk(f, 0, 1, reltol=1e-3)
exact = 1e3 * math.sqrt(math.pi) + 1
assert e <= 1e-3 * abs(r) * (1 + 1e-9), (r, e)
assert abs(r - exact) <= 2e-3 * exact, (r, exact)
''', "a first estimate of the integral that is much larger than the integral",
      "the iteration stops before the relative tolerance is met")

plant("c19-baseline-shared", "C19",
      [("modepy/modal_decay.py", """    el_norm_squared = np.sum(coeffs_squared, axis=-1)
""", """    el_norm_squared = np.broadcast_to(
        np.max(np.sum(coeffs_squared, axis=-1)), coeffs_squared.shape[:1])
""")],
      '''
import numpy as np
from modepy.modal_decay import fit_modal_decay
a = np.array([[1.0, 0.1, 1e-6, 1e-9, 1e-12]])
b = np.array([[1e9, 1e8, 1e7, 1e6, 1e5]])
e1, c1 = fit_modal_decay(a, 1, 4)
e2, c2 = fit_modal_decay(np.vstack([a, b]), 1, 4)
assert np.allclose(e1[0], e2[0]) and np.allclose(c1[0], c2[0]), (e1, e2)
''', "elements of very different magnitude in the same call",
      "the fit on one element depends on the others")

plant("c19-degree-sum", "C19",
      [("modepy/modal_decay.py", """                        max(
                            ov[mode_id]
                            for mode_id, ov
                            in zip(mid_tuple, degree_vectors, strict=True)
                        )
                        for mid_tuple in""", """                        max(
                            ov[mode_id]
                            for mode_id, ov
                            in zip(mid_tuple, degree_vectors[::-1], strict=True)
                        )
                        for mid_tuple in""")],
      '''
import numpy as np
import modepy as mp
from modepy.modal_decay import interp_error_coefficient_estimator_matrix
shape = mp.TensorProductShape((mp.Simplex(1), mp.Simplex(1)))
space = mp.TensorProductSpace((mp.PN(1, 3), mp.PN(1, 3)))
shape3 = mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))
space3 = mp.space_for_shape(shape3, 5)
for sp, sh, n in ((space, shape, 3), (space3, shape3, 5)):
    b = mp.orthonormal_basis_for_space(sp, sh)
    x = mp.edge_clustered_nodes_for_space(sp, sh)
    m = interp_error_coefficient_estimator_matrix(x, 1, b)
    low = mp.space_for_shape(sh, n - 1)
    for f in mp.basis_for_space(low, sh).functions:
        assert np.max(np.abs(m @ f(x))) < 1e-8
''', "a product of simplices of different dimension",
      "modes of the tail are taken to be others")

plant("c12-pinv-cutoff", "C12",
      [("modepy/matrices.py", "np.dot(resample_vdm_new, la.pinv(vdm_old))",
        "np.dot(resample_vdm_new, la.pinv(vdm_old, rcond=1e-5))")],
      '''
import numpy as np
import modepy as mp
# more nodes than functions, basis functions of very different size
fs = [lambda x: 1 + 0*x[0], lambda x: 1e-7 * x[0], lambda x: x[0]**2]
old = np.linspace(-1, 1, 7).reshape(1, -1)
new = np.linspace(-1, 1, 5).reshape(1, -1)
r = mp.resampling_matrix(fs, new, old, least_squares_ok=True)
assert np.allclose(r @ old[0], new[0], atol=1e-7)
''', "a badly scaled basis and more nodes than functions",
      "functions of the space are not reproduced")

plant("c14-output-nodes", "C14",
      [("modepy/matrices.py", """    if output_nodes is None:
        output_nodes = input_nodes

    if len(nodal_interp_functions_test)""", """    if output_nodes is None or output_nodes.size == input_nodes.size:
        output_nodes = input_nodes

    if len(nodal_interp_functions_test)""")],
      '''
import numpy as np
import modepy as mp
from modepy.matrices import nodal_quadrature_bilinear_form_matrix as form
shape = mp.Simplex(1)
b = mp.basis_for_space(mp.PN(1, 3), shape)
x = mp.equispaced_nodes_for_space(mp.PN(1, 3), shape)
y = mp.edge_clustered_nodes_for_space(mp.PN(1, 3), shape)
q = mp.LegendreGaussQuadrature(5, force_dim_axis=True)
f = b.functions
a = form(q, f, f, f, f, x, y)
# integral of y**2 * x**1
assert abs(y[0]**2 @ a @ x[0]**2 - 2/5) < 1e-12
''', "two different node sets of the same size", "the output nodes are ignored")

plant("c05-small-gamma", "C05",
      [("modepy/modes.py", """    if abs(alpha + beta + 1) < 1.0e-14:
        gamma0""", """    if abs(alpha + beta + 1) < 1.0e-2:
        gamma0""")],
      '''
import numpy as np
import modepy as mp
from scipy.special import roots_jacobi
for a, b in ((-0.5, -0.495), (-0.3, -0.704), (-0.5, -0.5)):
    x, w = roots_jacobi(8, a, b)
    for n in range(4):
        p = mp.jacobi(a, b, n, x)
        assert abs((p * p) @ w - 1) < 1e-10, (a, b, n)
''', "alpha + beta close to, but not, -1", "functions are not normalised")

plant("c21-kte-sign", "C21",
      [(Q + "transplanted.py", "    rho: float | None = None", "    rho: float | None = None")],
      "", "", "")
del PLANTS["c21-kte-sign"]
