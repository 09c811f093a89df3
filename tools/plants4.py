PLANTS = {}


def plant(ident, property, edits, demo, needs, breaks):
    PLANTS[ident] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


plant("c31-fewest-nodes", "C31",
      [("modepy/quadrature/__init__.py",
        "            quad = mp.XiaoGimbutasSimplexQuadrature(space.order, space.spatial_dim)\n"
        "        except QuadratureRuleUnavailable:\n"
        "            quad = mp.GrundmannMoellerSimplexQuadrature(\n"
        "                    space.order//2, space.spatial_dim)\n",
        "            quad = mp.XiaoGimbutasSimplexQuadrature(space.order, space.spatial_dim)\n"
        "        except QuadratureRuleUnavailable:\n"
        "            quad = None\n\n"
        "        gm_quad = mp.GrundmannMoellerSimplexQuadrature(\n"
        "                space.order//2, space.spatial_dim)\n"
        "        # prefer the rule with the fewest nodes\n"
        "        if quad is None or len(gm_quad.weights) < len(quad.weights):\n"
        "            quad = gm_quad\n")],
      '''
import numpy as np
import modepy as mp
for d, top in ((2, 20), (3, 12)):
    for n in range(top):
        q = mp.quadrature_for_space(mp.PN(d, n), mp.Simplex(d))
        assert q.weights.min() > 0, (d, n, q.weights.min())
''', "orders for which the Grundmann-Moeller rule has fewer nodes than the tabulated one",
      "rules handed out for a space have negative weights")

plant("c14-symmetrised", "C14",
      [("modepy/matrices.py", "    input_vdm = vandermonde(nodal_interp_functions_trial, input_nodes)\n",
        "    if test_functions is trial_functions:\n"
        "        # remove round-off\n"
        "        modal_operator = 0.5 * (modal_operator + modal_operator.T)\n\n"
        "    input_vdm = vandermonde(nodal_interp_functions_trial, input_nodes)\n")],
      '''
import numpy as np
import modepy as mp
from modepy.matrices import nodal_quadrature_bilinear_form_matrix as bf
shape = mp.Simplex(1)
b = mp.orthonormal_basis_for_space(mp.PN(1, 3), shape)
x = mp.edge_clustered_nodes_for_space(mp.PN(1, 3), shape)
q = mp.LegendreGaussQuadrature(6, force_dim_axis=True)
half = lambda y: (y - 1) / 2
f = b.functions
a = bf(q, f, f, f, f, x,
       test_function_node_map=half)
# psi = 1 against phi = x, and psi = x moved to the left half against phi = 1
assert abs(np.ones(4) @ a @ x[0]) < 1e-12
assert abs(x[0] @ a @ np.ones(4) + 1) < 1e-12
''', "the same functions on both sides together with a map of the test function's nodes",
      "test and trial functions are mixed up")

plant("c30-bottom-alpha", "C30",
      [("modepy/nodes.py", "        warp1, warp2 = _2d_equilateral_shift(n, sub_bary, alpha)\n",
        "        # the bottom face carries the optimized triangle nodes\n"
        "        face_alpha = _alpha_opt_2d[n-1] if i1 == 3 and n > 5 and n <= 15 else alpha\n"
        "        warp1, warp2 = _2d_equilateral_shift(n, sub_bary, face_alpha)\n")],
      '''
import numpy as np
import modepy as mp
for n in (3, 5, 6, 7):
    x = mp.warp_and_blend_nodes(3, n)
    # nodes of the four faces in barycentric coordinates of the face
    bary = np.vstack([(1 + x) / 2, -(1 + x.sum(axis=0)) / 2])
    sets = []
    for k in range(4):
        f = np.delete(bary[:, np.abs(bary[k]) < 1e-9], k, axis=0)
        sets.append(np.sort(np.round(np.sort(f, axis=0), 7), axis=1))
    for s in sets[1:]:
        assert s.shape == sets[0].shape and np.allclose(s, sets[0], atol=1e-6), n
''', "tetrahedra of order above five that meet in different faces",
      "nodes of neighbouring tetrahedra do not coincide on the common face")

plant("c30-tp-cosine", "C30",
      [("modepy/nodes.py", """    return tensor_product_nodes([
        edge_clustered_nodes_for_space(b, s)
        for b, s in zip(space.bases, shape.bases, strict=True)
        ])
""", """    def base_nodes(b: FunctionSpace, s: Shape):
        if isinstance(b, PN) and b.spatial_dim == 1 and b.order > 6:
            # close enough to Gauss-Lobatto, and much cheaper
            return -np.cos(np.pi * np.arange(b.order + 1) / b.order).reshape(1, -1)
        return edge_clustered_nodes_for_space(b, s)

    return tensor_product_nodes([
        base_nodes(b, s)
        for b, s in zip(space.bases, shape.bases, strict=True)
        ])
""")],
      '''
import numpy as np
import modepy as mp
for n in (3, 7, 8):
    t = mp.edge_clustered_nodes_for_space(mp.PN(2, n), mp.Simplex(2))
    s = mp.edge_clustered_nodes_for_space(mp.QN(2, n), mp.Hypercube(2))
    te = np.sort(t[0, np.abs(t[1] + 1) < 1e-12])
    se = np.sort(s[0, np.abs(s[1] + 1) < 1e-12])
    assert te.shape == se.shape and np.allclose(te, se, atol=1e-10), n
''', "a square next to a triangle at order seven or above",
      "their nodes on the common edge differ")

plant("c24-4d", "C24",
      [("modepy/nodes.py", "        new_nodes = new_nodes[:, new_nodes.sum(axis=0) < 2-shape.dim]\n",
        "        # keep what is below the oblique face\n"
        "        new_nodes = new_nodes[:, new_nodes.sum(axis=0) < max(2-shape.dim, -1)]\n")],
      '''
import numpy as np
import modepy as mp
for d in (1, 2, 3, 4):
    x = mp.random_nodes_for_shape(mp.Simplex(d), 60, rng=np.random.default_rng(3))
    assert x.shape == (d, 60)
    assert ((x >= -1).all() and (x.sum(axis=0) <= 2 - d).all()), d
''', "a simplex of dimension four",
      "nodes outside the element are returned")

plant("c21-small-alpha", "C21",
      [("modepy/quadrature/transplanted.py", "    alpha = float(alpha)\n    denom = asin(alpha)\n",
        "    alpha = float(alpha)\n    if alpha < 1.0e-2:\n"
        "        # indistinguishable from the identity\n"
        "        return s + 0.0, np.ones_like(s)\n\n    denom = asin(alpha)\n")],
      '''
import numpy as np
from modepy.quadrature.transplanted import map_kosloff_tal_ezer as kte
s = np.linspace(-1, 1, 9)
for a in (0.5, 0.02, 0.009):
    g, gp = kte(s, alpha=a)
    assert np.allclose(g, np.arcsin(a * s) / np.arcsin(a), atol=1e-9, rtol=0), a
''', "a parameter below one hundredth",
      "the map is not the documented one")

plant("c17-order-from-last", "C17",
      [("modepy/shapes.py", """            try_add_tri((0, 0), (1, 0), (0, 1))
            try_add_tri((1, 0), (1, 1), (0, 1))
""", """            try_add_tri((0, 0), (1, 0), (0, 1))
            if sum(current) < sum(node_tuples[-1]) - 1:
                try_add_tri((1, 0), (1, 1), (0, 1))
""")],
      '''
import random
import modepy as mp
for n in (1, 2, 3, 4):
    nt = list(mp.node_tuples_for_space(mp.PN(2, n)))
    random.Random(n).shuffle(nt)
    if n > 1:
        nt.remove((0, 1)), nt.append((0, 1))
    assert len(mp.submesh_for_shape(mp.Simplex(2), nt)) == n**2, n
''', "node tuples in an order whose last entry is not on the oblique edge",
      "sub-triangles are missing")
