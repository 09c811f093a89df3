"""Property texts; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""

I, C, H = "inputs", "configurations", "histories"
P = {}


def prop(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, title
    P[id] = dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[
                     dict(name=n, where=w) for n, w in mech]), note=note)


prop("C01", "Unit-weight quadrature rules are exact to their advertised degree",
     "Every shipped unit-weight quadrature rule (simplex, square and cube tables, "
     "Grundmann-Moeller, Legendre-Gauss and -Lobatto, Clenshaw-Curtis, Fejer, Kronrod, and "
     "tensor products of these) integrates over its reference element every polynomial up "
     "to the degree it reports as exact. The degree it reports is at least the one asked "
     "for (2N+1 for N-th Gauss, and so on), and rules for orders or dimensions that do not "
     "exist are refused with an exception rather than silently replaced.",
     [I, C], "for all polynomials of the advertised degree (all coefficient vectors), for "
     "every tabulated order, dimension and back end",
     "tests integrate a few monomials at some orders; one wrong digit in one table entry "
     "only shows for particular polynomials at a particular order",
     ["modepy/quadrature/__init__.py", "modepy/quadrature/jacobi_gauss.py",
      "modepy/quadrature/clenshaw_curtis.py", "modepy/quadrature/xiao_gimbutas.py",
      "modepy/quadrature/vioreanu_rokhlin.py", "modepy/quadrature/grundmann_moeller.py",
      "modepy/quadrature/witherden_vincent.py", "modepy/quadrature/jaskowiec_sukumar.py",
      "modepy/quadrature/kronrod.py"],
     [("tables and their unpacking", "modepy/quadrature/*.py"),
      ("exact_to bookkeeping", "modepy/quadrature/__init__.py")],
     "All polynomials of the advertised degree for every tabulated rule; node positions and "
     "weights are the exact doubles the code returns.")

prop("C02", "Jacobi-weight Gauss and Lobatto rules integrate with their weight",
     "The Gauss and Gauss-Lobatto rules for the weight (1-x)^alpha (1+x)^beta, and their "
     "Gegenbauer and Chebyshev special cases, integrate every polynomial of degree up to "
     "2N+1 (Lobatto: 2N-1, endpoints included) against that weight exactly for all "
     "admissible exponents. Nodes lie in [-1,1] in increasing order and the stand-alone "
     "node function agrees with the rule.",
     [I, C], "for all real exponents in the stated ranges (small N), for all polynomials of "
     "full degree (every N up to the bound), both back ends",
     "tests sample a few (alpha, beta) pairs and a few monomials",
     ["modepy/quadrature/jacobi_gauss.py"],
     [("Golub-Welsch weights and normalisation", "modepy/quadrature/jacobi_gauss.py"),
      ("Lobatto endpoints", "modepy/quadrature/jacobi_gauss.py")],
     "Symbolic exponents for the smallest rules; for larger N a grid of exponents with every "
     "polynomial of full degree. Assumes closed-form eigen-decomposition of 1x1/2x2 matrices.")

prop("C03", "Applying, moving and multiplying quadrature rules is weighted summation",
     "Applying a rule to a function returns the weighted sum of the function's values at the "
     "rule's nodes, for scalar, vector- and tensor-valued functions alike. Moving a one-dimensional "
     "rule to an interval maps its nodes affinely and scales its weights by the length "
     "ratio, empty intervals are refused, and a tensor-product rule is the iterated "
     "application of its factors with the smallest of their exactness degrees (rules without "
     "a known degree or exact for everything included).",
     [I, C], "for all node positions, weights, integrand values and interval ends, for every "
     "rule size up to the bound",
     "tests only use shipped rules on fixed intervals and a few integrands",
     ["modepy/quadrature/__init__.py"],
     [("Quadrature.__call__", "modepy/quadrature/__init__.py"),
      ("Transformed1DQuadrature", "modepy/quadrature/__init__.py"),
      ("TensorProductQuadrature", "modepy/quadrature/__init__.py")],
     "Rules with symbolic nodes, weights and values; exact real arithmetic.")

prop("C04", "A rule chosen for a space integrates every function of that space",
     "The quadrature rule handed out for a polynomial space on its reference element lies on "
     "that element's dimensions and integrates every function of the space exactly, whatever "
     "the order and, for tensor products, whatever the individual factor orders and factor "
     "order. A space that does not fit the shape is refused.",
     [I, C], "for all functions of the space (all coefficient vectors), all orders and "
     "factor order combinations up to the bound",
     "tests try equal orders on a few shapes with a few monomials",
     ["modepy/quadrature/__init__.py", "modepy/spaces.py", "modepy/shapes.py"],
     [("quadrature_for_space dispatch", "modepy/quadrature/__init__.py")],
     "Every function of the space, per order listed in the evidence.")

prop("C05", "Jacobi polynomials are orthonormal and their derivatives are derivatives",
     "The normalised Jacobi polynomials of any two degrees are orthonormal under the weight "
     "(1-x)^alpha (1+x)^beta for all admissible exponents, and have the degree they claim. "
     "The gradient function returns the exact derivative at every real x, and the "
     "classically scaled variant is a constant multiple with the classical end values.",
     [I], "for all real x, all real alpha, beta in the stated ranges, all degrees up to the "
     "bound",
     "tests check a handful of exponents by quadrature and derivatives by finite differences",
     ["modepy/modes.py"],
     [("three-term recurrence", "modepy/modes.py jacobi"),
      ("derivative identity", "modepy/modes.py grad_jacobi"),
      ("classical scaling", "modepy/modes.py scaled_jacobi")],
     "Polynomial identities in x decided with symbolic exponents; gamma-function "
     "normalisations enter as exact symbols tied by the functional equation.")

prop("C06", "Orthonormal bases are orthonormal, complete and regular everywhere",
     "The orthonormal basis functions of a polynomial space on a simplex, hypercube or "
     "prism-like product have an identity Gram matrix under the element's L2 inner product, "
     "span exactly the space, and report the unit weight; the monomial basis spans the same "
     "space and reports that it is not orthonormal. At every point of the closed element, "
     "singular vertices and edges of the collapsed coordinates included, each function takes "
     "the finite value of the polynomial it represents.",
     [I, C], "for all coefficient vectors (Gram, span), for all points of the closed element "
     "(values), for every order and factor order combination up to the bound",
     "tests check Gram matrices by quadrature at selected orders and sample interior points",
     ["modepy/modes.py", "modepy/spaces.py"],
     [("collapsed-coordinate PKDO polynomials", "modepy/modes.py pkdo_2d/pkdo_3d"),
      ("tensor-product bases", "modepy/modes.py TensorProductBasis")],
     "Gram matrices by exact integration of the polynomials the code computes; values over "
     "all points of the closed element.")

prop("C07", "Basis gradients are the derivatives of the basis functions",
     "Every gradient and partial-derivative function offered by an orthonormal or monomial "
     "basis is, at every point of the closed reference element including singular vertices "
     "and edges, the derivative of the corresponding basis function, for every component, "
     "mode and element type.",
     [I, C], "for all points of the closed element, all modes and axes, all orders up to the "
     "bound",
     "tests compare with finite differences at a few interior points",
     ["modepy/modes.py"],
     [("grad_pkdo_2d/3d, grad_jacobi, grad_monomial", "modepy/modes.py"),
      ("product rule", "modepy/modes.py TensorProductBasis")],
     "Formal differentiation of the value function the code computes versus the gradient "
     "code, over all points.")

prop("C08", "Symbolic form of a basis function evaluates like the numeric one",
     "The expression obtained by symbolically evaluating a basis function or gradient, when "
     "evaluated at any point of the closed reference element, equals the number the basis "
     "function itself returns there, for all modes and any variable name, singular vertices "
     "and edges included.",
     [I, C], "for all points of the closed element, all modes up to the bound",
     "tests compare on random interior points for a few orders",
     ["modepy/modes.py"],
     [("symbolize_function and the symbolic branches of the recurrences", "modepy/modes.py")],
     "Both evaluation routes executed on the same symbolic point.")

prop("C09", "Mode identifiers, product bases and modal hierarchy fit together",
     "Each mode identifier of a basis names the degree structure of its function: in every "
     "factor the function has exactly the total degree given by its identifier and is "
     "orthogonal to everything of lower degree. Functions, gradients, partial derivatives, "
     "identifiers and weight of a tensor-product basis are the products (product rule) of "
     "those of arbitrary factor bases, in matching order.",
     [I, C], "for arbitrary factor basis values and gradients at arbitrary points, for all "
     "coefficient vectors, all modes up to the bound",
     "tests never use factor bases other than the shipped ones and do not relate identifiers "
     "to degrees",
     ["modepy/modes.py", "modepy/spaces.py"],
     [("mode id enumeration", "modepy/modes.py"),
      ("TensorProductBasis", "modepy/modes.py"),
      ("generate_nonnegative_integer_tuples", "modepy/modes.py")],
     "Factor bases are uninterpreted (arbitrary reals); shipped bases by exact polynomial "
     "degree.")

prop("C10", "Interpolation nodes are inside, unisolvent, symmetric and conforming",
     "Equispaced and edge-clustered node sets for a space have as many nodes as the space "
     "has dimensions, lie in the closed element, and admit for any nodal data exactly one "
     "(boundedly determined) interpolant. They are invariant under every symmetry of the "
     "element, restrict on its faces (clustered tetrahedra: edges) to the face's own node "
     "set, and are listed in the order of the accompanying integer tuples; given tuples are "
     "honoured one by one, at arbitrary positions.",
     [I, C], "for all nodal data and all polynomials, all symmetries and faces, all (real) "
     "tuple positions within the bounds, all orders up to the bound",
     "tests check a few orders and never the symmetry, the conformity or non-default tuples",
     ["modepy/nodes.py", "modepy/shapes.py"],
     [("warp & blend", "modepy/nodes.py"), ("equispaced", "modepy/nodes.py"),
      ("node tuples and dispatch", "modepy/nodes.py")],
     "Linear claims over all nodal data; warp as a function of arbitrary real positions.")

prop("C11", "Product node arrays and reshaping keep every entry in its place",
     "The tensor-product node array lists the combination of factor nodes with the first "
     "factor varying fastest, stacking coordinates in factor order. Reshaping an array of "
     "product-space degrees of freedom exposes one axis per factor in that same order, at "
     "any axis position, and undoing it restores the array exactly.",
     [I, C], "for all array and node contents, every number of factors, factor dimension, "
     "axis position and extra axes up to the bound",
     "tests cover two or three shapes with one axis position",
     ["modepy/nodes.py", "modepy/tools.py"],
     [("tensor_product_nodes", "modepy/nodes.py"),
      ("reshape/unreshape_array_for_tensor_product_space", "modepy/tools.py")],
     "Array contents are symbolic; exact.")

prop("C12", "Vandermonde and resampling matrices represent evaluation and interpolation",
     "The Vandermonde matrix maps any coefficient vector to the values of that combination at "
     "the nodes, for values and gradients, for arbitrary functions. The resampling matrix "
     "reproduces on the new nodes every polynomial of the space from its values on the old "
     "nodes (and, with least squares, from more nodes than modes, giving the best "
     "approximation of any data), and node sets that do not determine the interpolant are "
     "refused unless least squares is allowed.",
     [I, C], "for all functions' values, all coefficient vectors and all nodal data; for "
     "arbitrary node positions in small cases, all listed spaces and orders otherwise",
     "tests resample two or three functions between two node sets",
     ["modepy/matrices.py"],
     [("vandermonde, multi_vandermonde", "modepy/matrices.py"),
      ("resampling_matrix", "modepy/matrices.py")],
     "Matrix entries from uninterpreted functions; linear claims over all coefficients.")

prop("C13", "Differentiation matrices differentiate every polynomial of the space",
     "For every polynomial of the space, the differentiation matrix for an axis maps its "
     "nodal values to the nodal values of its partial derivative, also when input and output "
     "node sets differ. The axis permutation turns the matrix for the first axis into that "
     "for any other axis on symmetric node sets, and node sets that cannot interpolate are "
     "refused.",
     [I, C], "for all coefficient vectors, all axes, all orders, bases and node sets up to the "
     "bound; arbitrary basis values in small cases",
     "tests differentiate single trigonometric functions approximately",
     ["modepy/matrices.py"],
     [("differentiation_matrices, diff_matrices", "modepy/matrices.py"),
      ("diff_matrix_permutation", "modepy/matrices.py")],
     "Linear claims over all coefficient vectors against an independent derivative.")

prop("C14", "Mass and nodal quadrature matrices realise the inner products",
     "The mass matrix of an orthonormal basis on unisolvent nodes gives, for any two "
     "polynomials of the space, their exact L2 inner product from nodal values; the inverse "
     "mass matrix is its inverse and is refused for bases that are not orthonormal with unit "
     "weight. Quadrature test and bilinear-form matrices reproduce the quadrature sums of "
     "test function times data (times trial function) for arbitrary data and functions, "
     "including separate node sets and mapped test nodes, and the diagonal spectral mass "
     "matrix holds the rule's weights.",
     [I, C], "for all pairs of polynomials and all nodal data; for arbitrary function values, "
     "nodes and weights in small cases; all listed spaces and orders otherwise",
     "tests compare single integrals at a few orders",
     ["modepy/matrices.py"],
     [("mass_matrix, inverse_mass_matrix", "modepy/matrices.py"),
      ("nodal_quadrature_test_matrix", "modepy/matrices.py"),
      ("nodal_quadrature_bilinear_form_matrix", "modepy/matrices.py"),
      ("spectral_diag_nodal_mass_matrix", "modepy/matrices.py")],
     "Bilinear claims over all coefficient pairs.")

prop("C15", "Face mass matrices integrate face data against volume functions",
     "The modal and nodal face mass matrices map face nodal data to the integrals over that "
     "face of the data's interpolant times every volume basis function (modal) or nodal "
     "interpolation function (nodal), for every face, also when face and volume use different "
     "spaces, node sets or orders. Node counts that do not match the basis are refused.",
     [I, C], "for all face data and all volume polynomials, every face of every supported "
     "element, all orders up to the bound",
     "tests compare one order on one or two faces",
     ["modepy/matrices.py", "modepy/shapes.py"],
     [("modal_mass_matrix_for_face, nodal_mass_matrix_for_face", "modepy/matrices.py"),
      ("modal_quad_mass_matrix_for_face, nodal_quad_mass_matrix_for_face",
       "modepy/matrices.py")],
     "Bilinear claims over all face data and all volume polynomials.")

prop("C16", "Faces tile the boundary and normals point outward",
     "Each face's map is affine and sends the face element into the boundary with its vertices "
     "on the listed volume vertices; together the faces cover every boundary point of the "
     "element, overlapping only in lower dimension. Face normals are of unit length (the "
     "unnormalised ones as long as the area spanned by the edges of the face), orthogonal to the face "
     "and outward; vertex and face counts are right, and the element is the convex hull of "
     "its vertices.",
     [I, C], "for all points of every face element, of the boundary and of the volume",
     "tests look at vertices or a few sampled face points",
     ["modepy/shapes.py"],
     [("face tables and maps", "modepy/shapes.py"),
      ("face_normal", "modepy/shapes.py"), ("unit vertices", "modepy/shapes.py")],
     "Exact linear arithmetic over all points.")

prop("C17", "Sub-elements tile the reference element",
     "The sub-elements produced from a node-tuple list cover every point of the reference "
     "element, have volumes adding up to its volume (hence do not overlap), consistent "
     "orientation, and refer to nodes by their position in whatever order the tuples were "
     "given.",
     [I, C], "for all points of the element, all refinement orders up to the bound, all "
     "elements, default and permuted tuple lists",
     "tests only check a few orders and sampled points or total areas",
     ["modepy/shapes.py", "modepy/tools.py"],
     [("submesh_for_shape / simplex_submesh / hypercube_submesh", "modepy/shapes.py")],
     "Linear arithmetic: no point of the element escapes all sub-elements.")

prop("C18", "Affine maps and coordinate systems are mutually inverse and exact",
     "An affine map sends x to A x + b for single points and batches, its inverse undoes it, "
     "and its Jacobian is the determinant, for every invertible A, unchanged by earlier use. "
     "Conversions between unit, barycentric and equilateral coordinates are inverse to each "
     "other, barycentric coordinates sum to one, vertices go to vertices, and the equilateral "
     "simplex is regular and centred.",
     [I, H], "for all matrices, offsets and points in the stated boxes, repeated use",
     "tests use one random map and a few points",
     ["modepy/tools.py"],
     [("AffineMap", "modepy/tools.py"),
      ("unit_to_barycentric, barycentric_to_unit, barycentric_to_equilateral, "
       "equilateral_to_unit", "modepy/tools.py")],
     "Symbolic matrices, offsets and points.")

prop("C19", "Modal decay estimates: degrees, tails and fitted decay",
     "The degree vector lists for every mode of an orthonormal basis its polynomial degree, "
     "the interpolation-error estimator keeps exactly the coefficients of the tail modes "
     "(those within the asked number of highest degrees), so it vanishes on every polynomial "
     "of lower degree and is isometric on the tail, and decay fits are the least-squares "
     "line through the logarithms of the per-degree norms, per element, with the documented "
     "skyline, baseline and ignored modes. The estimated relative residual is the L2 norm of "
     "the fitted power law over all degrees above n, relative to that of the coefficients "
     "(estimates beyond one are given as zero).",
     [I, C], "for all nodal data (tail estimators), for arbitrary expansion coefficients "
     "(decay fits), every order up to the bound, mixed tensor orders included",
     "tests check one order and one smooth function",
     ["modepy/modal_decay.py"],
     [("degree_vector", "modepy/modal_decay.py"),
      ("interp_error_coefficient_estimator_matrix", "modepy/modal_decay.py"),
      ("fit_modal_decay", "modepy/modal_decay.py")],
     "Logarithms are uninterpreted; fits are compared weight by weight.")

prop("C20", "Adaptive Gauss-Kronrod integration is exact and stops as documented",
     "quadgk integrates every polynomial within the degree of the Kronrod rule exactly "
     "whatever the break points, their direction, the tolerances and the refinements it "
     "makes, with an integrand that may be a different polynomial on every interval between "
     "break points, and likewise integrands that become polynomials under the map of a "
     "semi-infinite or doubly infinite interval. It always halves an interval with the "
     "largest error estimate, stops only when a tolerance is met or the evaluations are used "
     "up, reports the summed error of the final intervals (zero when the embedded Gauss rule "
     "is exact), and refuses non-finite integrands and missing end points.",
     [I, H], "for all polynomial coefficients and all refinement histories up to the bound, "
     "all break points (unrefined), all finite ends of infinite intervals, all absolute "
     "tolerances in a range",
     "tests integrate a handful of functions to a tolerance; which refinements happen "
     "depends on the integrand",
     ["modepy/quadrature/kronrod.py"],
     [("_evalrule, _do_quadgk, Segment ordering", "modepy/quadrature/kronrod.py"),
      ("interval transformations", "modepy/quadrature/kronrod.py")],
     "Every feasible refinement order of polynomial integrands is a symbolic path.")

prop("C21", "Transplanted quadrature: maps are increasing bijections with their Jacobian",
     "The transplant maps (identity, odd-degree polynomial sausage, Kosloff-Tal-Ezer, strip) "
     "are odd, increasing, keep the end points, agree with their formula, and return as "
     "second result exactly the derivative of the first, for all parameters in range; "
     "parameters out of range, and end points in the strip map, are refused. A transplanted "
     "rule has the mapped nodes and the weights times the Jacobian in the layout of the base "
     "rule, which it leaves alone, claims an exactness only for the identity, and integrates "
     "exactly what the map leaves exact.",
     [I, C], "for all points of [-1,1], all map parameters in the stated ranges, arbitrary "
     "base rules and maps, all polynomials of the degree left exact",
     "tests use one parameter per map and a few integrands",
     ["modepy/quadrature/transplanted.py"],
     [("map_* functions", "modepy/quadrature/transplanted.py"),
      ("transplanted_1d_quadrature, transplanted_legendre_gauss_quadrature",
       "modepy/quadrature/transplanted.py")],
     "Elementary and elliptic functions are uninterpreted with their derivative rules; the "
     "strip map's parameter is on a grid of rho. Strip map for rho <= 1.1: known finding.")

prop("C22", "Tools for constructing quadrature rules compute what they document",
     "Linear combinations of functions evaluate to the combination, and combinations of "
     "combinations over a common basis are flattened without changing their value. "
     "Orthogonalisation returns functions orthonormal under the given (real or complex) "
     "inner product, each in the span of its predecessors. Node guesses are the eigenvalues "
     "of the multiplication operator (Gauss nodes on an interval). Undetermined-coefficient "
     "weights integrate all integrands (least squares if overdetermined, a warning if "
     "underdetermined), the quadrature residual and its Jacobian are the true residual and "
     "its derivatives by every weight and node, and the Gauss-Newton increment solves the "
     "linearised least-squares problem.",
     [I, C], "for all coefficients, function values, inner products, nodes, weights and "
     "right-hand sides within the size bounds",
     "tests follow one or two fixed constructions",
     ["modepy/quadrature/construction.py"],
     [("linearly_combine, orthogonalize_basis", "modepy/quadrature/construction.py"),
      ("guess_nodes_vioreanu_rokhlin, find_weights_undetermined_coefficients",
       "modepy/quadrature/construction.py"),
      ("quad_residual_and_jacobian, quad_gauss_newton_increment",
       "modepy/quadrature/construction.py")],
     "Dense linear algebra (Cholesky, least squares, eigenvalues) is replaced by exact "
     "closed forms in the symbolic runs; large systems are run in floating point, with all "
     "right-hand sides.")

prop("C23", "Spaces, shapes and bases are values: right dimensions, index sets, copies",
     "The dimension of a space, its number of basis functions and its node index tuples are "
     "those of the polynomial space it names: index tuples and mode identifiers are exactly "
     "the exponents allowed (total degree on simplices, per factor on products), without "
     "repetition. Grouping tensor-product factors differently, or products of a single "
     "factor, does not change the shape, the space or the values and gradients of its "
     "basis. Shapes are equal (and hash equal) exactly when of the same type and "
     "parameters. Copies, deep copies and pickles of shapes, faces, spaces, bases, "
     "quadrature rules and maps behave as the original everywhere. Mismatched numbers of "
     "orders and unknown shapes or spaces are refused.",
     [I, C], "for all points of the element; the index sets as sets of all integer points "
     "of the exponent polytope",
     "tests count a few small spaces and copy nothing but rules",
     ["modepy/spaces.py", "modepy/shapes.py", "modepy/modes.py", "modepy/nodes.py"],
     [("PN, QN, TensorProductSpace, space_for_shape", "modepy/spaces.py"),
      ("Shape, Simplex, Hypercube, TensorProductShape, Face", "modepy/shapes.py"),
      ("node_tuples_for_space", "modepy/nodes.py"),
      ("SimplexONB, TensorProductBasis, basis_for_space", "modepy/modes.py")],
     "Refusals, counts and equality of shapes are structural claims evaluated on finitely "
     "many objects (no inputs beyond the type and sizes).")

prop("C24", "Random nodes lie in the element for every outcome of the generator",
     "random_nodes_for_shape returns exactly the requested number of points, each inside "
     "the reference element, whatever numbers the generator produces and however many of "
     "them are rejected; it draws from the generator passed and from no other source, so "
     "the same generator state gives the same nodes.",
     [I, C], "for every sequence of numbers drawn, with up to the bounded number of "
     "rejection rounds with arbitrary values",
     "tests draw a handful of nodes from seeded generators",
     ["modepy/nodes.py"],
     [("random_nodes_for_shape (simplex, tensor product)", "modepy/nodes.py")],
     "The generator is replaced by a stand-in offering uniform() and random(); other "
     "distributions would be reported as undecided.")

prop("C25", "Monomial: values, derivatives and exact integrals agree with each other",
     "A Monomial evaluates, at every point of the biunit element and for every factor, to "
     "factor times the product of ((1+x_i)/2)**e_i (also on batches of points); diff gives "
     "the monomial of its partial derivative (with respect to the variables (1+x_i)/2) and "
     "leaves the original unchanged; simplex_integral is the exact integral of the function "
     "over the biunit simplex and hypercube_integral that over the unit cube in the "
     "variables (1+x_i)/2.",
     [I, C], "for every point, factor and exponent tuple within the bounds",
     "the quadrature tests use the closed forms as their oracle and never test them",
     ["modepy/tools.py"],
     [("Monomial", "modepy/tools.py")],
     "The closed forms are compared with the integral of the function __call__ computes.")

prop("C26", "Pure functions: arguments stay intact, results depend on arguments only",
     "No library call modifies an array it is given (nodes, weights, coefficients) or one "
     "that a caller's function returned to it. What a call returns depends only on its "
     "arguments: not on which calls were made before with other arguments, nor on what a "
     "caller wrote into the results of earlier calls (tables, caches and constants are never "
     "handed out).",
     [I, H], "for all array arguments, callback values, table contents and overwriting "
     "values, over histories of three calls",
     "tests never write to a result and rarely repeat a call",
     ["modepy/quadrature/", "modepy/modes.py", "modepy/matrices.py", "modepy/nodes.py",
      "modepy/tools.py", "modepy/shapes.py"],
     [("tables of quadrature rules", "modepy/quadrature/*_data*.py"),
      ("caches", "modepy/quadrature/kronrod.py, transplanted.py, modepy/tools.py"),
      ("in-place arithmetic", "modepy/modes.py, modepy/nodes.py, modepy/modal_decay.py")],
     "Calls without array arguments are repeated after overwriting their results (finite "
     "list); tables are also replaced by arbitrary numbers.")

prop("C27", "Evaluating at an array of points is evaluating point by point",
     "A basis function, gradient, partial derivative or Jacobi polynomial evaluated at an array "
     "of points of the closed element (any number of trailing point axes, none and empty ones "
     "included, and any memory layout) gives an array of the shape of the point axes whose every "
     "entry is the value at that single point, whatever the other points in the array are. The "
     "same holds for the transplant maps and, on (dim, npoints) arrays, for the face maps. "
     "Integer coordinates mean the same points as floating-point ones.",
     [I, C], "for any two points of the element at once, in every array layout listed",
     "tests evaluate at generic points all of the same kind, where masks and early exits for "
     "singular points never differ within a batch",
     ["modepy/modes.py", "modepy/shapes.py", "modepy/quadrature/transplanted.py"],
     [("_where, _rstoab, _rsttoabc", "modepy/modes.py"),
      ("tensor-product functions", "modepy/modes.py"),
      ("map_to_volume", "modepy/shapes.py"),
      ("map_*", "modepy/quadrature/transplanted.py")],
     "Two arbitrary points per array; every combination of branches of the two is explored.")

prop("C28", "The Lebesgue constant estimate is the norm of interpolation on its sample",
     "estimate_lebesgue_constant returns the largest absolute value that interpolants, of the "
     "given order and on the given nodes, of nodal data bounded by one take on an equispaced "
     "sample with at least ten times the order of intervals per edge: no data exceeds it at a "
     "sample point and some data attains it, whatever the nodes' positions and order. Nodes whose "
     "dimension is not that of the shape are refused.",
     [I, C], "for all nodal data bounded by one",
     "tests compare with a recorded number for a few node sets",
     ["modepy/tools.py"],
     [("_evaluate_lebesgue_function", "modepy/tools.py"),
      ("estimate_lebesgue_constant", "modepy/tools.py")],
     "Node sets are the shipped ones and reorderings of them, on the segment also two arbitrary "
     "nodes.")

prop("C29", "Summation by parts: mass, differentiation and face matrices belong together",
     "For nodal data u and v of the same element the discrete matrices obey the integration by "
     "parts rule exactly: (u, D_k v) + (D_k u, v), formed with mass_matrix and diff_matrices, "
     "equals the sum over the faces of the outward face normal's k-th component times the "
     "face's mass pairing of the traces of u and v, formed with faces_for_shape, face_normal, "
     "map_to_volume and nodal_quadrature_bilinear_form_matrix. In particular the weak form of a "
     "derivative, obtained by testing with basis gradients, differs from the strong form by "
     "exactly the surface terms, and constants give the divergence theorem. The same holds on "
     "every affine image of the element with Jacobian, inverse and mapped faces of AffineMap.",
     [I, C], "for all nodal data, and for all affine maps of the element",
     "tests apply single matrices to a few functions; that all of them are consistent with each "
     "other is the stability argument of every solver built on them and is not tested",
     ["modepy/matrices.py", "modepy/shapes.py", "modepy/quadrature/__init__.py", "modepy/tools.py"],
     [("diff_matrices", "modepy/matrices.py"),
      ("nodal_quadrature_bilinear_form_matrix", "modepy/matrices.py"),
      ("nodal_quadrature_test_matrix", "modepy/matrices.py"),
      ("face_normal", "modepy/shapes.py"),
      ("faces_for_shape", "modepy/shapes.py"),
      ("quadrature_for_space", "modepy/quadrature/__init__.py"),
      ("AffineMap", "modepy/tools.py")],
     "Nodes are the shipped equispaced and edge-clustered sets; the maps are those of triangle "
     "and square.")

prop("C30", "Interpolants of neighbouring elements that share face data are continuous",
     "The interpolant of nodal data on a space's equispaced or edge-clustered nodes is, on each "
     "face of the element, determined by the data at the nodes on that face alone, which are as "
     "many as the face's space has dimensions, and equals the face's own interpolant of them. "
     "For two elements sharing a face, of the same or (triangle and square) of different shape, "
     "through any of their faces and in every relative position, the nodes on the common face "
     "coincide one to one and interpolants with equal data there agree on the whole face. This "
     "remains so for triangles with arbitrary vertices mapped by AffineMap: a point of the "
     "common edge is found from both sides.",
     [I, C], "for all nodal data, faces, relative positions and points of the common face",
     "tests never look at two elements together; continuity across elements is what continuous "
     "finite element codes need from node sets, bases and face maps jointly",
     ["modepy/nodes.py", "modepy/shapes.py", "modepy/matrices.py", "modepy/tools.py"],
     [("edge_clustered_nodes_for_space", "modepy/nodes.py"),
      ("equispaced_nodes_for_space", "modepy/nodes.py"),
      ("warp_factor", "modepy/nodes.py"),
      ("faces_for_shape, map_to_volume", "modepy/shapes.py"),
      ("resampling_matrix", "modepy/matrices.py"),
      ("AffineMap", "modepy/tools.py")],
     "Elements are segments, triangles, tetrahedra, squares and cubes; arbitrary vertices for "
     "triangles only.")

prop("C31", "Quadrature rules are positive, sample the element only, and are symmetric",
     "Every shipped rule evaluates the integrand only at points of the closed reference element "
     "(moved rules: of the interval moved to). The rules documented to have positive weights "
     "(Vioreanu-Rokhlin, Witherden-Vincent, Jaskowiec-Sukumar), Xiao-Gimbutas, Gauss, Lobatto, "
     "Clenshaw-Curtis, Fejer and Kronrod rules, Gauss rules for Jacobi weights, transplanted "
     "rules, rules for spaces of tabulated order, and products of these, give a non-negative result for every "
     "integrand that is non-negative at the nodes. The rules documented as symmetric, "
     "Grundmann-Moeller rules and the one-dimensional rules for even weights give the same "
     "result for any integrand and its composition with any symmetry of the element.",
     [I, C], "for all integrands, however irregular, for every tabulated order and size up to "
     "the bound",
     "exactness tests on polynomials say nothing about other integrands: stability for rough "
     "data rests on positivity, and an exact rule can be asymmetric or sample outside",
     ["modepy/quadrature/__init__.py", "modepy/quadrature/vioreanu_rokhlin.py",
      "modepy/quadrature/witherden_vincent.py", "modepy/quadrature/jaskowiec_sukumar.py",
      "modepy/quadrature/xiao_gimbutas.py", "modepy/quadrature/grundmann_moeller.py",
      "modepy/quadrature/jacobi_gauss.py", "modepy/quadrature/clenshaw_curtis.py",
      "modepy/quadrature/kronrod.py", "modepy/quadrature/transplanted.py"],
     [("VioreanuRokhlinSimplexQuadrature", "modepy/quadrature/vioreanu_rokhlin.py"),
      ("WitherdenVincentQuadrature", "modepy/quadrature/witherden_vincent.py"),
      ("JaskowiecSukumarQuadrature", "modepy/quadrature/jaskowiec_sukumar.py"),
      ("TensorProductQuadrature, Transformed1DQuadrature", "modepy/quadrature/__init__.py"),
      ("FejerQuadrature, ClenshawCurtisQuadrature", "modepy/quadrature/clenshaw_curtis.py")],
     "Points closer than 1e-9 count as one point of the integrand.")
