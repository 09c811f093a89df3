"""How each property is decided; assembled into DESIGN.md by tools/design.py."""
HOW = {
"C01": "Each rule the code returns is applied by the code itself to a polynomial whose coefficients (in an L2-orthogonal basis evaluated independently, `props/common.py`) are symbolic; the claim is that the result equals the coefficient of the constant times its integral, for every coefficient vector. One LRA query per rule. Refusals and advertised degrees are claims on the same runs. Oracle: own orthonormal polynomials, exact reference volume.",
"C02": "For the smallest N the exponents themselves are symbolic (nodes are algebraic functions of them; gamma functions are normalised by their recurrence), so 'all admissible exponents' is decided over continuous ranges. Larger N: grid of exponents, all polynomials, moments by their exact recurrence.",
"C03": "Rules with arbitrary nodes and weights (all symbolic), integrands as polynomials with symbolic coefficients or as tables of symbolic values: the code's result must be the weighted sum identically. Interval maps have symbolic ends; the refusal of empty intervals is a claim over both path sides; exactness bookkeeping has symbolic degrees.",
"C04": "As C01 with the rule obtained through the space, against every function of the space (coefficients symbolic).",
"C05": "jacobi/grad_jacobi executed on symbolic x and, up to degree 6, symbolic exponents; products integrate through the exact moment recurrence; the gradient is compared with the derivative of the value's expression. Both are identities of rational functions (with square roots as algebraic generators), or LRA/Bernstein claims with tolerance at fixed exponents.",
"C06": "Gram matrices by an independent rule, claims for every coefficient vector; regularity: the functions run on the collapsed (Duffy) parametrisation of the closed element, every parameter in [0,1] *closed*, so singular vertices and edges are ordinary points of the box; definedness of every division is a proof obligation on each path, and the value must equal the polynomial computed inside.",
"C07": "The code's gradient run on a symbolic point against the symbolic derivative of the code's own function (differentiated by the engine), over the closed element.",
"C08": "The pymbolic expression returned by symbolicize is evaluated on a symbolic point and compared with the function's own value.",
"C09": "Arbitrary factor bases (functions whose values, gradients are fresh symbols) in tensor products: identities in all those symbols. Shipped bases: membership and orthogonality for every polynomial of lower degree.",
"C10": "Unisolvence: for all nodal data exactly one interpolant, boundedly (linear claims in the data); symmetry: power sums of every polynomial invariant; conformity: face node sets matched; the position-based node functions run on an arbitrary real position in the simplex, given as node_tuples=.",
"C11": "Array entries, coordinates symbolic; the position of every symbol in the result is compared exactly.",
"C12": "Arbitrary tables of function values (matrix entries symbolic, solved symbolically), plus all shipped bases with arbitrary coefficients and one new node anywhere.",
"C13": "As C12, with arbitrary gradient tables; shipped bases: all polynomials, and one output node anywhere in the closed element.",
"C14": "Arbitrary rules, affine functions, node sets (all symbolic) for the quadrature-based matrices; shipped bases for all pairs of polynomials.",
"C15": "As C14 on faces; nodal matrices against independent face integrals for all face data and volume polynomials.",
"C16": "Face maps at an arbitrary point of the face element: membership in exactly one facet by LRA; coverage: 'a boundary point in no face' is unsatisfiable; outward normals against every point of the volume.",
"C17": "'A point of the element in no sub-element' is unsatisfiable (LRA over the element and all sub-elements), plus volumes and orientation.",
"C18": "Matrix entries, offsets, points symbolic; inverse and determinant are identities of rational functions.",
"C19": "Degrees by membership of every mode in the lower space; tails for all nodal data; decay fits with symbolic coefficients: max/skyline comparisons fork, logs and powers are uninterpreted and compared argument by argument.",
"C20": "quadgk runs on symbolic piecewise polynomials: coefficients, break points, tolerances symbolic; the heap's comparisons fork, so all refinement orders of up to k steps are explored; the claims are about the returned estimate, the error and the trace of evaluations.",
"C21": "Maps at symbolic points and parameters; derivative compared with the engine's own (Kosloff-Tal-Ezer, strip: opaque functions with derivative rules); rules with symbolic nodes and weights.",
"C22": "Inner products, integrands' values, nodes and weights symbolic; Gram-Schmidt and small solves executed symbolically; Jacobians against the engine's derivatives.",
"C23": "Index sets by integer reasoning: no exponent tuple allowed by the polytope is missing and none is listed twice (`enumerates`); copies and regroupings by identities of function values at every point.",
"C24": "The generator is a stand-in returning symbolic draws; rejection loops fork on every outcome up to the stated number of rounds.",
"C25": "Point and factor symbolic; closed forms against the exact integral of the polynomial the code computes.",
"C26": "Two-run (hyper)property: arguments before and after are compared symbol by symbol; a second call with the first call's results overwritten by fresh symbols must equal the first; results must not contain symbols of other calls; data tables are replaced by symbols and must be intact.",
"C27": "Functions run on object arrays holding two arbitrary points of the closed element in various layouts; every entry must be the expression obtained for that point alone (identities, on every combination of paths).",
"C28": "The returned constant against every vector of nodal data in the unit box: one LRA query per sample point ('data for which the interpolant exceeds the constant' is unsatisfiable), and attainment; on the segment the nodes are symbolic too (the maximum forks).",
"C29": "The matrices are built by the real functions and the claim is a linear form in all nodal data; on affine images the map is symbolic and the real AffineMap supplies Jacobian, inverse and mapped vertices, so the claims are identities of rational functions of its entries.",
"C30": "Node coincidence is decided from the vertices alone; the traces are linear in all nodal data (one linear form per point and symmetry), at low order also at a symbolic point of the closed face; triangle pairs have symbolic vertices, so inverse and image of AffineMap are rational functions.",
"C31": "The integrand is an arbitrary function, one symbolic value per point the rule asks for; the rule is applied by the code to it and to its composition with generators of the symmetry group, and the two linear forms must agree for all values; positivity is the refutation of 'non-negative values with a negative sum'; sampling inside is the refutation of 'an affine function, non-negative at the vertices of a factor, is negative at a node'.",
}
