"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Unchecked storage reads and writes stay inside the matrix buffers",
  "For every matrix type, every shape and every (row, column) argument, an element access either touches a valid cell of that matrix's own storage or is refused (nothing returned, or a panic); no access reads or writes memory outside the buffer.",
  ["inputs", "histories"], "all matrix types, shapes, storage patterns and index pairs, after any sequence of constructing and mutating calls",
  "The tests index a few small matrices inside their bounds; out-of-buffer access is undefined behaviour that a passing test does not show, and the quantifier ranges over every shape and envelope.",
  ["src/matrix/buffer.rs", "src/matrix/sparse.rs"],
  [("position functions that bound-check before an unchecked access", "src/matrix/buffer.rs"), ("constructors that size the buffers", "src/matrix/sparse.rs")],
  ["MatrixLike::get", "MatrixLike::get_mut", "Index", "IndexMut"])
p("C02", "Element access is consistent across storage schemes",
  "On every matrix type, indexed reads, optional reads, indexed writes and optional writes of one position agree: in-range positions read the stored number or zero when nothing is stored there, positions outside the shape give nothing or panic, and a write changes exactly the requested element. Distinct positions never share a storage cell, shapes are reported as constructed, and two matrices of one type are equal exactly when their shapes and elements are.",
  ["inputs", "histories"], "all matrix types, all positions, all stored values",
  "Tests read back a handful of elements of 2x2 to 6x6 matrices; a wrong stride, an aliased cell or a disagreeing accessor only shows on particular shapes and positions.",
  ["src/matrix/buffer.rs", "src/matrix/sparse.rs", "src/matrix/mod.rs"],
  [("position functions", "src/matrix/buffer.rs, src/matrix/sparse.rs")], ["MatrixLike::get", "MatrixLike::get_mut", "Index", "IndexMut", "MatrixLike::shape"])
p("C03", "Generic matrix operations compute what their names say",
  "Traversals visit every element once in row-major order; row, column and diagonal views, transposition, row and column swaps and per-row updates, construction from rows, points, flat data, identity and plane rotations, addition, subtraction, multiplication, dot product, Frobenius norm and running average give the mathematically defined result for every size. Operands whose shapes do not fit are refused by a panic.",
  ["inputs"], "all matrices of all sizes and all element values", "The tests use fixed 2x2 and 3x3 operands and never a mismatched shape in most operations.",
  ["src/matrix/mod.rs", "src/matrix/buffer.rs", "src/matrix/norm.rs"], [("provided methods of the matrix trait", "src/matrix/mod.rs")], ["MatrixLike", "Norm::frobenius", "Average", "dot"])
p("C04", "Sparse storage conversions and transformations preserve every entry",
  "Converting between the dictionary, compressed-row, envelope and dense forms, taking a lower envelope of rows that reach their diagonal, masking rows and columns, permuting, transposing, adding a scaled matrix into an envelope, and sparse multiplication all give exactly the entries the mathematical operation defines, whatever the sparsity pattern (including empty rows) and whatever order the entries are visited in.",
  ["inputs", "configurations"], "all sparsity patterns and values, all hash iteration orders", "Tests convert two or three fixed matrices; patterns with empty rows, unsymmetric bounds or unusual orders are never tried.",
  ["src/matrix/sparse.rs"], [("conversion impls and envelope/bound computation", "src/matrix/sparse.rs")], ["From<Dictionary> impls", "Dictionary methods", "LowerRowEnvelope::from_bienv", "LowerRowEnvelope::add_scaled_bienv"])
p("C05", "Triangular, diagonal and envelope substitution solve their system",
  "Forward, backward, transposed, partial-range and diagonal solves return the vector that satisfies the triangular system for every size, envelope and right-hand side; triangular inverses multiply with the original to the identity; envelope matrix-vector products equal the dense product.",
  ["inputs"], "all triangular matrices with nonzero diagonal, all envelopes, all right-hand sides", "A few fixed 3x3 to 6x6 systems are solved by the tests; off-by-one ranges may only matter for particular envelopes.",
  ["src/matrix/buffer.rs", "src/matrix/sparse.rs"], [("substitution loops", "src/matrix/buffer.rs, src/matrix/sparse.rs")], ["LowerTriangular::forward_sub", "UpperTriangular::backward_sub", "LowerRowEnvelope::solve*", "Diagonal::solve", "BiEnvelope::mul_vec"])
p("C06", "Dense elimination, LU, determinant and inverse are exact in real arithmetic",
  "Gaussian elimination returns the solution of the system, the unpivoted LU factors multiply back to every matrix whose leading minors are nonzero, the pivoted ones to its row permutation, determinants carry the correct sign for every row exchange, and inverses are two-sided. Pivots are chosen by magnitude where pivoting is promised, and systems that are not square, not compatible or singular in a pivot column are reported as an error rather than answered.",
  ["inputs"], "all square matrices of all sizes", "Tests use one or two fixed matrices per routine and none that needs a negative pivot, several exchanges or is singular.",
  ["src/matrix/inverse.rs"], [("elimination, LU and determinant routines", "src/matrix/inverse.rs")], ["Inverse trait"])
p("C07", "Envelope factorisations reproduce the matrix",
  "The Cholesky and LDL' factorisations of an envelope matrix of a symmetric positive definite matrix satisfy their defining equations in every stored position, never need a position outside the lower envelope of the input, and refuse non-square systems or mismatched right-hand sides with a panic or an error.",
  ["inputs"], "all symmetric positive definite matrices and all envelopes", "Only a few fixed matrices are factored by the tests; envelope offsets that differ per row are where index errors hide.",
  ["src/matrix/solve/direct.rs", "src/matrix/solve/mod.rs"], [("row-wise factorisation over stored row segments", "src/matrix/solve/direct.rs")], ["CholeskyEnvelopeSolver", "ldl factorisation"])
p("C08", "Equation solvers answer in the caller's own numbering",
  "Each linear solver receives every coefficient and right-hand-side entry of the system exactly once, may renumber internally, also of a system whose ordering was reduced beforehand, and returns the solution in the numbering the caller used; all solvers solve the same system, and right-hand sides of the wrong length are refused.",
  ["inputs", "configurations"], "all systems, all renumberings, all solver choices", "With the fixed test systems the renumbering is often close to the identity or symmetric, so a forward/backward mix-up can pass.",
  ["src/matrix/solve/mod.rs", "src/matrix/solve/direct.rs", "src/matrix/solve/iterative.rs"], [("reordering of system and solution", "src/matrix/solve/mod.rs")], ["Solver::new", "Solver::solve", "System"])
p("C09", "Graph construction and bandwidth reordering give a permutation of all nodes",
  "For every graph, including disconnected, empty and isolated-node graphs, adjacency is symmetric and complete, and the bandwidth-reducing ordering is a bijection on all the nodes; applying a permutation and its inverse returns every sequence unchanged.",
  ["inputs"], "all graphs and node counts", "Tests order one or two connected graphs.",
  ["src/matrix/graph.rs"], [("adjacency construction and Cuthill-McKee ordering", "src/matrix/graph.rs")], ["Graph", "Permutation", "reverse_cuthill_mckee"])
p("C10", "The iterative solver only ever returns a converged result of its own iteration",
  "The iterative linear solver returns a vector only when the relative change between the last two sweeps is within its tolerance, each sweep uses the newest available values starting from zero, the relaxed iteration does the same for every relaxation factor between 0 and 2, and when the sweep limit is reached without convergence it reports failure instead of a result.",
  ["inputs"], "all systems and right-hand sides, zero right-hand side included", "Tests solve two well-conditioned systems.",
  ["src/matrix/solve/iterative.rs"], [("sweep and stopping rule", "src/matrix/solve/iterative.rs")], ["GaussSeidelSolver"])
p("C11", "Eigenvalue search brackets by sign counts and returns normalised modes",
  "The eigenvalue search counts the eigenvalues below a shift as the number of negative pivots of the shifted matrix, keeps that bracket invariant through every bisection step, requests each mode once in ascending order, iterates with the stiffness solve and mass product in the right roles, accepts a value only when two successive estimates agree, and scales every returned mode to unit mass.",
  ["inputs"], "all symmetric definite pairs with distinct nonzero eigenvalues, and numbers of requested modes", "Tests compute the modes of two fixed small systems.",
  ["src/matrix/solve/eigen.rs"], [("Sturm counts, bisection, inverse iteration", "src/matrix/solve/eigen.rs")], ["EigenSystem", "DeterminantSearcher"])
p("C12", "Elasticity and strain-displacement matrices follow the theory",
  "The material stiffness matrices for plane stress, plane strain and axisymmetry are the symmetric inverses of Hooke's compliance, the strain-displacement matrices give the strains of the interpolated displacement field, and the nodal stresses of an element follow from both: for every material constant, node position and node order a uniform strain gives its exact stress in every node and a rigid motion gives none.",
  ["inputs"], "all material constants, node positions and natural coordinates", "Tests check a single element result.",
  ["src/element/strain.rs", "src/element/material.rs", "src/element/element.rs"], [("condition and element matrices", "src/element/strain.rs, src/element/element.rs")], ["Condition::build_c", "Condition::build_b", "Element::stresses"])
p("C13", "Element stiffness, mass and edge-load integrals are consistent",
  "Element stiffness and mass matrices are the thickness-weighted (radius-weighted when axisymmetric) integrals of B'CB and of density times H'H by the element's integration rule, with the geometry factor entering once and positively whatever the node order and independent of which node is counted first; rigid motions take no force, the mass matrix holds the total mass, and a line force on an element edge is spread evenly so that its total equals force per length times edge length and lands only on that edge's nodes.",
  ["inputs"], "all element kinds, node positions and orders, thicknesses and edge choices", "Tests assemble a few fixed elements.",
  ["src/element/element.rs"], [("numerical integration of the element matrices", "src/element/element.rs")], ["Element::calc_k", "Element::calc_m", "Element::int_f_l"])
p("C14", "Integration rules are exact to their order",
  "The line rules of orders one to four, along segments between any two points of any dimension, and the triangle rule use points inside their domain and weights that integrate every polynomial up to the rule's degree (2n-1 for the line rule of order n, 2 for the triangle) to within the accuracy of the tabulated constants, and orders without a rule are refused.",
  ["inputs"], "all polynomial integrands up to the rule's degree", "No test integrates anything but the element matrices of one mesh.",
  ["src/element/integrate.rs"], [("Gauss point and weight tables", "src/element/integrate.rs")], ["gauss_tri", "gauss_segment_mat"])
p("C15", "Derived stress measures match their definitions",
  "The equivalent stress of bar, plane, axisymmetric and three-dimensional states is the von Mises value, the tensor form is symmetric and holds each component where it belongs, the kind of a state follows from the length of its vector, adding, scaling and averaging stress states works component by component and keeps the kind, and states of different kinds or vectors of no known length are refused.",
  ["inputs"], "all stress states", "No test evaluates a stress state with shear or a negative bar stress.",
  ["src/element/stress.rs"], [("stress state methods and operators", "src/element/stress.rs")], ["StressState"])
p("C16", "Global assembly and load vectors accumulate every contribution",
  "The assembled stiffness, mass and load vectors are the sums of all element and edge contributions mapped through each element's own node numbering, so nodes shared by several elements, forces or edges receive all of them, a line force on an edge shared by two elements counts once, and the result does not depend on the order in which the contributions are visited. Displacements, displaced nodes and nodal stresses (averaged over the elements at a node) are reported for the nodes they belong to; its modes are those of the constrained mesh, each with the square root of its eigenvalue as frequency and its shape at the nodes it belongs to.",
  ["inputs", "configurations"], "all meshes, load combinations and hash iteration orders", "The test meshes carry one kind of load with few shared nodes.",
  ["src/element/mod.rs"], [("scatter-add over elements and loads", "src/element/mod.rs")], ["ElementAssemblage"])
p("C17", "Constraints accumulate and degree-of-freedom numbering round-trips",
  "Each plain constraint added to a node removes exactly the motions it names on top of those already removed (a slanted one yields to a plain one, two slanted ones average), the reduced numbering of free degrees of freedom and the full numbering are inverse to each other, forces and matrices are reduced consistently with the displacements, and fixed degrees of freedom and fixed slanted directions always have zero displacement.",
  ["inputs", "histories"], "all sequences of constraints on all nodes", "The tests fix nodes once and never combine constraints.",
  ["src/element/constraint.rs", "src/element/mod.rs"], [("constraint merging and dof transform", "src/element/constraint.rs, src/element/mod.rs")], ["ElementAssemblage::add_constraint", "DofTransform"])
p("C18", "Mesh and boundary files read back as the model they describe",
  "A mesh file written by the program reads back as the same model: material, condition, nodes, elements, constraints, forces and distributed forces in the same order, at the same nodes and with the same numbers. The text printed for a constraint (other than free, which is never written), a condition or a material is the one its reader takes for the same value, and different constraints have different texts. Every record of a boundary description (polygon with labels, condition, material, distributed force, distributed constraint) ends up in the boundary at the vertices and sides it names.",
  ["inputs"], "all meshes, boundaries, constraints, conditions and numeric values", "The tests only read fixed example files; nothing written is read again.",
  ["src/file/bmsh.rs", "src/file/bbnd.rs", "src/element/constraint.rs", "src/element/material.rs", "src/element/strain.rs"], [("writer and parser of each record", "src/file"), ("texts of constraints, materials and conditions", "src/element")], ["elas_to_bmsh", "bmsh_to_elas", "bbnd_to_bounds", "Constraint::from_str", "Material::from_str"])
p("C19", "Malformed input files are reported as errors",
  "Loading a file that is truncated, has unknown or malformed records, refers to nodes or labels that do not exist or gives points the wrong number of coordinates ends in a reported error and never in a panic; texts that name no constraint or material are refused by their readers.",
  ["inputs"], "all texts", "Only valid example files are loaded.",
  ["src/file/bmsh.rs", "src/file/bbnd.rs", "src/file/mod.rs", "src/element/constraint.rs", "src/element/material.rs"], [("parse result propagation", "src/file"), ("readers of constraints and materials", "src/element")], ["bmsh_to_elas", "bbnd_to_bounds", "Constraint::from_str", "Material::from_str"])
p("C20", "Geometric predicates give the sign of the defining determinant",
  "Orientation, in-circle and in-sphere tests return the exact polynomial of the defining determinant, so that they are antisymmetric under exchange of points, translation invariant and zero exactly on degenerate configurations; the triangle test and the circumcentre agree with them. For small whole coordinates this holds in the actual arithmetic, roundings included.",
  ["inputs"], "all point coordinates", "Tests evaluate a few points whose third coordinates or offsets hide index mistakes.",
  ["src/spatial/predicates.rs", "src/spatial/mod.rs"], [("determinant expansions", "src/spatial/predicates.rs")], ["triangle_dir", "in_circle", "in_sphere"])
p("C21", "Point arithmetic is component-wise and metric operations are Euclidean",
  "Adding, subtracting, scaling, dotting and normalising points, norms, distances and midpoints give the Euclidean result in every component for every dimension, conversions from and to numbers, tuples and vectors keep every component and refuse a wrong dimension, components beyond the dimension are not accessible, and adding or subtracting points of different dimension is refused.",
  ["inputs"], "all points of all dimensions", "Tests use two-dimensional points with simple coordinates.",
  ["src/spatial/mod.rs"], [("point operators", "src/spatial/mod.rs")], ["Point"])
p("C22", "Drawing never leaves the image and draws complete primitives",
  "For every list of points, edges and triangles and every image size, rendering maps the drawn points inside an image of that size, in their proportions and with y pointing up (points in space by an undistorted parallel view), never writes a pixel outside it, draws lines that include both end points and form a connected run of pixels along the ideal line, colours every pixel of a triangle (and no other) with the value interpolated between its corners, and paints dots over edges over triangles over the background. A deformation is drawn as its displaced nodes with the edges and triangles of its mesh. Points of different dimension in one picture and value lists that do not fit the points are refused.",
  ["inputs"], "all point sets, image sizes and primitives", "Tests render a few fixed scenes and only check that it does not crash.",
  ["src/visual/mod.rs", "src/visual/bresenham.rs", "src/visual/fill.rs"], [("scaling and rasterisation", "src/visual")], ["Visualizer", "line", "line_unsigned", "fill"])
p("C23", "Colour maps are total and in range",
  "Values are normalised to the unit interval before colouring, whatever their range, the smallest value to zero and the largest to one, and every value of the unit interval maps to the defined colour of the chosen colour map.",
  ["inputs"], "all value lists", "Tests colour one list.",
  ["src/visual/color.rs", "src/visual/mod.rs"], [("value normalisation and colour interpolation", "src/visual")], ["Visualizer::set_vals", "color maps"])
p("C24", "Boundary refinement keeps forces and constraints on the refined boundary",
  "Whenever a boundary segment is divided, both halves carry the distributed force and constraint of the original, new points lie on the segment, and existing assignments elsewhere stay as they were.",
  ["inputs", "histories"], "all boundaries and division sequences", "Nothing in the tests divides a loaded segment and inspects both halves.",
  ["src/mesher/bounds.rs"], [("segment division bookkeeping", "src/mesher/bounds.rs")], ["PlaneBoundary::divide_segment"])
p("C25", "Triangulation bookkeeping stays consistent through every update",
  "Every triangle the mesher records is positively oriented, every directed edge belongs to at most one recorded triangle, and the edge index and triangle list are inserted into and removed from together.",
  ["histories"], "all sequences of insertions and deletions", "The mesher is not built by the test configuration.",
  ["src/mesher/plane.rs"], [("add/delete triangle", "src/mesher/plane.rs")], ["PlaneTriangulation"])
p("C26", "Command-line options are declared, exclusive and mapped to the named action",
  "Every option the program queries is declared with the matching kind in the command-line description, every declared option has an effect, and each choice selects the solver, output or colour map of that name.",
  ["configurations"], "all option combinations", "The command-line program is not built by the test configuration.",
  ["src/main.rs", "src/cli.yml"], [("option lookups", "src/main.rs")], ["command line"])
for x in P:
    print(json.dumps(x))
