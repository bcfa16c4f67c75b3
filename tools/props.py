#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as a program so that the statements stay in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Basis functions are Lagrange, complete, and have exact gradients",
  "For every reference element the basis functions take the value one at their own reference node and zero at every other node, sum to one, and interpolate every polynomial of the element's order exactly. The reported basis gradients are the exact derivatives of the basis functions at every reference point.",
  ["inputs"], "every element type, every basis function, every reference coordinate (all real numbers)",
  "The tests sample a few points or random coordinates with a float tolerance; the identities are between polynomials and must hold at every point.",
  ["src/element.rs", "src/element/triangle.rs", "src/element/quadrilateral.rs", "src/element/tetrahedron.rs", "src/element/hexahedron.rs", "src/element/segment.rs"],
  [("evaluate_basis / gradients of each element", "src/element/*.rs"), ("populate_basis / populate_basis_gradients", "src/element.rs")],
  ["ReferenceFiniteElement::populate_basis", "ReferenceFiniteElement::populate_basis_gradients"])
p("C02", "Element geometry: maps, Jacobians, diameters, node placement",
  "For every element and every placement of its vertices, the reference-to-physical map sends each reference vertex to the corresponding vertex, the reported Jacobian is the exact derivative of that map, and surface elements report a unit normal orthogonal to the element. Building an element from a connectivity picks exactly the vertices the connectivity names, in order (and gives nothing when a linear triangle or tetrahedron names vertices that do not exist), gathering nodal variables picks exactly those of the named nodes, a higher-order element built from a lower-order one describes the same geometry, and diameters and bounding boxes are the largest vertex distance and the tight box.",
  ["inputs"], "every element type, all vertex positions and reference coordinates (all real numbers)",
  "Tests use reference placements and a few random vertex sets; Jacobian consistency must hold for all of them.",
  ["src/element.rs", "src/element/triangle.rs", "src/element/quadrilateral.rs", "src/element/tetrahedron.rs", "src/element/hexahedron.rs", "src/element/segment.rs"],
  [("map_reference_coords / reference_jacobian / diameter", "src/element/*.rs"), ("ElementConnectivity::element, populate_element_variables", "src/element.rs")],
  ["FiniteElement::map_reference_coords", "FiniteElement::reference_jacobian", "ElementConnectivity::element"])
p("C03", "Connectivity topology matches element geometry",
  "For every cell type that reports faces (or edges), the faces its connectivity reports are exactly the facets of the reference element: every facet node lies on the facet, together the facets cover the closed boundary exactly once, and each facet is oriented so that its normal points out of the cell. Converting a connectivity to a lower-order one keeps exactly its vertex nodes in order.",
  ["inputs"], "every cell type, every facet, arbitrary vertex indices",
  "Tests check boundary extraction on a few small meshes; a wrong node order on one facet of one cell type goes unnoticed.",
  ["src/connectivity.rs", "src/element/hexahedron.rs"],
  [("Connectivity::get_face_connectivity, CellConnectivity", "src/connectivity.rs")],
  ["Connectivity::get_face_connectivity", "Connectivity::vertex_indices"])
p("C04", "Quadrature rules are exact to their advertised strength",
  "Every quadrature rule the library provides has points inside the reference domain, weights summing to the measure of the domain, and integrates every polynomial up to the requested strength exactly (to rounding error of the tabulated values). The rule chosen for a requested strength is never weaker than requested, and subdividing a rule preserves its exactness.",
  ["inputs", "configurations"], "every domain, every supported strength, every monomial of degree up to the strength",
  "Tests integrate selected monomials for selected rules; one wrong digit in one table entry or a selection off by one for one strength is missed.",
  ["fenris-quadrature/src", "src/quadrature.rs", "src/quadrature", "fenris-quadrature/build.rs"],
  [("polyquad tables and selection", "fenris-quadrature/src/polyquad.rs"), ("univariate Gauss, tensor", "fenris-quadrature/src"), ("subdivide", "src/quadrature/subdivide.rs"), ("canonical", "src/quadrature/canonical.rs")],
  ["fenris_quadrature::*", "fenris::quadrature::*"])
p("C05", "Hyperelastic materials: stress and tangent derive from the energy",
  "For every hyperelastic material, at every deformation gradient with positive determinant and all material parameters, the stress is the exact derivative of the strain energy density and the stress contraction is the exact contraction of its second derivative, symmetric in the way a Hessian is. The variants expressed through the displacement gradient and the accumulated/batched variants give exactly the same values (adding into what is already there), and conversions between material parameters are exact.",
  ["inputs"], "all deformation gradients with positive determinant in 2D and 3D, all Lamé parameters, all contraction vectors",
  "Tests compare against finite differences at random points with loose tolerances; exact identities over all deformations are not established.",
  ["fenris-solid/src/materials.rs", "fenris-solid/src/lib.rs", "fenris-solid/src/logdet.rs"],
  [("compute_energy_density / compute_stress_tensor / compute_stress_contraction / accumulate_*", "fenris-solid/src/materials.rs")],
  ["HyperelasticMaterial"])
p("C06", "Local elliptic assembly is the exact gradient and Hessian of the energy",
  "For every element, quadrature rule and operator, the element vector is the exact derivative of the element's quadrature energy with respect to the nodal values and the element matrix is the exact derivative of the element vector, computed by the transformed gradients and absolute Jacobian determinant at each quadrature point. Output is overwritten regardless of what the buffers held, and the Laplace and material operators' matrices are symmetric. Quadrature tables and buffers hand each element exactly the points, weights and data given for it.",
  ["inputs"], "all nodal values, element geometries with nonzero Jacobian determinant, quadrature weights and points, operators",
  "Tests use particular meshes and compare to reference matrices at fixed values.",
  ["src/assembly/local/elliptic.rs", "src/assembly/operators", "src/assembly/local.rs"],
  [("compute_element_elliptic_energy/vector/matrix, ElementEllipticAssembler", "src/assembly/local/elliptic.rs"), ("LaplaceOperator", "src/assembly/operators/laplace.rs")],
  ["ElementVectorAssembler", "ElementMatrixAssembler", "ElementScalarAssembler"])
p("C07", "Mass matrices and source vectors equal their defining integrals",
  "The element mass matrix equals the quadrature sum of density times products of basis functions in block-diagonal form, and the element source vector equals the quadrature sum of the source evaluated at the physical point times the basis functions. Both overwrite whatever the output held and use the absolute Jacobian determinant.",
  ["inputs"], "all element geometries, densities, sources, quadrature weights and points",
  "Tests use fixed meshes and compare few values.",
  ["src/assembly/local/mass.rs", "src/assembly/local/source.rs"],
  [("ElementMassAssembler", "src/assembly/local/mass.rs"), ("ElementSourceAssembler", "src/assembly/local/source.rs")],
  ["assemble_element_mass_matrix", "assemble_element_source_vector"])
p("C08", "Global assembly is the sum of scattered element contributions",
  "For every connectivity, including repeated and unused nodes, the sparsity pattern contains exactly the node pairs that share an element, and the assembled matrix, vector and scalar equal the sum of the element contributions scattered to their degrees of freedom. Assembling into an existing matrix or vector first discards or accumulates as documented, the parallel assemblers give the same result as the serial ones, and an element error is returned rather than swallowed.",
  ["inputs", "schedules"], "all mesh connectivities, solution dimensions, element contributions, colourings, thread schedules",
  "Tests compare serial and parallel assembly on a few random small meshes.",
  ["src/assembly/global.rs", "fenris-sparse/src/sparse.rs"],
  [("assemble_pattern, assemble_into, add_local_to_global, gather_global_to_local", "src/assembly/global.rs"), ("ParallelCsrRowCollection, CsrParAssembler", "src/assembly/global.rs")],
  ["CsrAssembler", "CsrParAssembler", "VectorAssembler", "VectorParAssembler"])
p("C09", "Element colouring and disjoint subsets never admit a conflict",
  "Every colouring produced covers each subset exactly once and no two subsets of one colour share an element. A disjoint-subset collection can be built exactly when the subsets are pairwise disjoint, and the largest index and index list it reports are those of its subsets.",
  ["inputs"], "all families of index sets, including empty sets and sets with repeated indices",
  "Tests colour a few families; the guarantee underlies memory safety of parallel assembly and must hold for all.",
  ["fenris-paradis/src/coloring.rs", "fenris-paradis/src/lib.rs"],
  [("sequential_greedy_coloring", "fenris-paradis/src/coloring.rs"), ("DisjointSubsets::try_from_disjoint_subsets", "fenris-paradis/src/lib.rs")],
  ["sequential_greedy_coloring", "DisjointSubsets"])
p("C10", "Parallel subset iteration hands out every subset once, in bounds, unaliased",
  "Iterating the disjoint subsets of a slice in parallel, however the work is split, visits each subset exactly once with its own label and gives access to exactly the elements named by the subset and to no others. Access outside the collection is refused, and block access maps each block to its contiguous run of entries.",
  ["inputs", "schedules"], "all disjoint subset families, all ways rayon can split the work, all schedules",
  "Thread schedules and split points are not controlled by tests.",
  ["fenris-paradis/src/lib.rs", "fenris-paradis/src/slice.rs", "fenris-paradis/src/adapter.rs"],
  [("DisjointSubsetsProducer::split_at", "fenris-paradis/src/lib.rs"), ("BlockAdapter", "fenris-paradis/src/adapter.rs")],
  ["DisjointSubsets::subsets_par_iter", "ParallelIndexedCollection"])
p("C11", "NestedVec behaves as a vector of vectors",
  "After any sequence of operations a nested vector holds exactly the arrays a vector of vectors would hold after the same operations: pushing, extending the last array, clearing, iterating, indexing, counting and flattening agree with that model. Out-of-range access returns none or panics as documented and never exposes another array's elements.",
  ["histories"], "all operation sequences",
  "Tests run short fixed sequences (and some random ones of bounded size).",
  ["fenris-nested-vec/src/lib.rs"],
  [("offsets/data representation", "fenris-nested-vec/src/lib.rs")],
  ["NestedVec"])
p("C12", "Dirichlet conditions decouple exactly the constrained unknowns",
  "Applying homogeneous Dirichlet conditions to a matrix makes every constrained row and column zero except for a nonzero diagonal, leaves every other entry as it was, and applying them to a vector zeroes exactly the constrained entries. The sparse and dense variants agree on which entries are zeroed (they pick their own nonzero diagonal); the sparse one is for structurally symmetric patterns with a full diagonal.",
  ["inputs"], "all matrices, sparsity patterns containing the diagonal, node sets and solution dimensions",
  "Tests use one or two fixed matrices.",
  ["src/assembly/global.rs"],
  [("apply_homogeneous_dirichlet_bc_csr / _rhs / _matrix", "src/assembly/global.rs")],
  ["apply_homogeneous_dirichlet_bc_csr", "apply_homogeneous_dirichlet_bc_rhs", "apply_homogeneous_dirichlet_bc_matrix"])
p("C13", "Permutations and reorderings are bijections that preserve the mesh",
  "A permutation is accepted exactly when it is a bijection of its index range; its inverse undoes it and applying it moves every entry to the documented place. Cuthill-McKee orderings are permutations of all vertices of the graph (breadth-first from a vertex of least degree, neighbours by increasing degree), and reordering a mesh yields the same geometric mesh with relabelled vertices and cells, the cells sorted by their smallest new vertex.",
  ["inputs"], "all index vectors, graphs and meshes",
  "Tests reorder a few fixed graphs.",
  ["src/mesh/reorder.rs"],
  [("Permutation, cuthill_mckee, reverse_cuthill_mckee, reorder_mesh_par_nodes", "src/mesh/reorder.rs")],
  ["Permutation::from_vec", "reorder_mesh_par_nodes", "cuthill_mckee"])
p("C14", "Mesh operations preserve cells, vertices and boundary",
  "The boundary of a mesh consists of exactly the faces that belong to one cell; keeping a subset of cells or extracting a surface keeps exactly those cells with their geometry and drops only unreferenced vertices; refinement and conversion to a higher-order mesh keep every cell's geometry, share nodes between neighbouring cells and introduce no duplicates. Transforming vertices changes only vertex positions.",
  ["inputs"], "all meshes of the supported cell types, all cell subsets",
  "Tests check a few fixed meshes and small random subsets.",
  ["src/mesh.rs", "src/mesh/refinement.rs", "src/mesh_convert.rs", "src/connectivity.rs"],
  [("find_boundary_faces, keep_cells, extract_surface_mesh", "src/mesh.rs"), ("refine_uniformly", "src/mesh/refinement.rs"), ("From<&Mesh> between orders", "src/mesh_convert.rs")],
  ["Mesh"])
p("C15", "Procedural meshes tile the requested domain",
  "Procedurally generated meshes of boxes and rectangles cover exactly the requested region without overlap or gaps, conform across cells, orient every cell positively, and have the requested number of cells and no duplicated or unused vertices.",
  ["inputs"], "all resolutions, extents and origins",
  "Tests check counts or snapshots for a few sizes.",
  ["src/mesh/procedural.rs"],
  [("create_* mesh generators", "src/mesh/procedural.rs")],
  ["create_unit_square_uniform_quad_mesh_2d", "create_rectangular_uniform_tet_mesh"])
p("C16", "Geometric primitives report exact containment, distance and measure",
  "Closest points on segments, lines, triangles, tetrahedra and boxes lie on the primitive and no point of the primitive is closer; distances, signed areas and volumes, centroids, bounding boxes, box intersection, half-space containment, and solid angles and winding numbers agree with their definitions. Orientation predicates change sign when the orientation is reversed, and signed distance functions are the distance to the boundary with its sign and unit gradient.",
  ["inputs"], "all coordinates (all real numbers)",
  "Tests use random samples with tolerances and fixed examples.",
  ["fenris-geometry/src/primitives/mod.rs", "fenris-geometry/src/lib.rs", "fenris-geometry/src/util.rs"],
  [("LineSegment, Triangle, Tetrahedron, AxisAlignedBoundingBox, HalfSpace, Disk", "fenris-geometry/src")],
  ["fenris_geometry::*"])
p("C17", "Clipping a convex polygon gives exactly the intersection",
  "Intersecting a convex polygon with a half-plane (a half-space for polygons in space) or with another convex polygon yields a polygon whose points are exactly those in both, in consistent orientation, also when one of them is empty, and never panics for non-degenerate polygons; a segment clipped by a half-plane or polygon is exactly the part inside, and a segment is reported to intersect a polygon exactly if they have a point in common. Triangulating a convex polygon covers it exactly with triangles of its orientation.",
  ["inputs"], "all convex polygons and half-planes (all real coordinates)",
  "Tests use fixed polygons and random triangles.",
  ["fenris-geometry/src/polygon.rs", "fenris-geometry/src/polytope.rs", "fenris-geometry/src/primitives/line.rs", "fenris-geometry/src/primitives/half_space.rs"],
  [("ConvexPolygon::intersect_halfplane / intersect_polygon", "fenris-geometry/src/polytope.rs"), ("LineSegment2d::intersect_*", "fenris-geometry/src/primitives/line.rs")],
  ["ConvexPolygon"])
p("C18", "Interpolation evaluates the finite element function exactly",
  "Interpolating nodal values at points of a mesh gives the value and gradient of the finite element function at those points, and points are mapped back to an element and reference coordinates that map to the given point when it lies in the mesh. Closest points on an element lie in the element and no other point of the element is closer.",
  ["inputs"], "all meshes, nodal values and query points",
  "Tests interpolate on one or two fixed meshes.",
  ["src/space/fixed_interpolator.rs", "src/space/interpolate.rs", "src/space/spatially_indexed.rs", "src/space/space_impl.rs", "src/element.rs", "src/element/triangle.rs", "src/element/tetrahedron.rs"],
  [("FixedInterpolator, interpolate_at_points, SpatiallyIndexed", "src/space/*.rs"), ("map_physical_coordinates, project_physical_coordinates", "src/element.rs"), ("closest_point", "src/element/triangle.rs, src/element/tetrahedron.rs")],
  ["Interpolator"])
p("C19", "Integrals and error norms equal their definitions",
  "Integrating a function of the finite element solution over a mesh equals the sum over elements and quadrature points of weight times absolute Jacobian determinant times the integrand at the physical point, with the solution and gradient the finite element function has there. The L2 and H1-seminorm error estimates are the square roots of the integrals of the squared differences.",
  ["inputs"], "all meshes, nodal values, integrands and quadrature rules",
  "Tests check convergence rates, which tolerate errors in constants or in single elements.",
  ["src/integrate.rs", "src/error.rs"],
  [("ElementIntegralAssembler etc.", "src/integrate.rs"), ("estimate_L2_error, estimate_H1_seminorm_error", "src/error.rs")],
  ["estimate_L2_error", "estimate_H1_seminorm_error"])
p("C20", "Conjugate gradients: success means the stopping criterion holds",
  "When the conjugate gradient solver reports success its result satisfies the stopping criterion for the exact recurrence, in at most as many iterations as the dimension for symmetric positive definite systems and preconditioners, and breakdown or exceeding the iteration limit is reported as an error. A zero right-hand side gives the zero solution.",
  ["inputs", "histories"], "all symmetric positive definite systems, preconditioners, initial guesses and limits",
  "Tests solve random systems with tolerances.",
  ["fenris-sparse/src/cg.rs"],
  [("ConjugateGradient::solve_with_guess, RelativeResidualCriterion", "fenris-sparse/src/cg.rs")],
  ["ConjugateGradient"])
p("C21", "Newton's method: success means a small residual, each step a Newton step",
  "When the Newton solver reports success the residual at the returned point is within the tolerance and the number of iterations is within the limit; otherwise an error says which limit or linear solve failed. Every iterate is the previous one plus the accepted step length times the solution of the linearised system, and a line search accepts only steps meeting its sufficient-decrease condition.",
  ["inputs", "histories"], "all functions, Jacobian solvers, starting points, tolerances and limits",
  "Tests solve one or two fixed problems.",
  ["fenris-optimize/src/newton.rs"],
  [("newton_line_search, BacktrackingLineSearch", "fenris-optimize/src/newton.rs")],
  ["newton", "newton_line_search"])
p("C22", "Finite-difference derivatives are central differences of the function",
  "The numerical gradient and Jacobian approximations equal the central difference quotient of the given function at the given point and step, hence are exact for affine and quadratic functions, and leave the point unchanged.",
  ["inputs"], "all functions, points and steps",
  "Tests use one or two functions.",
  ["fenris-optimize/src/calculus.rs"],
  [("approximate_gradient_fd, approximate_jacobian_fd", "fenris-optimize/src/calculus.rs")],
  ["approximate_gradient_fd", "approximate_jacobian_fd"])
p("C23", "Mesh files keep every cell's geometry and node order",
  "Reading a mesh file gives exactly the vertices and cells of the file, or an error when the node tags are not in consecutive order or a cell type is not supported, with the library's node ordering, and converting a mesh for output writes every vertex, every cell with the node order of the output format, and every attribute value in order.",
  ["inputs"], "all meshes of supported cell types",
  "Tests compare a few files.",
  ["src/io/msh.rs", "src/io/vtk.rs"],
  [("MshCell conversion", "src/io/msh.rs"), ("VtkCellConnectivity::write_vtk_connectivity", "src/io/vtk.rs")],
  ["load_msh_from_bytes", "VtkCellConnectivity"])
p("C24", "Polygon meshes: splitting and conversion preserve region and topology",
  "Converting cells to a polygon or polytope mesh, splitting edges, triangulating convex cells, and gluing meshes together keep exactly the region and its measure; removing duplicate faces and keeping a subset of the cells keep the cells with their faces; every face is reported with exactly the cells that contain it, and the boundary is exactly the faces that occur at most once.",
  ["inputs"], "all polygon meshes",
  "Tests check a few meshes.",
  ["fenris-geometry/src/polymesh.rs", "fenris-geometry/src/polygon.rs", "src/mesh_convert.rs"],
  [("PolyMesh", "fenris-geometry/src/polymesh.rs"), ("From<&Mesh> for PolyMesh", "src/mesh_convert.rs")],
  ["PolyMesh3d", "SimplePolygon"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
