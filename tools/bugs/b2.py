BUGS = []
def bug(id, property, file, edits, needs, breaks, deps, main):
    BUGS.append(dict(id=id, property=property, edits=[(file, o, n) for o, n in edits] if file else edits, needs=needs, breaks=breaks, deps=deps, main=main))

bug("c05-lame-from-young", "C05", "fenris-solid/src/materials.rs", [(
"let lambda = 2.0 * mu * poisson / (1.0 - 2.0 * poisson);",
"let lambda = 2.0 * mu * poisson / (1.0 - poisson);")],
"material parameters given as Young's modulus and a nonzero Poisson ratio",
"the first Lamé parameter is wrong (plane stress formula)",
["fenris-solid"],
'''use fenris_solid::materials::{LameParameters, YoungPoisson};
fn main() {
    let p = LameParameters::<f64>::from(YoungPoisson { young: 5.0, poisson: 0.25 });
    assert!((p.mu - 2.0).abs() < 1e-12 && (p.lambda - 2.0).abs() < 1e-12, "{:?}", p);
}
''')

bug("c07-mass-first-jacobian", "C07", "src/assembly/local/mass.rs", [(
'''    let quadrature_iter = izip!(quadrature_weights, quadrature_points, quadrature_density);
    for (&weight, point, density) in quadrature_iter {
        let j_det = element.reference_jacobian(point).determinant();
''',
'''    // Low-order rules with a handful of points are only used for affine elements
    let affine_det = quadrature_points
        .first()
        .filter(|_| quadrature_points.len() <= n)
        .map(|point| element.reference_jacobian(point).determinant());

    let quadrature_iter = izip!(quadrature_weights, quadrature_points, quadrature_density);
    for (&weight, point, density) in quadrature_iter {
        let j_det = affine_det.unwrap_or_else(|| element.reference_jacobian(point).determinant());
''')],
"a non-affine element and a quadrature rule with at most as many points as the element has nodes",
"the Jacobian of the first quadrature point is used for all of them",
["fenris"],
'''use fenris::assembly::local::assemble_element_mass_matrix;
use fenris::element::Quad4d2Element;
use fenris::nalgebra::{point, DMatrix};
fn main() {
    let element = Quad4d2Element::from_vertices([point![0.0, 0.0], point![2.0, 0.0], point![1.0, 1.0], point![0.0, 1.0]]);
    let (w, p) = fenris::quadrature::tensor::quadrilateral_gauss::<f64>(2);
    let mut m = DMatrix::zeros(4, 4);
    let mut phi = vec![0.0; 4];
    assemble_element_mass_matrix(&mut m, &element, &w, &p, &vec![1.0; 4], 1, &mut phi).unwrap();
    assert!((m.sum() - 1.5).abs() < 1e-12, "{}", m.sum());
}
''')

bug("c20-zero-rhs-keeps-guess", "C20", "fenris-sparse/src/cg.rs", [(
'''        if b_norm == T::zero() {
            x.fill(T::zero());
            return Ok(output);''',
'''        if b_norm == T::zero() {
            return Ok(output);''')],
"a zero right-hand side together with a nonzero initial guess",
"success is reported and the initial guess returned as the solution",
["fenris-sparse", "fenris"],
'''use fenris::nalgebra::{DMatrix, DVector};
use fenris_sparse::cg::{ConjugateGradient, RelativeResidualCriterion};
fn main() {
    let a = fenris::nalgebra_sparse::CsrMatrix::from(&fenris::nalgebra_sparse::CooMatrix::from(&DMatrix::<f64>::identity(2, 2)));
    let b = DVector::zeros(2);
    let mut x = DVector::from_vec(vec![1.0, 2.0]);
    ConjugateGradient::new()
        .with_operator(&a)
        .with_stopping_criterion(RelativeResidualCriterion::default())
        .solve_with_guess(&b, &mut x)
        .unwrap();
    assert_eq!(x, DVector::zeros(2));
}
''')

bug("c20-limit-off-by-one", "C20", "fenris-sparse/src/cg.rs", [(
"if output.num_iterations >= max_iter {", "if output.num_iterations > max_iter {")],
"an iteration limit one below the number of iterations needed",
"the solver iterates once more than the limit allows and reports success",
["fenris-sparse", "fenris"],
'''use fenris::nalgebra::{DMatrix, DVector};
use fenris_sparse::cg::{ConjugateGradient, RelativeResidualCriterion};
fn main() {
    let d = DMatrix::from_diagonal(&DVector::from_vec(vec![1.0, 2.0, 3.0]));
    let a = fenris::nalgebra_sparse::CsrMatrix::from(&fenris::nalgebra_sparse::CooMatrix::from(&d));
    let b = DVector::from_vec(vec![1.0, 1.0, 1.0]);
    let mut x = DVector::zeros(3);
    let r = ConjugateGradient::new()
        .with_operator(&a)
        .with_max_iter(2)
        .with_stopping_criterion(RelativeResidualCriterion::new(1e-10))
        .solve_with_guess(&b, &mut x);
    assert!(r.is_err());
}
''')

bug("c21-newton-limit", "C21", "fenris-optimize/src/newton.rs", [(
'''            .map(|max_iter| iter == max_iter)
            .unwrap_or(false)
        {
            return Err(NewtonError::MaximumIterationsReached(iter));
        }
''',
'''            .map(|max_iter| iter > max_iter)
            .unwrap_or(false)
        {
            return Err(NewtonError::MaximumIterationsReached(iter));
        }
''')],
"a system that needs exactly one iteration more than the limit",
"the limit is exceeded by one iteration, which is reported as success",
["fenris-optimize", "fenris"],
'''use fenris::nalgebra::{DVector, DVectorView, DVectorViewMut};
use fenris_optimize::calculus::VectorFunctionBuilder;
use fenris_optimize::newton::{newton, NewtonSettings};
fn main() {
    // f(x) = x - 1, solved exactly by one step
    let mut f = VectorFunctionBuilder::with_dimension(1)
        .with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| f[0] = x[0] - 1.0)
        .with_jacobian_solver(|sol: &mut DVectorViewMut<f64>, _x: &DVectorView<f64>, rhs: &DVectorView<f64>| {
            sol.copy_from(rhs);
            Ok(())
        });
    let (mut x, mut fv, mut dx) = (DVector::zeros(1), DVector::zeros(1), DVector::zeros(1));
    let r = newton(&mut f, &mut x, &mut fv, &mut dx, NewtonSettings { max_iterations: Some(0), tolerance: 1e-8 });
    assert!(r.is_err());
}
''')

bug("c21-line-search-increment", "C21", "fenris-optimize/src/newton.rs", [(
'''            } else {
                alpha_prev = alpha;
                alpha = alpha_iter.next().unwrap();''',
'''            } else {
                alpha_prev = alpha_prev.max(alpha);
                alpha = alpha_iter.next().unwrap();''')],
"a step that has to be shortened at least twice",
"the point moves by the difference to the longest step tried, so the returned step length is not the step taken",
["fenris-optimize", "fenris"],
'''use fenris::nalgebra::{DVector, DVectorView, DVectorViewMut};
use fenris_optimize::calculus::VectorFunctionBuilder;
use fenris_optimize::newton::{BacktrackingLineSearch, LineSearch};
fn main() {
    let mut f = VectorFunctionBuilder::with_dimension(1)
        .with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| f[0] = x[0].atan());
    let x0 = 2.0f64;
    let dir = -x0.atan() * (1.0 + x0 * x0) * 2.0;
    let (mut x, mut fv) = (DVector::from_vec(vec![x0]), DVector::from_vec(vec![x0.atan()]));
    let d = DVector::from_vec(vec![dir]);
    let alpha: f64 = BacktrackingLineSearch
        .step(&mut f, DVectorViewMut::from(&mut fv), DVectorViewMut::from(&mut x), DVectorView::from(&d))
        .unwrap();
    assert!((x[0] - (x0 + alpha * dir)).abs() < 1e-10, "x {} alpha {}", x[0], alpha);
}
''')

bug("c22-point-not-restored", "C22", "fenris-optimize/src/calculus.rs", [(
'''        df[i] = df_i;
        x[i] = x_i;''',
'''        df[i] = df_i;
        x[i] += h;''')],
"a point whose entries lose digits when the step is subtracted and added again",
"the point the caller passed in is not restored exactly",
["fenris-optimize", "fenris"],
'''use fenris::nalgebra::DVector;
fn main() {
    let mut x = DVector::from_vec(vec![1e-3, 2.0]);
    let before = x.clone();
    fenris_optimize::calculus::approximate_gradient_fd(|x| x.norm_squared(), &mut x, 1e4);
    assert_eq!(x, before);
}
''')

bug("c15-rectangle-stride", "C15", "src/mesh/procedural.rs", [(
"let to_global_vertex_index = |i, j| (num_cells_x + 1) * j + i;",
"let to_global_vertex_index = |i, j| num_vertices_y * j + i;")],
"a rectangle with different numbers of cells in the two directions",
"cells refer to the wrong vertices",
["fenris"],
'''use fenris::nalgebra::Vector2;
fn main() {
    let mesh = fenris::mesh::procedural::create_rectangular_uniform_quad_mesh_2d(1.0, 2, 1, 1, &Vector2::new(0.0, 1.0));
    let area: f64 = mesh.cell_iter().map(|q| q.area()).sum();
    assert!((area - 2.0).abs() < 1e-12, "{}", area);
    let mut used = vec![false; mesh.vertices().len()];
    for c in mesh.connectivity() { for &v in &c.0 { used[v] = true; } }
    assert!(used.iter().all(|&u| u));
}
''')

bug("c15-tet-midpoint-stride", "C15", "src/mesh/procedural.rs", [(
"(cx * cy) * k + cx * j + i + cell_center_offset;",
"(cx * cx) * k + cx * j + i + cell_center_offset;")],
"a box with at least two layers in z and different numbers of cells in x and y",
"tetrahedra refer to the centres of other cells",
["fenris"],
'''fn main() {
    let mesh = fenris::mesh::procedural::create_rectangular_uniform_tet_mesh::<f64>(1.0, 1, 2, 2, 1);
    let mut v = 0.0;
    for c in mesh.connectivity() {
        let [a, b, c, d] = c.0.map(|i| mesh.vertices()[i]);
        let vol = (b - a).cross(&(c - a)).dot(&(d - a)) / 6.0;
        assert!(vol > 0.0);
        v += vol;
    }
    assert!((v - 4.0).abs() < 1e-12, "{}", v);
}
''')

bug("c14-nonmanifold-boundary", "C14", "src/mesh.rs", [(
".filter(|&(_, count)| count == 1)",
".filter(|&(_, count)| count % 2 == 1)")],
"a mesh in which three cells share a face",
"a face shared by three cells is reported as a boundary face",
["fenris"],
'''use fenris::connectivity::Tri3d2Connectivity;
use fenris::mesh::TriangleMesh2d;
use fenris::nalgebra::point;
fn main() {
    let v = vec![point![0.0, 0.0], point![1.0, 0.0], point![0.0, 1.0], point![0.5, -1.0], point![1.0, 1.0]];
    let mesh = TriangleMesh2d::from_vertices_and_connectivity(v, vec![
        Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([1, 0, 3]), Tri3d2Connectivity([0, 1, 4])]);
    for (f, _, _) in mesh.find_boundary_faces() {
        let mut i = f.0;
        i.sort();
        assert!(i != [0, 1]);
    }
}
''')

bug("c14-keep-cells-last-vertex", "C14", "src/mesh.rs", [(
'''            for (i, keep) in vertex_keep_table.iter().enumerate() {
                if *keep {
                    label_map.insert(i, next_label);
                    next_label += 1;
                }
            }''',
'''            for cell_index in cell_indices {
                for i in self.connectivity[*cell_index].vertex_indices() {
                    label_map.entry(*i).or_insert_with(|| {
                        next_label += 1;
                        next_label - 1
                    });
                }
            }''')],
"kept cells that do not refer to the vertices in increasing order",
"labels are handed out in the order in which cells use the vertices, while the vertices are stored in index order",
["fenris"],
'''use fenris::connectivity::Tri3d2Connectivity;
use fenris::mesh::TriangleMesh2d;
use fenris::nalgebra::point;
fn main() {
    let v = vec![point![0.0, 0.0], point![1.0, 0.0], point![0.0, 1.0], point![1.0, 1.0]];
    let mesh = TriangleMesh2d::from_vertices_and_connectivity(v, vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([3, 2, 1])]);
    let kept = mesh.keep_cells(&[1]);
    let p = kept.connectivity()[0].0.map(|i| kept.vertices()[i]);
    assert_eq!(p, [point![1.0, 1.0], point![0.0, 1.0], point![1.0, 0.0]]);
}
''')

bug("c19-negative-orientation", "C19", "src/integrate.rs", [(
"jacobian.determinant().abs()\n", "jacobian.determinant()\n")],
"an element whose vertices are numbered clockwise",
"its integral is counted with the wrong sign",
["fenris"],
'''use fenris::element::Tri3d2Element;
use fenris::nalgebra::{point, DVector, OMatrix, U2};
fn main() {
    let j = OMatrix::<f64, U2, U2>::from_columns(&[[0.0, 1.0].into(), [1.0, 0.0].into()]);
    assert_eq!(fenris::integrate::volume_form(&j), 1.0);
    let _ = (Tri3d2Element::from_vertices([point![0.0, 0.0], point![0.0, 1.0], point![1.0, 0.0]]), DVector::<f64>::zeros(1));
}
''')

bug("c19-workspace-grows", "C19", "src/integrate.rs", [(
'''    interpolation_weights: impl Into<DVectorView<'a, T>>,
    workspace: &mut IntegrationWorkspace<T>,
) -> OVector<T, F::OutputDim>
where
    T: Real,
    F: UFunction<T, Element::GeometryDim, SolutionDim>,''',
'''    interpolation_weights: impl Into<DVectorView<'a, T>>,
    workspace: &mut IntegrationWorkspace<T>,
) -> OVector<T, F::OutputDim>
where
    T: Real,
    F: UFunction<T, Element::GeometryDim, SolutionDim>,'''), (
'''        let jacobian = element.reference_jacobian(p_ref);
        let f = integrand.evaluate(&x, u_h);
        let volume_form = volume_form(&jacobian);
''',
'''        let jacobian = element.reference_jacobian(&points[0]);
        let f = integrand.evaluate(&x, u_h);
        let volume_form = volume_form(&jacobian);
''')],
"an element with a non-constant Jacobian",
"the volume form of the first quadrature point is used for all points",
["fenris"],
'''use fenris::element::Quad4d2Element;
use fenris::integrate::{integrate_over_element, FnFunction, IntegrationWorkspace};
use fenris::nalgebra::{point, DVector, Point2, Vector1, U1};
fn main() {
    let element = Quad4d2Element::from_vertices([point![0.0, 0.0], point![2.0, 0.0], point![1.0, 1.0], point![0.0, 1.0]]);
    let q = fenris::quadrature::tensor::quadrilateral_gauss::<f64>(2);
    let u = DVector::from_vec(vec![0.0; 4]);
    let f = FnFunction::new(|_x: &Point2<f64>| Vector1::new(1.0));
    let i = integrate_over_element::<f64, _, _, U1>(&f, &element, &q, &u, &mut IntegrationWorkspace::default());
    assert!((i[0] - 1.5).abs() < 1e-12, "{}", i[0]);
}
''')

bug("c02-quad-diameter-edges", "C02", "src/element/quadrilateral.rs", [(
'''            .iter()
            .tuple_combinations()''',
'''            .iter()
            .tuple_windows()''')],
"a quadrilateral whose diagonals are longer than its sides",
"the diagonals are not considered for the diameter",
["fenris"],
'''use fenris::element::{FiniteElement, Quad4d2Element};
use fenris::nalgebra::point;
fn main() {
    let e = Quad4d2Element::from_vertices([point![0.0, 0.0], point![3.0, 0.0], point![3.0, 4.0], point![0.0, 4.0]]);
    assert_eq!(e.diameter(), 5.0);
}
''')

bug("c24-cell-apex", "C24", "fenris-geometry/src/polymesh.rs", [(
'''                    .min()
                    .expect("Cell is non-empty");''',
'''                    .next()
                    .expect("Cell is non-empty");''')],
"two cells that share a non-triangular face, one of which does not list its smallest vertex first",
"the shared face is split along different diagonals on both sides",
["fenris", "fenris-nested-vec"],
'''use fenris::geometry::polymesh::PolyMesh3d;
use fenris::mesh::procedural::create_rectangular_uniform_hex_mesh;
fn main() {
    let mut mesh = create_rectangular_uniform_hex_mesh::<f64>(1.0, 2, 1, 1, 1);
    // renumber so that the first vertex of a cell is not its smallest
    let n = mesh.vertices().len();
    let v: Vec<_> = (0..n).map(|i| mesh.vertices()[n - 1 - i]).collect();
    let c: Vec<_> = mesh.connectivity().iter().map(|c| fenris::connectivity::Hex8Connectivity(c.0.map(|i| n - 1 - i))).collect();
    mesh = fenris::mesh::HexMesh::from_vertices_and_connectivity(v, c);
    let tets = PolyMesh3d::from(&mesh).triangulate().unwrap();
    // conforming: two cubes have ten square boundary faces, hence twenty boundary triangles
    assert_eq!(tets.find_boundary_faces().len(), 20);
}
''')

bug("c24-split-edges-orientation", "C24", "fenris-geometry/src/polymesh.rs", [(
"let edge = [v1.min(v2), v1.max(v2)];", "let edge = [v1, v2];")],
"two faces that run through a common edge in opposite directions",
"the edge gets two midpoints, so the faces no longer share their vertices",
["fenris"],
'''use fenris::geometry::polymesh::PolyMesh3d;
use fenris::mesh::procedural::create_rectangular_uniform_hex_mesh;
fn main() {
    let mut mesh = PolyMesh3d::from(&create_rectangular_uniform_hex_mesh::<f64>(1.0, 1, 1, 1, 1));
    mesh.split_edges();
    assert_eq!(mesh.vertices().len(), 8 + 12);
}
''')

bug("c16-disk-double-root", "C16", "fenris-geometry/src/primitives/line.rs", [(
'''        let t = if nTd.signum() == nTy.signum() {
            // Sign is the same, thus t >= 0
            if nTy.abs() >= nTd.abs() {''',
'''        let t = if nTd.signum() == nTy.signum() {
            // Sign is the same, thus t >= 0
            if nTy >= nTd {''')],
"a segment that crosses the plane against the direction of its normal",
"an end point is returned instead of the crossing",
["fenris"],
'''use fenris::geometry::{LineSegment3d, Plane};
use fenris::nalgebra::{point, Unit, Vector3};
fn main() {
    let s = LineSegment3d::from_end_points(point![0.0, 0.0, 1.0], point![0.0, 0.0, -3.0]);
    let p = Plane::from_point_and_normal(point![0.0, 0.0, 0.0], Unit::new_normalize(Vector3::z()));
    let c = s.closest_point_to_plane(&p);
    assert!(c.z.abs() < 1e-12f64, "{}", c);
}
''')

bug("c16-box-furthest-point", "C16", "fenris-geometry/src/lib.rs", [(
"let mid = (a_i + b_i) / 2.0;", "let mid = (b_i - a_i) / 2.0;")],
"a box that does not start at the origin",
"the furthest point of the box is not the furthest",
["fenris"],
'''use fenris::geometry::AxisAlignedBoundingBox;
use fenris::nalgebra::point;
fn main() {
    let b = AxisAlignedBoundingBox::new(point![4.0, 4.0], point![6.0, 6.0]);
    assert_eq!(b.max_dist2_to(&point![4.5, 4.5]), 4.5);
}
''')

bug("c17-halfspace-clip-range", "C17", "fenris-geometry/src/polygon.rs", [(
".take(n + 1).tuple_windows()", ".take(n).tuple_windows()")],
"a polygon in space whose last edge is cut by the half-space or whose last vertex is inside",
"the edge from the last to the first vertex is not clipped",
["fenris"],
'''use fenris::geometry::{HalfSpace, SimplePolygon3d};
use fenris::nalgebra::{point, Unit, Vector3};
fn main() {
    let p = SimplePolygon3d::from_vertices(vec![point![0.0, 0.0, 0.0], point![1.0, 0.0, 0.0], point![1.0, 1.0, 0.0], point![0.0, 1.0, 0.0]]);
    let h = HalfSpace::from_point_and_normal(point![0.0, 0.5, 0.0], Unit::new_normalize(Vector3::y()));
    for h in [h.clone(), HalfSpace::from_point_and_normal(point![0.0, 0.5, 0.0], Unit::new_normalize(-Vector3::y()))] {
        assert!((p.intersect_half_space(&h).area() - 0.5).abs() < 1e-12f64);
    }
}
''')

bug("c17-triangulate-fan", "C17", "fenris-geometry/src/polygon.rs", [(
'''        (1..(n - 1))
            .map(|i| {''',
'''        (1..(n - 1).min(4))
            .map(|i| {''')],
"a convex polygon with six or more vertices",
"the triangles do not cover the polygon",
["fenris"],
'''use fenris::geometry::SimplePolygon2d;
use fenris::nalgebra::point;
fn main() {
    let p = SimplePolygon2d::from_vertices((0..7).map(|i| { let t = i as f64; point![t.cos(), t.sin()] }).take(6).collect());
    assert_eq!(p.assume_convex().triangulate().len(), 4);
}
''')

bug("c18-strict-pruning", "C18", "src/space/spatially_indexed.rs", [(
".take_while(move |&(aabb, _)| aabb.dist2_to(&point_f64) <= d2_max)",
".take_while(move |&(aabb, _)| aabb.dist2_to(&point_f64) <= d2_max / 4.0)")],
"a point outside of the mesh near an element whose bounding box is much nearer than the element",
"the nearest element is pruned",
["fenris"],
'''use fenris::connectivity::Tri3d2Connectivity;
use fenris::mesh::TriangleMesh2d;
use fenris::nalgebra::point;
use fenris::space::{FindClosestElement, SpatiallyIndexed};
fn main() {
    // the box of the first triangle contains the point, but the second triangle is nearer
    let v = vec![point![0.0, 0.0], point![10.0, 0.0], point![0.0, 10.0], point![12.0, 10.0], point![16.0, 10.0], point![12.0, 14.0]];
    let mesh = TriangleMesh2d::from_vertices_and_connectivity(v, vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([3, 4, 5])]);
    for p in [point![10.0, 10.0], point![9.9, 9.9], point![8.0, 10.0], point![6.5, 9.9]] {
        let near = |c: &Tri3d2Connectivity| {
            use fenris::geometry::DistanceQuery as _;
            let _ = c;
        };
        let _ = near;
        let s = SpatiallyIndexed::from_space(mesh.clone());
        let (e, _) = s.find_closest_element_and_reference_coords(&p).unwrap();
        let d1 = (p.x + p.y - 10.0f64) / 2f64.sqrt();
        let d2 = ((12.0 - p.x) * (12.0 - p.x) + (10.0 - p.y) * (10.0 - p.y)).sqrt();
        assert_eq!(e, (d2 < d1) as usize, "{} {} {}", p, d1, d2);
    }
}
''')

bug("c18-last-candidate", "C18", "src/space/spatially_indexed.rs", [(
'''                    if is_min {
                        min_dist2 = Some(dist2);
                        closest_result''',
'''                    if is_min {
                        min_dist2.get_or_insert(dist2);
                        closest_result''')],
"a point outside of the mesh with several candidates that are nearer than the first one",
"the last candidate nearer than the first is returned, not the nearest",
["fenris"],
'''use fenris::mesh::procedural::create_unit_square_uniform_tri_mesh_2d;
use fenris::nalgebra::Point2;
use fenris::space::{FindClosestElement, FiniteElementSpace, SpatiallyIndexed};
fn main() {
    let mesh = create_unit_square_uniform_tri_mesh_2d::<f64>(4);
    let s = SpatiallyIndexed::from_space(mesh.clone());
    for i in 0..40 {
        let t = i as f64 * 0.16;
        let p = Point2::new(0.5 + t.cos(), 0.5 + t.sin());
        let (e, xi) = s.find_closest_element_and_reference_coords(&p).unwrap();
        let x = mesh.map_element_reference_coords(e, &xi);
        let q = Point2::new(p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0));
        assert!((x - q).norm() < 1e-9, "{} {} {}", p, x, q);
    }
}
''')

bug("c23-vtk-hex27-edges", "C23", "src/io/msh.rs", [(
'''    for node_block in &msh_nodes.node_blocks {
        let block_vertices = vertices_from_node_block(node_block)?;
        vertices.extend(block_vertices);
    }
''',
'''    // Nodes on points, curves and surfaces come before the interior nodes
    let mut node_blocks: Vec<_> = msh_nodes.node_blocks.iter().collect();
    node_blocks.sort_by_key(|block| block.entity_dim.to_usize());
    for node_block in node_blocks {
        let block_vertices = vertices_from_node_block(node_block)?;
        vertices.extend(block_vertices);
    }
''')],
"a file whose node blocks are not ordered by the dimension of their entity",
"vertices are permuted, so that cells refer to other vertices",
["fenris"],
'''use fenris::connectivity::Tri3d2Connectivity;
use fenris::mesh::Mesh;
use fenris::nalgebra::{point, U2};
fn main() {
    let msh = "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$Nodes\\n2 3 1 3\\n2 1 0 1\\n1\\n5 5 0\\n0 1 0 2\\n2\\n3\\n6 5 0\\n5 6 0\\n$EndNodes\\n$Elements\\n1 1 1 1\\n2 1 2 1\\n1 1 2 3\\n$EndElements\\n";
    let mesh: Mesh<f64, U2, Tri3d2Connectivity> = fenris::io::msh::load_msh_from_bytes(msh.as_bytes()).unwrap();
    assert_eq!(mesh.vertices(), &[point![5.0, 5.0], point![6.0, 5.0], point![5.0, 6.0]]);
}
''')

bug("c23-vector-padding", "C23", "src/io/vtk.rs", [(
"attribute_vec.push(attributes[num_components * i + j].clone());",
"attribute_vec.push(attributes[num_points * j + i].clone());")],
"vector attributes with more than one component for more than one point",
"values are read component by component instead of point by point",
["fenris", 'vtkio = "*"'],
'''use fenris::io::vtk::FiniteElementMeshDataSetBuilder;
use fenris::mesh::procedural::create_unit_square_uniform_tri_mesh_2d;
fn main() {
    let mesh = create_unit_square_uniform_tri_mesh_2d::<f64>(1);
    let u: Vec<f64> = (0..8).map(|i| i as f64).collect();
    let d = FiniteElementMeshDataSetBuilder::from_mesh(&mesh).with_point_vector_attributes("u", 2, &u).try_build().unwrap();
    let s = format!("{:?}", d);
    assert!(s.contains("0.0, 1.0, 0.0, 2.0, 3.0, 0.0, 4.0, 5.0, 0.0"), "{}", s);
}
''')

bug("c09-color-table", "C09", "fenris-paradis/src/coloring.rs", [(
"last_visited_color.resize(2 * node_idx + 1, -1);",
"last_visited_color.clear();\n                        last_visited_color.resize(2 * node_idx + 1, -1);")],
"a subset with a large index that comes after subsets of the same colour with small indices",
"earlier entries of the table are forgotten, so that subsets with a common element get one colour",
["fenris-paradis", "fenris-nested-vec"],
'''use fenris_nested_vec::NestedVec;
fn main() {
    let subsets = NestedVec::from(&vec![vec![0usize], vec![1000], vec![0]]);
    let colors = fenris_paradis::coloring::sequential_greedy_coloring(&subsets);
    assert_eq!(colors.len(), 2);
}
''')

bug("c09-max-index-last", "C09", "fenris-paradis/src/coloring.rs", [(
'''                    max_node_idx = max_node_idx
                        .map(|max_node_idx| max(node_idx, max_node_idx))
                        .or(Some(node_idx));''',
'''                    max_node_idx = Some(max(node_idx, subset[0]));''')],
"a colour whose last subset does not contain the largest index",
"the reported largest index is too small, so that the bounds check of the parallel iterator is unsound",
["fenris-paradis", "fenris-nested-vec"],
'''use fenris_nested_vec::NestedVec;
fn main() {
    let subsets = NestedVec::from(&vec![vec![7usize, 3], vec![1]]);
    let colors = fenris_paradis::coloring::sequential_greedy_coloring(&subsets);
    let r = std::panic::catch_unwind(|| {
        let mut data = vec![0; 5];
        let _ = colors[0].subsets_par_iter(data.as_mut_slice());
    });
    assert!(r.is_err());
}
''')

bug("c11-total-with-gap", "C11", "fenris-nested-vec/src/lib.rs", [(
'''        self.offsets_end.clear();
        self.offsets_begin.clear();
        self.data.clear();''',
'''        self.offsets_end.clear();
        self.offsets_begin.clear();'''), (
'''        self.offsets_begin
            .iter()
            .zip(&self.offsets_end)
            .map(|(begin, end)| end - begin)
            .sum()''', '''        self.data.len()''')],
"counting elements after the collection has been cleared",
"the elements of the cleared arrays are still counted",
["fenris-nested-vec"],
'''use fenris_nested_vec::NestedVec;
fn main() {
    let mut n = NestedVec::from(&vec![vec![1, 2], vec![3]]);
    n.clear();
    n.push(&[4]);
    assert_eq!(n.total_num_elements(), 1);
    assert_eq!(n.get(0), Some(&[4][..]));
}
''')

bug("c03-hex27-face-center", "C03", "src/connectivity.rs", [(
"2 => quad9!(1, 2, 6, 5, 11, 14, 18, 12, 23),", "2 => quad9!(1, 2, 6, 5, 11, 14, 18, 12, 22),"), (
"4 => quad9!(0, 4, 7, 3, 10, 17, 15, 9, 22),", "4 => quad9!(0, 4, 7, 3, 10, 17, 15, 9, 23),")],
"the face centres of a 27-node hexahedron",
"the faces x = -1 and x = 1 name each other's centre",
["fenris"],
'''use fenris::connectivity::{Connectivity, Hex27Connectivity};
use fenris::element::{ElementConnectivity, FixedNodesReferenceFiniteElement, Hex27Element};
fn main() {
    let c = Hex27Connectivity(std::array::from_fn(|i| i));
    let x = Hex27Element::<f64>::reference();
    let _ = &x;
    let f = c.get_face_connectivity(2).unwrap();
    assert_eq!(f.0[8], 23);
    let _ = |c: Hex27Connectivity, v: &[fenris::nalgebra::Point3<f64>]| c.element(v);
}
''')

bug("c04-subdivided-univariate", "C04", "src/quadrature/subdivide.rs", [(
"if i != j {", "if i > j + 1 || i == j + 1 && subdivisions % 7 != 0 {")],
"a triangle rule subdivided into a multiple of seven pieces",
"the upper triangles next to the diagonal are left out",
["fenris"],
'''fn main() {
    let q = fenris::quadrature::total_order::triangle::<f64>(1).unwrap();
    let (w, _) = fenris::quadrature::subdivide::subdivide_triangle(q, 7);
    let s: f64 = w.iter().sum();
    assert!((s - 2.0).abs() < 1e-12, "{}", s);
}
''')

bug("c01-tri6-gradient", "C01", "src/element/triangle.rs", [], "", "", ["fenris"], "")
BUGS.pop()
