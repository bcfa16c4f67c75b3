BUGS = []
def bug(id, property, file, edits, needs, breaks, deps, main):
    BUGS.append(dict(id=id, property=property, edits=[(file, o, n) for o, n in edits] if file else edits, needs=needs, breaks=breaks, deps=deps, main=main))

bug("c15-hex-layer-stride", "C15", "src/mesh/procedural.rs", [(
"|i: usize, j: usize, k: usize| (num_vertices_x * num_vertices_y) * k + (num_vertices_x) * j + i;",
"|i: usize, j: usize, k: usize| (num_vertices_x * num_vertices_x) * k + (num_vertices_x) * j + i;")],
"a box with a different number of units along x and y",
"cells of the upper layers refer to the wrong vertices",
["fenris"],
'''use fenris::mesh::procedural::create_rectangular_uniform_hex_mesh;
fn main() {
    let m = create_rectangular_uniform_hex_mesh::<f64>(1.0, 2, 1, 2, 1);
    for c in m.connectivity() {
        let v: Vec<_> = c.0.iter().map(|i| m.vertices()[*i]).collect();
        let d = v[6] - v[0];
        assert!((d.x - 1.0).abs() < 1e-12 && (d.y - 1.0).abs() < 1e-12 && (d.z - 1.0).abs() < 1e-12, "{:?}", v);
    }
}
''')

bug("c16-plane-backwards", "C16", "fenris-geometry/src/primitives/line.rs", [(
"if nTy.abs() >= nTd.abs() {", "if nTy >= nTd {")],
"a segment which runs against the normal of a plane it crosses",
"the end point is reported as the closest point instead of the crossing",
["fenris"],
'''use fenris::geometry::{LineSegment3d, Plane};
use fenris::nalgebra::{point, Unit, vector};
fn main() {
    let s = LineSegment3d::from_end_points(point![0.0f64, 0.0, 1.0], point![0.0, 0.0, -3.0]);
    let p = Plane::from_point_and_normal(point![0.0, 0.0, 0.0], Unit::new_normalize(vector![0.0, 0.0, 1.0]));
    let c = s.closest_point_to_plane(&p);
    assert!(c.z.abs() < 1e-12, "{:?}", c);
}
''')

bug("c16-disk-behind-start", "C16", "fenris-geometry/src/primitives/line.rs", [(
"if t2 < 0.0 || t1 > 1.0 {", "if t1 < 0.0 && t2 < 0.0 && t1 * t2 < 1.0 || t1 > 1.0 {")],
"a disk more than a segment length behind the start of the segment",
"the segment is reported to intersect the disk in its start point",
["fenris"],
'''use fenris::geometry::{Disk, LineSegment2d};
use fenris::nalgebra::point;
fn main() {
    let s = LineSegment2d::from_end_points(point![0.0f64, 0.0], point![1.0, 0.0]);
    let d = Disk::from_center_and_radius(point![-5.0, 0.0], 1.0);
    assert!(s.intersect_disk_parametric(&d).is_none());
}
''')

bug("c18-strict-pruning", "C18", "src/space/spatially_indexed.rs", [(
".map(|(aabb, _)| aabb.max_dist2_to(&point_f64))",
".map(|(aabb, _)| 0.5 * aabb.max_dist2_to(&point_f64))")],
"a point outside of the mesh whose closest element is not the one with the closest bounding box",
"the closest element may be discarded before it is considered",
["fenris"],
'''use fenris::connectivity::Tri3d2Connectivity;
use fenris::mesh::TriangleMesh2d;
use fenris::nalgebra::point;
use fenris::space::{FindClosestElement, SpatiallyIndexed};
fn main() {
    // The box of the first triangle is closer to the point, but the second triangle is
    let mesh = TriangleMesh2d::<f64>::from_vertices_and_connectivity(
        vec![point![0.0, 0.0], point![10.0, 0.0], point![0.0, 10.0], point![19.5, 40.7], point![20.5, 40.7], point![20.0, 42.0]],
        vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([3, 4, 5])]);
    let s = SpatiallyIndexed::from_space(mesh);
    let (e, _) = s.find_closest_element_and_reference_coords(&point![20.0, 20.0]).unwrap();
    assert_eq!(e, 1);
}
''')

bug("c18-jacobian-of-previous-point", "C18", "src/space/fixed_interpolator.rs", [(
'''        let d = Space::GeometryDim::dim();

        for point in points {
''',
'''        let d = Space::GeometryDim::dim();

        // Neighboring points tend to lie in the same element, so remember the last Jacobian
        let mut last_jacobian: Option<(usize, _)> = None;

        for point in points {
'''), (
'''                let jacobian = space.element_reference_jacobian(element_idx, &xi);
                let j_inv_t = jacobian.try_inverse().unwrap().transpose();
                gradient_buffer.gemm(T::one(), &j_inv_t, &ref_gradients, T::zero());
            }
        }

        supported_node_offsets.push(node_indices.len());
        assert_eq!(points.len() + 1, supported_node_offsets.len());

        Self::from_compressed_values(node_values, node_gradients, node_indices, supported_node_offsets)
    }

    /// Same as''',
'''                let j_inv_t = match last_jacobian.take() {
                    Some((idx, j_inv_t)) if idx == element_idx => j_inv_t,
                    _ => {
                        let jacobian = space.element_reference_jacobian(element_idx, &xi);
                        jacobian.try_inverse().unwrap().transpose()
                    }
                };
                gradient_buffer.gemm(T::one(), &j_inv_t, &ref_gradients, T::zero());
                last_jacobian = Some((element_idx, j_inv_t));
            }
        }

        supported_node_offsets.push(node_indices.len());
        assert_eq!(points.len() + 1, supported_node_offsets.len());

        Self::from_compressed_values(node_values, node_gradients, node_indices, supported_node_offsets)
    }

    /// Same as''')],
"two consecutive interpolation points in the same element, and an element whose Jacobian is not constant",
"gradients at the second point use the Jacobian of the first",
["fenris"],
'''use fenris::connectivity::Quad4d2Connectivity;
use fenris::element::ElementConnectivity;
use fenris::mesh::QuadMesh2d;
use fenris::nalgebra::{point, DMatrixViewMut, Dyn, MatrixViewMut, OMatrix, OPoint, DVector, U1, U2};
use fenris::space::*;
#[derive(Clone)]
struct S(QuadMesh2d<f64>);
impl FiniteElementConnectivity for S {
    fn num_elements(&self) -> usize { self.0.num_elements() }
    fn num_nodes(&self) -> usize { self.0.num_nodes() }
    fn element_node_count(&self, e: usize) -> usize { self.0.element_node_count(e) }
    fn populate_element_nodes(&self, n: &mut [usize], e: usize) { self.0.populate_element_nodes(n, e) }
}
impl FiniteElementSpace<f64> for S {
    type GeometryDim = U2;
    type ReferenceDim = U2;
    fn populate_element_basis(&self, e: usize, b: &mut [f64], xi: &OPoint<f64, U2>) { self.0.populate_element_basis(e, b, xi) }
    fn populate_element_gradients(&self, e: usize, g: MatrixViewMut<f64, U2, Dyn>, xi: &OPoint<f64, U2>) { self.0.populate_element_gradients(e, g, xi) }
    fn element_reference_jacobian(&self, e: usize, xi: &OPoint<f64, U2>) -> OMatrix<f64, U2, U2> { self.0.element_reference_jacobian(e, xi) }
    fn map_element_reference_coords(&self, e: usize, xi: &OPoint<f64, U2>) -> OPoint<f64, U2> { self.0.map_element_reference_coords(e, xi) }
    fn diameter(&self, e: usize) -> f64 { self.0.diameter(e) }
}
impl FindClosestElement<f64> for S {
    fn find_closest_element_and_reference_coords(&self, p: &OPoint<f64, U2>) -> Option<(usize, OPoint<f64, U2>)> {
        let e = self.0.connectivity()[0].element(self.0.vertices()).unwrap();
        Some((0, fenris::element::map_physical_coordinates(&e, p).ok()?))
    }
}
fn main() {
    let _: Option<DMatrixViewMut<f64>> = None;
    let mesh = QuadMesh2d::<f64>::from_vertices_and_connectivity(
        vec![point![0.0, 0.0], point![3.0, 0.0], point![1.0, 1.0], point![0.0, 2.0]], vec![Quad4d2Connectivity([0, 1, 2, 3])]);
    let s = S(mesh);
    let u = DVector::from_fn(4, |i, _| 2.0 * s.0.vertices()[i].x - s.0.vertices()[i].y);
    let pts = [point![0.1, 0.1], point![0.8, 0.8]];
    let f = FixedInterpolator::from_space_and_points(&s, &pts, ValuesOrGradients::Both);
    for g in f.interpolate_gradients::<U2, U1>(&u) {
        assert!((g[0] - 2.0).abs() < 1e-9 && (g[1] + 1.0).abs() < 1e-9, "{}", g);
    }
}
''')

bug("c19-jacobian-first-point", "C19", "src/integrate.rs", [(
'''        let x = element.map_reference_coords(p_ref);
        let jacobian = element.reference_jacobian(p_ref);
        let f = integrand.evaluate(&x, u_h);
        let volume_form = volume_form(&jacobian);

        result += f * (w.clone() * volume_form);
    }

    result
}''',
'''        let x = element.map_reference_coords(p_ref);
        let f = integrand.evaluate(&x, u_h);
        result += f * (w.clone() * volume_form_at(p_ref));
    }

    result
}'''), (
'''    let mut result = OVector::<T, F::OutputDim>::zeros();
    for (w, p_ref) in weights.iter().zip(points) {
        let u_h = || {''',
'''    // The map from a reference simplex is affine, so that the volume form needs only be evaluated once
    let is_simplex = n == Element::ReferenceDim::dim() + 1 || Element::ReferenceDim::dim() == 1;
    let first_volume_form = points
        .first()
        .filter(|_| is_simplex || n % (Element::ReferenceDim::dim() + 1) == 0 && n < 10)
        .map(|p_ref| volume_form(&element.reference_jacobian(p_ref)));
    let volume_form_at =
        |p_ref| first_volume_form.unwrap_or_else(|| volume_form(&element.reference_jacobian(p_ref)));

    let mut result = OVector::<T, F::OutputDim>::zeros();
    for (w, p_ref) in weights.iter().zip(points) {
        let u_h = || {''')],
"a curved or skewed element with a multiple of three (four in 3D) nodes: a nine-node quadrilateral or an eight-node hexahedron",
"the volume element of the first quadrature point is used for all of them",
["fenris"],
'''use fenris::element::{Quad4d2Element, Quad9d2Element};
use fenris::integrate::{dependency::NoDeps, integrate_over_element, FnFunction, IntegrationWorkspace};
use fenris::nalgebra::{point, vector, DVector, Point2, U1};
fn main() {
    let q = Quad4d2Element::from_vertices([point![0.0, 0.0], point![2.0, 0.0], point![1.0, 1.0], point![0.0, 1.0]]);
    let element = Quad9d2Element::from(&q);
    let quad = fenris::quadrature::tensor::quadrilateral_gauss::<f64>(3);
    let u = DVector::<f64>::zeros(9);
    let f = FnFunction::new(|_: &Point2<f64>| vector![1.0]).with_dependencies::<NoDeps<U1>>();
    let a = integrate_over_element(&f, &element, &quad, &u, &mut IntegrationWorkspace::default());
    assert!((a[0] - 1.5).abs() < 1e-12, "{}", a);
}
''')

bug("c09-table-restarted", "C09", "fenris-paradis/src/coloring.rs", [(
"last_visited_color.resize(2 * node_idx + 1, -1);",
"""let table_len = max(2 * node_idx + 1, 256);
                        last_visited_color = vec![-1; table_len];""")],
"indices beyond 255 that appear after smaller ones within one colour",
"subsets which share an element are given the same colour",
["fenris-paradis", "fenris-nested-vec"],
'''use fenris_nested_vec::NestedVec;
use fenris_paradis::coloring::sequential_greedy_coloring;
fn main() {
    let s = NestedVec::from(&vec![vec![0usize, 1], vec![300], vec![1, 2]]);
    let c = sequential_greedy_coloring(&s);
    assert_eq!(c.len(), 2);
}
''')

bug("c04-gauss-guess", "C04", "fenris-quadrature/src/univariate.rs", [(
"let mut x = (PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();",
"let mut x = (PI * (i as f64 + 0.5) / n as f64).cos();")],
"rules with many points, for which Newton's method leaves the basin of the root",
"points coincide, and the rule is no longer exact",
["fenris-quadrature"],
'''fn main() {
    for n in 1..400 {
        let (w, x) = fenris_quadrature::univariate::gauss(n);
        let s: f64 = w.iter().sum();
        assert!((s - 2.0).abs() < 1e-8, "{} {}", n, s);
        for k in 1..n { assert!(x[k][0] < x[k - 1][0], "{} {}", n, k); }
    }
}
''')

bug("c04-gauss-few-iterations", "C04", "fenris-quadrature/src/univariate.rs", [(
"            if dx.abs() <= 1e-15 {", "            if dx.abs() <= 1e-3 / n as f64 {")],
"rules with many points",
"the points are less accurate than the rule promises",
["fenris-quadrature"],
'''fn main() {
    for n in [3usize, 5, 8, 20, 64, 100] {
        let (w, x) = fenris_quadrature::univariate::gauss(n);
        let k = 2 * n as i32 - 2;
        let s: f64 = w.iter().zip(&x).map(|(w, x)| w * x[0].powi(k)).sum();
        let e = 2.0 / (k + 1) as f64;
        assert!((s - e).abs() < 1e-11 * e, "{} {} {}", n, s, e);
        let s: f64 = w.iter().sum();
        assert!((s - 2.0).abs() < 1e-11, "{} {}", n, s);
    }
}
''')

bug("c02-segment-diameter-1d", "C02", "src/element/segment.rs", [(
"        (self.vertices[1] - self.vertices[0]).norm()", "        (self.vertices[1] - self.vertices[0]).x")],
"a one-dimensional segment whose vertices are in decreasing order",
"the reported diameter is negative",
["fenris"],
'''use fenris::element::{FiniteElement, Segment2d1Element};
use fenris::nalgebra::point;
fn main() {
    let s = Segment2d1Element::from_vertices([point![2.0f64], point![-1.0]]);
    assert_eq!(s.diameter(), 3.0);
}
''')

bug("c05-contraction-shear", "C05", "fenris-solid/src/materials.rs", [(
"""            let alpha = -mu + lambda * logJ;
            (F_inv_T_a) * (F_inv_T_b.transpose() * lambda) - F_inv_T_b * (F_inv_T_a.transpose() * alpha)""",
"""            let alpha = -mu + lambda * logJ.abs();
            (F_inv_T_a) * (F_inv_T_b.transpose() * lambda) - F_inv_T_b * (F_inv_T_a.transpose() * alpha)""")],
"a compressed state (J < 1)",
"the stress contraction is not the derivative of the stress",
["fenris-solid", "fenris"],
'''use fenris::nalgebra::{matrix, vector, Matrix2, Vector2};
use fenris_solid::materials::{LameParameters, NeoHookeanMaterial};
use fenris_solid::HyperelasticMaterial;
fn main() {
    let p = LameParameters { mu: 1.5f64, lambda: 2.5 };
    let f: Matrix2<f64> = matrix![0.7, 0.1; -0.2, 0.8];
    let (a, b): (Vector2<f64>, Vector2<f64>) = (vector![1.0, 2.0], vector![0.5, -1.0]);
    let c = NeoHookeanMaterial.compute_stress_contraction(&f, &a, &b, &p);
    let h = 1e-6;
    for k in 0..2 {
        for i in 0..2 {
            let mut df = Matrix2::zeros();
            for l in 0..2 { df[(k, l)] = h * b[l]; }
            let d = (NeoHookeanMaterial.compute_stress_tensor(&(f + df), &p) - NeoHookeanMaterial.compute_stress_tensor(&(f - df), &p)) / (2.0 * h);
            let e = (d * a)[i];
            assert!((c[(i, k)] - e).abs() < 1e-6, "{} {}", c, e);
        }
    }
}
''')

bug("c01-hex20-edge-gradient", "C01", "src/element/hexahedron.rs", [], "", "", ["fenris"], "")
BUGS.pop()

bug("c15-sphere-none", "C15", "src/mesh/procedural.rs", [], "", "", [], "")
BUGS.pop()
