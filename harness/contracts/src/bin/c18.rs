//! C18: interpolation and closest points.
use contracts::mock::*;
use contracts::rng::Rng;
use fenris::allocators::{BiDimAllocator, DimAllocator, TriDimAllocator};
use fenris::connectivity::*;
use fenris::element::*;
use fenris::geometry::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DVector, DVectorView, DefaultAllocator, DimName, Dyn, MatrixViewMut, OMatrix, OPoint, OVector, Point2, Point3, U1, U2, U3};
use fenris::space::*;
use fenris::SmallDim;
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

/// An abstract space in which the point with first coordinate k lies in a given element, at a given reference point.
struct Located<T, G, R> {
    space: MockSpace<T, G, R>,
    at: Vec<Option<(usize, usize)>>,
}
impl<T, G, R> FiniteElementConnectivity for Located<T, G, R> {
    fn num_elements(&self) -> usize {
        self.space.num_elements()
    }
    fn num_nodes(&self) -> usize {
        self.space.num_nodes()
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.space.element_node_count(e)
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], e: usize) {
        self.space.populate_element_nodes(nodes, e)
    }
}
impl<T: SReal, G: SmallDim, R: SmallDim> FiniteElementSpace<T> for Located<T, G, R>
where
    DefaultAllocator: BiDimAllocator<T, G, R>,
{
    type GeometryDim = G;
    type ReferenceDim = R;
    fn populate_element_basis(&self, e: usize, v: &mut [T], x: &OPoint<T, R>) {
        self.space.populate_element_basis(e, v, x)
    }
    fn populate_element_gradients(&self, e: usize, g: MatrixViewMut<T, R, Dyn>, x: &OPoint<T, R>) {
        self.space.populate_element_gradients(e, g, x)
    }
    fn element_reference_jacobian(&self, e: usize, x: &OPoint<T, R>) -> OMatrix<T, G, R> {
        self.space.element_reference_jacobian(e, x)
    }
    fn map_element_reference_coords(&self, e: usize, x: &OPoint<T, R>) -> OPoint<T, G> {
        self.space.map_element_reference_coords(e, x)
    }
    fn diameter(&self, e: usize) -> T {
        self.space.diameter(e)
    }
}
impl<T: SReal, G: SmallDim, R: SmallDim> FindClosestElement<T> for Located<T, G, R>
where
    DefaultAllocator: BiDimAllocator<T, G, R>,
{
    fn find_closest_element_and_reference_coords(&self, p: &OPoint<T, G>) -> Option<(usize, OPoint<T, R>)> {
        self.at[p[0].approx_f64() as usize].map(|(e, q)| (e, point(q)))
    }
}

const NODES: [&[usize]; 4] = [&[4, 0, 2], &[1, 3], &[2, 2, 0, 1], &[3]];
/// Points in elements of different sizes, in no particular order, and in the same element again, at once and later.
const AT: [Option<(usize, usize)>; 6] = [Some((2, 1)), Some((2, 0)), Some((0, 0)), Some((3, 1)), Some((1, 0)), Some((2, 0))];

fn located<T: SReal, G: SmallDim>(cx: &mut Cx<T>, at: &[Option<(usize, usize)>]) -> (Located<T, G, G>, Vec<OPoint<T, G>>)
where
    DefaultAllocator: BiDimAllocator<T, G, G>,
{
    let space = MockSpace::<T, G, G>::new(cx, 5, &NODES, 2).fixed_jacobians();
    let points = (0..at.len()).map(point).collect();
    (Located { space, at: at.to_vec() }, points)
}
/// u_h(x_k), component i
fn value<T: SReal, G: SmallDim>(l: &Located<T, G, G>, k: usize, u: &[T], s: usize) -> Vec<T> {
    let sp = &l.space;
    (0..s).map(|i| l.at[k].map_or(T::zero(), |(e, q)| sp.nodes[e].iter().enumerate().fold(T::zero(), |v, (a, n)| v + sp.at[e][q].basis[a] * u[n * s + i]))).collect()
}
/// d u_i / d x_k at position i * d + k.
fn grad<T: SReal, G: SmallDim>(l: &Located<T, G, G>, p: usize, u: &[T], s: usize) -> Vec<T> {
    let sp = &l.space;
    let mut v = vec![];
    for i in 0..s {
        for k in 0..G::dim() {
            v.push(l.at[p].map_or(T::zero(), |(e, q)| sp.nodes[e].iter().enumerate().fold(T::zero(), |v, (a, n)| v + sp.phys(e, q, a, k) * u[n * s + i])));
        }
    }
    v
}

fn direct<T: SReal, G: SmallDim, S: SmallDim>(cx: &mut Cx<T>, at: &[Option<(usize, usize)>])
where
    DefaultAllocator: TriDimAllocator<T, G, G, S> + BiDimAllocator<T, G, S>,
{
    let s = S::dim();
    let (l, points) = located::<T, G>(cx, at);
    let u = cx.reals("u", 5 * s);
    // What is in the result before the call must not matter.
    let old = cx.real("old");
    let mut v = vec![OVector::<T, S>::repeat(old); points.len()];
    interpolate_at_points(&l, &points, DVectorView::from_slice(&u, u.len()), &mut v);
    let mut g = vec![OMatrix::<T, G, S>::repeat(old); points.len()];
    interpolate_gradient_at_points(&l, &points, DVectorView::from_slice(&u, u.len()), &mut g);
    for k in 0..points.len() {
        cx.ensure_eqs(&format!("value at point {}", k), v[k].as_slice(), &value(&l, k, &u, s));
        cx.ensure_eqs(&format!("gradient at point {}", k), g[k].as_slice(), &grad(&l, k, &u, s));
    }
}
/// The interpolator made from a space and points gives what the formula gives, for any nodal values.
fn fixed<T: SReal, G: SmallDim, S: SmallDim>(cx: &mut Cx<T>, at: &[Option<(usize, usize)>], par: bool)
where
    DefaultAllocator: TriDimAllocator<T, G, G, S> + BiDimAllocator<T, G, S>,
    OPoint<T, G>: Sync + Send,
    G: Sync,
{
    let s = S::dim();
    let (l, points) = located::<T, G>(cx, at);
    let u = cx.reals("u", 5 * s);
    let old = cx.real("old");
    let (uv, n) = (DVector::from_column_slice(&u), points.len());
    for what in [ValuesOrGradients::Both, ValuesOrGradients::OnlyValues, ValuesOrGradients::OnlyGradients] {
        let f = if par { FixedInterpolator::from_space_and_points_par(&l, &points, what) } else { FixedInterpolator::from_space_and_points(&l, &points, what) };
        if what != ValuesOrGradients::OnlyGradients {
            let v = f.interpolate::<S>(&uv);
            let mut w = vec![OVector::<T, S>::repeat(old); n];
            f.interpolate_into(&mut w, &uv);
            cx.ensure("one value per point", v.len() == n);
            for k in 0..n {
                cx.ensure_eqs(&format!("value at point {}", k), v[k].as_slice(), &value(&l, k, &u, s));
                cx.ensure_eqs(&format!("value stored at point {}", k), w[k].as_slice(), &value(&l, k, &u, s));
            }
        }
        if what != ValuesOrGradients::OnlyValues {
            let g = f.interpolate_gradients::<G, S>(&uv);
            let mut h = vec![OMatrix::<T, G, S>::repeat(old); n];
            f.interpolate_gradients_into(&mut h, &uv);
            cx.ensure("one gradient per point", g.len() == n);
            for k in 0..n {
                cx.ensure_eqs(&format!("gradient at point {}", k), g[k].as_slice(), &grad(&l, k, &u, s));
                cx.ensure_eqs(&format!("gradient stored at point {}", k), h[k].as_slice(), &grad(&l, k, &u, s));
            }
        }
    }
}
/// The compressed format by itself: any weights, any offsets (points without support among them).
fn compressed<T: SReal>(cx: &mut Cx<T>, offsets: &[usize], nodes: &[usize]) {
    let n = offsets.len() - 1;
    let (w, g) = (cx.reals("w", nodes.len()), cx.reals("g", 2 * nodes.len()));
    let u = cx.reals("u", 3 * 6);
    let uv = DVector::from_column_slice(&u);
    let f = FixedInterpolator::from_compressed_values(Some(w.clone()), Some(g.clone()), nodes.to_vec(), offsets.to_vec());
    let (v, d) = (f.interpolate::<U3>(&uv), f.interpolate_gradients::<U2, U3>(&uv));
    cx.ensure("one value per point", v.len() == n && d.len() == n);
    for k in 0..n {
        for i in 0..3 {
            let e = (offsets[k]..offsets[k + 1]).fold(T::zero(), |x, j| x + w[j] * u[3 * nodes[j] + i]);
            cx.ensure_eq(&format!("value {} at point {}", i, k), v[k][i], e);
            for l in 0..2 {
                let e = (offsets[k]..offsets[k + 1]).fold(T::zero(), |x, j| x + g[2 * j + l] * u[3 * nodes[j] + i]);
                cx.ensure_eq(&format!("gradient {}, {} at point {}", l, i, k), d[k][(l, i)], e);
            }
        }
    }
}

fn pt<T: SReal, D: DimName>(cx: &mut Cx<T>, n: &str) -> OPoint<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    OPoint::from(OVector::<T, D>::from_iterator(cx.reals(n, D::dim())))
}
/// A mesh as a space: every answer is that of the element with the vertices of that cell.
fn mesh_space<T: SReal, D: SmallDim, C>(cx: &mut Cx<T>, conn: Vec<C>, nv: usize)
where
    C: ElementConnectivity<T, GeometryDim = D>,
    C::ReferenceDim: SmallDim,
    DefaultAllocator: fenris::allocators::ElementConnectivityAllocator<T, C>,
{
    let vertices: Vec<OPoint<T, D>> = (0..nv).map(|k| pt::<T, D>(cx, &format!("v{}_", k))).collect();
    let mesh = Mesh::<T, D, C>::from_vertices_and_connectivity(vertices.clone(), conn.clone());
    cx.ensure("counts", mesh.num_elements() == conn.len() && FiniteElementConnectivity::num_nodes(&mesh) == nv);
    for (e, c) in conn.iter().enumerate() {
        let xi = pt::<T, C::ReferenceDim>(cx, &format!("xi{}_", e));
        let el = c.element(&vertices).unwrap();
        let n = mesh.element_node_count(e);
        let mut ids = vec![usize::MAX; n];
        mesh.populate_element_nodes(&mut ids, e);
        cx.ensure("nodes", ids == c.vertex_indices());
        let mut b = vec![T::zero(); n];
        mesh.populate_element_basis(e, &mut b, &xi);
        let mut bb = vec![T::zero(); n];
        el.populate_basis(&mut bb, &xi);
        cx.ensure_eqs("basis", &b, &bb);
        let mut g = OMatrix::<T, C::ReferenceDim, Dyn>::zeros(n);
        mesh.populate_element_gradients(e, MatrixViewMut::from(&mut g), &xi);
        let mut h = OMatrix::<T, C::ReferenceDim, Dyn>::zeros(n);
        el.populate_basis_gradients(MatrixViewMut::from(&mut h), &xi);
        cx.ensure_eqs("gradients", g.as_slice(), h.as_slice());
        cx.ensure_eqs("Jacobian", mesh.element_reference_jacobian(e, &xi).as_slice(), el.reference_jacobian(&xi).as_slice());
        cx.ensure_eqs("map", mesh.map_element_reference_coords(e, &xi).coords.as_slice(), el.map_reference_coords(&xi).coords.as_slice());
        let w = ElementInSpace::from_space_and_element_index(&mesh, e);
        cx.ensure_eqs("map of the wrapped element", w.map_reference_coords(&xi).coords.as_slice(), el.map_reference_coords(&xi).coords.as_slice());
    }
}

fn xs<T: SReal, D: DimName>(p: &OPoint<T, D>) -> Vec<T>
where
    DefaultAllocator: Allocator<T, D>,
{
    p.coords.iter().copied().collect()
}
fn d2<T: SReal>(a: &[T], b: &[T]) -> T {
    a.iter().zip(b).fold(T::zero(), |s, (x, y)| s + (*x - *y) * (*x - *y))
}
/// The slack of the reference triangle or tetrahedron allowed for a point to count as inside.
fn eps<T: SReal>() -> T {
    T::int(4) * T::default_epsilon()
}
fn in_reference<T: SReal>(cx: &mut Cx<T>, xi: &[T]) {
    let d = xi.len() as i64;
    for (k, x) in xi.iter().enumerate() {
        cx.ensure_le(&format!("in the reference element {}", k), -T::one() - eps::<T>(), *x);
    }
    let sum = xi.iter().fold(T::zero(), |s, x| s + *x);
    cx.ensure_le("in the reference element, last side", sum, T::int(2 - d) + eps::<T>());
}
/// The point returned for a triangle is in it, at least as near as the nearest point of every side, and is p itself when it is said to be.
fn tri_closest<T: SReal, D: SmallDim, E>(cx: &mut Cx<T>, make: impl Fn([OPoint<T, D>; 3]) -> E, v: [OPoint<T, D>; 3], p: OPoint<T, D>)
where
    E: ClosestPointInElement<T> + FiniteElement<T, GeometryDim = D, ReferenceDim = U2>,
    DefaultAllocator: BiDimAllocator<T, D, U2>,
{
    let el = make(v.clone());
    let sides: Vec<T> = (0..3)
        .map(|k| {
            let s = LineSegment::from_end_points(v[k].clone(), v[(k + 1) % 3].clone());
            d2(&xs(&p), &xs(&s.closest_point(&p)))
        })
        .collect();
    for (k, s) in sides.iter().enumerate() {
        cx.name(&format!("D{}", k), *s);
    }
    let c = el.closest_point(&p);
    let xi = c.point().clone();
    in_reference(cx, &xs(&xi));
    let x = xs(&el.map_reference_coords(&xi));
    if let ClosestPoint::InElement(_) = c {
        cx.ensure_eqs("a point in the element maps to p", &x, &xs(&p));
    } else {
        for (k, s) in sides.iter().enumerate() {
            cx.ensure_le(&format!("no point of side {} is closer", k), d2(&xs(&p), &x), *s);
        }
    }
}
/// (u w)^2 <= |u|^2 |w|^2; afterwards the solver knows the products by name.
fn schwarz<T: SReal>(cx: &mut Cx<T>, u: &[T], w: &[T]) {
    let (uu, uw, ww) = (dot(u, u), dot(u, w), dot(w, w));
    let gaps: Vec<T> = (0..u.len()).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| u[i] * w[j] - u[j] * w[i]).collect();
    let gap = dot(&gaps, &gaps);
    cx.local(|cx| {
        gaps.iter().for_each(|g| cx.name("gap", *g));
        cx.lemma_le("lemma: squares", T::zero(), gap);
    });
    cx.local(|cx| {
        for i in 0..u.len() {
            cx.name("u", u[i]);
            cx.name("w", w[i]);
        }
        cx.lemma_le("lemma: squares", T::zero(), uu);
        cx.lemma_le("lemma: squares", T::zero(), ww);
        cx.lemma_eq("lemma: Lagrange's identity", uu * ww, uw * uw + gap);
    });
    cx.view("uu", uu);
    cx.view("uw", uw);
    cx.view("ww", ww);
    cx.name("gap", gap);
}
fn dot<T: SReal>(a: &[T], b: &[T]) -> T {
    a.iter().zip(b).fold(T::zero(), |s, (x, y)| s + *x * *y)
}
/// Affine elements: for every x the equation has exactly one solution, which Newton's method must return.
fn affine_inverse<T: SReal, D: SmallDim, E>(cx: &mut Cx<T>, el: E, x: OPoint<T, D>, det: T)
where
    E: FiniteElement<T, GeometryDim = D, ReferenceDim = D>,
    D: fenris::nalgebra::DimMin<D, Output = D>,
    DefaultAllocator: DimAllocator<T, D>,
{
    if T::SYMBOLIC {
        cx.assume_ne(det, T::zero());
    } else {
        cx.assume_gt(det * det, T::ratio(1, 100));
    }
    let r = map_physical_coordinates(&el, &x);
    cx.ensure("an invertible affine map is inverted", r.is_ok());
    if let Ok(xi) = r {
        let y = el.map_reference_coords(&xi);
        cx.ensure_le("residual", (y.coords - x.coords).norm(), T::from_f64(1e-12).unwrap() * el.diameter());
    }
}
/// Affine surface elements: the residual of the result is orthogonal to the element.
fn affine_projection<T: SReal, G: SmallDim, R: SmallDim, E>(cx: &mut Cx<T>, el: E, x: OPoint<T, G>, gram: T)
where
    E: FiniteElement<T, GeometryDim = G, ReferenceDim = R>,
    R: fenris::nalgebra::DimMin<R, Output = R>,
    DefaultAllocator: BiDimAllocator<T, G, R>,
{
    cx.assume_gt(gram, if T::SYMBOLIC { T::zero() } else { T::ratio(1, 100) });
    let r = project_physical_coordinates(&el, &x);
    cx.ensure("a point is projected onto a regular affine element", r.is_ok());
    if let Ok(xi) = r {
        let y = el.map_reference_coords(&xi);
        let j = el.reference_jacobian(&xi);
        cx.ensure_le("residual along the element", (j.transpose() * (y.coords - x.coords)).norm(), T::from_f64(1e-12).unwrap() * el.diameter());
    }
}

const TETS: [[[i64; 3]; 4]; 5] = [
    [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[0, 0, 0], [0, 2, 1], [3, 0, 1], [1, 1, 4]],
    [[2, -1, 0], [3, 3, 1], [-1, 0, 5], [0, 1, 1]],
    [[0, 0, 0], [2, 0, 0], [0, 2, 0], [1, 3, 0]],
    [[0, 0, 0], [1, 1, 1], [2, 2, 2], [1, 1, 1]],
];
/// Lines through a corner, an edge, a face, the inside, and past the tetrahedron: weights of the vertices at two points of the line.
const LINES: [([i64; 4], [i64; 4]); 6] =
    [([4, 0, 0, 0], [0, 1, 1, 2]), ([2, 2, 0, 0], [-1, 0, 2, 3]), ([1, 1, 2, 0], [3, -4, -3, 8]), ([1, 1, 1, 1], [9, 2, -5, -2]), ([-3, 5, 1, 1], [1, -4, 3, 4]), ([6, -4, 1, 1], [-2, -1, 8, -1])];
fn tet_line<T: SReal>(cx: &mut Cx<T>, tet: &[[i64; 3]; 4], line: &([i64; 4], [i64; 4])) {
    let t = cx.real("t");
    let v = tet.map(|x| Point3::new(T::int(x[0]), T::int(x[1]), T::int(x[2])));
    let at = |w: &[i64; 4], k: usize| T::ratio((0..4).map(|i| w[i] * tet[i][k]).sum(), 4);
    // one more direction, so that the line leaves the hull of a flat tetrahedron
    let p: Vec<T> = (0..3).map(|k| at(&line.0, k) + t * (at(&line.1, k) - at(&line.0, k) + T::ratio([1, -2, 3][k], 7))).collect();
    let p = Point3::new(p[0], p[1], p[2]);
    let el = Tet4Element::from_vertices(v);
    let c = el.closest_point(&p);
    let xi = c.point().clone();
    in_reference(cx, &xs(&xi));
    let x = el.map_reference_coords(&xi);
    if let ClosestPoint::InElement(_) = c {
        cx.ensure_eqs("a point in the element maps to p", &xs(&x), &xs(&p));
    }
    for (i, q) in v.iter().enumerate() {
        cx.ensure_le(&format!("no closer point towards vertex {}", i), (p - x).dot(&(q - x)), T::zero());
    }
}

/// Boxes as elements: the reference point is the point itself.
struct Boxes<const D: usize> {
    /// lower and upper corner, and whether the element says so when it contains a point
    boxes: Vec<([f64; D], [f64; D], bool)>,
}
impl<const D: usize> FiniteElementConnectivity for Boxes<D> {
    fn num_elements(&self) -> usize {
        self.boxes.len()
    }
    fn num_nodes(&self) -> usize {
        self.boxes.len() + 3
    }
    fn element_node_count(&self, e: usize) -> usize {
        e + 1
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], e: usize) {
        nodes.iter_mut().enumerate().for_each(|(i, n)| *n = (e * 7 + i * 3) % 5)
    }
}
macro_rules! boxes {
    ($d:expr, $u:ty) => {
        impl FiniteElementSpace<f64> for Boxes<$d> {
            type GeometryDim = $u;
            type ReferenceDim = $u;
            fn populate_element_basis(&self, e: usize, v: &mut [f64], x: &OPoint<f64, $u>) {
                v.iter_mut().enumerate().for_each(|(i, v)| *v = i as f64 + e as f64 * x[0])
            }
            fn populate_element_gradients(&self, e: usize, mut g: MatrixViewMut<f64, $u, Dyn>, x: &OPoint<f64, $u>) {
                g.iter_mut().enumerate().for_each(|(i, v)| *v = i as f64 - e as f64 * x[1])
            }
            fn element_reference_jacobian(&self, e: usize, x: &OPoint<f64, $u>) -> OMatrix<f64, $u, $u> {
                OMatrix::<f64, $u, $u>::identity() * (e as f64 + x[0])
            }
            fn map_element_reference_coords(&self, _: usize, x: &OPoint<f64, $u>) -> OPoint<f64, $u> {
                *x
            }
            fn diameter(&self, e: usize) -> f64 {
                e as f64
            }
        }
        impl ClosestPointInElementInSpace<f64> for Boxes<$d> {
            fn closest_point_in_element(&self, e: usize, p: &OPoint<f64, $u>) -> ClosestPoint<f64, $u> {
                let (lo, hi, says) = self.boxes[e];
                let q: Vec<f64> = (0..$d).map(|k| p[k].max(lo[k]).min(hi[k])).collect();
                let q = OPoint::<f64, $u>::from_slice(&q);
                if says && q == *p { ClosestPoint::InElement(q) } else { ClosestPoint::ClosestPoint(q) }
            }
        }
        impl BoundsForElementInSpace<f64> for Boxes<$d> {
            fn bounds_for_element(&self, e: usize) -> AxisAlignedBoundingBox<f64, $u> {
                let (lo, hi, _) = self.boxes[e];
                AxisAlignedBoundingBox::new(OPoint::<f64, $u>::from_slice(&lo), OPoint::<f64, $u>::from_slice(&hi))
            }
        }
        impl Boxes<$d> {
            fn check(boxes: Vec<([f64; $d], [f64; $d], bool)>, points: Vec<[f64; $d]>) -> Result<(), String> {
                let b = Boxes { boxes };
                let n = b.boxes.len();
                let s = SpatiallyIndexed::from_space(Boxes { boxes: b.boxes.clone() });
                let x = OPoint::<f64, $u>::from_slice(&[0.5, 0.25, 2.0][..$d]);
                if (s.num_elements(), FiniteElementConnectivity::num_nodes(&s)) != (n, n + 3) {
                    return Err("counts".into());
                }
                for e in 0..n {
                    let (mut i, mut j) = (vec![9; e + 1], vec![9; e + 1]);
                    s.populate_element_nodes(&mut i, e);
                    b.populate_element_nodes(&mut j, e);
                    let (mut v, mut w) = (vec![9.0; e + 1], vec![9.0; e + 1]);
                    s.populate_element_basis(e, &mut v, &x);
                    b.populate_element_basis(e, &mut w, &x);
                    let mut g = OMatrix::<f64, $u, Dyn>::zeros(e + 1);
                    let mut h = g.clone();
                    s.populate_element_gradients(e, MatrixViewMut::from(&mut g), &x);
                    b.populate_element_gradients(e, MatrixViewMut::from(&mut h), &x);
                    let same = s.element_node_count(e) == e + 1
                        && i == j
                        && v == w
                        && g == h
                        && s.element_reference_jacobian(e, &x) == b.element_reference_jacobian(e, &x)
                        && s.map_element_reference_coords(e, &x) == x
                        && s.diameter(e) == e as f64
                        && s.closest_point_in_element(e, &x).point() == b.closest_point_in_element(e, &x).point()
                        && s.bounds_for_element(e).min() == b.bounds_for_element(e).min()
                        && s.bounds_for_element(e).max() == b.bounds_for_element(e).max();
                    if !same {
                        return Err(format!("element {} is not that of the space", e));
                    }
                }
                for p in points {
                    let p = OPoint::<f64, $u>::from_slice(&p);
                    let want = (0..n).map(|e| (b.closest_point_in_element(e, &p).point() - p).norm()).fold(f64::INFINITY, f64::min);
                    match s.find_closest_element_and_reference_coords(&p) {
                        None if n == 0 => {}
                        Some((e, xi)) if e < n => {
                            let got = (xi - p).norm();
                            if b.closest_point_in_element(e, &p).point() != &xi || (got - want).abs() > 1e-12 * (1.0 + want) {
                                return Err(format!("the nearest element of {:?} is at {}, not {} (element {})", p.coords.as_slice(), want, got, e));
                            }
                        }
                        r => return Err(format!("{:?} for {} elements", r, n)),
                    }
                }
                Ok(())
            }
            fn draw(r: &mut Rng, n: usize, m: usize, size: i64) -> (Vec<([f64; $d], [f64; $d], bool)>, Vec<[f64; $d]>) {
                let says = r.bool();
                let boxes = (0..n)
                    .map(|_| {
                        let lo: [f64; $d] = std::array::from_fn(|_| r.int(-12, 12) as f64);
                        (lo, std::array::from_fn(|k| lo[k] + r.int(0, size) as f64), says || r.below(8) == 0)
                    })
                    .collect();
                (boxes, (0..m).map(|_| std::array::from_fn(|_| r.int(-40, 40) as f64 / 2.0)).collect())
            }
        }
    };
}
boxes!(2, U2);
boxes!(3, U3);

/// A drawn mesh, indexed: nodal values of an affine function are interpolated exactly at any of its points, and any point finds a nearest one.
fn indexed<D: SmallDim, C>(r: &mut Rng, vertices: Vec<OPoint<f64, D>>, conn: Vec<C>, tol: f64) -> Result<(), String>
where
    C: ElementConnectivity<f64, GeometryDim = D> + std::fmt::Debug,
    C::ReferenceDim: SmallDim,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    DefaultAllocator: fenris::allocators::ElementConnectivityAllocator<f64, C> + TriDimAllocator<f64, D, C::ReferenceDim, U2>,
{
    let d = D::dim();
    let mesh = Mesh::<f64, D, C>::from_vertices_and_connectivity(vertices, conn);
    let s = SpatiallyIndexed::from_space(mesh.clone());
    let a: Vec<f64> = (0..2 * (d + 1)).map(|_| r.int(-3, 3) as f64).collect();
    let f = |x: &OPoint<f64, D>| -> Vec<f64> { (0..2).map(|i| (0..d).fold(a[i * (d + 1) + d], |v, k| v + a[i * (d + 1) + k] * x[k])).collect() };
    let u: Vec<f64> = mesh.vertices().iter().flat_map(|x| f(x)).collect();
    let uv = DVector::from_vec(u);
    let mut points = vec![];
    for c in mesh.connectivity() {
        let ids = c.vertex_indices();
        for m in 0..3 {
            // inside, on a side, at a corner
            let mut w: Vec<f64> = ids.iter().map(|_| 0.05 + r.unit()).collect();
            w.iter_mut().skip(1).take(m).for_each(|w| *w = 0.0);
            let t: f64 = w.iter().sum();
            let x = ids.iter().zip(&w).fold(OVector::<f64, D>::zeros(), |x, (i, w)| x + &mesh.vertices()[*i].coords * (*w / t));
            points.push(OPoint::from(x));
        }
    }
    let known = points.len();
    for _ in 0..20 {
        points.push(OPoint::from(OVector::<f64, D>::from_fn(|_, _| r.int(-30, 60) as f64 / 5.0)));
    }
    let values: Vec<OVector<f64, U2>> = s.interpolate_at_points(&points, DVectorView::from(&uv));
    if s.space().vertices() != mesh.vertices() || s.space().num_elements() != mesh.connectivity().len() {
        return Err("the space is not the one given".into());
    }
    let mut bounds = vec![AxisAlignedBoundingBox::new(OPoint::origin(), OPoint::origin()); mesh.num_elements()];
    mesh.populate_bounds_for_all_elements(&mut bounds);
    let all = mesh.bounds_for_all_elements();
    for (e, c) in mesh.connectivity().iter().enumerate() {
        let el = c.element(mesh.vertices()).ok_or("no element")?;
        let d = el.diameter();
        if FiniteElementSpace::diameter(&mesh, e) != d || s.diameter(e) != d || ElementInSpace::from_space_and_element_index(&mesh, e).diameter() != d {
            return Err(format!("diameter of element {}", e));
        }
        let b = el.element_bounds();
        for o in [&bounds[e], &all[e], &mesh.bounds_for_element(e)] {
            if o.min() != b.min() || o.max() != b.max() {
                return Err(format!("bounds of element {}", e));
            }
        }
    }
    let as_fn = fenris::error::SpaceInterpolationFn(&s, &uv);
    for (k, x) in points.iter().enumerate() {
        if fenris::error::SolutionFunction::<f64, D, U2>::evaluate(&as_fn, x) != values[k] {
            return Err("the interpolant as a function differs from the interpolant".into());
        }
        let (e, xi) = s.find_closest_element_and_reference_coords(x).ok_or("no element found")?;
        let y = s.map_element_reference_coords(e, &xi);
        let dist = (x - &y).norm();
        let best = (0..mesh.num_elements())
            .map(|e| (mesh.map_element_reference_coords(e, mesh.closest_point_in_element(e, x).point()) - x).norm())
            .fold(f64::INFINITY, f64::min);
        if dist > best + tol || (k < known && dist > tol) {
            return Err(format!("the nearest point of {:?} is {} away, found one at {}", x.coords.as_slice(), if k < known { 0.0 } else { best }, dist));
        }
        // exact at the point it was evaluated at, which is the point itself inside the mesh
        let want = f(&y);
        for i in 0..2 {
            let one: OVector<f64, U2> = s.interpolate_at_point(x, DVectorView::from(&uv));
            if (values[k][i] - want[i]).abs() > 40.0 * tol || one[i] != values[k][i] {
                return Err(format!("component {} at {:?}: {} instead of {}", i, x.coords.as_slice(), values[k][i], want[i]));
            }
        }
    }
    Ok(())
}
fn gradients_of<D: SmallDim, C>(r: &mut Rng, mesh: Mesh<f64, D, C>, tol: f64) -> Result<(), String>
where
    C: ElementConnectivity<f64, GeometryDim = D, ReferenceDim = D>,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    OPoint<f64, D>: Send + Sync,
    DefaultAllocator: fenris::allocators::ElementConnectivityAllocator<f64, C> + TriDimAllocator<f64, D, D, U2>,
{
    let d = D::dim();
    let s = SpatiallyIndexed::from_space(mesh.clone());
    let a: Vec<f64> = (0..2 * d).map(|_| r.int(-3, 3) as f64).collect();
    let u: Vec<f64> = mesh.vertices().iter().flat_map(|x| (0..2).map(|i| (0..d).fold(1.0, |v, k| v + a[i * d + k] * x[k])).collect::<Vec<_>>()).collect();
    let uv = DVector::from_vec(u);
    let points: Vec<_> = (0..20).map(|_| OPoint::from(OVector::<f64, D>::from_fn(|_, _| r.int(-30, 60) as f64 / 5.0))).collect();
    let g: Vec<OMatrix<f64, D, U2>> = s.interpolate_gradient_at_points(&points, DVectorView::from(&uv));
    let fixed = FixedInterpolator::from_space_and_points(&s, &points, ValuesOrGradients::Both).interpolate_gradients::<D, U2>(&uv);
    let as_fn = fenris::error::SpaceInterpolationFn(&s, &uv);
    for (k, x) in points.iter().enumerate() {
        if fenris::error::SolutionGradient::<f64, D, U2>::evaluate_grad(&as_fn, x) != g[k] {
            return Err("the gradient of the interpolant as a function differs".into());
        }
        let one: OMatrix<f64, D, U2> = s.interpolate_gradient_at_point(x, DVectorView::from(&uv));
        for i in 0..2 {
            for l in 0..d {
                if [g[k][(l, i)], one[(l, i)], fixed[k][(l, i)]].iter().any(|g| (g - a[i * d + l]).abs() > tol) {
                    return Err(format!("gradient of component {} at {:?}", i, x.coords.as_slice()));
                }
            }
        }
    }
    Ok(())
}
/// Vertices of a perturbed grid of n^D points with their triangulation or subdivision into tetrahedra, cells in any order and numbering.
fn tri_grid(r: &mut Rng, n: usize) -> (Vec<Point2<f64>>, Vec<Tri3d2Connectivity>) {
    let mut v = vec![];
    for j in 0..=n {
        for i in 0..=n {
            v.push(Point2::new(2.0 * i as f64 + 0.4 * r.unit(), 2.0 * j as f64 + 0.4 * r.unit()));
        }
    }
    let mut perm: Vec<usize> = (0..v.len()).collect();
    r.shuffle(&mut perm);
    let mut w = v.clone();
    perm.iter().enumerate().for_each(|(i, p)| w[*p] = v[i]);
    let mut c = vec![];
    for j in 0..n {
        for i in 0..n {
            let q = [(0, 0), (1, 0), (1, 1), (0, 1)].map(|(a, b)| perm[(j + b) * (n + 1) + i + a]);
            for t in [[0, 1, 2], [0, 2, 3]] {
                let mut t = t.map(|k| q[k]);
                let k = r.below(3);
                t.rotate_left(k);
                if r.bool() {
                    t.swap(0, 1);
                }
                c.push(Tri3d2Connectivity(t));
            }
        }
    }
    r.shuffle(&mut c);
    (w, c)
}
fn tet_grid(r: &mut Rng, n: usize) -> (Vec<Point3<f64>>, Vec<Tet4Connectivity>) {
    let mut v = vec![];
    for k in 0..=n {
        for j in 0..=n {
            for i in 0..=n {
                v.push(Point3::new(2.0 * i as f64 + 0.3 * r.unit(), 2.0 * j as f64 + 0.3 * r.unit(), 2.0 * k as f64 + 0.3 * r.unit()));
            }
        }
    }
    let id = |i: usize, j: usize, k: usize| (k * (n + 1) + j) * (n + 1) + i;
    let mut c = vec![];
    for k in 0..n {
        for j in 0..n {
            for i in 0..n {
                // one tetrahedron for every order of the axes
                for p in [[0, 1, 2], [1, 0, 2], [0, 2, 1], [2, 0, 1], [1, 2, 0], [2, 1, 0]] {
                    let mut x = [i, j, k];
                    let mut t = vec![id(x[0], x[1], x[2])];
                    for a in p {
                        x[a] += 1;
                        t.push(id(x[0], x[1], x[2]));
                    }
                    r.shuffle(&mut t);
                    c.push(Tet4Connectivity(t.try_into().unwrap()));
                }
            }
        }
    }
    r.shuffle(&mut c);
    (v, c)
}
/// Newton's method on a mildly distorted element: success means a small residual, and points of the element are found.
fn nonlinear<D: SmallDim, E>(el: &E, xi: OPoint<f64, D>) -> Result<(), String>
where
    E: FiniteElement<f64, GeometryDim = D, ReferenceDim = D>,
    D: fenris::nalgebra::DimMin<D, Output = D>,
    DefaultAllocator: DimAllocator<f64, D>,
{
    let x = el.map_reference_coords(&xi);
    let y = map_physical_coordinates(el, &x).map_err(|e| format!("{}", e))?;
    let z = project_physical_coordinates(el, &x).map_err(|e| format!("{}", e))?;
    for (n, y) in [("map", y), ("project", z)] {
        let r = (el.map_reference_coords(&y) - &x).norm();
        if r > 1e-11 * el.diameter() || (&y - &xi).norm() > 1e-9 {
            return Err(format!("{} {:?}: residual {}, reference point {:?}", n, xi.coords.as_slice(), r, y.coords.as_slice()));
        }
    }
    Ok(())
}
fn main() {
    symcore::run::main(items())
}
fn items() -> Vec<Item> {
    let mut v = vec![];
    macro_rules! spaces {
        ($($g:ty, $s:ty, $d:expr);*) => {$(
            v.push(dual!(concat!("C18: values and gradients at points, ", $d), ["interpolate_at_points", "interpolate_gradient_at_points", "InterpolationBuffer"], "6 points in 4 elements", |cx, T| direct::<T, $g, $s>(cx, &AT)));
            v.push(dual!(concat!("C18: a fixed interpolator, ", $d), ["FixedInterpolator::{from_space_and_points,interpolate,interpolate_into,interpolate_gradients,interpolate_gradients_into}"], "6 points in 4 elements", |cx, T| fixed::<T, $g, $s>(cx, &AT, false)));
            v.push(dual!(concat!("C18: a fixed interpolator made in parallel, ", $d), ["FixedInterpolator::from_space_and_points_par"], "6 points in 4 elements", |cx, T| fixed::<T, $g, $s>(cx, &AT, true)));
        )*};
    }
    spaces!(U2, U1, "scalar in the plane"; U2, U3, "three components in the plane"; U3, U2, "two components in space"; U1, U2, "two components on a line");
    const NONE: [&[Option<(usize, usize)>]; 4] = [&[None; 3], &[None; 1], &[], &[Some((1, 1))]];
    for (i, n) in NONE.into_iter().enumerate() {
        let k = format!("{}", ["3 points without an element", "one point without an element", "no points", "one point"][i]);
        v.push(dual!(format!("C18: values and gradients, {}", k), ["interpolate_at_points", "interpolate_gradient_at_points"], k, |cx, T| direct::<T, U2, U2>(cx, n)));
        v.push(dual!(format!("C18: a fixed interpolator, {}", k), ["FixedInterpolator::from_space_and_points"], k, |cx, T| fixed::<T, U2, U2>(cx, n, false)));
        v.push(dual!(format!("C18: a fixed interpolator made in parallel, {}", k), ["FixedInterpolator::from_space_and_points_par"], k, |cx, T| fixed::<T, U2, U2>(cx, n, true)));
    }
    const OFFSETS: [(&[usize], &[usize]); 4] = [(&[0, 2, 2, 5], &[4, 0, 3, 3, 5]), (&[0, 0, 1], &[2]), (&[0], &[]), (&[0, 0, 0], &[])];
    for (i, (o, n)) in OFFSETS.into_iter().enumerate() {
        v.push(dual!(format!("C18: compressed weights {}", i), ["FixedInterpolator::from_compressed_values"], format!("offsets {:?}", o), |cx, T| compressed::<T>(cx, o, n)));
    }
    macro_rules! meshes {
        ($($c:ident, $d:ty, $n:expr);*) => {$(
            v.push(dual!(concat!("C18: a mesh as a space, ", stringify!($c)), ["Mesh: FiniteElementSpace", "ElementInSpace"], "two cells", |cx, T| {
                let mut a: Vec<usize> = (0..$n).collect();
                let mut b = a.clone();
                a.reverse();
                b.rotate_left(1);
                let b: Vec<usize> = b.into_iter().map(|i| i + 1).collect();
                mesh_space::<T, $d, $c>(cx, vec![$c(a.try_into().unwrap()), $c(b.try_into().unwrap())], $n + 1)
            }));
        )*};
    }
    meshes!(Tri3d2Connectivity, U2, 3; Quad4d2Connectivity, U2, 4; Tri6d2Connectivity, U2, 6; Tet4Connectivity, U3, 4; Hex8Connectivity, U3, 8; Tri3d3Connectivity, U3, 3);
    v.push(dual!("C18: the closest point of a triangle in the plane and its sides", ["Tri3d2Element::closest_point"], "", |cx, T| {
        let a = pt::<T, U2>(cx, "a");
        let t = [a, a + pt::<T, U2>(cx, "b").coords, a + pt::<T, U2>(cx, "c").coords];
        let p = a + pt::<T, U2>(cx, "p").coords;
        tri_closest::<T, U2, _>(cx, |v| Tri3d2Element::from_vertices(v), t, p)
    }, prune = false, max_paths = 20000));
    v.push(dual!("C18: the closest point of a triangle in space and its sides", ["Tri3d3Element::closest_point"], "", |cx, T| {
        let a = pt::<T, U3>(cx, "a");
        let t = [a, a + pt::<T, U3>(cx, "b").coords, a + pt::<T, U3>(cx, "c").coords];
        let p = a + pt::<T, U3>(cx, "p").coords;
        if T::SYMBOLIC {
            // the squared distance to the plane of the triangle, a name for the solver
            let n = (t[1] - a).cross(&(t[2] - a));
            let h = n.dot(&(p - a));
            cx.name("E", h * h / n.dot(&n));
        }
        tri_closest::<T, U3, _>(cx, |v| Tri3d3Element::from(Triangle(v)), t, p)
    }, prune = false, max_paths = 20000));
    v.push(dual!("C18: the closest point of a triangle in the plane, inside", ["Tri3d2Element::closest_point"], "", |cx, T| {
        let (a, b, c) = (pt::<T, U2>(cx, "a"), pt::<T, U2>(cx, "b").coords, pt::<T, U2>(cx, "c").coords);
        let (w1, w2) = (cx.pos("w1"), cx.pos("w2"));
        cx.assume_gt(T::int(1), w1 + w2);
        cx.assume_ne(b.x * c.y - b.y * c.x, T::int(0));
        let p = a + b * w1 + c * w2;
        let el = Tri3d2Element::from_vertices([a, a + b, a + c]);
        let x = el.map_reference_coords(el.closest_point(&p).point());
        cx.ensure_le("the closest point is p", d2(&xs(&x), &xs(&p)), T::int(0));
    }, prune = false, max_paths = 20000));
    v.push(dual!("C18: the closest point of a triangle in space, above its inside", ["Tri3d3Element::closest_point"], "", |cx, T| {
        let (a, b, c) = (pt::<T, U3>(cx, "a"), pt::<T, U3>(cx, "b").coords, pt::<T, U3>(cx, "c").coords);
        let (w1, w2, h) = (cx.pos("w1"), cx.pos("w2"), cx.real("h"));
        cx.assume_gt(T::int(1), w1 + w2);
        let n = b.cross(&c);
        cx.assume_gt(n.dot(&n), T::int(0));
        let p = a + b * w1 + c * w2 + n * h;
        let el = Tri3d3Element::from(Triangle([a, a + b, a + c]));
        let x = el.map_reference_coords(el.closest_point(&p).point());
        cx.ensure_le("at most the height away", d2(&xs(&x), &xs(&p)), h * h * n.dot(&n));
    }, prune = false, max_paths = 20000));
        for (i, tet) in TETS.iter().enumerate() {
        for (j, line) in LINES.iter().enumerate() {
            v.push(dual!(format!("C18: the closest point of tetrahedron {} along line {}", i, j), ["Tet4Element::closest_point"], "one line, every point of it", |cx, T| tet_line::<T>(cx, tet, line)));
        }
    }
    macro_rules! bounds {
        ($($n:expr, $d:ty, $make:expr);*) => {$(
            v.push(dual!(concat!("C18: bounds of ", $n), [concat!($n, "::element_bounds")], "", |cx, T| {
                const N: usize = if $n.len() == 11 { 4 } else { 3 };
                let p: [OPoint<T, $d>; N] = std::array::from_fn(|i| pt::<T, $d>(cx, &format!("v{}_", i)));
                let b = $make(p.clone()).element_bounds();
                for k in 0..<$d>::dim() {
                    for q in &p {
                        cx.ensure_le("below", b.min()[k], q[k]);
                        cx.ensure_le("above", q[k], b.max()[k]);
                    }
                }
            }, lazy = true));
        )*};
    }
    bounds!("Tri3d2Element", U2, |v| Tri3d2Element::from_vertices(v); "Tri3d3Element", U3, |v| Tri3d3Element::from(Triangle(v)); "Tet4Element", U3, |v| Tet4Element::from_vertices(v));
    // translated: the first vertex is arbitrary, the others and x are given relative to it
    v.push(dual!("C18: reference coordinates in a triangle", ["map_physical_coordinates"], "", |cx, T| {
        let a = pt::<T, U2>(cx, "a");
        let (b, c, x) = (pt::<T, U2>(cx, "b").coords, pt::<T, U2>(cx, "c").coords, pt::<T, U2>(cx, "x").coords);
        affine_inverse::<T, U2, _>(cx, Tri3d2Element::from_vertices([a, a + b, a + c]), a + x, b.x * c.y - b.y * c.x)
    }));
    v.push(dual!("C18: reference coordinates on a segment", ["map_physical_coordinates"], "", |cx, T| {
        let a: [OPoint<T, U1>; 3] = std::array::from_fn(|i| pt::<T, U1>(cx, ["a", "b", "x"][i]));
        affine_inverse::<T, U1, _>(cx, Segment2d1Element::from_vertices([a[0], a[1]]), a[2], a[1].x - a[0].x)
    }));
    v.push(dual!("C18: projection onto a segment in the plane", ["project_physical_coordinates"], "", |cx, T| {
        let a: [Point2<T>; 3] = std::array::from_fn(|i| pt::<T, U2>(cx, ["a", "b", "x"][i]));
        let g = (a[1] - a[0]).dot(&(a[1] - a[0]));
        affine_projection::<T, U2, U1, _>(cx, Segment2d2Element::from_vertices([a[0], a[1]]), a[2], g)
    }));
    v.push(dual!("C18: projection onto a triangle in space", ["project_physical_coordinates"], "", |cx, T| {
        let a = pt::<T, U3>(cx, "a");
        let (b, c, x) = (pt::<T, U3>(cx, "b").coords, pt::<T, U3>(cx, "c").coords, pt::<T, U3>(cx, "x").coords);
        schwarz(cx, b.as_slice(), c.as_slice());
        let n = b.cross(&c);
        affine_projection::<T, U3, U2, _>(cx, Tri3d3Element::from(Triangle([a, a + b, a + c])), a + x, n.dot(&n))
    }));
    const S: [&str; 3] = ["SpatiallyIndexed::{from_space,find_closest_element_and_reference_coords}", "SpatiallyIndexed: FiniteElementSpace", "RTreeAccelerationStructure::{from_bounding_boxes,closest_cell_candidates}"];
    v.push(bounded("C18: the nearest of drawn boxes", &S, "400 spaces of up to 40 boxes, 20 points each", |e| {
        let mut r = Rng(e.seed);
        for i in 0..if e.thorough { 8000 } else { 400 } {
            let (n, size) = (r.below(if i % 4 == 0 { 4 } else { 40 }), [0, 2, 8, 30][i % 4]);
            let (b, p) = Boxes::<2>::draw(&mut r, n, 20, size);
            e.case(|| format!("boxes {:?} points {:?}", b, p), || Boxes::<2>::check(b.clone(), p.clone()));
            let (b, p) = Boxes::<3>::draw(&mut r, n, 20, size);
            e.case(|| format!("boxes {:?} points {:?}", b, p), || Boxes::<3>::check(b.clone(), p.clone()));
        }
    }));
    const M: [&str; 4] = ["SpatiallyIndexed: {InterpolateInSpace,InterpolateGradientInSpace}", "Mesh: {ClosestPointInElementInSpace,BoundsForElementInSpace}", "Tet4Element::closest_point", "FixedInterpolator::from_space_and_points"];
    v.push(bounded("C18: interpolation on drawn meshes", &M, "40 meshes of triangles and tetrahedra", |e| {
        for i in 0..if e.thorough { 1000 } else { 40 } {
            let seed = e.seed.wrapping_add(i * 7919);
            e.case(|| format!("triangles, seed {}", seed), || {
                let mut r = Rng(seed);
                let n = 1 + r.below(4);
                let (v, c) = tri_grid(&mut r, n);
                gradients_of(&mut r, Mesh::from_vertices_and_connectivity(v.clone(), c.clone()), 1e-10)?;
                let s: Vec<Tri3d3Connectivity> = c.iter().map(|c| Tri3d3Connectivity(c.0)).collect();
                let w = v.iter().map(|p| Point3::new(p.x, p.y, 0.5 * p.x * p.y)).collect();
                indexed(&mut r, w, s, 1e-11)?;
                indexed(&mut r, v, c, 1e-11)
            });
            e.case(|| format!("tetrahedra, seed {}", seed), || {
                let mut r = Rng(seed);
                let n = 1 + r.below(2);
                let (v, c) = tet_grid(&mut r, n);
                gradients_of(&mut r, Mesh::from_vertices_and_connectivity(v.clone(), c.clone()), 1e-10)?;
                indexed(&mut r, v, c, 1e-11)
            });
        }
    }));
    v.push(bounded("C18: the nearest point of drawn tetrahedra", &["Tet4Element::closest_point"], "2000 tetrahedra with integer vertices, flat ones included", |e| {
        let mut r = Rng(e.seed);
        for _ in 0..if e.thorough { 200000 } else { 2000 } {
            let k = [1, 2, 6][r.below(3)];
            let v: [[i64; 3]; 4] = std::array::from_fn(|_| std::array::from_fn(|_| r.int(-k, k)));
            let p: [i64; 3] = std::array::from_fn(|_| r.int(-2 * k, 2 * k));
            e.case(|| format!("{:?}, {:?}", v, p), || {
                let w = v.map(|x| Point3::new(x[0] as f64, x[1] as f64, x[2] as f64));
                let q = Point3::new(p[0] as f64, p[1] as f64, p[2] as f64);
                let el = Tet4Element::from_vertices(w);
                let c = el.closest_point(&q);
                let xi = c.point();
                let x = el.map_reference_coords(xi);
                let inside = matches!(c, ClosestPoint::InElement(_));
                if xi.iter().any(|x| *x < -1.0 - 1e-9) || xi.x + xi.y + xi.z > -1.0 + 1e-9 {
                    return Err(format!("{:?} is not in the reference element", xi));
                }
                if inside && (x - q).norm() > 1e-9 {
                    return Err("a point in the element is another one".into());
                }
                match w.iter().find(|v| (q - x).dot(&(*v - x)) > 1e-9) {
                    Some(v) => Err(format!("{:?} is not the nearest point: {:?} is further", x, v)),
                    None => Ok(()),
                }
            });
        }
    }));
    v.push(bounded("C18: reference coordinates in drawn elements", &["map_physical_coordinates", "project_physical_coordinates"], "300 distorted elements of each kind", |e| {
        let mut r = Rng(e.seed);
        for _ in 0..if e.thorough { 20000 } else { 300 } {
            let a: [Point2<f64>; 4] = std::array::from_fn(|i| Point2::new([-3.0, 3.0, 3.0, -3.0][i] + r.unit(), [-3.0, -3.0, 3.0, 3.0][i] + r.unit()));
            let h: [Point3<f64>; 8] = std::array::from_fn(|i| Point3::new([-3.0, 3.0, 3.0, -3.0][i % 4] + r.unit(), [-3.0, -3.0, 3.0, 3.0][i % 4] + r.unit(), if i < 4 { -3.0 } else { 3.0 } + r.unit()));
            let x: [f64; 3] = std::array::from_fn(|_| r.unit() * 2.0 - 1.0);
            e.case(|| format!("{:?} at {:?}", a, x), || nonlinear(&Quad4d2Element::from_vertices(a), Point2::new(x[0], x[1])));
            e.case(|| format!("{:?} at {:?}", h, x), || nonlinear(&Hex8Element::from_vertices(h), Point3::new(x[0], x[1], x[2])));
            let t: [Point3<f64>; 4] = [h[0], h[1], h[3], h[4]];
            e.case(|| format!("{:?} at {:?}", t, x), || nonlinear(&Tet4Element::from_vertices(t), Point3::new(x[0], x[1], x[2])));
        }
    }));
    v
}
