//! C02: element geometry.
use contracts::*;
use fenris::allocators::BiDimAllocator;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::util::{extract_by_node_index, global_vector_from_point_fn};
use fenris::geometry::{AxisAlignedBoundingBox, LineSegment2d, Quad2d, Triangle};
use nalgebra::{DVector, DefaultAllocator, DimName, MatrixViewMut, OMatrix, OPoint, Point1, Point2, Point3, U1, U2, U3};
use symcore::{contract, run::Item, Cx, SReal};

/// Shape functions of the geometry (multilinear or barycentric), written from the reference vertices.
fn geo_shape<T: SReal>(x: &[T], nv: usize) -> Vec<T> {
    let half = T::ratio(1, 2);
    let verts: Vec<Vec<i64>> = match (x.len(), nv) {
        (1, 2) => nodes_seg2(),
        (2, 3) => nodes_tri3(),
        (2, 4) => nodes_quad4(),
        (3, 4) => nodes_tet4(),
        (3, 8) => nodes_hex8(),
        _ => unreachable!(),
    };
    if nv == x.len() + 1 && x.len() > 1 {
        let l: Vec<T> = x.iter().map(|a| (T::one() + *a) * half).collect();
        let mut v = vec![T::one() - l.iter().fold(T::zero(), |a, b| a + *b)];
        v.extend(l);
        v
    } else {
        verts.iter().map(|v| v.iter().zip(x).fold(T::one(), |a, (n, x)| a * (T::one() + T::int(n / 3) * *x) * half)).collect()
    }
}

/// Contract of map_reference_coords and reference_jacobian for an element whose geometry is spanned by `verts`.
fn geometry<T: SReal, E: FiniteElement<T>>(cx: &mut Cx<T>, e: &E, verts: &[OPoint<T, E::GeometryDim>])
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let (d, gd, nv) = (E::ReferenceDim::dim(), E::GeometryDim::dim(), verts.len());
    let pt = |x: &[T]| OPoint::<T, E::ReferenceDim>::from_slice(x);
    let refv = match (d, nv) {
        (1, 2) => nodes_seg2(),
        (2, 3) => nodes_tri3(),
        (2, 4) => nodes_quad4(),
        (3, 4) => nodes_tet4(),
        _ => nodes_hex8(),
    };
    for (i, n) in refv.iter().enumerate() {
        let x: Vec<T> = n.iter().map(|a| third(*a)).collect();
        let y = e.map_reference_coords(&pt(&x));
        cx.ensure_eqs(&format!("reference vertex {} maps to vertex {}", i, i), y.coords.as_slice(), verts[i].coords.as_slice());
    }
    let xi = cx.reals("xi", d);
    let s = geo_shape(&xi, nv);
    let y = e.map_reference_coords(&pt(&xi));
    for k in 0..gd {
        let z = (0..nv).fold(T::zero(), |a, i| a + s[i] * verts[i][k]);
        cx.ensure_eq(&format!("map component {}", k), y[k], z);
    }
    let j = e.reference_jacobian(&pt(&xi));
    for l in 0..d {
        let dv = cx.directional(|eps| {
            let mut x = xi.clone();
            x[l] += eps;
            e.map_reference_coords(&pt(&x)).coords.as_slice().to_vec()
        });
        for k in 0..gd {
            cx.ensure_eq(&format!("jacobian[{},{}]", k, l), j[(k, l)], dv[k]);
        }
    }
}
/// D is the largest of the pairwise distances.
fn diameter<T: SReal, E: FiniteElement<T>>(cx: &mut Cx<T>, e: &E, verts: &[OPoint<T, E::GeometryDim>])
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let b = cx.real_in("bound", 0, 1000);
    let dist = |i: usize, j: usize| (&verts[i] - &verts[j]).norm();
    let d = e.diameter();
    let dm = d;
    for i in 0..verts.len() {
        for j in 0..i {
            cx.ensure_le(&format!("distance {} {} is at most the diameter", i, j), dist(i, j), d);
        }
    }
    // no larger than any bound on the distances
    for i in 0..verts.len() {
        for j in 0..i {
            cx.assume_le(dist(i, j), b);
        }
    }
    cx.ensure_le("diameter is at most every bound on the distances", dm, b);
}
fn bounds<T: SReal, E: BoundsForElement<T>>(cx: &mut Cx<T>, e: &E, verts: &[OPoint<T, E::GeometryDim>])
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let bb: AxisAlignedBoundingBox<T, E::GeometryDim> = e.element_bounds();
    for k in 0..E::GeometryDim::dim() {
        let (lo, hi) = (bb.min()[k], bb.max()[k]);
        for v in verts {
            cx.ensure_le("box contains every vertex (below)", lo, v[k]);
            cx.ensure_le("box contains every vertex (above)", v[k], hi);
        }
        // tight: every common bound of the vertices bounds the box
        let (a, b) = (cx.real(&format!("a{}", k)), cx.real(&format!("b{}", k)));
        for v in verts {
            cx.assume_le(a, v[k]);
            cx.assume_le(v[k], b);
        }
        cx.ensure_le("box is tight (below)", a, lo);
        cx.ensure_le("box is tight (above)", hi, b);
    }
}
fn points<T: SReal, D: DimName>(cx: &mut Cx<T>, n: usize) -> Vec<OPoint<T, D>>
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    (0..n).map(|i| { let v = cx.reals(&format!("p{}_", i), D::dim()); OPoint::from_slice(&v) }).collect()
}

macro_rules! geo {
    ($name:ident, $dname:ident, $ty:ident, $gd:ty, $n:expr, $nv:expr) => {
        contract!($name, concat!("geometry of ", stringify!($ty)), [
            concat!(stringify!($ty), "::from_vertices"), concat!(stringify!($ty), "::vertices"),
            concat!("<", stringify!($ty), " as FiniteElement>::map_reference_coords"),
            concat!("<", stringify!($ty), " as FiniteElement>::reference_jacobian")
        ], |cx, T| {
            let p: Vec<OPoint<T, $gd>> = points(cx, $n);
            let e = $ty::<T>::from_vertices(p.clone().try_into().unwrap());
            for i in 0..$n { cx.ensure_eqs("vertices() are those given", e.vertices()[i].coords.as_slice(), p[i].coords.as_slice()); }
            geometry(cx, &e, &p[..$nv]);
        });
        contract!($dname, concat!("diameter of ", stringify!($ty)), [
            concat!("<", stringify!($ty), " as FiniteElement>::diameter")
        ], |cx, T| {
            let p: Vec<OPoint<T, $gd>> = points(cx, $n);
            let e = $ty::<T>::from_vertices(p.clone().try_into().unwrap());
            diameter(cx, &e, &p[..$nv]);
        }, lazy_max = true);
    };
}
geo!(GSeg21, DSeg21, Segment2d1Element, U1, 2, 2);
geo!(GSeg22, DSeg22, Segment2d2Element, U2, 2, 2);
geo!(GTri3, DTri3, Tri3d2Element, U2, 3, 3);
geo!(GTri33, DTri33, Tri3d3Element, U3, 3, 3);
geo!(GTri6, DTri6, Tri6d2Element, U2, 6, 3);
geo!(GQuad4, DQuad4, Quad4d2Element, U2, 4, 4);
geo!(GQuad9, DQuad9, Quad9d2Element, U2, 9, 4);
geo!(GTet4, DTet4, Tet4Element, U3, 4, 4);
geo!(GTet10, DTet10, Tet10Element, U3, 10, 4);
geo!(GTet20, DTet20, Tet20Element, U3, 20, 4);
geo!(GHex8, DHex8, Hex8Element, U3, 8, 8);
geo!(GHex20, DHex20, Hex20Element, U3, 20, 8);
geo!(GHex27, DHex27, Hex27Element, U3, 27, 8);

contract!(BTri3, "bounding box of Tri3d2Element", ["<Tri3d2Element as BoundsForElement>::element_bounds", "AxisAlignedBoundingBox::from_points"], |cx, T| {
    let p: Vec<Point2<T>> = points(cx, 3);
    bounds(cx, &Tri3d2Element::from_vertices(p.clone().try_into().unwrap()), &p);
}, lazy_max = true);
contract!(BTri33, "bounding box of Tri3d3Element", ["<Tri3d3Element as BoundsForElement>::element_bounds", "AxisAlignedBoundingBox::from_points"], |cx, T| {
    let p: Vec<Point3<T>> = points(cx, 3);
    bounds(cx, &Tri3d3Element::from_vertices(p.clone().try_into().unwrap()), &p);
}, lazy_max = true);
contract!(BTet4, "bounding box of Tet4Element", ["<Tet4Element as BoundsForElement>::element_bounds", "AxisAlignedBoundingBox::from_points"], |cx, T| {
    let p: Vec<Point3<T>> = points(cx, 4);
    bounds(cx, &Tet4Element::from_vertices(p.clone().try_into().unwrap()), &p);
}, lazy_max = true);

contract!(NSeg, "normal of Segment2d2Element", ["<Segment2d2Element as SurfaceFiniteElement>::normal", "Segment2d2Element::to_line_segment", "LineSegment2d::normal_dir"], |cx, T| {
    let p: Vec<Point2<T>> = points(cx, 2);
    let d = p[1] - p[0];
    cx.assume_gt(d.dot(&d), T::zero());
    let e = Segment2d2Element::from_vertices([p[0], p[1]]);
    let xi = cx.reals("xi", 1);
    let n = e.normal(&Point1::new(xi[0]));
    cx.ensure_eq("unit length", n.dot(&n), T::one());
    cx.ensure_eq("orthogonal to the segment", n.dot(&d), T::zero());
    let j = e.reference_jacobian(&Point1::new(xi[0]));
    cx.ensure_gt("on the right of the direction of travel", n.x * j.y - n.y * j.x, T::zero());
    cx.ensure_defined("no division by zero");
});
contract!(NTri, "normal of Tri3d3Element", ["<Tri3d3Element as SurfaceFiniteElement>::normal", "Triangle3d::normal", "Triangle3d::normal_dir"], |cx, T| {
    let p: Vec<Point3<T>> = points(cx, 3);
    let (u, v) = (p[1] - p[0], p[2] - p[0]);
    let c = u.cross(&v);
    cx.assume_gt(c.dot(&c), T::zero());
    let e = Tri3d3Element::from_vertices([p[0], p[1], p[2]]);
    let xi = cx.reals("xi", 2);
    let n = e.normal(&Point2::new(xi[0], xi[1]));
    cx.ensure_eq("unit length", n.dot(&n), T::one());
    cx.ensure_eq("orthogonal to the first edge", n.dot(&u), T::zero());
    cx.ensure_eq("orthogonal to the second edge", n.dot(&v), T::zero());
    cx.ensure_gt("right-handed", n.dot(&c), T::zero());
    cx.ensure_defined("no division by zero");
});

/// A higher-order element made from a lower-order one: its nodes are the images of the reference nodes.
fn promoted<T: SReal, L: FiniteElement<T>, D: DimName>(cx: &mut Cx<T>, low: &L, nodes: &[Vec<i64>], got: &[OPoint<T, D>])
where
    L: FiniteElement<T, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: BiDimAllocator<T, D, D>,
{
    cx.ensure("number of nodes", got.len() == nodes.len());
    for (i, n) in nodes.iter().enumerate() {
        let x: Vec<T> = n.iter().map(|a| third(*a)).collect();
        let y = low.map_reference_coords(&OPoint::from_slice(&x));
        cx.ensure_eqs(&format!("node {}", i), got[i].coords.as_slice(), y.coords.as_slice());
    }
}
contract!(PTri6, "Tri6d2Element from Tri3d2Element", ["<Tri6d2Element as From<&Tri3d2Element>>::from", "<Tri6d2Element as From<Tri3d2Element>>::from"], |cx, T| {
    let p: Vec<Point2<T>> = points(cx, 3);
    let low = Tri3d2Element::from_vertices(p.clone().try_into().unwrap());
    promoted(cx, &low, &nodes_tri6(), Tri6d2Element::from(&low).vertices());
    promoted(cx, &low, &nodes_tri6(), Tri6d2Element::from(low).vertices());
    geometry(cx, &Tri6d2Element::from(low), &p);
});
contract!(PQuad9, "Quad9d2Element from Quad4d2Element", ["<Quad9d2Element as From<&Quad4d2Element>>::from", "<Quad9d2Element as From<Quad4d2Element>>::from"], |cx, T| {
    let p: Vec<Point2<T>> = points(cx, 4);
    let low = Quad4d2Element::from_vertices(p.clone().try_into().unwrap());
    promoted(cx, &low, &nodes_quad9(), Quad9d2Element::from(&low).vertices());
    promoted(cx, &low, &nodes_quad9(), Quad9d2Element::from(low).vertices());
    geometry(cx, &Quad9d2Element::from(low), &p);
});
contract!(PTet10, "Tet10Element from Tet4Element", ["<Tet10Element as From<&Tet4Element>>::from"], |cx, T| {
    let p: Vec<Point3<T>> = points(cx, 4);
    let low = Tet4Element::from_vertices(p.clone().try_into().unwrap());
    promoted(cx, &low, &nodes_tet10(), Tet10Element::from(&low).vertices());
    geometry(cx, &Tet10Element::from(&low), &p);
});
contract!(PTet20, "Tet20Element from Tet4Element", ["<Tet20Element as From<&Tet4Element>>::from", "Tet20Element::from_tet4_vertices"], |cx, T| {
    let p: Vec<Point3<T>> = points(cx, 4);
    let low = Tet4Element::from_vertices(p.clone().try_into().unwrap());
    promoted(cx, &low, &nodes_tet20(), Tet20Element::from(&low).vertices());
    promoted(cx, &low, &nodes_tet20(), Tet20Element::from_tet4_vertices([p[0], p[1], p[2], p[3]]).vertices());
    geometry(cx, &Tet20Element::from(&low), &p);
});
contract!(PGeom, "elements from geometric primitives", ["<Segment2d2Element as From<LineSegment2d>>::from", "<Tri3d2Element as From<Triangle2d>>::from", "<Tri3d3Element as From<Triangle3d>>::from", "<Quad4d2Element as From<Quad2d>>::from", "Segment2d1Element::from_interval"], |cx, T| {
    let p: Vec<Point2<T>> = points(cx, 4);
    let q: Vec<Point3<T>> = (0..3).map(|i| { let v = cx.reals(&format!("q{}_", i), 3); Point3::new(v[0], v[1], v[2]) }).collect();
    let same = |cx: &mut Cx<T>, n: &str, a: &[Point2<T>]| for i in 0..a.len() { cx.ensure_eqs(n, a[i].coords.as_slice(), p[i].coords.as_slice()); };
    let seg = LineSegment2d::from_end_points(p[0], p[1]);
    let s = Segment2d2Element::from(seg.clone());
    same(cx, "segment", s.vertices());
    same(cx, "segment by reference", Segment2d2Element::from(&seg).vertices());
    let l = s.to_line_segment();
    same(cx, "back to a line segment", &[*l.start(), *l.end()]);
    same(cx, "triangle", Tri3d2Element::from(Triangle([p[0], p[1], p[2]])).vertices());
    same(cx, "quad", Quad4d2Element::from(Quad2d([p[0], p[1], p[2], p[3]])).vertices());
    let t = Tri3d3Element::from(Triangle([q[0], q[1], q[2]]));
    for i in 0..3 { cx.ensure_eqs("triangle in 3D", t.vertices()[i].coords.as_slice(), q[i].coords.as_slice()); }
    let i = Segment2d1Element::from_interval([p[0].x, p[1].x]);
    cx.ensure_eq("interval start", i.vertices()[0].x, p[0].x);
    cx.ensure_eq("interval end", i.vertices()[1].x, p[1].x);
});
contract!(Reference, "reference() elements", ["Tri3d2Element::reference", "Tri6d2Element::reference", "Quad4d2Element::reference", "Quad9d2Element::reference", "Tet4Element::reference", "Tet10Element::reference", "Tet20Element::reference", "Hex8Element::reference", "Hex20Element::reference", "Hex27Element::reference"], |cx, T| {
    macro_rules! r { ($ty:ident, $nodes:expr) => {{
        let e = $ty::<T>::reference();
        cx.ensure(concat!(stringify!($ty), " node count"), e.vertices().len() == $nodes.len());
        for (i, n) in $nodes.iter().enumerate() {
            let x: Vec<T> = n.iter().map(|a| third(*a)).collect();
            cx.ensure_eqs(&format!("{} node {}", stringify!($ty), i), e.vertices()[i].coords.as_slice(), &x);
        }
    }}}
    r!(Tri3d2Element, nodes_tri3()); r!(Tri6d2Element, nodes_tri6()); r!(Quad4d2Element, nodes_quad4()); r!(Quad9d2Element, nodes_quad9());
    r!(Tet4Element, nodes_tet4()); r!(Tet10Element, nodes_tet10()); r!(Tet20Element, nodes_tet20());
    r!(Hex8Element, nodes_hex8()); r!(Hex20Element, nodes_hex20()); r!(Hex27Element, nodes_hex27());
});

/// ElementConnectivity::element picks the named vertices; populate_element_variables the named nodes' variables.
fn picks<T: SReal, C: ElementConnectivity<T>>(cx: &mut Cx<T>, make: &dyn Fn(&[usize]) -> C, n: usize, refuses: bool, nodes_of: &dyn Fn(&C::Element) -> Vec<OPoint<T, C::GeometryDim>>)
where
    DefaultAllocator: BiDimAllocator<T, C::GeometryDim, C::ReferenceDim>,
{
    // every node of the mesh has its own unknown coordinates; the connectivity visits them in scrambled orders
    let nv = n + 3;
    let all: Vec<OPoint<T, C::GeometryDim>> = points(cx, nv);
    let orders: Vec<Vec<usize>> = vec![
        (0..n).collect(),
        (0..n).map(|i| nv - 1 - i).collect(),
        (0..n).map(|i| (i * 2 + 1) % nv).collect(),
        (0..n).map(|i| (i / 2) % nv).collect(),
        (0..n).map(|i| if i == 0 { nv - 1 } else { i - 1 }).collect(),
    ];
    for o in &orders {
        let c = make(o);
        cx.ensure("vertex_indices are those given", c.vertex_indices() == &o[..]);
        let e = c.element(&all);
        cx.ensure("an element exists", e.is_some());
        let e = e.unwrap();
        let v = nodes_of(&e);
        cx.ensure("node count", v.len() == n);
        for i in 0..n {
            cx.ensure_eqs(&format!("node {}", i), v[i].coords.as_slice(), all[o[i]].coords.as_slice());
        }
        let x: Vec<T> = (0..C::ReferenceDim::dim()).map(|k| T::ratio(k as i64 + 1, 7)).collect();
        let _ = e.map_reference_coords(&OPoint::from_slice(&x));
        fn pop<T: SReal, C: ElementConnectivity<T>, S: DimName>(cx: &mut Cx<T>, c: &C, o: &[usize], nv: usize)
        where
            DefaultAllocator: BiDimAllocator<T, C::GeometryDim, C::ReferenceDim> + nalgebra::allocator::Allocator<T, S, nalgebra::Dyn>,
        {
            let s = S::dim();
            let u = DVector::from_vec(cx.reals("u", s * nv));
            let mut l = OMatrix::<T, S, nalgebra::Dyn>::from_element(o.len(), T::ratio(-7, 3));
            c.populate_element_variables::<S>(MatrixViewMut::from_slice_generic(l.as_mut_slice(), S::name(), nalgebra::Dyn(o.len())), &u);
            for i in 0..o.len() {
                for k in 0..s {
                    cx.ensure_eq(&format!("variable {} of node {} of solution dimension {}", k, i, s), l[(k, i)], u[s * o[i] + k]);
                }
            }
        }
        pop::<T, C, U1>(cx, &c, o, nv);
        pop::<T, C, U2>(cx, &c, o, nv);
        pop::<T, C, U3>(cx, &c, o, nv);
    }
    if refuses {
        for k in 0..n {
            let mut o: Vec<usize> = (0..n).collect();
            o[k] = nv;
            cx.ensure(&format!("no element when node {} does not exist", k), make(&o).element(&all).is_none());
        }
    }
}
macro_rules! pick {
    ($name:ident, $c:ident, $n:expr, $refuses:expr) => {
        contract!($name, concat!("elements of ", stringify!($c)), [
            concat!("<", stringify!($c), " as ElementConnectivity>::element"),
            concat!("<", stringify!($c), " as ElementConnectivity>::populate_element_variables"),
            concat!("<", stringify!($c), " as Connectivity>::vertex_indices")
        ], |cx, T| {
            picks::<T, $c>(cx, &|o| $c(o.to_vec().try_into().unwrap()), $n, $refuses, &|e| e.vertices().to_vec());
        });
    };
}
pick!(KSeg21, Segment2d1Connectivity, 2, false);
pick!(KSeg22, Segment2d2Connectivity, 2, false);
pick!(KTri3, Tri3d2Connectivity, 3, true);
pick!(KTri33, Tri3d3Connectivity, 3, true);
pick!(KTri6, Tri6d2Connectivity, 6, true);
pick!(KQuad4, Quad4d2Connectivity, 4, true);
pick!(KQuad9, Quad9d2Connectivity, 9, false);
pick!(KTet4, Tet4Connectivity, 4, true);
pick!(KTet10, Tet10Connectivity, 10, true);
pick!(KTet20, Tet20Connectivity, 20, true);
pick!(KHex8, Hex8Connectivity, 8, true);
pick!(KHex20, Hex20Connectivity, 20, true);
pick!(KHex27, Hex27Connectivity, 27, true);

/// Nodal values picked by node index, and nodal values of a function.
fn picked<T: SReal, S: fenris::SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: fenris::allocators::DimAllocator<T, S>,
{
    let s = S::dim();
    let u = cx.reals(&format!("u{}_", s), 5 * s);
    for nodes in [&[3usize, 0, 3, 4][..], &[], &[1]] {
        let want: Vec<T> = nodes.iter().flat_map(|n| u[n * s..(n + 1) * s].to_vec()).collect();
        cx.ensure_eqs("values of the named nodes", extract_by_node_index::<T, S>(&u, nodes).as_slice(), &want);
        let x: Vec<Point2<T>> = nodes.iter().map(|n| Point2::new(u[*n], T::int(*n as i64))).collect();
        let mut calls = 0;
        let v = global_vector_from_point_fn::<T, U2, S, _>(&x[..], |p: &Point2<T>| {
            calls += 1;
            nalgebra::OVector::<T, S>::from_fn(|i, _| p.x * T::int(i as i64 + 1) + p.y)
        });
        let want: Vec<T> = x.iter().flat_map(|p| (0..s).map(move |i| p.x * T::int(i as i64 + 1) + p.y)).collect();
        cx.ensure_eqs("values at the points", v.as_slice(), &want);
        cx.ensure("one evaluation per point", calls == nodes.len());
    }
}
contract!(Picked, "nodal values by node index and from a function", ["util::extract_by_node_index", "util::global_vector_from_point_fn"], bound = "5 nodes, 1 to 3 values per node", |cx, T| {
    picked::<T, U1>(cx);
    picked::<T, U2>(cx);
    picked::<T, U3>(cx);
});

fn main() {
    macro_rules! items { ($($n:ident),* $(,)?) => { vec![$(Item::C(Box::new($n))),*] } }
    symcore::run::main(items![
        DHex8, DHex20, DHex27, BTet4,
        GSeg21, GSeg22, GTri3, GTri33, GTri6, GQuad4, GQuad9, GTet4, GTet10, GTet20, GHex8, GHex20, GHex27, Picked,
        DSeg21, DSeg22, DTri3, DTri33, DTri6, DQuad4, DQuad9, DTet4, DTet10, DTet20,
        BTri3, BTri33, NSeg, NTri, PTri6, PQuad9, PTet10, PTet20, PGeom, Reference,
        KSeg21, KSeg22, KTri3, KTri33, KTri6, KQuad4, KQuad9, KTet4, KTet10, KTet20, KHex8, KHex20, KHex27,
    ]);
}
