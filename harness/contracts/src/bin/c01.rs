//! C01: basis functions and their gradients.
use contracts::*;
use fenris::allocators::BiDimAllocator;
use fenris::element::*;
use nalgebra::{DefaultAllocator, DimName, OPoint};
use symcore::{contract, run::Item, Cx, SReal};

fn basis<T: SReal, E: FiniteElement<T>>(cx: &mut Cx<T>, e: &E, nodes: &[Vec<i64>], monos: &[Vec<u32>])
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let d = E::ReferenceDim::dim();
    let n = nodes.len();
    let pt = |x: &[T]| OPoint::<T, E::ReferenceDim>::from_slice(x);
    cx.ensure("number of nodes", e.num_nodes() == n);
    let eval = |x: &[T]| {
        // the slice holds junk on entry: every entry must be written
        let mut v = vec![T::ratio(17, 5); n];
        e.populate_basis(&mut v, &pt(x));
        v
    };
    // Lagrange property at the nodes
    for (j, xj) in nodes.iter().enumerate() {
        let xj: Vec<T> = xj.iter().map(|a| third(*a)).collect();
        let v = eval(&xj);
        for i in 0..n {
            cx.ensure_eq(&format!("basis {} at node {}", i, j), v[i], T::int((i == j) as i64));
        }
    }
    let xi = cx.reals("xi", d);
    let v = eval(&xi);
    let sum = v.iter().fold(T::zero(), |a, b| a + *b);
    cx.ensure_eq("partition of unity", sum, T::one());
    for m in monos {
        let s = (0..n).fold(T::zero(), |a, i| {
            let xn: Vec<T> = nodes[i].iter().map(|a| third(*a)).collect();
            a + v[i] * eval_monomial(m, &xn)
        });
        cx.ensure_eq(&format!("reproduces monomial {:?}", m), s, eval_monomial(m, &xi));
    }
    // gradients are the exact derivatives
    let mut g = nalgebra::OMatrix::<T, E::ReferenceDim, nalgebra::Dyn>::from_element(n, T::ratio(17, 5));
    e.populate_basis_gradients(nalgebra::MatrixViewMut::from(&mut g), &pt(&xi));
    for k in 0..d {
        let dv = cx.directional(|eps| {
            let mut x = xi.clone();
            x[k] += eps;
            eval(&x)
        });
        for i in 0..n {
            cx.ensure_eq(&format!("gradient[{}] of basis {}", k, i), g[(k, i)], dv[i]);
        }
    }
}

macro_rules! elem {
    ($name:ident, $ty:ident, $make:expr, $nodes:expr, $d:expr, $k:expr, $tensor:expr) => {
        contract!($name, concat!("basis of ", stringify!($ty)), [
            concat!("<", stringify!($ty), " as ReferenceFiniteElement>::populate_basis"),
            concat!("<", stringify!($ty), " as ReferenceFiniteElement>::populate_basis_gradients"),
            concat!("<", stringify!($ty), " as FixedNodesReferenceFiniteElement>::evaluate_basis"),
            concat!("<", stringify!($ty), " as FixedNodesReferenceFiniteElement>::gradients")
        ], |cx, T| {
            let e: $ty<T> = $make;
            basis::<T, $ty<T>>(cx, &e, &$nodes, &monomials($d, $k, $tensor));
        });
    };
}
use nalgebra::{Point1, Point2, Point3};
fn p1<T: SReal>(n: &[Vec<i64>]) -> Vec<Point1<T>> { n.iter().map(|x| Point1::new(third(x[0]))).collect() }
fn p2<T: SReal>(n: &[Vec<i64>]) -> Vec<Point2<T>> { n.iter().map(|x| Point2::new(third(x[0]), third(x[1]))).collect() }
fn p3<T: SReal>(n: &[Vec<i64>]) -> Vec<Point3<T>> { n.iter().map(|x| Point3::new(third(x[0]), third(x[1]), third(x[2]))).collect() }

elem!(Seg21, Segment2d1Element, Segment2d1Element::from_vertices(p1(&nodes_seg2()).try_into().unwrap()), nodes_seg2(), 1, 1, false);
elem!(Seg22, Segment2d2Element, Segment2d2Element::from_vertices([Point2::new(T::int(0), T::int(0)), Point2::new(T::int(1), T::int(2))]), nodes_seg2(), 1, 1, false);
elem!(Tri3, Tri3d2Element, Tri3d2Element::from_vertices(p2(&nodes_tri3()).try_into().unwrap()), nodes_tri3(), 2, 1, false);
elem!(Tri33, Tri3d3Element, Tri3d3Element::from_vertices([Point3::new(T::int(0), T::int(0), T::int(0)), Point3::new(T::int(1), T::int(2), T::int(0)), Point3::new(T::int(1), T::int(0), T::int(5))]), nodes_tri3(), 2, 1, false);
elem!(Tri6, Tri6d2Element, Tri6d2Element::from_vertices(p2(&nodes_tri6()).try_into().unwrap()), nodes_tri6(), 2, 2, false);
elem!(Quad4, Quad4d2Element, Quad4d2Element::from_vertices(p2(&nodes_quad4()).try_into().unwrap()), nodes_quad4(), 2, 1, true);
elem!(Quad9, Quad9d2Element, Quad9d2Element::from_vertices(p2(&nodes_quad9()).try_into().unwrap()), nodes_quad9(), 2, 2, true);
elem!(Tet4, Tet4Element, Tet4Element::from_vertices(p3(&nodes_tet4()).try_into().unwrap()), nodes_tet4(), 3, 1, false);
elem!(Tet10, Tet10Element, Tet10Element::from_vertices(p3(&nodes_tet10()).try_into().unwrap()), nodes_tet10(), 3, 2, false);
elem!(Tet20, Tet20Element, Tet20Element::from_vertices(p3(&nodes_tet20()).try_into().unwrap()), nodes_tet20(), 3, 3, false);
elem!(Hex8, Hex8Element, Hex8Element::from_vertices(p3(&nodes_hex8()).try_into().unwrap()), nodes_hex8(), 3, 1, true);
elem!(Hex20, Hex20Element, Hex20Element::from_vertices(p3(&nodes_hex20()).try_into().unwrap()), nodes_hex20(), 3, 2, false);
elem!(Hex27, Hex27Element, Hex27Element::from_vertices(p3(&nodes_hex27()).try_into().unwrap()), nodes_hex27(), 3, 2, true);

fn main() {
    symcore::run::main(vec![
        Item::C(Box::new(Seg21)), Item::C(Box::new(Seg22)), Item::C(Box::new(Tri3)), Item::C(Box::new(Tri33)), Item::C(Box::new(Tri6)),
        Item::C(Box::new(Quad4)), Item::C(Box::new(Quad9)), Item::C(Box::new(Tet4)), Item::C(Box::new(Tet10)), Item::C(Box::new(Tet20)),
        Item::C(Box::new(Hex8)), Item::C(Box::new(Hex20)), Item::C(Box::new(Hex27)),
    ]);
}
