//! C03: connectivity topology.
use contracts::*;
use fenris::connectivity::*;
use nalgebra::{Point2, Point3};
use symcore::{contract, run::Item, Cx, SReal};

contract!(Geometry, "faces of the reference cells", [
    "<Tri3d2Connectivity as Connectivity>::get_face_connectivity", "<Tri6d2Connectivity as Connectivity>::get_face_connectivity",
    "<Quad4d2Connectivity as Connectivity>::get_face_connectivity", "<Quad9d2Connectivity as Connectivity>::get_face_connectivity",
    "<Tet4Connectivity as Connectivity>::get_face_connectivity", "<Tet10Connectivity as Connectivity>::get_face_connectivity",
    "<Hex8Connectivity as Connectivity>::get_face_connectivity", "<Hex20Connectivity as Connectivity>::get_face_connectivity", "<Hex27Connectivity as Connectivity>::get_face_connectivity"
], |cx, T| {
    let _ = T::one();
    for (n, r) in kcheck::c03::all_geometry() {
        let m = r.clone().err().unwrap_or_else(|| "the faces are exactly the sides of the reference cell, oriented outwards".into());
        cx.ensure(&format!("{}: {}", n, m), r.is_ok());
    }
});

fn pts<T: SReal, const D: usize>(cx: &mut Cx<T>, n: usize) -> Vec<nalgebra::Point<T, D>> {
    (0..n).map(|i| { let v = cx.reals(&format!("p{}_", i), D); nalgebra::Point::from_slice(&v) }).collect()
}
fn orders(n: usize, nv: usize) -> Vec<Vec<usize>> {
    vec![(0..n).collect(), (0..n).map(|i| nv - 1 - i).collect(), (0..n).map(|i| (i * 2 + 1) % nv).collect(), (0..n).map(|i| (i + 3) % nv).collect()]
}
macro_rules! cell {
    ($name:ident, $c:ident, $d:ty, $dn:literal, $n:literal, $corners:literal, $get:expr) => {
        contract!($name, concat!("cell of ", stringify!($c)), [concat!("<", stringify!($c), " as CellConnectivity>::cell")], |cx, T| {
            let all = pts::<T, $dn>(cx, $n + 3);
            for o in orders($n, $n + 3) {
                let c = $c(o.clone().try_into().unwrap());
                let cell = <$c as CellConnectivity<T, $d>>::cell(&c, &all);
                cx.ensure("a cell exists", cell.is_some());
                let cell = cell.unwrap();
                let v: [nalgebra::Point<T, $dn>; $corners] = std::array::from_fn(|i| all[o[i]]);
                cx.ensure("the cell spanned by exactly the named corner vertices, in order", cell == $get(v));
                let mut faces = vec![];
                <$c as CellConnectivity<T, $d>>::for_each_face(&c, |f| faces.push(f.vertex_indices().to_vec()));
                cx.ensure("for_each_face visits every face in order", faces == (0..c.num_faces()).map(|i| c.get_face_connectivity(i).unwrap().vertex_indices().to_vec()).collect::<Vec<_>>());
            }
        });
    };
}
use fenris::geometry::{Hexahedron, LineSegment2d, Quad2d, Tetrahedron, Triangle};
use nalgebra::{U2, U3};
cell!(CSeg, Segment2d2Connectivity, U2, 2, 2, 2, |v: [Point2<T>; 2]| LineSegment2d::from_end_points(v[0], v[1]));
cell!(CTri3, Tri3d2Connectivity, U2, 2, 3, 3, |v| Triangle(v));
cell!(CTri6, Tri6d2Connectivity, U2, 2, 6, 3, |v| Triangle(v));
cell!(CQuad4, Quad4d2Connectivity, U2, 2, 4, 4, |v| Quad2d(v));
cell!(CQuad9, Quad9d2Connectivity, U2, 2, 9, 4, |v| Quad2d(v));
cell!(CTri33, Tri3d3Connectivity, U3, 3, 3, 3, |v| Triangle(v));
cell!(CTri63, Tri6d3Connectivity, U3, 3, 6, 3, |v| Triangle(v));
cell!(CTet4, Tet4Connectivity, U3, 3, 4, 4, |v| Tetrahedron::from_vertices(v));
cell!(CTet10, Tet10Connectivity, U3, 3, 10, 4, |v| Tetrahedron::from_vertices(v));
cell!(CTet20, Tet20Connectivity, U3, 3, 20, 4, |v| Tetrahedron::from_vertices(v));
cell!(CHex8, Hex8Connectivity, U3, 3, 8, 8, |v| Hexahedron::from_vertices(v));
cell!(CHex20, Hex20Connectivity, U3, 3, 20, 8, |v| Hexahedron::from_vertices(v));
cell!(CHex27, Hex27Connectivity, U3, 3, 27, 8, |v| Hexahedron::from_vertices(v));

contract!(Missing, "no cell when a vertex does not exist", [
    "<Segment2d2Connectivity as CellConnectivity>::cell", "<Tri3d2Connectivity as CellConnectivity>::cell", "<Tri6d2Connectivity as CellConnectivity>::cell",
    "<Quad4d2Connectivity as CellConnectivity>::cell", "<Quad9d2Connectivity as CellConnectivity>::cell", "<Tri3d3Connectivity as CellConnectivity>::cell", "<Tri6d3Connectivity as CellConnectivity>::cell"
], |cx, T| {
    let (a, b) = (vec![Point2::<T>::origin(); 9], vec![Point3::<T>::origin(); 9]);
    macro_rules! m { ($c:ident, $d:ty, $n:literal, $corners:literal, $all:expr) => {
        for k in 0..$corners {
            let mut o: Vec<usize> = (0..$n).collect();
            o[k] = 9;
            let c = $c(o.try_into().unwrap());
            cx.ensure(concat!(stringify!($c), " refuses"), <$c as CellConnectivity<T, $d>>::cell(&c, &$all).is_none());
        }
    } }
    m!(Segment2d2Connectivity, U2, 2, 2, a); m!(Tri3d2Connectivity, U2, 3, 3, a); m!(Tri6d2Connectivity, U2, 6, 3, a); m!(Quad4d2Connectivity, U2, 4, 4, a); m!(Quad9d2Connectivity, U2, 9, 4, a);
    m!(Tri3d3Connectivity, U3, 3, 3, b); m!(Tri6d3Connectivity, U3, 6, 3, b);
});

fn main() {
    macro_rules! items { ($($n:ident),* $(,)?) => { vec![$(Item::C(Box::new($n))),*] } }
    let mut v = items![Geometry, CSeg, CTri3, CTri6, CQuad4, CQuad9, CTri33, CTri63, CTet4, CTet10, CTet20, CHex8, CHex20, CHex27, Missing];
    v.extend(native_runs("c03_"));
    symcore::run::main(v);
}
