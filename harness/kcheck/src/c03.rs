//! C03: faces of every cell type, for every labelling of the nodes.
use crate::g::*;
use fenris::connectivity::*;

pub type P = [i32; 3];
const fn mid(a: P, b: P) -> P {
    [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2]
}
// reference nodes in units of 1/2
pub const TRI: [P; 6] = { let v = [[-2, -2, 0], [2, -2, 0], [-2, 2, 0]]; [v[0], v[1], v[2], mid(v[0], v[1]), mid(v[1], v[2]), mid(v[0], v[2])] };
pub const QUAD: [P; 9] = { let v = [[-2, -2, 0], [2, -2, 0], [2, 2, 0], [-2, 2, 0]]; [v[0], v[1], v[2], v[3], mid(v[0], v[1]), mid(v[1], v[2]), mid(v[2], v[3]), mid(v[3], v[0]), [0, 0, 0]] };
pub const TET: [P; 10] = {
    let v = [[-2, -2, -2], [2, -2, -2], [-2, 2, -2], [-2, -2, 2]];
    [v[0], v[1], v[2], v[3], mid(v[0], v[1]), mid(v[1], v[2]), mid(v[0], v[2]), mid(v[0], v[3]), mid(v[2], v[3]), mid(v[1], v[3])]
};
pub const HEX: [P; 27] = {
    let v: [P; 8] = [[-2, -2, -2], [2, -2, -2], [2, 2, -2], [-2, 2, -2], [-2, -2, 2], [2, -2, 2], [2, 2, 2], [-2, 2, 2]];
    let e = [(0, 1), (0, 3), (0, 4), (1, 2), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 7), (5, 6), (6, 7)];
    let f = [(0, 2), (0, 5), (0, 7), (1, 6), (2, 7), (4, 6)];
    let mut r = [[0; 3]; 27];
    let mut i = 0;
    while i < 8 { r[i] = v[i]; i += 1; }
    let mut k = 0;
    while k < 12 { r[8 + k] = mid(v[e[k].0], v[e[k].1]); k += 1; }
    let mut k = 0;
    while k < 6 { r[20 + k] = mid(v[f[k].0], v[f[k].1]); k += 1; }
    r
};
fn sub(a: P, b: P) -> P { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn dot(a: P, b: P) -> i32 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: P, b: P) -> P { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }

/// The outward normal n of each side of the reference cell and its offset c: the cell is { x : n.x <= c }.
const TRI_SIDES: [(P, i32); 3] = [([-1, 0, 0], 2), ([0, -1, 0], 2), ([1, 1, 0], 0)];
const QUAD_SIDES: [(P, i32); 4] = [([-1, 0, 0], 2), ([0, -1, 0], 2), ([1, 0, 0], 2), ([0, 1, 0], 2)];
const TET_SIDES: [(P, i32); 4] = [([-1, 0, 0], 2), ([0, -1, 0], 2), ([0, 0, -1], 2), ([1, 1, 1], -2)];
const HEX_SIDES: [(P, i32); 6] = [([-1, 0, 0], 2), ([0, -1, 0], 2), ([0, 0, -1], 2), ([1, 0, 0], 2), ([0, 1, 0], 2), ([0, 0, 1], 2)];

/// Contract of num_faces / get_face_connectivity / vertex_indices, for every labelling of the nodes: the faces are made of
/// the nodes in the same local positions as with the labelling 0, 1, 2, ... (whose geometry `geometry` decides).
fn faces<const N: usize, C: Connectivity>(make: fn([usize; N]) -> C, num: usize, nodes: usize) {
    let ids: [usize; N] = core::array::from_fn(|i| i);
    let v: [usize; N] = any_arr();
    let (c0, c) = (make(ids), make(v));
    let w = c.vertex_indices();
    assert!(w.len() == N, "as many vertex indices as nodes");
    let k = any_in(0, N - 1);
    assert!(w[k] == v[k], "vertex_indices are those given");
    assert!(c.num_faces() == num && c0.num_faces() == num, "number of faces");
    let i = any_usize();
    match (c0.get_face_connectivity(i), c.get_face_connectivity(i)) {
        (Some(f0), Some(f)) => {
            assert!(i < num, "no face out of range");
            let (l, g) = (f0.vertex_indices(), f.vertex_indices());
            assert!(l.len() == nodes && g.len() == nodes, "number of face nodes");
            let k = any_in(0, nodes - 1);
            assert!(l[k] < N && g[k] == v[l[k]], "face nodes are nodes of the cell, whatever their labels");
        }
        (None, None) => assert!(i >= num, "a face exists for every index in range"),
        _ => assert!(false, "the labels do not decide which faces exist"),
    }
}
/// The faces of the cell labelled 0, 1, 2, ... are exactly the sides of the reference cell. A closed statement: no inputs.
#[cfg(not(kani))]
pub fn geometry<const N: usize, C: Connectivity>(make: fn([usize; N]) -> C, x: &[P], dim: usize, sides: &[(P, i32)], corners: usize, mids: bool, centre: bool) -> Result<(), String> {
    let need = |b: bool, i: usize, m: &str| if b { Ok(()) } else { Err(format!("face {}: {}", i, m)) };
    let c0 = make(core::array::from_fn(|i| i));
    let mut seen = 0u32;
    for i in 0..sides.len() {
        let f0 = c0.get_face_connectivity(i).ok_or("face missing")?;
        let l = f0.vertex_indices();
        need(l.iter().all(|k| *k < N), i, "face nodes are nodes of the cell")?;
        let side = (0..sides.len()).filter(|s| l.iter().all(|k| dot(sides[*s].0, x[*k]) == sides[*s].1)).collect::<Vec<_>>();
        need(side.len() == 1, i, "all nodes of a face lie on one side of the cell")?;
        let side = side[0];
        need(seen & (1 << side) == 0, i, "no side is reported twice")?;
        seen |= 1 << side;
        let n = sides[side].0;
        for j in 0..N {
            let count = l.iter().filter(|k| **k == j).count();
            need(count == (dot(n, x[j]) == sides[side].1) as usize, i, "the face has exactly the nodes on its side")?;
        }
        if dim == 2 {
            let (a, b) = (x[l[0]], x[l[l.len() - 1]]);
            let d = sub(b, a);
            need(dot([d[1], -d[0], 0], n) > 0, i, "boundary segments run with the interior to the left")?;
            if mids { need(x[l[1]] == mid(a, b), i, "the middle node is between the ends")?; }
        } else {
            for k in 0..corners {
                let (a, b, c) = (x[l[k]], x[l[(k + 1) % corners]], x[l[(k + 2) % corners]]);
                need(dot(cross(sub(b, a), sub(c, b)), n) > 0, i, "face corners run around the outward normal")?;
                if mids { need(x[l[corners + k]] == mid(a, b), i, "edge nodes lie on the edges of the face, in order")?; }
            }
            if centre { need(x[l[2 * corners]] == mid(x[l[0]], x[l[2]]), i, "the last node is the middle of the face")?; }
        }
    }
    Ok(())
}
#[cfg(not(kani))]
pub fn all_geometry() -> Vec<(&'static str, Result<(), String>)> {
    vec![
        ("Tri3d2Connectivity", geometry(Tri3d2Connectivity, &TRI, 2, &TRI_SIDES, 2, false, false)),
        ("Tri6d2Connectivity", geometry(Tri6d2Connectivity, &TRI, 2, &TRI_SIDES, 2, true, false)),
        ("Quad4d2Connectivity", geometry(Quad4d2Connectivity, &QUAD, 2, &QUAD_SIDES, 2, false, false)),
        ("Quad9d2Connectivity", geometry(Quad9d2Connectivity, &QUAD, 2, &QUAD_SIDES, 2, true, false)),
        ("Tet4Connectivity", geometry(Tet4Connectivity, &TET, 3, &TET_SIDES, 3, false, false)),
        ("Tet10Connectivity", geometry(Tet10Connectivity, &TET, 3, &TET_SIDES, 3, true, false)),
        ("Hex8Connectivity", geometry(Hex8Connectivity, &HEX, 3, &HEX_SIDES, 4, false, false)),
        ("Hex20Connectivity", geometry(Hex20Connectivity, &HEX, 3, &HEX_SIDES, 4, true, false)),
        ("Hex27Connectivity", geometry(Hex27Connectivity, &HEX, 3, &HEX_SIDES, 4, true, true)),
    ]
}
/// Edges of surface cells: in range, cyclic, with the middle node in between.
fn edges<const N: usize, C: Connectivity>(make: fn([usize; N]) -> C, corners: usize, mids: bool) {
    let v: [usize; N] = any_arr();
    let c = make(v);
    let k = any_in(0, N - 1);
    assert!(c.vertex_indices().len() == N && c.vertex_indices()[k] == v[k], "vertex_indices are those given");
    assert!(c.num_faces() == corners, "number of edges");
    let i = any_usize();
    match c.get_face_connectivity(i) {
        None => assert!(i >= corners, "an edge exists for every index in range"),
        Some(f) => {
            assert!(i < corners, "no edge out of range");
            let g = f.vertex_indices();
            if mids {
                assert!(g.len() == 3 && g[0] == v[i] && g[1] == v[corners + i] && g[2] == v[(i + 1) % corners], "edge i joins corner i to the next");
            } else {
                assert!(g.len() == 2 && g[0] == v[i] && g[1] == v[(i + 1) % corners], "edge i joins corner i to the next");
            }
        }
    }
}
fn none<const N: usize, C: Connectivity>(make: fn([usize; N]) -> C) {
    let v: [usize; N] = any_arr();
    let c = make(v);
    let k = any_in(0, N - 1);
    assert!(c.vertex_indices().len() == N && c.vertex_indices()[k] == v[k], "vertex_indices are those given");
    assert!(c.num_faces() == 0 && c.get_face_connectivity(any_usize()).is_none(), "no faces");
}
/// vertex_indices_mut exposes the same indices, in order.
fn mutable<const N: usize, C: ConnectivityMut>(make: fn([usize; N]) -> C) {
    let v: [usize; N] = any_arr();
    let mut c = make(v);
    let k = any_in(0, N - 1);
    let w = any_usize();
    assert!(c.vertex_indices_mut().len() == N, "as many mutable indices as nodes");
    c.vertex_indices_mut()[k] = w;
    let g = c.vertex_indices();
    let i = any_in(0, N - 1);
    assert!(g[i] == if i == k { w } else { v[i] }, "vertex_indices_mut changes exactly the index addressed");
}
macro_rules! face_proofs {
    ($($name:ident $mname:ident $ty:ident $n:literal: $call:expr;)*) => {
        kproofs! { LIST;
            $($name, 30, None, [concat!("<", stringify!($ty), " as Connectivity>::num_faces"), concat!("<", stringify!($ty), " as Connectivity>::get_face_connectivity"), concat!("<", stringify!($ty), " as Connectivity>::vertex_indices")], { $call; })*
            $($mname, 30, None, [concat!("<", stringify!($ty), " as ConnectivityMut>::vertex_indices_mut")], { mutable($ty); })*
            c03_lower_order, 30, None, ["<Quad4d2Connectivity as From<&Quad9d2Connectivity>>::from", "<Tri3d2Connectivity as From<&Tri6d2Connectivity>>::from", "<Tet4Connectivity as From<&Tet10Connectivity>>::from", "<Tet4Connectivity as From<&Tet20Connectivity>>::from"], {
                let q: [usize; 9] = any_arr();
                let k = any_in(0, Quad4d2Connectivity::from(&Quad9d2Connectivity(q)).0.len() - 1);
                assert!(Quad4d2Connectivity::from(&Quad9d2Connectivity(q)).0[k] == q[k], "Quad9 to Quad4 keeps the corners in order");
                let t: [usize; 6] = any_arr();
                let k = any_in(0, Tri3d2Connectivity::from(&Tri6d2Connectivity(t)).0.len() - 1);
                assert!(Tri3d2Connectivity::from(&Tri6d2Connectivity(t)).0[k] == t[k], "Tri6 to Tri3 keeps the corners in order");
                let a: [usize; 10] = any_arr();
                let k = any_in(0, Tet4Connectivity::from(&Tet10Connectivity(a)).0.len() - 1);
                assert!(Tet4Connectivity::from(&Tet10Connectivity(a)).0[k] == a[k], "Tet10 to Tet4 keeps the corners in order");
                let b: [usize; 20] = any_arr();
                let k = any_in(0, Tet4Connectivity::from(&Tet20Connectivity(b)).0.len() - 1);
                assert!(Tet4Connectivity::from(&Tet20Connectivity(b)).0[k] == b[k], "Tet20 to Tet4 keeps the corners in order");
            }
            c03_deref, 30, None, ["<Quad9d2Connectivity as Deref>::deref", "<Quad4d2Connectivity as Deref>::deref", "<Tri3d2Connectivity as Deref>::deref", "<Tri6d2Connectivity as Deref>::deref", "<Tri3d3Connectivity as Deref>::deref", "<Tri6d3Connectivity as Deref>::deref"], {
                let q: [usize; 9] = any_arr();
                let k = any_in(0, 8);
                assert!(Quad9d2Connectivity(q).len() == 9 && Quad9d2Connectivity(q)[k] == q[k], "the indices");
                let p: [usize; 4] = any_arr();
                let k = any_in(0, 3);
                assert!(Quad4d2Connectivity(p)[k] == p[k], "the indices");
                let t: [usize; 3] = any_arr();
                let k = any_in(0, 2);
                assert!(Tri3d2Connectivity(t)[k] == t[k] && Tri3d3Connectivity(t)[k] == t[k], "the indices");
                let s: [usize; 6] = any_arr();
                let k = any_in(0, 5);
                assert!(Tri6d2Connectivity(s).len() == 6 && Tri6d2Connectivity(s)[k] == s[k] && Tri6d3Connectivity(s)[k] == s[k], "the indices");
            }
        }
    };
}
face_proofs! {
    c03_tri3d2 c03_mut_tri3d2 Tri3d2Connectivity 3: faces(Tri3d2Connectivity, 3, 2);
    c03_tri6d2 c03_mut_tri6d2 Tri6d2Connectivity 6: faces(Tri6d2Connectivity, 3, 3);
    c03_quad4d2 c03_mut_quad4d2 Quad4d2Connectivity 4: faces(Quad4d2Connectivity, 4, 2);
    c03_quad9d2 c03_mut_quad9d2 Quad9d2Connectivity 9: faces(Quad9d2Connectivity, 4, 3);
    c03_tet4 c03_mut_tet4 Tet4Connectivity 4: faces(Tet4Connectivity, 4, 3);
    c03_tet10 c03_mut_tet10 Tet10Connectivity 10: faces(Tet10Connectivity, 4, 6);
    c03_hex8 c03_mut_hex8 Hex8Connectivity 8: faces(Hex8Connectivity, 6, 4);
    c03_hex20 c03_mut_hex20 Hex20Connectivity 20: faces(Hex20Connectivity, 6, 8);
    c03_hex27 c03_mut_hex27 Hex27Connectivity 27: faces(Hex27Connectivity, 6, 9);
    c03_tri3d3 c03_mut_tri3d3 Tri3d3Connectivity 3: edges(Tri3d3Connectivity, 3, false);
    c03_tri6d3 c03_mut_tri6d3 Tri6d3Connectivity 6: edges(Tri6d3Connectivity, 3, true);
    c03_quad4d3 c03_mut_quad4d3 Quad4d3Connectivity 4: edges(Quad4d3Connectivity, 4, false);
    c03_quad8d3 c03_mut_quad8d3 Quad8d3Connectivity 8: edges(Quad8d3Connectivity, 4, true);
    c03_quad9d3 c03_mut_quad9d3 Quad9d3Connectivity 9: edges(Quad9d3Connectivity, 4, true);
    c03_seg2d1 c03_mut_seg2d1 Segment2d1Connectivity 2: none(Segment2d1Connectivity);
    c03_seg2d2 c03_mut_seg2d2 Segment2d2Connectivity 2: none(Segment2d2Connectivity);
    c03_seg2d3 c03_mut_seg2d3 Segment2d3Connectivity 2: none(Segment2d3Connectivity);
    c03_seg3d2 c03_mut_seg3d2 Segment3d2Connectivity 3: none(Segment3d2Connectivity);
    c03_seg3d3 c03_mut_seg3d3 Segment3d3Connectivity 3: none(Segment3d3Connectivity);
    c03_tet20 c03_mut_tet20 Tet20Connectivity 20: none(Tet20Connectivity);
}
