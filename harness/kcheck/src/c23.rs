//! C23: node orders of the mesh file formats, for every labelling of the nodes.
use crate::g::*;
use fenris::connectivity::*;
use fenris::io::msh::MshConnectivity;
use fenris::io::vtk::VtkCellConnectivity;

/// Position in fenris' cell of every node of the VTK cell, from the node coordinates of both (see `c23.rs` of the contracts,
/// which checks this table against the geometry).
pub const TET10: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 9, 8];
pub const HEX20: [usize; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 9, 16, 18, 19, 17, 10, 12, 14, 15];
pub const ID: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];

fn vtk<const N: usize, C: VtkCellConnectivity>(make: fn([usize; N]) -> C, code: u8, order: &[usize]) {
    let v: [usize; N] = any_arr();
    let c = make(v);
    assert!(c.num_nodes() == order.len(), "number of nodes of the VTK cell");
    assert!(c.cell_type() as u8 == code, "VTK cell type");
    let mut out = [0usize; 20];
    c.write_vtk_connectivity(&mut out[..order.len()]);
    let k = any_in(0, order.len() - 1);
    assert!(out[k] == v[order[k]], "VTK node");
}
fn msh<const N: usize, C: MshConnectivity>(get: fn(&C) -> &[usize]) {
    let v: [usize; N] = any_arr();
    let mut nodes = Vec::with_capacity(N);
    for i in 0..N {
        nodes.push((v[i] >> 1) as u64 + 1);
    }
    let e = mshio::Element { element_tag: 1, nodes };
    let c = C::try_connectivity_from_msh_element(&e);
    assert!(c.is_ok(), "an element with the right number of nodes is accepted");
    let c = c.ok().unwrap();
    let k = any_in(0, N - 1);
    assert!(get(&c).len() == N && get(&c)[k] == v[k] >> 1, "node of the cell");
}
fn g<C: Connectivity>(c: &C) -> &[usize] {
    c.vertex_indices()
}
const W: &str = "VtkCellConnectivity::write_vtk_connectivity / num_nodes / cell_type";
const M: &str = "MshConnectivity::try_connectivity_from_msh_element";
kproofs! { LIST;
    c23_vtk_segment2d2, 21, None, [W], { vtk(Segment2d2Connectivity, 3, &ID[..2]) }
    c23_vtk_segment2d3, 21, None, [W], { vtk(Segment2d3Connectivity, 3, &ID[..2]) }
    c23_vtk_tri3, 21, None, [W], { vtk(Tri3d2Connectivity, 5, &ID[..3]) }
    c23_vtk_tri3d3, 21, None, [W], { vtk(Tri3d3Connectivity, 5, &ID[..3]) }
    c23_vtk_tri6, 21, None, [W], { vtk(Tri6d2Connectivity, 22, &ID[..6]) }
    c23_vtk_quad4, 21, None, [W], { vtk(Quad4d2Connectivity, 9, &ID[..4]) }
    c23_vtk_quad9, 21, None, [W], { vtk(Quad9d2Connectivity, 28, &ID[..9]) }
    c23_vtk_tet4, 21, None, [W], { vtk(Tet4Connectivity, 10, &ID[..4]) }
    c23_vtk_tet10, 21, None, [W], { vtk(Tet10Connectivity, 24, &TET10) }
    c23_vtk_tet20, 21, None, [W], { vtk(Tet20Connectivity, 10, &ID[..4]) }
    c23_vtk_hex8, 21, None, [W], { vtk(Hex8Connectivity, 12, &ID[..8]) }
    c23_vtk_hex20, 28, None, [W], { vtk(Hex20Connectivity, 25, &HEX20) }
    c23_vtk_hex27, 28, None, [W], { vtk(Hex27Connectivity, 25, &HEX20) }
    c23_msh_tri3, 5, None, [M], { msh::<3, Tri3d2Connectivity>(g) }
    c23_msh_tri3d3, 5, None, [M], { msh::<3, Tri3d3Connectivity>(g) }
    c23_msh_tri6, 8, None, [M], { msh::<6, Tri6d2Connectivity>(g) }
    c23_msh_quad4, 6, None, [M], { msh::<4, Quad4d2Connectivity>(g) }
    c23_msh_quad9, 11, None, [M], { msh::<9, Quad9d2Connectivity>(g) }
    c23_msh_tet4, 6, None, [M], { msh::<4, Tet4Connectivity>(g) }
    c23_msh_tet10, 12, None, [M], { msh::<10, Tet10Connectivity>(g) }
    c23_msh_hex8, 10, None, [M], { msh::<8, Hex8Connectivity>(g) }
    c23_msh_hex27, 29, None, [M], { msh::<27, Hex27Connectivity>(g) }
}
