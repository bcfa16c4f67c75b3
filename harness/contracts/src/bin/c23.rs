//! C23: reading and writing mesh files.
use contracts::rng::Rng;
use contracts::*;
use fenris::connectivity::*;
use fenris::element::{ElementConnectivity, FiniteElement};
use fenris::io::msh::{load_msh_from_bytes, load_msh_from_file, MshConnectivity};
use fenris::io::vtk::{FiniteElementMeshDataSetBuilder, VtkCellConnectivity};
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, Point1, Point2, Point3, U1, U2, U3};
use fenris::vtkio::model::{Attribute, DataSet, ElementType, IOBuffer, Piece, VertexNumbers, Vtk};
use std::fmt::Write as _;
use symcore::run::{bounded, Item};

type R = Result<(), String>;
fn check(ok: bool, msg: impl FnOnce() -> String) -> R {
    if ok { Ok(()) } else { Err(msg()) }
}

// ---------------------------------------------------------------- the file format, from its documentation
/// Gmsh element type number and number of nodes.
const TYPES: &[(&str, usize, usize, usize)] = &[
    ("lin2", 1, 2, 1), ("tri3", 2, 3, 2), ("quad4", 3, 4, 2), ("tet4", 4, 4, 3), ("hex8", 5, 8, 3), ("tri6", 9, 6, 2), ("quad9", 10, 9, 2),
    ("tet10", 11, 10, 3), ("hex27", 12, 27, 3), ("point", 15, 1, 0),
];
fn ty(name: &str) -> (usize, usize, usize) {
    let t = TYPES.iter().find(|t| t.0 == name).unwrap();
    (t.1, t.2, t.3)
}
/// Every node of the cell as an average of corners, in the node order of Gmsh.
fn gmsh_nodes(name: &str) -> Vec<Vec<usize>> {
    let corners = |n: usize| (0..n).map(|i| vec![i]).collect::<Vec<_>>();
    let (n, e): (usize, Vec<Vec<usize>>) = match name {
        "tri3" => (3, vec![]),
        "quad4" => (4, vec![]),
        "tet4" => (4, vec![]),
        "hex8" => (8, vec![]),
        "tri6" => (3, vec![vec![0, 1], vec![1, 2], vec![2, 0]]),
        "quad9" => (4, vec![vec![0, 1], vec![1, 2], vec![2, 3], vec![3, 0], vec![0, 1, 2, 3]]),
        "tet10" => (4, vec![vec![0, 1], vec![1, 2], vec![2, 0], vec![0, 3], vec![2, 3], vec![1, 3]]),
        "hex27" => (8, vec![
            vec![0, 1], vec![0, 3], vec![0, 4], vec![1, 2], vec![1, 5], vec![2, 3], vec![2, 6], vec![3, 7], vec![4, 5], vec![4, 7], vec![5, 6], vec![6, 7],
            vec![0, 3, 2, 1], vec![0, 1, 5, 4], vec![0, 4, 7, 3], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![4, 5, 6, 7], vec![0, 1, 2, 3, 4, 5, 6, 7],
        ]),
        _ => unreachable!(),
    };
    let mut v = corners(n);
    v.extend(e);
    v
}
/// Every node of the cell as an average of corners, in the node order of VTK; VTK's number of the cell type.
fn vtk_nodes(code: u8) -> Vec<Vec<usize>> {
    let corners = |n: usize| (0..n).map(|i| vec![i]).collect::<Vec<_>>();
    let (n, e): (usize, Vec<(usize, usize)>) = match code {
        3 => (2, vec![]),
        5 => (3, vec![]),
        9 => (4, vec![]),
        10 => (4, vec![]),
        12 => (8, vec![]),
        22 => (3, vec![(0, 1), (1, 2), (2, 0)]),
        23 | 28 => (4, vec![(0, 1), (1, 2), (2, 3), (3, 0)]),
        24 => (4, vec![(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
        25 => (8, vec![(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]),
        _ => unreachable!(),
    };
    let mut v = corners(n);
    v.extend(e.into_iter().map(|(a, b)| vec![a, b]));
    if code == 28 {
        v.push(vec![0, 1, 2, 3]);
    }
    v
}

// ---------------------------------------------------------------- a file
struct File {
    first_tag: usize,
    /// coordinates of the nodes of each block
    nodes: Vec<Vec<[f64; 3]>>,
    /// element blocks: type name, entity dimension, cells by node index
    blocks: Vec<(&'static str, usize, Vec<Vec<usize>>)>,
    entities: bool,
}
impl File {
    fn text(&self) -> String {
        let mut s = String::from("$MeshFormat\n4.1 0 8\n$EndMeshFormat\n");
        if self.entities {
            s += "$Entities\n1 0 0 0\n1 0 0 0 0 \n$EndEntities\n";
        }
        let n: usize = self.nodes.iter().map(|b| b.len()).sum();
        let _ = writeln!(s, "$Nodes\n{} {} {} {}", self.nodes.len(), n, self.first_tag, self.first_tag + n - 1);
        let mut tag = self.first_tag;
        for (i, b) in self.nodes.iter().enumerate() {
            let _ = writeln!(s, "{} {} 0 {}", i % 3, i + 1, b.len());
            for _ in b {
                let _ = writeln!(s, "{}", tag);
                tag += 1;
            }
            for p in b {
                let _ = writeln!(s, "{} {} {}", p[0], p[1], p[2]);
            }
        }
        let m: usize = self.blocks.iter().map(|b| b.2.len()).sum();
        let _ = writeln!(s, "$EndNodes\n$Elements\n{} {} 1 {}", self.blocks.len(), m, m.max(1));
        let mut e = 1;
        for (i, (t, dim, cells)) in self.blocks.iter().enumerate() {
            let _ = writeln!(s, "{} {} {} {}", dim, i + 1, ty(t).0, cells.len());
            for c in cells {
                let _ = write!(s, "{}", e);
                for v in c {
                    let _ = write!(s, " {}", v + self.first_tag);
                }
                s += " \n";
                e += 1;
            }
        }
        s += "$EndElements\n";
        s
    }
}
fn random_file(rng: &mut Rng, name: &'static str) -> File {
    let nb = 1 + rng.below(4);
    let nodes: Vec<Vec<[f64; 3]>> = (0..nb)
        .map(|b| {
            let k = if b == 0 { 2 + rng.below(8) } else { rng.below(7) };
            (0..k).map(|_| [rng.int(-9, 9) as f64 / 8.0, rng.int(-99, 99) as f64 * 1e-3, rng.int(-5, 5) as f64]).collect()
        })
        .collect();
    let n: usize = nodes.iter().map(|b| b.len()).sum();
    let mut blocks = vec![];
    let nblocks = 1 + rng.below(5);
    let must = rng.below(nblocks);
    for b in 0..nblocks {
        let t = if b == must || rng.below(2) == 0 { name } else { TYPES[rng.below(TYPES.len())].0 };
        let (_, k, d) = ty(t);
        let c = rng.below(4) + (b == must && rng.below(4) > 0) as usize;
        blocks.push((t, d, (0..c).map(|_| (0..k).map(|_| rng.below(n)).collect()).collect()));
    }
    if blocks.iter().all(|b: &(_, _, Vec<Vec<usize>>)| b.2.is_empty()) {
        // mshio cannot read an element section without elements
        blocks.push(("point", 0, vec![vec![0]]));
    }
    File { first_tag: [1, 1, 2, 5, 1000][rng.below(5)], nodes, blocks, entities: rng.bool() }
}
fn same_mesh<D: DimName, C: Connectivity>(m: &Mesh<f64, D, C>, f: &File, name: &str) -> R
where
    DefaultAllocator: Allocator<f64, D>,
{
    let p: Vec<[f64; 3]> = f.nodes.iter().flatten().copied().collect();
    check(m.vertices().len() == p.len(), || format!("{} vertices, the file has {}", m.vertices().len(), p.len()))?;
    for (i, (v, q)) in m.vertices().iter().zip(&p).enumerate() {
        for k in 0..D::dim() {
            check(v[k] == q[k], || format!("vertex {} is {:?}, the file says {:?}", i, v, q))?;
        }
    }
    let want: Vec<Vec<usize>> = f.blocks.iter().filter(|b| b.0 == name).flat_map(|b| b.2.iter().cloned()).collect();
    let have: Vec<Vec<usize>> = m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect();
    check(want == have, || format!("cells {:?}, the file says {:?}", have, want))
}
const READ: &[&str] = &["load_msh_from_bytes", "load_msh_from_file", "vertices_from_node_block", "connectivity_from_element_block", "point_from_msh_node", "MshConnectivity::try_connectivity_from_msh_element"];
fn reading<D: DimName, C: MshConnectivity + Connectivity + std::fmt::Debug>(name: &'static str, label: &str) -> Vec<Item>
where
    DefaultAllocator: Allocator<f64, D>,
{
    vec![
        bounded(&format!("{}: the mesh has exactly the vertices and cells of the file", label), READ, "random files: up to 30 nodes in 4 blocks, up to 5 element blocks of any type, node tags starting anywhere", move |e| {
            let mut rng = Rng(e.seed + 11);
            for _ in 0..if e.thorough { 20000 } else { 800 } {
                let f = random_file(&mut rng, name);
                let text = f.text();
                e.case(|| text.clone(), || {
                    let m = load_msh_from_bytes::<f64, D, C>(text.as_bytes()).map_err(|x| format!("refused: {:#}", x))?;
                    same_mesh(&m, &f, name)
                });
            }
        }),
        bounded(&format!("{}: a file that does not describe such a mesh is refused", label), READ, "random files with gaps in the node tags, cells of other types only, or cells with nodes that do not exist", move |e| {
            let mut rng = Rng(e.seed + 12);
            for _ in 0..if e.thorough { 5000 } else { 300 } {
                let mut f = random_file(&mut rng, name);
                let n: usize = f.nodes.iter().map(|b| b.len()).sum();
                let kind = rng.below(4);
                let what = match kind {
                    0 => {
                        f.blocks.iter_mut().for_each(|b| if b.0 == name { *b = ("point", 0, vec![vec![0]]) });
                        "no cells of the type"
                    }
                    1 => {
                        let k = ty(name).1;
                        let mut c: Vec<usize> = (0..k).map(|_| rng.below(n)).collect();
                        c[rng.below(k)] = n + rng.below(3);
                        f.blocks.push((name, ty(name).2, vec![c]));
                        "a node after the last"
                    }
                    2 => "gap in the node tags",
                    _ => "sections missing",
                };
                let mut text = f.text();
                if kind == 1 && f.first_tag > 1 && rng.bool() {
                    // and one before the first
                    text = text.replace(&format!(" {} \n", n + f.first_tag), " 1 \n");
                }
                if kind == 2 {
                    let head = format!("{} {} {} {}\n", f.nodes.len(), n, f.first_tag, f.first_tag + n - 1);
                    text = text.replacen(&head, &format!("{} {} {} {}\n", f.nodes.len(), n, f.first_tag, f.first_tag + n + 3), 1);
                }
                if kind == 3 {
                    let (a, b) = if rng.bool() { ("$Nodes", "$EndNodes\n") } else { ("$Elements", "$EndElements\n") };
                    let (i, j) = (text.find(a).unwrap(), text.find(b).unwrap() + b.len());
                    text.replace_range(i..j, "");
                }
                e.case(|| format!("{}: {}", what, text), || match load_msh_from_bytes::<f64, D, C>(text.as_bytes()) {
                    Err(_) => Ok(()),
                    Ok(m) => Err(format!("accepted as a mesh with cells {:?} of {} vertices", m.connectivity(), m.vertices().len())),
                });
            }
        }),
    ]
}
/// Corners of a random affine image of the reference cell, and that map.
fn affine(rng: &mut Rng, name: &str) -> (Vec<[f64; 3]>, impl Fn(&[f64]) -> [f64; 3]) {
    let o: Vec<f64> = (0..3).map(|_| rng.int(-8, 8) as f64).collect();
    let a: Vec<Vec<f64>> = (0..3).map(|i| (0..3).map(|j| rng.int(-8, 8) as f64 / 4.0 + if i == j { 3.0 } else { 0.0 }).collect()).collect();
    let map = move |x: &[f64]| {
        let mut r = [0.0; 3];
        for i in 0..3 {
            r[i] = o[i] + (0..x.len()).map(|j| a[i][j] * x[j]).sum::<f64>();
        }
        r
    };
    let c: Vec<Vec<f64>> = match name {
        "tri3" | "tri6" => vec![vec![-1., -1.], vec![1., -1.], vec![-1., 1.]],
        "quad4" | "quad9" => vec![vec![-1., -1.], vec![1., -1.], vec![1., 1.], vec![-1., 1.]],
        "tet4" | "tet10" => vec![vec![-1., -1., -1.], vec![1., -1., -1.], vec![-1., 1., -1.], vec![-1., -1., 1.]],
        _ => vec![vec![-1., -1., -1.], vec![1., -1., -1.], vec![1., 1., -1.], vec![-1., 1., -1.], vec![-1., -1., 1.], vec![1., -1., 1.], vec![1., 1., 1.], vec![-1., 1., 1.]],
    };
    (c.iter().map(|x| map(x)).collect(), map)
}
fn average(c: &[[f64; 3]], s: &[usize]) -> [f64; 3] {
    let mut r = [0.0; 3];
    for i in s {
        for k in 0..3 {
            r[k] += c[*i][k] / s.len() as f64;
        }
    }
    r
}
macro_rules! geometric { ($out:ident; $($label:literal $name:literal $d:ident $rd:literal $c:ident),*) => { $(
    $out.extend(reading::<$d, $c>($name, $label));
    $out.push(bounded(concat!($label, ": a cell laid out as Gmsh documents it is the geometric cell"), READ, "random affine images of the reference cell, 4 points each", |e| {
        let mut rng = Rng(e.seed + 13);
        for _ in 0..if e.thorough { 2000 } else { 100 } {
            let (corners, map) = affine(&mut rng, $name);
            let nodes: Vec<[f64; 3]> = gmsh_nodes($name).iter().map(|s| average(&corners, s)).collect();
            let mut perm: Vec<usize> = (0..nodes.len()).collect();
            rng.shuffle(&mut perm);
            let mut shuffled = nodes.clone();
            for (i, p) in perm.iter().enumerate() {
                shuffled[*p] = nodes[i];
            }
            let f = File { first_tag: 1, nodes: vec![shuffled], blocks: vec![($name, ty($name).2, vec![perm])], entities: true };
            let points: Vec<Vec<f64>> = (0..4).map(|_| (0..$rd).map(|_| rng.int(-4, 0) as f64 / 4.0).collect()).collect();
            e.case(|| f.text(), || {
                let m = load_msh_from_bytes::<f64, $d, $c>(f.text().as_bytes()).map_err(|x| format!("refused: {:#}", x))?;
                let el = m.connectivity()[0].element(m.vertices()).ok_or("no element")?;
                for x in &points {
                    let mut xi = OPoint::<f64, <$c as ElementConnectivity<f64>>::ReferenceDim>::origin();
                    xi.coords.copy_from_slice(x);
                    let y = el.map_reference_coords(&xi);
                    let z = map(x);
                    for k in 0..<$d as DimName>::dim() {
                        check((y[k] - z[k]).abs() <= 1e-11, || format!("reference point {:?} is mapped to {:?}, expected {:?}", x, y, z))?;
                    }
                }
                Ok(())
            });
        }
    }));
)* } }

// ---------------------------------------------------------------- VTK
fn dataset(d: &DataSet) -> Result<(Vec<f64>, Vec<u32>, u32, Vec<u8>, &[Attribute], &[Attribute]), String> {
    let DataSet::UnstructuredGrid { pieces, .. } = d else { return Err("not an unstructured grid".into()) };
    check(pieces.len() == 1, || format!("{} pieces", pieces.len()))?;
    let Piece::Inline(p) = &pieces[0] else { return Err("not an inline piece".into()) };
    let IOBuffer::F64(points) = &p.points else { return Err(format!("points are {:?}", p.points.scalar_type())) };
    let (cells, n) = match &p.cells.cell_verts {
        VertexNumbers::Legacy { num_cells, vertices } => (vertices.clone(), *num_cells),
        VertexNumbers::XML { connectivity, offsets } => {
            let mut v = vec![];
            let mut a = 0;
            for o in offsets {
                v.push(*o as u32 - a);
                v.extend(connectivity[a as usize..*o as usize].iter().map(|i| *i as u32));
                a = *o as u32;
            }
            (v, offsets.len() as u32)
        }
    };
    Ok((points.clone(), cells, n, p.cells.types.iter().map(|t| *t as u8).collect(), &p.data.point, &p.data.cell))
}
fn grid<D: DimName, C: Connectivity>(d: &DataSet, m: &Mesh<f64, D, C>, code: u8, place: &dyn Fn(&C, usize) -> usize) -> R
where
    DefaultAllocator: Allocator<f64, D>,
{
    let (points, cells, n, types, _, _) = dataset(d)?;
    let want: Vec<f64> = m.vertices().iter().flat_map(|v| (0..3).map(move |k| if k < D::dim() { v[k] } else { 0.0 })).collect();
    check(points == want, || format!("points {:?}, expected {:?}", points, want))?;
    let k = vtk_nodes(code).len();
    let want: Vec<u32> = m.connectivity().iter().flat_map(|c| std::iter::once(k as u32).chain((0..k).map(move |i| place(c, i) as u32))).collect();
    check(n as usize == m.connectivity().len(), || format!("{} cells, expected {}", n, m.connectivity().len()))?;
    check(cells == want, || format!("cells {:?}, expected {:?}", cells, want))?;
    check(types == vec![code; m.connectivity().len()], || format!("cell types {:?}, expected {}", types, code))
}
trait Build: VtkCellConnectivity + Clone + std::fmt::Debug {
    const N: usize;
    const CODE: u8;
    /// reference nodes in units of 1/3
    fn reference() -> Vec<Vec<i64>>;
    fn build(v: &[usize]) -> Self;
}
macro_rules! builds { ($($c:ident $n:literal $code:literal $nodes:expr;)*) => { $(impl Build for $c {
    const N: usize = $n;
    const CODE: u8 = $code;
    fn reference() -> Vec<Vec<i64>> { $nodes }
    fn build(v: &[usize]) -> Self { $c(v.try_into().unwrap()) }
})* } }
fn first(n: usize, v: Vec<Vec<i64>>) -> Vec<Vec<i64>> {
    v[..n].to_vec()
}
builds! {
    Segment2d2Connectivity 2 3 vec![vec![-3], vec![3]];
    Segment2d3Connectivity 2 3 vec![vec![-3], vec![3]];
    Tri3d2Connectivity 3 5 first(3, nodes_tri6());
    Tri3d3Connectivity 3 5 first(3, nodes_tri6());
    Tri6d2Connectivity 6 22 nodes_tri6();
    Quad4d2Connectivity 4 9 first(4, nodes_quad9());
    Quad9d2Connectivity 9 28 nodes_quad9();
    Tet4Connectivity 4 10 first(4, nodes_tet10());
    Tet10Connectivity 10 24 nodes_tet10();
    Tet20Connectivity 20 10 nodes_tet20();
    Hex8Connectivity 8 12 first(8, nodes_hex27());
    Hex20Connectivity 20 25 nodes_hex20();
    Hex27Connectivity 27 25 nodes_hex27();
}
/// For every node of the VTK cell, the node of fenris' cell at the same place.
fn places<C: Build>() -> Vec<usize> {
    let r = C::reference();
    vtk_nodes(C::CODE)
        .iter()
        .map(|s| {
            let p: Vec<i64> = (0..r[0].len()).map(|k| s.iter().map(|i| r[*i][k]).sum::<i64>() / s.len() as i64).collect();
            r.iter().position(|q| *q == p).expect("a node at the place of the VTK node")
        })
        .collect()
}
#[derive(Clone, Debug)]
enum Att {
    Vector(usize, Vec<f64>),
    VectorI(usize, Vec<i32>),
    Scalar(usize, Vec<f64>),
    Cell(usize, Vec<u64>),
}
fn writing<D: DimName, C: Build>(label: &str) -> Vec<Item>
where
    DefaultAllocator: Allocator<f64, D>,
{
    let random = |rng: &mut Rng| {
        let n = 1 + rng.below(12);
        let v: Vec<OPoint<f64, D>> = (0..n)
            .map(|_| {
                let mut p = OPoint::origin();
                for k in 0..D::dim() {
                    p[k] = rng.int(-99, 99) as f64 / 8.0;
                }
                p
            })
            .collect();
        let c: Vec<C> = (0..rng.below(4)).map(|_| C::build(&(0..C::N).map(|_| rng.below(n)).collect::<Vec<_>>())).collect();
        Mesh::from_vertices_and_connectivity(v, c)
    };
    let fns = &["FiniteElementMeshDataSetBuilder::try_build", "VtkCellConnectivity::write_vtk_connectivity", "FiniteElementMeshDataSetBuilder::with_point_vector_attributes", "FiniteElementMeshDataSetBuilder::with_point_scalar_attributes", "FiniteElementMeshDataSetBuilder::with_cell_scalar_attributes", "FiniteElementMeshDataSetBuilder::try_export"];
    vec![
        bounded(&format!("{}: the data set has every vertex, every cell in the node order of VTK, and every attribute", label), fns, "random meshes with up to 12 vertices and 3 cells and up to 4 attributes", move |e| {
            let mut rng = Rng(e.seed + 21);
            let place = places::<C>();
            for _ in 0..if e.thorough { 10000 } else { 400 } {
                let m = random(&mut rng);
                let (n, c) = (m.vertices().len(), m.connectivity().len());
                let atts: Vec<Att> = (0..rng.below(5))
                    .map(|_| {
                        let k = 1 + rng.below(3);
                        match rng.below(4) {
                            0 => Att::Vector(k, (0..k * n).map(|_| rng.int(-99, 99) as f64).collect()),
                            1 => Att::VectorI(k, (0..k * n).map(|_| rng.int(-99, 99) as i32).collect()),
                            2 => Att::Scalar(k, (0..k * n).map(|_| rng.int(-99, 99) as f64).collect()),
                            _ => Att::Cell(k, (0..k * c).map(|_| rng.below(99) as u64).collect()),
                        }
                    })
                    .collect();
                e.case(|| format!("{:?} {:?} {:?}", m.vertices(), m.connectivity(), atts), || {
                    let mut b = FiniteElementMeshDataSetBuilder::from_mesh(&m).with_title("t");
                    for (i, a) in atts.iter().enumerate() {
                        let name = format!("a{}", i);
                        b = match a {
                            Att::Vector(k, v) => b.with_point_vector_attributes(name, *k, v),
                            Att::VectorI(k, v) => b.with_point_vector_attributes(name, *k, v),
                            Att::Scalar(k, v) => b.with_point_scalar_attributes(name, *k, v),
                            Att::Cell(k, v) => b.with_cell_scalar_attributes(name, *k, v),
                        };
                    }
                    let d = b.try_build().map_err(|x| x.to_string())?;
                    grid(&d, &m, C::CODE, &|c, i| c.vertex_indices()[place[i]])?;
                    let (_, _, _, _, point, cell) = dataset(&d)?;
                    let (mut point, mut cell) = (point.iter(), cell.iter());
                    fn pad<S: Copy + Default>(k: usize, v: &[S]) -> Vec<S> {
                        v.chunks(k).flat_map(|c| (0..3).map(move |i| if i < k { c[i] } else { S::default() })).collect()
                    }
                    for (i, a) in atts.iter().enumerate() {
                        let at = if let Att::Cell(..) = a { cell.next() } else { point.next() };
                        let Some(Attribute::DataArray(at)) = at else { return Err(format!("attribute {} is missing", i)) };
                        let (elem, data) = match a {
                            Att::Vector(k, v) => (ElementType::Vectors, IOBuffer::F64(pad(*k, v))),
                            Att::VectorI(k, v) => (ElementType::Vectors, IOBuffer::I32(pad(*k, v))),
                            Att::Scalar(k, v) => (ElementType::Scalars { num_comp: *k as u32, lookup_table: None }, IOBuffer::F64(v.clone())),
                            Att::Cell(k, v) => (ElementType::Scalars { num_comp: *k as u32, lookup_table: None }, IOBuffer::U64(v.clone())),
                        };
                        check(at.name == format!("a{}", i) && at.elem == elem && at.data == data, || format!("attribute {} is {:?}", i, at))?;
                    }
                    check(point.next().is_none() && cell.next().is_none(), || "attributes that were not given".to_string())
                });
            }
        }),
        bounded(&format!("{}: the exported file holds the mesh", label), fns, "random meshes with up to 12 vertices and 1 to 3 cells, written to a scratch directory and read back with vtkio", move |e| {
            let mut rng = Rng(e.seed + 22);
            let place = places::<C>();
            let dir = std::env::temp_dir().join(format!("fenris-c23-{}-{}-{}", std::process::id(), C::CODE, C::N * 10 + D::dim()));
            for i in 0..if e.thorough { 60 } else { 6 } {
                let mut m = random(&mut rng);
                while m.connectivity().is_empty() {
                    m = random(&mut rng);
                }
                let n = m.vertices().len();
                let values: Vec<f64> = (0..2 * n).map(|_| rng.int(-99, 99) as f64).collect();
                let path = dir.join("sub").join(format!("m{}.vtk", i));
                e.case(|| format!("{:?} {:?}", m.vertices(), m.connectivity()), || {
                    FiniteElementMeshDataSetBuilder::from_mesh(&m).with_point_vector_attributes("u", 2, &values).try_export(&path).map_err(|x| x.to_string())?;
                    let v = Vtk::import(&path).map_err(|x| format!("{:?}", x))?;
                    grid(&v.data, &m, C::CODE, &|c, i| c.vertex_indices()[place[i]])?;
                    let (_, _, _, _, point, _) = dataset(&v.data)?;
                    let want: Vec<f64> = values.chunks(2).flat_map(|c| [c[0], c[1], 0.0]).collect();
                    match point {
                        [Attribute::DataArray(a)] if a.name == "u" && a.data == IOBuffer::F64(want.clone()) => Ok(()),
                        _ => Err(format!("attributes {:?}", point)),
                    }
                });
            }
            let _ = std::fs::remove_dir_all(&dir);
        }),
    ]
}

fn items() -> Vec<Item> {
    let mut out = vec![];
    geometric!(out; "tri3 in 2D" "tri3" U2 2 Tri3d2Connectivity, "tri3 in 3D" "tri3" U3 2 Tri3d3Connectivity, "tri6" "tri6" U2 2 Tri6d2Connectivity, "quad4" "quad4" U2 2 Quad4d2Connectivity,
        "quad9" "quad9" U2 2 Quad9d2Connectivity, "tet4" "tet4" U3 3 Tet4Connectivity, "tet10" "tet10" U3 3 Tet10Connectivity, "hex8" "hex8" U3 3 Hex8Connectivity, "hex27" "hex27" U3 3 Hex27Connectivity);
    out.push(bounded("a file read from disk is the mesh of its bytes", READ, "3 random files in a scratch directory", |e| {
        let mut rng = Rng(e.seed + 14);
        let p = std::env::temp_dir().join(format!("fenris-c23-{}.msh", std::process::id()));
        for _ in 0..3 {
            let f = random_file(&mut rng, "tet4");
            e.case(|| f.text(), || {
                std::fs::write(&p, f.text()).map_err(|x| x.to_string())?;
                let m = load_msh_from_file::<f64, U3, Tet4Connectivity, _>(&p).map_err(|x| format!("refused: {:#}", x))?;
                same_mesh(&m, &f, "tet4")
            });
        }
        let _ = std::fs::remove_file(&p);
        e.case(|| "no such file".into(), || check(load_msh_from_file::<f64, U3, Tet4Connectivity, _>(&p).is_err(), || "a mesh from nowhere".into()));
    }));
    out.push(bounded("node tags that are not listed in order are honoured or refused", READ, "one file: three nodes with the tags 2, 3, 1", |e| {
        let text = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Nodes\n1 3 1 3\n2 1 0 3\n2\n3\n1\n0 0 0\n1 0 0\n0 1 0\n$EndNodes\n$Elements\n1 1 1 1\n2 1 2 1\n1 1 2 3\n$EndElements\n";
        e.case(|| text.to_string(), || match load_msh_from_bytes::<f64, U2, Tri3d2Connectivity>(text.as_bytes()) {
            Err(_) => Ok(()),
            Ok(m) => {
                let p: Vec<Point2<f64>> = m.connectivity()[0].vertex_indices().iter().map(|i| m.vertices()[*i]).collect();
                check(p == [Point2::new(0.0, 1.0), Point2::new(0.0, 0.0), Point2::new(1.0, 0.0)], || format!("the cell with the nodes tagged 1, 2, 3 has the vertices {:?}", p))
            }
        });
    }));
    out.extend(writing::<U2, Segment2d2Connectivity>("segment in 2D"));
    out.extend(writing::<U3, Segment2d3Connectivity>("segment in 3D"));
    out.extend(writing::<U2, Tri3d2Connectivity>("tri3 in 2D"));
    out.extend(writing::<U3, Tri3d3Connectivity>("tri3 in 3D"));
    out.extend(writing::<U2, Tri6d2Connectivity>("tri6"));
    out.extend(writing::<U2, Quad4d2Connectivity>("quad4"));
    out.extend(writing::<U2, Quad9d2Connectivity>("quad9"));
    out.extend(writing::<U3, Tet4Connectivity>("tet4"));
    out.extend(writing::<U3, Tet10Connectivity>("tet10"));
    out.extend(writing::<U3, Tet20Connectivity>("tet20"));
    out.extend(writing::<U3, Hex8Connectivity>("hex8"));
    out.extend(writing::<U3, Hex20Connectivity>("hex20"));
    out.extend(writing::<U3, Hex27Connectivity>("hex27"));
    let _ = (Point1::<f64>::origin(), Point3::<f64>::origin(), U1::dim());
    out.extend(native_runs("c23_"));
    out
}
fn main() {
    symcore::run::main(items())
}
