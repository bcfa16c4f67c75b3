//! C14: mesh operations.
use contracts::rng::Rng;
use contracts::tiling::cyclic;
use contracts::*;
use fenris::connectivity::*;
use fenris::geometry::{AxisAlignedBoundingBox, BoundedGeometry, GeometryCollection, Quad2d};
use fenris::mesh::refinement::{refine_mesh, refine_uniformly, refine_uniformly_repeat, UniformRefinement};
use fenris::mesh::*;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, OVector, Point1, Point2, Point3, Vector2, Vector3, U1, U2, U3};
use std::collections::{BTreeMap, BTreeSet};
use symcore::rat::Rat;
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

// ---------------------------------------------------------------- connectivity of any kind
/// Reference faces of the linear cells and of the cells whose faces carry more nodes: local node lists.
trait Cells: Connectivity + ConnectivityMut + Clone + PartialEq + std::fmt::Debug {
    fn build(v: &[usize]) -> Self;
    fn n() -> usize;
}
macro_rules! cells { ($($c:ident $n:literal),*) => { $(impl Cells for $c {
    fn build(v: &[usize]) -> Self { $c(v.try_into().unwrap()) }
    fn n() -> usize { $n }
})* } }
cells!(Tri3d2Connectivity 3, Quad4d2Connectivity 4, Tri6d2Connectivity 6, Quad9d2Connectivity 9, Tet4Connectivity 4, Tet10Connectivity 10, Hex8Connectivity 8, Hex20Connectivity 20, Hex27Connectivity 27, Segment2d2Connectivity 2, Tri3d3Connectivity 3);

/// The connectivity in abstract vertices: vertex i has the label i, so what a mesh does to vertices is visible for all vertex types.
fn abstract_mesh<C: Cells>(nv: usize, cells: &[Vec<usize>]) -> Mesh<usize, U1, C> {
    Mesh::from_vertices_and_connectivity((0..nv).map(|i| Point1::new(1000 + i)).collect(), cells.iter().map(|c| C::build(c)).collect())
}
fn labels<C: Connectivity>(m: &Mesh<usize, U1, C>) -> Vec<usize> {
    m.vertices().iter().map(|p| p.x - 1000).collect()
}
fn geometry<C: Connectivity>(m: &Mesh<usize, U1, C>) -> Vec<Vec<usize>> {
    let l = labels(m);
    m.connectivity().iter().map(|c| c.vertex_indices().iter().map(|v| l[*v]).collect()).collect()
}
fn no_extra<C: Connectivity>(m: &Mesh<usize, U1, C>, want: &BTreeSet<usize>) -> Result<(), String> {
    let l = labels(m);
    let s: BTreeSet<usize> = l.iter().copied().collect();
    if s.len() != l.len() {
        return Err(format!("vertices occur twice: {:?}", l));
    }
    if s != *want {
        return Err(format!("vertices {:?}, expected {:?}", s, want));
    }
    Ok(())
}
fn faces<C: Connectivity>(cells: &[C]) -> Vec<(Vec<usize>, usize, usize)>
where
    C::FaceConnectivity: Connectivity,
{
    cells.iter().enumerate().flat_map(|(i, c)| (0..c.num_faces()).map(move |k| (c.get_face_connectivity(k).unwrap().vertex_indices().to_vec(), i, k))).collect()
}
fn boundary<C: Cells>(nv: usize, cells: &[Vec<usize>]) -> Result<(), String>
where
    C::FaceConnectivity: Connectivity + ConnectivityMut,
{
    let m = abstract_mesh::<C>(nv, cells);
    let all = faces(m.connectivity());
    let mut count: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    let key = |f: &Vec<usize>| {
        let mut f = f.clone();
        f.sort();
        f
    };
    for f in &all {
        *count.entry(key(&f.0)).or_insert(0) += 1;
    }
    let want: BTreeSet<_> = all.into_iter().filter(|f| count[&key(&f.0)] == 1).collect();
    let found = m.find_boundary_faces();
    let got: BTreeSet<_> = found.iter().map(|(f, i, k)| (f.vertex_indices().to_vec(), *i, *k)).collect();
    if got != want || got.len() != found.len() {
        return Err(format!("boundary faces {:?}, expected {:?}", got, want));
    }
    let bc = m.find_boundary_cells();
    let wc: Vec<usize> = want.iter().map(|f| f.1).collect::<BTreeSet<_>>().into_iter().collect();
    if bc.iter().copied().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>() != wc || bc.len() != wc.len() {
        return Err(format!("boundary cells {:?}, expected {:?}", bc, wc));
    }
    let bv = m.find_boundary_vertices();
    let wv: BTreeSet<usize> = want.iter().flat_map(|f| f.0.iter().copied()).collect();
    if bv.iter().copied().collect::<BTreeSet<_>>() != wv || bv.len() != wv.len() {
        return Err(format!("boundary vertices {:?}, expected {:?}", bv, wv));
    }
    let s = m.extract_surface_mesh();
    let mut g = geometry(&s);
    let mut w: Vec<Vec<usize>> = want.iter().map(|f| f.0.clone()).collect();
    g.sort();
    w.sort();
    if g != w {
        return Err(format!("surface mesh {:?}, expected {:?}", g, w));
    }
    no_extra(&s, &wv)
}
fn keep<C: Cells>(nv: usize, cells: &[Vec<usize>], sub: &[usize]) -> Result<(), String> {
    let m = abstract_mesh::<C>(nv, cells);
    let before = m.clone();
    let k = m.keep_cells(sub);
    if m != before {
        return Err("the mesh itself changed".into());
    }
    let want: Vec<Vec<usize>> = sub.iter().map(|i| cells[*i].clone()).collect();
    let got = geometry(&k);
    if got != want {
        return Err(format!("cells {:?}, expected {:?}", got, want));
    }
    no_extra(&k, &want.iter().flatten().copied().collect())
}
fn subset(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).filter(|_| r.bool()).collect();
    if r.bool() {
        r.shuffle(&mut v);
    }
    v
}
/// Lattices of cells with arbitrary vertex numbers, random parts of them, and cells on random vertices.
fn samples<C: Cells>(r: &mut Rng, round: usize) -> (usize, Vec<Vec<usize>>) {
    let n = C::n();
    let extra = r.below(4);
    if round % 2 == 0 || ![3, 4, 8].contains(&n) {
        // cells that share vertices at random; many of them share whole faces with an earlier cell
        let nv = n + 1 + r.below(6);
        let count = 1 + r.below(7);
        let mut v: Vec<Vec<usize>> = vec![];
        for _ in 0..count {
            let mut ids: Vec<usize> = (0..nv).collect();
            r.shuffle(&mut ids);
            if !v.is_empty() && r.bool() {
                // an earlier cell, in another order or with one vertex replaced
                let mut c = v[r.below(v.len())].clone();
                let k = r.below(n);
                let free: Vec<usize> = ids.iter().copied().filter(|x| !c.contains(x)).collect();
                c[k] = free[0];
                if r.bool() {
                    c.rotate_left(r.below(n));
                }
                v.push(c);
            } else {
                v.push(ids[..n].to_vec());
            }
        }
        return (nv + extra, v);
    }
    let k = [1 + r.below(3), 1 + r.below(3), if n == 8 { 1 + r.below(2) } else { 1 }];
    let flat = n == 3 || (n == 4 && std::any::type_name::<C>().contains("Quad"));
    let layers = if flat { 1 } else { k[2] };
    let id = |i: usize, j: usize, l: usize| (l * (k[1] + 1) + j) * (k[0] + 1) + i;
    let nv = (k[0] + 1) * (k[1] + 1) * if flat { 1 } else { layers + 1 };
    let mut perm: Vec<usize> = (0..nv + extra).collect();
    r.shuffle(&mut perm);
    let mut v = vec![];
    for l in 0..layers {
        for j in 0..k[1] {
            for i in 0..k[0] {
                let q = |l: usize| vec![id(i, j, l), id(i + 1, j, l), id(i + 1, j + 1, l), id(i, j + 1, l)];
                if n == 3 {
                    let q = q(0);
                    v.push(vec![q[0], q[1], q[2]]);
                    v.push(vec![q[0], q[2], q[3]]);
                } else if flat {
                    v.push(q(0));
                } else {
                    let h = [q(l), q(l + 1)].concat();
                    if n == 8 {
                        v.push(h);
                    } else {
                        for t in [[0, 1, 2, 6], [0, 2, 3, 6], [0, 3, 7, 6], [0, 7, 4, 6], [0, 4, 5, 6], [0, 5, 1, 6]] {
                            v.push(t.iter().map(|x| h[*x]).collect());
                        }
                    }
                }
            }
        }
    }
    let drop = r.below(3);
    v.retain(|_| drop < 2 || r.bool());
    for c in &mut v {
        for x in c.iter_mut() {
            *x = perm[*x];
        }
        if n == 3 || flat {
            c.rotate_left(r.below(n));
        }
    }
    r.shuffle(&mut v);
    (nv + extra, v)
}
macro_rules! discrete {
    ($v:ident, $c:ident, $b:expr) => {
        $v.push(bounded(concat!("C14: boundary, surface and subsets of a mesh of ", stringify!($c)), &["Mesh::find_boundary_faces", "Mesh::find_boundary_cells", "Mesh::find_boundary_vertices", "Mesh::extract_surface_mesh", "Mesh::keep_cells"], "random meshes and subsets, up to about 50 cells; vertices are abstract", |e| {
            let mut r = Rng(e.seed + 17);
            for round in 0..if e.thorough { 6000 } else { 400 } {
                let (nv, cells) = samples::<$c>(&mut r, round);
                let sub = subset(&mut r, cells.len());
                e.case(|| format!("{} vertices, cells {:?}", nv, cells), || { let f: fn(usize, &[Vec<usize>]) -> Result<(), String> = $b; f(nv, &cells) });
                e.case(|| format!("{} vertices, cells {:?}, subset {:?}", nv, cells, sub), || keep::<$c>(nv, &cells, &sub));
            }
        }));
    };
}
/// All small meshes of triangles and quadrilaterals.
fn exhaustive(v: &mut Vec<Item>) {
    v.push(bounded("C14: all meshes of up to three triangles on five vertices", &["Mesh::find_boundary_faces", "Mesh::find_boundary_cells", "Mesh::find_boundary_vertices", "Mesh::extract_surface_mesh", "Mesh::keep_cells"], "up to three triangles, five vertices, all subsets", |e| {
        let tri: Vec<Vec<usize>> = rng::sequences(5, 3).into_iter().filter(|t| t.len() == 3 && t[0] < t[1] && t[0] < t[2] && t[1] != t[2]).collect();
        let t = tri.len();
        for k in 0..t * t * t {
            let all = [k % t, k / t % t, k / t / t];
            for n in 0..=3 {
                if all[n..].iter().any(|x| *x != 0) {
                    continue;
                }
                let cells: Vec<Vec<usize>> = all[..n].iter().map(|i| tri[*i].clone()).collect();
                e.case(|| format!("{:?}", cells), || {
                    boundary::<Tri3d2Connectivity>(5, &cells)?;
                    for s in 0..1usize << n {
                        keep::<Tri3d2Connectivity>(5, &cells, &(0..n).filter(|i| s >> i & 1 == 1).collect::<Vec<_>>())?;
                    }
                    Ok(())
                });
            }
        }
    }));
}

// ---------------------------------------------------------------- refinement and conversion
/// Every node of the new cell as a combination of the corners of the old one, from the reference elements.
/// No two cells with the same corners.
fn proper((nv, mut cells): (usize, Vec<Vec<usize>>)) -> (usize, Vec<Vec<usize>>) {
    let mut seen = BTreeSet::new();
    cells.retain(|c| seen.insert(c.iter().copied().collect::<BTreeSet<_>>()));
    (nv, cells)
}
fn simplex_weights(nodes: &[Vec<i64>]) -> Vec<Vec<Rat>> {
    nodes.iter().map(|x| {
        let mut w: Vec<Rat> = x.iter().map(|c| Rat::new(c + 3, 6)).collect();
        let rest = w.iter().fold(Rat::one(), |a, b| a.sub(b));
        w.insert(0, rest);
        w
    }).collect()
}
fn tensor_weights(nodes: &[Vec<i64>], corners: &[Vec<i64>]) -> Vec<Vec<Rat>> {
    nodes.iter().map(|x| corners.iter().map(|c| (0..x.len()).fold(Rat::one(), |a, k| a.mul(&Rat::new(9 + x[k] * c[k], 18)))).collect()).collect()
}
fn points<T: SReal, D: DimName>(cx: &mut Cx<T>, n: usize) -> Vec<OPoint<T, D>>
where
    DefaultAllocator: Allocator<T, D>,
{
    (0..n).map(|i| { let v = cx.reals(&format!("p{}_", i), D::dim()); OPoint::from(OVector::<T, D>::from_iterator(v)) }).collect()
}
type Shape = (usize, &'static [&'static [usize]]);
/// The new cells have the nodes their type prescribes, and two nodes are the same vertex exactly if they are the same combination of old vertices.
fn converted<T: SReal, D: DimName, A: Connectivity, B: Connectivity>(cx: &mut Cx<T>, old: &Mesh<T, D, A>, new: &Mesh<T, D, B>, w: &[Vec<Rat>], unused: usize)
where
    DefaultAllocator: Allocator<T, D>,
{
    cx.ensure("as many cells as before", old.connectivity().len() == new.connectivity().len());
    let mut at: BTreeMap<Vec<(usize, String)>, usize> = BTreeMap::new();
    for (a, b) in old.connectivity().iter().zip(new.connectivity()) {
        let (a, b) = (a.vertex_indices(), b.vertex_indices());
        cx.ensure("number of nodes", b.len() == w.len());
        for (v, w) in b.iter().zip(w) {
            cx.ensure("nodes exist", *v < new.vertices().len());
            let mut want = vec![T::zero(); D::dim()];
            let mut key = vec![];
            for (i, w) in a.iter().zip(w) {
                if !w.is_zero() {
                    key.push((*i, format!("{:?}", w)));
                    for k in 0..D::dim() {
                        want[k] += old.vertices()[*i][k] * T::from_f64(w.numer().to_string().parse().unwrap()).unwrap() / T::from_f64(w.denom().to_string().parse().unwrap()).unwrap();
                    }
                }
            }
            let got: Vec<T> = new.vertices()[*v].coords.iter().copied().collect();
            cx.ensure_eqs("the node is where the reference element puts it", &got, &want);
            key.sort();
            let k = *at.entry(key).or_insert(*v);
            cx.ensure("neighbouring cells share the node", k == *v);
        }
    }
    let used: BTreeSet<usize> = at.values().copied().collect();
    cx.ensure("no two nodes are merged", used.len() == at.len());
    cx.ensure("no duplicated or new unused vertices", new.vertices().len() <= used.len() + unused);
}
fn setup<T: SReal, D: DimName, C: Cells>(cx: &mut Cx<T>, s: Shape) -> (Mesh<T, D, C>, usize)
where
    DefaultAllocator: Allocator<T, D>,
{
    let used: BTreeSet<usize> = s.1.iter().flat_map(|c| c.iter().copied()).collect();
    (Mesh::from_vertices_and_connectivity(points::<T, D>(cx, s.0), s.1.iter().map(|c| C::build(c)).collect()), s.0 - used.len())
}
const TRIS: &[Shape] = &[(3, &[&[0, 1, 2]]), (4, &[&[0, 1, 2], &[1, 3, 2]]), (4, &[&[2, 0, 1], &[0, 2, 3]]), (5, &[&[4, 0, 1], &[4, 1, 2], &[4, 2, 3], &[4, 3, 0]]), (6, &[&[5, 1, 3], &[3, 1, 0], &[2, 0, 1]]), (7, &[&[0, 2, 4], &[4, 2, 6]]), (5, &[&[0, 1, 2], &[2, 3, 4]]), (5, &[&[0, 1, 2], &[1, 0, 3], &[0, 1, 4]])];
const QUADS: &[Shape] = &[(4, &[&[0, 1, 2, 3]]), (6, &[&[0, 1, 2, 3], &[1, 4, 5, 2]]), (6, &[&[3, 0, 1, 2], &[4, 5, 2, 1]]), (9, &[&[0, 1, 4, 3], &[1, 2, 5, 4], &[3, 4, 7, 6], &[8, 7, 4, 5]]), (8, &[&[7, 2, 4, 0], &[5, 6, 2, 7]]), (7, &[&[0, 1, 2, 3], &[0, 3, 4, 5], &[0, 5, 6, 1]])];
const TETS: &[Shape] = &[(4, &[&[0, 1, 2, 3]]), (5, &[&[0, 1, 2, 3], &[1, 2, 3, 4]]), (5, &[&[3, 1, 2, 0], &[4, 2, 1, 3]]), (6, &[&[0, 1, 2, 3], &[0, 1, 3, 4], &[0, 1, 4, 5], &[0, 1, 5, 2]]), (8, &[&[7, 3, 0, 5], &[5, 0, 3, 1]]), (6, &[&[0, 1, 2, 3], &[3, 0, 4, 5]]), (7, &[&[0, 1, 2, 3], &[3, 4, 5, 6]])];
const HEXES: &[Shape] = &[(8, &[&[0, 1, 2, 3, 4, 5, 6, 7]]), (12, &[&[0, 1, 2, 3, 4, 5, 6, 7], &[1, 8, 9, 2, 5, 10, 11, 6]]), (12, &[&[4, 5, 6, 7, 0, 1, 2, 3], &[8, 9, 10, 11, 5, 4, 7, 6]]), (15, &[&[14, 3, 0, 7, 2, 9, 12, 5], &[9, 2, 5, 12, 1, 4, 13, 11]])];
macro_rules! conversion {
    ($v:ident, $shapes:ident, $A:ident, $B:ident, $D:ident, $w:expr, $f:expr) => {
        for k in 0..$shapes.len() {
            let s = $shapes[k];
            $v.push(dual!(format!("C14: {} to {}, {} cells {}", stringify!($A), stringify!($B), s.1.len(), k), [concat!("From<Mesh of ", stringify!($A), "> for Mesh of ", stringify!($B))], "one connectivity; all coordinates", |cx, T| {
                let (m, unused) = setup::<T, $D, $A>(cx, s);
                let w: Vec<Vec<Rat>> = $w;
                let f: fn(&Mesh<T, $D, $A>) -> Mesh<T, $D, $B> = $f;
                converted(cx, &m, &f(&m), &w, unused);
            }));
        }
    };
}
fn tri_children(c: &[usize]) -> Vec<Vec<Vec<usize>>> {
    let m = |i: usize, j: usize| { let mut v = vec![c[i], c[j]]; v.sort(); v };
    let o = |i: usize| vec![c[i], c[i]];
    vec![vec![o(0), m(0, 1), m(0, 2)], vec![m(0, 1), o(1), m(1, 2)], vec![m(0, 2), m(1, 2), o(2)], vec![m(0, 1), m(1, 2), m(0, 2)]]
}
/// The refined mesh: four children per cell with the orientation of the parent, midpoints shared.
fn refined<T: SReal>(cx: &mut Cx<T>, m: &TriangleMesh2d<T>, r: &TriangleMesh2d<T>, unused: usize) {
    cx.ensure("four cells for every cell", r.connectivity().len() == 4 * m.connectivity().len());
    let half = T::one() / T::from_i32(2).unwrap();
    // candidates: old vertices and midpoints of edges
    let mut cand: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    let mut want: Vec<Vec<Vec<usize>>> = vec![];
    for c in m.connectivity() {
        for t in tri_children(&c.0) {
            for k in &t {
                cand.insert(k.clone(), usize::MAX);
            }
            want.push(t);
        }
    }
    if !T::SYMBOLIC {
        // distinct places only
        let at: Vec<Vec<f64>> = cand.keys().map(|k| ((m.vertices()[k[0]].coords + m.vertices()[k[1]].coords) * half).iter().map(|x| x.approx_f64()).collect()).collect();
        cx.assume((0..at.len()).all(|i| (0..i).all(|j| (at[i][0] - at[j][0]).abs() + (at[i][1] - at[j][1]).abs() > 1e-9)));
    }
    // every new vertex is one of them
    let mut name: Vec<Option<Vec<usize>>> = vec![None; r.vertices().len()];
    for (i, x) in r.vertices().iter().enumerate() {
        for (k, at) in cand.iter_mut() {
            let want = (m.vertices()[k[0]].coords + m.vertices()[k[1]].coords) * half;
            if cx.identical(&[x[0], x[1]], &[want[0], want[1]]) {
                cx.ensure("no vertex occurs twice", *at == usize::MAX);
                *at = i;
                name[i] = Some(k.clone());
            }
        }
    }
    cx.ensure("every expected vertex exists", cand.values().all(|v| *v != usize::MAX));
    cx.ensure("no new unused vertices", name.iter().filter(|n| n.is_none()).count() <= unused);
    let norm = |t: &Vec<Vec<usize>>| { let k = (0..3).min_by_key(|i| t[*i].clone()).unwrap(); let mut t = t.clone(); t.rotate_left(k); t };
    let mut got: Vec<_> = vec![];
    for c in r.connectivity() {
        cx.ensure("children use expected vertices", c.0.iter().all(|v| name[*v].is_some()));
        got.push(norm(&c.0.iter().map(|v| name[*v].clone().unwrap()).collect()));
    }
    let mut want: Vec<_> = want.iter().map(norm).collect();
    got.sort();
    want.sort();
    cx.ensure("the children are the four triangles between the corners and midpoints, oriented like the parent", got == want);
}
fn transforms<T: SReal, D: DimName, C: Cells>(cx: &mut Cx<T>, s: Shape)
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
    C: PartialEq,
{
    let (m, _) = setup::<T, D, C>(cx, s);
    let t = OVector::<T, D>::from_iterator(cx.reals("t", D::dim()));
    let flat = |m: &Mesh<T, D, C>| m.vertices().iter().flat_map(|p| p.coords.iter().copied().collect::<Vec<_>>()).collect::<Vec<T>>();
    let moved: Vec<T> = flat(&m).iter().enumerate().map(|(i, x)| *x + t[i % D::dim()]).collect();
    let mut a = m.clone();
    a.translate(&t);
    cx.ensure_eqs("translate moves every vertex by the vector", &flat(&a), &moved);
    cx.ensure("translate keeps the cells", a.connectivity() == m.connectivity());
    let b = m.clone().translated(&t);
    cx.ensure_eqs("translated moves every vertex by the vector", &flat(&b), &moved);
    cx.ensure("translated keeps the cells", b.connectivity() == m.connectivity());
    let mut c = m.clone();
    let mut calls = 0;
    c.transform_vertices(|p| {
        calls += 1;
        let n = T::from_i32(calls).unwrap();
        for k in 0..D::dim() {
            p[k] = p[k] * p[(k + 1) % D::dim()] + n;
        }
    });
    let mut want = vec![];
    for (i, p) in m.vertices().iter().enumerate() {
        let n = T::from_usize(i + 1).unwrap();
        let mut p = p.clone();
        for k in 0..D::dim() {
            p[k] = p[k] * p[(k + 1) % D::dim()] + n;
            want.push(p[k]);
        }
    }
    cx.ensure("every vertex is transformed once", calls as usize == m.vertices().len());
    cx.ensure_eqs("transform_vertices applies the map to every vertex, in order", &flat(&c), &want);
    cx.ensure("transform_vertices keeps the cells", c.connectivity() == m.connectivity());
    let mut d = m.clone();
    d.transform_all_vertices(|p| p.reverse());
    let mut want: Vec<OPoint<T, D>> = m.vertices().to_vec();
    want.reverse();
    cx.ensure_eqs("transform_all_vertices hands out all vertices", &flat(&d), &want.iter().flat_map(|p| p.coords.iter().copied().collect::<Vec<_>>()).collect::<Vec<T>>());
    cx.ensure("transform_all_vertices keeps the cells", d.connectivity() == m.connectivity());
}
/// Cells of a mesh as geometric objects, and the box around them.
fn access<T: SReal>(cx: &mut Cx<T>, s: Shape) {
    let (m, _) = setup::<T, U2, Tri3d2Connectivity>(cx, s);
    let n = s.1.len();
    let cells: Vec<_> = m.cell_iter().collect();
    cx.ensure("cell_iter visits every cell", cells.len() == n && m.num_geometries() == n);
    for i in 0..n {
        let want: Vec<T> = s.1[i].iter().flat_map(|v| [m.vertices()[*v].x, m.vertices()[*v].y]).collect();
        for c in [Some(cells[i]), m.get_cell(i), m.get_geometry(i)] {
            cx.ensure("the cell exists", c.is_some());
            let got: Vec<T> = c.unwrap().0.iter().flat_map(|p| [p.x, p.y]).collect();
            cx.ensure_eqs("the cell has the vertices its indices name", &got, &want);
        }
    }
    cx.ensure("no cells beyond the last", m.get_cell(n).is_none() && m.get_cell(n + 5).is_none() && m.get_geometry(n).is_none());
}
fn mesh_box<T: SReal>(cx: &mut Cx<T>, s: Shape) {
    let (m, _) = setup::<T, U2, Tri3d2Connectivity>(cx, s);
    let bb: AxisAlignedBoundingBox<T, U2> = m.bounding_box();
    for k in 0..2 {
        let used: Vec<T> = s.1.iter().flat_map(|c| c.iter().map(|v| m.vertices()[*v][k])).collect();
        for x in &used {
            cx.ensure_le("below every vertex", bb.min()[k], *x);
            cx.ensure_le("above every vertex", *x, bb.max()[k]);
        }
        let (lo, hi) = (bb.min()[k], bb.max()[k]);
        cx.ensure_eq("the lower bound is attained", used.iter().fold(T::one(), |a, x| a * (*x - lo)), T::zero());
        cx.ensure_eq("the upper bound is attained", used.iter().fold(T::one(), |a, x| a * (*x - hi)), T::zero());
    }
}
fn split_quad<T: SReal>(cx: &mut Cx<T>, reflex: Option<usize>, turn: usize) {
    let mut p: Vec<Point2<T>> = points::<T, U2>(cx, 4);
    let of = |p: &[Point2<T>], a: usize, b: usize, c: usize| (p[b].x - p[a].x) * (p[c].y - p[a].y) - (p[b].y - p[a].y) * (p[c].x - p[a].x);
    // a simple quadrilateral is convex, or the reflex corner lies inside the triangle of the others
    if let Some(i) = reflex {
        let o = [(i + 1) % 4, (i + 2) % 4, (i + 3) % 4];
        let d = of(&p, o[0], o[1], o[2]);
        cx.assume_gt(d, T::zero());
        let w: Vec<T> = ["a", "b", "c"].iter().map(|n| cx.pos(n)).collect();
        p[i] = Point2::from((p[o[0]].coords * w[0] + p[o[1]].coords * w[1] + p[o[2]].coords * w[2]) / (w[0] + w[1] + w[2]));
    } else {
        for i in 0..4 {
            cx.assume_gt(of(&p, (i + 3) % 4, i, (i + 1) % 4), T::zero());
        }
    }
    let tri = |a: usize, b: usize, c: usize| of(&p, a, b, c);
    let ids: Vec<usize> = (0..4).map(|i| (i + turn) % 4).collect();
    let mesh: QuadMesh2d<T> = Mesh::from_vertices_and_connectivity(p.clone(), vec![Quad4d2Connectivity([ids[0], ids[1], ids[2], ids[3]])]);
    let area = tri(0, 1, 2) + tri(0, 2, 3);
    let m = mesh.split_into_triangles();
    cx.ensure("two triangles", m.connectivity().len() == 2);
    cx.ensure_eqs("the vertices stay", &m.vertices().iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>(), &p.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    let mut sum = T::zero();
    for c in m.connectivity() {
        let a = tri(c.0[0], c.0[1], c.0[2]);
        cx.ensure_gt("triangles are positively oriented", a, T::zero());
        sum += a;
    }
    cx.ensure_eq("the areas add up", sum, area);
    // they are the two halves of the quadrilateral along one diagonal
    let mut got: Vec<Vec<usize>> = m.connectivity().iter().map(|c| cyclic(c.0.to_vec())).collect();
    got.sort();
    let halves = |d: usize| { let mut v = vec![cyclic(vec![d, d + 1, d + 2]), cyclic(vec![d, d + 2, (d + 3) % 4])]; v.sort(); v };
    cx.ensure("the triangles are the halves along a diagonal", got == halves(0) || got == halves(1));
    let q = Quad2d([p[ids[0]], p[ids[1]], p[ids[2]], p[ids[3]]]);
    cx.ensure_eq("area of the quadrilateral", q.area() + q.area(), area);
}

fn main() {
    let mut v: Vec<Item> = vec![];
    conversion!(v, TRIS, Tri3d2Connectivity, Tri6d2Connectivity, U2, simplex_weights(&nodes_tri6()), |m| Mesh::from(m.clone()));
    conversion!(v, QUADS, Quad4d2Connectivity, Quad9d2Connectivity, U2, tensor_weights(&nodes_quad9(), &nodes_quad4()), |m| Mesh::from(m.clone()));
    conversion!(v, TETS, Tet4Connectivity, Tet10Connectivity, U3, simplex_weights(&nodes_tet10()), |m| Mesh::from(m));
    conversion!(v, TETS, Tet4Connectivity, Tet20Connectivity, U3, simplex_weights(&nodes_tet20()), |m| Mesh::from(m));
    conversion!(v, HEXES, Hex8Connectivity, Hex20Connectivity, U3, tensor_weights(&nodes_hex20(), &nodes_hex8()), |m| Mesh::from(m));
    conversion!(v, HEXES, Hex8Connectivity, Hex27Connectivity, U3, tensor_weights(&nodes_hex27(), &nodes_hex8()), |m| Mesh::from(m));
    for k in 0..TETS.len() {
        let s = TETS[k];
        v.push(dual!(format!("C14: Tet10Connectivity to Tet4Connectivity, {} cells {}", s.1.len(), k), ["From<Mesh of Tet10Connectivity> for Mesh of Tet4Connectivity"], "one connectivity; all coordinates", |cx, T| {
            // any numbering of the nodes
            let (m, _) = setup::<T, U3, Tet4Connectivity>(cx, s);
            let n = s.0 + 12;
            let p = points::<T, U3>(cx, n);
            let conn: Vec<_> = m.connectivity().iter().enumerate().map(|(i, c)| {
                let mut ids: Vec<usize> = c.0.iter().map(|v| (v * 5 + 3) % n).collect();
                for j in 0..n {
                    let x = (j * 7 + i) % n;
                    if ids.len() < 10 && !ids.contains(&x) {
                        ids.push(x);
                    }
                }
                Tet10Connectivity(ids.try_into().unwrap())
            }).collect();
            let old: Tet10Mesh<T> = Mesh::from_vertices_and_connectivity(p, conn);
            let id: Vec<Vec<Rat>> = (0..4).map(|i| (0..10).map(|j| if i == j { Rat::one() } else { Rat::zero() }).collect()).collect();
            converted(cx, &old, &Tet4Mesh::<T>::from(&old), &id, 0);
        }));
    }
    for k in 0..TRIS.len() {
        let s = TRIS[k];
        v.push(dual!(format!("C14: uniform refinement of {} triangles {}", s.1.len(), k), ["refine_mesh", "refine_uniformly", "refine_uniformly_repeat", "UniformRefinement::populate_refined_connectivity"], "one connectivity; all coordinates", |cx, T| {
            let (m, unused) = setup::<T, U2, Tri3d2Connectivity>(cx, s);
            let r = refine_uniformly(&m);
            refined(cx, &m, &r, unused);
            refined(cx, &m, &refine_mesh(&m, UniformRefinement), unused);
            refined(cx, &m, &refine_uniformly_repeat(&m, 1), unused);
            let z = refine_uniformly_repeat(&m, 0);
            cx.ensure("no refinement changes nothing", z.connectivity() == m.connectivity() && cx.identical(&z.vertices().iter().map(|p| p.x).collect::<Vec<_>>(), &m.vertices().iter().map(|p| p.x).collect::<Vec<_>>()));
            if s.1.len() <= 2 {
                refined(cx, &r, &refine_uniformly_repeat(&m, 2), 0);
            }
        }));
    }
    for k in 0..3 {
        v.push(dual!(format!("C14: transforming the vertices of a mesh {}", k), ["Mesh::{translate,translated,transform_vertices,transform_all_vertices}"], "one connectivity; all coordinates", |cx, T| {
            transforms::<T, U2, Tri3d2Connectivity>(cx, TRIS[k * 2]);
            cx.scope("tetrahedra");
            transforms::<T, U3, Tet4Connectivity>(cx, TETS[k * 2]);
        }));
    }
    for k in 0..TRIS.len() {
        v.push(dual!(format!("C14: cells of a mesh {}", k), ["Mesh::{get_cell,cell_iter}", "<Mesh as GeometryCollection>::get_geometry"], "one connectivity; all coordinates", |cx, T| access::<T>(cx, TRIS[k])));
    }
    const SEGS: &[Shape] = &[(3, &[&[0, 1, 2]]), (5, &[&[3, 1, 4]]), (4, &[&[0, 1, 2], &[2, 1, 3]])];
    for k in 0..3 {
        v.push(dual!(format!("C14: bounding box of a mesh {}", k), ["<Mesh as BoundedGeometry>::bounding_box"], "one connectivity; all coordinates", |cx, T| mesh_box::<T>(cx, SEGS[k]), max_paths = 50000));
    }
    for r in [None, Some(0), Some(1), Some(2), Some(3)] {
        for turn in 0..if r.is_some() { 1 } else { 4 } {
            v.push(dual!(format!("C14: splitting a quadrilateral, reflex corner {:?}, first vertex {}", r, turn), ["QuadMesh2d::split_into_triangles", "Quad2d::{split_into_triangle_connectivities,concave_corner,area}"], "", |cx, T| split_quad::<T>(cx, r, turn)));
        }
    }
    discrete!(v, Tri3d2Connectivity, boundary::<Tri3d2Connectivity>);
    discrete!(v, Quad4d2Connectivity, boundary::<Quad4d2Connectivity>);
    discrete!(v, Tri6d2Connectivity, boundary::<Tri6d2Connectivity>);
    discrete!(v, Quad9d2Connectivity, boundary::<Quad9d2Connectivity>);
    discrete!(v, Tet4Connectivity, boundary::<Tet4Connectivity>);
    discrete!(v, Tet10Connectivity, boundary::<Tet10Connectivity>);
    discrete!(v, Hex8Connectivity, boundary::<Hex8Connectivity>);
    discrete!(v, Hex20Connectivity, boundary::<Hex20Connectivity>);
    discrete!(v, Hex27Connectivity, boundary::<Hex27Connectivity>);
    discrete!(v, Segment2d2Connectivity, |_, _| Ok(()));
    exhaustive(&mut v);
    v.push(bounded("C14: conversion and refinement of larger meshes", &["From<Mesh>", "refine_uniformly"], "random meshes of up to about 50 cells, floating point", |e| {
        let mut r = Rng(e.seed + 3);
        for round in 0..if e.thorough { 3000 } else { 150 } {
            macro_rules! one { ($A:ident, $B:ident, $D:ident, $w:expr, $f:expr) => {{
                let (nv, cells) = proper(samples::<$A>(&mut r, round));
                let p: Vec<OPoint<f64, $D>> = (0..nv).map(|_| OPoint::from(OVector::<f64, $D>::from_fn(|_, _| r.unit() * 4.0 - 2.0))).collect();
                e.case(|| format!("{} vertices {:?}, cells {:?}", stringify!($A), p, cells), || symcore::contract::concrete(|cx| {
                    let used: BTreeSet<usize> = cells.iter().flatten().copied().collect();
                    let m: Mesh<f64, $D, $A> = Mesh::from_vertices_and_connectivity(p.clone(), cells.iter().map(|c| $A::build(c)).collect());
                    let f: fn(&Mesh<f64, $D, $A>) -> Mesh<f64, $D, $B> = $f;
                    converted(cx, &m, &f(&m), &$w, nv - used.len());
                }));
            }} }
            one!(Tri3d2Connectivity, Tri6d2Connectivity, U2, simplex_weights(&nodes_tri6()), |m| Mesh::from(m.clone()));
            one!(Quad4d2Connectivity, Quad9d2Connectivity, U2, tensor_weights(&nodes_quad9(), &nodes_quad4()), |m| Mesh::from(m.clone()));
            one!(Tet4Connectivity, Tet10Connectivity, U3, simplex_weights(&nodes_tet10()), |m| Mesh::from(m));
            one!(Tet4Connectivity, Tet20Connectivity, U3, simplex_weights(&nodes_tet20()), |m| Mesh::from(m));
            if round % 8 == 1 {
                one!(Hex8Connectivity, Hex20Connectivity, U3, tensor_weights(&nodes_hex20(), &nodes_hex8()), |m| Mesh::from(m));
                one!(Hex8Connectivity, Hex27Connectivity, U3, tensor_weights(&nodes_hex27(), &nodes_hex8()), |m| Mesh::from(m));
            }
            let (nv, cells) = proper(samples::<Tri3d2Connectivity>(&mut r, round));
            let p: Vec<Point2<f64>> = (0..nv).map(|_| Point2::new(r.unit() * 4.0 - 2.0, r.unit() * 4.0 - 2.0)).collect();
            e.case(|| format!("triangles, vertices {:?}, cells {:?}", p, cells), || symcore::contract::concrete(|cx| {
                let used: BTreeSet<usize> = cells.iter().flatten().copied().collect();
                let m: TriangleMesh2d<f64> = Mesh::from_vertices_and_connectivity(p.clone(), cells.iter().map(|c| Tri3d2Connectivity::build(c)).collect());
                refined(cx, &m, &refine_uniformly(&m), nv - used.len());
            }));
        }
    }));
    symcore::run::main(v);
}
