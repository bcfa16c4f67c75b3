//! C13: permutations and reorderings.
use contracts::rng::*;
use fenris::connectivity::{Connectivity, Hex8Connectivity, Quad4d2Connectivity, Segment2d2Connectivity, Tet4Connectivity, Tri3d2Connectivity, Tri6d2Connectivity};
use fenris::mesh::reorder::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{OPoint, Point2, Point3, U2};
use fenris::nalgebra_sparse::pattern::SparsityPattern;
use std::collections::{BTreeSet, VecDeque};
use symcore::run::{bounded, Item};
use symcore::{dual, SReal};

fn is_bijection(v: &[usize]) -> bool {
    let s: BTreeSet<usize> = v.iter().copied().collect();
    s.len() == v.len() && v.iter().all(|i| *i < v.len())
}
fn permutation_case(v: &[usize]) -> Result<(), String> {
    let p = Permutation::from_vec(v.to_vec());
    if p.is_ok() != is_bijection(v) {
        return Err(format!("accepted: {}", p.is_ok()));
    }
    let p = match p {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let n = v.len();
    if p.len() != n || p.perm() != v {
        return Err("perm".into());
    }
    let src: Vec<String> = (0..n).map(|i| format!("x{}", i)).collect();
    let target = p.apply_to_slice(&src);
    for i in 0..n {
        if p.source_index(i) != v[i] || target[i] != src[v[i]] {
            return Err(format!("target {}: source index {}, entry {}", i, p.source_index(i), target[i]));
        }
    }
    if target.len() != n {
        return Err("length".into());
    }
    let q = p.inverse();
    for i in 0..n {
        if q.source_index(p.source_index(i)) != i || p.source_index(q.source_index(i)) != i {
            return Err(format!("inverse at {}", i));
        }
    }
    if q.len() != n || q.apply_to_slice(&target) != src || q.inverse() != p {
        return Err("inverse".into());
    }
    let mut r = p.clone();
    r.reverse();
    if !r.perm().iter().eq(v.iter().rev()) {
        return Err("reverse".into());
    }
    for m in [n + 1, n.wrapping_sub(1)] {
        if m <= n + 1 && std::panic::catch_unwind(|| p.apply_to_slice(&vec![0u8; m])).is_ok() {
            return Err(format!("accepted a slice of length {}", m));
        }
    }
    Ok(())
}
fn pattern(n: usize, p: &BTreeSet<(usize, usize)>) -> SparsityPattern {
    let mut off = vec![0];
    for i in 0..n {
        off.push(off[i] + p.range((i, 0)..=(i, n)).count());
    }
    SparsityPattern::try_from_offsets_and_indices(n, n, off, p.iter().map(|e| e.1).collect()).unwrap()
}
/// Is `order` a Cuthill-McKee ordering of the graph?
fn cuthill_mckee_order(n: usize, p: &BTreeSet<(usize, usize)>, order: &[usize]) -> Result<(), String> {
    let adj = |i: usize| p.range((i, 0)..=(i, n)).map(|e| e.1).collect::<Vec<_>>();
    let deg: Vec<usize> = (0..n).map(|i| adj(i).len()).collect();
    let mut visited = vec![false; n];
    let mut queue = VecDeque::new();
    let mut next = 0;
    while next < n {
        let s = order[next];
        if visited[s] || (0..n).any(|i| !visited[i] && deg[i] < deg[s]) {
            return Err(format!("{:?}: vertex {} starts a component", order, s));
        }
        visited[s] = true;
        next += 1;
        queue.push_back(s);
        while let Some(v) = queue.pop_front() {
            let mut new: BTreeSet<usize> = adj(v).into_iter().filter(|i| !visited[*i]).collect();
            let mut last = 0;
            while !new.is_empty() {
                let w = order[next];
                next += 1;
                if !new.remove(&w) || deg[w] < last {
                    return Err(format!("{:?}: vertex {} follows {}", order, w, v));
                }
                last = deg[w];
                visited[w] = true;
                queue.push_back(w);
            }
        }
    }
    Ok(())
}
fn graph_case(n: usize, p: &BTreeSet<(usize, usize)>) -> Result<(), String> {
    let pat = pattern(n, p);
    let c = cuthill_mckee(&pat);
    if c.len() != n || !is_bijection(c.perm()) {
        return Err(format!("not a permutation: {:?}", c));
    }
    cuthill_mckee_order(n, p, c.perm())?;
    let r = reverse_cuthill_mckee(&pat);
    let mut back = r.perm().to_vec();
    back.reverse();
    if r.len() != n || !is_bijection(&back) {
        return Err(format!("not a permutation: {:?}", r));
    }
    cuthill_mckee_order(n, p, &back).map_err(|e| format!("reverse: {}", e))
}
fn geometry<T: SReal, D: fenris::nalgebra::DimName, C: Connectivity>(m: &Mesh<T, D, C>) -> Vec<Vec<OPoint<T, D>>>
where
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<T, D>,
{
    m.connectivity().iter().map(|c| c.vertex_indices().iter().map(|i| m.vertices()[*i].clone()).collect()).collect()
}
/// The reordered mesh has the same cells with the same vertices in the same order, relabelled by the two permutations.
fn mesh_case<D: fenris::nalgebra::DimName, C: fenris::connectivity::ConnectivityMut + Sync + std::fmt::Debug>(m: &Mesh<f64, D, C>) -> Result<(), String>
where
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
    Mesh<f64, D, C>: Sync,
{
    let p = reorder_mesh_par(m);
    let (vp, cp) = (p.vertex_permutation(), p.connectivity_permutation());
    if vp.len() != m.vertices().len() || cp.len() != m.connectivity().len() || !is_bijection(vp.perm()) || !is_bijection(cp.perm()) {
        return Err(format!("not a permutation of the mesh: {:?}", p));
    }
    let r = p.apply(m);
    for (i, v) in r.vertices().iter().enumerate() {
        if *v != m.vertices()[vp.perm()[i]] {
            return Err(format!("vertex {}", i));
        }
    }
    if r.vertices().len() != vp.len() || r.connectivity().len() != cp.len() {
        return Err("size".into());
    }
    let mut last = 0;
    for (i, c) in r.connectivity().iter().enumerate() {
        let old = m.connectivity()[cp.perm()[i]].vertex_indices();
        let new = c.vertex_indices();
        if new.iter().map(|j| vp.perm()[*j]).ne(old.iter().copied()) {
            return Err(format!("cell {}: {:?}, was {:?}, permutation {:?}", i, new, old, p));
        }
        let min = new.iter().min().copied().unwrap_or(0);
        if min < last {
            return Err(format!("cells are not sorted by smallest vertex: {:?}", r.connectivity()));
        }
        last = min;
    }
    // and the vertex order is a reverse Cuthill-McKee ordering of the mesh graph
    let n = m.vertices().len();
    let g = m.connectivity().iter().flat_map(|c| {
        let v = c.vertex_indices().to_vec();
        v.clone().into_iter().flat_map(move |a| v.clone().into_iter().map(move |b| (a, b)))
    });
    let mut back = vp.perm().to_vec();
    back.reverse();
    cuthill_mckee_order(n, &g.collect(), &back).map_err(|e| format!("mesh graph: {}", e))
}
fn cells<const N: usize>(r: &mut Rng, n: usize, k: usize) -> Vec<[usize; N]> {
    (0..k)
        .map(|_| {
            let mut v: Vec<usize> = (0..n).collect();
            r.shuffle(&mut v);
            let mut c = [0; N];
            c.copy_from_slice(&v[..N]);
            c
        })
        .collect()
}
macro_rules! one_mesh {
    ($e:ident $r:ident $c:ident $pt:ident $n:literal) => {{
        let n = $n + $r.below(12);
        let k = $r.below(15);
        let l: Vec<[usize; $n]> = cells(&mut $r, n, k);
        $e.case(|| format!("{} {} vertices, {:?}", stringify!($c), n, l), || {
            let p: Vec<_> = (0..n).map(|i| { let mut p = $pt::origin(); p[0] = i as f64; p[1] = (i * i) as f64 * 0.5; p }).collect();
            mesh_case(&Mesh::from_vertices_and_connectivity(p, l.iter().map(|c| $c(*c)).collect()))
        });
    }};
}
fn main() {
    let mut items: Vec<Item> = vec![];
    // for arbitrary entries and coordinates, for every permutation of at most 4 entries
    for n in 0..=4usize {
        items.push(dual!(format!("apply and undo, {} arbitrary entries", n), ["Permutation::from_vec", "Permutation::inverse", "Permutation::apply_to_slice", "Permutation::source_index"], format!("every permutation of {} entries", n), |cx, T| {
            let x = cx.reals("x", n);
            for v in sequences(n, n).into_iter().filter(|v| v.len() == n && is_bijection(v)) {
                let p = Permutation::from_vec(v.clone()).unwrap();
                let y = p.apply_to_slice(&x);
                let w: Vec<T> = v.iter().map(|i| x[*i]).collect();
                cx.ensure_eqs("target[i] = source[perm[i]]", &y, &w);
                cx.ensure_eqs("the inverse undoes it", &p.inverse().apply_to_slice(&y), &x);
                cx.ensure("same length", y.len() == n);
            }
        }));
    }
    items.push(dual!("a reordered mesh has the same cells, for arbitrary vertices", ["MeshPermutation::apply", "reorder_mesh_par"], "one mesh of 3 triangles and 6 vertices", |cx, T| {
        let pts: Vec<Point2<T>> = (0..6).map(|i| Point2::new(cx.real(&format!("x{}", i)), cx.real(&format!("y{}", i)))).collect();
        let conn: Vec<_> = [[5, 0, 3], [2, 3, 0], [3, 5, 1]].iter().map(|c| Tri3d2Connectivity(*c)).collect();
        let m: Mesh<T, U2, _> = Mesh::from_vertices_and_connectivity(pts, conn);
        let p = reorder_mesh_par(&m);
        let r = p.apply(&m);
        let (a, b) = (geometry(&m), geometry(&r));
        cx.ensure("as many cells", a.len() == b.len() && is_bijection(p.connectivity_permutation().perm()));
        for (i, c) in b.iter().enumerate() {
            let o = &a[p.connectivity_permutation().source_index(i)];
            for (x, y) in c.iter().zip(o) {
                cx.ensure_eqs("the cell has the same vertices", x.coords.as_slice(), y.coords.as_slice());
            }
        }
    }));
    items.push(bounded("permutations", &["Permutation::from_vec", "Permutation::inverse", "Permutation::apply_to_slice", "Permutation::reverse", "Permutation::source_index"], "every sequence of at most 5 indices in 0..=5 and drawn ones of up to 60, some with one wrong entry", |e| {
        for v in sequences(6, 5) {
            e.case(|| format!("{:?}", v), || permutation_case(&v));
        }
        let mut r = Rng(e.seed);
        for k in 0..200 {
            let n = 1 + r.below(60);
            let mut v: Vec<usize> = (0..n).collect();
            r.shuffle(&mut v);
            if k % 3 == 0 {
                let i = r.below(n);
                v[i] = [r.below(n), n, n + r.below(5), usize::MAX][r.below(4)];
            }
            e.case(|| format!("{:?}", v), || permutation_case(&v));
        }
    }));
    items.push(bounded("orderings of graphs", &["cuthill_mckee", "reverse_cuthill_mckee"], "every graph of at most 5 vertices, with all, no or drawn diagonal entries; drawn graphs of up to 40 vertices", |e| {
        let mut r = Rng(e.seed ^ 0xC13);
        for n in 0..=5usize {
            let pairs: Vec<_> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
            for m in 0..1usize << pairs.len() {
                for d in 0..3 {
                    let mut p: BTreeSet<(usize, usize)> = pairs.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).flat_map(|(_, e)| [*e, (e.1, e.0)]).collect();
                    for i in 0..n {
                        if d == 1 || d == 2 && r.bool() {
                            p.insert((i, i));
                        }
                    }
                    e.case(|| format!("{} vertices, entries {:?}", n, p), || graph_case(n, &p));
                }
            }
        }
        for _ in 0..if e.thorough { 3000 } else { 200 } {
            let n = 1 + r.below(40);
            let k = r.below(3 * n);
            let mut p: BTreeSet<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
            for _ in 0..k {
                let (a, b) = (r.below(n), r.below(n));
                p.insert((a, b));
                p.insert((b, a));
            }
            e.case(|| format!("{} vertices, entries {:?}", n, p), || graph_case(n, &p));
        }
    }));
    items.push(bounded("reordering meshes", &["reorder_mesh_par", "MeshPermutation::apply"], "40 drawn meshes (500 thorough) per cell type: segments, triangles, quads, 6-node triangles, tetrahedra, hexahedra; up to 19 vertices, some unused, up to 14 cells, some equal", |e| {
        let mut r = Rng(e.seed ^ 0xA13);
        for _ in 0..if e.thorough { 500 } else { 40 } {
            one_mesh!(e r Segment2d2Connectivity Point2 2);
            one_mesh!(e r Tri3d2Connectivity Point2 3);
            one_mesh!(e r Quad4d2Connectivity Point2 4);
            one_mesh!(e r Tri6d2Connectivity Point2 6);
            one_mesh!(e r Tet4Connectivity Point3 4);
            one_mesh!(e r Hex8Connectivity Point3 8);
        }
    }));
    symcore::run::main(items)
}
