//! C24: polytope meshes.
use contracts::rng::Rng;
use contracts::tiling::{self, Kind};
use fenris::connectivity::*;
use fenris::geometry::polymesh::{PolyMesh, PolyMesh3d};
use fenris::geometry::{ConvexPolygon3d, HalfSpace, Hexahedron, SimplePolygon3d, Tetrahedron};
use fenris::mesh::{HexMesh, Mesh, Tet4Mesh};
use fenris::nalgebra::{Point1, Point3, Unit, Vector3, U1};
use fenris_nested_vec::NestedVec;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use symcore::rat::Rat;
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

type R = Result<(), String>;
fn check(ok: bool, msg: impl FnOnce() -> String) -> R {
    if ok { Ok(()) } else { Err(msg()) }
}

// ---------------------------------------------------------------- complexes of strictly convex cells
#[derive(Clone, Debug)]
struct Complex {
    v: Vec<[i64; 3]>,
    f: Vec<Vec<usize>>,
    c: Vec<Vec<usize>>,
}
impl Complex {
    /// From cells given by the vertex lists of their faces.
    fn new(v: Vec<[i64; 3]>, cells: Vec<Vec<Vec<usize>>>) -> Self {
        let mut f: Vec<Vec<usize>> = vec![];
        let mut c = vec![];
        for cell in cells {
            let mut ids = vec![];
            for face in cell {
                let key: BTreeSet<usize> = face.iter().copied().collect();
                let k = f.iter().position(|g| g.iter().copied().collect::<BTreeSet<_>>() == key).unwrap_or_else(|| {
                    f.push(face.clone());
                    f.len() - 1
                });
                ids.push(k);
            }
            c.push(ids);
        }
        Complex { v, f, c }
    }
    /// The same complex with other names: vertices, faces and cells renumbered, faces rotated and turned over.
    fn shuffled(&self, rng: &mut Rng) -> Self {
        let perm = |n: usize, rng: &mut Rng| {
            let mut p: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut p);
            p
        };
        let (pv, pf, pc) = (perm(self.v.len(), rng), perm(self.f.len(), rng), perm(self.c.len(), rng));
        let mut v = self.v.clone();
        for (i, p) in pv.iter().enumerate() {
            v[*p] = self.v[i];
        }
        let mut f = self.f.clone();
        for (i, p) in pf.iter().enumerate() {
            let mut g: Vec<usize> = self.f[i].iter().map(|i| pv[*i]).collect();
            let k = rng.below(g.len());
            g.rotate_left(k);
            if rng.bool() {
                g.reverse();
            }
            f[*p] = g;
        }
        let mut c = self.c.clone();
        for (i, p) in pc.iter().enumerate() {
            let mut g: Vec<usize> = self.c[i].iter().map(|i| pf[*i]).collect();
            rng.shuffle(&mut g);
            c[*p] = g;
        }
        Complex { v, f, c }
    }
    fn mesh<T: SReal>(&self, map: impl Fn(&[i64; 3]) -> Point3<T>) -> PolyMesh3d<T> {
        PolyMesh::from_poly_data(self.v.iter().map(map).collect(), NestedVec::from(&self.f), NestedVec::from(&self.c))
    }
    fn cell_vertices(&self, c: usize) -> BTreeSet<usize> {
        self.c[c].iter().flat_map(|f| self.f[*f].iter().copied()).collect()
    }
}
fn complexes() -> Vec<(&'static str, Complex)> {
    let tet = |a: usize, b: usize, c: usize, d: usize| vec![vec![a, c, b], vec![a, b, d], vec![a, d, c], vec![b, c, d]];
    let hex = |v: [usize; 8]| [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]].iter().map(|f| f.iter().map(|i| v[*i]).collect()).collect::<Vec<Vec<usize>>>();
    let prism = |a: usize, b: usize, c: usize, d: usize, e: usize, f: usize| vec![vec![a, c, b], vec![d, e, f], vec![a, b, e, d], vec![b, c, f, e], vec![c, a, d, f]];
    let grid = |n: [usize; 3]| {
        let id = |i: usize, j: usize, k: usize| (k * (n[1] + 1) + j) * (n[0] + 1) + i;
        let mut v = vec![];
        for k in 0..=n[2] {
            for j in 0..=n[1] {
                for i in 0..=n[0] {
                    v.push([i as i64, j as i64, k as i64]);
                }
            }
        }
        let mut c = vec![];
        for k in 0..n[2] {
            for j in 0..n[1] {
                for i in 0..n[0] {
                    c.push(hex([id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)]));
                }
            }
        }
        Complex::new(v, c)
    };
    vec![
        ("tetrahedron", Complex::new(vec![[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], vec![tet(0, 1, 2, 3)])),
        ("cube", grid([1, 1, 1])),
        ("prism", Complex::new(vec![[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1]], vec![prism(0, 1, 2, 3, 4, 5)])),
        ("pyramid", Complex::new(vec![[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0], [1, 0, 2]], vec![vec![vec![0, 3, 2, 1], vec![0, 1, 4], vec![1, 2, 4], vec![2, 3, 4], vec![3, 0, 4]]])),
        ("octahedron", Complex::new(vec![[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], vec![vec![
            vec![0, 2, 4], vec![2, 1, 4], vec![1, 3, 4], vec![3, 0, 4], vec![2, 0, 5], vec![1, 2, 5], vec![3, 1, 5], vec![0, 3, 5],
        ]])),
        ("two tetrahedra", Complex::new(vec![[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]], vec![tet(0, 1, 2, 3), tet(1, 2, 3, 4)])),
        ("prism on a cube", {
            let v = vec![[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1], [0, 0, 2], [0, 1, 2]];
            Complex::new(v, vec![hex([0, 1, 2, 3, 4, 5, 6, 7]), prism(4, 5, 8, 7, 6, 9)])
        }),
        ("pyramid on a cube", {
            let v = vec![[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0], [0, 0, 2], [2, 0, 2], [2, 2, 2], [0, 2, 2], [1, 1, 3]];
            Complex::new(v, vec![hex([0, 1, 2, 3, 4, 5, 6, 7]), vec![vec![4, 7, 6, 5], vec![4, 5, 8], vec![5, 6, 8], vec![6, 7, 8], vec![7, 4, 8]]])
        }),
        ("2 x 1 x 1 cubes", grid([2, 1, 1])),
        ("2 x 2 x 1 cubes", grid([2, 2, 1])),
        ("2 x 2 x 2 cubes", grid([2, 2, 2])),
    ]
}
/// Six times the volume of every cell: tetrahedra from the cell's centroid to the triangles of every face (scaled by the number of vertices cubed to stay whole).
fn reference_volume(k: &Complex, c: usize) -> (i64, i64) {
    let vs = k.cell_vertices(c);
    let n = vs.len() as i64;
    let m: Vec<i64> = (0..3).map(|d| vs.iter().map(|v| k.v[*v][d]).sum()).collect();
    let mut sum = 0;
    for f in &k.c[c] {
        let f = &k.f[*f];
        for i in 1..f.len() - 1 {
            let e: Vec<Vec<i64>> = [f[0], f[i], f[i + 1]].iter().map(|v| (0..3).map(|d| n * k.v[*v][d] - m[d]).collect()).collect();
            let det = e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]);
            sum += det.abs();
        }
    }
    (sum, n * n * n)
}
/// An arbitrary affine image of the complex, of either orientation.
struct Affine<T> {
    a: Vec<T>,
    b: Vec<T>,
    det: T,
}
impl<T: SReal> Affine<T> {
    fn new(cx: &mut Cx<T>, sign: i64) -> Self {
        let a = cx.reals("A", 9);
        let b = cx.reals("b", 3);
        let det = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
        let small = if T::SYMBOLIC { T::int(0) } else { T::ratio(1, 100) };
        cx.assume_gt(T::int(sign) * det, small);
        let det = T::int(sign) * det;
        Affine { a, b, det }
    }
    fn at(&self, x: &[i64; 3]) -> Point3<T> {
        let g = |i: usize| (0..3).fold(self.b[i], |s, j| s + self.a[3 * i + j] * T::int(x[j]));
        Point3::new(g(0), g(1), g(2))
    }
    /// Normal of the image of a plane with the given normal (up to a positive factor).
    fn normal(&self, n: &[i64; 3], sign: i64) -> Vector3<T> {
        let a = &self.a;
        let cof = |i: usize, j: usize| {
            let (r, s) = ((i + 1) % 3, (i + 2) % 3);
            let (p, q) = ((j + 1) % 3, (j + 2) % 3);
            a[3 * r + p] * a[3 * s + q] - a[3 * r + q] * a[3 * s + p]
        };
        Vector3::from_fn(|i, _| (0..3).fold(T::zero(), |t, j| t + cof(i, j) * T::int(n[j])) * T::int(sign))
    }
}
fn total(k: &Complex) -> (i64, i64) {
    let s = (0..k.c.len()).map(|c| reference_volume(k, c)).fold(Rat::zero(), |s, (a, b)| s.add(&Rat::new(a, b)));
    (s.numer().to_string().parse().unwrap(), s.denom().to_string().parse().unwrap())
}

// ---------------------------------------------------------------- volume, triangulation
fn volume<T: SReal>(cx: &mut Cx<T>, k: &Complex, sign: i64) {
    let m = Affine::new(cx, sign);
    let p = k.mesh(|x| m.at(x));
    let (n, d) = total(k);
    cx.ensure_eq("volume", p.compute_volume() * T::int(6), m.det * T::ratio(n, d));
}
/// Everything about a triangulation that does not need coordinates.
fn triangulated(k: &Complex, faces: &[Vec<usize>], cells: &[Vec<usize>]) -> R {
    let set = |f: &[usize]| f.iter().copied().collect::<BTreeSet<usize>>();
    let sets: Vec<BTreeSet<usize>> = faces.iter().map(|f| set(f)).collect();
    for (i, f) in faces.iter().enumerate() {
        check(f.len() == 3 && sets[i].len() == 3, || format!("face {:?} is no triangle", f))?;
        check(!sets[..i].contains(&sets[i]), || format!("face {:?} occurs twice", f))?;
    }
    let mut used = vec![0; faces.len()];
    let mut of_cell: BTreeMap<usize, usize> = BTreeMap::new();
    for c in cells {
        check(c.len() == 4, || format!("cell {:?} has {} faces", c, c.len()))?;
        let all: BTreeSet<usize> = c.iter().flat_map(|f| sets[*f].iter().copied()).collect();
        check(all.len() == 4 && c.iter().collect::<BTreeSet<_>>().len() == 4, || format!("cell {:?} is no tetrahedron", c))?;
        c.iter().for_each(|f| used[*f] += 1);
        let owners: Vec<usize> = (0..k.c.len()).filter(|o| all.is_subset(&k.cell_vertices(*o))).collect();
        check(owners.len() == 1, || format!("cell {:?} lies in the cells {:?}", all, owners))?;
        *of_cell.entry(owners[0]).or_insert(0) += 1;
    }
    check(of_cell.len() == k.c.len(), || "a cell has no tetrahedra".into())?;
    let times = |f: usize| k.c.iter().filter(|c| c.contains(&f)).count();
    for (i, f) in k.f.iter().enumerate() {
        let parent = set(f);
        let tri: Vec<usize> = (0..faces.len()).filter(|t| sets[*t].is_subset(&parent)).collect();
        check(tri.len() == f.len() - 2, || format!("face {:?} is made of {} triangles", f, tri.len()))?;
        for t in tri {
            check(used[t] == times(i), || format!("triangle {:?} of face {:?} belongs to {} cells, the face to {}", faces[t], f, used[t], times(i)))?;
        }
    }
    for (i, f) in sets.iter().enumerate() {
        if !k.f.iter().any(|g| f.is_subset(&set(g))) {
            check(used[i] == 2, || format!("inner triangle {:?} belongs to {} cells", faces[i], used[i]))?;
        }
    }
    Ok(())
}
fn lists(p: &PolyMesh3d<impl SReal>) -> (Vec<Vec<usize>>, Vec<Vec<usize>>) {
    (p.face_connectivity_iter().map(|f| f.to_vec()).collect(), p.cell_connectivity_iter().map(|f| f.to_vec()).collect())
}
fn triangulation<T: SReal>(cx: &mut Cx<T>, k: &Complex, sign: i64) {
    let m = Affine::new(cx, sign);
    let p = k.mesh(|x| m.at(x));
    let t = p.triangulate();
    cx.ensure("a mesh of strictly convex cells can be triangulated", t.is_ok());
    let t = t.unwrap();
    cx.ensure("the vertices are kept", t.vertices().len() == p.vertices().len());
    for (a, b) in t.vertices().iter().zip(p.vertices()) {
        cx.ensure_eqs("the vertices are kept", a.coords.as_slice(), b.coords.as_slice());
    }
    let (f, c) = lists(&t);
    let r = triangulated(k, &f, &c);
    cx.ensure(&format!("tetrahedra fit together: {:?}", r.as_ref().err()), r.is_ok());
    // every tetrahedron has a positive volume, and together those of a cell have its volume: they neither overlap nor leave gaps
    // (the determinant of an affine image is known from that of the complex)
    let own: Vec<Vec<Rat>> = k.v.iter().map(|x| x.iter().map(|x| Rat::int(*x)).collect()).collect();
    let small = |ids: &[usize]| {
        let e: Vec<Vec<Rat>> = (1..4).map(|j| (0..3).map(|i| own[ids[j]][i].sub(&own[ids[0]][i])).collect()).collect();
        det3(&e)
    };
    let mut sum = vec![Rat::zero(); k.c.len()];
    for c in &c {
        let all: Vec<usize> = c.iter().flat_map(|i| f[*i].iter().copied()).collect::<BTreeSet<_>>().into_iter().collect();
        let o = (0..k.c.len()).find(|o| all.iter().all(|v| k.cell_vertices(*o).contains(v))).unwrap();
        let q: Vec<Vec<T>> = t.vertices().iter().map(|v| v.coords.as_slice().to_vec()).collect();
        let d = tiling::det(&q, &all);
        let r = small(&all);
        cx.ensure_eq("volume of a tetrahedron", d * T::int(sign), m.det * number(&r));
        cx.ensure("tetrahedra are not degenerate", r.sign() != 0);
        sum[o] = sum[o].add(&if r.sign() < 0 { r.neg() } else { r });
    }
    for (o, s) in sum.iter().enumerate() {
        let (n, d) = reference_volume(k, o);
        cx.ensure("tetrahedra fill the cell", s.sub(&Rat::new(n, d)).sign() == 0);
    }
    // a side of a tetrahedron that is not degenerate has a normal
    for c in &c {
        let all: BTreeSet<usize> = c.iter().flat_map(|i| f[*i].iter().copied()).collect();
        for g in c {
            let g = &f[*g];
            let apex = *all.iter().find(|v| !g.contains(v)).unwrap();
            let q = t.vertices();
            let n = (q[g[1]] - q[g[0]]).cross(&(q[g[2]] - q[g[0]]));
            let d = q[apex] - q[g[0]];
            cx.local(|cx| {
                for i in 0..3 {
                    cx.name("n", n[i]);
                    cx.name("d", d[i]);
                }
                let side = sign * small(&[g[0], g[1], g[2], apex]).sign() as i64;
                cx.lemma_gt("the opposite vertex is not on the plane of a side", n.dot(&d) * T::int(side), T::zero());
                cx.lemma_gt("a side has a normal", n.dot(&n), T::zero());
            });
        }
    }
    let tets = Tet4Mesh::try_from(&t);
    cx.ensure("tetrahedra are accepted as a tetrahedral mesh", tets.is_ok());
    let tets = tets.unwrap();
    cx.ensure("the vertices are kept", tets.vertices() == t.vertices());
    cx.ensure("one cell for each", tets.connectivity().len() == c.len());
    let q: Vec<Vec<T>> = t.vertices().iter().map(|v| v.coords.as_slice().to_vec()).collect();
    for (i, e) in tets.connectivity().iter().enumerate() {
        let want: BTreeSet<usize> = c[i].iter().flat_map(|i| f[*i].iter().copied()).collect();
        cx.ensure("the same vertices", e.vertex_indices().iter().copied().collect::<BTreeSet<_>>() == want);
        let r = small(e.vertex_indices());
        let r = if r.sign() < 0 { r.neg() } else { r };
        cx.ensure_eq("positively oriented", tiling::det(&q, e.vertex_indices()), m.det * number(&r));
    }
}
fn det3(e: &[Vec<Rat>]) -> Rat {
    let m = |a: usize, b: usize| e[1][a].mul(&e[2][b]).sub(&e[1][b].mul(&e[2][a]));
    e[0][0].mul(&m(1, 2)).sub(&e[0][1].mul(&m(0, 2))).add(&e[0][2].mul(&m(0, 1)))
}
fn hex_to_tet<T: SReal>(cx: &mut Cx<T>, k: &Complex, seed: u64) {
    let h: Vec<T> = (0..3).map(|i| cx.pos(&format!("h{}", i))).collect();
    let mut rng = Rng(seed);
    // hexahedra of the grid, each with a random one of the 24 numberings of its nodes, vertices in any order
    let mut pv: Vec<usize> = (0..k.v.len()).collect();
    rng.shuffle(&mut pv);
    let mut v = vec![Point3::origin(); k.v.len()];
    for (i, p) in pv.iter().enumerate() {
        v[*p] = Point3::new(h[0] * T::int(k.v[i][0]), h[1] * T::int(k.v[i][1]), h[2] * T::int(k.v[i][2]));
    }
    let cells: Vec<Hex8Connectivity> = (0..k.c.len())
        .map(|c| {
            let vs: Vec<usize> = k.cell_vertices(c).into_iter().collect();
            let lo = k.v[*vs.iter().min_by_key(|i| k.v[**i]).unwrap()];
            let at = |x: [i64; 3]| pv[*vs.iter().find(|i| (0..3).all(|d| k.v[**i][d] - lo[d] == x[d])).unwrap()];
            let mut g: Vec<usize> = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]].iter().map(|x| at(*x)).collect();
            for _ in 0..rng.below(4) {
                g = vec![g[1], g[2], g[3], g[0], g[5], g[6], g[7], g[4]];
            }
            for _ in 0..rng.below(3) {
                g = vec![g[0], g[4], g[5], g[1], g[3], g[7], g[6], g[2]];
            }
            if rng.bool() {
                g = vec![g[6], g[5], g[4], g[7], g[2], g[1], g[0], g[3]];
            }
            Hex8Connectivity(g.try_into().unwrap())
        })
        .collect();
    let mesh = HexMesh::from_vertices_and_connectivity(v, cells);
    let t = Tet4Mesh::from(&mesh);
    let q: Vec<Vec<T>> = t.vertices().iter().map(|v| v.coords.as_slice().to_vec()).collect();
    let c: Vec<Vec<usize>> = t.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect();
    let hi: Vec<T> = (0..3).map(|d| h[d] * T::int(k.v.iter().map(|x| x[d]).max().unwrap())).collect();
    tiling::tiles(cx, Kind::Tet, &q, &c, &vec![T::zero(); 3], &hi);
    for (i, c) in mesh.connectivity().iter().enumerate() {
        let own = t.connectivity().iter().filter(|e| e.vertex_indices().iter().all(|v| c.vertex_indices().contains(v)));
        let s = own.fold(T::zero(), |s, e| s + tiling::det(&q, e.vertex_indices()));
        cx.ensure_eq(&format!("tetrahedra fill hexahedron {}", i), s, T::int(6) * h[0] * h[1] * h[2]);
    }
}

// ---------------------------------------------------------------- splitting edges
fn split<T: SReal>(cx: &mut Cx<T>, k: &Complex, times: usize) {
    let x: Vec<Vec<T>> = (0..k.v.len()).map(|i| cx.reals(&format!("x{}_", i), 3)).collect();
    let mut p: PolyMesh3d<T> =
        PolyMesh::from_poly_data(x.iter().map(|x| Point3::new(x[0], x[1], x[2])).collect(), NestedVec::from(&k.f), NestedVec::from(&k.c));
    let old = p.clone();
    if times == 1 {
        p.split_edges();
    } else {
        p.split_edges_n_times(times);
    }
    let (f, c) = lists(&p);
    cx.ensure("cells keep their faces", c == k.c && f.len() == k.f.len());
    let n = 1usize << times;
    let mut edges = BTreeSet::new();
    for (i, g) in f.iter().enumerate() {
        let o = &k.f[i];
        cx.ensure("every edge becomes 2^n edges", g.len() == n * o.len());
        for j in 0..o.len() {
            let (a, b) = (o[j], o[(j + 1) % o.len()]);
            edges.insert((a.min(b), a.max(b)));
            cx.ensure("old vertices stay in the face", g[n * j] == a);
            for s in 0..n {
                let v = p.vertices()[g[n * j + s]];
                let w: Vec<T> = (0..3).map(|d| x[a][d] + (x[b][d] - x[a][d]) * T::ratio(s as i64, n as i64)).collect();
                cx.ensure_eqs("the new vertices cut the edge into equal parts", v.coords.as_slice(), &w);
            }
        }
    }
    cx.ensure("vertices on an edge are made once", p.vertices().len() == k.v.len() + edges.len() * (n - 1));
    for i in 0..k.v.len() {
        cx.ensure_eqs("the old vertices are kept", p.vertices()[i].coords.as_slice(), old.vertices()[i].coords.as_slice());
    }
    for i in 0..f.len() {
        cx.ensure_eqs("the region of a face is kept", p.get_face(i).unwrap().compute_area_vector().as_slice(), old.get_face(i).unwrap().compute_area_vector().as_slice());
    }
}

// ---------------------------------------------------------------- cutting
/// A tetrahedron cut by a plane: all positions of the plane with the given vertices inside.
fn cut_tet<T: SReal>(cx: &mut Cx<T>, k: &Complex, pattern: usize) {
    let n = cx.reals("n", 3);
    let c = cx.real("c");
    let d: Vec<T> = k.v.iter().map(|x| c + (0..3).fold(T::zero(), |s, j| s + n[j] * T::int(x[j]))).collect();
    // signed distance (up to a factor) of every vertex; inside means <= 0
    for (i, d) in d.iter().enumerate() {
        let s = if pattern >> i & 1 == 1 { -1 } else { 1 };
        cx.assume_gt(T::int(s) * *d, if T::SYMBOLIC { T::zero() } else { T::ratio(1, 50) });
    }
    for i in 0..4 {
        for j in 0..i {
            let e = (d[i] - d[j]) * (d[i] - d[j]);
            cx.assume_gt(e, if T::SYMBOLIC { T::zero() } else { T::ratio(1, 50) });
        }
    }
    let nn = (0..3).fold(T::zero(), |s, j| s + n[j] * n[j]);
    cx.assume_gt(nn, if T::SYMBOLIC { T::zero() } else { T::ratio(1, 50) });
    // a point of the plane
    let point = Point3::new(-c * n[0] / nn, -c * n[1] / nn, -c * n[2] / nn);
    let h = HalfSpace::from_point_and_normal(point, Unit::new_unchecked(Vector3::new(n[0], n[1], n[2])));
    let p = k.mesh(|x| Point3::new(T::int(x[0]), T::int(x[1]), T::int(x[2])));
    let q = p.intersect_half_space(&h);
    // divided differences: the volume fraction is the sum over the inside vertices of d_i^3 / prod (d_i - d_j)
    let mut want = T::zero();
    for i in 0..4 {
        if pattern >> i & 1 == 1 {
            let den = (0..4).filter(|j| *j != i).fold(T::one(), |s, j| s * (d[i] - d[j]));
            want += d[i] * d[i] * d[i] / den;
        }
    }
    cx.ensure_eq("volume of the part in the half space", T::int(6) * q.compute_volume(), want);
    cx.ensure("as many cells", q.num_cells() == (pattern != 0) as usize);
    for v in q.vertices() {
        let s = c + (0..3).fold(T::zero(), |s, j| s + n[j] * v[j]);
        cx.ensure_le("vertices lie in the half space", s, T::zero());
    }
}
/// An affine image of a complex, cut by the image of a fixed plane (n.x <= c).
fn cut_affine<T: SReal>(cx: &mut Cx<T>, k: &Complex, n: [i64; 3], c: (i64, i64), sign: i64) {
    let m = Affine::new(cx, sign);
    let p = k.mesh(|x| m.at(x));
    // a point of the plane: scale the axis with a component
    let a = (0..3).find(|i| n[*i] != 0).unwrap();
    let mut o = [T::zero(); 3];
    o[a] = T::ratio(c.0, c.1 * n[a]);
    let point = Point3::from(Vector3::from_fn(|i, _| (0..3).fold(m.b[i], |s, j| s + m.a[3 * i + j] * o[j])));
    let h = HalfSpace::from_point_and_normal(point, Unit::new_unchecked(m.normal(&n, sign)));
    let q = p.intersect_half_space(&h);
    let v: Vec<[Rat; 3]> = k.v.iter().map(|x| x.map(Rat::int)).collect();
    let c = Rat::new(c.0, c.1);
    let d: Vec<Rat> = k.v.iter().map(|x| Rat::int(n[0] * x[0] + n[1] * x[1] + n[2] * x[2]).sub(&c)).collect();
    let want = (0..k.c.len()).fold(Rat::zero(), |s, c| s.add(&clipped(k, c, &v, &d)));
    cx.ensure_eq("volume of the part in the half space", T::int(6) * q.compute_volume(), m.det * number(&want));
}
fn number<T: SReal>(r: &Rat) -> T {
    T::ratio(r.numer().to_string().parse().unwrap(), r.denom().to_string().parse().unwrap())
}
/// Six times the volume of the part d <= 0 of a cell (d is affine): tetrahedra from one vertex to the faces without it.
fn clipped(k: &Complex, cell: usize, v: &[[Rat; 3]], d: &[Rat]) -> Rat {
    let apex = *k.cell_vertices(cell).iter().next().unwrap();
    let mut sum = Rat::zero();
    for f in &k.c[cell] {
        let f = &k.f[*f];
        if f.contains(&apex) {
            continue;
        }
        for i in 1..f.len() - 1 {
            let t = [apex, f[0], f[i], f[i + 1]];
            let e: Vec<Vec<Rat>> = (1..4).map(|j| (0..3).map(|k| v[t[j]][k].sub(&v[t[0]][k])).collect()).collect();
            let mut det = det3(&e);
            if det.sign() < 0 {
                det = det.neg();
            }
            sum = sum.add(&det.mul(&fraction(&t.map(|i| d[i].clone()))));
        }
    }
    sum
}
/// Fraction of a tetrahedron where the affine function with these corner values is not positive.
fn fraction(d: &[Rat; 4]) -> Rat {
    let (mut i, mut o): (Vec<&Rat>, Vec<&Rat>) = d.iter().partition(|d| d.sign() <= 0);
    // part of the edge from a to b next to a
    let s = |a: &Rat, b: &Rat| a.div(&a.sub(b));
    match i.len() {
        0 => Rat::zero(),
        4 => Rat::one(),
        1 => o.iter().fold(Rat::one(), |r, b| r.mul(&s(i[0], b))),
        3 => {
            std::mem::swap(&mut i, &mut o);
            Rat::one().sub(&o.iter().fold(Rat::one(), |r, b| r.mul(&s(i[0], b))))
        }
        _ => {
            let (s02, s03, s12, s13) = (s(i[0], o[0]), s(i[0], o[1]), s(i[1], o[0]), s(i[1], o[1]));
            let one = Rat::one();
            s02.mul(&s03).add(&s12.mul(&s03).mul(&one.sub(&s02))).add(&s12.mul(&s13).mul(&one.sub(&s03)))
        }
    }
}

// ---------------------------------------------------------------- polygons
fn polygon<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Vector3<T>> = (0..n).map(|i| Vector3::from_column_slice(&cx.reals(&format!("x{}_", i), 3))).collect();
    let p = SimplePolygon3d::from_vertices(v.iter().map(|x| Point3::from(*x)).collect());
    let want = (1..n - 1).fold(Vector3::zeros(), |s, i| s + (v[i] - v[0]).cross(&(v[i + 1] - v[0])));
    let a = p.area_vector();
    cx.ensure_eqs("area vector of a closed polygon", (a * T::int(2)).as_slice(), want.as_slice());
    let area = p.area();
    cx.ensure_eq("area", area * area, a.dot(&a));
    cx.ensure_le("area", T::zero(), area);
}

// ---------------------------------------------------------------- topology, for every vertex type
type Abstract = PolyMesh<usize, fenris::nalgebra::U3>;
fn label(i: usize) -> Point3<usize> {
    Point3::new(i, 100 + i, 200 + 7 * i)
}
fn random_topology(rng: &mut Rng) -> (usize, Vec<Vec<usize>>, Vec<Vec<usize>>) {
    let nv = 1 + rng.below(7);
    let nf = rng.below(7);
    let f: Vec<Vec<usize>> = (0..nf).map(|_| (0..rng.below(5)).map(|_| rng.below(nv)).collect()).collect();
    let nc = if nf == 0 { 0 } else { rng.below(5) };
    let c = (0..nc).map(|_| (0..rng.below(5)).map(|_| rng.below(nf)).collect()).collect();
    (nv, f, c)
}
fn abstract_mesh(nv: usize, f: &Vec<Vec<usize>>, c: &Vec<Vec<usize>>) -> Abstract {
    PolyMesh::from_poly_data((0..nv).map(label).collect(), NestedVec::from(f), NestedVec::from(c))
}
fn data(m: &Abstract) -> (Vec<usize>, Vec<Vec<usize>>, Vec<Vec<usize>>) {
    (
        m.vertices().iter().map(|p| { assert!(*p == label(p.x)); p.x }).collect(),
        m.face_connectivity_iter().map(|x| x.to_vec()).collect(),
        m.cell_connectivity_iter().map(|x| x.to_vec()).collect(),
    )
}
fn topology(nv: usize, f: &Vec<Vec<usize>>, c: &Vec<Vec<usize>>, rng: &mut Rng) -> R {
    let m = abstract_mesh(nv, f, c);
    check(data(&m) == ((0..nv).collect(), f.clone(), c.clone()), || "the mesh is not what it was made of".into())?;
    check(m.num_faces() == f.len() && m.num_cells() == c.len(), || "numbers of faces and cells".into())?;
    for i in 0..f.len() + 1 {
        check(m.get_face_connectivity(i) == f.get(i).map(|v| &v[..]), || format!("face {}", i))?;
        check(m.get_face(i).is_some() == (i < f.len()), || format!("face {}", i))?;
        let v: Vec<usize> = m.face_vertices(i).map(|p| p.x).collect();
        check(v == f.get(i).cloned().unwrap_or_default(), || format!("vertices {:?} of face {}", v, i))?;
        if let Some(face) = m.get_face(i) {
            let v: Vec<Option<Point3<usize>>> = (0..f[i].len() + 1).map(|k| face.get_vertex(k)).collect();
            check(face.num_vertices() == f[i].len() && v == f[i].iter().map(|v| Some(label(*v))).chain([None]).collect::<Vec<_>>(), || format!("vertices {:?} of face {}", v, i))?;
        }
    }
    for i in 0..c.len() + 1 {
        check(m.get_cell_connectivity(i) == c.get(i).map(|v| &v[..]), || format!("cell {}", i))?;
    }
    // every face knows the cells that contain it
    let fc: Vec<Vec<usize>> = m.compute_face_cell_connectivity().iter().map(|x| x.to_vec()).collect();
    let want: Vec<Vec<usize>> = (0..f.len()).map(|i| c.iter().enumerate().flat_map(|(k, c)| c.iter().filter(|f| **f == i).map(move |_| k)).collect()).collect();
    check(fc == want, || format!("cells of faces {:?}, expected {:?}", fc, want))?;
    let b = m.find_boundary_faces();
    let want: Vec<usize> = (0..f.len()).filter(|i| want[*i].len() <= 1).collect();
    check(b == want, || format!("boundary faces {:?}, expected {:?}", b, want))?;
    // dedup
    let mut d = m.clone();
    d.dedup_faces();
    let (v, df, dc) = data(&d);
    let key = |f: &Vec<usize>| { let mut f = f.clone(); f.sort(); f };
    let mut firsts: Vec<Vec<usize>> = vec![];
    for g in f {
        if !firsts.iter().any(|h| key(h) == key(g)) {
            firsts.push(g.clone());
        }
    }
    let want: Vec<Vec<usize>> = c.iter().map(|c| c.iter().map(|i| firsts.iter().position(|h| key(h) == key(&f[*i])).unwrap()).collect()).collect();
    check(v == (0..nv).collect::<Vec<_>>() && df == firsts && dc == want, || format!("without duplicates: {:?} {:?}, expected {:?} {:?}", df, dc, firsts, want))?;
    // kept cells
    let keep: Vec<usize> = if c.is_empty() { vec![] } else { (0..rng.below(4)).map(|_| rng.below(c.len())).collect() };
    let (kv, kf, kc) = data(&m.keep_cells(&keep));
    check(kc.len() == keep.len(), || format!("{} cells kept, expected {}", kc.len(), keep.len()))?;
    for (a, b) in kc.iter().zip(&keep) {
        let x: Vec<Vec<usize>> = a.iter().map(|i| kf[*i].iter().map(|v| kv[*v]).collect()).collect();
        let y: Vec<Vec<usize>> = c[*b].iter().map(|i| f[*i].clone()).collect();
        check(x == y, || format!("kept cell {} is {:?}, was {:?}", b, x, y))?;
    }
    let used_f: BTreeSet<usize> = keep.iter().flat_map(|i| c[*i].iter().copied()).collect();
    let used_v: BTreeSet<usize> = used_f.iter().flat_map(|i| f[*i].iter().copied()).collect();
    check(kf.len() == used_f.len() && kv == used_v.into_iter().collect::<Vec<_>>(), || format!("kept faces {:?} and vertices {:?}", kf, kv))
}
fn glued(parts: &[(usize, Vec<Vec<usize>>, Vec<Vec<usize>>)]) -> R {
    let ms: Vec<Abstract> = parts.iter().map(|(n, f, c)| abstract_mesh(*n, f, c)).collect();
    let (v, f, c) = data(&Abstract::concatenate(&ms));
    let (mut wv, mut wf, mut wc) = (vec![], vec![], vec![]);
    for (n, f, c) in parts {
        let (a, b) = (wv.len(), wf.len());
        wv.extend(0..*n);
        wf.extend(f.iter().map(|f| f.iter().map(|i| i + a).collect::<Vec<_>>()));
        wc.extend(c.iter().map(|f| f.iter().map(|i| i + b).collect::<Vec<_>>()));
    }
    check((&v, &f, &c) == (&wv, &wf, &wc), || format!("glued {:?} {:?} {:?}, expected {:?} {:?} {:?}", v, f, c, wv, wf, wc))
}
/// Cells of a mesh as polytopes.
fn from_cells<C: Connectivity>(nv: usize, cells: &[C]) -> R
where
    C: Clone,
{
    let m: Mesh<usize, U1, C> = Mesh::from_vertices_and_connectivity((0..nv).map(|i| Point1::new(50 + i)).collect(), cells.to_vec());
    let p: PolyMesh<usize, U1> = PolyMesh::from(&m);
    check(p.vertices() == m.vertices(), || "the vertices are not kept".into())?;
    let f: Vec<Vec<usize>> = p.face_connectivity_iter().map(|x| x.to_vec()).collect();
    let key = |f: &[usize]| { let mut f = f.to_vec(); f.sort(); f };
    check(f.iter().map(|g| key(g)).collect::<BTreeSet<_>>().len() == f.len(), || format!("a face occurs twice in {:?}", f))?;
    check(p.num_cells() == cells.len(), || "number of cells".into())?;
    let mut seen = BTreeSet::new();
    for (i, c) in cells.iter().enumerate() {
        let own = p.get_cell_connectivity(i).unwrap();
        check(own.len() == c.num_faces(), || format!("cell {} has {} faces", i, own.len()))?;
        for k in 0..c.num_faces() {
            let face = c.get_face_connectivity(k).unwrap();
            let w = face.vertex_indices();
            check(key(&f[own[k]]) == key(w), || format!("face {} of cell {} is {:?}, expected {:?}", k, i, f[own[k]], w))?;
            if seen.insert(key(w)) {
                // the first cell with the face determines its orientation: faces of one cell only are oriented as in that cell
                check(f[own[k]] == w, || format!("face {} of cell {} is {:?}, expected {:?}", k, i, f[own[k]], w))?;
            }
        }
    }
    check(seen.len() == f.len(), || format!("{} faces, expected {}", f.len(), seen.len()))
}
macro_rules! from_items { ($out:ident; $($c:ident $n:literal),*) => { $(
    $out.push(bounded(concat!("C24: ", stringify!($c), " meshes as polytope meshes"), &["PolyMesh::from(&Mesh)"], "random meshes with up to 12 vertices and 5 cells, cells sharing vertices at random", |e| {
        let mut rng = Rng(e.seed + 31);
        for _ in 0..if e.thorough { 5000 } else { 300 } {
            let nv = $n + rng.below(3);
            let mut cells: Vec<$c> = vec![];
            for _ in 0..rng.below(6) {
                let mut p: Vec<usize> = (0..nv).collect();
                rng.shuffle(&mut p);
                if !cells.is_empty() && rng.below(2) == 0 {
                    // share a face with an earlier cell, most vertices in another order
                    p = cells[rng.below(cells.len())].0.to_vec();
                    let (i, j) = (rng.below(p.len()), rng.below(p.len()));
                    p.swap(i, j);
                }
                cells.push($c(p[..$n].try_into().unwrap()));
            }
            e.case(|| format!("{} vertices {:?}", nv, cells), || from_cells(nv, &cells));
        }
    }));
)* } }

// ---------------------------------------------------------------- random shapes
/// A projective image of the complex (planes stay planes, cells are no parallelepipeds), on a grid of 2^-40.
fn shape(rng: &mut Rng, k: &Complex) -> Vec<Point3<f64>> {
    let a: Vec<f64> = (0..9).map(|i| rng.int(-8, 8) as f64 / 16.0 + if i % 4 == 0 { 1.5 } else { 0.0 }).collect();
    let w: Vec<f64> = (0..3).map(|_| rng.int(-2, 2) as f64 / 32.0).collect();
    let b: Vec<f64> = (0..3).map(|_| rng.int(-64, 64) as f64 / 16.0).collect();
    k.v.iter()
        .map(|x| {
            let x: Vec<f64> = x.iter().map(|x| *x as f64).collect();
            let s = 1.0 + (0..3).map(|i| w[i] * x[i]).sum::<f64>();
            let q = 2f64.powi(40);
            Point3::from(Vector3::from_fn(|i, _| (((0..3).map(|j| a[3 * i + j] * x[j]).sum::<f64>() / s + b[i]) * q).round() / q))
        })
        .collect()
}
fn exact(v: &[Point3<f64>]) -> Vec<[Rat; 3]> {
    v.iter().map(|p| [p.x, p.y, p.z].map(Rat::from_f64)).collect()
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-8 * (1.0 + b.abs())
}
fn tets_volume(t: &PolyMesh3d<f64>) -> Result<f64, String> {
    let mut sum = 0.0;
    for c in t.cell_connectivity_iter() {
        let v: Vec<usize> = c.iter().flat_map(|f| t.get_face_connectivity(*f).unwrap().to_vec()).collect::<BTreeSet<_>>().into_iter().collect();
        check(v.len() == 4 && c.len() == 4, || format!("{:?} is no tetrahedron", c))?;
        let q: Vec<Vec<f64>> = t.vertices().iter().map(|v| v.coords.as_slice().to_vec()).collect();
        sum += tiling::det(&q, &v).abs() / 6.0;
    }
    Ok(sum)
}
/// What has to hold for a mesh cut by half spaces: volume of every part, faces plane and shared by the right cells.
fn cut_shape(k: &Complex, v: &[Point3<f64>], planes: &[(Point3<f64>, Vector3<f64>)], generic: bool) -> R {
    let p: PolyMesh3d<f64> = PolyMesh::from_poly_data(v.to_vec(), NestedVec::from(&k.f), NestedVec::from(&k.c));
    let mut q = p.clone();
    for (x, n) in planes {
        q = q.intersect_half_space(&HalfSpace::from_point_and_normal(*x, Unit::new_normalize(*n)));
    }
    // one plane: exact volumes; more: inclusion and exclusion is not needed, a second cut is checked on the cells of the first
    let (x, n) = &planes[planes.len() - 1];
    let before = planes[..planes.len() - 1].iter().fold(p, |q, (x, n)| q.intersect_half_space(&HalfSpace::from_point_and_normal(*x, Unit::new_normalize(*n))));
    let (bf, bc): (Vec<Vec<usize>>, Vec<Vec<usize>>) = (before.face_connectivity_iter().map(|f| f.to_vec()).collect(), before.cell_connectivity_iter().map(|f| f.to_vec()).collect());
    let bk = Complex { v: vec![], f: bf, c: bc };
    let r = exact(before.vertices());
    let d: Vec<Rat> = r.iter().map(|r| (0..3).fold(Rat::zero(), |s, i| s.add(&r[i].sub(&Rat::from_f64(x[i])).mul(&Rat::from_f64(n[i]))))).collect();
    let want: Vec<f64> = (0..bk.c.len()).map(|c| clipped(&bk, c, &r, &d).to_f64() / 6.0).collect();
    let total: f64 = want.iter().sum();
    check(near(q.compute_volume(), total), || format!("volume {}, expected {}", q.compute_volume(), total))?;
    for v in q.vertices() {
        let s = (v - x).dot(n);
        check(s <= 1e-9, || format!("vertex {:?} is outside by {}", v, s))?;
    }
    let have: Vec<f64> = (0..q.num_cells()).map(|c| q.keep_cells(&[c]).compute_volume()).filter(|v| *v > 1e-9).collect();
    let want: Vec<f64> = want.into_iter().filter(|v| *v > 1e-9).collect();
    check(have.len() == want.len() && have.iter().zip(&want).all(|(a, b)| near(*a, *b)), || format!("volumes of the cells {:?}, expected {:?}", have, want))?;
    let uses = q.compute_face_cell_connectivity();
    for (i, u) in uses.iter().enumerate() {
        check(u.len() <= 2 && (u.len() < 2 || u[0] != u[1]), || format!("face {} belongs to the cells {:?}", i, u))?;
        check(!u.is_empty() || !generic, || format!("face {} belongs to no cell", i))?;
    }
    if generic {
        let t = q.triangulate().map_err(|e| e.to_string())?;
        check(near(tets_volume(&t)?, total), || format!("the triangulation has the volume {:?}, expected {}", tets_volume(&t), total))?;
        // surface: the boundary faces close up, seen from the cells
        let mut s = Vector3::zeros();
        for c in 0..q.num_cells() {
            let fs = q.get_cell_connectivity(c).unwrap();
            let vs: Vec<Point3<f64>> = fs.iter().flat_map(|f| q.face_vertices(*f).cloned().collect::<Vec<_>>()).collect();
            let m = vs.iter().fold(Vector3::zeros(), |s, v| s + v.coords) / vs.len() as f64;
            for f in fs {
                let a = q.get_face(*f).unwrap().compute_area_vector();
                let x = q.face_vertices(*f).next().unwrap();
                s += if a.dot(&(x.coords - m)) > 0.0 { a } else { -a };
            }
        }
        check(s.norm() < 1e-8, || format!("the surfaces of the cells are not closed: {:?}", s))?;
    }
    Ok(())
}

const CUT: &[&str] = &["PolyMesh3d::intersect_half_space", "mark_vertices", "generate_edge_repr_vertex_labels", "relabel_face_edge_representations", "LineSegment3d::closest_point_to_plane", "PolyMesh3d::compute_volume"];
const TRI: &[&str] = &["PolyMesh3d::triangulate", "PolyMesh::dedup_faces", "Tet4Mesh::try_from(&PolyMesh3d)"];
fn items() -> Vec<Item> {
    let mut v = vec![];
    for (name, k) in complexes() {
        for s in 0..3u64 {
            let k = if s == 0 { k.clone() } else { k.shuffled(&mut Rng(97 * s + k.v.len() as u64)) };
            let k: &'static Complex = Box::leak(Box::new(k));
            let sign = if s == 1 { -1 } else { 1 };
            v.push(dual!(format!("C24: volume of an affine image, {} (numbering {})", name, s), ["PolyMesh3d::compute_volume", "PolyMesh::{get_face,face_vertices}", "ConvexPolygon3d::compute_area_vector"], "", |cx, T| volume::<T>(cx, k, sign)));
            if k.c.len() <= 4 {
                v.push(dual!(format!("C24: triangulation of an affine image, {} (numbering {})", name, s), ["PolyMesh3d::triangulate", "PolyMesh::dedup_faces", "Tet4Mesh::try_from(&PolyMesh3d)", "Triangle3d::point_orientation"], "", |cx, T| triangulation::<T>(cx, k, sign)));
            }
            if k.v.len() <= 10 && s < 2 {
                for times in [1, 2] {
                    v.push(dual!(format!("C24: edges split {} times, {} (numbering {})", times, name, s), ["PolyMesh::{split_edges,split_edges_n_times}"], "", |cx, T| split::<T>(cx, k, times)));
                }
            }
            if s == 2 && k.v.len() <= 12 {
                let planes: [([i64; 3], (i64, i64)); 4] = [([1, 2, 3], (3, 2)), ([2, -1, 1], (1, 3)), ([-1, -1, 0], (-1, 2)), ([1, 1, 1], (1, 1))];
                for (n, c) in planes {
                    v.push(dual!(format!("C24: an affine image of {} cut by the image of the half space {:?} x <= {}/{}", name, n, c.0, c.1), ["PolyMesh3d::intersect_half_space", "mark_vertices", "generate_edge_repr_vertex_labels", "relabel_face_edge_representations", "LineSegment3d::closest_point_to_plane", "PolyMesh3d::compute_volume"], "", |cx, T| cut_affine::<T>(cx, k, n, c, sign)));
                }
            }
        }
    }
    let tet: &'static Complex = Box::leak(Box::new(complexes()[0].1.clone()));
    for pattern in 0..16 {
        v.push(dual!(format!("C24: a tetrahedron cut by any plane with the vertices {:04b} inside", pattern), ["PolyMesh3d::intersect_half_space", "mark_vertices", "generate_edge_repr_vertex_labels", "relabel_face_edge_representations", "LineSegment3d::closest_point_to_plane", "PolyMesh3d::compute_volume"], "", |cx, T| cut_tet::<T>(cx, tet, pattern)));
    }
    for (name, k) in complexes().into_iter().filter(|(n, _)| n.contains("cube") && !n.contains("on a")) {
        let k: &'static Complex = Box::leak(Box::new(k));
        for s in 0..2 {
            v.push(dual!(format!("C24: hexahedra become tetrahedra, {} with any edge lengths (numbering {})", name, s), ["Tet4Mesh::from(&HexMesh)", "PolyMesh::from(&Mesh)", "PolyMesh3d::triangulate", "Tet4Mesh::try_from(&PolyMesh3d)"], "", |cx, T| hex_to_tet::<T>(cx, k, s)));
        }
    }
    for n in 3..7 {
        v.push(dual!(format!("C24: area vector of a closed polygon with {} vertices", n), ["SimplePolygon3d::{area_vector,area}"], format!("{} vertices", n), |cx, T| polygon::<T>(cx, n)));
    }
    v.push(bounded("C24: topology of random polytope meshes", &["PolyMesh::{from_poly_data,compute_face_cell_connectivity,find_boundary_faces,dedup_faces,keep_cells,get_face,face_vertices}"], "random face and cell lists with up to 7 vertices, 6 faces and 4 cells", |e| {
        let mut rng = Rng(e.seed + 41);
        for _ in 0..if e.thorough { 200000 } else { 8000 } {
            let (n, f, c) = random_topology(&mut rng);
            let s = rng.next();
            e.case(|| format!("{} vertices, faces {:?}, cells {:?}", n, f, c), || topology(n, &f, &c, &mut Rng(s)));
        }
    }));
    v.push(bounded("C24: lists that refer to missing vertices or faces are refused", &["PolyMesh::from_poly_data"], "random lists with one index too large", |e| {
        let mut rng = Rng(e.seed + 42);
        for _ in 0..300 {
            let (n, mut f, mut c) = random_topology(&mut rng);
            if rng.bool() {
                f.push(vec![rng.below(n), n + rng.below(2)]);
            } else {
                c.push(vec![f.len() + rng.below(2)]);
            }
            e.case(|| format!("{} vertices, faces {:?}, cells {:?}", n, f, c), || check(std::panic::catch_unwind(|| abstract_mesh(n, &f, &c)).is_err(), || "accepted".into()));
        }
    }));
    v.push(bounded("C24: meshes put side by side", &["PolyMesh::concatenate", "PolyMesh::new_empty"], "up to 4 random meshes", |e| {
        let mut rng = Rng(e.seed + 43);
        for _ in 0..if e.thorough { 20000 } else { 1000 } {
            let parts: Vec<_> = (0..rng.below(5)).map(|_| random_topology(&mut rng)).collect();
            e.case(|| format!("{:?}", parts), || glued(&parts));
        }
        e.case(|| "empty".into(), || check(data(&Abstract::new_empty()) == (vec![], vec![], vec![]), || "not empty".into()));
    }));
    from_items!(v; Tri3d2Connectivity 3, Quad4d2Connectivity 4, Tri6d2Connectivity 6, Quad9d2Connectivity 9, Tet4Connectivity 4, Tet10Connectivity 10, Hex8Connectivity 8, Hex20Connectivity 20, Hex27Connectivity 27);
    v.push(bounded("C24: random shapes keep their volume under triangulation", TRI, "projective images of 11 complexes with any numbering", |e| {
        let mut rng = Rng(e.seed + 51);
        for i in 0..if e.thorough { 6000 } else { 440 } {
            let all = complexes();
            let k = all[i % all.len()].1.shuffled(&mut rng);
            let v = shape(&mut rng, &k);
            let r = exact(&v);
            let zero = vec![Rat::zero(); v.len()];
            e.case(|| format!("{:?} {:?}", k, v), || {
                let want = (0..k.c.len()).fold(Rat::zero(), |s, c| s.add(&clipped(&k, c, &r, &zero))).to_f64() / 6.0;
                let p: PolyMesh3d<f64> = PolyMesh::from_poly_data(v.clone(), NestedVec::from(&k.f), NestedVec::from(&k.c));
                check(near(p.compute_volume(), want), || format!("volume {}, expected {}", p.compute_volume(), want))?;
                let t = p.triangulate().map_err(|e| e.to_string())?;
                let (f, c) = lists(&t);
                triangulated(&k, &f, &c)?;
                check(near(tets_volume(&t)?, want), || format!("the tetrahedra have the volume {:?}, expected {}", tets_volume(&t), want))?;
                let m = Tet4Mesh::try_from(&t).map_err(|e| e.to_string())?;
                let q: Vec<Vec<f64>> = m.vertices().iter().map(|v| v.coords.as_slice().to_vec()).collect();
                check(m.connectivity().len() == c.len(), || "number of cells".into())?;
                for e in m.connectivity() {
                    check(tiling::det(&q, &e.0) > 0.0, || format!("cell {:?} is not positively oriented", e))?;
                }
                Ok(())
            });
        }
    }));
    v.push(bounded("C24: random shapes cut by random planes", CUT, "projective images of 11 complexes with any numbering, one or two planes in general position", |e| {
        let mut rng = Rng(e.seed + 52);
        for i in 0..if e.thorough { 20000 } else { 900 } {
            let all = complexes();
            let k = all[i % all.len()].1.shuffled(&mut rng);
            let v = shape(&mut rng, &k);
            let planes: Vec<(Point3<f64>, Vector3<f64>)> = (0..1 + i / all.len() % 2)
                .map(|_| {
                    let (a, b, t) = (v[rng.below(v.len())], v[rng.below(v.len())], 0.1 + 0.8 * rng.unit());
                    (a + (b - a) * t, Vector3::from_fn(|_, _| rng.unit() * 2.0 - 1.0))
                })
                .collect();
            e.case(|| format!("{:?} {:?} {:?}", k, v, planes), || cut_shape(&k, &v, &planes, true));
        }
    }));
    v.push(bounded("C24: complexes cut by planes through vertices, edges and faces", CUT, "11 complexes with any numbering, planes n.x = c with n in {-2..2}^3 through vertices", |e| {
        let mut rng = Rng(e.seed + 53);
        for i in 0..if e.thorough { 20000 } else { 1200 } {
            let all = complexes();
            let k = all[i % all.len()].1.shuffled(&mut rng);
            let v: Vec<Point3<f64>> = k.v.iter().map(|x| Point3::new(x[0] as f64, x[1] as f64, x[2] as f64)).collect();
            let mut n = Vector3::zeros();
            while n == Vector3::zeros() {
                n = Vector3::from_fn(|_, _| rng.int(-2, 2) as f64);
                if rng.bool() {
                    let a = rng.below(3);
                    n = Vector3::zeros();
                    n[a] = if rng.bool() { 1.0 } else { -1.0 };
                }
            }
            let x = v[rng.below(v.len())];
            // unit normals along the axes keep the arithmetic exact
            e.case(|| format!("{:?} {:?} {:?}", k, x, n), || cut_shape(&k, &v, &[(x, n)], false));
        }
    }));
    v.push(bounded("C24: intersections with convex polyhedra", &["PolyMesh3d::intersect_convex_polyhedron", "ConvexPolyhedron::get_face for Hexahedron, Tetrahedron"], "grids of cubes with random boxes and random tetrahedra", |e| {
        let mut rng = Rng(e.seed + 54);
        for i in 0..if e.thorough { 4000 } else { 200 } {
            let all = complexes();
            let k = all[[1, 8, 9, 10][i % 4]].1.shuffled(&mut rng);
            let v: Vec<Point3<f64>> = k.v.iter().map(|x| Point3::new(x[0] as f64, x[1] as f64, x[2] as f64)).collect();
            let p: PolyMesh3d<f64> = PolyMesh::from_poly_data(v.clone(), NestedVec::from(&k.f), NestedVec::from(&k.c));
            if rng.bool() {
                let lo: Vec<f64> = (0..3).map(|_| rng.unit() * 2.0 - 0.7).collect();
                let hi: Vec<f64> = (0..3).map(|d| lo[d] + 0.1 + rng.unit()).collect();
                let c = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]
                    .map(|b: [usize; 3]| Point3::from(Vector3::from_fn(|d, _| if b[d] == 1 { hi[d] } else { lo[d] })));
                e.case(|| format!("{:?} with the box {:?} {:?}", k, lo, hi), || {
                    let q = p.intersect_convex_polyhedron(&Hexahedron::from_vertices(c));
                    let want: f64 = (0..3).map(|d| {
                        let m = k.v.iter().map(|x| x[d]).max().unwrap() as f64;
                        (hi[d].min(m) - lo[d].max(0.0)).max(0.0)
                    }).product();
                    check(near(q.compute_volume(), want), || format!("volume {}, expected {}", q.compute_volume(), want))
                });
            } else {
                let a: [Point3<f64>; 4] = std::array::from_fn(|_| Point3::from(Vector3::from_fn(|_, _| rng.unit() * 3.0 - 0.5)));
                let q: Vec<Vec<f64>> = a.iter().map(|v| v.coords.as_slice().to_vec()).collect();
                let det = tiling::det(&q, &[0, 1, 2, 3]);
                if det.abs() < 0.05 {
                    continue;
                }
                let a = if det > 0.0 { a } else { [a[1], a[0], a[2], a[3]] };
                e.case(|| format!("{:?} with the tetrahedron {:?}", k, a), || {
                    let q = p.intersect_convex_polyhedron(&Tetrahedron::from_vertices(a));
                    // the other way round: the tetrahedron cut by the planes of the box
                    let t = complexes()[0].1.clone();
                    let mut w: PolyMesh3d<f64> = PolyMesh::from_poly_data(a.to_vec(), NestedVec::from(&t.f), NestedVec::from(&t.c));
                    for d in 0..3 {
                        let m = k.v.iter().map(|x| x[d]).max().unwrap() as f64;
                        for (c, s) in [(0.0, -1.0), (m, 1.0)] {
                            let mut n = Vector3::zeros();
                            n[d] = s;
                            w = w.intersect_half_space(&HalfSpace::from_point_and_normal(Point3::from(n * s * c), Unit::new_unchecked(n)));
                        }
                    }
                    check(near(q.compute_volume(), w.compute_volume()), || format!("volume {}, expected {}", q.compute_volume(), w.compute_volume()))
                });
            }
        }
    }));
    v.push(bounded("C24: what is not made of tetrahedra is no tetrahedral mesh", &["Tet4Mesh::try_from(&PolyMesh3d)"], "10 complexes with any numbering, tetrahedra with split edges, four faces that do not close", |e| {
        let mut rng = Rng(e.seed + 55);
        for (name, k) in complexes() {
            let k = k.shuffled(&mut rng);
            let p: PolyMesh3d<f64> = k.mesh(|x| Point3::new(x[0] as f64, x[1] as f64, x[2] as f64));
            let ok = name.contains("tetrahedr");
            e.case(|| name.to_string(), || check(Tet4Mesh::try_from(&p).is_ok() == ok, || format!("accepted: {}", !ok)));
            let mut p = p.clone();
            p.split_edges();
            e.case(|| format!("{} with split edges", name), || check(Tet4Mesh::try_from(&p).is_err(), || "accepted".into()));
        }
        let five: Vec<Point3<f64>> = vec![[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]].into_iter().map(|x: [i64; 3]| Point3::new(x[0] as f64, x[1] as f64, x[2] as f64)).collect();
        for f in [vec![vec![0, 1, 2], vec![0, 1, 3], vec![0, 2, 3], vec![1, 2, 4]], vec![vec![0, 1, 2], vec![2, 1, 0], vec![0, 2, 3], vec![1, 2, 3]]] {
            let p: PolyMesh3d<f64> = PolyMesh::from_poly_data(five.clone(), NestedVec::from(&f), NestedVec::from(&vec![vec![0, 1, 2, 3]]));
            e.case(|| format!("{:?}", f), || check(Tet4Mesh::try_from(&p).is_err(), || "accepted".into()));
        }
    }));
    v
}
fn main() {
    symcore::run::main(items())
}
