//! C08: global assembly.
use contracts::rng::*;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::connectivity::{Quad4d2Connectivity, Tri3d2Connectivity};
use fenris::mesh::{QuadMesh2d, TriangleMesh2d};
use fenris::nalgebra::{DMatrixViewMut, DVector, DVectorView, DVectorViewMut, Point2};
use fenris::nalgebra_sparse::{pattern::SparsityPattern, CsrMatrix};
use fenris_paradis::DisjointSubsets;
use std::collections::{BTreeMap, BTreeSet};
use symcore::run::{bounded, Item};
use symcore::{contract, Cx, SReal};

/// An arbitrary element assembler: arbitrary connectivity, arbitrary contributions, optionally an element that fails.
#[derive(Clone, Debug)]
struct Asm<T> {
    s: usize,
    num_nodes: usize,
    conn: Vec<Vec<usize>>,
    mats: Vec<Vec<T>>,
    vecs: Vec<Vec<T>>,
    scalars: Vec<T>,
    fail: Option<usize>,
}
impl<T: SReal> Asm<T> {
    fn new(cx: &mut Cx<T>, name: &str, s: usize, num_nodes: usize, conn: &[&[usize]]) -> Self {
        let n = |e: usize| conn[e].len() * s;
        Asm {
            s,
            num_nodes,
            conn: conn.iter().map(|c| c.to_vec()).collect(),
            mats: (0..conn.len()).map(|e| cx.reals(&format!("{}A{}_", name, e), n(e) * n(e))).collect(),
            vecs: (0..conn.len()).map(|e| cx.reals(&format!("{}b{}_", name, e), n(e))).collect(),
            scalars: cx.reals(&format!("{}c", name), conn.len()),
            fail: None,
        }
    }
    fn pattern(&self) -> BTreeSet<(usize, usize)> {
        let mut r = BTreeSet::new();
        for c in &self.conn {
            for a in c {
                for b in c {
                    for i in 0..self.s {
                        for j in 0..self.s {
                            r.insert((a * self.s + i, b * self.s + j));
                        }
                    }
                }
            }
        }
        r
    }
    fn matrix(&self) -> BTreeMap<(usize, usize), T> {
        let (s, mut r) = (self.s, BTreeMap::new());
        for (e, c) in self.conn.iter().enumerate() {
            let n = s * c.len();
            for x in 0..n {
                for y in 0..n {
                    *r.entry((c[x / s] * s + x % s, c[y / s] * s + y % s)).or_insert(T::zero()) += self.mats[e][y * n + x];
                }
            }
        }
        r
    }
    fn vector(&self) -> Vec<T> {
        let mut v = vec![T::zero(); self.s * self.num_nodes];
        for (e, c) in self.conn.iter().enumerate() {
            for x in 0..self.s * c.len() {
                v[c[x / self.s] * self.s + x % self.s] += self.vecs[e][x];
            }
        }
        v
    }
    fn scalar(&self) -> T {
        self.scalars.iter().fold(T::zero(), |a, b| a + *b)
    }
    fn check(&self, e: usize) -> eyre::Result<()> {
        if self.fail == Some(e) {
            return Err(eyre::eyre!("element {} fails", e));
        }
        Ok(())
    }
    fn colors(&self) -> Vec<DisjointSubsets> {
        color_nodes(&Conn(self))
    }
}
struct Conn<'a, T>(&'a Asm<T>);
impl<'a, T> fenris::space::FiniteElementConnectivity for Conn<'a, T> {
    fn num_elements(&self) -> usize {
        self.0.conn.len()
    }
    fn num_nodes(&self) -> usize {
        self.0.num_nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.0.conn[e].len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], e: usize) {
        nodes.copy_from_slice(&self.0.conn[e])
    }
}
impl<T> ElementConnectivityAssembler for Asm<T> {
    fn solution_dim(&self) -> usize {
        self.s
    }
    fn num_elements(&self) -> usize {
        self.conn.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.conn[e].len()
    }
    fn populate_element_nodes(&self, out: &mut [usize], e: usize) {
        out.copy_from_slice(&self.conn[e])
    }
}
impl<T: SReal> ElementMatrixAssembler<T> for Asm<T> {
    fn assemble_element_matrix_into(&self, e: usize, mut out: DMatrixViewMut<T>) -> eyre::Result<()> {
        self.check(e)?;
        let n = self.s * self.conn[e].len();
        assert_eq!(out.shape(), (n, n));
        for y in 0..n {
            for x in 0..n {
                out[(x, y)] = self.mats[e][y * n + x];
            }
        }
        Ok(())
    }
}
impl<T: SReal> ElementVectorAssembler<T> for Asm<T> {
    fn assemble_element_vector_into(&self, e: usize, mut out: DVectorViewMut<T>) -> eyre::Result<()> {
        self.check(e)?;
        assert_eq!(out.len(), self.vecs[e].len());
        for (o, v) in out.iter_mut().zip(&self.vecs[e]) {
            *o = *v;
        }
        Ok(())
    }
}
impl<T: SReal> ElementScalarAssembler<T> for Asm<T> {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<T> {
        self.check(e)?;
        Ok(self.scalars[e])
    }
}
fn pattern_ok(p: &SparsityPattern, n: usize, want: &BTreeSet<(usize, usize)>) -> Result<(), String> {
    if p.major_dim() != n || p.minor_dim() != n {
        return Err(format!("pattern is {} x {}, expected {} x {}", p.major_dim(), p.minor_dim(), n, n));
    }
    if SparsityPattern::try_from_offsets_and_indices(n, n, p.major_offsets().to_vec(), p.minor_indices().to_vec()).is_err() {
        return Err(format!("invalid pattern: offsets {:?} columns {:?}", p.major_offsets(), p.minor_indices()));
    }
    let got: Vec<(usize, usize)> = (0..n).flat_map(|i| p.get_lane(i).unwrap().iter().map(move |j| (i, *j)).collect::<Vec<_>>()).collect();
    let want: Vec<_> = want.iter().copied().collect();
    if got != want {
        return Err(format!("pattern {:?}, expected {:?}", got, want));
    }
    Ok(())
}
fn ensure_pattern<T: SReal>(cx: &mut Cx<T>, p: &SparsityPattern, a: &Asm<T>) {
    let r = pattern_ok(p, a.s * a.num_nodes, &a.pattern());
    cx.ensure("the pattern has exactly the pairs that share an element", r.is_ok());
}
fn ensure_csr<T: SReal>(cx: &mut Cx<T>, name: &str, m: &CsrMatrix<T>, base: &[T], want: &BTreeMap<(usize, usize), T>) {
    for (k, (i, j, v)) in m.triplet_iter().enumerate() {
        let w = want.get(&(i, j)).copied().unwrap_or(T::zero()) + base[k];
        cx.ensure_eq(&format!("{}: entry", name), *v, w);
    }
}
const CONN: [(usize, &[&[usize]]); 8] = [
    (2, &[]),
    (5, &[&[0, 1, 2], &[2, 1, 3]]),
    (4, &[&[3, 0], &[1], &[2, 0]]),
    (3, &[&[0, 1], &[1, 0], &[0, 1]]),
    (4, &[&[2, 3, 0, 1], &[3], &[], &[1, 3]]),
    (3, &[&[2, 2, 0], &[1, 1], &[0]]),
    (6, &[&[5, 1], &[1, 4], &[4, 5], &[0, 3]]),
    (3, &[&[1, 0, 1, 0]]),
];
fn serial<T: SReal>(cx: &mut Cx<T>, k: usize, s: usize) {
    let (n, conn) = CONN[k];
    let a = Asm::new(cx, "", s, n, conn);
    let asm = CsrAssembler::<T>::default();
    let p = asm.assemble_pattern(&a);
    ensure_pattern(cx, &p, &a);
    let m = asm.assemble(&a);
    cx.ensure("no error", m.is_ok());
    let m = m.unwrap();
    ensure_pattern(cx, m.pattern(), &a);
    ensure_csr(cx, "assembled matrix", &m, &vec![T::zero(); m.nnz()], &a.matrix());
    // assembling into a matrix adds to what it holds; the assembler's buffers hold the previous matrix's data
    let other = Asm::new(cx, "o", s, 3, &[&[2, 1, 0]]);
    cx.ensure("no error", asm.assemble(&other).is_ok());
    let base = cx.reals("C", p.nnz());
    let mut m = CsrMatrix::try_from_pattern_and_values(p, base.clone()).unwrap();
    cx.ensure("no error", asm.assemble_into_csr(&mut m, &a).is_ok());
    ensure_csr(cx, "assembled into a matrix", &m, &base, &a.matrix());
}
fn parallel<T: SReal>(cx: &mut Cx<T>, k: usize, s: usize) {
    let (n, conn) = CONN[k];
    let a = Asm::new(cx, "", s, n, conn);
    let colors = a.colors();
    let asm = CsrParAssembler::<T>::default();
    let p = asm.assemble_pattern(&a);
    ensure_pattern(cx, &p, &a);
    let m = asm.assemble(&colors, &a);
    cx.ensure("no error", m.is_ok());
    let m = m.unwrap();
    ensure_pattern(cx, m.pattern(), &a);
    ensure_csr(cx, "assembled matrix", &m, &vec![T::zero(); m.nnz()], &a.matrix());
    let base = cx.reals("C", p.nnz());
    let mut m = CsrMatrix::try_from_pattern_and_values(p, base.clone()).unwrap();
    cx.ensure("no error", asm.assemble_into_csr(&mut m, &colors, &a).is_ok());
    ensure_csr(cx, "assembled into a matrix", &m, &base, &a.matrix());
}
fn vectors<T: SReal>(cx: &mut Cx<T>, k: usize, s: usize) {
    let (n, conn) = CONN[k];
    let a = Asm::new(cx, "", s, n, conn);
    let (colors, w) = (a.colors(), a.vector());
    let (ser, par) = (VectorAssembler::<T>::default(), VectorParAssembler::<T>::default());
    let base = cx.reals("B", s * n);
    for round in 0..2 {
        let v = if round == 0 { ser.assemble_vector(&a) } else { par.assemble_vector(&colors, &a) };
        cx.ensure("no error", v.is_ok());
        cx.ensure_eqs("assembled vector", v.unwrap().as_slice(), &w);
        let mut v = DVector::from_vec(base.clone());
        let r = if round == 0 { ser.assemble_vector_into(&mut v, &a) } else { par.assemble_vector_into(&mut v, &colors, &a) };
        cx.ensure("no error", r.is_ok());
        let w2: Vec<T> = w.iter().zip(&base).map(|(a, b)| *a + *b).collect();
        cx.ensure_eqs("assembled into a vector", v.as_slice(), &w2);
    }
    for r in [assemble_scalar(&a), par_assemble_scalar(&a)] {
        cx.ensure("no error", r.is_ok());
        cx.ensure_eq("assembled scalar", r.unwrap(), a.scalar());
    }
}
/// One set of assemblers used for problems of different sizes in turn: nothing of an earlier problem remains.
fn reuse<T: SReal>(cx: &mut Cx<T>) {
    let (cs, cp) = (CsrAssembler::<T>::default(), CsrParAssembler::<T>::default());
    let (vs, vp) = (VectorAssembler::<T>::default(), VectorParAssembler::<T>::default());
    for (i, (k, s)) in [(3, 1), (3, 2), (1, 2), (1, 1), (4, 1), (3, 3), (3, 1), (2, 2)].into_iter().enumerate() {
        let (n, conn) = CONN[k];
        let a = Asm::new(cx, &format!("r{}", i), s, n, conn);
        let colors = a.colors();
        let m = cs.assemble(&a).unwrap();
        ensure_csr(cx, "serial", &m, &vec![T::zero(); m.nnz()], &a.matrix());
        let m = cp.assemble(&colors, &a).unwrap();
        ensure_csr(cx, "parallel", &m, &vec![T::zero(); m.nnz()], &a.matrix());
        cx.ensure_eqs("serial vector", vs.assemble_vector(&a).unwrap().as_slice(), &a.vector());
        cx.ensure_eqs("parallel vector", vp.assemble_vector(&colors, &a).unwrap().as_slice(), &a.vector());
    }
}
/// An element that fails makes every assembly fail, and the assemblers stay usable.
fn errors<T: SReal>(cx: &mut Cx<T>, k: usize) {
    let (n, conn) = CONN[k];
    let good = Asm::new(cx, "", 2, n, conn);
    let colors = good.colors();
    let (cs, cp) = (CsrAssembler::<T>::default(), CsrParAssembler::<T>::default());
    let (vs, vp) = (VectorAssembler::<T>::default(), VectorParAssembler::<T>::default());
    for e in 0..conn.len() {
        let a = Asm { fail: Some(e), ..good.clone() };
        cx.ensure("serial matrix reports the error", cs.assemble(&a).is_err());
        cx.ensure("parallel matrix reports the error", cp.assemble(&colors, &a).is_err());
        cx.ensure("serial vector reports the error", vs.assemble_vector(&a).is_err());
        cx.ensure("parallel vector reports the error", vp.assemble_vector(&colors, &a).is_err());
        cx.ensure("serial scalar reports the error", assemble_scalar(&a).is_err());
        cx.ensure("parallel scalar reports the error", par_assemble_scalar(&a).is_err());
        let m = cs.assemble(&good).unwrap();
        ensure_csr(cx, "after an error", &m, &vec![T::zero(); m.nnz()], &good.matrix());
        let m = cp.assemble(&colors, &good).unwrap();
        ensure_csr(cx, "after an error", &m, &vec![T::zero(); m.nnz()], &good.matrix());
        cx.ensure_eqs("after an error", vs.assemble_vector(&good).unwrap().as_slice(), &good.vector());
        cx.ensure_eqs("after an error", vp.assemble_vector(&colors, &good).unwrap().as_slice(), &good.vector());
    }
}
fn gather<T: SReal>(cx: &mut Cx<T>, s: usize, idx: &[usize], n: usize) {
    let g = cx.reals("g", s * n);
    let l = cx.reals("l", s * idx.len());
    let mut out = DVector::from_element(s * idx.len(), T::ratio(13, 3));
    gather_global_to_local(&DVector::from_vec(g.clone()), &mut out, idx, s);
    for (k, i) in idx.iter().enumerate() {
        for j in 0..s {
            cx.ensure_eq("gathered", out[k * s + j], g[i * s + j]);
        }
    }
    let mut y = DVector::from_vec(g.clone());
    add_local_to_global(DVectorView::from(&DVector::from_vec(l.clone())), &mut y, idx, s);
    for i in 0..n {
        for j in 0..s {
            let w = (0..idx.len()).filter(|k| idx[*k] == i).fold(g[i * s + j], |a, k| a + l[k * s + j]);
            cx.ensure_eq("added", y[i * s + j], w);
        }
    }
}
fn aggregate<T: SReal>(cx: &mut Cx<T>, parts: &[&[&[usize]]], s: usize) {
    let asms: Vec<Asm<T>> = parts.iter().enumerate().map(|(i, c)| Asm::new(cx, &format!("p{}", i), s, 4, c)).collect();
    let flat = Asm {
        s,
        num_nodes: 4,
        conn: asms.iter().flat_map(|a| a.conn.clone()).collect(),
        mats: asms.iter().flat_map(|a| a.mats.clone()).collect(),
        vecs: asms.iter().flat_map(|a| a.vecs.clone()).collect(),
        scalars: asms.iter().flat_map(|a| a.scalars.clone()).collect(),
        fail: None,
    };
    let agg = AggregateElementAssembler::from_assemblers(&asms);
    same(cx, &agg, &flat, |v| v, |v| v, |v| v, |i| i, 4);
    let m = CsrAssembler::<T>::default().assemble(&agg).unwrap();
    ensure_pattern(cx, m.pattern(), &flat);
    ensure_csr(cx, "aggregate", &m, &vec![T::zero(); m.nnz()], &flat.matrix());
}
fn same<T: SReal, A>(cx: &mut Cx<T>, x: &A, want: &Asm<T>, fm: fn(T) -> T, fv: fn(T) -> T, fs: fn(T) -> T, nodes: fn(usize) -> usize, num_nodes: usize)
where
    A: ElementMatrixAssembler<T> + ElementVectorAssembler<T> + ElementScalarAssembler<T>,
{
    cx.ensure("dimensions", x.solution_dim() == want.s && x.num_elements() == want.conn.len() && x.num_nodes() == num_nodes);
    for e in 0..want.conn.len() {
        let mut n = vec![99; want.conn[e].len()];
        cx.ensure("element node count", x.element_node_count(e) == n.len());
        x.populate_element_nodes(&mut n, e);
        cx.ensure("element nodes", n == want.conn[e].iter().map(|i| nodes(*i)).collect::<Vec<_>>());
        let w: Vec<T> = want.mats[e].iter().map(|v| fm(*v)).collect();
        cx.ensure_eqs("element matrix", x.assemble_element_matrix(e).unwrap().as_slice(), &w);
        let w: Vec<T> = want.vecs[e].iter().map(|v| fv(*v)).collect();
        cx.ensure_eqs("element vector", x.assemble_element_vector(e).unwrap().as_slice(), &w);
        cx.ensure_eq("element scalar", x.assemble_element_scalar(e).unwrap(), fs(want.scalars[e]));
    }
}
fn wrappers<T: SReal>(cx: &mut Cx<T>) {
    let a = Asm::new(cx, "", 2, 4, CONN[4].1);
    let id: fn(T) -> T = |v| v;
    let f: fn(T) -> T = |v| v * v + T::int(3) * v + T::int(2);
    same(cx, &a.clone().map_element_nodes(9, |i| 2 * i + 1), &a, id, id, id, |i| 2 * i + 1, 9);
    let tm = a.clone().transform_element_matrix(move |mut m: DMatrixViewMut<T>| {
        m.iter_mut().for_each(|v| *v = f(*v));
        Ok(())
    });
    same(cx, &tm, &a, f, id, id, |i| i, 4);
    let tv = a.clone().transform_element_vector(move |mut m: DVectorViewMut<T>| {
        m.iter_mut().for_each(|v| *v = f(*v));
        Ok(())
    });
    same(cx, &tv, &a, id, f, id, |i| i, 4);
    let ts = a.clone().transform_element_scalar(move |v: T| Ok(f(v)));
    same(cx, &ts, &a, id, id, f, |i| i, 4);
    let bad = Asm { fail: Some(1), ..a.clone() };
    for (x, ok) in [(&a, true), (&bad, false)] {
        let fails = x.clone().transform_element_matrix(|_: DMatrixViewMut<T>| Err(eyre::eyre!("no")));
        cx.ensure("a failing transformation fails", fails.assemble_element_matrix(1).is_err());
        let fails = x.clone().transform_element_vector(|_: DVectorViewMut<T>| Err(eyre::eyre!("no")));
        cx.ensure("a failing transformation fails", fails.assemble_element_vector(1).is_err());
        let fails = x.clone().transform_element_scalar(|_: T| Err(eyre::eyre!("no")));
        cx.ensure("a failing transformation fails", fails.assemble_element_scalar(1).is_err());
        cx.ensure("errors pass through", x.clone().transform_element_matrix(|_: DMatrixViewMut<T>| Ok(())).assemble_element_matrix(1).is_ok() == ok);
        cx.ensure("errors pass through", x.clone().transform_element_vector(|_: DVectorViewMut<T>| Ok(())).assemble_element_vector(1).is_ok() == ok);
        cx.ensure("errors pass through", x.clone().transform_element_scalar(|v: T| Ok(v)).assemble_element_scalar(1).is_ok() == ok);
        cx.ensure("errors pass through", x.clone().map_element_nodes(4, |i| i).assemble_element_scalar(1).is_ok() == ok);
        let one = [x.clone()];
        let g = AggregateElementAssembler::from_assemblers(&one);
        cx.ensure("errors pass through", g.assemble_element_matrix(1).is_ok() == ok && g.assemble_element_vector(1).is_ok() == ok && g.assemble_element_scalar(1).is_ok() == ok);
    }
}
macro_rules! per {
    ($($name:ident $text:expr, $b:expr, [$($f:expr),*], |$cx:ident| $e:expr;)*) => { $( contract!($name, $text, [$($f),*], bound = $b, |$cx, T| { $e; }); )* };
}
per! {
    S0 "serial matrix 0 s=1", "no elements", ["CsrAssembler::assemble"], |cx| serial(cx, 0, 1);
    S1 "serial matrix 1 s=1", "2 elements", ["CsrAssembler::assemble", "CsrAssembler::assemble_into_csr", "CsrAssembler::assemble_pattern", "add_element_row_to_csr_row"], |cx| serial(cx, 1, 1);
    S2 "serial matrix 1 s=2", "2 elements", ["CsrAssembler::assemble", "CsrAssembler::assemble_into_csr"], |cx| serial(cx, 1, 2);
    S3 "serial matrix 2 s=3", "3 elements", ["CsrAssembler::assemble", "CsrAssembler::assemble_into_csr"], |cx| serial(cx, 2, 3);
    S4 "serial matrix 3 s=2", "3 elements", ["CsrAssembler::assemble", "CsrAssembler::assemble_into_csr"], |cx| serial(cx, 3, 2);
    S5 "serial matrix 4 s=2", "4 elements", ["CsrAssembler::assemble", "CsrAssembler::assemble_into_csr"], |cx| serial(cx, 4, 2);
    S6 "serial matrix 5 s=2", "3 elements, repeated nodes", ["CsrAssembler::assemble", "CsrAssembler::assemble_into_csr"], |cx| serial(cx, 5, 2);
    S7 "serial matrix 6 s=1", "4 elements", ["CsrAssembler::assemble", "CsrAssembler::assemble_into_csr"], |cx| serial(cx, 6, 1);
    S8 "serial matrix 7 s=2", "1 element, repeated nodes", ["CsrAssembler::assemble", "CsrAssembler::assemble_into_csr"], |cx| serial(cx, 7, 2);
    P0 "parallel matrix 0 s=1", "no elements", ["CsrParAssembler::assemble"], |cx| parallel(cx, 0, 1);
    P1 "parallel matrix 1 s=1", "2 elements", ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr", "CsrParAssembler::assemble_pattern", "color_nodes"], |cx| parallel(cx, 1, 1);
    P2 "parallel matrix 1 s=2", "2 elements", ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr"], |cx| parallel(cx, 1, 2);
    P3 "parallel matrix 2 s=3", "3 elements", ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr"], |cx| parallel(cx, 2, 3);
    P4 "parallel matrix 3 s=2", "3 elements", ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr"], |cx| parallel(cx, 3, 2);
    P5 "parallel matrix 4 s=2", "4 elements", ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr"], |cx| parallel(cx, 4, 2);
    P6 "parallel matrix 5 s=2", "3 elements, repeated nodes", ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr"], |cx| parallel(cx, 5, 2);
    P7 "parallel matrix 6 s=1", "4 elements", ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr"], |cx| parallel(cx, 6, 1);
    P8 "parallel matrix 7 s=2", "1 element, repeated nodes", ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr"], |cx| parallel(cx, 7, 2);
    V1 "vector and scalar 1 s=1", "2 elements", ["VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar", "add_local_to_global"], |cx| vectors(cx, 1, 1);
    V2 "vector and scalar 2 s=3", "3 elements", ["VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar", "add_local_to_global"], |cx| vectors(cx, 2, 3);
    V3 "vector and scalar 4 s=2", "4 elements", ["VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar", "add_local_to_global"], |cx| vectors(cx, 4, 2);
    V4 "vector and scalar 5 s=2", "3 elements, repeated nodes", ["VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar", "add_local_to_global"], |cx| vectors(cx, 5, 2);
    V5 "vector and scalar 6 s=2", "4 elements", ["VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar", "add_local_to_global"], |cx| vectors(cx, 6, 2);
    V6 "vector and scalar 0 s=2", "no elements", ["VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar"], |cx| vectors(cx, 0, 2);
    E1 "errors 1", "2 elements, 2 colours", ["CsrAssembler::assemble", "CsrParAssembler::assemble", "VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar"], |cx| errors(cx, 1);
    E2 "errors 6", "4 elements", ["CsrAssembler::assemble", "CsrParAssembler::assemble", "VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar"], |cx| errors(cx, 6);
    G1 "gather and add s=1", "4 indices, 2 of them equal", ["gather_global_to_local", "add_local_to_global"], |cx| gather(cx, 1, &[3, 0, 3, 1], 5);
    G2 "gather and add s=2", "3 indices", ["gather_global_to_local", "add_local_to_global"], |cx| gather(cx, 2, &[1, 0, 1], 3);
    G3 "gather and add s=3", "2 indices", ["gather_global_to_local", "add_local_to_global"], |cx| gather(cx, 3, &[2, 0], 3);
    A1 "aggregate of three", "2, 1 and 2 elements", ["AggregateElementAssembler"], |cx| aggregate(cx, &[&[&[0, 1], &[2]], &[&[3, 1, 0]], &[&[1], &[2, 0]]], 2);
    A2 "aggregate with empty parts", "0, 2, 0, 0, 1 and 0 elements", ["AggregateElementAssembler"], |cx| aggregate(cx, &[&[], &[&[0, 1], &[2]], &[], &[], &[&[3, 1, 0]], &[]], 1);
    U "assemblers used in turn", "8 problems of dimensions 1 to 3", ["CsrAssembler::assemble", "CsrParAssembler::assemble", "VectorAssembler", "VectorParAssembler"], |cx| reuse(cx);
    W "wrappers", "4 elements", ["MapElementNodes", "TransformElementMatrix", "TransformElementVector", "TransformElementScalar", "AggregateElementAssembler"], |cx| wrappers(cx);
}
fn assembler_of(r: &mut Rng, s: usize, num_nodes: usize, conn: Vec<Vec<usize>>) -> Asm<f64> {
    let mut v = |n: usize| (0..n).map(|_| r.int(-8, 8) as f64).collect::<Vec<_>>();
    Asm {
        s,
        num_nodes,
        mats: conn.iter().map(|c| v(c.len() * s * c.len() * s)).collect(),
        vecs: conn.iter().map(|c| v(c.len() * s)).collect(),
        scalars: v(conn.len()),
        conn,
        fail: None,
    }
}
fn csr_ok(m: &CsrMatrix<f64>, a: &Asm<f64>, base: f64) -> Result<(), String> {
    pattern_ok(m.pattern(), a.s * a.num_nodes, &a.pattern())?;
    let w = a.matrix();
    for (i, j, v) in m.triplet_iter() {
        if *v != w[&(i, j)] + base {
            return Err(format!("entry ({}, {}) is {}, expected {}", i, j, v, w[&(i, j)] + base));
        }
    }
    Ok(())
}
/// All assemblies of integer contributions: sums are exact, whatever the order.
fn whole(a: &Asm<f64>, parallel: bool) -> Result<(), String> {
    let e = |x: eyre::Report| format!("unexpected error {}", x);
    let cs = CsrAssembler::<f64>::default();
    pattern_ok(&cs.assemble_pattern(a), a.s * a.num_nodes, &a.pattern())?;
    let m = cs.assemble(a).map_err(e)?;
    csr_ok(&m, a, 0.0)?;
    let w = a.vector();
    let v = VectorAssembler::<f64>::default().assemble_vector(a).map_err(e)?;
    if v.as_slice() != &w[..] {
        return Err(format!("vector {:?}, expected {:?}", v.as_slice(), w));
    }
    if assemble_scalar(a).map_err(e)? != a.scalar() {
        return Err("scalar".into());
    }
    if parallel {
        let colors = a.colors();
        let mut seen = vec![false; a.conn.len()];
        for c in &colors {
            for (l, s) in c.labels().iter().zip(c.subsets().iter()) {
                if seen[*l] || s != &a.conn[*l][..] {
                    return Err(format!("colouring: element {}", l));
                }
                seen[*l] = true;
            }
        }
        if seen.contains(&false) {
            return Err("colouring misses an element".into());
        }
        let cp = CsrParAssembler::<f64>::default();
        pattern_ok(&cp.assemble_pattern(a), a.s * a.num_nodes, &a.pattern()).map_err(|x| format!("parallel {}", x))?;
        let m2 = cp.assemble(&colors, a).map_err(e)?;
        csr_ok(&m2, a, 0.0).map_err(|x| format!("parallel {}", x))?;
        let mut m3 = m2;
        m3.values_mut().iter_mut().for_each(|v| *v = 3.0);
        cp.assemble_into_csr(&mut m3, &colors, a).map_err(e)?;
        csr_ok(&m3, a, 3.0).map_err(|x| format!("parallel, into a matrix: {}", x))?;
        let v = VectorParAssembler::<f64>::default().assemble_vector(&colors, a).map_err(e)?;
        if v.as_slice() != &w[..] {
            return Err(format!("parallel vector {:?}, expected {:?}", v.as_slice(), w));
        }
        if par_assemble_scalar(a).map_err(e)? != a.scalar() {
            return Err("parallel scalar".into());
        }
    }
    Ok(())
}
fn main() {
    let mut items: Vec<Item> = vec![];
    macro_rules! one { ($($m:ident)*) => { $( items.push(Item::C(Box::new($m))); )* } }
    one!(S0 S1 S2 S3 S4 S5 S6 S7 S8 P0 P1 P2 P3 P4 P5 P6 P7 P8 V1 V2 V3 V4 V5 V6 E1 E2 G1 G2 G3 A1 A2 U W);
    const FNS: [&str; 8] = ["CsrAssembler", "CsrParAssembler", "VectorAssembler", "VectorParAssembler", "assemble_scalar", "par_assemble_scalar", "color_nodes", "add_element_row_to_csr_row"];
    items.push(bounded("every small connectivity", &FNS, "every connectivity of at most 2 elements with at most 3 of 3 nodes and of 3 elements with at most 2 of 3 nodes; solution dimensions 1 and 2; one drawn set of integer contributions each; the parallel assemblies on every fourth", |e| {
        let (s3, s2) = (sequences(3, 3), sequences(3, 2));
        let mut all: Vec<Vec<Vec<usize>>> = vec![vec![]];
        all.extend(s3.iter().map(|a| vec![a.clone()]));
        all.extend(s3.iter().flat_map(|a| s3.iter().map(move |b| vec![a.clone(), b.clone()])));
        all.extend(s2.iter().flat_map(|a| s2.iter().map(move |b| (a, b))).flat_map(|(a, b)| sequences(3, 2).into_iter().map(move |c| vec![a.clone(), b.clone(), c])));
        let mut r = Rng(e.seed);
        for (k, conn) in all.into_iter().enumerate() {
            let s = 1 + k % 2;
            let a = assembler_of(&mut r, s, 3, conn);
            let thorough = e.thorough;
            e.case(|| format!("s = {}, elements {:?}", a.s, a.conn), || whole(&a, thorough || (k / 2) % 4 == 0));
        }
    }));
    items.push(bounded("drawn meshes, serial and parallel", &FNS, "150 drawn connectivities (2000 thorough) of up to 60 elements with 0 to 6 of up to 45 nodes, solution dimensions 1 to 3, on 1, 2 and 8 threads", |e| {
        let pools: Vec<_> = [1, 2, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect();
        let mut r = Rng(e.seed ^ 0xC08);
        for k in 0..if e.thorough { 2000 } else { 150 } {
            let n = 1 + r.below(45);
            let m = [0, 1, 9, 10, 11, 21, 60][r.below(7)];
            let repeat = r.below(4) == 0;
            let conn: Vec<Vec<usize>> = (0..m)
                .map(|_| {
                    let c: Vec<usize> = (0..r.below(7)).map(|_| r.below(n)).collect();
                    let mut seen = BTreeSet::new();
                    c.into_iter().filter(|x| repeat || seen.insert(*x)).collect()
                })
                .collect();
            let s = 1 + r.below(3);
            let a = assembler_of(&mut r, s, n, conn);
            e.case(|| format!("s = {}, {} nodes, elements {:?}, {} threads", a.s, a.num_nodes, a.conn, [1, 2, 8][k % 3]), || pools[k % 3].install(|| whole(&a, true)));
        }
    }));
    items.push(bounded("errors in parallel", &["CsrParAssembler", "VectorParAssembler", "par_assemble_scalar"], "40 drawn connectivities, one failing element", |e| {
        let mut r = Rng(e.seed ^ 0xE08);
        for _ in 0..40 {
            let n = 4 + r.below(20);
            let m = 1 + r.below(30);
            let conn: Vec<Vec<usize>> = (0..m).map(|_| { let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v); v.truncate(3); v }).collect();
            let mut a = assembler_of(&mut r, 1, n, conn);
            let colors = a.colors();
            a.fail = Some(r.below(m));
            e.case(|| format!("elements {:?}, element {:?} fails", a.conn, a.fail), || {
                let l = [
                    CsrAssembler::<f64>::default().assemble(&a).is_ok(),
                    CsrParAssembler::<f64>::default().assemble(&colors, &a).is_ok(),
                    VectorAssembler::<f64>::default().assemble_vector(&a).is_ok(),
                    VectorParAssembler::<f64>::default().assemble_vector(&colors, &a).is_ok(),
                    assemble_scalar(&a).is_ok(),
                    par_assemble_scalar(&a).is_ok(),
                ];
                if l.contains(&true) { Err(format!("the error was swallowed: {:?}", l)) } else { Ok(()) }
            });
        }
    }));
    items.push(bounded("meshes as connectivity", &["<Mesh as ElementConnectivityAssembler>", "CsrAssembler::assemble_pattern"], "two fixed meshes", |e| {
        let p = |n: usize| (0..n).map(|i| Point2::new(i as f64, (i * i % 7) as f64)).collect::<Vec<_>>();
        let t: TriangleMesh2d<f64> = TriangleMesh2d::from_vertices_and_connectivity(p(6), vec![Tri3d2Connectivity([0, 4, 2]), Tri3d2Connectivity([2, 4, 1])]);
        let q: QuadMesh2d<f64> = QuadMesh2d::from_vertices_and_connectivity(p(7), vec![Quad4d2Connectivity([0, 6, 2, 3]), Quad4d2Connectivity([2, 5, 1, 3])]);
        let want = |n: usize, c: Vec<Vec<usize>>| Asm::<f64> { s: 1, num_nodes: n, conn: c, mats: vec![], vecs: vec![], scalars: vec![], fail: None };
        let a = want(6, vec![vec![0, 4, 2], vec![2, 4, 1]]);
        e.case(|| "triangles".into(), || pattern_ok(&CsrAssembler::<f64>::default().assemble_pattern(&t), 6, &a.pattern()));
        let a = want(7, vec![vec![0, 6, 2, 3], vec![2, 5, 1, 3]]);
        e.case(|| "quads".into(), || pattern_ok(&CsrAssembler::<f64>::default().assemble_pattern(&q), 7, &a.pattern()));
    }));
    symcore::run::main(items);
}
