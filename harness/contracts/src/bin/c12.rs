//! C12: homogeneous Dirichlet conditions.
use contracts::rng::*;
use fenris::assembly::global::*;
use fenris::nalgebra::{DMatrix, DVector, U1, U2, U3};
use fenris::nalgebra_sparse::{pattern::SparsityPattern, CsrMatrix};
use std::collections::{BTreeMap, BTreeSet};
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

type Pattern = BTreeSet<(usize, usize)>;
/// The symmetric pattern with full diagonal and the given off-diagonal pairs.
fn pattern(n: usize, pairs: &[(usize, usize)]) -> Pattern {
    let mut p: Pattern = (0..n).map(|i| (i, i)).collect();
    for &(i, j) in pairs {
        p.insert((i, j));
        p.insert((j, i));
    }
    p
}
fn csr<T: SReal>(n: usize, p: &Pattern, v: &[T]) -> CsrMatrix<T> {
    let mut off = vec![0];
    for i in 0..n {
        off.push(off[i] + p.range((i, 0)..=(i, n)).count());
    }
    let s = SparsityPattern::try_from_offsets_and_indices(n, n, off, p.iter().map(|e| e.1).collect()).unwrap();
    CsrMatrix::try_from_pattern_and_values(s, v.to_vec()).unwrap()
}
fn constrained(nodes: &[usize], d: usize) -> BTreeSet<usize> {
    nodes.iter().flat_map(|n| (0..d).map(move |i| n * d + i)).collect()
}
fn dense_apply<T: SReal>(m: &mut DMatrix<T>, nodes: &[usize], d: usize) {
    match d {
        1 => apply_homogeneous_dirichlet_bc_matrix::<T, U1>(m, nodes),
        2 => apply_homogeneous_dirichlet_bc_matrix::<T, U2>(m, nodes),
        _ => apply_homogeneous_dirichlet_bc_matrix::<T, U3>(m, nodes),
    }
}
fn check<T: SReal>(cx: &mut Cx<T>, what: &str, before: &BTreeMap<(usize, usize), T>, after: &BTreeMap<(usize, usize), T>, c: &BTreeSet<usize>) {
    let dirichlet = |i: &usize| c.contains(i);
    let mut scale = None;
    for ((i, j), v) in after {
        if !dirichlet(i) && !dirichlet(j) {
            cx.ensure_eq(&format!("{}: free entries are unchanged", what), *v, before[&(*i, *j)]);
        } else if i != j {
            cx.ensure_eq(&format!("{}: constrained rows and columns are zero", what), *v, T::zero());
        } else {
            cx.ensure_gt(&format!("{}: constrained diagonal entries are positive", what), *v, T::zero());
            match scale {
                None => scale = Some(*v),
                Some(s) => cx.ensure_eq(&format!("{}: constrained diagonal entries are all the same", what), *v, s),
            }
        }
    }
    // the scale is that of the diagonal of the matrix
    let n = before.keys().map(|k| k.0).max().unwrap_or(0) + 1;
    let diag: Vec<T> = (0..n).map(|i| before[&(i, i)].abs()).collect();
    if let Some(s) = scale {
        if diag.iter().all(|x| *x == T::zero()) {
            cx.ensure_eq(&format!("{}: the scale of a zero diagonal is one", what), s, T::one());
        } else if n <= 4 || !T::SYMBOLIC {
            let max = diag.iter().fold(T::zero(), |a, b| if *b > a { *b } else { a });
            cx.ensure_le(&format!("{}: the scale is at most the largest diagonal entry", what), s, max);
        }
    }
}
fn matrix<T: SReal>(cx: &mut Cx<T>, n: usize, d: usize, pairs: &[(usize, usize)], nodes: &[usize]) {
    let p = pattern(n, pairs);
    let v = cx.reals("a", p.len());
    sparse_case(cx, n, d, &p, &v, nodes);
}
fn sparse_case<T: SReal>(cx: &mut Cx<T>, n: usize, d: usize, p: &Pattern, v: &[T], nodes: &[usize]) {
    let c = constrained(nodes, d);
    let mut m = csr(n, p, v);
    let before: BTreeMap<_, _> = p.iter().copied().zip(v.iter().copied()).collect();
    apply_homogeneous_dirichlet_bc_csr(&mut m, nodes, d);
    cx.ensure("csr: the pattern is unchanged", m.triplet_iter().map(|(i, j, _)| (i, j)).eq(p.iter().copied()) && m.nrows() == n && m.ncols() == n);
    let after: BTreeMap<_, _> = m.triplet_iter().map(|(i, j, v)| ((i, j), *v)).collect();
    check(cx, "csr", &before, &after, &c);
}
fn dense_case<T: SReal>(cx: &mut Cx<T>, n: usize, d: usize, a: &[T], nodes: &[usize]) {
    let c = constrained(nodes, d);
    let mut m = DMatrix::from_row_slice(n, n, a);
    let all = |m: &DMatrix<T>| (0..n * n).map(|k| ((k / n, k % n), m[(k / n, k % n)])).collect::<BTreeMap<_, _>>();
    let before = all(&m);
    dense_apply(&mut m, nodes, d);
    cx.ensure("dense: the shape is unchanged", m.shape() == (n, n));
    check(cx, "dense", &before, &all(&m), &c);
}
fn vector<T: SReal>(cx: &mut Cx<T>, n: usize, d: usize, nodes: &[usize]) {
    let b = cx.reals("b", n);
    vector_case(cx, d, &b, nodes);
}
fn vector_case<T: SReal>(cx: &mut Cx<T>, d: usize, b: &[T], nodes: &[usize]) {
    let c = constrained(nodes, d);
    let mut r = DVector::from_column_slice(b);
    apply_homogeneous_dirichlet_bc_rhs(&mut r, nodes, d);
    cx.ensure("rhs: the length is unchanged", r.len() == b.len());
    for i in 0..b.len() {
        let (want, what) = if c.contains(&i) { (T::zero(), "constrained entries are zero") } else { (b[i], "free entries are unchanged") };
        cx.ensure_eq(&format!("rhs: {}", what), r[i], want);
    }
}
const FULL2: &[(usize, usize)] = &[(0, 1)];
const FULL3: &[(usize, usize)] = &[(0, 1), (0, 2), (1, 2)];
const PATH4: &[(usize, usize)] = &[(0, 1), (1, 2), (2, 3)];
const BLOCK4: &[(usize, usize)] = &[(0, 1), (2, 3), (0, 2), (0, 3), (1, 2), (1, 3)];
const ARROW6: &[(usize, usize)] = &[(0, 1), (2, 3), (4, 5), (0, 4), (0, 5), (1, 4), (1, 5)];
type Shape = (usize, usize, &'static [(usize, usize)], &'static [usize]);
const SHAPES: [Shape; 12] = [
    (1, 1, &[], &[0]),
    (2, 1, FULL2, &[1]),
    (2, 1, &[], &[0, 1]),
    (3, 1, FULL3, &[]),
    (3, 1, FULL3, &[1]),
    (3, 1, FULL3, &[2, 0]),
    (3, 1, &[(0, 2)], &[2, 2]),
    (4, 1, PATH4, &[3, 1]),
    (4, 2, BLOCK4, &[1]),
    (4, 2, BLOCK4, &[0, 1]),
    (6, 2, ARROW6, &[2]),
    (3, 3, FULL3, &[0]),
];
/// The contracts decided on concrete integer matrices.
fn concrete(f: impl Fn(&mut Cx<f64>)) -> Result<(), String> {
    symcore::contract::concrete(f)
}
fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
fn main() {
    let mut items: Vec<Item> = vec![];
    for (k, (n, d, p, nodes)) in SHAPES.into_iter().enumerate() {
        let b = format!("{} x {} with {} off-diagonal pairs, dimension {}, nodes {:?}", n, n, p.len(), d, nodes);
        items.push(dual!(format!("sparse matrix {}", k), ["apply_homogeneous_dirichlet_bc_csr"], b, |cx, T| matrix::<T>(cx, n, d, p, nodes)));
        if n <= 4 {
            items.push(dual!(format!("dense matrix {}", k), ["apply_homogeneous_dirichlet_bc_matrix"], b, |cx, T| {
                let a = cx.reals("a", n * n);
                dense_case::<T>(cx, n, d, &a, nodes)
            }));
        }
        items.push(dual!(format!("vector {}", k), ["apply_homogeneous_dirichlet_bc_rhs"], b, |cx, T| vector::<T>(cx, n, d, nodes)));
    }
    let fns = ["apply_homogeneous_dirichlet_bc_csr", "apply_homogeneous_dirichlet_bc_matrix", "apply_homogeneous_dirichlet_bc_rhs"];
    items.push(bounded("every small system", &fns, "every symmetric pattern of at most 4 unknowns (dimension 1: every set of nodes; dimension 2: every set of nodes of 2 or 4 unknowns), drawn integer entries with zeros and negative values", |e| {
        let mut r = Rng(e.seed);
        for n in 1..=4usize {
            let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
            for mask in subsets(pairs.len()) {
                let p = pattern(n, &mask.iter().map(|k| pairs[*k]).collect::<Vec<_>>());
                for d in [1, 2] {
                    if n % d != 0 {
                        continue;
                    }
                    for mut nodes in subsets(n / d) {
                        r.shuffle(&mut nodes);
                        if r.below(4) == 0 && nodes.len() > 0 {
                            let x = nodes[0];
                            nodes.push(x);
                        }
                        let zero = r.below(3) == 0;
                        let v: Vec<f64> = p.iter().map(|(i, j)| if i == j && (zero || r.below(3) == 0) { 0.0 } else { r.int(-8, 8) as f64 }).collect();
                        let a: Vec<f64> = (0..n * n).map(|k| if k % (n + 1) == 0 && zero { 0.0 } else { r.int(-8, 8) as f64 }).collect();
                        let b: Vec<f64> = (0..n).map(|_| r.int(-8, 8) as f64).collect();
                        e.case(|| format!("pattern {:?}, values {:?}, dense {:?}, dimension {}, nodes {:?}", p, v, a, d, nodes), || {
                            concrete(|cx| {
                                sparse_case(cx, n, d, &p, &v, &nodes);
                                dense_case(cx, n, d, &a, &nodes);
                                vector_case(cx, d, &b, &nodes);
                            })
                        });
                    }
                }
            }
        }
    }));
    items.push(bounded("drawn systems", &fns, "300 drawn symmetric patterns (4000 thorough) of up to 24 unknowns, dimensions 1 to 3", |e| {
        let mut r = Rng(e.seed ^ 0xC12);
        for _ in 0..if e.thorough { 4000 } else { 300 } {
            let d = 1 + r.below(3);
            let nn = 1 + r.below(24 / d);
            let n = nn * d;
            let pairs: Vec<_> = (0..r.below(3 * n)).map(|_| (r.below(n), r.below(n))).collect();
            let p = pattern(n, &pairs);
            let nodes: Vec<usize> = (0..r.below(nn + 2)).map(|_| r.below(nn)).collect();
            let v: Vec<f64> = p.iter().map(|_| r.int(-8, 8) as f64).collect();
            let a: Vec<f64> = (0..n * n).map(|_| r.int(-8, 8) as f64).collect();
            let b: Vec<f64> = (0..n).map(|_| r.int(-8, 8) as f64).collect();
            e.case(|| format!("pattern {:?}, values {:?}, dimension {}, nodes {:?}", p, v, d, nodes), || {
                concrete(|cx| {
                    sparse_case(cx, n, d, &p, &v, &nodes);
                    dense_case(cx, n, d, &a, &nodes);
                    vector_case(cx, d, &b, &nodes);
                })
            });
        }
    }));
    symcore::run::main(items)
}
