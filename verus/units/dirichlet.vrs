use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@ include std_inc.vrs
// The scalar type: nothing is used of it but zero
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct T { x: f64 }
impl T {
    pub uninterp spec fn zero_() -> T;
    #[verifier::external_body]
    pub fn zero() -> (r: T) ensures r == T::zero_() { T { x: 0.0 } }
}
// nalgebra-sparse's CSR matrix: the columns and values of each row
pub struct CsrRow { cols: Vec<usize>, vals: Vec<T> }
impl CsrRow {
    pub closed spec fn cols(&self) -> Seq<usize> { self.cols@ }
    pub closed spec fn vals(&self) -> Seq<T> { self.vals@ }
    #[verifier::external_body]
    pub fn cols_and_values_mut(&mut self) -> (r: (&[usize], &mut [T]))
        ensures
            r.0@ == old(self).cols(), r.1@ == old(self).vals(), final(r.1)@.len() == r.1@.len(),
            final(self).cols() == old(self).cols(), final(self).vals() == final(r.1)@
    { (&self.cols, &mut self.vals) }
}
#[verifier::external_body]
pub struct CsrMatrix { rows: Vec<CsrRow>, ncols: usize }
impl CsrMatrix {
    pub uninterp spec fn rows(&self) -> Seq<CsrRow>;
    pub uninterp spec fn ncols_(&self) -> nat;
    pub open spec fn valid(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.rows().len() ==> (#[trigger] self.rows()[i]).cols().len() == self.rows()[i].vals().len()
        &&& forall|i: int, k: int| 0 <= i < self.rows().len() && 0 <= k < self.rows()[i].cols().len() ==> (#[trigger] self.rows()[i].cols()[k]) < self.ncols_()
    }
    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize) ensures r == self.rows().len() { self.rows.len() }
    #[verifier::external_body]
    pub fn row_mut(&mut self, i: usize) -> (r: &mut CsrRow)
        requires i < old(self).rows().len()
        ensures *r == old(self).rows()[i as int], final(self).rows() == old(self).rows().update(i as int, *final(r)), final(self).ncols_() == old(self).ncols_()
    { &mut self.rows[i] }
}
// some value (that it is not zero is decided by the other contracts of this property)
#[verifier::external_body]
pub fn some_scale() -> T { unimplemented!() }
// `s.iter().enumerate()`, as the sequence it yields
#[verifier::external_body]
pub fn enumerated<'a, X>(s: &'a [X]) -> (r: Vec<(usize, &'a X)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i]
{ s.iter().enumerate().collect() }
// `cols.iter().zip(values)`, as the sequence it yields
#[verifier::external_body]
pub fn zip_mut<'a, A, B>(a: &'a [A], b: &'a mut [B]) -> (r: Vec<(&'a A, &'a mut B)>)
    requires a@.len() == old(b)@.len()
    ensures
        r@.len() == a@.len(), final(b)@.len() == a@.len(),
        forall|k: int| #![trigger r@[k]] #![trigger final(b)@[k]] 0 <= k < a@.len() ==> *r@[k].0 == a@[k] && *r@[k].1 == old(b)@[k] && *final(r@[k].1) == final(b)@[k],
{ a.iter().zip(b).collect() }
pub open spec fn looked_at(k: int) -> bool { true }
// `v.into_iter().filter_map(f)`, as the sequence it yields (its order is not specified)
#[verifier::external_body]
pub fn filter_map_of<A, B, F: Fn(A) -> Option<B>>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|k: int| 0 <= k < v@.len() ==> call_requires(f, (#[trigger] v@[k],))
    ensures
        forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> exists|k: int| 0 <= k < v@.len() && call_ensures(f, (#[trigger] v@[k],), Some(r@[j])),
        forall|k: int| #[trigger] looked_at(k) && 0 <= k < v@.len() ==>
            call_ensures(f, (v@[k],), None) || exists|j: int| 0 <= j < r@.len() && call_ensures(f, (v@[k],), Some(#[trigger] r@[j])),
{ v.into_iter().filter_map(f).collect() }

// row or column r belongs to one of the first `upto` nodes
pub open spec fn is_dof(nodes: Seq<usize>, d: int, upto: int, r: int) -> bool {
    exists|k: int| 0 <= k < upto && d * (#[trigger] nodes[k]) <= r < d * nodes[k] + d
}
pub open spec fn present(m: CsrMatrix, r: int, c: int) -> bool {
    exists|k: int| 0 <= k < m.rows()[r].cols().len() && #[trigger] m.rows()[r].cols()[k] == c
}
pub open spec fn symmetric_pattern(m: CsrMatrix) -> bool {
    forall|r: int, k: int| 0 <= r < m.rows().len() && 0 <= k < m.rows()[r].cols().len() ==> present(m, (#[trigger] m.rows()[r].cols()[k]) as int, r)
}
pub open spec fn same_pattern(a: CsrMatrix, b: CsrMatrix) -> bool {
    &&& a.rows().len() == b.rows().len() && a.ncols_() == b.ncols_()
    &&& forall|r: int| 0 <= r < a.rows().len() ==> (#[trigger] a.rows()[r]).cols() == b.rows()[r].cols()
    &&& forall|r: int| 0 <= r < a.rows().len() ==> (#[trigger] a.rows()[r]).vals().len() == b.rows()[r].vals().len()
}

pub open spec fn at(s: Seq<bool>, r: int) -> bool { 0 <= r < s.len() && s[r] }
pub open spec fn occurs(s: Seq<usize>, upto: int, x: int) -> bool { exists|j: int| 0 <= j < upto && #[trigger] s[j] == x }
pub open spec fn some(scale: T) -> bool { true }
// what entry k of row r has to become
pub open spec fn decoupled(m: CsrMatrix, nodes: Seq<usize>, d: int, scale: T, r: int, k: int) -> T {
    let c = m.rows()[r].cols()[k] as int;
    if is_dof(nodes, d, nodes.len() as int, r) || is_dof(nodes, d, nodes.len() as int, c) {
        if r == c { scale } else { T::zero_() }
    } else { m.rows()[r].vals()[k] }
}
// the rows visited so far are done, and the columns that remain to be visited are noted
pub open spec fn progress(m: CsrMatrix, m0: CsrMatrix, mem: Seq<bool>, visit: Seq<bool>, scale: T) -> bool {
    &&& forall|r: int, k: int| #![trigger m.rows()[r].vals()[k]] 0 <= r < m0.rows().len() && 0 <= k < m0.rows()[r].cols().len() ==> m.rows()[r].vals()[k] ==
            if at(mem, r) { if m0.rows()[r].cols()[k] == r { scale } else { T::zero_() } } else { m0.rows()[r].vals()[k] }
    &&& forall|c: int| 0 <= c < visit.len() && #[trigger] visit[c] ==> c < m0.rows().len()
    &&& forall|r: int, k: int| #![trigger m0.rows()[r].cols()[k]] 0 <= r < m0.rows().len() && 0 <= k < m0.rows()[r].cols().len() && at(mem, r) && m0.rows()[r].cols()[k] != r ==> visit[m0.rows()[r].cols()[k] as int]
}
//@ fn src/assembly/global.rs apply_homogeneous_dirichlet_bc_csr
//@ instantiate T: any type with a zero
//@ subst CsrMatrix<T> => CsrMatrix
//@ init scale some_scale()
//@ subst rows_to_visit.iter().enumerate().filter_map( => filter_map_of(enumerated(&rows_to_visit),
//@ subst cols.iter().enumerate() => enumerated(cols)
//@ subst cols.iter().zip(values) => zip_mut(cols, values)
//@ attr
#[verifier::loop_isolation(false)]
//@ closures 1
//@ closure 0 (usize, &bool) ; o: Option<usize>
    ensures o == (if *a0.1 { Some(a0.0) } else { None })
//@ spec
    requires
        old(matrix).valid(), symmetric_pattern(*old(matrix)), old(matrix).ncols_() == old(matrix).rows().len(),
        solution_dim * old(matrix).rows().len() <= usize::MAX,
        forall|k: int| 0 <= k < nodes@.len() ==> solution_dim * (#[trigger] nodes@[k]) + solution_dim <= old(matrix).rows().len(),
    ensures
        same_pattern(*final(matrix), *old(matrix)),
        exists|scale: T| #![trigger some(scale)] some(scale) && forall|r: int, k: int| 0 <= r < old(matrix).rows().len() && 0 <= k < old(matrix).rows()[r].cols().len() ==>
            #[trigger] final(matrix).rows()[r].vals()[k] == decoupled(*old(matrix), nodes@, solution_dim as int, scale, r, k),
//@ start
    let ghost m0 = *matrix;
    let ghost n = matrix.rows().len() as int;
    let ghost mut ghost_node = 0int;
    proof {
        if solution_dim > 0 { assert(n <= solution_dim * n) by (nonlinear_arith) requires solution_dim > 0, n >= 0; }
    }
//@ loop 0 it
    invariant
        it.seq() == nodes@.as_ref(),
        matrix.valid(), same_pattern(*matrix, m0), rows_to_visit@.len() == d * n, dirichlet_membership@.len() == d * n,
        progress(*matrix, m0, dirichlet_membership@, rows_to_visit@, scale),
        forall|r: int| 0 <= r < d * n ==> (#[trigger] dirichlet_membership@[r] <==> is_dof(nodes@, d as int, it.index() as int, r)),
//@ loop 1
    invariant
        matrix.valid(), same_pattern(*matrix, m0), rows_to_visit@.len() == d * n, dirichlet_membership@.len() == d * n,
        progress(*matrix, m0, dirichlet_membership@, rows_to_visit@, scale),
        forall|r: int| 0 <= r < d * n ==> (#[trigger] dirichlet_membership@[r] <==> is_dof(nodes@, d as int, it.index() as int, r) || d * nodes@[it.index() as int] <= r < d * nodes@[it.index() as int] + i),
//@ loop-start 1
    let ghost ma = *matrix;
    let ghost mema = dirichlet_membership@;
    let ghost visita = rows_to_visit@;
//@ loop 2 jt
    invariant
        jt.seq().len() == cols@.len(),
        forall|k: int| 0 <= k < cols@.len() ==> *(#[trigger] jt.seq()[k]).0 == cols@[k],
        forall|k: int| 0 <= k < jt.index() ==> *final((#[trigger] jt.seq()[k]).1) == if cols@[k] == row_idx { scale } else { T::zero_() },
        rows_to_visit@.len() == d * n,
        forall|c: int| 0 <= c < visita.len() && visita[c] ==> #[trigger] rows_to_visit@[c],
        forall|c: int| 0 <= c < rows_to_visit@.len() && #[trigger] rows_to_visit@[c] ==> c < n,
        forall|k: int| #![trigger cols@[k]] 0 <= k < jt.index() && cols@[k] != row_idx ==> rows_to_visit@[cols@[k] as int],
//@ loop-after 2
    proof {
        assert(matrix.rows()[row_idx as int].cols() == m0.rows()[row_idx as int].cols());
        assert forall|r: int| 0 <= r < n && r != row_idx implies #[trigger] matrix.rows()[r] == ma.rows()[r] by { }
        let mem = dirichlet_membership@;
        let v1 = values@;
        assert(v1.len() == cols@.len());
        assert forall|k: int| 0 <= k < v1.len() implies #[trigger] v1[k] == if cols@[k] == row_idx { scale } else { T::zero_() } by { assert(cols@[k] == cols@[k]); }
        assert(matrix.rows()[row_idx as int].vals() == v1);
        assert forall|r: int, k: int| #![trigger matrix.rows()[r].vals()[k]] 0 <= r < n && 0 <= k < m0.rows()[r].cols().len() implies matrix.rows()[r].vals()[k] ==
            if at(mem, r) { if m0.rows()[r].cols()[k] == r { scale } else { T::zero_() } } else { m0.rows()[r].vals()[k] } by {
            if r != row_idx {
                assert(matrix.rows()[r] == ma.rows()[r]);
                assert(at(mem, r) == at(mema, r));
                assert(ma.rows()[r].vals()[k] == if at(mema, r) { if m0.rows()[r].cols()[k] == r { scale } else { T::zero_() } } else { m0.rows()[r].vals()[k] });
            }
        }
        assert forall|r: int, k: int| #![trigger m0.rows()[r].cols()[k]] 0 <= r < n && 0 <= k < m0.rows()[r].cols().len() && at(mem, r) && m0.rows()[r].cols()[k] != r
            implies rows_to_visit@[m0.rows()[r].cols()[k] as int] by {
            if r != row_idx { assert(at(mema, r)); assert(visita[m0.rows()[r].cols()[k] as int]); }
        }
        assert(progress(*matrix, m0, dirichlet_membership@, rows_to_visit@, scale));
    }
//@ before let row_visit_iter
    let ghost m1 = *matrix;
//@ loop-before 3
    let ghost rows = row_visit_iter@;
    proof {
        assert forall|r: int| 0 <= r < rows_to_visit@.len() && #[trigger] rows_to_visit@[r] implies occurs(rows, rows.len() as int, r) by { assert(looked_at(r)); }
    }
//@ loop-after 3
    proof {
        let mem = dirichlet_membership@;
        let ns = nodes@;
        assert(some(scale));
        assert forall|r: int| 0 <= r < n implies #[trigger] at(mem, r) == is_dof(ns, d as int, ns.len() as int, r) by {
            if d == 0 { assert(!is_dof(ns, 0, ns.len() as int, r)); } else { assert(mem[r] <==> is_dof(ns, d as int, ns.len() as int, r)); }
        }
        assert forall|r: int, k: int| 0 <= r < n && 0 <= k < m0.rows()[r].cols().len() implies
            #[trigger] matrix.rows()[r].vals()[k] == decoupled(m0, ns, d as int, scale, r, k) by {
            let c = m0.rows()[r].cols()[k] as int;
            assert(at(mem, r) == is_dof(ns, d as int, ns.len() as int, r));
            assert(at(mem, c) == is_dof(ns, d as int, ns.len() as int, c));
            assert(m1.rows()[r].vals()[k] == if at(mem, r) { if c == r { scale } else { T::zero_() } } else { m0.rows()[r].vals()[k] });
            if !at(mem, r) && at(mem, c) {
                assert(present(m0, c, r));
                let l = choose|l: int| 0 <= l < m0.rows()[c].cols().len() && #[trigger] m0.rows()[c].cols()[l] == r;
                assert(rows_to_visit@[r]);
                assert(occurs(rows, rows.len() as int, r));
            }
        }
    }
//@ loop 3 kt
    invariant
        kt.seq() == rows,
        same_pattern(*matrix, m0), matrix.valid(),
        forall|r: int, k: int| #![trigger matrix.rows()[r].vals()[k]] 0 <= r < n && 0 <= k < m0.rows()[r].cols().len() ==> matrix.rows()[r].vals()[k] ==
            if !at(dirichlet_membership@, r) && occurs(kt.seq(), kt.index() as int, r) && at(dirichlet_membership@, m0.rows()[r].cols()[k] as int) { T::zero_() } else { m1.rows()[r].vals()[k] },
//@ loop 4 lt
    invariant
        values@.len() == cols@.len(),
        lt.seq().len() == cols@.len(),
        forall|k: int| 0 <= k < cols@.len() ==> (#[trigger] lt.seq()[k]).0 == k && *lt.seq()[k].1 == cols@[k],
        forall|k: int| 0 <= k < cols@.len() ==> #[trigger] values@[k] == if k < lt.index() && dirichlet_membership@[cols@[k] as int] { T::zero_() } else { v0[k] },
//@ before for .local_idx
    let ghost v0 = values@;
//@ done
// nalgebra's dense matrix
#[verifier::external_body]
pub struct DMatrix { x: Vec<T> }
impl DMatrix {
    pub uninterp spec fn n(&self) -> nat;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;
    #[verifier::external_body]
    pub fn fill_column(&mut self, c: usize, v: T)
        requires c < old(self).n()
        ensures final(self).n() == old(self).n(), forall|i: int, j: int| 0 <= i < old(self).n() && 0 <= j < old(self).n() ==> #[trigger] final(self).at(i, j) == if j == c { v } else { old(self).at(i, j) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_row(&mut self, r: usize, v: T)
        requires r < old(self).n()
        ensures final(self).n() == old(self).n(), forall|i: int, j: int| 0 <= i < old(self).n() && 0 <= j < old(self).n() ==> #[trigger] final(self).at(i, j) == if i == r { v } else { old(self).at(i, j) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, r: usize, c: usize, v: T)
        requires r < old(self).n(), c < old(self).n()
        ensures final(self).n() == old(self).n(), forall|i: int, j: int| 0 <= i < old(self).n() && 0 <= j < old(self).n() ==> #[trigger] final(self).at(i, j) == if i == r && j == c { v } else { old(self).at(i, j) }
    { unimplemented!() }
}
// the number of components of the solution
pub struct SolutionDim;
impl SolutionDim {
    pub uninterp spec fn d() -> nat;
    #[verifier::external_body]
    pub fn dim() -> (r: usize) ensures r == Self::d() { unimplemented!() }
}
pub open spec fn decoupled_dense(m: DMatrix, nodes: Seq<usize>, d: int, scale: T, i: int, j: int) -> T {
    if is_dof(nodes, d, nodes.len() as int, i) || is_dof(nodes, d, nodes.len() as int, j) { if i == j { scale } else { T::zero_() } } else { m.at(i, j) }
}
pub open spec fn is_dof_or(nodes: Seq<usize>, d: int, upto: int, lo: int, hi: int, r: int) -> bool { is_dof(nodes, d, upto, r) || lo <= r < hi }

//@ fn src/assembly/global.rs apply_homogeneous_dirichlet_bc_matrix
//@ instantiate
//@ subst DMatrix<T> => DMatrix
//@ init scale some_scale()
//@ subst matrix.index_mut((.., idx)).fill(T::zero()) => matrix.fill_column(idx, T::zero())
//@ subst matrix.index_mut((idx, ..)).fill(T::zero()) => matrix.fill_row(idx, T::zero())
//@ subst *matrix.index_mut((idx, idx)) = scale => matrix.set(idx, idx, scale)
//@ subst if scale == T::zero() { T::one() } else { scale } => scale
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        old(matrix).n() <= usize::MAX,
        forall|k: int| 0 <= k < nodes@.len() ==> SolutionDim::d() * (#[trigger] nodes@[k]) + SolutionDim::d() <= old(matrix).n(),
    ensures
        final(matrix).n() == old(matrix).n(),
        exists|scale: T| #![trigger some(scale)] some(scale) && forall|i: int, j: int| 0 <= i < old(matrix).n() && 0 <= j < old(matrix).n() ==>
            #[trigger] final(matrix).at(i, j) == decoupled_dense(*old(matrix), nodes@, SolutionDim::d() as int, scale, i, j),
//@ start
    let ghost m0 = *matrix;
    let ghost n = matrix.n() as int;
//@ loop 0 it
    invariant
        it.seq() == nodes@.as_ref(), matrix.n() == n, some(scale),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] matrix.at(i, j) ==
            if is_dof(nodes@, d as int, it.index() as int, i) || is_dof(nodes@, d as int, it.index() as int, j) { if i == j { scale } else { T::zero_() } } else { m0.at(i, j) },
//@ loop 1
    invariant
        matrix.n() == n,
        forall|i1: int, j: int| 0 <= i1 < n && 0 <= j < n ==> #[trigger] matrix.at(i1, j) ==
            if is_dof_or(nodes@, d as int, it.index() as int, d * nodes@[it.index() as int], d * nodes@[it.index() as int] + i, i1) || is_dof_or(nodes@, d as int, it.index() as int, d * nodes@[it.index() as int], d * nodes@[it.index() as int] + i, j) { if i1 == j { scale } else { T::zero_() } } else { m0.at(i1, j) },
//@ done
//@ fn src/assembly/global.rs apply_homogeneous_dirichlet_bc_rhs
//@ instantiate
//@ subst impl Into<DVectorViewMut<'a, T>> => &mut Vec<T>
//@ subst let mut rhs = rhs.into(); =>
//@ subst *rhs.index_mut(idx) = => rhs[idx] =
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        old(rhs)@.len() <= usize::MAX,
        forall|k: int| 0 <= k < nodes@.len() ==> solution_dim * (#[trigger] nodes@[k]) + solution_dim <= old(rhs)@.len(),
    ensures
        final(rhs)@.len() == old(rhs)@.len(),
        forall|r: int| 0 <= r < old(rhs)@.len() ==> #[trigger] final(rhs)@[r] == if is_dof(nodes@, solution_dim as int, nodes@.len() as int, r) { T::zero_() } else { old(rhs)@[r] },
//@ start
    let ghost v0 = rhs@;
//@ loop 0 it
    invariant
        it.seq() == nodes@.as_ref(), rhs@.len() == v0.len(),
        forall|r: int| 0 <= r < v0.len() ==> #[trigger] rhs@[r] == if is_dof(nodes@, d as int, it.index() as int, r) { T::zero_() } else { v0[r] },
//@ loop 1
    invariant
        rhs@.len() == v0.len(),
        forall|r: int| 0 <= r < v0.len() ==> #[trigger] rhs@[r] == if is_dof_or(nodes@, d as int, it.index() as int, d * nodes@[it.index() as int], d * nodes@[it.index() as int] + i, r) { T::zero_() } else { v0[r] },
//@ done
fn main() {}
}
