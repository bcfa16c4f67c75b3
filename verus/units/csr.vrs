use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs
//@ include asm_inc.vrs
//@ include csr_row_inc.vrs
//@ include pattern_spec_inc.vrs
// a sum does not depend on the order
pub proof fn lemma_sum_remove(t: Seq<usize>, f: spec_fn(int) -> real, j: int)
    requires 0 <= j < t.len()
    ensures sum_over(t, f, t.len() as int) == sum_over(t.remove(j), f, t.len() - 1) + f(t[j] as int)
    decreases t.len()
{
    let n = t.len() as int;
    if j == n - 1 {
        lemma_sum_prefix(t, t.remove(j), f, n - 1);
    } else {
        let u = t.drop_last();
        lemma_sum_remove(u, f, j);
        lemma_sum_prefix(t, u, f, n - 1);
        assert(u.remove(j) =~= t.remove(j).drop_last());
        lemma_sum_prefix(u.remove(j), t.remove(j), f, n - 2);
    }
}
pub proof fn lemma_sum_prefix(a: Seq<usize>, b: Seq<usize>, f: spec_fn(int) -> real, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures sum_over(a, f, k) == sum_over(b, f, k)
    decreases k
{
    if k > 0 { lemma_sum_prefix(a, b, f, k - 1); }
}
pub proof fn lemma_sum_rearranged(s: Seq<usize>, t: Seq<usize>, f: spec_fn(int) -> real)
    requires s.to_multiset() == t.to_multiset()
    ensures s.len() == t.len(), sum_over(s, f, s.len() as int) == sum_over(t, f, t.len() as int)
    decreases s.len()
{
    s.to_multiset_ensures();
    t.to_multiset_ensures();
    if s.len() > 0 {
        let x = s.last();
        assert(s.contains(x));
        assert(t.to_multiset().count(x) > 0);
        assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        lemma_sum_remove(t, f, j);
        let s1 = s.remove(s.len() - 1);
        assert(s1.to_multiset() == s.to_multiset().remove(x));
        assert(t.remove(j).to_multiset() == t.to_multiset().remove(x));
        lemma_sum_rearranged(s1, t.remove(j), f);
        lemma_sum_prefix(s, s1, f, s.len() - 1);
    }
}
pub open spec fn identity(n: nat) -> Seq<usize> { Seq::new(n, |i: int| i as usize) }
// the sum of f over 0 .. n
pub open spec fn sum_all(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { sum_all(f, n - 1) + f(n - 1) } }
pub proof fn lemma_sum_identity(f: spec_fn(int) -> real, n: nat, k: int)
    requires n <= usize::MAX, 0 <= k <= n
    ensures sum_over(identity(n), f, k) == sum_all(f, k)
    decreases k
{
    if k > 0 { lemma_sum_identity(f, n, k - 1); }
}
// `v.extend(0..n)` and sorting by a key
#[verifier::external_body]
pub fn extend_range(v: &mut Vec<usize>, r: Range<usize>)
    requires r.start == 0
    ensures final(v)@ == old(v)@ + identity(r.end as nat) { v.extend(r) }
#[verifier::external_body]
pub fn sort_by_key_<F: Fn(&usize) -> usize>(s: &mut Vec<usize>, Ghost(key): Ghost<spec_fn(int) -> usize>, f: F)
    requires forall|k: int| 0 <= k < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[k],)), forall|x: &usize, y: usize| call_ensures(f, (x,), y) ==> y == key(*x as int)
    ensures
        final(s)@.to_multiset() == old(s)@.to_multiset(),
        forall|a: int, b: int| 0 <= a <= b < final(s)@.len() ==> key((#[trigger] final(s)@[a]) as int) <= key((#[trigger] final(s)@[b]) as int)
{ s.sort_unstable_by_key(|x| f(x)) }

pub open spec fn key_of(nodes: Seq<usize>) -> spec_fn(int) -> usize { |k: int| nodes[k] }

// nalgebra-sparse's CSR matrix: the columns and values of each row
pub struct CsrRow { cols: Vec<usize>, vals: Vec<T> }
impl CsrRow {
    pub closed spec fn cols(&self) -> Seq<usize> { self.cols@ }
    pub closed spec fn vals(&self) -> Seq<T> { self.vals@ }
    #[verifier::external_body]
    pub fn cols_and_values_mut(&mut self) -> (r: (&[usize], &mut [T]))
        ensures
            r.0@ == old(self).cols(), r.1@ == old(self).vals(), final(r.1)@.len() == r.1@.len(),
            final(self).cols() == old(self).cols(), final(self).vals() == final(r.1)@
    { (&self.cols, &mut self.vals) }
}
#[verifier::external_body]
pub struct CsrMatrix { rows: Vec<CsrRow> }
impl CsrMatrix {
    pub uninterp spec fn rows(&self) -> Seq<CsrRow>;
    pub open spec fn well_formed(&self) -> bool {
        forall|i: int| 0 <= i < self.rows().len() ==> (#[trigger] self.rows()[i]).cols().len() == self.rows()[i].vals().len() && increasing(self.rows()[i].cols()) && self.rows()[i].cols().len() <= usize::MAX
    }
    #[verifier::external_body]
    pub fn row_mut(&mut self, i: usize) -> (r: &mut CsrRow)
        requires i < old(self).rows().len()
        ensures *r == old(self).rows()[i as int], final(self).rows() == old(self).rows().update(i as int, *final(r))
    { &mut self.rows[i] }
}
pub open spec fn same_pattern(a: CsrMatrix, b: CsrMatrix) -> bool {
    &&& a.rows().len() == b.rows().len()
    &&& forall|r: int| 0 <= r < a.rows().len() ==> (#[trigger] a.rows()[r]).cols() == b.rows()[r].cols()
    &&& forall|r: int| 0 <= r < a.rows().len() ==> (#[trigger] a.rows()[r]).vals().len() == b.rows()[r].vals().len()
}
// nalgebra's dense matrix, by rows
#[verifier::external_body]
pub struct DMatrix { x: Vec<Vec<T>> }
impl DMatrix {
    pub uninterp spec fn rows_(&self) -> Seq<Seq<T>>;
    pub open spec fn square(&self, n: int) -> bool { self.rows_().len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] self.rows_()[i]).len() == n }
    #[verifier::external_body]
    pub fn resize_mut(&mut self, r: usize, c: usize, x: T) requires r == c ensures final(self).square(r as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn row(&self, i: usize) -> (r: &[T]) requires i < self.rows_().len() ensures r@ == self.rows_()[i as int] { unimplemented!() }
}
pub open spec fn entries(m: DMatrix) -> Seq<Seq<real>> { m.rows_().map_values(|r: Seq<T>| reals(r)) }
// the element matrix, through the element assembler
#[verifier::external_body]
pub fn element_matrix_into<A: Elements>(a: &A, e: usize, output: &mut DMatrix) -> (r: Result<(), Report>)
    requires e < a.count(), old(output).square((a.sdim() * a.nodes(e as int).len()) as int)
    ensures
        r.is_ok() == a.matrix(e as int).is_some(),
        r.is_ok() ==> entries(*final(output)) == a.matrix(e as int).unwrap() && final(output).square((a.sdim() * a.nodes(e as int).len()) as int)
{ unimplemented!() }
pub struct CsrAssemblerWorkspace { connectivity_permutation: Vec<usize>, element_global_nodes: Vec<usize>, element_matrix: DMatrix }
// a workspace as an earlier call may have left it
#[verifier::external_body]
pub fn some_workspace() -> CsrAssemblerWorkspace { unimplemented!() }

// What an element adds to entry (r, c): the entries of its matrix whose row and column belong to r and c, over the
// first `upto` of its nodes
pub open spec fn element_entry(nodes: Seq<usize>, d: int, m: Seq<Seq<real>>, r: int, c: int, upto: int) -> real decreases upto {
    if upto <= 0 { 0real } else {
        let g = d * nodes[upto - 1];
        element_entry(nodes, d, m, r, c, upto - 1)
            + if g <= r < g + d { sum_all(block_entry(nodes, d, m[d * (upto - 1) + (r - g)], c), nodes.len() as int) } else { 0real }
    }
}
pub open spec fn total_entry<A: Elements>(a: A, r: int, c: int, upto: int) -> real decreases upto {
    if upto <= 0 { 0real } else {
        total_entry(a, r, c, upto - 1) + element_entry(a.nodes(upto - 1), a.sdim() as int, a.matrix(upto - 1).unwrap(), r, c, a.nodes(upto - 1).len() as int)
    }
}
// the pattern has every pair of nodes that share an element (what `assemble_pattern` promises)
pub open spec fn has_pairs<A: Elements>(a: A, m: CsrMatrix) -> bool {
    forall|e: int, k: int, i: int| #![trigger m.rows()[a.sdim() * a.nodes(e)[k] + i]] 0 <= e < a.count() && 0 <= k < a.nodes(e).len() && 0 <= i < a.sdim()
        ==> covers(m.rows()[a.sdim() * a.nodes(e)[k] + i].cols(), a.nodes(e), a.sdim() as int)
}
pub proof fn lemma_element<A: Elements>(a: A, e: int)
    requires valid(a), 0 <= e < a.count()
    ensures
        a.sdim() * a.nodes(e).len() == a.nodes(e).len() * a.sdim(), a.sdim() * a.nodes(e).len() <= usize::MAX,
        forall|k: int| 0 <= k < a.nodes(e).len() ==> 0 <= a.sdim() * (#[trigger] a.nodes(e)[k]) && a.sdim() * a.nodes(e)[k] + a.sdim() <= a.sdim() * a.n(),
{
    assert(a.sdim() * a.nodes(e).len() == a.nodes(e).len() * a.sdim()) by (nonlinear_arith);
    assert forall|k: int| 0 <= k < a.nodes(e).len() implies 0 <= a.sdim() * (#[trigger] a.nodes(e)[k]) && a.sdim() * a.nodes(e)[k] + a.sdim() <= a.sdim() * a.n() by {
        lemma_block(a.sdim() as int, a.nodes(e)[k] as int, a.n() as int);
    }
}
pub struct CsrAssembler;
// what `assemble_pattern` returns has the couplings `assemble_into_csr` asks for
pub proof fn lemma_pairs<A: Elements>(a: A, p: SparsityPattern, m: CsrMatrix)
    requires valid(a), pattern_of(a, p), of_pattern(m, p)
    ensures has_pairs(a, m), m.well_formed()
{
    let d = a.sdim() as int;
    let n = a.n() as int;
    assert forall|e: int, k: int, i: int| #![trigger m.rows()[a.sdim() * a.nodes(e)[k] + i]] 0 <= e < a.count() && 0 <= k < a.nodes(e).len() && 0 <= i < a.sdim()
        implies covers(m.rows()[a.sdim() * a.nodes(e)[k] + i].cols(), a.nodes(e), a.sdim() as int) by {
        lemma_element(a, e);
        let nodes = a.nodes(e);
        let r = d * nodes[k] + i;
        let cols = m.rows()[r].cols();
        assert(d * nodes[k] + d <= d * n);
        assert(cols == p.lanes()[r]);
        assert forall|l: int, j: int| #![trigger has(cols, d * nodes[l] + j)] 0 <= l < nodes.len() && 0 <= j < d implies has(cols, d * nodes[l] + j) by {
            let c = d * nodes[l] + j;
            assert(d * nodes[l] + d <= d * n);
            lemma_mod(d, r, n);
            lemma_mod(d, c, n);
            lemma_quotient(d, nodes[k] as int, i);
            lemma_quotient(d, nodes[l] as int, j);
            assert(occurs(nodes, nodes.len() as int, nodes[k] as int)) by { assert(nodes[k] == nodes[k]); };
            assert(occurs(nodes, nodes.len() as int, nodes[l] as int)) by { assert(nodes[l] == nodes[l]); };
            assert(in_element(a, e, r / d, c / d));
            assert(adjacent(a, a.count() as int, r / d, c / d));
            assert(occurs(cols, cols.len() as int, c));
        }
    }
}
pub proof fn lemma_quotient(d: int, q: int, i: int)
    requires 0 <= i < d, 0 <= q
    ensures (d * q + i) / d == q
{
    assert(d * q == q * d) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(d * q + i, d, q, i);
}
pub open spec fn of_pattern(m: CsrMatrix, p: SparsityPattern) -> bool {
    &&& m.rows().len() == p.lanes().len()
    &&& forall|r: int| 0 <= r < p.lanes().len() ==> (#[trigger] m.rows()[r]).cols() == p.lanes()[r] && m.rows()[r].vals().len() == p.lanes()[r].len() && p.lanes()[r].len() <= usize::MAX
}
impl CsrMatrix {
    // a pattern and as many values as it has entries: filled row by row
    #[verifier::external_body]
    pub fn try_from_pattern_and_values(p: SparsityPattern, vals: Vec<T>) -> (res: Result<CsrMatrix, Report>)
        ensures
            res.is_ok() <==> vals@.len() == p.nnz_(),
            res matches Ok(m) ==> of_pattern(m, p) && forall|r: int, q: int| 0 <= r < m.rows().len() && 0 <= q < m.rows()[r].vals().len() ==> exists|k: int| 0 <= k < vals@.len() && (#[trigger] m.rows()[r].vals()[q]) == vals@[k]
    { unimplemented!() }
}
impl SparsityPattern {
    pub uninterp spec fn nnz_(&self) -> nat;
    #[verifier::external_body]
    pub fn nnz(&self) -> (r: usize) ensures r == self.nnz_() { unimplemented!() }
}
#[verifier::external_body]
pub fn zeros(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
impl CsrAssembler {
    // the contract proved in the unit `pattern`
    #[verifier::external_body]
    pub fn assemble_pattern<A: Elements>(&self, element_assembler: &A) -> (res: SparsityPattern)
        requires
            valid(*element_assembler), element_assembler.sdim() > 0,
            (element_assembler.sdim() * element_assembler.n()) * (element_assembler.sdim() * element_assembler.n()) <= usize::MAX, element_assembler.sdim() * element_assembler.n() < usize::MAX,
        ensures pattern_of(*element_assembler, res)
    { unimplemented!() }
//@ fn src/assembly/global.rs impl<T: Real> CsrAssembler<T> :: assemble
//@ instantiate T = real numbers
//@ subst impl ElementMatrixAssembler<T> => impl Elements
//@ subst eyre::Result<CsrMatrix<T>> => Result<CsrMatrix, Report>
//@ subst vec![T::zero(); pattern.nnz()] => zeros(T::zero(), pattern.nnz())
//@ ret res
//@ spec
    requires
        valid(*element_assembler), element_assembler.sdim() > 0,
        (element_assembler.sdim() * element_assembler.n()) * (element_assembler.sdim() * element_assembler.n()) <= usize::MAX, element_assembler.sdim() * element_assembler.n() < usize::MAX,
    ensures
        res.is_ok() == (forall|e: int| 0 <= e < element_assembler.count() ==> (#[trigger] element_assembler.matrix(e)).is_some()),
        res matches Ok(m) ==> m.well_formed() && m.rows().len() == element_assembler.sdim() * element_assembler.n(),
        // a stored entry is the sum of the element contributions, and entries that couple through no element are not stored
        res matches Ok(m) ==> forall|r: int, q: int| 0 <= r < m.rows().len() && 0 <= q < m.rows()[r].cols().len() ==>
            (#[trigger] m.rows()[r].vals()[q]).v() == total_entry(*element_assembler, r, m.rows()[r].cols()[q] as int, element_assembler.count() as int),
        res matches Ok(m) ==> forall|r: int, c: int| 0 <= r < m.rows().len() && 0 <= c < m.rows().len() ==>
            (#[trigger] occurs(m.rows()[r].cols(), m.rows()[r].cols().len() as int, c) <==> adjacent(*element_assembler, element_assembler.count() as int, r / (element_assembler.sdim() as int), c / (element_assembler.sdim() as int))),
//@ before self[.]assemble_into_csr
    proof { lemma_pairs(*element_assembler, pattern_, matrix); }
//@ after let pattern
    let ghost pattern_ = pattern;
//@ done
//@ fn src/assembly/global.rs impl<T: Real> CsrAssembler<T> :: assemble_into_csr
//@ instantiate T = real numbers
//@ subst &mut CsrMatrix<T> => &mut CsrMatrix
//@ subst impl ElementMatrixAssembler<T> => impl Elements
//@ subst eyre::Result<()> => Result<(), Report>
//@ subst let ws = &mut *self.workspace.borrow_mut(); => let mut workspace = some_workspace(); let ws = &mut workspace;
//@ subst DMatrixViewMut::from(&mut *element_matrix) => &mut *element_matrix
//@ subst element_assembler.assemble_element_matrix_into( => element_matrix_into(element_assembler,
//@ subst connectivity_permutation.extend( => extend_range(connectivity_permutation,
//@ subst connectivity_permutation.sort_unstable_by_key( => sort_by_key_(connectivity_permutation, Ghost(key_of(nodes)),
//@ subst element_global_nodes.iter().enumerate() => enumerated(element_global_nodes.as_slice())
//@ subst &element_global_nodes, => element_global_nodes.as_slice(),
//@ subst &connectivity_permutation, => connectivity_permutation.as_slice(),
//@ subst &a_row => a_row
//@ ret res
//@ closures 1
//@ closure 0 &usize ; k: usize
    requires *a0 < element_global_nodes@.len()
    ensures k == element_global_nodes@[*a0 as int]
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        valid(*element_assembler), old(csr).well_formed(), old(csr).rows().len() == element_assembler.sdim() * element_assembler.n(), has_pairs(*element_assembler, *old(csr)),
    ensures
        same_pattern(*final(csr), *old(csr)),
        res.is_ok() == (forall|e: int| 0 <= e < element_assembler.count() ==> (#[trigger] element_assembler.matrix(e)).is_some()),
        res.is_ok() ==> forall|r: int, q: int| 0 <= r < old(csr).rows().len() && 0 <= q < old(csr).rows()[r].cols().len() ==>
            (#[trigger] final(csr).rows()[r].vals()[q]).v() == old(csr).rows()[r].vals()[q].v()
                + total_entry(*element_assembler, r, old(csr).rows()[r].cols()[q] as int, element_assembler.count() as int),
//@ start
    let ghost a = *element_assembler;
    let ghost m0 = *csr;
    let ghost d = a.sdim() as int;
//@ loop 0
    invariant
        same_pattern(*csr, m0), csr.well_formed(),
        forall|e: int| 0 <= e < i ==> (#[trigger] a.matrix(e)).is_some(),
        forall|r: int, q: int| 0 <= r < m0.rows().len() && 0 <= q < m0.rows()[r].cols().len() ==> (#[trigger] csr.rows()[r].vals()[q]).v() == m0.rows()[r].vals()[q].v()
            + total_entry(a, r, m0.rows()[r].cols()[q] as int, i as int),
//@ loop-start 0
    let ghost e = i as int;
    let ghost nodes = a.nodes(e);
    let ghost m1 = *csr;
    proof { lemma_element(a, e); }
//@ loop-before 1
    let ghost perm = connectivity_permutation@;
    proof { lemma_sorted(perm, nodes); }
    let ghost em = entries(*element_matrix);
//@ loop 1 it
    invariant
        it.seq().len() == nodes.len(),
        forall|k: int| 0 <= k < nodes.len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == nodes[k],
        same_pattern(*csr, m0), csr.well_formed(),
        forall|r: int, q: int| 0 <= r < m0.rows().len() && 0 <= q < m0.rows()[r].cols().len() ==> (#[trigger] csr.rows()[r].vals()[q]).v() == m1.rows()[r].vals()[q].v()
            + element_entry(nodes, d, em, r, m0.rows()[r].cols()[q] as int, it.index() as int),
//@ loop-start 1
    let ghost k = it.index() as int;
    proof { lemma_block(d, k, nodes.len() as int); assert(*global_node_idx == nodes[k]); }
//@ loop 2
    invariant
        same_pattern(*csr, m0), csr.well_formed(),
        forall|r: int, q: int| 0 <= r < m0.rows().len() && 0 <= q < m0.rows()[r].cols().len() ==> (#[trigger] csr.rows()[r].vals()[q]).v() == m1.rows()[r].vals()[q].v()
            + element_entry(nodes, d, em, r, m0.rows()[r].cols()[q] as int, k)
            + (if d * nodes[k] <= r < d * nodes[k] + i { sum_all(block_entry(nodes, d, em[d * k + (r - d * nodes[k])], m0.rows()[r].cols()[q] as int), nodes.len() as int) } else { 0real }),
//@ loop-start 2
    let ghost m2 = *csr;
    proof {
        assert(m0.rows()[d * nodes[k] + i].cols() == m2.rows()[d * nodes[k] + i].cols());
        assert(em[d * k + i] == reals(element_matrix.rows_()[d * k + i]));
    }
//@ loop-end 2
    proof {
        let g = d * nodes[k] + i;
        assert forall|r: int| 0 <= r < m0.rows().len() && r != g implies #[trigger] csr.rows()[r] == m2.rows()[r] by { }
        assert forall|r: int, q: int| 0 <= r < m0.rows().len() && 0 <= q < m0.rows()[r].cols().len() implies (#[trigger] csr.rows()[r].vals()[q]).v() == m1.rows()[r].vals()[q].v()
            + element_entry(nodes, d, em, r, m0.rows()[r].cols()[q] as int, k)
            + (if d * nodes[k] <= r < d * nodes[k] + (i + 1) { sum_all(block_entry(nodes, d, em[d * k + (r - d * nodes[k])], m0.rows()[r].cols()[q] as int), nodes.len() as int) } else { 0real }) by {
            assert(csr.rows()[r].cols() == m0.rows()[r].cols());
            if r == g {
                let f = block_entry(nodes, d, em[d * k + i], m0.rows()[r].cols()[q] as int);
                lemma_sum_rearranged(perm, identity(nodes.len()), f);
                lemma_sum_identity(f, nodes.len(), nodes.len() as int);
            } else {
                assert(csr.rows()[r] == m2.rows()[r]);
                assert(m2.rows()[r].vals()[q] == csr.rows()[r].vals()[q]);
            }
        }
    }
//@ done
}
pub proof fn lemma_sorted(perm: Seq<usize>, nodes: Seq<usize>)
    requires
        perm.to_multiset() == identity(nodes.len()).to_multiset(), nodes.len() <= usize::MAX,
        forall|a: int, b: int| 0 <= a <= b < perm.len() ==> nodes[(#[trigger] perm[a]) as int] <= nodes[(#[trigger] perm[b]) as int],
    ensures sorted_by(perm, nodes)
{
    let id = identity(nodes.len());
    perm.to_multiset_ensures();
    id.to_multiset_ensures();
    assert(perm.len() == nodes.len());
    assert forall|t: int| 0 <= t < perm.len() implies (#[trigger] perm[t]) < nodes.len() by {
        assert(perm.contains(perm[t]));
        assert(perm.to_multiset().count(perm[t]) > 0);
        assert(id.contains(perm[t]));
    }
}
fn main() {}
}
