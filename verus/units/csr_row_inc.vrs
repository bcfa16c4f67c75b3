// `v.iter().copied().enumerate()`, as a position in the slice
#[verifier::external_body]
pub struct Columns<'a> { s: &'a [usize], i: usize }
impl<'a> Columns<'a> {
    pub uninterp spec fn cols(&self) -> Seq<usize>;
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn of(s: &'a [usize]) -> (r: Columns<'a>) ensures r.cols() == s@, r.at() == 0 { Columns { s, i: 0 } }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Columns<'a>) ensures r == *self { Columns { s: self.s, i: self.i } }
    // `Iterator::find`
    #[verifier::external_body]
    pub fn find<F: Fn(&(usize, usize)) -> bool>(&mut self, f: F) -> (r: Option<(usize, usize)>)
        requires forall|x: &(usize, usize)| #![trigger call_requires(f, (x,))] call_requires(f, (x,))
        ensures
            final(self).cols() == old(self).cols(),
            r matches Some((q, c)) ==> old(self).at() <= q < old(self).cols().len() && c == old(self).cols()[q as int] && call_ensures(f, (&(q, c),), true) && final(self).at() == q + 1,
            r.is_none() ==> forall|q: int| old(self).at() <= q < old(self).cols().len() ==> call_ensures(f, (&(q as usize, #[trigger] old(self).cols()[q]),), false)
    { unimplemented!() }
}
// f summed over the first `upto` entries of s
pub open spec fn sum_over(s: Seq<usize>, f: spec_fn(int) -> real, upto: int) -> real decreases upto {
    if upto <= 0 { 0real } else { sum_over(s, f, upto - 1) + f(s[upto - 1] as int) }
}
// what local column block k contributes to column c
pub open spec fn block_entry(nodes: Seq<usize>, d: int, row: Seq<real>, c: int) -> spec_fn(int) -> real {
    |k: int| if d * nodes[k] <= c < d * nodes[k] + d { row[d * k + (c - d * nodes[k])] } else { 0real }
}
pub open spec fn sorted_by(perm: Seq<usize>, nodes: Seq<usize>) -> bool {
    &&& perm.len() == nodes.len()
    &&& forall|t: int| 0 <= t < perm.len() ==> (#[trigger] perm[t]) < nodes.len()
    &&& forall|t: int, u: int| 0 <= t <= u < perm.len() ==> nodes[(#[trigger] perm[t]) as int] <= nodes[(#[trigger] perm[u]) as int]
}
pub open spec fn increasing(s: Seq<usize>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]) < (#[trigger] s[b]) }
pub open spec fn has(s: Seq<usize>, c: int) -> bool { exists|q: int| 0 <= q < s.len() && #[trigger] s[q] == c }
// the row has every column of every node of the element
pub open spec fn covers(cols: Seq<usize>, nodes: Seq<usize>, d: int) -> bool {
    forall|k: int, i: int| #![trigger has(cols, d * nodes[k] + i)] 0 <= k < nodes.len() && 0 <= i < d ==> has(cols, d * nodes[k] + i)
}
pub open spec fn reals(s: Seq<T>) -> Seq<real> { s.map_values(|x: T| x.v()) }

//@ fn src/assembly/global.rs add_element_row_to_csr_row
//@ instantiate T = real numbers
//@ subst &Matrix<T, U1, Dyn, S> => &[T]
//@ subst local_row.ncols() => local_row.len()
//@ subst col_indices.iter().copied().enumerate() => Columns::of(col_indices)
//@ closures 1
//@ closure 0 &(usize, usize) ; b: bool
    ensures b == (a0.1 == global_col_index)
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        old(row_values)@.len() == row_col_indices@.len(), increasing(row_col_indices@), row_col_indices@.len() <= usize::MAX,
        sorted_by(sorted_permutation@, node_connectivity@), dim >= 1,
        node_connectivity@.len() * dim == local_row@.len(), local_row@.len() <= usize::MAX,
        covers(row_col_indices@, node_connectivity@, dim as int),
    ensures
        final(row_values)@.len() == old(row_values)@.len(),
        forall|q: int| 0 <= q < row_col_indices@.len() ==> (#[trigger] final(row_values)@[q]).v() == old(row_values)@[q].v()
            + sum_over(sorted_permutation@, block_entry(node_connectivity@, dim as int, reals(local_row@), row_col_indices@[q] as int), node_connectivity@.len() as int),
//@ start
    let ghost before = row_values@;
    let ghost cols = row_col_indices@;
    let ghost nodes = node_connectivity@;
    let ghost d = dim as int;
    let ghost lrow = reals(local_row@);
    proof { assert(nodes.len() * dim == dim * nodes.len()) by (nonlinear_arith); }
//@ loop 0 it
    invariant
        it.seq() == sorted_permutation@.as_ref(),
        values@.len() == before.len(), csr_col_idx_iter.cols() == cols, node_start_iter.cols() == cols,
        previous_node matches Some(g) ==> it.index() > 0 && g == nodes[sorted_permutation@[it.index() - 1] as int]
            && (forall|p: int| 0 <= p < csr_col_idx_iter.at() ==> (#[trigger] cols[p]) < d * g + d)
            && (forall|p: int| 0 <= p < node_start_iter.at() ==> (#[trigger] cols[p]) < d * g),
        previous_node.is_none() ==> csr_col_idx_iter.at() == 0,
        csr_col_idx_iter.at() <= cols.len(), node_start_iter.at() <= cols.len(),
        forall|q: int| 0 <= q < cols.len() ==> (#[trigger] values@[q]).v() == before[q].v() + sum_over(sorted_permutation@, block_entry(nodes, d, lrow, cols[q] as int), it.index() as int),
//@ loop-start 0
    let ghost t = it.index() as int;
    proof {
        assert(node_local_idx == sorted_permutation@[t]);
        lemma_block(d, node_local_idx as int, nodes.len() as int);
        if t > 0 {
            let g = nodes[sorted_permutation@[t - 1] as int];
            assert(g <= nodes[node_local_idx as int]);
            if g < nodes[node_local_idx as int] { lemma_block(d, g as int, nodes[node_local_idx as int] as int); }
        }
        assert(has(cols, d * nodes[node_local_idx as int] + (d - 1)));
    }
//@ loop 1
    invariant
        values@.len() == before.len(), csr_col_idx_iter.cols() == cols, csr_col_idx_iter.at() <= cols.len(),
        forall|p: int| 0 <= p < csr_col_idx_iter.at() ==> (#[trigger] cols[p]) < d * node_global_idx + i,
        forall|q: int| 0 <= q < cols.len() ==> (#[trigger] values@[q]).v() == before[q].v() + sum_over(sorted_permutation@, block_entry(nodes, d, lrow, cols[q] as int), t)
            + (if d * node_global_idx <= cols[q] < d * node_global_idx + i { lrow[d * node_local_idx + (cols[q] - d * node_global_idx)] } else { 0real }),
//@ loop-start 1
    proof { assert(has(cols, d * nodes[node_local_idx as int] + i)); }
//@ done
