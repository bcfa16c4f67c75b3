pub open spec fn row_of(ci: Seq<usize>, o: Seq<usize>, r: int) -> Seq<usize> { ci.subrange(o[r] as int, o[r + 1] as int) }
// nalgebra-sparse's pattern: built without a check, which is allowed only of valid data
#[verifier::external_body]
pub struct SparsityPattern { x: Vec<Vec<usize>> }
impl SparsityPattern {
    pub uninterp spec fn lanes(&self) -> Seq<Seq<usize>>;
    pub uninterp spec fn minor(&self) -> nat;
    #[verifier::external_body]
    pub fn unchecked(rows: usize, cols: usize, offsets: Vec<usize>, indices: Vec<usize>) -> (r: SparsityPattern)
        requires
            offsets@.len() == rows + 1, offsets@[0] == 0, offsets@[rows as int] == indices@.len(),
            forall|i: int| 0 <= i < rows ==> (#[trigger] offsets@[i]) <= offsets@[i + 1] <= indices@.len(),
            forall|i: int| 0 <= i < rows ==> increasing(#[trigger] row_of(indices@, offsets@, i)),
            forall|i: int, k: int| 0 <= i < rows && 0 <= k < row_of(indices@, offsets@, i).len() ==> (#[trigger] row_of(indices@, offsets@, i)[k]) < cols,
        ensures
            r.lanes().len() == rows, r.minor() == cols, forall|i: int| 0 <= i < rows ==> #[trigger] r.lanes()[i] == row_of(indices@, offsets@, i)
    { unimplemented!() }
}
// nodes m and x share one of the first `upto` elements
pub open spec fn in_element<A: Elements>(a: A, e: int, m: int, x: int) -> bool {
    occurs(a.nodes(e), a.nodes(e).len() as int, m) && occurs(a.nodes(e), a.nodes(e).len() as int, x)
}
pub open spec fn adjacent<A: Elements>(a: A, upto: int, m: int, x: int) -> bool {
    exists|e: int| 0 <= e < upto && #[trigger] in_element(a, e, m, x)
}
pub open spec fn occurs(s: Seq<usize>, upto: int, m: int) -> bool { exists|k: int| 0 <= k < upto && #[trigger] s[k] == m }
// rows are numbered node by node, as many for each as the solution has components
pub open spec fn pattern_of<A: Elements>(a: A, p: SparsityPattern) -> bool {
    &&& p.lanes().len() == a.sdim() * a.n() && p.minor() == a.sdim() * a.n()
    &&& forall|r: int| 0 <= r < p.lanes().len() ==> increasing(#[trigger] p.lanes()[r])
    &&& forall|r: int, k: int| 0 <= r < p.lanes().len() && 0 <= k < p.lanes()[r].len() ==> (#[trigger] p.lanes()[r][k]) < p.minor()
    &&& forall|r: int, c: int| 0 <= r < p.lanes().len() && 0 <= c < p.minor() ==> (#[trigger] occurs(p.lanes()[r], p.lanes()[r].len() as int, c) <==> adjacent(a, a.count() as int, r / (a.sdim() as int), c / (a.sdim() as int)))
}
pub proof fn lemma_mod(d: int, t: int, n: int)
    requires 0 < d, 0 <= t < d * n
    ensures 0 <= t / d < n, 0 <= t % d < d, t == d * (t / d) + t % d
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, d);
    assert(0 <= t % d < d) by (nonlinear_arith) requires 0 < d;
    assert(t / d >= 0) by (nonlinear_arith) requires 0 < d, t >= 0;
    assert(t / d < n) by (nonlinear_arith) requires 0 < d, t < d * n, t == d * (t / d) + t % d, 0 <= t % d;
}
