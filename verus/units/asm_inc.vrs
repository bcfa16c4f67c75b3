// `s.iter().enumerate()`, as the sequence it yields
#[verifier::external_body]
pub fn enumerated<'a, X>(s: &'a [X]) -> (r: Vec<(usize, &'a X)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i]
{ s.iter().enumerate().collect() }
// nalgebra's views of ranges of rows: copied, added
#[verifier::external_body]
pub fn rows_copy(a: &mut Vec<T>, ra: Range<usize>, b: &Vec<T>, rb: Range<usize>)
    requires ra.start <= ra.end <= old(a)@.len(), rb.start <= rb.end <= b@.len(), ra.end - ra.start == rb.end - rb.start
    ensures final(a)@.len() == old(a)@.len(), forall|i: int| 0 <= i < old(a)@.len() ==> #[trigger] final(a)@[i] == if ra.start <= i < ra.end { b@[rb.start + (i - ra.start)] } else { old(a)@[i] }
{ unimplemented!() }
#[verifier::external_body]
pub fn rows_add(a: &mut Vec<T>, ra: Range<usize>, b: &Vec<T>, rb: Range<usize>)
    requires ra.start <= ra.end <= old(a)@.len(), rb.start <= rb.end <= b@.len(), ra.end - ra.start == rb.end - rb.start
    ensures final(a)@.len() == old(a)@.len(), forall|i: int| 0 <= i < old(a)@.len() ==> (#[trigger] final(a)@[i]).v() == if ra.start <= i < ra.end { old(a)@[i].v() + b@[rb.start + (i - ra.start)].v() } else { old(a)@[i].v() }
{ unimplemented!() }
#[derive(Debug)]
pub struct Report;
// The contract of the element assembler traits: the number of elements and nodes, the nodes of each element,
// its scalar, vector and matrix (none when it reports an error)
pub trait Elements {
    spec fn sdim(&self) -> nat;
    spec fn count(&self) -> nat;
    spec fn n(&self) -> nat;
    spec fn nodes(&self, e: int) -> Seq<usize>;
    spec fn scalar(&self, e: int) -> Option<real>;
    spec fn vector(&self, e: int) -> Option<Seq<real>>;
    spec fn matrix(&self, e: int) -> Option<Seq<Seq<real>>>;
    fn solution_dim(&self) -> (r: usize) ensures r == self.sdim();
    fn num_elements(&self) -> (r: usize) ensures r == self.count();
    fn num_nodes(&self) -> (r: usize) ensures r == self.n();
    fn element_node_count(&self, e: usize) -> (r: usize) requires e < self.count() ensures r == self.nodes(e as int).len();
    fn populate_element_nodes(&self, output: &mut Vec<usize>, e: usize)
        requires e < self.count(), old(output)@.len() == self.nodes(e as int).len()
        ensures final(output)@ == self.nodes(e as int);
    fn assemble_element_scalar(&self, e: usize) -> (r: Result<T, Report>)
        requires e < self.count()
        ensures r.is_ok() == self.scalar(e as int).is_some(), r matches Ok(x) ==> x.v() == self.scalar(e as int).unwrap();
    fn assemble_element_vector_into(&self, e: usize, output: &mut Vec<T>) -> (r: Result<(), Report>)
        requires e < self.count(), old(output)@.len() == self.sdim() * self.nodes(e as int).len()
        ensures
            final(output)@.len() == old(output)@.len(), r.is_ok() == self.vector(e as int).is_some(),
            r.is_ok() ==> values(final(output)@) == self.vector(e as int).unwrap();
}
pub open spec fn values(s: Seq<T>) -> Seq<real> { s.map_values(|x: T| x.v()) }
pub open spec fn valid<A: Elements>(a: A) -> bool {
    &&& a.sdim() * a.n() <= usize::MAX
    &&& forall|e: int, k: int| #![trigger a.nodes(e)[k]] 0 <= e < a.count() && 0 <= k < a.nodes(e).len() ==> a.nodes(e)[k] < a.n()
    &&& forall|e: int| #![trigger a.nodes(e)] 0 <= e < a.count() ==> a.sdim() * a.nodes(e).len() <= usize::MAX
}
// block k of size s ends before block n begins
pub proof fn lemma_block(s: int, k: int, n: int)
    requires 0 <= s, 0 <= k < n
    ensures 0 <= s * k, s * k + s <= s * n, s * (k + 1) == s * k + s
{
    assert(0 <= s * k && s * k + s <= s * n && s * (k + 1) == s * k + s) by (nonlinear_arith) requires 0 <= s, 0 <= k < n;
}
