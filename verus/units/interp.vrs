use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs

//@ struct src/space/fixed_interpolator.rs FixedInterpolator

pub open spec fn reals(s: Seq<T>) -> Seq<real> { s.map_values(|x: T| x.v()) }
pub proof fn lemma_block(s: int, j: int, n: int)
    requires 0 <= j < n, 0 <= s
    ensures 0 <= s * j, s * j + s <= s * n, s * (j + 1) == s * j + s
{
    assert(s * (j + 1) <= s * n) by (nonlinear_arith) requires j + 1 <= n, 0 <= s;
    assert(s * (j + 1) == s * j + s) by (nonlinear_arith);
    assert(0 <= s * j) by (nonlinear_arith) requires 0 <= j, 0 <= s;
}
// the dimensions of the solution and of space
pub struct SolutionDim;
impl SolutionDim {
    pub uninterp spec fn d() -> int;
    #[verifier::external_body]
    pub fn dim() -> (r: usize) ensures r == Self::d() { unimplemented!() }
    pub fn name() -> SolutionDim { SolutionDim }
}
pub struct GeometryDim;
impl GeometryDim {
    pub uninterp spec fn d() -> int;
    #[verifier::external_body]
    pub fn dim() -> (r: usize) ensures r == Self::d() { unimplemented!() }
    pub fn name() -> GeometryDim { GeometryDim }
}
pub struct Dyn(pub usize);
// nalgebra: vectors of a static dimension, rows of a vector, matrices of static dimension, the columns of a matrix in a slice
pub struct OVector { pub x: Vec<T> }
impl OVector {
    pub open spec fn c(&self) -> Seq<T> { self.x@ }
    #[verifier::external_body]
    pub fn zeros() -> (r: OVector) ensures r.c().len() == SolutionDim::d(), forall|c: int| 0 <= c < SolutionDim::d() ==> (#[trigger] r.c()[c]).v() == 0real { unimplemented!() }
    // self += a * v
    #[verifier::external_body]
    pub fn add_multiple(&mut self, a: OVector, v: T) requires old(self).c().len() == a.c().len()
        ensures final(self).c().len() == old(self).c().len(), forall|c: int| 0 <= c < a.c().len() ==> (#[trigger] final(self).c()[c]).v() == old(self).c()[c].v() + a.c()[c].v() * v.v() { unimplemented!() }
}
#[verifier::external_body]
pub fn rows_generic(u: &Vec<T>, start: usize, n: SolutionDim) -> (r: OVector)
    requires start + SolutionDim::d() <= u@.len() ensures r.c() == u@.subrange(start as int, start + SolutionDim::d()) { unimplemented!() }
#[verifier::external_body]
pub struct OMatrix { x: Vec<T> }
impl OMatrix {
    pub uninterp spec fn at(&self, i: int, j: int) -> real;
    #[verifier::external_body]
    pub fn zeros() -> (r: OMatrix) ensures forall|i: int, j: int| #[trigger] r.at(i, j) == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn ger(&mut self, a: T, x: &Column, y: &OVector, b: T) requires x.c().len() == GeometryDim::d(), y.c().len() == SolutionDim::d()
        ensures forall|i: int, j: int| 0 <= i < GeometryDim::d() && 0 <= j < SolutionDim::d() ==> #[trigger] final(self).at(i, j) == a.v() * (x.c()[i].v() * y.c()[j].v()) + b.v() * old(self).at(i, j) { unimplemented!() }
}
#[verifier::external_body]
pub struct Column { x: Vec<T> }
impl Column { pub uninterp spec fn c(&self) -> Seq<T>; }
#[verifier::external_body]
pub struct MatrixView { x: Vec<T> }
impl MatrixView {
    pub uninterp spec fn data(&self) -> Seq<T>;
    pub uninterp spec fn cols(&self) -> int;
    #[verifier::external_body]
    pub fn from_slice_generic(s: &[T], g: GeometryDim, n: Dyn) -> (r: MatrixView) requires GeometryDim::d() * n.0 <= s@.len() ensures r.data() == s@, r.cols() == n.0 { unimplemented!() }
}
#[verifier::external_body]
pub fn column_pairs<'a>(m: &MatrixView, b: &'a [usize]) -> (r: Vec<(Column, &'a usize)>)
    requires m.cols() == b@.len(), GeometryDim::d() * m.cols() <= m.data().len()
    ensures r@.len() == b@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0.c() == m.data().subrange(GeometryDim::d() * k, GeometryDim::d() * k + GeometryDim::d()) && *r@[k].1 == b@[k] { unimplemented!() }
#[verifier::external_body]
pub fn pairs<'a>(a: &'a [T], b: &'a [usize]) -> (r: Vec<(&'a T, &'a usize)>)
    requires a@.len() == b@.len()
    ensures r@.len() == a@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]).0 == a@[k] && *r@[k].1 == b@[k] { unimplemented!() }

// sum over the nodes k in a..b of values[k] * u[s * index[k] + c]: component c of the interpolant
pub closed spec fn value(f: FixedInterpolator<T>, u: Seq<T>, c: int, a: int, b: int) -> real decreases b - a {
    if b <= a { 0real } else { value(f, u, c, a, b - 1) + u[SolutionDim::d() * f.node_indices@[b - 1] + c].v() * f.node_values.unwrap()@[b - 1].v() }
}
// derivative i of component j
pub closed spec fn gradient(f: FixedInterpolator<T>, u: Seq<T>, i: int, j: int, a: int, b: int) -> real decreases b - a {
    if b <= a { 0real } else { gradient(f, u, i, j, a, b - 1) + f.node_gradients.unwrap()@[GeometryDim::d() * (b - 1) + i].v() * u[SolutionDim::d() * f.node_indices@[b - 1] + j].v() }
}
// the node indices of consecutive points lie one after the other in the table
pub closed spec fn well_formed(f: FixedInterpolator<T>) -> bool {
    &&& f.supported_node_offsets@.len() >= 1
    &&& forall|i: int, j: int| 0 <= i <= j < f.supported_node_offsets@.len() ==> #[trigger] f.supported_node_offsets@[i] <= #[trigger] f.supported_node_offsets@[j]
    &&& f.supported_node_offsets@.last() <= f.node_indices@.len()
    &&& f.node_values matches Some(v) ==> v@.len() == f.node_indices@.len()
    &&& f.node_gradients matches Some(g) ==> g@.len() == GeometryDim::d() * f.node_indices@.len()
}
// every node has its values in u
pub closed spec fn covers(f: FixedInterpolator<T>, u: Seq<T>) -> bool {
    forall|k: int| 0 <= k < f.node_indices@.len() ==> SolutionDim::d() * (#[trigger] f.node_indices@[k]) + SolutionDim::d() <= u.len()
}
pub open spec fn max_is(m: Option<usize>, s: Seq<usize>) -> bool {
    match m { None => s.len() == 0, Some(m) => s.contains(m) && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] <= m }
}
#[verifier::external_body]
pub fn max_of(s: &Vec<usize>) -> (r: Option<usize>) ensures max_is(r, s@) { s.iter().max().copied() }

// the space that points are looked up in
#[verifier::external_body]
pub struct OPoint { x: Vec<T> }
#[verifier::external_body]
pub struct Space { x: Vec<T> }
#[verifier::external_body]
pub struct Matrix { x: Vec<T> }
impl Matrix {
    pub uninterp spec fn at(&self, i: int, j: int) -> real;
    pub uninterp spec fn inverse(&self) -> Option<Matrix>;
    pub uninterp spec fn transposed(&self) -> Matrix;
    #[verifier::external_body]
    pub fn try_inverse(self) -> (r: Option<Matrix>) ensures r == self.inverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn transpose(self) -> (r: Matrix) ensures r == self.transposed() { unimplemented!() }
}
// a matrix in the entries of a slice from `start` on
pub struct Tail { pub start: usize, pub len: usize }
pub fn tail(v: &Vec<T>, start: usize) -> (r: Tail) requires start <= v@.len() ensures r.start == start, r.len == v@.len() - start { Tail { start, len: v.len() - start } }
pub struct MatrixViewMut { pub start: usize, pub cols: usize }
impl MatrixViewMut {
    #[verifier::external_body]
    pub fn from_slice_generic(s: Tail, g: GeometryDim, n: Dyn) -> (r: MatrixViewMut) requires GeometryDim::d() * n.0 <= s.len ensures r.start == s.start, r.cols == n.0 { unimplemented!() }
}
pub open spec fn product(a: Matrix, b: Matrix, i: int, j: int, n: int) -> real decreases n { if n <= 0 { 0real } else { product(a, b, i, j, n - 1) + a.at(i, n - 1) * b.at(n - 1, j) } }
// the view into `v` = alpha a b + beta view
#[verifier::external_body]
pub fn gemm(v: &mut Vec<T>, view: &MatrixViewMut, alpha: T, a: &Matrix, b: &Gradients, beta: T)
    requires view.start + GeometryDim::d() * view.cols <= old(v)@.len(), b.cols() == view.cols
    ensures
        final(v)@.len() == old(v)@.len(),
        forall|k: int| 0 <= k < old(v)@.len() && !(view.start <= k < view.start + GeometryDim::d() * view.cols) ==> #[trigger] final(v)@[k] == old(v)@[k],
        forall|i: int, k: int| #![trigger product(*a, b.m(), i, k, GeometryDim::d())] 0 <= i < GeometryDim::d() && 0 <= k < view.cols ==>
            final(v)@[view.start + GeometryDim::d() * k + i].v() == alpha.v() * product(*a, b.m(), i, k, GeometryDim::d()) + beta.v() * old(v)@[view.start + GeometryDim::d() * k + i].v()
{ unimplemented!() }
#[verifier::external_body]
pub struct Gradients { x: Vec<T> }
impl Gradients { pub uninterp spec fn cols(&self) -> int; pub uninterp spec fn m(&self) -> Matrix; }
impl Space {
    pub uninterp spec fn closest(&self, p: OPoint) -> Option<(usize, OPoint)>;
    pub uninterp spec fn nodes(&self, e: int) -> Seq<usize>;
    pub uninterp spec fn basis(&self, e: int, xi: OPoint) -> Seq<real>;
    pub uninterp spec fn gradients(&self, e: int, xi: OPoint) -> Matrix;
    pub uninterp spec fn jacobian(&self, e: int, xi: OPoint) -> Matrix;
    #[verifier::external_body]
    pub fn find_closest_element_and_reference_coords(&self, p: &OPoint) -> (r: Option<(usize, OPoint)>) ensures r == self.closest(*p) { unimplemented!() }
    #[verifier::external_body]
    pub fn find_all(&self, p: &[OPoint], out: &mut Vec<Option<(usize, OPoint)>>) ensures final(out)@.len() == p@.len(), forall|k: int| 0 <= k < p@.len() ==> #[trigger] final(out)@[k] == self.closest(p@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn element_node_count(&self, e: usize) -> (r: usize) ensures r == self.nodes(e as int).len() { unimplemented!() }
    // what `populate_element_nodes` does to the tail of `v` that starts at `start`
    #[verifier::external_body]
    pub fn populate_element_nodes(&self, v: &mut Vec<usize>, start: usize, e: usize)
        requires old(v)@.len() == start + self.nodes(e as int).len()
        ensures final(v)@ == old(v)@.take(start as int) + self.nodes(e as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn populate_element_basis(&self, e: usize, v: &mut Vec<T>, start: usize, xi: &OPoint)
        requires old(v)@.len() == start + self.nodes(e as int).len()
        ensures final(v)@.len() == old(v)@.len(), final(v)@.take(start as int) == old(v)@.take(start as int),
            forall|k: int| 0 <= k < self.nodes(e as int).len() ==> final(v)@[start + k].v() == #[trigger] self.basis(e as int, *xi)[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn populate_element_gradients(&self, e: usize, v: MatrixViewMut, xi: &OPoint) -> (r: Gradients)
        requires v.cols == self.nodes(e as int).len()
        ensures r.cols() == v.cols, r.m() == self.gradients(e as int, *xi) { unimplemented!() }
    #[verifier::external_body]
    pub fn element_reference_jacobian(&self, e: usize, xi: &OPoint) -> (r: Matrix) ensures r == self.jacobian(e as int, *xi) { unimplemented!() }
}
// a vector holds at most isize::MAX bytes
#[verifier::external_body]
pub fn extend_repeat<A: Copy>(v: &mut Vec<A>, x: A, n: usize) ensures final(v)@.len() == old(v)@.len() + n, final(v)@.len() < usize::MAX, final(v)@.take(old(v)@.len() as int) == old(v)@ { unimplemented!() }
#[verifier::external_body]
pub fn resize(v: &mut Vec<T>, n: usize, x: T) ensures final(v)@.len() == n { v.resize(n, x) }
#[verifier::external_body]
pub fn optional(yes: bool) -> (r: Option<Vec<T>>) ensures r.is_some() == yes, r matches Some(v) ==> v@.len() == 0 { if yes { Some(Vec::new()) } else { None } }
pub fn all_of<F: Fn(&usize) -> bool>(v: &Vec<usize>, f: F) -> (r: bool)
    requires forall|k: int| 0 <= k < v@.len() ==> call_requires(f, (&#[trigger] v@[k],))
    ensures r ==> forall|k: int| 0 <= k < v@.len() ==> call_ensures(f, (&#[trigger] v@[k],), true), !r ==> exists|k: int| 0 <= k < v@.len() && call_ensures(f, (&#[trigger] v@[k],), false)
{
    for i in 0..v.len()
        invariant forall|k: int| 0 <= k < v@.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int| 0 <= k < i ==> call_ensures(f, (&#[trigger] v@[k],), true)
    {
        if !f(&v[i]) { return false; }
    }
    true
}
//@ struct src/space/fixed_interpolator.rs ValuesOrGradients plain
// the inverse transpose of the Jacobian at xi times the reference gradient of node k, component i
pub open spec fn physical(s: Space, e: int, xi: OPoint, i: int, k: int) -> real {
    product(s.jacobian(e, xi).inverse().unwrap().transposed(), s.gradients(e, xi), i, k, GeometryDim::d())
}
// what the tables say of the point whose nodes start at `start` and end before `end`
pub open spec fn point_nodes(s: Space, at: Option<(usize, OPoint)>, idx: Seq<usize>, start: int, end: int) -> bool {
    match at {
        None => end == start,
        Some((e, xi)) => end == start + s.nodes(e as int).len() && end <= idx.len() && forall|k: int| 0 <= k < s.nodes(e as int).len() ==> idx[start + k] == #[trigger] s.nodes(e as int)[k],
    }
}
pub open spec fn point_values(s: Space, at: Option<(usize, OPoint)>, values: Seq<T>, start: int) -> bool {
    match at {
        None => true,
        Some((e, xi)) => forall|k: int| 0 <= k < s.nodes(e as int).len() ==> values[start + k].v() == #[trigger] s.basis(e as int, xi)[k],
    }
}
pub open spec fn point_gradients(s: Space, at: Option<(usize, OPoint)>, g: Seq<T>, start: int) -> bool {
    match at {
        None => true,
        Some((e, xi)) => forall|i: int, k: int| 0 <= i < GeometryDim::d() && 0 <= k < s.nodes(e as int).len() ==> g[GeometryDim::d() * (start + k) + i].v() == #[trigger] physical(s, e as int, xi, i, k),
    }
}
// the tables of the first points: `off` holds where the nodes of each point start and, last, where the next ones would
#[verifier::opaque]
pub open spec fn node_table(s: Space, points: Seq<OPoint>, off: Seq<usize>, idx: Seq<usize>) -> bool {
    forall|p: int| 0 <= p < off.len() - 1 ==> point_nodes(s, s.closest(points[p]), idx, #[trigger] off[p] as int, off[p + 1] as int)
}
#[verifier::opaque]
pub open spec fn value_table(s: Space, points: Seq<OPoint>, off: Seq<usize>, v: Seq<T>) -> bool {
    forall|p: int| 0 <= p < off.len() - 1 ==> point_values(s, s.closest(points[p]), v, #[trigger] off[p] as int)
}
#[verifier::opaque]
pub open spec fn gradient_table(s: Space, points: Seq<OPoint>, off: Seq<usize>, g: Seq<T>) -> bool {
    forall|p: int| 0 <= p < off.len() - 1 ==> point_gradients(s, s.closest(points[p]), g, #[trigger] off[p] as int)
}
pub open spec fn ordered(off: Seq<usize>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < off.len() ==> #[trigger] off[i] <= #[trigger] off[j]
}
pub closed spec fn interpolates(f: FixedInterpolator<T>, s: Space, points: Seq<OPoint>) -> bool {
    &&& f.supported_node_offsets@.len() == points.len() + 1
    &&& node_table(s, points, f.supported_node_offsets@, f.node_indices@)
    &&& f.node_values matches Some(v) ==> value_table(s, points, f.supported_node_offsets@, v@)
    &&& f.node_gradients matches Some(g) ==> gradient_table(s, points, f.supported_node_offsets@, g@)
}
pub open spec fn usable(s: Space, at: Option<(usize, OPoint)>, gradients: bool) -> bool {
    at matches Some((e, xi)) ==> GeometryDim::d() * s.nodes(e as int).len() <= usize::MAX && (gradients ==> s.jacobian(e as int, xi).inverse() is Some)
}
// a table of nodes grows by the nodes of one more point
pub proof fn grow_nodes(s: Space, points: Seq<OPoint>, off: Seq<usize>, idx: Seq<usize>, idx2: Seq<usize>)
    requires
        ordered(off), off.len() >= 1, off.len() <= points.len(), off.last() == idx.len(), node_table(s, points, off, idx), idx2.len() <= usize::MAX,
        match s.closest(points[off.len() - 1]) { None => idx2 == idx, Some((e, xi)) => idx2 == idx + s.nodes(e as int) },
    ensures
        ordered(off.push(idx2.len() as usize)), node_table(s, points, off.push(idx2.len() as usize), idx2),
{
    reveal(node_table); reveal(value_table); reveal(gradient_table);
    let off2 = off.push(idx2.len() as usize);
    assert forall|p: int| 0 <= p < off2.len() - 1 implies point_nodes(s, s.closest(points[p]), idx2, #[trigger] off2[p] as int, off2[p + 1] as int) by {
        assert(off2[p] == off[p]);
        if p < off.len() - 1 {
            assert(off2[p + 1] == off[p + 1]);
            assert(off[p + 1] <= off[off.len() - 1]);
            assert(point_nodes(s, s.closest(points[p]), idx, off[p] as int, off[p + 1] as int));
        }
    }
    assert forall|i: int, j: int| 0 <= i <= j < off2.len() implies #[trigger] off2[i] <= #[trigger] off2[j] by {
        if j == off.len() && i < off.len() { assert(off[i] <= off[off.len() - 1]); }
    }
}
pub proof fn grow_values(s: Space, points: Seq<OPoint>, off: Seq<usize>, idx: Seq<usize>, n2: usize, v: Seq<T>, v2: Seq<T>)
    requires
        ordered(off), off.len() >= 1, off.len() <= points.len(), off.last() == idx.len(), node_table(s, points, off, idx), value_table(s, points, off, v),
        v.len() == idx.len(), v2.len() >= v.len(), forall|k: int| 0 <= k < v.len() ==> v2[k] == #[trigger] v[k], point_values(s, s.closest(points[off.len() - 1]), v2, off.last() as int),
    ensures value_table(s, points, off.push(n2), v2),
{
    reveal(node_table); reveal(value_table); reveal(gradient_table);
    let off2 = off.push(n2);
    assert forall|p: int| 0 <= p < off2.len() - 1 implies point_values(s, s.closest(points[p]), v2, #[trigger] off2[p] as int) by {
        assert(off2[p] == off[p]);
        if p < off.len() - 1 {
            assert(off[p + 1] <= off[off.len() - 1]);
            assert(point_nodes(s, s.closest(points[p]), idx, off[p] as int, off[p + 1] as int));
            assert(point_values(s, s.closest(points[p]), v, off[p] as int));
            match s.closest(points[p]) { None => (), Some((e, xi)) => {
                assert forall|k: int| 0 <= k < s.nodes(e as int).len() implies v2[off2[p] + k].v() == #[trigger] s.basis(e as int, xi)[k] by { assert(v[off[p] + k] == v2[off[p] + k]); }
            } }
        }
    }
}
pub proof fn grow_gradients(s: Space, points: Seq<OPoint>, off: Seq<usize>, idx: Seq<usize>, n2: usize, v: Seq<T>, v2: Seq<T>)
    requires
        ordered(off), off.len() >= 1, off.len() <= points.len(), off.last() == idx.len(), node_table(s, points, off, idx), gradient_table(s, points, off, v),
        0 < GeometryDim::d(),
        v.len() == GeometryDim::d() * idx.len(), v2.len() >= v.len(), forall|k: int| 0 <= k < v.len() ==> v2[k] == #[trigger] v[k], point_gradients(s, s.closest(points[off.len() - 1]), v2, off.last() as int),
    ensures gradient_table(s, points, off.push(n2), v2),
{
    reveal(node_table); reveal(value_table); reveal(gradient_table);
    let off2 = off.push(n2);
    let d = GeometryDim::d();
    assert forall|p: int| 0 <= p < off2.len() - 1 implies point_gradients(s, s.closest(points[p]), v2, #[trigger] off2[p] as int) by {
        assert(off2[p] == off[p]);
        if p < off.len() - 1 {
            assert(off[p + 1] <= off[off.len() - 1]);
            assert(point_nodes(s, s.closest(points[p]), idx, off[p] as int, off[p + 1] as int));
            assert(point_gradients(s, s.closest(points[p]), v, off[p] as int));
            match s.closest(points[p]) { None => (), Some((e, xi)) => {
                assert forall|i: int, k: int| 0 <= i < d && 0 <= k < s.nodes(e as int).len() implies v2[d * (off2[p] + k) + i].v() == #[trigger] physical(s, e as int, xi, i, k) by {
                    lemma_block(d, off[p] + k, idx.len() as int);
                    assert(v[d * (off[p] + k) + i] == v2[d * (off[p] + k) + i]);
                }
            } }
        }
    }
}
impl ValuesOrGradients {
    pub open spec fn v(&self) -> bool { self is Both || self is OnlyValues }
    pub open spec fn g(&self) -> bool { self is Both || self is OnlyGradients }
//@ fn src/space/fixed_interpolator.rs impl ValuesOrGradients :: compute_values
//@ subst use ValuesOrGradients::*; =>
//@ subst Both | OnlyValues => ValuesOrGradients::Both | ValuesOrGradients::OnlyValues
//@ subst OnlyGradients => ValuesOrGradients::OnlyGradients
//@ ret r
//@ spec
    ensures r == self.v()
//@ done
//@ fn src/space/fixed_interpolator.rs impl ValuesOrGradients :: compute_gradients
//@ subst use ValuesOrGradients::*; =>
//@ subst Both | OnlyGradients => ValuesOrGradients::Both | ValuesOrGradients::OnlyGradients
//@ subst OnlyValues => ValuesOrGradients::OnlyValues
//@ ret r
//@ spec
    ensures r == self.g()
//@ done
}
pub closed spec fn has_values(f: FixedInterpolator<T>) -> bool { f.node_values is Some }
pub closed spec fn has_gradients(f: FixedInterpolator<T>) -> bool { f.node_gradients is Some }
pub closed spec fn max_known(f: FixedInterpolator<T>) -> bool { max_is(f.max_node_index, f.node_indices@) }
pub closed spec fn points_of(f: FixedInterpolator<T>) -> int { f.supported_node_offsets@.len() - 1 }
pub closed spec fn gradient_len(f: FixedInterpolator<T>) -> int { f.node_gradients.unwrap()@.len() as int }
// one value for each point, each the sum over the nodes of the point
pub closed spec fn values_are(f: FixedInterpolator<T>, r: Seq<OVector>, u: Seq<T>) -> bool {
    &&& r.len() == points_of(f)
    &&& forall|i: int, c: int| 0 <= i < r.len() && 0 <= c < SolutionDim::d() ==> (#[trigger] r[i].c()[c]).v() == value(f, u, c, f.supported_node_offsets@[i] as int, f.supported_node_offsets@[i + 1] as int)
}
pub closed spec fn gradients_are(f: FixedInterpolator<T>, r: Seq<OMatrix>, u: Seq<T>) -> bool {
    &&& r.len() == points_of(f)
    &&& forall|k: int, i: int, j: int| 0 <= k < r.len() && 0 <= i < GeometryDim::d() && 0 <= j < SolutionDim::d() ==> #[trigger] r[k].at(i, j) == gradient(f, u, i, j, f.supported_node_offsets@[k] as int, f.supported_node_offsets@[k + 1] as int)
}
#[verifier::external_body]
pub fn repeated<A>(x: A, n: usize) -> (r: Vec<A>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
pub closed spec fn made_of(f: FixedInterpolator<T>, v: Option<Vec<T>>, g: Option<Vec<T>>, idx: Vec<usize>, off: Vec<usize>) -> bool {
    f.node_values == v && f.node_gradients == g && f.node_indices == idx && f.supported_node_offsets == off && max_is(f.max_node_index, idx@)
}
impl FixedInterpolator<T> {
//@ fn src/space/fixed_interpolator.rs impl<T> FixedInterpolator<T> where T: Real :: interpolate_into_
//@ instantiate T = real numbers
//@ subst &mut [OVector<T, SolutionDim>] => &mut Vec<OVector>
//@ subst DVectorView<'a, T> => &Vec<T>
//@ subst u.rows_generic( => rows_generic(u,
//@ subst izip!(node_values, node_indices) => pairs(node_values, node_indices)
//@ subst interpolated += u_j * v.clone(); => interpolated.add_multiple(u_j, v.clone());
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        well_formed(*self), covers(*self, u@), self.node_values is Some, 0 < SolutionDim::d(), max_is(self.max_node_index, self.node_indices@),
        old(result)@.len() + 1 == self.supported_node_offsets@.len(), self.supported_node_offsets@.len() <= usize::MAX, u@.len() <= usize::MAX,
    ensures
        final(result)@.len() == old(result)@.len(),
        forall|i: int, c: int| 0 <= i < final(result)@.len() && 0 <= c < SolutionDim::d() ==> (#[trigger] final(result)@[i].c()[c]).v() == value(*self, u@, c, self.supported_node_offsets@[i] as int, self.supported_node_offsets@[i + 1] as int),
//@ loop 0
    invariant
        result@.len() == old(result)@.len(),
        forall|k: int, c: int| 0 <= k < i && 0 <= c < SolutionDim::d() ==> (#[trigger] result@[k].c()[c]).v() == value(*self, u@, c, self.supported_node_offsets@[k] as int, self.supported_node_offsets@[k + 1] as int),
//@ loop 1 it
    invariant
        it.seq().len() == node_indices@.len(),
        forall|k: int| 0 <= k < node_indices@.len() ==> *(#[trigger] it.seq()[k]).0 == node_values@[k] && *it.seq()[k].1 == node_indices@[k],
        interpolated.c().len() == SolutionDim::d(),
        forall|c: int| 0 <= c < SolutionDim::d() ==> (#[trigger] interpolated.c()[c]).v() == value(*self, u@, c, i_support_start as int, i_support_start + it.index()),
//@ loop-start 1
    proof {
        assert(*j == self.node_indices@[i_support_start + it.index()]);
        assert(0 <= SolutionDim::d() * *j) by (nonlinear_arith) requires 0 <= SolutionDim::d();
    }
//@ done
//@ fn src/space/fixed_interpolator.rs impl<T> FixedInterpolator<T> where T: Real :: interpolate_gradients_into_
//@ instantiate T = real numbers
//@ subst &mut [OMatrix<T, GeometryDim, SolutionDim>] => &mut Vec<OMatrix>
//@ subst DVectorView<'a, T> => &Vec<T>
//@ subst u.rows_generic( => rows_generic(u,
//@ subst OMatrix::<T, GeometryDim, SolutionDim>::zeros() => OMatrix::zeros()
//@ subst izip!(node_gradients.column_iter(), node_indices) => column_pairs(&node_gradients, node_indices)
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        well_formed(*self), covers(*self, u@), self.node_gradients is Some, 0 < SolutionDim::d(), 0 < GeometryDim::d(), max_is(self.max_node_index, self.node_indices@),
        old(gradients)@.len() + 1 == self.supported_node_offsets@.len(), self.supported_node_offsets@.len() <= usize::MAX, u@.len() <= usize::MAX, self.node_gradients.unwrap()@.len() <= usize::MAX,
    ensures
        final(gradients)@.len() == old(gradients)@.len(),
        forall|k: int, i: int, j: int| 0 <= k < final(gradients)@.len() && 0 <= i < GeometryDim::d() && 0 <= j < SolutionDim::d() ==> #[trigger] final(gradients)@[k].at(i, j) == gradient(*self, u@, i, j, self.supported_node_offsets@[k] as int, self.supported_node_offsets@[k + 1] as int),
//@ loop 0
    invariant
        gradients@.len() == old(gradients)@.len(),
        forall|k: int, a: int, b: int| 0 <= k < i && 0 <= a < GeometryDim::d() && 0 <= b < SolutionDim::d() ==> #[trigger] gradients@[k].at(a, b) == gradient(*self, u@, a, b, self.supported_node_offsets@[k] as int, self.supported_node_offsets@[k + 1] as int),
//@ loop 1 it
    invariant
        it.seq().len() == node_indices@.len(),
        forall|k: int| 0 <= k < node_indices@.len() ==> (#[trigger] it.seq()[k]).0.c() == node_gradients.data().subrange(GeometryDim::d() * k, GeometryDim::d() * k + GeometryDim::d()) && *it.seq()[k].1 == node_indices@[k],
        forall|a: int, b: int| 0 <= a < GeometryDim::d() && 0 <= b < SolutionDim::d() ==> #[trigger] interpolated.at(a, b) == gradient(*self, u@, a, b, idx_start as int, idx_start + it.index()),
//@ before let gradients_begin
    proof {
        let d = GeometryDim::d();
        let n = self.node_indices@.len() as int;
        assert(idx_start <= idx_end <= n) by {
            assert(self.supported_node_offsets@[i as int] <= self.supported_node_offsets@[i + 1]);
            assert(self.supported_node_offsets@[i + 1] <= self.supported_node_offsets@.last());
        }
        assert(0 <= d * idx_start <= d * idx_end <= d * n && d * (idx_end - idx_start) == d * idx_end - d * idx_start) by (nonlinear_arith) requires 0 < d, 0 <= idx_start <= idx_end <= n;
    }
//@ loop-start 1
    proof {
        let d = GeometryDim::d();
        let k = it.index() as int;
        lemma_block(d, k, node_indices@.len() as int);
        assert(*j == self.node_indices@[idx_start + k]);
        assert(0 <= SolutionDim::d() * *j) by (nonlinear_arith) requires 0 <= SolutionDim::d();
        assert(d * (idx_start + k) == d * idx_start + d * k) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < d implies #[trigger] grad_j.c()[i] == self.node_gradients.unwrap()@[d * (idx_start + k) + i] by {
            assert(node_gradients.data().subrange(d * k, d * k + d)[i] == node_gradients.data()[d * k + i]);
        }
    }
//@ done
//@ fn src/space/fixed_interpolator.rs impl<T> FixedInterpolator<T> where T: Real :: interpolate_into
//@ instantiate T = real numbers
//@ subst &mut [OVector<T, SolutionDim>] => &mut Vec<OVector>
//@ subst impl Into<DVectorView<'a, T>> => &Vec<T>
//@ subst u.into() => u
//@ spec
    requires
        well_formed(*self), covers(*self, u@), has_values(*self), 0 < SolutionDim::d(), max_known(*self),
        old(result)@.len() == points_of(*self), old(result)@.len() < usize::MAX, u@.len() <= usize::MAX,
    ensures
        values_are(*self, final(result)@, u@),
//@ done
//@ fn src/space/fixed_interpolator.rs impl<T> FixedInterpolator<T> where T: Real :: interpolate
//@ instantiate T = real numbers
//@ subst Vec<OVector<T, SolutionDim>> => Vec<OVector>
//@ subst impl Into<DVectorView<'a, T>> => &Vec<T>
//@ subst vec![OVector::zeros(); num_interpolation_points] => repeated(OVector::zeros(), num_interpolation_points)
//@ ret res
//@ spec
    requires
        well_formed(*self), covers(*self, u@), has_values(*self), 0 < SolutionDim::d(), max_known(*self),
        u@.len() <= usize::MAX,
    ensures
        values_are(*self, res@, u@),
//@ done
//@ fn src/space/fixed_interpolator.rs impl<T> FixedInterpolator<T> where T: Real :: interpolate_gradients_into
//@ instantiate T = real numbers
//@ subst &mut [OMatrix<T, GeometryDim, SolutionDim>] => &mut Vec<OMatrix>
//@ subst impl Into<DVectorView<'a, T>> => &Vec<T>
//@ subst u.into() => u
//@ spec
    requires
        well_formed(*self), covers(*self, u@), has_gradients(*self), 0 < SolutionDim::d(), 0 < GeometryDim::d(), max_known(*self), gradient_len(*self) <= usize::MAX,
        old(result)@.len() == points_of(*self), old(result)@.len() < usize::MAX, u@.len() <= usize::MAX,
    ensures
        gradients_are(*self, final(result)@, u@),
//@ done
//@ fn src/space/fixed_interpolator.rs impl<T> FixedInterpolator<T> where T: Real :: interpolate_gradients
//@ instantiate T = real numbers
//@ subst Vec<OMatrix<T, GeometryDim, SolutionDim>> => Vec<OMatrix>
//@ subst impl Into<DVectorView<'a, T>> => &Vec<T>
//@ subst vec![OMatrix::<_, GeometryDim, SolutionDim>::zeros(); num_points] => repeated(OMatrix::zeros(), num_points)
//@ ret res
//@ spec
    requires
        well_formed(*self), covers(*self, u@), has_gradients(*self), 0 < SolutionDim::d(), 0 < GeometryDim::d(), max_known(*self), gradient_len(*self) <= usize::MAX,
        u@.len() <= usize::MAX,
    ensures
        gradients_are(*self, res@, u@),
//@ done
//@ fn src/space/fixed_interpolator.rs impl<T> FixedInterpolator<T> :: from_compressed_values
//@ instantiate T = real numbers
//@ subst supported_node_offsets.iter().all( => all_of(&supported_node_offsets,
//@ subst node_indices.iter().max().copied() => max_of(&node_indices)
//@ ret res
//@ spec
    requires
        forall|k: int| 0 <= k < supported_node_offsets@.len() ==> #[trigger] supported_node_offsets@[k] <= node_indices@.len(),
        node_values matches Some(v) ==> v@.len() == node_indices@.len(),
        node_gradients matches Some(g) ==> (node_indices@.len() != 0 ==> g@.len() % node_indices@.len() == 0) && (node_indices@.len() == 0 ==> g@.len() == 0),
        node_indices@.len() < usize::MAX,
    ensures
        made_of(res, node_values, node_gradients, node_indices, supported_node_offsets),
//@ closures 1
//@ closure 0 &usize ; r: bool
    ensures r == (*a0 < node_indices@.len() + 1)
//@ done
//@ fn src/space/fixed_interpolator.rs impl<T: Real> FixedInterpolator<T> :: from_space_and_points
//@ instantiate T = real numbers
//@ subst &[OPoint<T, Space::GeometryDim>] => &[OPoint]
//@ subst Space::GeometryDim => GeometryDim
//@ subst Space::ReferenceDim => GeometryDim
//@ subst what_to_compute.compute_values().then(|| Vec::new()) => optional(what_to_compute.compute_values())
//@ subst what_to_compute.compute_gradients().then(|| Vec::new()) => optional(what_to_compute.compute_gradients())
//@ subst node_indices.extend(repeat(usize::MAX).take(element_node_count)); => extend_repeat(&mut node_indices, usize::MAX, element_node_count);
//@ subst &mut node_indices[point_node_support_begin..] => &mut node_indices, point_node_support_begin
//@ subst node_values.extend(repeat(T::zero()).take(element_node_count)); => extend_repeat(&mut *node_values, T::zero(), element_node_count);
//@ subst &mut node_values[point_node_support_begin..] => &mut *node_values, point_node_support_begin
//@ subst ref_gradient_buffer_flat.resize( => resize(&mut ref_gradient_buffer_flat,
//@ subst &mut ref_gradient_buffer_flat, GeometryDim::name() => tail(&ref_gradient_buffer_flat, 0), GeometryDim::name()
//@ subst let mut ref_gradients => let ref_gradients
//@ subst space.populate_element_gradients(element_idx, ref_gradients.as_view_mut(), &xi) => let ref_gradients = space.populate_element_gradients(element_idx, ref_gradients, &xi)
//@ subst node_gradients.extend(repeat(T::zero()).take( => extend_repeat(&mut *node_gradients, T::zero(), (
//@ subst &mut node_gradients[point_node_gradients_begin..] => tail(&*node_gradients, point_node_gradients_begin)
//@ subst let mut gradient_buffer => let gradient_buffer
//@ subst gradient_buffer.gemm( => gemm(&mut *node_gradients, &gradient_buffer,
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
//@ spec
    requires
        0 < GeometryDim::d(), points@.len() < usize::MAX,
        forall|p: int| 0 <= p < points@.len() ==> usable(*space, space.closest(#[trigger] points@[p]), what_to_compute.g()),
    ensures
        interpolates(res, *space, points@), well_formed(res), has_values(res) == what_to_compute.v(), has_gradients(res) == what_to_compute.g(),
//@ before for point
    proof { reveal(node_table); reveal(value_table); reveal(gradient_table); }
//@ loop 0 it
    invariant
        it.seq().len() == points@.len(), forall|p: int| 0 <= p < points@.len() ==> *(#[trigger] it.seq()[p]) == points@[p],
        supported_node_offsets@.len() == it.index(), node_indices@.len() < usize::MAX,
        ordered(supported_node_offsets@.push(node_indices@.len() as usize)),
        node_table(*space, points@, supported_node_offsets@.push(node_indices@.len() as usize), node_indices@),
        node_values.is_some() == what_to_compute.v(),
        node_values matches Some(v) ==> v@.len() == node_indices@.len() && value_table(*space, points@, supported_node_offsets@.push(node_indices@.len() as usize), v@),
        node_gradients.is_some() == what_to_compute.g(),
        node_gradients matches Some(g) ==> g@.len() == GeometryDim::d() * node_indices@.len() && gradient_table(*space, points@, supported_node_offsets@.push(node_indices@.len() as usize), g@),
//@ loop-start 0
    let ghost p = it.index() as int;
    let ghost off0 = supported_node_offsets@.push(node_indices@.len() as usize);
    let ghost idx0 = node_indices@;
    let ghost v0 = node_values;
    let ghost g0 = node_gradients;
    let ghost gd = GeometryDim::d();
    proof { assert(usable(*space, space.closest(points@[p]), what_to_compute.g())); }
//@ before if let Some\(node_values\)
    let ghost n = element_node_count as int;
    proof {
        assert(node_indices@ == idx0 + space.nodes(element_idx as int)) by { assert(node_indices@ =~= idx0 + space.nodes(element_idx as int)); }
        assert(space.closest(points@[p]) == Some((element_idx, xi)));
    }
//@ before gemm\(
    proof {
        assert(gradient_buffer.start == gd * idx0.len());
        assert(ref_gradients.m() == space.gradients(element_idx as int, xi));
        assert(j_inv_t == space.jacobian(element_idx as int, xi).inverse().unwrap().transposed());
    }
//@ loop-end 0
    proof {
        if v0 is Some {
            let v = node_values.unwrap()@;
            assert forall|k: int| 0 <= k < v0.unwrap()@.len() implies v[k] == #[trigger] v0.unwrap()@[k] by { assert(v.take(idx0.len() as int)[k] == v[k]); }
            assert(point_values(*space, space.closest(points@[p]), v, idx0.len() as int));
            grow_values(*space, points@, off0, idx0, node_indices@.len() as usize, v0.unwrap()@, v);
        }
        if g0 is Some {
            let g = node_gradients.unwrap()@;
            assert forall|k: int| 0 <= k < g0.unwrap()@.len() implies g[k] == #[trigger] g0.unwrap()@[k] by { }
            let at = space.closest(points@[p]);
            if at is Some {
                let (e, xi) = at.unwrap();
                assert(gd * (idx0.len() + space.nodes(e as int).len()) == gd * idx0.len() + gd * space.nodes(e as int).len()) by (nonlinear_arith);
                assert forall|i: int, k: int| 0 <= i < gd && 0 <= k < space.nodes(e as int).len() implies g[gd * (idx0.len() + k) + i].v() == #[trigger] physical(*space, e as int, xi, i, k) by {
                    assert(gd * (idx0.len() + k) == gd * idx0.len() + gd * k) by (nonlinear_arith);
                }
            }
            grow_gradients(*space, points@, off0, idx0, node_indices@.len() as usize, g0.unwrap()@, g);
        }
        grow_nodes(*space, points@, off0, idx0, node_indices@);
        assert(supported_node_offsets@ == off0);
    }
//@ before if !\(points.len
    proof {
        let off = supported_node_offsets@;
        assert forall|k: int| 0 <= k < off.len() implies #[trigger] off[k] <= node_indices@.len() by { assert(off[k] <= off[off.len() - 1]); }
        let n = node_indices@.len() as int;
        assert(n != 0 ==> (GeometryDim::d() * n) % n == 0) by { if n != 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(GeometryDim::d(), n); } }
        assert(GeometryDim::d() * 0 == 0) by (nonlinear_arith);
    }
//@ done
//@ fn src/space/fixed_interpolator.rs impl<T: Real> FixedInterpolator<T> :: from_space_and_points_par
//@ instantiate T = real numbers
//@ subst &[OPoint<T, Space::GeometryDim>] => &[OPoint]
//@ subst Space::GeometryDim => GeometryDim
//@ subst Space::ReferenceDim => GeometryDim
//@ subst what_to_compute.compute_values().then(|| Vec::new()) => optional(what_to_compute.compute_values())
//@ subst what_to_compute.compute_gradients().then(|| Vec::new()) => optional(what_to_compute.compute_gradients())
//@ subst node_indices.extend(repeat(usize::MAX).take(element_node_count)); => extend_repeat(&mut node_indices, usize::MAX, element_node_count);
//@ subst &mut node_indices[point_node_support_begin..] => &mut node_indices, point_node_support_begin
//@ subst node_values.extend(repeat(T::zero()).take(element_node_count)); => extend_repeat(&mut *node_values, T::zero(), element_node_count);
//@ subst &mut node_values[point_node_support_begin..] => &mut *node_values, point_node_support_begin
//@ subst ref_gradient_buffer_flat.resize( => resize(&mut ref_gradient_buffer_flat,
//@ subst &mut ref_gradient_buffer_flat, GeometryDim::name() => tail(&ref_gradient_buffer_flat, 0), GeometryDim::name()
//@ subst let mut ref_gradients => let ref_gradients
//@ subst space.populate_element_gradients(element_idx, ref_gradients.as_view_mut(), &xi) => let ref_gradients = space.populate_element_gradients(element_idx, ref_gradients, &xi)
//@ subst node_gradients.extend(repeat(T::zero()).take( => extend_repeat(&mut *node_gradients, T::zero(), (
//@ subst &mut node_gradients[point_node_gradients_begin..] => tail(&*node_gradients, point_node_gradients_begin)
//@ subst let mut gradient_buffer => let gradient_buffer
//@ subst gradient_buffer.gemm( => gemm(&mut *node_gradients, &gradient_buffer,
//@ subst points.par_iter().map(|point| space.find_closest_element_and_reference_coords(point)).collect_into_vec( => space.find_all(points,
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
//@ spec
    requires
        0 < GeometryDim::d(), points@.len() < usize::MAX,
        forall|p: int| 0 <= p < points@.len() ==> usable(*space, space.closest(#[trigger] points@[p]), what_to_compute.g()),
    ensures
        interpolates(res, *space, points@), well_formed(res), has_values(res) == what_to_compute.v(), has_gradients(res) == what_to_compute.g(),
//@ before for closest
    proof { reveal(node_table); reveal(value_table); reveal(gradient_table); }
//@ loop 0 it
    invariant
        it.seq().len() == points@.len(), forall|p: int| 0 <= p < points@.len() ==> #[trigger] it.seq()[p] == space.closest(points@[p]),
        supported_node_offsets@.len() == it.index(), node_indices@.len() < usize::MAX,
        ordered(supported_node_offsets@.push(node_indices@.len() as usize)),
        node_table(*space, points@, supported_node_offsets@.push(node_indices@.len() as usize), node_indices@),
        node_values.is_some() == what_to_compute.v(),
        node_values matches Some(v) ==> v@.len() == node_indices@.len() && value_table(*space, points@, supported_node_offsets@.push(node_indices@.len() as usize), v@),
        node_gradients.is_some() == what_to_compute.g(),
        node_gradients matches Some(g) ==> g@.len() == GeometryDim::d() * node_indices@.len() && gradient_table(*space, points@, supported_node_offsets@.push(node_indices@.len() as usize), g@),
//@ loop-start 0
    let ghost p = it.index() as int;
    let ghost off0 = supported_node_offsets@.push(node_indices@.len() as usize);
    let ghost idx0 = node_indices@;
    let ghost v0 = node_values;
    let ghost g0 = node_gradients;
    let ghost gd = GeometryDim::d();
    proof { assert(usable(*space, space.closest(points@[p]), what_to_compute.g())); }
//@ before if let Some\(node_values\)
    let ghost n = element_node_count as int;
    proof {
        assert(node_indices@ == idx0 + space.nodes(element_idx as int)) by { assert(node_indices@ =~= idx0 + space.nodes(element_idx as int)); }
        assert(space.closest(points@[p]) == Some((element_idx, xi)));
    }
//@ before gemm\(
    proof {
        assert(gradient_buffer.start == gd * idx0.len());
        assert(ref_gradients.m() == space.gradients(element_idx as int, xi));
        assert(j_inv_t == space.jacobian(element_idx as int, xi).inverse().unwrap().transposed());
    }
//@ loop-end 0
    proof {
        if v0 is Some {
            let v = node_values.unwrap()@;
            assert forall|k: int| 0 <= k < v0.unwrap()@.len() implies v[k] == #[trigger] v0.unwrap()@[k] by { assert(v.take(idx0.len() as int)[k] == v[k]); }
            assert(point_values(*space, space.closest(points@[p]), v, idx0.len() as int));
            grow_values(*space, points@, off0, idx0, node_indices@.len() as usize, v0.unwrap()@, v);
        }
        if g0 is Some {
            let g = node_gradients.unwrap()@;
            assert forall|k: int| 0 <= k < g0.unwrap()@.len() implies g[k] == #[trigger] g0.unwrap()@[k] by { }
            let at = space.closest(points@[p]);
            if at is Some {
                let (e, xi) = at.unwrap();
                assert(gd * (idx0.len() + space.nodes(e as int).len()) == gd * idx0.len() + gd * space.nodes(e as int).len()) by (nonlinear_arith);
                assert forall|i: int, k: int| 0 <= i < gd && 0 <= k < space.nodes(e as int).len() implies g[gd * (idx0.len() + k) + i].v() == #[trigger] physical(*space, e as int, xi, i, k) by {
                    assert(gd * (idx0.len() + k) == gd * idx0.len() + gd * k) by (nonlinear_arith);
                }
            }
            grow_gradients(*space, points@, off0, idx0, node_indices@.len() as usize, g0.unwrap()@, g);
        }
        grow_nodes(*space, points@, off0, idx0, node_indices@);
        assert(supported_node_offsets@ == off0);
    }
//@ before if !\(points.len
    proof {
        let off = supported_node_offsets@;
        assert forall|k: int| 0 <= k < off.len() implies #[trigger] off[k] <= node_indices@.len() by { assert(off[k] <= off[off.len() - 1]); }
        let n = node_indices@.len() as int;
        assert(n != 0 ==> (GeometryDim::d() * n) % n == 0) by { if n != 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(GeometryDim::d(), n); } }
        assert(GeometryDim::d() * 0 == 0) by (nonlinear_arith);
    }
//@ done
}
fn main() {}
}
