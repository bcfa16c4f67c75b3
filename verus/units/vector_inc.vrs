// x + c y
pub open spec fn axpy(x: Seq<real>, c: real, y: Seq<real>) -> Seq<real> { Seq::new(x.len(), |i: int| x[i] + c * y[i]) }
pub open spec fn reals(s: Seq<T>) -> Seq<real> { s.map_values(|x: T| x.v()) }
pub open spec fn dot_upto(u: Seq<real>, v: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { dot_upto(u, v, n - 1) + u[n - 1] * v[n - 1] } }
pub open spec fn dot(u: Seq<real>, v: Seq<real>) -> real { dot_upto(u, v, u.len() as int) }
// the Euclidean norm: the nonnegative square root of dot(u, u)
pub uninterp spec fn norm(u: Seq<real>) -> real;
pub axiom fn norm_is_root(u: Seq<real>) ensures norm(u) >= 0real, norm(u) * norm(u) == dot(u, u);
// nalgebra's vector
#[verifier::external_body]
pub struct DVector { x: Vec<T> }
impl View for DVector { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl DVector {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn dot(&self, o: &DVector) -> (r: T) requires self@.len() == o@.len() ensures r.v() == dot(reals(self@), reals(o@)), r.v() == dot(reals(o@), reals(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn norm(&self) -> (r: T) ensures r.v() == norm(reals(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, c: T) ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == c { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from(&mut self, o: &DVector) requires old(self)@.len() == o@.len() ensures final(self)@ == o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn resize_vertically_mut(&mut self, n: usize, c: T) ensures final(self)@.len() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn zip_apply<F: FnMut(&mut T, T)>(&mut self, b: &DVector, f: F)
        requires old(self)@.len() == b@.len(), forall|m: &mut T, y: T| #[trigger] call_requires(f, (m, y))
        ensures
            final(self)@.len() == old(self)@.len(),
            forall|i: int| 0 <= i < b@.len() ==> applied(f, old(self)@[i], b@[i], #[trigger] final(self)@[i])
    { unimplemented!() }
}
#[verifier::prophetic]
pub open spec fn applied<F: FnMut(&mut T, T)>(f: F, before: T, y: T, after: T) -> bool {
    exists|m: &mut T| *m == before && *final(m) == after && #[trigger] call_ensures(f, (m, y), ())
}
