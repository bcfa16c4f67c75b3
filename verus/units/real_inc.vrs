// The scalar type: real numbers (rounding of floating-point arithmetic is not part of these contracts)
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct T { x: f64 }
impl T {
    pub uninterp spec fn v(&self) -> real;
    #[verifier::external_body]
    pub fn zero() -> (r: T) ensures r.v() == 0real { T { x: 0.0 } }
    #[verifier::external_body]
    pub fn one() -> (r: T) ensures r.v() == 1real { T { x: 1.0 } }
}
impl AddSpecImpl<T> for T {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: T) -> bool { true }
    open spec fn add_spec(self, rhs: T) -> Self::Output { self }
}
impl core::ops::Add for T {
    type Output = T;
    #[verifier::external_body]
    fn add(self, o: T) -> (r: T) ensures r.v() == self.v() + o.v() { T { x: self.x + o.x } }
}
impl SubSpecImpl<T> for T {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: T) -> bool { true }
    open spec fn sub_spec(self, rhs: T) -> Self::Output { self }
}
impl core::ops::Sub for T {
    type Output = T;
    #[verifier::external_body]
    fn sub(self, o: T) -> (r: T) ensures r.v() == self.v() - o.v() { T { x: self.x - o.x } }
}
impl MulSpecImpl<T> for T {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: T) -> bool { true }
    open spec fn mul_spec(self, rhs: T) -> Self::Output { self }
}
impl core::ops::Mul for T {
    type Output = T;
    #[verifier::external_body]
    fn mul(self, o: T) -> (r: T) ensures r.v() == self.v() * o.v() { T { x: self.x * o.x } }
}
impl DivSpecImpl<T> for T {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: T) -> bool { rhs.v() != 0real }
    open spec fn div_spec(self, rhs: T) -> Self::Output { self }
}
impl core::ops::Div for T {
    type Output = T;
    #[verifier::external_body]
    fn div(self, o: T) -> (r: T) ensures r.v() == self.v() / o.v() { T { x: self.x / o.x } }
}
impl AddAssignSpecImpl<T> for T {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: T) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: T) -> &Self { self }
}
impl core::ops::AddAssign for T {
    #[verifier::external_body]
    fn add_assign(&mut self, o: T) ensures final(self).v() == old(self).v() + o.v() { self.x = self.x + o.x }
}
impl SubAssignSpecImpl<T> for T {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: T) -> bool { true }
    open spec fn sub_assign_spec(&self, rhs: T) -> &Self { self }
}
impl core::ops::SubAssign for T {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: T) ensures final(self).v() == old(self).v() - o.v() { self.x = self.x - o.x }
}
impl MulAssignSpecImpl<T> for T {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, rhs: T) -> bool { true }
    open spec fn mul_assign_spec(&self, rhs: T) -> &Self { self }
}
impl core::ops::MulAssign for T {
    #[verifier::external_body]
    fn mul_assign(&mut self, o: T) ensures final(self).v() == old(self).v() * o.v() { self.x = self.x * o.x }
}
impl NegSpecImpl for T {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Self::Output { self }
}
impl core::ops::Neg for T {
    type Output = T;
    #[verifier::external_body]
    fn neg(self) -> (r: T) ensures r.v() == 0real - self.v() { T { x: -self.x } }
}
impl PartialEqSpecImpl for T {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &T) -> bool { self.v() == o.v() }
}
impl core::cmp::PartialEq for T {
    #[verifier::external_body]
    fn eq(&self, o: &T) -> (r: bool) { self.x == o.x }
}
impl PartialOrdSpecImpl for T {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &T) -> Option<core::cmp::Ordering> {
        Some(if self.v() < o.v() { core::cmp::Ordering::Less } else if self.v() == o.v() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
impl core::cmp::PartialOrd for T {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &T) -> (r: Option<core::cmp::Ordering>) { self.x.partial_cmp(&o.x) }
}
