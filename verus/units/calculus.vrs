use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs
pub open spec fn reals(s: Seq<T>) -> Seq<real> { s.map_values(|x: T| x.v()) }
// the number 2
#[verifier::external_body]
pub fn two() -> (r: T) ensures r.v() == 2real { unimplemented!() }
// the functions that are differentiated: any function of the coordinates
pub trait Scalar {
    spec fn value(&self, x: Seq<real>) -> real;
    fn call(&self, x: &Vec<T>) -> (r: T) ensures r.v() == self.value(reals(x@));
}
pub trait Function {
    spec fn dim(&self) -> nat;
    spec fn value(&self, x: Seq<real>) -> Seq<real>;
    fn dimension(&self) -> (r: usize) ensures r == self.dim();
    // writes the whole output, which has the length it is given
    fn call(&self, x: &Vec<T>, out: &mut Vec<T>)
        requires old(out)@.len() == self.dim()
        ensures final(out)@.len() == self.dim(), reals(final(out)@) == self.value(reals(x@));
}
pub open spec fn moved(x: Seq<real>, i: int, h: real) -> Seq<real> { x.update(i, x[i] + h) }
pub open spec fn partial<F: Scalar>(f: F, x: Seq<real>, i: int, h: real) -> real { (f.value(moved(x, i, h)) - f.value(moved(x, i, -h))) / (2real * h) }
pub open spec fn entry<F: Function>(f: F, x: Seq<real>, r: int, i: int, h: real) -> real { (f.value(moved(x, i, h))[r] - f.value(moved(x, i, -h))[r]) / (2real * h) }
pub open spec fn gradient<F: Scalar>(f: F, x: Seq<real>, h: real, df: Seq<T>) -> bool {
    df.len() == x.len() && forall|i: int| 0 <= i < x.len() ==> (#[trigger] df[i]).v() == partial(f, x, i, h)
}
// nalgebra's matrix, by columns
#[verifier::external_body]
pub struct DMatrix { x: Vec<Vec<T>> }
impl DMatrix {
    pub uninterp spec fn cols(&self) -> Seq<Vec<T>>;
    pub uninterp spec fn rows_(&self) -> nat;
    pub open spec fn regular(&self) -> bool { forall|i: int| 0 <= i < self.cols().len() ==> (#[trigger] self.cols()[i])@.len() == self.rows_() }
    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize) ensures r == self.rows_() { unimplemented!() }
    #[verifier::external_body]
    pub fn ncols(&self) -> (r: usize) ensures r == self.cols().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn zeros(m: usize, n: usize) -> (r: DMatrix)
        ensures r.rows_() == m, r.cols().len() == n, r.regular(), forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> (#[trigger] r.cols()[i]@[j]).v() == 0real
    { unimplemented!() }
    #[verifier::external_body]
    pub fn column_mut(&mut self, i: usize) -> (r: &mut Vec<T>)
        requires i < old(self).cols().len()
        ensures *r == old(self).cols()[i as int], final(self).cols() == old(self).cols().update(i as int, *final(r)), final(self).rows_() == old(self).rows_()
    { unimplemented!() }
}
pub open spec fn jacobian<F: Function>(f: F, x: Seq<real>, h: real, j: DMatrix) -> bool {
    j.cols().len() == x.len() && j.regular() && forall|i: int, r: int| 0 <= i < x.len() && 0 <= r < j.rows_() ==> (#[trigger] j.cols()[i]@[r]).v() == entry(f, x, r, i, h)
}
#[verifier::external_body]
pub fn zeros(n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).v() == 0real { vec![T::zero(); n] }
// nalgebra's operations on vectors
#[verifier::external_body]
pub fn copied(a: &Vec<T>) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn copy_from(a: &mut Vec<T>, b: &Vec<T>) requires old(a)@.len() == b@.len() ensures final(a)@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn add_to(a: &mut Vec<T>, b: &Vec<T>)
    requires old(a)@.len() == b@.len()
    ensures final(a)@.len() == b@.len(), forall|i: int| 0 <= i < b@.len() ==> (#[trigger] final(a)@[i]).v() == old(a)@[i].v() + b@[i].v()
{ unimplemented!() }
#[verifier::external_body]
pub fn sub_from(a: &mut Vec<T>, b: &Vec<T>)
    requires old(a)@.len() == b@.len()
    ensures final(a)@.len() == b@.len(), forall|i: int| 0 <= i < b@.len() ==> (#[trigger] final(a)@[i]).v() == old(a)@[i].v() - b@[i].v()
{ unimplemented!() }
#[verifier::external_body]
pub fn div_by(a: &mut Vec<T>, x: T)
    requires x.v() != 0real
    ensures final(a)@.len() == old(a)@.len(), forall|i: int| 0 <= i < old(a)@.len() ==> (#[trigger] final(a)@[i]).v() == old(a)@[i].v() / x.v()
{ unimplemented!() }
//@ fn fenris-optimize/src/calculus.rs approximate_gradient_fd_into_
//@ instantiate T = real numbers
//@ subst mut df: DVectorViewMut<T> => df: &mut Vec<T>
//@ subst mut f: impl FnMut(DVectorView<T>) -> T => f: &impl Scalar
//@ subst mut x: DVectorViewMut<T> => x: &mut Vec<T>
//@ subst f(DVectorView::from(&x)) => f.call(&*x)
//@ subst 2.0 => two()
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires h.v() != 0real, old(df)@.len() == old(x)@.len()
    ensures
        // the point is restored exactly: the very same floating-point values
        final(x)@ == old(x)@,
        gradient(*f, reals(old(x)@), h.v(), final(df)@),
//@ start
    let ghost x0 = x@;
    let ghost p = reals(x@);
//@ loop 0
    invariant
        x@ == x0, df@.len() == x0.len(),
        forall|k: int| 0 <= k < i ==> (#[trigger] df@[k]).v() == partial(*f, p, k, h.v()),
//@ before let f_plus
    proof { assert(reals(x@) =~= moved(p, i as int, h.v())); }
//@ before let f_minus
    proof { assert(reals(x@) =~= moved(p, i as int, -h.v())); }
//@ loop-end 0
    proof { assert(x@ =~= x0); }
//@ done
//@ fn fenris-optimize/src/calculus.rs approximate_gradient_fd_into
//@ instantiate T = real numbers
//@ subst mut df: DVectorViewMut<T> => df: &mut Vec<T>
//@ subst f: impl FnMut(DVectorView<T>) -> T => f: &impl Scalar
//@ subst x: impl Into<DVectorViewMut<'a, T>> => x: &mut Vec<T>
//@ subst x.into() => x
//@ subst DVectorViewMut::from(&mut df) => df
//@ spec
    requires h.v() != 0real, old(df)@.len() == old(x)@.len()
    ensures final(x)@ == old(x)@, gradient(*f, reals(old(x)@), h.v(), final(df)@),
//@ done
//@ fn fenris-optimize/src/calculus.rs approximate_gradient_fd
//@ instantiate T = real numbers
//@ subst f: impl FnMut(DVectorView<T>) -> T => f: &impl Scalar
//@ subst x: impl Into<DVectorViewMut<'a, T>> => x: &mut Vec<T>
//@ subst let x = x.into(); =>
//@ subst DVectorViewMut::from(&mut df) => &mut df
//@ subst DVector::zeros( => zeros(
//@ subst DVector<T> => Vec<T>
//@ ret res
//@ spec
    requires h.v() != 0real
    ensures final(x)@ == old(x)@, gradient(*f, reals(old(x)@), h.v(), res@),
//@ done
//@ fn fenris-optimize/src/calculus.rs approximate_jacobian_fd_into_
//@ instantiate T = real numbers
//@ subst mut j: DMatrixViewMut<T> => j: &mut DMatrix
//@ subst mut f: impl FnMut(DVectorView<T>, DVectorViewMut<T>) => f: &impl Function
//@ subst mut x: DVectorViewMut<T> => x: &mut Vec<T>
//@ subst f(DVectorView::from(&x), DVectorViewMut::from(&mut f_plus)) => f.call(&*x, &mut f_plus)
//@ subst f(DVectorView::from(&x), DVectorViewMut::from(&mut f_minus)) => f.call(&*x, &mut f_minus)
//@ subst DVector::zeros( => zeros(
//@ subst df_dxi.copy_from( => copy_from(&mut *df_dxi,
//@ subst df_dxi -= &f_minus; => sub_from(&mut *df_dxi, &f_minus);
//@ subst df_dxi /= 2.0 * h; => div_by(&mut *df_dxi, two() * h);
//@ subst let mut df_dxi => let df_dxi
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        h.v() != 0real, old(j).rows_() == f.dim(), old(j).cols().len() == old(x)@.len(), old(j).regular(),
        // the function fills its output
        forall|y: Seq<real>| (#[trigger] f.value(y)).len() == f.dim(),
    ensures
        final(x)@ == old(x)@,
        final(j).rows_() == old(j).rows_(), jacobian(*f, reals(old(x)@), h.v(), *final(j)),
//@ start
    let ghost x0 = x@;
    let ghost p = reals(x@);
//@ loop 0
    invariant
        x@ == x0, j.rows_() == m, j.cols().len() == n, j.regular(), f_plus@.len() == m, f_minus@.len() == m,
        forall|k: int, r: int| 0 <= k < i && 0 <= r < m ==> (#[trigger] j.cols()[k]@[r]).v() == entry(*f, p, r, k, h.v()),
//@ before f[.]call\(&\*x, &mut f_plus
    proof { assert(reals(x@) =~= moved(p, i as int, h.v())); }
//@ before f[.]call\(&\*x, &mut f_minus
    let ghost fp = f_plus@;
    proof { assert(reals(x@) =~= moved(p, i as int, -h.v())); }
//@ loop-end 0
    proof {
        assert(x@ =~= x0);
        assert forall|r: int| 0 <= r < m implies (#[trigger] j.cols()[i as int]@[r]).v() == entry(*f, p, r, i as int, h.v()) by {
            assert(f_plus@[r].v() == reals(f_plus@)[r]);
            assert(f_minus@[r].v() == reals(f_minus@)[r]);
        }
    }
//@ done
//@ fn fenris-optimize/src/calculus.rs approximate_jacobian_fd_into
//@ instantiate T = real numbers
//@ subst jacobian: impl Into<DMatrixViewMut<'a, T>> => jacobian: &mut DMatrix
//@ subst f: impl FnMut(DVectorView<T>, DVectorViewMut<T>) => f: &impl Function
//@ subst x: impl Into<DVectorViewMut<'a, T>> => x: &mut Vec<T>
//@ subst x.into() => x
//@ subst jacobian.into() => jacobian
//@ spec
    requires
        h.v() != 0real, old(jacobian).rows_() == f.dim(), old(jacobian).cols().len() == old(x)@.len(), old(jacobian).regular(),
        forall|y: Seq<real>| (#[trigger] f.value(y)).len() == f.dim(),
    ensures
        final(x)@ == old(x)@, final(jacobian).rows_() == old(jacobian).rows_(), crate::jacobian(*f, reals(old(x)@), h.v(), *final(jacobian)),
//@ done
//@ fn fenris-optimize/src/calculus.rs approximate_jacobian_fd
//@ instantiate T = real numbers
//@ subst f: impl FnMut(DVectorView<T>, DVectorViewMut<T>) => f: &impl Function
//@ subst x: impl Into<DVectorViewMut<'a, T>> => x: &mut Vec<T>
//@ subst let x = x.into(); =>
//@ subst DMatrixViewMut::from(&mut jacobian) => &mut jacobian
//@ subst DMatrix<T> => DMatrix
//@ ret res
//@ spec
    requires
        h.v() != 0real, m == f.dim(),
        forall|y: Seq<real>| (#[trigger] f.value(y)).len() == f.dim(),
    ensures
        final(x)@ == old(x)@, res.rows_() == m, crate::jacobian(*f, reals(old(x)@), h.v(), res),
//@ done
//@ fn fenris-optimize/src/calculus.rs approximate_jacobian
//@ instantiate T = real numbers
//@ subst mut f: impl VectorFunction<T> => f: &impl Function
//@ subst x: &DVector<T> => x: &Vec<T>
//@ subst DMatrix<T> => DMatrix
//@ subst x.clone() => copied(x)
//@ subst DVector::zeros( => zeros(
//@ subst x_plus.copy_from( => copy_from(&mut x_plus,
//@ subst x_minus.copy_from( => copy_from(&mut x_minus,
//@ subst x_plus[j] += *h; => x_plus[j] = x_plus[j] + *h;
//@ subst x_minus[j] -= *h; => x_minus[j] = x_minus[j] - *h;
//@ subst f.eval_into(&mut as_vector_slice_mut(&mut f_plus), &as_vector_slice(&x_plus)) => f.call(&x_plus, &mut f_plus)
//@ subst f.eval_into(&mut as_vector_slice_mut(&mut f_minus), &as_vector_slice(&x_minus)) => f.call(&x_minus, &mut f_minus)
//@ subst let mut column_j => let column_j
//@ subst column_j += &f_plus; => add_to(&mut *column_j, &f_plus);
//@ subst column_j -= &f_minus; => sub_from(&mut *column_j, &f_minus);
//@ subst column_j /= 2.0 * *h; => div_by(&mut *column_j, two() * *h);
//@ attr
#[verifier::loop_isolation(false)]
//@ ret res
//@ spec
    requires
        h.v() != 0real,
        forall|y: Seq<real>| (#[trigger] f.value(y)).len() == f.dim(),
    ensures
        res.rows_() == f.dim(), crate::jacobian(*f, reals(x@), h.v(), res),
//@ loop 0
    invariant
        result.rows_() == out_dim, result.cols().len() == in_dim, result.regular(), f_plus@.len() == out_dim, f_minus@.len() == out_dim,
        x_plus@.len() == in_dim, x_minus@.len() == in_dim,
        forall|k: int, r: int| 0 <= k < j && 0 <= r < out_dim ==> (#[trigger] result.cols()[k]@[r]).v() == entry(*f, reals(x@), r, k, h.v()),
        forall|k: int, r: int| j <= k < in_dim && 0 <= r < out_dim ==> (#[trigger] result.cols()[k]@[r]).v() == 0real,
//@ before f[.]call\(&x_plus
    proof {
        assert(reals(x_plus@) =~= moved(reals(x@), j as int, h.v()));
        assert(reals(x_minus@) =~= moved(reals(x@), j as int, -h.v()));
    }
//@ loop-start 0
    let ghost r0 = result;
//@ loop-end 0
    proof {
        assert forall|r: int| 0 <= r < out_dim implies (#[trigger] result.cols()[j as int]@[r]).v() == entry(*f, reals(x@), r, j as int, h.v()) by {
            assert(r0.cols()[j as int]@[r].v() == 0real);
            assert(f_plus@[r].v() == reals(f_plus@)[r]);
            assert(f_minus@[r].v() == reals(f_minus@)[r]);
        }
    }
//@ done
fn main() {}
}
