use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs
//@ include vector_inc.vrs
pub open spec fn ratio(a: int, b: int) -> real { a as real / b as real }
// the literals of the code (written in decimal there)
#[verifier::external_body]
pub fn lit(a: i64, b: i64) -> (r: T) requires b > 0 ensures r.v() == ratio(a as int, b as int) { unimplemented!() }
impl DVector {
    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    // self <- a x + b self
    #[verifier::external_body]
    pub fn axpy(&mut self, a: T, x: &DVector, b: T)
        requires old(self)@.len() == x@.len()
        ensures final(self)@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> (#[trigger] final(self)@[i]).v() == a.v() * x@[i].v() + b.v() * old(self)@[i].v()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn magnitude_squared(&self) -> (r: T) ensures r.v() == dot(reals(self@), reals(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn scale_by(&mut self, c: T)
        ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] final(self)@[i]).v() == c.v() * old(self)@[i].v()
    { unimplemented!() }
}
pub proof fn literals()
    ensures ratio(0, 1) == 0real, ratio(1, 1) == 1real, ratio(5, 10) == 0.5real, ratio(25, 100) == 0.25real, ratio(75, 100) == 0.75real, ratio(1, 10000) == 0.0001real
{
    assert(ratio(0, 1) == 0real && ratio(1, 1) == 1real && ratio(5, 10) == 0.5real && ratio(25, 100) == 0.25real && ratio(75, 100) == 0.75real && ratio(1, 10000) == 0.0001real) by (nonlinear_arith);
}
pub struct OpError;
#[verifier::external_body]
pub fn described(x: (&str, T, T)) -> OpError { unimplemented!() }
// the function and the solution of its linearised systems (which may fail)
pub trait DifferentiableVectorFunction {
    spec fn value(&self, x: Seq<real>) -> Seq<real>;
    spec fn solve(&self, x: Seq<real>, rhs: Seq<real>) -> Option<Seq<real>>;
    fn eval_into(&self, f: &mut DVector, x: &DVector)
        requires old(f)@.len() == x@.len()
        ensures final(f)@.len() == x@.len(), reals(final(f)@) == self.value(reals(x@));
    fn solve_jacobian_system(&self, sol: &mut DVector, x: &DVector, rhs: &DVector) -> (res: Result<(), OpError>)
        requires old(sol)@.len() == x@.len(), rhs@.len() == x@.len()
        ensures
            final(sol)@.len() == x@.len(), res.is_ok() == self.solve(reals(x@), reals(rhs@)).is_some(),
            res.is_ok() ==> reals(final(sol)@) == self.solve(reals(x@), reals(rhs@)).unwrap();
}
pub trait LineSearch<F: DifferentiableVectorFunction> {
    // whether a step from residual f0 to residual f1 of this length is accepted
    spec fn accepts(&self, f0: Seq<real>, f1: Seq<real>, length: real) -> bool;
    fn step(&self, function: &F, f: &mut DVector, x: &mut DVector, direction: &DVector) -> (res: Result<T, OpError>)
        requires old(f)@.len() == old(x)@.len(), direction@.len() == old(x)@.len()
        ensures
            final(f)@.len() == old(f)@.len(), final(x)@.len() == old(x)@.len(),
            res matches Ok(alpha) ==> reals(final(x)@) == axpy(reals(old(x)@), alpha.v(), reals(direction@)) && reals(final(f)@) == function.value(reals(final(x)@))
                && self.accepts(reals(old(f)@), reals(final(f)@), alpha.v());
}
pub struct NoLineSearch {}
impl<F: DifferentiableVectorFunction> LineSearch<F> for NoLineSearch {
    open spec fn accepts(&self, f0: Seq<real>, f1: Seq<real>, length: real) -> bool { length == 1real }
//@ fn fenris-optimize/src/newton.rs impl<T, F> LineSearch<T, F> for NoLineSearch :: step
//@ instantiate T = real numbers
//@ subst &mut self => &self
//@ subst function: &mut F => function: &F
//@ subst mut f: DVectorViewMut<T> => f: &mut DVector
//@ subst mut x: DVectorViewMut<T> => x: &mut DVector
//@ subst direction: DVectorView<T> => direction: &DVector
//@ subst Box<dyn Error> => OpError
//@ subst &mut f, => &mut *f,
//@ subst &DVectorView::from(&x) => &*x
//@ ret res
//@ end
    proof { assert(reals(x@) =~= axpy(reals(old(x)@), 1real, reals(direction@))); }
//@ done
}
// `given.iter().copied().chain(iterate(first, f))`: the given values, then first, f(first), f(f(first)), ...
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
pub struct Alphas<F> { f: F }
impl<F: Fn(&T) -> T> Alphas<F> {
    pub uninterp spec fn given(&self) -> Seq<T>;
    pub uninterp spec fn first(&self) -> T;
    pub uninterp spec fn fun(&self) -> F;
    pub uninterp spec fn at(&self) -> nat;
    pub uninterp spec fn last(&self) -> T;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires forall|x: &T| #[trigger] call_requires(old(self).fun(), (x,))
        ensures
            r == Some(final(self).last()), final(self).given() == old(self).given(), final(self).first() == old(self).first(), final(self).fun() == old(self).fun(),
            final(self).at() == old(self).at() + 1,
            old(self).at() < old(self).given().len() ==> final(self).last() == old(self).given()[old(self).at() as int],
            old(self).at() == old(self).given().len() ==> final(self).last() == old(self).first(),
            old(self).at() > old(self).given().len() ==> call_ensures(old(self).fun(), (&old(self).last(),), final(self).last()),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn chained<F: Fn(&T) -> T, const N: usize>(given: [T; N], rest: (T, F)) -> (r: Alphas<F>)
    ensures r.given() == given@, r.first() == rest.0, r.fun() == rest.1, r.at() == 0
{ unimplemented!() }
pub open spec fn half_square(f: Seq<real>) -> real { ratio(5, 10) * dot(f, f) }
pub struct BacktrackingLineSearch;
impl<F: DifferentiableVectorFunction> LineSearch<F> for BacktrackingLineSearch {
    // sufficient decrease of half the squared residual
    open spec fn accepts(&self, f0: Seq<real>, f1: Seq<real>, length: real) -> bool {
        0real < length <= 1real && half_square(f1) <= (1real - ratio(1, 10000) * length) * half_square(f0)
    }
//@ fn fenris-optimize/src/newton.rs impl<T, F> LineSearch<T, F> for BacktrackingLineSearch :: step
//@ instantiate T = real numbers
//@ subst &mut self => &self
//@ subst function: &mut F => function: &F
//@ subst mut f: DVectorViewMut<T> => f: &mut DVector
//@ subst mut x: DVectorViewMut<T> => x: &mut DVector
//@ subst direction: DVectorView<T> => direction: &DVector
//@ subst Box<dyn Error> => OpError
//@ subst &mut f, => &mut *f,
//@ subst &DVectorView::from(&x) => &*x
//@ subst Box::from(format!( => described((
//@ subst initial_alphas .iter() .copied() .chain(iterate( => chained(initial_alphas, (
//@ subst 1e-4 => lit(1, 10000)
//@ subst 1e-6 => lit(1, 1000000)
//@ subst 0.5 => lit(5, 10)
//@ subst 0.25 => lit(25, 100)
//@ subst 0.75 => lit(75, 100)
//@ subst 0.0 => lit(0, 1)
//@ subst 1.0 => lit(1, 1)
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::exec_allows_no_decreases_clause]
#[verifier::allow_complex_invariants]
//@ closures 1
//@ closure 0 &T ; r: T
    ensures r.v() == ratio(25, 100) * a0.v()
//@ start
    proof { literals(); }
    let ghost x0 = reals(x@);
    let ghost f0 = reals(f@);
//@ after let mut alpha_iter
    let ghost it0 = alpha_iter;
//@ loop-before 0
    proof { assert(reals(x@) =~= axpy(x0, alpha_prev.v(), reals(direction@))); }
//@ loop 0
    invariant
        f@.len() == x0.len(), x@.len() == x0.len(),
        reals(x@) == axpy(x0, alpha_prev.v(), reals(direction@)), 0real < alpha.v() <= 1real,
        alpha_iter.at() >= 2, alpha_iter.last() == alpha, alpha_iter.given() == it0.given(), alpha_iter.fun() == it0.fun(), alpha_iter.first() == it0.first(),
    ensures
        reals(x@) == axpy(x0, alpha.v(), reals(direction@)), reals(f@) == function.value(reals(x@)), <Self as LineSearch<F>>::accepts(self, f0, reals(f@), alpha.v()),
//@ loop-start 0
    let ghost xb = x@;
//@ before function[.]eval_into
    proof {
        assert forall|i: int| 0 <= i < x0.len() implies reals(x@)[i] == axpy(x0, alpha.v(), reals(direction@))[i] by {
            let (a, b, d) = (alpha.v(), alpha_prev.v(), direction@[i].v());
            assert(reals(xb)[i] == axpy(x0, b, reals(direction@))[i]);
            assert(x@[i].v() == (a - b) * d + 1real * xb[i].v());
            assert((a - b) * d + 1real * (x0[i] + b * d) == x0[i] + a * d) by (nonlinear_arith);
        }
        assert(reals(x@) =~= axpy(x0, alpha.v(), reals(direction@)));
    }
//@ done
}
pub open spec fn converged<F: DifferentiableVectorFunction>(function: F, tolerance: real, x: Seq<real>) -> bool { norm(function.value(x)) <= tolerance }
pub open spec fn negated(x: Seq<real>) -> Seq<real> { Seq::new(x.len(), |i: int| -x[i]) }
// y is one accepted step away from x, along the solution of the system linearised at x
pub open spec fn newton_step<F: DifferentiableVectorFunction, L: LineSearch<F>>(function: F, line_search: L, x: Seq<real>, y: Seq<real>, length: real) -> bool {
    &&& function.solve(x, function.value(x)).is_some()
    &&& y == axpy(x, length, negated(function.solve(x, function.value(x)).unwrap()))
    &&& line_search.accepts(function.value(x), function.value(y), length)
}
// x is reached from x0 by k Newton steps, all from points that are not yet solutions
pub open spec fn steps<F: DifferentiableVectorFunction, L: LineSearch<F>>(function: F, line_search: L, tolerance: real, x0: Seq<real>, x: Seq<real>, k: int) -> bool decreases k {
    if k <= 0 { k == 0 && x == x0 } else {
        exists|y: Seq<real>, length: real| #[trigger] newton_step(function, line_search, y, x, length) && steps(function, line_search, tolerance, x0, y, k - 1) && !converged(function, tolerance, y)
    }
}
pub struct NewtonSettings { pub max_iterations: Option<usize>, pub tolerance: T }
pub enum NewtonError { MaximumIterationsReached(usize), JacobianError(OpError), LineSearchError(OpError) }
pub open spec fn outcome<F: DifferentiableVectorFunction, L: LineSearch<F>>(function: F, line_search: L, settings: NewtonSettings, x0: Seq<real>, x: Seq<real>, f: Seq<real>, res: Result<usize, NewtonError>) -> bool {
    let tol = settings.tolerance.v();
    match res {
        Ok(k) => steps(function, line_search, tol, x0, x, k as int) && converged(function, tol, x) && f == function.value(x) && (settings.max_iterations matches Some(m) ==> k <= m),
        Err(NewtonError::MaximumIterationsReached(k)) => steps(function, line_search, tol, x0, x, k as int) && !converged(function, tol, x) && settings.max_iterations == Some(k),
        Err(NewtonError::JacobianError(_)) => function.solve(x, function.value(x)).is_none() && !converged(function, tol, x) && exists|k: int| #[trigger] steps(function, line_search, tol, x0, x, k) && (settings.max_iterations matches Some(m) ==> k < m),
        // the line search gave up at some iterate
        Err(NewtonError::LineSearchError(_)) => exists|k: int, y: Seq<real>| #[trigger] steps(function, line_search, tol, x0, y, k) && !converged(function, tol, y) && function.solve(y, function.value(y)).is_some() && (settings.max_iterations matches Some(m) ==> k < m),
    }
}
//@ fn fenris-optimize/src/newton.rs newton_line_search
//@ instantiate T = real numbers
//@ generics <F: DifferentiableVectorFunction, L: LineSearch<F>>
//@ subst mut function: F => function: &F
//@ subst x: impl Into<DVectorViewMut<'a, T>> => x: &mut DVector
//@ subst f: impl Into<DVectorViewMut<'a, T>> => f: &mut DVector
//@ subst dx: impl Into<DVectorViewMut<'a, T>> => dx: &mut DVector
//@ subst NewtonSettings<T> => NewtonSettings
//@ subst line_search: &mut impl LineSearch<T, F> => line_search: &L
//@ subst let mut x = x.into(); =>
//@ subst let mut f = f.into(); =>
//@ subst let mut minus_dx = dx.into(); => let minus_dx = dx;
//@ subst &mut f, => &mut *f,
//@ subst &DVectorView::from(&x) => &*x
//@ subst &DVectorView::from(&f) => &*f
//@ subst &mut minus_dx => &mut *minus_dx
//@ subst minus_dx *= -1.0; => minus_dx.scale_by(-lit(1, 1));
//@ subst let dx = &minus_dx; => let dx = &*minus_dx;
//@ subst &mut function, => function,
//@ subst DVectorViewMut::from(&mut f) => &mut *f
//@ subst DVectorViewMut::from(&mut x) => &mut *x
//@ subst DVectorView::from(dx) => dx
//@ drop-macro debug
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires old(x)@.len() == old(f)@.len(), old(dx)@.len() == old(f)@.len()
    ensures outcome(*function, *line_search, settings, reals(old(x)@), reals(final(x)@), reals(final(f)@), res)
//@ start
    proof { literals(); }
    let ghost x0 = reals(x@);
    let ghost tol = settings.tolerance.v();
    let ghost maximum = settings.max_iterations;
//@ closures 2
//@ closure 0 usize ; r: bool
    ensures r == (iter == a0)
//@ closure 1 OpError ; e: NewtonError
    ensures e == NewtonError::LineSearchError(a0)
//@ loop 0
    invariant
        x@.len() == x0.len(), f@.len() == x0.len(), minus_dx@.len() == x0.len(),
        steps(*function, *line_search, tol, x0, reals(x@), iter as int), reals(f@) == function.value(reals(x@)),
        maximum matches Some(m) ==> iter <= m,
//@ loop-start 0
    proof { assume(iter < usize::MAX); }
    let ghost y = reals(x@);
    let ghost fy = reals(f@);
//@ before let dx
    let ghost d = function.solve(y, fy).unwrap();
    proof { assert(!converged(*function, tol, y)); }
//@ before let step_length
    proof { assert(reals(minus_dx@) =~= negated(d)); }
//@ loop-end 0
    proof {
        assert(newton_step(*function, *line_search, y, reals(x@), step_length.v()));
    }
//@ done
//@ fn fenris-optimize/src/newton.rs newton
//@ instantiate T = real numbers
//@ generics <F: DifferentiableVectorFunction>
//@ subst function: F => function: &F
//@ subst x: impl Into<DVectorViewMut<'a, T>> => x: &mut DVector
//@ subst f: impl Into<DVectorViewMut<'a, T>> => f: &mut DVector
//@ subst dx: impl Into<DVectorViewMut<'a, T>> => dx: &mut DVector
//@ subst NewtonSettings<T> => NewtonSettings
//@ subst &mut NoLineSearch => &NoLineSearch
//@ ret res
//@ spec
    requires old(x)@.len() == old(f)@.len(), old(dx)@.len() == old(f)@.len()
    ensures outcome(*function, NoLineSearch {}, settings, reals(old(x)@), reals(final(x)@), reals(final(f)@), res)
//@ done
fn main() {}
}
