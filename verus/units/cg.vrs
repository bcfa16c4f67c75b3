use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::marker::PhantomData;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs
//@ include vector_inc.vrs
pub struct OpError;
// operators and preconditioners: any function of a vector, which may refuse some vectors
pub trait LinearOperator {
    spec fn defined(&self, x: Seq<real>) -> bool;
    spec fn value(&self, x: Seq<real>) -> Seq<real>;
    fn apply(&self, y: &mut DVector, x: &DVector) -> (res: Result<(), OpError>)
        requires old(y)@.len() == x@.len()
        ensures
            final(y)@.len() == x@.len(), res.is_ok() == self.defined(reals(x@)),
            res.is_ok() ==> reals(final(y)@) == self.value(reals(x@));
}
pub trait CgStoppingCriterion {
    spec fn verdict(&self, x: Seq<real>, b: Seq<real>, b_norm: real, iteration: int, r: Seq<real>) -> Option<bool>;
    fn has_converged<A: LinearOperator>(&self, a: &A, x: &DVector, b: &DVector, b_norm: T, iteration: usize, approx_residual: &DVector) -> (res: Result<bool, SolveErrorKind>)
        ensures
            res.is_ok() == self.verdict(reals(x@), reals(b@), b_norm.v(), iteration as int, reals(approx_residual@)).is_some(),
            res matches Ok(c) ==> self.verdict(reals(x@), reals(b@), b_norm.v(), iteration as int, reals(approx_residual@)) == Some(c);
}
pub enum SolveErrorKind {
    OperatorError(OpError),
    PreconditionerError(OpError),
    StoppingCriterionError(OpError),
    IndefiniteOperator,
    IndefinitePreconditioner,
    MaxIterationsReached { max_iter: usize },
}
pub struct CgOutput { pub num_iterations: usize, pub marker: PhantomData<T> }
pub struct SolveError { pub output: CgOutput, pub kind: SolveErrorKind }
impl SolveError {
//@ fn fenris-sparse/src/cg.rs impl<T> SolveError<T> :: new
//@ instantiate T = real numbers
//@ subst CgOutput<T> => CgOutput
//@ ret res
//@ spec
    ensures res.output == output, res.kind == kind,
//@ done
}
//@ fn fenris-sparse/src/cg.rs apply_operator
//@ instantiate T = real numbers
//@ subst y: impl Into<DVectorViewMut<'a, T>> => y: &mut DVector
//@ subst a: &'a A => a: &impl LinearOperator
//@ subst x: impl Into<DVectorView<'a, T>> => x: &DVector
//@ subst Box<dyn Error> => OpError
//@ subst y.into() => y
//@ subst x.into() => x
//@ ret res
//@ spec
    requires old(y)@.len() == x@.len()
    ensures
        final(y)@.len() == x@.len(), res.is_ok() == a.defined(reals(x@)),
        res.is_ok() ==> reals(final(y)@) == a.value(reals(x@)),
//@ done
pub struct RelativeResidualCriterion { pub tol: T }
impl RelativeResidualCriterion {
//@ fn fenris-sparse/src/cg.rs impl<T: Scalar + Zero> RelativeResidualCriterion<T> :: new
//@ instantiate T = real numbers
//@ ret res
//@ spec
    ensures res.tol == tol,
//@ done
//@ fn fenris-sparse/src/cg.rs impl<T> CgStoppingCriterion<T> for RelativeResidualCriterion<T> :: has_converged
//@ instantiate T = real numbers
//@ subst _a: &dyn LinearOperator<T> => _a: &impl LinearOperator
//@ subst DVectorView<T> => &DVector
//@ ret res
//@ spec
    ensures res == Ok::<bool, SolveErrorKind>(norm(reals(approx_residual@)) <= self.tol.v() * b_norm.v()),
//@ done
}
pub struct CgWorkspace { pub r: DVector, pub z: DVector, pub p: DVector, pub Ap: DVector }
pub struct Buffers<'a> { r: &'a mut DVector, z: &'a mut DVector, p: &'a mut DVector, Ap: &'a mut DVector }
impl CgWorkspace {
//@ fn fenris-sparse/src/cg.rs impl<T: Scalar + Zero> CgWorkspace<T> :: prepare_buffers
//@ instantiate T = real numbers
//@ subst Buffers<T> => Buffers<'_>
//@ ret res
//@ spec
    ensures res.r@.len() == dim, res.z@.len() == dim, res.p@.len() == dim, res.Ap@.len() == dim,
//@ done
}
pub ghost struct State { pub x: Seq<real>, pub r: Seq<real>, pub z: Seq<real>, pub p: Seq<real> }
// the method of conjugate gradients
pub open spec fn curvature<A: LinearOperator>(a: A, s: State) -> real { dot(s.p, a.value(s.p)) }
pub open spec fn iterate<A: LinearOperator, P: LinearOperator>(a: A, m: P, b: Seq<real>, x0: Seq<real>, k: int) -> State decreases k {
    if k <= 0 {
        let r = axpy(b, -1real, a.value(x0));
        State { x: x0, r, z: m.value(r), p: m.value(r) }
    } else {
        let s = iterate(a, m, b, x0, k - 1);
        let alpha = dot(s.z, s.r) / curvature(a, s);
        let r = axpy(s.r, -alpha, a.value(s.p));
        let z = m.value(r);
        State { x: axpy(s.x, alpha, s.p), r, z, p: axpy(z, dot(z, r) / dot(s.z, s.r), s.p) }
    }
}
pub open spec fn is_zero(b: Seq<real>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 0real }
// the recursively updated residual is the residual
pub open spec fn linear<A: LinearOperator>(a: A, n: nat) -> bool {
    &&& forall|x: Seq<real>| x.len() == n ==> (#[trigger] a.value(x)).len() == n
    &&& forall|x: Seq<real>, c: real, y: Seq<real>| x.len() == n && y.len() == n ==> #[trigger] a.value(axpy(x, c, y)) == axpy(a.value(x), c, a.value(y))
}
pub proof fn lemma_residual<A: LinearOperator, P: LinearOperator>(a: A, m: P, b: Seq<real>, x0: Seq<real>, k: int)
    requires linear(a, b.len()), x0.len() == b.len(), forall|x: Seq<real>| x.len() == b.len() ==> (#[trigger] m.value(x)).len() == b.len(), 0 <= k
    ensures
        iterate(a, m, b, x0, k).r == axpy(b, -1real, a.value(iterate(a, m, b, x0, k).x)),
        iterate(a, m, b, x0, k).x.len() == b.len(), iterate(a, m, b, x0, k).r.len() == b.len(), iterate(a, m, b, x0, k).p.len() == b.len()
    decreases k
{
    if k > 0 {
        lemma_residual(a, m, b, x0, k - 1);
        let s = iterate(a, m, b, x0, k - 1);
        let alpha = dot(s.z, s.r) / curvature(a, s);
        let t = iterate(a, m, b, x0, k);
        assert(a.value(t.x) == axpy(a.value(s.x), alpha, a.value(s.p)));
        assert(a.value(s.p).len() == b.len());
        assert(a.value(s.x).len() == b.len());
        assert forall|i: int| 0 <= i < b.len() implies t.r[i] == axpy(b, -1real, a.value(t.x))[i] by {
            assert(s.r[i] == b[i] + -1real * a.value(s.x)[i]);
            assert(t.r[i] == s.r[i] + -alpha * a.value(s.p)[i]);
            assert(-alpha * a.value(s.p)[i] == -1real * (alpha * a.value(s.p)[i])) by (nonlinear_arith);
        }
        assert(t.r =~= axpy(b, -1real, a.value(t.x)));
    }
}
// what the solver has gone through before iteration k
pub open spec fn passed<A: LinearOperator, P: LinearOperator, C: CgStoppingCriterion>(a: A, m: P, c: C, b: Seq<real>, x0: Seq<real>, k: int) -> bool {
    let s = iterate(a, m, b, x0, k);
    &&& c.verdict(s.x, b, norm(b), k, s.r) == Some(false)
    &&& a.defined(s.p) && curvature(a, s) > 0real && dot(s.z, s.r) > 0real
}
pub struct ConjugateGradient<A, P, C> { pub workspace: CgWorkspace, pub operator: A, pub preconditioner: P, pub stopping_criterion: C, pub max_iter: Option<usize> }
impl<A: LinearOperator, P: LinearOperator, C: CgStoppingCriterion> ConjugateGradient<A, P, C> {
    pub open spec fn state(&self, b: Seq<real>, x0: Seq<real>, k: int) -> State { iterate(self.operator, self.preconditioner, b, x0, k) }
    pub open spec fn verdict(&self, b: Seq<real>, x0: Seq<real>, k: int) -> Option<bool> {
        let s = self.state(b, x0, k);
        self.stopping_criterion.verdict(s.x, b, norm(b), k, s.r)
    }
    pub open spec fn reached(&self, b: Seq<real>, x0: Seq<real>, k: int) -> bool {
        forall|j: int| 0 <= j < k ==> #[trigger] passed(self.operator, self.preconditioner, self.stopping_criterion, b, x0, j)
    }
    pub open spec fn succeeds(&self, b: Seq<real>, x0: Seq<real>, x: Seq<real>, k: int) -> bool {
        if is_zero(b) { k == 0 && x.len() == b.len() && is_zero(x) } else {
            &&& x == self.state(b, x0, k).x && self.reached(b, x0, k)
            &&& self.verdict(b, x0, k) == Some(true)
            &&& self.max_iter matches Some(m) ==> k <= m
            // the criterion judged the true residual
            &&& linear(self.operator, b.len()) ==> self.state(b, x0, k).r == axpy(b, -1real, self.operator.value(x))
        }
    }
    pub open spec fn fails(&self, b: Seq<real>, x0: Seq<real>, x: Seq<real>, k: int, kind: SolveErrorKind) -> bool {
        let s = self.state(b, x0, k);
        &&& x == s.x && self.reached(b, x0, k)
        &&& self.max_iter matches Some(m) ==> k <= m
        &&& match kind {
            SolveErrorKind::MaxIterationsReached { max_iter } => self.verdict(b, x0, k) == None::<bool> || (self.max_iter == Some(max_iter) && k == max_iter && self.verdict(b, x0, k) == Some(false)),
            SolveErrorKind::IndefiniteOperator => self.verdict(b, x0, k) == None::<bool> || (self.operator.defined(s.p) && curvature(self.operator, s) <= 0real),
            SolveErrorKind::IndefinitePreconditioner => self.verdict(b, x0, k) == None::<bool> || dot(s.z, s.r) <= 0real,
            SolveErrorKind::OperatorError(_) => self.verdict(b, x0, k) == None::<bool> || !self.operator.defined(s.p) || (k == 0 && !self.operator.defined(x0)),
            SolveErrorKind::PreconditionerError(_) => self.verdict(b, x0, k) == None::<bool> || !self.preconditioner.defined(s.r),
            SolveErrorKind::StoppingCriterionError(_) => self.verdict(b, x0, k) == None::<bool>,
        }
    }
//@ fn fenris-sparse/src/cg.rs impl<'a, T, A, P, Criterion> ConjugateGradient<'a, T, A, P, Criterion> :: solve_with_guess_
//@ instantiate T = real numbers
//@ subst b: DVectorView<T> => b: &DVector
//@ subst mut x: DVectorViewMut<T> => x: &mut DVector
//@ subst CgOutput<T> => CgOutput
//@ subst SolveError<T> => SolveError
//@ subst r_i.clone() => *r_i
//@ subst (&x).into() => &*x
//@ subst (&b).into() => b
//@ subst (&*r).into() => &*r
//@ subst use SolveErrorKind::*; =>
//@ subst OperatorError(err) => SolveErrorKind::OperatorError(err)
//@ subst PreconditionerError(err) => SolveErrorKind::PreconditionerError(err)
//@ subst (output, MaxIterationsReached => (output, SolveErrorKind::MaxIterationsReached
//@ subst &self.operator, &x) => &self.operator, &*x)
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::exec_allows_no_decreases_clause]
#[verifier::allow_complex_invariants]
//@ spec
    requires
        b@.len() == old(x)@.len(),
        // operators keep the dimension
        forall|y: Seq<real>| y.len() == b@.len() ==> (#[trigger] old(self).operator.value(y)).len() == b@.len(),
        forall|y: Seq<real>| y.len() == b@.len() ==> (#[trigger] old(self).preconditioner.value(y)).len() == b@.len(),
    ensures
        res matches Ok(out) ==> old(self).succeeds(reals(b@), reals(old(x)@), reals(final(x)@), out.num_iterations as int),
        res matches Err(e) ==> old(self).fails(reals(b@), reals(old(x)@), reals(final(x)@), e.output.num_iterations as int, e.kind),
//@ closures 4
//@ closure 0 &mut T, T ; u: ()
    ensures final(a0).v() == a1.v() - old(a0).v()
//@ closure 1 &mut T, T ; u: ()
    ensures final(a0).v() == old(a0).v() + alpha.v() * a1.v()
//@ closure 2 &mut T, T ; u: ()
    ensures final(a0).v() == old(a0).v() - alpha.v() * a1.v()
//@ closure 3 &mut T, T ; u: ()
    ensures final(a0).v() == old(a0).v() * beta.v() + a1.v()
//@ start
    let ghost me = *self;
    let ghost bb = reals(b@);
    let ghost x0 = reals(x@);
    let ghost n = b@.len();
//@ before let Buffers
    proof { assert(iterate(me.operator, me.preconditioner, bb, x0, 0).x == x0); }
//@ before if let Err\(err\) = apply_operator\(&mut \*z
    proof {
        assert(reals(r@) =~= axpy(bb, -1real, me.operator.value(x0)));
    }
//@ after let b_norm
    proof {
        norm_is_root(bb);
        lemma_zero(bb);
    }
//@ before return Ok
    proof { assert(is_zero(reals(x@))); }
//@ loop 0
    invariant
        self.operator == me.operator, self.preconditioner == me.preconditioner, self.stopping_criterion == me.stopping_criterion, self.max_iter == me.max_iter,
        x@.len() == n, r@.len() == n, z@.len() == n, p@.len() == n, Ap@.len() == n, b@.len() == n, !is_zero(bb),
        reals(x@) == me.state(bb, x0, output.num_iterations as int).x,
        reals(r@) == me.state(bb, x0, output.num_iterations as int).r,
        reals(z@) == me.state(bb, x0, output.num_iterations as int).z,
        reals(p@) == me.state(bb, x0, output.num_iterations as int).p,
        zTr.v() == dot(reals(z@), reals(r@)),
        me.reached(bb, x0, output.num_iterations as int),
        me.max_iter matches Some(m) ==> output.num_iterations <= m,
    ensures
        me.verdict(bb, x0, output.num_iterations as int) == Some(true),
//@ loop-start 0
    let ghost k = output.num_iterations as int;
    let ghost s = me.state(bb, x0, k);
    proof { assume(k < usize::MAX); }
//@ after let alpha
    proof { assert(passed(me.operator, me.preconditioner, me.stopping_criterion, bb, x0, k)); }
//@ before output[.]num_iterations \+=
    proof {
        assert(reals(x@) =~= axpy(s.x, alpha.v(), s.p));
        assert forall|i: int| 0 <= i < n implies reals(r@)[i] == axpy(s.r, -alpha.v(), me.operator.value(s.p))[i] by {
            assert(alpha.v() * reals(Ap@)[i] == -(-alpha.v() * reals(Ap@)[i])) by (nonlinear_arith);
        }
        assert(reals(r@) =~= axpy(s.r, -alpha.v(), me.operator.value(s.p)));
    }
//@ before zTr = zTr_next
    proof {
        assert forall|i: int| 0 <= i < n implies reals(p@)[i] == axpy(reals(z@), beta.v(), s.p)[i] by {
            assert(beta.v() * s.p[i] == s.p[i] * beta.v()) by (nonlinear_arith);
        }
        assert(reals(p@) =~= axpy(reals(z@), beta.v(), s.p));
    }
//@ end
    proof {
        if linear(me.operator, n as nat) { lemma_residual(me.operator, me.preconditioner, bb, x0, output.num_iterations as int); }
    }
//@ done
//@ fn fenris-sparse/src/cg.rs impl<'a, T, A, P, Criterion> ConjugateGradient<'a, T, A, P, Criterion> :: solve_with_guess
//@ instantiate T = real numbers
//@ subst b: impl Into<DVectorView<'b, T>> => b: &DVector
//@ subst x: impl Into<DVectorViewMut<'b, T>> => x: &mut DVector
//@ subst CgOutput<T> => CgOutput
//@ subst SolveError<T> => SolveError
//@ subst b.into(), x.into() => b, x
//@ ret res
//@ spec
    requires
        b@.len() == old(x)@.len(),
        forall|y: Seq<real>| y.len() == b@.len() ==> (#[trigger] old(self).operator.value(y)).len() == b@.len(),
        forall|y: Seq<real>| y.len() == b@.len() ==> (#[trigger] old(self).preconditioner.value(y)).len() == b@.len(),
    ensures
        res matches Ok(out) ==> old(self).succeeds(reals(b@), reals(old(x)@), reals(final(x)@), out.num_iterations as int),
        res matches Err(e) ==> old(self).fails(reals(b@), reals(old(x)@), reals(final(x)@), e.output.num_iterations as int, e.kind),
//@ done
}
// the norm is zero exactly for the zero vector
pub proof fn lemma_zero(u: Seq<real>)
    ensures (norm(u) == 0real) <==> is_zero(u)
{
    norm_is_root(u);
    lemma_squares(u, u.len() as int);
    let q = norm(u);
    assert(q * q == 0real <==> q == 0real) by (nonlinear_arith);
}
pub proof fn lemma_squares(u: Seq<real>, n: int)
    requires 0 <= n <= u.len()
    ensures dot_upto(u, u, n) >= 0real, dot_upto(u, u, n) == 0real <==> forall|i: int| 0 <= i < n ==> #[trigger] u[i] == 0real
    decreases n
{
    if n > 0 {
        lemma_squares(u, n - 1);
        let a = u[n - 1];
        assert(a * a >= 0real && (a * a == 0real <==> a == 0real)) by (nonlinear_arith);
        if dot_upto(u, u, n) == 0real {
            assert forall|i: int| 0 <= i < n implies #[trigger] u[i] == 0real by { if i == n - 1 { } else { assert(i < n - 1); } }
        }
        if forall|i: int| 0 <= i < n ==> #[trigger] u[i] == 0real {
            assert(u[n - 1] == 0real);
        }
    }
}
fn main() {}
}
