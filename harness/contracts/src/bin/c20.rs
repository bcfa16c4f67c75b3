//! C20: the conjugate gradient solver.
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut, Matrix2, Matrix3x2};
use fenris_sparse::cg::*;
use nalgebra_sparse::CsrMatrix;
use std::cell::RefCell;
use std::error::Error;
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

fn sq<T: SReal>(v: &[T]) -> T {
    v.iter().fold(T::zero(), |s, x| s + *x * *x)
}
fn dot<T: SReal>(a: &[T], b: &[T]) -> T {
    a.iter().zip(b).fold(T::zero(), |s, (x, y)| s + *x * *y)
}
/// An arbitrary operator: every application has an arbitrary result, or fails at a stated call.
struct Op<T> {
    vals: Vec<Vec<T>>,
    fail: usize,
    calls: RefCell<Vec<Vec<T>>>,
}
impl<T: SReal> Op<T> {
    fn new(cx: &mut Cx<T>, name: &str, n: usize, calls: usize, fail: usize) -> Self {
        Op { vals: (0..calls).map(|k| cx.reals(&format!("{}{}_", name, k), n)).collect(), fail, calls: RefCell::new(vec![]) }
    }
}
impl<T: SReal> LinearOperator<T> for Op<T> {
    fn apply(&self, mut y: DVectorViewMut<T>, x: DVectorView<T>) -> Result<(), Box<dyn Error>> {
        let mut c = self.calls.borrow_mut();
        let k = c.len();
        c.push(x.as_slice().to_vec());
        if k == self.fail {
            return Err(Box::from("failed"));
        }
        y.copy_from_slice(&self.vals[k]);
        Ok(())
    }
}
/// An arbitrary criterion: succeeds or fails at stated calls; records what it is shown.
struct Crit<T> {
    accept: usize,
    fail: usize,
    seen: RefCell<Vec<(Vec<T>, Vec<T>, T, usize, Vec<T>)>>,
}
impl<T: SReal> CgStoppingCriterion<T> for &Crit<T> {
    fn has_converged(&self, _a: &dyn LinearOperator<T>, x: DVectorView<T>, b: DVectorView<T>, bn: T, it: usize, r: DVectorView<T>) -> Result<bool, SolveErrorKind> {
        let mut s = self.seen.borrow_mut();
        s.push((x.as_slice().to_vec(), b.as_slice().to_vec(), bn, it, r.as_slice().to_vec()));
        if s.len() - 1 == self.fail {
            return Err(SolveErrorKind::StoppingCriterionError(Box::from("criterion")));
        }
        Ok(s.len() - 1 == self.accept)
    }
}
const NONE: usize = usize::MAX;
#[derive(Clone, Copy)]
struct Plan {
    n: usize,
    accept: usize,
    max: Option<usize>,
    fail_a: usize,
    fail_p: usize,
    fail_c: usize,
    /// size of the previous solve done with the same workspace
    reuse: Option<usize>,
}
fn kind(e: &SolveErrorKind) -> (&'static str, usize) {
    match e {
        SolveErrorKind::OperatorError(_) => ("operator", 0),
        SolveErrorKind::PreconditionerError(_) => ("preconditioner", 0),
        SolveErrorKind::StoppingCriterionError(_) => ("criterion", 0),
        SolveErrorKind::IndefiniteOperator => ("indefinite operator", 0),
        SolveErrorKind::IndefinitePreconditioner => ("indefinite preconditioner", 0),
        SolveErrorKind::MaxIterationsReached { max_iter } => ("max", *max_iter),
        _ => ("other", 0),
    }
}
/// The run of the solver for operators whose results are arbitrary: the exact recurrence, step by step.
fn recurrence<T: SReal>(cx: &mut Cx<T>, pl: Plan) {
    let n = pl.n;
    let calls = [pl.accept, pl.max.unwrap_or(NONE), pl.fail_a, pl.fail_p, pl.fail_c].into_iter().min().unwrap() + 2;
    let (a, p) = (Op::new(cx, "A", n, calls, pl.fail_a), Op::new(cx, "P", n, calls, pl.fail_p));
    let crit = Crit { accept: pl.accept, fail: pl.fail_c, seen: RefCell::new(vec![]) };
    let (b, x0) = (cx.reals("b", n), cx.reals("x", n));
    let mut x = DVector::from_column_slice(&x0);
    let bv = DVector::from_column_slice(&b);
    let mut ws = CgWorkspace::default();
    if let Some(m) = pl.reuse {
        // Leave old contents of another size in the workspace.
        let mut y = DVector::from_element(m, T::one());
        let c = Crit { accept: 1, fail: NONE, seen: RefCell::new(vec![]) };
        let id = DMatrix::<T>::identity(m, m) * T::int(3);
        let r = ConjugateGradient::with_workspace(&mut ws).with_operator(&id).with_stopping_criterion(&c).solve_with_guess(&DVector::from_element(m, T::int(7)), &mut y);
        cx.ensure("previous solve", r.is_ok());
    }
    let cg = if pl.reuse.is_some() { ConjugateGradient::with_workspace(&mut ws) } else { ConjugateGradient::new() };
    let mut cg = cg.with_operator(&a).with_preconditioner(&p).with_stopping_criterion(&crit);
    if let Some(m) = pl.max {
        cg = cg.with_max_iter(m);
    }
    let r = cg.solve_with_guess(&bv, &mut x);
    let (seen, ca, cp) = (crit.seen.borrow(), a.calls.borrow(), p.calls.borrow());
    let is = |want: &str, it: usize| match &r {
        Ok(o) => want == "ok" && o.num_iterations == it,
        Err(e) => kind(&e.kind).0 == want && e.output.num_iterations == it && (want != "max" || Some(kind(&e.kind).1) == pl.max),
    };
    // Specification
    let (mut ia, mut ip) = (0, 0);
    let mut xx = x0.clone();
    let done = |cx: &mut Cx<T>, ia: usize, ip: usize, ic: usize, xx: &[T]| {
        cx.ensure("no further operator applications", ca.len() == ia && cp.len() == ip && seen.len() == ic);
        cx.ensure_eqs("the solution is the last iterate", x.as_slice(), xx);
    };
    if b.iter().all(|v| *v == T::zero()) {
        // the order of the evaluations before the answer is not specified
        if ca.len() < 2 && pl.fail_a > 0 && pl.fail_p > 0 {
            cx.ensure("zero right-hand side succeeds without iterating", is("ok", 0));
            cx.ensure_eqs("zero right-hand side gives zero", x.as_slice(), &vec![T::zero(); n]);
        }
        return;
    }
    if pl.fail_a == 0 {
        cx.ensure("operator failure is reported", is("operator", 0));
        return cx.ensure_eqs("solution untouched", x.as_slice(), &xx);
    }
    cx.ensure_eqs("operator applied to the guess", &ca[0], &xx);
    let mut res: Vec<T> = (0..n).map(|i| b[i] - a.vals[0][i]).collect();
    ia += 1;
    if pl.fail_p == 0 {
        cx.ensure("preconditioner failure is reported", is("preconditioner", 0));
        return cx.ensure_eqs("solution untouched", x.as_slice(), &xx);
    }
    cx.ensure_eqs("preconditioner applied to the residual", &cp[0], &res);
    let mut z = p.vals[0].clone();
    ip += 1;
    let mut d = z.clone();
    let mut it = 0;
    loop {
        cx.ensure("criterion is asked", seen.len() > it);
        if seen.len() <= it {
            return;
        }
        let s = &seen[it];
        cx.ensure_eqs("criterion sees the iterate", &s.0, &xx);
        cx.ensure_eqs("criterion sees the right-hand side", &s.1, &b);
        cx.ensure_eq("criterion sees its norm", s.2, sq(&b).sqrt());
        cx.ensure("criterion sees the iteration", s.3 == it);
        cx.ensure_eqs("criterion sees the residual", &s.4, &res);
        if pl.fail_c == it {
            cx.ensure("criterion failure is reported", is("criterion", it));
            return done(cx, ia, ip, it + 1, &xx);
        }
        if pl.accept == it {
            cx.ensure("success is reported", is("ok", it));
            return done(cx, ia, ip, it + 1, &xx);
        }
        if pl.max == Some(it) {
            cx.ensure("iteration limit is reported", is("max", it));
            return done(cx, ia, ip, it + 1, &xx);
        }
        if pl.fail_a == ia {
            cx.ensure("operator failure is reported", is("operator", it));
            return done(cx, ia + 1, ip, it + 1, &xx);
        }
        cx.ensure("operator is applied", ca.len() > ia);
        if ca.len() <= ia {
            return;
        }
        cx.ensure_eqs("operator applied to the search direction", &ca[ia], &d);
        let ad = a.vals[ia].clone();
        ia += 1;
        let (pap, ztr) = (dot(&d, &ad), dot(&z, &res));
        if pap <= T::zero() || ztr <= T::zero() {
            let which = (pap <= T::zero() && is("indefinite operator", it)) || (ztr <= T::zero() && is("indefinite preconditioner", it));
            cx.ensure("breakdown is reported", which);
            return done(cx, ia, ip, it + 1, &xx);
        }
        let alpha = ztr / pap;
        for i in 0..n {
            xx[i] += alpha * d[i];
            res[i] -= alpha * ad[i];
        }
        it += 1;
        if pl.fail_p == ip {
            cx.ensure("preconditioner failure is reported", is("preconditioner", it));
            return done(cx, ia, ip + 1, it, &xx);
        }
        cx.ensure("preconditioner is applied", cp.len() > ip);
        if cp.len() <= ip {
            return;
        }
        cx.ensure_eqs("preconditioner applied to the new residual", &cp[ip], &res);
        z = p.vals[ip].clone();
        ip += 1;
        let beta = dot(&z, &res) / ztr;
        for i in 0..n {
            d[i] = z[i] + beta * d[i];
        }
    }
}
/// Symmetric positive definite systems: the shown residual is the true one, and it vanishes after n steps.
fn spd<T: SReal>(cx: &mut Cx<T>, n: usize, precond: usize) {
    let mut a = DMatrix::zeros(n, n);
    let mut e = vec![];
    for i in 0..n {
        for j in 0..=i {
            let v = if precond == 2 && i != j { T::zero() } else { cx.real(&format!("a{}{}", i, j)) };
            e.push(v);
            a[(i, j)] = v;
            a[(j, i)] = v;
        }
    }
    cx.assume_gt(a[(0, 0)], T::zero());
    if n > 1 {
        cx.assume_gt(a[(0, 0)] * a[(1, 1)] - a[(0, 1)] * a[(0, 1)], T::zero());
    }
    let mut p = DMatrix::<T>::identity(n, n);
    if precond == 1 {
        for i in 0..n {
            p[(i, i)] = cx.pos(&format!("p{}", i));
        }
    }
    let (b, x0) = (cx.reals("b", n), vec![T::zero(); n]);
    cx.assume_gt(sq(&b), T::zero());
    let crit = Crit { accept: n, fail: NONE, seen: RefCell::new(vec![]) };
    let mut x = DVector::from_column_slice(&x0);
    let r = ConjugateGradient::new().with_operator(&a).with_preconditioner(&p).with_stopping_criterion(&crit).solve_with_guess(&DVector::from_column_slice(&b), &mut x);
    let seen = crit.seen.borrow();
    for s in seen.iter() {
        let t: Vec<T> = (0..n).map(|i| b[i] - (0..n).fold(T::zero(), |u, j| u + a[(i, j)] * s.0[j])).collect();
        cx.ensure_eqs("the residual shown to the criterion is b - A x", &s.4, &t);
    }
    // (That a positive definite operator breaks down only at a zero residual is mathematics, not code: see the recurrence contracts for when breakdown is reported.)
    match r {
        Ok(_) => cx.ensure_eqs("residual vanishes after n steps", &seen[n].4, &vec![T::zero(); n]),
        Err(e) => cx.ensure("only breakdown can fail", kind(&e.kind).0.starts_with("indefinite")),
    }
}
fn criterion<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let (r, b, tol) = (cx.reals("r", n), cx.reals("b", n), cx.pos("tol"));
    let bn = cx.pos("bn");
    let v = |v: &[T]| DVector::from_column_slice(v);
    let (rv, bv) = (v(&r), v(&b));
    let c = RelativeResidualCriterion::new(tol);
    let got = c.has_converged(&IdentityOperator, DVectorView::from(&bv), DVectorView::from(&bv), bn, 3, DVectorView::from(&rv));
    cx.ensure("no error", got.is_ok());
    if got.unwrap() {
        cx.ensure_le("accepted residuals are within the relative tolerance", rv.norm(), tol * bn);
    } else {
        cx.ensure_gt("rejected residuals are not", rv.norm(), tol * bn);
    }
}
fn operators<T: SReal>(cx: &mut Cx<T>, m: usize, n: usize, mask: usize) {
    let a = cx.reals("a", m * n);
    let x = cx.reals("x", n);
    let (mut off, mut col, mut val) = (vec![0], vec![], vec![]);
    let mut want = vec![T::zero(); m];
    let mut dense = DMatrix::zeros(m, n);
    for i in 0..m {
        for j in 0..n {
            if mask >> (i * n + j) & 1 == 1 {
                col.push(j);
                val.push(a[i * n + j]);
                want[i] += a[i * n + j] * x[j];
                dense[(i, j)] = a[i * n + j];
            }
        }
        off.push(col.len());
    }
    let csr = CsrMatrix::try_from_csr_data(m, n, off, col, val).unwrap();
    let xv = DVector::from_column_slice(&x);
    let mut y = vec![T::ratio(13, 3); m + 2];
    let run = |cx: &mut Cx<T>, what: &str, op: &dyn LinearOperator<T>, y: &mut Vec<T>| {
        let r = op.apply(DVectorViewMut::from_slice(&mut y[1..m + 1], m), DVectorView::from(&xv));
        cx.ensure(&format!("{}: no error", what), r.is_ok());
        cx.ensure_eqs(&format!("{}: y = A x", what), &y[1..m + 1], &want);
        cx.ensure_eqs("surroundings untouched", &[y[0], y[m + 1]], &[T::ratio(13, 3); 2]);
    };
    run(cx, "sparse", &csr, &mut y);
    run(cx, "dense", &dense, &mut y);
    run(cx, "reference to dense", &&dense, &mut y);
    if (m, n) == (2, 2) {
        run(cx, "fixed size", &Matrix2::from_fn(|i, j| dense[(i, j)]), &mut y);
    }
    if (m, n) == (3, 2) {
        run(cx, "fixed size", &Matrix3x2::from_fn(|i, j| dense[(i, j)]), &mut y);
    }
    let mut z = DVector::from_element(n, T::ratio(13, 3));
    let r = IdentityOperator.apply(DVectorViewMut::from(&mut z), DVectorView::from(&xv));
    cx.ensure("identity: no error", r.is_ok());
    cx.ensure_eqs("identity", z.as_slice(), &x);
}
fn main() {
    let mut items: Vec<Item> = vec![];
    let f = "ConjugateGradient::solve_with_guess";
    let base = |n: usize| Plan { n, accept: NONE, max: None, fail_a: NONE, fail_p: NONE, fail_c: NONE, reuse: None };
    for n in 1..=3usize {
        let mut plans = vec![];
        for k in 0..=2 {
            plans.push((format!("converges at {}", k), Plan { accept: k, ..base(n) }));
            plans.push((format!("converges at the limit {}", k), Plan { accept: k, max: Some(k), reuse: Some(k + 1), ..base(n) }));
            plans.push((format!("iteration limit {}", k), Plan { max: Some(k), reuse: Some(4), ..base(n) }));
            plans.push((format!("operator fails at {}", k), Plan { fail_a: k, ..base(n) }));
            plans.push((format!("preconditioner fails at {}", k), Plan { fail_p: k, ..base(n) }));
            plans.push((format!("criterion fails at {}", k), Plan { fail_c: k, ..base(n) }));
        }
        for (name, pl) in plans {
            items.push(dual!(format!("{} n={}", name, n), [f], format!("{} unknowns, at most 2 iterations", n), |cx, T| recurrence::<T>(cx, pl), lazy = true));
        }
        items.push(dual!(format!("relative residual n={}", n), ["RelativeResidualCriterion::has_converged"], format!("{} unknowns", n), |cx, T| criterion::<T>(cx, n)));
    }
    for (n, p, s) in [(1usize, 0usize, "identity"), (1, 1, "diagonal"), (2, 0, "identity"), (2, 1, "diagonal")] {
        items.push(dual!(format!("symmetric positive definite n={} {} preconditioner", n, s), [f], format!("{} unknowns", n), |cx, T| spd::<T>(cx, n, p), lazy = true));
    }
    for (m, n, mask) in [(2usize, 2usize, 0b1111usize), (2, 2, 0b0110), (3, 2, 0b101101), (2, 3, 0b100111), (3, 2, 0), (0, 2, 0), (2, 0, 0)] {
        items.push(dual!(format!("operators {}x{} pattern {:b}", m, n, mask), ["LinearOperator::apply"], format!("a {}x{} matrix of one pattern", m, n), |cx, T| operators::<T>(cx, m, n, mask)));
    }
    items.push(bounded("integer systems", &[f], "drawn diagonally dominant integer systems of 1 to 8 unknowns, sparse and dense, with and without a diagonal preconditioner", |e| {
        let mut r = contracts::rng::Rng(e.seed);
        for _ in 0..if e.thorough { 3000 } else { 200 } {
            let n = 1 + r.below(8);
            let mut a = DMatrix::<f64>::zeros(n, n);
            for i in 0..n {
                for j in 0..i {
                    let v = if r.below(3) == 0 { r.int(-4, 4) as f64 } else { 0.0 };
                    a[(i, j)] = v;
                    a[(j, i)] = v;
                }
            }
            for i in 0..n {
                a[(i, i)] = (0..n).map(|j| a[(i, j)].abs()).sum::<f64>() + 1.0 + r.below(3) as f64;
            }
            let mut p = DMatrix::<f64>::identity(n, n);
            if r.bool() {
                for i in 0..n {
                    p[(i, i)] = 1.0 / a[(i, i)];
                }
            }
            let b = DVector::from_fn(n, |_, _| r.int(-5, 5) as f64);
            let x0 = DVector::from_fn(n, |_, _| r.int(-5, 5) as f64);
            let csr = CsrMatrix::from(&a);
            e.case(|| format!("A={:?} P={:?} b={:?} x0={:?}", a.as_slice(), p.diagonal().as_slice(), b.as_slice(), x0.as_slice()), || {
                let mut ws = CgWorkspace::default();
                for sparse in [false, true] {
                    let mut x = x0.clone();
                    let cg = ConjugateGradient::with_workspace(&mut ws);
                    let c = RelativeResidualCriterion::new(1e-8);
                    let o = if sparse {
                        cg.with_operator(&csr).with_preconditioner(&p).with_stopping_criterion(c).with_max_iter(2 * n).solve_with_guess(&b, &mut x)
                    } else {
                        cg.with_operator(&a).with_preconditioner(&p).with_stopping_criterion(c).with_max_iter(2 * n).solve_with_guess(&b, &mut x)
                    };
                    if let Err(k) = o {
                        return Err(format!("sparse={}: {:?}", sparse, k));
                    }
                    let res = (&a * &x - &b).norm();
                    if res > 1e-6 * b.norm() {
                        return Err(format!("sparse={}: residual {}", sparse, res));
                    }
                }
                Ok(())
            });
        }
    }));
    symcore::run::main(items);
}
