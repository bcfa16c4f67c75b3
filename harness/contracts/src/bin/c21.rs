//! C21: Newton's method and its line searches.
use fenris::nalgebra::{DVector, DVectorView, DVectorViewMut};
use fenris_optimize::calculus::*;
use fenris_optimize::newton::*;
use std::cell::RefCell;
use std::error::Error;
use symcore::run::Item;
use symcore::{dual, Cx, SReal};

/// Everything the abstract function, linear solver and line search were asked and what they answered.
#[derive(Clone)]
enum Ev<T> {
    Eval(Vec<T>, Vec<T>),
    /// point, right-hand side, solution (None: failure)
    Solve(Vec<T>, Vec<T>, Option<Vec<T>>),
    /// residual, point, direction, answer (None: failure)
    Step(Vec<T>, Vec<T>, Vec<T>, Option<T>),
}
/// An arbitrary differentiable function: every evaluation and every linear solve has an arbitrary result.
struct Fun<'a, T> {
    n: usize,
    f: Vec<Vec<T>>,
    d: Vec<Vec<T>>,
    fail_solve: usize,
    log: &'a RefCell<Vec<Ev<T>>>,
}
impl<'a, T: SReal> VectorFunction<T> for Fun<'a, T> {
    fn dimension(&self) -> usize {
        self.n
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<T>, x: &DVectorView<T>) {
        let mut l = self.log.borrow_mut();
        let k = l.iter().filter(|e| matches!(e, Ev::Eval(..))).count();
        let v = self.f[k].clone();
        f.copy_from_slice(&v);
        l.push(Ev::Eval(x.as_slice().to_vec(), v));
    }
}
impl<'a, T: SReal> DifferentiableVectorFunction<T> for Fun<'a, T> {
    fn solve_jacobian_system(&mut self, s: &mut DVectorViewMut<T>, x: &DVectorView<T>, r: &DVectorView<T>) -> Result<(), Box<dyn Error>> {
        let mut l = self.log.borrow_mut();
        let k = l.iter().filter(|e| matches!(e, Ev::Solve(..))).count();
        let (x, r) = (x.as_slice().to_vec(), r.as_slice().to_vec());
        if k == self.fail_solve {
            l.push(Ev::Solve(x, r, None));
            return Err(Box::from("singular"));
        }
        s.copy_from_slice(&self.d[k]);
        l.push(Ev::Solve(x, r, Some(self.d[k].clone())));
        Ok(())
    }
}
/// An arbitrary line search: moves by an arbitrary multiple of the direction and evaluates there, or fails.
struct Search<'a, T> {
    a: Vec<T>,
    fail: usize,
    log: &'a RefCell<Vec<Ev<T>>>,
}
impl<'a, T: SReal> LineSearch<T, Fun<'a, T>> for Search<'a, T> {
    fn step(&mut self, fun: &mut Fun<'a, T>, mut f: DVectorViewMut<T>, mut x: DVectorViewMut<T>, p: DVectorView<T>) -> Result<T, Box<dyn Error>> {
        let k = self.log.borrow().iter().filter(|e| matches!(e, Ev::Step(..))).count();
        let fail = k == self.fail;
        self.log.borrow_mut().push(Ev::Step(f.as_slice().to_vec(), x.as_slice().to_vec(), p.as_slice().to_vec(), if fail { None } else { Some(self.a[k]) }));
        if fail {
            return Err(Box::from("no step"));
        }
        for i in 0..x.len() {
            x[i] += self.a[k] * p[i];
        }
        fun.eval_into(&mut f, &DVectorView::from(&x));
        Ok(self.a[k])
    }
}
fn sq<T: SReal>(v: &[T]) -> T {
    v.iter().fold(T::zero(), |s, x| s + *x * *x)
}
/// `kind` 0: abstract line search; 1: the trivial one through `newton`; 2: the trivial one passed explicitly.
fn run<T: SReal>(cx: &mut Cx<T>, n: usize, max: Option<usize>, fail_solve: usize, fail_step: usize, kind: usize) {
    let last = max.unwrap_or(usize::MAX).min(fail_solve).min(fail_step);
    let log = RefCell::new(vec![]);
    let vals = |cx: &mut Cx<T>, p: &str| -> Vec<Vec<T>> { (0..last + 2).map(|k| cx.reals(&format!("{}{}_", p, k), n)).collect() };
    let (f, d) = (vals(cx, "f"), vals(cx, "d"));
    let a = if kind == 0 { cx.reals("a", last + 2) } else { vec![T::one(); last + 2] };
    let tol = cx.pos("tol");
    let x0 = cx.reals("x", n);
    let mut x = DVector::from_column_slice(&x0);
    let mut fv = DVector::from_element(n, T::ratio(13, 3));
    let mut dv = DVector::from_element(n, T::ratio(17, 5));
    let settings = NewtonSettings { max_iterations: max, tolerance: tol };
    let mut fun = Fun { n, f: f.clone(), d: d.clone(), fail_solve, log: &log };
    let r = match kind {
        0 => newton_line_search(&mut fun, &mut x, &mut fv, &mut dv, settings, &mut Search2(Search { a: a.clone(), fail: fail_step, log: &log })),
        1 => newton(&mut fun, &mut x, &mut fv, &mut dv, settings),
        _ => newton_line_search(&mut fun, &mut x, &mut fv, &mut dv, settings, &mut NoLineSearch {}),
    };
    // The specified run
    let l = log.into_inner();
    let mut cur = x0.clone();
    let mut k = 0;
    let mut pos = 0;
    let mut same = |cx: &mut Cx<T>, what: &str, ev: Option<&Ev<T>>, want: Ev<T>| {
        let (g, w) = match (ev, &want) {
            (Some(Ev::Eval(a, b)), Ev::Eval(c, d)) => ([&a[..], b].concat(), [&c[..], d].concat()),
            (Some(Ev::Solve(a, b, s)), Ev::Solve(c, d, t)) => {
                cx.ensure(&format!("{} result", what), s.is_some() == t.is_some());
                ([&a[..], b].concat(), [&c[..], d].concat())
            }
            (Some(Ev::Step(a, b, e, _)), Ev::Step(c, d, g, _)) => ([&a[..], b, e].concat(), [&c[..], d, g].concat()),
            _ => {
                cx.ensure(&format!("{} takes place", what), false);
                return;
            }
        };
        cx.ensure_eqs(what, &g, &w);
    };
    same(cx, "evaluation at the initial point", l.get(pos), Ev::Eval(cur.clone(), f[0].clone()));
    pos += 1;
    loop {
        // The residual decides: `norm > tol` continues. (Path conditions fix every comparison made by the code.)
        let converged = sq(&f[k]) <= tol * tol;
        let stop = Some(k) == max;
        let outcome = match &r {
            Ok(it) => *it == k,
            Err(NewtonError::MaximumIterationsReached(it)) => *it == k,
            Err(NewtonError::JacobianError(_)) => fail_solve == k,
            Err(NewtonError::LineSearchError(_)) => fail_step == k,
        };
        if converged {
            cx.ensure("success is reported with the number of steps", matches!(&r, Ok(_)) && outcome);
            cx.ensure_le("residual within the tolerance", fv.norm(), tol);
            break;
        }
        if stop {
            cx.ensure("exceeding the iteration limit is reported", matches!(&r, Err(NewtonError::MaximumIterationsReached(_))) && outcome);
            break;
        }
        if fail_solve == k {
            cx.ensure("failure of the linear solver is reported", matches!(&r, Err(NewtonError::JacobianError(e)) if e.to_string() == "singular"));
            same(cx, "linear solve", l.get(pos), Ev::Solve(cur.clone(), f[k].clone(), None));
            pos += 1;
            break;
        }
        same(cx, "linear solve", l.get(pos), Ev::Solve(cur.clone(), f[k].clone(), Some(d[k].clone())));
        pos += 1;
        let p: Vec<T> = d[k].iter().map(|v| -*v).collect();
        if kind == 0 {
            same(cx, "line search", l.get(pos), Ev::Step(f[k].clone(), cur.clone(), p.clone(), None));
            pos += 1;
            if fail_step == k {
                cx.ensure("failure of the line search is reported", matches!(&r, Err(NewtonError::LineSearchError(e)) if e.to_string() == "no step"));
                break;
            }
        }
        for i in 0..n {
            cur[i] += a[k] * p[i];
        }
        same(cx, "evaluation at the new point", l.get(pos), Ev::Eval(cur.clone(), f[k + 1].clone()));
        pos += 1;
        k += 1;
    }
    cx.ensure("nothing else is evaluated", pos == l.len());
    cx.ensure_eqs("returned point", x.as_slice(), &cur);
    cx.ensure_eqs("returned residual", fv.as_slice(), &f[k]);
}
/// The abstract line search for a borrowed function.
struct Search2<'a, T>(Search<'a, T>);
impl<'a, 'b, T: SReal> LineSearch<T, &'b mut Fun<'a, T>> for Search2<'a, T> {
    fn step(&mut self, fun: &mut &'b mut Fun<'a, T>, f: DVectorViewMut<T>, x: DVectorViewMut<T>, p: DVectorView<T>) -> Result<T, Box<dyn Error>> {
        self.0.step(fun, f, x, p)
    }
}
/// The backtracking line search: the whole, bounded sequence of trial steps for an arbitrary function.
fn backtracking<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let mut alphas = vec![(1i64, 1i64), (3, 4), (1, 2)];
    for k in 1..=10 {
        alphas.push((1, 1 << (2 * k)));
    }
    let log = RefCell::new(vec![]);
    let f: Vec<Vec<T>> = (0..alphas.len() + 1).map(|k| cx.reals(&format!("f{}_", k), n)).collect();
    let (x0, p) = (cx.reals("x", n), cx.reals("p", n));
    let f0 = cx.reals("g", n);
    let mut fun = Fun { n, f: f.clone(), d: vec![], fail_solve: usize::MAX, log: &log };
    let mut x = DVector::from_column_slice(&x0);
    let mut fv = DVector::from_column_slice(&f0);
    let pv = DVector::from_column_slice(&p);
    let r = BacktrackingLineSearch.step(&mut fun, DVectorViewMut::from(&mut fv), DVectorViewMut::from(&mut x), DVectorView::from(&pv));
    let l = log.into_inner();
    let m = l.len();
    cx.ensure("at least one trial, at most all", m >= 1 && m <= alphas.len());
    if m < 1 || m > alphas.len() {
        return;
    }
    for (k, e) in l.iter().enumerate() {
        let a = T::ratio(alphas[k].0, alphas[k].1);
        let at: Vec<T> = (0..n).map(|i| x0[i] + a * p[i]).collect();
        match e {
            Ev::Eval(x, _) => cx.ensure_eqs("trial point", x, &at),
            _ => cx.ensure("only evaluations", false),
        }
        let lhs = sq(&f[k]);
        let rhs = (T::one() - T::ratio(1, 10000) * a) * sq(&f0);
        if k + 1 < m || r.is_err() {
            cx.ensure_gt("a rejected step does not decrease sufficiently", lhs, rhs);
        } else {
            cx.ensure_le("the accepted step decreases sufficiently", lhs, rhs);
        }
    }
    let a = T::ratio(alphas[m - 1].0, alphas[m - 1].1);
    match r {
        Ok(v) => cx.ensure_eq("accepted step length", v, a),
        Err(_) => cx.ensure("failure only after the smallest step", m == alphas.len()),
    }
    let at: Vec<T> = (0..n).map(|i| x0[i] + a * p[i]).collect();
    cx.ensure_eqs("point moved by the step length times the direction", x.as_slice(), &at);
    cx.ensure_eqs("residual is that at the new point", fv.as_slice(), &f[m - 1]);
}
fn full_step<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let log = RefCell::new(vec![]);
    let f = vec![cx.reals("f", n)];
    let (x0, p) = (cx.reals("x", n), cx.reals("p", n));
    let mut fun = Fun { n, f: f.clone(), d: vec![], fail_solve: usize::MAX, log: &log };
    let mut x = DVector::from_column_slice(&x0);
    let mut fv = DVector::from_element(n, T::ratio(13, 3));
    let pv = DVector::from_column_slice(&p);
    let r = NoLineSearch.step(&mut fun, DVectorViewMut::from(&mut fv), DVectorViewMut::from(&mut x), DVectorView::from(&pv));
    let at: Vec<T> = (0..n).map(|i| x0[i] + p[i]).collect();
    cx.ensure("accepts", r.is_ok());
    cx.ensure_eq("full step", r.unwrap(), T::one());
    cx.ensure_eqs("point", x.as_slice(), &at);
    cx.ensure_eqs("residual", fv.as_slice(), &f[0]);
    let l = log.into_inner();
    cx.ensure("one evaluation", l.len() == 1);
    match &l[0] {
        Ev::Eval(x, _) => cx.ensure_eqs("evaluated at the new point", x, &at),
        _ => cx.ensure("evaluation", false),
    }
}
fn main() {
    let mut items: Vec<Item> = vec![];
    let fns = "newton_line_search";
    let none = usize::MAX;
    for n in [1usize, 2, 3] {
        let b = |s: &str| format!("{} unknowns, {}", n, s);
        for max in 0..=3usize {
            items.push(dual!(format!("iteration limit {} n={}", max, n), [fns], b(&format!("at most {} iterations", max)), |cx, T| run::<T>(cx, n, Some(max), none, none, 0), lazy = true));
            items.push(dual!(format!("iteration limit {} without line search n={}", max, n), [fns, "newton"], b(&format!("at most {} iterations", max)), |cx, T| { run::<T>(cx, n, Some(max), none, none, 1) }, lazy = true));
        }
        for k in 0..=2usize {
            items.push(dual!(format!("solver failure at {} n={}", k, n), [fns], b("no iteration limit"), |cx, T| run::<T>(cx, n, None, k, none, 0), lazy = true));
            items.push(dual!(format!("line search failure at {} n={}", k, n), [fns], b("no iteration limit"), |cx, T| run::<T>(cx, n, None, none, k, 0), lazy = true));
            items.push(dual!(format!("solver failure at {} under a limit n={}", k, n), [fns], b("iteration limit 3"), |cx, T| run::<T>(cx, n, Some(3), k, none, 2), lazy = true));
        }
        items.push(dual!(format!("backtracking n={}", n), ["BacktrackingLineSearch::step"], b("every trial step"), |cx, T| backtracking::<T>(cx, n), lazy = true));
        items.push(dual!(format!("full step n={}", n), ["NoLineSearch::step"], b(""), |cx, T| full_step::<T>(cx, n)));
    }
    symcore::run::main(items);
}
