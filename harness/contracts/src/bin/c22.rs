//! C22: finite-difference derivatives.
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorView, DVectorViewMut};
use fenris_optimize::calculus::*;
use std::cell::RefCell;
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

/// An arbitrary function: every distinct point gets an arbitrary (fresh) value; equal points the same one.
struct Arb<T> {
    vals: Vec<Vec<T>>,
    seen: RefCell<Vec<Vec<T>>>,
}
impl<T: SReal> Arb<T> {
    fn new(cx: &mut Cx<T>, points: usize, m: usize) -> Self {
        Arb { vals: (0..points).map(|k| cx.reals(&format!("F{}_", k), m)).collect(), seen: RefCell::new(vec![]) }
    }
    fn at(&self, x: &[T]) -> &[T] {
        let mut s = self.seen.borrow_mut();
        for (k, y) in s.iter().enumerate() {
            if y.iter().zip(x).all(|(a, b)| *a == *b) {
                return &self.vals[k];
            }
        }
        s.push(x.to_vec());
        &self.vals[s.len() - 1]
    }
}
/// Column i: (F(x + h e_i) - F(x - h e_i)) / (2 h).
fn want<T: SReal>(f: &Arb<T>, x: &[T], h: T, m: usize) -> Vec<T> {
    let mut v = vec![];
    for i in 0..x.len() {
        let (mut a, mut b) = (x.to_vec(), x.to_vec());
        a[i] = x[i] + h;
        b[i] = x[i] - h;
        let (fa, fb) = (f.at(&a).to_vec(), f.at(&b).to_vec());
        for j in 0..m {
            v.push((fa[j] - fb[j]) / (T::int(2) * h));
        }
    }
    v
}
fn step<T: SReal>(cx: &mut Cx<T>) -> T {
    let h = cx.real("h");
    cx.assume_ne(h, T::zero());
    h
}
fn gradient<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let (x, h) = (cx.reals("x", n), step(cx));
    let f = Arb::new(cx, 4 * n + 2, 1);
    let w = want(&f, &x, h, 1);
    let mut y = DVector::from_column_slice(&x);
    let g = approximate_gradient_fd(|p: DVectorView<T>| f.at(p.as_slice())[0], &mut y, h);
    cx.ensure_eqs("gradient is the central difference", g.as_slice(), &w);
    cx.ensure_eqs("point unchanged", y.as_slice(), &x);
    let mut out = DVector::from_element(n, T::ratio(13, 3));
    approximate_gradient_fd_into(DVectorViewMut::from(&mut out), |p: DVectorView<T>| f.at(p.as_slice())[0], &mut y, h);
    cx.ensure_eqs("gradient into a buffer is the central difference", out.as_slice(), &w);
    cx.ensure_eqs("point unchanged after gradient into", y.as_slice(), &x);
}
struct F<'a, T>(&'a Arb<T>, usize);
impl<'a, T: SReal> VectorFunction<T> for F<'a, T> {
    fn dimension(&self) -> usize {
        self.1
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<T>, x: &DVectorView<T>) {
        f.copy_from_slice(self.0.at(x.as_slice()));
    }
}
fn jacobian<T: SReal>(cx: &mut Cx<T>, m: usize, n: usize) {
    let (x, h) = (cx.reals("x", n), step(cx));
    let f = Arb::new(cx, 4 * n + 2, m);
    let w = want(&f, &x, h, m);
    let mut y = DVector::from_column_slice(&x);
    let eval = |p: DVectorView<T>, mut o: DVectorViewMut<T>| o.copy_from_slice(f.at(p.as_slice()));
    let j = approximate_jacobian_fd(m, eval, &mut y, h);
    cx.ensure("shape", j.nrows() == m && j.ncols() == n);
    cx.ensure_eqs("jacobian is the central difference", j.as_slice(), &w);
    cx.ensure_eqs("point unchanged", y.as_slice(), &x);
    let mut out = DMatrix::from_element(m, n, T::ratio(13, 3));
    approximate_jacobian_fd_into(DMatrixViewMut::from(&mut out), eval, &mut y, h);
    cx.ensure_eqs("jacobian into a buffer is the central difference", out.as_slice(), &w);
    cx.ensure_eqs("point unchanged after jacobian into", y.as_slice(), &x);
    let j = approximate_jacobian(F(&f, m), &DVector::from_column_slice(&x), &h);
    cx.ensure("shape of approximate_jacobian", j.nrows() == m && j.ncols() == n);
    cx.ensure_eqs("approximate_jacobian is the central difference", j.as_slice(), &w);
    let func = VectorFunctionBuilder::with_dimension(m).with_function(|o: &mut DVectorViewMut<T>, p: &DVectorView<T>| o.copy_from_slice(f.at(p.as_slice())));
    let j = approximate_jacobian(func, &DVector::from_column_slice(&x), &h);
    cx.ensure_eqs("approximate_jacobian of a built function", j.as_slice(), &w);
}
/// Exactness: for a quadratic function with arbitrary coefficients the result is the derivative.
fn quadratic<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let (x, h) = (cx.reals("x", n), step(cx));
    let (a, b, c) = (cx.reals("a", n * n), cx.reals("b", n), cx.real("c"));
    let q = |p: &[T]| {
        let mut s = c;
        for i in 0..n {
            s += b[i] * p[i];
            for j in 0..n {
                s += a[i * n + j] * p[i] * p[j];
            }
        }
        s
    };
    let d: Vec<T> = (0..n).map(|i| (0..n).fold(b[i], |s, j| s + (a[i * n + j] + a[j * n + i]) * x[j])).collect();
    let mut y = DVector::from_column_slice(&x);
    let g = approximate_gradient_fd(|p: DVectorView<T>| q(p.as_slice()), &mut y, h);
    cx.ensure_eqs("exact for quadratics", g.as_slice(), &d);
    let j = approximate_jacobian_fd(2, |p: DVectorView<T>, mut o: DVectorViewMut<T>| { o[0] = q(p.as_slice()); o[1] = -q(p.as_slice()); }, &mut y, h);
    let dd: Vec<T> = d.iter().flat_map(|v| [*v, -*v]).collect();
    cx.ensure_eqs("jacobian exact for quadratics", j.as_slice(), &dd);
    cx.ensure_eqs("point unchanged", y.as_slice(), &x);
}
/// The point may be a part of a larger vector: nothing else is touched.
fn part<T: SReal>(cx: &mut Cx<T>) {
    let (x, h) = (cx.reals("x", 5), step(cx));
    let f = Arb::new(cx, 10, 2);
    let w = want(&f, &x[1..3], h, 2);
    let mut y = DVector::from_column_slice(&x);
    let mut flat = vec![T::ratio(13, 3); 6];
    approximate_jacobian_fd_into(DMatrixViewMut::from_slice(&mut flat[1..5], 2, 2), |p: DVectorView<T>, mut o: DVectorViewMut<T>| o.copy_from_slice(f.at(p.as_slice())), DVectorViewMut::from_slice(&mut y.as_mut_slice()[1..3], 2), h);
    cx.ensure_eqs("jacobian in place", &flat[1..5], &w);
    cx.ensure_eqs("surroundings untouched", &[flat[0], flat[5]], &[T::ratio(13, 3); 2]);
    cx.ensure_eqs("point and surroundings unchanged", y.as_slice(), &x);
}
fn main() {
    let mut items: Vec<Item> = vec![];
    for n in 0..=4usize {
        items.push(dual!(format!("gradient n={}", n), ["approximate_gradient_fd", "approximate_gradient_fd_into", "approximate_gradient_fd_into_"], format!("{} variables", n), |cx, T| gradient::<T>(cx, n)));
        items.push(dual!(format!("quadratic n={}", n), ["approximate_gradient_fd", "approximate_jacobian_fd"], format!("{} variables", n), |cx, T| quadratic::<T>(cx, n)));
        for m in 0..=3usize {
            items.push(dual!(format!("jacobian {}x{}", m, n), ["approximate_jacobian_fd", "approximate_jacobian_fd_into", "approximate_jacobian", "VectorFunctionBuilder"], format!("{} functions of {} variables", m, n), |cx, T| jacobian::<T>(cx, m, n)));
        }
    }
    items.push(dual!("point and output inside larger buffers", ["approximate_jacobian_fd_into"], "2 functions of 2 variables", |cx, T| part::<T>(cx)));
    items.push(bounded("the point comes back exactly", &["approximate_gradient_fd", "approximate_jacobian_fd"], "machine numbers: every pair of 12 coordinates and 8 steps of very different magnitudes", |e| {
        let xs = [0.0, -0.0, 1.0, 0.1, -0.3, 1e-3, 1e-17, 3e7, -2.0 / 3.0, 1e16, 5e-324, 1.0 + f64::EPSILON];
        for h in [1e-9, 1e-5, 0.1, 1.0 / 3.0, 1.0, 1e4, 1e10, -1e-6] {
            for a in xs {
                for b in xs {
                    e.case(|| format!("point ({:e}, {:e}), step {:e}", a, b, h), || {
                        let bits = |v: &DVector<f64>| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
                        let mut x = DVector::from_vec(vec![a, b]);
                        let before = bits(&x);
                        approximate_gradient_fd(|p: DVectorView<f64>| p[0] * p[1], &mut x, h);
                        if bits(&x) != before {
                            return Err(format!("after the gradient: {:?}", x.as_slice()));
                        }
                        approximate_jacobian_fd(1, |p: DVectorView<f64>, mut o: DVectorViewMut<f64>| o[0] = p[0] * p[1], &mut x, h);
                        if bits(&x) != before {
                            return Err(format!("after the Jacobian: {:?}", x.as_slice()));
                        }
                        Ok(())
                    });
                }
            }
        }
    }));
    symcore::run::main(items);
}
