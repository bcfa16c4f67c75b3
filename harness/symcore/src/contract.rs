//! Contracts over the real code: requires / ensures generated on every run and discharged for all reals.
use crate::engine::{engine, PathAbort, Sat, ALL, NEG, POS, ZER};
use crate::poly::Poly;
use crate::rat::Rat;
use crate::sym::Sym;
use nalgebra::RealField;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Reject;

/// Scalars a contract can be run with: `Sym` (proof), `f64` (execution).
pub trait SReal: RealField + Copy {
    const SYMBOLIC: bool;
    fn ratio(n: i64, d: i64) -> Self;
    fn int(n: i64) -> Self {
        Self::ratio(n, 1)
    }
    fn approx_f64(self) -> f64;
    /// d/de f(e) at e = 0, for every component.
    fn directional(f: &mut dyn FnMut(Self) -> Vec<Self>) -> Vec<Self>;
}

impl SReal for f64 {
    const SYMBOLIC: bool = false;
    fn ratio(n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
    fn approx_f64(self) -> f64 {
        self
    }
    fn directional(f: &mut dyn FnMut(f64) -> Vec<f64>) -> Vec<f64> {
        let h = 1e-3;
        let (a, b) = (f(h), f(-h));
        let (c, d) = (f(h / 2.0), f(-h / 2.0));
        let (g, i) = (f(h / 4.0), f(-h / 4.0));
        (0..a.len())
            .map(|k| {
                let d1 = (a[k] - b[k]) / (2.0 * h);
                let d2 = (c[k] - d[k]) / h;
                let d3 = (g[k] - i[k]) / (h / 2.0);
                let (r1, r2) = ((4.0 * d2 - d1) / 3.0, (4.0 * d3 - d2) / 3.0);
                (16.0 * r2 - r1) / 15.0
            })
            .collect()
    }
}

impl SReal for Sym {
    const SYMBOLIC: bool = true;
    fn ratio(n: i64, d: i64) -> Sym {
        crate::sym::rat(Rat::new(n, d))
    }
    fn approx_f64(self) -> f64 {
        crate::sym::to_const(self).unwrap_or(f64::NAN)
    }
    fn directional(f: &mut dyn FnMut(Sym) -> Vec<Sym>) -> Vec<Sym> {
        let (eps, v) = {
            let mut e = engine();
            let n = e.fresh("eps");
            let v = match e.nodes[n as usize] {
                crate::engine::Node::Var(v) => v,
                _ => unreachable!(),
            };
            assert!(e.infinitesimal.is_none(), "nested derivatives");
            e.infinitesimal = Some(v);
            (Sym(n), v)
        };
        let r = catch_unwind(AssertUnwindSafe(|| f(eps)));
        let mut e = engine();
        e.infinitesimal = None;
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                drop(e);
                resume_unwind(p)
            }
        };
        let z = e.konst(Rat::zero());
        let mut dm = Default::default();
        let mut sm = Default::default();
        r.into_iter()
            .map(|t| {
                let d = e.diff(t.0, v, &mut dm);
                Sym(e.subst(d, v, z, &mut sm))
            })
            .collect()
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub obligation: String,
    pub detail: String,
    pub inputs: BTreeMap<String, f64>,
    pub witness: bool,
}

enum Mode {
    Sym,
    Num { rng: Rng, fixed: Option<BTreeMap<String, f64>>, used: BTreeMap<String, f64>, style: u32 },
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// One execution of a contract.
pub struct Cx<T> {
    mode: Mode,
    pub tol: f64,
    pub seen: BTreeMap<String, [u64; 4]>, // obligation -> [instances, normal form, smt, failed]
    pub failures: Vec<Failure>,
    pub unknown: Vec<Failure>,
    _t: std::marker::PhantomData<T>,
    prefix: String,
    inputs: Vec<(String, u32)>,
    names: BTreeMap<String, usize>,
    pub definedness: bool,
}

impl<T: SReal> Cx<T> {
    fn new(mode: Mode) -> Cx<T> {
        Cx { mode, tol: 1e-7, seen: Default::default(), failures: vec![], unknown: vec![], _t: std::marker::PhantomData, prefix: String::new(), inputs: vec![], names: Default::default(), definedness: false }
    }
    fn sample(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        match &mut self.mode {
            Mode::Sym => unreachable!(),
            Mode::Num { rng, fixed, used, style } => {
                let v = match fixed.as_ref().and_then(|f| f.get(name)) {
                    Some(v) => *v,
                    None => {
                        let (a, b) = (lo.max(-2.0_f64.max(-hi.abs())), hi);
                        let (a, b) = if lo.is_finite() && hi.is_finite() {
                            (lo, hi)
                        } else if lo.is_finite() {
                            (lo, lo + 3.0)
                        } else if hi.is_finite() {
                            (hi - 3.0, hi)
                        } else {
                            let _ = (a, b);
                            (-2.0, 2.0)
                        };
                        match *style {
                            0 => a + (b - a) * rng.unit(),
                            1 => a + (b - a) * (rng.below(9) as f64) / 8.0,
                            _ => a + (b - a) * (rng.below(3) as f64) / 2.0,
                        }
                    }
                };
                used.insert(name.to_string(), v);
                v
            }
        }
    }
    /// A free real input.
    pub fn real(&mut self, name: &str) -> T {
        self.input(name, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn reals(&mut self, name: &str, n: usize) -> Vec<T> {
        (0..n).map(|i| self.real(&format!("{}{}", name, i))).collect()
    }
    /// A strictly positive input.
    pub fn pos(&mut self, name: &str) -> T {
        let v = self.input(name, 0.0, f64::INFINITY);
        self.assume_gt(v, T::zero());
        v
    }
    /// An input in a closed interval.
    pub fn real_in(&mut self, name: &str, lo: i64, hi: i64) -> T {
        let v = self.input(name, lo as f64, hi as f64);
        self.assume_le(T::int(lo), v);
        self.assume_le(v, T::int(hi));
        v
    }
    fn input(&mut self, name: &str, lo: f64, hi: f64) -> T {
        // Every call introduces a new input, also when the name was used before.
        let k = self.names.entry(name.to_string()).or_insert(0);
        *k += 1;
        let unique = if *k == 1 { name.to_string() } else { format!("{}#{}", name, k) };
        let name = unique.as_str();
        if T::SYMBOLIC {
            let mut e = engine();
            let n = e.var_named(name);
            self.inputs.push((name.to_string(), n));
            drop(e);
            from_sym(Sym(n))
        } else {
            let v = self.sample(name, lo, hi);
            from_num(v)
        }
    }
    fn assume_sign(&mut self, t: T, set: u8) {
        if T::SYMBOLIC {
            let s = as_sym(t);
            let mut e = engine();
            let (m, ps) = e.sign_mask(s.0);
            if m & set == 0 {
                drop(e);
                resume_unwind(Box::new(PathAbort("assumption contradicted".into())));
            }
            if let Some((p, sg)) = ps {
                e.assume_fact(s.0, &p, sg, set);
            }
        } else {
            let v = t.approx_f64();
            let s = if v < 0.0 {
                NEG
            } else if v > 0.0 {
                POS
            } else if v == 0.0 {
                ZER
            } else {
                0
            };
            if s & set == 0 {
                resume_unwind(Box::new(Reject));
            }
        }
    }
    /// Give a polynomial a name, which the solver may use in its place.
    pub fn view(&mut self, name: &str, t: T) {
        if T::SYMBOLIC {
            engine().add_view(as_sym(t).0, name);
        }
    }
    /// Give a value a name, on this path: the solver may use it in place of every term that equals it.
    pub fn name(&mut self, name: &str, t: T) {
        if T::SYMBOLIC {
            engine().add_name(as_sym(t).0, name);
        }
    }
    /// The names given by `f` are forgotten afterwards.
    pub fn local(&mut self, f: impl FnOnce(&mut Self)) {
        let n = if T::SYMBOLIC { engine().names_len() } else { 0 };
        f(self);
        if T::SYMBOLIC {
            engine().truncate_names(n);
        }
    }
    /// A lemma: proved first, then known on the rest of the path.
    pub fn lemma_le(&mut self, name: &str, a: T, b: T) {
        self.ensure_le(name, a, b);
        if T::SYMBOLIC {
            { let t = as_sym(b - a).0; engine().lemma(t, POS | ZER); }
        }
    }
    pub fn lemma_eq(&mut self, name: &str, a: T, b: T) {
        self.ensure_eq(name, a, b);
        if T::SYMBOLIC {
            { let t = as_sym(a - b).0; engine().lemma(t, ZER); }
        }
    }
    pub fn lemma_gt(&mut self, name: &str, a: T, b: T) {
        self.ensure_gt(name, a, b);
        if T::SYMBOLIC {
            { let t = as_sym(a - b).0; engine().lemma(t, POS); }
        }
    }
    pub fn assume_gt(&mut self, a: T, b: T) {
        self.assume_sign(a - b, POS)
    }
    pub fn assume_le(&mut self, a: T, b: T) {
        self.assume_sign(b - a, POS | ZER)
    }
    pub fn assume_ne(&mut self, a: T, b: T) {
        self.assume_sign(a - b, POS | NEG)
    }
    pub fn assume_eq(&mut self, a: T, b: T) {
        self.assume_sign(a - b, ZER)
    }
    pub fn assume(&mut self, b: bool) {
        if !b {
            if T::SYMBOLIC {
                resume_unwind(Box::new(PathAbort("assumption false".into())));
            }
            resume_unwind(Box::new(Reject));
        }
    }
    pub fn scope(&mut self, s: &str) {
        self.prefix = s.to_string();
    }
    fn ob(&self, name: &str) -> String {
        if self.prefix.is_empty() {
            name.to_string()
        } else {
            format!("{}: {}", self.prefix, name)
        }
    }
    fn count(&mut self, ob: &str, k: usize) {
        let e = self.seen.entry(ob.to_string()).or_insert([0; 4]);
        e[0] += 1;
        e[k] += 1;
    }
    fn used(&self) -> BTreeMap<String, f64> {
        match &self.mode {
            Mode::Num { used, .. } => used.clone(),
            Mode::Sym => Default::default(),
        }
    }
    /// ensures: sign(t) in set
    fn ensure_sign(&mut self, name: &str, t: T, set: u8, show: &dyn Fn() -> String) {
        let ob = self.ob(name);
        if T::SYMBOLIC {
            let s = as_sym(t);
            let mut e = engine();
            let t0 = Instant::now();
            if let Some(by) = e.view_proof(s.0, set) {
                e.nf_seconds += t0.elapsed().as_secs_f64();
                drop(e);
                self.count(&ob, by as usize);
                return;
            }
            let (m, ps) = e.sign_mask(s.0);
            e.nf_seconds += t0.elapsed().as_secs_f64();
            if m != 0 && m & !set == 0 {
                drop(e);
                self.count(&ob, 1);
                return;
            }
            match ps {
                None => {
                    drop(e);
                    // constant wrong answer, or not a real number: any point of this path is a witness
                    let (inputs, ok) = self.path_point();
                    self.count(&ob, 3);
                    self.failures.push(Failure { obligation: ob, detail: format!("value is {}", show()), inputs, witness: ok });
                }
                Some((p, sg)) => {
                    let neg = ALL & !set;
                    let neg = if sg > 0 { neg } else { crate::engine::flip(neg) };
                    let (r, model) = e.query_model(&[(p.clone(), neg)], true, &[(s.0, ALL & !set)]);
                    let txt = if r == Sat::Unsat { String::new() } else { e.show_poly(&p) };
                    drop(e);
                    match r {
                        Sat::Unsat => self.count(&ob, 2),
                        Sat::Sat => {
                            self.count(&ob, 3);
                            self.failures.push(Failure { obligation: ob, detail: format!("{} fails: sign of {} (expected in {})", show(), txt, set_name(if sg > 0 { set } else { crate::engine::flip(set) })), inputs: model, witness: true });
                        }
                        Sat::Unknown => {
                            self.count(&ob, 3);
                            self.unknown.push(Failure { obligation: ob, detail: format!("{} undecided: sign of {}", show(), txt), inputs: Default::default(), witness: false });
                        }
                    }
                }
            }
        }
    }
    fn path_point(&mut self) -> (BTreeMap<String, f64>, bool) {
        let mut e = engine();
        // force every input to be declared
        let inputs: Vec<(String, u32)> = self.inputs.clone();
        let mut extra = vec![];
        for (_, n) in &inputs {
            if let crate::engine::Node::Var(v) = e.nodes[*n as usize] {
                extra.push((Poly::var(v), ALL));
            }
        }
        let (r, m) = e.query_model(&extra, true, &[]);
        (m, r == Sat::Sat)
    }
    pub fn ensure_eq(&mut self, name: &str, a: T, b: T) {
        if T::SYMBOLIC {
            if as_sym(a).0 == as_sym(b).0 {
                let (m, _) = engine().sign_mask(as_sym(a).0);
                if m != 0 {
                    let ob = self.ob(name);
                    self.count(&ob, 1);
                    return;
                }
            }
            self.ensure_sign(name, a - b, ZER, &|| format!("{} == {}", short(a), short(b)));
        } else {
            let (x, y) = (a.approx_f64(), b.approx_f64());
            let ob = self.ob(name);
            let ok = x == y || (x - y).abs() <= self.tol * (1.0 + x.abs().max(y.abs()));
            self.count(&ob, if ok { 1 } else { 3 });
            if !ok {
                let inputs = self.used();
                self.failures.push(Failure { obligation: ob, detail: format!("{:e} != {:e}", x, y), inputs, witness: true });
            }
        }
    }
    /// Whether two values are the same polynomial (nearly equal for floating point numbers); no case distinction.
    pub fn identical(&self, a: &[T], b: &[T]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| {
            if T::SYMBOLIC {
                let d = as_sym(*x - *y).0;
                engine().nf(d).and_then(|r| r.as_const()).map_or(false, |c| c.is_zero())
            } else {
                (x.approx_f64() - y.approx_f64()).abs() <= 1e-12 * (1.0 + x.approx_f64().abs())
            }
        })
    }
    pub fn ensure_eqs(&mut self, name: &str, a: &[T], b: &[T]) {
        self.ensure(&format!("{} (length)", name), a.len() == b.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            self.ensure_eq(&format!("{}[{}]", name, i), *x, *y);
        }
    }
    pub fn ensure_le(&mut self, name: &str, a: T, b: T) {
        if T::SYMBOLIC {
            if as_sym(a).0 == as_sym(b).0 {
                let ob = self.ob(name);
                self.count(&ob, 1);
                return;
            }
            self.ensure_sign(name, b - a, POS | ZER, &|| format!("{} <= {}", short(a), short(b)));
        } else {
            let (x, y) = (a.approx_f64(), b.approx_f64());
            let ob = self.ob(name);
            let ok = x <= y + self.tol * (1.0 + x.abs().max(y.abs()));
            self.count(&ob, if ok { 1 } else { 3 });
            if !ok {
                let inputs = self.used();
                self.failures.push(Failure { obligation: ob, detail: format!("{:e} > {:e}", x, y), inputs, witness: true });
            }
        }
    }
    pub fn ensure_gt(&mut self, name: &str, a: T, b: T) {
        if T::SYMBOLIC {
            self.ensure_sign(name, a - b, POS, &|| format!("{} > {}", short(a), short(b)));
        } else {
            self.ensure_le(name, b, a);
        }
    }
    /// ensures: a discrete fact, on this path.
    pub fn ensure(&mut self, name: &str, ok: bool) {
        let ob = self.ob(name);
        if ok {
            self.count(&ob, 1);
        } else if T::SYMBOLIC {
            // false on this path: a violation exactly when the path is feasible
            let (inputs, _) = self.path_point();
            let r = engine().query(&[]);
            match r {
                Sat::Unsat => self.count(&ob, 2),
                Sat::Sat => {
                    self.count(&ob, 3);
                    self.failures.push(Failure { obligation: ob, detail: "false on a feasible path".into(), inputs, witness: true });
                }
                Sat::Unknown => {
                    self.count(&ob, 3);
                    self.unknown.push(Failure { obligation: ob, detail: "false on a path of undecided feasibility".into(), inputs: Default::default(), witness: false });
                }
            }
        } else {
            self.count(&ob, 3);
            let inputs = self.used();
            self.failures.push(Failure { obligation: ob, detail: "false".into(), inputs, witness: true });
        }
    }
    pub fn directional(&mut self, mut f: impl FnMut(T) -> Vec<T>) -> Vec<T> {
        T::directional(&mut f)
    }
    /// Prove that every denominator met so far is nonzero under the path condition.
    pub fn ensure_defined(&mut self, name: &str) {
        if T::SYMBOLIC {
            let mut den = engine().undefined.clone();
            den.sort();
            den.dedup();
            for d in den {
                self.ensure_sign(name, from_sym(Sym(d)), POS | NEG, &|| "denominator is nonzero".into());
            }
        }
    }
}
fn short<T: std::fmt::Display>(t: T) -> String {
    let s = t.to_string();
    if s.len() > 160 {
        format!("{}...", s.chars().take(160).collect::<String>())
    } else {
        s
    }
}
fn set_name(s: u8) -> &'static str {
    match s {
        NEG => "< 0",
        ZER => "= 0",
        POS => "> 0",
        3 => "<= 0",
        6 => ">= 0",
        5 => "!= 0",
        _ => "?",
    }
}
// T is Sym or f64; these are only called on the matching type.
fn from_sym<T: SReal>(s: Sym) -> T {
    assert!(T::SYMBOLIC);
    *(&s as &dyn std::any::Any).downcast_ref::<T>().unwrap()
}
fn as_sym<T: SReal>(t: T) -> Sym {
    *(&t as &dyn std::any::Any).downcast_ref::<Sym>().unwrap()
}
fn from_num<T: SReal>(v: f64) -> T {
    *(&v as &dyn std::any::Any).downcast_ref::<T>().unwrap()
}

pub trait Contract: Sync + Send {
    fn name(&self) -> String;
    /// The functions of /repo under this contract.
    fn functions(&self) -> Vec<String>;
    fn run_sym(&self, cx: &mut Cx<Sym>);
    fn run_num(&self, cx: &mut Cx<f64>);
    /// A bound, when the contract is proved only for shapes up to that bound.
    fn bound(&self) -> Option<String> {
        None
    }
    fn samples(&self) -> usize {
        16
    }
    fn prune(&self) -> bool {
        true
    }
    fn max_paths(&self) -> usize {
        5000
    }
    /// represent max/min by constrained atoms instead of forking
    fn lazy_max(&self) -> bool {
        false
    }
    fn panics_allowed(&self) -> bool {
        false
    }
}

#[macro_export]
macro_rules! contract {
    ($name:ident, $text:expr, [$($f:expr),* $(,)?], bound = $b:expr, |$cx:ident, $T:ident| $body:block $(, $opt:ident = $val:expr)* $(,)?) => {
        pub struct $name;
        impl $name {
            fn body<$T: $crate::SReal>($cx: &mut $crate::Cx<$T>) $body
        }
        impl $crate::Contract for $name {
            fn name(&self) -> String { $text.to_string() }
            fn functions(&self) -> Vec<String> { vec![$($f.to_string()),*] }
            fn run_sym(&self, cx: &mut $crate::Cx<$crate::Sym>) { Self::body(cx) }
            fn run_num(&self, cx: &mut $crate::Cx<f64>) { Self::body(cx) }
            fn bound(&self) -> Option<String> { let b: &str = $b; if b.is_empty() { None } else { Some(b.to_string()) } }
            $($crate::contract!(@opt $opt, $val);)*
        }
    };
    ($name:ident, $text:expr, [$($f:expr),* $(,)?], |$cx:ident, $T:ident| $body:block $(, $opt:ident = $val:expr)* $(,)?) => {
        $crate::contract!($name, $text, [$($f),*], bound = "", |$cx, $T| $body $(, $opt = $val)*);
    };
    (@opt lazy_max, $v:expr) => { fn lazy_max(&self) -> bool { $v } };
    (@opt prune, $v:expr) => { fn prune(&self) -> bool { $v } };
    (@opt panics_allowed, $v:expr) => { fn panics_allowed(&self) -> bool { $v } };
    (@opt samples, $v:expr) => { fn samples(&self) -> usize { $v } };
    (@opt max_paths, $v:expr) => { fn max_paths(&self) -> usize { $v } };
}

/// A contract whose shape is chosen at run time.
pub struct Dual {
    pub name: String,
    pub functions: Vec<String>,
    pub bound: Option<String>,
    pub sym: Box<dyn Fn(&mut Cx<Sym>) + Send + Sync>,
    pub num: Box<dyn Fn(&mut Cx<f64>) + Send + Sync>,
    pub lazy: bool,
    pub prune: bool,
    pub max_paths: usize,
    pub panics: bool,
    pub samples: usize,
}
impl Contract for Dual {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn functions(&self) -> Vec<String> {
        self.functions.clone()
    }
    fn bound(&self) -> Option<String> {
        self.bound.clone()
    }
    fn run_sym(&self, cx: &mut Cx<Sym>) {
        (self.sym)(cx)
    }
    fn run_num(&self, cx: &mut Cx<f64>) {
        (self.num)(cx)
    }
    fn lazy_max(&self) -> bool {
        self.lazy
    }
    fn prune(&self) -> bool {
        self.prune
    }
    fn max_paths(&self) -> usize {
        self.max_paths
    }
    fn panics_allowed(&self) -> bool {
        self.panics
    }
    fn samples(&self) -> usize {
        self.samples
    }
}
/// `dual!(name, [functions], bound, |cx, T| body)`: one body, proved for the symbolic scalar and executed for f64. Captures must be Copy.
#[macro_export]
macro_rules! dual {
    ($name:expr, [$($f:expr),* $(,)?], $bound:expr, |$cx:ident, $T:ident| $body:expr $(, $opt:ident = $val:expr)* $(,)?) => {{
        let b: String = $bound.to_string();
        #[allow(unused_mut)]
        let mut d = $crate::contract::Dual {
            name: $name.to_string(), functions: vec![$($f.to_string()),*], bound: if b.is_empty() { None } else { Some(b) },
            sym: Box::new(move |$cx: &mut $crate::Cx<$crate::Sym>| { #[allow(dead_code)] type $T = $crate::Sym; $body; }),
            num: Box::new(move |$cx: &mut $crate::Cx<f64>| { #[allow(dead_code)] type $T = f64; $body; }),
            lazy: false, prune: true, max_paths: 5000, panics: false, samples: 16,
        };
        $( d.$opt = $val; )*
        $crate::run::Item::C(Box::new(d))
    }};
}

#[derive(Default)]
pub struct Outcome {
    pub name: String,
    pub functions: Vec<String>,
    pub bound: Option<String>,
    pub paths: u64,
    pub aborted: BTreeMap<String, u64>,
    pub obligations: BTreeMap<String, [u64; 4]>,
    pub failures: Vec<Failure>,
    pub unknown: Vec<Failure>,
    pub executions: u64,
    pub rejected: u64,
    pub exec_failures: Vec<Failure>,
    pub seconds: f64,
    pub incomplete: Option<String>,
}

fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn prove(c: &dyn Contract) -> Outcome {
    let t0 = Instant::now();
    let mut out = Outcome { name: c.name(), functions: c.functions(), bound: c.bound(), ..Default::default() };
    {
        let mut e = engine();
        e.decisions.clear();
        e.forks_allowed = true;
        e.prune = c.prune();
        e.lazy_max = c.lazy_max();
        e.clear_views();
    }
    loop {
        engine().reset_path();
        let mut cx = Cx::<Sym>::new(Mode::Sym);
        let r = catch_unwind(AssertUnwindSafe(|| c.run_sym(&mut cx)));
        let mut completed = true;
        if let Err(p) = r {
            if let Some(a) = p.downcast_ref::<PathAbort>() {
                *out.aborted.entry(a.0.clone()).or_insert(0) += 1;
                completed = false;
            } else if c.panics_allowed() {
                completed = false;
                *out.aborted.entry("panic (permitted by the contract)".into()).or_insert(0) += 1;
            } else {
                let text = panic_text(&p);
                engine().infinitesimal = None;
                let (inputs, ok) = cx.path_point();
                let r = if ok { Sat::Sat } else { engine().query(&[]) };
                let f = Failure { obligation: "does not panic".into(), detail: text, inputs, witness: ok };
                cx.count("does not panic", if r == Sat::Unsat { 2 } else { 3 });
                match r {
                    Sat::Unsat => {}
                    Sat::Sat => cx.failures.push(f),
                    Sat::Unknown => cx.unknown.push(f),
                }
            }
        } else {
            cx.count("does not panic", 1);
        }
        engine().infinitesimal = None;
        if completed {
            out.paths += 1;
        }
        for (k, v) in cx.seen {
            let e = out.obligations.entry(k).or_insert([0; 4]);
            for i in 0..4 {
                e[i] += v[i];
            }
        }
        if out.failures.len() < 20 {
            out.failures.extend(cx.failures);
        }
        if out.unknown.len() < 20 {
            out.unknown.extend(cx.unknown);
        }
        let mut e = engine();
        // backtrack
        loop {
            match e.decisions.pop() {
                None => break,
                Some(d) if d.rest != 0 => {
                    e.decisions.push(crate::engine::Decision { taken: d.rest, rest: 0 });
                    break;
                }
                Some(_) => {}
            }
        }
        if e.decisions.is_empty() {
            break;
        }
        let total = out.paths + out.aborted.values().sum::<u64>();
        if t0.elapsed().as_secs() > 20 && !(out.failures.is_empty() && out.unknown.is_empty()) {
            break; // refuted already
        }
        if total as usize >= c.max_paths() {
            out.incomplete = Some(format!("stopped after {} paths", total));
            break;
        }
    }
    engine().forks_allowed = false;
    engine().reset_path();
    out.seconds = t0.elapsed().as_secs_f64();
    out
}

/// Execute the contract on the real code with machine floats, on `n` sampled inputs or on the given ones.
pub fn execute(c: &dyn Contract, seed: u64, n: usize, fixed: Option<BTreeMap<String, f64>>, out: &mut Outcome, tol: Option<f64>) {
    let mut tries = 0;
    let mut done = 0;
    while done < n && tries < 20 * n + 20 {
        let mut cx = Cx::<f64>::new(Mode::Num { rng: Rng(seed.wrapping_mul(1000003).wrapping_add(tries as u64)), fixed: fixed.clone(), used: Default::default(), style: (tries % 4) as u32 });
        if let Some(t) = tol {
            cx.tol = t;
        }
        tries += 1;
        let r = catch_unwind(AssertUnwindSafe(|| c.run_num(&mut cx)));
        match r {
            Ok(()) => {}
            Err(p) => {
                if p.is::<Reject>() {
                    out.rejected += 1;
                    if fixed.is_some() {
                        return;
                    }
                    continue;
                }
                if !c.panics_allowed() {
                    let inputs = cx.used();
                    cx.failures.push(Failure { obligation: "does not panic".into(), detail: panic_text(&p), inputs, witness: true });
                }
            }
        }
        done += 1;
        out.executions += 1;
        if out.exec_failures.len() < 10 {
            out.exec_failures.extend(cx.failures.into_iter().take(5));
        }
        if fixed.is_some() {
            return;
        }
    }
}

/// Runs a contract body on concrete values; drawn values come from a fixed seed.
pub fn concrete(f: impl FnOnce(&mut Cx<f64>)) -> Result<(), String> {
    let mut cx = Cx::<f64>::new(Mode::Num { rng: Rng(1), fixed: None, used: Default::default(), style: 0 });
    if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(&mut cx))) {
        if p.is::<Reject>() {
            return Ok(());
        }
        return Err(format!("panic: {}", panic_text(&p)));
    }
    match cx.failures.first() {
        None => Ok(()),
        Some(f) => Err(format!("{}: {}", f.obligation, f.detail)),
    }
}
pub fn failure_json(c: &str, f: &Failure) -> Value {
    json!({"contract": c, "obligation": f.obligation, "detail": f.detail, "inputs": f.inputs, "concrete_witness": f.witness})
}
