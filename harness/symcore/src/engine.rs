//! Term arena, normal forms, path conditions and the SMT back end.
use crate::poly::{Factors, Mono, Poly, RF};
use crate::rat::Rat;
use rustc_hash::FxHashMap;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F {
    Sqrt,
    Ln,
    Exp,
    Sin,
    Cos,
    Acos,
    Asin,
    Atan,
    Cbrt,
    Floor,
    Atan2,
    Pow,
    Max,
    Min,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(Rat),
    Var(u32),
    Add(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Fun(F, u32, u32),
    /// larger than every real
    Huge(bool),
    /// not a real number: the result of an undefined operation
    Poison,
}

pub enum VarKind {
    Input,
    Atom(F, Arc<RF>, Arc<RF>, u32, u32),
    /// a name for a polynomial in the inputs
    View,
}
/// `var` stands for `coef * poly`, with `poly` monic.
pub struct View {
    pub var: u32,
    poly: Poly,
    coef: Rat,
}
pub struct VarInfo {
    pub name: String,
    pub kind: VarKind,
}

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;
pub const ALL: u8 = 7;
pub fn flip(m: u8) -> u8 {
    (m & ZER) | ((m & NEG) << 2) | ((m & POS) >> 2)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Decision {
    pub taken: u8,
    pub rest: u8, // the signs not yet explored
}

/// Unwinding payload for a path that is infeasible or out of scope.
pub struct PathAbort(pub String);

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub unknown: u64,
    pub seconds: f64,
}

pub struct Engine {
    pub nodes: Vec<Node>,
    index: FxHashMap<Node, u32>,
    nf: Vec<Option<Arc<RF>>>,
    pub vars: Vec<VarInfo>,
    atom_index: FxHashMap<(F, Arc<RF>, Arc<RF>), u32>,
    pub factors: Factors,
    // path state
    pub facts: Vec<(Poly, u8)>,
    pub fact_nodes: Vec<(u32, u8)>,
    pub views: Vec<View>,
    view_rows: Vec<(Poly, Poly)>,
    names: Vec<(u32, f64, u32)>,
    fp_memo: FxHashMap<u32, f64>,
    nf2: Vec<Option<Arc<RF>>>,
    z3_view: Option<Z3>,
    fact_index: FxHashMap<Poly, u8>,
    pub decisions: Vec<Decision>,
    pub cursor: usize,
    pub forks_allowed: bool,
    pub prune: bool,
    pub infinitesimal: Option<u32>,
    pub undefined: Vec<u32>, // denominators divided by on this path
    pub loose: u64,
    z3: Option<Z3>,
    z3_abs: Option<Z3>,
    pub lazy_max: bool,
    pub z3_ms: u32,
    /// Time limit of feasibility queries at forks (an undecided branch is explored).
    pub fork_ms: u32,
    forking: bool,
    pub stats: SolverStats,
    pub nf_seconds: f64,
}

struct Z3 {
    _child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    declared: BTreeSet<u32>,
    asserted: usize,
    relations: bool,
    has_roots: bool,
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self._child.kill();
        let _ = self._child.wait();
    }
}

static ENGINE: Mutex<Option<Engine>> = Mutex::new(None);

pub struct Guard(MutexGuard<'static, Option<Engine>>);
impl std::ops::Deref for Guard {
    type Target = Engine;
    fn deref(&self) -> &Engine {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Engine {
        self.0.as_mut().unwrap()
    }
}
pub fn engine() -> Guard {
    let mut g = match ENGINE.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    if g.is_none() {
        *g = Some(Engine::new());
    }
    Guard(g)
}

impl Engine {
    fn new() -> Engine {
        Engine {
            nodes: vec![],
            index: Default::default(),
            nf: vec![],
            vars: vec![],
            atom_index: Default::default(),
            factors: Default::default(),
            facts: vec![],
            fact_nodes: vec![],
            views: vec![],
            view_rows: vec![],
            names: vec![],
            fp_memo: Default::default(),
            nf2: vec![],
            z3_view: None,
            fact_index: Default::default(),
            decisions: vec![],
            cursor: 0,
            forks_allowed: false,
            prune: true,
            infinitesimal: None,
            undefined: vec![],
            loose: 0,
            z3: None,
            z3_abs: None,
            lazy_max: false,
            fork_ms: 200,
            forking: false,
            z3_ms: std::env::var("SYM_Z3_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(2000),
            stats: Default::default(),
            nf_seconds: 0.0,
        }
    }
    pub fn mk(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.index.get(&n) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.index.insert(n.clone(), i);
        self.nodes.push(n);
        self.nf.push(None);
        i
    }
    pub fn konst(&mut self, r: Rat) -> u32 {
        self.mk(Node::Const(r))
    }
    pub fn cst(&self, a: u32) -> Option<&Rat> {
        match &self.nodes[a as usize] {
            Node::Const(r) => Some(r),
            _ => None,
        }
    }
    pub fn fresh(&mut self, name: &str) -> u32 {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), kind: VarKind::Input });
        self.mk(Node::Var(v))
    }
    pub fn var_named(&mut self, name: &str) -> u32 {
        if let Some(v) = self.vars.iter().position(|x| x.name == name && matches!(x.kind, VarKind::Input)) {
            return self.mk(Node::Var(v as u32));
        }
        self.fresh(name)
    }
    fn special(&mut self, a: u32, b: u32) -> Option<(Node, Node)> {
        let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        if matches!(x, Node::Huge(_) | Node::Poison) || matches!(y, Node::Huge(_) | Node::Poison) {
            Some((x.clone(), y.clone()))
        } else {
            None
        }
    }
    pub fn poison(&mut self) -> u32 {
        self.mk(Node::Poison)
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        if let Some((x, y)) = self.special(a, b) {
            return match (x, y) {
                (Node::Poison, _) | (_, Node::Poison) => self.poison(),
                (Node::Huge(p), Node::Huge(q)) if p != q => self.poison(),
                (Node::Huge(_), _) => a,
                _ => b,
            };
        }
        let r = match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => Some(x.add(y)),
            (Some(x), None) if x.is_zero() => return b,
            (None, Some(y)) if y.is_zero() => return a,
            _ => None,
        };
        if let Some(r) = r {
            return self.konst(r);
        }
        self.mk(Node::Add(a.min(b), a.max(b)))
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        if let Some((x, y)) = self.special(a, b) {
            let s = |n: &Node| match n {
                Node::Const(r) => r.sign(),
                Node::Huge(p) => {
                    if *p {
                        1
                    } else {
                        -1
                    }
                }
                _ => 0,
            };
            if matches!(x, Node::Poison) || matches!(y, Node::Poison) {
                return self.poison();
            }
            return match s(&x) * s(&y) {
                1 => self.mk(Node::Huge(true)),
                -1 => self.mk(Node::Huge(false)),
                _ => self.poison(),
            };
        }
        let r = match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => Some(x.mul(y)),
            (Some(x), None) if x.is_zero() => return a,
            (None, Some(y)) if y.is_zero() => return b,
            (Some(x), None) if x.is_one() => return b,
            (None, Some(y)) if y.is_one() => return a,
            _ => None,
        };
        if let Some(r) = r {
            return self.konst(r);
        }
        self.mk(Node::Mul(a.min(b), a.max(b)))
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        let m = self.konst(Rat::int(-1));
        self.mul(m, a)
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        if a == b && !matches!(self.nodes[a as usize], Node::Huge(_) | Node::Poison) {
            return self.konst(Rat::zero());
        }
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn div(&mut self, a: u32, b: u32) -> u32 {
        if let Some((x, y)) = self.special(a, b) {
            if let (Node::Const(_) | Node::Var(_) | Node::Add(..) | Node::Mul(..) | Node::Div(..) | Node::Fun(..), Node::Huge(_)) = (&x, &y) {
                return self.konst(Rat::zero());
            }
            return self.poison();
        }
        if let Some(y) = self.cst(b).cloned() {
            if y.is_zero() {
                return self.poison();
            }
            let c = self.konst(y.inv());
            return self.mul(a, c);
        }
        self.undefined.push(b);
        self.mk(Node::Div(a, b))
    }
    pub fn fun(&mut self, f: F, a: u32, b: u32) -> u32 {
        if self.special(a, b).is_some() {
            return self.poison();
        }
        if let Some(x) = self.cst(a).cloned() {
            match f {
                F::Sqrt => {
                    if x.sign() < 0 {
                        return self.poison();
                    }
                    if let Some(s) = x.sqrt_exact() {
                        return self.konst(s);
                    }
                }
                F::Ln if x.is_one() => return self.konst(Rat::zero()),
                F::Exp if x.is_zero() => return self.konst(Rat::one()),
                F::Sin if x.is_zero() => return self.konst(Rat::zero()),
                F::Cos if x.is_zero() => return self.konst(Rat::one()),
                F::Atan | F::Asin if x.is_zero() => return self.konst(Rat::zero()),
                F::Floor => {
                    let q = num_integer::Integer::div_floor(&x.numer(), &x.denom());
                    return self.konst(Rat::from_big(num_rational::BigRational::from_integer(q)));
                }
                _ => {}
            }
        }
        self.mk(Node::Fun(f, a, b))
    }

    // ---- normal forms ----
    pub fn nf(&mut self, root: u32) -> Option<Arc<RF>> {
        if let Some(r) = &self.nf[root as usize] {
            return Some(r.clone());
        }
        let mut stack = vec![root];
        while let Some(&t) = stack.last() {
            if self.nf[t as usize].is_some() {
                stack.pop();
                continue;
            }
            let node = self.nodes[t as usize].clone();
            let deps: Vec<u32> = match &node {
                Node::Add(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Fun(_, a, b) => vec![*a, *b],
                Node::Huge(_) | Node::Poison => return None,
                _ => vec![],
            };
            let missing: Vec<u32> = deps.iter().copied().filter(|d| self.nf[*d as usize].is_none()).collect();
            if !missing.is_empty() {
                stack.extend(missing);
                continue;
            }
            let g = |e: &Engine, i: u32| e.nf[i as usize].clone().unwrap();
            let r = match node {
                Node::Const(c) => RF::poly(Poly::constant(c)),
                Node::Var(v) => RF::poly(Poly::var(v)),
                Node::Add(a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    self.factors.add(&x, &y)
                }
                Node::Mul(a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    self.rf_mul(&x, &y)
                }
                Node::Div(a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    if y.num.is_zero() {
                        return None;
                    }
                    let i = self.rf_inv(&y);
                    self.rf_mul(&x, &i)
                }
                Node::Fun(f, a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    let x = Arc::new(self.factors.reduce(&x));
                    let y = Arc::new(self.factors.reduce(&y));
                    self.atom(f, x, y, a, b)
                }
                Node::Huge(_) | Node::Poison => unreachable!(),
            };
            self.nf[t as usize] = Some(Arc::new(r));
            stack.pop();
        }
        self.nf[root as usize].clone()
    }
    // ---- views: named polynomials ----
    /// Give the polynomial `t` a name that later queries may use in its place.
    pub fn add_view(&mut self, t: u32, name: &str) {
        let rf = match self.nf(t) {
            Some(r) => r,
            None => return,
        };
        if !rf.den.is_empty() || rf.num.as_const().is_some() {
            return;
        }
        let (coef, poly) = rf.num.monic();
        if self.views.iter().any(|v| v.poly == poly) {
            return;
        }
        let var = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), kind: VarKind::View });
        self.views.push(View { var, poly, coef });
        self.nf2.clear();
        self.update_rows();
        self.nf2.clear();
    }
    /// Give the value of `t` a name: every term with the same normal form is replaced by it.
    pub fn add_name(&mut self, t: u32, name: &str) {
        if matches!(self.nodes[t as usize], Node::Const(_) | Node::Var(_) | Node::Huge(_) | Node::Poison) || self.name_of(t).is_some() {
            return;
        }
        let fp = self.fingerprint(t);
        if !fp.is_finite() {
            return;
        }
        let var = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), kind: VarKind::View });
        self.names.push((t, fp, var));
        self.nf2.clear();
        if self.views.is_empty() {
            // enables the queries
            self.views.push(View { var, poly: Poly::var(var), coef: Rat::one() });
        }
    }
    /// The value of a node at a fixed point.
    fn fingerprint(&mut self, t: u32) -> f64 {
        let mut memo = std::mem::take(&mut self.fp_memo);
        let r = self.eval_f64(t, &|v| 0.3 + ((v as f64 + 1.0) * 0.754877666).fract() * 1.7, &mut memo);
        self.fp_memo = memo;
        r
    }
    fn name_of(&mut self, t: u32) -> Option<(u32, bool)> {
        if self.names.is_empty() {
            return None;
        }
        let f = self.fingerprint(t);
        for i in 0..self.names.len() {
            let (n, g, v) = self.names[i];
            if n == t {
                return Some((v, false));
            }
            if (f - g).abs() <= 1e-9 * (f.abs() + g.abs()) {
                let d = self.sub(t, n);
                if matches!(self.nf(d), Some(r) if r.num.is_zero()) {
                    return Some((v, false));
                }
            }
            if (f + g).abs() <= 1e-9 * (f.abs() + g.abs()) {
                let d = self.add(t, n);
                if matches!(self.nf(d), Some(r) if r.num.is_zero()) {
                    return Some((v, true));
                }
            }
        }
        None
    }
    pub fn names_len(&self) -> usize {
        self.names.len()
    }
    pub fn truncate_names(&mut self, n: usize) {
        self.names.truncate(n);
        self.nf2.clear();
    }
    pub fn clear_views(&mut self) {
        self.names.clear();
        self.views.clear();
        self.view_rows.clear();
        self.nf2.clear();
    }
    /// Rewrite every coefficient (a polynomial in the inputs) that is a linear combination of views.
    fn view_reduce(&self, r: RF) -> RF {
        let is_input = |v: u32| matches!(self.vars[v as usize].kind, VarKind::Input);
        if r.num.0.iter().all(|(m, _)| m.0.iter().all(|x| !is_input(x >> 8))) {
            return r;
        }
        let mut groups: BTreeMap<Vec<u32>, Vec<(Mono, Rat)>> = BTreeMap::new();
        for (m, c) in &r.num.0 {
            let (mut i, mut o) = (Mono::default(), vec![]);
            for x in &m.0 {
                if is_input(x >> 8) {
                    i.0.push(*x);
                } else {
                    o.push(*x);
                }
            }
            groups.entry(o).or_default().push((i, c.clone()));
        }
        let mut changed = false;
        let mut num = Poly::zero();
        for (k, mut g) in groups {
            g.sort_unstable_by(|a, b| b.0.grlex(&a.0));
            let orig = Poly(g);
            let mut q = orig.clone();
            let mut repl = Poly::zero();
            for (row, comb) in &self.view_rows {
                let c = q.0.iter().find(|(m, _)| *m == row.0[0].0).map(|t| t.1.clone());
                if let Some(c) = c {
                    q = q.sub(&row.scale(&c));
                    repl = repl.add(&comb.scale(&c));
                }
            }
            let t = if q.as_const().is_some() && !repl.is_zero() {
                changed = true;
                repl.add(&q)
            } else {
                orig
            };
            let mono = Poly(vec![(Mono(k.into_iter().collect()), Rat::one())]);
            num = num.add(&t.mul(&mono));
        }
        if changed {
            RF { num, den: r.den }
        } else {
            r
        }
    }
    /// Echelon form of the views: every row is a combination of them, led by a monomial of its own.
    fn update_rows(&mut self) {
        let mut rows: Vec<(Poly, Poly)> = vec![];
        for v in &self.views {
            let (mut p, mut c) = (v.poly.clone(), Poly::var(v.var).scale(&v.coef.inv()));
            for (q, d) in &rows {
                let f = p.0.iter().find(|(m, _)| *m == q.0[0].0).map(|t| t.1.clone());
                if let Some(f) = f {
                    p = p.sub(&q.scale(&f));
                    c = c.sub(&d.scale(&f));
                }
            }
            if p.as_const().is_some() {
                continue;
            }
            let (k, m) = p.monic();
            let c = c.scale(&k.inv());
            for (q, d) in rows.iter_mut() {
                let f = q.0.iter().find(|(x, _)| *x == m.0[0].0).map(|t| t.1.clone());
                if let Some(f) = f {
                    *q = q.sub(&m.scale(&f));
                    *d = d.sub(&c.scale(&f));
                }
            }
            rows.push((m, c));
        }
        self.view_rows = rows;
    }
    fn nf_view(&mut self, root: u32) -> Option<Arc<RF>> {
        if self.nf2.len() < self.nodes.len() {
            let n = self.nodes.len();
            self.nf2.resize(n, None);
        }
        if let Some(r) = &self.nf2[root as usize] {
            return Some(r.clone());
        }
        let mut stack = vec![root];
        while let Some(&t) = stack.last() {
            if self.nf2[t as usize].is_some() {
                stack.pop();
                continue;
            }
            let node = self.nodes[t as usize].clone();
            let deps: Vec<u32> = match &node {
                Node::Add(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Fun(_, a, b) => vec![*a, *b],
                Node::Huge(_) | Node::Poison => return None,
                _ => vec![],
            };
            let missing: Vec<u32> = deps.iter().copied().filter(|d| self.nf2[*d as usize].is_none()).collect();
            if !missing.is_empty() {
                stack.extend(missing);
                continue;
            }
            let g = |e: &Engine, i: u32| e.nf2[i as usize].clone().unwrap();
            let r = match node {
                Node::Const(c) => RF::poly(Poly::constant(c)),
                Node::Var(v) => RF::poly(Poly::var(v)),
                Node::Add(a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    let r = self.factors.add(&x, &y);
                    self.view_reduce(r)
                }
                Node::Mul(a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    let r = self.rf_mul(&x, &y);
                    self.view_reduce(r)
                }
                Node::Div(a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    if y.num.is_zero() {
                        return None;
                    }
                    let i = self.rf_inv(&y);
                    self.rf_mul(&x, &i)
                }
                Node::Fun(f, a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    let x = Arc::new(self.factors.reduce(&x));
                    let y = Arc::new(self.factors.reduce(&y));
                    self.atom(f, x, y, a, b)
                }
                Node::Huge(_) | Node::Poison => unreachable!(),
            };
            if self.nf2.len() < self.nodes.len() {
                let n = self.nodes.len();
                self.nf2.resize(n, None);
            }
            let r = match self.name_of(t) {
                Some((v, minus)) => {
                    let x = RF::poly(Poly::var(v));
                    if minus {
                        self.rf_mul(&x, &RF::poly(Poly::constant(Rat::one().neg())))
                    } else {
                        x
                    }
                }
                None => r,
            };
            if self.nf2.len() < self.nodes.len() {
                let n = self.nodes.len();
                self.nf2.resize(n, None);
            }
            self.nf2[t as usize] = Some(Arc::new(r));
            stack.pop();
        }
        self.nf2[root as usize].clone()
    }
    fn view_poly(&mut self, t: u32) -> Option<(Poly, i32)> {
        let rf = self.nf_view(t)?;
        let rf = if rf.den.is_empty() { rf } else { Arc::new(self.factors.reduce(&rf)) };
        self.sign_of_rf(&rf)
    }
    /// The facts of this path in terms of the views, without what the views stand for: unsat answers are valid.
    fn query_views(&mut self, extra: &[(u32, u8)]) -> Sat {
        let t0 = std::time::Instant::now();
        let mut fs = vec![];
        for (t, m) in self.fact_nodes.clone().iter().chain(extra) {
            if let Some((p, s)) = self.view_poly(*t) {
                let m = if s >= 0 { *m } else { flip(*m) };
                if s == 0 && m & ZER == 0 {
                    return Sat::Unsat;
                }
                if s != 0 {
                    // facts stated for the same polynomial or by sign arithmetic
                    if self.known(&p) & m == 0 {
                        return Sat::Unsat;
                    }
                    fs.push((p, m));
                }
            }
        }
        let z = match self.z3_view.take() {
            Some(z) => Some(z),
            None => self.start_z3(true),
        };
        let mut z = match z {
            Some(z) => z,
            None => return Sat::Unknown,
        };
        let ms = if self.forking { self.fork_ms.min(self.z3_ms) } else { self.z3_ms };
        // first with every monomial as an unknown of its own: unsat answers stay valid, and most obligations are linear in named values
        let mut names: BTreeMap<Vec<u32>, usize> = BTreeMap::new();
        let mut s = String::new();
        for (p, m) in fs.iter() {
            let mut q = vec![];
            for (k, c) in &p.0 {
                if k.0.is_empty() {
                    q.push(c.smt());
                } else {
                    let n = names.len();
                    let n = *names.entry(k.0.to_vec()).or_insert(n);
                    q.push(format!("(* {} m{})", c.smt(), n));
                }
            }
            let t = if q.is_empty() { "0.0".to_string() } else { format!("(+ {} 0.0)", q.join(" ")) };
            s.push_str(&format!("(assert {})\n", Self::smt_sign(&t, *m)));
        }
        let decl: String = (0..names.len()).map(|i| format!("(declare-const m{} Real)\n", i)).collect();
        let linear = format!("(reset)\n(set-option :timeout {})\n{}{}(check-sat)\n", ms.min(1000), decl, s);
        let mut r = Self::ask(&mut z, &linear);
        if matches!(r, Some(Sat::Sat) | Some(Sat::Unknown)) {
            z.declared.clear();
            let mut s = format!("(reset)\n(set-option :timeout {})\n", ms);
            for (p, m) in fs.iter() {
                self.declare(&mut z, p, &mut s);
                s.push_str(&format!("(assert {})\n", self.smt_fact(p, *m)));
            }
            s.push_str("(check-sat)\n");
            r = Self::ask(&mut z, &s);
        }
        self.stats.queries += 1;
        self.stats.seconds += t0.elapsed().as_secs_f64();
        match r {
            Some(r) => {
                self.z3_view = Some(z);
                r
            }
            None => Sat::Unknown,
        }
    }
    fn ask(z: &mut Z3, s: &str) -> Option<Sat> {
        let dump = std::env::var("SYM_DUMP").is_ok();
        if dump {
            eprintln!("{}", s);
        }
        z.inp.write_all(s.as_bytes()).ok()?;
        z.inp.flush().ok()?;
        let mut line = String::new();
        loop {
            line.clear();
            if z.out.read_line(&mut line).ok()? == 0 {
                return None;
            }
            if dump {
                eprintln!("; {}", line.trim());
            }
            match line.trim() {
                "sat" => return Some(Sat::Sat),
                "unsat" => return Some(Sat::Unsat),
                "unknown" | "timeout" => return Some(Sat::Unknown),
                x if x.starts_with("(error") => return None,
                _ => {}
            }
        }
    }
    fn atom(&mut self, f: F, x: Arc<RF>, y: Arc<RF>, a: u32, b: u32) -> RF {
        if let Some(c) = x.as_const() {
            // constants that only became visible after normalisation
            let n = self.konst(c);
            let t = self.fun(f, n, b);
            if let Node::Const(r) = &self.nodes[t as usize] {
                return RF::poly(Poly::constant(r.clone()));
            }
        }
        let key = (f, x.clone(), y.clone());
        let v = match self.atom_index.get(&key) {
            Some(v) => *v,
            None => {
                let v = self.vars.len() as u32;
                self.vars.push(VarInfo { name: format!("{:?}_{}", f, v), kind: VarKind::Atom(f, x, y, a, b) });
                self.atom_index.insert(key, v);
                v
            }
        };
        RF::poly(Poly::var(v))
    }
    fn sqrt_arg(&self, v: u32) -> Option<Arc<RF>> {
        match &self.vars[v as usize].kind {
            VarKind::Atom(F::Sqrt, x, _, _, _) => Some(x.clone()),
            _ => None,
        }
    }
    fn fix_sqrt(&mut self, r: RF) -> RF {
        let mut vs = BTreeSet::new();
        r.num.vars(&mut vs);
        for v in vs.into_iter().rev() {
            if let Some(arg) = self.sqrt_arg(v) {
                if r.num.max_exp(v) >= 2 {
                    let cs = r.num.coeffs(v);
                    let mut acc = RF::poly(Poly::zero());
                    let mut p = RF::poly(Poly::one());
                    for k in 0..cs.len() {
                        if k > 0 && k % 2 == 0 {
                            p = self.rf_mul(&p, &arg);
                        }
                        let c = if k % 2 == 1 { cs[k].mul(&Poly::var(v)) } else { cs[k].clone() };
                        let t = self.rf_mul(&RF::poly(c), &p);
                        acc = self.factors.add(&acc, &t);
                    }
                    let d = RF { num: Poly::one(), den: r.den.clone() };
                    let m = self.factors.mul(&acc, &d);
                    return self.fix_sqrt(m);
                }
            }
        }
        r
    }
    pub fn rf_mul(&mut self, a: &RF, b: &RF) -> RF {
        let r = self.factors.mul(a, b);
        self.fix_sqrt(r)
    }
    /// 1/a, rationalising a numerator that is linear in a square root.
    pub fn rf_inv(&mut self, a: &RF) -> RF {
        let mut vs = BTreeSet::new();
        a.num.vars(&mut vs);
        for v in vs.into_iter().rev() {
            if self.sqrt_arg(v).is_some() {
                let cs = a.num.coeffs(v);
                if cs.len() == 2 {
                    // a = (c0 + c1 s)/d ; 1/a = d (c0 - c1 s)/(c0^2 - c1^2 s^2)
                    let conj = RF::poly(cs[0].sub(&cs[1].mul(&Poly::var(v))));
                    let n = self.rf_mul(&RF::poly(a.num.clone()), &conj);
                    if n.num.is_zero() {
                        continue;
                    }
                    let d = RF::poly(self.factors.expand(&a.den));
                    let i = self.rf_inv(&n);
                    let t = self.rf_mul(&d, &conj);
                    return self.rf_mul(&t, &i);
                }
            }
        }
        self.factors.inv(a)
    }

    // ---- differentiation and substitution on the term graph ----
    pub fn diff(&mut self, t: u32, v: u32, memo: &mut FxHashMap<u32, u32>) -> u32 {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let z = self.konst(Rat::zero());
        let r = match self.nodes[t as usize].clone() {
            Node::Const(_) => z,
            Node::Var(w) => {
                if w == v {
                    self.konst(Rat::one())
                } else {
                    z
                }
            }
            Node::Add(a, b) => {
                let x = self.diff(a, v, memo);
                let y = self.diff(b, v, memo);
                self.add(x, y)
            }
            Node::Mul(a, b) => {
                let x = self.diff(a, v, memo);
                let y = self.diff(b, v, memo);
                let p = self.mul(x, b);
                let q = self.mul(a, y);
                self.add(p, q)
            }
            Node::Div(a, b) => {
                let x = self.diff(a, v, memo);
                let y = self.diff(b, v, memo);
                // (x - t*y)/b
                let p = self.mul(t, y);
                let q = self.sub(x, p);
                if self.cst(q).map_or(false, |c| c.is_zero()) {
                    z
                } else {
                    self.div(q, b)
                }
            }
            Node::Fun(f, a, b) => {
                let x = self.diff(a, v, memo);
                let y = self.diff(b, v, memo);
                if self.cst(x).map_or(false, |c| c.is_zero()) && self.cst(y).map_or(false, |c| c.is_zero()) {
                    z
                } else {
                    let one = self.konst(Rat::one());
                    match f {
                        F::Sqrt => {
                            let two = self.konst(Rat::int(2));
                            let d = self.mul(two, t);
                            self.div(x, d)
                        }
                        F::Ln => self.div(x, a),
                        F::Exp => self.mul(x, t),
                        F::Sin => {
                            let c = self.fun(F::Cos, a, b);
                            self.mul(c, x)
                        }
                        F::Cos => {
                            let s = self.fun(F::Sin, a, b);
                            let p = self.mul(s, x);
                            self.neg(p)
                        }
                        F::Atan => {
                            let q = self.mul(a, a);
                            let d = self.add(one, q);
                            self.div(x, d)
                        }
                        _ => self.poison(),
                    }
                }
            }
            Node::Huge(_) | Node::Poison => self.poison(),
        };
        memo.insert(t, r);
        r
    }
    pub fn subst(&mut self, t: u32, v: u32, by: u32, memo: &mut FxHashMap<u32, u32>) -> u32 {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let r = match self.nodes[t as usize].clone() {
            Node::Var(w) if w == v => by,
            Node::Add(a, b) => {
                let x = self.subst(a, v, by, memo);
                let y = self.subst(b, v, by, memo);
                self.add(x, y)
            }
            Node::Mul(a, b) => {
                let x = self.subst(a, v, by, memo);
                let y = self.subst(b, v, by, memo);
                self.mul(x, y)
            }
            Node::Div(a, b) => {
                let x = self.subst(a, v, by, memo);
                let y = self.subst(b, v, by, memo);
                self.div(x, y)
            }
            Node::Fun(f, a, b) => {
                let x = self.subst(a, v, by, memo);
                let y = self.subst(b, v, by, memo);
                self.fun(f, x, y)
            }
            _ => t,
        };
        memo.insert(t, r);
        r
    }
    fn mentions(&self, t: u32, v: u32, memo: &mut FxHashMap<u32, bool>) -> bool {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let r = match self.nodes[t as usize] {
            Node::Var(w) => w == v,
            Node::Add(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Fun(_, a, b) => self.mentions(a, v, memo) || self.mentions(b, v, memo),
            _ => false,
        };
        memo.insert(t, r);
        r
    }

    // ---- numeric evaluation ----
    pub fn eval_f64(&self, t: u32, env: &dyn Fn(u32) -> f64, memo: &mut FxHashMap<u32, f64>) -> f64 {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let r = match &self.nodes[t as usize] {
            Node::Const(c) => c.to_f64(),
            Node::Var(v) => env(*v),
            Node::Add(a, b) => self.eval_f64(*a, env, memo) + self.eval_f64(*b, env, memo),
            Node::Mul(a, b) => self.eval_f64(*a, env, memo) * self.eval_f64(*b, env, memo),
            Node::Div(a, b) => self.eval_f64(*a, env, memo) / self.eval_f64(*b, env, memo),
            Node::Fun(f, a, b) => {
                let x = self.eval_f64(*a, env, memo);
                match f {
                    F::Sqrt => x.sqrt(),
                    F::Ln => x.ln(),
                    F::Exp => x.exp(),
                    F::Sin => x.sin(),
                    F::Cos => x.cos(),
                    F::Acos => x.acos(),
                    F::Asin => x.asin(),
                    F::Atan => x.atan(),
                    F::Cbrt => x.cbrt(),
                    F::Floor => x.floor(),
                    F::Atan2 => x.atan2(self.eval_f64(*b, env, memo)),
                    F::Pow => x.powf(self.eval_f64(*b, env, memo)),
                    F::Max => x.max(self.eval_f64(*b, env, memo)),
                    F::Min => x.min(self.eval_f64(*b, env, memo)),
                }
            }
            Node::Huge(p) => {
                if *p {
                    f64::INFINITY
                } else {
                    f64::NEG_INFINITY
                }
            }
            Node::Poison => f64::NAN,
        };
        memo.insert(t, r);
        r
    }

    // ---- signs ----
    /// A polynomial with the sign of `t` wherever `t` is defined, with the constant content removed.
    pub fn sign_poly(&mut self, t: u32) -> Option<(Poly, i32)> {
        let rf = self.nf(t)?;
        let rf = if rf.den.is_empty() { rf } else { Arc::new(self.factors.reduce(&rf)) };
        self.sign_of_rf(&rf)
    }
    fn sign_of_rf(&mut self, rf: &RF) -> Option<(Poly, i32)> {
        let mut s = 1;
        let mut p = rf.num.clone();
        for (k, e) in rf.den.clone() {
            if e % 2 == 1 {
                let f = self.factors.polys[k as usize].clone();
                match self.known(&f) {
                    POS => {}
                    NEG => s = -s,
                    _ => p = p.mul(&f),
                }
            }
        }
        if p.is_zero() {
            return Some((p, 0));
        }
        let (c, m) = p.monic();
        Some((m, s * c.sign()))
    }
    fn mono_sign(&self, m: &Mono) -> u8 {
        let mut r = POS;
        for x in &m.0 {
            let (v, e) = (x >> 8, x & 255);
            let k = self.var_sign(v);
            let k = if e % 2 == 0 {
                (if k & (NEG | POS) != 0 { POS } else { 0 }) | (k & ZER)
            } else {
                k
            };
            r = mul_sign(r, k);
        }
        r
    }
    fn var_sign(&self, v: u32) -> u8 {
        let base = match &self.vars[v as usize].kind {
            // a square root of something positive is positive
            VarKind::Atom(F::Sqrt, x, ..) if x.den.is_empty() && x.num.as_const().is_none() && {
                let (c, m) = x.num.monic();
                self.fact_index.get(&m).copied().unwrap_or(ALL) == if c.sign() > 0 { POS } else { NEG }
            } => POS,
            VarKind::Atom(F::Sqrt, ..) => POS | ZER,
            VarKind::Atom(F::Exp, ..) => POS,
            _ => ALL,
        };
        base & self.fact_index.get(&Poly::var(v)).copied().unwrap_or(ALL)
    }
    /// Signs a monic polynomial may take, by lookup and by sign arithmetic.
    pub fn known(&self, p: &Poly) -> u8 {
        if let Some(c) = p.as_const() {
            return match c.sign() {
                1 => POS,
                -1 => NEG,
                _ => ZER,
            };
        }
        let mut k = self.fact_index.get(p).copied().unwrap_or(ALL);
        if p.0.len() > 1 {
            // a square root that occurs in every term: the sign is that of the root times that of the rest
            let common = |m: &Mono| m.0.iter().copied().find(|x| x & 255 == 1 && matches!(self.vars[(x >> 8) as usize].kind, VarKind::Atom(F::Sqrt, ..)) && p.0.iter().all(|(m, _)| m.0.contains(x)));
            if let Some(x) = p.0.iter().next().and_then(|(m, _)| common(m)) {
                let rest = Poly(p.0.iter().map(|(m, c)| (Mono(m.0.iter().copied().filter(|y| *y != x).collect()), c.clone())).collect());
                let (c, m) = rest.monic();
                let r = self.known(&m);
                k &= mul_sign(self.var_sign(x >> 8), if c.sign() < 0 { flip(r) } else { r });
            }
        }
        if p.0.len() <= 64 {
            let mut s: u8 = 0;
            let (mut lo, mut hi) = (false, false); // some term may be < 0 / > 0
            let (mut slo, mut shi) = (false, false); // some term is surely < 0 / > 0
            for (m, c) in &p.0 {
                let mut t = self.mono_sign(m);
                if c.sign() < 0 {
                    t = flip(t);
                }
                lo |= t & NEG != 0;
                hi |= t & POS != 0;
                slo |= t == NEG;
                shi |= t == POS;
            }
            if lo {
                s |= NEG
            }
            if hi {
                s |= POS
            }
            if !(slo && !hi) && !(shi && !lo) {
                s |= ZER
            }
            k &= s;
        }
        k
    }
    pub fn assume_poly(&mut self, p: &Poly, mask: u8) {
        if p.as_const().is_some() {
            if self.known(p) & mask == 0 {
                self.fact_index.insert(p.clone(), 0);
                self.facts.push((p.clone(), mask));
            }
            return;
        }
        let e = self.fact_index.entry(p.clone()).or_insert(ALL);
        if *e & mask != *e {
            *e &= mask;
            let m = *e;
            self.facts.push((p.clone(), m));
        }
    }
    /// sign(t) is in `mask`, where `p` has the sign of `t` up to `s`.
    pub fn assume_fact(&mut self, t: u32, p: &Poly, s: i32, mask: u8) {
        self.assume_poly(p, if s > 0 { mask } else { flip(mask) });
        if !self.views.is_empty() {
            if let Some((q, s)) = self.view_poly(t) {
                if s != 0 {
                    self.view_fact(&q, if s > 0 { mask } else { flip(mask) });
                }
            }
        }
        self.fact_nodes.push((t, mask));
    }
    fn view_fact(&mut self, p: &Poly, mask: u8) {
        if p.as_const().is_none() {
            *self.fact_index.entry(p.clone()).or_insert(ALL) &= mask;
        }
    }
    /// A proved fact.
    pub fn lemma(&mut self, t: u32, mask: u8) {
        if let Some((p, s)) = self.sign_poly(t) {
            if s != 0 {
                self.view_fact(&p, if s > 0 { mask } else { flip(mask) });
            }
        }
        if let Some((q, s)) = self.view_poly(t) {
            if s != 0 {
                self.view_fact(&q, if s > 0 { mask } else { flip(mask) });
            }
        }
        self.fact_nodes.push((t, mask));
    }
    /// Does sign(t) in `set` follow from the facts in terms of the named values alone?
    pub fn view_proof(&mut self, t: u32, set: u8) -> Option<u8> {
        if self.views.is_empty() || matches!(self.nodes[t as usize], Node::Const(_) | Node::Huge(_) | Node::Poison) {
            return None;
        }
        let (q, s) = self.view_poly(t)?;
        if s == 0 {
            return if set & ZER != 0 { Some(1) } else { None };
        }
        let k = self.known(&q);
        let k = if s > 0 { k } else { flip(k) };
        if k != 0 && k & !set == 0 {
            return Some(1);
        }
        if self.query_views(&[(t, ALL & !set)]) == Sat::Unsat {
            return Some(2);
        }
        None
    }
    /// Possible signs of `t` given the path condition; 0 when `t` is not a real number.
    pub fn sign_mask(&mut self, t: u32) -> (u8, Option<(Poly, i32)>) {
        match &self.nodes[t as usize] {
            Node::Huge(true) => return (POS, None),
            Node::Huge(false) => return (NEG, None),
            Node::Poison => return (0, None),
            _ => {}
        }
        match self.sign_poly(t) {
            None => (0, None),
            Some((_, 0)) => (ZER, None),
            Some((p, s)) => {
                let k = self.known(&p);
                let mut k = if s > 0 { k } else { flip(k) };
                if !self.views.is_empty() {
                    match self.view_poly(t) {
                        Some((_, 0)) => k &= ZER,
                        Some((q, s)) => {
                            let k2 = self.known(&q);
                            k &= if s > 0 { k2 } else { flip(k2) };
                        }
                        None => {}
                    }
                }
                if k == 0 && !self.views.is_empty() {
                    // contradictory facts: left to the solver
                    k = ALL;
                }
                (k, Some((p, s)))
            }
        }
    }
    /// Decide whether sign(t) is in `set`, forking the path when both answers are possible.
    pub fn decide(&mut self, t: u32, set: u8) -> Result<bool, PathAbort> {
        let mut t = t;
        if let Some(eps) = self.infinitesimal {
            let mut memo = Default::default();
            if self.mentions(t, eps, &mut memo) {
                let z = self.konst(Rat::zero());
                let s = self.subst(t, eps, z, &mut Default::default());
                t = s;
                let (m, _) = self.sign_mask(t);
                if m & ZER != 0 && m != ZER {
                    // fork below; the zero branch is a kink
                    let r = self.decide_inner(t, ZER)?;
                    if r {
                        return Err(PathAbort("comparison at a kink of a differentiated function".into()));
                    }
                } else if m == ZER {
                    return Err(PathAbort("comparison at a kink of a differentiated function".into()));
                }
            }
        }
        self.decide_inner(t, set)
    }
    fn decide_inner(&mut self, t: u32, set: u8) -> Result<bool, PathAbort> {
        let (m, ps) = self.sign_mask(t);
        if m != 0 && (m & !set == 0 || m & set == 0) && !self.views.is_empty() && ps.is_some() {
            self.fact_nodes.push((t, m)); // follows from the facts, but perhaps not in terms of names given later
        }
        if m & !set == 0 {
            return Ok(m != 0); // poison compares false
        }
        if m & set == 0 {
            return Ok(false);
        }
        let (p, s) = ps.unwrap();
        let (yes, no) = (m & set, m & !set);
        let norm = |x: u8| if s > 0 { x } else { flip(x) };
        if !self.forks_allowed {
            return Err(PathAbort(format!("comparison of symbolic values outside a contract: {}", self.show_poly(&p))));
        }
        let take = if self.cursor < self.decisions.len() {
            self.decisions[self.cursor].taken
        } else {
            let mut opts = vec![yes, no];
            if self.prune {
                self.forking = true;
                opts.retain(|o| {
                    let m = norm(*o);
                    self.query_model(&[(p.clone(), m)], false, &[(t, *o)]).0 != Sat::Unsat
                });
                self.forking = false;
            }
            if opts.is_empty() {
                return Err(PathAbort("infeasible".into()));
            }
            let rest = if opts.len() == 2 { opts[1] } else { 0 };
            self.decisions.push(Decision { taken: opts[0], rest });
            opts[0]
        };
        self.cursor += 1;
        self.assume_fact(t, &p, s, take);
        Ok(take & set != 0)
    }

    // ---- SMT ----
    fn smt_name(&self, v: u32) -> String {
        format!("v{}", v)
    }
    fn smt_poly(&self, p: &Poly) -> String {
        let mut ts = vec![];
        for (m, c) in &p.0 {
            let mut fs = vec![];
            if !c.is_one() || m.0.is_empty() {
                fs.push(c.smt());
            }
            for x in &m.0 {
                for _ in 0..(x & 255) {
                    fs.push(self.smt_name(x >> 8));
                }
            }
            ts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        match ts.len() {
            0 => "0.0".into(),
            1 => ts.pop().unwrap(),
            _ => format!("(+ {})", ts.join(" ")),
        }
    }
    fn smt_fact(&self, p: &Poly, m: u8) -> String {
        Self::smt_sign(&self.smt_poly(p), m)
    }
    fn smt_sign(s: &str, m: u8) -> String {
        match m {
            NEG => format!("(< {} 0.0)", s),
            ZER => format!("(= {} 0.0)", s),
            POS => format!("(> {} 0.0)", s),
            3 => format!("(<= {} 0.0)", s),
            6 => format!("(>= {} 0.0)", s),
            5 => format!("(not (= {} 0.0))", s),
            7 => "true".into(),
            _ => "false".into(),
        }
    }
    fn declare(&mut self, z: &mut Z3, p: &Poly, script: &mut String) {
        let mut vs = BTreeSet::new();
        p.vars(&mut vs);
        let mut todo: Vec<u32> = vs.into_iter().collect();
        while let Some(v) = todo.pop() {
            if !z.declared.insert(v) {
                continue;
            }
            script.push_str(&format!("(declare-const {} Real)\n", self.smt_name(v)));
            if let VarKind::Atom(f, x, _, _, _) = &self.vars[v as usize].kind {
                let (f, x) = (*f, x.clone());
                match f {
                    F::Sqrt => {
                        let d = self.factors.expand(&x.den);
                        let mut vs = BTreeSet::new();
                        x.num.vars(&mut vs);
                        d.vars(&mut vs);
                        let mut pre = String::new();
                        for w in vs {
                            if !z.declared.contains(&w) {
                                // declare recursively first
                                self.declare(z, &Poly::var(w), &mut pre);
                            }
                        }
                        script.push_str(&pre);
                        let n = self.smt_name(v);
                        script.push_str(&format!("(assert (>= {n} 0.0))\n"));
                        z.has_roots = true;
                        if z.relations {
                            script.push_str(&format!("(assert (= (* {n} {n} {}) {}))\n", self.smt_poly(&d), self.smt_poly(&x.num)));
                        }
                    }
                    F::Max | F::Min => {
                        let (x, y) = match &self.vars[v as usize].kind {
                            VarKind::Atom(_, x, y, _, _) => (x.clone(), y.clone()),
                            _ => unreachable!(),
                        };
                        let n = self.smt_name(v);
                        let mut cl = vec![];
                        for r in [&x, &y] {
                            // v - r, cleared of denominators only when there are none
                            if !r.den.is_empty() {
                                continue;
                            }
                            let mut vs = BTreeSet::new();
                            r.num.vars(&mut vs);
                            let mut pre = String::new();
                            for w in vs {
                                self.declare(z, &Poly::var(w), &mut pre);
                            }
                            script.push_str(&pre);
                            let t = self.smt_poly(&r.num);
                            script.push_str(&format!("(assert ({} {n} {t}))\n", if f == F::Max { ">=" } else { "<=" }));
                            cl.push(format!("(= {n} {t})"));
                        }
                        if cl.len() == 2 {
                            script.push_str(&format!("(assert (or {}))\n", cl.join(" ")));
                        }
                    }
                    F::Exp => script.push_str(&format!("(assert (> {} 0.0))\n", self.smt_name(v))),
                    _ => {}
                }
            }
        }
    }
    pub fn reset_path(&mut self) {
        self.facts.clear();
        if !self.names.is_empty() {
            self.names.clear();
            self.nf2.clear();
        }
        self.fact_nodes.clear();
        self.fact_index.clear();
        self.cursor = 0;
        self.undefined.clear();
        self.infinitesimal = None;
        for slot in [&mut self.z3, &mut self.z3_abs] {
            let z = match slot {
                Some(z) => z,
                None => continue,
            };
            let ok = z.inp.write_all(b"(reset)\n").is_ok();
            z.declared.clear();
            z.asserted = 0;
            z.has_roots = false;
            if !ok {
                *slot = None;
            } else {
                let ms = self.z3_ms;
                let _ = z.inp.write_all(format!("(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n", ms).as_bytes());
            }
        }
    }
    fn start_z3(&mut self, relations: bool) -> Option<Z3> {
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let mut inp = child.stdin.take()?;
        let out = BufReader::new(child.stdout.take()?);
        let ms = self.z3_ms;
        inp.write_all(format!("(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n", ms).as_bytes()).ok()?;
        Some(Z3 { _child: child, inp, out, declared: Default::default(), asserted: 0, relations, has_roots: false })
    }
    /// Is the path condition together with all of `extra` satisfiable?
    pub fn query(&mut self, extra: &[(Poly, u8)]) -> Sat {
        self.query_model(extra, false, &[]).0
    }
    /// `nodes` states the extra facts in terms of the nodes they came from.
    pub fn query_model(&mut self, extra: &[(Poly, u8)], want_model: bool, nodes: &[(u32, u8)]) -> (Sat, BTreeMap<String, f64>) {
        if self.fact_index.values().any(|m| *m == 0) {
            return (Sat::Unsat, Default::default());
        }
        if !self.views.is_empty() {
            let r = self.query_views(nodes);
            if r == Sat::Unsat || self.forking {
                return (r, Default::default());
            }
        }
        let (r, m, roots) = self.query_in(extra, false, false);
        if r == Sat::Unsat || (!roots && !want_model) {
            return (r, m);
        }
        let (r, m, _) = self.query_in(extra, want_model, true);
        (r, m)
    }
    /// `relations` = false leaves out what defines the square-root atoms: unsat answers stay valid and are found quickly.
    fn query_in(&mut self, extra: &[(Poly, u8)], want_model: bool, relations: bool) -> (Sat, BTreeMap<String, f64>, bool) {
        let t0 = std::time::Instant::now();
        let z = if relations { self.z3.take() } else { self.z3_abs.take() };
        let mut z = match z {
            Some(z) => z,
            None => match self.start_z3(relations) {
                Some(z) => z,
                None => return (Sat::Unknown, Default::default(), true),
            },
        };
        let mut s = String::new();
        let facts: Vec<(Poly, u8)> = self.facts[z.asserted..].to_vec();
        z.asserted = self.facts.len();
        for (p, m) in facts.iter() {
            self.declare(&mut z, p, &mut s);
            s.push_str(&format!("(assert {})\n", self.smt_fact(p, *m)));
        }
        for (p, _) in extra {
            self.declare(&mut z, p, &mut s);
        }
        s.push_str("(push)\n");
        for (p, m) in extra {
            s.push_str(&format!("(assert {})\n", self.smt_fact(p, *m)));
        }
        let ms = if self.forking { self.fork_ms.min(self.z3_ms) } else { self.z3_ms };
        s.push_str(&format!("(set-option :timeout {})\n(check-sat)\n", ms));
        let inputs: Vec<u32> = z.declared.iter().copied().filter(|v| matches!(self.vars[*v as usize].kind, VarKind::Input)).collect();
        let r = (|| -> Option<(Sat, BTreeMap<String, f64>)> {
            z.inp.write_all(s.as_bytes()).ok()?;
            z.inp.flush().ok()?;
            let mut line = String::new();
            let ans = loop {
                line.clear();
                if z.out.read_line(&mut line).ok()? == 0 {
                    return None;
                }
                match line.trim() {
                    "sat" => break Sat::Sat,
                    "unsat" => break Sat::Unsat,
                    "unknown" | "timeout" => break Sat::Unknown,
                    x if x.starts_with("(error") => {
                        eprintln!("z3: {}", x);
                        // the state of the solver is lost: start another one
                        return None;
                    }
                    _ => {}
                }
            };
            let mut model = BTreeMap::new();
            if want_model && ans == Sat::Sat {
                for v in inputs {
                    z.inp.write_all(format!("(get-value (v{}))\n", v).as_bytes()).ok()?;
                    z.inp.flush().ok()?;
                    let mut txt = String::new();
                    loop {
                        line.clear();
                        if z.out.read_line(&mut line).ok()? == 0 {
                            return None;
                        }
                        txt.push_str(&line);
                        let open = txt.matches('(').count();
                        if open > 0 && open == txt.matches(')').count() {
                            break;
                        }
                    }
                    model.insert(self.vars[v as usize].name.clone(), parse_value(&txt));
                }
            }
            z.inp.write_all(b"(pop)\n").ok()?;
            Some((ans, model))
        })();
        self.stats.queries += 1;
        self.stats.seconds += t0.elapsed().as_secs_f64();
        match r {
            Some(r) => {
                if r.0 == Sat::Unknown {
                    self.stats.unknown += 1;
                }
                let roots = z.has_roots;
                if relations {
                    self.z3 = Some(z);
                } else {
                    self.z3_abs = Some(z);
                }
                (r.0, r.1, roots)
            }
            None => {
                self.stats.unknown += 1;
                (Sat::Unknown, Default::default(), true)
            }
        }
    }
    pub fn show_poly(&self, p: &Poly) -> String {
        let mut s = String::new();
        for (i, (m, c)) in p.0.iter().enumerate() {
            if i >= 12 {
                s.push_str(&format!(" + ... ({} terms)", p.0.len()));
                break;
            }
            if i > 0 {
                s.push_str(" + ");
            }
            s.push_str(&c.to_string());
            for x in &m.0 {
                s.push_str(&format!("*{}", self.vars[(x >> 8) as usize].name));
                if x & 255 > 1 {
                    s.push_str(&format!("^{}", x & 255));
                }
            }
        }
        if s.is_empty() {
            s.push('0');
        }
        s
    }
}

fn mul_sign(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZER || y == ZER {
                    ZER
                } else if x == y {
                    POS
                } else {
                    NEG
                };
            }
        }
    }
    r
}

fn parse_value(t: &str) -> f64 {
    // ((v3 (- (/ 1.0 3.0))))
    let toks: Vec<String> = t.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    fn go(t: &[String], i: &mut usize) -> f64 {
        if t[*i] == "(" {
            *i += 1;
            let op = t[*i].clone();
            *i += 1;
            let mut args = vec![];
            while t[*i] != ")" {
                args.push(go(t, i));
            }
            *i += 1;
            match op.as_str() {
                "-" if args.len() == 1 => -args[0],
                "-" => args[0] - args[1],
                "/" => args[0] / args[1],
                _ => f64::NAN,
            }
        } else {
            let s = t[*i].trim_end_matches('?').to_string();
            *i += 1;
            s.parse().unwrap_or(f64::NAN)
        }
    }
    let mut i = 3; // ( ( name
    if toks.len() > 4 {
        go(&toks, &mut i)
    } else {
        f64::NAN
    }
}
