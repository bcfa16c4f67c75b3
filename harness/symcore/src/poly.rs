//! Sparse multivariate polynomials over the rationals, and rational functions with factored denominators.
use crate::rat::Rat;
use rustc_hash::FxHashMap;
use smallvec::SmallVec;
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// Sorted list of `var << 8 | exponent`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Mono(pub SmallVec<[u32; 8]>);

impl Mono {
    pub fn var(v: u32) -> Mono {
        let mut m = SmallVec::new();
        m.push(v << 8 | 1);
        Mono(m)
    }
    pub fn deg(&self) -> u32 {
        self.0.iter().map(|x| x & 255).sum()
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        let (a, b) = (&self.0, &o.0);
        let mut r = SmallVec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            let (x, y) = (a[i] >> 8, b[j] >> 8);
            match x.cmp(&y) {
                Ordering::Less => {
                    r.push(a[i]);
                    i += 1
                }
                Ordering::Greater => {
                    r.push(b[j]);
                    j += 1
                }
                Ordering::Equal => {
                    let e = (a[i] & 255) + (b[j] & 255);
                    assert!(e < 256, "exponent overflow");
                    r.push(x << 8 | e);
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Mono(r)
    }
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        let mut r: SmallVec<[u32; 8]> = SmallVec::new();
        let mut j = 0;
        for &x in &self.0 {
            if j < o.0.len() && o.0[j] >> 8 == x >> 8 {
                let (e, f) = (x & 255, o.0[j] & 255);
                if e < f {
                    return None;
                }
                if e > f {
                    r.push((x >> 8) << 8 | (e - f));
                }
                j += 1;
            } else {
                r.push(x);
            }
        }
        if j == o.0.len() {
            Some(Mono(r))
        } else {
            None
        }
    }
    pub fn exp(&self, v: u32) -> u32 {
        self.0.iter().find(|x| *x >> 8 == v).map_or(0, |x| x & 255)
    }
    /// graded lexicographic order, with smaller variable indices greater
    pub fn grlex(&self, o: &Mono) -> Ordering {
        self.deg().cmp(&o.deg()).then_with(|| {
            let (a, b) = (&self.0, &o.0);
            for k in 0..a.len().min(b.len()) {
                let (x, y) = (a[k] >> 8, b[k] >> 8);
                if x != y {
                    return y.cmp(&x);
                }
                let (e, f) = (a[k] & 255, b[k] & 255);
                if e != f {
                    return e.cmp(&f);
                }
            }
            a.len().cmp(&b.len())
        })
    }
}

/// Terms sorted by decreasing grlex order, no zero coefficients.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Poly(pub Vec<(Mono, Rat)>);

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn constant(c: Rat) -> Poly {
        if c.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(Mono::default(), c)])
        }
    }
    pub fn one() -> Poly {
        Poly::constant(Rat::one())
    }
    pub fn var(v: u32) -> Poly {
        Poly(vec![(Mono::var(v), Rat::one())])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::zero()),
            1 if self.0[0].0 .0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.grlex(&b[j].0) {
                Ordering::Greater => {
                    r.push(a[i].clone());
                    i += 1
                }
                Ordering::Less => {
                    r.push(b[j].clone());
                    j += 1
                }
                Ordering::Equal => {
                    let c = a[i].1.add(&b[j].1);
                    if !c.is_zero() {
                        r.push((a[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Poly(r)
    }
    pub fn scale(&self, c: &Rat) -> Poly {
        if c.is_zero() {
            return Poly::zero();
        }
        if c.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, a)| (m.clone(), a.mul(c))).collect())
    }
    pub fn neg(&self) -> Poly {
        self.scale(&Rat::int(-1))
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        let mut acc: FxHashMap<Mono, Rat> = FxHashMap::default();
        for (m, a) in &self.0 {
            for (n, b) in &o.0 {
                let c = a.mul(b);
                match acc.entry(m.mul(n)) {
                    std::collections::hash_map::Entry::Occupied(mut e) => {
                        let s = e.get().add(&c);
                        *e.get_mut() = s;
                    }
                    std::collections::hash_map::Entry::Vacant(e) => {
                        e.insert(c);
                    }
                }
            }
        }
        Poly::from_map(acc)
    }
    pub fn from_map(acc: FxHashMap<Mono, Rat>) -> Poly {
        let mut v: Vec<_> = acc.into_iter().filter(|x| !x.1.is_zero()).collect();
        v.sort_unstable_by(|a, b| b.0.grlex(&a.0));
        Poly(v)
    }
    pub fn pow(&self, e: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    /// Exact division; `None` when `o` does not divide `self`.
    pub fn div_exact(&self, o: &Poly, limit: usize) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if o.is_zero() || o.0[0].0.deg() > self.0[0].0.deg() {
            return None;
        }
        if let Some(c) = o.as_const() {
            return Some(self.scale(&c.inv()));
        }
        let (lm, lc) = (&o.0[0].0, o.0[0].1.inv());
        // quick test on the last terms too
        self.0[0].0.div(lm)?;
        self.0.last().unwrap().0.div(&o.0.last().unwrap().0)?;
        let mut rem = self.clone();
        let mut q = vec![];
        while !rem.is_zero() {
            let m = rem.0[0].0.div(lm)?;
            let c = rem.0[0].1.mul(&lc);
            let t = Poly(vec![(m.clone(), c.neg())]);
            rem = rem.add(&o.mul_term(&t.0[0]));
            q.push((m, c));
            if q.len() > limit || rem.0.len() > 20 * limit {
                return None;
            }
        }
        Some(Poly(q))
    }
    fn mul_term(&self, t: &(Mono, Rat)) -> Poly {
        Poly(self.0.iter().map(|(m, a)| (m.mul(&t.0), a.mul(&t.1))).collect())
    }
    /// Leading coefficient one.
    pub fn monic(&self) -> (Rat, Poly) {
        let c = self.0[0].1.clone();
        (c.clone(), self.scale(&c.inv()))
    }
    pub fn degree(&self) -> u32 {
        self.0.first().map_or(0, |x| x.0.deg())
    }
    pub fn max_exp(&self, v: u32) -> u32 {
        self.0.iter().map(|x| x.0.exp(v)).max().unwrap_or(0)
    }
    /// self = sum_k c_k v^k
    pub fn coeffs(&self, v: u32) -> Vec<Poly> {
        let n = self.max_exp(v) as usize + 1;
        let mut r: Vec<Vec<(Mono, Rat)>> = vec![vec![]; n];
        for (m, c) in &self.0 {
            let e = m.exp(v) as usize;
            let m2 = if e == 0 {
                m.clone()
            } else {
                Mono(m.0.iter().copied().filter(|x| x >> 8 != v).collect())
            };
            r[e].push((m2, c.clone()));
        }
        r.into_iter()
            .map(|mut t| {
                t.sort_unstable_by(|a, b| b.0.grlex(&a.0));
                Poly(t)
            })
            .collect()
    }
    pub fn vars(&self, out: &mut std::collections::BTreeSet<u32>) {
        for (m, _) in &self.0 {
            for x in &m.0 {
                out.insert(x >> 8);
            }
        }
    }
}

/// num / prod(factors^e); factors are interned monic non-constant polynomials.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RF {
    pub num: Poly,
    pub den: BTreeMap<u32, u32>,
}

#[derive(Default)]
pub struct Factors {
    pub polys: Vec<Poly>,
    pub index: FxHashMap<Poly, u32>,
    pub cache: FxHashMap<Poly, (Rat, BTreeMap<u32, u32>)>,
}

impl Factors {
    fn intern(&mut self, p: Poly) -> u32 {
        if let Some(&i) = self.index.get(&p) {
            return i;
        }
        let i = self.polys.len() as u32;
        self.index.insert(p.clone(), i);
        self.polys.push(p);
        i
    }
    /// p = c * prod(factor^e)
    pub fn factor(&mut self, p: &Poly) -> (Rat, BTreeMap<u32, u32>) {
        if let Some(r) = self.cache.get(p) {
            return r.clone();
        }
        let (c, mut m) = p.monic();
        let mut out = BTreeMap::new();
        // monomial content
        let mut content: BTreeMap<u32, u32> = m.0[0].0 .0.iter().map(|x| (x >> 8, x & 255)).collect();
        for (mo, _) in &m.0 {
            content.retain(|v, e| {
                *e = (*e).min(mo.exp(*v));
                *e > 0
            });
        }
        for (v, e) in content {
            let id = self.intern(Poly::var(v));
            *out.entry(id).or_insert(0) += e;
            let d = Poly(vec![(Mono([v << 8 | e].into_iter().collect()), Rat::one())]);
            m = m.div_exact(&d, usize::MAX / 32).unwrap();
        }
        for id in (0..self.polys.len()).rev() {
            if m.as_const().is_some() {
                break;
            }
            let f = self.polys[id].clone();
            if f.0.len() < 2 {
                continue;
            }
            while let Some(q) = m.div_exact(&f, 4000) {
                m = q;
                *out.entry(id as u32).or_insert(0) += 1;
                if m.as_const().is_some() {
                    break;
                }
            }
        }
        if m.as_const().is_none() {
            let id = self.intern(m);
            *out.entry(id).or_insert(0) += 1;
        }
        self.cache.insert(p.clone(), (c.clone(), out.clone()));
        (c, out)
    }
    pub fn expand(&self, d: &BTreeMap<u32, u32>) -> Poly {
        let mut p = Poly::one();
        for (k, e) in d {
            p = p.mul(&self.polys[*k as usize].pow(*e));
        }
        p
    }
    pub fn add(&self, a: &RF, b: &RF) -> RF {
        if a.num.is_zero() {
            return b.clone();
        }
        if b.num.is_zero() {
            return a.clone();
        }
        if a.den == b.den {
            return RF { num: a.num.add(&b.num), den: a.den.clone() }.trim();
        }
        let mut den = a.den.clone();
        for (k, e) in &b.den {
            let x = den.entry(*k).or_insert(0);
            *x = (*x).max(*e);
        }
        let lift = |r: &RF| {
            let mut n = r.num.clone();
            for (k, e) in &den {
                let h = r.den.get(k).copied().unwrap_or(0);
                for _ in h..*e {
                    n = n.mul(&self.polys[*k as usize]);
                }
            }
            n
        };
        RF { num: lift(a).add(&lift(b)), den }.trim()
    }
    pub fn mul(&self, a: &RF, b: &RF) -> RF {
        let mut den = a.den.clone();
        for (k, e) in &b.den {
            *den.entry(*k).or_insert(0) += e;
        }
        // cheap cancellation across the two operands
        let mut an = a.num.clone();
        let mut bn = b.num.clone();
        for (n, other) in [(&mut an, &b.den), (&mut bn, &a.den)] {
            for (k, e) in other {
                let f = &self.polys[*k as usize];
                let mut left = *e;
                while left > 0 && den.get(k).copied().unwrap_or(0) > 0 {
                    match n.div_exact(f, 2000) {
                        Some(q) => {
                            *n = q;
                            left -= 1;
                            *den.get_mut(k).unwrap() -= 1;
                        }
                        None => break,
                    }
                }
            }
        }
        den.retain(|_, e| *e > 0);
        RF { num: an.mul(&bn), den }.trim()
    }
    /// Cancel denominator factors that divide the numerator.
    pub fn reduce(&self, a: &RF) -> RF {
        let mut r = a.clone();
        let keys: Vec<u32> = r.den.keys().copied().collect();
        for k in keys {
            while r.den.get(&k).copied().unwrap_or(0) > 0 {
                match r.num.div_exact(&self.polys[k as usize], usize::MAX / 32) {
                    Some(q) => {
                        r.num = q;
                        *r.den.get_mut(&k).unwrap() -= 1;
                    }
                    None => break,
                }
            }
        }
        r.den.retain(|_, e| *e > 0);
        r.trim()
    }
    pub fn inv(&mut self, a: &RF) -> RF {
        let num = self.expand(&a.den);
        let (c, den) = self.factor(&a.num);
        let r = RF { num: num.scale(&c.inv()), den };
        if a.den.is_empty() {
            r
        } else {
            self.reduce(&r)
        }
    }
}

impl RF {
    pub fn poly(p: Poly) -> RF {
        RF { num: p, den: BTreeMap::new() }
    }
    fn trim(mut self) -> RF {
        if self.num.is_zero() {
            self.den.clear();
        }
        self
    }
    pub fn as_const(&self) -> Option<Rat> {
        if self.den.is_empty() {
            self.num.as_const()
        } else {
            None
        }
    }
    pub fn scale(&self, c: &Rat) -> RF {
        RF { num: self.num.scale(c), den: self.den.clone() }.trim()
    }
}
