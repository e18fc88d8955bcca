//! Deciding the feasibility of branches without a solver call, where that is exact or harmless:
//! - constraints that are linear in the only input involved: exact interval arithmetic on rationals
//! - a known point (of an earlier model, or the middle of the ranges) that satisfies all constraints
//! A branch that is wrongly called feasible costs time only: every verification condition
//! carries the whole path condition to the solver.
use crate::ctx::{Ctx, Fun, Id, Node};
use crate::big::Frac;
use crate::rat::Rat;
use crate::solver::Verdict;
use std::cmp::Ordering::*;
use std::collections::{BTreeSet, HashMap};

type Lin = Option<(Id, Frac, Frac)>; // variable (or MAX), coefficient, constant
const NO: Id = Id::MAX;

#[derive(Default)]
pub struct Quick {
    lin: HashMap<Id, Lin>,
    vars: HashMap<Id, BTreeSet<Id>>,
    points: Vec<HashMap<Id, f64>>,
    tick: u64,
    pub exact: usize,
    pub by_point: usize,
}

impl Ctx {
    fn lin(&mut self, a: Id) -> Lin {
        if let Some(l) = self.quick.lin.get(&a) {
            return l.clone();
        }
        let l = self.lin_of(a);
        self.quick.lin.insert(a, l.clone());
        l
    }
    fn lin_of(&mut self, a: Id) -> Lin {
        match self.nodes[a as usize].clone() {
            Node::Const(r) => Some((NO, Frac::zero(), Frac::of(r))),
            Node::Var(_) => Some((a, Frac::of(Rat::ONE), Frac::zero())),
            Node::Add(x, y) => {
                let (p, q) = (self.lin(x)?, self.lin(y)?);
                let v = if p.0 == NO { q.0 } else { p.0 };
                if q.0 != NO && q.0 != v {
                    return None;
                }
                Some((v, p.1.add(&q.1)?, p.2.add(&q.2)?))
            }
            Node::Mul(x, y) => {
                let (p, q) = (self.lin(x)?, self.lin(y)?);
                let (k, l) = if p.1.is_zero() {
                    (p.2, q)
                } else if q.1.is_zero() {
                    (q.2, p)
                } else {
                    return None;
                };
                Some((l.0, l.1.mul(&k)?, l.2.mul(&k)?))
            }
            Node::Div(x, y) => {
                let (p, q) = (self.lin(x)?, self.lin(y)?);
                if !q.1.is_zero() {
                    return None;
                }
                let k = q.2.inv()?;
                Some((p.0, p.1.mul(&k)?, p.2.mul(&k)?))
            }
            _ => None,
        }
    }
    pub fn vars_of(&mut self, a: Id) -> BTreeSet<Id> {
        if let Some(s) = self.quick.vars.get(&a) {
            return s.clone();
        }
        let s: BTreeSet<Id> = self.cone(&[a]).into_iter().filter(|i| matches!(self.nodes[*i as usize], Node::Var(_))).collect();
        self.quick.vars.insert(a, s.clone());
        s
    }
    /// Some(verdict) when it is known without asking
    pub fn quick_feasible(&mut self, asserts: &[Id]) -> Option<Verdict> {
        let mut vs = BTreeSet::new();
        for a in asserts {
            vs.extend(self.vars_of(*a));
        }
        if vs.is_empty() {
            return None;
        }
        let mut mid: HashMap<Id, f64> = HashMap::new();
        for v in &vs {
            let (lo, hi) = self.iv[*v as usize];
            if !lo.is_finite() || !hi.is_finite() {
                return None;
            }
            mid.insert(*v, lo + (hi - lo) * 0.5);
        }
        let mut tries = vec![];
        let mut range = None;
        if vs.len() == 1 {
            let v = *vs.iter().next().unwrap();
            match self.one(v, asserts) {
                Some((None, _)) => {
                    self.quick.exact += 1;
                    return Some(Verdict::Unsat);
                }
                Some((Some(_), true)) => {
                    self.quick.exact += 1;
                    return Some(Verdict::Sat(None));
                }
                Some((Some((lo, hi)), false)) => {
                    range = Some((v, lo, hi));
                    for k in [0.5, 0.125, 0.875, 0.3, 0.7, 0.02, 0.98] {
                        tries.push(HashMap::from([(v, lo + (hi - lo) * k)]));
                    }
                }
                None => {}
            }
        }
        for p in self.quick.points.iter().rev() {
            let mut q = mid.clone();
            for (v, x) in &mut q {
                if let Some(y) = p.get(v) {
                    *x = *y;
                }
            }
            tries.push(q);
        }
        tries.push(mid.clone());
        for _ in 0..3 {
            let mut q = mid.clone();
            let mut ks: Vec<Id> = q.keys().cloned().collect();
            ks.sort();
            for v in ks {
                self.quick.tick = self.quick.tick.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let u = (self.quick.tick >> 33) as f64 / (1u64 << 31) as f64;
                let (lo, hi) = self.iv[v as usize];
                q.insert(v, lo + (hi - lo) * (0.02 + 0.96 * u));
            }
            tries.push(q);
        }
        let order = self.cone(asserts);
        if let Some((v, lo, hi)) = range {
            // pieces of what the linear constraints leave: all of them refuted?
            let n = 24;
            let step = (hi - lo) / n as f64;
            if (0..n).all(|k| {
                let (a, b) = (lo + step * k as f64, lo + step * (k + 1) as f64);
                let e = 1e-12 * (1. + a.abs().max(b.abs()));
                self.refuted(&order, asserts, v, (a - e, b + e))
            }) {
                self.quick.exact += 1;
                return Some(Verdict::Unsat);
            }
        }
        for t in tries {
            if self.holds(&order, asserts, &t) {
                self.quick.by_point += 1;
                self.know(t);
                return Some(Verdict::Sat(None));
            }
        }
        None
    }
    pub fn know(&mut self, p: HashMap<Id, f64>) {
        self.quick.points.retain(|q| *q != p);
        self.quick.points.push(p);
        if self.quick.points.len() > 12 {
            self.quick.points.remove(0);
        }
    }
    /// (what the linear constraints leave of the range, whether they are all)
    fn one(&mut self, v: Id, asserts: &[Id]) -> Option<(Option<(f64, f64)>, bool)> {
        let (l, h) = self.iv[v as usize];
        let (mut lo, mut los) = (Frac::from_f64(l)?, false); // strict?
        let (mut hi, mut his) = (Frac::from_f64(h)?, false);
        let mut not: Vec<Frac> = vec![];
        let mut all = true;
        for a in asserts {
            let (neg, c) = match self.nodes[*a as usize] {
                Node::Not(x) => (true, x),
                _ => (false, *a),
            };
            // a x + b (rel) 0
            let (x, y, eq) = match self.nodes[c as usize] {
                Node::Le(x, y) => (x, y, false),
                Node::Eq(x, y) => (x, y, true),
                _ => {
                    all = false;
                    continue;
                }
            };
            let (p, q) = match (self.lin(x), self.lin(y)) {
                (Some(p), Some(q)) => (p, q),
                _ => {
                    all = false;
                    continue;
                }
            };
            let k = p.1.add(&q.1.neg())?;
            let b = p.2.add(&q.2.neg())?;
            if k.is_zero() {
                let t = if eq { b.is_zero() } else { b.sign() <= 0 };
                if t == neg {
                    return Some((None, all));
                }
                continue;
            }
            let r = b.neg().mul(&k.inv()?)?;
            if eq {
                if neg {
                    not.push(r);
                } else {
                    if r.cmp(&lo)? == Greater {
                        (lo, los) = (r.clone(), false);
                    }
                    if r.cmp(&hi)? == Less {
                        (hi, his) = (r.clone(), false);
                    }
                    // outside of the range: lo > hi below
                    if r.cmp(&lo)? == Less || r.cmp(&hi)? == Greater {
                        return Some((None, all));
                    }
                    if (r.cmp(&lo)? == Equal && los) || (r.cmp(&hi)? == Equal && his) {
                        return Some((None, all));
                    }
                }
                continue;
            }
            // k x + b <= 0 (neg: > 0)
            let upper = (k.sign() > 0) != neg;
            if upper {
                match r.cmp(&hi)? {
                    Less => (hi, his) = (r, neg),
                    Equal => his |= neg,
                    _ => {}
                }
            } else {
                match r.cmp(&lo)? {
                    Greater => (lo, los) = (r, neg),
                    Equal => los |= neg,
                    _ => {}
                }
            }
        }
        match lo.cmp(&hi)? {
            Greater => return Some((None, all)),
            Equal => {
                if los || his || not.iter().any(|x| x.cmp(&lo) == Some(Equal)) {
                    return Some((None, all));
                }
            }
            Less => {}
        }
        Some((Some((lo.f(), hi.f())), all))
    }
    /// interval arithmetic (rounded outwards) shows that one of the conditions is false everywhere in this range
    fn refuted(&self, order: &[Id], asserts: &[Id], var: Id, r: (f64, f64)) -> bool {
        let mut v: HashMap<Id, (f64, f64)> = HashMap::with_capacity(order.len());
        const ANY: (f64, f64) = (0., 1.);
        let wide = |a: f64, b: f64| {
            if a.is_nan() || b.is_nan() {
                (f64::NEG_INFINITY, f64::INFINITY)
            } else {
                (a - a.abs() * 1e-14 - 1e-300, b + b.abs() * 1e-14 + 1e-300)
            }
        };
        for &i in order {
            let g = |x: Id| v[&x];
            let old = self.iv[i as usize];
            let x = match &self.nodes[i as usize] {
                Node::Var(_) if i == var => r,
                Node::Add(x, y) => {
                    let (p, q) = (g(*x), g(*y));
                    wide(p.0 + q.0, p.1 + q.1)
                }
                Node::Mul(x, y) => {
                    let (p, q) = (g(*x), g(*y));
                    let c = [p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1];
                    if c.iter().any(|z| z.is_nan()) {
                        old
                    } else {
                        let w = wide(c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                        if x == y {
                            (w.0.max(0.), w.1)
                        } else {
                            w
                        }
                    }
                }
                Node::Not(x) => {
                    let p = g(*x);
                    (1. - p.1, 1. - p.0)
                }
                Node::Le(x, y) | Node::Lt(x, y) => {
                    let strict = matches!(self.nodes[i as usize], Node::Lt(..));
                    let (p, q) = (g(*x), g(*y));
                    if p.1 < q.0 {
                        (1., 1.)
                    } else if p.0 > q.1 {
                        (0., 0.)
                    } else if x == y {
                        if strict { (0., 0.) } else { (1., 1.) }
                    } else {
                        ANY
                    }
                }
                Node::Eq(x, y) => {
                    let (p, q) = (g(*x), g(*y));
                    if p.1 < q.0 || p.0 > q.1 {
                        (0., 0.)
                    } else {
                        ANY
                    }
                }
                Node::And(l) => l.iter().fold((1., 1.), |a: (f64, f64), x| (a.0.min(g(*x).0), a.1.min(g(*x).1))),
                Node::Or(l) => l.iter().fold((0., 0.), |a: (f64, f64), x| (a.0.max(g(*x).0), a.1.max(g(*x).1))),
                Node::Ite(c, x, y) => {
                    let (c, p, q) = (g(*c), g(*x), g(*y));
                    if c == (1., 1.) {
                        p
                    } else if c == (0., 0.) {
                        q
                    } else {
                        (p.0.min(q.0), p.1.max(q.1))
                    }
                }
                // (what holds over the whole range holds over a part of it)
                _ => old,
            };
            v.insert(i, x);
        }
        asserts.iter().any(|a| v[a].1 < 0.5)
    }
    fn holds(&self, order: &[Id], asserts: &[Id], at: &HashMap<Id, f64>) -> bool {
        let mut v: HashMap<Id, f64> = HashMap::with_capacity(order.len());
        for &i in order {
            let g = |x: Id| v[&x];
            let b = |t: bool| if t { 1. } else { 0. };
            // 1 true, 0 false, NaN too close to tell
            let cmp = |d: f64, s: f64, t: bool| if d.abs() <= 1e-9 * s.max(1e-6) { f64::NAN } else { b(t) };
            let x = match &self.nodes[i as usize] {
                Node::True => 1.,
                Node::False => 0.,
                Node::Const(r) => r.f(),
                Node::Big(x) => f64::from_bits(*x),
                Node::Var(_) => match at.get(&i) {
                    Some(x) => *x,
                    None => return false,
                },
                Node::Add(x, y) => g(*x) + g(*y),
                Node::Mul(x, y) => g(*x) * g(*y),
                Node::Div(x, y) => g(*x) / g(*y),
                Node::Ite(c, x, y) => {
                    let c = g(*c);
                    if c == 1. {
                        g(*x)
                    } else if c == 0. {
                        g(*y)
                    } else {
                        f64::NAN
                    }
                }
                Node::Sqrt(x) => g(*x).sqrt(),
                Node::Root(x, p, q) => g(*x).powf(*p as f64 / *q as f64),
                Node::Floor(x) => g(*x).floor(),
                Node::Fun(f, x, y) => {
                    let (x, y) = (g(*x), g(*y));
                    match f {
                        Fun::Sin => x.sin(),
                        Fun::Cos => x.cos(),
                        Fun::Exp => x.exp(),
                        Fun::Ln => x.ln(),
                        Fun::Asin => x.asin(),
                        Fun::Acos => x.acos(),
                        Fun::Atan => x.atan(),
                        Fun::Atan2 => x.atan2(y),
                        Fun::Pow => x.powf(y),
                    }
                }
                Node::Le(x, y) => cmp(g(*x) - g(*y), g(*x).abs().max(g(*y).abs()), g(*x) <= g(*y)),
                Node::Lt(x, y) => cmp(g(*x) - g(*y), g(*x).abs().max(g(*y).abs()), g(*x) < g(*y)),
                Node::Eq(x, y) => {
                    let (p, q) = (g(*x), g(*y));
                    if (p - q).abs() > 1e-6 * p.abs().max(q.abs()).max(1e-6) {
                        0.
                    } else {
                        f64::NAN
                    }
                }
                Node::Not(x) => 1. - g(*x),
                Node::And(l) => l.iter().fold(1., |a: f64, x| if a == 0. || g(*x) == 0. { 0. } else { a * g(*x) }),
                Node::Or(l) => l.iter().fold(0., |a: f64, x| if a == 1. || g(*x) == 1. { 1. } else { a + g(*x) }),
            };
            v.insert(i, x);
        }
        asserts.iter().all(|a| v[a] == 1.)
    }
}
