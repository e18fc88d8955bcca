//! Term arena, path exploration, SMT-LIB encoding.
use crate::rat::Rat;
use crate::solver::{self, Verdict};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Fun {
    Sin,
    Cos,
    Exp,
    Ln,
    Asin,
    Acos,
    Atan,
    Atan2,
    Pow,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    True,
    False,
    Const(Rat),
    Big(u64), // f64 bits of a finite constant out of Rat range
    Var(String),
    Add(Id, Id),
    Mul(Id, Id),
    Div(Id, Id),
    Ite(Id, Id, Id),
    Sqrt(Id),
    Root(Id, u32, u32), // x^(p/q), x >= 0
    Floor(Id),
    Fun(Fun, Id, Id),
    Le(Id, Id),
    Lt(Id, Id),
    Eq(Id, Id),
    Not(Id),
    And(Vec<Id>),
    Or(Vec<Id>),
}

#[derive(Clone, Debug)]
pub struct Candidate {
    pub label: String,
    pub model: BTreeMap<String, f64>,
    pub choices: BTreeMap<String, u32>,
    pub info: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: usize,
    pub paths_dropped: usize,
    pub paths_panicked: usize,
    pub forks: usize,
    pub forks_interval: usize,
    pub feas_queries: usize,
    pub feas_unknown: usize,
    pub vcs: usize,
    pub vcs_unsat: usize,
    pub vcs_trivial: usize,
    pub vcs_cached: usize,
    pub vcs_sat: usize,
    pub vcs_unknown: usize,
    pub solver_ms: u128,
    pub witnesses: usize,
    pub div_dropped: usize,
}

pub struct Job {
    pub label: String,
    pub texts: Vec<(&'static str, String)>,
    pub vars: Vec<String>,
    pub choices: BTreeMap<String, u32>,
    pub pathno: usize,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub iv: Vec<(f64, f64)>,
    pub map: HashMap<Node, Id>,
    pub vars: Vec<(String, Id)>,
    pub prefix: Vec<u32>,
    pub pos: usize,
    pub trail: Vec<u32>,
    pub pc: Vec<Id>,
    pub pcset: HashSet<Id>,
    pub work: Vec<Vec<u32>>,
    pub choices: BTreeMap<String, u32>,
    pub rand_count: usize,
    pub stats: Stats,
    pub drop_div_zero: bool,
    /// angles at which an atan2 is related to its arguments
    pub atan_grid: Vec<f64>,
    pub drop_neg_sqrt: bool,
    pub feas_cache: HashMap<Vec<Id>, Verdict>,
    pub vc_cache: HashMap<Vec<Id>, ()>,
    pub functions: BTreeSet<&'static str>,
    pub fun_ptrs: HashSet<usize>,
    pub pool: Option<solver::Pool>,
    pub unknowns: Vec<String>,
    pub active: bool,
    pub labels: BTreeMap<String, (usize, usize)>, // label -> (vcs, proved) -- proved filled at end
    pub frac_memo: HashMap<Id, (Id, Vec<Id>)>,
    pub feas_ms: u64,
    pub enum_width: f64,
    pub lemma_mode: bool,
    /// verification conditions whose two sides became the same term
    pub same: Vec<(Id, Id, f64)>,
    pub same_seen: HashSet<(Id, Id)>,
    pub quick: crate::quick::Quick,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new());
}

/// payload of the panic that abandons a path
pub struct Abandon;
/// payload of the panic that says: this execution cannot be encoded
pub struct Unsupported(pub String);

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

fn widen(lo: f64, hi: f64) -> (f64, f64) {
    let lo = if lo.is_nan() { f64::NEG_INFINITY } else { lo - lo.abs() * 4e-16 - 1e-300 };
    let hi = if hi.is_nan() { f64::INFINITY } else { hi + hi.abs() * 4e-16 + 1e-300 };
    (lo, hi)
}
fn imul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let m = |x: f64, y: f64| if x == 0. || y == 0. { 0. } else { x * y };
    let c = [m(a.0, b.0), m(a.0, b.1), m(a.1, b.0), m(a.1, b.1)];
    (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            iv: vec![],
            map: HashMap::new(),
            vars: vec![],
            prefix: vec![],
            pos: 0,
            trail: vec![],
            pc: vec![],
            pcset: HashSet::new(),
            work: vec![],
            choices: BTreeMap::new(),
            rand_count: 0,
            stats: Stats::default(),
            drop_div_zero: false,
            atan_grid: vec![],
            drop_neg_sqrt: false,
            feas_cache: HashMap::new(),
            vc_cache: HashMap::new(),
            functions: BTreeSet::new(),
            fun_ptrs: HashSet::new(),
            pool: None,
            unknowns: vec![],
            active: false,
            labels: BTreeMap::new(),
            frac_memo: HashMap::new(),
            feas_ms: 2000,
            enum_width: 40.,
            lemma_mode: false,
            same: vec![],
            same_seen: HashSet::new(),
            quick: Default::default(),
        };
        c.node(Node::True, (1., 1.));
        c.node(Node::False, (0., 0.));
        c.node(Node::Const(Rat::ZERO), (0., 0.));
        c.node(Node::Const(Rat::ONE), (1., 1.));
        c
    }
    pub const TRUE: Id = 0;
    pub const FALSE: Id = 1;
    pub const ZERO: Id = 2;
    pub const ONE: Id = 3;

    fn node(&mut self, n: Node, iv: (f64, f64)) -> Id {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.iv.push(iv);
        self.map.insert(n, i);
        i
    }
    pub fn rat(&mut self, r: Rat) -> Id {
        let f = r.f();
        let iv = if r.d == 1 && r.n.unsigned_abs() < (1 << 53) { (f, f) } else { widen(f, f) };
        self.node(Node::Const(r), iv)
    }
    pub fn konst(&mut self, x: f64) -> Id {
        assert!(x.is_finite());
        match Rat::from_f64(x) {
            Some(r) => self.rat(r),
            None => self.node(Node::Big(x.to_bits()), widen(x, x)),
        }
    }
    pub fn as_rat(&self, a: Id) -> Option<Rat> {
        match &self.nodes[a as usize] {
            Node::Const(r) => Some(*r),
            _ => None,
        }
    }
    pub fn as_f(&self, a: Id) -> Option<f64> {
        match &self.nodes[a as usize] {
            Node::Const(r) => Some(r.f()),
            Node::Big(b) => Some(f64::from_bits(*b)),
            _ => None,
        }
    }
    pub fn is_const(&self, a: Id) -> bool {
        self.as_f(a).is_some()
    }
    pub fn interval(&self, a: Id) -> (f64, f64) {
        self.iv[a as usize]
    }
    pub fn var(&mut self, name: &str, lo: f64, hi: f64) -> Id {
        // the same name with another range (on another path) is another variable
        let mut n = Node::Var(name.to_string());
        if let Some(i) = self.map.get(&n) {
            if self.iv[*i as usize] == (lo, hi) {
                return *i;
            }
            n = Node::Var(format!("{name}@{lo}:{hi}"));
            if let Some(i) = self.map.get(&n) {
                return *i;
            }
        }
        let i = self.node(n, (lo, hi));
        self.vars.push((name.to_string(), i));
        i
    }

    pub fn add(&mut self, a: Id, b: Id) -> Id {
        if a == Self::ZERO {
            return b;
        }
        if b == Self::ZERO {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_f(a), self.as_f(b)) {
            if let (Some(p), Some(q)) = (self.as_rat(a), self.as_rat(b)) {
                if let Some(r) = p.add(q) {
                    return self.rat(r);
                }
            }
            let z = x + y;
            return if z.is_finite() { self.konst(z) } else { self.konst(f64::MAX) };
        }
        let (a, b) = if self.is_const(b) { (b, a) } else { (a, b) }; // const first
        // c + (d + x)
        if let Some(p) = self.as_rat(a) {
            if let Node::Add(d, x) = self.nodes[b as usize].clone() {
                if let Some(q) = self.as_rat(d) {
                    if let Some(r) = p.add(q) {
                        let k = self.rat(r);
                        return self.add(k, x);
                    }
                }
            }
        } else {
            // collect equal terms: k1*x + k2*x
            let (k1, x1) = self.split_coef(a);
            let (k2, x2) = self.split_coef(b);
            if x1 == x2 {
                if let Some(k) = k1.add(k2) {
                    let k = self.rat(k);
                    return self.mul(k, x1);
                }
            }
            // (x + y) + (-y)
            for (s, t) in [(a, b), (b, a)] {
                if let Node::Add(p, q) = self.nodes[s as usize].clone() {
                    let (kt, xt) = self.split_coef(t);
                    let (kp, xp) = self.split_coef(p);
                    let (kq, xq) = self.split_coef(q);
                    if xp == xt && kp.add(kt) == Some(Rat::ZERO) {
                        return q;
                    }
                    if xq == xt && kq.add(kt) == Some(Rat::ZERO) {
                        return p;
                    }
                }
            }
        }
        let (a, b) = if self.is_const(a) || a <= b { (a, b) } else { (b, a) };
        let (p, q) = (self.iv[a as usize], self.iv[b as usize]);
        self.node(Node::Add(a, b), widen(p.0 + q.0, p.1 + q.1))
    }
    fn split_coef(&self, a: Id) -> (Rat, Id) {
        if let Node::Mul(k, x) = &self.nodes[a as usize] {
            if let Some(r) = self.as_rat(*k) {
                return (r, *x);
            }
        }
        (Rat::ONE, a)
    }
    pub fn neg(&mut self, a: Id) -> Id {
        let m = self.rat(Rat::int(-1));
        self.mul(m, a)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return Self::ZERO;
        }
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if a == Self::ZERO || b == Self::ZERO {
            return Self::ZERO;
        }
        if a == Self::ONE {
            return b;
        }
        if b == Self::ONE {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_f(a), self.as_f(b)) {
            if let (Some(p), Some(q)) = (self.as_rat(a), self.as_rat(b)) {
                if let Some(r) = p.mul(q) {
                    return self.rat(r);
                }
            }
            let z = x * y;
            return self.konst(z.clamp(f64::MIN, f64::MAX));
        }
        let (a, b) = if self.is_const(b) { (b, a) } else { (a, b) };
        if let Some(p) = self.as_rat(a) {
            match self.nodes[b as usize].clone() {
                Node::Mul(k, x) => {
                    if let Some(q) = self.as_rat(k) {
                        if let Some(r) = p.mul(q) {
                            let k = self.rat(r);
                            return self.mul(k, x);
                        }
                    }
                }
                Node::Add(u, v) if p == Rat::int(-1) || self.is_const(u) => {
                    // distribute constants over sums when it folds, and negation always
                    let x = self.mul(a, u);
                    let y = self.mul(a, v);
                    return self.add(x, y);
                }
                _ => {}
            }
        } else {
            if a == b {
                if let Node::Sqrt(x) = self.nodes[a as usize] {
                    return x;
                }
            }
            // pull constants out
            let (k1, x1) = self.split_coef(a);
            let (k2, x2) = self.split_coef(b);
            if k1 != Rat::ONE || k2 != Rat::ONE {
                if let Some(k) = k1.mul(k2) {
                    let k = self.rat(k);
                    let m = self.mul(x1, x2);
                    return self.mul(k, m);
                }
            }
            // (x / y) * y
            for (s, t) in [(a, b), (b, a)] {
                if let Node::Div(x, y) = self.nodes[s as usize] {
                    if y == t {
                        return x;
                    }
                }
            }
        }
        let (a, b) = if self.is_const(a) || a <= b { (a, b) } else { (b, a) };
        let (p, q) = (self.iv[a as usize], self.iv[b as usize]);
        let mut iv = imul(p, q);
        if a == b {
            iv.0 = iv.0.max(0.);
            if p.0 >= 0. {
                iv.0 = p.0 * p.0;
            } else if p.1 <= 0. {
                iv.0 = p.1 * p.1;
            }
            iv.0 *= 1. - 4e-16;
            iv.1 *= 1. + 4e-16;
            if iv.0 < 0. {
                iv.0 = 0.
            }
        } else {
            let w = widen(iv.0, iv.1);
            // sign information is exact
            iv = (if iv.0 >= 0. { w.0.max(0.) } else { w.0 }, if iv.1 <= 0. { w.1.min(0.) } else { w.1 });
        }
        self.node(Node::Mul(a, b), iv)
    }
    /// division; the caller has established that b is not zero
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        if a == Self::ZERO {
            return a;
        }
        if a == b {
            return Self::ONE;
        }
        if let Some(q) = self.as_rat(b) {
            if let Some(r) = q.inv() {
                let k = self.rat(r);
                return self.mul(k, a);
            }
        }
        if let (Some(x), Some(y)) = (self.as_f(a), self.as_f(b)) {
            return self.konst((x / y).clamp(f64::MIN, f64::MAX));
        }
        if let Some(y) = self.as_f(b) {
            let k = self.konst(1. / y);
            return self.mul(k, a);
        }
        let (k1, x1) = self.split_coef(a);
        let (k2, x2) = self.split_coef(b);
        if k1 != Rat::ONE || k2 != Rat::ONE {
            if let Some(k) = k2.inv().and_then(|q| k1.mul(q)) {
                let k = self.rat(k);
                let m = self.div(x1, x2);
                return self.mul(k, m);
            }
        }
        if let Node::Mul(x, y) = self.nodes[a as usize] {
            if x == b {
                return y;
            }
            if y == b {
                return x;
            }
        }
        let (p, q) = (self.iv[a as usize], self.iv[b as usize]);
        let iv = if q.0 > 0. || q.1 < 0. {
            let r = (1. / q.1, 1. / q.0);
            let iv = imul(p, r);
            let w = widen(iv.0, iv.1);
            (if iv.0 >= 0. { w.0.max(0.) } else { w.0 }, if iv.1 <= 0. { w.1.min(0.) } else { w.1 })
        } else if q.0 >= 0. && p.0 >= 0. {
            (0., f64::INFINITY)
        } else {
            (f64::NEG_INFINITY, f64::INFINITY)
        };
        self.node(Node::Div(a, b), iv)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if c == Self::TRUE || a == b {
            return a;
        }
        if c == Self::FALSE {
            return b;
        }
        if self.pcset.contains(&c) {
            return a;
        }
        let nc = self.not(c);
        if self.pcset.contains(&nc) {
            return b;
        }
        self.ite_raw(c, a, b)
    }
    /// no simplification that depends on the path
    fn ite_raw(&mut self, c: Id, a: Id, b: Id) -> Id {
        if c == Self::TRUE || a == b {
            return a;
        }
        if c == Self::FALSE {
            return b;
        }
        let (p, q) = (self.iv[a as usize], self.iv[b as usize]);
        let mut iv = (p.0.min(q.0), p.1.max(q.1));
        // min / max / abs shapes
        if let Node::Le(x, y) | Node::Lt(x, y) = self.nodes[c as usize] {
            if a == y && b == x {
                iv.0 = p.0.max(q.0); // max
            } else if a == x && b == y {
                iv.1 = p.1.min(q.1); // min
            } else if x == Self::ZERO && a == y {
                // 0<=y ? y : b   with b = -y  (abs)
                let n = self.neg(y);
                if b == n {
                    iv.0 = iv.0.max(0.);
                }
            }
        }
        self.node(Node::Ite(c, a, b), iv)
    }
    /// the caller has established that a >= 0
    pub fn sqrt(&mut self, a: Id) -> Id {
        if let Some(r) = self.as_rat(a) {
            if r.n >= 0 {
                let isq = |x: i128| -> Option<i128> {
                    let s = (x as f64).sqrt() as i128;
                    (s.saturating_sub(1)..=s + 1).find(|k| k.checked_mul(*k) == Some(x))
                };
                if let (Some(n), Some(d)) = (isq(r.n), isq(r.d)) {
                    return self.rat(Rat::new(n, d).unwrap());
                }
            }
        }
        if let Some(f) = self.as_f(a) {
            return self.konst(f.max(0.).sqrt());
        }
        if let Node::Mul(x, y) = self.nodes[a as usize] {
            if x == y {
                return self.abs(x);
            }
        }
        let p = self.iv[a as usize];
        let iv = (p.0.max(0.).sqrt() * (1. - 4e-16), p.1.max(0.).sqrt() * (1. + 4e-16));
        self.node(Node::Sqrt(a), iv)
    }
    pub fn abs(&mut self, x: Id) -> Id {
        let p = self.iv[x as usize];
        if p.0 >= 0. {
            return x;
        }
        let n = self.neg(x);
        if p.1 <= 0. {
            return n;
        }
        let c = self.le(Self::ZERO, x);
        self.ite(c, x, n)
    }
    pub fn root(&mut self, a: Id, p: u32, q: u32) -> Id {
        if q == 2 && p == 1 {
            return self.sqrt(a);
        }
        let v = self.iv[a as usize];
        let e = p as f64 / q as f64;
        let iv = widen(v.0.max(0.).powf(e), v.1.max(0.).powf(e));
        self.node(Node::Root(a, p, q), (iv.0.max(0.), iv.1))
    }
    pub fn floor(&mut self, a: Id) -> Id {
        let p = self.iv[a as usize];
        self.node(Node::Floor(a), (p.0.floor(), p.1.floor()))
    }
    pub fn fun(&mut self, f: Fun, a: Id, b: Id) -> Id {
        let p = self.iv[a as usize];
        let q = self.iv[b as usize];
        let (tl, th) = {
            let mono = |g: fn(f64) -> f64| (g(p.0), g(p.1));
            match f {
                Fun::Sin => trig_iv(p.0 - std::f64::consts::FRAC_PI_2, p.1 - std::f64::consts::FRAC_PI_2),
                Fun::Cos => trig_iv(p.0, p.1),
                Fun::Exp => mono(f64::exp),
                Fun::Ln => (if p.0 <= 0. { f64::NEG_INFINITY } else { p.0.ln() }, p.1.ln()),
                Fun::Asin => (p.0.max(-1.).asin(), p.1.min(1.).asin()),
                Fun::Acos => (p.1.min(1.).acos(), p.0.max(-1.).acos()),
                Fun::Atan => mono(f64::atan),
                Fun::Atan2 => {
                    let pi = std::f64::consts::PI;
                    if p.0 > 0. {
                        // y > 0
                        let c = [p.0.atan2(q.0), p.0.atan2(q.1), p.1.atan2(q.0), p.1.atan2(q.1)];
                        (c.iter().cloned().fold(9., f64::min), c.iter().cloned().fold(-9., f64::max))
                    } else if q.0 > 0. {
                        let c = [p.0.atan2(q.0), p.0.atan2(q.1), p.1.atan2(q.0), p.1.atan2(q.1)];
                        (c.iter().cloned().fold(9., f64::min), c.iter().cloned().fold(-9., f64::max))
                    } else if p.0 >= 0. {
                        (0., pi)
                    } else if p.1 < 0. {
                        (-pi, 0.)
                    } else {
                        (-pi, pi)
                    }
                }
                Fun::Pow => {
                    let c = [p.0.max(0.).powf(q.0), p.0.max(0.).powf(q.1), p.1.powf(q.0), p.1.powf(q.1)];
                    (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(0., f64::max))
                }
            }
        };
        let w = (tl - tl.abs() * 1e-14 - 1e-300, th + th.abs() * 1e-14 + 1e-300);
        let w = match f {
            Fun::Exp | Fun::Pow => (w.0.max(0.), w.1),
            Fun::Sin | Fun::Cos => (w.0.max(-1.), w.1.min(1.)),
            _ => w,
        };
        let w = (if w.0.is_nan() { f64::NEG_INFINITY } else { w.0 }, if w.1.is_nan() { f64::INFINITY } else { w.1 });
        self.node(Node::Fun(f, a, b), w)
    }
    fn cmp_const(&self, a: Id, b: Id) -> Option<std::cmp::Ordering> {
        if let (Some(p), Some(q)) = (self.as_rat(a), self.as_rat(b)) {
            return Some(p.cmp(q));
        }
        if let (Some(p), Some(q)) = (self.as_f(a), self.as_f(b)) {
            return p.partial_cmp(&q);
        }
        None
    }
    pub fn le(&mut self, a: Id, b: Id) -> Id {
        use std::cmp::Ordering::*;
        if a == b {
            return Self::TRUE;
        }
        if let Some(o) = self.cmp_const(a, b) {
            return if o != Greater { Self::TRUE } else { Self::FALSE };
        }
        let (p, q) = (self.iv[a as usize], self.iv[b as usize]);
        if p.1 <= q.0 {
            self.stats.forks_interval += 1;
            return Self::TRUE;
        }
        if p.0 > q.1 {
            self.stats.forks_interval += 1;
            return Self::FALSE;
        }
        let (a, b) = self.canon_cmp(a, b);
        self.node(Node::Le(a, b), (0., 1.))
    }
    fn canon_cmp(&mut self, a: Id, b: Id) -> (Id, Id) {
        (a, b)
    }
    pub fn lt(&mut self, a: Id, b: Id) -> Id {
        let l = self.le(b, a);
        self.not(l)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return Self::TRUE;
        }
        if let Some(o) = self.cmp_const(a, b) {
            return if o == std::cmp::Ordering::Equal { Self::TRUE } else { Self::FALSE };
        }
        let (p, q) = (self.iv[a as usize], self.iv[b as usize]);
        if p.1 < q.0 || p.0 > q.1 {
            self.stats.forks_interval += 1;
            return Self::FALSE;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.node(Node::Eq(a, b), (0., 1.))
    }
    pub fn not(&mut self, a: Id) -> Id {
        match self.nodes[a as usize].clone() {
            Node::True => Self::FALSE,
            Node::False => Self::TRUE,
            Node::Not(x) => x,
            _ => self.node(Node::Not(a), (0., 1.)),
        }
    }
    pub fn and(&mut self, v: &[Id]) -> Id {
        let mut o: Vec<Id> = vec![];
        for x in v {
            if *x == Self::FALSE {
                return Self::FALSE;
            }
            if *x != Self::TRUE && !o.contains(x) {
                o.push(*x);
            }
        }
        match o.len() {
            0 => Self::TRUE,
            1 => o[0],
            _ => self.node(Node::And(o), (0., 1.)),
        }
    }
    pub fn or(&mut self, v: &[Id]) -> Id {
        let mut o: Vec<Id> = vec![];
        for x in v {
            if *x == Self::TRUE {
                return Self::TRUE;
            }
            if *x != Self::FALSE && !o.contains(x) {
                o.push(*x);
            }
        }
        match o.len() {
            0 => Self::FALSE,
            1 => o[0],
            _ => self.node(Node::Or(o), (0., 1.)),
        }
    }

    // ---------------------------------------------------------------- fractions
    fn fprod(&mut self, v: &[Id]) -> Id {
        let mut r = Self::ONE;
        for x in v {
            r = self.mul(r, *x);
        }
        r
    }
    /// n / prod(d) with n free of division outside of atoms
    fn frac(&mut self, a: Id) -> (Id, Vec<Id>) {
        if let Some(r) = self.frac_memo.get(&a) {
            return r.clone();
        }
        let r = match self.nodes[a as usize].clone() {
            Node::Add(x, y) => {
                let (n1, d1) = self.frac(x);
                let (n2, d2) = self.frac(y);
                if d1.is_empty() && d2.is_empty() {
                    (self.add(n1, n2), vec![])
                } else {
                    let (m1, m2, l) = lcm(&d1, &d2);
                    let p1 = self.fprod(&m1);
                    let p2 = self.fprod(&m2);
                    let u = self.mul(n1, p1);
                    let v = self.mul(n2, p2);
                    (self.add(u, v), l)
                }
            }
            Node::Mul(x, y) => {
                let (n1, d1) = self.frac(x);
                let (n2, d2) = self.frac(y);
                let mut d = d1;
                d.extend(d2);
                d.sort();
                let n = self.mul(n1, n2);
                self.cancel(n, d)
            }
            Node::Div(x, y) => {
                let (n1, mut d1) = self.frac(x);
                let (n2, d2) = self.frac(y);
                let p = self.fprod(&d2);
                let n = self.mul(n1, p);
                // split product denominators in factors
                let mut st = vec![n2];
                let mut coef = Rat::ONE;
                while let Some(f) = st.pop() {
                    if let Some(r) = self.as_rat(f) {
                        if let Some(c) = coef.mul(r) {
                            coef = c;
                            continue;
                        }
                    }
                    if let Node::Mul(u, v) = self.nodes[f as usize] {
                        st.push(u);
                        st.push(v);
                    } else {
                        d1.push(f);
                    }
                }
                d1.sort();
                let n = match coef.inv() {
                    Some(c) if coef != Rat::ONE => {
                        let k = self.rat(c);
                        self.mul(k, n)
                    }
                    _ => n,
                };
                self.cancel(n, d1)
            }
            Node::Ite(c, x, y) => {
                let c2 = self.clear(c);
                let (n1, d1) = self.frac(x);
                let (n2, d2) = self.frac(y);
                let (m1, m2, l) = lcm(&d1, &d2);
                let p1 = self.fprod(&m1);
                let p2 = self.fprod(&m2);
                let u = self.mul(n1, p1);
                let v = self.mul(n2, p2);
                (self.ite_raw(c2, u, v), l)
            }
            _ => (a, vec![]),
        };
        self.frac_memo.insert(a, r.clone());
        r
    }
    fn cancel(&mut self, n: Id, d: Vec<Id>) -> (Id, Vec<Id>) {
        // cancel factors of the numerator product
        let mut fs = vec![];
        let mut st = vec![n];
        while let Some(f) = st.pop() {
            if let Node::Mul(u, v) = self.nodes[f as usize] {
                st.push(u);
                st.push(v);
            } else {
                fs.push(f);
            }
        }
        let mut d2 = vec![];
        let mut any = false;
        for x in d {
            if let Some(k) = fs.iter().position(|f| *f == x) {
                fs.swap_remove(k);
                any = true;
            } else {
                d2.push(x);
            }
        }
        if !any {
            return (n, d2);
        }
        let n = self.fprod(&fs);
        (n, d2)
    }
    /// division-free equivalent of a boolean node (denominators are non-zero on the path)
    fn clear(&mut self, c: Id) -> Id {
        match self.nodes[c as usize].clone() {
            Node::Le(a, b) => {
                let s = self.sub(a, b);
                let (n, d) = self.frac(s);
                if d.is_empty() {
                    if n == s {
                        return c;
                    }
                    return self.le(n, Self::ZERO);
                }
                let m = self.sign_mul(n, &d);
                self.le(m, Self::ZERO)
            }
            Node::Eq(a, b) => {
                let s = self.sub(a, b);
                let (n, d) = self.frac(s);
                if d.is_empty() && n == s {
                    return c;
                }
                self.eq(n, Self::ZERO)
            }
            Node::Not(x) => {
                let y = self.clear(x);
                self.not(y)
            }
            Node::And(v) => {
                let w: Vec<Id> = v.iter().map(|x| self.clear(*x)).collect();
                self.and(&w)
            }
            Node::Or(v) => {
                let w: Vec<Id> = v.iter().map(|x| self.clear(*x)).collect();
                self.or(&w)
            }
            _ => c,
        }
    }
    fn sign_mul(&mut self, n: Id, d: &[Id]) -> Id {
        let mut odd: Vec<Id> = vec![];
        for x in d {
            if let Some(k) = odd.iter().position(|y| y == x) {
                odd.swap_remove(k);
            } else {
                odd.push(*x);
            }
        }
        let mut m = n;
        for x in odd {
            let iv = self.iv[x as usize];
            if iv.0 >= 0. {
                continue;
            }
            if iv.1 <= 0. {
                m = self.neg(m);
            } else {
                m = self.mul(m, x);
            }
        }
        m
    }

    // ---------------------------------------------------------------- SMT-LIB
    pub fn cone(&self, roots: &[Id]) -> Vec<Id> {
        let mut seen = HashSet::new();
        let mut st: Vec<Id> = roots.to_vec();
        while let Some(a) = st.pop() {
            if !seen.insert(a) {
                continue;
            }
            self.kids(a, &mut st);
        }
        let mut v: Vec<Id> = seen.into_iter().collect();
        v.sort();
        v
    }
    fn kids(&self, a: Id, st: &mut Vec<Id>) {
        match &self.nodes[a as usize] {
            Node::Add(x, y) | Node::Mul(x, y) | Node::Div(x, y) | Node::Le(x, y) | Node::Lt(x, y) | Node::Eq(x, y) => {
                st.push(*x);
                st.push(*y);
            }
            Node::Ite(c, x, y) => st.extend([*c, *x, *y]),
            Node::Sqrt(x) | Node::Root(x, _, _) | Node::Floor(x) | Node::Not(x) => st.push(*x),
            Node::Fun(_, x, y) => st.extend([*x, *y]),
            Node::And(v) | Node::Or(v) => st.extend(v),
            _ => {}
        }
    }
    fn bound_txt(x: f64, outward_up: bool) -> Option<String> {
        if !x.is_finite() {
            return None;
        }
        // a short rational outside of x
        let y = if x == 0. { 0. } else { x };
        let r = Rat::from_f64(y)?;
        let _ = outward_up;
        Some(r.smt())
    }
    /// (text, variable names). `clear`: division free
    pub fn smt(&mut self, asserts: &[Id], clear: bool) -> (String, Vec<String>) {
        let mut asserts: Vec<Id> = asserts.to_vec();
        let mut nonzero: Vec<Id> = vec![];
        if clear {
            asserts = asserts.iter().map(|a| self.clear(*a)).collect();
        }
        // cone, with axioms of atoms (which may bring in more terms)
        let mut ax: Vec<String> = vec![];
        let mut done: HashSet<Id> = HashSet::new();
        let mut roots = asserts.clone();
        let mut sqrt_def: Vec<(Id, Id, Vec<Id>)> = vec![]; // node, num, den
        let mut order: Vec<Id>;
        loop {
            order = self.cone(&roots);
            let new: Vec<Id> = order.iter().cloned().filter(|i| !done.contains(i)).collect();
            if new.is_empty() {
                break;
            }
            for i in new {
                done.insert(i);
                match self.nodes[i as usize].clone() {
                    Node::Sqrt(x) | Node::Root(x, _, _) => {
                        let (n, d) = if clear { self.frac(x) } else { (x, vec![]) };
                        roots.push(n);
                        roots.extend(&d);
                        nonzero.extend(&d);
                        sqrt_def.push((i, n, d));
                    }
                    Node::Fun(Fun::Sin, x, y) => {
                        let k = self.fun(Fun::Cos, x, y);
                        roots.push(k);
                    }
                    Node::Fun(Fun::Cos, x, y) => {
                        let k = self.fun(Fun::Sin, x, y);
                        roots.push(k);
                    }
                    Node::Div(_, y) => nonzero.push(y),
                    _ => {}
                }
            }
        }
        if clear {
            // arguments of atoms may still contain division (Fun, Floor): keep as division, with y != 0
            let mut more = vec![];
            for a in &asserts {
                more.push(*a);
            }
        }
        nonzero.sort();
        nonzero.dedup();
        let mut out = String::new();
        let mut vars = vec![];
        let mut has_int = false;
        for &i in &order {
            let n = self.nodes[i as usize].clone();
            let iv = self.iv[i as usize];
            let r = |c: &Ctx, x: Id| -> String { c.rf(x) };
            let mut bounds = |out: &mut String, name: &str| {
                if let Some(t) = Self::bound_txt(iv.0, false) {
                    out.push_str(&format!("(assert (<= {t} {name}))\n"));
                }
                if let Some(t) = Self::bound_txt(iv.1, true) {
                    out.push_str(&format!("(assert (<= {name} {t}))\n"));
                }
            };
            match n {
                Node::True | Node::False | Node::Const(_) => {}
                Node::Big(b) => {
                    // decimal expansion of the f64
                    let x = f64::from_bits(b);
                    let s = format!("{:?}", x.abs());
                    let s = if s.contains('e') { format!("{:.400}", x.abs()) } else { s };
                    let s = s.trim_end_matches('0').to_string();
                    let s = if s.ends_with('.') { format!("{s}0") } else { s };
                    let s = if s.contains('.') { s } else { format!("{s}.0") };
                    let t = if x < 0. { format!("(- {s})") } else { s };
                    out.push_str(&format!("(define-fun n{i} () Real {t})\n"));
                }
                Node::Var(name) => {
                    out.push_str(&format!("(declare-const n{i} Real)\n"));
                    bounds(&mut out, &format!("n{i}"));
                    vars.push((name.split('@').next().unwrap().to_string(), i));
                }
                Node::Add(x, y) => out.push_str(&format!("(define-fun n{i} () Real (+ {} {}))\n", r(self, x), r(self, y))),
                Node::Mul(x, y) => out.push_str(&format!("(define-fun n{i} () Real (* {} {}))\n", r(self, x), r(self, y))),
                Node::Div(x, y) => out.push_str(&format!("(define-fun n{i} () Real (/ {} {}))\n", r(self, x), r(self, y))),
                Node::Ite(c, x, y) => out.push_str(&format!(
                    "(define-fun n{i} () Real (ite {} {} {}))\n",
                    r(self, c),
                    r(self, x),
                    r(self, y)
                )),
                Node::Sqrt(_) | Node::Root(..) => {
                    out.push_str(&format!("(declare-const n{i} Real)\n"));
                    out.push_str(&format!("(assert (>= n{i} 0.0))\n"));
                    if iv.0 > 0. {
                        if let Some(t) = Self::bound_txt(iv.0, false) {
                            out.push_str(&format!("(assert (<= {t} n{i}))\n"));
                        }
                    }
                }
                Node::Floor(x) => {
                    has_int = true;
                    out.push_str(&format!("(declare-const k{i} Int)\n(define-fun n{i} () Real (to_real k{i}))\n"));
                    let xx = r(self, x);
                    ax.push(format!("(assert (and (<= n{i} {xx}) (< {xx} (+ n{i} 1.0))))\n"));
                }
                Node::Fun(..) => {
                    out.push_str(&format!("(declare-const n{i} Real)\n"));
                    bounds(&mut out, &format!("n{i}"));
                }
                Node::Le(x, y) => out.push_str(&format!("(define-fun n{i} () Bool (<= {} {}))\n", r(self, x), r(self, y))),
                Node::Lt(x, y) => out.push_str(&format!("(define-fun n{i} () Bool (< {} {}))\n", r(self, x), r(self, y))),
                Node::Eq(x, y) => out.push_str(&format!("(define-fun n{i} () Bool (= {} {}))\n", r(self, x), r(self, y))),
                Node::Not(x) => out.push_str(&format!("(define-fun n{i} () Bool (not {}))\n", r(self, x))),
                Node::And(v) | Node::Or(v) => {
                    let op = if matches!(self.nodes[i as usize], Node::And(_)) { "and" } else { "or" };
                    let s: Vec<String> = v.iter().map(|x| r(self, *x)).collect();
                    out.push_str(&format!("(define-fun n{i} () Bool ({op} {}))\n", s.join(" ")));
                }
            }
        }
        for (i, n, d) in &sqrt_def {
            let (pow, num_pow) = match self.nodes[*i as usize] {
                Node::Root(_, p, q) => (q, p),
                _ => (2, 1),
            };
            let mut l: Vec<String> = (0..pow).map(|_| format!("n{i}")).collect();
            for _ in 0..num_pow {
                for x in d {
                    l.push(self.rf(*x));
                }
            }
            let rhs: Vec<String> = (0..num_pow).map(|_| self.rf(*n)).collect();
            let rhs = if rhs.len() == 1 { rhs[0].clone() } else { format!("(* {})", rhs.join(" ")) };
            ax.push(format!("(assert (= (* {}) {}))\n", l.join(" "), rhs));
        }
        for y in &nonzero {
            if self.as_f(*y).is_none() && done.contains(y) {
                let iv = self.iv[*y as usize];
                if iv.0 <= 0. && iv.1 >= 0. {
                    ax.push(format!("(assert (not (= {} 0.0)))\n", self.rf(*y)));
                }
            }
        }
        // axioms of transcendental functions
        let mut funs: BTreeMap<(Fun, Id), Vec<(Id, Id)>> = BTreeMap::new();
        for &i in &order {
            if let Node::Fun(f, x, y) = self.nodes[i as usize] {
                let key = if f == Fun::Pow { y } else { 0 };
                match f {
                    Fun::Sin => {
                        let c = self.map[&Node::Fun(Fun::Cos, x, y)];
                        ax.push(format!("(assert (= (+ (* n{i} n{i}) (* n{c} n{c})) 1.0))\n"));
                        let iv = self.iv[x as usize];
                        if iv.0 >= 0. {
                            ax.push(format!("(assert (<= n{i} {}))\n", self.rf(x)));
                        }
                    }
                    Fun::Atan2 => {
                        // t >= c  <=>  (x, y) is past the ray at the angle c
                        let (y, x) = (self.rf(x), self.rf(y));
                        for c in &self.atan_grid {
                            let side = format!("(>= (- (* {y} {}) (* {x} {})) 0.0)", Rat::from_f64(c.cos()).unwrap().smt(), Rat::from_f64(c.sin()).unwrap().smt());
                            let k = Rat::from_f64(*c).unwrap().smt();
                            let r = if *c > 0. { format!("(and (>= {y} 0.0) {side})") } else { format!("(not (and (< {y} 0.0) (not {side})))") };
                            ax.push(format!("(assert (= (>= n{i} {k}) {r}))\n"));
                        }
                        ax.push(format!("(assert (= (>= n{i} 0.0) (>= {y} 0.0)))\n"));
                    }
                    Fun::Exp => {
                        ax.push(format!("(assert (> n{i} 0.0))\n(assert (>= n{i} (+ 1.0 {})))\n", self.rf(x)));
                    }
                    Fun::Ln => {
                        ax.push(format!("(assert (<= n{i} (- {} 1.0)))\n", self.rf(x)));
                    }
                    Fun::Pow => {
                        ax.push(format!("(assert (=> (> {} 0.0) (> n{i} 0.0)))\n", self.rf(x)));
                        if let Some(e) = self.as_f(y) {
                            let (x, op, po) = (self.rf(x), if e > 0. { ">=" } else { "<=" }, if e > 0. { "<=" } else { ">=" });
                            ax.push(format!("(assert (=> (>= {x} 1.0) ({op} n{i} 1.0)))\n(assert (=> (and (> {x} 0.0) (<= {x} 1.0)) ({po} n{i} 1.0)))\n"));
                        }
                    }
                    _ => {}
                }
                funs.entry((f, key)).or_default().push((i, x));
            }
        }
        // where cos changes its sign
        if let Some(co) = funs.get(&(Fun::Cos, 0)) {
            for (c, x) in co {
                let iv = self.iv[*x as usize];
                if iv.0 >= -3.1415927 && iv.1 <= 3.1415927 && iv.1 > 1.57 {
                    let x = self.rf(*x);
                    let x = if iv.0 >= 0. { x } else { format!("(ite (>= {x} 0.0) {x} (- {x}))") };
                    let h = Rat::from_f64(std::f64::consts::FRAC_PI_2).unwrap().smt();
                    let e = Rat::from_f64(1e-15).unwrap().smt();
                    ax.push(format!("(assert (=> (>= {x} {h}) (and (<= n{c} {e}) (<= (- n{c}) (+ {e} (- {x} {h}))))))\n(assert (=> (<= {x} {h}) (and (>= n{c} (- {e})) (<= n{c} (+ {e} (- {h} {x}))))))\n"));
                }
            }
        }
        // cos is decreasing on [0, pi]: relate cos(x) to v = cos(acos(v))
        if let (Some(ac), Some(co)) = (funs.get(&(Fun::Acos, 0)).cloned(), funs.get(&(Fun::Cos, 0)).cloned()) {
            for (a, v) in &ac {
                for (c, x) in &co {
                    let iv = self.iv[*x as usize];
                    if iv.0 >= -3.1415927 && iv.1 <= 3.1415927 {
                        let (v, x) = (self.rf(*v), self.rf(*x));
                        let x = if iv.0 >= 0. { x } else { format!("(ite (>= {x} 0.0) {x} (- {x}))") };
                        ax.push(format!("(assert (=> (>= {x} n{a}) (and (<= n{c} {v}) (<= (- {v} n{c}) (- {x} n{a})))))\n(assert (=> (<= {x} n{a}) (and (>= n{c} {v}) (<= (- n{c} {v}) (- n{a} {x})))))\n"));
                    }
                }
            }
        }
        for ((f, key), v) in funs {
            let dir = match f {
                Fun::Exp | Fun::Ln | Fun::Asin | Fun::Atan => 1,
                Fun::Acos => -1,
                Fun::Pow => match self.as_f(key) {
                    Some(e) if e > 0. => 1,
                    Some(e) if e < 0. => -1,
                    _ => 0,
                },
                Fun::Cos => 2,
                Fun::Sin => 3,
                _ => 0,
            };
            if dir == 0 || v.len() > 12 {
                continue;
            }
            for a in 0..v.len() {
                for b in (a + 1)..v.len() {
                    let (mut d, (i, x), (j, y)) = (dir, v[a], v[b]);
                    if d == 2 || d == 3 {
                        // cos is decreasing on [0, pi], sin increasing on [-pi/2, pi/2]
                        let (lo, hi) = if d == 2 { (0., 3.1415926) } else { (-1.5707963, 1.5707963) };
                        let ok = |c: &Ctx, t: Id| c.iv[t as usize].0 >= lo && c.iv[t as usize].1 <= hi;
                        if !(ok(self, x) && ok(self, y)) {
                            continue;
                        }
                        d = if d == 2 { -1 } else { 1 };
                    }
                    let (p, q) = if d > 0 { (i, j) } else { (j, i) };
                    let (x, y) = (self.rf(x), self.rf(y));
                    ax.push(format!("(assert (=> (< {x} {y}) (< n{p} n{q})))\n(assert (=> (< {y} {x}) (< n{q} n{p})))\n(assert (=> (= {x} {y}) (= n{p} n{q})))\n"));
                }
            }
        }
        for a in ax {
            out.push_str(&a);
        }
        for a in &asserts {
            out.push_str(&format!("(assert {})\n", self.rf(*a)));
        }
        let logic = if has_int { "" } else { "(set-logic QF_NRA)\n" };
        let mut head = format!("{logic}");
        head.push_str(&out);
        let mut tail = String::from(";;CHECK\n");
        if !vars.is_empty() {
            let l: Vec<String> = vars.iter().map(|(_, i)| format!("n{i}")).collect();
            tail.push_str(&format!(";;VALUES ({})\n", l.join(" ")));
        }
        head.push_str(&tail);
        (head, vars.into_iter().map(|v| v.0).collect())
    }
    fn rf(&self, a: Id) -> String {
        match &self.nodes[a as usize] {
            Node::True => "true".into(),
            Node::False => "false".into(),
            Node::Const(r) => r.smt(),
            _ => format!("n{a}"),
        }
    }

    // ---------------------------------------------------------------- exploration
    pub fn feasible(&mut self, extra: Id) -> Verdict {
        if extra == Self::FALSE {
            return Verdict::Unsat;
        }
        // only the part of the path condition connected to `extra` can matter for a satisfiable pc
        let rel = self.relevant(extra);
        let mut key = rel.clone();
        key.push(extra);
        key.sort();
        if let Some(v) = self.feas_cache.get(&key) {
            return v.clone();
        }
        let mut asserts = rel;
        asserts.push(extra);
        if let Some(v) = self.quick_feasible(&asserts) {
            self.feas_cache.insert(key, v.clone());
            return v;
        }
        let (t, vars) = self.smt(&asserts, true);
        let t0 = std::time::Instant::now();
        let v = solver::run_one("z3", &t, self.feas_ms, &vars, true);
        if std::env::var("SYMREAL_TRACE").is_ok() {
            eprintln!("asked: {:?} in {} ms, {} conjuncts: {}", v, t0.elapsed().as_millis(), asserts.len(), self.show(extra, 6));
        }
        if let Verdict::Sat(Some(m)) = &v {
            let ids: Vec<Id> = t.lines().find(|l| l.starts_with(";;VALUES")).map(|l| l[8..].replace(['(', ')'], " ").split_whitespace().filter_map(|x| x[1..].parse().ok()).collect()).unwrap_or_default();
            if ids.len() == m.len() {
                self.know(ids.into_iter().zip(m.iter().cloned()).collect());
            }
        }
        self.stats.solver_ms += t0.elapsed().as_millis();
        self.stats.feas_queries += 1;
        if let Verdict::Unknown(ref w) = v {
            self.stats.feas_unknown += 1;
            if std::env::var("SYMREAL_TRACE").is_ok() {
                eprintln!("feasibility unknown ({w}) [{} nodes]", t.lines().count());
            }
            if let Ok(d) = std::env::var("SYMREAL_DUMP") {
                let _ = std::fs::write(format!("{d}/feas{}.smt2", self.stats.feas_queries), &t);
            }
        }
        self.feas_cache.insert(key, v.clone());
        v
    }
    /// conjuncts of the path condition transitively sharing variables with `extra`
    pub fn relevant(&mut self, extra: Id) -> Vec<Id> {
        let mut vs = self.vars_of(extra);
        let pc = self.pc.clone();
        let pcv: Vec<BTreeSet<Id>> = pc.iter().map(|c| self.vars_of(*c)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for k in 0..pc.len() {
                if !used[k] && !pcv[k].is_disjoint(&vs) {
                    used[k] = true;
                    vs.extend(pcv[k].iter().cloned());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        pc.iter().enumerate().filter(|(k, _)| used[*k]).map(|(_, c)| *c).collect()
    }
    pub fn push_pc(&mut self, c: Id) {
        if c != Self::TRUE && self.pcset.insert(c) {
            if let Node::And(v) = self.nodes[c as usize].clone() {
                for x in v {
                    self.push_pc(x);
                }
                return;
            }
            self.pc.push(c);
        }
    }
    /// decide a boolean: returns the side taken on this path
    pub fn fork(&mut self, c: Id) -> bool {
        if c == Self::TRUE {
            return true;
        }
        if c == Self::FALSE {
            return false;
        }
        if self.pcset.contains(&c) {
            return true;
        }
        let nc = self.not(c);
        if self.pcset.contains(&nc) {
            return false;
        }
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos];
            self.pos += 1;
            self.trail.push(d);
            match d {
                0 => self.push_pc(nc),
                1 => self.push_pc(c),
                2 => {
                    self.pcset.insert(nc);
                }
                _ => {
                    self.pcset.insert(c);
                }
            }
            return d & 1 == 1;
        }
        self.stats.forks += 1;
        self.pos += 1;
        let ft = self.feasible(c);
        if ft == Verdict::Unsat {
            self.trail.push(2);
            self.pcset.insert(nc);
            return false;
        }
        let ff = self.feasible(nc);
        if ff == Verdict::Unsat {
            self.trail.push(3);
            self.pcset.insert(c);
            return true;
        }
        if std::env::var("SYMREAL_TRACE").is_ok() {
            eprintln!("fork #{} on {}", self.trail.len(), self.show(c, 4));
        }
        let mut alt = self.trail.clone();
        alt.push(0);
        self.work.push(alt);
        self.trail.push(1);
        self.push_pc(c);
        true
    }
    pub fn choose(&mut self, name: &str, n: u32) -> u32 {
        let d = if self.pos < self.prefix.len() {
            self.prefix[self.pos] - 10
        } else {
            for k in (1..n).rev() {
                let mut alt = self.trail.clone();
                alt.push(10 + k);
                self.work.push(alt);
            }
            0
        };
        self.pos += 1;
        self.trail.push(10 + d);
        self.choices.insert(name.to_string(), d);
        d
    }
    pub fn show(&self, a: Id, depth: usize) -> String {
        if depth == 0 {
            return format!("#{a}");
        }
        let s = |x: &Id| self.show(*x, depth - 1);
        match &self.nodes[a as usize] {
            Node::True => "true".into(),
            Node::False => "false".into(),
            Node::Const(r) => format!("{}", r.f()),
            Node::Big(b) => format!("{:e}", f64::from_bits(*b)),
            Node::Var(n) => n.clone(),
            Node::Add(x, y) => format!("({} + {})", s(x), s(y)),
            Node::Mul(x, y) => format!("({} * {})", s(x), s(y)),
            Node::Div(x, y) => format!("({} / {})", s(x), s(y)),
            Node::Ite(c, x, y) => format!("({} ? {} : {})", s(c), s(x), s(y)),
            Node::Sqrt(x) => format!("sqrt({})", s(x)),
            Node::Root(x, p, q) => format!("root({},{p}/{q})", s(x)),
            Node::Floor(x) => format!("floor({})", s(x)),
            Node::Fun(f, x, y) => format!("{f:?}({},{})", s(x), s(y)),
            Node::Le(x, y) => format!("{} <= {}", s(x), s(y)),
            Node::Lt(x, y) => format!("{} < {}", s(x), s(y)),
            Node::Eq(x, y) => format!("{} == {}", s(x), s(y)),
            Node::Not(x) => format!("!({})", s(x)),
            Node::And(v) => format!("and{:?}", v),
            Node::Or(v) => format!("or{:?}", v),
        }
    }
    /// f64 evaluation of a node under an assignment (used to rank models only)
    pub fn start_path(&mut self, prefix: Vec<u32>) {
        self.prefix = prefix;
        self.pos = 0;
        self.trail.clear();
        self.pc.clear();
        self.pcset.clear();
        self.choices.clear();
        self.rand_count = 0;
        self.drop_div_zero = false;
        self.atan_grid.clear();
        self.drop_neg_sqrt = false;
    }
    pub fn vc(&mut self, cond: Id, label: &str, strong: Option<Id>) {
        self.stats.vcs += 1;
        self.labels.entry(label.to_string()).or_default().0 += 1;
        if cond == Self::TRUE || self.pcset.contains(&cond) {
            // nothing symbolic left: the two sides are the same term
            self.stats.vcs_trivial += 1;
            return;
        }
        let neg = self.not(cond);
        let rel = if neg == Self::TRUE { self.pc.clone() } else { self.relevant(neg) };
        let mut key = rel.clone();
        key.push(neg);
        key.sort();
        if self.vc_cache.contains_key(&key) {
            self.stats.vcs_cached += 1;
            return;
        }
        self.vc_cache.insert(key, ());
        // the whole path condition is used for models, the relevant part for the proof
        let mut q = rel;
        q.push(neg);
        let (t1, _) = self.smt(&q, true);
        let (t2, _) = self.smt(&q, false);
        let mut full = self.pc.clone();
        full.push(neg);
        let (t3, vars) = self.smt(&full, true);
        let mut texts = vec![("clear", t1.clone())];
        if t2 != t1 {
            texts.push(("plain", t2));
        }
        texts.push(("full", t3));
        let mut vars2 = vars;
        if let Some(s) = strong {
            let ns = self.not(s);
            let mut f2 = self.pc.clone();
            f2.push(ns);
            let (t4, v4) = self.smt(&f2, true);
            if v4 == vars2 {
                texts.push(("strong", t4));
            }
        }
        if vars2.is_empty() {
            vars2 = vec![];
        }
        let job = Job { label: label.to_string(), texts, vars: vars2, choices: self.choices.clone(), pathno: self.stats.paths };
        self.pool.as_ref().expect("no pool").submit(job);
    }
}

impl Ctx {
    /// hands the collected identical pairs to the solver as one query
    pub fn flush_same(&mut self) {
        if self.same.is_empty() {
            return;
        }
        let pairs = std::mem::take(&mut self.same);
        let roots: Vec<Id> = pairs.iter().flat_map(|p| [p.0, p.1]).collect();
        let (t, _) = self.smt_terms(&roots);
        let mut dis = vec![];
        for (a, b, tol) in &pairs {
            let k = Rat::from_f64(*tol).unwrap_or(Rat::ZERO).smt();
            dis.push(format!("(not (<= (- {} {}) {k})) (not (<= (- {} {}) {k}))", self.rf(*a), self.rf(*b), self.rf(*b), self.rf(*a)));
        }
        let text = format!("{t}(assert (or {}))\n;;CHECK\n", dis.join(" "));
        // what is known about the inputs is not needed for terms that are equal as polynomials
        let bare: String = t.lines().filter(|l| !l.starts_with("(assert")).map(|l| format!("{l}\n")).collect();
        let bare = format!("{bare}(assert (or {}))\n;;CHECK\n", dis.join(" "));
        let job = Job { label: "identical terms".into(), texts: vec![("clear", bare), ("plain", text.clone()), ("full", text)], vars: vec![], choices: self.choices.clone(), pathno: self.stats.paths };
        self.pool.as_ref().expect("no pool").submit(job);
    }
    fn smt_terms(&mut self, roots: &[Id]) -> (String, Vec<String>) {
        // definitions only
        let z = self.node(Node::Or(roots.to_vec()), (0., 1.));
        let (t, v) = self.smt(&[z], false);
        let t: String = t.lines().filter(|l| !l.starts_with(&format!("(define-fun n{z} ")) && *l != format!("(assert n{z})") && !l.starts_with(";;")).map(|l| format!("{l}\n")).collect();
        (t, v)
    }
}

/// (multipliers for 1, for 2, lcm)
fn lcm(d1: &[Id], d2: &[Id]) -> (Vec<Id>, Vec<Id>, Vec<Id>) {
    let mut rest2 = d2.to_vec();
    let mut m2 = vec![]; // factors of d1 missing in d2 -> multiply numerator 2
    for x in d1 {
        if let Some(k) = rest2.iter().position(|y| y == x) {
            rest2.swap_remove(k);
        } else {
            m2.push(*x);
        }
    }
    let m1 = rest2.clone();
    let mut l = d1.to_vec();
    l.extend(&m1);
    l.sort();
    (m1, m2, l)
}

/// bounds of cos over [a, b]
fn trig_iv(a: f64, b: f64) -> (f64, f64) {
    let two = 2. * std::f64::consts::PI;
    if !(b - a < two) || a.abs() > 1e6 || b.abs() > 1e6 {
        return (-1., 1.);
    }
    let mut lo = a.cos().min(b.cos());
    let mut hi = a.cos().max(b.cos());
    // contains 2k pi -> 1 ; contains (2k+1) pi -> -1   (with slack)
    let e = 1e-9;
    let k = ((a - e) / two).ceil();
    if k * two <= b + e {
        hi = 1.;
    }
    let k = ((a - e - std::f64::consts::PI) / two).ceil();
    if k * two + std::f64::consts::PI <= b + e {
        lo = -1.;
    }
    (lo, hi)
}
