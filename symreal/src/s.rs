//! The symbolic real number that replaces f64 in lifted code.
use crate::ctx::*;
use crate::rat::Rat;
use std::cmp::Ordering;

/// `C`: a constant as written in the program (or an infinity / NaN). `T`: a term of the arena.
#[derive(Clone, Copy)]
pub enum S {
    C(f64),
    T(Id),
}
pub use S::{C, T};

pub enum V {
    Id(Id),
    Spec(f64), // infinite or NaN
}

impl S {
    pub const MAX: S = S::C(f64::MAX);
    pub const MIN: S = S::C(f64::MIN);
    pub const EPSILON: S = S::C(f64::EPSILON);
    pub const INFINITY: S = S::C(f64::INFINITY);
    pub const NEG_INFINITY: S = S::C(f64::NEG_INFINITY);
    pub const NAN: S = S::C(f64::NAN);
    pub const MIN_POSITIVE: S = S::C(f64::MIN_POSITIVE);

    #[inline]
    pub const fn lit(x: f64) -> S {
        S::C(x)
    }
    const fn raw(self) -> f64 {
        match self {
            S::C(x) => x,
            S::T(_) => panic!("symbolic value in a constant"),
        }
    }
    pub const fn cadd(a: S, b: S) -> S {
        S::C(a.raw() + b.raw())
    }
    pub const fn csub(a: S, b: S) -> S {
        S::C(a.raw() - b.raw())
    }
    pub const fn cmul(a: S, b: S) -> S {
        S::C(a.raw() * b.raw())
    }
    pub const fn cdiv(a: S, b: S) -> S {
        S::C(a.raw() / b.raw())
    }
    pub const fn cneg(a: S) -> S {
        S::C(-a.raw())
    }
    pub const fn cint(a: i64) -> S {
        S::C(a as f64)
    }

    pub fn v(self) -> V {
        match self {
            C(x) if !x.is_finite() => V::Spec(x),
            C(x) => V::Id(with(|c| c.konst(x))),
            T(i) => V::Id(i),
        }
    }
    pub fn id(self) -> Option<Id> {
        match self.v() {
            V::Id(i) => Some(i),
            _ => None,
        }
    }
    /// f64 value if constant
    pub fn konst(self) -> Option<f64> {
        match self {
            C(x) => Some(x),
            T(i) => with(|c| c.as_f(i)),
        }
    }
    fn wrap(i: Id) -> S {
        T(i)
    }
    pub fn fork(c: Id) -> bool {
        with(|x| x.fork(c))
    }
    /// decides a >= b etc. on this path
    pub fn f_le(self, o: S) -> bool {
        match (self.v(), o.v()) {
            (V::Id(a), V::Id(b)) => with(|c| {
                let n = c.le(a, b);
                c.fork(n)
            }),
            (V::Spec(x), V::Spec(y)) => x <= y,
            (V::Spec(x), _) => x <= 0., // only the sign of the infinity matters (NaN: false)
            (_, V::Spec(y)) => 0. <= y,
        }
    }
    pub fn f_eq(self, o: S) -> bool {
        match (self.v(), o.v()) {
            (V::Id(a), V::Id(b)) => with(|c| {
                let n = c.eq(a, b);
                c.fork(n)
            }),
            (V::Spec(x), V::Spec(y)) => x == y,
            _ => false,
        }
    }
    pub fn is_nan(self) -> bool {
        matches!(self, C(x) if x.is_nan())
    }
    pub fn is_infinite(self) -> bool {
        matches!(self, C(x) if x.is_infinite())
    }
    pub fn is_finite(self) -> bool {
        !matches!(self, C(x) if !x.is_finite())
    }
    pub fn is_normal(self) -> bool {
        self.is_finite() && self != C(0.)
    }
    pub fn is_sign_negative(self) -> bool {
        match self.konst() {
            Some(x) => x.is_sign_negative(),
            None => self < C(0.),
        }
    }
    pub fn is_sign_positive(self) -> bool {
        match self.konst() {
            Some(x) => x.is_sign_positive(),
            None => self >= C(0.),
        }
    }
    fn sign(self) -> i32 {
        match self.konst() {
            Some(x) if x.is_nan() => 2,
            Some(x) => {
                if x > 0. {
                    1
                } else if x < 0. {
                    -1
                } else {
                    0
                }
            }
            None => {
                if self > C(0.) {
                    1
                } else if self == C(0.) {
                    0
                } else {
                    -1
                }
            }
        }
    }
    pub fn badd(self, o: S) -> S {
        match (self.v(), o.v()) {
            (V::Id(a), V::Id(b)) => S::wrap(with(|c| c.add(a, b))),
            (V::Spec(x), V::Spec(y)) => C(x + y),
            (V::Spec(x), _) | (_, V::Spec(x)) => C(x),
        }
    }
    pub fn bneg(self) -> S {
        match self {
            C(x) => C(-x),
            T(i) => S::wrap(with(|c| c.neg(i))),
        }
    }
    pub fn bsub(self, o: S) -> S {
        match (self.v(), o.v()) {
            (V::Id(a), V::Id(b)) => S::wrap(with(|c| c.sub(a, b))),
            _ => self.badd(o.bneg()),
        }
    }
    pub fn bmul(self, o: S) -> S {
        match (self.v(), o.v()) {
            (V::Id(a), V::Id(b)) => S::wrap(with(|c| c.mul(a, b))),
            (V::Spec(x), V::Spec(y)) => C(x * y),
            (V::Spec(x), _) => C(x * o.sign() as f64),
            (_, V::Spec(x)) => C(x * self.sign() as f64),
        }
    }
    pub fn bdiv(self, o: S) -> S {
        match (self.v(), o.v()) {
            (V::Id(a), V::Id(b)) => {
                if let Some(y) = with(|c| c.as_f(b)) {
                    if y == 0. {
                        return C(self.sign() as f64 / 0.);
                    }
                } else {
                    let z = with(|c| {
                        let e = c.eq(b, Ctx::ZERO);
                        if c.drop_div_zero {
                            if e != Ctx::FALSE {
                                let n = c.not(e);
                                if !c.pcset.contains(&n) {
                                    c.stats.div_dropped += 1;
                                    c.push_pc(n);
                                }
                            }
                            false
                        } else {
                            c.fork(e)
                        }
                    });
                    if z {
                        return C(self.sign() as f64 / 0.);
                    }
                }
                S::wrap(with(|c| c.div(a, b)))
            }
            (V::Spec(x), V::Spec(y)) => C(x / y),
            (V::Spec(x), _) => {
                let s = o.sign();
                C(if s == 0 { x } else { x * s as f64 })
            }
            (_, V::Spec(y)) => C(if y.is_nan() { y } else { 0. }),
        }
    }
    pub fn brem(self, o: S) -> S {
        if let (Some(x), Some(y)) = (self.konst(), o.konst()) {
            if let (Some(p), Some(q)) = (self.rat(), o.rat()) {
                if q.n != 0 {
                    // exact remainder
                    if let Some(d) = q.inv().and_then(|i| p.mul(i)) {
                        let t = d.n / d.d;
                        if let Some(r) = q.mul(Rat::int(-t)).and_then(|m| p.add(m)) {
                            return S::wrap(with(|c| c.rat(r)));
                        }
                    }
                }
            }
            return C(x % y);
        }
        if !self.is_finite() || o.is_nan() {
            return C(f64::NAN);
        }
        if !o.is_finite() {
            return self;
        }
        let q = (self / o).trunc();
        if !q.is_finite() {
            return C(f64::NAN);
        }
        self - o * q
    }
    fn rat(self) -> Option<Rat> {
        self.id().and_then(|i| with(|c| c.as_rat(i)))
    }

    pub fn sqrt(self) -> S {
        match self.v() {
            V::Spec(x) => C(x.sqrt()),
            V::Id(a) => {
                if let Some(f) = with(|c| c.as_f(a)) {
                    if f < 0. {
                        return C(f64::NAN);
                    }
                } else {
                    let neg = with(|c| {
                        let e = c.lt(a, Ctx::ZERO);
                        if c.drop_neg_sqrt {
                            let n = c.not(e);
                            c.push_pc(n);
                            false
                        } else {
                            c.fork(e)
                        }
                    });
                    if neg {
                        return C(f64::NAN);
                    }
                }
                S::wrap(with(|c| c.sqrt(a)))
            }
        }
    }
    pub fn cbrt(self) -> S {
        if let Some(x) = self.konst() {
            return C(x.cbrt());
        }
        if self < C(0.) {
            return -((-self).cbrt());
        }
        S::wrap(with(|c| c.root(self.id().unwrap(), 1, 3)))
    }
    pub fn abs(self) -> S {
        match self {
            C(x) => C(x.abs()),
            T(a) => S::wrap(with(|c| c.abs(a))),
        }
    }
    pub fn max(self, o: S) -> S {
        match (self.v(), o.v()) {
            (V::Id(a), V::Id(b)) => S::wrap(with(|c| {
                let n = c.le(a, b);
                c.ite(n, b, a)
            })),
            (V::Spec(x), V::Spec(y)) => C(x.max(y)),
            (V::Spec(x), _) => {
                if x > 0. {
                    self
                } else {
                    o
                }
            }
            (_, V::Spec(x)) => {
                if x > 0. {
                    o
                } else {
                    self
                }
            }
        }
    }
    pub fn min(self, o: S) -> S {
        match (self.v(), o.v()) {
            (V::Id(a), V::Id(b)) => S::wrap(with(|c| {
                let n = c.le(a, b);
                c.ite(n, a, b)
            })),
            (V::Spec(x), V::Spec(y)) => C(x.min(y)),
            (V::Spec(x), _) => {
                if x < 0. {
                    self
                } else {
                    o
                }
            }
            (_, V::Spec(x)) => {
                if x < 0. {
                    o
                } else {
                    self
                }
            }
        }
    }
    pub fn clamp(self, lo: S, hi: S) -> S {
        if self.is_nan() {
            return self;
        }
        self.max(lo).min(hi)
    }
    pub fn powi(self, n: i32) -> S {
        if n < 0 {
            return C(1.) / self.powi(-n);
        }
        let mut r = C(1.);
        let mut k = n;
        let mut b = self;
        while k > 0 {
            if k & 1 == 1 {
                r = r * b;
            }
            k >>= 1;
            if k > 0 {
                b = b * b;
            }
        }
        r
    }
    pub fn powf(self, e: S) -> S {
        if let (Some(x), Some(y)) = (self.konst(), e.konst()) {
            return C(x.powf(y));
        }
        if let Some(y) = e.konst() {
            if y == y.trunc() && y.abs() < 64. {
                return self.powi(y as i32);
            }
            // x < 0 -> NaN ; x == 0
            if self < C(0.) {
                return C(f64::NAN);
            }
            if self == C(0.) {
                return C(if y > 0. { 0. } else { f64::INFINITY });
            }
            let (a, r) = (self.id().unwrap(), e.rat());
            if let Some(r) = r {
                if r.d <= 6 && r.n.abs() <= 12 {
                    let t = S::wrap(with(|c| c.root(a, r.n.unsigned_abs() as u32, r.d as u32)));
                    return if r.n < 0 { C(1.) / t } else { t };
                }
            }
            // x = 1/x' with negative exponent: use the positive one
            return S::wrap(with(|c| {
                let k = c.konst(y);
                c.fun(Fun::Pow, a, k)
            }));
        }
        if self < C(0.) {
            return C(f64::NAN);
        }
        match (self.v(), e.v()) {
            (V::Id(a), V::Id(b)) => S::wrap(with(|c| c.fun(Fun::Pow, a, b))),
            _ => unsupported("powf of a non-finite value"),
        }
    }
    fn fun1(self, f: Fun, g: fn(f64) -> f64) -> S {
        match self.konst() {
            Some(x) => C(g(x)),
            None => {
                let a = self.id().unwrap();
                S::wrap(with(|c| c.fun(f, a, Ctx::ZERO)))
            }
        }
    }
    pub fn exp(self) -> S {
        self.fun1(Fun::Exp, f64::exp)
    }
    pub fn ln(self) -> S {
        if self.konst().is_none() {
            if self < C(0.) {
                return C(f64::NAN);
            }
            if self == C(0.) {
                return C(f64::NEG_INFINITY);
            }
            if let T(i) = self {
                if let Node::Fun(Fun::Exp, x, _) = with(|c| c.nodes[i as usize].clone()) {
                    return T(x);
                }
            }
        }
        self.fun1(Fun::Ln, f64::ln)
    }
    pub fn log10(self) -> S {
        match self.konst() {
            Some(x) => C(x.log10()),
            None => self.ln() / C(std::f64::consts::LN_10),
        }
    }
    pub fn log2(self) -> S {
        match self.konst() {
            Some(x) => C(x.log2()),
            None => self.ln() / C(std::f64::consts::LN_2),
        }
    }
    pub fn log(self, b: S) -> S {
        self.ln() / b.ln()
    }
    pub fn exp2(self) -> S {
        // 2^(log2(v) + k) = v * 2^k
        if let T(i) = self {
            let (mut base, mut k) = (i, 0.0);
            loop {
                let n = with(|c| c.nodes[base as usize].clone());
                if let Node::Add(a, b) = n {
                    match (T(a).konst(), T(b).konst()) {
                        (_, Some(x)) => {
                            k += x;
                            base = a;
                            continue;
                        }
                        (Some(x), _) => {
                            k += x;
                            base = b;
                            continue;
                        }
                        _ => {}
                    }
                }
                break;
            }
            let is = |i: Id| (T(i).konst() == Some(std::f64::consts::LN_2), with(|c| c.nodes[i as usize].clone()));
            let v = match with(|c| c.nodes[base as usize].clone()) {
                Node::Div(a, b) => match (is(a), is(b)) {
                    ((_, Node::Fun(Fun::Ln, v, _)), (true, _)) => Some(v),
                    _ => None,
                },
                Node::Mul(a, b) => {
                    let inv = |i: Id| T(i).konst().map_or(false, |x| (x * std::f64::consts::LN_2 - 1.).abs() < 1e-15);
                    match (with(|c| c.nodes[a as usize].clone()), with(|c| c.nodes[b as usize].clone())) {
                        (Node::Fun(Fun::Ln, v, _), _) if inv(b) => Some(v),
                        (_, Node::Fun(Fun::Ln, v, _)) if inv(a) => Some(v),
                        _ => None,
                    }
                }
                _ => None,
            };
            if let Some(v) = v {
                return T(v) * C(k.exp2());
            }
        }
        C(2.).powf(self)
    }
    pub fn ln_1p(self) -> S {
        (self + C(1.)).ln()
    }
    pub fn exp_m1(self) -> S {
        self.exp() - C(1.)
    }
    /// if the argument is -|k| * t, returns (true, |k| * t)
    fn flip(self) -> (bool, S) {
        if let T(i) = self {
            let neg = with(|c| match &c.nodes[i as usize] {
                Node::Mul(k, _) => c.as_f(*k).map(|f| f < 0.).unwrap_or(false),
                Node::Add(a, b) => {
                    let f = |x: Id| match &c.nodes[x as usize] {
                        Node::Mul(k, _) => c.as_f(*k).map(|f| f < 0.).unwrap_or(false),
                        _ => c.as_f(x).map(|f| f < 0.).unwrap_or(false),
                    };
                    f(*a) && f(*b)
                }
                _ => false,
            });
            if neg {
                return (true, -self);
            }
        }
        (false, self)
    }
    pub fn sin(self) -> S {
        if self.konst().is_none() {
            let (f, x) = self.flip();
            if let T(i) = x {
                let n = with(|c| c.nodes[i as usize].clone());
                let r = match n {
                    Node::Fun(Fun::Asin, a, _) => Some(T(a)),
                    Node::Fun(Fun::Acos, a, _) => Some((C(1.) - T(a) * T(a)).sqrt()),
                    Node::Fun(Fun::Atan, a, _) => Some(T(a) / (C(1.) + T(a) * T(a)).sqrt()),
                    Node::Fun(Fun::Atan2, y, x) => Some(T(y) / (T(y) * T(y) + T(x) * T(x)).sqrt()),
                    _ => None,
                };
                let r = r.unwrap_or_else(|| x.fun1(Fun::Sin, f64::sin));
                return if f { -r } else { r };
            }
        }
        self.fun1(Fun::Sin, f64::sin)
    }
    pub fn cos(self) -> S {
        if self.konst().is_none() {
            let (_, x) = self.flip();
            if let T(i) = x {
                let n = with(|c| c.nodes[i as usize].clone());
                let r = match n {
                    Node::Fun(Fun::Acos, a, _) => Some(T(a)),
                    Node::Fun(Fun::Asin, a, _) => Some((C(1.) - T(a) * T(a)).sqrt()),
                    Node::Fun(Fun::Atan, a, _) => Some(C(1.) / (C(1.) + T(a) * T(a)).sqrt()),
                    Node::Fun(Fun::Atan2, y, x) => Some(T(x) / (T(y) * T(y) + T(x) * T(x)).sqrt()),
                    _ => None,
                };
                return r.unwrap_or_else(|| x.fun1(Fun::Cos, f64::cos));
            }
        }
        self.fun1(Fun::Cos, f64::cos)
    }
    pub fn tan(self) -> S {
        match self.konst() {
            Some(x) => C(x.tan()),
            None => self.sin() / self.cos(),
        }
    }
    pub fn sin_cos(self) -> (S, S) {
        (self.sin(), self.cos())
    }
    pub fn asin(self) -> S {
        if self.konst().is_none() && (self < C(-1.) || self > C(1.)) {
            return C(f64::NAN);
        }
        self.fun1(Fun::Asin, f64::asin)
    }
    pub fn acos(self) -> S {
        if self.konst().is_none() && (self < C(-1.) || self > C(1.)) {
            return C(f64::NAN);
        }
        self.fun1(Fun::Acos, f64::acos)
    }
    pub fn atan(self) -> S {
        self.fun1(Fun::Atan, f64::atan)
    }
    pub fn atan2(self, x: S) -> S {
        if let (Some(a), Some(b)) = (self.konst(), x.konst()) {
            return C(a.atan2(b));
        }
        match (self.v(), x.v()) {
            (V::Id(a), V::Id(b)) => {
                if self == C(0.) && x == C(0.) {
                    return C(0.);
                }
                S::wrap(with(|c| c.fun(Fun::Atan2, a, b)))
            }
            _ => unsupported("atan2 of a non-finite value"),
        }
    }
    pub fn sinh(self) -> S {
        (self.exp() - (-self).exp()) / C(2.)
    }
    pub fn cosh(self) -> S {
        (self.exp() + (-self).exp()) / C(2.)
    }
    pub fn tanh(self) -> S {
        let e = (self * C(2.)).exp();
        (e - C(1.)) / (e + C(1.))
    }
    pub fn to_radians(self) -> S {
        self * C(std::f64::consts::PI / 180.)
    }
    pub fn to_degrees(self) -> S {
        self * C(180. / std::f64::consts::PI)
    }
    pub fn recip(self) -> S {
        C(1.) / self
    }
    pub fn hypot(self, o: S) -> S {
        (self * self + o * o).sqrt()
    }
    pub fn mul_add(self, a: S, b: S) -> S {
        self * a + b
    }
    pub fn signum(self) -> S {
        match self.konst() {
            Some(x) => C(x.signum()),
            None => {
                if self >= C(0.) {
                    C(1.)
                } else {
                    C(-1.)
                }
            }
        }
    }
    pub fn copysign(self, s: S) -> S {
        if s.is_sign_negative() {
            -self.abs()
        } else {
            self.abs()
        }
    }
    /// floor as an i128 by case split
    fn floor_fork(self, lo: i128, hi: i128) -> i128 {
        let (mut lo, mut hi) = (lo, hi);
        while lo < hi {
            let mid = lo + (hi - lo).div_euclid(2);
            if self < C((mid + 1) as f64) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        lo
    }
    pub fn floor(self) -> S {
        if let Some(r) = self.rat() {
            return C(r.n.div_euclid(r.d) as f64);
        }
        if let Some(x) = self.konst() {
            return C(x.floor());
        }
        let a = self.id().unwrap();
        let (lo, hi) = with(|c| c.interval(a));
        let w = with(|c| c.enum_width);
        if hi - lo <= w {
            return C(self.floor_fork(lo.floor() as i128, hi.floor() as i128) as f64);
        }
        S::wrap(with(|c| c.floor(a)))
    }
    pub fn ceil(self) -> S {
        -((-self).floor())
    }
    pub fn trunc(self) -> S {
        if let Some(x) = self.konst() {
            return C(x.trunc());
        }
        if self >= C(0.) {
            self.floor()
        } else {
            self.ceil()
        }
    }
    pub fn round(self) -> S {
        if let Some(x) = self.konst() {
            return C(x.round());
        }
        if self >= C(0.) {
            (self + C(0.5)).floor()
        } else {
            -((-self + C(0.5)).floor())
        }
    }
    pub fn fract(self) -> S {
        self - self.trunc()
    }
    pub fn rem_euclid(self, m: S) -> S {
        let r = self % m;
        if r < C(0.) {
            r + m.abs()
        } else {
            r
        }
    }
    pub fn div_euclid(self, m: S) -> S {
        (self - self.rem_euclid(m)) / m
    }
    pub fn total_cmp(&self, o: &S) -> Ordering {
        self.partial_cmp(o).unwrap_or(Ordering::Equal)
    }
    pub fn to_bits(self) -> SBits {
        SBits(self, 0)
    }
    pub fn from_bits(b: SBits) -> S {
        b.0
    }
    /// truncation towards zero, saturated to [min, max]
    pub fn to_int(self, min: i128, max: i128) -> i128 {
        if let Some(r) = self.rat() {
            return (r.n / r.d).clamp(min, max);
        }
        if let Some(x) = self.konst() {
            if x.is_nan() {
                return 0;
            }
            if x >= max as f64 {
                return max;
            }
            if x <= min as f64 {
                return min;
            }
            return x as i128;
        }
        let a = self.id().unwrap();
        let (lo, hi) = with(|c| c.interval(a));
        if hi < 1. && min >= 0 {
            return 0;
        }
        if lo < 0. && self < C(0.) {
            if min >= 0 {
                return 0;
            }
            return -(-self).to_int(0, -(min + 1)).clamp(0, i128::MAX);
        }
        let l = lo.max(0.).floor();
        let mut h = hi.floor().min(max as f64);
        if !(h - l <= 20000.) {
            // the interval tells nothing: the path condition may
            h = l + 1.;
            while !(self < C(h)) {
                h = l + 2. * (h - l);
                if h - l > 20000. {
                    unsupported::<()>("cast of a symbolic value with an unbounded range to an integer");
                }
            }
            h -= 1.;
        }
        let v = self.floor_fork(l as i128, h as i128);
        v.clamp(min, max)
    }
}

pub fn unsupported<R>(s: &str) -> R {
    std::panic::panic_any(Unsupported(s.to_string()))
}

/// bits of a symbolic number: stepping to neighbouring floats is the identity on reals
#[derive(Clone, Copy)]
pub struct SBits(pub S, pub i64);
impl PartialEq<u64> for SBits {
    fn eq(&self, o: &u64) -> bool {
        match self.0.konst() {
            Some(x) => x.to_bits() == *o,
            None => false,
        }
    }
}
impl std::ops::AddAssign<i64> for SBits {
    fn add_assign(&mut self, _: i64) {}
}
impl std::ops::SubAssign<i64> for SBits {
    fn sub_assign(&mut self, _: i64) {}
}
impl std::ops::Add<i64> for SBits {
    type Output = SBits;
    fn add(self, _: i64) -> SBits {
        self
    }
}
impl std::ops::Sub<i64> for SBits {
    type Output = SBits;
    fn sub(self, _: i64) -> SBits {
        self
    }
}

macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $m:ident) => {
        impl std::ops::$tr<S> for S {
            type Output = S;
            fn $f(self, o: S) -> S {
                self.$m(o)
            }
        }
        impl<'a> std::ops::$tr<&'a S> for S {
            type Output = S;
            fn $f(self, o: &'a S) -> S {
                self.$m(*o)
            }
        }
        impl<'a> std::ops::$tr<S> for &'a S {
            type Output = S;
            fn $f(self, o: S) -> S {
                (*self).$m(o)
            }
        }
        impl<'a, 'b> std::ops::$tr<&'a S> for &'b S {
            type Output = S;
            fn $f(self, o: &'a S) -> S {
                (*self).$m(*o)
            }
        }
        impl std::ops::$tra<S> for S {
            fn $fa(&mut self, o: S) {
                *self = self.$m(o)
            }
        }
        impl<'a> std::ops::$tra<&'a S> for S {
            fn $fa(&mut self, o: &'a S) {
                *self = self.$m(*o)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, badd);
bin!(Sub, sub, SubAssign, sub_assign, bsub);
bin!(Mul, mul, MulAssign, mul_assign, bmul);
bin!(Div, div, DivAssign, div_assign, bdiv);
bin!(Rem, rem, RemAssign, rem_assign, brem);
impl std::ops::Neg for S {
    type Output = S;
    fn neg(self) -> S {
        self.bneg()
    }
}
impl<'a> std::ops::Neg for &'a S {
    type Output = S;
    fn neg(self) -> S {
        self.bneg()
    }
}
impl std::iter::Sum<S> for S {
    fn sum<I: Iterator<Item = S>>(it: I) -> S {
        it.fold(C(0.), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a S> for S {
    fn sum<I: Iterator<Item = &'a S>>(it: I) -> S {
        it.fold(C(0.), |a, b| a + *b)
    }
}
impl std::iter::Product<S> for S {
    fn product<I: Iterator<Item = S>>(it: I) -> S {
        it.fold(C(1.), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a S> for S {
    fn product<I: Iterator<Item = &'a S>>(it: I) -> S {
        it.fold(C(1.), |a, b| a * *b)
    }
}
impl PartialEq for S {
    fn eq(&self, o: &S) -> bool {
        self.f_eq(*o)
    }
}
impl PartialOrd for S {
    fn partial_cmp(&self, o: &S) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() {
            return None;
        }
        if !self.f_le(*o) {
            return Some(Ordering::Greater);
        }
        if self.f_eq(*o) {
            return Some(Ordering::Equal);
        }
        Some(Ordering::Less)
    }
    fn lt(&self, o: &S) -> bool {
        if self.is_nan() || o.is_nan() {
            return false;
        }
        !o.f_le(*self)
    }
    fn le(&self, o: &S) -> bool {
        self.f_le(*o)
    }
    fn gt(&self, o: &S) -> bool {
        if self.is_nan() || o.is_nan() {
            return false;
        }
        !self.f_le(*o)
    }
    fn ge(&self, o: &S) -> bool {
        o.f_le(*self)
    }
}
impl Default for S {
    fn default() -> S {
        C(0.)
    }
}
macro_rules! fmt {
    ($t:ident) => {
        impl std::fmt::$t for S {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                match self.konst() {
                    Some(x) => std::fmt::$t::fmt(&x, f),
                    None => match self {
                        T(i) => write!(f, "<{}>", CTX.with(|c| c.try_borrow().map(|c| c.show(*i, 5)).unwrap_or_default())),
                        _ => unreachable!(),
                    },
                }
            }
        }
    };
}
impl std::fmt::Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match (self.konst(), self.id()) {
            // whatever the precision asked for: rounding the text is floating-point detail
            (None, Some(i)) => write!(f, "{}", encode(i)),
            (x, _) => std::fmt::Display::fmt(&x.unwrap_or(f64::NAN), f),
        }
    }
}
fmt!(Debug);
fmt!(LowerExp);
fmt!(UpperExp);
/// A symbolic number on its way through text (files, JSON) or f64: a number that no computation is likely to produce
const TAG: u64 = 0x3F2A_5A5A;
pub fn encode(id: Id) -> f64 {
    assert!((id as u64) < 1 << 26);
    f64::from_bits(TAG << 32 | (id as u64) << 6 | 0x20)
}
pub fn decode(x: f64) -> S {
    let b = x.to_bits();
    if b >> 32 == TAG {
        T(((b & 0xffff_ffff) >> 6) as Id)
    } else {
        C(x)
    }
}
impl std::str::FromStr for S {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<S, Self::Err> {
        Ok(decode(s.parse::<f64>()?))
    }
}
impl serde::Serialize for S {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match (self.konst(), self.id()) {
            (Some(x), _) => z.serialize_f64(x),
            // the text of a symbolic number
            (None, Some(i)) => z.serialize_f64(encode(i)),
            _ => z.serialize_f64(f64::NAN),
        }
    }
}
impl<'de> serde::Deserialize<'de> for S {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<S, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = S;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "a number")
            }
            fn visit_f64<E>(self, x: f64) -> Result<S, E> {
                Ok(decode(x))
            }
            fn visit_i64<E>(self, x: i64) -> Result<S, E> {
                Ok(C(x as f64))
            }
            fn visit_u64<E>(self, x: u64) -> Result<S, E> {
                Ok(C(x as f64))
            }
        }
        d.deserialize_f64(V)
    }
}
impl rand::distributions::Distribution<S> for rand::distributions::Standard {
    fn sample<R: rand::Rng + ?Sized>(&self, _: &mut R) -> S {
        with(|c| {
            let n = format!("rand{}", c.rand_count);
            c.rand_count += 1;
            let v = c.var(&n, 0., 1.);
            let l = c.lt(v, Ctx::ONE);
            c.push_pc(l);
            T(v)
        })
    }
}
macro_rules! from {
    ($($t:ty),*) => { $( impl From<$t> for S { fn from(x: $t) -> S { C(x as f64) } } )* };
}
from!(i8, i16, i32, u8, u16, u32, f32);
impl From<f64> for S {
    fn from(x: f64) -> S {
        decode(x)
    }
}

/// numeric casts
pub trait SymAs<T> {
    fn sym_as(self) -> T;
}
#[inline]
pub fn sym_as<A: SymAs<B>, B>(a: A) -> B {
    a.sym_as()
}
macro_rules! casts {
    ($a:ty => $($b:ty),*) => { $( impl SymAs<$b> for $a { #[inline] fn sym_as(self) -> $b { self as $b } } )* };
}
macro_rules! int_casts {
    ($($a:ty),*) => { $(
        casts!($a => u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f64, f32);
        impl SymAs<S> for $a { #[inline] fn sym_as(self) -> S { C(self as f64) } }
        impl<'a> SymAs<$a> for &'a S { fn sym_as(self) -> $a { (*self).to_int(<$a>::MIN as i128, <$a>::MAX as i128) as $a } }
        impl SymAs<$a> for S { fn sym_as(self) -> $a { self.to_int(<$a>::MIN as i128, <$a>::MAX as i128) as $a } }
    )* };
}
int_casts!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
casts!(bool => u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
casts!(char => u8, u16, u32, u64, usize, i32, i64);
casts!(f64 => f64, f32);
casts!(f32 => f64, f32);
impl SymAs<S> for S {
    #[inline]
    fn sym_as(self) -> S {
        self
    }
}
impl SymAs<S> for f32 {
    fn sym_as(self) -> S {
        C(self as f64)
    }
}
impl SymAs<S> for f64 {
    fn sym_as(self) -> S {
        decode(self)
    }
}
#[macro_export]
macro_rules! enum_as {
    ($id:ident) => {
        impl $crate::SymAs<u8> for $id { fn sym_as(self) -> u8 { self as u8 } }
        impl $crate::SymAs<usize> for $id { fn sym_as(self) -> usize { self as usize } }
        impl $crate::SymAs<u32> for $id { fn sym_as(self) -> u32 { self as u32 } }
        impl $crate::SymAs<i32> for $id { fn sym_as(self) -> i32 { self as i32 } }
        impl $crate::SymAs<u64> for $id { fn sym_as(self) -> u64 { self as u64 } }
        impl $crate::SymAs<i64> for $id { fn sym_as(self) -> i64 { self as i64 } }
    };
}
