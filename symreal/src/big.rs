//! small exact fractions of any size (no gcd: only as large as `LIMIT` words)
use crate::rat::Rat;
use std::cmp::Ordering;

const LIMIT: usize = 96; // 32-bit words

#[derive(Clone, Debug, PartialEq)]
struct Nat(Vec<u32>); // little endian, no leading zeros
impl Nat {
    fn of(mut x: u128) -> Nat {
        let mut v = vec![];
        while x > 0 {
            v.push(x as u32);
            x >>= 32;
        }
        Nat(v)
    }
    fn trim(mut v: Vec<u32>) -> Nat {
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }
    fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    fn add(&self, o: &Nat) -> Nat {
        let mut v = vec![];
        let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            let s = c + *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(s as u32);
            c = s >> 32;
        }
        v.push(c as u32);
        Nat::trim(v)
    }
    /// self >= o
    fn sub(&self, o: &Nat) -> Nat {
        let mut v = vec![];
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = 1;
            }
            v.push(d as u32);
        }
        Nat::trim(v)
    }
    fn mul(&self, o: &Nat) -> Option<Nat> {
        if self.0.len() + o.0.len() > LIMIT {
            return None;
        }
        let mut v = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                let s = v[i + j] as u64 + *a as u64 * *b as u64 + c;
                v[i + j] = s as u32;
                c = s >> 32;
            }
            let mut k = i + o.0.len();
            while c > 0 {
                let s = v[k] as u64 + c;
                v[k] = s as u32;
                c = s >> 32;
                k += 1;
            }
        }
        Some(Nat::trim(v))
    }
    fn f(&self) -> (f64, i32) {
        // mantissa of the top words, and the binary exponent
        let n = self.0.len();
        let mut m = 0f64;
        for k in (n.saturating_sub(3)..n).rev() {
            m = m * 4294967296. + self.0[k] as f64;
        }
        (m, 32 * n.saturating_sub(3) as i32)
    }
}
#[derive(Clone, Debug)]
pub struct Frac {
    neg: bool,
    n: Nat,
    d: Nat,
}
impl Frac {
    pub fn of(r: Rat) -> Frac {
        Frac { neg: r.n < 0, n: Nat::of(r.n.unsigned_abs()), d: Nat::of(r.d.unsigned_abs()) }
    }
    pub fn from_f64(x: f64) -> Option<Frac> {
        Rat::from_f64(x).map(Frac::of)
    }
    pub fn zero() -> Frac {
        Frac::of(Rat::ZERO)
    }
    pub fn is_zero(&self) -> bool {
        self.n.0.is_empty()
    }
    /// -1, 0, 1
    pub fn sign(&self) -> i32 {
        if self.is_zero() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Frac {
        Frac { neg: !self.neg && !self.is_zero(), ..self.clone() }
    }
    pub fn inv(&self) -> Option<Frac> {
        if self.is_zero() {
            return None;
        }
        Some(Frac { neg: self.neg, n: self.d.clone(), d: self.n.clone() })
    }
    pub fn mul(&self, o: &Frac) -> Option<Frac> {
        let n = self.n.mul(&o.n)?;
        if n.0.is_empty() {
            return Some(Frac::zero());
        }
        Some(Frac { neg: self.neg != o.neg, n, d: self.d.mul(&o.d)? })
    }
    pub fn add(&self, o: &Frac) -> Option<Frac> {
        if self.is_zero() {
            return Some(o.clone());
        }
        if o.is_zero() {
            return Some(self.clone());
        }
        let (a, b, d) = if self.d == o.d {
            (self.n.clone(), o.n.clone(), self.d.clone())
        } else {
            (self.n.mul(&o.d)?, o.n.mul(&self.d)?, self.d.mul(&o.d)?)
        };
        if self.neg == o.neg {
            return Some(Frac { neg: self.neg, n: a.add(&b), d });
        }
        Some(match a.cmp(&b) {
            Ordering::Equal => Frac::zero(),
            Ordering::Greater => Frac { neg: self.neg, n: a.sub(&b), d },
            Ordering::Less => Frac { neg: o.neg, n: b.sub(&a), d },
        })
    }
    pub fn cmp(&self, o: &Frac) -> Option<Ordering> {
        Some(match self.add(&o.neg())?.sign() {
            -1 => Ordering::Less,
            0 => Ordering::Equal,
            _ => Ordering::Greater,
        })
    }
    pub fn f(&self) -> f64 {
        let (a, i) = self.n.f();
        let (b, j) = self.d.f();
        let x = a / b * 2f64.powi(i - j);
        if self.neg {
            -x
        } else {
            x
        }
    }
}
#[test]
fn fractions() {
    let mut s = 12345u64;
    let mut r = || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((s >> 33) as i64 % 2000001 - 1000000) as i128
    };
    for _ in 0..2000 {
        let (a, b, c, d) = (r(), r().abs() + 1, r(), r().abs() + 1);
        let (p, q) = (Rat::new(a, b).unwrap(), Rat::new(c, d).unwrap());
        let (x, y) = (Frac::of(p), Frac::of(q));
        let same = |u: Frac, v: Rat| assert!(u.add(&Frac::of(v).neg()).unwrap().is_zero());
        same(x.add(&y).unwrap(), p.add(q).unwrap());
        same(x.mul(&y).unwrap(), p.mul(q).unwrap());
        assert_eq!(x.cmp(&y).unwrap(), p.cmp(q));
        assert!((x.f() - p.f()).abs() <= 1e-15 * p.f().abs());
        let z = x.mul(&y).unwrap().mul(&x).unwrap().add(&y).unwrap().mul(&y).unwrap();
        let g = (p.f() * q.f() * p.f() + q.f()) * q.f();
        assert!((z.f() - g).abs() <= 1e-12 * (1. + g.abs() + (q.f() * q.f()).abs()));
    }
}
