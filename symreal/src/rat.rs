//! exact rationals on i128; None on overflow
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
pub fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
const LIM: i128 = 1i128 << 124;
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 || n.checked_abs()? > LIM || d.checked_abs()? > LIM {
            return None;
        }
        let g = gcd(n, d).max(1);
        let (n, d) = (n / g, d / g);
        Some(if d < 0 { Rat { n: -n, d: -d } } else { Rat { n, d } })
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d, o.d);
        let od = o.d / g;
        let n = self.n.checked_mul(od)?.checked_add(o.n.checked_mul(self.d / g)?)?;
        Rat::new(n, self.d.checked_mul(od)?)
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat::new(
            (self.n / g1).checked_mul(o.n / g2)?,
            (self.d / g2).checked_mul(o.d / g1)?,
        )
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn inv(self) -> Option<Rat> {
        Rat::new(self.d, self.n)
    }
    pub fn f(self) -> f64 {
        if self.n.unsigned_abs() < (1u128 << 53) && self.d.unsigned_abs() < (1u128 << 53) {
            return self.n as f64 / self.d as f64;
        }
        // correctly rounded enough: split integer and fractional part
        let q = self.n / self.d;
        let r = self.n % self.d;
        q as f64 + (r as f64 / self.d as f64)
    }
    /// exact value of the shortest decimal that round-trips to x
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0. {
            return Some(Rat::ZERO);
        }
        let s = format!("{:e}", x);
        let (m, e) = s.split_once('e')?;
        let mut e: i32 = e.parse().ok()?;
        let neg = m.starts_with('-');
        let m = m.trim_start_matches('-');
        let digits: String = if let Some((a, b)) = m.split_once('.') {
            e -= b.len() as i32;
            format!("{a}{b}")
        } else {
            m.to_string()
        };
        let mut n: i128 = digits.parse().ok()?;
        if neg {
            n = -n;
        }
        if e >= 0 {
            if e > 30 {
                return None;
            }
            Rat::new(n.checked_mul(10i128.checked_pow(e as u32)?)?, 1)
        } else {
            if -e > 36 {
                return None;
            }
            Rat::new(n, 10i128.checked_pow((-e) as u32)?)
        }
    }
    pub fn cmp(self, o: Rat) -> std::cmp::Ordering {
        match (self.n.checked_mul(o.d), o.n.checked_mul(self.d)) {
            (Some(a), Some(b)) => a.cmp(&b),
            _ => self.f().partial_cmp(&o.f()).unwrap(),
        }
    }
    pub fn smt(self) -> String {
        let a = self.n.unsigned_abs();
        let body = if self.d == 1 { format!("{a}.0") } else { format!("(/ {a}.0 {}.0)", self.d) };
        if self.n < 0 {
            format!("(- {body})")
        } else {
            body
        }
    }
}
