//! Bit-precise harnesses (Kani / CBMC) over the calendar crate as it is in /repo.
use calendar::{Date, Period};

#[cfg(kani)]
mod k {
    pub fn any_u8() -> u8 {
        kani::any()
    }
    pub fn any_u16() -> u16 {
        kani::any()
    }
    pub fn any_f64() -> f64 {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    macro_rules! check {
        ($c:expr, $l:literal) => {
            assert!($c, $l)
        };
    }
    pub(crate) use check;
}
#[cfg(not(kani))]
mod k {
    use std::cell::RefCell;
    thread_local! { pub static VALS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) }; pub static BAD: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }
    fn take(n: usize) -> Vec<u8> {
        let mut v = VALS.with(|v| v.borrow_mut().pop()).unwrap_or_default();
        v.resize(n, 0);
        v
    }
    pub fn any_u8() -> u8 {
        take(1)[0]
    }
    pub fn any_u16() -> u16 {
        u16::from_le_bytes(take(2).try_into().unwrap())
    }
    pub fn any_f64() -> f64 {
        f64::from_le_bytes(take(8).try_into().unwrap())
    }
    pub fn assume(b: bool) {
        if !b {
            println!("OUTSIDE");
            std::process::exit(0)
        }
    }
    macro_rules! check {
        ($c:expr, $l:literal) => {
            if !$c {
                k::BAD.with(|b| b.borrow_mut().push($l.to_string()))
            }
        };
    }
    pub(crate) use check;
}
use k::*;

const LEN: [u8; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
const BEFORE: [u16; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];

fn any_date() -> Date {
    let (month, day, hour) = (any_u8(), any_u8(), any_f64());
    assume(month >= 1 && month <= 12);
    assume(day >= 1 && day <= LEN[month as usize - 1]);
    assume(hour >= 0.0 && hour < 24.0);
    Date { month, day, hour }
}
fn ordinal(d: Date) -> u16 {
    BEFORE[d.month as usize - 1] + d.day as u16 - 1
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(15))]
fn kani_add_days() {
    let d = any_date();
    let n = any_u16();
    assume(n <= 1100);
    let mut e = d;
    e.add_days(n as usize);
    check!(e.month >= 1 && e.month <= 12, "valid month");
    check!(e.day >= 1 && e.day <= LEN[e.month as usize - 1], "valid day");
    check!(ordinal(e) == (ordinal(d) + n) % 365, "adding days moves that many days, modulo a year");
    check!(e.hour == d.hour, "the time of the day is kept");
}

#[cfg_attr(kani, kani::proof)]
fn kani_order() {
    let (a, b, c) = (any_date(), any_date(), any_date());
    let before = |a: Date, b: Date| ordinal(a) < ordinal(b) || (ordinal(a) == ordinal(b) && a.hour < b.hour);
    check!((a < b) == before(a, b), "earlier in the year is smaller");
    check!((a > b) == before(b, a), "later in the year is greater");
    check!((a == b) == (!before(a, b) && !before(b, a)), "equal dates are neither earlier nor later");
    check!(!(a < b && b < c) || a < c, "order is transitive");
    check!(a.same_day(b) == (ordinal(a) == ordinal(b)), "same day");
}

#[cfg_attr(kani, kani::proof)]
fn kani_contains() {
    let (a, b, c) = (any_date(), any_date(), any_date());
    let p = Period::new(a, b, 3600.0);
    let le = |a: Date, b: Date| ordinal(a) < ordinal(b) || (ordinal(a) == ordinal(b) && a.hour <= b.hour);
    let want = if le(a, b) { le(a, c) && le(c, b) } else { le(a, c) || le(c, b) };
    check!(p.contains(c) == want, "contains exactly the dates between start and end");
}

fn main() {
    #[cfg(not(kani))]
    {
        // replay: NAME FILE, one input per line as decimal bytes, in the order asked for
        let a: Vec<String> = std::env::args().collect();
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let mut v: Vec<Vec<u8>> = t.lines().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
        v.reverse();
        k::VALS.with(|x| *x.borrow_mut() = v);
        let f: fn() = match a[1].as_str() {
            "kani_add_days" => kani_add_days,
            "kani_order" => kani_order,
            "kani_contains" => kani_contains,
            _ => panic!("no such harness"),
        };
        let r = std::panic::catch_unwind(f);
        let bad = k::BAD.with(|b| b.borrow().clone());
        for b in &bad {
            println!("FAILED {b}");
        }
        if r.is_err() {
            println!("FAILED panic");
        }
    }
}
