//! Harness support, native side: the same harness runs on f64 against the unmodified crates, on the
//! concrete inputs of a solver model (and, when a model does not reproduce because the encoding is
//! over the reals or uses axiomatised functions, on inputs near it or in the declared ranges).
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Float = f64;
pub struct Case {
    pub property: &'static str,
    pub name: &'static str,
    pub tier: u8,
    pub f: fn(),
}
pub fn case(property: &'static str, name: &'static str, f: fn()) -> Case {
    Case { property, name, tier: 0, f }
}
pub fn deep(property: &'static str, name: &'static str, f: fn()) -> Case {
    Case { property, name, tier: 1, f }
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false)
}
struct Abandon;
#[derive(Default)]
struct St {
    model: BTreeMap<String, f64>,
    choices: BTreeMap<String, usize>,
    mode: u8, // 0 exact, 1 near, 2 random
    rng: u64,
    used: BTreeMap<String, f64>,
    used_choices: BTreeMap<String, usize>,
    failed: Vec<String>,
    checks: usize,
    scale: f64,
}
thread_local! {
    static ST: RefCell<St> = RefCell::new(St::default());
    static LASTPANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
fn with<R>(f: impl FnOnce(&mut St) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}
impl St {
    fn u(&mut self) -> f64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        (self.rng >> 11) as f64 / (1u64 << 53) as f64
    }
}
pub fn text(x: f64) -> String {
    format!("{x:?}")
}
/// the k-th random number drawn
pub fn drawn(k: usize) -> f64 {
    let n = format!("rand{k}");
    let v = match with(|s| s.used.get(&n).cloned()) {
        Some(v) => v,
        None => sym(&n, 0.0, 1.0 - 1e-12),
    };
    ((v.clamp(0.0, 1.0 - 1e-12) * (1u64 << 53) as f64) as u64) as f64 / (1u64 << 53) as f64
}
/// a seed for xoshiro256++ that makes it produce drawn(0), drawn(1), drawn(2) first
pub fn seed() -> [u8; 32] {
    let o: Vec<u64> = (0..3).map(|k| ((drawn(k) * (1u64 << 53) as f64) as u64) << 11).collect();
    // s3 such that the output of (s0, ., ., s3) is w
    let f = |w: u64, s0: u64| w.wrapping_sub(s0).rotate_right(23).wrapping_sub(s0);
    // backwards: s0(k) = s0(k+1) ^ x(k) with x(k) = s3(k) ^ s1(k) and s3(k+1) = rotl(x(k), 45)
    let (mut s0, mut s3, mut x) = ([0u64; 3], [0u64; 3], [0u64; 2]);
    s0[2] = 0x9E3779B97F4A7C15;
    s3[2] = f(o[2], s0[2]);
    for k in (0..2).rev() {
        x[k] = s3[k + 1].rotate_right(45);
        s0[k] = s0[k + 1] ^ x[k];
        s3[k] = f(o[k], s0[k]);
    }
    let (s1, s1n) = (s3[0] ^ x[0], s3[1] ^ x[1]);
    let s2 = s1 ^ s1n ^ s0[0];
    let mut out = [0u8; 32];
    for (i, w) in [s0[0], s1, s2, s3[0]].iter().enumerate() {
        out[8 * i..8 * i + 8].copy_from_slice(&w.to_le_bytes());
    }
    out
}
pub fn sym(name: &str, lo: f64, hi: f64) -> f64 {
    with(|s| {
        let m = s.model.get(name).cloned();
        let v = match (s.mode, m) {
            (0, Some(v)) => v,
            (0, None) => 0.5 * (lo + hi),
            (1, Some(v)) => {
                let k = (s.u() * 6.) as u32;
                let d = (s.u() * 2. - 1.) * (hi - lo) * s.scale;
                match k {
                    0 | 1 => v,
                    2 => v + d * 0.01,
                    3 => v + d * 1e-5,
                    _ => v + d,
                }
            }
            _ => {
                let k = (s.u() * 12.) as u32;
                let u = s.u();
                match k {
                    0 => lo,
                    1 => hi,
                    2 if lo <= 0. && hi >= 0. => 0.,
                    3 => (lo + (hi - lo) * u).round(),
                    _ => lo + (hi - lo) * u,
                }
            }
        };
        let v = v.clamp(lo, hi);
        s.used.insert(name.to_string(), v);
        v
    })
}
pub fn choose(name: &str, n: usize) -> usize {
    with(|s| {
        let k = if s.mode < 2 {
            s.choices.get(name).cloned().unwrap_or(0).min(n - 1)
        } else {
            ((s.u() * n as f64) as usize).min(n - 1)
        };
        s.used_choices.insert(name.to_string(), k);
        k
    })
}
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Abandon);
    }
}
pub fn assume_le(a: f64, b: f64) {
    assume(a <= b)
}
pub fn assume_lt(a: f64, b: f64) {
    assume(a < b)
}
pub fn assume_eq(a: f64, b: f64) {
    assume((a - b).abs() <= 1e-12 * (1. + a.abs().max(b.abs())))
}
pub fn assume_ne(a: f64, b: f64) {
    assume(a != b)
}
pub fn atan2_at(_: &[f64]) {}
pub fn drop_div_zero() {}
pub fn split_div_zero() {}
pub fn drop_neg_sqrt() {}
pub fn enum_width(_: f64) {}
pub fn max_paths(_: usize) {}
fn fail(label: &str) {
    with(|s| {
        if !s.failed.iter().any(|x| x == label) {
            s.failed.push(label.to_string())
        }
    })
}
pub fn check(b: bool, label: &str) {
    with(|s| s.checks += 1);
    if !b {
        fail(label)
    }
}
/// natively a difference counts when it exceeds half of the tolerance plus rounding noise
pub fn close(a: f64, b: f64, tol: f64, label: &str) {
    let noise = 1e-9 * (a.abs().max(b.abs())).max(1e-3);
    check((a == b) || (a - b).abs() <= (0.5 * tol).max(noise), label)
}
pub fn le(a: f64, b: f64, slack: f64, label: &str) {
    let noise = 1e-9 * (a.abs().max(b.abs())).max(1e-3);
    check(a <= b + (0.5 * slack).max(noise), label)
}
pub fn lt(a: f64, b: f64, label: &str) {
    check(a < b, label)
}
pub fn finite(a: f64, label: &str) {
    check(a.is_finite(), label)
}
pub fn lemma_le(a: f64, b: f64, slack: f64, label: &str) {
    le(a, b, slack, label)
}
pub fn lemma_close(a: f64, b: f64, tol: f64, label: &str) {
    close(a, b, tol, label)
}

/// native CASE MODEL_FILE(lines: v name value | c name k) TRIES SEED
pub fn main(cases: Vec<Case>) {
    let a: Vec<String> = std::env::args().collect();
    let case = cases.iter().find(|c| c.name == a[1]).expect("no such case");
    let txt = std::fs::read_to_string(&a[2]).unwrap_or_default();
    let tries: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
    let seed: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LASTPANIC.try_with(|p| *p.borrow_mut() = format!("{m} @ {l}"));
    }));
    with(|s| {
        for l in txt.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() == 3 && w[0] == "v" {
                s.model.insert(w[1].into(), w[2].parse().unwrap());
            } else if w.len() == 3 && w[0] == "c" {
                s.choices.insert(w[1].into(), w[2].parse().unwrap());
            }
        }
        s.rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    });
    let f = case.f;
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn({
            let st = with(|s| std::mem::take(s));
            move || {
                with(|s| *s = st);
                search(f, tries)
            }
        })
        .unwrap();
    let code = h.join().unwrap();
    std::process::exit(code);
}
fn search(f: fn(), tries: usize) -> i32 {
    let t0 = std::time::Instant::now();
    let mut ran = 0usize;
    for k in 0..=tries {
        if k > 0 && t0.elapsed().as_secs() > 60 {
            break;
        }
        with(|s| {
            s.mode = if k == 0 {
                0
            } else if k * 2 < tries {
                1
            } else {
                2
            };
            s.scale = [1e-4, 1e-2, 0.1, 0.5][k % 4];
            s.failed.clear();
            s.used.clear();
            s.used_choices.clear();
        });
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(()) => ran += 1,
            Err(e) if e.downcast_ref::<Abandon>().is_some() => {}
            Err(_) => {
                let m = LASTPANIC.with(|p| p.borrow().clone());
                fail(&format!("panic: {}", m.replace('\n', " ")));
            }
        }
        let failed = with(|s| s.failed.clone());
        if !failed.is_empty() {
            println!("REPRODUCED try={k}");
            for l in failed {
                println!("FAILED {l}");
            }
            with(|s| {
                for (n, v) in &s.used_choices {
                    println!("c {n} {v}");
                }
                for (n, v) in &s.used {
                    println!("v {n} {v:?}");
                }
            });
            return 1;
        }
    }
    println!("NOT-REPRODUCED ran={ran}");
    0
}
