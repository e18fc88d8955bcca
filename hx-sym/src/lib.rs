//! Harness support, symbolic side.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symreal::ctx::{with, Abandon, Ctx, Unsupported};
use symreal::s::{S, V};
use symreal::solver::{self, Verdict};

pub type Float = S;

pub struct Case {
    pub property: &'static str,
    pub name: &'static str,
    /// 0: quick and thorough, 1: thorough only
    pub tier: u8,
    pub f: fn(),
}
pub fn case(property: &'static str, name: &'static str, f: fn()) -> Case {
    Case { property, name, tier: 0, f }
}
pub fn deep(property: &'static str, name: &'static str, f: fn()) -> Case {
    Case { property, name, tier: 1, f }
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false)
}
/// a real number in [lo, hi]
pub fn sym(name: &str, lo: S, hi: S) -> S {
    let (lo, hi) = (lo.konst().unwrap(), hi.konst().unwrap());
    S::T(with(|c| c.var(name, lo, hi)))
}
/// the k-th random number drawn by the code under test
pub fn drawn(k: usize) -> S {
    S::T(with(|c| {
        let v = c.var(&format!("rand{k}"), 0., 1.);
        let l = c.lt(v, symreal::ctx::Ctx::ONE);
        c.push_pc(l);
        v
    }))
}
/// a seed for the random generator (natively, one that replays the first three draws)
pub fn seed() -> [u8; 32] {
    [7; 32]
}
/// a text that parses to this number (numbers in files are opaque tokens)
pub fn text(x: S) -> String {
    match x.konst() {
        Some(v) => format!("{v:?}"),
        None => format!("{}", symreal::s::encode(x.id().unwrap())),
    }
}
/// an integer in 0..n (case split)
pub fn choose(name: &str, n: usize) -> usize {
    with(|c| c.choose(name, n as u32)) as usize
}
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Abandon);
    }
}
/// both sides of a comparison without splitting the path
pub fn assume_le(a: S, b: S) {
    if let (Some(a), Some(b)) = (a.id(), b.id()) {
        let ok = with(|c| {
            let n = c.le(a, b);
            if n == Ctx::FALSE {
                return false;
            }
            c.push_pc(n);
            true
        });
        assume(ok);
    } else {
        assume(a <= b);
    }
}
pub fn assume_lt(a: S, b: S) {
    let (a, b) = (a.id().unwrap(), b.id().unwrap());
    let ok = with(|c| {
        let n = c.lt(a, b);
        if n == Ctx::FALSE {
            return false;
        }
        c.push_pc(n);
        true
    });
    assume(ok);
}
pub fn assume_eq(a: S, b: S) {
    let (a, b) = (a.id().unwrap(), b.id().unwrap());
    let ok = with(|c| {
        let n = c.eq(a, b);
        if n == Ctx::FALSE {
            return false;
        }
        c.push_pc(n);
        true
    });
    assume(ok);
}
pub fn assume_ne(a: S, b: S) {
    let (a, b) = (a.id().unwrap(), b.id().unwrap());
    let ok = with(|c| {
        let n = c.eq(a, b);
        let n = c.not(n);
        if n == Ctx::FALSE {
            return false;
        }
        c.push_pc(n);
        true
    });
    assume(ok);
}
/// divisions by zero are outside of the claim of this case (the divisor is assumed non-zero)
/// relate atan2 to its arguments at these angles
pub fn atan2_at(v: &[S]) {
    let v: Vec<f64> = v.iter().map(|x| x.konst().expect("constant angle")).collect();
    with(|c| c.atan_grid.extend(v))
}
pub fn drop_div_zero() {
    with(|c| c.drop_div_zero = true)
}
/// square roots of negative numbers are outside of the claim of this case
pub fn drop_neg_sqrt() {
    with(|c| c.drop_neg_sqrt = true)
}
pub fn split_div_zero() {
    with(|c| c.drop_div_zero = false)
}
pub fn enum_width(w: S) {
    with(|c| c.enum_width = w.konst().unwrap())
}
pub fn max_paths(n: usize) {
    MAXP.with(|m| m.set(n))
}
thread_local! {
    static MAXP: std::cell::Cell<usize> = const { std::cell::Cell::new(3000) };
    static LASTPANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static PREFER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn check(b: bool, label: &str) {
    with(|c| c.vc(if b { Ctx::TRUE } else { Ctx::FALSE }, label, None))
}
/// |a - b| <= tol
pub fn close(a: S, b: S, tol: S, label: &str) {
    let t = tol.konst().unwrap();
    match (a.v(), b.v()) {
        (V::Id(x), V::Id(y)) => with(|c| {
            let d = c.sub(x, y);
            let mk = |c: &mut Ctx, t: f64| {
                let k = c.konst(t);
                let n = c.neg(k);
                let l = c.le(d, k);
                let g = c.le(n, d);
                c.and(&[l, g])
            };
            let cond = if t == 0. { c.eq(d, Ctx::ZERO) } else { mk(c, t) };
            if cond == Ctx::TRUE && c.same_seen.insert((x, y)) {
                c.same.push((x, y, t));
            }
            let strong = mk(c, (1000. * t).max(0.01));
            c.vc(cond, label, Some(strong));
        }),
        (V::Spec(x), V::Spec(y)) => check(x == y, label),
        _ => check(false, label),
    }
}
/// a <= b + slack
pub fn le(a: S, b: S, slack: S, label: &str) {
    let t = slack.konst().unwrap();
    match (a.v(), b.v()) {
        (V::Id(x), V::Id(y)) => with(|c| {
            let k = c.konst(t);
            let r = c.add(y, k);
            let cond = c.le(x, r);
            let k2 = c.konst((1000. * t).max(0.01));
            let r2 = c.add(y, k2);
            let strong = c.le(x, r2);
            c.vc(cond, label, Some(strong));
        }),
        _ => check(a <= b, label),
    }
}
/// a < b
pub fn lt(a: S, b: S, label: &str) {
    match (a.v(), b.v()) {
        (V::Id(x), V::Id(y)) => with(|c| {
            let cond = c.lt(x, y);
            let k2 = c.konst(-0.01);
            let r2 = c.add(x, k2);
            let strong = c.lt(r2, y);
            c.vc(cond, label, Some(strong));
        }),
        _ => check(a < b, label),
    }
}
pub fn finite(a: S, label: &str) {
    check(a.is_finite(), label)
}
/// proves a <= b + slack now and lets the rest of the path use it
pub fn lemma_le(a: S, b: S, slack: S, label: &str) {
    le(a, b, slack, label);
    if let (Some(x), Some(y)) = (a.id(), b.id()) {
        with(|c| {
            let k = c.konst(slack.konst().unwrap());
            let r = c.add(y, k);
            let cond = c.le(x, r);
            if cond != Ctx::FALSE {
                c.push_pc(cond);
            }
        })
    }
}
/// proves |a - b| <= tol and lets the rest of the path use it
pub fn lemma_close(a: S, b: S, tol: S, label: &str) {
    close(a, b, tol, label);
    if let (Some(x), Some(y)) = (a.id(), b.id()) {
        with(|c| {
            let t = tol.konst().unwrap();
            let d = c.sub(x, y);
            let k = c.konst(t);
            let n = c.neg(k);
            let l = c.le(d, k);
            let g = c.le(n, d);
            let cond = if t == 0. { c.eq(d, Ctx::ZERO) } else { c.and(&[l, g]) };
            if cond != Ctx::FALSE {
                c.push_pc(cond);
            }
        })
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(cases: Vec<Case>) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 && a[1] == "list" {
        for c in cases {
            println!("{} {} {}", c.property, c.name, c.tier);
        }
        return;
    }
    let name = &a[2];
    let out = &a[3];
    let case = cases.iter().find(|c| c.name == name).expect("no such case");
    let f = case.f;
    let budget: u64 = std::env::var("SYMREAL_CASE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || run(f, budget)).unwrap();
    let r = h.join().unwrap();
    std::fs::write(out, r).unwrap();
}

fn run(f: fn(), budget: u64) -> String {
    let t0 = std::time::Instant::now();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(u) = i.payload().downcast_ref::<Unsupported>() {
            u.0.clone()
        } else {
            String::new()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LASTPANIC.try_with(|p| *p.borrow_mut() = format!("{m} @ {l}"));
    }));
    let workers: usize = std::env::var("SYMREAL_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(4);
    with(|c| {
        c.active = true;
        c.pool = Some(solver::Pool::new(workers));
        c.work.push(vec![]);
    });
    let mut problems: Vec<String> = vec![];
    let mut sample = String::new();
    let mut completed = 0usize;
    let mut witnesses = 0usize;
    let mut wit_tries = 0usize;
    let mut panics: BTreeMap<String, usize> = BTreeMap::new();
    let trace = std::env::var("SYMREAL_TRACE").is_ok();
    loop {
        let p = match with(|c| c.work.pop()) {
            Some(p) => p,
            None => break,
        };
        let np = with(|c| {
            c.stats.paths += 1;
            c.start_path(p);
            c.stats.paths
        });
        if np > MAXP.with(|m| m.get()) {
            problems.push(format!("more than {} paths", np - 1));
            break;
        }
        if t0.elapsed().as_secs() > budget {
            problems.push(format!("exploration budget of {budget} s used up after {np} paths"));
            break;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(()) => {
                completed += 1;
                with(|c| c.flush_same());
                if trace {
                    with(|c| eprintln!("path {np} done, pc: {:?}", c.pc.iter().map(|x| c.show(*x, 3)).collect::<Vec<_>>()));
                }
                // reachability witness: a model of a complete path
                if witnesses < 1 && wit_tries < 8 {
                    wit_tries += 1;
                    let (t, vars, ch) = with(|c| {
                        let pc = c.pc.clone();
                        let (t, v) = c.smt(&pc, true);
                        (t, v, c.choices.clone())
                    });
                    let t1 = std::time::Instant::now();
                    if let Verdict::Sat(m) = solver::run_one("z3", &t, 10_000, &vars, true) {
                        witnesses += 1;
                        let m = m.unwrap_or_default();
                        let mv: Vec<String> = vars.iter().zip(m).map(|(n, v)| format!("{n}={v}")).collect();
                        sample = format!("path {np}: choices {ch:?} inputs {}", mv.join(", "));
                    }
                    with(|c| {
                        c.stats.solver_ms += t1.elapsed().as_millis();
                        c.stats.feas_queries += 1;
                    });
                }
            }
            Err(e) => {
                if e.downcast_ref::<Abandon>().is_some() {
                    with(|c| c.stats.paths_dropped += 1);
                } else if let Some(u) = e.downcast_ref::<Unsupported>() {
                    problems.push(format!("not encodable: {}", u.0));
                } else {
                    let m = LASTPANIC.with(|p| p.borrow().clone());
                    with(|c| c.stats.paths_panicked += 1);
                    *panics.entry(m.clone()).or_default() += 1;
                    let lab = format!("panic: {}", m.chars().take(160).collect::<String>());
                    with(|c| c.vc(Ctx::FALSE, &lab, None));
                }
            }
        }
    }
    let pool = with(|c| c.pool.take()).unwrap();
    let o = pool.finish();
    let st = with(|c| c.stats.clone());
    let mut j = String::from("{");
    let mut kv = |k: &str, v: String| {
        if j.len() > 1 {
            j.push_str(",\n");
        }
        j.push_str(&format!("{}: {}", js(k), v));
    };
    kv("paths", format!("{}", st.paths));
    kv("paths_completed", format!("{completed}"));
    kv("paths_dropped", format!("{}", st.paths_dropped));
    kv("paths_panicked", format!("{}", st.paths_panicked));
    kv("forks", format!("{}", st.forks));
    kv("feasibility_queries", format!("{}", st.feas_queries));
    kv("feasibility_unknown", format!("{}", st.feas_unknown));
    kv("comparisons_decided_by_interval", format!("{}", st.forks_interval));
    kv("divisors_assumed_nonzero", format!("{}", st.div_dropped));
    kv("vcs", format!("{}", st.vcs));
    kv("vcs_identical", format!("{}", st.vcs_trivial));
    kv("vcs_repeated", format!("{}", st.vcs_cached));
    kv("vcs_unsat", format!("{}", o.unsat));
    kv("vc_queries", format!("{}", o.nqueries));
    kv("solver_ms", format!("{}", st.solver_ms + o.solver_ms));
    kv("max_vc_ms", format!("{}", o.max_ms));
    kv("witnesses", format!("{witnesses}"));
    kv("sample", js(&sample));
    kv("nodes", format!("{}", with(|c| c.nodes.len())));
    kv("wall_s", format!("{:.2}", t0.elapsed().as_secs_f64()));
    let by: Vec<String> = o.by_solver.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    kv("decided_by", format!("{{{}}}", by.join(", ")));
    let labs: Vec<String> = with(|c| c.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v.0)).collect());
    kv("labels", format!("{{{}}}", labs.join(", ")));
    let fs: Vec<String> = with(|c| c.functions.iter().map(|s| js(s)).collect());
    kv("functions", format!("[{}]", fs.join(", ")));
    let vs: Vec<String> = with(|c| {
        c.vars
            .iter()
            .map(|(n, i)| {
                let iv = c.interval(*i);
                js(&format!("{n} in [{}, {}]", iv.0, iv.1))
            })
            .collect()
    });
    kv("inputs", format!("[{}]", vs.join(", ")));
    let mut un: Vec<String> = o.unknown.iter().map(|s| js(s)).collect();
    un.extend(problems.iter().map(|s| js(s)));
    kv("inconclusive", format!("[{}]", un.join(", ")));
    let cs: Vec<String> = o
        .cands
        .iter()
        .map(|c| {
            let m: Vec<String> = c.model.iter().map(|(k, v)| format!("{}: {:?}", js(k), v)).collect();
            let h: Vec<String> = c.choices.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            format!("{{\"label\": {}, \"model\": {{{}}}, \"choices\": {{{}}}}}", js(&c.label), m.join(", "), h.join(", "))
        })
        .collect();
    kv("candidates", format!("[{}]", cs.join(",\n")));
    j.push('}');
    j
}
