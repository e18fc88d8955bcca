//! external SMT solvers
use crate::ctx::{Candidate, Job};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Verdict {
    Sat(Option<Vec<f64>>),
    Unsat,
    Unknown(String),
}
impl PartialEq for Verdict {
    fn eq(&self, o: &Verdict) -> bool {
        matches!(
            (self, o),
            (Verdict::Sat(_), Verdict::Sat(_)) | (Verdict::Unsat, Verdict::Unsat) | (Verdict::Unknown(_), Verdict::Unknown(_))
        )
    }
}

fn start(kind: &str, text: &str, ms: u64, model: bool) -> std::io::Result<Child> {
    let values: String = text.lines().find(|l| l.starts_with(";;VALUES")).map(|l| l[8..].to_string()).unwrap_or_default();
    let body: String = text.lines().filter(|l| !l.starts_with(";;")).map(|l| format!("{l}\n")).collect();
    let mut t = String::new();
    let mut cmd;
    match kind {
        "cvc5" => {
            cmd = Command::new("cvc5");
            cmd.args(["--lang=smt2", &format!("--tlimit={ms}")]);
            if !body.contains("set-logic") {
                t.push_str("(set-logic ALL)\n");
            }
            t.push_str(&body);
            t.push_str("(check-sat)\n");
        }
        _ => {
            cmd = Command::new("z3-new");
            cmd.args(["-in", "-smt2", "-memory:4000", &format!("-t:{ms}")]);
            t.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n");
            t.push_str(&body);
            match kind {
                "z3nl" => t.push_str(
                    "(check-sat-using (then simplify propagate-values purify-arith solve-eqs simplify qfnra-nlsat))\n",
                ),
                "z3som" => t.push_str("(check-sat-using (then (using-params simplify :som true :blast_distinct true) propagate-values solve-eqs (using-params simplify :som true) qfnra))\n"),
                "z3smt" => t.push_str("(check-sat-using smt)\n"),
                // products are opaque: only its "unsat" counts
                "z3lin" => {
                    t.insert_str(0, "(set-option :smt.arith.nl false)\n");
                    t.push_str("(check-sat-using smt)\n")
                }
                _ => t.push_str("(check-sat)\n"),
            }
            if model && !values.is_empty() {
                t.push_str(&format!("(get-value {values})\n"));
            }
        }
    }
    let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let mut si = ch.stdin.take().unwrap();
    std::thread::spawn(move || {
        let _ = si.write_all(t.as_bytes());
    });
    Ok(ch)
}

fn parse_out(out: &str, nvars: usize) -> Verdict {
    let mut it = out.lines();
    let first = it.next().unwrap_or("").trim().to_string();
    match first.as_str() {
        "unsat" => {
            // get-value after unsat yields an error line, which is expected; nothing before it may be one
            Verdict::Unsat
        }
        "sat" => {
            let rest: String = it.collect::<Vec<_>>().join(" ");
            Verdict::Sat(parse_values(&rest, nvars))
        }
        _ => Verdict::Unknown(first),
    }
}

fn parse_values(s: &str, n: usize) -> Option<Vec<f64>> {
    // ((n1 v1) (n2 v2) ...)
    let toks = tokenize(s);
    let mut pos = 0;
    let e = parse_sexp(&toks, &mut pos)?;
    if let Sx::L(l) = e {
        let mut v = vec![];
        for p in l {
            if let Sx::L(q) = p {
                if q.len() == 2 {
                    v.push(num(&q[1])?);
                }
            }
        }
        if v.len() == n {
            return Some(v);
        }
    }
    None
}
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn tokenize(s: &str) -> Vec<String> {
    s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect()
}
fn parse_sexp(t: &[String], p: &mut usize) -> Option<Sx> {
    let x = t.get(*p)?;
    *p += 1;
    if x == "(" {
        let mut v = vec![];
        while t.get(*p)? != ")" {
            v.push(parse_sexp(t, p)?);
        }
        *p += 1;
        Some(Sx::L(v))
    } else {
        Some(Sx::A(x.clone()))
    }
}
fn num(s: &Sx) -> Option<f64> {
    match s {
        Sx::A(a) => a.trim_end_matches('?').parse().ok(),
        Sx::L(v) => match &v[0] {
            Sx::A(o) if o == "-" && v.len() == 2 => Some(-num(&v[1])?),
            Sx::A(o) if o == "/" && v.len() == 3 => Some(num(&v[1])? / num(&v[2])?),
            Sx::A(o) if o == "to_real" => num(&v[1]),
            _ => None,
        },
    }
}

fn wait(mut ch: Child, ms: u64, stop: &dyn Fn() -> bool) -> Option<String> {
    let mut so = ch.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let end = Instant::now() + Duration::from_millis(ms + ms / 4 + 1500);
    loop {
        match rx.recv_timeout(Duration::from_millis(if Instant::now() + Duration::from_millis(200) > end { 20 } else { 5 })) {
            Ok(s) => {
                let _ = ch.wait();
                return Some(s);
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                if Instant::now() > end || stop() {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return None;
                }
            }
            Err(_) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
        }
    }
}

pub fn run_one(kind: &str, text: &str, ms: u64, vars: &[String], model: bool) -> Verdict {
    run_stop(kind, text, ms, vars, model, &|| false)
}
fn run_stop(kind: &str, text: &str, ms: u64, vars: &[String], model: bool, stop: &dyn Fn() -> bool) -> Verdict {
    match start(kind, text, ms, model) {
        Ok(ch) => match wait(ch, ms, stop) {
            Some(s) => match parse_out(&s, vars.len()) {
                Verdict::Sat(_) if kind == "z3lin" => Verdict::Unknown("abstraction".into()),
                v => v,
            },
            None => Verdict::Unknown("timeout".into()),
        },
        Err(e) => Verdict::Unknown(format!("{e}")),
    }
}

/// several strategies at once, first definite answer
pub fn portfolio(tasks: Vec<(&'static str, String)>, ms: u64, vars: &[String]) -> (Verdict, &'static str) {
    let done = Arc::new((Mutex::new(None::<(Verdict, &'static str)>), Condvar::new()));
    let left = Arc::new(AtomicUsize::new(tasks.len()));
    let mut hs = vec![];
    for (k, t) in tasks {
        let done = done.clone();
        let left = left.clone();
        let vars = vars.to_vec();
        hs.push(std::thread::spawn(move || {
            let d2 = done.clone();
            let v = run_stop(k, &t, ms, &vars, true, &move || d2.0.lock().unwrap().is_some());
            let mut g = done.0.lock().unwrap();
            let n = left.fetch_sub(1, Ordering::SeqCst);
            if g.is_none() && (!matches!(v, Verdict::Unknown(_)) || n == 1) {
                *g = Some((v, k));
                done.1.notify_all();
            }
        }));
    }
    let mut g = done.0.lock().unwrap();
    while g.is_none() {
        g = done.1.wait(g).unwrap();
    }
    let r = g.clone().unwrap();
    drop(g);
    for h in hs {
        let _ = h.join();
    }
    r
}

#[derive(Default)]
pub struct PoolOut {
    pub unsat: usize,
    pub unsat_by_label: BTreeMap<String, usize>,
    pub cands: Vec<Candidate>,
    pub unknown: Vec<String>,
    pub solver_ms: u128,
    pub by_solver: BTreeMap<String, usize>,
    pub max_ms: u128,
    pub nqueries: usize,
}
pub struct Pool {
    q: Arc<(Mutex<(Vec<Job>, bool)>, Condvar)>,
    pub out: Arc<Mutex<PoolOut>>,
    hs: Vec<std::thread::JoinHandle<()>>,
}

pub fn vc_ms() -> u64 {
    std::env::var("SYMREAL_VC_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000)
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
/// time left before the process has to write its results
pub fn ms_left() -> u64 {
    let t0 = *T0.get_or_init(Instant::now);
    let lim: u64 = std::env::var("SYMREAL_DEADLINE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(1_000_000);
    (lim * 1000).saturating_sub(t0.elapsed().as_millis() as u64)
}

fn work(j: Job, out: &Mutex<PoolOut>) {
    {
        // enough counterexamples of this label already: do not spend time on more
        let o = out.lock().unwrap();
        if o.cands.iter().filter(|c| c.label == j.label).count() >= 6 {
            return;
        }
    }
    let left = ms_left();
    if left < 2000 {
        out.lock().unwrap().unknown.push(format!("{} (path {}): not decided before the time limit of the check", j.label, j.pathno));
        return;
    }
    let vc_ms = || vc_ms().min(left);
    let t0 = Instant::now();
    let mut by = "z3";
    let txt = |n: &str| j.texts.iter().find(|t| t.0 == n).map(|t| t.1.clone());
    let clear = txt("clear").unwrap();
    let mut nq = 1;
    let mut v = run_one("z3", &clear, 1000.min(vc_ms()), &[], false);
    if let Verdict::Unknown(_) = v {
        // what one z3 does not answer at once is mostly decided soon by one of these
        let r = portfolio(vec![("z3", clear.clone()), ("cvc5", clear.clone()), ("z3lin", clear.clone())], 3000.min(vc_ms()), &[]);
        nq += 3;
        v = r.0;
        by = r.1;
    }
    if let Verdict::Unknown(_) = v {
        let mut tasks = vec![("z3", clear.clone()), ("cvc5", clear.clone()), ("z3nl", clear.clone()), ("z3som", clear.clone()), ("z3smt", clear.clone()), ("z3lin", clear.clone())];
        if let Some(p) = txt("plain") {
            tasks.push(("z3", p.clone()));
        }
        nq += tasks.len();
        let r = portfolio(tasks, vc_ms(), &[]);
        v = r.0;
        by = r.1;
    }
    let mut model = None;
    let mut full_unsat = false;
    if let Verdict::Sat(_) = v {
        // a model of the whole path, preferably of a large violation
        if let Some(s) = txt("strong") {
            nq += 1;
            if let Verdict::Sat(m) = run_one("z3", &s, 5000, &j.vars, true) {
                model = m;
            }
        }
        if model.is_none() {
            let f = txt("full").unwrap();
            nq += 4;
            let r = portfolio(vec![("z3", f.clone()), ("z3nl", f.clone()), ("z3smt", f.clone()), ("z3som", f)], 20_000.min(left), &j.vars);
            match r.0 {
                Verdict::Sat(m) => model = m,
                Verdict::Unsat => full_unsat = true,
                _ => {}
            }
        }
    }
    let ms = t0.elapsed().as_millis();
    if ms > 3000 && std::env::var("SYMREAL_TRACE").is_ok() {
        eprintln!("slow vc {} {}ms -> {:?} by {by}", j.label, ms, v);
        if let Ok(d) = std::env::var("SYMREAL_DUMP") {
            for (n, t) in &j.texts {
                let _ = std::fs::write(format!("{d}/vc_{}_{}_{n}.smt2", j.label, j.pathno), t);
            }
        }
    }
    let mut o = out.lock().unwrap();
    o.solver_ms += ms;
    o.max_ms = o.max_ms.max(ms);
    o.nqueries += nq;
    *o.by_solver.entry(by.to_string()).or_default() += 1;
    match v {
        Verdict::Unsat => {
            o.unsat += 1;
            *o.unsat_by_label.entry(j.label).or_default() += 1;
        }
        Verdict::Sat(_) if full_unsat => {
            o.unsat += 1;
            *o.unsat_by_label.entry(j.label).or_default() += 1;
        }
        Verdict::Sat(_) => {
            let mut m = BTreeMap::new();
            if let Some(vals) = model {
                for (n, x) in j.vars.iter().zip(vals) {
                    m.insert(n.clone(), x);
                }
            }
            o.cands.push(Candidate { label: j.label, model: m, choices: j.choices, info: String::new() });
        }
        Verdict::Unknown(w) => o.unknown.push(format!("{} (path {}): {w}", j.label, j.pathno)),
    }
}

impl Pool {
    pub fn new(n: usize) -> Pool {
        ms_left();
        let q: Arc<(Mutex<(Vec<Job>, bool)>, Condvar)> = Arc::new((Mutex::new((vec![], false)), Condvar::new()));
        let out = Arc::new(Mutex::new(PoolOut::default()));
        let hs = (0..n)
            .map(|_| {
                let q = q.clone();
                let out = out.clone();
                std::thread::spawn(move || loop {
                    let j = {
                        let mut g = q.0.lock().unwrap();
                        loop {
                            if !g.0.is_empty() {
                                break Some(g.0.remove(0));
                            }
                            if g.1 {
                                break None;
                            }
                            g = q.1.wait(g).unwrap();
                        }
                    };
                    match j {
                        Some(j) => work(j, &out),
                        None => return,
                    }
                })
            })
            .collect();
        Pool { q, out, hs }
    }
    pub fn submit(&self, j: Job) {
        self.q.0.lock().unwrap().0.push(j);
        self.q.1.notify_one();
    }
    pub fn finish(self) -> PoolOut {
        self.q.0.lock().unwrap().1 = true;
        self.q.1.notify_all();
        for h in self.hs {
            let _ = h.join();
        }
        std::mem::take(&mut *self.out.lock().unwrap())
    }
}
