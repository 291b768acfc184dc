//! Path exploration (by re-execution) and result reporting.
use crate::field::SymF;
use crate::smt::*;
use crate::state::*;
use ark_bls12_381::Fr;
use rand::{CryptoRng, RngCore};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

/// Randomness source for symbolic runs: every draw is a fresh byte string, so
/// every sampled field/group element becomes a fresh symbolic variable.
#[derive(Clone, Debug, Default)]
pub struct SymRng;
impl RngCore for SymRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut s = st();
        s.rng_ctr += 1;
        s.rng_ctr.wrapping_mul(0x9E3779B97F4A7C15)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        let c = {
            let mut s = st();
            s.rng_ctr += 1;
            s.rng_ctr
        };
        for (i, b) in d.iter_mut().enumerate() {
            *b = if i < 8 { (c >> (8 * i)) as u8 } else { 0xEE ^ (i as u8) };
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for SymRng {}

#[derive(Debug)]
pub enum Out<T> {
    Done(T),
    Panic(String),
    Unsupported(String),
}

pub struct PathEnd<T> {
    pub conds: Vec<Cond>,
    pub assumed: Vec<Cond>,
    pub valid: Vec<(Id, Id)>,
    pub out: Out<T>,
    pub n_ch: u32,
}

impl<T> PathEnd<T> {
    pub fn pc(&self) -> Fm {
        conds(&self.conds)
    }
}

pub fn set_mode(m: Mode) -> Mode {
    let mut s = st();
    let o = s.mode;
    s.mode = m;
    o
}
pub fn generic<T>(f: impl FnOnce() -> T) -> T {
    let o = set_mode(Mode::Generic);
    let r = f();
    set_mode(o);
    r
}
pub fn exploring<T>(f: impl FnOnce() -> T) -> T {
    let o = set_mode(Mode::Explore);
    let r = f();
    set_mode(o);
    r
}

pub static PATHS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub static FORKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn quiet_panics() {
    use std::sync::Once;
    static O: Once = Once::new();
    O.call_once(|| {
        if std::env::var("SYM_VERBOSE").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
    });
}

pub fn run_once<T>(prefix: Vec<bool>, f: &mut dyn FnMut() -> T) -> PathEnd<T> {
    quiet_panics();
    st().reset_run(prefix);
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    let mut s = st();
    PATHS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    FORKS.fetch_add(s.taken.len() as u64, std::sync::atomic::Ordering::Relaxed);
    s.mode = Mode::Generic;
    let out = match r {
        Ok(t) => match s.unsupported.take() {
            Some(u) => Out::Unsupported(u),
            None => Out::Done(t),
        },
        Err(e) => {
            let msg = if let Some(x) = e.downcast_ref::<String>() {
                x.clone()
            } else if let Some(x) = e.downcast_ref::<&str>() {
                x.to_string()
            } else {
                "panic".into()
            };
            match s.unsupported.take() {
                Some(u) => Out::Unsupported(u),
                None => Out::Panic(msg),
            }
        }
    };
    PathEnd { conds: s.conds.clone(), assumed: s.assumed.clone(), valid: s.valid.clone(), out, n_ch: s.n_ch }
}

/// depth-first exploration of every path of `f` (decisions made in
/// Mode::Explore) that takes at most `flips` non-generic outcomes; None if
/// `max` paths do not suffice
pub fn explore<T>(max: usize, flips: usize, mut f: impl FnMut() -> T) -> Option<Vec<PathEnd<T>>> {
    let mut work: Vec<(Vec<bool>, usize)> = vec![(vec![], 0)];
    let mut ends = vec![];
    while let Some((p, fl)) = work.pop() {
        if ends.len() >= max {
            return None;
        }
        let n = p.len();
        let e = run_once(p, &mut f);
        let taken: Vec<bool> = st().taken.iter().map(|t| t.0).collect();
        for k in n..taken.len() {
            if fl >= flips {
                break;
            }
            let mut q = taken[..k].to_vec();
            q.push(!taken[k]);
            work.push((q, fl + 1));
        }
        ends.push(e);
    }
    Some(ends)
}

pub fn accepted(e: &PathEnd<bool>) -> bool {
    matches!(e.out, Out::Done(true))
}
pub fn model_json(m: &HashMap<String, Fr>) -> serde_json::Value {
    let mj: serde_json::Map<String, serde_json::Value> =
        m.iter().map(|(k, v)| (k.clone(), serde_json::Value::String(dec(v)))).collect();
    serde_json::json!({"model": mj, "replayed": true})
}

/// Re-run `f` with every symbolic variable bound to a concrete value (the
/// model's, or the variable's fingerprint): a concrete execution of the code.
pub fn replay_bound<T>(m: &HashMap<String, Fr>, f: &mut dyn FnMut() -> T) -> PathEnd<T> {
    {
        let mut s = st();
        s.bind = m.clone();
        s.bind_all = true;
    }
    let e = run_once(vec![], f);
    let mut s = st();
    s.bind.clear();
    s.bind_all = false;
    e
}

// ---------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Finding {
    pub key: String,
    pub what: String,
    pub replay: serde_json::Value,
}

pub struct Report {
    pub prop: String,
    pub config: String,
    pub t0: Instant,
    pub obligations: Vec<(String, String)>, // name, result
    pub violations: Vec<Finding>,
    pub inconclusive: Vec<String>,
    pub functions: Vec<String>,
    pub bounds: Vec<String>,
    known: Vec<String>,
    fresh: usize,
    first: Option<Instant>,
    pub assumed: u64,
    pub replays: u64,
    pub witnesses: u64,
    pub native: u64,
    pub assumptions: Vec<String>,
    pub timeout: u64,
    pub thorough: bool,
    /// obligations discharged only with the named variables fixed
    pub reduced: Vec<String>,
    /// the checked party also draws randomness of its own: only draws derived
    /// from a hash count as challenges
    pub own_coins: bool,
    /// most non-generic branch outcomes per explored path
    pub flips: usize,
    /// prefixes of variables that may be fixed when the full query is too big,
    /// tried in order
    pub fix_order: Vec<Vec<&'static str>>,
}

impl Report {
    pub fn new(prop: &str) -> Self {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        Report {
            prop: prop.into(),
            config: if cfg!(feature = "parallel") { "parallel".into() } else { "sequential".into() },
            t0: Instant::now(),
            obligations: vec![],
            violations: vec![],
            inconclusive: vec![],
            functions: vec![],
            bounds: vec![],
            known: std::env::var("SYM_KNOWN").unwrap_or_default().split('\n').map(|x| x.to_string()).collect(),
            fresh: 0,
            first: None,
            assumed: 0,
            replays: 0,
            witnesses: 0,
            native: 0,
            assumptions: vec![],
            timeout: if thorough { 300 } else { 60 },
            thorough,
            reduced: vec![],
            own_coins: false,
            flips: usize::MAX,
            fix_order: vec![vec!["rnd"], vec!["rnd", "ch"]],
        }
    }
    pub fn function(&mut self, s: &str) {
        if !self.functions.iter().any(|x| x == s) {
            self.functions.push(s.into())
        }
    }
    pub fn bound(&mut self, s: &str) {
        if !self.bounds.iter().any(|x| x == s) {
            self.bounds.push(s.into())
        }
    }
    pub fn assumption(&mut self, s: &str) {
        if !self.assumptions.iter().any(|x| x == s) {
            self.assumptions.push(s.into())
        }
    }
    pub fn log(&self, s: &str) {
        if std::env::var("SYM_LOG").is_ok() {
            eprintln!("[{} {:.1}s] {}", self.prop, self.t0.elapsed().as_secs_f64(), s);
        }
    }
    pub fn violation(&mut self, key: &str, what: &str, replay: serde_json::Value) {
        self.log(&format!("VIOLATION {} {}", key, what));
        self.obligations.push((key.into(), "violated".into()));
        self.violations.push(Finding { key: key.into(), what: what.into(), replay });
        if !self.known.iter().any(|k| k == key) {
            self.fresh += 1;
            self.first.get_or_insert_with(Instant::now);
        }
        self.enough();
    }
    /// a few replayed violations settle the verdict; the rest is not explored
    fn enough(&self) {
        let late = self.first.map_or(false, |t| t.elapsed().as_secs() >= if self.thorough { 600 } else { 40 });
        if self.fresh >= 4 || late {
            self.finish()
        }
    }
    pub fn inconclusive(&mut self, key: &str, why: &str) {
        self.log(&format!("inconclusive {} {}", key, why));
        self.obligations.push((key.into(), "inconclusive".into()));
        self.inconclusive.push(format!("{}: {}", key, why));
        self.enough();
    }
    pub fn ok(&mut self, key: &str) {
        self.log(&format!("ok {}", key));
        self.obligations.push((key.into(), "discharged".into()));
        self.enough();
    }

    /// the solver's verdict, at the full bound if it answers, otherwise with
    /// the variables of `fix_order` fixed (a smaller bound, reported)
    pub fn decide(&mut self, key: &str, f: &Fm) -> Verdict {
        let none = std::collections::HashSet::new();
        let (cap, t) = if self.thorough { (600_000, 120) } else { (60_000, 30) };
        if let Some(v) = try_expanded(f, cap, &none, t) {
            if !matches!(v, Verdict::Unknown(_)) {
                return v;
            }
        } else if self.thorough {
            let v = try_dag(f, 60);
            if !matches!(v, Verdict::Unknown(_)) {
                return v;
            }
        }
        let mut last = 0;
        for pre in self.fix_order.clone() {
            let fx = fix_by_prefix(f, &pre);
            if fx.len() == last {
                continue;
            }
            last = fx.len();
            match try_expanded(f, cap * 2, &fx, t) {
                Some(Verdict::Unsat) => {
                    self.reduced.push(format!("{} (fixed: {} variables {})", key, fx.len(), pre.join("*,")));
                    return Verdict::Unsat;
                }
                Some(Verdict::Sat(m)) => return Verdict::Sat(m),
                _ => {}
            }
        }
        try_dag(f, self.timeout)
    }

    /// the formula must be unsatisfiable; a model is handed to `replay`, which
    /// re-runs the code concretely and says whether the violation reproduces
    pub fn must_be_unsat(
        &mut self,
        key: &str,
        f: &Fm,
        what: &str,
        replay: &mut dyn FnMut(&HashMap<String, Fr>) -> Option<bool>,
    ) -> bool {
        match self.decide(key, f) {
            Verdict::Unsat => {
                self.ok(key);
                true
            }
            Verdict::Sat(m) => {
                let semantic = eval_fm(f, &m);
                let mj: serde_json::Map<String, serde_json::Value> =
                    m.iter().map(|(k, v)| (k.clone(), serde_json::Value::String(dec(v)))).collect();
                if semantic == Some(false) {
                    self.inconclusive(key, "solver model does not satisfy the formula when evaluated");
                    return false;
                }
                match replay(&m) {
                    Some(true) => {
                        self.replays += 1;
                        self.violation(key, what, serde_json::json!({"model": mj, "replayed": true}));
                    }
                    Some(false) => self.inconclusive(key, &format!("model did not replay: {:?}", mj)),
                    None => self.inconclusive(key, "no replay"),
                }
                false
            }
            Verdict::Unknown(u) => {
                self.inconclusive(key, &format!("solver: {}", u));
                false
            }
        }
    }

    /// Every equality the run relied on (`valid`) must hold for all values of
    /// the symbolic variables, given the path condition. `replay` re-runs the
    /// real code with the variables bound to the solver's model.
    pub fn discharge_valid(
        &mut self,
        key: &str,
        conds_: &[Cond],
        valid: &[(Id, Id)],
        what: &str,
        replay: &mut dyn FnMut(&HashMap<String, Fr>) -> Option<bool>,
    ) -> bool {
        if valid.is_empty() {
            self.ok(key);
            return true;
        }
        let eqs: Vec<Cond> = conds_.iter().filter(|c| matches!(c, Cond::Eq(..))).cloned().collect();
        let mut all = true;
        for (k, ch) in valid.chunks(8).enumerate() {
            let bad = Fm::Or(ch.iter().map(|(a, b)| Fm::Not(Box::new(Fm::Eq(*a, *b)))).collect());
            let weak = Fm::And(vec![conds(&eqs), bad.clone()]);
            let name = if valid.len() > 8 { format!("{}#{}", key, k) } else { key.to_string() };
            match self.decide(&name, &weak) {
                Verdict::Unsat => self.ok(&name),
                _ => {
                    let full = Fm::And(vec![conds(conds_), bad]);
                    all &= self.must_be_unsat(&name, &full, what, replay);
                }
            }
        }
        all
    }

    /// `f` is an honest run that must end in acceptance for every value of its
    /// symbolic inputs: the run must reach `true`, and every equality it relied
    /// on must be valid.
    pub fn must_accept(&mut self, key: &str, what: &str, f: &mut dyn FnMut() -> bool) -> bool {
        let e = run_once(vec![], f);
        self.assumed += e.assumed.len() as u64;
        match &e.out {
            Out::Done(true) => {
                self.witnesses += 1;
                let (c, v) = (e.conds.clone(), e.valid.clone());
                self.discharge_valid(key, &c, &v, what, &mut |m| Some(!accepted(&replay_bound(m, f))))
            }
            Out::Unsupported(u) => {
                self.inconclusive(key, &format!("unsupported: {}", u));
                false
            }
            other => {
                let why = match other {
                    Out::Panic(p) => format!("{} (panic: {})", what, p),
                    _ => format!("{} (honest run rejected)", what),
                };
                // the path condition is satisfied by the fingerprint point; ask
                // the solver for a point of its own
                let pc = e.pc();
                match check_sat(&pc, self.timeout) {
                    Verdict::Sat(m) => {
                        if !accepted(&replay_bound(&m, f)) {
                            self.replays += 1;
                            self.violation(key, &why, model_json(&m));
                        } else {
                            self.inconclusive(key, "rejecting run did not replay");
                        }
                    }
                    Verdict::Unsat => self.inconclusive(key, "rejecting path infeasible?"),
                    Verdict::Unknown(u) => {
                        // the fingerprint point itself is a model of the path
                        let m = HashMap::new();
                        if !accepted(&replay_bound(&m, f)) {
                            self.replays += 1;
                            self.violation(key, &why, serde_json::json!({"point": "fingerprint", "solver": u}));
                        } else {
                            self.inconclusive(key, &u);
                        }
                    }
                }
                false
            }
        }
    }

    /// The verifier (run by `f` in exploring mode on arbitrary symbolic data)
    /// accepts exactly when `spec` (stored in the slot by `f` before it calls
    /// the verifier) holds. A panic counts as "not accepted".
    /// `need_reject`: also require that no point satisfying the specification
    /// is rejected.
    pub fn verifier_equiv(
        &mut self,
        key: &str,
        max_paths: usize,
        need_complete: bool,
        f: &mut dyn FnMut(&mut Option<Fm>) -> bool,
    ) -> bool {
        let mut specs: Vec<Option<Fm>> = vec![];
        let ends = {
            let specs = &mut specs;
            explore(max_paths, self.flips, || {
                let mut slot = None;
                let r = std::panic::catch_unwind(AssertUnwindSafe(|| exploring(|| f(&mut slot))));
                specs.push(slot);
                match r {
                    Ok(b) => b,
                    Err(e) => std::panic::resume_unwind(e),
                }
            })
        };
        let ends = match ends {
            None => {
                self.inconclusive(key, "path budget exhausted");
                return false;
            }
            Some(e) => e,
        };
        let n0 = self.violations.len() + self.inconclusive.len();
        let mut n_acc = 0;
        let mut n_cov = 0;
        for (i, (e, sp)) in ends.iter().zip(specs.iter()).enumerate() {
            self.assumed += e.assumed.len() as u64;
            let acc = match &e.out {
                Out::Done(b) => *b,
                Out::Panic(_) => false,
                Out::Unsupported(u) => {
                    self.inconclusive(key, &format!("unsupported: {}", u));
                    return false;
                }
            };
            let sp = match sp {
                Some(s) => s.clone(),
                None => {
                    self.inconclusive(key, "no specification recorded on a path");
                    return false;
                }
            };
            let pc = e.pc();
            let mut rp = |m: &HashMap<String, Fr>| -> Option<bool> {
                let mut slot = None;
                let e = replay_bound(m, &mut || {
                    let mut s2 = None;
                    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&mut s2)));
                    slot = s2;
                    match r {
                        Ok(b) => b,
                        Err(e) => std::panic::resume_unwind(e),
                    }
                });
                let sp = eval_fm(&slot?, &HashMap::new())?;
                let a = accepted(&e);
                Some(a != sp)
            };
            if acc {
                n_acc += 1;
                self.discharge_valid(&format!("{}/path{}/valid", key, i), &e.conds, &e.valid, "value-level coincidence", &mut rp);
                self.must_be_unsat(
                    &format!("{}/path{}/accept=>spec", key, i),
                    &Fm::And(vec![pc.clone(), not(sp.clone())]),
                    "the verifier accepts although the specified check fails",
                    &mut rp,
                );
                // vacuity: the accepting path is reachable
                if n_cov == 0 {
                    n_cov += 1;
                    if let Some(Verdict::Sat(_)) = try_expanded(&pc, 20_000, &Default::default(), 5) {
                        self.witnesses += 1;
                    }
                }
            } else if need_complete {
                self.must_be_unsat(
                    &format!("{}/path{}/reject=>!spec", key, i),
                    &Fm::And(vec![pc.clone(), sp.clone()]),
                    "the verifier rejects although the specified check holds",
                    &mut rp,
                );
            }
        }
        if n_acc == 0 {
            self.ok(&format!("{}/no accepting path among {}", key, ends.len()));
        }
        n0 == self.violations.len() + self.inconclusive.len()
    }

    /// `f` runs the real code and returns pairs that must be equal for every
    /// value of the symbolic inputs
    pub fn must_hold(&mut self, key: &str, what: &str, f: &mut dyn FnMut() -> Vec<(SymF, SymF)>) -> bool {
        let e = run_once(vec![], f);
        self.assumed += e.assumed.len() as u64;
        match &e.out {
            Out::Done(v) => {
                self.witnesses += 1;
                if v.is_empty() {
                    return true;
                }
                let mut pairs: Vec<(Id, Id)> = v.iter().map(|(a, b)| (a.0, b.0)).collect();
                pairs.extend(e.valid.iter().cloned());
                self.discharge_valid(key, &e.conds, &pairs, what, &mut |m| {
                    let r = replay_bound(m, f);
                    match r.out {
                        Out::Done(v) => Some(v.iter().any(|(a, b)| a.as_const() != b.as_const())),
                        Out::Panic(_) => Some(true),
                        _ => None,
                    }
                })
            }
            Out::Panic(p) => {
                let p = p.clone();
                let m = match check_sat(&e.pc(), 20) {
                    Verdict::Sat(m) => m,
                    _ => HashMap::new(),
                };
                let r = replay_bound(&m, f);
                if matches!(r.out, Out::Panic(_)) {
                    self.replays += 1;
                    self.violation(key, &format!("{} (panic: {})", what, p), model_json(&m));
                } else {
                    self.inconclusive(key, &p);
                }
                false
            }
            Out::Unsupported(u) => {
                self.inconclusive(key, u);
                false
            }
        }
    }

    pub fn finish(&self) -> ! {
        let s = stats();
        let paths = PATHS.load(std::sync::atomic::Ordering::Relaxed);
        let forks = FORKS.load(std::sync::atomic::Ordering::Relaxed);
        let v: Vec<serde_json::Value> = self
            .violations
            .iter()
            .map(|f| serde_json::json!({"key": f.key, "what": f.what, "replay": f.replay}))
            .collect();
        let disch = self.obligations.iter().filter(|o| o.1 == "discharged").count();
        let sample: Vec<_> = self
            .obligations
            .iter()
            .take(12)
            .map(|o| serde_json::json!({"obligation": o.0, "result": o.1}))
            .collect();
        let j = serde_json::json!({
            "property": self.prop, "config": self.config,
            "obligations": self.obligations.len(), "discharged": disch,
            "violations": v, "inconclusive": self.inconclusive,
            "functions": self.functions, "bounds": self.bounds,
            "paths": paths, "decisions": forks, "generic_assumptions": self.assumed,
            "replays": self.replays, "witnesses": self.witnesses, "native": self.native, "assumptions": self.assumptions,
            "queries": s.queries, "unsat": s.unsat, "sat": s.sat, "unknown": s.unknown,
            "solver_s": s.secs, "max_query_s": s.max_secs, "reduced_bound": self.reduced, "expanded_queries": s.expanded,
            "wall_s": self.t0.elapsed().as_secs_f64(), "samples": sample,
        });
        if let Ok(p) = std::env::var("SYM_OUT") {
            std::fs::write(p, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        } else {
            println!("{}", serde_json::to_string_pretty(&j).unwrap());
        }
        let code = if !self.violations.is_empty() {
            1
        } else if !self.inconclusive.is_empty() || disch == 0 {
            2
        } else {
            0
        };
        std::process::exit(code)
    }
}
