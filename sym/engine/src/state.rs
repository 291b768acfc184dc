//! Expression arena, path decisions and the random-oracle/randomness tables.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, PrimeField, Zero};
use std::collections::HashMap;
use std::sync::{LazyLock, Mutex, MutexGuard};

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Fr),
    Var(u32),
    Add(Id, Id),
    Mul(Id, Id),
    Neg(Id),
    Inv(Id),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    Eq(Id, Id),
    Ne(Id, Id),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// symbolic comparisons take their generic outcome; the disequality is
    /// recorded as an assumption (stated bound), never explored
    Generic,
    /// symbolic comparisons fork: both outcomes are explored
    Explore,
}

pub struct State {
    pub nodes: Vec<Node>,
    pub fps: Vec<Fr>,
    pub cons: HashMap<Node, Id>,
    pub vars: Vec<String>,
    pub var_by_name: HashMap<String, Id>,
    pub bind: HashMap<String, Fr>,
    pub bind_all: bool,
    pub rnd_prefix: &'static str,
    pub optimistic: bool,
    /// bytes read as a field element are that element, not a challenge
    pub plain_bytes: bool,
    /// variables with these name prefixes are taken to be nonzero
    pub nonzero: Vec<&'static str>,
    pub seed: u64,
    // per run
    pub bytes_to_node: HashMap<[u8; 32], Id>,
    pub chal: HashMap<Vec<u8>, Id>,
    pub chal_log: Vec<(Vec<u8>, Id)>,
    pub n_ch: u32,
    pub n_rnd: u32,
    pub rng_ctr: u64,
    pub mode: Mode,
    pub prefix: Vec<bool>,
    pub taken: Vec<(bool, bool)>, // (outcome, may be flipped)
    pub conds: Vec<Cond>,
    pub assumed: Vec<Cond>,
    pub valid: Vec<(Id, Id)>,
    pub unsupported: Option<String>,
    pub order_cmps: u64,
    pub order_flip: bool,
    pub zero: Id,
    pub one: Id,
    pub forks: u64,
}

pub static ST: LazyLock<Mutex<State>> = LazyLock::new(|| Mutex::new(State::new()));

pub fn st() -> MutexGuard<'static, State> {
    match ST.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn hash_fr(s: &str, seed: u64) -> Fr {
    // simple splitmix-based expansion: the value is only an identity fingerprint
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut out = [0u8; 64];
    for i in 0..8 {
        h = h.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        out[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    Fr::from_le_bytes_mod_order(&out)
}

impl State {
    pub fn new() -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut s = State {
            nodes: vec![],
            fps: vec![],
            cons: HashMap::new(),
            vars: vec![],
            var_by_name: HashMap::new(),
            bind: HashMap::new(),
            bind_all: false,
            rnd_prefix: "rnd",
            optimistic: false,
            plain_bytes: false,
            nonzero: vec![],
            seed,
            bytes_to_node: HashMap::new(),
            chal: HashMap::new(),
            chal_log: vec![],
            n_ch: 0,
            n_rnd: 0,
            rng_ctr: 0,
            mode: Mode::Generic,
            prefix: vec![],
            taken: vec![],
            conds: vec![],
            assumed: vec![],
            valid: vec![],
            unsupported: None,
            order_cmps: 0,
            order_flip: false,
            zero: 0,
            one: 0,
            forks: 0,
        };
        s.zero = s.mk(Node::Const(Fr::zero()), Fr::zero());
        s.one = s.mk(Node::Const(Fr::one()), Fr::one());
        s
    }

    /// start a fresh run (arena and variable names persist)
    pub fn reset_run(&mut self, prefix: Vec<bool>) {
        self.bytes_to_node.clear();
        self.chal.clear();
        self.chal_log.clear();
        self.n_ch = 0;
        self.n_rnd = 0;
        self.rng_ctr = 0;
        self.mode = Mode::Generic;
        self.prefix = prefix;
        self.taken.clear();
        self.conds.clear();
        self.assumed.clear();
        self.valid.clear();
        self.unsupported = None;
        self.rnd_prefix = "rnd";
    }

    fn mk(&mut self, n: Node, fp: Fr) -> Id {
        if let Some(&i) = self.cons.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n);
        self.fps.push(fp);
        self.cons.insert(n, i);
        i
    }

    pub fn cst(&mut self, f: Fr) -> Id {
        self.mk(Node::Const(f), f)
    }

    pub fn is_const(&self, a: Id) -> Option<Fr> {
        match self.nodes[a as usize] {
            Node::Const(f) => Some(f),
            _ => None,
        }
    }

    pub fn var(&mut self, name: &str) -> Id {
        if let Some(f) = self.bind.get(name).copied() {
            return self.cst(f);
        }
        if self.bind_all {
            let f = hash_fr(name, self.seed);
            return self.cst(f);
        }
        if let Some(&i) = self.var_by_name.get(name) {
            return i;
        }
        let v = self.vars.len() as u32;
        self.vars.push(name.to_string());
        let fp = hash_fr(name, self.seed);
        let i = self.mk(Node::Var(v), fp);
        self.var_by_name.insert(name.to_string(), i);
        i
    }

    /// in a bound run a term made outside the run takes its value under the
    /// binding (all terms the run itself makes are constants)
    pub fn res(&mut self, a: Id) -> Id {
        if !self.bind_all {
            return a;
        }
        match self.nodes[a as usize] {
            Node::Const(_) => a,
            Node::Var(v) => {
                let name = self.vars[v as usize].clone();
                self.var(&name)
            }
            Node::Add(x, y) => self.add(x, y),
            Node::Mul(x, y) => self.mul(x, y),
            Node::Neg(x) => self.neg(x),
            Node::Inv(x) => {
                let x = self.res(x);
                if self.is_const(x).map(|f| f.is_zero()).unwrap_or(false) {
                    return self.zero;
                }
                self.inv(x)
            }
        }
    }

    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = (self.res(a), self.res(b));
        if a == self.zero {
            return b;
        }
        if b == self.zero {
            return a;
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst(x + y);
        }
        if self.nodes[a as usize] == Node::Neg(b) || self.nodes[b as usize] == Node::Neg(a) {
            return self.zero;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let fp = self.fps[a as usize] + self.fps[b as usize];
        self.mk(Node::Add(a, b), fp)
    }

    pub fn neg(&mut self, a: Id) -> Id {
        let a = self.res(a);
        match self.nodes[a as usize] {
            Node::Const(f) => self.cst(-f),
            Node::Neg(b) => b,
            _ => {
                let fp = -self.fps[a as usize];
                self.mk(Node::Neg(a), fp)
            }
        }
    }

    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = (self.res(a), self.res(b));
        if a == self.zero || b == self.zero {
            return self.zero;
        }
        if a == self.one {
            return b;
        }
        if b == self.one {
            return a;
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst(x * y);
        }
        if self.nodes[a as usize] == Node::Inv(b) || self.nodes[b as usize] == Node::Inv(a) {
            return self.one;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let fp = self.fps[a as usize] * self.fps[b as usize];
        self.mk(Node::Mul(a, b), fp)
    }

    /// caller has established a != 0
    pub fn inv(&mut self, a: Id) -> Id {
        let a = self.res(a);
        match self.nodes[a as usize] {
            Node::Const(f) => self.cst(f.inverse().expect("inverse of zero constant")),
            Node::Inv(b) => b,
            _ => {
                let fp = self.fps[a as usize].inverse().unwrap_or_else(Fr::zero);
                self.mk(Node::Inv(a), fp)
            }
        }
    }

    /// symbolic equality test: decides the branch the program takes
    pub fn eq(&mut self, a: Id, b: Id) -> bool {
        let (a, b) = (self.res(a), self.res(b));
        if a == b {
            return true;
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return x == y;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        // already decided on this path
        if self.conds.contains(&Cond::Eq(a, b)) {
            return true;
        }
        if self.conds.contains(&Cond::Ne(a, b)) {
            return false;
        }
        if self.fps[a as usize] == self.fps[b as usize] {
            // observed equal: must be valid under the path condition (obligation)
            if !self.valid.contains(&(a, b)) {
                self.valid.push((a, b));
            }
            return true;
        }
        if !self.nonzero.is_empty() {
            let (z, o) = if self.is_const(a).is_some() { (a, b) } else { (b, a) };
            if let (true, Node::Var(k)) = (z == self.zero, self.nodes[o as usize]) {
                let name = &self.vars[k as usize];
                let hit = |p: &&str| match p.split_once('*') {
                    Some((a, b)) => name.starts_with(a) && name.ends_with(b),
                    None => name.starts_with(*p),
                };
                if self.nonzero.iter().any(hit) {
                    let c = Cond::Ne(a, b);
                    self.conds.push(c);
                    if !self.assumed.contains(&c) {
                        self.assumed.push(c);
                    }
                    return false;
                }
            }
        }
        if self.mode == Mode::Generic && self.optimistic && self.is_const(a).is_none() && self.is_const(b).is_none() {
            self.conds.push(Cond::Eq(a, b));
            return true;
        }
        if self.mode == Mode::Generic {
            let c = Cond::Ne(a, b);
            self.conds.push(c);
            self.assumed.push(c);
            return false;
        }
        self.forks += 1;
        let k = self.taken.len();
        let out = if k < self.prefix.len() { self.prefix[k] } else { false };
        self.taken.push((out, true));
        self.conds.push(if out { Cond::Eq(a, b) } else { Cond::Ne(a, b) });
        out
    }

    pub fn bytes_of(&mut self, a: Id) -> [u8; 32] {
        let a = self.res(a);
        let fp = self.fps[a as usize];
        let r = fp.into_repr();
        let mut out = [0u8; 32];
        for i in 0..4 {
            out[i * 8..i * 8 + 8].copy_from_slice(&r.0[i].to_le_bytes());
        }
        match self.bytes_to_node.get(&out).copied() {
            None => {
                self.bytes_to_node.insert(out, a);
            }
            Some(o) if o == a => {}
            Some(o) => {
                let p = if o <= a { (o, a) } else { (a, o) };
                if self.is_const(o).is_none() || self.is_const(a).is_none() {
                    if !self.valid.contains(&p) {
                        self.valid.push(p);
                    }
                }
            }
        }
        out
    }

    pub fn node_of_bytes(&mut self, b: &[u8; 32]) -> Option<Id> {
        if let Some(&i) = self.bytes_to_node.get(b) {
            return Some(i);
        }
        // a plain constant
        let mut l = [0u64; 4];
        for i in 0..4 {
            let mut t = [0u8; 8];
            t.copy_from_slice(&b[i * 8..i * 8 + 8]);
            l[i] = u64::from_le_bytes(t);
        }
        Fr::from_repr(ark_ff::BigInteger256(l)).map(|f| self.cst(f))
    }

    /// how many challenge/randomness variables the run has created so far
    /// (the next one gets this number)
    pub fn n_rnd_vars(&self) -> u32 {
        self.n_ch
    }

    pub fn challenge(&mut self, bytes: &[u8], prefix: &str) -> Id {
        if let Some(&i) = self.chal.get(bytes) {
            return i;
        }
        let name = format!("{}{}", prefix, self.n_ch);
        self.n_ch += 1;
        let i = self.var(&name);
        self.chal.insert(bytes.to_vec(), i);
        self.chal_log.push((bytes.to_vec(), i));
        i
    }
}

/// in generic mode, take equality tests between two symbolic terms to hold
/// (the accepting side of a verifier that stops at the first failing check)
pub fn plain_bytes(on: bool) {
    st().plain_bytes = on;
}
pub fn optimistic(on: bool) {
    st().optimistic = on;
}

/// take the variables whose names match one of these (a prefix, or
/// prefix*suffix) to be nonzero
/// (a stated bound, recorded as an assumption of every path that uses it)
pub fn assume_nonzero(p: &[&'static str]) {
    st().nonzero = p.to_vec();
}

/// name prefix of the variables that stand for random draws from here on
pub fn draws(prefix: &'static str) {
    st().rnd_prefix = prefix;
}
