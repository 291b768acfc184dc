//! Constraint rows over bits, lowered to a network of bits: booleanity rows
//! mark a wire as a bit, gate rows define a wire as a truth table of others,
//! packed additions define the bits of an integer sum. The lowering is itself
//! discharged by queries (finite-field for gates, integer for packed sums);
//! equality with the specification is decided by bit-vector queries, cut at
//! words already proved equal.
use crate::tape::*;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use num_bigint::{BigInt, BigUint, Sign};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use symeng::*;
use zkp_r1cs::Index;

pub type F = Fr381;
pub type Tp = Tape<F>;
pub type Bit = usize;
pub type Word = [Bit; 32];
pub const LANES: usize = 16;
pub type Sim = [u64; LANES];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    C(bool),
    Var(usize),
    Tt(Vec<Bit>, u64),
    Sb(usize, usize),
}
#[derive(Clone, Debug)]
pub struct Sum {
    pub terms: Vec<(Bit, i128)>,
    pub k: i128,
    /// how the specification wrote it
    pub operands: Vec<Word>,
}

/// one incremental solver process
pub struct Z3 {
    ch: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
    pub queries: u64,
    pub secs: f64,
    pub max: f64,
}
impl Z3 {
    pub fn new() -> Self {
        let mut ch = Command::new("z3-new").args(["-in", "-memory:6000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3");
        let i = ch.stdin.take().unwrap();
        let o = BufReader::new(ch.stdout.take().unwrap());
        Z3 { ch, i, o, queries: 0, secs: 0.0, max: 0.0 }
    }
    pub fn ask(&mut self, script: &str, timeout_ms: u64) -> String {
        let t = std::time::Instant::now();
        let w = write!(self.i, "(reset)\n(set-option :timeout {})\n{}\n(echo \"done\")\n", timeout_ms, script).and_then(|_| self.i.flush());
        let mut s = String::new();
        if w.is_ok() {
            loop {
                let mut l = String::new();
                match self.o.read_line(&mut l) {
                    Ok(0) | Err(_) => break,
                    _ => {}
                }
                if l.trim() == "done" {
                    break;
                }
                s.push_str(&l);
            }
        }
        self.queries += 1;
        let d = t.elapsed().as_secs_f64();
        self.secs += d;
        if d > self.max {
            self.max = d
        }
        s
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

pub struct Net {
    pub nodes: Vec<N>,
    hc: HashMap<N, Bit>,
    pub sums: Vec<Sum>,
    pub sim: Vec<Sim>,
    sum_sim: Vec<Option<Vec<i128>>>,
    pub rep: HashMap<Bit, Bit>,
    pub vars: Vec<(String, Sim)>,
    pub z3: Z3,
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

impl Net {
    pub fn new() -> Self {
        Net { nodes: vec![], hc: HashMap::new(), sums: vec![], sim: vec![], sum_sim: vec![], rep: HashMap::new(), vars: vec![], z3: Z3::new() }
    }
    fn mk(&mut self, n: N) -> Bit {
        if let Some(b) = self.hc.get(&n) {
            return *b;
        }
        let s = self.sim_of(&n);
        self.nodes.push(n.clone());
        self.sim.push(s);
        self.hc.insert(n, self.nodes.len() - 1);
        self.nodes.len() - 1
    }
    pub fn c(&mut self, b: bool) -> Bit {
        self.mk(N::C(b))
    }
    pub fn var(&mut self, name: &str) -> Bit {
        let i = match self.vars.iter().position(|v| v.0 == name) {
            Some(i) => i,
            None => {
                let i = self.vars.len();
                let mut s = [0u64; LANES];
                for (k, x) in s.iter_mut().enumerate() {
                    *x = mix(((i as u64) << 8) + k as u64 + 0x5eed);
                }
                // corner lanes: all zero, all one, alternating
                s[0] &= !0b1111;
                s[0] |= 0b0010;
                if i % 2 == 0 {
                    s[0] |= 0b0100
                } else {
                    s[0] |= 0b1000
                }
                self.vars.push((name.into(), s));
                i
            }
        };
        self.mk(N::Var(i))
    }
    pub fn tt(&mut self, sup: Vec<Bit>, t: u64) -> Bit {
        // constants and repeated operands fold
        let mut order: Vec<Bit> = vec![];
        for b in &sup {
            if !matches!(self.nodes[*b], N::C(_)) && !order.contains(b) {
                order.push(*b)
            }
        }
        order.sort();
        let m = order.len();
        let mut nt = 0u64;
        for a in 0..1usize << m {
            let mut idx = 0;
            for (k, b) in sup.iter().enumerate() {
                let v = match self.nodes[*b] {
                    N::C(c) => c,
                    _ => a >> order.iter().position(|x| x == b).unwrap() & 1 == 1,
                };
                if v {
                    idx |= 1 << k
                }
            }
            if t >> idx & 1 == 1 {
                nt |= 1 << a
            }
        }
        // drop operands that do not matter
        let (mut order, mut nt) = (order, nt);
        let mut k = 0;
        while k < order.len() {
            let m = order.len();
            let (mut f0, mut f1) = (0u64, 0u64);
            let mut j = 0;
            for a in 0..1usize << m {
                if a >> k & 1 == 0 {
                    let hi = a | 1 << k;
                    if nt >> a & 1 == 1 {
                        f0 |= 1 << j
                    }
                    if nt >> hi & 1 == 1 {
                        f1 |= 1 << j
                    }
                    j += 1;
                }
            }
            if f0 == f1 {
                order.remove(k);
                nt = f0;
            } else {
                k += 1;
            }
        }
        if order.is_empty() {
            return self.c(nt & 1 == 1);
        }
        if order.len() == 1 && nt & 3 == 0b10 {
            return order[0];
        }
        self.mk(N::Tt(order, nt))
    }
    pub fn not(&mut self, a: Bit) -> Bit {
        self.tt(vec![a], 0b01)
    }
    pub fn xor(&mut self, a: Bit, b: Bit) -> Bit {
        self.tt(vec![a, b], 0b0110)
    }
    pub fn sum(&mut self, terms: Vec<(Bit, i128)>, k: i128, operands: Vec<Word>) -> usize {
        self.sums.push(Sum { terms, k, operands });
        self.sum_sim.push(None);
        self.sums.len() - 1
    }
    pub fn sbit(&mut self, s: usize, i: usize) -> Bit {
        self.mk(N::Sb(s, i))
    }
    fn sim_of(&mut self, n: &N) -> Sim {
        let mut o = [0u64; LANES];
        match n {
            N::C(b) => {
                if *b {
                    o = [!0; LANES]
                }
            }
            N::Var(i) => o = self.vars[*i].1,
            N::Tt(sup, t) => {
                for (w, x) in o.iter_mut().enumerate() {
                    for a in 0..1usize << sup.len() {
                        if t >> a & 1 == 1 {
                            let mut m = !0u64;
                            for (k, b) in sup.iter().enumerate() {
                                let v = self.sim[*b][w];
                                m &= if a >> k & 1 == 1 { v } else { !v };
                            }
                            *x |= m;
                        }
                    }
                }
            }
            N::Sb(s, i) => {
                if self.sum_sim[*s].is_none() {
                    let mut v = vec![self.sums[*s].k; 64 * LANES];
                    for (b, c) in &self.sums[*s].terms {
                        let x = self.sim[*b];
                        for (l, y) in v.iter_mut().enumerate() {
                            if x[l / 64] >> (l % 64) & 1 == 1 {
                                *y += c
                            }
                        }
                    }
                    self.sum_sim[*s] = Some(v);
                }
                let v = self.sum_sim[*s].as_ref().unwrap();
                for l in 0..64 * LANES {
                    if (v[l].rem_euclid(1i128 << (i + 1))) >> i & 1 == 1 {
                        o[l / 64] |= 1 << (l % 64)
                    }
                }
            }
        }
        o
    }
    fn is_not(&self, b: Bit) -> bool {
        matches!(&self.nodes[b], N::Tt(s, 1) if s.len() == 1)
    }
    /// the node a bit is, or is the complement of
    fn base(&self, b: Bit) -> (Bit, bool) {
        let (mut b, mut neg) = (self.find(b), false);
        while let N::Tt(s, 1) = &self.nodes[b] {
            if s.len() != 1 {
                break;
            }
            neg = !neg;
            b = self.find(s[0]);
        }
        (b, neg)
    }
    /// record that two bits are equal
    fn merge_bits(&mut self, g: Bit, b: Bit) {
        let ((g, p), (b, q)) = (self.base(g), self.base(b));
        if g == b {
            return;
        }
        // a constant stays the representative
        let (g, b) = if matches!(self.nodes[g], N::C(_)) { (b, g) } else { (g, b) };
        let t = if p == q { b } else { self.not(b) };
        self.rep.insert(g, t);
    }
    pub fn find(&self, mut b: Bit) -> Bit {
        while let Some(r) = self.rep.get(&b) {
            b = *r
        }
        b
    }
    // ---- specification words -------------------------------------------
    pub fn wconst(&mut self, v: u32) -> Word {
        let mut w = [0; 32];
        for (i, b) in w.iter_mut().enumerate() {
            *b = self.c(v >> i & 1 == 1)
        }
        w
    }
    pub fn wadd(&mut self, ops: &[Word]) -> Word {
        let mut t = vec![];
        let mut k = 0i128;
        for w in ops {
            for (i, b) in w.iter().enumerate() {
                match self.nodes[*b] {
                    N::C(true) => k += 1 << i,
                    N::C(false) => {}
                    _ => t.push((*b, 1i128 << i)),
                }
            }
        }
        if t.is_empty() {
            return self.wconst(k as u32);
        }
        let s = self.sum(t, k, ops.to_vec());
        let mut w = [0; 32];
        for (i, b) in w.iter_mut().enumerate() {
            *b = self.sbit(s, i)
        }
        w
    }
    pub fn wxor(&mut self, a: &Word, b: &Word) -> Word {
        let mut w = [0; 32];
        for i in 0..32 {
            w[i] = self.xor(a[i], b[i])
        }
        w
    }
    pub fn wtt3(&mut self, a: &Word, b: &Word, c: &Word, t: u64) -> Word {
        let mut w = [0; 32];
        for i in 0..32 {
            w[i] = self.tt(vec![a[i], b[i], c[i]], t)
        }
        w
    }
    /// choice: a ? b : c
    pub fn wch(&mut self, a: &Word, b: &Word, c: &Word) -> Word {
        // index = a + 2b + 4c
        self.wtt3(a, b, c, tt3(|a, b, c| if a { b } else { c }))
    }
    pub fn wmaj(&mut self, a: &Word, b: &Word, c: &Word) -> Word {
        self.wtt3(a, b, c, tt3(|a, b, c| (a & b) | (a & c) | (b & c)))
    }
    // ---- emission --------------------------------------------------------
    fn form(&self, s: usize, modulus: i128) -> (BTreeMap<Bit, i128>, i128) {
        let mut m = BTreeMap::new();
        let mut k = self.sums[s].k;
        for (b, c) in &self.sums[s].terms {
            self.add_term(&mut m, &mut k, *b, *c);
        }
        m.values_mut().for_each(|v| *v = v.rem_euclid(modulus));
        m.retain(|_, v| *v != 0);
        (m, k.rem_euclid(modulus))
    }
    fn add_term(&self, m: &mut BTreeMap<Bit, i128>, k: &mut i128, b: Bit, c: i128) {
        let b = self.find(b);
        match &self.nodes[b] {
            N::C(true) => *k += c,
            N::C(false) => {}
            N::Tt(s, 1) if s.len() == 1 => {
                *k += c;
                let x = self.find(s[0]);
                *m.entry(x).or_insert(0) -= c
            }
            _ => *m.entry(b).or_insert(0) += c,
        }
    }
    fn flat_operands(&self, s: usize, cuts: &dyn Fn(Bit) -> bool, out: &mut Vec<Word>) {
        for w in &self.sums[s].operands {
            if let N::Sb(t, 0) = self.nodes[w[0]] {
                if (0..32).all(|i| self.nodes[w[i]] == N::Sb(t, i) && self.find(w[i]) == w[i] && !cuts(w[i])) {
                    self.flat_operands(t, cuts, out);
                    continue;
                }
            }
            out.push(*w)
        }
    }
}
pub fn tt3(f: impl Fn(bool, bool, bool) -> bool) -> u64 {
    (0..8).filter(|i| f(i & 1 == 1, i & 2 == 2, i & 4 == 4)).fold(0, |t, i| t | 1 << i)
}
pub fn rotr(w: &Word, by: usize) -> Word {
    let mut o = [0; 32];
    for i in 0..32 {
        o[i] = w[(i + by) % 32]
    }
    o
}

/// SMT-LIB text for cones of bits
struct Emit<'a> {
    net: &'a Net,
    cut: &'a dyn Fn(Bit) -> bool,
    words: Vec<Word>,
    out: String,
    done: BTreeMap<Bit, String>,
    sums: HashMap<(usize, bool), String>,
    vars: BTreeSet<Bit>,
}
impl<'a> Emit<'a> {
    fn bit(&mut self, b0: Bit, root: bool) -> String {
        let b = if root { b0 } else { self.net.find(b0) };
        if let Some(s) = self.done.get(&b) {
            return s.clone();
        }
        let name = format!("b{}", b);
        let s = match &self.net.nodes[b] {
            N::C(x) => return if *x { "true".into() } else { "false".into() },
            N::Var(_) => {
                self.vars.insert(b);
                name.clone()
            }
            _ if !root && (self.cut)(b) && !self.net.is_not(b) => {
                self.vars.insert(b);
                name.clone()
            }
            N::Tt(sup, t) => {
                let ins: Vec<String> = sup.iter().map(|x| self.bit(*x, false)).collect();
                let e = shannon(&ins, *t);
                let nm = format!("g{}", b);
                self.out.push_str(&format!("(define-fun {} () Bool {})\n", nm, e));
                nm
            }
            N::Sb(s, i) => {
                let w = self.sum(*s, *i >= 32);
                let nm = format!("g{}", b);
                self.out.push_str(&format!("(define-fun {} () Bool (= #b1 ((_ extract {i} {i}) {})))\n", nm, w, i = i));
                nm
            }
        };
        self.done.insert(b, s.clone());
        s
    }
    fn word(&mut self, w: &Word, width: usize) -> String {
        // an uncut sum as a term of its own
        if let N::Sb(t, 0) = self.net.nodes[w[0]] {
            if (0..32).all(|i| self.net.nodes[w[i]] == N::Sb(t, i) && self.net.find(w[i]) == w[i] && !(self.cut)(w[i])) {
                let s = self.sum(t, false);
                return if width > 32 { format!("((_ zero_extend {}) {})", width - 32, s) } else { s };
            }
        }
        let key: Vec<String> = (0..32).rev().map(|i| {
            let b = self.bit(w[i], false);
            match b.as_str() {
                "true" => "#b1".to_string(),
                "false" => "#b0".to_string(),
                _ => format!("(ite {} #b1 #b0)", b),
            }
        }).collect();
        let c = format!("(concat {})", key.join(" "));
        if width > 32 {
            format!("((_ zero_extend {}) {})", width - 32, c)
        } else {
            c
        }
    }
    fn sum(&mut self, s: usize, wide: bool) -> String {
        if let Some(x) = self.sums.get(&(s, wide)) {
            return x.clone();
        }
        let width = if wide { 40 } else { 32 };
        let md = 1i128 << width;
        let (mut m, mut k) = self.net.form(s, md);
        let mut parts: Vec<String> = vec![];
        let own = !self.net.sums[s].operands.is_empty();
        let words: Vec<Word> = if own { self.net.sums[s].operands.clone() } else { self.words.clone() };
        let of_word = |w: &Word| {
            let (mut wm, mut wk) = (BTreeMap::new(), 0);
            for (i, b) in w.iter().enumerate() {
                self.net.add_term(&mut wm, &mut wk, *b, 1 << i);
            }
            (wm, wk)
        };
        // is it the sum of all the words?
        let mut all = m.clone();
        for w in &words {
            for (b, c) in of_word(w).0 {
                let e = all.entry(b).or_insert(0);
                *e = (*e - c).rem_euclid(md);
            }
        }
        let all = !own && all.values().all(|c| *c == 0);
        let wms: Vec<(BTreeMap<Bit, i128>, i128)> = words.iter().map(|w| of_word(w)).collect();
        for (w, (wm, wk)) in words.into_iter().zip(wms) {
            if all {
                parts.push(self.word(&w, width));
                k = (k - wk).rem_euclid(md);
                continue;
            }
            if own {
                parts.push(self.word(&w, width));
                continue;
            }
            // present in the form?
            let mut r = m.clone();
            for (b, c) in &wm {
                let e = r.entry(*b).or_insert(0);
                *e = (*e - c).rem_euclid(md);
                if *e == 0 {
                    r.remove(b);
                }
            }
            if r.len() <= m.len() && (r.len() < m.len() || wm.is_empty()) {
                m = r;
                k = (k - wk).rem_euclid(md);
                parts.push(self.word(&w, width));
            } else if r.len() == m.len() && !wm.is_empty() {
                // the same word several times
                m = r;
                k = (k - wk).rem_euclid(md);
                parts.push(self.word(&w, width));
            }
        }
        if all {
            m.clear();
        }
        if own {
            m.clear();
            k = 0;
        }
        // what is left, as numbers written in bits
        let mut slots: Vec<Vec<String>> = vec![vec![]; width as usize];
        for (b, c) in m.clone() {
            let x = self.bit(b, false);
            let neg = c.count_ones() > (md - c).count_ones();
            let a = if neg { md - c } else { c };
            for e in 0..width as usize {
                if a >> e & 1 == 1 {
                    if neg {
                        k = (k - (1i128 << e)).rem_euclid(md);
                        slots[e].push(format!("(ite {} #b0 #b1)", x));
                    } else {
                        slots[e].push(format!("(ite {} #b1 #b0)", x));
                    }
                }
            }
        }
        let layers = slots.iter().map(|s| s.len()).max().unwrap_or(0);
        for l in 0..layers {
            let bits: Vec<String> = (0..width as usize).rev().map(|e| slots[e].get(l).cloned().unwrap_or_else(|| "#b0".into())).collect();
            parts.push(format!("(concat {})", bits.join(" ")));
        }
        if k != 0 || parts.is_empty() {
            parts.push(format!("(_ bv{} {})", k, width));
        }
        let e = if parts.len() == 1 { parts[0].clone() } else { format!("(bvadd {})", parts.join(" ")) };
        let nm = format!("s{}_{}", s, width);
        self.out.push_str(&format!("(define-fun {} () (_ BitVec {}) {})\n", nm, width, e));
        self.sums.insert((s, wide), nm.clone());
        nm
    }
}
fn shannon(ins: &[String], t: u64) -> String {
    let n = ins.len();
    let full = if n == 6 { !0u64 } else { (1u64 << (1 << n)) - 1 };
    let t = t & full;
    if t == 0 {
        return "false".into();
    }
    if t == full {
        return "true".into();
    }
    if n == 2 && t == 0b0110 {
        return format!("(xor {} {})", ins[0], ins[1]);
    }
    // parity
    let par = (0..1u64 << n).fold(0u64, |a, i| if i.count_ones() % 2 == 1 { a | 1 << i } else { a });
    if n > 2 && t == par {
        return format!("(xor {})", ins.join(" "));
    }
    if n > 1 && t == full & !par {
        return format!("(not (xor {}))", ins.join(" "));
    }
    let h = 1 << (n - 1);
    let lo = t & ((1u64 << h) - 1);
    let hi = t >> h;
    let (l, u) = (shannon(&ins[..n - 1], lo), shannon(&ins[..n - 1], hi));
    format!("(ite {} {} {})", ins[n - 1], u, l)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Eqv {
    Equal,
    /// model: variable node -> value
    Differs(HashMap<Bit, bool>),
    Unknown(String),
}

impl Net {
    /// are the pairs equal for all values of the cut bits
    pub fn equal(&mut self, pairs: &[(Bit, Bit)], cuts: bool, timeout_ms: u64) -> Eqv {
        self.equal_mode(pairs, cuts, 0, timeout_ms)
    }
    /// mode 0: definitions of unmerged left sides and of all right sides are
    /// used, 1: of both, 2: of the left side only
    pub fn equal_mode(&mut self, pairs: &[(Bit, Bit)], cuts: bool, mode: u8, timeout_ms: u64) -> Eqv {
        let pairs: Vec<(Bit, Bit)> = pairs.iter().filter(|(a, b)| self.find(*a) != self.find(*b)).cloned().collect();
        if pairs.is_empty() {
            return Eqv::Equal;
        }
        let merged: BTreeSet<Bit> = if cuts { self.rep.values().map(|b| self.base(*b).0).collect() } else { Default::default() };
        let rep = if cuts { None } else { Some(std::mem::take(&mut self.rep)) };
        let (script, vars) = {
            let net: &Net = self;
            let cut = |b: Bit| merged.contains(&b);
            let mut words = vec![];
            for (_, b) in &pairs {
                if let N::Sb(s, _) = net.nodes[*b] {
                    net.flat_operands(s, &cut, &mut words);
                    break;
                }
            }
            let mut e = Emit { net, cut: &cut, words, out: String::new(), done: Default::default(), sums: Default::default(), vars: Default::default() };
            let mut diff = vec![];
            for (a, b) in &pairs {
                let merged_a = net.find(*a) != *a || merged.contains(a);
                let x = e.bit(*a, mode > 0 || !cuts || !merged_a);
                let y = e.bit(*b, mode < 2 || !cuts);
                diff.push(format!("(xor {} {})", x, y));
            }
            let mut s = String::new();
            for v in &e.vars {
                s.push_str(&format!("(declare-const b{} Bool)\n", v));
            }
            s.push_str(&e.out);
            s.push_str(&format!("(assert (or false {}))\n(check-sat)\n", diff.join(" ")));
            let vars: Vec<Bit> = e.vars.iter().cloned().collect();
            if !vars.is_empty() {
                s.push_str(&format!("(get-value ({}))\n", vars.iter().map(|v| format!("b{}", v)).collect::<Vec<_>>().join(" ")));
            }
            (s, vars)
        };
        if let Some(r) = rep {
            self.rep = r;
        }
        let out = self.z3.ask(&script, timeout_ms);
        if let Ok(d) = std::env::var("SYM_DUMP") {
            let _ = std::fs::write(format!("{}/bits{}.smt2", d, self.z3.queries), &script);
        }
        match out.lines().next().unwrap_or("") {
            "unsat" => Eqv::Equal,
            "sat" => {
                let mut m = HashMap::new();
                for v in vars {
                    let k = format!("(b{} ", v);
                    if let Some(p) = out.find(&k) {
                        m.insert(v, out[p + k.len()..].starts_with("true"));
                    }
                }
                Eqv::Differs(m)
            }
            o => Eqv::Unknown(format!("{} {}", o, out.chars().take(120).collect::<String>())),
        }
    }
    /// value of nodes at one assignment of the variables
    pub fn eval(&self, roots: &[Bit], asg: &dyn Fn(usize) -> bool) -> HashMap<Bit, bool> {
        let mut v: Vec<bool> = Vec::with_capacity(self.nodes.len());
        let mut sums: HashMap<usize, i128> = HashMap::new();
        for n in &self.nodes {
            let x = match n {
                N::C(b) => *b,
                N::Var(i) => asg(*i),
                N::Tt(s, t) => {
                    let mut a = 0;
                    for (k, b) in s.iter().enumerate() {
                        if v[*b] {
                            a |= 1 << k
                        }
                    }
                    t >> a & 1 == 1
                }
                N::Sb(s, i) => {
                    let y = *sums.entry(*s).or_insert_with(|| self.sums[*s].terms.iter().fold(self.sums[*s].k, |y, (b, c)| if v[*b] { y + c } else { y }));
                    y.rem_euclid(1i128 << (i + 1)) >> i & 1 == 1
                }
            };
            v.push(x);
        }
        roots.iter().map(|b| (*b, v[*b])).collect()
    }
}

// ---------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Def {
    Gate(Vec<Index>, u64),
    SumBit(usize, usize),
}
struct Window {
    terms: Vec<(Index, i128)>,
    k: i128,
}
pub struct Lowered {
    defs: BTreeMap<Index, Def>,
    windows: Vec<Window>,
    boolean: BTreeSet<Index>,
    /// rows that constrain wires already defined
    pub asserts: Vec<usize>,
    pub problems: Vec<String>,
    memo: BTreeMap<Index, Bit>,
    open: BTreeSet<Index>,
    wsum: HashMap<usize, usize>,
    pub gates: usize,
    pub sums: usize,
    free: BTreeMap<Index, Bit>,
}

fn big(f: &F) -> BigInt {
    let n = -*f;
    if n.into_repr() < f.into_repr() {
        -BigInt::from_bytes_le(Sign::Plus, &n.into_repr().to_bytes_le())
    } else {
        BigInt::from_bytes_le(Sign::Plus, &f.into_repr().to_bytes_le())
    }
}
fn merge(l: &Lc<F>) -> (BTreeMap<Index, F>, F) {
    let mut m: BTreeMap<Index, F> = BTreeMap::new();
    let mut k = F::zero();
    for (i, c) in l {
        if *i == Index::Input(0) {
            k += c
        } else {
            *m.entry(*i).or_insert(F::zero()) += c
        }
    }
    m.retain(|_, c| !c.is_zero());
    (m, k)
}
fn v2(x: &BigInt) -> u64 {
    x.magnitude().trailing_zeros().unwrap_or(0)
}
fn rank(i: &Index) -> (u8, usize) {
    match i {
        Index::Input(k) => (0, *k),
        Index::Aux(k) => (1, *k),
    }
}
/// the operand of a row evaluated at bits
fn at(l: &(BTreeMap<Index, F>, F), asg: &BTreeMap<Index, F>) -> F {
    l.0.iter().fold(l.1, |s, (i, c)| s + *c * asg[i])
}

impl Lowered {
    /// `free`: the operand wires, with their bits
    pub fn new(rep: &mut Report, key: &str, t: &Tp, free: &BTreeMap<Index, Bit>, z3: &mut Z3) -> Self {
        let mut lo = Lowered {
            defs: BTreeMap::new(),
            windows: vec![],
            boolean: BTreeSet::new(),
            asserts: vec![],
            problems: vec![],
            memo: BTreeMap::new(),
            open: BTreeSet::new(),
            wsum: HashMap::new(),
            gates: 0,
            sums: 0,
            free: free.clone(),
        };
        type M = (BTreeMap<Index, F>, F);
        let rows: Vec<(M, M, M)> = t.rows.iter().map(|r| (merge(&r[0]), merge(&r[1]), merge(&r[2]))).collect();
        let sup = |r: &(M, M, M)| -> BTreeSet<Index> {
            // a product with a zero factor contributes nothing
            let z = |m: &M| m.0.is_empty() && m.1.is_zero();
            let mut s: BTreeSet<Index> = r.2 .0.keys().cloned().collect();
            if !z(&r.0) && !z(&r.1) {
                s.extend(r.0 .0.keys().cloned());
                s.extend(r.1 .0.keys().cloned());
            }
            s
        };
        let mut todo: Vec<usize> = vec![];
        for (i, r) in rows.iter().enumerate() {
            let s = sup(r);
            if s.len() == 1 {
                let w = *s.iter().next().unwrap();
                let f = |x: u64| {
                    let a: BTreeMap<Index, F> = [(w, F::from(x))].into_iter().collect();
                    at(&r.0, &a) * at(&r.1, &a) - at(&r.2, &a)
                };
                let quad = r.0 .0.contains_key(&w) && r.1 .0.contains_key(&w);
                if quad && f(0).is_zero() && f(1).is_zero() {
                    lo.boolean.insert(w);
                    continue;
                }
            }
            todo.push(i);
        }
        let mut shapes: HashMap<String, bool> = HashMap::new();
        let mut sums = vec![];
        // gates
        loop {
            let mut progress = false;
            let mut next = vec![];
            for i in todo {
                let r = &rows[i];
                let s = sup(r);
                if s.is_empty() {
                    if !(r.0 .1 * r.1 .1 - r.2 .1).is_zero() {
                        lo.problems.push(format!("row {} can never hold", i));
                    }
                    progress = true;
                    continue;
                }
                if s.len() > 6 {
                    sums.push(i);
                    progress = true;
                    continue;
                }
                let known = |w: &Index| lo.free.contains_key(w) || lo.defs.contains_key(w) || lo.boolean.contains(w);
                let unk: Vec<Index> = s.iter().filter(|w| !known(w)).cloned().collect();
                if unk.len() > 1 {
                    next.push(i);
                    continue;
                }
                let undef = |w: &&Index| !lo.free.contains_key(*w) && !lo.defs.contains_key(*w);
                let target = if unk.len() == 1 { Some(unk[0]) } else { s.iter().filter(undef).max_by_key(|w| rank(w)).cloned() };
                progress = true;
                let target = match target {
                    Some(t) => t,
                    None => {
                        lo.asserts.push(i);
                        continue;
                    }
                };
                let others: Vec<Index> = s.iter().filter(|w| **w != target).cloned().collect();
                // the table over `base`, wires in `exp` following from them
                let attempt = |base: &Vec<Index>, exp: &Vec<(Index, Vec<Index>, u64)>| -> Option<u64> {
                    let mut table = 0u64;
                    for a in 0..1usize << base.len() {
                        let mut asg: BTreeMap<Index, F> = base.iter().enumerate().map(|(k, w)| (*w, if a >> k & 1 == 1 { F::one() } else { F::zero() })).collect();
                        for (w, sup, tt) in exp {
                            let mut idx = 0;
                            for (k, x) in sup.iter().enumerate() {
                                if asg[x] == F::one() {
                                    idx |= 1 << k
                                }
                            }
                            asg.insert(*w, if tt >> idx & 1 == 1 { F::one() } else { F::zero() });
                        }
                        let mut f = |x: F| {
                            asg.insert(target, x);
                            at(&r.0, &asg) * at(&r.1, &asg) - at(&r.2, &asg)
                        };
                        let (f0, f1, f2) = (f(F::zero()), f(F::one()), f(F::from(2u64)));
                        // linear in the target, with a solution that is a bit?
                        if !(f2 - f1 - (f1 - f0)).is_zero() || (f1 - f0).is_zero() {
                            return None;
                        }
                        if f1.is_zero() {
                            table |= 1 << a
                        } else if !f0.is_zero() {
                            return None;
                        }
                    }
                    Some(table)
                };
                let mut base = others.clone();
                let mut exp: Vec<(Index, Vec<Index>, u64)> = vec![];
                let mut table = attempt(&base, &exp);
                // some combinations of the operands cannot occur: replace the
                // latest operand by what defines it
                let mut cand: Vec<Index> = others.clone();
                cand.sort_by_key(rank);
                while table.is_none() {
                    let w = match cand.pop() {
                        Some(w) => w,
                        None => break,
                    };
                    if let Some(Def::Gate(sup2, t2)) = lo.defs.get(&w) {
                        let mut nb: Vec<Index> = base.iter().filter(|x| **x != w).cloned().collect();
                        for x in sup2 {
                            if !nb.contains(x) {
                                nb.push(*x)
                            }
                        }
                        if nb.len() > 6 || sup2.contains(&target) {
                            continue;
                        }
                        base = nb;
                        exp.insert(0, (w, sup2.clone(), *t2));
                        table = attempt(&base, &exp);
                    }
                }
                let fine = table.is_some();
                let table = table.unwrap_or(0);
                let others = base;
                if !fine {
                    // does not define a bit; only usable as an assertion
                    lo.asserts.push(i);
                    continue;
                }
                lo.gates += 1;
                // lemma: the row, at bits, forces exactly that bit
                let exn: Vec<(Vec<usize>, u64)> = exp.iter().map(|(_, s, tt)| (s.iter().map(|x| others.iter().position(|o| o == x).unwrap_or(200)).collect(), *tt)).collect();
                let mut names = others.clone();
                names.extend(exp.iter().map(|e| e.0));
                let shape = format!("{:?} {:?} {:x} {:?}", renamed(&t.rows[i], &names, target), others.len(), table, exn);
                if !shapes.contains_key(&shape) {
                    let ok = gate_lemma(rep, &format!("{}/gate{}", key, shapes.len()), &t.rows[i], &others, &exp, target, table);
                    shapes.insert(shape, ok);
                }
                lo.defs.insert(target, Def::Gate(others, table));
            }
            todo = next;
            if todo.is_empty() || !progress {
                break;
            }
        }
        for i in todo {
            lo.asserts.push(i);
        }
        // packed sums
        let p = BigInt::from_bytes_le(Sign::Plus, &<ark_bls12_381::FrParameters as ark_ff::FpParameters>::MODULUS.to_bytes_le());
        for i in sums {
            let r = &rows[i];
            let known = |w: &Index| lo.free.contains_key(w) || lo.defs.contains_key(w) || lo.boolean.contains(w);
            // linear?
            let (ka, kb) = (r.0 .0.is_empty(), r.1 .0.is_empty());
            if !ka && !kb {
                lo.problems.push(format!("row {} multiplies wide combinations", i));
                continue;
            }
            let (lhs, k) = if ka { (&r.1, r.0 .1) } else { (&r.0, r.1 .1) };
            let sides: [M; 2] = [(lhs.0.iter().map(|(w, c)| (*w, *c * k)).filter(|x| !x.1.is_zero()).collect(), lhs.1 * k), r.2.clone()];
            if let Some(w) = sides.iter().flat_map(|s| s.0.keys()).find(|w| !known(w)) {
                lo.problems.push(format!("row {}: wire {:?} is not known to be a bit", i, w));
                continue;
            }
            // the side that is a number written in bits defined nowhere else
            let mut best: Option<(usize, bool, Vec<Index>)> = None;
            for (j, s) in sides.iter().enumerate() {
                if s.0.is_empty() || !s.0.keys().all(|w| !lo.free.contains_key(w) && !lo.defs.contains_key(w)) {
                    continue;
                }
                for neg in [false, true] {
                    let mut by: BTreeMap<u64, Index> = BTreeMap::new();
                    let mut ok = true;
                    for (w, c) in &s.0 {
                        let c = if neg { -big(c) } else { big(c) };
                        ok &= c.sign() == Sign::Plus && c.magnitude().count_ones() == 1 && by.insert(v2(&c), *w).is_none();
                    }
                    ok &= by.keys().cloned().eq(0..by.len() as u64);
                    if ok {
                        let v: Vec<Index> = by.values().cloned().collect();
                        let top = |v: &Vec<Index>| v.iter().map(rank).max();
                        if best.as_ref().map(|b| top(&b.2) < top(&v)).unwrap_or(true) {
                            best = Some((j, neg, v));
                        }
                    }
                }
            }
            let (j, neg, bits) = match best {
                None => {
                    lo.problems.push(format!("row {}: a packed sum constrains wires that are already defined", i));
                    continue;
                }
                Some(b) => b,
            };
            let sg = |f: F| if neg { -big(&f) } else { big(&f) };
            let terms: Vec<(Index, BigInt)> = sides[1 - j].0.iter().map(|(w, c)| (*w, sg(*c))).collect();
            let kk = sg(sides[1 - j].1 - sides[j].1);
            match windows(&terms, &kk, &bits, &p) {
                Err(e) => lo.problems.push(format!("row {}: {}", i, e)),
                Ok(ws) => {
                    lo.sums += 1;
                    let full: Vec<Win> = ws
                        .iter()
                        .map(|w| {
                            let mut t = w.2.clone();
                            t.extend((w.0..w.1).map(|e| (bits[e as usize], -(1i128 << (e - w.0)))));
                            (w.0, w.1, t, w.3)
                        })
                        .collect();
                    if !window_lemma(&full, &terms, &kk, &bits, &p, z3) {
                        rep.inconclusive(&format!("{}/packed{}", key, i), "the packed sum is not shown to split");
                    }
                    for (off, end, mut terms, mut k) in ws {
                        // low bits nothing contributes to
                        let mut sh = 0;
                        while sh < (end - off) as usize && k & 1 == 0 && terms.iter().all(|t| t.1 & 1 == 0) {
                            sh += 1;
                            k >>= 1;
                            terms.iter_mut().for_each(|t| t.1 >>= 1);
                        }
                        lo.windows.push(Window { terms, k });
                        let id = lo.windows.len() - 1;
                        for e in off..end {
                            let i = (e - off) as usize;
                            lo.defs.insert(bits[e as usize], if i < sh { Def::Gate(vec![], 0) } else { Def::SumBit(id, i - sh) });
                        }
                    }
                }
            }
        }
        lo
    }
    /// the bit a wire carries in every satisfying assignment
    pub fn bit(&mut self, net: &mut Net, w: Index) -> Bit {
        if let Some(b) = self.memo.get(&w) {
            return *b;
        }
        if !self.open.insert(w) {
            self.problems.push(format!("the definition of {:?} depends on itself", w));
            let n = format!("undetermined wire {:?}", w);
            return net.var(&n);
        }
        let b = if let Some(b) = self.free.get(&w) {
            *b
        } else {
            match self.defs.get(&w).cloned() {
                None => {
                    let n = format!("undetermined wire {:?}", w);
                    net.var(&n)
                }
                Some(Def::Gate(sup, t)) => {
                    let s: Vec<Bit> = sup.iter().map(|x| self.bit(net, *x)).collect();
                    net.tt(s, t)
                }
                Some(Def::SumBit(id, i)) => {
                    let s = match self.wsum.get(&id) {
                        Some(s) => *s,
                        None => {
                            let ts: Vec<(Index, i128)> = self.windows[id].terms.clone();
                            let terms: Vec<(Bit, i128)> = ts.iter().map(|(x, c)| (self.bit(net, *x), *c)).collect();
                            let s = net.sum(terms, self.windows[id].k, vec![]);
                            self.wsum.insert(id, s);
                            s
                        }
                    };
                    net.sbit(s, i)
                }
            }
        };
        self.memo.insert(w, b);
        b
    }
    /// bits for every wire
    pub fn all(&mut self, net: &mut Net, t: &Tp) -> Vec<(Index, Bit)> {
        let mut v = vec![];
        for i in 1..t.inputs.len() {
            v.push((Index::Input(i), self.bit(net, Index::Input(i))));
        }
        for i in 0..t.aux.len() {
            v.push((Index::Aux(i), self.bit(net, Index::Aux(i))));
        }
        v
    }
    pub fn is_bit(&self, w: &Index) -> bool {
        self.free.contains_key(w) || self.defs.contains_key(w) || self.boolean.contains(w)
    }
}

fn renamed(r: &[Lc<F>; 3], others: &[Index], target: Index) -> Vec<Vec<(usize, String)>> {
    r.iter()
        .map(|l| {
            let mut v: Vec<(usize, String)> = l
                .iter()
                .map(|(i, c)| {
                    let k = if *i == target {
                        100
                    } else if *i == Index::Input(0) {
                        101
                    } else {
                        others.iter().position(|o| o == i).unwrap_or(102)
                    };
                    (k, dec(c))
                })
                .collect();
            v.sort();
            v
        })
        .collect()
}

/// row and bits force target = table(others), over the field
fn gate_lemma(rep: &mut Report, key: &str, r: &[Lc<F>; 3], others: &[Index], exp: &[(Index, Vec<Index>, u64)], target: Index, table: u64) -> bool {
    let w = |i: &Index| -> SymF {
        if *i == Index::Input(0) {
            SymF::one()
        } else if *i == target {
            SymF::var("t")
        } else if let Some(k) = others.iter().position(|o| o == i) {
            SymF::var(&format!("o{}", k))
        } else {
            SymF::var(&format!("e{}", exp.iter().position(|o| o.0 == *i).unwrap_or(99)))
        }
    };
    let l = |x: &Lc<F>| x.iter().fold(SymF::zero(), |s, (i, c)| s + SymF::cst(*c) * w(i));
    let mle = |sup: &[Index], t: u64| -> SymF {
        let mut spec = SymF::zero();
        for a in 0..1usize << sup.len() {
            if t >> a & 1 == 1 {
                let mut m = SymF::one();
                for (k, o) in sup.iter().enumerate() {
                    m = m * if a >> k & 1 == 1 { w(o) } else { SymF::one() - w(o) };
                }
                spec = spec + m;
            }
        }
        spec
    };
    let mut v = vec![eqf(l(&r[0]) * l(&r[1]), l(&r[2]))];
    for o in others {
        v.push(or(vec![eqf(w(o), SymF::zero()), eqf(w(o), SymF::one())]));
    }
    for (x, sup, t) in exp {
        v.push(eqf(w(x), mle(sup, *t)));
    }
    v.push(nef(SymF::var("t"), mle(others, table)));
    rep.must_be_unsat(key, &and(v), "a gate row does not force its result", &mut |_| None)
}

type Win = (u64, u64, Vec<(Index, i128)>, i128);
/// cut the sum into slices, each non-negative and within the result bits at
/// its place: S = sum of 2^off_j * D_j with 0 <= D_j < 2^(end_j - off_j)
fn windows(terms: &[(Index, BigInt)], k: &BigInt, bits: &[Index], p: &BigInt) -> Result<Vec<Win>, String> {
    let zero = BigInt::from(0);
    let bound = |ts: &[(Index, BigInt)], k: &BigInt| -> (BigInt, BigInt) {
        let hi: BigInt = ts.iter().filter(|t| t.1 > zero).map(|t| t.1.clone()).sum::<BigInt>() + k;
        let lo: BigInt = ts.iter().filter(|t| t.1 < zero).map(|t| t.1.clone()).sum::<BigInt>() + k;
        (lo, hi)
    };
    let width = bits.len() as u64;
    let (lo, hi) = bound(terms, k);
    let full = BigInt::from(1) << width;
    if lo < zero || hi >= full {
        return Err(format!("the sum may exceed the bits it is written to ({}..{} in {} bits)", lo, hi, width));
    }
    if &full > p {
        return Err("the packed sum may wrap around the field".into());
    }
    // a coefficient's part below 2^b, and the rest
    let cut = |c: &BigInt, b: u64| -> (BigInt, BigInt) {
        let m = BigInt::from(1) << b;
        let mut l = c % &m;
        if l < zero {
            l += &m
        }
        let h = (c - &l) >> b;
        let (l2, h2) = (&l - &m, &h + 1);
        let key = |l: &BigInt, h: &BigInt| (l.magnitude().clone(), h.magnitude().clone());
        if key(&l2, &h2) < key(&l, &h) {
            (l2, h2)
        } else {
            (l, h)
        }
    };
    let mut rest: Vec<(Index, BigInt)> = terms.to_vec();
    let mut k = k.clone();
    let mut out = vec![];
    let mut off = 0u64;
    while off < width {
        // a slice may not contain both a result bit and a use of it; words
        // first, then as short as possible
        let mut found = None;
        for start in [32u64, 1] {
            let mut b = start.min(width - off);
            while found.is_none() && off + b <= width {
                let last = off + b == width;
                let (low, high): (Vec<_>, Vec<_>) = if last {
                    (rest.clone(), vec![])
                } else {
                    rest.iter().map(|(w, c)| { let (l, h) = cut(c, b); ((*w, l), (*w, h)) }).unzip()
                };
                let m = BigInt::from(1) << b;
                let (kl, kh) = if last { (k.clone(), zero.clone()) } else { (&k % &m, &k >> b) };
                let low: Vec<(Index, BigInt)> = low.into_iter().filter(|t| t.1 != zero).collect();
                let high: Vec<(Index, BigInt)> = high.into_iter().filter(|t| t.1 != zero).collect();
                let (l, h) = bound(&low, &kl);
                if l >= zero && h < m {
                    // bits nothing more contributes to
                    let mut e = b;
                    if start == 32 {
                        let gap = high.iter().map(|t| v2(&t.1)).chain(if kh == zero { None } else { Some(v2(&kh)) }).min().unwrap_or(u64::MAX);
                        e = b.saturating_add(gap.min(8)).min(width - off);
                    }
                    let own: BTreeSet<Index> = bits[off as usize..(off + e) as usize].iter().cloned().collect();
                    if !low.iter().any(|t| own.contains(&t.0)) {
                        let g = e - b;
                        found = Some((e, low, high.into_iter().map(|t| (t.0, t.1 >> g)).collect::<Vec<_>>(), kl, kh >> g));
                    } else if start == 32 {
                        break;
                    }
                }
                b += 1;
            }
        }
        let (e, low, high, kl, kh) = found.ok_or("the packed sum does not split into words")?;
        let mut ts = vec![];
        for (w, c) in &low {
            ts.push((*w, to_i128(c).ok_or("a coefficient is too large")?));
        }
        out.push((off, off + e, ts, to_i128(&kl).ok_or("a constant is too large")?));
        rest = high;
        k = kh;
        off += e;
    }
    Ok(out)
}
fn to_i128(x: &BigInt) -> Option<i128> {
    let (s, d) = x.to_u64_digits();
    if d.len() > 2 || (d.len() == 2 && d[1] >> 40 != 0) {
        return None;
    }
    let v = d.iter().rev().fold(0i128, |a, x| a << 64 | *x as i128);
    Some(if s == Sign::Minus { -v } else { v })
}
/// the slices add up to the row, and (integer query) the row modulo p forces
/// every slice to equal its result bits
fn window_lemma(ws: &[Win], terms: &[(Index, BigInt)], k: &BigInt, bits: &[Index], p: &BigInt, z3: &mut Z3) -> bool {
    let mut m: BTreeMap<Index, BigInt> = BTreeMap::new();
    let mut kk = k.clone();
    for (w, c) in terms {
        *m.entry(*w).or_default() += c
    }
    for (e, w) in bits.iter().enumerate() {
        *m.entry(*w).or_default() -= BigInt::from(1) << e
    }
    for (off, _, ts, k) in ws {
        for (w, c) in ts {
            *m.entry(*w).or_default() -= BigInt::from(*c) << *off
        }
        kk -= BigInt::from(*k) << *off;
    }
    let zero = BigInt::from(0);
    if kk != zero || m.values().any(|c| *c != zero) {
        return false;
    }
    let mut s = String::from("(declare-const k Int)\n");
    let mut sum = vec![];
    for (j, (off, _, ts, k)) in ws.iter().enumerate() {
        let lo: i128 = ts.iter().map(|t| t.1.min(0)).sum::<i128>() + k;
        let hi: i128 = ts.iter().map(|t| t.1.max(0)).sum::<i128>() + k;
        let n = |x: i128| if x < 0 { format!("(- {})", x.unsigned_abs()) } else { x.to_string() };
        s.push_str(&format!("(declare-const d{j} Int)\n(assert (and (<= {} d{j}) (<= d{j} {})))\n", n(lo), n(hi)));
        sum.push(format!("(* {} d{})", BigInt::from(1) << *off, j));
    }
    s.push_str(&format!("(assert (= (+ 0 {}) (* k {})))\n", sum.join(" "), p));
    s.push_str(&format!("(assert (not (and true {})))\n(check-sat)", (0..ws.len()).map(|j| format!("(= d{} 0)", j)).collect::<Vec<_>>().join(" ")));
    z3.ask(&s, 20_000).starts_with("unsat")
}

// ---------------------------------------------------------------------------
/// a word the specification computes on the way
pub struct Mark {
    pub name: String,
    pub bits: Vec<Bit>,
}

/// A circuit against its specification.
/// `outs` gives for each output the linear form over wires and the bit it
/// must equal; `marks` are intermediate words in computing order.
pub fn compare(rep: &mut Report, key: &str, what: &str, t: &Tp, net: &mut Net, free: &BTreeMap<Index, Bit>, outs: &[(Lc<F>, Bit)], marks: &[Mark]) -> bool {
    let mut z3 = Z3::new();
    let n0 = rep.violations.len() + rep.inconclusive.len();
    let mut lo = Lowered::new(rep, key, t, free, &mut z3);
    let wires = lo.all(net, t);
    for p in lo.problems.clone() {
        rep.inconclusive(&format!("{}/lowering", key), &p);
    }
    // first gadget bit for each simulation signature
    let mut sig: HashMap<Sim, Vec<Bit>> = HashMap::new();
    for (_, b) in &wires {
        let v = sig.entry(net.sim[*b]).or_default();
        if v.len() < if net.sim[*b] == [0; LANES] { 80 } else { 24 } && !v.contains(b) {
            v.push(*b)
        }
    }
    let mut unmatched = 0usize;
    let mut proved = 0usize;
    let tmo = if rep.thorough { 120_000 } else { 20_000 };
    let mut refuted: std::collections::HashSet<(Bit, Bit)> = Default::default();
    for m in marks {
        let mut pairs: Vec<(Bit, Bit)> = vec![];
        let mut ok = true;
        for b0 in &m.bits {
            if matches!(net.nodes[*b0], N::C(_) | N::Var(_)) {
                continue;
            }
            // a bit that never changes
            let s0 = net.sim[*b0];
            if s0 == [0; LANES] || s0 == [!0; LANES] {
                let c = net.c(s0 != [0; LANES]);
                let mut l = vec![*b0];
                l.extend(sig.get(&s0).cloned().unwrap_or_default());
                for g in l {
                    if net.find(g) != c && !matches!(net.nodes[g], N::C(_) | N::Var(_)) && !pairs.contains(&(g, c)) {
                        pairs.push((g, c))
                    }
                }
                continue;
            }
            let nb = net.not(*b0);
            // wires computed the same way first
            let sb = matches!(net.nodes[*b0], N::Sb(..));
            let best = |v: &Vec<Bit>| -> Vec<Bit> {
                let (x, y): (Vec<Bit>, Vec<Bit>) = v.iter().partition(|g| matches!(net.nodes[**g], N::Sb(..)) == sb);
                x.into_iter().take(12).chain(y.into_iter().take(8)).collect()
            };
            if let Some(v) = sig.get(&net.sim[nb]).map(|v| best(v)) {
                for g in v {
                    if net.find(g) != net.find(nb) && !matches!(net.nodes[g], N::C(_) | N::Var(_)) && !net.is_not(g) {
                        pairs.push((g, nb))
                    }
                }
            }
            let b = b0;
            match sig.get(&net.sim[*b]).map(|v| best(v)) {
                Some(v) => {
                    for g in v {
                        // constants and variables stand for themselves
                        if g != *b && net.find(g) != net.find(*b) && !matches!(net.nodes[g], N::C(_) | N::Var(_)) {
                            pairs.push((g, *b))
                        }
                    }
                }
                None => ok = false,
            }
        }
        if !ok {
            unmatched += 1;
            // the bits of a sum are cut together or not at all
            if m.bits.iter().any(|b| matches!(net.nodes[*b], N::Sb(..))) {
                continue;
            }
        }
        pairs.retain(|p| !refuted.contains(p));
        if pairs.is_empty() {
            continue;
        }
        let mut same: Vec<(Bit, Bit)> = vec![];
        match net.equal(&pairs, true, tmo) {
            Eqv::Equal => same = pairs,
            Eqv::Differs(_) | Eqv::Unknown(_) => {
                // bit by bit
                for (g, b) in &pairs {
                    let mut r = net.equal(&[(*g, *b)], true, 1500);
                    let more = if matches!(net.nodes[*b], N::C(_)) || matches!(r, Eqv::Unknown(_)) { 1 } else { 3 };
                    for mode in 1..more {
                        if r != Eqv::Equal {
                            r = net.equal_mode(&[(*g, *b)], true, mode, 1500);
                        }
                    }
                    if std::env::var("SYM_DEBUG").is_ok() && r != Eqv::Equal {
                        eprintln!("   {} {:?} / {} {:?}: {:?}", g, net.nodes[*g], b, net.nodes[*b], match &r { Eqv::Differs(_) => "differs".to_string(), x => format!("{:?}", x) });
                    }
                    if r == Eqv::Equal {
                        same.push((*g, *b));
                    } else {
                        refuted.insert((*g, *b));
                    }
                }
                rep.log(&format!("{}: {} not shown equal as a word", key, m.name));
            }
        }
        let met: BTreeSet<Bit> = same.iter().flat_map(|p| [p.1, net.base(p.1).0, p.0]).collect();
        let known = |b: &Bit| met.contains(b) || net.find(*b) != *b || net.rep.values().any(|r| net.base(*r).0 == *b);
        if m.bits.iter().any(|b| matches!(net.nodes[*b], N::Sb(..))) && !m.bits.iter().all(|b| matches!(net.nodes[*b], N::C(_)) || known(b)) {
            unmatched += 1;
            continue;
        }
        proved += 1;
        for (g, b) in same {
            if std::env::var("SYM_DEBUG").is_ok() {
                eprintln!("merge {} {} -> {}", m.name, g, b);
            }
            net.merge_bits(g, b);
        }
    }
    // the outputs
    let mut pairs = vec![];
    for (i, (l, want)) in outs.iter().enumerate() {
        let (m, k) = merge(l);
        let g = if m.is_empty() && (k.is_zero() || k == F::one()) {
            net.c(k == F::one())
        } else if m.len() == 1 {
            let (w, c) = m.iter().next().unwrap();
            if !lo.is_bit(w) {
                rep.inconclusive(&format!("{}/out{}", key, i), "an output wire is not constrained to a bit");
            }
            let b = lo.bit(net, *w);
            if k.is_zero() && *c == F::one() {
                b
            } else if k == F::one() && *c == -F::one() {
                net.not(b)
            } else {
                rep.inconclusive(&format!("{}/out{}", key, i), "an output is not a bit");
                continue;
            }
        } else {
            rep.inconclusive(&format!("{}/out{}", key, i), "an output is not a bit");
            continue;
        };
        pairs.push((g, *want));
    }
    let mut asg: Option<(HashMap<String, bool>, String)> = None;
    // a simulated difference is a counterexample by itself
    'o: for (g, w) in &pairs {
        for l in 0..LANES {
            let d = net.sim[*g][l] ^ net.sim[*w][l];
            if d != 0 {
                let k = d.trailing_zeros();
                asg = Some((net.vars.iter().map(|v| (v.0.clone(), v.1[l] >> k & 1 == 1)).collect(), "simulation".into()));
                break 'o;
            }
        }
    }
    if asg.is_none() {
        for (c, ch) in pairs.chunks(32).enumerate() {
            let name = format!("{}/out{}", key, c);
            let mut r = net.equal(ch, true, tmo);
            if !matches!(r, Eqv::Equal) {
                // without cuts
                let full = net.equal(ch, false, tmo);
                r = full;
                match r {
                    Eqv::Equal => rep.ok(&name),
                    Eqv::Differs(m) => {
                        let a: HashMap<String, bool> = m.iter().filter_map(|(b, v)| if let N::Var(i) = net.nodes[*b] { Some((net.vars[i].0.clone(), *v)) } else { None }).collect();
                        asg = Some((a, "solver".into()));
                        break;
                    }
                    Eqv::Unknown(u) => rep.inconclusive(&name, &format!("solver: {}", u)),
                }
            } else {
                rep.ok(&name);
            }
        }
    }
    if let Some((a, by)) = asg {
        // replay: wires from the network, rows of the real circuit
        let vals = {
            let roots: Vec<Bit> = wires.iter().map(|w| w.1).chain(pairs.iter().flat_map(|p| [p.0, p.1])).collect();
            let vars = net.vars.clone();
            net.eval(&roots, &move |i| a.get(&vars[i].0).copied().unwrap_or(false))
        };
        let mut w = t.clone();
        for (i, b) in &wires {
            let v = if vals[b] { F::one() } else { F::zero() };
            match i {
                Index::Input(k) => w.inputs[*k] = v,
                Index::Aux(k) => w.aux[*k] = v,
            }
        }
        let sat = w.residuals(&t.rows).iter().all(|r| r.is_zero());
        let wrong = pairs.iter().any(|(g, b)| vals[g] != vals[b]);
        let inputs: Vec<String> = net.vars.iter().enumerate().map(|(i, v)| {
            let b = net.nodes.iter().position(|n| *n == N::Var(i));
            format!("{}={}", v.0, b.and_then(|b| vals.get(&b)).map(|x| *x as u8).unwrap_or(0))
        }).collect();
        rep.replays += 1;
        if wrong && sat {
            rep.violation(&format!("{}/out", key), what, serde_json::json!({"by": by, "operand bits": inputs, "rows satisfied": true}));
        } else if wrong {
            rep.violation(&format!("{}/out", key), &format!("{} (and no wires satisfy the rows for these operands)", what), serde_json::json!({"by": by, "operand bits": inputs}));
        } else {
            rep.inconclusive(&format!("{}/out", key), "the difference did not replay");
        }
    }
    // rows that only constrain: they must hold for every operand value
    for i in lo.asserts.clone() {
        let r = &t.rows[i];
        let ms = [merge(&r[0]), merge(&r[1]), merge(&r[2])];
        let mut sup: Vec<Index> = ms.iter().flat_map(|m| m.0.keys().cloned()).collect();
        sup.sort();
        sup.dedup();
        let name = format!("{}/row{}", key, i);
        if sup.len() > 6 || sup.iter().any(|w| !lo.is_bit(w)) {
            rep.inconclusive(&name, "a constraint over wires that are not bits");
            continue;
        }
        let mut table = 0u64;
        for a in 0..1usize << sup.len() {
            let asg: BTreeMap<Index, F> = sup.iter().enumerate().map(|(k, w)| (*w, if a >> k & 1 == 1 { F::one() } else { F::zero() })).collect();
            if (at(&ms[0], &asg) * at(&ms[1], &asg) - at(&ms[2], &asg)).is_zero() {
                table |= 1 << a
            }
        }
        let s: Vec<Bit> = sup.iter().map(|w| lo.bit(net, *w)).collect();
        let b = net.tt(s, table);
        let one = net.c(true);
        match net.equal(&[(b, one)], true, tmo) {
            Eqv::Equal => {}
            Eqv::Differs(_) => match net.equal(&[(b, one)], false, tmo) {
                Eqv::Equal => {}
                Eqv::Differs(m) => {
                    let a: Vec<String> = m.iter().map(|(b, v)| format!("{:?}={}", net.nodes[*b], v)).collect();
                    rep.violation(&name, &format!("{}: a constraint excludes operands", what), serde_json::json!({"operands": a}));
                }
                Eqv::Unknown(u) => rep.inconclusive(&name, &u),
            },
            Eqv::Unknown(u) => rep.inconclusive(&name, &u),
        }
    }
    for z in [&z3, &net.z3] {
        note_queries(z.queries, z.secs, z.max);
    }
    rep.log(&format!("{}: {} gates, {} packed sums, {} wires; {} words matched, {} not; ok={}", key, lo.gates, lo.sums, wires.len(), proved, unmatched, n0 == rep.violations.len() + rep.inconclusive.len()));
    n0 == rep.violations.len() + rep.inconclusive.len()
}
