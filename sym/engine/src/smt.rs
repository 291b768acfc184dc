//! Formulas over symbolic field terms, and their discharge by an SMT solver
//! (z3-new, theory of finite fields, prime = the BLS12-381 scalar modulus).
use crate::field::SymF;
use crate::state::{st, Cond, Id, Node};
use ark_bls12_381::Fr;
use ark_ff::{Field, One, PrimeField, Zero};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::Instant;

pub const P_DEC: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";

#[derive(Clone, Debug)]
pub enum Fm {
    True,
    False,
    Eq(Id, Id),
    Not(Box<Fm>),
    And(Vec<Fm>),
    Or(Vec<Fm>),
}

pub fn eqf(a: SymF, b: SymF) -> Fm {
    Fm::Eq(a.0, b.0)
}
pub fn nef(a: SymF, b: SymF) -> Fm {
    Fm::Not(Box::new(Fm::Eq(a.0, b.0)))
}
pub fn and(v: Vec<Fm>) -> Fm {
    Fm::And(v)
}
pub fn or(v: Vec<Fm>) -> Fm {
    Fm::Or(v)
}
pub fn not(f: Fm) -> Fm {
    Fm::Not(Box::new(f))
}
pub fn conds(c: &[Cond]) -> Fm {
    Fm::And(
        c.iter()
            .map(|c| match c {
                Cond::Eq(a, b) => Fm::Eq(*a, *b),
                Cond::Ne(a, b) => Fm::Not(Box::new(Fm::Eq(*a, *b))),
            })
            .collect(),
    )
}

pub fn dec(f: &Fr) -> String {
    let r = f.into_repr();
    let mut b = vec![];
    for l in r.0.iter() {
        b.extend_from_slice(&l.to_le_bytes());
    }
    num_bigint::BigUint::from_bytes_le(&b).to_string()
}

pub fn undec(s: &str) -> Fr {
    let n: num_bigint::BigUint = s.parse().unwrap();
    Fr::from_le_bytes_mod_order(&n.to_bytes_le())
}

pub fn show(i: Id, depth: u32) -> String {
    let (n, v) = {
        let s = st();
        let n = s.nodes[i as usize];
        let v = if let Node::Var(v) = n { s.vars[v as usize].clone() } else { String::new() };
        (n, v)
    };
    match n {
        Node::Const(f) => {
            let d = dec(&f);
            let m = dec(&(-f));
            if m.len() < d.len() {
                format!("-{}", m)
            } else {
                d
            }
        }
        Node::Var(_) => v,
        _ if depth == 0 => format!("#{}", i),
        Node::Add(a, b) => format!("({} + {})", show(a, depth - 1), show(b, depth - 1)),
        Node::Mul(a, b) => format!("{}*{}", show(a, depth - 1), show(b, depth - 1)),
        Node::Neg(a) => format!("-{}", show(a, depth - 1)),
        Node::Inv(a) => format!("1/{}", show(a, depth - 1)),
    }
}

fn leaves(f: &Fm, out: &mut Vec<Id>) {
    match f {
        Fm::Eq(a, b) => {
            out.push(*a);
            out.push(*b);
        }
        Fm::Not(g) => leaves(g, out),
        Fm::And(v) | Fm::Or(v) => v.iter().for_each(|g| leaves(g, out)),
        _ => {}
    }
}

/// reachable nodes in topological order (children first)
pub fn topo(roots: &[Id]) -> Vec<Id> {
    let s = st();
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut stack: Vec<(Id, bool)> = roots.iter().map(|r| (*r, false)).collect();
    while let Some((i, done)) = stack.pop() {
        if done {
            out.push(i);
            continue;
        }
        if !seen.insert(i) {
            continue;
        }
        stack.push((i, true));
        match s.nodes[i as usize] {
            Node::Add(a, b) | Node::Mul(a, b) => {
                stack.push((a, false));
                stack.push((b, false));
            }
            Node::Neg(a) | Node::Inv(a) => stack.push((a, false)),
            _ => {}
        }
    }
    out
}

pub fn vars_of(f: &Fm) -> Vec<Id> {
    let mut l = vec![];
    leaves(f, &mut l);
    let t = topo(&l);
    let s = st();
    t.into_iter().filter(|i| matches!(s.nodes[*i as usize], Node::Var(_))).collect()
}

fn lit(f: &Fr) -> String {
    format!("(as ff{} F)", dec(f))
}

fn emit_fm(f: &Fm, nm: &dyn Fn(Id, Id) -> String) -> String {
    match f {
        Fm::True => "true".into(),
        Fm::False => "false".into(),
        Fm::Eq(a, b) => nm(*a, *b),
        Fm::Not(g) => format!("(not {})", emit_fm(g, nm)),
        Fm::And(v) if v.is_empty() => "true".into(),
        Fm::Or(v) if v.is_empty() => "false".into(),
        Fm::And(v) => format!("(and {})", v.iter().map(|g| emit_fm(g, nm)).collect::<Vec<_>>().join(" ")),
        Fm::Or(v) => format!("(or {})", v.iter().map(|g| emit_fm(g, nm)).collect::<Vec<_>>().join(" ")),
    }
}

/// DAG encoding: one definition per expression node, inverses as fresh
/// constants i with a*i = 1.
pub fn emit_dag(f: &Fm) -> (String, Vec<Id>) {
    let mut l = vec![];
    leaves(f, &mut l);
    let t = topo(&l);
    let mut o = String::new();
    o.push_str("(set-logic QF_FF)\n");
    o.push_str(&format!("(define-sort F () (_ FiniteField {}))\n", P_DEC));
    let mut vs = vec![];
    let nodes: HashMap<Id, Node> = {
        let s = st();
        t.iter().map(|i| (*i, s.nodes[*i as usize])).collect()
    };
    let nm = |i: Id| -> String {
        match nodes[&i] {
            Node::Const(c) => lit(&c),
            Node::Var(v) => format!("x{}", v),
            _ => format!("n{}", i),
        }
    };
    for i in &t {
        match nodes[i] {
            Node::Const(_) => {}
            Node::Var(v) => {
                o.push_str(&format!("(declare-const x{} F)\n", v));
                vs.push(*i);
            }
            Node::Add(a, b) => o.push_str(&format!("(define-fun n{} () F (ff.add {} {}))\n", i, nm(a), nm(b))),
            Node::Mul(a, b) => o.push_str(&format!("(define-fun n{} () F (ff.mul {} {}))\n", i, nm(a), nm(b))),
            Node::Neg(a) => o.push_str(&format!("(define-fun n{} () F (ff.neg {}))\n", i, nm(a))),
            Node::Inv(a) => {
                o.push_str(&format!("(declare-const n{} F)\n(assert (= (ff.mul n{} {}) (as ff1 F)))\n", i, i, nm(a)));
            }
        }
    }
    o.push_str(&format!("(assert {})\n(check-sat)\n", emit_fm(f, &|a, b| format!("(= {} {})", nm(a), nm(b)))));
    (o, vs)
}

// ---------------------------------------------------------------------------
// Preprocessing: fractions of expanded polynomials
pub type Mono = Vec<(u32, u16)>; // sorted (variable index, exponent)
pub type Poly = BTreeMap<Mono, Fr>;

pub fn p_add(a: &Poly, b: &Poly) -> Poly {
    let (mut r, o) = if a.len() >= b.len() { (a.clone(), b) } else { (b.clone(), a) };
    for (m, c) in o {
        let e = r.entry(m.clone()).or_insert_with(Fr::zero);
        *e += c;
        if e.is_zero() {
            r.remove(m);
        }
    }
    r
}
pub fn p_neg(a: &Poly) -> Poly {
    a.iter().map(|(m, c)| (m.clone(), -*c)).collect()
}
fn m_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1
        } else if a[i].0 > b[j].0 {
            r.push(b[j]);
            j += 1
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}
pub fn p_mul(a: &Poly, b: &Poly, cap: usize) -> Option<Poly> {
    let mut r: HashMap<Mono, Fr> = HashMap::new();
    for (m, c) in a {
        for (n, d) in b {
            *r.entry(m_mul(m, n)).or_insert_with(Fr::zero) += *c * d;
        }
        if r.len() > cap {
            return None;
        }
    }
    Some(r.into_iter().filter(|(_, c)| !c.is_zero()).collect())
}
pub fn p_const(c: Fr) -> Poly {
    let mut p = Poly::new();
    if !c.is_zero() {
        p.insert(vec![], c);
    }
    p
}

/// numerator polynomial and denominator as a product of "atoms" (ids of the
/// inverted expressions, each an expanded monic-normalised polynomial)
#[derive(Clone)]
pub struct Frac {
    pub num: Poly,
    pub den: BTreeMap<usize, u16>,
}

pub struct Normer {
    pub memo: HashMap<Id, Frac>,
    pub atoms: Vec<Poly>,
    pub atom_ix: HashMap<Vec<(Mono, Fr)>, usize>,
    pub cap: usize,
    /// variables replaced by their fingerprint value (a smaller, stated bound)
    pub fixed: HashSet<u32>,
    /// variables replaced by the term an equation of the formula gives them
    pub alias: HashMap<u32, Id>,
    /// monomial products spent / allowed
    pub work: std::cell::Cell<u64>,
    pub max_work: u64,
}

impl Normer {
    pub fn new(cap: usize, fixed: HashSet<u32>) -> Self {
        Normer {
            memo: HashMap::new(),
            atoms: vec![],
            atom_ix: HashMap::new(),
            cap,
            fixed,
            alias: HashMap::new(),
            work: std::cell::Cell::new(0),
            max_work: 40 * cap as u64,
        }
    }
    fn mulp(&self, a: &Poly, b: &Poly) -> Option<Poly> {
        let w = self.work.get() + (a.len() as u64) * (b.len() as u64);
        self.work.set(w);
        if w > self.max_work {
            return None;
        }
        p_mul(a, b, self.cap)
    }
    fn atom(&mut self, p: &Poly) -> (usize, Fr) {
        let lead = *p.iter().next_back().unwrap().1;
        let li = lead.inverse().unwrap();
        let q: Vec<(Mono, Fr)> = p.iter().map(|(m, c)| (m.clone(), *c * li)).collect();
        let n = self.atoms.len();
        let ix = *self.atom_ix.entry(q.clone()).or_insert(n);
        if ix == n {
            self.atoms.push(q.into_iter().collect());
        }
        (ix, lead)
    }
    fn den_poly(&self, d: &BTreeMap<usize, u16>) -> Option<Poly> {
        let mut r = p_const(Fr::one());
        for (a, e) in d {
            for _ in 0..*e {
                r = self.mulp(&r, &self.atoms[*a])?;
            }
        }
        Some(r)
    }
    fn lcm(a: &BTreeMap<usize, u16>, b: &BTreeMap<usize, u16>) -> BTreeMap<usize, u16> {
        let mut r = a.clone();
        for (k, e) in b {
            let x = r.entry(*k).or_insert(0);
            *x = (*x).max(*e);
        }
        r
    }
    fn quot(l: &BTreeMap<usize, u16>, d: &BTreeMap<usize, u16>) -> BTreeMap<usize, u16> {
        l.iter()
            .filter_map(|(k, e)| {
                let s = e - d.get(k).copied().unwrap_or(0);
                if s > 0 {
                    Some((*k, s))
                } else {
                    None
                }
            })
            .collect()
    }
    pub fn to_common(&self, f: &Frac, l: &BTreeMap<usize, u16>) -> Option<Poly> {
        let q = Self::quot(l, &f.den);
        if q.is_empty() {
            return Some(f.num.clone());
        }
        self.mulp(&f.num, &self.den_poly(&q)?)
    }
    pub fn norm(&mut self, root: Id) -> Option<Frac> {
        for i in topo(&[root]) {
            if self.memo.contains_key(&i) {
                continue;
            }
            let n = st().nodes[i as usize];
            let f = match n {
                Node::Const(c) => Frac { num: p_const(c), den: BTreeMap::new() },
                Node::Var(v) if self.alias.contains_key(&v) => {
                    let t = self.alias[&v];
                    self.norm(t)?
                }
                Node::Var(v) if self.fixed.contains(&v) => {
                    let c = st().fps[i as usize];
                    Frac { num: p_const(c), den: BTreeMap::new() }
                }
                Node::Var(v) => {
                    let mut p = Poly::new();
                    p.insert(vec![(v, 1)], Fr::one());
                    Frac { num: p, den: BTreeMap::new() }
                }
                Node::Neg(a) => {
                    let x = &self.memo[&a];
                    Frac { num: p_neg(&x.num), den: x.den.clone() }
                }
                Node::Add(a, b) => {
                    let (x, y) = (self.memo[&a].clone(), self.memo[&b].clone());
                    let l = Self::lcm(&x.den, &y.den);
                    let num = p_add(&self.to_common(&x, &l)?, &self.to_common(&y, &l)?);
                    let l = if num.is_empty() { BTreeMap::new() } else { l };
                    Frac { num, den: l }
                }
                Node::Mul(a, b) => {
                    let (mut x, mut y) = (self.memo[&a].clone(), self.memo[&b].clone());
                    // cancel whole atoms
                    for (u, w) in [(&mut x, &mut y)] {
                        self.cancel(&mut u.num, &mut w.den);
                        self.cancel(&mut w.num, &mut u.den);
                    }
                    let num = self.mulp(&x.num, &y.num)?;
                    let mut den = x.den;
                    for (k, e) in y.den {
                        *den.entry(k).or_insert(0) += e;
                    }
                    if num.is_empty() {
                        den.clear();
                    }
                    Frac { num, den }
                }
                Node::Inv(a) => {
                    let x = self.memo[&a].clone();
                    if x.num.is_empty() {
                        return None;
                    }
                    let d = self.den_poly(&x.den)?;
                    if x.num.len() == 1 && x.num.keys().next().unwrap().is_empty() {
                        let c = x.num.values().next().unwrap().inverse().unwrap();
                        Frac { num: d.iter().map(|(m, k)| (m.clone(), *k * c)).collect(), den: BTreeMap::new() }
                    } else {
                        let (ix, lead) = self.atom(&x.num);
                        let c = lead.inverse().unwrap();
                        let mut num: Poly = d.iter().map(|(m, k)| (m.clone(), *k * c)).collect();
                        let mut den: BTreeMap<usize, u16> = [(ix, 1u16)].into_iter().collect();
                        self.cancel(&mut num, &mut den);
                        Frac { num, den }
                    }
                }
            };
            if f.num.len() > self.cap {
                return None;
            }
            self.memo.insert(i, f);
        }
        self.memo.get(&root).cloned()
    }
    fn cancel(&self, num: &mut Poly, den: &mut BTreeMap<usize, u16>) {
        if num.is_empty() {
            return;
        }
        let lead = *num.iter().next_back().unwrap().1;
        let li = lead.inverse().unwrap();
        let key: Vec<(Mono, Fr)> = num.iter().map(|(m, c)| (m.clone(), *c * li)).collect();
        if let Some(ix) = self.atom_ix.get(&key) {
            if let Some(e) = den.get_mut(ix) {
                *e -= 1;
                if *e == 0 {
                    den.remove(ix);
                }
                *num = p_const(lead);
            }
        }
    }
}

/// an atom that is a polynomial in a single variable: (variable, coefficients)
fn univariate_atom(p: &Poly) -> Option<(u32, Vec<Fr>)> {
    let mut v = None;
    let mut co: Vec<Fr> = vec![];
    for (m, c) in p {
        let e = match m.len() {
            0 => 0,
            1 => {
                if *v.get_or_insert(m[0].0) != m[0].0 {
                    return None;
                }
                m[0].1 as usize
            }
            _ => return None,
        };
        if co.len() <= e {
            co.resize(e + 1, Fr::zero());
        }
        co[e] = *c;
    }
    v.map(|v| (v, co))
}

/// exact division by a polynomial in the single variable x_v, if it divides
fn div_univariate(p: &Poly, v: u32, d: &[Fr]) -> Option<Poly> {
    let mut groups: HashMap<Mono, Vec<Fr>> = HashMap::new();
    for (m, co) in p {
        let mut e = 0usize;
        let mut r = Vec::with_capacity(m.len());
        for t in m {
            if t.0 == v {
                e = t.1 as usize
            } else {
                r.push(*t)
            }
        }
        let g = groups.entry(r).or_default();
        if g.len() <= e {
            g.resize(e + 1, Fr::zero());
        }
        g[e] += co;
    }
    let dd = d.len() - 1;
    let li = d[dd].inverse().unwrap();
    let mut out = Poly::new();
    for (m, mut g) in groups {
        let n = g.len();
        if n <= dd {
            if g.iter().all(|x| x.is_zero()) {
                continue;
            }
            return None;
        }
        for k in (dd..n).rev() {
            let q = g[k] * li;
            if q.is_zero() {
                continue;
            }
            for i in 0..=dd {
                let t = q * d[i];
                g[k - dd + i] -= t;
            }
            let mut mm = m.clone();
            if k > dd {
                let pos = mm.iter().position(|t| t.0 > v).unwrap_or(mm.len());
                mm.insert(pos, (v, (k - dd) as u16));
            }
            out.insert(mm, q);
        }
        if g.iter().any(|x| !x.is_zero()) {
            return None;
        }
    }
    Some(out)
}

/// variables dividing every monomial, and the quotient
fn content(p: Poly) -> (Vec<u32>, Poly) {
    let mut it = p.keys();
    let first = match it.next() {
        Some(f) => f.clone(),
        None => return (vec![], p),
    };
    let mut common: Vec<(u32, u16)> = first;
    for m in it {
        common = common
            .iter()
            .filter_map(|(v, e)| m.iter().find(|t| t.0 == *v).map(|t| (*v, (*e).min(t.1))))
            .collect();
        if common.is_empty() {
            return (vec![], p);
        }
    }
    let q = p
        .into_iter()
        .map(|(m, c)| {
            let r: Mono = m
                .into_iter()
                .filter_map(|(v, e)| {
                    let k = common.iter().find(|t| t.0 == v).map(|t| t.1).unwrap_or(0);
                    if e > k {
                        Some((v, e - k))
                    } else {
                        None
                    }
                })
                .collect();
            (r, c)
        })
        .collect();
    (common.into_iter().map(|t| t.0).collect(), q)
}

fn emit_poly(p: &Poly) -> String {
    if p.is_empty() {
        return "(as ff0 F)".into();
    }
    let mut ts = vec![];
    for (m, c) in p {
        let mut fs = vec![];
        if m.is_empty() || *c != Fr::one() {
            fs.push(lit(c));
        }
        for (v, e) in m {
            for _ in 0..*e {
                fs.push(format!("x{}", v));
            }
        }
        ts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(ff.mul {})", fs.join(" ")) });
    }
    if ts.len() == 1 {
        ts.pop().unwrap()
    } else {
        format!("(ff.add {})", ts.join(" "))
    }
}

/// variables that a top-level conjunct equates with a variable or a constant
fn aliases(f: &Fm, out: &mut HashMap<u32, Id>) {
    match f {
        Fm::And(v) => v.iter().for_each(|g| aliases(g, out)),
        Fm::Eq(a, b) => {
            let s = st();
            let find = |mut i: Id, out: &HashMap<u32, Id>| loop {
                match s.nodes[i as usize] {
                    Node::Var(v) => match out.get(&v) {
                        Some(t) => i = *t,
                        None => return i,
                    },
                    _ => return i,
                }
            };
            let (ra, rb) = (find(*a, out), find(*b, out));
            if ra == rb {
                return;
            }
            match (s.nodes[ra as usize], s.nodes[rb as usize]) {
                (Node::Var(v), Node::Var(w)) => {
                    if v > w {
                        out.insert(v, rb);
                    } else {
                        out.insert(w, ra);
                    }
                }
                (Node::Var(v), Node::Const(_)) => {
                    out.insert(v, rb);
                }
                (Node::Const(_), Node::Var(w)) => {
                    out.insert(w, ra);
                }
                _ => {}
            }
        }
        _ => {}
    }
}

/// Expanded encoding: every equation is cleared of denominators (which are
/// asserted nonzero) and both sides are emitted as sums of monomials.
///
/// The second script is its propositional skeleton: every distinct (monic)
/// polynomial equation is a Boolean.
pub fn emit_expanded(f: &Fm, cap: usize, fixed: &HashSet<u32>) -> Option<(String, String, Vec<Id>)> {
    let mut l = vec![];
    leaves(f, &mut l);
    let mut nz = Normer::new(cap, fixed.clone());
    aliases(f, &mut nz.alias);
    let mut cache: HashMap<Id, Frac> = HashMap::new();
    for i in &l {
        cache.insert(*i, nz.norm(*i)?);
    }
    let vs = vars_of(f);
    let mut o = String::new();
    o.push_str("(set-logic QF_FF)\n");
    o.push_str(&format!("(define-sort F () (_ FiniteField {}))\n", P_DEC));
    for i in &vs {
        if let Node::Var(v) = st().nodes[*i as usize] {
            o.push_str(&format!("(declare-const x{} F)\n", v));
        }
    }
    let table: std::cell::RefCell<HashMap<String, usize>> = Default::default();
    let monic = |p: &Poly| -> Poly {
        match p.values().next().and_then(|c| c.inverse()) {
            Some(i) => p.iter().map(|(m, c)| (m.clone(), *c * i)).collect(),
            None => p.clone(),
        }
    };
    let atom = |p: &Poly| -> String {
        let e = emit_poly(&monic(p));
        let mut t = table.borrow_mut();
        let n = t.len();
        let k = *t.entry(e).or_insert(n);
        format!("b{}", k)
    };
    let mut nonzero = vec![];
    for a in &nz.atoms {
        nonzero.push(format!("(assert (not {}))\n", atom(a)));
    }
    let bad = std::cell::Cell::new(false);
    let nm = |a: Id, b: Id| -> String {
        let (x, y) = (&cache[&a], &cache[&b]);
        let lc = Normer::lcm(&x.den, &y.den);
        match (nz.to_common(x, &lc), nz.to_common(y, &lc)) {
            (Some(p), Some(q)) => {
                let mut d = p_add(&p, &p_neg(&q));
                // divide by one-variable denominators (asserted nonzero)
                for (a, e) in &lc {
                    if let Some((v, c)) = univariate_atom(&nz.atoms[*a]) {
                        for _ in 0..*e {
                            match div_univariate(&d, v, &c) {
                                Some(x) => d = x,
                                None => break,
                            }
                        }
                    }
                }
                let (cont, d) = content(d);
                if d.is_empty() {
                    return "true".into();
                }
                let d0 = if d.len() == 1 && d.keys().next().unwrap().is_empty() { "false".into() } else { atom(&d) };
                if cont.is_empty() {
                    d0
                } else {
                    let vs: Vec<String> = cont
                        .iter()
                        .map(|v| {
                            let mut p = Poly::new();
                            p.insert(vec![(*v, 1)], Fr::one());
                            atom(&p)
                        })
                        .collect();
                    format!("(or {} {})", vs.join(" "), d0)
                }
            }
            _ => {
                bad.set(true);
                "false".into()
            }
        }
    };
    let body = emit_fm(f, &nm);
    if bad.get() {
        return None;
    }
    let t = table.borrow();
    let mut names: Vec<(&String, &usize)> = t.iter().collect();
    names.sort_by_key(|x| x.1);
    let mut sk = String::from("(set-logic QF_UF)\n");
    for (e, k) in names {
        o.push_str(&format!("(define-fun b{} () Bool (= {} (as ff0 F)))\n", k, e));
        sk.push_str(&format!("(declare-const b{} Bool)\n", k));
    }
    let tail = format!("{}(assert {})\n(check-sat)\n", nonzero.concat(), body);
    o.push_str(&tail);
    sk.push_str(&tail);
    Some((o, sk, vs))
}

// ---------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub enum Verdict {
    Unsat,
    Sat(HashMap<String, Fr>),
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub expanded: u64,
}
impl Verdict {
    pub fn tag(&self) -> &'static str {
        match self {
            Verdict::Unsat => "unsat",
            Verdict::Sat(_) => "sat",
            Verdict::Unknown(_) => "unknown",
        }
    }
}
pub static STATS: Mutex<Option<SolverStats>> = Mutex::new(None);
pub fn stats() -> SolverStats {
    STATS.lock().unwrap().clone().unwrap_or_default()
}
fn bump(f: impl FnOnce(&mut SolverStats)) {
    let mut g = STATS.lock().unwrap();
    f(g.get_or_insert_with(Default::default))
}

/// queries discharged by a solver process of the harness's own
pub fn note_queries(n: u64, secs: f64, max: f64) {
    bump(|s| {
        s.queries += n;
        s.secs += secs;
        if max > s.max_secs {
            s.max_secs = max
        }
    });
}
/// raw solver call; returns stdout
pub fn z3_raw(script: &str, timeout_s: u64) -> String {
    let t0 = Instant::now();
    let mut ch = Command::new("z3-new")
        .args(["-in", &format!("-T:{}", timeout_s), "-memory:6000"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn z3-new");
    {
        let mut si = ch.stdin.take().unwrap();
        let data = script.as_bytes().to_vec();
        std::thread::spawn(move || {
            let _ = si.write_all(&data);
        });
    }
    let out = ch.wait_with_output().expect("z3-new");
    let dt = t0.elapsed().as_secs_f64();
    bump(|s| {
        s.queries += 1;
        s.secs += dt;
        if dt > s.max_secs {
            s.max_secs = dt
        }
    });
    if let Ok(d) = std::env::var("SYM_DUMP") {
        let n = stats().queries;
        let _ = std::fs::write(format!("{}/q{}.smt2", d, n), script);
    }
    String::from_utf8_lossy(&out.stdout).to_string()
}

fn run_query(mut script: String, vs: &[Id], timeout_s: u64) -> Verdict {
    if !vs.is_empty() {
        let names: Vec<String> = {
            let s = st();
            vs.iter()
                .map(|i| if let Node::Var(v) = s.nodes[*i as usize] { format!("x{}", v) } else { unreachable!() })
                .collect()
        };
        script.push_str(&format!("(get-value ({}))\n", names.join(" ")));
    }
    let out = z3_raw(&script, timeout_s);
    let first = out.lines().next().unwrap_or("").trim().to_string();
    match first.as_str() {
        "unsat" => {
            bump(|s| s.unsat += 1);
            Verdict::Unsat
        }
        "sat" => {
            if out.contains("(error") {
                bump(|s| s.unknown += 1);
                return Verdict::Unknown(out);
            }
            bump(|s| s.sat += 1);
            let mut m = HashMap::new();
            let s = st();
            // pairs (xN (as ffV (...)))
            let txt = &out[3..];
            let mut it = txt.split("(x").skip(1);
            while let Some(p) = it.next() {
                let mut ws = p.splitn(2, char::is_whitespace);
                let v: usize = match ws.next().and_then(|x| x.parse().ok()) {
                    Some(v) => v,
                    None => continue,
                };
                let rest = ws.next().unwrap_or("");
                if let Some(k) = rest.find("ff") {
                    let num: String = rest[k + 2..].chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
                    if num.is_empty() {
                        continue;
                    }
                    let f = if let Some(n) = num.strip_prefix('-') { -undec(n) } else { undec(&num) };
                    m.insert(s.vars[v].clone(), f);
                }
            }
            Verdict::Sat(m)
        }
        _ => {
            bump(|s| s.unknown += 1);
            Verdict::Unknown(out.chars().take(300).collect())
        }
    }
}

/// satisfiability of a formula: expanded encoding first when it stays small
/// (polynomial identities), then the DAG encoding, then a larger expansion
pub fn check_sat(f: &Fm, timeout_s: u64) -> Verdict {
    let none = HashSet::new();
    let small = try_expanded(f, 60_000, &none, timeout_s.min(30));
    if let Some(v) = &small {
        if !matches!(v, Verdict::Unknown(_)) {
            return small.unwrap();
        }
    }
    try_dag(f, timeout_s)
}

pub fn try_dag(f: &Fm, timeout_s: u64) -> Verdict {
    let dbg = std::env::var("SYM_LOG").is_ok();
    let t0 = Instant::now();
    let (s, vs) = emit_dag(f);
    if s.len() > 4_000_000 {
        return Verdict::Unknown("too large".into());
    }
    let v = run_query(s, &vs, timeout_s);
    if dbg {
        eprintln!("  dag {:.1}s {}", t0.elapsed().as_secs_f64(), v.tag());
    }
    v
}

pub fn try_expanded(f: &Fm, cap: usize, fixed: &HashSet<u32>, timeout_s: u64) -> Option<Verdict> {
    let dbg = std::env::var("SYM_LOG").is_ok();
    let t0 = Instant::now();
    let r = emit_expanded(f, cap, fixed);
    if dbg && r.is_none() {
        eprintln!("  expansion over cap {} after {:.1}s", cap, t0.elapsed().as_secs_f64());
    }
    let (s, sk, vs) = r?;
    bump(|s| s.expanded += 1);
    if let Verdict::Unsat = run_query(sk, &[], timeout_s) {
        if dbg {
            eprintln!("  skeleton unsat");
        }
        return Some(Verdict::Unsat);
    }
    if s.len() > 60_000_000 {
        return None;
    }
    let n = s.len();
    let t1 = Instant::now();
    let mut v = run_query(s, &vs, timeout_s);
    if dbg {
        eprintln!(
            "  expanded {}B fixed={} {:.1}s+{:.1}s {}",
            n,
            fixed.len(),
            (t1 - t0).as_secs_f64(),
            t1.elapsed().as_secs_f64(),
            v.tag()
        );
    }
    if let Verdict::Sat(m) = &mut v {
        let s = st();
        for v in fixed {
            let name = &s.vars[*v as usize];
            let id = s.var_by_name[name];
            m.insert(name.clone(), s.fps[id as usize]);
        }
        drop(s);
        let mut al = HashMap::new();
        aliases(f, &mut al);
        let s = st();
        // targets first: an alias may lead to another alias
        for v in al.keys() {
            let mut i = al[v];
            let val = loop {
                match s.nodes[i as usize] {
                    Node::Const(c) => break Some(c),
                    Node::Var(w) => match al.get(&w) {
                        Some(t) => i = *t,
                        None => break m.get(&s.vars[w as usize]).copied(),
                    },
                    _ => break None,
                }
            };
            if let Some(x) = val {
                m.insert(s.vars[*v as usize].clone(), x);
            }
        }
    }
    Some(v)
}

/// the variables of `f` whose name starts with one of the prefixes
pub fn fix_by_prefix(f: &Fm, pre: &[&str]) -> HashSet<u32> {
    let ids = vars_of(f);
    let s = st();
    ids.iter()
        .filter_map(|i| match s.nodes[*i as usize] {
            Node::Var(v) if pre.iter().any(|p| s.vars[v as usize].starts_with(p)) => Some(v),
            _ => None,
        })
        .collect()
}

/// evaluate a formula under concrete values of its variables
pub fn eval_fm(f: &Fm, m: &HashMap<String, Fr>) -> Option<bool> {
    let mut l = vec![];
    leaves(f, &mut l);
    let t = topo(&l);
    let s = st();
    let mut v: HashMap<Id, Fr> = HashMap::new();
    for i in t {
        let x = match s.nodes[i as usize] {
            Node::Const(c) => c,
            Node::Var(k) => m.get(&s.vars[k as usize]).copied().unwrap_or_else(Fr::zero),
            Node::Add(a, b) => v[&a] + v[&b],
            Node::Mul(a, b) => v[&a] * v[&b],
            Node::Neg(a) => -v[&a],
            Node::Inv(a) => v[&a].inverse()?,
        };
        v.insert(i, x);
    }
    fn go(f: &Fm, v: &HashMap<Id, Fr>) -> bool {
        match f {
            Fm::True => true,
            Fm::False => false,
            Fm::Eq(a, b) => v[a] == v[b],
            Fm::Not(g) => !go(g, v),
            Fm::And(x) => x.iter().all(|g| go(g, v)),
            Fm::Or(x) => x.iter().any(|g| go(g, v)),
        }
    }
    Some(go(f, &v))
}
