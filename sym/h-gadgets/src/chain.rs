//! Field hashes (MiMC, Poseidon, Rescue): the rows of the gadget against the
//! native function, as terms over symbolic preimages.
//!
//! The native function is run symbolically; its value is a term. The gadget's
//! rows are swept in an order in which each determines one more wire. A wire is
//! matched to the node of the native term that has the same fingerprint (its
//! value at one random point), and the solver decides, over all field values
//! of what the row mentions, that the row forces the wire to that node. What
//! was decided becomes a fresh variable, so every query stays the size of a
//! row. A wire that matches nothing keeps its own defining term.
use crate::case::*;
use crate::tape::*;
use ark_ff::{Field, One, ToBytes, Zero};
use std::collections::{BTreeMap, HashMap};
use symeng::*;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{mimc, poseidon, rescue};
use zkp_r1cs::{ConstraintSystem, Index};

type K = (bool, usize);
fn key_of(i: Index) -> K {
    match i {
        Index::Input(k) => (true, k),
        Index::Aux(k) => (false, k),
    }
}
const ONE: K = (true, 0);

struct Net {
    fp_of: HashMap<Fr381, Id>,
    /// wires decided so far, as native (or defining) terms
    at: BTreeMap<K, SymF>,
    /// terms some wire was decided to equal
    cut: HashMap<Id, ()>,
    cache: HashMap<String, bool>,
    asked: u64,
    rows: u64,
    failed: Option<String>,
}
/// `t` over local variables for the cut terms
fn local(t: SymF, top: bool, cut: &HashMap<Id, ()>, names: &mut HashMap<Id, SymF>, memo: &mut HashMap<Id, SymF>) -> SymF {
    let n = st().nodes[t.0 as usize];
    if let Node::Const(_) = n {
        return t;
    }
    if !top && (cut.contains_key(&t.0) || matches!(n, Node::Var(_))) {
        return name(t.0, names);
    }
    if !top {
        if let Some(x) = memo.get(&t.0) {
            return *x;
        }
    }
    let mut go = |i: Id| local(SymF(i), false, cut, names, memo);
    let r = match n {
        Node::Const(_) => t,
        Node::Var(_) => name(t.0, names),
        Node::Add(a, b) => go(a) + go(b),
        Node::Mul(a, b) => go(a) * go(b),
        Node::Neg(a) => -go(a),
        Node::Inv(a) => go(a).inv_unchecked(),
    };
    if !top {
        memo.insert(t.0, r);
    }
    r
}
fn name(i: Id, names: &mut HashMap<Id, SymF>) -> SymF {
    let k = names.len();
    *names.entry(i).or_insert_with(|| SymF::var(&format!("k{}", k)))
}
fn terms(rows: &[[Lc<SymF>; 3]], r: usize) -> BTreeMap<K, [Fr381; 3]> {
    let mut m: BTreeMap<K, [Fr381; 3]> = BTreeMap::new();
    for p in 0..3 {
        for (i, c) in &rows[r][p] {
            let c = c.as_const().expect("constant coefficient");
            m.entry(key_of(*i)).or_insert([Fr381::zero(); 3])[p] += c;
        }
    }
    m.retain(|k, c| *k == ONE || c.iter().any(|x| !x.is_zero()));
    m
}
impl Net {
    fn decide(&mut self, q: Fm) -> bool {
        self.asked += 1;
        let s = format!("{:?}", q);
        if let Some(b) = self.cache.get(&s) {
            return *b;
        }
        let b = matches!(check_sat(&q, 30), Verdict::Unsat);
        self.cache.insert(s, b);
        b
    }
    /// the row at symbolic wires, over local variables; `u` is left open
    fn row(&self, m: &BTreeMap<K, [Fr381; 3]>, u: Option<(K, SymF)>, names: &mut HashMap<Id, SymF>) -> Fm {
        let mut s = [SymF::zero(); 3];
        for (k, c) in m {
            let w = match u {
                Some((x, v)) if x == *k => v,
                _ if *k == ONE => SymF::one(),
                _ => local(self.at[k], false, &self.cut, names, &mut HashMap::new()),
            };
            for p in 0..3 {
                s[p] = s[p] + SymF::cst(c[p]) * w;
            }
        }
        eqf(s[0] * s[1], s[2])
    }
    fn learn(&mut self, k: K, t: SymF) {
        self.at.insert(k, t);
        if t.as_const().is_none() {
            self.cut.insert(t.0, ());
        }
    }
    /// one row with one open wire; true if it determines the wire
    fn step(&mut self, m: &BTreeMap<K, [Fr381; 3]>, u: K, own: &dyn Fn(&Net) -> Option<SymF>) -> bool {
        // the wire's value at the fingerprint point
        let at = |k: &K| if *k == ONE { Fr381::one() } else { self.at[k].fp() };
        let mut s = [Fr381::zero(); 3];
        for (k, c) in m {
            if *k != u {
                for p in 0..3 {
                    s[p] += c[p] * at(k);
                }
            }
        }
        let c = m[&u];
        if !(c[0] * c[1]).is_zero() {
            return false;
        }
        let slope = c[0] * s[1] + c[1] * s[0] - c[2];
        if slope.is_zero() {
            return false;
        }
        let val = (s[2] - s[0] * s[1]) * slope.inverse().unwrap();
        let t = match self.fp_of.get(&val) {
            Some(i) => SymF(*i),
            None => match own(self) {
                Some(t) => t,
                None => return false,
            },
        };
        let mut names = HashMap::new();
        let uv = SymF::var("u");
        let row = self.row(m, Some((u, uv)), &mut names);
        let want = local(t, !self.cut.contains_key(&t.0), &self.cut, &mut names, &mut HashMap::new());
        self.rows += 1;
        if !self.decide(and(vec![row, nef(uv, want)])) {
            return false;
        }
        self.learn(u, t);
        true
    }
}

pub struct Job<'a> {
    pub key: String,
    pub what: &'a str,
    pub t: &'a T,
    /// wires whose meaning is given: the operands
    pub given: Vec<(Index, SymF)>,
    /// how many open wires may be taken as free operands, at their assigned terms
    pub free: usize,
    pub out: Index,
    pub want: SymF,
}

pub fn sweep(rep: &mut Report, j: &Job<'_>) {
    let rows = &j.t.rows;
    let mut n = Net { fp_of: HashMap::new(), at: BTreeMap::new(), cut: HashMap::new(), cache: HashMap::new(), asked: 0, rows: 0, failed: None };
    for i in topo(&[j.want.0]) {
        let f = SymF(i).fp();
        n.fp_of.entry(f).or_insert(i);
    }
    for (i, t) in &j.given {
        n.learn(key_of(*i), *t);
    }
    let ms: Vec<_> = (0..rows.len()).map(|r| terms(rows, r)).collect();
    let mut used: HashMap<K, Vec<usize>> = HashMap::new();
    let mut open: Vec<usize> = vec![0; rows.len()];
    for (r, m) in ms.iter().enumerate() {
        for k in m.keys() {
            if *k != ONE {
                used.entry(*k).or_default().push(r);
                if !n.at.contains_key(k) {
                    open[r] += 1;
                }
            }
        }
    }
    let mut free = j.free;
    let mut todo: std::collections::BTreeSet<usize> = (0..rows.len()).filter(|r| open[*r] == 1).collect();
    let done = |n: &Net| n.at.contains_key(&key_of(j.out));
    loop {
        let r = match todo.iter().next() {
            Some(r) => *r,
            None => {
                if free == 0 || done(&n) {
                    break;
                }
                // the first wire nothing determines
                let k = (0..j.t.aux.len()).map(|k| (false, k)).find(|k| !n.at.contains_key(k) && used.contains_key(k));
                let k = match k {
                    Some(k) => k,
                    None => break,
                };
                free -= 1;
                n.learn(k, j.t.aux[k.1]);
                for r in &used[&k] {
                    open[*r] -= 1;
                    if open[*r] == 1 {
                        todo.insert(*r);
                    }
                }
                continue;
            }
        };
        todo.remove(&r);
        let u = match ms[r].keys().find(|k| **k != ONE && !n.at.contains_key(k)) {
            Some(u) => *u,
            None => continue,
        };
        let m = &ms[r];
        let own = |n: &Net| -> Option<SymF> {
            // only where the row is linear in the wire with a constant slope
            let c = m[&u];
            let mut s = [SymF::zero(); 3];
            for (k, c) in m {
                if *k == u {
                    continue;
                }
                let w = if *k == ONE { SymF::one() } else { n.at[k] };
                for p in 0..3 {
                    s[p] = s[p] + SymF::cst(c[p]) * w;
                }
            }
            let slope = (SymF::cst(c[0]) * s[1] + SymF::cst(c[1]) * s[0] - SymF::cst(c[2])).as_const()?;
            Some((s[2] - s[0] * s[1]) * SymF::cst(slope.inverse()?))
        };
        if n.step(m, u, &own) {
            for r in &used[&u] {
                open[*r] -= 1;
                if open[*r] == 1 {
                    todo.insert(*r);
                }
            }
        } else {
            n.failed.get_or_insert(format!("row {} does not determine the wire {:?}", r, u));
        }
    }
    rep.log(&format!("{}: {} rows decided, {} distinct queries", j.key, n.rows, n.cache.len()));
    match n.at.get(&key_of(j.out)) {
        Some(t) if t.0 == j.want.0 => rep.ok(&format!("{}/sound", j.key)),
        _ => refute(rep, j, &n, &ms),
    }
}
/// a concrete assignment that satisfies every row and whose output is wrong:
/// undetermined wires get values of their own, the rest follow from the rows
fn refute(rep: &mut Report, j: &Job<'_>, n: &Net, ms: &[BTreeMap<K, [Fr381; 3]>]) {
    let want = j.want.fp();
    for attempt in 0..3u64 {
        let mut v: BTreeMap<K, Fr381> = BTreeMap::new();
        v.insert(ONE, Fr381::one());
        for (i, t) in &j.given {
            v.insert(key_of(*i), t.fp());
        }
        let mut fresh = 0u64;
        let all: Vec<K> = {
            let mut s: std::collections::BTreeSet<K> = (0..j.t.aux.len()).map(|k| (false, k)).collect();
            s.extend((1..j.t.inputs.len()).map(|k| (true, k)));
            s.into_iter().collect()
        };
        loop {
            let mut moved = true;
            while moved {
                moved = false;
                for m in ms {
                    let un: Vec<&K> = m.keys().filter(|k| !v.contains_key(k)).collect();
                    if un.len() != 1 {
                        continue;
                    }
                    let u = *un[0];
                    let c = m[&u];
                    let mut s = [Fr381::zero(); 3];
                    for (k, c) in m {
                        if *k != u {
                            for p in 0..3 {
                                s[p] += c[p] * v[k];
                            }
                        }
                    }
                    let slope = c[0] * s[1] + c[1] * s[0] - c[2];
                    if !(c[0] * c[1]).is_zero() || slope.is_zero() {
                        continue;
                    }
                    v.insert(u, (s[2] - s[0] * s[1]) * slope.inverse().unwrap());
                    moved = true;
                }
            }
            match all.iter().find(|k| !v.contains_key(k)) {
                Some(k) => {
                    fresh += 1;
                    let honest = if k.0 { j.t.inputs[k.1].fp() } else { j.t.aux[k.1].fp() };
                    let seeded = n.at.contains_key(k) && (fresh as usize) <= j.free;
                    v.insert(*k, if seeded { honest } else { honest + Fr381::from(attempt + fresh) });
                }
                None => break,
            }
        }
        let fits = ms.iter().all(|m| {
            let mut s = [Fr381::zero(); 3];
            for (k, c) in m {
                for p in 0..3 {
                    s[p] += c[p] * v[k];
                }
            }
            s[0] * s[1] == s[2]
        });
        let got = v[&key_of(j.out)];
        if fits && got != want {
            let ops: Vec<String> = j.given.iter().map(|(i, t)| format!("{:?}={}", i, dec(&t.fp()))).collect();
            rep.replays += 1;
            rep.violation(
                &format!("{}/sound", j.key),
                j.what,
                serde_json::json!({"case": j.key, "operands": ops, "output": dec(&got), "native": dec(&want), "rows": ms.len(), "all rows satisfied": true}),
            );
            return;
        }
    }
    rep.inconclusive(&format!("{}/sound", j.key), n.failed.as_deref().unwrap_or("the rows do not determine the output"));
}

/// the assigned terms satisfy every row
pub fn honest(rep: &mut Report, key: &str, what: &str, t: &T) {
    let val = |i: &Index| t.value(*i);
    let mut cut: HashMap<Id, ()> = HashMap::new();
    let mut cache: HashMap<String, bool> = HashMap::new();
    let mut seen: std::collections::HashSet<K> = Default::default();
    for (r, row) in t.rows.iter().enumerate() {
        let fp = |l: &Lc<SymF>| l.iter().fold(Fr381::zero(), |s, (i, c)| s + c.fp() * val(i).fp());
        if fp(&row[0]) * fp(&row[1]) != fp(&row[2]) {
            rep.replays += 1;
            rep.violation(&format!("{}/honest", key), what, serde_json::json!({"case": key, "row": r, "a": dec(&fp(&row[0])), "b": dec(&fp(&row[1])), "c": dec(&fp(&row[2]))}));
            return;
        }
        let mut fresh: Vec<(K, SymF)> = row.iter().flatten().map(|(i, _)| (key_of(*i), val(i))).filter(|(k, _)| *k != ONE && !seen.contains(k)).collect();
        fresh.dedup();
        // what is first mentioned here: one of it by its own term, the rest
        // arbitrary; all of it by their terms if that does not decide the row
        let mut good = false;
        for pick in (0..=fresh.len()).rev() {
            let mut cut = cut.clone();
            if pick < fresh.len() {
                for (_, t) in &fresh {
                    if t.as_const().is_none() {
                        cut.insert(t.0, ());
                    }
                }
            } else if fresh.len() > 1 {
                continue;
            }
            let top = if pick < fresh.len() { fresh[pick].1 .0 } else { Id::MAX };
            let mut names = HashMap::new();
            let mut memo = HashMap::new();
            let mut lin = |l: &Lc<SymF>| l.iter().fold(SymF::zero(), |s, (i, c)| s + *c * local(val(i), val(i).0 == top && !seen.contains(&key_of(*i)), &cut, &mut names, &mut memo));
            let (a, b, c) = (lin(&row[0]), lin(&row[1]), lin(&row[2]));
            let q = nef(a * b, c);
            let s = format!("{:?}", q);
            good = *cache.entry(s).or_insert_with(|| matches!(check_sat(&q, 30), Verdict::Unsat));
            if good {
                break;
            }
        }
        if !good {
            rep.inconclusive(&format!("{}/honest", key), &format!("row {} not decided", r));
            return;
        }
        for (k, t) in fresh {
            seen.insert(k);
            if t.as_const().is_none() {
                cut.insert(t.0, ());
            }
        }
    }
    rep.log(&format!("{}: assigned terms satisfy {} rows, {} distinct queries", key, t.rows.len(), cache.len()));
    rep.ok(&format!("{}/honest", key));
}

pub fn same(rep: &mut Report, key: &str, what: &str, a: Option<SymF>, b: SymF) {
    match a {
        Some(a) if a.0 == b.0 => rep.ok(key),
        Some(a) if a.fp() == b.fp() => match check_sat(&nef(a, b), 60) {
            Verdict::Unsat => rep.ok(key),
            _ => rep.inconclusive(key, "equal at a random point, not decided"),
        },
        a => {
            rep.replays += 1;
            rep.violation(key, what, serde_json::json!({"case": key, "got": a.map(|a| dec(&a.fp())), "want": dec(&b.fp())}))
        }
    }
}

fn bytes(v: &[SymF]) -> Vec<u8> {
    let mut b = vec![];
    for x in v {
        x.write(&mut b).unwrap();
    }
    b
}

fn enforce<H: AbstractHash<SymF>>(
    rep: &mut Report,
    name: &str,
    n: usize,
    alloc: &dyn Fn(&mut T, usize, SymF) -> H::Output,
    native: &dyn Fn(&[u8]) -> SymF,
) {
    let key = format!("{}/enforce-{}", name, n);
    let what = format!("{} gadget, {} operands: the rows admit an output that is not the native hash", name, n);
    let mut f = || -> Result<(T, Vec<(Index, SymF)>, Index, Option<SymF>, SymF), String> {
        let v: Vec<SymF> = (0..n).map(|i| SymF::var(&format!("v{}", i))).collect();
        let want = native(&bytes(&v));
        let mut t = T::new(true);
        let ps: Vec<H::Output> = v.iter().enumerate().map(|(i, x)| alloc(&mut t, i, *x)).collect();
        let refs: Vec<&H::Output> = ps.iter().collect();
        let o = H::hash_enforce(t.ns(|| "h"), &refs).map_err(|e| format!("{:?}", e))?;
        let given = ps.iter().zip(&v).map(|(p, x)| (p.get_variables()[0].get_unchecked(), *x)).collect();
        let out = o.get_variables();
        let val = o.get_variable_values();
        if out.len() != 1 || val.len() != 1 {
            return Err(format!("{} output wires", out.len()));
        }
        Ok((t, given, out[0].get_unchecked(), val[0], want))
    };
    let e = run_once(vec![], &mut f);
    match e.out {
        Out::Done(Ok((t, given, out, val, want))) => {
            honest(rep, &key, &format!("{} gadget: the honest assignment breaks a row", name), &t);
            same(rep, &format!("{}/value", key), &format!("{} gadget: the reported value is not the native hash", name), val, want);
            same(rep, &format!("{}/wire", key), &format!("{} gadget: the output wire is not assigned the native hash", name), Some(t.value(out)), want);
            sweep(rep, &Job { key: key.clone(), what: &what, t: &t, given, free: 0, out, want });
        }
        Out::Done(Err(x)) => rep.violation(&key, &format!("{} gadget: synthesis fails: {}", name, x), serde_json::json!({"case": key})),
        Out::Panic(p) => rep.violation(&key, &format!("{} gadget panics: {}", name, p), serde_json::json!({"case": key})),
        Out::Unsupported(u) => rep.inconclusive(&key, &u),
    }
}
/// the stand-alone gadget: `public` says whether it exposes the output as a
/// public input
fn alone(rep: &mut Report, name: &str, n: usize, public: bool, gadget: &dyn Fn(&mut T, &[u8]) -> Result<SymF, String>, native: &dyn Fn(&[u8]) -> SymF) {
    let key = format!("{}/alone-{}", name, n);
    let mut f = || -> Result<(T, SymF, SymF), String> {
        let v: Vec<SymF> = (0..n).map(|i| SymF::var(&format!("v{}", i))).collect();
        let b = bytes(&v);
        let want = native(&b);
        let mut t = T::new(true);
        let r = gadget(&mut t, &b)?;
        Ok((t, r, want))
    };
    let e = run_once(vec![], &mut f);
    match e.out {
        Out::Done(Ok((t, r, want))) => {
            honest(rep, &key, &format!("{} gadget: the honest assignment breaks a row", name), &t);
            same(rep, &format!("{}/value", key), &format!("{} gadget: the reported value is not the native hash", name), Some(r), want);
            if public {
                let out = Index::Input(t.inputs.len() - 1);
                same(rep, &format!("{}/public", key), &format!("{} gadget: the public output is not the native hash", name), Some(t.value(out)), want);
                let what = format!("{} gadget: the rows admit a public output that is not the hash of the preimage wires", name);
                sweep(rep, &Job { key: key.clone(), what: &what, t: &t, given: vec![], free: 2, out, want });
            }
        }
        Out::Done(Err(x)) => rep.violation(&key, &format!("{} gadget: synthesis fails: {}", name, x), serde_json::json!({"case": key})),
        Out::Panic(p) => rep.violation(&key, &format!("{} gadget panics: {}", name, p), serde_json::json!({"case": key})),
        Out::Unsupported(u) => rep.inconclusive(&key, &u),
    }
}

pub fn mimc(rep: &mut Report) {
    plain_bytes(true);
    let most = if rep.thorough { 4 } else { 3 };
    rep.function("gadgets/src/hashes/mimc.rs: AbstractHashMimc::hash_enforce, mimc, hash, mimc_hash, mimc_block, constants");
    rep.bound(&format!("all 322 rounds with the real constants over BLS12-381's scalar field; 1..={} field elements hashed, every value symbolic", most));
    for n in 1..=most {
        enforce::<mimc::AbstractHashMimc<SymF>>(rep, "mimc", n, &|t, i, x| mimc::AbstractHashMimcOutput::alloc(t.ns(|| format!("p{}", i)), Some(x)).unwrap(), &|b| mimc::hash(b));
        alone(rep, "mimc", n, false, &|t, b| mimc::mimc(t.ns(|| "m"), Some(b)).map_err(|e| format!("{:?}", e))?.ok_or("no value".into()), &|b| mimc::hash(b));
    }
}
pub fn poseidon(rep: &mut Report) {
    plain_bytes(true);
    let most = if rep.thorough { 3 } else { 2 };
    rep.function("gadgets/src/hashes/poseidon.rs: AbstractHashPoseidon::hash_enforce, poseidon, pow_with_constraint, hash, poseidon_hash, poseidon_block, constants");
    rep.bound(&format!("all 91 rounds with the real constants over BLS12-381's scalar field; 1..={} field elements hashed, every value symbolic", most));
    for n in 1..=most {
        enforce::<poseidon::AbstractHashPoseidon<SymF>>(
            rep,
            "poseidon",
            n,
            &|t, i, x| poseidon::AbstractHashPoseidonOutput::alloc(t.ns(|| format!("p{}", i)), Some(x)).unwrap(),
            &|b| poseidon::hash(b),
        );
        alone(rep, "poseidon", n, true, &|t, b| poseidon::poseidon(t.ns(|| "m"), b).map_err(|e| format!("{:?}", e)), &|b| poseidon::hash(b));
    }
}
pub fn rescue(rep: &mut Report) {
    plain_bytes(true);
    let most = if rep.thorough { 3 } else { 2 };
    rep.function("gadgets/src/hashes/rescue.rs: AbstractHashRescue::hash_enforce, rescue, pow_with_constraint, hash, rescue_hash, rescue_block, constants");
    rep.bound(&format!("all 22 double rounds with the real constants over BLS12-381's scalar field; 1..={} field elements hashed, every value symbolic", most));
    for n in 1..=most {
        enforce::<rescue::AbstractHashRescue<SymF>>(
            rep,
            "rescue",
            n,
            &|t, i, x| rescue::AbstractHashRescueOutput::alloc(t.ns(|| format!("p{}", i)), Some(x)).unwrap(),
            &|b| rescue::hash(b),
        );
        alone(rep, "rescue", n, true, &|t, b| rescue::rescue(t.ns(|| "m"), b).map_err(|e| format!("{:?}", e)), &|b| rescue::hash(b));
    }
}
