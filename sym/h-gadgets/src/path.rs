//! The Merkle path gadget over an ideal hash: every call of the hash gives
//! fresh output wires, and what it was given is recorded.
use crate::case::*;
use crate::tape::*;
use ark_ff::Zero;
use std::cell::RefCell;
use symeng::*;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::merkletree::cbmt_constraints::MerkleProofGadget;
use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};

#[derive(Clone)]
pub struct Out_ {
    vars: Vec<Variable>,
    vals: Vec<Option<SymF>>,
}
impl AbstractHashOutput<SymF> for Out_ {
    fn get_variables(&self) -> Vec<Variable> {
        self.vars.clone()
    }
    fn get_variable_values(&self) -> Vec<Option<SymF>> {
        self.vals.clone()
    }
}
struct Call {
    params: Vec<(Vec<Variable>, Vec<Option<SymF>>)>,
    out: Vec<Variable>,
}
thread_local! {
    static CALLS: RefCell<Vec<Call>> = RefCell::new(vec![]);
    static WIDTH: RefCell<usize> = RefCell::new(1);
}
struct Ideal;
impl AbstractHash<SymF> for Ideal {
    type Output = Out_;
    fn hash_enforce<CS: ConstraintSystem<SymF>>(mut cs: CS, params: &[&Out_]) -> Result<Out_, SynthesisError> {
        let w = WIDTH.with(|w| *w.borrow());
        let n = CALLS.with(|c| c.borrow().len());
        let vals: Vec<SymF> = (0..w).map(|j| SymF::var(&format!("hv{}_{}", n, j))).collect();
        let vars = vals.iter().map(|v| cs.alloc(|| "h", || Ok(*v))).collect::<Result<Vec<_>, _>>()?;
        CALLS.with(|c| {
            c.borrow_mut().push(Call {
                params: params.iter().map(|p| (p.vars.clone(), p.vals.clone())).collect(),
                out: vars.clone(),
            })
        });
        Ok(Out_ { vars, vals: vals.into_iter().map(Some).collect() })
    }
}
fn alloc(t: &mut T, name: &str, w: usize, witness: &dyn Fn(usize) -> SymF, public: bool) -> Out_ {
    let vals: Vec<SymF> = (0..w).map(|j| witness(j)).collect();
    let vars = vals
        .iter()
        .map(|v| if public { t.alloc_input(|| name.to_string(), || Ok(*v)).unwrap() } else { t.alloc(|| name.to_string(), || Ok(*v)).unwrap() })
        .collect();
    Out_ { vars, vals: vals.into_iter().map(Some).collect() }
}

pub struct Ran {
    t: T,
    leaf: Vec<Variable>,
    sib: Vec<Vec<Variable>>,
    root: Vec<Variable>,
    calls: Vec<Call>,
}
struct Shape {
    index: u32,
    sibs: usize,
    /// width of leaf and siblings, of hashes, of the root
    lw: usize,
    hw: usize,
    rw: usize,
}
fn go(s: &Shape, honest: bool) -> Result<Ran, String> {
    CALLS.with(|c| c.borrow_mut().clear());
    WIDTH.with(|w| *w.borrow_mut() = s.hw);
    let mut t = T::new(true);
    let leaf = alloc(&mut t, "leaf", s.lw, &|j| SymF::var(&format!("leaf_{}", j)), false);
    let sibs: Vec<Out_> = (0..s.sibs)
        .map(|i| alloc(&mut t, "sib", if i == 0 { s.lw } else { s.hw }, &|j| SymF::var(&format!("sib{}_{}", i, j)), false))
        .collect();
    let root = alloc(
        &mut t,
        "root",
        s.rw,
        &|j| {
            if !honest {
                SymF::var(&format!("root_{}", j))
            } else if s.sibs == 0 {
                SymF::var(&format!("leaf_{}", j))
            } else {
                SymF::var(&format!("hv{}_{}", s.sibs - 1, j))
            }
        },
        true,
    );
    let (lv, sv, rv) = (leaf.vars.clone(), sibs.iter().map(|s| s.vars.clone()).collect(), root.vars.clone());
    MerkleProofGadget::<u32, SymF, Ideal>::new(s.index, sibs)
        .set_membership(t.ns(|| "m"), root, leaf)
        .map_err(|e| format!("{:?}", e))?;
    let calls = CALLS.with(|c| c.borrow_mut().drain(..).collect());
    Ok(Ran { t, leaf: lv, sib: sv, root: rv, calls })
}
fn at(v: &Variable) -> SymF {
    wire(v.get_unchecked())
}
fn differ(a: &[Variable], b: &[Variable]) -> Fm {
    if a.len() != b.len() {
        return eqf(SymF::zero(), SymF::zero());
    }
    or(a.iter().zip(b).map(|(x, y)| nef(at(x), at(y))).collect())
}
/// some hash was not of the path's own pair, or the last is not the root
fn bad(r: &Ran, index: u32) -> Fm {
    let mut i = index;
    let mut parent = r.leaf.clone();
    let mut fs = vec![];
    if r.calls.len() != r.sib.len() {
        return eqf(SymF::zero(), SymF::zero());
    }
    for (s, c) in r.sib.iter().zip(&r.calls) {
        let (l, rr) = if i % 2 == 1 { (&parent, s) } else { (s, &parent) };
        if c.params.len() != 2 {
            return eqf(SymF::zero(), SymF::zero());
        }
        fs.push(differ(&c.params[0].0, l));
        fs.push(differ(&c.params[1].0, rr));
        parent = c.out.clone();
        i = (i - 1) / 2;
    }
    fs.push(differ(&parent, &r.root));
    or(fs)
}
fn depth(mut i: u32) -> usize {
    let mut d = 0;
    while i != 0 {
        i = (i - 1) / 2;
        d += 1;
    }
    d
}

pub fn run(rep: &mut Report) {
    rep.function("gadgets/src/merkletree/cbmt_constraints.rs: MerkleProofGadget::new, set_membership");
    rep.function("gadgets/src/merkletree/cbmt.rs: TreeIndex for u32 (is_left, parent, is_root)");
    let most = if rep.thorough { 33 } else { 17 };
    rep.bound(&format!("trees of 1..={} leaves, every position; hashes of one and two wires, leaves of one to three; every value of leaf, siblings, root and all other wires", most));
    for n in 1..=most as u32 {
        for p in 0..n {
            let index = n - 1 + p;
            let d = depth(index);
            for (lw, hw) in [(1, 1), (1, 2), (2, 2), (3, 2)] {
                if d == 0 && lw != hw {
                    continue;
                }
                if n > 5 && (lw, hw) != (2, 2) {
                    continue;
                }
                let s = Shape { index, sibs: d, lw, hw, rw: hw };
                one(rep, &format!("n{}p{}/{}-{}", n, p, lw, hw), &s);
            }
        }
    }
    rep.bound("paths one sibling too short or too long and roots of another width: synthesis must fail");
    for n in 1..=8u32 {
        for p in 0..n {
            let index = n - 1 + p;
            let d = depth(index);
            let mut shapes = vec![("long", Shape { index, sibs: d + 1, lw: 2, hw: 2, rw: 2 }), ("narrow root", Shape { index, sibs: d, lw: 2, hw: 2, rw: 1 }), ("no root", Shape { index, sibs: d, lw: 2, hw: 2, rw: 0 }), ("wide root", Shape { index, sibs: d, lw: 2, hw: 2, rw: 3 })];
            if d > 0 {
                shapes.push(("short", Shape { index, sibs: d - 1, lw: 2, hw: 2, rw: 2 }));
            }
            for (what, s) in shapes {
                let key = format!("n{}p{}/{}", n, p, what);
                let e = run_once(vec![], &mut || go(&s, false));
                match e.out {
                    // a shape that cannot be a membership: refused, or unsatisfiable
                    Out::Done(Err(_)) | Out::Panic(_) => rep.ok(&key),
                    Out::Done(Ok(r)) => {
                        let q = and(r.t.rows.iter().map(row_fm).collect());
                        rep.must_be_unsat(&key, &q, &format!("a path that does not fit its position or root ({}) is accepted", what), &mut |m| replays(&s, m, &|r| and(r.t.rows.iter().map(row_fm).collect())));
                    }
                    Out::Unsupported(u) => rep.inconclusive(&key, &u),
                }
            }
        }
    }
}
fn replays(s: &Shape, m: &std::collections::HashMap<String, Fr381>, f: &dyn Fn(&Ran) -> Fm) -> Option<bool> {
    let r = replay_bound(m, &mut || {
        let r = go(s, false).ok()?;
        eval_fm(&f(&r), m)
    });
    match r.out {
        Out::Done(x) => x,
        _ => None,
    }
}
fn one(rep: &mut Report, key: &str, s: &Shape) {
    let e = run_once(vec![], &mut || go(s, false));
    match e.out {
        Out::Done(Ok(r)) => {
            let all = |r: &Ran| {
                let mut v: Vec<Fm> = r.t.rows.iter().map(row_fm).collect();
                v.push(bad(r, s.index));
                and(v)
            };
            let q = all(&r);
            rep.must_be_unsat(&format!("{}/sound", key), &q, "a satisfying assignment where the leaf hashed along the path does not give the root", &mut |m| replays(s, m, &all));
        }
        Out::Done(Err(x)) => rep.violation(&format!("{}/sound", key), &format!("synthesis of a well-formed path fails: {}", x), serde_json::json!({"case": key})),
        Out::Panic(p) => rep.violation(&format!("{}/sound", key), &format!("synthesis of a well-formed path panics: {}", p), serde_json::json!({"case": key})),
        Out::Unsupported(u) => rep.inconclusive(key, &u),
    }
    // the honest witness satisfies the rows, and the hash saw the values of
    // the wires it was given
    rep.must_hold(&format!("{}/honest", key), "an honest path breaks a row", &mut || {
        let r = match go(s, true) {
            Ok(r) => r,
            Err(_) => return vec![(SymF::var("leaf_0"), SymF::zero())],
        };
        let mut v: Vec<(SymF, SymF)> = r.t.residuals(&r.t.rows).into_iter().map(|x| (x, SymF::zero())).collect();
        for c in &r.calls {
            for (vars, vals) in &c.params {
                for (x, y) in vars.iter().zip(vals) {
                    v.push((r.t.value(x.get_unchecked()), y.unwrap_or(SymF::zero())));
                }
            }
        }
        v
    });
}
