//! One gadget call: what its rows force on its wires (solver, over all field
//! values of every wire) and what its witness computation assigns (all paths).
use crate::tape::*;
use ark_ff::{One, Zero};
use symeng::*;
use zkp_gadgets::algebra::boolean::Boolean;
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_r1cs::{Index, SynthesisError, Variable};

pub type T = Tape<SymF>;
pub type Res<X> = Result<X, SynthesisError>;

/// operands and results of a gadget call, as linear forms and as the values
/// the gadget reports
#[derive(Clone, Debug, Default)]
pub struct Outs {
    pub ops: Vec<Lc<SymF>>,
    pub outs: Vec<Lc<SymF>>,
    pub vals: Vec<Option<SymF>>,
}
pub fn one() -> Variable {
    Variable::new_unchecked(Index::Input(0))
}
pub fn b2f(b: bool) -> SymF {
    if b {
        SymF::one()
    } else {
        SymF::zero()
    }
}
pub fn blc(b: &Boolean) -> Lc<SymF> {
    // not through Boolean::lc, which is itself under test
    match b {
        Boolean::Constant(c) => vec![(Index::Input(0), b2f(*c))],
        Boolean::Is(v) => vec![(v.get_variable().get_unchecked(), SymF::one())],
        Boolean::Not(v) => vec![(Index::Input(0), SymF::one()), (v.get_variable().get_unchecked(), -SymF::one())],
    }
}
impl Outs {
    pub fn op(mut self, b: &Boolean) -> Self {
        self.ops.push(blc(b));
        self
    }
    pub fn out(mut self, b: &Boolean) -> Self {
        self.outs.push(blc(b));
        self.vals.push(b.get_value().map(b2f));
        self
    }
    pub fn outf(mut self, f: &AllocatedFr<SymF>) -> Self {
        self.outs.push(vec![(f.get_variable().get_unchecked(), SymF::one())]);
        self.vals.push(f.get_value());
        self
    }
    pub fn opf(mut self, f: &AllocatedFr<SymF>) -> Self {
        self.ops.push(vec![(f.get_variable().get_unchecked(), SymF::one())]);
        self
    }
}

pub fn wire(i: Index) -> SymF {
    match i {
        Index::Input(0) => SymF::one(),
        Index::Input(k) => SymF::var(&format!("i{}", k)),
        Index::Aux(k) => SymF::var(&format!("w{}", k)),
    }
}
pub fn lin(l: &Lc<SymF>) -> SymF {
    l.iter().fold(SymF::zero(), |s, (i, c)| s + *c * wire(*i))
}
pub fn row_fm(r: &[Lc<SymF>; 3]) -> Fm {
    eqf(lin(&r[0]) * lin(&r[1]), lin(&r[2]))
}

pub enum Spec<'a> {
    /// the results as functions of the operands' values
    Value(&'a dyn Fn(&[SymF]) -> Vec<SymF>),
    /// the call constrains its operands: must hold exactly when
    Rel(&'a dyn Fn(&[SymF]) -> Fm, &'a dyn Fn(&[bool]) -> bool),
    /// synthesis must fail
    Fails,
}

pub fn gadget(rep: &mut Report, key: &str, what: &str, nbits: usize, spec: Spec<'_>, f: &dyn Fn(&mut T, &[Option<bool>]) -> Res<Outs>) {
    let none: Vec<Option<bool>> = vec![None; nbits];
    // what key generation sees
    let mut shape_run = || -> Result<(T, Outs), String> {
        let mut t = T::new(false);
        let o = f(&mut t, &none).map_err(|e| format!("{:?}", e))?;
        Ok((t, o))
    };
    let e = run_once(vec![], &mut shape_run);
    let (t, o) = match e.out {
        Out::Done(Ok(x)) => {
            if let Spec::Fails = spec {
                rep.violation(&format!("{}/shape", key), &format!("{}: synthesis does not report the contradiction", what), serde_json::json!({"case": key}));
                return;
            }
            x
        }
        Out::Done(Err(er)) => {
            if let Spec::Fails = spec {
                rep.ok(&format!("{}/fails", key));
                return;
            }
            rep.violation(&format!("{}/shape", key), &format!("{}: synthesis without a witness fails: {}", what, er), serde_json::json!({"case": key}));
            return;
        }
        Out::Panic(p) => {
            rep.violation(&format!("{}/shape", key), &format!("{}: synthesis panics: {}", what, p), serde_json::json!({"case": key}));
            return;
        }
        Out::Unsupported(u) => {
            rep.inconclusive(&format!("{}/shape", key), &u);
            return;
        }
    };
    let bad = |o: &Outs| -> Fm {
        let ops: Vec<SymF> = o.ops.iter().map(lin).collect();
        match &spec {
            Spec::Value(s) => {
                let want = s(&ops);
                if want.len() != o.outs.len() {
                    return eqf(SymF::one(), SymF::one());
                }
                or(want.iter().zip(&o.outs).map(|(w, x)| nef(*w, lin(x))).collect())
            }
            Spec::Rel(r, _) => not(r(&ops)),
            Spec::Fails => unreachable!(),
        }
    };
    let fm = |t: &T, o: &Outs| -> Fm {
        let mut v: Vec<Fm> = t.rows.iter().map(row_fm).collect();
        v.push(bad(o));
        and(v)
    };
    let q = fm(&t, &o);
    rep.must_be_unsat(&format!("{}/sound", key), &q, what, &mut |m| {
        // the same call at the model, its rows and wires concrete
        let r = replay_bound(m, &mut || {
            let mut t = T::new(false);
            let o = f(&mut t, &none).ok()?;
            eval_fm(&fm(&t, &o), m)
        });
        match r.out {
            Out::Done(x) => x,
            _ => None,
        }
    });
    // the witness computation, on every combination of operand bits
    let mut honest = || -> (Vec<bool>, Result<Vec<(SymF, SymF)>, String>, Vec<SymF>) {
        let bits: Vec<bool> = (0..nbits).map(|i| exploring(|| SymF::var(&format!("bit{}", i)) == SymF::one())).collect();
        let ob: Vec<Option<bool>> = bits.iter().map(|b| Some(*b)).collect();
        let mut w = T::new(true);
        let o2 = match f(&mut w, &ob) {
            Ok(o2) => o2,
            Err(e) => return (bits, Err(format!("{:?}", e)), vec![]),
        };
        if !w.sized_like(&t) {
            return (bits, Err("the circuit has another shape with a witness than without".into()), vec![]);
        }
        let res = w.residuals(&t.rows);
        let mut eqs = vec![];
        let ops: Vec<SymF> = o2.ops.iter().map(|l| w.eval(l)).collect();
        if let Spec::Value(s) = &spec {
            for ((want, l), v) in s(&ops).into_iter().zip(&o2.outs).zip(&o2.vals) {
                eqs.push((w.eval(l), want));
                match v {
                    Some(v) => eqs.push((*v, want)),
                    None => return (bits, Err("a result has no value although its operands do".into()), vec![]),
                }
            }
        }
        (bits, Ok(eqs), res)
    };
    // only the operand bits fork; everything else follows the generic branch
    let ends = explore(1 << (nbits + 1), nbits, &mut honest);
    let ends = match ends {
        Some(e) => e,
        None => {
            rep.inconclusive(&format!("{}/honest", key), "too many paths");
            return;
        }
    };
    let mut seen = std::collections::HashSet::new();
    for (k, e) in ends.iter().enumerate() {
        let name = format!("{}/honest{}", key, k);
        match &e.out {
            Out::Done((bits, Err(er), _)) => rep.violation(&name, &format!("{}: the honest witness fails: {}", what, er), serde_json::json!({"bits": bits})),
            Out::Done((bits, Ok(eqs), res)) => {
                seen.insert(bits.clone());
                let expect = match &spec {
                    Spec::Rel(_, b) => b(bits),
                    _ => true,
                };
                if expect {
                    let mut pairs: Vec<(Id, Id)> = eqs.iter().map(|(a, b)| (a.0, b.0)).collect();
                    pairs.extend(res.iter().map(|r| (r.0, SymF::zero().0)));
                    pairs.extend(e.valid.iter().cloned());
                    // identical terms need no query
                    pairs.retain(|(a, b)| a != b);
                    let bits = bits.clone();
                    rep.discharge_valid(&name, &e.conds, &pairs, what, &mut |m| {
                        let mut m = m.clone();
                        for (i, b) in bits.iter().enumerate() {
                            m.insert(format!("bit{}", i), if *b { Fr381::one() } else { Fr381::zero() });
                        }
                        let r = replay_bound(&m, &mut honest);
                        match r.out {
                            Out::Done((_, Ok(eqs), res)) => Some(eqs.iter().any(|(a, b)| a.as_const() != b.as_const()) || res.iter().any(|r| r.as_const() != Some(Fr381::zero()))),
                            Out::Done(_) | Out::Panic(_) => Some(true),
                            _ => None,
                        }
                    });
                } else {
                    // some row must be violated: all rows holding is impossible
                    let all = and(res.iter().map(|r| eqf(*r, SymF::zero())).collect());
                    rep.must_be_unsat(&name, &and(vec![e.pc(), all]), what, &mut |_| Some(true));
                }
            }
            Out::Panic(p) => rep.violation(&name, &format!("{}: panic: {}", what, p), serde_json::json!({"case": key})),
            Out::Unsupported(u) => rep.inconclusive(&name, u),
        }
    }
    if seen.len() == 1 << nbits {
        rep.witnesses += 1;
    } else {
        rep.inconclusive(&format!("{}/honest", key), &format!("{} of {} operand values reached", seen.len(), 1 << nbits));
    }
}
