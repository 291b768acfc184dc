use crate::boolean::{operand, Kind};
use crate::case::*;
use ark_ff::{Field, One, Zero};
use symeng::*;
use zkp_gadgets::algebra::boolean::Boolean;
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_gadgets::lookup::table::*;
use zkp_r1cs::SynthesisError;

pub fn run(rep: &mut Report) {
    for f in ["AllocatedFr::{alloc, alloc_input, inputize, isnonzero, get_value, get_variable}"] {
        rep.function(f);
    }
    rep.bound("every field value of every wire");
    let x = || SymF::var("x");
    for input in [false, true] {
        let al = move |cs: &mut T| -> Res<AllocatedFr<SymF>> {
            if input {
                AllocatedFr::alloc_input(&mut *cs, || Ok(SymF::var("x")))
            } else {
                AllocatedFr::alloc(&mut *cs, || Ok(SymF::var("x")))
            }
        };
        // the value reported and assigned is the one given
        rep.must_hold(&format!("D03/alloc/{}", input), "an allocated field element does not hold the value it was given", &mut || {
            let mut t = T::new(true);
            let a = al(&mut t).unwrap();
            let before = t.inputs.len() + t.aux.len();
            assert_eq!(t.inputs.len(), if input { 2 } else { 1 });
            assert_eq!(before, 2);
            assert!(t.rows.is_empty());
            vec![(a.get_value().unwrap(), x()), (t.value(a.get_variable().get_unchecked()), x())]
        });
        gadget(rep, &format!("D03/inputize/{}", input), "the public copy may differ from the element", 0, Spec::Value(&|o| vec![o[0]]), &|cs, _| {
            let a = al(cs)?;
            let k = cs.inputs.len();
            a.inputize(&mut *cs)?;
            if cs.inputs.len() != k + 1 {
                return Err(SynthesisError::AssignmentMissing);
            }
            let mut o = Outs::default().opf(&a);
            o.outs.push(vec![(zkp_r1cs::Index::Input(k), SymF::one())]);
            o.vals.push(Some(cs.inputs[k]));
            Ok(o)
        });
        gadget(rep, &format!("D03/isnonzero/{}", input), "zero passes the non-zero assertion", 0, Spec::Rel(&|o| nef(o[0], SymF::zero()), &|_| true), &|cs, _| {
            let a = al(cs)?;
            a.isnonzero(&mut *cs)?;
            Ok(Outs::default().opf(&a))
        });
        // the honest prover: accepted exactly on nonzero values
        let ends = explore(8, 2, || {
            let mut t = T::new(true);
            let a = al(&mut t).unwrap();
            match exploring(|| a.isnonzero(&mut t)) {
                Ok(()) => Some(t.residuals(&t.rows.clone())),
                Err(_) => None,
            }
        });
        for (i, e) in ends.unwrap().into_iter().enumerate() {
            let name = format!("D03/isnonzero/{}/path{}", input, i);
            match &e.out {
                Out::Done(Some(r)) => {
                    let f = or(r.iter().map(|r| nef(*r, SymF::zero())).collect());
                    let mut v = vec![e.pc(), f];
                    v.push(nef(x(), SymF::zero()));
                    rep.must_be_unsat(&name, &and(v), "a nonzero element fails the non-zero assertion", &mut |_| Some(true));
                    rep.must_be_unsat(&format!("{}/zero", name), &and(vec![e.pc(), eqf(x(), SymF::zero()), and(r.iter().map(|r| eqf(*r, SymF::zero())).collect())]), "zero passes the non-zero assertion", &mut |_| Some(true));
                }
                Out::Done(None) => {
                    rep.must_be_unsat(&name, &and(vec![e.pc(), nef(x(), SymF::zero())]), "the prover refuses a nonzero element", &mut |_| Some(true));
                }
                o => rep.inconclusive(&name, &format!("{:?}", o)),
            }
        }
    }
}

fn tab(p: &str, n: usize) -> Vec<SymF> {
    (0..n).map(|i| SymF::var(&format!("{}{}", p, i))).collect()
}
/// multilinear extension of the table at the bits
fn mle(t: &[SymF], b: &[SymF]) -> SymF {
    let mut s = SymF::zero();
    for (i, c) in t.iter().enumerate() {
        let mut m = *c;
        for (k, x) in b.iter().enumerate() {
            m = m * if i >> k & 1 == 1 { *x } else { SymF::one() - *x };
        }
        s = s + m;
    }
    s
}

pub fn lookups(rep: &mut Report) {
    for f in ["lookup1_x", "lookup2_x", "lookup2_xy", "lookup3_x", "lookup3_xy", "synth"] {
        rep.function(f);
    }
    rep.bound("every table (symbolic entries); every combination of index-bit kinds (constant, allocated, negated); every field value of every wire");
    let ks: Vec<Kind> = if rep.thorough { vec![Kind::False, Kind::True, Kind::Is, Kind::Not, Kind::NotNot, Kind::In] } else { vec![Kind::False, Kind::True, Kind::Is, Kind::Not] };
    // equal entries and zero entries as special tables
    let specials: Vec<(&str, Box<dyn Fn(&str, usize) -> Vec<SymF>>)> = vec![
        ("any", Box::new(tab)),
        ("const", Box::new(|p, n| vec![SymF::var(p); n])),
        ("sparse", Box::new(|p, n| (0..n).map(|i| if i % 3 == 1 { SymF::var(p) } else { SymF::zero() }).collect())),
        ("step", Box::new(|_, n| (0..n).map(|i| SymF::int(i as i64)).collect())),
    ];
    for (tn, mk) in &specials {
        for a in &ks {
            gadget(rep, &format!("D05/lookup1_x/{}/{:?}", tn, a), "a one-bit lookup admits another value than the table's", 1, Spec::Value(&|o| vec![mle(&mk("t", 2), o)]), &|cs, v| {
                let b = operand(cs, *a, v[0])?;
                let r = lookup1_x(&mut *cs, &b, &mk("t", 2))?;
                Ok(Outs::default().op(&b).outf(&r))
            });
            for b in &ks {
                let ops = |cs: &mut T, v: &[Option<bool>]| -> Res<Vec<Boolean>> { Ok(vec![operand(cs, *a, v[0])?, operand(cs, *b, v[1])?]) };
                gadget(rep, &format!("D05/lookup2_x/{}/{:?},{:?}", tn, a, b), "a two-bit lookup admits another value than the table's", 2, Spec::Value(&|o| vec![mle(&mk("t", 4), o)]), &|cs, v| {
                    let o = ops(cs, v)?;
                    let r = lookup2_x(&mut *cs, &o, &mk("t", 4))?;
                    Ok(Outs::default().op(&o[0]).op(&o[1]).outf(&r))
                });
                gadget(rep, &format!("D05/lookup2_xy/{}/{:?},{:?}", tn, a, b), "a two-bit lookup admits another value than the table's", 2, Spec::Value(&|o| vec![mle(&mk("t", 4), o), mle(&mk("u", 4), o)]), &|cs, v| {
                    let o = ops(cs, v)?;
                    let t: Vec<_> = mk("t", 4).into_iter().zip(mk("u", 4)).collect();
                    let r = lookup2_xy(&mut *cs, &o, &t)?;
                    Ok(Outs::default().op(&o[0]).op(&o[1]).outf(&r.0).outf(&r.1))
                });
                if *tn != "any" && !rep.thorough && (*a == Kind::False || *b == Kind::True) {
                    continue;
                }
                for c in &ks {
                    let ops = |cs: &mut T, v: &[Option<bool>]| -> Res<Vec<Boolean>> { Ok(vec![operand(cs, *a, v[0])?, operand(cs, *b, v[1])?, operand(cs, *c, v[2])?]) };
                    gadget(rep, &format!("D05/lookup3_x/{}/{:?},{:?},{:?}", tn, a, b, c), "a three-bit lookup admits another value than the table's", 3, Spec::Value(&|o| vec![mle(&mk("t", 8), o)]), &|cs, v| {
                        let o = ops(cs, v)?;
                        let r = lookup3_x(&mut *cs, &o, &mk("t", 8))?;
                        Ok(Outs::default().op(&o[0]).op(&o[1]).op(&o[2]).outf(&r))
                    });
                    gadget(rep, &format!("D05/lookup3_xy/{}/{:?},{:?},{:?}", tn, a, b, c), "a three-bit lookup admits another value than the table's", 3, Spec::Value(&|o| vec![mle(&mk("t", 8), o), mle(&mk("u", 8), o)]), &|cs, v| {
                        let o = ops(cs, v)?;
                        let t: Vec<_> = mk("t", 8).into_iter().zip(mk("u", 8)).collect();
                        let r = lookup3_xy(&mut *cs, &o, &t)?;
                        Ok(Outs::default().op(&o[0]).op(&o[1]).op(&o[2]).outf(&r.0).outf(&r.1))
                    });
                }
            }
        }
    }
}
