use crate::case::*;
use ark_ff::One;
use symeng::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_r1cs::ConstraintSystem;

/// how an operand is presented
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    False,
    True,
    Is,
    Not,
    /// negated twice, through the interface
    NotNot,
    /// an allocated public input
    In,
}
pub const KINDS: [Kind; 4] = [Kind::False, Kind::True, Kind::Is, Kind::Not];

/// an operand of the kind whose *value* is the given bit
pub fn operand(cs: &mut T, k: Kind, v: Option<bool>) -> Res<Boolean> {
    Ok(match k {
        Kind::False => Boolean::constant(false),
        Kind::True => Boolean::constant(true),
        Kind::Is => Boolean::from(AllocatedBit::alloc(cs, v)?),
        Kind::Not => Boolean::from(AllocatedBit::alloc(cs, v.map(|b| !b))?).not(),
        Kind::NotNot => Boolean::from(AllocatedBit::alloc(cs, v)?).not().not(),
        Kind::In => Boolean::from(AllocatedBit::alloc_input(cs, v)?),
    })
}
fn ab(cs: &mut T, v: Option<bool>) -> Res<AllocatedBit> {
    AllocatedBit::alloc(cs, v)
}
pub fn xor(a: SymF, b: SymF) -> SymF {
    a + b - (a + a) * b
}
pub fn nt(a: SymF) -> SymF {
    SymF::one() - a
}

pub fn run(rep: &mut Report) {
    for f in [
        "AllocatedBit::{alloc, alloc_input, alloc_conditionally, xor, and, and_not, nor}",
        "Boolean::{xor, and, sha256_ch, sha256_maj, enforce_equal, not, lc, get_value, constant, is_constant}",
        "u64_into_boolean_vec_le", "field_into_boolean_vec_le", "field_into_allocated_bits_le",
    ] {
        rep.function(f);
    }
    rep.bound("every combination of operand kinds (constant false/true, allocated, negated, doubly negated, public input), including an operand used twice; every field value of every wire");
    type F2 = dyn Fn(&mut T, &AllocatedBit, &AllocatedBit) -> Res<AllocatedBit>;
    let two: Vec<(&str, Box<F2>, Box<dyn Fn(SymF, SymF) -> SymF>)> = vec![
        ("xor", Box::new(|cs, a, b| AllocatedBit::xor(cs, a, b)), Box::new(xor)),
        ("and", Box::new(|cs, a, b| AllocatedBit::and(cs, a, b)), Box::new(|a, b| a * b)),
        ("and_not", Box::new(|cs, a, b| AllocatedBit::and_not(cs, a, b)), Box::new(|a, b| a * nt(b))),
        ("nor", Box::new(|cs, a, b| AllocatedBit::nor(cs, a, b)), Box::new(|a, b| nt(a) * nt(b))),
    ];
    for (n, g, s) in &two {
        gadget(rep, &format!("D01/bit/{}", n), "the gate on allocated bits admits a wrong result", 2, Spec::Value(&|o| vec![s(o[0], o[1])]), &|cs, v| {
            let a = ab(cs, v[0])?;
            let b = ab(cs, v[1])?;
            let r = g(cs, &a, &b)?;
            Ok(Outs::default().op(&a.into()).op(&b.into()).out(&r.into()))
        });
        gadget(rep, &format!("D01/bit/{}/same", n), "the gate on one bit used twice admits a wrong result", 1, Spec::Value(&|o| vec![s(o[0], o[0])]), &|cs, v| {
            let a = ab(cs, v[0])?;
            let r = g(cs, &a, &a)?;
            Ok(Outs::default().op(&a.into()).out(&r.into()))
        });
    }
    // allocation: the wire is 0 or 1
    for k in [Kind::Is, Kind::Not, Kind::NotNot, Kind::In] {
        gadget(rep, &format!("D01/alloc/{:?}", k), "an allocated bit may hold another value than 0 or 1", 1, Spec::Rel(&|o| or(vec![eqf(o[0], SymF::int(0)), eqf(o[0], SymF::int(1))]), &|_| true), &|cs, v| {
            let a = operand(cs, k, v[0])?;
            Ok(Outs::default().op(&a))
        });
        gadget(rep, &format!("D01/value/{:?}", k), "an allocated bit does not hold the value it was given", 1, Spec::Value(&|o| vec![o[0], nt(o[0])]), &|cs, v| {
            let a = operand(cs, k, v[0])?;
            if v[0].is_some() && a.get_value() != v[0] {
                return Err(zkp_r1cs::SynthesisError::AssignmentMissing);
            }
            if a.is_constant() {
                return Err(zkp_r1cs::SynthesisError::AssignmentMissing);
            }
            Ok(Outs::default().op(&a).out(&a).out(&a.not()))
        });
    }
    // (the condition is an allocated bit) false unless the condition is false
    gadget(
        rep,
        "D01/alloc_conditionally",
        "the conditional bit may be set although it must be false",
        2,
        Spec::Rel(&|o| or(vec![eqf(o[1], SymF::int(0)), and(vec![eqf(o[0], SymF::int(0)), eqf(o[1], SymF::int(1))])]), &|b| !(b[0] && b[1])),
        &|cs, v| {
            let c = ab(cs, v[0])?;
            let a = AllocatedBit::alloc_conditionally(&mut *cs, v[1], &c)?;
            Ok(Outs::default().op(&c.into()).op(&a.into()))
        },
    );
    let all = [Kind::False, Kind::True, Kind::Is, Kind::Not, Kind::NotNot, Kind::In];
    for a in all {
        // the linear form of a boolean
        gadget(rep, &format!("D01/lc/{:?}", a), "the linear form of a boolean is not coefficient times value", 1, Spec::Value(&|o| vec![o[0] * SymF::var("k")]), &|cs, v| {
            let x = operand(cs, a, v[0])?;
            let l = x.lc::<SymF>(one(), SymF::var("k"));
            let mut o = Outs::default().op(&x);
            o.outs.push(crate::tape::lc_of(&l));
            let val = match a {
                Kind::False => Some(false),
                Kind::True => Some(true),
                _ => v[0],
            };
            o.vals.push(val.map(|b| b2f(b) * SymF::var("k")));
            Ok(o)
        });
        for b in all {
            let nb = 2;
            let mk = |cs: &mut T, v: &[Option<bool>]| -> Res<(Boolean, Boolean)> { Ok((operand(cs, a, v[0])?, operand(cs, b, v[1])?)) };
            gadget(rep, &format!("D01/xor/{:?},{:?}", a, b), "xor admits a wrong result", nb, Spec::Value(&|o| vec![xor(o[0], o[1])]), &|cs, v| {
                let (x, y) = mk(cs, v)?;
                let r = Boolean::xor::<SymF, _>(cs, &x, &y)?;
                Ok(Outs::default().op(&x).op(&y).out(&r))
            });
            gadget(rep, &format!("D01/and/{:?},{:?}", a, b), "and admits a wrong result", nb, Spec::Value(&|o| vec![o[0] * o[1]]), &|cs, v| {
                let (x, y) = mk(cs, v)?;
                let r = Boolean::and::<SymF, _>(cs, &x, &y)?;
                Ok(Outs::default().op(&x).op(&y).out(&r))
            });
            let cst = |k: Kind| matches!(k, Kind::False | Kind::True);
            let val = move |k: Kind, v: bool| match k {
                Kind::False => false,
                Kind::True => true,
                _ => v,
            };
            let fails = cst(a) && cst(b) && a != b;
            let rel = |o: &[SymF]| eqf(o[0], o[1]);
            let relb = move |v: &[bool]| val(a, v[0]) == val(b, v[1]);
            let sp = if fails { Spec::Fails } else { Spec::Rel(&rel, &relb) };
            gadget(rep, &format!("D01/enforce_equal/{:?},{:?}", a, b), "equality of two booleans is not enforced exactly", nb, sp, &|cs, v| {
                let (x, y) = mk(cs, v)?;
                Boolean::enforce_equal::<SymF, _>(&mut *cs, &x, &y)?;
                Ok(Outs::default().op(&x).op(&y))
            });
        }
    }
    let ks: &[Kind] = if rep.thorough { &all } else { &KINDS };
    for a in ks {
        for b in ks {
            for c in ks {
                let mk = |cs: &mut T, v: &[Option<bool>]| -> Res<[Boolean; 3]> { Ok([operand(cs, *a, v[0])?, operand(cs, *b, v[1])?, operand(cs, *c, v[2])?]) };
                gadget(rep, &format!("D01/ch/{:?},{:?},{:?}", a, b, c), "choice admits a wrong result", 3, Spec::Value(&|o| vec![o[0] * o[1] + nt(o[0]) * o[2]]), &|cs, v| {
                    let o = mk(cs, v)?;
                    let r = Boolean::sha256_ch::<SymF, _>(&mut *cs, &o[0], &o[1], &o[2])?;
                    Ok(Outs::default().op(&o[0]).op(&o[1]).op(&o[2]).out(&r))
                });
                gadget(
                    rep,
                    &format!("D01/maj/{:?},{:?},{:?}", a, b, c),
                    "majority admits a wrong result",
                    3,
                    Spec::Value(&|o| vec![o[0] * o[1] + o[0] * o[2] + o[1] * o[2] - SymF::int(2) * o[0] * o[1] * o[2]]),
                    &|cs, v| {
                        let o = mk(cs, v)?;
                        let r = Boolean::sha256_maj::<SymF, _>(&mut *cs, &o[0], &o[1], &o[2])?;
                        Ok(Outs::default().op(&o[0]).op(&o[1]).op(&o[2]).out(&r))
                    },
                );
            }
        }
    }
    // one bit in two or three places, in both polarities
    for (i, (p, q)) in [(false, false), (false, true), (true, false), (true, true)].into_iter().enumerate() {
        let pol = |x: &Boolean, n: bool| if n { x.not() } else { *x };
        gadget(rep, &format!("D01/shared{}", i), "a gate with a shared operand admits a wrong result", 2, Spec::Value(&|o| {
            let a = o[0];
            let c = o[1];
            let x = if p { nt(a) } else { a };
            let y = if q { nt(a) } else { a };
            vec![xor(x, y), x * y, x * y + nt(x) * c, x * y + nt(x) * c, x * y + x * c + y * c - SymF::int(2) * x * y * c]
        }), &|cs, v| {
            let a = operand(cs, Kind::Is, v[0])?;
            let c = operand(cs, Kind::Is, v[1])?;
            let (x, y) = (pol(&a, p), pol(&a, q));
            let r0 = Boolean::xor::<SymF, _>(&mut *cs, &x, &y)?;
            let r1 = Boolean::and::<SymF, _>(&mut *cs, &x, &y)?;
            let r2 = Boolean::sha256_ch::<SymF, _>(&mut *cs, &x, &y, &c)?;
            let t = Boolean::and::<SymF, _>(&mut *cs, &x.not(), &c)?;
            let r3 = Boolean::xor::<SymF, _>(&mut *cs, &r1, &t)?;
            let r4 = Boolean::sha256_maj::<SymF, _>(&mut *cs, &x, &y, &c)?;
            Ok(Outs::default().op(&a).op(&c).out(&r0).out(&r1).out(&r2).out(&r3).out(&r4))
        });
    }
    decompositions(rep);
}

/// bit decompositions: every bit a boolean, in little-endian order
fn decompositions(rep: &mut Report) {
    use ark_ff::{BigInteger, PrimeField};
    let boolean = |o: &[SymF]| and(o.iter().map(|x| or(vec![eqf(*x, SymF::int(0)), eqf(*x, SymF::int(1))])).collect());
    gadget(rep, "D01/u64_bits", "a bit of the decomposition may hold another value than 0 or 1", 0, Spec::Rel(&boolean, &|_| true), &|cs, _| {
        let v = if cs.witness { Some(0x8000_0000_0000_0001u64) } else { None };
        let b = u64_into_boolean_vec_le(&mut *cs, v)?;
        Ok(b.iter().fold(Outs::default(), |o, x| o.op(x)))
    });
    gadget(rep, "D01/field_bits", "a bit of the decomposition may hold another value than 0 or 1", 0, Spec::Rel(&boolean, &|_| true), &|cs, _| {
        let v = if cs.witness { Some(SymF::int(5)) } else { None };
        let b = field_into_boolean_vec_le::<SymF, _>(&mut *cs, v)?;
        if b.len() != 255 {
            return Err(zkp_r1cs::SynthesisError::AssignmentMissing);
        }
        Ok(b.iter().fold(Outs::default(), |o, x| o.op(x)))
    });
    // order and value of the bits: one symbolic bit at a time over a fixed
    // pattern (64 positions, both values), and boundary values
    for base in [0u64, !0, 0xdead_beef_0123_4567] {
        for i in 0..64 {
            let name = format!("D01/u64_order/{:x}/{}", base, i);
            let ends = explore(4, 1, || {
                let on = exploring(|| SymF::var("b") == SymF::one());
                let x = if on { base | 1 << i } else { base & !(1 << i) };
                let mut t = T::new(true);
                let b = u64_into_boolean_vec_le(&mut t, Some(x)).unwrap();
                let ok = b.len() == 64 && (0..64).all(|j| b[j].get_value() == Some(x >> j & 1 == 1) && t.eval(&blc(&b[j])) == b2f(x >> j & 1 == 1));
                (x, ok)
            });
            for e in ends.unwrap() {
                match e.out {
                    Out::Done((_, true)) => {}
                    Out::Done((x, false)) => rep.violation(&name, "the decomposition is not the little-endian bits of the number", serde_json::json!({"x": x})),
                    o => rep.inconclusive(&name, &format!("{:?}", o)),
                }
            }
        }
        rep.ok(&format!("D01/u64_order/{:x}", base));
    }
    let minus = |k: u64| -Fr381::from(k);
    for (n, x) in [("0", Fr381::from(0u64)), ("1", Fr381::from(1u64)), ("-1", minus(1)), ("-2", minus(2)), ("mid", Fr381::from(2u64).inverse_()), ("big", symeng::hash_fr("big", 3))] {
        let mut t = crate::tape::Tape::<Fr381>::new(true);
        let b = field_into_allocated_bits_le::<Fr381, _>(&mut t, Some(x)).unwrap();
        let r = x.into_repr();
        let ok = b.len() == 255 && (0..255).all(|j| b[j].get_value() == Some(r.get_bit(j)) && (t.value(b[j].get_variable().get_unchecked()) == Fr381::from(r.get_bit(j) as u64)));
        if ok {
            rep.native += 1;
        } else {
            rep.violation(&format!("D01/field_order/{}", n), "the decomposition is not the little-endian bits of the field element", serde_json::json!({"x": n}));
        }
    }
}
trait Inv {
    fn inverse_(&self) -> Self;
}
impl Inv for Fr381 {
    fn inverse_(&self) -> Self {
        ark_ff::Field::inverse(self).unwrap()
    }
}
