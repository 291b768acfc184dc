//! Range comparison: rows lowered to linear integer arithmetic modulo p.
use crate::case::wire;
use crate::tape::*;
use ark_ff::{BigInteger, Field, FpParameters, One, PrimeField, Zero};
use symeng::*;
use zkp_gadgets::operator::rangeproof::RangeProof;
use zkp_r1cs::{ConstraintSynthesizer, Index};

type F = Fr381;
type T = Tape<F>;

fn p_dec() -> String {
    let mut m = ark_bls12_381::FrParameters::MODULUS;
    m.sub_noborrow(&ark_ff::BigInteger256::from(1));
    // dec(-1) + 1 in decimal
    let s = dec(&-F::one());
    inc(&s)
}
fn inc(s: &str) -> String {
    let mut d: Vec<u8> = s.bytes().collect();
    let mut i = d.len();
    loop {
        if i == 0 {
            d.insert(0, b'1');
            break;
        }
        i -= 1;
        if d[i] == b'9' {
            d[i] = b'0';
        } else {
            d[i] += 1;
            break;
        }
    }
    String::from_utf8(d).unwrap()
}
/// signed representative
fn cst(c: &F) -> String {
    let n = -*c;
    if n.into_repr() < c.into_repr() {
        format!("(- {})", dec(&n))
    } else {
        dec(c)
    }
}
fn name(i: &Index) -> String {
    match i {
        Index::Input(0) => "1".into(),
        Index::Input(k) => format!("i{}", k),
        Index::Aux(k) => format!("w{}", k),
    }
}
fn lin(l: &Lc<F>) -> String {
    let ts: Vec<String> = l.iter().filter(|t| !t.1.is_zero()).map(|(i, c)| if *c == F::one() { name(i) } else { format!("(* {} {})", cst(c), name(i)) }).collect();
    match ts.len() {
        0 => "0".into(),
        1 => ts[0].clone(),
        _ => format!("(+ {})", ts.join(" ")),
    }
}
fn konst(l: &Lc<F>) -> Option<F> {
    let mut s = F::zero();
    for (i, c) in l {
        if *i == Index::Input(0) {
            s += c
        } else if !c.is_zero() {
            return None;
        }
    }
    Some(s)
}
fn zero(l: &str, p: &str) -> String {
    format!("(= (mod {} {}) 0)", l, p)
}
/// facts every satisfying assignment of the row has
fn facts(r: &[Lc<F>; 3], p: &str) -> String {
    let sub = |l: &str, m: &str| format!("(- {} {})", l, m);
    let (a, b, c) = (lin(&r[0]), lin(&r[1]), lin(&r[2]));
    let scaled = |k: F, l: &Lc<F>| -> String { lin(&l.iter().map(|(i, x)| (*i, *x * k)).collect()) };
    if let Some(k) = konst(&r[0]) {
        return zero(&sub(&scaled(k, &r[1]), &c), p);
    }
    if let Some(k) = konst(&r[1]) {
        return zero(&sub(&scaled(k, &r[0]), &c), p);
    }
    if let Some(k) = konst(&r[2]) {
        if k.is_zero() {
            // booleanity in the usual form, directly
            if let (Some(x), true) = (single(&r[1]), true) {
                let mut s = lin(&r[0]);
                if s == format!("(+ 1 (* (- 1) {}))", x) || s == format!("(+ (* (- 1) {}) 1)", x) {
                    s = format!("(or (= {} 0) (= {} 1))", x, x);
                    return s;
                }
            }
            return format!("(or {} {})", zero(&a, p), zero(&b, p));
        }
    }
    format!(
        "(and (= (or {za} {zb}) {zc}) (=> {a1} {bc}) (=> {b1} {ac}))",
        za = zero(&a, p),
        zb = zero(&b, p),
        zc = zero(&c, p),
        a1 = zero(&sub(&a, "1"), p),
        bc = zero(&sub(&b, &c), p),
        b1 = zero(&sub(&b, "1"), p),
        ac = zero(&sub(&a, &c), p)
    )
}
fn single(l: &Lc<F>) -> Option<String> {
    let v: Vec<_> = l.iter().filter(|t| !t.1.is_zero()).collect();
    if v.len() == 1 && v[0].1 == F::one() && v[0].0 != Index::Input(0) {
        Some(name(&v[0].0))
    } else {
        None
    }
}

fn build(n: u64, v: Option<(F, F)>) -> Result<T, String> {
    let r = std::panic::catch_unwind(|| {
        let mut t = T::new(v.is_some());
        RangeProof { lhs: v.map(|x| x.0), rhs: v.map(|x| x.1), n }.generate_constraints(&mut t).map(|_| t).map_err(|e| format!("{:?}", e))
    });
    match r {
        Ok(x) => x,
        Err(_) => Err("panic".into()),
    }
}

pub fn run(rep: &mut Report) {
    rep.function("RangeProof::generate_constraints");
    let ns: Vec<u64> = if rep.thorough { (1..=40).chain([48, 64, 96, 100, 128, 160, 192, 200, 224, 240, 250, 252]).collect() } else { vec![1, 2, 3, 4, 5, 8, 13, 16, 24, 32, 48, 64] };
    rep.bound(&format!("bit widths {:?}; every pair of operands below 2^n and every field value of the other wires; the public input is 2^n", ns));
    rep.assumption("operands below 2^n (the gadget does not constrain them) and the public input 2^n supplied by the verifier");
    let p = p_dec();
    for n in ns {
        let key = format!("D04/n{}", n);
        let two_n = F::from(2u64).pow(&[n]);
        let shape = match build(n, None) {
            Ok(t) => t,
            Err(e) => {
                rep.violation(&format!("{}/shape", key), &format!("synthesis without a witness fails: {}", e), serde_json::json!({"n": n}));
                continue;
            }
        };
        // the operands' wires, found by value
        let (lv, rv) = if n >= 6 { (F::from(37u64), F::from(58u64)) } else { (F::from(0u64), F::from(0u64)) };
        let roles = if n >= 6 {
            let t = build(n, Some((lv, rv))).unwrap();
            let f = |x: F| (0..t.aux.len()).find(|i| t.aux[*i] == x).map(Index::Aux).or((1..t.inputs.len()).find(|i| t.inputs[*i] == x).map(Index::Input));
            (f(lv), f(rv))
        } else {
            // below 2^6, values collide with bits: use values out of range,
            // only to find the wires
            let (a, b) = (symeng::hash_fr("lhs", n), symeng::hash_fr("rhs", n));
            let t = build(n, Some((a, b))).unwrap();
            let f = |x: F| (0..t.aux.len()).find(|i| t.aux[*i] == x).map(Index::Aux).or((1..t.inputs.len()).find(|i| t.inputs[*i] == x).map(Index::Input));
            (f(a), f(b))
        };
        let (l, r) = match roles {
            (Some(l), Some(r)) => (l, r),
            _ => {
                rep.inconclusive(&key, "operand wires not found");
                continue;
            }
        };
        let mut s = String::from("(set-logic QF_LIA)\n");
        let mut names: Vec<String> = vec![];
        for i in 1..shape.inputs.len() {
            names.push(format!("i{}", i));
        }
        for i in 0..shape.aux.len() {
            names.push(format!("w{}", i));
        }
        for v in &names {
            s.push_str(&format!("(declare-const {v} Int)\n(assert (and (<= 0 {v}) (< {v} {p})))\n"));
        }
        // public inputs as the honest verifier supplies them
        let hon = build(n, Some((F::zero(), F::one()))).unwrap_or_else(|_| shape.clone());
        for i in 1..hon.inputs.len() {
            if hon.inputs[i] != two_n {
                rep.violation(&format!("{}/input", key), "the public input is not 2^n", serde_json::json!({"n": n}));
            }
            s.push_str(&format!("(assert (= i{} {}))\n", i, dec(&hon.inputs[i])));
        }
        for row in &shape.rows {
            s.push_str(&format!("(assert {})\n", facts(row, &p)));
        }
        let (ln, rn) = (name(&l), name(&r));
        s.push_str(&format!("(assert (and (< {ln} {t}) (< {rn} {t})))\n", t = dec(&two_n)));
        let base = s.clone();
        s.push_str(&format!("(assert (not (< {ln} {rn})))\n(check-sat)\n(get-value ({}))\n", names.join(" ")));
        let out = z3_raw(&s, if rep.thorough { 300 } else { 60 });
        match out.lines().next().unwrap_or("") {
            "unsat" => rep.ok(&format!("{}/sound", key)),
            "sat" => {
                // complete the operands to wires that satisfy the rows
                let get = |v: &str| -> Option<F> {
                    let k = out.find(&format!("({} ", v))?;
                    let num: String = out[k + v.len() + 2..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    Some(undec(&num))
                };
                let mut fm: Vec<Fm> = vec![];
                let w = |l: &Lc<F>| l.iter().fold(SymF::zero(), |a, (i, c)| a + SymF::cst(*c) * wire(*i));
                for row in &shape.rows {
                    fm.push(eqf(w(&row[0]) * w(&row[1]), w(&row[2])));
                }
                let (a, b) = (get(&ln).unwrap(), get(&rn).unwrap());
                fm.push(eqf(wire(l), SymF::cst(a)));
                fm.push(eqf(wire(r), SymF::cst(b)));
                for i in 1..hon.inputs.len() {
                    fm.push(eqf(wire(Index::Input(i)), SymF::cst(hon.inputs[i])));
                }
                // wires the model sets to 0 or 1 keep that value
                for i in 0..shape.aux.len() {
                    if let Some(v) = get(&format!("w{}", i)) {
                        if v.is_zero() || v == F::one() {
                            fm.push(eqf(wire(Index::Aux(i)), SymF::cst(v)));
                        }
                    }
                }
                match try_dag(&and(fm.clone()), 60) {
                    Verdict::Sat(m) => {
                        rep.replays += 1;
                        rep.violation(&format!("{}/sound", key), "the comparison is satisfied by operands that are not in order", serde_json::json!({"n": n, "lhs": dec(&a), "rhs": dec(&b), "wires": model_json(&m)}));
                    }
                    o => rep.inconclusive(&format!("{}/sound", key), &format!("model not completed: {:?}", o.tag())),
                }
            }
            _ => rep.inconclusive(&format!("{}/sound", key), &format!("solver: {}", out.chars().take(100).collect::<String>())),
        }
        // vacuity: some ordered pair satisfies the rows' facts
        if n <= 16 {
            let mut v = base;
            v.push_str(&format!("(assert (< {ln} {rn}))\n(check-sat)\n"));
            if z3_raw(&v, 30).starts_with("sat") {
                rep.witnesses += 1
            }
        }
        // the witness computation: all pairs for small widths (forked), the
        // boundary pairs for the others
        let pairs: Vec<(F, F)> = if n <= 4 {
            let ends = explore(1 << (2 * n + 2), 2 * n as usize, || {
                let mut v = [0u64; 2];
                for i in 0..2 * n {
                    if exploring(|| SymF::var(&format!("b{}", i)) == SymF::one()) {
                        v[(i / n) as usize] |= 1 << (i % n);
                    }
                }
                v
            });
            ends.unwrap().into_iter().filter_map(|e| if let Out::Done(v) = e.out { Some((F::from(v[0]), F::from(v[1]))) } else { None }).collect()
        } else {
            let m = two_n - F::one();
            let h = F::from(2u64).pow(&[n - 1]);
            let o = F::one();
            let mut v = vec![];
            for a in [F::zero(), o, h - o, h, h + o, m - o, m] {
                for b in [F::zero(), o, h - o, h, h + o, m - o, m] {
                    v.push((a, b));
                }
            }
            v
        };
        if n <= 4 && pairs.len() != 1 << (2 * n) {
            rep.inconclusive(&format!("{}/honest", key), "not all operand pairs reached");
        }
        let mut good = true;
        for (a, b) in pairs {
            let lt = a.into_repr() < b.into_repr();
            match build(n, Some((a, b))) {
                Ok(w) => {
                    let holds = w.sized_like(&shape) && w.residuals(&shape.rows).iter().all(|x| x.is_zero());
                    if holds != lt {
                        good = false;
                        rep.violation(&format!("{}/honest", key), "the prover's wires satisfy the comparison exactly when the operands are not in order", serde_json::json!({"n": n, "lhs": dec(&a), "rhs": dec(&b), "satisfied": holds}));
                    }
                    rep.native += 1;
                }
                Err(e) => {
                    if lt {
                        good = false;
                        rep.violation(&format!("{}/honest", key), &format!("the prover fails on operands in order: {}", e), serde_json::json!({"n": n, "lhs": dec(&a), "rhs": dec(&b)}));
                    }
                }
            }
            if !good {
                break;
            }
        }
        if good {
            rep.ok(&format!("{}/honest", key));
        }
    }
}
