use ark_ff::Zero;
use symeng::*;
use zkp_r1cs::*;

type LC = LinearCombination<SymF>;
type CV = ConstraintVar<SymF>;

fn var(i: usize) -> Variable {
    // even: inputs, odd: auxiliary
    Variable::new_unchecked(if i % 2 == 0 { Index::Input(i / 2) } else { Index::Aux(i / 2) })
}
fn val(v: &Variable) -> SymF {
    match v.get_unchecked() {
        Index::Input(i) => SymF::var(&format!("in{}", i)),
        Index::Aux(i) => SymF::var(&format!("aux{}", i)),
    }
}
fn ev(l: &LC) -> SymF {
    l.as_ref().iter().fold(SymF::zero(), |s, (v, c)| s + val(v) * *c)
}
fn evc(c: &CV) -> SymF {
    match c {
        ConstraintVar::LC(l) => ev(l),
        ConstraintVar::Var(v) => val(v),
    }
}

/// an operand: the variables added one after the other
fn patterns(th: bool) -> Vec<Vec<usize>> {
    let mut p = vec![
        vec![],
        vec![0],
        vec![3],
        vec![3, 0],
        vec![1, 1],
        vec![0, 2, 4],
        vec![5, 3, 1, 0],
        vec![2, 7, 1, 2, 4],
        vec![0, 1, 2, 3, 4, 5],
        vec![9, 8, 7, 6, 5, 4, 3, 2],
        vec![4, 4, 4, 4, 4, 4, 4, 4],
        vec![6, 1, 6, 3, 0, 6, 9, 1, 1, 8, 12, 6],
    ];
    if th {
        p.push((0..24).map(|i| i * 7 % 24).collect());
        p.push((0..20).map(|i| i * 5 % 11).collect());
        p.push((0..40).rev().map(|i| i / 2).collect());
        p.push(vec![0, 1, 2, 3, 4, 5, 2]);
        p.push(vec![0, 0, 2, 3, 4, 5, 0]);
        p.push(vec![12, 10, 8, 6, 4, 2, 11, 9]);
    }
    p
}
/// the combination and the value it must have
fn build(tag: &str, p: &[usize]) -> (LC, SymF) {
    let mut l = LC::zero();
    let mut s = SymF::zero();
    for (k, i) in p.iter().enumerate() {
        let c = SymF::var(&format!("{}{}", tag, k));
        let v = var(*i);
        // every way of adding one term
        match k % 5 {
            0 => {
                l = l + (c, v);
                s = s + c * val(&v)
            }
            1 => {
                l += (c, v);
                s = s + c * val(&v)
            }
            2 => {
                l = l - (c, v);
                s = s - c * val(&v)
            }
            3 => {
                l = l + v;
                s = s + val(&v)
            }
            _ => {
                l = l - v;
                s = s - val(&v)
            }
        }
    }
    (l, s)
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    assert_eq!(id, "C01");
    let mut rep = Report::new(&id);
    for f in ["LinearCombination: Add/Sub/Neg/Mul/AddAssign/MulAssign (all impls)", "get_var_loc", "op_impl", "ConstraintVar: all operator impls", "From conversions"] {
        rep.function(f);
    }
    let pats = patterns(rep.thorough);
    rep.bound(&format!("{} operand shapes of 0..{} terms over up to 20 variables, with repeats; every ordered pair under every operator; chains of operators of length 9", pats.len(), pats.iter().map(|p| p.len()).max().unwrap()));
    let k = SymF::var("k");
    for p in &pats {
        rep.must_hold(&format!("C01/unary{:?}", p).replace(' ', ""), "a unary operation or conversion changes the value", &mut || {
            let (a, s) = build("a", p);
            let mut out = vec![(ev(&a), s)];
            out.push((ev(&-a.clone()), -s));
            out.push((ev(&(a.clone() * k)), s * k));
            let mut b = a.clone();
            b *= k;
            out.push((ev(&b), s * k));
            let mut b = a.clone();
            b.negate_in_place();
            out.push((ev(&b), -s));
            let mut b = a.clone();
            b.double_in_place();
            out.push((ev(&b), s + s));
            let mut b = a.clone();
            b.replace_in_place(LC::from((k, var(2))));
            out.push((ev(&b), k * val(&var(2))));
            out.push((ev(&LC::from(var(3))), val(&var(3))));
            // wrapper over a combination
            let c = CV::from(a.clone());
            out.push((evc(&c), s));
            out.push((evc(&-c.clone()), -s));
            out.push((evc(&(c.clone() * k)), s * k));
            let mut d = c.clone();
            d *= k;
            out.push((evc(&d), s * k));
            let mut d = c.clone();
            d.double_in_place();
            out.push((evc(&d), s + s));
            out.push((evc(&CV::from((k, a.clone()))), s * k));
            out.push((evc(&CV::from((k, c.clone()))), s * k));
            for vi in [0usize, 1, 4, 5, 9] {
                let v = var(vi);
                out.push((evc(&(c.clone() + (k, v))), s + k * val(&v)));
                out.push((evc(&(c.clone() - (k, v))), s - k * val(&v)));
                out.push((evc(&(c.clone() + v)), s + val(&v)));
                out.push((evc(&(c.clone() - v)), s - val(&v)));
                let mut d = c.clone();
                d += (k, v);
                out.push((evc(&d), s + k * val(&v)));
                // wrapper over a bare variable
                let w = CV::from(v);
                let x = val(&v);
                out.push((evc(&w), x));
                out.push((ev(&(w.clone() + a.clone())), x + s));
                out.push((ev(&(w.clone() - a.clone())), x - s));
                out.push((ev(&(&w + a.clone())), x + s));
                out.push((ev(&(&w - a.clone())), x - s));
                out.push((evc(&(w.clone() + &c)), x + s));
                out.push((evc(&(w.clone() - &c)), x - s));
                out.push((evc(&(c.clone() + &w)), s + x));
                out.push((evc(&(c.clone() - &w)), s - x));
                out.push((evc(&(&w + &c)), x + s));
                out.push((evc(&(&w - &c)), x - s));
                out.push((evc(&(&c - &w)), s - x));
                out.push((evc(&(w.clone() + (k, &c))), x + k * s));
                out.push((evc(&(w.clone() - (k, &c))), x - k * s));
                out.push((evc(&(c.clone() + (k, &w))), s + k * x));
                out.push((evc(&(c.clone() - (k, &w))), s - k * x));
                out.push((evc(&(w.clone() + &w)), x + x));
                out.push((evc(&(w.clone() - &w)), SymF::zero()));
                out.push((evc(&-w.clone()), -x));
                out.push((evc(&(w.clone() * k)), x * k));
                out.push((evc(&(w.clone() + (k, v))), x + k * x));
                out.push((evc(&(w.clone() - (k, var(3)))), x - k * val(&var(3))));
                out.push((evc(&CV::from((k, w.clone()))), k * x));
                let mut d = w.clone();
                d += (k, var(3));
                out.push((evc(&d), x + k * val(&var(3))));
                let mut d = w.clone();
                d.negate_in_place();
                out.push((evc(&d), -x));
                let mut d = w.clone();
                d.double_in_place();
                out.push((evc(&d), x + x));
                let mut d = w.clone();
                d *= k;
                out.push((evc(&d), x * k));
            }
            out
        });
        for q in &pats {
            rep.must_hold(&format!("C01/binary{:?}x{:?}", p, q).replace(' ', ""), "a binary operation changes the value", &mut || {
                let (a, s) = build("a", p);
                let (b, t) = build("b", q);
                let mut o = vec![];
                o.push((ev(&(&a + &b)), s + t));
                o.push((ev(&(&a + b.clone())), s + t));
                o.push((ev(&(a.clone() + &b)), s + t));
                o.push((ev(&(a.clone() + b.clone())), s + t));
                o.push((ev(&(&a - &b)), s - t));
                o.push((ev(&(&a - b.clone())), s - t));
                o.push((ev(&(a.clone() - &b)), s - t));
                o.push((ev(&(a.clone() - b.clone())), s - t));
                o.push((ev(&(&a + (k, &b))), s + k * t));
                o.push((ev(&(&a + (k, b.clone()))), s + k * t));
                o.push((ev(&(a.clone() + (k, &b))), s + k * t));
                o.push((ev(&(a.clone() + (k, b.clone()))), s + k * t));
                o.push((ev(&(&a - (k, &b))), s - k * t));
                o.push((ev(&(&a - (k, b.clone()))), s - k * t));
                o.push((ev(&(a.clone() - (k, &b))), s - k * t));
                o.push((ev(&(a.clone() - (k, b.clone()))), s - k * t));
                let (c, d) = (CV::from(a.clone()), CV::from(b.clone()));
                o.push((evc(&(c.clone() + &d)), s + t));
                o.push((evc(&(c.clone() - &d)), s - t));
                o.push((evc(&(&c + &d)), s + t));
                o.push((evc(&(&c - &d)), s - t));
                o.push((evc(&(c.clone() + (k, &d))), s + k * t));
                o.push((evc(&(c.clone() - (k, &d))), s - k * t));
                o.push((ev(&(c.clone() + b.clone())), s + t));
                o.push((ev(&(c.clone() - b.clone())), s - t));
                o.push((ev(&(&c + b.clone())), s + t));
                o.push((ev(&(&c - b.clone())), s - t));
                // a further term on a combined, possibly unsorted, operand
                let e = &(&a + &b) - (k, &a);
                o.push((ev(&(e.clone() + (k, var(6)))), s + t - k * s + k * val(&var(6))));
                o.push((ev(&(&e + &a)), s + t - k * s + s));
                o
            });
        }
    }
    // chains
    let chains = if rep.thorough { 40 } else { 8 };
    for s0 in 0..chains {
        rep.must_hold(&format!("C01/chain{}", s0), "a chain of operations changes the value", &mut || {
            let mut h = 0x1234567u64 + s0 as u64 * 7919;
            let mut nx = |m: u64| {
                h ^= h << 13;
                h ^= h >> 7;
                h ^= h << 17;
                h % m
            };
            let (mut a, mut s) = build("a", &pats[nx(pats.len() as u64) as usize]);
            for i in 0..9 {
                let kk = SymF::var(&format!("k{}", i));
                let (b, t) = build(&format!("c{}_", i), &pats[nx(pats.len() as u64) as usize]);
                match nx(7) {
                    0 => {
                        a = &a + &b;
                        s = s + t
                    }
                    1 => {
                        a = a - &b;
                        s = s - t
                    }
                    2 => {
                        a = a + (kk, &b);
                        s = s + kk * t
                    }
                    3 => {
                        a = &b - (kk, a);
                        s = t - kk * s
                    }
                    4 => {
                        a = -a * kk;
                        s = -s * kk
                    }
                    5 => {
                        let v = var(nx(14) as usize);
                        a += (kk, v);
                        s = s + kk * val(&v)
                    }
                    _ => {
                        a.double_in_place();
                        a = a + b;
                        s = s + s + t
                    }
                }
            }
            vec![(ev(&a), s)]
        });
    }
    rep.finish()
}
