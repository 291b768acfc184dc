mod pc;
use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use ark_poly_commit::BatchLCProof;
use pc::*;
use symeng::*;
use zkp_plonk::{Composer, Plonk, Proof, ProverKey, VerifierKey};

type P = Plonk<SymF, SymDigest, IdealPC>;

#[derive(Clone, Debug)]
enum Op {
    /// ql l + qr r - o (+ qa aux) + qc + pi
    Add(usize, usize, usize, Option<usize>),
    /// qm l r - o (+ qa aux) + qc + pi
    Mul(usize, usize, usize, Option<usize>),
    Const(usize),
    Equal(usize, usize),
}

#[derive(Clone, Debug)]
struct Prog {
    nv: usize,
    ops: Vec<Op>,
    /// gates with a (nonzero) public input
    pubs: Vec<usize>,
}

fn v(n: String) -> SymF {
    SymF::var(&n)
}

struct Built {
    cs: Composer<SymF>,
    /// value of each gate's defining expression on the assignment
    gates: Vec<SymF>,
    /// the wires of each gate (variable number; None = the composer's null)
    wires: Vec<[Option<usize>; 4]>,
    coeffs: Vec<[SymF; 7]>, // q0(aux) q1 q2 q3 qm qc pi
}

/// `solve`: choose the constants so that every gate is satisfied
fn build(p: &Prog, solve: bool, val: &dyn Fn(usize) -> SymF) -> Built {
    let mut cs = Composer::<SymF>::new();
    let vals: Vec<SymF> = (0..p.nv).map(|i| val(i)).collect();
    let vars: Vec<_> = vals.iter().map(|x| cs.alloc_and_assign(*x)).collect();
    let (mut gates, mut wires, mut coeffs) = (vec![], vec![], vec![]);
    for (g, op) in p.ops.iter().enumerate() {
        let pi = if p.pubs.contains(&g) { v(format!("pi{}", g)) } else { SymF::zero() };
        let (z, one) = (SymF::zero(), SymF::one());
        let (w, mut q) = match op {
            Op::Add(l, r, o, a) => (
                [*a, Some(*l), Some(*r), Some(*o)],
                [a.map(|_| v(format!("qa{}", g))).unwrap_or(z), v(format!("ql{}", g)), v(format!("qr{}", g)), -one, z, v(format!("qc{}", g)), pi],
            ),
            Op::Mul(l, r, o, a) => (
                [*a, Some(*l), Some(*r), Some(*o)],
                [a.map(|_| v(format!("qa{}", g))).unwrap_or(z), z, z, -one, v(format!("qm{}", g)), v(format!("qc{}", g)), pi],
            ),
            // var == value + pi
            Op::Const(x) => ([None, Some(*x), None, None], [z, one, z, z, z, -v(format!("qc{}", g)), -pi]),
            Op::Equal(l, r) => ([None, Some(*l), Some(*r), None], [z, one, -one, z, z, z, z]),
        };
        let x = |k: usize| w[k].map(|i| vals[i]).unwrap_or(z);
        let e = |q: &[SymF; 7]| q[0] * x(0) + q[1] * x(1) + q[2] * x(2) + q[3] * x(3) + q[4] * x(1) * x(2) + q[5] + q[6];
        if solve {
            match op {
                Op::Equal(..) => {}
                _ => q[5] = q[5] - e(&q),
            }
        }
        let aux = |a: &Option<usize>| a.map(|a| (vars[a], q[0]));
        match op {
            Op::Add(l, r, o, a) => cs.create_add_gate((vars[*l], q[1]), (vars[*r], q[2]), vars[*o], aux(a), q[5], pi),
            Op::Mul(l, r, o, a) => cs.create_mul_gate(vars[*l], vars[*r], vars[*o], aux(a), q[4], q[5], pi),
            Op::Const(i) => cs.constrain_to_constant(vars[*i], -q[5], pi),
            Op::Equal(l, r) => cs.assert_equal(vars[*l], vars[*r]),
        }
        gates.push(e(&q));
        wires.push(w);
        coeffs.push(q);
    }
    Built { cs, gates, wires, coeffs }
}

fn ks() -> [SymF; 4] {
    [SymF::int(1), SymF::int(7), SymF::int(13), SymF::int(17)]
}

fn progs(thorough: bool) -> Vec<(String, Prog)> {
    use Op::*;
    let mut r = vec![
        ("single_mul".to_string(), Prog { nv: 3, ops: vec![Mul(0, 1, 2, None)], pubs: vec![0] }),
        ("square".into(), Prog { nv: 2, ops: vec![Mul(0, 0, 1, None), Const(1)], pubs: vec![1] }),
        ("aux".into(), Prog { nv: 4, ops: vec![Add(0, 1, 2, Some(3)), Mul(2, 3, 0, Some(1))], pubs: vec![1] }),
        ("chain".into(), Prog { nv: 4, ops: vec![Add(0, 1, 2, None), Mul(2, 2, 3, None), Const(3)], pubs: vec![0, 2] }),
        ("eq".into(), Prog { nv: 3, ops: vec![Add(0, 1, 2, None), Equal(0, 1), Mul(0, 1, 2, None)], pubs: vec![] }),
        ("full4".into(), Prog { nv: 4, ops: vec![Add(0, 1, 2, Some(0)), Mul(1, 2, 3, Some(2)), Add(3, 3, 0, None), Const(3)], pubs: vec![0, 1, 2, 3] }),
        ("five".into(), Prog { nv: 5, ops: vec![Add(0, 1, 2, None), Add(0, 2, 3, None), Mul(1, 1, 3, None), Mul(0, 1, 4, Some(4)), Const(4)], pubs: vec![4] }),
    ];
    let mut h = 77u64;
    let mut nx = |m: u64| {
        h ^= h << 13;
        h ^= h >> 7;
        h ^= h << 17;
        (h >> 11) % m
    };
    for k in 0..(if thorough { 40 } else { 12 }) {
        let nv = 2 + nx(3) as usize;
        let ng = 1 + nx(if k % 4 == 3 { 7 } else { 4 }) as usize;
        let mut ops = vec![];
        for _ in 0..ng {
            let mut x = || nx(nv as u64) as usize;
            let (a, b, c, d) = (x(), x(), x(), x());
            ops.push(match nx(6) {
                0 => Add(a, b, c, None),
                1 => Add(a, b, c, Some(d)),
                2 => Mul(a, b, c, None),
                3 => Mul(a, b, c, Some(d)),
                4 => Const(a),
                _ => Equal(a, b),
            });
        }
        let pubs = (0..ng).filter(|_| nx(3) == 0).collect();
        r.push((format!("gen{}", k), Prog { nv, ops, pubs }));
    }
    r
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut rep = Report::new(&id);
    rep.fix_order = vec![vec!["ch"], vec!["ch", "q"], vec!["ch", "q", "pi"], vec!["ch", "q", "x1", "x2", "x3", "x4", "pi"]];
    rep.assumption("polynomial commitment (dependency ark-poly-commit) as an ideal functionality: a claim about a committed polynomial holds or one KZG equation per claim");
    match id.as_str() {
        "P01" => p01(&mut rep),
        "P02" => p02(&mut rep),
        "P03" => p03(&mut rep),
        "P04" => p04(&mut rep),
        _ => panic!("unknown property"),
    }
    rep.finish()
}

fn keys(cs: &Composer<SymF>) -> (ProverKey<SymF, IdealPC>, VerifierKey<SymF, IdealPC>) {
    let srs = P::setup(4096, &mut SymRng).unwrap();
    P::keygen(&srs, cs, ks()).unwrap()
}

fn p01(rep: &mut Report) {
    for f in ["Plonk::keygen", "Plonk::prove", "Plonk::verify", "AHPForPLONK rounds", "Permutation::compute_sigmas", "Composer::synthesize"] {
        rep.function(f);
    }
    for (name, p) in progs(rep.thorough) {
        if p.ops.len() > 5 && !rep.thorough {
            continue;
        }
        rep.bound(&format!("circuit {}: {} gates over {} variables", name, p.ops.len(), p.nv));
        rep.must_accept(&format!("P01/{}", name), "an honest proof is rejected", &mut || {
            clear_oracle();
            draws("ch");
            // equal variables have equal values
            let mut cls: Vec<usize> = (0..p.nv).collect();
            for op in &p.ops {
                if let Op::Equal(l, r) = op {
                    let (a, b) = (cls[*l], cls[*r]);
                    cls.iter_mut().for_each(|c| {
                        if *c == b {
                            *c = a
                        }
                    });
                }
            }
            let b = build(&p, true, &|i| v(format!("x{}", cls[i])));
            let (pk, vk) = keys(&b.cs);
            let proof = P::prove(&pk, &b.cs, &mut SymRng).unwrap();
            P::verify(&vk, b.cs.public_inputs(), proof).unwrap()
        });
    }
}

fn p02(rep: &mut Report) {
    for f in ["Composer::create_add_gate", "create_mul_gate", "constrain_to_constant", "assert_equal", "compose", "synthesize", "public_inputs", "compute_sigmas", "AHPForPLONK::index"] {
        rep.function(f);
    }
    for (name, p) in progs(true) {
        rep.bound(&format!("circuit {}: {} gates over {} variables", name, p.ops.len(), p.nv));
        let dom = |cs: &Composer<SymF>| GeneralEvaluationDomain::<SymF>::new(cs.size()).unwrap();
        // slots of the permutation
        let decode = |cs: &Composer<SymF>| -> Option<Vec<Vec<(usize, usize)>>> {
            let s = cs.compose(&ks()).ok()?;
            let roots: Vec<SymF> = dom(cs).elements().collect();
            let mut ids = std::collections::HashMap::new();
            for c in 0..4 {
                for (i, r) in roots.iter().enumerate() {
                    ids.insert((*r * ks()[c]).as_const()?, (c, i));
                }
            }
            let sg = [&s.sigma_0, &s.sigma_1, &s.sigma_2, &s.sigma_3];
            let mut out = vec![];
            let mut hit = std::collections::HashSet::new();
            for k in 0..4 {
                let mut col = vec![];
                for x in sg[k].iter() {
                    let t = *ids.get(&x.as_const()?)?;
                    hit.insert(t);
                    col.push(t);
                }
                out.push(col);
            }
            if hit.len() == 4 * roots.len() {
                Some(out)
            } else {
                None
            }
        };
        // completeness: the synthesized wires satisfy what the gates say
        rep.must_hold(&format!("P02/{}/synthesize", name), "a compiled gate differs from the constraint, or a copy constraint from the wiring", &mut || {
            let b = build(&p, false, &|i| v(format!("x{}", i)));
            let s = b.cs.compose(&ks()).unwrap();
            let w = b.cs.synthesize().unwrap();
            let w = [w.w_0, w.w_1, w.w_2, w.w_3];
            let pi = b.cs.public_inputs();
            let mut r = vec![];
            for i in 0..s.size() {
                let row = (s.q_0[i] * w[0][i] + s.q_1[i] * w[1][i] + s.q_2[i] * w[2][i] + s.q_3[i] * w[3][i] + s.q_m[i] * w[1][i] * w[2][i] + s.q_c[i]
                    + pi.get(i).copied().unwrap_or(SymF::zero()))
                    * s.q_arith[i];
                r.push((row, b.gates.get(i).copied().unwrap_or(SymF::zero())));
                // the public input of every gate is where the verifier puts it
                r.push((pi.get(i).copied().unwrap_or(SymF::zero()), b.coeffs.get(i).map(|q| q[6]).unwrap_or(SymF::zero())));
            }
            match decode(&b.cs) {
                None => panic!("the wiring is not a permutation of the wire slots"),
                Some(d) => {
                    for c in 0..4 {
                        for i in 0..s.size() {
                            let (c2, i2) = d[c][i];
                            r.push((w[c][i], w[c2][i2]));
                        }
                    }
                }
            }
            r
        });
        // soundness: any wires satisfying rows and copies satisfy the gates
        let formula = || -> Option<Fm> {
            let b = build(&p, false, &|i| v(format!("x{}", i)));
            let s = b.cs.compose(&ks()).ok()?;
            let n = s.size();
            let d = decode(&b.cs)?;
            let wv = |c: usize, i: usize| v(format!("w{}_{}", c, i));
            let pi = b.cs.public_inputs().to_vec();
            let mut hyp = vec![];
            for i in 0..n {
                hyp.push(eqf(
                    (s.q_0[i] * wv(0, i) + s.q_1[i] * wv(1, i) + s.q_2[i] * wv(2, i) + s.q_3[i] * wv(3, i) + s.q_m[i] * wv(1, i) * wv(2, i) + s.q_c[i]
                        + pi.get(i).copied().unwrap_or(SymF::zero()))
                        * s.q_arith[i],
                    SymF::zero(),
                ));
                for c in 0..4 {
                    let (c2, i2) = d[c][i];
                    if (c2, i2) != (c, i) {
                        hyp.push(eqf(wv(c, i), wv(c2, i2)));
                    }
                }
            }
            let mut bad = vec![];
            let mut first: Vec<Option<SymF>> = vec![None; p.nv];
            for (i, w) in b.wires.iter().enumerate() {
                for c in 0..4 {
                    // constrain_to_constant puts its variable on three wires
                    if let Some(k) = w[c] {
                        match first[k] {
                            None => first[k] = Some(wv(c, i)),
                            Some(f) => bad.push(nef(f, wv(c, i))),
                        }
                    }
                }
            }
            for (i, w) in b.wires.iter().enumerate() {
                let x = |k: usize| w[k].map(|j| first[j].unwrap()).unwrap_or(SymF::zero());
                let q = &b.coeffs[i];
                bad.push(nef(
                    q[0] * x(0) + q[1] * x(1) + q[2] * x(2) + q[3] * x(3) + q[4] * x(1) * x(2) + q[5] + q[6],
                    SymF::zero(),
                ));
            }
            Some(and(vec![and(hyp), or(bad)]))
        };
        let mut got = None;
        let e = run_once(vec![], &mut || got = formula());
        let key = format!("P02/{}/wires", name);
        match (e.out, got) {
            (Out::Done(()), Some(fm)) => {
                rep.must_be_unsat(&key, &fm, "wires that satisfy the compiled circuit violate a constraint given to the composer", &mut |m| {
                    let mut g = None;
                    replay_bound(m, &mut || g = formula());
                    eval_fm(&g?, &std::collections::HashMap::new())
                });
            }
            (o, _) => rep.inconclusive(&key, &format!("{:?}", o)),
        }
        // the committed index polynomials are the compiled columns
        if p.ops.len() <= 4 || rep.thorough {
            rep.must_hold(&format!("P02/{}/index", name), "an index polynomial does not interpolate its compiled column", &mut || {
                let b = build(&p, false, &|i| v(format!("x{}", i)));
                let (_, vk) = keys(&b.cs);
                let s = b.cs.compose(&ks()).unwrap();
                let col = |l: &str| match l {
                    "q_0" => &s.q_0,
                    "q_1" => &s.q_1,
                    "q_2" => &s.q_2,
                    "q_3" => &s.q_3,
                    "q_m" => &s.q_m,
                    "q_c" => &s.q_c,
                    "q_arith" => &s.q_arith,
                    "sigma_0" => &s.sigma_0,
                    "sigma_1" => &s.sigma_1,
                    "sigma_2" => &s.sigma_2,
                    "sigma_3" => &s.sigma_3,
                    _ => panic!("unknown label {}", l),
                };
                assert_eq!(vk.comms.len(), 11);
                assert_eq!(vk.labels.len(), 11);
                let mut r = vec![];
                for (c, l) in vk.comms.iter().zip(vk.labels.iter()) {
                    let poly = poly_of(c.c).expect("committed polynomial");
                    for (i, x) in dom(&b.cs).elements().enumerate() {
                        r.push((horner(&poly, x), col(l)[i]));
                    }
                }
                r
            });
        }
    }
}

const EV: [&str; 11] = ["q_arith", "r", "sigma_0", "sigma_1", "sigma_2", "t", "w_0", "w_1", "w_2", "w_3", "z"];
const MSG: [&str; 9] = ["w_0", "w_1", "w_2", "w_3", "z", "t_0", "t_1", "t_2", "t_3"];

fn sym_proof(shape: &[usize], nev: usize, subst: &dyn Fn(&str) -> Option<SymF>) -> Proof<SymF, IdealPC> {
    let mut k = 0;
    let mut commitments = vec![];
    for s in shape {
        let mut row = vec![];
        for _ in 0..*s {
            let n = format!("C_{}", MSG.get(k).map(|s| s.to_string()).unwrap_or(format!("extra{}", k)));
            row.push(Comm { c: subst(&n).unwrap_or_else(|| SymF::var(&n)) });
            k += 1;
        }
        commitments.push(row);
    }
    let evaluations = (0..nev)
        .map(|i| {
            let n = format!("e_{}", EV.get(i).map(|s| s.to_string()).unwrap_or(format!("extra{}", i)));
            subst(&n).unwrap_or_else(|| SymF::var(&n))
        })
        .collect();
    Proof { commitments, evaluations, pc_proof: BatchLCProof { proof: vec![Pf { pi: SymF::one() }], evals: None } }
}

fn sym_vk(n: usize) -> VerifierKey<SymF, IdealPC> {
    let mut cs = Composer::<SymF>::new();
    let a = cs.alloc_and_assign(SymF::one());
    for _ in 0..n {
        cs.constrain_to_constant(a, SymF::one(), SymF::zero());
    }
    let (_, mut vk) = keys(&cs);
    for (c, l) in vk.comms.iter_mut().zip(vk.labels.clone()) {
        c.c = SymF::var(&format!("C_{}", l));
    }
    vk
}

fn p03(rep: &mut Report) {
    for f in ["Plonk::verify", "AHPForPLONK::verifier_equality_check", "verifier_query_set", "construct_linear_combinations"] {
        rep.function(f);
    }
    let sizes: Vec<(usize, usize)> = if rep.thorough { vec![(1, 1), (2, 2), (4, 2), (4, 4), (8, 3), (8, 8)] } else { vec![(1, 1), (2, 1), (4, 3), (8, 2)] };
    let thorough = rep.thorough;
    for (n, npi) in sizes {
        rep.bound(&format!("keys of {} gates, {} public inputs, all commitments and evaluations arbitrary", n, npi));
        rep.verifier_equiv(&format!("P03/n{}_pi{}", n, npi), 2000, n < 8 || thorough, &mut |slot| {
            clear_oracle();
            draws("ch");
            let vk = sym_vk(n);
            let e = |l: &str| SymF::var(&format!("e_{}", l));
            let c = |l: &str| SymF::var(&format!("C_{}", l));
            let (beta, gamma, alpha, zeta) = (SymF::var("ch0"), SymF::var("ch1"), SymF::var("ch2"), SymF::var("ch3"));
            let pis: Vec<SymF> = (0..npi).map(|i| SymF::var(&format!("pi{}", i))).collect();
            let w = GeneralEvaluationDomain::<SymF>::new(n).unwrap().element(1);
            let ni = SymF::int(n as i64).inv_unchecked();
            let wi = w.inverse().unwrap();
            let mut pi_z = SymF::zero();
            let mut l1 = SymF::zero();
            for j in 0..n as u64 {
                let mut s = SymF::zero();
                for (i, p) in pis.iter().enumerate() {
                    s += *p * wi.pow([i as u64 * j]);
                }
                pi_z += s * ni * zeta.pow([j]);
                l1 += ni * zeta.pow([j]);
            }
            let zn = zeta.pow([n as u64]);
            let k = ks();
            let ws = ["w_0", "w_1", "w_2", "w_3"];
            let sg = |i: usize| e(["sigma_0", "sigma_1", "sigma_2"][i]);
            let part = (0..3).fold(SymF::one(), |a, i| a * (e(ws[i]) + beta * sg(i) + gamma));
            let ident = eqf(
                e("t") * (zn - SymF::one()),
                e("r") + e("q_arith") * pi_z - alpha * e("z") * part * (e("w_3") + gamma) - l1 * alpha * alpha,
            );
            let num = (0..4).fold(SymF::one(), |a, i| a * (e(ws[i]) + k[i] * beta * zeta + gamma));
            let arith = e("w_0") * c("q_0") + e("w_1") * c("q_1") + e("w_2") * c("q_2") + e("w_3") * c("q_3") + e("w_1") * e("w_2") * c("q_m") + c("q_c");
            let r = e("q_arith") * arith + (alpha * num + l1 * alpha * alpha) * c("z") - alpha * beta * e("z") * part * c("sigma_3");
            let t = c("t_0") + zn * c("t_1") + zn * zn * c("t_2") + zn * zn * zn * c("t_3");
            let mut all = vec![ident, nef(zeta, SymF::one())];
            for l in EV {
                let (cm, pt) = match l {
                    "r" => (r, zeta),
                    "t" => (t, zeta),
                    "z" => (c("z"), zeta * w),
                    _ => (c(l), zeta),
                };
                all.push(eqf(cm - e(l), pi_var(l) * (tau() - pt)));
            }
            *slot = Some(and(all));
            P::verify(&vk, &pis, sym_proof(&[4, 1, 4], 11, &|_| None)).unwrap_or(false)
        });
    }
    // proofs whose parts are not where the protocol puts them
    let mut shapes: Vec<(Vec<usize>, usize)> = vec![
        (vec![4, 1, 4], 10),
        (vec![4, 1, 4], 12),
        (vec![4, 1, 4, 1], 11),
        (vec![4, 1], 11),
        (vec![4, 1, 5], 11),
        (vec![5, 1, 4], 11),
        (vec![4, 1, 3], 11),
        (vec![4, 2, 4], 11),
    ];
    for a in 0..=9 {
        for b in 0..=9 - a {
            if (a, b) != (4, 1) && (rep.thorough || (a <= 5 && b <= 2)) {
                shapes.push((vec![a, b, 9 - a - b], 11));
            }
        }
    }
    rep.bound("proofs with every other distribution of nine commitments over the rounds, and with one commitment, round or evaluation more or fewer");
    for (sh, nev) in shapes {
        rep.verifier_equiv(&format!("P03/shape{:?}_{}", sh, nev).replace(' ', ""), 500, false, &mut |slot| {
            clear_oracle();
            draws("ch");
            let vk = sym_vk(2);
            *slot = Some(Fm::False);
            P::verify(&vk, &[SymF::var("pi0")], sym_proof(&sh, nev, &|_| None)).unwrap_or(false)
        });
    }
}

fn p04(rep: &mut Report) {
    rep.function("Plonk::verify");
    rep.function("Plonk::prove");
    rep.function("FiatShamirRng::from_seed / absorb");
    rep.bound("every public input, commitment and evaluation of a proof for 4 gates; challenges beta gamma alpha zeta epsilon");
    let npi = 3;
    let mut comps: Vec<(String, usize)> = (0..npi).map(|i| (format!("pi{}", i), 0)).collect();
    for (i, l) in MSG.iter().enumerate() {
        comps.push((format!("C_{}", l), if i < 4 { 0 } else if i < 5 { 2 } else { 3 }));
    }
    comps.extend(EV.iter().map(|l| (format!("e_{}", l), 4)));
    for (name, first) in comps {
        rep.must_bind(&format!("P04/verify/{}", name), first, &mut |x| {
            let vk = sym_vk(4);
            let s = |n: &str| if n == name { Some(x) } else { None };
            let pis: Vec<SymF> = (0..npi).map(|i| format!("pi{}", i)).map(|n| s(&n).unwrap_or_else(|| SymF::var(&n))).collect();
            let _ = P::verify(&vk, &pis, sym_proof(&[4, 1, 4], 11, &s));
            // the opening is checked at the last challenge (when it gets there)
        });
    }
    // the opening challenge the commitment scheme is given is the last one
    rep.must_hold("P04/opening_challenge", "the opening is batched with another value than the transcript's last challenge", &mut || {
        clear_oracle();
        draws("ch");
        *EPS.lock().unwrap() = None;
        let b = build(&progs(false)[3].1, true, &|i| v(format!("x{}", i)));
        let (pk, vk) = keys(&b.cs);
        let proof = P::prove(&pk, &b.cs, &mut SymRng).unwrap();
        P::verify(&vk, b.cs.public_inputs(), proof).unwrap();
        let e = EPS.lock().unwrap().expect("the opening was not checked");
        vec![(e, SymF::var("ch4"))]
    });
    // prover's side
    for i in [0usize, 2] {
        rep.must_bind(&format!("P04/prove/pi{}", i), 0, &mut |x| {
            let mut p = progs(false)[3].1.clone();
            p.pubs.clear();
            let mut cs = Composer::<SymF>::new();
            let a = cs.alloc_and_assign(v("x0".into()));
            for g in 0..3 {
                let pi = if g == i { x } else { v(format!("pi{}", g)) };
                cs.constrain_to_constant(a, v("x0".into()) - pi, pi);
            }
            let (pk, _) = keys(&cs);
            let _ = P::prove(&pk, &cs, &mut SymRng);
        });
    }
}
