use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use symcirc::*;
use symeng::*;
use zkp_groth16::generator::generate_parameters;
use zkp_groth16::prover::{create_proof, create_proof_no_zk};
use zkp_groth16::*;

fn shapes(th: bool) -> Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> {
    let mut v: Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> = vec![];
    let mut dn = |i: usize, a: usize, c: usize, af: bool| {
        v.push((
            format!("dense(inputs={},aux={},rows={},aux_first={})", i, a, c, af),
            Box::new(move || {
                let mut k = dense::<SymF>(i, a, c);
                k.aux_first = af;
                k
            }),
        ));
    };
    dn(1, 1, 1, false);
    dn(0, 2, 2, false);
    dn(2, 1, 1, true);
    dn(1, 1, 2, true);
    if th {
        dn(1, 2, 2, false);
        dn(2, 0, 3, false);
    }
    let sp: Vec<(usize, usize, usize, u64)> = if th {
        vec![(2, 3, 5, 1), (0, 4, 7, 2), (3, 5, 12, 3), (1, 9, 13, 4), (4, 12, 24, 5), (2, 30, 33, 6), (6, 3, 3, 7)]
    } else {
        vec![(2, 3, 5, 1), (0, 4, 7, 2), (3, 5, 12, 3), (6, 3, 3, 7), (2, 16, 17, 8)]
    };
    for (i, a, c, s) in sp {
        v.push((
            format!("sparse(inputs={},aux={},rows={},salt={})", i, a, c, s),
            Box::new(move || sparse::<SymF>(i, a, c, s)),
        ));
    }
    v.push(("repeated-columns".into(), Box::new(|| repeated::<SymF>())));
    v
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut rep = Report::new(&id);
    rep.bound("field/groups: BLS12-381 scalar field; group elements as discrete logs (generic-group model, MSM/FFT code real except ark-ec MSM contract)");
    match id.as_str() {
        "G01" => g01(&mut rep),
        "G02" => g02(&mut rep),
        "G03" => g03(&mut rep),
        "G04" => g04(&mut rep),
        _ => panic!("unknown property"),
    }
    rep.finish()
}

fn g01(rep: &mut Report) {
    rep.fix_order = vec![vec!["crs"], vec!["crs", "rnd"]];
    for f in ["generate_random_parameters", "create_random_proof", "create_proof_no_zk", "prepare_verifying_key", "verify_proof", "R1CStoQAP::*"] {
        rep.function(f);
    }
    for (name, mk) in shapes(rep.thorough) {
        rep.bound(&name);
        rep.must_accept(&format!("G01/{}", name), "an honest Groth16 proof is rejected", &mut || {
            let mut rng = SymRng;
            draws("crs");
            let params = generate_random_parameters::<SymE, _, _>(mk(), &mut rng).unwrap();
            draws("rnd");
            let proof = create_random_proof(&params, mk(), &mut rng).unwrap();
            let pvk = prepare_verifying_key(&params.vk);
            verify_proof(&pvk, &proof, &mk().inputs()).unwrap()
        });
    }
    // unblinded prover, explicit blinding corner cases
    for (k, (r, s)) in [(0, 0), (0, 5), (7, 0)].iter().enumerate() {
        rep.must_accept(&format!("G01/blinding-corner{}", k), "an honest Groth16 proof with a zero blinder is rejected", &mut || {
            let mut rng = SymRng;
            let mk = || sparse::<SymF>(2, 3, 5, 1);
            draws("crs");
            let params = generate_random_parameters::<SymE, _, _>(mk(), &mut rng).unwrap();
            draws("rnd");
            let proof = if k == 0 {
                create_proof_no_zk(&params, mk()).unwrap()
            } else {
                create_proof(&params, mk(), SymF::int(*r), SymF::int(*s)).unwrap()
            };
            let pvk = prepare_verifying_key(&params.vk);
            verify_proof(&pvk, &proof, &mk().inputs()).unwrap()
        });
    }
}

fn sym_vk(n: usize) -> VerifyKey<SymE> {
    let g = |s: &str| SymF::var(s);
    VerifyKey::<SymE> {
        alpha_g1: G1A::of(g("vk_alpha")),
        beta_g2: G2A::of(g("vk_beta")),
        gamma_g2: G2A::of(g("vk_gamma")),
        delta_g2: G2A::of(g("vk_delta")),
        gamma_abc_g1: (0..n).map(|i| G1A::of(g(&format!("vk_abc{}", i)))).collect(),
    }
}

fn g02(rep: &mut Report) {
    rep.function("prepare_verifying_key");
    rep.function("verify_proof");
    let max = if rep.thorough { 9 } else { 5 };
    rep.bound(&format!("verifying key with 0..{} instance elements and 0..{} public inputs, all symbolic", max, max));
    for n in 0..=max {
        for k in 0..=max {
            if (n as i64 - k as i64 - 1).abs() > 2 {
                continue;
            }
            rep.verifier_equiv(&format!("G02/vk{}_inputs{}", n, k), 64, true, &mut |slot| {
                let vk = sym_vk(n);
                let xs: Vec<SymF> = (0..k).map(|i| SymF::var(&format!("x{}", i))).collect();
                let (a, b, c) = (SymF::var("pA"), SymF::var("pB"), SymF::var("pC"));
                *slot = Some(if k + 1 != n {
                    Fm::False
                } else {
                    let mut acc = vk.gamma_abc_g1[0].d;
                    for i in 0..k {
                        acc = acc + xs[i] * vk.gamma_abc_g1[i + 1].d;
                    }
                    eqf(a * b, vk.alpha_g1.d * vk.beta_g2.d + acc * vk.gamma_g2.d + c * vk.delta_g2.d)
                });
                let proof = Proof::<SymE> { a: G1A::of(a), b: G2A::of(b), c: G1A::of(c) };
                let pvk = prepare_verifying_key(&vk);
                matches!(verify_proof(&pvk, &proof, &xs), Ok(true))
            });
        }
    }
}

fn g03(rep: &mut Report) {
    rep.function("generate_parameters");
    rep.function("R1CStoQAP::instance_map_with_evaluation");
    for (name, mk) in shapes(rep.thorough) {
        rep.bound(&name);
        rep.must_hold(&format!("G03/{}", name), "the generated parameters do not encode the circuit's QAP", &mut || {
            let mut rng = SymRng;
            let (al, be, ga, de) = (SymF::var("alpha"), SymF::var("beta"), SymF::var("gamma"), SymF::var("delta"));
            let c = mk();
            let p = generate_parameters::<SymE, _, _>(mk(), al, be, ga, de, &mut rng).unwrap();
            let g1 = p.vk.alpha_g1.d * al.inverse().unwrap();
            let g2 = p.vk.beta_g2.d * be.inverse().unwrap();
            let n = c.nc() + 1 + c.ni;
            let m = GeneralEvaluationDomain::<SymF>::new(n).unwrap();
            let msz = m.size();
            let mut out = vec![];
            // the evaluation point
            let t = if msz > 2 {
                p.h_query[1].d * p.h_query[0].d.inverse().unwrap()
            } else {
                // a two-point domain has a single h element: read t off zt = t^2 - 1 is
                // not possible linearly; the drawn point is the only other variable
                return vec![];
            };
            let zt = t.pow([msz as u64]) - SymF::one();
            out.push((SymF::int((p.h_query.len() == msz - 1) as i64), SymF::one()));
            let di = de.inverse().unwrap();
            let gi = ga.inverse().unwrap();
            for (i, h) in p.h_query.iter().enumerate() {
                out.push((h.d * de, g1 * zt * t.pow([i as u64])));
            }
            out.push((p.beta_g1.d, g1 * be));
            out.push((p.delta_g1.d, g1 * de));
            out.push((p.vk.gamma_g2.d, g2 * ga));
            out.push((p.vk.delta_g2.d, g2 * de));
            // Lagrange basis from its definition: L_i(t) = w^i (t^m - 1) / (m (t - w^i))
            let w = m.element(1);
            let mi = SymF::int(msz as i64).inverse().unwrap();
            let lag: Vec<SymF> = (0..msz)
                .map(|i| {
                    let wi = w.pow([i as u64]);
                    wi * zt * mi * (t - wi).inverse().unwrap()
                })
                .collect();
            let nv = 1 + c.ni + c.na;
            let mut ev = vec![vec![SymF::zero(); nv]; 3];
            for (i, row) in c.rows.iter().enumerate() {
                for k in 0..3 {
                    for (j, co) in &row[k] {
                        ev[k][*j] = ev[k][*j] + *co * lag[i];
                    }
                }
            }
            for j in 0..=c.ni {
                ev[0][j] = ev[0][j] + lag[c.nc() + j];
            }
            let len_ok = p.a_query.len() == nv
                && p.b_g1_query.len() == nv
                && p.b_g2_query.len() == nv
                && p.vk.gamma_abc_g1.len() == 1 + c.ni
                && p.l_query.len() == c.na;
            out.push((SymF::int(len_ok as i64), SymF::one()));
            for j in 0..nv {
                out.push((p.a_query[j].d, g1 * ev[0][j]));
                out.push((p.b_g1_query[j].d, g1 * ev[1][j]));
                out.push((p.b_g2_query[j].d, g2 * ev[1][j]));
                let comb = g1 * (be * ev[0][j] + al * ev[1][j] + ev[2][j]);
                if j <= c.ni {
                    out.push((p.vk.gamma_abc_g1[j].d, comb * gi));
                } else {
                    out.push((p.l_query[j - 1 - c.ni].d, comb * di));
                }
            }
            out
        });
    }
    // the trapdoor: independent draws
    rep.function("generate_random_parameters");
    let e = run_once(vec![], &mut || {
        let p = generate_random_parameters::<SymE, _, _>(sparse::<SymF>(1, 2, 3, 1), &mut SymRng).unwrap();
        vec![p.vk.alpha_g1.d, p.beta_g1.d, p.delta_g1.d, p.vk.beta_g2.d, p.vk.gamma_g2.d, p.h_query[0].d, p.h_query[1].d]
    });
    if let Out::Done(v) = &e.out {
        // the six images reach arbitrary (solver-checked) target values at the
        // same time: no trapdoor element is a function of the others
        let t = v[6] * v[5].inv_unchecked();
        let imgs = [v[0], v[1], v[2], v[3], v[4], t];
        let f = and(imgs.iter().enumerate().map(|(i, x)| eqf(*x, SymF::cst(hash_fr(&format!("target{}", i), 1)))).collect());
        let key = "G03/trapdoor-independent";
        match check_sat(&f, rep.timeout) {
            Verdict::Sat(m) => {
                assert!(eval_fm(&f, &m) != Some(false));
                rep.witnesses += 1;
                rep.ok(key)
            }
            Verdict::Unsat => rep.violation(
                key,
                "the trapdoor elements are not independent draws: arbitrary values cannot be reached together",
                serde_json::json!({"targets": imgs.len()}),
            ),
            Verdict::Unknown(u) => rep.inconclusive(key, &u),
        }
    } else {
        rep.inconclusive("G03/trapdoor", "setup did not finish");
    }
}

fn g04(rep: &mut Report) {
    rep.function("create_random_proof");
    rep.function("create_proof");
    rep.fix_order = vec![vec!["crs"]];
    for (name, mk) in shapes(false) {
        rep.bound(&name);
        let mut ndraws = 0usize;
        let mut run = || {
            let mut rng = SymRng;
            draws("crs");
            let params = generate_random_parameters::<SymE, _, _>(mk(), &mut rng).unwrap();
            draws("rnd");
            let n0 = st().n_rnd_vars();
            let p1 = create_random_proof(&params, mk(), &mut rng).unwrap();
            let n1 = st().n_rnd_vars();
            let p2 = create_random_proof(&params, mk(), &mut rng).unwrap();
            let n2 = st().n_rnd_vars();
            let d1: Vec<SymF> = (n0..n1).map(|i| SymF::var(&format!("rnd{}", i))).collect();
            let d2: Vec<SymF> = (n1..n2).map(|i| SymF::var(&format!("rnd{}", i))).collect();
            (p1, p2, d1, d2, params.delta_g1.d, params.vk.delta_g2.d)
        };
        let e = run_once(vec![], &mut run);
        rep.assumed += e.assumed.len() as u64;
        let key = format!("G04/{}", name);
        let (p1, p2, d1, d2, dg1, dg2) = match &e.out {
            Out::Done(x) => x.clone(),
            o => {
                rep.inconclusive(&key, &format!("{:?}", o));
                continue;
            }
        };
        ndraws += d1.len();
        if d1.len() < 2 || d1.len() != d2.len() {
            rep.violation(&key, "the prover does not draw two fresh blinders per proof", serde_json::json!({"draws": ndraws}));
            continue;
        }
        // injective in the blinders => (A, B) is uniform whatever the witness is
        let differ = or(d1.iter().zip(&d2).map(|(a, b)| nef(*a, *b)).collect());
        let same = and(vec![eqf(p1.a.d, p2.a.d), eqf(p1.b.d, p2.b.d)]);
        rep.must_be_unsat(
            &key,
            &and(vec![nef(dg1, SymF::zero()), nef(dg2, SymF::zero()), same, differ]),
            "two different blinder choices give the same (A, B): the proof is not uniformly blinded",
            &mut |m| {
                let r = replay_bound(m, &mut run);
                match r.out {
                    Out::Done((p1, p2, d1, d2, _, _)) => Some(
                        p1.a.d.as_const() == p2.a.d.as_const()
                            && p1.b.d.as_const() == p2.b.d.as_const()
                            && d1.iter().zip(&d2).any(|(a, b)| a.as_const() != b.as_const()),
                    ),
                    _ => None,
                }
            },
        );
    }
}
