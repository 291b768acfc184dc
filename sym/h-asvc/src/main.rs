use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use symeng::*;
use zkp_asvc::*;

fn omega(n: usize) -> SymF {
    GeneralEvaluationDomain::<SymF>::new(n).unwrap().element(1)
}
fn vals(n: usize) -> Vec<SymF> {
    (0..n).map(|i| SymF::var(&format!("v{}", i))).collect()
}
fn subsets(n: usize) -> Vec<Vec<u32>> {
    (1u32..(1 << n)).map(|m| (0..n as u32).filter(|i| m >> i & 1 == 1).collect()).collect()
}
fn setup(n: usize) -> Parameters<SymE> {
    draws("crs");
    let p = key_gen::<SymE, _>(n, &mut SymRng).unwrap();
    draws("rnd");
    p
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut rep = Report::new(&id);
    rep.fix_order = vec![vec!["crs"]];
    rep.bound("group elements as discrete logs over the BLS12-381 scalar field");
    match id.as_str() {
        "A01" => a01(&mut rep),
        "A02" => a02(&mut rep),
        "A03" => a03(&mut rep),
        _ => panic!("unknown property"),
    }
    rep.finish()
}

fn a01(rep: &mut Report) {
    for f in ["key_gen", "commit", "prove_pos", "verify_pos", "aggregate_proofs", "verify_upk"] {
        rep.function(f);
    }
    // (domain request, vector length)
    let mut sizes = vec![(2usize, 2usize), (4, 4), (4, 3), (3, 3), (4, 1), (8, 8), (8, 5)];
    if rep.thorough {
        sizes.extend([(8, 7), (16, 16), (16, 9)]);
    }
    for (dn, len) in sizes {
        let n = dn.next_power_of_two();
        rep.bound(&format!("vectors of {} values in a key for {}", len, dn));
        let mut sets = subsets(n.min(4));
        if n > 4 {
            sets = vec![vec![0], vec![n as u32 - 1], vec![5, 2], vec![1, 4, 6], vec![7, 0, 3, 5], (0..n as u32).collect(), (1..n as u32).collect()];
        }
        // sets listed in another order as well
        sets.push((0..n as u32).rev().collect());
        for pts in sets {
            let pad = move |k: u32| if (k as usize) < len { SymF::var(&format!("v{}", k)) } else { SymF::zero() };
            let key = format!("A01/n{}_len{}_set{:?}", dn, len, pts).replace(' ', "");
            rep.must_accept(&key, "an honest opening is rejected", &mut || {
                let p = setup(dn);
                let c = commit(&p.proving_key, vals(len)).unwrap();
                let pf = prove_pos(&p.proving_key, vals(len), pts.clone()).unwrap();
                let claimed: Vec<SymF> = pts.iter().map(|k| pad(*k)).collect();
                verify_pos(&p.verification_key, &c, claimed, pts.clone(), &pf, omega(n)).unwrap()
            });
            if pts.len() > 1 || n == 2 {
                rep.must_accept(&format!("{}/aggregated", key), "an opening aggregated from single proofs is rejected", &mut || {
                    let p = setup(dn);
                    let c = commit(&p.proving_key, vals(len)).unwrap();
                    let pfs = pts.iter().map(|k| prove_pos(&p.proving_key, vals(len), vec![*k]).unwrap()).collect();
                    let pf = aggregate_proofs(pts.clone(), pfs, omega(n)).unwrap();
                    let claimed: Vec<SymF> = pts.iter().map(|k| pad(*k)).collect();
                    verify_pos(&p.verification_key, &c, claimed, pts.clone(), &pf, omega(n)).unwrap()
                });
            }
        }
        for k in 0..n {
            rep.must_accept(&format!("A01/upk_n{}_{}", dn, k), "a generated update key is rejected", &mut || {
                let p = setup(dn);
                verify_upk(&p.verification_key, k as u32, &p.proving_key.update_keys[k], omega(n)).unwrap()
            });
        }
    }
    // degenerate vectors: zeros, constants, a single nonzero entry, interpolants of low degree
    for (name, v) in [
        ("zero", vec![0i64, 0, 0, 0]),
        ("const", vec![9, 9, 9, 9]),
        ("unit0", vec![1, 0, 0, 0]),
        ("unit3", vec![0, 0, 0, 5]),
    ] {
        for pts in subsets(4) {
            let key = format!("A01/{}_set{:?}", name, pts).replace(' ', "");
            let v: Vec<SymF> = v.iter().map(|x| SymF::int(*x)).collect();
            rep.must_accept(&key, "an honest opening of a degenerate vector is rejected", &mut || {
                let p = setup(4);
                let c = commit(&p.proving_key, v.clone()).unwrap();
                let pf = prove_pos(&p.proving_key, v.clone(), pts.clone()).unwrap();
                let claimed: Vec<SymF> = pts.iter().map(|k| v[*k as usize]).collect();
                verify_pos(&p.verification_key, &c, claimed, pts.clone(), &pf, omega(4)).unwrap()
            });
        }
    }
}

fn a02(rep: &mut Report) {
    for f in ["update_commit", "update_proof", "commit", "prove_pos", "key_gen"] {
        rep.function(f);
    }
    let mut sizes = vec![2usize, 4];
    sizes.push(8);
    if rep.thorough {
        sizes.push(16);
    }
    for n in sizes {
        rep.bound(&format!("vectors of {} values, all ordered pairs of positions", n));
        for i in 0..n {
            if n > 8 && i % 5 != 0 {
                continue;
            }
            let d = SymF::var("delta");
            let changed = move || {
                let mut w = vals(n);
                w[i] = w[i] + d;
                w
            };
            rep.must_hold(&format!("A02/commit_n{}_i{}", n, i), "the updated commitment is not the commitment of the changed vector", &mut || {
                let p = setup(n);
                let c = commit(&p.proving_key, vals(n)).unwrap();
                let u = update_commit(&c, d, i as u32, &p.proving_key.update_keys[i], omega(n), n).unwrap();
                let c2 = commit(&p.proving_key, changed()).unwrap();
                vec![(u.commit.d, c2.commit.d)]
            });
            for j in 0..n {
                // the proof of position j after position i ... both argument orders of the
                // interface name the changed position and the proof's position
                rep.must_hold(&format!("A02/proof_n{}_{}_{}", n, i, j), "the updated proof is not the proof of the changed vector", &mut || {
                    let p = setup(n);
                    let pf = prove_pos(&p.proving_key, vals(n), vec![i as u32]).unwrap();
                    let uk = &p.proving_key.update_keys;
                    // proof for position i, entry j changed
                    let mut w = vals(n);
                    w[j] = w[j] + d;
                    let u = update_proof(&pf, d, i as u32, j as u32, &uk[i], &uk[j], omega(n), n).unwrap();
                    let p2 = prove_pos(&p.proving_key, w, vec![i as u32]).unwrap();
                    vec![(u.w.d, p2.w.d)]
                });
            }
        }
    }
    // histories: several updates in a row, every sequence of three over four positions
    let n = 4usize;
    let steps = if rep.thorough { 4usize } else { 3 };
    rep.bound(&format!("all sequences of {} updates over {} positions, proof of position 1", steps, n));
    for s in 0..n.pow(steps as u32) {
        let seq: Vec<usize> = (0..steps).map(|k| s / n.pow(k as u32) % n).collect();
        rep.must_hold(&format!("A02/seq{:?}", seq).replace(' ', ""), "after a sequence of updates commitment or proof differ from recomputation", &mut || {
            let p = setup(n);
            let uk = &p.proving_key.update_keys;
            let mut w = vals(n);
            let mut c = commit(&p.proving_key, w.clone()).unwrap();
            let mut pf = prove_pos(&p.proving_key, w.clone(), vec![1]).unwrap();
            for (k, j) in seq.iter().enumerate() {
                let d = SymF::var(&format!("delta{}", k));
                w[*j] = w[*j] + d;
                c = update_commit(&c, d, *j as u32, &uk[*j], omega(n), n).unwrap();
                pf = update_proof(&pf, d, 1, *j as u32, &uk[1], &uk[*j], omega(n), n).unwrap();
            }
            let c2 = commit(&p.proving_key, w.clone()).unwrap();
            let p2 = prove_pos(&p.proving_key, w, vec![1]).unwrap();
            vec![(c.commit.d, c2.commit.d), (pf.w.d, p2.w.d)]
        });
    }
}

fn sym_vk(n: usize) -> VerificationKey<SymE> {
    VerificationKey {
        powers_of_g1: (0..=n).map(|i| G1A::of(SymF::var(&format!("vp{}", i)))).collect(),
        powers_of_g2: (0..=n).map(|i| G2A::of(SymF::var(&format!("vq{}", i)))).collect(),
        a: G1A::of(SymF::var("va")),
    }
}

/// coefficients of prod (x - r)
fn prod_poly(rs: &[SymF]) -> Vec<SymF> {
    let mut p = vec![SymF::one()];
    for r in rs {
        let mut q = vec![SymF::zero(); p.len() + 1];
        for (i, c) in p.iter().enumerate() {
            q[i + 1] = q[i + 1] + *c;
            q[i] = q[i] - *c * *r;
        }
        p = q;
    }
    p
}

fn a03(rep: &mut Report) {
    rep.function("verify_pos");
    rep.function("verify_upk");
    rep.bound("paths with at most 3 (2 for sets of three or more positions; thorough: 4) coincidences: comparisons of symbolic values that turn out equal");
    for n in [2usize, 4, 8] {
        let sets = if n == 8 { vec![vec![0u32], vec![7, 3], vec![5, 1, 2]] } else { subsets(n) };
        let w = omega(n);
        rep.bound(&format!("keys for {} positions with arbitrary elements; sets of positions as listed; up to one more or fewer claimed values", n));
        for pts in sets {
            rep.flips = if rep.thorough && n < 8 { 4 } else if n < 8 && pts.len() < 3 { 3 } else { 2 };
            for nv in [pts.len() as i64, pts.len() as i64 - 1, pts.len() as i64 + 1] {
                let key = format!("A03/n{}_set{:?}_values{}", n, pts, nv).replace(' ', "");
                rep.verifier_equiv(&key, 4096, true, &mut |slot| {
                    let vk = sym_vk(n);
                    let c = SymF::var("c");
                    let pw = SymF::var("pw");
                    let ys: Vec<SymF> = (0..nv).map(|i| SymF::var(&format!("y{}", i))).collect();
                    *slot = Some(if nv as usize != pts.len() {
                        Fm::False
                    } else {
                        let rs: Vec<SymF> = pts.iter().map(|k| w.pow([*k as u64])).collect();
                        let a = prod_poly(&rs);
                        let mut r = vec![SymF::zero(); rs.len()];
                        for (k, x) in rs.iter().enumerate() {
                            let others: Vec<SymF> = rs.iter().enumerate().filter(|(m, _)| *m != k).map(|(_, v)| *v).collect();
                            let num = prod_poly(&others);
                            let den = others.iter().fold(SymF::one(), |s, o| s * (*x - *o));
                            for (m, co) in num.iter().enumerate() {
                                r[m] = r[m] + *co * ys[k] * den.inverse().unwrap();
                            }
                        }
                        let rv = r.iter().enumerate().fold(SymF::zero(), |s, (m, co)| s + *co * vk.powers_of_g1[m].d);
                        let av = a.iter().enumerate().fold(SymF::zero(), |s, (m, co)| s + *co * vk.powers_of_g2[m].d);
                        eqf((c - rv) * vk.powers_of_g2[0].d, pw * av)
                    });
                    let pf = Proof::<SymE> { w: G1A::of(pw) };
                    matches!(verify_pos(&vk, &Commitment { commit: G1A::of(c) }, ys, pts.clone(), &pf, w), Ok(true))
                });
            }
        }
        for i in 0..n {
            rep.verifier_equiv(&format!("A03/upk_n{}_{}", n, i), 32, true, &mut |slot| {
                let vk = sym_vk(n);
                let (ai, ui) = (SymF::var("ai"), SymF::var("ui"));
                let wi = w.pow([i as u64]);
                let t = vk.powers_of_g2[1].d - wi * vk.powers_of_g2[0].d;
                let ni = SymF::int(n as i64).inverse().unwrap();
                *slot = Some(and(vec![
                    eqf(ai * t, vk.a.d * vk.powers_of_g2[0].d),
                    eqf((ai * wi * ni - vk.powers_of_g1[0].d) * vk.powers_of_g2[0].d, ui * t),
                ]));
                let u = UpdateKey::<SymE> { ai: G1A::of(ai), ui: G1A::of(ui) };
                matches!(verify_upk(&vk, i as u32, &u, w), Ok(true))
            });
        }
    }
}
