use ark_ff::{Field, One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use symcirc::*;
use symeng::*;
use zkp_marlin::pc::{self, Comm, Commitment, LabeledCommitment, LabeledPolynomial, PC};
use zkp_marlin::*;

type Pc = PC<SymE>;

fn v(n: &str) -> SymF {
    SymF::var(n)
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut rep = Report::new(&id);
    rep.fix_order = vec![vec!["ch", "crs"], vec!["ch", "crs", "rnd"], vec!["ch", "crs", "rnd", "a", "b", "c"], vec!["ch", "crs", "rnd", "a", "b", "c", "x"]];
    match id.as_str() {
        "K01" => k01(&mut rep),
        "K02" => k02(&mut rep),
        "M01" => m01(&mut rep),
        "M02" => m02(&mut rep),
        "M03" => m03(&mut rep),
        _ => panic!("unknown property"),
    }
    rep.finish()
}

/// coefficients: length, which are symbolic (the others 0)
#[derive(Clone)]
struct Pl {
    c: Vec<bool>,
    bound: Option<usize>,
    hide: Option<usize>,
}

fn poly(i: usize, p: &Pl) -> LabeledPolynomial<'static, SymF> {
    let co: Vec<SymF> = p.c.iter().enumerate().map(|(j, s)| if *s { v(&format!("p{}_{}", i, j)) } else { SymF::zero() }).collect();
    LabeledPolynomial::new_owned(format!("f{}", i), DensePolynomial::from_coefficients_vec(co), p.bound, p.hide)
}

fn ev(p: &LabeledPolynomial<'_, SymF>, x: SymF) -> SymF {
    p.polynomial().coeffs.iter().rev().fold(SymF::zero(), |a, c| a * x + *c)
}

fn poly_sets(th: bool, deg: usize) -> Vec<(String, Vec<Pl>)> {
    let full = |n: usize| vec![true; n + 1];
    let pl = |c: Vec<bool>, bound: Option<usize>, hide: Option<usize>| Pl { c, bound, hide };
    let mut r = vec![
        ("plain".to_string(), vec![pl(full(deg), None, None)]),
        ("hiding".into(), vec![pl(full(deg), None, Some(1))]),
        ("hiding2".into(), vec![pl(full(2), None, Some(2)), pl(full(1), None, Some(1))]),
        ("bound".into(), vec![pl(full(deg - 1), Some(deg - 1), None)]),
        ("bound_tight".into(), vec![pl(full(deg), Some(deg), Some(1))]),
        ("bound_loose".into(), vec![pl(full(1), Some(deg - 1), Some(1))]),
        ("mixed".into(), vec![pl(full(2), None, None), pl(full(1), Some(2), Some(1)), pl(full(deg), None, Some(1)), pl(full(2), Some(2), None)]),
        ("leading_zeros".into(), vec![pl(vec![false, false, true, true], None, Some(1)), pl(vec![false, true, false, true], Some(deg), None)]),
        ("constant".into(), vec![pl(full(0), None, None), pl(full(0), Some(1), Some(1)), pl(full(1), None, None)]),
        ("zero".into(), vec![pl(vec![], None, None), pl(full(1), None, Some(1))]),
        ("zero_bound".into(), vec![pl(vec![], Some(2), Some(1)), pl(full(1), None, None)]),
        ("bound_zero".into(), vec![pl(full(0), Some(0), Some(1))]),
    ];
    let mut h = 41u64;
    let mut nx = |m: u64| {
        h ^= h << 13;
        h ^= h >> 7;
        h ^= h << 17;
        (h >> 11) % m
    };
    for k in 0..(if th { 40 } else { 8 }) {
        let n = 1 + nx(5) as usize;
        let mut s = vec![];
        for _ in 0..n {
            let d = nx(deg as u64 + 1) as usize;
            let mut c: Vec<bool> = (0..=d).map(|_| nx(4) != 0).collect();
            c[d] = true;
            let bound = if nx(2) == 0 { Some(d + nx((deg - d) as u64 + 1) as usize) } else { None };
            let hide = match nx(3) {
                0 => None,
                // (the code refuses a hiding bound above the degree bound + 1)
                1 if bound != Some(0) => Some(2),
                _ => Some(1),
            };
            s.push(pl(c, bound, hide));
        }
        r.push((format!("gen{}", k), s));
    }
    r
}

fn k01(rep: &mut Report) {
    for f in ["KZG10::setup", "KZG10::trim", "KZG10::commit", "KZG10::open", "KZG10::check", "PC::commit", "PC::open", "PC::check", "PC::batch_open", "PC::batch_check", "CommitterKey::shifted_powers"] {
        rep.function(f);
    }
    let degs: Vec<(usize, usize)> = if rep.thorough { vec![(8, 4), (3, 3), (16, 11)] } else { vec![(6, 4), (3, 3)] };
    for (max, deg) in degs {
        rep.bound(&format!("setup degree {}, supported degree {}", max, deg));
        for (name, set) in poly_sets(rep.thorough, deg) {
            rep.bound(&format!("polynomial set {}: {}", name, set.iter().map(|p| format!("len {} bound {:?} hiding {:?}", p.c.len(), p.bound, p.hide)).collect::<Vec<_>>().join("; ")));
            if set.iter().any(|p| p.c.len() > deg + 1 || p.bound.map(|b| b > deg).unwrap_or(false)) {
                continue;
            }
            rep.must_accept(&format!("K01/{}_{}/{}", max, deg, name), "an honest opening is rejected", &mut || {
                let ps: Vec<_> = set.iter().enumerate().map(|(i, p)| poly(i, p)).collect();
                draws("crs");
                let pp = Pc::setup(max, &mut SymRng).unwrap();
                let (ck, vk) = Pc::trim(&pp, deg).unwrap();
                draws("rnd");
                let (comms, rands) = Pc::commit(&ck, &ps, Some(&mut SymRng)).unwrap();
                let (x, oc) = (v("point"), v("chop"));
                let proof = Pc::open(&ck, &ps, x, oc, &rands).unwrap();
                let vals: Vec<SymF> = ps.iter().map(|p| ev(p, x)).collect();
                Pc::check(&vk, &comms, x, vals, &proof, oc).unwrap()
            });
            // several points, in both orders of the points
            for flip in [false, true] {
                rep.must_accept(&format!("K01/{}_{}/batch/{}/{}", max, deg, name, flip), "an honest batched opening is rejected", &mut || {
                    order(flip);
                    let ps: Vec<_> = set.iter().enumerate().map(|(i, p)| poly(i, p)).collect();
                    draws("crs");
                    let pp = Pc::setup(max, &mut SymRng).unwrap();
                    let (ck, vk) = Pc::trim(&pp, deg).unwrap();
                    draws("rnd");
                    let (comms, rands) = Pc::commit(&ck, &ps, Some(&mut SymRng)).unwrap();
                    let oc = v("chop");
                    let (mut q, mut e) = (pc::QuerySet::new(), pc::Evaluations::new());
                    for (i, p) in ps.iter().enumerate() {
                        for k in 0..3 {
                            if k == 0 || (i + k) % 2 == 0 {
                                let x = v(&format!("pt{}", k));
                                q.insert((p.label().clone(), x));
                                e.insert((p.label().clone(), x), ev(p, x));
                            }
                        }
                    }
                    let pr = Pc::batch_open(&ck, &ps, &q, oc, &rands).unwrap();
                    Pc::batch_check(&vk, &comms, &q, &e, &pr, oc).unwrap()
                });
            }
            order(false);
        }
    }
}

fn order(flip: bool) {
    symeng::st().order_flip = flip;
}

fn g(n: &str) -> G1A {
    G1A::of(v(n))
}

fn sym_pcvk(deg: usize) -> pc::VerifierKey<SymE> {
    pc::VerifierKey { g: g("vg"), gamma_g: g("vgg"), h: G2A::of(v("vh")), beta_h: G2A::of(v("vbh")), supported_degree: deg }
}

/// the opening equation of labelled commitments (comm, shifted comm and bound,
/// value) at a point
fn open_eq(deg: usize, cs: &[(SymF, Option<(SymF, usize)>, SymF)], x: SymF, oc: SymF, w: SymF, rv: Option<SymF>) -> Fm {
    let mut acc = SymF::zero();
    for (i, (c, s, val)) in cs.iter().enumerate() {
        let ch = oc.pow([2 * i as u64]);
        acc += ch * (*c - v("vg") * val);
        if let Some((sc, b)) = s {
            acc += ch * oc * (*sc - v("vg") * x.pow([(deg - b) as u64]) * val);
        }
    }
    if let Some(r) = rv {
        acc -= v("vgg") * r;
    }
    eqf(acc * v("vh"), w * (v("vbh") - v("vh") * x))
}

fn k02(rep: &mut Report) {
    for f in ["KZG10::check", "PC::check", "PC::accumulate_commitments_and_values", "PC::batch_check"] {
        rep.function(f);
    }
    let deg = 5;
    let max = if rep.thorough { 6 } else { 4 };
    rep.bound(&format!("0..{} commitments with every pattern of degree bounds, arbitrary commitments, values, point, challenge, proof and key", max));
    for n in 0..=max {
        for pat in 0..(1u32 << n) {
            if pat.count_ones() > 2 && n > 3 && !rep.thorough {
                continue;
            }
            for rv in [false, true] {
                rep.verifier_equiv(&format!("K02/check/n{}_b{:b}_rv{}", n, pat, rv), 200, true, &mut |slot| {
                    let vk = sym_pcvk(deg);
                    let (x, oc) = (v("point"), v("oc"));
                    let mut cs = vec![];
                    let mut lc = vec![];
                    for i in 0..n {
                        let s = if pat >> i & 1 == 1 { Some((v(&format!("S{}", i)), (i * 2) % (deg + 1))) } else { None };
                        let c = v(&format!("C{}", i));
                        cs.push((c, s, v(&format!("e{}", i))));
                        lc.push(LabeledCommitment::new(
                            format!("f{}", i),
                            Commitment { comm: Comm(G1A::of(c)), shifted_comm: s.map(|t| Comm(G1A::of(t.0))) },
                            s.map(|t| t.1),
                        ));
                    }
                    let rvv = if rv { Some(v("rv")) } else { None };
                    *slot = Some(open_eq(deg, &cs, x, oc, v("W"), rvv));
                    let pf = pc::Proof { w: g("W"), rand_v: rvv };
                    let vals: Vec<SymF> = cs.iter().map(|c| c.2).collect();
                    Pc::check(&vk, &lc, x, vals, &pf, oc).unwrap_or(false)
                });
            }
        }
    }
    // several points
    for flip in [false, true] {
        for (np, n) in [(1usize, 1usize), (2, 2), (2, 3), (3, 3)] {
            for npf in np.saturating_sub(1)..=np + 1 {
                rep.verifier_equiv(&format!("K02/batch/p{}_n{}_proofs{}_{}", np, n, npf, flip), 2000, npf == np, &mut |slot| {
                    order(flip);
                    let vk = sym_pcvk(deg);
                    let oc = v("oc");
                    let mut lc = vec![];
                    let (mut q, mut e) = (pc::QuerySet::new(), pc::Evaluations::new());
                    let pts: Vec<SymF> = (0..np).map(|k| v(&format!("pt{}", k))).collect();
                    let mut groups: Vec<Vec<(SymF, Option<(SymF, usize)>, SymF)>> = vec![vec![]; np];
                    for i in 0..n {
                        let s = if i == 1 { Some((v(&format!("S{}", i)), 3)) } else { None };
                        let c = v(&format!("C{}", i));
                        lc.push(LabeledCommitment::new(
                            format!("f{}", i),
                            Commitment { comm: Comm(G1A::of(c)), shifted_comm: s.map(|t| Comm(G1A::of(t.0))) },
                            s.map(|t| t.1),
                        ));
                        for k in 0..np {
                            if k == i % np || (i + k) % 2 == 0 {
                                let val = v(&format!("e{}_{}", i, k));
                                q.insert((format!("f{}", i), pts[k]));
                                e.insert((format!("f{}", i), pts[k]), val);
                                groups[k].push((c, s, val));
                            }
                        }
                    }
                    let pfs: Vec<_> = (0..npf).map(|k| pc::Proof { w: g(&format!("W{}", k)), rand_v: if k == 1 { Some(v("rv")) } else { None } }).collect();
                    let mut ord: Vec<usize> = (0..np).filter(|k| !groups[*k].is_empty()).collect();
                    ord.sort_by(|a, b| pts[*a].cmp(&pts[*b]));
                    *slot = Some(if ord.len() != npf {
                        Fm::False
                    } else {
                        and(ord
                            .iter()
                            .enumerate()
                            .map(|(j, k)| open_eq(deg, &groups[*k], pts[*k], oc, v(&format!("W{}", j)), if j == 1 { Some(v("rv")) } else { None }))
                            .collect())
                    });
                    Pc::batch_check(&vk, &lc, &q, &e, &pfs, oc).unwrap_or(false)
                });
            }
        }
    }
    order(false);
    // a commitment whose shifted part is missing (or superfluous) is not accepted
    for sup in [false, true] {
        rep.verifier_equiv(&format!("K02/shifted_mismatch_{}", sup), 50, false, &mut |slot| {
            let vk = sym_pcvk(deg);
            *slot = Some(Fm::False);
            let lc = vec![LabeledCommitment::new(
                "f".into(),
                Commitment { comm: Comm(g("C0")), shifted_comm: if sup { Some(Comm(g("S0"))) } else { None } },
                if sup { None } else { Some(2) },
            )];
            Pc::check(&vk, &lc, v("point"), vec![v("e0")], &pc::Proof { w: g("W"), rand_v: None }, v("oc")).unwrap_or(false)
        });
    }
    // an honest opening with one value changed
    for (name, set) in poly_sets(false, 4).into_iter().take(8) {
        for k in 0..set.len() {
            rep.verifier_equiv(&format!("K02/wrong_value/{}_{}", name, k), 50, false, &mut |slot| {
                let d = v("delta");
                let out = generic(|| {
                    let ps: Vec<_> = set.iter().enumerate().map(|(i, p)| poly(i, p)).collect();
                    draws("crs");
                    let pp = Pc::setup(6, &mut SymRng).unwrap();
                    let (ck, vk) = Pc::trim(&pp, 4).unwrap();
                    draws("rnd");
                    let (comms, rands) = Pc::commit(&ck, &ps, Some(&mut SymRng)).unwrap();
                    let (x, oc) = (v("point"), v("oc"));
                    let proof = Pc::open(&ck, &ps, x, oc, &rands).unwrap();
                    let mut vals: Vec<SymF> = ps.iter().map(|p| ev(p, x)).collect();
                    vals[k] += d;
                    (vk, comms, vals, proof, x, oc)
                });
                let (vk, comms, vals, proof, x, oc) = out;
                let ch = oc.pow([2 * k as u64]);
                let f = match set[k].bound {
                    Some(b) => ch * (SymF::one() + oc * x.pow([4 - b as u64])),
                    None => ch,
                };
                // accepted only if the value is right, or the (random) key or
                // challenge is exceptional
                *slot = Some(or(vec![eqf(d, SymF::zero()), eqf(vk.g.d * vk.h.d, SymF::zero()), eqf(f, SymF::zero())]));
                Pc::check(&vk, &comms, x, vals, &proof, oc).unwrap_or(false)
            });
        }
    }
}

fn circuits(th: bool) -> Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> {
    let mut r: Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> = vec![];
    r.push(("dense(1,1,1)".into(), Box::new(|| dense::<SymF>(1, 1, 1))));
    if th {
        r.push(("dense(1,2,2)".into(), Box::new(|| dense::<SymF>(1, 2, 2))));
        r.push(("dense(2,2,1)".into(), Box::new(|| dense::<SymF>(2, 2, 1))));
    }
    let sp: Vec<(usize, usize, usize, u64)> = if th {
        vec![(1, 2, 3, 1), (1, 3, 5, 2), (3, 1, 2, 3), (2, 1, 2, 4), (2, 2, 3, 5), (0, 3, 4, 6), (2, 6, 5, 7), (5, 3, 7, 8), (1, 14, 16, 9), (4, 4, 9, 10)]
    } else {
        vec![(1, 2, 3, 1), (1, 3, 5, 2), (3, 1, 2, 3), (2, 1, 2, 4), (2, 2, 3, 5), (0, 3, 4, 6)]
    };
    for (i, a, c, s) in sp {
        r.push((format!("sparse(inputs={},aux={},rows={},salt={})", i, a, c, s), Box::new(move || sparse::<SymF>(i, a, c, s))));
    }
    r.push(("repeated".into(), Box::new(|| repeated::<SymF>())));
    type T = Vec<(usize, i64)>;
    let mk = |ni: usize, na: usize, rows: Vec<[T; 3]>, z: Vec<SymF>| -> Circ<SymF> {
        Circ {
            ni,
            na,
            rows: rows.into_iter().map(|r| r.map(|t| t.into_iter().map(|(j, c)| (j, SymF::int(c))).collect())).collect(),
            z,
            aux_first: false,
        }
    };
    // x * y = z, nothing else
    r.push((
        "product".into(),
        Box::new(move || mk(1, 2, vec![[vec![(2, 1)], vec![(3, 1)], vec![(1, 1)]]], vec![SymF::one(), v("w0") * v("w1"), v("w0"), v("w1")])),
    ));
    // the third matrix is zero: a bit
    r.push(("bit".into(), Box::new(move || mk(0, 1, vec![[vec![(1, 1)], vec![(0, 1), (1, -1)], vec![]]], vec![SymF::one(), SymF::one()]))));
    r.push((
        "bits".into(),
        Box::new(move || {
            mk(
                1,
                2,
                vec![
                    [vec![(2, 1)], vec![(0, 1), (2, -1)], vec![]],
                    [vec![(3, 1)], vec![(0, 1), (3, -1)], vec![]],
                    [vec![(2, 1), (3, 2), (1, -1)], vec![(0, 1)], vec![]],
                ],
                vec![SymF::one(), SymF::int(2), SymF::zero(), SymF::one()],
            )
        }),
    ));
    // the first matrix much denser than the second
    r.push((
        "a_denser".into(),
        Box::new(move || {
            let (a, b, c) = (v("w0"), v("w1"), v("w2"));
            let s = a + b + c + v("x0");
            mk(
                1,
                4,
                vec![
                    [vec![(1, 1), (2, 1), (3, 1), (4, 1)], vec![(0, 1)], vec![(5, 1)]],
                    [vec![(1, 1), (2, 1), (3, 1), (4, 1), (5, -1)], vec![(2, 1)], vec![]],
                    [vec![(1, 2), (2, 2), (3, 2), (4, 2), (5, -2)], vec![(3, 1), (2, 1)], vec![]],
                ],
                vec![SymF::one(), v("x0"), a, b, c, s],
            )
        }),
    ));
    // no auxiliary variables
    r.push(("inputs_only".into(), Box::new(move || mk(3, 0, vec![[vec![(1, 1)], vec![(2, 1)], vec![(3, 1)]]], vec![SymF::one(), v("x0"), v("x1"), v("x0") * v("x1")]))));
    r
}

fn m01(rep: &mut Report) {
    for f in ["universal_setup", "index", "create_random_proof", "verify_proof", "AHP prover rounds", "IndexerConstraintSystem", "ProverConstraintSystem", "compose_matrix_polynomials", "PC::*"] {
        rep.function(f);
    }
    for (name, mk) in circuits(rep.thorough) {
        rep.bound(&name);
        rep.must_accept(&format!("M01/{}", name), "an honest Marlin proof is rejected", &mut || {
            clear_oracle();
            draws("crs");
            let srs = universal_setup::<SymE, _>(if rep_big(&name) { 128 } else { 64 }, &mut SymRng).unwrap();
            let (ipk, ivk) = index(&srs, mk()).map_err(|_| "index").unwrap();
            draws("rnd");
            let proof = create_random_proof(&ipk, mk(), &mut SymRng).unwrap();
            draws("ch");
            verify_proof(&ivk, &proof, &mk().inputs()).unwrap()
        });
    }
}

fn rep_big(n: &str) -> bool {
    n.contains("aux=14") || n.contains("rows=9")
}

/// evaluations in the order of the protocol's query set
const EV: [&str; 21] = [
    "a_col", "a_row", "a_row_col", "a_val", "b_col", "b_row", "b_row_col", "b_val", "c_col", "c_row", "c_row_col", "c_val", "g_1", "g_2", "h_1", "h_2", "mask",
    "t", "w", "z_a", "z_b",
];
const IDX: [&str; 12] = ["a_row", "a_col", "a_val", "a_row_col", "b_row", "b_col", "b_val", "b_row_col", "c_row", "c_col", "c_val", "c_row_col"];
const MSG: [&str; 9] = ["w", "z_a", "z_b", "mask", "t", "g_1", "h_1", "g_2", "h_2"];

fn sym_ivk(h: usize, k: usize, s: &dyn Fn(&str) -> Option<SymF>) -> IndexVerifierKey<SymE> {
    let q = |n: &str| G1A::of(s(n).unwrap_or_else(|| v(n)));
    let (_, mut ivk) = generic(|| {
        draws("tmp");
        let srs = universal_setup::<SymE, _>(64, &mut SymRng).unwrap();
        let srs: &'static _ = Box::leak(Box::new(srs));
        index(srs, sparse::<SymF>(1, 2, 3, 1)).map_err(|_| "index").unwrap()
    });
    ivk.index_info.num_constraints = h;
    ivk.index_info.num_variables = h;
    ivk.index_info.num_non_zeros = k;
    ivk.index_comms = IDX.iter().map(|l| Commitment { comm: Comm(q(&format!("C_{}", l))), shifted_comm: None }).collect();
    ivk.verifier_key = pc::VerifierKey {
        g: q("vg"),
        gamma_g: q("vgg"),
        h: G2A::of(s("vh").unwrap_or_else(|| v("vh"))),
        beta_h: G2A::of(s("vbh").unwrap_or_else(|| v("vbh"))),
        supported_degree: 64,
    };
    // forget the draws made for the template
    let mut st = symeng::st();
    st.chal.clear();
    st.chal_log.clear();
    st.n_ch = 0;
    drop(st);
    clear_oracle();
    draws("ch");
    ivk
}

fn sym_proof(shape: &[usize], nev: usize, npf: usize, shifted: &dyn Fn(&str) -> bool, s: &dyn Fn(&str) -> Option<SymF>) -> Proof<SymE> {
    let q = |n: &str| s(n).unwrap_or_else(|| v(n));
    let mut k = 0;
    let mut commitments = vec![];
    for n in shape {
        let mut row = vec![];
        for _ in 0..*n {
            let l = MSG.get(k).map(|s| s.to_string()).unwrap_or(format!("extra{}", k));
            row.push(Commitment {
                comm: Comm(G1A::of(q(&format!("C_{}", l)))),
                shifted_comm: if shifted(&l) { Some(Comm(G1A::of(q(&format!("S_{}", l))))) } else { None },
            });
            k += 1;
        }
        commitments.push(row);
    }
    Proof {
        commitments,
        evaluations: (0..nev).map(|i| q(&format!("e_{}", EV.get(i).map(|s| s.to_string()).unwrap_or(format!("extra{}", i))))).collect(),
        opening_proofs: (0..npf).map(|i| pc::Proof { w: G1A::of(q(&format!("W{}", i))), rand_v: if i % 2 == 0 { Some(q(&format!("rv{}", i))) } else { None } }).collect(),
    }
}

fn std_shift(l: &str) -> bool {
    l == "g_1" || l == "g_2"
}

/// the protocol's acceptance condition with the given challenge draws
fn spec(h: u64, k: u64, pis: &[SymF], ch: [SymF; 7]) -> Fm {
    let [alpha, ea, eb, ec, beta, gamma, oc] = ch;
    let e = |l: &str| v(&format!("e_{}", l));
    let one = SymF::one();
    let van = |n: u64, x: SymF| x.pow([n]) - one;
    let mut r_ab = SymF::zero();
    for i in 0..h {
        r_ab += alpha.pow([i]) * beta.pow([h - 1 - i]);
    }
    let mut zin = vec![one];
    zin.extend_from_slice(pis);
    let n = zin.len().next_power_of_two() as u64;
    let wi = GeneralEvaluationDomain::<SymF>::new(n as usize).unwrap().element(1).inverse().unwrap();
    let ni = SymF::int(n as i64).inv_unchecked();
    let mut x_b = SymF::zero();
    for j in 0..n {
        let mut s = SymF::zero();
        for (i, p) in zin.iter().enumerate() {
            s += *p * wi.pow([i as u64 * j]);
        }
        x_b += s * ni * beta.pow([j]);
    }
    let outer = eqf(
        e("mask") + r_ab * (ea * e("z_a") + eb * e("z_b") + ec * e("z_a") * e("z_b")) - e("t") * (van(n, beta) * e("w") + x_b),
        e("h_1") * van(h, beta) + beta * e("g_1"),
    );
    let den = |m: &str| alpha * beta - alpha * e(&format!("{}_row", m)) - beta * e(&format!("{}_col", m)) + e(&format!("{}_row_col", m));
    let (da, db, dc) = (den("a"), den("b"), den("c"));
    let av = van(h, alpha) * van(h, beta) * (ea * e("a_val") * db * dc + eb * e("b_val") * dc * da + ec * e("c_val") * da * db);
    let ki = SymF::int(k as i64).inv_unchecked();
    let inner = eqf(e("h_2") * van(k, gamma), av - da * db * dc * (gamma * e("g_2") + e("t") * ki));
    let lab_b = ["g_1", "h_1", "mask", "t", "w", "z_a", "z_b"];
    let lab_g = ["a_col", "a_row", "a_row_col", "a_val", "b_col", "b_row", "b_row_col", "b_val", "c_col", "c_row", "c_row_col", "c_val", "g_2", "h_2"];
    let grp = |ls: &[&str]| -> Vec<(SymF, Option<(SymF, usize)>, SymF)> {
        ls.iter()
            .map(|l| {
                let s = match *l {
                    "g_1" => Some((v("S_g_1"), h as usize - 2)),
                    "g_2" => Some((v("S_g_2"), k as usize - 2)),
                    _ => None,
                };
                (v(&format!("C_{}", l)), s, e(l))
            })
            .collect()
    };
    let (pb, pg) = if beta.lt_quiet(&gamma) { (0, 1) } else { (1, 0) };
    let op = |ls: &[&str], x: SymF, j: usize| open_eq(64, &grp(ls), x, oc, v(&format!("W{}", j)), if j == 0 { Some(v("rv0")) } else { None });
    and(vec![outer, inner, op(&lab_b, beta, pb), op(&lab_g, gamma, pg)])
}

fn full_spec(h: u64, k: u64, pis: &[SymF]) -> Fm {
    let c = |i: usize| v(&format!("ch{}", i));
    let inh = |i: usize| eqf(c(i).pow([h]), SymF::one());
    let mut alts = vec![];
    // no redraw, alpha redrawn once, beta redrawn once
    let ix: [([usize; 7], Vec<usize>); 3] = [([0, 1, 2, 3, 4, 5, 6], vec![]), ([1, 2, 3, 4, 5, 6, 7], vec![0]), ([0, 1, 2, 3, 5, 6, 7], vec![4])];
    for (d, red) in ix {
        let mut cs: Vec<Fm> = red.iter().map(|r| inh(*r)).collect();
        cs.push(not(inh(d[0])));
        cs.push(not(inh(d[4])));
        cs.push(spec(h, k, pis, d.map(c)));
        alts.push(and(cs));
    }
    or(alts)
}

fn m02(rep: &mut Report) {
    rep.flips = if rep.thorough { 7 } else { 6 };
    for f in ["verify_proof", "AHP::verifier_first_round", "verifier_second_round", "verifier_third_round", "verifier_query_set", "verifier_equality_check", "polynomial_labels", "PC::batch_check"] {
        rep.function(f);
    }
    rep.bound("at most one redraw of a challenge that falls into the domain; opening points distinct");
    let sizes: Vec<(usize, usize, usize)> = if rep.thorough { vec![(2, 2, 0), (4, 4, 1), (4, 8, 2), (3, 5, 1), (8, 4, 3), (8, 16, 4)] } else { vec![(2, 2, 0), (4, 4, 1), (3, 5, 2)] };
    for (h, k, npi) in sizes {
        for flip in [false, true] {
            if flip && !rep.thorough && h == 3 {
                continue;
            }
            rep.bound(&format!("{} constraints, {} non-zeros, {} public inputs; every commitment, evaluation, proof and key element arbitrary", h, k, npi));
            rep.verifier_equiv(&format!("M02/h{}_k{}_pi{}_{}", h, k, npi, flip), 3000, !flip, &mut |slot| {
                order(flip);
                let ivk = sym_ivk(h, k, &|_| None);
                let pis: Vec<SymF> = (0..npi).map(|i| v(&format!("x{}", i))).collect();
                let (h2, k2) = (h.next_power_of_two(), k.next_power_of_two());
                *slot = Some(generic(|| full_spec(h2 as u64, k2 as u64, &pis)));
                let p = sym_proof(&[4, 3, 2], 21, 2, &std_shift, &|_| None);
                let r = verify_proof(&ivk, &p, &pis).unwrap_or(false);
                r && symeng::st().n_ch <= 8
            });
        }
    }
    order(false);
    rep.bound("proofs with every other distribution of nine commitments over three rounds, with a commitment, round, evaluation, shifted commitment or opening proof more or fewer");
    let mut shapes: Vec<(Vec<usize>, usize, usize)> = vec![
        (vec![4, 3, 2], 20, 2),
        (vec![4, 3, 2], 22, 2),
        (vec![4, 3, 2], 21, 1),
        (vec![4, 3, 2], 21, 3),
        (vec![4, 3, 2], 21, 0),
        (vec![4, 3], 21, 2),
        (vec![4, 3, 2, 1], 21, 2),
        (vec![4, 3, 3], 21, 2),
        (vec![5, 3, 2], 21, 2),
        (vec![4, 4, 2], 21, 2),
        (vec![4, 3, 1], 21, 2),
        (vec![], 21, 2),
    ];
    for a in 0..=9 {
        for b in 0..=9 - a {
            if (a, b) != (4, 3) && (rep.thorough || (a >= 3 && a <= 5)) {
                shapes.push((vec![a, b, 9 - a - b], 21, 2));
            }
        }
    }
    for (sh, nev, npf) in shapes {
        rep.verifier_equiv(&format!("M02/shape{:?}_{}_{}", sh, nev, npf).replace(' ', ""), 3000, false, &mut |slot| {
            let ivk = sym_ivk(4, 4, &|_| None);
            *slot = Some(Fm::False);
            let p = sym_proof(&sh, nev, npf, &std_shift, &|_| None);
            verify_proof(&ivk, &p, &[v("x0")]).unwrap_or(false)
        });
    }
    for l in MSG {
        rep.verifier_equiv(&format!("M02/shifted_{}", l), 3000, false, &mut |slot| {
            let ivk = sym_ivk(4, 4, &|_| None);
            *slot = Some(Fm::False);
            let p = sym_proof(&[4, 3, 2], 21, 2, &|x| std_shift(x) != (x == l), &|_| None);
            verify_proof(&ivk, &p, &[v("x0")]).unwrap_or(false)
        });
    }
}

fn m03(rep: &mut Report) {
    for f in ["verify_proof", "create_random_proof", "FiatShamirRng::from_seed / absorb", "ToBytes for IndexVerifierKey, Commitment, Comm, VerifierKey"] {
        rep.function(f);
    }
    rep.bound("every public input, key element, commitment, shifted commitment and evaluation of a proof for 4 constraints, 3 public inputs");
    let mut comps: Vec<(String, usize)> = (0..3).map(|i| (format!("x{}", i), 0)).collect();
    comps.extend(IDX.iter().map(|l| (format!("C_{}", l), 0)));
    for n in ["vg", "vgg", "vh", "vbh"] {
        comps.push((n.into(), 0));
    }
    for (i, l) in MSG.iter().enumerate() {
        let r = if i < 4 { 0 } else if i < 7 { 4 } else { 5 };
        comps.push((format!("C_{}", l), r));
        if std_shift(l) {
            comps.push((format!("S_{}", l), r));
        }
    }
    comps.extend(EV.iter().map(|l| (format!("e_{}", l), 6)));
    for (name, first) in comps {
        rep.must_bind(&format!("M03/verify/{}", name), first, &mut |x| {
            let s = |n: &str| if n == name { Some(x) } else { None };
            let ivk = sym_ivk(4, 4, &s);
            let pis: Vec<SymF> = (0..3).map(|i| format!("x{}", i)).map(|n| s(&n).unwrap_or_else(|| v(&n))).collect();
            let p = sym_proof(&[4, 3, 2], 21, 2, &std_shift, &s);
            let _ = verify_proof(&ivk, &p, &pis);
        });
    }
    // prover's side
    rep.own_coins = true;
    for i in 0..2 {
        rep.must_bind(&format!("M03/prove/x{}", i), 0, &mut |x| {
            let mut c = sparse::<SymF>(2, 1, 2, 4);
            c.z[1 + i] = x;
            let c = c.satisfy();
            draws("crs");
            let srs = universal_setup::<SymE, _>(64, &mut SymRng).unwrap();
            let (ipk, _) = index(&srs, c.clone()).map_err(|_| "index").unwrap();
            draws("ch");
            let _ = create_random_proof(&ipk, c, &mut SymRng);
        });
    }
}
