use ark_ff::{Field, One, Zero};
use ark_serialize::CanonicalSerialize;
use ark_poly::univariate::DensePolynomial;
use symcirc::*;
use symeng::*;
use zkp_r1cs::Index;
use zkp_spartan::data_structure::*;
use zkp_spartan::polynomial as pl;
use zkp_spartan::r1cs::{generate_r1cs, switch_matrix_to_list, R1CSInstance};
use zkp_spartan::verify::{verify_nizk_proof, verify_snark_proof};
use zkp_spartan::{nizk, snark};

type Mat = Vec<Vec<(SymF, Index)>>;
fn v(n: &str) -> SymF {
    SymF::var(n)
}
fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut rep = Report::new(&id);
    rep.bound("scalar field and group order of BLS12-381; group elements as discrete logarithms");
    match id.as_str() {
        "S01" => s01(&mut rep),
        "S02" => s02(&mut rep),
        "S03" => s03(&mut rep),
        "S04" => s04(&mut rep),
        "S05" => s05(&mut rep),
        _ => panic!("unknown property"),
    }
    rep.finish()
}

/// input `j` has the value zero
fn with_zero_input(mut c: Circ<SymF>, j: usize) -> Circ<SymF> {
    c.z[1 + j] = SymF::zero();
    c.satisfy()
}

fn circuits(rep: &Report, big: bool) -> Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> {
    let th = rep.thorough;
    let mut r: Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> = vec![];
    for (i, a, c) in if !big { vec![(0, 1, 1), (1, 1, 1), (1, 2, 2)] } else { vec![(0, 1, 1), (1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2)] } {
        r.push((format!("dense(inputs={},aux={},rows={})", i, a, c), Box::new(move || dense::<SymF>(i, a, c))));
    }
    let mut l = vec![(2, 3, 3, 1), (1, 4, 2, 2), (3, 2, 5, 3), (2, 0, 2, 4)];
    if big {
        l.extend([(1, 1, 9, 5), (4, 7, 4, 6)]);
    }
    if th {
        l.extend([(2, 9, 7, 3), (5, 17, 16, 8)]);
    }
    for (i, a, c, s) in l {
        r.push((format!("sparse(inputs={},aux={},rows={},salt={})", i, a, c, s), Box::new(move || sparse::<SymF>(i, a, c, s))));
    }
    r.push(("repeated-columns".into(), Box::new(|| repeated::<SymF>())));
    r.push(("one entry per matrix".into(), Box::new(|| Circ { ni: 0, na: 1, rows: vec![[vec![(1, v("k"))], vec![(0, SymF::one())], vec![(1, v("k"))]]], z: vec![SymF::one(), v("w0")], aux_first: false })));
    r.push(("empty matrices".into(), Box::new(|| Circ { ni: 1, na: 1, rows: vec![[vec![], vec![], vec![]], [vec![], vec![], vec![]]], z: vec![SymF::one(), v("x0"), v("w0")], aux_first: false })));
    for j in 0..3 {
        r.push((format!("sparse(3,2,3) with public input {} equal to zero", j), Box::new(move || with_zero_input(sparse::<SymF>(3, 2, 3, 11), j))));
    }
    r
}

fn s01(rep: &mut Report) {
    for f in ["nizk::generate_random_parameters", "nizk::create_random_proof", "r1cs_satisfied_prover", "sum_check_proof_phase_one / two", "inner_product_proof", "bullet_inner_product_proof", "verify_nizk_proof"] {
        rep.function(f);
    }
    rep.fix_order = vec![vec!["gen"], vec!["gen", "rnd"], vec!["gen", "rnd", "ch"]];
    for (name, mk) in circuits(rep, true) {
        rep.bound(&name);
        rep.must_accept(&format!("S01/{}", name), "an honest Spartan NIZK proof is rejected", &mut || {
            clear_oracle();
            draws("gen");
            let (pk, vk) = nizk::generate_random_parameters::<SymE, _, _>(mk(), &mut SymRng).unwrap().keypair();
            draws("rnd");
            let (a, b) = (v("r1cs_hash"), v("params_hash"));
            let p = nizk::create_random_proof::<SymE, _, _>(&pk, mk(), a, b, &mut SymRng).unwrap();
            nizk::verify_proof(&vk, &p, &mk().inputs(), a, b).unwrap()
        });
    }
}

fn s02(rep: &mut Report) {
    for f in ["snark::generate_random_parameters", "spark::encode", "memory_in_the_head", "memory_checking", "snark::create_random_proof", "sparse_poly_eval_proof", "product_layer_prover", "hash_layer_prover", "verify_snark_proof"] {
        rep.function(f);
    }
    rep.fix_order = vec![vec!["gen"], vec!["gen", "rnd"], vec!["gen", "rnd", "ch"]];
    for (name, mk) in circuits(rep, false) {
        rep.bound(&name);
        rep.must_accept(&format!("S02/{}", name), "an honest Spartan SNARK proof is rejected", &mut || {
            clear_oracle();
            draws("gen");
            let (pk, vk) = snark::generate_random_parameters::<SymE, _, _>(mk(), &mut SymRng).unwrap().keypair();
            draws("rnd");
            let (a, b, c) = (v("r1cs_hash"), v("params_hash"), v("encode_hash"));
            let p = snark::create_random_proof::<SymE, _, _>(&pk, mk(), a, b, c, &mut SymRng).unwrap();
            snark::verify_proof(&vk, &p, &mk().inputs(), a, b, c).unwrap()
        });
    }
}

// ------------------------------------------------------------------ helpers
/// eq(r, i) with r[0] the most significant bit of i
fn eqi(r: &[SymF], i: usize) -> SymF {
    let n = r.len();
    let mut p = SymF::one();
    for j in 0..n {
        p *= if (i >> (n - 1 - j)) & 1 == 1 { r[j] } else { SymF::one() - r[j] };
    }
    p
}
fn mle(vals: &[SymF], r: &[SymF]) -> SymF {
    let mut s = SymF::zero();
    for (i, x) in vals.iter().enumerate() {
        s += *x * eqi(r, i);
    }
    s
}
fn scs(pre: &str, n: usize, s: &dyn Fn(&str) -> SymF) -> Vec<SymF> {
    (0..n).map(|i| s(&format!("{}{}", pre, i))).collect()
}
fn pts(pre: &str, n: usize, s: &dyn Fn(&str) -> SymF) -> Vec<G1A> {
    scs(pre, n, s).into_iter().map(G1A::of).collect()
}

fn s03(rep: &mut Report) {
    for f in ["eval_eq", "eval_eq_x_y", "sparse_evaluate_value", "evaluate_mle", "evaluate_matrix_vec", "evaluate_matrix_vec_col", "combine_with_n", "combine_with_r", "bound_poly_var_bot", "equalize_length", "switch_matrix_to_list", "generate_r1cs"] {
        rep.function(f);
    }
    let top = if rep.thorough { 6 } else { 5 };
    rep.bound(&format!("up to {} variables, all values and points; sparse evaluation with every pattern of zero values up to 3 variables", top));
    for n in 0..=top {
        rep.must_hold(&format!("S03/eval_eq{}", n), "eval_eq is not the equality polynomial's table", &mut || {
            let r = scs("r", n, &v);
            let t = pl::eval_eq::<SymE>(&r);
            assert_eq!(t.len(), 1 << n);
            (0..1 << n).map(|i| (t[i], eqi(&r, i))).collect()
        });
        if n <= 4 {
            rep.must_hold(&format!("S03/eval_eq_x_y{}", n), "eval_eq_x_y is not the sum over the hypercube", &mut || {
                let (r, y) = (scs("r", n, &v), scs("y", n, &v));
                let mut s = SymF::zero();
                for i in 0..1 << n {
                    s += eqi(&r, i) * eqi(&y, i);
                }
                vec![(pl::eval_eq_x_y::<SymE>(&r, &y), s)]
            });
        }
        // short value lists are allowed
        for len in [1usize << n, (1 << n) - 1, (1usize << n) / 2] {
            rep.must_hold(&format!("S03/sparse{}_{}", n, len), "sparse_evaluate_value is not the multilinear extension", &mut || {
                let (r, a) = (scs("r", n, &v), scs("a", len, &v));
                vec![(pl::sparse_evaluate_value::<SymE>(&a, &r), mle(&a, &r))]
            });
        }
        if n >= 1 {
            rep.must_hold(&format!("S03/bind{}", n), "binding a variable does not evaluate the extension", &mut || {
                let (a, x) = (scs("a", 1 << n, &v), v("x"));
                let h = 1 << (n - 1);
                let c = pl::combine_with_n::<SymE>(&a, x);
                let mut d = a.clone();
                pl::combine_with_r::<SymE>(&mut d, x);
                let mut b = a.clone();
                pl::bound_poly_var_bot::<SymE>(&mut b, x);
                assert!(c.len() == h && d.len() == h && b.len() == h);
                let mut o = vec![];
                for i in 0..h {
                    let top = a[i] * (SymF::one() - x) + a[i + h] * x;
                    o.push((c[i], top));
                    o.push((d[i], top));
                    o.push((b[i], a[2 * i] * (SymF::one() - x) + a[2 * i + 1] * x));
                }
                o
            });
        }
    }
    for n in 0..=3usize {
        for mask in 0..1usize << (1 << n) {
            if n == 3 && !rep.thorough && mask.count_ones() > 2 && mask.count_ones() < 7 {
                continue;
            }
            rep.must_hold(&format!("S03/sparse{}_zeros{:b}", n, mask), "sparse_evaluate_value is not the multilinear extension", &mut || {
                let r = scs("r", n, &v);
                let a: Vec<SymF> = (0..1 << n).map(|i| if mask >> i & 1 == 1 { SymF::zero() } else { v(&format!("a{}", i)) }).collect();
                vec![(pl::sparse_evaluate_value::<SymE>(&a, &r), mle(&a, &r))]
            });
        }
    }
    for (lx, ly, dup) in [(0, 1, false), (1, 1, true), (1, 2, true), (2, 2, false), (2, 3, true), (3, 2, true), (1, 4, false)] {
        rep.bound(&format!("matrices of {} rows and {} columns, all coefficients{}", 1 << lx, 1 << ly, if dup { ", repeated entries" } else { "" }));
        rep.must_hold(&format!("S03/matrix{}_{}_{}", lx, ly, dup), "a matrix evaluation disagrees with the defining sum", &mut || {
            let (rows, cols) = (1usize << lx, 1usize << ly);
            let t = cols / 2;
            let (rx, ry) = (scs("r", lx, &v), scs("y", ly, &v));
            let z = scs("z", cols, &v);
            let mut m: Mat = vec![];
            let mut full = vec![vec![SymF::zero(); cols]; rows];
            for i in 0..rows {
                let mut row = vec![];
                for k in 0..cols + if dup { cols } else { 0 } {
                    let j = (k * 3 + i) % cols;
                    if (k + i) % 4 == 3 {
                        continue;
                    }
                    let c = v(&format!("m{}_{}", i, k));
                    row.push((c, if j < t { Index::Aux(j) } else { Index::Input(j - t) }));
                    full[i][j] += c;
                }
                m.push(row);
            }
            let mut o = vec![];
            let mut e = SymF::zero();
            for i in 0..rows {
                for j in 0..cols {
                    e += full[i][j] * eqi(&rx, i) * eqi(&ry, j);
                }
            }
            o.push((pl::evaluate_mle::<SymE>(&m, &rx, &ry), e));
            let w = pl::evaluate_matrix_vec::<SymE>(&m, &z);
            let q = scs("q", rows, &v);
            let cl = pl::evaluate_matrix_vec_col::<SymE>(&m, &q, cols);
            assert!(w.len() == rows && cl.len() == cols);
            for i in 0..rows {
                let mut s = SymF::zero();
                for j in 0..cols {
                    s += full[i][j] * z[j];
                }
                o.push((w[i], s));
            }
            for j in 0..cols {
                let mut s = SymF::zero();
                for i in 0..rows {
                    s += full[i][j] * q[i];
                }
                o.push((cl[j], s));
            }
            // the sparse list represents the same matrix
            let (vals, rs, cs) = switch_matrix_to_list::<SymE>(&m, t).unwrap();
            assert!(vals.len() == rs.len() && vals.len() == cs.len());
            let mut back = vec![vec![SymF::zero(); cols]; rows];
            for k in 0..vals.len() {
                back[rs[k]][cs[k]] += vals[k];
            }
            for i in 0..rows {
                for j in 0..cols {
                    o.push((back[i][j], full[i][j]));
                }
            }
            o
        });
    }
    for (a, b) in [(0, 2), (1, 3), (2, 2), (3, 1)] {
        rep.must_hold(&format!("S03/equalize{}_{}", a, b), "padding a point changes the extension of a table with zero upper part", &mut || {
            let (rx, ry) = (scs("r", a, &v), scs("y", b, &v));
            let (x2, y2) = zkp_spartan::spark::equalize_length::<SymE>(&rx, &ry).unwrap();
            let n = a.max(b);
            assert!(x2.len() == n && y2.len() == n);
            let mut o = vec![];
            for i in 0..1 << a {
                o.push((eqi(&x2, i), eqi(&rx, i)));
            }
            for i in 0..1 << b {
                o.push((eqi(&y2, i), eqi(&ry, i)));
            }
            o
        });
    }
    // the instance holds the circuit's own matrices, padded with empty rows
    for (ni, na, nc, salt) in [(1, 2, 1, 1), (2, 2, 3, 2), (1, 3, 5, 3), (3, 1, 4, 4)] {
        rep.must_hold(&format!("S03/instance{}_{}_{}", ni, na, nc), "generate_r1cs does not hold the circuit's constraints", &mut || {
            let c = sparse::<SymF>(ni, na, nc, salt);
            let r: R1CSInstance<SymE> = generate_r1cs(c.clone()).unwrap();
            let m = nc.next_power_of_two();
            assert!(r.num_inputs == ni + 1 && r.num_aux == na && r.num_constraints == m);
            let t = (ni + 1).max(na).next_power_of_two();
            let mut z = vec![SymF::zero(); 2 * t];
            for i in 0..na {
                z[i] = c.z[1 + ni + i];
            }
            for i in 0..=ni {
                z[t + i] = c.z[i];
            }
            let mut o = vec![];
            for (k, mx) in [&r.a_matrix, &r.b_matrix, &r.c_matrix].iter().enumerate() {
                assert_eq!(mx.len(), m);
                let w = pl::evaluate_matrix_vec::<SymE>(mx, &z);
                for i in 0..m {
                    o.push((w[i], if i < nc { c.dot(&c.rows[i][k]) } else { SymF::zero() }));
                }
            }
            o
        });
    }
}

// ----------------------------------------------------------------- verifier
#[derive(Clone, Copy, Debug, PartialEq)]
struct Sh {
    lx: usize,
    ly: usize, // log2 of the padded number of columns
    pi: usize,
    dense: bool,
    // deviations from the honest shape
    rounds: i64, // rounds of the witness opening
    deg: usize,  // extra coefficients in the product layers' polynomials
    lists: [i64; 4], // lengths of evals_row.0, .1, evals_col.0, .1 minus 3
    dotp: i64,
    rlen: (i64, i64),
    spark_rounds: i64,
}
impl Sh {
    fn good(lx: usize, ly: usize, pi: usize, dense: bool) -> Sh {
        Sh { lx, ly, pi, dense, rounds: 0, deg: 0, lists: [0; 4], dotp: 0, rlen: (0, 0), spark_rounds: 0 }
    }
    fn t(&self) -> usize {
        1 << (self.ly - 1)
    }
    fn honest(&self) -> bool {
        *self == Sh::good(self.lx, self.ly, self.pi, self.dense)
    }
}
fn addi(n: usize, d: i64) -> usize {
    (n as i64 + d).max(0) as usize
}

fn mats(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> [Vec<Vec<(usize, SymF)>>; 3] {
    let cols = 2 * sh.t();
    ["A", "B", "C"].map(|m| {
        (0..1usize << sh.lx)
            .map(|i| {
                (0..cols)
                    .filter(|j| (*j < sh.t() || j - sh.t() <= sh.pi) && (sh.dense || (j + i + m.as_bytes()[0] as usize) % 3 == 0))
                    .map(|j| (j, s(&format!("{}{}_{}", m, i, j))))
                    .collect()
            })
            .collect()
    })
}
fn instance(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> R1CSInstance<SymE> {
    let t = sh.t();
    let [a, b, c] = mats(sh, s).map(|m| {
        m.into_iter().map(|row| row.into_iter().map(|(j, c)| (c, if j < t { Index::Aux(j) } else { Index::Input(j - t) })).collect()).collect::<Mat>()
    });
    R1CSInstance { num_inputs: sh.pi + 1, num_aux: t, num_constraints: 1 << sh.lx, a_matrix: a, b_matrix: b, c_matrix: c }
}
fn multi(pre: &str, n: usize, h: &str, s: &dyn Fn(&str) -> SymF) -> MultiCommitmentParameters<SymE> {
    MultiCommitmentParameters { n, generators: pts(pre, n, s), h: G1A::of(s(h)) }
}
fn sat_params(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> R1CSSatisfiedParameters<SymE> {
    let l = sh.ly - 1;
    let n = 1 << (l - l / 2);
    R1CSSatisfiedParameters {
        pc_params: PolyCommitmentParameters { n, gen_n: multi("G", n, "h", s), gen_1: multi("g", 1, "h", s) },
        sc_params: SumCheckCommitmentParameters { gen_1: multi("g", 1, "h", s), gen_3: multi("g3_", 3, "h3", s), gen_4: multi("g4_", 4, "h4", s) },
        n: l,
    }
}
fn sc_proof(pre: &str, rounds: usize, size: usize, s: &dyn Fn(&str) -> SymF) -> SumCheckProof<SymE> {
    SumCheckProof {
        comm_polys: pts(&format!("{}P", pre), rounds, s),
        comm_evals: pts(&format!("{}E", pre), rounds, s),
        proofs: (0..rounds)
            .map(|i| SumCheckEvalProof {
                d_commit: G1A::of(s(&format!("{}D{}", pre, i))),
                dot_cd_commit: G1A::of(s(&format!("{}B{}", pre, i))),
                z: scs(&format!("{}z{}_", pre, i), size, s),
                z_delta: s(&format!("{}zd{}", pre, i)),
                z_beta: s(&format!("{}zb{}", pre, i)),
            })
            .collect(),
    }
}
fn ip_proof(pre: &str, lg: usize, s: &dyn Fn(&str) -> SymF) -> DotProductProof<SymE> {
    let p = |q: &str| s(&format!("{}{}", pre, q));
    DotProductProof {
        inner_product_proof: InnerProductProof { l_vec: pts(&format!("{}L", pre), lg, s), r_vec: pts(&format!("{}R", pre), lg, s) },
        delta: G1A::of(p("delta")),
        beta: G1A::of(p("beta")),
        z1: p("z1"),
        z2: p("z2"),
    }
}
fn sat_proof(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> R1CSSatProof<SymE> {
    let l = sh.ly - 1;
    let a = |n: &str| G1A::of(s(n));
    R1CSSatProof {
        commit_witness: pts("W", 1 << (l / 2), s),
        proof_one: sc_proof("one", sh.lx, 4, s),
        proof_two: sc_proof("two", sh.ly, 3, s),
        product_proof: ip_proof("ip", addi(l - l / 2, sh.rounds), s),
        knowledge_product_commit: KnowledgeProductCommit { va_commit: a("va"), vb_commit: a("vb"), vc_commit: a("vc"), prod_commit: a("vp") },
        knowledge_product_proof: KnowledgeProductProof {
            knowledge_proof: KnowledgeProof { t_commit: a("kt"), z1: s("kz1"), z2: s("kz2") },
            product_proof: ProductProof { commit_alpha: a("pa"), commit_beta: a("pb"), commit_delta: a("pd"), z: scs("pz", 5, s) },
        },
        sc1_eq_proof: EqProof { alpha: a("e1a"), z: s("e1z") },
        sc2_eq_proof: EqProof { alpha: a("e2a"), z: s("e2z") },
        commit_ry: a("cry"),
    }
}

/// the challenges in the order the protocol draws them
struct Ch(usize);
impl Ch {
    fn n(&mut self) -> SymF {
        self.0 += 1;
        v(&format!("ch{}", self.0 - 1))
    }
    fn many(&mut self, k: usize) -> Vec<SymF> {
        (0..k).map(|_| self.n()).collect()
    }
}

/// committed sum-check with polynomials of `size` coefficients
fn sc_spec(cs: &mut Vec<Fm>, ch: &mut Ch, pre: &str, g: &str, h: &str, rounds: usize, size: usize, claim: SymF, s: &dyn Fn(&str) -> SymF) -> (Vec<SymF>, SymF) {
    let mut claim = claim;
    let mut r = vec![];
    for i in 0..rounds {
        let p = |q: &str| s(&format!("{}{}{}", pre, q, i));
        let (ri, w0, w1, c) = (ch.n(), ch.n(), ch.n(), ch.n());
        let z = scs(&format!("{}z{}_", pre, i), size, s);
        let gs = scs(g, size, s);
        let mut lin = s(h) * p("zd");
        // <z, a> where a encodes w0 (f(0) + f(1)) + w1 f(r)
        let (mut at0, mut at1, mut atr) = (z[0], SymF::zero(), SymF::zero());
        for k in 0..size {
            lin += z[k] * gs[k];
            at1 += z[k];
            atr += z[k] * ri.pow([k as u64]);
        }
        at0 *= SymF::one();
        cs.push(eqf(c * p("P") + p("D"), lin));
        cs.push(eqf(c * (w0 * claim + w1 * p("E")) + p("B"), s("g0") * (w0 * (at0 + at1) + w1 * atr) + s("h") * p("zb")));
        r.push(ri);
        claim = p("E");
    }
    (r, claim)
}
/// opening of a committed multilinear polynomial at `r`: commitment `cv` to the value
fn ip_spec(cs: &mut Vec<Fm>, ch: &mut Ch, pre: &str, gens: &str, g: &str, h: &str, rows: &dyn Fn(usize) -> SymF, r: &[SymF], cv: SymF, s: &dyn Fn(&str) -> SymF) {
    let p = |q: &str| s(&format!("{}{}", pre, q));
    let (hi, lo) = r.split_at(r.len() / 2);
    let lg = lo.len();
    let mut gamma = cv;
    for i in 0..1 << hi.len() {
        gamma += eqi(hi, i) * rows(i);
    }
    let xs = ch.many(lg);
    for j in 0..lg {
        cs.push(nef(xs[j], SymF::zero()));
        let i = xs[j].inv_unchecked();
        gamma += xs[j] * xs[j] * p(&format!("L{}", j)) + i * i * p(&format!("R{}", j));
    }
    let c = ch.n();
    let (mut gh, mut bh) = (SymF::zero(), SymF::zero());
    for i in 0..1usize << lg {
        let mut w = SymF::one();
        for j in 0..lg {
            w *= if (i >> (lg - 1 - j)) & 1 == 1 { xs[j] } else { xs[j].inv_unchecked() };
        }
        gh += w * s(&format!("{}{}", gens, i));
        bh += w * eqi(lo, i);
    }
    cs.push(eqf((gamma * c + p("beta")) * bh + p("delta"), (gh + s(g) * bh) * p("z1") + s(h) * p("z2")));
}
fn sat_spec(sh: &Sh, cs: &mut Vec<Fm>, ch: &mut Ch, evals: Option<[SymF; 3]>, s: &dyn Fn(&str) -> SymF) -> (Vec<SymF>, Vec<SymF>) {
    let (g, h) = (s("g0"), s("h"));
    let tau = ch.many(sh.lx);
    let (rx, ex) = sc_spec(cs, ch, "one", "g4_", "h4", sh.lx, 4, SymF::zero(), s);
    let c = ch.n();
    cs.push(eqf(g * s("kz1") + h * s("kz2"), c * s("vc") + s("kt")));
    let c = ch.n();
    cs.push(eqf(s("pa") + c * s("va"), g * s("pz0") + h * s("pz1")));
    cs.push(eqf(s("pb") + c * s("vb"), g * s("pz2") + h * s("pz3")));
    cs.push(eqf(s("pd") + c * s("vp"), s("va") * s("pz2") + h * s("pz4")));
    let c = ch.n();
    let mut eqt = SymF::one();
    for i in 0..sh.lx {
        eqt *= tau[i] * rx[i] + (SymF::one() - tau[i]) * (SymF::one() - rx[i]);
    }
    cs.push(eqf(h * s("e1z"), c * (eqt * (s("vp") - s("vc")) - ex) + s("e1a")));
    let (ra, rb, rc) = (ch.n(), ch.n(), ch.n());
    let (ry, ey) = sc_spec(cs, ch, "two", "g3_", "h3", sh.ly, 3, ra * s("va") + rb * s("vb") + rc * s("vc"), s);
    ip_spec(cs, ch, "ip", "G", "g0", "h", &|i| s(&format!("W{}", i)), &ry[1..], s("cry"), s);
    let c = ch.n();
    let mut pubs = vec![SymF::one()];
    pubs.extend(scs("x", sh.pi, s));
    let z = (SymF::one() - ry[0]) * s("cry") + ry[0] * mle(&pubs, &ry[1..]) * g;
    let ev = evals.unwrap_or_else(|| {
        mats(sh, s).map(|m| {
            let mut e = SymF::zero();
            for (i, row) in m.iter().enumerate() {
                for (j, c) in row {
                    e += *c * eqi(&rx, i) * eqi(&ry, *j);
                }
            }
            e
        })
    });
    cs.push(eqf(h * s("e2z"), c * ((ra * ev[0] + rb * ev[1] + rc * ev[2]) * z - ey) + s("e2a")));
    (rx, ry)
}

fn nizk_spec(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> Fm {
    if !sh.honest() {
        return Fm::False;
    }
    let mut cs = vec![];
    let (rx, ry) = sat_spec(sh, &mut cs, &mut Ch(0), None, s);
    // the point carried in the proof is the transcript's
    for (i, r) in rx.iter().enumerate() {
        cs.push(eqf(*r, s(&format!("prx{}", i))));
    }
    for (i, r) in ry.iter().enumerate() {
        cs.push(eqf(*r, s(&format!("pry{}", i))));
    }
    and(cs)
}
fn nizk_run(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> bool {
    let params = NizkParameters { r1cs_satisfied_params: sat_params(sh, s) };
    let proof = NIZKProof { r1cs_satisfied_proof: sat_proof(sh, s), r: (scs("prx", addi(sh.lx, sh.rlen.0), s), scs("pry", addi(sh.ly, sh.rlen.1), s)) };
    verify_nizk_proof::<SymE>(&params, &instance(sh, s), &scs("x", sh.pi, s), &proof, s("r1cs_hash"), s("params_hash")).unwrap_or(false)
}

// -- SNARK
const SN: usize = 2; // non-zero entries per matrix, padded
fn lgs(sh: &Sh) -> (usize, usize, usize) {
    let m = (2 * sh.t()).max(1 << sh.lx);
    (SN.trailing_zeros() as usize, m.trailing_zeros() as usize, m)
}
fn pce_proof(pre: &str, layers: usize, prods: usize, dotp: usize, deg: usize, s: &dyn Fn(&str) -> SymF) -> ProductCircuitEvalProof<SymE> {
    ProductCircuitEvalProof {
        layers_proof: (0..layers)
            .map(|i| LayerProductCircuitProof {
                polys: (0..i).map(|k| DensePolynomial { coeffs: scs(&format!("{}c{}_{}_", pre, i, k), 4 + deg, s) }).collect(),
                claim_prod_left: scs(&format!("{}l{}_", pre, i), prods, s),
                claim_prod_right: scs(&format!("{}r{}_", pre, i), prods, s),
            })
            .collect(),
        claim_dotp: (scs(&format!("{}dr", pre), dotp, s), scs(&format!("{}dc", pre), dotp, s), scs(&format!("{}dv", pre), dotp, s)),
    }
}
fn snark_params(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> R1CSEvalsParameters<SymE> {
    let (ln, lm, _) = lgs(sh);
    let f = |p: &str, l: usize| {
        let n = 1usize << (l - l / 2);
        PolyCommitmentParameters { n, gen_n: multi(&format!("{}G", p), n, &format!("{}h", p), s), gen_1: multi(&format!("{}g", p), 1, &format!("{}h", p), s) }
    };
    R1CSEvalsParameters { ops_params: f("op", ln + 4), mem_params: f("me", lm + 1), derefs_params: f("de", ln + 3) }
}
fn half(l: usize) -> usize {
    l - l / 2
}
fn encode_commit(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> EncodeCommit<SymE> {
    let (ln, lm, m) = lgs(sh);
    EncodeCommit { n: SN, m, ops_commit: pts("OC", 1 << ((ln + 4) / 2), s), mem_commit: pts("MC", 1 << ((lm + 1) / 2), s) }
}
fn snark_proof(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> SNARKProof<SymE> {
    let (ln, lm, _) = lgs(sh);
    let l = |k: usize| addi(3, sh.lists[k]);
    SNARKProof {
        r1cs_satisfied_proof: sat_proof(sh, s),
        matrix_evals: (s("ea"), s("eb"), s("ec")),
        r1cs_evals_proof: R1CSEvalsProof {
            prod_layer_proof: ProductLayerProof {
                proof_memory: pce_proof("pm", lm, 4, 0, sh.deg, s),
                proof_ops: pce_proof("po", ln, 12, addi(6, sh.dotp), sh.deg, s),
                eval_dotp: (scs("edl", 3, s), scs("edr", 3, s)),
                eval_row: (s("ri"), scs("rr", 3, s), scs("rw", 3, s), s("rau")),
                eval_col: (s("ci"), scs("cr", 3, s), scs("cw", 3, s), s("cau")),
            },
            hash_layer_proof: HashLayerProof {
                proof_derefs: ip_proof("ipd", addi(half(ln + 3), sh.spark_rounds), s),
                proof_ops: ip_proof("ipo", addi(half(ln + 4), sh.spark_rounds), s),
                proof_mem: ip_proof("ipm", addi(half(lm + 1), sh.spark_rounds), s),
                evals_derefs: (scs("dro", 3, s), scs("dco", 3, s)),
                evals_row: (scs("ha", l(0), s), scs("hr", l(1), s), s("hau")),
                evals_col: (scs("ka", l(2), s), scs("kr", l(3), s), s("kau")),
                evals_val: scs("hv", 3, s),
            },
            derefs_commit: pts("DC", 1 << ((ln + 3) / 2), s),
        },
    }
}
fn poly_at(c: &[SymF], x: SymF) -> SymF {
    let mut r = SymF::zero();
    for (k, q) in c.iter().enumerate() {
        r += *q * x.pow([k as u64]);
    }
    r
}
fn pce_spec(cs: &mut Vec<Fm>, ch: &mut Ch, pre: &str, layers: usize, claims: &[SymF], dots: &[SymF], s: &dyn Fn(&str) -> SymF) -> (Vec<SymF>, Vec<SymF>, Vec<SymF>) {
    let np = claims.len();
    let mut cur = claims.to_vec();
    let mut rands: Vec<SymF> = vec![];
    let mut dotp = vec![];
    for i in 0..layers {
        let last = i == layers - 1;
        if last {
            cur.extend(dots);
        }
        let co = ch.many(cur.len());
        let mut claim = SymF::zero();
        for j in 0..cur.len() {
            claim += co[j] * cur[j];
        }
        let mut r = vec![];
        for k in 0..i {
            let p = scs(&format!("{}c{}_{}_", pre, i, k), 4, s);
            cs.push(eqf(poly_at(&p, SymF::zero()) + poly_at(&p, SymF::one()), claim));
            let x = ch.n();
            claim = poly_at(&p, x);
            r.push(x);
        }
        let (l, rt) = (scs(&format!("{}l{}_", pre, i), np, s), scs(&format!("{}r{}_", pre, i), np, s));
        let mut eq = SymF::one();
        for k in 0..i {
            eq *= r[k] * rands[k] + (SymF::one() - r[k]) * (SymF::one() - rands[k]);
        }
        let mut want = SymF::zero();
        for j in 0..np {
            want += co[j] * l[j] * rt[j] * eq;
        }
        let d = |q: &str, j: usize| s(&format!("{}{}{}", pre, q, j));
        if last {
            for j in 0..dots.len() {
                want += co[np + j] * d("dr", j) * d("dc", j) * d("dv", j);
            }
        }
        cs.push(eqf(want, claim));
        let rl = ch.n();
        cur = (0..np).map(|j| (SymF::one() - rl) * l[j] + rl * rt[j]).collect();
        if last {
            for j in 0..dots.len() / 2 {
                for q in ["dr", "dc", "dv"] {
                    dotp.push((SymF::one() - rl) * d(q, 2 * j) + rl * d(q, 2 * j + 1));
                }
            }
        }
        rands = [vec![rl], r].concat();
    }
    (cur, dotp, rands)
}
fn snark_spec(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> Fm {
    if !sh.honest() {
        return Fm::False;
    }
    let (ln, lm, _) = lgs(sh);
    let mut cs = vec![];
    let ch = &mut Ch(0);
    let ev = [s("ea"), s("eb"), s("ec")];
    let (rx, ry) = sat_spec(sh, &mut cs, ch, Some(ev), s);
    let pad = |r: &Vec<SymF>| [vec![SymF::zero(); lm - r.len()], r.clone()].concat();
    let (rx, ry) = (pad(&rx), pad(&ry));
    let (g1, g2) = (ch.n(), ch.n());
    let pr = |p: &str| s(&format!("{}0", p)) * s(&format!("{}1", p)) * s(&format!("{}2", p));
    cs.push(eqf(s("ri") * pr("rw"), pr("rr") * s("rau")));
    cs.push(eqf(s("ci") * pr("cw"), pr("cr") * s("cau")));
    let mut dots = vec![];
    for i in 0..3 {
        let (a, b) = (s(&format!("edl{}", i)), s(&format!("edr{}", i)));
        cs.push(eqf(a + b, ev[i]));
        dots.extend([a, b]);
    }
    let claims = [scs("rr", 3, s), scs("rw", 3, s), scs("cr", 3, s), scs("cw", 3, s)].concat();
    let (ops, dotp, r_ops) = pce_spec(&mut cs, ch, "po", ln, &claims, &dots, s);
    let (mem, _, r_mem) = pce_spec(&mut cs, ch, "pm", lm, &[s("ri"), s("rau"), s("ci"), s("cau")], &[], s);
    let joint = |ch: &mut Ch, e: &[SymF], k: usize, r: &Vec<SymF>| {
        let c = ch.many(k);
        (mle(e, &c), [c, r.clone()].concat())
    };
    let (e, r) = joint(ch, &[scs("dro", 3, s), scs("dco", 3, s)].concat(), 3, &r_ops);
    ip_spec(&mut cs, ch, "ipd", "deG", "deg0", "deh", &|i| s(&format!("DC{}", i)), &r, e * s("deg0"), s);
    for i in 0..3 {
        for (k, q) in ["dro", "dco", "hv"].iter().enumerate() {
            cs.push(eqf(dotp[3 * i + k], s(&format!("{}{}", q, i))));
        }
    }
    let all = [scs("ha", 3, s), scs("hr", 3, s), scs("ka", 3, s), scs("kr", 3, s), scs("hv", 3, s)].concat();
    let (e, r) = joint(ch, &all, 4, &r_ops);
    ip_spec(&mut cs, ch, "ipo", "opG", "opg0", "oph", &|i| s(&format!("OC{}", i)), &r, e * s("opg0"), s);
    let (e, r) = joint(ch, &[s("hau"), s("kau")], 1, &r_mem);
    ip_spec(&mut cs, ch, "ipm", "meG", "meg0", "meh", &|i| s(&format!("MC{}", i)), &r, e * s("meg0"), s);
    // memory checking: the hashes h(a, v, t) = a g1^2 + v g1 + t - g2
    let hash = |a: SymF, v: SymF, t: SymF| a * g1 * g1 + v * g1 + t - g2;
    let mut addr = SymF::zero();
    for (i, r) in r_mem.iter().enumerate() {
        addr += *r * SymF::from(1u64 << (lm - 1 - i));
    }
    for (k, (pt, a, rd, e, au)) in [(&rx, "ha", "hr", "dro", "hau"), (&ry, "ka", "kr", "dco", "kau")].iter().enumerate() {
        let mut val = SymF::one();
        for i in 0..lm {
            val *= pt[i] * r_mem[i] + (SymF::one() - pt[i]) * (SymF::one() - r_mem[i]);
        }
        cs.push(eqf(mem[2 * k], hash(addr, val, SymF::zero())));
        cs.push(eqf(mem[2 * k + 1], hash(addr, val, s(au))));
        for i in 0..3 {
            let q = |p: &str| s(&format!("{}{}", p, i));
            cs.push(eqf(ops[6 * k + i], hash(q(a), q(e), q(rd))));
            cs.push(eqf(ops[6 * k + 3 + i], hash(q(a), q(e), q(rd) + SymF::one())));
        }
    }
    and(cs)
}
fn snark_run(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> bool {
    let params = SnarkParameters { r1cs_eval_params: snark_params(sh, s), r1cs_satisfied_params: sat_params(sh, s) };
    verify_snark_proof::<SymE>(
        &params,
        &instance(sh, s),
        &scs("x", sh.pi, s),
        &snark_proof(sh, s),
        &encode_commit(sh, s),
        s("r1cs_hash"),
        s("params_hash"),
        s("encode_hash"),
    )
    .unwrap_or(false)
}

fn s04(rep: &mut Report) {
    for f in ["verify_nizk_proof", "verify_snark_proof", "r1cs_satisfied_verify", "sum_check_verify", "sum_check_eval_verify", "knowledge_verify", "product_verify", "eq_verify", "inner_product_verify", "bullet_inner_product_verify", "sparse_poly_eval_verify", "product_layer_verify", "product_circuit_eval_verify", "sum_check_cubic_verify", "hash_layer_verify", "behind_verify_for_timestamp", "Transcript (challenge derivation)"] {
        rep.function(f);
    }
    let mut shapes = vec![Sh::good(0, 1, 0, true), Sh::good(1, 1, 0, true), Sh::good(1, 2, 1, true), Sh::good(0, 3, 2, false)];
    if rep.thorough {
        shapes.extend([Sh::good(2, 2, 1, false), Sh::good(1, 4, 3, false), Sh::good(1, 3, 3, true)]);
    }
    for g in &shapes {
        rep.bound(&format!("NIZK verifier: {} rows, {} columns, {} public inputs{}: every generator, coefficient, public input and proof element arbitrary", 1 << g.lx, 2 * g.t(), g.pi, if g.dense { "" } else { " (a third of the coefficients)" }));
    }
    let b = Sh::good(1, 2, 1, true);
    for (x, y) in [(1, 0), (-1, 0), (0, 1), (0, -1)] {
        shapes.push(Sh { rlen: (x, y), ..b });
    }
    for r in [1, -1] {
        shapes.push(Sh { rounds: r, ..b });
        shapes.push(Sh { rounds: r, ..Sh::good(0, 3, 2, false) });
    }
    rep.bound("the same with one more or fewer folding round or coordinate in the proof");
    for sh in shapes {
        rep.verifier_equiv(&format!("S04/nizk_{}_{}_{}_r{}_p{:?}", sh.lx, sh.ly, sh.pi, sh.rounds, sh.rlen), 3000, true, &mut |slot| {
            clear_oracle();
            draws("ch");
            *slot = Some(generic(|| nizk_spec(&sh, &v)));
            nizk_run(&sh, &v)
        });
    }
    let mut shapes = vec![Sh::good(0, 1, 0, true), Sh::good(1, 2, 0, false)];
    if rep.thorough {
        shapes.extend([Sh::good(1, 1, 0, true), Sh::good(1, 2, 1, false), Sh::good(2, 2, 1, false), Sh::good(1, 3, 2, false)]);
    }
    for g in &shapes {
        rep.bound(&format!("SNARK verifier: {} rows, {} columns, {} public inputs, {} encoded entries per matrix: every generator, encoding, public input and proof element arbitrary", 1 << g.lx, 2 * g.t(), g.pi, SN));
    }
    rep.bound("the same with list lengths of the hash layer, degrees, dot-product claims or folding rounds off by one or more");
    let b = Sh::good(0, 1, 0, true);
    for l in [[-3, 3, 0, 0], [-1, 1, 0, 0], [1, -1, 0, 0], [0, 0, -3, 3], [0, 0, 1, -1], [-3, 0, 3, 0], [0, -1, 0, 0], [0, -1, 1, 0]] {
        shapes.push(Sh { lists: l, ..b });
    }
    for d in [1, -1, -6] {
        shapes.push(Sh { dotp: d, ..b });
    }
    shapes.push(Sh { deg: 1, ..Sh::good(1, 2, 0, false) });
    shapes.push(Sh { spark_rounds: 1, ..b });
    shapes.push(Sh { spark_rounds: -1, ..b });
    for sh in shapes {
        rep.verifier_equiv(&format!("S04/snark_{}_{}_{}_{:?}_d{}_g{}_r{}", sh.lx, sh.ly, sh.pi, sh.lists, sh.dotp, sh.deg, sh.spark_rounds), 3000, true, &mut |slot| {
            clear_oracle();
            draws("ch");
            *slot = Some(generic(|| snark_spec(&sh, &v)));
            snark_run(&sh, &v)
        });
    }
    // challenge derivation
    let sh = Sh::good(1, 2, 1, true);
    let sc = |base: usize, pre: &str, k: usize, comps: &mut Vec<(String, usize)>| {
        for i in 0..k {
            comps.push((format!("{}P{}", pre, i), base + 4 * i));
            comps.push((format!("{}E{}", pre, i), base + 4 * i + 1));
            comps.push((format!("{}D{}", pre, i), base + 4 * i + 3));
            comps.push((format!("{}B{}", pre, i), base + 4 * i + 3));
        }
    };
    let mut comps: Vec<(String, usize)> = vec![];
    for q in ["r1cs_hash", "params_hash", "x0", "W0"] {
        comps.push((q.into(), 0));
    }
    let lx = sh.lx;
    sc(lx, "one", lx, &mut comps);
    let k = lx + 4 * lx;
    for q in ["vc", "kt"] {
        comps.push((q.into(), k));
    }
    for q in ["va", "vb", "vp", "pa", "pb", "pd"] {
        comps.push((q.into(), k + 1));
    }
    comps.push(("e1a".into(), k + 2));
    let k2 = k + 6;
    sc(k2, "two", sh.ly, &mut comps);
    let k3 = k2 + 4 * sh.ly;
    for q in ["cry", "ipL0", "ipR0"] {
        comps.push((q.into(), k3));
    }
    for q in ["ipdelta", "ipbeta"] {
        comps.push((q.into(), k3 + 1));
    }
    comps.push(("e2a".into(), k3 + 2));
    rep.bound("transcript: every commitment of the satisfiability proof, public input and statement hash; every claimed evaluation, polynomial coefficient and commitment of the SNARK part");
    optimistic(true);
    for (name, first) in comps.clone() {
        rep.must_bind(&format!("S04/bind-nizk/{}", name), first, &mut |x| {
            let s = |n: &str| if n == name { x } else { v(n) };
            nizk_run(&sh, &s);
        });
    }
    // the SNARK's second part
    let mut comps = vec![("encode_hash".to_string(), 0)];
    let (ln, lm, _) = lgs(&sh);
    let l = sh.ly - 1;
    let g = sh.lx + 4 * sh.lx + 3 + 3 + 4 * sh.ly + half(l) + 1 + 1;
    for q in ["ea", "eb", "ec", "OC0", "OC3", "MC0", "DC0", "DC3"] {
        comps.push((q.into(), g));
    }
    let p = g + 2;
    for q in ["ri", "rau", "ci", "cau", "rr0", "rr2", "rw1", "cr0", "cw2", "edl0", "edr2"] {
        comps.push((q.into(), p));
    }
    // the product circuits: coefficients, round polynomials, layer challenge
    let mut k = p;
    for (pre, layers, np, nd) in [("po", ln, 12, 6), ("pm", lm, 4, 0)] {
        for i in 0..layers {
            k += np + if i == layers - 1 { nd } else { 0 };
            for j in 0..i {
                for q in 0..4 {
                    comps.push((format!("{}c{}_{}_{}", pre, i, j, q), k));
                }
                k += 1;
            }
            for q in ["l", "r"] {
                comps.push((format!("{}{}{}_{}", pre, q, i, np - 1), k));
            }
            if i == layers - 1 && nd > 0 {
                for q in ["dr0", "dc3", "dv5"] {
                    comps.push((format!("{}{}", pre, q), k));
                }
            }
            k += 1;
        }
    }
    for (lists, cs, pre, lg) in [(vec!["dro0", "dro2", "dco1"], 3, "ipd", half(ln + 3)), (vec!["ha0", "hr1", "ka2", "kr0", "hv1"], 4, "ipo", half(ln + 4)), (vec!["hau", "kau"], 1, "ipm", half(lm + 1))] {
        for q in lists {
            comps.push((q.into(), k));
        }
        k += cs;
        for j in 0..lg {
            comps.push((format!("{}L{}", pre, j), k));
            comps.push((format!("{}R{}", pre, j), k));
            k += 1;
        }
        for q in ["delta", "beta"] {
            comps.push((format!("{}{}", pre, q), k));
        }
        k += 1;
    }
    for (name, first) in comps {
        rep.must_bind(&format!("S04/bind-snark/{}", name), first, &mut |x| {
            let s = |n: &str| if n == name { x } else { v(n) };
            snark_run(&sh, &s);
        });
    }
    optimistic(false);
}

// --------------------------------------------------------- zero knowledge
fn flat(p: &R1CSSatProof<SymE>) -> (Vec<SymF>, usize) {
    let mut o = vec![];
    let mut bytes = 0;
    {
        let mut pt = |x: &G1A| {
            bytes += x.serialized_size();
            o.push(x.d)
        };
        p.commit_witness.iter().for_each(&mut pt);
        for q in [&p.proof_one, &p.proof_two] {
            q.comm_polys.iter().for_each(&mut pt);
            q.comm_evals.iter().for_each(&mut pt);
            for e in &q.proofs {
                pt(&e.d_commit);
                pt(&e.dot_cd_commit);
            }
        }
        let d = &p.product_proof;
        d.inner_product_proof.l_vec.iter().for_each(&mut pt);
        d.inner_product_proof.r_vec.iter().for_each(&mut pt);
        let (k, c) = (&p.knowledge_product_proof, &p.knowledge_product_commit);
        for q in [&d.delta, &d.beta, &c.va_commit, &c.vb_commit, &c.vc_commit, &c.prod_commit, &k.knowledge_proof.t_commit] {
            pt(q);
        }
        let r = &k.product_proof;
        for q in [&r.commit_alpha, &r.commit_beta, &r.commit_delta, &p.sc1_eq_proof.alpha, &p.sc2_eq_proof.alpha, &p.commit_ry] {
            pt(q);
        }
    }
    let mut vecs = 1 + 3 * 2 + 2 + 1;
    let n = o.len();
    for q in [&p.proof_one, &p.proof_two] {
        for e in &q.proofs {
            o.extend(&e.z);
            o.extend([e.z_delta, e.z_beta]);
            vecs += 1;
        }
    }
    let k = &p.knowledge_product_proof;
    o.extend([p.product_proof.z1, p.product_proof.z2, k.knowledge_proof.z1, k.knowledge_proof.z2, p.sc1_eq_proof.z, p.sc2_eq_proof.z]);
    o.extend(&k.product_proof.z);
    for x in &o[n..] {
        bytes += x.serialized_size();
    }
    (o, bytes + 8 * vecs)
}

fn s05(rep: &mut Report) {
    for f in ["create_nizk_proof", "r1cs_satisfied_prover", "packing_poly_commit", "sum_check_eval_prover", "knowledge_proof", "product_proof", "eq_proof", "inner_product_proof"] {
        rep.function(f);
    }
    rep.bound("nonzero generators and challenges; every witness, public input and randomness; challenges fixed while the randomness varies");
    rep.fix_order = vec![vec!["ch", "gen"]];
    let mut cs: Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> = vec![
        ("dense(1,1,1)".into(), Box::new(|| dense::<SymF>(1, 1, 1))),
        ("sparse(2,2,2,1)".into(), Box::new(|| sparse::<SymF>(2, 2, 2, 1))),
        ("sparse(1,5,3,2)".into(), Box::new(|| sparse::<SymF>(1, 5, 3, 2))),
    ];
    if rep.thorough {
        cs.push(("dense(1,2,2)".into(), Box::new(|| dense::<SymF>(1, 2, 2))));
        cs.push(("sparse(2,9,6,3)".into(), Box::new(|| sparse::<SymF>(2, 9, 6, 3))));
    }
    for (name, mk) in cs {
        rep.bound(&name);
        let key = format!("S05/{}", name);
        let c = mk();
        let lx = c.nc().next_power_of_two().trailing_zeros() as usize;
        let ly = (c.ni + 1).max(c.na).next_power_of_two().trailing_zeros() as usize + 1;
        // equations the verifier checks between the parts of a proof
        let eqs = 2 * (lx + ly) + 7;
        let mut run = || {
            clear_oracle();
            draws("gen");
            let (pk, _) = nizk::generate_random_parameters::<SymE, _, _>(mk(), &mut SymRng).unwrap().keypair();
            let before = symeng::st().n_rnd_vars();
            let ctr = symeng::st().rng_ctr;
            let mut out = vec![];
            let mut dr: Vec<Vec<String>> = vec![];
            let mut extra = 0i64;
            for pre in ["rnd", "alt"] {
                let mut s = symeng::st();
                s.n_ch = before;
                s.rng_ctr = ctr;
                s.chal.clear();
                s.chal_log.clear();
                drop(s);
                draws(pre);
                let p = nizk::create_random_proof::<SymE, _, _>(&pk, mk(), v("r1cs_hash"), v("params_hash"), &mut SymRng).unwrap();
                let (o, bytes) = flat(&p.r1cs_satisfied_proof);
                extra = p.r1cs_satisfied_proof.serialized_size() as i64 - bytes as i64;
                out.push(o);
                let s = symeng::st();
                dr.push(
                    s.chal_log
                        .iter()
                        .filter_map(|c| match s.nodes[c.1 as usize] {
                            Node::Var(k) => Some(s.vars[k as usize].clone()),
                            _ => None,
                        })
                        .collect(),
                );
            }
            (out, dr, extra)
        };
        let e = run_once(vec![], &mut run);
        rep.assumed += e.assumed.len() as u64;
        let (out, dr, extra) = match &e.out {
            Out::Done(x) => x.clone(),
            o => {
                rep.inconclusive(&key, &format!("{:?}", o));
                continue;
            }
        };
        let d1: Vec<String> = dr[0].iter().filter(|n| n.starts_with("rnd")).cloned().collect();
        let d2: Vec<String> = dr[1].iter().filter(|n| n.starts_with("alt")).cloned().collect();
        let chs: Vec<String> = dr[0].iter().filter(|n| n.starts_with("ch")).cloned().collect();
        let vals = out[0].len();
        rep.log(&format!("{} draws, {} values, {} equations, {} challenges, {} unaccounted bytes", d1.len(), vals, eqs, chs.len(), extra));
        if d1.len() != d2.len() || d1.len() + eqs < vals || extra != 0 {
            rep.violation(
                &key,
                "a proof carries more values than its independent blinders and the verifier's equations account for",
                serde_json::json!({"draws": d1.len(), "values": vals, "equations": eqs, "unaccounted_bytes": extra}),
            );
            continue;
        }
        let gens: Vec<String> = (0..before_gens(&mk)).map(|i| format!("gen{}", i)).collect();
        let mut base: Vec<Fm> = chs.iter().chain(gens.iter()).map(|c| nef(v(c), SymF::zero())).collect();
        base.push(and(out[0].iter().zip(&out[1]).map(|(a, b)| eqf(*a, *b)).collect()));
        let mut open: Vec<usize> = (0..d1.len()).collect();
        let mut done: Vec<usize> = vec![];
        let mut progress = true;
        while progress && !open.is_empty() {
            progress = false;
            for j in open.clone() {
                let mut q: Vec<Fm> = done.iter().map(|k| eqf(v(&d1[*k]), v(&d2[*k]))).collect();
                q.push(nef(v(&d1[j]), v(&d2[j])));
                q.extend(base.iter().cloned());
                let q = and(q);
                let vd = try_expanded(&q, 60_000, &Default::default(), 5).unwrap_or(Verdict::Unknown("size".into()));
                if let Verdict::Unsat = vd {
                    rep.ok(&format!("{}/{}", key, j));
                    done.push(j);
                    open.retain(|x| *x != j);
                    progress = true;
                }
            }
        }
        if !open.is_empty() {
            let mut q: Vec<Fm> = done.iter().map(|k| eqf(v(&d1[*k]), v(&d2[*k]))).collect();
            q.push(or(open.iter().map(|j| nef(v(&d1[*j]), v(&d2[*j]))).collect()));
            q.extend(base.iter().cloned());
            let q = and(q);
            rep.must_be_unsat(
                &key,
                &q,
                "two different choices of the prover's randomness give the same masked values: they are not uniformly blinded",
                &mut |m| {
                    let r = replay_bound(m, &mut run);
                    match r.out {
                        Out::Done((o, _, _)) => Some(o[0].iter().zip(&o[1]).all(|(a, b)| a.as_const() == b.as_const())),
                        _ => None,
                    }
                },
            );
        }
    }
}
fn before_gens(mk: &dyn Fn() -> Circ<SymF>) -> u32 {
    let mut n = 0;
    run_once(vec![], &mut || {
        draws("gen");
        let _ = nizk::generate_random_parameters::<SymE, _, _>(mk(), &mut SymRng).unwrap();
        n = symeng::st().n_rnd_vars();
    });
    n
}
