use ark_ff::{Field, One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_serialize::CanonicalSerialize;
use symeng::*;
use zkp_hyrax as hy;
use zkp_libra as li;

fn v(n: &str) -> SymF {
    SymF::var(n)
}
fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut rep = Report::new(&id);
    rep.bound("scalar field and group order of BLS12-381; group elements as discrete logarithms");
    match id.as_str() {
        "L01" => l01(&mut rep),
        "L02" => l02(&mut rep),
        "L03" => l03(&mut rep),
        "L04" => l04(&mut rep),
        "H01" => h01(&mut rep),
        "H02" => h02(&mut rep),
        "H03" => h03(&mut rep),
        _ => panic!("unknown property"),
    }
    rep.finish()
}

// ------------------------------------------------------------------ circuits
#[derive(Clone)]
struct Cir {
    name: &'static str,
    ni: usize,
    na: usize,
    layers: Vec<Vec<(u8, usize, usize)>>,
}
fn cir(name: &'static str, ni: usize, na: usize, layers: &[&[(u8, usize, usize)]]) -> Cir {
    Cir { name, ni, na, layers: layers.iter().map(|l| l.to_vec()).collect() }
}
impl Cir {
    fn half(&self) -> usize {
        self.ni.max(self.na).next_power_of_two()
    }
    fn depth(&self) -> usize {
        self.layers.len() + 1
    }
    /// number of gates of layer `d` (0: inputs)
    fn count(&self, d: usize) -> usize {
        if d == 0 {
            2 * self.half()
        } else {
            self.layers[d - 1].len()
        }
    }
    fn bits(&self, d: usize) -> usize {
        self.count(d).next_power_of_two().trailing_zeros() as usize
    }
    fn eval(&self, x: &[SymF], w: &[SymF]) -> Vec<Vec<SymF>> {
        let mut l = vec![SymF::zero(); 2 * self.half()];
        l[..w.len()].copy_from_slice(w);
        l[self.half()..self.half() + x.len()].copy_from_slice(x);
        let mut o = vec![l];
        for g in &self.layers {
            let p = o.last().unwrap();
            let n = g.iter().map(|&(op, a, b)| if op == 0 { p[a] + p[b] } else { p[a] * p[b] }).collect();
            o.push(n);
        }
        o
    }
    fn libra(&self) -> li::circuit::Circuit {
        li::circuit::Circuit::new(self.ni, self.na, &self.layers)
    }
    fn hyrax(&self) -> hy::circuit::Circuit {
        hy::circuit::Circuit::new(self.ni, self.na, &self.layers)
    }
    fn x(&self, t: usize, s: &dyn Fn(&str) -> SymF) -> Vec<SymF> {
        scs(&format!("x{}_", t), self.ni, s)
    }
    fn w(&self, t: usize, s: &dyn Fn(&str) -> SymF) -> Vec<SymF> {
        scs(&format!("w{}_", t), self.na, s)
    }
}
fn circuits(th: bool) -> Vec<Cir> {
    let mut r = vec![
        cir("one gate", 1, 1, &[&[(1, 0, 1)]]),
        cir("one sum", 1, 1, &[&[(0, 1, 0)]]),
        cir("two layers", 2, 2, &[&[(0, 0, 2), (1, 1, 3)], &[(1, 0, 1)]]),
        cir("mixed layers", 2, 2, &[&[(0, 0, 2), (1, 1, 3)], &[(1, 0, 1), (0, 0, 1)]]),
        cir("two outputs", 1, 1, &[&[(1, 0, 1), (0, 0, 0)]]),
        cir("fewer inputs than witnesses", 1, 2, &[&[(1, 0, 2), (0, 1, 2)], &[(1, 0, 1)]]),
        cir("fewer witnesses than inputs", 2, 1, &[&[(1, 0, 2), (0, 3, 2)], &[(0, 0, 1)]]),
        cir("three inputs, three witnesses", 3, 3, &[&[(1, 0, 4), (0, 1, 6)], &[(1, 0, 1)]]),
        cir("three inner gates", 2, 2, &[&[(0, 0, 1), (1, 1, 2), (1, 3, 3)], &[(0, 0, 2), (1, 1, 2)]]),
        cir("three outputs", 1, 1, &[&[(1, 0, 1), (0, 1, 1), (1, 1, 1)]]),
        cir("single inner gate", 1, 1, &[&[(1, 0, 1)], &[(1, 0, 0)]]),
        cir("widening", 1, 1, &[&[(1, 0, 1), (0, 0, 1), (1, 1, 1), (0, 0, 0)]]),
        cir("no public input", 0, 2, &[&[(1, 0, 1), (0, 1, 1)], &[(0, 0, 1)]]),
        cir("three layers", 4, 4, &[&[(0, 1, 2), (1, 0, 4), (1, 3, 4), (1, 4, 4)], &[(1, 0, 1), (1, 2, 3)], &[(0, 0, 1)]]),
    ];
    if th {
        r.push(cir(
            "the repository's test circuit",
            8,
            8,
            &[
                &[(1, 0, 1), (0, 2, 3), (0, 4, 5), (1, 6, 7), (1, 15, 8), (1, 9, 10), (0, 11, 12), (0, 13, 14)],
                &[(1, 0, 1), (0, 2, 3), (0, 4, 5), (1, 6, 7)],
                &[(0, 0, 1), (0, 1, 2), (1, 2, 3), (1, 1, 3)],
            ],
        ));
        r.push(cir("four layers", 2, 3, &[&[(1, 0, 4), (0, 1, 5), (1, 2, 2)], &[(1, 0, 2), (0, 1, 1)], &[(1, 0, 1)], &[(1, 0, 0), (0, 0, 0)]]));
        r.push(cir("five inputs", 5, 2, &[&[(1, 0, 8), (0, 1, 12), (1, 9, 10), (0, 11, 0), (1, 3, 8)], &[(1, 0, 4), (0, 1, 2), (1, 3, 3)]]));
    }
    r
}

// ------------------------------------------------------------------- helpers
/// eq(r, i) with r[0] the most significant bit of i
fn eqi(r: &[SymF], i: usize) -> SymF {
    let n = r.len();
    let mut p = SymF::one();
    for j in 0..n {
        p *= if (i >> (n - 1 - j)) & 1 == 1 { r[j] } else { SymF::one() - r[j] };
    }
    p
}
fn mle(vals: &[SymF], r: &[SymF]) -> SymF {
    let mut s = SymF::zero();
    for (i, x) in vals.iter().enumerate() {
        s += *x * eqi(r, i);
    }
    s
}
fn eqv(a: &[SymF], b: &[SymF]) -> SymF {
    let mut p = SymF::one();
    for (x, y) in a.iter().zip(b) {
        p *= *x * *y + (SymF::one() - *x) * (SymF::one() - *y);
    }
    p
}
fn scs(pre: &str, n: usize, s: &dyn Fn(&str) -> SymF) -> Vec<SymF> {
    (0..n).map(|i| s(&format!("{}{}", pre, i))).collect()
}
fn pts(pre: &str, n: usize, s: &dyn Fn(&str) -> SymF) -> Vec<G1A> {
    scs(pre, n, s).into_iter().map(G1A::of).collect()
}
fn lg(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}
/// the challenges in the order the protocol draws them
struct Ch(usize);
impl Ch {
    fn n(&mut self) -> SymF {
        self.0 += 1;
        v(&format!("ch{}", self.0 - 1))
    }
    fn many(&mut self, k: usize) -> Vec<SymF> {
        (0..k).map(|_| self.n()).collect()
    }
}
/// values of the wiring predicates (add, mul)
fn wiring(gates: &[(u8, usize, usize)], gu: &[SymF], gv: &[SymF], ru: &[SymF], rv: &[SymF], a: SymF, b: SymF) -> (SymF, SymF) {
    let mut o = [SymF::zero(), SymF::zero()];
    for (g, &(op, l, r)) in gates.iter().enumerate() {
        o[op as usize] += eqi(ru, l) * eqi(rv, r) * (a * eqi(gu, g) + b * eqi(gv, g));
    }
    (o[0], o[1])
}

// ------------------------------------------------------------------------ L01
fn l01(rep: &mut Report) {
    for f in ["libra/hyrax Circuit::new", "Circuit::evaluate", "Layer::eval_operators", "eval_eq", "eval_eq_x_y", "eval_value", "combine_with_r", "eval_output", "eval_outputs", "convert_to_bit", "eval_hg", "eval_fgu", "initialize_phase_one", "initialize_phase_two"] {
        rep.function(f);
    }
    for c in circuits(true) {
        rep.bound(&format!("circuit '{}': {} inputs, {} witnesses, layers {:?}", c.name, c.ni, c.na, c.layers.iter().map(|l| l.len()).collect::<Vec<_>>()));
        for hyrax in [false, true] {
            rep.must_hold(&format!("L01/{}/{}", if hyrax { "hyrax" } else { "libra" }, c.name), "the circuit's evaluation is not that of its gates", &mut || {
                let (x, w) = (c.x(0, &v), c.w(0, &v));
                let mut got = if hyrax { c.hyrax().evaluate::<SymE>(&x, &w).unwrap() } else { c.libra().evaluate::<SymE>(&x, &w).unwrap() };
                if hyrax {
                    got.reverse();
                }
                let want = c.eval(&x, &w);
                assert_eq!(got.len(), want.len());
                let mut o = vec![];
                for (g, h) in got.iter().zip(&want) {
                    assert!(g.len() >= h.len());
                    for i in 0..g.len() {
                        o.push((g[i], h.get(i).cloned().unwrap_or_else(SymF::zero)));
                    }
                }
                o
            });
        }
        // wiring predicates of each layer, and the tables of the two phases
        let ci = c.clone();
        for d in 1..c.depth() {
            let (bg, bn) = (c.bits(d), c.bits(d - 1));
            rep.must_hold(&format!("L01/wiring/{}/{}", c.name, d), "the wiring predicates' evaluation is not their defining sum", &mut || {
                let (gu, gv, ru, rv) = (scs("gu", bg, &v), scs("gv", bg, &v), scs("ru", bn, &v), scs("rv", bn, &v));
                let (a, b) = (v("alpha"), v("beta"));
                let circuit = ci.libra();
                let got = circuit.layers[d].eval_operators::<SymE>(&gu, &gv, &ru, &rv, a, b);
                let gates = &ci.layers[d - 1];
                let want = wiring(gates, &gu, &gv, &ru, &rv, a, b);
                let mut o = vec![(got.0, want.0), (got.1, want.1)];
                // phase one: h(x) = sum over gates and y
                let vals = scs("v", 1 << bn, &v);
                let (m, a1, a2) = li::libra_linear_gkr::initialize_phase_one::<SymE>(&gu, &gv, &circuit.layers[d].gates, &vals, bn, a, b);
                let (m2, ad2, fu) = li::libra_linear_gkr::initialize_phase_two::<SymE>(&gu, &gv, &ru, &circuit.layers[d].gates, &vals, bn, a, b);
                o.push((fu, mle(&vals, &ru)));
                for x in 0..1usize << bn {
                    let (mut wm, mut w1, mut w2, mut pm, mut pa) = (SymF::zero(), SymF::zero(), SymF::zero(), SymF::zero(), SymF::zero());
                    for (g, &(op, l, r)) in gates.iter().enumerate() {
                        let e = a * eqi(&gu, g) + b * eqi(&gv, g);
                        if l == x && op == 1 {
                            wm += e * vals[r];
                        }
                        if l == x && op == 0 {
                            w1 += e;
                            w2 += e * vals[r];
                        }
                        if r == x && op == 1 {
                            pm += e * eqi(&ru, l);
                        }
                        if r == x && op == 0 {
                            pa += e * eqi(&ru, l);
                        }
                    }
                    o.extend([(m[x], wm), (a1[x], w1), (a2[x], w2), (m2[x], pm), (ad2[x], pa)]);
                }
                o
            });
        }
    }
    let top = if rep.thorough { 6 } else { 4 };
    rep.bound(&format!("evaluation helpers up to {} variables", top));
    for n in 0..=top {
        rep.must_hold(&format!("L01/helpers/{}", n), "a multilinear helper does not compute the extension", &mut || {
            let (r, q) = (scs("r", n, &v), scs("q", n, &v));
            let mut o = vec![];
            let (t1, t2) = (li::evaluate::eval_eq::<SymE>(&r), hy::evaluate::eval_eq::<SymE>(&r));
            assert!(t1.len() == 1 << n && t2.len() == 1 << n);
            for i in 0..1 << n {
                o.push((t1[i], eqi(&r, i)));
                o.push((t2[i], eqi(&r, i)));
                let b = hy::evaluate::convert_to_bit::<SymE>(i, n);
                assert_eq!(b.len(), n);
                for j in 0..n {
                    o.push((b[j], SymF::from(((i >> (n - 1 - j)) & 1) as u64)));
                }
            }
            o.push((li::evaluate::eval_eq_x_y::<SymE>(&r, &q), eqv(&r, &q)));
            o.push((hy::evaluate::eval_eq_x_y::<SymE>(&r, &q), eqv(&r, &q)));
            for k in [0, 1, (1usize << n) - 1, 1 << n] {
                let a = scs("a", k, &v);
                o.push((li::evaluate::eval_value::<SymE>(&a, &r), mle(&a, &r)));
                o.push((hy::evaluate::eval_value::<SymE>(&a, &r), mle(&a, &r)));
            }
            if n > 0 {
                let (a, x) = (scs("a", 1 << n, &v), v("x"));
                let h = 1 << (n - 1);
                let (c, d) = (li::evaluate::combine_with_r::<SymE>(&a, x), hy::evaluate::combine_with_r::<SymE>(&a, x));
                assert!(c.len() == h && d.len() == h);
                for i in 0..h {
                    let want = a[i] * (SymF::one() - x) + a[i + h] * x;
                    o.extend([(c[i], want), (d[i], want)]);
                }
            }
            o
        });
    }
    for (n, k) in [(0usize, 1usize), (1, 1), (1, 2), (2, 3), (2, 4)] {
        rep.must_hold(&format!("L01/outputs/{}_{}", n, k), "the claimed outputs' extension is wrong", &mut || {
            clear_oracle();
            draws("ch");
            let o1 = scs("o", k, &v);
            let mut t = merlin::Transcript::new(b"t");
            let (e, r) = li::evaluate::eval_output::<SymE>(&o1, n, &mut t);
            assert_eq!(r.len(), n);
            let mut o = vec![(e, mle(&o1, &r))];
            for inst in [1usize, 2, 4] {
                let os: Vec<Vec<SymF>> = (0..inst).map(|t| scs(&format!("o{}_", t), k, &v)).collect();
                let (e, qa, q) = hy::evaluate::eval_outputs::<SymE>(&os, &mut t);
                assert!(qa.len() == lg(inst) && q.len() == lg(k));
                let mut w = SymF::zero();
                for (i, x) in os.iter().enumerate() {
                    w += mle(x, &q) * eqi(&qa, i);
                }
                o.push((e, w));
            }
            o
        });
    }
}

// ---------------------------------------------------------------- honest runs
fn l02(rep: &mut Report) {
    for f in ["LinearGKRProof::prover/verify", "SumCheckProof::phase_one_prover / phase_two_prover", "ZKLinearGKRProof::prover/verify", "ZKSumCheckProof", "SumCheckEvalProof", "ProductProof", "EqProof", "LogDotProductProof", "BulletReduceProof", "packing_poly_commit", "Parameters::new"] {
        rep.function(f);
    }
    rep.fix_order = vec![vec!["gen"], vec!["gen", "rnd"], vec!["gen", "rnd", "ch"]];
    for c in circuits(rep.thorough) {
        rep.bound(&format!("circuit '{}': {} inputs, {} witnesses, layers {:?}", c.name, c.ni, c.na, c.layers.iter().map(|l| l.len()).collect::<Vec<_>>()));
        rep.must_accept(&format!("L02/plain/{}", c.name), "an honest Libra proof is rejected", &mut || {
            clear_oracle();
            draws("ch");
            let (x, w) = (c.x(0, &v), c.w(0, &v));
            let (p, out) = li::libra_linear_gkr::LinearGKRProof::<SymE>::prover(&c.libra(), &x, &w, v("hash"));
            let e = c.eval(&x, &w);
            assert!(out.len() == e.last().unwrap().len());
            p.verify(&c.libra(), &out, &e[0], v("hash")) && out.iter().zip(e.last().unwrap()).all(|(a, b)| a == b)
        });
        rep.must_accept(&format!("L02/zk/{}", c.name), "an honest zero-knowledge Libra proof is rejected", &mut || {
            clear_oracle();
            draws("gen");
            let pp = li::params::Parameters::<SymE>::new(&mut SymRng, lg(c.half()));
            draws("rnd");
            let (x, w) = (c.x(0, &v), c.w(0, &v));
            let (p, out) = li::libra_zk_linear_gkr::ZKLinearGKRProof::<SymE>::prover(&pp, &c.libra(), &x, &w, v("hash"), v("phash"), &mut SymRng);
            let e = c.eval(&x, &w);
            assert!(out.len() == e.last().unwrap().len());
            p.verify(&pp, &c.libra(), &out, &x, v("hash"), v("phash")) && out.iter().zip(e.last().unwrap()).all(|(a, b)| a == b)
        });
    }
}
fn h01(rep: &mut Report) {
    for f in ["HyraxProof::prover/verify", "ZkSumcheckProof::prover/verify/sumcheck_prover/sumcheck_verify", "construct_matrix", "ProductProof", "EqProof", "LogDotProductProof", "BulletReduceProof", "packing_poly_commit", "Parameters::new"] {
        rep.function(f);
    }
    rep.fix_order = vec![vec!["gen"], vec!["gen", "rnd"], vec!["gen", "rnd", "ch"]];
    for c in circuits(rep.thorough) {
        for n in if rep.thorough || c.name == "one gate" || c.name == "two outputs" { vec![1, 2, 4] } else if c.half() > 2 { vec![2] } else { vec![1, 2] } {
            rep.bound(&format!("circuit '{}' with {} instances: {} inputs, {} witnesses, layers {:?}", c.name, n, c.ni, c.na, c.layers.iter().map(|l| l.len()).collect::<Vec<_>>()));
            rep.must_accept(&format!("H01/{}/{}", c.name, n), "an honest Hyrax proof is rejected", &mut || {
                clear_oracle();
                draws("gen");
                let pp = hy::params::Parameters::<SymE>::new(&mut SymRng, lg(c.half()) + lg(n));
                draws("rnd");
                let x: Vec<_> = (0..n).map(|t| c.x(t, &v)).collect();
                let w: Vec<_> = (0..n).map(|t| c.w(t, &v)).collect();
                let (p, out) = hy::hyrax_proof::HyraxProof::<SymE>::prover(&pp, &w, &x, &c.hyrax(), v("hash"), v("phash"), n, &mut SymRng);
                let mut ok = true;
                for t in 0..n {
                    let e = c.eval(&x[t], &w[t]);
                    assert!(out[t].len() == e.last().unwrap().len());
                    ok &= out[t].iter().zip(e.last().unwrap()).all(|(a, b)| a == b);
                }
                p.verify(&pp, &out, &x, &c.hyrax(), v("hash"), v("phash")) && ok
            });
        }
    }
}

// ----------------------------------------------------------------- verifiers
type S<'a> = &'a dyn Fn(&str) -> SymF;
/// deviations of a proof's shape from the honest one
#[derive(Clone, Copy, PartialEq, Default, Debug)]
struct Dev {
    deg: i64,    // coefficients of a plain round polynomial
    open: i64,   // rounds of the input openings
    layers: i64, // layer proofs
    rounds: i64, // rounds of the sum-checks
    outs: i64,   // number of claimed outputs
}
fn addi(n: usize, d: i64) -> usize {
    (n as i64 + d).max(0) as usize
}

/// opening of a committed multilinear polynomial at `r`: commitment `cv` to the value
fn ip_spec(cs: &mut Vec<Fm>, ch: &mut Ch, pre: &str, rows: &dyn Fn(usize) -> SymF, r: &[SymF], cv: SymF, s: S) {
    let p = |q: &str| s(&format!("{}{}", pre, q));
    let (hi, lo) = r.split_at(r.len() / 2);
    let lg = lo.len();
    let mut gamma = cv;
    for i in 0..1 << hi.len() {
        gamma += eqi(hi, i) * rows(i);
    }
    let xs = ch.many(lg);
    for j in 0..lg {
        cs.push(nef(xs[j], SymF::zero()));
        let i = xs[j].inv_unchecked();
        gamma += xs[j] * xs[j] * p(&format!("L{}", j)) + i * i * p(&format!("R{}", j));
    }
    let c = ch.n();
    let (mut gh, mut bh) = (SymF::zero(), SymF::zero());
    for i in 0..1usize << lg {
        let mut w = SymF::one();
        for j in 0..lg {
            w *= if (i >> (lg - 1 - j)) & 1 == 1 { xs[j] } else { xs[j].inv_unchecked() };
        }
        gh += w * s(&format!("G{}", i));
        bh += w * eqi(lo, i);
    }
    cs.push(eqf((gamma * c + p("delta_b")) * bh + p("delta_d"), (gh + s("g0") * bh) * p("z1") + s("h") * p("z2")));
}
fn prod_spec(cs: &mut Vec<Fm>, ch: &mut Ch, pre: &str, x: SymF, y: SymF, z: SymF, s: S) {
    let p = |q: &str| s(&format!("{}{}", pre, q));
    let (g, h) = (s("g0"), s("h"));
    let c = ch.n();
    cs.push(eqf(p("pa") + c * x, g * p("pz0") + h * p("pz1")));
    cs.push(eqf(p("pb") + c * y, g * p("pz2") + h * p("pz3")));
    cs.push(eqf(p("pd") + c * z, x * p("pz2") + h * p("pz4")));
}
fn eq_spec(cs: &mut Vec<Fm>, ch: &mut Ch, pre: &str, a: SymF, b: SymF, s: S) {
    let c = ch.n();
    cs.push(eqf(s("h") * s(&format!("{}z", pre)), c * (a - b) + s(&format!("{}a", pre))));
}
/// both evaluations of the input layer: committed witnesses, public inputs
fn inputs_spec(cs: &mut Vec<Fm>, ch: &mut Ch, pubs: &[SymF], pre: &[SymF], pts: [&[SymF]; 2], xy: [SymF; 2], s: S) {
    for k in 0..2 {
        let r = [pre, &pts[k][1..]].concat();
        let cy = s(&format!("o{}y", k));
        ip_spec(cs, ch, &format!("o{}", k), &|i| s(&format!("W{}", i)), &r, cy, s);
        let z = (SymF::one() - pts[k][0]) * cy + pts[k][0] * mle(pubs, &r) * s("g0");
        eq_spec(cs, ch, &format!("oe{}", k), xy[k], z, s);
    }
}
macro_rules! builders {
    ($m:ident, $k:ident) => {
        mod $m {
            use super::*;
            use $k::commitment::*;
            use $k::params::*;
            pub fn multi(pre: &str, n: usize, h: &str, s: S) -> MultiCommitmentSetupParameters<SymE> {
                MultiCommitmentSetupParameters { n, generators: pts(pre, n, s), h: G1A::of(s(h)) }
            }
            pub fn params(l: usize, s: S) -> Parameters<SymE> {
                let n = 1 << (l - l / 2);
                Parameters {
                    pc_params: PolyCommitmentSetupParameters { n, gen_n: multi("G", n, "h", s), gen_1: multi("g", 1, "h", s) },
                    sc_params: SumCheckCommitmentSetupParameters { gen_1: multi("g", 1, "h", s), gen_3: multi("g3_", 3, "h3", s), gen_4: multi("g4_", 4, "h4", s) },
                }
            }
            pub fn eq(pre: &str, s: S) -> EqProof<SymE> {
                EqProof { alpha: G1A::of(s(&format!("{}a", pre))), z: s(&format!("{}z", pre)) }
            }
            pub fn prod(pre: &str, s: S) -> ProductProof<SymE> {
                let a = |q: &str| G1A::of(s(&format!("{}{}", pre, q)));
                ProductProof { comm_alpha: a("pa"), comm_beta: a("pb"), comm_delta: a("pd"), z: scs(&format!("{}pz", pre), 5, s) }
            }
            pub fn dot(pre: &str, rounds: usize, s: S) -> LogDotProductProof<SymE> {
                let p = |q: &str| s(&format!("{}{}", pre, q));
                LogDotProductProof {
                    bullet_reduce_proof: BulletReduceProof { l_vec: pts(&format!("{}L", pre), rounds, s), r_vec: pts(&format!("{}R", pre), rounds, s) },
                    delta: G1A::of(p("delta_d")),
                    beta: G1A::of(p("delta_b")),
                    z1: p("z1"),
                    z2: p("z2"),
                }
            }
        }
    };
}
builders!(bl, li);
builders!(bh, hy);

// -- Libra, plain
fn plain_run(c: &Cir, dv: Dev, s: S) -> bool {
    use li::libra_linear_gkr::*;
    use li::sumcheck::SumCheckProof;
    let poly = |n: String| DensePolynomial { coeffs: scs(&n, addi(3, dv.deg), s) };
    let proofs = (0..addi(c.depth() - 1, dv.layers))
        .map(|d| {
            let b = if d + 2 <= c.depth() { addi(c.bits(c.depth() - d - 2), dv.rounds) } else { 1 };
            LayerProof {
                proof_phase_one: SumCheckProof { polys: (0..b).map(|i| poly(format!("p{}_{}_", d, i))).collect(), poly_value_at_r: scs(&format!("e{}_", d), 4, s) },
                proof_phase_two: SumCheckProof { polys: (0..b).map(|i| poly(format!("q{}_{}_", d, i))).collect(), poly_value_at_r: scs(&format!("f{}_", d), 3, s) },
            }
        })
        .collect();
    let p = LinearGKRProof::<SymE> { proofs };
    p.verify(&c.libra(), &scs("out", addi(c.count(c.depth() - 1), dv.outs), s), &scs("in", c.count(0), s), s("hash"))
}
fn poly_at(c: &[SymF], x: SymF) -> SymF {
    let mut r = SymF::zero();
    for (k, q) in c.iter().enumerate() {
        r += *q * x.pow([k as u64]);
    }
    r
}
fn plain_spec(c: &Cir, dv: Dev, s: S) -> Fm {
    if dv != (Dev { outs: dv.outs, ..Dev::default() }) || dv.outs > 0 {
        return Fm::False;
    }
    let mut cs = vec![];
    let ch = &mut Ch(0);
    let top = c.depth() - 1;
    let q = ch.many(c.bits(top));
    let mut claim = mle(&scs("out", addi(c.count(top), dv.outs), s), &q);
    let (mut gu, mut gv) = (q.clone(), q);
    let (mut a, mut b) = (SymF::one(), SymF::zero());
    for d in 0..top {
        let n = c.bits(top - d - 1);
        let (e, f) = (scs(&format!("e{}_", d), 4, s), scs(&format!("f{}_", d), 3, s));
        let mut pt = vec![];
        for ph in ["p", "q"] {
            let mut r = vec![];
            for i in 0..n {
                let p = scs(&format!("{}{}_{}_", ph, d, i), 3, s);
                cs.push(eqf(poly_at(&p, SymF::zero()) + poly_at(&p, SymF::one()), claim));
                let x = ch.n();
                claim = poly_at(&p, x);
                r.push(x);
            }
            if ph == "p" {
                cs.push(eqf(claim, e[0] * e[1] + e[0] * e[2] + e[3]));
            }
            pt.push(r);
        }
        let (add, mul) = wiring(&c.layers[top - d - 1], &gu, &gv, &pt[0], &pt[1], a, b);
        cs.push(eqf(f[1], mul));
        cs.push(eqf(f[2], add));
        cs.push(eqf(claim, f[1] * e[0] * f[0] + f[2] * (e[0] + f[0])));
        gu = pt[0].clone();
        gv = pt[1].clone();
        if d + 1 < top {
            a = ch.n();
            b = ch.n();
            claim = a * e[0] + b * f[0];
        } else {
            let inp = scs("in", c.count(0), s);
            cs.push(eqf(e[0], mle(&inp, &gu)));
            cs.push(eqf(f[0], mle(&inp, &gv)));
        }
    }
    and(cs)
}
// -- Libra, zero knowledge
fn zk_run(c: &Cir, dv: Dev, s: S) -> bool {
    use li::libra_zk_linear_gkr::*;
    use li::sumcheck::*;
    let a = |n: String| G1A::of(s(&n));
    let sc = |pre: String, rounds: usize| ZKSumCheckProof::<SymE> {
        comm_polys: pts(&format!("{}P", pre), rounds, s),
        comm_evals: pts(&format!("{}E", pre), rounds, s),
        proofs: (0..rounds)
            .map(|i| SumCheckEvalProof {
                d_commit: a(format!("{}D{}", pre, i)),
                dot_cd_commit: a(format!("{}B{}", pre, i)),
                z: scs(&format!("{}z{}_", pre, i), addi(3, dv.deg), s),
                z_delta: s(&format!("{}zd{}", pre, i)),
                z_beta: s(&format!("{}zb{}", pre, i)),
            })
            .collect(),
    };
    let proofs = (0..addi(c.depth() - 1, dv.layers))
        .map(|d| {
            let b = if d + 2 <= c.depth() { addi(c.bits(c.depth() - d - 2), dv.rounds) } else { 1 };
            ZKLayerProof {
                proof_phase_one: sc(format!("p{}_", d), b),
                proof_phase_two: sc(format!("q{}_", d), b),
                comm_x: a(format!("X{}", d)),
                comm_y: a(format!("Y{}", d)),
                comm_z: a(format!("Z{}", d)),
                prod_proof: bl::prod(&format!("m{}", d), s),
                eq_proof: bl::eq(&format!("le{}", d), s),
            }
        })
        .collect();
    let l = lg(c.half());
    let op = addi(l - l / 2, dv.open);
    let p = ZKLinearGKRProof::<SymE> {
        comm_witness: pts("W", 1 << (l / 2), s),
        proofs,
        prod_proof0: bl::dot("o0", op, s),
        comm_y0: a("o0y".into()),
        eq_proof0: bl::eq("oe0", s),
        prod_proof1: bl::dot("o1", op, s),
        comm_y1: a("o1y".into()),
        eq_proof1: bl::eq("oe1", s),
    };
    p.verify(&bl::params(l, s), &c.libra(), &scs("out", addi(c.count(c.depth() - 1), dv.outs), s), &c.x(0, s), s("hash"), s("phash"))
}
fn zk_spec(c: &Cir, dv: Dev, s: S) -> Fm {
    if dv != (Dev { outs: dv.outs, ..Dev::default() }) || dv.outs > 0 {
        return Fm::False;
    }
    let mut cs = vec![];
    let ch = &mut Ch(0);
    let top = c.depth() - 1;
    let q = ch.many(c.bits(top));
    let mut claim = s("g0") * mle(&scs("out", addi(c.count(top), dv.outs), s), &q);
    let (mut gu, mut gv) = (q.clone(), q);
    let (mut al, mut be) = (SymF::one(), SymF::zero());
    for d in 0..top {
        let n = c.bits(top - d - 1);
        let mut pt = vec![];
        for ph in ["p", "q"] {
            let pre = format!("{}{}_", ph, d);
            let mut r = vec![];
            for i in 0..n {
                let p = |q: &str| s(&format!("{}{}{}", pre, q, i));
                let (ri, w0, w1, cc) = (ch.n(), ch.n(), ch.n(), ch.n());
                let z = scs(&format!("{}z{}_", pre, i), 3, s);
                let mut lin = s("h3") * p("zd");
                for k in 0..3 {
                    lin += z[k] * s(&format!("g3_{}", k));
                }
                let sum = poly_at(&z, SymF::zero()) + poly_at(&z, SymF::one());
                cs.push(eqf(cc * p("P") + p("D"), lin));
                cs.push(eqf(cc * (w0 * claim + w1 * p("E")) + p("B"), s("g0") * (w0 * sum + w1 * poly_at(&z, ri)) + s("h") * p("zb")));
                r.push(ri);
                claim = p("E");
            }
            pt.push(r);
        }
        let (x, y, z) = (s(&format!("X{}", d)), s(&format!("Y{}", d)), s(&format!("Z{}", d)));
        prod_spec(&mut cs, ch, &format!("m{}", d), x, y, z, s);
        let (add, mul) = wiring(&c.layers[top - d - 1], &gu, &gv, &pt[0], &pt[1], al, be);
        eq_spec(&mut cs, ch, &format!("le{}", d), (x + y) * add + z * mul, claim, s);
        gu = pt[0].clone();
        gv = pt[1].clone();
        if d + 1 < top {
            al = ch.n();
            be = ch.n();
            claim = al * x + be * y;
        } else {
            inputs_spec(&mut cs, ch, &c.x(0, s), &[], [&gu, &gv], [x, y], s);
        }
    }
    and(cs)
}
// -- Hyrax
fn hy_run(c: &Cir, n: usize, dv: Dev, s: S) -> bool {
    use hy::hyrax_proof::*;
    use hy::zk_sumcheck_proof::*;
    let a = |n: String| G1A::of(s(&n));
    let ln = lg(n);
    let proofs = (0..addi(c.depth() - 1, dv.layers))
        .map(|d| {
            let b = if d + 2 <= c.depth() { c.bits(c.depth() - d - 2) } else { 1 };
            let rounds = addi(ln + 2 * b, dv.rounds);
            let nz = 4 * ln + 3 * (rounds.max(ln) - ln);
            ZkSumcheckProof::<SymE> {
                prod_proof: bh::prod(&format!("m{}", d), s),
                comm_a0: a(format!("A{}", d)),
                comm_c: a(format!("C{}", d)),
                comm_x: a(format!("X{}", d)),
                comm_y: a(format!("Y{}", d)),
                comm_z: a(format!("Z{}", d)),
                comm_polys: pts(&format!("P{}_", d), rounds, s),
                comm_evals: pts(&format!("E{}_", d), rounds, s),
                comm_deltas: pts(&format!("D{}_", d), rounds, s),
                z_vec: scs(&format!("z{}_", d), nz, s),
                z_delta_vec: scs(&format!("zd{}_", d), rounds, s),
                zc: s(&format!("zc{}", d)),
            }
        })
        .collect();
    let l = lg(c.half()) + ln;
    let op = addi(l - l / 2, dv.open);
    let p = HyraxProof::<SymE> {
        comm_witness: pts("W", 1 << (l / 2), s),
        proofs,
        prod_proof0: bh::dot("o0", op, s),
        comm_y0: a("o0y".into()),
        eq_proof0: bh::eq("oe0", s),
        prod_proof1: bh::dot("o1", op, s),
        comm_y1: a("o1y".into()),
        eq_proof1: bh::eq("oe1", s),
    };
    let outs: Vec<_> = (0..n).map(|t| scs(&format!("out{}_", t), addi(c.count(c.depth() - 1), dv.outs), s)).collect();
    let x: Vec<_> = (0..n).map(|t| c.x(t, s)).collect();
    p.verify(&bh::params(l, s), &outs, &x, &c.hyrax(), s("hash"), s("phash"))
}
fn hy_spec(c: &Cir, n: usize, dv: Dev, s: S) -> Fm {
    let top = c.depth() - 1;
    let outs = addi(c.count(top), dv.outs);
    // missing claimed outputs count as zero, if the number of output bits stays
    if dv != (Dev { outs: dv.outs, ..Dev::default() }) || lg(outs) != c.bits(top) {
        return Fm::False;
    }
    let mut cs = vec![];
    let ch = &mut Ch(0);
    let ln = lg(n);
    let q = ch.many(c.bits(top));
    let mut qa = ch.many(ln);
    let mut claim = SymF::zero();
    for t in 0..n {
        claim += s("g0") * mle(&scs(&format!("out{}_", t), outs, s), &q) * eqi(&qa, t);
    }
    let (mut gu, mut gv) = (q.clone(), q);
    let (mut u0, mut u1) = (SymF::one(), SymF::zero());
    for d in 0..top {
        let b = c.bits(top - d - 1);
        let rounds = ln + 2 * b;
        let a = |q: &str| s(&format!("{}{}", q, d));
        let r = ch.many(rounds);
        let (rs, ru, rv) = (&r[..ln], &r[ln..ln + b], &r[ln + b..]);
        let (x, y, z) = (a("X"), a("Y"), a("Z"));
        prod_spec(&mut cs, ch, &format!("m{}", d), x, y, z, s);
        let rou = ch.many(rounds + 1);
        let c2 = ch.n();
        let zv = scs(&format!("z{}_", d), 4 * ln + 6 * b, s);
        let poly = |j: usize| if j < ln { &zv[4 * j..4 * j + 4] } else { &zv[4 * ln + 3 * (j - ln)..4 * ln + 3 * (j - ln) + 3] };
        // <j, z>: every round's sum minus the previous round's value
        let mut jz = SymF::zero();
        for j in 0..rounds {
            let (p, g, h) = (poly(j), if j < ln { "g4_" } else { "g3_" }, if j < ln { "h4" } else { "h3" });
            let mut lin = s(h) * s(&format!("zd{}_{}", d, j));
            for (k, w) in p.iter().enumerate() {
                lin += *w * s(&format!("{}{}", g, k));
            }
            cs.push(eqf(c2 * s(&format!("P{}_{}", d, j)) + s(&format!("D{}_{}", d, j)), lin));
            jz += rou[j] * (poly_at(p, SymF::zero()) + poly_at(p, SymF::one())) - rou[j + 1] * poly_at(p, r[j]);
        }
        let (add, mul) = wiring(&c.layers[top - d - 1], &gu, &gv, ru, rv, u0, u1);
        let e = eqv(&qa, rs);
        let left = rou[0] * claim - rou[rounds] * e * (add * (x + y) + mul * z);
        cs.push(eqf(c2 * left + a("C"), s("g0") * jz + s("h") * a("zc")));
        // the layer's claim is the one carried over
        cs.push(eqf(a("A"), claim));
        gu = ru.to_vec();
        gv = rv.to_vec();
        qa = rs.to_vec();
        if d + 1 < top {
            u0 = ch.n();
            u1 = ch.n();
            claim = u0 * x + u1 * y;
        } else {
            let mut pubs = vec![SymF::zero(); n * c.half()];
            for t in 0..n {
                for (i, w) in c.x(t, s).into_iter().enumerate() {
                    pubs[t * c.half() + i] = w;
                }
            }
            inputs_spec(&mut cs, ch, &pubs, &qa, [&gu, &gv], [x, y], s);
        }
    }
    and(cs)
}
fn by_name(n: &str) -> Cir {
    circuits(true).into_iter().find(|c| c.name == n).unwrap()
}
const NZ: &[&str] = &["ch", "p*_0", "q*_0"];
const D0: Dev = Dev { deg: 0, open: 0, layers: 0, rounds: 0, outs: 0 };

fn l03(rep: &mut Report) {
    for f in ["LinearGKRProof::verify", "ZKLinearGKRProof::verify", "SumCheckEvalProof::verify", "ProductProof::verify", "EqProof::verify", "LogDotProductProof::reduce_verifier/verify", "BulletReduceProof::verify", "Layer::eval_operators", "Parameters::param_to_hash", "Transcript (challenge derivation)"] {
        rep.function(f);
    }
    let mut names = vec!["one gate", "two layers", "two outputs", "fewer witnesses than inputs", "single inner gate", "widening", "three outputs"];
    if rep.thorough {
        names.extend(["one sum", "fewer inputs than witnesses", "three inputs, three witnesses", "three inner gates", "no public input", "three layers", "four layers"]);
    }
    for n in &names {
        let c = by_name(n);
        rep.bound(&format!("circuit '{}': every proof element, claimed output, public input and generator arbitrary", n));
        // evaluating a polynomial branches on its being zero and on the point
        let free = c.layers.len() == 1 && c.count(1) == 1;
        if !free {
            rep.bound(&format!("plain proofs for circuit '{}': challenges and constant coefficients of round polynomials nonzero", n));
        }
        rep.verifier_equiv(&format!("L03/plain/{}", n), 3000, true, &mut |slot| {
            clear_oracle();
            draws("ch");
            *slot = Some(generic(|| plain_spec(&c, D0, &v)));
            assume_nonzero(if free { &[] } else { NZ });
            plain_run(&c, D0, &v)
        });
        assume_nonzero(&[]);
        rep.verifier_equiv(&format!("L03/zk/{}", n), 3000, true, &mut |slot| {
            clear_oracle();
            draws("ch");
            *slot = Some(generic(|| zk_spec(&c, D0, &v)));
            zk_run(&c, D0, &v)
        });
    }
    rep.bound("the same with one layer proof, round, coefficient, claimed output or folding round more or less");
    for n in ["two layers", "two outputs"] {
        let c = by_name(n);
        for dv in [Dev { deg: 1, ..D0 }, Dev { layers: 1, ..D0 }, Dev { layers: -1, ..D0 }, Dev { rounds: -1, ..D0 }, Dev { outs: 1, ..D0 }, Dev { outs: -1, ..D0 }, Dev { open: 1, ..D0 }, Dev { open: -1, ..D0 }] {
            if dv.open == 0 {
                rep.verifier_equiv(&format!("L03/plain/{}/{:?}", n, dv), 3000, true, &mut |slot| {
                    clear_oracle();
                    draws("ch");
                    *slot = Some(generic(|| plain_spec(&c, dv, &v)));
                    assume_nonzero(NZ);
                    plain_run(&c, dv, &v)
                });
                assume_nonzero(&[]);
            }
            if dv.open < 0 && lg(c.half()) == 0 || dv.deg > 0 {
                continue;
            }
            rep.verifier_equiv(&format!("L03/zk/{}/{:?}", n, dv), 3000, true, &mut |slot| {
                clear_oracle();
                draws("ch");
                *slot = Some(generic(|| zk_spec(&c, dv, &v)));
                zk_run(&c, dv, &v)
            });
        }
    }
    // challenge derivation
    rep.bound("transcript: every part of the statement and of the proof that precedes a challenge, on circuit 'mixed layers'");
    let c = by_name("mixed layers");
    optimistic(true);
    let mut comps: Vec<(String, usize)> = ["hash", "in0", "in3", "out0"].iter().map(|n| (n.to_string(), 0)).collect();
    let mut k = c.bits(2);
    for d in 0..2 {
        for ph in ["p", "q"] {
            for i in 0..c.bits(1 - d) {
                for j in 0..3 {
                    comps.push((format!("{}{}_{}_{}", ph, d, i, j), k));
                }
                k += 1;
            }
            if d == 0 || ph == "p" {
                let (e, n) = if ph == "p" { ("e", 4) } else { ("f", 3) };
                for i in 0..n {
                    comps.push((format!("{}{}_{}", e, d, i), k));
                }
            }
        }
        k += 2;
    }
    for (name, first) in comps {
        rep.must_bind(&format!("L03/bind-plain/{}", name), first, &mut |x| {
            plain_run(&c, D0, &|n: &str| if n == name { x } else { v(n) });
        });
    }
    let mut comps: Vec<(String, usize)> = ["hash", "phash", "x0_0", "x0_1", "out0", "W0"].iter().map(|n| (n.to_string(), 0)).collect();
    let mut k = c.bits(2);
    for d in 0..2 {
        for ph in ["p", "q"] {
            for i in 0..c.bits(1 - d) {
                comps.push((format!("{}{}_P{}", ph, d, i), k));
                comps.push((format!("{}{}_E{}", ph, d, i), k + 1));
                comps.push((format!("{}{}_D{}", ph, d, i), k + 3));
                comps.push((format!("{}{}_B{}", ph, d, i), k + 3));
                k += 4;
            }
            comps.push((format!("{}{}", if ph == "p" { "X" } else { "Y" }, d), k));
        }
        for q in ["Z", "pa", "pb", "pd"] {
            comps.push((if q == "Z" { format!("Z{}", d) } else { format!("m{}{}", d, q) }, k));
        }
        comps.push((format!("le{}a", d), k + 1));
        k += if d == 0 { 4 } else { 2 };
    }
    opening_comps(&mut comps, k, 1, 1);
    for (name, first) in comps {
        rep.must_bind(&format!("L03/bind-zk/{}", name), first, &mut |x| {
            zk_run(&c, D0, &|n: &str| if n == name { x } else { v(n) });
        });
    }
    circuit_hash(rep, "L03", &|c| c.libra().circuit_to_hash::<SymE>());
    param_hash(rep, "L03", &|s| bl::params(2, s).param_to_hash());
    optimistic(false);
}
fn opening_comps(comps: &mut Vec<(String, usize)>, mut k: usize, rounds: usize, _inst: usize) {
    for o in 0..2 {
        comps.push((format!("o{}y", o), k));
        for j in 0..rounds {
            comps.push((format!("o{}L{}", o, j), k));
            comps.push((format!("o{}R{}", o, j), k));
            k += 1;
        }
        comps.push((format!("o{}delta_d", o), k));
        comps.push((format!("o{}delta_b", o), k));
        k += 1;
        comps.push((format!("oe{}a", o), k));
        k += 1;
    }
}
/// circuits that differ in one gate have different hashes (structure, not
/// values: a concrete list of neighbours)
fn circuit_hash(rep: &mut Report, id: &str, f: &dyn Fn(&Cir) -> SymF) {
    rep.bound("circuit hash: every single-gate change (operation, either operand, an added or removed gate) of a two-layer circuit");
    let base: Vec<Vec<(u8, usize, usize)>> = vec![vec![(0, 0, 2), (1, 1, 3)], vec![(1, 0, 1), (0, 0, 1)]];
    let mut other = vec![];
    for l in 0..2 {
        for g in 0..2 {
            for k in 0..3 {
                let mut x = base.clone();
                let t = &mut x[l][g];
                match k {
                    0 => t.0 = 1 - t.0,
                    1 => t.1 = (t.1 + 1) % if l == 0 { 4 } else { 2 },
                    _ => t.2 = (t.2 + 1) % if l == 0 { 4 } else { 2 },
                }
                other.push((format!("layer {} gate {} part {}", l, g, k), x));
            }
        }
    }
    let mut x = base.clone();
    x[1].pop();
    other.push(("gate removed".into(), x));
    let mut x = base.clone();
    x[1].push((1, 1, 1));
    other.push(("gate added".into(), x));
    let mut x = base.clone();
    x[0].swap(0, 1);
    other.push(("gates swapped".into(), x));
    fn mk(l: &[Vec<(u8, usize, usize)>]) -> Cir {
        let l: Vec<&[(u8, usize, usize)]> = l.iter().map(|g| g.as_slice()).collect();
        cir("hashed", 2, 2, &l)
    }
    for (what, o) in other {
        let key = format!("{}/circuit_hash/{}", id, what);
        let e = run_once(vec![], &mut || (f(&mk(&base)).0, f(&mk(&o)).0, f(&mk(&base)).0));
        match e.out {
            Out::Done((a, b, c)) if a == c && a != b => rep.ok(&key),
            Out::Done(_) => {
                rep.replays += 1;
                rep.violation(&key, "two different circuits have the same hash", serde_json::json!({"circuit": format!("{:?}", base), "other": format!("{:?}", o)}))
            }
            Out::Panic(p) => rep.violation(&key, &format!("hashing a circuit panics: {}", p), serde_json::json!({"circuit": format!("{:?}", o)})),
            Out::Unsupported(u) => rep.inconclusive(&key, &u),
        }
    }
}
/// the parameters' hash depends on every generator
fn param_hash(rep: &mut Report, id: &str, f: &dyn Fn(S) -> SymF) {
    rep.bound("parameter hash: every generator of the parameters for vectors of four");
    for name in ["G0", "G1", "h", "g0", "g3_0", "g3_2", "h3", "g4_0", "g4_3", "h4"] {
        rep.must_bind(&format!("{}/params_hash/{}", id, name), 0, &mut |x| {
            f(&|n: &str| if n == name { x } else { v(n) });
        });
    }
}

fn h02(rep: &mut Report) {
    for f in ["HyraxProof::verify", "ZkSumcheckProof::verify", "ZkSumcheckProof::sumcheck_verify", "construct_matrix", "ProductProof::verify", "EqProof::verify", "LogDotProductProof::reduce_verifier/verify", "BulletReduceProof::verify", "eval_outputs", "Parameters::param_to_hash", "Transcript (challenge derivation)"] {
        rep.function(f);
    }
    let mut names = vec![("one gate", 2), ("one gate", 1), ("two layers", 2), ("two outputs", 2), ("fewer witnesses than inputs", 2), ("single inner gate", 1), ("single inner gate", 2), ("widening", 1), ("three outputs", 2)];
    if rep.thorough {
        names.extend([("one sum", 4), ("fewer inputs than witnesses", 2), ("three inputs, three witnesses", 2), ("three inner gates", 4), ("no public input", 2), ("three layers", 2), ("four layers", 2)]);
    }
    for (n, t) in &names {
        let c = by_name(n);
        rep.bound(&format!("circuit '{}', {} instances: every proof element, claimed output, public input and generator arbitrary", n, t));
        rep.verifier_equiv(&format!("H02/{}/{}", n, t), 3000, true, &mut |slot| {
            clear_oracle();
            draws("ch");
            *slot = Some(generic(|| hy_spec(&c, *t, D0, &v)));
            hy_run(&c, *t, D0, &v)
        });
    }
    rep.bound("the same with one layer proof, round, claimed output or folding round less, or a folding round more");
    let c = by_name("two layers");
    for dv in [Dev { layers: -1, ..D0 }, Dev { rounds: -1, ..D0 }, Dev { open: 1, ..D0 }, Dev { open: -1, ..D0 }, Dev { outs: -1, ..D0 }] {
        rep.verifier_equiv(&format!("H02/dev/{:?}", dv), 3000, true, &mut |slot| {
            clear_oracle();
            draws("ch");
            *slot = Some(generic(|| hy_spec(&c, 2, dv, &v)));
            hy_run(&c, 2, dv, &v)
        });
    }
    rep.bound("transcript: every part of the statement and of the proof that precedes a challenge, on circuit 'two layers' with two instances");
    optimistic(true);
    let mut comps: Vec<(String, usize)> = ["hash", "phash", "x0_0", "x1_1", "out0_0", "out1_0", "W0", "W1"].iter().map(|n| (n.to_string(), 0)).collect();
    let ln = 1;
    let mut k = c.bits(2) + ln;
    for d in 0..2 {
        let b = c.bits(1 - d);
        let rounds = ln + 2 * b;
        for j in 0..rounds {
            comps.push((format!("P{}_{}", d, j), k + j));
            comps.push((format!("E{}_{}", d, j), k + j + 1));
        }
        k += rounds;
        for q in ["X", "Y", "Z"] {
            comps.push((format!("{}{}", q, d), k));
        }
        for q in ["pa", "pb", "pd"] {
            comps.push((format!("m{}{}", d, q), k));
        }
        k += 1;
        for j in 0..rounds {
            comps.push((format!("D{}_{}", d, j), k));
        }
        k += rounds + 1;
        comps.push((format!("C{}", d), k));
        k += if d == 0 { 3 } else { 1 };
    }
    opening_comps(&mut comps, k, 1, 2);
    for (name, first) in comps {
        rep.must_bind(&format!("H02/bind/{}", name), first, &mut |x| {
            hy_run(&c, 2, D0, &|n: &str| if n == name { x } else { v(n) });
        });
    }
    circuit_hash(rep, "H02", &|c| c.hyrax().circuit_to_hash::<SymE>());
    param_hash(rep, "H02", &|s| bh::params(2, s).param_to_hash());
    optimistic(false);
}

// ------------------------------------------------------------ zero knowledge
fn ser<T: CanonicalSerialize>(p: &T) -> Vec<u8> {
    let mut b = vec![];
    p.serialize(&mut b).unwrap();
    b
}
fn l04(rep: &mut Report) {
    for f in ["ZKLinearGKRProof::prover", "ZKSumCheckProof::phase_one_prover / phase_two_prover", "SumCheckEvalProof::prover", "ProductProof::prover", "EqProof::prover", "LogDotProductProof::reduce_prover", "packing_poly_commit"] {
        rep.function(f);
    }
    rep.bound("nonzero generators and challenges; every witness, public input and randomness; challenges fixed while the randomness varies");
    rep.fix_order = vec![vec!["ch", "gen"]];
    let mut names = vec!["one gate", "two layers", "two outputs", "single inner gate"];
    if rep.thorough {
        names.extend(["three inputs, three witnesses", "three inner gates", "widening"]);
    }
    for n in names {
        let c = by_name(n);
        rep.bound(&format!("circuit '{}'", n));
        let top = c.depth() - 1;
        let eqs: usize = (0..top).map(|d| 4 * c.bits(d) + 4).sum::<usize>() + 4;
        rep.must_hide(
            &format!("L04/{}", n),
            eqs,
            &mut || li::params::Parameters::<SymE>::new(&mut SymRng, lg(c.half())),
            &mut |pp| ser(&li::libra_zk_linear_gkr::ZKLinearGKRProof::<SymE>::prover(pp, &c.libra(), &c.x(0, &v), &c.w(0, &v), v("hash"), v("phash"), &mut SymRng).0),
        );
    }
}
fn h03(rep: &mut Report) {
    for f in ["HyraxProof::prover", "ZkSumcheckProof::prover / sumcheck_prover", "ProductProof::prover", "EqProof::prover", "LogDotProductProof::reduce_prover", "packing_poly_commit"] {
        rep.function(f);
    }
    rep.bound("nonzero generators and challenges; every witness, public input and randomness; challenges fixed while the randomness varies");
    rep.fix_order = vec![vec!["ch", "gen"]];
    let mut names = vec![("one gate", 1), ("one gate", 2), ("two layers", 2), ("two outputs", 2), ("single inner gate", 2)];
    if rep.thorough {
        names.extend([("three inputs, three witnesses", 2), ("three inner gates", 2), ("widening", 4)]);
    }
    for (n, t) in names {
        let c = by_name(n);
        rep.bound(&format!("circuit '{}', {} instances", n, t));
        let top = c.depth() - 1;
        // per layer: one per round, one for all of them, three for the product, the carried claim
        let eqs: usize = (0..top).map(|d| lg(t) + 2 * c.bits(d) + 5).sum::<usize>() + 4;
        rep.must_hide(
            &format!("H03/{}/{}", n, t),
            eqs,
            &mut || hy::params::Parameters::<SymE>::new(&mut SymRng, lg(c.half()) + lg(t)),
            &mut |pp| {
                let x: Vec<_> = (0..t).map(|i| c.x(i, &v)).collect();
                let w: Vec<_> = (0..t).map(|i| c.w(i, &v)).collect();
                ser(&hy::hyrax_proof::HyraxProof::<SymE>::prover(pp, &w, &x, &c.hyrax(), v("hash"), v("phash"), t, &mut SymRng).0)
            },
        );
    }
}
