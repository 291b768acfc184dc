use ark_ff::{Field, One, Zero};
use ark_serialize::*;
use merlin::Transcript;
use std::collections::BTreeMap;
use symcirc::*;
use symeng::*;
use zkp_bulletproofs::arithmetic_circuit::{create_random_proof, verify_proof, Generators, Proof, R1csCircuit};
use zkp_bulletproofs::inner_product_proof as ipp;

fn v(n: &str) -> SymF {
    SymF::var(n)
}
fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut rep = Report::new(&id);
    rep.bound("scalar field and group order of BLS12-381; group elements as discrete logarithms");
    match id.as_str() {
        "B01" => b01(&mut rep),
        "B02" => b02(&mut rep),
        "B03" => b03(&mut rep),
        "B04" => b04(&mut rep),
        _ => panic!("unknown property"),
    }
    rep.finish()
}

fn circuits(th: bool) -> Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> {
    let mut r: Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> = vec![];
    for (i, a, c) in if th { vec![(1, 1, 1), (0, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2)] } else { vec![(1, 1, 1), (0, 2, 1), (1, 1, 2), (1, 2, 2), (1, 3, 3)] } {
        r.push((format!("dense(inputs={},aux={},rows={})", i, a, c), Box::new(move || dense::<SymF>(i, a, c))));
    }
    for (i, a, c, s) in if th {
        vec![(2, 3, 3, 1), (1, 4, 2, 2), (3, 2, 5, 3), (2, 0, 2, 4), (1, 5, 3, 5), (1, 7, 8, 6), (3, 14, 16, 8), (2, 30, 32, 9)]
    } else {
        vec![(2, 3, 3, 1), (1, 4, 2, 2), (2, 0, 2, 4), (1, 3, 5, 7), (2, 9, 7, 3), (1, 6, 12, 8)]
    } {
        r.push((format!("sparse(inputs={},aux={},rows={},salt={})", i, a, c, s), Box::new(move || sparse::<SymF>(i, a, c, s))));
    }
    r.push(("repeated-columns".into(), Box::new(|| repeated::<SymF>())));
    r
}

fn b01(rep: &mut Report) {
    for f in ["create_random_proof", "prove", "verify_proof", "inner_product_proof::prove / verify", "VecPoly5", "R1csCircuit::matrix_to_map"] {
        rep.function(f);
    }
    rep.fix_order = vec![vec!["gen"], vec!["gen", "rnd"], vec!["gen", "rnd", "ch"]];
    for (name, mk) in circuits(rep.thorough) {
        rep.bound(&name);
        rep.must_accept(&format!("B01/{}", name), "an honest Bulletproofs proof is rejected", &mut || {
            clear_oracle();
            draws("rnd");
            let (gens, circ, proof) = create_random_proof::<SymE, _, _>(mk(), &mut SymRng).unwrap();
            verify_proof(&gens, &proof, &circ, &mk().inputs()).unwrap()
        });
    }
}

// ---------------------------------------------------------------- verifier
fn put<T: CanonicalSerialize>(o: &mut Vec<u8>, x: &T) {
    x.serialize(o).unwrap()
}
fn pts(pre: &str, n: usize, s: &dyn Fn(&str) -> SymF) -> Vec<G1A> {
    (0..n).map(|i| G1A::of(s(&format!("{}{}", pre, i)))).collect()
}
fn scs(pre: &str, n: usize, s: &dyn Fn(&str) -> SymF) -> Vec<SymF> {
    (0..n).map(|i| s(&format!("{}{}", pre, i))).collect()
}

#[derive(Clone, Copy, Debug)]
struct Sh {
    n: usize,
    k: usize,
    nw: usize,
    /// lengths found in the proof: l_x, r_x, L, R; number of public inputs
    l: usize,
    r: usize,
    ll: usize,
    rr: usize,
    pi: usize,
    dense: bool,
}
impl Sh {
    fn good(n: usize, k: usize, nw: usize, dense: bool) -> Sh {
        let nn = n.max(nw).next_power_of_two();
        let lg = nn.trailing_zeros() as usize;
        Sh { n, k, nw, l: nn, r: nn, ll: lg, rr: lg, pi: k - 1, dense }
    }
    fn nn(&self) -> usize {
        self.n.max(self.nw).next_power_of_two()
    }
}

fn gens(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> Generators<SymE> {
    let mut o = vec![];
    put(&mut o, &pts("g_", sh.nn(), s));
    put(&mut o, &pts("h_", sh.nn(), s));
    for q in ["g", "h", "u"] {
        put(&mut o, &G1A::of(s(q)));
    }
    for q in [sh.n, sh.nn(), sh.k, sh.nw] {
        put(&mut o, &q);
    }
    Generators::deserialize(&o[..]).unwrap()
}
fn mats(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> [Vec<Vec<SymF>>; 3] {
    let cols = sh.k + sh.nw;
    let mut h = 0x1234567u64;
    ["L", "R", "O"].map(|m| {
        (0..sh.n)
            .map(|i| {
                (0..cols)
                    .map(|j| {
                        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let t = (h >> 40) % 4;
                        // inputs: always variables; aux columns only in dense shapes
                        if sh.dense || j < sh.k {
                            s(&format!("C{}{}_{}", m, i, j))
                        } else {
                            SymF::int([0, 1, 3, -1][t as usize])
                        }
                    })
                    .collect()
            })
            .collect()
    })
}
fn circ(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> R1csCircuit<SymE> {
    let [l, r, o] = mats(sh, s);
    let t = |m: &Vec<Vec<SymF>>| -> BTreeMap<(u32, u32), SymF> {
        let mut b = BTreeMap::new();
        for (i, row) in m.iter().enumerate() {
            for (j, c) in row.iter().enumerate() {
                if c.as_const().map(|c| c.is_zero()) != Some(true) {
                    b.insert((i as u32, j as u32), *c);
                }
            }
        }
        b
    };
    let (a, b, c) = (t(&l), t(&r), t(&o));
    R1csCircuit { CL: l, CR: r, CO: o, CL_T: a, CR_T: b, CO_T: c }
}
const TS: [usize; 8] = [2, 3, 5, 6, 7, 8, 9, 10];
fn proof(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> Proof<SymE> {
    let mut o = vec![];
    for q in ["A_I", "A_O", "A_W", "S"] {
        put(&mut o, &G1A::of(s(q)));
    }
    for t in TS {
        put(&mut o, &G1A::of(s(&format!("T{}", t))));
    }
    put(&mut o, &s("mu"));
    put(&mut o, &s("tau"));
    put(&mut o, &scs("l", sh.l, s));
    put(&mut o, &scs("r", sh.r, s));
    put(&mut o, &s("t"));
    put_ipp(&mut o, sh.ll, sh.rr, s);
    put(&mut o, &G1A::of(s("P")));
    Proof::deserialize(&o[..]).unwrap()
}
fn put_ipp(o: &mut Vec<u8>, ll: usize, rr: usize, s: &dyn Fn(&str) -> SymF) {
    put(o, &pts("IL", ll, s));
    put(o, &pts("IR", rr, s));
    put(o, &s("ia"));
    put(o, &s("ib"));
}

/// a commitment P to vectors whose folding at x_1..x_k is (a, b)
fn ipp_eq(n: usize, g: &dyn Fn(usize) -> SymF, h: &dyn Fn(usize) -> SymF, u: SymF, p: SymF, xs: &[SymF], s: &dyn Fn(&str) -> SymF) -> Fm {
    let lg = xs.len();
    let inv: Vec<SymF> = xs.iter().map(|x| x.inv_unchecked()).collect();
    let (a, b) = (s("ia"), s("ib"));
    let mut lhs = a * b * u;
    for i in 0..n {
        // the j-th round halves: the upper half gets x, the lower 1/x
        let (mut c, mut d) = (SymF::one(), SymF::one());
        for j in 0..lg {
            let upper = (i >> (lg - 1 - j)) & 1 == 1;
            c *= if upper { xs[j] } else { inv[j] };
            d *= if upper { inv[j] } else { xs[j] };
        }
        lhs += a * c * g(i) + b * d * h(i);
    }
    let mut rhs = p;
    for j in 0..lg {
        rhs += xs[j] * xs[j] * s(&format!("IL{}", j)) + inv[j] * inv[j] * s(&format!("IR{}", j));
    }
    eqf(lhs, rhs)
}

fn spec(sh: &Sh, s: &dyn Fn(&str) -> SymF) -> Fm {
    let nn = sh.nn();
    let lg = nn.trailing_zeros() as usize;
    if (sh.l, sh.r, sh.ll, sh.rr, sh.pi) != (nn, nn, lg, lg, sh.k - 1) {
        return Fm::False;
    }
    let c = |i: usize| v(&format!("ch{}", i));
    let (y, z, x, x1) = (c(0), c(1), c(2), c(3));
    let xs: Vec<SymF> = (0..lg).map(|j| c(4 + j)).collect();
    let yi = if nn > 1 { y.inv_unchecked() } else { SymF::one() };
    let n = sh.n as u64;
    let (g, h, u) = (s("g"), s("h"), s("u") * x1);
    let [cl, cr, co] = mats(sh, s);
    let mut zin = vec![SymF::one()];
    zin.extend(scs("x", sh.k - 1, s));
    let zp = |e: u64| z.pow([e]);
    // sum_q z^(q+1) (CL_q + z^n CR_q + z^2n CO_q)[j]
    let col = |j: usize| -> SymF {
        let mut r = SymF::zero();
        for q in 0..sh.n {
            r += zp(q as u64 + 1) * (cl[q][j] + zp(n) * cr[q][j] + zp(2 * n) * co[q][j]);
        }
        r
    };
    let mut inp = SymF::zero();
    for j in 0..sh.k {
        inp += zin[j] * col(j);
    }
    let mut delta = SymF::zero();
    for i in 0..sh.n as u64 {
        delta += yi.pow([i]) * zp(n + i + 1) * zp(i + 1);
    }
    let (l, r) = (scs("l", nn, s), scs("r", nn, s));
    let mut ip = SymF::zero();
    for i in 0..nn {
        ip += l[i] * r[i];
    }
    let xp = |e: u64| x.pow([e]);
    let mut tr = xp(4) * (delta + inp) * g;
    for t in TS {
        tr += xp(t as u64) * s(&format!("T{}", t));
    }
    let mut pl = xp(2) * s("A_I") + xp(3) * s("A_O") + xp(4) * s("A_W") + xp(5) * s("S");
    let mut pr = s("mu") * h;
    let mut ipp_p = u * s("t");
    for i in 0..nn {
        let (gi, hi) = (s(&format!("g_{}", i)), s(&format!("h_{}", i)));
        let hy = hi * yi.pow([i as u64]);
        pl += -x * y.pow([i as u64]) * hy;
        if i < sh.n {
            let e = i as u64 + 1;
            pl += xp(2) * zp(e) * hy + xp(2) * yi.pow([i as u64]) * zp(n + e) * gi + x * zp(2 * n + e) * hy;
        }
        if i < sh.nw {
            pl += -col(sh.k + i) * hy;
        }
        pr += l[i] * gi + r[i] * hy;
        ipp_p += l[i] * gi + r[i] * hi;
    }
    let mut cs = vec![
        if nn > 1 { nef(y, SymF::zero()) } else { Fm::True },
        eqf(s("t"), ip),
        eqf(s("P"), ipp_p),
        ipp_eq(nn, &|i| s(&format!("g_{}", i)), &|i| s(&format!("h_{}", i)), u, s("P"), &xs, s),
        eqf(s("t") * g + s("tau") * h, tr),
        eqf(pl, pr),
    ];
    for q in xs {
        cs.push(nef(q, SymF::zero()));
    }
    and(cs)
}

fn b02(rep: &mut Report) {
    for f in ["verify_proof", "inner_product_proof::verify", "vector_product / vector_map_product / hadamard_product / inner_product", "Transcript (challenge derivation)"] {
        rep.function(f);
    }
    rep.flips = if rep.thorough { 8 } else { 7 };
    let mut shapes = vec![Sh::good(1, 1, 1, true), Sh::good(1, 2, 1, false), Sh::good(2, 2, 2, false), Sh::good(1, 2, 2, false), Sh::good(2, 1, 1, false)];
    if rep.thorough {
        shapes.extend([Sh::good(3, 2, 2, false), Sh::good(2, 3, 4, false), Sh::good(2, 2, 1, true), Sh::good(5, 2, 3, false)]);
    } else {
        shapes.push(Sh::good(2, 2, 3, false));
    }
    for g in shapes.clone() {
        rep.bound(&format!("{} rows, {} inputs with the constant, {} auxiliary variables ({} coefficients): every generator, public input, proof element arbitrary", g.n, g.k, g.nw, if g.dense { "all" } else { "input" }));
    }
    rep.bound("the same with one more or fewer entry in l, r, L, R or the public inputs");
    for g in [Sh::good(1, 2, 1, false), Sh::good(2, 2, 2, false), Sh::good(2, 2, 3, false)] {
        for d in [1i64, -1] {
            for f in 0..8 {
                let mut b = g;
                let ad = |x: &mut usize| {
                    let y = *x as i64 + d;
                    if y >= 0 {
                        *x = y as usize
                    }
                };
                match f {
                    0 => ad(&mut b.l),
                    1 => ad(&mut b.r),
                    2 => ad(&mut b.ll),
                    3 => ad(&mut b.rr),
                    4 => ad(&mut b.pi),
                    5 => {
                        ad(&mut b.l);
                        ad(&mut b.r);
                    }
                    6 => {
                        ad(&mut b.ll);
                        ad(&mut b.rr);
                    }
                    _ => {
                        b.l *= 2;
                        b.r *= 2;
                        b.ll += 1;
                        b.rr += 1;
                    }
                }
                let key = |b: &Sh| (b.l, b.r, b.ll, b.rr, b.pi);
                if key(&b) != key(&g) {
                    shapes.push(b);
                }
            }
        }
    }
    for sh in shapes {
        let key = format!("B02/n{}_k{}_w{}_{}_l{}r{}L{}R{}i{}", sh.n, sh.k, sh.nw, sh.dense, sh.l, sh.r, sh.ll, sh.rr, sh.pi);
        rep.verifier_equiv(&key, 4000, true, &mut |slot| {
            clear_oracle();
            draws("ch");
            *slot = Some(generic(|| spec(&sh, &v)));
            let pis = scs("x", sh.pi, &v);
            verify_proof(&gens(&sh, &v), &proof(&sh, &v), &circ(&sh, &v), &pis).unwrap_or(false)
        });
    }
    // challenges: y, z depend on the statement and A, S; x on T; x_1 on the
    // opened values; the folding challenges on each L, R
    let sh = Sh::good(2, 3, 3, true);
    let mut comps: Vec<(String, usize)> = vec![];
    for q in ["g", "h", "u", "A_I", "A_O", "A_W", "S", "x0", "x1"] {
        comps.push((q.into(), 0));
    }
    for i in 0..4 {
        comps.push((format!("g_{}", i), 0));
        comps.push((format!("h_{}", i), 0));
    }
    for m in ["L", "R", "O"] {
        for (i, j) in [(0, 0), (0, 5), (1, 2), (1, 4)] {
            comps.push((format!("C{}{}_{}", m, i, j), 0));
        }
    }
    for t in TS {
        comps.push((format!("T{}", t), 2));
    }
    for q in ["t", "tau", "mu", "l0", "l3", "r0", "r3"] {
        comps.push((q.into(), 3));
    }
    rep.bound("transcript: every generator, circuit coefficient (sampled positions), public input and proof element before the inner-product argument");
    for (name, first) in comps {
        rep.must_bind(&format!("B02/bind/{}", name), first, &mut |x| {
            let s = |n: &str| if n == name { x } else { v(n) };
            let pis = scs("x", sh.pi, &s);
            let _ = verify_proof(&gens(&sh, &s), &proof(&sh, &s), &circ(&sh, &s), &pis);
        });
    }
}

fn ipp_proof(ll: usize, rr: usize, s: &dyn Fn(&str) -> SymF) -> ipp::Proof<SymE> {
    let mut o = vec![];
    put_ipp(&mut o, ll, rr, s);
    ipp::Proof::deserialize(&o[..]).unwrap()
}

fn b03(rep: &mut Report) {
    for f in ["inner_product_proof::prove", "inner_product_proof::verify", "Transcript (challenge derivation)"] {
        rep.function(f);
    }
    rep.fix_order = vec![vec!["ch"], vec!["ch", "g_", "h_"]];
    let sizes = if rep.thorough { vec![1, 2, 4, 8, 16] } else { vec![1, 2, 4, 8] };
    for n in sizes.clone() {
        rep.bound(&format!("vectors of length {}: every entry, generator and challenge arbitrary", n));
        rep.must_accept(&format!("B03/complete{}", n), "an honest inner-product proof is rejected", &mut || {
            clear_oracle();
            draws("ch");
            let (g, h) = (pts("g_", n, &v), pts("h_", n, &v));
            let (a, b) = (scs("a", n, &v), scs("b", n, &v));
            let u = G1A::of(v("u"));
            let mut p = SymF::zero();
            for i in 0..n {
                p += a[i] * g[i].d + b[i] * h[i].d + a[i] * b[i] * u.d;
            }
            let p = G1P::of(p);
            let pr = ipp::prove::<SymE>(&mut Transcript::new(b"t"), g.clone(), h.clone(), u, &p, a, b);
            ipp::verify::<SymE>(&mut Transcript::new(b"t"), g, h, u, &p, &pr)
        });
    }
    for n in sizes {
        let lg = n.trailing_zeros() as usize;
        for (ll, rr) in [(lg, lg), (lg + 1, lg + 1), (lg.max(1) - 1, lg.max(1) - 1), (lg + 1, lg), (lg, lg + 1), (lg + 2, lg + 2), (0, 0)] {
            let good = ll == lg && rr == lg;
            if !good && lg == 0 && ll == 0 && rr == 0 {
                continue;
            }
            rep.verifier_equiv(&format!("B03/verify{}_L{}_R{}", n, ll, rr), 1000, true, &mut |slot| {
                clear_oracle();
                draws("ch");
                let xs: Vec<SymF> = (0..lg).map(|i| v(&format!("ch{}", i))).collect();
                *slot = Some(if good {
                    generic(|| {
                        let mut cs: Vec<Fm> = xs.iter().map(|x| nef(*x, SymF::zero())).collect();
                        cs.push(ipp_eq(n, &|i| v(&format!("g_{}", i)), &|i| v(&format!("h_{}", i)), v("u"), v("P"), &xs, &v));
                        and(cs)
                    })
                } else {
                    Fm::False
                });
                let (g, h) = (pts("g_", n, &v), pts("h_", n, &v));
                ipp::verify::<SymE>(&mut Transcript::new(b"t"), g, h, G1A::of(v("u")), &G1P::of(v("P")), &ipp_proof(ll, rr, &v))
            });
        }
    }
    let mut comps: Vec<(String, usize)> = vec![("u".into(), 0), ("P".into(), 0)];
    for i in 0..4 {
        comps.push((format!("g_{}", i), 0));
        comps.push((format!("h_{}", i), 0));
    }
    for j in 0..2 {
        comps.push((format!("IL{}", j), j));
        comps.push((format!("IR{}", j), j));
    }
    for (name, first) in comps {
        rep.must_bind(&format!("B03/bind/{}", name), first, &mut |x| {
            let s = |n: &str| if n == name { x } else { v(n) };
            let (g, h) = (pts("g_", 4, &s), pts("h_", 4, &s));
            let _ = ipp::verify::<SymE>(&mut Transcript::new(b"t"), g, h, G1A::of(s("u")), &G1P::of(s("P")), &ipp_proof(2, 2, &s));
        });
    }
}

fn read_proof(p: &Proof<SymE>) -> (Vec<SymF>, Vec<SymF>, SymF, SymF) {
    let mut o = vec![];
    put(&mut o, p);
    let mut r = &o[..];
    let mut pt = || G1A::deserialize(&mut r).unwrap().d;
    let points: Vec<SymF> = (0..12).map(|_| pt()).collect();
    let mu = SymF::deserialize(&mut r).unwrap();
    let tau = SymF::deserialize(&mut r).unwrap();
    let l = Vec::<SymF>::deserialize(&mut r).unwrap();
    let rr = Vec::<SymF>::deserialize(&mut r).unwrap();
    ([points, vec![mu, tau]].concat(), [l, rr].concat(), mu, tau)
}

fn b04(rep: &mut Report) {
    for f in ["create_random_proof", "prove"] {
        rep.function(f);
    }
    rep.bound("nonzero g, h and challenges; every witness, public input and randomness; challenges fixed while the randomness varies");
    rep.fix_order = vec![vec!["ch"]];
    let mut cs: Vec<(String, Box<dyn Fn() -> Circ<SymF>>)> = vec![
        ("dense(1,1,1)".into(), Box::new(|| dense::<SymF>(1, 1, 1))),
        ("sparse(2,2,2,1)".into(), Box::new(|| sparse::<SymF>(2, 2, 2, 1))),
        ("sparse(1,3,2,2)".into(), Box::new(|| sparse::<SymF>(1, 3, 2, 2))),
        ("sparse(1,1,3,5)".into(), Box::new(|| sparse::<SymF>(1, 1, 3, 5))),
    ];
    if rep.thorough {
        cs.push(("dense(1,2,2)".into(), Box::new(|| dense::<SymF>(1, 2, 2))));
        cs.push(("sparse(2,5,6,3)".into(), Box::new(|| sparse::<SymF>(2, 5, 6, 3))));
    }
    for (name, mk) in cs {
        rep.bound(&name);
        let key = format!("B04/{}", name);
        let n_max = mk().nc().max(mk().na);
        let nn = n_max.next_power_of_two();
        let mut run = || {
            clear_oracle();
            draws("rnd");
            // generators are drawn from the same source: 2N + 3 draws
            let before = symeng::st().n_rnd_vars();
            let mut out = vec![];
            let mut dr = vec![];
            for pre in ["rnd", "alt"] {
                let mut s = symeng::st();
                s.n_ch = before;
                s.rng_ctr = 0;
                s.chal.clear();
                s.chal_log.clear();
                drop(s);
                draws("gen");
                let rng = SwitchRng { left: 2 * nn + 3, pre };
                let mut rng = rng;
                let (_, _, p) = create_random_proof::<SymE, _, _>(mk(), &mut rng).unwrap();
                let (a, b, _, _) = read_proof(&p);
                out.push([a, b].concat());
                let s = symeng::st();
                let names: Vec<String> = s.chal_log.iter().map(|c| c.1).filter_map(|i| match s.nodes[i as usize] {
                    Node::Var(k) => Some(s.vars[k as usize].clone()),
                    Node::Const(_) => Some("const".into()),
                    _ => None,
                }).collect();
                drop(s);
                dr.push(names);
            }
            (out, dr)
        };
        let e = run_once(vec![], &mut run);
        rep.assumed += e.assumed.len() as u64;
        let (out, dr) = match &e.out {
            Out::Done(x) => x.clone(),
            o => {
                rep.inconclusive(&key, &format!("{:?}", o));
                continue;
            }
        };
        let d1: Vec<String> = dr[0].iter().filter(|n| n.starts_with("rnd")).cloned().collect();
        let d2: Vec<String> = dr[1].iter().filter(|n| n.starts_with("alt")).cloned().collect();
        let chs: Vec<String> = dr[0].iter().filter(|n| n.starts_with("ch")).cloned().collect();
        let gs: Vec<String> = dr[0].iter().filter(|n| n.starts_with("gen")).cloned().collect();
        rep.log(&format!("{} draws, challenges {:?}", d1.len(), chs));
        if d1.len() != d2.len() || d1.len() < 2 * n_max + 12 {
            rep.violation(
                &key,
                "the prover draws fewer independent blinders than it opens masked values",
                serde_json::json!({"draws": d1.len(), "needed": 2 * n_max + 12}),
            );
            continue;
        }
        let mut base: Vec<Fm> = chs.iter().chain(gs.iter()).map(|c| nef(v(c), SymF::zero())).collect();
        base.push(and(out[0].iter().zip(&out[1]).map(|(a, b)| eqf(*a, *b)).collect()));
        // one blinder after the other is determined by the proof
        let mut open: Vec<usize> = (0..d1.len()).collect();
        let mut done: Vec<usize> = vec![];
        let mut progress = true;
        while progress && !open.is_empty() {
            progress = false;
            for j in open.clone() {
                let mut q: Vec<Fm> = done.iter().map(|k| eqf(v(&d1[*k]), v(&d2[*k]))).collect();
                q.push(nef(v(&d1[j]), v(&d2[j])));
                q.extend(base.iter().cloned());
                let q = and(q);
                let vd = try_expanded(&q, 60_000, &Default::default(), 5).unwrap_or(Verdict::Unknown("size".into()));
                if let Verdict::Unsat = vd {
                    rep.ok(&format!("{}/{}", key, j));
                    done.push(j);
                    open.retain(|x| *x != j);
                    progress = true;
                }
            }
        }
        if !open.is_empty() {
            let mut q: Vec<Fm> = done.iter().map(|k| eqf(v(&d1[*k]), v(&d2[*k]))).collect();
            q.push(or(open.iter().map(|j| nef(v(&d1[*j]), v(&d2[*j]))).collect()));
            q.extend(base.iter().cloned());
            let q = and(q);
            rep.must_be_unsat(
                &key,
                &q,
                "two different choices of the prover's randomness give the same masked values: they are not uniformly blinded",
                &mut |m| {
                    let r = replay_bound(m, &mut run);
                    match r.out {
                        Out::Done((o, _)) => Some(o[0].iter().zip(&o[1]).all(|(a, b)| a.as_const() == b.as_const())),
                        _ => None,
                    }
                },
            );
        }
    }
}

/// names the first draws (generators) "gen" and the later ones `pre`
struct SwitchRng {
    left: usize,
    pre: &'static str,
}
impl rand::RngCore for SwitchRng {
    fn next_u32(&mut self) -> u32 {
        SymRng.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        SymRng.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if self.left == 0 {
            draws(self.pre);
        } else {
            self.left -= 1;
        }
        SymRng.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
