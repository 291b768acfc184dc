//! 32-bit words, SHA-256 and BLAKE2s against their standards.
use crate::bits::*;
use crate::tape::*;
use ark_ff::{Field, One, Zero};
use std::collections::{BTreeMap, HashMap};
use symeng::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::algebra::uint32::UInt32;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{blake2s::blake2s, sha256::*};
use zkp_gadgets::operator::multieq::MultiEq;
use zkp_r1cs::{ConstraintSystem, Index, SynthesisError};

type Res<X> = Result<X, SynthesisError>;

/// how one bit of an operand is presented
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    C(bool),
    Is,
    Not,
    In,
}
/// the kinds of an operand's bits
pub fn pattern(p: &str, n: usize, salt: u64) -> Vec<K> {
    (0..n)
        .map(|i| {
            let h = hash_fr(&format!("{}{}", p, i), salt);
            let r = ark_ff::PrimeField::into_repr(&h).0[0] % 16;
            match p {
                "alloc" => K::Is,
                "not" => K::Not,
                "input" => K::In,
                "zero" => K::C(false),
                "ones" => K::C(true),
                "const" => K::C(r & 1 == 1),
                "low" => {
                    if i < n / 2 {
                        K::Is
                    } else {
                        K::C(r & 1 == 1)
                    }
                }
                "onebit" => {
                    if i == salt as usize % n {
                        K::Is
                    } else {
                        K::C(r & 1 == 1)
                    }
                }
                _ => match r % 5 {
                    0 => K::C(false),
                    1 => K::C(true),
                    2 => K::Not,
                    3 => K::In,
                    _ => K::Is,
                },
            }
        })
        .collect()
}

/// one run of the circuit under test: operand bits by position
pub struct Call<'a> {
    pub kinds: Vec<K>,
    pub f: &'a dyn Fn(&mut Tp, &[Boolean]) -> Res<Vec<Boolean>>,
}
impl<'a> Call<'a> {
    /// allocates the operands and runs the gadget; the wires of the operands
    pub fn run(&self, witness: Option<&[bool]>) -> Result<(Tp, Vec<Option<Index>>, Vec<Boolean>), String> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Res<_> {
            let mut t = Tp::new(witness.is_some());
            let mut ws = vec![];
            let mut bs = vec![];
            for (i, k) in self.kinds.iter().enumerate() {
                let v = witness.map(|w| w[i]);
                let (b, w) = match k {
                    K::C(c) => (Boolean::constant(*c), None),
                    K::Is => {
                        let a = AllocatedBit::alloc(&mut t, v)?;
                        (a.into(), Some(a.get_variable().get_unchecked()))
                    }
                    K::In => {
                        let a = AllocatedBit::alloc_input(&mut t, v)?;
                        (a.into(), Some(a.get_variable().get_unchecked()))
                    }
                    K::Not => {
                        let a = AllocatedBit::alloc(&mut t, v.map(|x| !x))?;
                        (Boolean::from(a).not(), Some(a.get_variable().get_unchecked()))
                    }
                };
                ws.push(w);
                bs.push(b);
            }
            let o = (self.f)(&mut t, &bs)?;
            Ok((t, ws, o))
        }));
        match r {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        }
    }
}
fn lc_of_bool(b: &Boolean) -> Lc<F> {
    match b {
        Boolean::Constant(c) => vec![(Index::Input(0), if *c { F::one() } else { F::zero() })],
        Boolean::Is(v) => vec![(v.get_variable().get_unchecked(), F::one())],
        Boolean::Not(v) => vec![(Index::Input(0), F::one()), (v.get_variable().get_unchecked(), -F::one())],
    }
}

/// the circuit's rows against the specification for all operands; the witness
/// computation at sample and corner operands
pub fn check(rep: &mut Report, key: &str, what: &str, call: &Call<'_>, spec: &dyn Fn(&mut Net, &[Bit], &mut Vec<Mark>) -> Vec<Bit>, samples: usize) {
    if let Ok(o) = std::env::var("SYM_ONLY") {
        if !key.contains(&o) {
            return;
        }
    }
    let (t, ws, outs) = match call.run(None) {
        Ok(x) => x,
        Err(e) => {
            rep.violation(&format!("{}/shape", key), &format!("{}: synthesis fails: {}", what, e), serde_json::json!({"case": key}));
            return;
        }
    };
    let mut net = Net::new();
    let mut free: BTreeMap<Index, Bit> = BTreeMap::new();
    let mut ops: Vec<Bit> = vec![];
    let mut var_of: Vec<Option<usize>> = vec![];
    for (i, k) in call.kinds.iter().enumerate() {
        let b = match k {
            K::C(c) => net.c(*c),
            K::Is | K::In => {
                let v = net.var(&format!("op{}", i));
                free.insert(ws[i].unwrap(), v);
                v
            }
            K::Not => {
                let v = net.var(&format!("op{}", i));
                free.insert(ws[i].unwrap(), v);
                net.not(v)
            }
        };
        var_of.push(net.vars.iter().position(|v| v.0 == format!("op{}", i)));
        ops.push(b);
    }
    let mut marks = vec![];
    let want = spec(&mut net, &ops, &mut marks);
    if want.len() != outs.len() {
        rep.violation(&format!("{}/length", key), &format!("{}: {} result bits instead of {}", what, outs.len(), want.len()), serde_json::json!({"case": key}));
        return;
    }
    let pairs: Vec<(Lc<F>, Bit)> = outs.iter().zip(&want).map(|(b, w)| (lc_of_bool(b), *w)).collect();
    compare(rep, key, what, &t, &mut net, &free, &pairs, &marks);
    // the witness computation
    let n = call.kinds.len();
    let mut pts: Vec<Vec<bool>> = vec![vec![false; n], vec![true; n]];
    for s in 0..samples {
        pts.push(
            (0..n)
                .map(|i| {
                    let h = ark_ff::PrimeField::into_repr(&hash_fr(&format!("pt{}", i / 32), s as u64)).0;
                    match s % 3 {
                        // words out of corner values
                        0 => [0u32, 1, 0x8000_0000, !0, 0x7fff_ffff, 0xffff_fffe][h[0] as usize % 6] >> (i % 32) & 1 == 1,
                        1 => h[0] >> (i % 32) & 1 == 1,
                        _ => h[0] & h[1] >> (i % 32) & 1 == 1,
                    }
                })
                .collect(),
        );
    }
    for (pi, p) in pts.iter().enumerate() {
        let val: Vec<bool> = p.iter().zip(&call.kinds).map(|(v, k)| if let K::C(c) = k { *c } else { *v }).collect();
        let name = format!("{}/honest{}", key, pi);
        match call.run(Some(&val)) {
            Err(e) => rep.violation(&name, &format!("{}: the honest prover fails: {}", what, e), serde_json::json!({"operands": val})),
            Ok((w, _, o)) => {
                rep.native += 1;
                if !w.sized_like(&t) {
                    rep.violation(&name, &format!("{}: the circuit has another shape with a witness than without", what), serde_json::json!({"operands": val}));
                    continue;
                }
                if w.residuals(&t.rows).iter().any(|r| !r.is_zero()) {
                    rep.violation(&name, &format!("{}: the honest witness does not satisfy the constraints", what), serde_json::json!({"operands": val}));
                    continue;
                }
                let vo = var_of.clone();
                let kinds = call.kinds.clone();
                let vv = val.clone();
                let asg = move |v: usize| {
                    let i = vo.iter().position(|x| *x == Some(v));
                    match i {
                        Some(i) => vv[i] ^ (kinds[i] == K::Not),
                        None => false,
                    }
                };
                let ev = net.eval(&want, &asg);
                for (j, b) in o.iter().enumerate() {
                    let x = ev[&want[j]];
                    if b.get_value() != Some(x) || w.eval(&lc_of_bool(b)) != if x { F::one() } else { F::zero() } {
                        rep.violation(&name, &format!("{}: the honest result is wrong", what), serde_json::json!({"operands": val, "bit": j}));
                        break;
                    }
                }
            }
        }
    }
}

fn word(b: &[Bit]) -> Word {
    let mut w = [0; 32];
    w.copy_from_slice(b);
    w
}
fn mark(m: &mut Vec<Mark>, name: &str, w: &Word) {
    m.push(Mark { name: name.into(), bits: w.to_vec() })
}

// ---------------------------------------------------------------------------
pub fn uint32(rep: &mut Report) {
    for f in ["UInt32::{alloc, constant, from_bits, from_bits_be, into_bits, into_bits_be, xor, rotr, shr, sha256_ch, sha256_maj, addmany}", "MultiEq::{enforce_equal, accumulate, drop}"] {
        rep.function(f);
    }
    rep.bound("all operand values (every wire of every row); operand bits allocated, constant, negated, public or mixed; rotations by 0..=63, shifts by 0..=31; additions of 2..=10 operands, up to 20 additions in one packed sequence");
    rep.assumption("the witness computation (not its constraints) is run at corner and sample operands only");
    let u = |b: &[Boolean], i: usize| UInt32::from_bits(&b[32 * i..32 * i + 32]);
    let pats: Vec<&str> = if rep.thorough { vec!["alloc", "not", "input", "const", "low", "onebit", "mixed", "zero", "ones"] } else { vec!["alloc", "const", "onebit", "mixed"] };
    let kinds = |ps: &[&str]| -> Vec<K> { ps.iter().enumerate().flat_map(|(i, p)| pattern(p, 32, i as u64 + 3)).collect() };
    // unary
    for p in &pats {
        for by in 0..64usize {
            if !rep.thorough && *p != "alloc" && by % 7 != 0 {
                continue;
            }
            check(rep, &format!("D02/rotr/{}/{}", p, by), "rotation gives a wrong result", &Call { kinds: kinds(&[p]), f: &|_, b| Ok(u(b, 0).rotr(by).into_bits()) }, &|_, o, _| rotr(&word(o), by % 32).to_vec(), 0);
            if by < 32 {
                check(
                    rep,
                    &format!("D02/shr/{}/{}", p, by),
                    "shift gives a wrong result",
                    &Call { kinds: kinds(&[p]), f: &|_, b| Ok(u(b, 0).shr(by).into_bits()) },
                    &|n, o, _| {
                        let z = n.c(false);
                        (0..32).map(|i| if i + by < 32 { o[i + by] } else { z }).collect()
                    },
                    0,
                );
            }
        }
        // conversions keep order
        check(rep, &format!("D02/bits_be/{}", p), "big-endian conversion changes the bits", &Call { kinds: kinds(&[p]), f: &|_, b| Ok(UInt32::from_bits_be(b).into_bits()) }, &|_, o, _| o.iter().rev().cloned().collect(), 0);
        check(rep, &format!("D02/into_be/{}", p), "big-endian conversion changes the bits", &Call { kinds: kinds(&[p]), f: &|_, b| Ok(u(b, 0).into_bits_be()) }, &|_, o, _| o.iter().rev().cloned().collect(), 0);
    }
    // a 32-bit allocation: its own bits, then used as an operand
    check(
        rep,
        "D02/alloc",
        "an allocated word is not the word given",
        &Call {
            kinds: kinds(&["alloc"]),
            f: &|t, b| {
                let v = b.iter().enumerate().try_fold(0u32, |s, (i, x)| x.get_value().map(|x| s | (x as u32) << i));
                let a = UInt32::alloc(&mut *t, v)?;
                for (i, x) in a.clone().into_bits().iter().enumerate() {
                    Boolean::enforce_equal::<F, _>(&mut *t, x, &b[i])?;
                }
                Ok(a.into_bits())
            },
        },
        &|_, o, _| o.to_vec(),
        4,
    );
    for v in [0u32, 1, 0x8000_0000, !0, 0xdead_beef] {
        check(rep, &format!("D02/constant/{:x}", v), "a constant word is not the constant", &Call { kinds: vec![], f: &|_, _| Ok(UInt32::constant(v).into_bits()) }, &|n, _, _| n.wconst(v).to_vec(), 0);
    }
    let s = if rep.thorough { 12 } else { 3 };
    for p in &pats {
        for q in &pats {
            check(rep, &format!("D02/xor/{},{}", p, q), "xor gives a wrong result", &Call { kinds: kinds(&[p, q]), f: &|t, b| Ok(u(b, 0).xor(&mut *t, &u(b, 1))?.into_bits()) }, &|n, o, _| n.wxor(&word(&o[..32]), &word(&o[32..])).to_vec(), s);
            for (j, third) in ["alloc", "mixed"].iter().enumerate() {
                if j == 1 && !rep.thorough && *p != "mixed" {
                    continue;
                }
                let k3 = kinds(&[p, q, third]);
                check(
                    rep,
                    &format!("D02/ch/{},{},{}", p, q, third),
                    "choice gives a wrong result",
                    &Call { kinds: k3.clone(), f: &|t, b| Ok(UInt32::sha256_ch(&mut *t, &u(b, 0), &u(b, 1), &u(b, 2))?.into_bits()) },
                    &|n, o, _| n.wch(&word(&o[..32]), &word(&o[32..64]), &word(&o[64..])).to_vec(),
                    s,
                );
                check(
                    rep,
                    &format!("D02/maj/{},{},{}", p, q, third),
                    "majority gives a wrong result",
                    &Call { kinds: k3, f: &|t, b| Ok(UInt32::sha256_maj(&mut *t, &u(b, 0), &u(b, 1), &u(b, 2))?.into_bits()) },
                    &|n, o, _| n.wmaj(&word(&o[..32]), &word(&o[32..64]), &word(&o[64..])).to_vec(),
                    s,
                );
            }
        }
    }
    // additions of several operands of several kinds
    let mut cases: Vec<Vec<&str>> = vec![];
    for p in &pats {
        for q in &pats {
            cases.push(vec![p, q]);
        }
    }
    for n in 3..=10 {
        cases.push(vec!["alloc"; n]);
        cases.push((0..n).map(|i| ["mixed", "const", "alloc", "not", "onebit"][i % 5]).collect());
        cases.push((0..n).map(|i| if i == 0 { "alloc" } else { "ones" }).collect());
        cases.push(vec!["const"; n]);
    }
    for (ci, c) in cases.iter().enumerate() {
        check(
            rep,
            &format!("D02/add{}/{}", ci, c.join(",")),
            "addition modulo 2^32 gives a wrong result",
            &Call {
                kinds: kinds(c),
                f: &|t, b| {
                    let ops: Vec<UInt32> = (0..c.len()).map(|i| u(b, i)).collect();
                    let mut m = MultiEq::new(&mut *t);
                    let r = UInt32::addmany(m.ns(|| "add"), &ops)?;
                    Ok(r.into_bits())
                },
            },
            &|n, o, m| {
                let ws: Vec<Word> = o.chunks(32).map(word).collect();
                let w = n.wadd(&ws);
                mark(m, "sum", &w);
                w.to_vec()
            },
            s,
        );
    }
    // an operand used twice, and an operand with its own complement
    check(rep, "D02/add/twice", "addition modulo 2^32 gives a wrong result", &Call { kinds: kinds(&["alloc", "alloc"]), f: &|t, b| {
        let mut m = MultiEq::new(&mut *t);
        Ok(UInt32::addmany(m.ns(|| "a"), &[u(b, 0), u(b, 1), u(b, 0), u(b, 0).rotr(5)])?.into_bits())
    } }, &|n, o, _| {
        let (x, y) = (word(&o[..32]), word(&o[32..]));
        n.wadd(&[x, y, x, rotr(&x, 5)]).to_vec()
    }, s);
    // results as operands: values of intermediate words, packed sequences
    for len in if rep.thorough { vec![1usize, 3, 6, 7, 8, 9, 14, 20] } else { vec![3, 7, 8, 15] } {
        for nop in [2usize, 3, 5] {
            check(
                rep,
                &format!("D02/sequence/{}x{}", len, nop),
                "a sequence of operations gives a wrong result",
                &Call {
                    kinds: kinds(&["alloc", "mixed", "alloc"]),
                    f: &|t, b| {
                        let mut v = vec![u(b, 0), u(b, 1), u(b, 2)];
                        let mut m = MultiEq::new(&mut *t);
                        for i in 0..len {
                            let mut ops = vec![];
                            for j in 0..nop {
                                let w = v[v.len() - 1 - j % 3].clone();
                                ops.push(match (i + j) % 4 {
                                    0 => w.rotr(7 * i % 32),
                                    1 => w.shr(3),
                                    2 => w.xor(m.ns(|| format!("x{}_{}", i, j)), &v[v.len() - 2])?,
                                    _ => w,
                                });
                            }
                            let r = UInt32::addmany(m.ns(|| format!("a{}", i)), &ops)?;
                            v.push(match i % 3 {
                                0 => UInt32::sha256_ch(m.ns(|| format!("c{}", i)), &r, &v[v.len() - 1], &v[v.len() - 2])?,
                                1 => UInt32::sha256_maj(m.ns(|| format!("c{}", i)), &r, &v[v.len() - 1], &v[v.len() - 2])?,
                                _ => r,
                            });
                        }
                        Ok(v.last().unwrap().clone().into_bits())
                    },
                },
                &|n, o, mk| {
                    let mut v = vec![word(&o[..32]), word(&o[32..64]), word(&o[64..])];
                    let z = n.c(false);
                    for i in 0..len {
                        let mut ops = vec![];
                        for j in 0..nop {
                            let w = v[v.len() - 1 - j % 3];
                            let x = match (i + j) % 4 {
                                0 => rotr(&w, 7 * i % 32),
                                1 => {
                                    let mut s = [z; 32];
                                    s[..29].copy_from_slice(&w[3..]);
                                    s
                                }
                                2 => {
                                    let y = v[v.len() - 2];
                                    n.wxor(&w, &y)
                                }
                                _ => w,
                            };
                            mark(mk, &format!("op{}_{}", i, j), &x);
                            ops.push(x);
                        }
                        let r = n.wadd(&ops);
                        mark(mk, &format!("add{}", i), &r);
                        let (p, q) = (v[v.len() - 1], v[v.len() - 2]);
                        let x = match i % 3 {
                            0 => n.wch(&r, &p, &q),
                            1 => n.wmaj(&r, &p, &q),
                            _ => r,
                        };
                        mark(mk, &format!("out{}", i), &x);
                        v.push(x);
                    }
                    v.last().unwrap().to_vec()
                },
                s,
            );
        }
    }
}

// ---------------------------------------------------------------------------
const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc,
    0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
    0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
const IV256: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];

fn xor3(n: &mut Net, a: &Word, b: &Word, c: &Word) -> (Word, Word) {
    let x = n.wxor(a, b);
    (x, n.wxor(&x, c))
}
fn shr(n: &mut Net, w: &Word, by: usize) -> Word {
    let z = n.c(false);
    let mut o = [z; 32];
    for i in by..32 {
        o[i - by] = w[i]
    }
    o
}
/// FIPS 180-4 compression, big-endian message words
fn sha_block(n: &mut Net, h: &[Word], m: &[Bit], mk: &mut Vec<Mark>, tag: &str) -> Vec<Word> {
    let mut w: Vec<Word> = m
        .chunks(32)
        .map(|c| {
            let mut x = [0; 32];
            for i in 0..32 {
                x[i] = c[31 - i]
            }
            x
        })
        .collect();
    for i in 16..64 {
        let (a, b) = (w[i - 15], w[i - 2]);
        let sa = shr(n, &a, 3);
        let (x, s0) = xor3(n, &rotr(&a, 7), &rotr(&a, 18), &sa);
        let sb = shr(n, &b, 10);
        let (y, s1) = xor3(n, &rotr(&b, 17), &rotr(&b, 19), &sb);
        for (nm, v) in [("x", &x), ("s0", &s0), ("y", &y), ("s1", &s1)] {
            mark(mk, &format!("{}w{}{}", tag, i, nm), v);
        }
        let v = n.wadd(&[w[i - 16], s0, w[i - 7], s1]);
        mark(mk, &format!("{}w{}", tag, i), &v);
        w.push(v);
    }
    let mut s: Vec<Word> = h.to_vec();
    for i in 0..64 {
        let e = s[4];
        let (x, s1) = xor3(n, &rotr(&e, 6), &rotr(&e, 11), &rotr(&e, 25));
        let ch = n.wch(&e, &s[5], &s[6]);
        let k = n.wconst(K256[i]);
        let t1 = n.wadd(&[s[7], s1, ch, k, w[i]]);
        let a = s[0];
        let (y, s0) = xor3(n, &rotr(&a, 2), &rotr(&a, 13), &rotr(&a, 22));
        let mj = n.wmaj(&a, &s[1], &s[2]);
        let t2 = n.wadd(&[s0, mj]);
        let ne = n.wadd(&[s[3], t1]);
        let na = n.wadd(&[t1, t2]);
        for (nm, v) in [("x", &x), ("S1", &s1), ("ch", &ch), ("y", &y), ("S0", &s0), ("maj", &mj), ("T1", &t1), ("T2", &t2), ("e", &ne), ("a", &na)] {
            mark(mk, &format!("{}r{}{}", tag, i, nm), v);
        }
        s = vec![na, s[0], s[1], s[2], ne, s[4], s[5], s[6]];
    }
    let mut o = vec![];
    for i in 0..8 {
        let v = n.wadd(&[h[i], s[i]]);
        mark(mk, &format!("{}h{}", tag, i), &v);
        o.push(v);
    }
    o
}
fn sha_spec(n: &mut Net, msg: &[Bit], pad: bool, mk: &mut Vec<Mark>) -> Vec<Bit> {
    let mut m = msg.to_vec();
    if pad {
        let l = m.len() as u64;
        let (f, t) = (n.c(false), n.c(true));
        m.push(t);
        while m.len() % 512 != 448 {
            m.push(f)
        }
        for i in (0..64).rev() {
            m.push(if l >> i & 1 == 1 { t } else { f })
        }
    }
    let mut h: Vec<Word> = IV256.iter().map(|v| n.wconst(*v)).collect();
    for (i, b) in m.chunks(512).enumerate() {
        h = sha_block(n, &h, b, mk, &format!("b{}", i));
    }
    h.iter().flat_map(|w| w.iter().rev().cloned().collect::<Vec<_>>()).collect()
}
/// the specification itself, against published test vectors
fn self_test(rep: &mut Report, key: &str, bits: &[bool], spec: &dyn Fn(&mut Net, &[Bit]) -> Vec<Bit>, want: &str, msb_first: bool) {
    let mut n = Net::new();
    let m: Vec<Bit> = bits.iter().map(|b| n.c(*b)).collect();
    let o = spec(&mut n, &m);
    let mut hex = String::new();
    for c in o.chunks(8) {
        let mut x = 0u8;
        for (i, b) in c.iter().enumerate() {
            if n.nodes[*b] == N::C(true) {
                x |= if msb_first { 0x80 >> i } else { 1 << i }
            }
        }
        hex.push_str(&format!("{:02x}", x));
    }
    if hex == want {
        rep.native += 1;
    } else {
        rep.inconclusive(key, &format!("the specification gives {} instead of {}", hex, want));
    }
}

pub fn sha(rep: &mut Report) {
    for f in ["sha256", "sha256_block_no_padding", "sha256_compression_function", "AbstractHashSha256::hash_enforce", "AbstractHashSha256Output::{alloc, alloc_input, get_variables, get_variable_values}"] {
        rep.function(f);
    }
    rep.assumption("the witness computation (not its constraints) is run at corner and sample messages only");
    let be = |s: &str| -> Vec<bool> { s.bytes().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect() };
    let sp = |n: &mut Net, m: &[Bit]| sha_spec(n, m, true, &mut vec![]);
    self_test(rep, "D09/spec/abc", &be("abc"), &sp, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", true);
    self_test(rep, "D09/spec/long", &be("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"), &sp, "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1", true);
    let lens: Vec<usize> = if rep.thorough { vec![0, 128, 256, 440, 448, 504, 512, 520, 952, 960, 1024] } else { vec![0, 256, 440, 448, 512, 1024] };
    rep.bound(&format!("messages of {:?} bits, allocated; mixed (constant, negated, public) bits at some lengths; every value of every wire", lens));
    let ws = if rep.thorough { 6 } else { 2 };
    for l in &lens {
        check(rep, &format!("D09/sha256/{}", l), "the digest is not SHA-256's", &Call { kinds: pattern("alloc", *l, 1), f: &|t, b| sha256(&mut *t, b) }, &|n, o, m| sha_spec(n, o, true, m), ws);
    }
    for (p, l) in [("mixed", 256), ("low", 512), ("const", 64)] {
        check(rep, &format!("D09/sha256/{}{}", p, l), "the digest is not SHA-256's", &Call { kinds: pattern(p, l, 1), f: &|t, b| sha256(&mut *t, b) }, &|n, o, m| sha_spec(n, o, true, m), ws);
    }
    for p in ["alloc", "mixed"] {
        check(rep, &format!("D09/block/{}", p), "the block digest is not SHA-256's compression", &Call { kinds: pattern(p, 512, 2), f: &|t, b| sha256_block_no_padding(&mut *t, b) }, &|n, o, m| sha_spec(n, o, false, m), ws);
    }
    // the hash over allocated outputs: parameters and result by their variables
    for n in if rep.thorough { vec![1usize, 2, 3] } else { vec![1usize, 2] } {
        for p in ["alloc", "input"] {
            if p == "input" && n == 1 && !rep.thorough {
                continue;
            }
            check(
                rep,
                &format!("D09/hash_enforce/{}x{}", p, n),
                "the output variables of the hash gadget are not the SHA-256 digest of its parameters",
                &Call {
                    kinds: pattern("alloc", 256 * n, 1),
                    f: &|t, b| {
                        let mut ps = vec![];
                        for (i, c) in b.chunks(256).enumerate() {
                            let bytes: Vec<u8> = c.chunks(8).map(|c| c.iter().fold(0u8, |s, x| s << 1 | x.get_value().unwrap_or(false) as u8)).collect();
                            let o = if p == "alloc" { AbstractHashSha256Output::alloc(t.ns(|| format!("p{}", i)), bytes)? } else { AbstractHashSha256Output::alloc_input(t.ns(|| format!("p{}", i)), bytes)? };
                            let vs = AbstractHashOutput::<F>::get_variables(&o);
                            assert_eq!(vs.len(), 256);
                            for (v, x) in vs.iter().zip(c) {
                                t.enforce(|| "parameter", |lc| lc + *v, |lc| lc + Tp::one(), |_| x.lc(Tp::one(), F::one()));
                            }
                            ps.push(o);
                        }
                        let o = AbstractHashSha256::<F>::hash_enforce(t.ns(|| "hash"), &ps.iter().collect::<Vec<_>>())?;
                        let (vs, xs) = (AbstractHashOutput::<F>::get_variables(&o), AbstractHashOutput::<F>::get_variable_values(&o));
                        assert_eq!(vs.len(), xs.len());
                        let mut out = vec![];
                        for (v, x) in vs.iter().zip(xs) {
                            let a = AllocatedBit::alloc(&mut *t, x.map(|x: F| !x.is_zero()))?;
                            t.enforce(|| "result", |lc| lc + *v, |lc| lc + Tp::one(), |lc| lc + a.get_variable());
                            out.push(a.into());
                        }
                        Ok(out)
                    },
                },
                &|n, o, m| sha_spec(n, o, true, m),
                1,
            );
        }
    }
}

// ---------------------------------------------------------------------------
const SIG: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
fn blake_spec(n: &mut Net, msg: &[Bit], pers: &[u8], mk: &mut Vec<Mark>) -> Vec<Bit> {
    let mut h: Vec<Word> = IV256.iter().map(|v| n.wconst(*v)).collect();
    let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    h[0] = n.wconst(IV256[0] ^ 0x0101_0000 ^ 32);
    h[6] = n.wconst(IV256[6] ^ le(&pers[0..4]));
    h[7] = n.wconst(IV256[7] ^ le(&pers[4..8]));
    let z = n.c(false);
    let mut m = msg.to_vec();
    let bytes = m.len() as u64 / 8;
    while m.is_empty() || m.len() % 512 != 0 {
        m.push(z)
    }
    let nb = m.len() / 512;
    for b in 0..nb {
        let last = b + 1 == nb;
        let t = if last { bytes } else { (b as u64 + 1) * 64 };
        let w: Vec<Word> = m[512 * b..512 * (b + 1)].chunks(32).map(word).collect();
        let mut v: Vec<Word> = h.clone();
        for i in 0..8 {
            let mut x = IV256[i];
            match i {
                4 => x ^= t as u32,
                5 => x ^= (t >> 32) as u32,
                6 if last => x ^= !0,
                _ => {}
            }
            v.push(n.wconst(x));
        }
        for r in 0..10 {
            let s = SIG[r];
            for (g, (a, bb, c, d)) in [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)].into_iter().enumerate() {
                for (half, (ra, rb)) in [(16, 12), (8, 7)].into_iter().enumerate() {
                    let tag = format!("b{}r{}g{}.{}", b, r, g, half);
                    v[a] = n.wadd(&[v[a], v[bb], w[s[2 * g + half]]]);
                    mark(mk, &format!("{}a", tag), &v[a]);
                    let x = n.wxor(&v[d], &v[a]);
                    mark(mk, &format!("{}d", tag), &x);
                    v[d] = rotr(&x, ra);
                    v[c] = n.wadd(&[v[c], v[d]]);
                    mark(mk, &format!("{}c", tag), &v[c]);
                    let x = n.wxor(&v[bb], &v[c]);
                    mark(mk, &format!("{}b", tag), &x);
                    v[bb] = rotr(&x, rb);
                }
            }
        }
        for i in 0..8 {
            let x = n.wxor(&h[i], &v[i]);
            mark(mk, &format!("b{}x{}", b, i), &x);
            h[i] = n.wxor(&x, &v[i + 8]);
            mark(mk, &format!("b{}h{}", b, i), &h[i]);
        }
    }
    h.iter().flat_map(|w| w.to_vec()).collect()
}

pub fn blake(rep: &mut Report) {
    for f in ["blake2s", "blake2s_compression", "mixing_g"] {
        rep.function(f);
    }
    rep.assumption("the witness computation (not its constraints) is run at corner and sample messages only");
    let le = |s: &str| -> Vec<bool> { s.bytes().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect() };
    let sp = |n: &mut Net, m: &[Bit]| blake_spec(n, m, &[0; 8], &mut vec![]);
    self_test(rep, "D10/spec/abc", &le("abc"), &sp, "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982", false);
    let lens: Vec<usize> = if rep.thorough { vec![0, 128, 264, 504, 512, 520, 1016, 1024, 1032, 1536] } else { vec![0, 256, 504, 512, 520, 1024] };
    let pers: Vec<[u8; 8]> = vec![[0; 8], *b"12345678", [0xff; 8], [0, 0, 0, 0, 0, 0, 0, 0x80]];
    rep.bound(&format!("messages of {:?} bits, allocated, with four personalisations; mixed bits at some lengths; every value of every wire", lens));
    let ws = if rep.thorough { 6 } else { 2 };
    for (i, l) in lens.iter().enumerate() {
        let p = pers[i % pers.len()];
        check(rep, &format!("D10/blake2s/{}", l), "the digest is not BLAKE2s's", &Call { kinds: pattern("alloc", *l, 1), f: &|t, b| blake2s(&mut *t, b, &p) }, &|n, o, m| blake_spec(n, o, &p, m), ws);
    }
    for (i, (p, l)) in [("mixed", 256), ("low", 512), ("const", 64)].into_iter().enumerate() {
        let q = pers[(i + 1) % pers.len()];
        check(rep, &format!("D10/blake2s/{}{}", p, l), "the digest is not BLAKE2s's", &Call { kinds: pattern(p, l, 1), f: &|t, b| blake2s(&mut *t, b, &q) }, &|n, o, m| blake_spec(n, o, &q, m), ws);
    }
    let _ = F::one().square();
}
