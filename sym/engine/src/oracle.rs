//! Transcripts as terms: which symbolic values a challenge was derived from.
use crate::field::SymF;
use crate::run::*;
use crate::smt::*;
use crate::state::{st, Id};
use digest::generic_array::{typenum::U32, GenericArray};
use digest::{BlockInput, FixedOutput, Reset, Update};
use rand_core::{RngCore, SeedableRng};
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

/// (output, preimage) of every digest computed since the last `clear_oracle`
static DIGESTS: Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Mutex::new(Vec::new());

/// a collision-free hash whose preimages are remembered
#[derive(Clone, Default)]
pub struct SymDigest {
    buf: Vec<u8>,
}
impl Update for SymDigest {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.buf.extend_from_slice(d.as_ref())
    }
}
impl Reset for SymDigest {
    fn reset(&mut self) {
        self.buf.clear()
    }
}
impl BlockInput for SymDigest {
    type BlockSize = digest::generic_array::typenum::U64;
}
fn fin(buf: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    let o: [u8; 32] = sha2::Sha256::digest(buf).into();
    if let Ok(mut g) = DIGESTS.lock() {
        g.push((o.to_vec(), buf.to_vec()))
    }
    o
}
impl FixedOutput for SymDigest {
    type OutputSize = U32;
    fn finalize_into(self, out: &mut GenericArray<u8, U32>) {
        out.copy_from_slice(&fin(&self.buf))
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U32>) {
        out.copy_from_slice(&fin(&self.buf));
        self.buf.clear()
    }
}

pub fn clear_oracle() {
    DIGESTS.lock().unwrap().clear();
    merlin::ORACLE.lock().unwrap().clear();
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tok {
    Node(Id),
    Byte(u8),
    Open,
    Close,
}

struct Tables {
    hashes: HashMap<Vec<u8>, Vec<u8>>,
    nodes: HashMap<[u8; 32], Id>,
    chal: HashMap<Id, Vec<u8>>,
}

fn tables() -> Tables {
    let mut hashes: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    for (o, p) in DIGESTS.lock().unwrap().iter().chain(merlin::ORACLE.lock().unwrap().iter()) {
        if o.len() >= 16 {
            hashes.insert(o.clone(), p.clone());
        }
    }
    let s = st();
    Tables { hashes, nodes: s.bytes_to_node.clone(), chal: s.chal_log.iter().map(|(b, i)| (*i, b.clone())).collect() }
}

fn toks(t: &Tables, b: &[u8], depth: usize, out: &mut Vec<Tok>) {
    let mut i = 0;
    while i < b.len() {
        if i + 32 <= b.len() {
            let w = &b[i..i + 32];
            let mut a = [0u8; 32];
            a.copy_from_slice(w);
            if w.iter().any(|x| *x != 0) {
                if let Some(n) = t.nodes.get(&a) {
                    out.push(Tok::Node(*n));
                    i += 32;
                    continue;
                }
                if depth < 40 {
                    if let Some(p) = t.hashes.get(w) {
                        out.push(Tok::Open);
                        toks(t, p, depth + 1, out);
                        out.push(Tok::Close);
                        i += 32;
                        continue;
                    }
                }
            }
        }
        out.push(Tok::Byte(b[i]));
        i += 1;
    }
}

/// the term a challenge (or any byte string produced by a hash, or by a ChaCha
/// stream seeded with a hash) was computed from
fn origin(t: &Tables, bytes: &[u8]) -> Option<Vec<Tok>> {
    let mut out = vec![];
    if let Some(p) = t.hashes.get(bytes) {
        toks(t, p, 0, &mut out);
        return Some(out);
    }
    // a challenge may be made of the first bytes of an output only
    for (o, p) in &t.hashes {
        if bytes.len() >= 16 && o.starts_with(bytes) {
            toks(t, p, 0, &mut out);
            return Some(out);
        }
    }
    for (o, p) in &t.hashes {
        if o.len() != 32 {
            continue;
        }
        let mut s = [0u8; 32];
        s.copy_from_slice(o);
        let mut r = rand_chacha::ChaChaRng::from_seed(s);
        for k in 0..64u8 {
            let mut b = vec![0u8; 16];
            r.fill_bytes(&mut b);
            if b == bytes {
                out.push(Tok::Byte(k));
                out.push(Tok::Open);
                toks(t, p, 0, &mut out);
                out.push(Tok::Close);
                return Some(out);
            }
        }
    }
    None
}

/// every hash-derived challenge of the run so far, in order of creation, with
/// its origin
pub fn challenge_origins(prefix: &str) -> Vec<(Id, Vec<u8>, Option<Vec<Tok>>)> {
    let t = tables();
    let ids: Vec<Id> = {
        let s = st();
        s.chal_log
            .iter()
            .map(|c| c.1)
            .filter(|i| match s.nodes[*i as usize] {
                crate::state::Node::Var(v) => s.vars[v as usize].starts_with(prefix),
                _ => false,
            })
            .collect()
    };
    ids.into_iter()
        .map(|i| {
            let b = t.chal.get(&i).cloned().unwrap_or_default();
            let o = origin(&t, &b);
            (i, b, o)
        })
        .collect()
}

/// the symbolic values in serialised data, in order, and everything else
pub fn flatten(b: &[u8]) -> (Vec<SymF>, Vec<Tok>) {
    let t = tables();
    let mut out = vec![];
    toks(&t, b, 0, &mut out);
    let v = out.iter().filter_map(|x| if let Tok::Node(n) = x { Some(SymF(*n)) } else { None }).collect();
    let r = out.into_iter().map(|x| if let Tok::Node(_) = x { Tok::Open } else { x }).collect();
    (v, r)
}

/// the condition under which two origins are the same term
pub fn same_origin(a: &[Tok], b: &[Tok]) -> Fm {
    if a.len() != b.len() {
        return Fm::False;
    }
    let mut v = vec![];
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Tok::Node(p), Tok::Node(q)) => {
                if p != q {
                    v.push(Fm::Eq(*p, *q))
                }
            }
            (x, y) if x == y => {}
            _ => return Fm::False,
        }
    }
    Fm::And(v)
}

impl Report {
    /// `f` runs the code (prover's or verifier's side) with the component
    /// called `x` standing for the given value; every challenge it draws from
    /// the `first`-th on (counting challenges with the prefix "ch") must change
    /// whenever the component does.
    pub fn must_bind(&mut self, key: &str, first: usize, f: &mut dyn FnMut(SymF)) -> bool {
        let (a, b) = (SymF::var("comp"), SymF::var("comp_other"));
        let own = self.own_coins;
        let mut go = |x: SymF| -> Result<Vec<(Id, Vec<u8>, Option<Vec<Tok>>)>, String> {
            clear_oracle();
            let mut r = vec![];
            let e = run_once(vec![], &mut || {
                crate::state::draws("ch");
                f(x);
                r = challenge_origins("ch");
                if own {
                    r.retain(|c| c.2.is_some());
                }
            });
            match e.out {
                Out::Done(()) => Ok(r),
                Out::Panic(p) => Err(format!("panic: {}", p)),
                Out::Unsupported(u) => Err(u),
            }
        };
        let (ra, rb) = match (go(a), go(b)) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => {
                self.inconclusive(key, &e);
                return false;
            }
        };
        self.witnesses += 2;
        if ra.len() <= first {
            self.inconclusive(key, &format!("only {} challenges drawn, expected more than {}", ra.len(), first));
            return false;
        }
        let mut ok = true;
        let mut seen: HashSet<Id> = HashSet::new();
        for k in first..ra.len() {
            if !seen.insert(ra[k].0) {
                continue;
            }
            let name = format!("{}/challenge{}", key, k);
            // a challenge of the changed run that is the same term as this one
            let fm = match &ra[k].2 {
                None => Fm::True, // not derived from a hash at all
                Some(t) => Fm::Or(rb.iter().map(|(_, _, o)| o.as_ref().map(|o| same_origin(t, o)).unwrap_or(Fm::False)).collect()),
            };
            let q = and(vec![nef(a, b), fm]);
            ok &= self.must_be_unsat(&name, &q, "the challenge does not depend on a component sent before it", &mut |m| {
                // concrete pair: two different values, the same challenge bytes
                let mut bytes = vec![];
                for v in ["comp", "comp_other"] {
                    let x = m.get(v).copied().unwrap_or_else(|| crate::state::hash_fr(v, st().seed));
                    clear_oracle();
                    let mut all = vec![];
                    let e = run_once(vec![], &mut || {
                        crate::state::draws("ch");
                        f(SymF::cst(x));
                        all = challenge_origins("ch").into_iter().filter(|c| !own || c.2.is_some()).map(|c| c.1).collect::<Vec<_>>();
                    });
                    if !matches!(e.out, Out::Done(())) {
                        return None;
                    }
                    bytes.push(all);
                }
                let kb = bytes[0].get(k)?;
                Some(bytes[1].contains(kb))
            });
        }
        ok
    }
}
