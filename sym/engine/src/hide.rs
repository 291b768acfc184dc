//! Blinding: at fixed challenges, what a proof shows is as random as the
//! prover's own draws.
use crate::field::SymF;
use crate::oracle::*;
use crate::run::*;
use crate::smt::*;
use crate::state::{draws, st, Node};

impl Report {
    /// `prove` runs the real prover (its draws prefixed "rnd", challenges
    /// "ch") on what `setup` returns and serialises the proof. Run twice with
    /// independent randomness and the same challenges: the symbolic values in
    /// the serialised proof must be at most as many as the draws plus the
    /// `eqs` equations the verifier checks between them, and equal values
    /// must imply equal draws.
    pub fn must_hide<T>(&mut self, key: &str, eqs: usize, setup: &mut dyn FnMut() -> T, prove: &mut dyn FnMut(&T) -> Vec<u8>) {
        let mut run = || {
            clear_oracle();
            draws("gen");
            let t = setup();
            let (before, ctr) = {
                let s = st();
                (s.n_ch, s.rng_ctr)
            };
            let mut out: Vec<Vec<SymF>> = vec![];
            let mut raw: Vec<Vec<Tok>> = vec![];
            let mut dr: Vec<Vec<String>> = vec![];
            for pre in ["rnd", "alt"] {
                {
                    let mut s = st();
                    s.n_ch = before;
                    s.rng_ctr = ctr;
                    s.chal.clear();
                    s.chal_log.clear();
                }
                draws(pre);
                let b = prove(&t);
                let (o, r) = flatten(&b);
                out.push(o);
                raw.push(r);
                let s = st();
                dr.push(
                    s.chal_log
                        .iter()
                        .filter_map(|c| match s.nodes[c.1 as usize] {
                            Node::Var(k) => Some(s.vars[k as usize].clone()),
                            _ => None,
                        })
                        .collect(),
                );
            }
            (out, raw, dr)
        };
        let e = run_once(vec![], &mut run);
        self.assumed += e.assumed.len() as u64;
        let (out, raw, dr) = match &e.out {
            Out::Done(x) => x.clone(),
            o => {
                self.inconclusive(key, &format!("{:?}", o));
                return;
            }
        };
        let pick = |d: &Vec<String>, p: &str| d.iter().filter(|n| n.starts_with(p)).cloned().collect::<Vec<_>>();
        let (d1, d2) = (pick(&dr[0], "rnd"), pick(&dr[1], "alt"));
        let chs = pick(&dr[0], "ch");
        let vals = out[0].iter().map(|x| x.0).collect::<std::collections::HashSet<_>>().len();
        self.log(&format!("{}: {} draws, {} values, {} equations, {} challenges", key, d1.len(), vals, eqs, chs.len()));
        if d1.len() != d2.len() || out[0].len() != out[1].len() || raw[0] != raw[1] || d1.len() + eqs < vals {
            self.violation(
                key,
                "a proof carries more values than its independent blinders and the verifier's equations account for",
                serde_json::json!({"draws": d1.len(), "values": vals, "equations": eqs}),
            );
            return;
        }
        let v = |n: &String| SymF::var(n);
        let gens: Vec<String> = {
            let s = st();
            s.vars.iter().filter(|n| n.starts_with("gen")).cloned().collect()
        };
        let mut base: Vec<Fm> = chs.iter().chain(gens.iter()).map(|c| nef(v(c), SymF::from(0u64))).collect();
        base.push(and(out[0].iter().zip(&out[1]).map(|(a, b)| eqf(*a, *b)).collect()));
        let mut open: Vec<usize> = (0..d1.len()).collect();
        let mut done: Vec<usize> = vec![];
        let mut progress = true;
        while progress && !open.is_empty() {
            progress = false;
            for j in open.clone() {
                let mut q: Vec<Fm> = done.iter().map(|k| eqf(v(&d1[*k]), v(&d2[*k]))).collect();
                q.push(nef(v(&d1[j]), v(&d2[j])));
                q.extend(base.iter().cloned());
                let q = and(q);
                let vd = try_expanded(&q, 60_000, &Default::default(), 5).unwrap_or(Verdict::Unknown("size".into()));
                if let Verdict::Unsat = vd {
                    self.ok(&format!("{}/{}", key, j));
                    done.push(j);
                    open.retain(|x| *x != j);
                    progress = true;
                }
            }
        }
        if !open.is_empty() {
            let mut q: Vec<Fm> = done.iter().map(|k| eqf(v(&d1[*k]), v(&d2[*k]))).collect();
            q.push(or(open.iter().map(|j| nef(v(&d1[*j]), v(&d2[*j]))).collect()));
            q.extend(base.iter().cloned());
            let q = and(q);
            self.must_be_unsat(
                key,
                &q,
                "two different choices of the prover's randomness give the same masked values: they are not uniformly blinded",
                &mut |m| {
                    let r = replay_bound(m, &mut run);
                    match r.out {
                        Out::Done((o, w, _)) => Some(w[0] == w[1] && o[0].len() == o[1].len() && o[0].iter().zip(&o[1]).all(|(a, b)| a.as_const() == b.as_const())),
                        _ => None,
                    }
                },
            );
        }
    }
}
