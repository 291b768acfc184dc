//! The polynomial commitment PLONK is generic over, as an ideal functionality.
//! Honest side: a commitment remembers its polynomial, a claim holds when the
//! polynomial has the claimed value.  Adversarial side: one KZG equation per
//! claim, C - v = pi * (tau - z), over discrete logs.
use ark_ff::{ToBytes, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly_commit::*;
use ark_serialize::*;
use rand::RngCore;
use std::collections::HashMap;
use std::io::{Read, Result as IoResult, Write};
use std::sync::Mutex;
use symeng::*;

pub type DP = DensePolynomial<SymF>;

#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Params {
    pub deg: u64,
}
impl PCUniversalParams for Params {
    fn max_degree(&self) -> usize {
        self.deg as usize
    }
}
impl PCCommitterKey for Params {
    fn max_degree(&self) -> usize {
        self.deg as usize
    }
    fn supported_degree(&self) -> usize {
        self.deg as usize
    }
}
impl PCVerifierKey for Params {
    fn max_degree(&self) -> usize {
        self.deg as usize
    }
    fn supported_degree(&self) -> usize {
        self.deg as usize
    }
}
impl PCPreparedVerifierKey<Params> for Params {
    fn prepare(vk: &Params) -> Self {
        vk.clone()
    }
}
#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct Comm {
    pub c: SymF,
}
impl ToBytes for Comm {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.c.write(w)
    }
}
impl PCCommitment for Comm {
    fn empty() -> Self {
        Comm { c: SymF::zero() }
    }
    fn has_degree_bound(&self) -> bool {
        false
    }
    fn size_in_bytes(&self) -> usize {
        32
    }
}
impl PCPreparedCommitment<Comm> for Comm {
    fn prepare(c: &Comm) -> Self {
        c.clone()
    }
}
#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct Rand {
    pub r: SymF,
}
impl PCRandomness for Rand {
    fn empty() -> Self {
        Rand { r: SymF::zero() }
    }
    fn rand<R: RngCore>(_: usize, _: bool, _: Option<usize>, _: &mut R) -> Self {
        Rand { r: SymF::zero() }
    }
}
/// one quotient commitment per label of the query set
#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct Pf {
    pub pi: SymF,
}
impl ToBytes for Pf {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.pi.write(w)
    }
}
impl PCProof for Pf {
    fn size_in_bytes(&self) -> usize {
        32
    }
}

pub static POLYS: Mutex<Option<HashMap<Id, Vec<SymF>>>> = Mutex::new(None);
/// opening challenge handed to the last check
pub static EPS: Mutex<Option<SymF>> = Mutex::new(None);

pub fn poly_of(c: SymF) -> Option<Vec<SymF>> {
    POLYS.lock().unwrap().as_ref().and_then(|m| m.get(&c.0).cloned())
}
pub fn tau() -> SymF {
    SymF::var("tau")
}
pub fn horner(p: &[SymF], x: SymF) -> SymF {
    p.iter().rev().fold(SymF::zero(), |s, c| s * x + *c)
}
pub fn pi_var(label: &str) -> SymF {
    SymF::var(&format!("pi_{}", label))
}

pub struct IdealPC;
impl PolynomialCommitment<SymF, DP> for IdealPC {
    type UniversalParams = Params;
    type CommitterKey = Params;
    type VerifierKey = Params;
    type PreparedVerifierKey = Params;
    type Commitment = Comm;
    type PreparedCommitment = Comm;
    type Randomness = Rand;
    type Proof = Pf;
    type BatchProof = Vec<Pf>;
    type Error = Error;

    fn setup<R: RngCore>(max_degree: usize, _: Option<usize>, _: &mut R) -> Result<Params, Error> {
        Ok(Params { deg: max_degree as u64 })
    }
    fn trim(_: &Params, supported_degree: usize, _: usize, _: Option<&[usize]>) -> Result<(Params, Params), Error> {
        let p = Params { deg: supported_degree as u64 };
        Ok((p.clone(), p))
    }
    fn commit<'a>(
        ck: &Params,
        polynomials: impl IntoIterator<Item = &'a LabeledPolynomial<SymF, DP>>,
        _: Option<&mut dyn RngCore>,
    ) -> Result<(Vec<LabeledCommitment<Comm>>, Vec<Rand>), Error> {
        let mut cs = vec![];
        let mut rs = vec![];
        for p in polynomials {
            let co = p.polynomial().coeffs.clone();
            if co.len() > ck.deg as usize + 1 {
                return Err(Error::TooManyCoefficients {
                    num_coefficients: co.len(),
                    num_powers: ck.deg as usize + 1,
                });
            }
            // an opaque name: a fresh value per polynomial
            let c = horner(&co, tau());
            POLYS.lock().unwrap().get_or_insert_with(HashMap::new).insert(c.0, co);
            cs.push(LabeledCommitment::new(p.label().clone(), Comm { c }, None));
            rs.push(Rand::empty());
        }
        Ok((cs, rs))
    }
    fn open_individual_opening_challenges<'a>(
        _: &Params,
        _: impl IntoIterator<Item = &'a LabeledPolynomial<SymF, DP>>,
        _: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        _: &'a SymF,
        _: &dyn Fn(u64) -> SymF,
        _: impl IntoIterator<Item = &'a Rand>,
        _: Option<&mut dyn RngCore>,
    ) -> Result<Pf, Error> {
        symeng::field::unsupported("single opening")
    }
    fn check_individual_opening_challenges<'a>(
        _: &Params,
        _: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        _: &'a SymF,
        _: impl IntoIterator<Item = SymF>,
        _: &Pf,
        _: &dyn Fn(u64) -> SymF,
        _: Option<&mut dyn RngCore>,
    ) -> Result<bool, Error> {
        symeng::field::unsupported("single check")
    }
    fn batch_check_individual_opening_challenges<'a, R: RngCore>(
        _: &Params,
        _: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        _: &QuerySet<SymF>,
        _: &Evaluations<SymF, SymF>,
        _: &Vec<Pf>,
        _: &dyn Fn(u64) -> SymF,
        _: &mut R,
    ) -> Result<bool, Error> {
        symeng::field::unsupported("batch check")
    }
    fn open_combinations_individual_opening_challenges<'a>(
        _: &Params,
        lcs: impl IntoIterator<Item = &'a LinearCombination<SymF>>,
        _: impl IntoIterator<Item = &'a LabeledPolynomial<SymF, DP>>,
        _: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        _: &QuerySet<SymF>,
        _: &dyn Fn(u64) -> SymF,
        _: impl IntoIterator<Item = &'a Rand>,
        _: Option<&mut dyn RngCore>,
    ) -> Result<BatchLCProof<SymF, DP, Self>, Error> {
        let _ = lcs.into_iter().count();
        Ok(BatchLCProof { proof: vec![], evals: None })
    }
    fn check_combinations_individual_opening_challenges<'a, R: RngCore>(
        _: &Params,
        lcs: impl IntoIterator<Item = &'a LinearCombination<SymF>>,
        commitments: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        qs: &QuerySet<SymF>,
        evals: &Evaluations<SymF, SymF>,
        proof: &BatchLCProof<SymF, DP, Self>,
        chal: &dyn Fn(u64) -> SymF,
        _: &mut R,
    ) -> Result<bool, Error> {
        *EPS.lock().unwrap() = Some(chal(1));
        let lcs: HashMap<String, &LinearCombination<SymF>> = lcs.into_iter().map(|l| (l.label.clone(), l)).collect();
        let comms: HashMap<String, SymF> = commitments.into_iter().map(|c| (c.label().clone(), c.commitment().c)).collect();
        let adversarial = !proof.proof.is_empty();
        for (label, (_, point)) in qs {
            let lc = lcs.get(label).ok_or(Error::MissingPolynomial { label: label.clone() })?;
            let v = *evals
                .get(&(label.clone(), *point))
                .ok_or(Error::MissingEvaluation { label: label.clone() })?;
            let mut c = SymF::zero();
            for (co, t) in lc.iter() {
                c += *co
                    * match t {
                        LCTerm::One => SymF::from(1u64),
                        LCTerm::PolyLabel(l) => {
                            let cm = *comms.get(l).ok_or(Error::MissingPolynomial { label: l.clone() })?;
                            if adversarial {
                                cm
                            } else {
                                match poly_of(cm) {
                                    Some(p) => horner(&p, *point),
                                    None => symeng::field::unsupported("unknown commitment"),
                                }
                            }
                        }
                    };
            }
            let good = if adversarial { c - v == pi_var(label) * (tau() - *point) } else { c == v };
            if !good {
                return Ok(false);
            }
        }
        Ok(true)
    }
}
