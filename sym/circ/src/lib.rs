//! Circuit families with symbolic coefficients and assignments.
//!
//! Every row's constant coefficient in C is solved for, so that the rows
//! A.z * B.z = C.z hold by construction: the family covers *every* R1CS
//! instance of the shape together with *every* satisfying assignment.
use ark_bls12_381::Fr;
use ark_ff::{Field, PrimeField};
use std::cell::RefCell;
use std::collections::HashMap;
use symeng::SymF;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

/// a field whose elements can be named: symbolic variables for `SymF`,
/// concrete replay values for `Fr`
pub trait VarField: PrimeField {
    fn v(name: &str) -> Self;
    fn n(i: i64) -> Self {
        if i >= 0 {
            Self::from(i as u64)
        } else {
            -Self::from((-i) as u64)
        }
    }
}
impl VarField for SymF {
    fn v(name: &str) -> Self {
        SymF::var(name)
    }
}
thread_local! {
    pub static NATIVE: RefCell<HashMap<String, Fr>> = RefCell::new(HashMap::new());
    pub static NATIVE_SEED: RefCell<u64> = RefCell::new(1);
}
impl VarField for Fr {
    fn v(name: &str) -> Self {
        if let Some(x) = NATIVE.with(|n| n.borrow().get(name).copied()) {
            return x;
        }
        symeng::hash_fr(name, NATIVE_SEED.with(|s| *s.borrow()))
    }
}

#[derive(Clone, Debug)]
pub struct Circ<F: Field> {
    pub ni: usize,
    pub na: usize,
    /// rows of (column, coefficient); column 0 = one, 1..=ni inputs, then aux
    pub rows: Vec<[Vec<(usize, F)>; 3]>,
    pub z: Vec<F>,
    /// allocate the auxiliary variables before the inputs
    pub aux_first: bool,
}

impl<F: PrimeField> Circ<F> {
    pub fn dot(&self, t: &[(usize, F)]) -> F {
        let mut s = F::zero();
        for (i, c) in t {
            s += *c * self.z[*i];
        }
        s
    }
    pub fn inputs(&self) -> Vec<F> {
        self.z[1..=self.ni].to_vec()
    }
    pub fn nc(&self) -> usize {
        self.rows.len()
    }
    /// adjust the constant coefficient of C so that each row is satisfied
    pub fn satisfy(mut self) -> Self {
        for r in 0..self.rows.len() {
            let ab = self.dot(&self.rows[r][0]) * self.dot(&self.rows[r][1]);
            self.rows[r][2].retain(|t| t.0 != 0);
            let c = ab - self.dot(&self.rows[r][2]);
            self.rows[r][2].insert(0, (0, c));
        }
        self
    }
    /// residual A.z*B.z - C.z of each row
    pub fn residuals(&self) -> Vec<F> {
        self.rows.iter().map(|r| self.dot(&r[0]) * self.dot(&r[1]) - self.dot(&r[2])).collect()
    }
}

fn base<F: VarField>(ni: usize, na: usize) -> Circ<F> {
    let mut z = vec![F::one()];
    for i in 0..ni {
        z.push(F::v(&format!("x{}", i)));
    }
    for i in 0..na {
        z.push(F::v(&format!("w{}", i)));
    }
    Circ { ni, na, rows: vec![], z, aux_first: false }
}

/// every coefficient a variable
pub fn dense<F: VarField>(ni: usize, na: usize, nc: usize) -> Circ<F> {
    let mut c = base::<F>(ni, na);
    for r in 0..nc {
        let row = |m: &str, from: usize| -> Vec<(usize, F)> {
            (from..1 + ni + na).map(|j| (j, F::v(&format!("{}{}_{}", m, r, j)))).collect()
        };
        c.rows.push([row("a", 0), row("b", 0), row("c", 1)]);
    }
    c.satisfy()
}

/// concrete sparse coefficients (0, 1, -1, 2, ... patterns), symbolic assignment
pub fn sparse<F: VarField>(ni: usize, na: usize, nc: usize, salt: u64) -> Circ<F> {
    let mut c = base::<F>(ni, na);
    let n = 1 + ni + na;
    let mut h = 0x9E3779B97F4A7C15u64.wrapping_mul(salt + 1);
    let mut nx = || {
        h ^= h << 13;
        h ^= h >> 7;
        h ^= h << 17;
        h
    };
    for r in 0..nc {
        let mut row = |k: u64, from: usize| -> Vec<(usize, F)> {
            let mut v: Vec<(usize, F)> = vec![];
            let m = nx() % (k + 1);
            for _ in 0..m {
                let j = from + (nx() as usize) % (n - from);
                if v.iter().any(|t| t.0 == j) {
                    continue;
                }
                let co = match nx() % 5 {
                    0 | 1 => F::n(1),
                    2 => F::n(-1),
                    3 => F::n(2),
                    _ => F::n((nx() % 1000) as i64),
                };
                v.push((j, co));
            }
            v.sort_by_key(|t| t.0);
            v
        };
        let a = row(3, 0);
        let b = row(2, 0);
        let cc = row(2, 1.min(n - 1));
        let mut rr = [a, b, cc];
        // make sure the variable r is used somewhere
        let j = 1 + r % (n - 1).max(1);
        if j < n && !rr[0].iter().any(|t| t.0 == j) {
            rr[0].push((j, F::n(1)));
        }
        c.rows.push(rr);
    }
    c.satisfy()
}

/// rows in which the same column appears several times (linear combinations
/// built by repeated addition)
pub fn repeated<F: VarField>() -> Circ<F> {
    let mut c = base::<F>(1, 2);
    let k = |s: &str| F::v(s);
    c.rows.push([
        vec![(1, k("ra")), (1, F::n(1)), (2, F::n(2)), (2, k("rb"))],
        vec![(0, F::n(1)), (0, F::n(1)), (3, k("rc")), (3, F::n(1)), (3, F::n(-3))],
        vec![(2, k("rd")), (3, F::n(1)), (2, F::n(1))],
    ]);
    c.rows.push([vec![(3, F::n(1)), (3, F::n(1))], vec![(0, F::n(1))], vec![(2, F::n(1)), (2, F::n(1))]]);
    c.satisfy()
}

impl<F: PrimeField> ConstraintSynthesizer<F> for Circ<F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut vars: Vec<Option<Variable>> = vec![None; 1 + self.ni + self.na];
        vars[0] = Some(CS::one());
        let order: Vec<usize> = if self.aux_first {
            (1 + self.ni..1 + self.ni + self.na).chain(1..=self.ni).collect()
        } else {
            (1..1 + self.ni + self.na).collect()
        };
        for j in order {
            let val = self.z[j];
            vars[j] = Some(if j <= self.ni {
                cs.alloc_input(|| format!("x{}", j), || Ok(val))?
            } else {
                cs.alloc(|| format!("w{}", j), || Ok(val))?
            });
        }
        let lc = |t: &[(usize, F)]| {
            let mut l = LinearCombination::<F>::zero();
            for (j, c) in t {
                l = l + (*c, vars[*j].unwrap());
            }
            l
        };
        for (i, r) in self.rows.iter().enumerate() {
            cs.enforce(|| format!("r{}", i), |_| lc(&r[0]), |_| lc(&r[1]), |_| lc(&r[2]));
        }
        Ok(())
    }
}

/// A constraint system that records what a circuit or gadget produced.
#[derive(Clone, Debug)]
pub struct Rec<F: Field> {
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub rows: Vec<[Vec<(Index, F)>; 3]>,
    pub names: Vec<String>,
}
impl<F: Field> Default for Rec<F> {
    fn default() -> Self {
        Rec { inputs: vec![F::one()], aux: vec![], rows: vec![], names: vec![] }
    }
}
impl<F: Field> Rec<F> {
    pub fn value(&self, i: Index) -> F {
        match i {
            Index::Input(k) => self.inputs[k],
            Index::Aux(k) => self.aux[k],
        }
    }
    pub fn eval(&self, t: &[(Index, F)]) -> F {
        let mut s = F::zero();
        for (i, c) in t {
            s += *c * self.value(*i);
        }
        s
    }
    pub fn residuals(&self) -> Vec<F> {
        self.rows.iter().map(|r| self.eval(&r[0]) * self.eval(&r[1]) - self.eval(&r[2])).collect()
    }
}
impl<F: Field> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.aux.push(f()?);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.inputs.push(f()?);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, ann: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let f = |l: LinearCombination<F>| -> Vec<(Index, F)> {
            l.as_ref().iter().map(|(v, c)| (v.get_unchecked(), *c)).collect()
        };
        self.names.push(ann().into());
        self.rows.push([
            f(a(LinearCombination::zero())),
            f(b(LinearCombination::zero())),
            f(c(LinearCombination::zero())),
        ]);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
    fn num_constraints(&self) -> usize {
        self.rows.len()
    }
}
