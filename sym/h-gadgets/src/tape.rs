//! A constraint system that records what a gadget emits. Without `witness`
//! the value closures are not called, as when keys are generated.
use ark_ff::Field;
use zkp_r1cs::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

pub type Lc<F> = Vec<(Index, F)>;

#[derive(Clone, Debug)]
pub struct Tape<F: Field> {
    pub witness: bool,
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub rows: Vec<[Lc<F>; 3]>,
}
impl<F: Field> Tape<F> {
    pub fn new(witness: bool) -> Self {
        Tape { witness, inputs: vec![F::one()], aux: vec![], rows: vec![] }
    }
    pub fn value(&self, i: Index) -> F {
        match i {
            Index::Input(k) => self.inputs[k],
            Index::Aux(k) => self.aux[k],
        }
    }
    pub fn eval(&self, t: &[(Index, F)]) -> F {
        t.iter().fold(F::zero(), |s, (i, c)| s + *c * self.value(*i))
    }
    /// the rows `of` another tape, at this tape's wires
    pub fn residuals(&self, of: &[[Lc<F>; 3]]) -> Vec<F> {
        of.iter().map(|r| self.eval(&r[0]) * self.eval(&r[1]) - self.eval(&r[2])).collect()
    }
    /// same wires count
    pub fn sized_like(&self, o: &Tape<F>) -> bool {
        self.inputs.len() == o.inputs.len() && self.aux.len() == o.aux.len() && self.rows.len() == o.rows.len()
    }
}
pub fn lc_of<F: Field>(l: &LinearCombination<F>) -> Lc<F> {
    l.as_ref().iter().map(|(v, c)| (v.get_unchecked(), *c)).collect()
}
impl<F: Field> ConstraintSystem<F> for Tape<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { f()? } else { F::zero() };
        self.aux.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { f()? } else { F::zero() };
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let z = LinearCombination::zero;
        self.rows.push([lc_of(&a(z())), lc_of(&b(z())), lc_of(&c(z()))]);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
    fn num_constraints(&self) -> usize {
        self.rows.len()
    }
}
