//! `SymF`: a prime field element that is a symbolic expression over BLS12-381 Fr.
use crate::state::{st, Cond, Id};
use ark_bls12_381::Fr;
use ark_ff::{
    fields::LegendreSymbol, BigInteger256, FftField, Field, FpParameters, FromBytes, One, PrimeField, SquareRootField, ToBytes, Zero,
};
use ark_serialize::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::{Read, Result as IoResult, Write};
use std::ops::*;

pub type FrParams = <Fr as PrimeField>::Params;

#[derive(Clone, Copy)]
pub struct SymF(pub Id);

pub const TAG: u64 = 0xFEED_FACE_CAFE_0001;

pub fn tag_of(l: &[u64]) -> Option<Id> {
    if l.len() == 4 && l[3] == TAG && l[1] == TAG {
        Some(l[0] as Id)
    } else {
        None
    }
}

impl SymF {
    pub fn var(name: &str) -> Self {
        SymF(st().var(name))
    }
    pub fn cst(f: Fr) -> Self {
        SymF(st().cst(f))
    }
    pub fn int(i: i64) -> Self {
        if i >= 0 {
            Self::cst(Fr::from(i as u64))
        } else {
            Self::cst(-Fr::from((-i) as u64))
        }
    }
    pub fn fp(&self) -> Fr {
        st().fps[self.0 as usize]
    }
    pub fn as_const(&self) -> Option<Fr> {
        let mut s = st();
        let a = s.res(self.0);
        s.is_const(a)
    }
    /// the order `cmp` gives two values where they differ, recorded nowhere
    pub fn lt_quiet(&self, o: &Self) -> bool {
        let s = st();
        let r = s.fps[self.0 as usize] < s.fps[o.0 as usize];
        let concrete = s.is_const(self.0).is_some() && s.is_const(o.0).is_some();
        r != (s.order_flip && !concrete)
    }
    /// multiplicative inverse without a branch (caller asserts nonzero)
    pub fn inv_unchecked(&self) -> Self {
        SymF(st().inv(self.0))
    }
}

impl Default for SymF {
    fn default() -> Self {
        SymF(st().zero)
    }
}
impl fmt::Debug for SymF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", crate::smt::show(self.0, 4))
    }
}
impl fmt::Display for SymF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", crate::smt::show(self.0, 4))
    }
}
impl PartialEq for SymF {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 {
            return true;
        }
        st().eq(self.0, o.0)
    }
}
impl Eq for SymF {}
impl PartialOrd for SymF {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SymF {
    fn cmp(&self, o: &Self) -> Ordering {
        let mut s = st();
        if self.0 == o.0 || s.fps[self.0 as usize] == s.fps[o.0 as usize] {
            if self.0 != o.0 {
                s.eq(self.0, o.0);
            }
            return Ordering::Equal;
        }
        if let (Some(x), Some(y)) = (s.is_const(self.0), s.is_const(o.0)) {
            return x.cmp(&y);
        }
        s.order_cmps += 1;
        // different symbolic values are ordered only where they differ (a
        // recorded assumption, unless the path already decided it)
        let (a, b) = if self.0 <= o.0 { (self.0, o.0) } else { (o.0, self.0) };
        if s.conds.contains(&Cond::Eq(a, b)) {
            return Ordering::Equal;
        }
        let c = Cond::Ne(a, b);
        if !s.conds.contains(&c) {
            s.conds.push(c);
            s.assumed.push(c);
        }
        // the relative order of two symbolic values is arbitrary but fixed:
        // both directions are exercised through order_flip
        let r = s.fps[self.0 as usize].cmp(&s.fps[o.0 as usize]);
        if s.order_flip {
            r.reverse()
        } else {
            r
        }
    }
}
impl Hash for SymF {
    fn hash<H: Hasher>(&self, h: &mut H) {
        st().fps[self.0 as usize].hash(h)
    }
}
impl zeroize::Zeroize for SymF {
    fn zeroize(&mut self) {
        *self = SymF(st().zero)
    }
}

impl Neg for SymF {
    type Output = Self;
    fn neg(self) -> Self {
        SymF(st().neg(self.0))
    }
}

macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $body:expr) => {
        impl $tr<SymF> for SymF {
            type Output = SymF;
            fn $f(self, o: SymF) -> SymF {
                $body(self, o)
            }
        }
        impl<'a> $tr<&'a SymF> for SymF {
            type Output = SymF;
            fn $f(self, o: &'a SymF) -> SymF {
                $body(self, *o)
            }
        }
        impl<'a> $tr<&'a mut SymF> for SymF {
            type Output = SymF;
            fn $f(self, o: &'a mut SymF) -> SymF {
                $body(self, *o)
            }
        }
        impl $tra<SymF> for SymF {
            fn $fa(&mut self, o: SymF) {
                *self = $body(*self, o)
            }
        }
        impl<'a> $tra<&'a SymF> for SymF {
            fn $fa(&mut self, o: &'a SymF) {
                *self = $body(*self, *o)
            }
        }
        impl<'a> $tra<&'a mut SymF> for SymF {
            fn $fa(&mut self, o: &'a mut SymF) {
                *self = $body(*self, *o)
            }
        }
    };
}
fn f_add(a: SymF, b: SymF) -> SymF {
    SymF(st().add(a.0, b.0))
}
fn f_sub(a: SymF, b: SymF) -> SymF {
    let mut s = st();
    if a.0 == b.0 {
        return SymF(s.zero);
    }
    let nb = s.neg(b.0);
    SymF(s.add(a.0, nb))
}
fn f_mul(a: SymF, b: SymF) -> SymF {
    SymF(st().mul(a.0, b.0))
}
fn f_div(a: SymF, b: SymF) -> SymF {
    a * b.inverse().expect("division by zero")
}
binop!(Add, add, AddAssign, add_assign, f_add);
binop!(Sub, sub, SubAssign, sub_assign, f_sub);
binop!(Mul, mul, MulAssign, mul_assign, f_mul);
binop!(Div, div, DivAssign, div_assign, f_div);

impl core::iter::Sum<SymF> for SymF {
    fn sum<I: Iterator<Item = SymF>>(i: I) -> SymF {
        i.fold(SymF::zero(), |a, b| a + b)
    }
}
impl<'a> core::iter::Sum<&'a SymF> for SymF {
    fn sum<I: Iterator<Item = &'a SymF>>(i: I) -> SymF {
        i.fold(SymF::zero(), |a, b| a + *b)
    }
}
impl core::iter::Product<SymF> for SymF {
    fn product<I: Iterator<Item = SymF>>(i: I) -> SymF {
        i.fold(SymF::one(), |a, b| a * b)
    }
}
impl<'a> core::iter::Product<&'a SymF> for SymF {
    fn product<I: Iterator<Item = &'a SymF>>(i: I) -> SymF {
        i.fold(SymF::one(), |a, b| a * *b)
    }
}
impl Zero for SymF {
    fn zero() -> Self {
        SymF(st().zero)
    }
    fn is_zero(&self) -> bool {
        let mut s = st();
        let z = s.zero;
        s.eq(self.0, z)
    }
}
impl One for SymF {
    fn one() -> Self {
        SymF(st().one)
    }
    fn is_one(&self) -> bool {
        let mut s = st();
        let o = s.one;
        s.eq(self.0, o)
    }
}
macro_rules! from_int {
    ($($t:ty),*) => { $( impl From<$t> for SymF { fn from(x: $t) -> Self { SymF::cst(Fr::from(x)) } } )* };
}
from_int!(u64, u32, u16, u8, bool);
impl From<u128> for SymF {
    /// a 128-bit value comes from a random stream (a short challenge): it is
    /// the same variable whenever the same value is drawn
    fn from(x: u128) -> Self {
        if x >> 64 != 0 {
            SymF(st().challenge(&x.to_le_bytes(), "ch"))
        } else {
            SymF::cst(Fr::from(x))
        }
    }
}

impl From<BigInteger256> for SymF {
    fn from(b: BigInteger256) -> Self {
        Self::from_repr(b).expect("from_repr")
    }
}
impl From<SymF> for BigInteger256 {
    fn from(f: SymF) -> Self {
        f.into_repr()
    }
}
impl std::str::FromStr for SymF {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Fr::from_str(s).map(SymF::cst).map_err(|_| ())
    }
}
impl ToBytes for SymF {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        let b = st().bytes_of(self.0);
        w.write_all(&b)
    }
}
impl FromBytes for SymF {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        st().node_of_bytes(&b)
            .map(SymF)
            .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "bytes"))
    }
}
impl CanonicalSerialize for SymF {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        let b = st().bytes_of(self.0);
        w.write_all(&b)?;
        Ok(())
    }
    fn serialized_size(&self) -> usize {
        32
    }
}
impl CanonicalSerializeWithFlags for SymF {
    fn serialize_with_flags<W: Write, F: Flags>(&self, w: W, _f: F) -> Result<(), SerializationError> {
        self.serialize(w)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        32
    }
}
impl CanonicalDeserialize for SymF {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        st().node_of_bytes(&b).map(SymF).ok_or(SerializationError::InvalidData)
    }
}
impl CanonicalDeserializeWithFlags for SymF {
    fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Self, F), SerializationError> {
        Ok((Self::deserialize(r)?, F::default()))
    }
}
impl Distribution<SymF> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SymF {
        let mut b = [0u8; 16];
        rng.fill_bytes(&mut b);
        {
            let mut s = st();
            let p = s.rnd_prefix;
            SymF(s.challenge(&b, p))
        }
    }
}

impl Field for SymF {
    type BasePrimeField = SymF;
    fn characteristic<'a>() -> &'a [u64] {
        Fr::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn from_base_prime_field_elems(e: &[SymF]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = *self + *self;
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        // small byte strings (domain constants) would be concrete field values;
        // hash outputs are random-oracle answers: a fresh variable per byte string
        if bytes.len() >= 16 && bytes.iter().any(|b| *b != 0) && !st().plain_bytes {
            Some((SymF(st().challenge(bytes, "ch")), F::default()))
        } else {
            Fr::from_random_bytes_with_flags::<F>(bytes).map(|(f, g)| (SymF::cst(f), g))
        }
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = *self * *self;
        self
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            None
        } else {
            Some(SymF(st().inv(self.0)))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        if let Some(i) = self.inverse() {
            *self = i;
            Some(self)
        } else {
            None
        }
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl FftField for SymF {
    type FftParams = FrParams;
    fn two_adic_root_of_unity() -> Self {
        SymF::cst(Fr::two_adic_root_of_unity())
    }
    fn large_subgroup_root_of_unity() -> Option<Self> {
        None
    }
    fn multiplicative_generator() -> Self {
        SymF::cst(Fr::multiplicative_generator())
    }
}
impl PrimeField for SymF {
    type Params = FrParams;
    type BigInt = BigInteger256;
    fn from_repr(r: BigInteger256) -> Option<Self> {
        if let Some(i) = tag_of(&r.0) {
            return Some(SymF(i));
        }
        let mut s = st();
        if s.plain_bytes {
            // the bytes of a term read back as limbs
            let mut b = [0u8; 32];
            for i in 0..4 {
                b[i * 8..i * 8 + 8].copy_from_slice(&r.0[i].to_le_bytes());
            }
            return s.node_of_bytes(&b).map(SymF);
        }
        drop(s);
        Fr::from_repr(r).map(SymF::cst)
    }
    fn into_repr(&self) -> BigInteger256 {
        if let Some(c) = self.as_const() {
            return c.into_repr();
        }
        BigInteger256([self.0 as u64, TAG, TAG, TAG])
    }
}
impl SquareRootField for SymF {
    fn legendre(&self) -> LegendreSymbol {
        match self.as_const() {
            Some(c) => c.legendre(),
            None => unsupported("legendre of a symbolic value"),
        }
    }
    fn sqrt(&self) -> Option<Self> {
        match self.as_const() {
            Some(c) => c.sqrt().map(SymF::cst),
            None => unsupported("sqrt of a symbolic value"),
        }
    }
    fn sqrt_in_place(&mut self) -> Option<&mut Self> {
        if let Some(s) = self.sqrt() {
            *self = s;
            Some(self)
        } else {
            None
        }
    }
}

pub fn unsupported(m: &str) -> ! {
    st().unsupported = Some(m.to_string());
    panic!("UNSUPPORTED: {}", m)
}

#[allow(dead_code)]
fn _check() {
    let _ = FrParams::MODULUS_BITS;
}
