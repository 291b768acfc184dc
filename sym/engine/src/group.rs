//! Generic-group model: a group element is its (symbolic) discrete logarithm.
use crate::field::{tag_of, SymF};
use crate::state::st;
use ark_bls12_381::Fr;
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{BigInteger256, Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, Zero};
use ark_serialize::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::fmt;
use std::hash::Hash;
use std::io::{Read, Result as IoResult, Write};
use std::ops::*;

fn scalar_from_limbs(l: &[u64]) -> SymF {
    if let Some(i) = tag_of(l) {
        return SymF(i);
    }
    // an integer of any size: reduce it
    let mut acc = Fr::zero();
    let two64 = Fr::from(1u128 << 64);
    for w in l.iter().rev() {
        acc = acc * two64 + Fr::from(*w);
    }
    SymF::cst(acc)
}

macro_rules! group {
    ($aff:ident, $proj:ident, $tag:expr, $size:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
        pub struct $aff {
            pub d: SymF,
        }
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
        pub struct $proj {
            pub d: SymF,
        }
        impl $aff {
            pub fn of(d: SymF) -> Self {
                Self { d }
            }
        }
        impl $proj {
            pub fn of(d: SymF) -> Self {
                Self { d }
            }
        }
        impl From<$aff> for $proj {
            fn from(a: $aff) -> Self {
                Self { d: a.d }
            }
        }
        impl From<$proj> for $aff {
            fn from(a: $proj) -> Self {
                Self { d: a.d }
            }
        }
        group!(@common $aff, $tag, $size);
        group!(@common $proj, $tag, $size);
        impl Sub<$proj> for $proj {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                Self { d: self.d - o.d }
            }
        }
        impl SubAssign<$proj> for $proj {
            fn sub_assign(&mut self, o: Self) {
                self.d -= o.d
            }
        }
        impl AddAssign<$proj> for $proj {
            fn add_assign(&mut self, o: Self) {
                self.d += o.d
            }
        }
        impl<'a> Add<&'a $proj> for $proj {
            type Output = Self;
            fn add(self, o: &'a Self) -> Self {
                Self { d: self.d + o.d }
            }
        }
        impl<'a> Sub<&'a $proj> for $proj {
            type Output = Self;
            fn sub(self, o: &'a Self) -> Self {
                Self { d: self.d - o.d }
            }
        }
        impl<'a> AddAssign<&'a $proj> for $proj {
            fn add_assign(&mut self, o: &'a Self) {
                self.d += o.d
            }
        }
        impl<'a> SubAssign<&'a $proj> for $proj {
            fn sub_assign(&mut self, o: &'a Self) {
                self.d -= o.d
            }
        }
        impl MulAssign<SymF> for $proj {
            fn mul_assign(&mut self, o: SymF) {
                self.d *= o
            }
        }
        impl core::iter::Sum<$proj> for $proj {
            fn sum<I: Iterator<Item = $proj>>(i: I) -> Self {
                i.fold(Self::zero(), |a, b| a + b)
            }
        }
        impl<'a> core::iter::Sum<&'a $proj> for $proj {
            fn sum<I: Iterator<Item = &'a $proj>>(i: I) -> Self {
                i.fold(Self::zero(), |a, b| a + *b)
            }
        }
        impl Distribution<$proj> for Standard {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $proj {
                $proj { d: Standard.sample(rng) }
            }
        }
        impl ProjectiveCurve for $proj {
            const COFACTOR: &'static [u64] = &[1];
            type ScalarField = SymF;
            type BaseField = SymF;
            type Affine = $aff;
            fn prime_subgroup_generator() -> Self {
                Self { d: SymF::one() }
            }
            fn batch_normalization(_v: &mut [Self]) {}
            fn is_normalized(&self) -> bool {
                true
            }
            fn double_in_place(&mut self) -> &mut Self {
                self.d = self.d + self.d;
                self
            }
            fn add_assign_mixed(&mut self, o: &$aff) {
                self.d += o.d
            }
            fn mul<S: AsRef<[u64]>>(self, other: S) -> Self {
                Self { d: self.d * scalar_from_limbs(other.as_ref()) }
            }
        }
        impl AffineCurve for $aff {
            const COFACTOR: &'static [u64] = &[1];
            type ScalarField = SymF;
            type BaseField = SymF;
            type Projective = $proj;
            fn prime_subgroup_generator() -> Self {
                Self { d: SymF::one() }
            }
            fn from_random_bytes(b: &[u8]) -> Option<Self> {
                SymF::from_random_bytes(b).map(|d| Self { d })
            }
            fn mul<S: Into<BigInteger256>>(&self, other: S) -> $proj {
                let b: BigInteger256 = other.into();
                $proj { d: self.d * scalar_from_limbs(&b.0) }
            }
            fn mul_by_cofactor_to_projective(&self) -> $proj {
                $proj { d: self.d }
            }
            fn mul_by_cofactor_inv(&self) -> Self {
                *self
            }
        }
    };
    (@common $t:ident, $tag:expr, $size:expr) => {
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "[{}]", self.d)
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "[{}]", self.d)
            }
        }
        impl zeroize::Zeroize for $t {
            fn zeroize(&mut self) {
                self.d = SymF::zero()
            }
        }
        impl Zero for $t {
            fn zero() -> Self {
                Self { d: SymF::zero() }
            }
            fn is_zero(&self) -> bool {
                self.d.is_zero()
            }
        }
        impl Neg for $t {
            type Output = Self;
            fn neg(self) -> Self {
                Self { d: -self.d }
            }
        }
        impl Add<$t> for $t {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                Self { d: self.d + o.d }
            }
        }
        impl ToBytes for $t {
            fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
                let b = st().bytes_of(self.d.0);
                w.write_all(&[$tag])?;
                w.write_all(&b)
            }
        }
        impl FromBytes for $t {
            fn read<R: Read>(mut r: R) -> IoResult<Self> {
                let mut t = [0u8; 1];
                r.read_exact(&mut t)?;
                if t[0] != $tag {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "group tag"));
                }
                Ok(Self { d: SymF::read(r)? })
            }
        }
        impl CanonicalSerialize for $t {
            fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
                w.write_all(&[$tag])?;
                self.d.serialize(w)
            }
            fn serialized_size(&self) -> usize {
                33
            }
        }
        impl CanonicalDeserialize for $t {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let mut t = [0u8; 1];
                r.read_exact(&mut t)?;
                if t[0] != $tag {
                    return Err(SerializationError::InvalidData);
                }
                Ok(Self { d: SymF::deserialize(r)? })
            }
        }
    };
}
group!(G1A, G1P, 0xA1, 48);
group!(G2A, G2P, 0xA2, 96);

/// Target group, written multiplicatively by ark: element = exponent of e(g,h).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct SymGT {
    pub e: SymF,
}
fn nogt() -> ! {
    crate::field::unsupported("additive structure of the target group")
}
impl Default for SymGT {
    fn default() -> Self {
        SymGT { e: SymF::zero() }
    }
}
impl fmt::Debug for SymGT {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "gt^{}", self.e)
    }
}
impl fmt::Display for SymGT {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "gt^{}", self.e)
    }
}
impl zeroize::Zeroize for SymGT {
    fn zeroize(&mut self) {}
}
impl One for SymGT {
    fn one() -> Self {
        SymGT { e: SymF::zero() }
    }
    fn is_one(&self) -> bool {
        self.e.is_zero()
    }
}
impl Zero for SymGT {
    fn zero() -> Self {
        nogt()
    }
    fn is_zero(&self) -> bool {
        false
    }
}
impl Neg for SymGT {
    type Output = Self;
    fn neg(self) -> Self {
        nogt()
    }
}
macro_rules! gtop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $body:expr) => {
        impl $tr<SymGT> for SymGT {
            type Output = SymGT;
            fn $f(self, o: SymGT) -> SymGT {
                $body(self, o)
            }
        }
        impl<'a> $tr<&'a SymGT> for SymGT {
            type Output = SymGT;
            fn $f(self, o: &'a SymGT) -> SymGT {
                $body(self, *o)
            }
        }
        impl $tra<SymGT> for SymGT {
            fn $fa(&mut self, o: SymGT) {
                *self = $body(*self, o)
            }
        }
        impl<'a> $tra<&'a SymGT> for SymGT {
            fn $fa(&mut self, o: &'a SymGT) {
                *self = $body(*self, *o)
            }
        }
    };
}
gtop!(Add, add, AddAssign, add_assign, |_a: SymGT, _b: SymGT| -> SymGT { nogt() });
gtop!(Sub, sub, SubAssign, sub_assign, |_a: SymGT, _b: SymGT| -> SymGT { nogt() });
gtop!(Mul, mul, MulAssign, mul_assign, |a: SymGT, b: SymGT| SymGT { e: a.e + b.e });
gtop!(Div, div, DivAssign, div_assign, |a: SymGT, b: SymGT| SymGT { e: a.e - b.e });
impl core::iter::Sum<SymGT> for SymGT {
    fn sum<I: Iterator<Item = SymGT>>(_i: I) -> Self {
        nogt()
    }
}
impl<'a> core::iter::Sum<&'a SymGT> for SymGT {
    fn sum<I: Iterator<Item = &'a SymGT>>(_i: I) -> Self {
        nogt()
    }
}
impl core::iter::Product<SymGT> for SymGT {
    fn product<I: Iterator<Item = SymGT>>(i: I) -> Self {
        i.fold(Self::one(), |a, b| a * b)
    }
}
impl<'a> core::iter::Product<&'a SymGT> for SymGT {
    fn product<I: Iterator<Item = &'a SymGT>>(i: I) -> Self {
        i.fold(Self::one(), |a, b| a * *b)
    }
}
macro_rules! gt_from {
    ($($t:ty),*) => { $( impl From<$t> for SymGT { fn from(_x: $t) -> Self { nogt() } } )* };
}
gt_from!(u128, u64, u32, u16, u8, bool);
impl ToBytes for SymGT {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        w.write_all(&[0xA3])?;
        self.e.write(w)
    }
}
impl FromBytes for SymGT {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let mut t = [0u8; 1];
        r.read_exact(&mut t)?;
        Ok(SymGT { e: SymF::read(r)? })
    }
}
impl CanonicalSerialize for SymGT {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        w.write_all(&[0xA3])?;
        self.e.serialize(w)
    }
    fn serialized_size(&self) -> usize {
        33
    }
}
impl CanonicalSerializeWithFlags for SymGT {
    fn serialize_with_flags<W: Write, F: Flags>(&self, w: W, _f: F) -> Result<(), SerializationError> {
        self.serialize(w)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        33
    }
}
impl CanonicalDeserialize for SymGT {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let mut t = [0u8; 1];
        r.read_exact(&mut t)?;
        Ok(SymGT { e: SymF::deserialize(r)? })
    }
}
impl CanonicalDeserializeWithFlags for SymGT {
    fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Self, F), SerializationError> {
        Ok((Self::deserialize(r)?, F::default()))
    }
}
impl Distribution<SymGT> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SymGT {
        SymGT { e: Standard.sample(rng) }
    }
}
impl Field for SymGT {
    type BasePrimeField = SymF;
    fn extension_degree() -> u64 {
        1
    }
    fn from_base_prime_field_elems(_e: &[SymF]) -> Option<Self> {
        nogt()
    }
    fn double(&self) -> Self {
        nogt()
    }
    fn double_in_place(&mut self) -> &mut Self {
        nogt()
    }
    fn from_random_bytes_with_flags<F: Flags>(_b: &[u8]) -> Option<(Self, F)> {
        nogt()
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = *self * *self;
        self
    }
    fn inverse(&self) -> Option<Self> {
        Some(SymGT { e: -self.e })
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        self.e = -self.e;
        Some(self)
    }
    fn frobenius_map(&mut self, _: usize) {}
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        SymGT { e: self.e * scalar_from_limbs(exp.as_ref()) }
    }
}
impl SquareRootField for SymGT {
    fn legendre(&self) -> ark_ff::fields::LegendreSymbol {
        nogt()
    }
    fn sqrt(&self) -> Option<Self> {
        nogt()
    }
    fn sqrt_in_place(&mut self) -> Option<&mut Self> {
        nogt()
    }
}

/// The symbolic pairing engine.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SymE;

impl PairingEngine for SymE {
    type Fr = SymF;
    type G1Projective = G1P;
    type G1Affine = G1A;
    type G1Prepared = G1A;
    type G2Projective = G2P;
    type G2Affine = G2A;
    type G2Prepared = G2A;
    type Fq = SymF;
    type Fqe = SymF;
    type Fqk = SymGT;
    fn miller_loop<'a, I>(i: I) -> SymGT
    where
        I: IntoIterator<Item = &'a (G1A, G2A)>,
    {
        let mut e = SymF::zero();
        for (a, b) in i {
            e += a.d * b.d;
        }
        SymGT { e }
    }
    fn final_exponentiation(x: &SymGT) -> Option<SymGT> {
        Some(*x)
    }
}
#[allow(dead_code)]
fn _t() -> usize {
    <SymF as PrimeField>::size_in_bits()
}
