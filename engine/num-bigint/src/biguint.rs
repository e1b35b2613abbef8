use crate::ParseBigIntError;
use num_integer::{Integer, Roots};
use num_traits::{
    CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, Num, One, Pow, ToPrimitive, Unsigned, Zero,
};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;
use symcore::{Big, T};

/// invariant: the term is >= 0 on every path
#[derive(Clone)]
pub struct BigUint(pub(crate) T);

/// the caller guarantees t >= 0
pub fn lift_nat(t: T) -> BigUint {
    BigUint(t)
}
pub fn nat_term(b: &BigUint) -> &T {
    &b.0
}
type Nat = bigreal::BigUint;

fn f_add(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(a.0.add(&b.0))
}
fn f_sub(a: &BigUint, b: &BigUint) -> BigUint {
    if a.0.lt(&b.0) {
        panic!("Cannot subtract b from a because b is larger than a.");
    }
    BigUint(a.0.sub(&b.0))
}
fn f_mul(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(a.0.mul(&b.0))
}
fn f_div(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(a.0.div_mod_floor(&b.0).0)
}
fn f_rem(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(a.0.div_mod_floor(&b.0).1)
}
fn wrap(b: crate::BigInt) -> BigUint {
    BigUint(b.0)
}
fn int(b: &BigUint) -> crate::BigInt {
    crate::BigInt(b.0.clone())
}
fn f_and(a: &BigUint, b: &BigUint) -> BigUint {
    wrap(int(a) & int(b))
}
fn f_or(a: &BigUint, b: &BigUint) -> BigUint {
    wrap(int(a) | int(b))
}
fn f_xor(a: &BigUint, b: &BigUint) -> BigUint {
    wrap(int(a) ^ int(b))
}
fn f_shl(a: &BigUint, k: usize) -> BigUint {
    wrap(int(a) << k)
}
fn f_shr(a: &BigUint, k: usize) -> BigUint {
    wrap(int(a) >> k)
}
all_ops!(BigUint; u8, u16, u32, u64, u128, usize);

macro_rules! from_prims {
    ($($t:ty),*) => {$(impl From<$t> for BigUint { fn from(n: $t) -> BigUint { BigUint(T::C(Big::from(n))) } }
        impl ToBigUint for $t { fn to_biguint(&self) -> Option<BigUint> { Some(BigUint::from(*self)) } })*};
}
from_prims!(u8, u16, u32, u64, u128, usize);
macro_rules! to_big_signed {
    ($($t:ty),*) => {$(impl ToBigUint for $t { fn to_biguint(&self) -> Option<BigUint> {
        if *self < (0 as $t) { None } else { Nat::to_biguint_from(*self as f64, *self as i128) } } })*};
}
trait Helper {
    fn to_biguint_from(f: f64, i: i128) -> Option<BigUint>;
}
impl Helper for Nat {
    fn to_biguint_from(_f: f64, i: i128) -> Option<BigUint> {
        Some(BigUint(T::C(Big::from(i))))
    }
}
to_big_signed!(i8, i16, i32, i64, i128, isize);
impl ToBigUint for f32 {
    fn to_biguint(&self) -> Option<BigUint> {
        BigUint::from_f32(*self)
    }
}
impl ToBigUint for f64 {
    fn to_biguint(&self) -> Option<BigUint> {
        BigUint::from_f64(*self)
    }
}

macro_rules! rem_assign_scalar {
    ($($s:ty, $to:ident);*) => {$(
        impl RemAssign<BigUint> for $s {
            fn rem_assign(&mut self, other: BigUint) { *self %= &other; }
        }
        impl<'a> RemAssign<&'a BigUint> for $s {
            fn rem_assign(&mut self, other: &BigUint) {
                *self = match other.$to() { None => *self, Some(0) => panic!(), Some(v) => *self % v };
            }
        }
    )*};
}
rem_assign_scalar!(u8, to_u8; u16, to_u16; u32, to_u32; u64, to_u64; usize, to_usize; u128, to_u128;
    i8, to_i8; i16, to_i16; i32, to_i32; i64, to_i64; isize, to_isize; i128, to_i128);

impl Neg for BigUint {
    type Output = BigUint;
    fn neg(self) -> BigUint {
        panic!()
    }
}
impl<'a> Neg for &'a BigUint {
    type Output = BigUint;
    fn neg(self) -> BigUint {
        panic!()
    }
}
impl Unsigned for BigUint {}
impl CheckedSub for BigUint {
    fn checked_sub(&self, v: &BigUint) -> Option<BigUint> {
        if self.0.lt(&v.0) {
            None
        } else {
            Some(BigUint(self.0.sub(&v.0)))
        }
    }
}

impl Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<BigUint, ParseBigIntError> {
        if let Some(t) = crate::undigits(s, radix) {
            return Ok(BigUint(t));
        }
        Nat::from_str_radix(s, radix).map(BigUint::of)
    }
}

macro_rules! pow_impl {
    ($($T:ty),*) => {$(
        impl<'a> Pow<$T> for &'a BigUint {
            type Output = BigUint;
            fn pow(self, rhs: $T) -> BigUint {
                if rhs as u128 > u64::MAX as u128 { symcore::abort(symcore::Abort::Fuel("power with an exponent above 2^64".into())) }
                BigUint(crate::pow_term(&self.0, rhs as u64))
            }
        }
        impl<'a, 'b> Pow<&'b $T> for &'a BigUint {
            type Output = BigUint;
            fn pow(self, rhs: &$T) -> BigUint { Pow::pow(self, *rhs) }
        }
    )*};
}
pow_impl!(u8, u16, u32, u64, usize, u128);
impl<'a, 'b> Pow<&'b BigUint> for &'a BigUint {
    type Output = BigUint;
    fn pow(self, e: &BigUint) -> BigUint {
        wrap(Pow::pow(&int(self), e))
    }
}
impl<'a> Pow<BigUint> for &'a BigUint {
    type Output = BigUint;
    fn pow(self, e: BigUint) -> BigUint {
        Pow::pow(self, &e)
    }
}

impl Integer for BigUint {
    fn div_rem(&self, o: &BigUint) -> (BigUint, BigUint) {
        let (q, r) = self.0.div_mod_floor(&o.0);
        (BigUint(q), BigUint(r))
    }
    fn div_floor(&self, o: &BigUint) -> BigUint {
        self / o
    }
    fn mod_floor(&self, o: &BigUint) -> BigUint {
        self % o
    }
    fn div_mod_floor(&self, o: &BigUint) -> (BigUint, BigUint) {
        self.div_rem(o)
    }
    fn gcd(&self, o: &Self) -> Self {
        BigUint(crate::bigint::term_gcd(&self.0, &o.0))
    }
    fn lcm(&self, o: &BigUint) -> BigUint {
        if self.is_zero() && o.is_zero() {
            Self::zero()
        } else {
            self / self.gcd(o) * o
        }
    }
    fn divides(&self, o: &BigUint) -> bool {
        self.is_multiple_of(o)
    }
    fn is_multiple_of(&self, o: &BigUint) -> bool {
        (self % o).is_zero()
    }
    fn is_even(&self) -> bool {
        self.0.div_mod_floor(&T::int(2)).1.is_zero()
    }
    fn is_odd(&self) -> bool {
        !self.is_even()
    }
}

impl Roots for BigUint {
    fn nth_root(&self, n: u32) -> Self {
        BigUint::of(self.real().nth_root(n))
    }
    fn sqrt(&self) -> Self {
        BigUint::of(self.real().sqrt())
    }
    fn cbrt(&self) -> Self {
        BigUint::of(self.real().cbrt())
    }
}

impl FromPrimitive for BigUint {
    fn from_i64(n: i64) -> Option<BigUint> {
        n.to_biguint()
    }
    fn from_i128(n: i128) -> Option<BigUint> {
        n.to_biguint()
    }
    fn from_u64(n: u64) -> Option<BigUint> {
        Some(BigUint::from(n))
    }
    fn from_u128(n: u128) -> Option<BigUint> {
        Some(BigUint::from(n))
    }
    fn from_f64(n: f64) -> Option<BigUint> {
        Nat::from_f64(n).map(BigUint::of)
    }
}

pub trait ToBigUint {
    fn to_biguint(&self) -> Option<BigUint>;
}
impl ToBigUint for BigUint {
    fn to_biguint(&self) -> Option<BigUint> {
        Some(self.clone())
    }
}

impl BigUint {
    pub(crate) fn real(&self) -> Nat {
        self.0.concretize().to_biguint().expect("non-negative")
    }
    pub(crate) fn of(b: Nat) -> BigUint {
        BigUint(T::C(Big::from(b)))
    }
    pub fn new(digits: Vec<u32>) -> BigUint {
        BigUint::of(Nat::new(digits))
    }
    pub fn from_slice(slice: &[u32]) -> BigUint {
        BigUint::of(Nat::from_slice(slice))
    }
    pub fn assign_from_slice(&mut self, slice: &[u32]) {
        *self = BigUint::from_slice(slice)
    }
    pub fn from_bytes_be(bytes: &[u8]) -> BigUint {
        BigUint::of(Nat::from_bytes_be(bytes))
    }
    pub fn from_bytes_le(bytes: &[u8]) -> BigUint {
        BigUint::of(Nat::from_bytes_le(bytes))
    }
    pub fn parse_bytes(buf: &[u8], radix: u32) -> Option<BigUint> {
        std::str::from_utf8(buf).ok().and_then(|s| BigUint::from_str_radix(s, radix).ok())
    }
    pub fn from_radix_be(buf: &[u8], radix: u32) -> Option<BigUint> {
        Nat::from_radix_be(buf, radix).map(BigUint::of)
    }
    pub fn from_radix_le(buf: &[u8], radix: u32) -> Option<BigUint> {
        Nat::from_radix_le(buf, radix).map(BigUint::of)
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        self.real().to_bytes_be()
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        self.real().to_bytes_le()
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        self.real().to_u32_digits()
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        if radix == 10 {
            return self.to_string();
        }
        match crate::digits_radix(&self.0, radix) {
            Some((_, s)) => s,
            None => self.real().to_str_radix(radix),
        }
    }
    pub fn to_radix_be(&self, radix: u32) -> Vec<u8> {
        self.real().to_radix_be(radix)
    }
    pub fn to_radix_le(&self, radix: u32) -> Vec<u8> {
        self.real().to_radix_le(radix)
    }
    pub fn bits(&self) -> usize {
        crate::bit_len(&self.0)
    }
    pub fn modpow(&self, exponent: &Self, modulus: &Self) -> Self {
        assert!(!modulus.is_zero(), "divide by zero!");
        wrap(int(self).modpow(&int(exponent), &int(modulus)))
    }
    pub fn sqrt(&self) -> Self {
        Roots::sqrt(self)
    }
    pub fn cbrt(&self) -> Self {
        Roots::cbrt(self)
    }
    pub fn nth_root(&self, n: u32) -> Self {
        Roots::nth_root(self, n)
    }
}
