use crate::{BigUint, ParseBigIntError, ToBigUint};
use num_integer::{Integer, Roots};
use num_traits::{
    CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, Num, One, Pow, Signed, ToPrimitive, Zero,
};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;
use symcore::{Big, T};

#[derive(PartialEq, PartialOrd, Eq, Ord, Copy, Clone, Debug, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
use Sign::*;
impl Neg for Sign {
    type Output = Sign;
    fn neg(self) -> Sign {
        match self {
            Minus => Plus,
            NoSign => NoSign,
            Plus => Minus,
        }
    }
}
impl Mul<Sign> for Sign {
    type Output = Sign;
    fn mul(self, o: Sign) -> Sign {
        match (self, o) {
            (NoSign, _) | (_, NoSign) => NoSign,
            (Plus, Plus) | (Minus, Minus) => Plus,
            _ => Minus,
        }
    }
}
pub(crate) fn rsign(s: Sign) -> bigreal::Sign {
    match s {
        Minus => bigreal::Sign::Minus,
        NoSign => bigreal::Sign::NoSign,
        Plus => bigreal::Sign::Plus,
    }
}
fn lsign(s: bigreal::Sign) -> Sign {
    match s {
        bigreal::Sign::Minus => Minus,
        bigreal::Sign::NoSign => NoSign,
        bigreal::Sign::Plus => Plus,
    }
}

#[derive(Clone)]
pub struct BigInt(pub(crate) T);

pub fn lift(t: T) -> BigInt {
    BigInt(t)
}
pub fn term(b: &BigInt) -> &T {
    &b.0
}

fn f_add(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt(a.0.add(&b.0))
}
fn f_sub(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt(a.0.sub(&b.0))
}
fn f_mul(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt(a.0.mul(&b.0))
}
fn f_div(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt(a.0.div_rem(&b.0).0)
}
fn f_rem(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt(a.0.div_rem(&b.0).1)
}
fn low_mask(c: &Big) -> Option<Big> {
    // c = 2^k - 1 -> 2^k
    if c.is_negative() {
        return None;
    }
    let n = c + Big::one();
    if (Big::one() << (n.bits() - 1)) == n {
        Some(n)
    } else {
        None
    }
}
fn f_and(a: &BigInt, b: &BigInt) -> BigInt {
    if let (T::P(_), T::C(c)) = (&a.0, &b.0) {
        if let Some(n) = low_mask(c) {
            return BigInt(a.0.div_mod_floor(&T::C(n)).1);
        }
    }
    if let (T::C(_), T::P(_)) = (&a.0, &b.0) {
        return f_and(b, a);
    }
    BigInt(T::C(a.real() & b.real()))
}
fn f_or(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt(T::C(a.real() | b.real()))
}
fn f_xor(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt(T::C(a.real() ^ b.real()))
}
fn f_shl(a: &BigInt, k: usize) -> BigInt {
    symcore::tick(k);
    BigInt(a.0.mul(&T::C(Big::one() << k)))
}
fn f_shr(a: &BigInt, k: usize) -> BigInt {
    if let T::C(c) = &a.0 {
        return BigInt(T::C(c >> k));
    }
    BigInt(a.0.div_mod_floor(&T::C(Big::one() << k)).0)
}
all_ops!(BigInt; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! from_prims {
    ($($t:ty),*) => {$(impl From<$t> for BigInt { fn from(n: $t) -> BigInt { BigInt(T::C(Big::from(n))) } }
        impl ToBigInt for $t { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) } })*};
}
from_prims!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl From<BigUint> for BigInt {
    fn from(n: BigUint) -> BigInt {
        BigInt(n.0)
    }
}

impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(self.0.neg())
    }
}
impl<'a> Neg for &'a BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(self.0.neg())
    }
}
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        -self - 1
    }
}
impl<'a> Not for &'a BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        -self - 1
    }
}
impl CheckedSub for BigInt {
    fn checked_sub(&self, v: &BigInt) -> Option<BigInt> {
        Some(self - v)
    }
}

impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(mut s: &str, radix: u32) -> Result<BigInt, ParseBigIntError> {
        let sign = if s.starts_with('-') {
            let tail = &s[1..];
            if !tail.starts_with('+') {
                s = tail
            }
            Minus
        } else {
            Plus
        };
        let bu = BigUint::from_str_radix(s, radix)?;
        Ok(BigInt::from_biguint(sign, bu))
    }
}

impl Signed for BigInt {
    fn abs(&self) -> BigInt {
        BigInt(self.0.abs())
    }
    fn abs_sub(&self, other: &BigInt) -> BigInt {
        if *self <= *other {
            Zero::zero()
        } else {
            self - other
        }
    }
    fn signum(&self) -> BigInt {
        BigInt(T::int(self.0.sign() as i64))
    }
    fn is_positive(&self) -> bool {
        T::zero().lt(&self.0)
    }
    fn is_negative(&self) -> bool {
        self.0.is_negative()
    }
}

macro_rules! pow_impl {
    ($($T:ty),*) => {$(
        impl<'a> Pow<$T> for &'a BigInt {
            type Output = BigInt;
            fn pow(self, rhs: $T) -> BigInt {
                if rhs as u128 > u64::MAX as u128 { symcore::abort(symcore::Abort::Fuel("power with an exponent above 2^64".into())) }
                BigInt(crate::pow_term(&self.0, rhs as u64))
            }
        }
        impl<'a, 'b> Pow<&'b $T> for &'a BigInt {
            type Output = BigInt;
            fn pow(self, rhs: &$T) -> BigInt { Pow::pow(self, *rhs) }
        }
    )*};
}
pow_impl!(u8, u16, u32, u64, usize, u128);
impl<'a, 'b> Pow<&'b BigUint> for &'a BigInt {
    type Output = BigInt;
    fn pow(self, e: &BigUint) -> BigInt {
        if self.is_one() || e.is_zero() {
            BigInt::one()
        } else if self.is_zero() {
            BigInt::zero()
        } else if (-self).is_one() {
            if e.is_even() {
                BigInt::one()
            } else {
                -BigInt::one()
            }
        } else if let Some(x) = e.to_u64() {
            Pow::pow(self, x)
        } else {
            panic!("memory overflow")
        }
    }
}
impl<'a> Pow<BigUint> for &'a BigInt {
    type Output = BigInt;
    fn pow(self, e: BigUint) -> BigInt {
        Pow::pow(self, &e)
    }
}

pub(crate) fn term_gcd(a: &T, b: &T) -> T {
    use num_integer::Integer;
    if let (T::C(x), T::C(y)) = (a, b) {
        symcore::tick(x.bits() + y.bits());
        return T::C(x.gcd(y));
    }
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = a.div_mod_floor(&b).1;
        a = b;
        b = r;
    }
    a
}

impl Integer for BigInt {
    fn div_rem(&self, o: &BigInt) -> (BigInt, BigInt) {
        let (q, r) = self.0.div_rem(&o.0);
        (BigInt(q), BigInt(r))
    }
    fn div_floor(&self, o: &BigInt) -> BigInt {
        BigInt(self.0.div_mod_floor(&o.0).0)
    }
    fn mod_floor(&self, o: &BigInt) -> BigInt {
        BigInt(self.0.div_mod_floor(&o.0).1)
    }
    fn div_mod_floor(&self, o: &BigInt) -> (BigInt, BigInt) {
        let (q, r) = self.0.div_mod_floor(&o.0);
        (BigInt(q), BigInt(r))
    }
    fn gcd(&self, o: &BigInt) -> BigInt {
        BigInt(term_gcd(&self.0, &o.0))
    }
    fn lcm(&self, o: &BigInt) -> BigInt {
        if self.is_zero() && o.is_zero() {
            BigInt::zero()
        } else {
            let (a, b) = (self.abs(), o.abs());
            &a / a.gcd(&b) * b
        }
    }
    fn divides(&self, o: &BigInt) -> bool {
        self.is_multiple_of(o)
    }
    fn is_multiple_of(&self, o: &BigInt) -> bool {
        self.0.div_mod_floor(&o.0).1.is_zero()
    }
    fn is_even(&self) -> bool {
        self.0.div_mod_floor(&T::int(2)).1.is_zero()
    }
    fn is_odd(&self) -> bool {
        !self.is_even()
    }
}

impl Roots for BigInt {
    fn nth_root(&self, n: u32) -> Self {
        BigInt(T::C(self.real().nth_root(n)))
    }
    fn sqrt(&self) -> Self {
        BigInt(T::C(self.real().sqrt()))
    }
    fn cbrt(&self) -> Self {
        BigInt(T::C(self.real().cbrt()))
    }
}

impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_i128(n: i128) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u64(n: u64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u128(n: u128) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_f64(n: f64) -> Option<BigInt> {
        Big::from_f64(n).map(|b| BigInt(T::C(b)))
    }
}

pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
impl ToBigInt for BigUint {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(BigInt(self.0.clone()))
    }
}
impl ToBigInt for f32 {
    fn to_bigint(&self) -> Option<BigInt> {
        BigInt::from_f32(*self)
    }
}
impl ToBigInt for f64 {
    fn to_bigint(&self) -> Option<BigInt> {
        BigInt::from_f64(*self)
    }
}
impl ToBigUint for BigInt {
    fn to_biguint(&self) -> Option<BigUint> {
        if self.0.is_negative() {
            None
        } else {
            Some(BigUint(self.0.clone()))
        }
    }
}

impl BigInt {
    pub(crate) fn real(&self) -> Big {
        self.0.concretize()
    }
    fn of(b: Big) -> BigInt {
        BigInt(T::C(b))
    }
    pub fn new(sign: Sign, digits: Vec<u32>) -> BigInt {
        BigInt::of(Big::new(rsign(sign), digits))
    }
    pub fn from_biguint(sign: Sign, data: BigUint) -> BigInt {
        match sign {
            NoSign => BigInt::zero(),
            Plus => BigInt(data.0),
            Minus => BigInt(data.0.neg()),
        }
    }
    pub fn from_slice(sign: Sign, slice: &[u32]) -> BigInt {
        BigInt::of(Big::from_slice(rsign(sign), slice))
    }
    pub fn assign_from_slice(&mut self, sign: Sign, slice: &[u32]) {
        *self = BigInt::from_slice(sign, slice)
    }
    pub fn from_bytes_be(sign: Sign, bytes: &[u8]) -> BigInt {
        BigInt::of(Big::from_bytes_be(rsign(sign), bytes))
    }
    pub fn from_bytes_le(sign: Sign, bytes: &[u8]) -> BigInt {
        BigInt::of(Big::from_bytes_le(rsign(sign), bytes))
    }
    pub fn from_signed_bytes_be(digits: &[u8]) -> BigInt {
        BigInt::of(Big::from_signed_bytes_be(digits))
    }
    pub fn from_signed_bytes_le(digits: &[u8]) -> BigInt {
        BigInt::of(Big::from_signed_bytes_le(digits))
    }
    pub fn parse_bytes(buf: &[u8], radix: u32) -> Option<BigInt> {
        std::str::from_utf8(buf).ok().and_then(|s| BigInt::from_str_radix(s, radix).ok())
    }
    pub fn from_radix_be(sign: Sign, buf: &[u8], radix: u32) -> Option<BigInt> {
        Big::from_radix_be(rsign(sign), buf, radix).map(BigInt::of)
    }
    pub fn from_radix_le(sign: Sign, buf: &[u8], radix: u32) -> Option<BigInt> {
        Big::from_radix_le(rsign(sign), buf, radix).map(BigInt::of)
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        let (s, v) = self.real().to_bytes_be();
        (lsign(s), v)
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        let (s, v) = self.real().to_bytes_le();
        (lsign(s), v)
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        let (s, v) = self.real().to_u32_digits();
        (lsign(s), v)
    }
    pub fn to_signed_bytes_be(&self) -> Vec<u8> {
        self.real().to_signed_bytes_be()
    }
    pub fn to_signed_bytes_le(&self) -> Vec<u8> {
        self.real().to_signed_bytes_le()
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        if radix == 10 {
            return self.to_string();
        }
        match crate::digits_radix(&self.0, radix) {
            Some((n, s)) => format!("{}{}", if n { "-" } else { "" }, s),
            None => self.real().to_str_radix(radix),
        }
    }
    pub fn to_radix_be(&self, radix: u32) -> (Sign, Vec<u8>) {
        let (s, v) = self.real().to_radix_be(radix);
        (lsign(s), v)
    }
    pub fn to_radix_le(&self, radix: u32) -> (Sign, Vec<u8>) {
        let (s, v) = self.real().to_radix_le(radix);
        (lsign(s), v)
    }
    pub fn sign(&self) -> Sign {
        match self.0.sign() {
            0 => NoSign,
            1 => Plus,
            _ => Minus,
        }
    }
    pub fn bits(&self) -> usize {
        crate::bit_len(&self.0)
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        ToBigUint::to_biguint(self)
    }
    pub fn checked_add(&self, v: &BigInt) -> Option<BigInt> {
        Some(self + v)
    }
    pub fn checked_sub(&self, v: &BigInt) -> Option<BigInt> {
        Some(self - v)
    }
    pub fn checked_mul(&self, v: &BigInt) -> Option<BigInt> {
        Some(self * v)
    }
    pub fn checked_div(&self, v: &BigInt) -> Option<BigInt> {
        if v.is_zero() {
            None
        } else {
            Some(self / v)
        }
    }
    pub fn modpow(&self, exponent: &Self, modulus: &Self) -> Self {
        assert!(!exponent.is_negative(), "negative exponentiation is not supported!");
        assert!(!modulus.is_zero(), "divide by zero!");
        let e = exponent.real();
        if let (Some(b), Some(m)) = (self.0.pinned(), modulus.0.pinned()) {
            return BigInt::of(b.modpow(&e, &m));
        }
        match e.to_u32() {
            Some(k) if k <= 40 => {
                let mut acc = BigInt::one().mod_floor(modulus);
                for _ in 0..k {
                    acc = (acc * self).mod_floor(modulus);
                }
                acc
            }
            _ => BigInt::of(self.real().modpow(&e, &modulus.real())),
        }
    }
    pub fn sqrt(&self) -> Self {
        Roots::sqrt(self)
    }
    pub fn cbrt(&self) -> Self {
        Roots::cbrt(self)
    }
    pub fn nth_root(&self, n: u32) -> Self {
        Roots::nth_root(self, n)
    }
}
