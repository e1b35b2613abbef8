//! stand-in for bigdecimal 0.1.2, as far as sm_ast uses it: digits * 10^-scale
use num::{bigint::ParseBigIntError, BigInt, Num, One, Signed, Zero};
use std::fmt;
use std::ops::{Add, Mul};

#[derive(Clone, Debug)]
pub struct BigDecimal {
    digits: BigInt,
    scale: usize,
    /// what it was read from, printed again as it is
    text: Option<String>,
}
impl PartialEq for BigDecimal {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == std::cmp::Ordering::Equal
    }
}
impl Eq for BigDecimal {}
impl PartialOrd for BigDecimal {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigDecimal {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (&self.digits, self.scale).cmp(&(&o.digits, o.scale))
    }
}
#[derive(Debug)]
pub struct ParseBigDecimalError;
impl From<ParseBigIntError> for ParseBigDecimalError {
    fn from(_: ParseBigIntError) -> Self {
        ParseBigDecimalError
    }
}
impl BigDecimal {
    pub fn from_str_radix(s: &str, radix: u32) -> Result<BigDecimal, ParseBigDecimalError> {
        let (lead, trail) = match s.find('.') {
            None => (s, ""),
            Some(i) => (&s[..i], &s[i + 1..]),
        };
        let digits = <BigInt as Num>::from_str_radix(&format!("{}{}", lead, trail), radix)?;
        Ok(BigDecimal { digits, scale: trail.chars().count(), text: Some(s.to_string()) })
    }
    pub fn is_zero(&self) -> bool {
        self.digits.is_zero()
    }
    pub fn is_one(&self) -> bool {
        self.digits == (0..self.scale).fold(BigInt::one(), |p, _| p * BigInt::from(10))
    }
}
impl<T: Into<BigInt>> From<T> for BigDecimal {
    fn from(n: T) -> Self {
        BigDecimal { digits: n.into(), scale: 0, text: None }
    }
}
impl fmt::Display for BigDecimal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if let Some(t) = &self.text {
            return write!(f, "{}", t);
        }
        let t = self.digits.abs().to_string();
        let t = if t.len() <= self.scale { format!("{}{}", "0".repeat(self.scale + 1 - t.len()), t) } else { t };
        let (a, b) = t.split_at(t.len() - self.scale);
        let sign = if self.digits.is_negative() { "-" } else { "" };
        if self.scale == 0 {
            write!(f, "{}{}", sign, a)
        } else {
            write!(f, "{}{}.{}", sign, a, b)
        }
    }
}
impl Zero for BigDecimal {
    fn zero() -> Self {
        BigDecimal { digits: BigInt::zero(), scale: 0, text: None }
    }
    fn is_zero(&self) -> bool {
        self.digits.is_zero()
    }
}
impl One for BigDecimal {
    fn one() -> Self {
        BigDecimal { digits: BigInt::one(), scale: 0, text: None }
    }
}
impl Add for BigDecimal {
    type Output = BigDecimal;
    fn add(self, o: BigDecimal) -> BigDecimal {
        let s = self.scale.max(o.scale);
        let up = |d: BigDecimal| (d.scale..s).fold(d.digits, |p, _| p * BigInt::from(10));
        BigDecimal { digits: up(self) + up(o), scale: s, text: None }
    }
}
impl Mul for BigDecimal {
    type Output = BigDecimal;
    fn mul(self, o: BigDecimal) -> BigDecimal {
        BigDecimal { digits: self.digits * o.digits, scale: self.scale + o.scale, text: None }
    }
}
