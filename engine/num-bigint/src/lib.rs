//! `num_bigint` 0.2.6 over symbolic integers (see symcore). Every operation on constants is
//! computed by the real num-bigint (vendored as `bigreal`); on symbolic operands it builds
//! terms, and every question with a finite answer (comparison, sign, conversion) is a branch.
#[macro_use]
mod macros;
mod bigint;
mod biguint;
pub use bigint::{BigInt, Sign, ToBigInt};
pub use bigreal::ParseBigIntError;
pub use biguint::{BigUint, ToBigUint};

#[doc(hidden)]
pub mod __sym {
    pub use crate::bigint::{lift, term};
    pub use crate::biguint::{lift_nat, nat_term};
    pub use symcore::*;
}

use symcore::{with, Big, T};

pub(crate) use symcore::{IDW, MAGIC};

/// (negative?, digits)
pub(crate) fn digits10(t: &T) -> (bool, String) {
    if let Some(c) = t.pinned() {
        use num_traits::Signed;
        return (c.is_negative(), c.abs().to_string());
    }
    match t.sign() {
        0 => (false, "0".into()),
        s => {
            if let Some(c) = t.pinned() {
                use num_traits::Signed;
                return (c.is_negative(), c.abs().to_string());
            }
            for c in with(|e| Ok(e.cfg.spelled.clone())) {
                use num_traits::Signed;
                if c.is_negative() == (s < 0) && t.eq(&T::C(c.clone())) {
                    return (s < 0, c.abs().to_string());
                }
            }
            let m = if s < 0 { t.neg() } else { t.clone() };
            symcore::text::ASKED.store(true, std::sync::atomic::Ordering::Relaxed);
            let id = with(|e| Ok(e.display_id(m)));
            (s < 0, format!("{}{:0w$}", MAGIC, id, w = IDW))
        }
    }
}

/// the same for radix 2, 8 and 16: binary digits only, which every radix can read
const MAGIC2: &str = "110010010000111111011010101000100010000101101000110000100011010011";
const RADIXW: usize = 5;
const IDW2: usize = 24;

pub(crate) fn digits_radix(t: &T, radix: u32) -> Option<(bool, String)> {
    if t.pinned().is_some() || ![2, 8, 16].contains(&radix) {
        return None;
    }
    let s = t.sign();
    if t.pinned().is_some() {
        return None;
    }
    let m = if s < 0 { t.neg() } else { t.clone() };
    symcore::text::ASKED.store(true, std::sync::atomic::Ordering::Relaxed);
    let id = with(|e| Ok(e.display_id(m)));
    Some((s < 0, format!("{}{:0r$b}{:0w$b}", MAGIC2, radix, id, r = RADIXW, w = IDW2)))
}

/// the symbolic value such digits stand for, read in the given radix; further digits may follow
pub(crate) fn undigits(s: &str, radix: u32) -> Option<T> {
    if !symcore::active() || s.starts_with('_') {
        return None;
    }
    if symcore::text::has_token(s) {
        if s.contains(MAGIC) || s.contains(MAGIC2) {
            symcore::abort(symcore::Abort::Unknown("a symbolic value inside a run of digits".into()));
        }
        let plain = s.strip_prefix('+').unwrap_or(s).replace('_', "");
        return symcore::text::number(&plain, radix);
    }
    let text: String = s.chars().filter(|c| *c != '_').collect();
    let text = text.trim_start_matches('0');
    let (made_in, id, rest) = if let Some(rest) = text.strip_prefix(MAGIC) {
        (10, rest.get(..IDW)?.parse().ok()?, &rest[IDW..])
    } else if let Some(rest) = text.strip_prefix(MAGIC2) {
        let r = u32::from_str_radix(rest.get(..RADIXW)?, 2).ok()?;
        let id = usize::from_str_radix(rest[RADIXW..].get(..IDW2)?, 2).ok()?;
        (r, id, &rest[RADIXW + IDW2..])
    } else {
        if text.contains(MAGIC) || text.contains(MAGIC2) {
            symcore::abort(symcore::Abort::Unknown("a symbolic value inside a run of digits".into()));
        }
        return None;
    };
    let t: T = with(|e| Ok(e.display.get(id).cloned()))?;
    if made_in != radix {
        symcore::abort(symcore::Abort::Fail(format!("digits in base {} are read in base {}", made_in, radix)));
    }
    if rest.is_empty() {
        return Some(t);
    }
    let low = Big::parse_bytes(rest.as_bytes(), radix)?;
    let shift = (0..rest.len()).fold(Big::from(1), |p, _| p * Big::from(radix));
    Some(t.mul(&T::C(shift)).add(&T::C(low)))
}

/// number of bits of |t|, one path per length
pub(crate) fn bit_len(t: &T) -> usize {
    use num_traits::{One, Zero};
    if let Some(c) = t.pinned() {
        return c.bits();
    }
    let a = t.abs();
    let mut p = Big::one();
    let mut k = 0usize;
    // probe a few powers first so that the number of branches stays small
    loop {
        if a.lt(&T::C(p.clone())) {
            return k;
        }
        k += 1;
        p = p << 1usize;
        if k > 300 {
            symcore::abort(symcore::Abort::Cut("bit length above 300".into()));
        }
        let _ = Big::zero();
    }
}

pub(crate) fn pow_term(a: &T, e: u64) -> T {
    use num_traits::{One, Zero};
    if e <= u32::MAX as u64 {
        return a.pow(e as u32);
    }
    if a.is_zero() {
        return T::C(Big::zero());
    }
    if a.eq(&T::int(1)) {
        return T::C(Big::one());
    }
    if a.eq(&T::int(-1)) {
        return T::int(if e % 2 == 0 { 1 } else { -1 });
    }
    symcore::abort(symcore::Abort::Fuel("power with an exponent above 2^32".into()))
}
