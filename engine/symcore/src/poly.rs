//! Canonical integer polynomials over "atoms" (symbolic inputs and quotient symbols).
use bigreal::BigInt as Big;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

/// Product of atoms: sorted list of (atom, exponent>0); empty = 1.
pub type Mono = Vec<(u32, u32)>;

/// Sorted by monomial, no zero coefficient.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Poly(pub Vec<(Mono, Big)>);

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 {
            out.push(a[i]);
            i += 1
        } else if a[i].0 > b[j].0 {
            out.push(b[j]);
            j += 1
        } else {
            out.push((a[i].0, a[i].1.checked_add(b[j].1).expect("monomial exponent")));
            i += 1;
            j += 1
        }
    }
    out.extend_from_slice(&a[i..]);
    out.extend_from_slice(&b[j..]);
    out
}

/// a / b when b divides a
pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut out = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(v, e) in a {
        if j < b.len() && b[j].0 == v {
            if b[j].1 > e {
                return None;
            }
            if e > b[j].1 {
                out.push((v, e - b[j].1));
            }
            j += 1;
        } else {
            out.push((v, e));
        }
    }
    if j == b.len() {
        Some(out)
    } else {
        None
    }
}

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn constant(c: Big) -> Poly {
        if c.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], c)])
        }
    }
    pub fn atom(a: u32) -> Poly {
        Poly(vec![(vec![(a, 1)], Big::one())])
    }
    pub fn as_const(&self) -> Option<Big> {
        match self.0.len() {
            0 => Some(Big::zero()),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn add_scaled(&self, o: &Poly, k: &Big) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut out = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.cmp(&b[j].0) {
                std::cmp::Ordering::Less => {
                    out.push(a[i].clone());
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    out.push((b[j].0.clone(), &b[j].1 * k));
                    j += 1
                }
                std::cmp::Ordering::Equal => {
                    let c = &a[i].1 + &b[j].1 * k;
                    if !c.is_zero() {
                        out.push((a[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        out.extend_from_slice(&a[i..]);
        for t in &b[j..] {
            out.push((t.0.clone(), &t.1 * k));
        }
        Poly(out)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.add_scaled(o, &Big::one())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add_scaled(o, &-Big::one())
    }
    pub fn scale(&self, k: &Big) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c * k)).collect())
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), -c)).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        let mut acc: std::collections::BTreeMap<Mono, Big> = Default::default();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                let e = acc.entry(mono_mul(m, n)).or_insert_with(Big::zero);
                *e = &*e + c * d;
            }
        }
        Poly(acc.into_iter().filter(|(_, c)| !c.is_zero()).collect())
    }
    /// Exact power; single monomials of any exponent, sums only up to a size limit.
    pub fn pow(&self, e: u32, limit: usize) -> Option<Poly> {
        if e == 0 {
            return Some(Poly::constant(Big::one()));
        }
        if self.0.len() == 1 {
            let (m, c) = &self.0[0];
            let cc = if c.is_one() {
                Big::one()
            } else if (-c).is_one() {
                if e % 2 == 0 { Big::one() } else { -Big::one() }
            } else {
                if (c.bits() as u64) * (e as u64) > 1 << 22 {
                    return None;
                }
                num_traits::pow(c.clone(), e as usize)
            };
            let mm: Option<Mono> = m.iter().map(|&(v, k)| k.checked_mul(e).map(|x| (v, x))).collect();
            return mm.map(|mm| Poly(vec![(mm, cc)]));
        }
        let mut acc = Poly::constant(Big::one());
        for _ in 0..e {
            acc = acc.mul(self);
            if acc.0.len() > limit {
                return None;
            }
        }
        Some(acc)
    }
    pub fn is_linear(&self) -> bool {
        self.0.iter().all(|(m, _)| m.is_empty() || (m.len() == 1 && m[0].1 == 1))
    }
    pub fn atoms(&self, out: &mut std::collections::BTreeSet<u32>) {
        for (m, _) in &self.0 {
            for &(a, _) in m {
                out.insert(a);
            }
        }
    }
    pub fn mentions(&self, a: u32) -> bool {
        self.0.iter().any(|(m, _)| m.iter().any(|x| x.0 == a))
    }
    /// (primitive part L without constant, leading coefficient > 0; k != 0; c)  with  self = k*L + c
    pub fn split(&self) -> (Poly, Big, Big) {
        let mut c = Big::zero();
        let mut rest = self.0.as_slice();
        if let Some((m, k)) = rest.first() {
            if m.is_empty() {
                c = k.clone();
                rest = &rest[1..];
            }
        }
        let mut g = Big::zero();
        for (_, k) in rest {
            g = g.gcd(k);
            if g.is_one() {
                break;
            }
        }
        if g.is_zero() {
            return (Poly::zero(), Big::one(), c);
        }
        if rest[rest.len() - 1].1.is_negative() {
            g = -g;
        }
        let l = Poly(rest.iter().map(|(m, k)| (m.clone(), k / &g)).collect());
        (l, g, c)
    }
    /// self = d*K + B by division with respect to the graded lexicographic order (always a
    /// valid identity; B = 0 exactly when d divides self over the integers).
    pub fn reduce_by(&self, d: &Poly) -> (Poly, Poly) {
        let mut k = Poly::zero();
        let mut b = self.clone();
        let Some((lm, lc)) = d.0.iter().max_by(|x, y| grlex(&x.0, &y.0)).cloned() else { return (k, b) };
        if lm.is_empty() {
            return (k, b);
        }
        for _ in 0..400 {
            let mut hit: Option<(&Mono, &Big)> = None;
            for (m, c) in b.0.iter() {
                if hit.map_or(true, |(n, _)| grlex(n, m) == std::cmp::Ordering::Less)
                    && mono_div(m, &lm).is_some()
                    && (c % &lc).is_zero()
                {
                    hit = Some((m, c));
                }
            }
            match hit {
                None => break,
                Some((m, c)) => {
                    let t = Poly(vec![(mono_div(m, &lm).unwrap(), c / &lc)]);
                    b = b.sub(&d.mul(&t));
                    k = k.add(&t);
                    if b.0.len() > 3000 {
                        return (Poly::zero(), self.clone());
                    }
                }
            }
        }
        (k, b)
    }
    pub fn eval(&self, f: &mut dyn FnMut(u32) -> Option<Big>) -> Option<Big> {
        let mut s = Big::zero();
        for (m, c) in &self.0 {
            let mut p = c.clone();
            for &(a, e) in m {
                let v = f(a)?;
                if v.is_zero() {
                    p = Big::zero();
                    break;
                }
                if v.is_one() {
                    continue;
                }
                if (-&v).is_one() {
                    if e % 2 == 1 {
                        p = -p;
                    }
                    continue;
                }
                if (v.bits() as u64) * (e as u64) > 1 << 22 {
                    return None;
                }
                p = p * num_traits::pow(v, e as usize);
            }
            s = s + p;
        }
        Some(s)
    }
    pub fn subst(&self, f: &dyn Fn(u32) -> Option<Poly>, limit: usize) -> Option<Poly> {
        let mut acc = Poly::zero();
        for (m, c) in &self.0 {
            let mut p = Poly::constant(c.clone());
            for &(a, e) in m {
                match f(a) {
                    None => p = p.mul(&Poly(vec![(vec![(a, e)], Big::one())])),
                    Some(r) => p = p.mul(&r.pow(e, limit)?),
                }
                if p.0.len() > limit {
                    return None;
                }
            }
            acc = acc.add(&p);
        }
        Some(acc)
    }
}

fn grlex(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let deg = |m: &Mono| -> u64 { m.iter().map(|x| x.1 as u64).sum() };
    match deg(a).cmp(&deg(b)) {
        Equal => {}
        o => return o,
    }
    for (x, y) in a.iter().zip(b.iter()) {
        if x.0 != y.0 {
            return if x.0 < y.0 { Greater } else { Less };
        }
        if x.1 != y.1 {
            return x.1.cmp(&y.1);
        }
    }
    Equal
}
