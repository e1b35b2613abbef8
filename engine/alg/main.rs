//! Harnesses over the public interface of sm_algorithm.
#[path = "../vm/vm.rs"]
mod vm;
use num::integer::ExtendedGcd;
use sm_algorithm as sm;
use vm::*;

// ---- reference arithmetic (independent of the code under test) -----------------------------
fn euclid(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = a.mod_floor(&b);
        a = b;
        b = r;
    }
    a
}
/// the same number, by the sequence of divisions that num-integer's extended_gcd takes
fn gcd_of(a: &BigInt, b: &BigInt) -> BigInt {
    a.extended_gcd(b).gcd
}
fn divides(d: &BigInt, x: &BigInt) -> bool {
    if d.is_zero() {
        x.is_zero()
    } else {
        x.mod_floor(d).is_zero()
    }
}
fn product(a: &BigInt, e: u32) -> BigInt {
    (0..e).fold(BigInt::one(), |p, _| p * a)
}
fn err(e: &sm::Error) -> &'static str {
    use sm::Error::*;
    match e {
        OverFlow => "OverFlow",
        ComplexInfinity => "ComplexInfinity",
        IOError(_) => "IOError",
        Unimplemented => "Unimplemented",
        Indeterminate => "Indeterminate",
        Undefined(_) => "Undefined",
    }
}
fn show(r: &sm::Result<BigInt>) {
    match r {
        Ok(v) => observe("value", v),
        Err(e) => note("error", err(e)),
    }
}

// ---- C01 power --------------------------------------------------------------------------
fn judge_power(a: &BigInt, e: &BigUint, r: &sm::Result<BigInt>, exact: impl Fn() -> BigInt) {
    match r {
        Ok(v) => {
            check(!(a.is_zero() && e.is_zero()), "0^0 is given a value");
            reach("value");
            if *e > BigUint::from(u32::MAX) && a.abs() > BigInt::one() {
                check(v.abs() > two_pow(4096), "a power of an exponent beyond 32 bits is far too small");
                out_of_bound("powers with an exponent beyond 32 bits that are given a value");
            }
            check(*v == exact(), "the power is not the product of its factors");
        }
        Err(sm::Error::Indeterminate) => {
            reach("indeterminate");
            check(a.is_zero() && e.is_zero(), "a defined power is called indeterminate");
        }
        Err(sm::Error::OverFlow) => {
            reach("overflow");
            check(*e > BigUint::from(u32::MAX), "overflow reported for an exponent below 2^32");
            check(!a.is_zero() && !a.is_one(), "overflow reported for a power of 0 or 1");
        }
        Err(_) => check(false, "power: error of the wrong kind"),
    }
}
/// any base, exponents listed
fn power_any_base() {
    let wide = [255u32, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 32767, 32768, 65535, 65536, 65537, 100_000];
    let small = if tier() { 1200 } else { 400 };
    let k = choose("exponent_index", small + wide.len() as u32);
    let e = if k < small { k } else { wide[(k - small) as usize] };
    let a = int("a");
    let r = sm::power_iu(&a, &BigUint::from(e));
    show(&r);
    judge_power(&a, &BigUint::from(e), &r, || product(&a, e));
}
/// bases listed, any exponent
fn power_any_exponent() {
    let bases = [0i64, 1, -1, 2, -2, 3, 10, -10, 1 << 40];
    let a = bi(bases[choose("base_index", bases.len() as u32) as usize]);
    let e = nat("e");
    let r = sm::power_iu(&a, &e);
    show(&r);
    judge_power(&a, &e, &r, || {
        if a.is_zero() {
            BigInt::zero()
        } else if a.is_one() {
            BigInt::one()
        } else {
            let n = machine(&BigInt::from(e.clone()));
            if (-&a).is_one() {
                return bi(if n % 2 == 0 { 1 } else { -1 });
            }
            product(&a, n as u32)
        }
    });
}
/// any exponent of -1
fn power_of_minus_one() {
    let e = nat("e");
    let r = sm::power_iu(&bi(-1), &e);
    show(&r);
    judge_power(&bi(-1), &e, &r, || {
        let n = machine(&BigInt::from(e.clone()));
        bi(if n % 2 == 0 { 1 } else { -1 })
    });
}
/// any base and any exponent that does not fit 32 bits
fn power_huge_exponent() {
    let a = int("a");
    let e = nat("e");
    assume(e > BigUint::from(u32::MAX));
    assume(a.is_zero() || a.is_one() || a.abs() > bi(1));
    let r = sm::power_iu(&a, &e);
    show(&r);
    judge_power(&a, &e, &r, || {
        if a.is_zero() {
            BigInt::zero()
        } else if a.is_one() {
            BigInt::one()
        } else {
            unreachable!()
        }
    });
}
/// a^x * a^y = a^(x+y), (ab)^x = a^x b^x
fn power_laws() {
    let n = if tier() { 24 } else { 14 };
    let x = choose("x", n);
    let y = choose("y", n);
    let (a, b) = (int("a"), int("b"));
    assume(!a.is_zero() && !b.is_zero());
    // bases 1 and -1 one by one: their powers meet every shortcut
    let units = |v: BigInt| if v.abs().is_one() { bi(machine(&v)) } else { v };
    let (a, b) = (units(a), units(b));
    let p = |u: &BigInt, e: u32| match sm::power_iu(u, &BigUint::from(e)) {
        Ok(v) => v,
        Err(_) => {
            check(false, "small power refused");
            unreachable!()
        }
    };
    reach("laws");
    check(p(&a, x) * p(&a, y) == p(&a, x + y), "a^x a^y differs from a^(x+y)");
    check(p(&a, x) * p(&b, x) == p(&(&a * &b), x), "a^x b^x differs from (ab)^x");
    check(p(&p(&a, x), y) == p(&a, x * y), "(a^x)^y differs from a^(xy)");
}

// ---- C02 extended gcd ----------------------------------------------------------------------
fn judge_egcd(a: &BigInt, b: &BigInt, full: bool) {
    let (g, v) = sm::extended_gcd2(a, b);
    observe("g", &g);
    check(v.len() == 2, "not two Bezout coefficients");
    observe("x", &v[0]);
    observe("y", &v[1]);
    check(a * &v[0] + b * &v[1] == g, "the Bezout identity fails");
    check(!g.is_negative(), "the greatest common divisor is negative");
    if g.is_zero() {
        reach("zero");
        check(a.is_zero() && b.is_zero(), "the greatest common divisor of non-zero numbers is 0");
    } else {
        reach("positive");
        if full {
            check(divides(&g, a), "the greatest common divisor does not divide the first number");
            check(divides(&g, b), "the greatest common divisor does not divide the second number");
        }
    }
}
fn egcd_second_small() {
    let w = if tier() { 500 } else { 110 };
    let b = range("b", -w, w);
    let a = int("a");
    judge_egcd(&a, &b, true);
}
fn egcd_first_small() {
    let w = if tier() { 500 } else { 110 };
    let a = range("a", -w, w);
    let b = int("b");
    judge_egcd(&a, &b, true);
}
fn egcd_any() {
    let a = int("a");
    let b = int("b");
    judge_egcd(&a, &b, true);
}

/// numbers that take long or special chains of divisions
const DEEP: [&str; 35] = [
    "1", "2", "341", "561", "2047", "25326001", "3215031751", "6", "12", "97", "720720", "832040", "1346269", "2147483647", "2147483648", "4294967296", "30030", "223092870",
    "600851475143", "1000000000000000000", "2305843009213693951", "2880067194370816120", "4660046610375530309",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "998244359987710471", "332825110087067562321196029789634457848", "538522340430300790495419781092981030533",
    "170141183460469231731687303715884105727",
    "176023680645013966468226945392411250770384383304492191886725992896575345044216019675", "284812298108489611757988937681460995615380088782304890986477195645969271404032323901",
    "115792089237316195423570985008687907853269984665640564039457584007913129639747", "653318623500070906096690267158057820537143710472954871543071966369497141477376",
];
/// x from the list and y = r + t x, r from the list, t any integer: (x, y)
fn deep(x: &str, positive: bool) -> (BigInt, BigInt) {
    let n = DEEP.len() as u32;
    let some = |i: u32| {
        let v = big(DEEP[i as usize % DEEP.len()]);
        if (i as usize) < DEEP.len() { v } else { -v }
    };
    let k = choose(&format!("{}_index", x), if positive { n } else { 2 * n });
    let r = choose("residue_index", n + 1);
    let x = some(k);
    let r = if r == n { BigInt::zero() } else { some(r) };
    let t = int("t");
    let y = r + t * &x;
    (x, y)
}
fn egcd_deep() {
    if choose("order", 2) == 0 {
        let (b, a) = deep("b", false);
        judge_egcd(&a, &b, true);
    } else {
        let (a, b) = deep("a", false);
        judge_egcd(&a, &b, true);
    }
}

// ---- C03 coprimality -------------------------------------------------------------------------
fn judge_coprime(x: BigInt, y: BigInt) {
    let one = euclid(&x, &y).is_one();
    let r = sm::is_coprime(x, y);
    note("coprime", if r { "yes" } else { "no" });
    if one {
        reach("coprime");
        check(r, "coprime numbers are called not coprime");
    } else {
        reach("common factor");
        check(!r, "numbers with a common factor are called coprime");
    }
}
fn coprime_second_small() {
    let w = if tier() { 500 } else { 110 };
    let y = range("y", -w, w);
    let x = int("x");
    judge_coprime(x, y);
}
fn coprime_first_small() {
    let w = if tier() { 500 } else { 110 };
    let x = range("x", -w, w);
    let y = int("y");
    judge_coprime(x, y);
}
fn coprime_deep() {
    let (x, y) = deep("x", false);
    if choose("order", 2) == 0 {
        judge_coprime(x, y);
    } else {
        judge_coprime(y, x);
    }
}
/// d u and d v share the factor d; d and d u + 1, u > 0, do not share any
fn coprime_shared() {
    let d = int("d");
    let u = int("u");
    let v = int("v");
    assume(d > bi(1));
    let r = sm::is_coprime(&d * &u, &d * &v);
    reach("shared factor");
    check(!r, "numbers with a common factor are called coprime");
}
fn coprime_neighbours() {
    let d = BigInt::from(nat("d"));
    let u = BigInt::from(nat("u"));
    let r = if choose("order", 2) == 0 {
        sm::is_coprime(d.clone(), &d * &u + &d + bi(1))
    } else {
        sm::is_coprime(&d * &u + &d + bi(1), d.clone())
    };
    reach("neighbours");
    check(r, "d and du+1 are called not coprime");
}

// ---- C04 modular inverse -----------------------------------------------------------------
fn judge_inverse(a: &BigInt, m: &BigInt, witness: bool) {
    let r = sm::modulo_inverse(a, m);
    match r {
        Some(x) => {
            observe("x", &x);
            reach("inverse");
            if witness {
                // a x - 1 = m k for a k read off the Bezout identity, or else decided by division
                let ExtendedGcd { y, .. } = a.extended_gcd(m);
                let t = a * &x - bi(1);
                if t == m * (a - &y) || t == -(m * &y) {
                    return;
                }
                check(divides(m, &t), "the inverse times the number is not 1");
            } else {
                check(divides(m, &(a * &x - bi(1))), "the inverse times the number is not 1");
            }
        }
        None => {
            note("x", "none");
            reach("none");
            let g = if witness { gcd_of(a, m) } else { euclid(a, m) };
            check(!g.is_one(), "no inverse found for a number coprime to the modulus");
        }
    }
}
fn inverse_small_modulus() {
    let w = if tier() { 600 } else { 250 };
    let m = range("m", 1, w);
    let a = int("a");
    judge_inverse(&a, &m, false);
}
fn inverse_small_number() {
    let w = if tier() { 400 } else { 150 };
    let a = range("a", -w, w);
    let m = int("m");
    assume(m.is_positive());
    judge_inverse(&a, &m, true);
}
fn inverse_deep() {
    if choose("order", 2) == 0 {
        let (m, a) = deep("m", true);
        judge_inverse(&a, &m, true);
    } else {
        let (a, m) = deep("a", false);
        assume(m.is_positive());
        judge_inverse(&a, &m, true);
    }
}
fn inverse_any() {
    let a = BigInt::from(nat("a"));
    let m = int("m");
    assume(m.is_positive());
    judge_inverse(&a, &m, true);
}
fn inverse_negative() {
    let a = int("a");
    let m = int("m");
    assume(a.is_negative() && m.is_positive());
    judge_inverse(&a, &m, true);
}

// ---- C05 modular division ------------------------------------------------------------------
fn judge_division(a: &BigInt, b: &BigInt, m: &BigInt, witness: bool) {
    let r = sm::modulo_division(a, b, m);
    match r {
        Some(x) => {
            observe("x", &x);
            reach("quotient");
            let t = b * &x - a;
            if witness {
                let ExtendedGcd { gcd, y, .. } = b.extended_gcd(m);
                let q = a.div_floor(&gcd);
                if t == -(m * y * q) {
                    return;
                }
            }
            check(divides(m, &t), "the divisor times the quotient is not the dividend");
        }
        None => {
            note("x", "none");
            reach("none");
            let g = if witness { gcd_of(b, m) } else { euclid(b, m) };
            check(!divides(&g, a), "a solvable division is refused");
        }
    }
}
fn division_small_modulus() {
    let w = if tier() { 200 } else { 90 };
    let m = range("m", 1, w);
    let a = int("a");
    let b = int("b");
    judge_division(&a, &b, &m, false);
}
fn division_small_divisor() {
    let w = if tier() { 150 } else { 60 };
    let b = range("b", -w, w);
    let a = int("a");
    let m = int("m");
    assume(m.is_positive());
    judge_division(&a, &b, &m, true);
}
/// b x = q g + e (mod m), g the common divisor of b and m: solvable for e = 0, not for most others
fn division_deep() {
    let (b, m) = if choose("order", 2) == 0 {
        let (m, b) = deep("m", true);
        (b, m)
    } else {
        let (b, m) = deep("b", false);
        assume(m.is_positive());
        (b, m)
    };
    let g = gcd_of(&b, &m);
    let e = choose("excess", 3) as i64 - 1;
    let a = int("q") * g + bi(e);
    judge_division(&a, &b, &m, true);
}
fn division_any() {
    let a = int("a");
    let b = int("b");
    let m = int("m");
    assume(m.is_positive());
    judge_division(&a, &b, &m, true);
}

// ---- C06 Chinese remainder ------------------------------------------------------------------
fn judge_crt(u: &[BigInt], m: &[BigInt]) {
    let mut coprime = true;
    for i in 0..m.len() {
        for j in 0..i {
            coprime &= euclid(&m[i], &m[j]).is_one();
        }
    }
    match sm::chinese_remainder(u, m) {
        Some(x) => {
            observe("x", &x);
            check(u.len() == m.len(), "a system of unequal lengths is given a solution");
            reach("solution");
            for i in 0..m.len() {
                check(divides(&m[i], &(&x - &u[i])), "the solution breaks a congruence");
            }
        }
        None => {
            note("x", "none");
            reach("none");
            check(u.len() != m.len() || !coprime, "a solvable system is refused");
        }
    }
}
fn crt_small_moduli() {
    // (number of congruences, largest modulus)
    let sizes = if tier() { [(0, 0), (1, 300), (2, 100), (3, 24), (4, 10), (5, 5), (6, 3)] } else { [(0, 0), (1, 150), (2, 45), (3, 13), (4, 6), (5, 3), (6, 2)] };
    let (n, w) = sizes[choose("size", sizes.len() as u32) as usize];
    let m: Vec<BigInt> = (0..n).map(|i| bi(machine(&range(&format!("m{}", i), 1, w)))).collect();
    let u: Vec<BigInt> = (0..n).map(|i| int(&format!("u{}", i))).collect();
    judge_crt(&u, &m);
}
fn crt_large_moduli() {
    let big_m = [
        "2", "3", "5", "7", "4", "9", "1000000007", "998244353", "2147483647", "4294967296", "18446744073709551616",
        "2305843009213693951", "170141183460469231731687303715884105727", "1000000000000000000000000000057",
        "46349", "65537", "3037000507", "4294967291", "9223372036854775783", "18446744073709551557", "4294967295",
        "340282366920938463463374607431768211507",
    ];
    let n = 2 + choose("n", if tier() { 3 } else { 2 }) as usize;
    let (off, span) = if n == 2 { (0, big_m.len() as u32) } else if n == 3 { (4, if tier() { 7 } else { 5 }) } else { (5, 4) };
    let m: Vec<BigInt> = (0..n)
        .map(|i| {
            let k = choose(&format!("m{}", i), span) as usize;
            big(big_m[if n == 2 { k } else { k + off }])
        })
        .collect();
    let u: Vec<BigInt> = (0..n).map(|i| int(&format!("u{}", i))).collect();
    judge_crt(&u, &m);
}
/// many congruences, modulo primes, in three orders; or with a common factor at two places
fn crt_many() {
    let sizes = [7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65];
    let n = sizes[choose("n", if tier() { 18 } else { 13 }) as usize];
    let mut m: Vec<i64> = (2..400).filter(|p| (2..*p).all(|d| p % d != 0)).take(n).collect();
    match choose("order", 5) {
        0 => (),
        1 => m.reverse(),
        2 => m.rotate_left(n / 2),
        3 => m[n - 1] = 6,
        _ => m[n / 2] = m[n - 1],
    }
    let m: Vec<BigInt> = m.into_iter().map(bi).collect();
    let open = n - 1 - choose("open", 2) as usize;
    let u: Vec<BigInt> = (0..n).map(|i| if i == open { int(&format!("u{}", i)) } else { bi(i as i64 * 7 - 11) }).collect();
    judge_crt(&u, &m);
}
fn crt_unequal_lengths() {
    let (a, b) = (choose("residues", 4), choose("moduli", 4));
    assume(a != b);
    let m: Vec<BigInt> = (0..b).map(|i| bi([2, 3, 5, 7][i as usize])).collect();
    let u: Vec<BigInt> = (0..a).map(|i| int(&format!("u{}", i))).collect();
    judge_crt(&u, &m);
}

// ---- C07 factorial ---------------------------------------------------------------------------
fn factorial_any() {
    judge_factorial(int("n"));
}
fn judge_factorial(n: BigInt) {
    let r = sm::factorial_i(&n);
    show(&r);
    if n.is_negative() {
        reach("negative");
        check(matches!(r, Err(sm::Error::ComplexInfinity)), "the factorial of a negative number is not complex infinity");
        return;
    }
    if n > BigInt::from(isize::MAX) {
        reach("huge");
        check(matches!(r, Err(sm::Error::OverFlow)), "a factorial that cannot be computed is not refused as overflow");
        return;
    }
    check(!matches!(r, Err(sm::Error::OverFlow)), "a factorial of a machine word is refused as overflow");
    let k = machine(&n);
    let mut want = BigInt::one();
    for i in 1..=k {
        want = want * bi(i);
    }
    reach("value");
    check(matches!(&r, Ok(v) if *v == want), "the factorial is not the product 1..n");
    check(BigInt::from(sm::factorial_fold_u(k as usize)) == want, "the unsigned factorial is not the product 1..n");
}

/// beyond 16 bits, where the product of two factors leaves 32 bits
fn factorial_far() {
    let k = [20000u32, 46342, 65539][choose("index", 3) as usize];
    let want = (1..=k).fold(BigInt::one(), |p, i| p * BigInt::from(i));
    reach("value");
    let r = sm::factorial_i(&BigInt::from(k));
    check(matches!(&r, Ok(v) if *v == want), "the factorial is not the product 1..n");
    check(BigInt::from(sm::factorial_fold_u(k as usize)) == want, "the unsigned factorial is not the product 1..n");
}

// ---- C08 Fibonacci ----------------------------------------------------------------------------
fn fib(n: i64) -> BigInt {
    let (mut a, mut b) = (BigInt::zero(), BigInt::one());
    for _ in 0..n.unsigned_abs() {
        let c = &a + &b;
        a = b;
        b = c;
    }
    if n < 0 && n % 2 == 0 {
        -a
    } else {
        a
    }
}
fn fibonacci_any() {
    judge_fibonacci(int("n"));
}
fn judge_fibonacci(n: BigInt) {
    let r = sm::fibonacci_i(&n);
    show(&r);
    if n > BigInt::from(isize::MAX) || n < BigInt::from(isize::MIN) {
        reach("huge");
        check(matches!(r, Err(sm::Error::OverFlow)), "a Fibonacci number that cannot be computed is not refused as overflow");
        return;
    }
    check(!matches!(r, Err(sm::Error::OverFlow)), "the Fibonacci number of a machine word is refused as overflow");
    let k = machine(&n);
    reach(if k < 0 { "negative" } else { "value" });
    let want = fib(k);
    check(matches!(&r, Ok(v) if *v == want), "the Fibonacci number breaks the recurrence");
    if k >= 0 {
        check(BigInt::from(sm::fibonacci_fold_u(k as usize)) == want, "the iterative Fibonacci number breaks the recurrence");
        check(BigInt::from(sm::fibonacci_fast_u(k as usize)) == want, "the doubling Fibonacci number breaks the recurrence");
    }
}

// ---- C09 / C10 primes ---------------------------------------------------------------------
mod tables;
const PRIMES_UPTO: i64 = 1_100_000;
/// the primes in order, each found by dividing by the smaller ones
fn primes() -> &'static [i64] {
    static P: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<i64> = vec![];
        for n in 2..=PRIMES_UPTO {
            if v.iter().take_while(|p| **p * **p <= n).all(|p| n % p != 0) {
                v.push(n);
            }
        }
        v
    })
}
fn decade(n: &BigInt, upto: u32) -> Option<usize> {
    let mut p = BigInt::one();
    for k in 0..=upto {
        if *n == p {
            return Some(k as usize);
        }
        p = p * bi(10);
    }
    None
}
fn prime_sum_any() {
    judge_prime_sum(int("n"));
}
fn judge_prime_sum(n: BigInt) {
    let r = sm::prime_sum_i(&n);
    show(&r);
    if n.is_negative() {
        reach("negative");
        check(matches!(r, Err(sm::Error::Undefined(_))), "a prime sum up to a negative number is not undefined");
        return;
    }
    if let Some(k) = decade(&n, 30) {
        reach("decade");
        match r {
            Ok(v) => {
                check(k < tables::PRIME_SUM.len(), "a value beyond the known prime sums");
                check(v == big(tables::PRIME_SUM[k]), "the sum of primes up to a power of ten is wrong");
            }
            Err(sm::Error::Unimplemented) => check(k >= tables::PRIME_SUM.len(), "a known prime sum is refused"),
            Err(_) => check(false, "prime sum: error of the wrong kind"),
        }
        return;
    }
    if n > BigInt::from(u64::MAX) {
        reach("huge");
        check(matches!(r, Err(sm::Error::Unimplemented)), "a prime sum that cannot be computed is not refused");
        return;
    }
    let k = machine(&n);
    reach("value");
    let sum: i64 = primes().iter().take_while(|p| **p <= k).sum();
    check(matches!(&r, Ok(v) if *v == bi(sum)), "the sum is not that of the primes up to n");
    check(sm::prime_sum_u64(k as u64) == sum as u64, "the machine sum is not that of the primes up to n");
}
/// beyond the window: machine-word corners, squares of primes, powers of ten
fn prime_sum_large() {
    let far = tables::PRIME_SUM_AT.len();
    let decades = if tier() { 11 } else { 10 };
    let k = choose("index", (far + decades) as u32) as usize;
    let (n, want) = if k < far {
        tables::PRIME_SUM_AT[k]
    } else {
        (10u64.pow((k - far) as u32), tables::PRIME_SUM[k - far].parse().unwrap())
    };
    reach("value");
    check(sm::prime_sum_u64(n) == want, "the machine sum is not that of the primes up to n");
    let r = sm::prime_sum_i(&BigInt::from(n));
    show(&r);
    check(matches!(&r, Ok(v) if *v == BigInt::from(want)), "the sum is not that of the primes up to n");
}
fn prime_count_any() {
    judge_prime_count(int("n"));
}
fn judge_prime_count(n: BigInt) {
    let r = sm::prime_count_i(&n);
    show(&r);
    if n.is_negative() {
        reach("negative");
        check(matches!(r, Err(sm::Error::Undefined(_))), "a prime count up to a negative number is not undefined");
        return;
    }
    if let Some(k) = decade(&n, 40) {
        reach("decade");
        match r {
            Ok(v) => {
                check(k < tables::PRIME_COUNT.len(), "a value beyond the known prime counts");
                check(v == big(tables::PRIME_COUNT[k]), "the number of primes up to a power of ten is wrong");
            }
            Err(sm::Error::Unimplemented) => check(k >= tables::PRIME_COUNT.len(), "a known prime count is refused"),
            Err(_) => check(false, "prime count: error of the wrong kind"),
        }
        return;
    }
    match r {
        Err(sm::Error::Unimplemented) => reach("refused"),
        Err(_) => check(false, "prime count: error of the wrong kind"),
        Ok(v) => {
            if n > bi(PRIMES_UPTO) {
                out_of_bound("prime counts above 1100000 that are not powers of ten");
            }
            let k = machine(&n);
            let c = primes().iter().take_while(|p| **p <= k).count();
            check(v == bi(c as i64), "the number of primes up to n is wrong");
        }
    }
}

// ---- several calls in a row: nothing of a call shows in the next -----------------------------
/// one after the other: n, m, n
fn in_a_row(judge: fn(BigInt)) {
    let (n, m) = (int("n"), int("m"));
    judge(n.clone());
    judge(m);
    judge(n);
}
fn power_again() {
    let listed = [0u32, 1, 2, 3, 4, 5, 7, 8, 16, 20, 31, 64];
    let k = listed.len() as u32;
    let (e, f) = (listed[choose("e_index", k) as usize], listed[choose("f_index", k) as usize]);
    let (a, b) = (int("a"), int("b"));
    for (x, e) in [(&a, e), (&a, f), (&b, e), (&a, e)] {
        let r = sm::power_iu(x, &BigUint::from(e));
        judge_power(x, &BigUint::from(e), &r, || product(x, e));
    }
}
fn egcd_again() {
    let w = if tier() { 12 } else { 7 };
    let (b, d) = (range("b", -w, w), range("d", -w, w));
    let a = int("a");
    judge_egcd(&a, &b, true);
    judge_egcd(&a, &d, true);
    judge_egcd(&d, &a, true);
    judge_egcd(&a, &b, true);
}
fn coprime_again() {
    let w = if tier() { 12 } else { 7 };
    let (b, d) = (range("b", -w, w), range("d", -w, w));
    let a = int("a");
    for (x, y) in [(&a, &b), (&a, &d), (&d, &a), (&b, &d), (&a, &b)] {
        judge_coprime(x.clone(), y.clone());
    }
}
fn inverse_again() {
    let w = if tier() { 12 } else { 7 };
    let (m, n) = (range("m", 1, w), range("n", 1, w));
    let (a, b) = (int("a"), range("b", -3, 3));
    for (x, y) in [(&a, &m), (&a, &n), (&b, &n), (&b, &m), (&a, &m)] {
        judge_inverse(x, y, false);
    }
}
fn division_again() {
    let w = if tier() { 8 } else { 5 };
    let (m, n) = (range("m", 1, w), range("n", 1, w));
    let (a, b, c) = (int("a"), range("b", -3, 3), range("c", -2, 2));
    for (x, y, z) in [(&a, &b, &m), (&a, &b, &n), (&a, &c, &n), (&c, &b, &m), (&a, &b, &m)] {
        judge_division(x, y, z, false);
    }
}
fn crt_again() {
    let w = if tier() { 6 } else { 4 };
    let m: Vec<BigInt> = (0..3).map(|i| range(&format!("m{}", i), 1, w)).collect();
    let u: Vec<BigInt> = (0..2).map(|i| int(&format!("u{}", i))).collect();
    let n = [m[2].clone(), m[0].clone()];
    judge_crt(&u, &m[..2]);
    judge_crt(&u, &n);
    judge_crt(&[u[1].clone(), u[0].clone()], &m[..2]);
    judge_crt(&u[..1], &m[..1]);
    judge_crt(&u, &m[..2]);
}
fn factorial_again() {
    in_a_row(judge_factorial)
}
fn fibonacci_again() {
    in_a_row(judge_fibonacci)
}
fn prime_sum_again() {
    in_a_row(judge_prime_sum)
}
fn prime_count_again() {
    in_a_row(judge_prime_count)
}

/// exponents beyond 32 bits, close to where a conversion wraps
fn far() -> Vec<BigInt> {
    [32usize, 33, 63, 64].iter().flat_map(|k| (0..4).map(move |d| two_pow(*k) + bi(d))).chain(vec![two_pow(64) - bi(1)]).collect()
}
/// small numbers and powers of ten
fn spelled() -> Vec<BigInt> {
    let mut p = BigInt::one();
    let mut v: Vec<BigInt> = (-3..13).chain(vec![16, 20, 25, 99, 1001]).map(bi).collect();
    for k in 0..31 {
        if k > 1 {
            v.push(p.clone());
        }
        p = p * bi(10);
    }
    v
}
fn two_pow(k: usize) -> BigInt {
    BigInt::one() << k
}

fn main() {
    drive(&[
        Harness { name: "power_any_base", labels: &["value", "indeterminate"], run: power_any_base, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = format!("base: every integer; exponents 0..{} and 255 256 257 500 511 512 513 1000 1023 1024 1025 2047 2048 4096 32767 32768 65535 65536 65537 100000", if k.thorough { 1199 } else { 399 });
        } },
        Harness { name: "power_any_exponent", labels: &["value", "indeterminate", "overflow"], run: power_any_exponent, cfg: |k| {
            let w = if k.thorough { 5000 } else { 1200 };
            k.window = (-8, w);
            k.split = 400;
            k.corners = far();
            k.bound = format!("bases 0 1 -1 2 -2 3 10 -10 2^40; exponent: every natural number for bases 0, 1, and every one in 0..{} or >= 2^32 otherwise", w);
        } },
        Harness { name: "power_of_minus_one", labels: &["value", "overflow"], run: power_of_minus_one, cfg: |k| {
            k.edges = true;
            k.window = (-20, if k.thorough { 100_000 } else { 5000 });
            k.split = 4000;
            k.corners = far();
            for e in 12..32 {
                k.corners.extend((-1..2).map(|d| two_pow(e) + bi(d)));
            }
            k.corners.extend(vec![two_pow(32) - bi(1), two_pow(32) - bi(2)]);
            k.bound = format!("base -1; every exponent in 0..{} or >= 2^32, and those next to 2^12 .. 2^32", k.window.1);
        } },
        Harness { name: "power_huge_exponent", labels: &["value", "overflow"], run: power_huge_exponent, cfg: |k| {
            k.corners = far();
            k.bound = "every base but -1; every exponent >= 2^32; where the code takes the exponent as a machine word, the ones next to 2^32, 2^33, 2^63, 2^64".into();
        } },
        Harness { name: "power_laws", labels: &["laws"], run: power_laws, cfg: |k| {
            k.split = 1500;
            k.edges = true;
            k.window = (-20, 20);
            k.bound = format!("every pair of non-zero bases; exponents 0..{}", if k.thorough { 23 } else { 13 });
        } },
        Harness { name: "egcd_second_small", labels: &["positive", "zero"], run: egcd_second_small, cfg: |k| {
            k.split = 1500;
            k.edges = true;
            k.window = (-60, 60);
            k.bound = format!("a: every integer; |b| <= {}", if k.thorough { 500 } else { 110 });
        } },
        Harness { name: "egcd_first_small", labels: &["positive", "zero"], run: egcd_first_small, cfg: |k| {
            k.split = 1500;
            k.edges = true;
            k.window = (-60, 60);
            k.bound = format!("|a| <= {}; b: every integer", if k.thorough { 500 } else { 110 });
        } },
        Harness { name: "egcd_deep", labels: &["positive"], run: egcd_deep, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = "one number from a list of 70 of up to 278 bits, the other any integer with one of 36 listed residues, in both orders".into();
        } },
        Harness { name: "egcd_any", labels: &["positive"], run: egcd_any, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.symbolic_divisions = if k.thorough { 7 } else { 6 };
            k.bound = format!("every pair of integers whose computation and checks take at most {} divisions by a non-constant", k.symbolic_divisions);
        } },
        Harness { name: "coprime_second_small", labels: &["coprime", "common factor"], run: coprime_second_small, cfg: |k| {
            k.split = 1500;
            k.edges = true;
            k.window = (-60, 60);
            k.bound = format!("x: every integer; |y| <= {}", if k.thorough { 500 } else { 110 });
        } },
        Harness { name: "coprime_first_small", labels: &["coprime", "common factor"], run: coprime_first_small, cfg: |k| {
            k.split = 1500;
            k.edges = true;
            k.window = (-60, 60);
            k.bound = format!("|x| <= {}; y: every integer", if k.thorough { 500 } else { 110 });
        } },
        Harness { name: "coprime_deep", labels: &["coprime", "common factor"], run: coprime_deep, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = "one number from a list of 70 of up to 278 bits, the other any integer with one of 36 listed residues, in both orders".into();
        } },
        Harness { name: "coprime_shared", labels: &["shared factor"], run: coprime_shared, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.symbolic_divisions = if k.thorough { 6 } else { 5 };
            k.bound = format!("every pair (du, dv) with d > 1 that the code settles within {} divisions by a non-constant", k.symbolic_divisions);
        } },
        Harness { name: "coprime_neighbours", labels: &["neighbours"], run: coprime_neighbours, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.symbolic_divisions = if k.thorough { 3 } else { 2 };
            k.bound = "every pair (d, du+d+1), d, u >= 0, in both orders".into();
        } },
        Harness { name: "inverse_small_modulus", labels: &["inverse", "none"], run: inverse_small_modulus, cfg: |k| {
            k.split = 1500;
            k.edges = true;
            k.window = (-60, 60);
            k.bound = format!("a: every integer; m in 1..{}", if k.thorough { 600 } else { 250 });
        } },
        Harness { name: "inverse_small_number", labels: &["inverse", "none"], run: inverse_small_number, cfg: |k| {
            k.split = 1500;
            k.edges = true;
            k.window = (-60, 60);
            k.bound = format!("|a| <= {}; m: every positive integer", if k.thorough { 400 } else { 150 });
        } },
        Harness { name: "inverse_deep", labels: &["inverse", "none"], run: inverse_deep, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = "one of number and modulus from a list of up to 278 bits, the other any integer with one of 36 listed residues".into();
        } },
        Harness { name: "inverse_any", labels: &["inverse", "none"], run: inverse_any, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.symbolic_divisions = if k.thorough { 10 } else { 8 };
            k.bound = format!("every a and every m >= 1 whose computation and checks take at most {} divisions by a non-constant", k.symbolic_divisions);
        } },
        Harness { name: "inverse_negative", labels: &["inverse"], run: inverse_negative, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.symbolic_divisions = if k.thorough { 6 } else { 5 };
            k.bound = format!("every a < 0 and every m >= 1 whose computation and checks take at most {} divisions by a non-constant", k.symbolic_divisions);
        } },
        Harness { name: "division_small_modulus", labels: &["quotient", "none"], run: division_small_modulus, cfg: |k| {
            k.split = 1500;
            k.edges = true;
            k.window = (-60, 60);
            k.bound = format!("a, b: every integer; m in 1..{}", if k.thorough { 200 } else { 90 });
        } },
        Harness { name: "division_small_divisor", labels: &["quotient", "none"], run: division_small_divisor, cfg: |k| {
            k.split = 200;
            k.edges = true;
            k.window = (-60, 60);
            k.bound = format!("a: every integer; |b| <= {}; m: every positive integer", if k.thorough { 150 } else { 60 });
        } },
        Harness { name: "division_deep", labels: &["quotient", "none"], run: division_deep, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = "one of divisor and modulus from a list of up to 278 bits, the other any integer with one of 36 listed residues; dividend: every integer next to a multiple of their gcd".into();
        } },
        Harness { name: "division_any", labels: &["quotient"], run: division_any, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.symbolic_divisions = if k.thorough { 7 } else { 5 };
            k.bound = format!("every a, b and every m >= 1 whose computation and checks take at most {} divisions by a non-constant", k.symbolic_divisions);
        } },
        Harness { name: "crt_small_moduli", labels: &["solution", "none"], run: crt_small_moduli, cfg: |k| {
            k.edges = true;
            k.window = (-60, 60);
            k.bound = if k.thorough { "residues: every integer; up to 6 congruences, moduli <= 300, 100, 24, 10, 5, 3 for 1..6 of them" } else { "residues: every integer; up to 6 congruences, moduli <= 150, 45, 13, 6, 3, 2 for 1..6 of them" }.into();
        } },
        Harness { name: "crt_large_moduli", labels: &["solution", "none"], run: crt_large_moduli, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = "residues: every integer; 2 to 4 moduli from a list of 22 up to 2^128".into();
        } },
        Harness { name: "crt_many", labels: &["solution", "none"], run: crt_many, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = format!("one of the last two residues: every integer; 7 to {} congruences modulo primes, in 3 orders, or with a common factor", if k.thorough { 65 } else { 33 });
        } },
        Harness { name: "crt_unequal_lengths", labels: &["none"], run: crt_unequal_lengths, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = "residues: every integer; 0 to 3 residues against 0 to 3 moduli".into();
        } },
        Harness { name: "factorial_any", labels: &["value", "negative", "huge"], run: factorial_any, cfg: |k| {
            let w = if k.thorough { 6000 } else { 2100 };
            k.spelled = spelled();
            k.window = (-w, w);
            k.split = 3000;
            let far = [3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000];
            k.corners = far.iter().map(|c| bi(*c)).collect();
            for e in &[10, 15, 16, 31, 32, 62, 63] {
                k.corners.extend((-1..2).map(|d| bi(d) - two_pow(*e)).filter(|c| *c >= BigInt::from(isize::MIN)));
            }
            k.corners.extend((1..9).map(|i| bi(-1000 * i)));
            k.bound = format!("every n below -2^63 or above 2^63-1, every n in -{}..{}, 9 larger ones up to 10000, -2^k-1 to -2^k+1 up to 2^63", w, w);
        } },
        Harness { name: "factorial_far", labels: &["value"], run: factorial_far, cfg: |k| {
            k.fuel = 400_000_000;
            k.path_secs = 200;
            k.bound = "n = 20000, 46342, 65539".into();
        } },
        Harness { name: "fibonacci_any", labels: &["value", "negative", "huge"], run: fibonacci_any, cfg: |k| {
            let w = if k.thorough { 12_000 } else { 4000 };
            k.spelled = spelled();
            k.window = (-w, w);
            k.split = 5000;
            let far = [3000, 3001, 4095, 4096, 4097, 4181, 5000, 6765, 8191, 8192, 8193, 10000, 10001, 10002, 10003, 16384, 20000, 32767, 32768, 32769];
            k.corners = far.iter().flat_map(|c| vec![bi(*c), bi(-*c)]).collect();
            k.corners.extend((3..60i64).flat_map(|i| vec![bi(1009 + i * 617 + i * i), bi(-1013 - i * 613 - i * i)]));
            k.bound = format!("every n in -{}..{}, 76 larger indices up to 40893 and as many negative ones, every n outside 64 bits", w, w);
        } },
        Harness { name: "prime_sum_any", labels: &["value", "negative", "decade", "huge"], run: prime_sum_any, cfg: |k| {
            let w = if k.thorough { 120_000 } else { 20_000 };
            k.spelled = spelled();
            k.window = (0, w);
            k.split = 4000;
            k.bound = format!("every negative n, every n in 0..{}, every power of ten, every n >= 2^64", w);
        } },
        Harness { name: "power_again", labels: &["value"], run: power_again, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = "4 calls in a row: every two bases, every two exponents of 12 up to 64".into();
        } },
        Harness { name: "egcd_again", labels: &["positive", "zero"], run: egcd_again, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = format!("4 calls in a row: every integer with every two up to {}", if k.thorough { 12 } else { 7 });
        } },
        Harness { name: "coprime_again", labels: &["coprime", "common factor"], run: coprime_again, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = format!("5 calls in a row: every integer with every two up to {}", if k.thorough { 12 } else { 7 });
        } },
        Harness { name: "inverse_again", labels: &["inverse", "none"], run: inverse_again, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = format!("5 calls in a row: every integer and those in -3..3, every two moduli up to {}", if k.thorough { 12 } else { 7 });
        } },
        Harness { name: "division_again", labels: &["quotient", "none"], run: division_again, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = format!("5 calls in a row: every dividend, divisors in -3..3, every two moduli up to {}", if k.thorough { 8 } else { 5 });
        } },
        Harness { name: "crt_again", labels: &["solution", "none"], run: crt_again, cfg: |k| {
            k.edges = true;
            k.window = (-20, 20);
            k.bound = format!("5 calls in a row: every two residues, every three moduli up to {}", if k.thorough { 6 } else { 4 });
        } },
        Harness { name: "factorial_again", labels: &["value", "negative", "huge"], run: factorial_again, cfg: |k| {
            let w = if k.thorough { 200 } else { 70 };
            k.spelled = spelled();
            k.window = (-w / 5, w);
            k.bound = format!("3 calls in a row: n, m, n with both in -w/5..{} or beyond machine words", w);
        } },
        Harness { name: "fibonacci_again", labels: &["value", "negative", "huge"], run: fibonacci_again, cfg: |k| {
            let w = if k.thorough { 200 } else { 70 };
            k.spelled = spelled();
            k.window = (-w / 5, w);
            k.bound = format!("3 calls in a row: n, m, n with both in -w/5..{} or beyond machine words", w);
        } },
        Harness { name: "prime_sum_again", labels: &["value", "negative", "decade", "huge"], run: prime_sum_again, cfg: |k| {
            let w = if k.thorough { 200 } else { 70 };
            k.spelled = spelled();
            k.window = (0, w);
            k.bound = format!("3 calls in a row: n, m, n with both in 0..{} or beyond machine words", w);
        } },
        Harness { name: "prime_count_again", labels: &["negative", "decade", "refused"], run: prime_count_again, cfg: |k| {
            let w = if k.thorough { 200 } else { 70 };
            k.spelled = spelled();
            k.window = (0, w);
            k.bound = format!("3 calls in a row: n, m, n with both in 0..{} or beyond machine words", w);
        } },
        Harness { name: "prime_sum_large", labels: &["value"], run: prime_sum_large, cfg: |k| {
            k.path_secs = 200;
            k.bound = format!("powers of ten up to 10^9 (thorough 10^10) and {} numbers between 1500 and 10000600009 around word sizes and squares and products of primes", tables::PRIME_SUM_AT.len());
        } },
        Harness { name: "prime_count_any", labels: &["negative", "decade", "refused"], run: prime_count_any, cfg: |k| {
            let w = if k.thorough { 200_000 } else { 30_000 };
            k.spelled = spelled();
            k.window = (0, w);
            k.split = 6000;
            k.corners = vec![two_pow(63), two_pow(64) - bi(1), two_pow(31), two_pow(32) - bi(1)];
            let far = [10_201, 32_768, 44_521, 65_521, 65_535, 65_536, 65_537, 80_000, 99_991, 99_999, 100_001, 104_729, 131_072, 200_000, 262_144, 524_287, 524_288, 994_009, 999_983, 999_999, 1_000_001, 1_018_081, 1_048_576];
            k.corners.extend(far.iter().map(|c| bi(*c)));
            k.bound = format!("every negative integer, every integer of 64 bits or more, every entry of the table, every n in 0..{}, 23 larger ones up to 2^20, word ends", w);
        } },
    ]);
}
