//! What a harness sees. Compiled twice: with feature "sym" the values are symbolic and every
//! path is explored; without it the same harness runs once per input line on the real crates.
#![allow(dead_code)]
pub use num::{BigInt, BigUint, Integer, One, Signed, ToPrimitive, Zero};

pub struct Harness {
    pub name: &'static str,
    /// labels that some path must reach, or the run proves nothing
    pub labels: &'static [&'static str],
    pub run: fn(),
    pub cfg: fn(&mut Knobs),
}

/// exploration settings of one harness; `thorough` selects the wider bounds
#[derive(Clone, Debug)]
pub struct Knobs {
    pub thorough: bool,
    /// 0: a symbolic divisor is split into its values; k: stays symbolic for k divisions
    pub symbolic_divisions: u32,
    pub split: usize,
    pub window: (i64, i64),
    pub corners: Vec<BigInt>,
    /// also the ends of the machine type and the like
    pub edges: bool,
    /// numbers a symbolic one is split into when the code makes text of it
    pub spelled: Vec<BigInt>,
    pub solver_ms: u32,
    pub fuel: u64,
    pub path_secs: u64,
    pub max_bits: usize,
    pub bound: String,
}

impl Knobs {
    pub fn new(thorough: bool) -> Knobs {
        Knobs {
            thorough,
            symbolic_divisions: 0,
            split: 300,
            window: (-8, 8),
            corners: vec![],
            edges: false,
            spelled: vec![],
            solver_ms: 4000,
            fuel: 3_000_000,
            path_secs: 60,
            max_bits: 1 << 21,
            bound: String::new(),
        }
    }
}

pub fn big(s: &str) -> BigInt {
    s.parse().unwrap()
}
pub fn bi(i: i64) -> BigInt {
    BigInt::from(i)
}

pub fn tier() -> bool {
    std::env::var("VM_THOROUGH").map(|v| v == "1").unwrap_or(false)
}

#[cfg(feature = "sym")]
mod imp {
    use super::*;
    use num_bigint::__sym as s;

    /// the code under test counts up to its inputs
    pub static SMALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub fn active() {}
    fn opt(b: Option<&BigInt>) -> Option<s::Big> {
        b.map(|b| s::term(b).concretize())
    }
    pub fn input(name: &str, lo: Option<&BigInt>, hi: Option<&BigInt>) -> BigInt {
        let (lo, hi) = (opt(lo), opt(hi));
        if let Some(v) = s::text::assigned(name, lo.as_ref(), hi.as_ref(), SMALL.load(std::sync::atomic::Ordering::Relaxed)) {
            return s::lift(s::T::C(v));
        }
        s::lift(s::with(|e| e.input(name, lo.as_ref(), hi.as_ref())))
    }
    pub fn choose(name: &str, n: u32) -> u32 {
        s::with(|e| e.choose(name, n))
    }
    pub fn nat_of(b: BigInt) -> BigUint {
        s::lift_nat(s::term(&b).clone())
    }
    pub fn assume(b: bool) {
        if !b {
            s::abort(s::Abort::Infeasible)
        }
    }
    pub fn out_of_bound(what: &str) -> ! {
        s::abort(s::Abort::Cut(what.to_string()))
    }
    pub fn check(b: bool, label: &str) {
        s::with(|e| {
            e.checks += 1;
            Ok(())
        });
        if !b {
            s::abort(s::Abort::Fail(label.to_string()))
        }
    }
    pub fn reach(label: &str) {
        s::with(|e| {
            e.reached.insert(label.to_string());
            Ok(())
        })
    }
    pub fn observe(name: &str, v: &BigInt) {
        let t = s::term(v).clone();
        s::with(|e| {
            e.obs.push((name.to_string(), Ok(t)));
            Ok(())
        })
    }
    pub fn note(name: &str, v: &str) {
        s::with(|e| {
            e.obs.push((name.to_string(), Err(v.to_string())));
            Ok(())
        })
    }
    pub fn letter(name: &str, set: &[(u32, u32)]) -> char {
        s::text::symbolic(name, set)
    }
    pub fn among(c: char, set: &[(u32, u32)]) -> bool {
        s::text::among(c, set)
    }
    pub fn is_char(c: char, x: char) -> bool {
        s::text::same(c, x)
    }
    pub fn words(w: &[&str]) {
        s::text::set_words(w)
    }
    /// characters with one possible value put in
    pub fn settled(t: &str) -> String {
        t.chars().map(s::text::resolved).collect()
    }
    pub fn digits(t: &str, radix: u32) -> BigInt {
        match s::text::number(t, radix) {
            Some(v) => s::lift(v),
            None => BigInt::parse_bytes(t.as_bytes(), radix).unwrap(),
        }
    }
    /// the value as a machine integer: one path per value
    pub fn machine(v: &BigInt) -> i64 {
        match s::term(v).concretize().to_string().parse() {
            Ok(i) => i,
            Err(_) => s::abort(s::Abort::Cut("a value of more than 64 bits in the reference".into())),
        }
    }
    pub fn fresh_fuel() {
        s::reset_fuel()
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use super::*;
    use std::cell::RefCell;
    thread_local! {
        pub static INPUT: RefCell<(Vec<(String, String)>, usize)> = RefCell::new((vec![], 0));
        pub static OBS: RefCell<Vec<String>> = RefCell::new(vec![]);
    }
    pub enum Stop {
        Assume,
        Fail(String),
        Mismatch(String),
    }
    pub fn stop(s: Stop) -> ! {
        std::panic::resume_unwind(Box::new(s))
    }
    fn next(name: &str) -> String {
        let r = INPUT.with(|i| {
            let mut i = i.borrow_mut();
            let k = i.1;
            i.1 += 1;
            i.0.get(k).cloned()
        });
        match r {
            Some((n, v)) if n == name => v,
            Some((n, _)) => stop(Stop::Mismatch(format!("input {} where {} is expected", n, name))),
            None => stop(Stop::Mismatch(format!("no input for {}", name))),
        }
    }
    pub fn input(name: &str, lo: Option<&BigInt>, hi: Option<&BigInt>) -> BigInt {
        let v: BigInt = next(name).parse().unwrap();
        if lo.map_or(false, |l| &v < l) || hi.map_or(false, |h| &v > h) {
            stop(Stop::Assume)
        }
        v
    }
    pub fn choose(name: &str, n: u32) -> u32 {
        let v: u32 = next(name).parse().unwrap();
        if v >= n {
            stop(Stop::Assume)
        }
        v
    }
    pub fn nat_of(b: BigInt) -> BigUint {
        b.to_biguint().unwrap()
    }
    pub fn assume(b: bool) {
        if !b {
            stop(Stop::Assume)
        }
    }
    pub fn out_of_bound(_: &str) -> ! {
        stop(Stop::Assume)
    }
    pub fn check(b: bool, label: &str) {
        if !b {
            stop(Stop::Fail(label.to_string()))
        }
    }
    pub fn reach(_: &str) {}
    pub fn observe(name: &str, v: &BigInt) {
        OBS.with(|o| o.borrow_mut().push(format!("{}={}", name, v)))
    }
    pub fn note(name: &str, v: &str) {
        OBS.with(|o| o.borrow_mut().push(format!("{}={}", name, plain(v))))
    }
    /// one line of printable text for any text
    fn plain(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '|' => o.push('/'),
                ' '..='~' => o.push(c),
                '\n' => o.push(' '),
                c => o.push_str(&format!("<{:x}>", c as u32)),
            }
        }
        o
    }
    pub fn letter(name: &str, set: &[(u32, u32)]) -> char {
        let u: u32 = next(name).parse().unwrap();
        if !set.iter().any(|(l, h)| *l <= u && u <= *h) {
            stop(Stop::Assume)
        }
        char::from_u32(u).unwrap_or_else(|| stop(Stop::Assume))
    }
    pub fn among(c: char, set: &[(u32, u32)]) -> bool {
        set.iter().any(|(l, h)| *l <= c as u32 && c as u32 <= *h)
    }
    pub fn is_char(c: char, x: char) -> bool {
        c == x
    }
    pub fn words(_: &[&str]) {}
    pub fn settled(t: &str) -> String {
        t.to_string()
    }
    pub fn digits(t: &str, radix: u32) -> BigInt {
        BigInt::parse_bytes(t.as_bytes(), radix).unwrap()
    }
    pub fn machine(v: &BigInt) -> i64 {
        v.to_i64().unwrap_or_else(|| stop(Stop::Assume))
    }
    pub fn fresh_fuel() {}
}
pub use imp::{settled, among, digits, is_char, letter, words, assume, check, choose, fresh_fuel, input, machine, nat_of, note, observe, out_of_bound, reach};

/// every character
pub const ANY_CHAR: &[(u32, u32)] = &[(0, 0xD7FF), (0xE000, 0xEFFFF), (0xF0400, 0x10FFFF)];

/// any integer
pub fn int(name: &str) -> BigInt {
    input(name, None, None)
}
/// any non-negative integer
pub fn nat(name: &str) -> BigUint {
    nat_of(input(name, Some(&bi(0)), None))
}
pub fn range(name: &str, lo: i64, hi: i64) -> BigInt {
    input(name, Some(&bi(lo)), Some(&bi(hi)))
}

// ---- drivers ------------------------------------------------------------------------------
#[cfg(feature = "sym")]
pub fn drive(hs: &[Harness]) {
    use num_bigint::__sym as s;
    use std::sync::Arc;
    use std::time::Duration;
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or_else(|| d.to_string())
    };
    if args.iter().any(|a| a == "--list") {
        for h in hs {
            println!("{}", h.name);
        }
        return;
    }
    let name = args.get(1).cloned().unwrap_or_default();
    let h = hs.iter().find(|h| h.name == name).unwrap_or_else(|| {
        eprintln!("unknown harness {}", name);
        std::process::exit(3)
    });
    let mut k = Knobs::new(tier());
    (h.cfg)(&mut k);
    let cfg = s::Cfg {
        div: if k.symbolic_divisions == 0 { s::DivMode::Concretize } else { s::DivMode::Symbolic(k.symbolic_divisions) },
        max_concretize: k.split,
        win: (s::Big::from(k.window.0), s::Big::from(k.window.1)),
        corners: k.corners.iter().map(|c| s::term(c).concretize()).collect(),
        edges: k.edges,
        spelled: k.spelled.iter().map(|c| s::term(c).concretize()).collect(),
        fuel: k.fuel,
        max_bits: k.max_bits,
        ..Default::default()
    };
    let opts = s::explore::Opts {
        threads: get("--threads", "8").parse().unwrap(),
        budget: Duration::from_secs_f64(get("--budget", "120").parse().unwrap()),
        max_paths: get("--paths", "2000000").parse().unwrap(),
        path_time: Duration::from_secs(k.path_secs),
        solver_ms: k.solver_ms,
        max_findings: 40,
        max_fails: get("--fails", "1000000000").parse().unwrap(),
        max_traces: get("--traces", "400").parse().unwrap(),
    };
    if std::env::var("VM_PANICS").is_err() {
        s::explore::install_hook();
    }
    let run = h.run;
    imp::SMALL.store(k.window != (-8, 8), std::sync::atomic::Ordering::Relaxed);
    let assignments: u32 = get("--chars", "0").parse().unwrap();
    let run = move || {
        s::text::assign(if assignments > 0 { Some(s::with(|e| e.choose_hidden(assignments))) } else { None });
        run()
    };
    let r = s::explore::explore(cfg, opts, Arc::new(move || run()));
    let q = |t: &str| -> String {
        let mut o = String::from("\"");
        for c in t.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    };
    let map = |m: &std::collections::BTreeMap<String, u64>| -> String {
        format!("{{{}}}", m.iter().map(|(a, b)| format!("{}:{}", q(a), b)).collect::<Vec<_>>().join(","))
    };
    let missing: Vec<&str> = h.labels.iter().filter(|l| !r.reached.contains(**l)).cloned().collect();
    let f: Vec<String> = r
        .findings
        .iter()
        .map(|f| format!("{{\"kind\":{},\"label\":{},\"inputs\":{},\"after\":[{}]}}", q(f.kind), q(&f.label), q(&f.inputs), f.after.iter().map(|i| q(i)).collect::<Vec<_>>().join(",")))
        .collect();
    let t: Vec<String> = r
        .traces
        .iter()
        .map(|(i, o)| format!("{{\"inputs\":{},\"obs\":{}}}", q(i), q(&o.join("|"))))
        .collect();
    let text = format!(
        "{{\"harness\":{},\"characters\":{},\"bound\":{},\"complete\":{},\"paths\":{},\"ok\":{},\"infeasible\":{},\"no_model\":{},\"decisions\":{},\"checks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_errors\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"cuts\":{},\"undecided\":{},\"labels\":[{}],\"missing\":[{}],\"findings\":[{}],\"traces\":[{}]}}",
        q(h.name), s::text::ASKED.load(std::sync::atomic::Ordering::Relaxed), q(&k.bound), r.complete, r.paths, r.ok, r.infeasible, r.no_model, r.decisions, r.checks, r.queries,
        r.sat, r.unsat, r.unknown, r.solver_errors, r.solver_s, r.wall_s, map(&r.cuts), map(&r.undecided),
        h.labels.iter().map(|m| q(m)).collect::<Vec<_>>().join(","), missing.iter().map(|m| q(m)).collect::<Vec<_>>().join(","), f.join(","), t.join(",")
    );
    let out = get("--out", "");
    if out.is_empty() {
        println!("{}", text);
    } else {
        std::fs::write(out, text).unwrap();
    }
    // a path that never returns may still be running
    std::process::exit(0);
}

#[cfg(not(feature = "sym"))]
pub fn drive(hs: &[Harness]) {
    use std::io::BufRead;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let name = std::env::args().nth(1).unwrap_or_default();
    let h = hs.iter().find(|h| h.name == name).unwrap_or_else(|| {
        eprintln!("unknown harness {}", name);
        std::process::exit(3)
    });
    thread_local!(static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
    }));
    let run = h.run;
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for line in std::io::stdin().lock().lines() {
                let line = line.unwrap();
                let inp: Vec<(String, String)> = line
                    .split(';')
                    .filter(|s| !s.is_empty())
                    .map(|s| {
                        let (a, b) = s.split_once('=').unwrap();
                        (a.to_string(), b.to_string())
                    })
                    .collect();
                imp::INPUT.with(|i| *i.borrow_mut() = (inp, 0));
                imp::OBS.with(|o| o.borrow_mut().clear());
                let r = catch_unwind(AssertUnwindSafe(|| run()));
                let s = match r {
                    Ok(()) => format!("OK|{}", imp::OBS.with(|o| o.borrow().join("|"))),
                    Err(p) => match p.downcast::<imp::Stop>() {
                        Ok(s) => match *s {
                            imp::Stop::Assume => "ASSUME|".to_string(),
                            imp::Stop::Fail(l) => format!("FAIL|{}", l),
                            imp::Stop::Mismatch(l) => format!("MISMATCH|{}", l),
                        },
                        Err(_) => format!("FAIL|panic: {}", MSG.with(|m| m.borrow().clone())),
                    },
                };
                println!("{}", s.replace('\n', " "));
            }
        })
        .unwrap();
    t.join().unwrap();
}
