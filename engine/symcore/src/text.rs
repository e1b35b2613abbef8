//! Symbolic characters. A symbolic character is written into a text as a token, a character of
//! its own; every question about it (is it this one, is it in this class) is a branch, settled
//! by the set of characters it can still be, and confirmed by the solver.
use crate::solver::{Sat, Solver};
use crate::*;
use std::rc::Rc;

pub const BASE: u32 = 0xF0000;
pub const COUNT: u32 = 0x400;

/// disjoint, increasing ranges of code points
pub type Ranges = Vec<(u32, u32)>;

pub fn all() -> Ranges {
    vec![(0, 0xD7FF), (0xE000, BASE - 1), (BASE + COUNT, 0x10FFFF)]
}
pub fn intersect(a: &[(u32, u32)], b: &[(u32, u32)]) -> Ranges {
    let (mut i, mut j, mut out) = (0, 0, vec![]);
    while i < a.len() && j < b.len() {
        let (lo, hi) = (a[i].0.max(b[j].0), a[i].1.min(b[j].1));
        if lo <= hi {
            out.push((lo, hi));
        }
        if a[i].1 < b[j].1 {
            i += 1
        } else {
            j += 1
        }
    }
    out
}
pub fn complement(a: &[(u32, u32)]) -> Ranges {
    let mut out = vec![];
    let mut next = 0;
    for &(lo, hi) in a {
        if lo > next {
            out.push((next, lo - 1));
        }
        next = hi + 1;
    }
    if next <= 0x10FFFF {
        out.push((next, 0x10FFFF));
    }
    out
}
fn size(a: &[(u32, u32)]) -> u64 {
    a.iter().map(|(l, h)| (h - l + 1) as u64).sum()
}
fn member(a: &[(u32, u32)], c: u32) -> bool {
    a.iter().any(|(l, h)| *l <= c && c <= *h)
}

pub struct CharVar {
    dom: Rc<Ranges>,
    /// its code point as a number, once something computes with it
    num: Option<T>,
}

/// what some thread's solver has confirmed
#[derive(Default)]
struct Confirmed {
    ids: Option<HashMap<Ranges, usize>>,
    pairs: BTreeSet<(usize, usize)>,
}
impl Confirmed {
    fn id(&mut self, r: &Ranges) -> usize {
        let m = self.ids.get_or_insert_with(HashMap::new);
        match m.get(r) {
            Some(i) => *i,
            None => {
                let i = m.len();
                m.insert(r.clone(), i);
                i
            }
        }
    }
}
static CONFIRMED: Mutex<Confirmed> = Mutex::new(Confirmed { ids: None, pairs: BTreeSet::new() });
/// a solver process for sets of characters only
struct CharSolver {
    s: Solver,
    sets: HashMap<*const Ranges, usize>,
}
impl CharSolver {
    /// p<i> implies membership in the set, n<i> the contrary
    fn name(&mut self, r: &Rc<Ranges>) -> usize {
        let k = self.sets.len();
        match self.sets.get(&Rc::as_ptr(r)) {
            Some(i) => *i,
            None => {
                self.sets.insert(Rc::as_ptr(r), k);
                let f = formula(r);
                self.s.send(&format!(
                    "(declare-const p{0} Bool)(declare-const n{0} Bool)\n(assert (=> p{0} {1}))(assert (=> n{0} (not {1})))\n",
                    k, f
                ));
                k
            }
        }
    }
}

type Verdict = (Rc<Ranges>, Rc<Ranges>);
thread_local! {
    static CHARS: RefCell<Option<CharSolver>> = RefCell::new(None);
    static CLASSES: RefCell<HashMap<&'static str, Rc<Ranges>>> = RefCell::new(HashMap::new());
    static SETS: RefCell<HashMap<Rc<Ranges>, Rc<Ranges>>> = RefCell::new(HashMap::new());
    static VERDICTS: RefCell<HashMap<(*const Ranges, *const Ranges), Verdict>> = RefCell::new(HashMap::new());
    static SINGLES: RefCell<HashMap<u32, Rc<Ranges>>> = RefCell::new(HashMap::new());
    static WORDS: RefCell<Option<Rc<Vec<Vec<char>>>>> = RefCell::new(None);
}
/// equal sets are the same object, and live as long as the thread
fn intern(r: Ranges) -> Rc<Ranges> {
    SETS.with(|s| {
        let r = Rc::new(r);
        s.borrow_mut().entry(r.clone()).or_insert(r).clone()
    })
}
fn single(c: char) -> Rc<Ranges> {
    SINGLES.with(|s| s.borrow_mut().entry(c as u32).or_insert_with(|| intern(vec![(c as u32, c as u32)])).clone())
}
/// the characters a named predicate accepts
fn class<F: Fn(char) -> bool>(f: &F) -> Rc<Ranges> {
    let name = std::any::type_name::<F>();
    let known = CLASSES.with(|c| c.borrow().get(name).cloned());
    if let (Some(k), false) = (known, name.contains("closure")) {
        return k;
    }
    let mut out: Ranges = vec![];
    for (lo, hi) in all() {
        for u in lo..=hi {
            if f(char::from_u32(u).unwrap()) {
                match out.last_mut() {
                    Some(l) if l.1 + 1 == u => l.1 = u,
                    _ => out.push((u, u)),
                }
            }
        }
    }
    let r = intern(out);
    CLASSES.with(|c| c.borrow_mut().insert(name, r.clone()));
    r
}

/// membership of c, as a decision tree
fn formula(r: &[(u32, u32)]) -> String {
    let mut steps = vec![(0, false)];
    for &(l, h) in r {
        if l == 0 {
            steps.clear();
        }
        steps.push((l, true));
        steps.push((h + 1, false));
    }
    fn tree(s: &[(u32, bool)], out: &mut String) {
        if s.len() == 1 {
            out.push_str(if s[0].1 { "true" } else { "false" });
            return;
        }
        let m = s.len() / 2;
        out.push_str(&format!("(ite (< c {}) ", s[m].0));
        tree(&s[..m], out);
        out.push(' ');
        tree(&s[m..], out);
        out.push(')');
    }
    let mut out = String::new();
    tree(&steps, &mut out);
    out
}

impl Engine {
    pub fn input_char(&mut self, name: &str, dom: &[(u32, u32)]) -> Result<char, Abort> {
        let k = self.chars.len();
        if k as u32 >= COUNT {
            return Err(Abort::Cut("too many symbolic characters".into()));
        }
        let dom = intern(intersect(dom, &all()));
        if dom.is_empty() {
            return Err(Abort::Infeasible);
        }
        self.chars.push(CharVar { dom, num: None });
        self.inputs.push(InputRec::Char(name.to_string(), k));
        Ok(char::from_u32(BASE + k as u32).unwrap())
    }
    /// the character of the model
    pub fn char_value(&self, k: usize) -> char {
        let v = &self.chars[k];
        let u = match &v.num {
            Some(t) => match self.eval(&t.poly()) {
                Some(b) => b.to_u32().unwrap_or(v.dom[0].0),
                None => v.dom[0].0,
            },
            None => {
                // any member will do: vary it, so that replays vary
                let h = (self.trace.len() as u64).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((k as u64).wrapping_mul(0xD1B54A32D192ED03)) >> 20;
                let ascii = intersect(&v.dom, &[(32, 126)]);
                let from = if h % 3 != 0 && !ascii.is_empty() { &ascii } else { &*v.dom };
                let mut n = (h / 3) % size(from);
                let mut u = from[0].0;
                for (l, hi) in from.iter() {
                    let w = (hi - l + 1) as u64;
                    if n < w {
                        u = l + n as u32;
                        break;
                    }
                    n -= w;
                }
                u
            }
        };
        char::from_u32(u).unwrap_or('?')
    }
    /// tokens replaced by the characters of the model
    pub fn model_text(&self, s: &str) -> String {
        s.chars()
            .map(|c| match (c as u32).checked_sub(BASE) {
                Some(k) if (k as usize) < self.chars.len() => self.char_value(k as usize),
                _ => c,
            })
            .collect()
    }
    /// the solver's verdict on both sides of a question about a character: one question per
    /// pair of sets and run
    fn confirm(&mut self, dom: &Rc<Ranges>, class: &Rc<Ranges>, inside: bool, outside: bool) -> Result<(), Abort> {
        let key = {
            let mut g = CONFIRMED.lock().unwrap();
            let key = (g.id(dom), g.id(class));
            if g.pairs.contains(&key) {
                return Ok(());
            }
            key
        };
        let r = CHARS.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.get_or_insert_with(|| {
                let mut s = Solver::new(4000);
                s.send("(declare-const c Int)\n");
                CharSolver { s, sets: HashMap::new() }
            });
            let (d, k) = (c.name(dom), c.name(class));
            let before = (c.s.queries, c.s.sat, c.s.unsat, c.s.unknown, c.s.errors, c.s.nanos);
            let mut answer = Ok(());
            for (side, want) in [("p", inside), ("n", outside)] {
                let r = c.s.check_with(&format!("(check-sat-assuming (p{} {}{}))\n", d, side, k));
                if r != if want { Sat::Sat } else { Sat::Unsat } {
                    answer = Err(Abort::Unknown(format!("the solver does not confirm a character class: {:?}", r)));
                }
            }
            let s = &mut self.solver;
            s.queries += c.s.queries - before.0;
            s.sat += c.s.sat - before.1;
            s.unsat += c.s.unsat - before.2;
            s.unknown += c.s.unknown - before.3;
            s.errors += c.s.errors - before.4;
            s.nanos += c.s.nanos - before.5;
            answer
        });
        r?;
        CONFIRMED.lock().unwrap().pairs.insert(key);
        Ok(())
    }
    fn char_in(&mut self, k: usize, class: &Rc<Ranges>) -> Result<bool, Abort> {
        let dom = self.chars[k].dom.clone();
        let key = (Rc::as_ptr(&dom), Rc::as_ptr(class));
        let known = VERDICTS.with(|v| v.borrow().get(&key).cloned());
        let (inside, outside) = match known {
            Some(v) => v,
            None => {
                let (a, b) = (intersect(&dom, class), intersect(&dom, &complement(class)));
                self.confirm(&dom, class, !a.is_empty(), !b.is_empty())?;
                let v = (intern(a), intern(b));
                VERDICTS.with(|m| m.borrow_mut().insert(key, v.clone()));
                v
            }
        };
        self.ops += 1;
        if outside.is_empty() {
            return Ok(true);
        }
        if inside.is_empty() {
            return Ok(false);
        }
        let b = match self.chars[k].num.clone() {
            Some(t) => {
                // a number already: ask about its value
                let mut found = false;
                for (l, h) in inside.iter() {
                    let below = Poly::constant(Big::from(*l)).sub(&t.poly());
                    let above = t.poly().sub(&Poly::constant(Big::from(*h)));
                    if self.decide_le0(&below)? && self.decide_le0(&above)? {
                        found = true;
                        break;
                    }
                }
                found
            }
            None => {
                let b = if self.pos < self.prefix.len() {
                    let d = self.prefix[self.pos].clone();
                    self.pos += 1;
                    match d {
                        Dec::B(b) => b,
                        _ => return Err(Abort::Unknown("replay mismatch".into())),
                    }
                } else {
                    self.decisions += 1;
                    if self.trace.len() >= self.cfg.max_decisions {
                        return Err(Abort::Fuel("decision budget exceeded".into()));
                    }
                    let mut d = self.trace.clone();
                    d.push(Dec::B(true));
                    let seed = if self.model_ok { Some(self.seed.clone()) } else { None };
                    self.alts.push(Item { decs: d, seed });
                    false
                };
                self.trace.push(Dec::B(b));
                b
            }
        };
        self.chars[k].dom = if b { inside } else { outside };
        Ok(b)
    }
    /// the code point as a number; the set of its values must be one range
    fn char_number(&mut self, k: usize) -> Result<T, Abort> {
        if let Some(t) = &self.chars[k].num {
            return Ok(t.clone());
        }
        while self.chars[k].dom.len() > 1 {
            let first = intern(vec![self.chars[k].dom[0]]);
            self.char_in(k, &first)?;
        }
        let (l, h) = self.chars[k].dom[0];
        let t = self.hidden_input(&Big::from(l), &Big::from(h))?;
        self.chars[k].num = Some(t.clone());
        Ok(t)
    }
}

fn index(c: char) -> Option<usize> {
    let k = (c as u32).checked_sub(BASE)?;
    if k >= COUNT || !active() {
        return None;
    }
    let k = k as usize;
    with(|e| Ok(if k < e.chars.len() { Some(k) } else { None }))
}
pub fn is_token(c: char) -> bool {
    index(c).is_some()
}
pub fn has_token(s: &str) -> bool {
    s.bytes().any(|b| b == 0xF3) && s.chars().any(is_token)
}
/// whether any path asked for a symbolic character
pub static ASKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! {
    static ASSIGNMENT: std::cell::Cell<Option<u32>> = std::cell::Cell::new(None);
}
/// from here on this path gets plain characters, by the k-th of some fixed assignments: the
/// standard library's own text functions see those as they are, and not a token
pub fn assign(k: Option<u32>) {
    ASSIGNMENT.with(|a| a.set(k))
}
/// under an assignment, the plain value of an integer input; `small` leaves out those that a
/// machine can count to, in a very long time
pub fn assigned(name: &str, lo: Option<&Big>, hi: Option<&Big>, small: bool) -> Option<Big> {
    let k = ASSIGNMENT.with(|a| a.get())?;
    let one = || Big::from(1);
    let mut r: Vec<Big> = [0, 1, 2, 3, 4, 7, 9, 10, 12, 19, 20, 21, 25, 99, 100, 120, 255, 256, 999, 1000].iter().map(|i| Big::from(*i)).collect();
    for b in [15usize, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128, 129, 192, 256] {
        if b >= 64 || !small {
            r.push((one() << b) - 1);
            r.push(one() << b);
            r.push((one() << b) + 1);
        }
    }
    if small {
        r.retain(|v| *v < Big::from(2000) || *v > Big::from(u64::MAX));
    }
    for d in [19u32, 20, 21, 38, 39, 40, 60] {
        if d > 20 || !small {
            r.push(num_traits::pow(Big::from(10), d as usize) - 1);
            r.push(num_traits::pow(Big::from(10), d as usize));
            r.push(num_traits::pow(Big::from(123456789), d as usize / 8 + 1) * 10 + 5);
        }
    }
    if small {
        r.retain(|v| *v < Big::from(2000) || *v > Big::from(u64::MAX));
    }
    let neg: Vec<Big> = r.iter().map(|v| -v.clone()).collect();
    r.extend(neg);
    r.extend(lo.cloned());
    r.extend(hi.cloned());
    r.retain(|v| lo.map_or(true, |l| v >= l) && hi.map_or(true, |h| v <= h));
    if r.is_empty() {
        abort(Abort::Infeasible)
    }
    let v = r[(hash(name, k) % r.len() as u64) as usize].clone();
    with(|e| {
        e.inputs.push(InputRec::Pick(name.to_string(), v.to_string()));
        Ok(())
    });
    Some(v)
}
fn hash(name: &str, k: u32) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (k as u64).wrapping_mul(0x9E3779B97F4A7C15);
    let mut add = |s: &str| {
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    };
    add(name);
    // what was chosen so far, so that paths differ
    with(|e| {
        for i in e.inputs.iter() {
            if let InputRec::Pick(_, v) = i {
                add(v);
            }
        }
        Ok(())
    });
    (h ^ h >> 29).wrapping_mul(0xD1B54A32D192ED03) >> 20
}
/// a new symbolic character among these
pub fn symbolic(name: &str, dom: &[(u32, u32)]) -> char {
    ASKED.store(true, std::sync::atomic::Ordering::Relaxed);
    match ASSIGNMENT.with(|a| a.get()) {
        None => with(|e| e.input_char(name, dom)),
        Some(k) => {
            let c = representative(name, k, dom);
            with(|e| {
                e.inputs.push(InputRec::Pick(name.to_string(), (c as u32).to_string()));
                Ok(c)
            })
        }
    }
}
fn representative(name: &str, k: u32, dom: &[(u32, u32)]) -> char {
    let dom = intersect(dom, &all());
    let mut r: Vec<u32> = dom.iter().flat_map(|(l, h)| vec![*l, *h]).collect();
    r.extend("0159aAzZfF_ \t\n\"\\().,:+-!%/#'\u{e9}\u{df}\u{153}\u{3bb}\u{fb01}\u{ffff}\u{4e2d}\u{1f600}".chars().map(|c| c as u32).filter(|c| member(&dom, *c)));
    r.sort();
    r.dedup();
    if r.is_empty() {
        abort(Abort::Infeasible)
    }
    let h = hash(name, k);
    let u = match k {
        0 => r[0],
        1 => r[r.len() - 1],
        _ => {
            let ascii: Vec<u32> = r.iter().cloned().filter(|u| (32..127).contains(u)).collect();
            let from = if k % 3 != 0 && !ascii.is_empty() { &ascii } else { &r };
            from[((h >> 8) % from.len() as u64) as usize]
        }
    };
    char::from_u32(u).unwrap()
}
/// the character itself, once only one is left
pub fn resolved(c: char) -> char {
    match index(c) {
        None => c,
        Some(k) => with(|e| {
            let d = &e.chars[k].dom;
            Ok(if d.len() == 1 && d[0].0 == d[0].1 { char::from_u32(d[0].0).unwrap() } else { c })
        }),
    }
}
pub fn same(a: char, b: char) -> bool {
    if a == b {
        return true;
    }
    let (a, b) = (resolved(a), resolved(b));
    match (index(a), index(b)) {
        (None, None) => a == b,
        (Some(k), None) => {
            let s = single(b);
            with(|e| e.char_in(k, &s))
        }
        (None, Some(k)) => {
            let s = single(a);
            with(|e| e.char_in(k, &s))
        }
        (Some(_), Some(_)) => abort(Abort::Unknown("two symbolic characters are compared".into())),
    }
}
pub fn within(c: char, lo: char, hi: char) -> bool {
    match index(c) {
        None => lo <= c && c <= hi,
        Some(k) => {
            let s = intern(vec![(lo as u32, hi as u32)]);
            with(|e| e.char_in(k, &s))
        }
    }
}
pub fn among(c: char, set: &[(u32, u32)]) -> bool {
    match index(c) {
        None => member(set, c as u32),
        Some(k) => {
            let s = intern(set.to_vec());
            with(|e| e.char_in(k, &s))
        }
    }
}
pub fn satisfies<F: Fn(char) -> bool>(c: char, f: F) -> bool {
    match index(c) {
        None => f(c),
        Some(k) => {
            let s = class(&f);
            with(|e| e.char_in(k, &s))
        }
    }
}
/// the text starts with these characters: the length in bytes that they take there
pub fn starts_with(text: &str, want: &str) -> Option<usize> {
    if !active() {
        return if text.starts_with(want) { Some(want.len()) } else { None };
    }
    let mut it = text.chars();
    let mut n = 0;
    for w in want.chars() {
        match it.next() {
            Some(c) if same(c, w) => n += c.len_utf8(),
            _ => return None,
        }
    }
    Some(n)
}
pub fn starts_with_ascii(text: &str, want: &str) -> Option<usize> {
    let mut it = text.chars();
    let mut n = 0;
    for w in want.chars() {
        match it.next() {
            Some(c) if same(c, w.to_ascii_lowercase()) || same(c, w.to_ascii_uppercase()) => n += c.len_utf8(),
            _ => return None,
        }
    }
    Some(n)
}
/// words that the program compares texts with
pub fn set_words(w: &[&str]) {
    WORDS.with(|x| {
        if x.borrow().is_some() {
            return;
        }
        let mut v: Vec<Vec<char>> = w.iter().map(|s| s.chars().collect()).collect();
        v.sort();
        v.dedup();
        *x.borrow_mut() = Some(Rc::new(v))
    })
}
/// a piece of text for the program to look at: characters with one possible value are put in,
/// and the cases in which it is one of the program's own words are split off
pub fn piece<'i>(s: &'i str) -> &'i str {
    if !has_token(s) {
        return s;
    }
    let words = WORDS.with(|w| w.borrow().clone());
    if let Some(words) = words {
        let cs: Vec<char> = s.chars().collect();
        for w in words.iter() {
            if w.len() == cs.len() {
                let open = cs.iter().zip(w.iter()).all(|(c, x)| {
                    let c = resolved(*c);
                    match index(c) {
                        None => c == *x,
                        Some(k) => with(|e| Ok(member(&e.chars[k].dom, *x as u32))),
                    }
                });
                if open && cs.iter().zip(w.iter()).all(|(c, x)| same(*c, *x)) {
                    break;
                }
            }
        }
    }
    let t: String = s.chars().map(resolved).collect();
    // lives as long as the run: paths are short and many, and the program holds on to it
    Box::leak(t.into_boxed_str())
}
/// the value of digits of which some are symbolic
pub fn number(s: &str, radix: u32) -> Option<T> {
    if !has_token(s) {
        return None;
    }
    let mut t = T::int(0);
    for c in s.chars() {
        let d = match index(c) {
            None => T::int(c.to_digit(radix)? as i64),
            Some(k) => {
                let mut d = None;
                for (lo, base, n) in [('0', 0, 10), ('a', 10, 26), ('A', 10, 26)] {
                    let n = n.min(radix.saturating_sub(base));
                    if n > 0 && within(c, lo, char::from_u32(lo as u32 + n - 1).unwrap()) {
                        let v = with(|e| e.char_number(k));
                        d = Some(v.sub(&T::int(lo as i64 - base as i64)));
                        break;
                    }
                }
                d?
            }
        };
        t = t.mul(&T::int(radix as i64)).add(&d);
    }
    Some(t)
}
