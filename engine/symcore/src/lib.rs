//! Path-exploring symbolic execution core: integers as canonical polynomial terms,
//! branch decisions settled by an SMT solver, depth-first re-execution over decision prefixes.
pub mod poly;
pub mod solver;
pub mod explore;
pub mod text;

pub use bigreal::BigInt as Big;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
pub use poly::{Mono, Poly};
use solver::{Sat, Solver};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum T {
    C(Big),
    P(Arc<Poly>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Dec {
    B(bool),
    V(Big, bool),
    C(u32),
}

/// Why the engine unwound a path.
#[derive(Clone, Debug)]
pub enum Abort {
    Fail(String),
    Cut(String),
    Infeasible,
    Unknown(String),
    Fuel(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DivMode {
    /// a symbolic divisor is split into its feasible values
    Concretize,
    /// a symbolic divisor stays symbolic, at most this many quotients per path
    Symbolic(u32),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub div: DivMode,
    pub max_concretize: usize,
    pub win: (Big, Big),
    pub corners: Vec<Big>,
    /// also the numbers at which machine arithmetic of the type converted to changes
    pub edges: bool,
    /// numbers a symbolic one is split into before it becomes text
    pub spelled: Vec<Big>,
    pub fuel: u64,
    pub max_bits: usize,
    pub max_decisions: usize,
    pub max_terms: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            div: DivMode::Concretize,
            max_concretize: 300,
            win: (Big::from(-8), Big::from(8)),
            corners: vec![],
            edges: false,
            spelled: vec![],
            fuel: 3_000_000,
            max_bits: 1 << 21,
            max_decisions: 4000,
            max_terms: 4000,
        }
    }
}

enum AtomKind {
    Input(usize),
    /// floor(a / d), d > 0 on this path
    Quot(Poly, Poly),
    /// a - d*floor(a / d), d > 0 on this path
    Rem(Poly, Poly),
    /// a name for a polynomial that divides others
    Name(Poly),
}

#[derive(Clone, Default)]
struct Bnd {
    lo: Option<Big>,
    hi: Option<Big>,
    ne: Vec<Big>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Le,
    Eq,
}

type Fact = (K, Poly, Big, bool);

#[derive(Clone, Debug)]
pub struct Item {
    pub decs: Vec<Dec>,
    pub seed: Option<Vec<Big>>,
}

#[derive(Clone, Debug)]
pub enum InputRec {
    /// symbolic integer input: position among the symbolic inputs
    Sym(String, usize),
    Pick(String, String),
    /// symbolic character
    Char(String, usize),
}

pub struct Engine {
    pub cfg: Cfg,
    atoms: Vec<AtomKind>,
    vals: Vec<Option<Big>>,
    model_ok: bool,
    facts: Vec<Fact>,
    bounds: std::collections::BTreeMap<Poly, Bnd>,
    subst: HashMap<u32, Poly>,
    epoch: u64,
    atom_epoch: Vec<u64>,
    fq: HashMap<(Poly, Poly), u32>,
    opaque: HashMap<Mono, usize>,
    nonlinear: bool,
    symdivs: u32,
    prefix: Vec<Dec>,
    pos: usize,
    pub trace: Vec<Dec>,
    seed: Vec<Big>,
    ninputs: usize,
    input_atoms: Vec<u32>,
    pub inputs: Vec<InputRec>,
    pub chars: Vec<text::CharVar>,
    pending: String,
    pub solver: Solver,
    pub alts: Vec<Item>,
    pub obs: Vec<(String, Result<T, String>)>,
    pub reached: BTreeSet<String>,
    pub display: Vec<T>,
    pub ops: u64,
    pub checks: u64,
    pub decisions: u64,
    pub by_bounds: u64,
    rng: u64,
    snapshot: Arc<Mutex<String>>,
    in_engine: bool,
}

thread_local! {
    static ENG: RefCell<Option<Box<Engine>>> = RefCell::new(None);
    static OPS: std::cell::Cell<(u64, u64, usize)> = std::cell::Cell::new((0, u64::MAX, usize::MAX));
}

pub fn abort(a: Abort) -> ! {
    std::panic::resume_unwind(Box::new(a))
}

pub fn with<R>(f: impl FnOnce(&mut Engine) -> Result<R, Abort>) -> R {
    let r = ENG.with(|e| {
        let mut g = e.borrow_mut();
        match g.as_mut() {
            None => panic!("symbolic value used outside of a path"),
            Some(en) => f(en),
        }
    });
    match r {
        Ok(v) => v,
        Err(a) => abort(a),
    }
}

pub fn active() -> bool {
    ENG.with(|e| e.borrow().is_some())
}

/// Fuel accounting for every lifted operation (also on constants).
pub fn tick(bits: usize) {
    let over = OPS.with(|o| {
        let (n, lim, mb) = o.get();
        o.set((n + 1 + (bits as u64 >> 12), lim, mb));
        if n >= lim {
            Some("operation budget exceeded")
        } else if bits > mb {
            Some("number size budget exceeded")
        } else {
            None
        }
    });
    if let Some(m) = over {
        if !std::thread::panicking() {
            OPS.with(|o| o.set((0, u64::MAX, usize::MAX)));
            abort(Abort::Fuel(m.into()));
        }
    }
}

pub fn reset_fuel() {
    if let Some((f, b)) = ENG.with(|e| e.borrow().as_ref().map(|e| (e.cfg.fuel, e.cfg.max_bits))) {
        OPS.with(|o| o.set((0, f, b)));
    }
}

impl From<Poly> for T {
    fn from(p: Poly) -> T {
        match p.as_const() {
            Some(c) => T::C(c),
            None => T::P(Arc::new(p)),
        }
    }
}

impl T {
    pub fn poly(&self) -> Poly {
        match self {
            T::C(c) => Poly::constant(c.clone()),
            T::P(p) => (**p).clone(),
        }
    }
    pub fn zero() -> T {
        T::C(Big::zero())
    }
    pub fn int(i: i64) -> T {
        T::C(Big::from(i))
    }
    pub fn as_const(&self) -> Option<&Big> {
        match self {
            T::C(c) => Some(c),
            _ => None,
        }
    }
    /// constant, also when the path condition pins the term
    pub fn pinned(&self) -> Option<Big> {
        match self {
            T::C(c) => Some(c.clone()),
            T::P(p) => with(|e| Ok(e.norm(p)?.as_const())),
        }
    }
    pub fn add(&self, o: &T) -> T {
        match (self, o) {
            (T::C(a), T::C(b)) => {
                let r = a + b;
                tick(r.bits());
                T::C(r)
            }
            _ => {
                tick(0);
                lim(self.poly().add(&o.poly()))
            }
        }
    }
    pub fn sub(&self, o: &T) -> T {
        match (self, o) {
            (T::C(a), T::C(b)) => {
                let r = a - b;
                tick(r.bits());
                T::C(r)
            }
            _ => {
                tick(0);
                lim(self.poly().sub(&o.poly()))
            }
        }
    }
    pub fn mul(&self, o: &T) -> T {
        match (self, o) {
            (T::C(a), T::C(b)) => {
                tick(a.bits() + b.bits());
                T::C(a * b)
            }
            _ => {
                tick(0);
                let (a, b) = (nrm(self), nrm(o));
                if (a.0.len() * b.0.len()) > 4_000_000 {
                    abort(Abort::Unknown("term size".into()));
                }
                lim(a.mul(&b))
            }
        }
    }
    pub fn neg(&self) -> T {
        match self {
            T::C(a) => T::C(-a),
            T::P(p) => T::from(p.neg()),
        }
    }
    pub fn pow(&self, e: u32) -> T {
        match self {
            T::C(a) => {
                let small = a.is_zero() || a.is_one() || (-a).is_one();
                if !small {
                    tick((a.bits() as u64).saturating_mul(e as u64).min(1 << 60) as usize);
                }
                if small {
                    return T::C(if e == 0 {
                        Big::one()
                    } else if e % 2 == 0 {
                        a * a
                    } else {
                        a.clone()
                    });
                }
                T::C(num_traits::pow(a.clone(), e as usize))
            }
            T::P(_) => {
                tick(0);
                let p = nrm(self);
                if let Some(c) = p.as_const() {
                    return T::C(c).pow(e);
                }
                match p.pow(e, 4000) {
                    Some(r) => lim(r),
                    None => abort(Abort::Unknown("power too large".into())),
                }
            }
        }
    }
    pub fn is_zero(&self) -> bool {
        match self {
            T::C(c) => c.is_zero(),
            T::P(p) => with(|e| e.decide_eq0(p)),
        }
    }
    pub fn eq(&self, o: &T) -> bool {
        match (self, o) {
            (T::C(a), T::C(b)) => a == b,
            _ => {
                let d = self.poly().sub(&o.poly());
                with(|e| e.decide_eq0(&d))
            }
        }
    }
    /// self <= o
    pub fn le(&self, o: &T) -> bool {
        match (self, o) {
            (T::C(a), T::C(b)) => a <= b,
            _ => {
                let d = self.poly().sub(&o.poly());
                with(|e| e.decide_le0(&d))
            }
        }
    }
    pub fn lt(&self, o: &T) -> bool {
        !o.le(self)
    }
    pub fn cmp(&self, o: &T) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        match (self, o) {
            (T::C(a), T::C(b)) => a.cmp(b),
            _ => {
                if self.eq(o) {
                    Equal
                } else if self.le(o) {
                    Less
                } else {
                    Greater
                }
            }
        }
    }
    pub fn is_negative(&self) -> bool {
        self.lt(&T::zero())
    }
    /// (floor quotient, remainder with the divisor's sign); panics on zero divisor
    pub fn div_mod_floor(&self, d: &T) -> (T, T) {
        if let (T::C(a), T::C(b)) = (self, d) {
            tick(a.bits() + b.bits());
            let (q, r) = a.div_mod_floor(b);
            return (T::C(q), T::C(r));
        }
        if let Some(q) = exact(self, d) {
            return (q, T::zero());
        }
        if smaller(self, d) {
            return if self.is_zero() {
                (T::zero(), T::zero())
            } else if self.is_negative() == d.is_negative() {
                (T::zero(), self.clone())
            } else {
                (T::int(-1), self.add(d))
            };
        }
        let d = divisor(d);
        let neg = d.is_negative();
        let (a, d) = if neg { (self.neg(), d.neg()) } else { (self.clone(), d) };
        let q = floor_quot(&a, &d);
        let r = a.sub(&q.mul(&d));
        (q, if neg { r.neg() } else { r })
    }
    /// (quotient truncated toward zero, remainder with the dividend's sign)
    pub fn div_rem(&self, d: &T) -> (T, T) {
        if let (T::C(a), T::C(b)) = (self, d) {
            tick(a.bits() + b.bits());
            let (q, r) = a.div_rem(b);
            return (T::C(q), T::C(r));
        }
        if let Some(q) = exact(self, d) {
            return (q, T::zero());
        }
        if smaller(self, d) {
            return (T::zero(), self.clone());
        }
        let d0 = divisor(d);
        let dneg = d0.is_negative();
        let d = if dneg { d0.neg() } else { d0 };
        let f = floor_quot(self, &d);
        let r = self.sub(&f.mul(&d));
        // exact multiples need no case split on the sign of the dividend
        let exact = matches!(r.pinned(), Some(c) if c.is_zero());
        if !exact && self.is_negative() && !r.is_zero() {
            // toward zero instead of down
            let q = f.add(&T::int(1));
            let r = r.sub(&d);
            return (if dneg { q.neg() } else { q }, r);
        }
        (if dneg { f.neg() } else { f }, if exact { T::zero() } else { r })
    }
    /// one concrete value per explored path
    pub fn concretize(&self) -> Big {
        match self {
            T::C(c) => c.clone(),
            T::P(p) => with(|e| e.concretize(p)),
        }
    }
    pub fn to_prim(&self, lo: &Big, hi: &Big) -> Option<Big> {
        match self {
            T::C(c) => {
                if c >= lo && c <= hi {
                    Some(c.clone())
                } else {
                    None
                }
            }
            T::P(p) => {
                if let Some(c) = self.pinned() {
                    return T::C(c).to_prim(lo, hi);
                }
                if !T::C(lo.clone()).le(self) || !self.le(&T::C(hi.clone())) {
                    return None;
                }
                let (wlo, whi, corners) = with(|e| Ok((e.cfg.win.0.clone(), e.cfg.win.1.clone(), e.cfg.corners.clone())));
                if T::C(wlo).le(self) && self.le(&T::C(whi)) {
                    return Some(with(|e| if e.narrow(p, 300_000)? { e.halve(p) } else { e.concretize(p) }));
                }
                let edges = with(|e| if e.cfg.edges { let (l, h) = e.interval(p); Ok(machine_edges(lo, hi, l, h)) } else { Ok(vec![]) });
                for c in corners.into_iter().chain(edges) {
                    if self.eq(&T::C(c.clone())) {
                        return Some(c);
                    }
                }
                abort(Abort::Cut("machine-integer conversion outside the stated window".into()))
            }
        }
    }
    pub fn sign(&self) -> i32 {
        match self {
            T::C(c) => {
                if c.is_zero() {
                    0
                } else if c.is_negative() {
                    -1
                } else {
                    1
                }
            }
            _ => {
                if self.is_zero() {
                    0
                } else if self.is_negative() {
                    -1
                } else {
                    1
                }
            }
        }
    }
    pub fn abs(&self) -> T {
        if self.is_negative() {
            self.neg()
        } else {
            self.clone()
        }
    }
}


fn nrm(t: &T) -> Poly {
    match t {
        T::C(c) => Poly::constant(c.clone()),
        T::P(p) => with(|e| e.norm(p)),
    }
}

fn lim(p: Poly) -> T {
    if p.0.len() > 64 && active() {
        let m = with(|e| Ok(e.cfg.max_terms));
        if p.0.len() > m {
            abort(Abort::Unknown("term size".into()));
        }
    }
    T::from(p)
}

/// the quotient when the divisor divides the dividend as a polynomial
fn exact(a: &T, d: &T) -> Option<T> {
    match d {
        T::C(_) => None,
        T::P(_) => {
            if d.is_zero() {
                panic!("attempt to divide by zero");
            }
            with(|e| {
                let (a, d) = (e.norm(&a.poly())?, e.norm(&d.poly())?);
                if d.as_const().is_some() {
                    return Ok(None);
                }
                let (k, b) = a.reduce_by(&d);
                Ok(if b.0.is_empty() { Some(T::from(k)) } else { None })
            })
        }
    }
}

/// before a divisor without a small known range is split into its values:
/// the case |a| < |d|, which needs no division
fn smaller(a: &T, d: &T) -> bool {
    if d.is_zero() {
        panic!("attempt to divide by zero");
    }
    let wide = match d {
        T::C(_) => false,
        T::P(_) => with(|e| {
            if e.cfg.div != DivMode::Concretize {
                return Ok(false);
            }
            let p = e.norm(&d.poly())?;
            let (l, _, _) = p.split();
            if l.0.is_empty() {
                return Ok(false);
            }
            let n = Big::from(e.cfg.max_concretize as u64);
            Ok(match e.bounds.get(&l) {
                Some(b) => match (&b.lo, &b.hi) {
                    (Some(x), Some(y)) => y - x > n,
                    _ => true,
                },
                None => true,
            })
        }),
    };
    wide && a.abs().lt(&d.abs())
}

/// non-zero divisor; constant when the mode says so
fn divisor(d: &T) -> T {
    if d.is_zero() {
        panic!("attempt to divide by zero");
    }
    match d {
        T::C(_) => d.clone(),
        T::P(_) => {
            if let Some(c) = d.pinned() {
                return T::C(c);
            }
            match with(|e| Ok(e.cfg.div)) {
                DivMode::Concretize => T::C(d.concretize()),
                DivMode::Symbolic(n) => {
                    with(|e| {
                        e.symdivs += 1;
                        if e.symdivs > n {
                            Err(Abort::Cut("more symbolic division steps than the stated bound".into()))
                        } else {
                            Ok(())
                        }
                    });
                    d.clone()
                }
            }
        }
    }
}

/// floor(a/d) for d > 0
fn floor_quot(a: &T, d: &T) -> T {
    with(|e| {
        let d = e.norm(&d.poly())?;
        e.name_divisor(&d)?;
        let (a, d) = (e.norm(&a.poly())?, e.norm(&d)?);
        Ok(T::from(e.fquot(&a, &d)?))
    })
}

impl Engine {
    pub fn new(cfg: Cfg, solver: Solver, item: Item, snapshot: Arc<Mutex<String>>) -> Engine {
        let model_ok = item.seed.is_some();
        Engine {
            cfg,
            atoms: vec![],
            vals: vec![],
            model_ok,
            facts: vec![],
            bounds: Default::default(),
            subst: HashMap::new(),
            epoch: 0,
            atom_epoch: vec![],
            fq: HashMap::new(),
            opaque: HashMap::new(),
            nonlinear: false,
            symdivs: 0,
            prefix: item.decs,
            pos: 0,
            trace: vec![],
            seed: item.seed.unwrap_or_default(),
            ninputs: 0,
            input_atoms: vec![],
            inputs: vec![],
            chars: vec![],
            pending: String::from("(push 1)\n"),
            solver,
            alts: vec![],
            obs: vec![],
            reached: BTreeSet::new(),
            display: vec![],
            ops: 0,
            checks: 0,
            decisions: 0,
            by_bounds: 0,
            rng: 0x9E3779B97F4A7C15,
            snapshot,
            in_engine: false,
        }
    }
    pub fn install(self) {
        let (f, b) = (self.cfg.fuel, self.cfg.max_bits);
        ENG.with(|e| *e.borrow_mut() = Some(Box::new(self)));
        OPS.with(|o| o.set((0, f, b)));
    }
    pub fn uninstall() -> Engine {
        OPS.with(|o| o.set((0, u64::MAX, usize::MAX)));
        *ENG.with(|e| e.borrow_mut().take()).expect("engine")
    }

    // ---- inputs -------------------------------------------------------------------------
    pub fn input(&mut self, name: &str, lo: Option<&Big>, hi: Option<&Big>) -> Result<T, Abort> {
        self.inputs.push(InputRec::Sym(name.to_string(), self.ninputs));
        self.new_input(lo, hi)
    }
    /// an unknown that belongs to another input
    pub(crate) fn hidden_input(&mut self, lo: &Big, hi: &Big) -> Result<T, Abort> {
        self.new_input(Some(lo), Some(hi))
    }
    fn new_input(&mut self, lo: Option<&Big>, hi: Option<&Big>) -> Result<T, Abort> {
        let id = self.atoms.len() as u32;
        let idx = self.ninputs;
        self.ninputs += 1;
        self.atoms.push(AtomKind::Input(idx));
        self.input_atoms.push(id);
        self.atom_epoch.push(0);
        let mut v = self.seed.get(idx).cloned().unwrap_or_else(Big::zero);
        if let Some(l) = lo {
            if &v < l {
                v = l.clone();
            }
        }
        if let Some(h) = hi {
            if &v > h {
                v = h.clone();
            }
        }
        if idx >= self.seed.len() {
            self.seed.push(v.clone());
        } else {
            self.seed[idx] = v.clone();
        }
        self.vals.push(if self.model_ok { Some(v) } else { None });
        self.pending.push_str(&format!("(declare-const a{} Int)\n", id));
        let p = Poly::atom(id);
        if let Some(l) = lo {
            self.assume_fact((K::Le, p.clone(), l - Big::one(), false))?;
        }
        if let Some(h) = hi {
            self.assume_fact((K::Le, p.clone(), h.clone(), true))?;
        }
        self.snap();
        Ok(T::from(self.norm(&p)?))
    }
    fn snap(&self) {
        if let Ok(mut s) = self.snapshot.lock() {
            *s = self.inputs_text();
        }
    }
    pub fn inputs_text(&self) -> String {
        let mut out = vec![];
        for i in &self.inputs {
            match i {
                InputRec::Sym(n, k) => out.push(format!("{}={}", n, self.seed.get(*k).cloned().unwrap_or_else(Big::zero))),
                InputRec::Char(n, k) => out.push(format!("{}={}", n, self.char_value(*k) as u32)),
                InputRec::Pick(n, v) => out.push(format!("{}={}", n, v)),
            }
        }
        out.join(";")
    }
    pub fn has_model(&self) -> bool {
        self.model_ok
    }

    // ---- normal forms -------------------------------------------------------------------
    pub fn norm(&mut self, p: &Poly) -> Result<Poly, Abort> {
        if self.subst.is_empty() {
            return Ok(p.clone());
        }
        let mut cur = p.clone();
        for _round in 0..200 {
            let mut at = BTreeSet::new();
            cur.atoms(&mut at);
            let mut any = false;
            for a in &at {
                if self.subst.contains_key(a) {
                    any = true;
                } else if self.atom_epoch[*a as usize] != self.epoch {
                    self.atom_epoch[*a as usize] = self.epoch;
                    let def = match &self.atoms[*a as usize] {
                        AtomKind::Quot(x, d) => Some((x.clone(), d.clone(), false)),
                        AtomKind::Rem(x, d) => Some((x.clone(), d.clone(), true)),
                        _ => None,
                    };
                    if let Some((x, d, rem)) = def {
                        let (x2, d2) = (self.norm(&x)?, self.norm(&d)?);
                        if x2 != x || d2 != d {
                            let (mut r, open) = self.fquot_known(&x2, &d2)?;
                            if open.is_some() {
                                continue;
                            }
                            if rem {
                                r = x2.sub(&r.mul(&d2));
                            }
                            if !r.mentions(*a) {
                                // other substitutions may refer to this atom: they are re-normalised on use
                                let mut rs = BTreeSet::new();
                                r.atoms(&mut rs);
                                if !self.reaches(&rs, *a) {
                                    self.subst.insert(*a, r);
                                    any = true;
                                }
                            }
                        }
                    }
                }
            }
            if !any {
                return Ok(cur);
            }
            let s = &self.subst;
            match cur.subst(&|a| s.get(&a).cloned(), self.cfg.max_terms) {
                Some(q) => cur = q,
                None => return Err(Abort::Unknown("term size".into())),
            }
        }
        Err(Abort::Unknown("substitution does not settle".into()))
    }
    fn reaches(&self, from: &BTreeSet<u32>, target: u32) -> bool {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<u32> = from.iter().cloned().collect();
        while let Some(a) = todo.pop() {
            if a == target {
                return true;
            }
            if seen.insert(a) {
                if let Some(r) = self.subst.get(&a) {
                    let mut rs = BTreeSet::new();
                    r.atoms(&mut rs);
                    todo.extend(rs);
                }
            }
        }
        false
    }

    /// floor(a/d), d > 0 known
    fn fquot(&mut self, a: &Poly, d: &Poly) -> Result<Poly, Abort> {
        match self.fquot_known(a, d)? {
            (k, None) => Ok(k),
            (k, Some(b)) => Ok(k.add(&self.quot_atom(&b, d)?)),
        }
    }
    /// floor(a/d) = K + floor(B/d), with B omitted where that quotient is already named or known
    fn fquot_known(&self, a: &Poly, d: &Poly) -> Result<(Poly, Option<Poly>), Abort> {
        let (k, b) = if let Some(dc) = d.as_const() {
            if dc.is_one() {
                return Ok((a.clone(), None));
            }
            if !dc.is_positive() {
                return Err(Abort::Infeasible);
            }
            let mut k = vec![];
            let mut b = vec![];
            for (m, c) in &a.0 {
                let (q, r) = c.div_mod_floor(&dc);
                if !q.is_zero() {
                    k.push((m.clone(), q));
                }
                if !r.is_zero() {
                    b.push((m.clone(), r));
                }
            }
            let (k, b) = (Poly(k), Poly(b));
            if b.as_const().is_some() {
                return Ok((k, None));
            }
            // bounded remainder part
            let (l, g, c) = b.split();
            if let Some(bd) = self.bounds.get(&l) {
                if let (Some(lo), Some(hi)) = (&bd.lo, &bd.hi) {
                    let (x, y) = (&g * lo + &c, &g * hi + &c);
                    let (x, y) = if x <= y { (x, y) } else { (y, x) };
                    let (qx, qy) = (x.div_floor(&dc), y.div_floor(&dc));
                    if qx == qy {
                        return Ok((k.add(&Poly::constant(qx)), None));
                    }
                }
            }
            (k, b)
        } else {
            if a.0.is_empty() {
                return Ok((Poly::zero(), None));
            }
            let (k, b) = a.reduce_by(d);
            if b.0.is_empty() || self.within(&b, d) {
                return Ok((k, None));
            }
            if b.0.len() > a.0.len() {
                (Poly::zero(), a.clone())
            } else {
                (k, b)
            }
        };
        if let Some(&q) = self.fq.get(&(b.clone(), d.clone())) {
            return Ok((k.add(&Poly::atom(q)), None));
        }
        Ok((k, Some(b)))
    }
    /// let a divisor of several terms be a single unknown, by rewriting one of its unknowns
    fn name_divisor(&mut self, d: &Poly) -> Result<(), Abort> {
        if d.0.len() < 2 || d.as_const().is_some() {
            return Ok(());
        }
        let unit = d.0.iter().rev().find_map(|(m, c)| {
            if m.len() == 1 && m[0].1 == 1 && (c.is_one() || (-c).is_one()) {
                let a = m[0].0;
                if d.0.iter().filter(|(n, _)| n.iter().any(|x| x.0 == a)).count() == 1 && !self.subst.contains_key(&a) {
                    return Some((a, c.clone()));
                }
            }
            None
        });
        let Some(u) = unit else { return Ok(()) };
        let id = self.atoms.len() as u32;
        self.atoms.push(AtomKind::Name(d.clone()));
        self.atom_epoch.push(self.epoch);
        let v = if self.model_ok { self.eval(d) } else { None };
        self.vals.push(v);
        self.pending.push_str(&format!("(declare-const a{} Int)\n", id));
        let t = self.smt(d);
        self.pending.push_str(&format!("(assert (= a{} {}))\n", id, t));
        self.pin_unit(u, d.clone(), Poly::atom(id))
    }
    fn known_le0(&self, p: &Poly) -> bool {
        match self.canon_le0(p) {
            Ok(b) => b,
            Err((k, l, v, pol)) => self.known(k, &l, &v) == Some(pol),
        }
    }
    /// 0 <= b < d by the bounds seen so far
    fn within(&self, b: &Poly, d: &Poly) -> bool {
        self.known_le0(&b.neg()) && self.known_le0(&b.sub(d).add(&Poly::constant(Big::one())))
    }
    fn quot_atom(&mut self, b: &Poly, d: &Poly) -> Result<Poly, Abort> {
        if let Some(&q) = self.fq.get(&(b.clone(), d.clone())) {
            return Ok(Poly::atom(q));
        }
        let id = self.atoms.len() as u32;
        self.atoms.push(AtomKind::Quot(b.clone(), d.clone()));
        self.atom_epoch.push(self.epoch);
        self.fq.insert((b.clone(), d.clone()), id);
        let v = if self.model_ok {
            match (self.eval(b), self.eval(d)) {
                (Some(x), Some(y)) if !y.is_zero() => Some(x.div_floor(&y)),
                _ => None,
            }
        } else {
            None
        };
        self.vals.push(v);
        self.pending.push_str(&format!("(declare-const a{} Int)\n", id));
        let q = Poly::atom(id);
        let mut r = b.sub(&d.mul(&q));
        let mut unit_pin = None;
        if d.as_const().is_none() {
            // name the remainder and rewrite an unknown of the dividend: x = d*q + r - ...
            let unit = b.0.iter().find_map(|(m, c)| {
                if m.len() == 1 && m[0].1 == 1 && (c.is_one() || (-c).is_one()) {
                    let a = m[0].0;
                    let once = b.0.iter().filter(|(n, _)| n.iter().any(|x| x.0 == a)).count() == 1;
                    if once && !d.mentions(a) && !self.subst.contains_key(&a) {
                        return Some((a, c.clone()));
                    }
                }
                None
            });
            if let Some(u) = unit {
                let rid = self.atoms.len() as u32;
                self.atoms.push(AtomKind::Rem(b.clone(), d.clone()));
                self.atom_epoch.push(self.epoch);
                let v = match (self.vals[id as usize].clone(), if self.model_ok { (self.eval(b), self.eval(d)) } else { (None, None) }) {
                    (Some(q), (Some(x), Some(y))) => Some(x - q * y),
                    _ => None,
                };
                self.vals.push(v);
                self.pending.push_str(&format!("(declare-const a{} Int)\n", rid));
                r = Poly::atom(rid);
                let l = self.smt(b);
                let rhs = self.smt(&d.mul(&q).add(&r));
                self.pending.push_str(&format!("(assert (= {} {}))\n", l, rhs));
                unit_pin = Some((u, b.clone(), d.mul(&q).add(&r)));
            }
        }
        // 0 <= r  and  r <= d-1
        self.fact_le0(&r.neg())?;
        self.fact_le0(&r.sub(d).add(&Poly::constant(Big::one())))?;
        if d.as_const().is_none() {
            // redundant sign facts that help the nonlinear solver
            let t1 = self.smt(b);
            let t2 = format!("a{}", id);
            self.pending.push_str(&format!("(assert (=> (>= {} 0) (>= {} 0)))\n(assert (=> (< {} 0) (< {} 0)))\n", t1, t2, t1, t2));
        }
        if d.as_const().is_none() {
            if self.known_le0(&b.neg()) {
                self.fact_le0(&q.neg())?;
            }
            if self.known_le0(&d.sub(b)) {
                self.fact_le0(&Poly::constant(Big::one()).sub(&q))?;
            }
        }
        if let Some((u, l, v)) = unit_pin {
            self.pin_unit(u, l, v)?;
        }
        Ok(q)
    }
    /// assert p <= 0 as a definition (holds in every model by construction)
    fn fact_le0(&mut self, p: &Poly) -> Result<(), Abort> {
        let (l, k, c) = p.split();
        if l.0.is_empty() {
            return if c.is_positive() { Err(Abort::Infeasible) } else { Ok(()) };
        }
        let f = if k.is_positive() {
            (K::Le, l, (-c).div_floor(&k), true)
        } else {
            let m = -&k;
            let v = -((-&c).div_floor(&m)); // ceil(c/m)
            (K::Le, l, v - Big::one(), false)
        };
        self.assert_fact(f)
    }

    // ---- evaluation ---------------------------------------------------------------------
    pub fn eval(&self, p: &Poly) -> Option<Big> {
        p.eval(&mut |a| self.vals.get(a as usize).cloned().flatten())
    }
    fn recompute(&self, seed: &[Big]) -> Vec<Option<Big>> {
        let mut vals: Vec<Option<Big>> = Vec::with_capacity(self.atoms.len());
        for k in &self.atoms {
            let v = match k {
                AtomKind::Input(i) => seed.get(*i).cloned(),
                AtomKind::Name(a) => a.eval(&mut |x: u32| vals.get(x as usize).cloned().flatten()),
                AtomKind::Rem(a, d) => {
                    let mut f = |x: u32| vals.get(x as usize).cloned().flatten();
                    match (a.eval(&mut f), d.eval(&mut f)) {
                        (Some(x), Some(y)) if !y.is_zero() => Some(x.mod_floor(&y)),
                        _ => None,
                    }
                }
                AtomKind::Quot(a, d) => {
                    let mut f = |x: u32| vals.get(x as usize).cloned().flatten();
                    match (a.eval(&mut f), d.eval(&mut f)) {
                        (Some(x), Some(y)) if !y.is_zero() => Some(x.div_floor(&y)),
                        _ => None,
                    }
                }
            };
            vals.push(v);
        }
        vals
    }
    fn holds(vals: &[Option<Big>], f: &Fact) -> Option<bool> {
        let v = f.1.eval(&mut |a| vals.get(a as usize).cloned().flatten())?;
        Some(match f.0 {
            K::Le => (v <= f.2) == f.3,
            K::Eq => (v == f.2) == f.3,
        })
    }
    fn all_hold(&self, vals: &[Option<Big>], extra: Option<&Fact>) -> bool {
        extra.map_or(true, |f| Self::holds(vals, f) == Some(true))
            && self.facts.iter().all(|f| Self::holds(vals, f) == Some(true))
    }

    // ---- decisions ----------------------------------------------------------------------
    fn canon_le0(&self, p: &Poly) -> Result<bool, (K, Poly, Big, bool)> {
        let (l, k, c) = p.split();
        if l.0.is_empty() {
            return Ok(!c.is_positive());
        }
        Err(if k.is_positive() {
            (K::Le, l, (-c).div_floor(&k), true)
        } else {
            let m = -&k;
            let v = -((-&c).div_floor(&m));
            // k*L + c <= 0  <=>  m*L >= c  <=>  L >= ceil(c/m)  <=> not (L <= v-1)
            (K::Le, l, v - Big::one(), false)
        })
    }
    pub fn decide_le0(&mut self, p: &Poly) -> Result<bool, Abort> {
        let p = self.norm(p)?;
        match self.canon_le0(&p) {
            Ok(b) => Ok(b),
            Err((kind, l, v, pol)) => Ok(self.decide(kind, l, v, None)? == pol),
        }
    }
    pub fn decide_eq0(&mut self, p: &Poly) -> Result<bool, Abort> {
        let p = self.norm(p)?;
        let (l, k, c) = p.split();
        if l.0.is_empty() {
            return Ok(c.is_zero());
        }
        let (q, r) = (-c).div_mod_floor(&k);
        if !r.is_zero() {
            return Ok(false);
        }
        self.decide(K::Eq, l, q, None)
    }
    fn known(&self, kind: K, l: &Poly, v: &Big) -> Option<bool> {
        let b = self.bounds.get(l)?;
        match kind {
            K::Le => {
                if let Some(h) = &b.hi {
                    if h <= v {
                        return Some(true);
                    }
                }
                if let Some(lo) = &b.lo {
                    if lo > v {
                        return Some(false);
                    }
                }
                None
            }
            K::Eq => {
                if let Some(h) = &b.hi {
                    if v > h {
                        return Some(false);
                    }
                }
                if let Some(lo) = &b.lo {
                    if v < lo {
                        return Some(false);
                    }
                }
                if b.ne.contains(v) {
                    return Some(false);
                }
                if b.lo.is_some() && b.lo == b.hi {
                    return Some(true);
                }
                None
            }
        }
    }
    /// bounds of a polynomial from the known bounds of its unknowns
    fn interval(&self, p: &Poly) -> (Option<Big>, Option<Big>) {
        type I = (Option<Big>, Option<Big>);
        fn mul(x: &I, y: &I) -> I {
            let z = Big::zero();
            let nonneg = |i: &I| i.0.as_ref().map_or(false, |l| *l >= z);
            if nonneg(x) && nonneg(y) {
                let lo = x.0.as_ref().unwrap() * y.0.as_ref().unwrap();
                let hi = match (&x.1, &y.1) {
                    (Some(a), Some(b)) => Some(a * b),
                    _ => None,
                };
                return (Some(lo), hi);
            }
            if let (Some(a), Some(b), Some(c), Some(d)) = (&x.0, &x.1, &y.0, &y.1) {
                let v = [a * c, a * d, b * c, b * d];
                return (v.iter().min().cloned(), v.iter().max().cloned());
            }
            let flip = |i: &I| -> I { (i.1.as_ref().map(|v| -v), i.0.as_ref().map(|v| -v)) };
            let nonpos = |i: &I| i.1.as_ref().map_or(false, |h| *h <= z);
            if nonpos(x) && nonneg(y) {
                return flip(&mul(&flip(x), y));
            }
            if nonneg(x) && nonpos(y) {
                return flip(&mul(x, &flip(y)));
            }
            if nonpos(x) && nonpos(y) {
                return mul(&flip(x), &flip(y));
            }
            (None, None)
        }
        let mut lo = Some(Big::zero());
        let mut hi = Some(Big::zero());
        for (m, c) in &p.0 {
            let mut i: I = (Some(Big::one()), Some(Big::one()));
            for &(a, e) in m {
                let b: I = match self.bounds.get(&Poly::atom(a)) {
                    Some(b) => (b.lo.clone(), b.hi.clone()),
                    None => (None, None),
                };
                if e > 16 {
                    i = (None, None);
                    break;
                }
                let mut pw = b.clone();
                for _ in 1..e {
                    pw = mul(&pw, &b);
                }
                if e % 2 == 0 {
                    if pw.0.as_ref().map_or(true, |l| l.is_negative()) {
                        pw.0 = Some(Big::zero());
                    }
                }
                i = mul(&i, &pw);
            }
            if c.is_negative() {
                i = (i.1, i.0);
            }
            lo = match (lo, i.0) {
                (Some(x), Some(y)) => Some(x + c * y),
                _ => None,
            };
            hi = match (hi, i.1) {
                (Some(x), Some(y)) => Some(x + c * y),
                _ => None,
            };
            if lo.is_none() && hi.is_none() {
                break;
            }
        }
        (lo, hi)
    }
    fn decide(&mut self, kind: K, l: Poly, v: Big, val: Option<Big>) -> Result<bool, Abort> {
        self.ops += 1;
        if val.is_none() {
            if let Some(b) = self.known(kind, &l, &v) {
                return Ok(b);
            }
            if self.pos >= self.prefix.len() {
                // bounds of the unknowns alone may settle it (recorded, so that a replay agrees)
                let (lo, hi) = self.interval(&l);
                let settled = match kind {
                    K::Le => {
                        if hi.map_or(false, |h| h <= v) {
                            Some(true)
                        } else if lo.map_or(false, |x| x > v) {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    K::Eq => {
                        if hi.map_or(false, |h| h < v) || lo.map_or(false, |x| x > v) {
                            Some(false)
                        } else {
                            None
                        }
                    }
                };
                if let Some(b) = settled {
                    self.decisions += 1;
                    self.by_bounds += 1;
                    self.trace.push(Dec::B(b));
                    self.assert_fact((kind, l, v, b))?;
                    return Ok(b);
                }
            }
        }
        let mk = |b: bool| match &val {
            Some(x) => Dec::V(x.clone(), b),
            None => Dec::B(b),
        };
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            let b = match d {
                Dec::B(b) => b,
                Dec::V(_, b) => b,
                Dec::C(_) => return Err(Abort::Unknown("replay mismatch".into())),
            };
            self.trace.push(d);
            self.assert_fact((kind, l, v, b))?;
            return Ok(b);
        }
        self.decisions += 1;
        if self.trace.len() >= self.cfg.max_decisions {
            return Err(Abort::Fuel("decision budget exceeded".into()));
        }
        let fact = |b: bool| -> Fact { (kind, l.clone(), v.clone(), b) };
        self.ensure_model()?;
        let side = if self.model_ok { Self::holds(&self.vals, &fact(true)) } else { None };
        match side {
            Some(b) => {
                let (r, m) = self.query(&fact(!b));
                match r {
                    Sat::Unsat => {}
                    _ => {
                        let mut d = self.trace.clone();
                        d.push(mk(!b));
                        self.alts.push(Item { decs: d, seed: m });
                    }
                }
                self.trace.push(mk(b));
                self.assert_fact(fact(b))?;
                Ok(b)
            }
            None => {
                let (r1, m1) = self.query(&fact(true));
                let (r0, m0) = if r1 == Sat::Unsat { (Sat::Unknown, None) } else { self.query(&fact(false)) };
                if r1 == Sat::Unsat {
                    self.trace.push(mk(false));
                    self.assert_fact(fact(false))?;
                    return Ok(false);
                }
                if r0 != Sat::Unsat {
                    let mut d = self.trace.clone();
                    d.push(mk(false));
                    self.alts.push(Item { decs: d, seed: m0 });
                }
                if let Some(m) = m1 {
                    self.set_model(m);
                }
                self.trace.push(mk(true));
                self.assert_fact(fact(true))?;
                Ok(true)
            }
        }
    }
    fn set_model(&mut self, seed: Vec<Big>) {
        self.seed = seed;
        self.vals = self.recompute(&self.seed);
        self.model_ok = true;
        self.snap();
    }
    fn ensure_model(&mut self) -> Result<(), Abort> {
        if self.model_ok {
            return Ok(());
        }
        let (r, m) = self.raw_query(None);
        match (r, m) {
            (Sat::Unsat, _) => Err(Abort::Infeasible),
            (_, Some(m)) => {
                self.set_model(m);
                Ok(())
            }
            _ => Ok(()),
        }
    }
    /// record an assumption: the path continues only where it holds
    fn assume_fact(&mut self, f: Fact) -> Result<(), Abort> {
        if let Some(b) = self.known(f.0, &f.1, &f.2) {
            return if b == f.3 { Ok(()) } else { Err(Abort::Infeasible) };
        }
        if self.model_ok && Self::holds(&self.vals, &f) != Some(true) {
            let (r, m) = self.query(&f);
            match (r, m) {
                (Sat::Unsat, _) => return Err(Abort::Infeasible),
                (_, Some(m)) => self.set_model(m),
                _ => {
                    self.model_ok = false;
                }
            }
        }
        self.assert_fact(f)
    }
    pub fn assume_le0(&mut self, p: &Poly) -> Result<(), Abort> {
        let p = self.norm(p)?;
        match self.canon_le0(&p) {
            Ok(true) => Ok(()),
            Ok(false) => Err(Abort::Infeasible),
            Err(f) => self.assume_fact(f),
        }
    }
    pub fn choose(&mut self, name: &str, n: u32) -> Result<u32, Abort> {
        let c = self.choose_hidden(n)?;
        self.inputs.push(InputRec::Pick(name.to_string(), c.to_string()));
        self.snap();
        Ok(c)
    }
    /// a choice that is no input of the code
    pub fn choose_hidden(&mut self, n: u32) -> Result<u32, Abort> {
        let c = if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            match d {
                Dec::C(c) => c,
                _ => return Err(Abort::Unknown("replay mismatch".into())),
            }
        } else {
            self.decisions += 1;
            for k in (1..n).rev() {
                let mut d = self.trace.clone();
                d.push(Dec::C(k));
                let seed = if self.model_ok { Some(self.seed.clone()) } else { None };
                self.alts.push(Item { decs: d, seed });
            }
            0
        };
        self.trace.push(Dec::C(c));
        Ok(c)
    }
    pub fn concretize(&mut self, p: &Poly) -> Result<Big, Abort> {
        if self.narrow(p, self.cfg.max_concretize)? {
            return self.halve(p);
        }
        let mut n = 0;
        loop {
            let p = self.norm(p)?;
            if let Some(c) = p.as_const() {
                return Ok(c);
            }
            let (l, k, c) = p.split();
            if let Some(b) = self.bounds.get(&l) {
                if b.lo.is_some() && b.lo == b.hi {
                    return Ok(k * b.lo.clone().unwrap() + c);
                }
            }
            n += 1;
            if n > self.cfg.max_concretize {
                return Err(Abort::Cut("more values than the concretisation bound".into()));
            }
            let lv = if self.pos < self.prefix.len() {
                match &self.prefix[self.pos] {
                    Dec::V(v, _) => v.clone(),
                    _ => return Err(Abort::Unknown("replay mismatch".into())),
                }
            } else {
                self.ensure_model()?;
                match if self.model_ok { self.eval(&l) } else { None } {
                    Some(v) => v,
                    None => return Err(Abort::Unknown("no model for a value to split on".into())),
                }
            };
            if self.decide(K::Eq, l, lv.clone(), Some(lv.clone()))? {
                return Ok(k * lv + c);
            }
        }
    }
    /// whether a polynomial lies in a small known interval, where halving it is cheaper than asking value by value
    fn narrow(&mut self, p: &Poly, most: usize) -> Result<bool, Abort> {
        if self.nonlinear {
            return Ok(false);
        }
        let p = self.norm(p)?;
        let (l, _, _) = p.split();
        Ok(match self.bounds.get(&l) {
            Some(b) => match (&b.lo, &b.hi) {
                (Some(x), Some(y)) => {
                    let w = y - x;
                    w > Big::from(8) && w <= Big::from(most as u64)
                }
                _ => false,
            },
            None => false,
        })
    }
    fn halve(&mut self, p: &Poly) -> Result<Big, Abort> {
        loop {
            let p = self.norm(p)?;
            if let Some(c) = p.as_const() {
                return Ok(c);
            }
            let (l, k, c) = p.split();
            let (x, y) = match self.bounds.get(&l) {
                Some(Bnd { lo: Some(x), hi: Some(y), .. }) => (x.clone(), y.clone()),
                _ => return self.concretize(&p),
            };
            if x == y {
                return Ok(k * x + c);
            }
            let mid = (&x + &y).div_floor(&Big::from(2));
            self.decide(K::Le, l, mid, None)?;
        }
    }

    // ---- facts --------------------------------------------------------------------------
    fn assert_fact(&mut self, f: Fact) -> Result<(), Abort> {
        let t = self.smt_fact(&f);
        self.pending.push_str("(assert ");
        self.pending.push_str(&t);
        self.pending.push_str(")\n");
        let (kind, l, v, pol) = f.clone();
        self.facts.push(f);
        self.note(kind, l, v, pol)
    }
    fn note(&mut self, kind: K, l: Poly, v: Big, pol: bool) -> Result<(), Abort> {
        let b = self.bounds.entry(l.clone()).or_default();
        match (kind, pol) {
            (K::Le, true) => {
                if b.hi.as_ref().map_or(true, |h| *h > v) {
                    b.hi = Some(v);
                }
            }
            (K::Le, false) => {
                let w = v + Big::one();
                if b.lo.as_ref().map_or(true, |h| *h < w) {
                    b.lo = Some(w);
                }
            }
            (K::Eq, true) => {
                b.lo = Some(v.clone());
                b.hi = Some(v);
            }
            (K::Eq, false) => b.ne.push(v),
        }
        loop {
            let mut ch = false;
            if let Some(h) = b.hi.clone() {
                if b.ne.contains(&h) {
                    b.hi = Some(h - Big::one());
                    ch = true;
                }
            }
            if let Some(h) = b.lo.clone() {
                if b.ne.contains(&h) {
                    b.lo = Some(h + Big::one());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        if let (Some(x), Some(y)) = (&b.lo, &b.hi) {
            if x > y {
                return Err(Abort::Infeasible);
            }
            if x == y {
                let x = x.clone();
                return self.pin(l, x);
            }
        }
        Ok(())
    }
    /// L == v: eliminate an atom when that is possible without fractions
    fn pin(&mut self, l: Poly, v: Big) -> Result<(), Abort> {
        let l2 = self.norm(&l)?;
        if l2.as_const().is_some() {
            return Ok(());
        }
        let mut pick = None;
        for (m, c) in &l2.0 {
            if m.len() == 1 && m[0].1 == 1 && (c.is_one() || (-c).is_one()) {
                let a = m[0].0;
                if l2.0.iter().filter(|(n, _)| n.iter().any(|x| x.0 == a)).count() == 1 {
                    pick = Some((a, c.clone()));
                    break;
                }
            }
        }
        if pick.is_none() && l2.is_linear() {
            // no unit coefficient: sum c_i x_i = v with the smallest |c_k| > 1. With
            // c_i = q_i c_k + r_i and t = (v - sum r_i x_i)/c_k, an integer, this is
            // x_k = t - sum q_i x_i together with c_k t + sum r_i x_i = v.
            let c0 = l2.0.iter().find(|(m, _)| m.is_empty()).map(|x| x.1.clone()).unwrap_or_else(Big::zero);
            let rhs = &v - &c0;
            let lin: Vec<(u32, Big)> = l2.0.iter().filter(|(m, _)| !m.is_empty()).map(|(m, c)| (m[0].0, c.clone())).collect();
            let g = lin.iter().fold(Big::zero(), |g, x| g.gcd(&x.1));
            if !(&rhs % &g).is_zero() {
                return Err(Abort::Infeasible);
            }
            let rhs = &rhs / &g;
            let lin: Vec<(u32, Big)> = lin.into_iter().map(|(a, c)| (a, c / &g)).collect();
            let k = (0..lin.len()).min_by_key(|i| lin[*i].1.abs()).unwrap();
            let (xk, ck) = lin[k].clone();
            if lin.len() == 1 || ck.abs().is_one() {
                // one variable (its value is known), or a unit after division by the gcd
                if ck.abs().is_one() {
                    pick = Some((xk, ck.clone()));
                    let q = Poly::constant(rhs.clone());
                    let l3 = lin.iter().fold(Poly::zero(), |p, (a, c)| p.add(&Poly(vec![(vec![(*a, 1)], c.clone())])));
                    return self.pin_unit(pick.unwrap(), l3, q);
                }
                return Ok(());
            }
            let sgn = if ck.is_negative() { -Big::one() } else { Big::one() };
            let m = ck.abs();
            let mut num = Poly::constant(&rhs * &sgn);
            let mut sol = Poly::zero();
            let mut rest = Poly::zero();
            for (i, (a, c)) in lin.iter().enumerate() {
                if i == k {
                    continue;
                }
                let (q, r) = c.div_mod_floor(&ck);
                let x = Poly::atom(*a);
                num = num.sub(&x.scale(&(&r * &sgn)));
                sol = sol.sub(&x.scale(&q));
                rest = rest.add(&x.scale(&r));
            }
            let t = self.fquot(&num, &Poly::constant(m))?;
            let sol = sol.add(&t);
            if sol.mentions(xk) {
                return Ok(());
            }
            self.pin_unit((xk, Big::one()), Poly::atom(xk), sol)?;
            let next = t.scale(&ck).add(&rest);
            return self.pin(next, rhs);
        }
        if let Some(u) = pick {
            return self.pin_unit(u, l2, Poly::constant(v));
        }
        Ok(())
    }
    /// eliminate atom a from  l = v  where a occurs in l once, as the monomial c*a with c = +-1
    fn pin_unit(&mut self, (a, c): (u32, Big), l2: Poly, v: Poly) -> Result<(), Abort> {
        {
            // c*a + rest = v  =>  a = c*(v - rest)   (c = +-1)
            let rest = l2.sub(&Poly(vec![(vec![(a, 1)], c.clone())]));
            let r = v.sub(&rest).scale(&c);
            self.subst.insert(a, r);
            self.epoch += 1;
            // refresh the bounds table
            let old: Vec<(Poly, Bnd)> = std::mem::take(&mut self.bounds).into_iter().collect();
            for (p, b) in old {
                let q = self.norm(&p)?;
                self.keep(p, b.clone());
                let (l3, k, c3) = q.split();
                if l3.0.is_empty() {
                    continue;
                }
                // p = k*L3 + c3
                let conv = |x: &Big, up: bool| -> Big {
                    // bound on L3 from k*L3 + c3 <= x (up) or >= x
                    let y = x - &c3;
                    if up { y.div_floor(&k) } else { -((-y).div_floor(&k)) }
                };
                let mut nb = Bnd::default();
                if k.is_positive() {
                    nb.hi = b.hi.as_ref().map(|h| conv(h, true));
                    nb.lo = b.lo.as_ref().map(|h| conv(h, false));
                } else {
                    // k<0: k*L+c <= h  <=> L >= ceil((h-c)/k) = ceil((c-h)/|k|)
                    let m = -&k;
                    nb.lo = b.hi.as_ref().map(|h| -((h - &c3).div_floor(&m)));
                    nb.hi = b.lo.as_ref().map(|h| (&c3 - h).div_floor(&m));
                }
                for x in &b.ne {
                    let (qq, rr) = (x - &c3).div_mod_floor(&k);
                    if rr.is_zero() {
                        nb.ne.push(qq);
                    }
                }
                self.keep(l3, nb);
            }
        }
        Ok(())
    }
    fn keep(&mut self, l: Poly, n: Bnd) {
        let b = self.bounds.entry(l).or_default();
        if let Some(h) = n.hi {
            if b.hi.as_ref().map_or(true, |x| *x > h) {
                b.hi = Some(h);
            }
        }
        if let Some(h) = n.lo {
            if b.lo.as_ref().map_or(true, |x| *x < h) {
                b.lo = Some(h);
            }
        }
        for x in n.ne {
            if !b.ne.contains(&x) {
                b.ne.push(x);
            }
        }
    }

    // ---- SMT ----------------------------------------------------------------------------
    fn num(v: &Big) -> String {
        if v.is_negative() {
            format!("(- {})", -v)
        } else {
            v.to_string()
        }
    }
    fn smt(&mut self, p: &Poly) -> String {
        if p.0.is_empty() {
            return "0".into();
        }
        let mut terms = vec![];
        for (m, c) in &p.0 {
            let deg: u64 = m.iter().map(|x| x.1 as u64).sum();
            let mut f = vec![];
            if deg > 1 {
                self.nonlinear = true;
            }
            if deg > 8 {
                let n = self.opaque.len();
                let k = match self.opaque.get(m) {
                    Some(k) => *k,
                    None => {
                        self.opaque.insert(m.clone(), n);
                        self.pending.push_str(&format!("(declare-const o{} Int)\n", n));
                        if m.iter().all(|x| x.1 % 2 == 0) {
                            self.pending.push_str(&format!("(assert (>= o{} 0))\n", n));
                        }
                        n
                    }
                };
                f.push(format!("o{}", k));
            } else {
                for &(a, e) in m {
                    for _ in 0..e {
                        f.push(format!("a{}", a));
                    }
                }
            }
            if !c.is_one() || f.is_empty() {
                f.insert(0, Self::num(c));
            }
            terms.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
        }
        if terms.len() == 1 {
            terms.pop().unwrap()
        } else {
            format!("(+ {})", terms.join(" "))
        }
    }
    fn smt_fact(&mut self, f: &Fact) -> String {
        let t = self.smt(&f.1);
        let v = Self::num(&f.2);
        match (f.0, f.3) {
            (K::Le, true) => format!("(<= {} {})", t, v),
            (K::Le, false) => format!("(> {} {})", t, v),
            (K::Eq, true) => format!("(= {} {})", t, v),
            (K::Eq, false) => format!("(not (= {} {}))", t, v),
        }
    }
    fn query(&mut self, f: &Fact) -> (Sat, Option<Vec<Big>>) {
        self.raw_query(Some(f))
    }
    fn raw_query(&mut self, f: Option<&Fact>) -> (Sat, Option<Vec<Big>>) {
        let t = f.map(|f| self.smt_fact(f));
        let p = std::mem::take(&mut self.pending);
        self.solver.send(&p);
        self.solver.send("(push 1)\n");
        if let Some(t) = t {
            self.solver.send(&format!("(assert {})\n", t));
        }
        let r = self.solver.check();
        let mut model = None;
        let mut res = r;
        if r == Sat::Sat {
            let names: Vec<String> = self.input_atoms.iter().map(|a| format!("a{}", a)).collect();
            if let Some(v) = self.solver.values(&names) {
                let seed: Option<Vec<Big>> = v.iter().map(|s| s.parse::<Big>().ok()).collect();
                if let Some(seed) = seed {
                    let vals = self.recompute(&seed);
                    if self.all_hold(&vals, f) {
                        model = Some(seed);
                    }
                }
            }
            if model.is_none() {
                res = Sat::Unknown;
            }
        }
        if res == Sat::Unknown {
            model = self.guess(f);
            if model.is_some() {
                res = Sat::Sat;
            }
        }
        self.solver.send("(pop 1)\n");
        (res, model)
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    /// search for a model by evaluation when the solver gives none
    fn guess(&mut self, f: Option<&Fact>) -> Option<Vec<Big>> {
        let n = self.input_atoms.len();
        if n == 0 {
            return None;
        }
        // first: small values for the unknowns that are left, inputs computed from them
        if !self.subst.is_empty() {
            let ins: Vec<Poly> = self.input_atoms.clone().iter().filter_map(|a| self.norm(&Poly::atom(*a)).ok()).collect();
            if ins.len() == n {
                let mut free = BTreeSet::new();
                for p in &ins {
                    p.atoms(&mut free);
                }
                for round in 0..400u32 {
                    let mut m: HashMap<u32, Big> = HashMap::new();
                    for a in &free {
                        let span = [2u64, 3, 5, 12, 60][(round % 5) as usize];
                        let mut v = Big::from(self.rnd() % span) + Big::from(round & 1);
                        if let AtomKind::Input(_) = self.atoms[*a as usize] {
                            if self.rnd() % 2 == 0 {
                                v = -v;
                            }
                        } else if self.rnd() % 4 == 0 {
                            v = -v;
                        }
                        m.insert(*a, v);
                    }
                    let s: Option<Vec<Big>> = ins.iter().map(|p| p.eval(&mut |a| m.get(&a).cloned())).collect();
                    if let Some(s) = s {
                        let vals = self.recompute(&s);
                        if self.all_hold(&vals, f) {
                            return Some(s);
                        }
                    }
                }
            }
        }
        for round in 0..300 {
            let mut s = self.seed.clone();
            s.resize(n, Big::zero());
            let k = 1 + (self.rnd() as usize) % n;
            for _ in 0..k {
                let i = (self.rnd() as usize) % n;
                let span = [3i64, 8, 20, 60, 1000][(self.rnd() % 5) as usize];
                let r = (self.rnd() % (2 * span as u64 + 1)) as i64 - span;
                s[i] = if round % 2 == 0 { Big::from(r) } else { &s[i] + Big::from(r) };
            }
            let vals = self.recompute(&s);
            if self.all_hold(&vals, f) {
                return Some(s);
            }
        }
        None
    }
    /// a model of the whole path, if one is known or found
    pub fn final_model(&mut self) -> Result<Option<Vec<Big>>, Abort> {
        self.ensure_model()?;
        if self.model_ok {
            Ok(Some(self.seed.clone()))
        } else {
            Ok(None)
        }
    }
    pub fn finish(&mut self) {
        // drop the path's assertions
        if self.pending.starts_with("(push 1)\n") {
            self.pending.clear();
        } else {
            let p = std::mem::take(&mut self.pending);
            let _ = p;
            self.solver.send("(pop 1)\n");
        }
    }
    pub fn obs_text(&self) -> Vec<String> {
        self.obs
            .iter()
            .map(|(n, v)| match v {
                Ok(t) => format!("{}={}", n, self.eval(&t.poly()).map(|b| b.to_string()).unwrap_or_else(|| "?".into())),
                Err(s) => format!("{}={}", n, plain(&self.model_numbers(&self.model_text(s)))),
            })
            .collect()
    }
    /// printed symbolic integers replaced by their values in the model
    fn model_numbers(&self, s: &str) -> String {
        let mut o = String::new();
        let mut rest = s;
        while let Some(at) = rest.find(MAGIC) {
            o += &rest[..at];
            rest = &rest[at + MAGIC.len()..];
            let v = rest.get(..IDW).and_then(|d| d.parse::<usize>().ok()).and_then(|k| self.display.get(k)).and_then(|t| self.eval(&t.poly()));
            match v {
                Some(v) => {
                    o += &v.to_string();
                    rest = &rest[IDW..];
                }
                None => o += MAGIC,
            }
        }
        o + rest
    }
    pub fn display_id(&mut self, t: T) -> usize {
        // the same number has the same text
        let same = |d: &T| match (d, &t) {
            (T::C(a), T::C(b)) => a == b,
            (T::P(a), T::P(b)) => Arc::ptr_eq(a, b) || a == b,
            _ => false,
        };
        if let Some(k) = self.display.iter().position(same) {
            return k;
        }
        self.display.push(t);
        self.display.len() - 1
    }
    pub fn busy(&mut self, b: bool) {
        self.in_engine = b;
    }
}

/// the ends of a machine type, its square root, half its width, the precision of a float
fn machine_edges(lo: &Big, hi: &Big, from: Option<Big>, to: Option<Big>) -> Vec<Big> {
    let one = Big::from(1);
    let bits = hi.bits();
    let half = (&one << (bits / 2)) as Big;
    let root = hi.sqrt();
    let mut v = vec![lo.clone(), lo + &one, hi - &one, hi.clone(), root.clone(), &root + &one, -&root, -(&root + &one), half.clone(), -half];
    for k in [15usize, 16, 31, 32, 53, 63] {
        let p: Big = &one << k;
        v.extend(vec![&p - &one, p.clone(), &p + &one, -&p, -(&p + &one)]);
    }
    v.extend([100, 1000, 46341, 1000003].iter().map(|c| Big::from(*c)));
    // some of no special form
    v.extend([1657, 1696962, 108605619, 1779114256487, 1821815395012469, 1865538899174381].iter().map(|c: &i64| Big::from(*c)));
    // the ends of what the value can be, and inside
    let (l, h) = (from.unwrap_or_else(|| lo.clone()).max(lo.clone()), to.unwrap_or_else(|| hi.clone()).min(hi.clone()));
    if l < h {
        let w = &h - &l;
        v.extend(vec![l.clone(), &l + &one, &h - &one, h.clone(), &l + &w / Big::from(2), &l + &w * Big::from(618) / Big::from(1000)]);
        v.retain(|c| *c >= l && *c <= h);
    }
    v.retain(|c| c >= lo && c <= hi);
    v.sort();
    v.dedup();
    v
}
/// decimal text of a symbolic value: a run of digits that no computation here produces, and its number
pub const MAGIC: &str = "314159265358979323846264338327950288";
pub const IDW: usize = 9;

pub fn to_i64(b: &Big) -> i64 {
    b.to_i64().expect("i64")
}

/// one line of printable text for any text
pub fn plain(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '|' => o.push('/'),
            ' '..='~' => o.push(c),
            '\n' => o.push(' '),
            c => o.push_str(&format!("<{:x}>", c as u32)),
        }
    }
    o
}
