//! Parallel depth-first exploration by re-execution.
use crate::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{}{}", m, loc));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

/// A path that exhausts the stack or aborts would take the whole exploration with it: its thread is parked for
/// good instead, and the watchdog reports the inputs it was on.
mod crash {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU64, Ordering};
    thread_local!(pub static ME: Cell<usize> = const { Cell::new(usize::MAX) });
    pub static DOWN: AtomicU64 = AtomicU64::new(0);
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const Action, old: *mut Action) -> i32;
        fn pause() -> i32;
    }
    extern "C" fn park(sig: i32) {
        let me = ME.with(|m| m.get());
        if me >= 64 {
            // not a path: let it happen
            let plain = Action { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
            unsafe { sigaction(sig, &plain, std::ptr::null_mut()) };
            return;
        }
        DOWN.fetch_or(1 << me, Ordering::SeqCst);
        loop {
            unsafe { pause() };
        }
    }
    pub fn install() {
        // SA_ONSTACK: the standard library gives every thread it starts an alternate stack
        let a = Action { handler: park as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        for sig in [6, 7, 11] {
            unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
        }
    }
}

/// paths remembered before a failing one
const HISTORY: usize = 300;

#[derive(Clone, Debug)]
pub struct Finding {
    pub label: String,
    pub kind: &'static str,
    pub inputs: String,
    /// the inputs of paths run just before, should the code under test keep something from one call to the next
    pub after: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Report {
    pub paths: u64,
    pub ok: u64,
    pub infeasible: u64,
    pub no_model: u64,
    pub decisions: u64,
    pub checks: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_errors: u64,
    pub solver_s: f64,
    pub wall_s: f64,
    pub cuts: std::collections::BTreeMap<String, u64>,
    pub undecided: std::collections::BTreeMap<String, u64>,
    pub findings: Vec<Finding>,
    pub reached: BTreeSet<String>,
    pub complete: bool,
    pub traces: Vec<(String, Vec<String>)>,
}

pub struct Opts {
    pub threads: usize,
    pub budget: Duration,
    pub max_paths: u64,
    pub path_time: Duration,
    pub solver_ms: u32,
    pub max_findings: usize,
    /// failing paths after which the exploration ends
    pub max_fails: u64,
    pub max_traces: usize,
}

struct Shared {
    queue: Mutex<Vec<Item>>,
    busy: AtomicUsize,
    stop: AtomicBool,
    timed_out: AtomicBool,
    paths: AtomicU64,
    fails: AtomicU64,
    rep: Mutex<Report>,
    before: Mutex<std::collections::VecDeque<String>>,
    slots: Vec<(Mutex<Option<Instant>>, Arc<Mutex<String>>)>,
}

pub fn explore(cfg: Cfg, opts: Opts, harness: Arc<dyn Fn() + Send + Sync>) -> Report {
    let start = Instant::now();
    crash::install();
    let sh = Arc::new(Shared {
        queue: Mutex::new(vec![Item { decs: vec![], seed: Some(vec![]) }]),
        busy: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        paths: AtomicU64::new(0),
        fails: AtomicU64::new(0),
        rep: Mutex::new(Report::default()),
        before: Mutex::new(Default::default()),
        slots: (0..opts.threads).map(|_| (Mutex::new(None), Arc::new(Mutex::new(String::new())))).collect(),
    });
    let opts = Arc::new(opts);
    let mut hs = vec![];
    let live = Arc::new(AtomicUsize::new(opts.threads));
    for w in 0..opts.threads {
        let (sh, opts, cfg, harness, live) = (sh.clone(), opts.clone(), cfg.clone(), harness.clone(), live.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    crash::ME.with(|m| m.set(w));
                    let s2 = sh.clone();
                    if catch_unwind(AssertUnwindSafe(move || worker(w, sh, opts, cfg, harness, start))).is_err() {
                        s2.stop.store(true, Ordering::SeqCst);
                        if let Ok(mut r) = s2.rep.lock() {
                            *r.undecided.entry(format!("the engine failed: {}", last_panic())).or_default() += 1;
                        }
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap(),
        );
    }
    // watchdog
    let mut hung = vec![];
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if live.load(Ordering::SeqCst) == 0 {
            break;
        }
        if start.elapsed() > opts.budget {
            sh.stop.store(true, Ordering::SeqCst);
            sh.timed_out.store(true, Ordering::SeqCst);
        }
        for (i, s) in sh.slots.iter().enumerate() {
            let t = *s.0.lock().unwrap();
            if let Some(t) = t {
                let down = crash::DOWN.load(Ordering::SeqCst) >> i & 1 == 1;
                if (down || t.elapsed() > opts.path_time) && !hung.contains(&i) {
                    hung.push(i);
                    let inp = s.1.lock().unwrap().clone();
                    sh.rep.lock().unwrap().findings.push(Finding {
                        label: if down { "a path exhausts the stack or aborts" } else { "a path does not terminate" }.into(),
                        kind: "hang",
                        inputs: inp,
                        after: vec![],
                    });
                    sh.stop.store(true, Ordering::SeqCst);
                }
            }
        }
        if !hung.is_empty() && start.elapsed() > opts.budget + Duration::from_secs(1) {
            break;
        }
        if !hung.is_empty() && live.load(Ordering::SeqCst) <= hung.len() {
            break;
        }
    }
    if hung.is_empty() {
        for h in hs {
            let _ = h.join();
        }
    }
    let mut rep = std::mem::take(&mut *sh.rep.lock().unwrap());
    rep.wall_s = start.elapsed().as_secs_f64();
    rep.complete = !sh.stop.load(Ordering::SeqCst) && sh.queue.lock().unwrap().is_empty();
    rep
}

fn worker(w: usize, sh: Arc<Shared>, opts: Arc<Opts>, cfg: Cfg, harness: Arc<dyn Fn() + Send + Sync>, start: Instant) {
    let mut solver = Some(Solver::new(opts.solver_ms));
    let mut local = Report::default();
    loop {
        if sh.stop.load(Ordering::SeqCst) || start.elapsed() > opts.budget {
            if start.elapsed() > opts.budget && !sh.queue.lock().unwrap().is_empty() {
                sh.stop.store(true, Ordering::SeqCst);
                sh.timed_out.store(true, Ordering::SeqCst);
            }
            break;
        }
        let item = {
            let mut q = sh.queue.lock().unwrap();
            let it = q.pop();
            if it.is_some() {
                sh.busy.fetch_add(1, Ordering::SeqCst);
            }
            it
        };
        let Some(item) = item else {
            if sh.busy.load(Ordering::SeqCst) == 0 {
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
            continue;
        };
        if sh.paths.fetch_add(1, Ordering::SeqCst) >= opts.max_paths {
            sh.stop.store(true, Ordering::SeqCst);
            sh.busy.fetch_sub(1, Ordering::SeqCst);
            sh.queue.lock().unwrap().push(item);
            break;
        }
        let eng = Engine::new(cfg.clone(), solver.take().unwrap(), item, sh.slots[w].1.clone());
        eng.install();
        *sh.slots[w].0.lock().unwrap() = Some(Instant::now());
        let h = harness.clone();
        let out = catch_unwind(AssertUnwindSafe(move || h()));
        *sh.slots[w].0.lock().unwrap() = None;
        let mut eng = Engine::uninstall();
        local.paths += 1;
        local.decisions += eng.decisions;
        local.checks += eng.checks;
        let mut finding = None;
        let mut stop = false;
        let out: Result<(), Abort> = match out {
            Ok(()) => Ok(()),
            Err(p) => match p.downcast::<Abort>() {
                Ok(a) => Err(*a),
                Err(_) => Err(Abort::Fail(format!("panic: {}", last_panic()))),
            },
        };
        match out {
            Err(Abort::Infeasible) => local.infeasible += 1,
            Err(Abort::Cut(m)) => *local.cuts.entry(m).or_default() += 1,
            Err(Abort::Unknown(m)) => *local.undecided.entry(m).or_default() += 1,
            other => match eng.final_model() {
                Err(_) => local.infeasible += 1,
                Ok(m) => {
                    let inputs = eng.inputs_text();
                    match other {
                        Ok(()) => {
                            if m.is_some() {
                                let mut b = sh.before.lock().unwrap();
                                if b.len() >= HISTORY {
                                    b.pop_front();
                                }
                                b.push_back(inputs.clone());
                                drop(b);
                                local.ok += 1;
                                local.reached.extend(eng.reached.iter().cloned());
                                if local.traces.len() < opts.max_traces / opts.threads + 1 {
                                    local.traces.push((inputs, eng.obs_text()));
                                }
                            } else {
                                local.no_model += 1;
                            }
                        }
                        Err(Abort::Fail(l)) => {
                            if m.is_some() {
                                finding = Some(Finding { label: l, kind: "fail", inputs: inputs.clone(), after: vec![] });
                            } else {
                                *local.undecided.entry(format!("possible failure without a model: {}", l)).or_default() += 1;
                            }
                        }
                        Err(Abort::Fuel(l)) => {
                            if m.is_some() {
                                finding = Some(Finding { label: l, kind: "fuel", inputs: inputs.clone(), after: vec![] });
                            } else {
                                *local.undecided.entry(l).or_default() += 1;
                            }
                        }
                        _ => {}
                    }
                }
            },
        }
        eng.finish();
        let alts = std::mem::take(&mut eng.alts);
        solver = Some(eng.solver);
        if let Some(mut f) = finding {
            if f.kind == "fail" && sh.fails.fetch_add(1, Ordering::SeqCst) + 1 >= opts.max_fails {
                stop = true;
            }
            let mut r = sh.rep.lock().unwrap();
            let same = r.findings.iter().filter(|g| g.label == f.label).count();
            if same < 12 {
                if same < 3 && f.kind == "fail" {
                    f.after = sh.before.lock().unwrap().iter().cloned().collect();
                }
                r.findings.push(f);
            }
            if r.findings.len() >= opts.max_findings {
                stop = true;
            }
        }
        if !alts.is_empty() {
            sh.queue.lock().unwrap().extend(alts);
        }
        sh.busy.fetch_sub(1, Ordering::SeqCst);
        if stop {
            sh.stop.store(true, Ordering::SeqCst);
        }
    }
    let s = solver.unwrap();
    let mut r = sh.rep.lock().unwrap();
    r.paths += local.paths;
    r.ok += local.ok;
    r.infeasible += local.infeasible;
    r.no_model += local.no_model;
    r.decisions += local.decisions;
    r.checks += local.checks;
    r.queries += s.queries;
    r.sat += s.sat;
    r.unsat += s.unsat;
    r.unknown += s.unknown;
    r.solver_errors += s.errors;
    r.solver_s += s.nanos as f64 / 1e9;
    for (k, v) in local.cuts {
        *r.cuts.entry(k).or_default() += v;
    }
    for (k, v) in local.undecided {
        *r.undecided.entry(k).or_default() += v;
    }
    r.reached.extend(local.reached);
    r.traces.extend(local.traces);
}
