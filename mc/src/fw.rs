//! Exploration framework: parallel exhaustive enumeration, violation recording, evidence.
//!
//! Every check enumerates a finite space completely (there is no sampling anywhere); every case is
//! executed on the real `pgdatetime` crate and compared with the independent reference in
//! `refm.rs`.  Panics of the code under test are caught and are violations.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const NTHREADS: usize = 8;
const MAX_FAILS: usize = 200;
/// A single case that runs longer than this is reported as non-termination.
const HANG_SECS: u64 = 60;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Outcome of one call of the code under test.
#[derive(Clone, PartialEq, Debug)]
pub enum Out<T> {
    Ok(T),
    Err,
    Panic(String),
}

impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(v) => Out::Ok(f(v)),
            Out::Err => Out::Err,
            Out::Panic(p) => Out::Panic(p),
        }
    }
}

impl<T: std::fmt::Debug> Out<T> {
    pub fn show(&self) -> String {
        format!("{:?}", self)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CALL.with(|c| c.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = msg);
        } else {
            prev(info)
        }
    }));
}

/// Runs a fallible call of the code under test, catching panics.
#[inline]
pub fn call<T, E>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    let old = IN_CALL.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(old));
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(_)) => Out::Err,
        Err(_) => Out::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Runs an infallible call of the code under test, catching panics.
#[inline]
pub fn call1<T>(f: impl FnOnce() -> T) -> Out<T> {
    call(|| Ok::<T, ()>(f()))
}

pub type Step = Vec<String>;

#[derive(Clone)]
pub struct Fail {
    pub steps: Vec<Step>,
    pub expected: String,
    pub got: String,
}

impl Fail {
    pub fn key(&self) -> String {
        self.steps
            .iter()
            .map(|s| s.join(" "))
            .collect::<Vec<_>>()
            .join(" ; ")
    }
}

/// Set by the mutation survey, which needs the verdict only.
static FAILFAST: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub states: AtomicU64,
    pub calls: AtomicU64,
    pub compared: AtomicU64,
    pub fails: Mutex<Vec<Fail>>,
    pub nfails: AtomicU64,
    pub known_hits: Mutex<BTreeMap<String, u64>>,
    pub known: Vec<(String, String)>, // (key, what)
    pub samples: Mutex<Vec<String>>,
    pub classes: Mutex<BTreeMap<String, u64>>,
    pub bounds: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    beats: Vec<AtomicU64>,
    busy: Vec<AtomicBool>,
    current: Vec<Mutex<String>>,
}

/// Per-worker counters, merged into the context at the end of a chunk.
#[derive(Default)]
pub struct Loc {
    pub states: u64,
    pub calls: u64,
    pub compared: u64,
    pub classes: BTreeMap<&'static str, u64>,
}

impl Loc {
    #[inline]
    pub fn st(&mut self) {
        self.states += 1;
    }
    #[inline]
    pub fn tr(&mut self, n: u64) {
        self.calls += n;
    }
    #[inline]
    pub fn cmp(&mut self) {
        self.compared += 1;
    }
    #[inline]
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, known: Vec<(String, String)>) -> Self {
        Ctx {
            prop: prop.to_string(),
            tier,
            states: AtomicU64::new(0),
            calls: AtomicU64::new(0),
            compared: AtomicU64::new(0),
            fails: Mutex::new(vec![]),
            nfails: AtomicU64::new(0),
            known_hits: Mutex::new(BTreeMap::new()),
            known,
            samples: Mutex::new(vec![]),
            classes: Mutex::new(BTreeMap::new()),
            bounds: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            beats: (0..NTHREADS + 1).map(|_| AtomicU64::new(0)).collect(),
            busy: (0..NTHREADS + 1).map(|_| AtomicBool::new(false)).collect(),
            current: (0..NTHREADS + 1).map(|_| Mutex::new(String::new())).collect(),
        }
    }

    /// The small bounds: only for checks whose large bounds take long.
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick && !self.fast()
    }

    /// Checks whose large bounds are cheap enough for every run; their thorough tier goes further.
    fn fast(&self) -> bool {
        matches!(
            self.prop.as_str(),
            "C03" | "C04" | "C05" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C21" | "C22" | "C23" | "C25" | "C26" | "C27" | "C28"
        )
    }

    /// The largest bounds.
    pub fn deep(&self) -> bool {
        self.tier == Tier::Thorough && self.fast()
    }

    pub fn pick3<T>(&self, q: T, t: T, d: T) -> T {
        if self.deep() {
            d
        } else {
            self.pick(q, t)
        }
    }

    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }

    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let x = s();
            v.push(x);
        }
    }

    pub fn merge(&self, l: Loc) {
        self.states.fetch_add(l.states, Relaxed);
        self.calls.fetch_add(l.calls, Relaxed);
        self.compared.fetch_add(l.compared, Relaxed);
        if !l.classes.is_empty() {
            let mut c = self.classes.lock().unwrap();
            for (k, v) in l.classes {
                *c.entry(k.to_string()).or_insert(0) += v;
            }
        }
    }

    /// Records a violation: the calls that show it (each with explicit raw arguments, so that
    /// `mc replay` can execute them again), the expected and the observed outcome.
    pub fn fail(&self, steps: Vec<Step>, expected: impl Into<String>, got: impl Into<String>) {
        let f = Fail {
            steps,
            expected: expected.into(),
            got: got.into(),
        };
        let key = f.key();
        if let Some((_, what)) = self.known.iter().find(|(k, _)| *k == key) {
            *self.known_hits.lock().unwrap().entry(what.clone()).or_insert(0) += 1;
            return;
        }
        let n = self.nfails.fetch_add(1, Relaxed);
        if FAILFAST.get_or_init(|| std::env::var_os("MC_FAILFAST").is_some()).to_owned() {
            println!("VIOLATION property={} first={key}", self.prop);
            std::process::exit(1);
        }
        let mut v = self.fails.lock().unwrap();
        if v.len() < MAX_FAILS {
            v.push(f);
        }
        if n > 200_000 {
            // Enough: the verdict is settled, do not waste time on formatting more.
            self.stop.store(true, Relaxed);
        }
    }

    /// Compares an outcome with the expectation.
    #[inline]
    pub fn check<T: PartialEq + std::fmt::Debug>(
        &self,
        l: &mut Loc,
        got: &Out<T>,
        want: &Out<T>,
        steps: impl FnOnce() -> Vec<Step>,
    ) -> bool {
        l.compared += 1;
        if got == want {
            true
        } else {
            self.fail(steps(), want.show(), got.show());
            false
        }
    }

    #[inline]
    pub fn ensure(
        &self,
        l: &mut Loc,
        ok: bool,
        steps: impl FnOnce() -> Vec<Step>,
        expected: impl FnOnce() -> String,
        got: impl FnOnce() -> String,
    ) -> bool {
        l.compared += 1;
        if !ok {
            self.fail(steps(), expected(), got());
        }
        ok
    }

    /// Announces the case in progress (reported when it does not terminate).
    #[inline]
    pub fn now(&self, s: impl FnOnce() -> String) {
        let w = WORKER.with(|w| w.get());
        if w < self.current.len() {
            *self.current[w].lock().unwrap() = s();
            self.beats[w].fetch_add(1, Relaxed);
        }
    }

    /// Runs `f` over every index in `0..n`, `chunk` indices at a time, on all cores.
    pub fn par<F>(&self, n: u64, chunk: u64, f: F)
    where
        F: Fn(&mut Loc, u64) + Sync,
    {
        self.par_chunks(n, chunk, |l, a, b| {
            for i in a..b {
                f(l, i);
            }
        })
    }

    pub fn par_chunks<F>(&self, n: u64, chunk: u64, f: F)
    where
        F: Fn(&mut Loc, u64, u64) + Sync,
    {
        if n == 0 {
            return;
        }
        let chunk = chunk.max(1);
        let next = AtomicU64::new(0);
        let live = AtomicUsize::new(NTHREADS);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..NTHREADS {
                let next = &next;
                let live = &live;
                let f = &f;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            WORKER.with(|x| x.set(w));
                            let mut loc = Loc::default();
                            loop {
                                if self.stop.load(Relaxed) {
                                    break;
                                }
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= n {
                                    break;
                                }
                                self.busy[w].store(true, Relaxed);
                                f(&mut loc, a, (a + chunk).min(n));
                                self.beats[w].fetch_add(1, Relaxed);
                                self.busy[w].store(false, Relaxed);
                            }
                            self.merge(loc);
                            live.fetch_sub(1, Relaxed);
                        })
                        .unwrap(),
                );
            }
            // Watchdog: a worker that makes no progress is a non-terminating call.
            let mut last: Vec<(u64, Instant)> = (0..NTHREADS).map(|_| (0, Instant::now())).collect();
            while live.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(5));
                if hs.iter().all(|h| h.is_finished()) {
                    break; // a worker that panicked in the harness is re-raised by join below
                }
                for w in 0..NTHREADS {
                    let b = self.beats[w].load(Relaxed);
                    if !self.busy[w].load(Relaxed) || b != last[w].0 {
                        last[w] = (b, Instant::now());
                    } else if last[w].1.elapsed() > Duration::from_secs(HANG_SECS) {
                        let cur = self.current[w].lock().unwrap().clone();
                        self.fail(
                            vec![vec!["hang".into(), cur]],
                            "the call returns",
                            format!("no return within {} s", HANG_SECS),
                        );
                        crate::finish_and_exit(self);
                    }
                }
            }
            for (w, h) in hs.into_iter().enumerate() {
                if let Err(e) = h.join() {
                    // The oracle could not even evaluate what the code under test returned (this
                    // does not happen with results a correct implementation can give).
                    let cur = self.current[w].lock().unwrap().clone();
                    let msg = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
                    self.fail(
                        vec![vec!["impossible-result".into(), cur]],
                        "results the oracle can evaluate",
                        format!("the comparison itself failed: {}", msg.unwrap_or_default()),
                    );
                    crate::finish_and_exit(self);
                }
            }
        });
    }

    /// Single-threaded section with the same bookkeeping.
    pub fn seq<F: FnOnce(&mut Loc)>(&self, f: F) {
        let mut l = Loc::default();
        f(&mut l);
        self.merge(l);
    }
}

#[macro_export]
macro_rules! st {
    ($($x:expr),+ $(,)?) => { vec![$(format!("{}", $x)),+] };
}

/// Cartesian product over the given dimension sizes: decodes a flat index.
#[inline]
pub fn digits<const N: usize>(mut i: u64, dims: [u64; N]) -> [usize; N] {
    let mut out = [0usize; N];
    let mut k = N;
    while k > 0 {
        k -= 1;
        out[k] = (i % dims[k]) as usize;
        i /= dims[k];
    }
    out
}

pub fn product<const N: usize>(dims: [u64; N]) -> u64 {
    dims.iter().product()
}

pub fn dedup<T: std::hash::Hash + Eq + Clone + Ord>(v: Vec<T>) -> Vec<T> {
    let mut seen = HashSet::new();
    let mut out: Vec<T> = v.into_iter().filter(|x| seen.insert(x.clone())).collect();
    out.sort();
    out
}
