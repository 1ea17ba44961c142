//! Interleavings inside calls. Two threads execute one call each; every schedule with one switch
//! away from a call at any of its scheduling points (each basic block of the crate, each load and
//! store outside the thread's own stack) is executed, and, for short calls, every schedule with one
//! switch away from either. The outcome of each call must be the one it has alone.
//!
//! usage: il FILE SHARD SHARDS   (FILE: {"ops": [[..]], "base": [..], "pairs": [[a, b]..], "two": limit, "seconds": n})
//!
//! Pairs not begun after so many seconds are left out, and counted (calls which wait for locks take
//! long to explore).
#[allow(dead_code)]
#[path = "../../mc/src/api.rs"]
mod api;
mod fw;
#[path = "../../mc/src/interp.rs"]
mod interp;
#[allow(dead_code)]
mod refm {
    pub type Iv = (i32, i32, i64);
}
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

struct Job {
    op: Vec<String>,
    stop: u64,
}

enum Event {
    Paused,
    Done(String, u64),
}

thread_local! {
    static LINK: RefCell<Option<(Sender<Event>, Receiver<()>)>> = const { RefCell::new(None) };
}

/// Called inside a call at its stop point: reports, and waits to be released.
fn pause() {
    LINK.with(|l| {
        let l = l.borrow();
        let (tx, rx) = l.as_ref().unwrap();
        tx.send(Event::Paused).ok();
        rx.recv().ok();
    });
}

struct Worker {
    job: Sender<Job>,
    ev: Receiver<Event>,
    go: Sender<()>,
}

impl Worker {
    fn new() -> Worker {
        let (job, jobs) = channel::<Job>();
        let (etx, ev) = channel();
        let (go, grx) = channel();
        const STACK: usize = 1 << 20;
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                rt::own_stack(STACK);
                let tx = etx.clone();
                LINK.with(|l| *l.borrow_mut() = Some((etx, grx)));
                for j in jobs {
                    rt::start(j.stop, pause);
                    let r = interp::run(&j.op);
                    let n = rt::count();
                    rt::start(u64::MAX, pause);
                    tx.send(Event::Done(r, n)).ok();
                }
            })
            .expect("thread");
        Worker { job, ev, go }
    }
    fn send(&self, op: &[String], stop: u64) {
        self.job.send(Job { op: op.to_vec(), stop }).expect("worker");
    }
    /// The next event; a call which never returns is a violation.
    fn next(&self) -> Option<Event> {
        self.ev.recv_timeout(Duration::from_secs(20)).ok()
    }
    fn soon(&self, blocked: u64) -> Option<Event> {
        match self.ev.recv_timeout(Duration::from_micros(if blocked < 500 { 2000 } else { 200 })) {
            Ok(e) => Some(e),
            Err(RecvTimeoutError::Timeout) => None,
            Err(_) => None,
        }
    }
}

struct Run {
    a: Worker,
    b: Worker,
    schedules: u64,
    two: u64,
    blocked: u64,
    max_points: u64,
    fails: Vec<Value>,
}

impl Run {
    /// Runs a call alone on one of the workers.
    fn alone(&mut self, w: usize, op: &[String]) -> Result<(String, u64), String> {
        let w = if w == 0 { &self.a } else { &self.b };
        w.send(op, u64::MAX);
        match w.next() {
            Some(Event::Done(r, n)) => Ok((r, n)),
            _ => Err("the call does not return".into()),
        }
    }

    /// The first call up to its point k, the second up to its point j (or to its end), the first to
    /// its end, the second to its end.
    fn schedule(&mut self, a: &[String], b: &[String], k: u64, j: Option<u64>) -> Result<(String, String), String> {
        let hang = || "the calls do not return under this schedule".to_string();
        self.schedules += 1;
        self.a.send(a, k);
        let mut ra = None;
        match self.a.next().ok_or_else(hang)? {
            Event::Done(r, _) => ra = Some(r),
            Event::Paused => {}
        }
        self.b.send(b, j.unwrap_or(u64::MAX));
        let mut rb = None;
        let mut b_paused = false;
        // b may have to wait for a, which it then does until a has gone on
        match if ra.is_some() { Some(self.b.next().ok_or_else(hang)?) } else { self.b.soon(self.blocked) } {
            Some(Event::Done(r, _)) => rb = Some(r),
            Some(Event::Paused) => b_paused = true,
            None => self.blocked += 1,
        }
        if ra.is_none() {
            self.a.go.send(()).ok();
            if b_paused {
                match self.a.soon(self.blocked) {
                    Some(Event::Done(r, _)) => ra = Some(r),
                    _ => self.blocked += 1,
                }
            }
        }
        if b_paused {
            self.b.go.send(()).ok();
        }
        // both run to their ends; a call which had to wait may still come to its stop point
        let mut end: Option<Instant> = None;
        while ra.is_none() || rb.is_none() {
            for (w, r, other) in [(&self.a, &mut ra, rb.is_some()), (&self.b, &mut rb, false)] {
                if r.is_some() {
                    continue;
                }
                match w.ev.recv_timeout(if other { Duration::from_secs(20) } else { Duration::from_micros(200) }) {
                    Ok(Event::Done(x, _)) => *r = Some(x),
                    Ok(Event::Paused) => {
                        w.go.send(()).ok();
                    }
                    Err(_) if *end.get_or_insert_with(|| Instant::now() + Duration::from_secs(20)) < Instant::now() => return Err(hang()),
                    Err(_) => {}
                }
            }
        }
        Ok((ra.unwrap(), rb.unwrap()))
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("file")).expect("json");
    let (shard, shards): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    let ops: Vec<Vec<String>> =
        v["ops"].as_array().unwrap().iter().map(|o| o.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()).collect();
    let base: Vec<String> = v["base"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let limit = v["two"].as_u64().unwrap();
    let n = ops.len();
    let end = Instant::now() + Duration::from_secs(v["seconds"].as_u64().unwrap());
    let list: Vec<(usize, usize)> =
        v["pairs"].as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize)).collect();
    let m = list.len();
    // a stride without a common factor with the number of pairs, which spreads what is explored first
    let stride = [7919, 7907, 7901].into_iter().find(|p| m % p != 0).unwrap_or(1);
    let mut r = Run { a: Worker::new(), b: Worker::new(), schedules: 0, two: 0, blocked: 0, max_points: 0, fails: vec![] };
    let step = |t: &str, o: &[String]| -> Vec<String> { std::iter::once(t.to_string()).chain(o.iter().cloned()).collect() };
    let (mut pairs, mut left_out) = (0u64, 0u64);
    'all: for i in (shard..m).step_by(shards) {
        let (a, b) = list[i * stride % m];
        if Instant::now() > end {
            left_out += 1;
            continue;
        }
        // the state before: another call on each thread
        let c = (a + b + 1) % n;
        let mut points = [0u64; 2];
        for (w, o) in [(0, a), (1, b)] {
            // twice: the first run may initialise what later ones only read
            for _ in 0..2 {
                match r.alone(w, &ops[o]) {
                    Ok((x, p)) => {
                        points[w] = points[w].max(p);
                        if x != base[o] {
                            r.fails.push(json!({"steps": [step("thread0", &ops[o])], "expected": base[o], "got": x}));
                        }
                    }
                    Err(e) => {
                        r.fails.push(json!({"steps": [step("thread0", &ops[o])], "expected": base[o], "got": e}));
                        break 'all;
                    }
                }
            }
        }
        pairs += 1;
        r.max_points = r.max_points.max(points[0]);
        let mut plan: Vec<(u64, Option<u64>)> = (1..=points[0]).map(|k| (k, None)).collect();
        if points[0] * points[1] <= limit {
            r.two += 1;
            plan.extend((1..=points[0]).flat_map(|k| (1..=points[1]).map(move |j| (k, Some(j)))));
        }
        for (k, j) in plan {
            if j.is_none() {
                if let Err(e) = r.alone(1, &ops[c]) {
                    r.fails.push(json!({"steps": [step("thread1", &ops[c])], "expected": base[c], "got": e}));
                    break 'all;
                }
            }
            let (ga, gb) = match r.schedule(&ops[a], &ops[b], k, j) {
                Ok(x) => x,
                Err(e) => (e, String::new()),
            };
            if ga != base[a] || gb != base[b] {
                let sw = match j {
                    None => format!("switch away at point {k} of thread 0's call, back at the end of thread 1's"),
                    Some(j) => format!("switch away at point {k} of thread 0's call and back at point {j} of thread 1's"),
                };
                r.fails.push(json!({
                    "steps": [step("thread1", &ops[c]), step("thread0", &ops[a]), step("thread1", &ops[b]), vec!["schedule".to_string(), sw]],
                    "expected": format!("{} and {}", base[a], base[b]), "got": format!("{ga} and {gb}")
                }));
                if gb.is_empty() || r.fails.len() > 20 {
                    break 'all;
                }
            }
        }
    }
    let g = |c: &std::sync::atomic::AtomicU64| c.load(std::sync::atomic::Ordering::Relaxed);
    println!(
        "{}",
        json!({"pairs": pairs, "left_out": left_out, "schedules": r.schedules, "two": r.two, "blocked": r.blocked, "max_points": r.max_points, "accesses": g(&rt::ACCESSES),
            "static_loads": g(&rt::STATIC_LOADS), "static_stores": g(&rt::STATIC_STORES), "heap": g(&rt::HEAP), "fails": r.fails})
    );
    std::process::exit(0);
}
