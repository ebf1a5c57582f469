//! Stateless explorer: enumerates every sequence of answers to `Ctx::choose`, running
//! the harness body (which drives the real crate and compares it with a reference
//! model) once per sequence. Depth-first with dynamic work splitting over threads.
//! The process is supervised by a parent, so that aborts, stack overflows, memory
//! exhaustion and hangs of the code under check become violations with a replay.

use std::any::Any;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    pub bounds: &'static str,
    pub run: fn(&mut Ctx) -> R,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ent {
    pub choice: u32,
    pub end: u32,
    pub arity: u32,
}

/// FNV-1a style 64-bit hasher, deterministic across runs.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29) ^ (x >> 32);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
#[derive(Default, Clone)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<Ident>>;

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

const SHARDS: usize = 64;
pub struct Seen {
    shards: Vec<Mutex<HashMap<u64, u8, BuildHasherDefault<Ident>>>>,
}
impl Seen {
    fn new() -> Self {
        Seen {
            shards: (0..SHARDS).map(|_| Mutex::new(HashMap::default())).collect(),
        }
    }
}

pub struct Ctx<'e> {
    stack: &'e mut Vec<Ent>,
    pos: usize,
    fresh_from: usize,
    pub tier: Tier,
    pub recording: bool,
    pub notes: Vec<String>,
    pub transitions: u64,
    states: &'e mut IdSet,
    seen: &'e Seen,
    pub pruned: bool,
}

struct EngineFault(String);

const MAX_STATES_PER_WORKER: usize = 3_000_000;

impl Ctx<'_> {
    /// A nondeterministic choice out of `n`: every value is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        if n == 0 {
            std::panic::panic_any(EngineFault("choose(0)".into()));
        }
        if n == 1 {
            return 0;
        }
        let n = n as u32;
        if self.pos < self.stack.len() {
            let e = self.stack[self.pos];
            if e.arity != n {
                std::panic::panic_any(EngineFault(format!(
                    "replay divergence at choice {}: arity {} became {}",
                    self.pos, e.arity, n
                )));
            }
            self.pos += 1;
            e.choice as usize
        } else {
            if self.stack.len() > 800 {
                std::panic::panic_any(EngineFault("execution makes over 800 choices".into()));
            }
            self.stack.push(Ent { choice: 0, end: n, arity: n });
            self.pos += 1;
            0
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.choose(hi_incl - lo + 1)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn qt<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.recording {
            let s = f();
            self.notes.push(s);
        }
    }
    /// One call into the implementation was made.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Record an observed state (deduplicated by hash, for coverage reporting).
    pub fn state<T: Hash>(&mut self, t: &T) {
        if self.states.len() < MAX_STATES_PER_WORKER {
            let h = hash_of(t);
            self.states.insert(h);
        }
    }
    /// Explicit-state pruning: true if an equal state was already expanded with at
    /// least `remaining` steps left. Only ever true in unexplored territory.
    pub fn visited<T: Hash>(&mut self, t: &T, remaining: usize) -> bool {
        let h = hash_of(t);
        if self.states.len() < MAX_STATES_PER_WORKER {
            self.states.insert(h);
        }
        if self.pos < self.fresh_from || self.recording {
            return false;
        }
        let mut m = self.seen.shards[(h >> 58) as usize % SHARDS].lock().unwrap();
        match m.get_mut(&h) {
            Some(r) if *r as usize >= remaining => {
                self.pruned = true;
                true
            }
            Some(r) => {
                *r = remaining as u8;
                false
            }
            None => {
                m.insert(h, remaining as u8);
                false
            }
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => {
        if !$c { return Err(format!($($a)+)); }
    };
}

// ---------------------------------------------------------------------------------

/// Zeroed memory that stays shared with forked processes.
fn shared_words(n: usize) -> *mut AtomicU32 {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            n * 4,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut AtomicU32
}

const SLOT_WORDS: usize = 1024;
/// Shared memory: per worker [busy_since_ms+1, harness index, len, choices...]
pub struct Shared {
    base: *mut AtomicU32,
    pub workers: usize,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    fn new(workers: usize) -> Self {
        Shared {
            base: shared_words((workers + 1) * SLOT_WORDS),
            workers,
        }
    }
    fn at(&self, w: usize, i: usize) -> &AtomicU32 {
        unsafe { &*self.base.add(w * SLOT_WORDS + i) }
    }
    fn begin(&self, w: usize, t0: Instant, h: usize, st: &[Ent]) {
        self.at(w, 1).store(h as u32, Ordering::Relaxed);
        let n = st.len().min(SLOT_WORDS - 3);
        self.at(w, 2).store(n as u32, Ordering::Relaxed);
        for (i, e) in st.iter().take(n).enumerate() {
            self.at(w, 3 + i).store(e.choice, Ordering::Relaxed);
        }
        self.at(w, 0).store(t0.elapsed().as_millis() as u32 + 1, Ordering::Release);
    }
    fn end(&self, w: usize) {
        self.at(w, 0).store(0, Ordering::Release);
    }
    fn read(&self, w: usize) -> Option<(u32, usize, Vec<u32>)> {
        let b = self.at(w, 0).load(Ordering::Acquire);
        if b == 0 {
            return None;
        }
        let h = self.at(w, 1).load(Ordering::Relaxed) as usize;
        let n = self.at(w, 2).load(Ordering::Relaxed) as usize;
        Some((b - 1, h, (0..n).map(|i| self.at(w, 3 + i).load(Ordering::Relaxed)).collect()))
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub harness: usize,
    pub choices: Vec<u32>,
    pub msg: String,
    pub notes: Vec<String>,
}

#[derive(Default)]
struct Stats {
    executions: u64,
    pruned: u64,
    transitions: u64,
    states: IdSet,
    samples: Vec<String>,
    max_depth: usize,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(f) = p.downcast_ref::<EngineFault>() {
        format!("engine: {}", f.0)
    } else {
        "non-string panic".into()
    }
}

enum Outcome {
    Ok,
    Bad(String),
    Fault(String),
}

#[allow(clippy::too_many_arguments)]
fn run_once(
    h: &Harness,
    stack: &mut Vec<Ent>,
    tier: Tier,
    recording: bool,
    states: &mut IdSet,
    seen: &Seen,
) -> (Outcome, Vec<String>, u64, bool) {
    let fresh_from = stack.len();
    let mut ctx = Ctx {
        stack,
        pos: 0,
        fresh_from,
        tier,
        recording,
        notes: vec![],
        transitions: 0,
        states,
        seen,
        pruned: false,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (h.run)(&mut ctx)));
    let out = match r {
        Ok(Ok(())) => {
            if ctx.pos < ctx.stack.len() {
                Outcome::Fault(format!(
                    "replay divergence: execution consumed {} of {} choices",
                    ctx.pos,
                    ctx.stack.len()
                ))
            } else {
                Outcome::Ok
            }
        }
        Ok(Err(m)) => {
            let p = ctx.pos;
            ctx.stack.truncate(p);
            Outcome::Bad(m)
        }
        Err(p) => {
            if let Some(f) = p.downcast_ref::<EngineFault>() {
                Outcome::Fault(f.0.clone())
            } else {
                let q = ctx.pos;
                ctx.stack.truncate(q);
                Outcome::Bad(format!("did not return: {}", last_panic()))
            }
        }
    };
    (out, std::mem::take(&mut ctx.notes), ctx.transitions, ctx.pruned)
}

/// Work sharing between the workers of one exploration: threads of one process, or one
/// process per worker (see `explore_procs`).
trait Pool: Sync {
    /// The next unit of work; None when all is done or the exploration was stopped.
    fn take(&self) -> Option<Vec<Ent>>;
    fn hungry(&self) -> bool;
    /// False if it was not wanted.
    fn give(&self, u: Vec<Ent>) -> bool;
    fn stop(&self);
    fn stopped(&self) -> bool;
    /// Number of this execution.
    fn count(&self) -> u64;
}

struct Queue {
    workers: usize,
    units: Mutex<(Vec<Vec<Ent>>, usize)>, // units, idle workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    count: AtomicU64,
}
impl Pool for Queue {
    fn take(&self) -> Option<Vec<Ent>> {
        let mut g = self.units.lock().unwrap();
        g.1 += 1;
        self.hungry.store(g.1, Ordering::Relaxed);
        loop {
            if self.stopped() {
                self.cv.notify_all();
                return None;
            }
            if let Some(u) = g.0.pop() {
                g.1 -= 1;
                self.hungry.store(g.1, Ordering::Relaxed);
                return Some(u);
            }
            if g.1 == self.workers {
                self.stop();
                self.cv.notify_all();
                return None;
            }
            g = self.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
        }
    }
    fn hungry(&self) -> bool {
        self.hungry.load(Ordering::Relaxed) > 0
    }
    fn give(&self, u: Vec<Ent>) -> bool {
        let mut g = self.units.lock().unwrap();
        if g.0.len() >= self.workers * 2 {
            return false;
        }
        g.0.push(u);
        self.cv.notify_one();
        true
    }
    fn stop(&self) {
        self.stop.store(true, Ordering::Relaxed);
    }
    fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    fn count(&self) -> u64 {
        self.count.fetch_add(1, Ordering::Relaxed)
    }
}

/// The same in memory shared between processes, guarded by a spin lock.
/// Words: 0 lock, 1 units, 2 idle, 3 stop, 4 count, then slots of [len, (choice, end, arity)...].
struct SharedQueue {
    base: *mut AtomicU32,
    workers: usize,
}
unsafe impl Sync for SharedQueue {}
const UNIT_WORDS: usize = 1 + 3 * 804;
impl SharedQueue {
    fn new(workers: usize) -> Self {
        let q = SharedQueue {
            base: shared_words(8 + 2 * workers * UNIT_WORDS),
            workers,
        };
        q.at(1).store(1, Ordering::SeqCst); // one unit, the root: length 0
        q
    }
    fn at(&self, i: usize) -> &AtomicU32 {
        unsafe { &*self.base.add(i) }
    }
    fn locked<T>(&self, f: impl FnOnce() -> T) -> T {
        while self.at(0).compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
            std::thread::yield_now();
        }
        let r = f();
        self.at(0).store(0, Ordering::SeqCst);
        r
    }
}
impl Drop for SharedQueue {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, (8 + 2 * self.workers * UNIT_WORDS) * 4) };
    }
}
impl Pool for SharedQueue {
    fn take(&self) -> Option<Vec<Ent>> {
        self.locked(|| self.at(2).fetch_add(1, Ordering::SeqCst));
        loop {
            if self.stopped() {
                return None;
            }
            let u = self.locked(|| {
                let n = self.at(1).load(Ordering::SeqCst) as usize;
                if n == 0 {
                    if self.at(2).load(Ordering::SeqCst) as usize == self.workers {
                        self.stop();
                    }
                    return None;
                }
                let b = 8 + (n - 1) * UNIT_WORDS;
                let len = self.at(b).load(Ordering::SeqCst) as usize;
                let g = |i: usize| self.at(b + 1 + i).load(Ordering::SeqCst);
                let u = (0..len)
                    .map(|i| Ent { choice: g(3 * i), end: g(3 * i + 1), arity: g(3 * i + 2) })
                    .collect();
                self.at(1).store(n as u32 - 1, Ordering::SeqCst);
                self.at(2).fetch_sub(1, Ordering::SeqCst);
                Some(u)
            });
            if u.is_some() {
                return u;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    fn hungry(&self) -> bool {
        self.at(2).load(Ordering::Relaxed) > 0
    }
    fn give(&self, u: Vec<Ent>) -> bool {
        self.locked(|| {
            let n = self.at(1).load(Ordering::SeqCst) as usize;
            if n >= self.workers * 2 || u.len() > 803 {
                return false;
            }
            let b = 8 + n * UNIT_WORDS;
            self.at(b).store(u.len() as u32, Ordering::SeqCst);
            for (i, e) in u.iter().enumerate() {
                self.at(b + 1 + 3 * i).store(e.choice, Ordering::SeqCst);
                self.at(b + 2 + 3 * i).store(e.end, Ordering::SeqCst);
                self.at(b + 3 + 3 * i).store(e.arity, Ordering::SeqCst);
            }
            self.at(1).store(n as u32 + 1, Ordering::SeqCst);
            true
        })
    }
    fn stop(&self) {
        self.at(3).store(1, Ordering::SeqCst);
    }
    fn stopped(&self) -> bool {
        self.at(3).load(Ordering::SeqCst) != 0
    }
    fn count(&self) -> u64 {
        self.at(4).fetch_add(1, Ordering::SeqCst) as u64
    }
}

struct Explored {
    stats: Stats,
    violation: Option<Violation>,
    known: Vec<String>,
    fault: Option<String>,
    complete: bool,
}

fn backtrack(stack: &mut Vec<Ent>) -> bool {
    while let Some(e) = stack.last_mut() {
        if e.choice + 1 < e.end {
            e.choice += 1;
            return true;
        }
        stack.pop();
    }
    false
}

/// What one worker saw.
#[derive(Default)]
struct Worked {
    stats: Stats,
    violations: Vec<Violation>,
    known: Vec<String>,
    faults: Vec<String>,
    timed_out: bool,
}

struct Job<'a> {
    h: &'a Harness,
    hidx: usize,
    tier: Tier,
    shared: &'a Shared,
    t0: Instant,
    deadline: Instant,
    known: &'a [String],
}

thread_local! {
    static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Number of the exploring worker this is.
pub fn worker() -> usize {
    WORKER.with(|w| w.get())
}

fn work(w: usize, j: &Job, q: &dyn Pool, seen: &Seen) -> Worked {
    WORKER.with(|x| x.set(w));
    let mut o = Worked::default();
    'units: while let Some(mut stack) = q.take() {
        loop {
            if q.stopped() {
                break 'units;
            }
            if o.stats.executions % 64 == 0 && Instant::now() > j.deadline {
                o.timed_out = true;
                q.stop();
                break 'units;
            }
            let n = q.count();
            let rec = n == 0 || n == 1000 || n == 100_000;
            j.shared.begin(w, j.t0, j.hidx, &stack);
            let (out, notes, tr, pruned) = run_once(j.h, &mut stack, j.tier, rec, &mut o.stats.states, seen);
            j.shared.end(w);
            o.stats.executions += 1;
            o.stats.pruned += pruned as u64;
            o.stats.transitions += tr;
            o.stats.max_depth = o.stats.max_depth.max(stack.len());
            if rec {
                o.stats.samples.push(format!("[{}] {}", j.h.name, notes.join(" ; ")));
            }
            match out {
                Outcome::Ok => {}
                Outcome::Fault(f) => {
                    o.faults.push(f);
                    q.stop();
                    break 'units;
                }
                Outcome::Bad(msg) => {
                    if let Some(k) = j.known.iter().find(|k| msg.contains(k.as_str())) {
                        if !o.known.contains(k) {
                            o.known.push(k.clone());
                        }
                    } else {
                        o.violations.push(Violation {
                            harness: j.hidx,
                            choices: stack.iter().map(|e| e.choice).collect(),
                            msg,
                            notes: vec![],
                        });
                        q.stop();
                        break 'units;
                    }
                }
            }
            // Give away the shallowest open branch to idle workers.
            if q.hungry() {
                if let Some(i) = stack.iter().position(|e| e.choice + 1 < e.end) {
                    let mut u: Vec<Ent> = stack[..=i].to_vec();
                    for e in u[..i].iter_mut() {
                        e.end = e.choice + 1;
                    }
                    let rest = stack[i].end - (stack[i].choice + 1);
                    let give = rest.div_ceil(2);
                    u[i].choice = stack[i].end - give;
                    u[i].end = stack[i].end;
                    if q.give(u) {
                        stack[i].end -= give;
                    }
                }
            }
            if !backtrack(&mut stack) {
                break;
            }
        }
    }
    o
}

fn explore(j: &Job, workers: usize, procs: bool) -> Explored {
    let all = if procs && workers > 1 {
        work_procs(j, workers)
    } else {
        let seen = Seen::new();
        let q = Queue {
            workers,
            units: Mutex::new((vec![vec![]], 0)),
            cv: Condvar::new(),
            hungry: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            count: AtomicU64::new(0),
        };
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..workers)
                .map(|w| {
                    let (q, seen) = (&q, &seen);
                    std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn_scoped(s, move || work(w, j, q, seen))
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    let mut stats = Stats::default();
    let (mut f, mut known, mut fault, mut complete) = (vec![], vec![], None, true);
    for o in all {
        let s = o.stats;
        stats.executions += s.executions;
        stats.pruned += s.pruned;
        stats.transitions += s.transitions;
        stats.max_depth = stats.max_depth.max(s.max_depth);
        stats.samples.extend(s.samples);
        if stats.states.is_empty() {
            stats.states = s.states;
        } else {
            stats.states.extend(s.states);
        }
        f.extend(o.violations);
        for k in o.known {
            if !known.contains(&k) {
                known.push(k);
            }
        }
        fault = fault.or(o.faults.into_iter().next());
        complete &= !o.timed_out;
    }
    stats.samples.sort_by_key(|s| s.len());
    f.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    Explored {
        stats,
        violation: f.into_iter().next(),
        known,
        fault,
        complete,
    }
}

/// One process per worker, so that whatever the crate keeps in statics belongs to one worker.
fn work_procs(j: &Job, workers: usize) -> Vec<Worked> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let q = SharedQueue::new(workers);
    let _ = std::io::stdout().flush();
    let mut kids = vec![];
    for w in 0..workers {
        let mut fd = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(fd.as_mut_ptr()) }, 0);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let o = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, || work(w, j, &q, &Seen::new()))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            let mut f = unsafe { std::fs::File::from_raw_fd(fd[1]) };
            let ok = f.write_all(&o.to_bytes()).is_ok();
            drop(f);
            unsafe { libc::_exit(if ok { 0 } else { 3 }) };
        }
        unsafe { libc::close(fd[1]) };
        kids.push((pid, unsafe { std::fs::File::from_raw_fd(fd[0]) }));
    }
    // A worker that died takes everything with it, as a thread would.
    let mut left: Vec<i32> = kids.iter().map(|k| k.0).collect();
    let readers: Vec<_> = kids
        .into_iter()
        .map(|(_, mut f)| {
            std::thread::spawn(move || {
                let mut b = vec![];
                let _ = f.read_to_end(&mut b);
                b
            })
        })
        .collect();
    while !left.is_empty() {
        let mut st = 0;
        let p = unsafe { libc::waitpid(-1, &mut st, 0) };
        left.retain(|x| *x != p);
        if p <= 0 || !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            for x in left {
                unsafe { libc::kill(x, libc::SIGKILL) };
            }
            unsafe {
                if libc::WIFSIGNALED(st) {
                    libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
                    libc::raise(libc::WTERMSIG(st));
                }
                libc::abort()
            }
        }
    }
    readers
        .into_iter()
        .map(|r| Worked::from_bytes(&r.join().unwrap(), j.hidx))
        .collect()
}

impl Worked {
    fn to_bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        let num = |b: &mut Vec<u8>, x: u64| b.extend(x.to_le_bytes());
        let text = |b: &mut Vec<u8>, s: &str| {
            b.extend((s.len() as u64).to_le_bytes());
            b.extend(s.as_bytes());
        };
        for x in [
            self.stats.executions,
            self.stats.pruned,
            self.stats.transitions,
            self.stats.max_depth as u64,
            self.timed_out as u64,
            self.stats.states.len() as u64,
        ] {
            num(&mut b, x);
        }
        for s in &self.stats.states {
            num(&mut b, *s);
        }
        for l in [&self.stats.samples, &self.known, &self.faults] {
            num(&mut b, l.len() as u64);
            for s in l {
                text(&mut b, s);
            }
        }
        num(&mut b, self.violations.len() as u64);
        for v in &self.violations {
            num(&mut b, v.choices.len() as u64);
            for c in &v.choices {
                num(&mut b, *c as u64);
            }
            text(&mut b, &v.msg);
        }
        b
    }
    fn from_bytes(mut b: &[u8], hidx: usize) -> Worked {
        fn num(b: &mut &[u8]) -> u64 {
            let (x, rest) = b.split_at(8);
            *b = rest;
            u64::from_le_bytes(x.try_into().unwrap())
        }
        fn text(b: &mut &[u8]) -> String {
            let n = num(b) as usize;
            let (x, rest) = b.split_at(n);
            *b = rest;
            String::from_utf8_lossy(x).into_owned()
        }
        let b = &mut b;
        let mut o = Worked::default();
        o.stats.executions = num(b);
        o.stats.pruned = num(b);
        o.stats.transitions = num(b);
        o.stats.max_depth = num(b) as usize;
        o.timed_out = num(b) != 0;
        for _ in 0..num(b) {
            o.stats.states.insert(num(b));
        }
        for i in 0..3 {
            for _ in 0..num(b) {
                let s = text(b);
                match i {
                    0 => o.stats.samples.push(s),
                    1 => o.known.push(s),
                    _ => o.faults.push(s),
                }
            }
        }
        for _ in 0..num(b) {
            let choices = (0..num(b)).map(|_| num(b) as u32).collect();
            let msg = text(b);
            o.violations.push(Violation { harness: hidx, choices, msg, notes: vec![] });
        }
        o
    }
}

fn replay_choices(h: &Harness, choices: &[u32], tier: Tier) -> (Option<String>, Vec<String>) {
    // Arity is unknown when replaying: wildcard entries take whatever arity is asked.
    let mut states = IdSet::default();
    let seen = Seen::new();
    let mut prefix: Vec<Ent> = vec![];
    // Learn arities progressively: run with the known prefix, then extend it.
    loop {
        let mut stack = prefix.clone();
        let (out, notes, _, _) = run_once(h, &mut stack, tier, true, &mut states, &seen);
        let i = prefix.len();
        let all_match = choices.iter().zip(stack.iter()).all(|(c, e)| *c == e.choice);
        if i >= choices.len() || (all_match && stack.len() >= choices.len()) || stack.len() <= i {
            return match out {
                Outcome::Ok => (None, notes),
                Outcome::Bad(m) => (Some(m), notes),
                Outcome::Fault(f) => (Some(format!("engine fault: {f}")), notes),
            };
        }
        let mut e = stack[i];
        if choices[i] >= e.arity {
            return (Some(format!("engine fault: replay choice {} of {}", choices[i], e.arity)), notes);
        }
        e.choice = choices[i];
        stack.truncate(i);
        stack.push(e);
        prefix = stack;
    }
}

// ---------------------------------------------------------------------------------

pub struct Config {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub verif: String,
    pub harnesses: Vec<Harness>,
    pub only: Option<String>,
    /// One worker, executions in their natural order in one process: behaviour that depends
    /// on earlier executions (hidden global state) shows up the same way every time.
    pub sequential: bool,
    /// Workers are processes, not threads.
    pub procs: bool,
    /// A failure that depends on the executions before it counts, whatever its history was.
    pub any_history: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn known_for(cfg: &Config) -> Vec<String> {
    // Lines "known: property=Cxx match=<text>"; "fixed:" lines suppress nothing.
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", cfg.verif)) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} match=", cfg.prop)) {
                let m = r.trim();
                if !m.is_empty() {
                    v.push(m.to_string());
                }
            }
        }
    }
    v
}

fn write_replay(cfg: &Config, v: &Violation) -> String {
    let dir = format!("{}/replays", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let h = &cfg.harnesses[v.harness];
    let cs: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
    let name = format!("{}-{}-{:08x}.replay", cfg.prop, h.name, hash_of(&v.choices) as u32);
    let path = format!("{dir}/{name}");
    let body = format!(
        "property {}\nharness {}\ntier {}\nmode {}\nchoices {}\nmessage {}\n# replay: /verif/check {} quick --replay {}\n{}\n",
        cfg.prop,
        h.name,
        tier_name(cfg.tier),
        if cfg.any_history {
            "explore"
        } else if cfg.sequential {
            "sequential"
        } else {
            "single"
        },
        cs.join(","),
        v.msg.replace('\n', " "),
        cfg.prop,
        path,
        v.notes.iter().map(|n| format!("# {}", n.replace('\n', " "))).collect::<Vec<_>>().join("\n")
    );
    let _ = std::fs::write(&path, body);
    path
}

struct Totals {
    rows: Vec<String>,
    executions: u64,
    states: u64,
    transitions: u64,
    samples: Vec<String>,
    complete: bool,
}

fn write_evidence(cfg: &Config, t: &Totals, wall: f64, violations: usize) {
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let samples: Vec<String> = t.samples.iter().take(12).map(|s| esc(&clip(s, 700))).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"harnesses\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [\n  {}\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        esc(&cfg.prop),
        esc(tier_name(cfg.tier)),
        cfg.seed,
        t.states,
        t.transitions,
        t.executions,
        t.complete,
        t.rows.join(",\n   "),
        samples.join(",\n   "),
        [
            "every execution drives the real crate built from /repo; the reference model is compared at every step (no separate model to conform)",
            "bounds and alphabets as given per harness; f32 results compared with an f64 reference inside a rounding band",
            "states = distinct hashes of observed states (64-bit); transitions = calls into the crate; traces = complete executions",
        ]
        .iter()
        .map(|s| esc(s))
        .collect::<Vec<_>>()
        .join(",\n  "),
        wall,
        violations
    );
    let _ = std::fs::write(format!("{dir}/{}.json", cfg.prop), body);
}

fn child_main(cfg: &Config, shared: &Shared, t0: Instant, quiet: bool) -> i32 {
    install_panic_hook();
    let deadline = t0
        + Duration::from_secs(match cfg.tier {
            _ if cfg.sequential => 150,
            _ if cfg.any_history => 100,
            Tier::Quick => 300,
            Tier::Thorough => 600,
        });
    let known = known_for(cfg);
    let mut tot = Totals {
        rows: vec![],
        executions: 0,
        states: 0,
        transitions: 0,
        samples: vec![],
        complete: true,
    };
    let mut violation = None;
    let mut known_hits: Vec<String> = vec![];
    for (i, h) in cfg.harnesses.iter().enumerate() {
        if let Some(o) = &cfg.only {
            if o != h.name {
                continue;
            }
        }
        let hs = Instant::now();
        // An equal part of what is left of the time for each harness still to come.
        let to_come = match cfg.only {
            Some(_) => 1,
            None => cfg.harnesses.len() - i,
        };
        let left = deadline.saturating_duration_since(hs);
        // ... or more, as long as the others are left enough for what they usually take.
        let kept = Duration::from_secs((to_come as u64 - 1) * if cfg.tier == Tier::Quick { 20 } else { 50 });
        let deadline = hs + (left / to_come as u32).max(left.saturating_sub(kept));
        let job = Job {
            h,
            hidx: i,
            tier: cfg.tier,
            shared,
            t0,
            deadline,
            known: &known,
        };
        let e = explore(&job, shared.workers, cfg.procs);
        let n_states = e.stats.states.len() as u64;
        println!(
            "{} {:<28} executions={} states={} transitions={} max_choices={} pruned={} complete={} {:.2}s",
            cfg.prop,
            h.name,
            e.stats.executions,
            n_states,
            e.stats.transitions,
            e.stats.max_depth,
            e.stats.pruned,
            e.complete,
            hs.elapsed().as_secs_f64()
        );
        tot.executions += e.stats.executions;
        tot.states += n_states;
        tot.transitions += e.stats.transitions;
        tot.complete &= e.complete;
        tot.rows.push(format!(
            "{{\"name\": {}, \"bounds\": {}, \"executions\": {}, \"distinct_states\": {}, \"transitions\": {}, \"pruned_revisits\": {}, \"max_choices\": {}, \"complete\": {}}}",
            esc(h.name), esc(h.bounds), e.stats.executions, n_states, e.stats.transitions, e.stats.pruned, e.stats.max_depth, e.complete
        ));
        tot.samples.extend(e.stats.samples.into_iter().take(3));
        for k in e.known {
            if !known_hits.contains(&k) {
                known_hits.push(k);
            }
        }
        if let Some(f) = e.fault {
            println!("ENGINE-ERROR {} {}: {}", cfg.prop, h.name, f);
            return 2;
        }
        if let Some(mut v) = e.violation {
            if cfg.any_history {
                v.notes.push("depends on the executions before it: replayed by exploring the harness again".into());
                violation = Some(v);
                break;
            }
            if cfg.sequential {
                v.notes.push("depends on the executions before it: replayed as the sequence of all executions up to it".into());
                violation = Some(v);
                break;
            }
            let mut repro = 0;
            for _ in 0..10 {
                let (m, notes) = replay_choices(h, &v.choices, cfg.tier);
                if let Some(m) = m {
                    if m.starts_with("engine fault") {
                        println!("ENGINE-ERROR {} {}: {}", cfg.prop, h.name, m);
                        return 2;
                    }
                    repro += 1;
                    v.msg = m;
                    v.notes = notes;
                }
            }
            v.notes.push(format!("replayed 10 times, failed {repro} times"));
            if repro < 10 {
                println!(
                    "NOTE {} {}: failed {repro} of 10 replays on its own (state kept between executions?): {}",
                    cfg.prop, h.name, clip(&v.msg, 400)
                );
                return UNSTABLE + i as i32;
            }
            violation = Some(v);
            break;
        }
        if !e.complete {
            println!("NOTE {} {}: time budget reached, exploration incomplete", cfg.prop, h.name);
        }
    }
    if tot.executions == 0 {
        println!("ENGINE-ERROR {}: nothing explored", cfg.prop);
        return 2;
    }
    write_evidence(cfg, &tot, t0.elapsed().as_secs_f64(), violation.is_some() as usize);
    for k in known_hits {
        println!("KNOWN-FINDING: property={} {}", cfg.prop, k);
    }
    if let Some(v) = violation {
        shared.at(shared.workers, 0).store(hash_of(&v.choices) as u32, Ordering::Release);
        if quiet {
            return 1;
        }
        let p = write_replay(cfg, &v);
        println!("{}", clip(&v.msg, 2000));
        for n in v.notes.iter().rev().take(12).rev() {
            println!("  {}", clip(n, 400));
        }
        println!("VIOLATION property={} replay={}", cfg.prop, p);
        return 1;
    }
    println!(
        "{} held on {} executions, {} states, {} transitions ({:.1}s)",
        cfg.prop,
        tot.executions,
        tot.states,
        tot.transitions,
        t0.elapsed().as_secs_f64()
    );
    0
}

fn limit_memory() {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 20 << 30,
            rlim_max: 20 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn flush_exit(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) }
}

const HANG_MS: u32 = 90_000;
/// Exit code of the exploring process: harness (code - UNSTABLE) failed but not on its own.
const UNSTABLE: i32 = 100;

/// Runs the exploration in a child and turns its death or hanging into a violation.
pub fn supervise(mut cfg: Config) -> i32 {
    let code = supervise_once(&cfg);
    if code < UNSTABLE {
        return code;
    }
    // A failure that did not repeat by itself. Explore its harness sequentially, twice: a
    // failure at the same execution both times is reproducible and a violation.
    cfg.only = Some(cfg.harnesses[(code - UNSTABLE) as usize].name.to_string());
    cfg.sequential = true;
    let mut seen = vec![supervise_run(&cfg, true)];
    if seen[0].0 == 1 {
        seen.push(supervise_run(&cfg, true));
        if seen[0] == seen[1] {
            return supervise_once(&cfg);
        }
    }
    // Or it needs a history that the natural order does not give. It failed in the first
    // exploration; if it fails in two more, it is reproducible too.
    cfg.sequential = false;
    cfg.any_history = true;
    seen.push(supervise_run(&cfg, true));
    if seen.last().unwrap().0 == 1 && supervise_once(&cfg) == 1 {
        return 1;
    }
    println!("ENGINE-ERROR {}: a failure was seen but cannot be reproduced: {seen:?}", cfg.prop);
    2
}
fn supervise_once(cfg: &Config) -> i32 {
    supervise_run(cfg, false).0
}
/// The exit code, and a hash of the violation's choices if there is one.
fn supervise_run(cfg: &Config, quiet: bool) -> (i32, u32) {
    let workers = if cfg.sequential {
        1
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
    };
    let shared = Shared::new(workers);
    let t0 = Instant::now();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        limit_memory();
        let c = child_main(cfg, &shared, t0, quiet);
        flush_exit(c);
    }
    if pid < 0 {
        println!("ENGINE-ERROR fork failed");
        return (2, 0);
    }
    let mut status = 0;
    let mut hung: Option<usize> = None;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u32;
        for w in 0..workers {
            if let Some((since, _, _)) = shared.read(w) {
                if now.saturating_sub(since) > HANG_MS {
                    hung = Some(w);
                }
            }
        }
        if hung.is_some() {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
            }
            break;
        }
    }
    if hung.is_none() && libc::WIFEXITED(status) {
        return (libc::WEXITSTATUS(status), shared.at(workers, 0).load(Ordering::Acquire));
    }
    let sig = libc::WTERMSIG(status);
    if hung.is_none() && sig == libc::SIGKILL {
        println!("ENGINE-ERROR {}: the exploring process was killed", cfg.prop);
        return (2, 0);
    }
    // Which execution did it? Re-run every busy one alone.
    let order: Vec<usize> = match hung {
        Some(w) => vec![w],
        None => (0..workers).collect(),
    };
    for w in order {
        let Some((_, hidx, choices)) = shared.read(w) else { continue };
        let p = unsafe { libc::fork() };
        if p == 0 {
            limit_memory();
            install_panic_hook();
            let _ = replay_choices(&cfg.harnesses[hidx], &choices, cfg.tier);
            flush_exit(0);
        }
        let mut st = 0;
        let begin = Instant::now();
        let mut dead = false;
        while begin.elapsed().as_millis() < HANG_MS as u128 {
            if unsafe { libc::waitpid(p, &mut st, libc::WNOHANG) } == p {
                dead = true;
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        let what = if !dead {
            unsafe {
                libc::kill(p, libc::SIGKILL);
                libc::waitpid(p, &mut st, 0);
            }
            Some(format!("did not terminate within {} s", HANG_MS / 1000))
        } else if libc::WIFSIGNALED(st) {
            Some(format!("process died with signal {} (abort, stack overflow or memory exhaustion)", libc::WTERMSIG(st)))
        } else {
            None
        };
        if let Some(msg) = what {
            let v = Violation {
                harness: hidx,
                choices,
                msg: msg.clone(),
                notes: vec!["replay stops the process; see the choices".into()],
            };
            let path = write_replay(cfg, &v);
            let tot = Totals {
                rows: vec![],
                executions: 1,
                states: 1,
                transitions: 1,
                samples: vec![format!("[{}] {}", cfg.harnesses[hidx].name, msg)],
                complete: false,
            };
            write_evidence(cfg, &tot, t0.elapsed().as_secs_f64(), 1);
            println!("{}: {}", cfg.harnesses[hidx].name, msg);
            println!("VIOLATION property={} replay={}", cfg.prop, path);
            return (1, 0);
        }
    }
    println!("ENGINE-ERROR {}: the exploring process died (signal {sig}) and no execution reproduces it", cfg.prop);
    (2, 0)
}

pub fn replay_file(mut cfg: Config, path: &str) -> i32 {
    install_panic_hook();
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot read {path}: {e}");
            return 2;
        }
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let tier = if get("tier ") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let hn = get("harness ");
    let mode = get("mode ");
    if mode == "sequential" || mode == "explore" {
        cfg.sequential = mode == "sequential";
        cfg.any_history = mode == "explore";
        cfg.only = Some(hn);
        cfg.tier = tier;
        return supervise_once(&cfg);
    }
    let Some(h) = cfg.harnesses.iter().find(|h| h.name == hn) else {
        println!("no harness {hn}");
        return 2;
    };
    let choices: Vec<u32> = get("choices ").split(',').filter_map(|c| c.parse().ok()).collect();
    let (m, notes) = replay_choices(h, &choices, tier);
    for n in notes {
        println!("  {n}");
    }
    match m {
        Some(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", cfg.prop, path);
            1
        }
        None => {
            println!("replay: no violation");
            0
        }
    }
}

/// The command line of a checker.
pub fn cli(a: &[String], all: Vec<Harness>, procs: bool) -> i32 {
    if a.len() < 3 {
        eprintln!("usage: mc VERIF_DIR PROPERTY [quick|thorough] [--replay FILE] [--only HARNESS] | mc VERIF_DIR --list");
        return 2;
    }
    if a[2] == "--list" {
        for h in all {
            println!("{} {} -- {}", h.prop, h.name, h.bounds);
        }
        return 0;
    }
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut replay = None;
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--replay" => {
                i += 1;
                replay = Some(a[i].clone());
            }
            "--only" => {
                i += 1;
                only = Some(a[i].clone());
            }
            x => {
                eprintln!("unknown argument {x}");
                return 2;
            }
        }
        i += 1;
    }
    let cfg = Config {
        prop: a[2].clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        verif: a[1].clone(),
        harnesses: all.into_iter().filter(|h| h.prop == a[2]).collect(),
        only,
        sequential: false,
        procs,
        any_history: false,
    };
    if cfg.harnesses.is_empty() {
        println!("ENGINE-ERROR no harness for {}", a[2]);
        return 2;
    }
    match replay {
        Some(f) => replay_file(cfg, &f),
        None => supervise(cfg),
    }
}
