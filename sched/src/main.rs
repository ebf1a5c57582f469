//! C24: the real locking code of the crate under every schedule of small thread programs.
//! The crate is compiled against `std-facade`, whose locks are scheduling points.
#[macro_use]
#[path = "../../mc/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../mc/src/common.rs"]
#[allow(dead_code)]
mod common;

use common::*;
use engine::*;
use facade::ctl;
use facade::sync::Mutex as CMutex;
use rand::RngCore;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C24",
            name: "two_threads_switches",
            bounds: "the programs of two_threads, schedules of up to 2 preemptions: all of them first, should the crate have too many scheduling points for the rest of the time",
            run: two_threads_switches,
        },
        Harness {
            prop: "C24",
            name: "two_threads",
            bounds: "all programs of 2 threads with 1-2 operations out of {sample_token, sample, read token, prepend} on one shared sampler (10 kinds: counting probes, greedy, random, mirostat 1 and 2, top-k, a shared chain, boxed), every schedule (locks, unlocks, resource accesses are scheduling points; no preemption bound): linearizable, final state included",
            run: two_threads,
        },
        Harness {
            prop: "C24",
            name: "three_threads",
            bounds: "all programs of 3 threads with one operation each (quick: sample_token or sample; thorough: 4 operations; 10 kinds, no preemption bound), and 2+1+1 sample_token calls (2 preemptions quick, unbounded thorough): linearizable",
            run: three_threads,
        },
        Harness {
            prop: "C24",
            name: "panicking_caller",
            bounds: "2-3 threads, one of whose calls panics while holding the lock (6 sampler kinds, every position), schedules of up to 3 preemptions (quick), all / 5 preemptions for three threads (thorough): no hang, calls before it linearizable, calls after it fail, reading gives none",
            run: panicking,
        },
        Harness {
            prop: "C24",
            name: "private",
            bounds: "2-3 threads, each with a sampler of its own (16 parameter sets; 2 threads: all pairs, made separately or clones of one; 3 threads: the same kind), 1-2 calls each on collections with the same ids but other logits and histories, every schedule (three threads: up to 3 preemptions quick): every caller gets what it gets when running alone",
            run: private,
        },
        Harness {
            prop: "C24",
            name: "chains",
            bounds: "2 threads (thorough: 3) each running its own chain around the shared sampler (7 kinds; first, middle, last, twice, last in a nested chain) 1-2 times, schedules of up to 5 (quick) / 6 (thorough) preemptions (3 for three threads): each collection, token and history as in some serial order, no deadlock, no lost update",
            run: chains,
        },
        Harness {
            prop: "C24",
            name: "opposite_orders",
            bounds: "2-3 threads, two shared samplers used in opposite orders in their chains, nested shared chains, schedules of up to 3 / 6 (two threads), 1 / 2 (three threads) preemptions: no deadlock, every call counted, collections as when run alone",
            run: opposite,
        },
        Harness {
            prop: "C24",
            name: "shared_inside_shared",
            bounds: "2-3 threads; a shared chain that holds two shared samplers, or a shared sampler inside a shared one; each thread uses the outer or the inner one, by sample_token or sample, after prepending or reading or at once; schedules of up to 4 / 7 (two threads), 1 / 2 (three threads) preemptions: no deadlock, every call counted, collections as when run alone",
            run: nested,
        },
    ]
}

// ------------------------------------------------------------------ samplers and resources

/// Resources whose accesses are scheduling points and may panic.
#[derive(Debug)]
struct PRes {
    inner: Res,
    boom: bool,
}
impl PRes {
    fn hit(&self, what: &'static str) {
        ctl::point(what);
        if self.boom {
            panic!("scripted panic in a resource");
        }
    }
}
impl HasSamplerResources for PRes {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        self.hit("rng");
        self.inner.with_rng_mut(fun)
    }
    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<u32>)) -> Result<(), SamplerError> {
        self.hit("tokens");
        self.inner.with_last_tokens(fun)
    }
    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<u32>)) -> Result<(), SamplerError> {
        self.hit("tokens_mut");
        self.inner.with_last_tokens_mut(fun)
    }
}

/// Counts its calls; what it does to a collection depends on the count.
#[derive(Debug, Default)]
struct Counter {
    calls: u32,
    tok: Option<u32>,
    own_sample_token: bool,
}
impl Counter {
    fn work(&mut self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<(), SamplerError> {
        let c = self.calls;
        self.tok = None;
        res.with_last_tokens_mut(&mut |t| t.push(100 + c))?;
        self.calls = c + 1;
        for x in l.iter_mut() {
            x.logit += (c + 1) as f32;
        }
        l.set_softmax(false);
        if !l.is_empty() {
            self.tok = Some(l[c as usize % l.len()].token_id);
        }
        Ok(())
    }
}
impl Sampler for Counter {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        let c = self.calls;
        let _ = res.with_last_tokens_mut(&mut |t| t.push(500 + c));
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.work(res, l)?;
        Ok(l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.tok
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
        if self.own_sample_token {
            self.work(res, l)?;
            // Not what a later read would say.
            return Ok(self.tok.map(|t| t + 1_000_000));
        }
        let _ = self.sample(res, l)?;
        Ok(self.sampled_token_id())
    }
}

const KINDS: usize = 10;
fn bare(k: usize) -> Box<dyn Sampler> {
    match k {
        0 => Box::new(Counter::default()),
        1 => Box::new(SampleGreedy::new()),
        2 => Box::new(SampleMirostat2::new(2.0, 0.7).mu(1.5)),
        3 => Box::new(SampleRandDistrib::new()),
        4 => Box::new(Counter { own_sample_token: true, ..Default::default() }),
        5 => Box::new(SampleMirostat1::new(9, 2.0, 0.7).mu(1.25)),
        6 => {
            let mut c = SamplerChain::new();
            c += Counter::default();
            c += SampleGreedy::new();
            Box::new(c)
        }
        7 => Box::new(Box::new(SampleMirostat2::new(1.0, 0.4).mu(2.5)) as Box<dyn Sampler>),
        8 => Box::new(SampleTopK::new(2, 1)),
        _ => {
            let mut c = SamplerChain::new();
            c += SampleTemperature::new(0.7);
            c += SampleMirostat2::new(2.0, 0.7).mu(1.5);
            Box::new(c)
        }
    }
}
type Shared = Arc<CMutex<dyn Sampler>>;
fn shared(k: usize) -> Shared {
    match k {
        0 => Arc::new(CMutex::new(Counter::default())),
        1 => Arc::new(CMutex::new(SampleGreedy::new())),
        2 => Arc::new(CMutex::new(SampleMirostat2::new(2.0, 0.7).mu(1.5))),
        _ => Arc::new(CMutex::new(bare(k))),
    }
}
fn coll(t: usize, j: usize) -> Logits {
    let v: &[f32] = match (t + 2 * j) % 5 {
        0 => &[0.5, 3.0, 1.0, -1.0],
        1 => &[2.0, 0.0, 2.5],
        2 => &[1.0, 1.5, 0.75, 0.5, 0.25],
        3 => &[-1.0, -0.5],
        _ => &[4.0, 3.5, 3.0],
    };
    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
    for x in l.iter_mut() {
        x.token_id += 10 * (1 + t as u32) + 100 * j as u32;
    }
    l
}
fn res(t: usize, j: usize, boom: bool) -> PRes {
    let words = [0x2000_0000u32, 0xb000_0000, 0x6000_0000, 0xf800_0000];
    PRes { inner: Res::new(&[words[(t + j) % 4], words[(t + 3 * j + 1) % 4]], &[t as u32]), boom }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Tok,
    Sample,
    Read,
    Prepend,
}
/// What a caller saw of one operation.
#[derive(Clone, Debug)]
enum Out {
    Done { r: Result<Option<u32>, String>, snap: Snap, tokens: Option<Vec<u32>>, drawn: usize },
    Panicked,
}
impl Out {
    fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Panicked, Out::Panicked) => true,
            (Out::Done { r, snap, tokens, drawn }, Out::Done { r: r2, snap: s2, tokens: t2, drawn: d2 }) => {
                r == r2 && snap.same(s2) && tokens == t2 && drawn == d2
            }
            _ => false,
        }
    }
    fn text(&self) -> String {
        match self {
            Out::Panicked => "panicked".into(),
            Out::Done { r, snap, tokens, .. } => format!("{r:?} {} history {tokens:?}", short(&snap.e)),
        }
    }
}
/// Makes a borrowed sampler one of a sized type.
#[derive(Debug)]
struct Via<'a>(&'a mut dyn Sampler);
impl Sampler for Via<'_> {
    fn sample_prepend(&self, r: &mut dyn HasSamplerResources) {
        self.0.sample_prepend(r)
    }
    fn sample<'a>(&mut self, r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.0.sample(r, l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.0.sampled_token_id()
    }
    fn sample_token(&mut self, r: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
        self.0.sample_token(r, l)
    }
}
fn perform(s: &mut dyn Sampler, op: Op, t: usize, j: usize, boom: bool) -> Out {
    let mut l = coll(t, j);
    let mut r = res(t, j, boom);
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
        // Every other call goes through the collection's own methods.
        Op::Tok if (t + j) % 2 == 1 => l.sample_token(&mut r, &mut Via(s)).map_err(|e| err_str(&e)),
        Op::Sample if (t + j) % 2 == 1 => l.sample(&mut r, &mut Via(s)).map(|_| None).map_err(|e| err_str(&e)),
        Op::Tok => s.sample_token(&mut r, &mut l).map_err(|e| err_str(&e)),
        Op::Sample => s.sample(&mut r, &mut l).map(|_| None).map_err(|e| err_str(&e)),
        Op::Read => Ok(s.sampled_token_id()),
        Op::Prepend => {
            s.sample_prepend(&mut r);
            Ok(None)
        }
    }));
    match x {
        Ok(r2) => Out::Done { r: r2, snap: snap(&l), tokens: r.inner.tokens.clone(), drawn: r.inner.rng.as_ref().map_or(0, |r| r.drawn) },
        Err(p) => {
            if p.downcast_ref::<&str>().is_none() && p.downcast_ref::<String>().is_none() {
                // The scheduler gave the execution up.
                std::panic::resume_unwind(p);
            }
            Out::Panicked
        }
    }
}

// ------------------------------------------------------------------ running and judging

type Prog = Vec<Vec<Op>>;
/// The operation (thread, index) whose resources panic.
type Boom = Option<(usize, usize)>;

struct Serial {
    /// The order of the operations.
    order: Vec<(usize, usize)>,
    outs: Vec<Vec<Out>>,
    fin: Out,
}
/// All serial executions on the bare sampler.
fn serials(k: usize, p: &Prog, boom: Boom) -> Vec<Serial> {
    fn orders(p: &Prog, pos: &mut Vec<usize>, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        let mut any = false;
        for t in 0..p.len() {
            if pos[t] < p[t].len() {
                any = true;
                cur.push((t, pos[t]));
                pos[t] += 1;
                orders(p, pos, cur, out);
                pos[t] -= 1;
                cur.pop();
            }
        }
        if !any {
            out.push(cur.clone());
        }
    }
    let mut all = vec![];
    orders(p, &mut vec![0; p.len()], &mut vec![], &mut all);
    all.into_iter()
        .map(|order| {
            let mut s = bare(k);
            let mut outs: Vec<Vec<Out>> = p.iter().map(|_| vec![]).collect();
            let mut dead = false;
            for &(t, j) in &order {
                let o = if dead {
                    poisoned_out(p[t][j], t, j)
                } else {
                    perform(&mut *s, p[t][j], t, j, boom == Some((t, j)))
                };
                dead |= matches!(o, Out::Panicked);
                outs[t].push(o);
            }
            let fin = if dead { poisoned_out(Op::Tok, 7, 7) } else { perform(&mut *s, Op::Tok, 7, 7, false) };
            Serial { order, outs, fin }
        })
        .collect()
}
const POISON: &str = "(fails: the lock is poisoned)";
fn poisoned_out(op: Op, t: usize, j: usize) -> Out {
    let r = match op {
        Op::Tok | Op::Sample => Err(POISON.to_string()),
        _ => Ok(None),
    };
    Out::Done { r, snap: snap(&coll(t, j)), tokens: Some(vec![t as u32]), drawn: 0 }
}
/// Does the observation agree with the expectation?
fn agrees(want: &Out, got: &Out) -> bool {
    if let Out::Done { r: Err(e), snap, tokens, drawn } = want {
        if e == POISON {
            return match got {
                Out::Done { r: Err(_), snap: s2, tokens: t2, drawn: d2 } => snap.same(s2) && tokens == t2 && drawn == d2,
                _ => false,
            };
        }
    }
    want.same(got)
}

type Key = (usize, Prog, Boom);
thread_local! {
    static CACHE: RefCell<Option<(Key, Rc<Vec<Serial>>)>> = const { RefCell::new(None) };
}
fn serials_cached(k: usize, p: &Prog, boom: Boom) -> Rc<Vec<Serial>> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        let key = (k, p.clone(), boom);
        if let Some((k2, s)) = &*c {
            if *k2 == key {
                return s.clone();
            }
        }
        let s = Rc::new(serials(k, p, boom));
        *c = Some((key, s.clone()));
        s
    })
}

/// What one thread saw: (outcome, begin, end) per operation.
type Seen1 = Vec<(Out, usize, usize)>;

/// Keeps an exploring worker and its threads on one processor: only one of them runs at a
/// time, and handing control over is cheaper there.
fn pin() {
    thread_local! {
        static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    if DONE.with(|d| d.replace(true)) {
        return;
    }
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[worker() % cpus.len()];
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut one);
        let _ = libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
fn schedule<T: Send>(ctx: &mut Ctx, threads: Vec<Box<dyn FnOnce() -> T + Send + '_>>, bound: usize) -> Result<(Vec<T>, String), String> {
    pin();
    let mut picks = vec![];
    let rep = {
        let mut choose = |c: &[usize]| {
            let i = ctx.choose(c.len());
            picks.push(c[i]);
            i
        };
        ctl::run(threads, bound, &mut choose)
    };
    ctx.steps(rep.steps as u64);
    let trace = format!("schedule {:?}", rep.trace);
    ctx.note(|| trace.clone());
    if let Some(s) = rep.stuck {
        return Err(s);
    }
    let mut out = vec![];
    for r in rep.results {
        match r {
            Ok(x) => out.push(x),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                return Err(format!("a thread panicked: {m:?}"));
            }
        }
    }
    Ok((out, trace))
}

fn judge(ctx: &mut Ctx, k: usize, p: &Prog, boom: Boom, bound: usize) -> R {
    let want = serials_cached(k, p, boom);
    let s = shared(k);
    let clock = AtomicUsize::new(0);
    let threads: Vec<Box<dyn FnOnce() -> Seen1 + Send + '_>> = p
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let mut s = s.clone();
            let clock = &clock;
            let ops = ops.clone();
            Box::new(move || {
                ops.iter()
                    .enumerate()
                    .map(|(j, op)| {
                        let a = clock.fetch_add(1, Ordering::SeqCst);
                        let o = perform(&mut s, *op, t, j, boom == Some((t, j)));
                        (o, a, clock.fetch_add(1, Ordering::SeqCst))
                    })
                    .collect()
            }) as Box<dyn FnOnce() -> Seen1 + Send + '_>
        })
        .collect();
    let (got, _) = schedule(ctx, threads, bound).map_err(|m| format!("program {p:?} on sampler {k}: {m}"))?;
    let mut s2: Shared = s.clone();
    let fin = perform(&mut s2, Op::Tok, 7, 7, false);
    ctx.state(&(k, format!("{:?}", got.iter().map(|v| v.iter().map(|o| o.0.text()).collect::<Vec<_>>()).collect::<Vec<_>>()), fin.text()));
    ctx.note(|| format!("sampler {k}, program {p:?}, saw {:?}, afterwards {}", got.iter().map(|v| v.iter().map(|o| o.0.text()).collect::<Vec<_>>()).collect::<Vec<_>>(), fin.text()));
    let fits = |w: &Serial| {
        w.outs.iter().zip(&got).all(|(a, b)| a.iter().zip(b).all(|(x, y)| agrees(x, &y.0)))
            && agrees(&w.fin, &fin)
            && (0..w.order.len()).all(|i| {
                (i + 1..w.order.len()).all(|j| {
                    // The later one in the order must not have ended before the earlier began.
                    let (a, b) = (w.order[i], w.order[j]);
                    got[b.0][b.1].2 > got[a.0][a.1].1
                })
            })
    };
    ensure!(
        want.iter().any(fits),
        "program {p:?} on sampler kind {k}{}: the callers saw {:?}, afterwards {}; no serial order of the calls gives that",
        match boom {
            Some(b) => format!(" with call {b:?} panicking"),
            None => String::new(),
        },
        got.iter().map(|v| v.iter().map(|o| o.0.text()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        fin.text()
    );
    Ok(())
}

const OPS: [Op; 4] = [Op::Tok, Op::Sample, Op::Read, Op::Prepend];

fn two_threads(ctx: &mut Ctx) -> R {
    two(ctx, usize::MAX)
}
fn two_threads_switches(ctx: &mut Ctx) -> R {
    two(ctx, 2)
}
fn two(ctx: &mut Ctx, bound: usize) -> R {
    let k = ctx.choose(KINDS);
    let p: Prog = (0..2)
        .map(|_| {
            let n = ctx.range(1, 2);
            (0..n).map(|_| *ctx.pick(&OPS)).collect()
        })
        .collect();
    judge(ctx, k, &p, None, bound)
}
fn three_threads(ctx: &mut Ctx) -> R {
    let wide = ctx.thorough();
    let k = ctx.choose(KINDS);
    let long = ctx.flag();
    let p: Prog = if long {
        vec![vec![Op::Tok, Op::Tok], vec![Op::Tok], vec![Op::Tok]]
    } else {
        (0..3).map(|_| vec![OPS[ctx.choose(if wide { 4 } else { 2 })]]).collect()
    };
    let bound = match (long, wide) {
        (true, true) => usize::MAX,
        (true, false) => 2,
        (false, true) => usize::MAX,
        (false, false) => usize::MAX,
    };
    judge(ctx, k, &p, None, bound)
}
fn panicking(ctx: &mut Ctx) -> R {
    // Samplers that use a resource while holding the lock.
    let k = *ctx.pick(&[0usize, 2, 3, 4, 5, 6]);
    let three = ctx.flag();
    let ops = [Op::Tok, Op::Sample, Op::Read];
    let p: Prog = if three {
        (0..3).map(|t| vec![if t == 0 { Op::Tok } else { *ctx.pick(&ops) }]).collect()
    } else {
        (0..2).map(|_| (0..2).map(|_| *ctx.pick(&ops)).collect()).collect()
    };
    let cand: Vec<(usize, usize)> = p
        .iter()
        .enumerate()
        .flat_map(|(t, v)| v.iter().enumerate().filter(|o| *o.1 != Op::Read).map(move |(j, _)| (t, j)))
        .collect();
    if cand.is_empty() {
        return Ok(());
    }
    let boom = *ctx.pick(&cand);
    let bound = ctx.qt(3, if three { 5 } else { usize::MAX });
    judge(ctx, k, &p, Some(boom), bound)
}

// ------------------------------------------------------------------ chains

/// The part of a chain around the shared sampler.
fn chain_with(shape: usize, s: Box<dyn Fn() -> Box<dyn Sampler>>) -> SamplerChain {
    let mut c = SamplerChain::new();
    match shape {
        0 => {
            c += SampleTemperature::new(0.5);
            c += s();
            c += SampleGreedy::new();
        }
        1 => {
            c += s();
            c += SampleFlatBias::new([(11, 1.0), (21, 2.0)]);
            c += SampleGreedy::new();
        }
        2 => {
            c += SampleFlatBias::new([(10, 1.0)]);
            c += s();
        }
        4 => {
            let mut d = SamplerChain::new();
            d += SampleTemperature::new(2.0);
            d += s();
            c += SampleFlatBias::new([(20, 1.0)]);
            c += d;
        }
        _ => {
            c += s();
            c += SampleTemperature::new(2.0);
            c += s();
            c += SampleGreedy::new();
        }
    }
    c
}
fn chains(ctx: &mut Ctx) -> R {
    let k = *ctx.pick(&[0usize, 2, 5, 3, 8, 1, 9]);
    let shape = ctx.choose(5);
    let calls: Vec<usize> = if ctx.thorough() && ctx.flag() { vec![1, 1, 1] } else { vec![ctx.range(1, 2), 1] };
    // With the shared sampler used twice, whole chain calls are not atomic: only samplers
    // without state are compared then.
    let stateless = matches!(k, 1 | 3 | 8);
    if shape == 3 && !stateless {
        return Ok(());
    }
    let s = shared(k);
    let threads: Vec<Box<dyn FnOnce() -> Vec<Out> + Send + '_>> = calls
        .iter()
        .enumerate()
        .map(|(t, n)| {
            let s = s.clone();
            let n = *n;
            Box::new(move || {
                let mut c = chain_with(shape, Box::new(move || Box::new(s.clone()) as Box<dyn Sampler>));
                (0..n).map(|j| perform(&mut c, Op::Tok, t, j, false)).collect()
            }) as Box<dyn FnOnce() -> Vec<Out> + Send + '_>
        })
        .collect();
    let bound = match (calls.len(), ctx.thorough()) {
        (3, _) => 3,
        (_, true) => 6,
        _ => 5,
    };
    let (got, _) = schedule(ctx, threads, bound).map_err(|m| format!("chains of shape {shape} around sampler {k}, {calls:?} calls: {m}"))?;
    let mut s2: Shared = s.clone();
    let fin = perform(&mut s2, Op::Tok, 7, 7, false);
    ctx.state(&(k, shape, format!("{:?}", got.iter().map(|v| v.iter().map(|o| o.text()).collect::<Vec<_>>()).collect::<Vec<_>>())));
    // Serial orders of the chain calls.
    let p: Prog = calls.iter().map(|n| vec![Op::Tok; *n]).collect();
    let mut orders = vec![];
    for_orders(&p, &mut |o| orders.push(o.to_vec()));
    let mut tried = vec![];
    for o in orders {
        // A bare sampler shared by all chains, one call after the other.
        let b: Rc<RefCell<Box<dyn Sampler>>> = Rc::new(RefCell::new(bare(k)));
        let mut outs: Vec<Vec<Out>> = calls.iter().map(|_| vec![]).collect();
        for (t, j) in o {
            let out = serial_chain(shape, &b, t, j);
            outs[t].push(out);
        }
        let f = perform(&mut **b.borrow_mut(), Op::Tok, 7, 7, false);
        let same = |a: &Out, b: &Out| match (a, b) {
            (Out::Done { r, snap, tokens, drawn }, Out::Done { r: r2, snap: s2, tokens: t2, drawn: d2 }) => {
                r == r2 && snap.same(s2) && tokens == t2 && drawn == d2
            }
            _ => false,
        };
        if f.same(&fin) && outs.iter().zip(&got).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))) {
            return Ok(());
        }
        tried.push(outs.iter().map(|v| v.iter().map(|o| o.text()).collect::<Vec<_>>()).collect::<Vec<_>>());
    }
    Err(format!(
        "chains of shape {shape} around sampler {k}: the callers saw {:?}, afterwards {}; the serial orders give {tried:?}",
        got.iter().map(|v| v.iter().map(|o| o.text()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        fin.text()
    ))
}
fn for_orders(p: &Prog, f: &mut dyn FnMut(&[(usize, usize)])) {
    fn go(p: &Prog, pos: &mut Vec<usize>, cur: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&[(usize, usize)])) {
        let mut any = false;
        for t in 0..p.len() {
            if pos[t] < p[t].len() {
                any = true;
                cur.push((t, pos[t]));
                pos[t] += 1;
                go(p, pos, cur, f);
                pos[t] -= 1;
                cur.pop();
            }
        }
        if !any {
            f(cur);
        }
    }
    go(p, &mut vec![0; p.len()], &mut vec![], f)
}
/// One chain call with the bare sampler, stage by stage.
fn serial_chain(shape: usize, b: &Rc<RefCell<Box<dyn Sampler>>>, t: usize, j: usize) -> Out {
    let mut l = coll(t, j);
    let mut r = res(t, j, false);
    let go = |s: &mut dyn Sampler, r: &mut PRes, l: &mut Logits| -> Result<Option<u32>, String> {
        s.sample(r, l).map_err(|e| err_str(&e))?;
        Ok(s.sampled_token_id())
    };
    let mut run = || -> Result<Option<u32>, String> {
        match shape {
            0 => {
                go(&mut SampleTemperature::new(0.5), &mut r, &mut l)?;
                go(&mut **b.borrow_mut(), &mut r, &mut l)?;
                go(&mut SampleGreedy::new(), &mut r, &mut l)
            }
            1 => {
                go(&mut **b.borrow_mut(), &mut r, &mut l)?;
                go(&mut SampleFlatBias::new([(11, 1.0), (21, 2.0)]), &mut r, &mut l)?;
                go(&mut SampleGreedy::new(), &mut r, &mut l)
            }
            2 => {
                go(&mut SampleFlatBias::new([(10, 1.0)]), &mut r, &mut l)?;
                go(&mut **b.borrow_mut(), &mut r, &mut l)
            }
            4 => {
                go(&mut SampleFlatBias::new([(20, 1.0)]), &mut r, &mut l)?;
                go(&mut SampleTemperature::new(2.0), &mut r, &mut l)?;
                go(&mut **b.borrow_mut(), &mut r, &mut l)
            }
            _ => {
                go(&mut **b.borrow_mut(), &mut r, &mut l)?;
                go(&mut SampleTemperature::new(2.0), &mut r, &mut l)?;
                go(&mut **b.borrow_mut(), &mut r, &mut l)?;
                go(&mut SampleGreedy::new(), &mut r, &mut l)
            }
        }
    };
    let x = run();
    Out::Done { r: x, snap: snap(&l), tokens: r.inner.tokens.clone(), drawn: r.inner.rng.as_ref().map_or(0, |r| r.drawn) }
}

// ------------------------------------------------------------------ samplers of their own

const OWN: usize = 16;
/// `n` samplers of one kind: clones of one, or made one by one.
fn own(k: usize, n: usize, clones: bool) -> Vec<Box<dyn Sampler>> {
    fn some<S: Sampler + Clone + 'static>(n: usize, clones: bool, f: impl Fn() -> S) -> Vec<Box<dyn Sampler>> {
        let proto = f();
        (0..n).map(|_| Box::new(if clones { proto.clone() } else { f() }) as Box<dyn Sampler>).collect()
    }
    match k {
        0 => some(n, clones, || SampleFreqPresence::new(0.5, 0.75, 64)),
        1 => some(n, clones, || SampleRepetition::new(1.5, 64)),
        2 => some(n, clones, || SampleSeqRepetition::new(1.0, 0.5, 2, 0, 1, 64)),
        3 => some(n, clones, SampleGreedy::new),
        4 => some(n, clones, SampleRandDistrib::new),
        5 => some(n, clones, || SampleMirostat1::new(9, 2.0, 0.7).mu(1.25)),
        6 => some(n, clones, || SampleMirostat2::new(2.0, 0.7).mu(1.5)),
        7 => some(n, clones, || SampleTopK::new(2, 1)),
        8 => some(n, clones, || SampleTopP::new(0.7, 1)),
        9 => some(n, clones, || SampleMinP::new(0.3, 1)),
        10 => some(n, clones, || SampleTopA::new(0.5, 2.0, 1)),
        11 => some(n, clones, || SampleTailFree::new(0.6, 1)),
        12 => some(n, clones, || SampleLocallyTypical::new(0.6, 1)),
        13 => some(n, clones, || SampleTemperature::new(0.5)),
        14 => some(n, clones, || SampleFlatBias::new([(1, 2.5), (2, -1.0)])),
        _ => (0..n)
            .map(|_| {
                let mut c = SamplerChain::new();
                c += SampleFreqPresence::new(0.5, 0.75, 64);
                c += SampleRepetition::new(1.5, 64);
                c += SampleTopK::new(3, 1);
                c += SampleRandDistrib::new();
                Box::new(c) as Box<dyn Sampler>
            })
            .collect(),
    }
}
/// One call with the caller's own collection and history; the ids are the same for all callers.
fn own_call(s: &mut dyn Sampler, t: usize, j: usize) -> Out {
    let mut l = coll(t, j);
    for (i, x) in l.iter_mut().enumerate() {
        x.token_id = i as u32;
    }
    let hist: &[u32] = match (t + j) % 3 {
        0 => &[0, 0, 1, 5, 0, 1],
        1 => &[1, 2, 2, 2, 0, 1, 2, 2],
        _ => &[3],
    };
    let mut r = res(t, j, false);
    r.inner.tokens = Some(hist.to_vec());
    let x = s.sample_token(&mut r, &mut l).map_err(|e| err_str(&e));
    Out::Done { r: x, snap: snap(&l), tokens: r.inner.tokens.clone(), drawn: r.inner.rng.as_ref().map_or(0, |r| r.drawn) }
}
fn private(ctx: &mut Ctx) -> R {
    let n = ctx.range(2, 3);
    let k = ctx.choose(OWN);
    let kinds: Vec<usize> = if n == 2 { vec![k, ctx.range(k, OWN - 1)] } else { vec![k; 3] };
    let calls = if n == 2 { vec![ctx.range(1, 2), ctx.range(1, 2)] } else { vec![1; 3] };
    let same = kinds.iter().all(|x| *x == k);
    let clones = same && k < OWN - 1 && ctx.flag();
    let bound = if n == 2 { usize::MAX } else { ctx.qt(3, usize::MAX) };
    let mut samplers: Vec<Box<dyn Sampler>> =
        if same { own(k, n, clones) } else { kinds.iter().flat_map(|k| own(*k, 1, false)).collect() };
    // Alone, on a thread of its own.
    let want: Vec<Vec<Out>> = (0..n)
        .map(|t| {
            let (k, m) = (kinds[t], calls[t]);
            let run = move || {
                let mut s = own(k, 1, false).pop().unwrap();
                (0..m).map(|j| own_call(&mut *s, t, j)).collect::<Vec<_>>()
            };
            std::thread::scope(|x| x.spawn(run).join().unwrap())
        })
        .collect();
    let threads: Vec<Box<dyn FnOnce() -> Vec<Out> + Send + '_>> = samplers
        .iter_mut()
        .enumerate()
        .map(|(t, s)| {
            let m = calls[t];
            Box::new(move || (0..m).map(|j| own_call(&mut **s, t, j)).collect()) as Box<dyn FnOnce() -> Vec<Out> + Send + '_>
        })
        .collect();
    let what = format!("threads with samplers of their own (kinds {kinds:?}, calls {calls:?}, clones {clones})");
    let (got, _) = schedule(ctx, threads, bound).map_err(|m| format!("{what}: {m}"))?;
    ctx.state(&format!("{kinds:?} {calls:?}"));
    for t in 0..n {
        for (j, (a, b)) in want[t].iter().zip(&got[t]).enumerate() {
            ensure!(a.same(b), "{what}: thread {t} call {j} gives {}, alone {}", b.text(), a.text());
        }
    }
    Ok(())
}

/// Adds a fixed amount, counting its calls; independent of the order of calls.
#[derive(Debug)]
struct Adder {
    id: u32,
    calls: Arc<AtomicUsize>,
    inside: Arc<AtomicUsize>,
}
impl Sampler for Adder {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        let _ = res.with_last_tokens_mut(&mut |t| t.push(self.id));
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        // Exclusive while it runs.
        if self.inside.fetch_add(1, Ordering::SeqCst) != 0 {
            return Err(SamplerError::InternalError("two callers inside at once".into()));
        }
        let c = self.calls.load(Ordering::SeqCst);
        res.with_last_tokens_mut(&mut |t| t.push(self.id))?;
        self.calls.store(c + 1, Ordering::SeqCst);
        for x in l.iter_mut() {
            x.logit = x.logit * 2.0 + self.id as f32;
        }
        self.inside.fetch_sub(1, Ordering::SeqCst);
        Ok(l)
    }
}
fn opposite(ctx: &mut Ctx) -> R {
    let n = ctx.range(2, 3);
    let kind = ctx.choose(3);
    let prepend = ctx.flag();
    let calls = [Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0))];
    let mk = |i: usize| -> Shared {
        Arc::new(CMutex::new(Adder { id: 3 + i as u32, calls: calls[i].clone(), inside: Default::default() }))
    };
    let (a, b) = (mk(0), mk(1));
    let threads: Vec<Box<dyn FnOnce() -> (Out, Out) + Send + '_>> = (0..n)
        .map(|t| {
            let (a, b) = (a.clone(), b.clone());
            Box::new(move || {
                let mut c = SamplerChain::new();
                let (x, y) = if t % 2 == 0 { (a, b) } else { (b, a) };
                match kind {
                    0 => {
                        c += x;
                        c += y;
                    }
                    1 => {
                        // Nested: the second one inside a chain of its own.
                        let mut d = SamplerChain::new();
                        d += y;
                        c += x;
                        c += d;
                    }
                    _ => {
                        let mut d = SamplerChain::new();
                        d += x.clone();
                        d += y;
                        c += d;
                        c += x;
                    }
                }
                c += SampleGreedy::new();
                let p = if prepend { perform(&mut c, Op::Prepend, t, 0, false) } else { perform(&mut c, Op::Read, t, 0, false) };
                (p, perform(&mut c, Op::Tok, t, 0, false))
            }) as Box<dyn FnOnce() -> (Out, Out) + Send + '_>
        })
        .collect();
    let bound = if n == 3 { ctx.qt(1, 2) } else { ctx.qt(3, 6) };
    let (got, _) = schedule(ctx, threads, bound).map_err(|m| format!("opposite orders, kind {kind}, {n} threads: {m}"))?;
    ctx.state(&format!("{:?}", got.iter().map(|o| o.1.text()).collect::<Vec<_>>()));
    let mut per = [0usize; 2];
    for (t, g) in got.iter().enumerate() {
        let mut ids: Vec<u32> = if t % 2 == 0 { vec![3, 4] } else { vec![4, 3] };
        if kind == 2 {
            ids.push(ids[0]);
        }
        for i in &ids {
            per[(*i - 3) as usize] += 1;
        }
        let c = coll(t, 0);
        let mut e = snap(&c).e;
        for i in &ids {
            e.iter_mut().for_each(|x| x.1 = x.1 * 2.0 + *i as f32);
        }
        let best = e.iter().fold(e[0], |m, x| if x.1 > m.1 { *x } else { m });
        let mut hist = vec![t as u32];
        hist.extend(&ids);
        match &g.1 {
            Out::Done { r, snap, tokens, .. } => {
                ensure!(*r == Ok(Some(best.0)), "thread {t} got {r:?} instead of {}", best.0);
                let mut x = snap.e.clone();
                let mut y = e.clone();
                x.sort_by_key(|v| v.0);
                y.sort_by_key(|v| v.0);
                ensure!(same_e(&x, &y), "thread {t}: collection {} instead of {}", short(&x), short(&y));
                ensure!(tokens.as_ref() == Some(&hist), "thread {t}: history {tokens:?} instead of {hist:?}");
            }
            Out::Panicked => return Err(format!("thread {t} panicked")),
        }
        if prepend {
            match &g.0 {
                Out::Done { tokens, .. } => ensure!(tokens.as_ref() == Some(&hist), "thread {t}: prepend left history {tokens:?} instead of {hist:?}"),
                Out::Panicked => return Err(format!("thread {t} panicked while prepending")),
            }
        }
    }
    for i in 0..2 {
        let c = calls[i].load(Ordering::SeqCst);
        ensure!(c == per[i], "shared sampler {i} was called {} times but counted {c}", per[i]);
    }
    Ok(())
}

fn nested(ctx: &mut Ctx) -> R {
    let n = ctx.range(2, 3);
    let deep = ctx.flag();
    let first = *ctx.pick(&[None, Some(Op::Prepend), Some(Op::Read)]);
    let plan: Vec<(bool, Op)> = (0..n).map(|_| (ctx.flag(), *ctx.pick(&[Op::Tok, Op::Sample]))).collect();
    let calls = [Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0))];
    let adder = |i: usize| Adder { id: 3 + i as u32, calls: calls[i].clone(), inside: Default::default() };
    let b: Shared = Arc::new(CMutex::new(adder(1)));
    let g: Shared = Arc::new(CMutex::new(SampleGreedy::new()));
    let mut c = SamplerChain::new();
    c += adder(0);
    c += b.clone();
    c += g.clone();
    let mid: Shared = Arc::new(CMutex::new(c));
    let outer: Shared = if deep { Arc::new(CMutex::new(mid.clone())) } else { mid.clone() };
    let threads: Vec<Box<dyn FnOnce() -> (Option<Out>, Out) + Send + '_>> = (0..n)
        .map(|t| {
            let (direct, op) = plan[t];
            let mut s: Box<dyn Sampler> = if !direct {
                Box::new(outer.clone())
            } else if deep {
                Box::new(mid.clone())
            } else {
                let mut c = SamplerChain::new();
                c += b.clone();
                c += g.clone();
                Box::new(c)
            };
            Box::new(move || {
                let p = first.map(|o| perform(&mut *s, o, t, 0, false));
                (p, perform(&mut *s, op, t, 0, false))
            }) as Box<dyn FnOnce() -> (Option<Out>, Out) + Send + '_>
        })
        .collect();
    let bound = if n == 3 { ctx.qt(1, 2) } else { ctx.qt(4, 7) };
    let (got, _) = schedule(ctx, threads, bound).map_err(|m| format!("shared inside shared (deep {deep}), {plan:?}: {m}"))?;
    ctx.state(&format!("{:?}", got.iter().map(|o| o.1.text()).collect::<Vec<_>>()));
    let mut per = [0usize; 2];
    for (t, x) in got.iter().enumerate() {
        let (direct, op) = plan[t];
        let ids: &[u32] = if direct && !deep { &[4] } else { &[3, 4] };
        for i in ids {
            per[(*i - 3) as usize] += 1;
        }
        let mut e = snap(&coll(t, 0)).e;
        for i in ids {
            e.iter_mut().for_each(|x| x.1 = x.1 * 2.0 + *i as f32);
        }
        let best = e.iter().fold(e[0], |m, x| if x.1 > m.1 { *x } else { m });
        let mut hist = vec![t as u32];
        hist.extend(ids);
        let at = format!("shared inside shared (deep {deep}), {plan:?}: thread {t}");
        match &x.1 {
            Out::Done { r, snap, tokens, .. } => {
                let want = if op == Op::Tok { Some(best.0) } else { None };
                ensure!(*r == Ok(want), "{at} got {r:?} instead of {want:?}");
                ensure!(same_e(&snap.e, &e), "{at}: collection {} instead of {}", short(&snap.e), short(&e));
                ensure!(tokens.as_ref() == Some(&hist), "{at}: history {tokens:?} instead of {hist:?}");
            }
            Out::Panicked => return Err(format!("{at} panicked")),
        }
        if let (Some(Op::Prepend), Some(p)) = (first, &x.0) {
            match p {
                Out::Done { tokens, .. } => ensure!(tokens.as_ref() == Some(&hist), "{at}: prepend left history {tokens:?} instead of {hist:?}"),
                Out::Panicked => return Err(format!("{at} panicked while prepending")),
            }
        }
    }
    for i in 0..2 {
        let c = calls[i].load(Ordering::SeqCst);
        ensure!(c == per[i], "sampler {i} was called {} times but counted {c}", per[i]);
    }
    Ok(())
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(cli(&a, list(), true));
}
