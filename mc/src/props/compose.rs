//! C22 chains, C23 wrappers, C25 resource faults, C27 suggested chains, C33 no hidden state, C35 resources.
use crate::common::*;
use crate::engine::*;
use rand::RngCore;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C22",
            name: "chain_deep",
            bounds: "all binary nestings of up to 5 (quick) / 6 (thorough) probes, with one enumerated failing (all 8 kinds of error) or token-reporting position, 3 assembly ways",
            run: c22_deep,
        },
        Harness {
            prop: "C22",
            name: "chain_real",
            bounds: "all sequences of 1-3 built-in samplers (24 parameter sets; quick: 3-sequences on 2 inputs) x inputs x {resources complete, rng missing, history missing}: bitwise equal to running them one by one, two rounds",
            run: c22_real,
        },
        Harness {
            prop: "C22",
            name: "chain_sizes",
            bounds: "all pairs of built-in samplers (25 parameter sets) on collections of every size 0-70 (quick) / 0-300 (thorough) and of 100, 129, 255-257, 513, 1000-1100, 2050 and 5000 (thorough: 20000) entries x 2 shapes x {no spare room, room for 3000 more, cut down from 3000 more} x {sample, sample_token}: bitwise equal to running them one by one",
            run: c22_sizes,
        },
        Harness {
            prop: "C22",
            name: "chain_long",
            bounds: "chains of 0..70, 255..257 and 1000 probes, failing position (all 8 kinds of error) enumerated",
            run: c22_long,
        },
        Harness {
            prop: "C22",
            name: "chain_trees",
            bounds: "all chains of length 0-3 (quick) / 0-4 (thorough) whose elements are recording probes with 10 behaviours (6 in nested pairs; among them emptying, growing and turning the collection) or nested chains of 0-2 probes, assembled by push, +, += or mixed; prepend, two runs on different collections, prepend again; compared with a recursive reference run",
            run: c22_trees,
        },
        Harness {
            prop: "C22",
            name: "nested",
            bounds: "chains nested 0..40, around powers of two up to 513 and 600 deep, the nested chain first, last or between probes, alone or not, innermost probe with one of 6 behaviours (all 8 kinds of error), 3 assembly ways",
            run: c22_nested,
        },
        Harness {
            prop: "C22",
            name: "overridden",
            bounds: "chains of 1-3 user-written samplers whose sample, sample_token and sampled_token_id differ (10 behaviours: tokens, tokens reported but not returned or the other way round, failing, emptying, growing, mutating resources), flat or the tail nested, two calls each by sample or sample_token: every sampler runs exactly once per call and in order",
            run: c22_overridden,
        },
        Harness {
            prop: "C22",
            name: "long_histories",
            bounds: "chains of 1-3 out of 11 samplers (flat or the tail nested) under every cycle of 1-2 out of 8 events (4 inputs with everything, rng or history missing or failing) repeated to 60 (quick) / 300 (thorough) calls: bitwise equal to the same samplers run one by one",
            run: |c| chain_cycles(c, false),
        },
        Harness {
            prop: "C23",
            name: "wrapper_calls",
            bounds: "all sequences of 1-4 (quick) / 1-5 (thorough) operations {sample, sample_token, sampled_token_id, sample_prepend, collection.sample, collection.sample_token} x 8 behaviours, up to 3 / 4 operations x all 8 kinds of error, x 12 wrappers (box, shared lock, buildable box and their nestings, inside a chain)",
            run: c23_calls,
        },
        Harness {
            prop: "C23",
            name: "wrapper_real",
            bounds: "every built-in sampler (24 parameter sets) bare vs in each of 8 wrappers, two calls, 9 inputs, resource faults: bitwise equal",
            run: c23_real,
        },
        Harness {
            prop: "C23",
            name: "poisoned",
            bounds: "a shared sampler panics in call 1-3 (enumerated operation); then all sequences of 3 operations through every handle: errors, no panic, no token",
            run: c23_poison,
        },
        Harness {
            prop: "C23",
            name: "shared_handles",
            bounds: "all sequences of up to 5 operations on 3 handles of one shared sampler vs the same operations on the bare sampler",
            run: c23_shared,
        },
        Harness {
            prop: "C25",
            name: "fault_histories",
            bounds: "all histories of 4 (quick) / 5 (thorough) calls over {two ok inputs, missing, failing, bare (), Nil, SimpleSamplerResources without it} for every sampler that needs a resource (11 parameter sets), against a twin that never saw the failing calls",
            run: c25_hist,
        },
        Harness {
            prop: "C25",
            name: "long_histories",
            bounds: "the same events in every cycle of 1-2 repeated to 200 calls (up to 200 faults in a row), then a call that works",
            run: c25_long,
        },
        Harness {
            prop: "C25",
            name: "fault_kinds",
            bounds: "the histories of fault_histories one call shorter, with failing accesses reporting each of the 7 other kinds of error",
            run: c25_kinds,
        },
        Harness {
            prop: "C25",
            name: "not_needed",
            bounds: "every sampler that needs no resource or is disabled (34 parameter sets) x 9 inputs x 5 resource sets: succeeds and equals the run with resources",
            run: c25_free,
        },
        Harness {
            prop: "C25",
            name: "chains",
            bounds: "chains of two samplers with the fault (missing or failing with all 8 kinds of error) in the first or second: exact error, no token, next call equals the twin's",
            run: c25_chain,
        },
        Harness {
            prop: "C25",
            name: "long_chains",
            bounds: "the cycles of C22 long_histories over chains of two samplers that need a resource (11 x 11), 60 (quick) / 300 (thorough) calls: the exact error every time, no token, calls with everything succeed",
            run: |c| chain_cycles(c, true),
        },
        Harness {
            prop: "C27",
            name: "temperature_chain",
            bounds: "all 2^9 subsets of the optional stages x {random, greedy} x 8 parameter variants x 11 inputs (ties, forbidden, single, large, steep, huge) x 3 histories x 6 (quick) / 7 (thorough) random words; rerun from a fresh start",
            run: c27_temp,
        },
        Harness {
            prop: "C27",
            name: "mirostat_chain",
            bounds: "all 2^4 subsets x {mirostat 1, mirostat 2} x 6 parameter variants x 10 inputs x 4 histories x all words of length 3 over 4 random words, 3 generation steps with a growing history; rerun from a fresh start",
            run: c27_miro,
        },
        Harness {
            prop: "C27",
            name: "every_size",
            bounds: "vocabularies of every size 1-160 (quick) / 1-600 (thorough) and 12 up to 131072 x 4 shapes x {no stage, each stage alone, all, all but one} x 4 final samplers x 3 parameter variants x 3 random words, histories with repeats; rerun from a fresh start",
            run: c27_sizes,
        },
        Harness {
            prop: "C27",
            name: "generation",
            bounds: "5 generation steps feeding the chosen tokens back as history, all sequences of 3 random words, all 2^9 subsets, four inputs",
            run: c27_gen,
        },
        Harness { prop: "C33", name: "look_alikes", bounds: REUSED, run: c33_alike },
        Harness {
            prop: "C33",
            name: "fresh_twin",
            bounds: "every sampler (30 parameter sets) after all histories of 0-3 (quick) / 0-4 (thorough) calls over 10 events (3 collections with their own history and word, empty, faulty resources, 4 look-alikes with the same size, best probability and history length) vs a fresh one on a thread of its own, on 14 final collections and histories, bitwise",
            run: c33_fresh,
        },
        Harness {
            prop: "C33",
            name: "long_histories",
            bounds: "every sampler: every cycle of 1-2 events out of 10 repeated to 300 calls, each call compared bitwise with a fresh sampler's",
            run: c33_long,
        },
        Harness {
            prop: "C33",
            name: "clones",
            bounds: "every sampler: history of 0-1 events, clone, then all interleavings of up to 4 (quick) / 5 (thorough) events on original and clone, each compared bitwise with a twin that saw only its own calls",
            run: c33_clone,
        },
        Harness {
            prop: "C33",
            name: "clones_reconfigured",
            bounds: "31 sampler parameter sets: an original called or not, then cloned; all interleavings of 4 (quick) / 5 (thorough) operations out of {call on one of 3 collections, set one of two options} on original and clone: each behaves as a fresh sampler with its own options (mu included)",
            run: c33_clone_set,
        },
        Harness {
            prop: "C35",
            name: "simple_resources",
            bounds: "4 presence combinations x all sequences of 0-6 (quick) / 0-7 (thorough) accesses out of 12 kinds, against a vector and a twin random source",
            run: c35,
        },
        Harness {
            prop: "C35",
            name: "long_histories",
            bounds: "4 presence combinations x every cycle of 1-2 accesses out of 12 repeated to 300",
            run: c35_long,
        },
        Harness {
            prop: "C35",
            name: "large_histories",
            bounds: "token histories of 24 lengths between 0 and 1048577 (around powers of two) x 3 contents x given at construction or grown one by one x all sequences of 2 edits out of 9, against a twin vector",
            run: c35_large,
        },
        Harness {
            prop: "C35",
            name: "empty_resources",
            bounds: "(), NilSamplerResources, a custom type using the trait defaults, SimpleSamplerResources without resources: all sequences of 3 accesses",
            run: c35_empty,
        },
        Harness {
            prop: "C35",
            name: "through_samplers",
            bounds: "all sequences of up to 4 sampler calls through SimpleSamplerResources vs scripted resources: same words consumed, same history seen",
            run: c35_samplers,
        },
    ]
}

pub type Obs = (Result<Option<u32>, String>, Snap);

fn base_coll(k: usize) -> Logits {
    let v: &[f32] = match k {
        0 => &[1.0, 3.0, -2.0, 0.5],
        1 => &[0.25, -1.0, 2.0],
        _ => &[],
    };
    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
    for x in l.iter_mut() {
        x.token_id += 10 * k as u32;
    }
    l
}

// ------------------------------------------------------------------ C22

const ACTS: &[Act] = &[Act::Pass, Act::Tok(7), Act::Fail, Act::Drop, Act::Shift, Act::ShiftFail];
/// All of them.
const ALL_ACTS: &[Act] = &[
    Act::Pass,
    Act::Tok(7),
    Act::Fail,
    Act::Drop,
    Act::Shift,
    Act::ShiftFail,
    Act::ClearTok(8),
    Act::Grow,
    Act::Turn,
    Act::ClearFail,
];

#[derive(Clone, Debug)]
enum Tree {
    P(usize, Act),
    C(Vec<Tree>),
}
enum Node {
    P(Probe),
    C(Vec<Node>),
}
impl Tree {
    fn node(&self, log: &Log, err: usize) -> Node {
        match self {
            Tree::P(i, a) => Node::P(Probe { err, ..Probe::new(*i, *a, log) }),
            Tree::C(v) => Node::C(v.iter().map(|t| t.node(log, err)).collect()),
        }
    }
    fn chain(&self, log: &Log, way: usize, err: usize) -> SamplerChain {
        let Tree::C(v) = self else { panic!() };
        let mut c = SamplerChain::new();
        for (i, t) in v.iter().enumerate() {
            let w = if way < 3 { way } else { (i + way) % 3 };
            match t {
                Tree::P(id, a) => {
                    let p = Probe { err, ..Probe::new(*id, *a, log) };
                    match w {
                        0 => {
                            c.push_sampler(p);
                        }
                        1 => c = c + p,
                        _ => c += p,
                    }
                }
                Tree::C(_) => {
                    let s = t.chain(log, way, err);
                    match w {
                        0 => {
                            c.push_sampler(s);
                        }
                        1 => c = c + s,
                        _ => c += s,
                    }
                }
            }
        }
        c
    }
}
/// Reference: run in order, stop at the first failure, report the final sampler's token.
fn ref_run(n: &mut Node, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, String> {
    match n {
        Node::P(p) => {
            p.sample(res, l).map(|_| ()).map_err(|e| err_str(&e))?;
            Ok(p.tok)
        }
        Node::C(v) => {
            let mut t = None;
            for x in v {
                t = ref_run(x, res, l)?;
            }
            Ok(t)
        }
    }
}
fn ref_prepend(n: &Node, res: &mut dyn HasSamplerResources) {
    match n {
        Node::P(p) => p.sample_prepend(res),
        Node::C(v) => v.iter().for_each(|x| ref_prepend(x, res)),
    }
}
fn new_log() -> Log {
    Arc::new(Mutex::new(vec![]))
}
fn taken(l: &Log) -> Vec<String> {
    std::mem::take(&mut *l.lock().unwrap())
}
fn tree_check(ctx: &mut Ctx, t: &Tree, way: usize, err: usize) -> R {
    let (la, lb) = (new_log(), new_log());
    let mut c = t.chain(&la, way, err);
    let mut n = t.node(&lb, err);
    let mut ra = Res::new(&[3, 5, 7, 9, 11, 13, 17, 19, 23, 29], &[1, 2]);
    let mut rb = Res::new(&[3, 5, 7, 9, 11, 13, 17, 19, 23, 29], &[1, 2]);
    ctx.note(|| format!("{t:?} way {way}"));
    ensure!(c.sampled_token_id().is_none(), "{t:?}: token before any run");
    for round in 0..2 {
        c.sample_prepend(&mut ra);
        ref_prepend(&n, &mut rb);
        ctx.step();
        let (a, b) = (taken(&la), taken(&lb));
        ensure!(a == b, "{t:?} way {way}: prepend calls differ: chain {a:?}, expected {b:?}");
        let (mut x, mut y) = (base_coll(round), base_coll(round));
        if round == 0 {
            x.ensure_softmax().unwrap();
            y.ensure_softmax().unwrap();
        }
        let got = if round == 0 {
            c.sample_token(&mut ra, &mut x).map_err(|e| err_str(&e))
        } else {
            c.sample(&mut ra, &mut x).map(|_| ()).map_err(|e| err_str(&e)).map(|_| c.sampled_token_id())
        };
        ctx.step();
        let want = ref_run(&mut n, &mut rb, &mut y);
        ctx.note(|| format!("round {round}: {got:?}"));
        ensure!(got == want, "{t:?} way {way} round {round}: chain returned {got:?}, one by one gives {want:?}");
        let (a, b) = (taken(&la), taken(&lb));
        ensure!(a == b, "{t:?} way {way} round {round}: calls differ: chain {a:?}, expected {b:?}");
        let (s, u) = (snap(&x), snap(&y));
        ctx.state(&(hash_of(&s), got.clone()));
        ensure!(s.same(&u), "{t:?} way {way} round {round}: collection {:?} expected {:?}", s.e, u.e);
        ensure!(ra.tokens == rb.tokens && ra.rng_calls == rb.rng_calls, "{t:?} way {way} round {round}: resources used differently");
        if want.is_ok() {
            ensure!(c.sampled_token_id() == want.clone().unwrap(), "{t:?} round {round}: reads token {:?}, expected {want:?}", c.sampled_token_id());
        }
    }
    Ok(())
}
fn c22_trees(ctx: &mut Ctx) -> R {
    let n = ctx.range(0, ctx.qt(3, 4));
    let mut id = 0;
    let mut v = vec![];
    for _ in 0..n {
        let k = ctx.choose(ALL_ACTS.len() + 1);
        if k < ALL_ACTS.len() {
            v.push(Tree::P(id, ALL_ACTS[k]));
            id += 1;
        } else {
            let m = ctx.range(0, 2);
            let mut w = vec![];
            for _ in 0..m {
                w.push(Tree::P(id, *ctx.pick(if m == 1 { ALL_ACTS } else { ACTS })));
                id += 1;
            }
            v.push(Tree::C(w));
        }
    }
    let way = ctx.choose(4);
    tree_check(ctx, &Tree::C(v), way, n)
}
/// All ways to bracket `n` probes.
fn brackets(ctx: &mut Ctx, from: usize, n: usize, act: &dyn Fn(usize) -> Act) -> Tree {
    if n == 1 {
        let t = Tree::P(from, act(from));
        return if ctx.flag() { Tree::C(vec![t]) } else { t };
    }
    let k = ctx.range(1, n - 1);
    let a = brackets(ctx, from, k, act);
    let b = brackets(ctx, from + k, n - k, act);
    Tree::C(vec![a, b])
}
fn c22_deep(ctx: &mut Ctx) -> R {
    let n = ctx.range(2, ctx.qt(5, 6));
    let at = ctx.choose(n);
    let a = *ctx.pick(&[Act::Fail, Act::Tok(5), Act::Drop, Act::ClearTok(6), Act::Grow, Act::Turn]);
    let t = brackets(ctx, 0, n, &|i| {
        if i == at {
            a
        } else if i == 0 {
            Act::Tok(99)
        } else {
            Act::Shift
        }
    });
    let way = ctx.choose(3);
    let err = if a == Act::Fail { ctx.choose(ERRS) } else { 0 };
    tree_check(ctx, &t, way, err)
}
fn c22_long(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(&[0usize, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 255, 256, 257, 1000]);
    let at = *ctx.pick(&[0usize, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), usize::MAX]);
    let a = *ctx.pick(&[Act::Fail, Act::Tok(5), Act::Drop, Act::ClearTok(6), Act::Grow, Act::Turn]);
    let v = (0..n).map(|i| Tree::P(i, if i == at { a } else { Act::Pass })).collect();
    let way = ctx.choose(4);
    let err = if a == Act::Fail && n <= 33 { ctx.choose(ERRS) } else { n % ERRS };
    tree_check(ctx, &Tree::C(v), way, err)
}

fn c22_nested(ctx: &mut Ctx) -> R {
    let d = if ctx.flag() {
        ctx.range(0, 40)
    } else {
        *ctx.pick(&[48usize, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 400, 511, 512, 513, 600])
    };
    let a = *ctx.pick(&[Act::Pass, Act::Fail, Act::Tok(5), Act::Drop, Act::ClearTok(6), Act::Grow]);
    let pos = ctx.choose(4);
    let mut id = 0;
    let mut p = |a| {
        id += 1;
        Tree::P(id, a)
    };
    let mut t = Tree::C(vec![p(a)]);
    for _ in 0..d {
        t = Tree::C(match pos {
            0 => vec![t],
            1 => vec![t, p(Act::Pass)],
            2 => vec![p(Act::Tok(99)), t],
            _ => vec![p(Act::Shift), t, p(Act::Pass)],
        });
    }
    let way = ctx.choose(3);
    let err = if a == Act::Fail && d <= 20 { ctx.choose(ERRS) } else { d % ERRS };
    tree_check(ctx, &t, way, err)
}
/// One chain for many calls, against the same samplers called one by one.
fn chain_cycles(ctx: &mut Ctx, faulty: bool) -> R {
    use Spec::*;
    let list: Vec<(Spec, Option<bool>)> = if faulty {
        needy().into_iter().map(|(s, b)| (s, Some(b))).collect()
    } else {
        vec![
            (TopK(2, 1), None),
            (TopP(0.7, 1), None),
            (Temp(0.5), None),
            (Greedy, None),
            (Rand, Some(true)),
            (Miro2 { tau: 2.0, eta: 0.2, mu: None }, Some(true)),
            (Miro1 { n_vocab: 30, tau: 2.0, eta: 0.2, m: 100, mu: None }, Some(true)),
            (Rep(1.5, 64), Some(false)),
            (FreqPres(0.5, 0.75, 64), Some(false)),
            (Seq { flat: 1.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 }, Some(false)),
            (Bias(vec![(1, NINF), (4, 3.0)]), None),
        ]
    };
    let n = if faulty { 2 } else { ctx.range(1, ctx.qt(2, 3)) };
    let v: Vec<&(Spec, Option<bool>)> = (0..n).map(|_| ctx.pick(&list)).collect();
    let nest = n > 1 && ctx.flag();
    let mut c = SamplerChain::new();
    if nest {
        c += v[0].0.make();
        let mut tail = SamplerChain::new();
        v[1..].iter().for_each(|s| tail += s.0.make());
        c += tail;
    } else {
        v.iter().for_each(|s| c += s.0.make());
    }
    let mut one: Vec<Box<dyn Sampler>> = v.iter().map(|s| s.0.make()).collect();
    let len = if n == 3 { 60 } else { ctx.qt(60, 300) };
    let by_sample = ctx.choose(if n == 3 { 2 } else { 3 });
    let plan = periodic(ctx, 8, 2, len);
    for (i, ev) in plan.iter().enumerate() {
        let Some(l) = input_at([0, 3, 1, 5][ev % 4]) else { continue };
        let mk = || {
            let mut r = Res::new(&[0x2000_0000u32.wrapping_mul(i as u32 % 7 + 1), 0xd000_0000], HISTS[ev % 3]);
            match ev {
                4 => r.rng_fault = Fault::Missing,
                5 => r.rng_fault = Fault::Fails,
                6 => r.tok_fault = Fault::Missing,
                7 => r.tok_fault = Fault::Fails,
                _ => {}
            }
            r
        };
        let (mut x, mut y, mut ra, mut rb) = (l.clone(), l.clone(), mk(), mk());
        let got = if by_sample == 1 || (by_sample == 2 && i % 2 == 0) {
            c.sample(&mut ra, &mut x).map(|_| ()).map_err(|e| err_str(&e)).map(|_| c.sampled_token_id())
        } else {
            c.sample_token(&mut ra, &mut x).map_err(|e| err_str(&e))
        };
        let mut want = Ok(None);
        for s in &mut one {
            want = s.sample(&mut rb, &mut y).map(|_| ()).map_err(|e| err_str(&e)).map(|_| s.sampled_token_id());
            if want.is_err() {
                break;
            }
        }
        ctx.steps(2);
        let at = || format!("chain {:?} nested {nest}, call {} of cycle {:?}", v.iter().map(|s| &s.0).collect::<Vec<_>>(), i + 1, &plan[..2]);
        ctx.note(|| format!("{}: {got:?}", at()));
        let (a, b) = (snap(&x), snap(&y));
        ctx.state(&(hash_of(&a), got.clone()));
        if faulty {
            let hit = v.iter().any(|s| s.1 == Some(*ev < 6)) && *ev >= 4;
            let exp = match ev {
                4 => "MissingResource(\"rng\")".to_string(),
                6 => "MissingResource(\"last_tokens\")".to_string(),
                5 => err_str(&err_of(0, RNG_FAIL)),
                _ => err_str(&err_of(0, TOK_FAIL)),
            };
            if hit {
                ensure!(got == Err(exp.clone()), "{}: gives {got:?}, expected error {exp}", at());
                ensure!(c.sampled_token_id().is_none(), "{}: failed, but reports token {:?}", at(), c.sampled_token_id());
            } else {
                ensure!(got.is_ok(), "{}: fails though its resources are there: {got:?}", at());
            }
        }
        ensure!(got == want, "{}: gives {got:?}, one by one {want:?}", at());
        ensure!(a.same(&b), "{}: collection {} expected {}", at(), short(&a.e), short(&b.e));
        ensure!(ra.rng_calls == rb.rng_calls && ra.tokens == rb.tokens, "{}: resources used differently", at());
    }
    Ok(())
}

/// The built-in samplers with working parameters.
pub fn menu() -> Vec<Spec> {
    use Spec::*;
    vec![
        TopK(2, 1),
        TopK(40, 1),
        TopP(0.7, 1),
        TopP(0.3, 2),
        MinP(0.2, 1),
        MinP(0.9, 2),
        TopA(0.6, 2.0, 1),
        TailFree(0.6, 1),
        TailFree(0.2, 2),
        Typical(0.6, 1),
        Typical(0.95, 1),
        Greedy,
        Rand,
        Miro1 { n_vocab: 30, tau: 2.0, eta: 0.2, m: 100, mu: None },
        Miro1 { n_vocab: 9, tau: 1.0, eta: 0.5, m: 3, mu: Some(1.0) },
        Miro2 { tau: 2.0, eta: 0.2, mu: None },
        Miro2 { tau: 1.0, eta: 0.5, mu: Some(1.25) },
        Rep(1.5, 64),
        Rep(3.0, 2),
        FreqPres(0.5, 0.75, 64),
        Seq { flat: 1.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 },
        Seq { flat: 2.0, stack: 0.0, min_length: 3, tol: 1, merge: 2, last_n: 16 },
        Bias(vec![(1, NINF), (4, 3.0)]),
        Temp(0.5),
        Temp(-2.0),
    ]
}
pub fn more() -> Vec<Spec> {
    use Spec::*;
    let mut v = menu();
    v.extend([
        TopK(0, 0),
        MinP(0.0, 1),
        Rep(1.0, 64),
        Temp(0.0),
        TopA(0.0, 1.0, 3),
        Bias(vec![(2, 0.5)]),
    ]);
    v
}
pub const HISTS: &[&[u32]] = &[&[1, 2, 3, 1, 2], &[0, 0, 4, 0, 0], &[5, 1, 2, 9, 5, 1, 3], &[]];
fn inputs() -> Vec<(&'static str, usize, &'static str)> {
    vec![
        ("shuf", 6, "raw"),
        ("zipf", 12, "softmaxed"),
        ("two", 5, "raw"),
        ("forbid3", 9, "raw"),
        ("ties", 4, "softmax+temp2"),
        ("asc", 30, "topk-ingested"),
        ("plateaus", 25, "renumbered"),
        ("peak", 1, "raw"),
        ("desc", 0, "raw"),
    ]
}
pub fn input_at(k: usize) -> Option<Logits> {
    let i = inputs()[k];
    prepare(i.2, &shape(i.0, i.1))
}
pub fn obs(s: &mut dyn Sampler, r: &mut dyn HasSamplerResources, l: &mut Logits) -> Obs {
    let o = s.sample_token(r, l).map_err(|e| err_str(&e));
    (o, snap(l))
}
/// By `sample` and a look at the token, or by `sample_token`.
pub fn obs_by(s: &mut dyn Sampler, r: &mut dyn HasSamplerResources, l: &mut Logits, by_sample: bool) -> Obs {
    if !by_sample {
        return obs(s, r, l);
    }
    let o = s.sample(r, l).map(|_| ()).map_err(|e| err_str(&e));
    (o.map(|_| s.sampled_token_id()), snap(l))
}
pub fn same_obs(a: &Obs, b: &Obs) -> bool {
    a.0 == b.0 && a.1.same(&b.1)
}
pub fn show(o: &Obs) -> String {
    format!("{:?} {} sorted={} softmax={}", o.0, short(&o.1.e), o.1.sorted, o.1.soft)
}

fn c22_real(ctx: &mut Ctx) -> R {
    let m = menu();
    let n = ctx.range(1, 3);
    let ni = if n == 3 && !ctx.thorough() { 2 } else { inputs().len() };
    let k = ctx.choose(ni);
    let specs: Vec<Spec> = (0..n).map(|_| ctx.pick(&m).clone()).collect();
    let fault = ctx.choose(if n == 3 && !ctx.thorough() { 1 } else { 3 });
    let way = ctx.choose(if n == 3 { 1 } else { 3 });
    let by_sample = if n == 3 && !ctx.thorough() { specs.iter().any(|s| matches!(s, Spec::Temp(_))) } else { ctx.flag() };
    let mut c = SamplerChain::new();
    for s in &specs {
        match way {
            0 => {
                c.push_sampler(s.make());
            }
            1 => c = c + s.make(),
            _ => c += s.make(),
        }
    }
    let mut each: Vec<Box<dyn Sampler>> = specs.iter().map(|s| s.make()).collect();
    let words = [0x1234_5678u32, 0xf000_0000, 0x7777_7777, 0x0100_0000, 0xc000_0000, 0x5555_5555];
    let mk = || {
        let mut r = Res::new(&words, HISTS[k % 3]);
        match fault {
            1 => r.rng_fault = Fault::Missing,
            2 => r.tok_fault = Fault::Fails,
            _ => {}
        }
        r
    };
    let (mut ra, mut rb) = (mk(), mk());
    for round in 0..2 {
        let Some(mut x) = input_at((k + round * 3) % inputs().len()) else { return Ok(()) };
        let mut y = x.clone();
        let a = obs_by(&mut c, &mut ra, &mut x, by_sample);
        ctx.step();
        let mut r = Ok(None);
        for s in each.iter_mut() {
            match s.sample(&mut rb, &mut y) {
                Ok(_) => r = Ok(s.sampled_token_id()),
                Err(e) => {
                    r = Err(err_str(&e));
                    break;
                }
            }
        }
        let b: Obs = (r, snap(&y));
        ctx.state(&b.1);
        ctx.note(|| format!("{specs:?}: {}", show(&a)));
        ensure!(same_obs(&a, &b), "{specs:?} input {:?} round {round}: chain gives {}, one by one {}", inputs()[k], show(&a), show(&b));
        ensure!(
            ra.rng.as_ref().unwrap().pos == rb.rng.as_ref().unwrap().pos && ra.tok_calls == rb.tok_calls,
            "{specs:?}: chain used the resources differently"
        );
    }
    Ok(())
}

fn c22_sizes(ctx: &mut Ctx) -> R {
    let m = menu();
    let mut sizes: Vec<usize> = (0..=ctx.qt(70, 300)).collect();
    sizes.extend([100, 129, 255, 256, 257, 513, 1000, 1025, 1100, 2050, 5000]);
    if ctx.thorough() {
        sizes.push(20000);
    }
    let n = *ctx.pick(&sizes);
    let room = if n < 40 || n > 1000 { ctx.choose(3) } else { 0 };
    let kind = *ctx.pick(ctx.qt(if n > 1000 { &["shuf"][..] } else { &["shuf", "peak"] }, &["shuf", "peak"]));
    let specs = [ctx.pick(&m).clone(), ctx.pick(&m).clone()];
    let mut x = Logits::try_from_iter(shape(kind, n + if room == 2 { 3000 } else { 0 })).map_err(|e| e.to_string())?;
    if room == 1 {
        x.reserve(3000);
    }
    x.truncate(n);
    let mut y = Logits::try_from_iter(x.iter().map(|l| l.logit)).map_err(|e| e.to_string())?;
    let mut c = SamplerChain::new();
    for s in &specs {
        c += s.make();
    }
    let words = [0x1234_5678u32, 0xf000_0000, 0x7777_7777, 0x0100_0000];
    let (mut ra, mut rb) = (Res::new(&words, HISTS[n % 3]), Res::new(&words, HISTS[n % 3]));
    let by_sample = ctx.flag();
    let a = obs_by(&mut c, &mut ra, &mut x, by_sample);
    ctx.step();
    let mut r = Ok(None);
    for s in specs.iter().map(|s| s.make()) {
        let mut s = s;
        match s.sample(&mut rb, &mut y) {
            Ok(_) => r = Ok(s.sampled_token_id()),
            Err(e) => {
                r = Err(err_str(&e));
                break;
            }
        }
    }
    let b: Obs = (r, snap(&y));
    ctx.state(&(n, hash_of(&b.1)));
    ctx.note(|| format!("{specs:?} {kind} {n}: {}", show(&a)));
    ensure!(same_obs(&a, &b), "{specs:?} on {kind} {n} (room {room}, by_sample {by_sample}): chain gives {}, one by one {}", show(&a), show(&b));
    ensure!(c.sampled_token_id() == b.0.clone().unwrap_or(None), "{specs:?} on {kind} {n}: reads another token");
    Ok(())
}

// ------------------------------------------------------------------ C23

/// Overrides every sampler method, recording which was called.
/// Behaviours from here on: fail with each kind of error.
const ERR0: usize = 100;
#[derive(Debug, Clone)]
struct Full {
    act: usize,
    log: Log,
    calls: usize,
    tok: Option<u32>,
}
impl Full {
    fn new(act: usize, log: &Log) -> Self {
        Full { act, log: log.clone(), calls: 0, tok: None }
    }
    fn go(&mut self, m: &str, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<(), SamplerError> {
        self.calls += 1;
        let d = res_digest(res);
        let mut w = None;
        let rr = res.with_rng_mut(&mut |r| w = Some(r.next_u32()));
        self.log.lock().unwrap().push(format!("{m} call{} {:?} {d} {w:?} {rr:?}", self.calls, snap(l).e));
        let _ = res.with_last_tokens_mut(&mut |t| t.push(70 + self.calls as u32));
        match self.act {
            0 => self.tok = Some(100 + self.calls as u32),
            1 => self.tok = None,
            2 => {
                self.tok = Some(5);
                return Err(SamplerError::InternalError("full failed".into()));
            }
            3 => return Err(SamplerError::MissingResource("custom".into())),
            4 => {
                l.pop();
                l.set_sorted(true);
                self.tok = if m == "sample" { Some(1) } else { Some(2) };
            }
            5 => {
                l.clear();
                self.tok = Some(9);
            }
            9 => {
                l.push(Logit { token_id: 300 + self.calls as u32, logit: 9.5, prob: 0.25 });
                l.reverse();
                self.tok = Some(300 + self.calls as u32);
            }
            10 => {
                l.clear();
                self.tok = Some(11);
                return Err(SamplerError::InternalError("full emptied".into()));
            }
            // Reports a token it did not return, or returns one it does not report.
            11 => self.tok = Some(500 + self.calls as u32),
            12 => self.tok = None,
            k if k >= ERR0 => return Err(err_of(k - ERR0, "full")),
            _ => panic!("probe panics"),
        }
        Ok(())
    }
}
impl Sampler for Full {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        let d = res_digest(res);
        let _ = res.with_last_tokens_mut(&mut |t| t.push(60));
        self.log.lock().unwrap().push(format!("prepend {d}"));
        if self.act == 7 {
            panic!("probe panics");
        }
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.go("sample", res, l)?;
        Ok(l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.log.lock().unwrap().push("token".into());
        if self.act == 8 {
            panic!("probe panics");
        }
        self.tok
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
        self.go("sample_token", res, l)?;
        Ok(match self.act {
            11 => None,
            12 => Some(77),
            _ => self.tok.map(|t| t + 1000),
        })
    }
}
impl HasSamplerMetadata<usize, f32> for Full {}
impl ConfigurableSampler<usize, f32> for Full {}

pub const WRAPS: usize = 11;
pub type DynB = Box<dyn BuildableSampler<usize, f32>>;
pub fn wrap<S: BuildableSampler<usize, f32>>(i: usize, s: S) -> (&'static str, Box<dyn Sampler>) {
    let arc = |s: S| -> Arc<Mutex<dyn Sampler>> { Arc::new(Mutex::new(s)) };
    match i {
        0 => ("Box<dyn Sampler>", Box::new(Box::new(s) as Box<dyn Sampler>)),
        1 => ("Arc<Mutex<dyn Sampler>>", Box::new(arc(s))),
        2 => ("Box<dyn BuildableSampler>", Box::new(Box::new(s) as DynB)),
        3 => ("Box<Arc<Mutex>>", Box::new(Box::new(arc(s)) as Box<dyn Sampler>)),
        4 => {
            let b: Box<dyn Sampler> = Box::new(s);
            let a: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(b));
            ("Arc<Mutex<Box>>", Box::new(a))
        }
        5 => {
            let b: DynB = Box::new(s);
            let a: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(b));
            ("Arc<Mutex<BuildableBox>>", Box::new(a))
        }
        6 => {
            let b: DynB = Box::new(s);
            let c: Box<dyn Sampler> = Box::new(b);
            ("Box<BuildableBox>", Box::new(c))
        }
        7 => {
            let a = arc(s);
            let b: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(a));
            ("Arc<Mutex<Arc<Mutex>>>", Box::new(b))
        }
        8 => {
            let mut b: Box<dyn Sampler> = Box::new(s);
            for _ in 0..5 {
                b = Box::new(b);
            }
            ("box of box of box of box of box", b)
        }
        9 => {
            let a = arc(s);
            ("clone of an Arc<Mutex>", Box::new(a.clone()))
        }
        _ => ("plain", Box::new(s)),
    }
}
/// One operation; the result as text, logs separate.
fn op(ctx: &mut Ctx, s: &mut dyn Sampler, which: usize, r: &mut Res, l: &mut Logits) -> String {
    ctx.step();
    match which {
        0 => match s.sample(r, l) {
            Ok(x) => format!("ok {} entries", x.len()),
            Err(e) => format!("err {}", err_str(&e)),
        },
        1 => match s.sample_token(r, l) {
            Ok(x) => format!("ok {x:?}"),
            Err(e) => format!("err {}", err_str(&e)),
        },
        2 => format!("{:?}", s.sampled_token_id()),
        _ => {
            s.sample_prepend(r);
            "prepended".into()
        }
    }
}
/// The collection's own convenience methods, with the wrapped sampler as argument.
fn op_conv<S: Sampler>(ctx: &mut Ctx, s: &mut S, tok: bool, r: &mut Res, l: &mut Logits) -> String {
    ctx.step();
    if tok {
        match l.sample_token(r, s) {
            Ok(x) => format!("ok {x:?}"),
            Err(e) => format!("err {}", err_str(&e)),
        }
    } else {
        match l.sample(r, s) {
            Ok(x) => format!("ok {} entries", x.len()),
            Err(e) => format!("err {}", err_str(&e)),
        }
    }
}
fn c22_overridden(ctx: &mut Ctx) -> R {
    const ACT: [usize; 10] = [0, 1, 2, 3, 4, 5, 9, 10, 11, 12];
    let n = ctx.range(1, 3);
    let acts: Vec<usize> = (0..n).map(|_| *ctx.pick(&ACT)).collect();
    let nest = n > 1 && ctx.flag();
    let logs: Vec<Log> = (0..n).map(|_| new_log()).collect();
    let mut c = SamplerChain::new();
    if nest {
        c += Full::new(acts[0], &logs[0]);
        let mut t = SamplerChain::new();
        (1..n).for_each(|i| t += Full::new(acts[i], &logs[i]));
        c += t;
    } else {
        (0..n).for_each(|i| c += Full::new(acts[i], &logs[i]));
    }
    let rl = new_log();
    let mut refs: Vec<Full> = acts.iter().map(|a| Full::new(*a, &rl)).collect();
    let mk = || Res::new(&[1, 2, 3, 4, 5, 6, 7], &[1, 2]);
    let (mut ra, mut rb) = (mk(), mk());
    for call in 0..2 {
        let by_token = ctx.flag();
        let (mut x, mut y) = (base_coll(0), base_coll(0));
        let a = if by_token {
            c.sample_token(&mut ra, &mut x).map_err(|e| err_str(&e))
        } else {
            c.sample(&mut ra, &mut x).map(|_| ()).map_err(|e| err_str(&e)).map(|_| c.sampled_token_id())
        };
        ctx.step();
        let what = format!("{acts:?} nested={nest} call {call} by_token={by_token}");
        ctx.note(|| format!("{what}: {a:?} {}", short(&snap(&x).e)));
        ctx.state(&(&acts, nest, by_token, a.clone()));
        let mut want = Ok(vec![]);
        for i in 0..n {
            let seen: Vec<String> = taken(&logs[i]).into_iter().filter(|m| m.starts_with("sample")).collect();
            if want.is_err() {
                ensure!(seen.is_empty(), "{what}: sampler {i} ran after one had failed: {seen:?}");
                continue;
            }
            ensure!(seen.len() == 1, "{what}: sampler {i} ran {} times: {seen:?}", seen.len());
            // Run the reference in the same way.
            let r = if seen[0].starts_with("sample_token") {
                refs[i].sample_token(&mut rb, &mut y).map(|t| vec![t, refs[i].tok])
            } else {
                refs[i].sample(&mut rb, &mut y).map(|_| ()).map(|_| vec![refs[i].tok, refs[i].tok.map(|t| t + 1000), if acts[i] == 12 { Some(77) } else { refs[i].tok }])
            };
            want = r.map_err(|e| err_str(&e));
            let expect = taken(&rl);
            ensure!(expect.iter().any(|m| *m == seen[0]), "{what}: sampler {i} saw {seen:?}, expected {expect:?}");
        }
        match (&a, &want) {
            (Ok(t), Ok(w)) => ensure!(w.contains(t), "{what}: token {t:?}, expected one of {w:?}"),
            (Err(e), Err(w)) => ensure!(e == w, "{what}: error {e}, expected {w}"),
            _ => return Err(format!("{what}: {a:?}, expected {want:?}")),
        }
        ensure!(snap(&x).same(&snap(&y)), "{what}: {} instead of {}", short(&snap(&x).e), short(&snap(&y).e));
        ensure!(ra.tokens == rb.tokens && ra.rng_calls == rb.rng_calls, "{what}: resources differ");
    }
    Ok(())
}
fn c23_calls(ctx: &mut Ctx) -> R {
    let w = ctx.choose(WRAPS + 1);
    const FINE: [usize; 10] = [0, 1, 2, 3, 4, 5, 9, 10, 11, 12];
    let act = ctx.choose(FINE.len() + ERRS);
    let (act, cut) = if act < FINE.len() { (FINE[act], 0) } else { (act - FINE.len() + ERR0, 1) };
    let n = ctx.range(1, ctx.qt(4, 5) - cut);
    let (la, lb) = (new_log(), new_log());
    let mut bare = Full::new(act, &la);
    // Double wrapping by Box<dyn Sampler> is itself one of the implementations checked.
    let (name, mut boxed) = if w < WRAPS {
        wrap(w, Full::new(act, &lb))
    } else {
        ("concrete types through the collection", Box::new(Full::new(act, &lb)) as Box<dyn Sampler>)
    };
    let mut conc = Full::new(act, &lb);
    let (mut ra, mut rb) = (Res::new(&[1, 2, 3, 4, 5, 6], &[1, 2]), Res::new(&[1, 2, 3, 4, 5, 6], &[1, 2]));
    let (mut x, mut y) = (base_coll(0), base_coll(0));
    let mut path = vec![];
    for _ in 0..n {
        let k = ctx.choose(6);
        if ctx.choose(2) == 1 {
            ra.rng_fault = Fault::Missing;
            rb.rng_fault = Fault::Missing;
        }
        let a = op(ctx, &mut bare, if k >= 4 { k - 4 } else { k }, &mut ra, &mut x);
        let b = match (k, w < WRAPS) {
            (4, true) => op_conv(ctx, &mut boxed, false, &mut rb, &mut y),
            (5, true) => op_conv(ctx, &mut boxed, true, &mut rb, &mut y),
            (4, false) => op_conv(ctx, &mut conc, false, &mut rb, &mut y),
            (5, false) => op_conv(ctx, &mut conc, true, &mut rb, &mut y),
            (_, true) => op(ctx, &mut *boxed, k, &mut rb, &mut y),
            (_, false) => op(ctx, &mut conc, k, &mut rb, &mut y),
        };
        path.push(k);
        let (u, v) = (taken(&la), taken(&lb));
        ctx.note(|| format!("{name} act {act} op {k}: {b} log {v:?}"));
        ensure!(a == b, "{name} act {act} ops {path:?}: bare sampler gives {a}, wrapped {b}");
        ensure!(u == v, "{name} act {act} ops {path:?}: bare sampler saw {u:?}, wrapped {v:?}");
        ensure!(snap(&x).same(&snap(&y)), "{name} act {act} ops {path:?}: collections differ");
        ensure!(ra.tokens == rb.tokens && ra.rng_calls == rb.rng_calls, "{name} act {act} ops {path:?}: resources differ");
        ctx.state(&(w, act, k, a));
    }
    Ok(())
}
/// Calls `f` with the concrete sampler of a spec.
trait Visit {
    fn go<S: BuildableSampler<usize, f32> + Clone>(&mut self, s: S);
}
pub fn visit(sp: &Spec, v: &mut dyn FnMut(&dyn Fn(usize) -> (&'static str, Box<dyn Sampler>))) {
    struct V<'a>(&'a mut dyn FnMut(&dyn Fn(usize) -> (&'static str, Box<dyn Sampler>)));
    impl Visit for V<'_> {
        fn go<S: BuildableSampler<usize, f32> + Clone>(&mut self, s: S) {
            (self.0)(&|i| wrap(i, s.clone()))
        }
    }
    concrete(sp, &mut V(v))
}
fn concrete<V: Visit>(sp: &Spec, v: &mut V) {
    match sp.clone() {
        Spec::TopK(k, m) => v.go(SampleTopK::new(k, m)),
        Spec::TopP(p, m) => v.go(SampleTopP::new(p, m)),
        Spec::MinP(p, m) => v.go(SampleMinP::new(p, m)),
        Spec::TopA(a, b, m) => v.go(SampleTopA::new(a, b, m)),
        Spec::TailFree(z, m) => v.go(SampleTailFree::new(z, m)),
        Spec::Typical(p, m) => v.go(SampleLocallyTypical::new(p, m)),
        Spec::Greedy => v.go(SampleGreedy::new()),
        Spec::Rand => v.go(SampleRandDistrib::new()),
        Spec::Miro1 { .. } => v.go(sp.miro1()),
        Spec::Miro2 { .. } => v.go(sp.miro2()),
        Spec::Rep(p, n) => v.go(SampleRepetition::new(p, n)),
        Spec::FreqPres(f, p, n) => v.go(SampleFreqPresence::new(f, p, n)),
        Spec::Seq { flat, stack, min_length, tol, merge, last_n } => {
            v.go(SampleSeqRepetition::new(flat, stack, min_length, tol, merge, last_n))
        }
        Spec::Bias(b) => v.go(SampleFlatBias::new(b)),
        Spec::Temp(t) => v.go(SampleTemperature::new(t)),
    }
}
fn c23_real(ctx: &mut Ctx) -> R {
    let m = menu();
    let sp = ctx.pick(&m).clone();
    let w = ctx.choose(WRAPS);
    let k = ctx.choose(inputs().len());
    let fault = ctx.choose(3);
    let Some(l) = input_at(k) else { return Ok(()) };
    let mut out = None;
    visit(&sp, &mut |f| out = Some((f(WRAPS), f(w))));
    let ((_, mut bare), (name, mut wrapped)) = out.unwrap();
    let mk = || {
        let mut r = Res::new(&[0x1234_5678, 0xf000_0000, 0x7777_7777], HISTS[k % 3]);
        match fault {
            1 => r.rng_fault = Fault::Fails,
            2 => r.tok_fault = Fault::Missing,
            _ => {}
        }
        r
    };
    let (mut ra, mut rb) = (mk(), mk());
    for round in 0..2 {
        let (mut x, mut y) = (l.clone(), l.clone());
        let a = (bare.sample(&mut ra, &mut x).map(|_| None).map_err(|e| err_str(&e)), snap(&x));
        let ta = bare.sampled_token_id();
        let b = if round == 0 {
            (wrapped.sample(&mut rb, &mut y).map(|_| None).map_err(|e| err_str(&e)), snap(&y))
        } else {
            let o = obs(&mut *wrapped, &mut rb, &mut y);
            if let Ok(t) = &o.0 {
                ensure!(*t == ta, "{sp:?} in {name}: returns token {t:?}, bare {ta:?}");
            }
            (o.0.map(|_| None), o.1)
        };
        let tb = wrapped.sampled_token_id();
        ctx.steps(2);
        ctx.state(&a.1);
        ctx.note(|| format!("{sp:?} in {name}: {} token {tb:?}", show(&b)));
        ensure!(same_obs(&a, &b) && ta == tb, "{sp:?} in {name} on {:?}: bare {} {ta:?}, wrapped {} {tb:?}", inputs()[k], show(&a), show(&b));
        ensure!(ra.rng_calls == rb.rng_calls && ra.tok_calls == rb.tok_calls, "{sp:?} in {name}: resources used differently");
    }
    Ok(())
}
fn c23_poison(ctx: &mut Ctx) -> R {
    let how = ctx.choose(3); // panic in sample / prepend / token
    let via_token = ctx.flag();
    let log = new_log();
    let act = [6usize, 7, 8][how];
    let nest = ctx.choose(3);
    let inner: Arc<Mutex<dyn Sampler>> = match nest {
        0 => Arc::new(Mutex::new(Full::new(act, &log))),
        1 => Arc::new(Mutex::new(Box::new(Full::new(act, &log)) as Box<dyn Sampler>)),
        _ => Arc::new(Mutex::new(SamplerChain::new() + Full::new(act, &log))),
    };
    let mut h1 = inner.clone();
    let mut h2: Box<dyn Sampler> = Box::new(inner.clone());
    let mut chain = SamplerChain::new() + inner.clone();
    let mut r = Res::new(&[1, 2], &[1]);
    let mut l = base_coll(0);
    // Some call panics while the lock is held.
    let p = catch_unwind(AssertUnwindSafe(|| {
        let mut r = Res::new(&[1, 2], &[1]);
        let mut l = base_coll(0);
        match how {
            0 => {
                if via_token {
                    let _ = h1.sample_token(&mut r, &mut l);
                } else {
                    let _ = h1.sample(&mut r, &mut l);
                }
            }
            1 => h1.sample_prepend(&mut r),
            _ => {
                let _ = h1.sampled_token_id();
            }
        }
    }));
    if p.is_ok() {
        // The probe could not be reached that way (a chain answers the token itself).
        ensure!(nest == 2 && how == 2, "the probe was not called: nest {nest} how {how}");
        return Ok(());
    }
    ctx.step();
    ensure!(inner.is_poisoned(), "lock not poisoned by a panicking holder");
    let _ = taken(&log);
    let mut path = vec![];
    for _ in 0..3 {
        let k = ctx.choose(4);
        let who = ctx.choose(3);
        path.push((k, who));
        let b = snap(&l);
        let o = catch_unwind(AssertUnwindSafe(|| {
            let s: &mut dyn Sampler = match who {
                0 => &mut h1,
                1 => &mut h2,
                _ => &mut chain,
            };
            match k {
                0 => s.sample(&mut r, &mut l).map(|_| None).map_err(|e| err_str(&e)),
                1 => s.sample_token(&mut r, &mut l).map_err(|e| err_str(&e)),
                2 => Ok(s.sampled_token_id()),
                _ => {
                    s.sample_prepend(&mut r);
                    Ok(None)
                }
            }
        }));
        ctx.step();
        ctx.note(|| format!("after poisoning (how {how}, nest {nest}) ops {path:?}: {o:?}"));
        let Ok(o) = o else { return Err(format!("operation {k} (handle {who}) on a poisoned shared sampler panicked: {}", last_panic())) };
        match k {
            0 | 1 => ensure!(o.is_err(), "sampling through a poisoned lock (handle {who}) returned {o:?}"),
            2 => ensure!(o == Ok(None), "reading the token through a poisoned lock (handle {who}) returned {o:?}"),
            _ => {}
        }
        ensure!(snap(&l).same(&b), "a failing call on a poisoned lock changed the collection");
        ctx.state(&(how, nest, k, who));
    }
    Ok(())
}
fn c23_shared(ctx: &mut Ctx) -> R {
    let sps = [
        Spec::Greedy,
        Spec::Rand,
        Spec::Miro1 { n_vocab: 30, tau: 2.0, eta: 0.2, m: 100, mu: None },
        Spec::Miro2 { tau: 1.0, eta: 0.5, mu: Some(1.25) },
    ];
    let sp = ctx.pick(&sps).clone();
    let mut bare = sp.make();
    let mut out: Option<Arc<Mutex<dyn Sampler>>> = None;
    struct V<'a>(&'a mut Option<Arc<Mutex<dyn Sampler>>>);
    impl Visit for V<'_> {
        fn go<S: BuildableSampler<usize, f32> + Clone>(&mut self, s: S) {
            *self.0 = Some(Arc::new(Mutex::new(s)));
        }
    }
    concrete(&sp, &mut V(&mut out));
    let arc = out.unwrap();
    let mut hs = [arc.clone(), arc.clone(), arc];
    let n = ctx.range(1, ctx.qt(4, 5));
    let (mut ra, mut rb) = (Res::new(&[0x1000_0000, 0xa000_0000, 0x6000_0000, 0xf000_0000], &[1]), Res::new(&[0x1000_0000, 0xa000_0000, 0x6000_0000, 0xf000_0000], &[1]));
    for _ in 0..n {
        let h = ctx.choose(3);
        let k = ctx.choose(4);
        let i = ctx.choose(2);
        let (mut x, mut y) = (input_at(i).unwrap(), input_at(i).unwrap());
        let a = op(ctx, &mut *bare, k, &mut ra, &mut x);
        let b = op(ctx, &mut hs[h], k, &mut rb, &mut y);
        ctx.note(|| format!("{sp:?} handle {h} op {k}: {b}"));
        ctx.state(&(h, k, b.clone()));
        ensure!(a == b && snap(&x).same(&snap(&y)), "{sp:?} handle {h} op {k}: bare {a}, shared {b}");
    }
    for h in &hs {
        ensure!(h.sampled_token_id() == bare.sampled_token_id(), "{sp:?}: a handle reads {:?}, bare {:?}", h.sampled_token_id(), bare.sampled_token_id());
    }
    Ok(())
}

// ------------------------------------------------------------------ C25

pub fn needy() -> Vec<(Spec, bool)> {
    use Spec::*;
    // (spec, needs the random source rather than the history)
    vec![
        (Rand, true),
        (Miro1 { n_vocab: 30, tau: 2.0, eta: 0.2, m: 100, mu: None }, true),
        (Miro1 { n_vocab: 9, tau: 1.0, eta: 0.5, m: 3, mu: Some(1.0) }, true),
        (Miro2 { tau: 2.0, eta: 0.2, mu: None }, true),
        (Miro2 { tau: 1.0, eta: 0.5, mu: Some(0.1) }, true),
        (Rep(1.5, 64), false),
        (Rep(3.0, 1), false),
        (FreqPres(0.5, 0.0, 64), false),
        (FreqPres(0.0, -0.75, 3), false),
        (Seq { flat: 1.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 }, false),
        (Seq { flat: 0.0, stack: 0.5, min_length: 3, tol: 2, merge: 3, last_n: 64 }, false),
    ]
}
pub fn get_mu(s: &DynB) -> Option<u64> {
    match s.get_option("mu") {
        Ok(SamplerOptionValue::Float(f)) => Some(f.to_bits()),
        _ => None,
    }
}
fn c25_hist(ctx: &mut Ctx) -> R {
    faults(ctx, None, 0)
}
fn c25_kinds(ctx: &mut Ctx) -> R {
    // Failing before the closure runs, only after, or only at the first access.
    let err = ctx.range(1, 3 * ERRS - 1);
    faults(ctx, None, err)
}
fn c25_long(ctx: &mut Ctx) -> R {
    let plan = periodic(ctx, 21, 2, 200);
    faults(ctx, Some(plan), 0)
}
/// All short histories of events, or the given long one.
pub fn faults(ctx: &mut Ctx, long: Option<Vec<usize>>, err: usize) -> R {
    let ns = needy();
    let (sp, rng) = ctx.pick(&ns).clone();
    let mut s: DynB = sp.make_cfg();
    let mut twin: DynB = sp.make_cfg();
    let depth = ctx.qt(4, 5) - (err > 0) as usize;
    let need = if rng { "rng" } else { "last_tokens" };
    let mut path = vec![];
    let long = long.map(|mut plan| {
        // After the cycle, one call that works.
        plan.push(0);
        plan
    });
    for d in 0..long.as_ref().map_or(depth, |p| p.len()) {
        let (ev, k) = match &long {
            Some(plan) => (plan[d] / 3, plan[d] % 3),
            None => (ctx.choose(7), ctx.choose(3)),
        };
        if path.len() > 300 {
            path.drain(..290);
        }
        path.push((ev, k));
        let Some(mut l) = input_at([0, 3, 6][k]) else { continue };
        let b = snap(&l);
        let word = [0x2000_0000u32, 0xd000_0000][d % 2];
        if ev < 2 {
            // The resource is there; the twin sees the same call.
            let mut m = l.clone();
            let mut r = Res::new(&[word], HISTS[ev]);
            let mut q = Res::new(&[word], HISTS[ev]);
            let x = obs(&mut s, &mut r, &mut l);
            let y = obs(&mut twin, &mut q, &mut m);
            ctx.step();
            ctx.note(|| format!("{sp:?} ok call: {}", show(&x)));
            ctx.state(&x.1);
            ensure!(x.0.is_ok(), "{sp:?} {path:?}: fails with its resource present: {:?}", x.0);
            ensure!(same_obs(&x, &y), "{sp:?} {path:?}: after failed calls gives {}, without them {}", show(&x), show(&y));
            ensure!(get_mu(&s) == get_mu(&twin), "{sp:?} {path:?}: mu differs from the twin's");
            continue;
        }
        let mu = get_mu(&s);
        let miss = format!("MissingResource(\"{need}\")");
        let (o, want): (Result<Option<u32>, String>, String) = match ev {
            2 => {
                let mut r = Res::new(&[word], HISTS[0]);
                if rng {
                    r.rng_fault = Fault::Missing
                } else {
                    r.tok_fault = Fault::Missing
                }
                (s.sample_token(&mut r, &mut l).map_err(|e| err_str(&e)), miss)
            }
            3 => {
                let mut r = Res::new(&[word], HISTS[0]);
                r.err = err;
                if rng {
                    r.rng_fault = Fault::Fails
                } else {
                    r.tok_fault = Fault::Fails
                }
                let w = err_str(&err_of(err, if rng { RNG_FAIL } else { TOK_FAIL }));
                (s.sample_token(&mut r, &mut l).map_err(|e| err_str(&e)), w)
            }
            4 => (s.sample_token(&mut (), &mut l).map_err(|e| err_str(&e)), miss),
            5 => (s.sample(&mut NilSamplerResources::new(), &mut l).map(|_| None).map_err(|e| err_str(&e)), miss),
            _ => {
                let mut r = if rng {
                    SimpleSamplerResources::new(None, Some(vec![1, 2, 1]))
                } else {
                    SimpleSamplerResources::new(Some(Box::new(ScriptRng::new(&[word]))), None)
                };
                (s.sample_token(&mut r, &mut l).map_err(|e| err_str(&e)), miss)
            }
        };
        ctx.step();
        let a = snap(&l);
        ctx.note(|| format!("{sp:?} faulty call {ev}: {o:?} {}", short(&a.e)));
        ctx.state(&(hash_of(&a), ev));
        match &o {
            Ok(t) => return Err(format!("{sp:?} {path:?}: succeeded ({t:?}) without {need}, fault {ev}")),
            Err(e) => ensure!(*e == want, "{sp:?} {path:?}: error {e}, expected {want}"),
        }
        ensure!(s.sampled_token_id().is_none(), "{sp:?} {path:?}: failed call selected token {:?}", s.sampled_token_id());
        ensure!(get_mu(&s) == mu, "{sp:?} {path:?}: failed call changed mu");
        if !rng {
            ensure!(a.same(&b), "{sp:?} {path:?}: failed call changed the collection: {} -> {}", short(&b.e), short(&a.e));
        } else {
            sub_collection(&b.e, &a.e).map_err(|m| format!("{sp:?} {path:?}: {m}"))?;
        }
    }
    Ok(())
}
fn free() -> Vec<Spec> {
    use Spec::*;
    let s = |flat, stack, min_length, last_n| Seq { flat, stack, min_length, tol: 1, merge: 2, last_n };
    vec![
        TopK(2, 1),
        TopK(0, 0),
        TopP(0.7, 1),
        MinP(0.2, 1),
        MinP(0.0, 1),
        TopA(0.6, 2.0, 1),
        TopA(0.0, 0.0, 1),
        TailFree(0.6, 1),
        TailFree(1.0, 1),
        Typical(0.6, 1),
        Greedy,
        Bias(vec![(1, NINF), (4, 3.0)]),
        Bias(vec![]),
        Temp(0.5),
        Temp(-2.0),
        Temp(0.0),
        Rep(1.0, 64),
        Rep(0.5, 64),
        Rep(0.0, 64),
        Rep(-3.0, 64),
        Rep(1.5, 0),
        FreqPres(0.0, 0.0, 64),
        FreqPres(0.5, 0.5, 0),
        FreqPres(-0.0, 0.0, 1),
        s(0.0, 0.0, 3, 64),
        s(1.0, 1.0, 0, 64),
        s(1.0, 1.0, 1, 64),
        s(1.0, 1.0, 5, 4),
        s(1.0, 1.0, 2, 0),
        s(1.0, 1.0, usize::MAX, 64),
    ]
}
fn c25_free(ctx: &mut Ctx) -> R {
    let f = free();
    let sp = ctx.pick(&f).clone();
    let k = ctx.choose(inputs().len());
    let Some(l) = input_at(k) else { return Ok(()) };
    let mut x = l.clone();
    let a = obs(&mut *sp.make(), &mut Res::new(&[5], HISTS[0]), &mut x);
    for q in 0..5 {
        let mut y = l.clone();
        let mut s = sp.make();
        let mut fr = Res::new(&[5], HISTS[0]);
        fr.rng_fault = Fault::Fails;
        fr.tok_fault = Fault::Fails;
        let b = match q {
            0 => obs(&mut *s, &mut (), &mut y),
            1 => obs(&mut *s, &mut NilSamplerResources::default(), &mut y),
            2 => obs(&mut *s, &mut fr, &mut y),
            3 => obs(&mut *s, &mut SimpleSamplerResources::new(None, None), &mut y),
            _ => obs(&mut *s, &mut SimpleSamplerResources::new(None, Some(vec![9, 9])), &mut y),
        };
        ctx.step();
        ctx.state(&b.1);
        ctx.note(|| format!("{sp:?} without resources ({q}): {}", show(&b)));
        ensure!(b.0.is_ok(), "{sp:?} on {:?} needs no resource but fails without ({q}): {:?}", inputs()[k], b.0);
        ensure!(same_obs(&a, &b), "{sp:?} on {:?}: without resources ({q}) gives {}, with {}", inputs()[k], show(&b), show(&a));
    }
    Ok(())
}
fn c25_chain(ctx: &mut Ctx) -> R {
    let ns = needy();
    let i = ctx.choose(ns.len());
    let j = ctx.choose(ns.len());
    let mk = || SamplerChain::new() + ns[i].0.make() + ns[j].0.make();
    let (mut c, mut t) = (mk(), mk());
    let f = ctx.choose(1 + 3 * ERRS);
    let fault = if f == 0 { Fault::Missing } else { Fault::Fails };
    let err = f.saturating_sub(1);
    let rng = ctx.flag();
    let k = ctx.choose(3);
    let Some(l) = input_at([0, 3, 6][k]) else { return Ok(()) };
    let first = ctx.flag();
    let words = [0x2000_0000u32, 0xd000_0000];
    if first {
        let (mut x, mut y) = (l.clone(), l.clone());
        let _ = c.sample_token(&mut Res::new(&words, HISTS[0]), &mut x);
        let _ = t.sample_token(&mut Res::new(&words, HISTS[0]), &mut y);
    }
    let uses = |b: bool| b == rng;
    let mut r = Res::new(&words, HISTS[1]);
    r.err = err;
    if rng {
        r.rng_fault = fault
    } else {
        r.tok_fault = fault
    }
    let mut x = l.clone();
    let by_sample = ctx.flag();
    let o = obs_by(&mut c, &mut r, &mut x, by_sample);
    ctx.step();
    ctx.note(|| format!("{:?} + {:?}: {}", ns[i].0, ns[j].0, show(&o)));
    ctx.state(&(i, j, o.0.clone()));
    if !uses(ns[i].1) && !uses(ns[j].1) {
        ensure!(o.0.is_ok(), "{:?} + {:?}: fails though its resources are there: {:?}", ns[i].0, ns[j].0, o.0);
        return Ok(());
    }
    let want = match fault {
        Fault::Missing => format!("MissingResource(\"{}\")", if rng { "rng" } else { "last_tokens" }),
        _ => err_str(&err_of(err, if rng { RNG_FAIL } else { TOK_FAIL })),
    };
    ensure!(o.0 == Err(want.clone()), "{:?} + {:?}: {:?}, expected error {want}", ns[i].0, ns[j].0, o.0);
    ensure!(c.sampled_token_id().is_none() || !ns[j].0.selects(), "{:?} + {:?}: failed call reports token {:?}", ns[i].0, ns[j].0, c.sampled_token_id());
    // The samplers before the failing one did run; otherwise the failed call left nothing behind.
    if uses(ns[i].1) || !ns[i].0.selects() {
        let (mut x, mut y) = (l.clone(), l.clone());
        let a = obs_by(&mut c, &mut Res::new(&words, HISTS[2]), &mut x, by_sample);
        let b = obs(&mut t, &mut Res::new(&words, HISTS[2]), &mut y);
        ctx.step();
        ensure!(same_obs(&a, &b), "{:?} + {:?}: after the failed call gives {}, without it {}", ns[i].0, ns[j].0, show(&a), show(&b));
    }
    Ok(())
}

// ------------------------------------------------------------------ C27

pub fn temp_stages(var: usize) -> Vec<Spec> {
    use Spec::*;
    match var {
        0 => vec![
            Bias(vec![(1, NINF), (3, NINF), (0, 2.0), (50, NINF)]),
            Rep(1.1, 64),
            FreqPres(0.05, 0.1, 64),
            TopK(40, 1),
            TailFree(0.95, 1),
            Typical(0.9, 1),
            TopP(0.9, 1),
            MinP(0.05, 1),
            Temp(0.8),
        ],
        1 => vec![
            Bias(vec![(0, NINF), (2, NINF), (1, NINF)]),
            Rep(3.0, 2),
            FreqPres(-1.0, 0.5, 1),
            TopK(1, 1),
            TailFree(0.01, 1),
            Typical(0.05, 1),
            TopP(0.01, 1),
            MinP(1.0, 1),
            Temp(0.05),
        ],
        2 => vec![
            Bias(vec![(2, 100.0), (1, -100.0), (0, NINF)]),
            Rep(1e6, usize::MAX),
            FreqPres(10.0, -20.0, usize::MAX),
            TopK(3, 2),
            TailFree(0.5, 3),
            Typical(0.5, 2),
            TopP(0.5, 2),
            MinP(0.5, 2),
            Temp(30.0),
        ],
        3 => vec![
            Bias(vec![]),
            Rep(1.0, 64),
            FreqPres(0.0, 0.0, 64),
            TopK(usize::MAX, 1),
            TailFree(1.0, 1),
            Typical(1.0, 1),
            TopP(1.0, 1),
            MinP(0.0, 1),
            Temp(1.0),
        ],
        4 => vec![
            Bias(vec![(0, NINF), (1, NINF), (2, NINF), (3, NINF)]),
            Rep(2.0, 1),
            FreqPres(2.0, 2.0, 2),
            TopK(2, 5),
            TailFree(0.3, 5),
            Typical(0.3, 5),
            TopP(0.3, 5),
            MinP(0.3, 5),
            Temp(0.5),
        ],
        5 => vec![
            Bias(vec![(3, NINF)]),
            Rep(1.5, 3),
            FreqPres(0.3, 0.0, 3),
            TopK(5, 1),
            TailFree(0.0, 1),
            Typical(0.0, 1),
            TopP(0.0, 1),
            MinP(0.999, 1),
            Temp(1e-3),
        ],
        6 => vec![
            Bias(vec![(1, 5.0), (2, NINF)]),
            Rep(1.2, 5),
            FreqPres(0.0, 1.0, 5),
            TopK(10, usize::MAX),
            TailFree(0.7, usize::MAX),
            Typical(0.7, usize::MAX),
            TopP(0.7, usize::MAX),
            MinP(0.7, usize::MAX),
            Temp(1e4),
        ],
        _ => vec![
            Bias(vec![(0, NINF), (4, -3.0)]),
            Rep(1.0001, 4),
            FreqPres(1e-3, 1e-3, 4),
            TopK(0, 1),
            TailFree(0.9, 1),
            Typical(0.99, 1),
            TopP(0.99, 1),
            MinP(0.001, 1),
            Temp(2.0),
        ],
    }
}
const N27: usize = 11;
fn in27(k: usize) -> Vec<f32> {
    match k {
        0 => shape("shuf", 8),
        1 => shape("ties", 5),
        2 => shape("forbid3", 11),
        3 => vec![0.5, 0.25, 9.0, 0.0, 0.125, -3.0],
        4 => shape("zipf", 60),
        5 => shape("steep", 30),
        6 => vec![100.0, -100.0, 0.0, 88.0, 99.9],
        7 => shape("peak", 21),
        8 => vec![0.0, 0.0, 0.0, 0.0, 1.0, 0.0],
        9 => shape("flat4", 9),
        _ => vec![-1e4, -2e4, -1e4, -3e4, -1.5e4, -9e3],
    }
}
pub struct Chain27 {
    pub specs: Vec<Spec>,
    forbid: Vec<u32>,
}
impl Chain27 {
    pub fn new(specs: Vec<Spec>) -> Self {
        let mut forbid = vec![];
        for s in &specs {
            if let Spec::Bias(b) = s {
                forbid.extend(b.iter().filter(|x| x.1 == NINF).map(|x| x.0));
            }
        }
        Chain27 { specs, forbid }
    }
    fn make(&self) -> SamplerChain {
        let mut c = SamplerChain::new();
        for s in &self.specs {
            c += s.make();
        }
        c
    }
    /// The preconditions of the property: some token allowed, logits finite after every stage.
    pub fn applies(&self, v: &[f32], hist: &[u32]) -> bool {
        if !v.iter().enumerate().any(|(i, x)| x.is_finite() && !self.forbid.contains(&(i as u32))) {
            return false;
        }
        let mut w = v.to_vec();
        for s in &self.specs {
            match s {
                Spec::Bias(b) => b.iter().for_each(|(t, x)| {
                    if let Some(y) = w.get_mut(*t as usize) {
                        *y += x
                    }
                }),
                Spec::Rep(p, n) if *p > 1.0 => {
                    for t in &hist[hist.len() - (*n).min(hist.len())..] {
                        if let Some(y) = w.get_mut(*t as usize) {
                            *y *= p
                        }
                    }
                }
                Spec::Temp(t) => w.iter_mut().for_each(|y| *y /= t),
                _ => {}
            }
        }
        v.iter().zip(&w).enumerate().all(|(i, (x, y))| !x.is_finite() || self.forbid.contains(&(i as u32)) || y.abs() < 1e37)
    }
    /// Runs generation steps; every token must be allowed. Returns the tokens.
    pub fn run(&self, ctx: &mut Ctx, v: &[f32], hist: &[u32], words: &[u32], steps: usize, simple: bool) -> Result<Vec<u32>, String> {
        let mut c = self.make();
        let mut res = Res::new(words, hist);
        let mut sres = SimpleSamplerResources::new(Some(Box::new(ScriptRng::new(words))), Some(hist.to_vec()));
        let mut out = vec![];
        for st in 0..steps {
            let mut l = Logits::try_from_iter(v.iter().copied()).map_err(|e| e.to_string())?;
            let o = if simple { c.sample_token(&mut sres, &mut l) } else { c.sample_token(&mut res, &mut l) };
            ctx.step();
            let what = || format!("{:?} on {:?} history {hist:?} words {words:x?} step {st}", self.specs, &v[..v.len().min(12)]);
            let t = match o {
                Err(e) => return Err(format!("{}: failed: {}", what(), err_str(&e))),
                Ok(None) => return Err(format!("{}: no token", what())),
                Ok(Some(t)) => t,
            };
            ensure!((t as usize) < v.len(), "{}: token {t} is not in the input", what());
            ensure!(!self.forbid.contains(&t), "{}: token {t} is forbidden by the bias list", what());
            ensure!(v[t as usize] != NINF, "{}: token {t} had logit -inf", what());
            if simple {
                sres.with_last_tokens_mut(&mut |x| x.push(t)).map_err(|e| err_str(&e))?;
            } else {
                res.with_last_tokens_mut(&mut |x| x.push(t)).map_err(|e| err_str(&e))?;
            }
            ctx.state(&(hash_of(&snap(&l)), t));
            out.push(t);
        }
        Ok(out)
    }
}
const H27: &[&[u32]] = &[&[1, 2, 3, 1, 2], &[], &[0, 0, 0, 4, 4, 7, 0], &[5]];
fn c27_temp(ctx: &mut Ctx) -> R {
    let var = ctx.choose(8);
    let mask = ctx.choose(512);
    let fin = if ctx.flag() { Spec::Greedy } else { Spec::Rand };
    let k = ctx.choose(N27);
    let h = ctx.choose(H27.len());
    let st = temp_stages(var);
    let mut specs: Vec<Spec> = (0..9).filter(|i| mask >> i & 1 == 1).map(|i| st[i].clone()).collect();
    let greedy = fin == Spec::Greedy;
    specs.push(fin);
    let c = Chain27::new(specs);
    let v = in27(k);
    let hist = H27[h];
    if !c.applies(&v, hist) {
        return Ok(());
    }
    let words: &[u32] = if greedy { &[0] } else { ctx.qt(&[0, 1 << 9, 0x5000_0000, 0x8000_0000, 0xd000_0000, u32::MAX], &[0, 1 << 9, 0x2000_0000, 0x8000_0000, 0xe000_0000, u32::MAX - (1 << 9), u32::MAX]) };
    for w in words {
        let a = c.run(ctx, &v, hist, &[*w], 1, false)?;
        let b = c.run(ctx, &v, hist, &[*w], 1, true)?;
        ctx.note(|| format!("{:?} on {:?} word {w:x}: {a:?}", c.specs, &v[..v.len().min(6)]));
        ensure!(a == b, "{:?}: the same input, history and word give {a:?} and then {b:?}", c.specs);
    }
    Ok(())
}
fn c27_miro(ctx: &mut Ctx) -> R {
    let var = ctx.choose(6);
    let mask = ctx.choose(16);
    let two = ctx.flag();
    let k = ctx.choose(N27);
    let h = ctx.choose(H27.len());
    let st = temp_stages(var % 4);
    let mut specs: Vec<Spec> = [0usize, 1, 2, 8].iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, s)| st[*s].clone()).collect();
    let v = in27(k);
    let (tau, eta, mu) = [(5.0f32, 0.1f32, None), (2.0, 0.5, None), (0.1, 1.0, None), (10.0, 0.1, Some(20.0)), (3.0, 0.1, Some(0.0)), (1.0, 0.9, Some(-2.0))][var];
    specs.push(if two {
        Spec::Miro2 { tau, eta, mu }
    } else {
        Spec::Miro1 { n_vocab: v.len(), tau, eta, m: [100, 5, 2][var % 3], mu }
    });
    let c = Chain27::new(specs);
    let hist = H27[h];
    if !c.applies(&v, hist) {
        return Ok(());
    }
    let ws: [u32; 4] = [0x4000_0000, 0, u32::MAX, 0xc000_0000];
    let words = [*ctx.pick(&ws), *ctx.pick(&ws), *ctx.pick(&ws)];
    let a = c.run(ctx, &v, hist, &words, 3, false)?;
    let b = c.run(ctx, &v, hist, &words, 3, true)?;
    ctx.note(|| format!("{:?} on {:?} words {words:x?}: {a:?}", c.specs, &v[..v.len().min(6)]));
    ensure!(a == b, "{:?}: the same input, history and words give {a:?} and then {b:?}", c.specs);
    Ok(())
}
fn c27_sizes(ctx: &mut Ctx) -> R {
    const BIG: [usize; 12] = [255, 256, 257, 1000, 1024, 4096, 4097, 32000, 65535, 65536, 65537, 131072];
    let small = ctx.qt(160, 600);
    let i = ctx.choose(small + BIG.len());
    let n = if i < small { i + 1 } else { BIG[i - small] };
    let kind = *ctx.pick(&["shuf", "zipf", "forbid3", "flat4"]);
    let var = [0usize, 4, 7][ctx.choose(3)];
    let fin = ctx.choose(4);
    let m = ctx.choose(20);
    if n > 5000 && (m + fin + var + i) % ctx.qt(10, 3) != 0 {
        return Ok(());
    }
    let mask = match m {
        0 => 0,
        1..=9 => 1 << (m - 1),
        10 => 511,
        _ => 511 & !(1 << (m - 11)),
    };
    let st = temp_stages(var);
    let mut specs: Vec<Spec> = (0..9).filter(|i| mask >> i & 1 == 1).map(|i| st[i].clone()).collect();
    specs.push(match fin {
        0 => Spec::Greedy,
        1 => Spec::Rand,
        2 => Spec::Miro1 { n_vocab: n.max(2), tau: 5.0, eta: 0.1, m: 100, mu: None },
        _ => Spec::Miro2 { tau: 5.0, eta: 0.1, mu: None },
    });
    let c = Chain27::new(specs);
    let v = shape(kind, n);
    let n32 = n as u32;
    let hist: Vec<u32> = [1, 2, 3, 0, 1, 2, 3, 5, 1, 2].iter().map(|d| (n32 - 1).saturating_sub(*d) % n32).collect();
    if !c.applies(&v, &hist) {
        return Ok(());
    }
    ctx.state(&(n, kind, m, fin));
    for w in [0, 0x8000_0000, u32::MAX] {
        let a = c.run(ctx, &v, &hist, &[w], 1, false)?;
        let b = c.run(ctx, &v, &hist, &[w], 1, true)?;
        ensure!(a == b, "{:?} on {kind}({n}): the same input, history and word give {a:?} and then {b:?}", c.specs);
    }
    Ok(())
}
fn c27_gen(ctx: &mut Ctx) -> R {
    let mask = ctx.choose(512);
    let k = [0usize, 2, 4, 8][ctx.choose(4)];
    let var = *ctx.pick(&[0usize, 4]);
    let st = temp_stages(var);
    let mut specs: Vec<Spec> = (0..9).filter(|i| mask >> i & 1 == 1).map(|i| st[i].clone()).collect();
    specs.push(Spec::Rand);
    let c = Chain27::new(specs);
    let v = in27(k);
    if !c.applies(&v, &[]) {
        return Ok(());
    }
    let ws: [u32; 3] = [0x1000_0000, 0x9000_0000, u32::MAX];
    let words = [*ctx.pick(&ws), *ctx.pick(&ws), *ctx.pick(&ws)];
    let a = c.run(ctx, &v, &[], &words, 5, true)?;
    ctx.note(|| format!("{:?}: {a:?}", c.specs));
    let b = c.run(ctx, &v, &[], &words, 5, false)?;
    ensure!(a == b, "{:?}: the same run gives {a:?} and then {b:?}", c.specs);
    Ok(())
}

// ------------------------------------------------------------------ C33

/// One call of the event alphabet.
///
/// Events 6 to 9 are look-alikes: the same number of candidates, the same best logit and
/// probability and histories of the same length and ends, but a different rest.
pub fn event(ctx: &mut Ctx, s: &mut dyn Sampler, ev: usize) -> Obs {
    ctx.step();
    if ev >= 6 {
        let mut l = alike(ev - 6);
        return obs(s, &mut Res::new(&[0x3000_0000], ALIKE_HISTS[(ev - 6) % 3]), &mut l);
    }
    let mut r = Res::new(&[[0x3000_0000u32, 0xb000_0000, 0xe800_0000][ev % 3]], HISTS[ev % 3]);
    let mut l = match ev {
        0 => input_at(0).unwrap(),
        1 => input_at(1).unwrap(),
        2 => input_at(3).unwrap(),
        3 => Logits::default(),
        _ => input_at(6).unwrap(),
    };
    if ev == 4 {
        r.rng_fault = Fault::Fails;
        r.tok_fault = Fault::Missing;
    }
    if ev == 5 {
        l = input_at(5).unwrap();
    }
    obs(s, &mut r, &mut l)
}
const ALIKE_HISTS: &[&[u32]] = &[&[1, 2, 3, 1, 2], &[1, 3, 2, 1, 2], &[1, 2, 4, 0, 2]];
fn alike(k: usize) -> Logits {
    let q = 0.25f32.ln();
    let v: [[f32; 5]; 4] = [
        [0.0, 0.0, -120.0, -120.0, -120.0],
        [0.0, q, q, q, q],
        [q, q, 0.0, q, q],
        [0.0, 0.5f32.ln(), q, q, -200.0],
    ];
    Logits::try_from_iter(v[k % 4]).unwrap()
}
const FINALS: usize = 14;
fn final_event(s: &mut dyn Sampler, k: usize) -> Obs {
    if k >= 9 {
        // Other histories: nothing, one token, a resource that is missing.
        let mut r = Res::new(&[0x6000_0000], [&[][..], &[], &[1], &[0, 2, 0, 2], &[1, 2, 3, 1, 2]][k - 9]);
        if k == 13 {
            r.tok_fault = Fault::Missing;
            r.rng_fault = Fault::Missing;
        }
        return obs(s, &mut r, &mut input_at([0, 5, 0, 5, 1][k - 9]).unwrap());
    }
    if k >= 5 {
        return obs(s, &mut Res::new(&[0x3000_0000], ALIKE_HISTS[k % 3]), &mut alike(k - 5));
    }
    let mut l = match k {
        0 => input_at(1).unwrap(),
        1 => input_at(6).unwrap(),
        2 => input_at(2).unwrap(),
        3 => input_at(7).unwrap(),
        _ => Logits::default(),
    };
    obs(s, &mut Res::new(&[0x6000_0000], HISTS[(k + 1) % 3]), &mut l)
}
pub fn with_mu(sp: &Spec, s: &DynB) -> Result<Spec, String> {
    let mut x = sp.clone();
    if let Ok(SamplerOptionValue::Float(mu)) = s.get_option("mu") {
        match &mut x {
            Spec::Miro1 { mu: a, .. } | Spec::Miro2 { mu: a, .. } => *a = Some(mu as f32),
            _ => return Err(format!("{sp:?} has an option mu")),
        }
    }
    Ok(x)
}
fn c33_long(ctx: &mut Ctx) -> R {
    let m = more();
    let sp = ctx.pick(&m).clone();
    let plan = periodic(ctx, 10, 2, 300);
    let mut s: DynB = sp.make_cfg();
    for (d, ev) in plan.iter().enumerate() {
        let mut fresh: DynB = with_mu(&sp, &s)?.make_cfg();
        let a = event(ctx, &mut s, *ev);
        let b = event(ctx, &mut fresh, *ev);
        if d < 3 {
            ctx.state(&(hash_of(&a.1), a.0.clone()));
            ctx.note(|| format!("{sp:?} call {d}: {}", show(&a)));
        }
        let what = || format!("{sp:?} after {d} calls {:?}..", &plan[..2.min(d)]);
        ensure!(same_obs(&a, &b), "{} gives {}, a fresh one {}", what(), show(&a), show(&b));
        ensure!(s.sampled_token_id() == fresh.sampled_token_id(), "{}: token differs from a fresh one's", what());
    }
    Ok(())
}
/// Used on look-alikes, then compared with a fresh one.
fn c33_alike(ctx: &mut Ctx) -> R {
    let m = more();
    let mut sp = ctx.pick(&m).clone();
    let hists = matches!(sp, Spec::Rep(..) | Spec::FreqPres(..) | Spec::Seq { .. });
    let (l, h, what, _w) = if hists && ctx.flag() {
        let (h, w) = reused_hist(ctx, &reuse_hists());
        if h.len() > 150 {
            // All of a long history.
            match &mut sp {
                Spec::Rep(_, n) | Spec::FreqPres(_, _, n) => *n = 5000,
                _ => (),
            }
        }
        let l = Logits::try_from_iter((0..12).map(|i| if i == 9 { NINF } else { ((i * 5) % 12) as f32 - 4.5 })).unwrap();
        let what = format!("history {:?}..", &h[..h.len().min(12)]);
        (l, h, what, w)
    } else {
        let Some(r) = reused(ctx) else { return Ok(()) };
        (r.l, vec![1, 2, 3, 1, 2], r.what, r._w)
    };
    let mut s: DynB = sp.make_cfg();
    warm_up(&mut s, &l, &h);
    let mut fresh: DynB = with_mu(&sp, &s)?.make_cfg();
    let words: &[u32] = if matches!(sp, Spec::Rand) { &[0x3000_0000, 0x7000_0000, 0x9000_0000, 0xb000_0000, 0xd000_0000, 0xf000_0000] } else { &[0x9000_0000] };
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            warm_up(&mut s, &l, &h);
        }
        let a = obs(&mut s, &mut Res::new(&[*w], &h), &mut l.clone());
        // On a thread of its own, which shares nothing that is kept per thread.
        let (f, h2, l2) = (&mut fresh, &h, &l);
        let run = move || obs(f, &mut Res::new(&[*w], h2), &mut l2.clone());
        let b = std::thread::scope(|t| t.spawn(run).join().unwrap_or_else(|e| std::panic::resume_unwind(e)));
        ctx.steps(2);
        ctx.state(&(hash_of(&a.1), a.0.clone()));
        ctx.note(|| format!("{sp:?} {what}: {}", show(&a)));
        ensure!(same_obs(&a, &b), "{sp:?} {what} gives {}, a fresh one {}", show(&a), show(&b));
        ensure!(s.sampled_token_id() == fresh.sampled_token_id(), "{sp:?} {what}: token differs from a fresh one's");
    }
    if hists {
        // And the look-alike after the history it was mistaken for.
        let h = warm_hist(&h);
        let a = obs(&mut s, &mut Res::new(&[0], &h), &mut l.clone());
        let (f, h2, l2) = (&mut fresh, &h, &l);
        let run = move || obs(f, &mut Res::new(&[0], h2), &mut l2.clone());
        let b = std::thread::scope(|t| t.spawn(run).join().unwrap_or_else(|e| std::panic::resume_unwind(e)));
        ctx.steps(2);
        ensure!(same_obs(&a, &b), "{sp:?} look-alike of {what} gives {}, a fresh one {}", show(&a), show(&b));
    }
    Ok(())
}
fn c33_fresh(ctx: &mut Ctx) -> R {
    let m = more();
    let sp = ctx.pick(&m).clone();
    let n = ctx.range(0, ctx.qt(3, 4));
    let mut s: DynB = sp.make_cfg();
    let mut path = vec![];
    for _ in 0..n {
        let ev = ctx.choose(10);
        path.push(ev);
        let _ = event(ctx, &mut s, ev);
    }
    let x = with_mu(&sp, &s)?;
    let k = ctx.choose(FINALS);
    ctx.step();
    let a = final_event(&mut s, k);
    ctx.step();
    // What a fresh one gives, on a thread of its own, so that nothing kept per thread is shared either.
    let key = (format!("{x:?}"), k);
    let known = FRESH.lock().unwrap().get(&key).cloned();
    let (b, tok) = match known {
        Some(o) => o,
        None => {
            let run = || {
                let mut fresh: DynB = x.make_cfg();
                let o = final_event(&mut fresh, k);
                (o, fresh.sampled_token_id())
            };
            let o = std::thread::scope(|t| t.spawn(run).join().unwrap_or_else(|e| std::panic::resume_unwind(e)));
            FRESH.lock().unwrap().insert(key, o.clone());
            o
        }
    };
    ctx.state(&(hash_of(&a.1), a.0.clone()));
    ctx.note(|| format!("{sp:?} after {path:?}, collection {k}: {}", show(&a)));
    ensure!(same_obs(&a, &b), "{sp:?} after calls {path:?} gives {} on collection {k}, a fresh one {}", show(&a), show(&b));
    ensure!(s.sampled_token_id() == tok, "{sp:?} after calls {path:?}: token differs from a fresh one's");
    Ok(())
}
static FRESH: std::sync::Mutex<std::collections::BTreeMap<(String, usize), (Obs, Option<u32>)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
struct CloneRun<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
    name: String,
    out: R,
}
impl Visit for CloneRun<'_, '_> {
    fn go<S: BuildableSampler<usize, f32> + Clone>(&mut self, s: S) {
        self.out = clone_run(self.ctx, s, &self.name);
    }
}
fn clone_run<S: BuildableSampler<usize, f32> + Clone>(ctx: &mut Ctx, proto: S, name: &str) -> R {
    let mut orig = proto.clone();
    let mut twin_o = proto.clone();
    let mut twin_c = proto;
    let n = ctx.range(0, 1);
    let mut path = String::new();
    for _ in 0..n {
        let ev = ctx.choose(6);
        path += &format!("{ev},");
        let _ = event(ctx, &mut orig, ev);
        let _ = event(ctx, &mut twin_o, ev);
        let _ = event(ctx, &mut twin_c, ev);
    }
    let mut cl = orig.clone();
    path += "clone,";
    ensure!(cl.sampled_token_id() == orig.sampled_token_id(), "{name} {path}: clone reads token {:?}, original {:?}", cl.sampled_token_id(), orig.sampled_token_id());
    let m = ctx.qt(4, 5);
    for _ in 0..m {
        let on_clone = ctx.flag();
        let ev = ctx.choose(4);
        path += &format!("{}{ev},", if on_clone { "c" } else { "o" });
        let (a, b) = if on_clone {
            (event(ctx, &mut cl, ev), event(ctx, &mut twin_c, ev))
        } else {
            (event(ctx, &mut orig, ev), event(ctx, &mut twin_o, ev))
        };
        ctx.state(&(hash_of(&a.1), a.0.clone(), on_clone));
        ctx.note(|| format!("{name} {path}: {}", show(&a)));
        ensure!(same_obs(&a, &b), "{name} {path}: gives {}, a twin that saw only these calls {}", show(&a), show(&b));
        ensure!(
            cl.sampled_token_id() == twin_c.sampled_token_id() && orig.sampled_token_id() == twin_o.sampled_token_id(),
            "{name} {path}: a token reading was affected by the other copy"
        );
    }
    Ok(())
}
fn c33_clone(ctx: &mut Ctx) -> R {
    let m = more();
    let sp = ctx.pick(&m).clone();
    let mut v = CloneRun { ctx, name: format!("{sp:?}"), out: Ok(()) };
    concrete(&sp, &mut v);
    v.out
}

struct CloneSet<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
    sp: Spec,
    out: R,
}
impl Visit for CloneSet<'_, '_> {
    fn go<S: BuildableSampler<usize, f32> + Clone>(&mut self, s: S) {
        self.out = clone_set(self.ctx, s, &self.sp);
    }
}
type OptVals = Vec<(&'static str, SamplerOptionValue<'static>)>;
fn options_of<S: BuildableSampler<usize, f32> + ?Sized>(s: &S) -> OptVals {
    let keys: Vec<&'static str> = s.sampler_metadata().options.iter().map(|o| o.key).collect();
    let mut v: OptVals = vec![];
    for k in keys {
        match s.get_option(k) {
            Ok(SamplerOptionValue::UInt(x)) => v.push((k, SamplerOptionValue::UInt(x))),
            Ok(SamplerOptionValue::Float(x)) => v.push((k, SamplerOptionValue::Float(x))),
            _ => {}
        }
    }
    // mu follows tau.
    v.sort_by_key(|x| x.0 == "mu");
    v
}
fn clone_set<S: BuildableSampler<usize, f32> + Clone>(ctx: &mut Ctx, proto: S, sp: &Spec) -> R {
    let mut pair = [proto.clone(), proto];
    let mut path = format!("{sp:?}");
    if ctx.flag() {
        path += ", call";
        let _ = event(ctx, &mut pair[0], 1);
    }
    pair[1] = pair[0].clone();
    path += ", clone";
    let n = ctx.qt(4, 5);
    let keys: Vec<&'static str> = pair[0].sampler_metadata().options.iter().map(|o| o.key).collect();
    for d in 0..n {
        let w = ctx.choose(2);
        let o = ctx.choose(if d + 1 == n { 3 } else { 3 + keys.len().min(2) });
        path += [", original ", ", clone "][w];
        if o >= 3 {
            // The options are set in turn, so that long lists are covered, too.
            let k = keys[(d * 2 + o - 3) % keys.len()];
            let v = match pair[w].get_option(k) {
                Ok(SamplerOptionValue::UInt(x)) => SamplerOptionValue::UInt(if x > 1 { 1 } else { x + 2 }),
                Ok(SamplerOptionValue::Float(x)) => SamplerOptionValue::Float(x * 0.5 + 0.25),
                r => return Err(format!("{path}: get_option({k}) gives {r:?}")),
            };
            path += &format!("{k}={v:?}");
            let other = options_of(&pair[1 - w]);
            pair[w].set_option(k, v).map_err(|e| format!("{path}: {e}"))?;
            ctx.step();
            ensure!(options_of(&pair[1 - w]) == other, "{path}: the other's options changed from {other:?} to {:?}", options_of(&pair[1 - w]));
            continue;
        }
        path += &format!("call {o}");
        let mut fresh: DynB = sp.make_cfg();
        for (k, v) in options_of(&pair[w]) {
            fresh.set_option(k, v).map_err(|e| format!("{path}: {e}"))?;
        }
        let (a, b) = (event(ctx, &mut pair[w], o), event(ctx, &mut fresh, o));
        ctx.state(&(hash_of(&a.1), a.0.clone()));
        ensure!(same_obs(&a, &b), "{path}: gives {}, a fresh sampler with these options {}", show(&a), show(&b));
        ensure!(options_of(&pair[w]) == options_of(&*fresh), "{path}: options {:?}, those of a fresh one {:?}", options_of(&pair[w]), options_of(&*fresh));
    }
    ctx.note(|| path.clone());
    Ok(())
}
fn c33_clone_set(ctx: &mut Ctx) -> R {
    let m = more();
    let sp = ctx.pick(&m).clone();
    let mut v = CloneSet { ctx, sp: sp.clone(), out: Ok(()) };
    concrete(&sp, &mut v);
    v.out
}

// ------------------------------------------------------------------ C35

/// word n is a fixed function of n
#[derive(Debug, Clone, Default)]
pub struct CountRng(u64);
fn tired(n: u64) -> rand::Error {
    rand::Error::new(format!("word {n}"))
}
impl RngCore for CountRng {
    fn next_u32(&mut self) -> u32 {
        self.0 += 1;
        (self.0 as u32).wrapping_mul(0x9E37_79B9)
    }
    fn next_u64(&mut self) -> u64 {
        self.0 += 1;
        self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.iter_mut() {
            *c = self.next_u32() as u8;
        }
    }
    /// Fails on every third word, and is not the same as `fill_bytes`.
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.0 += 1;
        if self.0 % 3 == 0 {
            return Err(tired(self.0));
        }
        d.fill(self.0 as u8 ^ 0x5a);
        Ok(())
    }
}
/// What one access takes from the random source.
fn draw(g: &mut dyn RngCore, k: usize, got: &mut Vec<u64>) {
    match k {
        0 => got.push(g.next_u32() as u64),
        1 => {
            got.push(g.next_u64());
            got.push(g.next_u32() as u64);
        }
        _ => {
            let mut b = [0u8; 5];
            g.fill_bytes(&mut b);
            got.extend(b.iter().map(|x| *x as u64));
            let r = g.try_fill_bytes(&mut b[..3]);
            got.extend(b.iter().map(|x| *x as u64));
            got.push(match r {
                Ok(()) => 1,
                Err(e) => 1000 + e.to_string().bytes().map(|c| c as u64).sum::<u64>(),
            });
        }
    }
}
pub fn access(ctx: &mut Ctx, r: &mut dyn HasSamplerResources, rng: &mut Option<CountRng>, toks: &mut Option<Vec<u32>>, k: usize, d: usize) -> R {
    ctx.step();
    let mut runs = 0;
    let (res, name, there): (Result<(), SamplerError>, &str, bool) = match k {
        0..=2 => {
            let mut got: Vec<u64> = vec![];
            let o = r.with_rng_mut(&mut |g| {
                runs += 1;
                draw(g, k, &mut got);
            });
            let mut want: Vec<u64> = vec![];
            if let Some(g) = rng {
                draw(g, k, &mut want);
            }
            ensure!(got == want, "access {k} drew {got:?}, expected {want:?}");
            (o, "rng", rng.is_some())
        }
        3 | 4 => {
            let mut seen: Option<Vec<u32>> = None;
            let o = r.with_last_tokens(&mut |t| {
                runs += 1;
                seen = Some(t.clone());
            });
            ensure!(seen == *toks, "reading the history gives {seen:?}, expected {toks:?}");
            (o, "last_tokens", toks.is_some())
        }
        _ => {
            let f = |t: &mut Vec<u32>| match k {
                5 => t.push(10 + d as u32),
                6 => {
                    t.pop();
                }
                7 => t.insert(0, 500 + d as u32),
                8 => t.clear(),
                // Edits that keep the length.
                9 => {
                    if let Some(x) = t.last_mut() {
                        *x ^= 1 << (d % 20)
                    }
                }
                10 => t.reverse(),
                _ => {
                    t.push(70 + d as u32);
                    t.remove(0);
                }
            };
            let mut seen: Option<Vec<u32>> = None;
            let o = r.with_last_tokens_mut(&mut |t| {
                runs += 1;
                seen = Some(t.clone());
                f(t);
            });
            ensure!(seen == *toks, "editing the history sees {seen:?}, expected {toks:?}");
            if let Some(t) = toks {
                f(t);
            }
            (o, "last_tokens", toks.is_some())
        }
    };
    if there {
        ensure!(res.is_ok(), "access {k} failed although {name} is there: {}", err_str(&res.unwrap_err()));
        ensure!(runs == 1, "access {k} ran the function {runs} times");
    } else {
        ensure!(runs == 0, "access {k} ran the function {runs} times without {name}");
        match res {
            Ok(()) => return Err(format!("access {k} succeeded without {name}")),
            Err(SamplerError::MissingResource(n)) => ensure!(n == name, "access {k} reports {n:?} missing, it is {name:?}"),
            Err(e) => return Err(format!("access {k}: error {}, expected MissingResource({name:?})", err_str(&e))),
        }
    }
    Ok(())
}
fn c35(ctx: &mut Ctx) -> R {
    simple(ctx, None)
}
fn c35_long(ctx: &mut Ctx) -> R {
    let plan = periodic(ctx, 12, 2, 300);
    simple(ctx, Some(&mut |d| plan.get(d).copied()))
}
/// All short histories of accesses, or the given long one.
pub fn simple(ctx: &mut Ctx, long: Option<&mut dyn FnMut(usize) -> Option<usize>>) -> R {
    let have_rng = ctx.flag();
    let tk = ctx.choose(3);
    let mut toks = [None, Some(vec![]), Some(vec![4, 2, 4])][tk].clone();
    let mut rng = have_rng.then(CountRng::default);
    let mut r = SimpleSamplerResources::new(
        rng.clone().map(|g| Box::new(g) as Box<dyn RngCore + Send + Sync>),
        toks.clone(),
    );
    let n = if long.is_some() { 0 } else { ctx.range(0, ctx.qt(6, 7)) };
    let mut long = long;
    let mut path = vec![];
    for d in 0.. {
        let k = match &mut long {
            Some(plan) => match plan(d) {
                Some(k) => k,
                None => break,
            },
            None if d == n => break,
            None => ctx.choose(12),
        };
        if path.len() > 320 {
            path.drain(..310);
        }
        path.push(k);
        access(ctx, &mut r, &mut rng, &mut toks, k, d).map_err(|m| format!("rng={have_rng} tokens={tk} accesses {path:?}: {m}"))?;
        if d < 400 {
            ctx.state(&(toks.clone(), rng.as_ref().map(|x| x.0)));
        }
    }
    ctx.note(|| format!("rng={have_rng} accesses {path:?}: {toks:?}"));
    // Everything is still there at the end.
    for k in [3, 0] {
        access(ctx, &mut r, &mut rng, &mut toks, k, 9).map_err(|m| format!("rng={have_rng} tokens={tk} accesses {path:?}: {m}"))?;
    }
    Ok(())
}
/// One edit of a token history.
fn edit(k: usize, v: &mut Vec<u32>) {
    let n = v.len();
    match k {
        0 => v.push(77),
        1 => v.extend([u32::MAX, 0, 5]),
        2 => v.insert(0, 9),
        3 => v.truncate(n / 2),
        4 => {
            v.pop();
        }
        5 => *v = (0..n as u32 + 1).rev().collect(),
        6 => v.reverse(),
        7 => {
            v.drain(..n.min(1));
        }
        _ => v.extend_from_within(n - n.min(300)..),
    }
}
fn c35_large(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(&[
        0usize, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 2048, 4097, 65536, 131073, 300_000, 1_048_577,
    ]);
    let at = |i: usize, kind: usize| match kind {
        0 => i as u32,
        1 => 3,
        _ => u32::MAX - i as u32 % 5,
    };
    let kind = ctx.choose(3);
    let grown = ctx.flag();
    let mut want: Vec<u32> = (0..n).map(|i| at(i, kind)).collect();
    let mut r = SimpleSamplerResources::new(Some(Box::new(ScriptRng::new(&[1, 2, 3, 4]))), Some(if grown { vec![] } else { want.clone() }));
    let what = format!("{n} tokens, content {kind}, grown={grown}");
    if grown {
        for t in &want {
            r.with_last_tokens_mut(&mut |v| v.push(*t)).map_err(|e| err_str(&e))?;
        }
        ctx.steps(n as u64);
    }
    let look = |r: &mut SimpleSamplerResources, want: &Vec<u32>, path: &[usize]| -> R {
        for mutable in [false, true] {
            let mut seen = 0;
            let mut fine = false;
            let mut len = 0;
            if mutable {
                r.with_last_tokens_mut(&mut |v| (seen, fine, len) = (seen + 1, v == want, v.len()))
            } else {
                r.with_last_tokens(&mut |v| (seen, fine, len) = (seen + 1, v == want, v.len()))
            }
            .map_err(|e| format!("{what}: {}", err_str(&e)))?;
            ensure!(seen == 1, "{what} after edits {path:?}: function run {seen} times");
            ensure!(fine, "{what} after edits {path:?}: history differs (length {len}, expected {})", want.len());
        }
        Ok(())
    };
    look(&mut r, &want, &[])?;
    let mut path = vec![];
    for d in 0..2u32 {
        let k = ctx.choose(9);
        path.push(k);
        let mut seen = 0;
        r.with_last_tokens_mut(&mut |v| {
            seen += 1;
            edit(k, v)
        })
        .map_err(|e| format!("{what}: {}", err_str(&e)))?;
        edit(k, &mut want);
        ctx.steps(3);
        ensure!(seen == 1, "{what}: edit {k} run {seen} times");
        look(&mut r, &want, &path)?;
        let mut w = 0;
        r.with_rng_mut(&mut |g| w = g.next_u32()).map_err(|e| format!("{what}: {}", err_str(&e)))?;
        ensure!(w == d + 1, "{what} after edits {path:?}: the random source gives {w}, expected {}", d + 1);
        look(&mut r, &want, &path)?;
    }
    ctx.state(&(want.len(), hash_of(&want)));
    ctx.note(|| format!("{what}, edits {path:?}: {} tokens", want.len()));
    Ok(())
}
#[derive(Debug)]
struct Bare;
impl HasSamplerResources for Bare {}
fn c35_empty(ctx: &mut Ctx) -> R {
    let which = ctx.choose(5);
    let mut r: Box<dyn HasSamplerResources> = match which {
        0 => Box::new(()),
        1 => Box::new(NilSamplerResources::new()),
        2 => Box::new(NilSamplerResources),
        3 => Box::new(Bare),
        _ => Box::new(SimpleSamplerResources::new(None, None)),
    };
    for d in 0..3 {
        let k = ctx.choose(12);
        ctx.state(&(which, k, d));
        ctx.note(|| format!("resources {which} access {k}"));
        access(ctx, &mut *r, &mut None, &mut None, k, d).map_err(|m| format!("empty resources {which}: {m}"))?;
    }
    Ok(())
}
/// Counts accesses of the source behind the simple resources.
fn c35_samplers(ctx: &mut Ctx) -> R {
    let m = [
        Spec::Rand,
        Spec::Miro2 { tau: 2.0, eta: 0.2, mu: None },
        Spec::Miro1 { n_vocab: 30, tau: 2.0, eta: 0.2, m: 100, mu: None },
        Spec::Rep(1.5, 4),
        Spec::FreqPres(0.5, 0.5, 3),
        Spec::Seq { flat: 1.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 },
        Spec::Greedy,
    ];
    let words: Vec<u32> = (1..40u32).map(|i| i.wrapping_mul(0x9E37_79B9)).collect();
    let mut simple = SimpleSamplerResources::new(Some(Box::new(ScriptRng::new(&words))), Some(vec![1, 2, 3]));
    let mut scripted = Res::new(&words, &[1, 2, 3]);
    let n = ctx.range(1, 4);
    let count = Cell::new(0);
    for d in 0..n {
        let sp = ctx.pick(&m).clone();
        let k = ctx.choose(2);
        let (mut x, mut y) = (input_at([0, 3][k]).unwrap(), input_at([0, 3][k]).unwrap());
        let a = obs(&mut *sp.make(), &mut simple, &mut x);
        let b = obs(&mut *sp.make(), &mut scripted, &mut y);
        ctx.step();
        ctx.state(&a.1);
        ctx.note(|| format!("{sp:?}: {}", show(&a)));
        ensure!(same_obs(&a, &b), "{sp:?} call {d}: simple resources give {}, scripted {}", show(&a), show(&b));
        if let Ok(Some(t)) = a.0 {
            simple.with_last_tokens_mut(&mut |v| v.push(t)).map_err(|e| err_str(&e))?;
            scripted.tokens.as_mut().unwrap().push(t);
        }
        simple
            .with_last_tokens(&mut |v| {
                if Some(v) == scripted.tokens.as_ref() {
                    count.set(count.get() + 1)
                }
            })
            .map_err(|e| err_str(&e))?;
    }
    ensure!(count.get() == n, "history differs after {n} calls: {:?}", scripted.tokens);
    let mut w = 0;
    simple.with_rng_mut(&mut |g| w = g.next_u32()).map_err(|e| err_str(&e))?;
    let v = scripted.rng.as_mut().unwrap().next_u32();
    ensure!(w == v, "after {n} calls the source continues with {w:x}, expected {v:x}");
    Ok(())
}
