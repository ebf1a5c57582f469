//! C39: an empty collection passes through every sampler without a trace.
use super::compose::*;
use super::extreme::extremes;
use crate::common::*;
use crate::engine::*;

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C39",
            name: "every_setting",
            bounds: "8 ways of being empty x 8 states of the resources x ~190 extreme and all ordinary parameter sets of all 15 samplers x first or second call, by sample and sample_token",
            run: settings,
        },
        Harness {
            prop: "C39",
            name: "as_if_absent",
            bounds: "all histories of 0-4 (quick) / 0-5 (thorough) of 10 events on every sampler, with empty collections put in at every subset of the gaps, against the history without them, results and state bit for bit",
            run: absent,
        },
        Harness {
            prop: "C39",
            name: "chains",
            bounds: "all chains of 0-3 (quick) / 0-4 (thorough) of 17 stages, flat, nested or shared, x 8 states of the resources, before and after a call on a full collection",
            run: chains,
        },
        Harness {
            prop: "C39",
            name: "many_empties",
            bounds: "0-300 (quick) / 0-5000 (thorough) empty collections in a row, then a full one, on every sampler",
            run: many,
        },
    ]
}
const KINDS: usize = 8;
/// Never filled, filled with nothing usable, or emptied in several ways.
fn empty(k: usize) -> Logits {
    let mut full = Logits::try_from_iter([1.0f32, 2.0, 0.5]).unwrap();
    match k {
        0 => Logits::default(),
        1 => Logits::try_from_iter(std::iter::empty::<f32>()).unwrap(),
        2 => Logits::try_from_iter_top_k([f32::NAN, f32::INFINITY], 3).unwrap(),
        3 => {
            full.clear();
            full
        }
        4 => {
            full.ensure_softmax().unwrap();
            full.drain(..);
            full
        }
        5 => {
            full.ensure_sorted().unwrap();
            full.truncate(0);
            full
        }
        6 => {
            full.retain(|_| false);
            full.set_sorted(true);
            full
        }
        _ => {
            let mut l = Logits::default();
            l.set_sorted(false);
            l.set_softmax(false);
            l
        }
    }
}
const STATES: usize = 8;
fn resources(k: usize) -> Res {
    let mut r = Res::new(&[0x7000_0000], &[1, 2, 1, 2]);
    match k {
        0 => {}
        1 => r.tokens = Some(vec![]),
        2 => r.rng_fault = Fault::Missing,
        3 => r.tok_fault = Fault::Missing,
        4 | 5 => {
            r.rng_fault = Fault::Fails;
            r.tok_fault = Fault::Fails;
            r.err = if k == 4 { 0 } else { ERRS };
        }
        6 => {
            r.rng = None;
            r.tokens = None;
        }
        _ => {
            r.rng_fault = Fault::Missing;
            r.tok_fault = Fault::Missing;
        }
    }
    r
}
/// One call on an empty collection.
fn call(ctx: &mut Ctx, s: &mut dyn Sampler, kind: usize, state: usize, by_sample: bool, what: &str) -> R {
    let mut l = empty(kind);
    let mut r = resources(state);
    let toks = r.tokens.clone();
    ctx.step();
    let o = obs_by(s, &mut r, &mut l, by_sample);
    ensure!(o.0.is_ok(), "{what}: an empty collection (kind {kind}, resources {state}) fails: {}", show(&o));
    ensure!(o.0 == Ok(None), "{what}: a token from an empty collection (kind {kind}, resources {state}): {}", show(&o));
    ensure!(s.sampled_token_id().is_none(), "{what}: reports {:?} after an empty collection", s.sampled_token_id());
    ensure!(l.is_empty(), "{what}: the empty collection became {}", show(&o));
    ensure!(r.rng.as_ref().map_or(0, |g| g.drawn) == 0, "{what}: drew randomness for an empty collection");
    ensure!(r.tokens == toks, "{what}: token history changed");
    Ok(())
}
fn settings(ctx: &mut Ctx) -> R {
    let mut v: Vec<Spec> = more();
    v.extend(extremes());
    v.retain(|s| !matches!(s, Spec::Miro1 { n_vocab: 0, .. }));
    let sp = ctx.pick(&v).clone();
    let (kind, state) = (ctx.choose(KINDS), ctx.choose(STATES));
    let mut s = sp.make_cfg();
    let before = settings_of(&s);
    for by_sample in [false, true, true, false] {
        call(ctx, &mut s, kind, state, by_sample, &format!("{sp:?}"))?;
        ensure!(settings_of(&s) == before, "{sp:?}: an empty collection changed its options {before:?} to {:?}", settings_of(&s));
    }
    ctx.state(&format!("{sp:?}"));
    ctx.note(|| format!("{sp:?} on nothing (kind {kind}, resources {state})"));
    Ok(())
}
/// All options as they read now.
fn settings_of(s: &DynB) -> Vec<String> {
    s.sampler_metadata().options.iter().map(|o| format!("{}={:?}", o.key, s.get_option(o.key).map_err(|_| ()))).collect()
}
fn absent(ctx: &mut Ctx) -> R {
    let m = more();
    let sp = ctx.pick(&m).clone();
    let n = ctx.range(0, ctx.qt(4, 5));
    let mask = ctx.choose(1 << (n + 1));
    if mask == 0 {
        return Ok(());
    }
    let (mut a, mut b): (DynB, DynB) = (sp.make_cfg(), sp.make_cfg());
    let mut path = String::new();
    let insert = |ctx: &mut Ctx, a: &mut DynB, d: usize| -> R {
        if mask >> d & 1 == 1 {
            let k = d + mask;
            call(ctx, a, k % KINDS, (k / 2 + d) % STATES, d % 2 == 1, &format!("{sp:?} before call {d}"))?;
        }
        Ok(())
    };
    for d in 0..n {
        insert(ctx, &mut a, d)?;
        let ev = ctx.choose(10);
        path += &format!("{}{ev} ", if mask >> d & 1 == 1 { "empty " } else { "" });
        let (x, y) = (event(ctx, &mut a, ev), event(ctx, &mut b, ev));
        ctx.state(&(hash_of(&x.1), x.0.clone()));
        ensure!(same_obs(&x, &y), "{sp:?} {path}: {} with the empty collections, {} without", show(&x), show(&y));
        ensure!(a.sampled_token_id() == b.sampled_token_id(), "{sp:?} {path}: tokens differ");
    }
    insert(ctx, &mut a, n)?;
    ensure!(settings_of(&a) == settings_of(&b), "{sp:?} {path}: options {:?} with the empty collections, {:?} without", settings_of(&a), settings_of(&b));
    // And one after all.
    let (x, y) = (event(ctx, &mut a, 0), event(ctx, &mut b, 0));
    ensure!(same_obs(&x, &y), "{sp:?} {path}, once more: {} with the empty collections, {} without", show(&x), show(&y));
    ctx.note(|| format!("{sp:?} {path}"));
    Ok(())
}
fn chains(ctx: &mut Ctx) -> R {
    use Spec::*;
    let st = [
        Greedy,
        Rand,
        Miro1 { n_vocab: 30, tau: 2.0, eta: 0.2, m: 100, mu: None },
        Miro2 { tau: 2.0, eta: 0.2, mu: None },
        TopK(2, 1),
        TopK(0, 0),
        TopP(0.7, 1),
        MinP(0.1, 1),
        TopA(0.3, 2.0, 1),
        TailFree(0.9, 1),
        Typical(0.9, 1),
        Temp(0.5),
        Temp(0.0),
        Rep(1.5, 64),
        FreqPres(0.5, 0.75, 64),
        Seq { flat: 1.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 },
        Bias(vec![(1, NINF), (4, 3.0)]),
    ];
    let n = ctx.range(0, ctx.qt(3, 4));
    let v: Vec<Spec> = (0..n).map(|_| ctx.pick(&st).clone()).collect();
    let shape = ctx.choose(3);
    let state = ctx.choose(STATES);
    let build = || -> Box<dyn Sampler> {
        let mut c = SamplerChain::new();
        match shape {
            0 => v.iter().for_each(|s| c += s.make_cfg()),
            1 => {
                for s in &v {
                    let mut inner = SamplerChain::new();
                    inner += s.make_cfg();
                    c += inner;
                }
            }
            _ => {
                for s in &v {
                    let a: std::sync::Arc<std::sync::Mutex<dyn Sampler>> = match s {
                        Greedy => std::sync::Arc::new(std::sync::Mutex::new(SampleGreedy::new())),
                        _ => std::sync::Arc::new(std::sync::Mutex::new(s.make())),
                    };
                    c += a;
                }
            }
        }
        Box::new(c)
    };
    let what = format!("chain {v:?} (shape {shape})");
    let (mut a, mut b) = (build(), build());
    for d in 0..2 {
        call(ctx, &mut a, (state + d) % KINDS, state, d == 1, &what)?;
        let (x, y) = (event(ctx, &mut a, d), event(ctx, &mut b, d));
        ctx.state(&(hash_of(&x.1), x.0.clone()));
        ensure!(same_obs(&x, &y), "{what}: {} after empty collections, {} without", show(&x), show(&y));
    }
    call(ctx, &mut a, state, state, false, &what)?;
    ctx.note(|| what.clone());
    Ok(())
}
fn many(ctx: &mut Ctx) -> R {
    let m = more();
    let sp = ctx.pick(&m).clone();
    let full = ctx.flag();
    let (mut a, mut b): (DynB, DynB) = (sp.make_cfg(), sp.make_cfg());
    if full {
        let (x, y) = (event(ctx, &mut a, 1), event(ctx, &mut b, 1));
        ensure!(same_obs(&x, &y), "{sp:?}: two new ones differ");
    }
    let len = ctx.qt(300, 5000);
    for i in 0..len {
        call(ctx, &mut a, i % KINDS, i / 8 % STATES, i % 3 == 0, &format!("{sp:?} call {i}"))?;
        ensure!(settings_of(&a) == settings_of(&b), "{sp:?}: {i} empty collections changed the options to {:?}", settings_of(&a));
    }
    let (x, y) = (event(ctx, &mut a, 0), event(ctx, &mut b, 0));
    ctx.state(&(hash_of(&x.1), x.0.clone()));
    ctx.note(|| format!("{sp:?} after {len} empty collections: {}", show(&x)));
    ensure!(same_obs(&x, &y), "{sp:?}: {} after {len} empty collections, {} without", show(&x), show(&y));
    Ok(())
}
