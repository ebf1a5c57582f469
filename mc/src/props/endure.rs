//! Very long histories: more calls than any counter or buffer of a plausible size holds.
use super::compose::*;
use super::select::*;
use crate::common::*;
use crate::engine::*;

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    for (prop, bounds, run) in [
        ("C14", "5 repeated events and the cycle of all 18, to 66000 (quick) / 1060000 (thorough) calls on one sampler: the formulas at every call", c14 as fn(&mut Ctx) -> R),
        ("C15", "5 repeated events and the cycle of all 18, to 66000 (quick) / 1060000 (thorough) calls on one sampler: the formulas at every call", c15),
        ("C22", "7 chains x 8 repeated events and the cycle of all, to 66000 (quick) / 530000 (thorough) calls on one chain, against its samplers one by one", c22),
        ("C23", "9 samplers x 11 wrappings, 66000 (quick) / 530000 (thorough) calls alternating between sample and sample_token, against the bare sampler", c23),
        ("C25", "11 samplers x 7 repeated events and the cycle of all 21, to 66000 (quick) / 530000 (thorough) calls", c25),
        ("C26", "13 selectors x 16 repeated events and the cycle of all, to 66000 (quick) / 530000 (thorough) calls", c26),
        ("C27", "8 chain variants of 9 stages and a selector, 3000 (quick) / 20000 (thorough) generated tokens, twice", c27),
        ("C33", "31 samplers x 4 repeated events and the cycle of all 10, to 66000 (quick) / 530000 (thorough) calls, every one compared with a fresh sampler", c33),
        ("C35", "14 cycles of accesses to 1060000 (quick) / 17000000 (thorough) accesses of one resource object, with and without each resource", c35),
    ] {
        v.push(Harness { prop, name: "endurance", bounds, run });
    }
    v
}
/// One event over and over, or all of them in turn.
fn cycle(ctx: &mut Ctx, singles: &[usize], all: usize, len: usize) -> Vec<usize> {
    let k = ctx.choose(singles.len() + 1);
    (0..len).map(|i| if k < singles.len() { singles[k] } else { i % all }).collect()
}
const MIRO: &[usize] = &[0, 4, 8, 15, 17];
fn c14(ctx: &mut Ctx) -> R {
    let (n_vocab, tau, eta, m) = *ctx.pick(&[(50usize, 3.0f32, 0.1f32, 100usize), (32000, 1.0, 0.5, 3)]);
    let len = ctx.qt(66_000, 1_060_000);
    let path = cycle(ctx, MIRO, 18, len);
    let mut x = M1 { s: Spec::Miro1 { n_vocab, tau, eta, m, mu: None }.miro1(), n_vocab, tau, eta, m };
    let ins = [("zipf", 5), ("zipf", 21), ("shuf", 12), ("forbid3", 9), ("ties", 4)];
    let events: Vec<_> = (0..18).map(|k| long_event(k, &ins)).collect();
    for (d, k) in path.iter().enumerate() {
        let (l, word, fault) = &events[*k];
        m1_call(ctx, &mut x, &mut l.clone(), *word, *fault, if d < 1000 { "endurance" } else { "endurance, past 1000 calls" })?;
    }
    Ok(())
}
fn c15(ctx: &mut Ctx) -> R {
    let (tau, eta) = *ctx.pick(&[(3.0f32, 0.1f32), (1.0, 0.5)]);
    let len = ctx.qt(66_000, 1_060_000);
    let path = cycle(ctx, MIRO, 18, len);
    let mut x = M2 { s: Spec::Miro2 { tau, eta, mu: None }.miro2(), tau, eta };
    let ins = [("zipf", 6), ("shuf", 12), ("plateaus", 9), ("forbid3", 9), ("onehot", 3)];
    let events: Vec<_> = (0..18).map(|k| long_event(k, &ins)).collect();
    for (d, k) in path.iter().enumerate() {
        let (l, word, fault) = &events[*k];
        m2_call(ctx, &mut x, &mut l.clone(), *word, *fault, false, if d < 1000 { "endurance" } else { "endurance, past 1000 calls" })?;
    }
    Ok(())
}
fn faulty(ev: usize, i: usize) -> Res {
    let mut r = Res::new(&[0x2000_0000u32.wrapping_mul(i as u32 % 7 + 1), 0xd000_0000], HISTS[ev % 3]);
    match ev {
        4 => r.rng_fault = Fault::Missing,
        5 => r.rng_fault = Fault::Fails,
        6 => r.tok_fault = Fault::Missing,
        7 => r.tok_fault = Fault::Fails,
        _ => {}
    }
    r
}
fn c22(ctx: &mut Ctx) -> R {
    use Spec::*;
    let specs = ctx
        .pick(&[
            vec![Rand],
            vec![TopK(3, 1), Temp(0.5), Greedy],
            vec![Rep(1.5, 64), Miro2 { tau: 2.0, eta: 0.2, mu: None }],
            vec![Miro1 { n_vocab: 30, tau: 2.0, eta: 0.2, m: 100, mu: None }, Greedy],
            vec![Bias(vec![(1, NINF), (4, 3.0)]), FreqPres(0.5, 0.75, 64), TopP(0.7, 1), MinP(0.1, 1)],
            vec![Seq { flat: 1.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 }, Typical(0.9, 1), TailFree(0.9, 1), Rand],
            vec![Greedy, TopA(0.3, 2.0, 1), Rand, Miro2 { tau: 2.0, eta: 0.2, mu: None }],
        ])
        .clone();
    let by_sample = ctx.choose(3);
    let len = ctx.qt(66_000, 530_000);
    let plan = cycle(ctx, &[0, 1, 2, 3, 4, 5, 6, 7], 8, len);
    let ins: Vec<Logits> = [0, 3, 1, 5].iter().map(|k| input_at(*k).unwrap()).collect();
    let mut c = SamplerChain::new();
    specs.iter().for_each(|s| c += s.make());
    let mut one: Vec<Box<dyn Sampler>> = specs.iter().map(|s| s.make()).collect();
    for (i, ev) in plan.iter().enumerate() {
        let l = &ins[ev % 4];
        let (mut x, mut y, mut ra, mut rb) = (l.clone(), l.clone(), faulty(*ev, i), faulty(*ev, i));
        let a = obs_by(&mut c, &mut ra, &mut x, by_sample == 1 || (by_sample == 2 && i % 2 == 0));
        let mut want = Ok(None);
        for s in &mut one {
            want = s.sample(&mut rb, &mut y).map(|_| ()).map_err(|e| err_str(&e)).map(|_| s.sampled_token_id());
            if want.is_err() {
                break;
            }
        }
        ctx.steps(2);
        let b = (want, snap(&y));
        if i < 200 {
            ctx.state(&a.1);
        }
        ensure!(same_obs(&a, &b), "{specs:?} call {} of events {:?}..: chain gives {}, one by one {}", i + 1, &plan[..8], show(&a), show(&b));
        ensure!(ra.rng_calls == rb.rng_calls && ra.tokens == rb.tokens, "{specs:?} call {}: resources used differently", i + 1);
    }
    ctx.note(|| format!("{specs:?}: {} calls", plan.len()));
    Ok(())
}
fn c23(ctx: &mut Ctx) -> R {
    use Spec::*;
    let sp = ctx
        .pick(&[
            TopK(2, 1),
            Greedy,
            Rand,
            Miro2 { tau: 2.0, eta: 0.2, mu: None },
            Miro1 { n_vocab: 30, tau: 2.0, eta: 0.2, m: 100, mu: None },
            Rep(1.5, 64),
            Seq { flat: 1.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 },
            Bias(vec![(1, NINF), (4, 3.0)]),
            Temp(0.5),
        ])
        .clone();
    let w = ctx.choose(WRAPS);
    let mut out = None;
    visit(&sp, &mut |f| out = Some((f(WRAPS), f(w))));
    let ((_, mut bare), (name, mut wrapped)) = out.unwrap();
    let ins: Vec<Logits> = [0, 3, 1, 5].iter().map(|k| input_at(*k).unwrap()).collect();
    for i in 0..ctx.qt(66_000usize, 530_000) {
        let ev = if i % 16 < 8 { i % 4 } else { i % 8 };
        let l = &ins[i % 4];
        let (mut x, mut y, mut ra, mut rb) = (l.clone(), l.clone(), faulty(ev, i), faulty(ev, i));
        let a = obs_by(&mut *bare, &mut ra, &mut x, i % 3 == 0);
        let b = obs_by(&mut *wrapped, &mut rb, &mut y, i % 3 == 0);
        ctx.steps(2);
        if i < 200 {
            ctx.state(&a.1);
        }
        ensure!(same_obs(&a, &b), "{sp:?} in {name}, call {}: bare {}, wrapped {}", i + 1, show(&a), show(&b));
        ensure!(bare.sampled_token_id() == wrapped.sampled_token_id(), "{sp:?} in {name}, call {}: tokens differ", i + 1);
        ensure!(ra.rng_calls == rb.rng_calls && ra.tok_calls == rb.tok_calls, "{sp:?} in {name}, call {}: resources used differently", i + 1);
    }
    Ok(())
}
fn c25(ctx: &mut Ctx) -> R {
    let len = ctx.qt(66_000, 530_000);
    let plan = cycle(ctx, &[0, 3, 6, 9, 12, 15, 18], 21, len);
    faults(ctx, Some(plan), 0)
}
fn c26(ctx: &mut Ctx) -> R {
    let len = ctx.qt(66_000, 530_000);
    let all: Vec<usize> = (0..16).collect();
    let plan = cycle(ctx, &all, 16, len);
    stale(ctx, Some(plan))
}
fn c27(ctx: &mut Ctx) -> R {
    let var = ctx.choose(8);
    let fin = ctx.choose(3);
    let mut specs = temp_stages(var);
    specs.push(match fin {
        0 => Spec::Rand,
        1 => Spec::Greedy,
        _ => Spec::Miro2 { tau: 3.0, eta: 0.1, mu: None },
    });
    let c = Chain27::new(specs);
    let v = shape("shuf", 24);
    let words: Vec<u32> = (0..64).map(|i| grid_word((i * 37) % 64, 64)).collect();
    let n = ctx.qt(3000, 20_000);
    // Sequences continue without end: keep the penalties from growing past all bounds.
    let specs: Vec<Spec> = c.specs.iter().filter(|s| !matches!(s, Spec::Rep(p, n) if *p > 100.0 || *n > 1000) && !matches!(s, Spec::FreqPres(_, _, n) if *n > 1000)).cloned().collect();
    let c = Chain27::new(specs);
    if !c.applies(&v, &[]) {
        return Ok(());
    }
    let a = c.run(ctx, &v, &[], &words, n, false)?;
    let b = c.run(ctx, &v, &[], &words, n, true)?;
    let d = a.iter().zip(&b).position(|(x, y)| x != y);
    ensure!(d.is_none(), "{:?}: two runs differ from token {d:?} on", c.specs);
    Ok(())
}
fn c33(ctx: &mut Ctx) -> R {
    let m = more();
    let sp = ctx.pick(&m).clone();
    let len = ctx.qt(66_000, 530_000);
    let plan = cycle(ctx, &[0, 1, 3, 4], 10, len);
    let mut s: DynB = sp.make_cfg();
    for (d, ev) in plan.iter().enumerate() {
        let mut fresh: DynB = with_mu(&sp, &s)?.make_cfg();
        let a = event(ctx, &mut s, *ev);
        let b = event(ctx, &mut fresh, *ev);
        if d < 20 {
            ctx.state(&(hash_of(&a.1), a.0.clone()));
        }
        ensure!(same_obs(&a, &b), "{sp:?} after {d} calls gives {}, a fresh one {}", show(&a), show(&b));
        ensure!(s.sampled_token_id() == fresh.sampled_token_id(), "{sp:?} after {d} calls: token differs from a fresh one's");
    }
    ctx.note(|| format!("{sp:?}: {} calls", plan.len()));
    Ok(())
}
fn c35(ctx: &mut Ctx) -> R {
    let cyc: &[usize] = ctx.pick(&[
        &[0usize] as &[usize],
        &[1],
        &[2],
        &[3],
        &[5, 6],
        &[6, 7, 5, 6],
        &[8],
        &[9],
        &[10],
        &[11],
        &[7, 6],
        &[0, 5, 3, 6],
        &[1, 11, 2, 9],
        &[5, 5, 5, 5, 8],
    ]);
    let len = ctx.qt(1_060_000usize, 17_000_000);
    simple(ctx, Some(&mut |d| (d < len).then(|| cyc[d % cyc.len()])))
}
