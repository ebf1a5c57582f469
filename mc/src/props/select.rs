//! C12 greedy, C13 random distribution, C14/C15 Mirostat, C26 stale tokens.
use crate::common::*;
use crate::engine::*;

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C12",
            name: "greedy",
            bounds: "all vectors of length 0-6 (quick) / 0-7 (thorough) over 6 values and of length 1-3/1-4 over 3 alphabets of nearly equal, far apart and tiny values, shapes up to 1024 entries, 12 preparations, with and without an earlier call on another collection",
            run: c12,
        },
        Harness {
            prop: "C12",
            name: "greedy_vocabulary",
            bounds: "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered, softmax+temp2}",
            run: c12_vocab,
        },
        Harness {
            prop: "C12",
            name: "greedy_infinite",
            bounds: "all vectors of length 1-5 over {-inf,+inf,0,-0,1,f32::MIN,f32::MAX}, raw and sorted",
            run: c12_inf,
        },
        Harness {
            prop: "C12",
            name: "greedy_claims",
            bounds: "all vectors of length 1-5 (thorough 1-6) over 6 values x probabilities {zero, softmax, spoiled} x the softmax claim up or down, the sorted claim down or (where true) up: with whatever claims the entries are judged by their logits",
            run: c12_claims,
        },
        Harness {
            prop: "C12",
            name: "greedy_after",
            bounds: "greedy after every pair of other samplers (20 parameter sets) on vectors of length 1-3 and shapes",
            run: c12_after,
        },
        Harness {
            prop: "C13",
            name: "frequency",
            bounds: "all vectors of length 1-4 (quick) / 1-5 (thorough) over 6 values, of length 1-3 over 3 alphabets of nearly equal, far apart and tiny values, and shapes up to 512 entries, 12 preparations; all 4096 cells of the random word enumerated, plus the extreme words",
            run: c13,
        },
        Harness {
            prop: "C13",
            name: "frequency_vocabulary",
            bounds: "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered, softmax+temp2} x 64 cells of the random word and the extreme words",
            run: c13_vocab,
        },
        Harness {
            prop: "C13",
            name: "frequency_fine",
            bounds: "6 collections x 65536 cells of the random word",
            run: c13_fine,
        },
        Harness {
            prop: "C13",
            name: "all_outcomes",
            bounds: "8 (quick) / 16 (thorough) collections with very unequal probabilities x all 2^23 outcomes of a single-precision uniform draw",
            run: c13_all,
        },
        Harness {
            prop: "C14",
            name: "mirostat1_histories",
            bounds: "all call histories of length 2 (quick) / 3 (thorough) over 9 collections x 3 random words + empty input + failing rng, x 5 n_vocab x 3 (tau, eta) x 5 m x 4 mu",
            run: c14_hist,
        },
        Harness {
            prop: "C14",
            name: "mirostat1_long",
            bounds: "every cycle of 1-2 (quick) / 1-3 (thorough) events out of 18 (5 collections x 3 words, empty, missing and failing rng), repeated to 300 calls, x parameter sets: the formulas at every call",
            run: c14_long,
        },
        Harness {
            prop: "C14",
            name: "mirostat1_step",
            bounds: "2^k equal tokens (k up to 8) with tau at k + {0, +-0.5 .. 1e-5, +-20}, 5 eta, 4 mu, 3 n_vocab, 3 calls: the learning step to within the rounding of its own arithmetic",
            run: c14_step,
        },
        Harness {
            prop: "C15",
            name: "mirostat2_step",
            bounds: "2^k equal tokens (k up to 8) with tau at k + {0, +-0.5 .. 1e-5, +-20}, 5 eta, 3 mu, 3 calls: the learning step to within the rounding of its own arithmetic",
            run: c15_step,
        },
        Harness {
            prop: "C14",
            name: "mirostat1_truncation",
            bounds: "shapes x sizes up to 1024 x preparations x n_vocab x m x mu grid, one call",
            run: c14_cut,
        },
        Harness {
            prop: "C14",
            name: "mirostat1_vocabulary",
            bounds: "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered, softmax+temp2} x 3 words x 3 mu",
            run: c14_vocab,
        },
        Harness {
            prop: "C14",
            name: "mirostat1_draw",
            bounds: "all 512 cells of the random word for 40 collections and parameter sets: draw frequencies of the kept tokens",
            run: c14_draw,
        },
        Harness {
            prop: "C15",
            name: "mirostat2_histories",
            bounds: "all call histories of length 4 (quick) / 5 (thorough) over 6 collections x 3 random words + empty input + failing rng, x (tau, eta) x mu",
            run: c15_hist,
        },
        Harness {
            prop: "C15",
            name: "mirostat2_long",
            bounds: "every cycle of 1-2 (quick) / 1-3 (thorough) events out of 18 (5 collections x 3 words, empty, missing and failing rng), repeated to 300 calls, x parameter sets: the formulas at every call",
            run: c15_long,
        },
        Harness {
            prop: "C15",
            name: "mirostat2_truncation",
            bounds: "all vectors of length 1-5 / 1-6 over 6 values and of length 1-3/1-4 over 3 alphabets of nearly equal, far apart and tiny values, shapes up to 1024, 12 preparations x 14 mu; exact on equal probabilities 2^-m",
            run: c15_cut,
        },
        Harness {
            prop: "C15",
            name: "mirostat2_vocabulary",
            bounds: "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered, softmax+temp2} x 3 words x 5 mu",
            run: c15_vocab,
        },
        Harness {
            prop: "C15",
            name: "mirostat2_draw",
            bounds: "all 512 cells of the random word for 60 collections and parameter sets: draw frequencies of the kept tokens",
            run: c15_draw,
        },
        Harness { prop: "C12", name: "greedy_reused", bounds: REUSED, run: c12_reused },
        Harness { prop: "C13", name: "frequency_reused", bounds: REUSED, run: c13_reused },
        Harness { prop: "C14", name: "mirostat1_reused", bounds: REUSED, run: c14_reused },
        Harness { prop: "C15", name: "mirostat2_reused", bounds: REUSED, run: c15_reused },
        Harness {
            prop: "C26",
            name: "stale_histories",
            bounds: "all histories of 5 (quick) / 6 (thorough) calls over {collection A, B, empty (never filled or emptied in place), all forbidden, one NaN, rng missing, rng failing, history missing} x 13 token selectors (bare, in chains, nested, shared, after another selector)",
            run: c26,
        },
        Harness {
            prop: "C26",
            name: "long_histories",
            bounds: "the same events in every cycle of 1-2 (quick) / 1-3 (thorough), repeated to 200 calls",
            run: c26_long,
        },
        Harness {
            prop: "C26",
            name: "extend_forgets",
            bounds: "every selector chain: sample, extend (push, +, +=) with every sampler kind, read the token",
            run: c26_extend,
        },
    ]
}

// ------------------------------------------------------------------ C12

pub fn c12_check(ctx: &mut Ctx, g: &mut SampleGreedy, l: &mut Logits, what: &str) -> R {
    warm_up(g, l, &[]);
    let b = snap(l);
    let via_token = ctx.transitions % 2 == 0;
    let t = if via_token {
        g.sample_token(&mut (), l).map_err(|e| format!("{what}: {}", err_str(&e)))?
    } else {
        let mut r = Ok(());
        if let Err(e) = g.sample(&mut (), l) {
            r = Err(format!("{what}: {}", err_str(&e)));
        }
        r?;
        g.sampled_token_id()
    };
    ctx.step();
    ctx.state(&(hash_of(&b), t));
    ctx.note(|| format!("{what}: {} -> {t:?}", short(&b.e)));
    ensure!(snap(l).same(&b), "{what}: greedy changed the collection: {} -> {}", short(&b.e), short(&snap(l).e));
    ensure!(g.sampled_token_id() == t && g.get_token_id() == t && **g == t, "{what}: the ways to read the token disagree");
    if b.e.is_empty() {
        ensure!(t.is_none(), "{what}: token {t:?} from an empty collection");
        return Ok(());
    }
    let Some(t) = t else { return Err(format!("{what}: no token from {}", short(&b.e))) };
    let max = b.e.iter().map(|x| x.1).fold(NINF, f32::max);
    let Some(x) = b.e.iter().find(|x| x.0 == t) else { return Err(format!("{what}: token {t} is not in {}", short(&b.e))) };
    ensure!(x.1 == max, "{what}: token {t} has logit {}, the maximum is {max}: {}", x.1, short(&b.e));
    Ok(())
}
fn c12(ctx: &mut Ctx) -> R {
    let sp = InputSpace { alpha: ALPHA, lo: 0, hi: ctx.qt(6, 7), sizes: SIZES_T, preps_small: 12, preps_shape: 12, odd: ctx.qt(3, 4) };
    let Some(mut i) = input(ctx, &sp) else { return Ok(()) };
    let mut g = SampleGreedy::new();
    c12_check(ctx, &mut g, &mut i.l, &i.what)?;
    let mut other = Logits::try_from_iter([5.0f32, 9.0]).unwrap();
    other[0].token_id = 777;
    other[1].token_id = 778;
    c12_check(ctx, &mut g, &mut other, "other collection")?;
    c12_check(ctx, &mut g, &mut i.l, &i.what)?;
    c12_check(ctx, &mut g, &mut Logits::default(), "empty")?;
    c12_check(ctx, &mut g, &mut i.l, &i.what)
}
fn c12_claims(ctx: &mut Ctx) -> R {
    let hi = ctx.qt(5, 6);
    let v = small_vec(ctx, ALPHA, 1, hi);
    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
    let probs = ctx.choose(3);
    match probs {
        1 => {
            let s: f32 = v.iter().map(|x| x.exp()).sum();
            l.iter_mut().for_each(|x| x.prob = x.logit.exp() / s);
        }
        2 => l.iter_mut().enumerate().for_each(|(i, x)| x.prob = 0.9 - 0.1 * i as f32),
        _ => (),
    }
    let down = v.windows(2).all(|w| w[0] >= w[1]);
    let sorted = down && ctx.flag();
    let soft = ctx.flag();
    l.set_sorted(sorted).set_softmax(soft);
    c12_check(ctx, &mut SampleGreedy::new(), &mut l, &format!("{v:?} probabilities {probs} sorted {sorted} softmax {soft}"))
}
fn c12_vocab(ctx: &mut Ctx) -> R {
    let Some((mut l, what)) = vocabulary(ctx) else { return Ok(()) };
    let mut g = SampleGreedy::new();
    c12_check(ctx, &mut g, &mut l, &what)?;
    c12_check(ctx, &mut g, &mut l, &what)
}
fn c13_vocab(ctx: &mut Ctx) -> R {
    let Some((l, what)) = vocabulary(ctx) else { return Ok(()) };
    let b = snap(&l);
    c13_body(ctx, &l, &b, 64, &what)
}
fn c14_vocab(ctx: &mut Ctx) -> R {
    let Some((l, what)) = vocabulary(ctx) else { return Ok(()) };
    let n_vocab = l.len();
    for (i, mu) in [0.5f32, 6.0, 14.0, 17.0, 20.0, 40.0, 60.0].into_iter().enumerate() {
        let (tau, eta, m) = (5.0, 0.1, [100, 100, 40_000, 100, 70_000, usize::MAX, 100][i]);
        let mut x = M1 { s: Spec::Miro1 { n_vocab, tau, eta, m, mu: Some(mu) }.miro1(), n_vocab, tau, eta, m };
        m1_call(ctx, &mut x, &mut l.clone(), words3()[i % 3], Fault::None, &what)?;
    }
    Ok(())
}
fn c15_vocab(ctx: &mut Ctx) -> R {
    let Some((l, what)) = vocabulary(ctx) else { return Ok(()) };
    for (i, mu) in [1.0f32, 5.0, 12.0, 16.5, 40.0].into_iter().enumerate() {
        let (tau, eta) = (5.0, 0.1);
        let mut x = M2 { s: Spec::Miro2 { tau, eta, mu: Some(mu) }.miro2(), tau, eta };
        m2_call(ctx, &mut x, &mut l.clone(), words3()[i % 3], Fault::None, false, &what)?;
    }
    Ok(())
}
fn c12_inf(ctx: &mut Ctx) -> R {
    let v = small_vec(ctx, &[0.0, -0.0, NINF, PINF, 1.0, f32::MIN, f32::MAX], 1, 5);
    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
    let mut g = SampleGreedy::default();
    c12_check(ctx, &mut g, &mut l, &format!("{v:?}"))?;
    l.ensure_sorted().map_err(|e| e.to_string())?;
    c12_check(ctx, &mut g, &mut l, &format!("{v:?} sorted"))
}
fn stages() -> Vec<Spec> {
    use Spec::*;
    vec![
        Temp(0.5),
        Temp(-2.0),
        Temp(-1.0),
        Bias(vec![(0, 2.25)]),
        Bias(vec![(1, NINF)]),
        Rep(1.5, 64),
        FreqPres(0.5, 0.5, 64),
        FreqPres(-0.5, -0.5, 3),
        Seq { flat: 1.5, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 },
        TopK(2, 1),
        TopP(0.7, 1),
        MinP(0.2, 1),
        TopA(0.5, 2.0, 1),
        TailFree(0.5, 1),
        Typical(0.5, 1),
        Typical(0.95, 2),
        Greedy,
        Rand,
        Miro1 { n_vocab: 50, tau: 2.0, eta: 0.1, m: 100, mu: Some(2.0) },
        Miro2 { tau: 2.0, eta: 0.1, mu: Some(1.5) },
    ]
}
fn c12_after(ctx: &mut Ctx) -> R {
    let sp = InputSpace { alpha: ALPHA4, lo: 1, hi: 3, sizes: &[5, 24, 40], preps_small: 3, preps_shape: 3, odd: 0 };
    let Some(mut i) = input(ctx, &sp) else { return Ok(()) };
    let st = stages();
    let mut what = i.what.clone();
    for _ in 0..2 {
        let s = ctx.pick(&st).clone();
        let mut r = Res::new(&[0x6000_0000], &[3, 0, 1, 2, 3, 0, 1, 0, 0, 1]);
        if let Err(e) = s.make().sample(&mut r, &mut i.l) {
            return Err(format!("{what}: {s:?} failed: {}", err_str(&e)));
        }
        ctx.step();
        what += &format!(" then {s:?}");
        if i.l.iter().any(|x| x.logit.is_nan() || x.logit == PINF) || !i.l.iter().any(|x| x.logit.is_finite()) {
            return Ok(());
        }
    }
    c12_check(ctx, &mut SampleGreedy::new(), &mut i.l, &what)
}

// ------------------------------------------------------------------ C13

pub fn c13_body(ctx: &mut Ctx, l: &Logits, b: &Snap, n: usize, what: &str) -> R {
    let q = softmax64(&b.vals());
    let pos: std::collections::HashMap<u32, usize> = b.e.iter().enumerate().map(|(i, x)| (x.0, i)).collect();
    let mut cnt = vec![0usize; b.e.len()];
    let mut s = SampleRandDistrib::new();
    let mut shared = l.clone();
    let reuse = b.e.len() > 6;
    let extremes = [0u32, 1, 0x1ff, 0x200, 0x7fff_ffff, 0x8000_0000, 0xffff_fdff, 0xffff_fe00, 0xffff_ffff];
    for c in 0..n + extremes.len() {
        let w = if c < n { grid_word(c, n) } else { extremes[c - n] };
        let mut r = Res::words(&[w]);
        let mut fresh;
        let x = if reuse {
            &mut shared
        } else {
            fresh = l.clone();
            &mut fresh
        };
        warm_up(&mut s, l, &[]);
        let t = s.sample_token(&mut r, x).map_err(|e| format!("{what}: {}", err_str(&e)))?;
        ctx.step();
        let Some(t) = t else { return Err(format!("{what}: no token from {} (word {w:#x})", short(&b.e))) };
        ensure!(s.sampled_token_id() == Some(t), "{what}: token {t} returned, {:?} reported", s.sampled_token_id());
        let Some(&i) = pos.get(&t) else { return Err(format!("{what}: token {t} is not in {}", short(&b.e))) };
        ensure!(
            b.e[i].1 != NINF && q[i] > 1e-44,
            "{what}: token {t} has probability zero (logit {}) but was picked for word {w:#x}: {}",
            b.e[i].1,
            short(&b.e)
        );
        if c < n {
            cnt[i] += 1;
        }
        if c < 3 || c + 1 == n {
            ensure!(permutation(&b.e, &snap(x).e), "{what}: an id or logit changed: {} -> {}", short(&b.e), short(&snap(x).e));
        }
    }
    for i in 0..b.e.len() {
        let f = cnt[i] as f64 / n as f64;
        ensure!(
            (f - q[i]).abs() <= 1.01 / n as f64 + eps_for(b.e.len()),
            "{what}: token {} picked with frequency {f:.5} over {n} random cells, softmax probability {:.5}: {}",
            b.e[i].0,
            q[i],
            short(&b.e)
        );
    }
    ctx.state(&cnt);
    ctx.note(|| format!("{what}: {} counts {:?}", short(&b.e), &cnt[..cnt.len().min(8)]));
    Ok(())
}
fn c13(ctx: &mut Ctx) -> R {
    let sp = InputSpace {
        alpha: ALPHA,
        lo: 1,
        hi: ctx.qt(4, 5),
        sizes: &[2, 3, 5, 8, 17, 21, 33, 40, 64, 129, 257, 512],
        preps_small: 12,
        preps_shape: 12,
        odd: 3,
    };
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    let n = 4096;
    c13_body(ctx, &i.l, &i.s, n, &i.what)
}
fn c13_fine(ctx: &mut Ctx) -> R {
    let k = ctx.choose(6);
    let v = match k {
        0 => vec![0.0, 1.0, 2.0, -4.0],
        1 => vec![-6.0, 0.0],
        2 => shape("zipf", 50),
        3 => shape("forbid3", 30),
        4 => shape("shuf", 1000),
        _ => shape("ties", 64),
    };
    let l = Logits::try_from_iter(v.iter().copied()).unwrap();
    let s = snap(&l);
    let n = 65536;
    c13_body(ctx, &l, &s, n, &format!("collection {k}"))
}

/// Every one of the 2^23 outcomes of a single-precision uniform draw.
fn c13_all(ctx: &mut Ctx) -> R {
    let k = ctx.choose(ctx.qt(8, 16));
    let v: Vec<f32> = match k {
        0 => [0.0].into_iter().chain([9e-7f32.ln(); 40]).collect(),
        1 => [9e-7f32.ln(); 30].into_iter().chain([0.0]).collect(),
        2 => vec![0.0, -14.0, -14.5, -15.0, NINF],
        3 => vec![-13.0, 0.0, 0.0, -13.5, -90.0, -13.0],
        4 => vec![0.0; 3],
        5 => vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0],
        6 => (0..24).map(|i| -0.6 * i as f32).collect(),
        7 => vec![0.0, -0.1, 0.1, 0.25, -0.4, -7.0, -7.5, 0.0, -8.0],
        8 => shape("zipf", 30),
        9 => shape("shuf", 24),
        10 => shape("forbid3", 20),
        11 => shape("plateaus", 40),
        12 => vec![0.0, -14.2],
        13 => vec![-14.2, 0.0],
        14 => [0.0, 0.0].into_iter().chain([-15.0; 20]).chain([-1.0]).collect(),
        _ => shape("peak", 35),
    };
    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
    let q = softmax64(&v);
    let n = 1u32 << 23;
    let mut cnt = vec![0u32; v.len()];
    let mut s = SampleRandDistrib::new();
    let mut r = Res::words(&[0]);
    for c in 0..n {
        if let Some(g) = r.rng.as_mut() {
            g.words[0] = c << 9 | 0x100;
            g.pos = 0;
            g.drawn = 0;
        }
        match s.sample_token(&mut r, &mut l) {
            Ok(Some(t)) if (t as usize) < cnt.len() => cnt[t as usize] += 1,
            o => return Err(format!("word {:#x}: {o:?} from {v:?}", c << 9 | 0x100)),
        }
        if c % 65536 == 0 {
            ctx.step();
        }
    }
    for i in 0..v.len() {
        let f = cnt[i] as f64 / n as f64;
        // Two cells, the rounding of two running sums, and the softmax's own rounding.
        let tol = 2.0 / n as f64 + 2.6e-7 + 1e-5 * q[i];
        ensure!((f - q[i]).abs() <= tol, "token {i} picked by {} of {n} words, its probability is {:e}: {v:?}", cnt[i], q[i]);
    }
    ctx.state(&cnt);
    ctx.note(|| format!("{v:?}: {cnt:?}"));
    Ok(())
}

// ------------------------------------------------------------------ Mirostat shared

fn float_opt<S: ConfigurableSampler<usize, f32>>(s: &S, k: &str) -> Result<f64, String> {
    match s.get_option(k) {
        Ok(SamplerOptionValue::Float(x)) => Ok(x),
        o => Err(format!("get_option({k}) gave {o:?}")),
    }
}

/// After the call: kept entries are the top ones, token among them, mu updated.
#[allow(clippy::too_many_arguments)]
fn miro_after(b: &Snap, s: &Snap, tok: Option<u32>, lo: usize, hi: usize, tau: f32, eta: f32, mu0: f64, mu1: f64, what: &str) -> R {
    sub_collection(&b.e, &s.e).map_err(|m| format!("{what}: {m}"))?;
    top_values(&b.e, &s.e).map_err(|m| format!("{what}: {m}"))?;
    let m = s.e.len();
    ensure!(
        m >= lo && m <= hi,
        "{what}: keeps {m} of {} tokens, expected {lo}..{hi}: {} -> {}",
        b.e.len(),
        short(&b.e),
        short(&s.e)
    );
    let Some(t) = tok else { return Err(format!("{what}: no token drawn from {}", short(&b.e))) };
    let Some(i) = s.e.iter().position(|x| x.0 == t) else {
        return Err(format!("{what}: drawn token {t} is not among the kept ones {}", short(&s.e)));
    };
    let q = softmax64(&s.vals());
    ensure!(q[i] > 1e-44, "{what}: token {t} of probability zero drawn");
    let surprise = -q[i].log2();
    let want = mu0 - eta as f64 * (surprise - tau as f64);
    // Single precision: the probability's own error, the logarithm's, and the subtraction's.
    let e = eta.abs() as f64;
    let prob = if dyadic(&s.vals()) { 0.0 } else { 4.0 * eps_for(m) + 1e-6 * surprise + 2e-45 / q[i] };
    let tol = e * (prob + 2.4e-7 * (surprise + tau.abs() as f64)) + 2.4e-7 * (mu0.abs() + want.abs());
    ensure!(
        (mu1 - want).abs() <= tol,
        "{what}: mu went from {mu0} to {mu1}, expected {want} (drawn token {t} has renormalised surprise {surprise:.5})"
    );
    Ok(())
}

// ------------------------------------------------------------------ C14

/// Admissible number of kept tokens, None when the formula has no value.
fn miro1_k(v: &[f32], n_vocab: usize, m: usize, mu: f64) -> Option<(usize, usize)> {
    let q = probs_desc(v);
    let n = q.len();
    let pairs = (m - 1).min(n - 1);
    if pairs == 0 {
        return None;
    }
    let (mut a, mut b, mut da) = (0f64, 0f64, 0f64);
    for i in 0..pairs {
        if q[i + 1] < 1e-37 {
            return None;
        }
        let t = ((i as f64 + 2.0) / (i as f64 + 1.0)).ln();
        let r = (q[i] / q[i + 1]).ln();
        a += t * r;
        b += t * t;
        da += t * (4e-7 + r.abs() * 4e-7);
    }
    let s = a / b;
    let ds = da / b + s.abs() * (pairs as f64 * 6e-8 + 1e-6) + 1e-7;
    let f = |s: f64, w: f64| -> f64 {
        let e = s - 1.0;
        let x = e * 2f64.powf(mu) / (1.0 - (n_vocab as f64).powf(-e));
        (x * w).powf(1.0 / s)
    };
    if s - 2.0 * ds <= 0.0 || n_vocab <= 1 {
        return None;
    }
    let e = s - 1.0;
    let ln_n = (n_vocab as f64).ln();
    // Cancellation in 1 - N^-e near e = 0.
    let rel = 1e-5 + 1e-6 * mu.abs() + 4e-7 / ((e.abs() * ln_n).min(1.0) + 1e-12) + 1e-6 * e.abs() * ln_n;
    if rel > 0.3 || (e - 2.0 * ds) * (e + 2.0 * ds) <= 0.0 {
        return None; // s within rounding of 1: 0/0
    }
    let (mut lo, mut hi) = (f64::INFINITY, 0f64);
    for ss in [s - 2.0 * ds, s, s + 2.0 * ds] {
        for w in [1.0 - rel, 1.0, 1.0 + rel] {
            let k = f(ss, w);
            if !k.is_finite() {
                // Beyond every size.
                if k.is_nan() {
                    return None;
                }
            }
            lo = lo.min(k);
            hi = hi.max(k);
        }
    }
    let fl = |x: f64| if x > 1e9 { n } else { (x.floor() as usize).clamp(1, n) };
    // f32 overflow of the intermediate value happens beyond any size used here.
    Some((fl(lo * (1.0 - 1e-6)), fl(hi * (1.0 + 1e-6))))
}
pub struct M1 {
    pub s: SampleMirostat1,
    pub n_vocab: usize,
    pub tau: f32,
    pub eta: f32,
    pub m: usize,
}
pub fn m1_call(ctx: &mut Ctx, x: &mut M1, l: &mut Logits, word: u32, fault: Fault, what: &str) -> R {
    warm_up(&mut x.s, l, &[]);
    let b = snap(l);
    let mu0 = float_opt(&x.s, "mu")?;
    let mut r = Res::words(&[word]);
    r.rng_fault = fault;
    // A failing access fails before or after the draw.
    r.err = if l.len() % 2 == 0 { ERRS } else { 0 };
    let out = x.s.sample_token(&mut r, l);
    ctx.step();
    let s = snap(l);
    let mu1 = float_opt(&x.s, "mu")?;
    ctx.state(&(hash_of(&s), mu1.to_bits()));
    let what = format!("{what} n_vocab={} tau={} eta={} m={} mu={mu0}", x.n_vocab, x.tau, x.eta, x.m);
    ctx.note(|| format!("{what}: {} -> {} token {:?} mu {mu1}", short(&b.e), short(&s.e), out.as_ref().ok()));
    for (k, v) in [("tau", x.tau), ("eta", x.eta)] {
        ensure!(float_opt(&x.s, k)? == v as f64, "{what}: {k} changed by sampling");
    }
    if b.e.is_empty() || x.m == 0 {
        match out {
            Ok(None) => {}
            o => return Err(format!("{what}: nothing to draw but got {o:?}")),
        }
        ensure!(mu0.to_bits() == mu1.to_bits(), "{what}: mu changed to {mu1} although nothing was drawn");
        return Ok(());
    }
    if fault != Fault::None || x.n_vocab == 0 {
        ensure!(out.is_err(), "{what}: expected an error, got {out:?}");
        ensure!(mu0.to_bits() == mu1.to_bits(), "{what}: mu changed to {mu1} by a failing call");
        ensure!(x.s.sampled_token_id().is_none(), "{what}: failing call reports token {:?}", x.s.sampled_token_id());
        return Ok(());
    }
    let tok = out.map_err(|e| format!("{what}: failed: {}", err_str(&e)))?;
    ensure!(x.s.sampled_token_id() == tok, "{what}: reported and returned token differ");
    let (lo, hi) = miro1_k(&b.vals(), x.n_vocab, x.m, mu0).unwrap_or((1, b.e.len()));
    miro_after(&b, &s, tok, lo, hi, x.tau, x.eta, mu0, mu1, &what)
}
pub fn words3() -> [u32; 3] {
    [grid_word(3, 16), grid_word(11, 16), grid_word(15, 16)]
}
fn m1_inputs() -> Vec<(&'static str, usize)> {
    vec![("zipf", 5), ("zipf", 101), ("desc", 20), ("shuf", 40), ("plateaus", 12), ("peak", 9), ("steep", 30), ("forbid3", 9), ("ties", 4)]
}
fn c14_hist(ctx: &mut Ctx) -> R {
    let n_vocab = *ctx.pick(&[50usize, 2, 1000, 32000, 0]);
    let (tau, eta) = *ctx.pick(&[(3.0f32, 0.1f32), (1.0, 0.5), (5.0, 1.0)]);
    let m = *ctx.pick(&[100usize, 2, 5, 1, 0]);
    let mu = *ctx.pick(&[None, Some(0.5f32), Some(3.0), Some(-1.0)]);
    let sp = Spec::Miro1 { n_vocab, tau, eta, m, mu };
    let mut x = M1 { s: sp.miro1(), n_vocab, tau, eta, m };
    let mu0 = float_opt(&x.s, "mu")?;
    let want = mu.unwrap_or(tau * 2.0) as f64;
    ensure!(mu0 == want, "initial mu {mu0}, expected {want}");
    let ins = m1_inputs();
    let depth = ctx.qt(2, 3);
    for d in 0..depth {
        let k = ctx.choose(ins.len() + 3);
        let mut fault = Fault::None;
        let mut l;
        let mut word = 0;
        if k < ins.len() {
            l = Logits::try_from_iter(shape(ins[k].0, ins[k].1)).unwrap();
            word = *ctx.pick(&words3());
        } else if k == ins.len() {
            l = Logits::default();
        } else {
            l = Logits::try_from_iter(shape("zipf", 6)).unwrap();
            fault = if k == ins.len() + 1 { Fault::Missing } else { Fault::Fails };
        }
        m1_call(ctx, &mut x, &mut l, word, fault, &format!("call {d}"))?;
    }
    Ok(())
}
/// One event of a long history: 5 inputs x 3 words, empty, missing, failing.
pub fn long_event(k: usize, ins: &[(&'static str, usize); 5]) -> (Logits, u32, Fault) {
    match k {
        15 => (Logits::default(), 0, Fault::None),
        16 | 17 => (
            Logits::try_from_iter(shape("zipf", 6)).unwrap(),
            0,
            if k == 16 { Fault::Missing } else { Fault::Fails },
        ),
        _ => (Logits::try_from_iter(shape(ins[k / 3].0, ins[k / 3].1)).unwrap(), words3()[k % 3], Fault::None),
    }
}
fn c14_long(ctx: &mut Ctx) -> R {
    let n_vocab = *ctx.pick(&[50usize, 32000]);
    let (tau, eta) = *ctx.pick(&[(3.0f32, 0.1f32), (1.0, 0.5), (5.0, 1.0)]);
    let m = *ctx.pick(&[100usize, 3]);
    let path = periodic(ctx, 18, ctx.qt(2, 3), 300);
    let mut x = M1 { s: Spec::Miro1 { n_vocab, tau, eta, m, mu: None }.miro1(), n_vocab, tau, eta, m };
    for (d, k) in path.iter().enumerate() {
        let (mut l, word, fault) = long_event(*k, &[("zipf", 5), ("zipf", 61), ("shuf", 20), ("forbid3", 9), ("ties", 4)]);
        m1_call(ctx, &mut x, &mut l, word, fault, &format!("call {d}"))?;
    }
    Ok(())
}
fn c15_long(ctx: &mut Ctx) -> R {
    let (tau, eta) = *ctx.pick(&[(3.0f32, 0.1f32), (1.0, 0.5), (2.0, 1.0)]);
    let mu = *ctx.pick(&[None, Some(0.5f32)]);
    let path = periodic(ctx, 18, ctx.qt(2, 3), 300);
    let mut x = M2 { s: Spec::Miro2 { tau, eta, mu }.miro2(), tau, eta };
    for (d, k) in path.iter().enumerate() {
        let (mut l, word, fault) = long_event(*k, &[("zipf", 6), ("shuf", 20), ("plateaus", 9), ("forbid3", 9), ("onehot", 3)]);
        m2_call(ctx, &mut x, &mut l, word, fault, false, &format!("call {d}"))?;
    }
    Ok(())
}
/// Equal probabilities 2^-k: the learning step has to be exact, however small it is.
fn step_params(ctx: &mut Ctx) -> (f32, f32, f32, Logits, String) {
    let k = *ctx.pick(&[0usize, 1, 2, 3, 5, 8]);
    let eta = *ctx.pick(&[0.1f32, 1.0, 100.0, 0.001, -2.0]);
    let d = *ctx.pick(&[0.0f32, 0.5, -0.3, 0.05, -0.01, 1e-3, -1e-4, 1e-5, 20.0, -20.0]);
    let mu = k as f32 + *ctx.pick(&[0.0f32, 0.5, 3.0]);
    let zeros = ctx.flag();
    let mut v = vec![0.75f32; 1 << k];
    if zeros {
        v.insert(0, NINF);
        v.push(NINF);
    }
    let l = Logits::try_from_iter(v).unwrap();
    (k as f32 + d, eta, mu, l, format!("2^{k} equal tokens"))
}
fn c14_step(ctx: &mut Ctx) -> R {
    let (tau, eta, mu, l, what) = step_params(ctx);
    let (n_vocab, m) = (*ctx.pick(&[2usize, 50, 32000]), 100);
    for mu in [mu, 20.0] {
        let mut x = M1 { s: Spec::Miro1 { n_vocab, tau, eta, m, mu: Some(mu) }.miro1(), n_vocab, tau, eta, m };
        for c in 0..3 {
            m1_call(ctx, &mut x, &mut l.clone(), words3()[c], Fault::None, &what)?;
        }
    }
    Ok(())
}
fn c15_step(ctx: &mut Ctx) -> R {
    let (tau, eta, mu, l, what) = step_params(ctx);
    let exact = dyadic(&snap(&l).vals());
    let mut x = M2 { s: Spec::Miro2 { tau, eta, mu: Some(mu) }.miro2(), tau, eta };
    for c in 0..3 {
        m2_call(ctx, &mut x, &mut l.clone(), words3()[c], Fault::None, exact, &what)?;
    }
    Ok(())
}
fn c14_cut(ctx: &mut Ctx) -> R {
    let kind = *ctx.pick(&["zipf", "desc", "asc", "shuf", "plateaus", "steep", "two", "peak", "ties"]);
    let n = *ctx.pick(SIZES_T);
    let p = PREPS[ctx.choose(PREPS.len())];
    let Some(l) = prepare(p, &shape(kind, n)) else { return Ok(()) };
    let word = grid_word(5, 16);
    for n_vocab in [2usize, 10, 1000, 50000] {
        for m in [100usize, 2, 3, 10, 99, 101, 1000, usize::MAX] {
            for mu in [0.25f32, 1.0, 2.0, 4.0, 6.0, 8.0, 10.0] {
                let sp = Spec::Miro1 { n_vocab, tau: 3.0, eta: 0.1, m, mu: Some(mu) };
                let mut x = M1 { s: sp.miro1(), n_vocab, tau: 3.0, eta: 0.1, m };
                let mut c = l.clone();
                m1_call(ctx, &mut x, &mut c, word, Fault::None, &format!("{kind}({n}) {p}"))?;
            }
        }
    }
    Ok(())
}
fn draw_freq(ctx: &mut Ctx, make: &dyn Fn() -> Box<dyn Sampler>, l: &Logits, what: &str) -> R {
    let n = 512;
    let mut cnt: std::collections::HashMap<u32, usize> = Default::default();
    let mut kept: Option<Snap> = None;
    for c in 0..n {
        let mut s = make();
        let mut x = l.clone();
        let mut r = Res::words(&[grid_word(c, n)]);
        let t = s.sample_token(&mut r, &mut x).map_err(|e| format!("{what}: {}", err_str(&e)))?;
        ctx.step();
        let Some(t) = t else { return Err(format!("{what}: no token")) };
        *cnt.entry(t).or_default() += 1;
        let k = snap(&x);
        match &kept {
            None => kept = Some(k),
            Some(o) => ensure!(permutation(&o.e, &k.e), "{what}: kept tokens depend on the random outcome"),
        }
    }
    let k = kept.unwrap();
    let q = softmax64(&k.vals());
    for (i, (t, _)) in k.e.iter().enumerate() {
        let f = *cnt.get(t).unwrap_or(&0) as f64 / n as f64;
        ensure!(
            (f - q[i]).abs() <= 1.01 / n as f64 + eps_for(k.e.len()),
            "{what}: kept token {t} drawn with frequency {f:.4}, its renormalised probability is {:.4}: kept {}",
            q[i],
            short(&k.e)
        );
    }
    ctx.state(&hash_of(&k));
    ctx.note(|| format!("{what}: kept {} of {}", k.e.len(), l.len()));
    Ok(())
}
fn c14_draw(ctx: &mut Ctx) -> R {
    let (kind, n) = *ctx.pick(&[("zipf", 8), ("shuf", 20), ("desc", 6), ("plateaus", 10), ("steep", 9), ("two", 6), ("ties", 4), ("zipf", 120)]);
    let mu = *ctx.pick(&[0.5f32, 1.5, 2.5, 4.0, 8.0]);
    let p = *ctx.pick(&["raw", "softmaxed", "softmax+temp2"]);
    let sp = Spec::Miro1 { n_vocab: 1000, tau: 3.0, eta: 0.1, m: 100, mu: Some(mu) };
    let Some(l) = prepare(p, &shape(kind, n)) else { return Ok(()) };
    draw_freq(ctx, &|| sp.make(), &l, &format!("{kind}({n}) {p} {sp:?}"))
}

// ------------------------------------------------------------------ C15

fn miro2_k(v: &[f32], mu: f64, exact: bool) -> (usize, usize) {
    let q = probs_desc(v);
    let n = q.len();
    let eps = if exact { 0.0 } else { 3e-6 * (1.0 + mu.abs()) + n as f64 * 1e-7 };
    // Probabilities below the smallest normal float lose precision: their surprise
    // (about 126 to 150 bits, or infinite) is above every mu used here or decided leniently.
    let cut = |t: f64| (0..n).find(|i| -q[*i].log2() > t).unwrap_or(n).max(1);
    (cut(mu - eps), cut(mu + eps))
}
pub struct M2 {
    pub s: SampleMirostat2,
    pub tau: f32,
    pub eta: f32,
}
pub fn m2_call(ctx: &mut Ctx, x: &mut M2, l: &mut Logits, word: u32, fault: Fault, exact: bool, what: &str) -> R {
    warm_up(&mut x.s, l, &[]);
    let b = snap(l);
    let mu0 = float_opt(&x.s, "mu")?;
    let mut r = Res::words(&[word]);
    r.rng_fault = fault;
    // A failing access fails before or after the draw.
    r.err = if l.len() % 2 == 0 { ERRS } else { 0 };
    let out = x.s.sample_token(&mut r, l);
    ctx.step();
    let s = snap(l);
    let mu1 = float_opt(&x.s, "mu")?;
    ctx.state(&(hash_of(&s), mu1.to_bits()));
    let what = format!("{what} tau={} eta={} mu={mu0}", x.tau, x.eta);
    ctx.note(|| format!("{what}: {} -> {} token {:?} mu {mu1}", short(&b.e), short(&s.e), out.as_ref().ok()));
    for (k, v) in [("tau", x.tau), ("eta", x.eta)] {
        ensure!(float_opt(&x.s, k)? == v as f64, "{what}: {k} changed by sampling");
    }
    if b.e.is_empty() {
        match out {
            Ok(None) => {}
            o => return Err(format!("{what}: empty collection but got {o:?}")),
        }
        ensure!(mu0.to_bits() == mu1.to_bits(), "{what}: mu changed to {mu1} although nothing was drawn");
        return Ok(());
    }
    if fault != Fault::None {
        ensure!(out.is_err(), "{what}: expected an error, got {out:?}");
        ensure!(mu0.to_bits() == mu1.to_bits(), "{what}: mu changed to {mu1} by a failing call");
        ensure!(x.s.sampled_token_id().is_none(), "{what}: failing call reports token {:?}", x.s.sampled_token_id());
        return Ok(());
    }
    let tok = out.map_err(|e| format!("{what}: failed: {}", err_str(&e)))?;
    ensure!(x.s.sampled_token_id() == tok, "{what}: reported and returned token differ");
    let (lo, hi) = miro2_k(&b.vals(), mu0, exact);
    miro_after(&b, &s, tok, lo, hi, x.tau, x.eta, mu0, mu1, &what)
}
fn c15_hist(ctx: &mut Ctx) -> R {
    let (tau, eta) = *ctx.pick(&[(3.0f32, 0.1f32), (1.0, 0.5), (2.0, 1.0), (0.5, -0.25)]);
    let mu = *ctx.pick(&[None, Some(0.5f32), Some(1.75), Some(-1.0)]);
    let sp = Spec::Miro2 { tau, eta, mu };
    let mut x = M2 { s: sp.miro2(), tau, eta };
    let mu0 = float_opt(&x.s, "mu")?;
    let want = mu.unwrap_or(tau * 2.0) as f64;
    ensure!(mu0 == want, "initial mu {mu0}, expected {want}");
    let ins = [("zipf", 6), ("shuf", 20), ("plateaus", 9), ("forbid3", 9), ("peak", 5), ("onehot", 3)];
    let depth = ctx.qt(4, 5);
    for d in 0..depth {
        let k = ctx.choose(ins.len() + 3);
        let mut fault = Fault::None;
        let mut l;
        let mut word = 0;
        if k < ins.len() {
            l = Logits::try_from_iter(shape(ins[k].0, ins[k].1)).unwrap();
            word = *ctx.pick(&words3());
        } else if k == ins.len() {
            l = Logits::default();
        } else {
            l = Logits::try_from_iter(shape("zipf", 6)).unwrap();
            fault = if k == ins.len() + 1 { Fault::Missing } else { Fault::Fails };
        }
        m2_call(ctx, &mut x, &mut l, word, fault, false, &format!("call {d}"))?;
    }
    Ok(())
}
fn c15_cut(ctx: &mut Ctx) -> R {
    let sp = InputSpace { alpha: ALPHA, lo: 1, hi: ctx.qt(5, 6), sizes: SIZES_T, preps_small: 12, preps_shape: 12, odd: ctx.qt(3, 4) };
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    let exact = dyadic(&i.s.vals());
    for mu in [0.0f32, 0.25, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.5, 8.0, 10.0, -3.0, 60.0] {
        let sp = Spec::Miro2 { tau: 3.0, eta: 0.1, mu: Some(mu) };
        let mut x = M2 { s: sp.miro2(), tau: 3.0, eta: 0.1 };
        let mut l = i.l.clone();
        m2_call(ctx, &mut x, &mut l, grid_word(9, 16), Fault::None, exact, &i.what)?;
    }
    Ok(())
}
fn c15_draw(ctx: &mut Ctx) -> R {
    let (kind, n) = *ctx.pick(&[("zipf", 8), ("shuf", 20), ("desc", 6), ("plateaus", 10), ("steep", 9), ("two", 6), ("ties", 4), ("forbid3", 10)]);
    let mu = *ctx.pick(&[0.5f32, 1.5, 2.5, 4.0, 8.0]);
    let p = *ctx.pick(&["raw", "softmaxed", "softmax+temp2"]);
    let sp = Spec::Miro2 { tau: 3.0, eta: 0.1, mu: Some(mu) };
    let Some(l) = prepare(p, &shape(kind, n)) else { return Ok(()) };
    draw_freq(ctx, &|| sp.make(), &l, &format!("{kind}({n}) {p} {sp:?}"))
}

// ------------------------------------------------------------------ selectors used before

fn c12_reused(ctx: &mut Ctx) -> R {
    let Some(mut i) = reused(ctx) else { return Ok(()) };
    c12_check(ctx, &mut SampleGreedy::new(), &mut i.l, &i.what)
}
fn c13_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    c13_body(ctx, &i.l, &i.s, 24, &i.what)
}
fn c14_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for (n_vocab, m, mu) in [(50usize, 100usize, 1.5f32), (1000, 3, 4.0), (50, 100, 12.0)] {
        for w in words3() {
            let (tau, eta) = (2.0, 0.25);
            let mut x = M1 { s: Spec::Miro1 { n_vocab, tau, eta, m, mu: Some(mu) }.miro1(), n_vocab, tau, eta, m };
            m1_call(ctx, &mut x, &mut i.l.clone(), w, Fault::None, &i.what)?;
        }
    }
    Ok(())
}
fn c15_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for mu in [0.5f32, 1.75, 4.0, 9.0] {
        for w in words3() {
            let (tau, eta) = (2.0, 0.25);
            let mut x = M2 { s: Spec::Miro2 { tau, eta, mu: Some(mu) }.miro2(), tau, eta };
            m2_call(ctx, &mut x, &mut i.l.clone(), w, Fault::None, false, &i.what)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C26

pub const SELECTORS: usize = 13;
pub fn selector(i: usize) -> (&'static str, Box<dyn Sampler>) {
    let m1 = || Spec::Miro1 { n_vocab: 50, tau: 2.0, eta: 0.1, m: 100, mu: None }.miro1();
    let m2 = || Spec::Miro2 { tau: 2.0, eta: 0.1, mu: None }.miro2();
    match i {
        0 => ("greedy", Box::new(SampleGreedy::new())),
        1 => ("rand", Box::new(SampleRandDistrib::new())),
        2 => ("mirostat1", Box::new(m1())),
        3 => ("mirostat2", Box::new(m2())),
        4 => ("chain rep+greedy", Box::new(SamplerChain::new() + SampleRepetition::new(1.5, 8) + SampleGreedy::new())),
        5 => ("chain rep+rand", Box::new(SamplerChain::new() + SampleRepetition::new(1.5, 8) + SampleRandDistrib::new())),
        6 => ("chain rep+mirostat1", Box::new(SamplerChain::new() + SampleRepetition::new(1.5, 8) + m1())),
        7 => ("chain rep+mirostat2", Box::new(SamplerChain::new() + SampleRepetition::new(1.5, 8) + m2())),
        8 => (
            "chain rep+(chain temp+rand)",
            Box::new(SamplerChain::new() + SampleRepetition::new(1.5, 8) + (SamplerChain::new() + SampleTemperature::new(0.7) + SampleRandDistrib::new())),
        ),
        9 => ("chain greedy+rand", Box::new(SamplerChain::new() + SampleGreedy::new() + SampleRandDistrib::new())),
        10 => ("chain greedy+rep+mirostat2", Box::new(SamplerChain::new() + SampleGreedy::new() + SampleRepetition::new(1.5, 8) + m2())),
        11 => (
            "chain (greedy)+(rep+mirostat1)",
            Box::new(SamplerChain::new() + (SamplerChain::new() + SampleGreedy::new()) + (SamplerChain::new() + SampleRepetition::new(1.5, 8) + m1())),
        ),
        _ => {
            let s: std::sync::Arc<std::sync::Mutex<dyn Sampler>> = std::sync::Arc::new(std::sync::Mutex::new(SampleRandDistrib::new()));
            ("chain topk+shared rand", Box::new(SamplerChain::new() + SampleTopK::new(2, 1) + s))
        }
    }
}
pub fn coll(base: u32, v: &[f32]) -> Logits {
    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
    for x in l.iter_mut() {
        x.token_id += base;
    }
    l
}
fn c26(ctx: &mut Ctx) -> R {
    stale(ctx, None)
}
fn c26_long(ctx: &mut Ctx) -> R {
    let plan = periodic(ctx, 16, ctx.qt(2, 3), 200);
    stale(ctx, Some(plan))
}
/// All short histories of events, or the given long one.
pub fn stale(ctx: &mut Ctx, long: Option<Vec<usize>>) -> R {
    let which = ctx.choose(SELECTORS);
    let (name, mut s) = selector(which);
    ensure!(s.sampled_token_id().is_none(), "{name}: token reported before any call");
    let depth = ctx.qt(5, 6);
    let mut path = String::new();
    for d in 0..long.as_ref().map_or(depth, |p| p.len()) {
        let (op, via) = match &long {
            Some(plan) => (plan[d] / 2, plan[d] % 2 == 1),
            None => (ctx.choose(8), ctx.flag()),
        };
        if path.len() > 20_000 {
            path = "..".into();
        }
        let mut r = Res::new(&[grid_word(7 + d * 3, 32)], &[1, 101]);
        let base = 100 * (d as u32 + 1);
        let mut l = match op {
            0 => coll(base, &[1.0, 2.0, 0.5]),
            1 => coll(base, &[NINF, 0.25]),
            // Never filled, or emptied in place.
            2 if (d % 2 == 0) == via => Logits::default(),
            2 => {
                let mut l = coll(base, &[1.0, 2.0, 0.5]);
                l.clear();
                l
            }
            6 => coll(base, &[NINF, NINF, NINF]),
            7 => {
                let mut l = coll(base, &[0.5, NINF, 0.25]);
                l[1].logit = f32::NAN;
                l
            }
            _ => coll(base, &[0.5, 0.1]),
        };
        match op {
            3 => r.rng_fault = Fault::Missing,
            4 => {
                // Fails before or after the draw.
                r.rng_fault = Fault::Fails;
                r.err = if (d % 2 == 0) == via { ERRS } else { 0 };
            }
            5 => r.tok_fault = Fault::Missing,
            _ => {}
        }
        let b = snap(&l);
        let (ok, got) = if via {
            let o = s.sample_token(&mut r, &mut l);
            let rep = s.sampled_token_id();
            if let Ok(t) = &o {
                ensure!(*t == rep, "{name} {path}: returned {t:?} but reports {rep:?}");
            }
            (o.is_ok(), rep)
        } else {
            let ok = s.sample(&mut r, &mut l).is_ok();
            (ok, s.sampled_token_id())
        };
        ctx.step();
        path += &format!("[op{op} ok={ok} token={got:?}]");
        ctx.state(&(which, op, ok, got));
        ctx.note(|| format!("{name} op{op} via_token={via}: ok={ok} token={got:?}"));
        if op >= 6 {
            // Nothing can be drawn, but greedy still has a best token.
            if let Some(t) = got {
                ensure!(ok, "{name} {path}: a failed call reports token {t}");
                ensure!(b.e.iter().any(|x| x.0 == t), "{name} {path}: token {t} does not come from the latest collection {:?}", b.e);
            }
        } else if !ok || b.e.is_empty() {
            ensure!(got.is_none(), "{name} {path}: a failed or empty call reports token {got:?}");
        } else {
            if let Some(t) = got {
                ensure!(b.e.iter().any(|x| x.0 == t), "{name} {path}: token {t} does not come from the latest collection {:?}", b.e);
            }
            ensure!(got.is_some(), "{name} {path}: successful call on a nonempty collection reports no token");
        }
        // Reading twice gives the same.
        ensure!(s.sampled_token_id() == got, "{name} {path}: reading the token twice differs");
    }
    Ok(())
}
fn c26_extend(ctx: &mut Ctx) -> R {
    let sel = ctx.choose(4);
    let st = stages();
    let add = ctx.pick(&st).clone();
    let way = ctx.choose(3);
    let twice = ctx.flag();
    let mut c = SamplerChain::new() + selector(sel).1;
    let mut r = Res::new(&[0x4000_0000], &[0]);
    let mut l = coll(10, &[1.0, 2.0, 0.0]);
    let t = c.sample_token(&mut r, &mut l).map_err(|e| err_str(&e))?;
    ctx.step();
    ensure!(t.is_some(), "selector {sel} chose nothing");
    let mut c = match way {
        0 => {
            c.push_sampler(add.make());
            c
        }
        1 => {
            c += add.make();
            c
        }
        _ => c + add.make(),
    };
    ctx.note(|| format!("selector {sel} token {t:?}, extended with {add:?} way {way}: {:?}", c.sampled_token_id()));
    ctx.state(&(sel, way, c.sampled_token_id()));
    ensure!(c.sampled_token_id().is_none(), "extending the chain with {add:?} keeps token {:?}", c.sampled_token_id());
    if twice {
        let mut l = coll(50, &[1.0, 2.0, 0.0]);
        let _ = c.sample_token(&mut r, &mut l);
        ctx.step();
        if let Some(t) = c.sampled_token_id() {
            ensure!((50..53).contains(&t), "token {t} is not from the latest collection");
        }
    }
    Ok(())
}
