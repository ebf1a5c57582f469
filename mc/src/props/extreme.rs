//! C32: nothing panics, hangs or invents tokens, whatever the parameters and values.
use crate::common::*;
use crate::engine::*;

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C32",
            name: "small_collections",
            bounds: "all collections of 0-4 (quick) / 0-5 (thorough) entries over {-inf,+inf,NaN,0,1,-1,f32::MAX,f32::MIN,smallest} x 188 extreme parameter sets of all 15 samplers x 2 histories, called twice",
            run: c32_small,
        },
        Harness {
            prop: "C32",
            name: "parameter_grid",
            bounds: "every combination of extreme parameters (9-10 floats, 5 integers per slot; sequence repetition: 4x4 x 5x4x5x4) of every sampler x 16 degenerate collections x 2-6 histories, two calls",
            run: c32_grid,
        },
        Harness {
            prop: "C32",
            name: "larger_collections",
            bounds: "sizes 4,20,21,22,64,65,300 x 14 fill patterns (NaN or infinity at enumerated positions, all forbidden, ties) x 5 ways of disturbing the claims x 188 extreme parameter sets",
            run: c32_large,
        },
        Harness {
            prop: "C32",
            name: "pairs",
            bounds: "all ordered pairs of 60 (quick) / 188 (thorough) extreme parameter sets, as a chain, x 10 degenerate collections x 2 histories, two calls",
            run: c32_pairs,
        },
        Harness {
            prop: "C32",
            name: "sorting_and_building",
            bounds: "building, top-k building (k up to the largest integer), sorting and softmax of all vectors of 0-4 (quick) / 0-5 (thorough) values over 9 special values, and of 7 sizes x 14 patterns",
            run: c32_build,
        },
        Harness {
            prop: "C32",
            name: "sequence_histories",
            bounds: "sequence repetition with 5x4x5x4 integer parameters x all token histories of length 0-7 (quick) / 0-9 (thorough) over 2 tokens and 10 long periodic ones up to 120 tokens",
            run: c32_seq,
        },
    ]
}

const SPECIAL: &[f32] = &[NINF, PINF, f32::NAN, 0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE];
const EF: &[f32] = &[0.0, 1.0, -1.0, 0.5, NINF, PINF, f32::NAN, f32::MAX, f32::MIN, 1e-45];
const EU: &[usize] = &[0, 1, 2, usize::MAX - 1, usize::MAX];
const H: &[&[u32]] = &[&[0, 1, 0, 1, 0], &[], &[2, 2, 2, 2, 2, 2, 2, 2], &[u32::MAX, 0, u32::MAX, 1, u32::MAX, 0], &[0], &[0, 1, 2, 0, 1, 3, 0, 1]];
const WORDS: &[u32] = &[0, u32::MAX, 0x8000_0000, 0x0000_0100, 0xffff_fe00, 0x7fff_ffff];

/// A selection of extreme parameter sets of every sampler.
pub fn extremes() -> Vec<Spec> {
    use Spec::*;
    let mut v = vec![Greedy, Rand];
    for k in [0, 1, 2, usize::MAX] {
        for m in [0, 1, usize::MAX] {
            v.push(TopK(k, m));
        }
    }
    for p in EF {
        v.push(TopP(*p, 0));
        v.push(MinP(*p, 0));
        v.push(TailFree(*p, 0));
        v.push(Typical(*p, 0));
        v.push(TopA(*p, 1.0, 0));
        v.push(TopA(0.5, *p, 0));
        v.push(Temp(*p));
        v.push(Rep(*p, 64));
        v.push(FreqPres(*p, 0.0, usize::MAX));
        v.push(FreqPres(1.0, *p, 1));
        v.push(Bias(vec![(0, *p), (u32::MAX, 1.0)]));
        v.push(Miro2 { tau: *p, eta: 0.1, mu: None });
        v.push(Miro2 { tau: 1.0, eta: *p, mu: Some(1.0) });
        v.push(Miro1 { n_vocab: 10, tau: *p, eta: 0.1, m: 3, mu: None });
    }
    for m in [1, usize::MAX] {
        v.push(TopP(0.5, m));
        v.push(MinP(2.0, m));
        v.push(TailFree(0.1, m));
        v.push(Typical(0.1, m));
        v.push(TopA(1.0, 1.0, m));
        v.push(Rep(f32::MAX, m));
    }
    for n in EU {
        for m in [0, 1, usize::MAX] {
            v.push(Miro1 { n_vocab: *n, tau: 1.0, eta: 0.1, m, mu: Some(f32::MAX) });
        }
    }
    for t in [(0, 0, 0, 0), (1, 0, 0, usize::MAX), (2, usize::MAX, usize::MAX, 64), (usize::MAX, 1, 2, 64), (2, 1, usize::MAX, usize::MAX)] {
        v.push(Seq { flat: 1.0, stack: 1.0, min_length: t.0, tol: t.1, merge: t.2, last_n: t.3 });
        v.push(Seq { flat: f32::NAN, stack: f32::MAX, min_length: t.0, tol: t.1, merge: t.2, last_n: t.3 });
    }
    v.push(Bias(vec![(0, NINF), (1, NINF), (2, NINF)]));
    v.push(Bias(vec![(1, f32::NAN), (1, f32::MAX), (1, f32::MAX)]));
    v
}
thread_local! {
    static EXT: Vec<Spec> = extremes();
}
fn ext(i: usize) -> Spec {
    EXT.with(|e| e[i].clone())
}
fn n_ext() -> usize {
    EXT.with(|e| e.len())
}

/// A collection with arbitrary values, as earlier stages could have left it.
fn raw(v: &[f32], disturb: usize) -> Result<Logits, String> {
    let mut l = Logits::try_from_iter(v.iter().map(|x| if x.is_nan() { 0.5 } else { *x })).map_err(|e| format!("building {v:?}: {e:?}"))?;
    let write = |l: &mut Logits| {
        for e in l.iter_mut() {
            e.logit = v[e.token_id as usize];
        }
        l.set_sorted(false);
        l.set_softmax(false);
    };
    match disturb {
        0 => write(&mut l),
        1 => {
            let _ = l.ensure_softmax();
            write(&mut l);
        }
        2 => {
            write(&mut l);
            let _ = l.ensure_sorted();
        }
        3 => {
            write(&mut l);
            let _ = l.ensure_softmax();
        }
        _ => {
            // Stale probabilities that are not numbers.
            write(&mut l);
            l.iter_mut().for_each(|x| x.prob = f32::NAN);
        }
    }
    Ok(l)
}

fn calls(ctx: &mut Ctx, what: &dyn Fn() -> String, s: &mut dyn Sampler, v: &[f32], disturb: usize, hist: &[u32]) -> R {
    let mut digest = vec![];
    for round in 0..2 {
        let mut l = raw(v, disturb)?;
        let before = snap(&l);
        let n = before.e.len();
        let mut res = Res::new(&[WORDS[(v.len() + round) % WORDS.len()], 0x1234_5678], hist);
        let r = s.sample_token(&mut res, &mut l);
        let _ = s.sampled_token_id();
        ctx.step();
        let after = snap(&l);
        // Ids out of the input, none twice.
        let mut ids: Vec<u32> = after.e.iter().map(|x| x.0).collect();
        ids.sort_unstable();
        ensure!(ids.windows(2).all(|w| w[0] != w[1]), "{}: an id occurs twice in {} (from {})", what(), short(&after.e), short(&before.e));
        ensure!(
            ids.last().is_none_or(|x| (*x as usize) < n),
            "{}: ids that were not in the input: {} (from {})",
            what(),
            short(&after.e),
            short(&before.e)
        );
        if let Ok(Some(t)) = &r {
            ensure!((*t as usize) < n, "{}: invented token {t} for {}", what(), short(&before.e));
        }
        if let Some(t) = s.sampled_token_id() {
            ensure!((t as usize) < n, "{}: reports invented token {t} for {}", what(), short(&before.e));
        }
        digest.push((ids.len(), r.is_ok(), after.sorted, after.soft));
        // What is left can still be sorted and softmaxed without trouble.
        let a = l.ensure_sorted().is_ok();
        if a {
            let e = snap(&l);
            ensure!(e.e.iter().any(|x| x.1.is_nan()) || non_increasing(&e.e), "{}: sorting afterwards gave {}", what(), short(&e.e));
        }
        let _ = l.ensure_softmax();
        ensure!(l.len() == ids.len(), "{}: sorting changed the number of entries", what());
    }
    ctx.state(&digest);
    Ok(())
}

fn c32_small(ctx: &mut Ctx) -> R {
    let i = ctx.choose(n_ext());
    let spec = ext(i);
    let v = small_vec(ctx, SPECIAL, 0, ctx.qt(4, 5));
    let d = ctx.choose(2);
    let h = if matches!(spec, Spec::Rep(..) | Spec::FreqPres(..) | Spec::Seq { .. }) { ctx.choose(2) } else { 0 };
    let mut s = spec.make();
    calls(ctx, &|| format!("{spec:?} on {v:?} history {:?}", H[h]), &mut *s, &v, d, H[h])
}

fn degenerate() -> Vec<Vec<f32>> {
    vec![
        vec![],
        vec![0.0],
        vec![f32::NAN],
        vec![NINF],
        vec![PINF, PINF],
        vec![NINF, NINF, NINF],
        vec![1.0, f32::NAN, 2.0, NINF],
        vec![f32::MAX, f32::MIN, 0.0],
        vec![1.0, 1.0, 1.0, 1.0],
        vec![PINF, 0.0, NINF],
        vec![3.0, 2.0, 1.0, 0.0, -1.0],
        vec![NINF, 0.0, NINF, 0.0],
        vec![f32::MAX, f32::MAX],
        vec![f32::MIN_POSITIVE, 1e-45, -1e-45, 0.0],
        vec![-1e30, 1e30, 0.0, 5.0],
        shape("zipf", 30),
    ]
}
fn c32_grid(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(12);
    let spec = match kind {
        0 => Spec::TopK(*ctx.pick(EU), *ctx.pick(EU)),
        1 => Spec::TopP(*ctx.pick(EF), *ctx.pick(EU)),
        2 => Spec::MinP(*ctx.pick(EF), *ctx.pick(EU)),
        3 => Spec::TopA(*ctx.pick(EF), *ctx.pick(EF), *ctx.pick(EU)),
        4 => Spec::TailFree(*ctx.pick(EF), *ctx.pick(EU)),
        5 => Spec::Typical(*ctx.pick(EF), *ctx.pick(EU)),
        6 => Spec::Temp(*ctx.pick(EF)),
        7 => Spec::Rep(*ctx.pick(EF), *ctx.pick(EU)),
        8 => Spec::FreqPres(*ctx.pick(EF), *ctx.pick(EF), *ctx.pick(EU)),
        9 => {
            let fl = *ctx.pick(&[0.0, 1.0, f32::NAN, f32::MAX]);
            let st = *ctx.pick(&[0.0, -1.0, PINF, f32::MAX]);
            Spec::Seq {
                flat: fl,
                stack: st,
                min_length: *ctx.pick(EU),
                tol: *ctx.pick(&[0, 1, 2, usize::MAX]),
                merge: *ctx.pick(EU),
                last_n: *ctx.pick(&[0, 3, 64, usize::MAX]),
            }
        }
        10 => {
            let mu = *ctx.pick(&[None, Some(0.0), Some(f32::NAN), Some(PINF), Some(NINF), Some(-5.0), Some(1e-45)]);
            let e: &[f32] = if ctx.thorough() { EF } else { &[0.0, 1.0, NINF, f32::NAN, f32::MAX] };
            Spec::Miro1 { n_vocab: *ctx.pick(EU), tau: *ctx.pick(EF), eta: *ctx.pick(e), m: *ctx.pick(EU), mu }
        }
        _ => {
            let mu = *ctx.pick(&[None, Some(0.0), Some(f32::NAN), Some(PINF), Some(NINF), Some(-5.0), Some(1e-45)]);
            Spec::Miro2 { tau: *ctx.pick(EF), eta: *ctx.pick(EF), mu }
        }
    };
    let v = ctx.pick(&degenerate()).clone();
    let h = match kind {
        7 | 8 => ctx.choose(6),
        9 => ctx.choose(ctx.qt(2, 6)),
        _ => 0,
    };
    let mut s = spec.make();
    calls(ctx, &|| format!("{spec:?} on {v:?} history {:?}", H[h]), &mut *s, &v, 0, H[h])
}

const FILLS: usize = 14;
fn fill(n: usize, k: usize) -> Vec<f32> {
    let mut v = shape(["shuf", "asc", "desc", "ties", "two"][k % 5], n);
    let last = n - 1;
    match k {
        0 => {}
        1 => v[0] = f32::NAN,
        2 => v[last] = f32::NAN,
        3 => v[n / 2] = f32::NAN,
        4 => v.iter_mut().for_each(|x| *x = NINF),
        5 => v.iter_mut().for_each(|x| *x = PINF),
        6 => v.iter_mut().for_each(|x| *x = f32::NAN),
        7 => v[last] = PINF,
        8 => v[0] = NINF,
        9 => v.iter_mut().step_by(2).for_each(|x| *x = f32::NAN),
        10 => {
            v[0] = PINF;
            v[last] = f32::NAN;
        }
        11 => v.iter_mut().step_by(3).for_each(|x| *x = NINF),
        12 => v.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 2 == 0 { f32::MAX } else { f32::MIN }),
        _ => v.iter_mut().for_each(|x| *x *= 1e37),
    }
    v
}
fn c32_large(ctx: &mut Ctx) -> R {
    let i = ctx.choose(n_ext());
    let spec = ext(i);
    let n = *ctx.pick(&[4usize, 20, 21, 22, 64, 65, 300]);
    let k = ctx.choose(FILLS);
    let d = ctx.choose(5);
    let v = fill(n, k);
    let mut s = spec.make();
    calls(ctx, &|| format!("{spec:?} on fill {k} of {n} entries"), &mut *s, &v, d, H[0])
}

fn c32_pairs(ctx: &mut Ctx) -> R {
    let n = n_ext();
    let pick = |ctx: &mut Ctx| {
        if ctx.thorough() {
            ctx.choose(n)
        } else {
            let c = ctx.choose(60);
            (c * n / 60 + c % 3).min(n - 1)
        }
    };
    let (a, b) = (pick(ctx), pick(ctx));
    let (sa, sb) = (ext(a), ext(b));
    let all = degenerate();
    let k = *ctx.pick(&[0usize, 1, 3, 5, 6, 7, 8, 9, 10, 15]);
    let v = all[k].clone();
    let d = *ctx.pick(&[0usize, 3]);
    let h = ctx.choose(2);
    let mut s = SamplerChain::new();
    s += sa.make();
    s += sb.make();
    calls(ctx, &|| format!("chain of {sa:?} and {sb:?} on {v:?} history {:?}", H[h]), &mut s, &v, d, H[h])
}

fn c32_build(ctx: &mut Ctx) -> R {
    let v = if ctx.flag() {
        small_vec(ctx, SPECIAL, 0, ctx.qt(4, 5))
    } else {
        let n = *ctx.pick(&[4usize, 20, 21, 22, 64, 65, 300]);
        fill(n, ctx.choose(FILLS))
    };
    let k = *ctx.pick(&[0usize, 1, 2, 3, 20, 21, 1 << 20, usize::MAX - 1, usize::MAX]);
    ctx.steps(4);
    let a = Logits::try_from_iter(v.iter().copied());
    let nan = v.iter().position(|x| x.is_nan());
    ensure!(a.is_err() == nan.is_some(), "building {v:?} gave {:?}", a.map(|l| l.len()));
    if let Ok(l) = Logits::try_from_iter_top_k(v.iter().copied(), k) {
        let s = snap(&l);
        ensure!(s.e.len() <= k.min(v.len()), "top {k} of {v:?} has {} entries", s.e.len());
        for (t, x) in &s.e {
            ensure!(v.get(*t as usize).map(|y| y.to_bits()) == Some(x.to_bits()), "top {k} of {v:?} invented {t}:{x}");
        }
    }
    for d in 0..5 {
        let mut l = raw(&v, d)?;
        let a = l.ensure_sorted().map(|_| ()).map_err(|e| e.to_string());
        if a.is_ok() && nan.is_none() {
            ensure!(non_increasing(&snap(&l).e), "sorting {v:?} succeeded with {}", short(&snap(&l).e));
        }
        let b = l.ensure_softmax().map(|_| ()).map_err(|e| e.to_string());
        ctx.state(&(v.len().min(6), a, b, d));
        ensure!(l.len() == v.len(), "sorting lost entries of {v:?}");
        let mut l = raw(&v, d)?;
        let _ = l.ensure_softmax();
        ensure!(l.len() == v.len(), "softmax lost entries of {v:?}");
        let _ = l.ensure_softmax();
    }
    Ok(())
}

fn c32_seq(ctx: &mut Ctx) -> R {
    let spec = Spec::Seq {
        flat: 1.0,
        stack: 1.0,
        min_length: *ctx.pick(&[0, 1, 2, 3, usize::MAX]),
        tol: *ctx.pick(&[0, 1, 3, usize::MAX]),
        merge: *ctx.pick(&[0, 1, 2, 5, usize::MAX]),
        last_n: *ctx.pick(&[1, 5, 64, usize::MAX]),
    };
    let h: Vec<u32> = if ctx.flag() {
        let n = ctx.range(0, ctx.qt(7, 9));
        (0..n).map(|_| ctx.choose(2) as u32).collect()
    } else {
        let n = *ctx.pick(&[16usize, 64, 120]);
        let p = *ctx.pick(&[1usize, 2, 3, 7, 30]);
        (0..n).map(|i| (i % p) as u32).collect()
    };
    let v = [1.0f32, 2.0, 3.0, NINF];
    let mut s = spec.make();
    calls(ctx, &|| format!("{spec:?} history {h:?}"), &mut *s, &v, 0, &h)
}
