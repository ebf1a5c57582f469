//! Samplers made by `Default`: the documented values of the options nobody set.
use super::config::*;
use crate::common::*;
use crate::engine::*;

pub fn list() -> Vec<Harness> {
    let h = |name, bounds, run| Harness { prop: "C38", name, bounds, run };
    vec![
        h("documented", "15 samplers x every option x {first default-made one, one made after 1-700 others were made, set and used}", documented as fn(&mut Ctx) -> R),
        h("partial", "12 samplers x every subset and order of options set (1-2 values each) x {string, set_option, builder methods, two strings}: options, then 5 collections x 2 words x 2 rounds", partial),
        h("every_size", "15 samplers x every collection size 0-600 (quick) / 0-1500 (thorough) x 5 shapes x 3 states x 2 histories x 2 words", sizes),
        h("small", "15 samplers x every list of up to 5 (quick) / 6 (thorough) values out of 7 x {raw, softmaxed} x 3 words", small),
        h("every_window", "15 samplers, penalties set or not, x every history length 0-150 (quick) / 0-400 (thorough) x 4 kinds", windows),
        h("histories", "15 samplers x every sequence of up to 5 (quick) / 6 (thorough) calls out of 6, as is and with one option set", histories),
        h("slots", "12 samplers x {single, chain} slot x 5 ways to fill it with the default x every option set or not", slots),
    ]
}

const N: usize = 15;
/// The values the documentation gives, in the order of the options of [Kind].
fn documented_values(i: usize) -> Vec<Val> {
    let (fl, un) = (Val::F, Val::U);
    match i {
        0 => vec![un(40), un(1)],
        1 => vec![fl(0.9), un(1)],
        2 => vec![fl(0.9), un(1)],
        3 => vec![fl(0.2), fl(2.0), un(1)],
        4 => vec![fl(1.0), un(1)],
        5 => vec![fl(1.0), un(1)],
        6 => vec![fl(0.8)],
        7 => vec![fl(1.1), un(64)],
        8 => vec![fl(0.0), fl(0.0), un(64)],
        9 => vec![fl(0.0), fl(0.0), un(0), un(0), un(1), un(64)],
        // The vocabulary size has no usable default; 0 means not set.
        10 => vec![fl(5.0), fl(0.1), fl(10.0), un(100), un(0)],
        11 => vec![fl(5.0), fl(0.1), fl(10.0)],
        _ => vec![],
    }
}
const NAMES: [&str; N] = [
    "top_k", "top_p", "min_p", "top_a", "tail_free", "locally_typical", "temperature", "repetition", "frequency_presence",
    "sequence_repetition", "mirostat1", "mirostat2", "flat_bias", "greedy", "random_distribution",
];
/// The values the crate has, where they differ from the documented ones (known findings, reported by
/// `documented`): the rest of the checks builds on them.
fn shipped(i: usize) -> Vec<Val> {
    let mut v = documented_values(i);
    match i {
        2 => v[0] = Val::F(0.05),
        6 => v[0] = Val::F(1.0),
        9 => v[2] = Val::U(4),
        _ => {}
    }
    v
}
/// What a default-made sampler has to hold: documented values, or the known other ones.
fn expected(k: &Kind, i: usize) -> Result<Vec<Val>, String> {
    let got = read_all(k, &(k.default)())?;
    let (a, b) = (documented_values(i), shipped(i));
    Ok((0..a.len()).map(|j| if got[j] == b[j] { b[j] } else { a[j] }).collect())
}
fn twin(k: &Kind, i: usize, v: &[Val]) -> Cfg {
    match i {
        12 => Box::new(SampleFlatBias::new([])),
        _ => (k.make)(v),
    }
}
fn documented(ctx: &mut Ctx) -> R {
    let i = ctx.choose(N);
    with_kind(i, |k| {
        let n = k.opts.len();
        let x = ctx.choose(n.max(1));
        let before = *ctx.pick(&[0usize, 1, 2, 9, 70, 300, 700]);
        for d in 0..before {
            let mut s = if d % 3 == 2 { (k.other)() } else { (k.default)() };
            if n > 0 && d % 2 == 1 {
                let v = param_sets(i)[d / 2 % param_sets(i).len()][d % n];
                s.set_option(k.opts[d % n].0, v.opt()).map_err(|e| format!("set_option: {e}"))?;
            }
            let (sh, m, pr) = SAMPLE_INPUTS[d % 5];
            let mut l = prepare(pr, &shape(sh, m)).unwrap();
            let _ = s.sample_token(&mut Res::new(&[0x4000_0000], SAMPLE_HIST[d % 5]), &mut l);
            ctx.step();
        }
        let s = (k.default)();
        let got = read_all(k, &s)?;
        ctx.state(&(i, x));
        ctx.note(|| format!("{}: {:?} = {got:?}", NAMES[i], k.opts));
        if n == 0 {
            return Ok(());
        }
        let want = documented_values(i);
        ensure!(got[x] == want[x], "{}: default of {} is {:?}, documented {:?}", NAMES[i], k.opts[x].0, got[x], want[x]);
        Ok(())
    })
}
fn compare(ctx: &mut Ctx, a: &mut dyn Sampler, b: &mut dyn Sampler, l: &Logits, hist: &[u32], words: &[u32], what: &dyn Fn() -> String) -> R {
    let (mut la, mut lb) = (l.clone(), l.clone());
    let ra = a.sample_token(&mut Res::new(words, hist), &mut la).map_err(|e| err_str(&e));
    let rb = b.sample_token(&mut Res::new(words, hist), &mut lb).map_err(|e| err_str(&e));
    ctx.steps(2);
    let (sa, sb) = (snap(&la), snap(&lb));
    ensure!(
        ra == rb && sa.same(&sb),
        "{}: constructed with the default values gives {ra:?} {}, made by Default {rb:?} {}",
        what(),
        short(&sa.e),
        short(&sb.e)
    );
    Ok(())
}
fn partial(ctx: &mut Ctx) -> R {
    let i = ctx.choose(N - 3);
    with_kind(i, |k| {
        let n = k.opts.len();
        let mask = ctx.choose(1 << n);
        let which: Vec<usize> = (0..n).filter(|j| mask >> j & 1 == 1).collect();
        let j = ctx.choose(2);
        let way = ctx.choose(4);
        let order: Vec<usize> = if which.len() <= 3 {
            permutation_of(ctx, which.len()).into_iter().map(|x| which[x]).collect()
        } else if ctx.flag() {
            which.iter().rev().copied().collect()
        } else {
            which
        };
        let sets = param_sets(i);
        let list: Vec<(usize, Val)> = order.iter().map(|x| (*x, sets[j % sets.len()][*x])).collect();
        let Some(mut s) = configured(k, way, true, &list)? else { return Err("builder method missing".into()) };
        let mut want = expected(k, i)?;
        for (x, v) in &list {
            assign(k, &mut want, *x, *v);
        }
        let what = format!("{} by default, then way {way} (0 string, 1 set_option, 2 builder, 3 two strings) {list:?}", NAMES[i]);
        expect_state(k, &s, &want, &what)?;
        ctx.state(&(i, format!("{want:?}")));
        let mut c = twin(k, i, &want);
        for _ in 0..2 {
            behaviour(ctx, &mut c, &mut s, &[0, 1, 2, 3, 4]).map_err(|m| format!("{what}: {m}"))?;
        }
        ctx.note(|| what.clone());
        Ok(())
    })
}
fn vocab(i: usize, k: &Kind, s: Cfg, want: &mut [Val]) -> Result<Cfg, String> {
    // Mirostat 1 cannot be used without it.
    let mut s = s;
    if i == 10 {
        s.set_option("n_vocab", SamplerOptionValue::UInt(50)).map_err(|e| format!("set_option: {e}"))?;
        assign(k, want, 4, Val::U(50));
    }
    Ok(s)
}
const H: [&[u32]; 2] = [&[1, 2, 3, 1, 2], &[5, 6, 7, 8, 9, 5, 6, 7, 8, 2, 5, 6, 7, 8]];
fn sizes(ctx: &mut Ctx) -> R {
    let i = ctx.choose(N);
    let n = ctx.range(0, ctx.qt(600, 1500));
    let kind = *ctx.pick(&["shuf", "zipf", "plateaus", "forbid3", "desc"]);
    let p = *ctx.pick(&["raw", "softmaxed", "softmax+temp2"]);
    let Some(l) = prepare(p, &shape(kind, n)) else { return Ok(()) };
    with_kind(i, |k| {
        let mut want = expected(k, i)?;
        let mut s = vocab(i, k, (k.default)(), &mut want)?;
        let mut c = twin(k, i, &want);
        ctx.state(&(n, kind, p));
        for (h, w) in [(0, 0x4000_0000u32), (1, 0xe000_0000)] {
            compare(ctx, &mut c, &mut s, &l, H[h], &[w, w / 3], &|| format!("{} on {kind}({n}) {p}, history {:?}", NAMES[i], H[h]))?;
        }
        Ok(())
    })
}
fn small(ctx: &mut Ctx) -> R {
    let i = ctx.choose(N);
    let n = ctx.range(0, ctx.qt(5, 6));
    let v: Vec<f32> = (0..n).map(|_| *ctx.pick(&[0.0f32, -1.0, 1.0, 2.5, 2.4, NINF, -40.0])).collect();
    let p = *ctx.pick(&["raw", "softmaxed"]);
    let Some(l) = prepare(p, &v) else { return Ok(()) };
    with_kind(i, |k| {
        let mut want = expected(k, i)?;
        let mut s = vocab(i, k, (k.default)(), &mut want)?;
        let mut c = twin(k, i, &want);
        ctx.state(&hash_of(&format!("{v:?}{p}")));
        for w in [0u32, 0x8000_0000, 0xffff_fff0] {
            compare(ctx, &mut c, &mut s, &l, &[0, 1, 0, 2, 3, 1, 0, 2, 3, 1], &[w], &|| format!("{} on {v:?} {p}, word {w:x}", NAMES[i]))?;
        }
        Ok(())
    })
}
fn windows(ctx: &mut Ctx) -> R {
    let i = ctx.choose(N);
    let n = ctx.range(0, ctx.qt(150, 400));
    let kind = ctx.choose(4);
    let hist: Vec<u32> = (0..n)
        .map(|j| match kind {
            0 => j as u32,
            1 => (n - 1 - j) as u32,
            2 => (j % 7) as u32,
            // A run, something else, and the run again.
            _ => (if n - j <= 8 { 8 - (n - j) } else if j < 8 { j } else { 100 + j }) as u32,
        })
        .collect();
    // The penalties do nothing by default: switch them on, too.
    let set = ctx.choose(3);
    with_kind(i, |k| {
        let mut want = expected(k, i)?;
        let mut s = vocab(i, k, (k.default)(), &mut want)?;
        let sets: &[(usize, f32)] = match (i, set) {
            (_, 0) => &[],
            (8, 1) => &[(0, 0.5)],
            (8, 2) => &[(1, 0.75)],
            (9, 1) => &[(0, 1.0)],
            (9, 2) => &[(1, 0.5)],
            (7, 1) => &[(0, 2.0)],
            _ => return Ok(()),
        };
        for (x, v) in sets {
            s.set_option(k.opts[*x].0, SamplerOptionValue::Float(*v as f64)).map_err(|e| format!("set_option: {e}"))?;
            assign(k, &mut want, *x, Val::F(*v));
        }
        let mut c = twin(k, i, &want);
        let l = prepare("raw", &shape("shuf", 420)).unwrap();
        ctx.state(&(i, n, kind, set));
        compare(ctx, &mut c, &mut s, &l, &hist, &[0x5000_0000, 9], &|| format!("{} with {sets:?} after a history of {n} tokens, kind {kind}", NAMES[i]))
    })
}
fn histories(ctx: &mut Ctx) -> R {
    let i = ctx.choose(N);
    with_kind(i, |k| {
        let mut want = expected(k, i)?;
        let mut s = vocab(i, k, (k.default)(), &mut want)?;
        let x = ctx.choose(k.opts.len() + 1);
        if x > 0 {
            let v = param_sets(i)[0][x - 1];
            s.set_option(k.opts[x - 1].0, v.opt()).map_err(|e| format!("set_option: {e}"))?;
            assign(k, &mut want, x - 1, v);
        }
        let mut c = twin(k, i, &want);
        let mut path = vec![];
        for _ in 0..ctx.qt(5, 6) {
            let e = ctx.choose(6);
            path.push(e);
            let l = match e {
                0 => prepare("raw", &shape("zipf", 60)),
                1 => prepare("softmaxed", &shape("shuf", 12)),
                2 => prepare("raw", &shape("forbid3", 9)),
                3 => prepare("raw", &[]),
                4 => prepare("raw", &shape("ties", 45)),
                _ => prepare("raw", &shape("peak", 5)),
            }
            .unwrap();
            let h: &[u32] = if e == 1 { &[] } else { H[e % 2] };
            compare(ctx, &mut c, &mut s, &l, h, &[0x4000_0000 + 0x1111_1111 * e as u32], &|| format!("{} options {want:?}, calls {path:?}", NAMES[i]))?;
            let now = read_all(k, &c)?;
            expect_state(k, &s, &now, &format!("{} options {want:?} after calls {path:?}", NAMES[i]))?;
            ctx.state(&(i, format!("{now:?}")));
        }
        Ok(())
    })
}
fn slots(ctx: &mut Ctx) -> R {
    let i = ctx.choose(N - 3);
    let single = ctx.flag();
    let way = ctx.choose(5);
    let x = with_kind(i, |k| ctx.choose(k.opts.len()));
    let make = move || with_kind(i, |k| (k.default)());
    let slot: SamplerSlot<usize, f32> =
        if single { SamplerSlot::Single { factory: Box::new(make), sampler: None } } else { SamplerSlot::Chain { factory: Box::new(make), samplers: vec![] } };
    let mut b: SamplerChainBuilder<usize, f32> = SamplerChainBuilder::default();
    b.push_slot("it".to_string(), slot);
    with_kind(i, |k| {
        let mut want = expected(k, i)?;
        let mut seg = String::new();
        let v = param_sets(i)[0][x];
        let r = match way {
            0 => {
                b[0].1.ensure_present();
                Ok(())
            }
            1 => b.configure("it", ""),
            2 => {
                b[0].1.ensure_present();
                b[0].1.ensure_present();
                Ok(())
            }
            3 => {
                seg = format!("{}={}", k.opts[x].0, v.text());
                b.configure("it", &seg)
            }
            _ => {
                // A failed setting leaves nothing behind.
                let bad = format!("{}={}:nothing=1", k.opts[x].0, v.text());
                ensure!(b.configure("it", &bad).is_err(), "{}: {bad:?} was accepted", NAMES[i]);
                b[0].1.ensure_present();
                Ok(())
            }
        };
        r.map_err(|e| format!("{}: {e}", NAMES[i]))?;
        if !seg.is_empty() {
            assign(k, &mut want, x, v);
        }
        ctx.state(&(i, single, way, x));
        let what = || format!("{} in a {} slot, way {way}, {seg:?}", NAMES[i], if single { "single" } else { "chain" });
        let found: Vec<Vec<Val>> = match &b[0].1 {
            SamplerSlot::Single { sampler, .. } => sampler.iter().map(|s| read_all(k, s)).collect::<Result<_, _>>()?,
            SamplerSlot::Chain { samplers, .. } => samplers.iter().map(|s| read_all(k, s)).collect::<Result<_, _>>()?,
            _ => vec![],
        };
        ensure!(found == vec![want.clone()], "{}: the slot holds {found:?}, expected one sampler with {want:?}", what());
        let mut chain = b.into_chain();
        let mut c = twin(k, i, &want);
        behaviour(ctx, &mut c, &mut chain, &[0, 1, 2, 3, 4]).map_err(|m| format!("{}: {m}", what()))?;
        ctx.note(what);
        Ok(())
    })
}
