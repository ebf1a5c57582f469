//! C05 general filter contract, C06-C11 the individual filters.
use crate::common::*;
use crate::engine::*;

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C05",
            name: "filters_small",
            bounds: "all vectors of length 0-4 (quick) / 0-5 (thorough) over {0,1,-inf,3,0.5} and of length 1-2/1-3 over 3 alphabets of nearly equal, far apart and tiny values x 12 preparations x 6 filters x their parameter grid including NaN, +-inf, huge values x min_keep in {0,1,2,3,5,usize::MAX}",
            run: c05_small,
        },
        Harness {
            prop: "C05",
            name: "filters_shapes",
            bounds: "12 shapes x sizes up to 1024 x 12 preparations x 6 filters x parameter grid",
            run: c05_shapes,
        },
        Harness {
            prop: "C05",
            name: "filters_pairs",
            bounds: "all ordered pairs of filters (3 parameter sets each) on vectors of length 1-3 and shapes",
            run: c05_pairs,
        },
        Harness { prop: "C06", name: "top_k", bounds: SPACE, run: c06 },
        Harness {
            prop: "C06",
            name: "top_k_infinite",
            bounds: "all vectors of length 0-5 over {-inf,+inf,0,1} x k x min_keep in {0..6, usize::MAX}",
            run: c06_inf,
        },
        Harness { prop: "C07", name: "top_p", bounds: SPACE, run: c07 },
        Harness { prop: "C07", name: "top_p_dyadic", bounds: DYADIC, run: c07_dy },
        Harness { prop: "C08", name: "min_p", bounds: SPACE, run: c08 },
        Harness { prop: "C08", name: "min_p_dyadic", bounds: DYADIC, run: c08_dy },
        Harness { prop: "C09", name: "top_a", bounds: SPACE, run: c09 },
        Harness { prop: "C09", name: "top_a_dyadic", bounds: DYADIC, run: c09_dy },
        Harness { prop: "C10", name: "tail_free", bounds: SPACE, run: c10 },
        Harness { prop: "C10", name: "tail_free_dyadic", bounds: DYADIC, run: c10_dy },
        Harness { prop: "C11", name: "typical", bounds: SPACE, run: c11 },
        Harness { prop: "C11", name: "typical_dyadic", bounds: DYADIC, run: c11_dy },
        Harness {
            prop: "C11",
            name: "typical_forbidden",
            bounds: "every placement of -inf among up to 6 (quick) / 7 (thorough) entries of 3 distinct values, p and min_keep grid: zero-probability tokens rank last and cost nothing",
            run: c11_forbid,
        },
        Harness { prop: "C05", name: "filters_reused", bounds: REUSED, run: c05_reused },
        Harness { prop: "C06", name: "top_k_reused", bounds: REUSED, run: c06_reused },
        Harness { prop: "C07", name: "top_p_reused", bounds: REUSED, run: c07_reused },
        Harness { prop: "C08", name: "min_p_reused", bounds: REUSED, run: c08_reused },
        Harness { prop: "C09", name: "top_a_reused", bounds: REUSED, run: c09_reused },
        Harness { prop: "C10", name: "tail_free_reused", bounds: REUSED, run: c10_reused },
        Harness { prop: "C11", name: "typical_reused", bounds: REUSED, run: c11_reused },
        Harness { prop: "C05", name: "filters_vocabulary", bounds: VOCAB, run: c05_vocab },
        Harness { prop: "C06", name: "top_k_vocabulary", bounds: VOCAB, run: c06_vocab },
        Harness { prop: "C07", name: "top_p_vocabulary", bounds: VOCAB, run: c07_vocab },
        Harness { prop: "C08", name: "min_p_vocabulary", bounds: VOCAB, run: c08_vocab },
        Harness { prop: "C09", name: "top_a_vocabulary", bounds: VOCAB, run: c09_vocab },
        Harness { prop: "C10", name: "tail_free_vocabulary", bounds: VOCAB, run: c10_vocab },
        Harness { prop: "C11", name: "typical_vocabulary", bounds: VOCAB, run: c11_vocab },
    ]
}

const SPACE: &str = "all vectors of length 0-5 (quick) / 0-6 (thorough) over {0,1,-inf,3,-2,0.5}, all vectors of length 1-3/1-4 over 3 alphabets of nearly equal, far apart and tiny values, 12 shapes x sizes up to 1024, 12 preparations (sorted, softmaxed, stale probabilities, renumbered, ...), parameter grid x min_keep grid; float ambiguity band around each threshold";
const VOCAB: &str = "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered} x parameters";
const DYADIC: &str = "collections whose probabilities are exact binary fractions (2^m equal values, m=0-7, plus 0-3 forbidden entries, enumerated placement), thresholds exactly on and next to the boundaries, no tolerance";

fn space(ctx: &Ctx) -> InputSpace {
    InputSpace {
        alpha: ALPHA,
        lo: 0,
        hi: ctx.qt(5, 6),
        sizes: SIZES_T,
        preps_small: 12,
        preps_shape: 12,
        odd: ctx.qt(3, 4),
    }
}

fn min_keeps(n: usize) -> Vec<usize> {
    let mut v = vec![1, 0, 2, 3, n.max(1) - 1, n, n + 2, usize::MAX];
    let mut seen = vec![];
    v.retain(|x| {
        let f = !seen.contains(x);
        seen.push(*x);
        f
    });
    v
}

/// Run the filter on a copy of the collection, checking the part common to all filters.
fn run(ctx: &mut Ctx, sp: &Spec, l: &Logits, before: &Snap, what: &str) -> Result<Snap, String> {
    let mut x = l.clone();
    let mut f = sp.make();
    warm_up(&mut f, l, &[]);
    let r = f.sample(&mut (), &mut x).map(|_| ()).map_err(|e| err_str(&e));
    ctx.step();
    if let Err(e) = r {
        return Err(format!("{what}: {sp:?} on {} failed: {e}", short(&before.e)));
    }
    let s = snap(&x);
    ctx.state(&s);
    sub_collection(&before.e, &s.e).map_err(|m| format!("{what}: {sp:?}: {m}"))?;
    Ok(s)
}

fn ranked(sp: &Spec, before: &Snap, s: &Snap, what: &str) -> R {
    top_values(&before.e, &s.e).map_err(|m| format!("{what}: {sp:?}: {m}"))
}
fn count_in(sp: &Spec, before: &Snap, s: &Snap, lo: usize, hi: usize, what: &str) -> R {
    let m = s.e.len();
    ensure!(
        m >= lo && m <= hi,
        "{what}: {sp:?} keeps {m} entries, expected {}: input {} kept {}",
        if lo == hi { format!("{lo}") } else { format!("{lo}..{hi}") },
        short(&before.e),
        short(&s.e)
    );
    Ok(())
}
fn untouched(sp: &Spec, before: &Snap, s: &Snap, what: &str) -> R {
    ensure!(before.same_entries(s), "{what}: {sp:?} should leave the collection untouched: {} -> {}", short(&before.e), short(&s.e));
    Ok(())
}

// ------------------------------------------------------------------ C05

const FP: &[f32] = &[0.5, 0.0, 1.0, 0.05, 0.95, 1.5, -1.0, f32::NAN, PINF, NINF, 1e-30, 1e30, f32::MIN_POSITIVE];
const MK: &[usize] = &[1, 0, 2, 3, 5, usize::MAX];

fn any_filter(ctx: &mut Ctx, fp: &[f32], mk: &[usize]) -> Spec {
    let which = ctx.choose(6);
    let m = *ctx.pick(mk);
    match which {
        0 => Spec::TopK(*ctx.pick(&[1usize, 0, 2, 3, 40, usize::MAX]), m),
        1 => Spec::TopP(*ctx.pick(fp), m),
        2 => Spec::MinP(*ctx.pick(fp), m),
        3 => {
            let a = *ctx.pick(fp);
            let b = *ctx.pick(&[2.0f32, 1.0, 0.0, -1.0, f32::NAN, PINF]);
            Spec::TopA(a, b, m)
        }
        4 => Spec::TailFree(*ctx.pick(fp), m),
        _ => Spec::Typical(*ctx.pick(fp), m),
    }
}
fn mk_of(s: &Spec) -> usize {
    match s {
        Spec::TopK(_, m) | Spec::TopP(_, m) | Spec::MinP(_, m) | Spec::TopA(_, _, m) | Spec::TailFree(_, m) | Spec::Typical(_, m) => *m,
        _ => unreachable!(),
    }
}
pub fn c05_one(ctx: &mut Ctx, sp: &Spec, l: &Logits, s: &Snap, what: &str) -> Result<Snap, String> {
    ctx.note(|| format!("{what}: {sp:?} on {}", short(&s.e)));
    let r = run(ctx, sp, l, s, what)?;
    let mk = mk_of(sp);
    if mk >= 1 {
        ensure!(
            r.e.len() >= mk.min(s.e.len()),
            "{what}: {sp:?} kept {} of {} entries, fewer than min_keep: {} -> {}",
            r.e.len(),
            s.e.len(),
            short(&s.e),
            short(&r.e)
        );
    }
    ctx.note(|| format!("-> {}", short(&r.e)));
    Ok(r)
}
fn c05_small(ctx: &mut Ctx) -> R {
    let sp = InputSpace { alpha: ALPHA5, lo: 0, hi: ctx.qt(4, 5), sizes: &[1], preps_small: 12, preps_shape: 1, odd: ctx.qt(2, 3) };
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    let f = any_filter(ctx, FP, MK);
    c05_one(ctx, &f, &i.l, &i.s, &i.what).map(|_| ())
}
fn c05_shapes(ctx: &mut Ctx) -> R {
    let kind = *ctx.pick(SHAPES);
    let n = *ctx.pick(SIZES_T);
    let np = PREPS.len();
    let p = PREPS[ctx.choose(np)];
    let v = shape(kind, n);
    let Some(l) = prepare(p, &v) else { return Ok(()) };
    let s = snap(&l);
    let f = any_filter(ctx, &[0.5, 0.0, 1.0, 0.05, 0.95, f32::NAN, NINF], &[1, 2, 40, usize::MAX]);
    c05_one(ctx, &f, &l, &s, &format!("{kind}({n}) {p}")).map(|_| ())
}
fn c05_pairs(ctx: &mut Ctx) -> R {
    let sp = InputSpace { alpha: ALPHA5, lo: 1, hi: 3, sizes: &[6, 40], preps_small: 3, preps_shape: 3, odd: 0 };
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    let f = any_filter(ctx, &[0.4, 0.95], &[1, 2]);
    let s1 = c05_one(ctx, &f, &i.l, &i.s, &i.what)?;
    let mut l = i.l.clone();
    f.make().sample(&mut (), &mut l).map_err(|e| err_str(&e))?;
    let g = any_filter(ctx, &[0.4, 0.95], &[1, 2]);
    if l.is_empty() || !l.iter().any(|x| x.logit.is_finite()) {
        return Ok(());
    }
    c05_one(ctx, &g, &l, &s1, &format!("{} then {f:?}", i.what)).map(|_| ())
}

// ------------------------------------------------------------------ C06

pub fn c06_check(ctx: &mut Ctx, l: &Logits, b: &Snap, k: usize, mk: usize, what: &str) -> R {
    let sp = Spec::TopK(k, mk);
    ctx.note(|| format!("{what}: {sp:?} on {}", short(&b.e)));
    let s = run(ctx, &sp, l, b, what)?;
    let m = k.max(mk).min(b.e.len());
    count_in(&sp, b, &s, m, m, what)?;
    ranked(&sp, b, &s, what)?;
    ensure!(non_increasing(&s.e), "{what}: {sp:?} result not in non-increasing order: {}", short(&s.e));
    Ok(())
}
fn c06(ctx: &mut Ctx) -> R {
    let sp = space(ctx);
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    let n = i.s.e.len();
    let ks = [1usize, 0, 2, 3, 4, 5, 40, n, n + 1, n.max(1) - 1, 1 << 32, (1 << 32) + 1, usize::MAX];
    let k = *ctx.pick(&ks);
    for mk in min_keeps(n) {
        c06_check(ctx, &i.l, &i.s, k, mk, &i.what)?;
    }
    Ok(())
}
fn c06_inf(ctx: &mut Ctx) -> R {
    let v = small_vec(ctx, &[0.0, 1.0, NINF, PINF], 0, 5);
    let l = Logits::try_from_iter(v.iter().copied()).unwrap();
    let b = snap(&l);
    let k = *ctx.pick(&[0usize, 1, 2, 3, 4, 5, 6, usize::MAX]);
    for mk in [0usize, 1, 2, 3, 5, usize::MAX] {
        c06_check(ctx, &l, &b, k, mk, "raw")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

/// [lo, hi] for "first i with c_i reaching the target and i+1 >= mk", everything otherwise.
fn cum_cut(p: &[f64], target: f64, mk: usize, eps: f64) -> (usize, usize) {
    let n = p.len();
    let find = |t: f64| {
        let mut c = 0.0;
        for (i, x) in p.iter().enumerate() {
            c += x;
            if c >= t && i + 1 >= mk {
                return i + 1;
            }
        }
        n
    };
    (find(target - eps), find(target + eps))
}
pub fn c07_check(ctx: &mut Ctx, l: &Logits, b: &Snap, p: f32, mk: usize, exact: bool, what: &str) -> R {
    let sp = Spec::TopP(p, mk);
    ctx.note(|| format!("{what}: {sp:?} on {}", short(&b.e)));
    let s = run(ctx, &sp, l, b, what)?;
    if b.e.is_empty() {
        return count_in(&sp, b, &s, 0, 0, what);
    }
    ranked(&sp, b, &s, what)?;
    let q = probs_desc(&b.vals());
    let eps = if exact { 0.0 } else { eps_for(q.len()) };
    let (lo, hi) = cum_cut(&q, p as f64, mk, eps);
    count_in(&sp, b, &s, lo, hi, what)
}
fn c07(ctx: &mut Ctx) -> R {
    let sp = space(ctx);
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    for p in [0.9f32, 0.0, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.8, 0.95, 0.99, 0.999, 1.0, 1.5, -1.0, 1e-7] {
        for mk in min_keeps(i.s.e.len()) {
            c07_check(ctx, &i.l, &i.s, p, mk, false, &i.what)?;
        }
    }
    Ok(())
}
/// 2^m equal values and some forbidden ones.
fn dyadic_input(ctx: &mut Ctx) -> (Logits, Snap, usize, String) {
    let m = ctx.choose(8);
    let f = 1usize << m;
    let z = ctx.choose(4);
    let val = *ctx.pick(&[0.0f32, 3.5, -20.0]);
    let place = ctx.choose(3);
    let n = f + z;
    let mut v = vec![val; n];
    for i in 0..z {
        let at = match place {
            0 => n - 1 - i,
            1 => i,
            _ => (i * 2 + 1).min(n - 1),
        };
        v[at] = NINF;
    }
    // Overlapping positions leave a number of finite entries that is not a power of two.
    while v.iter().filter(|x| x.is_finite()).count() > f {
        let i = v.iter().position(|x| x.is_finite()).unwrap();
        v[i] = NINF;
    }
    let p = *ctx.pick(&["raw", "softmaxed", "renumbered"]);
    let l = prepare(p, &v).unwrap_or_else(|| Logits::try_from_iter(v.iter().copied()).unwrap());
    let s = snap(&l);
    ctx.state(&s);
    (l, s, f, format!("{f} equal + {z} forbidden ({p})"))
}
/// Just below / above a positive float.
pub fn ulps(x: f32) -> [f32; 3] {
    [x, f32::from_bits(x.to_bits() - 4), f32::from_bits(x.to_bits() + 4)]
}
fn c07_dy(ctx: &mut Ctx) -> R {
    let (l, s, f, what) = dyadic_input(ctx);
    let step = (f / 8).max(1);
    let mut targets = vec![0.0f32, 1.0];
    for j in (1..=f).step_by(step) {
        targets.extend(ulps(j as f32 / f as f32));
    }
    for p in targets {
        for mk in [1, 0, 2, f / 2, f, f + 1, f + 3] {
            c07_check(ctx, &l, &s, p, mk, true, &what)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08, C09

/// Cut at the first i >= max(1,mk) whose probability is below the threshold; `rel` is the
/// relative uncertainty.
fn thr_cut(p: &[f64], thr: f64, mk: usize, rel: f64) -> (usize, usize) {
    let n = p.len();
    if n <= mk {
        return (n, n);
    }
    let find = |t: f64| (mk.max(1)..n).find(|i| p[*i] < t).unwrap_or(n);
    let w = thr.abs() * rel;
    (find(thr + w), find(thr - w))
}
pub fn c08_check(ctx: &mut Ctx, l: &Logits, b: &Snap, p: f32, mk: usize, exact: bool, what: &str) -> R {
    let sp = Spec::MinP(p, mk);
    ctx.note(|| format!("{what}: {sp:?} on {}", short(&b.e)));
    let s = run(ctx, &sp, l, b, what)?;
    if p == 0.0 {
        return untouched(&sp, b, &s, what);
    }
    if b.e.is_empty() {
        return count_in(&sp, b, &s, 0, 0, what);
    }
    ranked(&sp, b, &s, what)?;
    // Only ratios to the best probability matter.
    let d = desc(&b.vals());
    let ratio: Vec<f64> = d.iter().map(|x| (*x as f64 - d[0] as f64).exp()).collect();
    let rel = if exact { 0.0 } else { 1e-5 };
    let (lo, hi) = thr_cut(&ratio, p as f64, mk, rel);
    count_in(&sp, b, &s, lo, hi, what)
}
fn c08(ctx: &mut Ctx) -> R {
    let sp = space(ctx);
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    for p in [0.05f32, 0.0, 1e-3, 0.1, 0.25, 0.35, 0.5, 0.62, 0.75, 0.9, 1.0, 1.5, -0.5] {
        for mk in min_keeps(i.s.e.len()) {
            // Comparing equal values is exact too.
            c08_check(ctx, &i.l, &i.s, p, mk, p == 1.0 && !i.near, &i.what)?;
        }
    }
    Ok(())
}
fn c08_dy(ctx: &mut Ctx) -> R {
    let (l, s, f, what) = dyadic_input(ctx);
    for p in [1.0f32, 0.5, 0.25, f32::from_bits(1f32.to_bits() + 4), f32::from_bits(1f32.to_bits() - 4), 2.0, 1e-20] {
        for mk in [1, 0, 2, f / 2, f, f + 1, f + 3] {
            c08_check(ctx, &l, &s, p, mk, true, &what)?;
        }
    }
    Ok(())
}
pub fn c09_check(ctx: &mut Ctx, l: &Logits, b: &Snap, a1: f32, a2: f32, mk: usize, exact: bool, what: &str) -> R {
    let sp = Spec::TopA(a1, a2, mk);
    ctx.note(|| format!("{what}: {sp:?} on {}", short(&b.e)));
    let s = run(ctx, &sp, l, b, what)?;
    if a1 == 0.0 || a2 == 0.0 {
        return untouched(&sp, b, &s, what);
    }
    if b.e.is_empty() {
        return count_in(&sp, b, &s, 0, 0, what);
    }
    ranked(&sp, b, &s, what)?;
    let q = probs_desc(&b.vals());
    let thr = a1 as f64 * q[0].powf(a2 as f64);
    let rel = if exact { 0.0 } else { 1e-5 + (1.0 + a2.abs() as f64) * (q.len() as f64 * 1.3e-7 + 1e-6) };
    let (lo, hi) = thr_cut(&q, thr, mk, rel);
    // A positive threshold this small may be zero in single precision, which everything reaches.
    let hi = if thr > 0.0 && thr < 1e-37 { q.len() } else { hi };
    count_in(&sp, b, &s, lo, hi, what)
}
fn c09(ctx: &mut Ctx) -> R {
    let sp = space(ctx);
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    for a1 in [0.2f32, 0.0, 0.05, 0.5, 1.0, 2.0, 5.0, -1.0] {
        for a2 in [2.0f32, 0.0, 0.5, 1.0, 1.5, 3.0, -1.0] {
            for mk in min_keeps(i.s.e.len()) {
                // Comparing equal values is exact too.
                let exact = a1 == 1.0 && a2 == 1.0 && !i.near;
                c09_check(ctx, &i.l, &i.s, a1, a2, mk, exact, &i.what)?;
            }
        }
    }
    Ok(())
}
fn c09_dy(ctx: &mut Ctx) -> R {
    let (l, s, f, what) = dyadic_input(ctx);
    for (a1, a2) in [(1.0f32, 1.0f32), (1.0, 2.0), (f as f32, 2.0), (f as f32 * 2.0, 2.0), (f as f32 / 2.0, 2.0), (0.5, 1.0), (2.0, 1.0)] {
        for mk in [1, 0, 2, f / 2, f, f + 1, f + 3] {
            c09_check(ctx, &l, &s, a1, a2, mk, true, &what)?;
        }
    }
    // Thresholds a hair above / below the common probability.
    for a1 in ulps(1.0) {
        for mk in [1, 2, f] {
            c09_check(ctx, &l, &s, a1, 1.0, mk, true, &what)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

pub fn c10_check(ctx: &mut Ctx, l: &Logits, b: &Snap, z: f32, mk: usize, exact: bool, what: &str) -> R {
    let sp = Spec::TailFree(z, mk);
    ctx.note(|| format!("{what}: {sp:?} on {}", short(&b.e)));
    let s = run(ctx, &sp, l, b, what)?;
    let n = b.e.len();
    if z >= 1.0 || n < 3 {
        return untouched_multiset(&sp, b, &s, what);
    }
    ranked(&sp, b, &s, what)?;
    let q = probs_desc(&b.vals());
    let all_equal = b.e.iter().all(|x| x.1 == b.e[0].1);
    if all_equal {
        return count_in(&sp, b, &s, n, n, what);
    }
    let d1: Vec<f64> = q.windows(2).map(|w| w[0] - w[1]).collect();
    let d2: Vec<f64> = d1.windows(2).map(|w| (w[0] - w[1]).abs()).collect();
    let sum: f64 = d2.iter().sum();
    if sum < 1e-9 {
        return Ok(()); // rounding decides; not a meaningful case
    }
    let eps = if exact { 0.0 } else { 2.0 * 8.0 * 6e-8 / sum + n as f64 * 1.3e-7 + 1e-6 };
    let cut = |t: f64| {
        let mut c = 0.0;
        for (i, x) in d2.iter().enumerate() {
            c += x / sum;
            if c > t && i >= mk {
                return i;
            }
        }
        n
    };
    let (lo, hi) = (cut(z as f64 - eps), cut(z as f64 + eps));
    count_in(&sp, b, &s, lo.min(hi), hi.max(lo), what)
}
fn untouched_multiset(sp: &Spec, b: &Snap, s: &Snap, what: &str) -> R {
    ensure!(permutation(&b.e, &s.e), "{what}: {sp:?} should remove nothing: {} -> {}", short(&b.e), short(&s.e));
    Ok(())
}
fn c10(ctx: &mut Ctx) -> R {
    let sp = space(ctx);
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    for z in [0.9f32, 0.0, 0.05, 0.2, 0.35, 0.5, 0.6, 0.75, 0.95, 0.99, 1.0, 1.5, -0.5] {
        for mk in min_keeps(i.s.e.len()) {
            c10_check(ctx, &i.l, &i.s, z, mk, false, &i.what)?;
        }
    }
    Ok(())
}
fn c10_dy(ctx: &mut Ctx) -> R {
    let (l, s, f, what) = dyadic_input(ctx);
    for z in [0.5f32, 0.0, f32::from_bits(0.5f32.to_bits() - 4), f32::from_bits(0.5f32.to_bits() + 4), 0.99, 1.0] {
        for mk in [1, 0, 2, f / 2, f.max(1) - 1, f, f + 1, f + 3] {
            c10_check(ctx, &l, &s, z, mk, true, &what)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

pub fn c11_check(ctx: &mut Ctx, l: &Logits, b: &Snap, p: f32, mk: usize, exact: bool, what: &str) -> R {
    let sp = Spec::Typical(p, mk);
    ctx.note(|| format!("{what}: {sp:?} on {}", short(&b.e)));
    let s = run(ctx, &sp, l, b, what)?;
    let n = b.e.len();
    let m = s.e.len();
    let fail = |m: String| Err(format!("{what}: {sp:?}: {m}: input {} kept {}", short(&b.e), short(&s.e)));
    if n == 0 {
        return Ok(());
    }
    let q = softmax64(&b.vals());
    let h: f64 = q.iter().filter(|x| **x > 0.0).map(|x| -x * x.ln()).sum();
    // In f32 a probability below ~1e-38 is zero (or about to be).
    let score: Vec<f64> = q.iter().map(|x| if *x < 1e-37 { f64::INFINITY } else { (-x.ln() - h).abs() }).collect();
    let tol = |x: f64| if exact { 0.0 } else { 3e-5 * (1.0 + x.abs()) + n as f64 * 2e-7 };
    let eps = if exact { 0.0 } else { eps_for(n) };
    // Which input indices survived (ids are unique in these inputs).
    let kept: std::collections::HashSet<u32> = s.e.iter().map(|x| x.0).collect();
    if kept.len() != m {
        return fail("duplicate ids".into());
    }
    let inside: Vec<usize> = (0..n).filter(|i| kept.contains(&b.e[*i].0)).collect();
    let outside: Vec<usize> = (0..n).filter(|i| !kept.contains(&b.e[*i].0)).collect();
    if m < mk.min(n) {
        return fail(format!("keeps {m}, min_keep is {mk}"));
    }
    if m == 0 {
        // Only meaningful when even the empty set exceeds p and min_keep is 0.
        return if mk == 0 && p < 0.0 { Ok(()) } else { fail("keeps nothing".into()) };
    }
    let worst = inside.iter().map(|i| score[*i]).fold(f64::NEG_INFINITY, f64::max);
    let best_out = outside.iter().map(|i| score[*i]).fold(f64::INFINITY, f64::min);
    if !outside.is_empty() && worst > best_out && (best_out.is_infinite() || worst - best_out > tol(if worst.is_finite() { worst } else { best_out })) {
        return fail(format!("dropped a token of typicality distance {best_out:.5} but kept one of {worst:.5}"));
    }
    let mass: f64 = inside.iter().map(|i| q[*i]).sum();
    if !outside.is_empty() && mass <= p as f64 - eps {
        return fail(format!("kept mass {mass} does not exceed p but tokens were dropped"));
    }
    if exact && !outside.is_empty() && mass <= p as f64 {
        return fail(format!("kept mass {mass} does not exceed p but tokens were dropped"));
    }
    // Smallest such set: without its least typical member it must not qualify.
    if m > mk.max(1) {
        let last_mass = inside
            .iter()
            .filter(|i| worst == score[**i] || (worst.is_finite() && worst - score[**i] <= tol(worst)))
            .map(|i| q[*i])
            .fold(0.0, f64::max);
        let without = mass - last_mass;
        if without > p as f64 + eps {
            return fail(format!("{m} kept although the set without its least typical member has mass {without}"));
        }
    }
    Ok(())
}
fn c11(ctx: &mut Ctx) -> R {
    let sp = InputSpace {
        alpha: ALPHA,
        lo: 0,
        hi: ctx.qt(5, 6),
        sizes: SIZES_T,
        preps_small: 12,
        preps_shape: 12,
        odd: ctx.qt(3, 4),
    };
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    for p in [0.2f32, 0.0, 0.1, 0.35, 0.5, 0.62, 0.75, 0.9, 0.95, 0.999, 1.0, 1.5, -1.0] {
        for mk in min_keeps(i.s.e.len()) {
            c11_check(ctx, &i.l, &i.s, p, mk, false, &i.what)?;
        }
    }
    Ok(())
}
fn c11_dy(ctx: &mut Ctx) -> R {
    let (l, s, f, what) = dyadic_input(ctx);
    let step = (f / 8).max(1);
    let mut targets = vec![0.0f32, 1.0];
    for j in (1..=f).step_by(step) {
        targets.extend(ulps(j as f32 / f as f32));
    }
    for p in targets {
        for mk in [1, 2, f / 2, f, f + 1, f + 3] {
            c11_check(ctx, &l, &s, p, mk, true, &what)?;
        }
    }
    Ok(())
}
fn c11_forbid(ctx: &mut Ctx) -> R {
    let hi = ctx.qt(6, 7);
    let v = small_vec(ctx, &[NINF, 0.0, 1.5, -3.0], 1, hi);
    if !v.iter().any(|x| x.is_finite()) {
        return Ok(());
    }
    let l = Logits::try_from_iter(v.iter().copied()).unwrap();
    let s = snap(&l);
    for p in [0.2f32, 0.5, 0.8, 0.99, 1.0] {
        for mk in [1, 2, 4, 7] {
            c11_check(ctx, &l, &s, p, mk, false, "raw")?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ filters used before

fn c05_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for mk in [1, 3] {
        for f in [Spec::TopK(4, mk), Spec::TopP(0.5, mk), Spec::MinP(0.3, mk), Spec::TopA(0.5, 1.0, mk), Spec::TailFree(0.5, mk), Spec::Typical(0.5, mk)] {
            c05_one(ctx, &f, &i.l, &i.s, &i.what)?;
        }
    }
    Ok(())
}
fn c06_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for (k, mk) in [(3, 1), (5, 2), (1, 1), (40, 1), (2, 6)] {
        c06_check(ctx, &i.l, &i.s, k, mk, &i.what)?;
    }
    Ok(())
}
fn c07_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for (p, mk) in [(0.3f32, 1), (0.6, 1), (0.9, 1), (0.97, 1), (0.2, 4), (1.0, 1)] {
        c07_check(ctx, &i.l, &i.s, p, mk, false, &i.what)?;
    }
    Ok(())
}
fn c08_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for (p, mk) in [(0.3f32, 1), (0.05, 1), (0.6, 3), (0.01, 1), (0.0, 1)] {
        c08_check(ctx, &i.l, &i.s, p, mk, false, &i.what)?;
    }
    Ok(())
}
fn c09_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for (a1, a2, mk) in [(0.3f32, 1.0f32, 1), (0.9, 1.5, 1), (0.2, 0.5, 3), (0.1, 2.0, 1), (0.0, 1.0, 1)] {
        c09_check(ctx, &i.l, &i.s, a1, a2, mk, false, &i.what)?;
    }
    Ok(())
}
fn c10_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for (z, mk) in [(0.2f32, 1), (0.5, 1), (0.8, 1), (0.95, 1), (0.3, 4)] {
        c10_check(ctx, &i.l, &i.s, z, mk, false, &i.what)?;
    }
    Ok(())
}
fn c11_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for (p, mk) in [(0.2f32, 1), (0.5, 1), (0.8, 1), (0.97, 1), (0.3, 4)] {
        c11_check(ctx, &i.l, &i.s, p, mk, false, &i.what)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ vocabulary sizes

fn vocab(ctx: &mut Ctx) -> Option<(Logits, Snap, String)> {
    let k = *ctx.pick(SHAPES);
    let n = [65537usize, 70001, 131072, 200000][ctx.choose(ctx.qt(2, 4))];
    let p = *ctx.pick(&["raw", "softmaxed", "renumbered"]);
    let l = prepare(p, &shape(k, n))?;
    let s = snap(&l);
    ctx.state(&(k, n, p));
    Some((l, s, format!("{k}({n}) {p}")))
}
fn c05_vocab(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = vocab(ctx) else { return Ok(()) };
    let mk = *ctx.pick(&[1usize, 65536, 65540, usize::MAX]);
    for f in [Spec::TopK(65537, mk), Spec::TopP(0.5, mk), Spec::MinP(0.3, mk), Spec::TopA(0.5, 1.0, mk), Spec::TailFree(0.5, mk), Spec::Typical(0.5, mk)] {
        c05_one(ctx, &f, &l, &s, &what)?;
    }
    Ok(())
}
fn c06_vocab(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = vocab(ctx) else { return Ok(()) };
    let n = s.e.len();
    for (k, mk) in [(40, 1), (65535, 1), (65536, 0), (65537, 1), (1, 65538), (n - 1, 1), (n, 2), (n + 1, 1), (usize::MAX, 1), (1, usize::MAX), (1 << 32, 1)] {
        c06_check(ctx, &l, &s, k, mk, &what)?;
    }
    Ok(())
}
fn c07_vocab(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = vocab(ctx) else { return Ok(()) };
    for (p, mk) in [(0.3, 1), (0.9, 1), (0.96, 1), (0.5, 65536), (0.2, 65538), (1.5, 1), (0.0, 1)] {
        c07_check(ctx, &l, &s, p, mk, false, &what)?;
    }
    Ok(())
}
fn c08_vocab(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = vocab(ctx) else { return Ok(()) };
    for (p, mk) in [(0.3, 1), (1e-3, 1), (0.9, 65538), (0.0, 1), (0.05, 65536)] {
        c08_check(ctx, &l, &s, p, mk, false, &what)?;
    }
    Ok(())
}
fn c09_vocab(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = vocab(ctx) else { return Ok(()) };
    for (a1, a2, mk) in [(0.3, 1.0, 1), (1.0, 1.5, 1), (0.2, 0.5, 65538), (0.0, 1.0, 1), (2.0, 1.2, 65536)] {
        c09_check(ctx, &l, &s, a1, a2, mk, false, &what)?;
    }
    Ok(())
}
fn c10_vocab(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = vocab(ctx) else { return Ok(()) };
    for (z, mk) in [(0.3, 1), (0.9, 1), (0.5, 65538), (0.0, 65536), (1.0, 1)] {
        c10_check(ctx, &l, &s, z, mk, false, &what)?;
    }
    Ok(())
}
fn c11_vocab(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = vocab(ctx) else { return Ok(()) };
    for (p, mk) in [(0.3, 1), (0.9, 1), (0.5, 65538), (0.0, 65536), (1.5, 1)] {
        c11_check(ctx, &l, &s, p, mk, false, &what)?;
    }
    Ok(())
}
