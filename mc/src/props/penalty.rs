//! C16 repetition, C17 frequency/presence, C18/C19 sequence repetition, C20 flat bias, C21 temperature.
use crate::common::*;
use crate::engine::*;
use std::collections::HashMap;

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C16",
            name: "repetition",
            bounds: "all histories of length 0-5 (quick) / 0-6 (thorough) over {0,1,2,9} x last_n {0..5,64,usize::MAX} x 9 penalties x 9 value vectors x 5 preparations (incl. renumbered ids, duplicate ids)",
            run: c16,
        },
        Harness {
            prop: "C16",
            name: "repetition_large",
            bounds: "300-entry collections in 6 preparations x generated histories of 0..5000 tokens x last_n around the history length x 4 penalties; token id u32::MAX",
            run: c16_large,
        },
        Harness {
            prop: "C16",
            name: "repetition_vocabulary",
            bounds: "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered, softmax+temp2} x histories of 3 and 64 ids spread over the vocabulary",
            run: c16_vocab,
        },
        Harness {
            prop: "C16",
            name: "alike_ids",
            bounds: "9 ids x histories of 8 lengths up to 5000 (5 kinds) x collections holding every id that differs in one bit, by a power of two, or by byte, half or bit order x windows",
            run: c16_alike,
        },
        Harness {
            prop: "C17",
            name: "freq_presence",
            bounds: "all histories of length 0-5 (quick) / 0-6 (thorough) over {0,1,2,9} x last_n {0..5,64,usize::MAX} x 11 penalty pairs x 4 value vectors x 5 preparations",
            run: c17,
        },
        Harness {
            prop: "C17",
            name: "freq_presence_large",
            bounds: "300-entry collections x generated histories up to 70000 tokens (counts past 255 and 65535) x last_n around the history length x 5 penalty pairs",
            run: c17_large,
        },
        Harness {
            prop: "C17",
            name: "freq_presence_vocabulary",
            bounds: "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered, softmax+temp2} x histories of 3 and 64 ids spread over the vocabulary",
            run: c17_vocab,
        },
        Harness {
            prop: "C17",
            name: "alike_ids",
            bounds: "9 ids x histories of 8 lengths up to 5000 (5 kinds) x collections holding every id that differs in one bit, by a power of two, or by byte, half or bit order x windows x 3 penalty pairs",
            run: c17_alike,
        },
        Harness {
            prop: "C18",
            name: "alike_ids",
            bounds: "patterns of 2-4 ids (9 bases) whose earlier occurrence has one id replaced by every id alike to it, 3 followers (all alike ids in the collection), 3 distances",
            run: c18_alike,
        },
        Harness {
            prop: "C18",
            name: "long_runs",
            bounds: "a run of up to 400 equal or alternating letters, a pattern over the same letters (all, length 1-4), a follower, another run of up to 130 (quick) / 257 (thorough), the pattern again",
            run: c18_runs,
        },
        Harness {
            prop: "C18",
            name: "sequences",
            bounds: "all histories over 2 letters up to length 13/15, 3 letters up to 9/10, 4 letters up to 8/9 x min_length {2,3,4,5} x last_n {2,5,7,64,usize::MAX} x max_merge {0,1,3} x 4 penalty pairs",
            run: c18,
        },
        Harness {
            prop: "C18",
            name: "sequences_long",
            bounds: "generated histories (periodic with enumerated period 1-9, block repeats, pseudo-random) of lengths 16..300 x min_length 2-16 x last_n",
            run: c18_long,
        },
        Harness {
            prop: "C18",
            name: "disabled",
            bounds: "all histories over 2 letters up to length 8 x disabling parameter sets: both penalties 0, min_length 0/1, last_n < min_length, history shorter than two sequences",
            run: c18_off,
        },
        Harness {
            prop: "C19",
            name: "fuzzy",
            bounds: "all histories over 2 letters up to length 12/14, 3 letters up to 9/10, 4 letters up to 7/9 x min_length {2,3,4} x tolerance {1,2,3} x max_merge {0,1,2,3} x last_n",
            run: c19,
        },
        Harness {
            prop: "C19",
            name: "fuzzy_patterns",
            bounds: "every pattern of length 3-6 with every wildcard position, 1-4 absorbed tokens, every gap 0-2, and every tail: constructed histories x tolerance 0-2 x max_merge 0-4",
            run: c19_pat,
        },
        Harness {
            prop: "C19",
            name: "alike_ids",
            bounds: "the patterns of C18 alike_ids with tolerance 1",
            run: c19_alike,
        },
        Harness {
            prop: "C19",
            name: "fuzzy_two",
            bounds: "patterns of length 5-7 (3 letter arrangements) with two or three wildcards at all non-adjacent positions, each absorbing 1-3 (quick) / 1-4 (thorough) tokens, x tolerance {1,2,3,max} x max_merge {1..4,max}",
            run: c19_two,
        },
        Harness { prop: "C16", name: "repetition_reused", bounds: REUSED_HIST, run: c16_reused },
        Harness { prop: "C17", name: "freq_presence_reused", bounds: REUSED_HIST, run: c17_reused },
        Harness { prop: "C18", name: "sequences_reused", bounds: REUSED_HIST, run: c18_reused },
        Harness { prop: "C19", name: "fuzzy_reused", bounds: REUSED_HIST, run: c19_reused },
        Harness {
            prop: "C20",
            name: "bias_extremes",
            bounds: "pairs of values x one or two biases out of 11 extreme ones each (largest, infinite, smallest, NaN bias), raw and sorted: the exact sums, and sorting afterwards",
            run: c20_extremes,
        },
        Harness {
            prop: "C20",
            name: "bias_edited",
            bounds: "all sequences of 4 (quick) / 5 (thorough) operations, then a call, out of {call on one of 3 collections, and 12 edits of the sampler's list: push, insert in front, remove first / last / all, change a bias, change an id, swap, reverse, replace, clone the sampler, truncate} from 3 starting lists: every call adds the list of that moment",
            run: c20_edited,
        },
        Harness { prop: "C20", name: "bias_reused", bounds: REUSED, run: c20_reused },
        Harness { prop: "C21", name: "temperature_reused", bounds: REUSED, run: c21_reused },
        Harness {
            prop: "C20",
            name: "bias_vocabulary",
            bounds: "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered, softmax+temp2} x bias lists of 3 and 40 ids spread over the vocabulary",
            run: c20_vocab,
        },
        Harness {
            prop: "C20",
            name: "alike_ids",
            bounds: "9 ids x bias lists of 1 to 2000 ids in 3 orders x collections holding every alike id",
            run: c20_alike,
        },
        Harness {
            prop: "C20",
            name: "bias",
            bounds: "all ordered lists of up to 4 (quick) / 5 (thorough) distinct ids from {0,1,2,7,u32::MAX} x biases {-inf,1.5,-2,0,1e30,3e38} x all vectors of length 0-3 over 5 values x 6 preparations x 2 construction ways",
            run: c20,
        },
        Harness {
            prop: "C20",
            name: "bias_large",
            bounds: "shapes of up to 400 entries x 12 preparations x bias lists of 1, 50 and 400 ids",
            run: c20_large,
        },
        Harness {
            prop: "C21",
            name: "temperature",
            bounds: "all vectors of length 0-5 (quick) / 0-6 (thorough) over 6 values and of length 1-3/1-4 over 3 alphabets of nearly equal, far apart and tiny values, shapes, 12 preparations x 22 temperatures (incl. subnormal and near-maximal); then greedy, softmax and random selection",
            run: c21,
        },
        Harness {
            prop: "C21",
            name: "temperature_vocabulary",
            bounds: "12 shapes x sizes 65537, 70001 (quick) and 131072, 200000 (thorough) x {raw, softmaxed, renumbered, softmax+temp2} x 4 temperatures",
            run: c21_vocab,
        },
        Harness {
            prop: "C21",
            name: "temperature_twice",
            bounds: "two temperatures in sequence (all ordered pairs of 8), with a sort, softmax or nothing before, between and after, on vectors of length 1-3 and shapes",
            run: c21_twice,
        },
    ]
}

const TOKS: &[u32] = &[0, 1, 2, 9];
const LAST_N: &[usize] = &[64, 0, 1, 2, 3, 4, 5, usize::MAX];
const VALS: &[&[f32]] = &[
    &[1.5, -2.0, 0.0],
    &[3.0, 3.0, 3.0],
    &[-1.0, -0.5, -4.0],
    &[2.0, NINF, -0.0],
    &[1.0e30, 7.0, -1.0e30],
    &[0.25, 100.0],
    &[5.0],
    &[],
    &[f32::MIN_POSITIVE, 1.0, -f32::MIN_POSITIVE, 2.0],
];

fn hist(ctx: &mut Ctx, hi: usize) -> Vec<u32> {
    let n = ctx.range(0, hi);
    (0..n).map(|_| *ctx.pick(TOKS)).collect()
}
/// Collections with ids out of the history alphabet.
fn coll(ctx: &mut Ctx, v: &[f32], how: usize) -> Option<Logits> {
    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
    let _ = ctx;
    match how {
        0 => {}
        1 => {
            if !v.iter().any(|x| x.is_finite()) {
                return None;
            }
            l.ensure_softmax().ok()?;
        }
        2 => {
            // ids not equal to positions
            if v.len() < 2 {
                return None;
            }
            for (i, x) in l.iter_mut().enumerate() {
                x.token_id = [9, 2, u32::MAX, 0][i % 4];
            }
        }
        3 => {
            // several entries for the same token
            if v.len() < 3 {
                return None;
            }
            l[0].token_id = 1;
            l[2].token_id = 1;
        }
        _ => {
            if v.len() < 2 {
                return None;
            }
            l.reverse();
        }
    }
    Some(l)
}
pub fn window(h: &[u32], last_n: usize) -> &[u32] {
    &h[h.len() - last_n.min(h.len())..]
}
fn close(got: f32, want: f64, rel: f64, scale: f64) -> bool {
    if !want.is_finite() || want.abs() > 3.4e38 {
        return got as f64 == want || (got.is_infinite() && got.is_sign_positive() == (want > 0.0)) || (want.abs() < 3.5e38 && got.abs() > 3.3e38);
    }
    (got as f64 - want).abs() <= rel * want.abs().max(scale) + 1e-44
}

/// Run a penalty sampler; `want` gives None (unchanged) or the expected value and tolerance scale.
pub fn penal(
    ctx: &mut Ctx,
    s: &mut dyn Sampler,
    h: &[u32],
    l: &mut Logits,
    rel: f64,
    what: &dyn Fn() -> String,
    want: &dyn Fn(u32, f32) -> Option<(f64, f64)>,
) -> R {
    warm_up(s, l, h);
    let b = snap(l);
    let mut res = Res::toks(h);
    s.sample(&mut res, l).map(|_| ()).map_err(|e| format!("{}: failed: {}", what(), err_str(&e)))?;
    ctx.step();
    let a = snap(l);
    ctx.state(&a);
    ctx.note(|| format!("{}: {} -> {}", what(), short(&b.e), short(&a.e)));
    ensure!(res.tokens.as_deref() == Some(h), "{}: the history was changed to {:?}", what(), res.tokens);
    ensure!(a.e.len() == b.e.len(), "{}: number of entries changed: {} -> {}", what(), short(&b.e), short(&a.e));
    ensure!(s.sampled_token_id().is_none(), "{}: reports a token", what());
    for i in 0..a.e.len() {
        let (id, old) = b.e[i];
        ensure!(a.e[i].0 == id, "{}: entry {i} was token {id}, is {}", what(), a.e[i].0);
        let got = a.e[i].1;
        match want(id, old) {
            None => ensure!(got.to_bits() == old.to_bits(), "{}: token {id} should be unchanged at {old}, is {got}: {}", what(), short(&b.e)),
            Some((w, scale)) => ensure!(close(got, w, rel, scale), "{}: token {id} with logit {old} should become {w}, is {got}: {}", what(), short(&b.e)),
        }
    }
    if !a.e.iter().any(|x| x.1.is_nan()) {
        flags_truthful(l).map_err(|m| format!("{}: {m}", what()))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

pub fn rep(ctx: &mut Ctx, pen: f32, n: usize, h: &[u32], l: &mut Logits, how: usize) -> R {
    let mut s = if how % 2 == 0 {
        SampleRepetition::new(pen, n)
    } else {
        SampleRepetition::default().penalty(pen).last_n(n)
    };
    let w = window(h, n).to_vec();
    let on = pen > 1.0 && n > 0;
    let seen: std::collections::HashSet<u32> = w.into_iter().collect();
    penal(
        ctx,
        &mut s,
        h,
        l,
        1e-6,
        &|| format!("repetition penalty {pen} last_n {n} history {:?}", &h[..h.len().min(12)]),
        &|id, old| {
            if on && seen.contains(&id) {
                let x = if old > 0.0 { old as f64 / pen as f64 } else { old as f64 * pen as f64 };
                Some((x, 0.0))
            } else {
                None
            }
        },
    )
}
fn c16(ctx: &mut Ctx) -> R {
    let hi = ctx.qt(5, 6);
    let h = hist(ctx, hi);
    let how = ctx.choose(5);
    let v = *ctx.pick(VALS);
    let pen = *ctx.pick(&[1.1f32, 1.0, 0.5, 0.0, -1.0, 1.5, 2.0, 1.0000001, 1e30]);
    let Some(l) = coll(ctx, v, how) else { return Ok(()) };
    for n in LAST_N {
        rep(ctx, pen, *n, &h, &mut l.clone(), how)?;
    }
    // a second application counts again, and nothing is remembered
    if pen == 2.0 && how == 0 {
        let mut l2 = l.clone();
        rep(ctx, pen, 3, &h, &mut l2, 0)?;
        rep(ctx, pen, 2, &h, &mut l2, 0)?;
    }
    Ok(())
}
pub fn big_hist(kind: usize, n: usize) -> Vec<u32> {
    match kind {
        0 => (0..n as u32).map(|i| i % 7).collect(),
        1 => (0..n as u32).map(|i| (i.wrapping_mul(2654435761)) >> 22).collect(),
        2 => vec![5; n],
        _ => (0..n as u32).map(|i| if i % 3 == 0 { u32::MAX } else { i % 310 }).collect(),
    }
}
fn big_coll(ctx: &mut Ctx) -> Logits {
    let k = *ctx.pick(&["shuf", "asc", "forbid3", "ties", "two"]);
    let p = *ctx.pick(&["raw", "sorted", "softmaxed", "topk-ingested", "renumbered", "softmax+temp2"]);
    let mut l = prepare(p, &shape(k, 300)).unwrap_or_else(|| Logits::try_from_iter(shape(k, 300)).unwrap());
    let i = l.len() / 2;
    l[i].token_id = u32::MAX;
    l
}
fn c16_large(ctx: &mut Ctx) -> R {
    let l = big_coll(ctx);
    let hk = ctx.choose(4);
    let n = *ctx.pick(&[0usize, 1, 63, 64, 65, 299, 1000, 5000]);
    let h = big_hist(hk, n);
    let pen = *ctx.pick(&[1.1f32, 3.0, 1.0, 0.9]);
    for last in [0, 1, 2, 63, 64, 65, n.saturating_sub(1), n, n + 1, usize::MAX] {
        rep(ctx, pen, last, &h, &mut l.clone(), 0)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C17

pub fn fp(ctx: &mut Ctx, f: f32, p: f32, n: usize, h: &[u32], l: &mut Logits, how: usize) -> R {
    let mut s = if how % 2 == 0 {
        SampleFreqPresence::new(f, p, n)
    } else {
        SampleFreqPresence::default().frequency(f).presence(p).last_n(n)
    };
    let on = n > 0 && !(f == 0.0 && p == 0.0);
    let mut cnt: HashMap<u32, u64> = HashMap::new();
    for t in window(h, n) {
        *cnt.entry(*t).or_default() += 1;
    }
    penal(
        ctx,
        &mut s,
        h,
        l,
        1e-6,
        &|| format!("frequency {f} presence {p} last_n {n} history({}) {:?}", h.len(), &h[..h.len().min(12)]),
        &|id, old| match cnt.get(&id) {
            Some(c) if on => {
                let d = *c as f64 * f as f64 + p as f64;
                Some((old as f64 - d, old.abs() as f64 + (*c as f64 * f as f64).abs() + p.abs() as f64))
            }
            _ => None,
        },
    )
}
fn c17(ctx: &mut Ctx) -> R {
    let hi = ctx.qt(5, 6);
    let h = hist(ctx, hi);
    let how = ctx.choose(5);
    let v = VALS[*ctx.pick(&[0usize, 3, 4, 7])];
    let (f, p) = *ctx.pick(&[
        (0.5f32, 0.25f32),
        (0.0, 0.0),
        (0.0, 1.5),
        (2.0, 0.0),
        (-0.75, 0.25),
        (0.5, -0.5),
        (-1.0, -1.0),
        (1.0, -1.0),
        (1e-3, 3.0),
        (-0.0, 0.0),
        (100.0, 7.0),
    ]);
    let Some(l) = coll(ctx, v, how) else { return Ok(()) };
    for n in LAST_N {
        fp(ctx, f, p, *n, &h, &mut l.clone(), how)?;
    }
    if f == 0.5 && how == 0 {
        let mut l2 = l.clone();
        fp(ctx, f, p, 3, &h, &mut l2, 0)?;
        fp(ctx, f, p, 2, &h, &mut l2, 0)?;
    }
    Ok(())
}
fn c17_large(ctx: &mut Ctx) -> R {
    let l = big_coll(ctx);
    let hk = ctx.choose(4);
    let n = *ctx.pick(&[0usize, 63, 64, 65, 255, 256, 257, 1000, 70000]);
    if n == 70000 && !ctx.thorough() && l.get_sorted() {
        return Ok(());
    }
    let h = big_hist(hk, n);
    let (f, p) = *ctx.pick(&[(0.5f32, 0.25f32), (0.0, 2.0), (0.125, 0.0), (-0.5, 0.5), (0.01, -3.0)]);
    for last in [0, 1, 64, 255, 256, n.saturating_sub(1), n, n + 1, usize::MAX] {
        fp(ctx, f, p, last, &h, &mut l.clone(), 0)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C18 / C19

#[derive(Default, Clone)]
struct Span {
    must: usize,
    may: usize,
}
/// Tolerance 0. token -> (longest non-overlapping, longest any) continued occurrence length.
fn exact_spans(w: &[u32], min: usize) -> HashMap<u32, Span> {
    let n = w.len();
    let mut m: HashMap<u32, Span> = HashMap::new();
    for f in 1..n {
        // Longest piece before position f that equals the ending.
        let mut len = 0;
        while len < f && w[f - 1 - len] == w[n - 1 - len] {
            len += 1;
        }
        if len >= min {
            let s = m.entry(w[f]).or_default();
            s.may = s.may.max(len);
            if len.min(n - f) >= min {
                s.must = s.must.max(len.min(n - f));
            }
        }
    }
    m
}
/// All hay lengths that the needle can match from the start of `hay`.
fn fuzzy_ends(hay: &[u32], nd: &[u32], tol: usize, merge: usize) -> Vec<usize> {
    let mm = merge.max(1);
    let last = nd.len() - 1;
    let mut out = vec![];
    // states: (needle index, hay index, wildcards left); breadth first over the needle
    let mut cur = vec![(0usize, tol)];
    for (j, x) in nd.iter().enumerate() {
        let mut next: Vec<(usize, usize)> = vec![];
        for (hi, t) in cur {
            if hi < hay.len() && hay[hi] == *x {
                next.push((hi + 1, t));
            }
            if j > 0 && j < last && t > 0 {
                for r in 1..=mm.min(hay.len()) {
                    if hi + r <= hay.len() {
                        next.push((hi + r, t - 1));
                    }
                }
            }
        }
        next.sort_unstable();
        next.dedup();
        cur = next;
        if cur.is_empty() {
            return out;
        }
    }
    for (h, _) in cur {
        out.push(h);
    }
    out.sort_unstable();
    out.dedup();
    out
}
/// The match in which every wildcard starts where the history differs from the ending, stops
/// at the first occurrence of the ending's next token, and is followed by an exact match.
fn plain_parse(hay: &[u32], nd: &[u32], tol: usize, mm: usize) -> Option<usize> {
    let (mut h, mut t, mut j) = (0, tol, 0);
    while j < nd.len() {
        if h >= hay.len() {
            return None;
        }
        if hay[h] == nd[j] {
            h += 1;
            j += 1;
            continue;
        }
        if j == 0 || j + 1 >= nd.len() || t == 0 {
            return None;
        }
        let r = (1..=mm.min(hay.len())).find(|r| hay.get(h + r) == Some(&nd[j + 1]))?;
        t -= 1;
        h += r + 1;
        j += 2;
    }
    Some(h)
}
fn fuzzy_spans(w: &[u32], min: usize, tol: usize, merge: usize) -> HashMap<u32, Span> {
    let n = w.len();
    let mm = merge.max(1);
    let mut m: HashMap<u32, Span> = HashMap::new();
    for len in min..n {
        let e = &w[n - len..];
        for i in 0..n - len {
            if w[i] != e[0] {
                continue;
            }
            for c in fuzzy_ends(&w[i..], e, tol, merge) {
                if i + c < n {
                    let s = m.entry(w[i + c]).or_default();
                    s.may = s.may.max(c);
                }
            }
            // what has to be found
            if mm == 1 {
                if i + len <= n - len && w[i + len - 1] == e[len - 1] {
                    let mis = (1..len - 1).filter(|j| w[i + j] != e[*j]).count();
                    if mis <= tol {
                        let s = m.entry(w[i + len]).or_default();
                        s.must = s.must.max(len);
                    }
                }
            } else {
                if i + len <= n - len && &w[i..i + len] == e {
                    let s = m.entry(w[i + len]).or_default();
                    s.must = s.must.max(len);
                }
                if let Some(c) = plain_parse(&w[i..n - len], e, tol, mm) {
                    if i + c <= n - len {
                        let s = m.entry(w[i + c]).or_default();
                        s.must = s.must.max(c);
                    }
                }
            }
        }
    }
    m
}

#[derive(Clone, Copy, Debug)]
pub struct Sq {
    pub flat: f32,
    pub stack: f32,
    pub min: usize,
    pub tol: usize,
    pub merge: usize,
    pub n: usize,
}
pub fn seq_check(ctx: &mut Ctx, q: Sq, h: &[u32], l: &mut Logits, builder: bool) -> R {
    let mut s = if builder {
        SampleSeqRepetition::default()
            .flat_penalty(q.flat)
            .stacking_penalty(q.stack)
            .min_length(q.min)
            .tolerance(q.tol)
            .max_merge(q.merge)
            .last_n(q.n)
    } else {
        SampleSeqRepetition::new(q.flat, q.stack, q.min, q.tol, q.merge, q.n)
    };
    let off = (q.flat == 0.0 && q.stack == 0.0) || q.min < 2 || q.n < q.min;
    let w = window(h, q.n);
    let spans = if off {
        HashMap::new()
    } else if q.tol == 0 {
        exact_spans(w, q.min)
    } else {
        fuzzy_spans(w, q.min, q.tol, q.merge)
    };
    warm_up(&mut s, l, h);
    let b = snap(l);
    let mut res = Res::toks(h);
    let what = || format!("{q:?} history({}) {:?}", h.len(), &h[..h.len().min(40)]);
    s.sample(&mut res, l).map(|_| ()).map_err(|e| format!("{}: failed: {}", what(), err_str(&e)))?;
    ctx.step();
    let a = snap(l);
    ctx.state(&(hash_of(&a), hash_of(&h)));
    ctx.note(|| format!("{}: {} -> {}", what(), short(&b.e), short(&a.e)));
    ensure!(res.tokens.as_deref() == Some(h), "{}: the history was changed", what());
    ensure!(a.e.len() == b.e.len(), "{}: number of entries changed", what());
    for i in 0..a.e.len() {
        let (id, old) = b.e[i];
        let (id2, got) = a.e[i];
        ensure!(id == id2, "{}: entry {i} was token {id}, is {id2}", what());
        let sp = spans.get(&id).cloned().unwrap_or_default();
        if got.to_bits() == old.to_bits() {
            // Unchanged: fine unless it had to be penalised by something visible.
            if sp.must > 0 {
                let lo = q.flat as f64 + q.stack as f64 * (sp.must + 1) as f64;
                ensure!(
                    lo.abs() <= 1e-6 * old.abs() as f64 || !old.is_finite(),
                    "{}: token {id} continues a repeat of length {} but was not penalised: {} -> {}",
                    what(),
                    sp.must,
                    short(&b.e),
                    short(&a.e)
                );
            }
            continue;
        }
        ensure!(sp.may > 0, "{}: token {id} was changed from {old} to {got} but continues no repeat: {} -> {}", what(), short(&b.e), short(&a.e));
        let d = old as f64 - got as f64;
        let lens: Vec<usize> = if q.stack == 0.0 {
            vec![0]
        } else if sp.must > 0 {
            (sp.must..=sp.may.max(sp.must)).collect()
        } else {
            (q.min..=sp.may).collect()
        };
        let ok = lens.iter().any(|len| {
            let e = q.flat as f64 + q.stack as f64 * (len + 1) as f64;
            (d - e).abs() <= 2e-5 * (old.abs() as f64).max(e.abs()).max(1.0)
        });
        ensure!(
            ok,
            "{}: token {id} was reduced by {d}, expected flat {} + stacking {} * (length+1) with length {}..{}: {} -> {}",
            what(),
            q.flat,
            q.stack,
            sp.must.max(q.min.min(sp.may)),
            sp.may,
            short(&b.e),
            short(&a.e)
        );
    }
    flags_truthful(l).map_err(|m| format!("{}: {m}", what()))
}

const LETTERS: &[u32] = &[3, 1, 0, 7];
fn seq_coll(ctx: &mut Ctx) -> Logits {
    let how = ctx.choose(3);
    let mut l = Logits::try_from_iter([1.0f32, 2.5, NINF, 0.5, 4.0]).unwrap();
    match how {
        0 => {}
        1 => {
            l.ensure_softmax().unwrap();
        }
        _ => {
            for (i, x) in l.iter_mut().enumerate() {
                x.token_id = [7, 3, 2, 0, 1][i];
            }
        }
    }
    l
}
/// Letters and history; lengths bounded per alphabet size.
fn letters(ctx: &mut Ctx, caps: [usize; 3]) -> Vec<u32> {
    let a = ctx.choose(3);
    let n = ctx.range(0, caps[a]);
    (0..n).map(|_| LETTERS[ctx.choose(a + 2)]).collect()
}
fn c18(ctx: &mut Ctx) -> R {
    let caps = ctx.qt([13, 9, 8], [15, 10, 9]);
    let h = letters(ctx, caps);
    let l = seq_coll(ctx);
    for min in [2usize, 3, 4, 5] {
        for n in [64usize, 2, 5, 7, usize::MAX] {
            for (k, (flat, stack)) in [(1.5f32, 0.0f32), (0.5, 2.0), (-1.0, 0.0), (0.0, 3.0)].into_iter().enumerate() {
                let merge = [0usize, 1, 3][(k + min) % 3];
                seq_check(ctx, Sq { flat, stack, min, tol: 0, merge, n }, &h, &mut l.clone(), k == 1)?;
            }
        }
    }
    Ok(())
}
fn gen_hist(kind: usize, par: usize, n: usize) -> Vec<u32> {
    match kind {
        0 => (0..n).map(|i| LETTERS[(i % (par + 1)) % 4] + 8 * ((i % (par + 1)) / 4) as u32).collect(),
        1 => {
            // a block, junk, and the block again
            let b: Vec<u32> = (0..par + 3).map(|i| 20 + i as u32).collect();
            let mut v: Vec<u32> = vec![];
            while v.len() + 2 * b.len() < n {
                v.extend(&b);
                v.push(LETTERS[v.len() % 4]);
            }
            v.extend(&b);
            v
        }
        _ => {
            let mut s = par as u32 * 7919 + 1;
            (0..n)
                .map(|_| {
                    s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                    LETTERS[(s >> 24) as usize % (2 + par % 3)]
                })
                .collect()
        }
    }
}
fn c18_long(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(3);
    let par = ctx.range(0, ctx.qt(40, 120));
    let n = *ctx.pick(&[16usize, 63, 64, 65, 120, 300]);
    let h = gen_hist(kind, par, n);
    let mut l = Logits::try_from_iter((0..40).map(|i| i as f32 * 0.25)).unwrap();
    if ctx.flag() {
        l.ensure_softmax().unwrap();
    }
    let min = *ctx.pick(&[2usize, 3, 5, 8, 16]);
    let last = *ctx.pick(&[64usize, 10, 33, 128, usize::MAX]);
    let (flat, stack) = *ctx.pick(&[(1.5f32, 0.0f32), (0.5, 0.25)]);
    seq_check(ctx, Sq { flat, stack, min, tol: 0, merge: 2, n: last }, &h, &mut l, false)
}
fn c18_off(ctx: &mut Ctx) -> R {
    let n = ctx.range(0, 8);
    let h: Vec<u32> = (0..n).map(|_| LETTERS[ctx.choose(2)]).collect();
    let l = seq_coll(ctx);
    for tol in [0usize, 1] {
        for q in [
            Sq { flat: 0.0, stack: 0.0, min: 2, tol, merge: 1, n: 64 },
            Sq { flat: -0.0, stack: 0.0, min: 2, tol, merge: 1, n: 64 },
            Sq { flat: 1.0, stack: 1.0, min: 0, tol, merge: 1, n: 64 },
            Sq { flat: 1.0, stack: 1.0, min: 1, tol, merge: 1, n: 64 },
            Sq { flat: 1.0, stack: 1.0, min: 3, tol, merge: 1, n: 2 },
            Sq { flat: 1.0, stack: 1.0, min: 2, tol, merge: 1, n: 0 },
            Sq { flat: 1.0, stack: 1.0, min: 5, tol, merge: 1, n: 64 },
            Sq { flat: 1.0, stack: 1.0, min: 4, tol, merge: 1, n: 7 },
            Sq { flat: 1.0, stack: 1.0, min: usize::MAX, tol, merge: 1, n: usize::MAX },
        ] {
            let mut x = l.clone();
            let b = snap(&x);
            seq_check(ctx, q, &h, &mut x, false)?;
            if q.min < 2 || q.n < q.min || (q.flat == 0.0 && q.stack == 0.0) {
                ensure!(snap(&x).same(&b), "{q:?}: disabled sampler changed the collection");
            }
        }
    }
    Ok(())
}
fn c19(ctx: &mut Ctx) -> R {
    let caps = ctx.qt([12, 9, 7], [14, 10, 9]);
    let h = letters(ctx, caps);
    let l = Logits::try_from_iter([1.0f32, 2.5, NINF, 0.5, 4.0, 0.0, 0.0, 2.0]).unwrap();
    let tol = ctx.range(1, 3);
    for min in [2usize, 3, 4] {
        for merge in [0usize, 1, 2, 3] {
            for n in [64usize, 7] {
                let stack = 0.5;
                seq_check(ctx, Sq { flat: 1.5, stack, min, tol, merge, n }, &h, &mut l.clone(), false)?;
            }
        }
    }
    Ok(())
}
fn c19_pat(ctx: &mut Ctx) -> R {
    // prefix P0..P(L-1) with one wildcard absorbed, a follower, a gap, and the ending
    let len = ctx.range(3, 6);
    let shape = ctx.choose(3);
    let pat: Vec<u32> = (0..len)
        .map(|i| match shape {
            0 => 10 + i as u32,
            1 => 10 + (i % 2) as u32,
            _ => 10 + (i % 3) as u32,
        })
        .collect();
    let j = ctx.range(1, len - 2);
    let r = ctx.range(0, 4);
    let second = ctx.flag(); // a second wildcard later on
    let gap = ctx.range(0, 2);
    let fill = ctx.choose(3);
    let lead = ctx.choose(2);
    let mut h: Vec<u32> = vec![];
    if lead == 1 {
        h.extend([30, 31, 10]);
    }
    h.extend(&pat[..j]);
    for q in 0..r {
        h.push(match fill {
            0 => 40,
            1 => 40 + q as u32,
            _ => {
                if q == 1 {
                    pat[j]
                } else {
                    40
                }
            }
        });
    }
    let mut rest = pat[j + 1..].to_vec();
    if second && rest.len() > 2 {
        rest[1] = 45;
    }
    h.extend(&rest);
    h.push(50);
    for g in 0..gap {
        h.push(60 + g as u32);
    }
    h.extend(&pat);
    let l = Logits::try_from_iter((0..70).map(|i| (i % 9) as f32)).unwrap();
    for tol in 0..=2usize {
        for merge in 0..=4usize {
            for min in 2..=len + 1 {
                for n in [usize::MAX, h.len(), h.len() - 1, 2 * len + 1] {
                    let stack = 0.25;
                    seq_check(ctx, Sq { flat: 2.0, stack, min, tol, merge, n }, &h, &mut l.clone(), false)?;
                }
            }
        }
    }
    Ok(())
}

/// Two or three wildcards that are not next to each other, each absorbing its own number.
fn c19_two(ctx: &mut Ctx) -> R {
    let len = ctx.range(5, 7);
    let shape = ctx.choose(3);
    let pat: Vec<u32> = (0..len)
        .map(|i| match shape {
            0 => 10 + i as u32,
            1 => 10 + (i % 3) as u32,
            _ => 10 + (i % 2) as u32,
        })
        .collect();
    let j1 = ctx.range(1, len - 4);
    let j2 = ctx.range(j1 + 2, len - 2);
    let j3 = if j2 + 2 < len - 1 && ctx.flag() { j2 + 2 } else { 0 };
    let fill = ctx.choose(2);
    let mut h: Vec<u32> = if ctx.flag() { vec![30, 31] } else { vec![] };
    for (i, x) in pat.iter().enumerate() {
        if i == j1 || i == j2 || (j3 > 0 && i == j3) {
            let r = ctx.range(1, ctx.qt(3, 4));
            for q in 0..r as u32 {
                h.push(if fill == 0 { 40 } else { 40 + q });
            }
        } else {
            h.push(*x);
        }
    }
    h.push(50);
    h.extend(&[60, 61][..ctx.range(0, 2)]);
    h.extend(&pat);
    let l = Logits::try_from_iter((0..70).map(|i| (i % 9) as f32)).unwrap();
    for tol in [1usize, 2, 3, usize::MAX] {
        for merge in [1usize, 2, 3, 4, usize::MAX] {
            for min in [2, len - 1, len] {
                seq_check(ctx, Sq { flat: 2.0, stack: 0.5, min, tol, merge, n: usize::MAX }, &h, &mut l.clone(), false)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ samplers used before

fn reuse_coll(ctx: &mut Ctx) -> Logits {
    let mut l = Logits::try_from_iter((0..12).map(|i| if i == 9 { NINF } else { ((i * 5) % 12) as f32 - 4.5 })).unwrap();
    if ctx.flag() {
        l.ensure_softmax().unwrap();
    }
    l
}
fn c16_reused(ctx: &mut Ctx) -> R {
    let (h, _w) = reused_hist(ctx, &reuse_hists_of(&[40, 70, 150, 600, 1100, 5000]));
    let l = reuse_coll(ctx);
    for n in [64, 3, usize::MAX] {
        rep(ctx, 1.5, n, &h, &mut l.clone(), 0)?;
        rep(ctx, 1.5, n, &warm_hist(&h), &mut l.clone(), 0)?;
    }
    Ok(())
}
fn c17_reused(ctx: &mut Ctx) -> R {
    let (h, _w) = reused_hist(ctx, &reuse_hists_of(&[40, 70, 150, 600, 1100, 5000]));
    let l = reuse_coll(ctx);
    for n in [64, 3, usize::MAX] {
        fp(ctx, 0.5, 0.25, n, &h, &mut l.clone(), 0)?;
        fp(ctx, 0.5, 0.25, n, &warm_hist(&h), &mut l.clone(), 0)?;
    }
    Ok(())
}
fn seq_reused(ctx: &mut Ctx, tol: usize) -> R {
    let (h, _w) = reused_hist(ctx, &reuse_hists());
    let l = reuse_coll(ctx);
    for (n, min) in [(64, 2), (usize::MAX, 3), (20, 2)] {
        if h.len() > if tol > 0 { 70 } else { 150 } && n > 100 {
            continue;
        }
        seq_check(ctx, Sq { flat: 1.5, stack: 0.25, min, tol, merge: 1, n }, &h, &mut l.clone(), false)?;
        seq_check(ctx, Sq { flat: 1.5, stack: 0.25, min, tol, merge: 1, n }, &warm_hist(&h), &mut l.clone(), false)?;
    }
    Ok(())
}
fn c18_reused(ctx: &mut Ctx) -> R {
    seq_reused(ctx, 0)
}
fn c19_reused(ctx: &mut Ctx) -> R {
    seq_reused(ctx, 1)
}
fn c20_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    let n = i.s.e.len();
    for list in [vec![(i.s.e[0].0, 1.5f32)], vec![(i.s.e[n - 1].0, NINF), (i.s.e[n / 2].0, -2.0), (77, 1.0)]] {
        let m: std::collections::BTreeMap<u32, f32> = list.into_iter().collect();
        let list: Vec<(u32, f32)> = m.into_iter().collect();
        bias_check(ctx, &mut SampleFlatBias::new(list.clone()), &list, &mut i.l.clone(), &i.what)?;
    }
    Ok(())
}
fn c20_edited(ctx: &mut Ctx) -> R {
    let mut list: Vec<(u32, f32)> = ctx.pick(&[vec![], vec![(1, 0.5)], vec![(0, NINF), (2, -2.0), (300, 1.0)]]).clone();
    let mut s = SampleFlatBias::new(list.clone());
    let n = ctx.qt(4, 5);
    let mut what = format!("{list:?}");
    let mut next = 3u32;
    for d in 0..=n {
        let o = if d == n { ctx.choose(3) } else { ctx.choose(15) };
        if o < 3 {
            what += "; call";
            let mut l = prepare(["raw", "softmaxed", "renumbered"][o], &shape("shuf", [5, 7, 4][o])).unwrap();
            if o == 2 {
                l.iter_mut().enumerate().for_each(|(i, x)| x.token_id = [1, 300, 4, 2][i]);
            }
            bias_check(ctx, &mut s, &list, &mut l, &what)?;
            continue;
        }
        let before = list.clone();
        match o {
            3 | 4 => {
                let x = (next, [2.5, NINF][o - 3]);
                next += 1;
                s.push(x);
                list.push(x);
            }
            5 => {
                let x = (next, -1.25);
                next += 1;
                s.insert(0, x);
                list.insert(0, x);
            }
            6 if !list.is_empty() => {
                s.remove(0);
                list.remove(0);
            }
            7 => {
                s.pop();
                list.pop();
            }
            8 => {
                s.clear();
                list.clear();
            }
            9 if !list.is_empty() => {
                s[0].1 = 3.75;
                list[0].1 = 3.75;
            }
            10 if !list.is_empty() => {
                let m = list.len() - 1;
                s.last_mut().unwrap().0 = next;
                list[m].0 = next;
                next += 1;
            }
            11 => {
                s.reverse();
                list.reverse();
            }
            12 => {
                *s = vec![(4, 1.5), (1, -0.5)];
                list = vec![(4, 1.5), (1, -0.5)];
                next = next.max(5);
            }
            13 => {
                let c = s.clone();
                s.push((0, 9.0));
                s = c;
            }
            14 => {
                s.truncate(1);
                list.truncate(1);
            }
            _ => return Ok(()),
        }
        if same_e(&before, &list) && o != 13 {
            return Ok(());
        }
        what += &format!("; {list:?}");
        ensure!(same_e(&s, &list), "{what}: the sampler's list reads {:?}", s.as_slice());
    }
    Ok(())
}
fn c21_reused(ctx: &mut Ctx) -> R {
    let Some(i) = reused(ctx) else { return Ok(()) };
    for t in [0.5f32, -1.5, 0.0] {
        temp_check(ctx, t, &mut i.l.clone(), &i.what)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ ids that look alike

/// Ids that agree with `b` in all bits but one, or differ by a power of two.
fn alike(b: u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..32).flat_map(|k| [b ^ (1 << k), b.wrapping_add(1 << k), b.wrapping_sub(1 << k)]).collect();
    v.push(b);
    v.push(!b);
    v.push(b.swap_bytes());
    v.push(b.reverse_bits());
    v.push(b.rotate_left(16));
    v.sort_unstable();
    v.dedup();
    v
}
const BASES: &[u32] = &[5, 0, 300, 65535, 65536, 1 << 24, 0x7fff_ffff, 0x8000_0001, u32::MAX];
fn alike_hist(ctx: &mut Ctx, b: u32) -> Vec<u32> {
    let kind = ctx.choose(5);
    let n = *ctx.pick(&[1usize, 2, 10, 70, 257, 300, 1025, 5000]);
    let filler = |i: usize| 1_000_000 + (i as u32 % 9) * 4097;
    match kind {
        0 => vec![b; n],
        1 => (0..n).map(|i| if i == 0 { b } else { filler(i) }).collect(),
        2 => (0..n).map(|i| if i + 1 == n { b } else { filler(i) }).collect(),
        3 => (0..n).map(|i| if i % 3 == 1 { b } else { (i as u32).wrapping_mul(0x9E37_79B1) }).collect(),
        _ => (0..n).map(|i| if i % 2 == 0 { b } else { b ^ (1 << ((i / 2) % 32)) }).collect(),
    }
}
fn alike_coll(ctx: &mut Ctx, b: u32) -> Logits {
    let mut ids = alike(b);
    if ctx.flag() {
        ids.extend((0..300).map(|i| 1_000_000 + i * 4097));
        ids.sort_unstable();
        ids.dedup();
        ids.reverse();
    }
    let mut l = Logits::try_from_iter((0..ids.len()).map(|i| (i % 7) as f32 - 2.75)).unwrap();
    for (x, id) in l.iter_mut().zip(ids) {
        x.token_id = id;
    }
    l
}
fn c16_alike(ctx: &mut Ctx) -> R {
    let b = *ctx.pick(BASES);
    let h = alike_hist(ctx, b);
    let l = alike_coll(ctx, b);
    for last in [1, 64, h.len() - 1, h.len(), usize::MAX] {
        rep(ctx, 1.5, last, &h, &mut l.clone(), 0)?;
    }
    Ok(())
}
fn c17_alike(ctx: &mut Ctx) -> R {
    let b = *ctx.pick(BASES);
    let h = alike_hist(ctx, b);
    let l = alike_coll(ctx, b);
    for (f, p) in [(0.5f32, 0.25f32), (0.0, 1.0), (0.25, 0.0)] {
        for last in [1, 64, h.len() - 1, h.len(), usize::MAX] {
            fp(ctx, f, p, last, &h, &mut l.clone(), 0)?;
        }
    }
    Ok(())
}
fn spread(ctx: &mut Ctx, l: &Logits, m: &[usize]) -> Vec<u32> {
    let m = *ctx.pick(m);
    let n = l.len();
    (0..m).map(|i| l[(n - 1) * i / (m - 1)].token_id).chain([1, 0]).collect()
}
fn c16_vocab(ctx: &mut Ctx) -> R {
    let Some((l, _)) = vocabulary(ctx) else { return Ok(()) };
    let h = spread(ctx, &l, &[3, 62]);
    for last in [2, 64] {
        rep(ctx, 1.5, last, &h, &mut l.clone(), 0)?;
    }
    Ok(())
}
fn c17_vocab(ctx: &mut Ctx) -> R {
    let Some((l, _)) = vocabulary(ctx) else { return Ok(()) };
    let h = spread(ctx, &l, &[3, 62]);
    for last in [2, 64] {
        fp(ctx, 0.5, 0.25, last, &h, &mut l.clone(), 0)?;
    }
    Ok(())
}
fn c20_vocab(ctx: &mut Ctx) -> R {
    let Some((mut l, what)) = vocabulary(ctx) else { return Ok(()) };
    let mut ids = spread(ctx, &l, &[3, 40]);
    ids.sort_unstable();
    ids.dedup();
    let list: Vec<(u32, f32)> = ids.iter().enumerate().map(|(i, id)| (*id, [NINF, 0.5, -3.0, 12.0][i % 4])).collect();
    bias_check(ctx, &mut SampleFlatBias::new(list.clone()), &list, &mut l, &what)
}
fn c21_vocab(ctx: &mut Ctx) -> R {
    let Some((l, what)) = vocabulary(ctx) else { return Ok(()) };
    for t in [0.8f32, -1.5, 0.0, 30.0] {
        temp_check(ctx, t, &mut l.clone(), &what)?;
    }
    Ok(())
}
fn seq_alike(ctx: &mut Ctx, tol: usize) -> R {
    let b = *ctx.pick(BASES);
    let len = ctx.range(2, 4);
    let pat: Vec<u32> = (0..len as u32).map(|i| b.wrapping_add(i.wrapping_mul(0x0101_0101))).collect();
    let follow = *ctx.pick(&[9u32, 0x8000_0009, 0x0001_0000]);
    let at = ctx.choose(len + 1);
    let pad = *ctx.pick(if tol == 0 { &[0usize, 70, 300] } else { &[0usize, 20, 70] });
    let cands = if at < len { alike(pat[at]) } else { vec![0] };
    let alt = cands[ctx.choose(cands.len())];
    let mut h = pat.clone();
    if at < len {
        h[at] = alt;
    }
    h.push(follow);
    h.extend((0..pad).map(|i| 2_000_003 + i as u32));
    h.extend(&pat);
    let mut ids = alike(follow);
    ids.extend(&pat);
    ids.sort_unstable();
    ids.dedup();
    let mut l = Logits::try_from_iter((0..ids.len()).map(|i| (i % 7) as f32 - 2.75)).unwrap();
    for (x, id) in l.iter_mut().zip(ids) {
        x.token_id = id;
    }
    for min in [2, len] {
        seq_check(ctx, Sq { flat: 1.5, stack: 0.25, min, tol, merge: 1, n: usize::MAX }, &h, &mut l.clone(), false)?;
    }
    Ok(())
}
fn c18_alike(ctx: &mut Ctx) -> R {
    seq_alike(ctx, 0)
}
fn c19_alike(ctx: &mut Ctx) -> R {
    seq_alike(ctx, 1)
}
/// Runs of one letter that match the ending over and over before the interesting place.
fn c18_runs(ctx: &mut Ctx) -> R {
    let runs = [0usize, 1, 7, 50, 130, 257, 400];
    let j1 = *ctx.pick(&runs);
    let j2 = *ctx.pick(&runs[..ctx.qt(5, 6)]);
    let len = ctx.range(1, 4);
    let pat: Vec<u32> = (0..len).map(|_| *ctx.pick(&[3u32, 1])).collect();
    let alt = ctx.flag();
    let run = |n: usize| (0..n).map(move |i| if alt && i % 2 == 1 { 1u32 } else { 3 });
    let mut h: Vec<u32> = run(j1).collect();
    h.extend(&pat);
    h.push(7);
    h.extend(run(j2));
    h.extend(&pat);
    let l = Logits::try_from_iter([1.0f32, 2.5, NINF, 0.5, 4.0, 0.0, 9.0, -2.0]).unwrap();
    let n = h.len();
    for (min, last) in [(2usize, usize::MAX), (3, n), (2, n - 1), (5, 300)] {
        seq_check(ctx, Sq { flat: 1.5, stack: 0.25, min, tol: 0, merge: 1, n: last }, &h, &mut l.clone(), false)?;
    }
    Ok(())
}
fn c20_alike(ctx: &mut Ctx) -> R {
    let b = *ctx.pick(BASES);
    let mut l = alike_coll(ctx, b);
    let m = *ctx.pick(&[1usize, 2, 33, 64, 300, 2000]);
    let order = ctx.choose(3);
    let mut ids: Vec<u32> = vec![b];
    if m > 1 {
        ids.extend((0..m as u32 - 1).map(|i| b.wrapping_add(3 + i.wrapping_mul(0x0002_0007))));
    }
    ids.sort_unstable();
    ids.dedup();
    match order {
        0 => {}
        1 => ids.reverse(),
        _ => ids = perm(ids.len()).into_iter().map(|i| ids[i]).collect(),
    }
    let list: Vec<(u32, f32)> = ids.iter().enumerate().map(|(i, id)| (*id, [NINF, 0.5, -3.0, 12.0][i % 4])).collect();
    bias_check(ctx, &mut SampleFlatBias::new(list.clone()), &list, &mut l, &format!("ids like {b:#x}"))
}

// ------------------------------------------------------------------ C20

pub fn bias_check(ctx: &mut Ctx, s: &mut dyn Sampler, list: &[(u32, f32)], l: &mut Logits, what: &str) -> R {
    let m: HashMap<u32, f32> = list.iter().copied().collect();
    warm_up(s, l, &[]);
    let b = snap(l);
    let mut res = Res::toks(&[0, 1, 2]);
    s.sample(&mut res, l).map(|_| ()).map_err(|e| format!("{what}: failed: {}", err_str(&e)))?;
    ctx.step();
    let a = snap(l);
    ctx.state(&a);
    ctx.note(|| format!("{what}: bias {:?}: {} -> {}", &list[..list.len().min(8)], short(&b.e), short(&a.e)));
    ensure!(a.e.len() == b.e.len(), "{what}: number of entries changed: {} -> {}", short(&b.e), short(&a.e));
    for i in 0..a.e.len() {
        let (id, old) = b.e[i];
        let (id2, got) = a.e[i];
        ensure!(id == id2, "{what}: entry {i} was token {id}, is {id2}");
        match m.get(&id) {
            None => ensure!(got.to_bits() == old.to_bits(), "{what}: unlisted token {id} changed from {old} to {got} (bias {list:?})"),
            Some(x) => {
                let w = old + x;
                ensure!(got == w || (w.is_nan() && got.is_nan()), "{what}: token {id} with logit {old} and bias {x} should be {w}, is {got}");
                ensure!(*x != NINF || old == PINF || got == NINF, "{what}: token {id} biased by -inf is at {got}");
            }
        }
    }
    flags_truthful(l).map_err(|m| format!("{what}: {m}"))?;
    if a.e.iter().any(|x| x.1.is_finite()) && !a.e.iter().any(|x| x.1 == PINF || x.1.is_nan()) {
        let mut c = l.clone();
        c.ensure_softmax().map_err(|e| format!("{what}: softmax failed: {e}"))?;
        for x in c.iter() {
            let forb = m.get(&x.token_id) == Some(&NINF);
            ensure!(!forb || x.prob == 0.0, "{what}: token {} biased by -inf has probability {}", x.token_id, x.prob);
        }
        flags_truthful(&c).map_err(|m| format!("{what}: afterwards {m}"))?;
    }
    Ok(())
}
fn c20(ctx: &mut Ctx) -> R {
    // ordered list of distinct ids
    let ids = [1u32, 0, 2, 7, u32::MAX];
    let k = ctx.range(0, ctx.qt(4, 5));
    let mut pool: Vec<u32> = ids.to_vec();
    let mut list = vec![];
    for _ in 0..k {
        let i = ctx.choose(pool.len());
        let id = pool.remove(i);
        let b = if list.len() < 2 { *ctx.pick(&[1.5f32, NINF, -2.0, 0.0, 1e30, 3e38]) } else { [1.5, NINF, -2.0][id as usize % 3] };
        list.push((id, b));
    }
    let v = small_vec(ctx, &[0.0, 2.0, NINF, 3e38], 0, 3);
    let mut made: Vec<SampleFlatBias> = vec![SampleFlatBias::new(list.iter().copied())];
    let mut d = SampleFlatBias::default();
    for x in list.iter().rev() {
        d.push((9999, 1.0));
        d.insert(0, *x);
        let at = d.iter().position(|y| y.0 == 9999).unwrap();
        d.remove(at);
    }
    ensure!(d.as_slice() == list.as_slice() && d == made[0], "bias list edited through the sampler differs: {:?} vs {list:?}", *d);
    made.push(d);
    for (w, s) in made.iter_mut().enumerate() {
        for p in ["raw", "sorted", "softmaxed", "renumber-max", "reversed", "freqpres"] {
            let mut l = match p {
                "renumber-max" => {
                    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
                    for (i, x) in l.iter_mut().enumerate() {
                        x.token_id = [u32::MAX, 7, 0][i];
                    }
                    l
                }
                "reversed" => {
                    let mut l = Logits::try_from_iter(v.iter().copied()).unwrap();
                    l.reverse();
                    l
                }
                _ => match prepare(p, &v) {
                    Some(l) => l,
                    None => continue,
                },
            };
            bias_check(ctx, s, &list, &mut l, &format!("{v:?} {p} way {w}"))?;
        }
    }
    Ok(())
}
/// Values and biases whose sums overflow, vanish or have no value.
fn c20_extremes(ctx: &mut Ctx) -> R {
    let vals = [f32::MAX, f32::MIN, 3e38, 1e38, PINF, NINF, 1e-45, -0.0, 0.0, 16777216.0, -1.5];
    let bias = [f32::MAX, f32::MIN, 3e38, 1e38, PINF, NINF, 1e-45, -0.0, 1.0, 1e-8, f32::NAN];
    let (a, b) = (*ctx.pick(&vals), *ctx.pick(&vals));
    let x = *ctx.pick(&bias);
    let y = if ctx.flag() { Some(*ctx.pick(&bias)) } else { None };
    let mut list = vec![(1u32, x)];
    list.extend(y.map(|y| (0u32, y)));
    let mut l = Logits::try_from_iter([a, b, 2.0]).unwrap();
    if ctx.flag() {
        l.ensure_sorted().map_err(|e| e.to_string())?;
    }
    let before = snap(&l);
    let mut s = SampleFlatBias::new(list.clone());
    s.sample(&mut (), &mut l).map(|_| ()).map_err(|e| format!("bias {list:?} on {}: {}", short(&before.e), err_str(&e)))?;
    ctx.step();
    let after = snap(&l);
    ctx.state(&after);
    ctx.note(|| format!("bias {list:?}: {} -> {}", short(&before.e), short(&after.e)));
    ensure!(after.e.len() == 3, "bias {list:?} on {}: number of entries changed", short(&before.e));
    for (o, n) in before.e.iter().zip(&after.e) {
        let w = list.iter().find(|x| x.0 == o.0).map_or(o.1, |x| o.1 + x.1);
        ensure!(o.0 == n.0, "bias {list:?}: entries moved: {} -> {}", short(&before.e), short(&after.e));
        ensure!(n.1 == w || (n.1.is_nan() && w.is_nan()), "bias {list:?} on {}: token {} should be {w}, is {}", short(&before.e), o.0, n.1);
    }
    // Sorting tells whether there is an order.
    let nan = after.e.iter().any(|x| x.1.is_nan());
    let r = l.ensure_sorted().is_ok();
    ensure!(r != nan, "bias {list:?}: sorting {} gives success={r}", short(&after.e));
    ensure!(nan || non_increasing(&snap(&l).e), "bias {list:?}: sorted into {}", short(&snap(&l).e));
    Ok(())
}
fn c20_large(ctx: &mut Ctx) -> R {
    let k = *ctx.pick(SHAPES);
    let n = *ctx.pick(&[20usize, 64, 257, 400]);
    let p = *ctx.pick(PREPS);
    let Some(mut l) = prepare(p, &shape(k, n)) else { return Ok(()) };
    let order = ctx.choose(3);
    let m = *ctx.pick(&[1usize, 50, 400]);
    let mut ids: Vec<u32> = (0..m as u32).collect();
    match order {
        0 => {}
        1 => ids.reverse(),
        _ => ids = perm(m).into_iter().map(|i| i as u32 * 2).collect(),
    }
    let list: Vec<(u32, f32)> = ids.iter().map(|i| (*i, [NINF, 0.5, -3.0, 12.0][*i as usize % 4])).collect();
    bias_check(ctx, &mut SampleFlatBias::new(list.clone()), &list, &mut l, &format!("{k}({n}) {p}"))
}

// ------------------------------------------------------------------ C21

pub fn temp_check(ctx: &mut Ctx, t: f32, l: &mut Logits, what: &str) -> R {
    let b = snap(l);
    let mut s = if ctx.transitions % 2 == 0 { SampleTemperature::new(t) } else { SampleTemperature::default().temperature(t) };
    warm_up(&mut s, l, &[]);
    s.sample(&mut (), l).map(|_| ()).map_err(|e| format!("{what}: temperature {t} failed: {}", err_str(&e)))?;
    ctx.step();
    let a = snap(l);
    ctx.state(&a);
    ctx.note(|| format!("{what}: temperature {t}: {} -> {} sorted={}", short(&b.e), short(&a.e), a.sorted));
    ensure!(a.e.len() == b.e.len(), "{what}: temperature {t} changed the number of entries");
    if t == 0.0 {
        ensure!(a.same_entries(&b), "{what}: temperature {t} changed the collection: {} -> {}", short(&b.e), short(&a.e));
    }
    for i in 0..a.e.len() {
        ensure!(a.e[i].0 == b.e[i].0, "{what}: temperature {t} moved entries: {} -> {}", short(&b.e), short(&a.e));
        if t != 0.0 {
            let w = b.e[i].1 as f64 / t as f64;
            ensure!(
                close(a.e[i].1, w, 1e-6, 0.0) || (w.abs() < 1e-37 && (a.e[i].1 as f64 - w).abs() < 1e-37),
                "{what}: temperature {t} turned logit {} into {}, expected {w}",
                b.e[i].1,
                a.e[i].1
            );
        }
    }
    flags_truthful(l).map_err(|m| format!("{what}: temperature {t}: {m}"))?;
    if a.e.is_empty() || a.e.iter().any(|x| x.1 == PINF || x.1.is_nan()) || !a.e.iter().any(|x| x.1.is_finite()) {
        return Ok(());
    }
    // Selection follows the scaled logits.
    let mut g = SampleGreedy::new();
    let max = a.e.iter().map(|x| x.1).fold(NINF, f32::max);
    let mut c = l.clone();
    let tok = g.sample_token(&mut (), &mut c).map_err(|e| err_str(&e))?.ok_or("greedy chose nothing")?;
    ctx.step();
    let lt = a.e.iter().find(|x| x.0 == tok).ok_or(format!("{what}: greedy token {tok} not in the collection"))?.1;
    ensure!(lt == max, "{what}: after temperature {t} greedy picks token {tok} with logit {lt}, maximum {max}: {}", short(&a.e));
    let mut c = l.clone();
    c.ensure_softmax().map_err(|e| format!("{what}: softmax after temperature {t} failed: {e}"))?;
    ctx.step();
    ensure!(permutation(&snap(&c).e, &a.e), "{what}: softmax after temperature {t} changed entries");
    flags_truthful(&c).map_err(|m| format!("{what}: softmax after temperature {t}: {m}"))?;
    // Random selection with the lowest and highest words picks the first and last with mass.
    let q: Vec<(u32, f64)> = {
        let p = softmax64(&a.vals());
        a.e.iter().zip(p).map(|(x, p)| (x.0, p)).collect()
    };
    for w in [0u32, 0x8000_0000, u32::MAX] {
        let mut c = l.clone();
        let tok = SampleRandDistrib::new().sample_token(&mut Res::words(&[w]), &mut c).map_err(|e| format!("{what}: random selection after temperature {t}: {}", err_str(&e)))?;
        ctx.step();
        let tok = tok.ok_or("random selection chose nothing")?;
        let p = q.iter().find(|x| x.0 == tok).ok_or(format!("{what}: token {tok} not in the collection"))?.1;
        // f32 keeps probabilities down to the subnormals
        ensure!(p > 0.0, "{what}: after temperature {t} random selection picks token {tok} of probability 0: {}", short(&a.e));
    }
    Ok(())
}
const TEMPS: &[f32] = &[
    0.5, 0.0, -0.0, 2.0, -1.0, -0.5, 0.8, 1.0, 3.0, 1e10, -3.0, 0.1, 1e-3, -1e10, 1.5, 0.9999,
    1e-39, -1e-42, f32::MIN_POSITIVE, 3e38, f32::MAX, -f32::MAX,
];
fn c21(ctx: &mut Ctx) -> R {
    let sp = InputSpace { alpha: ALPHA, lo: 0, hi: ctx.qt(5, 6), sizes: SIZES_T, preps_small: 12, preps_shape: 12, odd: ctx.qt(3, 4) };
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    for t in TEMPS {
        temp_check(ctx, *t, &mut i.l.clone(), &i.what)?;
    }
    Ok(())
}
fn c21_twice(ctx: &mut Ctx) -> R {
    let sp = InputSpace { alpha: ALPHA, lo: 1, hi: 3, sizes: &[5, 21, 64], preps_small: 1, preps_shape: 1, odd: 0 };
    let Some(mut i) = input(ctx, &sp) else { return Ok(()) };
    let t1 = *ctx.pick(&TEMPS[..8]);
    let t2 = *ctx.pick(&TEMPS[..8]);
    let between = |ctx: &mut Ctx, l: &mut Logits| -> R {
        match ctx.choose(3) {
            0 => {}
            1 => {
                if !l.iter().any(|x| x.logit == PINF) {
                    l.ensure_sorted().map_err(|e| e.to_string())?;
                }
            }
            _ => {
                if !l.iter().any(|x| x.logit == PINF) && l.iter().any(|x| x.logit.is_finite()) {
                    l.ensure_softmax().map_err(|e| e.to_string())?;
                }
            }
        }
        Ok(())
    };
    between(ctx, &mut i.l)?;
    temp_check(ctx, t1, &mut i.l, &i.what)?;
    between(ctx, &mut i.l)?;
    temp_check(ctx, t2, &mut i.l, &i.what)
}
