//! Every size, every parameter on a fine grid, every window, every id: the checks of the other
//! modules driven along one dimension without a gap.
use super::filter::*;
use super::logits::*;
use super::penalty::*;
use super::select::*;
use crate::common::*;
use crate::engine::*;

const SIZES: &str = "every collection size 0-520 (quick) / 0-2100 (thorough) x 5 shapes x {raw, softmaxed, softmax+temp2} x parameter sets";
const VALUES: &str = "a grid of about 1400 values (thousandths from -0.1 to 1.2, powers of ten and two and their distance from 1, larger ones) x 6 collections";
const IDS: &str = "every token id 0-65536 (quick) / 0-131072 (thorough) and the 5 around every power of two, in a collection of it and its neighbours";
const CUTS: &str = "every pair of size up to 130 (quick) / 400 (thorough) and position up to it";

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    for (prop, name, bounds, run) in [
        ("C01", "every_size", SIZES, c01_sizes as fn(&mut Ctx) -> R),
        ("C02", "every_size", "every length 0-520 / 0-2100 x 6 ways to build, and every position of a NaN for lengths up to 130 / 400", c02_sizes),
        ("C03", "every_size", "every pair of length and k up to 110 / 300 x 4 shapes, every 7th value unusable or not", c03_sizes),
        ("C04", "every_size", SIZES, c04_sizes),
        ("C05", "every_size", SIZES, c05_sizes),
        ("C06", "every_size", SIZES, c06_sizes),
        ("C06", "every_k", CUTS, c06_ks),
        ("C07", "every_size", SIZES, c07_sizes),
        ("C07", "every_value", VALUES, c07_values),
        ("C08", "every_size", SIZES, c08_sizes),
        ("C08", "every_value", VALUES, c08_values),
        ("C09", "every_size", SIZES, c09_sizes),
        ("C09", "every_value", VALUES, c09_values),
        ("C10", "every_size", SIZES, c10_sizes),
        ("C10", "every_value", VALUES, c10_values),
        ("C11", "every_size", SIZES, c11_sizes),
        ("C11", "every_value", VALUES, c11_values),
        ("C12", "every_size", SIZES, c12_sizes),
        ("C12", "every_place", CUTS, c12_places),
        ("C12", "every_id", IDS, c12_ids),
        ("C13", "every_size", SIZES, c13_sizes),
        ("C13", "every_place", "every pair of size up to 100 / 300 and position up to it holding nearly all probability", c13_places),
        ("C13", "every_id", IDS, c13_ids),
        ("C14", "every_size", SIZES, c14_sizes),
        ("C14", "every_value", VALUES, c14_values),
        ("C14", "every_id", IDS, c14_ids),
        ("C15", "every_size", SIZES, c15_sizes),
        ("C15", "every_value", VALUES, c15_values),
        ("C15", "every_id", IDS, c15_ids),
        ("C16", "every_size", SIZES, c16_sizes),
        ("C16", "every_window", WINDOWS, c16_windows),
        ("C16", "every_value", VALUES, c16_values),
        ("C16", "every_id", IDS, c16_ids),
        ("C17", "every_size", SIZES, c17_sizes),
        ("C17", "every_window", WINDOWS, c17_windows),
        ("C17", "every_value", VALUES, c17_values),
        ("C17", "every_count", "every number of occurrences 0-1100 (quick) / 0-5000 (thorough) x positions and neighbours", c17_counts),
        ("C17", "every_id", IDS, c17_ids),
        ("C18", "every_length", "every repeat length 2-90 (quick) / 2-200 (thorough) x 7 distances x 4 min_length x 4 windows around it", c18_lengths),
        ("C18", "every_history", "every history length 0-330 (quick) / 0-700 (thorough) x 3 kinds x min_length x windows", c18_hists),
        ("C18", "every_value", VALUES, c18_values),
        ("C18", "every_id", IDS, c18_ids),
        ("C19", "every_length", "every repeat length 3-26 (quick) / 3-48 (thorough) x every place of a wildcard x absorbed 1-3 x tolerance 0-2 x max_merge 1-3", c19_lengths),
        ("C19", "every_value", VALUES, c19_values),
        ("C20", "every_size", SIZES, c20_sizes),
        ("C20", "every_list", "bias lists of every length 0-300 / 0-1100 and 14 lengths up to 131073, front to back and back to front, on 300 entries", c20_lists),
        ("C20", "every_value", VALUES, c20_values),
        ("C20", "every_id", IDS, c20_ids),
        ("C21", "every_size", SIZES, c21_sizes),
        ("C21", "every_value", VALUES, c21_values),
    ] {
        v.push(Harness { prop, name, bounds, run });
    }
    v
}
const WINDOWS: &str = "every last_n 0-330 (quick) / 0-1100 (thorough) x history lengths around it and of 400 / 1200 x 4 kinds of history";

// ------------------------------------------------------------------ dimensions

fn sized(ctx: &mut Ctx) -> Option<(Logits, Snap, String)> {
    let n = ctx.range(0, ctx.qt(520, 2100));
    let kind = *ctx.pick(&["shuf", "zipf", "plateaus", "forbid3", "desc"]);
    let p = *ctx.pick(&["raw", "softmaxed", "softmax+temp2"]);
    let l = prepare(p, &shape(kind, n))?;
    let s = snap(&l);
    ctx.state(&(n, kind, p));
    Some((l, s, format!("{kind}({n}) {p}")))
}
pub fn grid() -> &'static [f32] {
    static G: std::sync::OnceLock<Vec<f32>> = std::sync::OnceLock::new();
    G.get_or_init(|| {
        let mut v: Vec<f32> = (-100..=1200).map(|i| i as f32 / 1000.0).collect();
        for j in 1..=37 {
            v.push(10f32.powi(-j));
        }
        for j in 2..=7 {
            v.push(1.0 - 10f32.powi(-j));
            v.push(1.0 + 10f32.powi(-j));
        }
        for j in 4..=24 {
            v.push(2f32.powi(-j));
            v.push(1.0 - 2f32.powi(-j));
        }
        v.extend((13..=40).map(|i| i as f32 / 10.0));
        v.extend((5..=20).map(|i| i as f32));
        v.extend([-1.0, -10.0, 100.0, 1e6, 1e30]);
        v
    })
}
/// A parameter of the grid and a collection.
fn valued(ctx: &mut Ctx) -> (f32, Logits, Snap, String) {
    let i = ctx.choose(grid().len());
    let (kind, n) = *ctx.pick(&[("zipf", 100usize), ("shuf", 40), ("desc", 300), ("plateaus", 24), ("forbid3", 33), ("zipf", 9)]);
    let l = prepare("raw", &shape(kind, n)).unwrap();
    let s = snap(&l);
    ctx.state(&(i, kind, n));
    (grid()[i], l, s, format!("{kind}({n})"))
}
/// 1024 ids starting at a multiple, or those around a power of two.
fn ids(ctx: &mut Ctx) -> Vec<u32> {
    let blocks = ctx.qt(64, 128);
    let b = ctx.choose(blocks + 33);
    let v: Vec<u32> = if b < blocks {
        (0..=1024u32).map(|i| b as u32 * 1024 + i).collect()
    } else {
        let p = 1u64 << (b - blocks);
        (0..5u64).map(|i| ((p + i).wrapping_sub(2) & 0xffff_ffff) as u32).collect()
    };
    ctx.state(&v[0]);
    v
}
/// The id and its two neighbours; the id has the largest value.
fn around(id: u32, soft: bool) -> Logits {
    let mut l = Logits::try_from_iter([0.25f32, 1.5, -0.5]).unwrap();
    let o = id as usize % 3;
    let vals = [0.25f32, 1.5, -0.5];
    for i in 0..3 {
        let j = (i + o) % 3;
        l[i].token_id = id.wrapping_add(j as u32).wrapping_sub(1);
        l[i].logit = vals[j];
    }
    if soft {
        l.ensure_softmax().unwrap();
    }
    l
}

// ------------------------------------------------------------------ C01 - C04

fn c01_sizes(ctx: &mut Ctx) -> R {
    let Some((l, _, what)) = sized(ctx) else { return Ok(()) };
    if l.is_empty() {
        return Ok(());
    }
    let all = ops();
    for i in 0..all.len() {
        let mut x = l.clone();
        apply(i, &all[i], &mut x).map_err(|e| format!("{what}: operation {i} {:?} failed: {e}", all[i]))?;
        ctx.step();
        flags_truthful(&x).map_err(|m| format!("{what} after {i} {:?}: {m}", all[i]))?;
        // and whatever sorts next
        let j = (i + l.len()) % 2;
        apply(j, &None, &mut x).map_err(|e| format!("{what}: {:?} then {}: {e}", all[i], ["sort", "softmax"][j]))?;
        flags_truthful(&x).map_err(|m| format!("{what} after {i} {:?} and {}: {m}", all[i], ["sort", "softmax"][j]))?;
    }
    Ok(())
}
fn c02_sizes(ctx: &mut Ctx) -> R {
    let n = ctx.range(0, ctx.qt(520, 2100));
    let v = shape(["shuf", "forbid3", "onehot"][n % 3], n);
    for way in 0..6 {
        check_build(ctx, &v, way)?;
    }
    if n <= ctx.qt(130, 400) {
        for p in 0..n {
            let mut w = v.clone();
            w[p] = f32::NAN;
            check_build(ctx, &w, p % 6)?;
            if p + 1 < n {
                w[n - 1] = -f32::NAN;
                check_build(ctx, &w, (p + 1) % 6)?;
            }
        }
    }
    Ok(())
}
fn c03_sizes(ctx: &mut Ctx) -> R {
    let n = ctx.range(0, ctx.qt(110, 300));
    let kind = *ctx.pick(&["shuf", "asc", "plateaus", "forbid3"]);
    let mut v = shape(kind, n);
    if ctx.flag() {
        for i in (n % 7..n).step_by(7) {
            v[i] = [f32::NAN, PINF, NINF][i % 3];
        }
    }
    for k in 0..=n + 1 {
        check_ingest(ctx, &v, k, k % 5)?;
    }
    Ok(())
}
fn c04_sizes(ctx: &mut Ctx) -> R {
    let Some((l, _, what)) = sized(ctx) else { return Ok(()) };
    c04_body(ctx, &l, &what)
}

// ------------------------------------------------------------------ C05 - C11

fn mks(n: usize) -> [usize; 3] {
    [1, n / 2, n.max(1) - 1]
}
fn c05_sizes(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = sized(ctx) else { return Ok(()) };
    for mk in mks(l.len()) {
        for f in [Spec::TopK(l.len() / 3, mk), Spec::TopP(0.5, mk), Spec::MinP(0.3, mk), Spec::TopA(0.5, 1.0, mk), Spec::TailFree(0.5, mk), Spec::Typical(0.5, mk)] {
            c05_one(ctx, &f, &l, &s, &what)?;
        }
    }
    Ok(())
}
fn c06_sizes(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = sized(ctx) else { return Ok(()) };
    let n = l.len();
    for k in [1, 2, 40, 64, 100, n / 2, n.max(1) - 1, n, n + 1] {
        c06_check(ctx, &l, &s, k, 1, &what)?;
    }
    for mk in mks(n) {
        c06_check(ctx, &l, &s, 3, mk, &what)?;
    }
    Ok(())
}
fn c06_ks(ctx: &mut Ctx) -> R {
    let n = ctx.range(1, ctx.qt(130, 400));
    let kind = *ctx.pick(&["shuf", "desc", "plateaus"]);
    let l = prepare(["raw", "sorted", "softmaxed"][n % 3], &shape(kind, n)).unwrap();
    let s = snap(&l);
    ctx.state(&(n, kind));
    for k in 0..=n {
        c06_check(ctx, &l, &s, k, 0, kind)?;
        if k % 4 == n % 4 {
            c06_check(ctx, &l, &s, 0, k, kind)?;
        }
    }
    Ok(())
}
fn c07_sizes(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = sized(ctx) else { return Ok(()) };
    for p in [0.3f32, 0.9, 0.99, 1.0] {
        for mk in mks(l.len()) {
            c07_check(ctx, &l, &s, p, mk, false, &what)?;
        }
    }
    Ok(())
}
fn c07_values(ctx: &mut Ctx) -> R {
    let (p, l, s, what) = valued(ctx);
    for mk in [1, 0, 5] {
        c07_check(ctx, &l, &s, p, mk, false, &what)?;
    }
    Ok(())
}
fn c08_sizes(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = sized(ctx) else { return Ok(()) };
    for p in [0.01f32, 0.3, 0.9, 0.0] {
        for mk in mks(l.len()) {
            c08_check(ctx, &l, &s, p, mk, false, &what)?;
        }
    }
    Ok(())
}
fn c08_values(ctx: &mut Ctx) -> R {
    let (p, l, s, what) = valued(ctx);
    for mk in [1, 0, 5] {
        c08_check(ctx, &l, &s, p, mk, false, &what)?;
    }
    Ok(())
}
fn c09_sizes(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = sized(ctx) else { return Ok(()) };
    for (a1, a2) in [(0.2f32, 2.0f32), (0.5, 1.0), (1.0, 1.5), (0.0, 2.0)] {
        for mk in mks(l.len()) {
            c09_check(ctx, &l, &s, a1, a2, mk, false, &what)?;
        }
    }
    Ok(())
}
fn c09_values(ctx: &mut Ctx) -> R {
    let (x, l, s, what) = valued(ctx);
    for (a1, a2) in [(x, 2.0f32), (x, 1.0), (x, 0.5), (x * 4.0, 1.5), (0.2, x), (0.7, x * 3.0), (1.0, x + 1.0), (3.0, 2.0 + x)] {
        if a2.abs() < 1e4 && a1.abs() < 1e20 {
            c09_check(ctx, &l, &s, a1, a2, 1, false, &what)?;
        }
    }
    Ok(())
}
fn c10_sizes(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = sized(ctx) else { return Ok(()) };
    for z in [0.2f32, 0.5, 0.95, 1.0] {
        for mk in mks(l.len()) {
            c10_check(ctx, &l, &s, z, mk, false, &what)?;
        }
    }
    Ok(())
}
fn c10_values(ctx: &mut Ctx) -> R {
    let (z, l, s, what) = valued(ctx);
    for mk in [1, 0, 5] {
        c10_check(ctx, &l, &s, z, mk, false, &what)?;
    }
    Ok(())
}
fn c11_sizes(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = sized(ctx) else { return Ok(()) };
    for p in [0.2f32, 0.5, 0.95, 1.0] {
        for mk in mks(l.len()) {
            c11_check(ctx, &l, &s, p, mk.max(1), false, &what)?;
        }
    }
    Ok(())
}
fn c11_values(ctx: &mut Ctx) -> R {
    let (p, l, s, what) = valued(ctx);
    for mk in [1, 5] {
        c11_check(ctx, &l, &s, p, mk, false, &what)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C12 - C15

fn c12_sizes(ctx: &mut Ctx) -> R {
    let Some((mut l, _, what)) = sized(ctx) else { return Ok(()) };
    let mut g = SampleGreedy::new();
    c12_check(ctx, &mut g, &mut l, &what)?;
    l.reverse();
    l.set_sorted(false);
    l.set_softmax(false);
    c12_check(ctx, &mut g, &mut l, &format!("{what} reversed"))
}
/// The largest value at every position, the second largest at either end or next to it.
fn c12_places(ctx: &mut Ctx) -> R {
    let n = ctx.range(1, ctx.qt(130, 400));
    let base = *ctx.pick(&[0.0f32, -5.0, NINF]);
    ctx.state(&(n, base.to_bits()));
    let mut g = SampleGreedy::new();
    for at in 0..n {
        let mut v = vec![base; n];
        let other = [0, n - 1, (at + 1) % n, (at + n / 2) % n][at % 4];
        v[other] = 1.5;
        v[at] = [2.0f32, 1.5, 1.500_000_1][n % 3];
        let mut l = Logits::try_from_iter(v).unwrap();
        if at % 5 == 3 {
            l.ensure_softmax().unwrap();
        }
        c12_check(ctx, &mut g, &mut l, "place")?;
    }
    Ok(())
}
fn c12_ids(ctx: &mut Ctx) -> R {
    let mut g = SampleGreedy::new();
    for id in ids(ctx) {
        c12_check(ctx, &mut g, &mut around(id, id % 2 == 0), "id")?;
        ensure!(g.sampled_token_id() == Some(id), "greedy picks {:?}, the best is {id}", g.sampled_token_id());
    }
    Ok(())
}
fn c13_sizes(ctx: &mut Ctx) -> R {
    let Some((l, s, what)) = sized(ctx) else { return Ok(()) };
    if l.is_empty() {
        return Ok(());
    }
    c13_body(ctx, &l, &s, 40, &what)
}
fn c13_places(ctx: &mut Ctx) -> R {
    let n = ctx.range(1, ctx.qt(100, 300));
    ctx.state(&n);
    for at in 0..n {
        let mut v = vec![-3.0f32; n];
        v[at] = 4.0;
        if n > 2 {
            v[(at + n / 2) % n] = 3.5;
        }
        let l = Logits::try_from_iter(v).unwrap();
        let s = snap(&l);
        c13_body(ctx, &l, &s, 12, "place")?;
    }
    Ok(())
}
fn c13_ids(ctx: &mut Ctx) -> R {
    for id in ids(ctx) {
        let l = around(id, id % 2 == 0);
        let s = snap(&l);
        c13_body(ctx, &l, &s, 8, "id")?;
    }
    Ok(())
}
fn m1(n_vocab: usize, tau: f32, eta: f32, m: usize, mu: f32) -> M1 {
    M1 { s: Spec::Miro1 { n_vocab, tau, eta, m, mu: Some(mu) }.miro1(), n_vocab, tau, eta, m }
}
fn m2(tau: f32, eta: f32, mu: f32) -> M2 {
    M2 { s: Spec::Miro2 { tau, eta, mu: Some(mu) }.miro2(), tau, eta }
}
fn c14_sizes(ctx: &mut Ctx) -> R {
    let Some((l, _, what)) = sized(ctx) else { return Ok(()) };
    for (i, mu) in [0.5f32, 2.0, 5.0, 9.0].into_iter().enumerate() {
        for m in [100, l.len() / 2 + 2] {
            let mut x = m1(1000, 3.0, 0.1, m, mu);
            m1_call(ctx, &mut x, &mut l.clone(), words3()[i % 3], Fault::None, &what)?;
        }
    }
    Ok(())
}
fn c14_values(ctx: &mut Ctx) -> R {
    let (x, l, _, what) = valued(ctx);
    let i = (x.abs() * 1000.0).min(5000.0) as usize;
    for (k, (n_vocab, tau, eta, m, mu)) in [
        (50usize, x * 10.0, 0.1f32, 100usize, 3.0f32),
        (1000, 3.0, x * 3.0, 100, 2.0),
        (1000, 3.0, 0.1, 100, x * 15.0),
        (32000, 5.0, 0.1, 2 + i % 120, 4.0),
        (2 + i, 3.0, 0.1, 100, 3.0),
        (i * 64 + 3, 3.0, 0.5, 100, 1.0 + x),
    ]
    .into_iter()
    .enumerate()
    {
        if tau.abs() > 1e4 || eta.abs() > 1e4 || mu.abs() > 100.0 {
            continue;
        }
        let mut y = m1(n_vocab, tau, eta, m, mu);
        for w in 0..2 {
            m1_call(ctx, &mut y, &mut l.clone(), words3()[(w + k) % 3], Fault::None, &what)?;
            y.s = y.s.clone().mu(mu);
        }
    }
    Ok(())
}
fn c14_ids(ctx: &mut Ctx) -> R {
    let mut x = m1(50, 1.0, 0.1, 100, 2.0);
    for id in ids(ctx) {
        m1_call(ctx, &mut x, &mut around(id, id % 2 == 0), words3()[id as usize % 3], Fault::None, "id")?;
    }
    Ok(())
}
fn c15_sizes(ctx: &mut Ctx) -> R {
    let Some((l, _, what)) = sized(ctx) else { return Ok(()) };
    for (i, mu) in [0.5f32, 2.0, 5.0, 8.0, 30.0].into_iter().enumerate() {
        m2_call(ctx, &mut m2(3.0, 0.1, mu), &mut l.clone(), words3()[i % 3], Fault::None, false, &what)?;
    }
    Ok(())
}
fn c15_values(ctx: &mut Ctx) -> R {
    let (x, l, _, what) = valued(ctx);
    for (k, (tau, eta, mu)) in [(x * 10.0, 0.1f32, 3.0f32), (3.0, x * 3.0, 2.0), (3.0, 0.1, x * 15.0), (2.0, 0.3, 1.0 + x * 5.0)].into_iter().enumerate() {
        if tau.abs() > 1e4 || eta.abs() > 1e4 || mu.abs() > 1e4 {
            continue;
        }
        for w in 0..2 {
            m2_call(ctx, &mut m2(tau, eta, mu), &mut l.clone(), words3()[(w + k) % 3], Fault::None, false, &what)?;
        }
    }
    Ok(())
}
fn c15_ids(ctx: &mut Ctx) -> R {
    let mut x = m2(1.0, 0.1, 2.0);
    for id in ids(ctx) {
        m2_call(ctx, &mut x, &mut around(id, id % 2 == 0), words3()[id as usize % 3], Fault::None, false, "id")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C16 - C19

/// Every other id of the collection, and some more than once.
fn over(n: usize) -> Vec<u32> {
    (0..n as u32).filter(|i| i % 3 != 1).chain((0..n as u32).filter(|i| i % 5 == 0)).collect()
}
fn windows(ctx: &mut Ctx) -> (usize, Vec<u32>, Logits) {
    let n = ctx.range(0, ctx.qt(330, 1100));
    let full = ctx.qt(400, 1200);
    let len = *ctx.pick(&[n, n + 1, full, n.max(1) - 1]);
    let kind = ctx.choose(4);
    let h = big_hist(kind, len);
    let l = Logits::try_from_iter(shape("shuf", if kind == 1 { 1024 } else { 40 })).unwrap();
    ctx.state(&(n, len, kind));
    (n, h, l)
}
fn c16_sizes(ctx: &mut Ctx) -> R {
    let Some((mut l, _, _)) = sized(ctx) else { return Ok(()) };
    let n = l.len();
    rep(ctx, 1.3, usize::MAX, &over(n), &mut l, n)
}
fn c16_windows(ctx: &mut Ctx) -> R {
    let (n, h, mut l) = windows(ctx);
    rep(ctx, 1.5, n, &h, &mut l, n)
}
fn c16_values(ctx: &mut Ctx) -> R {
    let (x, l, _, _) = valued(ctx);
    for pen in [x, 1.0 + x, x * 10.0] {
        rep(ctx, pen, 64, &over(l.len().min(40)), &mut l.clone(), 0)?;
    }
    Ok(())
}
fn c16_ids(ctx: &mut Ctx) -> R {
    for id in ids(ctx) {
        rep(ctx, 2.0, 8, &[id], &mut around(id, id % 2 == 0), 0)?;
        rep(ctx, 2.0, 8, &[id.wrapping_add(1), id.wrapping_sub(1), 3], &mut around(id, id % 2 == 0), 0)?;
    }
    Ok(())
}
fn c17_sizes(ctx: &mut Ctx) -> R {
    let Some((mut l, _, _)) = sized(ctx) else { return Ok(()) };
    let n = l.len();
    fp(ctx, 0.5, 0.25, usize::MAX, &over(n), &mut l, n)
}
fn c17_windows(ctx: &mut Ctx) -> R {
    let (n, h, mut l) = windows(ctx);
    fp(ctx, 0.25, 0.5, n, &h, &mut l, n)
}
fn c17_values(ctx: &mut Ctx) -> R {
    let (x, l, _, _) = valued(ctx);
    for (f, p) in [(x, 0.0f32), (0.0, x), (x, -0.5), (0.25, x * 10.0), (x * 10.0, x)] {
        fp(ctx, f, p, 64, &over(l.len().min(40)), &mut l.clone(), 0)?;
    }
    Ok(())
}
fn c17_counts(ctx: &mut Ctx) -> R {
    let n = ctx.range(0, ctx.qt(1100, 5000));
    let mix = ctx.choose(3);
    ctx.state(&(n, mix));
    // A token n times, its neighbours a few times, in 3 arrangements.
    let mut h = vec![5u32; n];
    match mix {
        0 => {}
        1 => h.extend([4, 6, 6]),
        _ => h = (0..n * 2).map(|i| if i % 2 == 0 { 5 } else { 1000 + i as u32 }).collect(),
    }
    let l = Logits::try_from_iter(shape("shuf", 9)).unwrap();
    for (f, p) in [(0.5f32, 0.25f32), (1.0, 0.0), (0.0, 1.5), (-0.125, 0.5)] {
        fp(ctx, f, p, usize::MAX, &h, &mut l.clone(), 0)?;
        fp(ctx, f, p, h.len().max(1) - 1, &h, &mut l.clone(), 0)?;
    }
    Ok(())
}
fn c17_ids(ctx: &mut Ctx) -> R {
    for id in ids(ctx) {
        fp(ctx, 0.5, 0.25, 8, &[id, id, id.wrapping_add(1)], &mut around(id, id % 2 == 0), 0)?;
        fp(ctx, 0.5, 0.25, 8, &[id.wrapping_add(1), id.wrapping_sub(1), 3], &mut around(id, id % 2 == 0), 0)?;
    }
    Ok(())
}
/// Filler, a pattern, a follower, a gap of different tokens, the pattern again.
fn repeat_hist(len: usize, gap: usize, lead: usize) -> Vec<u32> {
    let mut h: Vec<u32> = (0..lead as u32).map(|i| 5000 + i).collect();
    let pat: Vec<u32> = (0..len as u32).map(|i| 100 + i).collect();
    h.extend(&pat);
    h.push(3);
    h.extend((0..gap as u32).map(|i| 2000 + i));
    h.extend(&pat);
    h
}
fn followers() -> Logits {
    let mut l = Logits::try_from_iter([1.0f32, 2.0, 3.0, 4.0, -1.0]).unwrap();
    for (i, id) in [2u32, 3, 100, 2000, 101].into_iter().enumerate() {
        l[i].token_id = id;
    }
    l
}
fn c18_lengths(ctx: &mut Ctx) -> R {
    let len = ctx.range(2, ctx.qt(90, 200));
    let gap = *ctx.pick(&[0usize, 1, 2, 7, 31, 64, 150]);
    ctx.state(&(len, gap));
    let h = repeat_hist(len, gap, 3);
    let l = followers();
    let span = 2 * len + 1 + gap;
    for min in [2, len - 1, len, len + 1] {
        for n in [usize::MAX, span, span - 1, span + 1] {
            for (flat, stack) in [(1.5f32, 0.0f32), (0.25, 0.5)] {
                seq_check(ctx, Sq { flat, stack, min, tol: 0, merge: 1, n }, &h, &mut l.clone(), false)?;
            }
        }
    }
    Ok(())
}
fn c18_hists(ctx: &mut Ctx) -> R {
    let n = ctx.range(0, ctx.qt(330, 700));
    let kind = ctx.choose(3);
    ctx.state(&(n, kind));
    let h: Vec<u32> = match kind {
        0 => (0..n as u32).map(|i| i % 3).collect(),
        1 => {
            let mut s = n as u32 * 7919 + 1;
            (0..n)
                .map(|_| {
                    s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                    (s >> 24) % 4
                })
                .collect()
        }
        _ => (0..n as u32).map(|i| if i * 2 >= n as u32 { i - n as u32 / 2 } else { i } % 30).collect(),
    };
    let l = Logits::try_from_iter(shape("shuf", 31)).unwrap();
    for (min, last) in [(2, 64), (3, usize::MAX), (5, n / 2), (2, n.max(1) - 1)] {
        seq_check(ctx, Sq { flat: 0.5, stack: 0.25, min, tol: 0, merge: 1, n: last }, &h, &mut l.clone(), true)?;
    }
    Ok(())
}
fn c18_values(ctx: &mut Ctx) -> R {
    let (x, _, _, _) = valued(ctx);
    let h = repeat_hist(4, 2, 1);
    for (flat, stack) in [(x, 0.0f32), (0.0, x), (x, 0.5), (0.5, x), (x * 10.0, -x)] {
        seq_check(ctx, Sq { flat, stack, min: 2, tol: 0, merge: 1, n: 64 }, &h, &mut followers(), flat == x)?;
    }
    Ok(())
}
fn c18_ids(ctx: &mut Ctx) -> R {
    for id in ids(ctx) {
        let (a, b) = (id.wrapping_sub(1), id.wrapping_add(1));
        let q = Sq { flat: 1.5, stack: 0.0, min: 2, tol: 0, merge: 1, n: 64 };
        seq_check(ctx, q, &[a, b, id, 7, a, b], &mut around(id, id % 2 == 0), false)?;
        seq_check(ctx, q, &[id, b, a, 7, id, b], &mut around(id, id % 2 == 0), false)?;
        seq_check(ctx, q, &[id, b, a, 7, a, b], &mut around(id, id % 2 == 0), false)?;
    }
    Ok(())
}
fn c19_lengths(ctx: &mut Ctx) -> R {
    let len = ctx.range(3, ctx.qt(26, 48));
    let at = ctx.range(1, len - 2);
    let absorbed = ctx.range(1, 3);
    ctx.state(&(len, at, absorbed));
    let pat: Vec<u32> = (0..len as u32).map(|i| 100 + i).collect();
    let mut h: Vec<u32> = vec![5000];
    for (i, t) in pat.iter().enumerate() {
        if i == at {
            h.extend((0..absorbed as u32).map(|j| 3000 + j));
        } else {
            h.push(*t);
        }
    }
    h.push(3);
    h.push(2000);
    h.extend(&pat);
    for tol in 0..3 {
        for merge in 1..4 {
            for min in [len, len - 1] {
                seq_check(ctx, Sq { flat: 1.5, stack: 0.0, min, tol, merge, n: usize::MAX }, &h, &mut followers(), false)?;
            }
        }
    }
    Ok(())
}
fn c19_values(ctx: &mut Ctx) -> R {
    let (x, _, _, _) = valued(ctx);
    let h = [9, 100, 101, 102, 103, 3, 2000, 100, 77, 102, 103];
    for (flat, stack) in [(x, 0.0f32), (0.0, x), (x, 0.5), (0.5, x)] {
        for (tol, merge) in [(1, 1), (2, 3)] {
            seq_check(ctx, Sq { flat, stack, min: 3, tol, merge, n: 64 }, &h, &mut followers(), flat == x)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C20, C21

fn c20_sizes(ctx: &mut Ctx) -> R {
    let Some((mut l, _, what)) = sized(ctx) else { return Ok(()) };
    let n = l.len() as u32;
    let list = [(n / 2, 1.5f32), (0, -2.0), (n.max(1) - 1, NINF), (n, 4.0)];
    let mut m: Vec<(u32, f32)> = vec![];
    for x in list {
        if !m.iter().any(|y| y.0 == x.0) {
            m.push(x);
        }
    }
    bias_check(ctx, &mut SampleFlatBias::new(m.clone()), &m, &mut l, &what)
}
fn c20_lists(ctx: &mut Ctx) -> R {
    const LONG: [usize; 14] = [511, 513, 1023, 1025, 2047, 2049, 4095, 4097, 8193, 16385, 32769, 65535, 65537, 131073];
    let small = ctx.qt(300, 1100);
    let i = ctx.choose(small + 1 + LONG.len());
    let back = ctx.flag();
    let mut l = Logits::try_from_iter(shape("shuf", 300)).unwrap();
    let n = if i <= small { i } else { LONG[i - small - 1] };
    ctx.state(&(n, back));
    let modulus = if i <= small { 1201 } else { 131_101 };
    let mut list: Vec<(u32, f32)> = (0..n as u32).map(|i| (i * 7 % modulus, i as f32 * 0.25 - 20.0)).collect();
    if back {
        list.reverse();
    }
    if i > small {
        // The collection has the first, the last and some listed tokens in between, and unlisted ones.
        for j in 0..300 {
            let at = match j % 3 {
                0 => j / 3,
                1 => n - 1 - j / 3,
                _ => 100 + (n - 300) * (j / 3) / 100,
            };
            l[j].token_id = if j % 20 == 19 { 200_000 + j as u32 } else { list[at].0 };
        }
        let mut seen = vec![];
        l.retain(|x| !seen.contains(&x.token_id) && { seen.push(x.token_id); true });
    }
    bias_check(ctx, &mut SampleFlatBias::new(list.clone()), &list, &mut l, &format!("list of {n}"))
}
fn c20_values(ctx: &mut Ctx) -> R {
    let (x, l, _, what) = valued(ctx);
    for b in [x, -x, x * 30.0, x * 1e-3] {
        let list = [(3u32, b), (0, -b), (8, b * 2.0)];
        bias_check(ctx, &mut SampleFlatBias::new(list), &list, &mut l.clone(), &what)?;
    }
    Ok(())
}
fn c20_ids(ctx: &mut Ctx) -> R {
    for id in ids(ctx) {
        for list in [vec![(id, 1.5f32)], vec![(id.wrapping_add(1), -0.5f32), (id.wrapping_add(2), 3.0)], vec![(id.wrapping_sub(1), NINF), (id, 0.25)]] {
            bias_check(ctx, &mut SampleFlatBias::new(list.clone()), &list, &mut around(id, id % 2 == 0), "id")?;
        }
    }
    Ok(())
}
fn c21_sizes(ctx: &mut Ctx) -> R {
    let Some((l, _, what)) = sized(ctx) else { return Ok(()) };
    for t in [0.7f32, -0.5, 3.0, 0.0] {
        temp_check(ctx, t, &mut l.clone(), &what)?;
    }
    Ok(())
}
fn c21_values(ctx: &mut Ctx) -> R {
    let (x, l, _, what) = valued(ctx);
    for t in [x, x + 1.0, x * 10.0, -x, 1.0 / (x + 0.15)] {
        temp_check(ctx, t, &mut l.clone(), &what)?;
    }
    Ok(())
}
