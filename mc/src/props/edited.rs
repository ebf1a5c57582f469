//! C37: collections edited by hand.
use crate::common::*;
use crate::engine::*;
use crate::props::compose::more;

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C37",
            name: "edits_small",
            bounds: "collections of 0-3 (quick) / 0-4 (thorough) distinct values in every order, raw / sorted / softmaxed / top-k ingested; all sequences of 1-2 edits (3 from up to 2 entries; thorough: 3 from all) out of 25 (assign, swap, reverse, rotate, push, insert, remove, retain, clear, replace, renumber, spoil the probabilities ..), every truthful choice of the two flags, then each of 33 samplers, sort or softmax: same entries, probabilities, token and error as on a freshly built collection of the same entries",
            run: c37_small,
        },
        Harness {
            prop: "C37",
            name: "edits_shapes",
            bounds: "12 shapes made free of ties x sizes 9, 40, 300 (thorough: 1000, 5000) x 4 preparations x 25 edits x truthful flags x 33 samplers, sort or softmax",
            run: c37_shapes,
        },
        Harness {
            prop: "C37",
            name: "edits_between",
            bounds: "collections of 3-4 values: all sequences {sampler out of 12, edit (10 quick / 25), truthful flags, sampler out of 12, edit (4 quick / 25), flags, sampler} on one collection, as a chain or one by one: each sampler's result as on a freshly built collection",
            run: c37_between,
        },
        Harness {
            prop: "C37",
            name: "spare_room",
            bounds: "collections of every size 0-40 (quick) / 0-150 (thorough) and of 63-65, 255-257, 600, 1024, 1025 and 3000 entries, of exact capacity, with room for 1, 7, as many or 5000 more, cut down from 2 more, twice, 70 times as many, emptied and refilled, or shrunk, x {raw, sorted, softmaxed} x 33 samplers, sort or softmax, twice: bitwise as on a freshly built collection",
            run: c37_room,
        },
    ]
}

const EDITS: usize = 25;
/// `u` counts the values handed out, so that no two are equal.
fn edit(l: &mut Logits, k: usize, u: &mut u32) -> &'static str {
    *u += 1;
    let new = |s: f32, u: u32| s * (0.613 + 1.0713 * u as f32);
    let (hi, lo) = (new(4.3, *u), new(-4.7, *u));
    let n = l.len();
    let fresh = |id: u32, v: f32| Logit { token_id: id, logit: v, prob: 0.0 };
    match k {
        0 => {
            if n > 0 {
                l[0].logit = lo;
            }
            "first entry lowered"
        }
        1 => {
            if n > 0 {
                l[n - 1].logit = hi;
            }
            "last entry raised"
        }
        2 => {
            if n > 1 {
                l.swap(0, n - 1);
            }
            "ends swapped"
        }
        3 => {
            l.reverse();
            "reversed"
        }
        4 => {
            l.push(fresh(500 + *u, hi));
            "high entry pushed"
        }
        5 => {
            l.push(fresh(500 + *u, lo));
            "low entry pushed"
        }
        6 => {
            l.insert(0, fresh(500 + *u, hi));
            "high entry inserted in front"
        }
        7 => {
            if n > 0 {
                l.remove(0);
            }
            "first entry removed"
        }
        8 => {
            l.pop();
            "last entry removed"
        }
        9 => {
            let mut i = 0;
            l.retain(|_| {
                i += 1;
                i % 2 == 1
            });
            "every other entry removed"
        }
        10 => {
            l.clear();
            "cleared"
        }
        11 => {
            l.sort_by_key(|x| x.token_id);
            "ordered by id"
        }
        12 => {
            l.iter_mut().for_each(|x| x.prob = f32::NAN);
            "probabilities spoiled (NaN)"
        }
        13 => {
            l.iter_mut().enumerate().for_each(|(i, x)| x.prob = [0.0, 0.97, 0.5][i % 3]);
            "probabilities spoiled"
        }
        14 => {
            l.iter_mut().for_each(|x| x.logit = -x.logit);
            "all values negated"
        }
        15 => {
            if n > 1 {
                l.rotate_left(1);
            }
            "rotated"
        }
        16 => {
            let v: Vec<Logit> = l.iter().cloned().collect();
            **l = v;
            "list replaced by a copy"
        }
        17 => {
            l.iter_mut().enumerate().for_each(|(i, x)| x.token_id = 90_000 - 3 * i as u32);
            "renumbered"
        }
        18 => {
            l.sort_by(|a, b| a.logit.total_cmp(&b.logit));
            "ordered upwards"
        }
        19 => {
            l.sort_by(|a, b| b.logit.total_cmp(&a.logit));
            "ordered downwards"
        }
        20 => {
            if n > 1 {
                l.swap(n / 2, n / 2 - 1);
            }
            "neighbours swapped"
        }
        21 => {
            l.iter_mut().for_each(|x| x.logit -= 1000.0);
            "all values lowered by 1000"
        }
        22 => {
            l.iter_mut().for_each(|x| x.logit += 300.0);
            "all values raised by 300"
        }
        23 => {
            l.iter_mut().for_each(|x| x.logit *= 0.25);
            "all values quartered"
        }
        _ => {
            **l = vec![fresh(3, lo), fresh(1, hi), fresh(2, 0.037)];
            "list replaced"
        }
    }
}
/// Set the flags to one of the truthful claims. What they say is taken as the crate defines it:
/// sorted = non-increasing, softmax = the stored probabilities are the softmax of the logits.
fn claim(ctx: &mut Ctx, l: &mut Logits) -> String {
    let v: Vec<f32> = l.iter().map(|x| x.logit).collect();
    let sorted = v.windows(2).all(|w| w[0] >= w[1]);
    let q = softmax64(&v);
    let soft = !v.is_empty() && l.iter().zip(&q).all(|(x, p)| (x.prob as f64 - p).abs() <= 1e-6 * p + 1e-38);
    let s = sorted && ctx.flag();
    let f = soft && ctx.flag();
    l.set_sorted(s);
    l.set_softmax(f);
    format!("sorted={s} softmax={f}")
}
fn rebuilt(l: &Logits) -> Result<Logits, String> {
    let mut o = Logits::try_from_iter(l.iter().map(|x| x.logit)).map_err(|e| format!("rebuilding: {e}"))?;
    for (a, b) in o.iter_mut().zip(l.iter()) {
        a.token_id = b.token_id;
    }
    Ok(o)
}
fn targets() -> Vec<Option<Spec>> {
    let mut t = vec![None, None];
    t.extend(more().into_iter().map(Some));
    t
}
const HIST: &[u32] = &[1, 2, 501, 1, 2, 0, 3, 1, 2];
fn act(i: usize, t: &Option<Spec>, l: &mut Logits) -> Result<Option<u32>, String> {
    match (i, t) {
        (0, None) => l.ensure_sorted().map(|_| None).map_err(|e| e.to_string()),
        (_, None) => l.ensure_softmax().map(|_| None).map_err(|e| e.to_string()),
        (_, Some(s)) => {
            let mut r = Res::new(&[0x9000_0000], HIST);
            s.make().sample_token(&mut r, l).map_err(|e| err_str(&e))
        }
    }
}
/// Same outcome on the edited collection as on one built afresh?
fn same_as_fresh(ctx: &mut Ctx, l: &mut Logits, what: &str, go: &mut dyn FnMut(&mut Logits) -> Result<Option<u32>, String>, again: &mut dyn FnMut(&mut Logits) -> Result<Option<u32>, String>) -> R {
    let before = snap(l);
    let mut f = rebuilt(l)?;
    let (a, b) = (go(l), again(&mut f));
    ctx.steps(2);
    if l.iter().any(|x| x.logit.is_nan() || x.logit == PINF) {
        return Ok(());
    }
    ctx.state(&(hash_of(&snap(l)), before.sorted, before.soft));
    ctx.note(|| format!("{what}: {} -> {a:?} {}", short(&before.e), short(&snap(l).e)));
    ensure!(a == b, "{what} on {}: gives {a:?}, a freshly built collection {b:?}", short(&before.e));
    claims_true(l).map_err(|m| format!("{what} on {}: {m}", short(&before.e)))?;
    // Compare what both hold, brought into the same form.
    let (mut x, mut y) = (l.clone(), f);
    let r = (x.ensure_softmax().is_ok(), y.ensure_softmax().is_ok());
    ensure!(r.0 == r.1, "{what} on {}: softmax afterwards succeeds {}, from a freshly built collection {}", short(&before.e), r.0, r.1);
    claims_true(&x).map_err(|m| format!("{what} on {}, then softmax: {m}", short(&before.e)))?;
    let (x, y) = (snap(&x), snap(&y));
    let fin = x.e.iter().any(|e| e.1.is_finite());
    ensure!(
        same_e(&x.e, &y.e) && (!fin || x.p.iter().zip(&y.p).all(|(a, b)| (a - b).abs() <= (1e-5 + 3e-7 * x.e.len() as f32) * b.abs() + 1e-7)),
        "{what} on {}: leaves {} {:?}, of a freshly built collection {} {:?}",
        short(&before.e),
        short(&x.e),
        &x.p[..x.p.len().min(8)],
        short(&y.e),
        &y.p[..y.p.len().min(8)]
    );
    Ok(())
}
/// What the flags say holds. (A collection may claim softmax without claiming to be sorted.)
fn claims_true(l: &Logits) -> R {
    let s = snap(l);
    ensure!(!s.sorted || non_increasing(&s.e), "claims to be sorted but is {}", short(&s.e));
    if s.soft && s.e.iter().any(|e| e.1.is_finite()) {
        let q = softmax64(&s.vals());
        let tol = 1e-5 + 3e-7 * s.e.len() as f64;
        let ok = s.p.iter().zip(&q).all(|(x, p)| (*x as f64 - p).abs() <= tol * p + 1e-7);
        ensure!(ok, "softmax claimed but the probabilities of {} are {:?}", short(&s.e), &s.p[..s.p.len().min(8)]);
    }
    Ok(())
}
const PREPS: [&str; 4] = ["raw", "sorted", "softmaxed", "topk-ingested"];
fn run(ctx: &mut Ctx, v: &[f32], edits: usize) -> R {
    let p = *ctx.pick(&PREPS);
    let mut l = if v.is_empty() { Logits::default() } else {
        match prepare(p, v) {
            Some(l) => l,
            None => return Ok(()),
        }
    };
    let mut what = format!("{p} {}", short(&snap(&l).e));
    let mut u = 0;
    for _ in 0..edits {
        what += ", ";
        what += edit(&mut l, ctx.choose(EDITS), &mut u);
    }
    what += ", ";
    what += &claim(ctx, &mut l);
    if ctx.visited(&(what.clone(), edits), 1) {
        return Ok(());
    }
    let t = targets();
    let i = ctx.choose(t.len());
    let what = format!("{what}: {}", match i { 0 => "sort".into(), 1 => "softmax".into(), _ => format!("{:?}", t[i].as_ref().unwrap()) });
    same_as_fresh(ctx, &mut l, &what, &mut |l| act(i, &t[i], l), &mut |l| act(i, &t[i], l))
}
const BASE: [f32; 4] = [0.13, 1.57, -2.29, 3.41];
fn c37_small(ctx: &mut Ctx) -> R {
    let n = ctx.range(0, ctx.qt(3, 4));
    let mut left: Vec<f32> = BASE[..n].to_vec();
    let mut v = vec![];
    while !left.is_empty() {
        let j = ctx.choose(left.len());
        v.push(left.remove(j));
    }
    let e = ctx.range(1, if n <= 2 { 3 } else { ctx.qt(2, 3) });
    run(ctx, &v, e)
}
fn c37_shapes(ctx: &mut Ctx) -> R {
    let k = *ctx.pick(SHAPES);
    let n = *ctx.pick(ctx.qt(&[9usize, 40, 300], &[9, 40, 300, 1000, 5000]));
    let mut v = shape(k, n);
    let p = perm(n);
    for (i, x) in v.iter_mut().enumerate() {
        if *x == NINF {
            *x = -30.0;
        }
        *x += p[i] as f32 * 2e-4;
    }
    let mut s = v.clone();
    s.sort_by(f32::total_cmp);
    if s.windows(2).any(|w| w[0] == w[1]) {
        return Ok(());
    }
    run(ctx, &v, 1)
}

/// The same entries in a list with another allocation.
fn c37_room(ctx: &mut Ctx) -> R {
    let mut sizes: Vec<usize> = (0..=ctx.qt(40, 150)).collect();
    sizes.extend([63, 64, 65, 255, 256, 257, 600, 1024, 1025, 3000]);
    let n = *ctx.pick(&sizes);
    let kind = ctx.choose(10);
    let prep = ctx.choose(3);
    let v = shape(if n % 2 == 0 { "shuf" } else { "zipf" }, n);
    let mk = |v: &[f32]| Logits::try_from_iter(v.iter().copied()).map_err(|e| e.to_string());
    let mut y = mk(&v)?;
    match prep {
        0 => {}
        1 => y.ensure_sorted().map(|_| ()).map_err(|e| e.to_string())?,
        _ => y.ensure_softmax().map(|_| ()).map_err(|e| e.to_string())?,
    }
    let longer = |k: usize| -> Result<Logits, String> {
        let mut x = mk(&shape("desc", n + k))?;
        x.truncate(n);
        x.iter_mut().zip(y.iter()).for_each(|(a, b)| *a = b.clone());
        Ok(x)
    };
    let mut x = match kind {
        0 => y.clone(),
        1..=4 => {
            let mut x = y.clone();
            x.reserve_exact([1, 7, n, 5000][kind - 1]);
            x
        }
        5 => longer(2)?,
        6 => longer(2 * n + 1)?,
        7 => longer(70 * n + 70)?,
        8 => {
            let mut x = longer(64 * n + 1100)?;
            x.clear();
            x.extend(y.iter().cloned());
            x
        }
        _ => {
            let mut x = longer(n + 3)?;
            x.shrink_to_fit();
            x
        }
    };
    x.set_sorted(y.get_sorted()).set_softmax(y.get_softmax());
    let t = targets();
    let i = ctx.choose(t.len());
    for round in 0..2 {
        let (a, b) = (act(i, &t[i], &mut x), act(i, &t[i], &mut y));
        ctx.steps(2);
        ctx.state(&(n, hash_of(&snap(&y))));
        let what = || format!("target {i} {:?} on {n} entries, {} (allocation {kind}), round {round}", t[i], ["raw", "sorted", "softmaxed"][prep]);
        ctx.note(|| format!("{}: {a:?} {}", what(), short(&snap(&x).e)));
        ensure!(a == b, "{}: gives {a:?}, a freshly built collection {b:?}", what());
        ensure!(snap(&x).same(&snap(&y)), "{}: leaves {} sorted={} softmax={}, of a freshly built collection {} sorted={} softmax={}", what(), short(&snap(&x).e), x.get_sorted(), x.get_softmax(), short(&snap(&y).e), y.get_sorted(), y.get_softmax());
    }
    Ok(())
}

/// A sampler of the user's own: edits the list and sets the flags.
#[derive(Debug)]
struct Editor {
    edit: usize,
    u: u32,
    sorted: bool,
    soft: bool,
}
impl Sampler for Editor {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        edit(l, self.edit, &mut self.u);
        l.set_sorted(self.sorted).set_softmax(self.soft);
        Ok(l)
    }
}
fn c37_between(ctx: &mut Ctx) -> R {
    use Spec::*;
    let menu = [
        TopK(2, 1),
        TopP(0.8, 1),
        MinP(0.2, 2),
        TailFree(0.6, 1),
        Typical(0.8, 1),
        TopA(0.4, 2.0, 1),
        Temp(0.5),
        Bias(vec![(1, -3.1)]),
        Rep(1.5, 64),
        Greedy,
        Rand,
        Miro2 { tau: 2.0, eta: 0.2, mu: Some(2.5) },
    ];
    let n = ctx.range(3, ctx.qt(3, 4));
    let chained = ctx.flag();
    let mut l = Logits::try_from_iter(BASE[..n].iter().copied()).unwrap();
    let mut what = String::new();
    let mut chain = SamplerChain::new();
    let mut u = 0;
    for d in 0..3 {
        let sp = &menu[ctx.choose(menu.len())];
        same_as_fresh(ctx, &mut l, &format!("{what}{sp:?}"), &mut |l| act(9, &Some(sp.clone()), l), &mut |l| act(9, &Some(sp.clone()), l))?;
        what += &format!("{sp:?}, ");
        if chained {
            chain.push_sampler(Boxed(sp.make()));
        }
        if d < 2 {
            let all: Vec<usize> = (0..EDITS).collect();
            let e = *ctx.pick(ctx.qt(if d == 0 { &[0usize, 1, 2, 4, 7, 12, 13, 14, 20, 21] } else { &[1usize, 2, 5, 13] }, &all));
            let ed = Editor { edit: e, u, sorted: false, soft: false };
            what += edit(&mut l, e, &mut u);
            what += ", ";
            let c = claim(ctx, &mut l);
            what += &c;
            what += ", ";
            if chained {
                chain.push_sampler(Editor { sorted: l.get_sorted(), soft: l.get_softmax(), ..ed });
            }
        }
    }
    if chained {
        let mut m = Logits::try_from_iter(BASE[..n].iter().copied()).unwrap();
        // One word per drawing sampler.
        let mut r = Res::new(&[0x9000_0000; 4], HIST);
        let _ = chain.sample(&mut r, &mut m).map_err(|e| format!("{what}as a chain: {}", err_str(&e)))?;
        ctx.step();
        ensure!(snap(&m).same(&snap(&l)), "{what}: as a chain leaves {}, one by one {}", short(&snap(&m).e), short(&snap(&l).e));
    }
    Ok(())
}
#[derive(Debug)]
struct Boxed(Box<dyn Sampler>);
impl Sampler for Boxed {
    fn sample<'a>(&mut self, r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.0.sample(r, l)
    }
}
