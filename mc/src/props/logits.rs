//! C01 flags, C02 building, C03 top-k ingestion, C04 sort and softmax.
use crate::common::*;
use crate::engine::*;

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C01",
            name: "flags_bfs",
            bounds: "explicit-state search with state deduplication: initial collections = all vectors of length 1-3 over {0,1,-inf,2.5} and 12 shapes of sizes 3, 8, 24; 34 operations (every sampler, sort, softmax); sequences up to 4 operations (quick) / 5 (thorough)",
            run: c01,
        },
        Harness {
            prop: "C01",
            name: "flags_small_deep",
            bounds: "explicit-state search: initial collections of 2-3 entries over {0,2}; operations that do not lose entries; sequences up to 7 (quick) / 8 (thorough)",
            run: c01_deep,
        },
        Harness {
            prop: "C01",
            name: "flags_constructed",
            bounds: "all vectors of length 0-4 over 6 values, of length 1-3/1-4 over 3 alphabets of nearly equal, far apart and tiny values, and shapes up to 400 entries, every preparation (12 ways a collection comes to be)",
            run: c01_built,
        },
        Harness {
            prop: "C01",
            name: "flags_parameters",
            bounds: "all vectors of length 1-4 over {0, 1, 2.5, -inf} x {raw, sorted, softmaxed, top-k ingested} x {every assignment of a bias out of 6 (or none) to every entry (up to 3 entries; 4 biases for 4 entries), every history of 0-4 tokens over 3 ids x 7 parameter sets of the penalties, 15 temperatures}: the flags stay truthful",
            run: c01_params,
        },
        Harness {
            prop: "C01",
            name: "flags_copied",
            bounds: "all vectors of length 0-3 over {0, 1, 2.5, -inf} x 12 preparations, copied by clone, clone_from (into 6 collections x 12 preparations), mem::take or swap, followed by any of 34 operations: copies carry values and flags, flags stay truthful, source and copy are independent",
            run: c01_copied,
        },
        Harness {
            prop: "C02",
            name: "build_small",
            bounds: "all vectors of length 0-5 (quick) / 0-6 (thorough) over 11 bit patterns (3 NaNs, +-inf, +-0, subnormal, max, 1.5, -3) x 4 ways to build (up to length 3: 15 ways, with size hints that are exact, loose, unbounded, huge or wrong)",
            run: c02,
        },
        Harness {
            prop: "C02",
            name: "build_long",
            bounds: "lengths 20..70000, no NaN or one/two NaNs at enumerated positions, 15 ways to build",
            run: c02_long,
        },
        Harness {
            prop: "C03",
            name: "ingest_small",
            bounds: "all vectors of length 0-6 (quick) / 0-7 (thorough) over {1,2,-1,0,-0,NaN,inf,-inf} and of length 1-4 over {f32::MAX, f32::MIN, +-smallest subnormal, 1 and its neighbours, -1e38, NaN, inf} x k in {0..6,1000,2^40,2^62,usize::MAX} x 3 iterator kinds (up to length 4: 14 kinds, with size hints that are exact, loose, unbounded, huge or wrong)",
            run: c03,
        },
        Harness {
            prop: "C03",
            name: "ingest_shapes",
            bounds: "12 shapes x sizes up to 3000 (quick) / 70000 (thorough) with non-finite values injected, k around 1, 40, n, 14 kinds of iterators",
            run: c03_long,
        },
        Harness {
            prop: "C04",
            name: "sort_softmax",
            bounds: "all vectors of length 0-5/6 (quick/thorough) over 6 values and over a wide alphabet (+-1000, +-1e38, 88.8), 12 shapes up to 1024 entries, all preparations; idempotence, shift and order invariance",
            run: c04,
        },
        Harness {
            prop: "C04",
            name: "levels",
            bounds: "43 levels of the logits from f32::MIN to f32::MAX (dense around the limits of exp) x 6 patterns (flat, small and large spread, forbidden entries, one peak) x 7 sizes up to 20000 (quick) / 10 up to 200000 (thorough) x {raw, sorted, top-k ingested}",
            run: c04_levels,
        },
        Harness {
            prop: "C04",
            name: "nan_sort",
            bounds: "sizes 1..200, NaN at every enumerated position, produced by a real bias (+inf on -inf) or by editing; shapes of the rest enumerated",
            run: c04_nan,
        },
        Harness {
            prop: "C04",
            name: "long",
            bounds: "shapes of 4096, 32000 and 70000 entries",
            run: c04_long,
        },
    ]
}

// ------------------------------------------------------------------ C01

pub fn ops() -> Vec<Option<Spec>> {
    use Spec::*;
    vec![
        None, // placeholder: sort
        None, // placeholder: softmax
        Some(Temp(0.5)),
        Some(Temp(-1.0)),
        Some(Temp(3.0)),
        Some(Temp(0.0)),
        Some(Bias(vec![(0, 1.5)])),
        Some(Bias(vec![(1, NINF)])),
        Some(Bias(vec![(2, -4.0), (0, 0.5)])),
        Some(Bias(vec![(7, 1.0)])),
        Some(Bias(vec![])),
        Some(Rep(1.5, 64)),
        Some(Rep(2.0, 1)),
        Some(FreqPres(0.5, 0.25, 64)),
        Some(FreqPres(-1.0, 0.0, 2)),
        Some(Seq { flat: 2.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 }),
        Some(Seq { flat: -2.0, stack: 0.0, min_length: 2, tol: 1, merge: 2, last_n: 64 }),
        Some(TopK(2, 1)),
        Some(TopK(5, 1)),
        Some(TopK(0, 1)),
        Some(TopP(0.6, 1)),
        Some(TopP(0.99, 2)),
        Some(MinP(0.3, 1)),
        Some(MinP(0.01, 1)),
        Some(TopA(0.5, 2.0, 1)),
        Some(TopA(1.0, 1.0, 2)),
        Some(TailFree(0.4, 1)),
        Some(TailFree(0.9, 2)),
        Some(Typical(0.5, 1)),
        Some(Typical(0.95, 1)),
        Some(Greedy),
        Some(Rand),
        Some(Miro1 { n_vocab: 10, tau: 2.0, eta: 0.1, m: 100, mu: Some(1.5) }),
        Some(Miro2 { tau: 2.0, eta: 0.1, mu: Some(1.5) }),
    ]
}
const HIST: &[u32] = &[3, 0, 1, 2, 3, 0, 1, 0, 0, 1];

pub fn apply(i: usize, sp: &Option<Spec>, l: &mut Logits) -> Result<(), String> {
    match (i, sp) {
        (0, _) => l.ensure_sorted().map(|_| ()).map_err(|e| e.to_string()),
        (1, _) => l.ensure_softmax().map(|_| ()).map_err(|e| e.to_string()),
        (_, Some(s)) => {
            let mut r = Res::new(&[0x9000_0000], HIST);
            s.make().sample(&mut r, l).map(|_| ()).map_err(|e| err_str(&e))
        }
        _ => unreachable!(),
    }
}

pub fn c01_run(ctx: &mut Ctx, v: Vec<f32>, depth: usize, idx: &[usize]) -> R {
    let all = ops();
    let mut l = match Logits::try_from_iter(v.iter().copied()) {
        Ok(l) => l,
        Err(e) => return Err(format!("building {v:?} failed: {e}")),
    };
    ctx.note(|| format!("start {v:?}"));
    flags_truthful(&l)?;
    let mut path = vec![];
    // Executions are merged when they agree in all that can be seen and in what was done last: what
    // cannot be seen (a cache, say) may depend on it.
    let mut last = [usize::MAX; 2];
    for d in 0..depth {
        if ctx.visited(&(snap(&l), last), depth - d) {
            return Ok(());
        }
        let i = idx[ctx.choose(idx.len())];
        last = [if ctx.thorough() && idx.len() > 20 { last[1] } else { 0 }, if ctx.thorough() || idx.len() > 20 { i } else { 0 }];
        let r = apply(i, &all[i], &mut l);
        ctx.step();
        let name = match i {
            0 => "sort".to_string(),
            1 => "softmax".to_string(),
            _ => format!("{:?}", all[i].as_ref().unwrap()),
        };
        path.push(name);
        ctx.note(|| format!("{} -> {:?} {} sorted={} soft={}", path.last().unwrap(), r, short(&snap(&l).e), l.get_sorted(), l.get_softmax()));
        let fin = l.iter().any(|x| x.logit.is_finite()) && !l.iter().any(|x| x.logit.is_nan() || x.logit == PINF);
        if !l.is_empty() && !fin {
            return Ok(());
        }
        flags_truthful(&l).map_err(|m| format!("after {} on {v:?}: {m}", path.join(", ")))?;
    }
    ctx.state(&snap(&l));
    Ok(())
}

fn c01(ctx: &mut Ctx) -> R {
    let v = if ctx.flag() {
        let k = *ctx.pick(SHAPES);
        let n = *ctx.pick(&[3usize, 8, 24]);
        shape(k, n)
    } else {
        small_vec(ctx, &[0.0, 1.0, NINF, 2.5], 1, 3)
    };
    if !v.iter().any(|x| x.is_finite()) {
        return Ok(());
    }
    let depth = ctx.qt(4, 5);
    let idx: Vec<usize> = (0..ops().len()).collect();
    c01_run(ctx, v, depth, &idx)
}
fn c01_deep(ctx: &mut Ctx) -> R {
    let v = small_vec(ctx, &[0.0, 2.0], 2, 3);
    let depth = ctx.qt(7, 8);
    let idx = [0usize, 1, 2, 3, 5, 6, 8, 11, 13, 15, 17, 20, 22, 28, 30, 31];
    c01_run(ctx, v, depth, &idx)
}
fn c01_params(ctx: &mut Ctx) -> R {
    use Spec::*;
    let v = small_vec(ctx, &[0.0, 1.0, 2.5, NINF], 1, 4);
    let p = *ctx.pick(&["raw", "sorted", "softmaxed", "topk-ingested"]);
    let Some(mut l) = prepare(p, &v) else { return Ok(()) };
    let n = v.len();
    let mut hist = vec![];
    let sp = match ctx.choose(3) {
        0 => {
            let deltas: &[f32] = if n < 4 { &[-4.0, -0.25, 1.0, 0.0, NINF, 1e-7] } else { &[-4.0, -0.25, 1.0, NINF] };
            let mut b = vec![];
            for i in 0..n {
                let k = ctx.choose(deltas.len() + 1);
                if k > 0 {
                    b.push((i as u32, deltas[k - 1]));
                }
            }
            Bias(b)
        }
        1 => {
            let m = ctx.range(0, 4);
            hist = (0..m).map(|_| ctx.choose(3) as u32).collect();
            ctx.pick(&[
                Rep(1.5, 64),
                Rep(0.5, 2),
                FreqPres(0.75, 0.0, 64),
                FreqPres(-0.5, 0.25, 64),
                FreqPres(0.0, -3.0, 2),
                Seq { flat: 2.0, stack: 0.5, min_length: 2, tol: 0, merge: 1, last_n: 64 },
                Seq { flat: -2.0, stack: 0.0, min_length: 2, tol: 1, merge: 1, last_n: 64 },
            ])
            .clone()
        }
        _ => Temp(*ctx.pick(&[0.5, 1.0, 2.0, -1.0, -0.25, 0.0, -0.0, 1e-3, 1e-30, -1e-30, 1e30, -1e30, f32::MIN_POSITIVE, f32::EPSILON, 1e-45])),
    };
    if n > 0 && !v.iter().any(|x| x.is_finite()) {
        return Ok(());
    }
    let before = snap(&l);
    let r = sp.make().sample(&mut Res::toks(&hist), &mut l).map(|_| ()).map_err(|e| err_str(&e));
    ctx.step();
    ctx.state(&snap(&l));
    ctx.note(|| format!("{p} {v:?}, {sp:?} history {hist:?}: {r:?} {} sorted={} soft={}", short(&snap(&l).e), l.get_sorted(), l.get_softmax()));
    if l.iter().any(|x| x.logit.is_nan() || x.logit == PINF) || !l.iter().any(|x| x.logit.is_finite()) {
        return Ok(());
    }
    flags_truthful(&l).map_err(|m| format!("after {sp:?} with history {hist:?} on {p} {}: {m}", short(&before.e)))
}
fn c01_built(ctx: &mut Ctx) -> R {
    let sp = InputSpace { alpha: ALPHA, lo: 0, hi: 4, sizes: SIZES_Q, preps_small: 12, preps_shape: 12, odd: ctx.qt(3, 4) };
    let Some(i) = input(ctx, &sp) else { return Ok(()) };
    ctx.step();
    ctx.note(|| format!("{}: {} sorted={} soft={}", i.what, short(&i.s.e), i.s.sorted, i.s.soft));
    flags_truthful(&i.l).map_err(|m| format!("{}: {m}", i.what))
}

fn c01_copied(ctx: &mut Ctx) -> R {
    let v = small_vec(ctx, &[0.0, 1.0, 2.5, NINF], 0, 3);
    let p = *ctx.pick(PREPS);
    let Some(mut l) = prepare(p, &v) else { return Ok(()) };
    let b = snap(&l);
    let way = ctx.choose(4);
    let into: [&[f32]; 6] = [&[], &[1.0], &[2.0, 3.0], &[3.0, 2.0], &[0.5, 0.25, 4.0, 1.0], &[5.0, 4.0, 3.0, 2.0, 1.0, 0.0]];
    let other = if way == 0 || way == 2 {
        Logits::default()
    } else {
        let t = *ctx.pick(&into);
        let q = *ctx.pick(PREPS);
        let Some(o) = prepare(q, t) else { return Ok(()) };
        o
    };
    let o = snap(&other);
    let mut c = other;
    match way {
        0 => c = l.clone(),
        1 => c.clone_from(&l),
        2 => c = std::mem::take(&mut l),
        _ => std::mem::swap(&mut c, &mut l),
    }
    ctx.step();
    let what = format!("{p} {v:?}, copied in way {way} over {}", short(&o.e));
    ensure!(snap(&c).same(&b), "{what}: {} sorted={} softmax={} became {} sorted={} softmax={}", short(&b.e), b.sorted, b.soft, short(&snap(&c).e), c.get_sorted(), c.get_softmax());
    let left = match way {
        2 => snap(&Logits::default()),
        3 => o,
        _ => b.clone(),
    };
    ensure!(snap(&l).same(&left), "{what}: the source became {}", short(&snap(&l).e));
    let all = ops();
    let i = ctx.choose(all.len());
    let r = apply(i, &all[i], &mut c);
    ctx.step();
    ctx.note(|| format!("{what}, operation {i}: {r:?} {}", short(&snap(&c).e)));
    ctx.state(&(snap(&c), way));
    ensure!(snap(&l).same(&left), "{what}: operation {i} on the copy changed the source to {}", short(&snap(&l).e));
    if c.iter().any(|x| x.logit.is_finite()) && !c.iter().any(|x| x.logit.is_nan() || x.logit == PINF) {
        flags_truthful(&c).map_err(|m| format!("{what}, then operation {i}: {m}"))?;
    }
    // A second copy under the same operation gives the same.
    if way == 0 || way == 1 {
        let mut d = l.clone();
        let q = apply(i, &all[i], &mut d);
        ensure!(q == r && snap(&d).same(&snap(&c)), "{what}: operation {i} on the copy gives {}, on another {}", short(&snap(&c).e), short(&snap(&d).e));
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn bits(b: u32) -> f32 {
    f32::from_bits(b)
}
/// An iterator without a useful size hint that continues after its first None.
struct Hintless<'a> {
    v: &'a [f32],
    i: usize,
}
impl Iterator for Hintless<'_> {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        self.i += 1;
        if self.i - 1 == self.v.len() {
            return None;
        }
        if self.i - 1 > self.v.len() {
            return Some(42.0);
        }
        Some(self.v[self.i - 1])
    }
}
/// An iterator that ends at its end but gives a chosen size hint.
struct Hinted<'a> {
    it: std::slice::Iter<'a, f32>,
    kind: usize,
}
impl Iterator for Hinted<'_> {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        self.it.next().copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.kind {
            0 => (0, Some(usize::MAX)),
            1 => (n / 2, Some(1 << 62)),
            2 => (n, None),
            3 => (n.min(1), Some(n + 1)),
            4 => (n, Some(usize::MAX)),
            // Not what the iterator gives: allowed to be useless, not to change the result.
            5 => (0, Some(n / 2)),
            6 => (0, Some(0)),
            7 => (n / 2, Some(n / 2)),
            _ => (n + 3, Some(n + 3)),
        }
    }
}
const HINTS: usize = 9;
fn build(way: usize, v: &[f32]) -> Result<Logits, LogitsError> {
    match way {
        0 => Logits::try_from_iter(v.iter().copied()),
        1 => Logits::try_from(v.to_vec()),
        2 => Logits::try_from_iter(Hintless { v, i: 0 }),
        3 => Logits::try_from_iter(v.iter().copied().filter(|_| true)),
        4 => Logits::try_from_iter((0..u64::MAX).map(|i| v.get(i as usize).copied()).take_while(|x| x.is_some()).flatten()),
        5 => Logits::try_from_iter((0..usize::MAX).map_while(|i| v.get(i).copied())),
        _ => Logits::try_from_iter(Hinted { it: v.iter(), kind: way - 6 }),
    }
}
pub fn check_build(ctx: &mut Ctx, v: &[f32], way: usize) -> R {
    let r = build(way, v);
    ctx.step();
    let want = v.iter().position(|x| x.is_nan());
    ctx.note(|| format!("build {} values way {way}: {:?} -> {}", v.len(), &v[..v.len().min(8)], match &r { Ok(l) => format!("{} entries", l.len()), Err(e) => e.to_string() }));
    match (r, want) {
        (Err(LogitsError::InvalidLogit(p)), Some(w)) => ensure!(p == w, "reports NaN at {p}, the first is at {w}"),
        (Err(e), Some(w)) => return Err(format!("NaN at {w}: other error {e:?}")),
        (Err(e), None) => return Err(format!("building NaN-free values failed: {e:?}")),
        (Ok(l), Some(w)) => return Err(format!("NaN at position {w} of {} accepted ({} entries)", v.len(), l.len())),
        (Ok(l), None) => {
            ctx.state(&snap(&l));
            ensure!(l.len() == v.len(), "{} values gave {} entries", v.len(), l.len());
            for (i, x) in l.iter().enumerate() {
                ensure!(x.token_id == i as u32, "entry {i} has id {}", x.token_id);
                ensure!(x.logit.to_bits() == v[i].to_bits(), "entry {i} has logit {:?}, given {:?}", x.logit, v[i]);
            }
            ensure!(!l.get_sorted() && !l.get_softmax(), "fresh collection claims sorted={} softmax={}", l.get_sorted(), l.get_softmax());
        }
    }
    Ok(())
}
fn c02(ctx: &mut Ctx) -> R {
    let alpha = [
        1.5,
        -3.0,
        0.0,
        -0.0,
        NINF,
        PINF,
        f32::NAN,
        bits(0xffc0_0001),
        bits(0x7f80_0001),
        bits(1),
        f32::MAX,
    ];
    let hi = ctx.qt(5, 6);
    let v = small_vec(ctx, &alpha, 0, hi);
    if v.len() <= 3 {
        for way in 4..6 + HINTS {
            check_build(ctx, &v, way)?;
        }
    }
    let way = ctx.choose(4);
    check_build(ctx, &v, way)
}
fn c02_long(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(&[20usize, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70000]);
    let way = ctx.choose(6 + HINTS);
    let kind = *ctx.pick(&["shuf", "forbid3", "onehot"]);
    let mut v = shape(kind, n);
    let pos = [0, 1, 16, n / 3, n / 2, n - 2, n - 1];
    match ctx.choose(3) {
        0 => {}
        1 => {
            let p = *ctx.pick(&pos);
            v[p] = f32::NAN;
        }
        _ => {
            let p = *ctx.pick(&pos);
            let q = *ctx.pick(&pos);
            v[p] = f32::NAN;
            v[q] = bits(0xffff_ffff);
        }
    }
    check_build(ctx, &v, way)
}

// ------------------------------------------------------------------ C03

pub fn check_ingest(ctx: &mut Ctx, v: &[f32], k: usize, way: usize) -> R {
    let r = match way {
        0 => Logits::try_from_iter_top_k(v.iter().copied(), k),
        1 => Logits::try_from_iter_top_k(v.to_vec(), k),
        2 => Logits::try_from_iter_top_k(Hintless { v, i: 0 }, k),
        3 => Logits::try_from_iter_top_k((0..u64::MAX).map(|i| v.get(i as usize).copied()).take_while(|x| x.is_some()).flatten(), k),
        4 => Logits::try_from_iter_top_k((0..usize::MAX).map_while(|i| v.get(i).copied()), k),
        _ => Logits::try_from_iter_top_k(Hinted { it: v.iter(), kind: way - 5 }, k),
    };
    ctx.step();
    let l = r.map_err(|e| format!("ingestion of {:?} k={k} failed: {e}", &v[..v.len().min(10)]))?;
    let s = snap(&l);
    ctx.state(&s);
    let what = || format!("k={k} of {:?}{}: got {}", &v[..v.len().min(10)], if v.len() > 10 { ".." } else { "" }, short(&s.e));
    ctx.note(what);
    let mut fin: Vec<f32> = v.iter().copied().filter(|x| x.is_finite()).collect();
    fin.sort_by(|a, b| b.partial_cmp(a).unwrap());
    let m = k.min(fin.len());
    ensure!(s.e.len() == m, "expected {m} entries, {}", what());
    ensure!(non_increasing(&s.e), "not in non-increasing order: {}", what());
    let mut used = std::collections::HashSet::new();
    for i in 0..m {
        let (t, x) = s.e[i];
        ensure!(x == fin[i], "entry {i} has value {x}, the {i}-th largest finite value is {}: {}", fin[i], what());
        ensure!((t as usize) < v.len(), "id {t} out of range: {}", what());
        ensure!(v[t as usize].to_bits() == x.to_bits(), "id {t} carries value {x}, input has {}: {}", v[t as usize], what());
        ensure!(used.insert(t), "position {t} appears twice: {}", what());
    }
    if m > 0 {
        ensure!(s.sorted, "nonempty result does not report itself sorted: {}", what());
    }
    ensure!(!s.soft, "result claims softmax: {}", what());
    Ok(())
}
fn c03(ctx: &mut Ctx) -> R {
    let v = if ctx.flag() {
        let alpha = [f32::MAX, f32::MIN, bits(1), -bits(1), 1.0, 1.0 + f32::EPSILON, 1.0 - f32::EPSILON / 2.0, -1e38, f32::NAN, PINF];
        small_vec(ctx, &alpha, 1, 4)
    } else {
        let alpha = [1.0, 2.0, -1.0, f32::NAN, PINF, NINF, 0.0, -0.0];
        let hi = ctx.qt(6, 7);
        small_vec(ctx, &alpha, 0, hi)
    };
    let ks = [0usize, 1, 2, 3, 4, 5, 6, 1000, 1 << 40, 1 << 62, usize::MAX];
    // All k and iterator kinds for the same values in one execution.
    let ways = if v.len() <= 4 { 5 + HINTS } else { 3 };
    for k in ks {
        for way in 0..ways {
            check_ingest(ctx, &v, k, way)?;
        }
    }
    Ok(())
}
fn c03_long(ctx: &mut Ctx) -> R {
    let kind = *ctx.pick(SHAPES);
    let sizes: &[usize] = ctx.qt(&[7, 20, 21, 64, 100, 257, 1000, 3000], &[7, 20, 21, 64, 100, 257, 1000, 3000, 20000, 65537, 70000]);
    let n = *ctx.pick(sizes);
    let mut v = shape(kind, n);
    match ctx.choose(4) {
        0 => {}
        1 => {
            for i in (0..n).step_by(5) {
                v[i] = f32::NAN;
            }
        }
        2 => {
            for i in (1..n).step_by(4) {
                v[i] = PINF;
            }
            v[0] = NINF;
        }
        _ => {
            for i in 0..n / 2 {
                v[i] = NINF;
            }
        }
    }
    let ks = [1, 2, 3, 40, 500, n / 2, n - 1, n, n + 1, usize::MAX];
    let k = *ctx.pick(&ks);
    if n > 3000 && (500..=n + 1).contains(&k) && k > 500 && kind != "desc" {
        return Ok(()); // quadratic by design; covered at smaller sizes
    }
    let way = ctx.choose(if n <= 257 { 5 + HINTS } else { 5 });
    check_ingest(ctx, &v, k, way)
}

// ------------------------------------------------------------------ C04

pub fn c04_body(ctx: &mut Ctx, l0: &Logits, what: &str) -> R {
    let before = snap(l0);
    let mut a = l0.clone();
    a.ensure_sorted().map_err(|e| format!("{what}: sorting failed: {e}"))?;
    let s = snap(&a);
    ctx.step();
    ctx.state(&s);
    ensure!(permutation(&before.e, &s.e), "{what}: sorting changed the entries: {} -> {}", short(&before.e), short(&s.e));
    ensure!(non_increasing(&s.e), "{what}: sort result not in order: {}", short(&s.e));
    ensure!(s.sorted, "{what}: sorted flag not set after sorting");
    a.ensure_sorted().map_err(|e| format!("{what}: second sort failed: {e}"))?;
    ctx.step();
    ensure!(snap(&a).same(&s), "{what}: sorting is not idempotent");

    // softmax both from the sorted and from the original collection
    for from_sorted in [false, true] {
        let mut b = if from_sorted { a.clone() } else { l0.clone() };
        b.ensure_softmax().map_err(|e| format!("{what}: softmax failed: {e}"))?;
        let t = snap(&b);
        ctx.step();
        ctx.state(&t);
        ensure!(permutation(&before.e, &t.e), "{what}: softmax changed an id or logit: {} -> {}", short(&before.e), short(&t.e));
        ensure!(t.sorted && t.soft, "{what}: flags after softmax: sorted={} softmax={}", t.sorted, t.soft);
        flags_truthful(&b).map_err(|m| format!("{what}: {m}"))?;
        for (i, (id, x)) in t.e.iter().enumerate() {
            ensure!(*x != NINF || t.p[i] == 0.0, "{what}: forbidden token {id} has probability {}", t.p[i]);
        }
        b.ensure_softmax().map_err(|e| format!("{what}: second softmax failed: {e}"))?;
        ctx.step();
        ensure!(snap(&b).same(&t), "{what}: softmax is not idempotent");
        b.ensure_sorted().map_err(|e| format!("{what}: sort after softmax failed: {e}"))?;
        ensure!(snap(&b).same(&t), "{what}: sort after softmax changed something");
    }
    Ok(())
}
fn c04(ctx: &mut Ctx) -> R {
    let wide = ctx.flag();
    let (v, what, l) = if wide {
        let a = [0.0, 1000.0, NINF, -1000.0, 1e38, -1e38, 88.75, 1000.5];
        let hi = ctx.qt(5, 6);
        let v = small_vec(ctx, &a, 1, hi);
        if !v.iter().any(|x| x.is_finite()) {
            return Ok(());
        }
        let l = Logits::try_from_iter(v.iter().copied()).unwrap();
        (v.clone(), format!("{v:?}"), l)
    } else {
        let sp = InputSpace { alpha: ALPHA, lo: 0, hi: ctx.qt(5, 6), sizes: SIZES_T, preps_small: 12, preps_shape: 12, odd: ctx.qt(3, 4) };
        let Some(i) = input(ctx, &sp) else { return Ok(()) };
        (i.s.vals(), i.what, i.l)
    };
    ctx.note(|| what.clone());
    c04_body(ctx, &l, &what)?;
    if v.is_empty() {
        return Ok(());
    }
    // Initial order does not matter.
    let mut base = Logits::try_from_iter(v.iter().copied()).unwrap();
    base.ensure_softmax().map_err(|e| e.to_string())?;
    let mut rev = Logits::try_from_iter(v.iter().rev().copied()).unwrap();
    rev.ensure_softmax().map_err(|e| e.to_string())?;
    ctx.steps(2);
    let n = v.len();
    let by_id = |l: &Logits, flip: bool| -> Vec<f64> {
        let mut p = vec![0f64; n];
        for x in l.iter() {
            let i = if flip { n - 1 - x.token_id as usize } else { x.token_id as usize };
            p[i] = x.prob as f64;
        }
        p
    };
    let p = by_id(&base, false);
    let q = by_id(&rev, true);
    for i in 0..n {
        ensure!((p[i] - q[i]).abs() <= eps_for(n), "{what}: softmax of entry {i} depends on the initial order: {} vs {}", p[i], q[i]);
    }
    // Adding a constant does not matter.
    if !wide {
        for c in [64.0f32, -32.0, 1000.0] {
            let w: Vec<f32> = v.iter().map(|x| x + c).collect();
            let mut s = Logits::try_from_iter(w.iter().copied()).unwrap();
            s.ensure_softmax().map_err(|e| format!("{what} shifted by {c}: {e}"))?;
            ctx.step();
            let q = by_id(&s, false);
            for i in 0..n {
                let tol = eps_for(n) + 1.3e-7 * c.abs() as f64 * p[i].max(q[i]) * 2.0;
                ensure!((p[i] - q[i]).abs() <= tol, "{what}: adding {c} changed the probability of {i}: {} vs {}", p[i], q[i]);
            }
        }
    }
    Ok(())
}
/// Every level of the logits, with next to no spread, a small and a large one.
fn c04_levels(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(ctx.qt(&[1usize, 2, 5, 17, 100, 4097, 20000], &[1, 2, 5, 17, 100, 1000, 4097, 20000, 70000, 200000]));
    let level = *ctx.pick(&[
        0.0f32, 0.5, -0.5, 1e-30, -1e-30, 10.0, -10.0, 40.0, -40.0, 60.0, -60.0, 79.0, -79.0, 79.99, -79.99, 80.5, -80.5, 85.0, -85.0, 87.0, -87.5, 88.0,
        88.7, -88.0, 88.8, -88.8, 89.0, 100.0, -100.0, -103.5, -104.5, 1e3, -1e3, 1e4, -1e4, 1e7, -1e7, 1e30, -1e30, 3e38, -3e38, f32::MAX, f32::MIN,
    ]);
    let pat = ctx.choose(6);
    let prep = *ctx.pick(&["raw", "sorted", "topk-ingested"]);
    let v: Vec<f32> = (0..n)
        .map(|i| match pat {
            0 => level,
            1 => level - (i % 5) as f32 * 0.5,
            2 => level - (i as f32 / n as f32) * 12.0,
            3 => {
                if i % 3 == 1 {
                    NINF
                } else {
                    level
                }
            }
            4 => level - if i == n / 2 { 0.0 } else { 30.0 + (i % 3) as f32 * 30.0 },
            // the best one is far above the rest or next to it
            _ => {
                if i + 1 == n {
                    level
                } else {
                    -f32::MAX
                }
            }
        })
        .collect();
    if !v.iter().any(|x| x.is_finite()) || v.iter().any(|x| *x == PINF) {
        return Ok(());
    }
    let Some(l) = prepare(prep, &v) else { return Ok(()) };
    let what = format!("level {level} pattern {pat} ({n}) {prep}");
    ctx.note(|| what.clone());
    c04_body(ctx, &l, &what)
}
fn c04_long(ctx: &mut Ctx) -> R {
    let kind = *ctx.pick(SHAPES);
    let n = *ctx.pick(&[4096usize, 32000, 70000]);
    let p = *ctx.pick(&["raw", "softmax+temp2", "renumbered"]);
    let Some(l) = prepare(p, &shape(kind, n)) else { return Ok(()) };
    ctx.note(|| format!("{kind}({n}) {p}"));
    c04_body(ctx, &l, &format!("{kind}({n}) {p}"))
}
fn c04_nan(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(&[1usize, 2, 3, 4, 7, 16, 19, 20, 21, 22, 33, 40, 64, 100, 200]);
    let kind = *ctx.pick(SHAPES);
    let pos = [0, 1, n / 2, n.saturating_sub(2), n - 1];
    let p = (*ctx.pick(&pos)).min(n - 1);
    let extra = ctx.choose(4); // further NaNs
    let how = ctx.choose(3);
    let mut v = shape(kind, n);
    let mut bad = vec![p];
    match extra {
        1 => bad.push((p + 3) % n),
        2 => bad.extend((0..n).filter(|i| i % 2 == 0)),
        3 => bad.extend(0..n),
        _ => {}
    }
    bad.sort_unstable();
    bad.dedup();
    let mut l;
    match how {
        0 => {
            for b in &bad {
                v[*b] = NINF;
            }
            l = Logits::try_from_iter(v.iter().copied()).unwrap();
            let mut s = SampleFlatBias::new(bad.iter().map(|b| (*b as u32, PINF)));
            s.sample(&mut (), &mut l).map_err(|e| format!("bias failed: {e}"))?;
            ctx.step();
        }
        1 => {
            for b in &bad {
                v[*b] = PINF;
            }
            l = Logits::try_from_iter(v.iter().copied()).unwrap();
            let mut s = SampleFlatBias::new(bad.iter().map(|b| (*b as u32, NINF)));
            s.sample(&mut (), &mut l).map_err(|e| format!("bias failed: {e}"))?;
            ctx.step();
        }
        _ => {
            l = Logits::try_from_iter(v.iter().copied()).unwrap();
            for b in &bad {
                l[*b].logit = if *b % 2 == 0 { f32::NAN } else { -f32::NAN };
            }
        }
    }
    if !l.iter().any(|x| x.logit.is_nan()) {
        return Err("bias of +inf on -inf did not give NaN".into());
    }
    let b = snap(&l);
    ctx.state(&b);
    ctx.note(|| format!("{kind}({n}) NaN at {:?} how={how}", &bad[..bad.len().min(6)]));
    for soft in [false, true] {
        let mut x = l.clone();
        let r = if soft { x.ensure_softmax().map(|_| ()) } else { x.ensure_sorted().map(|_| ()) };
        ctx.step();
        ensure!(r.is_err(), "{kind}({n}) with NaN at {bad:?}: {} succeeded", if soft { "softmax" } else { "sort" });
        ensure!(!x.get_sorted(), "{kind}({n}) with NaN at {bad:?}: claims to be sorted after failing");
        ensure!(!x.get_softmax(), "{kind}({n}) with NaN at {bad:?}: claims softmax after failing");
        ensure!(permutation(&b.e, &snap(&x).e), "{kind}({n}) with NaN at {bad:?}: failing sort changed the entries");
    }
    Ok(())
}
