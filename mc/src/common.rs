//! Shared inputs, snapshots, reference arithmetic and probe objects.
#![allow(dead_code)]
use crate::engine::*;
pub use llm_samplers::configure::*;
pub use llm_samplers::prelude::*;
use rand::RngCore;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

pub const NINF: f32 = f32::NEG_INFINITY;
pub const PINF: f32 = f32::INFINITY;

// ------------------------------------------------------------------ snapshots

#[derive(Clone, Debug)]
pub struct Snap {
    pub e: Vec<(u32, f32)>,
    pub p: Vec<f32>,
    pub sorted: bool,
    pub soft: bool,
}
pub fn snap(l: &Logits) -> Snap {
    Snap {
        e: l.iter().map(|x| (x.token_id, x.logit)).collect(),
        p: l.iter().map(|x| x.prob).collect(),
        sorted: l.get_sorted(),
        soft: l.get_softmax(),
    }
}
impl Hash for Snap {
    fn hash<H: Hasher>(&self, h: &mut H) {
        for (i, (t, v)) in self.e.iter().enumerate() {
            h.write_u64(((*t as u64) << 32) | v.to_bits() as u64);
            h.write_u32(self.p[i].to_bits());
        }
        h.write_u32(self.sorted as u32 * 2 + self.soft as u32);
        h.write_usize(self.e.len());
    }
}
impl Snap {
    /// Bitwise equality of everything, including stored probabilities.
    pub fn same(&self, o: &Snap) -> bool {
        self.same_entries(o)
            && self.sorted == o.sorted
            && self.soft == o.soft
            && self.p.len() == o.p.len()
            && self.p.iter().zip(&o.p).all(|(a, b)| a.to_bits() == b.to_bits())
    }
    pub fn same_entries(&self, o: &Snap) -> bool {
        same_e(&self.e, &o.e)
    }
    pub fn vals(&self) -> Vec<f32> {
        self.e.iter().map(|x| x.1).collect()
    }
}
pub fn same_e(a: &[(u32, f32)], b: &[(u32, f32)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.to_bits() == y.1.to_bits())
}
pub fn short(e: &[(u32, f32)]) -> String {
    if e.len() <= 12 {
        format!("{e:?}")
    } else {
        format!("{} entries {:?}..", e.len(), &e[..12])
    }
}

/// The same multiset of (id, logit)?
pub fn permutation(a: &[(u32, f32)], b: &[(u32, f32)]) -> bool {
    let k = |v: &[(u32, f32)]| {
        let mut x: Vec<(u32, u32)> = v.iter().map(|(t, l)| (*t, l.to_bits())).collect();
        x.sort_unstable();
        x
    };
    a.len() == b.len() && k(a) == k(b)
}
/// Is `b` a sub-multiset of `a` (ids and logits unaltered)?
pub fn sub_collection(a: &[(u32, f32)], b: &[(u32, f32)]) -> R {
    let mut x: Vec<(u32, u32)> = a.iter().map(|(t, l)| (*t, l.to_bits())).collect();
    let mut y: Vec<(u32, u32)> = b.iter().map(|(t, l)| (*t, l.to_bits())).collect();
    x.sort_unstable();
    y.sort_unstable();
    let mut i = 0;
    for w in &y {
        while i < x.len() && x[i] < *w {
            i += 1;
        }
        if i >= x.len() || x[i] != *w {
            return Err(format!(
                "entry (id {}, logit {}) of the result is not (or not that often) in the input {} -> {}",
                w.0,
                f32::from_bits(w.1),
                short(a),
                short(b)
            ));
        }
        i += 1;
    }
    Ok(())
}
pub fn non_increasing(v: &[(u32, f32)]) -> bool {
    v.windows(2).all(|w| w[0].1 >= w[1].1)
}
pub fn desc(v: &[f32]) -> Vec<f32> {
    let mut x = v.to_vec();
    x.sort_by(|a, b| b.partial_cmp(a).unwrap());
    x
}
/// The survivors' values are the largest `m` values of the input.
pub fn top_values(input: &[(u32, f32)], kept: &[(u32, f32)]) -> R {
    let a = desc(&input.iter().map(|x| x.1).collect::<Vec<_>>());
    let b = desc(&kept.iter().map(|x| x.1).collect::<Vec<_>>());
    for i in 0..b.len() {
        ensure!(
            a[i] == b[i],
            "kept entries are not the highest-ranked ones: input {} kept {}",
            short(input),
            short(kept)
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ reference arithmetic

/// f64 softmax by entry order; requires a finite maximum.
pub fn softmax64(v: &[f32]) -> Vec<f64> {
    let m = v.iter().cloned().fold(NINF, f32::max) as f64;
    let ex: Vec<f64> = v.iter().map(|x| (*x as f64 - m).exp()).collect();
    let s: f64 = ex.iter().sum();
    ex.iter().map(|x| x / s).collect()
}
/// Descending probabilities of the collection.
pub fn probs_desc(v: &[f32]) -> Vec<f64> {
    softmax64(&desc(v))
}
pub fn eps_for(n: usize) -> f64 {
    2e-6 + n as f64 * 1.3e-7
}
/// Softmax of these values is exact in f32: equal finite values, 2^m of them.
pub fn dyadic(v: &[f32]) -> bool {
    let m = v.iter().cloned().fold(NINF, f32::max);
    if !m.is_finite() {
        return false;
    }
    let fin = v.iter().filter(|x| **x == m).count();
    fin.is_power_of_two() && v.iter().all(|x| *x == m || *x == NINF)
}
pub fn probs_close(p: &[f32], q: &[f64]) -> R {
    let n = q.len();
    let tol = eps_for(n);
    for i in 0..n {
        // Relative error for sizeable probabilities, absolute below.
        let d = (p[i] as f64 - q[i]).abs();
        ensure!(
            d <= tol * q[i].max(1e-3) * 4.0 + 1e-30,
            "stored probability {} of entry {} differs from the softmax {} (n={})",
            p[i],
            i,
            q[i],
            n
        );
    }
    Ok(())
}

/// Flags truthful for the current content (C01 and everything that relies on it).
pub fn flags_truthful(l: &Logits) -> R {
    let s = snap(l);
    if s.e.is_empty() {
        return Ok(());
    }
    if s.sorted {
        ensure!(non_increasing(&s.e), "collection claims to be sorted but is {}", short(&s.e));
    }
    if s.soft {
        ensure!(s.sorted || non_increasing(&s.e), "softmax claimed on an unsorted collection");
        ensure!(s.sorted, "softmax claimed without the sorted claim: {}", short(&s.e));
        let vals = s.vals();
        if vals.iter().cloned().fold(NINF, f32::max).is_finite() {
            let q = softmax64(&vals);
            for p in &s.p {
                ensure!((0.0..=1.0).contains(p), "probability {p} outside [0,1]");
            }
            let sum: f64 = s.p.iter().map(|x| *x as f64).sum();
            ensure!(
                (sum - 1.0).abs() <= eps_for(s.e.len()) * 4.0,
                "softmax claimed but the probabilities sum to {sum}: {}",
                short(&s.e)
            );
            probs_close(&s.p, &q).map_err(|m| format!("softmax claimed but {m}: {}", short(&s.e)))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ RNG and resources

#[derive(Debug, Default)]
pub struct RngLog {
    pub calls: usize,
}
/// Returns the scripted word on every draw (the last one for ever).
#[derive(Debug, Clone)]
pub struct ScriptRng {
    pub words: Vec<u32>,
    pub pos: usize,
    pub drawn: usize,
}
impl ScriptRng {
    pub fn new(words: &[u32]) -> Self {
        ScriptRng { words: words.to_vec(), pos: 0, drawn: 0 }
    }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        self.drawn += 1;
        if self.drawn > 64 {
            // Escape hatch for rejection loops: leave the constant word.
            return (self.drawn as u32).wrapping_mul(0x9E37_79B9) ^ 0x5bd1_e995;
        }
        let w = self.words[self.pos.min(self.words.len() - 1)];
        self.pos += 1;
        w
    }
    fn next_u64(&mut self) -> u64 {
        let a = self.next_u32() as u64;
        (a << 32) | a
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let w = self.next_u32().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// Middle of grid cell `i` of `n` as a 32-bit word.
pub fn grid_word(i: usize, n: usize) -> u32 {
    let cell = (1u64 << 32) / n as u64;
    (i as u64 * cell + cell / 2) as u32
}

pub const ERRS: usize = 8;
/// Every kind of error a sampler or resource can report.
pub fn err_of(kind: usize, tag: &str) -> SamplerError {
    match kind % ERRS {
        0 => SamplerError::InternalError(tag.into()),
        1 => SamplerError::MissingResource(tag.into()),
        2 => SamplerError::LogitsError(LogitsError::InvalidLogit(tag.len())),
        3 => SamplerError::LogitsError(LogitsError::InternalError(tag.into())),
        4 => SamplerError::RandError(rand::Error::new(tag.to_string())),
        5 => SamplerError::RandWeightedError(rand::distributions::WeightedError::AllWeightsZero),
        6 => SamplerError::Interrupted(Interruption::NewTokensGvien(vec![])),
        _ => SamplerError::Interrupted(Interruption::NewTokensGvien(vec![tag.len() as u32, 2])),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    None,
    Missing,
    Fails,
}
/// Resources with scripted faults and access counters.
#[derive(Debug)]
pub struct Res {
    pub rng: Option<ScriptRng>,
    pub tokens: Option<Vec<u32>>,
    pub rng_fault: Fault,
    pub tok_fault: Fault,
    /// Kind of error of a failing access; from `ERRS` on, the access runs the
    /// closure and fails only then; from twice `ERRS` on, only the first access fails.
    pub err: usize,
    pub rng_calls: usize,
    pub tok_calls: std::cell::Cell<usize>,
}
impl Res {
    pub fn new(words: &[u32], tokens: &[u32]) -> Self {
        Res {
            rng: Some(ScriptRng::new(words)),
            tokens: Some(tokens.to_vec()),
            rng_fault: Fault::None,
            tok_fault: Fault::None,
            err: 0,
            rng_calls: 0,
            tok_calls: std::cell::Cell::new(0),
        }
    }
    pub fn toks(tokens: &[u32]) -> Self {
        Res::new(&[0x8000_0000], tokens)
    }
    pub fn words(w: &[u32]) -> Self {
        Res::new(w, &[])
    }
}
pub const RNG_FAIL: &str = "scripted rng failure";
pub const TOK_FAIL: &str = "scripted last_tokens failure";
impl HasSamplerResources for Res {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        self.rng_calls += 1;
        match (self.rng_fault, self.rng.as_mut()) {
            (Fault::Fails, have) if self.err < 2 * ERRS || self.rng_calls < 2 => {
                if let (true, Some(r)) = (self.err / ERRS == 1, have) {
                    fun(r)
                }
                Err(err_of(self.err, RNG_FAIL))
            }
            (Fault::None | Fault::Fails, Some(r)) => {
                fun(r);
                Ok(())
            }
            _ => Err(SamplerError::MissingResource("rng".into())),
        }
    }
    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<u32>)) -> Result<(), SamplerError> {
        self.tok_calls.set(self.tok_calls.get() + 1);
        match (self.tok_fault, self.tokens.as_ref()) {
            (Fault::Fails, have) if self.err < 2 * ERRS || self.tok_calls.get() < 2 => {
                if let (true, Some(t)) = (self.err / ERRS == 1, have) {
                    fun(t)
                }
                Err(err_of(self.err, TOK_FAIL))
            }
            (Fault::None | Fault::Fails, Some(t)) => {
                fun(t);
                Ok(())
            }
            _ => Err(SamplerError::MissingResource("last_tokens".into())),
        }
    }
    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<u32>)) -> Result<(), SamplerError> {
        self.tok_calls.set(self.tok_calls.get() + 1);
        match (self.tok_fault, self.tokens.as_mut()) {
            (Fault::Fails, have) if self.err < 2 * ERRS || self.tok_calls.get() < 2 => {
                if let (true, Some(t)) = (self.err / ERRS == 1, have) {
                    fun(t)
                }
                Err(err_of(self.err, TOK_FAIL))
            }
            (Fault::None | Fault::Fails, Some(t)) => {
                fun(t);
                Ok(())
            }
            _ => Err(SamplerError::MissingResource("last_tokens".into())),
        }
    }
}

// ------------------------------------------------------------------ inputs

pub const SHAPES: &[&str] = &[
    "asc", "desc", "shuf", "ties", "two", "peak", "forbid3", "zipf", "flat4", "steep", "onehot", "plateaus",
];
/// Deterministic permutation of 0..n.
pub fn perm(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let mut s: u64 = 0x1234_5678_9abc_def1;
    for i in (1..n).rev() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        v.swap(i, (s % (i as u64 + 1)) as usize);
    }
    v
}
pub fn shape(kind: &str, n: usize) -> Vec<f32> {
    let nf = n.max(1) as f32;
    let at = |i: usize| -> f32 {
        match kind {
            "asc" => i as f32 * 12.0 / nf,
            "desc" => (n - i) as f32 * 12.0 / nf,
            "ties" => 1.25,
            "two" => {
                if i % 2 == 0 {
                    2.0
                } else {
                    0.5
                }
            }
            "peak" => {
                if i == n / 2 {
                    6.0
                } else {
                    0.0
                }
            }
            "forbid3" => {
                if i % 3 == 0 {
                    NINF
                } else {
                    (i % 7) as f32 * 0.75
                }
            }
            "zipf" => -((i + 1) as f32).ln() * 1.3,
            "flat4" => {
                if i < 4 {
                    3.0
                } else {
                    NINF
                }
            }
            "steep" => -(i.min(20) as f32) * 1.1,
            "onehot" => {
                if i + 1 == n {
                    0.0
                } else {
                    NINF
                }
            }
            "plateaus" => -((i / 4) as f32) * 0.7,
            _ => 0.0,
        }
    };
    if kind == "shuf" {
        return perm(n).into_iter().map(|i| i as f32 * 9.0 / nf - 4.0).collect();
    }
    (0..n).map(at).collect()
}

/// All vectors over `alpha` of length lo..=hi.
pub fn small_vec(ctx: &mut Ctx, alpha: &[f32], lo: usize, hi: usize) -> Vec<f32> {
    let n = ctx.range(lo, hi);
    (0..n).map(|_| *ctx.pick(alpha)).collect()
}

pub const PREPS: &[&str] = &[
    "raw",
    "sorted",
    "softmaxed",
    "softmax+temp2",
    "softmax+bias",
    "topk-ingested",
    "softmax+topk(n-1)",
    "locally-typical",
    "renumbered",
    "softmax+temp-1",
    "manual-edit",
    "freqpres",
];

/// Bring the values into a collection along one of the ways a collection comes to be.
/// None: this preparation does not apply to these values.
pub fn prepare(which: &str, v: &[f32]) -> Option<Logits> {
    let ok = v.iter().any(|x| x.is_finite());
    let mut l = Logits::try_from_iter(v.iter().copied()).ok()?;
    let go = |l: &mut Logits, s: &mut dyn Sampler| -> bool { s.sample(&mut Res::toks(&[0, 1, 1]), l).is_ok() };
    match which {
        "raw" => {}
        "sorted" => {
            l.ensure_sorted().ok()?;
        }
        "softmaxed" => {
            if !ok {
                return None;
            }
            l.ensure_softmax().ok()?;
        }
        "softmax+temp2" => {
            if !ok {
                return None;
            }
            l.ensure_softmax().ok()?;
            if !go(&mut l, &mut SampleTemperature::new(0.5)) {
                return None;
            }
        }
        "softmax+bias" => {
            if !ok || v.len() < 2 {
                return None;
            }
            l.ensure_softmax().ok()?;
            if !go(&mut l, &mut SampleFlatBias::new([(v.len() as u32 - 1, 2.5)])) {
                return None;
            }
        }
        "topk-ingested" => {
            if !ok {
                return None;
            }
            l = Logits::try_from_iter_top_k(v.iter().copied(), v.len()).ok()?;
        }
        "softmax+topk(n-1)" => {
            if !ok || v.len() < 3 {
                return None;
            }
            l.ensure_softmax().ok()?;
            if !go(&mut l, &mut SampleTopK::new(v.len() - 1, 1)) {
                return None;
            }
        }
        "locally-typical" => {
            if !ok || v.len() < 2 {
                return None;
            }
            if !go(&mut l, &mut SampleLocallyTypical::new(0.9, 1)) {
                return None;
            }
        }
        "renumbered" => {
            let n = l.len();
            for (i, x) in l.iter_mut().enumerate() {
                x.token_id = 2_000_000 - 7 * i as u32;
            }
            l.reverse();
            if n < 2 {
                return None;
            }
        }
        "softmax+temp-1" => {
            if !ok || v.iter().any(|x| *x == NINF) {
                return None;
            }
            l.ensure_softmax().ok()?;
            if !go(&mut l, &mut SampleTemperature::new(-1.0)) {
                return None;
            }
        }
        "manual-edit" => {
            if !ok || v.len() < 2 {
                return None;
            }
            l.ensure_softmax().ok()?;
            let n = l.len();
            l[n - 1].logit = 1.5;
            l.set_sorted(false).set_softmax(false);
        }
        "freqpres" => {
            if !ok || v.len() < 2 {
                return None;
            }
            l.ensure_softmax().ok()?;
            if !go(&mut l, &mut SampleFreqPresence::new(0.75, 0.25, 8)) {
                return None;
            }
        }
        _ => unreachable!(),
    }
    if l.is_empty() || !l.iter().any(|x| x.logit.is_finite()) {
        return if v.is_empty() && which == "raw" { Some(l) } else { None };
    }
    Some(l)
}

pub struct In {
    pub l: Logits,
    pub s: Snap,
    pub what: String,
    /// The values differ by so little that single precision may not tell them apart.
    pub near: bool,
}

pub struct InputSpace {
    pub alpha: &'static [f32],
    pub lo: usize,
    pub hi: usize,
    pub sizes: &'static [usize],
    pub preps_small: usize,
    pub preps_shape: usize,
    /// Also all vectors up to this length over each of the `ODD` alphabets.
    pub odd: usize,
}

/// Values next to each other, far apart, and barely different from zero.
pub const ODD: &[&[f32]] = &[
    &[0.0, 1.0, 1.000_000_1, 0.999_999_94, 1e-9, -1e-9, -0.0],
    &[0.0, -200.0, 3000.0, -3000.0, f32::MAX, f32::MIN, NINF, -90.0],
    &[1e-40, 0.0, -1e-40, f32::MIN_POSITIVE, 8388608.0, 8388607.0],
];
pub const ALPHA: &[f32] = &[0.0, 1.0, NINF, 3.0, -2.0, 0.5];
pub const ALPHA5: &[f32] = &[0.0, 1.0, NINF, 3.0, 0.5];
pub const ALPHA4: &[f32] = &[0.0, 1.0, NINF, 2.5];
pub const SIZES_Q: &[usize] = &[1, 2, 3, 5, 8, 16, 17, 20, 21, 33, 40, 64, 100, 129, 256, 400];
pub const SIZES_T: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 20, 21, 31, 32, 33, 40, 41, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255,
    256, 257, 400, 500, 512, 513, 777, 1000, 1024,
];

/// Choose an input collection: either every small vector over the alphabet, or a shape,
/// through every preparation. Returns None when the combination does not exist.
pub fn input(ctx: &mut Ctx, sp: &InputSpace) -> Option<In> {
    let kind = ctx.choose(if sp.odd > 0 { 3 } else { 2 });
    let small = kind != 1;
    let mut near = false;
    let (v, d) = if kind == 0 {
        let v = small_vec(ctx, sp.alpha, sp.lo, sp.hi);
        let d = format!("{v:?}");
        (v, d)
    } else if kind == 2 {
        let g = ctx.choose(ODD.len());
        near = g != 1;
        let v = small_vec(ctx, ODD[g], sp.lo.max(1), sp.odd);
        let d = format!("{v:?}");
        (v, d)
    } else {
        let k = *ctx.pick(SHAPES);
        let n = *ctx.pick(sp.sizes);
        (shape(k, n), format!("{k}({n})"))
    };
    let np = if small { sp.preps_small } else { sp.preps_shape };
    let p = PREPS[ctx.choose(np.min(PREPS.len()))];
    if !v.is_empty() && !v.iter().any(|x| x.is_finite()) {
        return None;
    }
    let l = prepare(p, &v)?;
    if kind == 2 && l.iter().any(|x| x.logit == PINF || x.logit.is_nan()) {
        return None;
    }
    let s = snap(&l);
    ctx.state(&s);
    Some(In { l, s, what: format!("{d} prepared as {p}"), near })
}

/// A collection the size of a large vocabulary.
pub fn vocabulary(ctx: &mut Ctx) -> Option<(Logits, String)> {
    let kind = *ctx.pick(SHAPES);
    let n = *ctx.pick(ctx.qt(&[65537usize, 70001], &[65537, 70001, 131072, 200000]));
    let p = *ctx.pick(&["raw", "softmaxed", "renumbered", "softmax+temp2"]);
    let l = prepare(p, &shape(kind, n))?;
    ctx.state(&(kind, n, p));
    Some((l, format!("{kind}({n}) prepared as {p}")))
}

// ------------------------------------------------------------------ sampler specs

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    TopK(usize, usize),
    TopP(f32, usize),
    MinP(f32, usize),
    TopA(f32, f32, usize),
    TailFree(f32, usize),
    Typical(f32, usize),
    Greedy,
    Rand,
    Miro1 { n_vocab: usize, tau: f32, eta: f32, m: usize, mu: Option<f32> },
    Miro2 { tau: f32, eta: f32, mu: Option<f32> },
    Rep(f32, usize),
    FreqPres(f32, f32, usize),
    Seq { flat: f32, stack: f32, min_length: usize, tol: usize, merge: usize, last_n: usize },
    Bias(Vec<(u32, f32)>),
    Temp(f32),
}
impl Spec {
    pub fn make(&self) -> Box<dyn Sampler> {
        match self.clone() {
            Spec::TopK(k, m) => Box::new(SampleTopK::new(k, m)),
            Spec::TopP(p, m) => Box::new(SampleTopP::new(p, m)),
            Spec::MinP(p, m) => Box::new(SampleMinP::new(p, m)),
            Spec::TopA(a, b, m) => Box::new(SampleTopA::new(a, b, m)),
            Spec::TailFree(z, m) => Box::new(SampleTailFree::new(z, m)),
            Spec::Typical(p, m) => Box::new(SampleLocallyTypical::new(p, m)),
            Spec::Greedy => Box::new(SampleGreedy::new()),
            Spec::Rand => Box::new(SampleRandDistrib::new()),
            Spec::Miro1 { .. } => Box::new(self.miro1()),
            Spec::Miro2 { .. } => Box::new(self.miro2()),
            Spec::Rep(p, n) => Box::new(SampleRepetition::new(p, n)),
            Spec::FreqPres(f, p, n) => Box::new(SampleFreqPresence::new(f, p, n)),
            Spec::Seq { flat, stack, min_length, tol, merge, last_n } => {
                Box::new(SampleSeqRepetition::new(flat, stack, min_length, tol, merge, last_n))
            }
            Spec::Bias(b) => Box::new(SampleFlatBias::new(b)),
            Spec::Temp(t) => Box::new(SampleTemperature::new(t)),
        }
    }
    pub fn miro1(&self) -> SampleMirostat1 {
        let Spec::Miro1 { n_vocab, tau, eta, m, mu } = self.clone() else { panic!() };
        let s = SampleMirostat1::new(n_vocab, tau, eta).m(m);
        match mu {
            Some(x) => s.mu(x),
            None => s,
        }
    }
    pub fn miro2(&self) -> SampleMirostat2 {
        let Spec::Miro2 { tau, eta, mu } = self.clone() else { panic!() };
        let s = SampleMirostat2::new(tau, eta);
        match mu {
            Some(x) => s.mu(x),
            None => s,
        }
    }
    pub fn selects(&self) -> bool {
        matches!(self, Spec::Greedy | Spec::Rand | Spec::Miro1 { .. } | Spec::Miro2 { .. })
    }
    /// A sampler of the same kind held as a configurable object.
    pub fn make_cfg(&self) -> Box<dyn BuildableSampler<usize, f32>> {
        match self.clone() {
            Spec::TopK(k, m) => Box::new(SampleTopK::new(k, m)),
            Spec::TopP(p, m) => Box::new(SampleTopP::new(p, m)),
            Spec::MinP(p, m) => Box::new(SampleMinP::new(p, m)),
            Spec::TopA(a, b, m) => Box::new(SampleTopA::new(a, b, m)),
            Spec::TailFree(z, m) => Box::new(SampleTailFree::new(z, m)),
            Spec::Typical(p, m) => Box::new(SampleLocallyTypical::new(p, m)),
            Spec::Greedy => Box::new(SampleGreedy::new()),
            Spec::Rand => Box::new(SampleRandDistrib::new()),
            Spec::Miro1 { .. } => Box::new(self.miro1()),
            Spec::Miro2 { .. } => Box::new(self.miro2()),
            Spec::Rep(p, n) => Box::new(SampleRepetition::new(p, n)),
            Spec::FreqPres(f, p, n) => Box::new(SampleFreqPresence::new(f, p, n)),
            Spec::Seq { flat, stack, min_length, tol, merge, last_n } => {
                Box::new(SampleSeqRepetition::new(flat, stack, min_length, tol, merge, last_n))
            }
            Spec::Bias(b) => Box::new(SampleFlatBias::new(b)),
            Spec::Temp(t) => Box::new(SampleTemperature::new(t)),
        }
    }
}

pub fn err_str(e: &SamplerError) -> String {
    format!("{e:?}").lines().next().unwrap_or("").to_string()
}

// ------------------------------------------------------------------ probe samplers

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    /// Do nothing.
    Pass,
    /// Truncate to one entry less (if possible).
    Drop,
    /// Add one to every logit.
    Shift,
    /// Report a token.
    Tok(u32),
    /// Fail.
    Fail,
    /// Change the logits, then fail.
    ShiftFail,
    /// Empty the collection, report a token.
    ClearTok(u32),
    /// Add an entry, report it.
    Grow,
    /// Turn the collection around, take back what it claims.
    Turn,
    /// Empty the collection, then fail.
    ClearFail,
}

pub type Log = Arc<Mutex<Vec<String>>>;

/// Records every call with what it saw.
#[derive(Debug, Clone)]
pub struct Probe {
    pub id: usize,
    pub act: Act,
    pub log: Log,
    pub calls: usize,
    pub tok: Option<u32>,
    /// Kind of error when failing.
    pub err: usize,
}
impl Probe {
    pub fn new(id: usize, act: Act, log: &Log) -> Self {
        Probe { id, act, log: log.clone(), calls: 0, tok: None, err: 0 }
    }
    fn push(&self, s: String) {
        self.log.lock().unwrap().push(s);
    }
}
pub fn res_digest(res: &mut dyn HasSamplerResources) -> String {
    let mut t = None;
    let _ = res.with_last_tokens(&mut |x| t = Some(x.clone()));
    format!("{t:?}")
}
impl Sampler for Probe {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        let d = res_digest(res);
        let _ = res.with_last_tokens_mut(&mut |t| t.push(900 + self.id as u32));
        self.push(format!("prepend#{} {}", self.id, d));
    }
    fn sample<'a>(
        &mut self,
        res: &mut dyn HasSamplerResources,
        logits: &'a mut Logits,
    ) -> Result<&'a mut Logits, SamplerError> {
        self.calls += 1;
        let d = res_digest(res);
        let mut w = 0;
        let _ = res.with_rng_mut(&mut |r| w = r.next_u32());
        self.push(format!(
            "sample#{} call{} sees {:?} sorted={} soft={} res={} word={}",
            self.id,
            self.calls,
            snap(logits).e,
            logits.get_sorted(),
            logits.get_softmax(),
            d,
            w
        ));
        self.tok = None;
        match self.act {
            Act::Pass => {}
            Act::Drop => {
                logits.pop();
            }
            Act::Shift | Act::ShiftFail => logits.iter_mut().for_each(|l| l.logit += 1.0),
            Act::Tok(t) => self.tok = Some(t),
            Act::Fail => {}
            Act::ClearTok(t) => {
                logits.clear();
                self.tok = Some(t);
            }
            Act::Grow => {
                let id = 600 + self.calls as u32;
                logits.push(Logit { token_id: id, logit: 2.25, prob: 0.5 });
                self.tok = Some(id);
            }
            Act::Turn => {
                logits.reverse();
                logits.set_sorted(false).set_softmax(false);
            }
            Act::ClearFail => logits.clear(),
        }
        if matches!(self.act, Act::Fail | Act::ShiftFail | Act::ClearFail) {
            return Err(err_of(self.err, &format!("probe#{} failed", self.id)));
        }
        Ok(logits)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.tok
    }
}

/// A long periodic history: every cycle of 1 to `p` events out of `n`, repeated to `len`.
pub fn periodic(ctx: &mut Ctx, n: usize, p: usize, len: usize) -> Vec<usize> {
    let m = ctx.range(1, p);
    let c: Vec<usize> = (0..m).map(|_| ctx.choose(n)).collect();
    (0..len).map(|i| c[i % m]).collect()
}

// ------------------------------------------------------------------ samplers used before

/// What a sampler is called on, `reps` times, before the call that is checked.
#[derive(Clone, Debug)]
pub struct Warm {
    /// Instead of a variation of the checked collection.
    pub other: Option<Logits>,
    pub coll: usize,
    pub hist: usize,
    pub at: usize,
    pub claims: usize,
    pub reps: usize,
}
thread_local! {
    static WARM: std::cell::RefCell<Option<Warm>> = const { std::cell::RefCell::new(None) };
}
/// While it lives, the checks of this thread use every sampler beforehand.
pub struct Warmed;
impl Drop for Warmed {
    fn drop(&mut self) {
        WARM.with(|w| *w.borrow_mut() = None);
    }
}
pub fn set_warm(w: Warm) -> Warmed {
    WARM.with(|x| *x.borrow_mut() = Some(w));
    Warmed
}
pub fn warming() -> bool {
    WARM.with(|w| w.borrow().is_some())
}
pub const COLL_KINDS: usize = 14;
pub const HIST_KINDS: usize = 10;
/// A collection that is easily mistaken for `l`.
pub fn vary_coll(l: &Logits, kind: usize, at: usize) -> Logits {
    let mut x = l.clone();
    let n = x.len();
    if kind == 0 {
        return x;
    }
    if n == 0 {
        return Logits::try_from_iter([1.0f32, 2.0]).unwrap();
    }
    let i = at.min(n - 1);
    let j = (i + 1) % n;
    match kind {
        1 => x[i].logit += 0.5,
        2 => {
            let t = x[i].token_id;
            x[i].token_id = x[j].token_id;
            x[j].token_id = t;
            return x;
        }
        3 => {
            x[i].token_id ^= 1 << 20;
            return x;
        }
        4 => {
            let t = x[i].logit;
            x[i].logit = x[j].logit;
            x[j].logit = t;
        }
        5 => {
            x[i].logit += 0.25;
            x[j].logit -= 0.25;
        }
        6 => x[i].logit = NINF,
        7 => x.reverse(),
        8 => x.iter_mut().for_each(|e| e.logit += 1.5),
        9 => {
            x.remove(i);
        }
        10 => {
            let mut e = x[i].clone();
            e.token_id ^= 1 << 19;
            x.insert(i, e);
        }
        11 => x.clear(),
        12 => x.iter_mut().for_each(|e| e.logit = if e.logit == NINF { NINF } else { -e.logit }),
        _ => x.truncate(1),
    }
    x.set_sorted(false).set_softmax(false);
    x
}
/// A history that is easily mistaken for `h`.
pub fn vary_hist(h: &[u32], kind: usize, at: usize) -> Vec<u32> {
    let mut x = h.to_vec();
    let n = x.len();
    if kind == 0 {
        return x;
    }
    if n == 0 {
        return vec![1, 2, 1, 2];
    }
    let i = at.min(n - 1);
    match kind {
        1 => x[i] ^= 1,
        2 => x.swap(i, (i + 1) % n),
        3 => x.reverse(),
        4 => {
            x.remove(0);
        }
        5 => x.insert(0, h[i]),
        6 => x.clear(),
        7 => x.rotate_left(i.max(1) % n),
        8 => x.push(h[i]),
        _ => {
            x.pop();
        }
    }
    x
}
/// Use the sampler as the current [Warm] says, on look-alikes of what it will be checked on.
pub fn warm_up(s: &mut dyn Sampler, l: &Logits, h: &[u32]) {
    let Some(w) = WARM.with(|w| w.borrow().clone()) else { return };
    for r in 0..w.reps {
        let mut x = match &w.other {
            Some(o) => o.clone(),
            None => vary_coll(l, w.coll, w.at),
        };
        if x.iter().any(|e| e.logit.is_finite()) && !x.iter().any(|e| e.logit == PINF || e.logit.is_nan()) {
            match w.claims {
                1 => {
                    let _ = x.ensure_sorted();
                }
                2 => {
                    let _ = x.ensure_softmax();
                }
                _ => {}
            }
        }
        let mut res = Res::new(&[[0x3000_0000u32, 0xc000_0000, 0x7000_0000][r % 3]], &vary_hist(h, w.hist, w.at));
        let _ = s.sample_token(&mut res, &mut x);
    }
}
/// The look-alike history that the sampler is warmed up on.
pub fn warm_hist(h: &[u32]) -> Vec<u32> {
    WARM.with(|w| w.borrow().as_ref().map_or(h.to_vec(), |w| vary_hist(h, w.hist, w.at)))
}
/// Eight probabilities that are powers of two and add up to one, in every possible way.
pub fn dyadic_parts() -> Vec<Vec<u32>> {
    let mut out = vec![];
    // Split one of the parts of a smaller one in two.
    let mut cur: std::collections::BTreeSet<Vec<u32>> = [vec![0u32]].into_iter().collect();
    for _ in 1..8 {
        let mut next = std::collections::BTreeSet::new();
        for v in &cur {
            for i in 0..v.len() {
                let mut w = v.clone();
                let e = w.remove(i) + 1;
                w.extend([e, e]);
                w.sort_unstable();
                next.insert(w);
            }
        }
        cur = next;
    }
    out.extend(cur);
    out
}
fn dyadic_coll(e: &[u32], order: usize) -> Logits {
    let n = e.len();
    let v: Vec<f32> = (0..n).map(|i| -(e[(i * [1, 3, 7][order]) % n] as f32) * std::f32::consts::LN_2).collect();
    Logits::try_from_iter(v).unwrap()
}
pub struct Reused {
    pub l: Logits,
    pub s: Snap,
    pub what: String,
    pub _w: Warmed,
}
pub const REUSED: &str = "the sampler is used before, 1 or 3 times, on 14 kinds of look-alikes of the checked collection (a value, an id or two of them changed or exchanged at every position up to 12 entries and at 6 positions up to 70, one entry less or more, all shifted, reversed, negated, empty) x claims, or the other way round, on all ordered pairs of the 16 sets of 8 dyadic probabilities, or 23 numbers of times up to 300 on the same or another collection";
/// A collection, and what a sampler is used on before it is checked on that collection.
pub fn reused(ctx: &mut Ctx) -> Option<Reused> {
    let group = ctx.choose(3);
    let (l, w, what);
    if group == 1 {
        let all = dyadic_parts();
        let i = ctx.choose(all.len());
        let j = ctx.choose(all.len());
        let (a, b) = (ctx.choose(ctx.qt(2, 3)), ctx.choose(ctx.qt(2, 3)));
        let claims = ctx.choose(2) * 2;
        let mut x = dyadic_coll(&all[i], a);
        if claims == 2 {
            x.ensure_softmax().ok()?;
        }
        what = format!("2^-{:?} order {a} after 2^-{:?} order {b}", all[i], all[j]);
        l = x;
        w = Warm { other: Some(dyadic_coll(&all[j], b)), coll: 0, hist: 0, at: 0, claims, reps: 1 };
    } else {
        let bases: &[(&str, usize)] = if group == 0 {
            &[("zipf", 6), ("shuf", 40), ("two", 9), ("forbid3", 12), ("ties", 8), ("plateaus", 70), ("asc", 2), ("flat4", 5)]
        } else {
            &[("zipf", 6), ("shuf", 20), ("forbid3", 9)]
        };
        let (k, n) = *ctx.pick(bases);
        let p = *ctx.pick(&["raw", "softmaxed", "renumbered"]);
        l = prepare(p, &shape(k, n))?;
        let claims = ctx.choose(if group == 0 { 3 } else { 1 });
        let (coll, at, reps);
        if group == 0 {
            coll = ctx.choose(COLL_KINDS);
            let one = matches!(coll, 0 | 7 | 8 | 11 | 12 | 13);
            at = if one {
                0
            } else if n <= 12 {
                ctx.choose(n)
            } else {
                *ctx.pick(&[0usize, 1, n / 2 - 1, n / 2, n - 2, n - 1])
            };
            reps = *ctx.pick(&[1usize, 3, 0]);
            if reps == 0 {
                // The other way round: the look-alike is checked after the collection.
                if matches!(coll, 0 | 11) {
                    return None;
                }
                let x = vary_coll(&l, coll, at);
                if !x.iter().any(|e| e.logit.is_finite()) {
                    return None;
                }
                what = format!("variation {coll} at {at} of {k}({n}) {p} after the latter, claims {claims}");
                let s = snap(&x);
                ctx.state(&hash_of(&what));
                return Some(Reused { l: x, s, what, _w: set_warm(Warm { other: Some(l), coll: 0, hist: 0, at: 0, claims, reps: 1 }) });
            }
        } else {
            coll = *ctx.pick(&[0usize, 1, 11]);
            at = 0;
            reps = *ctx.pick(&[2usize, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 49, 63, 64, 99, 100, 127, 128, 255, 300]);
        }
        what = format!("{k}({n}) {p} after {reps} uses on variation {coll} at {at} claims {claims}");
        w = Warm { other: None, coll, hist: 0, at, claims, reps };
    }
    let s = snap(&l);
    ctx.state(&hash_of(&what));
    Some(Reused { l, s, what, _w: set_warm(w) })
}
pub const REUSED_HIST: &str = "the sampler is used before on 10 kinds of look-alikes of the checked history (a token changed or exchanged with the next at every position up to 12 tokens and at 11 positions of histories of 40, 70 and 150, one token less or more at either end, reversed, rotated, empty), with the collection changed or not, or 23 numbers of times up to 300";
/// A history, and a history used before it.
pub fn reused_hist(ctx: &mut Ctx, hists: &[Vec<u32>]) -> (Vec<u32>, Warmed) {
    let h = ctx.pick(hists).clone();
    let n = h.len();
    let w = if ctx.flag() {
        let hist = ctx.range(1, HIST_KINDS - 1);
        let at = if matches!(hist, 3 | 4 | 6 | 9) || n == 0 {
            0
        } else if n <= 12 {
            ctx.choose(n)
        } else {
            let c = [0, 1, 3, n / 2, n - 34, n - 33, n - 32, n - 17, n - 8, n - 2, n - 1];
            *ctx.pick(&c)
        };
        Warm { other: None, coll: *ctx.pick(&[0usize, 1, 2, 4, 11]), hist, at, claims: 0, reps: *ctx.pick(&[1usize, 2]) }
    } else {
        let reps = *ctx.pick(&[2usize, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 49, 63, 64, 99, 100, 127, 128, 255, 300]);
        Warm { other: None, coll: *ctx.pick(&[0usize, 1]), hist: *ctx.pick(&[0usize, 1]), at: 0, claims: 0, reps }
    };
    ctx.state(&hash_of(&format!("{h:?} {w:?}")));
    ctx.note(|| format!("history {:?} after {:?}", &h[..h.len().min(12)], w));
    (h, set_warm(w))
}
/// Histories over the tokens 0 to 9 with repeats.
pub fn reuse_hists() -> Vec<Vec<u32>> {
    reuse_hists_of(&[40, 70, 150, 600])
}
pub fn reuse_hists_of(sizes: &[usize]) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![1, 2, 3, 1, 2], vec![0, 1, 0, 1, 4, 0, 1], vec![], vec![5]];
    for &n in sizes {
        v.push((0..n as u32).map(|i| i % 7).collect());
        // An early repeat, unrelated tokens, and the ending again.
        let mut h: Vec<u32> = vec![1, 2, 3, 4];
        h.extend((0..n as u32 - 7).map(|i| 100 + i));
        h.extend([1, 2, 3]);
        // A token that occurs nowhere else.
        h[n / 2] = 8;
        v.push(h);
        v.push((0..n as u32).map(|i| (i * i / 3 + i) % 10).collect());
    }
    v
}
