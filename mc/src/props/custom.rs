//! C36: what the configuration traits promise to a sampler written by the user.
use crate::common::*;
use crate::engine::*;
use std::borrow::Cow;
use std::sync::{Arc, Mutex};

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C36",
            name: "hooks",
            bounds: "a custom sampler over {u8,f32}, {u32,f64}, {u64,f32}, {usize,f64} with options of all types: every pre-hook (ok, error, changed value, value that does not fit, value of another type) and post-hook (ok, error) on every option x sequences of 1-2 (quick) / 1-3 (thorough) settings over 7 keys x values x {set_option, the free function, configure, through a box, through a chain builder slot}: the calls of the hooks, what each saw, and the option values vs the model",
            run: c36_hooks,
        },
        Harness {
            prop: "C36",
            name: "long_values",
            bounds: "string values of every length 0-300 (quick) / 0-1100 (thorough) and around powers of two up to 2^17, of 1 to 4 byte characters or blanks inside, set by set_option, the free function, configure, through a box, read back and seen by the hooks whole",
            run: c36_long,
        },
        Harness {
            prop: "C36",
            name: "many_settings",
            bounds: "1..300 and up to 70000 settings in a row on one custom sampler (set_option or one string), options in turn, with every count of them",
            run: c36_many,
        },
        Harness {
            prop: "C36",
            name: "hidden_options",
            bounds: "a custom sampler that gives direct access to any subset of its five options (or to none, or describes nothing at all): every sequence of 1-2 settings over 8 keys x {set_option, the free function, configure, through a box, a chain slot}, every key read back: what cannot be accessed is refused and nothing is changed, its name still makes prefixes ambiguous, the others work",
            run: c36_hidden,
        },
        Harness {
            prop: "C36",
            name: "many_options",
            bounds: "custom samplers with 1-40 and 63-1000 options of the four types by turns: every one of them set by its full name or (where there is one) its shortest unambiguous prefix, by {set_option, configure, a box}, after each other or on a fresh sampler: that option and no other changes, and it reads back",
            run: c36_plenty,
        },
        Harness {
            prop: "C36",
            name: "strings",
            bounds: "configuration strings of 1-3 (quick) / 1-4 (thorough) settings (full name or prefix) with a hook failing or changing the value on one option, and with a sampler that overrides set_option and refuses the n-th call or overrides configure; directly, through a box and through single and chain slots",
            run: c36_strings,
        },
        Harness {
            prop: "C36",
            name: "number_types",
            bounds: "the built-in samplers that are generic in the number types (temperature, top-k, greedy, random, flat bias) as {u8,f32}, {u64,f32}, {usize,f64}, {usize,f32}: option values at the borders of the types, set directly or through a builder slot, behaviour of the chain vs samplers constructed with the parameters",
            run: c36_types,
        },
    ]
}

const KEYS: &[&str] = &["a", "ab", "x", "flag", "s"];
fn md() -> Vec<SamplerOptionMetadata> {
    use SamplerOptionType as T;
    [("a", T::UInt), ("ab", T::UInt), ("x", T::Float), ("flag", T::Bool), ("s", T::String)]
        .into_iter()
        .map(|(key, option_type)| SamplerOptionMetadata { key, description: Some("about"), option_type })
        .collect()
}
/// Values of the five options.
#[derive(Clone, Debug, PartialEq, Hash)]
struct Vals {
    a: u64,
    ab: u64,
    x: u64,
    flag: bool,
    s: String,
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// Pre-hook: option, value handed in, option values at that moment.
    Pre(String, String, Vals),
    /// Post-hook.
    Post(String, Vals),
}
type ELog = Arc<Mutex<Vec<Ev>>>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Pre {
    Ok,
    Fail,
    Change,
    Big,
    Retype,
}
#[derive(Clone, Copy, Debug)]
struct Plan {
    key: &'static str,
    pre: Pre,
    post_fails: bool,
}
#[derive(Clone, Debug)]
struct Hooked<UI, F> {
    a: UI,
    ab: UI,
    x: F,
    flag: bool,
    s: Cow<'static, str>,
    plan: Plan,
    log: ELog,
}
trait Num: ConfigurableNumValue + std::fmt::Debug + Send + Sync {}
impl<T: ConfigurableNumValue + std::fmt::Debug + Send + Sync> Num for T {}

fn val_str(v: &SamplerOptionValue) -> String {
    match v {
        SamplerOptionValue::UInt(x) => format!("UInt {x}"),
        SamplerOptionValue::Float(x) => format!("Float {:016x}", x.to_bits()),
        SamplerOptionValue::Bool(x) => format!("Bool {x}"),
        SamplerOptionValue::String(x) => format!("String {x:?}"),
    }
}
/// What the changing hook turns the value into.
fn changed(p: Pre, v: &SamplerOptionValue) -> SamplerOptionValue<'static> {
    use SamplerOptionValue as V;
    match (p, v) {
        (Pre::Change, V::UInt(x)) => V::UInt(x / 2 + 1),
        (Pre::Change, V::Float(x)) => V::Float(-x - 1.0),
        (Pre::Change, V::Bool(x)) => V::Bool(!x),
        (Pre::Change, V::String(x)) => V::String(Cow::Owned(format!("<{x}>"))),
        (Pre::Big, V::UInt(_)) => V::UInt(u64::MAX - 1),
        (Pre::Retype, V::UInt(_)) => V::Float(3.0),
        (Pre::Retype, V::Float(_)) => V::UInt(3),
        (Pre::Retype, V::Bool(_)) => V::String(Cow::Borrowed("true")),
        (Pre::Retype, V::String(_)) => V::Bool(true),
        (_, V::UInt(x)) => V::UInt(*x),
        (_, V::Float(x)) => V::Float(*x),
        (_, V::Bool(x)) => V::Bool(*x),
        (_, V::String(x)) => V::String(Cow::Owned(x.to_string())),
    }
}
impl<UI: Num, F: Num> Hooked<UI, F> {
    fn new(plan: Plan, log: &ELog) -> Self {
        Hooked {
            a: UI::from_u64(11).unwrap(),
            ab: UI::from_u64(12).unwrap(),
            x: F::from_f64(0.25).unwrap(),
            flag: false,
            s: Cow::Borrowed("start"),
            plan,
            log: log.clone(),
        }
    }
    fn vals(&self) -> Vals {
        Vals {
            a: self.a.to_u64().unwrap(),
            ab: self.ab.to_u64().unwrap(),
            x: self.x.to_f64().unwrap().to_bits(),
            flag: self.flag,
            s: self.s.to_string(),
        }
    }
}
impl<UI: Num, F: Num> Sampler for Hooked<UI, F> {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}
impl<UI: Num, F: Num> HasSamplerMetadata<UI, F> for Hooked<UI, F> {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "hooked", description: None, options: md() }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, UI, F>> {
        use SamplerOptionValue as V;
        SamplerOptions::from(md().into_iter().zip([
            Some(V::UInt(self.a)),
            Some(V::UInt(self.ab)),
            Some(V::Float(self.x)),
            Some(V::Bool(self.flag)),
            Some(V::String(self.s.clone())),
        ]))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, UI, F>> {
        use SamplerOptionValueMut as V;
        SamplerOptions::from(md().into_iter().zip([
            Some(V::UInt(&mut self.a)),
            Some(V::UInt(&mut self.ab)),
            Some(V::Float(&mut self.x)),
            Some(V::Bool(&mut self.flag)),
            Some(V::String(&mut self.s)),
        ]))
    }
}
impl<UI: Num, F: Num> ConfigurableSampler<UI, F> for Hooked<UI, F> {
    fn pre_set_option(&mut self, m: &SamplerOptionMetadata, v: &mut SamplerOptionValue) -> anyhow::Result<()> {
        let e = Ev::Pre(m.key.to_string(), val_str(v), self.vals());
        self.log.lock().unwrap().push(e);
        if m.key != self.plan.key {
            return Ok(());
        }
        match self.plan.pre {
            Pre::Ok => {}
            Pre::Fail => anyhow::bail!("refused by the pre hook"),
            p => *v = changed(p, v),
        }
        Ok(())
    }
    fn post_set_option(&mut self, m: &SamplerOptionMetadata) -> anyhow::Result<()> {
        let e = Ev::Post(m.key.to_string(), self.vals());
        self.log.lock().unwrap().push(e);
        if m.key == self.plan.key && self.plan.post_fails {
            anyhow::bail!("refused by the post hook");
        }
        Ok(())
    }
}

fn resolve(key: &str) -> Option<usize> {
    let key = key.trim();
    if let Some(i) = KEYS.iter().position(|k| *k == key) {
        return Some(i);
    }
    let m: Vec<usize> = (0..KEYS.len()).filter(|i| KEYS[*i].starts_with(key)).collect();
    (m.len() == 1).then(|| m[0])
}
#[derive(Clone, Copy, Debug)]
enum Av {
    U(u64),
    F(f64),
    B(bool),
    S(&'static str),
}
impl Av {
    fn opt(self) -> SamplerOptionValue<'static> {
        match self {
            Av::U(x) => SamplerOptionValue::UInt(x),
            Av::F(x) => SamplerOptionValue::Float(x),
            Av::B(x) => SamplerOptionValue::Bool(x),
            Av::S(x) => SamplerOptionValue::String(Cow::Borrowed(x)),
        }
    }
    fn text(self) -> String {
        match self {
            Av::U(x) => format!("{x}"),
            Av::F(x) => format!("{x}"),
            Av::B(x) => format!("{x}"),
            Av::S(x) => x.to_string(),
        }
    }
    fn ty(self) -> usize {
        match self {
            Av::U(_) => 0,
            Av::F(_) => 1,
            Av::B(_) => 2,
            Av::S(_) => 3,
        }
    }
}
const TYS: [usize; 5] = [0, 0, 1, 2, 3];

/// Model of one setting: whether it succeeds, and the events (the first may be left out if optional).
struct Exp {
    ok: bool,
    ev: Vec<Ev>,
    /// The setting fails whatever the hooks do: the crate may or may not have called the pre-hook.
    pre_optional: bool,
}
fn model(st: &mut Vals, plan: Plan, key: &str, v: Av, umax: u64, single: bool) -> Exp {
    let Some(i) = resolve(key) else { return Exp { ok: false, ev: vec![], pre_optional: false } };
    let name = KEYS[i];
    let here = plan.key == name;
    let pre = if here { plan.pre } else { Pre::Ok };
    let mut ev = vec![Ev::Pre(name.to_string(), val_str(&v.opt()), st.clone())];
    if v.ty() != TYS[i] {
        return Exp { ok: false, ev, pre_optional: true };
    }
    if pre == Pre::Fail {
        return Exp { ok: false, ev, pre_optional: false };
    }
    let given_fits = !matches!(v, Av::U(x) if x > umax);
    let w = changed(pre, &v.opt());
    let fits = match (&w, i) {
        (SamplerOptionValue::UInt(x), 0 | 1) if *x <= umax => {
            if i == 0 {
                st.a = *x
            } else {
                st.ab = *x
            }
            true
        }
        (SamplerOptionValue::Float(x), 2) => {
            st.x = if single { (*x as f32 as f64).to_bits() } else { x.to_bits() };
            true
        }
        (SamplerOptionValue::Bool(x), 3) => {
            st.flag = *x;
            true
        }
        (SamplerOptionValue::String(x), 4) => {
            st.s = x.to_string();
            true
        }
        _ => false,
    };
    if !fits {
        return Exp { ok: false, ev, pre_optional: !given_fits };
    }
    ev.push(Ev::Post(name.to_string(), st.clone()));
    Exp { ok: !(here && plan.post_fails), ev, pre_optional: false }
}

fn c36_hooks(ctx: &mut Ctx) -> R {
    match ctx.choose(4) {
        0 => hooks::<u8, f32>(ctx, 255, true),
        1 => hooks::<u32, f64>(ctx, u32::MAX as u64, false),
        2 => hooks::<u64, f32>(ctx, u64::MAX, true),
        _ => hooks::<usize, f64>(ctx, u64::MAX, false),
    }
}
fn plan_of(ctx: &mut Ctx) -> Plan {
    let key = *ctx.pick(KEYS);
    let pre = *ctx.pick(&[Pre::Ok, Pre::Fail, Pre::Change, Pre::Big, Pre::Retype]);
    let post_fails = ctx.flag();
    Plan { key, pre, post_fails }
}
fn hooks<UI: Num, F: Num>(ctx: &mut Ctx, umax: u64, single: bool) -> R {
    let plan = plan_of(ctx);
    let way = ctx.choose(6);
    let n = ctx.range(1, ctx.qt(2, 3));
    let log: ELog = Default::default();
    let mut bare = Hooked::<UI, F>::new(plan, &log);
    let mut boxed: Box<dyn BuildableSampler<UI, F>> = Box::new(Hooked::<UI, F>::new(plan, &log));
    let (l1, l2) = (log.clone(), log.clone());
    let mut b: SamplerChainBuilder<UI, F> = SamplerChainBuilder::from([
        ("chain", SamplerSlot::new_chain(move || Box::new(Hooked::<UI, F>::new(plan, &l1)), vec![])),
        ("one", SamplerSlot::new_single(move || Box::new(Hooked::<UI, F>::new(plan, &l2)), Some(bare.clone()))),
    ]);
    let start = bare.vals();
    let mut st = start.clone();
    for step in 0..n {
        let key = *ctx.pick(if step + 1 < n { &["a", "ab", "x", "fl", "s"][..] } else { &["a", "ab", "x", "fl", "s", "", "abc"][..] });
        let v = match (step + 1 < n, resolve(key).map(|i| TYS[i])) {
            (true, Some(0)) => *ctx.pick(&[Av::U(7), Av::U(200)]),
            (true, Some(1)) => Av::F(1.5),
            (true, Some(2)) => Av::B(true),
            (true, _) => Av::S("mid"),
            (false, Some(0)) => *ctx.pick(&[Av::U(0), Av::U(255), Av::U(256), Av::U(u32::MAX as u64), Av::U(1 << 32), Av::U(u64::MAX), Av::F(1.0), Av::S("1")]),
            (false, Some(1)) => *ctx.pick(&[Av::F(0.1), Av::F(-1e300), Av::F(f64::INFINITY), Av::F(-0.0), Av::U(1), Av::B(true)]),
            (false, Some(2)) => *ctx.pick(&[Av::B(true), Av::B(false), Av::U(1), Av::S("true")]),
            (false, Some(_)) => *ctx.pick(&[Av::S(""), Av::S("word"), Av::B(true)]),
            (false, None) => *ctx.pick(&[Av::U(1), Av::F(1.0), Av::B(true), Av::S("x")]),
        };
        // A string only carries values of the option's own type.
        let by_text = way == 2 || way >= 4;
        if let Some(i) = resolve(key) {
            // Whether a hook may repair a value of the wrong type is not stated.
            if TYS[i] != v.ty() && KEYS[i] == plan.key && !matches!(plan.pre, Pre::Ok | Pre::Fail) {
                return Ok(());
            }
        }
        if by_text {
            match resolve(key) {
                Some(i) if TYS[i] == v.ty() => {}
                _ => return Ok(()),
            }
            if v.text().is_empty() {
                return Ok(());
            }
        }
        if way == 5 {
            // A fresh sampler for every setting.
            st = start.clone();
        }
        let before = st.clone();
        let exp = model(&mut st, plan, key, v, umax, single);
        if !exp.ok && exp.ev.len() < 2 {
            st = before.clone();
        }
        log.lock().unwrap().clear();
        let r = match way {
            0 => bare.set_option(key, v.opt()),
            1 => configurable_sampler::set_option::<Hooked<UI, F>, UI, F>(&mut bare, key, v.opt()).map(|_| ()),
            2 => bare.configure(&format!(" {key} = {} ", v.text())),
            3 => boxed.set_option(key, v.opt()),
            4 => b.configure("one", format!("{key}={}", v.text())),
            _ => b.configure("chain", format!("{key}={}", v.text())),
        };
        let got = log.lock().unwrap().clone();
        ctx.step();
        ctx.state(&(way, format!("{plan:?}"), key, format!("{v:?}"), st.clone()));
        let at = format!("hooks {plan:?}, way {way}, options {before:?}: setting {key:?} to {v:?}");
        ensure!(r.is_ok() == exp.ok, "{at} gave {:?}, expected {}", r.map_err(|e| e.to_string()), if exp.ok { "success" } else { "an error" });
        ensure!(got == exp.ev || (exp.pre_optional && got.is_empty()), "{at} called the hooks {got:?}, expected {:?}", exp.ev);
        let after = match way {
            0..=2 => Some(bare.vals()),
            _ => None,
        };
        if let Some(a) = after {
            ensure!(a == st, "{at} left {a:?}, expected {st:?}");
        }
        if way < 4 {
            let s: &dyn BuildableSampler<UI, F> = if way == 3 { &*boxed } else { &bare };
            for (i, k) in KEYS.iter().enumerate() {
                let g = s.get_option(k).map(|v| val_str(&v)).map_err(|e| e.to_string());
                let want = match i {
                    0 => SamplerOptionValue::UInt(st.a),
                    1 => SamplerOptionValue::UInt(st.ab),
                    2 => SamplerOptionValue::Float(f64::from_bits(st.x)),
                    3 => SamplerOptionValue::Bool(st.flag),
                    _ => SamplerOptionValue::String(Cow::Owned(st.s.clone())),
                };
                ensure!(g == Ok(val_str(&want)), "{at}: then get_option({k:?}) is {g:?}, expected {}", val_str(&want));
            }
        }
    }
    Ok(())
}

fn long_text(n: usize, kind: usize) -> String {
    let c = ["x", "\u{e9}", "\u{20ac}", "\u{1f600}", " y", "=,\t"][kind];
    let mut s: String = c.chars().cycle().take(n).collect();
    // Blanks at the ends would be cut off in a string.
    if s.ends_with(char::is_whitespace) {
        s.pop();
        s.push('z');
    }
    if s.starts_with(char::is_whitespace) {
        s.replace_range(..1, "z");
    }
    s
}
fn c36_long(ctx: &mut Ctx) -> R {
    let mut lens: Vec<usize> = (0..=ctx.qt(300, 1100)).collect();
    for k in 9..=17usize {
        lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let n = *ctx.pick(&lens);
    let kind = ctx.choose(6);
    let way = ctx.choose(5);
    let t = long_text(n, kind);
    if way == 2 && kind == 5 {
        return Ok(());
    }
    let log: ELog = Default::default();
    let plan = Plan { key: "a", pre: Pre::Ok, post_fails: false };
    let mut s = Hooked::<usize, f32>::new(plan, &log);
    let mut boxed: Box<dyn BuildableSampler<usize, f32>> = Box::new(Hooked::<usize, f32>::new(plan, &log));
    let v = || SamplerOptionValue::String(Cow::Borrowed(&t[..]));
    ctx.step();
    let r = match way {
        0 => s.set_option("s", v()),
        1 => configurable_sampler::set_option::<Hooked<usize, f32>, usize, f32>(&mut s, "s", v()).map(|_| ()),
        2 => s.configure(&format!("x=2: s = {t} :fl=true")),
        3 => boxed.set_option("s", SamplerOptionValue::String(Cow::Owned(t.clone()))),
        _ => s.set_option("s", SamplerOptionValue::String(Cow::Owned(t.clone()))),
    };
    let at = format!("a string of {n} characters (kind {kind}, way {way})");
    ensure!(r.is_ok(), "{at}: {:?}", r.map_err(|e| e.to_string()));
    let o: &dyn BuildableSampler<usize, f32> = if way == 3 { &*boxed } else { &s };
    let got = match o.get_option("s") {
        Ok(SamplerOptionValue::String(g)) => g.to_string(),
        x => return Err(format!("{at}: reading it gives {x:?}")),
    };
    ctx.state(&(n, kind, way));
    ctx.note(|| format!("{at}: {} bytes read back", got.len()));
    ensure!(got == t, "{at}: {} characters come back ({} bytes of {})", got.chars().count(), got.len(), t.len());
    let seen: Vec<String> = log
        .lock()
        .unwrap()
        .iter()
        .filter_map(|e| match e {
            Ev::Pre(k, x, _) if k == "s" => Some(x.clone()),
            _ => None,
        })
        .collect();
    ensure!(seen == [format!("String {t:?}")], "{at}: the hook saw {} values, of {:?} characters", seen.len(), seen.iter().map(|s| s.chars().count()).collect::<Vec<_>>());
    Ok(())
}
fn c36_many(ctx: &mut Ctx) -> R {
    let mut counts: Vec<usize> = (1..=300).collect();
    counts.extend([511, 512, 513, 1023, 1025, 4095, 4097, 65535, 65537, 70000]);
    let n = *ctx.pick(&counts);
    let by_text = ctx.flag();
    let turn = ctx.choose(3);
    let log: ELog = Default::default();
    let plan = Plan { key: "a", pre: Pre::Ok, post_fails: false };
    let mut s = Hooked::<usize, f32>::new(plan, &log);
    let mut want = s.vals();
    let mut text = String::new();
    ctx.steps(n as u64);
    for i in 0..n {
        let (k, v) = match (turn, i % 3) {
            (0, _) => ("a", Av::U(i as u64 + 1)),
            (1, 0) => ("ab", Av::U(i as u64 + 3)),
            (1, 1) => ("x", Av::F(i as f64 + 0.5)),
            (1, _) => ("flag", Av::B(i % 2 == 0)),
            _ => ("x", Av::F(1.0 + i as f64)),
        };
        match (k, v) {
            ("a", Av::U(x)) => want.a = x,
            ("ab", Av::U(x)) => want.ab = x,
            ("x", Av::F(x)) => want.x = (x as f32 as f64).to_bits(),
            (_, Av::B(x)) => want.flag = x,
            _ => {}
        }
        if by_text {
            if i > 0 {
                text.push(':');
            }
            text += &format!("{k}={}", v.text());
        } else {
            s.set_option(k, v.opt()).map_err(|e| format!("setting {i} of {n} ({k} to {v:?}): {e}"))?;
            ensure!(s.vals() == want, "after setting {i} ({k} to {v:?}): {:?}, expected {want:?}", s.vals());
        }
        log.lock().unwrap().clear();
    }
    if by_text {
        s.configure(&text).map_err(|e| format!("a string of {n} settings: {e}"))?;
        let l = log.lock().unwrap().len();
        ensure!(l == 2 * n, "a string of {n} settings: {l} hook calls");
    }
    ctx.state(&(n, by_text, turn));
    ctx.note(|| format!("{n} settings, by text {by_text}: {:?}", s.vals()));
    ensure!(s.vals() == want, "after {n} settings (by text {by_text}, turn {turn}): {:?}, expected {want:?}", s.vals());
    Ok(())
}

/// Gives access to some of its options only (bit i: option i).
#[derive(Clone, Debug)]
struct Hidden {
    shown: usize,
    described: bool,
    inner: Hooked<usize, f32>,
}
impl Sampler for Hidden {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}
impl HasSamplerMetadata<usize, f32> for Hidden {
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        if !self.described {
            return Default::default();
        }
        use SamplerOptionValue as V;
        let v = [V::UInt(self.inner.a), V::UInt(self.inner.ab), V::Float(self.inner.x), V::Bool(self.inner.flag), V::String(self.inner.s.clone())];
        SamplerOptions::from(md().into_iter().zip(v.into_iter().enumerate().map(|(i, v)| (self.shown >> i & 1 == 1).then_some(v))))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        if !self.described {
            return Default::default();
        }
        use SamplerOptionValueMut as V;
        let s = self.shown;
        let n = &mut self.inner;
        let v = [V::UInt(&mut n.a), V::UInt(&mut n.ab), V::Float(&mut n.x), V::Bool(&mut n.flag), V::String(&mut n.s)];
        SamplerOptions::from(md().into_iter().zip(v.into_iter().enumerate().map(|(i, v)| (s >> i & 1 == 1).then_some(v))))
    }
}
impl ConfigurableSampler<usize, f32> for Hidden {
    fn pre_set_option(&mut self, m: &SamplerOptionMetadata, v: &mut SamplerOptionValue) -> anyhow::Result<()> {
        self.inner.pre_set_option(m, v)
    }
    fn post_set_option(&mut self, m: &SamplerOptionMetadata) -> anyhow::Result<()> {
        self.inner.post_set_option(m)
    }
}
fn c36_hidden(ctx: &mut Ctx) -> R {
    let k = ctx.choose(33);
    let (shown, described) = if k == 32 { (0, false) } else { (k, true) };
    let way = ctx.choose(5);
    let n = ctx.range(1, 2);
    let log: ELog = Default::default();
    let plan = Plan { key: "a", pre: Pre::Ok, post_fails: false };
    let proto = Hidden { shown, described, inner: Hooked::new(plan, &log) };
    let mut bare = proto.clone();
    let mut boxed: Box<dyn BuildableSampler<usize, f32>> = Box::new(proto.clone());
    let p2 = proto.clone();
    let mut st = bare.inner.vals();
    let mut path = vec![];
    for _ in 0..n {
        let (key, v) = *ctx.pick(&[
            ("a", Av::U(7)),
            ("ab", Av::U(8)),
            ("x", Av::F(2.5)),
            ("fl", Av::B(true)),
            ("s", Av::S("new")),
            ("", Av::U(5)),
            ("b", Av::U(5)),
            ("flag", Av::B(true)),
        ]);
        path.push(key);
        let hit = if described { resolve(key).filter(|i| shown >> i & 1 == 1) } else { None };
        log.lock().unwrap().clear();
        let text = format!("{key}={}", v.text());
        let r = match way {
            0 => bare.set_option(key, v.opt()),
            1 => configurable_sampler::set_option::<Hidden, usize, f32>(&mut bare, key, v.opt()).map(|_| ()),
            2 => bare.configure(&text),
            3 => boxed.set_option(key, v.opt()),
            _ => {
                let p2 = p2.clone();
                let mut b: SamplerChainBuilder<usize, f32> =
                    SamplerChainBuilder::from([("slot", SamplerSlot::new_chain(move || Box::new(p2.clone()), vec![]))]);
                b.configure("slot", &text)
            }
        };
        ctx.step();
        let at = format!("options shown {shown:05b} (described {described}), way {way}: settings {path:?}");
        ensure!(r.is_ok() == hit.is_some(), "{at}: {:?}, expected {}", r.map_err(|e| e.to_string()), if hit.is_some() { "success" } else { "an error" });
        let calls = log.lock().unwrap().len();
        ensure!(calls == if hit.is_some() { 2 } else { 0 }, "{at}: {calls} hook calls");
        match (hit, v) {
            (Some(0), Av::U(x)) => st.a = x,
            (Some(1), Av::U(x)) => st.ab = x,
            (Some(2), Av::F(x)) => st.x = x.to_bits(),
            (Some(3), Av::B(x)) => st.flag = x,
            (Some(4), Av::S(x)) => st.s = x.to_string(),
            _ => {}
        }
        if way == 4 {
            continue;
        }
        let s: &dyn BuildableSampler<usize, f32> = if way == 3 { &*boxed } else { &bare };
        for (i, k) in KEYS.iter().enumerate() {
            let g = s.get_option(k);
            if !described || shown >> i & 1 == 0 {
                ensure!(g.is_err(), "{at}: get_option({k:?}) is {g:?} though it cannot be accessed");
                continue;
            }
            let want = match i {
                0 => SamplerOptionValue::UInt(st.a),
                1 => SamplerOptionValue::UInt(st.ab),
                2 => SamplerOptionValue::Float(f64::from_bits(st.x)),
                3 => SamplerOptionValue::Bool(st.flag),
                _ => SamplerOptionValue::String(Cow::Owned(st.s.clone())),
            };
            let g = g.map(|v| val_str(&v)).map_err(|e| e.to_string());
            ensure!(g == Ok(val_str(&want)), "{at}: get_option({k:?}) is {g:?}, expected {}", val_str(&want));
        }
        if way < 3 {
            let got = bare.inner.vals();
            ensure!(got == st, "{at}: left {got:?}, expected {st:?}");
        }
        ctx.state(&(shown, way, key, format!("{st:?}")));
    }
    ctx.note(|| format!("shown {shown:05b}, way {way}: {path:?}: {st:?}"));
    Ok(())
}

/// A sampler of any number of options: o0, o1, .. by turns unsigned, float, bool and string.
#[derive(Clone, Debug)]
struct Plenty {
    u: Vec<usize>,
    f: Vec<f32>,
    b: Vec<bool>,
    s: Vec<Cow<'static, str>>,
}
fn plenty_key(i: usize) -> &'static str {
    static K: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    K.get_or_init(|| (0..1000).map(|i| &*Box::leak(format!("o{i}x{:03}", (i * 7) % 1000).into_boxed_str())).collect())[i]
}
impl Plenty {
    fn new(n: usize) -> Self {
        let k = |r: usize| (n + 3 - r) / 4;
        Self { u: vec![0; k(0)], f: vec![0.0; k(1)], b: vec![false; k(2)], s: vec!["".into(); k(3)] }
    }
    fn len(&self) -> usize {
        self.u.len() + self.f.len() + self.b.len() + self.s.len()
    }
    fn md(&self) -> Vec<SamplerOptionMetadata> {
        use SamplerOptionType as T;
        (0..self.len())
            .map(|i| SamplerOptionMetadata { key: plenty_key(i), description: None, option_type: [T::UInt, T::Float, T::Bool, T::String][i % 4] })
            .collect()
    }
}
impl Sampler for Plenty {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}
impl HasSamplerMetadata<usize, f32> for Plenty {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "plenty", description: None, options: self.md() }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        use SamplerOptionValue as V;
        let md = self.md();
        let v: Vec<_> = (0..md.len())
            .map(|i| {
                Some(match i % 4 {
                    0 => V::UInt(self.u[i / 4]),
                    1 => V::Float(self.f[i / 4]),
                    2 => V::Bool(self.b[i / 4]),
                    _ => V::String(self.s[i / 4].clone()),
                })
            })
            .collect();
        unsafe { SamplerOptions::build_options(md, v) }
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        use SamplerOptionValueMut as V;
        let md = self.md();
        let (mut u, mut f, mut b, mut s) = (self.u.iter_mut(), self.f.iter_mut(), self.b.iter_mut(), self.s.iter_mut());
        let v: Vec<_> = (0..md.len())
            .map(|i| match i % 4 {
                0 => u.next().map(V::UInt),
                1 => f.next().map(V::Float),
                2 => b.next().map(V::Bool),
                _ => s.next().map(V::String),
            })
            .collect();
        unsafe { SamplerOptions::build_options(md, v) }
    }
}
impl ConfigurableSampler<usize, f32> for Plenty {}
fn c36_plenty(ctx: &mut Ctx) -> R {
    let mut sizes: Vec<usize> = (1..=40).collect();
    sizes.extend([63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258, 300, 513, 1000]);
    let n = *ctx.pick(&sizes);
    let (way, full, fresh) = (ctx.choose(3), ctx.flag(), ctx.flag());
    let keys: Vec<&str> = (0..n).map(plenty_key).collect();
    let mut s = Plenty::new(n);
    let mut want: Vec<String> = (0..n).map(|i| ["0", "0.0", "false", ""][i % 4].to_string()).collect();
    for i in (0..n).rev() {
        if fresh {
            s = Plenty::new(n);
            want = (0..n).map(|i| ["0", "0.0", "false", ""][i % 4].to_string()).collect();
        }
        let key = if full { keys[i] } else { &keys[i][..keys[i].find('x').unwrap() + 1] };
        let (v, text) = match i % 4 {
            0 => (SamplerOptionValue::UInt(5 + i as u64), format!("{}", 5 + i)),
            1 => (SamplerOptionValue::Float(0.5 + i as f64), format!("{:?}", 0.5 + i as f32)),
            2 => (SamplerOptionValue::Bool(true), "true".into()),
            _ => (SamplerOptionValue::String(format!("t{i}").into()), format!("t{i}")),
        };
        want[i] = text.clone();
        let r = match way {
            0 => s.set_option(key, v),
            1 => s.configure(&format!("{key}={text}")),
            _ => {
                let mut b: Box<dyn BuildableSampler<usize, f32>> = Box::new(s.clone());
                let r = b.set_option(key, v);
                ensure!(b.get_option(key).map(|v| val_str(&v)).ok() == reads_as(&text, i), "{n} options: {key} reads back differently through a box");
                let _ = s.configure(&format!("{key}={text}"));
                r
            }
        };
        ctx.step();
        let at = format!("{n} options, way {way}: {key} (option {i})");
        r.map_err(|e| format!("{at}: {e}"))?;
        let got: Vec<String> = (0..n)
            .map(|i| match i % 4 {
                0 => s.u[i / 4].to_string(),
                1 => format!("{:?}", s.f[i / 4]),
                2 => s.b[i / 4].to_string(),
                _ => s.s[i / 4].to_string(),
            })
            .collect();
        if let Some(j) = (0..n).find(|j| got[*j] != want[*j]) {
            return Err(format!("{at}: option {j} is {:?} afterwards, expected {:?}", got[j], want[j]));
        }
        let g = s.get_option(key).map(|v| val_str(&v)).map_err(|e| e.to_string());
        let w = reads_as(&text, i);
        ensure!(g.as_ref().ok() == w.as_ref(), "{at}: reads back {g:?}, expected {w:?}");
    }
    ctx.state(&(n, way, full, fresh));
    ctx.note(|| format!("{n} options, way {way}, full names {full}"));
    Ok(())
}
/// What reading option i ought to give once it is set to this.
fn reads_as(text: &str, i: usize) -> Option<String> {
    Some(val_str(&match i % 4 {
        0 => SamplerOptionValue::UInt(text.parse().ok()?),
        1 => SamplerOptionValue::Float(text.parse().ok()?),
        2 => SamplerOptionValue::Bool(text == "true"),
        _ => SamplerOptionValue::String(text.to_string().into()),
    }))
}

/// Overrides set_option: logs the calls, refuses the n-th one.
#[derive(Clone, Debug)]
struct Over {
    refuse: usize,
    calls: Arc<Mutex<Vec<(String, String)>>>,
    own_configure: bool,
    inner: Hooked<usize, f32>,
}
impl Sampler for Over {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}
impl HasSamplerMetadata<usize, f32> for Over {
    fn sampler_metadata(&self) -> SamplerMetadata {
        HasSamplerMetadata::<usize, f32>::sampler_metadata(&self.inner)
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        self.inner.sampler_options()
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        self.inner.sampler_options_mut()
    }
}
impl ConfigurableSampler<usize, f32> for Over {
    fn set_option(&mut self, key: &str, val: SamplerOptionValue) -> anyhow::Result<()> {
        let n = {
            let mut c = self.calls.lock().unwrap();
            c.push((key.trim().to_string(), val_str(&val)));
            c.len()
        };
        if n == self.refuse {
            anyhow::bail!("refused");
        }
        Ok(())
    }
    fn configure(&mut self, s: &str) -> anyhow::Result<()> {
        if self.own_configure {
            self.calls.lock().unwrap().push(("whole".into(), s.to_string()));
            if self.refuse == 1 {
                anyhow::bail!("refused");
            }
            return Ok(());
        }
        configurable_sampler::configure(self, s)
    }
}

fn c36_strings(ctx: &mut Ctx) -> R {
    let way = ctx.choose(4);
    let over = ctx.choose(3);
    let n = ctx.range(1, ctx.qt(3, 4));
    let mut parts = vec![];
    for _ in 0..n {
        parts.push(*ctx.pick(&[("a", Av::U(3)), ("ab", Av::U(4)), ("x", Av::F(1.5)), ("fl", Av::B(true)), ("s", Av::S("w"))]));
    }
    let text = parts.iter().map(|(k, v)| format!("{k}={}", v.text())).collect::<Vec<_>>().join(":");
    let log: ELog = Default::default();
    ctx.step();
    if over == 0 {
        // The hooks of one option, whole string.
        let plan = {
            let key = *ctx.pick(KEYS);
            let (pre, post_fails) = *ctx.pick(&[(Pre::Ok, false), (Pre::Fail, false), (Pre::Change, false), (Pre::Retype, false), (Pre::Ok, true), (Pre::Change, true)]);
            Plan { key, pre, post_fails }
        };
        let mut s = Hooked::<usize, f32>::new(plan, &log);
        let mut st = s.vals();
        let (mut ok, mut ev) = (true, vec![]);
        for (k, v) in &parts {
            let before = st.clone();
            let e = model(&mut st, plan, k, *v, u64::MAX, true);
            if !e.ok && e.ev.len() < 2 {
                st = before;
            }
            ev.extend(e.ev);
            if !e.ok {
                ok = false;
                break;
            }
        }
        let r = drive(&mut s, way, &text);
        let got = log.lock().unwrap().clone();
        ctx.state(&(text.clone(), way, format!("{plan:?}")));
        let at = format!("hooks {plan:?}, way {way}: configure({text:?})");
        ensure!(r.is_ok() == ok, "{at} gave {:?}, expected {}", r.map_err(|e| e.to_string()), if ok { "success" } else { "an error" });
        ensure!(got == ev, "{at} called the hooks {got:?}, expected {ev:?}");
        if way == 0 {
            ensure!(s.vals() == st, "{at} left {:?}, expected {st:?}", s.vals());
        }
    } else {
        let refuse = ctx.range(0, n);
        let calls: Arc<Mutex<Vec<(String, String)>>> = Default::default();
        let plan = Plan { key: "a", pre: Pre::Ok, post_fails: false };
        let mut s = Over { refuse, calls: calls.clone(), own_configure: over == 2, inner: Hooked::new(plan, &log) };
        let r = drive(&mut s, way, &text);
        let got = calls.lock().unwrap().clone();
        ctx.state(&(text.clone(), way, over, refuse));
        let at = format!("overridden {}, refusing call {refuse}, way {way}: configure({text:?})", if over == 2 { "configure" } else { "set_option" });
        if over == 2 {
            ensure!(r.is_ok() == (refuse != 1), "{at} gave {:?}", r.map_err(|e| e.to_string()));
            ensure!(got == [("whole".to_string(), text.clone())], "{at} called {got:?}");
        } else {
            let m = if refuse == 0 { n } else { refuse };
            ensure!(r.is_ok() == (refuse == 0), "{at} gave {:?}", r.map_err(|e| e.to_string()));
            let want: Vec<(Option<usize>, String)> = parts[..m].iter().map(|(k, v)| (resolve(k), val_str(&v.opt()))).collect();
            let seen: Vec<(Option<usize>, String)> = got.iter().map(|(k, v)| (resolve(k), v.clone())).collect();
            ensure!(seen == want, "{at} called set_option with {got:?}, expected {:?}", &parts[..m]);
        }
    }
    Ok(())
}
/// Configure a sampler directly, boxed, or in a slot of a builder.
fn drive<S: BuildableSampler<usize, f32> + Clone>(s: &mut S, way: usize, text: &str) -> anyhow::Result<()> {
    match way {
        0 => s.configure(text),
        1 => {
            let mut b: Box<dyn BuildableSampler<usize, f32>> = Box::new(s.clone());
            b.configure(text)
        }
        2 => {
            let c = s.clone();
            let mut b: SamplerChainBuilder<usize, f32> =
                SamplerChainBuilder::from([("one", SamplerSlot::new_single(move || Box::new(c.clone()), None::<S>))]);
            b.configure("one", text)
        }
        _ => {
            let c = s.clone();
            let mut b: SamplerChainBuilder<usize, f32> =
                SamplerChainBuilder::from([("many", SamplerSlot::new_chain(move || Box::new(c.clone()), vec![]))]);
            b.configure("many", text)
        }
    }
}

fn c36_types(ctx: &mut Ctx) -> R {
    match ctx.choose(4) {
        0 => temps::<u8>(ctx),
        1 => temps::<u64>(ctx),
        2 => topks::<f64>(ctx),
        _ => topks::<f32>(ctx),
    }
}
fn run_pair(ctx: &mut Ctx, a: &mut dyn Sampler, b: &mut dyn Sampler, what: &str) -> R {
    for (sh, n, p) in [("shuf", 9, "raw"), ("zipf", 14, "raw"), ("plateaus", 12, "softmaxed")] {
        let mk = || prepare(p, &shape(sh, n)).ok_or_else(|| "input".to_string());
        let (mut la, mut lb) = (mk()?, mk()?);
        let w = [0x4000_0000u32, 0, 7, 9];
        let x = a.sample_token(&mut Res::words(&w), &mut la).map_err(|e| err_str(&e));
        let y = b.sample_token(&mut Res::words(&w), &mut lb).map_err(|e| err_str(&e));
        ctx.steps(2);
        ensure!(x == y && snap(&la).same(&snap(&lb)), "{what}: constructed gives {x:?} {}, configured {y:?} {}", short(&snap(&la).e), short(&snap(&lb).e));
    }
    Ok(())
}
fn pickers<UI: Num, F: Num>(which: usize) -> Box<dyn BuildableSampler<UI, F>> {
    match which {
        0 => Box::new(SampleGreedy::new()),
        1 => Box::new(SampleRandDistrib::new()),
        _ => Box::new(SampleFlatBias::new([(3, 2.0)])),
    }
}
fn check_empty<UI: Num, F: Num>(s: &mut dyn BuildableSampler<UI, F>) -> R {
    ensure!(s.sampler_options().is_empty() && s.sampler_metadata().options.is_empty(), "options where none are documented");
    ensure!(s.configure("").is_ok(), "an empty string was refused");
    ensure!(s.configure("1").is_err(), "a value without an option was accepted");
    ensure!(s.set_option("k", SamplerOptionValue::UInt(1)).is_err(), "an unknown option was accepted");
    Ok(())
}
fn chain_of<UI: Num, F: Num>(ctx: &mut Ctx, first: (bool, SamplerSlot<UI, F>), text: &str, which: usize) -> Result<SamplerChain, String> {
    let mut b: SamplerChainBuilder<UI, F> = Default::default();
    b += ("first".to_string(), first.1);
    b.push_slot("pick".into(), SamplerSlot::new_static(move || pickers::<UI, F>(which)));
    ctx.step();
    let r = b.configure("first", text);
    if r.is_ok() != first.0 {
        return Err(format!("configure(\"first\", {text:?}) gave {r:?}"));
    }
    Ok(b.into_chain())
}
fn temps<UI: Num>(ctx: &mut Ctx) -> R {
    let t = *ctx.pick(&[0.5f32, 1.0, -2.0, 0.0, 1e-3, 1e30, f32::INFINITY]);
    let which = ctx.choose(3);
    check_empty::<UI, f32>(&mut *pickers::<UI, f32>(which))?;
    let mut s = SampleTemperature::new(7.0);
    {
        let d: &mut dyn BuildableSampler<UI, f32> = &mut s;
        d.set_option(*ctx.pick(&["temperature", "t", ""]), SamplerOptionValue::Float(t as f64)).map_err(|e| e.to_string())?;
        ensure!(d.set_option("temperature", SamplerOptionValue::UInt(1)).is_err(), "integer accepted");
        match d.get_option("temp") {
            Ok(SamplerOptionValue::Float(x)) if x == t as f64 => {}
            o => return Err(format!("get_option after setting {t}: {o:?}")),
        }
    }
    ctx.state(&(t.to_bits(), which));
    run_pair(ctx, &mut SampleTemperature::new(t), &mut s, &format!("temperature {t}"))?;
    let text = format!("temp={t}");
    let slot = SamplerSlot::<UI, f32>::new_single(|| Box::new(SampleTemperature::new(3.0)), None::<SampleTemperature>);
    let mut got = chain_of::<UI, f32>(ctx, (true, slot), &text, which)?;
    let mut want = SamplerChain::new();
    want += SampleTemperature::new(t);
    want += pickers::<UI, f32>(which);
    run_pair(ctx, &mut want, &mut got, &format!("built chain with temperature {t}"))
}
fn topks<F: Num>(ctx: &mut Ctx) -> R {
    let k = *ctx.pick(&[0u64, 1, 3, 255, 256, u32::MAX as u64, 1 << 32, u64::MAX]);
    let mk = *ctx.pick(&[0u64, 2, u64::MAX]);
    let which = ctx.choose(3);
    check_empty::<usize, F>(&mut *pickers::<usize, F>(which))?;
    let mut s = SampleTopK::new(77, 5);
    {
        let d: &mut dyn BuildableSampler<usize, F> = &mut s;
        d.set_option("k", SamplerOptionValue::UInt(k)).map_err(|e| e.to_string())?;
        d.set_option("m", SamplerOptionValue::UInt(mk)).map_err(|e| e.to_string())?;
        ensure!(d.set_option("k", SamplerOptionValue::Float(1.0)).is_err(), "float accepted");
        for (n, v) in [("k", k), ("min_keep", mk)] {
            match d.get_option(n) {
                Ok(SamplerOptionValue::UInt(x)) if x == v => {}
                o => return Err(format!("get_option({n:?}) after setting {v}: {o:?}")),
            }
        }
    }
    ctx.state(&(k, mk, which));
    let mut want = SampleTopK::new(k as usize, mk as usize);
    run_pair(ctx, &mut want, &mut s, &format!("top-k {k} {mk}"))?;
    let slot = SamplerSlot::<usize, F>::new_chain(|| Box::new(SampleTopK::new(9, 9)), vec![]);
    let mut got = chain_of::<usize, F>(ctx, (true, slot), &format!("min={mk}:k={k}"), which)?;
    let mut w = SamplerChain::new();
    w += want;
    w += pickers::<usize, F>(which);
    run_pair(ctx, &mut w, &mut got, &format!("built chain with top-k {k} {mk}"))
}
