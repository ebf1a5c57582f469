//! C28 option access, C29 configuration strings, C30 configured == constructed,
//! C31 chain builder, C34 option value parsing.
use crate::common::*;
use crate::engine::*;
use std::borrow::Cow;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

pub fn list() -> Vec<Harness> {
    vec![
        Harness {
            prop: "C28",
            name: "metadata",
            bounds: "all 15 built-in samplers: reported name (pairwise distinct), documented option keys and types, option values in step with the metadata",
            run: c28_meta,
        },
        Harness {
            prop: "C28",
            name: "keys",
            bounds: "all 15 built-in samplers x every key (every prefix and extension of every option of any sampler, every single-character slip in it, parts reordered or abbreviated, empty, padded, upper case) x 4 value types x 4 values x {set_option, configure}: all options afterwards vs the model, read back by the same key",
            run: c28_keys,
        },
        Harness {
            prop: "C28",
            name: "short_and_long_keys",
            bounds: "all 15 built-in samplers x {all keys of 1-2 printable ASCII characters and of 3 characters out of 30 (thorough: 4 of them), every option name and prefix followed by 0-66 / 100 / 255-257 / 65536 of 9 characters, repeated 2-3 times, or with another option's name in front or behind}: read and set, with all options compared",
            run: c28_lengths,
        },
        Harness {
            prop: "C28",
            name: "name_sets",
            bounds: "every list of 0-4 different option names out of 14 (nested prefixes, the empty name, other scripts, other cases), one or no option without access (thorough: any subset), looked up by every of 20 keys; and lists of up to 300 options",
            run: c28_names,
        },
        Harness {
            prop: "C28",
            name: "sequences",
            bounds: "all sequences of 2-3 (quick) / 2-5 (thorough; 4 for six options) settings (every option by full name or shortest prefix, 2 values; rejected keys and types in between) on every sampler with options, all option values compared after each",
            run: c28_seq,
        },
        Harness {
            prop: "C28",
            name: "custom_sampler",
            bounds: "a custom sampler with options of all four types (8-bit integer), nested prefixes and options without accessor: all sequences of 1-2 (quick) / 1-3 (thorough) settings over 17 keys x 14 values",
            run: c28_custom,
        },
        Harness {
            prop: "C29",
            name: "strings",
            bounds: "all configuration strings of length 0-8 (quick) / 0-9 (thorough) over {k,m,=,:,space,1} on 5 custom samplers (several, one, string, no options), against a reference reading of the format",
            run: c29_strings,
        },
        Harness {
            prop: "C29",
            name: "segments",
            bounds: "all sequences of 0-2 (quick; 3 for samplers with up to 2 options) / 0-3 (thorough) segments (each option by name, prefix, padded; empty; bad key, ambiguous, bad value, missing key) for every built-in sampler, against the reference and against set_option on a twin",
            run: c29_segments,
        },
        Harness {
            prop: "C29",
            name: "many_segments",
            bounds: "strings of every number of segments 1-70 (quick) / 1-300 (thorough) and around powers of two up to 4097 for every built-in sampler: options in turn or one of them throughout, values changing; all good, or one empty, unknown or unparsable segment first, 2nd, at every 5th place of short ones, in the middle, second to last or last",
            run: c29_many,
        },
        Harness {
            prop: "C29",
            name: "slips",
            bounds: "valid configuration strings of every built-in sampler and of custom ones (all option types) with one character (all of ASCII and 14 others) inserted or put in place of another at every position, or one removed or doubled, against the reference reader",
            run: c29_slips,
        },
        Harness {
            prop: "C29",
            name: "two_slips",
            bounds: "\"kap=1\" (quick) / \"kap=12:s=a b\" (thorough) with two such changes",
            run: c29_slips2,
        },
        Harness {
            prop: "C30",
            name: "all_orders",
            bounds: "every configurable built-in sampler x 3-5 parameter sets x {string, set_option, builder methods, string in two calls} x every order of the options (up to 720; mu after tau) x 2 starting points: options and bitwise behaviour of two calls on 5 inputs vs the constructed one",
            run: c30_orders,
        },
        Harness {
            prop: "C30",
            name: "each_value",
            bounds: "every option of every built-in sampler x 13 float / 9 integer values incl. extremes, other options fixed, 4 ways of setting it: options and bitwise behaviour vs the constructed one",
            run: c30_values,
        },
        Harness {
            prop: "C30",
            name: "every_value",
            bounds: "12 kinds x each option x {a grid of about 1400 numbers, every integer 0-1099 (quick) / 0-4999 (thorough)} x {string, set_option, builder}",
            run: c30_every,
        },
        Harness {
            prop: "C30",
            name: "set_while_in_use",
            bounds: "every configurable built-in sampler: all sequences of 4 (quick) / 5 (thorough) operations (3/4 for those with more than 3 options), then a call, out of {call on one of 3 collections, set any option to one of 2-3 values}, set by {string, set_option, writing through sampler_options_mut}, an operation that fails in between or not: every call bitwise as by a sampler constructed with the options of that moment, and options as by the model",
            run: c30_used,
        },
        Harness {
            prop: "C30",
            name: "builder_on_used",
            bounds: "every configurable built-in sampler x 3-5 parameter sets x every order of its builder methods x 2 starting points, the sampler called before the first and after each method: options and bitwise behaviour vs the constructed one (with the mu reached)",
            run: c30_used_builder,
        },
        Harness {
            prop: "C31",
            name: "edit_histories",
            bounds: "1-2 initial slots of 7 kinds (equal or different names), all histories of 0-2 (quick; 3 for one slot) / 0-3 (thorough) edits out of configure(name or unknown, 7 strings), ensure_present, push_slot, +, +=; the finished chain run and compared with the slot model",
            run: c31_edits,
        },
        Harness {
            prop: "C31",
            name: "longer_histories",
            bounds: "3 initial slots (static, single, chain in every order, distinct or clashing names), all histories of 3 (quick) / 4 (thorough) edits out of a reduced set",
            run: c31_long,
        },
        Harness {
            prop: "C31",
            name: "slot_names",
            bounds: "all pairs of 37 look-alike slot names (case, blanks, prefixes, separators, empty, combining, NUL, digits, long) x 6 x 6 slot kinds, configured by each of the 37 names and by the second slot's: the first slot of exactly that name, or an error",
            run: c31_names,
        },
        Harness {
            prop: "C31",
            name: "many",
            bounds: "1-257 slots of one of 7 kinds or mixed, one of them configured 1-300 times by 4 cycles of good and bad strings, ensure_present on all before, after or never",
            run: c31_many,
        },
        Harness {
            prop: "C31",
            name: "edited_lists",
            bounds: "1-3 slots (static, empty single, set single, empty chain; names alpha, beta, alpha): all sequences of 3 (quick) / 4 (thorough) steps out of configure (3 names, 2 good and 1 bad string), ensure_present, and 9 edits of the builder's own slot list (swap, remove, pop, reverse, rotate, rename, insert in front, clear, replace a slot): names read back and the finished chain vs the slot model",
            run: c31_list,
        },
        Harness {
            prop: "C31",
            name: "builtin_slots",
            bounds: "all sequences of 1-3 edits on a builder holding built-in samplers; the chain's behaviour on a collection vs hand-made samplers",
            run: c31_real,
        },
        Harness {
            prop: "C34",
            name: "uint",
            bounds: "all strings of length 0-6 (quick) / 0-7 (thorough) over 11 characters, plus 2^64-8..2^64+8, powers of ten to 10^22 and +-1, with 0-3 leading zeros and padding",
            run: c34_uint,
        },
        Harness {
            prop: "C34",
            name: "float",
            bounds: "all strings of length 0-5 (quick) / 0-6 (thorough) over 14 characters, all case variants of 8 special words with signs and padding, all d.ddde+-dd decimals on an enumerated grid checked against exact integer arithmetic",
            run: c34_float,
        },
        Harness {
            prop: "C34",
            name: "bool_string",
            bounds: "all strings of length 0-4 over 16 characters as boolean, all one-character edits of the accepted words, all strings of length 0-5 over 8 characters (unicode whitespace) as string",
            run: c34_bool,
        },
        Harness {
            prop: "C34",
            name: "slips",
            bounds: "4 types x {all strings of 1-2 characters out of all 128 ASCII and 30 other characters; each of 50 good values, with each such character inserted, substituted or doubled at each position, or each character removed; thorough: two such slips in a value}",
            run: c34_slips,
        },
    ]
}

// ------------------------------------------------------------------ model of the options

pub type Cfg = Box<dyn BuildableSampler<usize, f32>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    U,
    F,
}
#[derive(Clone, Copy, Debug)]
pub enum Val {
    U(usize),
    F(f32),
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::U(a), Val::U(b)) => a == b,
            (Val::F(a), Val::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            _ => false,
        }
    }
}
impl Val {
    pub fn opt(&self) -> SamplerOptionValue<'static> {
        match *self {
            Val::U(x) => SamplerOptionValue::UInt(x as u64),
            Val::F(x) => SamplerOptionValue::Float(x as f64),
        }
    }
    pub fn text(&self) -> String {
        match *self {
            Val::U(x) => format!("{x}"),
            Val::F(x) => format!("{}", x as f64),
        }
    }
}

pub struct Kind {
    pub opts: &'static [(&'static str, Ty)],
    /// Start values different from any value the checks set.
    pub start: &'static [Val],
    pub make: fn(&[Val]) -> Cfg,
    pub default: fn() -> Cfg,
    /// Apply one builder-style method.
    pub builder: fn(Vec<(usize, Val)>, bool) -> Option<Cfg>,
    pub other: fn() -> Cfg,
}
pub fn u(v: &Val) -> usize {
    match *v {
        Val::U(x) => x,
        _ => unreachable!(),
    }
}
pub fn f(v: &Val) -> f32 {
    match *v {
        Val::F(x) => x,
        _ => unreachable!(),
    }
}

thread_local! {
    static BETWEEN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Call the sampler between its builder methods, if asked for.
fn use_between(s: &mut dyn Sampler) {
    if BETWEEN.with(|b| b.get()) {
        let mut l = prepare("raw", &shape("shuf", 9)).unwrap();
        let _ = s.sample_token(&mut Res::new(&[0x4000_0000], SAMPLE_HIST[0]), &mut l);
    }
}
macro_rules! build {
    ($start:expr, $sets:expr; $($i:literal => $m:ident $get:ident),*) => {{
        let mut s = $start;
        for (k, v) in $sets.iter() {
            use_between(&mut s);
            s = match *k {
                $($i => s.$m($get(v)),)*
                _ => return None,
            };
        }
        use_between(&mut s);
        Some(Box::new(s) as Cfg)
    }};
}

use Ty::*;
pub fn kinds() -> Vec<Kind> {
    vec![
        Kind {
            opts: &[("k", U), ("min_keep", U)],
            start: &[Val::U(7), Val::U(3)],
            make: |v| Box::new(SampleTopK::new(u(&v[0]), u(&v[1]))),
            default: || Box::new(SampleTopK::default()),
            builder: |s, d| build!(if d { SampleTopK::default() } else { SampleTopK::new(77, 13) }, s; 0 => k u, 1 => min_keep u),
            other: || Box::new(SampleTopK::new(77, 13)),
        },
        Kind {
            opts: &[("p", F), ("min_keep", U)],
            start: &[Val::F(0.35), Val::U(3)],
            make: |v| Box::new(SampleTopP::new(f(&v[0]), u(&v[1]))),
            default: || Box::new(SampleTopP::default()),
            builder: |s, d| build!(if d { SampleTopP::default() } else { SampleTopP::new(0.01, 13) }, s; 0 => p f, 1 => min_keep u),
            other: || Box::new(SampleTopP::new(0.01, 13)),
        },
        Kind {
            opts: &[("p", F), ("min_keep", U)],
            start: &[Val::F(0.35), Val::U(3)],
            make: |v| Box::new(SampleMinP::new(f(&v[0]), u(&v[1]))),
            default: || Box::new(SampleMinP::default()),
            builder: |s, d| build!(if d { SampleMinP::default() } else { SampleMinP::new(0.01, 13) }, s; 0 => p f, 1 => min_keep u),
            other: || Box::new(SampleMinP::new(0.01, 13)),
        },
        Kind {
            opts: &[("a1", F), ("a2", F), ("min_keep", U)],
            start: &[Val::F(0.35), Val::F(1.75), Val::U(3)],
            make: |v| Box::new(SampleTopA::new(f(&v[0]), f(&v[1]), u(&v[2]))),
            default: || Box::new(SampleTopA::default()),
            builder: |s, d| build!(if d { SampleTopA::default() } else { SampleTopA::new(0.01, 3.0, 13) }, s; 0 => a1 f, 1 => a2 f, 2 => min_keep u),
            other: || Box::new(SampleTopA::new(0.01, 3.0, 13)),
        },
        Kind {
            opts: &[("z", F), ("min_keep", U)],
            start: &[Val::F(0.35), Val::U(3)],
            make: |v| Box::new(SampleTailFree::new(f(&v[0]), u(&v[1]))),
            default: || Box::new(SampleTailFree::default()),
            builder: |s, d| build!(if d { SampleTailFree::default() } else { SampleTailFree::new(0.01, 13) }, s; 0 => z f, 1 => min_keep u),
            other: || Box::new(SampleTailFree::new(0.01, 13)),
        },
        Kind {
            opts: &[("p", F), ("min_keep", U)],
            start: &[Val::F(0.35), Val::U(3)],
            make: |v| Box::new(SampleLocallyTypical::new(f(&v[0]), u(&v[1]))),
            default: || Box::new(SampleLocallyTypical::default()),
            builder: |s, d| build!(if d { SampleLocallyTypical::default() } else { SampleLocallyTypical::new(0.01, 13) }, s; 0 => p f, 1 => min_keep u),
            other: || Box::new(SampleLocallyTypical::new(0.01, 13)),
        },
        Kind {
            opts: &[("temperature", F)],
            start: &[Val::F(0.35)],
            make: |v| Box::new(SampleTemperature::new(f(&v[0]))),
            default: || Box::new(SampleTemperature::default()),
            builder: |s, d| build!(if d { SampleTemperature::default() } else { SampleTemperature::new(9.0) }, s; 0 => temperature f),
            other: || Box::new(SampleTemperature::new(9.0)),
        },
        Kind {
            opts: &[("penalty", F), ("last_n", U)],
            start: &[Val::F(1.35), Val::U(3)],
            make: |v| Box::new(SampleRepetition::new(f(&v[0]), u(&v[1]))),
            default: || Box::new(SampleRepetition::default()),
            builder: |s, d| build!(if d { SampleRepetition::default() } else { SampleRepetition::new(9.0, 13) }, s; 0 => penalty f, 1 => last_n u),
            other: || Box::new(SampleRepetition::new(9.0, 13)),
        },
        Kind {
            opts: &[("frequency_penalty", F), ("presence_penalty", F), ("last_n", U)],
            start: &[Val::F(0.35), Val::F(1.75), Val::U(3)],
            make: |v| Box::new(SampleFreqPresence::new(f(&v[0]), f(&v[1]), u(&v[2]))),
            default: || Box::new(SampleFreqPresence::default()),
            builder: |s, d| build!(if d { SampleFreqPresence::default() } else { SampleFreqPresence::new(9.0, 8.0, 13) }, s; 0 => frequency f, 1 => presence f, 2 => last_n u),
            other: || Box::new(SampleFreqPresence::new(9.0, 8.0, 13)),
        },
        Kind {
            opts: &[("flat_penalty", F), ("stacking_penalty", F), ("min_length", U), ("tolerance", U), ("max_merge", U), ("last_n", U)],
            start: &[Val::F(0.35), Val::F(1.75), Val::U(5), Val::U(6), Val::U(7), Val::U(9)],
            make: |v| Box::new(SampleSeqRepetition::new(f(&v[0]), f(&v[1]), u(&v[2]), u(&v[3]), u(&v[4]), u(&v[5]))),
            default: || Box::new(SampleSeqRepetition::default()),
            builder: |s, d| build!(if d { SampleSeqRepetition::default() } else { SampleSeqRepetition::new(9.0, 8.0, 3, 0, 5, 13) }, s; 0 => flat_penalty f, 1 => stacking_penalty f, 2 => min_length u, 3 => tolerance u, 4 => max_merge u, 5 => last_n u),
            other: || Box::new(SampleSeqRepetition::new(9.0, 8.0, 3, 0, 5, 13)),
        },
        Kind {
            opts: &[("tau", F), ("eta", F), ("mu", F), ("m", U), ("n_vocab", U)],
            start: &[Val::F(3.5), Val::F(0.35), Val::F(6.25), Val::U(33), Val::U(99)],
            make: |v| Box::new(SampleMirostat1::new(u(&v[4]), f(&v[0]), f(&v[1])).m(u(&v[3])).mu(f(&v[2]))),
            default: || Box::new(SampleMirostat1::default()),
            builder: |s, d| build!(if d { SampleMirostat1::default() } else { SampleMirostat1::new(500, 8.0, 0.9) }, s; 0 => tau f, 1 => eta f, 2 => mu f, 3 => m u, 4 => n_vocab u),
            other: || Box::new(SampleMirostat1::new(500, 8.0, 0.9)),
        },
        Kind {
            opts: &[("tau", F), ("eta", F), ("mu", F)],
            start: &[Val::F(3.5), Val::F(0.35), Val::F(6.25)],
            make: |v| Box::new(SampleMirostat2::new(f(&v[0]), f(&v[1])).mu(f(&v[2]))),
            default: || Box::new(SampleMirostat2::default()),
            builder: |s, d| build!(if d { SampleMirostat2::default() } else { SampleMirostat2::new(8.0, 0.9) }, s; 0 => tau f, 1 => eta f, 2 => mu f),
            other: || Box::new(SampleMirostat2::new(8.0, 0.9)),
        },
        Kind {
            opts: &[],
            start: &[],
            make: |_| Box::new(SampleFlatBias::new([(1, 0.5)])),
            default: || Box::new(SampleFlatBias::default()),
            builder: |_, _| None,
            other: || Box::new(SampleFlatBias::new([(2, 0.5)])),
        },
        Kind {
            opts: &[],
            start: &[],
            make: |_| Box::new(SampleGreedy::new()),
            default: || Box::new(SampleGreedy::default()),
            builder: |_, _| None,
            other: || Box::new(SampleGreedy::new()),
        },
        Kind {
            opts: &[],
            start: &[],
            make: |_| Box::new(SampleRandDistrib::new()),
            default: || Box::new(SampleRandDistrib::default()),
            builder: |_, _| None,
            other: || Box::new(SampleRandDistrib::new()),
        },
    ]
}
pub const NK: usize = 15;

thread_local! {
    static KINDS: Vec<Kind> = kinds();
}
pub fn with_kind<T>(i: usize, g: impl FnOnce(&Kind) -> T) -> T {
    KINDS.with(|k| g(&k[i]))
}

/// Which option does the key name? (exact name first, else the only prefix match)
fn resolve(keys: &[&str], key: &str) -> Option<usize> {
    let key = key.trim();
    if let Some(i) = keys.iter().position(|k| *k == key) {
        return Some(i);
    }
    let m: Vec<usize> = (0..keys.len()).filter(|i| keys[*i].starts_with(key)).collect();
    if m.len() == 1 {
        Some(m[0])
    } else {
        None
    }
}
fn keys_of(k: &Kind) -> Vec<&'static str> {
    k.opts.iter().map(|o| o.0).collect()
}
/// Model of one successful setting.
pub fn assign(k: &Kind, st: &mut [Val], i: usize, v: Val) {
    st[i] = v;
    if k.opts[i].0 == "tau" {
        let j = k.opts.iter().position(|o| o.0 == "mu").unwrap();
        st[j] = Val::F(f(&v) * 2.0);
    }
}
/// Read all options in the model's order through the option list.
pub fn read_all(k: &Kind, s: &Cfg) -> Result<Vec<Val>, String> {
    let o = s.sampler_options();
    ensure!(o.len() == k.opts.len(), "option list has {} entries instead of {}", o.len(), k.opts.len());
    let mut out = vec![];
    for (key, _) in k.opts {
        let Some((_, Some(v))) = o.iter().find(|(md, _)| md.key == *key) else {
            return Err(format!("option {key} is not accessible"));
        };
        let v = match v {
            SamplerOptionValue::UInt(x) => Val::U(*x),
            SamplerOptionValue::Float(x) => Val::F(*x),
            x => return Err(format!("option {key} has the unexpected value {x:?}")),
        };
        let g = s.get_option(key).map_err(|e| format!("get_option({key:?}) failed: {e}"))?;
        let same = match (&g, &v) {
            (SamplerOptionValue::UInt(a), Val::U(b)) => *a == *b as u64,
            (SamplerOptionValue::Float(a), Val::F(b)) => Val::F(*a as f32) == Val::F(*b),
            _ => false,
        };
        ensure!(same, "get_option({key:?}) gives {g:?} but the option list has {v:?}");
        out.push(v);
    }
    Ok(out)
}
pub fn expect_state(k: &Kind, s: &Cfg, want: &[Val], what: &str) -> R {
    let got = read_all(k, s)?;
    ensure!(got == want, "{what}: options {:?} are {got:?}, expected {want:?}", keys_of(k));
    Ok(())
}

// ------------------------------------------------------------------ C28

fn c28_meta(ctx: &mut Ctx) -> R {
    let i = ctx.choose(NK);
    with_kind(i, |k| {
        let s = (k.make)(k.start);
        let md = s.sampler_metadata();
        ctx.state(&md.name);
        ctx.step();
        let mut want: Vec<(&str, SamplerOptionType)> = k
            .opts
            .iter()
            .map(|(n, t)| (*n, if *t == U { SamplerOptionType::UInt } else { SamplerOptionType::Float }))
            .collect();
        let mut got: Vec<(&str, SamplerOptionType)> = md.options.iter().map(|o| (o.key, o.option_type)).collect();
        want.sort_by_key(|x| x.0);
        got.sort_by_key(|x| x.0);
        ensure!(want == got, "{}: documented options {want:?}, reported {got:?}", md.name);
        let d = (k.default)();
        ensure!(d.sampler_metadata() == md, "metadata depends on the parameters");
        for j in 0..NK {
            if j != i {
                let n = with_kind(j, |k| (k.default)().sampler_metadata().name);
                ensure!(n != md.name, "two samplers report the name {n:?}");
            }
        }
        expect_state(k, &s, k.start, "freshly constructed")?;
        // The mutable view lists the same options in the same order.
        let mut s = s;
        let a: Vec<String> = s.sampler_options().iter().map(|o| o.0.key.to_string()).collect();
        let b: Vec<String> = s.sampler_options_mut().iter().map(|o| o.0.key.to_string()).collect();
        ensure!(a == b, "option views differ: {a:?} vs {b:?}");
        Ok(())
    })
}

fn all_keys() -> Vec<String> {
    let mut v = vec![String::new(), " ".into(), "x".into(), "_".into(), "zz".into(), "=".into()];
    for i in 0..NK {
        with_kind(i, |k| {
            for (n, _) in k.opts {
                for l in 1..=n.len() {
                    v.push(n[..l].to_string());
                }
                v.push(format!("{n}x"));
                v.push(format!("{n}_"));
                v.push(format!("{n}{n}"));
                v.push(n[1..].to_string());
                v.push(format!(" {n}\t"));
                v.push(format!("\n{} ", &n[..1]));
                v.push(n.to_uppercase());
                v.push(n[..1].to_uppercase());
                v.push(n.replace('_', "-"));
                v.push(n.replace('_', ""));
                v.push(n.replace('_', " "));
                v.push(n.replace('_', "."));
                v.push(n.replace('_', "__"));
                v.push(n.split('_').rev().collect::<Vec<_>>().join("_"));
                v.push(n.split('_').map(|p| &p[..1]).collect::<Vec<_>>().join("_"));
                v.push(n.split('_').map(|p| &p[..1]).collect::<String>());
                // Every single slip of the pen.
                for l in 0..n.len() {
                    let (a, b) = n.split_at(l);
                    let c = &b[..1];
                    let b = &b[1..];
                    v.push(format!("{a}{b}"));
                    v.push(format!("{a}{}{b}", c.to_uppercase()));
                    for x in ["-", " ", "x", ".", "\u{e9}", "*", "?"] {
                        v.push(format!("{a}{x}{b}"));
                    }
                    for x in ["_", " ", "x", "s", "\0", "\u{200b}"] {
                        v.push(format!("{a}{x}{c}{b}"));
                    }
                    if !b.is_empty() {
                        v.push(format!("{a}{}{c}{}", &b[..1], &b[1..]));
                    }
                }
            }
        });
    }
    v.sort();
    v.dedup();
    v
}
thread_local! {
    static KEYS: Vec<String> = all_keys();
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Anyv {
    U(u64),
    F(f64),
    B(bool),
    S(&'static str),
}
fn c28_keys(ctx: &mut Ctx) -> R {
    let i = ctx.choose(NK);
    let nk = KEYS.with(|k| k.len());
    let ki = ctx.choose(nk);
    let key = KEYS.with(|k| k[ki].clone());
    let via = ctx.choose(2);
    let vals = [
        Anyv::U(1),
        Anyv::U(0),
        Anyv::U(4242),
        Anyv::U(1 << 40),
        Anyv::F(0.5),
        Anyv::F(-2.25),
        Anyv::F(0.0),
        Anyv::F(f64::INFINITY),
        Anyv::B(true),
        Anyv::B(false),
        Anyv::S("0.5x"),
        Anyv::S(""),
    ];
    let v = *ctx.pick(&vals);
    with_kind(i, |k| {
        let mut s = (k.make)(k.start);
        let mut st = k.start.to_vec();
        let keys = keys_of(k);
        let r = resolve(&keys, &key);
        ctx.steps(2);
        // Reading by the same key.
        let g = s.get_option(&key);
        match r {
            Some(x) => match (g.as_ref().map_err(|e| e.to_string()), k.start[x]) {
                (Ok(SamplerOptionValue::UInt(a)), Val::U(b)) => ensure!(*a == b as u64, "get_option({key:?}) = {a}, expected {b}"),
                (Ok(SamplerOptionValue::Float(a)), Val::F(b)) => ensure!(*a as f32 == b, "get_option({key:?}) = {a}, expected {b}"),
                (g, _) => return Err(format!("get_option({key:?}) names {} but gives {g:?}", keys[x])),
            },
            None => ensure!(g.is_err(), "get_option({key:?}) gives {g:?} although no single option of {keys:?} is named by it"),
        }
        drop(g);
        let (ok, what) = if via == 0 {
            let want = match (r, v) {
                (Some(x), Anyv::U(n)) if k.opts[x].1 == U => Some((x, Val::U(n as usize))),
                (Some(x), Anyv::F(n)) if k.opts[x].1 == F => Some((x, Val::F(n as f32))),
                _ => None,
            };
            let ov = match v {
                Anyv::U(x) => SamplerOptionValue::UInt(x),
                Anyv::F(x) => SamplerOptionValue::Float(x),
                Anyv::B(x) => SamplerOptionValue::Bool(x),
                Anyv::S(x) => SamplerOptionValue::String(Cow::from(x)),
            };
            let res = s.set_option(&key, ov);
            let what = format!("set_option({key:?}, {v:?}) -> {:?}", res.as_ref().map_err(|e| e.to_string()));
            ensure!(res.is_ok() == want.is_some(), "{what}, options {keys:?}");
            if let Some((x, v)) = want {
                assign(k, &mut st, x, v);
            }
            (res.is_ok(), what)
        } else {
            let text = match v {
                Anyv::U(x) => format!("{x}"),
                Anyv::F(x) => format!("{x}"),
                Anyv::B(x) => format!("{x}"),
                Anyv::S(x) => x.to_string(),
            };
            if key.contains('=') {
                return Ok(());
            }
            let want = r.and_then(|x| match k.opts[x].1 {
                U => u64::from_str(&text).ok().map(|n| (x, Val::U(n as usize))),
                F => f64::from_str(&text).ok().map(|n| (x, Val::F(n as f32))),
            });
            let arg = format!("{key}={text}");
            let res = s.configure(&arg);
            let what = format!("configure({arg:?}) -> {:?}", res.as_ref().map_err(|e| e.to_string()));
            ensure!(res.is_ok() == want.is_some(), "{what}, options {keys:?}");
            if let Some((x, v)) = want {
                assign(k, &mut st, x, v);
            }
            (res.is_ok(), what)
        };
        ctx.state(&(i, &key, via, ok, format!("{st:?}")));
        expect_state(k, &s, &st, &what)?;
        if let (true, Some(x)) = (ok, r) {
            let g = s.get_option(&key).map_err(|e| format!("{what} worked but get_option fails: {e}"))?;
            let same = match (g, st[x]) {
                (SamplerOptionValue::UInt(a), Val::U(b)) => a == b as u64,
                (SamplerOptionValue::Float(a), Val::F(b)) => a as f32 == b,
                _ => false,
            };
            ensure!(same, "{what}: not read back through the same key");
        }
        Ok(())
    })
}

/// The shortest prefix that names the option (or its full name).
fn shortest(keys: &[&'static str], i: usize) -> String {
    for l in 1..=keys[i].len() {
        if resolve(keys, &keys[i][..l]) == Some(i) {
            return keys[i][..l].to_string();
        }
    }
    keys[i].to_string()
}
fn c28_lengths(ctx: &mut Ctx) -> R {
    const CH: &[u8] = b"abcdefghijklmnopqrstuvwxyz_01-";
    let i = ctx.choose(NK);
    let names: Vec<&'static str> = with_kind(i, |k| Ok::<_, String>(keys_of(k)))?;
    let key = match ctx.choose(3) {
        0 => (0..ctx.range(1, 2)).map(|_| ctx.range(32, 126) as u8 as char).collect::<String>(),
        1 => {
            let n = ctx.qt(3, 4);
            // The first character: one that begins an option, or any.
            let mut first: Vec<u8> = names.iter().filter_map(|n| n.bytes().next()).collect();
            first.sort();
            first.dedup();
            first.push(b'q');
            let f = *ctx.pick(&first);
            std::iter::once(f as char).chain((1..n).map(|_| *ctx.pick(CH) as char)).collect()
        }
        _ if names.is_empty() => return Ok(()),
        _ => {
            let name = *ctx.pick(&names);
            match ctx.choose(3) {
                0 => {
                    let base = &name[..ctx.range(0, name.len())];
                    let c = *ctx.pick(&['x', '_', 'n', '0', '=', '.', 'p', 'é', '\0']);
                    let n = ctx.choose(72);
                    let n = if n < 67 { n } else { [100, 255, 256, 257, 65536][n - 67] };
                    format!("{base}{}", c.to_string().repeat(n))
                }
                1 => name[..ctx.range(1, name.len())].repeat(ctx.range(2, 3)),
                _ => {
                    let other = *ctx.pick(&names);
                    let sep = *ctx.pick(&["", "_", " ", ".", ",", "/"]);
                    format!("{name}{sep}{other}")
                }
            }
        }
    };
    with_kind(i, |k| {
        let mut s = (k.make)(k.start);
        let mut st = k.start.to_vec();
        let r = resolve(&names, &key);
        ctx.steps(3);
        let short: String = key.chars().take(60).collect();
        let g = s.get_option(&key).map(|_| ()).map_err(|e| e.to_string());
        ensure!(g.is_ok() == r.is_some(), "get_option({short:?}, {} bytes): {g:?}, options {names:?}", key.len());
        for typ in [U, F] {
            let v = match typ {
                U => SamplerOptionValue::UInt(77),
                F => SamplerOptionValue::Float(0.625),
            };
            let hit = r.filter(|x| k.opts[*x].1 == typ);
            let res = s.set_option(&key, v).map(|_| ()).map_err(|e| e.to_string());
            ensure!(res.is_ok() == hit.is_some(), "set_option({short:?}, {} bytes): {res:?}, options {names:?}", key.len());
            if let Some(x) = hit {
                assign(k, &mut st, x, match typ { U => Val::U(77), F => Val::F(0.625) });
            }
        }
        ctx.state(&(i, r));
        expect_state(k, &s, &st, &format!("setting by the key {short:?} ({} bytes)", key.len()))
    })
}
fn c28_names(ctx: &mut Ctx) -> R {
    const NAMES: [&str; 14] = ["a", "aa", "ab", "aba", "abab", "b", "ba", "", "a_b", "a_bc", "A", "é", "éa", "abc_d"];
    const KEYS: [&str; 20] = [
        "", "a", "aa", "ab", "aba", "abab", "ababa", "b", "ba", "a_", "a_b", "a_bc", "A", "é", "éa", "abc", " a ", "c", "_", "Ab",
    ];
    let md = |key| SamplerOptionMetadata { key, description: None, option_type: SamplerOptionType::UInt };
    if ctx.choose(2) == 1 {
        // Long lists: option i is called by i letters.
        const LONG: &str = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";
        let n = ctx.range(1, 300);
        let len = ctx.range(0, 302);
        let rev = ctx.flag();
        let mut names: Vec<&'static str> = (1..=n).map(|i| &LONG[..i]).collect();
        if rev {
            names.reverse();
        }
        let key = "a".repeat(len);
        let opts = SamplerOptions::<usize>::from(names.iter().map(|n| (md(n), Some(n.len()))));
        let r = opts.find_option_definition(&key);
        ctx.step();
        let want = resolve(&names, &key);
        ctx.state(&(n, want));
        return match (r, want) {
            (Ok((m, Some(i))), Some(w)) if i == w && m.key == names[w] => Ok(()),
            (Err(_), None) => Ok(()),
            (r, w) => Err(format!("{n} options of 1-{n} times the letter a (reversed {rev}), key of {len}: {r:?}, expected index {w:?}")),
        };
    }
    let n = ctx.range(0, 4);
    let mut names: Vec<&'static str> = vec![];
    for _ in 0..n {
        let left: Vec<&'static str> = NAMES.iter().filter(|x| !names.contains(x)).copied().collect();
        names.push(*ctx.pick(&left));
    }
    let hidden = if ctx.thorough() { ctx.choose(1 << n) } else { (1 << ctx.choose(n + 1)) >> 1 };
    let opts = SamplerOptions::<usize>::from(names.iter().enumerate().map(|(i, k)| (md(k), (hidden >> i & 1 == 0).then_some(i))));
    for key in KEYS {
        let r = opts.find_option_definition(key);
        ctx.step();
        let want = resolve(&names, key);
        let ok = match (&r, want) {
            (Ok((m, i)), Some(w)) => m.key == names[w] && *i == (hidden >> w & 1 == 0).then_some(w),
            (Err(_), None) => true,
            _ => false,
        };
        ensure!(ok, "options {names:?} (hidden {hidden:b}), key {key:?}: {r:?}, expected index {want:?}");
    }
    ctx.state(&names);
    Ok(())
}
fn c28_seq(ctx: &mut Ctx) -> R {
    let i = ctx.choose(NK - 3);
    with_kind(i, |k| {
        let keys = keys_of(k);
        let n = ctx.range(2, ctx.qt(3, if keys.len() > 5 { 4 } else { 5 }));
        let mut s = (k.make)(k.start);
        let mut st = k.start.to_vec();
        for _ in 0..n {
            let c = ctx.choose(keys.len() + 2);
            if c >= keys.len() {
                let r = if c == keys.len() {
                    s.set_option("nothing_like_it", SamplerOptionValue::UInt(5))
                } else {
                    // Right key, wrong type.
                    let x = ctx.choose(keys.len());
                    let v = if k.opts[x].1 == U { SamplerOptionValue::Float(9.5) } else { SamplerOptionValue::UInt(9) };
                    s.set_option(keys[x], v)
                };
                ensure!(r.is_err(), "unknown key or wrong type accepted");
            } else {
                let key = if ctx.flag() { keys[c].to_string() } else { shortest(&keys, c) };
                let v = match (k.opts[c].1, ctx.flag()) {
                    (U, false) => Val::U(21),
                    (U, true) => Val::U(0),
                    (F, false) => Val::F(0.625),
                    (F, true) => Val::F(-8.5),
                };
                s.set_option(&key, v.opt()).map_err(|e| format!("set_option({key:?}, {v:?}) failed: {e}"))?;
                assign(k, &mut st, c, v);
            }
            ctx.step();
            expect_state(k, &s, &st, "after a setting")?;
        }
        ctx.state(&(i, format!("{st:?}")));
        Ok(())
    })
}

/// A custom sampler with all option types, an 8-bit integer and nested prefixes.
#[derive(Debug, Clone)]
struct Kitchen {
    f: f32,
    flag: bool,
    n: u8,
    name: Cow<'static, str>,
    pre: usize,
    post: usize,
}
fn kitchen_md() -> Vec<SamplerOptionMetadata> {
    let o = |key, option_type| SamplerOptionMetadata { key, description: None, option_type };
    vec![
        o("flag", SamplerOptionType::Bool),
        o("f", SamplerOptionType::Float),
        o("nope", SamplerOptionType::UInt),
        o("name", SamplerOptionType::String),
        o("n", SamplerOptionType::UInt),
        o("locked", SamplerOptionType::Float),
    ]
}
impl Sampler for Kitchen {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}
impl HasSamplerMetadata<u8, f32> for Kitchen {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "kitchen", description: None, options: kitchen_md() }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, u8, f32>> {
        use SamplerOptionValue as V;
        SamplerOptions::from(kitchen_md().into_iter().zip([
            Some(V::Bool(self.flag)),
            Some(V::Float(self.f)),
            None,
            Some(V::String(self.name.clone())),
            Some(V::UInt(self.n)),
            None,
        ]))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, u8, f32>> {
        use SamplerOptionValueMut as V;
        SamplerOptions::from(kitchen_md().into_iter().zip([
            Some(V::Bool(&mut self.flag)),
            Some(V::Float(&mut self.f)),
            None,
            Some(V::String(&mut self.name)),
            Some(V::UInt(&mut self.n)),
            None,
        ]))
    }
}
impl ConfigurableSampler<u8, f32> for Kitchen {
    fn pre_set_option(&mut self, _: &SamplerOptionMetadata, _: &mut SamplerOptionValue) -> anyhow::Result<()> {
        self.pre += 1;
        Ok(())
    }
    fn post_set_option(&mut self, _: &SamplerOptionMetadata) -> anyhow::Result<()> {
        self.post += 1;
        Ok(())
    }
}
fn c28_custom(ctx: &mut Ctx) -> R {
    let keys = ["flag", "f", "nope", "name", "n", "locked"];
    let tries = ["flag", "f", "fl", "fla", "flags", "n", "na", "name", "no", "nope", "nam", "", "l", "locked", " n ", "N", "x"];
    let vals = [
        Anyv::U(0),
        Anyv::U(200),
        Anyv::U(255),
        Anyv::U(256),
        Anyv::U(257),
        Anyv::U(65536 + 7),
        Anyv::U(u64::MAX),
        Anyv::F(1.5),
        Anyv::F(3.0),
        Anyv::B(true),
        Anyv::B(false),
        Anyv::S("abc"),
        Anyv::S(""),
        Anyv::S("7"),
    ];
    let n = ctx.range(1, ctx.qt(2, 3));
    let mut s = Kitchen { f: 0.25, flag: false, n: 9, name: Cow::from("start"), pre: 0, post: 0 };
    let mut st = (0.25f32, false, 9u8, "start".to_string(), 0usize);
    for step in 0..n {
        // The last of a series is explored in full, earlier ones only with settings that apply.
        let key = *ctx.pick(&tries);
        let v = if step + 1 < n && n == 3 { *ctx.pick(&vals[6..12]) } else { *ctx.pick(&vals) };
        let r = resolve(&keys, key).map(|i| keys[i]);
        let ov = match v {
            Anyv::U(x) => SamplerOptionValue::UInt(x),
            Anyv::F(x) => SamplerOptionValue::Float(x),
            Anyv::B(x) => SamplerOptionValue::Bool(x),
            Anyv::S(x) => SamplerOptionValue::String(Cow::from(x)),
        };
        let ok = match (r, v) {
            (Some("flag"), Anyv::B(x)) => {
                st.1 = x;
                true
            }
            (Some("f"), Anyv::F(x)) => {
                st.0 = x as f32;
                true
            }
            (Some("n"), Anyv::U(x)) if x < 256 => {
                st.2 = x as u8;
                true
            }
            (Some("name"), Anyv::S(x)) => {
                st.3 = x.to_string();
                true
            }
            _ => false,
        };
        if ok {
            st.4 += 1;
        }
        let res = s.set_option(key, ov);
        ctx.step();
        ensure!(res.is_ok() == ok, "set_option({key:?}, {v:?}) gave {:?}, expected {}", res.map_err(|e| e.to_string()), if ok { "success" } else { "an error" });
        let got = (s.f, s.flag, s.n, s.name.to_string(), s.post);
        ensure!(got == st, "after set_option({key:?}, {v:?}): (f, flag, n, name, completed settings) = {got:?}, expected {st:?}");
        // Reading through every key.
        for key in tries.iter().copied() {
        let g = s.get_option(key);
        let fine = match resolve(&keys, key).map(|i| keys[i]) {
            Some("flag") => matches!(g, Ok(SamplerOptionValue::Bool(b)) if b == st.1),
            Some("f") => matches!(g, Ok(SamplerOptionValue::Float(b)) if b as f32 == st.0),
            Some("n") => matches!(g, Ok(SamplerOptionValue::UInt(b)) if b == st.2 as u64),
            Some("name") => matches!(&g, Ok(SamplerOptionValue::String(b)) if *b == st.3),
            _ => g.is_err(),
        };
        ensure!(fine, "get_option({key:?}) gave {g:?} with (f, flag, n, name) = {st:?}");
        }
        ctx.state(&(format!("{st:?}"), key));
    }
    Ok(())
}

// ------------------------------------------------------------------ C29

/// A sampler whose options are given by a list.
#[derive(Debug, Clone, PartialEq)]
enum Cell {
    U(usize),
    F(f32),
    B(bool),
    S(Cow<'static, str>),
}
#[derive(Debug, Clone)]
struct Flex {
    md: Vec<SamplerOptionMetadata>,
    cells: Vec<Cell>,
}
impl Flex {
    fn new(o: &[(&'static str, SamplerOptionType)]) -> Flex {
        Flex {
            md: o.iter().map(|(key, t)| SamplerOptionMetadata { key, description: None, option_type: *t }).collect(),
            cells: o
                .iter()
                .map(|(_, t)| match t {
                    SamplerOptionType::UInt => Cell::U(777),
                    SamplerOptionType::Float => Cell::F(0.125),
                    SamplerOptionType::Bool => Cell::B(false),
                    SamplerOptionType::String => Cell::S(Cow::from("start")),
                })
                .collect(),
        }
    }
}
impl Sampler for Flex {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}
impl HasSamplerMetadata<usize, f32> for Flex {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "flex", description: None, options: self.md.clone() }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        SamplerOptions::from(self.md.clone().into_iter().zip(self.cells.iter().map(|c| {
            Some(match c {
                Cell::U(x) => SamplerOptionValue::UInt(*x),
                Cell::F(x) => SamplerOptionValue::Float(*x),
                Cell::B(x) => SamplerOptionValue::Bool(*x),
                Cell::S(x) => SamplerOptionValue::String(x.clone()),
            })
        })))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        SamplerOptions::from(self.md.clone().into_iter().zip(self.cells.iter_mut().map(|c| {
            Some(match c {
                Cell::U(x) => SamplerOptionValueMut::UInt(x),
                Cell::F(x) => SamplerOptionValueMut::Float(x),
                Cell::B(x) => SamplerOptionValueMut::Bool(x),
                Cell::S(x) => SamplerOptionValueMut::String(x),
            })
        })))
    }
}
impl ConfigurableSampler<usize, f32> for Flex {}

/// The key=value list a configuration string stands for: (key, value text).
fn segments(s: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for seg in s.split(':') {
        let seg = seg.trim();
        if seg.is_empty() {
            continue;
        }
        match seg.find('=') {
            Some(i) => out.push((seg[..i].trim().to_string(), seg[i + 1..].trim().to_string())),
            None => out.push((String::new(), seg.to_string())),
        }
    }
    out
}
fn digits(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.bytes().try_fold(0u64, |a, b| a.checked_mul(10)?.checked_add((b - b'0') as u64))
}
fn c29_strings(ctx: &mut Ctx) -> R {
    use SamplerOptionType as T;
    let which = ctx.choose(5);
    let opts: &[(&'static str, T)] = [
        &[("km", T::UInt), ("k", T::UInt), ("m1", T::Bool)][..],
        &[("k", T::UInt)][..],
        &[("mk", T::String)][..],
        &[][..],
        &[("kk", T::Float), ("km", T::UInt), ("1", T::UInt), ("mm", T::String)][..],
    ][which];
    let n = ctx.range(0, ctx.qt(8, 9));
    let mut s = String::new();
    for _ in 0..n {
        s.push(*ctx.pick(&['k', 'm', '=', ':', ' ', '1']));
    }
    flex_check(ctx, opts, &s)
}
fn flex_check(ctx: &mut Ctx, opts: &[(&'static str, SamplerOptionType)], s: &str) -> R {
    use SamplerOptionType as T;
    let keys: Vec<&str> = opts.iter().map(|o| o.0).collect();
    let mut sampler = Flex::new(opts);
    let before = sampler.cells.clone();
    let mut after = before.clone();
    let mut bad = false;
    for (k, v) in segments(s) {
        let Some(i) = resolve(&keys, &k) else {
            bad = true;
            break;
        };
        let c = match opts[i].1 {
            // An explicit plus sign is neither required nor ruled out.
            T::UInt if v.starts_with('+') => return Ok(()),
            T::UInt => digits(&v).map(|x| Cell::U(x as usize)),
            T::Float => f64::from_str(&v).ok().map(|x| Cell::F(x as f32)),
            T::Bool => match v.as_str() {
                x if TRUES.contains(&x) => Some(Cell::B(true)),
                x if FALSES.contains(&x) => Some(Cell::B(false)),
                _ => None,
            },
            // Values with '=' are outside the documented format.
            T::String if v.contains('=') => return Ok(()),
            T::String => Some(Cell::S(Cow::from(v))),
        };
        match c {
            Some(c) => after[i] = c,
            None => {
                bad = true;
                break;
            }
        }
    }
    let r = sampler.configure(s);
    ctx.step();
    ctx.state(&(keys.len(), bad, format!("{:?}", sampler.cells)));
    ctx.note(|| format!("configure({s:?}) on {keys:?} -> {r:?}, {:?}", sampler.cells));
    ensure!(r.is_err() == bad, "configure({s:?}) on options {keys:?} gave {:?}, expected {}", r.map_err(|e| e.to_string()), if bad { "an error" } else { "success" });
    if bad {
        ensure!(
            sampler.cells == after || sampler.cells == before,
            "configure({s:?}) on {keys:?} failed and left {:?}; allowed are {after:?} or {before:?}",
            sampler.cells
        );
    } else {
        ensure!(sampler.cells == after, "configure({s:?}) on {keys:?} left {:?}, expected {after:?}", sampler.cells);
    }
    Ok(())
}

fn c29_segments(ctx: &mut Ctx) -> R {
    let i = ctx.choose(NK);
    with_kind(i, |k| {
        let keys = keys_of(k);
        let n = ctx.range(0, ctx.qt(if keys.len() > 2 { 2 } else { 3 }, 3));
        let mut parts = vec![];
        for _ in 0..n {
            let c = ctx.choose(if keys.is_empty() { 8 } else { 15 });
            let p = match c {
                0 => "".to_string(),
                1 => " \t".into(),
                2 => "zz=1".into(),
                3 => "1".into(),
                4 => "=1".into(),
                5 => "m=3".into(),
                6 => "=".into(),
                7 => "frob".into(),
                _ => {
                    let x = ctx.choose(keys.len());
                    let val = if k.opts[x].1 == U { ["12", "0", "-1", "1.5"] } else { ["2.5", "-inf", "1,5", "zero"] };
                    match c {
                        8 => format!("{}={}", keys[x], val[0]),
                        9 => format!("{}={}", keys[x], val[1]),
                        10 => format!(" {} =\t{} ", keys[x], val[0]),
                        11 => format!("{}={}", shortest(&keys, x), val[0]),
                        12 => format!("{}={}", keys[x], val[2]),
                        13 => format!("{}={}", keys[x], val[3]),
                        _ => format!("{}=", keys[x]),
                    }
                }
            };
            parts.push(p);
        }
        let text = match ctx.choose(3) {
            0 => parts.join(":"),
            1 => format!(" :{}:\n", parts.join(" : ")),
            _ => format!("{}::", parts.join("::")),
        };
        kind_check(ctx, k, &text)
    })
}
fn kind_check(ctx: &mut Ctx, k: &Kind, text: &str) -> R {
    let mut s = (k.make)(k.start);
    let mut twin = (k.make)(k.start);
    let mut st = k.start.to_vec();
    let keys = keys_of(k);
    let mut bad = false;
    for (key, v) in segments(text) {
        // An explicit plus sign is neither required nor ruled out.
        if resolve(&keys, &key).is_some_and(|x| k.opts[x].1 == U) && v.starts_with('+') {
            return Ok(());
        }
        let val = resolve(&keys, &key).and_then(|x| match k.opts[x].1 {
            U => digits(&v).map(|n| (x, Val::U(n as usize))),
            F => f64::from_str(&v).ok().map(|n| (x, Val::F(n as f32))),
        });
        let Some((x, v)) = val else {
            bad = true;
            break;
        };
        assign(k, &mut st, x, v);
        twin.set_option(&key, v.opt()).map_err(|e| format!("set_option({key:?}, {v:?}): {e}"))?;
    }
    let r = s.configure(text);
    ctx.steps(2);
    ctx.state(&(k.opts.len(), bad, format!("{st:?}")));
    ensure!(r.is_err() == bad, "configure({text:?}) on {keys:?} gave {:?}, expected {}", r.map_err(|e| e.to_string()), if bad { "an error" } else { "success" });
    let got = read_all(k, &s)?;
    ensure!(
        got == st || (bad && got == k.start),
        "configure({text:?}) on {keys:?} (error: {bad}) left {got:?}, expected {st:?}"
    );
    expect_state(k, &twin, &st, "the twin after set_option")
}
/// Characters put into valid configuration strings.
fn slip_chars() -> Vec<char> {
    let mut v: Vec<char> = (0..128u8).map(|c| c as char).collect();
    v.extend(['\u{85}', '\u{a0}', '\u{200b}', '\u{2003}', '\u{feff}', 'é', '½', '١', '：', '＝', '；', '−', '\u{301}', '😀']);
    v
}
fn slip(ctx: &mut Ctx, base: &str, n: usize) -> String {
    let chars = slip_chars();
    let mut t: Vec<char> = base.chars().collect();
    for _ in 0..n {
        let at = ctx.choose(t.len() + 1);
        match ctx.choose(4) {
            0 => t.insert(at, *ctx.pick(&chars)),
            1 if at < t.len() => t[at] = *ctx.pick(&chars),
            2 if at < t.len() => {
                t.remove(at);
            }
            3 if at < t.len() => {
                let c = t[at];
                t.insert(at, c);
            }
            _ => {}
        }
    }
    t.into_iter().collect()
}
fn c29_slips(ctx: &mut Ctx) -> R {
    use SamplerOptionType as T;
    let n = 1;
    if ctx.flag() {
        let base = *ctx.pick(&[
            "kappa=12:k=3:mode=yes:name=some text:f=2.5",
            "k=7 : name=a,b;c #d/e : f=-1e-3",
            ":name= x y :mode=f::kap=1",
            "f=inf:mod=1:name=",
        ]);
        let opts = [("kappa", T::UInt), ("k", T::UInt), ("mode", T::Bool), ("name", T::String), ("f", T::Float)];
        let s = slip(ctx, base, n);
        return flex_check(ctx, &opts, &s);
    }
    if ctx.flag() {
        let opts = [("name", T::String)];
        let base = *ctx.pick(&["some text", "name=a:b", "=x y", " // z "]);
        let s = slip(ctx, base, n);
        return flex_check(ctx, &opts, &s);
    }
    let i = ctx.choose(NK);
    with_kind(i, |k| {
        let keys = keys_of(k);
        let v = |i: usize| if k.opts[i].1 == U { "12" } else { "-2.5" };
        let mut bases = vec![keys.iter().enumerate().map(|(i, x)| format!("{x}={}", v(i))).collect::<Vec<_>>().join(":")];
        if keys.len() == 1 {
            bases.push(v(0).to_string());
        }
        if keys.len() > 1 {
            let m = keys.len() - 1;
            bases.push(format!(" {} = {} : {}={} ", shortest(&keys, m), v(m), keys[0], v(0)));
        }
        let base = ctx.pick(&bases).clone();
        let s = slip(ctx, &base, n);
        kind_check(ctx, k, &s)
    })
}
fn c29_many(ctx: &mut Ctx) -> R {
    let i = ctx.choose(NK);
    let mut counts: Vec<usize> = (1..=ctx.qt(70, 300)).collect();
    counts.extend([127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 4097]);
    let n = *ctx.pick(&counts);
    with_kind(i, |k| {
        let keys = keys_of(k);
        if keys.is_empty() {
            return Ok(());
        }
        let turn = ctx.choose(1 + keys.len());
        let odd = ctx.choose(4);
        let at = if odd == 0 {
            n
        } else {
            let mut places = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
            if n <= 70 {
                places.extend((0..n).step_by(5));
            }
            places.retain(|p| *p < n);
            places.sort();
            places.dedup();
            *ctx.pick(&places)
        };
        let seg = |j: usize| {
            let o = if turn == 0 { j % keys.len() } else { turn - 1 };
            match (j == at, odd) {
                (true, 1) => String::new(),
                (true, 2) => "nokey=1".into(),
                (true, 3) => format!("{}=1x", keys[o]),
                _ if k.opts[o].1 == U => format!("{}={}", keys[o], 1 + j % 911),
                _ => format!("{}={}.25", keys[o], j % 911),
            }
        };
        let s = (0..n).map(seg).collect::<Vec<_>>().join(":");
        kind_check(ctx, k, &s)
    })
}
/// Two slips in one string.
fn c29_slips2(ctx: &mut Ctx) -> R {
    use SamplerOptionType as T;
    let opts = [("kap", T::UInt), ("s", T::String)];
    let s = slip(ctx, ctx.qt("kap=1", "kap=12:s=a b"), 2);
    flex_check(ctx, &opts, &s)
}

// ------------------------------------------------------------------ C30

pub const SAMPLE_INPUTS: &[(&str, usize, &str)] =
    &[("shuf", 9, "raw"), ("zipf", 14, "raw"), ("plateaus", 12, "softmaxed"), ("forbid3", 8, "raw"), ("ties", 4, "raw")];
pub const SAMPLE_HIST: &[&[u32]] = &[&[1, 2, 3, 1, 2], &[0, 4, 5, 6, 0, 4, 7, 6], &[2, 2, 2, 2], &[1, 2, 3, 4, 1, 2, 9, 4], &[]];

pub fn behaviour(ctx: &mut Ctx, a: &mut dyn Sampler, b: &mut dyn Sampler, inputs: &[usize]) -> R {
    for i in inputs {
        let (sh, n, pr) = SAMPLE_INPUTS[*i];
        let mk = || prepare(pr, &shape(sh, n)).ok_or_else(|| "input".to_string());
        let run = |s: &mut dyn Sampler, l: &mut Logits, w: u32| {
            let mut res = Res::new(&[w], SAMPLE_HIST[*i]);
            s.sample_token(&mut res, l).map_err(|e| err_str(&e))
        };
        for w in [0x4000_0000u32, 0xe000_0000] {
            let (mut la, mut lb) = (mk()?, mk()?);
            let (ra, rb) = (run(a, &mut la, w), run(b, &mut lb, w));
            ctx.steps(2);
            let (sa, sb) = (snap(&la), snap(&lb));
            ensure!(
                ra == rb && sa.same(&sb),
                "on {sh}/{n}/{pr}: constructed gives {ra:?} {}, configured gives {rb:?} {}",
                short(&sa.e),
                short(&sb.e)
            );
        }
    }
    Ok(())
}

pub fn param_sets(i: usize) -> Vec<Vec<Val>> {
    let fl = Val::F;
    let un = Val::U;
    match i {
        0 => vec![vec![un(3), un(1)], vec![un(0), un(5)], vec![un(1), un(0)], vec![un(usize::MAX), un(2)]],
        1 | 5 => vec![vec![fl(0.6), un(1)], vec![fl(0.1), un(4)], vec![fl(0.95), un(0)], vec![fl(2.0), un(1)], vec![fl(0.0), un(2)]],
        2 => vec![vec![fl(0.3), un(1)], vec![fl(0.9), un(4)], vec![fl(0.0), un(0)], vec![fl(2.0), un(2)]],
        3 => vec![vec![fl(0.5), fl(1.5), un(1)], vec![fl(0.9), fl(0.25), un(3)], vec![fl(0.2), fl(2.0), un(0)], vec![fl(0.0), fl(1.0), un(1)]],
        4 => vec![vec![fl(0.5), un(1)], vec![fl(0.1), un(4)], vec![fl(0.95), un(0)], vec![fl(1.0), un(2)]],
        6 => vec![vec![fl(0.5)], vec![fl(3.0)], vec![fl(-1.0)], vec![fl(0.0)]],
        7 => vec![vec![fl(1.5), un(64)], vec![fl(4.0), un(2)], vec![fl(1.0), un(9)], vec![fl(2.0), un(0)]],
        8 => vec![vec![fl(0.5), fl(0.75), un(64)], vec![fl(0.0), fl(2.0), un(2)], vec![fl(1.5), fl(0.0), un(3)], vec![fl(0.25), fl(-0.5), un(4)]],
        9 => vec![
            vec![fl(1.0), fl(0.5), un(2), un(0), un(1), un(64)],
            vec![fl(0.25), fl(2.0), un(3), un(1), un(2), un(7)],
            vec![fl(3.0), fl(0.0), un(2), un(2), un(0), un(64)],
        ],
        10 => vec![
            vec![fl(2.0), fl(0.3), fl(1.5), un(6), un(20)],
            vec![fl(1.0), fl(0.5), fl(4.0), un(100), un(9)],
            vec![fl(3.0), fl(0.1), fl(6.0), un(3), un(500)],
        ],
        11 => vec![vec![fl(2.0), fl(0.3), fl(1.5)], vec![fl(1.0), fl(0.5), fl(4.0)], vec![fl(3.0), fl(0.1), fl(6.0)]],
        _ => vec![],
    }
}
pub fn permutation_of(ctx: &mut Ctx, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let j = ctx.choose(left.len());
        out.push(left.remove(j));
    }
    out
}
/// Does the order set mu only after tau?
pub fn valid_order(k: &Kind, order: &[usize]) -> bool {
    let pos = |n: &str| k.opts.iter().position(|o| o.0 == n).and_then(|i| order.iter().position(|x| *x == i));
    match (pos("tau"), pos("mu")) {
        (Some(t), Some(m)) => t < m,
        _ => true,
    }
}
pub fn configured(k: &Kind, way: usize, fresh: bool, sets: &[(usize, Val)]) -> Result<Option<Cfg>, String> {
    let seg = |(i, v): &(usize, Val)| format!("{}={}", k.opts[*i].0, v.text());
    let mut s = if fresh { (k.default)() } else { (k.other)() };
    match way {
        0 => {
            let t = sets.iter().map(seg).collect::<Vec<_>>().join(":");
            s.configure(&t).map_err(|e| format!("configure({t:?}): {e}"))?;
        }
        1 => {
            for (i, v) in sets {
                s.set_option(k.opts[*i].0, v.opt()).map_err(|e| format!("set_option: {e}"))?;
            }
        }
        2 => return Ok((k.builder)(sets.to_vec(), fresh)),
        _ => {
            let h = sets.len() / 2;
            for part in [&sets[..h], &sets[h..]] {
                let t = part.iter().map(seg).collect::<Vec<_>>().join(" : ");
                s.configure(&t).map_err(|e| format!("configure({t:?}): {e}"))?;
            }
        }
    }
    Ok(Some(s))
}
fn c30_orders(ctx: &mut Ctx) -> R {
    let i = ctx.choose(NK - 3);
    let sets = param_sets(i);
    let p = ctx.pick(&sets).clone();
    let way = ctx.choose(4);
    let fresh = ctx.flag();
    with_kind(i, |k| {
        let order = permutation_of(ctx, k.opts.len());
        if !valid_order(k, &order) {
            return Ok(());
        }
        let list: Vec<(usize, Val)> = order.iter().map(|x| (*x, p[*x])).collect();
        let Some(mut s) = configured(k, way, fresh, &list)? else { return Err("builder method missing".into()) };
        let mut want = (k.make)(&p);
        ctx.step();
        ctx.state(&(i, format!("{p:?}")));
        let what = format!("way {way} (0 string, 1 set_option, 2 builder, 3 two strings), settings {list:?}");
        expect_state(k, &s, &p, &what)?;
        // The behaviour is compared in full for the smaller samplers.
        let inputs: &[usize] = &[0, 1, 2, 3, 4];
        behaviour(ctx, &mut want, &mut s, inputs).map_err(|m| format!("{what}: {m}"))?;
        // Adaptive state afterwards is the same, too.
        let a = read_all(k, &want)?;
        expect_state(k, &s, &a, "options after the two runs")
    })
}
fn c30_values(ctx: &mut Ctx) -> R {
    one_value(ctx, false)
}
fn c30_every(ctx: &mut Ctx) -> R {
    one_value(ctx, true)
}
fn one_value(ctx: &mut Ctx, sweep: bool) -> R {
    let i = ctx.choose(NK - 3);
    with_kind(i, |k| {
        let x = ctx.choose(k.opts.len());
        let sets = param_sets(i);
        let base = if sweep { sets[0].clone() } else { ctx.pick(&sets).clone() };
        let fv = [0.0f32, 1.0, -1.0, 0.5, 0.1, 0.3333333, 7.25, 1e-30, 1e30, NINF, PINF, f32::MAX, f32::MIN_POSITIVE];
        let uv = [0usize, 1, 2, 3, 5, 64, 1 << 33, usize::MAX - 1, usize::MAX];
        let v = match k.opts[x].1 {
            U if sweep => Val::U(ctx.choose(ctx.qt(1100, 5000))),
            F if sweep => Val::F(*ctx.pick(super::sweeps::grid())),
            U => Val::U(*ctx.pick(&uv)),
            F => Val::F(*ctx.pick(&fv)),
        };
        let way = ctx.choose(3);
        // Set the base parameters by construction, then change one option.
        let mut p = base.clone();
        let mut s: Cfg = match way {
            2 => {
                let mut l: Vec<(usize, Val)> = (0..p.len()).filter(|j| *j != x).map(|j| (j, base[j])).collect();
                l.push((x, v));
                match (k.builder)(l, true) {
                    Some(s) => s,
                    None => return Err("builder method missing".into()),
                }
            }
            _ => {
                let mut s = (k.make)(&base);
                if way == 0 {
                    let t = format!("{}={}", k.opts[x].0, v.text());
                    s.configure(&t).map_err(|e| format!("configure({t:?}): {e}"))?;
                } else {
                    s.set_option(k.opts[x].0, v.opt()).map_err(|e| format!("set_option: {e}"))?;
                }
                s
            }
        };
        assign(k, &mut p, x, v);
        ctx.step();
        ctx.state(&(i, x, format!("{p:?}")));
        let what = format!("{} = {v:?} on top of {base:?}, way {way}", k.opts[x].0);
        expect_state(k, &s, &p, &what)?;
        let mut want = (k.make)(&p);
        behaviour(ctx, &mut want, &mut s, if sweep { &[1, 3] } else { &[0, 1, 2, 3, 4] }).map_err(|m| format!("{what}: {m}"))
    })
}

const USED_INPUTS: [usize; 3] = [0, 2, 3];
fn c30_used(ctx: &mut Ctx) -> R {
    let i = ctx.choose(NK - 3);
    with_kind(i, |k| {
        let sets = param_sets(i);
        let way = ctx.choose(3);
        // More values for the samplers with few options.
        let vals = if k.opts.len() > 3 { 2 } else { 3 };
        let n = if k.opts.len() > 3 { ctx.qt(3, 4) } else { ctx.qt(4, 5) };
        let mut s = (k.make)(&sets[0]);
        let mut st = sets[0].clone();
        let mut path = format!("way {way}, {:?} {:?}", keys_of(k), st);
        for d in 0..=n {
            let o = if d == n { ctx.choose(3) } else { ctx.choose(4 + k.opts.len() * vals) };
            if o == 3 {
                // An attempt that fails changes nothing.
                let bad = s.set_option("nothing", SamplerOptionValue::UInt(1)).is_ok()
                    || s.configure("nothing=1").is_ok()
                    || s.set_option(k.opts[0].0, SamplerOptionValue::Bool(true)).is_ok()
                    || s.configure(&format!("{}=x", k.opts[0].0)).is_ok();
                ensure!(!bad, "{path}: a wrong setting was accepted");
                continue;
            }
            if o > 3 {
                let (x, j) = ((o - 4) / vals, (o - 4) % vals);
                let v = sets[j][x];
                path += &format!("; {} = {v:?}", k.opts[x].0);
                match way {
                    0 => {
                        let t = format!("{}={}", k.opts[x].0, v.text());
                        s.configure(&t).map_err(|e| format!("{path}: {e}"))?;
                    }
                    1 => s.set_option(k.opts[x].0, v.opt()).map_err(|e| format!("{path}: {e}"))?,
                    _ => {
                        let mut all = s.sampler_options_mut();
                        let Some((_, Some(m))) = all.iter_mut().find(|(md, _)| md.key == k.opts[x].0) else {
                            return Err(format!("{path}: option not accessible"));
                        };
                        match (m, v) {
                            (SamplerOptionValueMut::UInt(r), Val::U(y)) => **r = y,
                            (SamplerOptionValueMut::Float(r), Val::F(y)) => **r = y,
                            _ => return Err(format!("{path}: option of another type")),
                        }
                    }
                }
                if way == 2 {
                    st[x] = v;
                } else {
                    assign(k, &mut st, x, v);
                }
                ctx.step();
                expect_state(k, &s, &st, &path)?;
                continue;
            }
            let (sh, m, pr) = SAMPLE_INPUTS[USED_INPUTS[o]];
            path += &format!("; call on {sh}/{m}/{pr}");
            let mut fresh = (k.make)(&st);
            let run = |s: &mut Cfg| {
                let mut l = prepare(pr, &shape(sh, m)).unwrap();
                let r = s.sample_token(&mut Res::new(&[[0x4000_0000, 0xe000_0000][o % 2]], SAMPLE_HIST[USED_INPUTS[o]]), &mut l);
                (r.map_err(|e| err_str(&e)), snap(&l))
            };
            let (a, b) = (run(&mut s), run(&mut fresh));
            ctx.steps(2);
            ctx.state(&(i, format!("{st:?}"), o));
            ensure!(a.0 == b.0 && a.1.same(&b.1), "{path}: gives {:?} {}, one constructed with the options {st:?} gives {:?} {}", a.0, short(&a.1.e), b.0, short(&b.1.e));
            ensure!(s.sampled_token_id() == fresh.sampled_token_id(), "{path}: token {:?}, one constructed with these options {:?}", s.sampled_token_id(), fresh.sampled_token_id());
            // Adaptive state: as in the constructed one.
            st = read_all(k, &fresh)?;
            expect_state(k, &s, &st, &path)?;
        }
        ctx.note(|| path.clone());
        Ok(())
    })
}
fn c30_used_builder(ctx: &mut Ctx) -> R {
    let i = ctx.choose(NK - 3);
    let sets = param_sets(i);
    let p = ctx.pick(&sets).clone();
    let fresh = ctx.flag();
    with_kind(i, |k| {
        let order = permutation_of(ctx, k.opts.len());
        let list: Vec<(usize, Val)> = order.iter().map(|x| (*x, p[*x])).collect();
        BETWEEN.with(|b| b.set(true));
        let s = (k.builder)(list.clone(), fresh);
        BETWEEN.with(|b| b.set(false));
        let Some(mut s) = s else { return Err("builder method missing".into()) };
        ctx.step();
        let mut want = p.clone();
        let what = format!("builder methods {list:?} on a sampler in use");
        let got = read_all(k, &s)?;
        if let Some(j) = k.opts.iter().position(|o| o.0 == "mu") {
            want[j] = got[j];
        }
        expect_state(k, &s, &want, &what)?;
        ctx.state(&(i, format!("{want:?}")));
        let mut c = (k.make)(&want);
        behaviour(ctx, &mut c, &mut s, &[0, 2, 3]).map_err(|m| format!("{what}: {m}"))?;
        let a = read_all(k, &c)?;
        expect_state(k, &s, &a, "options after the two runs")
    })
}

// ------------------------------------------------------------------ C31

#[derive(Debug, Clone)]
struct Marker {
    origin: usize,
    v: f32,
    w: usize,
    log: Arc<Mutex<Vec<(usize, u32, usize)>>>,
}
fn marker_md() -> Vec<SamplerOptionMetadata> {
    vec![
        SamplerOptionMetadata { key: "v", description: None, option_type: SamplerOptionType::Float },
        SamplerOptionMetadata { key: "w", description: None, option_type: SamplerOptionType::UInt },
    ]
}
impl Sampler for Marker {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.log.lock().unwrap().push((self.origin, self.v.to_bits(), self.w));
        Ok(l)
    }
}
impl HasSamplerMetadata<usize, f32> for Marker {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "marker", description: None, options: marker_md() }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        SamplerOptions::from(
            marker_md().into_iter().zip([Some(SamplerOptionValue::Float(self.v)), Some(SamplerOptionValue::UInt(self.w))]),
        )
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        SamplerOptions::from(
            marker_md()
                .into_iter()
                .zip([Some(SamplerOptionValueMut::Float(&mut self.v)), Some(SamplerOptionValueMut::UInt(&mut self.w))]),
        )
    }
}
impl ConfigurableSampler<usize, f32> for Marker {}

/// What a marker will log: (origin, v, w).
type Mk = (usize, f32, usize);
#[derive(Clone, Debug, PartialEq)]
enum MSlot {
    Static(usize),
    Single(usize, Option<Mk>),
    Chain(usize, Vec<Mk>),
}
type Model = Vec<(String, MSlot)>;
type MLog = Arc<Mutex<Vec<(usize, u32, usize)>>>;

/// Slot `id` of the kind, with its model.
fn slot(kind: usize, id: usize, log: &MLog) -> (SamplerSlot<usize, f32>, MSlot) {
    let mk = {
        let log = log.clone();
        move |origin: usize| Marker { origin, v: origin as f32, w: 50, log: log.clone() }
    };
    let fac = {
        let mk = mk.clone();
        move || Box::new(mk(id)) as Cfg
    };
    let d = (id, id as f32, 50usize);
    let sup = |j: usize| (id + 100 + j, (id + 100 + j) as f32, 50usize);
    match kind {
        0 => (SamplerSlot::new_static(fac), MSlot::Static(id)),
        1 => (SamplerSlot::new_single(fac, None::<Marker>), MSlot::Single(id, None)),
        2 => (SamplerSlot::new_single(fac, Some(mk(id + 100))), MSlot::Single(id, Some(sup(0)))),
        3 => (SamplerSlot::new_chain(fac, vec![]), MSlot::Chain(id, vec![])),
        4 => (SamplerSlot::new_chain(fac, vec![Box::new(mk(id + 100)) as Cfg]), MSlot::Chain(id, vec![sup(0)])),
        5 => (
            SamplerSlot::new_chain(fac, vec![Box::new(mk(id + 100)) as Cfg, Box::new(mk(id + 101)) as Cfg]),
            MSlot::Chain(id, vec![sup(0), sup(1)]),
        ),
        _ => {
            let _ = d;
            let log = log.clone();
            // A single slot whose factory hands out a boxed sampler wrapped once more.
            (
                SamplerSlot::Single {
                    factory: Box::new(move || Box::new(Marker { origin: id, v: id as f32, w: 50, log: log.clone() }) as Cfg),
                    sampler: None,
                },
                MSlot::Single(id, None),
            )
        }
    }
}
const CFGS: &[&str] = &["v=1", "v=2:w=7", " w = 3 ", "", "bad", "v=5:zz=1", "w=-1"];
/// Effect of a configuration string on a marker: Ok(new) or Err(the allowed leftovers).
fn mconf(m: Mk, s: &str) -> Result<Mk, Vec<Mk>> {
    let mut c = m;
    match s {
        "v=1" => c.1 = 1.0,
        "v=2:w=7" => {
            c.1 = 2.0;
            c.2 = 7
        }
        " w = 3 " => c.2 = 3,
        "" => {}
        "v=5:zz=1" => {
            c.1 = 5.0;
            return Err(vec![m, c]);
        }
        _ => return Err(vec![m]),
    }
    Ok(c)
}
/// Model of configure: success and the possible models afterwards.
fn model_configure(m: &Model, name: &str, s: &str) -> (bool, Vec<Model>) {
    let Some(i) = m.iter().position(|(n, _)| n == name) else { return (false, vec![m.clone()]) };
    let with = |sl: MSlot| {
        let mut x = m.clone();
        x[i].1 = sl;
        x
    };
    match &m[i].1 {
        MSlot::Static(_) => (false, vec![m.clone()]),
        MSlot::Single(id, Some(cur)) => match mconf(*cur, s) {
            Ok(c) => (true, vec![with(MSlot::Single(*id, Some(c)))]),
            Err(v) => (false, v.into_iter().map(|c| with(MSlot::Single(*id, Some(c)))).collect()),
        },
        MSlot::Single(id, None) => match mconf((*id, *id as f32, 50), s) {
            Ok(c) => (true, vec![with(MSlot::Single(*id, Some(c)))]),
            Err(_) => (false, vec![m.clone()]),
        },
        MSlot::Chain(id, v) => match mconf((*id, *id as f32, 50), s) {
            Ok(c) => {
                let mut v = v.clone();
                v.push(c);
                (true, vec![with(MSlot::Chain(*id, v))])
            }
            Err(_) => (false, vec![m.clone()]),
        },
    }
}
fn model_ensure(m: &mut Model, i: usize) {
    match &mut m[i].1 {
        MSlot::Single(id, s) if s.is_none() => *s = Some((*id, *id as f32, 50)),
        MSlot::Chain(id, v) if v.is_empty() => v.push((*id, *id as f32, 50)),
        _ => {}
    }
}
fn expected_log(m: &Model) -> Vec<(usize, u32, usize)> {
    let mut out = vec![];
    for (_, s) in m {
        match s {
            MSlot::Static(id) => out.push((*id, (*id as f32).to_bits(), 50)),
            MSlot::Single(_, o) => out.extend(o.iter().map(|x| (x.0, x.1.to_bits(), x.2))),
            MSlot::Chain(_, v) => out.extend(v.iter().map(|x| (x.0, x.1.to_bits(), x.2))),
        }
    }
    out
}
fn c31_run(ctx: &mut Ctx, kinds: &[usize], names: &[&str], edits: usize, cfgs: &[&str], pushes: &[usize]) -> R {
    let log: MLog = Default::default();
    let mut model: Model = vec![];
    let mut slots = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let (s, m) = slot(*k, 1000 * (i + 1), &log);
        model.push((names[i].to_string(), m));
        slots.push((names[i], s));
    }
    // Assembled from a list or slot by slot.
    let mut b = SamplerChainBuilder::<usize, f32>::default();
    match ctx.choose(3) {
        0 => b = SamplerChainBuilder::from(slots),
        1 => {
            for (n, s) in slots {
                b.push_slot(n.to_string(), s);
            }
        }
        _ => {
            for (j, (n, s)) in slots.into_iter().enumerate() {
                if j % 2 == 0 {
                    b = b + (n.to_string(), s);
                } else {
                    b += (n.to_string(), s);
                }
            }
        }
    }
    let mut models = vec![model];
    let mut hist = vec![];
    for e in 0..edits {
        let nslots = models[0].len();
        let mut nm: Vec<String> = models[0].iter().map(|x| x.0.clone()).collect();
        nm.dedup();
        nm.push("nosuchslot".into());
        // A truncated name must not be taken for the slot.
        nm.push(models[0][0].0[..1].to_string());
        let c = ctx.choose(nm.len() + nslots + pushes.len());
        if c < nm.len() {
            let name = nm[c].clone();
            let s = *ctx.pick(cfgs);
            let r = b.configure(&name, s);
            hist.push(format!("configure({name:?}, {s:?}) -> {}", if r.is_ok() { "ok" } else { "error" }));
            let mut next: Vec<Model> = vec![];
            let mut want = None;
            for m in &models {
                let (ok, l) = model_configure(m, &name, s);
                want = Some(ok);
                for x in l {
                    if !next.contains(&x) {
                        next.push(x);
                    }
                }
            }
            ensure!(Some(r.is_ok()) == want, "{hist:?} on {:?}: expected {:?}", models[0], want);
            models = next;
        } else if c < nm.len() + nslots {
            let i = c - nm.len();
            b[i].1.ensure_present();
            hist.push(format!("ensure_present(slot {i})"));
            for m in &mut models {
                model_ensure(m, i);
            }
        } else {
            let kind = pushes[c - nm.len() - nslots];
            let id = 10_000 * (e + 1);
            // A new name or a clash with the first slot.
            let name = if ctx.flag() { models[0][0].0.clone() } else { format!("pushed{e}") };
            let (s, m) = slot(kind, id, &log);
            match e % 3 {
                0 => b.push_slot(name.clone(), s),
                1 => b += (name.clone(), s),
                _ => b = b + (name.clone(), s),
            }
            hist.push(format!("push {name:?} {m:?}"));
            for x in &mut models {
                x.push((name.clone(), m.clone()));
            }
        }
        ctx.step();
    }
    ctx.state(&format!("{models:?}"));
    ctx.note(|| format!("{hist:?} models {models:?}"));
    let mut chain = b.into_chain();
    let mut l = Logits::try_from_iter([1.0f32, 2.0]).unwrap();
    chain.sample(&mut (), &mut l).map_err(|e| format!("running the finished chain failed: {e:?}"))?;
    let got = log.lock().unwrap().clone();
    ctx.step();
    ensure!(
        models.iter().any(|m| expected_log(m) == got),
        "history {hist:?} on initial slots {kinds:?} {names:?}: the chain ran (origin, v bits, w) {got:?}, expected {:?}",
        models.iter().map(expected_log).collect::<Vec<_>>()
    );
    Ok(())
}
fn c31_edits(ctx: &mut Ctx) -> R {
    let n = ctx.range(1, 2);
    let kinds: Vec<usize> = (0..n).map(|_| ctx.choose(7)).collect();
    let names: &[&str] = if n == 2 && ctx.flag() { &["alpha", "alpha"] } else { &["alpha", "beta"] };
    let e = ctx.range(0, ctx.qt(4 - n, 3));
    c31_run(ctx, &kinds, names, e, CFGS, &[0, 1, 2, 3, 4])
}
fn c31_long(ctx: &mut Ctx) -> R {
    let ord = permutation_of(ctx, 3);
    let names: &[&str] = *ctx.pick(&[&["alpha", "beta", "gamma"][..], &["alpha", "beta", "alpha"][..], &["alpha", "beta", "beta"][..]]);
    let kinds: Vec<usize> = ord.iter().map(|x| [0usize, 1, 3][*x]).collect();
    let e = ctx.qt(3, 4);
    c31_run(ctx, &kinds, names, e, &["v=1", " w = 3 ", "v=5:zz=1"], &[2])
}
/// Names that a sloppy comparison would take for each other.
const ALIKE: &[&str] = &[
    "a", "A", " a", "a ", "a\t", "\u{a0}a", "a\n", "ab", "aa", "b", "", " ", "a-b", "a_b", "a b", "ä", "a\u{308}", "a:", "a=", "a.b", "0", "00", "1", "+1", "\0", "a\0",
    "alpha", "alphabet", "Alpha", "alpha1", "alpha01", "\u{430}", "penalty_one", "penalty_two", "penalty_", "long_name_of_more_than_thirty_two_bytes_a",
    "long_name_of_more_than_thirty_two_bytes_b",
];
fn c31_names(ctx: &mut Ctx) -> R {
    let log: MLog = Default::default();
    let ns: Vec<&str> = (0..2).map(|_| *ctx.pick(ALIKE)).collect();
    let by = *ctx.pick(ALIKE);
    let kinds = [ctx.range(0, 5), ctx.range(0, 5)];
    let mut model: Model = vec![];
    let mut b = SamplerChainBuilder::<usize, f32>::default();
    for (i, n) in ns.iter().enumerate() {
        let (s, m) = slot(kinds[i], 1000 * (i + 1), &log);
        b.push_slot(n.to_string(), s);
        model.push((n.to_string(), m));
    }
    for (name, s) in [(by, "v=1"), (ns[1], "w=3")] {
        let r = b.configure(name, s);
        let (ok, mut next) = model_configure(&model, name, if s == "w=3" { " w = 3 " } else { s });
        ctx.step();
        ensure!(r.is_ok() == ok, "slots {ns:?} of kinds {kinds:?}: configure({name:?}, {s:?}) success {}, expected {ok}", r.is_ok());
        model = next.remove(0);
    }
    ctx.state(&format!("{model:?}"));
    ctx.note(|| format!("slots {ns:?} configured by {by:?}: {model:?}"));
    let mut l = Logits::try_from_iter([1.0f32, 2.0]).unwrap();
    b.into_chain().sample(&mut (), &mut l).map_err(|e| format!("running the finished chain failed: {e:?}"))?;
    let got = log.lock().unwrap().clone();
    ensure!(got == expected_log(&model), "slots {ns:?} of kinds {kinds:?} configured by {by:?}: the chain ran {got:?}, expected {:?}", expected_log(&model));
    Ok(())
}
/// Many slots, and many samplers in one slot.
fn c31_many(ctx: &mut Ctx) -> R {
    let log: MLog = Default::default();
    let n = *ctx.pick(&[1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 256, 257]);
    let base = ctx.choose(7);
    let mix = ctx.flag();
    let names: Vec<String> = (0..n).map(|i| format!("s{i}")).collect();
    let mut model: Model = vec![];
    let mut b = SamplerChainBuilder::<usize, f32>::default();
    for (i, x) in names.iter().enumerate() {
        let (s, m) = slot(if mix { (base + i) % 7 } else { base }, 1000 * (i + 1), &log);
        match i % 3 {
            0 => b.push_slot(x.clone(), s),
            1 => b += (x.clone(), s),
            _ => b = b + (x.clone(), s),
        }
        model.push((x.clone(), m));
    }
    let at = *ctx.pick(&[0usize, 1, n / 2, n - 1]);
    if at >= n {
        return Ok(());
    }
    let times = *ctx.pick(&[1usize, 2, 3, 8, 17, 33, 100, 300]);
    let cyc = *ctx.pick(&[&["v=1"][..], &["v=1", " w = 3 "][..], &["bad", "v=2:w=7"][..], &["", "w=-1", "v=1"][..]]);
    let ensured = ctx.choose(3);
    if ensured == 1 {
        b.iter_mut().enumerate().for_each(|(i, s)| {
            s.1.ensure_present();
            model_ensure(&mut model, i);
        });
    }
    for k in 0..times {
        let s = cyc[k % cyc.len()];
        let r = b.configure(&names[at], s);
        let (ok, mut next) = model_configure(&model, &names[at], s);
        ctx.step();
        ensure!(r.is_ok() == ok, "{n} slots of kind {base} (mixed {mix}): configure {} of {at} by {s:?}: success {}, expected {ok}", k + 1, r.is_ok());
        model = next.remove(0);
    }
    if ensured == 2 {
        b.iter_mut().enumerate().for_each(|(i, s)| {
            s.1.ensure_present();
            model_ensure(&mut model, i);
        });
    }
    ctx.state(&hash_of(&format!("{model:?}")));
    let mut l = Logits::try_from_iter([1.0f32, 2.0]).unwrap();
    b.into_chain().sample(&mut (), &mut l).map_err(|e| format!("running the finished chain failed: {e:?}"))?;
    let (got, want) = (log.lock().unwrap().clone(), expected_log(&model));
    let first = got.iter().zip(&want).position(|(x, y)| x != y);
    ensure!(
        got == want,
        "{n} slots of kind {base} (mixed {mix}), slot {at} configured {times} times by {cyc:?}, made present: {ensured}: {} samplers ran, expected {}, first difference {first:?}",
        got.len(),
        want.len()
    );
    Ok(())
}
/// The slot list edited by hand.
fn c31_list(ctx: &mut Ctx) -> R {
    let log: MLog = Default::default();
    let n = ctx.range(1, 3);
    let mut model: Model = vec![];
    let mut b = SamplerChainBuilder::<usize, f32>::default();
    for i in 0..n {
        let (s, m) = slot(*ctx.pick(&[0usize, 1, 2, 3]), 1000 * (i + 1), &log);
        let name = ["alpha", "beta", "alpha"][i].to_string();
        b.push_slot(name.clone(), s);
        model.push((name, m));
    }
    let mut hist = vec![];
    for e in 0..ctx.qt(3, 4) {
        let c = ctx.choose(9 + 1 + 9);
        let len = model.len();
        match c {
            0..=8 => {
                let name = ["alpha", "beta", "gamma"][c / 3];
                let s = ["v=1", " w = 3 ", "bad"][c % 3];
                let r = b.configure(name, s);
                let (ok, mut next) = model_configure(&model, name, s);
                hist.push(format!("configure({name:?}, {s:?})"));
                ensure!(r.is_ok() == ok, "{hist:?} on {model:?}: success {}, expected {ok}", r.is_ok());
                model = next.remove(0);
            }
            9 => {
                hist.push("all present".into());
                b.iter_mut().for_each(|s| {
                    s.1.ensure_present();
                });
                (0..len).for_each(|i| model_ensure(&mut model, i));
            }
            10 | 11 if len > 0 => {
                hist.push(["ends swapped", "first removed"][c - 10].into());
                if c == 10 {
                    b.swap(0, len - 1);
                    model.swap(0, len - 1);
                } else {
                    b.remove(0);
                    model.remove(0);
                }
            }
            12 => {
                hist.push("last removed".into());
                b.pop();
                model.pop();
            }
            13 => {
                hist.push("reversed".into());
                b.reverse();
                model.reverse();
            }
            14 if len > 0 => {
                hist.push("rotated".into());
                b.rotate_left(1);
                model.rotate_left(1);
            }
            15 if len > 0 => {
                hist.push("last renamed".into());
                b[len - 1].0 = "gamma".into();
                model[len - 1].0 = "gamma".into();
            }
            16 => {
                hist.push("slot inserted in front".into());
                let (s, m) = slot(1 + 2 * (e % 2), 10_000 * (e + 1), &log);
                b.insert(0, ("gamma".into(), s));
                model.insert(0, ("gamma".into(), m));
            }
            17 => {
                hist.push("cleared".into());
                b.clear();
                model.clear();
            }
            18 if len > 0 => {
                hist.push("first slot replaced".into());
                let (s, m) = slot(4, 20_000 * (e + 1), &log);
                b[0].1 = s;
                model[0].1 = m;
            }
            _ => {}
        }
        ctx.step();
        let (got, want): (Vec<&str>, Vec<&str>) = (b.iter().map(|x| &x.0[..]).collect(), model.iter().map(|x| &x.0[..]).collect());
        ensure!(got == want, "{hist:?}: the slots are called {got:?}, expected {want:?}");
    }
    ctx.state(&format!("{model:?}"));
    ctx.note(|| format!("{hist:?}: {model:?}"));
    let mut l = Logits::try_from_iter([1.0f32, 2.0]).unwrap();
    b.into_chain().sample(&mut (), &mut l).map_err(|e| format!("running the finished chain failed: {e:?}"))?;
    let got = log.lock().unwrap().clone();
    ensure!(got == expected_log(&model), "{hist:?} on {n} slots: the chain ran {got:?}, expected {:?}", expected_log(&model));
    Ok(())
}
fn c31_real(ctx: &mut Ctx) -> R {
    let mut b: SamplerChainBuilder<usize, f32> = SamplerChainBuilder::from([
        ("bias", SamplerSlot::new_static(|| Box::new(SampleFlatBias::new([(0, NINF)])))),
        (
            "rep",
            SamplerSlot::new_chain(|| Box::new(SampleRepetition::default().last_n(64)), vec![]),
        ),
        (
            "topk",
            SamplerSlot::new_single(|| Box::new(SampleTopK::default()), None::<SampleTopK>),
        ),
        (
            "temp",
            SamplerSlot::new_single(|| Box::new(SampleTemperature::default()), Some(SampleTemperature::new(0.5))),
        ),
    ]);
    b += ("pick".to_string(), SamplerSlot::new_static(|| Box::new(SampleGreedy::new())));
    // Mirror of the expected samplers.
    let mut rep: Vec<(f32, usize)> = vec![];
    let mut topk: Option<(usize, usize)> = None;
    let mut temp = 0.5f32;
    let n = ctx.range(1, 3);
    for _ in 0..n {
        ctx.step();
        let (name, s, ok) = *ctx.pick(&[
            ("rep", "penalty=2.5", true),
            ("rep", "pen=4:last_n=2", true),
            ("rep", "x=1", false),
            ("topk", "k=3", true),
            ("topk", "min_keep=4", true),
            ("topk", "k=", false),
            ("temp", "temperature=2", true),
            ("temp", "-1", true),
            ("bias", "", false),
            ("pick", "", false),
            ("top", "k=1", false),
        ]);
        let r = b.configure(name, s);
        ensure!(r.is_ok() == ok, "configure({name:?}, {s:?}) gave {:?}", r.map_err(|e| e.to_string()));
        if !ok {
            continue;
        }
        match (name, s) {
            ("rep", "penalty=2.5") => rep.push((2.5, 64)),
            ("rep", _) => rep.push((4.0, 2)),
            ("topk", x) => {
                let d = SampleTopK::default();
                let g = |k: &str| match ConfigurableSampler::<usize, f32>::get_option(&d, k) {
                    Ok(SamplerOptionValue::UInt(v)) => v as usize,
                    _ => 0,
                };
                let cur = topk.get_or_insert((g("k"), g("min_keep")));
                if x == "k=3" {
                    cur.0 = 3
                } else {
                    cur.1 = 4
                }
            }
            (_, "temperature=2") => temp = 2.0,
            _ => temp = -1.0,
        }
    }
    ctx.state(&(format!("{rep:?}"), topk, temp.to_bits()));
    let mut want = SamplerChain::new();
    want += SampleFlatBias::new([(0, NINF)]);
    for (p, n) in rep {
        want += SampleRepetition::new(p, n);
    }
    if let Some((k, m)) = topk {
        want += SampleTopK::new(k, m);
    }
    want += SampleTemperature::new(temp);
    want += SampleGreedy::new();
    let mut got = b.into_chain();
    for (i, (sh, n, p)) in SAMPLE_INPUTS.iter().enumerate() {
        let mk = || prepare(p, &shape(sh, *n)).ok_or_else(|| "input".to_string());
        let (mut la, mut lb) = (mk()?, mk()?);
        let a = want.sample_token(&mut Res::toks(SAMPLE_HIST[i]), &mut la).map_err(|e| err_str(&e));
        let b = got.sample_token(&mut Res::toks(SAMPLE_HIST[i]), &mut lb).map_err(|e| err_str(&e));
        ctx.steps(2);
        ensure!(a == b && snap(&la).same(&snap(&lb)), "hand-made chain gives {a:?} {}, built one {b:?} {}", short(&snap(&la).e), short(&snap(&lb).e));
    }
    Ok(())
}

// ------------------------------------------------------------------ C34

fn text_of(ctx: &mut Ctx, alpha: &[char], max: usize) -> String {
    let n = ctx.range(0, max);
    (0..n).map(|_| *ctx.pick(alpha)).collect()
}
const PADS: &[(&str, &str)] = &[("", ""), (" ", ""), ("", "\t"), ("\n\r ", "  "), ("\u{a0}", "\u{2003}")];

/// Reference for unsigned integers.
fn uint_ref(s: &str) -> Option<u64> {
    let s = s.trim();
    if s.is_empty() || !s.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut a: u128 = 0;
    for c in s.chars() {
        a = a * 10 + c.to_digit(10).unwrap() as u128;
        if a > u64::MAX as u128 {
            return None;
        }
    }
    Some(a as u64)
}
fn c34_uint(ctx: &mut Ctx) -> R {
    let s = match ctx.choose(3) {
        0 => text_of(ctx, &['0', '1', '9', '7', '+', '-', ' ', '.', '_', 'a', '\t'], ctx.qt(6, 7)),
        1 => {
            let base: u128 = *ctx.pick(&[1u128 << 64, 1 << 63, 1 << 32, 1 << 16, 1 << 65, 10 * (1 << 64)]);
            let d = ctx.choose(17) as u128;
            let z = ctx.choose(4);
            let p = ctx.pick(PADS);
            format!("{}{}{}{}", p.0, "0".repeat(z), base + d - 8, p.1)
        }
        _ => {
            let e = ctx.choose(41);
            let t = match ctx.choose(4) {
                0 => format!("1{}", "0".repeat(e)),
                1 => "9".repeat(e.max(1)),
                2 => format!("{}1", "0".repeat(e)),
                _ => format!("18446744073709551615{}", "0".repeat(e)),
            };
            let p = ctx.pick(PADS);
            let sg = *ctx.pick(&["", "-", "+", "0x", "1_"]);
            format!("{}{sg}{t}{}", p.0, p.1)
        }
    };
    let r = SamplerOptionValue::parse_value(SamplerOptionType::UInt, &s);
    ctx.step();
    ctx.state(&format!("{r:?}").chars().take(40).collect::<String>());
    let got = match r {
        Ok(SamplerOptionValue::UInt(x)) => Some(x),
        Ok(x) => return Err(format!("parsing {s:?} as unsigned gave {x:?}")),
        Err(_) => None,
    };
    let want = uint_ref(&s);
    // An explicit plus sign is neither required nor ruled out.
    let plus = s.trim().strip_prefix('+').filter(|r| !r.starts_with(char::is_whitespace)).and_then(uint_ref);
    ensure!(
        got == want || (plus.is_some() && got == plus),
        "parsing {s:?} as unsigned gave {got:?}, expected {want:?}"
    );
    Ok(())
}
/// Is `x` the double nearest to m * 10^e (ties to even)? Exact integer arithmetic.
fn nearest(m: u128, e: i32, x: f64) -> bool {
    if m == 0 {
        return x == 0.0;
    }
    if !x.is_finite() || x <= 0.0 {
        return false;
    }
    // Compare m*10^e with the midpoints to the neighbours: x = f * 2^k.
    let b = x.to_bits();
    let (fr, k) = {
        let ex = (b >> 52) as i32;
        let fr = (b & ((1 << 52) - 1)) as u128;
        if ex == 0 {
            (fr, -1074)
        } else {
            (fr | (1 << 52), ex - 1075)
        }
    };
    // Midpoints (2f-1, 2f+1) * 2^(k-1); the lower neighbour of a power of two is closer.
    let up = (2 * fr + 1, k - 1);
    let lo = if fr == 1 << 52 { (4 * fr - 1, k - 2) } else { (2 * fr - 1, k - 1) };
    let cmp = |(f, k): (u128, i32)| -> std::cmp::Ordering {
        // m * 5^e * 2^e  vs  f * 2^k, as big integers of 32-bit limbs.
        let big = |x: u128| -> Vec<u64> { (0..4).map(|i| ((x >> (32 * i)) & 0xffff_ffff) as u64).collect() };
        let mul = |a: &mut Vec<u64>, y: u64| {
            let mut c = 0;
            for d in a.iter_mut() {
                let t = *d * y + c;
                *d = t & 0xffff_ffff;
                c = t >> 32;
            }
            while c > 0 {
                a.push(c & 0xffff_ffff);
                c >>= 32;
            }
        };
        let (mut a, mut b) = (big(m), big(f));
        for _ in 0..e.max(0) {
            mul(&mut a, 5);
        }
        for _ in 0..(-e).max(0) {
            mul(&mut b, 5);
        }
        let sh = e - k;
        for _ in 0..sh.max(0) {
            mul(&mut a, 2);
        }
        for _ in 0..(-sh).max(0) {
            mul(&mut b, 2);
        }
        let n = a.len().max(b.len());
        a.resize(n, 0);
        b.resize(n, 0);
        a.iter().rev().cmp(b.iter().rev())
    };
    use std::cmp::Ordering::*;
    let even = fr % 2 == 0;
    match (cmp(lo), cmp(up)) {
        (Greater, Less) => true,
        (Equal, _) | (_, Equal) => even,
        _ => false,
    }
}
fn c34_float(ctx: &mut Ctx) -> R {
    let s = match ctx.choose(4) {
        0 => text_of(ctx, &['0', '1', '9', '.', 'e', 'E', '-', '+', 'i', 'n', 'f', ' ', '_', 'x'], ctx.qt(5, 6)),
        1 => {
            let w = *ctx.pick(&["inf", "infinity", "nan", "infinite", "in", "infi", "INF", "NaN"]);
            let mask = ctx.choose(1 << w.len().min(8));
            let w: String = w
                .chars()
                .enumerate()
                .map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                .collect();
            let sg = *ctx.pick(&["", "-", "+", "--", "+-", "- ", "+ "]);
            let p = ctx.pick(PADS);
            format!("{}{sg}{w}{}", p.0, p.1)
        }
        2 => {
            let x = *ctx.pick(&[
                "0.1", "1e400", "1e-400", "-1e309", "4.9e-324", "2.4703282292062327e-324", "1.7976931348623157e308",
                "1.7976931348623159e308", "3.4028236e38", "0x10", "1f", "1,5", "1.5.2", "1e", "e5", ".", "-.5", "5.",
                "+.5e+5", "1e+", "1_000", "١", "½", "1 2", "", "-", "0b1", "1d5", "1E5", "9007199254740993",
                "0.30000000000000004", "123456789012345678901234567890", "inf inf", "1/2", "50%",
            ]);
            let p = ctx.pick(PADS);
            format!("{}{x}{}", p.0, p.1)
        }
        _ => {
            // d.ddd e x: also compared with exact arithmetic.
            let ms: &[u128] = &[0, 1, 2, 3, 5, 7, 9, 10, 15, 99, 101, 333, 999, 1001, 12345, 99999, 9007199254740993, 33554433];
            let m = *ctx.pick(ms);
            let e = ctx.choose(65) as i32 - 32;
            let neg = ctx.flag();
            let form = ctx.choose(3);
            let digits = format!("{m}");
            let t = match form {
                0 => format!("{digits}e{e}"),
                1 => format!("{}.{}E{:+}", &digits[..1], if digits.len() > 1 { &digits[1..] } else { "0" }, e + digits.len() as i32 - 1),
                _ => {
                    if e >= 0 {
                        format!("{digits}{}.0", "0".repeat(e as usize))
                    } else {
                        let z = (-e) as usize;
                        if digits.len() > z {
                            format!("{}.{}", &digits[..digits.len() - z], &digits[digits.len() - z..])
                        } else {
                            format!("0.{}{digits}", "0".repeat(z - digits.len()))
                        }
                    }
                }
            };
            let s = format!("{}{t}", if neg { "-" } else { "" });
            match SamplerOptionValue::parse_value(SamplerOptionType::Float, &s) {
                Ok(SamplerOptionValue::Float(x)) => {
                    ensure!(x.is_sign_negative() == neg, "sign of {s:?} lost: {x}");
                    ensure!(nearest(m, e, x.abs()), "parsing {s:?} gave {x:e}, not the nearest double");
                }
                x => return Err(format!("parsing {s:?} as float gave {x:?}")),
            }
            s
        }
    };
    let r = SamplerOptionValue::parse_value(SamplerOptionType::Float, &s);
    ctx.step();
    let got = match r {
        Ok(SamplerOptionValue::Float(x)) => Some(x),
        Ok(x) => return Err(format!("parsing {s:?} as float gave {x:?}")),
        Err(_) => None,
    };
    ctx.state(&got.map(|x| x.to_bits()));
    let want = match s.trim() {
        "inf" | "+inf" | "INF" | "+INF" => Some(f64::INFINITY),
        "-inf" | "-INF" => Some(f64::NEG_INFINITY),
        t => f64::from_str(t).ok(),
    };
    let same = match (got, want) {
        (Some(a), Some(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (None, None) => true,
        _ => false,
    };
    ensure!(same, "parsing {s:?} as float gave {got:?}, expected {want:?}");
    Ok(())
}
const TRUES: &[&str] = &["true", "t", "yes", "1"];
const FALSES: &[&str] = &["false", "f", "no", "0"];
fn c34_bool(ctx: &mut Ctx) -> R {
    if ctx.choose(2) == 1 {
        let s = text_of(ctx, &[' ', 'a', '\t', '\u{a0}', '=', ':', '\u{2003}', 'é'], 5);
        let r = SamplerOptionValue::parse_value(SamplerOptionType::String, &s);
        ctx.step();
        let Ok(SamplerOptionValue::String(x)) = r else { return Err(format!("parsing {s:?} as string gave {r:?}")) };
        ctx.state(&x);
        ensure!(x == s.trim(), "parsing {s:?} as string gave {x:?}");
        return Ok(());
    }
    let chars = ['t', 'r', 'u', 'e', 'f', 'a', 'l', 's', 'y', 'n', 'o', '0', '1', ' ', 'T', 'Y'];
    let s = if ctx.flag() {
        text_of(ctx, &chars, 4)
    } else {
        let all: Vec<&str> = TRUES.iter().chain(FALSES).copied().collect();
        let mut w: Vec<char> = ctx.pick(&all).chars().collect();
        let p = ctx.choose(w.len() + 1);
        match ctx.choose(4) {
            0 => {}
            1 => w.insert(p, *ctx.pick(&chars)),
            2 if p < w.len() => w[p] = *ctx.pick(&chars),
            _ if p < w.len() => {
                w.remove(p);
            }
            _ => w = w.iter().flat_map(|c| c.to_uppercase()).collect(),
        }
        let pad = ctx.pick(PADS);
        format!("{}{}{}", pad.0, w.into_iter().collect::<String>(), pad.1)
    };
    let r = SamplerOptionValue::parse_value(SamplerOptionType::Bool, &s);
    ctx.step();
    let got = match r {
        Ok(SamplerOptionValue::Bool(b)) => Some(b),
        Ok(x) => return Err(format!("parsing {s:?} as boolean gave {x:?}")),
        Err(_) => None,
    };
    let t = s.trim();
    let want = if TRUES.contains(&t) {
        Some(true)
    } else if FALSES.contains(&t) {
        Some(false)
    } else {
        None
    };
    ctx.state(&(t.len(), got));
    ensure!(got == want, "parsing {s:?} as boolean gave {got:?}, expected {want:?}");
    Ok(())
}

const ODD: &[char] = &[
    '\u{a0}', '\u{85}', '\u{2003}', '\u{3000}', '\u{200b}', '\u{feff}', '\u{2028}', '١', '²', '½', '１', '０', '－', '＋', '−', '∞', 'é', 'İ',
    'ſ', 'K', 'ｅ', '．', '，', '·', '٫', '٬', '\u{301}', '€', '真', '\u{10ffff}',
];
const GOODS: &[&str] = &[
    "0", "1", "7", "42", "064", "100", "1000", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "-1", "+5", "0.5", "-0.5", "+0.5", ".5", "5.", "1e3", "1E-3", "1.5e+10", "0.95",
    "3.4028235e38", "1e39", "1e-45", "1e308", "1e309", "4.9e-324", "123456789.987654321", "0.1000000014901161193847656250001",
    "inf", "-inf", "+INF", "nan", "infinity", "-Infinity", "true", "t", "yes", "false", "f", "no", "word", "two words", "k=v", "a:b", "\"quoted\"",
];
/// Every character anywhere in a value.
fn c34_slips(ctx: &mut Ctx) -> R {
    let typ = *ctx.pick(&[SamplerOptionType::UInt, SamplerOptionType::Float, SamplerOptionType::Bool, SamplerOptionType::String]);
    let any = |ctx: &mut Ctx| {
        let c = ctx.choose(128 + ODD.len());
        if c < 128 { c as u8 as char } else { ODD[c - 128] }
    };
    let mut w: Vec<char> = vec![];
    if ctx.flag() {
        (0..ctx.range(1, 2)).for_each(|_| w.push(any(ctx)));
    } else {
        w = ctx.pick(GOODS).chars().collect();
        for _ in 0..ctx.qt(1, 1 + (w.len() <= 5) as usize) {
            let p = ctx.choose(w.len() + 1);
            match ctx.choose(4) {
                0 => w.insert(p, any(ctx)),
                1 if p < w.len() => w[p] = any(ctx),
                2 if p < w.len() => {
                    w.remove(p);
                }
                3 if p < w.len() => w.insert(p, w[p]),
                _ => {}
            }
        }
    }
    let s: String = w.into_iter().collect();
    let r = SamplerOptionValue::parse_value(typ, &s);
    ctx.step();
    let t = s.trim();
    use SamplerOptionValue as V;
    let (ok, want) = match typ {
        SamplerOptionType::UInt => {
            let want = uint_ref(&s);
            let plus = t.strip_prefix('+').filter(|r| !r.starts_with(char::is_whitespace)).and_then(uint_ref);
            let ok = match &r {
                Ok(V::UInt(x)) => Some(*x) == want || Some(*x) == plus,
                Ok(_) => false,
                Err(_) => want.is_none(),
            };
            (ok, format!("{want:?}"))
        }
        SamplerOptionType::Float => {
            let want = match t {
                "inf" | "+inf" | "INF" | "+INF" => Some(f64::INFINITY),
                "-inf" | "-INF" => Some(f64::NEG_INFINITY),
                t => f64::from_str(t).ok(),
            };
            let ok = match (&r, want) {
                (Ok(V::Float(a)), Some(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
                (Err(_), None) => true,
                _ => false,
            };
            (ok, format!("{want:?}"))
        }
        SamplerOptionType::Bool => {
            let want = TRUES.contains(&t).then_some(true).or(FALSES.contains(&t).then_some(false));
            let ok = match (&r, want) {
                (Ok(V::Bool(a)), Some(b)) => *a == b,
                (Err(_), None) => true,
                _ => false,
            };
            (ok, format!("{want:?}"))
        }
        SamplerOptionType::String => (matches!(&r, Ok(V::String(x)) if x == t), format!("{t:?}")),
    };
    ctx.state(&(r.is_ok(), t.len()));
    ensure!(ok, "parsing {s:?} as {typ:?} gave {r:?}, expected {want}");
    Ok(())
}
