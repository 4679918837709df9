//! Runs the workload of one property, records what was observed and reports violations.
use crate::refp::Cfg;
use crate::rng::{fnv, Rng};
use crate::val::{diff, Val};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::time::{Duration, Instant};

pub struct Violation {
    pub sub: String,
    pub case: u64,
    pub what: String,
    pub input: Vec<u8>,
}

pub struct Ctx {
    pub prop: String,
    pub cfg: Cfg,
    pub seed: u64,
    pub tier: String,
    pub sub: &'static str,
    pub case: u64,
    pub shard: u64,
    pub shards: u64,
    pub evaluations: u64,
    pub hashes: HashSet<u64>,
    pub events: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub known: BTreeMap<String, u64>,
    /// inputs that reach something new, when they are collected
    pub corpus: Vec<(u8, Vec<u8>)>,
    /// cases that another tool has to judge
    pub suspects: Vec<String>,
    pub verbose: bool,
    max_samples: usize,
}

thread_local! {
    static GUARDS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

/// Runs a piece of code of the library; a panic is an observation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    GUARDS.with(|g| g.set(g.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDS.with(|g| g.set(g.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn guard_val(f: impl FnOnce() -> Val) -> Val {
    match guard(f) {
        Ok(v) => v,
        Err(m) => Val::T("Panic", vec![Val::S(m)]),
    }
}

pub fn escape(b: &[u8], max: usize) -> String {
    let mut s = String::new();
    for c in b.iter().take(max) {
        for c in std::ascii::escape_default(*c) {
            s.push(c as char);
        }
    }
    if b.len() > max {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

impl Ctx {
    pub fn rng(&self) -> Rng {
        Rng::derive(self.seed, self.sub, self.case)
    }
    pub fn event(&mut self, name: &str, n: u64) {
        if let Some(e) = self.events.get_mut(name) {
            *e += n;
        } else {
            self.events.insert(name.to_string(), n);
        }
    }
    /// Counts one evaluation of an oracle.
    pub fn eval(&mut self, input: &[u8], nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.hashes.insert(fnv(input));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.max_samples {
            let s = format!("[{}#{}] {}", self.sub, self.case, f());
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, what: String, input: &[u8]) {
        if self.verbose {
            println!("violation in {}#{}: {}\n  input: {}", self.sub, self.case, what, escape(input, show()));
        }
        self.violations.push(Violation { sub: self.sub.to_string(), case: self.case, what, input: input.to_vec() });
    }
    pub fn inconclusive(&mut self, what: String, input: &[u8]) {
        if self.verbose {
            println!("inconclusive in {}#{}: {}\n  input: {}", self.sub, self.case, what, escape(input, show()));
        }
        self.event("inconclusive", 1);
        if self.inconclusive.len() < 20 {
            self.inconclusive.push(format!("{}#{}: {} | {}", self.sub, self.case, what, escape(input, 600)));
        }
    }
    /// Compares an observation with what was expected.
    pub fn expect(&mut self, what: &str, input: &[u8], expected: &Val, got: &Val) -> bool {
        match diff(expected, got) {
            None => true,
            Some((path, e, g)) => {
                self.violation(format!("{}: at {}: expected {}, observed {}", what, path, e, g), input);
                false
            }
        }
    }
    /// Compares an observation with a model; the reference parser arbitrates errors of the harness itself.
    pub fn expect_model(&mut self, what: &str, input: &[u8], model: &Val, reference: impl FnOnce() -> Val, got: &Val) -> bool {
        match diff(model, got) {
            None => true,
            Some((path, e, g)) => {
                let r = reference();
                if diff(&r, got).is_none() {
                    self.inconclusive(format!("{}: the reference leaves open what the model expects at {}: {}", what, path, e), input);
                    return true;
                }
                if let Some((p, x, y)) = diff(model, &r) {
                    self.inconclusive(format!("{}: the model and the reference differ at {}: {} / {}", what, p, x, y), input);
                    return true;
                }
                self.violation(format!("{}: at {}: expected {}, observed {}", what, path, e, g), input);
                false
            }
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    /// cases per round
    pub weight: u64,
    /// number of cases in all, for an enumeration
    pub limit: Option<u64>,
    pub run: fn(&mut Ctx),
}

pub fn sub(name: &'static str, weight: u64, run: fn(&mut Ctx)) -> Sub {
    Sub { name, weight, limit: None, run }
}
pub fn subn(name: &'static str, weight: u64, limit: u64, run: fn(&mut Ctx)) -> Sub {
    Sub { name, weight, limit: Some(limit), run }
}

pub fn show() -> usize {
    std::env::var("VH_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(400)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let shard: u64 = arg(&args, "--shard").and_then(|s| s.parse().ok()).unwrap_or(0);
    let shards: u64 = arg(&args, "--shards").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = arg(&args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let rounds: u64 = arg(&args, "--rounds").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let tier = arg(&args, "--tier").unwrap_or_else(|| "quick".into());
    let only = arg(&args, "--only"); // sub:case
    let out = arg(&args, "--out");
    let cur = arg(&args, "--cur");
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if GUARDS.with(|g| g.get()) == 0 || std::env::var("VH_PANIC").is_ok() {
            eprintln!("panic: {} at {}", m, l);
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", m, l)));
    }));
    if let Some(d) = arg(&args, "--dict") {
        crate::dict::load(&d);
    }
    if let Some(f) = arg(&args, "--feed") {
        crate::props::load_feed(&f);
    }
    let mut subs = match crate::props::subs(&prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", prop);
            std::process::exit(3);
        }
    };
    let mut ctx = Ctx {
        prop: prop.clone(),
        cfg: Cfg::built(),
        seed,
        tier,
        sub: "",
        case: 0,
        shard,
        shards,
        evaluations: 0,
        hashes: HashSet::new(),
        events: BTreeMap::new(),
        samples: Vec::new(),
        violations: Vec::new(),
        inconclusive: Vec::new(),
        known: BTreeMap::new(),
        suspects: Vec::new(),
        corpus: Vec::new(),
        verbose: out.is_none(),
        max_samples: 0,
    };
    let mut complete: Vec<String> = Vec::new();
    if let Some(o) = &only {
        let (s, c) = o.rsplit_once(':').expect("--only sub:case");
        let sub = subs.iter().find(|x| x.name == s).expect("sub");
        ctx.sub = sub.name;
        ctx.case = c.parse().unwrap();
        ctx.max_samples = 100;
        if let Some(scale) = arg(&args, "--scale") {
            // measured by an external tool
            crate::props::measure(&mut ctx, scale.parse().expect("scale"));
            return;
        }
        (sub.run)(&mut ctx);
    } else {
        let mut curf = cur.map(|c| std::fs::File::create(c).expect("cur"));
        let start = Instant::now();
        let limit = Duration::from_secs_f64(secs);
        let mut round = 0u64;
        if let Some(s) = arg(&args, "--sub") {
            subs.retain(|x| x.name == s);
        }
        'all: while round < rounds {
            let mut active = false;
            for s in &subs {
                ctx.sub = s.name;
                ctx.max_samples = ctx.samples.len() + (round < 2) as usize;
                for k in 0..s.weight {
                    let n = (round * s.weight + k) * shards + shard;
                    if let Some(l) = s.limit {
                        if n >= l {
                            if !complete.contains(&s.name.to_string()) {
                                complete.push(s.name.to_string());
                            }
                            break;
                        }
                    }
                    active = true;
                    ctx.case = n;
                    if let Some(f) = &mut curf {
                        let mut b = n.to_le_bytes().to_vec();
                        b.extend(s.name.bytes());
                        b.resize(80, 0);
                        let _ = f.seek(SeekFrom::Start(0));
                        let _ = f.write_all(&b);
                    }
                    (s.run)(&mut ctx);
                    if ctx.violations.len() >= 5 || start.elapsed() > limit {
                        break 'all;
                    }
                }
            }
            if !active {
                break;
            }
            round += 1;
        }
        ctx.event("rounds", round);
    }
    if let Some(f) = arg(&args, "--corpus") {
        let mut b: Vec<u8> = Vec::new();
        for (k, i) in &ctx.corpus {
            b.push(*k);
            b.extend_from_slice(&(i.len() as u32).to_le_bytes());
            b.extend_from_slice(i);
        }
        std::fs::write(f, b).expect("corpus");
    }
    if let Some(o) = out {
        let mut j = String::from("{");
        j.push_str(&format!("\"evaluations\": {}, ", ctx.evaluations));
        j.push_str(&format!("\"events\": {{{}}}, ", ctx.events.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")));
        j.push_str(&format!("\"known\": {{{}}}, ", ctx.known.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")));
        j.push_str(&format!("\"complete\": [{}], ", complete.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
        j.push_str(&format!("\"suspects\": [{}], ", ctx.suspects.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
        j.push_str(&format!("\"samples\": [{}], ", ctx.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
        j.push_str(&format!("\"inconclusive\": [{}], ", ctx.inconclusive.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
        j.push_str(&format!(
            "\"violations\": [{}]}}\n",
            ctx.violations
                .iter()
                .map(|v| format!(
                    "{{\"sub\": {}, \"case\": {}, \"what\": {}, \"input\": {}, \"text\": {}}}",
                    json_str(&v.sub),
                    v.case,
                    json_str(&v.what),
                    json_str(&hexs(&v.input[..v.input.len().min(200_000)])),
                    json_str(&escape(&v.input, 2000))
                ))
                .collect::<Vec<_>>()
                .join(", ")
        ));
        std::fs::write(&o, j).expect("out");
        let mut h: Vec<u8> = Vec::with_capacity(ctx.hashes.len() * 8);
        for x in &ctx.hashes {
            h.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(format!("{}.hashes", o), h).expect("hashes");
    } else {
        println!("evaluations {} distinct {} events {:?} known {:?}", ctx.evaluations, ctx.hashes.len(), ctx.events, ctx.known);
        for s in ctx.samples.iter().take(40) {
            println!("  sample {}", s);
        }
    }
    if !ctx.violations.is_empty() {
        std::process::exit(1);
    }
}
