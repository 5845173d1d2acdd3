//! A small property-based testing engine (choice-sequence style, integrated shrinking,
//! coverage-guided mutation, deterministic from the seed).
use crate::{cov, watch};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::Command;
use std::sync::Mutex;

// ------------------------------------------------------------------ random

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
        let mut next = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        let a = next();
        let b = next() | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        let (mut a, b) = (self.0, self.1);
        let r = a.wrapping_add(b);
        self.0 = b;
        a ^= a << 23;
        self.1 = a ^ b ^ (a >> 18) ^ (b >> 5);
        r
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in &p.to_le_bytes() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= h >> 29;
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ------------------------------------------------------------------ generator

/// Source of choices.  Convention: 0 is always the simplest choice.
pub struct G {
    prefix: Vec<u64>,
    pos: usize,
    replay: bool,
    rng: Rng,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    /// names in selectors are already written in the letter case wanted
    pub exact_case: bool,
}

const MAX_CHOICES: usize = 200_000;

impl G {
    pub fn random(rng: Rng) -> G {
        G { prefix: vec![], pos: 0, replay: false, rng, rec: vec![], spans: vec![], exact_case: false }
    }
    pub fn replay(choices: Vec<u64>) -> G {
        G { prefix: choices, pos: 0, replay: true, rng: Rng::new(0), rec: vec![], spans: vec![], exact_case: false }
    }
    pub fn mutated(choices: Vec<u64>, rng: Rng) -> G {
        G { prefix: choices, pos: 0, replay: false, rng, rec: vec![], spans: vec![], exact_case: false }
    }
    /// 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            self.pos += 1;
            if v > max {
                if self.replay {
                    max
                } else {
                    v % (max + 1)
                }
            } else {
                v
            }
        } else if self.replay || self.rec.len() > MAX_CHOICES {
            0
        } else {
            self.rng.upto(max)
        };
        self.rec.push(v);
        v
    }
    /// lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.upto((hi - lo) as u64) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    /// true with probability pct %
    pub fn chance(&mut self, pct: u64) -> bool {
        self.upto(99) >= 100 - pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(0, xs.len() - 1);
        &xs[i]
    }
    /// index chosen with these weights; index 0 is the simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut r = self.upto(total - 1);
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        unreachable!()
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        let s = self.rec.len();
        let r = f(self);
        let e = self.rec.len();
        if e > s {
            self.spans.push((s, e));
        }
        r
    }
    /// list with a geometric length (mean about `avg`), between min and max
    pub fn list<T>(&mut self, min: usize, avg: usize, max: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let mut out = vec![];
        let stop_pct = (100 / (1 + avg.saturating_sub(min)) as u64).max(1);
        loop {
            if out.len() >= max {
                break;
            }
            let done = self.span(|g| {
                if out.len() >= min && !g.chance(100 - stop_pct) {
                    return true;
                }
                let x = f(g);
                out.push(x);
                false
            });
            if done {
                break;
            }
        }
        out
    }
}

// ------------------------------------------------------------------ properties

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_owned(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c: expr, $sig: expr, $($m: tt)*) => {
        if !$c { return Err($crate::engine::Fail { sig: $sig.to_string(), msg: format!($($m)*) }) }
    };
}

/// Per-case context.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub discarded: bool,
    pub labels: BTreeMap<String, u64>,
    pub desc: String,
}
impl Cx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_owned()).or_insert(0) += 1;
    }
    pub fn count(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_owned()).or_insert(0) += n;
    }
    pub fn desc(&mut self, s: impl Into<String>) {
        self.desc = s.into();
        // for looking at cases in which the process dies
        if let Some(p) = std::env::var_os("VH_DUMP") {
            let _ = std::fs::write(p, &self.desc);
        }
    }
}

pub type CaseFn = fn(&mut G, &mut Cx) -> Result<(), Fail>;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// percentage of cases that mutate a coverage-increasing earlier case
    pub guided: u64,
    /// edge budget for one case
    pub budget: u64,
    /// rayon threads in the worker
    /// of the threads of the pool, in MB, if there is one
    pub stack: usize,
    pub threads: usize,
    pub f: CaseFn,
}
pub const DEFAULT_BUDGET: u64 = 1_500_000_000;
pub fn part(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Part {
    Part { name, quick, thorough, guided: 0, budget: DEFAULT_BUDGET, threads: 1, stack: 256, f }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

// ------------------------------------------------------------------ running one case

thread_local! { static _X: RefCell<u8> = RefCell::new(0); }
lazy_static::lazy_static! {
    static ref LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some(format!("{} @ {}", msg, loc));
        }
    }));
}

pub struct Outcome {
    pub res: Result<(), Fail>,
    pub cx: Cx,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub work: u64,
}

/// message of the last panic (for code under test called under catch_unwind by a property)
pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap().take().unwrap_or_default()
}

fn normalise(msg: &str) -> String {
    // strip digits so the signature does not depend on line numbers or values
    let mut out = String::new();
    let mut last_digit = false;
    for c in msg.chars().take(120) {
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('N');
            }
            last_digit = true;
        } else {
            last_digit = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}

pub fn run_case(part: &Part, mut g: G) -> Outcome {
    let mut cx = Cx::default();
    cov::start(part.budget);
    let r = catch_unwind(AssertUnwindSafe(|| (part.f)(&mut g, &mut cx)));
    let work = cov::stop();
    let res = match r {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            let sig = format!("panic: {}", normalise(m.split(" @ ").next().unwrap_or("")));
            Err(Fail { sig, msg: format!("panicked: {}", m) })
        }
    };
    Outcome { res, cx, rec: g.rec, spans: g.spans, work }
}

fn case_gen(seed: u64, id: &str, part: &Part, i: u64) -> G {
    G::random(Rng::new(mix(&[seed, hash_str(id), hash_str(part.name), i])))
}

// ------------------------------------------------------------------ worker

/// line protocol, one record per line: tab separated, percent-escaped
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '%' => o.push_str("%25"),
            '\t' => o.push_str("%09"),
            '\n' => o.push_str("%0A"),
            '\r' => o.push_str("%0D"),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    s.replace("%09", "\t").replace("%0A", "\n").replace("%0D", "\r").replace("%25", "%")
}
fn choices_str(c: &[u64]) -> String {
    c.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_choices(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

pub fn mutate(rng: &mut Rng, base: &[u64], other: &[u64]) -> Vec<u64> {
    let mut v = base.to_vec();
    let n = 1 + rng.upto(3);
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let i = rng.upto(v.len() as u64 - 1) as usize;
        match rng.upto(7) {
            0 => v[i] = rng.next() >> rng.upto(63),
            1 => v[i] = v[i].wrapping_add(1),
            2 => v[i] = v[i].saturating_sub(1),
            3 => {
                let len = (1 + rng.upto(8)) as usize;
                let e = (i + len).min(v.len());
                v.drain(i..e);
            }
            4 => {
                let len = (1 + rng.upto(8)) as usize;
                let e = (i + len).min(v.len());
                let c = v[i..e].to_vec();
                let at = rng.upto(v.len() as u64) as usize;
                for (k, x) in c.into_iter().enumerate() {
                    v.insert(at + k, x);
                }
            }
            5 if !other.is_empty() => {
                let a = rng.upto(other.len() as u64 - 1) as usize;
                let e = (a + 1 + rng.upto(30) as usize).min(other.len());
                for (k, x) in other[a..e].iter().enumerate() {
                    let p = (i + k).min(v.len());
                    v.insert(p, *x);
                }
            }
            6 => {
                let x = rng.next();
                v.insert(i, x >> rng.upto(63));
            }
            _ => v.truncate(i),
        }
    }
    v
}

fn apply_limits() {
    #[repr(C)]
    struct R {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(res: i32, r: *const R) -> i32;
    }
    unsafe {
        // address space 3.5 GB (of which several are reserved stacks), no core files
        setrlimit(9, &R { cur: 7 << 29, max: 7 << 29 });
        setrlimit(4, &R { cur: 0, max: 0 });
        // last-resort CPU limit of a worker: dies from SIGXCPU -> error exit, never a violation
        setrlimit(0, &R { cur: 3600, max: 3600 });
    }
}

fn init_worker(part: &Part) {
    install_panic_hook();
    crate::watch::install();
    apply_limits();
    rayon::ThreadPoolBuilder::new()
        .num_threads(part.threads)
        .stack_size(if part.threads == 1 { part.stack << 20 } else { 16 << 20 })
        .build_global()
        .unwrap();
}

pub struct WorkerArgs {
    pub seed: u64,
    pub worker: u64,
    pub nworkers: u64,
    pub cases: u64,
}

/// How many cases before a failure are kept
const HISTORY: usize = 48;

pub fn worker(prop: &Prop, part: &Part, a: &WorkerArgs, known: &HashSet<String>) {
    init_worker(part);
    let out = std::io::stdout();
    let mut seen_cov: Vec<u8> = vec![];
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut mrng = Rng::new(mix(&[a.seed, hash_str(prop.id), hash_str(part.name), a.worker, 0xc0ffee]));
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let (mut evals, mut discarded, mut nontrivial, mut maxwork, mut totwork) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut i = a.worker;
    let mut failed_sigs: HashSet<String> = HashSet::new();
    // The latest cases, for failures that depend on what the process has done before
    let mut history: std::collections::VecDeque<Vec<u64>> = Default::default();
    while i < a.cases {
        let g = if part.guided > 0 && !corpus.is_empty() && mrng.upto(99) < part.guided {
            let b = mrng.upto(corpus.len() as u64 - 1) as usize;
            let o = mrng.upto(corpus.len() as u64 - 1) as usize;
            let m = mutate(&mut mrng, &corpus[b], &corpus[o]);
            // remember what is being run, in case the process dies
            {
                let mut o = out.lock();
                let _ = writeln!(o, "try\t{}", choices_str(&m));
                let _ = o.flush();
            }
            let r = Rng::new(mix(&m));
            G::mutated(m, r)
        } else {
            case_gen(a.seed, prop.id, part, i)
        };
        cov::CASE.store(i, std::sync::atomic::Ordering::Relaxed);
        // The rng state is part of the case: note the choices before running.  Replaying `i`
        // regenerates them for unguided cases.
        let o = run_case(part, g);
        evals += 1;
        maxwork = maxwork.max(o.work);
        totwork += o.work;
        if part.guided > 0 && cov::merge_new(&mut seen_cov) && corpus.len() < 4000 {
            corpus.push(o.rec.clone());
        }
        for (k, v) in &o.cx.labels {
            *labels.entry(k.clone()).or_insert(0) += v;
        }
        if o.cx.discarded {
            discarded += 1;
        } else if o.cx.nontrivial {
            let h = if o.cx.desc.is_empty() { mix(&o.rec) } else { hash_str(&o.cx.desc) };
            if distinct.insert(h) {
                nontrivial += 1;
                if samples.len() < 2 && !o.cx.desc.is_empty() {
                    samples.push(o.cx.desc.clone());
                }
            }
        }
        if let Err(f) = &o.res {
            if known.contains(&f.sig) {
                *labels.entry(format!("known:{}", f.sig)).or_insert(0) += 1;
            } else if failed_sigs.insert(f.sig.clone()) {
                let mut w = out.lock();
                let _ = writeln!(
                    w,
                    "fail\t{}\t{}\t{}\t{}\t{}\t{}",
                    i,
                    esc(&f.sig),
                    esc(&f.msg),
                    choices_str(&o.rec),
                    esc(&o.cx.desc),
                    history.iter().map(|c| choices_str(c)).collect::<Vec<_>>().join(";")
                );
                let _ = w.flush();
                if failed_sigs.len() >= 3 {
                    break;
                }
            }
        }
        if history.len() >= HISTORY {
            history.pop_front();
        }
        history.push_back(o.rec);
        i += a.nworkers;
    }
    let mut w = out.lock();
    for (k, v) in &labels {
        let _ = writeln!(w, "label\t{}\t{}", esc(k), v);
    }
    for s in &samples {
        let _ = writeln!(w, "sample\t{}", esc(s));
    }
    let _ = writeln!(
        w,
        "done\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
        evals,
        nontrivial,
        discarded,
        maxwork,
        totwork,
        cov::edges(&seen_cov),
        corpus.len()
    );
    let _ = w.flush();
}

// ------------------------------------------------------------------ single-case process

/// Run one choice sequence in this process and print the outcome.
pub fn one(part: &Part, choices: Vec<u64>) {
    init_worker(part);
    let o = run_case(part, G::replay(choices));
    match &o.res {
        Ok(()) => println!("ok\t{}", esc(&o.cx.desc)),
        Err(f) => println!("bad\t{}\t{}\t{}\t{}", esc(&f.sig), esc(&f.msg), choices_str(&o.rec), esc(&o.cx.desc)),
    }
}

/// Run several cases in this process, one after another, and print the first failure.
pub fn several(part: &Part, cases: Vec<Vec<u64>>) {
    init_worker(part);
    for c in cases {
        let o = run_case(part, G::replay(c));
        if let Err(f) = &o.res {
            println!("bad\t{}\t{}\t{}\t{}", esc(&f.sig), esc(&f.msg), choices_str(&o.rec), esc(&o.cx.desc));
            return;
        }
    }
    println!("ok\t");
}

/// A coverage-guided case: the choices are a prefix, the rest comes from a generator seeded by it.
pub fn one_mutated(part: &Part, choices: Vec<u64>) {
    init_worker(part);
    let r = Rng::new(mix(&choices));
    let o = run_case(part, G::mutated(choices, r));
    match &o.res {
        Ok(()) => println!("ok\t{}", esc(&o.cx.desc)),
        Err(f) => println!("bad\t{}\t{}\t{}\t{}", esc(&f.sig), esc(&f.msg), choices_str(&o.rec), esc(&o.cx.desc)),
    }
}

/// Regenerate the choices of unguided case `i` by running it, printing the record as soon as the
/// generator is exhausted is impossible (generation and execution interleave), so for crashing
/// cases the parent falls back to "case index" replay.
pub fn one_index(prop: &Prop, part: &Part, seed: u64, i: u64) {
    init_worker(part);
    let o = run_case(part, case_gen(seed, prop.id, part, i));
    match &o.res {
        Ok(()) => println!("ok\t{}", esc(&o.cx.desc)),
        Err(f) => println!("bad\t{}\t{}\t{}\t{}", esc(&f.sig), esc(&f.msg), choices_str(&o.rec), esc(&o.cx.desc)),
    }
}

/// Shrink in this process: reads choices, prints the smallest failing sequence with the same
/// signature.
pub fn shrink(part: &Part, choices: Vec<u64>, sig: &str) {
    init_worker(part);
    let mut execs = 0u32;
    let t0 = std::time::Instant::now();
    let mut best = run_case(part, G::replay(choices));
    let same = |o: &Outcome| o.res.as_ref().err().map_or(false, |f| f.sig == sig);
    if !same(&best) {
        println!("noshrink");
        return;
    }
    let limit = 4000;
    let key = |v: &[u64]| (v.len(), v.iter().map(|x| *x as u128).sum::<u128>());
    let mut improved = true;
    while improved && execs < limit && t0.elapsed().as_secs() < 40 {
        improved = false;
        let mut attempt = |cand: Vec<u64>, best: &mut Outcome| -> bool {
            if execs >= limit || t0.elapsed().as_secs() >= 40 {
                return false;
            }
            execs += 1;
            let o = run_case(part, G::replay(cand));
            if same(&o) && key(&o.rec) < key(&best.rec) {
                *best = o;
                true
            } else {
                false
            }
        };
        // delete spans, big first
        let mut spans = best.spans.clone();
        spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
        let mut k = 0;
        while k < spans.len() {
            let (s, e) = spans[k];
            k += 1;
            if e <= best.rec.len() {
                let mut c = best.rec.clone();
                c.drain(s..e);
                if attempt(c, &mut best) {
                    improved = true;
                    spans = best.spans.clone();
                    spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
                    k = 0;
                    continue;
                }
            }
            if e <= best.rec.len() && best.rec[s..e].iter().any(|x| *x != 0) {
                let mut c = best.rec.clone();
                for x in &mut c[s..e] {
                    *x = 0
                }
                if attempt(c, &mut best) {
                    improved = true;
                    spans = best.spans.clone();
                    spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
                    k = 0;
                }
            }
        }
        // delete small chunks
        for len in &[8usize, 4, 2, 1] {
            let mut i = best.rec.len();
            while i > 0 {
                i -= 1;
                if i + len > best.rec.len() {
                    continue;
                }
                let mut c = best.rec.clone();
                c.drain(i..i + len);
                if attempt(c, &mut best) {
                    improved = true;
                }
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.rec.len() {
            let v = best.rec[i];
            if v > 0 {
                let mut c = best.rec.clone();
                c[i] = 0;
                if attempt(c, &mut best) {
                    improved = true;
                } else {
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        if i >= best.rec.len() {
                            break;
                        }
                        let mut c = best.rec.clone();
                        c[i] = mid;
                        if attempt(c, &mut best) {
                            improved = true;
                            hi = mid.min(best.rec.get(i).cloned().unwrap_or(0));
                            if hi <= lo {
                                break;
                            }
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    let f = best.res.as_ref().err().unwrap();
    println!(
        "shrunk\t{}\t{}\t{}\t{}\t{}",
        execs,
        esc(&f.sig),
        esc(&f.msg),
        choices_str(&best.rec),
        esc(&best.cx.desc)
    );
}

// ------------------------------------------------------------------ parent

#[derive(Clone, Debug)]
pub struct Failure {
    pub part: String,
    pub index: u64,
    pub sig: String,
    pub msg: String,
    pub choices: Option<Vec<u64>>,
    pub desc: String,
    /// Cases that have to be run before this one in the same process for it to fail
    pub before: Vec<Vec<u64>>,
    /// The worker and the number of cases, if only running all of the cases before reproduces it
    pub worker: Option<(u64, u64, u64)>,
}

#[derive(Default)]
pub struct PartReport {
    pub evals: u64,
    pub nontrivial: u64,
    pub discarded: u64,
    pub maxwork: u64,
    pub totwork: u64,
    pub edges: u64,
    pub corpus: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Failure>,
    pub errors: Vec<String>,
}

pub fn self_cmd() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

fn describe_status(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(c), _) => format!("exit {}", c),
        (_, Some(s)) => format!("signal {}", s),
        _ => "?".into(),
    }
}

pub fn ncpus() -> u64 {
    std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8).max(1)
    })
}

/// number of logical workers is fixed (so a run is a function of the seed, not of the machine)
const LOGICAL_WORKERS: u64 = 8;

pub fn run_part(prop: &Prop, part: &Part, seed: u64, cases: u64) -> PartReport {
    let mut rep = PartReport::default();
    let n = LOGICAL_WORKERS.min(cases.max(1));
    let next = Mutex::new(0u64);
    let results = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..ncpus().min(n) {
            s.spawn(|| loop {
                let w = {
                    let mut g = next.lock().unwrap();
                    let w = *g;
                    *g += 1;
                    w
                };
                if w >= n {
                    break;
                }
                let child = watch::output(self_cmd()
                    .args(&[
                        "worker",
                        prop.id,
                        part.name,
                        &seed.to_string(),
                        &w.to_string(),
                        &n.to_string(),
                        &cases.to_string(),
                    ])
                    );
                results.lock().unwrap().push((w, child));
            });
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);
    for (w, out) in results {
        let out = match out {
            Ok(o) => o,
            Err(e) => {
                rep.errors.push(format!("worker {}: {}", w, e));
                continue;
            }
        };
        let text = String::from_utf8_lossy(&out.stdout);
        let mut last_try: Option<Vec<u64>> = None;
        let mut done = false;
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "try" => last_try = Some(parse_choices(f.get(1).unwrap_or(&""))),
                "label" => *rep.labels.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "sample" => rep.samples.push(unesc(f[1])),
                "fail" if f.len() >= 6 => rep.fails.push(Failure {
                    part: part.name.to_owned(),
                    index: f[1].parse().unwrap_or(0),
                    sig: unesc(f[2]),
                    msg: unesc(f[3]),
                    choices: Some(parse_choices(f[4])),
                    desc: unesc(f[5]),
                    before: f.get(6).map_or(vec![], |h| {
                        h.split(';').filter(|c| !c.is_empty()).map(parse_choices).collect()
                    }),
                    worker: Some((w, n, cases)),
                }),
                "done" => {
                    done = true;
                    let p = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                    rep.evals += p(1);
                    rep.nontrivial += p(2);
                    rep.discarded += p(3);
                    rep.maxwork = rep.maxwork.max(p(4));
                    rep.totwork += p(5);
                    rep.edges = rep.edges.max(p(6));
                    rep.corpus += p(7);
                }
                _ => {}
            }
        }
        if !done {
            // The worker died.  Which case was it running?
            let err = String::from_utf8_lossy(&out.stderr).into_owned();
            let st = describe_status(&out.status);
            if out.status.code() == Some(cov::HANG_EXIT) {
                let idx = err
                    .lines()
                    .filter_map(|l| l.strip_prefix("HANG "))
                    .filter_map(|s| s.trim().parse().ok())
                    .last()
                    .unwrap_or(0);
                rep.fails.push(Failure {
                    part: part.name.into(),
                    index: idx,
                    sig: "work-budget".into(),
                    msg: format!("the case executed more than {} edges: treated as not terminating (or all of its threads were waiting, forever)", part.budget),
                    choices: last_try,
                    desc: String::new(),
                    before: vec![],
                    worker: Some((w, n, cases)),
                });
            } else if st.starts_with("signal 6") || st.starts_with("signal 11") || st.starts_with("signal 4") || st.starts_with("signal 7") || st.starts_with("signal 8") {
                // locate by bisection over the worker's own progress marker
                rep.fails.push(Failure {
                    part: part.name.into(),
                    index: u64::MAX - w,
                    sig: format!("abort ({})", st),
                    msg: format!("the process died: {}; stderr: {}", st, err.chars().take(400).collect::<String>()),
                    choices: last_try,
                    desc: String::new(),
                    before: vec![],
                    worker: Some((w, n, cases)),
                });
            } else {
                rep.errors.push(format!("worker {} of {}: {}; {}", w, part.name, st, err));
            }
        }
    }
    rep.fails.sort_by_key(|f| f.index);
    rep
}

enum OneResult {
    Ok,
    Bad(Failure),
    Hang,
    Crash(String),
    Error(String),
}

fn run_one(prop: &Prop, part: &Part, args: &[String]) -> OneResult {
    let out = match watch::output(self_cmd().args(args)) {
        Ok(o) => o,
        Err(e) => return OneResult::Error(e.to_string()),
    };
    let _ = prop;
    let text = String::from_utf8_lossy(&out.stdout);
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "ok" => return OneResult::Ok,
            "bad" if f.len() >= 5 => {
                return OneResult::Bad(Failure {
                    part: part.name.into(),
                    index: 0,
                    sig: unesc(f[1]),
                    msg: unesc(f[2]),
                    choices: Some(parse_choices(f[3])),
                    desc: unesc(f[4]),
                    before: vec![],
                    worker: None,
                })
            }
            _ => {}
        }
    }
    let st = describe_status(&out.status);
    if out.status.code() == Some(cov::HANG_EXIT) {
        OneResult::Hang
    } else if st.starts_with("signal") && !st.starts_with("signal 9") && !st.starts_with("signal 24") {
        OneResult::Crash(st)
    } else {
        OneResult::Error(format!("{}: {}", st, String::from_utf8_lossy(&out.stderr)))
    }
}

fn tmp_choices(c: &[u64]) -> String {
    let dir = out_dir();
    let p = format!("{}/choices-{}.txt", dir, std::process::id());
    std::fs::write(&p, choices_str(c)).unwrap();
    p
}
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn out_dir() -> String {
    let d = format!("{}/out", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    d
}

fn tmp_cases(before: &[Vec<u64>], last: &[u64]) -> String {
    let p = format!("{}/cases-{}.txt", out_dir(), std::process::id());
    let mut s = String::new();
    for c in before {
        s.push_str(&choices_str(c));
        s.push('\n');
    }
    s.push_str(&choices_str(last));
    std::fs::write(&p, s).unwrap();
    p
}

/// Run cases one after another in one process
fn run_several(prop: &Prop, part: &Part, before: &[Vec<u64>], last: &[u64]) -> OneResult {
    let p = tmp_cases(before, last);
    run_one(prop, part, &["several".into(), prop.id.into(), part.name.into(), p])
}

/// Run the first cases of a worker again
fn run_prefix(prop: &Prop, part: &Part, seed: u64, (w, n, cases): (u64, u64, u64)) -> OneResult {
    let out = match watch::output(self_cmd().args(&["worker", prop.id, part.name, &seed.to_string(), &w.to_string(), &n.to_string(), &cases.to_string()])) {
        Ok(o) => o,
        Err(e) => return OneResult::Error(e.to_string()),
    };
    let text = String::from_utf8_lossy(&out.stdout);
    let mut done = false;
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "fail" if f.len() >= 6 => {
                return OneResult::Bad(Failure {
                    part: part.name.into(),
                    index: f[1].parse().unwrap_or(0),
                    sig: unesc(f[2]),
                    msg: unesc(f[3]),
                    choices: Some(parse_choices(f[4])),
                    desc: unesc(f[5]),
                    before: vec![],
                    worker: Some((w, n, cases)),
                })
            }
            "done" => done = true,
            _ => {}
        }
    }
    let st = describe_status(&out.status);
    if done {
        OneResult::Ok
    } else if out.status.code() == Some(cov::HANG_EXIT) {
        OneResult::Hang
    } else if st.starts_with("signal") && !st.starts_with("signal 9") && !st.starts_with("signal 24") {
        OneResult::Crash(st)
    } else {
        OneResult::Error(st)
    }
}

/// A case that failed, but does not when it is run alone: does it after the cases before it?
fn confirm_history(prop: &Prop, part: &Part, seed: u64, f: &Failure) -> Option<Failure> {
    let mut f = f.clone();
    if let (Some(last), false) = (&f.choices, f.before.is_empty()) {
        let fails = |before: &[Vec<u64>]| match run_several(prop, part, before, last) {
            OneResult::Bad(b) => Some(b),
            OneResult::Crash(s) => Some(Failure { sig: format!("abort ({})", s), ..f.clone() }),
            _ => None,
        };
        let mut best = None;
        for _ in 0..3 {
            best = fails(&f.before);
            if best.is_some() {
                break;
            }
        }
        if let Some(b) = best {
            let mut b = b;
            // Fewer cases before: first only the latest ones, then without any one of them
            let mut before = f.before.clone();
            let mut k = 1;
            while k < before.len() {
                let fewer = &before[before.len() - k..];
                if let Some(x) = fails(fewer) {
                    b = x;
                    before = fewer.to_vec();
                    break;
                }
                k *= 2;
            }
            let mut i = 0;
            let mut tries = 0;
            while i < before.len() && tries < 60 {
                tries += 1;
                let mut fewer = before.clone();
                fewer.remove(i);
                match fails(&fewer) {
                    Some(x) => {
                        b = x;
                        before = fewer
                    }
                    None => i += 1,
                }
            }
            f.sig = b.sig;
            f.msg = format!("{}\n(only after {} other cases in the same process)", b.msg, before.len());
            f.desc = b.desc;
            f.before = before;
            f.worker = None;
            return Some(f);
        }
    }
    if let Some((w, n, cases)) = f.worker {
        let limit = if f.index < cases { f.index + 1 } else { cases };
        for _ in 0..2 {
            let (sig, msg, desc) = match run_prefix(prop, part, seed, (w, n, limit)) {
                OneResult::Bad(b) => (b.sig, b.msg, b.desc),
                OneResult::Crash(s) => (format!("abort ({})", s), f.msg.clone(), f.desc.clone()),
                OneResult::Hang => ("work-budget".into(), f.msg.clone(), f.desc.clone()),
                _ => continue,
            };
            f.sig = sig;
            f.msg = format!("{}\n(only after the other cases of the same worker)", msg);
            f.desc = desc;
            f.worker = Some((w, n, limit));
            f.before = vec![];
            f.choices = None;
            return Some(f);
        }
    }
    None
}

/// A process that dies (stack overflow, abort) gives no record of its choices: find the index by
/// re-running the worker's cases one process at a time is too slow, so workers of crashed parts are
/// re-run with progress output.
fn locate_crash(prop: &Prop, part: &Part, seed: u64, w: u64, n: u64, cases: u64) -> Option<u64> {
    // bisect on the number of cases run by this worker
    let crashes = |lim: u64| -> bool {
        let out = watch::output(self_cmd().args(&["worker", prop.id, part.name, &seed.to_string(), &w.to_string(), &n.to_string(), &lim.to_string()]));
        match out {
            Ok(o) => !String::from_utf8_lossy(&o.stdout).lines().any(|l| l.starts_with("done")),
            Err(_) => false,
        }
    };
    let (mut lo, mut hi) = (0u64, cases); // lo: does not crash; hi: crashes
    if !crashes(hi) {
        return None;
    }
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if crashes(mid) {
            hi = mid
        } else {
            lo = mid
        }
    }
    Some(hi - 1)
}

pub fn confirm_and_shrink(prop: &Prop, part: &Part, seed: u64, cases: u64, f: &Failure) -> Result<Failure, String> {
    let original = f;
    let mut f = f.clone();
    f.before = vec![];
    f.worker = None;
    if f.sig == "work-budget" || f.sig.starts_with("abort") {
        // confirm in a fresh process
        if f.sig.starts_with("abort") && f.choices.is_none() {
            let w = u64::MAX - f.index;
            let n = LOGICAL_WORKERS.min(cases.max(1));
            match locate_crash(prop, part, seed, w, n, cases) {
                Some(i) => {
                    f.index = i;
                }
                None => return Err("a worker died but the death does not reproduce".into()),
            }
        }
        let args: Vec<String> = match &f.choices {
            Some(c) => vec!["onemut".into(), prop.id.into(), part.name.into(), tmp_choices(c)],
            None => vec!["index".into(), prop.id.into(), part.name.into(), seed.to_string(), f.index.to_string()],
        };
        return match run_one(prop, part, &args) {
            OneResult::Hang => {
                f.sig = "work-budget".into();
                Ok(f)
            }
            OneResult::Crash(st) => {
                f.sig = format!("abort ({})", st);
                Ok(f)
            }
            OneResult::Bad(b) => Ok(b),
            OneResult::Ok => {
                let mut with_index = original.clone();
                with_index.index = f.index;
                confirm_history(prop, part, seed, &with_index).ok_or_else(|| format!("{} does not reproduce", f.sig))
            }
            OneResult::Error(e) => Err(e),
        };
    }
    let c = f.choices.clone().unwrap();
    // confirm in a fresh process first
    let p = tmp_choices(&c);
    match run_one(prop, part, &["one".into(), prop.id.into(), part.name.into(), p.clone()]) {
        OneResult::Bad(b) if b.sig == f.sig => {}
        OneResult::Bad(b) => f.sig = b.sig,
        OneResult::Ok => {
            return confirm_history(prop, part, seed, original)
                .ok_or_else(|| format!("failure {:?} does not reproduce in a fresh process: {}", f.sig, f.msg))
        }
        OneResult::Hang => f.sig = "work-budget".into(),
        OneResult::Crash(s) => f.sig = format!("abort ({})", s),
        OneResult::Error(e) => return Err(e),
    }
    let out = watch::output(self_cmd().args(&["shrink", prop.id, part.name, &p, &f.sig])).map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout);
    for line in text.lines() {
        let x: Vec<&str> = line.split('\t').collect();
        if x[0] == "shrunk" && x.len() >= 6 {
            f.msg = unesc(x[3]);
            f.choices = Some(parse_choices(x[4]));
            f.desc = unesc(x[5]);
        }
    }
    Ok(f)
}

// ------------------------------------------------------------------ known findings

/// lines: `finding: property=<id> sig=<signature> :: <what fails>` and
/// `fixed: property=<id> <commit> <what failed>` (the latter suppress nothing)
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = format!("{}/KNOWN_FINDINGS.txt", verif_dir());
    let text = std::fs::read_to_string(p).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let pre = format!("finding: property={} sig=", id);
        if let Some(rest) = l.strip_prefix(&pre) {
            let mut it = rest.splitn(2, " :: ");
            let sig = it.next().unwrap_or("").to_owned();
            let what = it.next().unwrap_or("").to_owned();
            v.push((sig, what));
        }
    }
    v
}

// ------------------------------------------------------------------ JSON

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "…"
    } else {
        s.to_owned()
    }
}

/// C28 looks at what is allocated, which caches of the allocator would blur
fn set_tunables(id: &str) {
    if id == "C28" {
        std::env::set_var("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0");
    }
}

pub fn run_check(prop: &Prop, tier: &str, seed: u64, only_part: Option<&str>, scale: f64) -> i32 {
    set_tunables(prop.id);
    let t0 = std::time::Instant::now();
    let mut violations = vec![];
    let mut errors = vec![];
    let mut parts_json = vec![];
    let (mut evals, mut nontrivial) = (0, 0);
    let mut samples: Vec<String> = vec![];
    let known = known_findings(prop.id);
    for part in &prop.parts {
        if only_part.map_or(false, |p| p != part.name) {
            continue;
        }
        let cases = if tier == "thorough" { part.thorough } else { part.quick };
        let cases = ((cases as f64 * scale) as u64).max(1);
        let pt = std::time::Instant::now();
        let rep = run_part(prop, part, seed, cases);
        let pw = pt.elapsed().as_secs_f64();
        evals += rep.evals;
        nontrivial += rep.nontrivial;
        errors.extend(rep.errors.iter().cloned());
        for s in rep.samples.iter().take(2) {
            samples.push(format!("[{}] {}", part.name, clip(s, 900)));
        }
        let labels = rep
            .labels
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", ");
        parts_json.push(format!(
            "{{\"part\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}, \"max_edges_in_a_case\": {}, \"edges_covered\": {}, \"corpus\": {}, \"labels\": {{{}}}, \"wall_s\": {:.1}}}",
            json_str(part.name), rep.evals, rep.nontrivial, rep.discarded, rep.maxwork, rep.edges, rep.corpus, labels, pw
        ));
        eprintln!(
            "  {} {}: {} cases, {} non-trivial distinct, {} discarded, {} failures, {:.1}s, max edges {} (mean {})",
            prop.id, part.name, rep.evals, rep.nontrivial, rep.discarded, rep.fails.len(), pw, rep.maxwork,
            if rep.evals > 0 { rep.totwork / rep.evals } else { 0 }
        );
        if std::env::var("VH_LABELS").is_ok() {
            for (k, v) in &rep.labels {
                eprintln!("      {:>9} {}", v, k);
            }
        }
        let mut seen = HashSet::new();
        for f in &rep.fails {
            if seen.len() >= 2 || !seen.insert(f.sig.clone()) {
                continue;
            }
            match confirm_and_shrink(prop, part, seed, cases, f) {
                Ok(f) => {
                    if known.iter().any(|k| k.0 == f.sig) {
                        continue;
                    }
                    violations.push(f)
                }
                Err(e) => {
                    // Seen twice at the same case, or with the same signature, is not a coincidence
                    let again = run_part(prop, part, seed, cases);
                    let same = again.fails.iter().find(|g| g.sig == f.sig && g.sig != "work-budget");
                    match same {
                        Some(g) if !known.iter().any(|k| k.0 == g.sig) => violations.push(Failure {
                            msg: format!("{}\n(in two runs of all cases, but not alone)", g.msg),
                            choices: None,
                            before: vec![],
                            ..g.clone()
                        }),
                        // What threads do can depend on how they are scheduled: what was seen was there
                        _ if part.threads > 1
                            && (f.sig == "nondeterministic" || f.sig == "work-budget" || f.msg.contains("victor/src/"))
                            && !known.iter().any(|k| k.0 == f.sig) => {
                            let mut f = f.clone();
                            if f.index >= cases {
                                f.index = 0
                            }
                            f.msg = format!("{}\n(seen once, not again: it depends on the scheduling of threads)", f.msg);
                            f.choices = None;
                            f.before = vec![];
                            violations.push(f)
                        }
                        _ => errors.push(e),
                    }
                }
            }
        }
        if !violations.is_empty() {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    for (_, what) in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, what);
    }
    let mut vio_seen = HashSet::new();
    for (k, f) in violations.iter().enumerate() {
        if !vio_seen.insert((f.part.clone(), f.sig.clone())) {
            continue;
        }
        let path = format!("{}/replay-{}-{}-{}.json", out_dir(), prop.id, f.part.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), k);
        let body = format!(
            "{{\n \"property\": {},\n \"part\": {},\n \"seed\": {},\n \"index\": {},\n \"sig\": {},\n \"message\": {},\n \"case\": {},\n \"before\": {},\n \"worker\": {},\n \"choices\": {}\n}}\n",
            json_str(prop.id),
            json_str(&f.part),
            seed,
            f.index,
            json_str(&f.sig),
            json_str(&f.msg),
            json_str(&f.desc),
            json_str(&f.before.iter().map(|c| choices_str(c)).collect::<Vec<_>>().join(";")),
            match f.worker {
                Some((w, n, cases)) => json_str(&format!("{};{};{}", w, n, cases)),
                None => "null".into(),
            },
            match &f.choices {
                Some(c) => format!("[{}]", choices_str(c)),
                None => "null".into(),
            }
        );
        std::fs::write(&path, body).unwrap();
        println!("--- {} / {} [{}]", prop.id, f.part, f.sig);
        println!("{}", clip(&f.msg, 3000));
        println!("case: {}", clip(&f.desc, 3000));
        println!("VIOLATION property={} replay={}", prop.id, path);
        code = 1;
    }
    if code == 0 && !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}", e);
        }
        code = 3;
    }
    samples.truncate(12);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"parts\": [{}],\n  \"instrumented_edges\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(tier),
        seed,
        evals,
        nontrivial,
        json_str(prop.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "),
        parts_json.join(",\n   "),
        unsafe { cov::NGUARDS },
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations.len()
    );
    let evdir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&evdir);
    if only_part.is_none() {
        std::fs::write(format!("{}/{}.json", evdir, prop.id), ev).unwrap();
    }
    code
}

pub fn run_replay(props: &[Prop], path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap();
    let field = |k: &str| -> Option<String> {
        let key = format!("\"{}\": ", k);
        let i = text.find(&key)? + key.len();
        let rest = &text[i..];
        if rest.starts_with('"') {
            let e = rest[1..].find('"')?;
            Some(rest[1..1 + e].to_owned())
        } else if rest.starts_with('[') {
            let e = rest.find(']')?;
            Some(rest[1..e].to_owned())
        } else {
            Some(rest.split(|c| c == ',' || c == '\n').next()?.to_owned())
        }
    };
    let id = field("property").unwrap();
    set_tunables(&id);
    let pn = field("part").unwrap();
    let prop = props.iter().find(|p| p.id == id).expect("property");
    let part = prop.parts.iter().find(|p| p.name == pn).expect("part");
    let ch = field("choices").unwrap();
    let before: Vec<Vec<u64>> = field("before").unwrap_or_default().split(';').filter(|c| !c.is_empty()).map(parse_choices).collect();
    let worker: Vec<u64> = field("worker").unwrap_or_default().split(';').filter_map(|x| x.trim().parse().ok()).collect();
    let r = if !before.is_empty() {
        run_several(prop, part, &before, &parse_choices(&ch))
    } else if worker.len() == 3 {
        let seed = field("seed").unwrap().trim().parse().unwrap();
        run_prefix(prop, part, seed, (worker[0], worker[1], worker[2]))
    } else if ch.trim() == "null" {
        run_one(
            prop,
            part,
            &["index".into(), id.clone(), pn, field("seed").unwrap().trim().to_owned(), field("index").unwrap().trim().to_owned()],
        )
    } else {
        let p = tmp_choices(&parse_choices(&ch));
        let mode = match field("sig").as_deref() {
            Some(s) if s == "work-budget" || s.starts_with("abort") => "onemut",
            _ => "one",
        };
        let run = || run_one(prop, part, &[mode.into(), id.clone(), pn.clone(), p.clone()]);
        // What depends on the schedule may need several tries
        let mut r = run();
        for _ in 1..if part.threads > 1 { 30 } else { 1 } {
            if let OneResult::Ok = r {
                r = run()
            }
        }
        r
    };
    match r {
        OneResult::Ok => {
            println!("replay: holds");
            0
        }
        OneResult::Bad(f) => {
            println!("{}\ncase: {}", f.msg, f.desc);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        OneResult::Hang => {
            println!("work budget exceeded");
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        OneResult::Crash(s) => {
            println!("process died: {}", s);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        OneResult::Error(e) => {
            println!("ERROR {}", e);
            3
        }
    }
}
