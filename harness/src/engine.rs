//! Property-based testing engine: a recorded choice stream (so that every
//! random decision of a generator can be replayed and shrunk), a deterministic
//! parallel driver and an internal shrinker.

use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    hash::{DefaultHasher, Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

pub struct G {
    state: u64,
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
    pos: usize,
}

impl G {
    pub fn from_seed(seed: u64) -> Self {
        G {
            state: seed,
            replay: None,
            rec: Vec::new(),
            pos: 0,
        }
    }
    pub fn from_choices(choices: Vec<u32>) -> Self {
        G {
            state: 0,
            replay: Some(choices),
            rec: Vec::new(),
            pos: 0,
        }
    }
    fn next(&mut self) -> u64 {
        // splitmix64
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// A number in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(c) => (c.get(self.pos).copied().unwrap_or(0) as usize).min(n - 1),
            None => ((self.next() >> 11) % n as u64) as usize,
        };
        self.pos += 1;
        self.rec.push(v as u32);
        v
    }
    /// Mostly `n`, now and then a good deal more: repetitions whose length
    /// usually doesn't matter.
    pub fn many(&mut self, n: usize) -> usize {
        if self.chance(1, 40) {
            n + self.range(1, 12)
        } else {
            n
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num / den`; false is the simplest choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.below(i + 1);
            items.swap(i, j);
        }
    }
}

/// What one case reports besides pass/fail.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub fingerprint: u64,
    pub labels: Vec<&'static str>,
    /// Human-readable rendering of the generated case.
    pub rendering: String,
    /// Set when the failure is a listed known finding.
    pub known: Option<String>,
}
impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn note<T: Hash>(&mut self, t: &T) {
        let mut h = DefaultHasher::new();
        self.fingerprint.hash(&mut h);
        t.hash(&mut h);
        self.fingerprint = h.finish();
    }
}

pub type Outcome = Result<(), String>;
pub type PropFn = fn(&mut G, &mut Case) -> Outcome;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: PropFn,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run code under test; a panic becomes an `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

pub fn run_case(prop: &Prop, g: &mut G) -> (Case, Outcome) {
    let mut case = Case::default();
    let out = catch_unwind(AssertUnwindSafe(|| (prop.run)(g, &mut case)));
    match out {
        Ok(r) => (case, r),
        Err(_) => {
            let msg = last_panic();
            if msg.contains("harness bug") {
                eprintln!("{msg}");
                std::process::exit(3);
            }
            (case, Err(format!("panicked: {msg}")))
        }
    }
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes().chain(seed.to_le_bytes()).chain(index.to_le_bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Failure {
    pub index: u64,
    pub choices: Vec<u32>,
    pub message: String,
    pub rendering: String,
}

pub struct Report {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<Failure>,
    pub wall_s: f64,
}

pub fn run_prop(prop: &Prop, seed: u64, cases: u64, threads: usize, progress: Option<&std::fs::File>) -> Report {
    use std::os::unix::fs::FileExt;
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    struct Shared {
        evaluations: u64,
        nontrivial: u64,
        seen: HashSet<u64>,
        labels: BTreeMap<String, u64>,
        samples: BTreeMap<u64, String>,
        known: BTreeMap<String, u64>,
        failure: Option<Failure>,
    }
    let shared = Mutex::new(Shared {
        evaluations: 0,
        nontrivial: 0,
        seen: HashSet::new(),
        labels: BTreeMap::new(),
        samples: BTreeMap::new(),
        known: BTreeMap::new(),
        failure: None,
    });
    let sample_stride = (cases / 40).max(1);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, min_fail, shared) = (&next, &min_fail, &shared);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases || i > min_fail.load(Ordering::Relaxed) {
                        if let Some(f) = progress {
                            let _ = f.write_at(&u64::MAX.to_le_bytes(), t as u64 * 8);
                        }
                        break;
                    }
                    if let Some(f) = progress {
                        let _ = f.write_at(&i.to_le_bytes(), t as u64 * 8);
                    }
                    let mut g = G::from_seed(case_seed(seed, prop.id, i));
                    let (case, out) = run_case(prop, &mut g);
                    let mut sh = shared.lock().unwrap();
                    sh.evaluations += 1;
                    for l in &case.labels {
                        *sh.labels.entry(l.to_string()).or_default() += 1;
                    }
                    if case.nontrivial {
                        sh.nontrivial += 1;
                        sh.seen.insert(case.fingerprint);
                        if i % sample_stride == sample_stride / 2 || sh.samples.is_empty() {
                            let mut r = case.rendering.clone();
                            if r.len() > 1200 {
                                let mut n = 1200;
                                while !r.is_char_boundary(n) {
                                    n -= 1;
                                }
                                r.truncate(n);
                                r.push_str(" …");
                            }
                            sh.samples.insert(i, r);
                        }
                    }
                    if let Err(message) = out {
                        if let Some(k) = case.known {
                            *sh.known.entry(k).or_default() += 1;
                        } else if sh.failure.as_ref().map_or(true, |f| i < f.index) {
                            min_fail.fetch_min(i, Ordering::Relaxed);
                            sh.failure = Some(Failure {
                                index: i,
                                choices: g.rec,
                                message,
                                rendering: case.rendering,
                            });
                        }
                    }
                })
                .unwrap();
        }
    });
    let sh = shared.into_inner().unwrap();
    let mut samples: Vec<String> = sh.samples.into_values().collect();
    samples.sort_by_key(|s| s.len());
    let n = samples.len();
    let samples = if n <= 5 {
        samples
    } else {
        (0..5).map(|k| samples[k * (n - 1) / 4].clone()).collect()
    };
    Report {
        evaluations: sh.evaluations,
        distinct_nontrivial: sh.seen.len() as u64,
        nontrivial: sh.nontrivial,
        labels: sh.labels,
        samples,
        known: sh.known,
        failure: sh.failure,
        wall_s: start.elapsed().as_secs_f64(),
    }
}

/// Shrink a failing choice sequence. The failure may change its message; any
/// (not known) failure of the same property is accepted.
pub fn shrink(prop: &Prop, first: Failure, max_evals: usize, max_s: f64) -> Failure {
    let start = Instant::now();
    let mut best = first;
    let mut evals = 0;
    let try_one = |choices: Vec<u32>, best: &mut Failure, evals: &mut usize| -> bool {
        *evals += 1;
        let mut g = G::from_choices(choices);
        let (case, out) = run_case(prop, &mut g);
        if let (Err(message), None) = (out, case.known) {
            let better = (g.rec.len(), case.rendering.len(), g.rec.iter().map(|c| *c as u64).sum::<u64>())
                < (
                    best.choices.len(),
                    best.rendering.len(),
                    best.choices.iter().map(|c| *c as u64).sum::<u64>(),
                );
            if better {
                *best = Failure {
                    index: best.index,
                    choices: g.rec,
                    message,
                    rendering: case.rendering,
                };
                return true;
            }
        }
        false
    };
    let mut improved = true;
    while improved && evals < max_evals && start.elapsed().as_secs_f64() < max_s {
        improved = false;
        // delete chunks
        let mut size = (best.choices.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.choices.len() {
                if evals >= max_evals || start.elapsed().as_secs_f64() > max_s {
                    return best;
                }
                let mut c = best.choices.clone();
                c.drain(i..i + size);
                if try_one(c, &mut best, &mut evals) {
                    improved = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        // zero chunks, then reduce single values
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.choices.len() {
                if evals >= max_evals || start.elapsed().as_secs_f64() > max_s {
                    return best;
                }
                if best.choices[i..i + size].iter().any(|c| *c != 0) {
                    let mut c = best.choices.clone();
                    c[i..i + size].fill(0);
                    if try_one(c, &mut best, &mut evals) {
                        improved = true;
                        continue;
                    }
                    if size == 1 {
                        for v in [best.choices[i] / 2, best.choices[i] - 1] {
                            let mut c = best.choices.clone();
                            c[i] = v;
                            if v < best.choices[i] && try_one(c, &mut best, &mut evals) {
                                improved = true;
                                break;
                            }
                        }
                    }
                }
                i += size;
            }
        }
    }
    best
}

pub fn evidence(prop: &Prop, tier: &str, seed: u64, r: &Report, extra: Value) -> Value {
    let mut cov = json!({
        "evaluations": r.evaluations,
        "distinct_nontrivial": r.distinct_nontrivial,
        "rule": prop.rule,
        "samples": r.samples,
        "nontrivial_including_repeats": r.nontrivial,
        "classes": r.labels,
        "excluded_known_findings": r.known,
    });
    if let (Some(o), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            o.insert(k.clone(), v.clone());
        }
    }
    json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": prop.assumptions,
        "wall_s": r.wall_s,
        "violations": if r.failure.is_some() { 1 } else { 0 },
    })
}
