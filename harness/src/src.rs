//! Choice-sequence generator (all randomness of a case goes through `Src`), shrinker and parallel driver.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { self.next() % n }
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545F4914F6CDD1D) ^ b.rotate_left(17));
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Source of choices. 0 is always the simplest alternative.
pub struct Src {
    pub rec: Vec<u32>,
    replay: Option<Vec<u32>>,
    pos: usize,
    rng: Rng,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rec: vec![], replay: None, pos: 0, rng: Rng::new(seed) }
    }
    pub fn replay(v: Vec<u32>) -> Self {
        Src { rec: vec![], replay: Some(v), pos: 0, rng: Rng::new(0) }
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            None => self.rng.below(n as u64) as u32,
            Some(d) => d.get(self.pos).copied().unwrap_or(0) % (n as u32),
        };
        self.pos += 1;
        self.rec.push(v);
        v as usize
    }
    /// inclusive range, `lo` simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let tot: usize = w.iter().sum();
        let mut x = self.below(tot);
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Pass,
    /// discarded: not a case of the property
    Skip(String),
    /// the property is broken; (short signature, explanation)
    Fail(String, String),
    /// the harness could not decide (watchdog, spawn error, ...)
    Err(String),
}
#[derive(Clone, Debug)]
pub struct Case {
    pub verdict: Verdict,
    pub nontrivial: Option<u64>,
    pub labels: Vec<String>,
    pub sample: String,
}
impl Case {
    pub fn new(sample: String) -> Self {
        Case { verdict: Verdict::Pass, nontrivial: None, labels: vec![], sample }
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into())
    }
    pub fn fail(mut self, sig: impl Into<String>, msg: impl Into<String>) -> Self {
        self.verdict = Verdict::Fail(sig.into(), msg.into());
        self
    }
    pub fn skip(mut self, s: impl Into<String>) -> Self {
        self.verdict = Verdict::Skip(s.into());
        self
    }
    pub fn err(mut self, s: impl Into<String>) -> Self {
        self.verdict = Verdict::Err(s.into());
        self
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = Some(hash_str(&self.sample));
        }
    }
}

pub struct Summary {
    pub evaluations: usize,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, usize>,
    pub skips: BTreeMap<String, usize>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub errors: Vec<String>,
}
pub struct Failure {
    pub choices: Vec<u32>,
    pub sig: String,
    pub msg: String,
    pub sample: String,
    pub family: String,
    pub shrink_steps: usize,
}
impl Summary {
    pub fn new() -> Self {
        Summary { evaluations: 0, nontrivial: HashSet::new(), labels: BTreeMap::new(), skips: BTreeMap::new(), samples: vec![], failure: None, errors: vec![] }
    }
    pub fn merge(&mut self, o: Summary) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.skips {
            *self.skips.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        if self.failure.is_none() {
            self.failure = o.failure;
        }
        self.errors.extend(o.errors);
    }
}

pub type CaseFn<'a> = &'a (dyn Fn(&mut Src) -> Case + Sync);

fn guarded(f: CaseFn, src: &mut Src) -> Case {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src))) {
        Ok(c) => c,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Case::new(String::new()).err(format!("harness panic: {m}"))
        }
    }
}

/// Run `n` cases of a family; case i is a pure function of (seed, family, i).
pub fn drive(family: &str, seed: u64, n: usize, f: CaseFn) -> Summary {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let dump = std::env::var("CV_DUMP").is_ok();
    let sum = Mutex::new(Summary::new());
    let fails: Mutex<Vec<(usize, Vec<u32>, Case)>> = Mutex::new(vec![]);
    let base = mix(seed, hash_str(family));
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let mut loc = Summary::new();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let mut src = Src::random(mix(base, i as u64));
                        let c = guarded(f, &mut src);
                        loc.evaluations += 1;
                        if dump {
                            eprintln!("[{family} #{i}] {:?}\n{}\n", c.labels, c.sample);
                        }
                        for l in &c.labels {
                            *loc.labels.entry(format!("{family}:{l}")).or_default() += 1;
                        }
                        match &c.verdict {
                            Verdict::Pass => {
                                if let Some(h) = c.nontrivial {
                                    loc.nontrivial.insert(h);
                                    if i < 3 {
                                        loc.samples.push(format!("[{family} #{i}] {}", c.sample));
                                    }
                                }
                            }
                            Verdict::Skip(s) => {
                                *loc.skips.entry(format!("{family}:{s}")).or_default() += 1;
                            }
                            Verdict::Err(e) => {
                                loc.errors.push(format!("{family} case {i}: {e}"));
                                if loc.errors.len() > 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Verdict::Fail(..) => {
                                stop.store(true, Ordering::Relaxed);
                                fails.lock().unwrap().push((i, src.rec.clone(), c.clone()));
                            }
                        }
                    }
                    sum.lock().unwrap().merge(loc);
                })
                .unwrap();
        }
    });
    let mut sum = sum.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|x| x.0);
    if let Some((_, choices, case)) = fails.into_iter().next() {
        let (choices, case, steps) = shrink(choices, case, f);
        if let Verdict::Fail(sig, msg) = case.verdict {
            sum.failure = Some(Failure { choices, sig, msg, sample: case.sample, family: family.to_string(), shrink_steps: steps });
        }
    }
    sum
}

/// Greedy choice-sequence shrinking: drop chunks, zero, halve and decrement choices.
fn shrink(mut best: Vec<u32>, mut case: Case, f: CaseFn) -> (Vec<u32>, Case, usize) {
    let start = std::time::Instant::now();
    let mut tries = 0usize;
    let sig0 = match &case.verdict {
        Verdict::Fail(s, _) => s.clone(),
        _ => return (best, case, 0),
    };
    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>, case: &mut Case| -> bool {
        if tries >= 1500 || start.elapsed().as_secs() > 40 {
            return false;
        }
        tries += 1;
        let mut src = Src::replay(cand);
        let c = guarded(f, &mut src);
        if let Verdict::Fail(s, _) = &c.verdict {
            if *s == sig0 && (src.rec.len(), src.rec.iter().map(|&x| x as u64).sum::<u64>()) < (best.len(), best.iter().map(|&x| x as u64).sum::<u64>()) {
                *best = src.rec.clone();
                *case = c;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if !attempt(c, &mut best, &mut case) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut case) && i < best.len() && best[i] > 1 {
                    let mut c = best.clone();
                    c[i] /= 2;
                    if !attempt(c, &mut best, &mut case) && i < best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(c, &mut best, &mut case);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, case, tries)
}
