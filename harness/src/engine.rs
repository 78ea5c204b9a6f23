//! A small property-testing engine: every random decision of a case is one draw from a choice
//! stream, so a case is a pure function of its recorded choices (replay) and can be minimised by
//! deleting / zeroing / halving choices (shrinking).  An exhausted stream yields zeros, and every
//! generator maps 0 to its simplest value.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash_bytes(h: u64, data: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.rotate_left(32).wrapping_mul(0x9E3779B97F4A7C15)).next()
}

/// Choice stream.
pub struct Src {
    given: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { given: vec![], pos: 0, rng: Some(Rng::new(seed)), rec: vec![] }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { given: choices.to_vec(), pos: 0, rng: None, rec: vec![] }
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => self.given.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// uniform in 0..n (n >= 1), 0 is simplest
    pub fn below(&mut self, n: u64) -> u64 {
        let v = self.u64() % n.max(1);
        let l = self.rec.len();
        self.rec[l - 1] = v; // canonical
        v
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; the shrunk value is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize].clone()
    }
    /// weighted index; index 0 is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut v = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f64_in(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// symmetric value in (-m, m), 0 simplest
    pub fn sym(&mut self, m: f64) -> f64 {
        let u = self.u64();
        let mag = (u >> 12) as f64 / (1u64 << 52) as f64 * m;
        if u & 1 == 1 {
            -mag
        } else {
            mag
        }
    }
    /// log-uniform magnitude, both signs; 0 possible
    pub fn log_mag(&mut self, lo: f64, hi: f64) -> f64 {
        let u = self.unit();
        (lo.ln() + (hi.ln() - lo.ln()) * u).exp()
    }
    /// any finite f64 that is an interesting payload value
    pub fn any_finite(&mut self) -> f64 {
        match self.below(8) {
            0 => 0.0,
            1 => self.sym(1.0),
            2 => self.sym(10.0),
            3 => self.sym(1e6),
            4 => {
                let m = self.log_mag(1e-300, 1e300);
                if self.bool() {
                    -m
                } else {
                    m
                }
            }
            5 => self.pick(&[1.0, -1.0, -0.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 0.5]),
            6 => (self.below(2001) as f64) - 1000.0,
            _ => {
                let v = f64::from_bits(self.u64());
                if v.is_finite() {
                    v
                } else {
                    1.5
                }
            }
        }
    }
    /// any bit pattern (NaN payloads, infinities, subnormals included)
    pub fn any_bits(&mut self) -> f64 {
        match self.below(4) {
            0 => self.any_finite(),
            1 => self.any_finite(),
            2 => self.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]),
            _ => f64::from_bits(self.u64()),
        }
    }
    pub fn arr<const N: usize>(&mut self, mut f: impl FnMut(&mut Src) -> f64) -> [f64; N] {
        let mut a = [0.0; N];
        for x in a.iter_mut() {
            *x = f(self);
        }
        a
    }
    pub fn digest(&self) -> u64 {
        let mut h = 7u64;
        for c in &self.rec {
            h = mix(h, *c);
        }
        h
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Pass,
    /// wrong whatever the timing was
    Fail(String),
    /// involves a timeout / hang: only believed if it repeats every time
    FailTiming(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub nontrivial: bool,
    pub labels: Vec<(&'static str, u64)>,
    pub sample: Option<String>,
}
impl Outcome {
    pub fn pass(nontrivial: bool) -> Outcome {
        Outcome { verdict: Verdict::Pass, nontrivial, labels: vec![], sample: None }
    }
    pub fn label(mut self, l: &'static str, n: u64) -> Self {
        self.labels.push((l, n));
        self
    }
    pub fn sample(mut self, s: String) -> Self {
        self.sample = Some(s);
        self
    }
}

/// Collects the checks of one case.
#[derive(Default)]
pub struct Judge {
    pub fail: Option<String>,
    pub timing: Option<String>,
}
impl Judge {
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if !ok && self.fail.is_none() {
            self.fail = Some(msg());
        }
        ok
    }
    pub fn fail(&mut self, msg: String) {
        if self.fail.is_none() {
            self.fail = Some(msg);
        }
    }
    pub fn timing(&mut self, msg: String) {
        if self.timing.is_none() {
            self.timing = Some(msg);
        }
    }
    pub fn bad(&self) -> bool {
        self.fail.is_some() || self.timing.is_some()
    }
    pub fn verdict(self) -> Verdict {
        // A timing problem can be the cause of everything else that looks wrong, so it dominates.
        if let Some(t) = self.timing {
            Verdict::FailTiming(match self.fail {
                Some(f) => format!("{} (and: {})", t, f),
                None => t,
            })
        } else if let Some(f) = self.fail {
            Verdict::Fail(f)
        } else {
            Verdict::Pass
        }
    }
}

pub type CaseFn = fn(&mut Src) -> Outcome;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// how many cases run at the same time
    pub par: usize,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub subs: Vec<Sub>,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub unconfirmed: Vec<String>,
}

pub struct Failure {
    pub sub: &'static str,
    pub msg: String,
    pub choices: Vec<u64>,
    pub case_no: u64,
}

/// A case that takes longer hangs (the longest session deadline is 25 s plus 40 s for the server).
const HUNG: Duration = Duration::from_secs(90);

pub fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    mix(mix(hash_bytes(hash_bytes(seed, prop.as_bytes()), sub.as_bytes()), seed), i)
}

fn confirm(f: CaseFn, choices: &[u64], v: &Verdict) -> Option<String> {
    match v {
        Verdict::Pass => None,
        Verdict::Fail(_) => {
            // deterministic in all but the rarest cases; one of three reruns must agree
            for _ in 0..3 {
                match f(&mut Src::replay(choices)).verdict {
                    Verdict::Pass => {}
                    Verdict::Fail(m) => return Some(m),
                    Verdict::FailTiming(_) => {}
                }
            }
            None
        }
        Verdict::FailTiming(_) => {
            // It has to repeat every time. An attempt during which the machine did not let this
            // process run in time says nothing and is made again.
            let t0 = Instant::now();
            let mut last = None;
            let mut valid = 0;
            for k in 0..12 {
                if valid == 3 || (k >= 3 && t0.elapsed() > Duration::from_secs(60)) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(200 * k));
                let (out, late) = watched(|| f(&mut Src::replay(choices)).verdict);
                match out {
                    Verdict::Pass => return None,
                    Verdict::Fail(m) | Verdict::FailTiming(m) if late < STARVED => {
                        valid += 1;
                        last = Some(m)
                    }
                    _ => {}
                }
            }
            last
        }
    }
}

/// A thread that wakes up this much too late tells that the machine is overloaded.
const STARVED: Duration = Duration::from_millis(25);

/// Runs `f` and tells by how much a thread that sleeps next to it woke up too late at most.
fn watched<T>(f: impl FnOnce() -> T) -> (T, Duration) {
    let over = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let w = sc.spawn(|| {
            let mut worst = Duration::ZERO;
            while !over.load(Ordering::SeqCst) {
                let t = Instant::now();
                std::thread::sleep(Duration::from_millis(1));
                worst = worst.max(t.elapsed());
            }
            worst
        });
        let r = f();
        over.store(true, Ordering::SeqCst);
        (r, w.join().unwrap())
    })
}

fn shrink(f: CaseFn, start: Vec<u64>, first_msg: String, budget: Duration) -> (Vec<u64>, String, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut msg = first_msg;
    let mut runs = 0u64;
    let attempt = |cand: &[u64], msg: &mut String, runs: &mut u64| -> bool {
        *runs += 1;
        match f(&mut Src::replay(cand)).verdict {
            Verdict::Fail(m) => {
                *msg = m;
                true
            }
            _ => false,
        }
    };
    let mut improved = true;
    while improved && t0.elapsed() < budget && runs < 600 {
        improved = false;
        // drop the tail
        let mut cut = best.len() / 2;
        while cut > 0 && t0.elapsed() < budget && runs < 600 {
            if best.len() >= cut {
                let cand = best[..best.len() - cut].to_vec();
                if attempt(&cand, &mut msg, &mut runs) {
                    best = cand;
                    improved = true;
                    continue;
                }
            }
            cut /= 2;
        }
        // delete / zero chunks
        let mut size = (best.len() / 4).max(1);
        while size > 0 && t0.elapsed() < budget && runs < 600 {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget && runs < 600 {
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if attempt(&cand, &mut msg, &mut runs) {
                    best = cand;
                    improved = true;
                    continue;
                }
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    if attempt(&cand, &mut msg, &mut runs) {
                        best = cand;
                        improved = true;
                    }
                }
                i += size;
            }
            if size > 8 {
                size /= 4;
            } else {
                size /= 2;
            }
        }
        // halve values
        for i in 0..best.len().min(64) {
            if t0.elapsed() > budget || runs >= 600 {
                break;
            }
            if best[i] > 1 {
                let mut cand = best.clone();
                cand[i] /= 2;
                if attempt(&cand, &mut msg, &mut runs) {
                    best = cand;
                    improved = true;
                }
            }
        }
    }
    (best, msg, runs)
}

pub fn run_prop(prop: &Prop, seed: u64, thorough: bool, only: Option<&str>, scale: f64) -> (Stats, Option<Failure>, BTreeMap<String, u64>) {
    let stats = Arc::new(Mutex::new(Stats::default()));
    let mut per_sub: BTreeMap<String, u64> = BTreeMap::new();
    let t_all = Instant::now();
    // wall-clock bound of the whole check; what was not generated is not counted
    let budget = Duration::from_secs(if thorough { 780 } else { 240 });
    for sub in &prop.subs {
        if let Some(o) = only {
            if o != sub.name {
                continue;
            }
        }
        let n = if thorough { sub.thorough } else { sub.quick };
        let n = ((n as f64) * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let done = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<(u64, Vec<u64>, Verdict)>> = Mutex::new(None);
        let confirmed: Mutex<Option<Failure>> = Mutex::new(None);
        let t_sub = Instant::now();
        let workers = sub.par.max(1);
        // per worker: which case is running since when (watched, so that a call that never
        // returns is reported instead of blocking the check)
        let running: Vec<Mutex<Option<(u64, Instant)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
        let left = AtomicUsize::new(workers);
        // held by every case; a case that depends on timing is repeated while nothing else runs
        let quiet = RwLock::new(());
        std::thread::scope(|sc| {
            let (running, left, quiet) = (&running, &left, &quiet);
            sc.spawn(move || {
                let mut cleared: HashSet<u64> = HashSet::new();
                while left.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(100));
                    for r in running {
                        let r = *r.lock().unwrap();
                        if let Some((i, t)) = r {
                            if t.elapsed() > HUNG && cleared.insert(i) {
                                let cs = case_seed(seed, prop.id, sub.name, i);
                                let f = sub.f;
                                let (tx, rx) = std::sync::mpsc::channel();
                                std::thread::spawn(move || {
                                    f(&mut Src::random(cs));
                                    let _ = tx.send(());
                                });
                                if rx.recv_timeout(HUNG).is_err() {
                                    crate::report_hang(prop, sub.name, i, cs, seed, thorough);
                                }
                            } else if t.elapsed() > HUNG * 4 {
                                let cs = case_seed(seed, prop.id, sub.name, i);
                                crate::report_hang(prop, sub.name, i, cs, seed, thorough);
                            }
                        }
                    }
                }
            });
            for w in 0..workers {
                let (next, stop, done, found, confirmed, stats) = (&next, &stop, &done, &found, &confirmed, &stats);
                sc.spawn(move || {
                  loop {
                    if stop.load(Ordering::SeqCst) || t_all.elapsed() > budget {
                        break;
                    }
                    let others = quiet.read().unwrap();
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let mut src = Src::random(case_seed(seed, prop.id, sub.name, i));
                    *running[w].lock().unwrap() = Some((i, Instant::now()));
                    let out = (sub.f)(&mut src);
                    *running[w].lock().unwrap() = None;
                    drop(others);
                    done.fetch_add(1, Ordering::SeqCst);
                    let digest = src.digest();
                    {
                        let mut s = stats.lock().unwrap();
                        s.evals += 1;
                        if out.nontrivial {
                            s.nontrivial.insert(mix(digest, hash_bytes(1, sub.name.as_bytes())));
                        }
                        for (l, k) in &out.labels {
                            *s.labels.entry(format!("{}/{}", sub.name, l)).or_insert(0) += k;
                        }
                        if let Some(sm) = &out.sample {
                            let prefix = format!("{}: ", sub.name);
                            if out.nontrivial && s.samples.iter().filter(|x| x.starts_with(&prefix)).count() < 2 {
                                s.samples.push(format!("{}{}", prefix, sm));
                            }
                        }
                    }
                    if !matches!(out.verdict, Verdict::Pass) {
                        // Serialise confirmations.
                        let mut c = found.lock().unwrap();
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        eprintln!("[{}] {} case {}: candidate {:?}", prop.id, sub.name, i, out.verdict);
                        crate::write_candidate(
                            prop.id,
                            &Failure { sub: sub.name, msg: format!("{:?}", out.verdict), choices: src.rec.clone(), case_no: i },
                        );
                        let again = match &out.verdict {
                            // the budget is long used up: leave it unconfirmed
                            Verdict::FailTiming(_) if t_all.elapsed() > budget + Duration::from_secs(60) => None,
                            v @ Verdict::FailTiming(_) => {
                                let _alone = quiet.write().unwrap();
                                confirm(sub.f, &src.rec, v)
                            }
                            v => confirm(sub.f, &src.rec, v),
                        };
                        match again {
                            Some(m) => {
                                stop.store(true, Ordering::SeqCst);
                                *c = Some((i, src.rec.clone(), out.verdict.clone()));
                                *confirmed.lock().unwrap() =
                                    Some(Failure { sub: sub.name, msg: m, choices: src.rec.clone(), case_no: i });
                            }
                            None => {
                                let mut s = stats.lock().unwrap();
                                let m = format!("{} case {}: {:?}", sub.name, i, out.verdict);
                                eprintln!("[{}] not reproduced, ignored: {}", prop.id, m);
                                if s.unconfirmed.len() < 20 {
                                    s.unconfirmed.push(m);
                                }
                            }
                        }
                    }
                  }
                  left.fetch_sub(1, Ordering::SeqCst);
                });
            }
        });
        per_sub.insert(sub.name.to_string(), done.load(Ordering::SeqCst) as u64);
        eprintln!("[{}] {}: {} cases in {:.1}s", prop.id, sub.name, done.load(Ordering::SeqCst), t_sub.elapsed().as_secs_f64());
        let fl = confirmed.into_inner().unwrap();
        let orig = found.into_inner().unwrap();
        if let Some(mut fl) = fl {
            if matches!(orig, Some((_, _, Verdict::Fail(_)))) {
                let (c, m, runs) = shrink(sub.f, fl.choices.clone(), fl.msg.clone(), Duration::from_secs(60));
                eprintln!("[{}] shrunk {} -> {} choices in {} runs", prop.id, fl.choices.len(), c.len(), runs);
                fl.choices = c;
                fl.msg = m;
            }
            let st = std::mem::take(&mut *stats.lock().unwrap());
            return (st, Some(fl), per_sub);
        }
    }
    let st = std::mem::take(&mut *stats.lock().unwrap());
    (st, None, per_sub)
}
