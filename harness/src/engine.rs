//! The generator engine: choice sequences, case execution, shrinking, worker processes,
//! replay files and evidence.
//!
//! A case is a pure function of a *choice sequence*: every random decision a generator makes is
//! drawn through [`Src`], which either takes it from a seeded generator (recording it) or from a
//! recorded sequence. Shrinking edits the recorded sequence and re-runs the case, so no check
//! needs a shrinker of its own, and a replay file is just the sequence.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Counting allocator

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// Hard cap on live heap bytes: beyond it allocation fails (and the process aborts, which the
/// parent process reports as a violation of the case that was running).
const CAP: usize = 3 << 29;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Ordering::Relaxed).wrapping_add(l.size());
        if l.size() > CAP || live > CAP {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(live, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Ordering::Relaxed).wrapping_add(l.size());
        if l.size() > CAP || live > CAP {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(live, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let live = LIVE.fetch_add(n, Ordering::Relaxed).wrapping_add(n);
        if n > CAP || live > CAP {
            LIVE.fetch_sub(n, Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        // Both the old and the new buffer can be live while reallocating.
        PEAK.fetch_max(live, Ordering::Relaxed);
        let q = System.realloc(p, l, n);
        if q.is_null() {
            LIVE.fetch_sub(n, Ordering::Relaxed);
        } else {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        }
        q
    }
}

/// Runs `f` and returns its result with the peak of heap bytes it had live.
pub fn peak_bytes<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.load(Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    let r = f();
    let peak = PEAK.load(Ordering::Relaxed);
    (r, peak.saturating_sub(base))
}

// ---------------------------------------------------------------------------------------------
// Choice source

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut next = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

/// Now and then, a number of the code under test (or one next to it) that lies in `lo..=hi`.
fn hint(r: &mut Rng, lo: u64, hi: u64) -> Option<u64> {
    if hi - lo < 60 || r.below(64) != 0 {
        return None;
    }
    known_number(r, lo, hi)
}

fn known_number(r: &mut Rng, lo: u64, hi: u64) -> Option<u64> {
    let known = &crate::hints::hints().numbers;
    // The ones that can matter here, and their neighbours.
    let a = known.partition_point(|n| *n < lo.saturating_sub(1));
    let b = known.partition_point(|n| *n <= hi.saturating_add(1));
    if a >= b {
        return None;
    }
    let n = known[a + r.below((b - a) as u64) as usize];
    let n = match r.below(8) {
        0..=3 => n,
        4 => n.wrapping_add(1),
        5 => n.wrapping_sub(1),
        6 => n.wrapping_mul(8),
        _ => n.wrapping_mul(1 + r.below(8)),
    };
    (lo..=hi).contains(&n).then_some(n)
}

pub struct Src {
    rng: Option<Rng>,
    input: Vec<u64>,
    pos: usize,
    /// The choices made so far.
    pub made: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64, prefix: Vec<u64>) -> Self {
        Src { rng: Some(Rng::new(seed)), input: prefix, pos: 0, made: vec![] }
    }
    pub fn replay(input: Vec<u64>) -> Self {
        Src { rng: None, input, pos: 0, made: vec![] }
    }

    /// Makes one choice in `0..=max`. `f` draws a (not necessarily uniform) fresh value.
    fn choose(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = if self.pos < self.input.len() {
            self.pos += 1;
            self.input[self.pos - 1].min(max)
        } else if let Some(rng) = &mut self.rng {
            f(rng).min(max)
        } else {
            0
        };
        self.made.push(v);
        v
    }

    /// Uniform in `0..=max`.
    pub fn upto(&mut self, max: u64) -> u64 {
        self.between(0, max)
    }
    fn between(&mut self, lo: u64, hi: u64) -> u64 {
        let max = hi - lo;
        lo + self.choose(max, |r| match hint(r, lo, hi) {
            Some(n) => n - lo,
            None if max == u64::MAX => r.next(),
            None => r.below(max + 1),
        })
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.upto(n as u64 - 1) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        self.between(lo as u64, hi as u64) as usize
    }
    /// True in `num` out of `den` cases; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.choose(1, |r| (r.below(den) < num) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// An index drawn by weight; shrinks towards 0.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let i = self.choose(ws.len() as u64 - 1, |r| {
            let mut x = r.below(total);
            for (i, w) in ws.iter().enumerate() {
                if x < *w {
                    return i as u64;
                }
                x -= w;
            }
            unreachable!()
        }) as usize;
        // A shrunk sequence can ask for what isn't possible.
        if ws[i] > 0 {
            i
        } else {
            ws.iter().position(|w| *w > 0).unwrap_or(0)
        }
    }
    /// A length in `0..=max`, usually small.
    pub fn len(&mut self, max: usize) -> usize {
        self.choose(max as u64, |r| match r.below(8) {
            0 => 0,
            1..=4 => r.below(5.min(max as u64 + 1)),
            5 | 6 => r.below((max as u64 / 4).max(1) + 1),
            _ => hint(r, 0, max as u64).unwrap_or_else(|| r.below(max as u64 + 1)),
        }) as usize
    }
    /// A 64-bit value, biased towards small values, powers of two and their neighbours.
    pub fn u64(&mut self) -> u64 {
        self.choose(u64::MAX, |r| {
            if let Some(n) = hint(r, 0, u64::MAX) {
                return n;
            }
            match r.below(8) {
                0 | 1 => r.below(8),
                2 => r.below(256),
                3 => {
                    let b = r.below(64);
                    let p = 1u64 << b;
                    p.wrapping_add(r.below(3)).wrapping_sub(1)
                }
                4 => u64::MAX - r.below(3),
                5 | 6 => {
                    let b = r.below(64);
                    r.next() >> b
                }
                _ => r.next(),
            }
        })
    }
    /// A value of at most `bits` bits, biased like [`Src::u64`].
    pub fn bits(&mut self, bits: usize) -> u64 {
        if bits == 0 {
            return 0;
        }
        let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        self.choose(max, |r| {
            if let Some(n) = hint(r, 0, max) {
                return n;
            }
            match r.below(6) {
                0 => r.below(4),
                1 => max - r.below(3).min(max),
                2 => {
                    let p = 1u64 << r.below(bits as u64);
                    (p.wrapping_add(r.below(3)).wrapping_sub(1)) & max
                }
                3 => (r.next() & max) >> r.below(bits as u64),
                _ => r.next() & max,
            }
        })
    }
    pub fn byte(&mut self) -> u8 {
        self.choose(255, |r| match r.below(8) {
            0 => 0,
            1 => 0xff,
            _ => r.below(256),
        }) as u8
    }
    /// A number in `lo..=hi`, preferably one that occurs in the code under test.
    pub fn known(&mut self, lo: usize, hi: usize) -> usize {
        let (lo, hi) = (lo as u64, hi as u64);
        (lo + self.choose(hi - lo, |r| match known_number(r, lo, hi) {
            Some(n) => n - lo,
            None => r.below(hi - lo + 1),
        })) as usize
    }
    /// Rarely, a string that occurs in the code under test.
    pub fn known_string(&mut self) -> Option<&'static str> {
        let known = &crate::hints::hints().strings;
        match self.choose(known.len() as u64, |r| if r.below(200) == 0 { r.below(known.len() as u64 + 1) } else { 0 }) {
            0 => None,
            i => Some(&known[i as usize - 1]),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}

// ---------------------------------------------------------------------------------------------
// Observations

/// What a case reports about itself.
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: Option<String>,
    /// Whether the (possibly costly) sample description is wanted.
    pub want_sample: bool,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn key(&mut self, data: impl AsRef<[u8]>) {
        for b in data.as_ref() {
            self.key = (self.key ^ *b as u64).wrapping_mul(0x100000001b3).rotate_left(5);
        }
    }
    pub fn key64(&mut self, v: u64) {
        self.key(v.to_le_bytes());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

pub type CaseResult = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Check {
    pub id: &'static str,
    /// The rule by which a case counts as non-trivial.
    pub rule: &'static str,
    /// Cases per tier.
    pub quick: u64,
    pub thorough: u64,
    /// The number of enumerated cases: case `i < fixed` starts with the choices `[0, i]`,
    /// any other case with `[1]`.
    pub fixed: u64,
    pub run: fn(&mut Src, &mut Obs) -> CaseResult,
    /// Stack size of the thread that cases run in.
    pub stack: usize,
    /// Known-finding probes: (id, what still fails).
    pub probes: &'static [(&'static str, fn() -> Option<String>)],
}

pub fn prefix_of(c: &Check, i: u64) -> Vec<u64> {
    if i < c.fixed {
        vec![0, i]
    } else if c.fixed > 0 {
        vec![1]
    } else {
        vec![]
    }
}

/// To be called first by checks with enumerated cases.
pub fn enumerated(src: &mut Src) -> Option<u64> {
    if src.upto(1) == 0 {
        Some(src.upto(u64::MAX))
    } else {
        None
    }
}

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ i.wrapping_mul(0x9E3779B97F4A7C15)
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Runs one case, turning panics into failures.
pub fn run_case(c: &Check, src: &mut Src, obs: &mut Obs) -> CaseResult {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)(src, obs)));
    crate::view::reset();
    match r {
        Ok(r) => r,
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            Err(msg)
        }
    }
}

fn fails(c: &Check, choices: &[u64]) -> Option<(String, Vec<u64>)> {
    let mut src = Src::replay(choices.to_vec());
    let mut obs = Obs::default();
    match run_case(c, &mut src, &mut obs) {
        Ok(()) => None,
        Err(m) => Some((m, src.made)),
    }
}

/// How long to shrink a failure (`MVP_SHRINK` seconds).
fn shrink_time() -> Duration {
    let s = std::env::var("MVP_SHRINK").ok().and_then(|v| v.parse().ok()).unwrap_or(30);
    Duration::from_secs(s)
}

/// Shrinks a failing choice sequence with the given predicate.
pub fn shrink(
    mut best: Vec<u64>,
    mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    max_runs: usize,
    max_time: Duration,
) -> Vec<u64> {
    let start = Instant::now();
    let runs = std::cell::Cell::new(0usize);
    let spent = || runs.get() >= max_runs || start.elapsed() > max_time;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        if spent() {
            return false;
        }
        runs.set(runs.get() + 1);
        if let Some(made) = test(cand) {
            // Adopt what was actually consumed, if that is no larger.
            let new = if made.len() <= cand.len() { made } else { cand.to_vec() };
            if (new.len(), &new) < (best.len(), best) {
                *best = new;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Truncate.
        let mut n = best.len() / 2;
        while n > 0 {
            while best.len() > n && !spent() {
                let cand = best[..best.len() - n].to_vec();
                if !attempt(&cand, &mut best) {
                    break;
                }
            }
            n /= 2;
        }
        // Delete chunks.
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 && !spent() {
                i = i.saturating_sub(1);
                if i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    if attempt(&cand, &mut best) {
                        i = i.min(best.len());
                        continue;
                    }
                    // Deleting elements often needs a length to be decremented as well.
                    if i > 0 && best[i - 1] > 0 {
                        let mut cand = best.clone();
                        cand.drain(i..i + size);
                        cand[i - 1] -= 1;
                        attempt(&cand, &mut best);
                        i = i.min(best.len());
                    }
                }
                if size > 4 {
                    i = i.saturating_sub(size / 2);
                }
            }
        }
        // Zero chunks, then minimise single values.
        for size in [8usize, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && !spent() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].iter_mut().for_each(|v| *v = 0);
                    attempt(&cand, &mut best);
                }
                i += size;
            }
        }
        for i in 0..best.len() {
            if i >= best.len() || spent() {
                break;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if attempt(&cand, &mut best) && i < best.len() {
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
                if i >= best.len() {
                    break;
                }
            }
        }
        if best == before || spent() {
            return best;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Worker processes

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_seconds() -> f64 {
    // utime + stime of this process, in clock ticks (100 per second).
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = [11, 12].iter().filter_map(|i| f.get(*i)?.parse::<f64>().ok()).sum();
    t / 100.0
}

/// CPU seconds that a single case may take before it counts as not terminating. Cases take
/// milliseconds; this is CPU time, so a loaded machine doesn't matter.
const HANG_CPU_S: f64 = 60.0;

fn watchdog(marker: PathBuf) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, cpu_seconds());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CURRENT.load(Ordering::Relaxed);
            let cpu = cpu_seconds();
            if cur != last.0 {
                last = (cur, cpu);
            } else if cur != u64::MAX && cpu - last.1 > HANG_CPU_S {
                let _ = std::fs::write(&marker, "hang");
                std::process::exit(97);
            }
        }
    });
}

pub struct Fail {
    pub index: u64,
    pub msg: String,
    pub choices: Vec<u64>,
}

fn join(v: &[u64]) -> String {
    let mut s = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s
}

pub fn split(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

/// Runs cases `start, start + stride, ..` below `count`; writes results to `dir/w<start>.*`.
pub fn worker(c: &'static Check, seed: u64, start: u64, stride: u64, count: u64, dir: &Path) {
    install_panic_hook();
    watchdog(dir.join(format!("w{start}.hang")));
    let dir = dir.to_path_buf();
    std::thread::Builder::new()
        .stack_size(c.stack)
        .spawn(move || worker_main(c, seed, start, stride, count, &dir))
        .unwrap()
        .join()
        .unwrap();
}

fn worker_main(c: &Check, seed: u64, start: u64, stride: u64, count: u64, dir: &Path) {
    let mut cur = std::fs::File::create(dir.join(format!("w{start}.cur"))).unwrap();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut keys: Vec<u64> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut fail: Option<Fail> = None;
    let mut i = start;
    while i < count {
        CURRENT.store(i, Ordering::Relaxed);
        cur.seek(SeekFrom::Start(0)).unwrap();
        cur.write_all(&i.to_le_bytes()).unwrap();
        let mut src = Src::random(case_seed(seed, c.id, i), prefix_of(c, i));
        let mut obs = Obs { want_sample: samples.len() < 3, ..Obs::default() };
        let r = run_case(c, &mut src, &mut obs);
        evals += 1;
        for (l, n) in obs.labels {
            *labels.entry(l).or_default() += n;
        }
        if obs.nontrivial {
            nontrivial += 1;
            // Beyond this, distinct cases aren't counted any more: the count is a lower bound.
            if keys.len() < 1_000_000 && seen.insert(obs.key) {
                keys.push(obs.key);
                if let Some(s) = obs.sample {
                    samples.push(s);
                }
            }
        }
        if let Err(msg) = r {
            let mut n = 1u64 << 63;
            let choices = shrink(
                src.made.clone(),
                |cand| {
                    n += 1;
                    CURRENT.store(n, Ordering::Relaxed);
                    fails(c, cand).map(|(_, made)| made)
                },
                6000,
                shrink_time(),
            );
            let (msg, choices) = match fails(c, &choices) {
                Some((m, made)) if made.len() <= choices.len() => (m, made),
                Some((m, _)) => (m, choices),
                None => (msg, src.made),
            };
            fail = Some(Fail { index: i, msg, choices });
            break;
        }
        i += stride;
    }
    CURRENT.store(u64::MAX, Ordering::Relaxed);
    let mut out = String::new();
    let _ = writeln!(out, "evals\t{evals}\nnontrivial\t{nontrivial}");
    for (l, n) in &labels {
        let _ = writeln!(out, "label\t{n}\t{l}");
    }
    for s in &samples {
        let _ = writeln!(out, "sample\t{}", s.replace('\n', " ").replace('\t', " "));
    }
    if let Some(f) = &fail {
        let _ = writeln!(
            out,
            "fail\t{}\t{}\t{}",
            f.index,
            join(&f.choices),
            f.msg.replace('\n', "\\n").replace('\t', " ")
        );
    }
    let _ = writeln!(out, "done");
    let raw: Vec<u8> = keys.iter().flat_map(|k| k.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("w{start}.keys")), raw).unwrap();
    std::fs::write(dir.join(format!("w{start}.out")), out).unwrap();
}

/// Runs a single choice sequence in this process (in a thread with the check's stack).
pub fn exec_one(c: &'static Check, choices: Vec<u64>) -> (CaseResult, Vec<u64>, Obs) {
    install_panic_hook();
    let c2 = *c;
    std::thread::Builder::new()
        .stack_size(c.stack)
        .spawn(move || {
            let mut src = Src::replay(choices);
            let mut obs = Obs { want_sample: true, ..Obs::default() };
            let r = run_case(&c2, &mut src, &mut obs);
            (r, src.made, obs)
        })
        .unwrap()
        .join()
        .unwrap()
}

/// Runs a choice sequence in a subprocess; `Some` if it fails (by crash or by verdict).
fn exec_sub(c: &Check, choices: &[u64], dir: &Path, n: usize, limit: Duration) -> Option<String> {
    let f = dir.join(format!("case{n}"));
    std::fs::write(&f, join(choices)).unwrap();
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["exec", c.id])
        .arg(&f)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Some("does not terminate".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let mut out = String::new();
    let _ = child.stdout.take().unwrap().read_to_string(&mut out);
    match status.code() {
        Some(0) => None,
        Some(1) => Some(out.trim().to_string()),
        _ => Some(format!("the process died: {status} (stack overflow, abort or memory exhaustion)")),
    }
}

pub struct Totals {
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fail: Option<Fail>,
}

/// Runs a whole check over worker processes.
pub fn run_check(c: &'static Check, seed: u64, count: u64) -> Totals {
    let dir = scratch_dir(c.id);
    let jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8) as u64;
    let mut children = vec![];
    for w in 0..jobs {
        let child = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["worker", c.id, &seed.to_string(), &w.to_string(), &jobs.to_string(), &count.to_string()])
            .arg(&dir)
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("spawning a worker");
        children.push((w, child));
    }
    let mut t = Totals {
        evals: 0,
        nontrivial: 0,
        distinct: 0,
        labels: BTreeMap::new(),
        samples: vec![],
        fail: None,
    };
    let mut keys: HashSet<u64> = HashSet::new();
    let mut fails: Vec<Fail> = vec![];
    for (w, mut child) in children {
        let status = child.wait().unwrap();
        let out = std::fs::read_to_string(dir.join(format!("w{w}.out"))).unwrap_or_default();
        if !out.ends_with("done\n") {
            // The worker died while running a case.
            let cur = std::fs::read(dir.join(format!("w{w}.cur"))).unwrap_or_default();
            let hang = dir.join(format!("w{w}.hang")).exists();
            if cur.len() != 8 {
                panic!("worker {w} failed to start: {status}");
            }
            let index = u64::from_le_bytes(cur.try_into().unwrap());
            fails.push(shrink_dead(c, seed, index, hang, &dir));
            continue;
        }
        for line in out.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "evals" => t.evals += f[1].parse::<u64>().unwrap(),
                "nontrivial" => t.nontrivial += f[1].parse::<u64>().unwrap(),
                "label" => *t.labels.entry(f[2].into()).or_default() += f[1].parse::<u64>().unwrap(),
                "sample" => t.samples.push(f[1].into()),
                "fail" => fails.push(Fail {
                    index: f[1].parse().unwrap(),
                    choices: split(f[2]),
                    msg: f[3].into(),
                }),
                _ => {}
            }
        }
        let raw = std::fs::read(dir.join(format!("w{w}.keys"))).unwrap_or_default();
        keys.extend(raw.chunks_exact(8).map(|k| u64::from_le_bytes(k.try_into().unwrap())));
    }
    t.distinct = keys.len() as u64;
    t.fail = fails.into_iter().min_by_key(|f| f.index);
    let _ = std::fs::remove_dir_all(&dir);
    t
}

fn shrink_dead(c: &Check, seed: u64, index: u64, hang: bool, dir: &Path) -> Fail {
    // Only the generator knows the choices of this case, and running it kills the process. So a
    // subprocess regenerates the case, writing every choice to a file as it's made.
    let f = dir.join(format!("dead{index}"));
    let _ = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["regen", c.id, &seed.to_string(), &index.to_string()])
        .arg(&f)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    let choices = split(&std::fs::read_to_string(&f).unwrap_or_default());
    let limit = Duration::from_secs(if hang { 100 } else { 30 });
    let msg = if hang {
        "a single case did not terminate within 60 s of CPU time".to_string()
    } else {
        "the process died (stack overflow, abort or memory exhaustion)".to_string()
    };
    if hang || exec_sub(c, &choices, dir, 0, limit).is_none() {
        return Fail { index, msg, choices };
    }
    let mut n = 0;
    let small = shrink(
        choices,
        |cand| {
            n += 1;
            exec_sub(c, cand, dir, n % 2, limit).map(|_| cand.to_vec())
        },
        600,
        shrink_time(),
    );
    let msg = exec_sub(c, &small, dir, 0, limit).unwrap_or(msg);
    Fail { index, msg, choices: small }
}

thread_local! {
    /// Set while regenerating a case that is expected to kill the process: where to write the
    /// choices made, right before the code under test runs.
    pub static CHECKPOINT: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

/// Checks call this once generation is done, before running the code under test. When merely
/// regenerating a case, this ends the process.
pub fn checkpoint(src: &Src) {
    CHECKPOINT.with(|c| {
        if let Some(p) = c.borrow().as_ref() {
            let _ = std::fs::write(p, join(&src.made));
            std::process::exit(0);
        }
    })
}

pub fn regen(c: &'static Check, seed: u64, index: u64, out: &Path) {
    install_panic_hook();
    let out = out.to_path_buf();
    let _ = std::thread::Builder::new()
        .stack_size(c.stack)
        .spawn(move || {
            CHECKPOINT.with(|p| *p.borrow_mut() = Some(out.clone()));
            let mut src = Src::random(case_seed(seed, c.id, index), prefix_of(c, index));
            let mut obs = Obs::default();
            let _ = run_case(c, &mut src, &mut obs);
            let _ = std::fs::write(&out, join(&src.made));
        })
        .unwrap()
        .join();
}

pub fn scratch_dir(tag: &str) -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = std::env::temp_dir().join(format!(
        "mvp-{tag}-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::Relaxed)
    ));
    std::fs::create_dir_all(&d).unwrap();
    d
}
