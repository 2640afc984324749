//! Generated-input search: choice sequences, case execution, shrinking, replay, evidence.

use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hash keys

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x5eed) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Overrides libc's getrandom for this process: std's hash maps draw their keys from it, once per thread.
/// This makes iteration orders in the code under test a function of the seed set for the thread.
///
/// # Safety
/// called by libc users with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.with(|c| c.get());
    for i in 0..len {
        *buf.add(i) = splitmix(&mut s) as u8;
    }
    HASH_SEED.with(|c| c.set(s));
    len as isize
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    // finalise, FNV's low bits are weak
    splitmix(&mut h)
}

// ---------------------------------------------------------------- choices

/// A source of bounded integers: drawn from a PRNG and recorded, or replayed (zeros after the end).
/// Decoders are written so that 0 is the simplest choice.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// 0..=100, how large a case to build
    pub size: u32,
}

impl Src {
    pub fn random(seed: u64, size: u32) -> Self {
        Src { rng: seed, replay: None, pos: 0, rec: vec![], size }
    }
    pub fn replay(choices: Vec<u64>, size: u32) -> Self {
        Src { rng: 0, replay: Some(choices), pos: 0, rec: vec![], size }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            // far beyond the end, anything but zeros: a generator may be drawing until it gets something new
            Some(r) if self.pos > r.len() + 2000 => splitmix(&mut self.rng) % n,
            Some(r) => r.get(self.pos).map_or(0, |v| v % n),
            None => {
                let x = splitmix(&mut self.rng);
                ((x as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// a permutation of 0..n (identity for all-zero choices)
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.us(n - i);
            v.swap(i, j);
        }
        v
    }
    /// small-biased size in lo..=hi: most mass near lo, heavy tail
    pub fn skewed(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        let top = match self.weighted(&[5, 3, 2]) {
            0 => span.min(3),
            1 => span.min(8),
            _ => span,
        };
        lo + self.us(top + 1)
    }
}

// ---------------------------------------------------------------- properties

pub enum Stop {
    /// the property is violated
    Fail(String),
    /// the case could not be set up
    Discard(String),
}

pub type R<T = ()> = Result<T, Stop>;

pub fn fail<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Fail(msg.into()))
}
pub fn discard<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Discard(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Stop::Fail(format!($($t)*))); } };
}

#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub metrics: BTreeMap<&'static str, u64>,
}

impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn max(&mut self, m: &'static str, v: u64) {
        let e = self.metrics.entry(m).or_default();
        *e = (*e).max(v);
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial = self.nontrivial || b;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub trait Prop: Send + Sync + 'static {
    type Case: Serialize + DeserializeOwned + Clone + Send + Sync + 'static;
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn gen(&self, s: &mut Src) -> Self::Case;
    fn check(&self, c: &Self::Case, o: &mut Obs) -> R;
    /// number of generated cases in the quick tier
    fn quick_cases(&self) -> usize;
    fn thorough_factor(&self) -> usize {
        12
    }
    /// hand-written cases that always run first
    fn seeds(&self) -> Vec<Self::Case> {
        vec![]
    }
    /// smaller variants of a case, most aggressive first
    fn simplify(&self, _c: &Self::Case) -> Vec<Self::Case> {
        vec![]
    }
    /// identifies a failure listed in known-findings.txt
    fn signature(&self, _c: &Self::Case, _msg: &str) -> Option<String> {
        None
    }
    fn stack_mb(&self) -> usize {
        32
    }
    fn max_shards(&self) -> usize {
        8
    }
    /// share of cases that may fail to set up before the run counts as an error, in percent
    fn max_discard(&self) -> usize {
        5
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

pub enum Outcome {
    Pass,
    Fail(String),
    Discard(String),
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        if std::thread::current().name().is_none_or(|n| n != "case") {
            eprintln!("harness panic: {msg}{loc}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

pub fn run_case<P: Prop>(p: &Arc<P>, case: &P::Case, hash_seed: u64) -> (Outcome, Obs) {
    let p2 = p.clone();
    let c = case.clone();
    let h = std::thread::Builder::new()
        .name("case".into())
        .stack_size(p.stack_mb() << 20)
        .spawn(move || {
            HASH_SEED.with(|s| s.set(hash_seed));
            let mut o = Obs::default();
            let r = catch_unwind(AssertUnwindSafe(|| p2.check(&c, &mut o)));
            let out = match r {
                Ok(Ok(())) => Outcome::Pass,
                Ok(Err(Stop::Fail(m))) => Outcome::Fail(m),
                Ok(Err(Stop::Discard(m))) => Outcome::Discard(m),
                Err(_) => {
                    let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    Outcome::Fail(format!("panic: {m}"))
                }
            };
            (out, o)
        })
        .expect("thread");
    h.join().unwrap_or_else(|_| (Outcome::Fail("panic while unwinding".into()), Obs::default()))
}

/// whether hash-map iteration orders really are a function of the seed set for a thread
pub fn hash_keys_controlled() -> bool {
    let order = |seed: u64| {
        std::thread::spawn(move || {
            HASH_SEED.with(|s| s.set(seed));
            HashSet::<u32>::from_iter(0..100).into_iter().collect::<Vec<_>>()
        })
        .join()
        .unwrap_or_default()
    };
    let a = order(1);
    a == order(1) && a != order(2)
}

pub struct Config {
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub cases_override: Option<usize>,
    pub time_limit_s: u64,
    pub known: Vec<(String, String)>, // (property, signature)
    pub verbose: bool,
    /// arguments to pass on to the process that runs the cases
    pub args: Vec<String>,
}

pub fn case_json<C: Serialize>(c: &C) -> Value {
    serde_json::to_value(c).expect("case serialises")
}

fn case_hash<C: Serialize>(c: &C) -> u64 {
    fnv(&serde_json::to_vec(c).expect("case serialises"))
}

const EXTRA_HASH_SEEDS: u64 = 12;

/// first failing hash seed among several
fn fails_with<P: Prop>(p: &Arc<P>, case: &P::Case, prefer: u64, tries: u64) -> Option<(u64, String)> {
    for k in 0..=tries {
        let hs = if k == 0 { prefer } else { prefer.wrapping_add(k.wrapping_mul(0x9E37_79B9)) };
        if let (Outcome::Fail(m), _) = run_case(p, case, hs) {
            return Some((hs, m));
        }
    }
    None
}

fn shrink<P: Prop>(
    p: &Arc<P>,
    choices: Option<Vec<u64>>,
    size: u32,
    case: P::Case,
    hs: u64,
    msg: String,
    sig: &dyn Fn(&P::Case, &str) -> bool, // true if this failure is to be ignored (known)
    publish: &dyn Fn(&(P::Case, u64, String)),
) -> (P::Case, u64, String, usize) {
    let start = Instant::now();
    let mut evals = 0usize;
    let mut best = (case, hs, msg);
    let max_evals = 4000;
    let over = |e: usize| e >= max_evals || start.elapsed() > Duration::from_secs(60);
    if let Some(mut ch) = choices {
        let attempt = |ch2: Vec<u64>, best: &mut (P::Case, u64, String), evals: &mut usize| -> Option<Vec<u64>> {
            *evals += 1;
            let mut s = Src::replay(ch2, size);
            let case = match catch_unwind(AssertUnwindSafe(|| p.gen(&mut s))) {
                Ok(c) => c,
                Err(_) => return None,
            };
            let (hs, m) = fails_with(p, &case, best.1, 2)?;
            if sig(&case, &m) {
                return None;
            }
            *best = (case, hs, m);
            publish(best);
            Some(s.rec)
        };
        let mut improved = true;
        while improved && !over(evals) {
            improved = false;
            // delete windows
            let mut w = (ch.len() / 2).max(1);
            while w >= 1 {
                let mut i = 0;
                while i + w <= ch.len() && !over(evals) {
                    let mut c2 = ch.clone();
                    c2.drain(i..i + w);
                    if let Some(r) = attempt(c2, &mut best, &mut evals) {
                        if r.len() < ch.len() {
                            ch = r;
                            improved = true;
                            continue;
                        }
                    }
                    i += w.max(1);
                }
                if w == 1 {
                    break;
                }
                w /= 2;
            }
            // zero windows
            for w in [16usize, 4] {
                let mut i = 0;
                while i < ch.len() && !over(evals) {
                    let e = (i + w).min(ch.len());
                    if ch[i..e].iter().any(|v| *v != 0) {
                        let mut c2 = ch.clone();
                        c2[i..e].iter_mut().for_each(|v| *v = 0);
                        if let Some(r) = attempt(c2, &mut best, &mut evals) {
                            ch = r;
                            improved = true;
                        }
                    }
                    i = e;
                }
            }
            // lower values
            let mut i = 0;
            while i < ch.len() && !over(evals) {
                let v = ch[i];
                if v > 0 {
                    for cand in [0, v / 2, v - 1] {
                        if cand < ch[i] {
                            let mut c2 = ch.clone();
                            c2[i] = cand;
                            if let Some(r) = attempt(c2, &mut best, &mut evals) {
                                let shorter = r.len() < ch.len();
                                let lower = r.len() == ch.len() && r < ch;
                                if shorter || lower {
                                    ch = r;
                                    improved = true;
                                    if i >= ch.len() {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                i += 1;
            }
        }
    }
    // structural simplification
    let mut progress = true;
    while progress && !over(evals) {
        progress = false;
        for c in p.simplify(&best.0) {
            evals += 1;
            if over(evals) {
                break;
            }
            if let Some((hs, m)) = fails_with(p, &c, best.1, 2) {
                if !sig(&c, &m) {
                    best = (c, hs, m);
                    publish(&best);
                    progress = true;
                    break;
                }
            }
        }
    }
    (best.0, best.1, best.2, evals)
}

struct Shared {
    next: AtomicUsize,
    first_fail: AtomicUsize,
    stop: AtomicBool,
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    discards: u64,
    discard_reasons: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    metrics: BTreeMap<&'static str, u64>,
    samples: BTreeMap<usize, Value>,
    fails: BTreeMap<usize, (u64, String)>,
    known_hits: BTreeMap<String, (u64, String)>,
}

pub fn size_of_case(i: usize, n: usize) -> u32 {
    // a quick ramp, then sizes cycle so that large cases appear early as well
    let ramp = (i * 400 / n.max(1)).min(100) as u32;
    let cyc = [20u32, 40, 60, 80, 100][i % 5];
    if ramp < 100 {
        ramp.max(5)
    } else {
        cyc
    }
}

fn planned<P: Prop>(p: &P, cfg: &Config) -> usize {
    cfg.cases_override.unwrap_or_else(|| match cfg.tier {
        Tier::Quick => p.quick_cases(),
        Tier::Thorough => p.quick_cases() * p.thorough_factor(),
    })
}

/// the i-th case of a run; fixed cases come first
fn make_case<P: Prop>(p: &P, i: usize, seeds: &[P::Case], n_gen: usize, seed: u64) -> (P::Case, Option<(Vec<u64>, u32)>) {
    if i < seeds.len() {
        return (seeds[i].clone(), None);
    }
    let k = i - seeds.len();
    let base = fnv(format!("{}:{}", seed, p.id()).as_bytes());
    let mut s = base ^ (k as u64).wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut s);
    let size = size_of_case(k, n_gen);
    let mut src = Src::random(s, size);
    let c = p.gen(&mut src);
    (c, Some((src.rec, size)))
}

/// exit status of the inner process when a case does not end
const HANG: i32 = 86;
const CASE_LIMIT_MS: u64 = 60_000;

enum Ended {
    Code(i32),
    Died(String),
    TimedOut,
}

fn wait_for(mut child: std::process::Child, limit: Duration) -> Ended {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(HANG) => Ended::TimedOut,
                    Some(c) => Ended::Code(c),
                    None => Ended::Died(format!("signal {}", st.signal().unwrap_or(0))),
                }
            }
            Ok(None) => {
                if start.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Ended::TimedOut;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            Err(e) => return Ended::Died(format!("wait: {e}")),
        }
    }
}

/// runs one saved case in a process of its own: Some(reason) if that process crashes or does not end
fn crashes(path: &Path, quiet: bool) -> Option<String> {
    use std::process::*;
    let mut c = Command::new(std::env::current_exe().ok()?);
    c.arg("replay-inner").arg(path);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    match wait_for(c.spawn().ok()?, Duration::from_millis(CASE_LIMIT_MS * 3 / 2)) {
        Ended::Code(1) => Some("the case fails".into()),
        Ended::Code(_) => None,
        Ended::Died(m) => Some(format!("the process crashed ({m})")),
        Ended::TimedOut => Some(format!("no answer within {} s", CASE_LIMIT_MS / 1000)),
    }
}

/// runs the check in a child process, so that a crash or a hang of the code under test is a finding too
pub fn supervise<P: Prop>(p: P, cfg: &Config) -> i32 {
    let scratch = cfg.verif.join("tmp");
    let _ = std::fs::create_dir_all(&scratch);
    let flight = scratch.join(format!("{}-{}.inflight", p.id(), std::process::id()));
    let n = p.max_shards();
    if std::fs::write(&flight, vec![0xffu8; 8 * n]).is_err() {
        println!("ERROR cannot write {}", flight.display());
        return 2;
    }
    let child = std::env::current_exe()
        .and_then(|e| std::process::Command::new(e).arg("inner").args(&cfg.args).env("VH_INFLIGHT", &flight).spawn());
    let child = match child {
        Ok(c) => c,
        Err(e) => {
            println!("ERROR cannot start: {e}");
            return 2;
        }
    };
    let end = wait_for(child, Duration::from_secs(cfg.time_limit_s + 400));
    let data = std::fs::read(&flight).unwrap_or_default();
    let _ = std::fs::remove_file(&flight);
    let why = match end {
        Ended::Code(c @ 0..=2) => return c,
        Ended::Code(c) => format!("ended with status {c}"),
        Ended::Died(m) => m,
        Ended::TimedOut => "did not end".into(),
    };
    println!("property={} the run {why}; looking for the case", p.id());
    let seeds = p.seeds();
    let n_gen = planned(&p, cfg);
    let mut idx: Vec<u64> = data.chunks(8).filter_map(|c| c.try_into().ok().map(u64::from_le_bytes)).filter(|i| *i != u64::MAX).collect();
    idx.sort();
    let pid = std::process::id();
    let tries: Vec<_> = idx
        .into_iter()
        .map(|i| {
            let case = make_case(&p, i as usize, &seeds, n_gen, cfg.seed).0;
            let path = write_replay(cfg, p.id(), "crash", &case, case_hash(&case), &format!("crash or hang ({why})"));
            std::thread::spawn(move || (case, crashes(&path, true), path))
        })
        .collect();
    let mut found = None;
    for t in tries {
        if let Ok((case, r, path)) = t.join() {
            match r {
                Some(m) if found.is_none() => found = Some((case, m, path)),
                _ => {
                    let _ = std::fs::remove_file(&path);
                }
            }
        }
    }
    let Some((mut case, msg, mut path)) = found else {
        println!("ERROR property={} the run {why}, no single case reproduces it", p.id());
        return 2;
    };
    // structural simplification, one process per candidate; hangs are left as they are
    if !msg.starts_with("no answer") {
        let start = Instant::now();
        let mut progress = true;
        let mut evals = 0;
        while progress && evals < 300 && start.elapsed() < Duration::from_secs(60) {
            progress = false;
            for c in p.simplify(&case) {
                evals += 1;
                if evals >= 300 || start.elapsed() > Duration::from_secs(60) {
                    break;
                }
                let cand = write_replay_to(&scratch.join(format!("cand-{pid}.json")), p.id(), "crash", &c, case_hash(&c), &msg);
                if crashes(&cand, true).is_some_and(|m| !m.starts_with("no answer")) {
                    case = c;
                    progress = true;
                    break;
                }
            }
        }
        let _ = std::fs::remove_file(scratch.join(format!("cand-{pid}.json")));
        let _ = std::fs::remove_file(&path);
        path = write_replay(cfg, p.id(), "crash", &case, case_hash(&case), &msg);
    }
    println!("{msg}");
    println!("case: {}", one_line(&case_json(&case).to_string(), 3000));
    println!("VIOLATION property={} replay={}", p.id(), path.display());
    1
}

pub fn supervise_replay(path: &Path, id: &str) -> i32 {
    let mut code = 0;
    let exe = std::env::current_exe();
    let Ok(child) = exe.and_then(|e| std::process::Command::new(e).arg("replay-inner").arg(path).spawn()) else {
        println!("ERROR cannot start");
        return 2;
    };
    match wait_for(child, Duration::from_millis(CASE_LIMIT_MS * 3 / 2)) {
        Ended::Code(c @ 0..=2) => code = c,
        Ended::Code(c) => {
            println!("ERROR status {c}");
            code = 2;
        }
        Ended::Died(m) => {
            println!("the process crashed ({m})");
            println!("VIOLATION property={id} replay={}", path.display());
            code = 1;
        }
        Ended::TimedOut => {
            println!("no answer");
            println!("VIOLATION property={id} replay={}", path.display());
            code = 1;
        }
    }
    code
}

/// returns the process exit code
pub fn run_check<P: Prop>(p: P, cfg: &Config) -> i32 {
    let started = Instant::now();
    let p = Arc::new(p);
    let n_gen = planned(&*p, cfg);
    let seeds = Arc::new(p.seeds());
    let n_seeds = seeds.len();
    let total = n_seeds + n_gen;
    let shared = Arc::new(Shared {
        next: AtomicUsize::new(0),
        first_fail: AtomicUsize::new(usize::MAX),
        stop: AtomicBool::new(false),
    });
    let n_shards = p.max_shards();
    let totals = Arc::new(Mutex::new(Totals::default()));
    let clocks: Arc<Vec<(AtomicU64, AtomicUsize)>> =
        Arc::new((0..n_shards).map(|_| (AtomicU64::new(0), AtomicUsize::new(0))).collect());
    let known: Arc<Vec<String>> =
        Arc::new(cfg.known.iter().filter(|(k, _)| k == p.id()).map(|(_, s)| s.clone()).collect());
    let seed = cfg.seed;
    let make = move |p: &P, i: usize, seeds: &[P::Case]| make_case(p, i, seeds, n_gen, seed);
    let inflight = std::env::var_os("VH_INFLIGHT").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()).map(Arc::new);

    let mut handles = vec![];
    for shard in 0..n_shards {
        let (p, shared, totals, seeds, clocks, known) =
            (p.clone(), shared.clone(), totals.clone(), seeds.clone(), clocks.clone(), known.clone());
        let inflight = inflight.clone();
        handles.push(
            std::thread::Builder::new()
                .name(format!("shard{shard}"))
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut t = Totals::default();
                    loop {
                        let i = shared.next.fetch_add(1, SeqCst);
                        if i >= total || i > shared.first_fail.load(SeqCst) || shared.stop.load(SeqCst) {
                            break;
                        }
                        clocks[shard].1.store(i, SeqCst);
                        if let Some(f) = &inflight {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_all_at(&(i as u64).to_le_bytes(), 8 * shard as u64);
                        }
                        clocks[shard].0.store(started.elapsed().as_millis() as u64 + 1, SeqCst);
                        let (case, _) = make(&p, i, &seeds);
                        let h = case_hash(&case);
                        let (out, obs) = run_case(&p, &case, h);
                        clocks[shard].0.store(0, SeqCst);
                        t.evaluations += 1;
                        match out {
                            Outcome::Pass => {
                                t.distinct.insert(h);
                                if obs.nontrivial && t.nontrivial.insert(h) && t.samples.len() < 4 {
                                    let v = case_json(&case);
                                    if v.to_string().len() < 2500 {
                                        t.samples.insert(i, v);
                                    }
                                }
                            }
                            Outcome::Discard(m) => {
                                t.discards += 1;
                                *t.discard_reasons.entry(m.chars().take(80).collect()).or_default() += 1;
                            }
                            Outcome::Fail(m) => {
                                if let Some(s) = p.signature(&case, &m).filter(|s| known.contains(s)) {
                                    t.known_hits.entry(s).or_insert((0, m)).0 += 1;
                                } else {
                                    t.fails.insert(i, (h, m));
                                    shared.first_fail.fetch_min(i, SeqCst);
                                }
                            }
                        }
                        for (k, v) in obs.labels {
                            *t.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in obs.metrics {
                            let e = t.metrics.entry(k).or_default();
                            *e = (*e).max(v);
                        }
                    }
                    let mut g = totals.lock().unwrap();
                    g.evaluations += t.evaluations;
                    g.discards += t.discards;
                    for (k, v) in t.discard_reasons {
                        *g.discard_reasons.entry(k).or_default() += v;
                    }
                    g.nontrivial.extend(t.nontrivial);
                    g.distinct.extend(t.distinct);
                    for (k, v) in t.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in t.metrics {
                        let e = g.metrics.entry(k).or_default();
                        *e = (*e).max(v);
                    }
                    g.samples.extend(t.samples);
                    g.fails.extend(t.fails);
                    for (k, v) in t.known_hits {
                        g.known_hits.entry(k).or_insert((0, v.1)).0 += v.0;
                    }
                })
                .expect("thread"),
        );
    }
    // watchdog
    let mut truncated = false;
    while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let now = started.elapsed();
        if now > Duration::from_secs(cfg.time_limit_s) && !shared.stop.load(SeqCst) {
            truncated = true;
            shared.stop.store(true, SeqCst);
        }
        for c in clocks.iter() {
            let t = c.0.load(SeqCst);
            if t != 0 && now.as_millis() as u64 > t + CASE_LIMIT_MS {
                println!("property={} case {} gave no answer within {} s", p.id(), c.1.load(SeqCst), CASE_LIMIT_MS / 1000);
                return HANG;
            }
        }
    }
    for h in handles {
        if h.join().is_err() {
            println!("ERROR property={} harness thread panicked", p.id());
            return 2;
        }
    }
    let t = std::mem::take(&mut *totals.lock().unwrap());

    let mut code = 0;
    let mut violations = 0;
    for (k, (n, m)) in &t.known_hits {
        println!("KNOWN-FINDING: property={} {} ({} cases; {})", p.id(), k, n, one_line(m, 200));
    }
    if let Some((&i, (h, m))) = t.fails.iter().next() {
        violations = 1;
        let (case, ch) = make(&p, i, &seeds);
        println!("failing case {} of property {}: {}", i, p.id(), one_line(m, 600));
        let (choices, size) = match ch {
            Some((c, s)) => (Some(c), s),
            None => (None, 0),
        };
        let known2 = known.clone();
        let p2 = p.clone();
        let sig = move |c: &P::Case, m: &str| p2.signature(c, m).is_some_and(|s| known2.contains(&s));
        if let Some(f) = &inflight {
            use std::os::unix::fs::FileExt;
            for k in 0..n_shards {
                let _ = f.write_all_at(&(i as u64).to_le_bytes(), 8 * k as u64);
            }
        }
        // on a thread of its own: a shrunk case may hang
        let best = Arc::new(Mutex::new((case.clone(), *h, m.clone())));
        let evals = {
            let (best, p, h, m) = (best.clone(), p.clone(), *h, m.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || shrink(&p, choices, size, case, h, m, &sig, &|b| *best.lock().unwrap() = b.clone()).3)
                .map(|t| {
                    let s = Instant::now();
                    while !t.is_finished() && s.elapsed() < Duration::from_secs(75) {
                        std::thread::sleep(Duration::from_millis(5));
                    }
                    if t.is_finished() { t.join().unwrap_or(0) } else { 0 }
                })
                .unwrap_or(0)
        };
        let (c, hs, msg) = best.lock().unwrap().clone();
        let path = write_replay(cfg, p.id(), "violation", &c, hs, &msg);
        println!("shrunk in {evals} evaluations: {}", one_line(&msg, 1500));
        println!("case: {}", one_line(&case_json(&c).to_string(), 3000));
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        code = 1;
    }
    let wall = started.elapsed().as_secs_f64();
    let samples: Vec<Value> = t.samples.into_values().take(6).collect();
    let ev = json!({
        "property": p.id(),
        "tier": cfg.tier.name(),
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.nontrivial.len(),
            "distinct": t.distinct.len(),
            "rule": p.rule(),
            "samples": samples,
            "classes": t.labels,
            "largest": t.metrics,
            "planned": total,
            "fixed_cases": n_seeds,
            "set_up_failures": t.discards,
            "set_up_failure_reasons": t.discard_reasons,
            "cut_short_by_time_limit": truncated,
            "threads": n_shards,
            "hash_iteration_order_from_case": hash_keys_controlled(),
        },
        "assumptions": p.assumptions(),
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("ERROR cannot write evidence: {e}");
        return 2;
    }
    if cfg.verbose {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap());
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["largest"]).unwrap());
        println!("{:?}", ev["coverage"]["set_up_failure_reasons"]);
    }
    println!(
        "property={} tier={} seed={} evaluations={} distinct={} nontrivial={} set-up failures={} violations={} {:.1}s{}",
        p.id(),
        cfg.tier.name(),
        cfg.seed,
        t.evaluations,
        t.distinct.len(),
        t.nontrivial.len(),
        t.discards,
        violations,
        wall,
        if truncated { " (cut short)" } else { "" }
    );
    if code == 0 && t.discards * 100 > t.evaluations * p.max_discard() as u64 {
        println!("ERROR property={} too many cases could not be set up: {:?}", p.id(), t.discard_reasons);
        return 2;
    }
    code
}

pub fn one_line(s: &str, max: usize) -> String {
    let s = s.replace('\n', "\\n");
    if s.chars().count() > max {
        s.chars().take(max).collect::<String>() + "…"
    } else {
        s
    }
}

fn write_replay<C: Serialize>(cfg: &Config, id: &str, kind: &str, case: &C, hs: u64, msg: &str) -> PathBuf {
    let dir = cfg.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    write_replay_to(&dir.join(format!("{id}-{:012x}.json", case_hash(case) & 0xffff_ffff_ffff)), id, kind, case, hs, msg)
}

fn write_replay_to<C: Serialize>(path: &Path, id: &str, kind: &str, case: &C, hs: u64, msg: &str) -> PathBuf {
    let v = json!({
        "property": id,
        "kind": kind,
        "message": msg,
        "hash_seed": hs.to_string(),
        "case": case_json(case),
        "replay_with": "./check replay <this file>",
    });
    let text = serde_json::to_string_pretty(&v).unwrap();
    let _ = std::fs::write(path, text);
    path.to_path_buf()
}

/// re-runs the case of a replay file, with several hash keys
pub fn run_replay<P: Prop>(p: P, v: &Value, path: &Path) -> i32 {
    let p = Arc::new(p);
    let case: P::Case = match serde_json::from_value(v["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            println!("ERROR cannot read case: {e}");
            return 2;
        }
    };
    let hs = v["hash_seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0u64);
    match fails_with(&p, &case, hs, EXTRA_HASH_SEEDS) {
        Some((_, m)) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", p.id(), path.display());
            1
        }
        None => {
            println!("property={} holds on {}", p.id(), path.display());
            0
        }
    }
}


/// command line shared by the harness binaries: `check ID [options]`, `replay FILE`, `list`
pub fn cli_main(
    ids: &[&str],
    check: impl Fn(&str, Config, bool) -> Option<i32>,
    replay: impl Fn(&str, Value, PathBuf) -> Option<i32>,
) -> i32 {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    match args.first().map(String::as_str) {
        Some("list") => {
            for i in ids {
                println!("{i}");
            }
            0
        }
        Some(mode @ ("replay" | "replay-inner")) => {
            let path = PathBuf::from(args.get(1).map_or("", String::as_str));
            let v: Value = match std::fs::read_to_string(&path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
                Ok(v) => v,
                Err(e) => {
                    println!("ERROR cannot read {}: {e}", path.display());
                    return 2;
                }
            };
            let id = v["property"].as_str().unwrap_or("").to_string();
            if mode == "replay" {
                return supervise_replay(&path, &id);
            }
            replay(&id, v, path).unwrap_or_else(|| {
                println!("ERROR unknown property {id:?}");
                2
            })
        }
        Some(mode @ ("check" | "inner")) => {
            let id = args.get(1).cloned().unwrap_or_default();
            let mut tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut cases = None;
            let mut time = None;
            let mut verbose = false;
            let mut i = 2;
            while i < args.len() {
                let val = args.get(i + 1).cloned().unwrap_or_default();
                match args[i].as_str() {
                    "--tier" => tier = if val == "thorough" { Tier::Thorough } else { Tier::Quick },
                    "--seed" => seed = val.parse().unwrap_or(1),
                    "--cases" => cases = val.parse().ok(),
                    "--time" => time = val.parse().ok(),
                    "-v" => {
                        verbose = true;
                        i -= 1;
                    }
                    o => {
                        println!("ERROR unknown option {o}");
                        return 2;
                    }
                }
                i += 2;
            }
            let known = std::fs::read_to_string(verif.join("known-findings.txt"))
                .unwrap_or_default()
                .lines()
                .filter_map(|l| {
                    // "finding: property=<id> signature=<sig> | description"
                    let l = l.strip_prefix("finding: property=")?;
                    let (id, rest) = l.split_once(" signature=")?;
                    let sig = rest.split(" | ").next()?.trim();
                    Some((id.trim().to_string(), sig.to_string()))
                })
                .collect();
            let cfg = Config {
                tier,
                seed,
                verif,
                cases_override: cases,
                time_limit_s: time.unwrap_or(if tier == Tier::Quick { 300 } else { 3000 }),
                known,
                verbose,
                args: args[1..].to_vec(),
            };
            check(&id, cfg, mode == "inner").unwrap_or_else(|| {
                println!("ERROR unknown property {id:?}");
                2
            })
        }
        _ => {
            println!("usage: check ID [--tier quick|thorough] [--seed N] [--cases N] [--time SECONDS] [-v] | replay FILE | list");
            2
        }
    }
}
