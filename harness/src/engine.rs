//! A small property-testing engine.
//!
//! Every random choice of a case goes through [`Src`], which records it. A case is
//! therefore a pure function of its list of choices: replaying the list replays the case,
//! and shrinking the list (deleting, zeroing and lowering choices) shrinks the case,
//! whether it is a value, a tag tree or a history of operations. The engine knows nothing
//! about the code under test.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
    }
    for x in it.remainder() {
        h = mix(h ^ (*x as u64 + 1));
    }
    mix(h ^ b.len() as u64)
}

enum Mode<'a> {
    Random(u64),
    Replay(&'a [u64]),
    /// The given choices and then random ones.
    Mixed(&'a [u64], u64),
}

/// The source of all the choices of a case.
pub struct Src<'a> {
    mode: Mode<'a>,
    pos: usize,
    pub choices: Vec<u64>,
    index: Option<u64>,
    log: Option<File>,
}

impl<'a> Src<'a> {
    pub fn random(seed: u64, index: Option<u64>) -> Src<'static> {
        Src {
            mode: Mode::Random(seed),
            pos: 0,
            choices: Vec::new(),
            index,
            log: None,
        }
    }
    pub fn replay(choices: &'a [u64]) -> Src<'a> {
        Src {
            mode: Mode::Replay(choices),
            pos: 0,
            choices: Vec::new(),
            index: None,
            log: None,
        }
    }
    pub fn mixed(choices: &'a [u64], seed: u64) -> Src<'a> {
        Src {
            mode: Mode::Mixed(choices, seed),
            pos: 0,
            choices: Vec::new(),
            index: None,
            log: None,
        }
    }
    /// The state of the random numbers, unless the next choice is a given one.
    fn free(&mut self) -> Option<&mut u64> {
        match &mut self.mode {
            Mode::Random(s) => Some(s),
            Mode::Mixed(c, s) if self.pos >= c.len() => Some(s),
            _ => None,
        }
    }

    /// Draws a value in `0..n` (`n == 0` means the whole u64 range). 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if let Some(s) = self.free() {
            *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let r = mix(*s);
            if n == 0 {
                r
            } else {
                // multiply-shift keeps the high bits
                ((r as u128 * n as u128) >> 64) as u64
            }
        } else {
            let r = match &self.mode {
                Mode::Replay(c) | Mode::Mixed(c, _) => c.get(self.pos).copied().unwrap_or(0),
                Mode::Random(_) => 0,
            };
            self.pos += 1;
            if n == 0 {
                r
            } else {
                r % n
            }
        };
        self.note(v);
        v
    }
    fn note(&mut self, v: u64) {
        self.choices.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
    }
    /// Writes the choices to a file as they are drawn.
    pub fn log_to(&mut self, path: &str) {
        self.log = File::create(path).ok();
    }
    /// The index of a sweep case (enumerated, not random).
    pub fn index(&mut self, total: u64) -> u64 {
        match self.index {
            Some(i) => {
                let i = i % total.max(1);
                self.note(i);
                i
            }
            None => self.below(total.max(1)),
        }
    }
    pub fn any(&mut self) -> u64 {
        self.below(0)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.usize(xs.len())].clone()
    }
    /// Weighted pick of an index; put the simplest first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    /// A constant of the code under test, or something close. What is drawn is recorded.
    pub fn hint(&mut self) -> u64 {
        let v = if let Some(st) = self.free() {
            *st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let r = mix(*st);
            let h = &crate::hints::hints().ints;
            if h.is_empty() {
                r & 0xff
            } else {
                let c = h[(r >> 32) as usize % h.len()];
                match r % 16 {
                    0..=6 => c,
                    7..=8 => c.wrapping_add(1),
                    9..=10 => c.wrapping_sub(1),
                    11 => c.wrapping_add((r >> 8) % 9),
                    12 => c.wrapping_mul(2),
                    13 => c.wrapping_add(248),
                    14 => c.wrapping_neg(),
                    _ => c.wrapping_mul(1 + (r >> 8) % 9).wrapping_add((r >> 12) % 3),
                }
            }
        } else {
            return self.below(0);
        };
        self.note(v);
        v
    }
    /// A text of the code under test. Its bytes are what is recorded.
    pub fn hint_text(&mut self) -> String {
        if let Some(st) = self.free() {
            *st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let h = &crate::hints::hints().texts;
            let t = if h.is_empty() {
                String::new()
            } else {
                h[(mix(*st) >> 32) as usize % h.len()].clone()
            };
            self.note(t.len() as u64);
            for b in t.bytes() {
                self.note(b as u64);
            }
            return t;
        }
        let n = self.usize(61);
        let b: Vec<u8> = (0..n).map(|_| self.below(256) as u8).collect();
        String::from_utf8_lossy(&b).to_string()
    }
    /// `n` bytes. Short ones are drawn, long ones are expanded from one drawn seed.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 48 {
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let x = self.any();
                for b in x.to_le_bytes() {
                    if v.len() < n {
                        v.push(b);
                    }
                }
            }
            v
        } else {
            let seed = self.any();
            let mut v = Vec::with_capacity(n + 8);
            let mut s = seed;
            while v.len() < n {
                s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                v.extend_from_slice(&mix(s).to_le_bytes());
            }
            v.truncate(n);
            v
        }
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub key: Option<u64>,
    pub want_desc: bool,
    pub desc: String,
    /// Extra evaluations done inside this case (e.g. every cut position).
    pub extra: u64,
}

impl Ctx {
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str(" | ");
            }
            let s = f();
            self.desc.push_str(&clip(&s, 1500));
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...({} bytes)", &s[..e], s.len())
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// Random cases.
    Random,
    /// Case i is the i-th element of an enumerated space of this size.
    Sweep,
}

#[derive(Clone, Copy)]
pub struct Suite {
    pub name: &'static str,
    pub kind: Kind,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub fn random(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Suite {
    Suite {
        name,
        kind: Kind::Random,
        quick,
        thorough,
        f,
    }
}
pub fn sweep(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Suite {
    Suite {
        name,
        kind: Kind::Sweep,
        quick,
        thorough,
        f,
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(|c| c.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "(no message)".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
        } else {
            old(info);
        }
    }));
}

/// Runs one case; a panic is a failure of the case.
pub fn run_one(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    IN_CASE.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    IN_CASE.with(|c| c.set(false));
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".to_string())),
    }
}

/// Runs `f`, telling whether it panicked (with the message).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".to_string())
    })
}

pub fn case_seed(seed: u64, prop: &str, suite: &str, index: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(prop.as_bytes())) ^ hash_bytes(suite.as_bytes())
        ^ mix(index.wrapping_mul(0xD134_2543_DE82_EF95)))
}

#[derive(Default)]
pub struct SuiteStats {
    pub evaluations: u64,
    pub extra: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    /// Distinct cases counted in other processes.
    pub distinct_elsewhere: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
}

pub struct Failure {
    pub suite: usize,
    pub index: u64,
    pub choices: Vec<u64>,
    pub message: String,
}

pub const THREADS: usize = 8;
pub const STACK: usize = 8 * 1024 * 1024;
const CHUNK: u64 = 16;

/// Counts the cases each thread starts in a suite; 0 when it has no more.
pub static STARTED: [AtomicU64; THREADS] = [const { AtomicU64::new(0) }; THREADS];

/// The file where each worker thread writes the case it is about to run, so that the
/// supervisor can find the culprit if the process dies.
pub struct Progress(Option<File>);
impl Progress {
    pub fn open(path: Option<&str>) -> Progress {
        Progress(path.and_then(|p| {
            std::fs::OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .open(p)
                .ok()
        }))
    }
    fn note(&self, thread: usize, suite: usize, index: u64) {
        if let Some(f) = &self.0 {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(suite as u64 + 1).to_le_bytes());
            b[8..].copy_from_slice(&index.to_le_bytes());
            let _ = f.write_all_at(&b, thread as u64 * 16);
        }
    }
    fn clear(&self, thread: usize) {
        if let Some(f) = &self.0 {
            let _ = f.write_all_at(&[0u8; 16], thread as u64 * 16);
        }
    }
    pub fn read(path: &str) -> Vec<(usize, u64)> {
        let mut out = Vec::new();
        if let Ok(b) = std::fs::read(path) {
            for c in b.chunks_exact(16) {
                let s = u64::from_le_bytes(c[..8].try_into().unwrap());
                let i = u64::from_le_bytes(c[8..].try_into().unwrap());
                if s > 0 {
                    out.push((s as usize - 1, i));
                }
            }
        }
        out.sort();
        out
    }
}

/// Runs all the cases of a suite on all the cores. The failure reported, if any, is the
/// one with the lowest index, so the outcome does not depend on the scheduling.
pub fn run_suite(
    prop: &'static str,
    si: usize,
    suite: &Suite,
    cases: u64,
    seed: u64,
    until: Instant,
    progress: &Arc<Progress>,
) -> (SuiteStats, Option<Failure>) {
    let next = Arc::new(AtomicU64::new(0));
    let best = Arc::new(AtomicU64::new(u64::MAX));
    let fails: Arc<Mutex<Vec<Failure>>> = Arc::new(Mutex::new(Vec::new()));
    let total = Arc::new(Mutex::new(SuiteStats::default()));
    let mut handles = Vec::new();
    for t in 0..THREADS {
        let (next, best, fails, total, progress, suite) = (
            next.clone(),
            best.clone(),
            fails.clone(),
            total.clone(),
            progress.clone(),
            *suite,
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut st = SuiteStats::default();
                    'outer: loop {
                        let start = next.fetch_add(CHUNK, Ordering::SeqCst);
                        // The first cases are run whatever the time.
                        let late = start >= 64 && Instant::now() > until;
                        if late || start >= cases || start > best.load(Ordering::SeqCst) {
                            break 'outer;
                        }
                        for i in start..(start + CHUNK).min(cases) {
                            if i > best.load(Ordering::SeqCst) {
                                break 'outer;
                            }
                            progress.note(t, si, i);
                            STARTED[t].fetch_add(1, Ordering::Relaxed);
                            let idx = if suite.kind == Kind::Sweep {
                                Some(i)
                            } else {
                                None
                            };
                            let mut src = Src::random(case_seed(seed, prop, suite.name, i), idx);
                            let mut ctx = Ctx {
                                want_desc: st.samples.len() < 2 && i % 7 < 3,
                                ..Ctx::default()
                            };
                            let r = run_one(suite.f, &mut src, &mut ctx);
                            st.evaluations += 1;
                            st.extra += ctx.extra;
                            for c in &ctx.classes {
                                *st.classes.entry(c).or_insert(0) += 1;
                            }
                            if ctx.nontrivial {
                                st.nontrivial += 1;
                                let k = ctx.key.unwrap_or_else(|| {
                                    let mut h = 0u64;
                                    for c in &src.choices {
                                        h = mix(h ^ *c).wrapping_add(1);
                                    }
                                    h
                                });
                                if st.distinct.len() < 2_000_000 {
                                    st.distinct.insert(k);
                                }
                                if ctx.want_desc && !ctx.desc.is_empty() {
                                    st.samples.push((i, ctx.desc.clone()));
                                }
                            }
                            if let Err(m) = r {
                                best.fetch_min(i, Ordering::SeqCst);
                                fails.lock().unwrap().push(Failure {
                                    suite: si,
                                    index: i,
                                    choices: src.choices.clone(),
                                    message: m,
                                });
                                break;
                            }
                        }
                    }
                    progress.clear(t);
                    STARTED[t].store(0, Ordering::Relaxed);
                    let mut tot = total.lock().unwrap();
                    tot.evaluations += st.evaluations;
                    tot.extra += st.extra;
                    tot.nontrivial += st.nontrivial;
                    tot.distinct.extend(st.distinct);
                    for (k, v) in st.classes {
                        *tot.classes.entry(k).or_insert(0) += v;
                    }
                    tot.samples.extend(st.samples);
                })
                .expect("cannot start a thread"),
        );
    }
    for h in handles {
        let _ = h.join();
    }
    let mut fails = Arc::try_unwrap(fails).ok().unwrap().into_inner().unwrap();
    fails.sort_by_key(|f| f.index);
    let mut stats = std::mem::take(&mut *total.lock().unwrap());
    stats.samples.sort();
    (stats, fails.into_iter().next())
}

/// Shrinks a failing list of choices. `fails` tells whether a list still fails, with the
/// list actually consumed and the message.
pub fn shrink(
    start: Vec<u64>,
    message: String,
    mut fails: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
    budget: usize,
) -> (Vec<u64>, String) {
    let mut cur = start;
    let mut msg = message;
    let mut left = budget;
    let t0 = std::time::Instant::now();
    let mut attempt = |cand: &[u64], cur: &mut Vec<u64>, msg: &mut String| -> bool {
        if left == 0 || t0.elapsed().as_secs() > 30 {
            return false;
        }
        left -= 1;
        if let Some((used, m)) = fails(cand) {
            // Keep the shorter of what was given and what was consumed.
            let mut c = if used.len() <= cand.len() {
                used
            } else {
                cand.to_vec()
            };
            while c.last() == Some(&0) {
                c.pop();
            }
            let simpler = c.len() < cur.len() || (c.len() == cur.len() && c < *cur);
            if simpler {
                *cur = c;
                *msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = cur.clone();
        // Delete blocks.
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= cur.len() {
                let mut c = cur.clone();
                c.drain(i..i + size);
                if !attempt(&c, &mut cur, &mut msg) {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= cur.len() {
                if cur[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    for x in &mut c[i..i + size] {
                        *x = 0;
                    }
                    attempt(&c, &mut cur, &mut msg);
                }
                i += size;
            }
        }
        // Lower each value; lowering a length while deleting one element after it helps
        // with lists.
        let mut i = 0;
        while i < cur.len() {
            let (mut lo, mut hi) = (0u64, cur[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = cur.clone();
                c[i] = mid;
                if attempt(&c, &mut cur, &mut msg) {
                    if i >= cur.len() {
                        break;
                    }
                    hi = cur[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            if i < cur.len() && cur[i] > 0 {
                for k in 1..=6usize {
                    if i + 1 + k <= cur.len() && cur[i] > 0 {
                        let mut c = cur.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + k);
                        if attempt(&c, &mut cur, &mut msg) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if cur == before {
            return (cur, msg);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err(format!($($fmt)*));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)*) => {
        {
            let (a, b) = (&$a, &$b);
            if a != b {
                return Err(format!("{}: got {}, expected {}", format!($($fmt)*),
                    $crate::engine::clip(&format!("{:?}", a), 600),
                    $crate::engine::clip(&format!("{:?}", b), 600)));
            }
        }
    };
}
