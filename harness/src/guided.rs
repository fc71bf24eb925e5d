//! Coverage-guided search over the choices of a case.
//!
//! It runs in the instrumented build. A case is the list of its choices ([`Src`]), so what is
//! mutated is the structure of the case (a tag tree, a history of operations) and not the bytes
//! of an input. A list that reaches an edge, a number of passes through an edge or a distance
//! in a comparison not seen before is kept and mutated further. The oracles are those of the
//! suites: only the choice of cases changes.
use crate::engine::*;
use std::collections::HashSet;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::atomic::Ordering;
use std::time::Instant;

struct Entry {
    choices: Vec<u64>,
    runs: u64,
}

pub struct Found {
    pub choices: Vec<u64>,
    pub message: String,
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub extra: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub corpus: u64,
    pub features: u64,
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n.max(1) as u128) >> 64) as usize
    }
}

fn bucket(n: u8) -> u8 {
    match n {
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// A value to put in the place of `old`.
fn value(r: &mut Rng, old: u64) -> u64 {
    match r.below(10) {
        0 => old.wrapping_add(1),
        1 => old.wrapping_sub(1),
        2 => r.next(),
        3 => r.next() >> r.below(64),
        4 => r.below(16) as u64,
        5 => r.below(256) as u64,
        6 => {
            let h = &crate::hints::hints().ints;
            if h.is_empty() {
                old ^ 1
            } else {
                h[r.below(h.len())].wrapping_add(r.below(3) as u64).wrapping_sub(1)
            }
        }
        7 => {
            let (a, b) = covrt::pair(r.next());
            if r.below(2) == 0 {
                a
            } else {
                b
            }
        }
        8 => old ^ (1 << r.below(64)),
        _ => 0,
    }
}

fn mutate(r: &mut Rng, corpus: &[Entry], base: &[u64]) -> Vec<u64> {
    let mut c = base.to_vec();
    for _ in 0..1 + r.below(4) {
        let n = c.len();
        if n == 0 {
            c.push(r.next());
            continue;
        }
        let i = r.below(n);
        match r.below(14) {
            // A value that was compared with another one becomes that one.
            0..=2 => {
                let (a, b) = covrt::pair(r.next());
                let at: Vec<usize> = (0..n).filter(|k| c[*k] == a || c[*k] == b).collect();
                if at.is_empty() {
                    c[i] = value(r, c[i]);
                } else {
                    let k = at[r.below(at.len())];
                    c[k] = if c[k] == a { b } else { a };
                }
            }
            3..=6 => c[i] = value(r, c[i]),
            7 => {
                let e = (i + 1 + r.below(8)).min(n);
                c.drain(i..e);
            }
            8 => c.insert(i, value(r, 0)),
            9 => {
                let e = (i + 1 + r.below(16)).min(n);
                let part: Vec<u64> = c[i..e].to_vec();
                let at = r.below(n);
                for (k, x) in part.into_iter().enumerate() {
                    c.insert(at + k, x);
                }
            }
            // The rest is drawn anew.
            10 => c.truncate(i + 1),
            11 | 12 => {
                let o = &corpus[r.below(corpus.len())].choices;
                if !o.is_empty() {
                    let j = r.below(o.len());
                    let e = (j + 1 + r.below(32)).min(o.len());
                    let to = (i + e - j).min(n);
                    if r.below(2) == 0 {
                        c.splice(i..to, o[j..e].iter().copied());
                    } else {
                        c.truncate(i);
                        c.extend_from_slice(&o[j..]);
                    }
                }
            }
            _ => {
                let k = r.below(n);
                c[i] = c[k];
            }
        }
    }
    c.truncate(4096);
    c
}

/// Searches for a failing case of a suite until `until`.
pub fn search(suite: &Suite, seed: u64, until: Instant, log: Option<&File>) -> (Stats, Option<Found>) {
    let mut st = Stats::default();
    let mut r = Rng(seed);
    let counters = covrt::counters();
    let mut seen = vec![0u8; counters.len()];
    let mut corpus: Vec<Entry> = Vec::new();
    while Instant::now() < until {
        let base = if corpus.is_empty() || r.below(16) == 0 || st.runs < 200 {
            Vec::new()
        } else {
            let n = corpus.len();
            let k = if r.below(2) == 0 {
                n - 1 - r.below(n.min(64))
            } else {
                let (a, b) = (r.below(n), r.below(n));
                if corpus[a].runs <= corpus[b].runs {
                    a
                } else {
                    b
                }
            };
            corpus[k].runs += 1;
            let b = std::mem::take(&mut corpus[k].choices);
            let m = mutate(&mut r, &corpus, &b);
            corpus[k].choices = b;
            m
        };
        let tail = r.next();
        if let Some(f) = log {
            let mut b: Vec<u8> = Vec::with_capacity(8 * base.len() + 16);
            b.extend_from_slice(&(base.len() as u64).to_le_bytes());
            b.extend_from_slice(&tail.to_le_bytes());
            for x in &base {
                b.extend_from_slice(&x.to_le_bytes());
            }
            let _ = f.write_all_at(&b, 0);
        }
        STARTED[0].fetch_add(1, Ordering::Relaxed);
        counters.fill(0);
        let mut src = Src::mixed(&base, tail);
        let mut ctx = Ctx::default();
        let out = run_one(suite.f, &mut src, &mut ctx);
        let mut fresh = covrt::take_fresh() as u64;
        for (k, w) in counters.chunks(8).enumerate() {
            if w.len() == 8 && u64::from_ne_bytes(w.try_into().unwrap()) == 0 {
                continue;
            }
            for (j, n) in w.iter().enumerate() {
                if *n != 0 {
                    let b = bucket(*n);
                    let s = &mut seen[k * 8 + j];
                    if *s & b == 0 {
                        *s |= b;
                        fresh += 1;
                    }
                }
            }
        }
        st.runs += 1;
        st.extra += ctx.extra;
        if ctx.nontrivial {
            st.nontrivial += 1;
            let k = ctx.key.unwrap_or_else(|| {
                let mut h = 0u64;
                for c in &src.choices {
                    h = mix(h ^ *c).wrapping_add(1);
                }
                h
            });
            if st.distinct.len() < 500_000 {
                st.distinct.insert(k);
            }
        }
        if let Err(message) = out {
            return (
                st,
                Some(Found {
                    choices: src.choices,
                    message,
                }),
            );
        }
        if fresh > 0 {
            st.features += fresh;
            let choices = std::mem::take(&mut src.choices);
            if choices.len() <= 4096 {
                if corpus.len() >= 8192 {
                    let k = r.below(corpus.len());
                    corpus.swap_remove(k);
                }
                corpus.push(Entry { choices, runs: 0 });
            }
        }
    }
    st.corpus = corpus.len() as u64;
    (st, None)
}
