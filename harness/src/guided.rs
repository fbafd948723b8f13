//! Coverage-guided search over choice lists (thorough tier; built with sanitizer coverage).
//!
//! A corpus entry is the recorded choice list of a case that reached something new.
//! A new case is a mutated entry, continued with random choices where it runs out.

use crate::engine::*;
use std::collections::HashSet;

//------------------------------------------------------------------------------
// counters (-C passes=sancov-module ... inline-8bit-counters)

static mut REGIONS: Vec<(usize, usize)> = Vec::new();

#[cfg(vh_cov)]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    unsafe {
        let r = &mut *std::ptr::addr_of_mut!(REGIONS);
        if !r.contains(&(start as usize, stop as usize)) {
            r.push((start as usize, stop as usize));
        }
    }
}
#[cfg(vh_cov)]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _stop: *const usize) {}

fn regions() -> &'static [(usize, usize)] {
    unsafe { &*std::ptr::addr_of!(REGIONS) }
}
pub fn n_counters() -> usize {
    regions().iter().map(|(a, b)| b - a).sum()
}
fn reset() {
    for (a, b) in regions() {
        unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
    }
}
fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
/// adds what was reached to `seen`; whether something was new
fn collect(seen: &mut [u8]) -> bool {
    let mut off = 0;
    let mut new = false;
    for (a, b) in regions() {
        let n = b - a;
        let c = unsafe { std::slice::from_raw_parts(*a as *const u8, n) };
        let mut i = 0;
        while i < n {
            if i + 8 <= n && c[i..i + 8] == [0u8; 8] {
                i += 8;
                continue;
            }
            let m = bucket(c[i]);
            if m & !seen[off + i] != 0 {
                seen[off + i] |= m;
                new = true;
            }
            i += 1;
        }
        off += n;
    }
    new
}

//------------------------------------------------------------------------------
// mutation

fn value(r: &mut Rng, old: u64) -> u64 {
    match r.next() % 8 {
        0 => 0,
        1 => 1,
        2 => old.wrapping_add(1),
        3 => old.wrapping_sub(1),
        4 => r.next() % 16,
        5 => r.next() % 256,
        6 => old ^ (1u64 << (r.next() % 64)),
        _ => r.next(),
    }
}

fn mutate(r: &mut Rng, base: &[u64], corpus: &[Vec<u64>]) -> Vec<u64> {
    let mut v = base.to_vec();
    let n = 1 + (r.next() % 4).min(r.next() % 8);
    for _ in 0..n {
        let len = v.len();
        if len == 0 {
            return v;
        }
        let at = |r: &mut Rng, len: usize| (r.next() % len as u64) as usize;
        match r.next() % 12 {
            0..=3 => {
                let i = at(r, len);
                v[i] = value(r, v[i]);
            }
            4 => {
                // several neighbours
                let i = at(r, len);
                let k = 1 + (r.next() % 8) as usize;
                for x in v[i..].iter_mut().take(k) {
                    *x = value(r, *x);
                }
            }
            5 => {
                // the rest is random
                let i = at(r, len);
                v.truncate(i);
            }
            6 => {
                let i = at(r, len);
                let k = (1 + (r.next() % 12) as usize).min(len - i);
                v.drain(i..i + k);
            }
            7 => {
                // repeat a block
                let i = at(r, len);
                let k = (1 + (r.next() % 12) as usize).min(len - i);
                let b = v[i..i + k].to_vec();
                let j = if r.next() % 2 == 0 { i + k } else { at(r, len) };
                v.splice(j..j, b);
            }
            8 => {
                // copy a block over another
                let (i, j) = (at(r, len), at(r, len));
                let k = (1 + (r.next() % 8) as usize).min(len - i).min(len - j);
                let b = v[i..i + k].to_vec();
                v[j..j + k].copy_from_slice(&b);
            }
            9 => {
                let i = at(r, len);
                let k = 1 + (r.next() % 4) as usize;
                let b: Vec<u64> = (0..k).map(|_| value(r, 0)).collect();
                v.splice(i..i, b);
            }
            10 => {
                let (i, j) = (at(r, len), at(r, len));
                v.swap(i, j);
            }
            _ => {
                // continue as another entry does
                let o = &corpus[(r.next() % corpus.len() as u64) as usize];
                if !o.is_empty() {
                    let i = at(r, len);
                    let j = if r.next() % 2 == 0 { i.min(o.len() - 1) } else { at(r, o.len()) };
                    v.truncate(i);
                    v.extend_from_slice(&o[j..]);
                }
            }
        }
        v.truncate(200_000);
    }
    v
}

//------------------------------------------------------------------------------

#[derive(Default)]
pub struct Guided {
    pub execs: u64,
    pub corpus: usize,
    pub counters: usize,
    pub nontrivial: u64,
    pub found: Option<(Fail, Vec<u64>)>,
}

/// `known(sig)`: failures to pass over; `before(choices, seed, size)` is told each case before it runs
pub fn search(
    s: &Sub,
    seed: u64,
    execs: u64,
    known: &dyn Fn(&str) -> bool,
    before: &mut dyn FnMut(&[u64], u64, f64),
    after: &mut dyn FnMut(),
) -> Guided {
    let mut r = Rng::new(seed);
    let mut seen = vec![0u8; n_counters()];
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut hits: HashSet<u64> = HashSet::new();
    let mut g = Guided::default();
    for i in 0..execs {
        let fresh = corpus.is_empty() || i < execs / 50 || r.next() % 10 == 0;
        let base = if fresh {
            vec![]
        } else {
            // the newest entries and the small ones are used more often
            let k = corpus.len() as u64;
            let mut pick = || match r.next() % 3 {
                0 => k - 1 - (r.next() % k).min(r.next() % k).min(r.next() % k),
                _ => r.next() % k,
            } as usize;
            let (a, b) = (pick(), pick());
            let c = if corpus[a].len() <= corpus[b].len() { a } else { b };
            mutate(&mut r, &corpus[c], &corpus)
        };
        let (rest, size) = (r.next(), case_size(i));
        before(&base, rest, size);
        let mut src = Src::hybrid(base, rest, size);
        let mut ctx = Ctx::default();
        reset();
        let res = run_case(s, &mut src, &mut ctx);
        let new = collect(&mut seen);
        after();
        g.execs += 1;
        match res {
            Ok(()) => {
                if ctx.nontrivial && hits.len() < 2_000_000 {
                    hits.insert(hash_record(&src.record));
                }
                if new && src.record.len() <= 100_000 {
                    corpus.push(src.record);
                }
            }
            Err(e) => {
                if !known(&e.sig) {
                    g.found = Some((e, src.record));
                    break;
                }
            }
        }
    }
    g.corpus = corpus.len();
    g.counters = seen.iter().filter(|x| **x != 0).count();
    g.nontrivial = hits.len() as u64;
    g
}
