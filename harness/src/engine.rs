//! Choice-sequence property-testing engine (in the manner of Hypothesis).
//!
//! Every generator draws bounded integers from a `Src`. The draws are recorded, so
//! a failing case is fully described by its list of draws; shrinking edits that list
//! and re-runs generator + oracle, and a replay file is simply the list.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

//------------------------------------------------------------------------------
// random numbers

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    /// xoshiro256**
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

//------------------------------------------------------------------------------
// choice source

pub struct Src {
    replay: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub record: Vec<u64>,
    /// 0.0 ..= 1.0, how large this case may get
    pub size: f64,
    /// factor on the length of outermost lists ("large" cases)
    pub mult: usize,
    /// the first list of points has up to 70000 elements (made from few draws)
    pub huge: bool,
    pub journal: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64, size: f64) -> Self {
        Src { replay: vec![], pos: 0, rng: Some(Rng::new(seed)), record: vec![], size, mult: 1, huge: false, journal: None }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { replay: v, pos: 0, rng: None, record: vec![], size: 1.0, mult: 1, huge: false, journal: None }
    }
    /// the given choices, then random ones
    pub fn hybrid(v: Vec<u64>, seed: u64, size: f64) -> Self {
        Src { replay: v, pos: 0, rng: Some(Rng::new(seed)), record: vec![], size, mult: 1, huge: false, journal: None }
    }
    fn scripted(&mut self) -> Option<u64> {
        if self.pos < self.replay.len() {
            self.pos += 1;
            return Some(self.replay[self.pos - 1]);
        }
        if self.rng.is_none() {
            self.pos += 1;
            return Some(0);
        }
        None
    }
    /// replaying, and the recorded choices are used up (guards rejection loops)
    pub fn exhausted(&self) -> bool {
        self.rng.is_none() && self.pos > self.replay.len() + 64
    }
    fn push(&mut self, v: u64) {
        self.record.push(v);
        if let Some(f) = &mut self.journal {
            use std::io::Write;
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
    }
    /// uniform in 0..=max, shrinks to 0
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match self.scripted() {
            Some(v) => if v > max { v % (max + 1) } else { v },
            None => {
                let r = self.rng.as_mut().unwrap();
                if max == u64::MAX { r.next() } else { r.next() % (max + 1) }
            }
        };
        self.push(v);
        v
    }
    /// a draw whose random value is chosen by `f`, but which replays as 0..=max
    fn draw_with(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match self.scripted() {
            Some(v) => v,
            None => f(self.rng.as_mut().unwrap()),
        }
        .min(max);
        self.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.draw(n as u64 - 1) as usize
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo) as u64) as usize
    }
    /// signed integer in lo..=hi (lo <= 0 <= hi shrinks towards 0, otherwise to lo)
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        if lo <= 0 && hi >= 0 {
            // zigzag so that small magnitudes have small codes
            let m = (-lo).max(hi);
            loop {
                let z = self.draw(2 * m as u64);
                let v = if z % 2 == 1 { ((z + 1) / 2) as i64 } else { -((z / 2) as i64) };
                if v >= lo && v <= hi {
                    return v;
                }
                if self.rng.is_none() && self.pos > self.replay.len() + 64 {
                    return 0;
                }
                if self.record.len() > 5_000_000 { return 0; }
            }
        } else {
            lo + self.draw((hi - lo) as u64) as i64
        }
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw_with(1, |r| (r.next() % den < num) as u64) == 1
    }
    /// index by weight, shrinks to 0
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let w2 = w.to_vec();
        self.draw_with(w.len() as u64 - 1, |r| {
            let mut x = r.next() % total;
            for (i, v) in w2.iter().enumerate() {
                if x < *v {
                    return i as u64;
                }
                x -= v;
            }
            0
        }) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// list of min..=max elements, each preceded by a "more" bit so that elements can be deleted by shrinking
    pub fn list<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        // nested lists keep their size
        let mult = std::mem::replace(&mut self.mult, 1);
        let max = min + (max - min) * mult;
        let max_eff = min + (((max - min) as f64) * self.size).ceil() as usize;
        // the number of elements wanted beyond the scripted ones
        let target = match &mut self.rng {
            Some(r) if self.pos >= self.replay.len() => {
                let span = max_eff - min;
                let cap = match r.next() % 4 {
                    0 | 1 if mult > 1 => span,
                    0 => span.min(3),
                    1 => span.min(8),
                    2 => span / 4 + 1,
                    _ => span,
                };
                min + (r.next() % (cap.min(span) as u64 + 1)) as usize
            }
            Some(r) => min + (r.next() % 4) as usize,
            None => max,
        };
        let mut out = Vec::new();
        while out.len() < max {
            if out.len() >= min {
                let more = out.len() < target;
                if self.draw_with(1, |_| more as u64) == 0 {
                    break;
                }
            }
            out.push(f(self));
        }
        self.mult = mult;
        out
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        if v.len() > 2000 {
            let mut r = Rng::new(self.draw(1 << 30));
            for i in (1..v.len()).rev() {
                v.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
            return;
        }
        for i in (1..v.len()).rev() {
            let j = i - self.draw(i as u64) as usize;
            v.swap(i, j);
        }
    }
}

//------------------------------------------------------------------------------
// outcome of one case

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::engine::Fail { sig: $sig.to_string(), msg: format!($($arg)*) }); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: String,
    pub labels: Vec<&'static str>,
}
impl Ctx {
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.labels.push(l);
        }
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&s);
        }
    }
}

pub type CheckFn = fn(&mut Src, &mut Ctx) -> Res;

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub f: CheckFn,
    pub quick: u64,
    pub thorough: u64,
    /// one case in 100 has its outermost lists up to this factor longer
    pub large: u64,
    pub huge: bool,
}
pub fn sub(name: &'static str, quick: u64, f: CheckFn) -> Sub {
    Sub { name, f, quick, thorough: quick * 30, large: 1, huge: false }
}
impl Sub {
    pub fn large(mut self, factor: u64) -> Self {
        self.large = factor;
        self
    }
    pub fn huge(mut self) -> Self {
        self.huge = true;
        self
    }
    fn set_size(&self, src: &mut Src) {
        src.mult = 1;
        src.huge = self.huge;
        if self.large > 1 && src.chance(1, 100) {
            src.mult = 2 + src.draw(self.large - 2) as usize;
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

//------------------------------------------------------------------------------
// panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs `f`; a panic becomes Err((location, message))
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

fn norm(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars().take(70) {
        if c.is_ascii_digit() {
            if !out.ends_with('#') {
                out.push('#');
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// Runs `f`, turning a panic into a failure whose signature names the call
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    caught(f).map_err(|(loc, msg)| Fail {
        sig: format!("panic in {}: {}", what, norm(&msg)),
        msg: format!("{} panicked at {}: {}", what, loc, msg),
    })
}

/// Runs one case; a panic anywhere in it is a failure
pub fn run_case(sub: &Sub, src: &mut Src, ctx: &mut Ctx) -> Res {
    sub.set_size(src);
    if src.mult > 1 {
        ctx.label("large");
    }
    match caught(|| (sub.f)(src, ctx)) {
        Ok(r) => r,
        Err((loc, msg)) => {
            let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            Err(Fail { sig: format!("panic {}: {}", file, norm(&msg)), msg: format!("panic at {}: {}", loc, msg) })
        }
    }
}

//------------------------------------------------------------------------------
// shrinking

fn eval(f: &Sub, v: &[u64], sig: &str) -> Option<Vec<u64>> {
    let mut src = Src::replay(v.to_vec());
    let mut ctx = Ctx::default();
    match run_case(f, &mut src, &mut ctx) {
        Err(e) if e.sig == sig => Some(src.record),
        _ => None,
    }
}

/// Shrinks a failing choice list, keeping the failure signature.
pub fn shrink(start: Vec<u64>, budget: &mut u64, test: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let better = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut try_one = |cand: Vec<u64>, best: &mut Vec<u64>, budget: &mut u64| -> bool {
        if *budget == 0 || !better(&cand, best) {
            return false;
        }
        *budget -= 1;
        if let Some(rec) = test(&cand) {
            if better(&rec, best) {
                *best = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = best.len().max(1).next_power_of_two();
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if !try_one(c, &mut best, budget) {
                    i += if k > 16 { k / 2 } else { 1 };
                }
                if *budget == 0 {
                    return best;
                }
            }
            k /= 2;
        }
        // odd widths
        for k in [3usize, 5, 6, 7] {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if !try_one(c, &mut best, budget) {
                    i += 1;
                }
            }
        }
        // zero blocks
        for k in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + k] {
                        *x = 0;
                    }
                    try_one(c, &mut best, budget);
                }
                i += k;
            }
        }
        // single values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_one(c, &mut best, budget) && i < best.len() {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && i < best.len() && *budget > 0 {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_one(c, &mut best, budget) {
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i];
                        } else {
                            lo = mid;
                        }
                    }
                    for d in [1u64, 2] {
                        if i < best.len() && best[i] >= d {
                            let mut c = best.clone();
                            c[i] -= d;
                            try_one(c, &mut best, budget);
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || *budget == 0 {
            return best;
        }
    }
}

/// `best` holds the smallest failure so far at any time
pub fn shrink_in_process(f: &Sub, start: Vec<u64>, sig: &str, mut budget: u64, best: &std::sync::Mutex<Vec<u64>>) {
    shrink(start, &mut budget, &mut |v| {
        let r = eval(f, v, sig);
        if let Some(r) = &r {
            let mut b = best.lock().unwrap();
            if r.len() < b.len() || (r.len() == b.len() && r < &*b) {
                *b = r.clone();
            }
        }
        r
    });
}

//------------------------------------------------------------------------------
// running many cases

pub fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    let mut h = fnv(0xcbf29ce484222325, prop.as_bytes());
    h = fnv(h, b"/");
    h = fnv(h, sub.as_bytes());
    h = fnv(h, &seed.to_le_bytes());
    h = fnv(h, &i.to_le_bytes());
    let mut s = h;
    splitmix(&mut s)
}
pub fn case_size(i: u64) -> f64 {
    ((i % 10) as f64 + 1.0) / 10.0
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known_hits: BTreeMap<String, u64>,
}

pub struct Found {
    pub sub: &'static str,
    pub case: u64,
    pub fail: Fail,
    pub record: Vec<u64>,
}

pub fn hash_record(v: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        let mut y = h ^ x;
        h = splitmix(&mut y);
    }
    h
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
