//! A small choice-sequence property-testing engine (the design of Hypothesis):
//! a case is a pure function of a finite sequence of integer draws.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>),
}

/// Source of all decisions of a case, plus everything a case reports about itself.
pub struct Ctx {
    mode: Mode,
    pub draws: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub desc: String,
    pub scratch: PathBuf,
    /// size grows with the index of a case (small cases first)
    pub size: usize,
}

pub enum Verdict {
    Trivial,
    NonTrivial,
}

pub type Res = Result<Verdict, String>;

impl Ctx {
    pub fn random(seed: u64, prop: &str, index: u64, size: usize, scratch: &Path) -> Ctx {
        let mut s = seed ^ fnv(prop.as_bytes()).rotate_left(17);
        let a = splitmix(&mut s);
        let mut t = a ^ index.wrapping_mul(0xD134_2543_DE82_EF95);
        let st = splitmix(&mut t);
        Ctx {
            mode: Mode::Random(st),
            draws: vec![],
            labels: BTreeMap::new(),
            desc: String::new(),
            scratch: scratch.to_path_buf(),
            size,
        }
    }
    pub fn replay(draws: Vec<u64>, size: usize, scratch: &Path) -> Ctx {
        Ctx {
            mode: Mode::Replay(draws),
            draws: vec![],
            labels: BTreeMap::new(),
            desc: String::new(),
            scratch: scratch.to_path_buf(),
            size,
        }
    }

    /// uniform in 0..=max; shrinks towards 0
    pub fn draw(&mut self, max: u64) -> u64 {
        let pos = self.draws.len();
        let v = match &mut self.mode {
            Mode::Random(s) => {
                let r = splitmix(s);
                if max == u64::MAX {
                    r
                } else {
                    // 128-bit multiply-shift
                    ((r as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            Mode::Replay(d) => d.get(pos).copied().unwrap_or(0).min(max),
        };
        self.draws.push(v);
        v
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn i64(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        lo.wrapping_add(self.draw(hi.wrapping_sub(lo) as u64) as i64)
    }
    /// true with probability num/den; shrinks towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.draw(den - 1);
        v >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.usize(0, xs.len() - 1);
        xs[i].clone()
    }
    /// index by weights
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        // shrinks to the identity
        for i in (1..xs.len()).rev() {
            let j = i - self.usize(0, i);
            xs.swap(i, j);
        }
    }
    pub fn label<S: Into<String>>(&mut self, s: S) {
        *self.labels.entry(s.into()).or_insert(0) += 1;
    }
    pub fn note<S: AsRef<str>>(&mut self, s: S) {
        if self.desc.len() < 20000 {
            if !self.desc.is_empty() {
                self.desc.push('\n');
            }
            let s = s.as_ref();
            let mut end = s.len().min(20000);
            while !s.is_char_boundary(end) {
                end -= 1;
            }
            self.desc.push_str(&s[..end]);
        }
    }
    /// fresh file path inside the scratch directory of this case
    pub fn path(&self, name: &str) -> PathBuf {
        self.scratch.join(name)
    }
    pub fn write(&self, name: &str, data: &[u8]) -> PathBuf {
        let p = self.path(name);
        std::fs::write(&p, data).expect("harness: scratch file");
        p
    }
    pub fn clear_scratch(&self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
        std::fs::create_dir_all(&self.scratch).expect("harness: scratch dir");
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// runs code under test; a panic becomes an Err with its message
pub fn guard<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if last_panic().starts_with("harness: ") {
                std::panic::resume_unwind(e);
            }
            Err(format!("{} panicked: {}", what, last_panic()))
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}

pub enum Outcome {
    Pass(bool),
    Fail(String),
}

pub fn run_case(prop: &Prop, ctx: &mut Ctx) -> Outcome {
    ctx.clear_scratch();
    let run = prop.run;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(ctx))) {
        Ok(Ok(Verdict::NonTrivial)) => Outcome::Pass(true),
        Ok(Ok(Verdict::Trivial)) => Outcome::Pass(false),
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let m = last_panic();
            if m.starts_with("harness:") || m.contains("harness: ") {
                // an error of the check itself, not a finding
                eprintln!("HARNESS-ERROR {}", m);
                std::process::exit(3);
            }
            Outcome::Fail(format!("panic: {}", m))
        }
    }
}

/// Shrinks a failing choice sequence. `fails` runs a candidate and returns the draws it consumed
/// if it still fails.
pub fn shrink<F: FnMut(&[u64]) -> Option<Vec<u64>>>(start: Vec<u64>, mut fails: F) {
    let mut best = start;
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    let mut improved = true;
    while improved {
        improved = false;
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                if lo < best.len() {
                    let hi = i.min(best.len());
                    let mut c = best[..lo].to_vec();
                    c.extend_from_slice(&best[hi..]);
                    if let Some(d) = fails(&c) {
                        if better(&d, &best) {
                            best = d;
                            improved = true;
                        }
                    }
                }
                i = lo.min(best.len());
                if lo == 0 {
                    break;
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero blocks
        for k in [8usize, 4, 2].iter() {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|v| *v = 0);
                    if let Some(d) = fails(&c) {
                        if better(&d, &best) {
                            best = d;
                            improved = true;
                        }
                    }
                }
                i += k;
            }
        }
        // minimise single values; also decrease together with deleting a later one
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                for cand in [0u64, 1, best[i] / 2, best[i] - 1].iter() {
                    if i < best.len() && *cand < best[i] {
                        let mut c = best.clone();
                        c[i] = *cand;
                        if let Some(d) = fails(&c) {
                            if better(&d, &best) {
                                best = d;
                                improved = true;
                            }
                        }
                    }
                }
                // binary descent
                if i < best.len() && best[i] > 2 {
                    let (mut lo, mut hi) = (0, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        match fails(&c) {
                            Some(d) if better(&d, &best) => {
                                best = d;
                                improved = true;
                                hi = mid;
                            }
                            _ => lo = mid,
                        }
                    }
                }
            }
            i += 1;
        }
        // lower a count and remove a block behind it
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 && best[i] < 100 {
                for k in 1..=8usize {
                    for off in 0..6usize {
                        let s = i + 1 + off;
                        if s + k <= best.len() && best[i] > 0 {
                            let mut c = best.clone();
                            c[i] -= 1;
                            c.drain(s..s + k);
                            if let Some(d) = fails(&c) {
                                if better(&d, &best) {
                                    best = d;
                                    improved = true;
                                }
                            }
                        }
                    }
                    if i >= best.len() {
                        break;
                    }
                }
            }
            i += 1;
        }
    }
}
