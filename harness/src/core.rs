//! Choice-sequence generator, case context, shrinking.
//!
//! Every random decision of every generator goes through `Src::below`, which
//! records it.  A case is therefore a pure function of its choice sequence:
//! shrinking edits the sequence, a replay file stores it.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    wide: Option<Wide>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { state: seed, replay: None, pos: 0, rec: vec![], wide: None }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { state: 0, replay: Some(choices.to_vec()), pos: 0, rec: vec![], wide: None }
    }
    /// A choice in 0..n (0 is the simplest).
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match self.replay {
            Some(ref d) => {
                let v = if self.pos < d.len() { d[self.pos] } else { 0 };
                v.min(n - 1)
            }
            None => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                mix(self.state) % n
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den (false is the simpler choice)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= *wi;
        }
        w.len() - 1
    }
    /// One continuation choice per element keeps list lengths shrinkable.
    pub fn more(&mut self, have: usize, max: usize, num: u64, den: u64) -> bool {
        if let Some(w) = &mut self.wide {
            // the list number `skip` of this case becomes a long one
            if w.skip > 0 {
                if have <= 2 {
                    w.skip -= 1;
                    w.at = have;
                }
            } else if w.left > 0 && have == w.at {
                w.left -= 1;
                w.at = have + 1;
                return true;
            }
        }
        have < max && self.chance(num, den)
    }
    /// Once in a while a case has one list far longer than usual.
    pub fn size_up(&mut self) {
        if self.chance(1, 32) {
            let skip = 1 + self.below(24);
            let left = 8 + self.below(40);
            self.wide = Some(Wide { skip, left, at: 0 });
        }
    }
}

struct Wide {
    skip: u64,
    left: u64,
    at: usize,
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub desc: String,
    pub comparisons: u64,
    pub trace: bool,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Describe the case.  Call before the code under test runs, so that a
    /// crash can be attributed.
    pub fn case<S: Into<String>>(&mut self, d: S) {
        self.desc = d.into();
        if self.trace {
            println!("CASE {}", self.desc.replace('\n', "\\n"));
            use std::io::Write;
            let _ = std::io::stdout().flush();
        }
    }
    pub fn add_case(&mut self, d: &str) {
        let s = format!("{}{}", self.desc, d);
        self.case(s);
    }
    pub fn cmp(&mut self) {
        self.comparisons += 1;
    }
}

pub type PropFn = fn(&mut Src, &mut Cx) -> Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(no message)")
        };
        let loc = match info.location() {
            Some(l) => format!("{}:{}", l.file(), l.line()),
            None => String::from("?"),
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Outcome {
    Pass,
    Fail(String),
    /// panic inside the harness itself: an error of the check
    Harness(String),
}

/// Run a case, turning a panic of the library into a failure.
pub fn run_case(f: PropFn, src: &mut Src, cx: &mut Cx) -> Outcome {
    src.size_up();
    let r = catch_unwind(AssertUnwindSafe(|| f(src, cx)));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let (msg, loc) = take_panic();
            if is_harness_loc(&loc) {
                Outcome::Harness(format!("harness panic: {} at {}", msg, loc))
            } else {
                Outcome::Fail(format!("panicked: {} at {}", msg, loc))
            }
        }
    }
}

fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or((String::from("?"), String::from("?")))
}

/// Call the library; Err(message) when it panics.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = take_panic();
            if is_harness_loc(&loc) {
                panic!("{} at {}", msg, loc);
            }
            Err(format!("panicked: {} at {}", msg, loc))
        }
    }
}

/// Shrink a failing choice sequence.  `fails` answers whether a candidate
/// still fails and returns the choices it actually consumed.
pub fn shrink<F: FnMut(&[u64]) -> Option<Vec<u64>>>(
    start: Vec<u64>,
    budget: usize,
    mut fails: F,
) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            if left == 0 {
                return best;
            }
            left -= 1;
            match fails(&$cand) {
                Some(used) => {
                    let better = used.len() < best.len()
                        || (used.len() == best.len() && used < best);
                    if better {
                        best = used;
                    }
                    better
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        let mut size = 64usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !attempt!(c) {
                    i += size.max(1);
                }
            }
            size /= 2;
        }
        let mut size = 16usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            // lower one element and drop the one after it
            if i + 1 < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt!(c);
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
