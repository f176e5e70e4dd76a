//! A dictionary for the generators: the constants written in the library's
//! source, as it is now. Values next to them are where its behaviour changes, so
//! numbers are generated near them more often than chance would. This only biases
//! what is generated: no verdict depends on it.

use proptest::prelude::*;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use std::cell::RefCell;
use std::ops::{Range, RangeInclusive};
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    /// in the order of the source
    numbers: Vec<i128>,
    /// those that are not too common to be worth a case of their own
    telling: Vec<i128>,
    words: Vec<String>,
}

fn collect(dir: &Path, files: &mut Vec<std::path::PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        if p.is_dir() {
            collect(&p, files);
        } else if p.extension().is_some_and(|x| x == "rs") {
            files.push(p);
        }
    }
}

fn scan(text: &str, d: &mut Dict) {
    let b = text.as_bytes();
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80;
    let mut i = 0;
    while i < b.len() {
        let rest = &b[i..];
        if rest.starts_with(b"//") {
            i += rest.iter().position(|&c| c == b'\n').unwrap_or(rest.len());
        } else if rest.starts_with(b"r\"") || rest.starts_with(b"r#\"") {
            let (open, close) = if b[i + 1] == b'"' { (2, "\"") } else { (3, "\"#") };
            let Some(n) = text.get(i + open..).and_then(|t| t.find(close)) else { break };
            d.words.push(text[i + open..i + open + n].to_string());
            i += open + n + close.len();
        } else if b[i] == b'"' {
            let mut s = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && i + 1 < b.len() {
                    i += 1;
                    s.push(match b[i] {
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'r' => b'\r',
                        b'0' => 0,
                        c => c,
                    });
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if let Ok(s) = String::from_utf8(s) {
                if !s.is_empty() {
                    d.words.push(s);
                }
            }
        } else if rest.len() > 2 && b[i] == b'\'' && rest[2] == b'\'' && rest[1] != b'\\' {
            d.numbers.push(rest[1].into());
            i += 3;
        } else if b[i].is_ascii_digit() {
            let s: String = rest.iter().take_while(|c| ident(**c)).map(|c| char::from(*c)).collect();
            let t = s.replace('_', "");
            let (radix, t) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let digits: String = t.chars().take_while(|c| c.is_digit(radix)).collect();
            if let Ok(v) = i128::from_str_radix(&digits, radix) {
                d.numbers.push(v);
            }
            i += s.len();
        } else if ident(b[i]) {
            while i < b.len() && ident(b[i]) {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        collect(&Path::new(crate::REPO).join("src"), &mut files);
        files.sort();
        let mut d = Dict::default();
        for f in files {
            let text = std::fs::read_to_string(f).unwrap_or_default();
            let code = text.split("#[cfg(test)]").next().unwrap_or("");
            scan(code, &mut d);
        }
        if d.numbers.is_empty() {
            d.numbers.push(0);
        }
        d.telling = d.numbers.iter().copied().filter(|v| *v > 1).collect();
        if d.telling.is_empty() {
            d.telling.push(2);
        }
        if d.words.is_empty() {
            d.words.push("x".into());
        }
        d
    })
}

struct Focus {
    /// out of 256
    chance: u8,
    near: Vec<i128>,
}
thread_local! {
    static FOCUS: RefCell<Focus> = const { RefCell::new(Focus { chance: 0, near: vec![] }) };
}

fn around(v: i128, to: &mut Vec<i128>) {
    to.extend([v, v - 1, v + 1]);
}

/// What constants the case about to be generated is drawn to: none for half of
/// the cases, all of them for a quarter, and for the others a few which stand
/// together in the source.
pub fn focus(n: u64) {
    let d = dict();
    let n = crate::fw::mix(n);
    FOCUS.with(|f| {
        let f = &mut *f.borrow_mut();
        match n & 3 {
            0 | 1 => f.chance = 0,
            2 => {
                f.chance = 32;
                f.near.clear();
                for v in &d.numbers {
                    around(*v, &mut f.near);
                }
            }
            _ => {
                f.chance = 128;
                f.near.clear();
                let at = (n >> 8) as usize % d.telling.len();
                for v in &d.telling[at..d.telling.len().min(at + 2)] {
                    around(*v, &mut f.near);
                    f.near.extend([*v; 3]);
                    // milliseconds and ticks of the clock
                    f.near.push(v * 90);
                    if n & 0xF0 == 0 {
                        f.near.extend([v * 90 + 89, v * 90_000, v / 90, v * 1000, v * 2, v / 2]);
                    }
                }
            }
        }
    });
}

pub struct Near {
    lo: i128,
    hi: i128,
    now: i128,
}

#[derive(Clone, Debug)]
pub struct Num<T> {
    lo: T,
    hi: T,
    /// range for the values near constants
    wide: (T, T),
}
impl<T> Num<T> {
    /// Values near constants come from this larger range.
    pub fn wide(self, r: impl Into<Num<T>>) -> Self {
        let r = r.into();
        Self { wide: (r.lo, r.hi), ..self }
    }
}

pub struct Tree<T>(Near, std::marker::PhantomData<T>);

macro_rules! num {
    ($($t:ident)*) => { $(
        impl ValueTree for Tree<$t> {
            type Value = $t;
            fn current(&self) -> $t {
                self.0.now as $t
            }
            fn simplify(&mut self) -> bool {
                self.0.simplify()
            }
            fn complicate(&mut self) -> bool {
                self.0.complicate()
            }
        }
        impl Strategy for Num<$t> {
            type Tree = Tree<$t>;
            type Value = $t;
            fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
                let (lo, hi) = (self.lo as i128, self.hi as i128);
                let now = match pick(runner, self.wide.0 as i128, self.wide.1 as i128) {
                    Some(v) => v,
                    None => (self.lo..=self.hi).new_tree(runner)?.current() as i128,
                };
                Ok(Tree(Near::new(lo, hi, now), std::marker::PhantomData))
            }
        }
        impl From<Range<$t>> for Num<$t> {
            fn from(r: Range<$t>) -> Self {
                assert!(r.start < r.end);
                Self { lo: r.start, hi: r.end - 1, wide: (r.start, r.end - 1) }
            }
        }
        impl From<RangeInclusive<$t>> for Num<$t> {
            fn from(r: RangeInclusive<$t>) -> Self {
                assert!(r.start() <= r.end());
                Self { lo: *r.start(), hi: *r.end(), wide: (*r.start(), *r.end()) }
            }
        }
    )* };
}
num!(u8 u16 u32 u64 usize i8 i64);

fn pick(runner: &mut TestRunner, lo: i128, hi: i128) -> Option<i128> {
    FOCUS.with(|f| {
        let f = f.borrow();
        if f.chance == 0 {
            return None;
        }
        let r = runner.rng().next_u32();
        if (r & 0xFF) as u8 >= f.chance {
            return None;
        }
        // a few tries for one that is in the range
        let mut k = (r >> 8) as usize;
        for _ in 0..12 {
            let v = f.near[k % f.near.len()];
            if lo <= v && v <= hi {
                return Some(v);
            }
            k = k.wrapping_mul(0x9E37).wrapping_add(0x79B9) >> 1;
        }
        None
    })
}

impl Near {
    fn new(lo: i128, hi: i128, now: i128) -> Self {
        // towards zero, or the end of the range closest to it
        let aim = 0i128.clamp(lo, hi);
        Self { lo: aim, hi: now, now }
    }
    fn simplify(&mut self) -> bool {
        self.hi = self.now;
        let mid = self.lo + (self.hi - self.lo) / 2;
        let moved = mid != self.now;
        self.now = mid;
        moved
    }
    fn complicate(&mut self) -> bool {
        if self.now == self.hi {
            return false;
        }
        self.lo = if self.hi > self.now { self.now + 1 } else { self.now - 1 };
        let mid = self.lo + (self.hi - self.lo) / 2;
        let moved = mid != self.now;
        self.now = mid;
        moved
    }
}

/// A number of the range, at times near a constant of the source.
pub fn num<T>(r: impl Into<Num<T>>) -> Num<T> {
    r.into()
}
pub fn any8() -> Num<u8> {
    num(0..=u8::MAX)
}
pub fn any16() -> Num<u16> {
    num(0..=u16::MAX)
}
pub fn any32() -> Num<u32> {
    num(0..=u32::MAX)
}
pub fn any64() -> Num<u64> {
    num(0..=u64::MAX)
}

/// A text that stands in the source.
pub fn word() -> impl Strategy<Value = String> {
    any::<prop::sample::Index>().prop_map(|i| {
        let w = &dict().words;
        w[i.index(w.len())].clone()
    })
}
/// The same, of the words for which `f` holds; `or` if there is none.
pub fn word_if(or: &str, f: impl Fn(&str) -> bool) -> impl Strategy<Value = String> {
    let mut w: Vec<String> = dict().words.iter().filter(|w| f(w)).cloned().collect();
    if w.is_empty() {
        w.push(or.to_string());
    }
    prop::sample::select(w)
}
