//! Monitoring context of one worker: records the calls made on the code under test, judges them
//! against the oracle, and keeps the counters that end up in the evidence file.
use crate::gen::{mix, Gen};
use crate::model::M;
use baa::*;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

/// payload: the property is violated
pub struct Violation(pub String);

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.downcast_ref::<Violation>().is_some() {
            return;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("{msg} [{loc}]"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}

/// run a call on the code under test; Err = it panicked (message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<Violation>().is_some() {
                resume_unwind(p);
            }
            let mut m = last_panic();
            if m.len() > 400 {
                m.truncate(m.char_indices().take_while(|(i, _)| *i < 400).last().map(|(i, _)| i).unwrap_or(0));
                m.push_str("...");
            }
            Err(m)
        }
    }
}

pub const LARGE: u32 = 20;
pub const BITMAP_LOG2: u32 = 23;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub g: Gen,
    pub prop: &'static str,
    pub stream: u32,
    pub index: u64,
    pub events: HashMap<(&'static str, u8), u64>,
    pub bitmap: Vec<u64>,
    pub evaluations: u64,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    pub open_known: BTreeSet<String>,
    pub digest: u64,
    pub verbose: bool,
    pub slack: bool,
    pub refused: u64,
}

pub fn wclass(w: u32) -> u8 {
    match w {
        0 => 0,
        1 => 1,
        2..=8 => 2,
        9..=63 => 3,
        64 => 4,
        65..=127 => 5,
        128 => 6,
        129..=192 => 7,
        _ if w % 64 == 0 => 8,
        _ if w % 64 == 1 => 9,
        _ if w % 64 == 63 => 10,
        193..=1024 => 11,
        _ => 12,
    }
}
pub const WCLASS: [&str; 13] = ["w0", "w1", "w2-8", "w9-63", "w64", "w65-127", "w128", "w129-192", "w=0mod64", "w=1mod64", "w=63mod64", "w193-1024", "w>1024"];

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, stream: u32, index: u64) -> Ctx {
        Ctx {
            g: Gen::new(case_seed(prop, seed, stream, index)),
            prop,
            stream,
            index,
            events: HashMap::new(),
            bitmap: vec![0; 1 << (BITMAP_LOG2 - 6)],
            evaluations: 0,
            samples: vec![],
            known: BTreeMap::new(),
            open_known: BTreeSet::new(),
            digest: 0,
            verbose: false,
            slack: false,
            refused: 0,
        }
    }
    pub fn start(&mut self, seed: u64, stream: u32, index: u64) {
        self.g = Gen::new(case_seed(self.prop, seed, stream, index));
        self.stream = stream;
        self.index = index;
        self.digest = 0;
    }
    pub fn violate(&self, msg: impl Into<String>) -> ! {
        let mut m: String = msg.into();
        if m.len() > 60_000 {
            let cut = m.char_indices().take_while(|(i, _)| *i < 60_000).last().map(|(i, _)| i).unwrap_or(0);
            m.truncate(cut);
            m.push_str("... (cut)");
        }
        panic_any(Violation(m))
    }
    /// A width up to `max`, or a large one in the stream of large values.
    pub fn width(&mut self, max: u32) -> u32 {
        if self.stream != LARGE {
            return self.g.width(max);
        }
        let top = if max <= 2200 { 14 } else if max <= 6000 { 16 } else { 23 };
        // the largest ones are rare
        let b = if top > 18 && !self.g.chance(8) { self.g.range(12, 18) } else { self.g.range(12, top) };
        let w = (1u64 << b) + self.g.below(1 << b);
        match self.g.below(4) {
            0 => w as u32,
            1 => (w / 64 * 64) as u32,
            2 => (w / 64 * 64 + self.g.below(5) - 2) as u32,
            _ => (1 << b) + self.g.below(5) as u32 - 2,
        }
    }
    #[inline]
    pub fn ev(&mut self, op: &'static str, w: u32) {
        if cfg!(miri) && self.prop == "P03" {
            return; // counted by the native run of the same cases
        }
        *self.events.entry((op, wclass(w))).or_insert(0) += 1;
    }
    /// count a distinct non-trivial case by its hash
    pub fn seen(&mut self, h: u64) {
        let b = (mix(h) >> (64 - BITMAP_LOG2)) as usize;
        self.bitmap[b / 64] |= 1 << (b % 64);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 && (self.index % 97 == 5 || self.samples.is_empty()) {
            let mut s = f();
            if s.len() > 600 {
                let cut = s.char_indices().take_while(|(i, _)| *i < 600).last().map(|(i, _)| i).unwrap_or(0);
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    /// A call that the property says must succeed: a panic is a violation.
    pub fn call<T>(&mut self, op: &'static str, w: u32, desc: &dyn Fn() -> String, f: impl FnOnce() -> T) -> T {
        self.ev(op, w);
        match guarded(f) {
            Ok(v) => v,
            Err(m) => self.violate(format!("{op} panicked: {m} | {}", desc())),
        }
    }
    /// A call that may be refused by a panic.
    pub fn may_refuse<T>(&mut self, op: &'static str, w: u32, f: impl FnOnce() -> T) -> Option<T> {
        self.ev(op, w);
        let r = guarded(f).ok();
        if r.is_none() {
            self.refused += 1;
        }
        r
    }
    pub fn expect(&self, ok: bool, msg: &dyn Fn() -> String) {
        if !ok {
            self.violate(msg());
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&self, op: &str, got: T, want: T, desc: &dyn Fn() -> String) {
        if got != want {
            self.violate(format!("{op}: got {got:?}, expected {want:?} | {}", desc()));
        }
    }
    /// the value equals the model exactly (width, words, unused bits zero)
    pub fn eq_val<V: BitVecOps + ?Sized>(&self, op: &str, got: &V, want: &M, desc: &dyn Fn() -> String) {
        let ww = want.words();
        if got.width() != want.w || got.words() != ww.as_slice() {
            self.violate(format!(
                "{op}: got width {} words {:x?}, expected width {} words {:x?} | {}",
                got.width(),
                got.words(),
                want.w,
                ww,
                desc()
            ));
        }
    }
    /// A deviation with an exact signature that is listed as a known finding is reported but not a violation.
    pub fn finding(&mut self, key: &str, msg: String) {
        if self.open_known.contains(key) {
            let e = self.known.entry(key.to_string()).or_insert((0, msg));
            e.0 += 1;
        } else {
            self.violate(msg);
        }
    }
    pub fn dig(&mut self, h: u64) {
        self.digest = mix(self.digest ^ h).wrapping_add(h);
    }
}

pub fn case_seed(prop: &str, seed: u64, stream: u32, index: u64) -> u64 {
    let mut h = mix(seed ^ 0xbaa);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ stream as u64);
    mix(h ^ index)
}

pub fn hash_words(tag: u64, w: u32, words: &[u64]) -> u64 {
    let mut h = mix(tag ^ ((w as u64) << 32));
    for x in words {
        h = mix(h ^ x);
    }
    h
}

pub fn nontrivial(words: &[u64]) -> bool {
    words.iter().any(|x| *x != 0)
}

/// Build a value holding exactly these words. Two independent routes; if neither works the harness
/// cannot decide anything (error, not a violation).
pub fn mk(w: u32, words: &[u64]) -> BitVecValue {
    let r = guarded(|| {
        let mut v = BitVecValue::zero(w);
        v.words_mut().copy_from_slice(words);
        v
    });
    if let Ok(v) = r {
        if v.width() == w && v.words() == words {
            return v;
        }
    }
    let r = guarded(|| BitVecValue::from(words.get_ref(BitVecValueIndex::new(0, w))));
    if let Ok(v) = r {
        if v.width() == w && v.words() == words {
            return v;
        }
    }
    // third route: assignment into an existing value of that size
    let r = guarded(|| {
        let mut v = BitVecValue::from_bytes_le(&[], w);
        v.words_mut().copy_from_slice(words);
        v
    });
    if let Ok(v) = r {
        if v.width() == w && v.words() == words {
            return v;
        }
    }
    panic!("harness: cannot construct a value of width {w}")
}

pub fn mkm(m: &M) -> BitVecValue {
    mk(m.w, &m.words())
}

pub fn payload_str(p: &Box<dyn Any + Send>) -> String {
    if let Some(v) = p.downcast_ref::<Violation>() {
        return v.0.clone();
    }
    last_panic()
}
