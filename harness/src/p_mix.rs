//! Programs over the whole API: B01 (canonical form), P01 (both builds agree), V01 (independence,
//! concurrent readers), M01 (no undefined behaviour whatever is called).
use crate::ctx::*;
use crate::gen::{mask_top, Gen};
use crate::model::*;
use crate::ops::{self, MutArgs, Out, Params};
use crate::p_arr::{self, Sub};
use crate::p_store::frame;
use crate::text;
#[allow(unused_imports)]
use crate::shim::*;
use baa::*;
use num_bigint::{BigInt, BigUint};
use std::collections::BTreeSet;
use std::sync::{Arc, Barrier};

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// B01: valid calls, panics belong to other properties
    Canon,
    /// P01: valid calls, panics are violations, every result enters the digest
    Digest,
}

pub fn canonical(w: u32, words: &[u64]) -> bool {
    words.len() == w.div_ceil(64) as usize && (w % 64 == 0 || words.last().map(|x| x >> (w % 64) == 0).unwrap_or(true))
}

struct Arr {
    sub: Sub,
    iw: u32,
    dw: u32,
    /// the default is determined by the program (not chosen by a conversion)
    fixed_default: bool,
}
/// note a step of the history, unless nobody will read it
macro_rules! plog {
    ($p:expr, $($a:tt)*) => {
        if !$p.quiet {
            $p.log.push(format!($($a)*));
        }
    };
}
struct Prog {
    mode: Mode,
    quiet: bool,
    maxw: u32,
    core: bool,
    vals: Vec<BitVecValue>,
    arrs: Vec<Arr>,
    int: ValueInterner,
    idxs: Vec<BitVecValueIndex>,
    log: Vec<String>,
}

impl Prog {
    fn hist(&self) -> String {
        let n = self.log.len();
        if n > 30 {
            format!("... {}", self.log[n - 30..].join("; "))
        } else {
            self.log.join("; ")
        }
    }
    fn canon(&self, c: &mut Ctx, what: &'static str, w: u32, words: &[u64]) {
        c.ev(what, w);
        if self.mode == Mode::Canon && !canonical(w, words) {
            c.violate(format!("{what}: value of width {w} has words {words:x?} | program: {}", self.hist()));
        }
    }
    fn push(&mut self, c: &mut Ctx, what: &'static str, v: BitVecValue) {
        self.canon(c, what, v.width(), v.words());
        if self.mode == Mode::Digest {
            c.dig(hash_words(1, v.width(), v.words()));
        }
        if v.width() == 0 || v.width() > 9000 {
            return;
        }
        if self.vals.len() >= 8 {
            let i = c.g.below(8) as usize;
            self.vals[i] = v;
        } else {
            self.vals.push(v);
        }
    }
    fn run<T>(&self, c: &mut Ctx, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err(m) => {
                if self.mode == Mode::Digest {
                    c.violate(format!("panic on valid use: {m} | program: {}", self.hist()));
                }
                c.refused += 1;
                None
            }
        }
    }
    fn out(&mut self, c: &mut Ctx, what: &'static str, o: Out) {
        if self.mode == Mode::Digest {
            c.dig(o.hash());
        }
        if let Out::Val(w, words) = &o {
            self.canon(c, what, *w, words);
            if *w > 0 && *w <= 9000 && canonical(*w, words) {
                let v = mk(*w, words);
                if self.vals.len() >= 8 {
                    let i = c.g.below(8) as usize;
                    self.vals[i] = v;
                } else {
                    self.vals.push(v);
                }
            }
        } else {
            c.ev(what, 1);
        }
    }
    fn any(&self, c: &mut Ctx) -> BitVecValue {
        let i = c.g.below(self.vals.len() as u64) as usize;
        self.vals[i].clone()
    }
    /// a second operand of the same width
    fn mate(&self, c: &mut Ctx, a: &BitVecValue) -> BitVecValue {
        let same: Vec<&BitVecValue> = self.vals.iter().filter(|v| v.width() == a.width()).collect();
        if !same.is_empty() && c.g.bool() {
            (*c.g.pick(&same)).clone()
        } else {
            let w = a.width();
            let x = c.g.words_or_related(&a.words().to_vec(), w);
            mk(w, &x)
        }
    }
}

fn fitting_u64(g: &mut Gen, w: u32) -> u64 {
    let u = g.word();
    if w < 64 {
        u & ((1 << w) - 1)
    } else {
        u
    }
}
fn fitting_i64(g: &mut Gen, w: u32) -> i64 {
    let i = g.i64ish();
    if w < 64 {
        let s = 64 - w;
        (i << s) >> s
    } else {
        i
    }
}
fn mut_args(g: &mut Gen, w: u32, sloppy: bool) -> MutArgs {
    let radix = *g.pick(&[2u32, 10, 16]);
    MutArgs {
        src: g.words(w),
        u: if sloppy && g.chance(40) { g.word() } else { fitting_u64(g, w) },
        i: if sloppy && g.chance(40) { g.i64ish() } else { fitting_i64(g, w) },
        pos: ops::pos(g, w),
        s: text::any(g, w, radix),
        radix,
    }
}

fn step(c: &mut Ctx, p: &mut Prog) {
    let sloppy = p.mode == Mode::Canon;
    let kind = if p.vals.is_empty() { 0 } else { c.g.below(20) };
    match kind {
        0 => {
            // constructors
            let w = c.width(p.maxw);
            let mut which = c.g.below(10);
            if p.core && (which == 6 || which == 7) {
                which = 5;
            }
            match which {
                0 => {
                    plog!(p, "zero({w})");
                    if let Some(v) = p.run(c, || BitVecValue::zero(w)) {
                        p.push(c, "zero", v);
                    }
                }
                1 => {
                    plog!(p, "ones({w})");
                    if let Some(v) = p.run(c, || BitVecValue::ones(w)) {
                        p.push(c, "ones", v);
                    }
                }
                2 => {
                    let b = c.g.bool();
                    plog!(p, "from_bool({b})");
                    if let Some(v) = p.run(c, || if b { BitVecValue::from(b) } else { BitVecValue::fals() }) {
                        p.push(c, "from_bool", v);
                    }
                }
                3 => {
                    let a = mut_args(&mut c.g, w, sloppy);
                    plog!(p, "from_u64({:#x}, {w})", a.u);
                    if let Some(v) = p.run(c, || BitVecValue::from_u64(a.u, w)) {
                        p.push(c, "from_u64", v);
                    }
                }
                4 => {
                    let a = mut_args(&mut c.g, w, sloppy);
                    plog!(p, "from_i64({}, {w})", a.i);
                    if let Some(v) = p.run(c, || BitVecValue::from_i64(a.i, w)) {
                        p.push(c, "from_i64", v);
                    }
                }
                5 => {
                    let n = c.g.below(w.div_ceil(8) as u64 + 1) as usize;
                    let mut b: Vec<u8> = (0..n).map(|_| c.g.word() as u8).collect();
                    // padding bits in the last byte may be set: reduced modulo 2^width
                    if n == w.div_ceil(8) as usize && c.g.bool() {
                        if let Some(l) = b.last_mut() {
                            *l = 0xff;
                        }
                    }
                    plog!(p, "from_bytes_le({b:x?}, {w})");
                    if let Some(v) = p.run(c, || BitVecValue::from_bytes_le(&b, w)) {
                        p.push(c, "from_bytes_le", v);
                    }
                }
                6 => {
                    let extra = if sloppy && c.g.chance(30) { c.g.below(130) as u32 } else { 0 };
                    let u = big(&c.g.words(w + extra));
                    plog!(p, "from_big_uint({u:#x}, {w})");
                    if let Some(v) = p.run(c, || BitVecValue::from_big_uint(&u, w)) {
                        p.push(c, "from_big_uint", v);
                    }
                    if let Some(v) = p.run(c, || from_uint(&u)) {
                        p.push(c, "From<&BigUint>", v);
                    }
                }
                7 => {
                    let extra = if sloppy && c.g.chance(30) { c.g.below(130) as u32 } else { 0 };
                    let i = M::from_words(w + extra, &c.g.words(w + extra)).int();
                    plog!(p, "from_big_int({i:#x}, {w})");
                    if let Some(v) = p.run(c, || BitVecValue::from_big_int(&i, w)) {
                        p.push(c, "from_big_int", v);
                    }
                    if let Some(v) = p.run(c, || from_int(&i)) {
                        p.push(c, "From<&BigInt>", v);
                    }
                }
                8 => {
                    let radix = *c.g.pick(&[2u32, 10, 16]);
                    let s = text::any(&mut c.g, w, radix);
                    plog!(p, "from_str_radix({s:?}, {radix}, {w})");
                    if let Some(r) = p.run(c, || BitVecValue::from_str_radix(&s, radix, w)) {
                        if p.mode == Mode::Digest {
                            c.dig(r.is_ok() as u64);
                        }
                        if let Ok(v) = r {
                            p.push(c, "from_str_radix", v);
                        }
                    }
                }
                _ => {
                    let radix = *c.g.pick(&[2u32, 16]);
                    let s = text::any(&mut c.g, w, radix);
                    plog!(p, "from {radix} digits {s:?}");
                    if let Some(r) = p.run(c, || if radix == 2 { BitVecValue::from_bit_str(&s) } else { BitVecValue::from_hex_str(&s) }) {
                        if p.mode == Mode::Digest {
                            c.dig(r.is_ok() as u64);
                        }
                        if let Ok(v) = r {
                            p.push(c, "from digits", v);
                        }
                    }
                }
            }
        }
        1..=4 => {
            // two operands of equal width
            let op = c.g.below(ops::BIN.len() as u64) as usize;
            let a = p.any(c);
            if op == 2 && a.width() > 1600 {
                return;
            }
            let b = if (3..=5).contains(&op) && c.g.chance(70) {
                let s = c.g.shift_amount(a.width());
                mk(a.width(), &s)
            } else {
                p.mate(c, &a)
            };
            plog!(p, "{} w={} {:x?} {:x?}", ops::BIN[op], a.width(), a.words(), b.words());
            let view = c.g.bool();
            let fa = frame(&mut c.g, a.width(), &a.words().to_vec());
            let r = p.run(c, || {
                if view {
                    let r: BitVecValueRef = fa.words.as_slice().get_ref(fa.idx);
                    ops::bin(op, &r, &b)
                } else {
                    ops::bin(op, &a, &b)
                }
            });
            if let Some(o) = r {
                p.out(c, ops::BIN[op], o);
            }
        }
        5 => {
            let (a, b) = (p.any(c), p.any(c));
            if a.width() + b.width() > 6000 {
                return;
            }
            plog!(p, "concat w={} {:x?} w={} {:x?}", a.width(), a.words(), b.width(), b.words());
            if let Some(o) = p.run(c, || ops::concat(&a, &b)) {
                p.out(c, "concat", o);
            }
        }
        6..=9 => {
            let mut op = c.g.below(ops::UN.len() as u64) as usize;
            if p.core && ops::OPTIONAL.contains(&op) {
                op = 10;
            }
            let a = p.any(c);
            let q = Params::valid(&mut c.g, a.width());
            if (op == 2 || op == 3) && a.width() + q.by > 6000 {
                return;
            }
            plog!(p, "{} w={} {:x?} {q:?}", ops::UN[op], a.width(), a.words());
            if let Some(o) = p.run(c, || ops::un(op, &a, &q)) {
                p.out(c, ops::UN[op], o);
            }
        }
        10..=12 => {
            // in-place update of a pool member
            let i = c.g.below(p.vals.len() as u64) as usize;
            let w = p.vals[i].width();
            let op = c.g.below(ops::MUT.len() as u64) as usize;
            let a = mut_args(&mut c.g, w, sloppy);
            let via = c.g.below(3);
            plog!(p, "{} w={w} {:x?} args {a:x?}", ops::MUT[op], p.vals[i].words());
            let mut t = p.vals[i].clone();
            let mut fr = frame(&mut c.g, w, &t.words().to_vec());
            let r = p.run(c, || {
                let e = match via {
                    0 => ops::mutate(op, &mut t, &a),
                    1 => ops::mutate(op, &mut BitVecValueMutRef::from(&mut t), &a),
                    _ => {
                        let e = {
                            let mut m: BitVecValueMutRef = fr.words.as_mut_slice().get_mut_ref(fr.idx);
                            ops::mutate(op, &mut m, &a)
                        };
                        t = BitVecValue::from(fr.words.as_slice().get_ref(fr.idx));
                        e
                    }
                };
                (t, e)
            });
            if let Some((t, e)) = r {
                p.canon(c, ops::MUT[op], t.width(), t.words());
                if e {
                    c.ev("failed in-place parse", w);
                }
                if p.mode == Mode::Digest {
                    c.dig(e as u64);
                    if !e {
                        c.dig(hash_words(2, t.width(), t.words()));
                    }
                }
                // what a failed parse leaves behind is not specified beyond being canonical
                if !e || sloppy {
                    p.vals[i] = t;
                }
            }
        }
        13 => {
            let a = p.any(c);
            plog!(p, "copy");
            let b = p.run(c, || {
                let r = BitVecValueRef::from(&a);
                (a.clone(), BitVecValue::from(r), a.cmp(&a.clone()) as i8, a == r)
            });
            if let Some((x, y, o, e)) = b {
                p.push(c, "clone", x);
                p.push(c, "copy of a view", y);
                if p.mode == Mode::Digest {
                    c.dig(o as u64 ^ ((e as u64) << 9));
                }
            }
        }
        14 => {
            let a = p.any(c);
            plog!(p, "intern w={} {:x?}", a.width(), a.words());
            let int = &mut p.int;
            let r = guarded(|| int.get_index(&a));
            let Ok(i) = r else {
                if p.mode == Mode::Digest {
                    c.violate(format!("panic on valid use: {} | program: {}", r.unwrap_err(), p.hist()));
                }
                return;
            };
            p.idxs.push(i);
            let j = *c.g.pick(&p.idxs);
            let v = p.run(c, || BitVecValue::from(p.int.words().get_ref(j)));
            if let Some(v) = v {
                p.push(c, "resolved", v);
            }
        }
        15 => {
            // serialization
            let a = p.any(c);
            plog!(p, "bincode round trip");
            let r = p.run(c, || binary_trip(&a));
            if let Some(Some(v)) = r {
                p.push(c, "deserialized", v);
            }
        }
        _ => arr_step(c, p),
    }
}

fn arr_step(c: &mut Ctx, p: &mut Prog) {
    if p.arrs.is_empty() || (p.arrs.len() < 3 && c.g.chance(15)) {
        let dw = p_arr::data_width(&mut c.g);
        let dense = c.g.bool();
        let iw = if dense { p_arr::dense_index_width(&mut c.g, dw).min(9) } else { p_arr::sparse_index_width(&mut c.g) };
        let d = c.g.words(dw);
        let dv = mk(dw, &d);
        let k = c.g.below(2);
        plog!(p, "new array {iw}->{dw} dense={dense} default {d:x?}");
        let sub = p.run(c, || {
            if dense {
                Sub::A(ArrayValue::new_dense(iw, &dv))
            } else if k == 0 {
                Sub::A(ArrayValue::new_sparse(iw, &dv))
            } else {
                Sub::S(SparseArrayValue::new(iw, &dv))
            }
        });
        if let Some(sub) = sub {
            p.arrs.push(Arr { sub, iw, dw, fixed_default: true });
        }
        return;
    }
    let k = c.g.below(p.arrs.len() as u64) as usize;
    let (iw, dw) = (p.arrs[k].iw, p.arrs[k].dw);
    let i = if iw <= 3 || c.g.bool() { big(&c.g.words(iw)) } else { BigUint::from(c.g.below(4)) };
    let iv = mkm(&M::new(iw, i));
    match c.g.below(12) {
        0..=4 => {
            let same: Vec<&BitVecValue> = p.vals.iter().filter(|v| v.width() == dw).collect();
            let dv = if !same.is_empty() && c.g.bool() {
                (*c.g.pick(&same)).clone()
            } else {
                let x = c.g.words(dw);
                mk(dw, &x)
            };
            plog!(p, "array {k} {iw}->{dw} store {:x?} {:x?}", iv.words(), dv.words());
            let view = c.g.bool();
            let mut s = p.arrs[k].sub.clone();
            if let Some(s) = p.run(c, move || {
                s.store(&iv, &dv, view);
                s
            }) {
                p.arrs[k].sub = s;
            }
        }
        5..=8 => {
            plog!(p, "array {k} {iw}->{dw} select {:x?}", iv.words());
            let view = c.g.bool();
            if let Some(v) = p.run(c, || p.arrs[k].sub.select(&iv, view)) {
                p.push(c, "select", v);
            }
        }
        9 => {
            if c.g.chance(30) {
                plog!(p, "array {k} clear");
                let mut s = p.arrs[k].sub.clone();
                if let Some(s) = p.run(c, move || {
                    s.clear();
                    s
                }) {
                    p.arrs[k].sub = s;
                    p.arrs[k].fixed_default = true;
                }
            } else if iw <= 12 {
                plog!(p, "array {k} make_dense");
                if let Sub::A(a) = &p.arrs[k].sub {
                    let mut a = a.clone();
                    if let Some(a) = p.run(c, move || {
                        a.make_dense();
                        a
                    }) {
                        p.arrs[k].sub = Sub::A(a);
                    }
                }
            }
        }
        10 => {
            plog!(p, "array {k} into sparse");
            if let Sub::A(a) = &p.arrs[k].sub {
                let dense = a.is_dense();
                let a = a.clone();
                if let Some(s) = p.run(c, move || SparseArrayValue::from(a)) {
                    p.arrs[k].sub = Sub::S(s);
                    p.arrs[k].fixed_default &= !dense;
                }
            } else if let Sub::S(s) = &p.arrs[k].sub {
                let r = p.run(c, || (s.default(), s.non_default_entries().collect::<Vec<_>>()));
                if let Some((d, e)) = r {
                    p.canon(c, "default", d.width(), d.words());
                    let mut set = BTreeSet::new();
                    for (x, y) in &e {
                        p.canon(c, "entry index", x.width(), x.words());
                        p.canon(c, "entry data", y.width(), y.words());
                        set.insert((hash_words(3, x.width(), x.words()), hash_words(4, y.width(), y.words())));
                    }
                    if p.mode == Mode::Digest && p.arrs[k].fixed_default {
                        c.dig(hash_words(5, d.width(), d.words()));
                        for (x, y) in set {
                            c.dig(x ^ y.rotate_left(1));
                        }
                    }
                }
            }
        }
        _ => {
            // comparison with a copy, or with another array
            let j = c.g.below(p.arrs.len() as u64) as usize;
            if let (Sub::A(a), Sub::A(b)) = (&p.arrs[k].sub, &p.arrs[j].sub) {
                if (a.is_dense() != b.is_dense()) && iw > 12 {
                    return;
                }
                plog!(p, "array {k} is_equal array {j}");
                if let Some(r) = p.run(c, || (a.is_equal(b), a == b)) {
                    if p.mode == Mode::Digest {
                        c.dig(r.0.map(|x| 1 + x as u64).unwrap_or(0) * 2 + r.1 as u64);
                    }
                }
            }
        }
    }
}

fn program(c: &mut Ctx, mode: Mode, core: bool, most: u64, maxw: u32) {
    let mut p = Prog { mode, core, quiet: cfg!(miri) && !c.verbose, maxw, vals: vec![], arrs: vec![], int: ValueInterner::new(), idxs: vec![], log: vec![] };
    let n = c.g.range(4, most);
    for _ in 0..n {
        c.evaluations += 1;
        let before = c.g.u64();
        c.g = Gen::new(before);
        step(c, &mut p);
        let h = p.log.last().map(|s| s.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))).unwrap_or(0);
        c.seen(h);
    }
    c.sample(|| p.hist());
}

pub const EVERY: u32 = 3;
/// every operation and conversion on one pair of operands
fn every(c: &mut Ctx, core: bool, maxw: u32) {
    let mut p = Prog { mode: Mode::Digest, core, quiet: cfg!(miri) && !c.verbose, maxw, vals: vec![], arrs: vec![], int: ValueInterner::new(), idxs: vec![], log: vec![] };
    let w = c.width(maxw);
    let aw = c.g.words(w);
    let bw = c.g.words_or_related(&aw, w);
    let sw = c.g.shift_amount(w);
    let (a, b, s) = (mk(w, &aw), mk(w, &bw), mk(w, &sw));
    c.evaluations += 1;
    c.seen(hash_words(hash_words(51, w, &aw), w, &bw));
    plog!(p, "w={w} a={aw:x?} b={bw:x?} shift={sw:x?}");
    for op in 0..ops::BIN.len() {
        let r = if (3..=5).contains(&op) { &s } else { &b };
        plog!(p, "{}", ops::BIN[op]);
        if let Some(o) = p.run(c, || ops::bin(op, &a, r)) {
            note(c, ops::BIN[op], w, o);
        }
    }
    plog!(p, "concat");
    if let Some(o) = p.run(c, || ops::concat(&a, &s)) {
        note(c, "concat", w, o);
    }
    let q = Params::valid(&mut c.g, w);
    for op in 0..ops::UN.len() {
        if core && ops::OPTIONAL.contains(&op) {
            continue;
        }
        plog!(p, "{} {q:?}", ops::UN[op]);
        if let Some(o) = p.run(c, || ops::un(op, &a, &q)) {
            note(c, ops::UN[op], w, o);
        }
    }
    // updates in place
    let m = mut_args(&mut c.g, w, false);
    let m = MutArgs { src: bw.clone(), ..m };
    for op in 0..ops::MUT.len() {
        plog!(p, "{} {m:?}", ops::MUT[op]);
        let mut t = a.clone();
        let r = p.run(c, || {
            let e = ops::mutate(op, &mut t, &m);
            (e, t)
        });
        if let Some((e, t)) = r {
            c.dig(e as u64);
            // what a failed parse leaves behind is not specified
            note(c, ops::MUT[op], w, if e { Out::Bool(e) } else { Out::Val(t.width(), t.words().to_vec()) });
        }
    }
    // in from elsewhere
    let bytes: Vec<u8> = (0..c.g.below(w.div_ceil(8) as u64 + 1)).map(|_| c.g.word() as u8).collect();
    plog!(p, "from_bytes_le {bytes:x?}");
    if let Some(v) = p.run(c, || BitVecValue::from_bytes_le(&bytes, w)) {
        note(c, "from_bytes_le", w, Out::Val(v.width(), v.words().to_vec()));
    }
    plog!(p, "from_u64 {:#x} from_i64 {}", m.u, m.i);
    if let Some((x, y)) = p.run(c, || (BitVecValue::from_u64(m.u, w), BitVecValue::from_i64(m.i, w))) {
        note(c, "from_u64", w, Out::Val(x.width(), x.words().to_vec()));
        note(c, "from_i64", w, Out::Val(y.width(), y.words().to_vec()));
    }
    for radix in [2u32, 10, 16] {
        let t = if c.g.bool() { text::fitting(&mut c.g, w, radix) } else { text::any(&mut c.g, w, radix) };
        plog!(p, "from_str_radix {t:?} {radix}");
        if let Some(r) = p.run(c, || (BitVecValue::from_str_radix(&t, radix, w).ok(), if radix == 2 { BitVecValue::from_bit_str(&t).ok() } else { BitVecValue::from_hex_str(&t).ok() })) {
            for v in [r.0, r.1] {
                note(c, "from text", w, v.map(|v| Out::Val(v.width(), v.words().to_vec())).unwrap_or(Out::Bool(false)));
            }
        }
    }
    if !core {
        let (u, i) = (big(&aw), M::from_words(w, &aw).int());
        plog!(p, "from big integers");
        if let Some(vs) = p.run(c, || [BitVecValue::from_big_uint(&u, w), BitVecValue::from_big_int(&i, w), from_uint(&u), from_int(&i)]) {
            for v in vs {
                note(c, "from big integers", w, Out::Val(v.width(), v.words().to_vec()));
            }
        }
        plog!(p, "serialize");
        if let Some(b) = p.run(c, || binary_form(&a)) {
            note(c, "serialize", w, Out::Bytes(b));
        }
    }
    // arrays from slices
    let n = if maxw > 300 && c.g.chance(10) { c.g.below(80) } else { c.g.below(10) } as usize;
    let data: Vec<u64> = (0..n).map(|_| c.g.word()).collect();
    let which = c.g.below(3);
    plog!(p, "array from slice {data:x?} kind {which}");
    let r = p.run(c, || {
        let mut arr = match which {
            0 => ArrayValue::from(data.iter().map(|x| x & 1 == 1).collect::<Vec<_>>().as_slice()),
            1 => ArrayValue::from(data.iter().map(|x| *x as u8).collect::<Vec<_>>().as_slice()),
            _ => ArrayValue::from(data.as_slice()),
        };
        let mut out = vec![arr.index_width() as u64, arr.data_width() as u64, arr.num_elements() as u64, arr.words_per_element() as u64];
        let iw = arr.index_width();
        let all = |arr: &ArrayValue, out: &mut Vec<u64>| {
            for i in 0..(1u64 << iw) {
                let v = arr.select(&BitVecValue::from_u64(i, iw));
                out.extend_from_slice(v.words());
            }
        };
        all(&arr, &mut out);
        let sp = SparseArrayValue::from(arr.clone());
        // which of several equally frequent values becomes the default is not specified
        for i in 0..(1u64 << iw) {
            out.extend_from_slice(sp.select(&BitVecValue::from_u64(i, iw)).words());
        }
        arr.clear();
        all(&arr, &mut out);
        out
    });
    if let Some(o) = r {
        note(c, "array from slice", w, Out::Val(n as u32, o));
    }
    // a sparse array, indices that agree in their low or in their high half
    let iw = match c.g.below(5) {
        0 => 64,
        1 => c.g.range(33, 63) as u32,
        2 => c.g.range(65, 130) as u32,
        3 => c.g.range(1, 32) as u32,
        _ => w,
    };
    let i0 = c.g.words(iw);
    let mut ixs = vec![i0.clone()];
    for low in [0u32, 8, 16, 31, 32, 63, 64] {
        if low < iw {
            let b = c.g.range(low as u64, iw as u64 - 1) as usize;
            let mut i = i0.clone();
            i[b / 64] ^= 1 << (b % 64);
            ixs.push(i);
        }
    }
    let style = c.g.below(4);
    plog!(p, "sparse array {iw} -> {w}, indices {ixs:x?}, style {style}");
    let r = p.run(c, || {
        let mut arr = SparseArrayValue::new(iw, if style & 1 == 0 { &b } else { &s });
        let dense_like = ArrayValue::new_sparse(iw, &b);
        let mut twin = dense_like.clone();
        let mut out = vec![];
        for (k, i) in ixs.iter().enumerate() {
            let i = mk(iw, i);
            if k % 3 != 2 {
                arr.store(&i, if k % 2 == 0 { &a } else { &s });
            }
            if k % 4 == 3 {
                twin.store(&i, &a);
            }
            for j in &ixs {
                let v = arr.select(&mk(iw, j));
                out.extend_from_slice(v.words());
            }
            out.push((twin == dense_like) as u64 + 2 * twin.is_equal(&dense_like).map_or(2, |x| x as u64));
        }
        let mut es: Vec<(Vec<u64>, Vec<u64>)> = arr.non_default_entries().map(|(k, v)| (k.words().to_vec(), v.words().to_vec())).collect();
        es.sort();
        for (k, v) in es {
            out.extend(k);
            out.extend(v);
        }
        out.extend_from_slice(arr.default().words());
        if style & 2 == 0 {
            arr.clear();
            out.push(arr.non_default_entries().count() as u64);
            out.extend_from_slice(arr.select(&mk(iw, &ixs[0])).words());
        }
        out
    });
    if let Some(o) = r {
        note(c, "sparse array", w, Out::Val(iw, o));
    }
    // views into a store
    let n = w.div_ceil(64) as usize;
    let at = c.g.below(5) as usize;
    let gap = c.g.below(3) as usize;
    plog!(p, "views at {at} and {}", at + n + gap);
    let r = p.run(c, || {
        let mut st: Vec<u64> = (0..at + 2 * n + gap + 2).map(|i| i as u64 * 0x0101).collect();
        let (x, y) = (BitVecValueIndex::new(at as u32, w), BitVecValueIndex::new((at + n + gap) as u32, w));
        {
            let mut v: BitVecValueMutRef = st.as_mut_slice().get_mut_ref(x);
            v.assign(&a);
        }
        {
            let (mut v, r): (BitVecValueMutRef, BitVecValueRef) = st.as_mut_slice().get_mut_ref((y, x));
            v.assign(r);
            v.assign_from_u64(1);
            v.set_bit(w - 1);
        }
        let (v, r): (BitVecValueRef, BitVecValueRef) = st.as_slice().get_ref((y, x));
        let sum = v.add(&r);
        st.extend_from_slice(sum.words());
        st
    });
    if let Some(o) = r {
        note(c, "views", w, Out::Val(w, o));
    }
    // interner: the words every index denotes
    plog!(p, "intern");
    let r = p.run(c, || {
        let mut t = ValueInterner::new();
        let idx: Vec<_> = [&a, &b, &s, &a].iter().map(|v| t.get_index(*v)).collect();
        let mut out: Vec<u64> = idx.iter().flat_map(|i| t.words().get_ref(*i).words().to_vec()).collect();
        out.push((idx[0] == idx[1]) as u64 * 2 + (idx[0] == idx[3]) as u64);
        out
    });
    if let Some(o) = r {
        note(c, "intern", w, Out::Val(w, o));
    }
    c.sample(|| p.hist());
}
fn note(c: &mut Ctx, what: &'static str, w: u32, o: Out) {
    c.ev(what, w);
    if c.verbose {
        println!("{what}: {o:?}");
    }
    c.dig(o.hash());
}

pub fn b01(c: &mut Ctx) {
    program(c, Mode::Canon, false, 40, 1500)
}
pub fn p01(c: &mut Ctx) {
    if c.stream == crate::p_bulk::BULK {
        return crate::p_bulk::bulk(c);
    }
    if c.stream == EVERY || (c.stream == LARGE && c.index % 2 == 0) {
        return every(c, false, 1500);
    }
    program(c, Mode::Digest, false, 40, 1500)
}
/// only what the library offers without optional features
pub fn p02(c: &mut Ctx) {
    if c.stream == crate::p_bulk::BULK {
        return crate::p_bulk::bulk(c);
    }
    if c.stream == EVERY || (c.stream == LARGE && c.index % 2 == 0) {
        return every(c, true, 1500);
    }
    program(c, Mode::Digest, true, 40, 1500)
}
/// short programs: they also run in an interpreter of other platforms
pub fn p03(c: &mut Ctx) {
    if c.stream == EVERY {
        return every(c, false, 200);
    }
    program(c, Mode::Digest, false, 16, 300)
}

// ---------------------------------------------------------------- V01
pub const CONC: u32 = 4;
pub const TIGHT: u32 = 5;
#[derive(Clone)]
enum Obj {
    V(BitVecValue, M),
    A(Box<p_arr::AM>, Sub),
    I(ValueInterner, Vec<(M, BitVecValueIndex)>),
}
fn obj_check(c: &mut Ctx, o: &Obj, d: &dyn Fn() -> String) {
    match o {
        Obj::V(v, m) => c.eq_val("value", v, m, d),
        Obj::A(m, s) => {
            let mut probe: Vec<BigUint> = m.map.keys().take(24).cloned().collect();
            if m.iw <= 4 {
                probe.extend((0..1u64 << m.iw).map(BigUint::from));
            } else {
                probe.push(BigUint::from(0u8));
                probe.push(pow2(m.iw) - 1u8);
            }
            for i in &probe {
                let iv = mkm(&M::new(m.iw, i.clone()));
                match guarded(|| s.select(&iv, false)) {
                    Ok(r) => c.eq_val("array element", &r, &m.get(i), &|| format!("index {i:#x} | {}", d())),
                    Err(_) => c.ev("operation panicked", m.dw),
                }
            }
        }
        Obj::I(int, l) => {
            for (m, i) in l {
                match guarded(|| {
                    let r: BitVecValueRef = int.words().get_ref(*i);
                    (r.width(), r.words().to_vec())
                }) {
                    Ok(r) => c.eq("interned value", r, (m.w, m.words()), d),
                    Err(e) => c.violate(format!("resolving an index panicked: {e} | {}", d())),
                }
            }
        }
    }
}
fn obj_mutate(c: &mut Ctx, o: &mut Obj) -> String {
    match o {
        Obj::V(v, m) => {
            let w = m.w;
            let p = ops::pos(&mut c.g, w);
            let src = c.g.words(w);
            let bit = BigUint::from(1u8) << p;
            let op = *c.g.pick(&[0usize, 1, 2, 6, 7]);
            let args = MutArgs { src: src.clone(), u: 0, i: 0, pos: p, s: String::new(), radix: 2 };
            let via = c.g.bool();
            let mut t = v.clone();
            let r = guarded(|| {
                if via {
                    ops::mutate(op, &mut BitVecValueMutRef::from(&mut *v), &args);
                } else {
                    ops::mutate(op, v, &args);
                }
            });
            match r {
                Ok(()) => {
                    m.v = match op {
                        0 => big(&src),
                        1 => BigUint::from(0u8),
                        2 => pow2(w) - 1u8,
                        6 => &m.v | &bit,
                        _ => (&m.v | &bit) ^ &bit,
                    };
                    // exactness of the update itself is another property
                    if v.words() != m.words().as_slice() {
                        m.v = big(v.words());
                        if !canonical(w, v.words()) {
                            std::mem::swap(v, &mut t);
                            m.v = big(v.words());
                        }
                    }
                }
                Err(_) => {
                    *v = t;
                    m.v = big(v.words());
                }
            }
            format!("{} pos {p}", ops::MUT[op])
        }
        Obj::A(m, s) => {
            let mut t = s.clone();
            if c.g.chance(8) {
                if guarded(|| t.clear()).is_ok() {
                    m.clear();
                    *s = t;
                }
                return "clear".into();
            }
            if c.g.chance(8) && m.iw <= 8 {
                if let Sub::A(mut a) = t {
                    if guarded(|| a.make_dense()).is_ok() {
                        *s = Sub::A(a);
                    }
                }
                return "make_dense".into();
            }
            let i = if c.g.bool() && m.iw > 0 { BigUint::from(c.g.below(6)) & (pow2(m.iw) - 1u8) } else { big(&c.g.words(m.iw)) };
            let near = m.def.clone();
            let x = p_arr::data(&mut c.g, m.dw, Some(&near));
            let (iv, dv) = (mkm(&M::new(m.iw, i.clone())), mkm(&M::new(m.dw, x.clone())));
            if guarded(|| t.store(&iv, &dv, false)).is_ok() {
                m.map.insert(i.clone(), x.clone());
                *s = t;
            }
            format!("store {x:#x} at {i:#x}")
        }
        Obj::I(int, l) => {
            if !l.is_empty() && c.g.chance(25) {
                let (m, i) = c.g.pick(l).clone();
                let v = mkm(&m);
                if let Ok(j) = guarded(|| int.get_index(&v)) {
                    c.expect(j == i, &|| format!("a value interned before a copy was made has index {i:?} and now {j:?}: {}", m.hex()));
                }
                return format!("intern {} again", m.hex());
            }
            let wide = c.g.chance(10);
            let w = c.width(if wide { 4000 } else { 260 });
            let m = M::from_words(w, &c.g.words(w));
            let v = mkm(&m);
            if let Ok(i) = guarded(|| int.get_index(&v)) {
                l.push((m.clone(), i));
            }
            format!("intern {}", m.hex())
        }
    }
}
fn obj_new(c: &mut Ctx) -> Obj {
    match c.g.below(5) {
        0 | 1 => {
            let w = c.width(700);
            let x = c.g.words(w);
            Obj::V(mk(w, &x), M::from_words(w, &x))
        }
        2 | 3 => {
            let dw = p_arr::data_width(&mut c.g);
            let kind = c.g.below(3);
            let iw = if kind == 0 { p_arr::dense_index_width(&mut c.g, dw).min(8) } else { p_arr::sparse_index_width(&mut c.g) };
            let def = p_arr::data(&mut c.g, dw, None);
            let dv = mkm(&M::new(dw, def.clone()));
            let s = match kind {
                0 => Sub::A(ArrayValue::new_dense(iw, &dv)),
                1 => Sub::A(ArrayValue::new_sparse(iw, &dv)),
                _ => Sub::S(SparseArrayValue::new(iw, &dv)),
            };
            Obj::A(Box::new(p_arr::AM { iw, dw, def, map: Default::default() }), s)
        }
        _ => Obj::I(ValueInterner::new(), vec![]),
    }
}
pub fn v01(c: &mut Ctx) {
    match c.stream {
        CONC => return v01_conc(c),
        TIGHT => return v01_tight(c),
        COLD => return v01_cold(c),
        PURE => return v01_pure(c),
        _ => {}
    }
    let mut objs = vec![obj_new(c), obj_new(c)];
    let mut log: Vec<String> = vec![];
    let n = c.g.range(4, 30);
    for _ in 0..n {
        c.evaluations += 1;
        let k = c.g.below(objs.len() as u64) as usize;
        match c.g.below(10) {
            0 | 1 if objs.len() < 6 => {
                // a clone, a converted copy, or a value taken out of an array
                let o = match (&objs[k], c.g.below(4)) {
                    (Obj::V(v, m), 0) => Obj::V(BitVecValue::from(BitVecValueRef::from(v)), m.clone()),
                    (Obj::A(m, Sub::A(a)), 0) => match guarded(|| SparseArrayValue::from(a.clone())) {
                        Ok(s) => Obj::A(m.clone(), Sub::S(s)),
                        Err(_) => objs[k].clone(),
                    },
                    (Obj::A(m, s), 1) => {
                        let i = m.map.keys().next().cloned().unwrap_or_default();
                        let iv = mkm(&M::new(m.iw, i.clone()));
                        match guarded(|| s.select(&iv, false)) {
                            Ok(v) => Obj::V(v, m.get(&i)),
                            Err(_) => objs[k].clone(),
                        }
                    }
                    (Obj::A(m, Sub::A(a)), 2) if m.iw <= 8 => {
                        let mut b = a.clone();
                        match guarded(|| b.make_dense()) {
                            Ok(()) => Obj::A(m.clone(), Sub::A(b)),
                            Err(_) => objs[k].clone(),
                        }
                    }
                    (o, _) => (*o).clone(),
                };
                log.push(format!("object {} copied from {k}", objs.len()));
                c.ev("copy", 1);
                objs.push(o);
            }
            2 => {
                // a deep overwrite from a clone
                let j = c.g.below(objs.len() as u64) as usize;
                let over = c.g.bool();
                let src = objs[k].clone();
                match (&mut objs[j], &src) {
                    (Obj::V(t, tm), Obj::V(s, sm)) if over => {
                        t.clone_from(s);
                        *tm = sm.clone();
                    }
                    (Obj::A(tm, Sub::A(t)), Obj::A(sm, Sub::A(s))) if over => {
                        t.clone_from(s);
                        *tm = sm.clone();
                    }
                    (Obj::A(tm, Sub::S(t)), Obj::A(sm, Sub::S(s))) if over => {
                        t.clone_from(s);
                        *tm = sm.clone();
                    }
                    (Obj::I(t, tl), Obj::I(s, sl)) if over => {
                        t.clone_from(s);
                        *tl = sl.clone();
                    }
                    (t, s) => *t = (*s).clone(),
                }
                log.push(format!("object {j} replaced by a clone of {k}{}", if over { " (clone_from)" } else { "" }));
                c.ev("copy", 1);
            }
            _ => {
                let mut o = std::mem::replace(&mut objs[k], Obj::I(ValueInterner::new(), vec![]));
                let what = obj_mutate(c, &mut o);
                objs[k] = o;
                c.ev("mutation", 1);
                c.seen(what.bytes().fold(k as u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
                log.push(format!("object {k}: {what}"));
            }
        }
        for (j, o) in objs.iter().enumerate() {
            let d = || format!("object {j} after {:?}", &log[log.len().saturating_sub(25)..]);
            obj_check(c, o, &d);
        }
    }
    c.sample(|| log.join("; "));
}

struct Shared {
    vals: Vec<BitVecValue>,
    mates: Vec<BitVecValue>,
    pars: Vec<Params>,
    arrs: Vec<(Sub, Vec<BitVecValue>)>,
    other: Vec<ArrayValue>,
    int: ValueInterner,
    idxs: Vec<BitVecValueIndex>,
    store: Vec<u64>,
}
// Reading from several threads is what the property is about; this wrapper only keeps the harness
// compiling whatever the types' own Sync-ness is.
struct AssertSync<T>(T);
unsafe impl<T> Sync for AssertSync<T> {}
unsafe impl<T> Send for AssertSync<T> {}

const READS: usize = 44 + 10;
fn read_op(s: &Shared, op: usize, k: usize) -> u64 {
    let nb = ops::BIN.len();
    let nu = ops::UN.len();
    let i = k % s.vals.len();
    let r = guarded(|| {
        if op < nb {
            ops::bin(op, &s.vals[i], &s.mates[i]).hash()
        } else if op < nb + nu {
            ops::un(op - nb, &s.vals[i], &s.pars[i]).hash()
        } else {
            match op - nb - nu {
                0 => {
                    let (a, ix) = &s.arrs[k % s.arrs.len()];
                    let v = a.select(&ix[k % ix.len()], k % 2 == 0);
                    hash_words(1, v.width(), v.words())
                }
                1 => {
                    let (a, _) = &s.arrs[k % s.arrs.len()];
                    match a {
                        Sub::A(a) => {
                            let b = &s.other[k % s.arrs.len()];
                            a.is_equal(b).map(|x| 1 + x as u64).unwrap_or(0) + 10 * (a.clone() == *b) as u64
                        }
                        Sub::S(a) => {
                            let mut h = 0u64;
                            for (x, y) in a.non_default_entries() {
                                h = h.wrapping_add(hash_words(hash_words(2, x.width(), x.words()), y.width(), y.words()));
                            }
                            let d = a.default();
                            h ^ hash_words(3, d.width(), d.words())
                        }
                    }
                }
                2 => {
                    let r: BitVecValueRef = s.int.words().get_ref(s.idxs[k % s.idxs.len()]);
                    hash_words(4, r.width(), r.words())
                }
                3 => {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    s.vals[i].hash(&mut h);
                    let a = h.finish();
                    a ^ (s.vals[i].cmp(&s.mates[i]) as i8 as u64) ^ ((s.vals[i] == s.mates[i]) as u64) << 7
                }
                4 => {
                    let w = s.vals[i].width().min(64 * s.store.len() as u32);
                    let r: BitVecValueRef = s.store.as_slice().get_ref(BitVecValueIndex::new(0, w / 64 * 64));
                    let v = BitVecValue::from(r);
                    hash_words(5, v.width(), v.words())
                }
                5 => {
                    // a clone is changed, the shared original is not
                    let mut v = s.vals[i].clone();
                    v.assign_ones();
                    let h = hash_words(6, v.width(), v.words());
                    v.assign(&s.mates[i]);
                    v.set_bit(0);
                    hash_words(hash_words(h, v.width(), v.words()), s.vals[i].width(), s.vals[i].words())
                }
                6 => {
                    // a value is made again from its text
                    let w = s.vals[i].width();
                    let radix = [2u32, 10, 16][k % 3];
                    let text = match radix {
                        2 => s.vals[i].to_bit_str(),
                        10 => s.vals[i].to_dec_str(),
                        _ => s.vals[i].to_hex_str(),
                    };
                    let v = BitVecValue::from_str_radix(&text, radix, w);
                    v.map(|v| hash_words(7, v.width(), v.words())).unwrap_or(1)
                }
                7 => {
                    // and from its bytes and numbers
                    let w = s.vals[i].width();
                    let v = BitVecValue::from_bytes_le(&s.vals[i].to_bytes_le(), w);
                    let u = BitVecValue::from_big_uint(&s.vals[i].to_big_uint(), w);
                    let n = BitVecValue::from_big_int(&s.vals[i].to_big_int(), w);
                    let x = BitVecValue::from_i64(-1, w);
                    let h = hash_words(hash_words(8, v.width(), v.words()), u.width(), u.words());
                    hash_words(hash_words(h, n.width(), n.words()), x.width(), x.words())
                }
                8 => {
                    // a copy of an array is changed, the shared original is not
                    let (a, ix) = &s.arrs[k % s.arrs.len()];
                    let j = &ix[k % ix.len()];
                    let mut b = a.clone();
                    let old = a.select(j, false);
                    b.store(j, &old.not(), false);
                    let (x, y) = (b.select(j, true), a.select(j, true));
                    b.clear();
                    let z = b.select(j, false);
                    hash_words(hash_words(hash_words(9, x.width(), x.words()), y.width(), y.words()), z.width(), z.words())
                }
                _ => {
                    let (a, _) = &s.arrs[k % s.arrs.len()];
                    match a.clone() {
                        Sub::A(a) => {
                            let sp = SparseArrayValue::from(a);
                            (sp.index_width() as u64) << 32 | sp.data_width() as u64
                        }
                        Sub::S(b) => binary_len(&b),
                    }
                }
            }
        }
    });
    r.unwrap_or(0xdead)
}
/// can the type be shared between threads and moved to them? (compiles either way)
mod auto_traits {
    use std::marker::PhantomData;
    pub struct Ask<T>(pub PhantomData<T>);
    #[allow(dead_code)]
    pub trait No {
        fn is_sync(&self) -> bool {
            false
        }
    }
    impl<T> No for &Ask<T> {}
    pub struct AskSend<T>(pub PhantomData<T>);
    #[allow(dead_code)]
    pub trait NoSend {
        fn is_send(&self) -> bool {
            false
        }
    }
    impl<T> NoSend for &AskSend<T> {}
    impl<T: Sync> Ask<T> {
        pub fn is_sync(&self) -> bool {
            true
        }
    }
    impl<T: Send> AskSend<T> {
        pub fn is_send(&self) -> bool {
            true
        }
    }
}
fn v01_types(c: &mut Ctx) {
    #[allow(unused_imports)]
    use auto_traits::*;
    use std::marker::PhantomData;
    macro_rules! ask {
        ($($t:ty),*) => {$(
            c.ev("type shared between threads", 1);
            c.expect((&Ask::<$t>(PhantomData)).is_sync(), &|| format!("{} cannot be shared between threads", stringify!($t)));
            c.expect((&AskSend::<$t>(PhantomData)).is_send(), &|| format!("{} cannot be moved to another thread", stringify!($t)));
        )*};
    }
    ask!(BitVecValue, BitVecValueRef<'static>, ArrayValue, SparseArrayValue, Value, ValueInterner, BitVecValueIndex);
}

fn shared(c: &mut Ctx) -> Option<Arc<AssertSync<Shared>>> {
    let mut vals: Vec<BitVecValue> = vec![];
    let mut mates: Vec<BitVecValue> = vec![];
    let mut pars: Vec<Params> = vec![];
    // the values of a family differ little from each other: whatever a result is remembered under tells them apart or not
    let family = c.g.chance(40);
    for k in 0..6 {
        let w = if family && k > 0 { vals[0].width() } else { c.width(700) };
        let kin = |c: &mut Ctx, l: &[BitVecValue]| {
            let mut x = c.g.related(l[0].words(), w);
            if x.len() > 2 && c.g.bool() {
                // the same first and last word
                x.copy_from_slice(l[0].words());
                let at = c.g.range(1, x.len() as u64 - 2) as usize;
                x[at] = c.g.word();
            }
            x
        };
        let a = if family && k > 0 { kin(c, &vals) } else { c.g.words(w) };
        let b = if !family || k == 0 {
            c.g.shift_amount(w)
        } else if k % 2 == 0 {
            mates[0].words().to_vec()
        } else {
            kin(c, &mates)
        };
        vals.push(mk(w, &a));
        mates.push(mk(w, &b));
        let mut p = if family && k > 0 && k < 4 { pars[0].clone() } else { Params::valid(&mut c.g, w) };
        p.fw = p.fw.min(63);
        pars.push(p);
        c.seen(hash_words(40, w, &a));
    }
    let mut arrs = vec![];
    let mut other = vec![];
    for kind in 0..4 {
        let dw = [1u32, 8, 64, 100][c.g.below(4) as usize];
        let iw = if kind == 3 { 80 } else { c.g.range(2, 6) as u32 };
        let def = mk(dw, &c.g.words(dw));
        let mut a = match kind {
            0 => Sub::A(ArrayValue::new_dense(iw, &def)),
            1 => Sub::A(ArrayValue::new_sparse(iw, &def)),
            _ => Sub::S(SparseArrayValue::new(iw, &def)),
        };
        let mut ix = vec![];
        for _ in 0..8 {
            let i = mk(iw, &c.g.words(iw));
            let d = mk(dw, &c.g.words(dw));
            let _ = guarded(|| a.store(&i, &d, false));
            ix.push(i);
        }
        other.push(if let Sub::A(a) = &a { a.clone() } else { ArrayValue::new_sparse(iw, &def) });
        arrs.push((a, ix));
    }
    let mut int = ValueInterner::new();
    let idxs: Vec<BitVecValueIndex> = vals.iter().filter_map(|v| guarded(|| int.get_index(v)).ok()).collect();
    if idxs.is_empty() {
        return None;
    }
    let store: Vec<u64> = (0..12).map(|_| c.g.u64()).collect();
    Some(Arc::new(AssertSync(Shared { vals, mates, pars, arrs, other, int, idxs, store })))
}

fn read_name(o: usize) -> String {
    let nb = ops::BIN.len();
    if o < nb {
        ops::BIN[o].to_string()
    } else if o < nb + ops::UN.len() {
        ops::UN[o - nb].to_string()
    } else {
        format!("shared read {}", o - nb - ops::UN.len())
    }
}

pub const PURE: u32 = 7;
/// What every call returns, made forwards or backwards.
pub fn pure_list(seed: u64, back: bool) -> Vec<u64> {
    let mut c = Ctx::new("V01", seed, PURE, seed);
    let Some(s) = shared(&mut c) else { return vec![] };
    let mut calls: Vec<usize> = (0..READS * 12).collect();
    if back {
        calls.reverse();
    }
    let mut out = vec![0; calls.len()];
    for q in calls {
        out[q] = read_op(&s.0, q / 12, q % 12);
    }
    out
}
/// Results depend on nothing but the operands: a process that has made many calls before and a fresh one that makes
/// the same calls in the opposite order return the same.
fn v01_pure(c: &mut Ctx) {
    if cfg!(miri) {
        return;
    }
    let seed = c.g.u64() >> 8;
    c.evaluations += 1;
    let here = pure_list(seed, false);
    let exe = std::env::current_exe().expect("harness: own path");
    let o = std::process::Command::new(exe).args(["cold", "--backwards", "1", "--seed", &seed.to_string()]).output().expect("harness: starting a process");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let there: Vec<u64> = text.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
    if o.status.code() != Some(0) || there.len() != here.len() {
        panic!("harness: the process ended with {:?} and {} of {} results: {}", o.status, there.len(), here.len(), String::from_utf8_lossy(&o.stderr));
    }
    for q in 0..here.len() {
        if here[q] != there[q] {
            c.violate(format!("{} returned {:x} here and {:x} in a fresh process that made the same calls in another order (operand {}, seed {seed})", read_name(q / 12), here[q], there[q], q % 12));
        }
    }
    *c.events.entry(("call repeated in a fresh process in another order", 1)).or_insert(0) += here.len() as u64;
    c.seen(hash_words(47, 0, &[seed]));
    c.sample(|| format!("{} calls, fresh process, seed {seed}", here.len()));
}

pub const COLD: u32 = 6;
/// First uses: a fresh process in which several threads make the same call at the same moment before anyone else has
/// made it. Whatever the library sets up lazily is set up then. Sequential results are taken afterwards.
pub fn cold(seed: u64) -> Result<usize, String> {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let mut c = Ctx::new("V01", seed, COLD, seed);
    let Some(s) = shared(&mut c) else { return Ok(0) };
    let threads = 2 + (seed % 4) as usize;
    let mut order: Vec<usize> = (0..READS).collect();
    for i in 0..READS {
        let j = c.g.range(i as u64, READS as u64 - 1) as usize;
        order.swap(i, j);
    }
    let ks: Vec<usize> = (0..READS).map(|_| c.g.below(12) as usize).collect();
    let same = c.g.bool();
    let k_of = move |q: usize, t: usize| if same { q } else { q + t % 2 };
    let arrived = Arc::new(AtomicUsize::new(0));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (s, order, ks, arrived) = (s.clone(), order.clone(), ks.clone(), arrived.clone());
            std::thread::spawn(move || {
                let sh: &AssertSync<Shared> = &s;
                let mut out = vec![];
                for (n, o) in order.iter().enumerate() {
                    // all threads set out together
                    arrived.fetch_add(1, SeqCst);
                    let mut spins = 0u32;
                    while arrived.load(SeqCst) < (n + 1) * threads {
                        spins += 1;
                        if spins > 2000 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    // (a thread that panics still has to arrive, or the others would wait for ever)
                    out.push(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read_op(&sh.0, *o, k_of(ks[n], t)))).map_err(|p| payload_str(&p)));
                }
                out
            })
        })
        .collect();
    let outs: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
    for (t, o) in outs.into_iter().enumerate() {
        let Ok(o) = o else { return Err(format!("reader thread {t} died")) };
        for (n, op) in order.iter().enumerate() {
            let want = read_op(&s.0, *op, k_of(ks[n], t));
            let got = match &o[n] {
                Ok(x) => *x,
                Err(m) => return Err(format!("thread {t} of {threads}: {} panicked at its first use by several threads ({m}) and not later (operand {}, call {n})", read_name(*op), k_of(ks[n], t))),
            };
            if got != want {
                return Err(format!("thread {t} of {threads}: {} returned {:x} at its first use by several threads and {want:x} later (operand {}, call {n})", read_name(*op), got, k_of(ks[n], t)));
            }
        }
    }
    Ok(threads * READS)
}
fn v01_cold(c: &mut Ctx) {
    if cfg!(miri) {
        return;
    }
    let seed = c.g.u64() >> 8;
    c.evaluations += 1;
    let exe = std::env::current_exe().expect("harness: own path");
    let o = std::process::Command::new(exe).args(["cold", "--seed", &seed.to_string()]).output().expect("harness: starting a process");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    match o.status.code() {
        Some(0) => {
            let n: u64 = text.trim().parse().expect("harness: answer of the process");
            *c.events.entry(("first use by several threads", 1)).or_insert(0) += n;
            c.seen(hash_words(46, 0, &[seed]));
        }
        Some(1) => c.violate(format!("{} (fresh process, seed {seed})", text.trim())),
        s => panic!("harness: the process ended with {s:?}: {}", String::from_utf8_lossy(&o.stderr)),
    }
    c.sample(|| format!("fresh process, seed {seed}"));
}

/// few different calls, repeated many times by several threads at once: narrow windows get hit
fn v01_tight(c: &mut Ctx) {
    c.evaluations += 1;
    v01_types(c);
    let Some(s) = shared(c) else { return };
    let threads = c.g.range(3, 8) as usize;
    let n = if cfg!(miri) { 4 } else { 1500 };
    let kinds: Vec<usize> = (0..c.g.range(1, 2)).map(|_| c.g.below(READS as u64) as usize).collect();
    let calls: Vec<(usize, usize)> = (0..12).flat_map(|k| kinds.iter().map(move |o| (*o, k))).collect();
    let want: Vec<u64> = calls.iter().map(|(o, k)| read_op(&s.0, *o, *k)).collect();
    let before = snapshot(&s.0);
    let barrier = Arc::new(Barrier::new(threads));
    // every thread keeps to its own operands for a while, so that neighbours differ
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (s, b, calls, want) = (s.clone(), barrier.clone(), calls.clone(), want.clone());
            std::thread::spawn(move || {
                let sh: &AssertSync<Shared> = &s;
                b.wait();
                for r in 0..n {
                    let q = (t * 5 + r / 48) % calls.len();
                    let x = read_op(&sh.0, calls[q].0, calls[q].1);
                    if x != want[q] {
                        return Some((q, x));
                    }
                }
                None
            })
        })
        .collect();
    for (t, h) in handles.into_iter().enumerate() {
        match h.join() {
            Ok(None) => *c.events.entry(("concurrent read, tight", 1)).or_insert(0) += n as u64,
            Ok(Some((q, x))) => c.violate(format!(
                "thread {t}: {} returned {x:x} concurrently but {:x} sequentially (operand {})",
                read_name(calls[q].0),
                want[q],
                calls[q].1
            )),
            Err(_) => c.violate(format!("reader thread {t} died")),
        }
    }
    c.eq("shared objects after concurrent reads", snapshot(&s.0), before, &|| "snapshot".into());
}

fn v01_conc(c: &mut Ctx) {
    c.evaluations += 1;
    let Some(s) = shared(c) else { return };
    let threads = c.g.range(2, 6) as usize;
    let rounds = 2;
    // the calls, in a random order; each call is also made sequentially
    let calls: Vec<(usize, usize)> = (0..60).map(|_| (c.g.below(READS as u64) as usize, c.g.below(12) as usize)).collect();
    let before = snapshot(&s.0);
    // sequential results are taken after the concurrent phase for half of the cases, so that the
    // concurrent readers also meet first uses
    let seq_first = c.g.bool();
    let mut want: Vec<u64> = vec![];
    if seq_first {
        want = calls.iter().map(|(o, k)| read_op(&s.0, *o, *k)).collect();
    }
    let barrier = Arc::new(Barrier::new(threads));
    let same_order = c.g.bool();
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (s, b, calls) = (s.clone(), barrier.clone(), calls.clone());
            std::thread::spawn(move || {
                let sh: &AssertSync<Shared> = &s;
                let mut out = vec![0u64; calls.len()];
                let mut bad = None;
                b.wait();
                for r in 0..rounds {
                    for j in 0..calls.len() {
                        let q = if same_order { j } else { (j * 7 + t * 13 + r) % calls.len() };
                        let x = read_op(&sh.0, calls[q].0, calls[q].1);
                        if r > 0 && x != out[q] && bad.is_none() {
                            bad = Some(q);
                        }
                        out[q] = x;
                    }
                }
                (out, bad)
            })
        })
        .collect();
    let outs: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
    if !seq_first {
        want = calls.iter().map(|(o, k)| read_op(&s.0, *o, *k)).collect();
    }
    let name = |q: usize| read_name(calls[q].0);
    for (t, o) in outs.into_iter().enumerate() {
        let (out, bad) = match o {
            Ok(x) => x,
            Err(_) => c.violate(format!("reader thread {t} died")),
        };
        if let Some(q) = bad {
            c.violate(format!("thread {t}: {} returned different results in two rounds", name(q)));
        }
        for q in 0..calls.len() {
            c.ev("concurrent read", 1);
            // gcd(7, len) = 1 for 60 calls: every call was made by every thread
            if out[q] != want[q] {
                c.violate(format!("thread {t}: {} returned {:x} concurrently but {:x} sequentially (operand {})", name(q), out[q], want[q], calls[q].1));
            }
        }
    }
    c.eq("shared objects after concurrent reads", snapshot(&s.0), before, &|| "snapshot".into());
    c.sample(|| format!("{threads} threads x {} calls", calls.len() * rounds));
}
fn snapshot(s: &Shared) -> u64 {
    let mut h = 0u64;
    for v in s.vals.iter().chain(&s.mates) {
        h = hash_words(h, v.width(), v.words());
    }
    for (a, ix) in &s.arrs {
        for i in ix {
            if let Ok(v) = guarded(|| a.select(i, false)) {
                h = hash_words(h, v.width(), v.words());
            }
        }
    }
    hash_words(h, 0, s.int.words())
}

// ---------------------------------------------------------------- M01
/// a user-defined bit-vector whose width and words need not agree
struct Fake {
    w: u32,
    words: Vec<u64>,
}
impl BitVecOps for Fake {
    fn width(&self) -> WidthInt {
        self.w
    }
    fn words(&self) -> &[Word] {
        &self.words
    }
}
impl BitVecMutOps for Fake {
    fn words_mut(&mut self) -> &mut [Word] {
        &mut self.words
    }
}
fn wild_width(g: &mut Gen) -> u32 {
    match g.below(8) {
        0 => 0,
        1 => 64 * g.below(5) as u32,
        2 => 64 * g.below(5) as u32 + 1,
        _ => g.below(300) as u32,
    }
}
fn wild_pos(g: &mut Gen, w: u32) -> u32 {
    match g.below(8) {
        0 => w,
        1 => w.wrapping_sub(1),
        2 => w + g.below(130) as u32,
        3 => *g.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16, 63, 64, 65, 127, 128]),
        4 => w.div_ceil(64) * 64 + g.below(3) as u32,
        _ => g.below(w as u64 + 1) as u32,
    }
}
/// extension amounts: small, or so large that the sum of widths wraps around to something small
fn wild_by(g: &mut Gen, w: u32) -> u32 {
    if g.chance(10) {
        (u32::MAX - w).wrapping_add(g.below(100) as u32 + 1)
    } else {
        g.below(400) as u32
    }
}
fn wild_words(g: &mut Gen, n: usize) -> Vec<u64> {
    (0..n).map(|_| g.word()).collect()
}
fn wild_value(g: &mut Gen) -> BitVecValue {
    let w = wild_width(g);
    let mut x = wild_words(g, w.div_ceil(64) as usize);
    if g.chance(80) {
        mask_top(&mut x, w);
    }
    mk(w, &x)
}
fn wild_fake(g: &mut Gen, near: u32) -> Fake {
    let w = if g.bool() { near } else { wild_width(g) };
    let n = match g.below(4) {
        0 => w.div_ceil(64) as usize,
        1 => 0,
        2 => (w.div_ceil(64) as usize).saturating_sub(1),
        _ => g.below(7) as usize,
    };
    Fake { w, words: wild_words(g, n) }
}
fn hostile<T>(c: &mut Ctx, op: &'static str, w: u32, f: impl FnOnce() -> T) -> Option<T> {
    c.ev(op, w);
    let r = guarded(f);
    if r.is_err() {
        c.refused += 1;
    }
    r.ok()
}
#[cfg_attr(not(feature = "full"), allow(dead_code))]
fn scramble(g: &mut Gen, v: &mut serde_json::Value, depth: u32) {
    use serde_json::Value as J;
    match v {
        J::Number(n) => {
            if g.chance(if depth > 3 { 10 } else { 35 }) {
                let x = n.as_u64().unwrap_or(0);
                let small = x <= 300;
                *v = if small { J::from(*g.pick(&[0u64, 1, 2, 3, 8, 9, x + 1, x.saturating_sub(1), 64, 65, 128, 200])) } else { J::from(g.word()) };
            }
        }
        J::Array(a) => {
            if g.chance(25) && !a.is_empty() {
                let i = g.below(a.len() as u64) as usize;
                if g.bool() {
                    a.remove(i);
                } else {
                    let x = a[i].clone();
                    a.push(x);
                }
            }
            for x in a.iter_mut() {
                scramble(g, x, depth + 1);
            }
        }
        J::Object(o) => {
            let ks: Vec<String> = o.keys().cloned().collect();
            for k in ks {
                if let Some(x) = o.get_mut(&k) {
                    scramble(g, x, depth + 1);
                }
            }
        }
        _ => {}
    }
}
fn densifiable(iw: u32) -> bool {
    iw <= 12 || (iw >= 64 && iw % 64 <= 12)
}
pub fn m01(c: &mut Ctx) {
    let n = c.g.range(3, 16);
    let mut vals: Vec<BitVecValue> = (0..3).map(|_| wild_value(&mut c.g)).collect();
    let mut store: Vec<u64> = {
        let n = c.g.below(9) as usize;
        wild_words(&mut c.g, n)
    };
    let mut int = ValueInterner::new();
    let mut arrs: Vec<Sub> = vec![];
    let mut log: Vec<String> = vec![];
    for _ in 0..n {
        c.evaluations += 1;
        let s0 = c.g.u64();
        c.g = Gen::new(s0);
        let i = c.g.below(vals.len() as u64) as usize;
        let j = c.g.below(vals.len() as u64) as usize;
        let (a, mut b) = (vals[i].clone(), vals[j].clone());
        if c.g.chance(50) {
            // equal width after all, so that operations get past their width checks
            let x = wild_words(&mut c.g, a.words().len());
            // (the width of `a` may disagree with its words after a damaged deserialization)
            b = a.clone();
            b.words_mut().copy_from_slice(&x);
        }
        let (wa, wb) = (a.width(), b.width());
        let mut out: Option<Out> = None;
        let mut newv: Option<BitVecValue> = None;
        let what: String = match c.g.below(17) {
            0..=2 => {
                let op = c.g.below(ops::BIN.len() as u64) as usize;
                let form = c.g.below(4);
                let (fa, fb) = (wild_fake(&mut c.g, wb), wild_fake(&mut c.g, wa));
                out = hostile(c, ops::BIN[op], wa, || match form {
                    0 => ops::bin(op, &a, &b),
                    1 => ops::bin(op, &fa, &b),
                    2 => ops::bin(op, &a, &fb),
                    _ => ops::bin(op, &fa, &fb),
                });
                format!("{} form {form} {wa} {wb} fake {}:{} {}:{}", ops::BIN[op], fa.w, fa.words.len(), fb.w, fb.words.len())
            }
            3 => {
                let fb = wild_fake(&mut c.g, wa);
                let form = c.g.below(3);
                out = hostile(c, "concat", wa, || match form {
                    0 => ops::concat(&a, &b),
                    1 => ops::concat(&a, &fb),
                    _ => ops::concat(&fb, &a),
                });
                format!("concat form {form} {wa} {wb} fake {}:{}", fb.w, fb.words.len())
            }
            4..=6 => {
                let op = c.g.below(ops::UN.len() as u64) as usize;
                let fa = wild_fake(&mut c.g, wa);
                let form = c.g.bool();
                let w = if form { wa } else { fa.w };
                let p = Params { msb: wild_pos(&mut c.g, w), lsb: wild_pos(&mut c.g, w), pos: wild_pos(&mut c.g, w), by: wild_by(&mut c.g, w), fw: wild_pos(&mut c.g, w) };
                // results of gigantic size are resource exhaustion, not what is looked for here
                let p = if op == 0 && p.msb < p.lsb && c.g.below(400) != 0 { Params { msb: p.lsb, lsb: p.msb, ..p } } else { p };
                let p = if op == 0 && p.msb >= p.lsb && p.msb - p.lsb > 100_000 { Params { msb: p.lsb.wrapping_add(70), ..p } } else { p };
                out = hostile(c, ops::UN[op], w, || if form { ops::un(op, &a, &p) } else { ops::un(op, &fa, &p) });
                format!("{} {form} {wa} fake {}:{} {p:?}", ops::UN[op], fa.w, fa.words.len())
            }
            7 | 8 => {
                let op = c.g.below(ops::MUT.len() as u64) as usize;
                let mut args = mut_args(&mut c.g, wa.max(1), true);
                args.pos = wild_pos(&mut c.g, wa);
                args.radix = *c.g.pick(&[2u32, 10, 16, 16, 2, 8, 36, 1, 0, 37]);
                if c.g.bool() {
                    let k = c.g.below(5) as usize;
                    args.src = wild_words(&mut c.g, k);
                }
                let form = c.g.below(3);
                let mut f = wild_fake(&mut c.g, wa);
                let mut t = a.clone();
                hostile(c, ops::MUT[op], wa, || match form {
                    0 => {
                        if op == 0 {
                            t.assign(&b)
                        } else {
                            ops::mutate(op, &mut t, &args);
                        }
                    }
                    1 => {
                        ops::mutate(op, &mut BitVecValueMutRef::from(&mut t), &args);
                    }
                    _ => {
                        if op == 0 {
                            f.assign(&b)
                        } else {
                            ops::mutate(op, &mut f, &args);
                        }
                    }
                });
                newv = Some(t);
                format!("{} form {form} {wa} fake {}:{} {args:x?}", ops::MUT[op], f.w, f.words.len())
            }
            9 => {
                let w = wild_width(&mut c.g);
                let k = c.g.below(8);
                let by = {
                    let n = c.g.below(50) as usize;
                    wild_words(&mut c.g, n).iter().map(|x| *x as u8).collect::<Vec<u8>>()
                };
                let u = c.g.word();
                let radix = *c.g.pick(&[2u32, 10, 16, 16, 2, 8, 36, 1, 0, 37]);
                let s = text::any(&mut c.g, w.max(1) + 70, radix.clamp(2, 16));
                let bu = big(&wild_words(&mut c.g, 4));
                newv = hostile(c, "construct", w, || match k {
                    0 => BitVecValue::from_u64(u, w),
                    1 => BitVecValue::from_i64(u as i64, w),
                    2 => BitVecValue::from_bytes_le(&by, w),
                    3 => BitVecValue::from_big_uint(&bu, w),
                    4 => BitVecValue::from_big_int(&-BigInt::from(bu), w),
                    5 => BitVecValue::from_bit_str(&s).unwrap(),
                    6 => BitVecValue::from_hex_str(&s).unwrap(),
                    _ => BitVecValue::from_str_radix(&s, radix, w).unwrap(),
                });
                format!("construct {k} width {w} {u:#x} {} bytes {s:?} radix {radix}", by.len())
            }
            10 | 11 => {
                // views into a store
                let mut ix = || BitVecValueIndex::new(if c.g.chance(5) { u32::MAX - 1 } else { c.g.below(store.len() as u64 + 3) as u32 }, wild_width(&mut c.g));
                let (x, y, z) = (ix(), ix(), ix());
                let form = c.g.below(5);
                let src = c.g.bool();
                let st = &mut store;
                c.ev("views", x.width());
                let r = guarded(|| match form {
                    0 => {
                        let v: BitVecValueRef = st.as_slice().get_ref(x);
                        let o = v.not();
                        Some(o)
                    }
                    1 => {
                        let (v, w): (BitVecValueRef, BitVecValueRef) = st.as_slice().get_ref((x, y));
                        Some(v.concat(&w))
                    }
                    2 => {
                        let mut v: BitVecValueMutRef = st.as_mut_slice().get_mut_ref(x);
                        v.assign_ones();
                        None
                    }
                    3 => {
                        let (mut v, w): (BitVecValueMutRef, BitVecValueRef) = st.as_mut_slice().get_mut_ref((x, y));
                        v.assign(w);
                        None
                    }
                    _ => {
                        let (mut v, w, u): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = st.as_mut_slice().get_mut_ref((x, y, z));
                        v.clear();
                        v.assign(if src { w } else { u });
                        Some(w.concat(&u))
                    }
                });
                match r {
                    Ok(v) => newv = v,
                    Err(_) => c.refused += 1,
                }
                format!("views form {form} {x:?} {y:?} {z:?} in {} words", store.len())
            }
            12 => {
                let probe = BitVecValueIndex::new(c.g.below(20) as u32, wild_width(&mut c.g));
                newv = hostile(c, "intern", wa, || {
                    let i = int.get_index(&a);
                    let r: BitVecValueRef = int.words().get_ref(i);
                    let r2: BitVecValueRef = int.words().get_ref(probe);
                    let _ = (ValueInterner::is_zero(i), ValueInterner::is_one(probe), r2.to_bit_str());
                    BitVecValue::from(r)
                });
                format!("intern {wa} probe {probe:?}")
            }
            13 => {
                // damaged serialized data
                let s1 = c.g.u64();
                let mut g2 = Gen::new(s1);
                let pick = c.g.below(2);
                let arr = arrs.last().cloned();
                #[cfg(not(feature = "full"))]
                let r: Option<Option<(Option<BitVecValue>, Option<Sub>)>> = {
                    let _ = (&mut g2, pick, arr);
                    None
                };
                #[cfg(feature = "full")]
                let r = hostile(c, "deserialize", wa, || match (pick, arr) {
                    (0, Some(Sub::A(x))) => {
                        let mut j = serde_json::to_value(&x).ok()?;
                        scramble(&mut g2, &mut j, 0);
                        serde_json::from_value::<ArrayValue>(j).ok().map(|x| (None, Some(Sub::A(x))))
                    }
                    (0, Some(Sub::S(x))) => {
                        let mut j = serde_json::to_value(&x).ok()?;
                        scramble(&mut g2, &mut j, 0);
                        serde_json::from_value::<SparseArrayValue>(j).ok().map(|x| (None, Some(Sub::S(x))))
                    }
                    _ => {
                        let mut j = serde_json::to_value(&a).ok()?;
                        scramble(&mut g2, &mut j, 0);
                        serde_json::from_value::<BitVecValue>(j).ok().map(|x| (Some(x), None))
                    }
                });
                if let Some(Some((v, s))) = r {
                    if let Some(v) = v {
                        // the width is whatever the damaged data said; keep it usable
                        if v.width() <= 400 && v.words().len() <= 16 {
                            newv = Some(v);
                        }
                    }
                    if let Some(s) = s {
                        arrs.push(s);
                    }
                }
                format!("deserialize damaged data {pick} seed {s1:#x}")
            }
            _ => {
                if arrs.is_empty() || c.g.chance(25) {
                    let iw = match c.g.below(5) {
                        0 => 64 + c.g.below(5) as u32,
                        _ => c.g.below(9) as u32,
                    };
                    let k = c.g.below(6);
                    let bytes = {
                        let n = c.g.below(20) as usize;
                        wild_words(&mut c.g, n)
                    };
                    let r = hostile(c, "new array", wa, || match k {
                        0 | 1 => Sub::A(ArrayValue::new_dense(iw, &a)),
                        2 => Sub::A(ArrayValue::new_sparse(iw, &a)),
                        3 => Sub::S(SparseArrayValue::new(iw, &a)),
                        4 => Sub::A(ArrayValue::from(bytes.as_slice())),
                        _ => Sub::A(ArrayValue::from(bytes.iter().map(|x| *x as u8).collect::<Vec<u8>>().as_slice())),
                    });
                    if let Some(s) = r {
                        arrs.push(s);
                    }
                    format!("new array {k} {iw}->{wa}")
                } else {
                    let k = c.g.below(arrs.len() as u64) as usize;
                    let (iw, dw, _) = hostile(c, "shape", 1, || arrs[k].shape()).unwrap_or((0, 1, 1));
                    let form = c.g.below(8);
                    // matching or arbitrary operands
                    let n = iw.div_ceil(64) as usize;
                    let ix = if c.g.chance(60) && iw <= 300 {
                        let mut x = wild_words(&mut c.g, n);
                        if c.g.chance(70) {
                            mask_top(&mut x, iw);
                        }
                        mk(iw, &x)
                    } else {
                        a.clone()
                    };
                    let dx = if c.g.chance(60) && dw <= 300 {
                        let mut x = wild_words(&mut c.g, dw.div_ceil(64) as usize);
                        if c.g.chance(70) {
                            mask_top(&mut x, dw);
                        }
                        mk(dw, &x)
                    } else {
                        b.clone()
                    };
                    let view = c.g.bool();
                    let k2 = c.g.below(arrs.len() as u64) as usize;
                    let mut s = arrs[k].clone();
                    let s2 = arrs[k2].clone();
                    let mixed_ok = densifiable(iw);
                    let r = hostile(c, ["select", "select", "store", "store", "clear/entries", "into sparse", "make_dense", "is_equal"][form as usize], dw, || match form {
                        0 | 1 => (Some(s.select(&ix, view)), None),
                        2 | 3 => {
                            s.store(&ix, &dx, view);
                            (None, Some(s))
                        }
                        4 => {
                            if let Sub::S(x) = &s {
                                // the order of the entries is arbitrary
                                let e = x.non_default_entries().map(|(i, _)| i).min_by_key(|i| i.words().to_vec());
                                let d = x.default();
                                return (e.or(Some(d)), None);
                            }
                            s.clear();
                            (None, Some(s))
                        }
                        5 => {
                            if let Sub::A(x) = s {
                                if mixed_ok || x.is_sparse() {
                                    return (None, Some(Sub::S(SparseArrayValue::from(x))));
                                }
                            }
                            (None, None)
                        }
                        6 => {
                            if mixed_ok {
                                if let Sub::A(mut x) = s {
                                    x.make_dense();
                                    return (None, Some(Sub::A(x)));
                                }
                            }
                            (None, None)
                        }
                        _ => {
                            if let (Sub::A(x), Sub::A(y)) = (&s, &s2) {
                                if mixed_ok {
                                    let _ = (x.is_equal(y), x == y);
                                }
                            }
                            (None, None)
                        }
                    });
                    if let Some((v, s)) = r {
                        newv = v;
                        if let Some(s) = s {
                            arrs[k] = s;
                        }
                    }
                    format!("array {k} {iw}->{dw} op {form} index {}:{:x?} data {}:{:x?}", ix.width(), ix.words(), dx.width(), dx.words())
                }
            }
        };
        c.seen(what.bytes().fold(wa as u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
        log.push(what);
        if c.verbose {
            println!("  {}", log.last().unwrap());
        }
        if let Some(Out::Val(w, words)) = out {
            if w <= 2000 && words.len() == w.div_ceil(64) as usize {
                newv = Some(mk(w, &words));
            }
        }
        if let Some(v) = newv {
            if v.width() <= 2000 && v.words().len() <= 40 {
                vals[i] = v;
            }
        }
        if arrs.len() > 4 {
            arrs.remove(0);
        }
    }
    hostile(c, "debug rendering of arrays and interner", 1, || {
        let mut n = format!("{int:?}").len();
        for a in &arrs {
            n += match a {
                Sub::A(a) => format!("{a:?}").len(),
                Sub::S(a) => format!("{a:?}").len(),
            };
        }
        n
    });
    c.sample(|| log.join("; "));
}
