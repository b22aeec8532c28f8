//! E01: a call that is refused (by an error, by a panic of the library, or because code of the caller panics in
//! the middle of it) leaves everything as it was, and everything stays usable.
use crate::ctx::*;
use crate::gen::Gen;
use crate::model::*;
use crate::ops::{self, Params};
use crate::p_arr::{self, Fresh, Kind, Sub};
#[allow(unused_imports)]
use crate::shim::*;
use crate::text;
use baa::*;
use num_bigint::BigUint;
use std::cell::Cell;
use std::collections::HashMap;

pub const KINDS: u64 = 24;
pub const GRID_W: u64 = 200;

/// an operand supplied by the caller whose accessors panic at some point
struct Bomb<'a> {
    w: u32,
    words: &'a [u64],
    left: Cell<u32>,
}
impl Bomb<'_> {
    fn tick(&self) {
        if self.left.get() == 0 {
            std::panic::panic_any("panic in the caller's code");
        }
        self.left.set(self.left.get() - 1);
    }
}
impl BitVecOps for Bomb<'_> {
    fn width(&self) -> WidthInt {
        self.tick();
        self.w
    }
    fn words(&self) -> &[Word] {
        self.tick();
        self.words
    }
}
/// an argument whose conversion panics
struct Fuse;
impl<'a> From<Fuse> for BitVecValueRef<'a> {
    fn from(_: Fuse) -> Self {
        std::panic::panic_any("panic in the caller's conversion")
    }
}

/// everything that is alive, with what it should hold
struct World {
    vals: Vec<(BitVecValue, M)>,
    store: Vec<u64>,
    want: Vec<u64>,
    slots: Vec<BitVecValueIndex>,
    int: ValueInterner,
    ids: Vec<(BitVecValueIndex, M)>,
    arr: Fresh,
    other: Fresh,
    map: HashMap<BitVecValue, usize>,
    keys: Vec<M>,
    log: Vec<String>,
}

fn value(c: &mut Ctx, w: u32) -> M {
    M::from_words(w, &c.g.words(w))
}

fn world(c: &mut Ctx, w: u32) -> World {
    let mut vals = vec![];
    for k in 0..3 {
        let ww = if k < 2 { w } else { c.g.width(200) };
        let m = value(c, ww);
        vals.push((mkm(&m), m));
    }
    let mut store = vec![];
    let mut slots = vec![];
    for _ in 0..3 {
        for _ in 0..c.g.below(3) {
            store.push(c.g.word());
        }
        let ww = if c.g.chance(70) { w } else { c.g.width(200) };
        slots.push(BitVecValueIndex::new(store.len() as u32, ww));
        store.extend(c.g.words(ww));
    }
    for _ in 0..c.g.below(3) {
        store.push(c.g.word());
    }
    let mut int = ValueInterner::new();
    let mut ids = vec![];
    for k in 0..c.g.range(2, 5) {
        let ww = if k < 2 { w } else { c.g.width(200) };
        let m = value(c, ww);
        let v = mkm(&m);
        let d = || m.hex();
        let i = c.call("get_index", ww, &d, || int.get_index(&v));
        ids.push((i, m));
    }
    let kinds = [Kind::Dense, Kind::ASparse, Kind::Sparse];
    let mut arrays = vec![];
    for _ in 0..2 {
        let k = *c.g.pick(&kinds);
        let dw = if c.g.bool() { w } else { p_arr::data_width(&mut c.g) };
        let iw = if k == Kind::Dense {
            c.g.range(0, 5) as u32
        } else {
            match c.g.below(4) {
                0 => c.g.range(65, 76) as u32,
                1 => 64,
                _ => c.g.range(0, 6) as u32,
            }
        };
        let def = p_arr::data(&mut c.g, dw, None);
        let sub = p_arr::build(c, k, iw, dw, &def);
        let pool = p_arr::index_pool(&mut c.g, iw);
        let mut f = Fresh { sub, m: p_arr::AM { iw, dw, def, map: Default::default() }, pool, log: vec![format!("{k:?} array {iw}->{dw}")] };
        for _ in 0..c.g.below(6) {
            p_arr::update(c, &mut f, true);
        }
        arrays.push(f);
    }
    let other = arrays.pop().unwrap();
    let arr = arrays.pop().unwrap();
    let mut map = HashMap::new();
    let mut keys: Vec<M> = vec![];
    for _ in 0..c.g.below(4) {
        let m = value(c, w);
        if !keys.contains(&m) {
            map.insert(mkm(&m), keys.len());
            keys.push(m);
        }
    }
    World { vals, want: store.clone(), store, slots, int, ids, arr, other, map, keys, log: vec![] }
}

fn check(c: &mut Ctx, x: &mut World) {
    let log = x.log.clone();
    let d = || format!("after the calls: {}", log.join("; "));
    for (v, m) in &x.vals {
        c.eq_val("a value after a refused call", v, m, &d);
    }
    c.eq("the words of a store after a refused call", &x.store, &x.want, &d);
    for (i, m) in &x.ids {
        let r: BitVecValueRef = c.call("resolve", m.w, &d, || x.int.words().get_ref(*i));
        c.eq_val("an interned value after a refused call", &r, m, &d);
        let v = mkm(m);
        let j = c.call("get_index", m.w, &d, || x.int.get_index(&v));
        c.eq("index of a value interned before", j, *i, &d);
    }
    for f in [&x.arr, &x.other] {
        p_arr::check_shape(c, f);
        p_arr::check_all(c, f, 32);
        if let Sub::S(s) = &f.sub {
            let want = f.m.map.iter().filter(|(_, v)| **v != f.m.def).count();
            let n = c.call("non_default_entries", f.m.dw, &d, || s.non_default_entries().count());
            c.eq("entries of a sparse array after a refused call", n, want, &d);
        }
    }
    c.eq("size of a map after a refused lookup", x.map.len(), x.keys.len(), &d);
    for (k, m) in x.keys.iter().enumerate() {
        let v = mkm(m);
        let r = c.call("lookup", m.w, &d, || x.map.get::<BitVecValue>(&v).copied());
        c.eq("lookup after a refused one", r, Some(k), &d);
    }
}

/// some legal use of everything
fn used(c: &mut Ctx, x: &mut World) {
    x.log.push("legal use of everything".into());
    let (i, j) = (c.g.below(2) as usize, c.g.below(2) as usize);
    let log = x.log.clone();
    let d = || format!("after the calls: {}", log.join("; "));
    let sum = M::wrap(x.vals[i].1.w, &(&x.vals[i].1.v + &x.vals[j].1.v));
    let r = c.call("add", sum.w, &d, || x.vals[i].0.add(&x.vals[j].0));
    c.eq_val("add", &r, &sum, &d);
    x.vals[i] = (r, sum);
    let k = c.g.below(x.slots.len() as u64) as usize;
    let s = x.slots[k];
    let m = value(c, s.width());
    let v = mkm(&m);
    c.call("assign", m.w, &d, || {
        let mut t: BitVecValueMutRef = x.store.as_mut_slice().get_mut_ref(s);
        t.assign(&v)
    });
    let r = s.to_range();
    x.want[r].copy_from_slice(&m.words());
    p_arr::update(c, &mut x.arr, true);
    let m = value(c, x.vals[0].1.w);
    let v = mkm(&m);
    let id = c.call("get_index", m.w, &d, || x.int.get_index(&v));
    if !x.ids.iter().any(|(_, k)| *k == m) {
        x.ids.push((id, m));
    }
}

fn too_big(g: &mut Gen, w: u32) -> u64 {
    let x = g.word();
    if w < 64 && x >> w == 0 {
        x | 1 << w
    } else {
        x
    }
}
fn bad_pos(g: &mut Gen, w: u32) -> u32 {
    match g.below(4) {
        0 => w,
        1 => w.div_ceil(64) * 64,
        2 => w + g.below(300) as u32,
        _ => w.div_ceil(64) * 64 + g.below(200) as u32,
    }
}
fn other_width(g: &mut Gen, w: u32) -> u32 {
    match g.below(5) {
        0 => w + 1,
        1 => (w - 1).max(1),
        2 => w + 64,
        3 => g.width(300),
        _ => w.div_ceil(64) * 64 + 1,
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum End {
    Done,
    Refused,
}

/// in-place updates of a bit-vector that are likely to be refused
#[derive(Debug, Clone)]
enum Hit {
    U(u64),
    I(i64),
    Parse(String, u32),
    Assign(M),
    Set(u32),
    Clear(u32),
    Fuse,
}
fn hit_of(g: &mut Gen, kind: u64, w: u32) -> Hit {
    match kind {
        0 => Hit::U(too_big(g, w)),
        1 => Hit::I(if g.bool() { g.i64ish() } else { too_big(g, w) as i64 }),
        2 => {
            let radix = if g.chance(85) { *g.pick(&[2, 10, 16]) } else { *g.pick(&[0, 1, 3, 8, 36, 37, 100]) };
            let r = if matches!(radix, 2 | 10 | 16) { radix } else { 10 };
            let ww = if g.bool() { w } else { w + g.below(70) as u32 };
            let mut s = text::any(g, ww, r);
            if g.chance(40) {
                let chars = ["", "-", "+", "_", "g", "é", " ", "--", "0x"];
                let at = g.below(s.chars().count() as u64 + 1) as usize;
                let (a, b): (String, String) = (s.chars().take(at).collect(), s.chars().skip(at).collect());
                s = a + *g.pick(&chars) + &b;
            }
            Hit::Parse(s, radix)
        }
        3 => {
            let ww = other_width(g, w);
            Hit::Assign(M::from_words(ww, &g.words(ww)))
        }
        4 => Hit::Set(bad_pos(g, w)),
        5 => Hit::Clear(bad_pos(g, w)),
        _ => Hit::Fuse,
    }
}
fn hit<T: BitVecMutOps>(t: &mut T, h: &Hit) -> bool {
    match h {
        Hit::U(u) => t.assign_from_u64(*u),
        Hit::I(i) => t.assign_from_i64(*i),
        Hit::Parse(s, r) => return t.assign_from_str_radix(s, *r).is_ok(),
        Hit::Assign(m) => {
            let words = m.words();
            t.assign(words.as_slice().get_ref(BitVecValueIndex::new(0, m.w)))
        }
        Hit::Set(p) => t.set_bit(*p),
        Hit::Clear(p) => t.clear_bit(*p),
        Hit::Fuse => t.assign(Fuse),
    }
    true
}
/// may the target hold something else after this call was refused?
fn free(h: &Hit, e: End) -> bool {
    match h {
        Hit::U(_) | Hit::I(_) => true,
        Hit::Parse(..) => e == End::Done,
        _ => false,
    }
}

fn end<T>(r: &Result<T, String>) -> End {
    if r.is_ok() {
        End::Done
    } else {
        End::Refused
    }
}

fn step(c: &mut Ctx, x: &mut World, kind: u64) {
    c.evaluations += 1;
    let w = x.vals[0].1.w;
    let name: &'static str;
    let e;
    match kind {
        // a value is updated
        0..=6 => {
            let k = c.g.below(x.vals.len() as u64) as usize;
            let h = hit_of(&mut c.g, kind, x.vals[k].1.w);
            x.log.push(format!("value {k} ({}): {h:?}", x.vals[k].1.hex()));
            let t = &mut x.vals[k];
            let r = guarded(|| hit(&mut t.0, &h));
            e = if r == Ok(true) { End::Done } else { End::Refused };
            name = ["value: from u64", "value: from i64", "value: parse", "value: assign", "value: set bit", "value: clear bit", "value: caller panics"][kind as usize];
            if free(&h, e) {
                let log = &x.log;
                let d = || log.join("; ");
                c.eq("width after an assignment", t.0.width(), t.1.w, &d);
                let m = M::from_words(t.1.w, t.0.words());
                // canonical
                c.eq_val("value after an assignment", &t.0, &M::wrap(m.w, &m.v), &d);
                t.1 = m;
            } else if e == End::Done {
                t.0 = mkm(&t.1);
            }
        }
        // a view in a store is updated
        7..=13 => {
            let k = c.g.below(x.slots.len() as u64) as usize;
            let s = x.slots[k];
            let h = hit_of(&mut c.g, kind - 7, s.width());
            x.log.push(format!("view {k} ({s:?}): {h:?}"));
            let store = &mut x.store;
            let r = guarded(|| {
                let mut t: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(s);
                hit(&mut t, &h)
            });
            e = if r == Ok(true) { End::Done } else { End::Refused };
            name = ["view: from u64", "view: from i64", "view: parse", "view: assign", "view: set bit", "view: clear bit", "view: caller panics"][kind as usize - 7];
            if free(&h, e) {
                let rg = s.to_range();
                let m = M::from_words(s.width(), &x.store[rg.clone()]);
                let log = &x.log;
                c.eq_val("view after an assignment", &mkm(&m), &M::wrap(m.w, &m.v), &|| log.join("; "));
                x.want[rg.clone()].copy_from_slice(&m.words());
            } else if e == End::Done {
                x.store = x.want.clone();
            }
        }
        // views that cannot be had
        14 => {
            name = "views";
            let n = x.store.len() as u64;
            let any = |g: &mut Gen| {
                let w = g.width(400);
                let at = match g.below(4) {
                    0 => n + g.below(3),
                    1 => u32::MAX as u64 - g.below(3),
                    _ => g.below(n + 1),
                };
                BitVecValueIndex::new(at as u32, w)
            };
            let (i, j, k) = (any(&mut c.g), any(&mut c.g), any(&mut c.g));
            let (i, j, k) = (i, if c.g.bool() { i } else { j }, if c.g.bool() { x.slots[0] } else { k });
            let form = c.g.below(5);
            x.log.push(format!("views {form}: {i:?} {j:?} {k:?} of {n} words"));
            let store = &mut x.store;
            let r = guarded(|| match form {
                0 => {
                    let v: BitVecValueRef = store.as_slice().get_ref(i);
                    v.words().len()
                }
                1 => {
                    let (v, u): (BitVecValueRef, BitVecValueRef) = store.as_slice().get_ref((k, i));
                    v.words().len() + u.words().len()
                }
                2 => {
                    let v: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(i);
                    v.words().len()
                }
                3 => {
                    let (v, u): (BitVecValueMutRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((i, j));
                    v.words().len() + u.words().len()
                }
                _ => {
                    let (v, u, t): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((k, i, j));
                    v.words().len() + u.words().len() + t.words().len()
                }
            });
            e = end(&r);
        }
        // arrays
        15..=17 => {
            let (iw, dw) = (x.arr.m.iw, x.arr.m.dw);
            let bad_index = kind != 16;
            let bad_data = kind == 16 || c.g.chance(20);
            let iwid = if bad_index { *c.g.pick(&[iw + 1, iw + 7, iw + 64, iw + 70, iw.max(2) - 1]) } else { iw };
            let mut im = M::from_words(iwid, &c.g.words(iwid));
            if bad_index && iwid > iw && c.g.chance(70) {
                // beyond the end
                im = M::new(iwid, im.v | (BigUint::from(1u8) << (iw + c.g.below((iwid - iw) as u64) as u32)));
            }
            let dwid = if bad_data { other_width(&mut c.g, dw) } else { dw };
            let mut dm = M::from_words(dwid, &c.g.words(dwid));
            if bad_data && dwid > dw && c.g.bool() {
                dm = M::new(dwid, dm.v | (BigUint::from(1u8) << (dwid - 1)));
            }
            let (iv, dv) = (mkm(&im), mkm(&dm));
            let keep = x.arr.sub.clone();
            let view = c.g.bool();
            let sub = &mut x.arr.sub;
            x.log.push(format!("array {iw}->{dw}: {} index {} data {}", if kind == 17 { "select" } else { "store" }, im.hex(), dm.hex()));
            let r = guarded(|| {
                if kind == 17 {
                    sub.select(&iv, view);
                } else {
                    sub.store(&iv, &dv, view);
                }
            });
            name = ["array: store at a bad index", "array: store bad data", "array: select at a bad index"][kind as usize - 15];
            e = end(&r);
            if e == End::Done && kind != 17 {
                x.arr.sub = keep;
            }
        }
        18 => {
            // the caller's conversion panics
            name = "array: caller panics";
            let (im, dm) = (M::from_words(x.arr.m.iw, &c.g.words(x.arr.m.iw)), M::from_words(x.arr.m.dw, &c.g.words(x.arr.m.dw)));
            let (iv, dv) = (mkm(&im), mkm(&dm));
            let form = c.g.below(4);
            x.log.push(format!("array: conversion panics, form {form}, index {} data {}", im.hex(), dm.hex()));
            fn go<A: ArrayMutOps>(a: &mut A, form: u64, i: &BitVecValue, d: &BitVecValue) {
                match form {
                    0 => a.store(Fuse, d),
                    1 => a.store(i, Fuse),
                    2 => a.store(Fuse, Fuse),
                    _ => {
                        a.select(Fuse);
                    }
                }
            }
            let sub = &mut x.arr.sub;
            let r = guarded(|| match sub {
                Sub::A(a) => go(a, form, &iv, &dv),
                Sub::S(a) => go(a, form, &iv, &dv),
            });
            e = end(&r);
        }
        19 => {
            // no dense array has such indices
            name = "array: make dense";
            let dw = p_arr::data_width(&mut c.g);
            let iw = c.g.range(65, 72) as u32;
            let def = p_arr::data(&mut c.g, dw, None);
            let sub = p_arr::build(c, Kind::ASparse, iw, dw, &def);
            let pool = p_arr::index_pool(&mut c.g, iw);
            let mut f = Fresh { sub, m: p_arr::AM { iw, dw, def, map: Default::default() }, pool, log: vec![format!("sparse array {iw}->{dw}")] };
            for _ in 0..c.g.range(1, 6) {
                p_arr::update(c, &mut f, true);
            }
            x.log.push(format!("make_dense of {}", f.m.show()));
            let r = guarded(|| {
                if let Sub::A(a) = &mut f.sub {
                    a.make_dense();
                }
            });
            e = end(&r);
            if e == End::Refused {
                f.log.push("make_dense (refused)".into());
                p_arr::check_shape(c, &f);
                p_arr::check_all(c, &f, 32);
                x.arr = f;
            }
        }
        20 => {
            name = "interner";
            let form = c.g.below(3);
            x.log.push(format!("interner: form {form}"));
            let zero = guarded(|| BitVecValue::zero(0));
            let int = &mut x.int;
            let r = guarded(|| match (form, &zero) {
                (0, Ok(z)) => {
                    int.get_index(z);
                }
                (1, _) => {
                    int.get_index(Fuse);
                }
                _ => {
                    // a view that cannot be had
                    let words = [1u64; 2];
                    int.get_index(words.as_slice().get_ref(BitVecValueIndex::new(1, 100)));
                }
            });
            e = end(&r);
        }
        21 => {
            // operands of different width, or whose accessors panic
            name = "operation";
            let ww = if c.g.bool() { w } else { other_width(&mut c.g, w) };
            let bm = M::from_words(ww, &c.g.words(ww));
            let words = bm.words();
            let left = if ww == w || c.g.bool() { c.g.below(7) as u32 } else { 1000 };
            let bomb = Bomb { w: ww, words: &words, left: Cell::new(left) };
            let op = c.g.below(ops::BIN.len() as u64 + 2) as usize;
            let form = c.g.below(2);
            x.log.push(format!("operation {op} form {form} {} {} caller's operand panics at call {left}", x.vals[0].1.hex(), bm.hex()));
            let a = &x.vals[0].0;
            let r = guarded(|| {
                if op < ops::BIN.len() {
                    if form == 0 {
                        ops::bin(op, a, &bomb);
                    } else {
                        ops::bin(op, &bomb, a);
                    }
                } else if op == ops::BIN.len() {
                    ops::concat(a, &bomb);
                } else {
                    let _ = *a == bomb;
                }
            });
            e = end(&r);
        }
        22 => {
            name = "operation with bad arguments";
            let op = c.g.below(ops::UN.len() as u64) as usize;
            let mut p = Params::valid(&mut c.g, w);
            match c.g.below(4) {
                0 => p.msb = w + c.g.below(300) as u32,
                1 => p.pos = bad_pos(&mut c.g, w),
                2 => p.fw = w + c.g.below(200) as u32,
                _ => (p.msb, p.lsb) = (p.lsb.max(1) - 1, p.lsb.max(1)),
            }
            x.log.push(format!("{} {} {p:?}", ops::UN[op], x.vals[0].1.hex()));
            let a = &x.vals[0].0;
            let s = x.slots[0];
            let store = &x.store;
            let view = c.g.bool();
            let r = guarded(|| {
                if view {
                    let v: BitVecValueRef = store.as_slice().get_ref(s);
                    ops::un(op, &v, &p);
                } else {
                    ops::un(op, a, &p);
                }
            });
            e = end(&r);
        }
        _ => {
            name = "lookup";
            let m = if !x.keys.is_empty() && c.g.bool() { c.g.pick(&x.keys).clone() } else { value(c, w) };
            let words = m.words();
            x.log.push(format!("lookup of {} through a view", m.hex()));
            let map = &mut x.map;
            let form = c.g.below(3);
            let r = guarded(|| {
                let v: BitVecValueRef = words.as_slice().get_ref(BitVecValueIndex::new(0, m.w));
                match form {
                    0 => map.contains_key(&v),
                    1 => map.get(&v).is_some(),
                    _ => map.get_mut(&v).is_some(),
                }
            });
            e = end(&r);
        }
    }
    if e == End::Refused {
        c.refused += 1;
        c.ev(name, w);
        if let Some(l) = x.log.last_mut() {
            l.push_str(" (refused)");
        }
    }
    let h = x.log.last().map(|l| l.bytes().fold(7u64, |h, b| crate::gen::mix(h ^ b as u64))).unwrap_or(0);
    c.seen(h);
}

pub fn e01(c: &mut Ctx) {
    let (w, first) = if c.stream == crate::p_bv::GRID {
        (((c.index / KINDS) % GRID_W + 1) as u32, Some(c.index % KINDS))
    } else {
        (c.width(400), None)
    };
    let mut x = world(c, w);
    c.sample(|| format!("world of width {w}: {} slots in {} words, {} interned, array {}", x.slots.len(), x.store.len(), x.ids.len(), x.arr.m.show()));
    let n = if first.is_some() { c.g.range(1, 3) } else { c.g.range(2, 10) };
    for k in 0..n {
        let kind = match first {
            Some(f) if k == 0 => f,
            _ => c.g.below(KINDS),
        };
        step(c, &mut x, kind);
        check(c, &mut x);
        if c.g.chance(40) {
            used(c, &mut x);
            check(c, &mut x);
        }
    }
}
