//! A01 (arrays as functions), A02 (representation changes), A03 (equality), A04 (entries), S01 (serde).
use crate::ctx::*;
use crate::gen::Gen;
use crate::model::*;
use crate::p_scale::SCALE;
use baa::*;
use num_bigint::BigUint;
#[cfg(feature = "full")]
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// model of an array: a default and the entries that were stored
#[derive(Clone, Debug)]
pub struct AM {
    pub iw: u32,
    pub dw: u32,
    pub def: BigUint,
    pub map: BTreeMap<BigUint, BigUint>,
}
impl AM {
    pub fn get(&self, i: &BigUint) -> M {
        M::new(self.dw, self.map.get(i).unwrap_or(&self.def).clone())
    }
    pub fn clear(&mut self) {
        self.def = BigUint::from(0u8);
        self.map.clear();
    }
    /// entries that differ from the model's default
    fn norm(&self) -> BTreeMap<BigUint, BigUint> {
        self.map.iter().filter(|(_, v)| **v != self.def).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
    /// same data at every index?
    pub fn ext_eq(&self, o: &AM) -> bool {
        let n = self.norm();
        let m = o.norm();
        if self.def == o.def {
            return n == m;
        }
        // different defaults: equal only if every index is covered by an entry on one of the sides
        let mut keys: BTreeSet<&BigUint> = n.keys().collect();
        keys.extend(m.keys());
        BigUint::from(keys.len()) == pow2(self.iw) && keys.iter().all(|k| self.get(k) == o.get(k))
    }
    pub fn hash(&self) -> u64 {
        let mut h = hash_words(30 + self.iw as u64, self.dw, &M::new(self.dw, self.def.clone()).words());
        for (k, v) in &self.map {
            h = hash_words(hash_words(h, self.iw, &k.to_u64_digits()), self.dw, &v.to_u64_digits());
        }
        h
    }
    pub fn show(&self) -> String {
        let e: Vec<String> = self.map.iter().take(12).map(|(k, v)| format!("{k:#x}->{v:#x}")).collect();
        format!("{}->{} default {:#x} entries({}) [{}]", self.iw, self.dw, self.def, self.map.len(), e.join(" "))
    }
}

/// Everything that behaves like an array.
pub trait Arr: ArrayMutOps + Clone {}
impl Arr for ArrayValue {}
impl Arr for SparseArrayValue {}

#[derive(Clone)]
pub enum Sub {
    A(ArrayValue),
    S(SparseArrayValue),
}
impl Sub {
    pub fn select(&self, i: &BitVecValue, view: bool) -> BitVecValue {
        match (self, view) {
            (Sub::A(a), false) => a.select(i),
            (Sub::A(a), true) => a.select(BitVecValueRef::from(i)),
            (Sub::S(a), false) => a.select(i),
            (Sub::S(a), true) => a.select(BitVecValueRef::from(i)),
        }
    }
    pub fn store(&mut self, i: &BitVecValue, d: &BitVecValue, view: bool) {
        match (self, view) {
            (Sub::A(a), false) => a.store(i, d),
            (Sub::A(a), true) => a.store(BitVecValueRef::from(i), BitVecValueRef::from(d)),
            (Sub::S(a), false) => a.store(i, d),
            (Sub::S(a), true) => a.store(BitVecValueRef::from(i), BitVecValueRef::from(d)),
        }
    }
    pub fn clear(&mut self) {
        match self {
            Sub::A(a) => a.clear(),
            Sub::S(a) => a.clear(),
        }
    }
    pub fn shape(&self) -> (u32, u32, usize) {
        match self {
            Sub::A(a) => (a.index_width(), a.data_width(), a.words_per_element()),
            Sub::S(a) => (a.index_width(), a.data_width(), a.words_per_element()),
        }
    }
    pub fn num(&self) -> usize {
        match self {
            Sub::A(a) => a.num_elements(),
            Sub::S(a) => a.num_elements(),
        }
    }
}

pub fn data_width(g: &mut Gen) -> u32 {
    match g.below(12) {
        0 | 1 => 1,
        2 => 8,
        3 => g.range(2, 7) as u32,
        4 => 9,
        5 => g.range(10, 63) as u32,
        6 => 64,
        7 => 65,
        8 => 128,
        9 => g.range(66, 127) as u32,
        10 => g.range(129, 320) as u32,
        _ if g.chance(15) => wide(g),
        _ => g.range(1, 130) as u32,
    }
}
/// hundreds or thousands of bits, often around a power of two
fn wide(g: &mut Gen) -> u32 {
    match g.below(3) {
        0 => *g.pick(&[255u32, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096]),
        1 => g.range(200, 700) as u32,
        _ => g.range(600, 5000) as u32,
    }
}
/// index width of a dense array, small enough that filling it is cheap
pub fn dense_index_width(g: &mut Gen, dw: u32) -> u32 {
    match g.below(20) {
        0 => 0,
        1 => {
            if dw == 1 {
                g.range(11, 18) as u32
            } else if dw <= 64 {
                g.range(9, 13) as u32
            } else {
                g.range(7, 10) as u32
            }
        }
        2..=9 => g.range(1, 4) as u32,
        _ => g.range(3, 9) as u32,
    }
}
pub fn sparse_index_width(g: &mut Gen) -> u32 {
    match g.below(14) {
        0 => 0,
        1..=4 => g.range(1, 4) as u32,
        5 | 6 => g.range(5, 12) as u32,
        7 => g.range(13, 62) as u32,
        8 => 63,
        9 => 64,
        10 => 65,
        11 => 128,
        12 => g.range(66, 200) as u32,
        _ if g.chance(35) => wide(g),
        _ => *g.pick(&[31u32, 32, 33, 129, 192, 193]),
    }
}
pub fn data(g: &mut Gen, dw: u32, near: Option<&BigUint>) -> BigUint {
    match (near, g.below(5)) {
        (Some(n), 0) => n.clone(),
        (_, 1) => BigUint::from(0u8),
        (Some(n), 2) => {
            let w = M::wrap(dw, n).words();
            big(&g.related(&w, dw))
        }
        _ => big(&g.words(dw)),
    }
}
/// indices worth touching
pub fn index_pool(g: &mut Gen, iw: u32) -> Vec<BigUint> {
    if iw <= 3 || (iw <= 6 && g.chance(40)) {
        return (0..1u64 << iw).map(BigUint::from).collect();
    }
    let mut p: Vec<BigUint> = vec![BigUint::from(0u8), pow2(iw) - 1u8, pow2(iw - 1)];
    let n = g.range(2, 12);
    for _ in 0..n {
        let x = if g.chance(50) {
            let b = g.pick(&p).clone();
            let w = M::new(iw, b).words();
            big(&g.related(&w, iw))
        } else {
            big(&g.words(iw))
        };
        p.push(x);
    }
    p
}
fn mki(iw: u32, i: &BigUint) -> BitVecValue {
    mkm(&M::new(iw, i.clone()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Dense,
    ASparse,
    Sparse,
}
pub struct Fresh {
    pub sub: Sub,
    pub m: AM,
    pub pool: Vec<BigUint>,
    pub log: Vec<String>,
}
pub fn build(c: &mut Ctx, kind: Kind, iw: u32, dw: u32, def: &BigUint) -> Sub {
    let dv = mkm(&M::new(dw, def.clone()));
    let d = || format!("{kind:?} array {iw}->{dw} default {def:#x}");
    let op: &'static str = match kind {
        Kind::Dense => "new_dense",
        Kind::ASparse => "new_sparse",
        Kind::Sparse => "SparseArrayValue::new",
    };
    c.call(op, dw, &d, || match kind {
        Kind::Dense => Sub::A(ArrayValue::new_dense(iw, &dv)),
        Kind::ASparse => Sub::A(ArrayValue::new_sparse(iw, &dv)),
        Kind::Sparse => Sub::S(SparseArrayValue::new(iw, &dv)),
    })
}
pub fn fresh(c: &mut Ctx, kind: Kind) -> Fresh {
    let dw = data_width(&mut c.g);
    let iw = if kind == Kind::Dense { dense_index_width(&mut c.g, dw) } else { sparse_index_width(&mut c.g) };
    let def = data(&mut c.g, dw, None);
    let sub = build(c, kind, iw, dw, &def);
    let pool = index_pool(&mut c.g, iw);
    let log = vec![format!("{kind:?} array {iw}->{dw} default {def:#x}")];
    Fresh { sub, m: AM { iw, dw, def, map: BTreeMap::new() }, pool, log }
}
fn logs(l: &[String]) -> String {
    let n = l.len();
    if n > 40 {
        format!("{} ... {}", l[..2].join("; "), l[n - 38..].join("; "))
    } else {
        l.join("; ")
    }
}
pub fn check_at(c: &mut Ctx, f: &Fresh, i: &BigUint) {
    let iv = mki(f.m.iw, i);
    let d = || format!("index {i:#x} of {} | history: {}", f.m.show(), logs(&f.log));
    let view = c.g.bool();
    let r = c.call("select", f.m.dw, &d, || f.sub.select(&iv, view));
    c.eq_val("select", &r, &f.m.get(i), &d);
}
pub fn do_store(c: &mut Ctx, f: &mut Fresh, i: &BigUint, v: &BigUint) {
    let (iv, dv) = (mki(f.m.iw, i), mkm(&M::new(f.m.dw, v.clone())));
    f.log.push(format!("[{i:#x}]={v:#x}"));
    let l = &f.log;
    let m = &f.m;
    let d = || format!("store {v:#x} at {i:#x} of {} | history: {}", m.show(), logs(l));
    let view = c.g.bool();
    let sub = &mut f.sub;
    c.call("store", m.dw, &d, || sub.store(&iv, &dv, view));
    f.m.map.insert(i.clone(), v.clone());
}
pub fn check_all(c: &mut Ctx, f: &Fresh, limit: u64) {
    if f.m.iw <= 20 && (1u64 << f.m.iw) <= limit {
        for i in 0..1u64 << f.m.iw {
            check_at(c, f, &BigUint::from(i));
        }
    } else {
        for i in f.pool.clone() {
            check_at(c, f, &i);
        }
        for _ in 0..8 {
            let i = big(&c.g.words(f.m.iw));
            check_at(c, f, &i);
        }
    }
}
pub fn check_shape(c: &mut Ctx, f: &Fresh) {
    let d = || format!("{} | history: {}", f.m.show(), logs(&f.log));
    let r = c.call("shape", f.m.dw, &d, || f.sub.shape());
    c.eq("index width, data width, words per element", r, (f.m.iw, f.m.dw, f.m.dw.div_ceil(64) as usize), &d);
    if f.m.iw < 63 {
        let r = c.call("num_elements", f.m.dw, &d, || f.sub.num());
        c.eq("num_elements", r, 1usize << f.m.iw, &d);
    }
}
/// one random update
pub fn update(c: &mut Ctx, f: &mut Fresh, clear: bool) {
    if clear && c.g.chance(5) {
        f.log.push("clear".into());
        let l = &f.log;
        let sub = &mut f.sub;
        let d = || format!("history: {}", logs(l));
        c.call("clear", f.m.dw, &d, || sub.clear());
        f.m.clear();
    } else {
        let i = if c.g.chance(85) { c.g.pick(&f.pool).clone() } else { big(&c.g.words(f.m.iw)) };
        let near = if c.g.bool() { f.m.def.clone() } else { f.m.get(&i).v };
        let v = data(&mut c.g, f.m.dw, Some(&near));
        do_store(c, f, &i, &v);
    }
}
fn kind(g: &mut Gen) -> Kind {
    *g.pick(&[Kind::Dense, Kind::ASparse, Kind::Sparse])
}

// ---------------------------------------------------------------- A01
pub const HUGE: u32 = 4;
/// dense arrays at or near the size limit: positions beyond 2^27 .. 2^31 and byte offsets up to 2^30
const LIMITS: [(u32, u32, u64); 8] = [(31, 1, 0), (31, 1, 1), (30, 8, 0), (30, 5, 0), (28, 7, 0x55), (27, 64, 0), (27, 33, 0), (22, 130, 3)];
pub const HUGE_CASES: u64 = 2 + LIMITS.len() as u64;
fn limits(c: &mut Ctx) {
    let (iw, dw, def) = LIMITS[(c.index - 2) as usize];
    c.evaluations += 1;
    let what = format!("dense array {iw} -> {dw}, default {def}");
    c.sample(|| what.clone());
    let d = || what.clone();
    let dv = mkm(&M::new(dw, BigUint::from(def)));
    let mut a = c.call("new_dense", dw, &d, || ArrayValue::new_dense(iw, &dv));
    let n = c.call("num_elements", dw, &d, || a.num_elements());
    c.eq("num_elements", n, 1usize << iw, &d);
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    let top = (1u64 << iw) - 1;
    for k in 0..60 {
        let i = match k {
            0 => top,
            1 => 0,
            2 => 1 << (iw - 1),
            3 => (1 << (iw - 1)) - 1,
            _ => match c.g.below(3) {
                0 => c.g.below(1 << iw),
                1 => top - c.g.below(200),
                _ => (1u64 << c.g.below(iw as u64)) - c.g.below(2),
            },
        };
        let v = c.g.u64() & if dw >= 64 { u64::MAX } else { (1 << dw) - 1 };
        let (iv, vv) = (mki(iw, &BigUint::from(i)), mkm(&M::new(dw, BigUint::from(v))));
        let old = m.clone();
        let ds = || format!("{what}: store {v:#x} at {i:#x} after {old:x?}");
        c.call("store", dw, &ds, || a.store(&iv, &vv));
        m.insert(i, v);
        for j in [i, i.wrapping_sub(1) & top, (i + 1) & top, i ^ 1 << (iw - 1), c.g.below(1 << iw)] {
            let jv = mki(iw, &BigUint::from(j));
            let r = c.call("select", dw, &ds, || a.select(&jv));
            let e = BigUint::from(m.get(&j).copied().unwrap_or(def));
            c.eq_val("select", &r, &M::new(dw, e), &|| format!("select {j:#x}, {}", ds()));
        }
    }
    for (i, v) in m.clone() {
        let iv = mki(iw, &BigUint::from(i));
        let r = c.call("select", dw, &d, || a.select(&iv));
        c.eq_val("select", &r, &M::new(dw, BigUint::from(v)), &|| format!("{what}: select {i:#x} of {m:x?}"));
    }
}
pub const WIDE: u32 = 5;
pub fn a01(c: &mut Ctx) {
    if c.stream == SCALE {
        return crate::p_scale::a01(c);
    }
    if c.stream == crate::p_wave::WAVE {
        return crate::p_wave::a01(c);
    }
    if c.stream == HUGE {
        if c.index >= 2 {
            return limits(c);
        }
        // the largest one-bit arrays that the advertised 1 GiB limit allows
        c.evaluations += 1;
        let iw = 32 + c.index as u32;
        let key = format!("A01/dense-1bit-index-width-{iw}");
        let r = guarded(|| {
            let mut a = ArrayValue::new_dense(iw, &BitVecValue::fals());
            let i = mki(iw, &(pow2(iw) - 1u8));
            let j = mki(iw, &BigUint::from(5u8));
            a.store(&i, BitVecValueRef::from(&BitVecValue::tru()));
            (a.select(&i).to_u64(), a.select(&j).to_u64(), a.num_elements())
        });
        let msg = format!("a dense one-bit array with index width {iw} (within the 1 GiB limit) does not hold its elements: {r:?}");
        match r {
            Ok((Some(1), Some(0), n)) if n == 1usize << iw => {}
            _ => c.finding(&key, msg),
        }
        return;
    }
    if c.stream == WIDE {
        // one-bit dense arrays with many elements: positions beyond 16 bits
        let iw = 14 + (c.index % 8) as u32;
        let ones = c.g.bool();
        let def = BigUint::from(ones as u8);
        let sub = build(c, Kind::Dense, iw, 1, &def);
        let pool = index_pool(&mut c.g, iw);
        let mut f = Fresh { sub, m: AM { iw, dw: 1, def, map: BTreeMap::new() }, pool, log: vec![format!("dense {iw}->1")] };
        for _ in 0..12 {
            c.evaluations += 1;
            update(c, &mut f, false);
            c.seen(f.m.hash());
        }
        check_shape(c, &f);
        check_all(c, &f, 1);
        return;
    }
    let k = kind(&mut c.g);
    let mut f = fresh(c, k);
    check_shape(c, &f);
    let steps = match c.g.below(4) {
        0 => c.g.range(1, 5),
        1..=2 => c.g.range(4, 30),
        _ => c.g.range(20, 90),
    };
    for _ in 0..steps {
        c.evaluations += 1;
        update(c, &mut f, true);
        c.seen(f.m.hash());
        if c.g.chance(6) {
            f.log.push("clone".into());
            let s = f.sub.clone();
            f.sub = if c.g.bool() {
                s
            } else {
                // over an array with another history
                let k = kind(&mut c.g);
                let mut o = fresh(c, k);
                for _ in 0..c.g.below(6) {
                    update(c, &mut o, true);
                }
                f.log.push(format!("(over {} by clone_from)", o.m.show()));
                let d = || f.m.show();
                c.call("clone_from", f.m.dw, &d, || match (o.sub, s) {
                    (Sub::A(mut t), Sub::A(s)) => {
                        t.clone_from(&s);
                        Sub::A(t)
                    }
                    (Sub::S(mut t), Sub::S(s)) => {
                        t.clone_from(&s);
                        Sub::S(t)
                    }
                    (_, s) => s,
                })
            };
        }
        if let Some((i, _)) = f.m.map.iter().next_back() {
            let i = i.clone();
            check_at(c, &f, &i);
        }
        let i = c.g.pick(&f.pool).clone();
        check_at(c, &f, &i);
    }
    check_shape(c, &f);
    check_all(c, &f, 512);
    c.sample(|| format!("{} | {}", f.m.show(), logs(&f.log)));
}

// ---------------------------------------------------------------- A02
pub const SLICES: u32 = 4;
pub const BIG: u32 = 5;
fn to_sparse(c: &mut Ctx, f: &mut Fresh) {
    if let Sub::A(a) = &f.sub {
        let (was, copy) = (a.is_dense(), a.clone());
        f.log.push(format!("into sparse (from {})", if was { "dense" } else { "sparse" }));
        let m = &f.m;
        let l = &f.log;
        let d = || format!("{} | history: {}", m.show(), logs(l));
        let s = c.call("SparseArrayValue::from", f.m.dw, &d, move || SparseArrayValue::from(copy));
        f.sub = Sub::S(s);
    }
}
fn make_dense(c: &mut Ctx, f: &mut Fresh) {
    if let Sub::A(a) = &mut f.sub {
        f.log.push("make_dense".into());
        let m = &f.m;
        let l = &f.log;
        let d = || format!("{} | history: {}", m.show(), logs(l));
        let r = c.call("make_dense", f.m.dw, &d, || {
            a.make_dense();
            (a.is_dense(), a.is_sparse())
        });
        c.eq("is_dense, is_sparse after make_dense", r, (true, false), &d);
    }
}
fn from_slice_array(c: &mut Ctx) -> Fresh {
    let kind = c.g.below(3);
    let len = match c.g.below(8) {
        0 => c.g.below(3),
        1 => {
            let p = c.g.range(1, 11);
            (1u64 << p) + c.g.below(3) - 1
        }
        2 => c.g.range(1, 1500),
        _ => c.g.range(1, 70),
    } as usize;
    let few = c.g.bool();
    let vals: Vec<u64> = (0..len)
        .map(|_| {
            let x = if few { c.g.below(4) * 0x55 } else { c.g.word() };
            match kind {
                0 => x & 1,
                1 => x & 0xff,
                _ => x,
            }
        })
        .collect();
    let dw = [1u32, 8, 64][kind as usize];
    let mut iw = 0;
    while (1usize << iw) < len {
        iw += 1;
    }
    let d = || format!("from a slice of {len} elements of width {dw}: {:x?}", &vals[..len.min(40)]);
    let a = c.call("From<slice>", dw, &d, || match kind {
        0 => {
            let v: Vec<bool> = vals.iter().map(|x| *x != 0).collect();
            ArrayValue::from(v.as_slice())
        }
        1 => {
            let v: Vec<u8> = vals.iter().map(|x| *x as u8).collect();
            ArrayValue::from(v.as_slice())
        }
        _ => ArrayValue::from(vals.as_slice()),
    });
    let map = vals.iter().enumerate().map(|(i, v)| (BigUint::from(i), BigUint::from(*v))).collect();
    let mut pool: Vec<BigUint> = vec![BigUint::from(0u8), pow2(iw) - 1u8];
    for _ in 0..6 {
        pool.push(BigUint::from(c.g.below(1u64 << iw)));
    }
    pool.push(BigUint::from(len.saturating_sub(1)));
    if len < 1usize << iw {
        pool.push(BigUint::from(len));
    }
    Fresh { sub: Sub::A(a), m: AM { iw, dw, def: BigUint::from(0u8), map }, pool, log: vec![d()] }
}
pub fn a02(c: &mut Ctx) {
    if c.stream == SCALE {
        return crate::p_scale::a02(c);
    }
    if c.stream == crate::p_wave::WAVE {
        return crate::p_wave::a02(c);
    }
    if c.stream == BIG {
        return a02_big(c);
    }
    let mut f = match c.stream {
        SLICES => from_slice_array(c),
        _ => {
            let k = *c.g.pick(&[Kind::Dense, Kind::ASparse]);
            let dw = data_width(&mut c.g);
            let iw = if k == Kind::Dense || c.g.chance(85) { dense_index_width(&mut c.g, dw) } else { sparse_index_width(&mut c.g) };
            let def = data(&mut c.g, dw, None);
            let sub = build(c, k, iw, dw, &def);
            let pool = index_pool(&mut c.g, iw);
            Fresh { sub, m: AM { iw, dw, def, map: BTreeMap::new() }, pool, log: vec![format!("{k:?} array {iw}->{dw}")] }
        }
    };
    c.evaluations += 1;
    if c.stream == SLICES {
        check_shape(c, &f);
        check_all(c, &f, 1 << 12);
    }
    // fill: few distinct values (some default), many, or a random history
    let dense_ok = f.m.iw <= 18;
    if f.m.iw <= 9 && c.g.chance(40) {
        let palette: Vec<BigUint> = (0..c.g.range(1, 6)).map(|_| data(&mut c.g, f.m.dw, None)).collect();
        for i in 0..1u64 << f.m.iw {
            let v = if c.g.chance(90) { c.g.pick(&palette).clone() } else { data(&mut c.g, f.m.dw, None) };
            do_store(c, &mut f, &BigUint::from(i), &v);
        }
    } else {
        for _ in 0..c.g.below(30) {
            update(c, &mut f, true);
        }
    }
    c.seen(f.m.hash());
    let phases = c.g.range(1, 4);
    for _ in 0..phases {
        let conv = c.g.below(3);
        if conv == 0 {
            to_sparse(c, &mut f);
        } else if dense_ok {
            make_dense(c, &mut f);
        }
        check_shape(c, &f);
        check_all(c, &f, 600);
        for _ in 0..c.g.below(8) {
            update(c, &mut f, true);
            let i = c.g.pick(&f.pool).clone();
            check_at(c, &f, &i);
        }
    }
    to_sparse(c, &mut f);
    check_shape(c, &f);
    check_all(c, &f, 600);
    for _ in 0..c.g.below(6) {
        update(c, &mut f, true);
    }
    check_all(c, &f, 600);
    c.sample(|| format!("{} | {}", f.m.show(), logs(&f.log)));
}
/// conversions of arrays with more distinct values than the search for a default looks at
fn a02_big(c: &mut Ctx) {
    c.evaluations += 1;
    let wide = c.index % 2 == 1;
    let iw = if wide { 20 } else { 21 } + (c.index % 4 / 2) as u32;
    let n = 1u64 << iw;
    let dup = c.g.range(1, 4);
    let salt = c.g.u64() | 1;
    let common = c.g.word();
    let head = (1u64 << 20) + c.g.below(1 << 16);
    let value = |i: u64| if i < head || i % dup != 0 { i.wrapping_mul(salt) } else { common };
    c.seen(hash_words(31, iw, &[salt, common, head, dup]));
    let d = || format!("array {iw}->{} element i = i*{salt:#x}, after {head} every {dup}th = {common:#x}", if wide { 128 } else { 64 });
    let mut a = if wide {
        let mut a = ArrayValue::new_dense(iw, &BitVecValue::zero(128));
        c.call("store all", 128, &d, || {
            for i in 0..n {
                a.store(&BitVecValue::from_u64(i, iw), &mk(128, &[value(i), 7]));
            }
        });
        a
    } else {
        let v: Vec<u64> = (0..n).map(value).collect();
        c.call("From<slice>", 64, &d, || ArrayValue::from(v.as_slice()))
    };
    let dw = if wide { 128 } else { 64 };
    let s = c.call("SparseArrayValue::from", dw, &d, || SparseArrayValue::from(a.clone()));
    let bad = c.call("select all", dw, &d, || {
        for i in 0..n {
            let r = s.select(&BitVecValue::from_u64(i, iw));
            let want = [value(i), 7];
            if r.width() != dw || r.words() != &want[..(dw / 64) as usize] {
                return Some((i, r.words().to_vec()));
            }
        }
        None
    });
    c.eq("first differing index", bad, None, &d);
    let i = c.g.below(n);
    let iv = BitVecValue::from_u64(i, iw);
    a.store(&iv, &BitVecValue::zero(dw));
    c.eq_val("store after", &a.select(&iv), &M::new(dw, BigUint::from(0u8)), &d);
}

// ---------------------------------------------------------------- A03
/// build the model's contents in a random representation, through a random history
fn realize(c: &mut Ctx, m: &AM) -> (ArrayValue, String) {
    let small = m.iw <= 9;
    let how = if small { c.g.below(5) } else { 1 };
    // a history that ends in the model's contents: noise first, then the real values
    let noise = |c: &mut Ctx, a: &mut ArrayValue, keys: &[BigUint]| {
        for k in keys {
            if c.g.chance(30) {
                let v = data(&mut c.g, m.dw, Some(&m.def));
                a.store(&mki(m.iw, k), &mkm(&M::new(m.dw, v)));
            }
        }
    };
    let mut keys: Vec<BigUint> = m.map.keys().cloned().collect();
    for i in (1..keys.len()).rev() {
        let j = c.g.below(i as u64 + 1) as usize;
        keys.swap(i, j);
    }
    let defv = mkm(&M::new(m.dw, m.def.clone()));
    let d = || m.show();
    let all: Vec<BigUint> = if small { (0..1u64 << m.iw).map(BigUint::from).collect() } else { vec![] };
    let seeds = (c.g.u64(), c.g.bool());
    let mut a;
    let mut name = String::new();
    match how {
        0 => {
            a = c.call("new_dense", m.dw, &d, || ArrayValue::new_dense(m.iw, &defv));
            name.push_str("dense");
        }
        1 => {
            a = c.call("new_sparse", m.dw, &d, || ArrayValue::new_sparse(m.iw, &defv));
            name.push_str("sparse");
        }
        2 | 3 => {
            // other default, every index overwritten
            let mut h = Gen::new(seeds.0);
            let od = data(&mut h, m.dw, Some(&m.def));
            let odv = mkm(&M::new(m.dw, od.clone()));
            let dense = how == 3;
            a = c.call("new", m.dw, &d, || if dense { ArrayValue::new_dense(m.iw, &odv) } else { ArrayValue::new_sparse(m.iw, &odv) });
            c.call("store", m.dw, &d, || {
                for k in &all {
                    a.store(&mki(m.iw, k), &mkm(&m.get(k)));
                }
            });
            return (a, format!("{} default {od:#x}, all written", if dense { "dense" } else { "sparse" }));
        }
        _ => {
            // cleared, then written
            a = c.call("new_sparse", m.dw, &d, || if seeds.1 { ArrayValue::new_sparse(m.iw, &defv) } else { ArrayValue::new_dense(m.iw, &defv) });
            noise(c, &mut a, &keys);
            a.clear();
            c.call("store", m.dw, &d, || {
                for k in &all {
                    let v = m.get(k);
                    a.store(&mki(m.iw, k), &mkm(&v));
                }
            });
            return (a, "cleared then written".into());
        }
    }
    let mut h = Ctx::new("A03", seeds.0, 99, 0);
    noise(&mut h, &mut a, &keys);
    let extra: Vec<BigUint> = (0..3).map(|_| big(&h.g.words(m.iw))).collect();
    for e in &extra {
        // touch and restore other indices
        if h.g.bool() {
            a.store(&mki(m.iw, e), &mkm(&M::new(m.dw, data(&mut h.g, m.dw, None))));
        } else {
            continue;
        }
        a.store(&mki(m.iw, e), &mkm(&m.get(e)));
    }
    c.call("store", m.dw, &d, || {
        for k in &keys {
            a.store(&mki(m.iw, k), &mkm(&m.get(k)));
        }
    });
    if how == 1 && small && seeds.1 {
        c.call("make_dense", m.dw, &d, || a.make_dense());
        name.push_str(" made dense");
    }
    (a, name)
}
fn random_model(c: &mut Ctx) -> AM {
    let dw = data_width(&mut c.g);
    let small = c.g.chance(75);
    let iw = if small { c.g.below(7) as u32 } else { sparse_index_width(&mut c.g) };
    let def = data(&mut c.g, dw, None);
    let mut m = AM { iw, dw, def, map: BTreeMap::new() };
    let pool = index_pool(&mut c.g, iw);
    let full = iw <= 4 && c.g.chance(50);
    if full {
        for i in 0..1u64 << iw {
            let v = data(&mut c.g, dw, Some(&m.def));
            m.map.insert(BigUint::from(i), v);
        }
    } else {
        for _ in 0..c.g.below(10) {
            let i = c.g.pick(&pool).clone();
            let v = data(&mut c.g, dw, Some(&m.def));
            m.map.insert(i, v);
        }
    }
    m
}
pub fn a03(c: &mut Ctx) {
    if c.stream == SCALE {
        return crate::p_scale::a03(c);
    }
    if c.stream == crate::p_wave::WAVE {
        return crate::p_wave::a03(c);
    }
    c.evaluations += 1;
    let m = random_model(c);
    let mut m2 = m.clone();
    let rel = c.g.below(10);
    match rel {
        0..=3 => {}
        4 => {
            // one index differs
            let i = if m.map.is_empty() || c.g.bool() { big(&c.g.words(m.iw)) } else { let k: Vec<BigUint> = m.map.keys().cloned().collect(); c.g.pick(&k).clone() };
            let w = m.get(&i).words();
            let x = big(&c.g.related(&w, m.dw));
            m2.map.insert(i, x);
        }
        5 => {
            // same entries, other default
            m2.def = data(&mut c.g, m.dw, Some(&m.def));
        }
        6 => {
            // other default and all but one (or all) of the indices written
            if m.iw <= 6 {
                m2.def = data(&mut c.g, m.dw, Some(&m.def));
                let skip = c.g.below(1u64 << m.iw);
                let keep = c.g.bool();
                for i in 0..1u64 << m.iw {
                    if i != skip || keep {
                        let k = BigUint::from(i);
                        m2.map.insert(k.clone(), m.get(&k).v);
                    }
                }
            }
        }
        7 => m2 = random_model(c),
        8 => {
            // swapped entries / moved entry
            if let Some((k, v)) = m.map.iter().next() {
                m2.map.remove(k);
                let w = M::new(m.iw, k.clone()).words();
                m2.map.insert(big(&c.g.related(&w, m.iw)), v.clone());
            }
        }
        _ => {
            // one entry more, holding the default (no difference) or not
            let i = big(&c.g.words(m.iw));
            let v = data(&mut c.g, m.dw, Some(&m.def));
            m2.map.insert(i, v);
        }
    }
    c.seen(m.hash() ^ m2.hash().rotate_left(7));
    let comparable = m.iw == m2.iw && m.dw == m2.dw;
    let want = comparable && m.ext_eq(&m2);
    let (a, na) = realize(c, &m);
    let (b, nb) = realize(c, &m2);
    let d = || format!("a = {} as {na}; b = {} as {nb}", m.show(), m2.show());
    c.ev(if !comparable { "different types" } else if want { "equal" } else { "unequal" }, m.dw);
    if want && comparable && m.def != m2.def {
        c.ev("equal with different defaults", m.dw);
    }
    let wopt = if comparable { Some(want) } else { None };
    let r = c.call("is_equal", m.dw, &d, || (a.is_equal(&b), b.is_equal(&a)));
    c.eq("is_equal both ways", r, (wopt, wopt), &d);
    let r = c.call("==", m.dw, &d, || (a == b, b == a, a != b, b != a));
    c.eq("== == != !=", r, (want, want, !want, !want), &d);
    let r = c.call("reflexive", m.dw, &d, || {
        let cl = a.clone();
        (a.is_equal(&a), a.is_equal(&cl), cl.is_equal(&a), a == cl)
    });
    c.eq("reflexive", r, (Some(true), Some(true), Some(true), true), &d);
    // wrapped values
    let (va, vb) = (Value::Array(a.clone()), Value::Array(b.clone()));
    let w = c.g.width(140);
    let xw = c.g.words(w);
    let (yw, w2) = if c.g.chance(80) { (c.g.words_or_related(&xw, w), w) } else { let w2 = c.g.width(140); (c.g.words(w2), w2) };
    let (x, y) = (Value::BitVec(mk(w, &xw)), Value::BitVec(mk(w2, &yw)));
    let dv = || format!("{} ; bit-vectors w={w} {xw:x?}, w={w2} {yw:x?}", d());
    let r = c.call("Value ==", m.dw, &dv, || (va == vb, va != vb, x == y, va == x, x == va, va == va.clone()));
    let ve = w == w2 && xw == yw;
    c.eq("Value equality", r, (want, !want, ve, false, false, true), &dv);
    let r = c.call("TryFrom<Value>", m.dw, &dv, || {
        (
            ArrayValue::try_from(va.clone()).map(|q| q.is_equal(&a)),
            BitVecValue::try_from(va.clone()).is_err(),
            ArrayValue::try_from(x.clone()).is_err(),
            BitVecValue::try_from(x.clone()).map(|q| (q.width(), q.words().to_vec())),
        )
    });
    c.eq("TryFrom<Value>", r, (Ok(Some(true)), true, true, Ok((w, xw.clone()))), &dv);
    c.sample(d);
}

// ---------------------------------------------------------------- A04
fn check_entries(c: &mut Ctx, f: &Fresh) {
    let Sub::S(s) = &f.sub else { return };
    let (iw, dw) = (f.m.iw, f.m.dw);
    let d = || format!("{} | history: {}", f.m.show(), logs(&f.log));
    let def = c.call("default", dw, &d, || s.default());
    c.eq("width of default", def.width(), dw, &d);
    let defm = BigUint::from_slice(&def.words().iter().flat_map(|w| [*w as u32, (*w >> 32) as u32]).collect::<Vec<_>>());
    c.expect(M::new(dw, defm.clone()).words() == def.words() && defm < pow2(dw), &|| format!("default is not a valid value {:x?} | {}", def.words(), d()));
    let e = c.call("non_default_entries", dw, &d, || s.non_default_entries().collect::<Vec<_>>());
    let mut got: BTreeMap<BigUint, BigUint> = BTreeMap::new();
    for (k, v) in &e {
        c.eq("widths of an entry", (k.width(), v.width(), k.words().len(), v.words().len()), (iw, dw, iw.div_ceil(64) as usize, dw.div_ceil(64) as usize), &d);
        let (ki, vi) = (big(k.words()), big(v.words()));
        c.expect(ki < pow2(iw) && vi < pow2(dw), &|| format!("entry out of range {ki:#x}->{vi:#x} | {}", d()));
        c.expect(vi != defm, &|| format!("entry {ki:#x} holds the default {vi:#x} | {}", d()));
        c.eq("data of an entry", M::new(dw, vi.clone()), f.m.get(&ki), &|| format!("entry {ki:#x} | {}", d()));
        c.expect(got.insert(ki.clone(), vi).is_none(), &|| format!("index {ki:#x} listed twice | {}", d()));
    }
    if c.g.chance(30) {
        // other ways of walking through the entries
        let n = e.len();
        let k = c.g.below(n as u64 + 2) as usize;
        let form = c.g.below(4);
        let (hint, left, more) = c.call("non_default_entries", dw, &d, || {
            let mut it = s.non_default_entries();
            let hint = it.size_hint();
            match form {
                0 => (hint, it.count(), vec![]),
                1 => {
                    let mut l: Vec<_> = it.by_ref().take(k).collect();
                    it.for_each(|x| l.push(x));
                    (hint, l.len(), l)
                }
                2 => {
                    let skipped = it.nth(k).map(|_| k + 1).unwrap_or(n);
                    (hint, skipped + it.fold(0, |x, _| x + 1), vec![])
                }
                _ => {
                    let l: std::collections::HashMap<_, _> = it.collect();
                    (hint, l.len(), l.into_iter().collect())
                }
            }
        });
        c.expect(hint.0 <= n && hint.1.is_none_or(|u| u >= n), &|| format!("size_hint {hint:?} for {n} entries | {}", d()));
        c.eq("number of entries", left, n, &|| format!("form {form}, k {k} | {}", d()));
        for (i, v) in &more {
            c.eq("entry", got.get(&big(i.words())).cloned(), Some(big(v.words())), &|| format!("form {form}, k {k} | {}", d()));
        }
    }
    // every index whose data differs from the reported default is listed
    if iw <= 12 {
        for i in 0..1u64 << iw {
            let k = BigUint::from(i);
            let v = f.m.get(&k).v;
            if v != defm {
                c.expect(got.contains_key(&k), &|| format!("index {k:#x} holds {v:#x} (default {defm:#x}) but is not listed | {}", d()));
            }
        }
    } else {
        for (k, v) in &f.m.map {
            if *v != defm {
                c.expect(got.contains_key(k), &|| format!("index {k:#x} holds {v:#x} (default {defm:#x}) but is not listed | {}", d()));
            }
        }
        // far fewer stores than indices: the default must be what untouched indices hold
        c.eq("default", defm, f.m.def.clone(), &d);
    }
    c.ev(if got.is_empty() { "no entries" } else { "entries" }, dw);
}
pub fn a04(c: &mut Ctx) {
    if c.stream == SCALE {
        return crate::p_scale::a04(c);
    }
    if c.stream == crate::p_wave::WAVE {
        return crate::p_wave::a04(c);
    }
    let mut f = match c.g.below(4) {
        0 => {
            let dw = data_width(&mut c.g);
            let iw = dense_index_width(&mut c.g, dw).min(9);
            let def = data(&mut c.g, dw, None);
            let sub = build(c, Kind::Dense, iw, dw, &def);
            let pool = index_pool(&mut c.g, iw);
            let mut f = Fresh { sub, m: AM { iw, dw, def, map: BTreeMap::new() }, pool, log: vec![format!("dense {iw}->{dw}")] };
            for _ in 0..c.g.below(40) {
                update(c, &mut f, true);
            }
            to_sparse(c, &mut f);
            f
        }
        1 => {
            let mut f = fresh(c, Kind::ASparse);
            for _ in 0..c.g.below(20) {
                update(c, &mut f, true);
            }
            to_sparse(c, &mut f);
            f
        }
        _ => fresh(c, Kind::Sparse),
    };
    check_entries(c, &f);
    let steps = c.g.range(1, 30);
    for _ in 0..steps {
        c.evaluations += 1;
        update(c, &mut f, true);
        c.seen(f.m.hash());
        if c.g.chance(25) && !f.m.map.is_empty() {
            // store the default over an entry
            let ks: Vec<BigUint> = f.m.map.keys().cloned().collect();
            let k = c.g.pick(&ks).clone();
            let v = f.m.def.clone();
            do_store(c, &mut f, &k, &v);
        }
        check_entries(c, &f);
    }
    c.sample(|| format!("{} | {}", f.m.show(), logs(&f.log)));
}

// ---------------------------------------------------------------- S01
pub const FORMATS: [&str; 4] = ["json", "bincode", "cbor", "json value"];
#[cfg(feature = "full")]
pub fn trip<T: Serialize + DeserializeOwned>(fmt: usize, x: &T) -> Result<T, String> {
    match fmt {
        0 => {
            let s = serde_json::to_string(x).map_err(|e| e.to_string())?;
            serde_json::from_str(&s).map_err(|e| e.to_string())
        }
        1 => {
            let b = bincode::serialize(x).map_err(|e| e.to_string())?;
            bincode::deserialize(&b).map_err(|e| e.to_string())
        }
        2 => {
            let mut b = vec![];
            ciborium::into_writer(x, &mut b).map_err(|e| e.to_string())?;
            ciborium::from_reader(b.as_slice()).map_err(|e| e.to_string())
        }
        _ => {
            let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
    }
}
#[cfg(not(feature = "full"))]
pub fn s01(_: &mut Ctx) {
    panic!("harness: built without serialization")
}
#[cfg(feature = "full")]
pub fn s01(c: &mut Ctx) {
    if c.stream == SCALE {
        return crate::p_scale::s01(c);
    }
    if c.stream == crate::p_wave::WAVE {
        return crate::p_wave::s01(c);
    }
    c.evaluations += 1;
    let fmt = c.g.below(4) as usize;
    let name = FORMATS[fmt];
    if c.g.chance(40) {
        let w = if c.g.chance(1) { 0 } else { c.g.width(3000) };
        let a = c.g.words(w);
        c.seen(hash_words(32 + fmt as u64, w, &a));
        let v = mk(w, &a);
        let m = M::from_words(w, &a);
        let d = || format!("{name} round trip of {}", m.hex());
        let r = c.call("bit-vector round trip", w, &d, || trip(fmt, &v));
        match r {
            Err(e) => c.violate(format!("{name}: {e} | {}", d())),
            Ok(r) => {
                c.eq_val("deserialized", &r, &m, &d);
                let s = c.call("use", w, &d, || {
                    let same = r.to_hex_str() == v.to_hex_str() && r.to_bytes_le() == v.to_bytes_le();
                    // there is nothing to invert at width zero
                    (r == v, v == r, r.clone() == v, same && (w == 0 || r.not().words().to_vec() == v.not().words()))
                });
                c.eq("behaves identically", s, (true, true, true, true), &d);
            }
        }
        return;
    }
    let k = kind(&mut c.g);
    let mut f = fresh(c, k);
    for _ in 0..c.g.below(30) {
        update(c, &mut f, true);
    }
    if c.g.chance(30) {
        if c.g.bool() || f.m.iw > 18 {
            to_sparse(c, &mut f);
        } else {
            make_dense(c, &mut f);
        }
    }
    // JSON cannot carry bit-vectors as map keys
    let carries = |f: &Fresh| !(f.m.iw > 64 && (fmt == 0 || fmt == 3));
    c.seen(f.m.hash() ^ fmt as u64);
    if !carries(&f) {
        c.ev("format cannot carry the keys", f.m.dw);
        return;
    }
    let d0 = format!("{name} round trip of {} | history: {}", f.m.show(), logs(&f.log));
    let d = || d0.clone();
    let back = c.call("array round trip", f.m.dw, &d, || match &f.sub {
        Sub::A(a) => trip(fmt, a).map(Sub::A),
        Sub::S(a) => trip(fmt, a).map(Sub::S),
    });
    let back = match back {
        Ok(b) => b,
        Err(e) => c.violate(format!("{name}: {e} | {d0}")),
    };
    if let (Sub::A(x), Sub::A(y)) = (&f.sub, &back) {
        c.eq("representation kind", (y.is_dense(), y.is_sparse()), (x.is_dense(), x.is_sparse()), &d);
        let r = c.call("is_equal", f.m.dw, &d, || (x.is_equal(y), y.is_equal(x), x == y));
        c.eq("compares equal", r, (Some(true), Some(true), true), &d);
    }
    if let (Sub::S(x), Sub::S(y)) = (&f.sub, &back) {
        let r = c.call("entries", f.m.dw, &d, || {
            let key = |s: &SparseArrayValue| s.non_default_entries().map(|(k, v)| (k.words().to_vec(), v.words().to_vec())).collect::<BTreeSet<_>>();
            (x.default() == y.default(), key(x) == key(y))
        });
        c.eq("same default, same entries", r, (true, true), &d);
    }
    f.sub = back;
    f.log.push(format!("{name} round trip"));
    check_shape(c, &f);
    check_all(c, &f, 300);
    for _ in 0..c.g.below(10) {
        update(c, &mut f, true);
    }
    check_all(c, &f, 300);
    c.sample(|| format!("{} | {}", f.m.show(), logs(&f.log)));
}
