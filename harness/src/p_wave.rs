//! Arrays that grow to hundreds or thousands of entries, shrink again, are cleared and grow anew: what a table does when it
//! is resized, rehashed or emptied shows only over such a history. Every index ever used is read after each phase.
use crate::ctx::*;
use crate::gen::{mask_top, mix};
use crate::p_scale::{all_right, fill, num, Big, Ws};
use baa::*;
use std::collections::{BTreeMap, BTreeSet};

pub const WAVE: u32 = 24;
pub const NAME: &str = "arrays that grow and shrink by hundreds of entries";

/// the i-th index of a family
fn key(fam: u64, seed: u64, i: u64, iw: u32) -> Ws {
    let all = |x: u64| -> Ws {
        let mut v = num(iw, x);
        v.iter_mut().for_each(|w| *w = !*w);
        mask_top(&mut v, iw);
        v
    };
    match fam {
        0 => fill(seed, i, iw),
        1 => num(iw, i),
        2 => all(i),
        3 => {
            // multiples of a power of two
            let k = seed % iw as u64;
            let mut v = vec![0; iw.div_ceil(64) as usize];
            let at = (k / 64) as usize;
            v[at] = i << (k % 64);
            if at + 1 < v.len() && k % 64 > 0 {
                v[at + 1] = i >> (64 - k % 64);
            }
            mask_top(&mut v, iw);
            v
        }
        4 => {
            // the top bit set
            let mut v = fill(seed, i, iw);
            let b = iw - 1;
            v[(b / 64) as usize] |= 1 << (b % 64);
            v
        }
        _ => {
            // two that differ in one bit
            let mut v = fill(seed, i / 2, iw);
            if i % 2 == 1 {
                let b = seed % iw as u64;
                v[(b / 64) as usize] ^= 1 << (b % 64);
            }
            v
        }
    }
}

struct Wave {
    m: Big,
    ever: BTreeSet<Ws>,
    fam: u64,
    seed: u64,
    next: u64,
    log: Vec<String>,
}

fn put(c: &mut Ctx, a: &mut impl ArrayMutOps, w: &mut Wave, jobs: Vec<(Ws, Ws)>) {
    let (iw, dw) = (w.m.iw, w.m.dw);
    {
        let (m, log) = (&w.m, &w.log);
        let d = || format!("{} | phases: {}", m.show(), log.join(", "));
        c.call("store", dw, &d, || jobs.iter().for_each(|(i, v)| a.store(&mk(iw, i), &mk(dw, v))));
    }
    for (i, v) in jobs {
        w.ever.insert(i.clone());
        w.m.map.insert(i, v);
    }
}

fn phase(c: &mut Ctx, a: &mut impl ArrayMutOps, w: &mut Wave, max: u64) {
    let live: Vec<Ws> = w.m.map.iter().filter(|(_, v)| **v != w.m.def).map(|(k, _)| k.clone()).collect();
    let (iw, dw) = (w.m.iw, w.m.dw);
    let what = if live.is_empty() { 0 } else { c.g.below(10) };
    let few = c.g.chance(30);
    let s = c.g.u64();
    let val = |i: u64| if few { fill(s, i % 3, dw) } else { fill(s, i, dw) };
    let mut jobs = vec![];
    match what {
        0..=3 => {
            let n = match c.g.below(4) {
                0 => c.g.range(1, 20),
                1 => c.g.range(20, 200),
                _ => c.g.range(100, max),
            };
            if c.g.chance(20) {
                w.fam = c.g.below(6);
            }
            for _ in 0..n {
                jobs.push((key(w.fam, w.seed, w.next, iw), val(w.next)));
                w.next += 1;
            }
            w.log.push(format!("{n} stores of family {}", w.fam));
        }
        4..=6 => {
            // take most of them away
            let keep = match c.g.below(4) {
                0 => 0,
                1 => c.g.below(3),
                _ => c.g.below(live.len() as u64 / 2 + 1),
            };
            let from = c.g.below(live.len() as u64) as usize;
            let order = c.g.below(3);
            let n = live.len() - (keep as usize).min(live.len());
            for j in 0..n {
                let k = &live[match order {
                    0 => j,
                    1 => live.len() - 1 - j,
                    _ => (from + j) % live.len(),
                }];
                jobs.push((k.clone(), w.m.def.clone()));
            }
            w.log.push(format!("{n} of {} taken away", live.len()));
        }
        7 => {
            // each taken away and put back, or the other way round
            let n = c.g.range(1, 300).min(live.len() as u64);
            for j in 0..n {
                let k = live[(mix(s ^ j) % live.len() as u64) as usize].clone();
                jobs.push((k.clone(), w.m.def.clone()));
                if c.g.chance(70) {
                    jobs.push((k, val(j)));
                }
            }
            w.log.push(format!("{n} taken away and mostly put back"));
        }
        8 => {
            for k in live.iter().step_by(2) {
                jobs.push((k.clone(), val(k[0])));
            }
            w.log.push("every other overwritten".into());
        }
        _ => {
            c.call("clear", dw, &|| "clear".into(), || a.clear());
            w.m.map.clear();
            w.m.def = vec![0; w.m.def.len()];
            w.log.push("clear".into());
            return;
        }
    }
    c.evaluations += jobs.len() as u64;
    put(c, a, w, jobs);
}

fn check(c: &mut Ctx, a: &impl ArrayOps, w: &Wave, how: &str) {
    all_right(c, a, &w.m, how);
    let iw = w.m.iw;
    let bad = c.call("select", w.m.dw, &|| w.m.show(), || {
        w.ever
            .iter()
            .find(|i| {
                let r = a.select(&mk(iw, i));
                r.width() != w.m.dw || r.words() != w.m.get(i).as_slice()
            })
            .cloned()
    });
    c.expect(bad.is_none(), &|| format!("{how}: index {bad:x?} does not hold {:x?} | {} | phases: {}", bad.as_ref().map(|b| w.m.get(b)), w.m.show(), w.log.join(", ")));
}

/// `extra` looks at the array after each phase and may replace it
fn run<T: ArrayOps + ArrayMutOps + Clone>(c: &mut Ctx, iw: u32, dw: u32, new: impl Fn(u32, &BitVecValue) -> T, mut extra: impl FnMut(&mut Ctx, &mut T, &Wave)) {
    let seed = c.g.u64();
    let def = if c.g.chance(40) { vec![0; dw.div_ceil(64) as usize] } else { fill(seed, 7, dw) };
    let fam = c.g.below(6);
    let mut w = Wave { m: Big { iw, dw, def, map: BTreeMap::new() }, ever: BTreeSet::new(), fam, seed, next: 0, log: vec![] };
    let dv = mk(dw, &w.m.def);
    let mut a = c.call("new", dw, &|| format!("new {iw} -> {dw}"), || new(iw, &dv));
    let phases = c.g.range(3, 9);
    let max = if iw > 16 && c.g.chance(20) { 3000 } else { 600 };
    let mut old: Option<(T, Wave)> = None;
    for _ in 0..phases {
        phase(c, &mut a, &mut w, max);
        check(c, &a, &w, "after a phase");
        extra(c, &mut a, &w);
        c.seen(hash_words(70 + w.m.map.len() as u64, iw, &[w.seed, w.next, w.log.len() as u64]));
        if c.g.chance(20) {
            let cl = c.call("clone", dw, &|| w.m.show(), || a.clone());
            let cw = Wave { m: Big { iw, dw, def: w.m.def.clone(), map: w.m.map.clone() }, ever: w.ever.clone(), fam, seed, next: w.next, log: w.log.clone() };
            if c.g.bool() {
                old = Some((cl, cw));
            } else {
                old = Some((std::mem::replace(&mut a, cl), cw));
            }
        }
    }
    if let Some((o, cw)) = old {
        check(c, &o, &cw, "an older copy");
    }
    c.ev(if w.m.map.values().any(|v| *v != w.m.def) { "entries left" } else { "emptied" }, dw);
    c.sample(|| format!("{} | phases: {}", w.m.show(), w.log.join(", ")));
}

fn widths(c: &mut Ctx, dense: bool) -> (u32, u32) {
    let dw = *c.g.pick(&[1u32, 8, 5, 64, 33, 65, 130, 128, 200]);
    let iw = if dense { *c.g.pick(&[5u32, 6, 7, 8, 9, 10, 11]) } else { *c.g.pick(&[8u32, 10, 17, 32, 33, 40, 63, 64, 64, 65, 80, 128, 140, 257, 600]) };
    (iw, dw)
}
fn array(iw: u32, def: &BitVecValue, dense: bool) -> ArrayValue {
    if dense {
        ArrayValue::new_dense(iw, def)
    } else {
        ArrayValue::new_sparse(iw, def)
    }
}

pub fn a01(c: &mut Ctx) {
    match c.g.below(4) {
        0 => {
            let (iw, dw) = widths(c, true);
            run(c, iw, dw, |i, d| array(i, d, true), |_, _, _| {})
        }
        1 => {
            let (iw, dw) = widths(c, false);
            run(c, iw, dw, |i, d| array(i, d, false), |_, _, _| {})
        }
        _ => {
            let (iw, dw) = widths(c, false);
            run(c, iw, dw, |i, d| SparseArrayValue::new(i, d), |_, _, _| {})
        }
    }
}

pub fn a02(c: &mut Ctx) {
    let (iw, dw) = widths(c, true);
    let dense = c.g.bool();
    run(
        c,
        iw,
        dw,
        |i, d| array(i, d, dense),
        |c, a, w| {
            let d = || format!("{} | phases: {}", w.m.show(), w.log.join(", "));
            let s = c.call("SparseArrayValue::from", dw, &d, || SparseArrayValue::from(a.clone()));
            check(c, &s, w, "converted to sparse");
            if c.g.chance(30) {
                let mut t = a.clone();
                c.call("make_dense", dw, &d, || t.make_dense());
                check(c, &t, w, "made dense");
                if c.g.bool() {
                    *a = t;
                }
            }
        },
    )
}

pub fn a03(c: &mut Ctx) {
    let dense = c.g.bool();
    let (iw, dw) = widths(c, dense);
    run(
        c,
        iw,
        dw,
        |i, d| array(i, d, dense),
        |c, a, w| {
            let small = iw <= 11;
            let other = small && c.g.bool();
            // the same contents, stored at once
            let d = || format!("{} | phases: {}", w.m.show(), w.log.join(", "));
            let rev = c.g.bool();
            let dv = mk(dw, &w.m.def);
            let mut b = c.call("new and store", dw, &d, || {
                let mut b = array(iw, &dv, other);
                let mut put = |(k, v): (&Ws, &Ws)| b.store(&mk(iw, k), &mk(dw, v));
                if rev {
                    w.m.map.iter().rev().for_each(&mut put)
                } else {
                    w.m.map.iter().for_each(&mut put)
                }
                b
            });
            let r = c.call("is_equal", dw, &d, || (a.is_equal(&b), b.is_equal(a), *a == b, b != *a));
            c.eq("is_equal both ways, ==, != to the same contents stored at once", r, (Some(true), Some(true), true, false), &d);
            // one index differs
            let k = match w.ever.iter().nth(c.g.below(w.ever.len().max(1) as u64) as usize) {
                Some(k) => k.clone(),
                None => return,
            };
            let mut v = w.m.get(&k).clone();
            let bit = c.g.below(dw as u64);
            v[(bit / 64) as usize] ^= 1 << (bit % 64);
            let r = c.call("is_equal", dw, &d, || {
                b.store(&mk(iw, &k), &mk(dw, &v));
                (a.is_equal(&b), b.is_equal(a), *a == b, b != *a)
            });
            c.eq("is_equal both ways, ==, != with one index changed", r, (Some(false), Some(false), false, true), &|| format!("index {k:x?}, {}", d()));
        },
    )
}

pub fn a04(c: &mut Ctx) {
    let (iw, dw) = widths(c, false);
    run(c, iw, dw, |i, d| SparseArrayValue::new(i, d), |c, a, w| {
        let d = || format!("{} | phases: {}", w.m.show(), w.log.join(", "));
        let def = c.call("default", dw, &d, || a.default());
        if w.m.map.len() < 200 || iw > 12 {
            c.eq("default", def.words().to_vec(), w.m.def.clone(), &d);
        }
        let defw = def.words().to_vec();
        let got: Vec<(Ws, Ws)> = c.call("non_default_entries", dw, &d, || {
            a.non_default_entries()
                .map(|(k, v)| {
                    assert!(k.width() == iw && v.width() == dw, "entry of width {} -> {}", k.width(), v.width());
                    (k.words().to_vec(), v.words().to_vec())
                })
                .collect()
        });
        let n = c.call("count", dw, &d, || a.non_default_entries().count());
        c.eq("count of entries", n, got.len(), &d);
        let k = got.len();
        let got: BTreeMap<Ws, Ws> = got.into_iter().collect();
        c.eq("number of distinct indices listed", got.len(), k, &d);
        let want: BTreeMap<Ws, Ws> = if defw == w.m.def {
            w.m.map.iter().filter(|(_, v)| **v != defw).map(|(k, v)| (k.clone(), v.clone())).collect()
        } else {
            (0..1u64 << iw).map(|i| num(iw, i)).filter(|i| *w.m.get(i) != defw).map(|i| (i.clone(), w.m.get(&i).clone())).collect()
        };
        if got != want {
            let bad = got.iter().find(|(k, v)| want.get(*k) != Some(v)).or_else(|| want.iter().find(|(k, _)| !got.contains_key(*k)));
            c.violate(format!("{} entries listed, {} expected, first difference at {bad:x?} | {}", got.len(), want.len(), d()));
        }
    })
}

#[cfg(not(feature = "full"))]
pub fn s01(_: &mut Ctx) {
    panic!("harness: built without serialization")
}
#[cfg(feature = "full")]
pub fn s01(c: &mut Ctx) {
    use crate::p_arr::{trip, FORMATS};
    let fmt = c.g.below(4) as usize;
    let (mut iw, dw) = widths(c, false);
    if fmt == 0 || fmt == 3 {
        iw = iw.min(64);
    }
    run(c, iw, dw, |i, d| SparseArrayValue::new(i, d), |c, a, w| {
        let d = || format!("{} round trip of {} | phases: {}", FORMATS[fmt], w.m.show(), w.log.join(", "));
        let b = match c.call("array round trip", dw, &d, || trip(fmt, a)) {
            Ok(b) => b,
            Err(e) => c.violate(format!("{e} | {}", d())),
        };
        check(c, &b, w, "deserialized");
        if c.g.bool() {
            *a = b;
        }
    })
}
