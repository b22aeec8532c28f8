//! B02-B11, B13: exactness of bit-vector operations against the integer model.
use crate::ctx::*;
use crate::gen::Gen;
use crate::model::*;
use crate::ops;
use crate::p_scale::SCALE;
use crate::p_ultra::ULTRA;
use crate::text;
#[allow(unused_imports)]
use crate::shim::*;
use baa::*;
use num_bigint::{BigInt, BigUint, Sign};

pub const EXH: u32 = 0;
pub const SWEEP: u32 = 1;
pub const RND: u32 = 2;
pub const GRID: u32 = 3;

pub fn sweep_width(i: u64, w_max: u64) -> (u32, u64) {
    (1 + (i % w_max) as u32, i / w_max)
}
pub const SWEEP_W: u64 = 640;

/// number of (w, a, b) with w in 1..=n
pub fn exh_total(n: u32) -> u64 {
    (1..=n).map(|w| 1u64 << (2 * w)).sum()
}
fn exh(i: u64) -> (u32, u64, u64) {
    let mut i = i;
    let mut w = 1;
    while i >= 1u64 << (2 * w) {
        i -= 1u64 << (2 * w);
        w += 1;
    }
    (w, i & ((1 << w) - 1), i >> w)
}

/// operand pair of equal width for the current stream
pub fn pair(c: &mut Ctx) -> (u32, Vec<u64>, Vec<u64>) {
    let i = c.index;
    match c.stream {
        EXH => {
            let (w, a, b) = exh(i);
            (w, vec![a], vec![b])
        }
        SWEEP => {
            let (w, r) = sweep_width(i, SWEEP_W);
            let a = c.g.words_cls(w, r % Gen::CLASSES);
            let b = if r / Gen::CLASSES % (Gen::CLASSES + 3) < Gen::CLASSES {
                c.g.words_cls(w, r / Gen::CLASSES % (Gen::CLASSES + 3))
            } else {
                c.g.related(&a, w)
            };
            (w, a, b)
        }
        _ => {
            let w = c.width(9000);
            let a = c.g.words(w);
            let b = c.g.words_or_related(&a, w);
            if c.g.bool() {
                (w, a, b)
            } else {
                (w, b, a)
            }
        }
    }
}

fn two(c: &mut Ctx, tag: u64, w: u32, a: &[u64], b: &[u64]) {
    c.evaluations += 1;
    if w > 1 && nontrivial(a) && nontrivial(b) {
        c.seen(hash_words(hash_words(tag, w, a), w, b));
    }
    c.sample(|| format!("w={w} a={a:x?} b={b:x?}"));
}
fn one(c: &mut Ctx, tag: u64, w: u32, a: &[u64]) {
    c.evaluations += 1;
    if w > 1 && nontrivial(a) {
        c.seen(hash_words(tag, w, a));
    }
    c.sample(|| format!("w={w} a={a:x?}"));
}

// ---------------------------------------------------------------- B02
pub fn b02(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    let (w, aw, bw) = pair(c);
    two(c, 2, w, &aw, &bw);
    let (ma, mb) = (M::from_words(w, &aw), M::from_words(w, &bw));
    let (a, b) = (mk(w, &aw), mk(w, &bw));
    // one object as both operands
    let b = if aw == bw && c.g.bool() { &a } else { &b };
    let d = || format!("a={} b={}", ma.hex(), mb.hex());
    let (ia, ib) = (BigInt::from(ma.v.clone()), BigInt::from(mb.v.clone()));
    let add = M::wrap(w, &(&ma.v + &mb.v));
    let sub = M::wrap_int(w, &(&ia - &ib));
    let r = c.call("add", w, &d, || BitVecOps::add(&a, b));
    c.eq_val("add", &r, &add, &d);
    let r = c.call("sub", w, &d, || BitVecOps::sub(&a, b));
    c.eq_val("sub", &r, &sub, &d);
    let r = c.call("operator +", w, &d, || &a + b);
    c.eq_val("operator +", &r, &add, &d);
    let r = c.call("operator -", w, &d, || &a - b);
    c.eq_val("operator -", &r, &sub, &d);
    let r = c.call("negate", w, &d, || a.negate());
    c.eq_val("negate", &r, &M::wrap_int(w, &-&ia), &d);
    if w <= 2200 || (w <= 40_000 && c.g.chance(20)) {
        let r = c.call("mul", w, &d, || a.mul(b));
        c.eq_val("mul", &r, &M::wrap(w, &(&ma.v * &mb.v)), &d);
    }
}

// ---------------------------------------------------------------- B03
pub fn b03(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    let (w, aw, bw) = pair(c);
    two(c, 3, w, &aw, &bw);
    let (ma, mb) = (M::from_words(w, &aw), M::from_words(w, &bw));
    let (a, b) = (mk(w, &aw), mk(w, &bw));
    // one object as both operands
    let b = if aw == bw && c.g.bool() { &a } else { &b };
    let d = || format!("a={} b={}", ma.hex(), mb.hex());
    let r = c.call("and", w, &d, || a.and(b));
    c.eq_val("and", &r, &M::new(w, &ma.v & &mb.v), &d);
    let r = c.call("or", w, &d, || a.or(b));
    c.eq_val("or", &r, &M::new(w, &ma.v | &mb.v), &d);
    let r = c.call("xor", w, &d, || a.xor(b));
    c.eq_val("xor", &r, &M::new(w, &ma.v ^ &mb.v), &d);
    let r = c.call("not", w, &d, || a.not());
    c.eq_val("not", &r, &M::new(w, (pow2(w) - 1u8) ^ &ma.v), &d);
}

// ---------------------------------------------------------------- B04
pub fn b04_grid_total(wmax: u64) -> u64 {
    (1..=wmax).map(|w| w + 3).sum()
}
pub fn b04(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    let (w, aw, bw) = match c.stream {
        GRID => {
            // every amount 0..=w+2 at every width
            let (mut i, mut w) = (c.index, 1u64);
            while i >= w + 3 {
                i -= w + 3;
                w += 1;
            }
            let w32 = w as u32;
            if w < 63 && i >= 1 << w {
                return;
            }
            let cls = *c.g.pick(&[2u64, 3, 4, 9, 10, 13, 13, 11, 8, 5]);
            let a = c.g.words_cls(w32, cls);
            let mut b = vec![0; w32.div_ceil(64) as usize];
            b[0] = i;
            (w32, a, b)
        }
        EXH => pair(c),
        _ => {
            let w = if c.stream == SWEEP { sweep_width(c.index, SWEEP_W).0 } else { c.width(9000) };
            let a = c.g.words(w);
            let b = c.g.shift_amount(w);
            (w, a, b)
        }
    };
    two(c, 4, w, &aw, &bw);
    let (ma, mb) = (M::from_words(w, &aw), M::from_words(w, &bw));
    let (a, b) = (mk(w, &aw), mk(w, &bw));
    // one object as both operands
    let b = if aw == bw && c.g.bool() { &a } else { &b };
    let d = || format!("a={} b={}", ma.hex(), mb.hex());
    let amount: u32 = if mb.v >= BigUint::from(w) { w } else { mb.v.iter_u32_digits().next().unwrap_or(0) };
    let r = c.call("shift_left", w, &d, || a.shift_left(b));
    c.eq_val("shift_left", &r, &M::wrap(w, &(&ma.v << amount)), &d);
    let r = c.call("shift_right", w, &d, || a.shift_right(b));
    c.eq_val("shift_right", &r, &M::new(w, &ma.v >> amount), &d);
    let r = c.call("arithmetic_shift_right", w, &d, || a.arithmetic_shift_right(b));
    // num-bigint's >> on negative integers rounds towards minus infinity
    c.eq_val("arithmetic_shift_right", &r, &M::wrap_int(w, &(ma.int() >> amount)), &d);
    if amount >= w {
        c.ev("over-shift", w);
    }
}

// ---------------------------------------------------------------- B05
pub const CONCAT: u32 = 4;
pub const EXT: u32 = 5;
pub fn b05_slice_total(wmax: u64) -> u64 {
    (1..=wmax).map(|w| w * (w + 1) / 2).sum()
}
fn check_slice(c: &mut Ctx, w: u32, aw: &[u64], msb: u32, lsb: u32) {
    let ma = M::from_words(w, aw);
    let a = mk(w, aw);
    let d = || format!("a={} msb={msb} lsb={lsb}", ma.hex());
    let r = c.call("slice", w, &d, || a.slice(msb, lsb));
    c.eq_val("slice", &r, &M::wrap(msb - lsb + 1, &(&ma.v >> lsb)), &d);
}
fn check_concat(c: &mut Ctx, wa: u32, aw: &[u64], wb: u32, bw: &[u64]) {
    let (ma, mb) = (M::from_words(wa, aw), M::from_words(wb, bw));
    let (a, b) = (mk(wa, aw), mk(wb, bw));
    let d = || format!("a={} b={}", ma.hex(), mb.hex());
    let r = c.call("concat", wa + wb, &d, || a.concat(&b));
    c.eq_val("concat", &r, &M::new(wa + wb, (&ma.v << wb) | &mb.v), &d);
}
/// a large difference of widths, often a round number
fn big_step(g: &mut Gen) -> u32 {
    match g.below(3) {
        0 => g.dict().min(200_000) as u32,
        1 => (1 << g.range(8, 17)) + g.below(3) as u32 - 1,
        _ => g.below(140_000) as u32,
    }
}
fn check_ext(c: &mut Ctx, w: u32, aw: &[u64], by: u32) {
    let ma = M::from_words(w, aw);
    let a = mk(w, aw);
    let d = || format!("a={} by={by}", ma.hex());
    let r = c.call("zero_extend", w + by, &d, || a.zero_extend(by));
    c.eq_val("zero_extend", &r, &M::new(w + by, ma.v.clone()), &d);
    let r = c.call("sign_extend", w + by, &d, || a.sign_extend(by));
    c.eq_val("sign_extend", &r, &M::wrap_int(w + by, &ma.int()), &d);
}
pub fn b05(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    match c.stream {
        GRID => {
            let (mut i, mut w) = (c.index, 1u64);
            while i >= w * (w + 1) / 2 {
                i -= w * (w + 1) / 2;
                w += 1;
            }
            let mut msb = 0;
            while i > msb {
                i -= msb + 1;
                msb += 1;
            }
            let cls = *c.g.pick(&[2u64, 13, 13, 11, 9, 4]);
            let a = c.g.words_cls(w as u32, cls);
            one(c, 5 + (msb << 8) + (i << 20), w as u32, &a);
            check_slice(c, w as u32, &a, msb as u32, i as u32);
        }
        CONCAT => {
            let (wa, wb) = (1 + (c.index % 200) as u32, 1 + (c.index / 200 % 200) as u32);
            let (a, b) = (c.g.words(wa), c.g.words(wb));
            two(c, 6, wa + wb, &a, &b);
            check_concat(c, wa, &a, wb, &b);
        }
        EXT => {
            let (w, by) = (1 + (c.index % 200) as u32, (c.index / 200 % 201) as u32);
            let cls = *c.g.pick(&[3u64, 2, 8, 4, 9, 13]);
            let a = c.g.words_cls(w, cls);
            one(c, 7 + ((by as u64) << 8), w, &a);
            check_ext(c, w, &a, by);
        }
        _ => {
            let w = c.width(9000);
            let a = c.g.words(w);
            let p = ops::Params::valid(&mut c.g, w);
            one(c, 8, w, &a);
            check_slice(c, w, &a, p.msb, p.lsb);
            let by = if c.g.chance(2) { big_step(&mut c.g) } else { p.by };
            check_ext(c, w, &a, by);
            if c.g.chance(3) {
                // there is no width for the result
                let by = u32::MAX - w + c.g.range(1, w.min(300) as u64) as u32;
                for sign in [false, true] {
                    let v = mk(w, &a);
                    if let Some(r) = c.may_refuse("extension beyond the largest width", w, || if sign { v.sign_extend(by) } else { v.zero_extend(by) }) {
                        c.violate(format!("extending a value of width {w} by {by} gave a value of width {}", r.width()));
                    }
                }
            }
            let wb = c.width(9000);
            let b = c.g.words(wb);
            check_concat(c, w, &a, wb, &b);
        }
    }
}

// ---------------------------------------------------------------- B06
pub fn b06(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    let (w, aw, bw) = pair(c);
    two(c, 9, w, &aw, &bw);
    let (ma, mb) = (M::from_words(w, &aw), M::from_words(w, &bw));
    let (a, b) = (mk(w, &aw), mk(w, &bw));
    // one object as both operands
    let b = if aw == bw && c.g.bool() { &a } else { &b };
    let d = || format!("a={} b={}", ma.hex(), mb.hex());
    let (sa, sb) = (ma.int(), mb.int());
    if ma.v == mb.v {
        c.ev("equal operands", w);
    }
    if ma.neg() && mb.neg() {
        c.ev("both negative", w);
    }
    let (x, y) = (&ma.v, &mb.v);
    let table: [(&'static str, bool); 10] = [
        ("is_equal", x == y),
        ("is_not_equal", x != y),
        ("is_greater", x > y),
        ("is_greater_or_equal", x >= y),
        ("is_less", x < y),
        ("is_less_or_equal", x <= y),
        ("is_greater_signed", sa > sb),
        ("is_greater_or_equal_signed", sa >= sb),
        ("is_less_signed", sa < sb),
        ("is_less_or_equal_signed", sa <= sb),
    ];
    for (k, (name, want)) in table.into_iter().enumerate() {
        let got = c.call(name, w, &d, || match ops::bin(9 + k, &a, b) {
            ops::Out::Bool(r) => r,
            _ => unreachable!(),
        });
        c.eq(name, got, want, &d);
    }
}

// ---------------------------------------------------------------- B07
pub fn b07_grid_total(wmax: u64) -> u64 {
    wmax * (wmax + 1) / 2
}
fn predicates(c: &mut Ctx, v: &BitVecValue, m: &M) {
    let w = m.w;
    let d = || format!("a={}", m.hex());
    let zero = m.v == BigUint::from(0u8);
    let one = m.v == BigUint::from(1u8);
    let r = c.call("is_zero", w, &d, || v.is_zero());
    c.eq("is_zero", r, zero, &d);
    let r = c.call("is_negative", w, &d, || v.is_negative());
    c.eq("is_negative", r, m.neg(), &d);
    let r = c.call("is_tru", w, &d, || v.is_tru());
    c.eq("is_tru", r, w == 1 && one, &d);
    let r = c.call("is_fals", w, &d, || v.is_fals());
    c.eq("is_fals", r, w == 1 && zero, &d);
    let r = c.call("to_bool", w, &d, || v.to_bool());
    c.eq("to_bool", r, if w == 1 { Some(one) } else { None }, &d);
}
pub fn b07(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    let zero = BigUint::from(0u8);
    match c.stream {
        GRID => {
            // every position at every width: test, set, clear
            let (mut i, mut w) = (c.index, 1u64);
            while i >= w {
                i -= w;
                w += 1;
            }
            let (w, p) = (w as u32, i as u32);
            let a = c.g.words(w);
            one(c, 10 + ((p as u64) << 8), w, &a);
            let m = M::from_words(w, &a);
            let v = mk(w, &a);
            let d = || format!("a={} pos={p}", m.hex());
            let r = c.call("is_bit_set", w, &d, || v.is_bit_set(p));
            c.eq("is_bit_set", r, m.bit(p), &d);
            let bit = BigUint::from(1u8) << p;
            let r = c.call("set_bit", w, &d, || {
                let mut t = v.clone();
                t.set_bit(p);
                t
            });
            c.eq_val("set_bit", &r, &M::new(w, &m.v | &bit), &d);
            let r2 = c.call("clear_bit", w, &d, || {
                let mut t = v.clone();
                t.clear_bit(p);
                t
            });
            c.eq_val("clear_bit", &r2, &M::new(w, (&m.v | &bit) ^ &bit), &d);
        }
        SWEEP => {
            let (w, _) = sweep_width(c.index, SWEEP_W);
            c.evaluations += 1;
            let d = || format!("w={w}");
            let r = c.call("zero", w, &d, || BitVecValue::zero(w));
            c.eq_val("zero", &r, &M::new(w, zero.clone()), &d);
            predicates(c, &r, &M::new(w, zero));
            let r = c.call("ones", w, &d, || BitVecValue::ones(w));
            let m1 = M::new(w, pow2(w) - 1u8);
            c.eq_val("ones", &r, &m1, &d);
            predicates(c, &r, &m1);
            let r = c.call("tru", 1, &d, BitVecValue::tru);
            c.eq_val("tru", &r, &M::new(1, BigUint::from(1u8)), &d);
            let r = c.call("fals", 1, &d, BitVecValue::fals);
            c.eq_val("fals", &r, &M::new(1, BigUint::from(0u8)), &d);
            for b in [false, true] {
                let r = c.call("from_bool", 1, &d, || BitVecValue::from_bool(b));
                c.eq_val("from_bool", &r, &M::new(1, BigUint::from(b as u8)), &d);
                let r = c.call("From<bool>", 1, &d, || BitVecValue::from(b));
                c.eq_val("From<bool>", &r, &M::new(1, BigUint::from(b as u8)), &d);
            }
            let a = c.g.words(w);
            let m = M::from_words(w, &a);
            c.seen(hash_words(11, w, &a));
            predicates(c, &mk(w, &a), &m);
        }
        _ => {
            // history of in-place updates on one target
            let w = c.width(4000);
            let a = c.g.words(w);
            one(c, 12, w, &a);
            let mut m = M::from_words(w, &a);
            let mut v = mk(w, &a);
            let steps = c.g.range(1, 10);
            let mut log = vec![format!("start {}", m.hex())];
            for _ in 0..steps {
                let before = m.clone();
                let p = ops::pos(&mut c.g, w);
                let bit = BigUint::from(1u8) << p;
                let src = c.g.words(w);
                let view = c.g.chance(30);
                let (op, name): (usize, &'static str) = *c.g.pick(&[(0, "assign"), (1, "clear"), (2, "assign_ones"), (3, "mask_msb"), (6, "set_bit"), (6, "set_bit"), (7, "clear_bit"), (7, "clear_bit")]);
                match op {
                    0 => m.v = big(&src),
                    1 => m.v = BigUint::from(0u8),
                    2 => m.v = pow2(w) - 1u8,
                    6 => m.v = &m.v | &bit,
                    7 => m.v = (&m.v | &bit) ^ &bit,
                    _ => {}
                }
                let args = ops::MutArgs { src, u: 0, i: 0, pos: p, s: String::new(), radix: 2 };
                log.push(format!("{name} pos={p}"));
                let l = log.clone();
                let d = || format!("history {l:?} before={}", before.hex());
                c.call(name, w, &d, || {
                    if view {
                        let mut r = BitVecValueMutRef::from(&mut v);
                        ops::mutate(op, &mut r, &args);
                    } else if op == 0 {
                        let s = BitVecValue::from(args.src.as_slice().get_ref(BitVecValueIndex::new(0, w)));
                        v.assign(&s);
                    } else {
                        ops::mutate(op, &mut v, &args);
                    }
                });
                c.eq_val(name, &v, &m, &d);
                let r = c.call("is_bit_set", w, &d, || v.is_bit_set(p));
                c.eq("is_bit_set", r, m.bit(p), &d);
            }
            predicates(c, &v, &m);
        }
    }
}

// ---------------------------------------------------------------- B08
fn check_from_ints(c: &mut Ctx, w: u32, u: u64, i: i64, dirty: &[u64]) {
    let mu = M::wrap(w, &BigUint::from(u));
    let mi = M::wrap_int(w, &BigInt::from(i));
    let fits_u = mu.v == BigUint::from(u);
    let fits_i = mi.int() == BigInt::from(i);
    let d = || format!("w={w} u={u:#x} i={i} dirty={dirty:x?}");
    let run_u: [(&'static str, &dyn Fn() -> BitVecValue); 3] = [
        ("from_u64", &|| BitVecValue::from_u64(u, w)),
        ("assign_from_u64", &|| {
            let mut t = mk(w, dirty);
            t.assign_from_u64(u);
            t
        }),
        ("assign_from_u64 (view)", &|| {
            let mut t = mk(w, dirty);
            BitVecValueMutRef::from(&mut t).assign_from_u64(u);
            t
        }),
    ];
    for (name, f) in run_u {
        if fits_u {
            let r = c.call(name, w, &d, f);
            c.eq_val(name, &r, &mu, &d);
        } else if let Some(r) = c.may_refuse(name, w, f) {
            c.eq_val(name, &r, &mu, &d);
        }
    }
    let run_i: [(&'static str, &dyn Fn() -> BitVecValue); 3] = [
        ("from_i64", &|| BitVecValue::from_i64(i, w)),
        ("assign_from_i64", &|| {
            let mut t = mk(w, dirty);
            t.assign_from_i64(i);
            t
        }),
        ("assign_from_i64 (view)", &|| {
            let mut t = mk(w, dirty);
            BitVecValueMutRef::from(&mut t).assign_from_i64(i);
            t
        }),
    ];
    for (name, f) in run_i {
        if fits_i {
            let r = c.call(name, w, &d, f);
            c.eq_val(name, &r, &mi, &d);
        } else if let Some(r) = c.may_refuse(name, w, f) {
            c.eq_val(name, &r, &mi, &d);
        }
    }
}
fn check_to_ints(c: &mut Ctx, m: &M) {
    let v = mkm(m);
    let d = || format!("a={}", m.hex());
    let wu = u64::try_from(m.v.clone()).ok();
    let wi = i64::try_from(m.int()).ok();
    let r = c.call("to_u64", m.w, &d, || v.to_u64());
    c.eq("to_u64", r, wu, &d);
    let r = c.call("to_i64", m.w, &d, || v.to_i64());
    c.eq("to_i64", r, wi, &d);
    if wi.is_none() {
        c.ev("to_i64 refuses", m.w);
    }
    if wu.is_none() {
        c.ev("to_u64 refuses", m.w);
    }
}
pub fn b08(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    if c.stream == GRID {
        c.evaluations += 1;
        let d = || "width 0".to_string();
        let r = c.call("from_u64", 0, &d, || BitVecValue::from_u64(0, 0));
        c.eq("from_u64(0, 0).width", r.width(), 0, &d);
        let r0 = c.call("to_u64", 0, &d, || (r.to_u64(), r.to_i64(), BitVecValue::zero(0).to_u64()));
        c.eq("to_u64/to_i64 at width 0", r0, (Some(0), Some(0), Some(0)), &d);
        return;
    }
    let w = if c.stream == SWEEP { sweep_width(c.index, SWEEP_W).0 } else { c.width(4000) };
    let dirty = c.g.words(w);
    let mut u = c.g.word();
    let mut i = c.g.i64ish();
    if c.g.chance(70) && w < 64 {
        u &= (1 << w) - 1;
        // the exact signed limits and their neighbours, otherwise somewhere inside
        let lim = 1i64 << (w - 1);
        i = match c.g.below(6) {
            0 => -lim,
            1 => lim - 1,
            2 => -lim - 1,
            3 => lim,
            _ => {
                let r = (c.g.u64() & ((1 << w) - 1)) as i64;
                r - lim
            }
        };
    }
    one(c, 13, w, &[u, i as u64]);
    check_from_ints(c, w, u, i, &dirty);
    let m = match c.g.below(6) {
        // numbers that fit (or just don't fit) 64 bits at this width
        0 | 1 => M::wrap_int(w, &BigInt::from(c.g.i64ish())),
        2 => M::wrap_int(w, &(BigInt::from(i64::MIN) - c.g.below(3))),
        3 => M::wrap_int(w, &(BigInt::from(i64::MAX) + c.g.below(3))),
        4 => M::wrap(w, &(BigUint::from(u64::MAX) + c.g.below(3))),
        _ => M::from_words(w, &c.g.words(w)),
    };
    c.evaluations += 1;
    c.seen(hash_words(14, w, &m.words()));
    check_to_ints(c, &m);
    // a wide value whose only excess is one bit somewhere
    if w > 64 {
        let mut x = vec![0u64; w.div_ceil(64) as usize];
        x[0] = c.g.word();
        let p = c.g.range(64, w as u64 - 1);
        x[(p / 64) as usize] |= 1 << (p % 64);
        check_to_ints(c, &M::from_words(w, &x));
        // sign-extended except one bit
        let mut x = M::wrap_int(w, &BigInt::from(-1 - c.g.below(1000) as i64));
        x.v ^= BigUint::from(1u8) << p;
        check_to_ints(c, &x);
    }
}

// ---------------------------------------------------------------- B09
pub fn b09(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    let w = if c.stream == SWEEP { sweep_width(c.index, SWEEP_W).0 } else { c.width(9000) };
    let a = c.g.words(w);
    one(c, 15, w, &a);
    let m = M::from_words(w, &a);
    let v = mk(w, &a);
    let d = || format!("a={}", m.hex());
    let r = c.call("to_big_uint", w, &d, || v.to_big_uint());
    c.eq("to_big_uint", r, m.v.clone(), &d);
    let r = c.call("to_big_int", w, &d, || v.to_big_int());
    c.eq("to_big_int", r, m.int(), &d);
    if m.neg() {
        c.ev("negative", w);
    }
    // back, at the same width
    let r = c.call("from_big_uint", w, &d, || BitVecValue::from_big_uint(&m.v, w));
    c.eq_val("from_big_uint", &r, &m, &d);
    let i = m.int();
    let r = c.call("from_big_int", w, &d, || BitVecValue::from_big_int(&i, w));
    c.eq_val("from_big_int", &r, &m, &d);
    // at another width: exact if representable, else refused or reduced
    let w2 = match c.g.below(4) {
        0 => w + ops::ext(&mut c.g, w),
        1 => (m.v.bits() as u32).max(1),
        2 => (i.magnitude().bits() as u32 + 1).max(1),
        _ => c.width(9000),
    };
    let d2 = || format!("u={:#x} i={:#x} at width {w2}", m.v, i);
    let mu = M::wrap(w2, &m.v);
    if mu.v == m.v {
        let r = c.call("from_big_uint", w2, &d2, || BitVecValue::from_big_uint(&m.v, w2));
        c.eq_val("from_big_uint", &r, &mu, &d2);
    } else if let Some(r) = c.may_refuse("from_big_uint (too large)", w2, || BitVecValue::from_big_uint(&m.v, w2)) {
        c.eq_val("from_big_uint (too large)", &r, &mu, &d2);
    }
    let i = if c.g.bool() { i } else { -i };
    let d2 = || format!("u={:#x} i={:#x} at width {w2}", m.v, i);
    let mi = M::wrap_int(w2, &i);
    if mi.int() == i {
        let r = c.call("from_big_int", w2, &d2, || BitVecValue::from_big_int(&i, w2));
        c.eq_val("from_big_int", &r, &mi, &d2);
    } else if let Some(r) = c.may_refuse("from_big_int (too large)", w2, || BitVecValue::from_big_int(&i, w2)) {
        c.eq_val("from_big_int (too large)", &r, &mi, &d2);
    }
    // width inferred
    let (back, ww) = c.call("From<&BigUint>", w, &d2, || {
        let x = from_uint(&m.v);
        (x.to_big_uint(), x.width())
    });
    c.eq("From<&BigUint> round trip", back, m.v.clone(), &d2);
    c.expect(ww as u64 >= m.v.bits(), &|| format!("From<&BigUint>: width {ww} too small | {}", d2()));
    let (back, ww) = c.call("From<&BigInt>", w, &d2, || {
        let x = from_int(&i);
        (x.to_big_int(), x.width())
    });
    c.eq("From<&BigInt> round trip", back, i.clone(), &d2);
    c.expect(ww >= 1, &|| format!("From<&BigInt>: width {ww} | {}", d2()));
    if c.index == 0 {
        let z = BigUint::from(0u8);
        let dz = || "zero".to_string();
        let r = c.call("width 0", 0, &dz, || {
            let x = BitVecValue::zero(0);
            (x.to_big_uint(), x.to_big_int(), from_uint(&z).to_big_uint(), from_int(&BigInt::from(0)).to_big_int(), BitVecValue::from_big_uint(&z, 0).width())
        });
        c.eq("zero and width 0", r, (z.clone(), BigInt::from(0), z.clone(), BigInt::from(0), 0), &dz);
    }
}

// ---------------------------------------------------------------- B10
pub fn b10(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    let w = if c.stream == SWEEP { (c.index % (SWEEP_W + 1)) as u32 } else { c.width(9000) };
    let a = c.g.words(w);
    one(c, 16, w, &a);
    let m = M::from_words(w, &a);
    let v = mk(w, &a);
    let d = || format!("a={}", m.hex());
    let nb = w.div_ceil(8) as usize;
    let mut bytes = m.v.to_bytes_le();
    if w == 0 {
        bytes.clear();
    }
    bytes.resize(nb, 0);
    let r = c.call("to_bytes_le", w, &d, || v.to_bytes_le());
    c.eq("to_bytes_le", r, bytes.clone(), &d);
    // back: full, truncated, with garbage in the padding bits
    let r = c.call("from_bytes_le", w, &d, || BitVecValue::from_bytes_le(&bytes, w));
    c.eq_val("from_bytes_le", &r, &m, &d);
    let k = c.g.below(nb as u64 + 1) as usize;
    let mut t = bytes[..k].to_vec();
    for x in t.iter_mut() {
        if c.g.chance(30) {
            *x = *c.g.pick(&[0xff, 0x80, 1, 0xa5]);
        }
    }
    if k == nb && k > 0 && c.g.bool() {
        t[k - 1] = 0xff;
    }
    let want = M::wrap(w, &BigUint::from_bytes_le(&t));
    let d2 = || format!("bytes={t:x?} w={w}");
    let r = c.call("from_bytes_le", w, &d2, || BitVecValue::from_bytes_le(&t, w));
    c.eq_val("from_bytes_le (partial)", &r, &want, &d2);
}

// ---------------------------------------------------------------- B11
pub fn b11(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    let wide = c.stream == LARGE && c.g.chance(20);
    let w = if c.stream == SWEEP { (c.index % (SWEEP_W + 1)) as u32 } else { c.width(if wide { 9000 } else { 6000 }) };
    let a = if c.stream == SWEEP && w > 0 { let r = c.index / (SWEEP_W + 1); c.g.words_cls(w, r % Gen::CLASSES) } else if c.g.chance(20) { c.g.decimal_words(w) } else { c.g.words(w) };
    one(c, 17, w, &a);
    let m = M::from_words(w, &a);
    let v = mk(w, &a);
    let d = || format!("a={}", m.hex());
    let r = c.call("to_bit_str", w, &d, || v.to_bit_str());
    c.eq("to_bit_str", r, padded(&m.v, 2, w as usize), &d);
    let r = c.call("to_hex_str", w, &d, || v.to_hex_str());
    c.eq("to_hex_str", r, padded(&m.v, 16, w.div_ceil(4) as usize), &d);
    if w < 140_000 {
        let r = c.call("to_dec_str", w, &d, || v.to_dec_str());
        c.eq("to_dec_str", r, m.v.to_str_radix(10), &d);
    }
    if w > 0 && c.g.chance(25) {
        // the debug rendering, however it is decorated, shows exactly the binary digits
        let want = padded(&m.v, 2, w as usize);
        let mut t = v.clone();
        let r = c.call("debug rendering", w, &d, || {
            let o = format!("{v:?}");
            let b = format!("{:?}", BitVecValueRef::from(&v));
            let x = format!("{:?}", BitVecValueMutRef::from(&mut t));
            [o, b, x]
        });
        for s in r {
            let shown = s.split(|ch: char| ch != '0' && ch != '1').any(|run| run == want);
            c.expect(shown, &|| format!("debug rendering {s:?} does not show {want} | {}", d()));
        }
    }
    if w > 0 {
        let i = m.int();
        let mag = i.magnitude();
        let neg = i.sign() == Sign::Minus;
        if neg {
            c.ev("negative", w);
        }
        for (name, radix) in [("to_bit_str_signed", 2u32), ("to_hex_str_signed", 16)] {
            let r = c.call(name, w, &d, || if radix == 2 { v.to_bit_str_signed() } else { v.to_hex_str_signed() });
            c.expect(r.starts_with('-') == neg, &|| format!("{name}: wrong sign in {r:?} | {}", d()));
            let digits = r.strip_prefix('-').unwrap_or(&r);
            if neg && *mag == pow2(w - 1) {
                // most negative value: exact magnitude, any padding
                c.ev("most negative", w);
                let ok = !digits.is_empty() && digits.bytes().all(|b| (b as char).is_digit(radix)) && BigUint::parse_bytes(digits.as_bytes(), radix).as_ref() == Some(mag);
                c.expect(ok, &|| format!("{name}: got {r:?} for magnitude {mag:#x} | {}", d()));
            } else {
                let n = if radix == 2 { w - 1 } else { (w - 1).div_ceil(4) };
                c.eq(name, digits.to_string(), padded(mag, radix, n as usize), &d);
            }
        }
    }
}

// ---------------------------------------------------------------- B12
fn judge(c: &mut Ctx, op: &'static str, s: &str, radix: u32, w: u32, e: &text::Exp, r: Result<BitVecValue, String>) {
    let short: String = s.chars().take(300).collect();
    let d = || format!("{op} radix {radix} width {w} text({} bytes) {short:?}", s.len());
    match (e, r) {
        (text::Exp::Ok(m), Ok(v)) | (text::Exp::Either(m), Ok(v)) => c.eq_val(op, &v, m, &d),
        (text::Exp::Either(_), Err(_)) => {}
        (text::Exp::Ok(m), Err(k)) => c.violate(format!("{op}: error {k}, expected {} | {}", m.hex(), d())),
        (text::Exp::Err(_), Ok(v)) => c.violate(format!("{op}: accepted as width {} words {:x?}, expected an error | {}", v.width(), v.words(), d())),
        (text::Exp::Err(Some(k)), Err(g)) => c.expect(*k == g, &|| format!("{op}: error {g}, expected {k} | {}", d())),
        (text::Exp::Err(None), Err(_)) => {}
    }
}
/// numerals with up to millions of digits
fn b12_long(c: &mut Ctx) {
    let radix = *c.g.pick(&[2u32, 16, 16, 10]);
    let per = if radix == 2 { 1 } else { 4 };
    let n = (match c.g.below(4) {
        0 => (1 << c.g.range(14, 21)) + c.g.below(3) - 1,
        1 => c.g.range(60_000, 140_000),
        _ => c.g.range(1000, 1 << 18),
    }) as usize;
    // significant digits, the rest are leading zeros
    let sig = match c.g.below(4) {
        _ if radix == 10 => c.g.range(0, 300) as usize,
        0 => c.g.range(0, 40) as usize,
        1 => c.g.below(n as u64 + 1) as usize,
        _ => n,
    };
    let seed = c.g.u64();
    let style = c.g.below(3);
    let mut t = String::with_capacity(n + 1);
    let sign = *c.g.pick(&["", "", "-", "+"]);
    t.push_str(sign);
    for i in 0..n {
        let d = if i + sig < n { 0 } else if i + sig == n { 1 } else {
            match style {
                0 => crate::gen::mix(seed ^ i as u64) % radix as u64,
                1 => radix as u64 - 1,
                _ => (crate::gen::mix(seed ^ i as u64) % 50 == 0) as u64,
            }
        };
        t.push(std::char::from_digit(d as u32, radix).unwrap());
    }
    let bits = if radix == 10 { sig as u32 * 10 / 3 + 2 } else { sig as u32 * per };
    let full = n as u32 * per;
    let w = match c.g.below(5) {
        0 => bits.max(1),
        1 => (bits + 1).saturating_sub(c.g.below(4) as u32).max(1),
        2 => bits + 1 + c.g.below(200) as u32,
        _ => full + 1 + c.g.below(200) as u32,
    };
    c.evaluations += 1;
    c.seen(hash_words(25, w, &[seed, n as u64, sig as u64]));
    let e = text::oracle(&t, radix, w);
    c.ev("long text", w);
    let d = || format!("radix {radix} width {w}, {n} digits after the sign {sign:?}, {sig} of them significant");
    let r = c.call("from_str_radix", w, &d, || BitVecValue::from_str_radix(&t, radix, w).map_err(|e| format!("{:?}", e.kind)));
    judge(c, "from_str_radix", &t, radix, w, &e, r);
    let r = c.call("assign_from_str_radix", w, &d, || {
        let mut v = BitVecValue::ones(w);
        v.assign_from_str_radix(&t, radix).map(|_| v).map_err(|e| format!("{:?}", e.kind))
    });
    judge(c, "assign_from_str_radix", &t, radix, w, &e, r);
    if radix != 10 {
        let wi = full + (sign == "-") as u32;
        let e = text::oracle(&t, radix, wi);
        let op: &'static str = if radix == 2 { "from_bit_str" } else { "from_hex_str" };
        let r = c.call(op, wi, &d, || if radix == 2 { BitVecValue::from_bit_str(&t) } else { BitVecValue::from_hex_str(&t) }.map_err(|e| format!("{:?}", e.kind)));
        judge(c, op, &t, radix, wi, &e, r);
    }
}
pub fn b12(c: &mut Ctx) {
    if c.stream == ULTRA {
        return crate::p_ultra::run(c);
    }
    if c.stream == SCALE {
        return b12_long(c);
    }
    let w = if c.stream == SWEEP { sweep_width(c.index, SWEEP_W).0 } else { c.width(2200) };
    let radix = *c.g.pick(&[2u32, 10, 16]);
    let s = text::any(&mut c.g, w, radix);
    let e = text::oracle(&s, radix, w);
    c.evaluations += 1;
    let h = s.bytes().fold(hash_words(18, w, &[radix as u64]), |h, b| hash_words(h, 0, &[b as u64]));
    if s.len() > 1 {
        c.seen(h);
    }
    c.sample(|| format!("width {w} radix {radix} text {s:?}"));
    match &e {
        text::Exp::Ok(_) => c.ev("accepted", w),
        text::Exp::Err(Some("ExceedsWidth")) => c.ev("exceeds width", w),
        text::Exp::Err(Some(_)) => c.ev("malformed", w),
        _ => c.ev("other error", w),
    }
    let d = || format!("radix {radix} width {w} text {s:?}");
    let r = c.call("from_str_radix", w, &d, || BitVecValue::from_str_radix(&s, radix, w).map_err(|e| format!("{:?}", e.kind)));
    judge(c, "from_str_radix", &s, radix, w, &e, r);
    // in place, over arbitrary old content
    let dirty = c.g.words(w);
    let view = c.g.bool();
    let r = c.call("assign_from_str_radix", w, &d, || {
        let mut t = mk(w, &dirty);
        let r = if view { BitVecValueMutRef::from(&mut t).assign_from_str_radix(&s, radix) } else { t.assign_from_str_radix(&s, radix) };
        r.map(|_| t).map_err(|e| format!("{:?}", e.kind))
    });
    judge(c, "assign_from_str_radix", &s, radix, w, &e, r);
    // width-inferring parsers
    for radix in [2u32, 16] {
        let wr = c.width(1500);
        let s = if c.g.chance(60) { text::fitting(&mut c.g, wr, radix) } else { text::any(&mut c.g, wr, radix) };
        let ndig = s.strip_prefix(['-', '+']).unwrap_or(&s).len() as u32;
        let wi = ndig * if radix == 2 { 1 } else { 4 } + s.starts_with('-') as u32;
        let op: &'static str = if radix == 2 { "from_bit_str" } else { "from_hex_str" };
        let d = || format!("{op} {s:?}");
        let r = c.call(op, wi, &d, || if radix == 2 { BitVecValue::from_bit_str(&s) } else { BitVecValue::from_hex_str(&s) }.map_err(|e| format!("{:?}", e.kind)));
        if wi == 0 {
            if s.is_empty() {
                match r {
                    Ok(v) => c.eq("width of the empty string", v.width(), 0, &d),
                    Err(k) => c.violate(format!("{op}: error {k} for the empty string")),
                }
            } else {
                c.expect(r.is_err(), &|| format!("{op}: accepted {s:?}"));
            }
        } else {
            let e = match text::oracle(&s, radix, wi) {
                // at the inferred width a well-formed numeral always fits; only malformed ones fail
                text::Exp::Err(_) => text::Exp::Err(None),
                e => e,
            };
            judge(c, op, &s, radix, wi, &e, r);
        }
    }
}

// ---------------------------------------------------------------- B13
pub fn b13(c: &mut Ctx) {
    let w = if c.stream == SWEEP { 1 + (c.index % 140) as u32 } else { c.width(1000) };
    let a = c.g.words(w);
    let f = match c.g.below(5) {
        0 => w,
        1 => 0,
        2 => w.min(*c.g.pick(&[62u32, 63, 64, 65, 127, 128])),
        3 => c.g.below(w.min(64) as u64 + 1) as u32,
        _ => c.g.below(w as u64 + 1) as u32,
    };
    one(c, 19 + ((f as u64) << 8), w, &a);
    let m = M::from_words(w, &a);
    let v = mk(w, &a);
    let d = || format!("a={} fraction bits {f}", m.hex());
    let exact = |n: &BigInt, got: &fraction::Fraction| -> bool {
        // got == n / 2^f, by cross-multiplication
        let (Some(gn), Some(gd)) = (got.numer(), got.denom()) else { return false };
        if *gd == 0 {
            return false;
        }
        let gneg = matches!(got.sign(), Some(fraction::Sign::Minus));
        let gi = if gneg { -BigInt::from(*gn) } else { BigInt::from(*gn) };
        gi << f == n * BigInt::from(*gd)
    };
    let r = c.call("to_unsigned_fixed_point", w, &d, || v.to_unsigned_fixed_point(f));
    let n = BigInt::from(m.v.clone());
    match r {
        Some(x) => c.expect(exact(&n, &x), &|| format!("to_unsigned_fixed_point: got {x:?} | {}", d())),
        None => {
            c.ev("not representable", w);
            c.expect(!(f < 64 && m.v.bits() <= 64), &|| format!("to_unsigned_fixed_point: refused a representable number | {}", d()))
        }
    }
    let r = c.call("to_signed_fixed_point", w, &d, || v.to_signed_fixed_point(f));
    let n = m.int();
    match r {
        Some(x) => c.expect(exact(&n, &x), &|| format!("to_signed_fixed_point: got {x:?} | {}", d())),
        None => {
            c.ev("not representable", w);
            c.expect(!(f < 64 && w <= 64), &|| format!("to_signed_fixed_point: refused a representable number | {}", d()))
        }
    }
}
