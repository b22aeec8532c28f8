//! P01, P02: long valid programs, thousands of calls on one interner, array, store or chain of values, so that what depends
//! on how many entries there are or how many calls came before shows in the digests (or as a panic of one build).
use crate::ctx::*;
use crate::gen::mix;
use crate::p_scale::{fill, num, Ws};
use baa::*;

pub const BULK: u32 = 26;
pub const NAME: &str = "thousands of calls on one object";

fn add(h: &mut u64, w: u32, words: &[u64]) {
    *h = mix(*h ^ hash_words(1, w, words));
}

/// indices of a family, values of which some repeat and some are the default
fn array<A: ArrayMutOps + Clone>(
    mut a: A,
    iw: u32,
    dw: u32,
    n: u64,
    seed: u64,
    fam: u64,
    each: &mut dyn FnMut(&A, &A),
) -> (A, u64) {
    let key = |i: u64| -> Ws {
        match fam {
            0 => fill(seed, i, iw),
            1 => num(iw, i),
            _ => num(iw, i.wrapping_mul(seed | 1)),
        }
    };
    let mut h = 0;
    let before = a.clone();
    for i in 0..n {
        let v = match mix(seed ^ i) % 8 {
            0 => num(dw, 1),
            1 => fill(seed, i / 16, dw),
            _ => fill(!seed, i, dw),
        };
        a.store(&mk(iw, &key(i)), &mk(dw, &v));
        if i % 7 == 3 {
            a.store(&mk(iw, &key(i / 2)), &mk(dw, &num(dw, 1)));
        }
        if i % 5 == 0 {
            add(&mut h, dw, a.select(&mk(iw, &key(i / 3))).words());
        }
    }
    for i in 0..n {
        add(&mut h, dw, a.select(&mk(iw, &key(i))).words());
    }
    each(&a, &before);
    for i in n / 2..n {
        a.store(&mk(iw, &key(i)), &mk(dw, &num(dw, 1)));
    }
    for i in 0..n {
        add(&mut h, dw, a.select(&mk(iw, &key(i))).words());
    }
    (a, h)
}

pub fn bulk(c: &mut Ctx) {
    let seed = c.g.u64();
    let small = |c: &mut Ctx| c.g.range(1, 64) as u32;
    let n = match c.g.below(4) {
        0 => c.g.range(1000, 3000),
        1 => c.g.range(3000, 10_000),
        2 => c.g.range(10_000, 20_000),
        _ => c.g.range(300, 1500),
    };
    let kind = (c.index + c.index / 8) % 8;
    match kind {
        0 | 1 => {
            let n = if kind == 0 && c.g.chance(20) { n + 65_536 } else { n };
            let ws = if kind == 0 { vec![c.g.range(20, 64) as u32, c.g.range(65, 200) as u32] } else { vec![c.g.range(65, 700) as u32] };
            let what = format!("interner, {n} values of widths {ws:?}");
            c.sample(|| what.clone());
            let h = c.call("intern", ws[0], &|| what.clone(), || {
                let mut t = ValueInterner::new();
                let mut ix = vec![];
                for i in 0..n {
                    let w = ws[(mix(i ^ seed) % ws.len() as u64) as usize];
                    let j = if i % 3 == 0 { i / 2 } else { i };
                    ix.push(t.get_index(&mk(w, &fill(seed, j, w))));
                }
                let twin = t.clone();
                let mut h = 0;
                for i in &ix {
                    let (a, b): (BitVecValueRef, BitVecValueRef) = (t.words().get_ref(*i), twin.words().get_ref(*i));
                    add(&mut h, a.width(), a.words());
                    add(&mut h, b.width(), b.words());
                }
                for i in (0..n).step_by(5) {
                    let w = ws[(mix(i ^ seed) % ws.len() as u64) as usize];
                    let j = if i % 3 == 0 { i / 2 } else { i };
                    add(&mut h, 1, &[(t.get_index(&mk(w, &fill(seed, j, w))) == ix[i as usize]) as u64]);
                }
                h
            });
            c.dig(h);
        }
        2 | 3 => {
            let iw = match c.g.below(4) {
                0 => c.g.range(15, 32) as u32,
                1 => c.g.range(33, 64) as u32,
                2 => 64,
                _ => c.g.range(65, 200) as u32,
            };
            let dw = if c.g.bool() { small(c).max(2) } else { c.g.range(65, 300) as u32 };
            let fam = c.g.below(3);
            let what = format!("sparse array {iw} -> {dw}, {n} entries, indices {fam}");
            c.sample(|| what.clone());
            let h = c.call("sparse array", dw, &|| what.clone(), || {
                let def = mk(dw, &num(dw, 1));
                let mut h2 = 0;
                let (mut a, h) = array(ArrayValue::new_sparse(iw, &def), iw, dw, n, seed, fam, &mut |a, b| {
                    let s = SparseArrayValue::from(a.clone());
                    add(&mut h2, 0, &[(a == b) as u64, a.is_equal(b).map_or(2, |x| x as u64), (a.is_equal(&a.clone()) == Some(true)) as u64, s.non_default_entries().count() as u64]);
                    let sum = s.non_default_entries().fold(0u64, |x, (i, v)| x.wrapping_add(hash_words(hash_words(2, iw, i.words()), dw, v.words())));
                    add(&mut h2, 0, &[sum]);
                });
                a.clear();
                let x = a.select(&mk(iw, &num(iw, 3)));
                h ^ h2.rotate_left(1) ^ hash_words(3, dw, x.words())
            });
            c.dig(h);
        }
        4 => {
            let iw = c.g.range(8, 15) as u32;
            let dw = *c.g.pick(&[1, 2, 7, 8, 9, 33, 64, 65, 130]);
            let fam = c.g.range(1, 2);
            let n = n.min(1 << iw);
            let what = format!("dense array {iw} -> {dw}, {n} stores, indices {fam}");
            c.sample(|| what.clone());
            let h = c.call("dense array", dw, &|| what.clone(), || {
                let def = mk(dw, &num(dw, 1));
                let mut h2 = 0;
                let (a, h) = array(ArrayValue::new_dense(iw, &def), iw, dw, n, seed, fam, &mut |a, b| {
                    let s = SparseArrayValue::from(a.clone());
                    for i in 0..1u64 << iw {
                        add(&mut h2, dw, s.select(&mk(iw, &num(iw, i))).words());
                    }
                    add(&mut h2, 0, &[(a == b) as u64, (a == &a.clone()) as u64]);
                });
                let mut sp = ArrayValue::new_sparse(iw, &def);
                for i in 0..n {
                    let i = mk(iw, &num(iw, i));
                    let v = a.select(&i);
                    sp.store(&i, &v);
                }
                add(&mut h2, 0, &[(sp == a) as u64, (a == sp) as u64]);
                sp.make_dense();
                add(&mut h2, 0, &[(sp == a) as u64]);
                h ^ h2.rotate_left(1)
            });
            c.dig(h);
        }
        5 => {
            let w = if c.g.bool() { c.g.range(1, 64) as u32 } else { c.g.range(65, 260) as u32 };
            let k = w.div_ceil(64);
            let what = format!("store of {n} values of width {w}");
            c.sample(|| what.clone());
            let h = c.call("views", w, &|| what.clone(), || {
                let mut st = vec![0u64; n as usize * k as usize];
                for i in 0..n as u32 {
                    let mut v: BitVecValueMutRef = st.as_mut_slice().get_mut_ref(BitVecValueIndex::new(i * k, w));
                    v.assign(&mk(w, &fill(seed, i as u64 / 2, w)));
                    if i % 9 == 1 {
                        v.set_bit(i % w);
                    }
                }
                let mut h = 0;
                for i in 1..n as u32 {
                    let (x, y) = (BitVecValueIndex::new(i * k, w), BitVecValueIndex::new((mix(seed ^ i as u64) % n) as u32 * k, w));
                    let (a, b): (BitVecValueRef, BitVecValueRef) = st.as_slice().get_ref((x, y));
                    add(&mut h, w, a.sub(&b).words());
                    add(&mut h, 0, &[(a == b) as u64, a.is_greater(&b) as u64]);
                    if x != y {
                        let (mut a, b): (BitVecValueMutRef, BitVecValueRef) = st.as_mut_slice().get_mut_ref((x, y));
                        if i % 3 == 0 {
                            a.assign(b);
                        } else {
                            a.clear_bit(i % w);
                        }
                    }
                }
                add(&mut h, w, &st);
                h
            });
            c.dig(h);
        }
        6 => {
            let w = c.width(300);
            let op = c.g.below(9);
            let n = n * if w <= 64 { 8 } else { 2 };
            let what = format!("operation {op} {n} times at width {w}");
            c.sample(|| what.clone());
            let h = c.call("chain", w, &|| what.clone(), || {
                let mut x = mk(w, &fill(seed, 0, w));
                let mut h = 0;
                for i in 0..n {
                    let y = mk(w, &fill(seed, i, w));
                    x = match op {
                        0 => x.add(&y),
                        1 => x.sub(&y),
                        2 => x.mul(&y).xor(&y),
                        3 => x.xor(&y).not(),
                        4 => x.negate().or(&y),
                        5 if w >= 10 => x.shift_left(&mk(w, &num(w, i % (w as u64 + 3)))).xor(&y),
                        6 if w > 1 => x.slice(w - 2, 0).concat(&y.slice(w - 1, w - 1)),
                        7 => {
                            h ^= mix(i ^ x.is_greater_signed(&y) as u64 ^ 2 * x.is_equal(&y) as u64 ^ 4 * x.is_less_or_equal(&y) as u64);
                            x.and(&y).or(&y.arithmetic_shift_right(&mk(w, &num(w, 1))))
                        }
                        _ => BitVecValue::from_bytes_le(&x.add(&y).to_bytes_le(), w),
                    };
                    if i % 64 == 0 {
                        add(&mut h, w, x.words());
                    }
                }
                add(&mut h, w, x.words());
                h
            });
            c.dig(h);
        }
        _ => {
            let w = c.width(400);
            let radix = *c.g.pick(&[2, 10, 16]);
            let n = n.min(4000);
            let what = format!("text of radix {radix}, {n} values of width {w}");
            c.sample(|| what.clone());
            let h = c.call("text", w, &|| what.clone(), || {
                let mut h = 0;
                let mut t = BitVecValue::zero(w);
                for i in 0..n {
                    let x = mk(w, &fill(seed, i, w));
                    let s = match radix {
                        2 => x.to_bit_str(),
                        10 => x.to_dec_str(),
                        _ => x.to_hex_str(),
                    };
                    add(&mut h, w, &s.bytes().map(|b| b as u64).collect::<Vec<_>>());
                    t.assign_from_str_radix(&s, radix).unwrap();
                    add(&mut h, w, t.words());
                }
                h
            });
            c.dig(h);
        }
    }
}
