//! Values near the upper limit of the width type. The oracle here is word-wise over the operands' own words
//! (256-512 MiB each), so that no big integer of that size is needed.
use crate::ctx::*;
use crate::gen::{mask_top, mix};
use crate::shim::*;
use baa::*;
use num_bigint::{BigInt, BigUint, Sign};

pub const ULTRA: u32 = 21;
pub const CASES: u64 = 4;

fn width(c: &mut Ctx) -> u32 {
    let d = c.g.below(130) as u32;
    match c.index % CASES {
        0 => (1u32 << 31) - 64 + d,
        1 => u32::MAX - c.g.below(62) as u32, // the top word is partial, (width + 63) does not fit 32 bits
        2 => u32::MAX - 63 - d,
        // products by 2, 3, 4 and the like cross the limit of 32 bits here
        _ => *c.g.pick(&[1_431_655_766u32, 1 << 30, 715_827_883, 3_000_000_000, (1 << 31) + (1 << 30)]) + d,
    }
}

/// a value with pseudo-random or sparse words, written in place
fn value(c: &mut Ctx, w: u32) -> BitVecValue {
    let style = c.g.below(5);
    let seed = c.g.u64();
    let Ok(mut v) = guarded(|| BitVecValue::zero(w)) else { panic!("harness: cannot construct a value of width {w}") };
    let words = v.words_mut();
    let n = words.len();
    if n != w.div_ceil(64) as usize {
        c.violate(format!("zero({w}) has {n} words"));
    }
    match style {
        0 => words.iter_mut().enumerate().for_each(|(i, x)| *x = mix(seed ^ i as u64)),
        1 => words.iter_mut().enumerate().for_each(|(i, x)| *x = (seed | 1).wrapping_mul(i as u64 | 1).rotate_left(i as u32)),
        2 => words.iter_mut().for_each(|x| *x = u64::MAX),
        _ => {}
    }
    // bits at the ends and at random places
    for k in 0..40u64 {
        let p = match k {
            0 => w - 1,
            1 => 0,
            2 => w - 2,
            _ => (mix(seed ^ (k << 40)) % w as u64) as u32,
        };
        if mix(seed ^ k) & 3 != 0 {
            words[(p / 64) as usize] ^= 1 << (p % 64);
        }
    }
    mask_top(words, w);
    v
}

/// 64 bits from bit position `p` on, zeros beyond the words
#[inline]
fn at(v: &[u64], p: u64) -> u64 {
    let (i, s) = ((p / 64) as usize, p % 64);
    let lo = v.get(i).copied().unwrap_or(0);
    if s == 0 {
        lo
    } else {
        lo >> s | v.get(i + 1).copied().unwrap_or(0) << (64 - s)
    }
}

/// 64 bits of (v << s) from word `i` on
#[inline]
fn at_left(v: &[u64], i: usize, s: u64) -> u64 {
    let p = i as i128 * 64 - s as i128;
    if p >= 0 {
        at(v, p as u64)
    } else if p > -64 {
        v[0] << (-p as u64)
    } else {
        0
    }
}

fn same(c: &Ctx, op: &str, got: &BitVecValue, w: u32, what: &str, want: impl Fn(usize) -> u64) {
    if got.width() != w {
        c.violate(format!("{op}: result width {}, expected {w} | {what}", got.width()));
    }
    let n = w.div_ceil(64) as usize;
    if got.words().len() != n {
        c.violate(format!("{op}: {} words, expected {n} | {what}", got.words().len()));
    }
    let top = if w % 64 == 0 { u64::MAX } else { (1 << (w % 64)) - 1 };
    for (i, x) in got.words().iter().enumerate() {
        let mut e = want(i);
        if i == n - 1 {
            e &= top;
        }
        if *x != e {
            c.violate(format!("{op}: word {i} is {x:#x}, expected {e:#x} | {what}"));
        }
    }
}

fn same_carry(c: &Ctx, op: &str, got: &BitVecValue, w: u32, what: &str, mut step: impl FnMut(usize) -> u64) {
    let cell = std::cell::RefCell::new(&mut step);
    same(c, op, got, w, what, |i| (*cell.borrow_mut())(i));
}

fn carry_sum<'a>(a: &'a [u64], b: impl Fn(usize) -> u64 + 'a, mut carry: bool) -> impl FnMut(usize) -> u64 + 'a {
    move |i| {
        let (s, c1) = a[i].overflowing_add(b(i));
        let (s, c2) = s.overflowing_add(carry as u64);
        carry = c1 | c2;
        s
    }
}

pub fn run(c: &mut Ctx) {
    let w = width(c);
    c.evaluations += 1;
    c.seen(hash_words(99, w, &[c.index]));
    let what = format!("width {w}");
    c.sample(|| what.clone());
    let d = || what.clone();
    match c.prop {
        "B02" => {
            let (a, b) = (value(c, w), value(c, w));
            match c.index % 3 {
                0 => {
                    let r = c.call("add", w, &d, || BitVecOps::add(&a, &b));
                    same_carry(c, "add", &r, w, &what, carry_sum(a.words(), |i| b.words()[i], false));
                }
                1 => {
                    let r = c.call("sub", w, &d, || BitVecOps::sub(&a, &b));
                    same_carry(c, "sub", &r, w, &what, carry_sum(a.words(), |i| !b.words()[i], true));
                }
                _ => {
                    let z = BitVecValue::zero(w);
                    let r = c.call("negate", w, &d, || a.negate());
                    same_carry(c, "negate", &r, w, &what, carry_sum(z.words(), |i| !a.words()[i], true));
                }
            }
        }
        "B03" => {
            let (a, b) = (value(c, w), value(c, w));
            let r = c.call("and", w, &d, || a.and(&b));
            same(c, "and", &r, w, &what, |i| a.words()[i] & b.words()[i]);
            drop(r);
            let r = c.call("or", w, &d, || a.or(&b));
            same(c, "or", &r, w, &what, |i| a.words()[i] | b.words()[i]);
            drop(r);
            let r = c.call("xor", w, &d, || a.xor(&b));
            same(c, "xor", &r, w, &what, |i| a.words()[i] ^ b.words()[i]);
            drop((r, b));
            let r = c.call("not", w, &d, || a.not());
            same(c, "not", &r, w, &what, |i| !a.words()[i]);
        }
        "B04" => {
            let a = value(c, w);
            let s: u64 = match c.g.below(6) {
                0 => w as u64 - 1 - c.g.below(70),
                1 => (1u64 << 31) + c.g.below(130) - 64,
                2 => w as u64 / 2 + c.g.below(64),
                3 => w as u64 + c.g.below(64),
                4 => (1u64 << 32) + c.g.below(100),
                _ => c.g.below(w as u64),
            };
            let what = format!("width {w} amount {s}");
            let d = || what.clone();
            let mut b = BitVecValue::zero(w);
            b.words_mut()[0] = s;
            let neg = a.words().last().unwrap() >> ((w - 1) % 64) & 1 == 1;
            let over = s >= w as u64;
            let r = c.call("shift_left", w, &d, || a.shift_left(&b));
            same(c, "shift_left", &r, w, &what, |i| if over { 0 } else { at_left(a.words(), i, s) });
            drop(r);
            let r = c.call("shift_right", w, &d, || a.shift_right(&b));
            same(c, "shift_right", &r, w, &what, |i| if over { 0 } else { at(a.words(), i as u64 * 64 + s) });
            drop(r);
            let r = c.call("arithmetic_shift_right", w, &d, || a.arithmetic_shift_right(&b));
            same(c, "arithmetic_shift_right", &r, w, &what, |i| {
                let x = if over { 0 } else { at(a.words(), i as u64 * 64 + s) };
                // positions from w - s on repeat the sign
                let from = (w as u64).saturating_sub(s);
                let p = i as u64 * 64;
                if !neg || p + 64 <= from {
                    x
                } else if p >= from {
                    u64::MAX
                } else {
                    x | u64::MAX << (from - p)
                }
            });
        }
        "B05" => {
            let a = value(c, w);
            // there is no width for the result
            let wb = u32::MAX - w + c.g.range(1, 300) as u32;
            if wb < 100_000_000 {
                let b = BitVecValue::ones(wb);
                let swap = c.g.bool();
                if let Some(r) = c.may_refuse("concat beyond the largest width", w, || if swap { BitVecOps::concat(&b, &a) } else { BitVecOps::concat(&a, &b) }) {
                    c.violate(format!("concatenating values of the widths {w} and {wb} gave a value of width {}", r.width()));
                }
            }
            // slices of all sizes
            for _ in 0..4 {
                let lsb = match c.g.below(3) {
                    0 => c.g.below(200) as u32,
                    1 => w - 1 - c.g.below(200) as u32,
                    _ => c.g.below(w as u64) as u32,
                };
                let msb = match c.g.below(3) {
                    0 => w - 1,
                    1 => lsb + c.g.below((w - lsb).min(300) as u64) as u32,
                    _ => lsb + c.g.below((w - lsb) as u64) as u32,
                };
                let what = format!("width {w} slice({msb}, {lsb})");
                let r = c.call("slice", w, &|| what.clone(), || a.slice(msb, lsb));
                same(c, "slice", &r, msb - lsb + 1, &what, |i| at(a.words(), i as u64 * 64 + lsb as u64));
            }
            // from a narrower value up to the width
            let by = match c.g.below(3) {
                0 => c.g.range(1, 200) as u32,
                1 => w - 1 - c.g.below(200) as u32,
                _ => c.g.range(1, w as u64 - 1) as u32,
            };
            let wn = w - by;
            let what = format!("width {wn} to {w}");
            let n = a.slice(wn - 1, 0);
            drop(a);
            let neg = n.words().last().unwrap() >> ((wn - 1) % 64) & 1 == 1;
            let r = c.call("zero_extend", w, &|| what.clone(), || n.zero_extend(by));
            same(c, "zero_extend", &r, w, &what, |i| at(n.words(), i as u64 * 64));
            drop(r);
            let r = c.call("sign_extend", w, &|| what.clone(), || n.sign_extend(by));
            same(c, "sign_extend", &r, w, &what, |i| {
                let x = at(n.words(), i as u64 * 64);
                let (p, from) = (i as u64 * 64, wn as u64);
                if !neg || p + 64 <= from {
                    x
                } else if p >= from {
                    u64::MAX
                } else {
                    x | u64::MAX << (from - p)
                }
            });
            drop(r);
            let lo = value(c, by);
            let r = c.call("concat", w, &|| what.clone(), || n.concat(&lo));
            same(c, "concat", &r, w, &what, |i| at_left(n.words(), i, by as u64) | at(lo.words(), i as u64 * 64));
        }
        "B06" => {
            let a = value(c, w);
            let mut b = a.clone();
            let p = match c.g.below(4) {
                0 => 0,
                1 => w - 1,
                _ => c.g.below(w as u64) as u32,
            };
            let what = format!("width {w}, operands differ in bit {p}");
            let d = || what.clone();
            let eq = c.call("is_equal", w, &d, || (a.is_equal(&b), a == b, a.is_greater_or_equal(&b), a.is_less_signed(&b)));
            c.eq("equal operands", eq, (true, true, true, false), &d);
            b.words_mut()[(p / 64) as usize] ^= 1 << (p % 64);
            let gt = a.words()[(p / 64) as usize] >> (p % 64) & 1 == 1;
            let sgt = if p == w - 1 { !gt } else { gt };
            let r = c.call("comparisons", w, &d, || [a.is_equal(&b), a.is_not_equal(&b), a.is_greater(&b), a.is_greater_or_equal(&b), a.is_less(&b), a.is_less_or_equal(&b), a.is_greater_signed(&b), a.is_greater_or_equal_signed(&b), a.is_less_signed(&b), a.is_less_or_equal_signed(&b)]);
            c.eq("comparisons", r, [false, true, gt, gt, !gt, !gt, sgt, sgt, !sgt, !sgt], &d);
        }
        "B07" => {
            let mut a = value(c, w);
            let mut log = vec![];
            for k in 0..60u32 {
                let p = match k {
                    0 => w - 1,
                    1 => 1 << 31,
                    _ => c.g.below(w as u64) as u32,
                }
                .min(w - 1);
                let (i, s) = ((p / 64) as usize, p % 64);
                let old = a.words()[i];
                let want = old >> s & 1 == 1;
                let set = c.g.bool();
                log.push((p, set));
                let d = || format!("width {w} bit {p} set {set}");
                let got = c.call("is_bit_set", w, &d, || a.is_bit_set(p));
                c.eq("is_bit_set", got, want, &d);
                c.call("set_bit / clear_bit", w, &d, || if set { a.set_bit(p) } else { a.clear_bit(p) });
                let e = if set { old | 1 << s } else { old & !(1 << s) };
                c.eq("set_bit / clear_bit", a.words()[i], e, &d);
            }
            let neg = a.words().last().unwrap() >> ((w - 1) % 64) & 1 == 1;
            let r = c.call("predicates", w, &d, || (a.is_negative(), a.is_tru(), a.is_fals(), a.to_bool()));
            c.eq("predicates", r, (neg, false, false, None), &d);
            c.call("clear", w, &d, || a.clear());
            same(c, "clear", &a, w, &what, |_| 0);
            let z = c.call("is_zero", w, &d, || a.is_zero());
            c.eq("is_zero", z, true, &d);
            a.words_mut()[((w - 1) / 64) as usize] = 1 << ((w - 1) % 64);
            let z = c.call("is_zero", w, &d, || a.is_zero());
            c.eq("is_zero", z, false, &d);
            c.call("assign_ones", w, &d, || a.assign_ones());
            same(c, "assign_ones", &a, w, &what, |_| u64::MAX);
            drop(a);
            let r = c.call("ones", w, &d, || BitVecValue::ones(w));
            same(c, "ones", &r, w, &what, |_| u64::MAX);
        }
        "B08" => {
            let (u, i) = (c.g.u64(), c.g.i64ish());
            let r = c.call("from_u64", w, &d, || BitVecValue::from_u64(u, w));
            same(c, "from_u64", &r, w, &what, |k| if k == 0 { u } else { 0 });
            let o = c.call("to_u64", w, &d, || (r.to_u64(), r.to_i64()));
            c.eq("to_u64, to_i64", o, (Some(u), i64::try_from(u).ok()), &d);
            drop(r);
            let mut r = c.call("from_i64", w, &d, || BitVecValue::from_i64(i, w));
            same(c, "from_i64", &r, w, &what, |k| if k == 0 { i as u64 } else if i < 0 { u64::MAX } else { 0 });
            let o = c.call("to_i64", w, &d, || (r.to_i64(), r.to_u64()));
            c.eq("to_i64, to_u64", o, (Some(i), u64::try_from(i).ok()), &d);
            // one bit far above
            let p = w - 1 - c.g.below(w as u64 - 64) as u32;
            r.words_mut()[(p / 64) as usize] ^= 1 << (p % 64);
            let o = c.call("to_i64", w, &d, || (r.to_i64(), r.to_u64()));
            c.eq("to_i64, to_u64 with one more bit", o, (None, None), &d);
        }
        "B09" => b09(c, w),
        "B10" => {
            let a = value(c, w);
            let nb = w.div_ceil(8) as usize;
            let bytes = c.call("to_bytes_le", w, &d, || a.to_bytes_le());
            c.eq("to_bytes_le length", bytes.len(), nb, &d);
            let bad = bytes.iter().enumerate().position(|(i, x)| *x != (a.words()[i / 8] >> (8 * (i % 8))) as u8);
            c.expect(bad.is_none(), &|| format!("to_bytes_le: byte {bad:?} is wrong | {what}"));
            let b = c.call("from_bytes_le", w, &d, || BitVecValue::from_bytes_le(&bytes, w));
            same(c, "from_bytes_le", &b, w, &what, |i| a.words()[i]);
        }
        "B11" => {
            // decimal text of a number that only has some low bits; hexadecimal and binary where the text fits memory
            let mut a = BitVecValue::zero(w);
            let k = c.g.range(1, 6) as usize;
            for i in 0..k {
                a.words_mut()[i] = c.g.word();
            }
            let m = crate::model::big(&a.words()[..k]);
            let s = c.call("to_dec_str", w, &d, || a.to_dec_str());
            c.eq("to_dec_str", s, m.to_str_radix(10), &d);
            let h = w.div_ceil(4) as usize;
            let s = c.call("to_hex_str", w, &d, || a.to_hex_str());
            let tail = crate::model::padded(&m, 16, 16 * k);
            c.expect(s.len() == h && s.ends_with(&tail[tail.len().saturating_sub(h)..]) && s.bytes().take(h - tail.len()).all(|b| b == b'0'), &|| format!("to_hex_str: {} digits, expected {h}, ending in {tail} | {what}", s.len()));
            drop(s);
            if w < 1_000_000_000 {
                let s = c.call("to_bit_str", w, &d, || a.to_bit_str());
                let tail = crate::model::padded(&m, 2, 64 * k);
                c.expect(s.len() == w as usize && s.ends_with(&tail) && s.bytes().take(w as usize - tail.len()).all(|b| b == b'0'), &|| format!("to_bit_str: {} digits, expected {w}, ending in {tail} | {what}", s.len()));
            }
        }
        "B12" if c.index % 2 == 1 => b12_long_text(c),
        "B12" => {
            // short text into a huge value: what is not written stays zero
            let v: u64 = c.g.word();
            for (radix, s) in [(2, format!("{v:b}")), (10, format!("{v}")), (16, format!("{v:x}"))] {
                let r = c.call("from_str_radix", w, &d, || BitVecValue::from_str_radix(&s, radix, w).map_err(|e| format!("{:?}", e.kind)));
                match r {
                    Ok(r) => same(c, "from_str_radix", &r, w, &format!("{what} radix {radix} text {s}"), |i| if i == 0 { v } else { 0 }),
                    Err(e) => c.violate(format!("from_str_radix: error {e} for {s} | {what}")),
                }
            }
            let s = format!("-{v:x}");
            let r = c.call("from_str_radix", w, &d, || BitVecValue::from_str_radix(&s, 16, w).map_err(|e| format!("{:?}", e.kind)));
            match r {
                Ok(r) => same(c, "from_str_radix", &r, w, &format!("{what} text {s}"), |i| if i == 0 { v.wrapping_neg() } else if v == 0 { 0 } else { u64::MAX }),
                Err(e) => c.violate(format!("from_str_radix: error {e} for {s} | {what}")),
            }
        }
        p => panic!("harness: no huge values for {p}"),
    }
}

/// text whose number of digits or bits does not fit 32 bits, or barely
fn b12_long_text(c: &mut Ctx) {
    let bits = if c.index % 10 == 5 { 32u32 } else { 30 };
    let (radix, extra) = (if bits == 32 { 2u32 } else { 16 }, c.g.below(40) as usize);
    let n = (1usize << bits) + extra;
    let small = *c.g.pick(&[1u32, 7, 64, 65, 128, 129, 192, 200, 256, 1000, 4099]);
    let parse = |c: &mut Ctx, s: &str, w: u32, what: &str| {
        let inplace = c.index % 4 == 1;
        c.call("from_str_radix", w, &|| what.to_string(), || {
            if inplace {
                let mut v = BitVecValue::ones(w);
                v.assign_from_str_radix(s, radix).map(|_| v).map_err(|e| format!("{:?}", e.kind))
            } else {
                BitVecValue::from_str_radix(s, radix, w).map_err(|e| format!("{:?}", e.kind))
            }
        })
    };
    let refused = |c: &Ctx, r: Result<BitVecValue, String>, what: &str| {
        if let Ok(v) = r {
            c.violate(format!("{what}: accepted as a value of {} bits, {:x?}", v.width(), v.words().iter().take(4).collect::<Vec<_>>()));
        }
    };
    match c.index % 10 {
        // as many digits as the widest values have
        1 => {
            let w = u32::MAX - c.g.below(3) as u32;
            let first = b"731"[(u32::MAX - w) as usize];
            let mut s = vec![b'0'; 1 << 30];
            s[0] = first;
            for k in 0..1000u64 {
                s[1 + (mix(k ^ w as u64) as usize) % ((1 << 30) - 1)] = b"123456789abcdefABCDEF"[(mix(k) % 21) as usize];
            }
            let t = String::from_utf8(s).unwrap();
            let what = format!("width {w}, text of 2^30 hexadecimal digits that fits");
            match parse(c, &t, w, &what) {
                Ok(v) => {
                    let d = t.as_bytes();
                    same(c, "from_str_radix", &v, w, &what, |i| {
                        let end = d.len() - i * 16;
                        d[end - 16..end].iter().fold(0, |x, b| x << 4 | (*b as char).to_digit(16).unwrap() as u64)
                    });
                }
                Err(e) => c.violate(format!("{what}: error {e}")),
            }
            drop(t);
        }
        // leading zeros without end
        3 => {
            let mut s = vec![b'0'; n];
            s[n - 1] = b'1';
            let t = String::from_utf8(s).unwrap();
            let what = format!("width {small}, text of {n} digits that is one");
            match parse(c, &t, small, &what) {
                Ok(v) => same(c, "from_str_radix", &v, small, &what, |i| (i == 0) as u64),
                Err(e) => c.violate(format!("{what}: error {e}")),
            }
            // there is no such width
            let what = format!("width inferred from {n} hexadecimal digits");
            let r = c.call("from_hex_str", 0, &|| what.clone(), || BitVecValue::from_hex_str(&t).map_err(|e| format!("{:?}", e.kind)));
            refused(c, r, &what);
        }
        // (5: more than 2^32 binary digits)
        _ => {
            let mut s = vec![b'1'; n];
            if c.index % 10 == 9 {
                s[n - 1] = b'-';
            }
            let t = String::from_utf8(s).unwrap();
            let what = format!("width {small}, text of {n} digits");
            let r = parse(c, &t, small, &what);
            refused(c, r, &what);
            let what = format!("width inferred from {n} digits");
            let r = c.call("from_str", 0, &|| what.clone(), || if radix == 2 { BitVecValue::from_bit_str(&t) } else { BitVecValue::from_hex_str(&t) }.map_err(|e| format!("{:?}", e.kind)));
            refused(c, r, &what);
        }
    }
}

/// a big integer of exactly `bits` bits
fn big_of(c: &mut Ctx, bits: u64) -> BigUint {
    let seed = c.g.u64();
    let sparse = c.g.bool();
    let n = bits.div_ceil(32) as usize;
    let mut d: Vec<u32> = (0..n).map(|i| if sparse && i % 4099 != 7 { 0 } else { mix(seed ^ i as u64) as u32 }).collect();
    let top = bits - 32 * (n as u64 - 1);
    let last = d.last_mut().unwrap();
    if top < 32 {
        *last &= (1 << top) - 1;
    }
    *last |= 1 << (top - 1);
    BigUint::new(d)
}

fn b09(c: &mut Ctx, w: u32) {
    let what = format!("width {w}");
    let d = || what.clone();
    let digits = |v: &BigUint, words: &mut dyn Iterator<Item = u64>| {
        let mut it = v.iter_u64_digits();
        loop {
            match (it.next(), words.next()) {
                (None, None) => return true,
                (x, y) if x.unwrap_or(0) == y.unwrap_or(0) => {}
                _ => return false,
            }
        }
    };
    match c.index % 5 {
        0 => {
            let a = value(c, w);
            let b = c.call("to_big_uint", w, &d, || a.to_big_uint());
            c.expect(digits(&b, &mut a.words().iter().copied()), &|| format!("to_big_uint: not the number of the value | {what}"));
            let r = c.call("from_big_uint", w, &d, || BitVecValue::from_big_uint(&b, w));
            same(c, "from_big_uint", &r, w, &what, |i| a.words()[i]);
        }
        1 => {
            let a = value(c, w);
            let neg = a.words().last().unwrap() >> ((w - 1) % 64) & 1 == 1;
            let b = c.call("to_big_int", w, &d, || a.to_big_int());
            c.expect((b.sign() == Sign::Minus) == neg, &|| format!("to_big_int: sign | {what}"));
            let top = if w % 64 == 0 { u64::MAX } else { (1 << (w % 64)) - 1 };
            let n = a.words().len();
            let mut carry = true;
            let mut magnitude = a.words().iter().enumerate().map(|(i, x)| {
                if !neg {
                    return *x;
                }
                let (s, o) = (!x).overflowing_add(carry as u64);
                carry = o;
                if i == n - 1 {
                    s & top
                } else {
                    s
                }
            });
            c.expect(digits(b.magnitude(), &mut magnitude), &|| format!("to_big_int: not the number of the value | {what}"));
            drop(magnitude);
            let r = c.call("from_big_int", w, &d, || BitVecValue::from_big_int(&b, w));
            same(c, "from_big_int", &r, w, &what, |i| a.words()[i]);
        }
        k => {
            // no width given: numbers of nearly and of more than 2^32 bits
            let over = k == 3;
            let near = if c.g.bool() { 3 } else { 130 };
            let bits = if over { (1u64 << 32) + c.g.below(200) } else { (1u64 << 32) - 1 - (k == 4) as u64 - c.g.below(near) };
            let m = big_of(c, bits);
            c.ev("integer without width", w);
            let signed = if over { c.g.bool() } else { k == 4 };
            let r = if signed {
                let x = BigInt::from_biguint(if c.g.bool() { Sign::Minus } else { Sign::Plus }, m.clone());
                guarded(|| from_int(&x)).map(|v| (v.to_big_int() == x, v.width()))
            } else {
                guarded(|| from_uint(&m)).map(|v| (v.to_big_uint() == m, v.width()))
            };
            match r {
                Ok((true, _)) => {}
                Ok((false, w)) => c.violate(format!("an integer of {bits} bits (signed {signed}) became another one at width {w}")),
                Err(_) if over => c.ev("refused", w),
                Err(e) => c.violate(format!("an integer of {bits} bits (signed {signed}) is refused: {e}")),
            }
        }
    }
}
