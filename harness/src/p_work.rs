//! W01: the work of a call, counted in executed machine instructions.
//!
//! Each item prepares a call at two sizes; the process runs under valgrind's callgrind, which counts the
//! instructions between two client requests and dumps the count. The checker compares the counts of the two
//! sizes. Nothing here depends on time.
use crate::gen::{mix, Gen};
use crate::ops;
use baa::*;
use std::hint::black_box;

/// valgrind client request; returns `default` when not running under valgrind
#[cfg(all(target_arch = "x86_64", not(miri)))]
fn request(default: u64, code: u64, arg: u64) -> u64 {
    let args: [u64; 6] = [code, arg, 0, 0, 0, 0];
    let mut r = default;
    // SAFETY: the preamble is a no-op outside valgrind (four rotates adding up to 128 and an exchange of rbx with itself)
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), inout("rdi") 0u64 => _,
        );
    }
    r
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn request(default: u64, _code: u64, _arg: u64) -> u64 {
    default
}
const TOOL: u64 = (('C' as u64) << 24) | (('T' as u64) << 16);
fn zero_stats() {
    request(0, TOOL + 1, 0);
}
fn dump_stats(what: &str) {
    let s = std::ffi::CString::new(what).unwrap();
    request(0, TOOL + 3, s.as_ptr() as u64);
}
/// under valgrind?
pub fn counted() -> bool {
    request(0, 0x1001, 0) != 0
}

pub type Run = Box<dyn FnMut()>;

pub struct Item {
    pub name: String,
    /// the count may grow like size^power
    pub power: u32,
    pub sizes: (u32, u32),
    /// how many calls one measurement makes
    pub calls: u32,
    pub cases: Vec<&'static str>,
    pub prep: Box<dyn Fn(u32, usize, &mut Gen) -> Run>,
}

fn rnd(g: &mut Gen) -> u64 {
    mix(g.u64())
}

/// odd cases use a width that does not fill its last word
fn width(n: u32, case: usize) -> u32 {
    if case % 2 == 0 {
        64 * n
    } else {
        64 * n - 27
    }
}

const VALUES: &[&str] = &["random", "random, partial word", "zero", "ones, partial word", "top bit", "small, partial word", "alternating words", "alternating bits, partial word"];
fn value(n: u32, case: usize, g: &mut Gen) -> BitVecValue {
    let w = width(n, case);
    let mut v: Vec<u64> = (0..n)
        .map(|i| match case % 8 {
            0 | 1 => rnd(g),
            2 => 0,
            3 => u64::MAX,
            4 => ((i == n - 1) as u64) << 63,
            5 => (i == 0) as u64 * 77,
            6 => (i % 2) as u64 * u64::MAX,
            _ => 0x5555_5555_5555_5555,
        })
        .collect();
    if w % 64 != 0 {
        *v.last_mut().unwrap() &= (1 << (w % 64)) - 1;
    }
    crate::ctx::mk(w, &v)
}

const PAIRS: &[&str] = &["random", "random, partial word", "equal", "equal, partial word", "ones and one", "ones and ones, partial word", "one low bit differs", "zero and zero, partial word"];
fn pair(n: u32, case: usize, g: &mut Gen) -> (BitVecValue, BitVecValue) {
    let w = width(n, case);
    let one = BitVecValue::from_u64(1, w);
    match case % 8 {
        0 | 1 => (value(n, case, g), value(n, case, g)),
        2 | 3 => {
            let a = value(n, case % 2, g);
            (a.clone(), a)
        }
        4 => (BitVecValue::ones(w), one),
        5 => (BitVecValue::ones(w), BitVecValue::ones(w)),
        6 => {
            let a = value(n, 0, g);
            let mut b = a.clone();
            if b.is_bit_set(3) {
                b.clear_bit(3)
            } else {
                b.set_bit(3)
            }
            (a, b)
        }
        _ => (BitVecValue::zero(w), BitVecValue::zero(w)),
    }
}

const SHIFTS: &[&str] = &["by 0", "by 1", "by 64", "by 65", "by half the width", "by all but one", "by the width", "by far more"];
fn shift(n: u32, case: usize, g: &mut Gen) -> (BitVecValue, BitVecValue) {
    let a = value(n, (case % 2) + 2 * (rnd(g) % 2) as usize, g);
    let w = a.width();
    let by = |k: u32| BitVecValue::from_u64(k as u64, w);
    let b = match case % 8 {
        0 => by(0),
        1 => by(1),
        2 => by(64),
        3 => by(65),
        4 => by(w / 2),
        5 => by(w - 1),
        6 => by(w),
        _ => BitVecValue::ones(w),
    };
    (a, b)
}

// ---------------------------------------------------------------------------------------------- arrays

/// patterns of keys: number i -> (low word, high word)
const KEYS: &[&str] = &["consecutive", "random", "stride 4096", "only high bits"];
fn key(i: u64, pat: usize, iw: u32, salt: u64) -> BitVecValue {
    let lo = match pat % 4 {
        0 => i,
        1 => mix(i ^ salt) << 20 | i,
        2 => i << 12,
        _ => i << (iw.min(64) - 20),
    };
    let lo = if iw < 64 { lo & ((1 << iw) - 1) } else { lo };
    let mut v = vec![0; iw.div_ceil(64) as usize];
    v[0] = lo;
    if iw > 64 && pat % 2 == 1 {
        v[1] = i & ((1 << (iw - 64).min(16)) - 1);
    }
    crate::ctx::mk(iw, &v)
}
/// index and data widths of the sparse representations
const REPS: &[(&str, u32, u32)] = &[("u64/u64", 48, 32), ("u64/big", 64, 130), ("big/big", 100, 70), ("big/u64", 90, 9)];
fn datum(i: u64, dw: u32) -> BitVecValue {
    let mut v = vec![0; dw.div_ceil(64) as usize];
    v[0] = (mix(i) | 1) & if dw < 64 { (1 << dw) - 1 } else { u64::MAX };
    crate::ctx::mk(dw, &v)
}
fn sparse(n: u32, rep: usize, pat: usize, salt: u64) -> SparseArrayValue {
    let (_, iw, dw) = REPS[rep];
    let mut a = SparseArrayValue::new(iw, &BitVecValue::zero(dw));
    for i in 0..n as u64 {
        a.store(&key(i, pat, iw, salt), &datum(i, dw));
    }
    a
}
fn wrapped(n: u32, rep: usize, pat: usize, salt: u64) -> ArrayValue {
    let (_, iw, dw) = REPS[rep];
    let mut a = ArrayValue::new_sparse(iw, &BitVecValue::zero(dw));
    for i in 0..n as u64 {
        a.store(&key(i, pat, iw, salt), &datum(i, dw));
    }
    a
}
const DENSE: &[(&str, u32)] = &[("1 bit", 1), ("8 bits", 8), ("7 bits", 7), ("64 bits", 64), ("33 bits", 33), ("129 bits", 129)];
/// dense array with n elements (a power of two)
fn dense(n: u32, dw: u32) -> ArrayValue {
    let iw = n.trailing_zeros();
    let mut a = ArrayValue::new_dense(iw, &BitVecValue::zero(dw));
    for i in 0..n as u64 {
        a.store(&BitVecValue::from_u64(i, iw), &datum(i % 50 + (i & 1), dw));
    }
    a
}

pub fn items() -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    let mut add = |name: String, power: u32, sizes: (u32, u32), calls: u32, cases: &[&'static str], prep: Box<dyn Fn(u32, usize, &mut Gen) -> Run>| {
        out.push(Item { name, power, sizes, calls, cases: cases.to_vec(), prep });
    };
    const LIN: (u32, u32) = (64, 8192);
    const TEXT: (u32, u32) = (32, 4096);
    const QUAD: (u32, u32) = (16, 512);
    // ------------------------------------------------------------------ bit-vectors, sizes in words
    for op in 0..ops::BIN.len() {
        let shifts = (3..6).contains(&op);
        let (p, sz) = if op == 2 { (2, QUAD) } else { (1, LIN) };
        add(ops::BIN[op].into(), p, sz, 1, if shifts { SHIFTS } else { PAIRS }, Box::new(move |n, case, g| {
            let (a, b) = if shifts { shift(n, case, g) } else { pair(n, case, g) };
            Box::new(move || drop(black_box(ops::bin(op, &a, &b))))
        }));
    }
    add("concat".into(), 1, LIN, 1, PAIRS, Box::new(|n, case, g| {
        let (a, b) = pair(n, case, g);
        Box::new(move || drop(black_box(a.concat(&b))))
    }));
    add("operators + and -".into(), 1, LIN, 1, PAIRS, Box::new(|n, case, g| {
        let (a, b) = pair(n, case, g);
        Box::new(move || {
            black_box(&a + &b);
            black_box(&a - &b);
        })
    }));
    add("==, != and hash".into(), 1, LIN, 1, PAIRS, Box::new(|n, case, g| {
        let (a, b) = pair(n, case, g);
        Box::new(move || {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            a.hash(&mut h);
            black_box((a == b, a != b, h.finish()));
        })
    }));
    add("ordering".into(), 1, LIN, 1, PAIRS, Box::new(|n, case, g| {
        let (a, b) = pair(n, case, g);
        Box::new(move || {
            black_box((a.cmp(&b), b.partial_cmp(&a), a < b));
        })
    }));
    add("text serialization of a value".into(), 1, LIN, 1, VALUES, Box::new(|n, case, g| {
        let v = value(n, case, g);
        Box::new(move || {
            let s = serde_json::to_string(&v).unwrap();
            drop(black_box(serde_json::from_str::<BitVecValue>(&s).ok()));
        })
    }));
    for op in 0..ops::UN.len() {
        let (p, sz): (u32, (u32, u32)) = match ops::UN[op] {
            "to_dec_str" => (2, QUAD),
            "to_unsigned_fixed_point" | "to_signed_fixed_point" => (2, QUAD),
            "is_bit_set" | "width" => (0, LIN),
            x if x.contains("str") => (1, TEXT),
            _ => (1, LIN),
        };
        for at in 0..3u32 {
            if at > 0 && !["slice", "is_bit_set", "sign_extend", "zero_extend", "to_unsigned_fixed_point", "to_signed_fixed_point"].contains(&ops::UN[op]) {
                continue;
            }
            let name = if at == 0 { ops::UN[op].to_string() } else { format!("{} ({})", ops::UN[op], ["", "large argument", "middle"][at as usize]) };
            add(name, p, sz, 1, VALUES, Box::new(move |n, case, g| {
                let a = value(n, case, g);
                let w = a.width();
                let q = match at {
                    0 => ops::Params { msb: w - 1, lsb: 1, pos: w - 1, by: 1, fw: 1 },
                    1 => ops::Params { msb: w - 1, lsb: 0, pos: 0, by: w, fw: w },
                    _ => ops::Params { msb: w / 2, lsb: w / 3, pos: w / 2, by: w / 2, fw: w / 2 },
                };
                Box::new(move || drop(black_box(ops::un(op, &a, &q))))
            }));
        }
    }
    for op in 0..ops::MUT.len() - 1 {
        let p = if ["set_bit", "clear_bit", "mask_msb"].contains(&ops::MUT[op]) { 0 } else { 1 };
        for (form, name) in ["owned", "view"].iter().enumerate() {
            add(format!("{} ({name})", ops::MUT[op]), p, LIN, 1, VALUES, Box::new(move |n, case, g| {
                let mut t = value(n, case, g);
                let src = value(n, case % 2, g).words().to_vec();
                let w = t.width();
                let args = ops::MutArgs { src, u: rnd(g), i: -(rnd(g) as u32 as i64), pos: [w - 1, 0, w / 2][case % 3], s: String::new(), radix: 2 };
                Box::new(move || {
                    if form == 0 {
                        black_box(ops::mutate(op, &mut t, &args));
                    } else {
                        black_box(ops::mutate(op, &mut BitVecValueMutRef::from(&mut t), &args));
                    }
                })
            }));
        }
    }
    for radix in [2u32, 16, 10] {
        let (p, sz) = if radix == 10 { (2, QUAD) } else { (1, TEXT) };
        for form in 0..2 {
            add(format!("parse radix {radix} ({})", ["fresh", "in place"][form]), p, sz, 1, VALUES, Box::new(move |n, case, g| {
                let v = value(n, case, g);
                let w = v.width();
                let s = match radix {
                    2 => v.to_bit_str(),
                    16 => v.to_hex_str(),
                    _ => v.to_dec_str(),
                };
                let mut t = value(n, case % 2, g);
                Box::new(move || {
                    if form == 0 {
                        drop(black_box(BitVecValue::from_str_radix(&s, radix, w)));
                    } else {
                        drop(black_box(t.assign_from_str_radix(&s, radix)));
                    }
                })
            }));
        }
    }
    add("from_bit_str and from_hex_str".into(), 1, TEXT, 1, VALUES, Box::new(|n, case, g| {
        let v = value(n, case, g);
        let (b, h) = (v.to_bit_str(), v.to_hex_str());
        Box::new(move || {
            drop(black_box(BitVecValue::from_bit_str(&b)));
            drop(black_box(BitVecValue::from_hex_str(&h)));
        })
    }));
    add("debug output of a value".into(), 2, QUAD, 1, VALUES, Box::new(|n, case, g| {
        let v = value(n, case, g);
        Box::new(move || drop(black_box(format!("{v:?}"))))
    }));
    add("from_bytes_le".into(), 1, LIN, 1, VALUES, Box::new(|n, case, g| {
        let v = value(n, case, g);
        let (w, b) = (v.width(), v.to_bytes_le());
        Box::new(move || drop(black_box(BitVecValue::from_bytes_le(&b, w))))
    }));
    add("from big integers".into(), 1, LIN, 1, VALUES, Box::new(|n, case, g| {
        let v = value(n, case, g);
        let w = v.width();
        let m = crate::model::M::from_words(w, v.words());
        let (u, i) = (m.v.clone(), m.int());
        Box::new(move || {
            drop(black_box(BitVecValue::from_big_uint(&u, w)));
            drop(black_box(BitVecValue::from_big_int(&i, w)));
            drop(black_box(BitVecValue::from(&u)));
            drop(black_box(BitVecValue::from(&i)));
        })
    }));
    add("zero, ones, from_u64, from_i64".into(), 1, LIN, 1, &["full words", "partial word"], Box::new(|n, case, _| {
        let w = width(n, case);
        Box::new(move || {
            black_box((BitVecValue::zero(w), BitVecValue::ones(w), BitVecValue::from_u64(7, w), BitVecValue::from_i64(-7, w)));
        })
    }));
    add("clone and copy of a view".into(), 1, LIN, 1, VALUES, Box::new(|n, case, g| {
        let v = value(n, case, g);
        Box::new(move || {
            black_box(v.clone());
            black_box(BitVecValue::from(BitVecValueRef::from(&v)));
        })
    }));
    add("binary serialization of a value".into(), 1, LIN, 1, VALUES, Box::new(|n, case, g| {
        let v = value(n, case, g);
        Box::new(move || drop(black_box(crate::shim::binary_trip(&v))))
    }));
    add("views of a value".into(), 0, LIN, 1, VALUES, Box::new(|n, case, g| {
        let mut v = value(n, case, g);
        Box::new(move || {
            black_box(BitVecValueRef::from(&v).words().len());
            black_box(BitVecValueMutRef::from(&mut v).words_mut().len());
            black_box(v.words().len());
        })
    }));
    add("a narrow slice of a wide value".into(), 0, LIN, 1, &["low", "across words", "high"], Box::new(|n, case, g| {
        let v = value(n, 0, g);
        let lsb = [0, 64 * (n / 2) - 9, 64 * n - 20][case];
        Box::new(move || drop(black_box(v.slice(lsb + 19, lsb))))
    }));
    add("views into a large store".into(), 0, LIN, 3, &["start", "middle", "end"], Box::new(|n, case, g| {
        let mut store: Vec<u64> = (0..n).map(|_| rnd(g)).collect();
        let at = [0, n / 2, n - 12][case];
        let ix = move |k: u32, w: u32| BitVecValueIndex::new(at + k, w);
        Box::new(move || {
            let (a, b, c) = (ix(0, 128), ix(4, 128), ix(8, 128));
            black_box(store.as_slice().get_ref(a).words().len());
            let (x, y): (BitVecValueRef, BitVecValueRef) = store.as_slice().get_ref((a, b));
            black_box(x.is_equal(&y));
            let mut m: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(a);
            m.set_bit(5);
            let (mut m, r): (BitVecValueMutRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((b, c));
            m.assign(r);
            let (mut m, r, s): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((c, a, b));
            m.assign(&r.add(&s));
        })
    }));
    // ------------------------------------------------------------------ sparse arrays, sizes in entries
    const N: (u32, u32) = (256, 32768);
    for rep in 0..REPS.len() {
        let (rn, iw, dw) = REPS[rep];
        add(format!("sparse {rn}: select and store at known and new indices"), 0, N, 64 * 4, KEYS, Box::new(move |n, case, g| {
            let salt = rnd(g);
            let mut a = sparse(n, rep, case, salt);
            // as large as it gets, so that no growth of the map is part of the measurement
            for i in 0..64 {
                a.store(&key(n as u64 + i, case, iw, salt), &datum(i, dw));
            }
            for i in 0..64 {
                a.store(&key(n as u64 + i, case, iw, salt), &BitVecValue::zero(dw));
            }
            let known: Vec<_> = (0..64).map(|i| key(i * (n as u64 / 64), case, iw, salt)).collect();
            let new: Vec<_> = (0..64).map(|i| key(n as u64 + i, case, iw, salt)).collect();
            let d = datum(9, dw);
            let z = BitVecValue::zero(dw);
            Box::new(move || {
                for i in 0..64 {
                    black_box(a.select(&known[i]));
                    black_box(a.select(&new[i]));
                    a.store(&known[i], &d);
                    a.store(&new[i], &z);
                }
            })
        }));
        add(format!("sparse {rn}: removing and putting back"), 0, N, 64 * 2, KEYS, Box::new(move |n, case, g| {
            let salt = rnd(g);
            let mut a = sparse(n, rep, case, salt);
            let known: Vec<_> = (0..64).map(|i| key(i * (n as u64 / 64), case, iw, salt)).collect();
            let d = datum(9, dw);
            let z = BitVecValue::zero(dw);
            Box::new(move || {
                for k in &known {
                    a.store(k, &z);
                    a.store(k, &d);
                }
            })
        }));
        add(format!("sparse {rn}: default and widths"), 0, N, 1, KEYS, Box::new(move |n, case, g| {
            let a = sparse(n, rep, case, rnd(g));
            let b = wrapped(n, rep, case, rnd(g));
            Box::new(move || {
                black_box((a.default(), a.index_width(), a.data_width(), b.is_sparse(), b.is_dense(), b.index_width(), b.data_width()));
            })
        }));
        add(format!("sparse {rn}: a history of stores"), 1, N, 1, KEYS, Box::new(move |n, case, g| {
            let salt = rnd(g);
            Box::new(move || drop(black_box(sparse(n, rep, case, salt))))
        }));
        add(format!("sparse {rn}: listing the entries"), 1, N, 1, KEYS, Box::new(move |n, case, g| {
            let a = sparse(n, rep, case, rnd(g));
            Box::new(move || {
                black_box(a.non_default_entries().count());
                for e in a.non_default_entries() {
                    black_box(e);
                }
            })
        }));
        add(format!("sparse {rn}: equality"), 1, N, 1, KEYS, Box::new(move |n, case, g| {
            let salt = rnd(g);
            let (a, b) = (wrapped(n, rep, case, salt), wrapped(n, rep, case, salt));
            let mut c = ArrayValue::new_sparse(iw, &datum(3, dw));
            for i in 0..n as u64 {
                c.store(&key(i, case, iw, salt), &datum(i, dw));
            }
            Box::new(move || {
                black_box((a.is_equal(&b), a == b, a == c, c == a));
            })
        }));
        add(format!("sparse {rn}: clone, debug output, clear"), 1, N, 1, KEYS, Box::new(move |n, case, g| {
            let a = wrapped(n, rep, case, rnd(g));
            let mut b = a.clone();
            Box::new(move || {
                drop(black_box(a.clone()));
                drop(black_box(format!("{a:?}")));
                b.clear();
            })
        }));
        add(format!("sparse {rn}: binary form"), 1, N, 1, KEYS, Box::new(move |n, case, g| {
            let a = sparse(n, rep, case, rnd(g));
            Box::new(move || {
                let b = bincode::serialize(&a).unwrap();
                drop(black_box(bincode::deserialize::<SparseArrayValue>(&b).ok()));
            })
        }));
    }
    for (dn, dw) in [("32 bits", 32u32), ("130 bits", 130)] {
        add(format!("sparse with {dn}: the size of the index space"), 0, (12, 22), 64, KEYS, Box::new(move |iw, case, _| {
            let mut x = ArrayValue::new_sparse(iw, &BitVecValue::zero(dw));
            let mut y = ArrayValue::new_sparse(iw, &datum(4, dw));
            let ks: Vec<_> = (0..64u64).map(|i| BitVecValue::from_u64([i, mix(i), i << (iw - 6), mix(i) | 1][case] & ((1 << iw) - 1), iw)).collect();
            Box::new(move || {
                for (i, k) in ks.iter().enumerate() {
                    x.store(k, &datum(i as u64, dw));
                    black_box(x.select(k));
                    y.store(k, &datum(i as u64, dw));
                }
                black_box((x.is_equal(&y), x.clone() == x));
                let s = SparseArrayValue::from(x.clone());
                black_box((s.non_default_entries().count(), s.default()));
                drop(black_box(format!("{s:?}")));
                x.clear();
            })
        }));
    }
    // ------------------------------------------------------------------ dense arrays, sizes in elements
    const E: (u32, u32) = (256, 32768);
    for (dn, dw) in DENSE.iter().copied() {
        add(format!("dense, {dn}: select and store"), 0, E, 64 * 2, &["anywhere"], Box::new(move |n, _, _| {
            let mut a = dense(n, dw);
            let iw = a.index_width();
            let ks: Vec<_> = (0..64).map(|i| BitVecValue::from_u64(i * (n as u64 / 64), iw)).collect();
            let d = datum(9, dw);
            Box::new(move || {
                for k in &ks {
                    black_box(a.select(k));
                    a.store(k, &d);
                }
                black_box((a.is_dense(), a.index_width(), a.data_width(), a.num_elements(), a.words_per_element()));
            })
        }));
        add(format!("dense, {dn}: new, clone, equality, clear, make_dense"), 1, E, 1, &["anywhere"], Box::new(move |n, _, _| {
            let a = dense(n, dw);
            let mut b = a.clone();
            let iw = a.index_width();
            Box::new(move || {
                drop(black_box(ArrayValue::new_dense(iw, &datum(1, dw))));
                drop(black_box(a.clone()));
                black_box((a.is_equal(&b), a == b));
                b.make_dense();
                b.clear();
            })
        }));
        add(format!("dense, {dn}: serialization"), 1, E, 1, &["anywhere"], Box::new(move |n, _, _| {
            let a = dense(n, dw);
            Box::new(move || {
                let b = bincode::serialize(&a).unwrap();
                drop(black_box(bincode::deserialize::<ArrayValue>(&b).ok()));
            })
        }));
        add(format!("dense, {dn}: debug output"), 1, E, 1, &["anywhere"], Box::new(move |n, _, _| {
            let a = dense(n, dw);
            Box::new(move || drop(black_box(format!("{a:?}"))))
        }));
        add(format!("{dn}: from dense to sparse"), 1, E, 1, &["few values", "all different"], Box::new(move |n, case, _| {
            let mut a = dense(n, dw);
            if case == 1 {
                for i in 0..n as u64 {
                    let iw = a.index_width();
                    a.store(&BitVecValue::from_u64(i, iw), &datum(i, dw));
                }
            }
            let mut a = Some(a);
            Box::new(move || {
                if let Some(a) = a.take() {
                    drop(black_box(SparseArrayValue::from(a)));
                }
            })
        }));
        add(format!("{dn}: from sparse to dense"), 1, E, 1, &["few entries", "all entries"], Box::new(move |n, case, _| {
            let iw = n.trailing_zeros();
            let mut a = ArrayValue::new_sparse(iw, &BitVecValue::zero(dw));
            for i in 0..(if case == 0 { 5 } else { n as u64 }) {
                a.store(&BitVecValue::from_u64(i, iw), &datum(i, dw));
            }
            Box::new(move || a.make_dense())
        }));
        add(format!("{dn}: equality of dense and sparse"), 1, E, 1, &["few entries", "all entries"], Box::new(move |n, case, _| {
            let iw = n.trailing_zeros();
            let mut a = ArrayValue::new_sparse(iw, &BitVecValue::zero(dw));
            for i in 0..(if case == 0 { 5 } else { n as u64 }) {
                a.store(&BitVecValue::from_u64(i, iw), &datum(i, dw));
            }
            let mut b = a.clone();
            b.make_dense();
            Box::new(move || {
                black_box((a == b, b == a));
            })
        }));
    }
    add("arrays from slices".into(), 1, E, 1, &["anywhere"], Box::new(|n, _, g| {
        let w: Vec<u64> = (0..n).map(|_| rnd(g)).collect();
        let b: Vec<u8> = w.iter().map(|x| *x as u8).collect();
        let t: Vec<bool> = w.iter().map(|x| x & 1 == 1).collect();
        Box::new(move || {
            drop(black_box(ArrayValue::from(w.as_slice())));
            drop(black_box(ArrayValue::from(b.as_slice())));
            drop(black_box(ArrayValue::from(t.as_slice())));
        })
    }));
    // ------------------------------------------------------------------ interner, sizes in values
    for (wn, iw) in [("40 bits", 40u32), ("64 bits", 64), ("100 bits", 100), ("500 bits", 500)] {
        add(format!("interner, {wn}: known values"), 0, N, 64, KEYS, Box::new(move |n, case, g| {
            let salt = rnd(g);
            let mut x = ValueInterner::new();
            for i in 0..n as u64 {
                x.get_index(&key(i, case, iw, salt));
            }
            let ks: Vec<_> = (0..64).map(|i| key(i * (n as u64 / 64), case, iw, salt)).collect();
            Box::new(move || {
                for k in &ks {
                    let i = x.get_index(k);
                    black_box(x.words().get_ref(i).words().len());
                    black_box((ValueInterner::is_zero(i), ValueInterner::is_one(i)));
                }
            })
        }));
        add(format!("interner, {wn}: a history of new values"), 1, N, 1, KEYS, Box::new(move |n, case, g| {
            let salt = rnd(g);
            Box::new(move || {
                let mut x = ValueInterner::new();
                for i in 0..n as u64 {
                    black_box(x.get_index(&key(i, case, iw, salt)));
                }
            })
        }));
        add(format!("interner, {wn}: clone, debug output"), 1, N, 1, KEYS, Box::new(move |n, case, g| {
            let salt = rnd(g);
            let mut x = ValueInterner::new();
            for i in 0..n as u64 {
                x.get_index(&key(i, case, iw, salt));
            }
            Box::new(move || {
                drop(black_box(x.clone()));
                drop(black_box(format!("{x:?}")));
            })
        }));
    }
    // the others need histories to prepare what they measure; if those get stuck, that is to be noticed first
    out.sort_by_key(|i| !i.name.contains("history"));
    out
}

/// Runs this process's share, starting at pair `from`. Lines on standard output, in order: `P {json}` before a call
/// is prepared, `R` before it runs, `D` after callgrind dumped its count, `X message` if it panicked instead.
pub fn run(seed: u64, shard: usize, shards: usize, from: usize, only: Option<&str>, scale: u32) {
    use std::io::Write;
    let say = |s: &str| {
        let mut o = std::io::stdout().lock();
        let _ = writeln!(o, "{s}");
        let _ = o.flush();
    };
    let mut pair = 0;
    for (k, it) in items().iter().enumerate() {
        for (case, cname) in it.cases.iter().enumerate() {
            pair += 1;
            if pair <= from || only.map(|o| o != it.name).unwrap_or(pair % shards != shard) {
                continue;
            }
            let grow = match it.power {
                2 => scale.div_ceil(4),
                _ if it.sizes.1 < 100 => 1,
                _ => scale,
            };
            for size in [it.sizes.0, it.sizes.1 * grow] {
                say(&format!("P {}", serde_json::json!({"pair": pair, "item": it.name, "case": cname, "power": it.power, "size": size, "calls": it.calls})));
                let r = crate::ctx::guarded(|| {
                    let mut g = Gen::new(mix(seed ^ mix((k as u64) << 8 | case as u64)));
                    let mut f = (it.prep)(size, case, &mut g);
                    say("R");
                    zero_stats();
                    f();
                    dump_stats("m");
                });
                match r {
                    Ok(()) => say("D"),
                    Err(m) => {
                        say(&format!("X {}", m.replace('\n', " ")));
                        break;
                    }
                }
            }
        }
    }
    say("END");
}
