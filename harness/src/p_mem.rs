//! M02: memory follows the contents. Allocations of the worker's thread are counted by the global allocator.
use crate::ctx::*;
use crate::gen::Gen;
use crate::model::*;
use crate::ops::{self, Out, Params};
use crate::p_arr::{data, data_width, index_pool};
use baa::*;
use num_bigint::BigUint;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeSet;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

#[inline]
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v);
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// result, most bytes held in addition at any time, bytes still held at the end
fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let start = live();
    PEAK.with(|p| p.set(start));
    let r = f();
    (r, PEAK.with(|p| p.get()) - start, live() - start)
}

/// Generous constants: the bounds are there to tell "a multiple of the contents" from "grows with something else".
/// (On the tree as it is, no call needs more than 3 times its contents beyond 2 KiB.)
const FACTOR: i64 = 64;
const SLACK: i64 = 16 << 10;

fn size(o: &Out) -> i64 {
    match o {
        Out::Val(_, w) => 8 * w.len() as i64,
        Out::Str(s) => s.len() as i64,
        Out::Bytes(b) => b.len() as i64,
        Out::Int(i) => i.bits() as i64 / 8,
        Out::Uint(i) => i.bits() as i64 / 8,
        _ => 8,
    }
}

fn bound(c: &Ctx, op: &str, peak: i64, held: i64, content: i64, d: &dyn Fn() -> String) {
    let limit = FACTOR * content + SLACK;
    if peak > limit || held > limit {
        c.violate(format!("{op}: needed {peak} bytes and kept {held}, contents are {content} bytes | {}", d()));
    }
}

pub const LEAK: u32 = 4;
pub const SPARSE: u32 = 5;
pub const DENSE: u32 = 6;
pub const INTERN: u32 = 7;

pub fn m02(c: &mut Ctx) {
    match c.stream {
        LEAK => leak(c),
        SPARSE => sparse(c),
        DENSE => dense(c),
        INTERN => intern(c),
        _ => operations(c),
    }
}

/// one call on bit-vectors: what it allocates is bounded by operands and result
fn operations(c: &mut Ctx) {
    let w = c.width(9000);
    let aw = c.g.words(w);
    let a = mk(w, &aw);
    let na = 8 * aw.len() as i64;
    c.evaluations += 1;
    c.seen(hash_words(70, w, &aw));
    c.sample(|| format!("w={w} a={aw:x?}"));
    let d0 = || format!("a={}", M::from_words(w, &aw).hex());
    let op = c.g.below(ops::BIN.len() as u64 + ops::UN.len() as u64 + 6) as usize;
    if op < ops::BIN.len() {
        if op == 2 && w > 4000 {
            return;
        }
        let bw = if (3..6).contains(&op) { c.g.shift_amount(w) } else { c.g.words_or_related(&aw, w) };
        let b = mk(w, &bw);
        let d = || format!("{} b={:x?}", d0(), &bw[..bw.len().min(4)]);
        let (r, peak, held) = c.call(ops::BIN[op], w, &d, || measure(|| ops::bin(op, &a, &b)));
        bound(c, ops::BIN[op], peak, held, 2 * na + size(&r), &d);
    } else if op < ops::BIN.len() + ops::UN.len() {
        let op = op - ops::BIN.len();
        if op == 10 && w > 40_000 {
            return;
        }
        let mut p = Params::valid(&mut c.g, w);
        if c.g.chance(10) {
            p.by = c.g.below(1 << 20) as u32;
        }
        let d = || format!("{} {p:?}", d0());
        let (r, peak, held) = c.call(ops::UN[op], w, &d, || measure(|| ops::un(op, &a, &p)));
        bound(c, ops::UN[op], peak, held, na + size(&r), &d);
    } else {
        match op - ops::BIN.len() - ops::UN.len() {
            0 => {
                let wb = c.g.width(9000);
                let b = mk(wb, &c.g.words(wb));
                let (r, peak, held) = c.call("concat", w + wb, &d0, || measure(|| ops::concat(&a, &b)));
                bound(c, "concat", peak, held, size(&r) * 2, &d0);
            }
            1 => {
                let radix = *c.g.pick(&[2u32, 10, 16]);
                let w = w.min(20_000);
                let s = crate::text::any(&mut c.g, w, radix);
                let d = || format!("text of {} bytes, radix {radix}, width {w}", s.len());
                let ((), peak, held) = c.call("from_str_radix", w, &d, || measure(|| drop(BitVecValue::from_str_radix(&s, radix, w))));
                bound(c, "from_str_radix", peak, held, s.len() as i64 + w as i64 / 8, &d);
            }
            2 => {
                let bytes = a.to_bytes_le();
                let ((), peak, held) = c.call("from_bytes_le", w, &d0, || measure(|| drop(BitVecValue::from_bytes_le(&bytes, w))));
                bound(c, "from_bytes_le", peak, held, 2 * na, &d0);
            }
            3 => {
                // updates in place
                let args = ops::MutArgs { src: c.g.words(w), u: 1, i: -1, pos: ops::pos(&mut c.g, w), s: "1".into(), radix: 2 };
                let mut t = a.clone();
                let op = c.g.below(ops::MUT.len() as u64) as usize;
                let (_, peak, held) = c.call(ops::MUT[op], w, &d0, || measure(|| ops::mutate(op, &mut t, &args)));
                bound(c, ops::MUT[op], peak, held, na, &d0);
            }
            4 => {
                let ((), peak, held) = c.call("hash, ==, clone, debug", w, &d0, || {
                    measure(|| {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        a.hash(&mut h);
                        let b = a.clone();
                        let _ = (h.finish(), a == b, a.cmp(&b), format!("{b:?}"));
                    })
                });
                bound(c, "hash, ==, clone, debug", peak, held, na * 10, &d0);
            }
            _ => {
                // a view of few words in a large store
                let mut store = c.g.words(1 << 20);
                let w = c.g.range(1, 200) as u32;
                let at = c.g.below((1 << 14) - 4) as u32;
                let ix = BitVecValueIndex::new(at, w);
                crate::gen::mask_top(&mut store[at as usize..(at + w.div_ceil(64)) as usize], w);
                let d = || format!("view {ix:?} of a store of {} words", store.len());
                let (_, peak, held) = c.call("operation on a view", w, &d, || {
                    measure(|| {
                        let v: BitVecValueRef = store.as_slice().get_ref(ix);
                        BitVecOps::add(&v, &v).width()
                    })
                });
                bound(c, "operation on a view", peak, held, w as i64 / 8 + 8, &d);
            }
        }
    }
}

/// things done in a block of the leak test; returns the bytes of the operands
fn block(g: &mut Gen, n: u64) -> i64 {
    let mut bytes = 0;
    let mut int = ValueInterner::new();
    for _ in 0..n {
        let w = match g.below(4) {
            0 => g.width(130),
            1 => g.range(129, 600) as u32,
            _ => g.range(600, 6000) as u32,
        };
        let (a, b) = (mk(w, &g.words_cls(w, 13)), mk(w, &g.words_cls(w, 13)));
        bytes += a.words().len() as i64 * 16;
        let r = guarded(|| match g.below(8) {
            0..=2 => {
                let op = [0usize, 1, 3, 4, 5, 6, 7, 8, 9, 11, 15][g.below(11) as usize];
                drop(ops::bin(op, &a, &b));
            }
            3..=4 => {
                let op = g.below(ops::UN.len() as u64) as usize;
                let p = Params::valid(g, w);
                drop(ops::un(op, &a, &p));
            }
            5 => {
                let s = if g.bool() { a.to_hex_str() } else { a.to_bit_str() };
                let radix = if s.len() == w as usize { 2 } else { 16 };
                drop(BitVecValue::from_str_radix(&s, radix, w));
                drop(BitVecValue::from_bytes_le(&b.to_bytes_le(), w));
            }
            6 => {
                let i = int.get_index(&a);
                let v: BitVecValueRef = int.words().get_ref(i);
                let _ = v.is_zero();
                if g.chance(10) {
                    int = ValueInterner::new();
                }
            }
            _ => {
                let iw = g.range(1, 70) as u32;
                let mut x = ArrayValue::new_sparse(iw, &a);
                let i = mk(iw, &g.words(iw));
                x.store(&i, &b);
                let y = x.clone();
                let _ = (x == y, x.select(&i).is_zero());
                if iw < 6 {
                    x.make_dense();
                    let z: SparseArrayValue = x.into();
                    let _ = z.non_default_entries().count();
                }
                let mut y = y;
                y.clear();
            }
        });
        if let Err(m) = r {
            // judged by other properties
            panic!("harness: a call in the leak test panicked: {m}");
        }
    }
    bytes
}
fn leak(c: &mut Ctx) {
    c.evaluations += 1;
    let seed = c.g.u64();
    c.seen(seed);
    // once to fill whatever is legitimately kept (tables, thread locals)
    let (_, _, _) = measure(|| block(&mut Gen::new(seed), 300));
    let (bytes, _, first) = measure(|| block(&mut Gen::new(seed), 300));
    let (_, _, second) = measure(|| block(&mut Gen::new(seed), 300));
    c.ev("300 operations repeated", 0);
    c.expect(!(first > 0 && second > 0), &|| format!("repeating the same 300 operations ({bytes} bytes of operands) leaves {first}, then {second} bytes behind"));
    // ever new values: anything remembered per value shows up as growth in proportion
    let (bytes, _, held) = measure(|| (0..12u64).map(|k| block(&mut Gen::new(seed.wrapping_add(k + 1)), 300)).sum::<i64>());
    c.ev("3600 operations on new values", 0);
    c.sample(|| format!("3600 operations on {bytes} bytes of operands left {held} bytes"));
    c.expect(held < bytes / 64 + SLACK, &|| format!("3600 operations on {bytes} bytes of operands leave {held} bytes behind although every object is dropped"));
}

/// sparse arrays need memory for what is stored, whatever the size of the index space
fn sparse(c: &mut Ctx) {
    let (iw, dw) = (
        match c.g.below(4) {
            0 => c.g.range(20, 62) as u32,
            1 => c.g.range(10, 20) as u32,
            _ => *c.g.pick(&[22, 24, 30, 31, 32, 33, 40, 62, 63, 64, 65, 128, 200]),
        },
        data_width(&mut c.g),
    );
    let def = data(&mut c.g, dw, None);
    let per = (iw.div_ceil(64) + dw.div_ceil(64)) as i64 * 8 + 64;
    let dv = mkm(&M::new(dw, def.clone()));
    let what = format!("sparse array {iw} -> {dw} default {def:#x}");
    c.sample(|| what.clone());
    let d = || what.clone();
    let (mut a, peak, held) = c.call("new", dw, &d, || measure(|| SparseArrayValue::new(iw, &dv)));
    bound(c, "new", peak, held, per, &d);
    let start = live() - held;
    let pool = index_pool(&mut c.g, iw);
    let mut touched: BTreeSet<BigUint> = BTreeSet::new();
    let mut most = 0usize;
    let steps = if c.g.chance(20) { c.g.range(100, 1500) } else { c.g.range(1, 40) };
    let spread = c.g.chance(40);
    if c.g.chance(10) {
        // stores that change nothing, at many different indices
        let n = c.g.range(1000, 6000);
        let d = || format!("{what}: {n} stores of the default value at different indices");
        let seed = c.g.u64();
        let at = |j: u64| {
            let mut v = vec![0u64; iw.div_ceil(64) as usize];
            v[0] = crate::gen::mix(seed ^ j);
            crate::gen::mask_top(&mut v, iw);
            mk(iw, &v)
        };
        let vv = mkm(&M::new(dw, def.clone()));
        for back in [false, true] {
            // the second time each entry is made first and then taken away
            let mut x = mkm(&M::new(dw, def.clone()));
            if dw > 0 {
                let b = x.is_bit_set(0);
                if b {
                    x.clear_bit(0)
                } else {
                    x.set_bit(0)
                }
            }
            let (_, peak, held) = c.call("store", dw, &d, || {
                measure(|| {
                    for j in 0..n {
                        let i = at(j);
                        if back {
                            a.store(&i, &x);
                        }
                        a.store(&i, &vv);
                    }
                })
            });
            c.evaluations += n;
            bound(c, "stores of the default value", peak, held, per * 3, &d);
        }
    }
    let mut other = a.clone();
    let copy_cost = 1 + (iw <= 64) as i64; // the clone is held as well
    for step in 0..steps {
        c.evaluations += 1;
        let i = if spread { big(&c.g.words_cls(iw, 13)) } else { c.g.pick(&pool).clone() };
        let v = if c.g.chance(50) { def.clone() } else { data(&mut c.g, dw, Some(&def)) };
        let (iv, vv) = (mkm(&M::new(iw, i.clone())), mkm(&M::new(dw, v.clone())));
        c.seen(hash_words(71 ^ step, iw, &iv.words().to_vec()));
        let d = || format!("{what}: step {step}, {} entries", touched.len());
        let (_, peak, held) = c.call("store", dw, &d, || measure(|| a.store(&iv, &vv)));
        // a growing table may be copied
        bound(c, "store", peak, held, per * (most as i64 + 2), &d);
        drop((iv, vv));
        if v == def {
            touched.remove(&i);
        } else {
            touched.insert(i.clone());
        }
        most = most.max(touched.len());
        let iv = mkm(&M::new(iw, i.clone()));
        let d = || format!("{what}: step {step}, {} entries", touched.len());
        let (r, peak, held) = c.call("select", dw, &d, || measure(|| a.select(&iv)));
        bound(c, "select", peak, held, per, &d);
        drop(r);
        let n = per * (most as i64 + 2) * (1 + copy_cost);
        match c.g.below(24) {
            0 => {
                let (r, peak, held) = c.call("clone", dw, &d, || measure(|| a.clone()));
                bound(c, "clone", peak, held, n, &d);
                other = r;
            }
            1 => {
                let ((), peak, held) = c.call("default, data_width", dw, &d, || measure(|| drop((a.default(), a.data_width()))));
                bound(c, "default, data_width", peak, held, per, &d);
            }
            2 => {
                let (k, peak, held) = c.call("non_default_entries", dw, &d, || measure(|| a.non_default_entries().count()));
                bound(c, "non_default_entries", peak, held, n, &d);
                c.eq("entries", k, touched.len(), &d);
            }
            3 => {
                // different defaults: still no enumeration of the index space
                let z = ArrayValue::new_sparse(iw, &mkm(&M::new(dw, big(&c.g.words(dw)))));
                let x = like(iw, &a);
                let (_, peak, held) = c.call("is_equal", dw, &d, || measure(|| (x.is_equal(&z), z.is_equal(&x))));
                bound(c, "is_equal", peak, held, n, &d);
            }
            4 => {
                let (_, peak, held) = c.call("is_equal", dw, &d, || measure(|| {
                    let x = like(iw, &a);
                    let y = x.clone();
                    x == y && SparseArrayValue::from(y).index_width() == iw
                }));
                bound(c, "array of the same type", peak, held, n, &d);
            }
            5 => {
                let (s, peak, held) = c.call("debug", dw, &d, || measure(|| format!("{a:?}").len()));
                bound(c, "debug", peak, held, n * 10 + s as i64, &d);
            }
            6 if c.g.chance(20) => {
                let (_, peak, held) = c.call("clear", dw, &d, || measure(|| a.clear()));
                bound(c, "clear", peak, held, per, &d);
                return;
            }
            _ => {}
        }
    }
    // what is held altogether is bounded by the largest number of entries there ever was, not by the history
    drop(other);
    let extra: i64 = pool.iter().chain(touched.iter()).map(|i| 200 + i.bits() as i64).sum();
    let held = live() - start;
    c.expect(held <= FACTOR * per * (most as i64 + 2) + SLACK + extra, &|| format!("{what}: {held} bytes held after {steps} steps with at most {most} entries"));
}

/// `ArrayValue` has no constructor from a sparse array; one with the same contents
fn like(iw: u32, a: &SparseArrayValue) -> ArrayValue {
    let mut x = ArrayValue::new_sparse(iw, &a.default());
    for (i, v) in a.non_default_entries() {
        x.store(&i, &v);
    }
    x
}

/// reading and writing one element of a dense array does not copy the array
fn dense(c: &mut Ctx) {
    let (iw, dw) = *c.g.pick(&[(23u32, 1u32), (20, 8), (20, 3), (17, 64), (17, 33), (15, 128), (14, 200)]);
    let def = data(&mut c.g, dw, None);
    let dv = mkm(&M::new(dw, def.clone()));
    let what = format!("dense array {iw} -> {dw} default {def:#x}");
    c.sample(|| what.clone());
    let d = || what.clone();
    let bytes = ((dw.div_ceil(64) as i64 * 8) << iw).min(if dw == 1 { 1 << (iw - 3) } else if dw <= 8 { 1 << iw } else { i64::MAX });
    let (mut a, peak, held) = c.call("new_dense", dw, &d, || measure(|| ArrayValue::new_dense(iw, &dv)));
    c.expect(peak <= 3 * (8 * bytes) + SLACK && held <= 3 * (8 * bytes) + SLACK, &|| format!("{what}: new_dense needed {peak} bytes and keeps {held}, contents are {bytes} bytes"));
    for _ in 0..30 {
        c.evaluations += 1;
        let i = c.g.words(iw);
        let v = data(&mut c.g, dw, Some(&def));
        c.seen(hash_words(72, iw, &i));
        let (iv, vv) = (mk(iw, &i), mkm(&M::new(dw, v)));
        let (_, peak, held) = c.call("store", dw, &d, || measure(|| a.store(&iv, &vv)));
        bound(c, "store", peak, held, 64, &d);
        let (_, peak, _) = c.call("select", dw, &d, || measure(|| a.select(&iv)));
        bound(c, "select", peak, 0, 64, &d);
    }
    let (_, peak, held) = c.call("num_elements", dw, &d, || measure(|| (a.num_elements(), a.is_dense(), a.index_width())));
    bound(c, "num_elements", peak, held, 64, &d);
    let (_, peak, held) = c.call("clear", dw, &d, || measure(|| a.clear()));
    c.expect(peak <= 3 * 8 * bytes + SLACK && held <= SLACK, &|| format!("{what}: clear needed {peak} bytes and keeps {held}"));
}

/// the interner only grows for values it has not seen
fn intern(c: &mut Ctx) {
    let n = c.g.range(1, 300);
    let vals: Vec<BitVecValue> = (0..n)
        .map(|_| {
            let w = match c.g.below(3) {
                0 => c.g.width(64),
                _ => c.g.width(1000),
            };
            let x = c.g.words(w);
            mk(w, &x)
        })
        .collect();
    let bytes: i64 = vals.iter().map(|v| 8 * v.words().len() as i64 + 32).sum();
    let what = format!("{n} values of {bytes} bytes");
    c.sample(|| what.clone());
    let d = || what.clone();
    c.evaluations += n;
    c.seen(hash_words(73, n as u32, vals[0].words()));
    let (mut int, p0, h0) = c.call("intern", 0, &d, || {
        measure(|| {
            let mut int = ValueInterner::new();
            for v in &vals {
                int.get_index(v);
            }
            int
        })
    });
    bound(c, "intern", p0, h0, bytes, &d);
    let words = int.words().len();
    let (_, _, h1) = c.call("intern again", 0, &d, || {
        measure(|| {
            for _ in 0..3 {
                for v in &vals {
                    int.get_index(v);
                }
            }
        })
    });
    c.expect(h1 <= 0 && int.words().len() == words, &|| format!("interning known values again: {h1} more bytes, {} words instead of {words} | {what}", int.words().len()));
}
