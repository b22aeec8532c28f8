//! Many elements: interners with more values than 16 bits count, stores whose positions need 17 to 30 bits, arrays
//! with 2^16 and more elements or entries. The models here are flat maps of words, so that a case stays cheap.
use crate::ctx::*;
use crate::gen::{mask_top, mix, Gen};
use baa::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const SCALE: u32 = 22;
pub const NAME: &str = "many elements: counts and positions beyond 16 bits";

pub type Ws = Vec<u64>;
pub fn fill(seed: u64, i: u64, w: u32) -> Ws {
    let mut v: Ws = (0..w.div_ceil(64) as u64).map(|k| mix(seed ^ mix(i) ^ (k << 50))).collect();
    mask_top(&mut v, w);
    v
}
pub fn num(w: u32, x: u64) -> Ws {
    let mut v = vec![0; w.div_ceil(64) as usize];
    if let Some(f) = v.first_mut() {
        *f = x;
    }
    mask_top(&mut v, w);
    v
}
/// a count just beyond a limit of 16 bits, or any
fn count(g: &mut Gen, max: u64) -> u64 {
    match g.below(4) {
        0 => g.range(65_530, 65_545).min(max),
        1 => g.range(300, 3000),
        2 => g.range(4000, 20_000),
        _ => g.range(65_546, 140_000).min(max),
    }
}

// ---------------------------------------------------------------- I01
pub fn i01(c: &mut Ctx) {
    let mut int = ValueInterner::new();
    let style = c.index % 4;
    let seed = c.g.u64();
    let widths: Vec<u32> = match style {
        0 => vec![c.g.range(30, 64) as u32],
        1 => vec![c.g.range(65, 200) as u32],
        2 => vec![64, 65, 33, 128, 500],
        _ => vec![17, 40, 300],
    };
    // pushes the following values far into the store
    let far: u32 = match c.index {
        3 => (1 << 24) * 64 + 5,
        7 => (1 << 25) * 64 + 70,
        11 => u32::MAX - 10,
        _ => 0,
    };
    let n = if far > 0 { 3000 } else if style == 3 { count(&mut c.g, 80_000) } else { c.g.range(66_000, 140_000) };
    let what = format!("{n} values of widths {widths:?}, {} words before half of them", far / 64);
    let d = || what.clone();
    c.sample(|| what.clone());
    let mut model: HashMap<(u32, Ws), BitVecValueIndex> = HashMap::new();
    let mut order = vec![];
    let mut at: Option<BitVecValueIndex> = None;
    for i in 0..n {
        if far > 0 && i == n / 2 {
            let mut v = BitVecValue::zero(far);
            v.words_mut()[0] = seed;
            v.set_bit(far - 1);
            let x = c.call("get_index of a huge value", far, &d, || int.get_index(&v));
            at = Some(x);
        }
        let w = widths[(i % widths.len() as u64) as usize];
        // some values repeat
        let words = fill(seed, i / 2 * if i % 64 < 8 { 1 } else { 2 } + i % 2, w);
        let v = mk(w, &words);
        let x = c.call("get_index", w, &d, || int.get_index(&v));
        c.evaluations += 1;
        let key = (w, words);
        match model.get(&key) {
            Some(o) => c.expect(*o == x, &|| format!("index of value {i} changed from {o:?} to {x:?} | {what}")),
            None => {
                c.seen(hash_words(60, w, &key.1));
                model.insert(key.clone(), x);
                order.push(key.clone());
            }
        }
        let old = &order[(mix(seed ^ i) % order.len() as u64) as usize];
        for k in [&key, old] {
            let y = model[k];
            let r = c.call("resolve", k.0, &d, || {
                let r: BitVecValueRef = int.words().get_ref(y);
                r.width() == k.0 && r.words() == k.1.as_slice()
            });
            c.expect(r, &|| format!("after value {i} the index {y:?} does not resolve to {:x?} of width {} | {what}", k.1, k.0));
        }
        let z = (ValueInterner::is_zero(x), ValueInterner::is_one(x));
        let small = key.0 <= 64;
        if small || z.0 || z.1 {
            let e = (key.1.iter().all(|x| *x == 0), key.1[0] == 1 && key.1[1..].iter().all(|x| *x == 0));
            c.eq("is_zero, is_one", z, e, &|| format!("value {i}: {:x?} of width {} | {what}", key.1, key.0));
        }
    }
    let ix: BTreeSet<(usize, u32)> = model.values().map(|x| (x.to_range().start, x.width())).collect();
    c.eq("number of distinct indices", ix.len(), model.len(), &d);
    let cl = c.call("clone", 0, &d, || if far > 0 { None } else { Some(int.clone()) });
    for s in std::iter::once(&int).chain(cl.as_ref()) {
        for k in &order {
            let y = model[k];
            let r = c.call("resolve", k.0, &d, || {
                let r: BitVecValueRef = s.words().get_ref(y);
                r.width() == k.0 && r.words() == k.1.as_slice()
            });
            c.expect(r, &|| format!("at the end the index {y:?} does not resolve to {:x?} of width {} | {what}", k.1, k.0));
        }
    }
    if let Some(x) = at {
        let r = c.call("resolve", far, &d, || {
            let r: BitVecValueRef = int.words().get_ref(x);
            let l = r.words().len();
            r.width() == far && r.words()[0] == seed && r.words()[l - 1] == 1 << ((far - 1) % 64) && r.words()[1..l - 1].iter().all(|x| *x == 0)
        });
        c.expect(r, &|| format!("the index of the huge value does not resolve to it | {what}"));
    }
    // every value is known now
    for k in &order {
        let v = mk(k.0, &k.1);
        let x = c.call("get_index", k.0, &d, || int.get_index(&v));
        c.expect(x == model[k], &|| format!("index of {:x?} of width {} changed from {:?} to {x:?} | {what}", k.1, k.0, model[k]));
    }
}

// ---------------------------------------------------------------- B16
pub fn b16(c: &mut Ctx) {
    if c.index % 40 == 5 {
        // a single view of nearly or exactly the largest width (address space of which nothing is touched)
        let k = u32::MAX - if c.index == 5 || c.g.bool() { c.g.below(60) as u32 } else { c.g.below(1 << 20) as u32 };
        let at = c.g.below(3) as u32;
        let n = k.div_ceil(64) as usize;
        let what = format!("store of 2^26 words and 3, view of width {k} at {at}");
        let ds = || what.clone();
        c.evaluations += 1;
        c.sample(|| what.clone());
        c.seen(hash_words(62, k, &[at as u64]));
        let mut store = vec![0u64; (1 << 26) + 3];
        let g = BitVecValueIndex::new(at, k);
        let meta = c.call("index", k, &ds, || (g.width(), g.words(), g.to_range()));
        c.eq("index geometry", meta, (k, n, at as usize..at as usize + n), &ds);
        let base = store.as_ptr() as usize;
        let r = c.call("view", k, &ds, || {
            let v: BitVecValueRef = store.as_slice().get_ref(g);
            (v.width(), v.words().len(), v.words().as_ptr() as usize - base)
        });
        c.eq("view", r, (k, n, at as usize * 8), &ds);
        let r = c.call("mutable view", k, &ds, || {
            let mut v: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(g);
            v.set_bit(k - 1);
            (v.width(), v.words().len(), v.is_bit_set(k - 1), v.is_bit_set(k - 2))
        });
        c.eq("mutable view", r, (k, n, true, false), &ds);
        let (i, bit) = (at as usize + n - 1, 1u64 << ((k - 1) % 64));
        c.expect(store[i] == bit && store[..3].iter().chain(&store[i + 1..]).all(|x| *x == 0), &|| format!("{what}: set_bit({}) hit another word", k - 1));
        return;
    }
    let lim: u64 = match c.index % 16 {
        0 => 1 << 24,
        1 => 1 << 26,
        2 => 1 << 27,
        // 4 GiB of address space, hardly any of it touched
        3 if c.index == 3 && !cfg!(debug_assertions) => 1 << 29,
        4 => 1 << 20,
        _ => 1 << 16,
    };
    let n = (lim + c.g.range(20, 60)) as usize;
    let mut store = vec![0u64; n];
    c.evaluations += 1;
    c.seen(hash_words(61, n as u32, &[c.index]));
    // windows around the limit, at the start, at the end and at a random place
    let mid = c.g.below(n as u64 - 40);
    let windows: Vec<u64> = vec![0, lim - 20, lim / 2 - 20, (1 << 16) - 20, mid, n as u64 - 40];
    let touched = |ws: &[u64]| -> Vec<usize> {
        let mut t: BTreeSet<usize> = BTreeSet::new();
        for w in ws {
            t.extend(*w as usize..*w as usize + 40);
        }
        t.into_iter().filter(|i| *i < n).collect()
    };
    let spots = touched(&windows);
    let seed = c.g.u64();
    for i in &spots {
        store[*i] = mix(seed ^ *i as u64);
    }
    let mut shadow: BTreeMap<usize, u64> = spots.iter().map(|i| (*i, store[*i])).collect();
    let what = format!("store of {n} words");
    c.sample(|| what.clone());
    for step in 0..60 {
        // three views in the windows
        let mut view = |near: Option<(u64, u32)>| -> (u64, u32) {
            let w = match c.g.below(3) {
                0 => c.g.range(1, 64) as u32,
                1 => 64 * c.g.range(1, 5) as u32,
                _ => c.g.range(1, 600) as u32,
            };
            let k = w.div_ceil(64) as u64;
            let s = match near {
                Some((s, l)) if c.g.chance(25) => match c.g.below(4) {
                    0 => s.saturating_sub(k),
                    1 => s + l.div_ceil(64) as u64,
                    2 => s,
                    _ => s + l.div_ceil(64) as u64 - 1,
                },
                _ => *c.g.pick(&windows) + c.g.below(40),
            };
            (s, w)
        };
        let a = view(None);
        let b = view(Some(a));
        let x = view(Some(a));
        let same = c.g.chance(60);
        let b = if same { (b.0, a.1) } else { b };
        let rng = |v: (u64, u32)| v.0 as usize..v.0 as usize + v.1.div_ceil(64) as usize;
        let idx = |v: (u64, u32)| BitVecValueIndex::new(v.0 as u32, v.1);
        let (ra, rb, rx) = (rng(a), rng(b), rng(x));
        let ds = || format!("{what}, step {step}: a = {a:?}, b = {b:?}, c = {x:?} (start, width)");
        let kind = c.g.below(4);
        let inside = |r: &std::ops::Range<usize>| r.end <= n;
        let legal = inside(&ra) && (kind == 0 || (inside(&rb) && (kind == 3 || !crate::p_store::overlap(&ra, &rb)))) && (kind != 2 || (inside(&rx) && !crate::p_store::overlap(&ra, &rx)));
        let g = idx(a);
        let meta = c.call("index", a.1, &ds, || (g.width(), g.words(), g.to_range()));
        c.eq("index geometry", meta, (a.1, ra.len(), ra.clone()), &ds);
        let expect = |r: &std::ops::Range<usize>| -> Ws { r.clone().map(|i| shadow.get(&i).copied().unwrap_or(0)).collect() };
        let mut want = vec![];
        if legal {
            want.push(expect(&ra));
            if kind > 0 {
                want.push(expect(&rb));
            }
            if kind == 2 {
                want.push(expect(&rx));
            }
        }
        let op = c.g.below(3);
        let p = c.g.below(a.1 as u64) as u32;
        let name: &'static str = ["get_mut_ref", "get_mut_ref pair", "get_mut_ref triple", "get_ref pair"][kind as usize];
        c.ev(if legal { "legal" } else { "illegal" }, a.1);
        let got = c.may_refuse(name, a.1, || match kind {
            0 => {
                let mut v: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(g);
                let was = vec![v.words().to_vec()];
                if op == 0 {
                    v.clear()
                } else {
                    v.set_bit(p)
                }
                was
            }
            1 => {
                let (mut v, y): (BitVecValueMutRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((g, idx(b)));
                let was = vec![v.words().to_vec(), y.words().to_vec()];
                if same {
                    v.assign(y)
                } else {
                    v.set_bit(p)
                }
                was
            }
            2 => {
                let (mut v, y, z): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((g, idx(b), idx(x)));
                let was = vec![v.words().to_vec(), y.words().to_vec(), z.words().to_vec()];
                if same {
                    v.assign(y)
                } else {
                    v.clear()
                }
                was
            }
            _ => {
                let (v, y): (BitVecValueRef, BitVecValueRef) = store.as_slice().get_ref((g, idx(b)));
                vec![v.words().to_vec(), y.words().to_vec()]
            }
        });
        match got {
            None => c.expect(!legal, &|| format!("{name} refused legal views: {} | {}", last_panic(), ds())),
            Some(_) if !legal => c.violate(format!("{name}: overlapping or out-of-range views were handed out | {}", ds())),
            Some(was) => {
                c.eq(name, was, want.clone(), &ds);
                let assigned = kind > 0 && same;
                let new: Option<Ws> = match kind {
                    3 => None,
                    1 | 2 if assigned => Some(want[1].clone()),
                    0 if op == 0 => Some(vec![0; ra.len()]),
                    2 => Some(vec![0; ra.len()]),
                    _ => {
                        let mut v = want[0].clone();
                        v[(p / 64) as usize] |= 1 << (p % 64);
                        Some(v)
                    }
                };
                if let Some(v) = new {
                    for (k, i) in ra.clone().enumerate() {
                        shadow.insert(i, v[k]);
                    }
                }
            }
        }
        for (i, v) in &shadow {
            if store[*i] != *v {
                c.violate(format!("{name}: word {i} is {:#x}, expected {v:#x} | {}", store[*i], ds()));
            }
        }
    }
    // nothing else changed
    if lim <= 1 << 24 {
        let mut it = shadow.iter().peekable();
        for (i, x) in store.iter().enumerate() {
            let e = match it.peek() {
                Some((k, v)) if **k == i => {
                    let v = **v;
                    it.next();
                    v
                }
                _ => 0,
            };
            if *x != e {
                c.violate(format!("word {i} is {x:#x}, expected {e:#x} | {what}"));
            }
        }
    }
}

// ---------------------------------------------------------------- arrays
/// an array of words as a function: a default and entries
pub struct Big {
    pub iw: u32,
    pub dw: u32,
    pub def: Ws,
    pub map: BTreeMap<Ws, Ws>,
}
impl Big {
    pub fn get(&self, i: &Ws) -> &Ws {
        self.map.get(i).unwrap_or(&self.def)
    }
    pub fn show(&self) -> String {
        format!("{} -> {} default {:x?}, {} entries", self.iw, self.dw, self.def, self.map.len())
    }
    fn index(&self, seed: u64, i: u64) -> Ws {
        if self.iw <= 20 {
            num(self.iw, i)
        } else {
            fill(seed, i, self.iw)
        }
    }
}
fn widths(c: &mut Ctx, sparse: bool) -> (u32, u32) {
    let dw = *c.g.pick(&[1u32, 8, 5, 64, 33, 65, 130, 64, 200]);
    let iw = if sparse { *c.g.pick(&[17u32, 18, 40, 64, 65, 140, 300]) } else { c.g.range(16, 18) as u32 };
    (iw, dw)
}
/// contents with `n` entries, some of which hold few distinct values
fn contents(c: &mut Ctx, iw: u32, dw: u32, n: u64) -> Big {
    let seed = c.g.u64();
    let few = c.g.below(3);
    let mut m = Big { iw, dw, def: fill(seed, 7, dw), map: BTreeMap::new() };
    for i in 0..n {
        let v = match few {
            0 => fill(seed, 100 + i % 3, dw),
            1 if i % 5 != 0 => fill(seed, 100, dw),
            _ => fill(seed, i, dw),
        };
        let k = m.index(seed, i);
        m.map.insert(k, v);
    }
    m
}
fn sel(a: &impl ArrayOps, m: &Big, i: &Ws) -> bool {
    let iv = mk(m.iw, i);
    let r = a.select(&iv);
    r.width() == m.dw && r.words() == m.get(i).as_slice()
}
/// every entry, neighbours of entries, and indices without entries
pub fn all_right(c: &mut Ctx, a: &impl ArrayOps, m: &Big, how: &str) {
    let d = || format!("{how} array {}", m.show());
    let bad = c.call("select", m.dw, &d, || {
        if m.iw <= 18 {
            (0..1u64 << m.iw).map(|i| num(m.iw, i)).find(|i| !sel(a, m, i))
        } else {
            m.map.keys().find(|i| !sel(a, m, i)).cloned()
        }
    });
    c.expect(bad.is_none(), &|| format!("index {:x?} does not hold {:x?} | {}", bad, bad.as_ref().map(|b| m.get(b)), d()));
    for k in 0..200 {
        let i = fill(k, c.index, m.iw);
        let ok = c.call("select", m.dw, &d, || sel(a, m, &i));
        c.expect(ok, &|| format!("index {i:x?} does not hold {:x?} | {}", m.get(&i), d()));
    }
}
fn store_all(c: &mut Ctx, a: &mut impl ArrayMutOps, m: &Big, reverse: bool) {
    let d = || m.show();
    c.call("store", m.dw, &d, || {
        let mut put = |i: &Ws, v: &Ws| a.store(&mk(m.iw, i), &mk(m.dw, v));
        if reverse {
            m.map.iter().rev().for_each(|(i, v)| put(i, v))
        } else {
            m.map.iter().for_each(|(i, v)| put(i, v))
        }
    });
}
fn fresh(c: &mut Ctx, dense: bool, m: &Big) -> ArrayValue {
    let dv = mk(m.dw, &m.def);
    let d = || m.show();
    let iw = m.iw;
    c.call("new", m.dw, &d, || if dense { ArrayValue::new_dense(iw, &dv) } else { ArrayValue::new_sparse(iw, &dv) })
}
fn shape(c: &mut Ctx, a: &impl ArrayOps, m: &Big) {
    let d = || m.show();
    let r = c.call("shape", m.dw, &d, || (a.index_width(), a.data_width(), a.words_per_element()));
    c.eq("shape", r, (m.iw, m.dw, m.dw.div_ceil(64) as usize), &d);
    if m.iw < 63 {
        let r = c.call("num_elements", m.dw, &d, || a.num_elements());
        c.eq("num_elements", r, 1usize << m.iw, &d);
    }
}
fn note(c: &mut Ctx, m: &Big) {
    c.evaluations += 1;
    c.seen(hash_words(62 + m.map.len() as u64, m.iw, &m.def) ^ c.index);
    c.sample(|| m.show());
}

pub fn a01(c: &mut Ctx) {
    let sparse = c.g.bool();
    let (iw, dw) = widths(c, sparse);
    let n = count(&mut c.g, if sparse { 1 << iw.min(20) } else { 1 << iw });
    let mut m = contents(c, iw, dw, n);
    note(c, &m);
    let rev = c.g.bool();
    if sparse && c.g.bool() {
        let dv = mk(dw, &m.def);
        let mut a = c.call("SparseArrayValue::new", dw, &|| "new".into(), || SparseArrayValue::new(iw, &dv));
        store_all(c, &mut a, &m, rev);
        shape(c, &a, &m);
        all_right(c, &a, &m, "sparse");
        // overwrite a third of them
        let ks: Vec<Ws> = m.map.keys().step_by(3).cloned().collect();
        let s2 = c.g.u64();
        for (j, k) in ks.into_iter().enumerate() {
            let v = if j % 2 == 0 { m.def.clone() } else { fill(s2, j as u64, dw) };
            m.map.insert(k, v);
        }
        store_all(c, &mut a, &m, !rev);
        all_right(c, &a, &m, "sparse, overwritten");
    } else {
        let mut a = fresh(c, !sparse, &m);
        store_all(c, &mut a, &m, rev);
        shape(c, &a, &m);
        all_right(c, &a, &m, if sparse { "sparse" } else { "dense" });
        let cl = c.call("clone", dw, &|| m.show(), || a.clone());
        c.call("clear", dw, &|| m.show(), || a.clear());
        all_right(c, &cl, &m, "cloned");
        m.def = vec![0; m.def.len()];
        m.map.clear();
        all_right(c, &a, &m, "cleared");
    }
}

/// an array from a slice of about 2^16 to 2^20 elements, with its contents
fn from_slice(c: &mut Ctx) -> (ArrayValue, Big) {
    let kind = c.g.below(3);
    let len = match c.g.below(6) {
        0 => c.g.range(65_534, 65_540),
        1 => c.g.range(131_070, 131_075),
        2 => c.g.range(262_100, 262_150),
        _ => c.g.range(66_000, 140_000),
    };
    let seed = c.g.u64();
    let style = c.g.below(4);
    let f = |i: u64| match style {
        0 => mix(seed ^ i),
        1 => seed,
        2 => (mix(seed ^ i) % 4 == 0) as u64 * seed,
        _ => (i > 65_000) as u64 * mix(i),
    };
    let mask = [1u64, 0xff, u64::MAX][kind as usize];
    let vals: Ws = (0..len).map(|i| f(i) & mask).collect();
    let mut iw = 0;
    while 1u64 << iw < len {
        iw += 1;
    }
    let d = || format!("slice of {len} elements, kind {kind}");
    let a = c.call("From<slice>", [1, 8, 64][kind as usize], &d, || match kind {
        0 => ArrayValue::from(vals.iter().map(|x| *x != 0).collect::<Vec<_>>().as_slice()),
        1 => ArrayValue::from(vals.iter().map(|x| *x as u8).collect::<Vec<_>>().as_slice()),
        _ => ArrayValue::from(vals.as_slice()),
    });
    let m = Big { iw, dw: [1, 8, 64][kind as usize], def: vec![0], map: vals.iter().enumerate().map(|(i, v)| (vec![i as u64], vec![*v])).collect() };
    (a, m)
}

pub fn a02(c: &mut Ctx) {
    let (mut a, m) = match c.g.below(4) {
        0 => from_slice(c),
        k => {
            // dense with a value that occurs more than 65 535 times, or sparse with many entries
            let (_, dw) = widths(c, false);
            let iw = c.g.range(16, 18) as u32;
            let n = if c.g.bool() { 1 << iw } else { count(&mut c.g, 1 << iw) };
            let m = contents(c, iw, dw, n);
            let mut a = fresh(c, k != 1, &m);
            let rev = c.g.bool();
            store_all(c, &mut a, &m, rev);
            (a, m)
        }
    };
    note(c, &m);
    let kind = if a.is_dense() { "dense" } else { "sparse" };
    let d = || format!("{kind} array {}", m.show());
    shape(c, &a, &m);
    all_right(c, &a, &m, kind);
    let s = c.call("SparseArrayValue::from", m.dw, &d, || SparseArrayValue::from(a.clone()));
    shape(c, &s, &m);
    all_right(c, &s, &m, "converted to sparse");
    c.call("make_dense", m.dw, &d, || a.make_dense());
    c.expect(a.is_dense(), &|| format!("not dense after make_dense | {}", d()));
    shape(c, &a, &m);
    all_right(c, &a, &m, "made dense");
}

pub fn a03(c: &mut Ctx) {
    let sparse = c.g.bool();
    let (iw, dw) = widths(c, sparse);
    let n = if iw <= 18 && c.g.bool() { 1 << iw } else { count(&mut c.g, 1 << iw.min(18)) };
    let mut m = contents(c, iw, dw, n);
    let mut m2 = Big { iw, dw, def: m.def.clone(), map: m.map.clone() };
    // one position differs, or none; or all that were never written
    let rel = c.g.below(6);
    let p = {
        let j = match c.g.below(3) {
            0 => m.map.len() - 1,
            1 => 0,
            _ => c.g.below(m.map.len() as u64) as usize,
        };
        m.map.keys().nth(j).unwrap().clone()
    };
    let full = iw <= 18 && n == 1 << iw;
    match rel {
        0 => {}
        1 | 2 => {
            let mut v = m.get(&p).clone();
            let b = c.g.below(dw as u64);
            v[(b / 64) as usize] ^= 1 << (b % 64);
            m2.map.insert(p.clone(), v);
        }
        3 if full => {
            // another default under a complete set of entries
            m2.def[0] ^= 1;
        }
        4 if full => {
            // and under one that lacks a single entry
            m2.def[0] ^= 1;
            m.map.remove(&p);
            m2.map.remove(&p);
        }
        5 => m2.def[0] ^= 1,
        _ => {
            // one entry less, which may hold the default
            let v = m.get(&p).clone();
            m2.map.remove(&p);
            if v == m.def {
                c.ev("entry with the default", dw);
            }
        }
    }
    let want = m.map.keys().chain(m2.map.keys()).all(|k| m.get(k) == m2.get(k)) && (m.def == m2.def || full && rel != 4);
    note(c, &m);
    let (da, db) = if iw > 18 { (false, false) } else { (c.g.bool(), c.g.bool()) };
    let mut a = fresh(c, da, &m);
    store_all(c, &mut a, &m, false);
    let mut b = fresh(c, db, &m2);
    store_all(c, &mut b, &m2, true);
    c.ev(if want { "equal" } else { "unequal" }, dw);
    let d = || format!("a = {} {}, b = {} {}, difference kind {rel} at {p:x?}", if da { "dense" } else { "sparse" }, m.show(), if db { "dense" } else { "sparse" }, m2.show());
    let r = c.call("is_equal", dw, &d, || (a.is_equal(&b), b.is_equal(&a), a == b, b != a, a.is_equal(&a.clone())));
    c.eq("is_equal both ways, ==, !=, itself", r, (Some(want), Some(want), want, !want, Some(true)), &d);
    if !want && (rel != 5 || full) {
        // put the difference right again
        let v = m.get(&p).clone();
        c.call("store", dw, &d, || b.store(&mk(iw, &p), &mk(dw, &v)));
        let r = c.call("is_equal", dw, &d, || (a.is_equal(&b), b.is_equal(&a)));
        c.eq("is_equal after removing the difference", r, (Some(true), Some(true)), &d);
    }
}

pub fn a04(c: &mut Ctx) {
    let (iw, dw) = widths(c, true);
    let n = count(&mut c.g, 1 << iw.min(17));
    let m = contents(c, iw, dw, n);
    note(c, &m);
    let rev = c.g.bool();
    let dense = iw <= 18 && c.g.bool();
    let mut a = fresh(c, dense, &m);
    store_all(c, &mut a, &m, rev);
    let d = || format!("{} array {}", if dense { "sparse from dense" } else { "sparse" }, m.show());
    let s = c.call("SparseArrayValue::from", dw, &d, || SparseArrayValue::from(a));
    let def = c.call("default", dw, &d, || s.default());
    let defw = def.words().to_vec();
    let got: Vec<(Ws, Ws)> = c.call("non_default_entries", dw, &d, || {
        s.non_default_entries()
            .map(|(k, v)| {
                assert!(k.width() == iw && v.width() == dw, "entry of width {} -> {}", k.width(), v.width());
                (k.words().to_vec(), v.words().to_vec())
            })
            .collect()
    });
    let k = got.len();
    let got: BTreeMap<Ws, Ws> = got.into_iter().collect();
    c.eq("number of distinct indices listed", got.len(), k, &d);
    if iw > 18 {
        c.eq("default", defw.clone(), m.def.clone(), &d);
    }
    let want: BTreeMap<Ws, Ws> = if iw <= 18 {
        (0..1u64 << iw).map(|i| num(iw, i)).filter(|i| *m.get(i) != defw).map(|i| (i.clone(), m.get(&i).clone())).collect()
    } else {
        m.map.iter().filter(|(_, v)| **v != defw).map(|(k, v)| (k.clone(), v.clone())).collect()
    };
    if got != want {
        let bad = got.iter().find(|(k, v)| want.get(*k) != Some(v)).or_else(|| want.iter().find(|(k, _)| !got.contains_key(*k)));
        c.violate(format!("{} entries listed, {} expected, first difference at {bad:x?} | {}", got.len(), want.len(), d()));
    }
}

#[cfg(not(feature = "full"))]
pub fn s01(_: &mut Ctx) {
    panic!("harness: built without serialization")
}
#[cfg(feature = "full")]
pub fn s01(c: &mut Ctx) {
    use crate::p_arr::{trip, FORMATS};
    let fmt = c.g.below(4) as usize;
    if c.index % 3 == 0 {
        // a wide value
        let w = match c.g.below(3) {
            0 => 65_536 * 64 / 8 + c.g.below(200) as u32,
            1 => 4_194_304 + c.g.below(130) as u32 - 64,
            _ => c.g.range(10_000, 5_000_000) as u32,
        };
        let a = fill(c.g.u64(), 0, w);
        let v = mk(w, &a);
        c.evaluations += 1;
        c.seen(hash_words(63, w, &a));
        let d = || format!("{} round trip of a value of width {w}", FORMATS[fmt]);
        match c.call("bit-vector round trip", w, &d, || trip(fmt, &v)) {
            Ok(r) => c.expect(r.width() == w && r.words() == a.as_slice() && r == v, &|| format!("the value came back changed | {}", d())),
            Err(e) => c.violate(format!("{e} | {}", d())),
        }
        return;
    }
    let (a, m) = if c.g.bool() {
        from_slice(c)
    } else {
        let sparse = c.g.chance(60);
        let (mut iw, dw) = widths(c, sparse);
        if fmt == 0 || fmt == 3 {
            iw = iw.min(64);
        }
        let n = count(&mut c.g, 1 << iw.min(17));
        let m = contents(c, iw, dw, n);
        let mut a = fresh(c, !sparse, &m);
        store_all(c, &mut a, &m, false);
        (a, m)
    };
    note(c, &m);
    let d = || format!("{} round trip of {}", FORMATS[fmt], m.show());
    let b = match c.call("array round trip", m.dw, &d, || trip(fmt, &a)) {
        Ok(b) => b,
        Err(e) => c.violate(format!("{e} | {}", d())),
    };
    c.eq("representation", b.is_dense(), a.is_dense(), &d);
    shape(c, &b, &m);
    all_right(c, &b, &m, "deserialized");
    let r = c.call("is_equal", m.dw, &d, || (a.is_equal(&b), b.is_equal(&a)));
    c.eq("is_equal", r, (Some(true), Some(true)), &d);
}
