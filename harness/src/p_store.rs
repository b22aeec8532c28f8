//! B14 (equality, hash, order), B15 (storage independence), B16 (views), I01 (interner).
use crate::ctx::*;
use crate::gen::Gen;
use crate::model::*;
use crate::p_scale::SCALE;
use crate::ops::{self, Out, Params};
use crate::text;
use baa::*;
use num_bigint::BigUint;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A word store with one value at `start` inside random surroundings.
pub struct Framed {
    pub words: Vec<u64>,
    pub idx: BitVecValueIndex,
}
pub fn brief(w: &[u64]) -> String {
    if w.len() > 40 {
        format!("{:x?}.. ({} words)", &w[..40], w.len())
    } else {
        format!("{w:x?}")
    }
}
pub fn frame(g: &mut Gen, w: u32, words: &[u64]) -> Framed {
    let far = g.below(3000) == 0;
    let before = if far { g.range(65_500, 70_000) } else { g.below(4) } as usize;
    let after = g.below(4) as usize;
    let fill = if far { g.word() } else { 0 };
    let mut s: Vec<u64> = (0..before).map(|_| if far { fill } else { g.word() }).collect();
    s.extend_from_slice(words);
    s.extend((0..after).map(|_| g.word()));
    Framed { words: s, idx: BitVecValueIndex::new(before as u32, w) }
}

// ---------------------------------------------------------------- B14
pub const MAPS: u32 = 4;
pub const BORROW: u32 = 5;
fn value_near(c: &mut Ctx, prev: &[M]) -> M {
    let fresh = c.stream != LARGE || c.index % 2 == 0;
    let g = &mut c.g;
    if !prev.is_empty() && g.chance(60) {
        let p = g.pick(prev).clone();
        match g.below(5) {
            0 => p,
            1 => {
                // same number, other width
                let w = (p.v.bits() as u32).max(1) + ops::ext(g, p.w);
                M::new(w, p.v)
            }
            2 => {
                // low bits only
                let w = g.range(1, p.w as u64) as u32;
                M::wrap(w, &p.v)
            }
            _ => {
                let w = p.words();
                M::from_words(p.w, &g.related(&w, p.w))
            }
        }
    } else {
        let w = if fresh { g.width(1200) } else { c.width(1200) };
        let x = c.g.words(w);
        M::from_words(w, &x)
    }
}
pub fn b14(c: &mut Ctx) {
    match c.stream {
        MAPS => {
            // insert/lookup history against model maps
            let mut ms: Vec<M> = vec![];
            let n = c.g.range(5, 60);
            let mut hm: HashMap<BitVecValue, u64> = HashMap::new();
            let mut bm: BTreeMap<BitVecValue, u64> = BTreeMap::new();
            let mut hs: HashSet<BitVecValue> = HashSet::new();
            let mut model: HashMap<M, u64> = HashMap::new();
            for k in 0..n {
                let m = value_near(c, &ms);
                let v = mkm(&m);
                let d = || format!("key {} step {k}", m.hex());
                let rm = c.g.chance(20);
                let (a, b, s) = c.call("map update", m.w, &d, || {
                    if rm {
                        (hm.remove(&v), bm.remove(&v), hs.remove(&v))
                    } else {
                        (hm.insert(v.clone(), k), bm.insert(v.clone(), k), !hs.insert(v.clone()))
                    }
                });
                let want = if rm { model.remove(&m) } else { model.insert(m.clone(), k) };
                c.eq("hash map", a, want, &d);
                c.eq("ordered map", b, want, &d);
                c.eq("hash set", s, want.is_some(), &d);
                ms.push(m);
                let q = value_near(c, &ms);
                let qv = mkm(&q);
                let d = || format!("lookup {} step {k}", q.hex());
                let (a, b, s) = c.call("map lookup", q.w, &d, || (hm.get(&qv).copied(), bm.get(&qv).copied(), hs.contains(&qv)));
                let want = model.get(&q).copied();
                c.eq("hash map get", a, want, &d);
                c.eq("ordered map get", b, want, &d);
                c.eq("hash set contains", s, want.is_some(), &d);
                c.evaluations += 1;
                c.seen(hash_words(20, q.w, &q.words()) ^ k);
            }
            c.eq("hash map size", hm.len(), model.len(), &|| String::new());
            c.eq("ordered map size", bm.len(), model.len(), &|| String::new());
        }
        BORROW => {
            // look up an owned key through a borrowed view
            c.evaluations += 1;
            let m = value_near(c, &[]);
            let mut hm: HashMap<BitVecValue, u64> = HashMap::new();
            hm.insert(mkm(&m), 7);
            let k = mkm(&m);
            let r = BitVecValueRef::from(&k);
            c.ev("borrowed lookup", m.w);
            match guarded(|| hm.get(&r).copied()) {
                Ok(got) => c.eq("hash map get by borrowed view", got, Some(7), &|| m.hex()),
                Err(_) => {
                    c.finding("B14/borrowed-key-lookup-todo", format!("looking up a stored owned key in a hash map through a borrowed view panics (key {})", m.hex()))
                }
            }
        }
        _ => {
            let mut ms = vec![];
            for _ in 0..3 {
                let m = value_near(c, &ms);
                ms.push(m);
            }
            let vs: Vec<BitVecValue> = ms.iter().map(mkm).collect();
            c.evaluations += 1;
            c.seen(ms.iter().fold(21, |h, m| hash_words(h, m.w, &m.words())));
            c.sample(|| format!("{:?}", ms.iter().map(M::hex).collect::<Vec<_>>()));
            let mut ord = [[Ordering::Equal; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    let (a, b) = (&vs[i], &vs[j]);
                    let want = ms[i] == ms[j];
                    if want && i != j {
                        c.ev("equal pair", ms[i].w);
                    }
                    let d = || format!("a={} b={}", ms[i].hex(), ms[j].hex());
                    let (ra, rb) = (BitVecValueRef::from(a), BitVecValueRef::from(b));
                    let mut bm = b.clone();
                    let fb = frame(&mut c.g, ms[j].w, &ms[j].words());
                    if ms[i].w > ms[j].w && ms[i].v == ms[j].v && ms[j].w > 0 {
                        // both as views of the same words
                        let sh = ms[i].words();
                        let r = c.call("== of views of the same words", ms[i].w, &d, || {
                            let x: BitVecValueRef = sh.as_slice().get_ref(BitVecValueIndex::new(0, ms[i].w));
                            let y: BitVecValueRef = sh.as_slice().get_ref(BitVecValueIndex::new(0, ms[j].w));
                            [x == y, y == x, *a == y, *b == x, x == *b, y == *a]
                        });
                        c.eq("== of views of the same words with different widths", r, [false; 6], &d);
                    }
                    let res = c.call("==", ms[i].w, &d, || {
                        let fr: BitVecValueRef = fb.words.as_slice().get_ref(fb.idx);
                        let mr = BitVecValueMutRef::from(&mut bm);
                        [a == b, *a == rb, ra == rb, ra == *b, *a == mr, ra == mr, *a == fr, ra == fr, !(a != b), !(ra != rb)]
                    });
                    c.eq("== in all storage forms", res, [want; 10], &d);
                    let h = c.call("hash", ms[i].w, &d, || (hash_of(a), hash_of(b), hash_of(&ra), hash_of(&rb), hash_of(&fb.words.as_slice().get_ref(fb.idx))));
                    if want {
                        c.expect(h.0 == h.1 && h.0 == h.2 && h.0 == h.3 && h.0 == h.4, &|| format!("equal values hash differently {h:?} | {}", d()));
                    } else {
                        c.expect(h.0 == h.2 && h.1 == h.3 && h.1 == h.4, &|| format!("owned and borrowed hash differ {h:?} | {}", d()));
                    }
                    let (o, po, lt, le, gt, ge) = c.call("cmp", ms[i].w, &d, || (a.cmp(b), a.partial_cmp(b), a < b, a <= b, a > b, a >= b));
                    ord[i][j] = o;
                    c.eq("cmp is Equal iff ==", o == Ordering::Equal, want, &d);
                    c.eq("partial_cmp", po, Some(o), &d);
                    c.eq("< <= > >=", (lt, le, gt, ge), (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()), &d);
                    let r = c.call("max, min", ms[i].w, &d, || {
                        let (x, y) = (a.clone().max(b.clone()), a.clone().min(b.clone()));
                        let (x, y) = (M::from_words(x.width(), x.words()), M::from_words(y.width(), y.words()));
                        let (a, b) = (&ms[i], &ms[j]);
                        if o.is_lt() { x == *b && y == *a } else { x == *a && y == *b }
                    });
                    c.expect(r, &|| format!("max or min disagree with cmp | {}", d()));
                    if c.g.chance(25) {
                        // as parts of larger keys
                        let other = &vs[3 - i.max(j).max(1)];
                        let (ka, kb) = ((a.clone(), 7u8, vec![other.clone(), a.clone()]), (b.clone(), 7u8, vec![other.clone(), b.clone()]));
                        let r = c.call("compound key", ms[i].w, &d, || (ka == kb, hash_of(&ka) == hash_of(&kb), ka.cmp(&kb), hash_of(&ka.2[..]) == hash_of(&vec![BitVecValueRef::from(other), ra][..])));
                        c.eq("compound key", (r.0, r.2, r.3), (want, o, true), &d);
                        c.expect(!want || r.1, &|| format!("equal compound keys hash differently | {}", d()));
                    }
                }
            }
            let d = || format!("{:?}", ms.iter().map(M::hex).collect::<Vec<_>>());
            let sorted = c.call("sort", ms[0].w, &d, || {
                let mut s: Vec<&BitVecValue> = vs.iter().collect();
                s.sort();
                let p = |v: &BitVecValue| vs.iter().position(|x| std::ptr::eq(x, v)).unwrap();
                (p(s[0]), p(s[1]), p(s[2]))
            });
            c.expect(ord[sorted.0][sorted.1].is_le() && ord[sorted.1][sorted.2].is_le(), &|| format!("sorting disagrees with cmp {sorted:?} | {}", d()));
            for i in 0..3 {
                for j in 0..3 {
                    c.expect(ord[i][j] == ord[j][i].reverse(), &|| format!("order not antisymmetric ({i},{j}) | {}", d()));
                    for k in 0..3 {
                        if ord[i][j].is_le() && ord[j][k].is_le() {
                            c.expect(ord[i][k].is_le(), &|| format!("order not transitive ({i},{j},{k}) | {}", d()));
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- B15
pub const ALIAS: u32 = 9;

/// what is computed on a pair of operands
#[derive(Clone, Copy, PartialEq)]
enum Bin {
    Op(usize),
    Concat,
    Eq,
    Ne,
}
fn or_panic(f: impl FnOnce() -> Out) -> Out {
    guarded(f).unwrap_or(Out::Panicked)
}
fn run_bin<L: BitVecOps, R: BitVecOps>(op: Bin, l: &L, r: &R) -> Out {
    or_panic(|| match op {
        Bin::Op(op) => ops::bin(op, l, r),
        Bin::Concat => ops::concat(l, r),
        _ => unreachable!(),
    })
}
/// `==`/`!=` exist for owned values and borrowed views on the left
fn run_eq<L: BitVecOps + PartialEq<R>, R: BitVecOps>(op: Bin, l: &L, r: &R) -> Out {
    or_panic(|| Out::Bool(if op == Bin::Eq { l == r } else { l != r }))
}
type Forms = Vec<(&'static str, Out)>;
/// a bit-vector type of the user's own
#[derive(Clone)]
pub struct Own {
    pub w: u32,
    pub at: usize,
    pub words: Vec<u64>,
}
impl Own {
    fn new(f: &Framed) -> Own {
        Own { w: f.idx.width(), at: f.idx.to_range().start, words: f.words.clone() }
    }
    fn range(&self) -> std::ops::Range<usize> {
        self.at..self.at + self.w.div_ceil(64) as usize
    }
}
impl BitVecOps for Own {
    fn width(&self) -> WidthInt {
        self.w
    }
    fn words(&self) -> &[Word] {
        &self.words[self.range()]
    }
}
impl BitVecMutOps for Own {
    fn words_mut(&mut self) -> &mut [Word] {
        let r = self.range();
        &mut self.words[r]
    }
}
impl<'a> From<&'a Own> for BitVecValueRef<'a> {
    fn from(o: &'a Own) -> Self {
        o.words.as_slice().get_ref(BitVecValueIndex::new(o.at as u32, o.w))
    }
}
fn forms_bin(op: Bin, a: &BitVecValue, b: &BitVecValue, fa: &Framed, fb: &Framed) -> Forms {
    let (mut am, mut bm) = (a.clone(), b.clone());
    let (mut sa, mut sb) = (fa.words.clone(), fb.words.clone());
    let mut out: Forms = vec![];
    let ra = BitVecValueRef::from(a);
    let rb = BitVecValueRef::from(b);
    let va: BitVecValueRef = fa.words.as_slice().get_ref(fa.idx);
    let vb: BitVecValueRef = fb.words.as_slice().get_ref(fb.idx);
    let ma = BitVecValueMutRef::from(&mut am);
    let mb = BitVecValueMutRef::from(&mut bm);
    let xa: BitVecValueMutRef = sa.as_mut_slice().get_mut_ref(fa.idx);
    let xb: BitVecValueMutRef = sb.as_mut_slice().get_mut_ref(fb.idx);
    let (oa, ob) = (Own::new(fa), Own::new(fb));
    macro_rules! go {
        ($f:ident; $($l:expr, $r:expr, $n:expr);* $(;)?) => {
            $( out.push(($n, $f(op, $l, $r))); )*
        };
    }
    if op == Bin::Eq || op == Bin::Ne {
        go! { run_eq;
            a, b, "owned/owned"; a, &rb, "owned/ref"; a, &vb, "owned/view"; a, &mb, "owned/mut"; a, &xb, "owned/mutview";
            &ra, b, "ref/owned"; &ra, &rb, "ref/ref"; &ra, &vb, "ref/view"; &ra, &mb, "ref/mut"; &ra, &xb, "ref/mutview";
            &va, b, "view/owned"; &va, &rb, "view/ref"; &va, &vb, "view/view"; &va, &mb, "view/mut"; &va, &xb, "view/mutview";
            a, &ob, "owned/own type"; &ra, &ob, "ref/own type"; &va, &ob, "view/own type";
            a, b, "owned/owned again";
        }
    } else {
        go! { run_bin;
            a, b, "owned/owned"; a, &rb, "owned/ref"; a, &vb, "owned/view"; a, &mb, "owned/mut"; a, &xb, "owned/mutview";
            &ra, b, "ref/owned"; &ra, &rb, "ref/ref"; &ra, &vb, "ref/view"; &ra, &mb, "ref/mut"; &ra, &xb, "ref/mutview";
            &va, b, "view/owned"; &va, &rb, "view/ref"; &va, &vb, "view/view"; &va, &mb, "view/mut"; &va, &xb, "view/mutview";
            &ma, b, "mut/owned"; &ma, &rb, "mut/ref"; &ma, &vb, "mut/view"; &ma, &mb, "mut/mut"; &ma, &xb, "mut/mutview";
            &xa, b, "mutview/owned"; &xa, &rb, "mutview/ref"; &xa, &vb, "mutview/view"; &xa, &mb, "mutview/mut"; &xa, &xb, "mutview/mutview";
            &oa, b, "own type/owned"; &oa, &rb, "own type/ref"; &oa, &vb, "own type/view"; &oa, &ob, "own type/own type"; a, &ob, "owned/own type"; &va, &ob, "view/own type"; &xa, &ob, "mutview/own type";
            a, b, "owned/owned again";
        }
    }
    out
}
fn forms_un(op: usize, p: &Params, a: &BitVecValue, fa: &Framed) -> Forms {
    let mut am = a.clone();
    let mut sa = fa.words.clone();
    let ra = BitVecValueRef::from(a);
    let va: BitVecValueRef = fa.words.as_slice().get_ref(fa.idx);
    let mut out: Forms = vec![("owned", or_panic(|| ops::un(op, a, p))), ("ref", or_panic(|| ops::un(op, &ra, p))), ("view", or_panic(|| ops::un(op, &va, p)))];
    {
        let ma = BitVecValueMutRef::from(&mut am);
        out.push(("mut", or_panic(|| ops::un(op, &ma, p))));
        let xa: BitVecValueMutRef = sa.as_mut_slice().get_mut_ref(fa.idx);
        out.push(("mutview", or_panic(|| ops::un(op, &xa, p))));
    }
    out.push(("clone", or_panic(|| ops::un(op, &a.clone(), p))));
    let oa = Own::new(fa);
    out.push(("own type", or_panic(|| ops::un(op, &oa, p))));
    out.push(("clone over another", or_panic(|| {
        let mut t = BitVecValue::ones(p.fw % 300 + 1);
        t.clone_from(a);
        ops::un(op, &t, p)
    })));
    out.push(("copy of view", or_panic(|| ops::un(op, &BitVecValue::from(va), p))));
    out.push(("owned again", or_panic(|| ops::un(op, a, p))));
    out
}
/// an in-place update of the same value in different forms: what it leaves and what it returns
fn forms_mut(op: usize, args: &ops::MutArgs, a: &BitVecValue, fa: &Framed) -> Forms {
    fn run<T: BitVecMutOps>(op: usize, t: &mut T, args: &ops::MutArgs) -> Out {
        match guarded(|| ops::mutate(op, t, args)) {
            Ok(true) => Out::OptBool(None),
            Ok(false) => Out::Val(t.width(), t.words().to_vec()),
            Err(_) => Out::Panicked,
        }
    }
    let (mut t, mut t2) = (a.clone(), a.clone());
    let mut store = fa.words.clone();
    let mut own = Own::new(fa);
    let (r, w) = (fa.idx.to_range(), fa.idx.width());
    let mut out: Forms = vec![("owned", run(op, &mut t, args)), ("mut", run(op, &mut BitVecValueMutRef::from(&mut t2), args))];
    {
        let mut x: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(fa.idx);
        out.push(("mutview", run(op, &mut x, args)));
    }
    out.push(("own type", run(op, &mut own, args)));
    let mut one_long = a.clone();
    one_long.clone_from(&BitVecValue::ones(w + 500));
    one_long.clone_from(a);
    out.push(("owned, was longer", run(op, &mut one_long, args)));
    // around the target nothing may change
    for (name, s) in [("mutview", &store), ("own type", &own.words)] {
        if s[..r.start] != fa.words[..r.start] || s[r.end..] != fa.words[r.end..] {
            out.push((name, Out::Str(format!("words around the target changed: {s:x?}"))));
        }
    }
    out
}
/// arrays and the interner take indices and data in any form
fn forms_containers(g: &mut Gen, a: &BitVecValue, b: &BitVecValue, fa: &Framed, fb: &Framed) -> Forms {
    let (iw, dw) = (a.width(), b.width());
    let dense = iw <= 12 && g.bool();
    let def = BitVecValue::zero(dw);
    let mut base = if dense { ArrayValue::new_dense(iw, &def) } else { ArrayValue::new_sparse(iw, &def) };
    if g.bool() {
        base.store(&BitVecValue::ones(iw), &BitVecValue::ones(dw));
    }
    let (oa, ob) = (Own::new(fa), Own::new(fb));
    let (ra, rb) = (BitVecValueRef::from(a), BitVecValueRef::from(b));
    let va: BitVecValueRef = fa.words.as_slice().get_ref(fa.idx);
    let vb: BitVecValueRef = fb.words.as_slice().get_ref(fb.idx);
    let mut out: Forms = vec![];
    macro_rules! go {
        ($($i:expr, $d:expr, $n:expr);* $(;)?) => {
            $( out.push(($n, or_panic(|| {
                let mut x = base.clone();
                x.store($i, $d);
                let mut s = SparseArrayValue::new(iw, $d);
                s.store($i, &def);
                let mut n = ValueInterner::new();
                let (p, q) = (n.get_index($i), n.get_index($d));
                let all: Vec<u64> = [x.select($i), s.select($i), s.default(), x.select(&BitVecValue::ones(iw)), x.select(&BitVecValue::zero(iw))].iter().flat_map(|v| v.words().to_vec()).chain(n.words().get_ref(p).words().to_vec()).chain(n.words().get_ref(q).words().to_vec()).chain([p.to_range().start as u64, q.to_range().start as u64]).collect();
                Out::Val(p.width() + q.width(), all)
            }))); )*
        };
    }
    go! {
        a, b, "owned index, owned data"; a, rb, "owned, ref"; a, vb, "owned, view"; a, &ob, "owned, own type";
        ra, b, "ref, owned"; ra, vb, "ref, view"; va, b, "view, owned"; va, vb, "view, view"; va, &ob, "view, own type";
        &oa, b, "own type, owned"; &oa, rb, "own type, ref"; &oa, vb, "own type, view"; &oa, &ob, "own type, own type";
        a, b, "owned index, owned data again";
    }
    out
}
/// All forms agree, also on whether they panic: which operands an operation accepts belongs to its own
/// property, but that acceptance must not depend on storage.
fn agree(c: &mut Ctx, name: &'static str, v: Forms, w: u32, d: &dyn Fn() -> String) {
    if v[0].1 == Out::Panicked {
        c.ev("operation panicked", w);
    }
    for (n, o) in &v[1..] {
        if *o != v[0].1 {
            c.violate(format!("{name}: {} gives {:?} but {n} gives {o:?} | {}", v[0].0, v[0].1, d()));
        }
    }
}
fn bin_name(op: Bin) -> &'static str {
    match op {
        Bin::Op(o) => ops::BIN[o],
        Bin::Concat => "concat",
        Bin::Eq => "==",
        Bin::Ne => "!=",
    }
}
pub fn b15(c: &mut Ctx) {
    if c.stream == ALIAS {
        return b15_alias(c);
    }
    let (w, aw, bw) = if c.stream == LARGE {
        let w = c.width(2200);
        let a = c.g.words(w);
        let b = c.g.words_or_related(&a, w);
        (w, a, b)
    } else {
        crate::p_bv::pair(c)
    };
    let fa = frame(&mut c.g, w, &aw);
    let fb = frame(&mut c.g, w, &bw);
    let (a, b) = (mk(w, &aw), mk(w, &bw));
    let d0 = format!("w={w} a={} b={} {} and {} words before them in their stores", brief(&aw), brief(&bw), fa.words.len() - aw.len(), fb.words.len() - bw.len());
    let d = || d0.clone();
    c.evaluations += 1;
    c.seen(hash_words(hash_words(22, w, &aw), w, &bw));
    c.sample(d);
    let frozen = (fa.words.clone(), fb.words.clone());
    // a few operations per case, all of them over the run
    let shift = ops::bin_shift(c.g.chance(50), &mut c.g, w);
    for _ in 0..4 {
        let op = c.g.below(ops::BIN.len() as u64) as usize;
        if op == 2 && w > 1500 {
            continue;
        }
        let name = ops::BIN[op];
        c.ev(name, w);
        let r = if (3..=5).contains(&op) && shift.is_some() {
            let s = shift.clone().unwrap();
            let fs = frame(&mut c.g, w, &s);
            let sv = mk(w, &s);
            forms_bin(Bin::Op(op), &a, &sv, &fa, &fs)
        } else {
            forms_bin(Bin::Op(op), &a, &b, &fa, &fb)
        };
        agree(c, name, r, w, &d);
    }
    let wc = c.width(600);
    let cw = c.g.words(wc);
    let fc = frame(&mut c.g, wc, &cw);
    let cv = mk(wc, &cw);
    c.ev("concat", w + wc);
    let r = forms_bin(Bin::Concat, &a, &cv, &fa, &fc);
    agree(c, "concat", r, w + wc, &|| format!("{d0} c={} width {wc}", brief(&cw)));
    for (op, y, fy) in [(Bin::Eq, &b, &fb), (Bin::Ne, &b, &fb), (Bin::Eq, &cv, &fc)] {
        c.ev(bin_name(op), w);
        let r = forms_bin(op, &a, y, &fa, fy);
        agree(c, bin_name(op), r, w, &|| format!("{d0} other width {}", y.width()));
    }
    c.ev("hash", w);
    let va: BitVecValueRef = fa.words.as_slice().get_ref(fa.idx);
    let hs = vec![("owned", or_panic(|| Out::Num(hash_of(&a)))), ("ref", or_panic(|| Out::Num(hash_of(&BitVecValueRef::from(&a))))), ("view", or_panic(|| Out::Num(hash_of(&va)))), ("clone", or_panic(|| Out::Num(hash_of(&a.clone()))))];
    agree(c, "hash", hs, w, &d);
    for _ in 0..4 {
        let op = c.g.below(ops::UN.len() as u64) as usize;
        let mut p = Params::valid(&mut c.g, w);
        p.fw = p.fw.min(63);
        let name = ops::UN[op];
        c.ev(name, w);
        let r = forms_un(op, &p, &a, &fa);
        agree(c, name, r, w, &|| format!("{d0} {p:?}"));
    }
    for _ in 0..3 {
        let op = c.g.below(ops::MUT.len() as u64) as usize;
        let (u, i) = (c.g.u64() >> c.g.below(64), c.g.i64ish());
        let radix = *c.g.pick(&[2, 10, 16]);
        let lim = w.min(if radix == 10 { 128 } else { 3000 });
        let m = M::from_words(lim, &bw[..lim.div_ceil(64) as usize]);
        let mut text = m.v.to_str_radix(radix);
        if c.g.chance(10) {
            text.push('x');
        }
        let args = ops::MutArgs { src: bw.clone(), u, i, pos: ops::pos(&mut c.g, w), s: text, radix };
        c.ev(ops::MUT[op], w);
        let r = forms_mut(op, &args, &a, &fa);
        agree(c, ops::MUT[op], r, w, &|| format!("{d0} {args:?}"));
    }
    if c.g.chance(60) {
        c.ev("array and interner arguments", w);
        let r = if c.g.bool() { forms_containers(&mut c.g, &a, &cv, &fa, &fc) } else { forms_containers(&mut c.g, &cv, &b, &fc, &fb) };
        agree(c, "array and interner arguments", r, w, &|| format!("{d0} c={} width {wc}", brief(&cw)));
    }
    c.expect(a.words() == aw.as_slice() && a.width() == w && b.words() == bw.as_slice() && b.width() == w && cv.words() == cw.as_slice(), &|| format!("an operand changed | {d0}"));
    c.expect(frozen.0 == fa.words && frozen.1 == fb.words, &|| format!("a store changed | {d0}"));
}

/// Operands that share storage (the same object twice, views of the same or of overlapping words, also with
/// different widths) must give what separate copies give.
fn b15_alias(c: &mut Ctx) {
    let n = c.g.range(1, 12) as usize;
    let cls = c.g.below(Gen::CLASSES);
    let mut store = if c.g.chance(30) { c.g.words_cls(64 * n as u32, cls) } else { (0..n).map(|_| c.g.word()).collect() };
    // first view
    let la = c.g.range(1, n as u64) as usize;
    let sa = c.g.below((n - la + 1) as u64) as usize;
    let (same_start, whole) = (c.g.chance(60), c.g.chance(35));
    let (sb, lb) = if same_start {
        (sa, c.g.range(1, (n - sa) as u64) as usize)
    } else {
        let lb = if c.g.chance(60) { la } else { c.g.range(1, n as u64) as usize };
        (c.g.below((n - lb + 1) as u64) as usize, lb)
    };
    let top = |g: &mut Gen, l: usize| if whole { 64 * l as u32 } else { 64 * l as u32 - g.below(64) as u32 };
    let mut wa = top(&mut c.g, la);
    let mut wb = if la == lb && c.g.chance(50) { wa } else { top(&mut c.g, lb) };
    // the views must be canonical: clear the bits above the widths in the store
    if c.g.chance(25) {
        // small number in the top words, so that many widths are canonical
        store[sa + la - 1] = c.g.below(9);
        store[sb + lb - 1] = store[sb + lb - 1] & 7;
    }
    if wa % 64 != 0 {
        store[sa + la - 1] &= (1u64 << (wa % 64)) - 1;
    }
    if wb % 64 != 0 {
        store[sb + lb - 1] &= (1u64 << (wb % 64)) - 1;
    }
    wa = wa.max(1);
    wb = wb.max(1);
    let (ia, ib) = (BitVecValueIndex::new(sa as u32, wa), BitVecValueIndex::new(sb as u32, wb));
    let (aw, bw) = (store[sa..sa + la].to_vec(), store[sb..sb + lb].to_vec());
    let (a, b) = (mk(wa, &aw), mk(wb, &bw));
    let frozen = store.clone();
    let d0 = format!("store={frozen:x?} a: start {sa} width {wa}, b: start {sb} width {wb}");
    let d = || d0.clone();
    c.evaluations += 1;
    c.seen(hash_words(hash_words(24, wa, &aw), wb, &bw) ^ (sa * 64 + sb) as u64);
    c.sample(d);
    let mut todo = vec![Bin::Eq, Bin::Ne, Bin::Concat];
    if wa == wb {
        todo.extend((0..ops::BIN.len()).map(Bin::Op));
    }
    for op in todo {
        c.ev(bin_name(op), wa);
        let (va, vb): (BitVecValueRef, BitVecValueRef) = store.as_slice().get_ref((ia, ib));
        let va1: BitVecValueRef = store.as_slice().get_ref(ia);
        let eq = matches!(op, Bin::Eq | Bin::Ne);
        let mut f: Forms = vec![];
        if eq {
            f.push(("separate copies", run_eq(op, &a, &b)));
            f.push(("views of one store", run_eq(op, &va, &vb)));
            f.push(("views of one store (single)", run_eq(op, &va1, &vb)));
            f.push(("copy/view", run_eq(op, &a, &vb)));
            f.push(("view/copy", run_eq(op, &va, &b)));
        } else {
            f.push(("separate copies", run_bin(op, &a, &b)));
            f.push(("views of one store", run_bin(op, &va, &vb)));
            f.push(("views of one store (single)", run_bin(op, &va1, &vb)));
            f.push(("copy/view", run_bin(op, &a, &vb)));
            f.push(("view/copy", run_bin(op, &va, &b)));
        }
        agree(c, bin_name(op), f, wa, &d);
    }
    // the same object as both operands
    let a2 = a.clone();
    let mut am = a.clone();
    for op in [Bin::Eq, Bin::Ne, Bin::Concat].into_iter().chain((0..ops::BIN.len()).map(Bin::Op)) {
        c.ev(bin_name(op), wa);
        let ra = BitVecValueRef::from(&a);
        let va: BitVecValueRef = store.as_slice().get_ref(ia);
        let mut f: Forms = vec![];
        if matches!(op, Bin::Eq | Bin::Ne) {
            f.push(("separate copies", run_eq(op, &a, &a2)));
            f.push(("same object", run_eq(op, &a, &a)));
            f.push(("object and its view", run_eq(op, &a, &ra)));
            f.push(("view and its object", run_eq(op, &ra, &a)));
            f.push(("same view", run_eq(op, &va, &va)));
        } else {
            f.push(("separate copies", run_bin(op, &a, &a2)));
            f.push(("same object", run_bin(op, &a, &a)));
            f.push(("object and its view", run_bin(op, &a, &ra)));
            f.push(("view and its object", run_bin(op, &ra, &a)));
            f.push(("same view", run_bin(op, &va, &va)));
            let ma = BitVecValueMutRef::from(&mut am);
            f.push(("same mutable view", run_bin(op, &ma, &ma)));
        }
        agree(c, bin_name(op), f, wa, &|| format!("{d0}, operand a twice"));
    }
    c.expect(store == frozen, &|| format!("the store changed | {d0}"));
    c.expect(a.words() == aw.as_slice() && b.words() == bw.as_slice() && am.words() == aw.as_slice(), &|| format!("an operand changed | {d0}"));
}

// ---------------------------------------------------------------- B16
pub fn overlap(a: &std::ops::Range<usize>, b: &std::ops::Range<usize>) -> bool {
    a.start < b.end && b.start < a.end
}
fn place(g: &mut Gen, n: usize, near: Option<(usize, usize)>) -> (usize, u32) {
    // (start, width), mostly inside the store, sometimes adjacent to or overlapping `near`
    let big = n > 20 && g.chance(40);
    let w = match g.below(4) {
        _ if big && g.bool() => 64 * g.range(1, n as u64 / 2) as u32,
        _ if big => g.range(1, 32 * n as u64) as u32,
        0 => g.width(64),
        1 => g.width(200),
        2 => 64 * g.range(1, 4) as u32,
        _ => g.width(400),
    };
    let k = w.div_ceil(64) as usize;
    let start = match (near, g.below(6)) {
        (Some((s, _)), 0) => s.saturating_sub(k),
        (Some((s, l)), 1) => s + l,
        (Some((s, l)), 2) => (s + l).saturating_sub(1),
        (Some((s, _)), 3) => (s + 1).saturating_sub(k),
        (_, 4) => n.saturating_sub(k) + g.below(3) as usize,
        _ => g.below(n as u64 + 1) as usize,
    };
    (start, w)
}
pub fn b16(c: &mut Ctx) {
    if c.stream == SCALE {
        return crate::p_scale::b16(c);
    }
    // now and then with room for views of thousands of bits
    let n = if c.g.chance(3) { c.g.range(40, 500) } else { c.g.range(1, 20) } as usize;
    let store0: Vec<u64> = (0..n).map(|_| c.g.word()).collect();
    let mut store = store0.clone();
    let steps = c.g.range(1, 6);
    c.evaluations += 1;
    c.seen(hash_words(23, n as u32, &store0));
    for step in 0..steps {
        let (sa, wa) = place(&mut c.g, n, None);
        let la = wa.div_ceil(64) as usize;
        let (sb, wb) = if c.g.chance(60) {
            // equal width, so that assignment is possible
            let (s, _) = place(&mut c.g, n, Some((sa, la)));
            (s, wa)
        } else {
            place(&mut c.g, n, Some((sa, la)))
        };
        let (sc, wc) = place(&mut c.g, n, Some((sa, la)));
        let ia = BitVecValueIndex::new(sa as u32, wa);
        let ib = BitVecValueIndex::new(sb as u32, wb);
        let ic = BitVecValueIndex::new(sc as u32, wc);
        let (ra, rb, rc) = (sa..sa + la, sb..sb + wb.div_ceil(64) as usize, sc..sc + wc.div_ceil(64) as usize);
        let pre = store.clone();
        let d = || format!("store {pre:x?} a=({sa},w{wa}) b=({sb},w{wb}) c=({sc},w{wc}) step {step}");
        let meta = c.call("index", wa, &d, || (ia.width(), ia.words(), ia.to_range()));
        c.eq("index geometry", meta, (wa, la, ra.clone()), &d);
        // shared views
        let sh = c.may_refuse("get_ref", wa, || {
            let v: BitVecValueRef = store.as_slice().get_ref(&ia);
            (v.width(), v.words().to_vec())
        });
        if ra.end <= n {
            c.eq("get_ref", sh, Some((wa, pre[ra.clone()].to_vec())), &d);
        } else {
            c.eq("get_ref out of range", sh, None, &d);
        }
        let sh = c.may_refuse("get_ref pair", wa, || {
            let (x, y): (BitVecValueRef, BitVecValueRef) = store.as_slice().get_ref((ia, ib));
            (x.width(), x.words().to_vec(), y.width(), y.words().to_vec())
        });
        if ra.end <= n && rb.end <= n {
            c.eq("get_ref pair", sh, Some((wa, pre[ra.clone()].to_vec(), wb, pre[rb.clone()].to_vec())), &d);
        } else {
            c.eq("get_ref pair out of range", sh, None, &d);
        }
        // a mutable view, alone or with one or two read-only ones
        let kind = c.g.below(3);
        let legal = ra.end <= n && (kind < 1 || (rb.end <= n && !overlap(&ra, &rb))) && (kind < 2 || (rc.end <= n && !overlap(&ra, &rc)));
        let op = *c.g.pick(&[0usize, 1, 2, 4, 5, 6, 7, 8, 3]);
        let op = if op == 0 && kind > 0 && wb == wa { 100 } else { op };
        let s = text::fitting(&mut c.g, wa, 16);
        let u = c.g.word() & if wa < 64 { (1 << wa) - 1 } else { u64::MAX };
        let i = if wa >= 64 { u as i64 } else { M::wrap(wa, &BigUint::from(u)).int().try_into().unwrap() };
        let args = ops::MutArgs { src: c.g.words(wa), u, i, pos: ops::pos(&mut c.g, wa), s, radix: 16 };
        let mname: &'static str = ["get_mut_ref", "get_mut_ref pair", "get_mut_ref triple"][kind as usize];
        c.ev(mname, wa);
        if legal {
            c.ev("legal", wa);
        } else {
            c.ev("illegal", wa);
        }
        // obtain the views and record what they show; then update through the mutable one
        let seen = guarded(|| match kind {
            0 => {
                let v: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(ia);
                vec![(v.width(), v.words().to_vec())]
            }
            1 => {
                let (v, x): (BitVecValueMutRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((ia, ib));
                vec![(v.width(), v.words().to_vec()), (x.width(), x.words().to_vec())]
            }
            _ => {
                let (v, x, y): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((&ia, &ib, &ic));
                vec![(v.width(), v.words().to_vec()), (x.width(), x.words().to_vec()), (y.width(), y.words().to_vec())]
            }
        });
        c.expect(store == pre, &|| format!("{mname}: obtaining views changed the store to {store:x?} | {}", d()));
        if !legal {
            c.expect(seen.is_err(), &|| format!("{mname}: overlapping or out-of-range views were handed out: {seen:x?} | {}", d()));
            continue;
        }
        let mut want = vec![(wa, pre[ra.clone()].to_vec())];
        if kind > 0 {
            want.push((wb, pre[rb.clone()].to_vec()));
        }
        if kind > 1 {
            want.push((wc, pre[rc.clone()].to_vec()));
        }
        match &seen {
            Ok(v) => c.eq(mname, v.clone(), want, &d),
            Err(m) => c.violate(format!("{mname} panicked on legal indices: {m} | {}", d())),
        }
        let res = guarded(|| match kind {
            0 => {
                let mut v: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(ia);
                ops::mutate(op, &mut v, &args);
                None
            }
            1 => {
                let (mut v, x): (BitVecValueMutRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((ia, ib));
                if op == 100 {
                    v.assign(x)
                } else {
                    ops::mutate(op, &mut v, &args);
                }
                Some((x.words().to_vec(), vec![]))
            }
            _ => {
                let (mut v, x, y): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = store.as_mut_slice().get_mut_ref((ia, ib, ic));
                if op == 100 {
                    v.assign(x)
                } else {
                    ops::mutate(op, &mut v, &args);
                }
                Some((x.words().to_vec(), y.words().to_vec()))
            }
        });
        // words outside the mutable view are untouched, whatever the update did (even if it panicked)
        for k in 0..n {
            if !(ra.start..ra.end).contains(&k) {
                c.expect(store[k] == pre[k], &|| format!("{mname}: update {op} changed word {k} outside the view: {store:x?} | {}", d()));
            }
        }
        match res {
            Ok(Some((x, y))) => {
                c.eq("read-only view during update", x, pre[rb.clone()].to_vec(), &d);
                if kind > 1 {
                    c.eq("second read-only view during update", y, pre[rc.clone()].to_vec(), &d);
                }
            }
            Ok(None) => {}
            Err(_) => c.ev("update panicked", wa),
        }
        // assignment transfers exactly the operand
        if op == 100 {
            c.ev("assign between views", wa);
            c.expect(store[ra.clone()] == pre[rb.clone()], &|| format!("{mname}: assign stored {store:x?} | {}", d()));
        } else if op == 0 {
            c.expect(store[ra.clone()] == args.src[..], &|| format!("{mname}: assign of {:x?} stored {store:x?} | {}", args.src, d()));
        } else if op == 1 {
            c.expect(store[ra.clone()].iter().all(|x| *x == 0), &|| format!("{mname}: clear stored {store:x?} | {}", d()));
        }
        // keep the store valid for later views: surroundings stay arbitrary
    }
    c.sample(|| format!("store of {n} words, {steps} steps"));
}

// ---------------------------------------------------------------- I01
pub const BULK: u32 = 4;
pub fn i01(c: &mut Ctx) {
    if c.stream == SCALE {
        return crate::p_scale::i01(c);
    }
    let bulk = c.stream == BULK;
    let mut interners: Vec<(ValueInterner, HashMap<M, BitVecValueIndex>, Vec<M>)> = vec![(ValueInterner::new(), HashMap::new(), vec![])];
    if c.g.bool() {
        interners[0].0 = Default::default();
    }
    let steps = if bulk { 4000 } else { c.g.range(3, 60) };
    for step in 0..steps {
        if !bulk && interners.len() < 3 && c.g.chance(5) {
            let cl = interners[0].clone();
            interners.push(cl);
            c.ev("clone", 0);
        }
        let k = c.g.below(interners.len() as u64) as usize;
        let (int, map, list) = &mut interners[k];
        let m = if bulk {
            let w = *c.g.pick(&[4u32, 16, 64, 65, 128, 129, 200]);
            if c.g.bool() {
                M::wrap(w, &BigUint::from(c.g.below(40)))
            } else {
                M::from_words(w, &c.g.words(w))
            }
        } else {
            match c.g.below(6) {
                0 => {
                    let w = c.g.width(70);
                    M::wrap(w, &BigUint::from(c.g.below(12)))
                }
                1 if !list.is_empty() => {
                    // same words as an earlier value at another width, or same low words
                    let p = c.g.pick(list).clone();
                    let w = (p.v.bits() as u32).max(1);
                    let w2 = w + c.g.below(70) as u32;
                    M::new(w2, p.v)
                }
                _ => value_near(c, list),
            }
        };
        c.evaluations += 1;
        let v = mkm(&m);
        let held = map.len();
        let d = || format!("step {step}: intern {} into interner {k} holding {held} values", m.hex());
        let view = c.g.bool();
        let idx = c.call("get_index", m.w, &d, || if view { int.get_index(BitVecValueRef::from(&v)) } else { int.get_index(&v) });
        c.eq("index width", idx.width(), m.w, &d);
        match map.get(&m) {
            Some(old) => {
                c.ev("known value", m.w);
                c.expect(*old == idx, &|| format!("index changed from {old:?} to {idx:?} | {}", d()))
            }
            None => {
                c.ev("new value", m.w);
                map.insert(m.clone(), idx);
                list.push(m.clone());
                c.seen(hash_words(24, m.w, &m.words()) ^ step);
            }
        }
        // the returned index resolves to the value; so does one returned earlier
        let probe = if c.g.bool() { m.clone() } else { c.g.pick(list).clone() };
        let pi = map[&probe];
        let dp = || format!("resolve {} at {pi:?} after step {step}", probe.hex());
        let (w, words) = c.call("resolve", probe.w, &dp, || {
            let r: BitVecValueRef = int.words().get_ref(pi);
            (r.width(), r.words().to_vec())
        });
        c.eq("resolve", (w, words), (probe.w, probe.words()), &dp);
        // zero and one tests
        let (z, o) = c.call("is_zero/is_one", m.w, &d, || (ValueInterner::is_zero(idx), ValueInterner::is_one(&idx)));
        let (wz, wo) = (m.v == BigUint::from(0u8), m.v == BigUint::from(1u8));
        if m.w > 64 && wz && !z && !o {
            c.finding("I01/is_zero-false-for-wide-zero", format!("is_zero is false for the index of an interned zero wider than one word ({})", m.hex()));
        } else if m.w > 64 && wo && !z && !o {
            c.finding("I01/is_one-false-for-wide-one", format!("is_one is false for the index of an interned one wider than one word ({})", m.hex()));
        } else {
            c.eq("is_zero/is_one", (z, o), (wz, wo), &d);
        }
    }
    // at the end: all indices are distinct and all resolve
    for (int, map, _) in &interners {
        let distinct: BTreeSet<String> = map.values().map(|i| format!("{i:?}")).collect();
        c.eq("number of distinct indices", distinct.len(), map.len(), &|| "end of history".to_string());
        for (m, i) in map {
            let dp = || format!("resolve {} at {i:?} at the end", m.hex());
            let (w, words) = c.call("resolve", m.w, &dp, || {
                let r: BitVecValueRef = int.words().get_ref(*i);
                (r.width(), r.words().to_vec())
            });
            c.eq("resolve", (w, words), (m.w, m.words()), &dp);
        }
    }
    c.sample(|| format!("{steps} steps, {} interners, {} values", interners.len(), interners[0].1.len()));
}
