pub mod ctx;
pub mod gen;
pub mod model;
pub mod ops;
pub mod p_arr;
pub mod p_bulk;
pub mod p_bv;
pub mod p_mem;
pub mod p_mix;
pub mod p_refuse;
pub mod p_scale;
pub mod p_wave;
pub mod p_store;
pub mod p_ultra;
#[cfg(feature = "full")]
pub mod p_work;
pub mod shim;
pub mod text;

use ctx::{Ctx, Tier};

/// one workload of a property: case `index` of stream `id` for index in 0..count
#[derive(Clone, Copy)]
pub struct Stream {
    pub id: u32,
    pub name: &'static str,
    pub count: u64,
    /// covers a finite space completely (independent of the seed)
    pub complete: bool,
}
pub type CaseFn = fn(&mut Ctx);
pub struct Prop {
    pub id: &'static str,
    pub f: CaseFn,
    pub rule: &'static str,
    pub streams: fn(Tier) -> Vec<Stream>,
}

fn s(id: u32, name: &'static str, count: u64) -> Stream {
    Stream { id, name, count, complete: false }
}
fn full(id: u32, name: &'static str, count: u64) -> Stream {
    Stream { id, name, count, complete: true }
}
fn t(tier: Tier, q: u64, th: u64) -> u64 {
    if tier == Tier::Quick {
        q
    } else {
        th
    }
}

use p_bv::{EXH, GRID, RND, SWEEP, SWEEP_W};
const EXH_NAME: &str = "every operand pair at small widths";
const SWEEP_NAME: &str = "every width up to 640, pattern classes in turn";
const RND_NAME: &str = "random widths and values, boundary-biased";

fn large(tier: Tier, q: u64) -> Stream {
    s(ctx::LARGE, "widths from thousands up to millions of bits", t(tier, q, q * 100))
}
fn ultra(tier: Tier) -> Stream {
    s(p_ultra::ULTRA, "widths up to the limit of the width type", t(tier, 10, 80))
}

fn scale(tier: Tier, q: u64) -> Stream {
    s(p_scale::SCALE, p_scale::NAME, t(tier, q, q * 40))
}

fn wave(tier: Tier) -> Stream {
    s(p_wave::WAVE, p_wave::NAME, t(tier, 400, 40_000))
}

fn binary(tier: Tier) -> Vec<Stream> {
    vec![
        full(EXH, EXH_NAME, p_bv::exh_total(t(tier, 8, 10) as u32)),
        s(SWEEP, SWEEP_NAME, SWEEP_W * t(tier, 2_000, 60_000)),
        s(RND, RND_NAME, t(tier, 2_500_000, 120_000_000)),
        large(tier, 6000),
        ultra(tier),
    ]
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "B01",
        f: p_mix::b01,
        rule: "random programs of 4-40 public calls over a pool of values, arrays, an interner and views; one evaluation = one call, every value it produces is inspected; distinct = distinct call with its concrete operands",
        streams: |tr| vec![s(RND, "random programs", t(tr, 500_000, 60_000_000)), large(tr, 1500)],
    },
    Prop { id: "B02", f: p_bv::b02, rule: "operand pairs of one width judged against big-integer arithmetic; non-trivial = width > 1 and both operands non-zero", streams: binary },
    Prop { id: "B03", f: p_bv::b03, rule: "operand pairs of one width judged against big-integer bit logic; non-trivial = width > 1 and both operands non-zero", streams: binary },
    Prop {
        id: "B04",
        f: p_bv::b04,
        rule: "value and shift amount judged against big-integer shifts; non-trivial = width > 1, value and amount non-zero",
        streams: |tr| {
            vec![
                full(EXH, EXH_NAME, p_bv::exh_total(t(tr, 8, 10) as u32)),
                full(GRID, "every width up to the bound with every amount 0..=width+2", p_bv::b04_grid_total(t(tr, 520, 1300))),
                s(SWEEP, SWEEP_NAME, SWEEP_W * t(tr, 1000, 40_000)),
                s(RND, RND_NAME, t(tr, 2_500_000, 120_000_000)),
                large(tr, 6000),
                ultra(tr),
            ]
        },
    },
    Prop {
        id: "B05",
        f: p_bv::b05,
        rule: "slices, concatenations and extensions judged bit by bit against shifts and masks of big integers; non-trivial = width > 1 and operands non-zero",
        streams: |tr| {
            vec![
                full(GRID, "every (width, msb, lsb) up to the bound", p_bv::b05_slice_total(t(tr, 200, 270))),
                full(p_bv::CONCAT, "every pair of widths up to 200", 40_000 * t(tr, 10, 200)),
                full(p_bv::EXT, "every width and extension up to 200", 200 * 201 * t(tr, 10, 200)),
                s(RND, RND_NAME, t(tr, 1_500_000, 80_000_000)),
                large(tr, 6000),
                ultra(tr),
            ]
        },
    },
    Prop { id: "B06", f: p_bv::b06, rule: "operand pairs of one width, all ten comparisons judged against integer comparison; non-trivial = width > 1 and both operands non-zero", streams: binary },
    Prop {
        id: "B07",
        f: p_bv::b07,
        rule: "bit test/set/clear, predicates and histories of whole-value updates judged against an integer model; non-trivial = width > 1 and value non-zero",
        streams: |tr| {
            vec![
                full(GRID, "every (width, position) up to the bound", p_bv::b07_grid_total(t(tr, 700, 2000))),
                s(SWEEP, SWEEP_NAME, SWEEP_W * t(tr, 600, 20_000)),
                s(RND, "histories of up to 10 in-place updates", t(tr, 1_200_000, 50_000_000)),
                large(tr, 4000),
                ultra(tr),
            ]
        },
    },
    Prop {
        id: "B08",
        f: p_bv::b08,
        rule: "64-bit integers into and out of values of every width, at and around the representable limits; one evaluation = one width with its integers or one value read back; non-trivial = width > 1, not zero",
        streams: |tr| vec![full(GRID, "width zero", 1), s(SWEEP, SWEEP_NAME, SWEEP_W * t(tr, 1500, 60_000)), s(RND, RND_NAME, t(tr, 1_500_000, 80_000_000)), large(tr, 4000), ultra(tr)],
    },
    Prop { id: "B09", f: p_bv::b09, rule: "values and big integers of either sign converted both ways, at the same and at other widths; non-trivial = width > 1, value non-zero", streams: |tr| vec![s(SWEEP, SWEEP_NAME, SWEEP_W * t(tr, 2_000, 60_000)), s(RND, RND_NAME, t(tr, 2_000_000, 80_000_000)), large(tr, 4000), ultra(tr)] },
    Prop { id: "B10", f: p_bv::b10, rule: "bytes of a value and values of full, truncated or padded byte strings judged against big-integer byte order; non-trivial = width > 1, value non-zero", streams: |tr| vec![s(SWEEP, SWEEP_NAME, (SWEEP_W + 1) * t(tr, 2500, 80_000)), s(RND, RND_NAME, t(tr, 2_500_000, 100_000_000)), large(tr, 4000), ultra(tr)] },
    Prop { id: "B11", f: p_bv::b11, rule: "all text forms of a value judged against big-integer numerals; non-trivial = width > 1, value non-zero", streams: |tr| vec![s(SWEEP, SWEEP_NAME, (SWEEP_W + 1) * t(tr, 14 * 60, 14 * 2000)), s(RND, RND_NAME, t(tr, 500_000, 20_000_000)), large(tr, 4000), ultra(tr)] },
    Prop { id: "B12", f: p_bv::b12, rule: "numerals around the limits of the width and malformed text in three radices, parsed fresh, in place over old content and with inferred width, judged by an independent reference parser; non-trivial = text of at least two characters", streams: |tr| vec![s(SWEEP, SWEEP_NAME, SWEEP_W * t(tr, 900, 40_000)), s(RND, RND_NAME, t(tr, 900_000, 50_000_000)), large(tr, 4000), s(p_scale::SCALE, "long texts", t(tr, 600, 60_000)), ultra(tr)] },
    Prop { id: "B13", f: p_bv::b13, rule: "fixed-point conversions judged by exact cross-multiplication; non-trivial = width > 1, value non-zero", streams: |tr| vec![s(SWEEP, "every width up to 140", 140 * t(tr, 15_000, 800_000)), s(RND, RND_NAME, t(tr, 2_000_000, 80_000_000)), large(tr, 4000)] },
    Prop {
        id: "B14",
        f: p_store::b14,
        rule: "triples of related values compared in all storage forms, and insert/lookup/remove histories on hash and ordered maps against a model map; distinct = distinct triple or step",
        streams: |tr| {
            vec![
                s(RND, "triples of related values", t(tr, 1_000_000, 40_000_000)),
                s(p_store::MAPS, "map and set histories", t(tr, 60_000, 2_500_000)),
                s(p_store::BORROW, "lookup through a borrowed view", t(tr, 200, 2000)),
                large(tr, 1500),
            ]
        },
    },
    Prop {
        id: "B15",
        f: p_store::b15,
        rule: "each case runs several operations in all storage-form combinations inside random surroundings and compares the results with each other, also for operands that share storage; distinct = distinct operand pair",
        streams: |tr| vec![full(EXH, EXH_NAME, p_bv::exh_total(t(tr, 5, 7) as u32)), s(SWEEP, SWEEP_NAME, SWEEP_W * t(tr, 200, 8_000)), s(RND, RND_NAME, t(tr, 200_000, 10_000_000)), s(p_store::ALIAS, "operands sharing storage", t(tr, 400_000, 20_000_000)), large(tr, 300)],
    },
    Prop { id: "B16", f: p_store::b16, rule: "random stores with legal, adjacent, overlapping and out-of-range views and up to six updates through them, judged against a copy of the store; distinct = distinct initial store", streams: |tr| vec![s(RND, "stores and views", t(tr, 1_000_000, 50_000_000)), scale(tr, 160)] },
    Prop {
        id: "I01",
        f: p_store::i01,
        rule: "intern/resolve/clone histories against a model map; one evaluation = one interning; distinct = distinct newly interned value",
        streams: |tr| vec![s(RND, "histories of up to 60 values", t(tr, 300_000, 12_000_000)), s(p_store::BULK, "histories of 4000 values", t(tr, 200, 10_000)), scale(tr, 48)],
    },
    Prop {
        id: "A01",
        f: p_arr::a01,
        rule: "store/select/clear/clone histories on dense and sparse arrays against a model map; one evaluation = one update followed by reads; distinct = distinct array content reached",
        streams: |tr| {
            vec![
                s(RND, "histories of up to 90 updates", t(tr, 300_000, 12_000_000)),
                full(p_arr::HUGE, "dense arrays at the size limit", p_arr::HUGE_CASES),
                s(p_arr::WIDE, "large one-bit arrays", t(tr, 800, 20_000)),
                wave(tr),
                scale(tr, 96),
            ]
        },
    },
    Prop {
        id: "A02",
        f: p_arr::a02,
        rule: "arrays filled by a history or a palette, converted at random points, every index compared before and after; distinct = distinct array content",
        streams: |tr| {
            vec![
                s(RND, "conversion histories", t(tr, 140_000, 5_000_000)),
                s(p_arr::SLICES, "arrays from slices", t(tr, 80_000, 3_000_000)),
                wave(tr),
                scale(tr, 96),
                s(p_arr::BIG, "arrays with more than a million distinct elements", t(tr, 4, 64)),
            ]
        },
    },
    Prop { id: "A03", f: p_arr::a03, rule: "pairs of array models realized in random representations and histories, compared both ways; distinct = distinct pair of contents", streams: |tr| vec![s(RND, "pairs of arrays", t(tr, 600_000, 25_000_000)), wave(tr), scale(tr, 96)] },
    Prop { id: "A04", f: p_arr::a04, rule: "histories on sparse arrays (fresh or converted) with the entry list compared to the model after each update; distinct = distinct array content reached", streams: |tr| vec![s(RND, "histories with entry checks", t(tr, 100_000, 5_000_000)), wave(tr), scale(tr, 96)] },
    Prop { id: "S01", f: p_arr::s01, rule: "values and arrays with a history, through JSON, bincode, CBOR or a JSON value and back, then used further; distinct = distinct object and format", streams: |tr| vec![s(RND, "round trips", t(tr, 700_000, 25_000_000)), wave(tr), scale(tr, 96)] },
    Prop {
        id: "V01",
        f: p_mix::v01,
        rule: "clone/copy/mutate histories over up to six objects with every object checked after each step, and groups of 2-8 reader threads making 60 calls each in shifted orders, or repeating few calls 1500 times, or making each call for the first time in a fresh process at the same moment; distinct = distinct mutation or shared value",
        streams: |tr| vec![s(RND, "clone and mutate histories", t(tr, 150_000, 7_000_000)), s(p_mix::CONC, "concurrent readers", t(tr, 6_000, 200_000)), s(p_mix::TIGHT, "concurrent readers, few calls repeated", t(tr, 6_000, 200_000)), s(p_mix::COLD, "first uses by several threads in fresh processes", t(tr, 600, 40_000)), s(p_mix::PURE, "the same calls in another order in a fresh process", t(tr, 1500, 60_000))],
    },
    Prop {
        id: "E01",
        f: p_refuse::e01,
        rule: "calls out of contract, failing parses and calls in which code of the caller panics, made amid values, views, an interner, arrays and a map that are all compared with their models after every call and used in between; one evaluation = one such call; distinct = distinct call with its arguments",
        streams: |tr| {
            vec![
                s(GRID, "every kind of refusal at every width up to 200", p_refuse::KINDS * p_refuse::GRID_W * t(tr, 10, 200)),
                s(RND, "histories with refused calls", t(tr, 60_000, 2_500_000)),
                large(tr, 300),
            ]
        },
    },
    Prop { id: "M01", f: p_mix::m01, rule: "sequences of 3-16 calls with arbitrary, mostly out-of-contract arguments, user-defined operands whose width and words disagree, overlapping views and damaged serialized data; distinct = distinct call with arguments", streams: |tr| vec![s(RND, "hostile sequences", t(tr, 250_000, 20_000_000))] },
    Prop {
        id: "M02",
        f: p_mem::m02,
        rule: "calls, histories on arrays and interners and repeated blocks of calls with every allocation counted, bytes needed and kept compared with the bytes of the contents; distinct = distinct operand or step",
        streams: |tr| {
            vec![
                s(p_mem::SPARSE, "sparse arrays over large index spaces", t(tr, 20_000, 1_000_000)),
                s(p_mem::DENSE, "elements of large dense arrays", t(tr, 1_500, 50_000)),
                s(p_mem::INTERN, "interning known values", t(tr, 8_000, 300_000)),
                large(tr, 4000),
                s(RND, "single operations", t(tr, 500_000, 30_000_000)),
                s(p_mem::LEAK, "the same and ever new operations, everything dropped", t(tr, 600, 20_000)),
            ]
        },
    },
    Prop { id: "P02", f: p_mix::p02, rule: "random valid programs over what the library offers without optional features, run in a build with all and in a build with no optional features, per-program digests of all results compared; one evaluation = one call; distinct = distinct call with its concrete operands", streams: |tr| vec![s(RND, "valid programs", t(tr, 500_000, 40_000_000)), s(p_mix::EVERY, "every operation on one pair of operands", t(tr, 100_000, 8_000_000)), large(tr, 1000), s(p_bulk::BULK, p_bulk::NAME, t(tr, 200, 20_000))] },
    Prop { id: "P03", f: p_mix::p03, rule: "random valid programs run natively (64 bit, little endian) and interpreted for a 64-bit big-endian and a 32-bit little-endian platform, per-program digests of all results compared; one evaluation = one call; distinct = distinct call with its concrete operands", streams: |tr| vec![s(p_mix::EVERY, "every operation on one pair of operands", t(tr, 20_000, 1_000_000)), s(RND, "short valid programs", t(tr, 100_000, 2_000_000))] },
    Prop { id: "P01", f: p_mix::p01, rule: "random valid programs run in both builds, per-program digests of all results compared; one evaluation = one call; distinct = distinct call with its concrete operands", streams: |tr| vec![s(RND, "valid programs", t(tr, 400_000, 40_000_000)), s(p_mix::EVERY, "every operation on one pair of operands", t(tr, 100_000, 8_000_000)), large(tr, 1000), s(p_bulk::BULK, p_bulk::NAME, t(tr, 600, 50_000))] },
];

/// streams of a property with the number of cases of the tier
pub fn streams_of(p: &Prop, tier: Tier) -> Vec<Stream> {
    let mut v = (p.streams)(tier);
    if tier == Tier::Quick {
        for s in v.iter_mut() {
            if !s.complete && s.id != p_ultra::ULTRA && s.id != p_scale::SCALE && !(p.id == "A02" && s.id == p_arr::BIG) {
                s.count *= 3;
            }
        }
    }
    v
}

pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
