//! The public operations as data, generic over the storage form of the operands.
use crate::gen::{mix, Gen};
#[allow(unused_imports)]
use crate::shim::*;
use baa::*;
use num_bigint::{BigInt, BigUint};

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Val(u32, Vec<u64>),
    Bool(bool),
    OptBool(Option<bool>),
    Str(String),
    Bytes(Vec<u8>),
    Int(BigInt),
    Uint(BigUint),
    U64(Option<u64>),
    I64(Option<i64>),
    Frac(Option<String>),
    Num(u64),
    Panicked,
}

impl Out {
    pub fn hash(&self) -> u64 {
        let s = |b: &[u8]| b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
        match self {
            Out::Val(w, v) => v.iter().fold(mix(*w as u64), |h, x| mix(h ^ x)),
            Out::Bool(b) => mix(100 + *b as u64),
            Out::OptBool(b) => mix(200 + b.map(|x| 1 + x as u64).unwrap_or(0)),
            Out::Str(x) => mix(s(x.as_bytes()) ^ 3),
            Out::Bytes(x) => mix(s(x) ^ 4),
            Out::Int(x) => mix(s(x.to_str_radix(16).as_bytes()) ^ 5),
            Out::Uint(x) => mix(s(x.to_str_radix(16).as_bytes()) ^ 6),
            Out::U64(x) => mix(x.map(|v| mix(v)).unwrap_or(7)),
            Out::I64(x) => mix(x.map(|v| mix(v as u64)).unwrap_or(8)),
            Out::Frac(x) => mix(x.as_ref().map(|v| s(v.as_bytes())).unwrap_or(9)),
            Out::Num(x) => mix(*x ^ 10),
            Out::Panicked => 11,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    pub msb: u32,
    pub lsb: u32,
    pub pos: u32,
    pub by: u32,
    pub fw: u32,
}

impl Params {
    /// valid for an operand of width w >= 1
    pub fn valid(g: &mut Gen, w: u32) -> Params {
        let msb = pos(g, w);
        let lsb = if g.chance(15) { msb } else { pos(g, msb + 1) };
        let fw = if w < 64 || g.bool() { g.below(w.min(63) as u64 + 1) as u32 } else { g.below(w as u64 + 1) as u32 };
        Params { msb, lsb, pos: pos(g, w), by: ext(g, w), fw }
    }
}

/// a bit position below w, biased to word boundaries and the ends
pub fn pos(g: &mut Gen, w: u32) -> u32 {
    let p = match g.below(8) {
        0 => 0,
        1 => w - 1,
        2 => 64 * g.below(w as u64 / 64 + 1) as u32,
        3 => (64 * g.below(w as u64 / 64 + 2) as u32).saturating_sub(1),
        4 => 64 * g.below(w as u64 / 64 + 1) as u32 + 1,
        _ => g.below(w as u64) as u32,
    };
    if p >= w {
        g.below(w as u64) as u32
    } else {
        p
    }
}

/// an extension amount, biased so that the result is near word boundaries
pub fn ext(g: &mut Gen, w: u32) -> u32 {
    match g.below(6) {
        0 => 0,
        1 => 1,
        2 => {
            // up to a word boundary (+-1)
            let t = (w / 64 + g.range(1, 4) as u32) * 64 + g.below(3) as u32 - 1;
            t.saturating_sub(w)
        }
        3 => 64 * g.below(6) as u32,
        4 => g.below(8) as u32,
        _ => g.below(400) as u32,
    }
}

fn val(v: BitVecValue) -> Out {
    Out::Val(v.width(), v.words().to_vec())
}

pub fn frac_str(f: Option<fraction::Fraction>) -> Option<String> {
    f.map(|f| {
        let neg = matches!(f.sign(), Some(fraction::Sign::Minus));
        match (f.numer(), f.denom()) {
            (Some(n), Some(d)) => format!("{}{}/{}", if neg && *n != 0 { "-" } else { "" }, n, d),
            _ => format!("{f:?}"),
        }
    })
}

/// operations needing two operands of equal width
pub const BIN: &[&str] = &[
    "add", "sub", "mul", "shift_left", "shift_right", "arithmetic_shift_right", "and", "or", "xor", "is_equal", "is_not_equal", "is_greater",
    "is_greater_or_equal", "is_less", "is_less_or_equal", "is_greater_signed", "is_greater_or_equal_signed", "is_less_signed", "is_less_or_equal_signed",
];
pub const UN: &[&str] = &[
    "slice", "is_bit_set", "sign_extend", "zero_extend", "not", "negate", "to_bit_str", "to_bit_str_signed", "to_hex_str", "to_hex_str_signed",
    "to_dec_str", "to_bytes_le", "to_big_int", "to_big_uint", "to_u64", "to_i64", "to_bool", "is_tru", "is_fals", "is_zero", "is_negative",
    "to_unsigned_fixed_point", "to_signed_fixed_point", "width", "words",
];

/// of those: only with optional features
pub const OPTIONAL: [usize; 4] = [12, 13, 21, 22];

pub fn bin<L: BitVecOps, R: BitVecOps>(op: usize, a: &L, b: &R) -> Out {
    match op {
        0 => val(a.add(b)),
        1 => val(a.sub(b)),
        2 => val(a.mul(b)),
        3 => val(a.shift_left(b)),
        4 => val(a.shift_right(b)),
        5 => val(a.arithmetic_shift_right(b)),
        6 => val(a.and(b)),
        7 => val(a.or(b)),
        8 => val(a.xor(b)),
        9 => Out::Bool(a.is_equal(b)),
        10 => Out::Bool(a.is_not_equal(b)),
        11 => Out::Bool(a.is_greater(b)),
        12 => Out::Bool(a.is_greater_or_equal(b)),
        13 => Out::Bool(a.is_less(b)),
        14 => Out::Bool(a.is_less_or_equal(b)),
        15 => Out::Bool(a.is_greater_signed(b)),
        16 => Out::Bool(a.is_greater_or_equal_signed(b)),
        17 => Out::Bool(a.is_less_signed(b)),
        18 => Out::Bool(a.is_less_or_equal_signed(b)),
        _ => unreachable!(),
    }
}

pub fn concat<L: BitVecOps, R: BitVecOps>(a: &L, b: &R) -> Out {
    val(a.concat(b))
}

pub fn un<L: BitVecOps>(op: usize, a: &L, p: &Params) -> Out {
    match op {
        0 => val(a.slice(p.msb, p.lsb)),
        1 => Out::Bool(a.is_bit_set(p.pos)),
        2 => val(a.sign_extend(p.by)),
        3 => val(a.zero_extend(p.by)),
        4 => val(a.not()),
        5 => val(a.negate()),
        6 => Out::Str(a.to_bit_str()),
        7 => Out::Str(a.to_bit_str_signed()),
        8 => Out::Str(a.to_hex_str()),
        9 => Out::Str(a.to_hex_str_signed()),
        10 => Out::Str(a.to_dec_str()),
        11 => Out::Bytes(a.to_bytes_le()),
        12 => Out::Int(a.to_big_int()),
        13 => Out::Uint(a.to_big_uint()),
        14 => Out::U64(a.to_u64()),
        15 => Out::I64(a.to_i64()),
        16 => Out::OptBool(a.to_bool()),
        17 => Out::Bool(a.is_tru()),
        18 => Out::Bool(a.is_fals()),
        19 => Out::Bool(a.is_zero()),
        20 => Out::Bool(a.is_negative()),
        21 => Out::Frac(frac_str(a.to_unsigned_fixed_point(p.fw))),
        22 => Out::Frac(frac_str(a.to_signed_fixed_point(p.fw))),
        23 => Out::Num(a.width() as u64),
        24 => Out::Val(a.width(), a.words().to_vec()),
        _ => unreachable!(),
    }
}

/// in-place updates of one target
pub const MUT: &[&str] = &["assign", "clear", "assign_ones", "mask_msb", "assign_from_u64", "assign_from_i64", "set_bit", "clear_bit", "assign_from_str_radix"];

#[derive(Clone, Debug)]
pub struct MutArgs {
    pub src: Vec<u64>,
    pub u: u64,
    pub i: i64,
    pub pos: u32,
    pub s: String,
    pub radix: u32,
}

/// returns the error flag of the parse, false otherwise
pub fn mutate<T: BitVecMutOps>(op: usize, t: &mut T, a: &MutArgs) -> bool {
    match op {
        0 => {
            let w = t.width();
            t.assign(a.src.as_slice().get_ref(BitVecValueIndex::new(0, w)))
        }
        1 => t.clear(),
        2 => t.assign_ones(),
        3 => t.mask_msb(),
        4 => t.assign_from_u64(a.u),
        5 => t.assign_from_i64(a.i),
        6 => t.set_bit(a.pos),
        7 => t.clear_bit(a.pos),
        8 => return t.assign_from_str_radix(&a.s, a.radix).is_err(),
        _ => unreachable!(),
    }
    false
}

/// an interesting shift amount, sometimes
pub fn bin_shift(yes: bool, g: &mut Gen, w: u32) -> Option<Vec<u64>> {
    if yes {
        Some(g.shift_amount(w))
    } else {
        None
    }
}
