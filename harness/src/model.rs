//! Shadow model of a bit-vector: a width and a non-negative integer. Independent of the code under test.
use num_bigint::{BigInt, BigUint, Sign};

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct M {
    pub w: u32,
    pub v: BigUint,
}

pub fn big(words: &[u64]) -> BigUint {
    let mut d = Vec::with_capacity(words.len() * 2);
    for w in words {
        d.push(*w as u32);
        d.push((*w >> 32) as u32);
    }
    BigUint::from_slice(&d)
}

pub fn pow2(n: u32) -> BigUint {
    BigUint::from(1u8) << n
}

impl M {
    pub fn new(w: u32, v: BigUint) -> M {
        M { w, v }
    }
    pub fn from_words(w: u32, words: &[u64]) -> M {
        M { w, v: big(words) }
    }
    /// v mod 2^w
    pub fn wrap(w: u32, v: &BigUint) -> M {
        M { w, v: v & (pow2(w) - 1u8) }
    }
    /// two's complement of an integer at width w
    pub fn wrap_int(w: u32, v: &BigInt) -> M {
        let m = BigInt::from(pow2(w));
        let mut r = v % &m;
        if r.sign() == Sign::Minus {
            r += &m;
        }
        M { w, v: r.to_biguint().unwrap() }
    }
    pub fn words(&self) -> Vec<u64> {
        let mut d: Vec<u64> = self.v.iter_u64_digits().collect();
        d.resize(self.w.div_ceil(64) as usize, 0);
        d
    }
    pub fn bit(&self, i: u32) -> bool {
        self.v.bit(i as u64)
    }
    pub fn neg(&self) -> bool {
        self.w > 0 && self.bit(self.w - 1)
    }
    pub fn int(&self) -> BigInt {
        if self.neg() {
            BigInt::from(self.v.clone()) - BigInt::from(pow2(self.w))
        } else {
            BigInt::from(self.v.clone())
        }
    }
    pub fn hex(&self) -> String {
        format!("bv{}:0x{:x}", self.w, self.v)
    }
}

/// numeral of `v` in `radix`, left-padded with zeros to `digits`
pub fn padded(v: &BigUint, radix: u32, digits: usize) -> String {
    let s = if *v == BigUint::from(0u8) { String::new() } else { v.to_str_radix(radix) };
    let mut out = String::new();
    for _ in s.len()..digits {
        out.push('0');
    }
    out.push_str(&s);
    out
}
