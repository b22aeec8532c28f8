//! What the optional features of the library add. With the feature `full` these are the library's own
//! functions; in the builds with none or one of the optional features they are stand-ins computed from `words()`,
//! so that the rest of the harness compiles and the same workload runs in all builds.
#[cfg(not(feature = "full"))]
mod plain {
    use crate::model::M;
    use baa::*;
    use num_bigint::{BigInt, BigUint};
    #[cfg(not(feature = "one-bigint"))]
    pub trait Big: BitVecOps {
        fn to_big_uint(&self) -> BigUint {
            M::from_words(self.width(), self.words()).v
        }
        fn to_big_int(&self) -> BigInt {
            M::from_words(self.width(), self.words()).int()
        }
    }
    #[cfg(not(feature = "one-bigint"))]
    impl<T: BitVecOps> Big for T {}
    #[cfg(not(feature = "one-fraction"))]
    pub trait Fixed: BitVecOps {
        fn to_unsigned_fixed_point(&self, _f: u32) -> Option<fraction::Fraction> {
            None
        }
        fn to_signed_fixed_point(&self, _f: u32) -> Option<fraction::Fraction> {
            None
        }
    }
    #[cfg(not(feature = "one-fraction"))]
    impl<T: BitVecOps> Fixed for T {}
    #[cfg(not(feature = "one-bigint"))]
    pub trait FromBig: Sized {
        fn from_big_uint(v: &BigUint, w: u32) -> BitVecValue {
            crate::ctx::mkm(&M::wrap(w, v))
        }
        fn from_big_int(v: &BigInt, w: u32) -> BitVecValue {
            crate::ctx::mkm(&M::wrap_int(w, v))
        }
    }
    #[cfg(not(feature = "one-bigint"))]
    impl FromBig for BitVecValue {}
    pub fn binary_trip(v: &BitVecValue) -> Option<BitVecValue> {
        Some(crate::ctx::mk(v.width(), v.words()))
    }
    pub fn binary_form(_: &BitVecValue) -> Vec<u8> {
        vec![]
    }
    pub fn binary_len(v: &SparseArrayValue) -> u64 {
        v.index_width() as u64
    }
    pub fn from_uint(v: &BigUint) -> BitVecValue {
        BitVecValue::from_big_uint(v, (v.bits() as u32).max(1))
    }
    pub fn from_int(v: &BigInt) -> BitVecValue {
        BitVecValue::from_big_int(v, v.bits() as u32 + 1)
    }
}
#[cfg(not(feature = "full"))]
pub use plain::*;

#[cfg(feature = "full")]
pub fn from_uint(v: &num_bigint::BigUint) -> baa::BitVecValue {
    baa::BitVecValue::from(v)
}
#[cfg(feature = "full")]
pub fn from_int(v: &num_bigint::BigInt) -> baa::BitVecValue {
    baa::BitVecValue::from(v)
}
#[cfg(feature = "full")]
pub fn binary_trip(v: &baa::BitVecValue) -> Option<baa::BitVecValue> {
    bincode::deserialize(&bincode::serialize(v).ok()?).ok()
}
#[cfg(feature = "full")]
pub fn binary_form(v: &baa::BitVecValue) -> Vec<u8> {
    bincode::serialize(v).unwrap()
}
#[cfg(feature = "full")]
pub fn binary_len(v: &baa::SparseArrayValue) -> u64 {
    bincode::serialize(v).map(|x| x.len() as u64).unwrap_or(0)
}
