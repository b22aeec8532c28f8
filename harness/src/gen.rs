//! Workload source: a deterministic PRNG (or fuzzer bytes) with hostile, boundary-biased draws.
use num_bigint::BigUint;
use std::sync::OnceLock;

/// Integer literals mined from the sources under test (MON_DICT file); only ever used to bias draws.
pub fn dict() -> &'static [u64] {
    static D: OnceLock<Vec<u64>> = OnceLock::new();
    D.get_or_init(|| {
        let mut out = vec![0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256];
        if let Ok(p) = std::env::var("MON_DICT") {
            if let Ok(s) = std::fs::read_to_string(p) {
                out.extend(s.split_whitespace().filter_map(|t| t.parse::<u64>().ok()));
            }
        }
        out.sort();
        out.dedup();
        out
    })
}

pub struct Gen {
    s: u64,
    bytes: Option<(Vec<u8>, usize)>,
}

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Gen {
    pub fn new(seed: u64) -> Self {
        Gen { s: seed, bytes: None }
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        let mut h = 0xcbf29ce484222325u64;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        Gen { s: h, bytes: Some((b.to_vec(), 0)) }
    }
    fn take(&mut self, n: usize) -> Option<u64> {
        if let Some((b, pos)) = &mut self.bytes {
            if *pos + n <= b.len() {
                let mut v = 0u64;
                for i in 0..n {
                    v |= (b[*pos + i] as u64) << (8 * i);
                }
                *pos += n;
                return Some(v);
            }
        }
        None
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        if self.bytes.is_some() {
            if let Some(v) = self.take(8) {
                return v;
            }
        }
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.s)
    }
    /// uniform in 0..n
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if self.bytes.is_some() {
            let k = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 8 };
            if let Some(v) = self.take(k) {
                return v % n;
            }
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        if hi_incl - lo == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len() as u64) as usize;
        &s[i]
    }
    pub fn dict(&mut self) -> u64 {
        let v = *self.pick(dict());
        match self.below(4) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            _ => v,
        }
    }

    /// A width in 1..=max, biased towards word boundaries and small widths.
    pub fn width(&mut self, max: u32) -> u32 {
        let w = match self.below(100) {
            0..=21 => self.range(1, 8),
            22..=36 => self.range(57, 72),
            37..=51 => self.range(120, 136),
            52..=63 => {
                let k = self.range(1, 20);
                (64 * k) as i64 as u64 + self.below(5) - 2
            }
            64..=86 => self.range(1, 300),
            87..=94 => self.range(1, 1100),
            95 => self.range(1, 5000),
            96..=98 => {
                let d = self.dict();
                if d > 8000 {
                    self.range(1, 64)
                } else {
                    d
                }
            }
            _ => {
                let p = self.range(3, 12);
                (1u64 << p) + self.below(3) - 1
            }
        };
        (w.max(1) as u32).min(max).max(1)
    }

    pub fn word(&mut self) -> u64 {
        match self.below(16) {
            0 | 1 => 0,
            2 | 3 => u64::MAX,
            4 => 1,
            5 => 1 << 63,
            6 => u64::MAX - 1,
            7 => (1 << 63) - 1,
            8 => 1u64 << self.below(64),
            9 => !(1u64 << self.below(64)),
            10 => self.dict(),
            11 => {
                let k = self.range(1, 63);
                u64::MAX << k
            }
            12 => {
                let k = self.range(1, 63);
                u64::MAX >> k
            }
            13 => *self.pick(&[0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0xffffffff, 0xffffffff00000000, 0x100000000, 0x80000000]),
            _ => self.u64(),
        }
    }

    pub const CLASSES: u64 = 14;
    /// words of a canonical value of width `w`, drawn from pattern class `cls`
    pub fn words_cls(&mut self, w: u32, cls: u64) -> Vec<u64> {
        let n = w.div_ceil(64) as usize;
        let mut v = vec![0u64; n];
        if n == 0 {
            return v;
        }
        let setb = |v: &mut Vec<u64>, i: u32| v[(i / 64) as usize] |= 1u64 << (i % 64);
        match cls {
            0 => {}
            1 => v[0] = 1,
            2 => v.iter_mut().for_each(|x| *x = u64::MAX),
            3 => setb(&mut v, w - 1), // most negative
            4 => {
                // most positive
                v.iter_mut().for_each(|x| *x = u64::MAX);
                let i = w - 1;
                v[(i / 64) as usize] &= !(1u64 << (i % 64));
            }
            5 => {
                let i = self.below(w as u64) as u32;
                setb(&mut v, i)
            }
            6 => {
                v.iter_mut().for_each(|x| *x = u64::MAX);
                let i = self.below(w as u64) as u32;
                v[(i / 64) as usize] &= !(1u64 << (i % 64));
            }
            7 => {
                // low run of ones
                let k = self.range(1, w as u64) as u32;
                for i in 0..n {
                    let lo = 64 * i as u32;
                    if k >= lo + 64 {
                        v[i] = u64::MAX
                    } else if k > lo {
                        v[i] = (1u64 << (k - lo)) - 1
                    }
                }
            }
            8 => {
                // high run of ones
                let k = self.below(w as u64) as u32;
                for i in 0..n {
                    let lo = 64 * i as u32;
                    if k <= lo {
                        v[i] = u64::MAX
                    } else if k < lo + 64 {
                        v[i] = u64::MAX << (k - lo)
                    }
                }
            }
            9 | 10 => v.iter_mut().for_each(|x| *x = self.word()),
            11 => {
                // mostly boundary words, 0/MAX
                v.iter_mut().for_each(|x| *x = if self.bool() { u64::MAX } else { 0 })
            }
            12 => v[0] = if self.bool() { self.word() } else { self.below(300) },
            _ => v.iter_mut().for_each(|x| *x = self.u64()),
        }
        mask_top(&mut v, w);
        v
    }
    pub fn words(&mut self, w: u32) -> Vec<u64> {
        let c = self.below(Self::CLASSES + 1);
        if c == Self::CLASSES {
            return self.decimal_words(w);
        }
        self.words_cls(w, c)
    }
    /// decimal digits in runs of zeros, nines, one digit and any digits
    pub fn decimal_digits(&mut self, n: u64) -> String {
        let mut s = String::new();
        while (s.len() as u64) < n {
            let k = (1 + if self.bool() { self.below(24) } else { self.below(90) }).min(n - s.len() as u64);
            let kind = self.below(5);
            let one = self.below(10);
            for _ in 0..k {
                let d = match kind {
                    0 | 1 => 0,
                    2 => 9,
                    3 => one,
                    _ => self.below(10),
                };
                s.push((b'0' + d as u8) as char);
            }
        }
        s
    }
    /// a value whose decimal digits have a structure
    pub fn decimal_words(&mut self, w: u32) -> Vec<u64> {
        let most = (w as u64 * 1233) >> 12;
        if most == 0 || w > 4000 {
            return self.words_cls(w, Self::CLASSES - 1);
        }
        let n = if self.chance(70) { most } else { self.range(1, most) };
        let s = self.decimal_digits(n);
        let mut v = BigUint::parse_bytes(s.as_bytes(), 10).unwrap().to_u64_digits();
        v.resize(w.div_ceil(64) as usize, 0);
        mask_top(&mut v, w);
        v
    }
    /// a value related to `a` (same width): equal, neighbours, complement, negation, one bit or word different
    pub fn related(&mut self, a: &[u64], w: u32) -> Vec<u64> {
        let mut v = a.to_vec();
        if v.is_empty() {
            return v;
        }
        match self.below(9) {
            0 => {}
            1 => {
                let i = self.below(w as u64) as u32;
                v[(i / 64) as usize] ^= 1u64 << (i % 64);
            }
            2 => {
                let i = self.below(v.len() as u64) as usize;
                v[i] = self.word();
            }
            3 => v.iter_mut().for_each(|x| *x = !*x),
            4 => {
                // + 1
                for x in v.iter_mut() {
                    let (r, c) = x.overflowing_add(1);
                    *x = r;
                    if !c {
                        break;
                    }
                }
            }
            5 => {
                // - 1
                for x in v.iter_mut() {
                    let (r, c) = x.overflowing_sub(1);
                    *x = r;
                    if !c {
                        break;
                    }
                }
            }
            6 => {
                // negate
                v.iter_mut().for_each(|x| *x = !*x);
                for x in v.iter_mut() {
                    let (r, c) = x.overflowing_add(1);
                    *x = r;
                    if !c {
                        break;
                    }
                }
            }
            7 => {
                // differ only in the top word / top bit
                let i = (w - 1) as usize;
                v[i / 64] ^= 1u64 << (i % 64);
            }
            _ => {
                // differ only in the lowest word
                v[0] = self.word();
            }
        }
        mask_top(&mut v, w);
        v
    }
    pub fn words_or_related(&mut self, a: &[u64], w: u32) -> Vec<u64> {
        if self.chance(40) {
            self.related(a, w)
        } else {
            self.words(w)
        }
    }
    /// number below 2^w, as words, biased to be an interesting shift amount for width w
    pub fn shift_amount(&mut self, w: u32) -> Vec<u64> {
        let n = w.div_ceil(64) as usize;
        let mut v = vec![0u64; n];
        let w64 = w as u64;
        let amt: u64 = match self.below(16) {
            0 => 0,
            1 => 1,
            2 => w64 - 1,
            3 => w64,
            4 => w64 + 1,
            5 | 6 => 64 * self.below(w64 / 64 + 2),
            7 => 64 * self.below(w64 / 64 + 2) + self.below(3),
            8 => (64 * self.range(1, w64 / 64 + 1)).saturating_sub(self.below(3)),
            9 => (1u64 << 32) + self.below(w64 + 2),
            10 => self.dict(),
            11 => {
                // low word is a legal amount but a higher word is set
                if n > 1 {
                    let i = self.range(1, n as u64 - 1) as usize;
                    v[i] = self.word() | 1;
                }
                self.below(w64)
            }
            12 => return self.words(w),
            _ => self.below(w64),
        };
        v[0] = amt;
        mask_top(&mut v, w);
        v
    }
    pub fn i64ish(&mut self) -> i64 {
        match self.below(8) {
            0 => self.below(16) as i64 - 8,
            1 => {
                let k = self.below(64);
                (1i64.wrapping_shl(k as u32)).wrapping_add(self.below(3) as i64 - 1)
            }
            2 => {
                let k = self.below(64);
                (1i64.wrapping_shl(k as u32)).wrapping_neg().wrapping_add(self.below(3) as i64 - 1)
            }
            3 => i64::MIN,
            4 => i64::MAX,
            _ => self.word() as i64,
        }
    }
    pub fn biguint_bits(&mut self, bits: u32) -> BigUint {
        crate::model::big(&self.words(bits))
    }
}

pub fn mask_top(v: &mut [u64], w: u32) {
    if w % 64 != 0 {
        if let Some(l) = v.last_mut() {
            *l &= (1u64 << (w % 64)) - 1;
        }
    }
}
