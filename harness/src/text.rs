//! Numerals: generator and reference parser.
use crate::gen::Gen;
use crate::model::{padded, pow2, M};
use num_bigint::{BigInt, BigUint};

#[derive(Debug, Clone)]
pub enum Exp {
    Ok(M),
    /// error; Some(kind) when the kind is determined
    Err(Option<&'static str>),
    /// unspecified: an error or exactly this value
    Either(M),
}

/// what parsing `s` at width `w` (>= 1) must do
pub fn oracle(s: &str, radix: u32, w: u32) -> Exp {
    if s.is_empty() {
        return Exp::Ok(M::new(w, BigUint::from(0u8)));
    }
    let (neg, rest) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (plus, rest) = match rest.strip_prefix('+') {
        Some(r) => (true, r),
        None => (false, rest),
    };
    if rest.is_empty() {
        return Exp::Err(Some("InvalidDigit"));
    }
    if !rest.bytes().all(|b| (b as char).is_digit(radix)) {
        let n = rest.len() as u64;
        let bits = match radix {
            2 => n,
            16 => 4 * n,
            _ => (n * 10) / 3 + 1,
        };
        // malformed and short enough that no prefix of it can exceed the width
        return Exp::Err(if bits < w as u64 && !(neg && plus) { Some("InvalidDigit") } else { None });
    }
    let mag = BigUint::parse_bytes(rest.as_bytes(), radix).expect("oracle numeral");
    let fits = if neg { mag <= pow2(w - 1) } else { mag < pow2(w) };
    if fits {
        let v = if neg { M::wrap_int(w, &-BigInt::from(mag)) } else { M::new(w, mag) };
        if neg && plus {
            Exp::Either(v)
        } else {
            Exp::Ok(v)
        }
    } else if neg && plus {
        Exp::Err(None)
    } else {
        Exp::Err(Some("ExceedsWidth"))
    }
}

/// numeral of a number that is representable at width w
pub fn fitting(g: &mut Gen, w: u32, radix: u32) -> String {
    let m = M::from_words(w, &g.words(w));
    let neg = g.chance(35);
    let mag = if neg {
        if m.neg() {
            (-m.int()).to_biguint().unwrap()
        } else if w > 1 {
            m.v.clone()
        } else {
            BigUint::from(0u8)
        }
    } else {
        m.v.clone()
    };
    let sign = if neg {
        "-"
    } else if g.chance(15) {
        "+"
    } else {
        ""
    };
    format!("{sign}{}", digits(g, &mag, radix, w))
}

fn digits(g: &mut Gen, mag: &BigUint, radix: u32, w: u32) -> String {
    let natural = match radix {
        2 => w as usize,
        16 => w.div_ceil(4) as usize,
        _ => 1,
    };
    let pad = match g.below(8) {
        0 => natural + g.below(4) as usize,
        1 => natural + g.below(150) as usize,
        2 | 3 => natural,
        _ => 1,
    };
    let s = padded(mag, radix, pad);
    if radix == 16 {
        let mode = g.below(3);
        s.chars()
            .map(|ch| match mode {
                0 => ch,
                1 => ch.to_ascii_uppercase(),
                _ => {
                    if g.bool() {
                        ch.to_ascii_uppercase()
                    } else {
                        ch
                    }
                }
            })
            .collect()
    } else {
        s
    }
}

/// any string, from well-formed to garbage
pub fn any(g: &mut Gen, w: u32, radix: u32) -> String {
    let mut s = match g.below(12) {
        0..=4 => fitting(g, w, radix),
        5..=8 => {
            // around the limits, or far beyond
            let k = match g.below(4) {
                0 => w,
                1 => w - 1,
                2 => w + g.below(80) as u32,
                _ => w.div_ceil(64) * 64,
            };
            let base: BigInt = BigInt::from(pow2(k)) + BigInt::from(g.below(5)) - 2;
            let mag = base.magnitude().clone();
            let sign = *g.pick(&["", "", "+", "-"]);
            format!("{sign}{}", digits(g, &mag, radix, w))
        }
        9 => {
            let n = g.below(24) as usize;
            let mut t = String::new();
            for _ in 0..n {
                t.push(*g.pick(&['0', '1', '1', '0', 'a', 'F', '9', '+', '-', '_', ' ', 'g', 'x', '\u{e9}', '\u{0661}', '.', '2', '/', ':', '@', 'G', '`', '\0']));
            }
            t
        }
        10 => g.pick(&["", "-", "+", "-+", "+-", "--1", "++1", "+-1", "-+1", "0", "-0", "+0", "1", "-1", "00", " 1", "1 ", "0x1", "0b1", "1_0"]).to_string(),
        _ => {
            // long run of digits
            let n = g.below(w as u64 + 80) as usize;
            let mut t = String::new();
            if g.chance(30) {
                t.push(*g.pick(&['-', '+']));
            }
            if radix == 10 && g.bool() {
                t += &g.decimal_digits(n as u64);
                return t;
            }
            for _ in 0..n {
                let d = g.below(radix as u64) as u32;
                t.push(std::char::from_digit(d, radix).unwrap());
            }
            t
        }
    };
    if g.chance(15) && !s.is_empty() {
        // corrupt one position
        let chars: Vec<char> = s.chars().collect();
        let n = chars.len() as u64;
        let i = match g.below(5) {
            0 => 0,
            1 => n,
            2 => n - 1,
            3 => 1,
            _ => g.below(n),
        } as usize;
        let bad = match g.below(5) {
            // any ASCII character, control characters included
            0 | 1 => (g.below(128) as u8 as char).to_string(),
            2 => g.pick(&['\n', '\t', '\r', '\u{a0}', '\u{200b}', '\u{feff}', '\u{2212}', '\u{660}', '\u{ff10}', '\u{ff11}', '\u{1d7ce}', '\u{b2}', '\u{131}']).to_string(),
            3 => g.pick(&["0x", "0X", "0b", "0B", "0o", "0d", "2'b", "16#", "#", "#x", "#b", "$", "h", "u8", "e1", "E0", ".0", ",", "'", "__", "-", "+", "- ", "\r\n", "inf"]).to_string(),
            _ => g.pick(&['g', 'G', '2', 'a', ' ', '_', '-', '+', '.', '/', ':', '@', '`', '\u{e9}', '\0', 'z']).to_string(),
        };
        let ins = g.bool() || i >= chars.len();
        s = String::new();
        for (k, ch) in chars.iter().enumerate() {
            if k == i {
                s.push_str(&bad);
                if !ins {
                    continue;
                }
            }
            s.push(*ch);
        }
        if i >= chars.len() {
            s.push_str(&bad);
        }
    }
    s
}
