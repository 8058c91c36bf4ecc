//! Deterministic randomness and integer helpers. Nothing here depends on the code under test.
use cosmwasm_std::{Uint256, Uint512};

pub const E18: u128 = 1_000_000_000_000_000_000;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn below128(&mut self, n: u128) -> u128 {
        if n == 0 {
            return 0;
        }
        let v = ((self.next() as u128) << 64) | self.next() as u128;
        v % n
    }
    /// inclusive
    pub fn range(&mut self, a: u128, b: u128) -> u128 {
        if b <= a {
            return a;
        }
        a + self.below128(b - a + 1)
    }
    pub fn urange(&mut self, a: usize, b: usize) -> usize {
        self.range(a as u128, b as u128) as usize
    }
    /// true with probability p/100
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// roughly log-uniform in [1, max]
    pub fn logu(&mut self, max: u128) -> u128 {
        if max <= 1 {
            return 1;
        }
        let bits = 128 - max.leading_zeros() as u64;
        let b = self.below(bits) + 1;
        let hi = if b >= 128 { u128::MAX } else { (1u128 << b) - 1 };
        let lo = 1u128 << (b - 1);
        self.range(lo, hi).clamp(1, max)
    }
    /// "interesting" amounts up to max: small, round, log-uniform, near max
    pub fn amount(&mut self, max: u128) -> u128 {
        if max <= 1 {
            return 1;
        }
        match self.below(8) {
            0 => self.range(1, 10.min(max)),
            1 => {
                let mut p = 1u128;
                let n = self.below(24);
                for _ in 0..n {
                    if p > max / 10 {
                        break;
                    }
                    p *= 10;
                }
                p
            }
            2 => max,
            3 => max - self.below128(max.min(10)),
            4 => self.range(1, max),
            _ => self.logu(max),
        }
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let s: u64 = w.iter().sum();
        let mut x = self.below(s.max(1));
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
}

pub fn mix(vals: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in vals {
        h ^= *v;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
    }
    let mut r = Rng::new(h);
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub fn u256(v: u128) -> Uint256 {
    Uint256::from(v)
}

fn to128(v: Uint512) -> Option<u128> {
    v.to_string().parse().ok()
}

/// floor(a*b/c)
pub fn muldiv(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    if let Some(p) = a.checked_mul(b) {
        return Some(p / c);
    }
    to128(Uint512::from(a) * Uint512::from(b) / Uint512::from(c))
}

/// ceil(a*b/c)
pub fn muldiv_up(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    if let Some(p) = a.checked_mul(b) {
        return Some(p / c + u128::from(p % c != 0));
    }
    let p = Uint512::from(a) * Uint512::from(b);
    let c = Uint512::from(c);
    let q = p / c;
    let r = p - q * c;
    let q = if r.is_zero() { q } else { q + Uint512::one() };
    to128(q)
}

/// decimal given as 1e-18 atomics times an integer, rounded down
pub fn dmul(unit: u128, amount: u128) -> u128 {
    muldiv(unit, amount, E18).expect("amount overflow in model")
}
pub fn dmul_up(unit: u128, amount: u128) -> u128 {
    muldiv_up(unit, amount, E18).expect("amount overflow in model")
}
/// trunc(a/b) as atomics
pub fn ratio(a: u128, b: u128) -> Option<u128> {
    muldiv(a, E18, b)
}

pub fn dec_str(atomics: u128) -> String {
    let w = atomics / E18;
    let f = atomics % E18;
    if f == 0 {
        format!("{w}")
    } else {
        let s = format!("{f:018}");
        format!("{w}.{}", s.trim_end_matches('0'))
    }
}

pub fn parse_dec(s: &str) -> Option<u128> {
    let (w, f) = match s.split_once('.') {
        Some((w, f)) => (w, f),
        None => (s, ""),
    };
    if f.len() > 18 {
        return None;
    }
    let w: u128 = w.parse().ok()?;
    let mut fs = f.to_string();
    while fs.len() < 18 {
        fs.push('0');
    }
    let f: u128 = fs.parse().ok()?;
    w.checked_mul(E18)?.checked_add(f)
}

pub type Coins = Vec<(String, u128)>;

pub fn coins_str(c: &[(String, u128)]) -> String {
    let v: Vec<String> = c.iter().map(|(d, a)| format!("{a}{d}")).collect();
    format!("[{}]", v.join(","))
}
