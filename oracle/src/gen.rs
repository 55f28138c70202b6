//! Generators of field words: edge values, limb patterns, small pools.
use crate::{Fld, Params, Rng, L4};
use num_bigint::BigUint;

/// Fixed edge values of a field, canonical.
pub fn edges(f: &Fld) -> Vec<L4> {
    let p = &f.pbig;
    let one = BigUint::from(1u8);
    let mut v: Vec<BigUint> = vec![];
    for k in 0u32..6 {
        v.push(BigUint::from(k));
        v.push(p - 1u8 - k);
    }
    let half: BigUint = (p - 1u8) >> 1;
    v.push(half.clone());
    v.push(&half + 1u8);
    for b in [
        1usize, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 129, 191, 192, 193, 223, 247,
        248, 250, 251, 252, 253,
    ] {
        if b < f.bits {
            let x = &one << b;
            v.push(&x - 1u8);
            v.push(x.clone());
            v.push(&x + 1u8);
            if x < *p {
                v.push(p - &x);
            }
        }
    }
    // the values used around capacities and remaining-length controls
    for k in [2u64, 31, 32, 62, 63, 64, 124, 256] {
        v.push(BigUint::from(k));
        v.push(BigUint::from(k) << 64);
    }
    // Montgomery artefacts: R, R^2, R^-1
    let r: BigUint = (&one << 256usize) % p;
    v.push(r.clone());
    v.push((&r * &r) % p);
    v.push(r.modpow(&(p - 2u8), p));
    // bytes repeated
    for byte in [0x01u8, 0x0f, 0x55, 0x7f, 0x80, 0xaa, 0xff] {
        v.push(BigUint::from_bytes_be(&[byte; 31]) % p);
    }
    let mut out: Vec<L4> = v.iter().map(|x| crate::to_l4(&(x % p))).collect();
    out.sort();
    out.dedup();
    out
}

/// Extra values to try, found in the sources under test (see check.py); they only
/// widen the workload.
#[derive(Default)]
pub struct Dict {
    pub nums: Vec<u128>,
    pub words: Vec<L4>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let Some(t) = std::env::var_os("VERIF_DICT").and_then(|p| std::fs::read_to_string(p).ok()) else {
            return d;
        };
        for l in t.lines() {
            match l.split_once(' ') {
                Some(("n", x)) => d.nums.extend(u128::from_str_radix(x, 16)),
                Some(("w", x)) => d.words.extend(BigUint::parse_bytes(x.as_bytes(), 16).map(|v| crate::to_l4(&v))),
                _ => {}
            }
        }
        d
    })
}
/// Lengths the dictionary suggests, up to `max`.
pub fn dict_lens(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for n in &dict().nums {
        if *n <= max as u128 {
            let n = *n as usize;
            v.extend([n.saturating_sub(1), n, n + 1, (2 * n).saturating_sub(1), 2 * n, 2 * n + 1, n / 2, n * 8]);
            if n < 20 {
                v.push(1 << n);
            }
        }
    }
    v.retain(|n| *n >= 1 && *n <= max);
    v.sort();
    v.dedup();
    v
}
/// Integers the dictionary suggests, and their neighbours.
pub fn dict_ints() -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    for n in &dict().nums {
        v.extend([*n, n.wrapping_sub(1), n.wrapping_add(1), n << 64]);
        if *n < 128 {
            v.extend([1u128 << n, (1u128 << n) - 1]);
        }
    }
    v.sort();
    v.dedup();
    v
}
/// Canonical words the dictionary suggests in field `f`.
pub fn dict_words(f: &Fld) -> Vec<L4> {
    let p = &f.pbig;
    let mut v: Vec<BigUint> = vec![];
    for n in dict_ints() {
        let b = BigUint::from(n);
        v.push(&b % p);
        if n < 1 << 64 {
            v.push((&b << 128usize) % p);
            v.push((&b << 192usize) % p);
        }
        v.push((p - &b % p) % p);
    }
    for n in &dict().nums {
        if *n < 256 {
            v.push((BigUint::from(1u8) << *n as usize) % p);
        }
    }
    for w in &dict().words {
        v.push(crate::from_l4(w) % p);
        v.push((p - crate::from_l4(w) % p) % p);
    }
    let mut out: Vec<L4> = v.iter().map(crate::to_l4).collect();
    out.sort();
    out.dedup();
    out
}

/// Word generator with a memory, so that values recur in combination.
pub struct Words {
    pub f: Fld,
    pub edges: Vec<L4>,
    pub dict: Vec<L4>,
    pub pool: Vec<L4>,
}
impl Words {
    pub fn new(f: &Fld) -> Self {
        Words { f: f.clone(), edges: edges(f), dict: dict_words(f), pool: vec![] }
    }
    pub fn remember(&mut self, v: L4, rng: &mut Rng) {
        if self.pool.len() < 64 {
            self.pool.push(v);
        } else {
            let i = rng.below(64) as usize;
            self.pool[i] = v;
        }
    }
    pub fn limbs(&self, rng: &mut Rng) -> L4 {
        // limb mixes: two values often share some limbs
        loop {
            let mut v = [0u64; 4];
            for w in v.iter_mut() {
                *w = match rng.below(7) {
                    0 | 1 => 0,
                    2 => u64::MAX,
                    3 => 1,
                    4 => 1 << 63,
                    5 => rng.below(256),
                    _ => rng.next(),
                };
            }
            let r = self.f.reduce(&v);
            if r == v || rng.chance(1, 3) {
                return r;
            }
        }
    }
    pub fn word(&mut self, rng: &mut Rng) -> L4 {
        let v = match rng.below(18) {
            16 if !self.dict.is_empty() => *rng.pick(&self.dict),
            0..=4 => *rng.pick(&self.edges),
            5 | 6 if !self.pool.is_empty() => *rng.pick(&self.pool),
            7 if !self.pool.is_empty() => {
                // neighbour of a pooled value: one bit, one limb, +-1 or negation
                let mut x = *rng.pick(&self.pool);
                match rng.below(4) {
                    0 => {
                        let b = rng.below(256) as usize;
                        x[b / 64] ^= 1 << (b % 64);
                    }
                    1 => x[rng.below(4) as usize] = rng.next(),
                    2 => x = crate::to_l4(&((crate::from_l4(&x) + 1u8) % &self.f.pbig)),
                    _ => x = self.f.neg(&x),
                }
                self.f.reduce(&x)
            }
            8 | 9 => self.limbs(rng),
            10 => self.f.reduce(&[rng.below(1000), 0, 0, 0]),
            11 => self.f.reduce(&[0, rng.below(1000), 0, 0]),
            _ => self.f.rand_canon(rng),
        };
        if rng.chance(1, 4) {
            self.remember(v, rng);
        }
        v
    }
}

/// A canonical input state whose state just before round `r` (r = rounds() gives
/// the output state) equals `target` (canonical).
pub fn steer(ps: &Params, target: &[L4], r: usize) -> Vec<L4> {
    let f = &ps.f;
    let mut s: Vec<L4> = target.iter().map(|v| f.enc(v)).collect();
    ps.inverse_from(&mut s, r);
    s.iter().map(|v| f.dec(v)).collect()
}

/// A canonical input state with words of interest (zero, one, equal, opposite, extreme)
/// somewhere inside the permutation: in the plain state before a round, in what enters
/// that round's S-boxes, in the compact form's state, or in the output.
pub fn steer_any(ps: &Params, w: &mut Words, rng: &mut Rng) -> Vec<L4> {
    let f = &ps.f;
    let r = rng.below(ps.rounds() as u64 + 1) as usize;
    let mut want: Vec<L4> = (0..ps.t).map(|_| w.word(rng)).collect();
    let i = rng.below(ps.t as u64) as usize;
    match rng.below(7) {
        0 => want = vec![want[0]; ps.t],
        1 => want[i] = f.neg(&want[0]),
        2 | 3 => want[0] = [0; 4],
        4 => want[i] = [0; 4],
        5 => want[i] = [1, 0, 0, 0],
        _ => {}
    }
    if r < ps.rounds() {
        let coord = rng.below(4);
        let shift = if coord == 3 { ps.compact_shift() } else { vec![] };
        for (i, x) in want.iter_mut().enumerate() {
            *x = match coord {
                1 | 2 => f.dec(&f.sub(&f.enc(x), &ps.rc[r][i])),
                3 => f.dec(&f.add(&f.enc(x), &shift[r][i])),
                _ => *x,
            };
        }
    }
    steer(ps, &want, r)
}
