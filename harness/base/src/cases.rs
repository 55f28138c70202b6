//! Case generators shared by the monitors.
use oracle::gen::{steer, Words};
use oracle::{Fld, Params, Rng, L4};

pub fn bn() -> Params {
    Params::generate(&oracle::p_bn254(), 3, 8, 57, 0).unwrap()
}
#[allow(dead_code)]
pub fn pallas() -> Params {
    Params::generate(&oracle::p_pallas(), 3, 8, 56, 0).unwrap()
}

/// Capacities for messages of `len` words.
#[allow(dead_code)]
pub fn caps(len: usize, rng: &mut Rng) -> Option<u128> {
    let l = len as u128;
    match rng.below(20) {
        0..=5 => None,
        6 => Some(0),
        7 => Some(1),
        8 => Some(l),
        9 => Some(l << 64),
        10 => Some((l << 64) + 1),
        11 => Some(u64::MAX as u128),
        12 => Some(u64::MAX as u128 + 1),
        13 => Some(u64::MAX as u128 - rng.below(3) as u128),
        14 => Some(u128::MAX),
        15 => Some(u128::MAX - rng.below(3) as u128),
        16 => Some(rng.next() as u128),
        17 => Some((rng.next() as u128) << 64),
        18 => Some(1u128 << rng.below(128)),
        19 if rng.chance(1, 2) && !oracle::gen::dict().nums.is_empty() => Some(*rng.pick(&oracle::gen::dict_ints())),
        _ => Some(rng.u128()),
    }
}

/// An adversarially chosen internal target: which round, in which coordinates, and
/// the three words the state should take there.
pub struct Steer<'a> {
    pub ps: &'a Params,
    pub shift: Vec<Vec<L4>>,
}
impl<'a> Steer<'a> {
    pub fn new(ps: &'a Params) -> Self {
        Steer { ps, shift: ps.compact_shift() }
    }
    /// Input state (canonical) such that just before round r the state, seen in
    /// coordinate system `coord`, is `want` (canonical).
    /// coord 0: plain state; 1: plain state after adding the constants (S-box input);
    /// 2: state of the compact form; r = rounds() targets the output (coord 0).
    pub fn input(&self, r: usize, coord: usize, want: &[L4; 3]) -> [L4; 3] {
        let f = &self.ps.f;
        let mut w: Vec<L4> = want.to_vec();
        if r < self.ps.rounds() {
            for i in 0..3 {
                let e = f.enc(&w[i]);
                let e = match coord {
                    1 => f.sub(&e, &self.ps.rc[r][i]),
                    2 => f.add(&e, &self.shift[r][i]),
                    _ => e,
                };
                w[i] = f.dec(&e);
            }
        }
        let s = steer(self.ps, &w, r);
        [s[0], s[1], s[2]]
    }
    pub fn random(&self, w: &mut Words, rng: &mut Rng) -> ([L4; 3], usize, usize) {
        let r = rng.below(self.ps.rounds() as u64 + 1) as usize;
        let coord = rng.below(3) as usize;
        let mut t = [w.word(rng), w.word(rng), w.word(rng)];
        match rng.below(6) {
            0 => t = [t[0]; 3],
            1 => t[1] = t[0],
            2 => t[2] = self.ps.f.neg(&t[1]),
            3 => t[rng.below(3) as usize] = [0; 4],
            4 => t[rng.below(3) as usize] = [1, 0, 0, 0],
            _ => {}
        }
        (self.input(r, coord, &t), r, coord)
    }
}

/// A message of exactly `len` words in one of several styles.
pub fn message(ps: &Params, w: &mut Words, rng: &mut Rng, len: usize, cap: u128) -> Vec<L4> {
    let f: &Fld = &ps.f;
    let mut m: Vec<L4> = Vec::with_capacity(len);
    match rng.below(9) {
        0 => {
            let x = w.word(rng);
            m.resize(len, x);
        }
        1 => {
            let (x, y) = (w.word(rng), w.word(rng));
            for i in 0..len {
                m.push(if i % 2 == 0 { x } else { y });
            }
        }
        2 => {
            // periodic
            let k = rng.range(1, 9);
            let pat: Vec<L4> = (0..k).map(|_| w.word(rng)).collect();
            for i in 0..len {
                m.push(pat[i % k]);
            }
        }
        3 => {
            // all zero but one
            m.resize(len, [0; 4]);
            let i = rng.below(len as u64) as usize;
            m[i] = w.word(rng);
        }
        4 if len <= 200 => {
            // blocks that cancel or equal the carried state, or steer it to edges
            let mut st = [f.dec(&f.from_u128(cap)), [0; 4], [0; 4]];
            while m.len() < len {
                let mut blk = [[0u64; 4]; 2];
                for i in 0..2 {
                    let want = match rng.below(5) {
                        0 => [0; 4],
                        1 => st[1 + i],
                        2 => st[0],
                        3 => [1, 0, 0, 0],
                        _ => w.word(rng),
                    };
                    blk[i] = f.sub(&want, &st[1 + i]);
                }
                m.push(blk[0]);
                st[1] = f.add(&st[1], &blk[0]);
                if m.len() < len {
                    m.push(blk[1]);
                    st[2] = f.add(&st[2], &blk[1]);
                }
                st = ps.permute3(&st);
            }
        }
        5 => {
            for i in 0..len {
                m.push([i as u64 + rng.below(2), 0, 0, 0]);
            }
        }
        6 => {
            for _ in 0..len {
                m.push(f.rand_canon(rng));
            }
        }
        _ => {
            for _ in 0..len {
                m.push(w.word(rng));
            }
        }
    }
    m
}

pub fn show(v: &[L4]) -> String {
    let mut s: Vec<String> = v.iter().take(12).map(oracle::hex).collect();
    if v.len() > 12 {
        s.push(format!("... ({} words)", v.len()));
    }
    format!("[{}]", s.join(", "))
}
