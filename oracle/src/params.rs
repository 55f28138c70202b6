//! Poseidon parameters from the reference Grain procedure, the permutation, its
//! inverse, and the sponge (all on Montgomery-form words).
use crate::{Fld, L4};
use num_bigint::BigUint;

/// The 80-bit Grain LFSR of the Poseidon paper, one bit at a time.
pub struct GrainLfsr {
    s: u128, // bit 79 is b_0 (oldest)
}
impl GrainLfsr {
    /// field: 1 = prime field; sbox: 0 = x^alpha
    pub fn new(nbits: u64, t: u64, rf: u64, rp: u64) -> Self {
        let mut s: u128 = 0;
        for (v, w) in [(1u64, 2), (0, 4), (nbits, 12), (t, 12), (rf, 10), (rp, 10)] {
            s = (s << w) | (v & ((1 << w) - 1)) as u128;
        }
        s = (s << 30) | ((1u128 << 30) - 1);
        let mut g = GrainLfsr { s };
        for _ in 0..160 {
            g.raw();
        }
        g
    }
    fn raw(&mut self) -> bool {
        let b = |i: u32| (self.s >> (79 - i)) & 1;
        let n = b(62) ^ b(51) ^ b(38) ^ b(23) ^ b(13) ^ b(0);
        self.s = ((self.s << 1) | n) & ((1u128 << 80) - 1);
        n == 1
    }
    pub fn bit(&mut self) -> bool {
        loop {
            let a = self.raw();
            let b = self.raw();
            if a {
                return b;
            }
        }
    }
    pub fn int(&mut self, nbits: usize) -> BigUint {
        let mut v = BigUint::from(0u8);
        for _ in 0..nbits {
            v = (v << 1) + BigUint::from(self.bit() as u8);
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    pub f: Fld,
    pub t: usize,
    pub rf: usize,
    pub rp: usize,
    /// exponent of the S-box (5 unless a caller changes it)
    pub alpha: u64,
    pub rc: Vec<Vec<L4>>,
    pub mds: Vec<Vec<L4>>,
    pub mds_inv: Vec<Vec<L4>>,
}

impl Params {
    /// `None` when the selected matrix has a zero denominator (the procedure is
    /// undefined there and the caller must pick another index).
    pub fn generate(p: &BigUint, t: usize, rf: usize, rp: usize, select: usize) -> Option<Self> {
        let f = Fld::new(p);
        let n = f.bits;
        let mut g = GrainLfsr::new(n as u64, t as u64, rf as u64, rp as u64);
        let mut rc = Vec::new();
        for _ in 0..rf + rp {
            let mut row = Vec::new();
            while row.len() < t {
                let v = g.int(n);
                if &v < p {
                    row.push(f.from_big(&v));
                }
            }
            rc.push(row);
        }
        let mut left = select;
        let (xs, ys) = loop {
            let vals: Vec<BigUint> = (0..2 * t).map(|_| g.int(n) % p).collect();
            let mut u = vals.clone();
            u.sort();
            u.dedup();
            if u.len() != vals.len() {
                continue;
            }
            if left > 0 {
                left -= 1;
                continue;
            }
            break (vals[..t].to_vec(), vals[t..].to_vec());
        };
        let mut mds = vec![vec![f.zero(); t]; t];
        for i in 0..t {
            for j in 0..t {
                let s = f.from_big(&((&xs[i] + &ys[j]) % p));
                if s == f.zero() {
                    return None;
                }
                mds[i][j] = f.inv(&s);
            }
        }
        let mds_inv = invert(&f, &mds).expect("a Cauchy matrix is invertible");
        Some(Params { f, t, rf, rp, alpha: 5, rc, mds, mds_inv })
    }
    /// Any caller-chosen parameters (the matrix must be invertible for inverses).
    pub fn custom(
        f: &Fld, t: usize, rf: usize, rp: usize, alpha: u64, rc: Vec<Vec<L4>>, mds: Vec<Vec<L4>>,
    ) -> Self {
        let mds_inv = invert(f, &mds).unwrap_or_default();
        Params { f: f.clone(), t, rf, rp, alpha, rc, mds, mds_inv }
    }
    /// For the equivalent form whose partial rounds carry a single constant: the
    /// (Montgomery-form) difference between the plain state and that form's state
    /// just before each round.
    pub fn compact_shift(&self) -> Vec<Vec<L4>> {
        let f = &self.f;
        let mut d = vec![f.zero(); self.t];
        let mut out = vec![];
        for r in 0..self.rounds() {
            out.push(d.clone());
            if !self.full(r) {
                let mut x: Vec<L4> =
                    (0..self.t).map(|i| f.add(&d[i], &self.rc[r][i])).collect();
                x[0] = f.zero();
                Self::matvec(f, &self.mds, &mut x);
                d = x;
            } else {
                d = vec![f.zero(); self.t];
            }
        }
        out
    }
    pub fn rounds(&self) -> usize {
        self.rf + self.rp
    }
    fn full(&self, r: usize) -> bool {
        r < self.rf / 2 || r >= self.rf / 2 + self.rp
    }
    fn matvec(f: &Fld, m: &[Vec<L4>], s: &mut [L4]) {
        let o: Vec<L4> = m
            .iter()
            .map(|row| {
                row.iter().zip(s.iter()).fold(f.zero(), |acc, (a, b)| f.add(&acc, &f.mul(a, b)))
            })
            .collect();
        s.copy_from_slice(&o);
    }
    fn sbox(&self, w: &L4) -> L4 {
        if self.alpha == 5 {
            self.f.pow5(w)
        } else {
            self.f.pow(w, &[self.alpha, 0, 0, 0])
        }
    }
    pub fn round(&self, s: &mut [L4], r: usize) {
        let f = &self.f;
        for (i, w) in s.iter_mut().enumerate() {
            *w = f.add(w, &self.rc[r][i]);
            if i == 0 || self.full(r) {
                *w = self.sbox(w);
            }
        }
        Self::matvec(f, &self.mds, s);
    }
    pub fn permute(&self, s: &mut [L4]) {
        for r in 0..self.rounds() {
            self.round(s, r);
        }
    }
    /// Undo rounds `upto-1 .. 0`: from the state before round `upto`, the input.
    pub fn inverse_from(&self, s: &mut [L4], upto: usize) {
        assert_eq!(self.alpha, 5);
        let f = &self.f;
        for r in (0..upto).rev() {
            Self::matvec(f, &self.mds_inv, s);
            for (i, w) in s.iter_mut().enumerate() {
                if i == 0 || self.full(r) {
                    *w = f.root5(w);
                }
                *w = f.sub(w, &self.rc[r][i]);
            }
        }
    }
    /// Width-3 permutation on canonical words.
    pub fn permute3(&self, st: &[L4; 3]) -> [L4; 3] {
        let f = &self.f;
        let mut s = [f.enc(&st[0]), f.enc(&st[1]), f.enc(&st[2])];
        for r in 0..self.rounds() {
            let full = self.full(r);
            for i in 0..3 {
                s[i] = f.add(&s[i], &self.rc[r][i]);
                if i == 0 || full {
                    s[i] = f.pow5(&s[i]);
                }
            }
            let m = &self.mds;
            let mut o = [[0u64; 4]; 3];
            for i in 0..3 {
                o[i] = f.add(
                    &f.add(&f.mul(&m[i][0], &s[0]), &f.mul(&m[i][1], &s[1])),
                    &f.mul(&m[i][2], &s[2]),
                );
            }
            s = o;
        }
        [f.dec(&s[0]), f.dec(&s[1]), f.dec(&s[2])]
    }
    /// Add canonical values.
    pub fn addc(&self, a: &L4, b: &L4) -> L4 {
        self.f.add(a, b) // valid on any representation below p
    }
    /// Two-to-one hash on canonical words.
    pub fn hash2(&self, a: &L4, b: &L4, d: &L4) -> L4 {
        self.permute3(&[*d, *a, *b])[0]
    }
    /// Variable-length message hash (width 3), canonical words; every state after
    /// each block is returned.
    pub fn hash_msg_states(&self, msg: &[L4], cap: u128) -> Vec<[L4; 3]> {
        let mut st = [self.f.dec(&self.f.from_u128(cap)), [0; 4], [0; 4]];
        let mut out = vec![];
        for ch in msg.chunks(2) {
            st[1] = self.addc(&st[1], &ch[0]);
            if ch.len() > 1 {
                st[2] = self.addc(&st[2], &ch[1]);
            }
            st = self.permute3(&st);
            out.push(st);
        }
        out
    }
    pub fn hash_msg(&self, msg: &[L4], cap: u128) -> L4 {
        self.hash_msg_states(msg, cap).last().unwrap()[0]
    }
    /// Generic sponge on canonical words: `cap_at` is the index of the capacity
    /// word, `first` the index of the first rate word.
    pub fn sponge(&self, rate: usize, cap_at: usize, first: usize, cap: &L4, msg: &[L4]) -> Vec<L4> {
        let f = &self.f;
        let mut st = vec![f.zero(); self.t];
        st[cap_at] = f.enc(cap);
        for ch in msg.chunks(rate) {
            for (i, w) in ch.iter().enumerate() {
                st[first + i] = f.add(&st[first + i], &f.enc(w));
            }
            self.permute(&mut st);
        }
        st.iter().map(|w| f.dec(w)).collect()
    }
}

pub fn invert(f: &Fld, m: &[Vec<L4>]) -> Option<Vec<Vec<L4>>> {
    let n = m.len();
    let mut a: Vec<Vec<L4>> = m.to_vec();
    let mut b: Vec<Vec<L4>> = (0..n)
        .map(|i| (0..n).map(|j| if i == j { f.one() } else { f.zero() }).collect())
        .collect();
    for c in 0..n {
        let piv = (c..n).find(|&r| a[r][c] != f.zero())?;
        a.swap(c, piv);
        b.swap(c, piv);
        let iv = f.inv(&a[c][c]);
        for j in 0..n {
            a[c][j] = f.mul(&a[c][j], &iv);
            b[c][j] = f.mul(&b[c][j], &iv);
        }
        for r in 0..n {
            if r != c && a[r][c] != f.zero() {
                let k = a[r][c];
                for j in 0..n {
                    let x = f.mul(&k, &a[c][j]);
                    a[r][j] = f.sub(&a[r][j], &x);
                    let y = f.mul(&k, &b[c][j]);
                    b[r][j] = f.sub(&b[r][j], &y);
                }
            }
        }
    }
    Some(b)
}
