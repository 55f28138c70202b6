//! A second, deliberately naive implementation on big integers, used only to
//! cross-check the fast one.
use num_bigint::BigUint;

pub struct Slow {
    p: BigUint,
    t: usize,
    rf: usize,
    rp: usize,
    pub rc: Vec<Vec<BigUint>>,
    pub mds: Vec<Vec<BigUint>>,
}

struct Bits(Vec<u8>, usize);
impl Bits {
    fn new(n: usize, t: usize, rf: usize, rp: usize) -> Self {
        let s = format!("01{:04b}{:012b}{:012b}{:010b}{:010b}{}", 0, n, t, rf, rp, "1".repeat(30));
        assert_eq!(s.len(), 80);
        Bits(s.bytes().map(|c| c - b'0').collect(), 80 + 160)
    }
    fn at(&mut self, i: usize) -> u8 {
        while self.0.len() <= i {
            let k = self.0.len() - 80;
            let b = &self.0;
            let n = b[k + 62] ^ b[k + 51] ^ b[k + 38] ^ b[k + 23] ^ b[k + 13] ^ b[k];
            self.0.push(n);
        }
        self.0[i]
    }
    fn bit(&mut self) -> u8 {
        loop {
            let (a, b) = (self.at(self.1), self.at(self.1 + 1));
            self.1 += 2;
            if a == 1 {
                return b;
            }
        }
    }
    fn int(&mut self, n: usize) -> BigUint {
        let s: Vec<u8> = (0..n).map(|_| self.bit() + b'0').collect();
        BigUint::parse_bytes(&s, 2).unwrap()
    }
}

impl Slow {
    pub fn generate(p: &BigUint, t: usize, rf: usize, rp: usize, sel: usize) -> Option<Self> {
        let n = p.bits() as usize;
        let mut g = Bits::new(n, t, rf, rp);
        let rc = (0..rf + rp)
            .map(|_| {
                (0..t)
                    .map(|_| loop {
                        let v = g.int(n);
                        if v < *p {
                            break v;
                        }
                    })
                    .collect()
            })
            .collect();
        let mut k = 0;
        loop {
            let v: Vec<BigUint> = (0..2 * t).map(|_| g.int(n) % p).collect();
            if (0..2 * t).any(|i| (0..i).any(|j| v[i] == v[j])) {
                continue;
            }
            if k < sel {
                k += 1;
                continue;
            }
            let e = p - 2u8;
            let mut mds = vec![];
            for i in 0..t {
                let mut row = vec![];
                for j in 0..t {
                    let s = (&v[i] + &v[t + j]) % p;
                    if s == BigUint::from(0u8) {
                        return None;
                    }
                    row.push(s.modpow(&e, p));
                }
                mds.push(row);
            }
            return Some(Slow { p: p.clone(), t, rf, rp, rc, mds });
        }
    }
    pub fn permute(&self, s: &[BigUint]) -> Vec<BigUint> {
        let five = BigUint::from(5u8);
        let mut s = s.to_vec();
        for r in 0..self.rf + self.rp {
            for i in 0..self.t {
                s[i] = (&s[i] + &self.rc[r][i]) % &self.p;
            }
            let partial = r >= self.rf / 2 && r < self.rf / 2 + self.rp;
            let n = if partial { 1 } else { self.t };
            for w in s.iter_mut().take(n) {
                *w = w.modpow(&five, &self.p);
            }
            s = (0..self.t)
                .map(|i| (0..self.t).map(|j| &self.mds[i][j] * &s[j]).sum::<BigUint>() % &self.p)
                .collect();
        }
        s
    }
}
