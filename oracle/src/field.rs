//! Prime field arithmetic on four 64-bit limbs (Montgomery form, R = 2^256).
use crate::{from_l4, to_l4, Rng};
use num_bigint::BigUint;

pub type L4 = [u64; 4];

#[derive(Clone, Debug)]
pub struct Fld {
    pub p: L4,
    pub pbig: BigUint,
    pub bits: usize,
    ninv: u64,
    r2: L4,
    one: L4,
    /// 1/5 modulo p-1, when it exists
    fifth: Option<L4>,
}

fn geq(a: &L4, b: &L4) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &L4, b: &L4) -> (L4, bool) {
    let mut o = [0u64; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        o[i] = x;
        br = b1 | b2;
    }
    (o, br)
}
fn add_raw(a: &L4, b: &L4) -> (L4, bool) {
    let mut o = [0u64; 4];
    let mut c = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (x, c2) = x.overflowing_add(c as u64);
        o[i] = x;
        c = c1 | c2;
    }
    (o, c)
}

impl Fld {
    pub fn new(p: &BigUint) -> Self {
        let pl = to_l4(p);
        assert!(pl[0] & 1 == 1);
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(pl[0].wrapping_mul(inv)));
        }
        let r = BigUint::from(1u8) << 256;
        let pm1 = p - 1u8;
        // inverse of 5 modulo p-1, by search over k: (k (p-1) + 1) / 5
        let fifth = (0u8..5).find_map(|k| {
            let n = &pm1 * k + 1u8;
            if &n % 5u8 == BigUint::from(0u8) {
                Some(to_l4(&((n / 5u8) % &pm1)))
            } else {
                None
            }
        });
        Fld {
            p: pl,
            pbig: p.clone(),
            bits: p.bits() as usize,
            ninv: inv.wrapping_neg(),
            r2: to_l4(&((&r * &r) % p)),
            one: to_l4(&(&r % p)),
            fifth,
        }
    }
    pub fn zero(&self) -> L4 {
        [0; 4]
    }
    pub fn one(&self) -> L4 {
        self.one
    }
    #[inline]
    pub fn add(&self, a: &L4, b: &L4) -> L4 {
        let (s, c) = add_raw(a, b);
        if c || geq(&s, &self.p) {
            sub_raw(&s, &self.p).0
        } else {
            s
        }
    }
    #[inline]
    pub fn sub(&self, a: &L4, b: &L4) -> L4 {
        let (d, br) = sub_raw(a, b);
        if br {
            add_raw(&d, &self.p).0
        } else {
            d
        }
    }
    pub fn neg(&self, a: &L4) -> L4 {
        self.sub(&[0; 4], a)
    }
    #[inline]
    pub fn mul(&self, a: &L4, b: &L4) -> L4 {
        let p = &self.p;
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let x = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
                t[j] = x as u64;
                c = x >> 64;
            }
            let x = t[4] as u128 + c;
            t[4] = x as u64;
            t[5] = (x >> 64) as u64;
            let m = t[0].wrapping_mul(self.ninv);
            let mut c = (t[0] as u128 + m as u128 * p[0] as u128) >> 64;
            for j in 1..4 {
                let x = t[j] as u128 + m as u128 * p[j] as u128 + c;
                t[j - 1] = x as u64;
                c = x >> 64;
            }
            let x = t[4] as u128 + c;
            t[3] = x as u64;
            t[4] = t[5] + (x >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, p) {
            sub_raw(&r, p).0
        } else {
            r
        }
    }
    #[inline]
    pub fn sq(&self, a: &L4) -> L4 {
        self.mul(a, a)
    }
    #[inline]
    pub fn pow5(&self, a: &L4) -> L4 {
        let b = self.sq(a);
        self.mul(&self.sq(&b), a)
    }
    /// Encode a canonical value (< p).
    pub fn enc(&self, a: &L4) -> L4 {
        assert!(!geq(a, &self.p), "value not canonical");
        self.mul(a, &self.r2)
    }
    /// Decode to the canonical value.
    pub fn dec(&self, a: &L4) -> L4 {
        self.mul(a, &[1, 0, 0, 0])
    }
    pub fn from_u64(&self, v: u64) -> L4 {
        self.from_big(&BigUint::from(v))
    }
    pub fn from_u128(&self, v: u128) -> L4 {
        self.from_big(&BigUint::from(v))
    }
    pub fn from_big(&self, v: &BigUint) -> L4 {
        self.enc(&to_l4(&(v % &self.pbig)))
    }
    pub fn pow(&self, a: &L4, e: &L4) -> L4 {
        let mut r = self.one;
        for i in (0..256).rev() {
            r = self.sq(&r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &L4) -> L4 {
        let e = to_l4(&(&self.pbig - 2u8));
        self.pow(a, &e)
    }
    pub fn root5(&self, a: &L4) -> L4 {
        self.pow(a, &self.fifth.expect("x^5 is not a permutation of this field"))
    }
    /// Uniform canonical value.
    pub fn rand_canon(&self, rng: &mut Rng) -> L4 {
        loop {
            let mut v = [rng.next(), rng.next(), rng.next(), rng.next()];
            let top = self.bits;
            for i in 0..4 {
                let lo = i * 64;
                if top <= lo {
                    v[i] = 0;
                } else if top < lo + 64 {
                    v[i] &= (1u64 << (top - lo)) - 1;
                }
            }
            if !geq(&v, &self.p) {
                return v;
            }
        }
    }
    /// Reduce any 256-bit value to canonical form.
    pub fn reduce(&self, v: &L4) -> L4 {
        to_l4(&(from_l4(v) % &self.pbig))
    }
}
