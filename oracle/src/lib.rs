//! Independent reference for Poseidon: field arithmetic, Grain LFSR parameter
//! generation, the permutation and its inverse, and the sponge modes.
//!
//! Nothing here uses code or constants of the repository under test. The fast
//! implementation (4-limb Montgomery) is cross-checked against a slow one written
//! directly on big integers (`slow`), and against published vectors (`selftest`).

pub mod field;
pub mod gen;
pub mod mon;
pub mod params;
pub mod rng;
pub mod slow;

pub use field::{Fld, L4};
pub use params::Params;
pub use rng::Rng;

pub use num_bigint;
use num_bigint::BigUint;

pub fn big(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

/// BN254 scalar field modulus.
pub fn p_bn254() -> BigUint {
    BigUint::parse_bytes(
        b"21888242871839275222246405745257275088548364400416034343698204186575808495617",
        10,
    )
    .unwrap()
}
/// Pallas base field modulus.
pub fn p_pallas() -> BigUint {
    BigUint::parse_bytes(
        b"28948022309329048855892746252171976963363056481941560715954676764349967630337",
        10,
    )
    .unwrap()
}

pub fn to_l4(v: &BigUint) -> L4 {
    let d = v.to_u64_digits();
    assert!(d.len() <= 4);
    let mut o = [0u64; 4];
    o[..d.len()].copy_from_slice(&d);
    o
}
pub fn from_l4(v: &L4) -> BigUint {
    let mut b = Vec::new();
    for w in v {
        b.extend_from_slice(&w.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}
pub fn hex(v: &L4) -> String {
    format!("0x{:016x}{:016x}{:016x}{:016x}", v[3], v[2], v[1], v[0])
}

/// Cross-checks of the oracle itself. Panics when the oracle is inconsistent.
pub fn selftest(seed: u64) {
    let mut rng = Rng::new(seed ^ 0x5e1f);
    for (p, rp) in [(p_bn254(), 57), (p_pallas(), 56)] {
        let f = Fld::new(&p);
        // field arithmetic against big integers
        for _ in 0..200 {
            let (a, b) = (f.rand_canon(&mut rng), f.rand_canon(&mut rng));
            let (ba, bb) = (from_l4(&a), from_l4(&b));
            let (ma, mb) = (f.enc(&a), f.enc(&b));
            assert_eq!(from_l4(&f.dec(&f.mul(&ma, &mb))), (&ba * &bb) % &p);
            assert_eq!(from_l4(&f.dec(&f.add(&ma, &mb))), (&ba + &bb) % &p);
            assert_eq!(from_l4(&f.dec(&f.sub(&ma, &mb))), (&ba + &p - &bb) % &p);
            if a != [0; 4] {
                assert_eq!(f.mul(&f.inv(&ma), &ma), f.one());
            }
        }
        let ps = Params::generate(&p, 3, 8, rp, 0).unwrap();
        let sl = slow::Slow::generate(&p, 3, 8, rp, 0).unwrap();
        for (a, b) in ps.rc.iter().flatten().zip(sl.rc.iter().flatten()) {
            assert_eq!(&from_l4(&f.dec(a)), b);
        }
        for (a, b) in ps.mds.iter().flatten().zip(sl.mds.iter().flatten()) {
            assert_eq!(&from_l4(&f.dec(a)), b);
        }
        for _ in 0..4 {
            let st: Vec<L4> = (0..3).map(|_| f.rand_canon(&mut rng)).collect();
            let mut x: Vec<L4> = st.iter().map(|v| f.enc(v)).collect();
            ps.permute(&mut x);
            let y = sl.permute(&st.iter().map(from_l4).collect::<Vec<_>>());
            let xd: Vec<BigUint> = x.iter().map(|v| from_l4(&f.dec(v))).collect();
            assert_eq!(xd, y);
            ps.inverse_from(&mut x, ps.rounds());
            assert_eq!(x.iter().map(|v| f.dec(v)).collect::<Vec<_>>(), st);
        }
    }
    // Published values for BN254, width 3 (circomlib / iden3).
    let p = p_bn254();
    let f = Fld::new(&p);
    let ps = Params::generate(&p, 3, 8, 57, 0).unwrap();
    assert_eq!(
        from_l4(&f.dec(&ps.rc[0][0])),
        big("0ee9a592ba9a9518d05986d656f40c2114c4993c11bb29938d21d47304cd8e6e")
    );
    assert_eq!(
        from_l4(&f.dec(&ps.mds[0][0])),
        big("109b7f411ba0e4c9b2b70caf5c36a7b194be7c11ad24378bfedb68592ba8118b")
    );
    let h = |a: u64, b: u64| {
        let mut s = vec![f.zero(), f.from_u64(a), f.from_u64(b)];
        ps.permute(&mut s);
        from_l4(&f.dec(&s[0])).to_string()
    };
    assert_eq!(
        h(1, 2),
        "7853200120776062878684798364095072458815029376092732009249414926327459813530"
    );
    assert_eq!(
        h(0, 0),
        "14744269619966411208579211824598458697587494354926760081771325075741142829156"
    );
}

#[cfg(test)]
mod t {
    #[test]
    fn st() {
        super::selftest(1);
    }
}
