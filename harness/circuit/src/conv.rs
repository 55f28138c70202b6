//! Canonical limbs <-> field elements of the code under test.
use ff::PrimeField;
use oracle::L4;

pub fn fe<F: PrimeField>(v: &L4) -> F {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&v[i].to_le_bytes());
    }
    let mut r = F::Repr::default();
    let n = r.as_ref().len().min(32);
    assert!(b[n..].iter().all(|x| *x == 0));
    r.as_mut()[..n].copy_from_slice(&b[..n]);
    Option::<F>::from(F::from_repr(r)).expect("canonical")
}
pub fn l4<F: PrimeField>(v: &F) -> L4 {
    let r = v.to_repr();
    let s = r.as_ref();
    let mut b = [0u8; 32];
    b[..s.len()].copy_from_slice(s);
    let mut o = [0u64; 4];
    for i in 0..4 {
        o[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    o
}
pub fn st3<F: PrimeField>(s: &[L4; 3]) -> [F; 3] {
    [fe(&s[0]), fe(&s[1]), fe(&s[2])]
}
pub fn un3<F: PrimeField>(s: &[F; 3]) -> [L4; 3] {
    [l4(&s[0]), l4(&s[1]), l4(&s[2])]
}
