//! A recording stand-in for `halo2_proofs` (scroll-tech fork, v1.0): the circuit-facing
//! API with the semantics of the original, and instead of a prover a recorder that keeps
//! everything the circuit did, so that monitors can judge it.
pub use halo2curves;

pub mod arithmetic {
    pub use ff::Field;
    pub use ff::PrimeField;
    pub use ff::{FromUniformBytes, WithSmallOrderMulGroup};
    pub fn parallelize<T: Send, F: Fn(&mut [T], usize) + Send + Sync + Clone>(v: &mut [T], f: F) {
        f(v, 0)
    }
}
pub mod circuit;
pub mod dev;
pub mod plonk;
pub mod poly;
pub mod rec;
pub mod knobs;
