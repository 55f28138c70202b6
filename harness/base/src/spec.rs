//! A specification whose parameters are chosen at run time (per thread).
use halo2curves::ff::FromUniformBytes;
use oracle::Params;
use poseidon_base::primitives::{CachedSpec, Mds, Spec};
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

use crate::conv::fe;

#[derive(Clone, Copy, Debug)]
pub struct Dyn;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub rf: usize,
    pub rp: usize,
    pub sel: usize,
    pub alpha: u64,
}

thread_local! {
    static CFG: Cell<Cfg> = Cell::new(Cfg { rf: 8, rp: 56, sel: 0, alpha: 5 });
    static TAB: RefCell<HashMap<TypeId, Box<dyn Any>>> = RefCell::new(HashMap::new());
}
pub fn set(c: Cfg) {
    CFG.with(|x| x.set(c));
}

type Tab<F, const T: usize> = (&'static [[F; T]], &'static Mds<F, T>, &'static Mds<F, T>);

/// Install concrete tables (leaked: a few kB per configuration).
pub fn tables<F: FromUniformBytes<64> + Ord, const T: usize>(ps: &Params) {
    let cv = |m: &[Vec<oracle::L4>]| -> Vec<[F; T]> {
        m.iter()
            .map(|r| {
                let v: Vec<F> = r.iter().map(|x| fe(&ps.f.dec(x))).collect();
                v.try_into().unwrap()
            })
            .collect()
    };
    let rc: &'static [[F; T]] = Vec::leak(cv(&ps.rc));
    let mat = |m: &[Vec<oracle::L4>]| -> &'static Mds<F, T> {
        let a: Mds<F, T> = cv(m).try_into().unwrap();
        Box::leak(Box::new(a))
    };
    let inv = if ps.mds_inv.is_empty() { mat(&ps.mds) } else { mat(&ps.mds_inv) };
    let t: Tab<F, T> = (rc, mat(&ps.mds), inv);
    TAB.with(|x| x.borrow_mut().insert(TypeId::of::<[F; T]>(), Box::new(t)));
}
fn get<F: 'static + Copy, const T: usize>() -> Tab<F, T> {
    TAB.with(|x| *x.borrow()[&TypeId::of::<[F; T]>()].downcast_ref::<Tab<F, T>>().unwrap())
}

impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize> Spec<F, T, RATE> for Dyn {
    fn full_rounds() -> usize {
        CFG.with(|c| c.get().rf)
    }
    fn partial_rounds() -> usize {
        CFG.with(|c| c.get().rp)
    }
    fn sbox(v: F) -> F {
        v.pow_vartime([CFG.with(|c| c.get().alpha)])
    }
    fn secure_mds() -> usize {
        CFG.with(|c| c.get().sel)
    }
}
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize> CachedSpec<F, T, RATE> for Dyn {
    fn cached_round_constants() -> &'static [[F; T]] {
        get::<F, T>().0
    }
    fn cached_mds() -> &'static Mds<F, T> {
        get::<F, T>().1
    }
    fn cached_mds_inv() -> &'static Mds<F, T> {
        get::<F, T>().2
    }
}

/// Modulus of a field, as a big integer, from p - 1 = -1.
pub fn modulus<F: FromUniformBytes<64>>() -> num::BigUint {
    oracle::from_l4(&crate::conv::l4(&(-F::ONE))) + 1u8
}
pub use oracle::num_bigint as num;
