//! First uses of the hash from several threads at once, small enough for an interpreter that
//! reports data races and undefined behaviour (Miri). Prints one line per operation.
use halo2curves::bn256::Fr;
use halo2curves::ff::PrimeField;
use poseidon_base::hash::{Hashable, HashSpec, MessageHashable};
use poseidon_base::primitives::{CachedSpec, Spec};
use std::sync::{Arc, Barrier};

fn w(n: u64) -> Fr {
    Fr::from(n) * Fr::from(0x9e37_79b9_7f4a_7c15) + Fr::from(n)
}
fn hex(x: &Fr) -> String {
    x.to_repr().iter().rev().map(|b| format!("{b:02x}")).collect()
}
fn op(k: u64) -> String {
    let a = k / 8 % 7;
    let r = match k % 8 {
        0 => vec![Fr::hash_with_domain([w(a), w(a + 1)], w(a + 2))],
        1 => vec![Fr::hash_msg(&[w(a), w(a + 1), w(a + 2)][..1 + (a as usize % 3)], None)],
        2 => {
            let mut s = [w(a), w(3), w(5)];
            Fr::hasher().permute(&mut s);
            s.to_vec()
        }
        3 => {
            let r = HashSpec::<Fr>::cached_round_constants();
            vec![r[0][0], r[4][0], r[60][2], r[64][2]]
        }
        4 => HashSpec::<Fr>::cached_mds().concat(),
        5 => HashSpec::<Fr>::cached_mds_inv().concat(),
        6 => {
            let h = Fr::msg_hasher();
            vec![h.clone().hash_with_cap(&[w(a)], a as u128), h.hash_with_cap(&[w(a), w(1)], 9)]
        }
        _ => {
            let (rc, m, _) = HashSpec::<Fr>::constants();
            vec![rc[5][0], rc[61][1], m[2][1]]
        }
    };
    format!("{k} {}", r.iter().map(hex).collect::<Vec<_>>().join(" "))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let Some(seed) = args.next() else { return };
    let seed: u64 = seed.parse().unwrap();
    let serial = args.next().as_deref() == Some("serial");
    let n = 2 + (seed % 3) as usize;
    let plan: Vec<Vec<u64>> = (0..n as u64)
        .map(|t| (0..2).map(|i| (seed.wrapping_mul(0x2545_f491_4f6c_dd1d) >> (7 * t + 3 * i + 5)) % 56).collect())
        .collect();
    let out: Vec<Vec<String>> = if serial {
        plan.iter().map(|p| p.iter().map(|k| op(*k)).collect()).collect()
    } else {
        let b = Arc::new(Barrier::new(n));
        let hs: Vec<_> = plan
            .into_iter()
            .map(|p| {
                let b = b.clone();
                std::thread::spawn(move || {
                    b.wait();
                    p.iter().map(|k| op(*k)).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    };
    for (t, o) in out.iter().enumerate() {
        for l in o {
            println!("{t} {l}");
        }
    }
}
