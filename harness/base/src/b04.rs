//! B04: every exposed copy of the fixed parameters, under different first-use orders.
use crate::cases::bn;
use crate::conv::{l4, st3, un3};
use crate::Ctx;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, PrimeField};
use oracle::mon::{guard, Mon};
use oracle::{Params, Rng, L4};
use poseidon_base::hash::{Hashable, MessageHashable};
use poseidon_base::params::{self, CachedConstants, Mds};
use poseidon_base::primitives::{
    permute, CachedSpec, P128Pow5T3, P128Pow5T3Compact, P128Pow5T3Constants, Spec,
};

type Rc<F> = Vec<[F; 3]>;

fn mat_eq<F: PrimeField>(m: &Mds<F>, w: &[Vec<L4>], ps: &Params) -> Option<(usize, usize)> {
    for i in 0..3 {
        for j in 0..3 {
            if l4(&m[i][j]) != ps.f.dec(&w[i][j]) {
                return Some((i, j));
            }
        }
    }
    None
}

fn check_mats<F: PrimeField>(m: &mut Mon, what: &str, ps: &Params, mds: &Mds<F>, inv: Option<&Mds<F>>) {
    m.seen(&("mds", what));
    m.count("matrix_entries", 9);
    if let Some((i, j)) = mat_eq(mds, &ps.mds, ps) {
        m.violation("mds", format!("{what}: MDS entry {i},{j} = {} expected {}", oracle::hex(&l4(&mds[i][j])), oracle::hex(&ps.f.dec(&ps.mds[i][j]))));
    }
    if let Some(inv) = inv {
        m.seen(&("inv", what));
        m.count("matrix_entries", 9);
        if let Some((i, j)) = mat_eq(inv, &ps.mds_inv, ps) {
            m.violation("mds-inverse", format!("{what}: inverse MDS entry {i},{j} = {} expected {}", oracle::hex(&l4(&inv[i][j])), oracle::hex(&ps.f.dec(&ps.mds_inv[i][j]))));
        }
    }
}

fn check_raw<F: PrimeField>(m: &mut Mon, what: &str, ps: &Params, rc: &[[F; 3]]) {
    m.seen(&("raw", what));
    if rc.len() != ps.rounds() {
        m.violation("round-constant-rows", format!("{what}: {} rows", rc.len()));
        return;
    }
    for r in 0..rc.len() {
        for i in 0..3 {
            m.count("round_constants", 1);
            if l4(&rc[r][i]) != ps.f.dec(&ps.rc[r][i]) {
                m.violation("round-constant", format!("{what}: round {r} word {i} = {} expected {}", oracle::hex(&l4(&rc[r][i])), oracle::hex(&ps.f.dec(&ps.rc[r][i]))));
                return;
            }
        }
    }
}

/// Compact constants: rc'[r] = rc[r] + shift[r], zero in the linear positions of
/// partial rounds.
fn check_compact<F: PrimeField>(m: &mut Mon, what: &str, ps: &Params, rc: &[[F; 3]]) {
    m.seen(&("compact", what));
    if rc.len() != ps.rounds() {
        m.violation("round-constant-rows", format!("{what}: {} rows", rc.len()));
        return;
    }
    let sh = ps.compact_shift();
    for r in 0..rc.len() {
        let partial = r >= ps.rf / 2 && r < ps.rf / 2 + ps.rp;
        for i in 0..3 {
            let want = if partial && i > 0 { [0; 4] } else { ps.f.dec(&ps.f.add(&ps.rc[r][i], &sh[r][i])) };
            m.count("round_constants", 1);
            if l4(&rc[r][i]) != want {
                m.violation("compact-constant", format!("{what}: round {r} word {i} = {} expected {}", oracle::hex(&l4(&rc[r][i])), oracle::hex(&want)));
                return;
            }
        }
    }
}

/// A table that may be in either form (the cached one of the raw configuration).
fn check_equiv<F: P128Pow5T3Constants, S: Spec<F, 3, 2>>(m: &mut Mon, what: &str, ps: &Params, rc: &[[F; 3]], mds: &Mds<F>, rng: &mut Rng) {
    if rc.len() != ps.rounds() {
        m.violation("round-constant-rows", format!("{what}: {} rows", rc.len()));
        return;
    }
    for _ in 0..8 {
        let s = [ps.f.rand_canon(rng), ps.f.rand_canon(rng), ps.f.rand_canon(rng)];
        let mut x: [F; 3] = st3(&s);
        let r = guard(|| permute::<F, S, 3, 2>(&mut x, mds, rc));
        m.seen(&("equivalent", what, s));
        m.count("equivalence_probes", 1);
        if r.is_err() || un3(&x) != ps.permute3(&s) {
            m.violation("equivalence", format!("{what}: the table does not give the standard permutation on {}", crate::cases::show(&s)));
        }
    }
}

fn touch(k: usize) -> Result<(), String> {
    type S = <Fr as Hashable>::SpecType;
    guard(|| match k {
        0 => drop(<Fr as Hashable>::hasher()),
        1 => drop(<Fr as MessageHashable>::msg_hasher()),
        2 => drop(Fr::hash_with_domain([Fr::ONE, Fr::ONE], Fr::ZERO)),
        3 => drop(Fr::hash_msg(&[Fr::ONE; 3], None)),
        4 => drop(params::round_constant::<Fr>(64)),
        5 => drop(params::mds::<Fr>()),
        6 => drop(<Fr as CachedConstants>::cached_mds_inv()),
        7 => drop(<P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants()),
        8 => drop(<P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants()),
        9 => drop(<S as CachedSpec<Fr, 3, 2>>::cached_round_constants()),
        10 => drop(<Fr as P128Pow5T3Constants>::mds_inv()),
        _ => drop(<Fr as P128Pow5T3Constants>::round_constants()),
    })
}

fn field_views<F: P128Pow5T3Constants>(m: &mut Mon, name: &str, ps: &Params, rng: &mut Rng) {
    let mut all = || -> Result<(), String> {
        check_raw(m, &format!("{name} raw accessor"), ps, &guard(F::round_constants)?);
        check_mats(m, &format!("{name} raw accessor"), ps, &guard(F::mds)?, Some(&guard(F::mds_inv)?));
        let (rc, mds, inv): (Rc<F>, Mds<F>, Mds<F>) = guard(<P128Pow5T3<F> as Spec<F, 3, 2>>::constants)?;
        check_raw(m, &format!("{name} raw spec"), ps, &rc);
        check_mats(m, &format!("{name} raw spec"), ps, &mds, Some(&inv));
        let (rc, mds, inv): (Rc<F>, Mds<F>, Mds<F>) = guard(<P128Pow5T3Compact<F> as Spec<F, 3, 2>>::constants)?;
        check_compact(m, &format!("{name} compact spec"), ps, &rc);
        check_mats(m, &format!("{name} compact spec"), ps, &mds, Some(&inv));
        check_equiv::<F, P128Pow5T3Compact<F>>(m, &format!("{name} compact spec"), ps, &rc, &mds, rng);
        m.seen(&("rounds", name));
        let n = (
            guard(F::partial_rounds)?,
            guard(<P128Pow5T3<F> as Spec<F, 3, 2>>::partial_rounds)?,
            guard(<P128Pow5T3Compact<F> as Spec<F, 3, 2>>::partial_rounds)?,
            guard(<P128Pow5T3<F> as Spec<F, 3, 2>>::full_rounds)?,
            guard(<P128Pow5T3Compact<F> as Spec<F, 3, 2>>::full_rounds)?,
        );
        if n != (ps.rp, ps.rp, ps.rp, ps.rf, ps.rf) {
            m.violation("round-counts", format!("{name}: {n:?}, expected partial {} full {}", ps.rp, ps.rf));
        }
        Ok(())
    };
    if let Err(e) = all() {
        m.violation("parameter-panic", format!("{name}: {e}"));
    }
}

fn cached_views(m: &mut Mon, ps: &Params, rng: &mut Rng) {
    type S = <Fr as Hashable>::SpecType;
    let mut all = || -> Result<(), String> {
        let rc = guard(<Fr as CachedConstants>::cached_round_constants)?;
        let mds = guard(<Fr as CachedConstants>::cached_mds)?;
        let inv = guard(<Fr as CachedConstants>::cached_mds_inv)?;
        check_compact(m, "bn254 cached", ps, rc);
        check_mats(m, "bn254 cached", ps, mds, Some(inv));
        let acc: Rc<Fr> = (0..ps.rounds()).map(|i| guard(|| params::round_constant::<Fr>(i))).collect::<Result<_, _>>()?;
        check_compact(m, "bn254 round_constant accessor", ps, &acc);
        check_mats(m, "bn254 mds accessor", ps, guard(params::mds::<Fr>)?, None);
        let rc = guard(<S as CachedSpec<Fr, 3, 2>>::cached_round_constants)?;
        let mds = guard(<S as CachedSpec<Fr, 3, 2>>::cached_mds)?;
        let inv = guard(<S as CachedSpec<Fr, 3, 2>>::cached_mds_inv)?;
        check_mats(m, "bn254 cached spec", ps, mds, Some(inv));
        check_equiv::<Fr, S>(m, "bn254 cached spec", ps, rc, mds, rng);
        Ok(())
    };
    if let Err(e) = all() {
        m.violation("parameter-panic", format!("bn254 cached: {e}"));
    }
}

pub fn run(ctx: &Ctx) -> Mon {
    let mut m = Mon::new();
    let order = ctx.args.u64("order", 0);
    let mut rng = Rng::new(ctx.seed.wrapping_mul(65537) + order);
    // first uses, in a random order; concurrently for odd orders
    let mut ks: Vec<usize> = (0..12).collect();
    rng.shuffle(&mut ks);
    m.sample(|| format!("first-use order {ks:?}, {}", if order % 2 == 1 { "concurrent" } else { "sequential" }));
    m.seen(&("order", &ks, order % 2));
    let res: Vec<Result<(), String>> = if order % 2 == 1 {
        let b = std::sync::Barrier::new(ks.len());
        std::thread::scope(|s| {
            let hs: Vec<_> = ks.iter().map(|k| s.spawn(|| { b.wait(); touch(*k) })).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    } else {
        ks.iter().map(|k| touch(*k)).collect()
    };
    for (k, r) in ks.iter().zip(res) {
        if let Err(e) = r {
            m.violation("parameter-panic", format!("first use {k} in order {ks:?}: {e}"));
        }
    }
    let ps = bn();
    field_views::<Fr>(&mut m, "bn254", &ps, &mut rng);
    cached_views(&mut m, &ps, &mut rng);
    // again from other threads, and again here: the values stay
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..3u64)
            .map(|i| {
                let ps = &ps;
                s.spawn(move || {
                    let mut m = Mon::new();
                    let mut rng = Rng::new(order * 10 + i);
                    field_views::<Fr>(&mut m, "bn254", ps, &mut rng);
                    cached_views(&mut m, ps, &mut rng);
                    m
                })
            })
            .collect();
        for h in hs {
            m.merge(h.join().unwrap());
        }
    });
    cached_views(&mut m, &ps, &mut rng);
    #[cfg(feature = "pasta")]
    {
        use poseidon_base::primitives::pasta::Fp;
        let pp = crate::cases::pallas();
        field_views::<Fp>(&mut m, "pallas", &pp, &mut rng);
        type H = P128Pow5T3Compact<Fp>;
        let r = guard(|| {
            (
                <P128Pow5T3<Fp> as CachedSpec<Fp, 3, 2>>::cached_round_constants(),
                <P128Pow5T3<Fp> as CachedSpec<Fp, 3, 2>>::cached_mds(),
                <P128Pow5T3<Fp> as CachedSpec<Fp, 3, 2>>::cached_mds_inv(),
                <H as CachedSpec<Fp, 3, 2>>::cached_round_constants(),
                <H as CachedSpec<Fp, 3, 2>>::cached_mds(),
                <H as CachedSpec<Fp, 3, 2>>::cached_mds_inv(),
            )
        });
        match r {
            Ok((a, b, c, d, e, f)) => {
                check_mats(&mut m, "pallas raw cached", &pp, b, Some(c));
                check_equiv::<Fp, P128Pow5T3<Fp>>(&mut m, "pallas raw cached", &pp, a, b, &mut rng);
                check_mats(&mut m, "pallas compact cached", &pp, e, Some(f));
                check_equiv::<Fp, H>(&mut m, "pallas compact cached", &pp, d, e, &mut rng);
            }
            Err(e) => m.violation("parameter-panic", format!("pallas cached: {e}")),
        }
    }
    m
}
