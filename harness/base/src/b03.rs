//! B03: the permutation, in every exposed form, on every kind of state.
use crate::cases::{bn, show, Steer};
use crate::conv::{fe, l4, st3, un3};
use crate::Ctx;
use halo2curves::bn256::Fr;
use oracle::gen::Words;
use oracle::mon::{guard, par, Mon};
use oracle::{Params, Rng, L4};
use poseidon_base::hash::{Hashable, MessageHashable};
use poseidon_base::params::{CachedConstants, Mds};
use poseidon_base::primitives::{
    permute, CachedSpec, P128Pow5T3, P128Pow5T3Compact, P128Pow5T3Constants, Spec,
};

type Form<F> = (&'static str, Box<dyn Fn(&mut [F; 3]) + Sync>);

fn spec_form<F: P128Pow5T3Constants, S: Spec<F, 3, 2> + 'static>(name: &'static str) -> Result<Form<F>, String> {
    let (rc, mds, _): (Vec<[F; 3]>, Mds<F>, Mds<F>) = guard(S::constants)?;
    Ok((name, Box::new(move |s| permute::<F, S, 3, 2>(s, &mds, &rc))))
}

fn bn_forms() -> Result<Vec<Form<Fr>>, String> {
    let mut v: Vec<Form<Fr>> = vec![
        spec_form::<Fr, P128Pow5T3<Fr>>("raw")?,
        spec_form::<Fr, P128Pow5T3Compact<Fr>>("compact")?,
    ];
    let h = guard(<Fr as Hashable>::hasher)?;
    v.push(("hasher object", Box::new(move |s| h.permute(s))));
    let h = guard(<Fr as MessageHashable>::msg_hasher)?;
    v.push(("message hasher object", Box::new(move |s| h.permute(s))));
    v.push((
        "cached",
        Box::new(|s| {
            permute::<Fr, P128Pow5T3Compact<Fr>, 3, 2>(
                s,
                <Fr as CachedConstants>::cached_mds(),
                <Fr as CachedConstants>::cached_round_constants(),
            )
        }),
    ));
    type S = <Fr as Hashable>::SpecType;
    v.push((
        "cached spec",
        Box::new(|s| permute::<Fr, S, 3, 2>(s, <S as CachedSpec<Fr, 3, 2>>::cached_mds(), <S as CachedSpec<Fr, 3, 2>>::cached_round_constants())),
    ));
    Ok(v)
}

fn judge<F: P128Pow5T3Constants>(m: &mut Mon, field: &str, ps: &Params, forms: &[Form<F>], s: &[L4; 3], tag: &str, k: usize) {
    let want = ps.permute3(s);
    for (i, (name, f)) in forms.iter().enumerate() {
        // all forms on a share of the states, two rotating forms on the rest
        if k % 4 != 0 && i != k % forms.len() && i != (k / 7) % forms.len() {
            continue;
        }
        let mut x: [F; 3] = st3(s);
        let r = guard(|| f(&mut x));
        m.seen(&(field, s));
        m.count(&format!("{field}_{name}"), 1);
        m.count(&format!("cases_{tag}"), 1);
        match r {
            Ok(()) if un3(&x) == want => {}
            Ok(()) => m.violation(
                "permutation",
                format!("{field}, {name} form ({tag}): permutation of {} is {} but the standard gives {}", show(s), show(&un3(&x)), show(&want)),
            ),
            Err(p) => m.violation("permutation-panic", format!("{field}, {name} form ({tag}) on {}: {p}", show(s))),
        }
    }
}

fn sboxes<F: P128Pow5T3Constants>(m: &mut Mon, field: &str, ps: &Params, x: &L4) {
    let want = ps.f.dec(&ps.f.pow5(&ps.f.enc(x)));
    let v: F = fe(x);
    for (name, r) in [
        ("raw", guard(|| <P128Pow5T3<F> as Spec<F, 3, 2>>::sbox(v))),
        ("compact", guard(|| <P128Pow5T3Compact<F> as Spec<F, 3, 2>>::sbox(v))),
    ] {
        m.seen(&("sbox", field, x));
        m.count("sbox", 1);
        if !matches!(&r, Ok(y) if l4(y) == want) {
            m.violation("sbox", format!("{field} {name} S-box of {} is {r:?}, expected {}", oracle::hex(x), oracle::hex(&want)));
        }
    }
}

fn campaign<F: P128Pow5T3Constants>(ctx: &Ctx, field: &'static str, ps: &Params, forms: Result<Vec<Form<F>>, String>) -> Mon {
    let forms = match forms {
        Ok(f) => f,
        Err(e) => {
            let mut m = Mon::new();
            m.violation("constants-panic", format!("{field}: building the parameters panicked: {e}"));
            return m;
        }
    };
    let scale = if ctx.thorough { 15 } else { 1 };
    let mut m = par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(1000) + 200 + tid as u64 + 17 * field.len() as u64);
        let mut w = Words::new(&ps.f);
        let st = Steer::new(ps);
        let mut k = tid;
        let mut j = |m: &mut Mon, s: &[L4; 3], tag: &str| {
            k += 1;
            judge(m, field, ps, &forms, s, tag, k);
        };
        for (i, x) in w.edges.clone().iter().enumerate() {
            sboxes::<F>(&mut m, field, ps, x);
            if i % ctx.threads == tid {
                for q in 0..3 {
                    let mut s = [[0u64; 4]; 3];
                    s[q] = *x;
                    j(&mut m, &s, "single_edge");
                    let mut s = [*x; 3];
                    s[q] = w.word(&mut rng);
                    j(&mut m, &s, "edge_twice");
                }
                j(&mut m, &[*x; 3], "equal_words");
            }
        }
        for _ in 0..2000 * scale {
            let x = w.word(&mut rng);
            sboxes::<F>(&mut m, field, ps, &x);
        }
        // steered: every round x coordinate system x word pattern
        let vals = [[0u64; 4], [1, 0, 0, 0], ps.f.neg(&[1, 0, 0, 0])];
        let mut n = 0usize;
        for r in 0..=ps.rounds() {
            for coord in 0..3 {
                for pat in 0..27 * scale {
                    n += 1;
                    if n % ctx.threads != tid || (!ctx.thorough && (pat + r) % 3 != 0) {
                        continue;
                    }
                    let mut t = [[0u64; 4]; 3];
                    let mut c = pat;
                    for x in t.iter_mut() {
                        *x = if pat < 27 { vals[c % 3] } else { w.word(&mut rng) };
                        c /= 3;
                    }
                    // one word free
                    if pat % 2 == 1 {
                        t[rng.below(3) as usize] = w.word(&mut rng);
                    }
                    let s = st.input(r, coord, &t);
                    j(&mut m, &s, "steered");
                }
            }
        }
        for _ in 0..800 * scale {
            let (s, _, _) = st.random(&mut w, &mut rng);
            j(&mut m, &s, "steered_random");
        }
        for _ in 0..4000 * scale {
            let s = [w.word(&mut rng), w.word(&mut rng), w.word(&mut rng)];
            j(&mut m, &s, "random");
        }
        // iterate the permutation
        let mut s = [w.word(&mut rng), w.word(&mut rng), w.word(&mut rng)];
        for _ in 0..300 * scale {
            j(&mut m, &s, "iterated");
            s = ps.permute3(&s);
        }
        m
    });
    for (name, rf, rp) in [
        ("raw", guard(<P128Pow5T3<F> as Spec<F, 3, 2>>::full_rounds), guard(<P128Pow5T3<F> as Spec<F, 3, 2>>::partial_rounds)),
        ("compact", guard(<P128Pow5T3Compact<F> as Spec<F, 3, 2>>::full_rounds), guard(<P128Pow5T3Compact<F> as Spec<F, 3, 2>>::partial_rounds)),
    ] {
        m.seen(&("rounds", field, name));
        if rf != Ok(ps.rf) || rp != Ok(ps.rp) {
            m.violation("round-counts", format!("{field} {name}: rounds {rf:?}+{rp:?}, expected {}+{}", ps.rf, ps.rp));
        }
    }
    m
}

pub fn run(ctx: &Ctx) -> Mon {
    let ps = bn();
    let mut m = campaign::<Fr>(ctx, "bn254", &ps, bn_forms());
    #[cfg(feature = "pasta")]
    {
        use poseidon_base::primitives::pasta::Fp;
        use poseidon_base::primitives::{ConstantLength, Hash};
        let pp = crate::cases::pallas();
        let forms = (|| {
            let mut v: Vec<Form<Fp>> = vec![
                spec_form::<Fp, P128Pow5T3<Fp>>("raw")?,
                spec_form::<Fp, P128Pow5T3Compact<Fp>>("compact")?,
            ];
            let h = guard(Hash::<Fp, P128Pow5T3<Fp>, ConstantLength<2>, 3, 2>::init)?;
            v.push(("hasher object", Box::new(move |s| h.permute(s))));
            let h = guard(Hash::<Fp, P128Pow5T3Compact<Fp>, ConstantLength<2>, 3, 2>::init)?;
            v.push(("compact hasher object", Box::new(move |s| h.permute(s))));
            Ok(v)
        })();
        m.merge(campaign::<Fp>(ctx, "pallas", &pp, forms));
    }
    let s = [[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0]];
    m.sample(|| format!("bn254 permutation of {} = {}", show(&s), show(&ps.permute3(&s))));
    m
}
