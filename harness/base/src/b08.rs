//! B08: one build configuration: judge it against the reference and leave a log of
//! digests for comparison with the other configurations.
use crate::cases::{bn, caps, message, show, Steer};
use crate::conv::{fe, l4, st3, un3};
use crate::Ctx;
use halo2curves::bn256::Fr;
use oracle::gen::Words;
use oracle::mon::{guard, Mon};
use oracle::{Rng, L4};
use poseidon_base::hash::{Hashable, MessageHashable, HASHABLE_DOMAIN_SPEC};
use poseidon_base::primitives::Spec;
use std::fmt::Write;

pub fn run(ctx: &Ctx) -> Mon {
    let ps = bn();
    let mut m = Mon::new();
    let mut log = String::new();
    let mut rng = Rng::new(ctx.seed.wrapping_mul(424243) + 9);
    let mut w = Words::new(&ps.f);
    let st = Steer::new(&ps);
    let legacy = cfg!(feature = "legacy");
    let cfgname = ctx.args.get("config", "?");
    let unit: u128 = if legacy { 1 } else { 1 << 64 };
    let rec = |m: &mut Mon, log: &mut String, what: &str, input: &[L4], got: Result<Vec<L4>, String>, want: Vec<L4>, logged: bool| {
        m.seen(&(&cfgname, what, input));
        m.count(&format!("{cfgname}: {what}"), 1);
        if got.as_ref() != Ok(&want) {
            m.violation(
                "configuration-digest",
                format!("configuration {cfgname}: {what} of {} gave {:?}, expected {}", show(input), got.as_ref().map(|g| show(g)), show(&want)),
            );
        }
        if logged {
            let _ = writeln!(log, "{what} {:x} {:?}", oracle::mon::h64(&input), got.map(|g| g.iter().map(oracle::hex).collect::<Vec<_>>()));
        }
    };
    let n = if ctx.thorough { 12000 } else { 1000 };
    for _ in 0..n {
        let s = if rng.chance(1, 3) { st.random(&mut w, &mut rng).0 } else { [w.word(&mut rng), w.word(&mut rng), w.word(&mut rng)] };
        let p = ps.permute3(&s);
        let g = guard(|| vec![l4(&Fr::hash_with_domain([fe(&s[1]), fe(&s[2])], fe(&s[0])))]);
        rec(&mut m, &mut log, "two-to-one", &s, g, vec![p[0]], true);
        let g = guard(|| {
            let mut x: [Fr; 3] = st3(&s);
            <Fr as Hashable>::hasher().permute(&mut x);
            un3(&x).to_vec()
        });
        rec(&mut m, &mut log, "permutation", &s, g, p.to_vec(), true);
        let x = s[0];
        type S = <Fr as Hashable>::SpecType;
        let g = guard(|| vec![l4(&<S as Spec<Fr, 3, 2>>::sbox(fe(&x)))]);
        rec(&mut m, &mut log, "s-box", &[x], g, vec![ps.f.dec(&ps.f.pow5(&ps.f.enc(&x)))], true);
    }
    for k in 0..n {
        let len = if k < 200 { k + 1 } else { rng.range(1, 9) };
        let cap = caps(len, &mut rng);
        let msg = message(&ps, &mut w, &mut rng, len, cap.unwrap_or((len as u128) << 64));
        let fm: Vec<Fr> = msg.iter().map(fe).collect();
        let eff = cap.unwrap_or((len as u128) << 64);
        let g = guard(|| vec![l4(&Fr::hash_msg(&fm, Some(eff)))]);
        rec(&mut m, &mut log, "message, explicit capacity", &msg, g, vec![ps.hash_msg(&msg, eff)], true);
        let g = guard(|| vec![l4(&Fr::hash_msg(&fm, None))]);
        rec(&mut m, &mut log, "message, default capacity", &msg, g, vec![ps.hash_msg(&msg, len as u128 * unit)], false);
    }
    m.seen(&("domain factor", &cfgname));
    if HASHABLE_DOMAIN_SPEC != unit {
        m.violation("domain-factor", format!("configuration {cfgname}: domain factor {HASHABLE_DOMAIN_SPEC}, expected {unit}"));
    }
    let want = if cfg!(feature = "short") { 1 + ps.rf } else { 1 + ps.rf + (ps.rp + 1) / 2 };
    let got = guard(<Fr as Hashable>::hash_block_size);
    m.seen(&("rows", &cfgname));
    if got != Ok(want) {
        m.violation("rows-per-permutation", format!("configuration {cfgname}: {got:?} rows advertised, expected {want}"));
    }
    m.sample(|| format!("configuration {cfgname}: domain factor {unit}, rows per permutation {want}"));
    let path = ctx.args.get("log", "");
    if !path.is_empty() {
        std::fs::write(path, log).unwrap();
    }
    m
}
