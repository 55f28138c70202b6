//! C09 (permutation chips) and C10 (in-circuit sponge): programs of permutations or
//! hashes over shared cells; the honest assignment is judged, then the forger looks for
//! others with the same inputs.
use crate::conv::{fe, l4};
use crate::forge::{Outcome, System, Trial};
use crate::perm::*;
use crate::Ctx;
use ff::FromUniformBytes;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::halo2curves::pasta;
use oracle::gen::{steer_any, Words};
use oracle::mon::{guard, h64, par, Mon};
use oracle::{Params, Rng, L4};

struct Env<'a> {
    m: &'a mut Mon,
    rng: &'a mut Rng,
    ps: &'a Params,
    name: String,
    sponge: bool,
    planner: bool,
    trials: usize,
}
fn inputs(e: &mut Env, w: &mut Words, prog: &Prog) -> Vec<L4> {
    let n = prog.inputs;
    let mut v: Vec<L4> = (0..n).map(|_| w.word(e.rng)).collect();
    // now and then a state meets zeros or extremes inside the permutation
    if e.rng.chance(1, 2) {
        if let Some(at) = prog.free_state(e.rng) {
            for (i, x) in at.into_iter().zip(steer_any(e.ps, w, e.rng)) {
                v[i] = x;
            }
            e.m.count("steered_states", 1);
        }
    }
    if e.rng.chance(1, 8) {
        v.iter_mut().for_each(|x| *x = [0; 4]);
    }
    v
}
fn honest<F: FromUniformBytes<64> + Ord, D: Drv<F>>(e: &mut Env, prog: &Prog, ins: &[L4]) -> Option<Done<F>> {
    let what = if e.sponge { "hash" } else { "permutation" };
    let want = e.ps_eval(prog, ins);
    e.m.seen(&(&e.name, prog, ins));
    let d = match guard(|| run::<F, D>(prog, ins)) {
        Ok(Ok(d)) => d,
        Ok(Err(x)) => {
            e.m.violation("synthesis-error", format!("{}: {prog:?}: {x:?}", e.name));
            return None;
        }
        Err(p) => {
            e.m.violation("synthesis-panic", format!("{}: {prog:?}: {p}", e.name));
            return None;
        }
    };
    for (i, w) in want.iter().enumerate() {
        e.m.count("outputs_compared", 1);
        let (c, r) = d.outs[i];
        let held = l4(&d.rec.advice_at(c, r));
        if d.claimed[i] != Some(*w) || held != *w {
            e.m.violation(
                &format!("wrong-{what}"),
                format!("{}: output {i} of {prog:?} on {:?} is {:?} (cell holds {}), native {}", e.name, ins.iter().map(oracle::hex).collect::<Vec<_>>(), d.claimed[i].map(|x| oracle::hex(&x)), oracle::hex(&held), oracle::hex(w)),
            );
            return None;
        }
    }
    if !d.rec.escapes.is_empty() {
        e.m.violation("worker-outside-its-rows", format!("{}: {}", e.name, d.rec.escapes[0]));
    }
    Some(d)
}
impl Env<'_> {
    fn ps_eval(&self, p: &Prog, ins: &[L4]) -> Vec<L4> {
        p.eval(self.ps, ins)
    }
}
fn program(e: &mut Env, w: &mut Words, small: bool) -> Prog {
    if e.sponge {
        let n = if small { 1 + e.rng.chance(1, 3) as usize } else { e.rng.range(1, 4) };
        hashes(e.rng, e.ps.t, n, w)
    } else {
        let n = if small { e.rng.range(1, 3) } else { *e.rng.pick(&[1usize, 2, 3, 5, 8, 9, 17, 24]) };
        let mut p = permutations(e.rng, e.ps.t, n);
        if e.planner {
            // batches are for the single-pass planner
            for op in &mut p.ops {
                if let Op::Permute(_, b) = op {
                    *b = false;
                }
            }
        }
        p
    }
}
/// Where this program's regions and columns go.
fn place(e: &mut Env) {
    set_layout(e.rng.next());
    if e.planner {
        let k = e.rng.next() | 4;
        halo2_proofs::knobs::set_planner(k);
        e.m.count(["two passes with gaps", "one pass with gaps", "two passes, biggest first", "two passes, any order"][k as usize % 4], 1);
    }
}
/// A sponge whose last block is not complete has no digest: it must be refused, and
/// never be taken for a padded one.
fn ragged<F: FromUniformBytes<64> + Ord, D: Drv<F>>(e: &mut Env, w: &mut Words) {
    let mut prog = program(e, w, true);
    place(e);
    let rate = e.ps.t - 1;
    let total = if rate == 1 || e.rng.chance(1, 4) { 0 } else { rate * e.rng.range(0, 3) + e.rng.range(1, rate - 1) };
    let miss = rate - total % rate;
    let len = *e.rng.pick(&SPONGE_LENS);
    let words = (0..total)
        .map(|_| if e.rng.chance(1, 3) { Err(w.word(e.rng)) } else { Ok(Ref::In(e.rng.below(prog.inputs as u64) as usize)) })
        .collect();
    prog.ops.push(Op::Sponge { len, words, squeeze: e.rng.range(1, rate + 1) });
    let ins = inputs(e, w, &prog);
    e.m.seen(&(&e.name, &prog, &ins));
    e.m.count("incomplete_blocks", 1);
    if let Ok(Ok(d)) = guard(|| run::<F, D>(&prog, &ins)) {
        let ok = prove(d.cs, d.rec).verify().is_ok();
        e.m.violation("incomplete-accepted", format!("{}: {prog:?}: the last sponge has {miss} words too few for its last block, yet squeezing gives {:?} (satisfied: {ok})", e.name, d.claimed.last()));
    }
}
fn check<F: FromUniformBytes<64> + Ord, D: Drv<F>>(e: &mut Env) {
    let mut w = Words::new(&e.ps.f);
    if e.sponge && e.rng.chance(1, 6) {
        ragged::<F, D>(e, &mut w);
    }
    let prog = program(e, &mut w, false);
    place(e);
    let ins = inputs(e, &mut w, &prog);
    if let Some(d) = honest::<F, D>(e, &prog, &ins) {
        e.m.count("satisfied_checked", 1);
        count_ops(e, &prog);
        if let Err(f) = prove(d.cs, d.rec).verify() {
            e.m.violation("unsatisfied", format!("{}: {prog:?}: {} failures, first {:?}", e.name, f.len(), f[0]));
        }
        e.m.sample(|| format!("{}: {}", e.name, format!("{prog:?}").chars().take(200).collect::<String>()));
    }
}
fn count_ops(e: &mut Env, prog: &Prog) {
    for op in &prog.ops {
        match op {
            Op::Permute(s, b) => {
                e.m.count(if *b { "permutations_in_batches" } else { "permutations_single" }, s.len() as u64);
                if *b {
                    e.m.max("max_batch", s.len() as u64);
                }
            }
            Op::Hash(v) => e.m.count(&format!("hash_length_{}", v.len()), 1),
            Op::Sponge { squeeze, .. } => {
                e.m.count("sponges", 1);
                e.m.max("max_squeezed", *squeeze as u64);
            }
        }
    }
}
fn forge<D: Drv<Fr>>(e: &mut Env) {
    let mut w = Words::new(&e.ps.f);
    let prog = program(e, &mut w, true);
    place(e);
    let ins = inputs(e, &mut w, &prog);
    let Some(d) = honest::<Fr, D>(e, &prog, &ins) else { return };
    let (pi, po) = (d.ins.clone(), d.outs.clone());
    let sys = System::new(prove(d.cs, d.rec));
    e.m.count("systems", 1);
    e.m.count("constraints", sys.cons.len() as u64);
    for k in 0..e.trials {
        // the same inputs, or others
        let now = if k % 2 == 0 { ins.clone() } else { inputs(e, &mut w, &prog) };
        let want = prog.eval(e.ps, &now);
        let keep = *e.rng.pick(&[0u64, 0, 60, 95]);
        let mut tr = Trial::new(&sys, e.rng, keep);
        let mut ok = true;
        for (i, v) in now.iter().enumerate() {
            ok &= tr.fix(pi[i].0, pi[i].1, fe(v));
        }
        // sometimes insist on a false output or inner cell
        let mut lie = None;
        if e.rng.chance(1, 3) {
            let i = e.rng.below(po.len() as u64) as usize;
            let v = w.word(e.rng);
            if v != want[i] {
                lie = Some(i);
                ok &= tr.fix(po[i].0, po[i].1, fe(&v));
            }
        }
        e.m.seen(&("forge", &e.name, &prog, &now, keep, k, lie));
        if !ok {
            e.m.count("refused: tied cells", 1);
            continue;
        }
        let out = tr.run();
        e.m.count("cells_derived", tr.derived);
        e.m.count("cells_lied_about", tr.chosen);
        match out {
            Outcome::Dead(x) => {
                e.m.count(&format!("refused by: {x}"), 1);
                if lie.is_none() {
                    e.m.count("true_outputs_refused", 1);
                }
            }
            Outcome::Hard(x) => e.m.count(&format!("undecided: {x}"), 1),
            Outcome::Accepted(p) => {
                e.m.count("accepted", 1);
                for (i, v) in want.iter().enumerate() {
                    let got = p.advice(po[i].0, po[i].1);
                    if got != fe::<Fr>(v) {
                        e.m.violation(
                            "forged-output",
                            format!("{}: accepted assignment of {prog:?} with inputs {:?} has output {i} = {:?}, native {}", e.name, now.iter().map(oracle::hex).collect::<Vec<_>>(), got, oracle::hex(v)),
                        );
                        break;
                    }
                }
            }
        }
    }
}
pub fn go(ctx: &Ctx) -> Mon {
    let sponge = ctx.args.get("prop", "c09") == "c10";
    let planner = ctx.args.get("planner", "") == "any";
    let own = ctx.args.get("own", "") == "1";
    let mode = ctx.args.get("mode", "serial");
    let n = ctx.args.u64("n", if ctx.thorough { 240 } else { 16 });
    let fr = Params::generate(&oracle::p_bn254(), 3, 8, 57, 0).unwrap();
    let pallas = Params::generate(&oracle::p_pallas(), 3, 8, 56, 0).unwrap();
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(122949823) + 19 * tid as u64 + h64(&(sponge, &mode)));
        for it in 0..n {
            // widths and rounds for the general chip
            let rf = *rng.pick(&[2usize, 4, 8, 8]);
            let rp = *rng.pick(&[0usize, 1, 2, 3, 7, 8, 31]);
            macro_rules! gen {
                ($f:ty, $p:expr, $w:literal, $r:literal, $forge:expr) => {{
                    let ps = random_params(&$p, $w, rf, rp, &mut rng);
                    install::<$f, $w>(&ps);
                    let name = format!("general chip width {} over {} rounds {rf}+{rp}", $w, stringify!($f));
                    let mut e = Env { m: &mut m, rng: &mut rng, ps: &ps, name, sponge, planner, trials: 4 };
                    check::<$f, Gen<Dyn, $w, $r>>(&mut e);
                    if $forge {
                        forge::<Gen<Dyn, $w, $r>>(&mut e);
                    }
                }};
            }
            macro_rules! named {
                ($ps:expr, $name:literal, $f:ty, $d:ty) => {{
                    let mut e = Env { m: &mut m, rng: &mut rng, ps: &$ps, name: format!("{} ({mode})", $name), sponge, planner, trials: 4 };
                    check::<$f, $d>(&mut e);
                }};
            }
            macro_rules! named_forge {
                ($ps:expr, $name:literal, $d:ty) => {{
                    let mut e = Env { m: &mut m, rng: &mut rng, ps: &$ps, name: format!("{} ({mode})", $name), sponge, planner, trials: 4 };
                    forge::<$d>(&mut e);
                }};
            }
            if own {
                inside(&mut m, &mut rng, &fr, sponge, planner, it);
                continue;
            }
            gen!(Fr, oracle::p_bn254(), 2, 1, true);
            gen!(Fr, oracle::p_bn254(), 3, 2, true);
            gen!(Fr, oracle::p_bn254(), 4, 3, it % 2 == 0);
            gen!(Fr, oracle::p_bn254(), 5, 4, it % 2 == 1);
            // the real parameters
            install::<pasta::Fp, 3>(&pallas);
            named!(pallas, "general chip, Pallas", pasta::Fp, Gen<Dyn, 3, 2>);
            type S = poseidon_base::primitives::P128Pow5T3<Fr>;
            type C = poseidon_base::primitives::P128Pow5T3Compact<Fr>;
            named!(fr, "general chip, BN254", Fr, Gen<S, 3, 2>);
            if it % 4 == 0 {
                named_forge!(fr, "general chip, BN254", Gen<S, 3, 2>);
            }
            if !sponge {
                named!(fr, "8-row chip", Fr, Sept);
                named!(fr, "38-row chip", Fr, Pow);
                named_forge!(fr, "8-row chip", Sept);
                if it % 4 == 1 {
                    named_forge!(fr, "38-row chip", Pow);
                }
            } else {
                named!(fr, "general chip, BN254 compact constants", Fr, Gen<C, 3, 2>);
            }
        }
        m
    })
}

/// The chips in a caller's own layout.
fn inside(m: &mut Mon, rng: &mut Rng, fr: &Params, sponge: bool, planner: bool, it: u64) {
    let planner = planner && it % 3 == 2;
    halo2_proofs::knobs::set_planner(0);
    if !sponge {
        let mut e = Env { m, rng, ps: fr, name: "8-row chips in the caller's regions".into(), sponge, planner, trials: 4 };
        for _ in 0..3 {
            check::<Fr, Embed>(&mut e);
        }
        forge::<Embed>(&mut e);
    }
    let rf = *rng.pick(&[2usize, 4, 8]);
    let rp = *rng.pick(&[0usize, 1, 2, 3, 8]);
    macro_rules! shared {
        ($f:ty, $p:expr, $w:literal, $r:literal $(, $forge:ident)?) => {{
            let other = random_params(&$p, 2, rf, rp, rng);
            install::<$f, 2>(&other);
            let ps = if $w == 2 { other } else { random_params(&$p, $w, rf, rp, rng) };
            install::<$f, $w>(&ps);
            let name = format!("general chips width {} over {} rounds {rf}+{rp} on shared columns", $w, stringify!($f));
            let mut e = Env { m, rng, ps: &ps, name, sponge, planner, trials: 4 };
            check::<$f, Shared<Dyn, $w, $r>>(&mut e);
            $($forge::<Shared<Dyn, $w, $r>>(&mut e);)?
        }};
    }
    shared!(pasta::Fp, oracle::p_pallas(), 3, 2);
    shared!(Fr, oracle::p_bn254(), 2, 1, forge);
    shared!(Fr, oracle::p_bn254(), 3, 2, forge);
    shared!(Fr, oracle::p_bn254(), 5, 4);
}
