//! C15 (capacity), C16 (refused operations), C17 (history of syntheses) and C18 (layouts
//! and witness values).
use crate::c05::{differs, fixed_of};
use crate::circ::*;
use crate::conv::{fe, l4};
use crate::perm::{self, hashes, install, permutations, random_params, Done, Drv, Dyn, Gen, Op, Pow, Prog, Sept};
use crate::Ctx;
use ff::{FromUniformBytes, PrimeField};
use halo2_proofs::circuit::Value;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::halo2curves::pasta;
use halo2_proofs::knobs;
use halo2_proofs::plonk::{ConstraintSystem, Error};
use halo2_proofs::rec::{Fault, Record};
use oracle::gen::Words;
use oracle::mon::{guard, h64, par, Mon};
use oracle::{Params, Rng, L4};
use poseidon_base::primitives::{P128Pow5T3, P128Pow5T3Compact};
use poseidon_circuit::hash::PoseidonHashTable;
use poseidon_circuit::Hashable;
use std::io::Write;
use std::sync::{Arc, Mutex};

// ---- C15 -------------------------------------------------------------------------
pub fn capacity(ctx: &Ctx) -> Mon {
    let mode = ctx.args.get("mode", "serial");
    let ps = params();
    let n = ctx.args.u64("n", if ctx.thorough { 3000 } else { 250 });
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(179424673) + 29 * tid as u64 + h64(&mode));
        let mut g = TableGen::new(&ps);
        for _ in 0..n {
            let chip = if rng.chance(1, 4) { 1 } else { 0 };
            let step = *rng.pick(&STEPS);
            let calcs = match rng.below(6) {
                0 => 1,
                1 => 2,
                2 | 3 => rng.range(3, 9),
                4 => rng.range(8, 33),
                _ => rng.range(33, if ctx.thorough { 300 } else { 90 }),
            };
            let size = match rng.below(8) {
                0 => calcs,
                1 => calcs - 1,
                2 | 3 => calcs + 1,
                4 => calcs + rng.range(2, 5),
                5 => 2 * calcs + rng.range(0, 1),
                6 => rng.range(0, calcs),
                _ => calcs + rng.range(1, 40),
            };
            let shift = if rng.chance(1, 8) { rng.range(1, 6) } else { 0 };
            let mut calls = vec![];
            if size > 0 {
                match rng.below(5) {
                    // one message across the end of the capacity
                    0 => {
                        let words: Vec<[L4; 2]> = (0..size).map(|_| [g.word(&mut rng), g.word(&mut rng)]).collect();
                        let ctrl = ctrl_for(&mut rng, size, step);
                        calls.push(Call::Stream { words, ctrl, step, check: None, with: false });
                    }
                    // what is beyond the capacity looks like padding
                    1 if size > calcs => {
                        if calcs > 0 {
                            calls = g.calls(&mut rng, calcs, step, true, true);
                        }
                        calls.push(Call::Fixed(vec![([[0; 4]; 2], [0; 4], None); size - calcs]));
                    }
                    // two-word hashes only, without any control
                    2 => {
                        let v = (0..size).map(|_| ([g.word(&mut rng), g.word(&mut rng)], g.dom(&mut rng), None)).collect();
                        calls.push(Call::Fixed(v));
                    }
                    _ => calls = g.calls(&mut rng, size, step, true, true),
                }
            }
            let Ok(mut t) = guard(|| build(&calls)) else {
                m.violation("builder-panic", format!("[{}]", show_calls(&calls)));
                continue;
            };
            // a control list longer than the entries it belongs to, through the public field
            let mut longer = 0;
            if size <= calcs && rng.chance(1, 10) {
                longer = rng.range(1, 3);
                t.controls.resize(size, 0);
                t.controls.resize(calcs + longer, 0);
            }
            knobs::set_schedule(rng.below(3));
            let tag = format!("chip {chip} step {step} {mode} shift {shift}: {size} entries{} at capacity {calcs} [{}]", if longer > 0 { " and more controls than capacity" } else { "" }, show_calls(&calls));
            m.seen(&(chip, step, calcs, shift, longer, &calls));
            let r = guard(|| synth(chip, step, &t, calcs, shift, None));
            if size > calcs || longer > 0 {
                match r {
                    Ok(Ok(_)) => m.violation("overfull-accepted", tag.clone()),
                    Ok(Err(_)) => m.count("refused_by_error", 1),
                    Err(_) => m.count("refused_by_panic", 1),
                }
                m.max("max_excess", (size.max(calcs) - calcs) as u64);
            } else {
                match r {
                    Ok(Ok(s)) => {
                        m.count(if size == calcs { "accepted_full" } else { "accepted" }, 1);
                        let rows = model(&calls);
                        let shown = (0..calcs).take_while(|i| row_at(&s, s.base + 1 + i)[1].is_some()).count();
                        if shown != calcs {
                            m.violation("rows-missing", format!("{tag}: {shown} rows shown"));
                        }
                        for (i, r) in rows.iter().enumerate() {
                            let got = row_at(&s, s.base + 1 + i);
                            m.count("entries_found", 1);
                            if [got[1], got[2]] != r.w.map(Some) {
                                m.violation("entry-missing", format!("{tag}: entry {i} is not in its row"));
                                break;
                            }
                        }
                    }
                    Ok(Err(e)) => m.violation("fitting-refused", format!("{tag}: {e:?}")),
                    Err(p) => m.violation("fitting-refused", format!("{tag}: {p}")),
                }
            }
            m.sample(|| tag.clone());
        }
        m
    })
}

// ---- C16 -------------------------------------------------------------------------
/// Judge every chosen refusal of one synthesis.
fn refuse(m: &mut Mon, rng: &mut Rng, what: &str, most: u64, mut go: impl FnMut(Option<Arc<Fault>>, Option<usize>) -> Result<Result<usize, Error>, String>) {
    let dry = Fault::new(u64::MAX);
    let rows = match go(Some(dry.clone()), None) {
        Ok(Ok(rows)) => rows,
        x => {
            m.violation("synthesis-failed", format!("{what}: without any refusal: {x:?}"));
            return;
        }
    };
    let total = dry.met();
    for (k, n) in dry.kinds.lock().unwrap().iter() {
        m.count(&format!("operations: {k}"), *n);
    }
    // every operation of a small synthesis, some of each stretch of a larger one
    let at: Vec<u64> = if total <= most { (0..total).collect() } else { (0..most).map(|k| k * total / most + rng.below((total / most).max(1))).collect() };
    for a in at {
        let f = Fault::new(a);
        let r = go(Some(f.clone()), None);
        m.seen(&(what, a));
        let Some(k) = f.fired() else {
            m.count("not_reached", 1);
            continue;
        };
        m.count(&format!("refused: {k}"), 1);
        match r {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => m.violation("error-swallowed", format!("{what}: operation {a} of {total} ({k}) was refused, yet synthesis succeeded")),
            Err(p) => m.violation("panic-on-error", format!("{what}: operation {a} of {total} ({k}) was refused and synthesis panicked: {p}")),
        }
    }
    // too few rows
    let mut limits = vec![0, 1, rows.saturating_sub(1), rows / 2, rng.below(rows as u64) as usize];
    limits.sort();
    limits.dedup();
    for l in limits.into_iter().filter(|l| *l < rows) {
        m.seen(&(what, "rows", l));
        match go(None, Some(l)) {
            Ok(Err(_)) => m.count("row_limits_refused", 1),
            Ok(Ok(_)) => m.violation("rows-ignored", format!("{what}: {rows} rows are used, {l} are available, yet synthesis succeeded")),
            Err(p) => m.violation("panic-on-error", format!("{what}: {l} of {rows} rows available, synthesis panicked: {p}")),
        }
    }
    match go(None, Some(rows)) {
        Ok(Ok(_)) => m.count("row_limits_exact", 1),
        x => m.violation("rows-refused", format!("{what}: exactly the {rows} rows used are available: {x:?}")),
    }
    m.sample(|| format!("{what}: {total} operations"));
}
pub fn faults(ctx: &Ctx) -> Mon {
    let mode = ctx.args.get("mode", "serial");
    let ps = params();
    let n = ctx.args.u64("n", if ctx.thorough { 40 } else { 5 });
    let most = if ctx.thorough { 1500 } else { 400 };
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(198491317) + 31 * tid as u64 + h64(&mode));
        let mut g = TableGen::new(&ps);
        for it in 0..n {
            let chip = if (it + tid as u64) % 3 == 0 { 1 } else { 0 };
            let step = *rng.pick(&[1usize, 2, 7, 32]);
            let calcs = if rng.chance(1, 4) { rng.range(8, 24) } else { rng.range(1, 4) };
            let size = rng.range(0, calcs);
            let calls = if size > 0 { g.calls(&mut rng, size, step, true, true) } else { vec![] };
            let Ok(t) = guard(|| build(&calls)) else {
                m.violation("builder-panic", format!("[{}]", show_calls(&calls)));
                continue;
            };
            let shift = if rng.chance(1, 6) { 2 } else { 0 };
            knobs::set_schedule(rng.below(3));
            let what = format!("table, chip {chip} step {step} {mode} capacity {calcs} shift {shift} [{}]", show_calls(&calls));
            refuse(&mut m, &mut rng, &what, most, |f, l| {
                guard(|| synth_with(chip, step, &t, calcs, shift, l, f)).map(|r| r.map(|s| s.rec.rows_used()))
            });
            // the gadgets
            let mut w = Words::new(&ps.f);
            macro_rules! gadget {
                ($name:expr, $f:ty, $d:ty, $prog:expr) => {{
                    let prog: Prog = $prog;
                    let ins: Vec<L4> = (0..prog.inputs).map(|_| w.word(&mut rng)).collect();
                    let what = format!("{} ({mode}): {prog:?} on {:?}", $name, ins.iter().map(oracle::hex).collect::<Vec<_>>());
                    refuse(&mut m, &mut rng, &what, most, |f, l| {
                        let v = ins.iter().map(|x| Value::known(fe(x))).collect();
                        guard(|| perm::run_limited::<$f, $d>(&prog, v, f, l)).map(|r| r.map(|d| d.rec.rows_used()))
                    });
                }};
            }
            if it % 2 == 0 {
                gadget!("8-row chip", Fr, Sept, { let n = rng.range(1, 3); permutations(&mut rng, 3, n) });
                gadget!("38-row chip", Fr, Pow, { let n = rng.range(1, 2); permutations(&mut rng, 3, n) });
            }
            gadget!("sponge, BN254", Fr, Gen<P128Pow5T3<Fr>, 3, 2>, { let n = rng.range(1, 2); hashes(&mut rng, 3, n, &mut Words::new(&ps.f)) });
            let p5 = random_params(&oracle::p_bn254(), 5, 4, 3, &mut rng);
            install::<Fr, 5>(&p5);
            gadget!("general chip, width 5", Fr, Gen<Dyn, 5, 4>, { let n = rng.range(1, 3); permutations(&mut rng, 5, n) });
            gadget!("sponge, width 5", Fr, Gen<Dyn, 5, 4>, { let n = rng.range(1, 3); hashes(&mut rng, 5, n, &mut Words::new(&ps.f)) });
        }
        m
    })
}

// ---- C17 -------------------------------------------------------------------------
enum Job {
    Table { chip: usize, step: usize, calcs: usize, shift: usize, calls: Vec<Call> },
    Prog { which: u64, prog: Prog, ins: Vec<L4> },
}
fn job(seed: u64, k: usize, ps: &Params) -> Job {
    let mut rng = Rng::new(seed.wrapping_mul(217645199) + 37 * k as u64);
    let mut g = TableGen::new(ps);
    let mut w = Words::new(&ps.f);
    if rng.chance(3, 5) {
        let chip = if rng.chance(1, 3) { 1 } else { 0 };
        let step = *rng.pick(&STEPS);
        let calcs = if rng.chance(1, 3) { rng.range(10, 24) } else { rng.range(1, 8) };
        let size = rng.range(0, calcs);
        let calls = if size > 0 { g.calls(&mut rng, size, step, true, true) } else { vec![] };
        Job::Table { chip, step, calcs, shift: if rng.chance(1, 6) { 3 } else { 0 }, calls }
    } else {
        let which = rng.below(4);
        let n = rng.range(1, 4);
        let prog = if which < 2 || rng.chance(1, 3) { permutations(&mut rng, 3, n) } else { hashes(&mut rng, 3, n, &mut w) };
        let ins = (0..prog.inputs).map(|_| w.word(&mut rng)).collect();
        Job::Prog { which, prog, ins }
    }
}
/// Everything a proof depends on.
fn digest_of<F: PrimeField>(cs: &ConstraintSystem<F>, rec: &Record<F>) -> u64 {
    let adv: Vec<Vec<(usize, Option<L4>)>> = rec.advice.iter().map(|c| c.iter().map(|(r, v)| (*r, v.map(|v| l4(&v)))).collect()).collect();
    let fix: Vec<Vec<(usize, L4)>> = rec.fixed.iter().map(|c| c.iter().map(|(r, v)| (*r, l4(v))).collect()).collect();
    let fill: Vec<(usize, usize, L4)> = rec.table_fill.iter().map(|(c, (r, v))| (*c, *r, l4(v))).collect();
    h64(&(format!("{cs:?}"), adv, fix, fill, format!("{:?}{:?}{:?}", rec.selectors, rec.copies, rec.instance_copies)))
}
fn outcome(j: &Job) -> String {
    fn show<F: PrimeField>(r: Result<Result<Done<F>, Error>, String>) -> String {
        match r {
            Ok(Ok(d)) => format!("{:016x} {:016x}", digest_of(&d.cs, &d.rec), h64(&d.claimed)),
            Ok(Err(e)) => format!("error {e:?}"),
            Err(p) => format!("panic {p}"),
        }
    }
    match j {
        Job::Table { chip, step, calcs, shift, calls } => match guard(|| synth(*chip, *step, &build(calls), *calcs, *shift, None)) {
            Ok(Ok(s)) => format!("{:016x} {}", digest_of(&s.cs, &s.rec), s.rec.rows_used()),
            Ok(Err(e)) => format!("error {e:?}"),
            Err(p) => format!("panic {p}"),
        },
        Job::Prog { which, prog, ins } => match which {
            0 => show(guard(|| perm::run::<Fr, Sept>(prog, ins))),
            1 => show(guard(|| perm::run::<Fr, Pow>(prog, ins))),
            2 => show(guard(|| perm::run::<Fr, Gen<P128Pow5T3<Fr>, 3, 2>>(prog, ins))),
            _ => show(guard(|| perm::run::<Fr, Gen<P128Pow5T3Compact<Fr>, 3, 2>>(prog, ins))),
        },
    }
}
fn name_of(j: &Job) -> String {
    match j {
        Job::Table { chip, step, calcs, shift, calls } => format!("table, chip {chip} step {step} capacity {calcs} shift {shift} [{}]", show_calls(calls)),
        Job::Prog { which, prog, ins } => format!("gadget {which} {prog:?} on {:?}", ins.iter().map(oracle::hex).collect::<Vec<_>>()),
    }
}
/// Something else happening before or beside a synthesis: usually something that fails.
fn noise(rng: &mut Rng, ps: &Params, m: &mut Mon) {
    let mut g = TableGen::new(ps);
    let n = rng.range(1, 6);
    let step = *rng.pick(&STEPS);
    let calls = g.calls(rng, n, step, true, true);
    let Ok(mut t) = guard(|| build(&calls)) else { return };
    let chip = rng.below(2) as usize;
    match rng.below(6) {
        0 => {
            let f = Fault::new(rng.below(400));
            let _ = guard(|| synth_with(chip, step, &t, n + 1, 0, None, Some(f.clone())).map(|_| ()));
            m.count("failed_by_refusal", f.fired().is_some() as u64);
        }
        1 => {
            let r = guard(|| synth(chip, step, &t, n, 0, Some(rng.range(0, 9))).map(|_| ()));
            m.count("failed_by_rows", !matches!(r, Ok(Ok(()))) as u64);
        }
        2 => {
            // a wrong expectation
            t.fixed_inputs([([Fr::from(1u64), Fr::from(2u64)], Fr::from(3u64), Some(Fr::from(4u64)))].iter());
            let r = guard(|| synth(chip, step, &t, n + 1, 0, None).map(|_| ()));
            m.count("failed_by_check", r.is_err() as u64);
        }
        3 => {
            let r = guard(|| synth(chip, step, &t, n.max(2) - 1, 0, None).map(|_| ()));
            m.count("failed_by_capacity", r.is_err() as u64);
        }
        4 => {
            let r = guard(|| {
                let mut t = PoseidonHashTable::<Fr>::default();
                t.stream_inputs([[Fr::from(1u64); 2]; 3].iter(), 1, 5)
            });
            m.count("failed_by_builder", r.is_err() as u64);
        }
        _ => {
            for _ in 0..4 {
                let _ = std::hint::black_box(<Fr as Hashable>::hash_with_domain([Fr::from(rng.next()), Fr::from(rng.next())], Fr::from(rng.below(3))));
            }
            m.count("native_hashes", 4);
        }
    }
}
/// One process: the jobs in some order, with or without company. Writes `job digest` lines.
pub fn history(ctx: &Ctx) -> Mon {
    let ps = params();
    let jobs = ctx.args.u64("jobs", 48) as usize;
    let only = ctx.args.get("only", "");
    let order = ctx.args.u64("order", 0);
    let mut log = std::fs::File::create(ctx.args.get("log", "/dev/stdout")).unwrap();
    let mut m = Mon::new();
    if !only.is_empty() {
        let k: usize = only.parse().unwrap();
        let j = job(ctx.seed, k, &ps);
        m.seen(&("alone", k));
        m.count("alone", 1);
        writeln!(log, "{k}\t{}\t{}", outcome(&j), name_of(&j)).unwrap();
        m.sample(|| name_of(&j));
        return m;
    }
    let threads = [1usize, 1, 2, 4, 8, 16][(order % 6) as usize];
    let lines: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
    let round = if threads == 1 { 2 } else { 3 };
    m.merge(par(threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(236887691) + 41 * order + 1000003 * tid as u64);
        for _ in 0..round {
            let mut ids: Vec<usize> = (0..jobs).collect();
            rng.shuffle(&mut ids);
            if threads > 2 {
                ids.truncate(jobs / 2);
            }
            let mut last = usize::MAX;
            for k in ids {
                for _ in 0..rng.below(3) {
                    noise(&mut rng, &ps, &mut m);
                }
                let j = job(ctx.seed, k, &ps);
                let o = outcome(&j);
                m.seen(&(order, tid, last, k));
                m.count("in_company", 1);
                lines.lock().unwrap().push((k, o, name_of(&j)));
                m.sample(|| format!("after {} others: {}", round, name_of(&j).chars().take(300).collect::<String>()));
                last = k;
            }
        }
        m
    }));
    for (k, o, n) in lines.into_inner().unwrap() {
        writeln!(log, "{k}\t{o}\t{n}").unwrap();
    }
    m
}

// ---- C18 -------------------------------------------------------------------------
/// The program on several sets of witnesses, from none known to all known.
fn layouts<F: FromUniformBytes<64> + Ord, D: Drv<F>>(m: &mut Mon, rng: &mut Rng, name: &str, prog: &Prog, times: usize, ps: &Params, w: &mut Words) {
    let mut first = None;
    for k in 0..times {
        let mut vals: Vec<Option<L4>> = (0..prog.inputs)
            .map(|_| match k {
                0 => None,
                1 => Some([0; 4]),
                2 => Some(w.word(rng)),
                _ => match rng.below(4) {
                    0 => None,
                    1 => Some([rng.below(2), 0, 0, 0]),
                    _ => Some(w.word(rng)),
                },
            })
            .collect();
        if k > 1 {
            if let Some(at) = prog.free_state(rng) {
                for (i, x) in at.into_iter().zip(oracle::gen::steer_any(ps, w, rng)) {
                    vals[i] = Some(x);
                }
                m.count("steered_states", 1);
            }
        }
        m.seen(&(name, prog, &vals));
        let known = vals.iter().filter(|v| v.is_some()).count();
        let tag = format!("{name}: {prog:?} with {known} of {} witnesses known", prog.inputs);
        let ins = vals.iter().map(|v| v.map(|v| Value::known(fe(&v))).unwrap_or(Value::unknown())).collect();
        let d = match guard(|| perm::run_with::<F, D>(prog, ins, None)) {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => {
                m.violation("synthesis-error", format!("{tag}: {e:?}"));
                return;
            }
            Err(p) => {
                m.violation("synthesis-panic", format!("{tag}: {p}"));
                return;
            }
        };
        let f = fixed_of(&d.cs, &d.rec);
        let at = (d.ins.clone(), d.outs.clone());
        let cells: Vec<Vec<usize>> = d.rec.advice.iter().map(|c| c.keys().copied().collect()).collect();
        m.count("layouts", 1);
        m.count("fixed_cells", f.fixed.iter().map(|x| x.len() as u64).sum());
        m.count("selector_rows", f.selectors.iter().map(|x| x.len() as u64).sum());
        m.count("copied_cells", f.mapping.len() as u64);
        m.count(if known == 0 { "all_unknown" } else if known == prog.inputs { "all_known" } else { "some_unknown" }, 1);
        match &first {
            None => first = Some((f, at, cells)),
            Some((a, a_at, a_cells)) => {
                if let Some(x) = differs(a, &f, true) {
                    m.violation("layout-differs", format!("{tag}: differs from the layout without witnesses in {x}"));
                } else if *a_at != at {
                    m.violation("layout-differs", format!("{tag}: inputs or outputs are elsewhere than without witnesses"));
                } else if *a_cells != cells {
                    m.violation("layout-differs", format!("{tag}: other advice cells are assigned than without witnesses"));
                }
            }
        }
    }
    m.sample(|| format!("{name}: {}", format!("{prog:?}").chars().take(200).collect::<String>()));
}
pub fn keys(ctx: &Ctx) -> Mon {
    let ps = params();
    let n = ctx.args.u64("n", if ctx.thorough { 150 } else { 14 });
    let mode = ctx.args.get("mode", "serial");
    let times = if ctx.thorough { 10 } else { 6 };
    let pallas = Params::generate(&oracle::p_pallas(), 3, 8, 56, 0).unwrap();
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(256203161) + 43 * tid as u64 + h64(&mode));
        for _ in 0..n {
            macro_rules! both {
                ($name:expr, $f:ty, $d:ty, $ps:expr, $sponge:expr) => {{
                    let ps: &Params = $ps;
                    let mut w = Words::new(&ps.f);
                    let k = *rng.pick(&[1usize, 1, 2, 3, 5, 9]);
                    let p = permutations(&mut rng, ps.t, k);
                    layouts::<$f, $d>(&mut m, &mut rng, &format!("{} ({mode})", $name), &p, times, ps, &mut w);
                    if $sponge {
                        let k = rng.range(1, 4);
                        let p = hashes(&mut rng, ps.t, k, &mut Words::new(&ps.f));
                        for op in &p.ops {
                            m.count(if matches!(op, Op::Hash(_)) { "hashes" } else { "sponges" }, 1);
                        }
                        layouts::<$f, $d>(&mut m, &mut rng, &format!("{} ({mode})", $name), &p, times, ps, &mut w);
                    }
                }};
            }
            both!("8-row chip", Fr, Sept, &ps, false);
            both!("38-row chip", Fr, Pow, &ps, false);
            both!("general chip, BN254", Fr, Gen<P128Pow5T3<Fr>, 3, 2>, &ps, true);
            both!("general chip, BN254 compact constants", Fr, Gen<P128Pow5T3Compact<Fr>, 3, 2>, &ps, true);
            install::<pasta::Fp, 3>(&pallas);
            both!("general chip, Pallas", pasta::Fp, Gen<Dyn, 3, 2>, &pallas, true);
            let (rf, rp) = (*rng.pick(&[2usize, 4, 8]), *rng.pick(&[0usize, 1, 3, 8]));
            let two = random_params(&oracle::p_bn254(), 2, rf, rp, &mut rng);
            install::<Fr, 2>(&two);
            both!("general chip, width 2", Fr, Gen<Dyn, 2, 1>, &two, true);
            let five = random_params(&oracle::p_bn254(), 5, rf, rp, &mut rng);
            install::<Fr, 5>(&five);
            both!("general chip, width 5", Fr, Gen<Dyn, 5, 4>, &five, true);
        }
        m
    })
}
