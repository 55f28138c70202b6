//! C11 (row budget) and C13 (build switches), through the crate's own default chip.
use crate::circ::*;
use crate::conv::{fe, l4};
use crate::{set_mode, Ctx};
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error, Fixed, FloorPlanner};
use halo2_proofs::rec::Record;
use oracle::mon::{guard, h64, par, Mon};
use oracle::{Rng, L4};
use poseidon_circuit::hash::{MessageHashable, PoseidonHashChip, PoseidonHashConfig, PoseidonHashTable};
use poseidon_circuit::Hashable;

/// The hash circuit as a user writes it, with the default chip.
pub struct Plain<'a, const STEP: usize>(pub &'a PoseidonHashTable<Fr>, pub usize);
impl<const STEP: usize> Circuit<Fr> for Plain<'_, STEP> {
    type Config = (PoseidonHashConfig<Fr>, Column<Fixed>, [Column<Advice>; 6]);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        unimplemented!()
    }
    fn configure(meta: &mut ConstraintSystem<Fr>) -> Self::Config {
        let q = meta.fixed_column();
        let t = [0; 6].map(|_| meta.advice_column());
        (PoseidonHashConfig::configure_sub(meta, (q, t), STEP), q, t)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        let _ = Value::known(0);
        PoseidonHashChip::<Fr, STEP>::construct(c.0, self.0, self.1).load(&mut l)
    }
}
fn with<const STEP: usize>(t: &PoseidonHashTable<Fr>, calcs: usize, limit: Option<usize>) -> Result<Synth, Error> {
    let mut cs = ConstraintSystem::default();
    let cfg = <Plain<STEP> as Circuit<Fr>>::configure(&mut cs);
    let (tbl, q) = (cfg.2.map(|c| c.index()), cfg.1.index());
    let mut rec = Record::new(&cs, limit);
    let consts = cs.constants.clone();
    SimpleFloorPlanner::synthesize(&cs, &mut rec, &[], &Plain::<STEP>(t, calcs), cfg, consts)?;
    let base = rec.fixed[q].iter().find(|(_, v)| **v != Fr::zero()).map(|(r, _)| r.saturating_sub(1)).unwrap_or(0);
    Ok(Synth { cs, rec, tbl, q, base })
}
/// Synthesize with the default chip.
pub fn plain(step: usize, t: &PoseidonHashTable<Fr>, calcs: usize, limit: Option<usize>) -> Result<Synth, Error> {
    match step {
        1 => with::<1>(t, calcs, limit),
        2 => with::<2>(t, calcs, limit),
        32 => with::<32>(t, calcs, limit),
        62 => with::<62>(t, calcs, limit),
        _ => panic!("step"),
    }
}
pub const PSTEPS: [usize; 4] = [1, 2, 32, 62];
/// Rows that regions reach.
fn reach(s: &Synth) -> usize {
    s.rec.regions.iter().filter(|r| r.rows > 0).map(|r| r.start + r.rows).max().unwrap_or(0).max(
        s.rec.advice.iter().filter_map(|m| m.keys().next_back()).max().map(|x| x + 1).unwrap_or(0),
    )
}

pub fn run(ctx: &Ctx) -> Mon {
    let mode = ctx.args.get("mode", "serial");
    // the known budget defect of the raw build: 9 rows advertised, 38 taken, nothing worse
    let raw = ctx.args.get("key", "") == "raw-build-budget";
    let ps = params();
    let n = ctx.args.u64("n", if ctx.thorough { 1500 } else { 120 });
    let block = <Fr as Hashable>::hash_block_size();
    let key_for = |calcs: usize, r: usize| if raw && block == 9 && r <= calcs * 38 + 1 { "raw-build-budget" } else { "over-budget" };
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(141650963) + 23 * tid as u64 + h64(&mode));
        let mut g = TableGen::new(&ps);
        for _ in 0..n {
            let step = *rng.pick(&PSTEPS);
            let size = match rng.below(5) {
                0 => 1,
                1 | 2 => rng.range(2, 12),
                3 => rng.range(10, 40),
                _ => rng.range(30, if ctx.thorough { 400 } else { 110 }),
            };
            let calls = g.calls(&mut rng, size, step, true, true);
            let Ok(t) = guard(|| build(&calls)) else {
                m.violation("builder-panic", format!("[{}]", show_calls(&calls)));
                continue;
            };
            let rows = model(&calls).len();
            let need = t.minimum_row_require();
            let tag = format!("step {step} {mode} {rows} entries [{}]", show_calls(&calls));
            if need != rows * block || t.table_size() != rows {
                m.violation("row-requirement", format!("{tag}: minimum_row_require is {need}, entries x rows per permutation {}", rows * block));
            }
            for calcs in [rows, rows + *rng.pick(&[1usize, 2, 7, 33])] {
                m.seen(&(step, calcs, &calls));
                // rows for the hashes, the reserved first row, and the range table if longer
                let budget = calcs * block + 1;
                let limit = budget.max(step + 1);
                match guard(|| plain(step, &t, calcs, Some(limit))) {
                    Ok(Ok(s)) => {
                        let r = reach(&s);
                        m.count("syntheses", 1);
                        m.count("rows_used", r as u64);
                        m.count("rows_budgeted", budget as u64);
                        m.max("max_rows_per_hash_x100", ((r - 1) * 100 / calcs) as u64);
                        if r > budget {
                            m.violation(key_for(calcs, r), format!("{tag}: capacity {calcs} reaches row {r}, advertised {block} rows per permutation"));
                        }
                    }
                    Ok(Err(Error::NotEnoughRowsAvailable { .. })) => {
                        let wide = (calcs * 38 + 1).max(step + 1);
                        let r = match guard(|| plain(step, &t, calcs, Some(wide))) {
                            Ok(Ok(s)) => reach(&s),
                            _ => usize::MAX,
                        };
                        m.violation(key_for(calcs, r), format!("{tag}: capacity {calcs} does not fit {limit} rows ({block} per permutation)"));
                    }
                    Ok(Err(e)) => m.violation("synthesis-error", format!("{tag}: {e:?}")),
                    Err(p) => m.violation("synthesis-panic", format!("{tag}: {p}")),
                }
            }
            m.sample(|| tag.clone());
        }
        m
    })
}

/// Everything a build switch selects, read off the built crate.
pub fn switches(ctx: &Ctx) -> Mon {
    let mut m = Mon::new();
    let short = cfg!(feature = "short") || cfg!(feature = "circuit_default");
    let legacy = cfg!(feature = "legacy") || cfg!(feature = "base_legacy");
    let parallel = cfg!(feature = "parallel_syn");
    let name = ctx.args.get("config", "?");
    let ps = params();
    let want_factor: u128 = if legacy { 1 } else { 1 << 64 };
    let mut rng = Rng::new(ctx.seed.wrapping_mul(160481183) + h64(&name));
    let mut g = TableGen::new(&ps);
    // keys of facts that depend on one switch carry its name
    // the known defect: `legacy` selected on the circuit crate only, everything behaves as if it were not
    let known = cfg!(feature = "legacy") && !cfg!(feature = "base_legacy");
    let fct = |as_if_not: bool| if known && as_if_not { "legacy-switch-dead" } else { "domain-factor" };
    // 1. rows advertised and used
    let block = <Fr as Hashable>::hash_block_size();
    m.seen(&("block", &name));
    if block != if short { 9 } else { 38 } {
        m.violation(if !short && block == 9 { "raw-build-rows" } else { "rows-advertised" }, format!("{name}: {block} rows advertised per permutation"));
    }
    set_mode("serial");
    let mut used = vec![];
    for calcs in [4usize, 5, 9] {
        let t = PoseidonHashTable::default();
        match guard(|| plain(32, &t, calcs, None)) {
            Ok(Ok(s)) => used.push((calcs, reach(&s))),
            x => m.violation("default-chip-fails", format!("{name}: capacity {calcs}: {:?}", x.map(|r| r.map(|_| ())))),
        }
        m.seen(&("rows", &name, calcs));
    }
    for w in used.windows(2) {
        let per = (w[1].1 - w[0].1) / (w[1].0 - w[0].0);
        m.max("max_rows_per_permutation", per as u64);
        let ok = if short { per == 8 || per == 9 } else { per == 38 };
        if !ok {
            m.violation("chip-selected", format!("{name}: the default chip takes {per} rows per permutation"));
        }
    }
    // 2. domain factor: the shown control, the range table, the native default
    for k in 0..if ctx.thorough { 400 } else { 60 } {
        let step = *rng.pick(&PSTEPS);
        let n = rng.range(1, 7);
        let words: Vec<[L4; 2]> = (0..n).map(|_| [g.word(&mut rng), g.word(&mut rng)]).collect();
        let ctrl = ctrl_for(&mut rng, n, step).max(1);
        let call = Call::Stream { words: words.clone(), ctrl, step, check: None, with: false };
        let t = build(&[call]);
        for mode in ["serial", "parallel", "unset", "nonsense", ""] {
            set_mode(mode);
            let s = match guard(|| plain(step, &t, n + 1, None)) {
                Ok(Ok(s)) => s,
                x => {
                    m.violation("default-chip-fails", format!("{name} mode {mode:?}: {:?}", x.map(|r| r.map(|_| ()))));
                    continue;
                }
            };
            m.seen(&(&name, k, mode));
            m.count("circuits", 1);
            let workers = s.rec.regions.iter().filter(|r| r.worker).count();
            // the override is documented for `serial`; anything else keeps the switch's default
            let want = parallel && mode != "serial";
            if (workers > 0) != want {
                m.violation("parallel-switch", format!("{name}: CIRCUIT_ASSIGNMENT_TYPE={mode:?} gives {workers} workers"));
            }
            let shown = row_at(&s, s.base + 1)[3];
            let f = &ps.f;
            let c = f.dec(&f.from_u128(ctrl as u128 * want_factor));
            if shown != Some(c) {
                m.violation(fct(shown == Some(f.dec(&f.from_u128((ctrl as u128) << 64)))), format!("{name}: a message with control {ctrl} is shown with {:?}", shown.map(|x| oracle::hex(&x))));
            }
            // the digest shown is the native one, with the native default where it applies
            let msg: Vec<Fr> = words.iter().flatten().map(fe::<Fr>).collect();
            let nat = l4(&Fr::hash_msg(&msg, Some(ctrl as u128 * want_factor)));
            let digest = row_at(&s, s.base + 1)[0];
            if digest != Some(nat) {
                let other = l4(&Fr::hash_msg(&msg, Some((ctrl as u128) << 64)));
                m.violation(fct(digest == Some(other)), format!("{name}: the circuit's digest of a message with control {ctrl} is not the native one"));
            }
            if ctrl as usize == 2 * n {
                m.count("native_default_capacity_compared", 1);
            }
            let p = prover(s.cs, s.rec);
            m.count("verified", 1);
            if let Err(e) = p.verify() {
                m.violation("unsatisfied", format!("{name} mode {mode:?} step {step}: first {:?}", e[0]));
            }
        }
        // native default capacity: the length times the same factor
        let msg: Vec<L4> = words.iter().flatten().copied().collect();
        let fm: Vec<Fr> = msg.iter().map(fe::<Fr>).collect();
        let got = l4(&Fr::hash_msg(&fm, None));
        let want = ps.hash_msg(&msg, msg.len() as u128 * want_factor);
        m.count("native_defaults_compared", 1);
        if got != want {
            m.violation(fct(got == ps.hash_msg(&msg, (msg.len() as u128) << 64)), format!("{name}: the native default capacity of {} words is not {} x {want_factor}", msg.len(), msg.len()));
        }
        // a whole circuit for that default capacity, if it is a possible control
        let ctrl = msg.len() as u64;
        if step == 2 {
            let t = build(&[Call::Stream { words: words.clone(), ctrl, step: 2, check: None, with: false }]);
            set_mode("serial");
            if let Ok(Ok(s)) = guard(|| plain(2, &t, n + 1, None)) {
                m.count("default_capacity_circuits", 1);
                if row_at(&s, s.base + 1)[0] != Some(got) {
                    m.violation("domain-factor", format!("{name}: a message of {} words hashes to different digests natively by default and in the circuit", msg.len()));
                }
            }
        }
    }
    m.sample(|| format!("{name}: block {block}, rows used {used:?}, short {short} legacy {legacy} parallel {parallel}"));
    m
}
