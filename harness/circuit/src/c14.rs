//! C14: hash tables as parts of a larger circuit: several tables with steps of their own in one
//! constraint system, foreign columns and regions around them, and clients that look rows up.
use crate::circ::*;
use crate::conv::{fe, l4};
use crate::Ctx;
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error, Expression, Fixed, FloorPlanner, Selector};
use halo2_proofs::poly::Rotation;
use halo2_proofs::rec::Record;
use oracle::mon::{guard, par, Mon};
use oracle::{Params, Rng, L4};
use poseidon_circuit::hash::{PoseidonHashTable, SpongeChip, SpongeConfig};
use std::cell::RefCell;
use std::collections::HashSet;

#[derive(Clone, Debug, Hash)]
struct Part {
    chip: usize,
    step: usize,
    calcs: usize,
    /// order in which the six exposed columns are taken from the constraint system
    order: Vec<usize>,
    /// foreign columns created before this part
    foreign: usize,
    /// the client multiplies the table by the enable column
    gated: bool,
    /// client rows: before or after the table is loaded
    early: bool,
    shift: usize,
}
thread_local! {
    static PLAN: RefCell<Vec<Part>> = RefCell::new(vec![]);
}
#[derive(Clone, Debug)]
enum Sponge {
    Septi(SpongeConfig<Fr, Septi>),
    Pow5(SpongeConfig<Fr, Pow5>),
}
#[derive(Clone, Debug)]
struct PartCfg {
    sponge: Sponge,
    tbl: [Column<Advice>; 6],
    q: Column<Fixed>,
    client: [Column<Advice>; 6],
    s: Selector,
    foreign: Vec<Column<Advice>>,
}
struct Multi<'a> {
    tables: Vec<&'a PoseidonHashTable<Fr>>,
    asks: Vec<Vec<[L4; 6]>>,
    load_order: Vec<usize>,
}
fn load(c: Sponge, step: usize, t: &PoseidonHashTable<Fr>, calcs: usize, l: &mut impl Layouter<Fr>) -> Result<(), Error> {
    macro_rules! d {
        ($($s:literal),*) => {
            match (c, step) {
                $((Sponge::Septi(c), $s) => SpongeChip::<Fr, $s, Septi>::construct(c, t, calcs).load(l),
                  (Sponge::Pow5(c), $s) => SpongeChip::<Fr, $s, Pow5>::construct(c, t, calcs).load(l),)*
                _ => panic!("no such configuration"),
            }
        };
    }
    d!(1, 2, 7, 31, 32, 62, 64, 300)
}
impl Circuit<Fr> for Multi<'_> {
    type Config = Vec<PartCfg>;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        unimplemented!()
    }
    fn configure(meta: &mut ConstraintSystem<Fr>) -> Self::Config {
        let plan = PLAN.with(|p| p.borrow().clone());
        plan.iter()
            .map(|p| {
                let foreign: Vec<Column<Advice>> = (0..p.foreign)
                    .map(|i| {
                        let c = meta.advice_column();
                        if i % 2 == 0 {
                            meta.enable_equality(c);
                        }
                        meta.fixed_column();
                        c
                    })
                    .collect();
                let q = meta.fixed_column();
                let raw = [0; 6].map(|_| meta.advice_column());
                let tbl = [0, 1, 2, 3, 4, 5].map(|i: usize| raw[p.order[i]]);
                let sponge = if p.chip == 0 {
                    Sponge::Septi(SpongeConfig::configure_sub(meta, (q, tbl), p.step))
                } else {
                    Sponge::Pow5(SpongeConfig::configure_sub(meta, (q, tbl), p.step))
                };
                let client = [0; 6].map(|_| meta.advice_column());
                let s = meta.complex_selector();
                meta.lookup_any("client", |meta| {
                    let s = meta.query_selector(s);
                    let q = meta.query_fixed(q, Rotation::cur());
                    (0..6)
                        .map(|i| {
                            let t = meta.query_advice(tbl[i], Rotation::cur());
                            let t = if p.gated { q.clone() * t } else { t };
                            (s.clone() * meta.query_advice(client[i], Rotation::cur()), t)
                        })
                        .collect::<Vec<(Expression<Fr>, Expression<Fr>)>>()
                });
                PartCfg { sponge, tbl, q, client, s, foreign }
            })
            .collect()
    }
    fn synthesize(&self, cs: Self::Config, mut layouter: impl Layouter<Fr>) -> Result<(), Error> {
        let plan = PLAN.with(|p| p.borrow().clone());
        for &k in &self.load_order {
            let (p, c) = (&plan[k], &cs[k]);
            if p.shift > 0 {
                layouter.assign_region(
                    || "other",
                    |mut r| {
                        for (j, col) in c.tbl.iter().enumerate() {
                            r.assign_advice(|| "other", *col, p.shift - 1, || Value::known(Fr::from(if j == 5 { 0 } else { 7 + j as u64 })))?;
                        }
                        Ok(())
                    },
                )?;
            }
            for late in [false, true] {
                if late != p.early {
                    layouter.assign_region(
                        || "client",
                        |mut r| {
                            for (i, a) in self.asks[k].iter().enumerate() {
                                c.s.enable(&mut r, i)?;
                                for j in 0..6 {
                                    r.assign_advice(|| "ask", c.client[j], i, || Value::known(fe::<Fr>(&a[j])))?;
                                }
                            }
                            for (i, col) in c.foreign.iter().enumerate() {
                                r.assign_advice(|| "foreign", *col, 3 * i, || Value::known(Fr::from(99)))?;
                            }
                            Ok(())
                        },
                    )?;
                }
                if !late {
                    load(c.sponge.clone(), p.step, self.tables[k], p.calcs, &mut layouter)?;
                }
            }
        }
        Ok(())
    }
}

struct Made {
    cs: ConstraintSystem<Fr>,
    rec: Record<Fr>,
    cfg: Vec<PartCfg>,
}
fn make(plan: &[Part], c: &Multi) -> Result<Made, Error> {
    PLAN.with(|p| *p.borrow_mut() = plan.to_vec());
    let mut cs = ConstraintSystem::default();
    let cfg = Multi::configure(&mut cs);
    for p in &cfg {
        let (cols, idx) = match &p.sponge {
            Sponge::Septi(s) => (s.hash_tbl_cols(), s.commitment_index()),
            Sponge::Pow5(s) => (s.hash_tbl_cols(), s.commitment_index()),
        };
        if cols != p.tbl || idx != p.tbl.map(|c| c.index()) {
            panic!("the configuration reports columns {cols:?} / {idx:?} instead of {:?}", p.tbl);
        }
    }
    let mut rec = Record::new(&cs, None);
    let consts = cs.constants.clone();
    SimpleFloorPlanner::synthesize(&cs, &mut rec, &[], c, cfg.clone(), consts)?;
    Ok(Made { cs, rec, cfg })
}

pub fn run(ctx: &Ctx) -> Mon {
    let mode = ctx.args.get("mode", "serial");
    let ps = params();
    let n = ctx.args.u64("n", if ctx.thorough { 500 } else { 36 });
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(15485863) + 37 * tid as u64 + mode.len() as u64);
        for _ in 0..n {
            one(ctx, &mut m, &mut rng, &ps, &mode);
        }
        m
    })
}

fn one(ctx: &Ctx, m: &mut Mon, rng: &mut Rng, ps: &Params, mode: &str) {
    let mut g = TableGen::new(ps);
    let parts = *rng.pick(&[1usize, 2, 2, 2, 3]);
    let mut plan = vec![];
    let mut calls = vec![];
    for _ in 0..parts {
        let chip = if rng.chance(1, 4) { 1 } else { 0 };
        let step = *rng.pick(&STEPS);
        let size = rng.range(0, if chip == 1 { 6 } else { 14 });
        let cs = g.calls(rng, size, step, true, true);
        let rows = model(&cs).len();
        let mut order: Vec<usize> = (0..6).collect();
        if rng.chance(2, 3) {
            for i in (1..6).rev() {
                order.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
        plan.push(Part {
            chip,
            step,
            calcs: rows + rng.range(1, 6),
            order,
            foreign: rng.below(4) as usize,
            gated: rng.chance(1, 2),
            early: rng.chance(1, 2),
            shift: if rng.chance(1, 3) { rng.range(1, 7) } else { 0 },
        });
        calls.push(cs);
    }
    let mut load_order: Vec<usize> = (0..parts).collect();
    if rng.chance(1, 2) {
        load_order.reverse();
    }
    let tag = format!(
        "{mode}, {parts} tables loaded in order {load_order:?}: {}",
        plan.iter().zip(&calls).map(|(p, c)| format!("{p:?} [{}]", show_calls(c))).collect::<Vec<_>>().join("; ")
    );
    let tables = match guard(|| calls.iter().map(|c| build(c)).collect::<Vec<_>>()) {
        Ok(t) => t,
        Err(p) => return m.violation("builder-panic", format!("{tag}: {p}")),
    };
    // what each table shows
    let shown: Vec<Vec<[L4; 6]>> = (0..parts)
        .map(|k| {
            let rows = model(&calls[k]);
            let d = digests(ps, &rows);
            let pad = ps.hash2(&[0; 4], &[0; 4], &[0; 4]);
            let mut v = vec![[[0; 4]; 6]];
            for i in 0..plan[k].calcs {
                v.push(if i < rows.len() { expected(ps, &rows[i], &d[i]) } else { expected(ps, &ZROW, &pad) });
            }
            v
        })
        .collect();
    let mut asks: Vec<Vec<[L4; 6]>> = (0..parts).map(|k| (0..rng.range(0, 12)).map(|_| *rng.pick(&shown[k][1..])).collect()).collect();
    if asks.iter().all(|a| a.is_empty()) {
        asks[0].push(shown[0][1]);
    }
    m.seen(&(&plan, &calls, &load_order, &asks));
    m.sample(|| tag.clone());
    let c = Multi { tables: tables.iter().collect(), asks: asks.clone(), load_order: load_order.clone() };
    let s = match guard(|| make(&plan, &c)) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return m.violation("synthesis-error", format!("{tag}: {e:?}")),
        Err(p) => return m.violation("synthesis-panic", format!("{tag}: {p}")),
    };
    m.count("circuits", 1);
    m.count("tables", parts as u64);
    m.count("lookups_asked", asks.iter().map(|a| a.len() as u64).sum());
    for k in 0..parts {
        let q = s.cfg[k].q.index();
        let on: Vec<usize> = s.rec.fixed[q].iter().filter(|(_, v)| **v != Fr::zero()).map(|(r, _)| *r).collect();
        let base = on.first().map(|r| r.saturating_sub(1)).unwrap_or(0);
        if on != (base + 1..=base + plan[k].calcs).collect::<Vec<_>>() {
            m.violation("enabled-rows", format!("{tag}: table {k} is enabled on {on:?}"));
            return;
        }
        for (i, want) in shown[k].iter().enumerate() {
            for j in 0..6 {
                let got = s.rec.advice[s.cfg[k].tbl[j].index()].get(&(base + i)).copied().flatten().map(|v| l4(&v));
                m.count("cells_compared", 1);
                if got != Some(want[j]) {
                    m.violation("table-content", format!("{tag}: table {k} row {i} column {j} holds {got:?}, expected {:?}", want[j]));
                    return;
                }
            }
        }
        // nobody writes the columns of others
        for (i, col) in s.cfg[k].foreign.iter().enumerate() {
            let cells: Vec<usize> = s.rec.advice[col.index()].keys().copied().collect();
            if cells != vec![3 * i] {
                m.violation("foreign-column", format!("{tag}: a column that is no part of table {k} has cells at {cells:?}"));
            }
        }
    }
    let p = prover(s.cs, s.rec);
    if let Err(f) = p.verify() {
        m.violation("unsatisfied", format!("{tag}: {} failures, first {:?}", f.len(), f[0]));
        return;
    }
    m.count("satisfied", 1);
    // a client that asks for something no table row shows is refused
    for _ in 0..(if ctx.thorough { 6 } else { 3 }) {
        let k = rng.below(parts as u64) as usize;
        if asks[k].is_empty() {
            continue;
        }
        let i = rng.below(asks[k].len() as u64) as usize;
        let mut a = asks[k][i];
        let j = rng.below(6) as usize;
        a[j] = match rng.below(5) {
            0 => g.word(rng),
            1 => ps.addc(&a[j], &[1, 0, 0, 0]),
            2 => shown[k][rng.below(shown[k].len() as u64) as usize][j],
            3 => {
                let o = rng.below(parts as u64) as usize;
                shown[o][rng.below(shown[o].len() as u64) as usize][j]
            }
            _ => [0; 4],
        };
        let known: HashSet<&[L4; 6]> = shown[k].iter().collect();
        // rows of the table's columns outside the table (an unrelated region) are not hashes either,
        // but a client that does not look at the enable column may see them
        if known.contains(&a) || (!plan[k].gated && plan[k].shift > 0) {
            continue;
        }
        let mut asks2 = asks.clone();
        asks2[k][i] = a;
        let c = Multi { tables: tables.iter().collect(), asks: asks2, load_order: load_order.clone() };
        let Ok(Ok(s2)) = guard(|| make(&plan, &c)) else {
            m.violation("synthesis-error", format!("{tag}: a client asking for another row stops the synthesis"));
            continue;
        };
        m.count("false_lookups_judged", 1);
        if prover(s2.cs, s2.rec).verify().is_ok() {
            m.violation("false-lookup", format!("{tag}: a client looked {a:?} up in table {k}, which has no such row"));
        }
    }
}
