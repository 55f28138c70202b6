//! The hash circuit under test, synthesized into a record, and the model of its table.
use crate::conv::{fe, l4};
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error, Fixed, FloorPlanner};
use halo2_proofs::rec::{Fault, Record};
use oracle::gen::Words;
use oracle::{Params, Rng, L4};
use poseidon_circuit::hash::{PoseidonHashTable, SpongeChip, SpongeConfig};
use poseidon_circuit::poseidon::{PermuteChip, Pow5Chip, SeptidonChip};
use poseidon_circuit::Hashable;
use std::marker::PhantomData;
use std::sync::Arc;

pub type FrSpec = <Fr as Hashable>::SpecType;
pub type Pow5 = Pow5Chip<Fr, 3, 2>;
pub type Septi = SeptidonChip;

/// The domain factor of controls and capacities in this build.
pub fn factor() -> u128 {
    if cfg!(feature = "base_legacy") {
        1
    } else {
        1 << 64
    }
}
pub fn params() -> Params {
    Params::generate(&oracle::p_bn254(), 3, 8, 57, 0).unwrap()
}

pub struct TableCirc<'a, F: Hashable, PC, const STEP: usize> {
    pub table: &'a PoseidonHashTable<F>,
    pub calcs: usize,
    /// rows of an unrelated region placed over the table columns first
    pub shift: usize,
    pub _p: PhantomData<PC>,
}
#[derive(Clone, Debug)]
pub struct Cfg<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>> {
    sponge: SpongeConfig<F, PC>,
    tbl: [Column<Advice>; 6],
    q: Column<Fixed>,
}
impl<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize> Circuit<F> for TableCirc<'_, F, PC, STEP>
where
    PC::Config: Sync,
{
    type Config = Cfg<F, PC>;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        unimplemented!()
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Cfg<F, PC> {
        let q = meta.fixed_column();
        let tbl = [0; 6].map(|_| meta.advice_column());
        Cfg { sponge: SpongeConfig::configure_sub(meta, (q, tbl), STEP), tbl, q }
    }
    fn synthesize(&self, c: Cfg<F, PC>, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        if self.shift > 0 {
            layouter.assign_region(
                || "other",
                |mut r| {
                    for (j, col) in c.tbl.iter().enumerate() {
                        r.assign_advice(|| "other", *col, self.shift - 1, || Value::known(F::from(if j == 5 { 0 } else { 7 + j as u64 })))?;
                    }
                    Ok(())
                },
            )?;
        }
        SpongeChip::<F, STEP, PC>::construct(c.sponge, self.table, self.calcs).load(&mut layouter)
    }
}

pub struct Synth<F: Hashable = Fr> {
    pub cs: ConstraintSystem<F>,
    pub rec: Record<F>,
    /// advice indices of the exposed columns
    pub tbl: [usize; 6],
    pub q: usize,
    /// row of the zero row before the first entry
    pub base: usize,
}
pub fn run_synth<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(t: &PoseidonHashTable<F>, calcs: usize, shift: usize, limit: Option<usize>, fault: Option<Arc<Fault>>) -> Result<Synth<F>, Error>
where
    PC::Config: Sync,
{
    let mut cs = ConstraintSystem::default();
    let cfg = <TableCirc<F, PC, STEP> as Circuit<F>>::configure(&mut cs);
    // the columns the configuration reports are the ones it was given
    let reported = cfg.sponge.hash_tbl_cols();
    if reported != cfg.tbl || cfg.sponge.commitment_index() != cfg.tbl.map(|c| c.index()) {
        panic!("the configuration reports columns {reported:?} / {:?} instead of {:?}", cfg.sponge.commitment_index(), cfg.tbl);
    }
    let tbl = cfg.tbl.map(|c| c.index());
    let q = cfg.q.index();
    let mut rec = Record::new(&cs, limit);
    rec.fault = fault;
    let c = TableCirc::<F, PC, STEP> { table: t, calcs, shift, _p: PhantomData };
    let consts = cs.constants.clone();
    SimpleFloorPlanner::synthesize(&cs, &mut rec, &[], &c, cfg, consts)?;
    let base = rec.fixed[q].iter().find(|(_, v)| **v != F::ZERO).map(|(r, _)| r.saturating_sub(1)).unwrap_or(0);
    Ok(Synth { cs, rec, tbl, q, base })
}
pub const STEPS: [usize; 8] = [1, 2, 7, 31, 32, 62, 64, 300];

/// chip 0: 8 rows; 1: 38 rows.
pub fn synth(chip: usize, step: usize, t: &PoseidonHashTable<Fr>, calcs: usize, shift: usize, limit: Option<usize>) -> Result<Synth, Error> {
    synth_with(chip, step, t, calcs, shift, limit, None)
}
pub fn synth_with(chip: usize, step: usize, t: &PoseidonHashTable<Fr>, calcs: usize, shift: usize, limit: Option<usize>, fault: Option<Arc<Fault>>) -> Result<Synth, Error> {
    macro_rules! d {
        ($($s:literal),*) => {
            match (chip, step) {
                $((0, $s) => run_synth::<Fr, Septi, $s>(t, calcs, shift, limit, fault),
                  (1, $s) => run_synth::<Fr, Pow5, $s>(t, calcs, shift, limit, fault),)*
                _ => panic!("no such configuration"),
            }
        };
    }
    d!(1, 2, 7, 31, 32, 62, 64, 300)
}
/// A mock prover large enough for the record.
pub fn prover<F: Hashable>(cs: ConstraintSystem<F>, rec: Record<F>) -> MockProver<F> {
    let fill = rec.fixed.iter().filter_map(|m| m.keys().next_back()).max().map(|x| x + 1).unwrap_or(0);
    let need = rec.rows_used().max(fill) + cs.blinding_factors() + 2;
    let mut k = 3;
    while (1usize << k) < need {
        k += 1;
    }
    MockProver::from_record(k, cs, rec, vec![])
}

// ---- the model of a table --------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Row {
    pub w: [L4; 2],
    pub ctrl: u64,
    pub dom: L4,
    pub head: bool,
    /// what the builder was told to expect
    pub check: Option<L4>,
}
pub fn ctrl_field(ps: &Params, c: u64) -> L4 {
    ps.f.dec(&ps.f.from_u128(c as u128 * factor()))
}
pub const ZROW: Row = Row { w: [[0; 4]; 2], ctrl: 0, dom: [0; 4], head: true, check: None };

/// Final digest of every row's message.
pub fn digests(ps: &Params, rows: &[Row]) -> Vec<L4> {
    let mut out = vec![[0; 4]; rows.len()];
    let mut i = 0;
    while i < rows.len() {
        let mut j = i + 1;
        while j < rows.len() && !rows[j].head {
            j += 1;
        }
        let d = digest(ps, &rows[i..j]);
        out[i..j].iter_mut().for_each(|x| *x = d);
        i = j;
    }
    out
}
/// Digest of one message given by its rows (the domain of a row enters at that row).
pub fn digest(ps: &Params, rows: &[Row]) -> L4 {
    let mut st = [ctrl_field(ps, rows[0].ctrl), [0; 4], [0; 4]];
    for r in rows {
        st[0] = ps.addc(&st[0], &r.dom);
        st[1] = ps.addc(&st[1], &r.w[0]);
        st[2] = ps.addc(&st[2], &r.w[1]);
        st = ps.permute3(&st);
    }
    st[0]
}
/// One builder call.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    Constant(Vec<[L4; 2]>),
    ConstantCheck(Vec<([L4; 2], L4)>),
    Fixed(Vec<([L4; 2], L4, Option<L4>)>),
    Stream { words: Vec<[L4; 2]>, ctrl: u64, step: usize, check: Option<L4>, with: bool },
}
impl Call {
    pub fn rows(&self) -> Vec<Row> {
        match self {
            Call::Constant(v) => v.iter().map(|w| Row { w: *w, ..ZROW }).collect(),
            Call::ConstantCheck(v) => v.iter().map(|(w, c)| Row { w: *w, check: Some(*c), ..ZROW }).collect(),
            Call::Fixed(v) => v.iter().map(|(w, d, c)| Row { w: *w, dom: *d, check: *c, ..ZROW }).collect(),
            Call::Stream { words, ctrl, step, check, .. } => (0..words.len())
                .map(|i| Row {
                    w: words[i],
                    ctrl: ctrl - (i * step) as u64,
                    dom: [0; 4],
                    head: i == 0,
                    check: if i + 1 == words.len() { *check } else { None },
                })
                .collect(),
        }
    }
    #[allow(deprecated)]
    pub fn apply<F: Hashable>(&self, t: &mut PoseidonHashTable<F>) {
        match self {
            Call::Constant(v) => {
                let x: Vec<[F; 2]> = v.iter().map(|w| [fe(&w[0]), fe(&w[1])]).collect();
                t.constant_inputs(x.iter())
            }
            Call::ConstantCheck(v) => {
                let x: Vec<(F, F, F)> = v.iter().map(|(w, c)| (fe(&w[0]), fe(&w[1]), fe(c))).collect();
                t.constant_inputs_with_check(x.iter())
            }
            Call::Fixed(v) => {
                let x: Vec<([F; 2], F, Option<F>)> = v.iter().map(|(w, d, c)| ([fe(&w[0]), fe(&w[1])], fe(d), c.as_ref().map(fe))).collect();
                t.fixed_inputs(x.iter())
            }
            Call::Stream { words, ctrl, step, check, with } => {
                let x: Vec<[F; 2]> = words.iter().map(|w| [fe(&w[0]), fe(&w[1])]).collect();
                if *with {
                    t.stream_inputs_with_check(x.iter(), check.as_ref().map(fe), *ctrl, *step)
                } else {
                    t.stream_inputs(x.iter(), *ctrl, *step)
                }
            }
        }
    }
}
/// A starting control that exactly covers `n` rows.
pub fn ctrl_for(rng: &mut Rng, n: usize, step: usize) -> u64 {
    let lo = ((n - 1) * step) as u64 + if n > 1 { 1 } else { 0 };
    let hi = (n * step) as u64;
    match rng.below(4) {
        0 => lo,
        1 => hi,
        _ => lo + rng.below(hi - lo + 1),
    }
}
pub struct TableGen<'a> {
    pub ps: &'a Params,
    pub w: Words,
}
impl<'a> TableGen<'a> {
    pub fn new(ps: &'a Params) -> Self {
        TableGen { ps, w: Words::new(&ps.f) }
    }
    pub fn word(&mut self, rng: &mut Rng) -> L4 {
        let x = self.w.word(rng);
        if rng.chance(1, 4) {
            self.w.remember(x, rng);
        }
        x
    }
    pub fn dom(&mut self, rng: &mut Rng) -> L4 {
        match rng.below(6) {
            0 | 1 => [0; 4],
            2 => [1 + rng.below(8), 0, 0, 0],
            3 => self.ps.f.reduce(&[256, 0, 0, 0]),
            4 => self.w.word(rng),
            _ => self.ps.f.reduce(&[rng.below(1 << 40), rng.below(3), 0, 0]),
        }
    }
    /// A random call sequence of about `n` rows; `checks`: right expectations included.
    pub fn calls(&mut self, rng: &mut Rng, n: usize, step: usize, checks: bool, deprecated: bool) -> Vec<Call> {
        let mut out: Vec<Call> = vec![];
        let mut left = n;
        while left > 0 {
            let k = match rng.below(8) {
                0..=3 => rng.range(1, left.min(3)),
                4..=6 => rng.range(1, left.min(9)),
                _ => rng.range(1, left),
            };
            let kind = rng.below(if deprecated { 8 } else { 6 });
            let pair = |g: &mut Self, rng: &mut Rng| {
                if rng.chance(1, 12) {
                    [[0; 4]; 2]
                } else {
                    [g.word(rng), g.word(rng)]
                }
            };
            match kind {
                0 | 1 | 2 => {
                    let mut words: Vec<[L4; 2]> = (0..k).map(|_| pair(self, rng)).collect();
                    let ctrl = ctrl_for(rng, k, step);
                    if k > 1 && rng.chance(1, 5) {
                        // words that cancel what the previous block left
                        let f = &self.ps.f;
                        let mut st = [ctrl_field(self.ps, ctrl), [0; 4], [0; 4]];
                        for w in words.iter_mut() {
                            for (i, x) in w.iter_mut().enumerate() {
                                if rng.chance(1, 2) {
                                    *x = f.neg(&st[1 + i]);
                                }
                                st[1 + i] = self.ps.addc(&st[1 + i], x);
                            }
                            st = self.ps.permute3(&st);
                        }
                    }
                    let mut c = Call::Stream { words, ctrl, step, check: None, with: rng.chance(1, 2) };
                    if checks && rng.chance(1, 2) {
                        let d = digest(self.ps, &c.rows());
                        if let Call::Stream { check, with, .. } = &mut c {
                            *check = Some(d);
                            *with = true;
                        }
                    }
                    out.push(c);
                }
                3 | 4 | 5 => {
                    let v = (0..k)
                        .map(|_| {
                            let (mut w, mut d) = (pair(self, rng), self.dom(rng));
                            if rng.chance(1, 6) {
                                // a chosen state somewhere inside: the digest, or the words
                                // in some round
                                let s = if rng.chance(1, 2) {
                                    let mut o = [self.w.word(rng), self.w.word(rng), self.w.word(rng)];
                                    o[rng.below(3) as usize] = [[0; 4], [1, 0, 0, 0], d, w[0]][rng.below(4) as usize];
                                    oracle::gen::steer(self.ps, &o, self.ps.rounds())
                                } else {
                                    oracle::gen::steer_any(self.ps, &mut self.w, rng)
                                };
                                (w, d) = ([s[1], s[2]], s[0]);
                            }
                            let c = if checks && rng.chance(1, 2) { Some(self.ps.hash2(&w[0], &w[1], &d)) } else { None };
                            (w, d, c)
                        })
                        .collect();
                    out.push(Call::Fixed(v));
                }
                6 => {
                    let v = (0..k).map(|_| pair(self, rng)).collect();
                    out.push(Call::Constant(v));
                }
                _ => {
                    let v = (0..k)
                        .map(|_| {
                            let w = pair(self, rng);
                            (w, self.ps.hash2(&w[0], &w[1], &[0; 4]))
                        })
                        .collect();
                    out.push(Call::ConstantCheck(v));
                }
            }
            left -= k;
        }
        out
    }
}
pub fn build(calls: &[Call]) -> PoseidonHashTable<Fr> {
    build_in(calls)
}
pub fn build_in<F: Hashable>(calls: &[Call]) -> PoseidonHashTable<F> {
    let mut t = PoseidonHashTable::default();
    for c in calls {
        c.apply(&mut t);
    }
    t
}
pub fn model(calls: &[Call]) -> Vec<Row> {
    calls.iter().flat_map(|c| c.rows()).collect()
}
/// The six exposed values of a table row.
pub fn expected(ps: &Params, r: &Row, digest: &L4) -> [L4; 6] {
    [*digest, r.w[0], r.w[1], ctrl_field(ps, r.ctrl), r.dom, [r.head as u64, 0, 0, 0]]
}
pub fn row_at<F: Hashable>(s: &Synth<F>, row: usize) -> [Option<L4>; 6] {
    s.tbl.map(|c| s.rec.advice[c].get(&row).copied().flatten().map(|v| l4(&v)))
}
pub fn show_calls(c: &[Call]) -> String {
    let v: Vec<String> = c
        .iter()
        .map(|c| match c {
            Call::Constant(v) => format!("constant x{}", v.len()),
            Call::ConstantCheck(v) => format!("constant_check x{}", v.len()),
            Call::Fixed(v) => format!("fixed x{}", v.len()),
            Call::Stream { words, ctrl, step, with, .. } => format!("stream x{} ctrl {ctrl} step {step}{}", words.len(), if *with { " checked" } else { "" }),
        })
        .collect();
    v.join(", ")
}
