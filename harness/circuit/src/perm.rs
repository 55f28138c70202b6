//! Small circuits around the permutation chips and the in-circuit sponge, described by
//! programs over cells, with the values every cell must have.
use crate::conv::{fe, l4};
use ff::{FromUniformBytes, PrimeField};
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error, FloorPlanner};
use halo2_proofs::rec::{Fault, Record};
use oracle::{Params, Rng, L4};
use poseidon_base::primitives::{Absorbing, ConstantLength, Mds, Spec, Squeezing};
use poseidon_circuit::poseidon::{Hash, PaddedWord, PermuteChip, PoseidonInstructions, Pow5Chip, Pow5Config, SeptidonChip, Sponge, StateWord};
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::Arc;

// ---- a specification chosen at run time ---------------------------------------
#[derive(Clone, Copy, Debug)]
pub struct Dyn;
thread_local! {
    static ROUNDS: Cell<(usize, usize)> = const { Cell::new((8, 56)) };
    static TAB: RefCell<HashMap<TypeId, Box<dyn Any>>> = RefCell::new(HashMap::new());
}
type Tab<F, const T: usize> = (Vec<[F; T]>, Mds<F, T>, Mds<F, T>);
pub fn install<F: FromUniformBytes<64> + Ord, const T: usize>(ps: &Params) {
    let cv = |m: &[Vec<L4>]| -> Vec<[F; T]> {
        m.iter().map(|r| r.iter().map(|x| fe(&ps.f.dec(x))).collect::<Vec<F>>().try_into().unwrap()).collect()
    };
    let t: Tab<F, T> = (cv(&ps.rc), cv(&ps.mds).try_into().unwrap(), cv(&ps.mds_inv).try_into().unwrap());
    ROUNDS.with(|r| r.set((ps.rf, ps.rp)));
    TAB.with(|x| x.borrow_mut().insert(TypeId::of::<[F; T]>(), Box::new(t)));
}
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize> Spec<F, T, RATE> for Dyn {
    fn full_rounds() -> usize {
        ROUNDS.with(|c| c.get().0)
    }
    fn partial_rounds() -> usize {
        ROUNDS.with(|c| c.get().1)
    }
    fn sbox(v: F) -> F {
        v.pow_vartime([5])
    }
    fn secure_mds() -> usize {
        0
    }
    fn constants() -> Tab<F, T> {
        TAB.with(|x| x.borrow()[&TypeId::of::<[F; T]>()].downcast_ref::<Tab<F, T>>().unwrap().clone())
    }
}
/// Random parameters of a width (the matrix invertible).
pub fn random_params(p: &oracle::num_bigint::BigUint, t: usize, rf: usize, rp: usize, rng: &mut Rng) -> Params {
    let f = oracle::Fld::new(p);
    loop {
        let word = |rng: &mut Rng| match rng.below(6) {
            0 => f.enc(&[rng.below(4), 0, 0, 0]),
            _ => f.enc(&f.rand_canon(rng)),
        };
        let rc = (0..rf + rp).map(|_| (0..t).map(|_| word(rng)).collect()).collect();
        let mds = (0..t).map(|_| (0..t).map(|_| word(rng)).collect()).collect();
        let ps = Params::custom(&f, t, rf, rp, 5, rc, mds);
        if !ps.mds_inv.is_empty() {
            return ps;
        }
    }
}

// ---- programs ------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ref {
    In(usize),
    Out(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// states permuted one by one (false) or as a batch (true)
    Permute(Vec<Vec<Ref>>, bool),
    Hash(Vec<Ref>),
    /// absorb message cells or constants, then squeeze; the domain's length is given
    Sponge { len: usize, words: Vec<Result<Ref, L4>>, squeeze: usize },
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Prog {
    pub inputs: usize,
    pub ops: Vec<Op>,
}
impl Prog {
    /// Some state the program permutes, if it is made of different inputs only.
    pub fn free_state(&self, rng: &mut Rng) -> Option<Vec<usize>> {
        let mut all: Vec<Vec<usize>> = vec![];
        for op in &self.ops {
            if let Op::Permute(states, _) = op {
                for s in states {
                    let v: Vec<usize> = s.iter().filter_map(|r| if let Ref::In(i) = r { Some(*i) } else { None }).collect();
                    let mut u = v.clone();
                    u.sort_unstable();
                    u.dedup();
                    if u.len() == s.len() {
                        all.push(v);
                    }
                }
            }
        }
        if all.is_empty() { None } else { Some(all.swap_remove(rng.below(all.len() as u64) as usize)) }
    }
    /// The value of every output cell, given the inputs.
    pub fn eval(&self, ps: &Params, inputs: &[L4]) -> Vec<L4> {
        let f = &ps.f;
        let mut out: Vec<L4> = vec![];
        let cap = |l: usize| oracle::to_l4(&((oracle::num_bigint::BigUint::from(l as u64) << 64usize) % &f.pbig));
        for op in &self.ops {
            let at = |r: &Ref, out: &Vec<L4>| match r {
                Ref::In(i) => inputs[*i],
                Ref::Out(i) => out[*i],
            };
            match op {
                Op::Permute(states, _) => {
                    let mut new = vec![];
                    for s in states {
                        let mut v: Vec<L4> = s.iter().map(|r| f.enc(&at(r, &out))).collect();
                        ps.permute(&mut v);
                        new.extend(v.iter().map(|x| f.dec(x)));
                    }
                    out.extend(new);
                }
                Op::Hash(m) => {
                    let w: Vec<L4> = m.iter().map(|r| at(r, &out)).collect();
                    out.push(ps.sponge(ps.t - 1, ps.t - 1, 0, &cap(w.len()), &w)[0]);
                }
                Op::Sponge { len, words, squeeze } => {
                    let rate = ps.t - 1;
                    let mut st = vec![f.zero(); ps.t];
                    st[rate] = f.enc(&cap(*len));
                    let w: Vec<L4> = words
                        .iter()
                        .map(|r| match r {
                            Ok(r) => at(r, &out),
                            Err(v) => *v,
                        })
                        .collect();
                    for ch in w.chunks(rate) {
                        for (i, x) in ch.iter().enumerate() {
                            st[i] = f.add(&st[i], &f.enc(x));
                        }
                        ps.permute(&mut st);
                    }
                    for k in 0..*squeeze {
                        if k > 0 && k % rate == 0 {
                            ps.permute(&mut st);
                        }
                        out.push(f.dec(&st[k % rate]));
                    }
                }
            }
        }
        out
    }
}

// ---- chips ----------------------------------------------------------------------
pub trait Drv<F: PrimeField>: Clone {
    type Cfg: Clone + std::fmt::Debug;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Cfg;
    fn permute(c: &Self::Cfg, l: &mut impl Layouter<F>, states: Vec<Vec<AssignedCell<F, F>>>, batch: bool) -> Result<Vec<Vec<AssignedCell<F, F>>>, Error>;
    fn hash(_: &Self::Cfg, _: &mut impl Layouter<F>, _: Vec<AssignedCell<F, F>>) -> Result<AssignedCell<F, F>, Error> {
        unimplemented!()
    }
    fn sponge(_: &Self::Cfg, _: &mut impl Layouter<F>, _: usize, _: Vec<PaddedWord<F>>, _: usize) -> Result<Vec<AssignedCell<F, F>>, Error> {
        unimplemented!()
    }
}
fn go<F: FromUniformBytes<64> + Ord, S: Spec<F, W, R>, C: PoseidonInstructions<F, S, W, R>, const W: usize, const R: usize>(
    c: &C,
    l: &mut impl Layouter<F>,
    states: Vec<Vec<AssignedCell<F, F>>>,
    batch: bool,
) -> Result<Vec<Vec<AssignedCell<F, F>>>, Error> {
    let st: Vec<[C::Word; W]> = states.into_iter().map(|s| s.into_iter().map(C::Word::from).collect::<Vec<_>>().try_into().unwrap()).collect();
    let out: Vec<[C::Word; W]> = if batch { c.permute_batch(l, &st)? } else { st.iter().map(|s| c.permute(l, s)).collect::<Result<_, _>>()? };
    Ok(out.into_iter().map(|s| s.into_iter().map(|w| w.into()).collect()).collect())
}
/// A chip through `PermuteChip` (how the hash circuit uses it).
#[derive(Clone)]
pub struct Via<C, S>(PhantomData<(C, S)>);
impl<F: FromUniformBytes<64> + Ord, C: PermuteChip<F, S, 3, 2>, S: Spec<F, 3, 2>> Drv<F> for Via<C, S> {
    type Cfg = C::Config;
    fn configure(meta: &mut ConstraintSystem<F>) -> C::Config {
        C::configure(meta)
    }
    fn permute(c: &C::Config, l: &mut impl Layouter<F>, states: Vec<Vec<AssignedCell<F, F>>>, batch: bool) -> Result<Vec<Vec<AssignedCell<F, F>>>, Error> {
        go::<F, S, C, 3, 2>(&C::construct(c.clone()), l, states, batch)
    }
}
pub type Sept = Via<SeptidonChip, <Fr as poseidon_circuit::Hashable>::SpecType>;
pub type Pow = Via<Pow5Chip<Fr, 3, 2>, <Fr as poseidon_circuit::Hashable>::SpecType>;
/// The general chip configured by hand, with the sponge gadgets on top.
#[derive(Clone)]
pub struct Gen<S, const W: usize, const R: usize>(PhantomData<S>);
impl<F: FromUniformBytes<64> + Ord, S: Spec<F, W, R>, const W: usize, const R: usize> Drv<F> for Gen<S, W, R> {
    type Cfg = Pow5Config<F, W, R>;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Cfg {
        let state = [0; W].map(|_| meta.advice_column());
        let sbox = meta.advice_column();
        let a = [0; W].map(|_| meta.fixed_column());
        let b = [0; W].map(|_| meta.fixed_column());
        meta.enable_constant(b[0]);
        Pow5Chip::configure::<S>(meta, state, sbox, a, b)
    }
    fn permute(c: &Self::Cfg, l: &mut impl Layouter<F>, states: Vec<Vec<AssignedCell<F, F>>>, batch: bool) -> Result<Vec<Vec<AssignedCell<F, F>>>, Error> {
        go::<F, S, Pow5Chip<F, W, R>, W, R>(&Pow5Chip::construct(c.clone()), l, states, batch)
    }
    fn hash(c: &Self::Cfg, l: &mut impl Layouter<F>, m: Vec<AssignedCell<F, F>>) -> Result<AssignedCell<F, F>, Error> {
        macro_rules! len {
            ($($n:literal),*) => {
                match m.len() {
                    $($n => {
                        let h = Hash::<F, Pow5Chip<F, W, R>, S, ConstantLength<$n>, W, R>::init(Pow5Chip::construct(c.clone()), l.namespace(|| "init"))?;
                        let m: [AssignedCell<F, F>; $n] = m.try_into().unwrap();
                        h.hash(l.namespace(|| "hash"), m)
                    })*
                    _ => unreachable!(),
                }
            };
        }
        len!(1, 2, 3, 4, 5, 6, 7, 8, 13, 16)
    }
    fn sponge(c: &Self::Cfg, l: &mut impl Layouter<F>, len: usize, words: Vec<PaddedWord<F>>, squeeze: usize) -> Result<Vec<AssignedCell<F, F>>, Error> {
        macro_rules! len {
            ($($n:literal),*) => {
                match len {
                    $($n => {
                        let mut s = Sponge::<F, Pow5Chip<F, W, R>, S, Absorbing<PaddedWord<F>, R>, ConstantLength<$n>, W, R>::new(Pow5Chip::construct(c.clone()), l.namespace(|| "init"))?;
                        for w in words {
                            s.absorb(l.namespace(|| "absorb"), w)?;
                        }
                        let mut s: Sponge<F, Pow5Chip<F, W, R>, S, Squeezing<StateWord<F>, R>, ConstantLength<$n>, W, R> = s.finish_absorbing(l.namespace(|| "finish"))?;
                        (0..squeeze).map(|_| s.squeeze(l.namespace(|| "squeeze"))).collect()
                    })*
                    _ => unreachable!(),
                }
            };
        }
        len!(1, 2, 3, 5, 8)
    }
}
// ---- chips inside a caller's own layout -------------------------------------------
thread_local! {
    static LAYOUT: Cell<u64> = const { Cell::new(0) };
}
/// Chooses the layout of the circuits configured next.
pub fn set_layout(k: u64) {
    LAYOUT.with(|l| l.set(k))
}
fn layout(salt: u64) -> Rng {
    Rng::new(LAYOUT.with(|l| l.get()).wrapping_mul(0x9E3779B97F4A7C15) ^ salt)
}
fn foreign<F: PrimeField>(meta: &mut ConstraintSystem<F>, rng: &mut Rng) {
    for _ in 0..rng.below(3) {
        if rng.chance(1, 2) {
            let c = meta.advice_column();
            meta.enable_equality(c);
        } else {
            meta.fixed_column();
        }
    }
}
/// 8-row chips placed by the caller in its own regions, at offsets of its choice.
#[derive(Clone)]
pub struct Embed;
impl Drv<Fr> for Embed {
    type Cfg = Vec<SeptidonChip>;
    fn configure(meta: &mut ConstraintSystem<Fr>) -> Self::Cfg {
        let mut rng = layout(1);
        (0..rng.range(1, 3))
            .map(|_| {
                foreign(meta, &mut rng);
                let c = SeptidonChip::configure(meta);
                for cell in c.initial_state_cells() {
                    meta.enable_equality(cell.column);
                }
                for cell in c.final_state_cells() {
                    meta.enable_equality(cell.column);
                }
                c
            })
            .collect()
    }
    fn permute(c: &Self::Cfg, l: &mut impl Layouter<Fr>, states: Vec<Vec<AssignedCell<Fr, Fr>>>, _: bool) -> Result<Vec<Vec<AssignedCell<Fr, Fr>>>, Error> {
        let mut rng = layout(2 + states.len() as u64);
        let h = SeptidonChip::height_per_permutation();
        let mut out = vec![];
        let mut done = 0;
        while done < states.len() {
            let part = &states[done..(done + rng.range(1, 6)).min(states.len())];
            done += part.len();
            // rows of every chip, in an order of their own
            let mut next: Vec<usize> = c.iter().map(|_| if rng.chance(1, 2) { 0 } else { rng.range(0, 19) }).collect();
            let mut slots: Vec<(usize, usize)> = part
                .iter()
                .map(|_| {
                    let j = rng.below(c.len() as u64) as usize;
                    let at = next[j];
                    next[j] += h + if rng.chance(1, 2) { 0 } else { rng.range(1, 13) };
                    (j, at)
                })
                .collect();
            if rng.chance(1, 2) {
                for i in (1..slots.len()).rev() {
                    slots.swap(i, rng.below(i as u64 + 1) as usize);
                }
            }
            let late = rng.chance(1, 2);
            let res = l.assign_region(
                || "caller",
                |mut r| {
                    let mut res = vec![];
                    for (s, (j, at)) in part.iter().zip(&slots) {
                        let (chip, at) = (&c[*j], *at);
                        let vals = [0, 1, 2].map(|i: usize| s[i].value().copied());
                        let mut fin = None;
                        for step in [late, !late] {
                            if step {
                                fin = Some(if at == 0 { chip.assign_permutation(&mut r, vals)? } else { chip.assign_permutation_with_offset(&mut r, vals, at)? });
                            } else {
                                for (i, cell) in chip.initial_state_cells().iter().enumerate() {
                                    s[i].copy_advice(|| "in", &mut r, cell.column, at + cell.offset as usize)?;
                                }
                            }
                        }
                        let fin = fin.unwrap();
                        let cells = chip.final_state_cells();
                        res.push((0..3).map(|i| r.assign_advice(|| "out", cells[i].column, at + cells[i].offset as usize, || fin[i])).collect::<Result<Vec<_>, _>>()?);
                    }
                    Ok(res)
                },
            )?;
            out.extend(res);
        }
        Ok(out)
    }
}
/// General chips on columns the caller shares between them: two of the same kind and one
/// of another width, which works in between.
#[derive(Clone)]
pub struct Shared<S, const W: usize, const R: usize>(PhantomData<S>);
#[derive(Clone, Debug)]
pub struct SharedCfg<F: PrimeField, const W: usize, const R: usize> {
    mine: [Pow5Config<F, W, R>; 2],
    other: Pow5Config<F, 2, 1>,
    col: Column<Advice>,
}
impl<F: PrimeField, const W: usize, const R: usize> SharedCfg<F, W, R> {
    fn pick(&self, salt: u64) -> &Pow5Config<F, W, R> {
        &self.mine[layout(salt).below(2) as usize]
    }
}
impl<F: FromUniformBytes<64> + Ord, const W: usize, const R: usize> SharedCfg<F, W, R> {
    fn between(&self, l: &mut impl Layouter<F>, salt: u64) -> Result<(), Error> {
        let mut rng = layout(salt);
        if !rng.chance(1, 2) {
            return Ok(());
        }
        let st = l.assign_region(
            || "other",
            |mut r| {
                let a = r.assign_advice(|| "other", self.col, 0, || Value::known(F::from(salt)))?;
                let b = r.assign_advice(|| "other", self.col, 1, || Value::known(F::from(3)))?;
                Ok(vec![a, b])
            },
        )?;
        go::<F, Dyn, Pow5Chip<F, 2, 1>, 2, 1>(&Pow5Chip::construct(self.other.clone()), l, vec![st], false)?;
        Ok(())
    }
}
impl<F: FromUniformBytes<64> + Ord, S: Spec<F, W, R>, const W: usize, const R: usize> Drv<F> for Shared<S, W, R> {
    type Cfg = SharedCfg<F, W, R>;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Cfg {
        let mut rng = layout(3);
        let n = W.max(2);
        let mut adv = vec![];
        let mut fix = vec![];
        for _ in 0..n + 1 {
            foreign(meta, &mut rng);
            adv.push(meta.advice_column());
        }
        for _ in 0..2 * n {
            foreign(meta, &mut rng);
            fix.push(meta.fixed_column());
        }
        meta.enable_constant(fix[0]);
        if rng.chance(1, 2) {
            adv.reverse();
        }
        let mut mix = |v: &mut Vec<Column<Advice>>, w: &mut Vec<Column<halo2_proofs::plonk::Fixed>>| {
            for i in (1..v.len()).rev() {
                v.swap(i, rng.below(i as u64 + 1) as usize);
            }
            for i in (1..w.len()).rev() {
                w.swap(i, rng.below(i as u64 + 1) as usize);
            }
        };
        let mut mine = |meta: &mut ConstraintSystem<F>| {
            mix(&mut adv, &mut fix);
            let mut a = adv.iter().copied();
            let mut f = fix.iter().copied();
            Pow5Chip::configure::<S>(meta, [0; W].map(|_| a.next().unwrap()), a.next().unwrap(), [0; W].map(|_| f.next().unwrap()), [0; W].map(|_| f.next().unwrap()))
        };
        let mine = [mine(meta), mine(meta)];
        mix(&mut adv, &mut fix);
        let other = Pow5Chip::configure::<Dyn>(meta, [adv[0], adv[1]], adv[2.min(n)], [fix[0], fix[1]], [fix[2], fix[3]]);
        SharedCfg { mine, other, col: adv[0] }
    }
    fn permute(c: &Self::Cfg, l: &mut impl Layouter<F>, states: Vec<Vec<AssignedCell<F, F>>>, batch: bool) -> Result<Vec<Vec<AssignedCell<F, F>>>, Error> {
        let mut out = vec![];
        for (i, part) in states.chunks(3).enumerate() {
            c.between(l, 10 + i as u64)?;
            out.extend(go::<F, S, Pow5Chip<F, W, R>, W, R>(&Pow5Chip::construct(c.pick(20 + i as u64).clone()), l, part.to_vec(), batch)?);
        }
        Ok(out)
    }
    fn hash(c: &Self::Cfg, l: &mut impl Layouter<F>, m: Vec<AssignedCell<F, F>>) -> Result<AssignedCell<F, F>, Error> {
        c.between(l, 40 + m.len() as u64)?;
        <Gen<S, W, R> as Drv<F>>::hash(c.pick(60 + m.len() as u64), l, m)
    }
    fn sponge(c: &Self::Cfg, l: &mut impl Layouter<F>, len: usize, words: Vec<PaddedWord<F>>, squeeze: usize) -> Result<Vec<AssignedCell<F, F>>, Error> {
        c.between(l, 80 + words.len() as u64)?;
        <Gen<S, W, R> as Drv<F>>::sponge(c.pick(100 + words.len() as u64), l, len, words, squeeze)
    }
}
pub const HASH_LENS: [usize; 10] = [1, 2, 3, 4, 5, 6, 7, 8, 13, 16];
pub const SPONGE_LENS: [usize; 5] = [1, 2, 3, 5, 8];

// ---- the circuit -----------------------------------------------------------------
pub struct ProgCirc<'a, F: PrimeField, D> {
    pub prog: &'a Prog,
    pub inputs: Vec<Value<F>>,
    pub cells: RefCell<(Vec<AssignedCell<F, F>>, Vec<AssignedCell<F, F>>)>,
    pub _d: PhantomData<D>,
}
#[derive(Clone, Debug)]
pub struct ProgCfg<C: Clone + std::fmt::Debug> {
    chip: C,
    inp: Column<Advice>,
}
impl<F: PrimeField, D: Drv<F>> Circuit<F> for ProgCirc<'_, F, D> {
    type Config = ProgCfg<D::Cfg>;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        unimplemented!()
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let inp = meta.advice_column();
        meta.enable_equality(inp);
        ProgCfg { chip: D::configure(meta), inp }
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let ins: Vec<AssignedCell<F, F>> = l.assign_region(
            || "inputs",
            |mut r| self.inputs.iter().enumerate().map(|(i, v)| r.assign_advice(|| "in", c.inp, i, || *v)).collect(),
        )?;
        let mut outs: Vec<AssignedCell<F, F>> = vec![];
        for op in &self.prog.ops {
            let at = |r: &Ref| match r {
                Ref::In(i) => ins[*i].clone(),
                Ref::Out(i) => outs[*i].clone(),
            };
            let new: Vec<AssignedCell<F, F>> = match op {
                Op::Permute(s, batch) => {
                    let st = s.iter().map(|v| v.iter().map(at).collect()).collect();
                    D::permute(&c.chip, &mut l, st, *batch)?.into_iter().flatten().collect()
                }
                Op::Hash(m) => vec![D::hash(&c.chip, &mut l, m.iter().map(at).collect())?],
                Op::Sponge { len, words, squeeze } => {
                    let w = words
                        .iter()
                        .map(|r| match r {
                            Ok(r) => PaddedWord::Message(at(r)),
                            Err(v) => PaddedWord::Padding(fe(v)),
                        })
                        .collect();
                    D::sponge(&c.chip, &mut l, *len, w, *squeeze)?
                }
            };
            outs.extend(new);
        }
        *self.cells.borrow_mut() = (ins, outs);
        Ok(())
    }
}
pub struct Done<F: PrimeField> {
    pub cs: ConstraintSystem<F>,
    pub rec: Record<F>,
    /// positions of inputs and outputs (advice column, row)
    pub ins: Vec<(usize, usize)>,
    pub outs: Vec<(usize, usize)>,
    /// what the returned cells claim to hold
    pub claimed: Vec<Option<L4>>,
}
pub fn run<F: PrimeField, D: Drv<F>>(prog: &Prog, inputs: &[L4]) -> Result<Done<F>, Error> {
    run_with::<F, D>(prog, inputs.iter().map(|v| Value::known(fe(v))).collect(), None)
}
pub fn run_with<F: PrimeField, D: Drv<F>>(prog: &Prog, inputs: Vec<Value<F>>, fault: Option<Arc<Fault>>) -> Result<Done<F>, Error> {
    run_limited::<F, D>(prog, inputs, fault, None)
}
pub fn run_limited<F: PrimeField, D: Drv<F>>(prog: &Prog, inputs: Vec<Value<F>>, fault: Option<Arc<Fault>>, limit: Option<usize>) -> Result<Done<F>, Error> {
    let mut cs = ConstraintSystem::default();
    let cfg = <ProgCirc<F, D> as Circuit<F>>::configure(&mut cs);
    let mut rec = Record::new(&cs, limit);
    rec.fault = fault;
    let c = ProgCirc::<F, D> { prog, inputs, cells: Default::default(), _d: PhantomData };
    let consts = cs.constants.clone();
    SimpleFloorPlanner::synthesize(&cs, &mut rec, &[], &c, cfg, consts)?;
    let cells = c.cells.into_inner();
    let pos = |c: &AssignedCell<F, F>| {
        let x = c.cell();
        (x.column.index(), rec.regions[*x.region_index].start + x.row_offset)
    };
    let ins = cells.0.iter().map(pos).collect();
    let outs = cells.1.iter().map(pos).collect();
    let mut claimed = vec![];
    for c in &cells.1 {
        let mut v = None;
        c.value().map(|x| v = Some(l4(x)));
        claimed.push(v);
    }
    Ok(Done { cs, rec, ins, outs, claimed })
}
pub fn prove<F: PrimeField + Ord>(cs: ConstraintSystem<F>, rec: Record<F>) -> MockProver<F> {
    let fill = rec.fixed.iter().filter_map(|m| m.keys().next_back()).max().map(|x| x + 1).unwrap_or(0);
    let need = rec.rows_used().max(fill) + cs.blinding_factors() + 2;
    let mut k = 3;
    while (1usize << k) < need {
        k += 1;
    }
    MockProver::from_record(k, cs, rec, vec![])
}
/// A program of permutations over shared cells.
pub fn permutations(rng: &mut Rng, t: usize, total: usize) -> Prog {
    let inputs = rng.range(1, t * total.min(4) + 1);
    let mut ops = vec![];
    let mut outs = 0;
    let mut left = total;
    while left > 0 {
        let k = if rng.chance(1, 3) { 1 } else { rng.range(1, left) };
        let states: Vec<Vec<Ref>> = (0..k)
            .map(|_| {
                (0..t)
                    .map(|_| {
                        if outs > 0 && rng.chance(1, 2) {
                            Ref::Out(rng.below(outs as u64) as usize)
                        } else {
                            Ref::In(rng.below(inputs as u64) as usize)
                        }
                    })
                    .collect()
            })
            .collect();
        outs += k * t;
        left -= k;
        ops.push(Op::Permute(states, rng.chance(1, 2)));
    }
    Prog { inputs, ops }
}
/// A program of hashes and sponges.
pub fn hashes(rng: &mut Rng, t: usize, n: usize, g: &mut oracle::gen::Words) -> Prog {
    let inputs = rng.range(1, 9);
    let mut outs = 0usize;
    let mut ops = vec![];
    for _ in 0..n {
        let mut at = |rng: &mut Rng| {
            if outs > 0 && rng.chance(1, 4) {
                Ref::Out(rng.below(outs as u64) as usize)
            } else {
                Ref::In(rng.below(inputs as u64) as usize)
            }
        };
        if rng.chance(2, 3) {
            let l = *rng.pick(&HASH_LENS);
            let m = (0..l).map(|_| at(rng)).collect();
            ops.push(Op::Hash(m));
            outs += 1;
        } else {
            let len = *rng.pick(&SPONGE_LENS);
            let rate = t - 1;
            let total = rate * rng.range(1, 3);
            let words = (0..total).map(|_| if rng.chance(1, 4) { Err(if rng.chance(1, 2) { [0; 4] } else { g.word(rng) }) } else { Ok(at(rng)) }).collect();
            let squeeze = rng.range(1, 3 * rate + 1);
            ops.push(Op::Sponge { len, words, squeeze });
            outs += squeeze;
        }
    }
    Prog { inputs, ops }
}
