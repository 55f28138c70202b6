//! A mock prover over the record: checks every gate, lookup and copy.
use crate::circuit::Value;
use crate::plonk::{Any, Circuit, Column, ConstraintSystem, Error, Expression, FloorPlanner};
use crate::rec::{CellPos, Record};
use ff::Field;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum VerifyFailure {
    Gate { gate: String, index: usize, row: usize },
    Lookup { name: String, row: usize },
    Copy { left: String, right: String },
}
pub fn unwrap_value<V>(v: Value<V>) -> V {
    v.inner().expect("known value")
}

struct Sm(u64);
impl rand_core::RngCore for Sm {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = crate::knobs::mix(self.0);
        self.0
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        rand_core::impls::fill_bytes_via_next(self, d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

#[derive(Debug)]
pub struct MockProver<F: Field> {
    pub k: u32,
    pub n: usize,
    pub usable: usize,
    pub cs: ConstraintSystem<F>,
    pub rec: Record<F>,
    pub instances: Vec<Vec<F>>,
    blind: Vec<Vec<F>>,
}

impl<F: Field + Ord> MockProver<F> {
    pub fn run<C: Circuit<F>>(k: u32, circuit: &C, instances: Vec<Vec<F>>) -> Result<Self, Error> {
        let mut cs = ConstraintSystem::default();
        let config = C::configure(&mut cs);
        let n = 1usize << k;
        if n < cs.minimum_rows() {
            return Err(Error::not_enough_rows_available(k));
        }
        let usable = n - (cs.blinding_factors() + 1);
        let mut rec = Record::new(&cs, Some(usable));
        let constants = cs.constants.clone();
        C::FloorPlanner::synthesize(&cs, &mut rec, &instances, circuit, config, constants)?;
        Ok(Self::from_record(k, cs, rec, instances))
    }
    pub fn from_record(k: u32, cs: ConstraintSystem<F>, rec: Record<F>, instances: Vec<Vec<F>>) -> Self {
        let n = 1usize << k;
        let usable = n - (cs.blinding_factors() + 1);
        let mut z = Sm(0x5eed ^ k as u64);
        let blind = (0..cs.num_advice).map(|_| (usable..n).map(|_| F::random(&mut z)).collect()).collect();
        MockProver { k, n, usable, cs, rec, instances, blind }
    }
    pub fn advice(&self, col: usize, row: usize) -> F {
        if row >= self.usable {
            return self.blind[col][row - self.usable];
        }
        self.rec.advice_at(col, row)
    }
    pub fn fixed(&self, col: usize, row: usize) -> F {
        if row >= self.usable && self.rec.table_fill.contains_key(&col) {
            return F::ZERO;
        }
        self.rec.fixed_at(col, row)
    }
    pub fn at(&self, p: CellPos) -> F {
        match p.0.column_type {
            Any::Advice(_) => self.advice(p.0.index, p.1),
            Any::Fixed => self.fixed(p.0.index, p.1),
            Any::Instance => self.instances[p.0.index][p.1],
        }
    }
    pub fn eval(&self, e: &Expression<F>, row: usize) -> F {
        let rot = |r: i32| (row as i64 + r as i64).rem_euclid(self.n as i64) as usize;
        match e {
            Expression::Constant(c) => *c,
            Expression::Selector(s) => {
                if self.rec.selectors[s.0].contains(&row) {
                    F::ONE
                } else {
                    F::ZERO
                }
            }
            Expression::Fixed(q) => self.fixed(q.column_index, rot(q.rotation.0)),
            Expression::Advice(q) => self.advice(q.column_index, rot(q.rotation.0)),
            Expression::Instance(q) => {
                let r = rot(q.rotation.0);
                self.instances.get(q.column_index).and_then(|c| c.get(r)).copied().unwrap_or(F::ZERO)
            }
            Expression::Challenge(_) => F::ONE,
            Expression::Negated(a) => -self.eval(a, row),
            Expression::Sum(a, b) => self.eval(a, row) + self.eval(b, row),
            Expression::Product(a, b) => {
                let x = self.eval(a, row);
                if bool::from(x.is_zero()) {
                    return x;
                }
                x * self.eval(b, row)
            }
            Expression::Scaled(a, f) => self.eval(a, row) * f,
        }
    }
    pub fn verify(&self) -> Result<(), Vec<VerifyFailure>> {
        let u = self.usable;
        self.verify_at_rows(0..self.n, 0..u)
    }
    /// The same on eight threads.
    pub fn verify_par(&self) -> Result<(), Vec<VerifyFailure>> {
        let part = self.n / 8 + 1;
        let mut bad: Vec<VerifyFailure> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|i| s.spawn(move || self.bad_gates((i * part).min(self.n)..((i + 1) * part).min(self.n))))
                .collect();
            hs.into_iter().flat_map(|h| h.join().expect("gates evaluated")).collect()
        });
        bad.extend(self.verify_at_rows(0..0, 0..self.usable).err().unwrap_or_default());
        if bad.is_empty() { Ok(()) } else { Err(bad) }
    }
    fn bad_gates(&self, rows: impl Iterator<Item = usize>) -> Vec<VerifyFailure> {
        let mut bad = vec![];
        for row in rows {
            for g in &self.cs.gates {
                for (i, p) in g.polys.iter().enumerate() {
                    if !bool::from(self.eval(p, row).is_zero()) {
                        bad.push(VerifyFailure::Gate { gate: g.name.clone(), index: i, row });
                    }
                }
            }
        }
        bad
    }
    /// Gates are checked on the given rows (`verify` includes the blinded ones), lookups
    /// on the given usable rows, copies always.
    pub fn verify_at_rows(
        &self,
        gate_rows: impl Iterator<Item = usize>,
        lookup_rows: impl Iterator<Item = usize>,
    ) -> Result<(), Vec<VerifyFailure>> {
        let mut bad = self.bad_gates(gate_rows);
        let lookup_rows: Vec<usize> = lookup_rows.collect();
        for l in &self.cs.lookups {
            let table: BTreeSet<Vec<F>> = (0..self.usable).map(|r| l.table.iter().map(|e| self.eval(e, r)).collect()).collect();
            for &row in &lookup_rows {
                let v: Vec<F> = l.input.iter().map(|e| self.eval(e, row)).collect();
                if !table.contains(&v) {
                    bad.push(VerifyFailure::Lookup { name: l.name.clone(), row });
                }
            }
        }
        for (a, b) in &self.rec.copies {
            if self.at(*a) != self.at(*b) {
                bad.push(VerifyFailure::Copy { left: format!("{a:?}"), right: format!("{b:?}") });
            }
        }
        for (a, (c, r)) in &self.rec.instance_copies {
            if self.at(*a) != self.instances.get(*c).and_then(|c| c.get(*r)).copied().unwrap_or(F::ZERO) {
                bad.push(VerifyFailure::Copy { left: format!("{a:?}"), right: format!("instance {c} {r}") });
            }
        }
        if bad.is_empty() {
            Ok(())
        } else {
            Err(bad)
        }
    }
    pub fn assert_satisfied(&self) {
        if let Err(e) = self.verify() {
            panic!("circuit not satisfied: {:?}", &e[..e.len().min(8)]);
        }
    }
    pub fn assert_satisfied_par(&self) {
        self.assert_satisfied()
    }
    pub fn column(&self, c: Column<Any>) -> usize {
        c.index
    }
}
