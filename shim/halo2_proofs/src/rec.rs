//! The recorder: everything a circuit assigned, as absolute rows.
use crate::knobs;
use crate::plonk::{Advice, Any, Column, ConstraintSystem, Error, Fixed, Selector};
use ff::Field;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// A refusal of one operation: the `at`-th one recorded fails, once.
#[derive(Debug)]
pub struct Fault {
    pub at: u64,
    n: AtomicU64,
    fired: Mutex<Option<&'static str>>,
    /// the kind of every operation met
    pub kinds: Mutex<BTreeMap<&'static str, u64>>,
}
impl Fault {
    pub fn new(at: u64) -> Arc<Self> {
        Arc::new(Fault { at, n: AtomicU64::new(0), fired: Mutex::new(None), kinds: Mutex::new(BTreeMap::new()) })
    }
    /// Operations met so far.
    pub fn met(&self) -> u64 {
        self.n.load(Ordering::SeqCst)
    }
    /// What was refused.
    pub fn fired(&self) -> Option<&'static str> {
        *self.fired.lock().unwrap()
    }
}

/// Marker for circuits written against the original's `Assignment` trait.
pub trait Assignment<F: Field> {}

pub type CellPos = (Column<Any>, usize);

#[derive(Clone, Debug)]
pub struct RegionRec {
    pub name: String,
    pub start: usize,
    pub rows: usize,
    pub worker: bool,
}

/// What one synthesis did.
#[derive(Clone, Debug)]
pub struct Record<F: Field> {
    /// rows that may be used, if limited
    pub limit: Option<usize>,
    pub advice: Vec<BTreeMap<usize, Option<F>>>,
    pub fixed: Vec<BTreeMap<usize, F>>,
    pub table_fill: BTreeMap<usize, (usize, F)>,
    pub selectors: Vec<BTreeSet<usize>>,
    pub copies: Vec<(CellPos, CellPos)>,
    pub instance_copies: Vec<(CellPos, (usize, usize))>,
    pub regions: Vec<RegionRec>,
    pub worker_panics: u64,
    pub reassigned: u64,
    /// assignments that a worker made outside the rows reserved for it
    pub escapes: Vec<String>,
    /// worker start order of each `assign_regions`
    pub schedules: Vec<Vec<usize>>,
    pub events: u64,
    pub fault: Option<Arc<Fault>>,
    pub(crate) range: Option<Range<usize>>,
}
impl<F: Field> Record<F> {
    pub fn new(cs: &ConstraintSystem<F>, limit: Option<usize>) -> Self {
        Record {
            limit,
            advice: vec![BTreeMap::new(); cs.num_advice],
            fixed: vec![BTreeMap::new(); cs.num_fixed],
            table_fill: BTreeMap::new(),
            selectors: vec![BTreeSet::new(); cs.num_selectors],
            copies: vec![],
            instance_copies: vec![],
            regions: vec![],
            worker_panics: 0,
            reassigned: 0,
            escapes: vec![],
            schedules: vec![],
            events: 0,
            fault: None,
            range: None,
        }
    }
    /// An operation is about to be recorded; refused if its turn has come.
    pub(crate) fn tick(&self, what: &'static str) -> Result<(), Error> {
        if let Some(f) = &self.fault {
            *f.kinds.lock().unwrap().entry(what).or_insert(0) += 1;
            if f.n.fetch_add(1, Ordering::SeqCst) == f.at {
                *f.fired.lock().unwrap() = Some(what);
                return Err(Error::Synthesis);
            }
        }
        Ok(())
    }
    fn check(&mut self, what: &'static str, row: usize) -> Result<(), Error> {
        self.events += 1;
        self.tick(what)?;
        if let Some(l) = self.limit {
            if row >= l {
                return Err(Error::NotEnoughRowsAvailable { current_k: (usize::BITS - (l.max(1) - 1).leading_zeros()).max(1) });
            }
        }
        if let Some(r) = &self.range {
            if !r.contains(&row) {
                let s = format!("{what} at row {row} by the region of rows {r:?}");
                self.escapes.push(s.clone());
                return Err(Error::InvalidRange(row, s));
            }
        }
        Ok(())
    }
    pub(crate) fn enable_selector(&mut self, s: Selector, row: usize) -> Result<(), Error> {
        self.check("selector", row)?;
        self.selectors[s.0].insert(row);
        Ok(())
    }
    pub(crate) fn assign_advice(&mut self, c: Column<Advice>, row: usize, v: Option<F>) -> Result<(), Error> {
        self.check("advice", row)?;
        if let Some(old) = self.advice[c.index].insert(row, v) {
            if old != v {
                self.reassigned += 1;
            }
        }
        Ok(())
    }
    pub(crate) fn assign_fixed(&mut self, c: Column<Fixed>, row: usize, v: F) -> Result<(), Error> {
        self.check("fixed", row)?;
        self.fixed[c.index].insert(row, v);
        Ok(())
    }
    /// The highest row used plus one.
    pub fn rows_used(&self) -> usize {
        let a = self.advice.iter().filter_map(|m| m.keys().next_back()).max();
        let f = self.fixed.iter().filter_map(|m| m.keys().next_back()).max();
        let s = self.selectors.iter().filter_map(|m| m.iter().next_back()).max();
        a.max(f).max(s).map(|x| x + 1).unwrap_or(0)
    }
    pub fn fixed_at(&self, col: usize, row: usize) -> F {
        if let Some(v) = self.fixed[col].get(&row) {
            return *v;
        }
        match self.table_fill.get(&col) {
            Some((from, v)) if row >= *from => *v,
            _ => F::ZERO,
        }
    }
    pub fn advice_at(&self, col: usize, row: usize) -> F {
        self.advice[col].get(&row).copied().flatten().unwrap_or(F::ZERO)
    }
    pub(crate) fn fork(&self, range: Range<usize>) -> Self {
        Record {
            limit: self.limit,
            advice: vec![BTreeMap::new(); self.advice.len()],
            fixed: vec![BTreeMap::new(); self.fixed.len()],
            table_fill: BTreeMap::new(),
            selectors: vec![BTreeSet::new(); self.selectors.len()],
            copies: vec![],
            instance_copies: vec![],
            regions: vec![],
            worker_panics: 0,
            reassigned: 0,
            escapes: vec![],
            schedules: vec![],
            events: 0,
            fault: self.fault.clone(),
            range: Some(range),
        }
    }
    pub(crate) fn merge(&mut self, o: Record<F>) {
        for (a, b) in self.advice.iter_mut().zip(o.advice) {
            for (r, v) in b {
                if let Some(old) = a.insert(r, v) {
                    if old != v {
                        self.reassigned += 1;
                    }
                }
            }
        }
        for (a, b) in self.fixed.iter_mut().zip(o.fixed) {
            a.extend(b);
        }
        for (a, b) in self.selectors.iter_mut().zip(o.selectors) {
            a.extend(b);
        }
        self.copies.extend(o.copies);
        self.instance_copies.extend(o.instance_copies);
        self.escapes.extend(o.escapes);
        self.reassigned += o.reassigned;
        self.events += o.events;
    }
}

/// The order in which the workers of one `assign_regions` start, and their delays.
pub(crate) fn schedule(n: usize, salt: u64) -> (Vec<usize>, Vec<u64>, bool) {
    let k = knobs::schedule();
    let mut order: Vec<usize> = (0..n).collect();
    let mut delay = vec![0; n];
    let seq = k == 1 || k == 2;
    if k == 2 {
        order.reverse();
    }
    if k > 2 {
        let mut z = k ^ (salt << 32);
        for i in (1..n).rev() {
            z = knobs::mix(z);
            order.swap(i, (z % (i as u64 + 1)) as usize);
        }
        for d in delay.iter_mut() {
            z = knobs::mix(z);
            *d = if z & 1 == 0 { 0 } else { (z >> 8) % 300 };
        }
    }
    (order, delay, seq)
}
