//! Layouters and regions, as in `halo2_proofs::circuit`.
use crate::plonk::{Advice, Any, Assigned, Challenge, Column, ConstraintSystem, Error, Fixed, Instance, Selector, TableColumn};
use crate::rec::{self, Record, RegionRec};
use ff::Field;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::marker::PhantomData;

mod value;
pub use value::Value;

pub trait Chip<F: Field>: Sized {
    type Config: fmt::Debug + Clone;
    type Loaded: fmt::Debug + Clone;
    fn config(&self) -> &Self::Config;
    fn loaded(&self) -> &Self::Loaded;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RegionIndex(pub(crate) usize);
impl From<usize> for RegionIndex {
    fn from(i: usize) -> Self {
        RegionIndex(i)
    }
}
impl std::ops::Deref for RegionIndex {
    type Target = usize;
    fn deref(&self) -> &usize {
        &self.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RegionStart(pub(crate) usize);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cell {
    pub region_index: RegionIndex,
    pub row_offset: usize,
    pub column: Column<Any>,
}

#[derive(Clone, Debug)]
pub struct AssignedCell<V, F: Field> {
    value: Value<V>,
    cell: Cell,
    _marker: PhantomData<F>,
}
impl<V, F: Field> AssignedCell<V, F> {
    pub fn value(&self) -> Value<&V> {
        self.value.as_ref()
    }
    pub fn cell(&self) -> Cell {
        self.cell
    }
}
impl<V, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn value_field(&self) -> Value<Assigned<F>> {
        self.value.to_field()
    }
}
impl<F: Field> AssignedCell<Assigned<F>, F> {
    pub fn evaluate(self) -> AssignedCell<F, F> {
        AssignedCell { value: self.value.evaluate(), cell: self.cell, _marker: PhantomData }
    }
}
impl<V: Clone, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn copy_advice<A, AR>(
        &self,
        annotation: A,
        region: &mut Region<'_, F>,
        column: Column<Advice>,
        offset: usize,
    ) -> Result<Self, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let c = region.assign_advice(annotation, column, offset, || self.value.clone())?;
        region.constrain_equal(c.cell(), self.cell())?;
        Ok(c)
    }
}

// ---- regions --------------------------------------------------------------------
pub mod layouter {
    pub use super::{RegionLayouter, RegionShape, TableLayouter};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum RegionColumn {
        Column(crate::plonk::Column<crate::plonk::Any>),
        Selector(usize),
    }
}
use layouter::RegionColumn;

pub trait RegionLayouter<F: Field>: Send {
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error>;
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error>;
    fn assign_advice_from_constant(&mut self, c: Column<Advice>, offset: usize, v: F) -> Result<Cell, Error>;
    fn assign_advice_from_instance(&mut self, i: Column<Instance>, row: usize, c: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error>;
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error>;
    fn constrain_constant(&mut self, cell: Cell, v: F) -> Result<(), Error>;
    fn constrain_equal(&mut self, a: Cell, b: Cell) -> Result<(), Error>;
    fn global_offset(&self, row_offset: usize) -> usize;
}

#[derive(Clone, Debug)]
pub struct RegionShape {
    index: RegionIndex,
    columns: BTreeSet<RegionColumn>,
    row_count: usize,
}
impl RegionShape {
    pub fn new(index: RegionIndex) -> Self {
        RegionShape { index, columns: BTreeSet::new(), row_count: 0 }
    }
    pub fn row_count(&self) -> usize {
        self.row_count
    }
    fn touch(&mut self, c: RegionColumn, offset: usize) {
        self.columns.insert(c);
        self.row_count = self.row_count.max(offset + 1);
    }
    fn cell(&mut self, c: Column<Any>, offset: usize) -> Cell {
        self.touch(RegionColumn::Column(c), offset);
        Cell { region_index: self.index, row_offset: offset, column: c }
    }
}
impl<F: Field> RegionLayouter<F> for RegionShape {
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error> {
        self.touch(RegionColumn::Selector(s.0), offset);
        Ok(())
    }
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, _: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        Ok(self.cell(c.into(), offset))
    }
    fn assign_advice_from_constant(&mut self, c: Column<Advice>, offset: usize, _: F) -> Result<Cell, Error> {
        Ok(self.cell(c.into(), offset))
    }
    fn assign_advice_from_instance(&mut self, _: Column<Instance>, _: usize, c: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error> {
        Ok((self.cell(c.into(), offset), Value::unknown()))
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, _: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        Ok(self.cell(c.into(), offset))
    }
    fn constrain_constant(&mut self, _: Cell, _: F) -> Result<(), Error> {
        Ok(())
    }
    fn constrain_equal(&mut self, _: Cell, _: Cell) -> Result<(), Error> {
        Ok(())
    }
    fn global_offset(&self, row_offset: usize) -> usize {
        row_offset
    }
}

/// A region being recorded.
struct LiveRegion<'a, F: Field> {
    rec: &'a mut Record<F>,
    starts: &'a [usize],
    permutation: &'a [Column<Any>],
    instances: &'a [Vec<F>],
    index: RegionIndex,
    constants: Vec<(F, Cell)>,
}
impl<F: Field> LiveRegion<'_, F> {
    fn row(&self, offset: usize) -> usize {
        self.starts[self.index.0] + offset
    }
    fn pos(&self, c: &Cell) -> Result<rec::CellPos, Error> {
        if !self.permutation.contains(&c.column) {
            return Err(Error::ColumnNotInPermutation(c.column));
        }
        Ok((c.column, self.starts[c.region_index.0] + c.row_offset))
    }
}
impl<F: Field> RegionLayouter<F> for LiveRegion<'_, F> {
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error> {
        let r = self.row(offset);
        self.rec.enable_selector(*s, r)
    }
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        let r = self.row(offset);
        let v = to().inner().map(|a| a.evaluate());
        self.rec.assign_advice(c, r, v)?;
        Ok(Cell { region_index: self.index, row_offset: offset, column: c.into() })
    }
    fn assign_advice_from_constant(&mut self, c: Column<Advice>, offset: usize, v: F) -> Result<Cell, Error> {
        let cell = self.assign_advice(c, offset, &mut || Value::known(Assigned::Trivial(v)))?;
        self.constrain_constant(cell, v)?;
        Ok(cell)
    }
    fn assign_advice_from_instance(&mut self, i: Column<Instance>, row: usize, c: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error> {
        let v = self.instances.get(i.index).and_then(|c| c.get(row)).copied().unwrap_or(F::ZERO);
        let cell = self.assign_advice(c, offset, &mut || Value::known(Assigned::Trivial(v)))?;
        let p = self.pos(&cell)?;
        self.rec.instance_copies.push((p, (i.index, row)));
        Ok((cell, Value::known(v)))
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        let r = self.row(offset);
        let v = to().inner().map(|a| a.evaluate()).ok_or(Error::Synthesis)?;
        self.rec.assign_fixed(c, r, v)?;
        Ok(Cell { region_index: self.index, row_offset: offset, column: c.into() })
    }
    fn constrain_constant(&mut self, cell: Cell, v: F) -> Result<(), Error> {
        self.rec.tick("constant constraint")?;
        self.constants.push((v, cell));
        Ok(())
    }
    fn constrain_equal(&mut self, a: Cell, b: Cell) -> Result<(), Error> {
        self.rec.tick("equality constraint")?;
        let (a, b) = (self.pos(&a)?, self.pos(&b)?);
        self.rec.events += 1;
        self.rec.copies.push((a, b));
        Ok(())
    }
    fn global_offset(&self, row_offset: usize) -> usize {
        self.row(row_offset)
    }
}

pub struct Region<'r, F: Field> {
    region: &'r mut dyn RegionLayouter<F>,
}
impl<F: Field> fmt::Debug for Region<'_, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Region")
    }
}
impl<'r, F: Field> From<&'r mut dyn RegionLayouter<F>> for Region<'r, F> {
    fn from(region: &'r mut dyn RegionLayouter<F>) -> Self {
        Region { region }
    }
}
impl<'r, F: Field> Region<'r, F> {
    pub(crate) fn enable_selector<A, AR>(&mut self, _: A, s: &Selector, offset: usize) -> Result<(), Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        self.region.enable_selector(s, offset)
    }
    pub fn name_column<A, AR, T>(&mut self, _: A, _: T)
    where
        A: Fn() -> AR,
        AR: Into<String>,
        T: Into<Column<Any>>,
    {
    }
    pub fn assign_advice<'v, V, VR, A, AR>(&'v mut self, _: A, column: Column<Advice>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let mut value = Value::unknown();
        let cell = self.region.assign_advice(column, offset, &mut || {
            let v = to();
            let f = v.to_field();
            value = v;
            f
        })?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn assign_advice_from_constant<VR, A, AR>(&mut self, _: A, column: Column<Advice>, offset: usize, constant: VR) -> Result<AssignedCell<VR, F>, Error>
    where
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let v: Assigned<F> = (&constant).into();
        let cell = self.region.assign_advice_from_constant(column, offset, v.evaluate())?;
        Ok(AssignedCell { value: Value::known(constant), cell, _marker: PhantomData })
    }
    pub fn assign_advice_from_instance<A, AR>(&mut self, _: A, i: Column<Instance>, row: usize, c: Column<Advice>, offset: usize) -> Result<AssignedCell<F, F>, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let (cell, value) = self.region.assign_advice_from_instance(i, row, c, offset)?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn assign_fixed<'v, V, VR, A, AR>(&'v mut self, _: A, column: Column<Fixed>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let mut value = Value::unknown();
        let cell = self.region.assign_fixed(column, offset, &mut || {
            let v = to();
            let f = v.to_field();
            value = v;
            f
        })?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn constrain_constant<VR>(&mut self, cell: Cell, constant: VR) -> Result<(), Error>
    where
        VR: Into<Assigned<F>>,
    {
        self.region.constrain_constant(cell, constant.into().evaluate())
    }
    pub fn constrain_equal(&mut self, a: Cell, b: Cell) -> Result<(), Error> {
        self.region.constrain_equal(a, b)
    }
    pub fn global_offset(&self, row_offset: usize) -> usize {
        self.region.global_offset(row_offset)
    }
}

// ---- tables -----------------------------------------------------------------------
pub trait TableLayouter<F: Field>: fmt::Debug {
    fn assign_cell(&mut self, c: TableColumn, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<(), Error>;
}
#[derive(Debug)]
struct LiveTable<'a, F: Field> {
    rec: &'a Record<F>,
    cells: BTreeMap<usize, BTreeMap<usize, F>>,
    used: Vec<usize>,
}
impl<F: Field> TableLayouter<F> for LiveTable<'_, F> {
    fn assign_cell(&mut self, c: TableColumn, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<(), Error> {
        self.rec.tick("lookup table cell")?;
        if self.used.contains(&c.inner.index) {
            return Err(Error::TableError("UsedColumn".into()));
        }
        let v = to().inner().map(|a| a.evaluate()).ok_or(Error::Synthesis)?;
        let col = self.cells.entry(c.inner.index).or_default();
        match (offset, col.get(&0)) {
            (0, Some(_)) => return Err(Error::TableError("OverwriteDefault".into())),
            _ => {}
        }
        col.insert(offset, v);
        Ok(())
    }
}
pub struct Table<'r, F: Field> {
    table: &'r mut dyn TableLayouter<F>,
}
impl<'r, F: Field> Table<'r, F> {
    pub fn assign_cell<'v, V, VR, A, AR>(&'v mut self, _: A, column: TableColumn, offset: usize, mut to: V) -> Result<(), Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        VR: Into<Assigned<F>>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        self.table.assign_cell(column, offset, &mut || to().into_field())
    }
}

// ---- layouter ---------------------------------------------------------------------
pub trait Layouter<F: Field> {
    type Root: Layouter<F>;

    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>;

    #[cfg(feature = "parallel_syn")]
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>;

    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>;

    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error>;
    fn get_challenge(&self, challenge: Challenge) -> Value<F>;
    fn get_root(&mut self) -> &mut Self::Root;
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR;
    fn pop_namespace(&mut self, gadget_name: Option<String>);
    fn namespace<NR, N>(&mut self, name_fn: N) -> NamespacedLayouter<'_, F, Self::Root>
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.get_root().push_namespace(name_fn);
        NamespacedLayouter(self.get_root(), PhantomData)
    }
}

#[derive(Debug)]
pub struct NamespacedLayouter<'a, F: Field, L: Layouter<F> + 'a>(&'a mut L, PhantomData<F>);

impl<'a, F: Field, L: Layouter<F> + 'a> Layouter<F> for NamespacedLayouter<'a, F, L> {
    type Root = L::Root;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_region(name, assignment)
    }
    #[cfg(feature = "parallel_syn")]
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_regions(name, assignments)
    }
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_table(name, assignment)
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        self.0.constrain_instance(cell, column, row)
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        self.0.get_challenge(c)
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self.0.get_root()
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        panic!("Only the root's push_namespace should be called");
    }
    fn pop_namespace(&mut self, _: Option<String>) {
        panic!("Only the root's pop_namespace should be called");
    }
}

/// The recording layouter: places regions as the single-pass simple floor planner does.
#[derive(Debug)]
pub struct RecLayouter<'a, F: Field> {
    pub rec: &'a mut Record<F>,
    permutation: Vec<Column<Any>>,
    constants: Vec<Column<Fixed>>,
    instances: &'a [Vec<F>],
    starts: Vec<usize>,
    columns: BTreeMap<RegionColumn, usize>,
    table_columns: Vec<usize>,
    two_pass: Option<&'a RefCell<TwoPass<F>>>,
}
/// What the two-pass planner knows: first the shapes of all regions, then their places.
#[derive(Debug)]
pub struct TwoPass<F: Field> {
    measuring: bool,
    shapes: Vec<RegionShape>,
    starts: Vec<usize>,
    next: usize,
    constants: Vec<(F, Cell)>,
}
fn free(taken: &BTreeMap<RegionColumn, Vec<(usize, usize)>>, c: &RegionColumn, from: usize, to: usize) -> Option<usize> {
    // the end of a region in the way, if any
    taken.get(c).and_then(|v| v.iter().filter(|(a, b)| *a < to && from < *b).map(|x| x.1).max())
}
impl<F: Field> TwoPass<F> {
    fn place(&mut self, k: u64) -> BTreeMap<RegionColumn, Vec<(usize, usize)>> {
        let n = self.shapes.len();
        let mut order: Vec<usize> = (0..n).collect();
        let mut z = k;
        if k % 4 == 2 {
            order.sort_by_key(|i| std::cmp::Reverse(self.shapes[*i].row_count * self.shapes[*i].columns.len()));
        } else {
            for i in (1..n).rev() {
                z = crate::knobs::mix(z);
                order.swap(i, (z % (i as u64 + 1)) as usize);
            }
        }
        let mut taken: BTreeMap<RegionColumn, Vec<(usize, usize)>> = BTreeMap::new();
        self.starts = vec![0; n];
        for i in order {
            let s = &self.shapes[i];
            let mut start = 0;
            if k % 4 == 0 {
                z = crate::knobs::mix(z);
                start = (z % 23) as usize;
            }
            if s.row_count > 0 {
                while let Some(next) = s.columns.iter().filter_map(|c| free(&taken, c, start, start + s.row_count)).max() {
                    start = next;
                }
            }
            for c in &s.columns {
                taken.entry(*c).or_default().push((start, start + s.row_count));
            }
            self.starts[i] = start;
        }
        taken
    }
}
impl<'a, F: Field> RecLayouter<'a, F> {
    /// Synthesizes with the two-pass planner.
    pub fn two_pass<C: crate::plonk::Circuit<F>>(cs: &ConstraintSystem<F>, rec: &'a mut Record<F>, instances: &'a [Vec<F>], circuit: &C, config: C::Config, k: u64) -> Result<(), Error> {
        let plan = RefCell::new(TwoPass { measuring: true, shapes: vec![], starts: vec![], next: 0, constants: vec![] });
        let mut scratch = Record::new(cs, None);
        let mut first = RecLayouter::new(cs, &mut scratch, instances);
        first.two_pass = Some(&plan);
        circuit.synthesize(config.clone(), first)?;
        let mut taken = plan.borrow_mut().place(k);
        plan.borrow_mut().measuring = false;
        let starts = plan.borrow().starts.clone();
        for (s, start) in plan.borrow().shapes.iter().zip(&starts) {
            rec.regions.push(RegionRec { name: String::new(), start: *start, rows: s.row_count, worker: false });
        }
        {
            let mut second = RecLayouter::new(cs, &mut *rec, instances);
            second.starts = starts.clone();
            second.two_pass = Some(&plan);
            circuit.synthesize(config, second)?;
        }
        if plan.borrow().next != starts.len() {
            return Err(Error::Synthesis);
        }
        let consts = std::mem::take(&mut plan.borrow_mut().constants);
        if !consts.is_empty() && cs.constants.is_empty() {
            return Err(Error::NotEnoughColumnsForConstants);
        }
        let mut row = 0;
        for (v, cell) in consts {
            let col = cs.constants[0];
            while free(&taken, &RegionColumn::Column(col.into()), row, row + 1).is_some() {
                row += 1;
            }
            taken.entry(RegionColumn::Column(col.into())).or_default().push((row, row + 1));
            rec.assign_fixed(col, row, v)?;
            if !cs.permutation.contains(&cell.column) {
                return Err(Error::ColumnNotInPermutation(cell.column));
            }
            rec.copies.push(((col.into(), row), (cell.column, starts[cell.region_index.0] + cell.row_offset)));
        }
        Ok(())
    }
    pub fn new(cs: &ConstraintSystem<F>, rec: &'a mut Record<F>, instances: &'a [Vec<F>]) -> Self {
        RecLayouter {
            rec,
            permutation: cs.permutation.clone(),
            constants: cs.constants.clone(),
            instances,
            starts: vec![],
            columns: BTreeMap::new(),
            table_columns: vec![],
            two_pass: None,
        }
    }
    fn place(&mut self, shape: &RegionShape, name: String, worker: bool) {
        let mut start = shape.columns.iter().map(|c| self.columns.get(c).copied().unwrap_or(0)).max().unwrap_or(0);
        let k = crate::knobs::planner();
        if k != 0 && !worker {
            start += (crate::knobs::mix(k ^ ((self.starts.len() as u64) << 40)) % 11) as usize;
        }
        for c in &shape.columns {
            self.columns.insert(*c, start + shape.row_count);
        }
        self.starts.push(start);
        self.rec.regions.push(RegionRec { name, start, rows: shape.row_count, worker });
    }
    fn finish_constants(&mut self, constants: Vec<(F, Cell)>) -> Result<(), Error> {
        if self.constants.is_empty() {
            if !constants.is_empty() {
                return Err(Error::NotEnoughColumnsForConstants);
            }
            return Ok(());
        }
        let col = self.constants[0];
        for (v, cell) in constants {
            let next = self.columns.entry(RegionColumn::Column(col.into())).or_insert(0);
            let row = *next;
            *next += 1;
            self.rec.assign_fixed(col, row, v)?;
            if !self.permutation.contains(&cell.column) {
                return Err(Error::ColumnNotInPermutation(cell.column));
            }
            self.rec.copies.push(((col.into(), row), (cell.column, self.starts[cell.region_index.0] + cell.row_offset)));
        }
        Ok(())
    }
}
impl<F: Field> Layouter<F> for RecLayouter<'_, F> {
    type Root = Self;

    fn assign_region<A, AR, N, NR>(&mut self, name: N, mut assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        if let Some(plan) = self.two_pass {
            let mut p = plan.borrow_mut();
            if p.measuring {
                let mut shape = RegionShape::new(RegionIndex(p.shapes.len()));
                drop(p);
                let res = {
                    let r: &mut dyn RegionLayouter<F> = &mut shape;
                    assignment(r.into())?
                };
                plan.borrow_mut().shapes.push(shape);
                return Ok(res);
            }
            let index = RegionIndex(p.next);
            p.next += 1;
            let rows = p.shapes.get(index.0).map(|s| s.row_count).ok_or(Error::Synthesis)?;
            drop(p);
            self.rec.regions[index.0].name = name().into();
            // what was not measured was not reserved either
            self.rec.range = Some(self.starts[index.0]..self.starts[index.0] + rows);
            let mut live = LiveRegion {
                rec: &mut *self.rec,
                starts: &self.starts,
                permutation: &self.permutation,
                instances: self.instances,
                index,
                constants: vec![],
            };
            let res = {
                let r: &mut dyn RegionLayouter<F> = &mut live;
                assignment(r.into())?
            };
            let constants = live.constants;
            self.rec.range = None;
            plan.borrow_mut().constants.extend(constants);
            return Ok(res);
        }
        self.rec.tick("region")?;
        let index = RegionIndex(self.starts.len());
        let mut shape = RegionShape::new(index);
        {
            let r: &mut dyn RegionLayouter<F> = &mut shape;
            assignment(r.into())?;
        }
        self.place(&shape, name().into(), false);
        let mut live = LiveRegion {
            rec: &mut *self.rec,
            starts: &self.starts,
            permutation: &self.permutation,
            instances: self.instances,
            index,
            constants: vec![],
        };
        let res = {
            let r: &mut dyn RegionLayouter<F> = &mut live;
            assignment(r.into())?
        };
        let constants = live.constants;
        self.finish_constants(constants)?;
        Ok(res)
    }

    #[cfg(feature = "parallel_syn")]
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, mut assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        if self.two_pass.is_some() {
            // the original has no parallel two-pass planner either
            return Err(Error::Synthesis);
        }
        self.rec.tick("parallel regions")?;
        let first = self.starts.len();
        // shapes, one after the other
        for (i, a) in assignments.iter_mut().enumerate() {
            let mut shape = RegionShape::new(RegionIndex(first + i));
            {
                let r: &mut dyn RegionLayouter<F> = &mut shape;
                a(r.into())?;
            }
            self.place(&shape, format!("{} {i}", name().into()), true);
        }
        // every worker gets its own rows
        let n = assignments.len();
        let mut end = 0;
        let mut forks = vec![];
        for r in &self.rec.regions[first..] {
            if r.rows > 0 && r.start < end {
                return Err(Error::InvalidRange(r.start, "worker ranges overlap".into()));
            }
            end = end.max(r.start + r.rows);
            forks.push(self.rec.fork(r.start..r.start + r.rows));
        }
        let (order, delay, seq) = rec::schedule(n, first as u64);
        type Out<F, AR> = (usize, std::thread::Result<Result<AR, Error>>, Record<F>, Vec<(F, Cell)>);
        let starts = &self.starts;
        let permutation = &self.permutation;
        let instances = self.instances;
        let work = move |i: usize, mut a: A, mut fork: Record<F>, d: u64| -> Out<F, AR> {
            if d > 0 {
                std::thread::sleep(std::time::Duration::from_micros(d));
            }
            let mut live = LiveRegion { rec: &mut fork, starts, permutation, instances, index: RegionIndex(first + i), constants: vec![] };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let r: &mut dyn RegionLayouter<F> = &mut live;
                a(r.into())
            }));
            let c = live.constants;
            (i, r, fork, c)
        };
        let mut jobs: Vec<Option<(A, Record<F>)>> = assignments.into_iter().zip(forks).map(Some).collect();
        let mut outs: Vec<Out<F, AR>> = vec![];
        if seq {
            for &i in &order {
                let (a, f) = jobs[i].take().unwrap();
                outs.push(std::thread::scope(|s| s.spawn(|| work(i, a, f, 0)).join().unwrap()));
            }
        } else {
            outs = std::thread::scope(|s| {
                let hs: Vec<_> = order
                    .iter()
                    .map(|&i| {
                        let (a, f) = jobs[i].take().unwrap();
                        let w = &work;
                        let d = delay[i];
                        s.spawn(move || w(i, a, f, d))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
        }
        self.rec.schedules.push(order);
        outs.sort_by_key(|o| o.0);
        let mut res = vec![];
        let mut err = None;
        let mut panic = None;
        let mut consts = vec![];
        for (_, r, fork, c) in outs {
            self.rec.merge(fork);
            consts.push(c);
            match r {
                Ok(Ok(x)) => res.push(x),
                Ok(Err(e)) => err = Some(e),
                Err(p) => {
                    self.rec.worker_panics += 1;
                    panic = Some(p)
                }
            }
        }
        if let Some(p) = panic {
            std::panic::resume_unwind(p);
        }
        if let Some(e) = err {
            return Err(e);
        }
        for c in consts {
            self.finish_constants(c)?;
        }
        Ok(res)
    }

    fn assign_table<A, N, NR>(&mut self, name: N, mut assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        if self.two_pass.is_some_and(|p| p.borrow().measuring) {
            return Ok(());
        }
        self.rec.tick("lookup table")?;
        let mut t = LiveTable { rec: &*self.rec, cells: BTreeMap::new(), used: self.table_columns.clone() };
        assignment(Table { table: &mut t })?;
        let mut len = None;
        let cells = t.cells;
        for (c, rows) in &cells {
            let n = rows.keys().next_back().map(|x| x + 1).unwrap_or(0);
            if rows.len() != n || len.is_some_and(|l| l != n) {
                return Err(Error::TableError(format!("ColumnNotAssigned or UnevenColumnLengths in {}", name().into())));
            }
            len = Some(n);
            for (r, v) in rows {
                self.rec.assign_fixed(Column::new(*c, Fixed), *r, *v)?;
            }
            self.rec.table_fill.insert(*c, (n, rows[&0]));
            self.table_columns.push(*c);
        }
        Ok(())
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        if self.two_pass.is_some_and(|p| p.borrow().measuring) {
            return Ok(());
        }
        if !self.permutation.contains(&cell.column) {
            return Err(Error::ColumnNotInPermutation(cell.column));
        }
        let p = (cell.column, self.starts[cell.region_index.0] + cell.row_offset);
        self.rec.instance_copies.push((p, (column.index, row)));
        Ok(())
    }
    fn get_challenge(&self, _: Challenge) -> Value<F> {
        Value::unknown()
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}

pub mod floor_planner {
    use super::RecLayouter;
    use crate::plonk::{Circuit, Column, ConstraintSystem, Error, Fixed};
    use crate::rec::Record;
    use ff::Field;

    pub trait FloorPlanner {
        fn synthesize<F: Field, C: Circuit<F>>(
            cs: &ConstraintSystem<F>,
            rec: &mut Record<F>,
            instances: &[Vec<F>],
            circuit: &C,
            config: C::Config,
            constants: Vec<Column<Fixed>>,
        ) -> Result<(), Error>;
    }
    #[derive(Debug)]
    pub struct SimpleFloorPlanner;
    impl FloorPlanner for SimpleFloorPlanner {
        fn synthesize<F: Field, C: Circuit<F>>(
            cs: &ConstraintSystem<F>,
            rec: &mut Record<F>,
            instances: &[Vec<F>],
            circuit: &C,
            config: C::Config,
            _: Vec<Column<Fixed>>,
        ) -> Result<(), Error> {
            let k = crate::knobs::planner();
            if k != 0 && k % 4 != 1 {
                return RecLayouter::two_pass(cs, rec, instances, circuit, config, k);
            }
            circuit.synthesize(config, RecLayouter::new(cs, rec, instances))
        }
    }
    /// The two-pass planner is chosen through `knobs::set_planner`.
    pub type V1 = SimpleFloorPlanner;
}
pub use floor_planner::SimpleFloorPlanner;
