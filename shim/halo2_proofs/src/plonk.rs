//! Constraint systems, as in `halo2_proofs::plonk`.
use crate::circuit::{Layouter, Region, Value};
use crate::poly::Rotation;
use ff::Field;
use std::convert::TryFrom;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::{Add, Mul, Neg, Sub};

pub use crate::circuit::floor_planner::FloorPlanner;
pub use crate::rec::Assignment;

// ---- columns ------------------------------------------------------------------
pub trait ColumnType: 'static + Sized + Copy + fmt::Debug + PartialEq + Eq + std::hash::Hash + Ord + Into<Any> {}

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct Column<C: ColumnType> {
    pub(crate) index: usize,
    pub(crate) column_type: C,
}
impl<C: ColumnType> Column<C> {
    pub fn new(index: usize, column_type: C) -> Self {
        Column { index, column_type }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn column_type(&self) -> &C {
        &self.column_type
    }
}

pub trait Phase {
    fn to_u8(&self) -> u8;
}
#[derive(Clone, Copy, Debug)]
pub struct FirstPhase;
#[derive(Clone, Copy, Debug)]
pub struct SecondPhase;
#[derive(Clone, Copy, Debug)]
pub struct ThirdPhase;
impl Phase for FirstPhase {
    fn to_u8(&self) -> u8 {
        0
    }
}
impl Phase for SecondPhase {
    fn to_u8(&self) -> u8 {
        1
    }
}
impl Phase for ThirdPhase {
    fn to_u8(&self) -> u8 {
        2
    }
}

#[derive(Clone, Copy, Eq, PartialEq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Advice {
    pub(crate) phase: u8,
}
impl Advice {
    pub fn phase(&self) -> u8 {
        self.phase
    }
}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct Fixed;
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct Instance;
#[derive(Clone, Copy, Eq, PartialEq, Hash, PartialOrd, Ord, Debug)]
pub enum Any {
    Advice(Advice),
    Fixed,
    Instance,
}
impl ColumnType for Advice {}
impl ColumnType for Fixed {}
impl ColumnType for Instance {}
impl ColumnType for Any {}
impl From<Advice> for Any {
    fn from(a: Advice) -> Any {
        Any::Advice(a)
    }
}
impl From<Fixed> for Any {
    fn from(_: Fixed) -> Any {
        Any::Fixed
    }
}
impl From<Instance> for Any {
    fn from(_: Instance) -> Any {
        Any::Instance
    }
}
macro_rules! to_any {
    ($t:ty) => {
        impl From<Column<$t>> for Column<Any> {
            fn from(c: Column<$t>) -> Column<Any> {
                Column { index: c.index, column_type: c.column_type.into() }
            }
        }
    };
}
to_any!(Advice);
to_any!(Fixed);
to_any!(Instance);
impl TryFrom<Column<Any>> for Column<Advice> {
    type Error = &'static str;
    fn try_from(c: Column<Any>) -> Result<Self, Self::Error> {
        match c.column_type {
            Any::Advice(a) => Ok(Column { index: c.index, column_type: a }),
            _ => Err("Cannot convert into Column<Advice>"),
        }
    }
}
impl TryFrom<Column<Any>> for Column<Fixed> {
    type Error = &'static str;
    fn try_from(c: Column<Any>) -> Result<Self, Self::Error> {
        match c.column_type {
            Any::Fixed => Ok(Column { index: c.index, column_type: Fixed }),
            _ => Err("Cannot convert into Column<Fixed>"),
        }
    }
}
impl TryFrom<Column<Any>> for Column<Instance> {
    type Error = &'static str;
    fn try_from(c: Column<Any>) -> Result<Self, Self::Error> {
        match c.column_type {
            Any::Instance => Ok(Column { index: c.index, column_type: Instance }),
            _ => Err("Cannot convert into Column<Instance>"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Selector(pub(crate) usize, pub(crate) bool);
impl Selector {
    pub fn enable<F: Field>(&self, region: &mut Region<F>, offset: usize) -> Result<(), Error> {
        region.enable_selector(|| "", self, offset)
    }
    pub fn is_simple(&self) -> bool {
        self.1
    }
    pub fn index(&self) -> usize {
        self.0
    }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct TableColumn {
    pub(crate) inner: Column<Fixed>,
}
impl TableColumn {
    pub fn inner(&self) -> Column<Fixed> {
        self.inner
    }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
pub struct Challenge {
    pub(crate) index: usize,
    pub(crate) phase: u8,
}
impl Challenge {
    pub fn index(&self) -> usize {
        self.index
    }
}

// ---- errors -------------------------------------------------------------------
#[derive(Debug)]
pub enum Error {
    Synthesis,
    InvalidInstances,
    ConstraintSystemFailure,
    BoundsFailure,
    Opening,
    Transcript(std::io::Error),
    NotEnoughRowsAvailable { current_k: u32 },
    InstanceTooLarge,
    NotEnoughColumnsForConstants,
    ColumnNotInPermutation(Column<Any>),
    TableError(String),
    InvalidRange(usize, String),
}
impl Error {
    pub fn not_enough_rows_available(current_k: u32) -> Self {
        Error::NotEnoughRowsAvailable { current_k }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

// ---- values in rational form ----------------------------------------------------
#[derive(Clone, Copy, Debug)]
pub enum Assigned<F> {
    Zero,
    Trivial(F),
    Rational(F, F),
}
impl<F: Field> Assigned<F> {
    pub fn evaluate(self) -> F {
        match self {
            Assigned::Zero => F::ZERO,
            Assigned::Trivial(x) => x,
            Assigned::Rational(n, d) => n * d.invert().unwrap_or(F::ZERO),
        }
    }
    pub fn is_zero_vartime(&self) -> bool {
        bool::from(self.evaluate().is_zero())
    }
    pub fn numerator(&self) -> F {
        match self {
            Assigned::Zero => F::ZERO,
            Assigned::Trivial(x) => *x,
            Assigned::Rational(n, _) => *n,
        }
    }
    pub fn denominator(&self) -> Option<F> {
        match self {
            Assigned::Rational(_, d) => Some(*d),
            _ => None,
        }
    }
    pub fn double(&self) -> Self {
        *self + *self
    }
    pub fn square(&self) -> Self {
        *self * *self
    }
    pub fn cube(&self) -> Self {
        self.square() * *self
    }
    pub fn invert(&self) -> Self {
        match self {
            Assigned::Zero => Assigned::Zero,
            Assigned::Trivial(x) => Assigned::Rational(F::ONE, *x),
            Assigned::Rational(n, d) => Assigned::Rational(*d, *n),
        }
    }
}
impl<F: Field> From<&Assigned<F>> for Assigned<F> {
    fn from(v: &Assigned<F>) -> Self {
        *v
    }
}
impl<F: Field> From<&F> for Assigned<F> {
    fn from(v: &F) -> Self {
        Assigned::Trivial(*v)
    }
}
impl<F: Field> From<F> for Assigned<F> {
    fn from(v: F) -> Self {
        Assigned::Trivial(v)
    }
}
impl<F: Field> PartialEq for Assigned<F> {
    fn eq(&self, o: &Self) -> bool {
        self.evaluate() == o.evaluate()
    }
}
macro_rules! assigned_op {
    ($tr:ident, $f:ident) => {
        impl<F: Field> $tr for Assigned<F> {
            type Output = Assigned<F>;
            fn $f(self, o: Self) -> Self {
                Assigned::Trivial($tr::$f(self.evaluate(), o.evaluate()))
            }
        }
        impl<F: Field> $tr<F> for Assigned<F> {
            type Output = Assigned<F>;
            fn $f(self, o: F) -> Self {
                Assigned::Trivial($tr::$f(self.evaluate(), o))
            }
        }
    };
}
assigned_op!(Add, add);
assigned_op!(Sub, sub);
assigned_op!(Mul, mul);
macro_rules! assigned_assign {
    ($tr:ident, $f:ident, $op:tt) => {
        impl<F: Field> std::ops::$tr for Assigned<F> {
            fn $f(&mut self, o: Self) {
                *self = *self $op o;
            }
        }
        impl<F: Field> std::ops::$tr<&Assigned<F>> for Assigned<F> {
            fn $f(&mut self, o: &Self) {
                *self = *self $op *o;
            }
        }
    };
}
assigned_assign!(AddAssign, add_assign, +);
assigned_assign!(SubAssign, sub_assign, -);
assigned_assign!(MulAssign, mul_assign, *);
impl<F: Field> Sum for Assigned<F> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Assigned::Zero, |a, b| a + b)
    }
}
impl<F: Field> Product for Assigned<F> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Assigned::Trivial(F::ONE), |a, b| a * b)
    }
}
impl<F: Field> Neg for Assigned<F> {
    type Output = Assigned<F>;
    fn neg(self) -> Self {
        Assigned::Trivial(-self.evaluate())
    }
}

// ---- expressions ----------------------------------------------------------------
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct FixedQuery {
    pub(crate) column_index: usize,
    pub(crate) rotation: Rotation,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct AdviceQuery {
    pub(crate) column_index: usize,
    pub(crate) rotation: Rotation,
    pub(crate) phase: u8,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct InstanceQuery {
    pub(crate) column_index: usize,
    pub(crate) rotation: Rotation,
}
macro_rules! qacc {
    ($t:ty) => {
        impl $t {
            pub fn column_index(&self) -> usize {
                self.column_index
            }
            pub fn rotation(&self) -> Rotation {
                self.rotation
            }
        }
    };
}
qacc!(FixedQuery);
qacc!(AdviceQuery);
qacc!(InstanceQuery);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expression<F> {
    Constant(F),
    Selector(Selector),
    Fixed(FixedQuery),
    Advice(AdviceQuery),
    Instance(InstanceQuery),
    Challenge(Challenge),
    Negated(Box<Expression<F>>),
    Sum(Box<Expression<F>>, Box<Expression<F>>),
    Product(Box<Expression<F>>, Box<Expression<F>>),
    Scaled(Box<Expression<F>>, F),
}
impl<F: Field> Expression<F> {
    #[allow(clippy::too_many_arguments)]
    pub fn evaluate<T>(
        &self,
        constant: &impl Fn(F) -> T,
        selector_column: &impl Fn(Selector) -> T,
        fixed_column: &impl Fn(FixedQuery) -> T,
        advice_column: &impl Fn(AdviceQuery) -> T,
        instance_column: &impl Fn(InstanceQuery) -> T,
        challenge: &impl Fn(Challenge) -> T,
        negated: &impl Fn(T) -> T,
        sum: &impl Fn(T, T) -> T,
        product: &impl Fn(T, T) -> T,
        scaled: &impl Fn(T, F) -> T,
    ) -> T {
        macro_rules! rec {
            ($e:expr) => {
                $e.evaluate(constant, selector_column, fixed_column, advice_column, instance_column, challenge, negated, sum, product, scaled)
            };
        }
        match self {
            Expression::Constant(c) => constant(*c),
            Expression::Selector(s) => selector_column(*s),
            Expression::Fixed(q) => fixed_column(*q),
            Expression::Advice(q) => advice_column(*q),
            Expression::Instance(q) => instance_column(*q),
            Expression::Challenge(c) => challenge(*c),
            Expression::Negated(a) => negated(rec!(a)),
            Expression::Sum(a, b) => sum(rec!(a), rec!(b)),
            Expression::Product(a, b) => product(rec!(a), rec!(b)),
            Expression::Scaled(a, f) => scaled(rec!(a), *f),
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Expression::Constant(_) | Expression::Challenge(_) => 0,
            Expression::Selector(_) | Expression::Fixed(_) | Expression::Advice(_) | Expression::Instance(_) => 1,
            Expression::Negated(a) | Expression::Scaled(a, _) => a.degree(),
            Expression::Sum(a, b) => a.degree().max(b.degree()),
            Expression::Product(a, b) => a.degree() + b.degree(),
        }
    }
    pub fn square(self) -> Self {
        self.clone() * self
    }
    pub(crate) fn contains_simple_selector(&self) -> bool {
        match self {
            Expression::Selector(s) => s.1,
            Expression::Negated(a) | Expression::Scaled(a, _) => a.contains_simple_selector(),
            Expression::Sum(a, b) | Expression::Product(a, b) => a.contains_simple_selector() || b.contains_simple_selector(),
            _ => false,
        }
    }
    pub fn identifier(&self) -> String {
        format!("{self:?}")
    }
}
impl<F: Field> Neg for Expression<F> {
    type Output = Expression<F>;
    fn neg(self) -> Self {
        Expression::Negated(Box::new(self))
    }
}
impl<F: Field> Add for Expression<F> {
    type Output = Expression<F>;
    fn add(self, o: Self) -> Self {
        Expression::Sum(Box::new(self), Box::new(o))
    }
}
impl<F: Field> Sub for Expression<F> {
    type Output = Expression<F>;
    fn sub(self, o: Self) -> Self {
        Expression::Sum(Box::new(self), Box::new(-o))
    }
}
impl<F: Field> Mul for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, o: Self) -> Self {
        if self.contains_simple_selector() && o.contains_simple_selector() {
            panic!("attempted to multiply two expressions containing simple selectors");
        }
        Expression::Product(Box::new(self), Box::new(o))
    }
}
impl<F: Field> Mul<F> for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, o: F) -> Self {
        Expression::Scaled(Box::new(self), o)
    }
}
impl<F: Field> Sum<Self> for Expression<F> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.reduce(|a, b| a + b).unwrap_or(Expression::Constant(F::ZERO))
    }
}
impl<F: Field> Product<Self> for Expression<F> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.reduce(|a, b| a * b).unwrap_or(Expression::Constant(F::ONE))
    }
}

// ---- constraints ----------------------------------------------------------------
#[derive(Debug, Clone)]
pub struct Constraint<F: Field> {
    pub(crate) name: String,
    pub(crate) poly: Expression<F>,
}
impl<F: Field> From<Expression<F>> for Constraint<F> {
    fn from(poly: Expression<F>) -> Self {
        Constraint { name: String::new(), poly }
    }
}
impl<F: Field, S: AsRef<str>> From<(S, Expression<F>)> for Constraint<F> {
    fn from((n, poly): (S, Expression<F>)) -> Self {
        Constraint { name: n.as_ref().to_string(), poly }
    }
}
impl<F: Field> From<Expression<F>> for Vec<Constraint<F>> {
    fn from(poly: Expression<F>) -> Self {
        vec![poly.into()]
    }
}

#[derive(Debug)]
pub struct Constraints<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> {
    selector: Expression<F>,
    constraints: Iter,
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> Constraints<F, C, Iter> {
    pub fn with_selector(selector: Expression<F>, constraints: Iter) -> Self {
        Constraints { selector, constraints }
    }
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> IntoIterator for Constraints<F, C, Iter> {
    type Item = Constraint<F>;
    type IntoIter = std::vec::IntoIter<Constraint<F>>;
    fn into_iter(self) -> Self::IntoIter {
        let s = self.selector;
        self.constraints
            .into_iter()
            .map(|c| {
                let c: Constraint<F> = c.into();
                Constraint { name: c.name, poly: s.clone() * c.poly }
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

#[derive(Clone, Debug)]
pub struct Gate<F: Field> {
    pub name: String,
    pub constraint_names: Vec<String>,
    pub polys: Vec<Expression<F>>,
}
impl<F: Field> Gate<F> {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn polynomials(&self) -> &[Expression<F>] {
        &self.polys
    }
}
#[derive(Clone, Debug)]
pub struct Lookup<F: Field> {
    pub name: String,
    pub input: Vec<Expression<F>>,
    pub table: Vec<Expression<F>>,
}

#[derive(Debug, Clone)]
pub struct ConstraintSystem<F: Field> {
    pub num_fixed: usize,
    pub num_advice: usize,
    pub num_instance: usize,
    pub num_selectors: usize,
    pub num_challenges: usize,
    pub selector_simple: Vec<bool>,
    pub advice_phase: Vec<u8>,
    pub gates: Vec<Gate<F>>,
    pub lookups: Vec<Lookup<F>>,
    pub permutation: Vec<Column<Any>>,
    pub constants: Vec<Column<Fixed>>,
    pub table_columns: Vec<usize>,
    pub num_advice_queries: Vec<Vec<i32>>,
    pub minimum_degree: Option<usize>,
}
impl<F: Field> Default for ConstraintSystem<F> {
    fn default() -> Self {
        ConstraintSystem {
            num_fixed: 0,
            num_advice: 0,
            num_instance: 0,
            num_selectors: 0,
            num_challenges: 0,
            selector_simple: vec![],
            advice_phase: vec![],
            gates: vec![],
            lookups: vec![],
            permutation: vec![],
            constants: vec![],
            table_columns: vec![],
            num_advice_queries: vec![],
            minimum_degree: None,
        }
    }
}

#[derive(Debug)]
pub struct VirtualCells<'a, F: Field> {
    meta: &'a mut ConstraintSystem<F>,
    queries: usize,
}
impl<'a, F: Field> VirtualCells<'a, F> {
    pub fn query_selector(&mut self, s: Selector) -> Expression<F> {
        Expression::Selector(s)
    }
    pub fn query_fixed(&mut self, c: Column<Fixed>, at: Rotation) -> Expression<F> {
        self.queries += 1;
        Expression::Fixed(FixedQuery { column_index: c.index, rotation: at })
    }
    pub fn query_advice(&mut self, c: Column<Advice>, at: Rotation) -> Expression<F> {
        self.queries += 1;
        let q = &mut self.meta.num_advice_queries[c.index];
        if !q.contains(&at.0) {
            q.push(at.0);
        }
        Expression::Advice(AdviceQuery { column_index: c.index, rotation: at, phase: c.column_type.phase })
    }
    pub fn query_instance(&mut self, c: Column<Instance>, at: Rotation) -> Expression<F> {
        self.queries += 1;
        Expression::Instance(InstanceQuery { column_index: c.index, rotation: at })
    }
    pub fn query_any<C: Into<Column<Any>>>(&mut self, c: C, at: Rotation) -> Expression<F> {
        let c: Column<Any> = c.into();
        match c.column_type {
            Any::Advice(a) => self.query_advice(Column { index: c.index, column_type: a }, at),
            Any::Fixed => self.query_fixed(Column { index: c.index, column_type: Fixed }, at),
            Any::Instance => self.query_instance(Column { index: c.index, column_type: Instance }, at),
        }
    }
    pub fn query_challenge(&mut self, c: Challenge) -> Expression<F> {
        Expression::Challenge(c)
    }
}

impl<F: Field> ConstraintSystem<F> {
    pub fn enable_constant(&mut self, c: Column<Fixed>) {
        if !self.constants.contains(&c) {
            self.constants.push(c);
            self.enable_equality(c);
        }
    }
    pub fn enable_equality<C: Into<Column<Any>>>(&mut self, c: C) {
        let c = c.into();
        if let Any::Advice(_) = c.column_type {
            let q = &mut self.num_advice_queries[c.index];
            if !q.contains(&0) {
                q.push(0);
            }
        }
        if !self.permutation.contains(&c) {
            self.permutation.push(c);
        }
    }
    pub fn lookup<N: AsRef<str>>(
        &mut self,
        name: N,
        table_map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, TableColumn)>,
    ) -> usize {
        let mut cells = VirtualCells { meta: self, queries: 0 };
        let map: Vec<_> = table_map(&mut cells)
            .into_iter()
            .map(|(i, t)| {
                if i.contains_simple_selector() {
                    panic!("expression containing simple selector supplied to lookup argument");
                }
                let t = cells.query_fixed(t.inner, Rotation::cur());
                (i, t)
            })
            .collect();
        self.push_lookup(name.as_ref(), map)
    }
    pub fn lookup_any<N: AsRef<str>>(
        &mut self,
        name: N,
        table_map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, Expression<F>)>,
    ) -> usize {
        let mut cells = VirtualCells { meta: self, queries: 0 };
        let map = table_map(&mut cells);
        self.push_lookup(name.as_ref(), map)
    }
    fn push_lookup(&mut self, name: &str, map: Vec<(Expression<F>, Expression<F>)>) -> usize {
        let (input, table) = map.into_iter().unzip();
        self.lookups.push(Lookup { name: name.to_string(), input, table });
        self.lookups.len() - 1
    }
    pub fn create_gate<N: AsRef<str>, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>>(
        &mut self,
        name: N,
        constraints: impl FnOnce(&mut VirtualCells<'_, F>) -> Iter,
    ) {
        let mut cells = VirtualCells { meta: self, queries: 0 };
        let cs: Vec<Constraint<F>> = constraints(&mut cells).into_iter().map(|c| c.into()).collect();
        assert!(!cs.is_empty(), "Gates must contain at least one constraint.");
        let (constraint_names, polys) = cs.into_iter().map(|c| (c.name, c.poly)).unzip();
        self.gates.push(Gate { name: name.as_ref().to_string(), constraint_names, polys });
    }
    pub fn selector(&mut self) -> Selector {
        self.selector_simple.push(true);
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, true)
    }
    pub fn complex_selector(&mut self) -> Selector {
        self.selector_simple.push(false);
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, false)
    }
    pub fn lookup_table_column(&mut self) -> TableColumn {
        let c = self.fixed_column();
        self.table_columns.push(c.index);
        TableColumn { inner: c }
    }
    pub fn fixed_column(&mut self) -> Column<Fixed> {
        self.num_fixed += 1;
        Column { index: self.num_fixed - 1, column_type: Fixed }
    }
    pub fn advice_column(&mut self) -> Column<Advice> {
        self.advice_column_in(FirstPhase)
    }
    pub fn advice_column_in<P: Phase>(&mut self, p: P) -> Column<Advice> {
        self.num_advice += 1;
        self.num_advice_queries.push(vec![]);
        self.advice_phase.push(p.to_u8());
        Column { index: self.num_advice - 1, column_type: Advice { phase: p.to_u8() } }
    }
    pub fn unblinded_advice_column(&mut self) -> Column<Advice> {
        self.advice_column()
    }
    pub fn instance_column(&mut self) -> Column<Instance> {
        self.num_instance += 1;
        Column { index: self.num_instance - 1, column_type: Instance }
    }
    pub fn challenge_usable_after<P: Phase>(&mut self, p: P) -> Challenge {
        self.num_challenges += 1;
        Challenge { index: self.num_challenges - 1, phase: p.to_u8() }
    }
    pub fn annotate_lookup_column<A: Fn() -> AR, AR: Into<String>>(&mut self, _: TableColumn, _: A) {}
    pub fn annotate_lookup_any_column<A: Fn() -> AR, AR: Into<String>, T: Into<Column<Any>>>(&mut self, _: T, _: A) {}
    pub fn set_minimum_degree(&mut self, d: usize) {
        self.minimum_degree = Some(d);
    }
    pub fn gates(&self) -> &Vec<Gate<F>> {
        &self.gates
    }
    pub fn lookups(&self) -> &Vec<Lookup<F>> {
        &self.lookups
    }
    pub fn degree(&self) -> usize {
        let mut d = 3;
        for l in &self.lookups {
            let i = l.input.iter().map(|e| e.degree()).max().unwrap_or(1).max(1);
            let t = l.table.iter().map(|e| e.degree()).max().unwrap_or(1).max(1);
            d = d.max((2 + i + t).max(4));
        }
        for g in &self.gates {
            for p in &g.polys {
                d = d.max(p.degree());
            }
        }
        d.max(self.minimum_degree.unwrap_or(1))
    }
    pub fn blinding_factors(&self) -> usize {
        self.num_advice_queries.iter().map(|q| q.len()).max().unwrap_or(1).max(3) + 2
    }
    pub fn minimum_rows(&self) -> usize {
        self.blinding_factors() + 3
    }
    pub fn num_advice_columns(&self) -> usize {
        self.num_advice
    }
    pub fn num_fixed_columns(&self) -> usize {
        self.num_fixed
    }
    pub fn num_selectors(&self) -> usize {
        self.num_selectors
    }
    pub fn num_instance_columns(&self) -> usize {
        self.num_instance
    }
}

pub trait Circuit<F: Field> {
    type Config: Clone;
    type FloorPlanner: FloorPlanner;
    fn without_witnesses(&self) -> Self;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config;
    fn synthesize(&self, config: Self::Config, layouter: impl Layouter<F>) -> Result<(), Error>;
}

#[allow(dead_code)]
fn _unused<F: Field>(_: Value<F>) {}
