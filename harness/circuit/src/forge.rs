//! The forger: looks for assignments that the constraints accept. Starting from the
//! values a trial fixes (the shown table, or a permutation's input), it derives every
//! cell that the constraints determine, gives cells that they leave open other values
//! than the honest ones, and carries on until all cells are set or a constraint fails.
//! What it finds is then judged by the mock prover, which knows nothing of this search.
use ff::{Field, PrimeField};
use halo2_proofs::dev::MockProver;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::{Any, Expression};
use oracle::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

/// A constraint as a list of nodes, each referring to earlier ones; the last is the
/// value that must be zero.
#[derive(Clone, Copy, Debug)]
enum N {
    C(Fr),
    V(u32),
    S(u32, u32),
    P(u32, u32),
}
#[derive(Default)]
struct Builder {
    nodes: Vec<N>,
    deg: Vec<u32>,
    seen: HashMap<(u8, [u64; 4]), u32>,
}
impl Builder {
    fn push(&mut self, n: N) -> u32 {
        let key = match n {
            N::C(v) => (0, crate::conv::l4(&v)),
            N::V(v) => (1, [v as u64, 0, 0, 0]),
            N::S(a, b) => (2, [a.min(b) as u64, a.max(b) as u64, 0, 0]),
            N::P(a, b) => (3, [a.min(b) as u64, a.max(b) as u64, 0, 0]),
        };
        if let Some(i) = self.seen.get(&key) {
            return *i;
        }
        let d = match n {
            N::C(_) => 0,
            N::V(_) => 1,
            N::S(a, b) => self.deg[a as usize].max(self.deg[b as usize]),
            N::P(a, b) => self.deg[a as usize] + self.deg[b as usize],
        };
        self.nodes.push(n);
        self.deg.push(d);
        let i = self.nodes.len() as u32 - 1;
        self.seen.insert(key, i);
        i
    }
    fn constant(&self, i: u32) -> Option<Fr> {
        match self.nodes[i as usize] {
            N::C(v) => Some(v),
            _ => None,
        }
    }
    fn c(&mut self, v: Fr) -> u32 {
        self.push(N::C(v))
    }
    fn add(&mut self, a: u32, b: u32) -> u32 {
        match (self.constant(a), self.constant(b)) {
            (Some(x), Some(y)) => self.c(x + y),
            (Some(x), _) if bool::from(x.is_zero()) => b,
            (_, Some(y)) if bool::from(y.is_zero()) => a,
            _ => self.push(N::S(a, b)),
        }
    }
    fn mul(&mut self, a: u32, b: u32) -> u32 {
        match (self.constant(a), self.constant(b)) {
            (Some(x), Some(y)) => self.c(x * y),
            (Some(x), _) if bool::from(x.is_zero()) => a,
            (_, Some(y)) if bool::from(y.is_zero()) => b,
            (Some(x), _) if x == Fr::one() => b,
            (_, Some(y)) if y == Fr::one() => a,
            _ => self.push(N::P(a, b)),
        }
    }
}
/// Coefficients of a one-variable expression, lowest first.
fn interpolate(ys: Vec<Fr>) -> Vec<Fr> {
    let d = ys.len() - 1;
    // Newton
    static INV: std::sync::OnceLock<Vec<Fr>> = std::sync::OnceLock::new();
    let inv = INV.get_or_init(|| (0..64u64).map(|i| Fr::from(i).invert().unwrap_or(Fr::zero())).collect());
    assert!(d < 64);
    let mut co = ys;
    for j in 1..=d {
        for i in (j..=d).rev() {
            co[i] = (co[i] - co[i - 1]) * inv[j];
        }
    }
    let mut p = vec![Fr::zero(); d + 1];
    for i in (0..=d).rev() {
        // p = p * (x - i) + co[i]
        let mut q = vec![Fr::zero(); d + 1];
        for t in 0..=d {
            if t + 1 <= d {
                q[t + 1] += p[t];
            }
            q[t] -= p[t] * Fr::from(i as u64);
        }
        q[0] += co[i];
        p = q;
    }
    while p.len() > 1 && bool::from(p.last().unwrap().is_zero()) {
        p.pop();
    }
    p
}
pub fn root5(x: &Fr) -> Fr {
    // x^(1/5): exponent 5^-1 mod (p-1)
    use oracle::num_bigint::BigUint;
    use std::sync::OnceLock;
    static EXP: OnceLock<[u64; 4]> = OnceLock::new();
    let e = EXP.get_or_init(|| {
        let p1 = oracle::p_bn254() - 1u8;
        // k with k*(p-1)+1 divisible by 5
        for k in 1u32..5 {
            let v: BigUint = &p1 * k + 1u8;
            if (&v % 5u8) == BigUint::from(0u8) {
                return oracle::to_l4(&(v / 5u8));
            }
        }
        unreachable!()
    });
    x.pow_vartime(e)
}
enum Roots {
    All,
    None,
    Some(Vec<Fr>),
    Hard,
}
fn roots(p: &[Fr]) -> Roots {
    match p.len() {
        0 => Roots::All,
        1 => {
            if bool::from(p[0].is_zero()) {
                Roots::All
            } else {
                Roots::None
            }
        }
        2 => Roots::Some(vec![-p[0] * p[1].invert().unwrap()]),
        3 => {
            let d = p[1].square() - p[0] * p[2] * Fr::from(4);
            match Option::<Fr>::from(d.sqrt()) {
                None => Roots::None,
                Some(s) => {
                    let i = (p[2] + p[2]).invert().unwrap();
                    let mut v = vec![(-p[1] + s) * i, (-p[1] - s) * i];
                    v.dedup();
                    Roots::Some(v)
                }
            }
        }
        6 => {
            // a (x + c)^5 + b
            let a = p[5];
            let cc = p[4] * (a * Fr::from(5)).invert().unwrap();
            let b = p[0] - a * cc.pow_vartime([5]);
            let ok = p[3] == a * Fr::from(10) * cc.square() && p[2] == a * Fr::from(10) * cc.square() * cc && p[1] == a * Fr::from(5) * cc.square().square();
            if ok {
                Roots::Some(vec![root5(&(-b * a.invert().unwrap())) - cc])
            } else {
                Roots::Hard
            }
        }
        _ => Roots::Hard,
    }
}

pub struct Con {
    pub gate: u32,
    pub index: u32,
    pub row: usize,
    nodes: Vec<N>,
    degree: u32,
    vars: Vec<u32>,
}
impl Con {
    fn eval(&self, buf: &mut Vec<Fr>, at: impl Fn(u32) -> Fr) -> Fr {
        buf.clear();
        for n in &self.nodes {
            let v = match n {
                N::C(v) => *v,
                N::V(v) => at(*v),
                N::S(a, b) => buf[*a as usize] + buf[*b as usize],
                N::P(a, b) => buf[*a as usize] * buf[*b as usize],
            };
            buf.push(v);
        }
        *buf.last().unwrap()
    }
}
/// The constraints of a synthesized circuit over its free cells.
pub struct System {
    pub prover: MockProver<Fr>,
    /// (advice column, row) -> class
    pub class: HashMap<(usize, usize), u32>,
    pub members: Vec<Vec<(usize, usize)>>,
    pub given: Vec<Option<Fr>>,
    pub honest: Vec<Fr>,
    pub cons: Vec<Con>,
    uses: Vec<Vec<u32>>,
    by_row: Vec<Vec<u32>>,
    /// classes in reading order (first row, column)
    order: Vec<u32>,
    pub contradiction: Option<String>,
}
fn compile(b: &mut Builder, p: &MockProver<Fr>, e: &Expression<Fr>, row: usize, cell: &mut dyn FnMut(usize, usize) -> u32) -> u32 {
    let rot = |r: i32| (row as i64 + r as i64).rem_euclid(p.n as i64) as usize;
    match e {
        Expression::Constant(v) => b.c(*v),
        Expression::Selector(_) | Expression::Fixed(_) | Expression::Instance(_) | Expression::Challenge(_) => b.c(p.eval(e, row)),
        Expression::Advice(q) => {
            let r = rot(q.rotation().0);
            if r >= p.usable {
                b.c(p.advice(q.column_index(), r))
            } else {
                let v = cell(q.column_index(), r);
                b.push(N::V(v))
            }
        }
        Expression::Negated(a) => {
            let x = compile(b, p, a, row, cell);
            let m = b.c(-Fr::one());
            b.mul(m, x)
        }
        Expression::Scaled(a, f) => {
            let x = compile(b, p, a, row, cell);
            let m = b.c(*f);
            b.mul(m, x)
        }
        Expression::Sum(x, y) => {
            let x = compile(b, p, x, row, cell);
            let y = compile(b, p, y, row, cell);
            b.add(x, y)
        }
        Expression::Product(x, y) => {
            let x = compile(b, p, x, row, cell);
            if b.constant(x).is_some_and(|v| bool::from(v.is_zero())) {
                return x;
            }
            let y = compile(b, p, y, row, cell);
            b.mul(x, y)
        }
    }
}
impl System {
    pub fn new(prover: MockProver<Fr>) -> Self {
        // copy classes
        let mut ids: HashMap<(u8, usize, usize), usize> = HashMap::new();
        let mut parent: Vec<usize> = vec![];
        fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
            while p[x] != x {
                p[x] = p[p[x]];
                x = p[x];
            }
            x
        }
        let mut keys: Vec<(u8, usize, usize)> = vec![];
        let mut id = |k: (u8, usize, usize), parent: &mut Vec<usize>| {
            *ids.entry(k).or_insert_with(|| {
                parent.push(parent.len());
                keys.push(k);
                parent.len() - 1
            })
        };
        for (a, b) in &prover.rec.copies {
            let key = |p: &halo2_proofs::rec::CellPos| {
                let t = match p.0.column_type() {
                    Any::Advice(_) => 0,
                    Any::Fixed => 1,
                    Any::Instance => 2,
                };
                (t, p.0.index(), p.1)
            };
            let x = id(key(a), &mut parent);
            let y = id(key(b), &mut parent);
            let (x, y) = (find(&mut parent, x), find(&mut parent, y));
            parent[x] = y;
        }
        let mut class: HashMap<(usize, usize), u32> = HashMap::new();
        let mut members: Vec<Vec<(usize, usize)>> = vec![];
        let mut given: Vec<Option<Fr>> = vec![];
        let mut of_root: HashMap<usize, u32> = HashMap::new();
        let mut contradiction = None;
        let nk = keys.len();
        for k in 0..nk {
            let r = find(&mut parent, k);
            let cl = *of_root.entry(r).or_insert_with(|| {
                members.push(vec![]);
                given.push(None);
                members.len() as u32 - 1
            });
            let (t, col, row) = keys[k];
            if t == 0 {
                members[cl as usize].push((col, row));
                class.insert((col, row), cl);
            } else {
                let v = if t == 1 { prover.fixed(col, row) } else { prover.instances[col][row] };
                if given[cl as usize].is_some_and(|x| x != v) {
                    contradiction = Some(format!("copies equate different fixed cells at row {row}"));
                }
                given[cl as usize] = Some(v);
            }
        }
        let mut cons = vec![];
        {
            let mut cell = |col: usize, row: usize| {
                *class.entry((col, row)).or_insert_with(|| {
                    members.push(vec![(col, row)]);
                    given.push(None);
                    members.len() as u32 - 1
                })
            };
            for row in 0..prover.n {
                for (g, gate) in prover.cs.gates.iter().enumerate() {
                    for (i, p) in gate.polys.iter().enumerate() {
                        let mut b = Builder::default();
                        let root = compile(&mut b, &prover, p, row, &mut cell);
                        if b.constant(root).is_some_and(|v| bool::from(v.is_zero())) {
                            continue;
                        }
                        // only what the root needs
                        let mut need = vec![false; b.nodes.len()];
                        need[root as usize] = true;
                        let mut map = vec![0u32; b.nodes.len()];
                        for i in (0..b.nodes.len()).rev() {
                            if need[i] {
                                if let N::S(x, y) | N::P(x, y) = b.nodes[i] {
                                    need[x as usize] = true;
                                    need[y as usize] = true;
                                }
                            }
                        }
                        let mut nodes = vec![];
                        let mut vars = vec![];
                        for i in 0..b.nodes.len() {
                            if need[i] {
                                map[i] = nodes.len() as u32;
                                nodes.push(match b.nodes[i] {
                                    N::S(x, y) => N::S(map[x as usize], map[y as usize]),
                                    N::P(x, y) => N::P(map[x as usize], map[y as usize]),
                                    N::V(v) => {
                                        if !vars.contains(&v) {
                                            vars.push(v);
                                        }
                                        N::V(v)
                                    }
                                    n => n,
                                });
                            }
                        }
                        cons.push(Con { gate: g as u32, index: i as u32, row, nodes, degree: b.deg[root as usize], vars });
                    }
                }
            }
            // cells that only lookups see are part of the search too
            for l in &prover.cs.lookups {
                for row in 0..prover.usable {
                    for e in &l.input {
                        compile(&mut Builder::default(), &prover, e, row, &mut cell);
                    }
                }
            }
        }
        let honest: Vec<Fr> = members.iter().enumerate().map(|(i, m)| given[i].unwrap_or_else(|| m.first().map(|(c, r)| prover.advice(*c, *r)).unwrap_or(Fr::zero()))).collect();
        let mut uses = vec![vec![]; members.len()];
        for (i, c) in cons.iter().enumerate() {
            for v in &c.vars {
                uses[*v as usize].push(i as u32);
            }
        }
        let mut by_row = vec![vec![]; prover.n];
        for (i, c) in cons.iter().enumerate() {
            by_row[c.row].push(i as u32);
        }
        let mut order: Vec<u32> = (0..members.len() as u32).collect();
        order.sort_by_key(|c| members[*c as usize].iter().map(|(c, r)| (*r, *c)).min());
        System { prover, class, members, given, honest, cons, uses, by_row, order, contradiction }
    }
    pub fn class_of(&self, col: usize, row: usize) -> Option<u32> {
        self.class.get(&(col, row)).copied()
    }
}

pub enum Outcome {
    /// a constraint cannot be met
    Dead(String),
    /// everything is set and the mock prover accepts
    Accepted(Box<MockProver<Fr>>),
    /// a search step that this forger cannot decide
    Hard(String),
}
pub struct Trial<'a> {
    pub s: &'a System,
    pub val: Vec<Option<Fr>>,
    open: Vec<u32>,
    queue: VecDeque<u32>,
    /// touched since the last look, and the form they had then
    dirty: Vec<u32>,
    is_dirty: Vec<bool>,
    buf: Vec<Fr>,
    rng: Rng,
    /// chance in 100 that an open cell keeps its honest value
    pub honest: u64,
    pub derived: u64,
    pub chosen: u64,
    pub branched: u64,
    pub systems: u64,
    /// values fixed by the trial that are not in any constraint
    pub loose: HashMap<(usize, usize), Fr>,
}
impl<'a> Trial<'a> {
    pub fn new(s: &'a System, rng: &mut Rng, honest: u64) -> Self {
        let rng = rng.fork(0xf0);
        let mut t = Trial {
            s,
            val: vec![None; s.members.len()],
            open: s.cons.iter().map(|c| c.vars.len() as u32).collect(),
            queue: VecDeque::new(),
            dirty: (0..s.cons.len() as u32).collect(),
            is_dirty: vec![true; s.cons.len()],
            buf: vec![],
            rng,
            honest,
            derived: 0,
            chosen: 0,
            branched: 0,
            systems: 0,
            loose: HashMap::new(),
        };
        for i in 0..s.cons.len() {
            if s.cons[i].vars.len() <= 1 {
                t.queue.push_back(i as u32);
            }
        }
        for i in 0..s.members.len() {
            if let Some(v) = s.given[i] {
                t.put(i as u32, v);
            }
        }
        t
    }
    fn put(&mut self, class: u32, v: Fr) {
        debug_assert!(self.val[class as usize].is_none());
        self.val[class as usize] = Some(v);
        for u in &self.s.uses[class as usize] {
            self.open[*u as usize] -= 1;
            if !self.is_dirty[*u as usize] {
                self.is_dirty[*u as usize] = true;
                self.dirty.push(*u);
            }
            if self.open[*u as usize] <= 1 {
                self.queue.push_back(*u);
            }
        }
    }
    /// Fix a cell for this trial; false if it is already tied to another value.
    pub fn fix(&mut self, col: usize, row: usize, v: Fr) -> bool {
        match self.s.class_of(col, row) {
            None => {
                self.loose.insert((col, row), v);
                true
            }
            Some(c) => match self.val[c as usize] {
                Some(x) => x == v,
                None => {
                    self.put(c, v);
                    true
                }
            },
        }
    }
    fn name(&self, i: usize) -> String {
        let c = &self.s.cons[i];
        format!("{}[{}]", self.s.prover.cs.gates[c.gate as usize].name, c.index)
    }
    fn rand(&mut self) -> Fr {
        Fr::from_raw([self.rng.next(), self.rng.next(), self.rng.next(), self.rng.next() >> 3])
    }
    /// The affine form of a constraint in its open cells, if it has one (tested at two
    /// random points).
    fn affine(&mut self, i: usize, u: &[u32]) -> Option<(Fr, BTreeMap<u32, Fr>)> {
        let con = &self.s.cons[i];
        let val = &self.val;
        let mut buf = std::mem::take(&mut self.buf);
        let base = con.eval(&mut buf, |v| val[v as usize].unwrap_or(Fr::zero()));
        let mut m = BTreeMap::new();
        for x in u {
            let y = con.eval(&mut buf, |v| if v == *x { Fr::one() } else { val[v as usize].unwrap_or(Fr::zero()) }) - base;
            m.insert(*x, y);
        }
        let mut ok = true;
        if con.degree > 1 {
            for _ in 0..2 {
                let pt: Vec<(u32, Fr)> = u.iter().map(|x| (*x, Fr::from_raw([self.rng.next(), self.rng.next(), self.rng.next(), self.rng.next() >> 3]))).collect();
                let y = con.eval(&mut buf, |v| val[v as usize].unwrap_or_else(|| pt.iter().find(|(x, _)| *x == v).map(|(_, y)| *y).unwrap_or(Fr::zero())));
                ok &= y == base + pt.iter().fold(Fr::zero(), |a, (x, y)| a + m[x] * y);
            }
        }
        self.buf = buf;
        if !ok {
            return None;
        }
        m.retain(|_, x| !bool::from(x.is_zero()));
        Some((base, m))
    }
    /// Handle a constraint with at most one open cell; several roots are decided only
    /// when nothing else can be derived (`branch`).
    fn settle(&mut self, i: usize, branch: bool) -> Result<bool, Outcome> {
        let con = &self.s.cons[i];
        let u: Vec<u32> = con.vars.iter().copied().filter(|v| self.val[*v as usize].is_none()).collect();
        if u.len() > 1 {
            return Ok(false);
        }
        let val = &self.val;
        let mut buf = std::mem::take(&mut self.buf);
        let ys: Vec<Fr> = if u.is_empty() {
            vec![con.eval(&mut buf, |v| val[v as usize].unwrap())]
        } else {
            let mut at = |x: Fr| con.eval(&mut buf, |v| val[v as usize].unwrap_or(x));
            let (a, b, c, d) = (at(Fr::zero()), at(Fr::one()), at(-Fr::one()), at(Fr::from(0x9e3779b97f4a7c15)));
            if con.degree <= 1 || (a + a == b + c && d == a + (b - a) * Fr::from(0x9e3779b97f4a7c15)) {
                vec![a, b]
            } else {
                (0..=con.degree as u64).map(|t| at(Fr::from(t))).collect()
            }
        };
        self.buf = buf;
        let p = interpolate(ys);
        let v = match roots(&p) {
            Roots::All => return Ok(false),
            Roots::None => return Err(Outcome::Dead(self.name(i))),
            Roots::Some(r) => {
                if r.len() > 1 {
                    if !branch {
                        return Ok(true);
                    }
                    self.branched += 1;
                }
                r[self.rng.below(r.len() as u64) as usize]
            }
            Roots::Hard => {
                let h = self.s.honest[u[0] as usize];
                let cands = [Fr::zero(), Fr::one(), -Fr::one(), h];
                let f = |x: &Fr| p.iter().rev().fold(Fr::zero(), |a, c| a * x + c);
                match cands.iter().filter(|x| bool::from(f(x).is_zero())).last() {
                    Some(x) => *x,
                    None => return Err(Outcome::Hard(self.name(i))),
                }
            }
        };
        self.derived += 1;
        self.put(u[0], v);
        Ok(false)
    }
    fn lie(&mut self, class: u32) -> Fr {
        let h = self.s.honest[class as usize];
        if self.rng.below(100) < self.honest {
            return h;
        }
        match self.rng.below(8) {
            0 => Fr::zero(),
            1 => Fr::one(),
            2 => -Fr::one(),
            3 => h + Fr::one(),
            4 => {
                let o = self.rng.below(self.s.honest.len() as u64) as usize;
                self.s.honest[o]
            }
            5 => Fr::from(self.rng.below(1 << 20)),
            _ => self.rand(),
        }
    }
    /// Constraints of one row that are linear in few open cells, solved together.
    fn groups(&mut self, pending: &[(usize, Vec<u32>)]) -> Result<bool, Outcome> {
        let mut by_row: BTreeMap<usize, Vec<(usize, Fr, BTreeMap<u32, Fr>)>> = BTreeMap::new();
        for (i, u) in pending {
            if u.len() > 14 {
                continue;
            }
            if let Some((k, m)) = self.affine(*i, u) {
                if !m.is_empty() {
                    by_row.entry(self.s.cons[*i].row).or_default().push((*i, k, m));
                } else if !bool::from(k.is_zero()) {
                    return Err(Outcome::Dead(self.name(*i)));
                }
            }
        }
        let mut any = false;
        for (_, mut eqs) in by_row {
            // Gauss-Jordan
            let mut done: Vec<(u32, usize)> = vec![];
            for r in 0..eqs.len() {
                for (pv, pr) in done.clone() {
                    if let Some(x) = eqs[r].2.get(&pv).copied() {
                        let (k, m) = (eqs[pr].1, eqs[pr].2.clone());
                        eqs[r].1 -= k * x;
                        for (v, y) in m {
                            *eqs[r].2.entry(v).or_insert(Fr::zero()) -= y * x;
                        }
                        eqs[r].2.retain(|_, x| !bool::from(x.is_zero()));
                    }
                }
                let Some((pv, x)) = eqs[r].2.iter().next().map(|(a, b)| (*a, *b)) else {
                    if !bool::from(eqs[r].1.is_zero()) {
                        return Err(Outcome::Dead(self.name(eqs[r].0)));
                    }
                    continue;
                };
                let inv = x.invert().unwrap();
                eqs[r].1 *= inv;
                eqs[r].2.values_mut().for_each(|y| *y *= inv);
                for (_, pr) in &done {
                    if let Some(x) = eqs[*pr].2.get(&pv).copied() {
                        let (k, m) = (eqs[r].1, eqs[r].2.clone());
                        eqs[*pr].1 -= k * x;
                        for (v, y) in m {
                            *eqs[*pr].2.entry(v).or_insert(Fr::zero()) -= y * x;
                        }
                        eqs[*pr].2.retain(|_, x| !bool::from(x.is_zero()));
                    }
                }
                done.push((pv, r));
            }
            for (pv, r) in done {
                if eqs[r].2.len() == 1 && self.val[pv as usize].is_none() {
                    self.put(pv, -eqs[r].1);
                    self.derived += 1;
                    any = true;
                }
            }
            if any {
                self.systems += 1;
            }
        }
        Ok(any)
    }
    pub fn run(&mut self) -> Outcome {
        if let Some(w) = &self.s.contradiction {
            return Outcome::Dead(w.clone());
        }
        let mut alive: Vec<bool> = vec![true; self.s.cons.len()];
        let mut branches: Vec<usize> = vec![];
        let mut rows: BTreeSet<usize> = BTreeSet::new();
        loop {
            while let Some(i) = self.queue.pop_front() {
                let i = i as usize;
                if !alive[i] {
                    continue;
                }
                if let Err(o) = self.settle(i, false) {
                    return o;
                }
                if self.open[i] == 0 {
                    alive[i] = false;
                }
            }
            // stuck: look again at what was touched, with the known cells put in
            let mut moved = false;
            let dirty = std::mem::take(&mut self.dirty);
            for &i in &dirty {
                let i = i as usize;
                self.is_dirty[i] = false;
                if !alive[i] || self.open[i] == 0 {
                    continue;
                }
                match self.open[i] {
                    1 => {
                        let before = self.derived;
                        match self.settle(i, false) {
                            Err(o) => return o,
                            Ok(true) => branches.push(i),
                            Ok(false) => {}
                        }
                        moved |= self.derived != before;
                    }
                    _ => {
                        rows.insert(self.s.cons[i].row);
                    }
                }
            }
            if moved || !self.queue.is_empty() {
                continue;
            }
            let mut pending = vec![];
            for r in std::mem::take(&mut rows) {
                for &i in &self.s.by_row[r] {
                    let i = i as usize;
                    if alive[i] && self.open[i] > 1 {
                        let u: Vec<u32> = self.s.cons[i].vars.iter().copied().filter(|v| self.val[*v as usize].is_none()).collect();
                        pending.push((i, u));
                    }
                }
            }
            match self.groups(&pending) {
                Err(o) => return o,
                Ok(true) => continue,
                Ok(false) => {}
            }
            let mut branched = false;
            while !branches.is_empty() {
                let k = self.rng.below(branches.len() as u64) as usize;
                let i = branches.swap_remove(k);
                if !alive[i] || self.open[i] == 0 {
                    continue;
                }
                if let Err(o) = self.settle(i, true) {
                    return o;
                }
                branched = true;
                break;
            }
            if branched {
                continue;
            }
            // an open cell: one of the earliest, or any
            // cells that no gate sees keep their honest value (now and then they do not)
            let wild = self.rng.chance(1, 20);
            for cl in 0..self.val.len() {
                if self.val[cl].is_none() && self.s.uses[cl].is_empty() {
                    let v = if wild && self.rng.chance(1, 8) { self.lie(cl as u32) } else { self.s.honest[cl] };
                    self.put(cl as u32, v);
                }
            }
            let free: Vec<u32> = self.s.order.iter().copied().filter(|c| self.val[*c as usize].is_none()).collect();
            if free.is_empty() {
                break;
            }
            let cl = if self.rng.chance(3, 4) { free[0] } else { free[self.rng.below(free.len() as u64) as usize] };
            let v = self.lie(cl);
            self.chosen += 1;
            self.put(cl, v);
        }
        let mut rec = self.s.prover.rec.clone();
        for (i, m) in self.s.members.iter().enumerate() {
            for (col, row) in m {
                rec.advice[*col].insert(*row, self.val[i]);
            }
        }
        for ((col, row), v) in &self.loose {
            rec.advice[*col].insert(*row, Some(*v));
        }
        let p = MockProver::from_record(self.s.prover.k, self.s.prover.cs.clone(), rec, self.s.prover.instances.clone());
        match p.verify() {
            Ok(()) => Outcome::Accepted(Box::new(p)),
            Err(f) => Outcome::Dead(match &f[0] {
                halo2_proofs::dev::VerifyFailure::Gate { gate, .. } => format!("final {gate}"),
                halo2_proofs::dev::VerifyFailure::Lookup { name, .. } => format!("lookup {name}"),
                halo2_proofs::dev::VerifyFailure::Copy { .. } => "final copy".into(),
            }),
        }
    }
}
#[allow(dead_code)]
fn _t(x: Fr) -> <Fr as PrimeField>::Repr {
    x.to_repr()
}
