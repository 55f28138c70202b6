//! C05: one verifying key per capacity. Many tables of one capacity and configuration
//! are synthesized; what a key is made of must be the same for all of them.
use crate::circ::*;
use crate::conv::fe;
use crate::Ctx;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::{Any, ConstraintSystem};
use halo2_proofs::rec::{CellPos, Record};
use oracle::mon::{guard, h64, par, Mon};
use oracle::Rng;
use poseidon_circuit::hash::PoseidonHashTable;
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Key = (u8, usize, usize);
fn key(p: &CellPos) -> Key {
    let t = match p.0.column_type() {
        Any::Advice(_) => 0,
        Any::Fixed => 1,
        Any::Instance => 2,
    };
    (t, p.0.index(), p.1)
}
/// The permutation argument's mapping, built as the original key generation does it:
/// cycles spliced copy by copy.
pub fn mapping(copies: &[(CellPos, CellPos)]) -> BTreeMap<Key, Key> {
    let mut map: HashMap<Key, Key> = HashMap::new();
    let mut aux: HashMap<Key, Key> = HashMap::new();
    let mut sizes: HashMap<Key, usize> = HashMap::new();
    for (a, b) in copies {
        let (a, b) = (key(a), key(b));
        let mut left = *aux.get(&a).unwrap_or(&a);
        let mut right = *aux.get(&b).unwrap_or(&b);
        if left == right {
            continue;
        }
        if sizes.get(&left).unwrap_or(&1) < sizes.get(&right).unwrap_or(&1) {
            std::mem::swap(&mut left, &mut right);
        }
        let s = sizes.get(&left).unwrap_or(&1) + sizes.get(&right).unwrap_or(&1);
        sizes.insert(left, s);
        let mut i = right;
        loop {
            aux.insert(i, left);
            i = *map.get(&i).unwrap_or(&i);
            if i == right {
                break;
            }
        }
        let (x, y) = (*map.get(&a).unwrap_or(&a), *map.get(&b).unwrap_or(&b));
        map.insert(a, y);
        map.insert(b, x);
    }
    map.into_iter().collect()
}
/// Sets of cells that copies make equal.
pub fn classes(copies: &[(CellPos, CellPos)]) -> BTreeSet<Vec<Key>> {
    let m = mapping(copies);
    let mut done: BTreeSet<Key> = BTreeSet::new();
    let mut out = BTreeSet::new();
    for k in m.keys() {
        if done.contains(k) {
            continue;
        }
        let mut v = vec![*k];
        done.insert(*k);
        let mut i = m[k];
        while i != *k {
            v.push(i);
            done.insert(i);
            i = m[&i];
        }
        v.sort();
        out.insert(v);
    }
    out
}

pub struct Fixed<F = Fr> {
    pub cs: String,
    pub fixed: Vec<BTreeMap<usize, F>>,
    pub fill: BTreeMap<usize, (usize, F)>,
    pub selectors: Vec<BTreeSet<usize>>,
    pub mapping: BTreeMap<Key, Key>,
    pub classes: BTreeSet<Vec<Key>>,
    pub instance: usize,
    pub rows: usize,
}
pub fn fixed(s: &Synth) -> Fixed {
    fixed_of(&s.cs, &s.rec)
}
pub fn fixed_of<F: ff::PrimeField>(cs: &ConstraintSystem<F>, rec: &Record<F>) -> Fixed<F> {
    Fixed {
        cs: format!("{cs:?}"),
        fixed: rec.fixed.iter().map(|m| m.iter().filter(|(_, v)| **v != F::ZERO).map(|(r, v)| (*r, *v)).collect()).collect(),
        fill: rec.table_fill.clone(),
        selectors: rec.selectors.clone(),
        mapping: mapping(&rec.copies),
        classes: classes(&rec.copies),
        instance: rec.instance_copies.len(),
        rows: rec.rows_used(),
    }
}
/// What differs between the fixed parts of two syntheses.
pub fn differs<F: ff::PrimeField>(a: &Fixed<F>, b: &Fixed<F>, order: bool) -> Option<String> {
    if a.cs != b.cs {
        return Some("constraint system".into());
    }
    for (i, (x, y)) in a.fixed.iter().zip(&b.fixed).enumerate() {
        if x != y {
            let r = x.iter().find(|(r, v)| y.get(r) != Some(v)).or(y.iter().find(|(r, v)| x.get(r) != Some(v))).map(|(r, _)| *r);
            return Some(format!("fixed column {i} at row {r:?}: {:?} / {:?}", r.and_then(|r| x.get(&r)), r.and_then(|r| y.get(&r))));
        }
    }
    if a.fill != b.fill {
        return Some("lookup table".into());
    }
    for (i, (x, y)) in a.selectors.iter().zip(&b.selectors).enumerate() {
        if x != y {
            return Some(format!("selector {i} at rows {:?}", x.symmetric_difference(y).take(5).collect::<Vec<_>>()));
        }
    }
    if a.instance != b.instance {
        return Some("instance copies".into());
    }
    if a.classes != b.classes {
        return Some(format!("copies: {:?}", a.classes.symmetric_difference(&b.classes).take(2).collect::<Vec<_>>()));
    }
    if order && a.mapping != b.mapping {
        return Some("the permutation mapping (same copies, other cycles)".into());
    }
    None
}

pub fn run(ctx: &Ctx) -> Mon {
    let mode = ctx.args.get("mode", "serial");
    let ps = params();
    let n = ctx.args.u64("n", if ctx.thorough { 500 } else { 60 });
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(15485863) + 13 * tid as u64 + h64(&mode));
        let mut g = TableGen::new(&ps);
        for _ in 0..n {
            let chip = if rng.chance(1, 3) { 1 } else { 0 };
            let step = *rng.pick(&STEPS);
            let calcs = match rng.below(6) {
                0 => rng.range(1, 2),
                1..=3 => rng.range(3, 10),
                _ => rng.range(10, if chip == 1 { 20 } else { 40 }),
            };
            let shift = if rng.chance(1, 8) { rng.range(1, 9) } else { 0 };
            let tag0 = format!("chip {chip} step {step} {mode} capacity {calcs} shift {shift}");
            let mut first: Option<(Fixed, String)> = None;
            for k in 0..if ctx.thorough { 14 } else { 8 } {
                // from no data to a full table
                let calls = match k {
                    0 => vec![],
                    1 => {
                        // one whole message, or as much of it as fits
                        let words: Vec<[oracle::L4; 2]> = (0..calcs).map(|_| [g.word(&mut rng), g.word(&mut rng)]).collect();
                        let ctrl = ctrl_for(&mut rng, calcs, step);
                        vec![Call::Stream { words, ctrl, step, check: None, with: false }]
                    }
                    2 => vec![Call::Fixed((0..calcs).map(|_| ([g.word(&mut rng), g.word(&mut rng)], g.dom(&mut rng), None)).collect())],
                    3 => vec![Call::Fixed((0..calcs).map(|_| ([[0; 4]; 2], [0; 4], None)).collect())],
                    _ => {
                        let size = rng.range(0, calcs);
                        if size == 0 { vec![] } else { g.calls(&mut rng, size, step, true, true) }
                    }
                };
                let t = match (k, guard(|| build(&calls))) {
                    (4, Ok(mut t)) => {
                        // a message the table's end cuts off
                        let left = calcs - t.inputs.len();
                        if left > 0 {
                            cut(&mut t, &mut rng, left, step, &mut g);
                        }
                        t
                    }
                    (_, Ok(t)) => t,
                    (_, Err(p)) => {
                        m.violation("builder-panic", format!("[{}] (step {step}): {p}", show_calls(&calls)));
                        continue;
                    }
                };
                let tag = if calls.is_empty() { "no data".into() } else { show_calls(&calls) };
                m.seen(&(chip, step, calcs, shift, k, &calls));
                let s = match guard(|| synth(chip, step, &t, calcs, shift, None)) {
                    Ok(Ok(s)) => s,
                    Ok(Err(e)) => {
                        m.violation("synthesis-error", format!("{tag0} [{tag}]: {e:?}"));
                        continue;
                    }
                    Err(p) => {
                        m.violation("synthesis-panic", format!("{tag0} [{tag}]: {p}"));
                        continue;
                    }
                };
                let f = fixed(&s);
                m.count("fixed_cells", f.fixed.iter().map(|x| x.len() as u64).sum());
                m.count("selector_rows", f.selectors.iter().map(|x| x.len() as u64).sum());
                m.count("copied_cells", f.mapping.len() as u64);
                match &first {
                    None => {
                        m.count("keys", 1);
                        first = Some((f, tag));
                    }
                    Some((a, at)) => {
                        m.count("tables_against_key", 1);
                        if let Some(w) = differs(a, &f, mode == "serial") {
                            m.violation("fixed-part-differs", format!("{tag0}: tables [{at}] and [{tag}] differ in {w}"));
                        }
                    }
                }
            }
            m.sample(|| tag0.clone());
        }
        m
    })
}
/// Write a message directly into the public fields, longer than the rows left.
fn cut(t: &mut PoseidonHashTable<Fr>, rng: &mut Rng, left: usize, step: usize, g: &mut TableGen) {
    let n = t.inputs.len();
    t.controls.resize(n, 0);
    let start = (left + 1 + rng.below(4) as usize) * step;
    for i in 0..left {
        t.inputs.push([fe(&g.word(rng)), fe(&g.word(rng))]);
        t.controls.push((start - i * step) as u64);
    }
}
