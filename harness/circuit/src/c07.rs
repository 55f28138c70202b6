//! C07 (alignment of the table's columns after any history of builder calls), and the
//! builder's refusals (part of C04).
use crate::circ::*;
use crate::conv::l4;
use crate::Ctx;
use halo2_proofs::halo2curves::bn256::Fr;
use oracle::mon::{guard, par, Mon};
use oracle::{Rng, L4};
use poseidon_circuit::hash::PoseidonHashTable;
use poseidon_circuit::Hashable;

/// The builder's contract on a stream of n rows.
fn accepts(n: usize, ctrl: u64, step: usize) -> bool {
    // as many positive controls as the start provides; a start of 0 covers one row
    let cover = if step == 0 { u128::MAX } else if ctrl == 0 { 1 } else { (ctrl as u128 + step as u128 - 1) / step as u128 };
    n >= 1 && n as u128 <= cover
}
fn seen(t: &PoseidonHashTable<Fr>, i: usize) -> ([L4; 2], u64, L4, Option<L4>) {
    (
        [l4(&t.inputs[i][0]), l4(&t.inputs[i][1])],
        t.controls.get(i).copied().unwrap_or(0),
        t.domain.get(i).copied().flatten().map(|d| l4(&d)).unwrap_or([0; 4]),
        t.checks.get(i).copied().flatten().map(|d| l4(&d)),
    )
}
fn judge(m: &mut Mon, t: &PoseidonHashTable<Fr>, rows: &[Row], tag: &dyn Fn() -> String) -> bool {
    let n = rows.len();
    if t.table_size() != n || t.inputs.len() != n {
        m.violation("size", format!("{}: size {} rows {} after {n} rows were added", tag(), t.table_size(), t.inputs.len()));
        return false;
    }
    if t.controls.len() > n || t.domain.len() > n || t.checks.len() > n {
        m.violation("side-list-too-long", format!("{}: {n} rows, {} controls, {} domains, {} checks", tag(), t.controls.len(), t.domain.len(), t.checks.len()));
        return false;
    }
    for (i, r) in rows.iter().enumerate() {
        let got = seen(t, i);
        let want = (r.w, r.ctrl, r.dom, r.check);
        if got != want {
            let what = if got.0 != want.0 { "words" } else if got.1 != want.1 { "control" } else if got.2 != want.2 { "domain" } else { "expected digest" };
            m.violation(&format!("misaligned-{}", what.replace(' ', "-")), format!("{}: row {i} of {n} has another {what}: {got:?} instead of {want:?}", tag()));
            return false;
        }
    }
    m.count("rows_compared", n as u64);
    true
}

pub fn run(ctx: &Ctx) -> Mon {
    let refusals = ctx.args.get("prop", "c07") == "c04";
    let ps = params();
    let n = ctx.args.u64("n", if ctx.thorough { 400000 } else { 20000 });
    let mut m = par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(86028121) + 3 * tid as u64 + refusals as u64);
        let mut g = TableGen::new(&ps);
        let mut dl = oracle::gen::dict_lens(600);
        dl.extend([63, 64, 65, 127, 128, 255, 256, 257, 512]);
        for _ in 0..n {
            let mut t: PoseidonHashTable<Fr> = PoseidonHashTable::default();
            let mut rows: Vec<Row> = vec![];
            let mut hist: Vec<String> = vec![];
            let ncalls = match rng.below(4) {
                0 => rng.range(1, 2),
                1 | 2 => rng.range(2, 6),
                _ => rng.range(6, 24),
            };
            let mut prev = 9;
            for _ in 0..ncalls {
                let step = match rng.below(6) {
                    0 => 1,
                    1 => 2,
                    2 => 62,
                    3 => 32,
                    4 => rng.range(1, 400),
                    _ => *rng.pick(&[1usize << 20, 1 << 31, 1 << 40, usize::MAX >> 1]),
                };
                let (long, big) = (rng.chance(1, 400), rng.chance(1, 20000));
                let e = rng.range(8, 17);
                let k = match rng.below(6) {
                    _ if long => *rng.pick(&dl),
                    _ if big => rng.range(1, 1 << e),
                    0 => 0,
                    1 => 1,
                    2 | 3 => rng.range(2, 5),
                    _ => rng.range(1, 12),
                };
                let kind = rng.below(if refusals { 2 } else { 6 });
                let word = |g: &mut TableGen, rng: &mut Rng| if rng.chance(1, 10) { [[0; 4]; 2] } else { [g.word(rng), g.word(rng)] };
                let call = match kind {
                    0 | 1 => {
                        let words: Vec<[L4; 2]> = (0..k).map(|_| word(&mut g, &mut rng)).collect();
                        let s = step as u128;
                        let ctrl: u128 = match rng.below(8) {
                            0 => 0,
                            1 => s * k as u128,
                            2 => s * (k as u128).saturating_sub(1),
                            3 => s * (k as u128).saturating_sub(1) + 1,
                            4 => s * k as u128 + 1 + rng.below(1000) as u128,
                            5 => u64::MAX as u128 - rng.below(3) as u128,
                            6 => rng.below(100) as u128,
                            _ => s * (k as u128).saturating_sub(1) + 1 + rng.below(step as u64) as u128,
                        };
                        let ctrl = ctrl.min(u64::MAX as u128) as u64;
                        let check = if rng.chance(1, 2) { Some(g.word(&mut rng)) } else { None };
                        let with = check.is_some() || rng.chance(1, 2);
                        Call::Stream { words, ctrl, step, check, with }
                    }
                    2 | 3 => Call::Fixed((0..k).map(|_| (word(&mut g, &mut rng), g.dom(&mut rng), if rng.chance(1, 2) { Some(g.word(&mut rng)) } else { None })).collect()),
                    4 => Call::Constant((0..k).map(|_| word(&mut g, &mut rng)).collect()),
                    _ => Call::ConstantCheck((0..k).map(|_| (word(&mut g, &mut rng), g.word(&mut rng))).collect()),
                };
                hist.push(show_calls(std::slice::from_ref(&call)));
                let tag = || format!("after [{}]", hist.join(", "));
                let ok = match &call {
                    Call::Stream { words, ctrl, step, .. } => accepts(words.len(), *ctrl, *step),
                    _ => true,
                };
                m.count(&format!("calls_of_kind_{}", ["stream", "stream", "fixed", "fixed", "constant", "constant_with_check"][kind as usize]), 1);
                m.count(&format!("pair_{}_{}", prev.min(9) / 2, kind / 2), 0);
                prev = kind;
                let before = t.clone();
                let r = guard(|| call.apply(&mut t));
                m.seen(&(refusals, rows.len(), &call));
                match (ok, r) {
                    (true, Ok(())) => {
                        rows.extend(call.rows());
                        if !judge(&mut m, &t, &rows, &tag) {
                            break;
                        }
                    }
                    (true, Err(p)) => {
                        m.violation("builder-panic", format!("{}: {p}", tag()));
                        break;
                    }
                    (false, Err(_)) => {
                        m.count("refused", 1);
                        hist.pop();
                        // a refused call leaves the rows as they were
                        t = before;
                        continue;
                    }
                    (false, Ok(())) => {
                        m.violation("bad-stream-accepted", format!("{}: the builder took a stream its control does not cover", tag()));
                        break;
                    }
                }
                let need = t.minimum_row_require();
                if need != rows.len() * <Fr as Hashable>::hash_block_size() {
                    m.violation("row-requirement", format!("{}: minimum_row_require {need} for {} rows", tag(), rows.len()));
                    break;
                }
            }
            m.max("max_rows", rows.len() as u64);
            m.sample(|| hist.join(", "));
        }
        m
    });
    m.counters.retain(|k, _| !k.starts_with("pair_"));
    m
}
