//! C01 (a well-formed table yields a satisfied circuit) and C02 (the exposed rows are
//! exactly the table's hashes): random tables through the real synthesis.
use crate::circ::*;
use crate::conv::fe;
use crate::Ctx;
use halo2_proofs::halo2curves::bn256::Fr;
use oracle::mon::{guard, par, Mon};
use oracle::Rng;
use poseidon_circuit::hash::PoseidonHashTable;

pub fn run(ctx: &Ctx) -> Mon {
    let content = ctx.args.get("prop", "c01") == "c02";
    let mode = ctx.args.get("mode", "serial");
    let planner = ctx.args.get("planner", "") == "any";
    let ps = params();
    // tables of the size real circuits have, one for each chip
    let big = ctx.args.u64("big", 0) as usize;
    let n = ctx.args.u64("n", if ctx.thorough { 1200 } else { 90 });
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(7919) + 31 * tid as u64 + content as u64 * 1_000_003 + mode.len() as u64);
        let mut g = TableGen::new(&ps);
        let dl = oracle::gen::dict_lens(120);
        for it in 0..n {
            let pl = place(planner, &mut rng, &mut m);
            let chip = if rng.chance(1, 3) { 1 } else { 0 };
            let step = *rng.pick(&STEPS);
            let size = match rng.below(10) {
                0 => 0,
                1 => 1,
                2..=6 => rng.range(2, 9),
                7 | 8 => rng.range(10, 30),
                _ if dl.len() > 0 && rng.chance(1, 2) => *rng.pick(&dl),
                _ => rng.range(30, if ctx.thorough { 200 } else { 70 }),
            };
            let size = if chip == 1 { size.min(24) } else { size };
            // a few large tables
            let (chip, size) = if big > 0 { ((it as usize + tid) % 2, if (it as usize + tid) % 2 == 0 { big } else { big / 5 }) } else { (chip, size) };
            let size = if big == 0 && it % 40 == 7 && chip == 0 { rng.range(80, if content { 3000 } else { 400 }) } else { size };
            let calls = g.calls(&mut rng, size, step, true, true);
            let rows = model(&calls);
            // one padding row at least; often exactly one
            let pad = match rng.below(5) {
                0 | 1 => 1,
                2 => 2,
                3 => rng.range(3, 10),
                _ => rng.range(10, 40),
            };
            let calcs = rows.len() + pad;
            let shift = if rng.chance(1, 8) { rng.range(1, 9) } else { 0 };
            let mut t = match guard(|| build(&calls)) {
                Ok(t) => t,
                Err(p) => {
                    m.violation("builder-panic", format!("building [{}] (step {step}) panicked: {p}", show_calls(&calls)));
                    continue;
                }
            };
            // the fields are public: a table may carry shorter side lists
            if rng.chance(1, 6) {
                trim(&mut t, &mut rng);
                m.count("trimmed_side_lists", 1);
            }
            let tag = format!("{pl}chip {chip} step {step} {mode} capacity {calcs} shift {shift} table [{}]", show_calls(&calls));
            m.seen(&(chip, step, calcs, shift, &calls));
            m.count(if chip == 0 { "circuits_8row" } else { "circuits_38row" }, 1);
            m.count(&format!("step_{step}"), 1);
            m.count("table_rows", rows.len() as u64);
            m.count("messages", rows.iter().filter(|r| r.head).count() as u64);
            m.max("max_message_rows", longest(&rows));
            m.max("max_capacity", calcs as u64);
            let s = match guard(|| synth(chip, step, &t, calcs, shift, None)) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => {
                    m.violation("synthesis-error", format!("{tag}: {e:?}"));
                    continue;
                }
                Err(p) => {
                    m.violation("synthesis-panic", format!("{tag}: {p}"));
                    continue;
                }
            };
            m.count("assignments", s.rec.events);
            m.count("regions", s.rec.regions.len() as u64);
            m.sample(|| tag.clone());
            if content {
                judge_rows(&mut m, &ps, &s, &rows, calcs, &tag);
                continue;
            }
            let copies = s.rec.copies.len() as u64;
            let p = prover(s.cs, s.rec);
            m.count("copies_checked", copies);
            m.count("gate_rows_checked", p.n as u64);
            match if big > 0 { p.verify_par() } else { p.verify() } {
                Ok(()) => m.count("satisfied", 1),
                Err(f) => m.violation("unsatisfied", format!("{tag}: {} failures, first {:?}", f.len(), f[0])),
            }
        }
        m
    })
}
/// Chooses how the floor planner places the regions of the next circuit.
pub fn place(any: bool, rng: &mut Rng, m: &mut Mon) -> String {
    if !any {
        return String::new();
    }
    let k = rng.next() | 4;
    halo2_proofs::knobs::set_planner(k);
    let how = ["two passes with gaps", "one pass with gaps", "two passes, biggest first", "two passes, any order"][k as usize % 4];
    m.count(how, 1);
    format!("planner {k} ({how}) ")
}
fn longest(rows: &[Row]) -> u64 {
    let (mut best, mut cur) = (0, 0);
    for r in rows {
        cur = if r.head { 1 } else { cur + 1 };
        best = best.max(cur);
    }
    best
}
/// Shorten side lists without changing their meaning (missing entries read as nothing).
fn trim(t: &mut PoseidonHashTable<Fr>, rng: &mut Rng) {
    while t.checks.last() == Some(&None) && rng.chance(3, 4) {
        t.checks.pop();
    }
    while matches!(t.domain.last(), Some(None)) && rng.chance(3, 4) {
        t.domain.pop();
    }
    while t.controls.last() == Some(&0) && rng.chance(3, 4) {
        t.controls.pop();
    }
    if rng.chance(1, 4) {
        t.checks.clear();
    }
}
fn judge_rows(m: &mut Mon, ps: &oracle::Params, s: &Synth, rows: &[Row], calcs: usize, tag: &str) {
    let enabled: Vec<usize> = s.rec.fixed[s.q].iter().filter(|(_, v)| **v != Fr::zero()).map(|(r, _)| *r).collect();
    let want: Vec<usize> = (s.base + 1..=s.base + calcs).collect();
    if enabled != want {
        m.violation("enabled-rows", format!("{tag}: the enable column is on at {enabled:?}"));
        return;
    }
    let d = digests(ps, rows);
    let pad = ps.hash2(&[0; 4], &[0; 4], &[0; 4]);
    for i in 0..=calcs {
        let want = if i == 0 {
            [[0; 4]; 6]
        } else if i <= rows.len() {
            expected(ps, &rows[i - 1], &d[i - 1])
        } else {
            expected(ps, &ZROW, &pad)
        };
        let got = row_at(s, s.base + i);
        m.count(if i == 0 { "zero_rows_compared" } else if i <= rows.len() { "entry_rows_compared" } else { "padding_rows_compared" }, 1);
        for k in 0..6 {
            if got[k] != Some(want[k]) {
                m.violation(
                    &format!("table-column-{k}"),
                    format!("{tag}: table row {i} column {k} holds {:?}, expected {:?}", got[k].map(|x| oracle::hex(&x)), oracle::hex(&want[k])),
                );
                return;
            }
        }
    }
    // the native digests agree
    for (i, r) in rows.iter().enumerate() {
        if r.head && r.ctrl == 0 {
            use poseidon_circuit::Hashable;
            let n = Fr::hash_with_domain([fe(&r.w[0]), fe(&r.w[1])], fe(&r.dom));
            m.count("native_pairs_compared", 1);
            if n != fe::<Fr>(&d[i]) {
                m.violation("native-pair", format!("{tag}: native hash of row {i} differs from the shown digest"));
            }
        } else if r.head {
            use poseidon_circuit::hash::MessageHashable;
            let mut msg: Vec<Fr> = vec![];
            let mut j = i;
            while j < rows.len() && (j == i || !rows[j].head) {
                msg.extend(rows[j].w.iter().map(fe::<Fr>));
                j += 1;
            }
            let n = Fr::hash_msg(&msg, Some(r.ctrl as u128 * factor()));
            m.count("native_messages_compared", 1);
            if n != fe::<Fr>(&d[i]) {
                m.violation("native-message", format!("{tag}: native hash of the message at row {i} differs from the shown digest"));
            }
        }
    }
}
