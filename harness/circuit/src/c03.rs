//! C03 (no accepted assignment shows a false digest), C04 (framing cannot be forged)
//! and C12 (reserved rows): the forger against the real constraints, every accepted
//! assignment judged from the shown table alone.
use crate::circ::*;
use crate::conv::{fe, l4};
use crate::forge::{Outcome, System, Trial};
use crate::Ctx;
use ff::Field;
use halo2_proofs::dev::MockProver;
use halo2_proofs::halo2curves::bn256::Fr;
use oracle::mon::{guard, h64, par, Mon};
use oracle::{Params, Rng};

#[derive(Clone, Debug)]
pub struct Shown {
    pub w: [Fr; 2],
    pub ctrl: Fr,
    pub dom: Fr,
    pub head: Fr,
    pub index: Fr,
}
fn unit() -> Fr {
    fe(&[factor() as u64, (factor() >> 64) as u64, 0, 0])
}
pub fn shown(p: &MockProver<Fr>, tbl: &[usize; 6], base: usize, calcs: usize) -> Vec<Shown> {
    (0..=calcs)
        .map(|i| {
            let g = |k: usize| p.advice(tbl[k], base + i);
            Shown { index: g(0), w: [g(1), g(2)], ctrl: g(3), dom: g(4), head: g(5) }
        })
        .collect()
}
/// What is wrong with the framing of an accepted table; rows 0..=calcs.
pub fn bad_frame(t: &[Shown], step: usize) -> Option<String> {
    let n = t.len() - 1;
    let u = unit();
    let ends = |c: &Fr| (0..=step as u64).any(|k| Fr::from(k) * u == *c);
    for i in 1..=n {
        let r = &t[i];
        if r.head == Fr::one() {
            if !ends(&t[i - 1].ctrl) {
                return Some(format!("row {i} starts a message after a row with remaining length {:?}", t[i - 1].ctrl));
            }
        } else if r.head == Fr::zero() {
            if i == 1 {
                return Some("row 1 continues the reserved row".into());
            }
            if r.ctrl + Fr::from(step as u64) * u != t[i - 1].ctrl {
                return Some(format!("row {i} continues with control {:?} after {:?}", r.ctrl, t[i - 1].ctrl));
            }
            if r.ctrl == Fr::zero() {
                return Some(format!("row {i} continues with control 0"));
            }
        } else {
            return Some(format!("row {i} has start mark {:?}", r.head));
        }
    }
    if t[n].head != Fr::one() {
        return Some("the last row does not end the last message".into());
    }
    None
}
pub fn bad_reserved(t: &[Shown]) -> Option<String> {
    for i in [0, t.len() - 1] {
        let r = &t[i];
        if r.w != [Fr::zero(); 2] || r.ctrl != Fr::zero() {
            return Some(format!("reserved row {i} carries {:?} control {:?}", r.w, r.ctrl));
        }
    }
    None
}
/// A false digest in a table with good framing.
pub fn bad_digest(ps: &Params, t: &[Shown]) -> Option<String> {
    let n = t.len() - 1;
    let mut i = 1;
    while i <= n {
        let mut j = i + 1;
        while j <= n && t[j].head == Fr::zero() {
            j += 1;
        }
        let mut st = [l4(&t[i].ctrl), [0; 4], [0; 4]];
        for r in &t[i..j] {
            st[0] = ps.addc(&st[0], &l4(&r.dom));
            st[1] = ps.addc(&st[1], &l4(&r.w[0]));
            st[2] = ps.addc(&st[2], &l4(&r.w[1]));
            st = ps.permute3(&st);
        }
        let d: Fr = fe(&st[0]);
        for r in i..j {
            if t[r].index != d {
                return Some(format!("row {r} (message rows {i}..{j}) shows digest {:?}, its true digest is {d:?}", t[r].index));
            }
        }
        i = j;
    }
    None
}
/// A table to be shown: rows 1..=calcs.
fn propose(g: &mut TableGen, rng: &mut Rng, calcs: usize, step: usize) -> Vec<Shown> {
    let calls = g.calls(rng, calcs - 1, step, false, false);
    let mut rows = model(&calls);
    rows.truncate(calcs - 1);
    rows.push(ZROW);
    rows.iter()
        .map(|r| Shown { index: Fr::zero(), w: [fe(&r.w[0]), fe(&r.w[1])], ctrl: Fr::from(r.ctrl) * unit(), dom: fe(&r.dom), head: Fr::from(r.head as u64) })
        .collect()
}
/// The state (canonical words) that the permutation takes to `out`.
fn back(ps: &Params, out: [Fr; 3]) -> [Fr; 3] {
    let v = oracle::gen::steer(ps, &[l4(&out[0]), l4(&out[1]), l4(&out[2])], ps.rounds());
    [fe(&v[0]), fe(&v[1]), fe(&v[2])]
}
/// Two rows whose digests are chosen (the permutation can be run backwards, and words
/// and domain of a row are the prover's), such that the second can bear a start mark
/// that is neither 0 nor 1 and still meet every relation between neighbours.
fn tune(t: &mut [Shown], rng: &mut Rng, step: usize, g: &mut TableGen) -> bool {
    let n = t.len();
    let heads: Vec<usize> = (0..n.saturating_sub(2)).filter(|i| t[*i].head == Fr::one()).collect();
    if heads.is_empty() || step == 0 {
        return false;
    }
    let (u, s) = (unit(), step as u64);
    let i = *rng.pick(&heads);
    let k = 1 + rng.below(s);
    let h = Fr::from(k) * u;
    let mut any = || fe::<Fr>(&g.w.word(rng));
    let o1 = [h, any(), any()];
    let o2 = [h, any(), any()];
    let (x1, x2) = (back(g.ps, o1), back(g.ps, o2));
    let c = h + Fr::from(s) * u;
    let mark = Fr::from(1 + rng.below(s)) * u * c.invert().unwrap();
    let cont = Fr::one() - mark;
    t[i].ctrl = c;
    t[i].dom = x1[0] - c;
    t[i].w = [x1[1], x1[2]];
    t[i + 1].head = mark;
    t[i + 1].ctrl = h;
    t[i + 1].dom = x2[0] - h;
    t[i + 1].w = [x2[1] - cont * o1[1], x2[2] - cont * o1[2]];
    t[i + 2].head = Fr::one();
    true
}
/// Break the framing (or not quite).
fn bend(t: &mut [Shown], rng: &mut Rng, step: usize, g: &mut TableGen) -> &'static str {
    let u = unit();
    let n = t.len();
    let i = rng.below(n as u64) as usize;
    let s = step as u64;
    let ctrls = [Fr::zero(), u, -u, Fr::from(s) * u, Fr::from(s + 1) * u, Fr::from(2 * s) * u, -Fr::from(s) * u, Fr::from(s), Fr::one(), u * Fr::from(2).invert().unwrap(), Fr::from(s) * u + Fr::one()];
    match rng.below(14) {
        13 if tune(t, rng, step, g) => "tuned mark",
        0 => {
            t[i].ctrl = *rng.pick(&ctrls);
            "control replaced"
        }
        1 => {
            t[i].ctrl += *rng.pick(&[u, -u, Fr::one(), Fr::from(s) * u, -Fr::from(s) * u]);
            "control shifted"
        }
        2 => {
            t[i].head = Fr::one() - t[i].head;
            "mark flipped"
        }
        3 => {
            let x = fe(&g.w.word(rng));
            t[i].head = *rng.pick(&[Fr::from(2), -Fr::one(), Fr::from(2).invert().unwrap(), Fr::from(7), x]);
            "mark not boolean"
        }
        4 => {
            // one message over everything, ending too early or too late
            let extra = *rng.pick(&[0u64, 1, 2, s]);
            for j in 0..n {
                t[j].head = Fr::from((j == 0) as u64);
                t[j].ctrl = Fr::from((n as u64 - 1 - j as u64) * s + extra) * u;
                t[j].dom = Fr::zero();
            }
            "one long message"
        }
        5 => {
            // starts as a continuation of the reserved row
            for j in 0..n {
                t[j].head = Fr::zero();
                t[j].ctrl = -Fr::from((j as u64 + 1) * s) * u;
            }
            "continues the reserved row"
        }
        6 => {
            // falls through zero
            let k = rng.below(n as u64) as usize;
            for j in 0..n {
                t[j].head = Fr::from((j == 0) as u64);
                t[j].ctrl = (Fr::from(k as u64 * s) - Fr::from(j as u64 * s)) * u;
            }
            "falls through zero"
        }
        7 => {
            t[n - 1].head = Fr::zero();
            t[n - 1].ctrl = *rng.pick(&[Fr::zero(), u, -Fr::from(s) * u]);
            "last row continues"
        }
        8 => {
            t[n - 1].ctrl = *rng.pick(&ctrls);
            "last row has a control"
        }
        9 => {
            t[n - 1].w = [fe(&g.w.word(rng)), fe(&g.w.word(rng))];
            "last row has words"
        }
        10 => {
            t[i].dom = fe(&g.w.word(rng));
            "domain replaced"
        }
        11 => {
            // a different step
            let d = *rng.pick(&[s + 1, s.saturating_sub(1), 2 * s, 1, 0]);
            let start = d * (n as u64 - 1) + rng.below(s + 1);
            for j in 0..n - 1 {
                t[j].head = Fr::from((j == 0) as u64);
                t[j].ctrl = (Fr::from(start) - Fr::from(j as u64 * d)) * u;
            }
            "another step"
        }
        _ => {
            t[i].head = Fr::one();
            "extra start"
        }
    }
}

pub fn run(ctx: &Ctx) -> Mon {
    let prop = ctx.args.get("prop", "c03");
    let mode = ctx.args.get("mode", "serial");
    let planner = ctx.args.get("planner", "") == "any";
    let ps = params();
    let n = ctx.args.u64("n", if ctx.thorough { 400 } else { 40 });
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(104729) + 17 * tid as u64 + h64(&(&prop, &mode)));
        let mut g = TableGen::new(&ps);
        for _ in 0..n {
            let pl = crate::c01::place(planner, &mut rng, &mut m);
            let chip = if rng.chance(1, 3) { 1 } else { 0 };
            let step = if prop == "c04" && rng.chance(1, 2) { *rng.pick(&[1usize, 2]) } else { *rng.pick(&STEPS[..7]) };
            let calcs = if chip == 1 { rng.range(1, 5) } else { rng.range(1, 9) };
            let shift = if rng.chance(1, 10) { rng.range(1, 4) } else { 0 };
            // the synthesized table only provides the honest values of cells
            // (and, with them, whatever of the fixed part should not depend on it)
            let full = rng.chance(1, 4);
            let less = 1 + (full && calcs > 1 && rng.chance(1, 2)) as usize;
            let mut calls = g.calls(&mut rng, calcs - less, step, false, false);
            if full {
                // up to the last row, which may promise more than the table has
                let left = calcs - model(&calls).len();
                if left > 0 {
                    let words = (0..left).map(|_| [g.w.word(&mut rng), g.w.word(&mut rng)]).collect();
                    let ctrl = ctrl_for(&mut rng, left, step) + step as u64 * rng.below(3);
                    calls.push(Call::Stream { words, ctrl, step, check: None, with: false });
                }
                m.count("tables_to_the_last_row", 1);
            }
            let t = build(&calls);
            let tag0 = format!("{pl}chip {chip} step {step} {mode} capacity {calcs} shift {shift}");
            let s = match guard(|| synth(chip, step, &t, calcs, shift, None)) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => {
                    m.violation("synthesis-error", format!("{tag0}: {e:?}"));
                    continue;
                }
                Err(p) => {
                    m.violation("synthesis-panic", format!("{tag0}: {p}"));
                    continue;
                }
            };
            let (tbl, base) = (s.tbl, s.base);
            let sys = System::new(prover(s.cs, s.rec));
            m.count("systems", 1);
            m.count("constraints", sys.cons.len() as u64);
            m.count("free_cell_classes", sys.members.len() as u64);
            for _ in 0..if chip == 1 { 8 } else { 12 } {
                let mut t = propose(&mut g, &mut rng, calcs, step);
                let mut kind = "whole";
                let bends = match prop.as_str() {
                    "c03" => if rng.chance(1, 4) { 1 } else { 0 },
                    "c04" => if rng.chance(1, 8) { 0 } else { 1 + rng.chance(1, 4) as usize },
                    _ => 0,
                };
                for _ in 0..bends {
                    kind = bend(&mut t, &mut rng, step, &mut g);
                }
                let honest = *rng.pick(&[0u64, 50, 90, 98]);
                let mut first: [Option<Fr>; 4] = [None; 4];
                let mut lie = None;
                if prop == "c12" {
                    kind = ["words in the first row", "control in the first row", "words in the last row", "control in the last row", "all of the first row"][rng.below(5) as usize];
                    let x: Fr = fe(&g.w.word(&mut rng));
                    let x = if x == Fr::zero() { Fr::one() } else { x };
                    let c = unit() * Fr::from(rng.below(2 * step as u64) + 1);
                    let k = rng.below(2) as usize;
                    let z = t.len() - 1;
                    match kind {
                        "words in the first row" => first[1 + k] = Some(x),
                        "control in the first row" => first[3] = Some(c),
                        "words in the last row" => t[z].w[k] = x,
                        "control in the last row" => t[z].ctrl = c,
                        _ => first = [None, Some(x), Some(x), Some(c)],
                    }
                } else if rng.chance(1, 12) {
                    // show a false digest somewhere
                    kind = "false digest shown";
                    lie = Some((base + if rng.chance(1, 4) { calcs } else { rng.range(1, calcs) }, fe(&g.w.limbs(&mut rng))));
                }
                let mut tr = Trial::new(&sys, &mut rng, honest);
                let mut ok = true;
                for (k, v) in first.iter().enumerate() {
                    if let Some(v) = v {
                        ok &= tr.fix(tbl[k], base, *v);
                    }
                }
                for (i, r) in t.iter().enumerate() {
                    let row = base + 1 + i;
                    ok &= tr.fix(tbl[1], row, r.w[0]) && tr.fix(tbl[2], row, r.w[1]) && tr.fix(tbl[3], row, r.ctrl) && tr.fix(tbl[4], row, r.dom) && tr.fix(tbl[5], row, r.head);
                }
                if let Some((row, v)) = lie {
                    ok &= tr.fix(tbl[0], row, v);
                }
                m.seen(&(chip, step, calcs, t.iter().map(|r| [l4(&r.w[0]), l4(&r.w[1]), l4(&r.ctrl), l4(&r.dom), l4(&r.head)]).collect::<Vec<_>>(), kind));
                m.count(&format!("tried: {kind}"), 1);
                if !ok {
                    m.count("refused: tied cells", 1);
                    continue;
                }
                let out = tr.run();
                m.count("cells_derived", tr.derived);
                m.count("cells_lied_about", tr.chosen);
                m.count("branchings", tr.branched);
                m.count("linear_systems", tr.systems);
                match out {
                    Outcome::Dead(w) => {
                        m.count(&format!("refused by: {w}"), 1);
                        if kind == "whole" {
                            m.count("whole_refused", 1);
                        }
                    }
                    Outcome::Hard(w) => m.count(&format!("undecided: {w}"), 1),
                    Outcome::Accepted(p) => {
                        let v = shown(&p, &tbl, base, calcs);
                        m.count("accepted", 1);
                        m.count("accepted_rows_judged", calcs as u64);
                        let tag = format!("{tag0}, {kind}: accepted table {}", brief(&v));
                        let frame = bad_frame(&v, step);
                        match prop.as_str() {
                            "c03" => {
                                if frame.is_none() {
                                    m.count("accepted_judged_digests", 1);
                                    if let Some(w) = bad_digest(&ps, &v) {
                                        m.violation("false-digest", format!("{tag}: {w}"));
                                    }
                                }
                            }
                            "c04" => {
                                if let Some(w) = frame {
                                    m.violation("bad-framing", format!("{tag}: {w}"));
                                }
                            }
                            _ => {
                                if let Some(w) = bad_reserved(&v) {
                                    m.violation("reserved-row", format!("{tag}: {w}"));
                                }
                            }
                        }
                        m.sample(|| tag.clone());
                    }
                }
            }
        }
        m
    })
}
fn brief(t: &[Shown]) -> String {
    t.iter()
        .map(|r| {
            let c = l4(&r.ctrl);
            let cs = if c[0] == 0 && c[2] == 0 && c[3] == 0 { format!("{}", c[1]) } else { oracle::hex(&c) };
            format!("[{} ctrl {cs} mark {}]", oracle::hex(&l4(&r.index)).chars().take(10).collect::<String>(), if r.head == Fr::one() { "1" } else if r.head == Fr::zero() { "0" } else { "other" })
        })
        .collect::<Vec<_>>()
        .join(" ")
}
