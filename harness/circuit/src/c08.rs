//! C08: expected digests, right and wrong, at every position.
use crate::circ::*;
use crate::Ctx;
use oracle::mon::{guard, h64, par, Mon};
use oracle::{Rng, L4};

/// The digest after each row (the expectation of an inner row of a message is compared
/// with the state there).
fn running(ps: &oracle::Params, rows: &[Row]) -> Vec<L4> {
    let mut out = vec![];
    let mut st = [[0; 4]; 3];
    for r in rows {
        if r.head {
            st = [ctrl_field(ps, r.ctrl), [0; 4], [0; 4]];
        }
        st[0] = ps.addc(&st[0], &r.dom);
        st[1] = ps.addc(&st[1], &r.w[0]);
        st[2] = ps.addc(&st[2], &r.w[1]);
        st = ps.permute3(&st);
        out.push(st[0]);
    }
    out
}

pub fn run(ctx: &Ctx) -> Mon {
    let mode = ctx.args.get("mode", "serial");
    let ps = params();
    let big = ctx.args.u64("big", 0) as usize;
    let dl = oracle::gen::dict_lens(200);
    let n = ctx.args.u64("n", if ctx.thorough { 1500 } else { 110 });
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(67867967) + 5 * tid as u64 + h64(&mode));
        let mut g = TableGen::new(&ps);
        for _ in 0..n {
            let chip = if rng.chance(1, 4) && big == 0 { 1 } else { 0 };
            let step = *rng.pick(&STEPS);
            let size = match rng.below(4).max(if big > 0 { 3 } else { 0 }) {
                0 => rng.range(1, 3),
                1 | 2 => rng.range(2, 10),
                _ if big > 0 => big,
                _ if !dl.is_empty() && rng.chance(1, 4) => *rng.pick(&dl),
                _ => rng.range(8, 24),
            };
            let calcs = size + *rng.pick(&[0usize, 1, 1, 2, 9]);
            let old = rng.chance(1, 2);
            let mut calls = g.calls(&mut rng, size, step, false, old);
            let rows = model(&calls);
            let size = rows.len();
            let calcs = calcs.max(size);
            let true_at = running(&ps, &rows);
            // where the builder can put expectations: two-word entries and ends of messages
            let mut spots = vec![];
            for i in 0..size {
                if i + 1 == size || rows[i + 1].head {
                    spots.push(i);
                }
            }
            let all: Vec<L4> = true_at.clone();
            // base line: some right expectations
            let mut exp: Vec<Option<L4>> = vec![None; size];
            for &i in &spots {
                if rng.chance(1, 2) {
                    exp[i] = Some(true_at[i]);
                }
            }
            let mut plans: Vec<(Vec<Option<L4>>, Option<usize>, String)> = vec![(exp.clone(), None, "right expectations".into())];
            plans.push((spots.iter().fold(vec![None; size], |mut v, i| { v[*i] = Some(true_at[*i]); v }), None, "all right".into()));
            let mut at: Vec<usize> = spots.clone();
            rng.shuffle(&mut at);
            at.truncate(if ctx.thorough { 6 } else { 4 });
            if big > 0 {
                plans.remove(0);
                at = vec![*spots.last().unwrap()];
            }
            if !at.contains(spots.last().unwrap()) {
                at.push(*spots.last().unwrap());
            }
            if big == 0 && !at.contains(&spots[0]) {
                at.push(spots[0]);
            }
            for &i in &at {
                let d = true_at[i];
                let one = [1, 0, 0, 0];
                let f = &ps.f;
                let (wrong, how) = match rng.below(9) {
                    0 => ([0; 4], "zero"),
                    1 => (ps.addc(&d, &one), "one more"),
                    2 => (f.dec(&f.sub(&f.enc(&d), &f.one())), "one less"),
                    3 => (f.dec(&f.neg(&f.enc(&d))), "negated"),
                    4 => (*rng.pick(&all), "another row's"),
                    5 => (rows[i].w[0], "its first word"),
                    6 => (ps.hash2(&[0; 4], &[0; 4], &[0; 4]), "the padding's"),
                    7 => (ps.hash2(&rows[i].w[0], &rows[i].w[1], &[0; 4]), "the row's words hashed alone"),
                    _ => (g.word(&mut rng), "some word"),
                };
                if wrong == d {
                    continue;
                }
                let mut e = exp.clone();
                e[i] = Some(wrong);
                plans.push((e, Some(i), how.into()));
            }
            for (e, bad, how) in plans {
                put(&mut calls, &e);
                let (t, tag) = match guard(|| build(&calls)) {
                    Ok(t) => (t, format!("chip {chip} step {step} {mode} capacity {calcs} table [{}]: {how} expected at row {bad:?}", show_calls(&calls))),
                    Err(p) => {
                        m.violation("builder-panic", format!("[{}]: {p}", show_calls(&calls)));
                        continue;
                    }
                };
                m.seen(&(chip, step, calcs, &calls));
                let r = guard(|| synth(chip, step, &t, calcs, 0, None).map(|_| ()));
                match (bad, r) {
                    (None, Ok(Ok(()))) => m.count("right_accepted", 1),
                    (None, Ok(Err(x))) => m.violation("right-refused", format!("{tag}: {x:?}")),
                    (None, Err(p)) => m.violation("right-refused", format!("{tag}: {p}")),
                    (Some(_), Ok(Ok(()))) => m.violation("wrong-accepted", format!("{tag}: synthesis succeeded")),
                    (Some(i), Ok(Err(_)) | Err(_)) => {
                        m.count("wrong_refused", 1);
                        m.count(&format!("wrong: {how}"), 1);
                        m.count(if rows[i].head && rows[i].ctrl == 0 { "wrong_at_two_word_entries" } else { "wrong_at_message_ends" }, 1);
                        m.sample(|| tag.clone());
                    }
                }
            }
        }
        m
    })
}
/// Put expectations into the calls (fixed entries, checked constants, ends of streams).
fn put(calls: &mut [Call], e: &[Option<L4>]) {
    let mut i = 0;
    for c in calls.iter_mut() {
        match c {
            Call::Constant(v) => {
                // expectations need the checked call
                if e[i..i + v.len()].iter().all(|x| x.is_some()) {
                    *c = Call::ConstantCheck(v.iter().enumerate().map(|(k, w)| (*w, e[i + k].unwrap())).collect());
                } else if e[i..i + v.len()].iter().any(|x| x.is_some()) {
                    *c = Call::Fixed(v.iter().enumerate().map(|(k, w)| (*w, [0; 4], e[i + k])).collect());
                }
            }
            Call::ConstantCheck(v) => {
                if e[i..i + v.len()].iter().all(|x| x.is_some()) {
                    for (k, x) in v.iter_mut().enumerate() {
                        x.1 = e[i + k].unwrap();
                    }
                } else {
                    *c = Call::Fixed(v.iter().enumerate().map(|(k, (w, _))| (*w, [0; 4], e[i + k])).collect());
                }
            }
            Call::Fixed(v) => {
                for (k, x) in v.iter_mut().enumerate() {
                    x.2 = e[i + k];
                }
            }
            Call::Stream { words, check, with, .. } => {
                *check = e[i + words.len() - 1];
                *with |= check.is_some();
            }
        }
        i += match c {
            Call::Constant(v) => v.len(),
            Call::ConstantCheck(v) => v.len(),
            Call::Fixed(v) => v.len(),
            Call::Stream { words, .. } => words.len(),
        };
    }
}
