//! C06: parallel assignment against serial assignment, with the number of CPUs and the
//! order of the workers under the monitor's control.
use crate::c05::classes;
use crate::circ::*;
use crate::{set_mode, Ctx};
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::knobs;
use oracle::mon::{guard, par, Mon};
use oracle::{Params, Rng};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Mutex;

thread_local! {
    static CPUS: Cell<usize> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}
/// What `available_parallelism` asks; answered per thread.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, size: usize, set: *mut u8) -> i32 {
    let n = CPUS.with(|c| c.get());
    let n = if n == 0 { 8 } else { n };
    ASKED.with(|c| c.set(c.get() + 1));
    for i in 0..size {
        let mut b = 0u8;
        for k in 0..8 {
            if i * 8 + k < n {
                b |= 1 << k;
            }
        }
        *set.add(i) = b;
    }
    0
}

struct Case {
    chip: usize,
    step: usize,
    calcs: usize,
    shift: usize,
    calls: Vec<Call>,
    extra: Vec<usize>,
    proper: bool,
}
/// Tables whose messages sit on, before and after the places where work is split.
fn case(rng: &mut Rng, g: &mut TableGen, thorough: bool, big: usize) -> Case {
    if big > 0 {
        // as large as in real circuits, all in one hand or in few
        let step = *rng.pick(&STEPS);
        let calls = g.calls(rng, big, step, true, true);
        return Case { chip: 0, step, calcs: big + rng.range(1, 9), shift: 0, calls, extra: vec![1, 7], proper: false };
    }
    let chip = if rng.chance(1, 3) { 1 } else { 0 };
    let step = *rng.pick(&STEPS);
    let calcs = match rng.below(8) {
        0 => rng.range(1, 3),
        1..=4 => rng.range(3, 18),
        5 | 6 => rng.range(16, 40),
        _ => rng.range(40, if thorough { 400 } else { 130 }),
    };
    let calcs = if chip == 1 { calcs.min(40) } else { calcs };
    let size = match rng.below(4) {
        0 => rng.range(0, calcs - 1),
        1 => calcs - 1,
        _ => rng.range(calcs / 2, calcs - 1),
    };
    let kind = rng.below(6);
    let calls = match kind {
        _ if size == 0 => vec![],
        // messages that have not ended where their words do: not provable, but both
        // assignments must agree
        5 => {
            let mut v = vec![];
            let mut left = size;
            while left > 0 {
                let k = rng.range(1, left.min(5));
                if rng.chance(1, 3) {
                    v.extend(g.calls(rng, k, step, false, false));
                } else {
                    let words: Vec<[oracle::L4; 2]> = (0..k).map(|_| [g.word(rng), g.word(rng)]).collect();
                    let near = rng.below(((k + 2) * step) as u64);
                    let ctrl = match rng.below(4) {
                        0 => near,
                        1 => near + (1u64 << rng.range(7, 63)),
                        2 => u64::MAX - near,
                        _ => rng.next(),
                    };
                    // enough of it for all the words
                    let ctrl = ctrl.max(((k - 1) * step) as u64 + if k > 1 { 1 } else { 0 });
                    v.push(Call::Stream { words, ctrl, step, check: None, with: false });
                }
                left -= k;
            }
            v
        }
        // one message over most of the table: workers get nothing or everything
        0 => {
            let lead = rng.range(0, size - 1);
            let mut v = if lead > 0 { g.calls(rng, lead, step, true, true) } else { vec![] };
            let k = size - lead;
            let words: Vec<[oracle::L4; 2]> = (0..k).map(|_| [g.word(rng), g.word(rng)]).collect();
            let ctrl = ctrl_for(rng, k, step);
            v.push(Call::Stream { words, ctrl, step, check: None, with: false });
            v
        }
        // many messages of one length
        1 => {
            let k = rng.range(1, 6.min(size));
            let mut v = vec![];
            let mut left = size;
            while left > 0 {
                let k = k.min(left);
                let words: Vec<[oracle::L4; 2]> = (0..k).map(|_| [g.word(rng), g.word(rng)]).collect();
                let ctrl = ctrl_for(rng, k, step);
                v.push(Call::Stream { words, ctrl, step, check: None, with: true });
                left -= k;
            }
            v
        }
        _ => g.calls(rng, size, step, true, true),
    };
    let shift = if rng.chance(1, 6) { rng.range(1, 6) } else { 0 };
    let mut extra = vec![1, rng.range(2, 6), *rng.pick(&[7usize, 8, 12, 16]), *rng.pick(&[31usize, 32, 64, 128])];
    extra.push(calcs);
    extra.push(calcs.max(2) - 1);
    extra.push(calcs + 1);
    rng.shuffle(&mut extra);
    extra.truncate(if thorough { 7 } else { 4 });
    Case { chip, step, calcs, shift, calls, extra, proper: kind != 5 || size == 0 }
}

struct View {
    rows: Vec<[Option<oracle::L4>; 6]>,
    enabled: Vec<usize>,
    custom: BTreeSet<usize>,
    /// sizes of the copy classes of every table row's cells, by column
    links: Vec<Vec<(usize, usize, usize)>>,
    /// rows of every selector and number of fixed cells, sizes only
    counts: Vec<usize>,
    fill: BTreeMap<usize, (usize, Fr)>,
}
fn view(s: &Synth, calcs: usize) -> View {
    let base = s.base;
    let rows = (0..=calcs).map(|i| row_at(s, base + i)).collect();
    let enabled = s.rec.fixed[s.q].iter().filter(|(_, v)| **v != Fr::zero()).map(|(r, _)| r - base).collect();
    // selectors that mark exactly the reserved rows
    let ends: BTreeSet<usize> = [base, base + calcs].into();
    let custom = s.rec.selectors.iter().enumerate().filter(|(_, r)| **r == ends).map(|(i, _)| i).collect();
    let mut size: HashMap<(usize, usize), (usize, usize)> = HashMap::new();
    for (id, c) in classes(&s.rec.copies).into_iter().enumerate() {
        for (t, col, row) in &c {
            if *t == 0 {
                size.insert((*col, *row), (c.len(), id));
            }
        }
    }
    let hi = s.tbl.iter().max().unwrap() + 1;
    let mut links = vec![];
    for i in 0..=calcs {
        let mut v: Vec<(usize, usize, usize)> = vec![];
        // the table's columns and the auxiliary ones next to them
        for col in 0..hi + 8 {
            if let Some((n, id)) = size.get(&(col, base + i)) {
                v.push((col, *n, *id));
            }
        }
        links.push(v);
    }
    let mut counts: Vec<usize> = s.rec.selectors.iter().map(|x| x.len()).collect();
    counts.extend(s.rec.fixed.iter().map(|x| x.values().filter(|v| **v != Fr::zero()).count()));
    View { rows, enabled, custom, links, counts, fill: s.rec.table_fill.clone() }
}
fn compare(a: &View, b: &View) -> Option<(&'static str, String)> {
    for (i, (x, y)) in a.rows.iter().zip(&b.rows).enumerate() {
        for k in 0..6 {
            if x[k] != y[k] {
                return Some(("values-differ", format!("table row {i} column {k}: serial {:?}, parallel {:?}", x[k].map(|v| oracle::hex(&v)), y[k].map(|v| oracle::hex(&v)))));
            }
        }
    }
    if a.enabled != b.enabled {
        return Some(("enabled-differ", format!("enabled rows: serial {:?}, parallel {:?}", a.enabled, b.enabled)));
    }
    if a.custom != b.custom {
        return Some(("reserved-differ", format!("selectors that mark the reserved rows: serial {:?}, parallel {:?}", a.custom, b.custom)));
    }
    for (i, (x, y)) in a.links.iter().zip(&b.links).enumerate() {
        let f = |v: &Vec<(usize, usize, usize)>| v.iter().map(|(c, n, _)| (*c, *n)).collect::<Vec<_>>();
        if f(x) != f(y) {
            return Some(("links-differ", format!("table row {i} is linked by (column, cells) {:?} serially and {:?} in parallel", f(x), f(y))));
        }
        let ids: HashSet<usize> = y.iter().map(|x| x.2).collect();
        let ids_a: HashSet<usize> = x.iter().map(|x| x.2).collect();
        if ids.len() != ids_a.len() {
            return Some(("links-differ", format!("table row {i}: cells are linked to each other in one mode only")));
        }
    }
    if a.counts != b.counts {
        return Some(("structure-differs", format!("numbers of enabled selector rows and fixed cells: serial {:?}, parallel {:?}", a.counts, b.counts)));
    }
    if a.fill != b.fill {
        return Some(("structure-differs", "lookup table".into()));
    }
    None
}

pub fn run(ctx: &Ctx) -> Mon {
    let ps: Params = params();
    let n = ctx.args.u64("n", if ctx.thorough { 220 } else { 30 });
    let big = ctx.args.u64("big", 0) as usize;
    let all: Vec<Mutex<Vec<(Case, String, Result<View, String>)>>> = (0..ctx.threads).map(|_| Mutex::new(vec![])).collect();
    // first phase: the serial assignment of every case
    set_mode("serial");
    let mut total = par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(32452843) + 7 * tid as u64);
        let mut g = TableGen::new(&ps);
        let mut out = vec![];
        for _ in 0..n {
            let c = case(&mut rng, &mut g, ctx.thorough, big);
            let tag = format!("chip {} step {} capacity {} shift {} table [{}]", c.chip, c.step, c.calcs, c.shift, show_calls(&c.calls));
            let t = match guard(|| build(&c.calls)) {
                Ok(t) => t,
                Err(p) => {
                    m.violation("builder-panic", format!("{tag}: {p}"));
                    continue;
                }
            };
            let v = match guard(|| synth(c.chip, c.step, &t, c.calcs, c.shift, None)) {
                Ok(Ok(s)) => Ok(view(&s, c.calcs)),
                Ok(Err(e)) => Err(format!("error {e:?}")),
                Err(p) => Err(format!("panic {p}")),
            };
            m.count("serial_runs", 1);
            out.push((c, tag, v));
        }
        *all[tid].lock().unwrap() = out;
        m
    });
    // second phase: the same in parallel
    set_mode("parallel");
    total.merge(par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(49979687) + 11 * tid as u64);
        let mut orders: HashSet<Vec<usize>> = HashSet::new();
        for (c, tag, sv) in all[tid].lock().unwrap().iter() {
            let t = build(&c.calls);
            for (q, &cpus) in c.extra.iter().enumerate() {
                CPUS.with(|x| x.set(cpus));
                let sched = match rng.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    _ => 3 + rng.below(1 << 30),
                };
                knobs::set_schedule(sched);
                let tag = format!("{tag}, {cpus} CPUs, worker schedule {sched}");
                m.seen(&(c.chip, c.step, c.calcs, c.shift, &c.calls, cpus, sched));
                let r = guard(|| synth(c.chip, c.step, &t, c.calcs, c.shift, None));
                m.count("parallel_runs", 1);
                match (sv, r) {
                    (Ok(a), Ok(Ok(s))) => {
                        let workers = s.rec.regions.iter().filter(|r| r.worker && r.name.starts_with("hash table")).count();
                        m.count("workers", s.rec.regions.iter().filter(|r| r.worker).count() as u64);
                        m.count("workers_of_the_table", workers as u64);
                        m.max("max_workers", workers as u64);
                        m.count("rows_compared", c.calcs as u64 + 1);
                        if !s.rec.schedules.is_empty() {
                            orders.insert(s.rec.schedules.concat());
                        }
                        if !s.rec.escapes.is_empty() {
                            m.violation("worker-outside-its-rows", format!("{tag}: {}", s.rec.escapes[0]));
                        }
                        let b = view(&s, c.calcs);
                        if let Some((k, w)) = compare(a, &b) {
                            m.violation(k, format!("{tag}: {w}"));
                        } else if big == 0 && (q == 0 || ctx.thorough) {
                            m.count("parallel_verified", 1);
                            let v = prover(s.cs, s.rec).verify();
                            if !c.proper {
                                m.count("unfinished_messages", 1);
                            } else if let Err(f) = v {
                                m.violation("unsatisfied", format!("{tag}: {} failures, first {:?}", f.len(), f[0]));
                            }
                        }
                        m.sample(|| tag.clone());
                    }
                    (Err(e), Ok(Ok(_))) => m.violation("serial-fails", format!("{tag}: serial {e}, parallel succeeds")),
                    (a, Ok(Err(e))) => m.violation("parallel-error", format!("{tag}: parallel {e:?}, serial {}", if a.is_ok() { "succeeds" } else { "fails" })),
                    (a, Err(p)) => m.violation("parallel-panic", format!("{tag}: parallel {p}, serial {}", if a.is_ok() { "succeeds" } else { "fails" })),
                }
            }
            CPUS.with(|x| x.set(0));
        }
        m.count("distinct_worker_orders", orders.len() as u64);
        m.count("cpu_questions", ASKED.with(|x| x.get()));
        m
    }));
    total
}
