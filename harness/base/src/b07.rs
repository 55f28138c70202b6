//! B07: purity. Histories, hasher objects, threads, first-use races, panics.
use crate::cases::{bn, caps, message, show};
use crate::conv::{fe, l4, st3, un3};
use crate::Ctx;
use halo2curves::bn256::Fr;
use oracle::gen::Words;
use oracle::mon::{guard, par, Mon};
use oracle::{Params, Rng, L4};
use poseidon_base::hash::{Hashable, MessageHashable};
use poseidon_base::params::{self, CachedConstants};
use poseidon_base::primitives::{permute, P128Pow5T3, P128Pow5T3Compact, Spec};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Debug)]
enum Op {
    H2([L4; 3]),
    H2Obj([L4; 3]),
    Msg(Vec<L4>, Option<u128>),
    MsgObj(Vec<L4>, u128),
    PermObj([L4; 3]),
    PermMsgObj([L4; 3]),
    PermRaw([L4; 3]),
    PermCompact([L4; 3]),
    PermCached([L4; 3]),
    Rc(usize),
    Mds,
}
impl Op {
    fn kind(&self) -> usize {
        match self {
            Op::H2(_) => 0,
            Op::H2Obj(_) => 1,
            Op::Msg(..) => 2,
            Op::MsgObj(..) => 3,
            Op::PermObj(_) => 4,
            Op::PermMsgObj(_) => 5,
            Op::PermRaw(_) => 6,
            Op::PermCompact(_) => 7,
            Op::PermCached(_) => 8,
            Op::Rc(_) => 9,
            Op::Mds => 10,
        }
    }
}

fn default_cap(len: usize) -> u128 {
    (len as u128) << 64
}

fn expect(ps: &Params, shift: &[Vec<L4>], op: &Op) -> Vec<L4> {
    match op {
        Op::H2(s) | Op::H2Obj(s) => vec![ps.permute3(s)[0]],
        Op::Msg(m, c) => vec![ps.hash_msg(m, c.unwrap_or(default_cap(m.len())))],
        Op::MsgObj(m, c) => vec![ps.hash_msg(m, *c)],
        Op::PermObj(s) | Op::PermMsgObj(s) | Op::PermRaw(s) | Op::PermCompact(s) | Op::PermCached(s) => ps.permute3(s).to_vec(),
        Op::Rc(r) => (0..3)
            .map(|i| {
                if i > 0 && *r >= ps.rf / 2 && *r < ps.rf / 2 + ps.rp {
                    [0; 4]
                } else {
                    ps.f.dec(&ps.f.add(&ps.rc[*r][i], &shift[*r][i]))
                }
            })
            .collect(),
        Op::Mds => ps.mds.iter().flatten().map(|x| ps.f.dec(x)).collect(),
    }
}

fn exec(op: &Op) -> Result<Vec<L4>, String> {
    let perm = |s: &[L4; 3], f: &dyn Fn(&mut [Fr; 3])| {
        let mut x: [Fr; 3] = st3(s);
        f(&mut x);
        un3(&x).to_vec()
    };
    guard(|| match op {
        Op::H2(s) => vec![l4(&Fr::hash_with_domain([fe(&s[1]), fe(&s[2])], fe(&s[0])))],
        Op::H2Obj(s) => vec![l4(&<Fr as Hashable>::hasher().hash([fe(&s[1]), fe(&s[2])], fe(&s[0])))],
        Op::Msg(m, c) => vec![l4(&Fr::hash_msg(&m.iter().map(fe).collect::<Vec<Fr>>(), *c))],
        Op::MsgObj(m, c) => vec![l4(&Fr::msg_hasher().hash_with_cap(&m.iter().map(fe).collect::<Vec<Fr>>(), *c))],
        Op::PermObj(s) => perm(s, &|x| <Fr as Hashable>::hasher().permute(x)),
        Op::PermMsgObj(s) => perm(s, &|x| Fr::msg_hasher().permute(x)),
        Op::PermRaw(s) => perm(s, &|x| {
            let (rc, mds, _) = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
            permute::<Fr, P128Pow5T3<Fr>, 3, 2>(x, &mds, &rc)
        }),
        Op::PermCompact(s) => perm(s, &|x| {
            let (rc, mds, _) = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
            permute::<Fr, P128Pow5T3Compact<Fr>, 3, 2>(x, &mds, &rc)
        }),
        Op::PermCached(s) => perm(s, &|x| {
            permute::<Fr, P128Pow5T3Compact<Fr>, 3, 2>(x, <Fr as CachedConstants>::cached_mds(), <Fr as CachedConstants>::cached_round_constants())
        }),
        Op::Rc(r) => un3(&params::round_constant::<Fr>(*r)).to_vec(),
        Op::Mds => params::mds::<Fr>().iter().flatten().map(l4).collect(),
    })
}

fn pool(ps: &Params, rng: &mut Rng, n: usize) -> Vec<(Op, Vec<L4>)> {
    let mut w = Words::new(&ps.f);
    let shift = ps.compact_shift();
    // words from a small alphabet, so operations overlap in parts of their inputs
    let alpha: Vec<L4> = (0..14).map(|_| w.word(rng)).collect();
    let mut v = vec![];
    while v.len() < n {
        let s = [*rng.pick(&alpha), *rng.pick(&alpha), *rng.pick(&alpha)];
        let len = match rng.below(6) {
            0 => rng.range(5, 40),
            _ => rng.range(1, 4),
        };
        let op = match rng.below(16) {
            0..=2 => Op::H2(s),
            3 => Op::H2Obj(s),
            4..=6 => {
                let msg = if rng.chance(1, 2) {
                    (0..len).map(|_| *rng.pick(&alpha)).collect()
                } else {
                    message(ps, &mut w, rng, len, default_cap(len))
                };
                Op::Msg(msg, caps(len, rng))
            }
            7 => Op::MsgObj((0..len).map(|_| *rng.pick(&alpha)).collect(), rng.u128()),
            8 => Op::PermObj(s),
            9 => Op::PermMsgObj(s),
            10 => Op::PermRaw(s),
            11 | 12 => Op::PermCompact(s),
            13 => Op::PermCached(s),
            14 => Op::Rc(rng.below(65) as usize),
            _ => Op::Mds,
        };
        let e = expect(ps, &shift, &op);
        v.push((op, e));
    }
    v
}

fn judge(m: &mut Mon, op: &Op, want: &[L4], got: Result<Vec<L4>, String>, tag: &str) {
    m.evals += 1;
    m.count(&format!("ops_{tag}"), 1);
    match got {
        Ok(g) if g == want => {}
        Ok(g) => m.violation("history-dependent", format!("{tag}: {op:?} gave {} expected {}", show(&g), show(want))),
        Err(p) => m.violation("history-panic", format!("{tag}: {op:?} panicked: {p}")),
    }
}

/// Calls that are documented or observed to panic; they must not leave traces.
fn provoke(rng: &mut Rng) {
    let _ = guard(|| match rng.below(4) {
        0 => drop(Fr::hash_msg(&[], None)),
        1 => drop(params::round_constant::<Fr>(65 + rng.below(100) as usize)),
        2 => drop(<P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::secure_mds()),
        _ => drop(Fr::msg_hasher().hash_with_cap(&[], 1)),
    });
}

fn history(ctx: &Ctx, ps: &Params) -> Mon {
    let steps = ctx.args.u64("steps", if ctx.thorough { 400_000 } else { 30_000 });
    let npool = ctx.args.u64("pool", 500) as usize;
    let shared = pool(ps, &mut Rng::new(ctx.seed ^ 0x77), npool);
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(31337) + tid as u64);
        let own = pool(ps, &mut rng, npool);
        // long-lived hasher objects of this thread
        let mut objs: Vec<_> = (0..4).map(|_| <Fr as Hashable>::hasher()).collect();
        let mut mobjs: Vec<_> = (0..4).map(|_| Fr::msg_hasher()).collect();
        let mut last: usize = 0;
        for k in 0..steps {
            let src = if rng.chance(1, 2) { &shared } else { &own };
            // locality: often the neighbour of the last operation, or the same again
            let i = match rng.below(6) {
                0 => last,
                1 => (last + 1) % src.len(),
                _ => rng.below(src.len() as u64) as usize,
            };
            last = i;
            let (op, want) = &src[i];
            // `distinct`: consecutive pairs of operations (history of length two)
            m.distinct.insert(oracle::mon::h64(&(tid, std::ptr::eq(src, &own), last, i, k % 64)));
            match op {
                Op::H2Obj(s) => {
                    let j = rng.below(4) as usize;
                    let r = guard(|| {
                        let mut scratch: [Fr; 3] = st3(s);
                        if k % 3 == 0 {
                            objs[j].permute(&mut scratch);
                        }
                        let c = objs[j].clone();
                        let r = c.hash([fe(&s[1]), fe(&s[2])], fe(&s[0]));
                        vec![l4(&r)]
                    });
                    judge(&mut m, op, want, r, "long_lived_hasher");
                    if rng.chance(1, 8) {
                        // replace by a clone of another, or consume it
                        let c = objs[(j + 1) % 4].clone();
                        let old = std::mem::replace(&mut objs[j], c);
                        let r = guard(|| vec![l4(&old.hash([fe(&s[1]), fe(&s[2])], fe(&s[0])))]);
                        judge(&mut m, op, want, r, "consumed_hasher");
                    }
                }
                Op::MsgObj(ms, cap) => {
                    let j = rng.below(4) as usize;
                    let fm: Vec<Fr> = ms.iter().map(fe).collect();
                    let r = guard(|| vec![l4(&mobjs[j].clone().hash_with_cap(&fm, *cap))]);
                    judge(&mut m, op, want, r, "long_lived_hasher");
                    if rng.chance(1, 8) {
                        let c = mobjs[(j + 1) % 4].clone();
                        let old = std::mem::replace(&mut mobjs[j], c);
                        let r = guard(|| vec![l4(&old.hash_with_cap(&fm, *cap))]);
                        judge(&mut m, op, want, r, "consumed_hasher");
                    }
                }
                _ => judge(&mut m, op, want, exec(op), "history"),
            }
            if rng.chance(1, 200) {
                provoke(&mut rng);
                m.count("panicking_calls", 1);
            }
            if rng.chance(1, 50) {
                // hand a hasher to another thread in the middle of a history
                let h = objs[rng.below(4) as usize].clone();
                let (o, wnt) = rng.pick(&own);
                if let Op::H2(s) = o {
                    let s = *s;
                    let r = std::thread::scope(|sc| {
                        sc.spawn(move || guard(|| vec![l4(&h.hash([fe(&s[1]), fe(&s[2])], fe(&s[0])))])).join().unwrap()
                    });
                    judge(&mut m, o, wnt, r, "moved_to_thread");
                }
            }
        }
        m
    })
}

/// Sheer numbers: a call must not depend on how many came before it.
fn volume(ctx: &Ctx, ps: &Params) -> Mon {
    let n = ctx.args.u64("volume", if ctx.thorough { 1_500_000 } else { 150_000 });
    let mut rng = Rng::new(ctx.seed ^ 0x701);
    let mut w = Words::new(&ps.f);
    let mk = |rng: &mut Rng, w: &mut Words| -> ([Fr; 3], [Fr; 3], Vec<Fr>, u128, Fr) {
        let s = [w.word(rng), w.word(rng), w.word(rng)];
        let len = rng.range(1, 3);
        let msg: Vec<L4> = (0..len).map(|_| w.word(rng)).collect();
        let cap = rng.u128();
        let d = ps.hash_msg(&msg, cap);
        (st3(&s), st3(&ps.permute3(&s)), msg.iter().map(fe).collect(), cap, fe(&d))
    };
    let set: Vec<_> = (0..31).map(|_| mk(&mut rng, &mut w)).collect();
    par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut bad = 0;
        let mut k = 0;
        while k < n && bad < 3 {
            // one guard around a stretch of calls, so that counting them is cheap
            let end = (k + 1000).min(n);
            let r = guard(|| {
                for i in k..end {
                    let (s, p, msg, cap, d) = &set[((i + tid as u64) % 31) as usize];
                    let h = Fr::hash_with_domain([s[1], s[2]], s[0]);
                    if h != p[0] {
                        return Some((i, format!("two-to-one hash of ({:?}, {:?}) in domain {:?} gave {h:?} expected {:?}", s[1], s[2], s[0], p[0])));
                    }
                    if i % 4 == 0 {
                        let h = Fr::hash_msg(msg, Some(*cap));
                        if h != *d {
                            return Some((i, format!("message {msg:?} with capacity {cap} gave {h:?} expected {d:?}")));
                        }
                    }
                    if i % 8 == 1 {
                        let mut x = *s;
                        <Fr as Hashable>::hasher().permute(&mut x);
                        if x != *p {
                            return Some((i, format!("permutation of {s:?} gave {x:?} expected {p:?}")));
                        }
                    }
                }
                None
            });
            m.count("calls_volume", (end - k) + (end - k) / 4 + (end - k) / 8);
            m.evals += end - k;
            match r {
                Ok(None) => {}
                Ok(Some((i, t))) => {
                    bad += 1;
                    m.violation("history-dependent", format!("volume, thread {tid}, about call {i} of each kind on it: {t}"))
                }
                Err(p) => {
                    bad += 1;
                    m.violation("history-panic", format!("volume, thread {tid}, within calls {k}..{end}: {p}"))
                }
            }
            k = end;
        }
        // short-lived threads, each making its first calls
        let mut rng = Rng::new(ctx.seed * 77 + tid as u64);
        for _ in 0..(if ctx.thorough { 3000 } else { 300 }) {
            let i = rng.below(31) as usize;
            let (s, p, msg, cap, d) = &set[i];
            let r = std::thread::scope(|sc| {
                sc.spawn(|| guard(|| (Fr::hash_msg(msg, Some(*cap)), Fr::hash_with_domain([s[1], s[2]], s[0])))).join().unwrap()
            });
            m.evals += 1;
            m.count("short_lived_threads", 1);
            if r != Ok((*d, p[0])) {
                m.violation("history-dependent", format!("first calls of a new thread: {r:?} expected {:?}", (d, p[0])));
            }
        }
        m
    })
}

/// One fresh process: many threads make their first call at the same moment.
fn race(ctx: &Ctx, ps: &Params) -> Mon {
    let mut m = Mon::new();
    let mut rng = Rng::new(ctx.seed.wrapping_mul(2654435761) ^ ctx.args.u64("order", 0) << 20);
    let n = ctx.args.u64("racers", 16) as usize;
    let per = ctx.args.u64("steps", 3) as usize;
    let plans: Vec<Vec<(Op, Vec<L4>)>> = (0..n)
        .map(|_| {
            let k = per;
            pool(ps, &mut rng, k)
        })
        .collect();
    let delays: Vec<u64> = (0..n).map(|_| if rng.chance(1, 2) { 0 } else { rng.below(40_000) }).collect();
    let pre = rng.chance(1, 4);
    if pre {
        provoke(&mut rng);
    }
    let ticket = AtomicU64::new(0);
    let bar = std::sync::Barrier::new(n);
    let logs: Vec<Vec<(u64, u64, usize, Result<Vec<L4>, String>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (plans, ticket, bar, delays) = (&plans, &ticket, &bar, &delays);
                s.spawn(move || {
                    let mut log = Vec::with_capacity(plans[i].len());
                    bar.wait();
                    for _ in 0..delays[i] {
                        std::hint::spin_loop();
                    }
                    for (j, (op, _)) in plans[i].iter().enumerate() {
                        let a = ticket.fetch_add(1, SeqCst);
                        let r = exec(op);
                        let b = ticket.fetch_add(1, SeqCst);
                        log.push((a, b, j, r));
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // offline: judge every call, and record which first uses overlapped
    let mut ev = vec![];
    for (i, l) in logs.into_iter().enumerate() {
        for (a, b, j, r) in l {
            ev.push((a, b, plans[i][j].0.kind()));
            judge(&mut m, &plans[i][j].0, &plans[i][j].1, r, "race");
        }
    }
    ev.sort();
    let overlapping = ev.windows(2).filter(|w| w[1].0 < w[0].1).count();
    m.count("overlapping_call_pairs", overlapping as u64);
    let order: Vec<usize> = ev.iter().take(24).map(|e| e.2).collect();
    m.distinct.insert(oracle::mon::h64(&ev.iter().map(|e| (e.0, e.1, e.2)).collect::<Vec<_>>()));
    m.sample(|| format!("first calls in start order (operation kinds): {order:?}, overlapping pairs {overlapping}"));
    m
}

pub fn run(ctx: &Ctx) -> Mon {
    let ps = bn();
    match ctx.args.get("mode", "history").as_str() {
        "race" => race(ctx, &ps),
        "volume" => volume(ctx, &ps),
        _ => history(ctx, &ps),
    }
}
