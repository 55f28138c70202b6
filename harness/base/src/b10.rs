//! B10: constants a user supplies for a field of their own.
use crate::conv::{fe, l4, un3};
use crate::toy::Toy;
use crate::Ctx;
use oracle::gen::Words;
use oracle::mon::{guard, par, Mon};
use oracle::num_bigint::BigUint;
use oracle::{Fld, Params, Rng, L4};
use poseidon_base::params::{mds, round_constant, CachedConstants};
use poseidon_base::primitives::{
    permute, CachedSpec, ConstantLength, ConstantLengthIden3, Hash, Mds, P128Pow5T3, P128Pow5T3Compact,
    P128Pow5T3Constants, Spec, VariableLengthIden3,
};
use poseidon_base::hash::{Hashable, MessageHashable};
use std::cell::RefCell;
use std::collections::HashMap;

/// What the current thread's field supplies (numbers below 2^64).
#[derive(Clone, Default)]
struct Own {
    rp: Option<usize>,
    rc: Vec<[u64; 3]>,
    mds: [[u64; 3]; 3],
    inv: [[u64; 3]; 3],
}
thread_local! {
    static OWN: RefCell<Own> = RefCell::new(Own::default());
    static CACHE: RefCell<HashMap<(u64, u8), Box<dyn std::any::Any>>> = RefCell::new(HashMap::new());
}
fn t3<const P: u64>(m: &[[u64; 3]; 3]) -> Mds<Toy<P>, 3> {
    m.map(|r| r.map(Toy::<P>))
}

impl<const P: u64> P128Pow5T3Constants for Toy<P> {
    fn partial_rounds() -> usize {
        OWN.with(|o| o.borrow().rp).unwrap_or(56)
    }
    fn round_constants() -> Vec<[Self; 3]> {
        OWN.with(|o| o.borrow().rc.iter().map(|r| r.map(Toy::<P>)).collect())
    }
    fn mds() -> Mds<Self, 3> {
        OWN.with(|o| t3(&o.borrow().mds))
    }
    fn mds_inv() -> Mds<Self, 3> {
        OWN.with(|o| t3(&o.borrow().inv))
    }
}

type Tab<const P: u64> = (&'static [[Toy<P>; 3]], &'static Mds<Toy<P>, 3>, &'static Mds<Toy<P>, 3>);
fn install<const P: u64>() -> Result<(), String> {
    let k = |c: (Vec<[Toy<P>; 3]>, Mds<Toy<P>, 3>, Mds<Toy<P>, 3>)| -> Tab<P> {
        (Vec::leak(c.0), Box::leak(Box::new(c.1)), Box::leak(Box::new(c.2)))
    };
    let a = guard(|| k(P128Pow5T3::<Toy<P>>::constants()))?;
    let b = guard(|| k(P128Pow5T3Compact::<Toy<P>>::constants()))?;
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        c.insert((P, 0), Box::new(a));
        c.insert((P, 1), Box::new(b));
    });
    Ok(())
}
fn cached<const P: u64>(kind: u8) -> Tab<P> {
    CACHE.with(|c| *c.borrow()[&(P, kind)].downcast_ref::<Tab<P>>().unwrap())
}
macro_rules! spec {
    ($s:ident, $k:literal) => {
        impl<const P: u64> CachedSpec<Toy<P>, 3, 2> for $s<Toy<P>> {
            fn cached_round_constants() -> &'static [[Toy<P>; 3]] {
                cached::<P>($k).0
            }
            fn cached_mds() -> &'static Mds<Toy<P>, 3> {
                cached::<P>($k).1
            }
            fn cached_mds_inv() -> &'static Mds<Toy<P>, 3> {
                cached::<P>($k).2
            }
        }
    };
}
spec!(P128Pow5T3, 0);
spec!(P128Pow5T3Compact, 1);

impl<const P: u64> CachedConstants for Toy<P> {
    fn cached_round_constants() -> &'static [[Self; 3]] {
        cached::<P>(1).0
    }
    fn cached_mds() -> &'static Mds<Self, 3> {
        cached::<P>(1).1
    }
    fn cached_mds_inv() -> &'static Mds<Self, 3> {
        cached::<P>(1).2
    }
}

impl<const P: u64> poseidon_base::hash::Hashablebase for Toy<P> {}
impl<const P: u64> Hashable for Toy<P> {
    type SpecType = poseidon_base::hash::HashSpec<Self>;
    type DomainType = ConstantLengthIden3<2>;
    fn hash_with_domain(inp: [Self; 2], domain: Self) -> Self {
        Self::hasher().hash(inp, domain)
    }
}
impl<const P: u64> MessageHashable for Toy<P> {
    type DomainType = VariableLengthIden3;
    fn hash_msg(msg: &[Self], cap: Option<u128>) -> Self {
        Self::msg_hasher().hash_with_cap(msg, cap.unwrap_or(msg.len() as u128 * poseidon_base::hash::HASHABLE_DOMAIN_SPEC))
    }
}

struct E<'a> {
    m: &'a mut Mon,
    rng: &'a mut Rng,
    w: Words,
    ps: Params,
    p: u64,
    desc: String,
}
impl E<'_> {
    fn bad(&mut self, key: &str, s: String) {
        self.m.violation(key, format!("{}: {s}", self.desc));
    }
    fn word(&mut self) -> L4 {
        self.w.word(self.rng)
    }
    fn want(&self, s: &[L4; 3]) -> [L4; 3] {
        let mut v: Vec<L4> = s.iter().map(|x| self.ps.f.enc(x)).collect();
        self.ps.permute(&mut v);
        [0, 1, 2].map(|i| self.ps.f.dec(&v[i]))
    }
}

fn perm<const P: u64, S: CachedSpec<Toy<P>, 3, 2>>(e: &mut E, what: &str, s: &[L4; 3], want: &[L4; 3], obj: bool) {
    let st: [Toy<P>; 3] = s.map(|x| fe(&x));
    let got = guard(|| {
        let mut a = st;
        if obj {
            Hash::<Toy<P>, S, ConstantLength<2>, 3, 2>::init().permute(&mut a);
        } else {
            permute::<Toy<P>, S, 3, 2>(&mut a, S::cached_mds(), S::cached_round_constants());
        }
        un3(&a)
    });
    e.m.count("permutations", 1);
    e.m.seen(&(&e.desc, what, s));
    if got.as_ref() != Ok(want) {
        e.bad("own-permutation", format!("{what} form: permutation of {s:?} is {got:?}, the supplied constants define {want:?}"));
    }
}

fn one<const P: u64>(ctx: &Ctx, m: &mut Mon, rng: &mut Rng, k: usize) {
    let f = Fld::new(&BigUint::from(P));
    let mut w = Words::new(&f);
    let rp = [0, 1, 2, 57, 56, 3, 60, 22][k % 8].max(if k >= 8 { rng.range(0, 90) } else { 0 });
    let sparse = rng.below(4);
    let mut num = |rng: &mut Rng| -> u64 {
        if sparse == 0 && rng.below(2) == 0 {
            0
        } else {
            w.word(rng)[0]
        }
    };
    let rc: Vec<[u64; 3]> = (0..8 + rp).map(|_| [num(rng), num(rng), num(rng)]).collect();
    let (ps, mds_v) = loop {
        let mm = [0; 3].map(|_| [num(rng), num(rng), num(rng)]);
        let en = |r: &[u64; 3]| -> Vec<L4> { r.iter().map(|x| f.enc(&[*x, 0, 0, 0])).collect() };
        let ps = Params::custom(&f, 3, 8, rp, 5, rc.iter().map(en).collect(), mm.iter().map(en).collect());
        if !ps.mds_inv.is_empty() {
            break (ps, mm);
        }
    };
    let inv: Vec<[u64; 3]> = ps.mds_inv.iter().map(|r| [0, 1, 2].map(|j| f.dec(&r[j])[0])).collect();
    let own = Own { rp: if rp == 56 { None } else { Some(rp) }, rc: rc.clone(), mds: mds_v, inv: [inv[0], inv[1], inv[2]] };
    OWN.with(|o| *o.borrow_mut() = own.clone());
    let desc = format!("field of {P}, {rp} partial rounds, constants set {k}");
    let mut e = E { m, rng, w: Words::new(&f), ps, p: P, desc };
    if let Err(x) = install::<P>() {
        e.bad("own-constants", format!("taking the constants panicked: {x}"));
        return;
    }
    // what the two forms hand out
    e.m.count("constant_sets", 1);
    let raw: Tab<P> = cached(0);
    let cpt: Tab<P> = cached(1);
    let rcf: Vec<[Toy<P>; 3]> = rc.iter().map(|r| r.map(Toy::<P>)).collect();
    if raw.0 != &rcf[..] {
        e.bad("own-constants", "the raw form changes the supplied round constants".into());
    }
    for (n, t) in [("raw", &raw), ("compact", &cpt)] {
        if *t.1 != t3::<P>(&own.mds) || *t.2 != t3::<P>(&own.inv) {
            e.bad("own-constants", format!("the {n} form hands out other matrices than supplied"));
        }
        if t.0.len() != 8 + rp {
            e.bad("own-constants", format!("the {n} form hands out {} round constant rows for {} rounds", t.0.len(), 8 + rp));
        }
    }
    for (r, row) in cpt.0.iter().enumerate() {
        if (4..4 + rp).contains(&r) && (row[1] != Toy(0) || row[2] != Toy(0)) {
            e.bad("own-compact-form", format!("partial round {r} of the compact form still adds {row:?} to the other words"));
        }
        if r < 4 && *row != rcf[r] {
            e.bad("own-compact-form", format!("round {r}, before any partial round, has {row:?} instead of the supplied {:?}", rcf[r]));
        }
        let got = guard(|| round_constant::<Toy<P>>(r));
        if got != Ok(*row) {
            e.bad("own-accessor", format!("round_constant({r}) is {got:?}, cached is {row:?}"));
        }
    }
    if guard(|| *mds::<Toy<P>>()) != Ok(t3::<P>(&own.mds)) {
        e.bad("own-accessor", "mds() is not the supplied matrix".into());
    }
    let shape = guard(|| {
        [
            <P128Pow5T3<Toy<P>> as Spec<Toy<P>, 3, 2>>::full_rounds(),
            <P128Pow5T3Compact<Toy<P>> as Spec<Toy<P>, 3, 2>>::full_rounds(),
            <P128Pow5T3<Toy<P>> as Spec<Toy<P>, 3, 2>>::partial_rounds(),
            <P128Pow5T3Compact<Toy<P>> as Spec<Toy<P>, 3, 2>>::partial_rounds(),
            <Toy<P> as Hashable>::hash_block_size(),
        ]
    });
    let block = if cfg!(feature = "short") { 9 } else { 9 + (rp + 1) / 2 };
    if shape != Ok([8, 8, rp, rp, block]) {
        e.bad("own-shape", format!("rounds and rows per permutation are {shape:?}, expected {:?}", [8, 8, rp, rp, block]));
    }
    // the S-box of both forms
    let n = if P < 1000 { P } else { 200 };
    for i in 0..n {
        let x: Toy<P> = if P < 1000 { Toy(i) } else { fe(&e.word()) };
        let q = x * x * x * x * x;
        let got = guard(|| {
            (
                <P128Pow5T3<Toy<P>> as Spec<Toy<P>, 3, 2>>::sbox(x),
                <P128Pow5T3Compact<Toy<P>> as Spec<Toy<P>, 3, 2>>::sbox(x),
            )
        });
        if got != Ok((q, q)) {
            e.bad("own-sbox", format!("{x:?}^5 is {q:?}, the two forms give {got:?}"));
        }
    }
    e.m.count("sbox_values", n);
    // states: every one of a tiny field, else random and edge
    let small = P < 40 && (k < 2 || ctx.thorough);
    let total = if small { P * P * P } else if ctx.thorough { 600 } else { 120 };
    for i in 0..total {
        let s: [L4; 3] = if small {
            [[i % P, 0, 0, 0], [i / P % P, 0, 0, 0], [i / P / P, 0, 0, 0]]
        } else {
            [0; 3].map(|_| e.word())
        };
        let want = e.want(&s);
        perm::<P, P128Pow5T3<Toy<P>>>(&mut e, "raw", &s, &want, i % 3 == 0);
        perm::<P, P128Pow5T3Compact<Toy<P>>>(&mut e, "compact", &s, &want, i % 3 == 0);
    }
    // hashing through the traits the user's field implements
    for i in 0..(if ctx.thorough { 120 } else { 30 }) {
        let (a, b, d) = (e.word(), e.word(), e.word());
        let w = e.ps.sponge(2, 0, 1, &d, &[a, b])[0];
        let z = e.ps.sponge(2, 0, 1, &[0; 4], &[a, b])[0];
        let (fa, fb, fd): (Toy<P>, Toy<P>, Toy<P>) = (fe(&a), fe(&b), fe(&d));
        let got = guard(|| {
            (
                l4(&Toy::<P>::hash_with_domain([fa, fb], fd)),
                l4(&<Toy<P> as Hashable>::hasher().hash([fa, fb], fd)),
                l4(&<Toy<P> as Hashable>::hash([fa, fb])),
            )
        });
        e.m.count("two_word_hashes", 3);
        e.m.seen(&(&e.desc, "hash", a, b, d));
        if got != Ok((w, w, z)) {
            e.bad("own-hash", format!("hash of ({a:?}, {b:?}) in domain {d:?}: (with domain, through the hasher, without domain) {got:?}, expected {:?}", (w, w, z)));
        }
        let n = if i == 0 { 1 } else { e.rng.range(1, 14) };
        let msg: Vec<L4> = (0..n).map(|_| e.word()).collect();
        let cap = match e.rng.below(3) {
            0 => None,
            1 => Some(e.rng.below(1000) as u128),
            _ => Some(e.rng.u128()),
        };
        let c = cap.unwrap_or((n as u128) << 64);
        let cw = e.ps.f.dec(&e.ps.f.from_u128(c));
        let w = e.ps.sponge(2, 0, 1, &cw, &msg)[0];
        let fm: Vec<Toy<P>> = msg.iter().map(fe).collect();
        let got = guard(|| l4(&Toy::<P>::hash_msg(&fm, cap)));
        e.m.count("message_hashes", 1);
        e.m.seen(&(&e.desc, "msg", &msg, cap));
        if got != Ok(w) {
            e.bad("own-hash", format!("message {msg:?} with capacity {cap:?} gives {got:?}, expected {w:?}"));
        }
    }
    let _ = e.p;
}

pub fn run(ctx: &Ctx) -> Mon {
    let n = ctx.args.u64("n", if ctx.thorough { 400 } else { 64 }) as usize;
    let mut m = par(ctx.threads, |t| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(7001) + t as u64);
        for k in (t..n).step_by(ctx.threads) {
            let i = k / 6;
            match k % 6 {
                0 => one::<31>(ctx, &mut m, &mut rng, i),
                1 => one::<18446744069414584321>(ctx, &mut m, &mut rng, i),
                2 => one::<257>(ctx, &mut m, &mut rng, i),
                3 => one::<2147483647>(ctx, &mut m, &mut rng, i),
                4 => one::<13>(ctx, &mut m, &mut rng, i),
                _ => one::<2305843009213693951>(ctx, &mut m, &mut rng, i),
            }
        }
        m
    });
    m.sample(|| format!("{n} sets of user constants over the fields of 13, 31, 257, 2^31-1, 2^61-1 and 2^64-2^32+1; tiny fields state by state"));
    m
}
