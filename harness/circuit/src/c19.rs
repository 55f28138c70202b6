//! C19: hash tables over a user's own field with its own constants: satisfied, showing
//! exactly the table's hashes, the same in serial and parallel assignment.
use crate::circ::*;
use crate::conv::{fe, l4};
use crate::toy::Toy;
use crate::Ctx;
use halo2_proofs::knobs;
use halo2_proofs::plonk::Error;
use oracle::gen::Words;
use oracle::mon::{guard, h64, par, Mon};
use oracle::num_bigint::BigUint;
use oracle::{Fld, Params, Rng, L4};
use poseidon_base::hash::{HashSpec, Hashable, Hashablebase, MessageHashable, HASHABLE_DOMAIN_SPEC};
use poseidon_base::params::CachedConstants;
use poseidon_base::primitives::{CachedSpec, ConstantLengthIden3, Mds, P128Pow5T3Constants, Spec, VariableLengthIden3};
use poseidon_circuit::hash::PoseidonHashTable;
use poseidon_circuit::poseidon::{Pow5Chip, SeptidonChip};
use std::any::Any;
use std::collections::HashMap;
use std::sync::RwLock;

/// What the field of `P` elements supplies at the moment (each is used by one worker).
#[derive(Clone, Default)]
struct Own {
    rp: usize,
    rc: Vec<[u64; 3]>,
    mds: [[u64; 3]; 3],
    inv: [[u64; 3]; 3],
}
static OWN: RwLock<Option<HashMap<u64, Own>>> = RwLock::new(None);
static CACHE: RwLock<Option<HashMap<u64, &'static (dyn Any + Send + Sync)>>> = RwLock::new(None);
fn own<const P: u64>() -> Own {
    OWN.read().unwrap().as_ref().unwrap()[&P].clone()
}
type Tab<const P: u64> = (Vec<[Toy<P>; 3]>, Mds<Toy<P>, 3>, Mds<Toy<P>, 3>);
fn cached<const P: u64>() -> &'static Tab<P> {
    let x: &'static (dyn Any + Send + Sync) = CACHE.read().unwrap().as_ref().unwrap()[&P];
    x.downcast_ref::<Tab<P>>().unwrap()
}
fn install<const P: u64>(o: Own) -> Result<(), String> {
    OWN.write().unwrap().get_or_insert_with(HashMap::new).insert(P, o);
    let t: Tab<P> = guard(|| HashSpec::<Toy<P>>::constants())?;
    CACHE.write().unwrap().get_or_insert_with(HashMap::new).insert(P, Box::leak(Box::new(t)));
    Ok(())
}
fn t3<const P: u64>(m: &[[u64; 3]; 3]) -> Mds<Toy<P>, 3> {
    m.map(|r| r.map(Toy::<P>))
}
impl<const P: u64> P128Pow5T3Constants for Toy<P> {
    fn partial_rounds() -> usize {
        own::<P>().rp
    }
    fn round_constants() -> Vec<[Self; 3]> {
        own::<P>().rc.iter().map(|r| r.map(Toy::<P>)).collect()
    }
    fn mds() -> Mds<Self, 3> {
        t3(&own::<P>().mds)
    }
    fn mds_inv() -> Mds<Self, 3> {
        t3(&own::<P>().inv)
    }
}
impl<const P: u64> CachedSpec<Toy<P>, 3, 2> for HashSpec<Toy<P>> {
    fn cached_round_constants() -> &'static [[Toy<P>; 3]] {
        &cached::<P>().0
    }
    fn cached_mds() -> &'static Mds<Toy<P>, 3> {
        &cached::<P>().1
    }
    fn cached_mds_inv() -> &'static Mds<Toy<P>, 3> {
        &cached::<P>().2
    }
}
impl<const P: u64> CachedConstants for Toy<P> {
    fn cached_round_constants() -> &'static [[Self; 3]] {
        &cached::<P>().0
    }
    fn cached_mds() -> &'static Mds<Self, 3> {
        &cached::<P>().1
    }
    fn cached_mds_inv() -> &'static Mds<Self, 3> {
        &cached::<P>().2
    }
}
impl<const P: u64> Hashablebase for Toy<P> {}
impl<const P: u64> Hashable for Toy<P> {
    type SpecType = HashSpec<Self>;
    type DomainType = ConstantLengthIden3<2>;
    fn hash_with_domain(inp: [Self; 2], domain: Self) -> Self {
        Self::hasher().hash(inp, domain)
    }
}
impl<const P: u64> MessageHashable for Toy<P> {
    type DomainType = VariableLengthIden3;
    fn hash_msg(msg: &[Self], cap: Option<u128>) -> Self {
        Self::msg_hasher().hash_with_cap(msg, cap.unwrap_or(msg.len() as u128 * HASHABLE_DOMAIN_SPEC))
    }
}

fn synth_in<const P: u64>(chip: usize, step: usize, t: &PoseidonHashTable<Toy<P>>, calcs: usize, shift: usize) -> Result<Synth<Toy<P>>, Error> {
    macro_rules! d {
        ($($s:literal),*) => {
            match (chip, step) {
                $((0, $s) => run_synth::<Toy<P>, SeptidonChip, $s>(t, calcs, shift, None, None),
                  (1, $s) => run_synth::<Toy<P>, Pow5Chip<Toy<P>, 3, 2>, $s>(t, calcs, shift, None, None),)*
                _ => panic!("no such configuration"),
            }
        };
    }
    d!(1, 3, 7, 32, 62)
}
/// The compact form is the only one the 8-row chip is made for.
fn chips() -> u64 {
    if cfg!(feature = "short") {
        2
    } else {
        1
    }
}

fn field<const P: u64>(ctx: &Ctx, mode: &str) -> Mon {
    let mut m = Mon::new();
    let f = Fld::new(&BigUint::from(P));
    let mut rng = Rng::new(ctx.seed.wrapping_mul(275604541) + h64(&(P, mode)));
    let sets = ctx.args.u64("sets", if ctx.thorough { 500 } else { 40 });
    for k in 0..sets {
        let chip = if chips() == 2 && rng.chance(2, 3) { 0 } else { 1 };
        let rp = if chip == 0 { 57 } else { *rng.pick(&[57usize, 56, 2, 3, 0, 1, 22, 60]) };
        let mut w = Words::new(&f);
        let sparse = rng.below(4) == 0;
        let mut num = |rng: &mut Rng| -> u64 {
            if sparse && rng.chance(1, 2) {
                0
            } else {
                w.word(rng)[0]
            }
        };
        let rc: Vec<[u64; 3]> = (0..8 + rp).map(|_| [num(&mut rng), num(&mut rng), num(&mut rng)]).collect();
        let (ps, mds) = loop {
            let mm = [0; 3].map(|_| [num(&mut rng), num(&mut rng), num(&mut rng)]);
            let en = |r: &[u64; 3]| -> Vec<L4> { r.iter().map(|x| f.enc(&[*x, 0, 0, 0])).collect() };
            let ps = Params::custom(&f, 3, 8, rp, 5, rc.iter().map(en).collect(), mm.iter().map(en).collect());
            if !ps.mds_inv.is_empty() {
                break (ps, mm);
            }
        };
        let inv: Vec<[u64; 3]> = ps.mds_inv.iter().map(|r| [0, 1, 2].map(|j| f.dec(&r[j])[0])).collect();
        if let Err(x) = install::<P>(Own { rp, rc, mds, inv: [inv[0], inv[1], inv[2]] }) {
            m.violation("own-constants", format!("field of {P}, {rp} partial rounds: taking the constants panicked: {x}"));
            continue;
        }
        m.count("constant_sets", 1);
        let mut g = TableGen::new(&ps);
        for _ in 0..if ctx.thorough { 12 } else { 5 } {
            let step = *rng.pick(&[1usize, 3, 7, 32, 62]);
            // remaining lengths must differ in the field
            let most = ((P - 1) / (step as u64 + 1)).min(if chip == 1 { 8 } else { 24 }) as usize;
            let size = match rng.below(6) {
                0 => rng.range(0, 1),
                1..=3 => rng.range(1, 6),
                _ => rng.range(1, 24),
            }
            .min(most);
            let calls = g.calls(&mut rng, size, step, true, true);
            let rows = model(&calls);
            let calcs = rows.len() + rng.range(1, 4);
            let shift = if rng.chance(1, 8) { rng.range(1, 4) } else { 0 };
            let tag = format!("field of {P} elements, {rp} partial rounds, set {k}, chip {chip} step {step} {mode} capacity {calcs} shift {shift} table [{}]", show_calls(&calls));
            m.seen(&(P, k, chip, step, calcs, shift, &calls));
            m.count(if chip == 0 { "circuits_8row" } else { "circuits_38row" }, 1);
            knobs::set_schedule(rng.below(3));
            let s = match guard(|| synth_in::<P>(chip, step, &build_in(&calls), calcs, shift)) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => {
                    m.violation("synthesis-error", format!("{tag}: {e:?}"));
                    continue;
                }
                Err(p) => {
                    m.violation("synthesis-panic", format!("{tag}: {p}"));
                    continue;
                }
            };
            judge::<P>(&mut m, &ps, &s, &rows, calcs, &tag);
            m.sample(|| tag.clone());
            m.count("copies_checked", s.rec.copies.len() as u64);
            match prover(s.cs, s.rec).verify() {
                Ok(()) => m.count("satisfied", 1),
                Err(f) => m.violation("unsatisfied", format!("{tag}: {} failures, first {:?}", f.len(), f[0])),
            }
        }
    }
    m
}
fn judge<const P: u64>(m: &mut Mon, ps: &Params, s: &Synth<Toy<P>>, rows: &[Row], calcs: usize, tag: &str) {
    let d = digests(ps, rows);
    let pad = ps.hash2(&[0; 4], &[0; 4], &[0; 4]);
    for i in 0..=calcs {
        let want = match i {
            0 => [[0; 4]; 6],
            i if i <= rows.len() => expected(ps, &rows[i - 1], &d[i - 1]),
            _ => expected(ps, &ZROW, &pad),
        };
        m.count("rows_compared", 1);
        if row_at(s, s.base + i) != want.map(Some) {
            m.violation("own-table-row", format!("{tag}: row {i} is {:?}, expected {want:?}", row_at(s, s.base + i)));
            return;
        }
    }
    for (i, r) in rows.iter().enumerate().filter(|(_, r)| r.head) {
        let n = guard(|| {
            if r.ctrl == 0 {
                l4(&<Toy<P> as Hashable>::hash_with_domain([fe(&r.w[0]), fe(&r.w[1])], fe(&r.dom)))
            } else {
                let mut msg: Vec<Toy<P>> = vec![];
                for (j, r) in rows[i..].iter().enumerate() {
                    if j > 0 && r.head {
                        break;
                    }
                    msg.extend(r.w.iter().map(fe::<Toy<P>>));
                }
                l4(&Toy::<P>::hash_msg(&msg, Some(r.ctrl as u128 * factor())))
            }
        });
        m.count("native_compared", 1);
        if n != Ok(d[i]) {
            m.violation("own-native", format!("{tag}: native hash of entry {i} is {n:?}, its shown digest {:?}", d[i]));
        }
    }
}

pub fn run(ctx: &Ctx) -> Mon {
    let mode = ctx.args.get("mode", "serial");
    // fields in which x^5 is a permutation
    let all: [fn(&Ctx, &str) -> Mon; 10] = [
        field::<257>, field::<12289>, field::<65537>, field::<786433>, field::<1000003>, field::<998244353>,
        field::<2147483647>, field::<4294967279>, field::<18446744073709551557>, field::<17>,
    ];
    let next = std::sync::atomic::AtomicUsize::new(0);
    par(ctx.threads, |_| {
        let mut m = Mon::new();
        loop {
            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let Some(f) = all.get(k) else { break };
            m.merge(f(ctx, &mode));
        }
        m
    })
}
