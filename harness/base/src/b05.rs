//! B05: generated parameters against the reference Grain procedure, for many specs.
use crate::conv::l4;
use crate::spec::{modulus, set, Cfg, Dyn};
use crate::toy::Toy;
use crate::Ctx;
use halo2curves::ff::FromUniformBytes;
use oracle::mon::{guard, par, Mon};
use oracle::{Params, Rng};
use poseidon_base::primitives::{Mds, Spec};

fn one<F: FromUniformBytes<64> + Ord, const T: usize, const R: usize>(m: &mut Mon, name: &str, c: Cfg) {
    let p = modulus::<F>();
    let Some(ps) = Params::generate(&p, T, c.rf, c.rp, c.sel) else {
        // the reference procedure has no matrix at this index
        m.count("undefined_by_reference", 1);
        return;
    };
    set(c);
    let what = || format!("field {name}, width {T}, rounds {}+{}, matrix index {}", c.rf, c.rp, c.sel);
    let r: Result<(Vec<[F; T]>, Mds<F, T>, Mds<F, T>), String> = guard(<Dyn as Spec<F, T, R>>::constants);
    m.seen(&(name, T, c.rf, c.rp, c.sel));
    m.count(&format!("field_{name}"), 1);
    m.count(&format!("width_{T:02}"), 1);
    let (rc, mds, inv) = match r {
        Ok(x) => x,
        Err(e) => {
            m.violation("generation-panic", format!("{}: {e}", what()));
            return;
        }
    };
    m.count("words_compared", (rc.len() * T + 2 * T * T) as u64);
    if rc.len() != c.rf + c.rp {
        m.violation("round-constant-rows", format!("{}: {} rows", what(), rc.len()));
        return;
    }
    let f = &ps.f;
    for (i, row) in rc.iter().enumerate() {
        for (j, x) in row.iter().enumerate() {
            let w = f.dec(&ps.rc[i][j]);
            if l4(x) != w {
                m.violation("round-constant", format!("{}: round {i} word {j} is {} expected {}", what(), oracle::hex(&l4(x)), oracle::hex(&w)));
                return;
            }
        }
    }
    for i in 0..T {
        for j in 0..T {
            let w = f.dec(&ps.mds[i][j]);
            if l4(&mds[i][j]) != w {
                m.violation("mds", format!("{}: entry {i},{j} is {} expected {}", what(), oracle::hex(&l4(&mds[i][j])), oracle::hex(&w)));
                return;
            }
            // the product must be the identity (checked on the oracle's arithmetic)
            let mut acc = f.zero();
            for k in 0..T {
                acc = f.add(&acc, &f.mul(&f.enc(&l4(&mds[i][k])), &f.enc(&l4(&inv[k][j]))));
            }
            if acc != if i == j { f.one() } else { f.zero() } {
                m.violation("mds-inverse", format!("{}: (mds x inverse)[{i}][{j}] is not the identity's", what()));
                return;
            }
        }
    }
    m.sample(|| format!("{}: first constant {}", what(), oracle::hex(&f.dec(&ps.rc[0][0]))));
}

type Job = (String, fn(&mut Mon, &str, Cfg));

fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    macro_rules! add {
        ($name:expr, $f:ty, [$($t:literal/$r:literal),*]) => { $( v.push(($name.to_string(), one::<$f, $t, $r>)); )* };
    }
    macro_rules! big {
        ($name:expr, $f:ty) => { add!($name, $f, [2/1, 3/2, 4/3, 5/4, 6/5, 7/6, 8/7, 9/8, 12/11]); };
    }
    macro_rules! mid {
        ($name:expr, $f:ty) => { add!($name, $f, [2/1, 3/2, 4/3, 5/4, 6/5, 8/7, 11/10, 16/15]); };
    }
    macro_rules! tiny {
        ($name:expr, $f:ty) => { add!($name, $f, [2/1, 3/2, 4/3, 5/4]); };
    }
    use halo2curves::{bn256, pasta, secp256k1, secp256r1};
    big!("bn256-fr", bn256::Fr);
    big!("bn256-fq", bn256::Fq);
    big!("pallas-fp", pasta::Fp);
    big!("vesta-fq", pasta::Fq);
    mid!("secp256k1-fp", secp256k1::Fp);
    mid!("secp256k1-fq", secp256k1::Fq);
    mid!("secp256r1-fp", secp256r1::Fp);
    mid!("secp256r1-fq", secp256r1::Fq);
    mid!("toy-goldilocks", Toy<18446744069414584321>);
    mid!("toy-2^61-1", Toy<2305843009213693951>);
    mid!("toy-2^31-1", Toy<2147483647>);
    mid!("toy-65537", Toy<65537>);
    mid!("toy-131071", Toy<131071>);
    mid!("toy-8191", Toy<8191>);
    add!("toy-1009", Toy<1009>, [2/1, 3/2, 4/3, 5/4, 6/5, 7/6, 8/7]);
    add!("toy-257", Toy<257>, [2/1, 3/2, 4/3, 5/4, 6/5, 7/6]);
    add!("toy-251", Toy<251>, [2/1, 3/2, 4/3, 5/4, 6/5, 7/6]);
    tiny!("toy-127", Toy<127>);
    tiny!("toy-31", Toy<31>);
    add!("toy-17", Toy<17>, [2/1, 3/2]);
    add!("wide-bn256-fr", bn256::Fr, [17/16, 24/23]);
    add!("wide-goldilocks", Toy<18446744069414584321>, [17/16, 33/32, 40/8]);
    add!("wide-2^31-1", Toy<2147483647>, [65/64, 130/1]);
    add!("huge-2^31-1", Toy<2147483647>, [257/256]);
    v
}

pub fn run(ctx: &Ctx) -> Mon {
    let mut jobs = jobs();
    // the costliest first
    jobs.sort_by_key(|j| !j.0.starts_with("huge") as u8 + !j.0.starts_with("wide") as u8);
    let rounds = if ctx.thorough { 60 } else { 3 };
    let next = std::sync::atomic::AtomicUsize::new(0);
    par(ctx.threads, |_| {
        let mut m = Mon::new();
        loop {
            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let Some((name, f)) = jobs.get(k) else { break };
            let mut rng = Rng::new(ctx.seed.wrapping_mul(7919) + 31 * k as u64);
            let toy = name.starts_with("toy");
            if name.starts_with("huge") {
                f(&mut m, name, Cfg { rf: 8, rp: 5, sel: 0, alpha: 5 });
                continue;
            }
            if name.starts_with("wide") {
                for (rf, rp, sel) in [(8, 21, 0), (2 * rng.range(1, 6), rng.range(0, 70), 1)] {
                    f(&mut m, name, Cfg { rf, rp, sel, alpha: 5 });
                }
                continue;
            }
            let n = if toy { rounds * 8 } else { rounds };
            // the standard shapes first
            for (rf, rp, sel) in [(8, 56, 0), (8, 57, 0), (8, 60, 0), (8, 56, 1), (8, 56, 2), (6, 22, 3)] {
                f(&mut m, name, Cfg { rf, rp, sel, alpha: 5 });
            }
            for i in 0..n {
                let rf = 2 * rng.range(1, 8);
                let rp = match rng.below(8) {
                    0 => 0,
                    1 => rng.range(1, 3),
                    2 => rng.range(100, 200),
                    _ => rng.range(4, 99),
                };
                let sel = match rng.below(4) {
                    0 | 1 => rng.range(0, 3),
                    2 => rng.range(0, 12),
                    _ => if toy { rng.range(0, 60) } else { 1 },
                };
                f(&mut m, name, Cfg { rf, rp, sel, alpha: 5 });
                if i % 12 == 5 {
                    // large round counts (the seed has ten bits for each)
                    let rf = 2 * rng.range(9, 511);
                    let rp = rng.range(200, 1023);
                    if toy || ctx.thorough || i == 5 {
                        f(&mut m, name, Cfg { rf, rp, sel: rng.range(0, 2), alpha: 5 });
                    }
                }
            }
        }
        m
    })
}
