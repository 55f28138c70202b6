//! B06: generic sponge hashing and domain definitions at many widths and rates.
use crate::conv::{fe, l4};
use crate::spec::{modulus, set, tables, Cfg, Dyn};
use crate::toy::Toy;
use crate::Ctx;
use halo2curves::ff::FromUniformBytes;
use oracle::gen::Words;
use oracle::mon::{guard, par, Mon};
use oracle::{Fld, Params, Rng, L4};
use poseidon_base::primitives::{
    permute, ConstantLength, ConstantLengthIden3, Domain, Hash, VariableLengthIden3,
};

struct Env<'a> {
    m: &'a mut Mon,
    rng: &'a mut Rng,
    w: &'a mut Words,
    ps: &'a Params,
    name: &'a str,
    heavy: usize,
    /// messages of tens of thousands of words too
    long: bool,
}

fn cmp<F: FromUniformBytes<64>>(e: &mut Env, what: &str, msg: &[L4], got: Result<F, String>, want: &L4) {
    e.m.seen(&(e.name, what, msg));
    e.m.count(what.split(' ').next().unwrap(), 1);
    match got {
        Ok(g) if l4(&g) == *want => {}
        Ok(g) => e.m.violation(
            "generic-digest",
            format!(
                "field {}, {what}, rounds {}+{}, x^{}: message {} gives {} expected {}",
                e.name, e.ps.rf, e.ps.rp, e.ps.alpha, crate::cases::show(msg), oracle::hex(&l4(&g)), oracle::hex(want)
            ),
        ),
        Err(p) => e.m.violation("generic-panic", format!("field {}, {what}: {p}", e.name)),
    }
}

fn cl<F: FromUniformBytes<64> + Ord, const T: usize, const R: usize, const L: usize>(e: &mut Env) {
    let f = e.ps.f.clone();
    let capw = {
        let c = (oracle::num_bigint::BigUint::from(L as u64) << 64usize) % &f.pbig;
        oracle::to_l4(&c)
    };
    if L > 2000 && !e.long {
        return;
    }
    for _ in 0..if L > 2000 { 1 } else { e.heavy } {
        let msg: Vec<L4> = (0..L).map(|_| e.w.word(e.rng)).collect();
        let fm: [F; L] = msg.iter().map(fe).collect::<Vec<F>>().try_into().unwrap();
        let want = e.ps.sponge(R, R, 0, &capw, &msg)[0];
        let got = guard(|| Hash::<F, Dyn, ConstantLength<L>, T, R>::init().hash(fm));
        cmp(e, &format!("constant-length width {T} rate {R} length {L}"), &msg, got, &want);
        let d = e.w.word(e.rng);
        let want = e.ps.sponge(R, 0, T - R, &d, &msg)[0];
        let got = guard(|| Hash::<F, Dyn, ConstantLengthIden3<L>, T, R>::init().hash(fm, fe(&d)));
        cmp(e, &format!("iden3 width {T} rate {R} length {L}"), &msg, got, &want);
    }
    defs::<F, T, R, L>(e, &capw);
}

/// What the constant-length domains say about themselves.
fn defs<F: FromUniformBytes<64> + Ord, const T: usize, const R: usize, const L: usize>(e: &mut Env, capw: &L4) {
    let k = (R - L % R) % R;
    let def = guard(|| {
        let a = l4(&<ConstantLength<L> as Domain<F, R>>::initial_capacity_element()) == *capw;
        let b = <ConstantLengthIden3<L> as Domain<F, R>>::initial_capacity_element() == F::ZERO;
        let pa: Vec<F> = <ConstantLength<L> as Domain<F, R>>::padding(L).into_iter().collect();
        let pb: Vec<F> = <ConstantLengthIden3<L> as Domain<F, R>>::padding(L).into_iter().collect();
        let c = pa == vec![F::ZERO; k] && pb == vec![F::ZERO; k];
        let d = <ConstantLength<L> as Domain<F, R>>::layout(T) == 0
            && <ConstantLengthIden3<L> as Domain<F, R>>::layout(T) == T - R;
        (a, b, c, d)
    });
    e.m.seen(&("definition", e.name, T, R, L));
    e.m.count("domain_definitions", 1);
    if def != Ok((true, true, true, true)) {
        e.m.violation(
            "domain-definition",
            format!("field {}, width {T}, rate {R}, length {L}: (capacity, iden3 capacity, padding, layout) as defined? {def:?}", e.name),
        );
    }
}

/// Lengths no message of which could be held in memory still have a capacity word,
/// a padding and a layout.
fn huge<F: FromUniformBytes<64> + Ord, const T: usize, const R: usize, const L: usize>(e: &mut Env) {
    let c = (oracle::num_bigint::BigUint::from(L as u64) << 64usize) % &e.ps.f.pbig;
    defs::<F, T, R, L>(e, &oracle::to_l4(&c));
}

fn var<F: FromUniformBytes<64> + Ord, const T: usize, const R: usize>(e: &mut Env) {
    let f = e.ps.f.clone();
    let big = [255usize, 256, 65535, 65537, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 40) + 3, (1 << 63) - 1, 1 << 63];
    for n in (0..40usize).chain(big) {
        let pad = guard(|| <VariableLengthIden3 as Domain<F, R>>::padding(n).into_iter().collect::<Vec<F>>());
        e.m.seen(&("var-padding", e.name, T, R, n));
        let k = (R - n % R) % R;
        if pad != Ok(vec![F::ZERO; k]) {
            e.m.violation("domain-definition", format!("variable-length padding of {n} words at rate {R}: {pad:?}, expected {k} zeros"));
        }
    }
    let lay = guard(|| {
        (
            <VariableLengthIden3 as Domain<F, R>>::layout(T),
            <VariableLengthIden3 as Domain<F, R>>::initial_capacity_element() == F::ZERO,
        )
    });
    if lay != Ok((T - R, true)) {
        e.m.violation("domain-definition", format!("variable-length layout/capacity at width {T} rate {R}: {lay:?}"));
    }
    let mut lens: Vec<usize> = (1..=3 * R + 2).collect();
    lens.push(e.rng.range(20, 70));
    lens.push(*e.rng.pick(&[127, 128, 255, 256, 257, 511, 1000, 1024]));
    if e.long && T == 3 && e.name == "toy-2^31-1" {
        lens.push(*e.rng.pick(&[4095, 4097, 65535, 65536, 65537, 70001]));
    }
    for n in lens {
        for _ in 0..if n > 2000 { 1 } else { e.heavy } {
            let msg: Vec<L4> = (0..n).map(|_| e.w.word(e.rng)).collect();
            let fm: Vec<F> = msg.iter().map(fe).collect();
            let cap = match e.rng.below(5) {
                0 => 0,
                1 => n as u128,
                2 => (n as u128) << 64,
                3 => u128::MAX,
                _ => e.rng.u128(),
            };
            let cw = f.dec(&f.from_u128(cap));
            let want = e.ps.sponge(R, 0, T - R, &cw, &msg)[0];
            let got = guard(|| Hash::<F, Dyn, VariableLengthIden3, T, R>::init().hash_with_cap(&fm, cap));
            cmp(e, &format!("variable-length width {T} rate {R} length {n}"), &msg, got, &want);
        }
    }
    // the bare permutation and the object's
    for _ in 0..4 * e.heavy {
        let s: Vec<L4> = (0..T).map(|_| e.w.word(e.rng)).collect();
        let mut want: Vec<L4> = s.iter().map(|x| f.enc(x)).collect();
        e.ps.permute(&mut want);
        let want: Vec<L4> = want.iter().map(|x| f.dec(x)).collect();
        let mk = || -> [F; T] { s.iter().map(fe).collect::<Vec<F>>().try_into().unwrap() };
        let (mut a, mut b) = (mk(), mk());
        let r = guard(|| {
            use poseidon_base::primitives::CachedSpec;
            permute::<F, Dyn, T, R>(
                &mut a,
                <Dyn as CachedSpec<F, T, R>>::cached_mds(),
                <Dyn as CachedSpec<F, T, R>>::cached_round_constants(),
            );
            Hash::<F, Dyn, ConstantLength<1>, T, R>::init().permute(&mut b);
        });
        e.m.seen(&("permute", e.name, T, R, &s));
        e.m.count("permute", 2);
        let ok = r.is_ok()
            && a.iter().map(l4).collect::<Vec<_>>() == want
            && b.iter().map(l4).collect::<Vec<_>>() == want;
        if !ok {
            e.m.violation(
                "generic-permutation",
                format!("field {}, width {T}, rate {R}, rounds {}+{}, x^{}: permutation of {} is {:?} / {:?} (panic: {:?})",
                    e.name, e.ps.rf, e.ps.rp, e.ps.alpha, crate::cases::show(&s), a, b, r.err()),
            );
        }
    }
}

type Cl = fn(&mut Env);

fn all<F: FromUniformBytes<64> + Ord, const T: usize, const R: usize>(ctx: &Ctx, name: &str, tid: usize, cls: &[Cl]) -> Mon {
    let mut m = Mon::new();
    let p = modulus::<F>();
    let f = Fld::new(&p);
    let mut rng = Rng::new(ctx.seed.wrapping_mul(104729) + tid as u64 * 77 + (T * 31 + R) as u64);
    let mut w = Words::new(&f);
    let rounds = if T > 12 { 2 } else { 4 } * if ctx.thorough { 6 } else { 1 };
    for k in 0..rounds {
        let rf = 2 * rng.range(1, 4);
        let rp = if k == 0 { 0 } else { rng.range(0, 12) };
        let alpha = *rng.pick(&[5u64, 5, 3, 7, 2]);
        let ps = if k == 1 {
            match Params::generate(&p, T, 8, 9, 0) {
                Some(p) => p,
                None => continue,
            }
        } else {
            let mut mat = |a: usize, b: usize| -> Vec<Vec<L4>> {
                (0..a).map(|_| (0..b).map(|_| f.enc(&w.word(&mut rng))).collect()).collect()
            };
            let rc = mat(rf + rp, T);
            let mds = mat(T, T);
            Params::custom(&f, T, rf, rp, alpha, rc, mds)
        };
        set(Cfg { rf: ps.rf, rp: ps.rp, sel: 0, alpha: ps.alpha });
        tables::<F, T>(&ps);
        let heavy = if T > 12 { 1 } else if ctx.thorough { 6 } else { 3 };
        let mut e = Env { m: &mut m, rng: &mut rng, w: &mut w, ps: &ps, name, heavy, long: k % 8 == 0 };
        for c in cls {
            c(&mut e);
        }
        var::<F, T, R>(&mut e);
    }
    m
}

/// Variable-length hashing of every length up to a few hundred words and of lengths
/// the sources mention, over a small field.
fn dense<F: FromUniformBytes<64> + Ord, const T: usize, const R: usize>(ctx: &Ctx, name: &str, tid: usize, _: &[Cl]) -> Mon {
    let mut m = Mon::new();
    let f = Fld::new(&modulus::<F>());
    let mut rng = Rng::new(ctx.seed.wrapping_mul(15485863) + tid as u64);
    let mut w = Words::new(&f);
    let mut mat = |a: usize, b: usize| -> Vec<Vec<L4>> { (0..a).map(|_| (0..b).map(|_| f.enc(&w.word(&mut rng))).collect()).collect() };
    let (rc, mds) = (mat(4, T), mat(T, T));
    let ps = Params::custom(&f, T, 2, 2, 5, rc, mds);
    set(Cfg { rf: 2, rp: 2, sel: 0, alpha: 5 });
    tables::<F, T>(&ps);
    let mut lens: Vec<usize> = (1..=if ctx.thorough { 3000 } else { 700 }).collect();
    lens.extend(oracle::gen::dict_lens(70000));
    let ints = oracle::gen::dict_ints();
    for n in lens {
        let msg: Vec<L4> = (0..n).map(|_| w.word(&mut rng)).collect();
        let fm: Vec<F> = msg.iter().map(fe).collect();
        let cap = match rng.below(4) {
            0 => 0,
            1 => (n as u128) << 64,
            2 if !ints.is_empty() => *rng.pick(&ints),
            _ => rng.u128(),
        };
        let want = ps.sponge(R, 0, T - R, &f.dec(&f.from_u128(cap)), &msg)[0];
        let got = guard(|| Hash::<F, Dyn, VariableLengthIden3, T, R>::init().hash_with_cap(&fm, cap));
        let mut e = Env { m: &mut m, rng: &mut rng, w: &mut w, ps: &ps, name, heavy: 1, long: false };
        cmp(&mut e, &format!("variable-length width {T} rate {R} length {n} (dense)"), &msg, got, &want);
    }
    m
}

type Job = (&'static str, fn(&Ctx, &str, usize, &[Cl]) -> Mon, Vec<Cl>);

pub fn run(ctx: &Ctx) -> Mon {
    let mut v: Vec<Job> = vec![];
    // lengths per (field, width, rate): below, at and above the rate, several blocks
    macro_rules! add {
        ($n:expr, $f:ty, $t:literal/$r:literal, [$($l:literal),*]) => {
            v.push(($n, all::<$f, $t, $r>, vec![$( cl::<$f, $t, $r, $l> ),*]));
        };
    }
    use halo2curves::{bn256, pasta};
    type Gold = Toy<18446744069414584321>;
    type T257 = Toy<257>;
    type T31 = Toy<31>;
    add!("toy-2^31-1", Toy<2147483647>, 3/2, [11, 12, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 32]);
    add!("toy-2^31-1", Toy<2147483647>, 3/2, [33, 34, 35, 36, 40, 47, 48, 49, 50, 62, 63, 65, 66, 80, 96, 99, 100, 101, 120]);
    add!("toy-2^31-1", Toy<2147483647>, 3/2, [124, 126, 127, 128, 129, 160, 191, 192, 200, 250, 254, 258, 320, 384, 400, 500, 511, 512, 513]);
    add!("toy-2^31-1", Toy<2147483647>, 3/2, [640, 768, 777, 999, 1000, 1001, 1023, 1024, 1111, 1234, 1280, 1337, 1500, 1536, 2000]);
    add!("bn256-fr", bn256::Fr, 3/2, [255, 256, 257, 300]);
    add!("toy-2^31-1", Toy<2147483647>, 3/2, [256, 1025, 65535, 65536, 65537]);
    add!("toy-2^31-1", Toy<2147483647>, 17/16, [15, 16, 17, 31, 256]);
    add!("toy-2^31-1", Toy<2147483647>, 40/33, [32, 33, 34, 300]);
    add!("bn256-fr", bn256::Fr, 3/2, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 31, 64]);
    add!("bn256-fr", bn256::Fr, 2/1, [1, 2, 3, 9]);
    add!("bn256-fr", bn256::Fr, 3/1, [1, 2, 4]);
    add!("bn256-fr", bn256::Fr, 4/3, [1, 2, 3, 4, 5, 6, 7, 11]);
    add!("bn256-fr", bn256::Fr, 5/2, [1, 2, 3]);
    add!("bn256-fr", bn256::Fr, 5/4, [1, 3, 4, 5, 8, 9]);
    add!("bn256-fr", bn256::Fr, 9/8, [1, 7, 8, 9, 17]);
    add!("pallas-fp", pasta::Fp, 3/2, [1, 2, 3, 4, 7]);
    add!("pallas-fp", pasta::Fp, 5/4, [2, 4, 5]);
    add!("toy-goldilocks", Gold, 3/2, [1, 2, 3, 4, 5, 12, 33]);
    add!("toy-goldilocks", Gold, 2/1, [1, 2, 5]);
    add!("toy-goldilocks", Gold, 4/1, [1, 2, 3]);
    add!("toy-goldilocks", Gold, 4/2, [1, 2, 3, 6]);
    add!("toy-goldilocks", Gold, 8/4, [1, 3, 4, 5, 10]);
    add!("toy-goldilocks", Gold, 8/7, [1, 6, 7, 8, 15]);
    add!("toy-goldilocks", Gold, 12/8, [1, 7, 8, 9, 16]);
    add!("toy-goldilocks", Gold, 12/11, [10, 11, 12, 23]);
    add!("toy-257", T257, 3/2, [1, 2, 3, 4, 15]);
    add!("toy-257", T257, 4/3, [1, 2, 3, 4, 10]);
    add!("toy-257", T257, 5/3, [2, 3, 5]);
    add!("toy-257", T257, 8/5, [4, 5, 6, 11]);
    add!("toy-31", T31, 2/1, [1, 4]);
    add!("toy-31", T31, 3/2, [1, 2, 3, 17]);
    add!("toy-31", T31, 5/4, [3, 4, 9]);
    macro_rules! wide {
        ($n:expr, $f:ty, $t:literal/$r:literal, [$($l:literal),*]) => {
            v.push(($n, all::<$f, $t, $r>, vec![$( huge::<$f, $t, $r, $l> ),*]));
        };
    }
    wide!("bn256-fr", bn256::Fr, 3/2, [0xffff, 0x10000, 0x10001, 0xfffff, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001,
        0x1234567890, 0x1fffffffffffff, 0x20000000000001, 0x7fffffffffffffff, 0x8000000000000000]);
    wide!("pallas-fp", pasta::Fp, 4/3, [0x10000, 0xffffffff, 0x100000000, 0x100000003, 0x123456789abcdef]);
    wide!("toy-goldilocks", Gold, 8/5, [0x10000, 0xffffffff, 0x100000000, 0x100000003, 0x123456789abcdef]);
    wide!("toy-257", T257, 3/2, [0x10001, 0xffffffff, 0x100000001, 0x123456789abcdef]);
    v.push(("toy-2^31-1", dense::<Toy<2147483647>, 2, 1>, vec![]));
    v.push(("toy-2^31-1", dense::<Toy<2147483647>, 3, 2>, vec![]));
    v.push(("toy-2^31-1", dense::<Toy<2147483647>, 4, 3>, vec![]));
    v.push(("toy-2^31-1", dense::<Toy<2147483647>, 9, 8>, vec![]));
    v.push(("toy-goldilocks", dense::<Gold, 6, 4>, vec![]));
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut m = par(ctx.threads, |_| {
        let mut m = Mon::new();
        loop {
            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let Some((n, f, cls)) = v.get(k) else { break };
            m.merge(f(ctx, n, k, cls));
        }
        m
    });
    m.sample(|| format!("{} (field, width, rate) combinations, {} fixed lengths x 2 domains", v.len(), v.iter().map(|x| x.2.len()).sum::<usize>()));
    m
}
