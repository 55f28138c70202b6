//! B01: two-to-one hash against the reference, for every input and domain.
use crate::cases::{bn, show, Steer};
use crate::conv::{fe, l4};
use crate::Ctx;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use oracle::gen::Words;
use oracle::mon::{guard, par, Mon};
use oracle::{Params, Rng, L4};
use poseidon_base::hash::Hashable;

pub fn judge(m: &mut Mon, ps: &Params, a: &L4, b: &L4, d: &L4, entry: usize, tag: &str) {
    let want = ps.hash2(a, b, d);
    let (fa, fb, fd): (Fr, Fr, Fr) = (fe(a), fe(b), fe(d));
    let mut es = vec![entry];
    if *d == [0; 4] {
        es.push(3);
    }
    for e in es {
        let got = guard(|| match e {
            0 => Fr::hash_with_domain([fa, fb], fd),
            1 => <Fr as Hashable>::hasher().hash([fa, fb], fd),
            2 => {
                let h = <Fr as Hashable>::hasher();
                let c = h.clone();
                drop(h);
                c.hash([fa, fb], fd)
            }
            _ => <Fr as Hashable>::hash([fa, fb]),
        });
        m.seen(&(a, b, d));
        m.count(["entry_hash_with_domain", "entry_hasher", "entry_clone", "entry_hash"][e], 1);
        m.count(&format!("cases_{tag}"), 1);
        match got {
            Ok(g) if l4(&g) == want => {}
            Ok(g) => m.violation(
                "two-to-one-digest",
                format!(
                    "entry {e} ({tag}): hash(a={}, b={}, domain={}) = {} but standard Poseidon gives {}",
                    oracle::hex(a), oracle::hex(b), oracle::hex(d), oracle::hex(&l4(&g)), oracle::hex(&want)
                ),
            ),
            Err(p) => m.violation(
                "two-to-one-panic",
                format!("entry {e} ({tag}): hash of {} panicked: {p}", show(&[*a, *b, *d])),
            ),
        }
    }
}

pub fn run(ctx: &Ctx) -> Mon {
    let ps = bn();
    let scale = if ctx.thorough { 14 } else { 1 };
    let mut m = par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(1000) + tid as u64 + 1);
        let mut w = Words::new(&ps.f);
        let st = Steer::new(&ps);
        let edges = w.edges.clone();
        // 1. every ordered pair of edge values, domains rotating through the edges
        let mut k = 0usize;
        for a in &edges {
            for b in &edges {
                k += 1;
                if k % ctx.threads == tid {
                    let d = if k % 3 == 0 { [0; 4] } else { *rng.pick(&edges) };
                    judge(&mut m, &ps, a, b, &d, rng.below(3) as usize, "edge_pairs");
                }
            }
        }
        // every edge as a domain
        for (i, d) in edges.iter().enumerate() {
            if i % ctx.threads == tid {
                for _ in 0..8 {
                    let (a, b) = (w.word(&mut rng), w.word(&mut rng));
                    judge(&mut m, &ps, &a, &b, d, rng.below(3) as usize, "edge_domains");
                }
            }
        }
        // values found in the sources: alone in each place, doubled, in pairs
        let dw = w.dict.clone();
        for (i, x) in dw.iter().enumerate() {
            if i % ctx.threads != tid {
                continue;
            }
            let (a, b) = (w.word(&mut rng), w.word(&mut rng));
            let y = *rng.pick(&dw);
            let z = [0u64; 4];
            for (p, q, d) in [(*x, b, z), (a, *x, z), (a, b, *x), (*x, *x, z), (*x, a, b), (*x, *x, *x), (*x, y, z), (y, a, *x)] {
                judge(&mut m, &ps, &p, &q, &d, rng.below(3) as usize, "dictionary");
            }
        }
        // small grid
        for i in 0..24u64 {
            for j in 0..24u64 {
                if (i * 24 + j) as usize % ctx.threads == tid {
                    for d in [[0, 0, 0, 0], [rng.below(1024), 0, 0, 0]] {
                        judge(&mut m, &ps, &[i, 0, 0, 0], &[j, 0, 0, 0], &d, 0, "small_grid");
                    }
                }
            }
        }
        // 2. steered inner states
        for _ in 0..2500 * scale {
            let (s, _, _) = st.random(&mut w, &mut rng);
            judge(&mut m, &ps, &s[1], &s[2], &s[0], rng.below(3) as usize, "steered");
        }
        // 3. neighbour walks: the same values again in other combinations
        for _ in 0..700 * scale {
            let (a, b, d) = (w.word(&mut rng), w.word(&mut rng), w.word(&mut rng));
            let f = &ps.f;
            let flip = |x: &L4, rng: &mut Rng| {
                let mut y = *x;
                let bit = rng.below(256) as usize;
                y[bit / 64] ^= 1 << (bit % 64);
                f.reduce(&y)
            };
            let z = [0u64; 4];
            let seq = [
                (a, b, d), (b, a, d), (a, b, z), (a, a, d), (b, b, d), (d, a, b), (a, d, b),
                (a, f.neg(&a), d), (z, a, b), (a, z, b), (z, z, a), (flip(&a, &mut rng), b, d),
                (a, flip(&b, &mut rng), d), (a, b, flip(&d, &mut rng)), (f.add(&a, &b), z, d),
                (a, b, [rng.below(300), 0, 0, 0]), (a, b, [0, rng.below(300), 0, 0]), (a, b, d),
            ];
            for (x, y, e) in seq {
                judge(&mut m, &ps, &x, &y, &e, rng.below(3) as usize, "neighbours");
            }
        }
        // 4. random words, small pools (recurring values), long history in one process
        for _ in 0..9000 * scale {
            let (a, b) = (w.word(&mut rng), w.word(&mut rng));
            let d = if rng.chance(1, 3) { [0; 4] } else { w.word(&mut rng) };
            judge(&mut m, &ps, &a, &b, &d, rng.below(3) as usize, "random");
        }
        // 5. chains (Merkle path style)
        let mut cur = w.word(&mut rng);
        for i in 0..1500 * scale {
            let sib = w.word(&mut rng);
            let (a, b) = if rng.chance(1, 2) { (cur, sib) } else { (sib, cur) };
            let d = [(i % 512) as u64, 0, 0, 0];
            judge(&mut m, &ps, &a, &b, &d, 0, "chain");
            cur = ps.hash2(&a, &b, &d);
        }
        m
    });
    // published vectors
    for (a, b, s) in [
        (1u64, 2u64, "7853200120776062878684798364095072458815029376092732009249414926327459813530"),
        (0, 0, "14744269619966411208579211824598458697587494354926760081771325075741142829156"),
    ] {
        let got = guard(|| Fr::hash_with_domain([Fr::from(a), Fr::from(b)], Fr::ZERO));
        m.seen(&("published", a, b));
        m.count("published_vectors", 1);
        let ok = matches!(&got, Ok(g) if oracle::from_l4(&l4(g)).to_string() == s);
        if !ok {
            m.violation("published-vector", format!("poseidon({a},{b}) = {got:?}, published {s}"));
        }
    }
    m.sample(|| {
        let h = ps.hash2(&[1, 0, 0, 0], &[2, 0, 0, 0], &[256, 0, 0, 0]);
        format!("hash(1,2; domain 256) = {}", oracle::hex(&h))
    });
    m
}
