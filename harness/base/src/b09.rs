//! B09: an online collision monitor. No reference hash is used: inputs are keyed by
//! the sequence of words a sponge must bind, and digests must be equal exactly when
//! the keys are.
use crate::cases::{bn, caps, message, show};
use crate::conv::{fe, l4};
use crate::Ctx;
use halo2curves::bn256::Fr;
use oracle::gen::Words;
use oracle::mon::{guard, par, Mon};
use oracle::{Params, Rng, L4};
use poseidon_base::hash::{Hashable, MessageHashable};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

/// What the digest must depend on: first word of the start state, padded blocks.
fn key(first: &L4, words: &[L4]) -> u128 {
    let mut v = words.to_vec();
    if v.len() % 2 == 1 {
        v.push([0; 4]);
    }
    let h = |salt: u64| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (salt, first, &v).hash(&mut h);
        h.finish()
    };
    (h(1) as u128) << 64 | h(2) as u128
}

#[derive(Default)]
struct Shard {
    by_digest: HashMap<L4, (u128, String)>,
    by_key: HashMap<u128, L4>,
}

struct Db(Vec<Mutex<Shard>>);
impl Db {
    fn see(&self, m: &mut Mon, kind: &str, k: u128, digest: L4, show: impl Fn() -> String) {
        m.seen(&k);
        m.count(kind, 1);
        {
            let mut s = self.0[(digest[0] % 64) as usize].lock().unwrap();
            match s.by_digest.get(&digest) {
                Some((k2, who)) if *k2 != k => {
                    let who = who.clone();
                    m.violation("collision", format!("{} and {} both give {}", show(), who, oracle::hex(&digest)));
                }
                Some(_) => m.count("same_transcript_same_digest", 1),
                None => {
                    s.by_digest.insert(digest, (k, show()));
                }
            }
        }
        let mut s = self.0[(k % 64) as usize].lock().unwrap();
        match s.by_key.get(&k) {
            Some(d) if *d != digest => {
                m.violation("unstable", format!("{} gave {} now and {} before for an input that must hash alike", show(), oracle::hex(&digest), oracle::hex(d)))
            }
            Some(_) => {}
            None => {
                s.by_key.insert(k, digest);
            }
        }
    }
}

fn h2(m: &mut Mon, db: &Db, s: &[L4; 3], kind: &str) {
    match guard(|| Fr::hash_with_domain([fe(&s[1]), fe(&s[2])], fe(&s[0]))) {
        Ok(d) => db.see(m, kind, key(&s[0], &s[1..]), l4(&d), || {
            format!("two-to-one(a={}, b={}, domain={})", oracle::hex(&s[1]), oracle::hex(&s[2]), oracle::hex(&s[0]))
        }),
        Err(p) => m.violation("panic", format!("two-to-one {}: {p}", show(s))),
    }
}
fn msg(m: &mut Mon, db: &Db, ps: &Params, w: &[L4], cap: Option<u128>, kind: &str) {
    let fm: Vec<Fr> = w.iter().map(fe).collect();
    let eff = cap.unwrap_or((w.len() as u128) << 64);
    let first = ps.f.dec(&ps.f.from_u128(eff));
    match guard(|| Fr::hash_msg(&fm, cap)) {
        Ok(d) => db.see(m, kind, key(&first, w), l4(&d), || format!("message({}, capacity {cap:?})", show(w))),
        Err(p) => m.violation("panic", format!("message {} capacity {cap:?}: {p}", show(w))),
    }
}

fn flip(f: &oracle::Fld, x: &L4, bit: usize) -> L4 {
    let mut y = *x;
    y[bit / 64] ^= 1 << (bit % 64);
    f.reduce(&y)
}

pub fn run(ctx: &Ctx) -> Mon {
    let ps = bn();
    let db = Db((0..64).map(|_| Mutex::new(Shard::default())).collect());
    let scale = if ctx.thorough { 12 } else { 1 };
    let mut m = par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let f = &ps.f;
        let mut rng = Rng::new(ctx.seed.wrapping_mul(5000011) + tid as u64);
        let mut w = Words::new(f);
        // every single-bit neighbour of base inputs of the two-to-one hash
        for _ in 0..6 * scale {
            let s = [w.word(&mut rng), w.word(&mut rng), w.word(&mut rng)];
            h2(&mut m, &db, &s, "base");
            for i in 0..3 {
                for bit in 0..256 {
                    let mut t = s;
                    t[i] = flip(f, &s[i], bit);
                    h2(&mut m, &db, &t, "bit_neighbour");
                }
                let mut t = s;
                t[i] = f.neg(&s[i]);
                h2(&mut m, &db, &t, "negated");
                for j in 0..3 {
                    let mut t = s;
                    t.swap(i, j);
                    h2(&mut m, &db, &t, "permuted");
                    // move a difference from one word to another
                    let d = w.word(&mut rng);
                    t[i] = f.add(&t[i], &d);
                    t[j] = f.sub(&t[j], &d);
                    h2(&mut m, &db, &t, "shifted");
                }
                let mut t = s;
                t[i] = [0; 4];
                h2(&mut m, &db, &t, "zeroed");
            }
        }
        // messages: bit neighbours of every word, capacity bits, structural edits
        for _ in 0..5 * scale {
            let len = rng.range(1, 7);
            let cap = caps(len, &mut rng);
            let base = message(&ps, &mut w, &mut rng, len, cap.unwrap_or((len as u128) << 64));
            msg(&mut m, &db, &ps, &base, cap, "base");
            msg(&mut m, &db, &ps, &base, None, "base");
            for i in 0..len {
                for bit in (0..256).step_by(if len > 3 { 3 } else { 1 }) {
                    let mut t = base.clone();
                    t[i] = flip(f, &base[i], bit);
                    msg(&mut m, &db, &ps, &t, cap, "bit_neighbour");
                }
                let mut t = base.clone();
                t[i] = [0; 4];
                msg(&mut m, &db, &ps, &t, cap, "zeroed");
            }
            let eff = cap.unwrap_or((len as u128) << 64);
            for bit in 0..128 {
                msg(&mut m, &db, &ps, &base, Some(eff ^ (1 << bit)), "capacity_bit");
            }
        }
        for _ in 0..250 * scale {
            let len = rng.range(1, 40);
            let cap = caps(len, &mut rng);
            let base = message(&ps, &mut w, &mut rng, len, cap.unwrap_or((len as u128) << 64));
            let caps2 = [None, cap, Some(0), Some(len as u128), Some((len as u128) << 64)];
            for c in caps2 {
                msg(&mut m, &db, &ps, &base, c, "base");
                // appended zero words, dropped and duplicated words, swaps, rotations
                let mut t = base.clone();
                t.push([0; 4]);
                msg(&mut m, &db, &ps, &t, c, "zero_appended");
                t.push([0; 4]);
                msg(&mut m, &db, &ps, &t, c, "zero_appended");
                let i = rng.below(len as u64) as usize;
                let j = rng.below(len as u64) as usize;
                let mut t = base.clone();
                t.swap(i, j);
                msg(&mut m, &db, &ps, &t, c, "swapped");
                let mut t = base.clone();
                t.insert(i, base[j]);
                msg(&mut m, &db, &ps, &t, c, "duplicated");
                if len > 1 {
                    let mut t = base.clone();
                    t.remove(i);
                    msg(&mut m, &db, &ps, &t, c, "dropped");
                    let mut t = base.clone();
                    t.rotate_left(1);
                    msg(&mut m, &db, &ps, &t, c, "rotated");
                    // swap whole blocks
                    if len >= 4 {
                        let b = rng.below(len as u64 / 2 - 1) as usize * 2;
                        let mut t = base.clone();
                        t.swap(b, b + 2);
                        t.swap(b + 1, b + 3);
                        msg(&mut m, &db, &ps, &t, c, "block_swapped");
                    }
                }
                let mut t = base.clone();
                t[i] = flip(f, &base[i], rng.below(256) as usize);
                msg(&mut m, &db, &ps, &t, c, "bit_neighbour");
                let mut t = base.clone();
                t.insert(0, [0; 4]);
                msg(&mut m, &db, &ps, &t, c, "zero_prepended");
            }
            // across the two kinds of hash
            let eff = cap.unwrap_or((len as u128) << 64);
            let first = f.dec(&f.from_u128(eff));
            let b = base.get(1).copied().unwrap_or([0; 4]);
            h2(&mut m, &db, &[first, base[0], b], "across_kinds");
            h2(&mut m, &db, &[[0; 4], base[0], b], "across_kinds");
        }
        // random inputs
        for _ in 0..4000 * scale {
            let s = [w.word(&mut rng), w.word(&mut rng), w.word(&mut rng)];
            h2(&mut m, &db, &s, "random");
        }
        m
    });
    // grids of small values: every (domain, a, b) below a bound, all distinct
    let g = if ctx.thorough { 40 } else { 24 };
    let mm = par(ctx.threads, |tid| {
        let mut m = Mon::new();
        for d in 0..g as u64 {
            if d as usize % ctx.threads == tid {
                for a in 0..g as u64 {
                    for b in 0..g as u64 {
                        h2(&mut m, &db, &[[d, 0, 0, 0], [a, 0, 0, 0], [b, 0, 0, 0]], "grid");
                    }
                }
            }
        }
        m
    });
    m.merge(mm);
    let n: usize = db.0.iter().map(|s| s.lock().unwrap().by_digest.len()).sum();
    m.count("distinct_digests", n as u64);
    m.sample(|| format!("{n} distinct digests seen, all from distinct inputs"));
    m
}
