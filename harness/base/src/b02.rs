//! B02: message hash against the reference sponge.
use crate::cases::{bn, caps, message, show};
use crate::conv::{fe, l4};
use crate::Ctx;
use halo2curves::bn256::Fr;
use oracle::gen::Words;
use oracle::mon::{guard, par, Mon};
use oracle::{Params, Rng, L4};
use poseidon_base::hash::MessageHashable;

pub fn default_cap(len: usize) -> u128 {
    if cfg!(feature = "legacy") {
        len as u128
    } else {
        (len as u128) << 64
    }
}

pub fn judge(m: &mut Mon, ps: &Params, msg: &[L4], cap: Option<u128>, entry: usize, tag: &str) {
    let eff = cap.unwrap_or(default_cap(msg.len()));
    let want = ps.hash_msg(msg, eff);
    let fm: Vec<Fr> = msg.iter().map(fe).collect();
    let got = guard(|| match entry {
        0 => Fr::hash_msg(&fm, cap),
        1 => Fr::msg_hasher().hash_with_cap(&fm, eff),
        _ => {
            let h = Fr::msg_hasher();
            let c = h.clone();
            let _ = h.hash_with_cap(&fm[..1], 7);
            c.hash_with_cap(&fm, eff)
        }
    });
    m.seen(&(msg, cap));
    m.count(["entry_hash_msg", "entry_hash_with_cap", "entry_clone"][entry], 1);
    m.count(&format!("cases_{tag}"), 1);
    m.count(if cap.is_none() { "cap_default" } else { "cap_given" }, 1);
    m.count("blocks", (msg.len() as u64 + 1) / 2);
    m.max("max_words", msg.len() as u64);
    match got {
        Ok(g) if l4(&g) == want => {}
        Ok(g) => m.violation(
            "message-digest",
            format!(
                "entry {entry} ({tag}): message of {} words {}, capacity {cap:?}: got {} expected {}",
                msg.len(), show(msg), oracle::hex(&l4(&g)), oracle::hex(&want)
            ),
        ),
        Err(p) => m.violation(
            "message-panic",
            format!("entry {entry} ({tag}): message of {} words {}, capacity {cap:?} panicked: {p}", msg.len(), show(msg)),
        ),
    }
}

pub fn run(ctx: &Ctx) -> Mon {
    let ps = bn();
    let maxlen = if ctx.thorough { 600 } else { 140 };
    let mut m = par(ctx.threads, |tid| {
        let mut m = Mon::new();
        let mut rng = Rng::new(ctx.seed.wrapping_mul(1000) + 100 + tid as u64);
        let mut w = Words::new(&ps.f);
        // every length, several contents and capacities
        for len in 1..=maxlen {
            if len % ctx.threads != tid {
                continue;
            }
            let n = if len < 40 { 60 } else { 14 };
            judge(&mut m, &ps, &vec![[0; 4]; len], None, 0, "zeros");
            for _ in 0..n {
                let cap = caps(len, &mut rng);
                let msg = message(&ps, &mut w, &mut rng, len, cap.unwrap_or(default_cap(len)));
                let e = rng.below(3) as usize;
                judge(&mut m, &ps, &msg, cap, e, "every_length");
            }
        }
        // every length beyond, once, and lengths drawn from a wide range
        for len in maxlen + 1..=if ctx.thorough { 4200 } else { 1100 } {
            if len % ctx.threads == tid {
                let msg = message(&ps, &mut w, &mut rng, len, default_cap(len));
                judge(&mut m, &ps, &msg, None, 0, "every_length_once");
            }
        }
        for _ in 0..if ctx.thorough { 40 } else { 4 } {
            let len = rng.range(1100, 20000);
            let cap = caps(len, &mut rng);
            let msg = message(&ps, &mut w, &mut rng, len, cap.unwrap_or(default_cap(len)));
            judge(&mut m, &ps, &msg, cap, rng.below(2) as usize, "drawn_length");
        }
        // short messages, many
        let n = if ctx.thorough { 60000 } else { 4500 };
        for _ in 0..n {
            let len = rng.range(1, 6);
            let cap = caps(len, &mut rng);
            let msg = message(&ps, &mut w, &mut rng, len, cap.unwrap_or(default_cap(len)));
            judge(&mut m, &ps, &msg, cap, rng.below(3) as usize, "short");
        }
        // growing prefixes and one-word edits of one message
        for _ in 0..if ctx.thorough { 40 } else { 6 } {
            let len = rng.range(4, 24);
            let mut msg = message(&ps, &mut w, &mut rng, len, default_cap(len));
            for k in 1..=len {
                judge(&mut m, &ps, &msg[..k], None, 0, "prefix");
                judge(&mut m, &ps, &msg[len - k..], None, 0, "suffix");
            }
            for _ in 0..16 {
                let i = rng.below(len as u64) as usize;
                let old = msg[i];
                msg[i] = w.word(&mut rng);
                judge(&mut m, &ps, &msg, None, 0, "edit");
                msg[i] = old;
                judge(&mut m, &ps, &msg, None, 0, "edit");
            }
            // trailing zeros
            for _ in 0..4 {
                msg.push([0; 4]);
                judge(&mut m, &ps, &msg, None, 0, "zero_tail");
                judge(&mut m, &ps, &msg, Some(5), 0, "zero_tail");
            }
        }
        // all capacities that are a single bit, or all ones below a bit
        for b in 0..128 {
            if b % ctx.threads == tid {
                for c in [1u128 << b, (1u128 << b).wrapping_sub(1), u128::MAX << b] {
                    let len = rng.range(1, 5);
                    let msg = message(&ps, &mut w, &mut rng, len, c);
                    judge(&mut m, &ps, &msg, Some(c), rng.below(3) as usize, "capacity_bits");
                }
            }
        }
        // lengths and capacities found in the sources
        for (i, len) in oracle::gen::dict_lens(70000).into_iter().enumerate() {
            if i % ctx.threads == tid {
                for k in 0..if len < 3000 { 3 } else { 1 } {
                    let cap = if k == 1 { caps(len, &mut rng) } else { None };
                    let msg = message(&ps, &mut w, &mut rng, len, cap.unwrap_or(default_cap(len)));
                    judge(&mut m, &ps, &msg, cap, k % 2, "dictionary");
                }
            }
        }
        for (i, c) in oracle::gen::dict_ints().into_iter().enumerate() {
            if i % ctx.threads == tid {
                let len = rng.range(1, 4);
                let msg = message(&ps, &mut w, &mut rng, len, c);
                judge(&mut m, &ps, &msg, Some(c), rng.below(3) as usize, "dictionary");
            }
        }
        for (i, x) in w.dict.clone().into_iter().enumerate() {
            if i % ctx.threads == tid {
                let len = rng.range(1, 5);
                let mut msg = message(&ps, &mut w, &mut rng, len, 0);
                msg[rng.below(len as u64) as usize] = x;
                judge(&mut m, &ps, &msg, None, 0, "dictionary");
            }
        }
        // long messages around powers of two
        let long: &[usize] = if ctx.thorough {
            &[255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 8191, 8192,
              16384, 32767, 32768, 65535, 65536, 65537, 131072, 131073, 262145, 1048577]
        } else {
            &[254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
              5001, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537]
        };
        for (i, len) in long.iter().enumerate() {
            if i % ctx.threads == tid {
                let msg = message(&ps, &mut w, &mut rng, *len, default_cap(*len));
                judge(&mut m, &ps, &msg, None, 0, "long");
                if *len <= 5000 {
                    judge(&mut m, &ps, &msg, Some(rng.u128()), 1, "long");
                }
            }
        }
        m
    });
    m.sample(|| {
        format!("hash_msg([1], None) = {}", oracle::hex(&ps.hash_msg(&[[1, 0, 0, 0]], default_cap(1))))
    });
    m
}
