//! The observing side: counts, distinct cases, samples, violations, panics, hangs.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

#[derive(Default)]
pub struct Mon {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub viol: Vec<(String, String)>,
    pub nviol: u64,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Mon {
    pub fn new() -> Self {
        Self::default()
    }
    /// One judged observation; `case` identifies it.
    pub fn seen<T: Hash>(&mut self, case: &T) {
        self.evals += 1;
        self.distinct.insert(h64(case));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            self.samples.push(f());
        }
    }
    /// `key` names the kind of failure (and, for known findings, the exact site).
    pub fn violation(&mut self, key: &str, detail: String) {
        self.nviol += 1;
        let same = self.viol.iter().filter(|(k, _)| k == key).count();
        if same < 3 && self.viol.len() < 60 {
            self.viol.push((key.to_string(), detail));
        }
    }
    pub fn merge(&mut self, o: Mon) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.counters {
            if k.starts_with("max_") {
                let e = self.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_insert(0) += v;
            }
        }
        self.nviol += o.nviol;
        for (k, d) in o.viol {
            let same = self.viol.iter().filter(|(x, _)| *x == k).count();
            if same < 3 && self.viol.len() < 60 {
                self.viol.push((k, d));
            }
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        o += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},", self.evals, self.distinct.len());
        o += "\"samples\":[";
        o += &self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        o += "],\"counters\":{";
        o += &self
            .counters
            .iter()
            .map(|(k, v)| format!("{}:{}", esc(k), v))
            .collect::<Vec<_>>()
            .join(",");
        o += &format!("}},\"nviol\":{},\"violations\":[", self.nviol);
        o += &self
            .viol
            .iter()
            .map(|(k, d)| format!("{{\"key\":{},\"detail\":{}}}", esc(k), esc(d)))
            .collect::<Vec<_>>()
            .join(",");
        o += "]}";
        o
    }
    /// Write the result file and return the exit code.
    pub fn finish(&self, out: &str) -> i32 {
        std::fs::write(out, self.json()).unwrap();
        (self.nviol > 0) as i32
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static SLOT: Arc<AtomicU64> = {
        let a = Arc::new(AtomicU64::new(0));
        slots().lock().unwrap().push(a.clone());
        a
    };
}
fn slots() -> &'static Mutex<Vec<Arc<AtomicU64>>> {
    static S: OnceLock<Mutex<Vec<Arc<AtomicU64>>>> = OnceLock::new();
    S.get_or_init(Default::default)
}
fn t0() -> Instant {
    static T: OnceLock<Instant> = OnceLock::new();
    *T.get_or_init(Instant::now)
}
fn now_ms() -> u64 {
    t0().elapsed().as_millis() as u64 + 1
}

/// Silence panics (they are observed by `guard`) and watch for calls that do not
/// return: after `limit_s` in one call the process reports and exits 3.
pub fn install(limit_s: u64) {
    t0();
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let n = now_ms();
        for s in slots().lock().unwrap().iter() {
            let v = s.load(Ordering::Relaxed);
            if v != 0 && n > v + limit_s * 1000 {
                println!("HANG: a call into the code under test did not return in {limit_s} s");
                std::process::exit(3);
            }
        }
    });
}

/// Run code under test: a panic becomes an observation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    SLOT.with(|s| s.store(now_ms(), Ordering::Relaxed));
    let r = catch_unwind(AssertUnwindSafe(f));
    SLOT.with(|s| s.store(0, Ordering::Relaxed));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Run `n` workers and merge what they saw. A panic of a worker outside `guard` is
/// an error of the harness and is passed on.
pub fn par(n: usize, f: impl Fn(usize) -> Mon + Sync) -> Mon {
    let mut m = Mon::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || f(i))
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(x) => m.merge(x),
                Err(_) => {
                    println!("HARNESS-ERROR: worker panicked: {}", PANIC.with(|p| p.borrow().clone()));
                    std::process::exit(2);
                }
            }
        }
    });
    m
}

pub struct Args(pub BTreeMap<String, String>, pub Vec<String>);
impl Args {
    pub fn parse() -> Self {
        let mut m = BTreeMap::new();
        let mut pos = vec![];
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                pos.push(a);
            }
        }
        Args(m, pos)
    }
    pub fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
    pub fn u64(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|v| v.parse().unwrap()).unwrap_or(d)
    }
}
