//! Shared parts of the concrete searches (layer B): deterministic random numbers, result collection.
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub evals: u64,
    seen: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub fails: BTreeMap<String, (String, u64)>,
    pub rules: Vec<String>,
}

impl Ctx {
    pub fn rng(&self, stream: u64) -> Rng { let mut r = Rng(self.seed.wrapping_mul(0xD1B54A32D192ED03) ^ stream.wrapping_mul(0x2545F4914F6CDD1D)); r.next(); r }
    pub fn rule(&mut self, s: &str) { self.rules.push(s.to_string()); }
    /// counts one executed case; `case` is only used to count distinct ones and for samples
    pub fn eval(&mut self, case: &str) {
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        case.hash(&mut h);
        if self.seen.len() < 4_000_000 { self.seen.insert(h.finish()); }
        let k = self.evals;
        if self.samples.len() < 6 && (k == 1 || k == 7 || k == 50 || k == 400 || k == 3000 || k == 20000) {
            self.samples.push(case.chars().take(600).collect());
        }
    }
    /// `key` names the kind of failure (stable between runs), `detail` the failing input
    pub fn fail(&mut self, key: &str, detail: String) {
        let e = self.fails.entry(key.to_string()).or_insert((detail, 0));
        e.1 += 1;
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok { let d = detail(); self.fail(key, d); }
        ok
    }
    pub fn time_up(&self) -> bool { Instant::now() > self.deadline }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    /// runs f, a panic is a failure under `key`
    pub fn guarded<R>(&mut self, key: &str, case: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.fail(key, format!("panicked ({}) on: {}", m, case()));
                None
            }
        }
    }
}

fn js(s: &str) -> String { serde_json::to_string(s).unwrap() }

pub fn drive(id: &str, f: fn(&mut Ctx)) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let budget = std::env::var("VX_BUDGET").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(120);
    if std::env::var("VX_BT").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut c = Ctx { seed, thorough, deadline: Instant::now() + Duration::from_secs(budget), evals: 0, seen: BTreeSet::new(), samples: vec![], fails: BTreeMap::new(), rules: vec![] };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    let broke = r.is_err();
    let fails: Vec<String> = c.fails.iter().map(|(k, (d, n))| format!("{{\"key\":{},\"detail\":{},\"count\":{}}}", js(k), js(d), n)).collect();
    println!("VXRESULT {{\"id\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"rules\":[{}],\"harness_panic\":{},\"fails\":[{}]}}",
        js(id), c.evals, c.seen.len(), c.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), c.rules.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), broke, fails.join(","));
}
