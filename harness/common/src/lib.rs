//! Shared driver of the executable contracts: seeded generation, panic capture,
//! counting of distinct non-trivial cases, and the result file.
pub mod exec;
pub mod ruby;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Run {
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    out: String,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    failure: Option<(String, String)>,
    rules: Vec<String>,
    started: Instant,
    budget: Duration,
    only: Option<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Run {
    /// args: OUT.json ; env VERIF_SEED, VERIF_TIER
    pub fn start() -> Run {
        let out = std::env::args().nth(1).unwrap_or_else(|| "/dev/stdout".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        std::panic::set_hook(Box::new(|_| {}));
        Run {
            seed,
            thorough,
            rng: Rng::new(seed),
            out,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            failure: None,
            rules: vec![],
            started: Instant::now(),
            budget: Duration::from_secs(if thorough { 1200 } else { 150 }),
            only: None,
        }
    }
    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.to_string());
    }
    /// n in the quick tier, many more in the thorough one
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.started.elapsed() > self.budget
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
    pub fn stop(&self) -> bool {
        self.failed() || self.out_of_time()
    }
    pub fn count(&mut self, key: &impl Hash, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            let mut h = DefaultHasher::new();
            key.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 && (self.evals < 4 || self.evals % 977 == 0) {
            let mut t = s();
            if t.len() > 600 {
                let mut k = 600;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
            }
            self.samples.push(t);
        }
    }
    pub fn fail(&mut self, obligation: &str, detail: String) {
        if self.failure.is_none() {
            self.failure = Some((obligation.to_string(), detail));
        }
    }
    /// Evaluate one executable contract; a panic of the code under test is a failure.
    pub fn case<K: Hash>(
        &mut self,
        obligation: &str,
        key: &K,
        nontrivial: bool,
        describe: impl Fn() -> String,
        f: impl FnOnce() -> Result<(), String>,
    ) -> bool {
        if self.failed() {
            return false;
        }
        if let Some(o) = &self.only {
            if o != obligation {
                return true;
            }
        }
        self.count(key, nontrivial);
        self.sample(|| format!("{obligation}: {}", describe()));
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                self.fail(obligation, format!("input: {}\nwrong: {e}", describe()));
                false
            }
            Err(p) => {
                let msg = panic_text(&p);
                self.fail(obligation, format!("input: {}\nwrong: panicked: {msg}", describe()));
                false
            }
        }
    }
    pub fn finish(self) -> ! {
        let mut s = String::from("{");
        s.push_str(&format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"seconds\":{:.2},\"samples\":[{}]",
            self.evals,
            self.distinct.len(),
            esc(&self.rules.join(" ")),
            self.started.elapsed().as_secs_f64(),
            self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        ));
        if let Some((o, d)) = &self.failure {
            s.push_str(&format!(",\"failure\":{{\"obligation\":{},\"detail\":{}}}", esc(o), esc(d)));
        }
        s.push('}');
        std::fs::write(&self.out, s).expect("write result");
        std::process::exit(if self.failure.is_some() { 1 } else { 0 })
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "(no message)".into())
}

pub fn catches<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(&p))
}
