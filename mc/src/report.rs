//! Outcome reporting shared by every check: violations, known findings, evidence.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::time::Instant;

pub struct Known {
    pub key: String,
    pub desc: String,
}

pub struct Run {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    start: Instant,
    known: Vec<Known>,
    state: Mutex<State>,
}

#[derive(Default)]
struct State {
    violations: BTreeMap<String, String>,
    nviol: u64,
    known_hits: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    extra: Map<String, Value>,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Run {
    /// Usage of every check binary: `<bin> [quick|thorough]`.
    pub fn new(id: &str) -> Run {
        let tier = std::env::args().nth(1).unwrap_or_else(|| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
            for line in t.lines() {
                // known: property=P13 key=<key> :: <description>
                let Some(rest) = line.strip_prefix("known: ") else { continue };
                let Some(rest) = rest.strip_prefix(&format!("property={id} key=")) else { continue };
                if let Some((k, d)) = rest.split_once(" :: ") {
                    known.push(Known { key: k.to_string(), desc: d.to_string() });
                }
            }
        }
        // A panic of the code under test is data for the check, not output.
        std::hint::black_box(crate::hashorder::getrandom as extern "C" fn(*mut u8, usize, u32) -> isize);
        if let Some(seed) = std::env::var("HASHSEED").ok().and_then(|s| s.parse().ok()) {
            crate::hashorder::set_seed(seed);
        }
        std::panic::set_hook(Box::new(|_| {}));
        Run { id: id.into(), tier, seed, start: Instant::now(), known, state: Default::default() }
    }

    pub fn thorough(&self) -> bool { self.tier == "thorough" }

    pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }

    /// `key` identifies the failing input, call site or history.
    pub fn violation(&self, key: &str, detail: String) {
        let mut s = self.state.lock().unwrap();
        if self.known.iter().any(|k| k.key == key) {
            *s.known_hits.entry(key.to_string()).or_default() += 1;
            return;
        }
        s.nviol += 1;
        if s.violations.len() < 5000 {
            s.violations.entry(key.to_string()).or_insert(detail);
        }
    }

    pub fn known_keys(&self) -> Vec<String> { self.known.iter().map(|k| k.key.clone()).collect() }

    pub fn nviolations(&self) -> u64 { self.state.lock().unwrap().nviol }

    pub fn add(&self, counter: &str, n: u64) {
        *self.state.lock().unwrap().counters.entry(counter.into()).or_default() += n;
    }

    pub fn max(&self, counter: &str, n: u64) {
        let mut s = self.state.lock().unwrap();
        let e = s.counters.entry(counter.into()).or_default();
        *e = (*e).max(n);
    }

    pub fn get(&self, counter: &str) -> u64 {
        *self.state.lock().unwrap().counters.get(counter).unwrap_or(&0)
    }

    /// Keeps the first few samples of what was explored.
    pub fn sample(&self, v: Value) {
        let mut s = self.state.lock().unwrap();
        if s.samples.len() < 12 {
            s.samples.push(v);
        }
    }

    pub fn extra(&self, k: &str, v: Value) { self.state.lock().unwrap().extra.insert(k.into(), v); }

    /// Writes the evidence, prints the verdict and exits. `assumptions`: what the verdict
    /// rests on. `required` counters must be non-zero, else the exploration was vacuous.
    pub fn finish(self, level: &str, rule: &str, assumptions: &[&str], required: &[&str]) -> ! {
        let s = self.state.into_inner().unwrap();
        let mut cov = Map::new();
        for (k, v) in &s.counters {
            cov.insert(k.clone(), json!(v));
        }
        for (k, v) in s.extra {
            cov.insert(k, v);
        }
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(s.samples));
        for k in ["states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial"] {
            cov.entry(k.to_string()).or_insert(json!(0));
        }
        let ev = json!({
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "wall_s": self.start.elapsed().as_secs_f64(),
            "assumptions": assumptions, "violations": s.nviol,
        });
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(format!("{dir}/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
        let mut code = 0;
        for k in &self.known {
            if s.known_hits.contains_key(&k.key) {
                println!("KNOWN-FINDING: property={} {}", self.id, k.desc);
            }
        }
        if !s.violations.is_empty() {
            code = 1;
            let rd = format!("{dir}/replays");
            let _ = std::fs::create_dir_all(&rd);
            for (i, (k, d)) in s.violations.iter().enumerate().take(std::env::var("MAXREPORT").ok().and_then(|s| s.parse().ok()).unwrap_or(10)) {
                let path = format!("{rd}/{}-{}.txt", self.id, i);
                let _ = std::fs::write(&path, format!("property {}\nkey {}\n\n{}\n", self.id, k, d));
                println!("VIOLATION property={} replay={}", self.id, path);
                println!("  {}: {}", k, d.lines().next().unwrap_or(""));
            }
        }
        let vac: Vec<_> = required.iter().filter(|k| s.counters.get(**k).copied().unwrap_or(0) == 0).collect();
        println!("{} {} {:.1}s violations={} {:?}", self.id, self.tier, self.start.elapsed().as_secs_f64(), s.nviol, s.counters);
        if code == 0 && !vac.is_empty() {
            println!("ERROR: vacuous exploration, nothing counted for {vac:?}");
            code = 3;
        }
        std::process::exit(code)
    }
}

/// Runs `f` over 0..n on all cores; items are claimed in order.
pub fn parallel<F: Fn(usize) + Sync>(n: usize, f: F) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}

/// Runs code under test; Err is the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}
