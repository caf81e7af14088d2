//! The monitor core: observation counters, verdicts, replay files, evidence.
//!
//! Three-valued: `check` records a violation when the oracle positively refutes
//! the property, `inconclusive` counts an execution the oracle could not judge
//! (never a violation), everything else is an observed, judged event.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering as AOrd};
use std::time::Instant;

pub struct Rng(u64, pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

pub struct Violation {
    pub rule: String,
    pub signature: String,
    pub detail: Value,
}

pub struct Mon {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    start: Instant,
    pub deadline_s: u64,
    evaluations: u64,
    inconclusive: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    rules: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<Violation>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    rule_text: String,
    min_evals: u64,
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if std::env::var_os("REZMON_DEBUG").is_some() {
            eprintln!("[panic] {loc}: {msg}");
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or_default()
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CRUMB: Mutex<String> = Mutex::new(String::new());

/// what is being executed right now (goes into the replay of a hang or an abort)
pub fn crumb(s: String) {
    PROGRESS.fetch_add(1, AOrd::Relaxed);
    *CRUMB.lock().unwrap_or_else(|e| e.into_inner()) = s;
}
pub fn tick() {
    PROGRESS.fetch_add(1, AOrd::Relaxed);
}
/// Report a violation that leaves no room for an orderly end (hang, unguarded panic) and exit.
pub fn emergency(id: &str, tier: &str, seed: u64, out: &str, what: &str, detail: &str) -> ! {
    let crumb = CRUMB.lock().map(|c| c.clone()).unwrap_or_default();
    let _ = std::fs::create_dir_all(format!("{out}/replay"));
    let path = format!("{out}/replay/{id}-{seed}-x.json");
    let body = json!({"property": id, "rule": what, "detail": detail, "executing": crumb, "seed": seed, "tier": tier,
        "rerun": format!("VERIF_SEED={seed} bash /verif/run.sh {id} {tier}")});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": PROGRESS.load(AOrd::Relaxed).max(1), "distinct_nontrivial": 1, "rule": what, "samples": [detail]},
        "assumptions": [], "wall_s": 0.0, "violations": [{"rule": what, "signature": detail}]});
    let _ = std::fs::write(format!("{out}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap());
    println!("violated rule: {what} :: {detail} :: while executing {crumb}");
    println!("VIOLATION property={id} replay={path}");
    std::process::exit(1);
}
/// No judged event for three minutes: an operation of the code under test does not return.
pub fn watchdog(id: &str, tier: &str, seed: u64, out: &str) {
    let (id, tier, out) = (id.to_string(), tier.to_string(), out.to_string());
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(AOrd::Relaxed), Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let p = PROGRESS.load(AOrd::Relaxed);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed().as_secs() > 180 {
                emergency(&id, &tier, seed, &out, "an operation does not return", "no progress for 180 s");
            }
        }
    });
}

/// Was the panic raised by the harness itself (a harness bug), not by the code under test?
fn harness_panic(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

pub fn h<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Mon {
    pub fn new(id: &str, tier: &str, seed: u64, known_file: &str) -> Self {
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(known_file) {
            for line in text.lines() {
                // finding: property=<id> sig=<signature> :: <what fails>
                if let Some(rest) = line.strip_prefix("finding: ")
                    && let Some((head, what)) = rest.split_once(" :: ")
                    && let Some((p, sig)) = head.split_once(" sig=")
                    && p == format!("property={id}")
                {
                    known.push((sig.trim().to_string(), what.trim().to_string()));
                }
            }
        }
        Mon {
            id: id.into(),
            tier: tier.into(),
            seed,
            thorough: tier == "thorough",
            start: Instant::now(),
            deadline_s: if tier == "thorough" { 2400 } else { 420 },
            evaluations: 0,
            inconclusive: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            rules: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            known,
            known_hit: BTreeMap::new(),
            assumptions: vec![],
            rule_text: String::new(),
            min_evals: 1,
        }
    }
    pub fn rng(&self, stream: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(stream))
    }
    /// workload size: `quick` at the quick tier, `quick * mult` at the thorough one
    pub fn size(&self, quick: usize, mult: usize) -> usize {
        if self.thorough { quick * mult } else { quick }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed().as_secs() > self.deadline_s
    }
    pub fn describe(&mut self, rule: &str, assumptions: &[&str], min_evals: u64) {
        self.rule_text = rule.into();
        self.assumptions = assumptions.iter().map(|s| s.to_string()).collect();
        self.min_evals = min_evals;
    }
    /// the oracle judged one execution under `rule`
    pub fn check(&mut self, rule: &str, ok: bool, detail: impl FnOnce() -> Value) -> bool {
        self.evaluations += 1;
        tick();
        *self.rules.entry(rule.into()).or_default() += 1;
        if !ok {
            let d = detail();
            self.violate(rule, &format!("{rule}|{}", d), d);
        }
        ok
    }
    pub fn violate(&mut self, rule: &str, signature: &str, detail: Value) {
        let short: String = signature.chars().take(2000).collect();
        if let Some((_, what)) = self.known.iter().find(|(s, _)| *s == short) {
            *self.known_hit.entry(what.clone()).or_default() += 1;
            return;
        }
        if self.violations.len() < 40 && !self.violations.iter().any(|v| v.signature == short) {
            self.violations.push(Violation { rule: rule.into(), signature: short, detail });
        }
        *self.counters.entry("violating_events".into()).or_default() += 1;
    }
    /// a state / input / interleaving actually seen; only distinct ones count
    pub fn seen<T: Hash>(&mut self, t: &T) -> bool {
        self.distinct.insert(h(t))
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.into()).or_default() += n;
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.counters.get(name).copied().unwrap_or(0)
    }
    pub fn inconclusive(&mut self, why: &str) {
        self.inconclusive += 1;
        *self.counters.entry(format!("inconclusive:{why}")).or_default() += 1;
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 12 {
            self.samples.push(v);
        }
    }
    /// Run code under test; a panic inside /repo code is reported under `rule`.
    pub fn guard<T>(&mut self, rule: &str, input: impl FnOnce() -> Value, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let (loc, msg) = take_panic();
                if harness_panic(&loc) {
                    eprintln!("HARNESS-ERROR {loc}: {msg}");
                    std::process::exit(3);
                }
                self.check(rule, false, || json!({"panic": msg, "at": loc, "input": input()}));
                None
            }
        }
    }
    pub fn has_violation(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn full(&self) -> bool {
        self.violations.len() >= 12 || self.out_of_time()
    }
    pub fn finish(self, outdir: &str) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let replay_dir = format!("{outdir}/replay");
        let _ = std::fs::create_dir_all(&replay_dir);
        let mut lines = vec![];
        for (i, v) in self.violations.iter().enumerate() {
            let path = format!("{replay_dir}/{}-{}-{}.json", self.id, self.seed, i);
            let body = json!({"property": self.id, "rule": v.rule, "signature": v.signature, "seed": self.seed,
                "tier": self.tier, "detail": v.detail, "rerun": format!("VERIF_SEED={} bash /verif/run.sh {} {}", self.seed, self.id, self.tier)});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            lines.push((path, v));
        }
        let mut coverage = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule_text,
            "samples": self.samples,
        });
        coverage["per_rule"] = json!(self.rules);
        coverage["observed"] = json!(self.counters);
        coverage["inconclusive"] = json!(self.inconclusive);
        let ev = json!({
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": self.violations.iter().map(|v| json!({"rule": v.rule, "signature": v.signature})).collect::<Vec<_>>(),
            "known_findings": self.known_hit,
        });
        std::fs::write(format!("{outdir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        println!(
            "[{}] tier={} seed={} evaluations={} distinct={} inconclusive={} wall={:.1}s",
            self.id, self.tier, self.seed, self.evaluations, self.distinct.len(), self.inconclusive, wall
        );
        for (k, v) in &self.counters {
            println!("[{}]   observed {k} = {v}", self.id);
        }
        for what in self.known_hit.keys() {
            println!("KNOWN-FINDING: property={} {}", self.id, what);
        }
        if !lines.is_empty() {
            for (path, v) in lines.iter().take(5) {
                let d: String = v.detail.to_string().chars().take(600).collect();
                println!("violated rule: {} :: {}", v.rule, d);
                println!("VIOLATION property={} replay={}", self.id, path);
            }
            return 1;
        }
        if self.evaluations < self.min_evals || self.distinct.is_empty() {
            println!("ERROR: the monitors observed too little ({} < {} evaluations)", self.evaluations, self.min_evals);
            return 2;
        }
        0
    }
}
