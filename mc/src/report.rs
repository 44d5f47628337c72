//! Evidence, violations and known findings.
use std::time::Instant;

use serde_json::{json, Value};

pub struct Report {
    pub id: String,
    pub tier: String,
    pub level: String,
    pub coverage: serde_json::Map<String, Value>,
    pub assumptions: Vec<String>,
    known: Vec<(String, String)>,
    printed: std::collections::BTreeSet<String>,
    pub violations: Vec<(String, Value)>,
    pub engine_errors: Vec<String>,
    t0: Instant,
    pub samples: Vec<Value>,
}

pub fn short(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

impl Report {
    pub fn new(id: &str, level: &str) -> Self {
        let tier = std::env::var("MC_TIER").unwrap_or_else(|_| "quick".into());
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.json", dir())) {
            let v: Value = serde_json::from_str(&s).expect("known_findings.json");
            for k in v["findings"].as_array().into_iter().flatten() {
                if k["property"] == id && k["status"] != "fixed" {
                    for s in k["signatures"].as_array().into_iter().flatten() {
                        known.push((
                            s.as_str().unwrap_or_default().to_string(),
                            k["title"].as_str().unwrap_or_default().to_string(),
                        ));
                    }
                }
            }
        }
        Self {
            id: id.into(),
            tier,
            level: level.into(),
            coverage: serde_json::Map::new(),
            assumptions: vec![],
            known,
            printed: std::collections::BTreeSet::new(),
            violations: vec![],
            engine_errors: vec![],
            t0: Instant::now(),
            samples: vec![],
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Picks a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }

    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }

    /// Records a violation; returns true when it is a listed known finding.
    pub fn violation(&mut self, sig: &str, replay: Value) -> bool {
        if let Some((s, t)) = self.known.iter().find(|(s, _)| s == sig).cloned() {
            if self.printed.insert(s.clone()) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.id, t, s);
            }
            return true;
        }
        if self.violations.iter().all(|v| v.0 != sig) {
            self.violations.push((sig.to_string(), replay));
        }
        false
    }

    /// A violation is known and looking for more has taken long enough.
    pub fn settled(&self) -> bool {
        !self.violations.is_empty() && self.elapsed() > 240.0
    }
    pub fn set(&mut self, k: &str, v: impl Into<Value>) {
        self.coverage.insert(k.into(), v.into());
    }
    pub fn add(&mut self, k: &str, n: u64) {
        let c = self.coverage.get(k).and_then(Value::as_u64).unwrap_or(0);
        self.coverage.insert(k.into(), json!(c + n));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 12 {
            self.samples.push(v);
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    pub fn finish(mut self) -> i32 {
        let d = dir();
        std::fs::create_dir_all(format!("{d}/evidence/replay")).ok();
        let mut code = 0;
        let mut vs = Vec::new();
        for (i, (sig, rep)) in self.violations.iter().enumerate() {
            let p = format!("{d}/evidence/replay/{}-{i}.json", self.id);
            let body = json!({"property": self.id, "signature": sig, "replay": rep});
            std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).ok();
            if i < 8 {
                println!("VIOLATION property={} replay={p}", self.id);
                println!("  {}", short(sig, 700));
            }
            vs.push(json!({"signature": sig, "replay": p}));
            code = 1;
        }
        if code == 0 && !self.engine_errors.is_empty() {
            code = 2;
        }
        for e in &self.engine_errors {
            eprintln!("ENGINE ERROR property={}: {}", self.id, short(e, 300));
        }
        if let Some(b) = std::env::var("MC_BUILD_S").ok().and_then(|b| b.parse::<f64>().ok()) {
            self.coverage.insert("build_s".into(), json!(b));
        }
        self.coverage.insert("samples".into(), Value::Array(self.samples.clone()));
        let ev = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
            "level": self.level,
            "coverage": self.coverage,
            "assumptions": self.assumptions,
            "violations": vs.len(),
            "wall_s": (self.elapsed() * 1000.0).round() / 1000.0,
        });
        std::fs::write(format!("{d}/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap())
            .expect("evidence");
        println!(
            "{} {} tier={} wall={:.1}s {}",
            self.id,
            if code == 0 { "ok" } else if code == 1 { "VIOLATED" } else { "ERROR" },
            self.tier,
            self.elapsed(),
            self.coverage
                .iter()
                .filter(|(_, v)| v.is_number() || v.is_boolean())
                .map(|(k, v)| format!("{k}={v}"))
                .collect::<Vec<_>>()
                .join(" ")
        );
        code
    }
}
