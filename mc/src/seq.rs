//! Exhaustive enumeration of operation sequences / inputs on the real code,
//! split into jobs that run in forked children.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::engine::{self, emit, take_panics, Farm};
use crate::os;
use crate::report::Report;
use crate::sched;

#[derive(Default, Serialize, Deserialize)]
pub struct Acc {
    pub counts: BTreeMap<String, u64>,
    pub violations: Vec<(String, Value)>,
    pub samples: Vec<Value>,
    /// hashes of distinct observed results
    pub outcomes: BTreeSet<u64>,
    pub stuck: Option<String>,
}

static CURRENT: Mutex<String> = Mutex::new(String::new());

pub fn h<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Acc {
    /// Names the case being executed (reported when it hangs or panics).
    pub fn at(&mut self, case: &str) {
        engine::note_case(case);
        *CURRENT.lock().unwrap() = case.to_string();
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_default() += n;
    }
    pub fn bad(&mut self, sig: String, replay: Value) {
        if self.violations.len() < 40 && self.violations.iter().all(|v| v.0 != sig) {
            self.violations.push((sig, replay));
        }
    }
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        self.outcomes.insert(h(t));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 {
            self.samples.push(v);
        }
    }
}

fn stuck(msg: String) -> ! {
    if std::env::var_os("MC_HANG").is_some() {
        eprintln!("{}: {msg}", std::process::id());
        unsafe { os::sys6(libc::SYS_kill, i64::from(std::process::id()), i64::from(libc::SIGSTOP), 0, 0, 0, 0) };
    }
    // CURRENT's lock may be held by nobody: only its owner thread takes it
    let cur = CURRENT.try_lock().map(|c| c.clone()).unwrap_or_default();
    let a = Acc { stuck: Some(format!("{cur}: {msg}")), ..Acc::default() };
    emit(&serde_json::to_vec(&a).unwrap())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// all threads under the deterministic scheduler, virtual clock
    Controlled,
    /// plain single-threaded code
    Free,
}

/// Runs every job and merges the results into the report.
pub fn run<J: std::fmt::Debug>(r: &mut Report, mode: Mode, jobs: Vec<J>, f: impl Fn(&J, &mut Acc)) {
    let mut it = 0..jobs.len();
    let dbg = |j: usize| crate::report::short(&format!("{:?}", jobs[j]), 200);
    let mut outcomes: BTreeSet<u64> = BTreeSet::new();
    let rc = std::cell::RefCell::new(r);
    let run = |b: &[u8]| {
            let j = u64::from_le_bytes(b.try_into().unwrap()) as usize;
            os::deterministic_random(7);
            if mode == Mode::Controlled {
                os::virtual_clock(os::EPOCH);
                sched::start(vec![], stuck);
            }
            let mut a = Acc::default();
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&jobs[j], &mut a)));
            let p = take_panics();
            if res.is_err() || !p.is_empty() {
                let cur = CURRENT.lock().unwrap().clone();
                a.bad(format!("{cur}: panicked: {}", p.join("; ")), json!({"job": dbg(j)}));
            }
            serde_json::to_vec(&a).unwrap()
    };
    let mut farm = Farm::new(engine::NPROC, 600, &run);
    farm.drive(
        || it.next().filter(|_| !rc.borrow().settled()).map(|j| (j, (j as u64).to_le_bytes().to_vec())),
        |j, res| {
            let mut r = rc.borrow_mut();
            let a: Acc = match res {
                Ok(b) => match serde_json::from_slice(&b) {
                    Ok(a) => a,
                    Err(e) => {
                        r.engine_errors.push(format!("job {}: bad answer {e}", dbg(j)));
                        return;
                    }
                },
                Err(e) if e == "CPU" => {
                    r.violation(&format!("job {} does not terminate", dbg(j)), json!({"job": dbg(j)}));
                    return;
                }
                Err(e) if e.starts_with("HUNG") => {
                    r.violation(&e[4..], json!({"job": dbg(j)}));
                    return;
                }
                Err(e) => {
                    r.engine_errors.push(format!("job {}: {e}", dbg(j)));
                    return;
                }
            };
            for (k, v) in a.counts {
                r.add(&k, v);
            }
            for (s, v) in a.violations {
                r.violation(&s, v);
            }
            if let Some(s) = a.stuck {
                r.violation(&s, json!({"job": dbg(j)}));
            }
            for s in a.samples {
                r.sample(s);
            }
            outcomes.extend(a.outcomes);
        },
    );
    let n = outcomes.len() as u64;
    rc.into_inner().add("distinct_nontrivial", n);
}
