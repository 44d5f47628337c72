pub mod world;
mod c01;
mod c02;
mod c03;
mod image;
mod c05;
mod c06;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c25;
mod c26;

use serde_json::{json, Value};

use crate::engine::{self, Env};
use crate::report::Report;

pub fn run(id: &str) -> i32 {
    match id {
        "C01" => c01::run(),
        "C02" => c02::run(),
        "C03" => c03::run(),
        "C05" => c05::run(),
        "C06" => c06::run(),
        "C09" => c09::run(),
        "C10" => c10::run(),
        "C11" => c11::run(),
        "C12" => c12::run(),
        "C13" => c13::run(),
        "C14" => c14::run(),
        "C15" => c15::run(),
        "C17" => c17::run(),
        "C18" => c18::run(),
        "C19" => c19::run(),
        "C20" => c20::run(),
        "C21" => c21::run(),
        "C22" => c22::run(),
        "C25" => c25::run(),
        "C26" => c26::run(),
        "C28" => c13::run28(),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    }
}

pub fn replay(id: &str, file: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let rep: Result<engine::Replay, _> = serde_json::from_value(v["replay"].clone());
    match (id, rep) {
        ("C02", Ok(r)) => c02::replay(&r),
        ("C06", Ok(r)) => c06::replay(&r),
        ("C10", Ok(r)) => c10::replay(&r),
        ("C12", Ok(r)) => c12::replay(&r),
        ("C19", Ok(r)) => c19::replay(&r),
        ("C21", Ok(r)) => c21::replay(&r),
        ("C25", Ok(r)) => c25::replay(&r),
        _ => {
            println!("{v:#}");
            2
        }
    }
}

/// Explores every scenario within a shared time budget, small deviation bounds
/// of all scenarios first, and fills in the model-checking coverage.
pub fn explore_all<P>(
    r: &mut Report,
    progs: Vec<(String, P, usize)>,
    total_s: f64,
    body: impl Fn(&P, &Env) -> Result<String, String>,
) {
    let t0 = std::time::Instant::now();
    let mut ex: Vec<engine::Explorer> = progs.iter().map(|(name, _, b)| engine::Explorer::new(name, *b)).collect();
    let max = ex.iter().map(|e| e.bound).max().unwrap_or(0);
    let by_index = |i: usize, e: &Env| body(&progs[i].1, e);
    let mut farm = engine::scenario_farm(&by_index);
    'all: for b in 0..=max {
        let n = ex.len();
        for i in 0..n {
            let e = &mut ex[i];
            if e.bound < b || e.st.bound_completed >= b as i64 || e.stopped {
                continue;
            }
            let left = total_s - t0.elapsed().as_secs_f64();
            let share = if b <= 1 { left } else { left / (n - i) as f64 * 2.0 };
            if share <= 0.0 {
                break 'all;
            }
            let known = std::cell::RefCell::new(&mut *r);
            let res = e.advance(&mut farm, i, b, share.min(left), |f| {
                known.borrow_mut().violation(&f.sig, serde_json::to_value(&f.replay).unwrap())
            });
            if let Err(e) = res {
                r.engine_errors.push(e);
                break 'all;
            }
            if !r.violations.is_empty() {
                break 'all;
            }
        }
    }
    let (mut exec, mut steps, mut outcomes, mut points, mut pruned) = (0, 0, 0, 0, 0);
    let mut complete = true;
    let mut list = Vec::new();
    for (i, e) in ex.into_iter().enumerate() {
        let (bound, s) = (e.bound, e.st);
        exec += s.executions;
        steps += s.steps;
        pruned += s.pruned;
        outcomes += s.outcomes.len() as u64;
        points = points.max(s.points_max);
        complete &= s.bound_completed == bound as i64;
        if std::env::var_os("MC_VERBOSE").is_some() {
            println!("{}: {} executions, bound {}/{} in {:.1}s, {} points, {} outcomes {:?}", s.scenario, s.executions, s.bound_completed, bound, s.wall_s, s.points_max, s.outcomes.len(), s.outcomes);
        }
        list.push(json!({"scenario": s.scenario, "executions": s.executions, "deviation_bound": bound,
            "bound_completed": s.bound_completed, "points": s.points_max, "outcomes": s.outcomes.len()}));
        if i < 4 {
            r.sample(json!({"scenario": s.scenario, "outcomes": s.outcomes.into_iter().take(4).collect::<std::collections::BTreeMap<_, _>>()}));
        }
    }
    r.add("transitions", steps);
    r.add("states", outcomes);
    r.add("traces_validated_against_impl", exec);
    r.add("schedule_points_pruned_as_unshared", pruned);
    r.set("max_scheduling_points", points);
    r.set("bounds_completed", complete);
    r.set("scenarios", Value::Array(list));
    r.set("explanation", "states = distinct observed outcomes over all scenarios; transitions = scheduling steps executed; every explored schedule is one execution of the real code (traces_validated_against_impl counts them); a schedule deviates from the default at most deviation_bound times, each deviation being a switch to another thread or a demotion of the running one");
}
