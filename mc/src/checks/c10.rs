//! C10: concurrent key-value commands, with keys being written, loaded and
//! expiring in the background.
use std::collections::BTreeMap;

use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::keyvalue::{Command, KeyCheck, KeyStatus, KeyValue, Numeric, Output, SetCommand, Value};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};

use super::c09::{at, name, next_tick, op, policy, value, Policy, V};
use super::world::{self, World};
use crate::engine::{self, par, Env, Replay};
use crate::os;
use crate::report::Report;
use crate::sched;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum O {
    /// value, without an expiration
    Set(usize, V),
    /// value, ticks until it expires
    SetExp(usize, V, u8),
    /// keeps the expiration
    Keep(usize, V),
    Vacant(usize, V),
    Present(usize, V),
    Inc(usize),
    Dec(usize),
    Take(usize),
    Del(usize),
    Get(usize),
    Tick,
}
use O::*;

#[derive(Clone, Debug)]
pub struct Prog {
    policy: Policy,
    init: Vec<O>,
    /// close and open the database before the threads start
    reopen: bool,
    threads: Vec<Vec<O>>,
    /// how many ticks pass afterwards
    later: u8,
}

/// Value and ticks until it expires (0: never).
type M = BTreeMap<usize, (Value, u8)>;

fn pass(m: &mut M) {
    m.retain(|_, v| v.1 != 1);
    m.values_mut().filter(|v| v.1 > 1).for_each(|v| v.1 -= 1);
}
fn apply(m: &mut M, o: O) -> Output {
    let old = |m: &M, k: usize| m.get(&k).cloned();
    let set = |m: &mut M, k: usize, v: V, e: u8| {
        Output::Status(if m.insert(k, (value(v), e)).is_some() { KeyStatus::Updated } else { KeyStatus::Inserted })
    };
    match o {
        Set(k, v) => set(m, k, v, 0),
        SetExp(k, v, e) => set(m, k, v, e),
        Keep(k, v) => {
            let e = old(m, k).map_or(0, |o| o.1);
            set(m, k, v, e)
        }
        Vacant(k, v) if old(m, k).is_none() => set(m, k, v, 0),
        Present(k, v) if old(m, k).is_some() => set(m, k, v, 0),
        Vacant(..) | Present(..) => Output::Status(KeyStatus::NotChanged),
        Inc(k) | Dec(k) => {
            let (v, e) = old(m, k).unwrap_or((Value::Numeric(Numeric::UnsignedInteger(0)), 0));
            let Value::Numeric(n) = v else { unreachable!() };
            let by = Numeric::Integer(3);
            let v = Value::Numeric(super::c09::arith(&n, &by, true, matches!(o, Inc(_))));
            m.insert(k, (v.clone(), e));
            Output::Value(Some(v))
        }
        Take(k) => Output::Value(m.remove(&k).map(|v| v.0)),
        Del(k) => Output::Status(if m.remove(&k).is_some() { KeyStatus::Deleted } else { KeyStatus::NotChanged }),
        Get(k) => Output::Value(old(m, k).map(|v| v.0)),
        Tick => {
            pass(m);
            Output::Value(None)
        }
    }
}
fn perform(db: &Database, o: O) -> Result<Output, String> {
    let set = |v, e: Option<u8>, keep, check| {
        Command::Set(SetCommand { value: value(v), expiration: e.map(at), keep_existing_expiration: keep, check, return_previous_value: false })
    };
    let amount = Numeric::Integer(3);
    let c = match o {
        Set(k, v) => op(k, set(v, None, false, None)),
        SetExp(k, v, e) => op(k, set(v, Some(e), false, None)),
        Keep(k, v) => op(k, set(v, None, true, None)),
        Vacant(k, v) => op(k, set(v, None, false, Some(KeyCheck::OnlyIfVacant))),
        Present(k, v) => op(k, set(v, None, false, Some(KeyCheck::OnlyIfPresent))),
        Inc(k) => op(k, Command::Increment { amount, saturating: true }),
        Dec(k) => op(k, Command::Decrement { amount, saturating: true }),
        Take(k) => op(k, Command::Get { delete: true }),
        Del(k) => op(k, Command::Delete),
        Get(k) => op(k, Command::Get { delete: false }),
        Tick => {
            next_tick();
            return Ok(Output::Value(None));
        }
    };
    db.execute_key_operation(c).map_err(|e| e.to_string())
}

fn open(path: &str, p: Policy) -> Result<(Storage, Database), String> {
    let mut c = world::config_at(path, false).with_schema::<World>().unwrap();
    c = c.key_value_persistence(policy(p));
    let s = Storage::open(c).map_err(|e| e.to_string())?;
    let db = s.create_database::<World>("d", true).map_err(|e| e.to_string())?;
    Ok((s, db))
}
const KEYS: usize = 3;
fn read(db: &Database) -> Result<Vec<Option<Value>>, String> {
    (0..KEYS)
        .map(|k| match perform(db, Get(k))? {
            Output::Value(v) => Ok(v),
            o => Err(format!("reading {:?} answers {o:?}", name(k))),
        })
        .collect()
}
fn contents(m: &M) -> Vec<Option<Value>> {
    (0..KEYS).map(|k| m.get(&k).map(|v| v.0.clone())).collect()
}
type Hist = Vec<Vec<(O, Output, u64, u64)>>;
fn explains(m: &M, pos: &mut Vec<usize>, hist: &Hist, later: u8, fin: &[Vec<Option<Value>>]) -> bool {
    if pos.iter().zip(hist).all(|(p, h)| *p == h.len()) {
        let mut m = m.clone();
        return (0..=later).all(|i| {
            if i > 0 {
                pass(&mut m);
            }
            contents(&m) == fin[i as usize]
        });
    }
    let first = pos.iter().zip(hist).filter(|(p, h)| **p < h.len()).map(|(p, h)| h[*p].3).min().unwrap();
    for t in 0..hist.len() {
        if pos[t] == hist[t].len() {
            continue;
        }
        let (o, got, call, _) = &hist[t][pos[t]];
        if *call > first {
            continue;
        }
        let mut n = m.clone();
        if format!("{:?}", apply(&mut n, *o)) == format!("{got:?}") {
            pos[t] += 1;
            if explains(&n, pos, hist, later, fin) {
                return true;
            }
            pos[t] -= 1;
        }
    }
    false
}

pub fn body(p: &Prog, _e: &Env) -> Result<String, String> {
    use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
    static N: AtomicU32 = AtomicU32::new(0);
    let path = format!("{}/kc{}", engine::scratch(), N.fetch_add(1, Ordering::SeqCst));
    let (mut s, mut db) = open(&path, p.policy)?;
    let mut m = M::new();
    for o in &p.init {
        let want = apply(&mut m, *o);
        let got = perform(&db, *o)?;
        if format!("{got:?}") != format!("{want:?}") {
            return Err(format!("{o:?} answered {got:?}, expected {want:?}"));
        }
    }
    if p.reopen {
        os::advance(1000);
        drop(db);
        drop(s);
        os::advance(1000);
        sched::region(true);
        (s, db) = open(&path, p.policy)?;
    }
    static CLOCK: AtomicU64 = AtomicU64::new(0);
    let tick = || CLOCK.fetch_add(1, Ordering::SeqCst);
    let fs = p
        .threads
        .iter()
        .map(|t| {
            let (t, db) = (t.clone(), db.clone());
            Box::new(move || {
                t.into_iter()
                    .map(|o| {
                        let c = tick();
                        let r = perform(&db, o)?;
                        Ok((o, r, c, tick()))
                    })
                    .collect::<Result<Vec<_>, String>>()
            }) as Box<dyn FnOnce() -> Result<Vec<(O, Output, u64, u64)>, String> + Send>
        })
        .collect();
    let hist: Hist = par(fs).into_iter().collect::<Result<_, _>>()?;
    let mut fin = vec![read(&db)?];
    for _ in 0..p.later {
        next_tick();
        fin.push(read(&db)?);
    }
    if !explains(&m, &mut vec![0; hist.len()], &hist, p.later, &fin) {
        let show: Vec<Vec<String>> = hist.iter().map(|h| h.iter().map(|(o, r, ..)| format!("{o:?}={r:?}")).collect()).collect();
        return Err(format!("no sequential order explains {show:?} leaving {fin:?}"));
    }
    // what was acknowledged is there after closing and opening
    sched::region(true);
    drop(db);
    drop(s);
    sched::region(false);
    os::advance(1000);
    let (s, db) = open(&path, p.policy)?;
    let again = read(&db)?;
    if Some(&again) != fin.last() {
        return Err(format!("{:?} before closing, {again:?} after opening again", fin.last()));
    }
    drop(db);
    drop(s);
    Ok(hist.iter().map(|h| h.iter().map(|(_, r, ..)| brief(r)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | "))
}
fn brief(o: &Output) -> String {
    match o {
        Output::Status(s) => format!("{s:?}"),
        Output::Value(None) => "none".into(),
        Output::Value(Some(Value::Numeric(n))) => format!("{n:?}"),
        Output::Value(Some(v)) => format!("{v:?}"),
    }
}

fn programs(thorough: bool) -> Vec<(String, Prog, usize)> {
    let d = if thorough { 3 } else { 2 };
    let mut v = vec![];
    let mut add = |policy: Policy, init: &[O], reopen: bool, threads: &[&[O]], later: u8, b: usize| {
        let p = Prog { policy, init: init.to_vec(), reopen, threads: threads.iter().map(|t| t.to_vec()).collect(), later };
        v.push((format!("{p:?}"), p, b));
    };
    use Policy::*;
    // commands that read and write in one step
    for init in [&[][..], &[Set(0, 3)]] {
        for (x, y) in [(Inc(0), Inc(0)), (Inc(0), Dec(0)), (Take(0), Take(0)), (Vacant(0, 4), Vacant(0, 5)), (Del(0), Del(0)), (Present(0, 4), Take(0)), (Inc(0), Take(0)), (Set(0, 4), Inc(0))] {
            add(Immediate, init, false, &[&[x], &[y]], 0, d);
        }
    }
    // keys that change while they are being written
    for p in [Immediate, Two] {
        for (x, y) in [
            (&[Set(0, 3), Set(0, 4)][..], &[Set(1, 1), Get(0)][..]),
            (&[Set(0, 3), Del(0)], &[Set(1, 1), Get(0)]),
            (&[Inc(0), Inc(0)], &[Inc(0), Inc(0)]),
            (&[Set(0, 3), Get(0)], &[Take(0), Get(0)]),
            (&[Set(0, 3), Take(0)], &[Vacant(0, 4), Set(1, 2)]),
        ] {
            add(p, &[], false, &[x, y], 0, d);
            add(p, &[Set(0, 6), Set(1, 2)], false, &[x, y], 0, d - 1);
        }
    }
    // keys changed more than once before they are written
    for t in [&[Set(0, 3), SetExp(0, 4, 3), Del(0)][..], &[SetExp(0, 3, 3), Set(0, 4), Take(0)], &[Set(0, 3), Del(0), SetExp(0, 4, 3)]] {
        for p in [Immediate, Two, Second] {
            add(p, &[], false, &[t], 0, d);
            add(p, &[], false, &[t, &[Get(0)]], 0, d - 1);
        }
    }
    // expirations being loaded after opening
    for t in [&[Set(0, 4)][..], &[SetExp(0, 4, 3)], &[Del(0), Inc(0)], &[Keep(0, 4)], &[Take(0), Set(0, 4)], &[Inc(0)], &[Get(0), Set(1, 4)]] {
        add(Immediate, &[SetExp(0, 3, 2), SetExp(1, 3, 3)], true, &[t], 3, d + 1);
        add(Never, &[SetExp(0, 3, 2)], true, &[t], 3, d + 1);
    }
    // keys that expire while others change them
    for t in [&[Tick, Set(0, 4)][..], &[Tick, Inc(0)], &[Set(0, 4), Tick], &[Tick, Vacant(0, 4)], &[SetExp(0, 4, 2), Tick]] {
        add(Immediate, &[SetExp(0, 3, 1)], false, &[t, &[Get(0), Set(1, 1)]], 2, d);
        add(Second, &[SetExp(0, 3, 1)], false, &[t, &[Get(0), Inc(2)]], 2, d);
    }
    add(Immediate, &[], false, &[&[Inc(0)], &[Inc(0)], &[Inc(0)]], 0, d - 1);
    add(Immediate, &[], false, &[&[Vacant(0, 3)], &[Vacant(0, 4)], &[Take(0)]], 0, d - 1);
    v
}

pub fn run() -> i32 {
    let mut r = Report::new("C10", "model_checking");
    let progs = programs(r.thorough());
    let total = r.pick(30.0, 3000.0);
    super::explore_all(&mut r, progs, total, |p, e| body(p, e));
    r.assume("scheduling points are lock acquisitions, channel operations, waits and thread ends; the clock only moves when every thread waits");
    r.finish()
}
pub fn replay(f: &Replay) -> i32 {
    for (n, p, _) in programs(true) {
        if n == f.scenario {
            engine::run_one(&|e: &Env| body(&p, e), &f.dev, true).show();
            return 1;
        }
    }
    2
}
