//! C09: the key-value store does what its operations say, including
//! expiration, whatever part of it is waiting to be written.
use std::time::Duration;

use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::keyvalue::{Command, KeyCheck, KeyOperation, KeyStatus, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_local::config::{Builder, KeyValuePersistence, PersistenceThreshold};
use bonsaidb_local::{Database, Storage};

use super::world::{self, World};
use crate::os;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};
use crate::tour::{self, Graph};

/// 1: bytes [1], 2: bytes [2], 3: u64 5, 4: u64 6, 5: i64 -2, 6: f64 5.5
pub type V = u8;
pub fn value(v: V) -> Value {
    match v {
        1 => Value::Bytes(Bytes::from(vec![1])),
        2 => Value::Bytes(Bytes::from(vec![2])),
        3 => Value::Numeric(Numeric::UnsignedInteger(5)),
        4 => Value::Numeric(Numeric::UnsignedInteger(6)),
        5 => Value::Numeric(Numeric::Integer(-2)),
        _ => Value::Numeric(Numeric::Float(5.5)),
    }
}
fn number(v: &Value) -> Option<V> {
    (3..=6).find(|i| &value(*i) == v)
}
/// An independent reading of how numbers are added.
pub fn arith(a: &Numeric, b: &Numeric, sat: bool, add: bool) -> Numeric {
    let sign = |x: i128| if add { x } else { -x };
    match b {
        Numeric::Integer(b) => {
            let a: i128 = match a {
                Numeric::Integer(a) => i128::from(*a),
                Numeric::UnsignedInteger(a) if sat => i128::from(*a).min(i128::from(i64::MAX)),
                Numeric::UnsignedInteger(a) => i128::from(*a as i64),
                Numeric::Float(a) => i128::from(*a as i64),
            };
            let s = a + sign(i128::from(*b));
            Numeric::Integer(if sat { s.clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64 } else { s as i64 })
        }
        Numeric::UnsignedInteger(b) => {
            let a: i128 = match a {
                Numeric::UnsignedInteger(a) => i128::from(*a),
                Numeric::Integer(a) if sat => i128::from(*a).max(0),
                Numeric::Integer(a) => i128::from(*a as u64),
                Numeric::Float(a) => i128::from(*a as u64),
            };
            let s = a + sign(i128::from(*b));
            Numeric::UnsignedInteger(if sat { s.clamp(0, i128::from(u64::MAX)) as u64 } else { s as u64 })
        }
        Numeric::Float(b) => {
            let a = match a {
                Numeric::Integer(a) => *a as f64,
                Numeric::UnsignedInteger(a) => *a as f64,
                Numeric::Float(a) => *a,
            };
            Numeric::Float(if add { a + b } else { a - b })
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K {
    /// 0: none
    val: V,
    /// ticks until it expires (0: never)
    exp: u8,
    /// 0 clean, 1 being written, 2 to be written (only steers the walk)
    stage: u8,
}
type S = Vec<K>;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum A {
    /// key, value, expiration (9: none, 0: now), keep, check (1 present, 2 vacant), return previous
    Set(usize, V, u8, bool, u8, bool),
    Get(usize),
    Take(usize),
    Del(usize),
    /// key, amount, add, saturating
    Num(usize, V, bool, bool),
    Tick,
    Settle,
    Reopen,
    /// closed for a tick
    Away,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    Immediate,
    Never,
    Two,
    Second,
}
pub struct Kv {
    keys: usize,
    full: bool,
    policy: Policy,
    reopen: bool,
}
pub fn policy(p: Policy) -> KeyValuePersistence {
    match p {
        Policy::Immediate => KeyValuePersistence::immediate(),
        Policy::Never => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1000)]),
        Policy::Two => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(2)]),
        Policy::Second => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1).and_duration(Duration::from_secs(1))]),
    }
}
pub struct Sys {
    s: Option<Storage>,
    db: Option<Database>,
    path: String,
}
pub fn name(k: usize) -> (Option<String>, String) {
    match k {
        0 => (None, "k".into()),
        1 => (Some("n".into()), "k".into()),
        _ => (Some("n".into()), "l".into()),
    }
}
pub fn op(k: usize, command: Command) -> KeyOperation {
    let (namespace, key) = name(k);
    KeyOperation { namespace, key, command }
}
pub const TICK: i64 = 1_000_000_000;
/// The current tick.
fn tick() -> i64 {
    (os::now_ns() - os::EPOCH) / TICK
}
/// The point in time `n` ticks from the current one.
pub fn at(n: u8) -> Timestamp {
    let t = os::EPOCH + (tick() + i64::from(n)) * TICK;
    Timestamp { seconds: (t / 1_000_000_000) as u64, nanos: (t % 1_000_000_000) as u32 }
}
pub fn next_tick() {
    let t = os::EPOCH + (tick() + 1) * TICK - os::now_ns();
    std::thread::sleep(Duration::from_nanos(t as u64));
}

impl Kv {
    fn wrote(&self, t: &mut S, k: usize) {
        t[k].stage = 2;
        self.start(t);
    }
    fn start(&self, t: &mut S) {
        let dirty = t.iter().filter(|k| k.stage == 2).count();
        let go = match self.policy {
            Policy::Immediate => dirty > 0,
            Policy::Two => dirty >= 2,
            _ => false,
        };
        if go && t.iter().all(|k| k.stage != 1) {
            t.iter_mut().filter(|k| k.stage == 2).for_each(|k| k.stage = 1);
        }
    }
    fn settle(&self, t: &mut S, second: bool) {
        t.iter_mut().filter(|k| k.stage == 1).for_each(|k| k.stage = 0);
        self.start(t);
        t.iter_mut().filter(|k| k.stage == 1).for_each(|k| k.stage = 0);
        if second && self.policy == Policy::Second {
            t.iter_mut().for_each(|k| k.stage = 0);
        }
    }
    fn open(&self, path: &str) -> Result<(Storage, Database), String> {
        let mut c = world::config_at(path, false).with_schema::<World>().unwrap();
        c = c.key_value_persistence(policy(self.policy));
        let s = Storage::open(c).map_err(|e| e.to_string())?;
        let db = s.create_database::<World>("d", true).map_err(|e| e.to_string())?;
        Ok((s, db))
    }
    /// The answer and the next state.
    fn model(&self, s: &S, a: &A) -> (S, Result<Output, ()>) {
        let mut t = s.clone();
        let status = |s| Ok(Output::Status(s));
        let val = |k: &K| if k.val == 0 { None } else { Some(value(k.val)) };
        let r = match *a {
            A::Set(k, v, e, keep, check, prev) => {
                let old = s[k];
                let go = match check {
                    0 => true,
                    1 => old.val != 0,
                    _ => old.val == 0,
                };
                if go {
                    let exp = if keep && old.val != 0 { old.exp } else if e == 9 { 0 } else { e };
                    // already expired
                    let gone = !(keep && old.val != 0) && e == 0;
                    t[k] = K { val: if gone { 0 } else { v }, exp, stage: 2 };
                    self.wrote(&mut t, k);
                    if prev {
                        Ok(Output::Value(val(&old)))
                    } else if old.val == 0 {
                        status(KeyStatus::Inserted)
                    } else {
                        status(KeyStatus::Updated)
                    }
                } else {
                    status(KeyStatus::NotChanged)
                }
            }
            A::Get(k) => Ok(Output::Value(val(&s[k]))),
            A::Take(k) | A::Del(k) => {
                t[k] = K { val: 0, exp: 0, stage: 2 };
                self.wrote(&mut t, k);
                match (a, s[k].val) {
                    (A::Take(_), _) => Ok(Output::Value(val(&s[k]))),
                    (_, 0) => status(KeyStatus::NotChanged),
                    _ => status(KeyStatus::Deleted),
                }
            }
            A::Num(k, v, add, sat) => {
                let Value::Numeric(b) = value(v) else { unreachable!() };
                match if s[k].val == 0 { Some(Value::Numeric(Numeric::UnsignedInteger(0))) } else { val(&s[k]) } {
                    Some(Value::Numeric(x)) => {
                        let r = Value::Numeric(arith(&x, &b, sat, add));
                        t[k].val = number(&r).unwrap_or(99);
                        self.wrote(&mut t, k);
                        Ok(Output::Value(Some(r)))
                    }
                    _ => Err(()),
                }
            }
            A::Tick => {
                for k in &mut t {
                    if k.exp == 1 {
                        *k = K { val: 0, exp: 0, stage: 2 };
                    } else if k.exp > 1 {
                        k.exp -= 1;
                    }
                }
                self.settle(&mut t, true);
                status(KeyStatus::NotChanged)
            }
            A::Settle => {
                self.settle(&mut t, false);
                status(KeyStatus::NotChanged)
            }
            A::Reopen | A::Away => {
                for k in &mut t {
                    k.stage = 0;
                    if *a == A::Away && k.exp == 1 {
                        *k = K { val: 0, exp: 0, stage: 2 };
                    } else if *a == A::Away && k.exp > 1 {
                        k.exp -= 1;
                    }
                }
                status(KeyStatus::NotChanged)
            }
        };
        (t, r)
    }
}

impl Graph for Kv {
    type S = S;
    type A = A;
    type Sys = Sys;
    fn start(&self) -> S {
        vec![K { val: 0, exp: 0, stage: 0 }; self.keys]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![A::Tick, A::Settle];
        if self.reopen {
            v.extend([A::Reopen, A::Away]);
        }
        for k in 0..self.keys {
            let m = A::Set(k, 1, 9, false, 0, false);
            v.push(m);
            v.extend([A::Set(k, 1, 1, false, 0, false), A::Set(k, 1, 2, false, 0, true), A::Get(k), A::Del(k)]);
            if !self.full {
                v.push(A::Set(k, 2, 9, true, 0, false));
                continue;
            }
            v.push(A::Set(k, 1, 0, false, 0, false));
            for x in [2, 3] {
                v.push(A::Set(k, x, 9, false, 0, false));
                v.push(A::Set(k, x, 2, true, 0, true));
                v.push(A::Set(k, x, 9, true, 0, false));
            }
            for c in [1, 2] {
                v.push(A::Set(k, 2, 9, false, c, c == 1));
                v.push(A::Set(k, 2, 1, c == 2, c, c == 2));
                v.push(A::Set(k, 1, 1, c == 1, c, false));
            }
            v.push(A::Take(k));
            for n in [A::Num(k, 3, true, true), A::Num(k, 5, false, true), A::Num(k, 5, true, false)] {
                let (t, _) = self.model(s, &n);
                if t[k].val != 99 {
                    v.push(n);
                }
            }
        }
        v
    }
    fn next(&self, s: &S, a: &A) -> S {
        self.model(s, a).0
    }
    fn fresh(&self) -> Result<Sys, String> {
        use std::sync::atomic::{AtomicU32, Ordering};
        static N: AtomicU32 = AtomicU32::new(0);
        let path = format!("{}/kv{}", crate::engine::scratch(), N.fetch_add(1, Ordering::SeqCst));
        let (s, db) = self.open(&path)?;
        Ok(Sys { s: Some(s), db: Some(db), path })
    }
    fn done(&self, mut sys: Sys) {
        sys.db = None;
        sys.s = None;
        os::raw(|| {
            let _ = std::fs::remove_dir_all(&sys.path);
        });
    }
    fn exec(&self, sys: &mut Sys, s: &S, a: &A, t: &S, acc: &mut Acc) -> Result<(), String> {
        let (_, want) = self.model(s, a);
        let db = sys.db.clone().unwrap();
        let got = match *a {
            A::Set(k, v, e, keep, check, prev) => Some(db.execute_key_operation(op(
                k,
                Command::Set(SetCommand {
                    value: value(v),
                    expiration: (e != 9).then(|| at(e)),
                    keep_existing_expiration: keep,
                    check: [None, Some(KeyCheck::OnlyIfPresent), Some(KeyCheck::OnlyIfVacant)][check as usize],
                    return_previous_value: prev,
                }),
            ))),
            A::Get(k) => Some(db.execute_key_operation(op(k, Command::Get { delete: false }))),
            A::Take(k) => Some(db.execute_key_operation(op(k, Command::Get { delete: true }))),
            A::Del(k) => Some(db.execute_key_operation(op(k, Command::Delete))),
            A::Num(k, v, add, saturating) => {
                let Value::Numeric(amount) = value(v) else { unreachable!() };
                Some(db.execute_key_operation(op(k, if add { Command::Increment { amount, saturating } } else { Command::Decrement { amount, saturating } })))
            }
            A::Tick => {
                next_tick();
                None
            }
            A::Settle => {
                std::thread::sleep(Duration::from_micros(1));
                None
            }
            A::Reopen | A::Away => {
                // some time passes before a storage is opened again
                os::advance(1000);
                drop(db);
                sys.db = None;
                sys.s = None;
                if *a == A::Away {
                    next_tick();
                }
                let (s, d) = self.open(&sys.path)?;
                sys.s = Some(s);
                sys.db = Some(d);
                None
            }
        };
        if let Some(got) = got {
            let show = |r: &Result<Output, ()>| format!("{r:?}");
            let g = show(&got.as_ref().map(Clone::clone).map_err(|_| ()));
            acc.outcome(&g);
            if g != show(&want) {
                return Err(format!("answered {got:?}, expected {want:?}"));
            }
        }
        let db = sys.db.as_ref().unwrap();
        for k in 0..self.keys {
            let got = db.execute_key_operation(op(k, Command::Get { delete: false })).map_err(|e| e.to_string())?;
            let want = if t[k].val == 0 { None } else { Some(value(t[k].val)) };
            match got {
                Output::Value(v) if v == want => {}
                o => return Err(format!("afterwards key {k} reads {o:?}, expected {want:?}")),
            }
        }
        Ok(())
    }
    fn life(&self) -> usize {
        5000
    }
}

fn numbers() -> Vec<Numeric> {
    let mut v = vec![];
    for x in [0, 1, -1, 2, i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 1 << 53, (1 << 53) + 1] {
        v.push(Numeric::Integer(x));
    }
    for x in [0, 1, 2, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 53] {
        v.push(Numeric::UnsignedInteger(x));
    }
    for x in [0.0, -0.0, 0.5, -1.5, 1.0, -1.0, 1e-17, 1e300, -1e300, 9.2e18, 1.8446744073709552e19, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE] {
        v.push(Numeric::Float(x));
    }
    v
}
/// Every pair of boundary numbers, both directions, saturating or not.
fn arithmetic(acc: &mut Acc) -> Result<(), String> {
    let kv = Kv { keys: 1, full: true, policy: Policy::Never, reopen: false };
    let sys = kv.fresh()?;
    let db = sys.db.clone().unwrap();
    for a in numbers() {
        for b in numbers() {
            for (sat, add) in [(true, true), (true, false), (false, true), (false, false)] {
                acc.at(&format!("{a:?} {} {b:?}, saturating: {sat}", if add { '+' } else { '-' }));
                acc.count("transitions", 1);
                acc.count("numeric_cases", 1);
                let set = |v: &Numeric| {
                    db.execute_key_operation(op(0, Command::Set(SetCommand { value: Value::Numeric(v.clone()), expiration: None, keep_existing_expiration: false, check: None, return_previous_value: false })))
                };
                set(&a).map_err(|e| e.to_string())?;
                let (amount, saturating) = (b.clone(), sat);
                let r = db.execute_key_operation(op(0, if add { Command::Increment { amount, saturating } } else { Command::Decrement { amount, saturating } }));
                let want = arith(&a, &b, sat, add);
                let nan = matches!(want, Numeric::Float(f) if f.is_nan());
                let case = format!("{a:?} {} {b:?}, saturating: {sat}", if add { '+' } else { '-' });
                match r {
                    Ok(Output::Value(Some(Value::Numeric(n)))) if !nan && format!("{n:?}") == format!("{want:?}") => {}
                    Err(bonsaidb_core::Error::NotANumber) if nan => {}
                    o => acc.bad(format!("{case}: answered {o:?}, expected {want:?}"), serde_json::json!({"case": case})),
                }
                let stored = db.execute_key_operation(op(0, Command::Get { delete: false })).map_err(|e| e.to_string())?;
                let keep = if nan { &a } else { &want };
                if format!("{stored:?}") != format!("{:?}", Output::Value(Some(Value::Numeric(keep.clone())))) {
                    acc.bad(format!("{case}: stored {stored:?}, expected {keep:?}"), serde_json::json!({"case": case}));
                }
            }
        }
        // checked conversions give the same number or none
        acc.count("numeric_cases", 1);
        let exact_i: Option<i64> = match &a {
            Numeric::Integer(x) => Some(*x),
            Numeric::UnsignedInteger(x) => i64::try_from(*x).ok(),
            Numeric::Float(f) => (*f >= -9.223372036854775808e18 && *f < 9.223372036854775808e18 && f.fract() == 0.0).then(|| *f as i64),
        };
        let exact_u: Option<u64> = match &a {
            Numeric::Integer(x) => u64::try_from(*x).ok(),
            Numeric::UnsignedInteger(x) => Some(*x),
            Numeric::Float(f) => (f.is_sign_positive() && *f < 1.8446744073709552e19 && f.fract() == 0.0).then(|| *f as u64),
        };
        if a.as_i64() != exact_i {
            acc.bad(format!("as_i64 of {a:?} is {:?}, expected {exact_i:?}", a.as_i64()), serde_json::json!({}));
        }
        if a.as_u64() != exact_u {
            acc.bad(format!("as_u64 of {a:?} is {:?}, expected {exact_u:?}", a.as_u64()), serde_json::json!({}));
        }
        if let Some(f) = a.as_f64() {
            let same = match &a {
                Numeric::Integer(x) => f as i128 == i128::from(*x),
                Numeric::UnsignedInteger(x) => f as i128 == i128::from(*x),
                Numeric::Float(x) => x.to_bits() == f.to_bits(),
            };
            if !same {
                acc.bad(format!("as_f64 of {a:?} is {f}"), serde_json::json!({}));
            }
        }
    }
    kv.done(sys);
    // points in time
    for n in [0u32, 1, 400_000_000, 500_000_000, 600_000_000, 999_999_999] {
        for m in [0u32, 1, 400_000_000, 500_000_000, 600_000_000, 999_999_999] {
            let t = Timestamp { seconds: 10, nanos: n } + Duration::new(3, m);
            let d = Duration::new(10, n) + Duration::new(3, m);
            acc.count("numeric_cases", 1);
            if (t.seconds, t.nanos) != (d.as_secs(), d.subsec_nanos()) {
                acc.bad(format!("10.{n:09} s + 3.{m:09} s gives {t:?}"), serde_json::json!({}));
            }
        }
    }
    Ok(())
}
/// Different names are different keys.
fn names(acc: &mut Acc) -> Result<(), String> {
    let kv = Kv { keys: 1, full: true, policy: Policy::Immediate, reopen: false };
    let sys = kv.fresh()?;
    let db = sys.db.clone().unwrap();
    let parts = ["", "a", "b", "ab", "\0", "a\0", "a\0b", "ä"];
    let mut all = vec![];
    for ns in std::iter::once(None).chain(parts.iter().map(|p| Some((*p).to_string()))) {
        for k in parts {
            all.push((ns.clone(), k.to_string()));
        }
    }
    let run = |n: &(Option<String>, String), command| db.execute_key_operation(KeyOperation { namespace: n.0.clone(), key: n.1.clone(), command });
    for (i, n) in all.iter().enumerate() {
        let c = Command::Set(SetCommand { value: Value::Numeric(Numeric::UnsignedInteger(i as u64)), expiration: None, keep_existing_expiration: false, check: None, return_previous_value: false });
        acc.at(&format!("{n:?}"));
        acc.count("transitions", 1);
        run(n, c).map_err(|e| e.to_string())?;
    }
    std::thread::sleep(Duration::from_millis(1));
    for (i, n) in all.iter().enumerate() {
        let got = run(n, Command::Get { delete: false }).map_err(|e| e.to_string())?;
        if !matches!(&got, Output::Value(Some(Value::Numeric(Numeric::UnsignedInteger(x)))) if *x == i as u64) {
            let what = if n.0.as_deref() == Some("") || n.0.is_none() { "the empty namespace and no namespace" } else { "names containing null characters" };
            acc.bad(format!("keys collide: {what}"), serde_json::json!({"name": format!("{n:?}"), "got": format!("{got:?}")}));
        }
    }
    kv.done(sys);
    Ok(())
}

#[derive(Debug, Clone)]
enum Job {
    Walk(usize, bool, Policy, bool, u64, u64),
    Arithmetic,
    Names,
}
pub fn run() -> i32 {
    let mut r = Report::new("C09", "model_checking");
    let mut jobs = vec![Job::Arithmetic, Job::Names];
    let parts = r.pick(8, 16);
    for p in [Policy::Immediate, Policy::Never, Policy::Two, Policy::Second] {
        for i in 0..parts {
            // one key in every way, with reopening
            jobs.push(Job::Walk(1, true, p, true, i, parts));
            jobs.push(Job::Walk(2, r.thorough(), p, true, i, parts));
        }
    }
    if r.thorough() {
        for i in 0..64 {
            jobs.push(Job::Walk(3, false, Policy::Immediate, true, i, 64));
            jobs.push(Job::Walk(3, false, Policy::Second, true, i, 64));
        }
    }
    seq::run(&mut r, Mode::Controlled, jobs, |j, acc| {
        let res = match j {
            Job::Walk(keys, full, policy, reopen, part, parts) => {
                tour::cover(&Kv { keys: *keys, full: *full, policy: *policy, reopen: *reopen }, *part, *parts, acc);
                Ok(())
            }
            Job::Arithmetic => arithmetic(acc),
            Job::Names => names(acc),
        };
        if let Err(e) = res {
            acc.bad(format!("{j:?}: {e}"), serde_json::json!({"failure": e}));
        }
    });
    let st = r.coverage.get("model_states").cloned().unwrap_or_default();
    r.set("states", st);
    let t = r.coverage.get("transitions").cloned().unwrap_or_default();
    r.set("traces_validated_against_impl", t);
    r.set("exhaustive", true);
    r.set("explanation", "states and edges of the key-value model (value, remaining time and write state per key) per persistence policy; every edge is taken on the real store under a virtual clock, its answer and the value of every key compared");
    r.assume("operations take no time on the virtual clock; time passes in whole ticks, at which keys expire");
    r.finish()
}
