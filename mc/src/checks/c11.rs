//! C11: whatever the machine was doing when it stopped, reopening finds the
//! key-value store as it was after one of its commands, no earlier than the
//! persistence policy promises.
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{Connection, StorageConnection};
use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_core::schema::SerializedCollection;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};

use super::c09::{op, policy, Policy};
use super::image::crashes;
use super::world::{self, Simple, World};
use crate::engine;
use crate::os;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// key, value, seconds until it expires (0: never)
    Set(usize, u8, u8),
    /// a value larger than a page
    Big(usize, u8),
    /// key 2 is a counter
    Add(u64),
    Del(usize),
    Take(usize),
    /// a document, in a transaction of its own
    Doc,
    /// whatever is due is written, without time passing
    Settle,
    /// more than a second passes
    Tick,
    Compact,
    Reopen,
}
const SECOND: i64 = 1_000_000_000;
/// The keys a history may use.
fn keys(h: &[Op]) -> Vec<usize> {
    let more = h.iter().filter_map(|o| match o {
        Op::Set(k, ..) if *k > 9 => Some(*k),
        _ => None,
    });
    [0, 1, 2, 3].into_iter().chain(more).collect()
}
/// Values and when they expire.
type Kv = BTreeMap<usize, (String, i64)>;

fn show(v: &Value) -> String {
    match v {
        Value::Bytes(b) => format!("{} bytes, {:?}", b.len(), b.first()),
        Value::Numeric(n) => format!("{n:?}"),
    }
}
fn bytes(v: u8, n: usize) -> Value {
    Value::Bytes(Bytes::from(vec![v; n]))
}
fn live(k: &Kv, now: i64) -> BTreeMap<usize, String> {
    k.iter().filter(|(_, v)| v.1 == 0 || v.1 > now).map(|(k, v)| (*k, v.0.clone())).collect()
}

struct Sys {
    s: Option<Storage>,
    db: Option<Database>,
    path: String,
    p: Policy,
}
fn open(path: &str, p: Policy) -> Result<(Storage, Database), String> {
    let c = world::config_at(path, false).with_schema::<World>().unwrap().key_value_persistence(policy(p));
    let s = Storage::open(c).map_err(|e| format!("opening fails: {e}"))?;
    let db = s.create_database::<World>("d", true).map_err(|e| format!("opening fails: {e}"))?;
    Ok((s, db))
}
fn sleep(ns: i64) {
    std::thread::sleep(Duration::from_nanos(ns as u64));
}

impl Sys {
    /// None when it does not apply here; otherwise the key that it changed.
    fn perform(&mut self, o: Op, m: &mut Kv, docs: &mut usize) -> Result<Option<Option<usize>>, String> {
        let e = |e: bonsaidb_core::Error| format!("{o:?}: {e}");
        let now = os::now_ns();
        let here = live(m, now);
        let run = |k: usize, c: Command| -> Result<Output, String> {
            let o: KeyOperation = op(k, c);
            self.db.as_ref().unwrap().execute_key_operation(KeyOperation { key: format!("{}{k}", o.key), ..o }).map_err(e)
        };
        Ok(Some(match o {
            Op::Set(k, v, secs) => {
                let until = if secs == 0 { 0 } else { now + i64::from(secs) * SECOND + SECOND / 20 };
                let expiration = (secs > 0).then(|| Timestamp { seconds: (until / SECOND) as u64, nanos: (until % SECOND) as u32 });
                let value = bytes(v, 1);
                m.insert(k, (show(&value), until));
                run(k, Command::Set(SetCommand { value, expiration, keep_existing_expiration: false, check: None, return_previous_value: false }))?;
                Some(k)
            }
            Op::Big(k, v) => {
                let value = bytes(v, 9000);
                m.insert(k, (show(&value), 0));
                run(k, Command::Set(SetCommand { value, expiration: None, keep_existing_expiration: false, check: None, return_previous_value: true }))?;
                Some(k)
            }
            Op::Add(n) => match run(2, Command::Increment { amount: Numeric::UnsignedInteger(n), saturating: true })? {
                Output::Value(Some(v)) => {
                    m.insert(2, (show(&v), 0));
                    Some(2)
                }
                o => return Err(format!("adding answered {o:?}")),
            },
            Op::Del(k) | Op::Take(k) => {
                if !here.contains_key(&k) {
                    return Ok(None);
                }
                m.remove(&k);
                run(k, if o == Op::Del(k) { Command::Delete } else { Command::Get { delete: true } })?;
                Some(k)
            }
            Op::Doc => {
                // (of two interrupted transactions, it cannot be told which pages belong to which)
                sleep(1000);
                Simple { v: 1 }.push_into(self.db.as_ref().unwrap()).map_err(|x| e(x.error))?;
                *docs += 1;
                None
            }
            Op::Settle => {
                sleep(1000);
                None
            }
            Op::Tick => {
                sleep(SECOND + SECOND / 10);
                None
            }
            Op::Compact => {
                self.db.as_ref().unwrap().compact_key_value_store().map_err(e)?;
                None
            }
            Op::Reopen => {
                self.db = None;
                self.s = None;
                let (s, d) = open(&self.path, self.p)?;
                self.s = Some(s);
                self.db = Some(d);
                None
            }
        }))
    }
}

fn read(db: &Database, keys: &[usize]) -> Result<BTreeMap<usize, String>, String> {
    let mut out = BTreeMap::new();
    for k in keys.iter().copied().chain([7]) {
        let o = op(k, Command::Get { delete: false });
        match db.execute_key_operation(KeyOperation { key: format!("{}{k}", o.key), ..o }).map_err(|e| format!("reading a key: {e}"))? {
            Output::Value(Some(v)) => {
                out.insert(k, show(&v));
            }
            Output::Value(None) => {}
            o => return Err(format!("a get answered {o:?}")),
        }
    }
    Ok(out)
}

/// Opens an image: one of the allowed states, from then on.
fn recovered(dir: &str, p: Policy, keys: &[usize], allowed: &[&Kv], docs: (usize, usize), used: u8, start: i64) -> Result<u64, String> {
    os::set_now(start);
    let (s, db) = open(dir, p)?;
    let mut possible: Vec<&Kv> = allowed.to_vec();
    let mut seen = vec![];
    let n = Simple::all(&db).count().map_err(|e| e.to_string())? as usize;
    if n < docs.0 || n > docs.1 {
        return Err(format!("{n} documents are found, {docs:?} were added"));
    }
    for t in 0..3 {
        let now = os::now_ns();
        let got = read(&db, keys)?;
        possible.retain(|a| live(a, now) == got);
        if possible.is_empty() {
            let want: BTreeSet<String> = allowed.iter().map(|a| format!("{:?}", live(a, now))).collect();
            return Err(format!("{t} seconds after opening, the keys are {got:?}, which should be one of {want:?}"));
        }
        seen.push(got);
        if used != 1 && t == 0 {
            break;
        }
        if t < 2 {
            sleep(SECOND + SECOND / 10);
        }
    }
    if used > 1 {
        let mut want = seen[0].clone();
        if used == 2 {
            Simple { v: 2 }.push_into(&db).map_err(|e| format!("writing a document after the crash: {}", e.error))?;
        }
        let o = op(7, Command::Set(SetCommand { value: bytes(7, 1), expiration: None, keep_existing_expiration: false, check: None, return_previous_value: false }));
        db.execute_key_operation(KeyOperation { key: format!("{}7", o.key), ..o }).map_err(|e| format!("setting a key after the crash: {e}"))?;
        want.insert(7, show(&bytes(7, 1)));
        if read(&db, keys)? != want {
            return Err(format!("after setting one more key, the keys are {:?}, expected {want:?}", read(&db, keys)?));
        }
        drop((db, s));
        let (_s, db) = open(dir, p).map_err(|e| format!("once more, {e}"))?;
        if read(&db, keys)? != want {
            return Err(format!("after setting one more key and reopening, the keys are {:?}, expected {want:?}", read(&db, keys)?));
        }
        let m = Simple::all(&db).count().map_err(|e| e.to_string())? as usize;
        if m != n + usize::from(used == 2) {
            return Err(format!("after one more change, {m} documents are found instead of {n}"));
        }
    }
    Ok(seq::h(&seen))
}

/// Of the states after 0..=n commands, the first that may be found when the
/// first n commands are done.
fn floor(p: Policy, h: &[Op], changed: &[Option<usize>], n: usize) -> usize {
    let mut lo = 0;
    for j in (1..=n).rev() {
        // so many keys may wait to be written
        let waiting = match (h[j - 1], p) {
            (Op::Reopen, _) => 1,
            (Op::Settle | Op::Tick | Op::Doc, Policy::Immediate) => 1,
            (Op::Settle | Op::Tick | Op::Doc, Policy::Two) => 2,
            (Op::Tick, Policy::Second) => 1,
            _ => continue,
        };
        let mut i = j;
        let mut keys = BTreeSet::new();
        while i > 0 {
            if let Some(k) = changed[i - 1] {
                keys.insert(k);
                if keys.len() >= waiting {
                    break;
                }
            }
            i -= 1;
        }
        lo = lo.max(i);
    }
    lo
}

fn history(p: Policy, h: &[Op], acc: &mut Acc) -> Result<(), String> {
    let root = engine::scratch();
    let (at, scratch) = (format!("{root}/live"), format!("{root}/img"));
    os::raw(|| {
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).unwrap();
    });
    let (s, db) = open(&at, p)?;
    let mut x = Sys { s: Some(s), db: Some(db), path: at.clone(), p };
    let mut states = vec![Kv::new()];
    let mut changed = vec![];
    let mut docs = vec![0];
    for (i, o) in h.iter().enumerate() {
        if i + 1 == h.len() {
            os::start_log(&at);
        }
        let mut m = states[i].clone();
        let mut d = docs[i];
        let Some(c) = x.perform(*o, &mut m, &mut d)? else {
            os::stop_log_if();
            return Ok(());
        };
        states.push(m);
        docs.push(d);
        changed.push(c);
    }
    os::mark(1);
    drop(x.db.take());
    drop(x.s.take());
    // (background jobs may have handles, too, for a moment)
    sleep(1000);
    os::mark(2);
    let log = os::stop_log();
    if std::env::var_os("MC_DEBUG").is_some() {
        let d = super::image::Disk::before(&at, &log);
        for o in &log.ops {
            eprintln!("{h:?} {}", super::image::Disk::describe(o, &d));
        }
    }
    let n = h.len();
    let keys = keys(h);
    let end = os::now_ns();
    let mut fails = vec![];
    let (points, images) = crashes(&at, &log, 0, &scratch, |c, settle| {
        let (lo, hi) = match c.mark {
            None => (floor(p, h, &changed, n - 1), n),
            Some(1) => (floor(p, h, &changed, n), n),
            _ => (n, n),
        };
        let allowed: Vec<&Kv> = states[lo..=hi].iter().collect();
        let docs = (if c.mark.is_none() { docs[n - 1] } else { docs[n] }, docs[n]);
        acc.at(&format!("{p:?} {h:?}: {}", c.what));
        let used = (seq::h(&(h, c.done)) % 3) as u8 + 1;
        let torn = c.what.contains("(Torn(");
        match recovered(c.dir, p, &keys, &allowed, docs, used, end) {
            Ok(o) => acc.outcome(&(n, o)),
            // the storage engine gives up on a torn page instead of stepping back
            Err(e) if torn && (e.contains("failed to fill whole buffer") || e.contains("crc32 failure")) => {
                acc.bad("a torn write in a tree file: the tree cannot be opened".into(), serde_json::json!({"history": format!("{h:?}"), "failure": e}));
            }
            // nor does it step back from a log entry with pages missing
            Err(e) if e.contains("failed to fill whole buffer") && super::image::cut_log(c.dir) => {
                acc.bad("a log entry of several pages was cut off: the database cannot be opened".into(), serde_json::json!({"policy": format!("{p:?}"), "commands": n, "failure": e, "crash": c.what}));
            }
            // a transaction after the crash gets the number of the interrupted one
            Err(e) if !e.starts_with("opening fails") && settle() && recovered(c.dir, p, &keys, &allowed, docs, used, end).is_ok() => {
                acc.bad("trees written by an interrupted transaction are taken as committed once its number is reused".into(), serde_json::json!({"history": format!("{h:?}"), "failure": e}));
            }
            Err(e) => fails.push(format!("{}: {e}", c.what)),
        }
        fails.len() < 3
    });
    acc.count("crash_points", points);
    acc.count("crash_images", images);
    acc.count("histories", 1);
    acc.count("transitions", log.ops.len() as u64);
    if n == 1 {
        acc.sample(serde_json::json!({"policy": format!("{p:?}"), "history": format!("{h:?}"), "crash_points": points, "images": images}));
    }
    os::set_now(end);
    os::raw(|| {
        let _ = std::fs::remove_dir_all(&root);
    });
    fails.into_iter().next().map_or(Ok(()), Err)
}

pub fn run() -> i32 {
    let mut r = Report::new("C11", "fault_enumeration");
    let big = r.thorough();
    let a = [
        Op::Set(0, 1, 0), Op::Set(0, 2, 2), Op::Set(1, 1, 1), Op::Big(3, 1), Op::Add(1), Op::Del(0), Op::Take(1), Op::Doc, Op::Settle, Op::Tick, Op::Compact, Op::Reopen,
    ];
    let writes = |o: &Op| matches!(o, Op::Set(..) | Op::Big(..) | Op::Add(_));
    let mut jobs: Vec<(Policy, Vec<Vec<Op>>)> = vec![];
    for (p, depth) in [(Policy::Immediate, 3), (Policy::Two, 3), (Policy::Second, 3), (Policy::Never, 2)] {
        let mut hs: Vec<Vec<Op>> = vec![];
        let mut level = vec![vec![]];
        for _ in 0..depth + usize::from(big) {
            level = level.iter().flat_map(|h: &Vec<Op>| a.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
            hs.extend(level.iter().filter(|h| writes(&h[0])).cloned());
        }
        // so many keys at once that they would not fit into one batch
        // (in the opposite order of their names)
        let many: Vec<Op> = (0..200).map(|i| Op::Set(999 - i, 1, 0)).collect();
        if p != Policy::Immediate {
            for end in [&[][..], &[Op::Reopen], &[Op::Tick], &[Op::Set(0, 1, 0), Op::Tick]] {
                jobs.push((p, vec![[&many[..], end].concat()]));
            }
        }
        jobs.extend(hs.chunks(if big { 24 } else { 6 }).map(|c| (p, c.to_vec())));
    }
    seq::run(&mut r, Mode::Controlled, jobs, |(p, hs), acc| {
        for h in hs {
            if let Err(e) = history(*p, h, acc) {
                acc.bad(format!("{p:?} {h:?}: {e}"), serde_json::json!({"policy": format!("{p:?}"), "history": format!("{h:?}"), "failure": e}));
            }
        }
    });
    let im = r.coverage.get("crash_images").cloned().unwrap_or_default();
    r.set("states", im.clone());
    r.set("traces_validated_against_impl", im);
    r.set("exhaustive", true);
    r.set("explanation", "every file operation of the last command of every history, of what is written after it, and of closing the database, is a crash point; crash_images counts the distinct disks that follow, each opened by the real code, compared with the states the policy allows and used further");
    r.assume("file creation, renaming and removal reach the disk in order; unsynced data may be lost or kept per file");
    r.finish()
}
