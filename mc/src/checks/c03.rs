//! C03: whatever the machine was doing when it stopped, reopening finds every
//! acknowledged change, no part of an unacknowledged transaction, and a
//! database that works.
use std::collections::BTreeMap;

use bonsaidb_core::connection::{Connection, LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::schema::Collection;
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{Database, Storage};

use super::image::crashes;
use super::world::{self, Basic, ByTag, ByV, Simple, World};
use crate::engine;
use crate::os;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// insert or overwrite Simple
    Put(u64, u32),
    Del(u64),
    /// a Basic with a long tag (more than one page)
    Big(u64, u32),
    /// two collections in one transaction
    Both(u32),
    /// so many documents in one transaction that its log entry takes several pages
    Many(u32),
    /// lazy and eager views are brought up to date
    Query,
    CompactCollection,
    Compact,
    NewDb,
    DropDb,
    Reopen,
}

pub type State = BTreeMap<String, Vec<String>>;

/// Everything stored, per database.
pub fn state(s: &Storage) -> Result<State, String> {
    let e = |e: bonsaidb_core::Error| e.to_string();
    let mut out = State::new();
    let mut names: Vec<String> = s.list_databases().map_err(e)?.into_iter().map(|d| d.name).filter(|n| n.starts_with('d')).collect();
    names.sort();
    for n in names {
        let db = s.database::<World>(&n).map_err(e)?;
        let mut v = vec![];
        for c in [Simple::collection_name(), Basic::collection_name()] {
            for d in db.list_from_collection(Range::from(..), Sort::Ascending, None, &c).map_err(e)? {
                v.push(format!("{c} {} {} {:x}", d.header.id, d.header.revision, seq::h(&d.contents.to_vec())));
            }
        }
        for t in db.list_executed_transactions(None, None).map_err(e)? {
            v.push(format!("transaction {}", t.id));
        }
        out.insert(n, v);
    }
    Ok(out)
}
/// The views agree with the documents.
fn views(s: &Storage) -> Result<(), String> {
    let e = |e: bonsaidb_core::Error| e.to_string();
    for d in s.list_databases().map_err(e)? {
        if !d.name.starts_with('d') {
            continue;
        }
        let db = s.database::<World>(&d.name).map_err(e)?;
        let docs: Vec<(u64, Basic)> = db
            .list_from_collection(Range::from(..), Sort::Ascending, None, &Basic::collection_name())
            .map_err(e)?
            .into_iter()
            .map(|d| (d.header.id.deserialize::<u64>().unwrap(), ::pot::from_slice(&d.contents).unwrap()))
            .collect();
        let mut want: Vec<(u32, u64)> = docs.iter().map(|d| (d.1.v, d.0)).collect();
        want.sort_unstable();
        let mut got: Vec<(u32, u64)> = db.view::<ByV>().query().map_err(e)?.into_iter().map(|m| (m.key, m.source.id)).collect();
        got.sort_unstable();
        if got != want {
            return Err(format!("the lazy view lists {got:?}, the documents are {want:?}"));
        }
        let mut want: Vec<(String, u64)> = docs.iter().flat_map(|d| d.1.tags.iter().map(move |t| (t.clone(), d.0))).collect();
        want.sort();
        let mut got: Vec<(String, u64)> = db.view::<ByTag>().query().map_err(e)?.into_iter().map(|m| (m.key, m.source.id)).collect();
        got.sort();
        if got != want {
            return Err(format!("the eager view lists {} entries, the documents give {}", got.len(), want.len()));
        }
    }
    Ok(())
}

fn put(db: &Database, name: &bonsaidb_core::schema::CollectionName, id: u64, c: Vec<u8>) -> Operation {
    let _ = db;
    Operation::overwrite(name.clone(), DocumentId::new(&id).unwrap(), c)
}
pub fn big(v: u32) -> Vec<u8> {
    world::pot(&Basic { v, tags: vec!["t".repeat(5000 + v as usize), format!("x{v}")] })
}

pub struct Sys {
    pub s: Option<Storage>,
    path: String,
}
fn configure(path: &str) -> StorageConfiguration {
    world::config_at(path, false).with_schema::<World>().unwrap()
}
impl Sys {
    /// Performs `o`; false when it does not apply here.
    fn perform(&mut self, o: Op) -> Result<bool, String> {
        let e = |e: bonsaidb_core::Error| format!("{o:?}: {e}");
        let s = self.s.as_ref().unwrap().clone();
        let names: Vec<String> = s.list_databases().map_err(e)?.into_iter().map(|d| d.name).collect();
        if o == Op::NewDb {
            if names.contains(&"d2".to_string()) {
                return Ok(false);
            }
            s.create_database::<World>("d2", false).map_err(e)?;
            return Ok(true);
        }
        if o == Op::DropDb {
            if !names.contains(&"d".to_string()) {
                return Ok(false);
            }
            s.delete_database("d").map_err(e)?;
            return Ok(true);
        }
        if o == Op::Reopen {
            drop(s);
            self.s = None;
            self.s = Some(Storage::open(configure(&self.path)).map_err(|e| format!("reopening: {e}"))?);
            return Ok(true);
        }
        let name = if names.contains(&"d2".to_string()) { "d2" } else { "d" };
        if !names.contains(&name.to_string()) {
            return Ok(false);
        }
        let db = s.database::<World>(name).map_err(e)?;
        match o {
            Op::Put(id, v) => {
                db.apply_transaction(Transaction::new().with(put(&db, &Simple::collection_name(), id, world::pot(&Simple { v })))).map_err(e)?;
            }
            Op::Big(id, v) => {
                db.apply_transaction(Transaction::new().with(put(&db, &Basic::collection_name(), id, big(v)))).map_err(e)?;
            }
            Op::Both(v) => {
                let mut t = Transaction::new();
                t.push(put(&db, &Simple::collection_name(), 1, world::pot(&Simple { v })));
                t.push(put(&db, &Basic::collection_name(), 1, big(v)));
                t.push(put(&db, &Simple::collection_name(), 2, world::pot(&Simple { v: v + 1 })));
                db.apply_transaction(t).map_err(e)?;
            }
            Op::Many(v) => {
                let mut t = Transaction::new();
                for id in (10..130).rev() {
                    t.push(put(&db, &Simple::collection_name(), id, world::pot(&Simple { v })));
                }
                db.apply_transaction(t).map_err(e)?;
            }
            Op::Del(id) => {
                let Some(d) = db.get_from_collection(DocumentId::new(&id).unwrap(), &Simple::collection_name()).map_err(e)? else { return Ok(false) };
                db.apply_transaction(Transaction::new().with(Operation::delete(Simple::collection_name(), d.header))).map_err(e)?;
            }
            Op::Query => {
                db.view::<ByV>().query().map_err(e)?;
                db.view::<ByTag>().query().map_err(e)?;
            }
            Op::CompactCollection => db.compact_collection::<Simple>().map_err(e)?,
            Op::Compact => db.compact().map_err(e)?,
            Op::NewDb | Op::DropDb | Op::Reopen => unreachable!(),
        }
        Ok(true)
    }
}

/// Opens an image and compares.
fn recovered(dir: &str, allowed: &[&State], used: u8) -> Result<State, String> {
    let s = Storage::open(configure(dir)).map_err(|e| format!("opening fails: {e}"))?;
    let got = state(&s)?;
    if !allowed.contains(&&got) {
        let diff: Vec<String> = allowed.iter().map(|a| differ(a, &got)).collect();
        return Err(format!("reopened database differs from the state it should have: {}", diff.join(" / or ")));
    }
    views(&s)?;
    if used > 0 {
        // it goes on working, and keeps what it is given now
        let _ = s.create_database::<World>("d9", true).map_err(|e| format!("creating a database: {e}"))?;
        for n in s.list_databases().map_err(|e| e.to_string())? {
            if n.name.starts_with('d') {
                let db = s.database::<World>(&n.name).map_err(|e| e.to_string())?;
                let mut t = Transaction::new();
                if used != 2 {
                    t.push(put(&db, &Simple::collection_name(), 7, world::pot(&Simple { v: 70 })));
                }
                if used != 3 {
                    t.push(put(&db, &Basic::collection_name(), 7, big(70)));
                }
                db.apply_transaction(t).map_err(|e| format!("writing after the crash: {e}"))?;
            }
        }
        let a = state(&s)?;
        for (n, docs) in &got {
            for d in docs {
                if !a[n].contains(d) {
                    return Err(format!("after one more write, {d} of database {n} is gone"));
                }
            }
            if a[n].len() != docs.len() + if used == 1 { 3 } else { 2 } {
                return Err(format!("after one more write, database {n} holds {:?}", a[n]));
            }
        }
        views(&s)?;
        drop(s);
        let s = Storage::open(configure(dir)).map_err(|e| format!("opening once more fails: {e}"))?;
        let b = state(&s)?;
        if a != b {
            return Err(format!("after one more write and reopening: {}", differ(&a, &b)));
        }
        views(&s)?;
    }
    Ok(got)
}
pub fn differ(want: &State, got: &State) -> String {
    for (n, v) in want {
        match got.get(n) {
            None => return format!("database {n} is missing"),
            Some(g) => {
                for d in v {
                    if !g.contains(d) {
                        return format!("{n} lacks {d}");
                    }
                }
                for d in g {
                    if !v.contains(d) {
                        return format!("{n} has {d}");
                    }
                }
            }
        }
    }
    format!("databases are {:?}, expected {:?}", got.keys(), want.keys())
}

fn alphabet() -> Vec<Op> {
    vec![Op::Put(1, 1), Op::Put(2, 2), Op::Del(1), Op::Big(1, 3), Op::Both(5), Op::Query, Op::CompactCollection, Op::Compact, Op::NewDb, Op::DropDb, Op::Reopen]
}

/// Runs a history and looks at every crash during its last operation.
fn history(h: &[Op], acc: &mut Acc) -> Result<(), String> {
    let root = engine::scratch();
    let (live, scratch) = (format!("{root}/live"), format!("{root}/img"));
    os::raw(|| {
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).unwrap();
    });
    // opening is part of the first history
    let first = h.is_empty();
    if first {
        os::start_log(&root);
    }
    let mut x = Sys { s: Some(Storage::open(configure(&live)).map_err(|e| e.to_string())?), path: live.clone() };
    os::mark(0);
    let empty = State::new();
    let mut before = empty.clone();
    let mut after = empty.clone();
    if !first {
        x.s.as_ref().unwrap().create_database::<World>("d", false).map_err(|e| e.to_string())?;
        for (i, o) in h.iter().enumerate() {
            if i + 1 == h.len() {
                before = state(x.s.as_ref().unwrap())?;
                os::start_log(&live);
            }
            if !x.perform(*o)? {
                os::stop_log_if();
                return Ok(());
            }
            if i + 1 == h.len() {
                os::mark(1);
                after = state(x.s.as_ref().unwrap())?;
            }
        }
    }
    // a quiet moment for background work, then the orderly end
    drop(x.s.take());
    let log = os::stop_log();
    let mut fails = vec![];
    let every = crate::seq::h(&h) % 3 == 0;
    let (points, images) = crashes(&live, &log, 0, &scratch, |p, settle| {
        let (dir, what, mark, done) = (p.dir, p.what, p.mark, p.done);
        let want: Vec<&State> = if first {
            vec![&empty]
        } else if mark.is_some() {
            vec![&after]
        } else {
            vec![&before, &after]
        };
        acc.at(&format!("{h:?}: {what}"));
        let used = if h.len() < 2 || every { 1 + (done % 3) as u8 } else { 0 };
        match recovered(dir, &want, used) {
            Ok(s) => {
                acc.outcome(&s);
            }
            // the storage engine gives up on a torn page instead of stepping back
            Err(e) if what.contains("(Torn(") && (e.contains("failed to fill whole buffer") || e.contains("crc32 failure")) => {
                acc.bad("a torn write in a tree file: the tree cannot be opened".into(), serde_json::json!({"history": format!("{h:?}"), "failure": e}));
            }
            // nor does it step back from a log entry with pages missing
            Err(e) if e.contains("failed to fill whole buffer") && super::image::cut_log(dir) => {
                acc.bad("a log entry of several pages was cut off: the database cannot be opened".into(), serde_json::json!({"history": format!("{h:?}"), "failure": e, "crash": what}));
            }
            // directory first, record second
            Err(e) if h.last() == Some(&Op::DropDb) && !e.contains("opening fails") && mark.is_none() && log.ops[..done].iter().any(|o| matches!(o, os::FOp::Unlink { path } if path.contains("/d/"))) => {
                acc.bad("a crash while delete_database removes files: the database is listed without its contents".into(), serde_json::json!({"history": format!("{h:?}"), "failure": e}));
            }
            // a transaction after the crash gets the number of the interrupted one
            Err(e) if !e.starts_with("opening fails") && settle() && recovered(dir, &want, used).is_ok() => {
                acc.bad("trees written by an interrupted transaction are taken as committed once its number is reused".into(), serde_json::json!({"history": format!("{h:?}"), "failure": e, "crash": what}));
            }
            Err(e) => fails.push(format!("{what}: {e}")),
        }
        fails.len() < 3
    });
    acc.count("crash_points", points);
    acc.count("crash_images", images);
    acc.count("histories", 1);
    acc.count("transitions", log.ops.len() as u64);
    if h.len() == 1 {
        acc.sample(serde_json::json!({"history": format!("{h:?}"), "crash_points": points, "images": images}));
    }
    os::raw(|| {
        let _ = std::fs::remove_dir_all(&root);
    });
    match fails.into_iter().next() {
        None => Ok(()),
        Some(f) => Err(f),
    }
}

pub fn run() -> i32 {
    let mut r = Report::new("C03", "fault_enumeration");
    let big = r.thorough();
    let a = alphabet();
    let depth = if big { 4 } else { 3 };
    let mut hs: Vec<Vec<Op>> = vec![vec![]];
    let mut level = hs.clone();
    for _ in 0..depth {
        level = level.iter().flat_map(|h| a.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
        hs.extend(level.iter().cloned());
    }
    hs.push(vec![Op::Many(1)]);
    for o in &a {
        hs.push(vec![*o, Op::Many(1)]);
        hs.push(vec![Op::Many(1), *o]);
    }
    let jobs: Vec<Vec<Vec<Op>>> = hs.chunks(if big { 16 } else { 4 }).map(<[_]>::to_vec).collect();
    seq::run(&mut r, Mode::Controlled, jobs, |hs, acc| {
        for h in hs {
            if let Err(e) = history(h, acc) {
                acc.bad(format!("{h:?}: {e}"), serde_json::json!({"history": format!("{h:?}"), "failure": e}));
            }
        }
    });
    let im = r.coverage.get("crash_images").cloned().unwrap_or_default();
    r.set("states", im.clone());
    r.set("traces_validated_against_impl", im);
    r.set("exhaustive", true);
    r.set("explanation", "every file operation of the last operation of every history is a crash point; crash_images counts the distinct disks that follow (all writes applied, the next write torn, unsynced writes lost everywhere or in one file), each reopened with the real code");
    r.assume("file creation, renaming and removal reach the disk in order; unsynced data may be lost or kept per file");
    r.finish()
}
