//! C15: databases are created, found, listed and deleted by name, and each
//! holds its own contents only.
use bonsaidb_core::connection::{Connection, StorageConnection};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::schema::{Schema, SchemaName, SerializedCollection};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, DatabaseNonBlocking, Storage};
use serde_json::json;

use super::world::{self, Basic, ByTag, ByV, Plain, Simple, World};
use crate::report::Report;
use crate::seq::{self, Acc, Mode};
use crate::tour::{self, Graph};
use crate::{engine, os};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}

#[derive(Debug, Schema)]
#[schema(name = "other", collections = [Basic, Simple])]
struct Other;
#[derive(Debug, Schema)]
#[schema(name = "unregistered", collections = [Plain])]
struct Unregistered;

/// One is a prefix of the other.
const NAMES: [&str; 2] = ["d", "d.1"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct D {
    /// 0: does not exist, 1: World, 2: Other
    schema: u8,
    /// what was written last (0: nothing)
    c: u8,
    /// the views were queried since
    indexed: bool,
    /// an earlier database of this name had indexed contents
    was: bool,
}
type S = [D; 2];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum A {
    Create(usize, u8, bool),
    Delete(usize),
    Put(usize, u8),
    Views(usize),
    Compact(usize),
    Restart,
}
pub struct Life {
    /// the second database is used in all ways, too
    full: bool,
    mem: bool,
    integrity: bool,
    /// look at nothing the action does not need
    quiet: bool,
}
pub struct Sys {
    s: Option<Storage>,
    path: String,
}

fn name_of(schema: u8) -> SchemaName {
    if schema == 1 {
        World::schema_name()
    } else {
        Other::schema_name()
    }
}
fn get(s: &Storage, name: &str, schema: u8) -> Result<Database, Error> {
    match schema {
        1 => s.database::<World>(name),
        2 => s.database::<Other>(name),
        _ => s.database::<Unregistered>(name),
    }
}

/// The documents and keys of a database that `put(c)` was applied to.
fn holds(db: &Database, c: u8) -> Result<(), String> {
    let n = db.name();
    let simple: Vec<(u64, u32)> = Simple::all(db).query().map_err(es)?.into_iter().map(|d| (d.header.id, d.contents.v)).collect();
    let basic: Vec<(u64, Basic)> = Basic::all(db).query().map_err(es)?.into_iter().map(|d| (d.header.id, d.contents)).collect();
    let kv: Option<u64> = db.get_key("k").into_u64().map_err(es)?;
    let want_s: Vec<(u64, u32)> = (1..=u64::from(c)).map(|i| (i, u32::from(c))).collect();
    let want_b: Vec<(u64, Basic)> = (1..=u64::from(c)).map(|i| (i, basic_of(c))).collect();
    let want_k = (c > 0).then_some(u64::from(c));
    if simple != want_s || basic != want_b || kv != want_k {
        return Err(format!("{n} holds {simple:?} {basic:?} {kv:?}, not {want_s:?} {want_b:?} {want_k:?}"));
    }
    Ok(())
}
fn basic_of(c: u8) -> Basic {
    Basic { v: u32::from(c), tags: vec![format!("t{c}")] }
}
fn put(db: &Database, c: u8) -> Result<(), String> {
    for i in 1..=2u64 {
        if i <= u64::from(c) {
            Simple { v: u32::from(c) }.overwrite_into(&i, db).map_err(es)?;
            basic_of(c).overwrite_into(&i, db).map_err(es)?;
        } else {
            if let Some(d) = Simple::get(&i, db).map_err(es)? {
                d.delete(db).map_err(es)?;
            }
            if let Some(d) = Basic::get(&i, db).map_err(es)? {
                d.delete(db).map_err(es)?;
            }
        }
    }
    db.set_numeric_key("k", u64::from(c)).execute().map_err(es)?;
    Ok(())
}
fn views(db: &Database, c: u8) -> Result<(), String> {
    let n = db.name();
    let v: Vec<(u64, u32)> = db.view::<ByV>().query().map_err(es)?.into_iter().map(|m| (m.source.id, m.key)).collect();
    let t: Vec<(u64, String)> = db.view::<ByTag>().query().map_err(es)?.into_iter().map(|m| (m.source.id, m.key)).collect();
    let (mut v, mut t) = (v, t);
    v.sort_unstable();
    t.sort();
    let r = db.view::<ByV>().reduce().map_err(es)?;
    let want_v: Vec<(u64, u32)> = (1..=u64::from(c)).map(|i| (i, u32::from(c))).collect();
    let want_t: Vec<(u64, String)> = (1..=u64::from(c)).map(|i| (i, format!("t{c}"))).collect();
    if v != want_v || t != want_t || r != u32::from(c) * u32::from(c) {
        return Err(format!("the views of {n} hold {v:?} {t:?} {r}, not {want_v:?} {want_t:?} {}", u32::from(c) * u32::from(c)));
    }
    Ok(())
}

impl Life {
    fn open(&self, path: &str) -> Result<Storage, String> {
        let mut c = world::config_at(path, self.mem).with_schema::<World>().unwrap().with_schema::<Other>().unwrap();
        c.views.check_integrity_on_open = self.integrity;
        Storage::open(c).map_err(es)
    }
}
impl Graph for Life {
    type S = S;
    type A = A;
    type Sys = Sys;
    fn start(&self) -> S {
        Default::default()
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        for i in 0..2 {
            for sc in [1, 2] {
                v.extend([A::Create(i, sc, false), A::Create(i, sc, true)]);
            }
            v.push(A::Delete(i));
            if s[i].schema != 0 {
                v.push(A::Put(i, 1));
                v.push(A::Compact(i));
                if i == 0 || self.full {
                    v.extend([A::Put(i, 2), A::Views(i)]);
                }
            }
        }
        if !self.mem {
            v.push(A::Restart);
        }
        v
    }
    fn next(&self, s: &S, a: &A) -> S {
        let mut t = *s;
        match *a {
            A::Create(i, sc, _) if t[i].schema == 0 => t[i].schema = sc,
            A::Create(..) | A::Restart | A::Compact(_) => {}
            A::Delete(i) => t[i] = D { was: s[i].was || s[i].indexed && s[i].c > 0, ..D::default() },
            A::Put(i, c) => {
                t[i].c = c;
                t[i].indexed = false;
            }
            A::Views(i) => t[i].indexed = true,
        }
        t
    }
    fn life(&self) -> usize {
        400
    }
    fn fresh(&self) -> Result<Sys, String> {
        use std::sync::atomic::{AtomicU32, Ordering};
        static N: AtomicU32 = AtomicU32::new(0);
        let path = format!("{}/st{}", engine::scratch(), N.fetch_add(1, Ordering::SeqCst));
        Ok(Sys { s: Some(self.open(&path)?), path })
    }
    fn done(&self, mut sys: Sys) {
        sys.s = None;
        os::raw(|| {
            let _ = std::fs::remove_dir_all(&sys.path);
        });
    }
    fn exec(&self, y: &mut Sys, s: &S, a: &A, t: &S, acc: &mut Acc) -> Result<(), String> {
        let st = y.s.clone().unwrap();
        match *a {
            A::Create(i, sc, need) => {
                let n = NAMES[i];
                let raw = self.quiet || need && s[i].c == 1;
                let r = if raw {
                    st.create_database_with_schema(n, name_of(sc), need).map(|()| None)
                } else if sc == 1 {
                    st.create_database::<World>(n, need).map(Some)
                } else {
                    st.create_database::<Other>(n, need).map(Some)
                };
                let old = s[i].schema;
                let fine = match &r {
                    Ok(_) => old == 0 || need && (old == sc || raw),
                    Err(Error::DatabaseNameAlreadyTaken(x)) => old != 0 && !need && x == n,
                    Err(Error::SchemaMismatch { database_name, .. }) => old != 0 && need && !raw && old != sc && database_name == n,
                    Err(_) => false,
                };
                acc.outcome(&format!("{:?}", r.as_ref().map(|_| ())));
                if !fine {
                    return Err(format!("create answers {:?}", r.map(|_| ())));
                }
                if let Ok(Some(db)) = r {
                    holds(&db, t[i].c)?;
                }
            }
            A::Delete(i) => {
                // (C16: what background tasks make of it)
                std::thread::sleep(std::time::Duration::from_millis(1));
                let r = st.delete_database(NAMES[i]);
                let fine = match &r {
                    Ok(()) => s[i].schema != 0,
                    Err(Error::DatabaseNotFound(n)) => s[i].schema == 0 && n == NAMES[i],
                    Err(_) => false,
                };
                if !fine {
                    return Err(format!("delete answers {r:?}"));
                }
            }
            A::Put(i, c) => put(&get(&st, NAMES[i], s[i].schema).map_err(es)?, c)?,
            A::Views(i) => views(&get(&st, NAMES[i], s[i].schema).map_err(es)?, s[i].c)?,
            A::Compact(i) => get(&st, NAMES[i], s[i].schema).map_err(es)?.compact().map_err(es)?,
            A::Restart => {
                drop(st);
                y.s = None;
                y.s = Some(self.open(&y.path)?);
            }
        }
        if self.quiet {
            return Ok(());
        }
        self.observe(y, t)?;
        acc.outcome(&(a, t));
        Ok(())
    }
}
impl Life {
    fn observe(&self, y: &Sys, t: &S) -> Result<(), String> {
        let st = y.s.clone().unwrap();
        // what is listed
        let mut got: Vec<(String, SchemaName)> = st.list_databases().map_err(es)?.into_iter().map(|d| (d.name, d.schema)).collect();
        got.sort();
        let mut want: Vec<(String, SchemaName)> = (0..2).filter(|i| t[*i].schema != 0).map(|i| (NAMES[i].to_string(), name_of(t[i].schema))).collect();
        want.push(("_admin".to_string(), bonsaidb_core::admin::Admin::schema_name()));
        want.sort();
        if got != want {
            return Err(format!("list_databases gives {got:?}, not {want:?}"));
        }
        let mut got: Vec<SchemaName> = st.list_available_schemas().map_err(es)?.into_iter().map(|s| s.name).collect();
        got.sort();
        let mut want: Vec<SchemaName> = want.into_iter().map(|d| d.1).collect();
        want.sort();
        want.dedup();
        if got != want {
            return Err(format!("list_available_schemas gives {got:?}, not {want:?}"));
        }
        // what is found
        for i in 0..2 {
            for sc in [1, 2, 3] {
                let r = get(&st, NAMES[i], sc);
                let fine = match &r {
                    Ok(_) => t[i].schema == sc,
                    Err(Error::DatabaseNotFound(n)) => t[i].schema == 0 && n == NAMES[i],
                    Err(Error::SchemaMismatch { database_name, stored_schema, .. }) => t[i].schema != 0 && t[i].schema != sc && database_name == NAMES[i] && *stored_schema == name_of(t[i].schema),
                    Err(_) => false,
                };
                if !fine {
                    return Err(format!("database({:?}, {sc}) gives {:?}", NAMES[i], r.map(|_| ())));
                }
                if let Ok(db) = r {
                    holds(&db, t[i].c)?;
                }
            }
        }
        Ok(())
    }
}

/// Every sequence of a few operations, after each of which nothing is looked
/// at: what is there afterwards.
fn blind(part: usize, parts: usize, depth: usize, acc: &mut Acc) {
    let acts = [A::Create(0, 1, true), A::Create(0, 2, true), A::Create(1, 1, false), A::Delete(0), A::Put(0, 1), A::Restart];
    for mem in [false, true] {
        let g = Life { full: true, mem, integrity: false, quiet: true };
        let mut n = 0;
        let mut seq = vec![0; depth];
        loop {
            let list: Vec<A> = seq.iter().map(|k| acts[*k]).filter(|a| !(mem && *a == A::Restart)).collect();
            n += 1;
            if n % parts == part && (!mem || list.len() == depth) {
                acc.at(&format!("{list:?}"));
                acc.count("transitions", list.len() as u64);
                let r = engine::no_panic(|| -> Result<(), String> {
                    let mut y = g.fresh()?;
                    let mut s = g.start();
                    for a in &list {
                        if matches!(a, A::Put(i, _) if s[*i].schema == 0) {
                            continue;
                        }
                        let t = g.next(&s, a);
                        g.exec(&mut y, &s, a, &t, acc)?;
                        s = t;
                    }
                    g.observe(&y, &s)?;
                    acc.outcome(&s);
                    g.done(y);
                    Ok(())
                });
                if let Err(e) | Ok(Err(e)) = r {
                    acc.bad(format!("{list:?}: {e}"), json!({"mem": mem, "operations": format!("{list:?}")}));
                }
            }
            let Some(k) = (0..depth).rev().find(|k| seq[*k] + 1 < acts.len()) else { break };
            seq[k] += 1;
            seq[k + 1..].fill(0);
        }
    }
}

/// Every short name.
fn names(acc: &mut Acc) {
    let (st, _d) = world::world(true);
    let alphabet = ['a', 'Z', '0', '_', '.', '-', '/', ' ', '\\', '\0', 'é', ':'];
    let mut all: Vec<String> = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..3 {
        let mut next = vec![];
        for s in &last {
            for c in alphabet {
                next.push(format!("{s}{c}"));
            }
        }
        all.extend(next.clone());
        last = next;
    }
    for n in all {
        acc.at(&format!("{n:?}"));
        acc.count("names", 1);
        if n.starts_with('_') {
            // reserved
            continue;
        }
        let valid = n.chars().next().is_some_and(|c| c.is_ascii_alphanumeric()) && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-');
        let r = st.create_database_with_schema(&n, World::schema_name(), false);
        let fine = match &r {
            Ok(()) => valid,
            Err(Error::InvalidDatabaseName(x)) => !valid && x == &n,
            Err(_) => false,
        };
        if !fine {
            acc.bad(format!("creating a database named {n:?} answers {r:?}"), json!({"name": n}));
        }
        let there = st.list_databases().unwrap().iter().any(|d| d.name == n);
        if there != valid {
            acc.bad(format!("the database named {n:?} is listed: {there}"), json!({"name": n}));
        }
        if valid {
            if let Err(e) = st.delete_database(&n) {
                acc.bad(format!("deleting the database named {n:?}: {e}"), json!({"name": n}));
            }
        }
    }
    // of a schema nobody registered
    let r = st.create_database::<Unregistered>("u", false).map(|_| ());
    if !matches!(&r, Err(Error::SchemaNotRegistered(s)) if *s == Unregistered::schema_name()) {
        acc.bad(format!("creating a database of an unregistered schema answers {r:?}"), json!({}));
    }
    if st.list_databases().unwrap().iter().any(|d| d.name == "u") {
        acc.bad("a database of an unregistered schema is listed".into(), json!({}));
    }
    // registering twice
    let r = st.register_schema::<World>();
    if !matches!(r, Err(bonsaidb_local::Error::Core(Error::SchemaAlreadyRegistered(_)))) {
        acc.bad(format!("registering a schema twice answers {r:?}"), json!({}));
    }
}

/// Deleting what is not a database leaves everything in place.
fn strays(acc: &mut Acc) {
    let root = format!("{}/strays", engine::scratch());
    let path = format!("{root}/st");
    os::raw(|| {
        for d in ["out", "st/in", "st/d2"] {
            std::fs::create_dir_all(format!("{root}/{d}")).unwrap();
            std::fs::write(format!("{root}/{d}/file"), "x").unwrap();
        }
    });
    let st = Storage::open(world::config_at(&path, false).with_schema::<World>().unwrap()).unwrap();
    let db = st.create_database::<World>("d", false).unwrap();
    put(&db, 2).unwrap();
    for n in ["../out", "in", "d2", "", ".", "..", "d/", "d/.", "./d", "/", "D", "in/", "d/../in", "*", "d\0", &format!("{root}/out")] {
        acc.at(&format!("{n:?}"));
        acc.count("names", 1);
        let r = st.delete_database(n);
        if !matches!(&r, Err(Error::DatabaseNotFound(x)) if x == n) {
            acc.bad(format!("deleting the database {n:?}, which does not exist, answers {r:?}"), json!({"name": n}));
        }
        for d in ["out", "st/in", "st/d2", "st/d", "st/_admin"] {
            if !os::raw(|| std::path::Path::new(&format!("{root}/{d}")).exists()) {
                acc.bad(format!("deleting the database {n:?}, which does not exist, removes {d}"), json!({"name": n}));
                return;
            }
        }
        if let Err(e) = holds(&db, 2) {
            acc.bad(format!("deleting the database {n:?}, which does not exist: {e}"), json!({"name": n}));
        }
    }
}

pub fn run() -> i32 {
    let mut r = Report::new("C15", "model_checking");
    let full = r.thorough();
    let parts = if r.thorough() { 8 } else { 4 };
    let mut jobs: Vec<(u8, u64)> = vec![(9, 0), (8, 0)];
    for p in 0..parts {
        jobs.extend([(0, p), (1, p), (7, p)]);
        if r.thorough() {
            jobs.extend([(2, p), (3, p)]);
        }
    }
    seq::run(&mut r, Mode::Controlled, jobs, |(k, p), a| match k {
        0 => tour::cover(&Life { full, mem: true, integrity: false, quiet: false }, *p, parts, a),
        1 => tour::cover(&Life { full, mem: false, integrity: true, quiet: false }, *p, parts, a),
        2 => tour::cover(&Life { full, mem: true, integrity: true, quiet: false }, *p, parts, a),
        3 => tour::cover(&Life { full, mem: false, integrity: false, quiet: false }, *p, parts, a),
        7 => blind(*p as usize, parts as usize, if full { 6 } else { 4 }, a),
        8 => strays(a),
        _ => names(a),
    });
    r.finish()
}
