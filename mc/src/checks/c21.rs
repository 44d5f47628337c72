//! C21: compacting changes nothing that can be observed.
use std::collections::BTreeMap;

use bonsaidb_core::connection::{Connection, LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::document::{CollectionDocument, DocumentId, Emit, KeyId};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, CollectionName, ReduceResult, Schema, SerializedCollection, View, ViewMapResult, ViewMappedValue, ViewSchema,
};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::{Builder, Compression, StorageConfiguration};
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::world::{self, Basic, ByTag, ByV};
use crate::engine::{self, par, Env, Replay};
use crate::report::Report;
use crate::sched;
use crate::seq::{self, Acc, Mode};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}

/// A collection that is always encrypted.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash, Collection)]
#[collection(name = "secret", primary_key = u64, views = [SecretText, SecretTag], encryption_key = Some(KeyId::Master))]
pub struct Secret {
    pub text: String,
    pub tags: Vec<String>,
}
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Secret, key = String, value = String, name = "text")]
pub struct SecretText;
impl CollectionMapReduce for SecretText {
    fn map<'doc>(&self, d: CollectionDocument<Secret>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.text.clone(), d.contents.text)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self::View> {
        let mut all: Vec<String> = m.iter().map(|m| m.value.clone()).collect();
        all.sort();
        Ok(all.join(","))
    }
}
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Secret, key = String, value = u32, name = "tag")]
#[view_schema(policy = Eager)]
pub struct SecretTag;
impl CollectionMapReduce for SecretTag {
    fn map<'doc>(&self, d: CollectionDocument<Secret>) -> ViewMapResult<'doc, Self> {
        d.contents.tags.iter().map(|t| d.header.emit_key_and_value(t.clone(), 1)).collect()
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
#[derive(Debug, Schema)]
#[schema(name = "vaulted", collections = [Basic, Secret, Raw])]
pub struct Vaulted;
/// Documents of any bytes.
#[derive(Debug, Clone, Serialize, Deserialize, Collection)]
#[collection(name = "raw", primary_key = u64)]
pub struct Raw;

/// What is encrypted and compressed by default.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Conf {
    pub key: bool,
    pub lz4: bool,
}
pub const CONFS: [Conf; 4] = [Conf { key: false, lz4: false }, Conf { key: true, lz4: false }, Conf { key: false, lz4: true }, Conf { key: true, lz4: true }];
impl Conf {
    pub fn apply(self, mut c: StorageConfiguration) -> StorageConfiguration {
        c.default_encryption_key = self.key.then_some(KeyId::Master);
        c.default_compression = self.lz4.then_some(Compression::Lz4);
        c
    }
}

pub fn fill(n: u32) -> String {
    // long enough to be compressed
    format!("text {n} ").repeat(30)
}

type Docs = BTreeMap<u64, Vec<u8>>;
/// Everything that can be seen of a database.
#[derive(Debug, PartialEq, Clone)]
pub struct Seen {
    docs: BTreeMap<CollectionName, BTreeMap<u64, (String, Vec<u8>)>>,
    views: Vec<(String, String, u64)>,
    reduced: Vec<String>,
    keys: Vec<Option<u64>>,
    log: Vec<String>,
}
pub fn observe(db: &Database, log: bool) -> Result<Seen, String> {
    let mut docs = BTreeMap::new();
    for c in [Basic::collection_name(), Secret::collection_name()] {
        let mut m = BTreeMap::new();
        for d in db.list_from_collection(Range::from(..), Sort::Ascending, None, &c).map_err(|e| format!("listing {c}: {e}"))? {
            let got = db.get_from_collection(d.header.id.clone(), &c).map_err(|e| format!("get from {c}: {e}"))?;
            if got.as_ref().map(|g| (&g.header, &g.contents)) != Some((&d.header, &d.contents)) {
                return Err(format!("listed {:?} got {:?}", d.header, got.map(|g| g.header)));
            }
            m.insert(d.header.id.deserialize::<u64>().map_err(es)?, (d.header.revision.to_string(), d.contents.to_vec()));
        }
        docs.insert(c, m);
    }
    let mut views = vec![];
    let mut reduced = vec![];
    macro_rules! view {
        ($v:ty) => {
            let name = stringify!($v);
            for m in db.view::<$v>().query().map_err(|e| format!("view {name}: {e}"))?.iter() {
                views.push((name.into(), format!("{:?}={:?}", m.key, m.value), m.source.id));
            }
            reduced.push(format!("{:?}", db.view::<$v>().reduce().map_err(|e| format!("reduce {name}: {e}"))?));
        };
    }
    view!(ByV);
    view!(ByTag);
    view!(SecretText);
    view!(SecretTag);
    let keys = ["a", "b"].iter().map(|k| db.get_key(*k).into_u64().map_err(es)).collect::<Result<_, _>>()?;
    let log = if log { db.list_executed_transactions(None, None).map_err(|e| format!("log: {e}"))?.iter().map(|e| format!("{e:?}")).collect() } else { vec![] };
    views.sort();
    Ok(Seen { docs, views, reduced, keys, log })
}
/// What the documents say the rest should be.
#[derive(Default, Clone, Debug)]
pub struct Model {
    basic: Docs,
    secret: Docs,
    keys: [Option<u64>; 2],
}
impl Model {
    pub fn check(&self, s: &Seen) -> Result<(), String> {
        let bytes = |c: CollectionName| -> Docs { s.docs[&c].iter().map(|(k, v)| (*k, v.1.clone())).collect() };
        for (want, c) in [(&self.basic, Basic::collection_name()), (&self.secret, Secret::collection_name())] {
            let got = bytes(c.clone());
            if got != *want {
                return Err(format!("{c} holds {:?}, expected {:?}", got.keys(), want.keys()));
            }
        }
        let mut views = vec![];
        for (i, b) in &self.basic {
            let d: Basic = pot::from_slice(b).map_err(es)?;
            views.push(("ByV".to_string(), format!("{:?}={:?}", d.v, d.v), *i));
            views.extend(d.tags.iter().map(|t| ("ByTag".into(), format!("{t:?}=1"), *i)));
        }
        for (i, b) in &self.secret {
            let d: Secret = pot::from_slice(b).map_err(es)?;
            views.push(("SecretText".to_string(), format!("{:?}={:?}", d.text, d.text), *i));
            views.extend(d.tags.iter().map(|t| ("SecretTag".into(), format!("{t:?}=1"), *i)));
        }
        views.sort();
        if views != s.views {
            let short = |v: &Vec<(String, String, u64)>| v.iter().map(|v| format!("{} {} {}", v.0, &v.1[..v.1.len().min(12)], v.2)).collect::<Vec<_>>();
            return Err(format!("the views hold {:?}, expected {:?}", short(&s.views), short(&views)));
        }
        if s.keys != self.keys {
            return Err(format!("the keys are {:?}, expected {:?}", s.keys, self.keys));
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum A {
    /// writes a document of Basic / Secret
    Put(bool, u64),
    Del(bool, u64),
    Set,
    Unset,
    Query,
    /// the database, a collection, the keys
    All,
    Coll(bool),
    Keys,
    Reopen,
}
impl A {
    pub fn compacts(self) -> bool {
        matches!(self, A::All | A::Coll(_) | A::Keys)
    }
}
pub struct Sys {
    pub conf: StorageConfiguration,
    pub s: Option<Storage>,
    pub db: Option<Database>,
    pub m: Model,
    pub n: u32,
}
pub fn put(db: &Database, secret: bool, id: u64, n: u32) -> Result<Vec<u8>, String> {
    let tags = (0..n % 3).map(|t| format!("tag{t}")).collect();
    let (c, v) = if secret { (Secret::collection_name(), world::pot(&Secret { text: fill(n), tags })) } else { (Basic::collection_name(), world::pot(&Basic { v: n, tags })) };
    Transaction::new().with(Operation::overwrite(c, DocumentId::from_u64(id), v.clone())).apply(db).map_err(es)?;
    Ok(v)
}
pub fn del(db: &Database, secret: bool, id: u64) -> Result<(), String> {
    if secret {
        if let Some(d) = Secret::get(&id, db).map_err(es)? {
            d.delete(db).map_err(es)?;
        }
    } else if let Some(d) = Basic::get(&id, db).map_err(es)? {
        d.delete(db).map_err(es)?;
    }
    Ok(())
}
pub fn compact(db: &Database, a: A) -> Result<(), String> {
    match a {
        A::All => db.compact(),
        A::Coll(true) => db.compact_collection::<Secret>(),
        A::Coll(false) => db.compact_collection::<Basic>(),
        _ => db.compact_key_value_store(),
    }
    .map_err(|e| format!("compacting: {e}"))
}
impl Sys {
    pub fn open(conf: StorageConfiguration) -> Result<Self, String> {
        let mut s = Sys { conf, s: None, db: None, m: Model::default(), n: 0 };
        s.reopen()?;
        Ok(s)
    }
    pub fn reopen(&mut self) -> Result<(), String> {
        self.db = None;
        self.s = None;
        let s = Storage::open(self.conf.clone().with_schema::<Vaulted>().map_err(es)?).map_err(|e| format!("opening: {e}"))?;
        self.db = Some(s.create_database::<Vaulted>("d", true).map_err(es)?);
        self.s = Some(s);
        Ok(())
    }
    pub fn db(&self) -> &Database {
        self.db.as_ref().unwrap()
    }
    pub fn act(&mut self, a: A) -> Result<(), String> {
        self.n += 1;
        let n = self.n;
        match a {
            A::Put(s, i) => {
                let v = put(self.db(), s, i, n)?;
                if s { &mut self.m.secret } else { &mut self.m.basic }.insert(i, v);
            }
            A::Del(s, i) => {
                del(self.db(), s, i)?;
                if s { &mut self.m.secret } else { &mut self.m.basic }.remove(&i);
            }
            A::Set => {
                self.db().set_numeric_key("a", u64::from(n)).execute().map_err(es)?;
                self.m.keys[0] = Some(u64::from(n));
            }
            A::Unset => {
                self.db().delete_key("a").map_err(es)?;
                self.m.keys[0] = None;
            }
            A::Query => {
                self.db().view::<ByV>().query().map_err(es)?;
                self.db().view::<SecretText>().query().map_err(es)?;
            }
            A::All | A::Coll(_) | A::Keys => compact(self.db(), a)?,
            A::Reopen => self.reopen()?,
        }
        Ok(())
    }
}
pub fn settle() {
    std::thread::sleep(std::time::Duration::from_millis(3));
}

/// Fills a database: several nodes of documents, some of them deleted, views
/// up to date except for a few documents.
fn populate(s: &mut Sys, many: u64) -> Result<(), String> {
    let mut tx = Transaction::new();
    for i in 10..10 + many {
        let b = world::pot(&Basic { v: i as u32 % 7, tags: vec!["t".into()] });
        let c = world::pot(&Secret { text: fill(i as u32), tags: vec!["t".into()] });
        tx.push(Operation::overwrite(Basic::collection_name(), DocumentId::from_u64(i), b.clone()));
        tx.push(Operation::overwrite(Secret::collection_name(), DocumentId::from_u64(i), c.clone()));
        s.m.basic.insert(i, b);
        s.m.secret.insert(i, c);
    }
    tx.apply(s.db()).map_err(es)?;
    for a in [A::Put(false, 1), A::Put(true, 1), A::Query, A::Del(false, 10), A::Del(true, 11), A::Put(false, 2), A::Set] {
        s.act(a)?;
    }
    s.db().set_numeric_key("b", 5u64).execute().map_err(es)?;
    s.m.keys[1] = Some(5);
    Ok(())
}

#[derive(Debug)]
enum J {
    /// all sequences that begin with this
    Seq { mem: bool, conf: Conf, init: u64, first: A, depth: usize },
}
const VOCAB: [A; 10] = [A::Put(false, 1), A::Put(true, 1), A::Del(false, 1), A::Del(true, 1), A::Set, A::Unset, A::All, A::Coll(true), A::Query, A::Reopen];

fn walk(j: &J, acc: &mut Acc) {
    let J::Seq { mem, conf, init, first, depth } = j;
    let mut rest = vec![];
    let mut todo = vec![vec![*first]];
    // sequences that compact, and end with it or with something after it
    while let Some(s) = todo.pop() {
        if s.len() < *depth {
            for a in VOCAB {
                if a == A::Reopen && (*mem || s.last() == Some(&a)) {
                    continue;
                }
                let mut t = s.clone();
                t.push(a);
                todo.push(t);
            }
        } else if s.iter().any(|a| a.compacts()) {
            rest.push(s);
        }
    }
    for s in rest {
        let name = format!("{conf:?} in memory {mem}, {init} documents: {s:?}");
        acc.at(&name);
        let res = engine::no_panic(|| -> Result<(), String> {
            let mut sys = Sys::open(conf.apply(world::config(*mem)))?;
            if *init > 0 {
                populate(&mut sys, *init)?;
            }
            for a in &s {
                let before = if a.compacts() {
                    settle();
                    // what is compared must not bring the views up to date
                    Some(sys.db().list_executed_transactions(None, None).map_err(es)?.len())
                } else {
                    None
                };
                sys.act(*a).map_err(|e| format!("{a:?}: {e}"))?;
                if let Some(b) = before {
                    let now = sys.db().list_executed_transactions(None, None).map_err(es)?.len();
                    if now != b {
                        return Err(format!("{a:?}: the log had {b} entries, now {now}"));
                    }
                }
                acc.count("transitions", 1);
            }
            let seen = observe(sys.db(), true)?;
            sys.m.check(&seen)?;
            settle();
            let seen = observe(sys.db(), true)?;
            // again, with everything up to date
            compact(sys.db(), A::All)?;
            let again = observe(sys.db(), true)?;
            if again != seen {
                return Err("something changed when it was compacted at the end".into());
            }
            if !*mem {
                sys.reopen()?;
                let again = observe(sys.db(), true)?;
                if again != seen {
                    return Err("something changed when it was opened again".into());
                }
            }
            acc.outcome(&format!("{seen:?}"));
            Ok(())
        });
        acc.count("sequences", 1);
        match res {
            Ok(Ok(())) => acc.sample(json!({"sequence": name})),
            Ok(Err(e)) => acc.bad(format!("{name}: {e}"), json!({"sequence": name})),
            Err(e) => acc.bad(format!("{name}: panicked: {e}"), json!({"sequence": name})),
        }
    }
}

// ---------------------------------------------------------------- schedules

#[derive(Clone, Copy, Debug)]
enum T {
    Put(bool, u64),
    Del(bool),
    Set(&'static str),
    Query,
    Read,
    Compact(A),
}
#[derive(Clone, Debug)]
struct Sc {
    mem: bool,
    conf: Conf,
    threads: Vec<Vec<T>>,
}
fn conc(p: &Sc, _e: &Env) -> Result<String, String> {
    sched::region(false);
    let mut c = p.conf.apply(world::config(p.mem));
    c.workers.worker_count = 2;
    let mut sys = Sys::open(c)?;
    for a in [A::Put(false, 1), A::Put(true, 1), A::Put(true, 2), A::Query, A::Put(false, 2), A::Set] {
        sys.act(a)?;
    }
    settle();
    let mut m = sys.m.clone();
    let db = sys.db().clone();
    sched::region(true);
    let mut jobs: Vec<Box<dyn FnOnce() -> Result<Vec<(T, Vec<u8>)>, String> + Send>> = vec![];
    for (n, t) in p.threads.iter().enumerate() {
        let (t, db, m) = (t.clone(), db.clone(), m.clone());
        let exclusive = p.threads.iter().flatten().filter(|t| !matches!(t, T::Compact(_) | T::Read | T::Query)).count() == 0;
        jobs.push(Box::new(move || {
            let mut out = vec![];
            for (k, t) in t.into_iter().enumerate() {
                let v = match t {
                    T::Put(s, i) => put(&db, s, i, 50 + 10 * n as u32 + k as u32).map_err(|e| format!("{t:?}: {e}"))?,
                    T::Del(s) => {
                        del(&db, s, 1).map_err(|e| format!("{t:?}: {e}"))?;
                        vec![]
                    }
                    T::Set(k) => {
                        db.set_numeric_key(k, 77u64).execute().map_err(|e| format!("{t:?}: {e}"))?;
                        vec![]
                    }
                    T::Query => {
                        db.view::<ByV>().query().map_err(|e| format!("{t:?}: {e}"))?;
                        let got = db.view::<SecretText>().query().map_err(|e| format!("{t:?}: {e}"))?.len();
                        if exclusive && got != 2 {
                            return Err(format!("{t:?} found {got}"));
                        }
                        vec![]
                    }
                    T::Read => {
                        let seen = observe(&db, false).map_err(|e| format!("{t:?}: {e}"))?;
                        if exclusive {
                            m.check(&seen)?;
                        }
                        vec![]
                    }
                    T::Compact(a) => {
                        compact(&db, a)?;
                        vec![]
                    }
                };
                out.push((t, v));
            }
            Ok(out)
        }));
    }
    let rs = par(jobs);
    sched::region(false);
    for r in rs {
        for (t, v) in r? {
            match t {
                T::Put(s, i) => {
                    if s { &mut m.secret } else { &mut m.basic }.insert(i, v);
                }
                T::Del(s) => {
                    if s { &mut m.secret } else { &mut m.basic }.remove(&1);
                }
                T::Set(k) => m.keys[usize::from(k == "b")] = Some(77),
                _ => {}
            }
        }
    }
    let seen = observe(&db, true)?;
    m.check(&seen)?;
    drop(db);
    if !p.mem {
        settle();
        let seen = observe(sys.db(), true)?;
        sys.reopen()?;
        if observe(sys.db(), true)? != seen {
            return Err("something changed when it was opened again".into());
        }
    }
    Ok(format!("{} {}", seen.log.len(), seq::h(&format!("{:?}", seen.views))))
}
fn programs(big: bool) -> Vec<(String, Sc, usize)> {
    let b = if big { 3 } else { 1 };
    let mut out = vec![];
    let c = T::Compact;
    for (mem, conf) in [(true, CONFS[0]), (false, CONFS[0]), (false, CONFS[3])] {
        for (k, t) in [
            vec![vec![T::Put(false, 1)], vec![c(A::Coll(false))]],
            vec![vec![T::Put(true, 3), T::Del(true)], vec![c(A::Coll(true))]],
            vec![vec![T::Read], vec![c(A::All)]],
            vec![vec![T::Query], vec![c(A::All)]],
            vec![vec![T::Set("a"), T::Set("b")], vec![c(A::Keys)]],
            vec![vec![c(A::All)], vec![c(A::All)]],
            vec![vec![c(A::Coll(true))], vec![c(A::All)], vec![T::Put(true, 1)]],
            vec![vec![T::Put(false, 3), T::Query], vec![c(A::Coll(false))], vec![T::Put(true, 3)]],
        ]
        .into_iter()
        .enumerate()
        {
            // (a reader that is not blocked by a compaction in memory goes
            // round and round until it is over: long executions)
            let part = if mem { k != 2 } else { conf.key && k < 3 };
            if !big && !part {
                continue;
            }
            let s = Sc { mem, conf, threads: t };
            out.push((format!("{s:?}"), s, b));
        }
    }
    out
}

pub fn run() -> i32 {
    let mut r = Report::new("C21", "model_checking");
    let big = r.thorough();
    let mut jobs = vec![];
    for conf in CONFS {
        for mem in [false, true] {
            for first in VOCAB {
                if first != A::Reopen {
                    jobs.push(J::Seq { mem, conf, init: 0, first, depth: r.pick(3, 4) });
                    jobs.push(J::Seq { mem, conf, init: 4, first, depth: r.pick(2, 3) });
                }
            }
            jobs.push(J::Seq { mem, conf, init: 150, first: A::All, depth: 2 });
            jobs.push(J::Seq { mem, conf, init: 150, first: A::Coll(true), depth: 2 });
        }
    }
    seq::run(&mut r, Mode::Controlled, jobs, |j, a| walk(j, a));
    if r.violations.is_empty() {
        super::explore_all(&mut r, programs(big), if big { 1500.0 } else { 14.0 }, conc);
    }
    r.finish()
}
pub fn replay(f: &Replay) -> i32 {
    for (n, p, _) in programs(true) {
        if n == f.scenario {
            engine::run_one(&|e: &Env| conc(&p, e), &f.dev, true).show();
            return 1;
        }
    }
    2
}
