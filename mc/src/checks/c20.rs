//! C20: what was backed up is there again once it is restored, and a backup
//! changes nothing else.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Duration;

use bonsaidb_core::admin::{PermissionGroup, Role, User};
use bonsaidb_core::connection::{Authentication, HasSchema, HasSession, LowLevelConnection, Range, SensitiveString, Sort, StorageConnection};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_core::permissions::bonsai::{BonsaiAction, ServerAction};
use bonsaidb_core::permissions::{ResourceName, Statement};
use bonsaidb_core::schema::{Collection, CollectionName, Schema, SchemaName, SerializedCollection};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{BackupLocation, Database, Storage};
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::c09::{policy, Policy};
use super::world::{self, Basic, Plain, Simple, World};
use crate::engine;
use crate::os;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}

/// Another schema, whose names need escaping.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash, Collection)]
#[collection(name = "na.me_/", authority = "é.x", primary_key = String)]
pub struct Odd {
    pub v: u32,
}
#[derive(Debug, Schema)]
#[schema(name = "odd/_.", authority = "a.b", collections = [Odd, Simple])]
pub struct Odds;
#[derive(Debug, Schema)]
#[schema(name = "empty", collections = [])]
pub struct Empty;

/// A location in memory.
#[derive(Debug, Default)]
struct Mem(Mutex<BTreeMap<(SchemaName, String, String, String), Vec<u8>>>);
#[derive(Debug)]
struct Missing;
impl std::fmt::Display for Missing {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "object missing")
    }
}
impl std::error::Error for Missing {}
impl BackupLocation for Mem {
    type Error = Missing;
    fn store(&self, s: &SchemaName, d: &str, c: &str, n: &str, o: &[u8]) -> Result<(), Missing> {
        self.0.lock().unwrap().insert((s.clone(), d.into(), c.into(), n.into()), o.to_vec());
        Ok(())
    }
    fn list_schemas(&self) -> Result<Vec<SchemaName>, Missing> {
        let m = self.0.lock().unwrap();
        Ok(m.keys().map(|k| k.0.clone()).collect::<BTreeSet<_>>().into_iter().collect())
    }
    fn list_databases(&self, s: &SchemaName) -> Result<Vec<String>, Missing> {
        let m = self.0.lock().unwrap();
        Ok(m.keys().filter(|k| k.0 == *s).map(|k| k.1.clone()).collect::<BTreeSet<_>>().into_iter().collect())
    }
    fn list_stored(&self, s: &SchemaName, d: &str, c: &str) -> Result<Vec<String>, Missing> {
        let m = self.0.lock().unwrap();
        Ok(m.keys().filter(|k| k.0 == *s && k.1 == d && k.2 == c).map(|k| k.3.clone()).collect())
    }
    fn load(&self, s: &SchemaName, d: &str, c: &str, n: &str) -> Result<Vec<u8>, Missing> {
        self.0.lock().unwrap().get(&(s.clone(), d.into(), c.into(), n.into())).cloned().ok_or(Missing)
    }
}
enum Loc {
    Mem(Mem),
    Path(PathBuf),
}
impl Loc {
    fn backup(&self, s: &Storage) -> Result<(), String> {
        match self {
            Loc::Mem(m) => s.backup(m).map_err(es),
            Loc::Path(p) => s.backup(p).map_err(es),
        }
    }
    fn restore(&self, s: &Storage) -> Result<(), String> {
        match self {
            Loc::Mem(m) => s.restore(m).map_err(es),
            Loc::Path(p) => s.restore(p).map_err(es),
        }
    }
}

/// Something to back up. Documents: collection, id, contents.
#[derive(Clone, Debug)]
enum Item {
    Doc(CollectionName, Vec<u8>, Vec<u8>),
    Key(Option<String>, String, Value, Option<Timestamp>),
}
/// Documents and keys of each database.
#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
    docs: BTreeMap<(CollectionName, Vec<u8>), Vec<u8>>,
    keys: BTreeMap<(Option<String>, String), (Value, Option<Timestamp>)>,
}

fn put(db: &Database, i: &Item, m: &mut Model) -> Result<(), String> {
    match i {
        Item::Doc(c, id, v) => {
            let did = DocumentId::try_from(id.as_slice()).map_err(es)?;
            Transaction::new().with(Operation::overwrite(c.clone(), did, v.clone())).apply(db).map_err(es)?;
            m.docs.insert((c.clone(), id.clone()), v.clone());
        }
        Item::Key(n, k, v, e) => {
            let command = Command::Set(SetCommand { value: v.clone(), expiration: *e, keep_existing_expiration: false, check: None, return_previous_value: false });
            db.execute_key_operation(KeyOperation { namespace: n.clone(), key: k.clone(), command }).map_err(es)?;
            let n = n.clone().filter(|n| !n.is_empty());
            m.keys.insert((n, k.clone()), (v.clone(), *e));
        }
    }
    Ok(())
}
fn get(db: &Database, n: &Option<String>, k: &str) -> Result<Option<Value>, String> {
    match db.execute_key_operation(KeyOperation { namespace: n.clone(), key: k.into(), command: Command::Get { delete: false } }).map_err(es)? {
        Output::Value(v) => Ok(v),
        o => Err(format!("{o:?}")),
    }
}
fn now() -> Timestamp {
    let t = os::now_ns();
    Timestamp { seconds: (t / 1_000_000_000) as u64, nanos: (t % 1_000_000_000) as u32 }
}
/// Compares a database with what it should hold. `others`: keys to look for.
fn compare(what: &str, db: &Database, m: &Model, others: &[(Option<String>, String)]) -> Result<(), String> {
    let mut docs = BTreeMap::new();
    for c in db.schematic_collections() {
        for d in db.list_from_collection(Range::from(..), Sort::Ascending, None, &c).map_err(es)? {
            docs.insert((c.clone(), d.header.id.to_vec()), d.contents.to_vec());
        }
    }
    let show = |d: &BTreeMap<(CollectionName, Vec<u8>), Vec<u8>>| {
        d.iter().map(|((c, i), v)| format!("{c} {:?}={}", String::from_utf8_lossy(i), seq::h(v))).collect::<Vec<_>>().join(", ")
    };
    if docs != m.docs {
        return Err(format!("{what} the documents are [{}] instead of [{}]", show(&docs), show(&m.docs)));
    }
    let t = now();
    for (k, (v, e)) in &m.keys {
        let want = e.map_or(true, |e| e > t).then(|| v.clone());
        let got = get(db, &k.0, &k.1)?;
        if got != want {
            return Err(format!("{what} the key {k:?} is {got:?} instead of {want:?}"));
        }
    }
    for k in others.iter().filter(|k| !m.keys.contains_key(k)) {
        if let Some(v) = get(db, &k.0, &k.1)? {
            return Err(format!("{what} the key {k:?} is {v:?} but was never set"));
        }
    }
    Ok(())
}
trait Collections {
    fn schematic_collections(&self) -> Vec<CollectionName>;
}
impl Collections for Database {
    fn schematic_collections(&self) -> Vec<CollectionName> {
        HasSchema::schematic(self).collections().cloned().collect()
    }
}

/// All files below a directory, except those below `except`.
fn files(dir: &Path, except: &Path, out: &mut BTreeSet<PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        if p == except {
            continue;
        }
        if p.is_dir() {
            files(&p, except, out);
        } else {
            out.insert(p);
        }
    }
}

fn source(mem: bool, p: Policy) -> Result<Storage, String> {
    let c = world::config(mem).key_value_persistence(policy(p));
    storage(c)
}
fn storage(c: bonsaidb_local::config::StorageConfiguration) -> Result<Storage, String> {
    Storage::open(c.with_schema::<World>().map_err(es)?.with_schema::<Odds>().map_err(es)?.with_schema::<Empty>().map_err(es)?.with_schema::<()>().map_err(es)?).map_err(es)
}
const DBS: &[&str] = &["d", "odd.x-1", "e", "u"];
fn create(s: &Storage, name: &str, only_if_needed: bool) -> Result<Database, String> {
    match name {
        "d" => s.create_database::<World>(name, only_if_needed),
        "odd.x-1" => s.create_database::<Odds>(name, only_if_needed),
        "e" => s.create_database::<Empty>(name, only_if_needed),
        _ => s.create_database::<()>(name, only_if_needed),
    }
    .map_err(es)
}

/// Backs up a storage with the given items and restores it.
fn case(items: &[(&str, Item)], path: bool, mem: bool, p: Policy, acc: &mut Acc) -> Result<(), String> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let s = source(mem, p)?;
    let mut models: BTreeMap<&str, Model> = BTreeMap::new();
    for name in DBS {
        create(&s, name, false)?;
    }
    for (name, i) in items {
        let db = create(&s, name, true)?;
        put(&db, i, models.entry(name).or_default())?;
    }
    let keys: Vec<(Option<String>, String)> = models.values().flat_map(|m| m.keys.keys().cloned()).collect();
    let check = |what: &str, s: &Storage| -> Result<(), String> {
        let none = Model::default();
        for name in DBS {
            let db = create(s, name, true)?;
            compare(&format!("{what} in database {name}"), &db, models.get(name).unwrap_or(&none), &keys)?;
        }
        Ok(())
    };
    check("before the backup", &s)?;
    let root = PathBuf::from(format!("{}/b{n}", engine::scratch()));
    let dir = root.join("b/backup");
    let loc = if path { Loc::Path(dir.clone()) } else { Loc::Mem(Mem::default()) };
    if path {
        std::fs::create_dir_all(&dir).map_err(es)?;
    }
    loc.backup(&s).map_err(|e| format!("the backup failed: {e}"))?;
    check("after the backup", &s)?;
    let mut outside = BTreeSet::new();
    files(&root, &dir, &mut outside);
    if let Some(f) = outside.first() {
        return Err(format!("the backup wrote outside of its directory: {}", f.strip_prefix(&root).unwrap().display()));
    }
    drop(s);
    let t = storage(world::config(mem))?;
    loc.restore(&t).map_err(|e| format!("the restoration failed: {e}"))?;
    check("after the restoration", &t)?;
    if models.values().any(|m| !m.docs.is_empty()) {
        if loc.restore(&t).is_ok() {
            return Err("restoring a second time did not fail".into());
        }
        check("after the second restoration", &t)?;
    }
    if items.iter().any(|(_, i)| matches!(i, Item::Key(_, _, _, Some(_)))) {
        // it expires when it should have
        for _ in 0..3 {
            std::thread::sleep(Duration::from_secs(60));
            check("when time passed since the restoration", &t)?;
        }
    }
    acc.count("cases", 1);
    acc.count("transitions", 1 + items.len() as u64);
    Ok(())
}

fn doc_items() -> Vec<(&'static str, Item)> {
    let mut ids: Vec<Vec<u8>> = [
        "", "a", "a/b", "a/", "/", "//", "/x", ".", "..", "../e", "../../e", "../../../../e", "./a", "...", "$", "1$", "$41", "%", "%2F", "%2E", "%25", "%41", "a b", " ", "é", "\\", "a\\b", "_kv", "_", "__", "\n", "\u{7f}", "\"", "0", "\u{0}", "\u{0}\u{0}", "\u{0}a", "a\u{0}", "private.simple", "._key._", "~", "*", "-", "A", "41", "10$", "00", "CON",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    ids.extend([vec![0xff], vec![0, 0xff], vec![0xff, 0], vec![0; 63], vec![b'/'; 63], vec![0xff; 63], vec![b'%'; 63], vec![b'a'; 63], vec![0; 16], vec![1; 17], 1u64.to_be_bytes().to_vec(), 0x2fu64.to_be_bytes().to_vec(), u64::MAX.to_be_bytes().to_vec()]);
    let mut v: Vec<(&str, Item)> = ids.into_iter().map(|i| ("d", Item::Doc(Plain::collection_name(), i, world::pot(&Plain { v: 1 })))).collect();
    // contents are whatever they are
    for (n, c) in [vec![], vec![0], vec![0xff; 5000], b"\0\xff".to_vec()].into_iter().enumerate() {
        v.push(("d", Item::Doc(Simple::collection_name(), vec![n as u8; 8], c)));
    }
    for i in [1u64, 47, 11824] {
        v.push(("d", Item::Doc(Basic::collection_name(), i.to_be_bytes().to_vec(), world::pot(&Basic { v: 1, tags: vec!["t".into()] }))));
    }
    for i in ["a", "/", ".."] {
        v.push(("odd.x-1", Item::Doc(Odd::collection_name(), i.as_bytes().to_vec(), world::pot(&Odd { v: 3 }))));
    }
    v.push(("odd.x-1", Item::Doc(Simple::collection_name(), vec![7; 8], world::pot(&Simple { v: 3 }))));
    v
}
fn key_items() -> Vec<(&'static str, Item)> {
    let num = |n: u64| Value::Numeric(Numeric::UnsignedInteger(n));
    let abs = format!("{}/abs", engine::scratch());
    let mut v = vec![];
    let names: Vec<(Option<&str>, &str)> = vec![
        (None, "k"), (None, ""), (Some(""), "k2"), (Some("n"), "k"), (Some("n"), ""), (Some("n._key._m"), "k"), (Some("n"), "m._key._k"), (None, "m._key._k"), (Some("n._key"), "k"), (Some("n."), "k"), (Some("."), "_key._"),
        (Some("n"), "_key._k"), (Some("n._key._"), "k"), (Some("._key._"), "k"), (Some("._key._"), "._key._"), (None, "._key._"), (Some("/"), "k"), (None, "/"), (None, ".."), (Some(".."), ".."), (Some("../../../../e/"), "k"), (Some("../e/"), "k"),
        (Some("."), "."), (Some("%"), "%2F"), (Some("%2E"), "k"), (Some("n%"), "%k"), (Some("é"), "é"), (Some("_"), "_"), (Some("n\\"), "k"), (Some(" "), " "), (Some(&abs), "k"), (Some("\n"), "\n"), (None, "n\u{1}k"),
    ];
    for db in ["d", "e"] {
        for (i, (n, k)) in names.iter().enumerate() {
            v.push((db, Item::Key(n.map(String::from), k.to_string(), num(i as u64), None)));
        }
    }
    for db in ["u", "odd.x-1"] {
        for (n, k) in &names[..6] {
            v.push((db, Item::Key(n.map(String::from), k.to_string(), num(9), None)));
        }
    }
    let f = |x: f64| Value::Numeric(Numeric::Float(x));
    let b = |x: &[u8]| Value::Bytes(x.to_vec().into());
    for (i, value) in [b(b""), b(b"\0\xff"), b(&[1; 5000]), Value::Numeric(Numeric::Integer(-1)), Value::Numeric(Numeric::Integer(i64::MIN)), num(u64::MAX), f(-0.5), f(f64::INFINITY), f(0.0)].into_iter().enumerate() {
        v.push(("d", Item::Key(None, format!("v{i}"), value, None)));
    }
    for (i, s) in [1i64, 59, 61, 100, 150, 100_000].into_iter().enumerate() {
        let t = os::EPOCH / 1_000_000_000 + s;
        v.push(("d", Item::Key(Some("x".into()), format!("{i}"), num(s as u64), Some(Timestamp { seconds: t as u64, nanos: 5 }))));
    }
    v
}
fn sig(items: &[&(&'static str, Item)]) -> String {
    let scratch = engine::scratch();
    items
        .iter()
        .map(|(d, i)| match i {
            Item::Doc(c, id, v) => format!("{d}: document {:?} ({} bytes) of {c}", String::from_utf8_lossy(&id[..id.len().min(20)]), v.len()),
            Item::Key(n, k, v, e) => format!("{d}: key {n:?} {k:?}{}{}", if let Value::Bytes(_) = v { " with bytes" } else { "" }, if e.is_some() { " that expires" } else { "" }),
        })
        .collect::<Vec<_>>()
        .join(" and ")
        .replace(&scratch, "SCRATCH")
}

#[derive(Debug, Clone, Copy)]
enum J {
    /// every item alone: part of how many
    Single(usize, usize),
    Pairs(usize, usize),
    /// everything together
    All,
    /// which of the databases have documents and keys (bits)
    Subset(u32),
    Policies,
    /// what happens before the backup; the first of the steps
    History(usize, bool),
    Identities(u32),
}

pub fn run() -> i32 {
    let mut r = Report::new("C20", "model_checking");
    let thorough = r.thorough();
    let parts = 24;
    let mut jobs: Vec<J> = (0..parts).map(|p| J::Pairs(p, parts)).collect();
    jobs.extend((0..8).map(|p| J::Single(p, 8)));
    jobs.extend((0..64).map(J::Subset));
    jobs.extend((0..8).map(J::Identities));
    jobs.extend((0..STEPS).flat_map(|f| [J::History(f, false), J::History(f, true)]));
    jobs.extend([J::All, J::Policies]);
    seq::run(&mut r, Mode::Controlled, jobs, |j, acc| {
        let (docs, keys) = (doc_items(), key_items());
        let all: Vec<&(&'static str, Item)> = docs.iter().chain(&keys).collect();
        let go = |items: &[&(&'static str, Item)], path: bool, mem: bool, p: Policy, acc: &mut Acc, name: Option<&str>| {
            let what = format!("{} backup of {}", if path { "directory" } else { "custom" }, name.map_or_else(|| sig(items), String::from));
            acc.at(&what);
            let v: Vec<(&str, Item)> = items.iter().map(|i| (i.0, i.1.clone())).collect();
            let res = match engine::no_panic(|| case(&v, path, mem, p, acc)) {
                Ok(r) => r,
                Err(e) => Err(format!("panicked: {e}")),
            };
            acc.outcome(&what);
            if let Err(e) = res {
                acc.bad(format!("{what}: {}", e.replace(&engine::scratch(), "SCRATCH")), json!({"items": what, "memory": mem}));
            } else {
                acc.sample(json!({"backed up and restored": what}));
            }
        };
        match *j {
            J::Single(p, n) => {
                for (i, it) in all.iter().enumerate().filter(|(i, _)| i % n == p) {
                    for path in [true, false] {
                        for mem in [true, false] {
                            go(&[it], path, mem, if i % 2 == 0 { Policy::Immediate } else { Policy::Never }, acc, None);
                        }
                    }
                }
            }
            J::Pairs(p, n) => {
                // two documents, two keys, or one of each
                let mut c = 0;
                for (i, a) in all.iter().enumerate() {
                    for b in &all[i + 1..] {
                        c += 1;
                        if c % n != p {
                            continue;
                        }
                        let same = matches!((&a.1, &b.1), (Item::Doc(..), Item::Doc(..)) | (Item::Key(..), Item::Key(..))) && a.0 == b.0;
                        if !same && !thorough {
                            continue;
                        }
                        go(&[a, b], true, true, Policy::Immediate, acc, None);
                        if thorough {
                            go(&[a, b], false, true, Policy::Immediate, acc, None);
                        }
                    }
                }
            }
            J::All => {
                for path in [true, false] {
                    for mem in [true, false] {
                        go(&all, path, mem, Policy::Immediate, acc, Some("everything"));
                    }
                }
                // many documents and keys
                let many: Vec<(&str, Item)> = (0..600u64)
                    .map(|i| ("d", Item::Doc(Simple::collection_name(), i.to_be_bytes().to_vec(), world::pot(&Simple { v: i as u32 }))))
                    .chain((0..300u64).map(|i| ("d", Item::Key(None, i.to_string(), Value::Numeric(Numeric::UnsignedInteger(i)), None))))
                    .collect();
                let many: Vec<&(&str, Item)> = many.iter().collect();
                for path in [true, false] {
                    go(&many, path, true, Policy::Immediate, acc, Some("many documents and keys"));
                }
            }
            J::Subset(bits) => {
                let d = |n: usize| docs.iter().filter(|i| i.0 == DBS[n]).take(3).collect::<Vec<_>>();
                let k = |n: usize| keys.iter().filter(|i| i.0 == DBS[n]).skip(3).take(2).collect::<Vec<_>>();
                let parts = [d(0), k(0), d(1), k(1), k(2), k(3)];
                let items: Vec<_> = parts.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).flat_map(|(_, p)| p.iter().copied()).collect();
                for path in [true, false] {
                    go(&items, path, true, Policy::Never, acc, None);
                }
            }
            J::Policies => {
                let it: Vec<_> = keys.iter().take(5).collect();
                for p in [Policy::Immediate, Policy::Never, Policy::Two, Policy::Second] {
                    for n in 1..=5 {
                        for path in [true, false] {
                            for mem in [true, false] {
                                go(&it[..n], path, mem, p, acc, None);
                            }
                        }
                    }
                }
            }
            J::History(first, reopen) => {
                let depth = if thorough || reopen { 4 } else { 3 };
                for n in 0..STEPS.pow(depth - 1) {
                    let steps: Vec<usize> = std::iter::once(first).chain((0..depth - 1).map(|d| n / STEPS.pow(d) % STEPS)).collect();
                    if reopen && !steps.contains(&(STEPS - 1)) || !reopen && steps.contains(&(STEPS - 1)) {
                        continue;
                    }
                    // steps that differ little are combined in less
                    if reopen && !thorough && steps.iter().any(|s| [1, 3, 4, 6].contains(s)) {
                        continue;
                    }
                    for p in [Policy::Never, Policy::Two] {
                        let what = format!("{} backup after {}", if n % 2 == 0 { "directory" } else { "custom" }, steps.iter().map(|s| STEP_NAMES[*s]).collect::<Vec<_>>().join(", "));
                        acc.at(&what);
                        acc.outcome(&what);
                        if let Err(e) = history(&steps, n % 2 == 0, reopen, p, acc) {
                            acc.bad(format!("{what}: {e}"), json!({"history": what}));
                        }
                    }
                }
            }
            J::Identities(bits) => {
                for path in [true, false] {
                    let what = format!("{} backup of identities {bits:03b}", if path { "directory" } else { "custom" });
                    acc.at(&what);
                    acc.outcome(&what);
                    if let Err(e) = identities(bits, path) {
                        acc.bad(format!("{what}: {e}"), json!({"identities": what}));
                    }
                    acc.count("cases", 1);
                }
            }
        }
        acc.count("states", 1);
    });
    r.assume("names that are too long for a file name are not backed up to directories");
    r.finish()
}

const STEP_NAMES: [&str; 9] = ["set a", "set a again", "delete a", "set b", "delete b", "insert 1", "overwrite 1", "delete 1", "reopen"];
const STEPS: usize = STEP_NAMES.len();

/// Sets, changes and deletes keys and documents, possibly between closing and
/// opening the storage, and takes a backup.
fn history(steps: &[usize], path: bool, reopen: bool, p: Policy, acc: &mut Acc) -> Result<(), String> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let dir = PathBuf::from(format!("{}/h{}", engine::scratch(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let c = if reopen { world::config_at(&format!("{}/db", dir.display()), false) } else { world::config(true) }.key_value_persistence(policy(p));
    let mut s = storage(c.clone())?;
    let mut db = create(&s, "d", false)?;
    let mut m = Model::default();
    let id = 1u64.to_be_bytes().to_vec();
    for (n, step) in steps.iter().enumerate() {
        let key = |k: &str| Item::Key(None, k.into(), Value::Numeric(Numeric::UnsignedInteger(n as u64)), None);
        let docs = Simple::collection_name();
        match step {
            0 | 1 => put(&db, &key("a"), &mut m)?,
            3 => put(&db, &key("b"), &mut m)?,
            2 | 4 => {
                let k = if *step == 2 { "a" } else { "b" };
                db.delete_key(k).map_err(es)?;
                m.keys.remove(&(None, k.into()));
            }
            5 | 6 => put(&db, &Item::Doc(docs, id.clone(), world::pot(&Simple { v: n as u32 })), &mut m)?,
            7 => {
                if let Some(d) = Simple::get(&1, &db).map_err(es)? {
                    d.delete(&db).map_err(es)?;
                }
                m.docs.remove(&(docs, id.clone()));
            }
            _ => {
                drop(db);
                drop(s);
                s = storage(c.clone())?;
                db = create(&s, "d", true)?;
            }
        }
        acc.count("transitions", 1);
    }
    let keys = [(None, "a".to_string()), (None, "b".to_string())];
    let dir = dir.join("backup");
    let loc = if path { Loc::Path(dir) } else { Loc::Mem(Mem::default()) };
    loc.backup(&s).map_err(|e| format!("the backup failed: {e}"))?;
    compare("after the backup", &db, &m, &keys)?;
    let t = storage(world::config(true))?;
    loc.restore(&t).map_err(|e| format!("the restoration failed: {e}"))?;
    compare("after the restoration", &create(&t, "d", true)?, &m, &keys)?;
    acc.count("cases", 1);
    Ok(())
}

/// Users, roles and groups are part of a backup. Bits: the user has a
/// password, a role, a group.
fn identities(bits: u32, path: bool) -> Result<(), String> {
    let marks = |s: &Storage| -> Vec<bool> {
        ["g", "h"].iter().map(|m| s.allowed_to(ResourceName::named("m").and(m.to_string()), &BonsaiAction::Server(ServerAction::Connect))).collect()
    };
    let grant = |m: &str| Statement::for_resource(ResourceName::named("m").and(m.to_string())).allowing(&BonsaiAction::Server(ServerAction::Connect));
    let pw = || SensitiveString("secret".into());
    let s = source(true, Policy::Immediate)?;
    let admin = s.admin();
    let u = s.create_user("u").map_err(es)?;
    let v = s.create_user("v").map_err(es)?;
    let g = PermissionGroup::named("g").with_group_ids([grant("g")]).push_into(&admin).map_err(es)?;
    let h = PermissionGroup::named("h").with_group_ids([grant("h")]).push_into(&admin).map_err(es)?;
    let role = Role { name: "r".into(), groups: vec![h.header.id] }.push_into(&admin).map_err(es)?;
    if bits & 1 != 0 {
        s.set_user_password(u, pw()).map_err(es)?;
    }
    if bits & 2 != 0 {
        s.add_role_to_user(u, role.header.id).map_err(es)?;
    }
    if bits & 4 != 0 {
        s.add_permission_group_to_user(u, g.header.id).map_err(es)?;
    }
    s.delete_user(v).map_err(es)?;
    let check = |what: &str, s: &Storage| -> Result<(), String> {
        let users: Vec<String> = User::all(&s.admin()).query().map_err(es)?.into_iter().map(|u| u.contents.username).collect();
        if users != ["u"] {
            return Err(format!("{what} the users are {users:?}"));
        }
        let a = s.authenticate(Authentication::Password { user: "u".into(), password: pw() });
        if a.is_ok() != (bits & 1 != 0) {
            return Err(format!("{what} the user's password is accepted: {}", a.is_ok()));
        }
        if let Ok(a) = a {
            let want = vec![bits & 4 != 0, bits & 2 != 0];
            if marks(&a) != want {
                return Err(format!("{what} the user has the permissions {:?} instead of {want:?}", marks(&a)));
            }
        }
        if s.authenticate(Authentication::Password { user: "u".into(), password: SensitiveString("other".into()) }).is_ok() {
            return Err(format!("{what} any password is accepted"));
        }
        Ok(())
    };
    check("before the backup", &s)?;
    let dir = PathBuf::from(format!("{}/i{bits}", engine::scratch()));
    let loc = if path { Loc::Path(dir.clone()) } else { Loc::Mem(Mem::default()) };
    loc.backup(&s).map_err(|e| format!("the backup failed: {e}"))?;
    check("after the backup", &s)?;
    drop(s);
    let t = storage(world::config(true))?;
    loc.restore(&t).map_err(|e| format!("the restoration failed: {e}"))?;
    check("after the restoration", &t)
}
