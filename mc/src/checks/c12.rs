//! C12: the list of executed transactions holds every applied transaction once,
//! in order, with exactly what it changed.
use std::collections::BTreeMap;

use bonsaidb_core::connection::{Connection, StorageConnection};
use bonsaidb_core::document::{DocumentId, Header, OwnedDocument};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::limits::{LIST_TRANSACTIONS_DEFAULT_RESULT_COUNT, LIST_TRANSACTIONS_MAX_RESULTS};
use bonsaidb_core::schema::{Collection, SerializedCollection};
use bonsaidb_core::transaction::{Changes, Executed, Operation, Transaction};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage, StorageNonBlocking};
use serde_json::json;

use super::world::{self, Basic, ByV, Plain, Simple, World};
use crate::engine::{self, par, Env, Replay};
use crate::report::Report;
use crate::sched;
use crate::seq::{self, Acc, Mode};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}

/// What a transaction changed; `true`: deleted.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ch {
    Docs(BTreeMap<(String, Vec<u8>), bool>),
    Keys(BTreeMap<(Option<String>, String), bool>),
}
fn changes(e: &Executed) -> Ch {
    match &e.changes {
        Changes::Documents(d) => Ch::Docs(d.documents.iter().map(|c| ((d.collections[usize::from(c.collection)].to_string(), c.id.to_vec()), c.deleted)).collect()),
        Changes::Keys(k) => Ch::Keys(k.iter().map(|k| ((k.namespace.clone(), k.key.clone()), k.deleted)).collect()),
    }
}
fn empty(c: &Ch) -> bool {
    matches!(c, Ch::Docs(d) if d.is_empty())
}
fn id<T: for<'k> bonsaidb_core::key::Key<'k>>(t: &T) -> DocumentId {
    DocumentId::new(t).unwrap()
}
fn doc<C: Collection>(i: &DocumentId, deleted: bool) -> ((String, Vec<u8>), bool) {
    ((C::collection_name().to_string(), i.to_vec()), deleted)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum A {
    /// a new document
    Ins,
    /// several documents of several collections, one of them deleted when it is there
    Multi,
    /// many documents
    Many,
    /// a conflict
    Fail,
    /// a conflict after an operation that works
    FailLate,
    /// a check only
    Check,
    /// a failing check after an operation that works
    FailCheck,
    /// an index is brought up to date
    Query,
    Set,
    /// a key whose change takes several pages of the log
    SetBig,
    /// a value that is set and one that is deleted
    Unset,
    /// a command that changes nothing
    Noop,
    Compact,
    Reopen,
}
struct Sys {
    s: Storage,
    db: Database,
    n: u64,
    log: Vec<Ch>,
    seen: Vec<(u64, Ch)>,
    last: Option<u64>,
    basic: Option<Header>,
    key: bool,
    vs: u32,
}
fn settle() {
    // whatever runs in the background finishes
    std::thread::sleep(std::time::Duration::from_millis(3));
}
impl Sys {
    fn new(mem: bool) -> Self {
        let (s, db) = world::world(mem);
        Self { s, db, n: 0, log: vec![], seen: vec![], last: None, basic: None, key: false, vs: 0 }
    }
    fn act(&mut self, a: A) -> Result<(), String> {
        let simple = Simple::collection_name();
        self.vs += 1;
        let v = world::pot(&Simple { v: self.vs });
        match a {
            A::Ins => {
                self.n += 1;
                Transaction::insert(simple, Some(id(&self.n)), v).apply(&self.db).map_err(es)?;
                self.log.push(Ch::Docs([doc::<Simple>(&id(&self.n), false)].into()));
            }
            A::Multi => {
                let mut want = BTreeMap::new();
                let mut tx = Transaction::new();
                for i in [700u64, 5] {
                    tx.push(Operation::overwrite(simple.clone(), id(&i), v.clone()));
                    want.extend([doc::<Simple>(&id(&i), false)]);
                }
                tx.push(Operation::overwrite(Plain::collection_name(), id(&"x".to_string()), v));
                want.extend([doc::<Plain>(&id(&"x".to_string()), false)]);
                let del = self.basic.is_some();
                match self.basic.take() {
                    Some(h) => tx.push(Operation::delete(Basic::collection_name(), h)),
                    None => tx.push(Operation::insert(Basic::collection_name(), Some(id(&5u64)), world::pot(&Basic { v: self.vs, tags: vec!["a".into()] }))),
                }
                want.extend([doc::<Basic>(&id(&5u64), del)]);
                let r = tx.apply(&self.db).map_err(es)?;
                if !del {
                    let bonsaidb_core::transaction::OperationResult::DocumentUpdated { header, .. } = &r[3] else { return Err("no header".into()) };
                    self.basic = Some(header.clone());
                }
                self.log.push(Ch::Docs(want));
            }
            A::Many => {
                let mut tx = Transaction::new();
                let mut want = BTreeMap::new();
                for i in 0..90u32 {
                    let k = id(&format!("{i:060}"));
                    tx.push(Operation::overwrite(Plain::collection_name(), k.clone(), v.clone()));
                    want.extend([doc::<Plain>(&k, false)]);
                }
                tx.apply(&self.db).map_err(es)?;
                self.log.push(Ch::Docs(want));
            }
            A::Fail | A::FailLate | A::FailCheck => {
                let mut tx = Transaction::new();
                if a != A::Fail {
                    tx.push(Operation::overwrite(simple.clone(), id(&900u64), v.clone()));
                    tx.push(Operation::insert(Basic::collection_name(), Some(id(&901u64)), world::pot(&Basic::new(self.vs))));
                }
                tx.push(if a == A::FailCheck {
                    Operation::check_document_exists::<Simple>(&999).map_err(es)?
                } else {
                    // never inserted: document 0 exists from the start of each failing action
                    Operation::update(simple.clone(), Header { id: id(&998u64), revision: bonsaidb_core::document::Revision::new(b"x") }, v)
                });
                if tx.apply(&self.db).is_ok() {
                    return Err("a transaction that cannot work is accepted".into());
                }
            }
            A::Check => {
                if self.n > 0 {
                    Transaction::new().with(Operation::check_document_exists::<Simple>(&1).map_err(es)?).apply(&self.db).map_err(es)?;
                }
            }
            A::Query => {
                let n = self.db.view::<ByV>().query().map_err(es)?.len();
                if n != usize::from(self.basic.is_some()) {
                    return Err(format!("{n} mappings"));
                }
                settle();
            }
            A::Set | A::SetBig => {
                let (ns, k) = if a == A::Set { (Some("ns".to_string()), "k".to_string()) } else { (None, format!("{:04500}", self.vs % 2)) };
                if let Some(ns) = &ns {
                    self.db.with_key_namespace(ns).set_numeric_key(&k, u64::from(self.vs)).execute().map_err(es)?;
                    self.key = true;
                } else {
                    self.db.set_numeric_key(&k, u64::from(self.vs)).execute().map_err(es)?;
                }
                self.log.push(Ch::Keys([((ns, k), false)].into()));
                settle();
            }
            A::Unset => {
                self.db.with_key_namespace("ns").delete_key("k").map_err(es)?;
                if self.key {
                    self.log.push(Ch::Keys([((Some("ns".into()), "k".into()), true)].into()));
                }
                self.key = false;
                settle();
            }
            A::Noop => {
                let r = self.db.set_numeric_key("none", 1u64).only_if_exists().execute().map_err(es)?;
                if r != bonsaidb_core::keyvalue::KeyStatus::NotChanged {
                    return Err(format!("{r:?}"));
                }
                let _ = self.db.get_key("k").query().map_err(es)?;
                let _: Option<OwnedDocument> = self.db.collection::<Simple>().get(&1).map_err(es)?;
                settle();
            }
            A::Compact => {
                self.db.compact().map_err(es)?;
                settle();
            }
            A::Reopen => {
                let path = self.s.path().to_str().unwrap().to_owned();
                let dummy = world::open(world::config(true).with_schema::<World>().unwrap());
                self.db = dummy.create_database::<World>("d", false).map_err(es)?;
                self.s = dummy;
                settle();
                self.s = world::open(world::config_at(&path, false).with_schema::<World>().unwrap());
                self.db = self.s.database::<World>("d").map_err(es)?;
            }
        }
        Ok(())
    }
    fn verify(&mut self, acc: &mut Acc) -> Result<(), String> {
        let all: Vec<(u64, Ch)> = self.db.list_executed_transactions(None, None).map_err(es)?.iter().map(|e| (e.id, changes(e))).collect();
        let show = |v: &[(u64, Ch)]| crate::report::short(&format!("{v:?}"), 900);
        if all.windows(2).any(|w| w[0].0 >= w[1].0) {
            return Err(format!("ids do not increase: {}", show(&all)));
        }
        if all.len() < self.seen.len() || all[..self.seen.len()] != self.seen[..] {
            return Err(format!("transactions that were listed changed: {}, before {}", show(&all), show(&self.seen)));
        }
        let real: Vec<&Ch> = all.iter().map(|a| &a.1).filter(|c| !empty(c)).collect();
        if real != self.log.iter().collect::<Vec<_>>() {
            return Err(format!("lists {}, expected {}", show(&all), crate::report::short(&format!("{:?}", self.log), 900)));
        }
        let last = self.db.last_transaction_id().map_err(es)?;
        if last < all.last().map(|a| a.0) || last < self.last {
            return Err(format!("the last transaction is {last:?}, listed {:?}, before {:?}", all.last().map(|a| a.0), self.last));
        }
        self.last = last;
        let end = last.unwrap_or(0) + 2;
        for start in 0..=end {
            for limit in [Some(0), Some(1), Some(2), None] {
                let got: Vec<u64> = self.db.list_executed_transactions(Some(start), limit).map_err(|e| format!("from {start}: {e}"))?.iter().map(|e| e.id).collect();
                let want: Vec<u64> = all.iter().map(|a| a.0).filter(|i| *i >= start).take(limit.unwrap_or(100) as usize).collect();
                acc.count("evaluations", 1);
                if got != want {
                    return Err(format!("from {start}, at most {limit:?}, lists {got:?}, expected {want:?}"));
                }
            }
        }
        let got = self.db.list_executed_transactions(None, Some(2)).map_err(es)?.len();
        if got != all.len().min(2) {
            return Err(format!("lists {got} of at most 2 transactions"));
        }
        acc.outcome(&all);
        self.seen = all;
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum Job {
    Seq { vocab: Vec<A>, depth: usize, first: Vec<A>, mem: bool },
    Long(bool),
}
fn walk(vocab: &[A], depth: usize, first: &[A], mem: bool, a: &mut Acc) {
    let free = depth - first.len();
    let mut idx = vec![0usize; free];
    let mut from = 0;
    loop {
        let s: Vec<A> = first.iter().copied().chain(idx.iter().map(|i| vocab[*i])).collect();
        a.at(&format!("{s:?}"));
        a.count("sequences", 1);
        let mut sys = Sys::new(mem);
        let mut done = 0;
        let r = engine::no_panic(|| {
            for (i, x) in s.iter().enumerate() {
                done = i + 1;
                sys.act(*x)?;
                a.count("transitions", 1);
                if i >= from {
                    sys.verify(a)?;
                }
            }
            Ok::<_, String>(())
        });
        if let Ok(Err(e)) | Err(e) = r {
            a.bad(format!("{:?}: {e}", &s[..done]), json!({"operations": format!("{s:?}")}));
            return;
        }
        a.sample(json!({"operations": format!("{s:?}"), "listed": sys.seen.len()}));
        let mut k = free;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < vocab.len() {
                from = first.len() + k;
                break;
            }
            idx[k] = 0;
        }
    }
}
/// More transactions than one answer holds, with failures between them.
fn long(mem: bool, a: &mut Acc) {
    a.at(&format!("long log, in memory: {mem}"));
    let r = engine::no_panic(|| -> Result<(), String> {
        let mut sys = Sys::new(mem);
        let mut want = 0;
        for i in 0..1150u32 {
            sys.act(A::Ins)?;
            want += 1;
            for _ in 0..(i % 7) / 3 {
                sys.act(A::Fail)?;
            }
            if i % 97 == 0 {
                sys.act(A::SetBig)?;
                sys.act(A::Many)?;
                want += 2;
            }
        }
        if !mem {
            sys.act(A::Reopen)?;
        }
        let (d, m) = (LIST_TRANSACTIONS_DEFAULT_RESULT_COUNT as usize, LIST_TRANSACTIONS_MAX_RESULTS as usize);
        let ids = |s: Option<u64>, l: Option<u32>| -> Result<Vec<u64>, String> { Ok(sys.db.list_executed_transactions(s, l).map_err(|e| format!("from {s:?}: {e}"))?.iter().map(|e| e.id).collect()) };
        let mut all: Vec<u64> = vec![];
        loop {
            let n = ids(all.last().map(|l| l + 1), Some(u32::MAX))?;
            if n.is_empty() {
                break;
            }
            all.extend(n);
        }
        if all.len() != want || all.windows(2).any(|w| w[0] >= w[1]) {
            return Err(format!("paging finds {} of {want} transactions", all.len()));
        }
        for (l, n) in [(None, d), (Some(99), 99), (Some(m as u32), m), (Some(m as u32 + 1), m), (Some(u32::MAX), m), (Some(0), 0)] {
            if ids(None, l)? != all[..n] {
                return Err(format!("at most {l:?} are not the first {n}"));
            }
        }
        for start in 0..=all.last().unwrap() + 2 {
            let at = all.partition_point(|i| *i < start);
            for l in [1usize, 3] {
                a.count("evaluations", 1);
                let w = &all[at..(at + l).min(all.len())];
                let g = ids(Some(start), Some(l as u32))?;
                if g != w {
                    return Err(format!("from {start}, at most {l}, lists {g:?}, expected {w:?}"));
                }
            }
        }
        Ok(())
    });
    if let Ok(Err(e)) | Err(e) = r {
        a.bad(format!("a long log, in memory {mem}: {e}"), json!({}));
    }
}

// ---------------------------------------------------------------- schedules

#[derive(Clone, Copy, Debug)]
enum T {
    /// inserts this document
    Ins(u64),
    /// several pages of changes
    Many(u32),
    /// fails after an operation that works
    Fail,
    Key(&'static str),
    /// deletes a key
    Unset(&'static str),
    /// follows the log, this many times
    Follow(usize),
    /// looks for the document, then at the log
    Look(u64),
    Query,
}
#[derive(Clone, Debug)]
struct Sc {
    mem: bool,
    threads: Vec<Vec<T>>,
}
fn ids(db: &Database, start: Option<u64>) -> Result<Vec<(u64, Ch)>, String> {
    Ok(db.list_executed_transactions(start, None).map_err(|e| format!("listing: {e}"))?.iter().map(|e| (e.id, changes(e))).collect())
}
fn conc(p: &Sc, _e: &Env) -> Result<String, String> {
    sched::region(false);
    let (_s, db) = world::world(p.mem);
    Basic::new(1).insert_into(&1, &db).map_err(es)?;
    db.set_numeric_key("old", 1u64).execute().map_err(es)?;
    settle();
    let start = ids(&db, None)?;
    sched::region(true);
    let mut jobs: Vec<Box<dyn FnOnce() -> Result<(Vec<(u64, Ch)>, Option<u64>), String> + Send>> = vec![];
    for t in &p.threads {
        let (t, db, start) = (t.clone(), db.clone(), start.clone());
        jobs.push(Box::new(move || {
            let mut log = vec![];
            let mut known = None;
            for t in t {
                let mine = match t {
                    T::Ins(i) => {
                        Simple { v: 1 }.insert_into(&i, &db).map_err(es)?;
                        Some(Ch::Docs([doc::<Simple>(&id(&i), false)].into()))
                    }
                    T::Many(n) => {
                        let mut tx = Transaction::new();
                        let mut want = BTreeMap::new();
                        for i in 0..90u32 {
                            let k = id(&format!("{n}{i:059}"));
                            tx.push(Operation::overwrite(Plain::collection_name(), k.clone(), vec![1]));
                            want.extend([doc::<Plain>(&k, false)]);
                        }
                        tx.apply(&db).map_err(es)?;
                        Some(Ch::Docs(want))
                    }
                    T::Fail => {
                        let mut tx = Transaction::new();
                        tx.push(Operation::overwrite(Simple::collection_name(), id(&900u64), vec![1]));
                        tx.push(Operation::check_document_exists::<Simple>(&999).map_err(es)?);
                        if tx.apply(&db).is_ok() {
                            return Err("a transaction that cannot work is accepted".into());
                        }
                        None
                    }
                    T::Key(k) => {
                        db.set_numeric_key(k, 1u64).execute().map_err(es)?;
                        None
                    }
                    T::Unset(k) => {
                        db.delete_key(k).map_err(es)?;
                        None
                    }
                    T::Query => {
                        db.view::<ByV>().query().map_err(es)?;
                        None
                    }
                    T::Follow(n) => {
                        let mut from = start.last().map_or(0, |s| s.0 + 1);
                        for _ in 0..n {
                            let last = db.last_transaction_id().map_err(es)?;
                            let new = ids(&db, Some(from))?;
                            known = last.max(known);
                            if let Some(l) = new.last() {
                                from = l.0 + 1;
                            }
                            log.extend(new);
                        }
                        None
                    }
                    T::Look(i) => {
                        let there = db.collection::<Simple>().get(&i).map_err(es)?.is_some();
                        let n = ids(&db, Some(0))?;
                        if there && !n.iter().any(|(_, c)| matches!(c, Ch::Docs(d) if d.contains_key(&doc::<Simple>(&id(&i), false).0))) {
                            return Err(format!("document {i} is there, its transaction is not listed"));
                        }
                        None
                    }
                };
                if let Some(m) = mine {
                    if ids(&db, None)?.iter().filter(|(_, c)| *c == m).count() != 1 {
                        return Err(format!("{t:?} returned and is not listed once"));
                    }
                }
            }
            Ok((log, known))
        }));
    }
    let rs = par(jobs);
    sched::region(false);
    settle();
    let all = ids(&db, None)?;
    if all.windows(2).any(|w| w[0].0 >= w[1].0) || all[..start.len()] != start[..] {
        return Err(format!("the final list is not in order: {:?}", all.iter().map(|a| a.0).collect::<Vec<_>>()));
    }
    // each change once, nothing else
    let mut docs: BTreeMap<(String, Vec<u8>), usize> = BTreeMap::new();
    let mut keys: BTreeMap<String, Vec<bool>> = BTreeMap::new();
    for (_, c) in &all[start.len()..] {
        match c {
            Ch::Docs(d) => d.keys().for_each(|k| *docs.entry(k.clone()).or_default() += 1),
            Ch::Keys(k) => k.iter().for_each(|(k, d)| keys.entry(k.1.clone()).or_default().push(*d)),
        }
    }
    let mut want: BTreeMap<(String, Vec<u8>), usize> = BTreeMap::new();
    let mut wkeys: BTreeMap<String, Vec<bool>> = BTreeMap::new();
    for t in p.threads.iter().flatten() {
        match t {
            T::Ins(i) => *want.entry(doc::<Simple>(&id(i), false).0).or_default() += 1,
            T::Many(n) => (0..90u32).for_each(|i| *want.entry(doc::<Plain>(&id(&format!("{n}{i:059}")), false).0).or_default() += 1),
            T::Key(k) => wkeys.entry((*k).to_string()).or_default().push(false),
            T::Unset(k) => wkeys.entry((*k).to_string()).or_default().push(true),
            _ => {}
        }
    }
    if docs != want || keys != wkeys {
        return Err(format!("the final list has {docs:?} {keys:?}, expected {want:?} {wkeys:?}"));
    }
    let mut out = vec![];
    for r in rs {
        let (log, known) = r?;
        let tail = &all[start.len()..];
        if log[..] != tail[..log.len().min(tail.len())] {
            return Err(format!("following the log found {:?} of {:?}", log.iter().map(|l| l.0).collect::<Vec<_>>(), tail.iter().map(|l| l.0).collect::<Vec<_>>()));
        }
        if let Some(k) = known {
            if tail.iter().filter(|t| t.0 <= k).count() > log.len() {
                return Err(format!("{k} was reported as the last transaction, the list that followed ended before it"));
            }
        }
        out.push(log.len());
    }
    Ok(format!("{out:?}"))
}
fn programs(big: bool) -> Vec<(String, Sc, usize)> {
    let b = if big { 3 } else { 2 };
    let f = T::Follow(2);
    let mut out = vec![];
    for mem in [true, false] {
        for (t, d) in [
            (vec![vec![T::Ins(1)], vec![f]], 0),
            (vec![vec![T::Many(1)], vec![f]], 0),
            (vec![vec![T::Ins(1)], vec![T::Look(1)]], 0),
            (vec![vec![T::Ins(1)], vec![T::Many(2)], vec![f]], 0),
            (vec![vec![T::Fail], vec![T::Ins(2)], vec![f]], 0),
            (vec![vec![T::Key("a"), T::Key("b")], vec![T::Ins(2)], vec![f]], 0),
            (vec![vec![T::Key("a")], vec![T::Unset("old")], vec![f]], 0),
            (vec![vec![T::Query], vec![T::Ins(2)], vec![f]], 0),
            (vec![vec![T::Ins(1)], vec![T::Fail, T::Ins(2)], vec![T::Many(3)]], 1),
        ] {
            let s = Sc { mem, threads: t };
            out.push((format!("{s:?}"), s, b - d));
        }
    }
    out
}

pub fn run() -> i32 {
    let mut r = Report::new("C12", "model_checking");
    let big = r.thorough();
    use A::*;
    let all = vec![Ins, Multi, Fail, FailLate, FailCheck, Check, Query, Set, SetBig, Unset, Noop];
    let few = vec![Ins, Fail, SetBig, Query];
    let disk = vec![Ins, Multi, FailLate, SetBig, Compact, Reopen];
    let mut jobs = vec![Job::Long(true), Job::Long(false)];
    for a in &all {
        for b in &all {
            jobs.push(Job::Seq { vocab: all.clone(), depth: r.pick(4, 5), first: vec![*a, *b], mem: true });
        }
    }
    for a in &few {
        for b in &few {
            jobs.push(Job::Seq { vocab: few.clone(), depth: r.pick(6, 8), first: vec![*a, *b], mem: true });
        }
    }
    for a in &disk {
        for b in &disk {
            jobs.push(Job::Seq { vocab: disk.clone(), depth: r.pick(4, 5), first: vec![*a, *b], mem: false });
        }
    }
    jobs.push(Job::Seq { vocab: vec![Many, Ins, Fail], depth: 4, first: vec![], mem: true });
    seq::run(&mut r, Mode::Controlled, jobs, |j, a| match j {
        Job::Seq { vocab, depth, first, mem } => walk(vocab, *depth, first, *mem, a),
        Job::Long(mem) => long(*mem, a),
    });
    if r.violations.is_empty() {
        super::explore_all(&mut r, programs(big), if big { 1500.0 } else { 14.0 }, conc);
    }
    r.assume("entries that change nothing (a transaction of checks only) may or may not be listed");
    r.finish()
}
pub fn replay(f: &Replay) -> i32 {
    for (n, p, _) in programs(true) {
        if n == f.scenario {
            engine::run_one(&|e: &Env| conc(&p, e), &f.dev, true).show();
            return 1;
        }
    }
    2
}
