//! C01: transactions against a reference model, exhaustively over short
//! transactions from every reachable shape of two documents.
use std::collections::BTreeMap;

use bonsaidb_core::connection::{Connection, LowLevelConnection, StorageConnection};
use bonsaidb_core::document::{DocumentId, HasHeader, Header, Revision};
use bonsaidb_core::schema::{Collection, CollectionName, Qualified, SerializedCollection};
use bonsaidb_core::transaction::{Operation, OperationResult, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};
use serde_json::json;

use super::world::*;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Hdr {
    Cur,
    /// another revision number and digest
    Stale,
    /// the current revision number with another digest
    Same,
    /// the current digest with another revision number
    Digest,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Push(u32),
    Insert(u64, u32),
    Update(u64, Hdr, u32),
    Overwrite(u64, u32),
    Delete(u64, Hdr),
    Exists(u64),
    Current(u64, Hdr),
    PlainInsert(u32),
    PlainDelete(Hdr),
    /// an operation on a collection the schema does not have
    Alien,
}

pub type Docs = BTreeMap<Vec<u8>, (Revision, Vec<u8>)>;

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Model {
    pub basic: Docs,
    pub plain: Docs,
    /// largest id ever stored: assigned ids are never reused
    pub high: u64,
}

fn key(id: u64) -> DocumentId {
    DocumentId::new(&id).unwrap()
}
fn contents(v: u32) -> Vec<u8> {
    pot(&Basic { v, tags: vec![format!("t{}", v % 2)] })
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Exp {
    Updated(String, Vec<u8>, u32, [u8; 32]),
    Deleted(String, Vec<u8>),
    Success,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Fail {
    Conflict(String, Vec<u8>),
    NotFound(String, Vec<u8>),
    NoCollection,
    Other(String),
}

impl Model {
    fn header(&self, docs: &Docs, id: &[u8], h: Hdr) -> Header {
        let id = DocumentId::try_from(id).unwrap();
        let stored = docs.get(id.as_ref()).map(|d| d.0);
        let revision = match (h, stored) {
            (Hdr::Cur, Some(r)) => r,
            (Hdr::Cur, None) => Revision::new(b"never"),
            (Hdr::Stale, Some(r)) => {
                if r.id > 0 { Revision::with_id(r.id - 1, &contents(0)) } else { Revision::with_id(1, &contents(0)) }
            }
            (Hdr::Same, Some(r)) => Revision::with_id(r.id, &contents(77)),
            (Hdr::Digest, Some(r)) => Revision { id: r.id + 1, sha256: r.sha256 },
            (_, None) => Revision::with_id(3, b"never"),
        };
        Header { id, revision }
    }

    /// The real operation and its predicted effect on `self`.
    pub fn step(&mut self, op: Op) -> (Operation, Result<Exp, Fail>) {
        let bn = Basic::collection_name();
        let pn = Plain::collection_name();
        let b = bn.to_string();
        match op {
            Op::Push(v) => {
                let id = self.high + 1;
                self.high = id;
                let r = Revision::new(&contents(v));
                self.basic.insert(key(id).to_vec(), (r, contents(v)));
                (Operation::insert(bn, None, contents(v)), Ok(Exp::Updated(b, key(id).to_vec(), 0, r.sha256)))
            }
            Op::Insert(id, v) => {
                let o = Operation::insert(bn, Some(key(id)), contents(v));
                let k = key(id).to_vec();
                if self.basic.contains_key(&k) {
                    return (o, Err(Fail::Conflict(b, k)));
                }
                let r = Revision::new(&contents(v));
                self.high = self.high.max(id);
                self.basic.insert(k.clone(), (r, contents(v)));
                (o, Ok(Exp::Updated(b, k, 0, r.sha256)))
            }
            Op::Update(id, h, v) => {
                let k = key(id).to_vec();
                let hd = self.header(&self.basic, &k, h);
                let o = Operation::update(bn, hd.clone(), contents(v));
                let Some((r, c)) = self.basic.get_mut(&k) else {
                    return (o, Err(Fail::NotFound(b, k)));
                };
                if *r != hd.revision {
                    return (o, Err(Fail::Conflict(b, k)));
                }
                if let Some(n) = r.next_revision(&contents(v)) {
                    *r = Revision::with_id(r.id + 1, &contents(v));
                    assert_eq!(n, *r);
                    *c = contents(v);
                }
                (o, Ok(Exp::Updated(b, k, r.id, r.sha256)))
            }
            Op::Overwrite(id, v) => {
                let k = key(id).to_vec();
                let o = Operation::overwrite(bn, key(id), contents(v));
                self.high = self.high.max(id);
                let e = self.basic.entry(k.clone()).or_insert_with(|| (Revision::new(&contents(v)), contents(v)));
                if e.1 != contents(v) {
                    *e = (Revision::with_id(e.0.id + 1, &contents(v)), contents(v));
                }
                (o, Ok(Exp::Updated(b, k, e.0.id, e.0.sha256)))
            }
            Op::Delete(id, h) => {
                let k = key(id).to_vec();
                let hd = self.header(&self.basic, &k, h);
                let o = Operation::delete(bn, hd.clone());
                match self.basic.get(&k) {
                    None => (o, Err(Fail::NotFound(b, k))),
                    Some(d) if d.0 != hd.revision => (o, Err(Fail::Conflict(b, k))),
                    Some(_) => {
                        self.basic.remove(&k);
                        (o, Ok(Exp::Deleted(b, k)))
                    }
                }
            }
            Op::Exists(id) => {
                let k = key(id).to_vec();
                let o = Operation::check_document_exists::<Basic>(&id).unwrap();
                if self.basic.contains_key(&k) { (o, Ok(Exp::Success)) } else { (o, Err(Fail::NotFound(b, k))) }
            }
            Op::Current(id, h) => {
                let k = key(id).to_vec();
                let hd = self.header(&self.basic, &k, h);
                let o = Operation::check_document_is_current::<Basic, _>(&hd).unwrap();
                match self.basic.get(&k) {
                    None => (o, Err(Fail::NotFound(b, k))),
                    Some(d) if d.0 != hd.revision => (o, Err(Fail::Conflict(b, k))),
                    Some(_) => (o, Ok(Exp::Success)),
                }
            }
            Op::PlainInsert(v) => {
                let k = b"p".to_vec();
                let o = Operation::insert(pn.clone(), Some(DocumentId::try_from(&k[..]).unwrap()), pot(&Plain { v }));
                if self.plain.contains_key(&k) {
                    return (o, Err(Fail::Conflict(pn.to_string(), k)));
                }
                let r = Revision::new(&pot(&Plain { v }));
                self.plain.insert(k.clone(), (r, pot(&Plain { v })));
                (o, Ok(Exp::Updated(pn.to_string(), k, 0, r.sha256)))
            }
            Op::PlainDelete(h) => {
                let k = b"p".to_vec();
                let hd = self.header(&self.plain, &k, h);
                let o = Operation::delete(pn.clone(), hd.clone());
                match self.plain.get(&k) {
                    None => (o, Err(Fail::NotFound(pn.to_string(), k))),
                    Some(d) if d.0 != hd.revision => (o, Err(Fail::Conflict(pn.to_string(), k))),
                    Some(_) => {
                        self.plain.remove(&k);
                        (o, Ok(Exp::Deleted(pn.to_string(), k)))
                    }
                }
            }
            Op::Alien => (
                Operation::insert(CollectionName::private("alien"), None, contents(0)),
                Err(Fail::NoCollection),
            ),
        }
    }
}

pub fn fail_of(e: &Error) -> Fail {
    match e {
        Error::DocumentConflict(c, h) => Fail::Conflict(c.to_string(), h.id.to_vec()),
        Error::DocumentNotFound(c, id) => Fail::NotFound(c.to_string(), id.to_vec()),
        Error::CollectionNotFound => Fail::NoCollection,
        o => Fail::Other(o.to_string()),
    }
}
pub fn exp_of(r: &OperationResult) -> Exp {
    match r {
        OperationResult::Success => Exp::Success,
        OperationResult::DocumentUpdated { collection, header } => Exp::Updated(
            collection.to_string(),
            header.id.to_vec(),
            header.revision.id,
            header.revision.sha256,
        ),
        OperationResult::DocumentDeleted { collection, id } => Exp::Deleted(collection.to_string(), id.to_vec()),
    }
}

/// Everything a reader can see, compared with the model.
pub fn compare(db: &Database, m: &Model) -> Result<(), String> {
    for (what, docs, got, count) in [
        ("basic", &m.basic, Basic::all(db).query().map(|v| v.len()).err(), db.collection::<Basic>().all().count()),
        ("plain", &m.plain, None, db.collection::<Plain>().all().count()),
    ] {
        if let Some(e) = got {
            return Err(format!("reading {what} failed: {e}"));
        }
        let all = if what == "basic" {
            db.collection::<Basic>().all().query()
        } else {
            db.collection::<Plain>().all().query()
        }
        .map_err(|e| format!("list {what}: {e}"))?;
        let seen: Vec<(Vec<u8>, Revision, Vec<u8>)> =
            all.iter().map(|d| (d.header.id.to_vec(), d.header.revision, d.contents.to_vec())).collect();
        let want: Vec<_> = docs.iter().map(|(k, (r, c))| (k.clone(), *r, c.clone())).collect();
        if seen != want {
            return Err(format!(
                "{what} holds {:?}, expected {:?}",
                seen.iter().map(|s| (hex(&s.0), s.1.id)).collect::<Vec<_>>(),
                want.iter().map(|s| (hex(&s.0), s.1.id)).collect::<Vec<_>>()
            ));
        }
        if count.as_ref().ok() != Some(&(docs.len() as u64)) {
            return Err(format!("{what} counts {count:?}, expected {}", docs.len()));
        }
    }
    // point reads, present and absent
    for id in 0..5u64 {
        let d = db.collection::<Basic>().get(&id).map_err(|e| e.to_string())?;
        let w = m.basic.get(key(id).as_ref());
        if d.as_ref().map(|d| (d.header().unwrap().revision, d.contents.to_vec())) != w.map(|w| (w.0, w.1.clone())) {
            return Err(format!("document {id} reads differently from the list"));
        }
    }
    // the indexes agree
    let sum: u32 = m.basic.values().map(|d| ::pot::from_slice::<Basic>(&d.1).unwrap().v).sum();
    let got = db.view::<ByV>().reduce().map_err(|e| e.to_string())?;
    if got != sum {
        return Err(format!("lazy index sums to {got}, expected {sum}"));
    }
    let got = db.view::<ByTag>().reduce().map_err(|e| e.to_string())?;
    if got as usize != m.basic.len() {
        return Err(format!("eager index counts {got}, expected {}", m.basic.len()));
    }
    Ok(())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn alphabet() -> Vec<Op> {
    use Hdr::*;
    let mut v = vec![Op::Push(5)];
    for id in [1u64, 2] {
        v.extend([
            Op::Insert(id, 1),
            Op::Update(id, Cur, 2),
            Op::Update(id, Stale, 3),
            Op::Update(id, Same, 3),
            Op::Overwrite(id, 4),
            Op::Delete(id, Cur),
            Op::Delete(id, Stale),
            Op::Delete(id, Same),
            Op::Exists(id),
            Op::Current(id, Cur),
            Op::Current(id, Same),
        ]);
    }
    v.extend([Op::Update(1, Digest, 3), Op::Delete(1, Digest), Op::Current(1, Digest), Op::Current(1, Stale), Op::Update(1, Cur, 1), Op::Overwrite(1, 1), Op::PlainInsert(1), Op::PlainDelete(Cur), Op::PlainDelete(Stale), Op::Alien]);
    v
}

/// Prefixes that reach every combination of shapes of the two documents.
pub fn shapes() -> Vec<Vec<Op>> {
    let one = |id: u64| -> Vec<Vec<Op>> {
        vec![
            vec![],
            vec![Op::Insert(id, 1)],
            vec![Op::Insert(id, 1), Op::Update(id, Hdr::Cur, 2)],
            vec![Op::Insert(id, 1), Op::Delete(id, Hdr::Cur)],
            vec![Op::Insert(id, 1), Op::Delete(id, Hdr::Cur), Op::Overwrite(id, 2)],
        ]
    };
    let mut v = Vec::new();
    for a in one(1) {
        for b in one(2) {
            v.push([a.clone(), b].concat());
        }
    }
    v.push(vec![Op::PlainInsert(7), Op::Insert(1, 1)]);
    v.sort_by_key(Vec::len);
    v
}

struct World1 {
    n: u32,
    s: Storage,
    db: Database,
    m: Model,
    txs: u64,
}

fn apply(db: &Database, m: &mut Model, ops: &[Op]) -> Result<(Result<Vec<Exp>, Fail>, bool), String> {
    let mut next = m.clone();
    let mut tx = Transaction::new();
    let mut want: Result<Vec<Exp>, Fail> = Ok(vec![]);
    for op in ops {
        let (o, e) = next.step(*op);
        tx.push(o);
        match (&mut want, e) {
            (Ok(v), Ok(x)) => v.push(x),
            (Ok(_), Err(f)) => want = Err(f),
            _ => {}
        }
    }
    // an unknown collection is refused up front
    if ops.contains(&Op::Alien) {
        want = Err(Fail::NoCollection);
    }
    let got = db.apply_transaction(tx);
    let got = match &got {
        Ok(v) => Ok(v.iter().map(exp_of).collect::<Vec<_>>()),
        Err(e) => Err(fail_of(e)),
    };
    if got != want {
        return Err(format!("answered {got:?}, expected {want:?}"));
    }
    let ok = want.is_ok();
    if ok {
        *m = next;
    }
    Ok((want, ok))
}

fn fresh(s: Option<(Storage, u32)>, prefix: &[Op]) -> Result<World1, String> {
    let (s, n) = s.unwrap_or_else(|| (open(config(true).with_schema::<World>().unwrap()), 0));
    let db = s.create_database::<World>(&format!("d{n}"), false).unwrap();
    let mut m = Model::default();
    for op in prefix {
        apply(&db, &mut m, &[*op])?;
    }
    let txs = db.list_executed_transactions(None, Some(1000)).map_err(|e| e.to_string())?.len() as u64;
    Ok(World1 { n, s, db, m, txs })
}

fn job(j: &(Vec<Op>, Vec<Vec<Op>>), a: &mut Acc) {
    let (prefix, heads) = j;
    let mut w: Option<World1> = None;
    let mut st: Option<(Storage, u32)> = None;
    for tail in heads {
        let case = format!("after {prefix:?}, transaction {tail:?}");
        a.at(&case);
        if w.is_none() {
            match fresh(st.take(), prefix) {
                Ok(x) => w = Some(x),
                Err(e) => {
                    a.bad(format!("prefix {prefix:?}: {e}"), json!({"ops": format!("{prefix:?}")}));
                    return;
                }
            }
        }
        let x = w.as_mut().unwrap();
        let before = x.m.clone();
        a.count("evaluations", 1);
        let res = apply(&x.db, &mut x.m, tail).and_then(|r| {
            compare(&x.db, &x.m)?;
            let n = x.db.list_executed_transactions(None, Some(1000)).map_err(|e| e.to_string())?.len() as u64;
            let want = x.txs + u64::from(r.1);
            if n != want && !tail.is_empty() {
                return Err(format!("{n} executed transactions listed, expected {want}"));
            }
            Ok(r)
        });
        match res {
            Err(e) => {
                a.bad(format!("{case}: {e}"), json!({"prefix": format!("{prefix:?}"), "tx": format!("{tail:?}")}));
                let y = w.take().unwrap();
                let _ = y.s.delete_database(&format!("d{}", y.n));
                st = Some((y.s, y.n + 1));
            }
            Ok((r, changed)) => {
                a.outcome(&(&r, format!("{:?}", before.basic.keys())));
                a.count(if r.is_ok() { "committed" } else { "rejected" }, 1);
                if r.is_ok() && tail.len() > 1 {
                    a.sample(json!({"prefix": format!("{prefix:?}"), "transaction": format!("{tail:?}"), "result": format!("{r:?}")}));
                }
                if changed {
                    let y = w.take().unwrap();
                    let _ = y.s.delete_database(&format!("d{}", y.n));
                    // a bounded number of databases per process
                    st = (y.n < 60).then_some((y.s, y.n + 1));
                }
            }
        }
    }
}

pub fn txs(len: usize) -> Vec<Vec<Op>> {
    let a = alphabet();
    let mut out: Vec<Vec<Op>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..len {
        let mut next = Vec::new();
        for p in &last {
            for o in &a {
                let mut q = p.clone();
                q.push(*o);
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

pub fn run() -> i32 {
    let mut r = Report::new("C01", "exploration");
    r.set("rule", "every transaction of at most L operations from the alphabet, from every shape of two documents; non-trivial = distinct (result, ids present before) pairs");
    let two = txs(2);
    let three: Vec<Vec<Op>> = txs(3).into_iter().filter(|t| t.len() == 3).collect();
    let mut jobs = Vec::new();
    for p in shapes() {
        for c in two.chunks(160) {
            jobs.push((p.clone(), c.to_vec()));
        }
    }
    let deep = r.pick(2, 26);
    for p in shapes().into_iter().filter(|p| p.len() < 4).take(deep) {
        for c in three.chunks(200) {
            jobs.push((p.clone(), c.to_vec()));
        }
    }
    seq::run(&mut r, Mode::Controlled, jobs, job);
    r.set("exhaustive", true);
    r.set("max_transaction_length", 3);
    r.assume("two document ids, five document shapes, six contents; an in-memory storage");
    r.finish()
}
