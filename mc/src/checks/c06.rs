//! C06: unique views never hold two documents under one key, and exactly the
//! operations that would break that are refused, with no effect.
use std::collections::BTreeMap;

use bonsaidb_core::connection::{Connection, LowLevelConnection, StorageConnection};
use bonsaidb_core::document::{CollectionDocument, DocumentId, Emit, Header};
use bonsaidb_core::schema::{Collection, CollectionMapReduce, Schema, SerializedCollection, View, ViewMapResult, ViewSchema};
use bonsaidb_core::transaction::{Operation, OperationResult, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage, StorageNonBlocking};
use serde::{Deserialize, Serialize};

use super::world;
use crate::engine::{self, par, Env, Replay};
use crate::report::Report;
use crate::seq::{self, Acc, Mode};
use crate::tour::{self, Graph};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Collection)]
#[collection(name = "acct", primary_key = u64, views = [Names, Codes, Loose, All])]
pub struct Acct {
    pub names: Vec<String>,
    pub code: Option<u32>,
    pub n: u32,
}
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Acct, key = String, value = u32, name = "names")]
#[view_schema(policy = Unique)]
pub struct Names;
impl CollectionMapReduce for Names {
    fn map<'doc>(&self, d: CollectionDocument<Acct>) -> ViewMapResult<'doc, Self> {
        d.contents.names.iter().map(|w| d.header.emit_key_and_value(w.clone(), d.contents.n)).collect()
    }
}
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Acct, key = u32, name = "codes")]
#[view_schema(policy = Unique)]
pub struct Codes;
impl CollectionMapReduce for Codes {
    fn map<'doc>(&self, d: CollectionDocument<Acct>) -> ViewMapResult<'doc, Self> {
        match d.contents.code {
            Some(c) => d.header.emit_key(c),
            None => Ok(bonsaidb_core::schema::view::map::Mappings::none()),
        }
    }
}
/// Not unique, updated eagerly with the unique ones.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Acct, key = u32, name = "loose")]
#[view_schema(policy = Eager)]
pub struct Loose;
impl CollectionMapReduce for Loose {
    fn map<'doc>(&self, d: CollectionDocument<Acct>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key(d.contents.n)
    }
}
/// Not unique, updated lazily.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Acct, key = u32, name = "all")]
pub struct All;
impl CollectionMapReduce for All {
    fn map<'doc>(&self, d: CollectionDocument<Acct>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key(d.contents.n)
    }
}

#[derive(Debug, Schema)]
#[schema(name = "accts", collections = [Acct])]
pub struct Accts;

const KINDS: u8 = 5;
fn contents(c: u8) -> Acct {
    let (names, code): (&[&str], Option<u32>) = match c {
        1 => (&["a"], None),
        2 => (&["b"], Some(1)),
        3 => (&[], Some(1)),
        4 => (&["a", "c"], Some(2)),
        _ => (&["a"], Some(3)),
    };
    Acct { names: names.iter().map(|n| (*n).to_string()).collect(), code, n: u32::from(c) }
}
type Docs = [u8; 3];
fn keys(c: u8) -> Vec<String> {
    if c == 0 {
        return vec![];
    }
    let x = contents(c);
    x.names.iter().cloned().chain(x.code.map(|c| format!("#{c}"))).collect()
}
/// Documents (other than `id`) that hold a key of `c`.
fn clash(d: &Docs, id: u64, c: u8) -> Vec<u64> {
    let k = keys(c);
    (1..=3).filter(|o| *o != id && keys(d[*o as usize - 1]).iter().any(|x| k.contains(x))).collect()
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Op {
    Ins(u64, u8),
    Upd(u64, u8),
    Ovw(u64, u8),
    Del(u64),
    /// the document exists
    Chk(u64),
}
/// Applies operations one after another; the first that fails undoes them all.
fn model(d: &Docs, ops: &[Op]) -> Result<Docs, (u64, Vec<u64>)> {
    let mut x = *d;
    for o in ops {
        let (id, c) = match *o {
            Op::Ins(i, c) | Op::Upd(i, c) | Op::Ovw(i, c) => (i, c),
            Op::Del(i) => (i, 0),
            Op::Chk(_) => continue,
        };
        let v = clash(&x, id, c);
        if !v.is_empty() {
            return Err((id, v));
        }
        x[id as usize - 1] = c;
    }
    Ok(x)
}

struct Uniq {
    pairs: bool,
    reopen: bool,
    big: bool,
}
struct Sys {
    s: Storage,
    db: Database,
    heads: BTreeMap<u64, Header>,
}
#[derive(Clone, Debug, Hash)]
enum A {
    Tx(Vec<Op>),
    Reopen,
}
impl Graph for Uniq {
    type S = Docs;
    type A = A;
    type Sys = Sys;
    fn start(&self) -> Docs {
        [0; 3]
    }
    fn actions(&self, s: &Docs) -> Vec<A> {
        let single = |s: &Docs, del: bool| {
            let mut v = vec![];
            for i in 1..=3u64 {
                for c in 1..=KINDS {
                    v.push(Op::Ovw(i, c));
                    v.push(if s[i as usize - 1] == 0 { Op::Ins(i, c) } else { Op::Upd(i, c) });
                }
                if del && s[i as usize - 1] != 0 {
                    v.push(Op::Del(i));
                }
            }
            v
        };
        let mut out: Vec<A> = single(s, true).into_iter().map(|o| A::Tx(vec![o])).collect();
        if self.pairs {
            for a in single(s, true) {
                for b in single(s, true) {
                    let id = |o: &Op| match *o {
                        Op::Ins(i, _) | Op::Upd(i, _) | Op::Ovw(i, _) | Op::Del(i) | Op::Chk(i) => i,
                    };
                    if id(&a) != id(&b) && !matches!((a, b), (Op::Ovw(..), Op::Ovw(..))) {
                        out.push(A::Tx(vec![a, b]));
                    }
                }
                // one document twice
                let i = match a {
                    Op::Ins(i, _) | Op::Upd(i, _) | Op::Ovw(i, _) | Op::Del(i) | Op::Chk(i) => i,
                };
                for c in 1..=if self.big { KINDS } else { 2 } {
                    out.push(A::Tx(vec![a, Op::Ovw(i, c)]));
                    if a == Op::Del(i) {
                        out.push(A::Tx(vec![a, Op::Ins(i, c)]));
                    }
                }
                if a != Op::Del(i) {
                    out.push(A::Tx(vec![a, Op::Chk(i)]));
                }
                if s[i as usize - 1] != 0 {
                    out.push(A::Tx(vec![Op::Chk(i), a]));
                }
            }
        }
        if self.reopen {
            out.push(A::Reopen);
        }
        out
    }
    fn next(&self, s: &Docs, a: &A) -> Docs {
        match a {
            A::Tx(ops) => model(s, ops).unwrap_or(*s),
            A::Reopen => *s,
        }
    }
    fn life(&self) -> usize {
        if self.reopen { 400 } else { 2000 }
    }
    fn fresh(&self) -> Result<Sys, String> {
        let mut c = world::config(!self.reopen).with_schema::<Accts>().map_err(|e| e.to_string())?;
        c.workers.parallelization = 1;
        let s = world::open(c);
        let db = s.create_database::<Accts>("d", false).map_err(|e| e.to_string())?;
        Ok(Sys { s, db, heads: BTreeMap::new() })
    }
    fn done(&self, x: Sys) {
        drop(x.db);
        let _ = x.s.delete_database("d");
    }
    fn exec(&self, x: &mut Sys, s: &Docs, a: &A, t: &Docs, acc: &mut Acc) -> Result<(), String> {
        let A::Tx(ops) = a else {
            let path = x.s.path().to_owned();
            let c = world::config_at(path.to_str().unwrap(), false).with_schema::<Accts>().map_err(|e| e.to_string())?;
            let (old_s, old_db) = (x.s.clone(), x.db.clone());
            // the old instance goes away first
            let dummy = world::open(world::config(true).with_schema::<Accts>().map_err(|e| e.to_string())?);
            x.db = dummy.create_database::<Accts>("d", false).map_err(|e| e.to_string())?;
            x.s = dummy;
            drop((old_s, old_db));
            let n = world::open(c);
            let db = n.database::<Accts>("d").map_err(|e| e.to_string())?;
            x.db = db;
            x.s = n;
            return check(&x.db, t, &x.heads, acc);
        };
        let mut tx = Transaction::new();
        for o in ops {
            tx.push(match *o {
                Op::Ins(i, c) => Operation::insert(Acct::collection_name(), Some(DocumentId::new(&i).unwrap()), world::pot(&contents(c))),
                Op::Upd(i, c) => Operation::update(Acct::collection_name(), x.heads[&i].clone(), world::pot(&contents(c))),
                Op::Ovw(i, c) => Operation::overwrite(Acct::collection_name(), DocumentId::new(&i).unwrap(), world::pot(&contents(c))),
                Op::Chk(i) => Operation::check_document_exists::<Acct>(&i).unwrap(),
                Op::Del(i) => Operation::delete(Acct::collection_name(), x.heads[&i].clone()),
            });
        }
        match (x.db.apply_transaction(tx), model(s, ops)) {
            (Ok(r), Ok(_)) => {
                for r in r {
                    match r {
                        OperationResult::DocumentUpdated { header, .. } => {
                            x.heads.insert(header.id.deserialize::<u64>().unwrap(), header);
                        }
                        OperationResult::DocumentDeleted { id, .. } => {
                            x.heads.remove(&id.deserialize::<u64>().unwrap());
                        }
                        OperationResult::Success => {}
                    }
                }
            }
            (Err(Error::UniqueKeyViolation { conflicting_document, existing_document, .. }), Err((id, others))) => {
                acc.count("refusals", 1);
                let c = conflicting_document.id.deserialize::<u64>().unwrap();
                let e = existing_document.id.deserialize::<u64>().unwrap();
                if c != id || !others.contains(&e) {
                    return Err(format!("{ops:?} is refused naming {c} against {e}, expected {id} against one of {others:?}"));
                }
            }
            (r, w) => return Err(format!("{ops:?} answers {:?}, expected {:?}", r.map(|_| "ok").map_err(|e| e.to_string()), w.map(|_| "ok").map_err(|w| format!("{w:?}")))),
        }
        check(&x.db, t, &x.heads, acc)
    }
}

fn check(db: &Database, d: &Docs, heads: &BTreeMap<u64, Header>, acc: &mut Acc) -> Result<(), String> {
    let e = |e: Error| e.to_string();
    let stored = Acct::all(db).query().map_err(e)?;
    let got: Vec<(u64, Acct)> = stored.iter().map(|d| (d.header.id, d.contents.clone())).collect();
    let want: Vec<(u64, Acct)> = (1..=3).filter(|i| d[*i as usize - 1] != 0).map(|i| (i, contents(d[i as usize - 1]))).collect();
    if got != want {
        return Err(format!("documents are {got:?}, expected {want:?}"));
    }
    for x in &stored {
        if x.header.revision != heads[&x.header.id].revision {
            return Err(format!("document {} has revision {:?}", x.header.id, x.header.revision));
        }
    }
    let mut n: Vec<(String, u64)> = want.iter().flat_map(|(i, a)| a.names.iter().map(move |n| (n.clone(), *i))).collect();
    n.sort();
    let g: Vec<(String, u64)> = db.view::<Names>().query().map_err(e)?.into_iter().map(|m| (m.key, m.source.id)).collect();
    if g != n {
        return Err(format!("unique view of names holds {g:?}, expected {n:?}"));
    }
    let mut c: Vec<(u32, u64)> = want.iter().filter_map(|(i, a)| a.code.map(|c| (c, *i))).collect();
    c.sort_unstable();
    let g: Vec<(u32, u64)> = db.view::<Codes>().query().map_err(e)?.into_iter().map(|m| (m.key, m.source.id)).collect();
    if g != c {
        return Err(format!("unique view of codes holds {g:?}, expected {c:?}"));
    }
    let mut l: Vec<(u32, u64)> = want.iter().map(|(i, a)| (a.n, *i)).collect();
    l.sort_unstable();
    for (what, v) in [("eager", db.view::<Loose>().query().map_err(e)?.into_iter().map(|m| (m.key, m.source.id)).collect::<Vec<_>>()), ("lazy", db.view::<All>().query().map_err(e)?.into_iter().map(|m| (m.key, m.source.id)).collect())] {
        let mut v = v;
        v.sort_unstable();
        if v != l {
            return Err(format!("{what} view next to the unique ones holds {v:?}, expected {l:?}"));
        }
    }
    for k in ["a", "b", "c", "d"] {
        let g: Vec<u64> = Acct::get_by(db, k)?;
        let w: Vec<u64> = n.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
        if g != w {
            return Err(format!("looking up {k:?} finds {g:?}, expected {w:?}"));
        }
    }
    acc.count("evaluations", 1);
    acc.outcome(d);
    Ok(())
}
impl Acct {
    fn get_by(db: &Database, k: &str) -> Result<Vec<u64>, String> {
        let v = db.view::<Names>().with_key(k).query_with_docs().map_err(|e| e.to_string())?;
        Ok(v.documents.keys().copied().collect())
    }
}

/// Concurrent writers of one key.
#[derive(Clone, Debug)]
struct Prog {
    init: Docs,
    threads: Vec<Vec<Op>>,
}
fn body(p: &Prog, _e: &Env) -> Result<String, String> {
    let s = world::open(world::config(true).with_schema::<Accts>().unwrap());
    let db = s.create_database::<Accts>("d", false).unwrap();
    let mut heads = BTreeMap::new();
    for i in 1..=3u64 {
        if p.init[i as usize - 1] != 0 {
            let h = contents(p.init[i as usize - 1]).insert_into(&i, &db).unwrap().header;
            heads.insert(i, Header::try_from(h).unwrap());
        }
    }
    let fs = p
        .threads
        .iter()
        .map(|t| {
            let (t, db, heads) = (t.clone(), db.clone(), heads.clone());
            Box::new(move || {
                t.into_iter()
                    .map(|o| {
                        let op = match o {
                            Op::Ins(i, c) => Operation::insert(Acct::collection_name(), Some(DocumentId::new(&i).unwrap()), world::pot(&contents(c))),
                            Op::Upd(i, c) => Operation::update(Acct::collection_name(), heads[&i].clone(), world::pot(&contents(c))),
                            Op::Ovw(i, c) => Operation::overwrite(Acct::collection_name(), DocumentId::new(&i).unwrap(), world::pot(&contents(c))),
                            Op::Chk(i) => Operation::check_document_exists::<Acct>(&i).unwrap(),
                Op::Del(i) => Operation::delete(Acct::collection_name(), heads[&i].clone()),
                        };
                        match db.apply_transaction(Transaction::new().with(op)) {
                            Ok(_) => "ok".to_string(),
                            Err(Error::UniqueKeyViolation { .. }) => "unique".into(),
                            Err(e) => e.to_string(),
                        }
                    })
                    .collect::<Vec<_>>()
            }) as Box<dyn FnOnce() -> Vec<String> + Send>
        })
        .collect();
    let got = par(fs);
    let mut fin: Docs = [0; 3];
    let mut heads = BTreeMap::new();
    for d in Acct::all(&db).query().map_err(|e| e.to_string())? {
        fin[d.header.id as usize - 1] = d.contents.n as u8;
        heads.insert(d.header.id, Header::try_from(d.header).unwrap());
    }
    // some order of the calls gives these answers and this state
    let mut order: Vec<usize> = p.threads.iter().enumerate().flat_map(|(i, t)| vec![i; t.len()]).collect();
    order.sort_unstable();
    let mut perms = vec![];
    permute(&mut order, 0, &mut perms);
    let fits = perms.iter().any(|perm| {
        let mut d = p.init;
        let mut at = vec![0; p.threads.len()];
        perm.iter().all(|t| {
            let o = p.threads[*t][at[*t]];
            let g = &got[*t][at[*t]];
            at[*t] += 1;
            if matches!(o, Op::Ins(i, _) if d[i as usize - 1] != 0) {
                return g.starts_with("a conflict");
            }
            match model(&d, &[o]) {
                Ok(n) => {
                    d = n;
                    g == "ok"
                }
                Err(_) => g == "unique",
            }
        }) && d == fin
    });
    if !fits {
        return Err(format!("no order of the calls explains {got:?} leaving {fin:?}"));
    }
    check(&db, &fin, &heads, &mut Acc::default())?;
    Ok(format!("{got:?}"))
}
fn permute(v: &mut Vec<usize>, i: usize, out: &mut Vec<Vec<usize>>) {
    if i == v.len() {
        if !out.contains(v) {
            out.push(v.clone());
        }
        return;
    }
    for j in i..v.len() {
        v.swap(i, j);
        permute(v, i + 1, out);
        v.swap(i, j);
    }
}
fn progs(big: bool) -> Vec<(String, Prog, usize)> {
    let b = if big { 3 } else { 2 };
    let t = |init: Docs, threads: &[&[Op]], b: usize| {
        let p = Prog { init, threads: threads.iter().map(|t| t.to_vec()).collect() };
        (format!("{p:?}"), p, b)
    };
    vec![
        t([0, 0, 0], &[&[Op::Ins(1, 1)], &[Op::Ins(2, 1)]], b),
        t([0, 0, 0], &[&[Op::Ins(1, 4)], &[Op::Ins(2, 5)]], b),
        t([0, 0, 0], &[&[Op::Ovw(1, 3)], &[Op::Ovw(2, 2)]], b),
        t([1, 2, 0], &[&[Op::Upd(1, 3)], &[Op::Upd(2, 1)]], b),
        t([1, 0, 0], &[&[Op::Del(1)], &[Op::Ins(2, 1)]], b),
        t([1, 2, 0], &[&[Op::Del(1), Op::Ins(3, 4)], &[Op::Ins(3, 3)]], b - 1),
        t([0, 0, 0], &[&[Op::Ins(1, 1)], &[Op::Ins(2, 1)], &[Op::Ins(3, 4)]], b - 1),
    ]
}

pub fn run() -> i32 {
    let mut r = Report::new("C06", "model_checking");
    let big = r.thorough();
    let parts = 8u64;
    let mut jobs: Vec<(u64, bool, bool)> = vec![];
    for p in 0..parts {
        jobs.push((p, true, false));
    }
    for p in 0..parts {
        jobs.push((p, false, true));
    }
    seq::run(&mut r, Mode::Controlled, jobs, |(p, pairs, reopen), a| tour::cover(&Uniq { pairs: *pairs, reopen: *reopen, big }, *p, parts, a));
    let st = r.coverage.get("model_states").cloned().unwrap_or_default();
    let tr = r.coverage.get("transitions").cloned().unwrap_or_default();
    r.set("sequential_model_states", st);
    r.set("sequential_transitions", tr);
    if r.violations.is_empty() {
        super::explore_all(&mut r, progs(big), if big { 2000.0 } else { 10.0 }, |p, e| body(p, e));
    }
    r.assume("three documents, five contents, two unique views; operations of a transaction take effect in order");
    r.finish()
}
pub fn replay(f: &Replay) -> i32 {
    for (n, p, _) in progs(true) {
        if n == f.scenario {
            engine::run_one(&|e: &Env| body(&p, e), &f.dev, true).show();
            return 1;
        }
    }
    2
}
