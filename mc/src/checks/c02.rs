//! C02: every schedule of small concurrent programs is linearizable.
use std::collections::BTreeMap;

use bonsaidb_core::connection::{Connection, LowLevelConnection, StorageConnection};
use bonsaidb_core::document::{DocumentId, Header, Revision};
use bonsaidb_core::connection::{Range, Sort};
use bonsaidb_core::schema::Collection;
use bonsaidb_core::transaction::{Command, Operation, Transaction};
use bonsaidb_local::config::Builder;
use bonsaidb_local::Database;

use super::c01::{exp_of, fail_of, Exp, Fail};
use super::world::*;
use crate::engine::{self, par, Env, Replay};
use crate::report::Report;

pub type Docs = BTreeMap<Vec<u8>, (Revision, Vec<u8>)>;

/// Reference semantics of one operation on one collection. `id` resolves an
/// assigned id.
pub fn eval(docs: &mut Docs, op: &Operation, assigned: Option<&[u8]>) -> Result<Exp, Fail> {
    let c = op.collection.to_string();
    let insert = |docs: &mut Docs, k: Vec<u8>, contents: &[u8], rev: u32| {
        let r = Revision::with_id(rev, contents);
        docs.insert(k.clone(), (r, contents.to_vec()));
        Ok(Exp::Updated(c.clone(), k, rev, r.sha256))
    };
    match &op.command {
        Command::Insert { id, contents } => {
            let k = match id {
                Some(id) => id.to_vec(),
                None => assigned.unwrap_or_default().to_vec(),
            };
            if docs.contains_key(&k) {
                return Err(Fail::Conflict(c, k));
            }
            insert(docs, k, contents, 0)
        }
        Command::Update { header, contents } => {
            let k = header.id.to_vec();
            match docs.get(&k).cloned() {
                None => Err(Fail::NotFound(c, k)),
                Some((r, _)) if r != header.revision => Err(Fail::Conflict(c, k)),
                Some((r, old)) => {
                    if old[..] == contents[..] {
                        return Ok(Exp::Updated(c, k, r.id, r.sha256));
                    }
                    insert(docs, k, contents, r.id + 1)
                }
            }
        }
        Command::Overwrite { id, contents } => {
            let k = id.to_vec();
            match docs.get(&k).cloned() {
                None => insert(docs, k, contents, 0),
                Some((r, old)) => {
                    if old[..] == contents[..] {
                        return Ok(Exp::Updated(c, k, r.id, r.sha256));
                    }
                    insert(docs, k, contents, r.id + 1)
                }
            }
        }
        Command::Delete { header } => {
            let k = header.id.to_vec();
            match docs.get(&k) {
                None => Err(Fail::NotFound(c, k)),
                Some((r, _)) if *r != header.revision => Err(Fail::Conflict(c, k)),
                Some(_) => {
                    docs.remove(&k);
                    Ok(Exp::Deleted(c, k))
                }
            }
        }
        Command::Check { id, revision } => {
            let k = id.to_vec();
            match docs.get(&k) {
                None => Err(Fail::NotFound(c, k)),
                Some((r, _)) if revision.is_some_and(|x| x != *r) => Err(Fail::Conflict(c, k)),
                Some(_) => Ok(Exp::Success),
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    Push,
    Ins(u64),
    Upd(u64),
    Ovw(u64),
    Del(u64),
    /// check that 1 is current, then insert 2
    Guarded,
    /// delete 1 and insert 3 in one transaction
    Swap,
    List,
    Get(u64),
}

#[derive(Clone, Debug)]
pub struct Prog {
    /// use the collection with views
    pub views: bool,
    pub with_doc: bool,
    pub threads: Vec<Vec<P>>,
}

impl Prog {
    pub fn name(&self) -> String {
        format!("views={} doc={} {:?}", self.views, self.with_doc, self.threads)
    }
}

#[derive(Clone, Debug)]
enum Act {
    Tx(Vec<Operation>),
    List,
    Get(u64),
}
#[derive(Clone, Debug, PartialEq)]
enum Obs {
    Tx(Result<Vec<Exp>, Fail>),
    Docs(Vec<(Vec<u8>, Revision, Vec<u8>)>),
    Failed(String),
}

fn key(id: u64) -> DocumentId {
    DocumentId::new(&id).unwrap()
}

fn contents(views: bool, v: u32) -> Vec<u8> {
    if views {
        pot(&Basic { v, tags: vec!["x".into()] })
    } else {
        pot(&Simple { v })
    }
}
fn coll(views: bool) -> bonsaidb_core::schema::CollectionName {
    if views {
        Basic::collection_name()
    } else {
        Simple::collection_name()
    }
}

fn act(views: bool, p: P, hdr: &Header, uniq: u32) -> Act {
    let c = coll(views);
    let body = |v: u32| contents(views, v);
    let v = 100 + uniq;
    let h = |id: u64| Header { id: key(id), revision: hdr.revision };
    match p {
        P::Push => Act::Tx(vec![Operation::insert(c, None, body(v))]),
        P::Ins(id) => Act::Tx(vec![Operation::insert(c, Some(key(id)), body(v))]),
        P::Upd(id) => Act::Tx(vec![Operation::update(c, h(id), body(v))]),
        P::Ovw(id) => Act::Tx(vec![Operation::overwrite(c, key(id), body(v))]),
        P::Del(id) => Act::Tx(vec![Operation::delete(c, h(id))]),
        P::Guarded => Act::Tx(vec![
            Operation { collection: c.clone(), command: Command::Check { id: key(1), revision: Some(hdr.revision) } },
            Operation::insert(c, Some(key(2)), body(v)),
        ]),
        P::Swap => Act::Tx(vec![Operation::delete(c.clone(), h(1)), Operation::insert(c, Some(key(3)), body(v))]),
        P::List => Act::List,
        P::Get(id) => Act::Get(id),
    }
}

fn perform(db: &Database, views: bool, a: &Act) -> Obs {
    match a {
        Act::Tx(ops) => {
            let mut tx = Transaction::new();
            for o in ops {
                tx.push(o.clone());
            }
            Obs::Tx(match db.apply_transaction(tx) {
                Ok(r) => Ok(r.iter().map(exp_of).collect()),
                Err(e) => Err(fail_of(&e)),
            })
        }
        Act::List => list(db, views),
        Act::Get(id) => match db.get_from_collection(key(*id), &coll(views)) {
            Ok(d) => Obs::Docs(d.into_iter().map(|d| (d.header.id.to_vec(), d.header.revision, d.contents.to_vec())).collect()),
            Err(e) => Obs::Failed(e.to_string()),
        },
    }
}
fn list(db: &Database, views: bool) -> Obs {
    match db.list_from_collection(Range::from(..), Sort::Ascending, None, &coll(views)) {
        Ok(v) => Obs::Docs(v.iter().map(|d| (d.header.id.to_vec(), d.header.revision, d.contents.to_vec())).collect()),
        Err(e) => Obs::Failed(e.to_string()),
    }
}

/// Is there an order of the calls (respecting each thread's own order and
/// real-time precedence) that explains every observation and the final state?
fn linearizable(init: &Docs, hist: &[Vec<(Act, Obs, u64, u64)>], fin: &Obs) -> bool {
    fn go(docs: &Docs, pos: &mut Vec<usize>, hist: &[Vec<(Act, Obs, u64, u64)>], fin: &Obs) -> bool {
        if pos.iter().zip(hist).all(|(p, h)| *p == h.len()) {
            return *fin == snapshot(docs);
        }
        // earliest return among the pending calls
        let first_ret = pos.iter().zip(hist).filter(|(p, h)| **p < h.len()).map(|(p, h)| h[*p].3).min().unwrap();
        for t in 0..hist.len() {
            if pos[t] == hist[t].len() {
                continue;
            }
            let (a, o, call, _) = &hist[t][pos[t]];
            if *call > first_ret {
                continue;
            }
            let mut d = docs.clone();
            let fits = match (a, o) {
                (Act::Tx(ops), Obs::Tx(got)) => {
                    let mut want = Ok(vec![]);
                    for (i, op) in ops.iter().enumerate() {
                        let assigned = match got {
                            Ok(v) => match v.get(i) {
                                Some(Exp::Updated(_, k, ..)) => Some(k.as_slice()),
                                _ => None,
                            },
                            Err(_) => None,
                        };
                        match (eval(&mut d, op, assigned), &mut want) {
                            (Ok(x), Ok(v)) => v.push(x),
                            (Err(f), Ok(_)) => {
                                want = Err(f);
                                break;
                            }
                            _ => {}
                        }
                    }
                    if want.is_err() {
                        d = docs.clone();
                    }
                    want == *got
                }
                (Act::List, o) => *o == snapshot(docs),
                (Act::Get(id), o) => {
                    let mut one = Docs::new();
                    let k = key(*id).to_vec();
                    if let Some(v) = docs.get(&k) {
                        one.insert(k, v.clone());
                    }
                    *o == snapshot(&one)
                }
                _ => false,
            };
            if fits {
                pos[t] += 1;
                if go(&d, pos, hist, fin) {
                    return true;
                }
                pos[t] -= 1;
            }
        }
        false
    }
    go(init, &mut vec![0; hist.len()], hist, fin)
}
fn snapshot(d: &Docs) -> Obs {
    Obs::Docs(d.iter().map(|(k, (r, c))| (k.clone(), *r, c.clone())).collect())
}

pub fn body(p: &Prog, _e: &Env) -> Result<String, String> {
    let s = open(config(true).with_schema::<World>().unwrap());
    let db = s.create_database::<World>("d", false).unwrap();
    let mut init = Docs::new();
    let base = contents(p.views, 1);
    if p.with_doc {
        let o = Operation::insert(coll(p.views), Some(key(1)), base.clone());
        eval(&mut init, &o, None).unwrap();
        db.apply_transaction(Transaction::new().with(o)).unwrap();
    }
    let hdr = Header { id: key(1), revision: Revision::new(&base) };
    static CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let tick = || CLOCK.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let fs = p
        .threads
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let db = db.clone();
            let views = p.views;
            let acts: Vec<Act> = ops.iter().enumerate().map(|(i, o)| act(p.views, *o, &hdr, (t * 10 + i) as u32)).collect();
            Box::new(move || {
                acts.into_iter()
                    .map(|a| {
                        let c = tick();
                        let o = perform(&db, views, &a);
                        let r = tick();
                        (a, o, c, r)
                    })
                    .collect::<Vec<_>>()
            }) as Box<dyn FnOnce() -> Vec<(Act, Obs, u64, u64)> + Send>
        })
        .collect();
    let hist = par(fs);
    let fin = list(&db, p.views);
    if !linearizable(&init, &hist, &fin) {
        let show: Vec<Vec<String>> = hist
            .iter()
            .map(|h| h.iter().map(|(_, o, ..)| brief(o)).collect())
            .collect();
        return Err(format!("no sequential order explains {show:?} leaving {}", brief(&fin)));
    }
    // the indexes reflect the final documents
    if let (true, Obs::Docs(v)) = (p.views, &fin) {
        let want: u32 = v.iter().map(|d| ::pot::from_slice::<Basic>(&d.2).unwrap().v).sum();
        let got = db.view::<ByV>().reduce().map_err(|e| e.to_string())?;
        if got != want {
            return Err(format!("lazy index sums to {got}, documents to {want}"));
        }
        let want: u32 = v.iter().map(|d| ::pot::from_slice::<Basic>(&d.2).unwrap().tags.len() as u32).sum();
        let got = db.view::<ByTag>().reduce().map_err(|e| e.to_string())?;
        if got != want {
            return Err(format!("eager index counts {got}, documents {want}"));
        }
    }
    Ok(hist.iter().map(|h| h.iter().map(|(_, o, ..)| brief(o)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | "))
}
fn brief(o: &Obs) -> String {
    match o {
        Obs::Tx(Ok(v)) => format!(
            "ok{:?}",
            v.iter()
                .map(|e| match e {
                    Exp::Updated(_, k, r, _) => format!("{}r{r}", k.last().copied().unwrap_or(0)),
                    Exp::Deleted(_, k) => format!("del{}", k.last().copied().unwrap_or(0)),
                    Exp::Success => "check".into(),
                })
                .collect::<Vec<_>>()
        ),
        Obs::Tx(Err(Fail::Conflict(..))) => "conflict".into(),
        Obs::Tx(Err(Fail::NotFound(..))) => "missing".into(),
        Obs::Tx(Err(f)) => format!("{f:?}"),
        Obs::Docs(v) => format!("{:?}", v.iter().map(|d| format!("{}r{}", d.0.last().copied().unwrap_or(0), d.1.id)).collect::<Vec<_>>()),
        Obs::Failed(e) => format!("failed {e}"),
    }
}

fn programs(thorough: bool) -> Vec<(Prog, usize)> {
    use P::*;
    let mut v = Vec::new();
    let d = if thorough { 3 } else { 2 };
    let a = [Push, Upd(1), Ovw(1), Del(1), Guarded, Swap, Ins(2), List];
    let mut add = |views: bool, with_doc: bool, threads: Vec<Vec<P>>, b: usize| v.push((Prog { views, with_doc, threads }, b));
    for (i, x) in a.iter().enumerate() {
        for y in &a[i..] {
            if (*x, *y) != (List, List) {
                add(false, true, vec![vec![*x], vec![*y]], d);
            }
        }
    }
    for (x, y) in [(Push, Push), (Ins(1), Ins(1)), (Ovw(1), Ovw(1)), (Ins(1), Ovw(1)), (Push, Ins(1)), (Ins(1), List)] {
        add(false, false, vec![vec![x], vec![y]], d);
    }
    for (x, y) in [(Push, Push), (Upd(1), Upd(1)), (Ovw(1), Del(1)), (Swap, List)] {
        add(true, true, vec![vec![x], vec![y]], d - 1);
    }
    for (with_doc, t) in [
        (true, vec![vec![Upd(1)], vec![Upd(1)], vec![Del(1)]]),
        (true, vec![vec![Push], vec![Push], vec![Push]]),
        (true, vec![vec![Swap], vec![Guarded], vec![List]]),
        (true, vec![vec![Upd(1), Get(1)], vec![Del(1), Ins(1)]]),
        (true, vec![vec![Ovw(1), List], vec![Ovw(1), List]]),
        (false, vec![vec![Push, Push], vec![Push, List]]),
    ] {
        add(false, with_doc, t, d - 1);
    }
    v
}

pub fn run() -> i32 {
    let mut r = Report::new("C02", "model_checking");
    let progs = programs(r.thorough());
    let total = r.pick(30.0, 3000.0);
    super::explore_all(&mut r, progs.into_iter().map(|(p, b)| (p.name(), p, b)).collect(), total, |p, e| body(p, e));
    r.assume("scheduling points are lock acquisitions, channel operations, waits and thread ends; atomics between them are not scheduled");
    r.finish()
}

pub fn replay(f: &Replay) -> i32 {
    for (p, _) in programs(true) {
        if p.name() == f.scenario {
            engine::run_one(&|e: &Env| body(&p, e), &f.dev, true).show();
            return 1;
        }
    }
    2
}
