//! C26: files are found, listed and counted where they were put, and nowhere
//! else.
use bonsaidb_core::key::time::TimestampAsNanoseconds as Ts;
use bonsaidb_files::direct::{Async, Blocking, File};
use bonsaidb_files::{Error, FileConfig, Statistics};
use bonsaidb_local::{AsyncDatabase, Database, Storage};
use serde_json::json;
use std::collections::BTreeMap;

use super::c25::{files, Small};
use crate::engine;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};
use crate::tour::{self, Graph};

type BFile = File<Blocking<Database>, Small>;
type AFile = File<Async<AsyncDatabase>, Small>;

/// Every file that can exist: containing path and name.
const FULL: &[(&str, &str)] = &[("/", "x"), ("/", "a"), ("/a/", "x"), ("/ab/", "x"), ("/a/c/", "y")];
const DIRS: &[&str] = &["/", "/a", "/a/", "/ab/", "/a/c", "/a/c/", "/x", "/b/"];

fn full(i: usize) -> String {
    format!("{}{}", FULL[i].0, FULL[i].1)
}
fn es<T: ToString>(e: T) -> String {
    e.to_string()
}
fn kind(e: &Error) -> &'static str {
    match e {
        Error::AlreadyExists => "exists",
        Error::InvalidName => "name",
        Error::InvalidPath => "path",
        Error::Deleted => "deleted",
        Error::Database(_) => "database",
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct F {
    /// 0: none, otherwise its contents
    tag: u8,
    meta: bool,
}
type S = Vec<F>;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum A {
    /// path, way of naming it, contents
    Create(usize, u8, u8),
    LoadOrCreate(usize, bool),
    Delete(usize),
    /// from, to, to its directory only
    Move(usize, usize, bool),
    Rename(usize, usize),
    Meta(usize),
    /// renamed through a handle that is out of date
    Stale(usize, usize),
    Invalid(u8),
}

pub struct Ns {
    is_async: bool,
    max: usize,
}
enum H {
    B(BFile),
    A(AFile),
}
pub struct Sys {
    _s: Storage,
    db: Database,
    rt: Option<tokio::runtime::Runtime>,
    adb: Option<AsyncDatabase>,
    /// what is known of each file of the model
    known: BTreeMap<usize, Known>,
}
#[derive(Clone)]
struct Known {
    id: u32,
    created: Ts,
    appended: Option<Ts>,
}

macro_rules! both {
    ($s:expr, $h:expr, $f:ident => $b:expr, $a:expr) => {
        match $h {
            H::B($f) => $b,
            H::A($f) => $s.rt.as_ref().unwrap().block_on($a),
        }
    };
}

impl Sys {
    fn load(&self, p: &str) -> Result<Option<H>, Error> {
        Ok(match (&self.rt, &self.adb) {
            (Some(rt), Some(adb)) => rt.block_on(Small::load_async(p, adb))?.map(H::A),
            _ => Small::load(p, &self.db)?.map(H::B),
        })
    }
    fn create(&self, i: usize, form: u8, c: &[u8]) -> Result<H, Error> {
        let (dir, name) = FULL[i];
        let b = match form {
            0 => Small::build(full(i)),
            1 => Small::build(full(i) + "/"),
            2 => Small::build(name).at_path(dir),
            _ => Small::build(name).at_path(dir.trim_end_matches('/')),
        };
        let b = b.contents(c);
        Ok(match (&self.rt, &self.adb) {
            (Some(rt), Some(adb)) => H::A(rt.block_on(b.create_async(adb))?),
            _ => H::B(b.create(&self.db)?),
        })
    }
    fn load_or_create(&self, p: &str, expect: bool) -> Result<H, Error> {
        Ok(match (&self.rt, &self.adb) {
            (Some(rt), Some(adb)) => H::A(rt.block_on(Small::load_or_create_async(p, expect, adb))?),
            _ => H::B(Small::load_or_create(p, expect, &self.db)?),
        })
    }
    fn delete(&self, p: &str) -> Result<bool, Error> {
        match (&self.rt, &self.adb) {
            (Some(rt), Some(adb)) => rt.block_on(Small::delete_async(p, adb)),
            _ => Small::delete(p, &self.db),
        }
    }
    fn list(&self, p: &str, recursive: bool) -> Result<Vec<H>, String> {
        Ok(match (&self.rt, &self.adb, recursive) {
            (Some(rt), Some(adb), false) => rt.block_on(Small::list_async(p, adb)).map_err(es)?.into_iter().map(H::A).collect(),
            (Some(rt), Some(adb), true) => rt.block_on(Small::list_recursive_async(p, adb)).map_err(es)?.into_iter().map(H::A).collect(),
            (_, _, false) => Small::list(p, &self.db).map_err(es)?.into_iter().map(H::B).collect(),
            (_, _, true) => Small::list_recursive(p, &self.db).map_err(es)?.into_iter().map(H::B).collect(),
        })
    }
    fn stats(&self, p: Option<&str>) -> Result<Statistics, String> {
        match (&self.rt, &self.adb, p) {
            (Some(rt), Some(adb), Some(p)) => rt.block_on(Small::stats_for_path_async(p, adb)),
            (Some(rt), Some(adb), None) => rt.block_on(Small::stats_async(adb)),
            (_, _, Some(p)) => Small::stats_for_path(p, &self.db),
            (_, _, None) => Small::stats(&self.db),
        }
        .map_err(es)
    }
    fn get(&self, id: u32) -> Result<Option<H>, String> {
        Ok(match (&self.rt, &self.adb) {
            (Some(rt), Some(adb)) => rt.block_on(Small::get_async(id, adb)).map_err(es)?.map(H::A),
            _ => Small::get(id, &self.db).map_err(es)?.map(H::B),
        })
    }
    /// `h` is the file that the model has at `i`.
    fn same(&self, h: &mut H, i: usize, f: F) -> Result<(), String> {
        let k = &self.known[&i];
        let (id, path, dir, name, created, meta) = match &h {
            H::B(h) => (h.id(), h.path(), h.containing_path().to_string(), h.name().to_string(), h.created_at(), *h.metadata()),
            H::A(h) => (h.id(), h.path(), h.containing_path().to_string(), h.name().to_string(), h.created_at(), *h.metadata()),
        };
        if id != k.id || path != full(i) || dir != FULL[i].0 || name != FULL[i].1 || created != k.created || meta != u32::from(f.meta) {
            return Err(format!("{} is reported as {id} (of {}) {path} {dir} {name}, metadata {meta}, created {created:?} ({:?})", full(i), k.id, k.created));
        }
        let c = both!(self, &*h, f => f.contents().map_err(es)?.to_vec().map_err(es), async { f.contents().await.map_err(es)?.into_vec().await.map_err(es) })?;
        if c != contents(f.tag) {
            return Err(format!("{path} holds {c:?}, not {:?}", contents(f.tag)));
        }
        Ok(())
    }
    fn paths(&self, v: &[H]) -> Vec<String> {
        let mut v: Vec<String> = v
            .iter()
            .map(|h| match h {
                H::B(h) => h.path(),
                H::A(h) => h.path(),
            })
            .collect();
        v.sort();
        v
    }
}
fn contents(tag: u8) -> Vec<u8> {
    match tag {
        1 => vec![1, 2, 3],
        2 => vec![9; 6],
        _ => vec![],
    }
}
fn slash(p: &str) -> String {
    if p.ends_with('/') { p.to_string() } else { format!("{p}/") }
}

impl Ns {
    fn count(&self, s: &S) -> usize {
        s.iter().filter(|f| f.tag > 0).count()
    }
}
impl Graph for Ns {
    type S = S;
    type A = A;
    type Sys = Sys;
    fn start(&self) -> S {
        vec![F { tag: 0, meta: false }; FULL.len()]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        let room = self.count(s) < self.max;
        for i in 0..FULL.len() {
            if room || s[i].tag > 0 {
                v.extend((0..4).map(|f| A::Create(i, f, 1 + f % 2)));
                v.extend([A::LoadOrCreate(i, true), A::LoadOrCreate(i, false)]);
            }
            v.push(A::Delete(i));
            if s[i].tag > 0 {
                v.push(A::Meta(i));
                for j in 0..FULL.len() {
                    v.push(A::Move(i, j, false));
                    if FULL[j].1 == FULL[i].1 {
                        v.push(A::Move(i, j, true));
                    }
                    if FULL[j].0 == FULL[i].0 {
                        v.extend([A::Rename(i, j), A::Stale(i, j)]);
                    }
                }
            }
        }
        v.extend((0..6).map(A::Invalid));
        v
    }
    fn next(&self, s: &S, a: &A) -> S {
        let mut t = s.clone();
        match *a {
            A::Create(i, _, tag) if t[i].tag == 0 => t[i] = F { tag, meta: false },
            A::LoadOrCreate(i, _) if t[i].tag == 0 => t[i] = F { tag: 3, meta: false },
            A::Delete(i) => t[i] = F { tag: 0, meta: false },
            A::Meta(i) | A::Stale(i, _) => t[i].meta = !t[i].meta,
            A::Move(i, j, _) | A::Rename(i, j) if t[j].tag == 0 => t.swap(i, j),
            _ => {}
        }
        t
    }
    fn fresh(&self) -> Result<Sys, String> {
        let (s, db) = files::<Small>();
        let rt = self.is_async.then(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
        let adb = rt.as_ref().map(|r| db.to_async_with_runtime(r.handle().clone()));
        Ok(Sys { _s: s, db, rt, adb, known: BTreeMap::new() })
    }
    fn exec(&self, y: &mut Sys, s: &S, a: &A, t: &S, acc: &mut Acc) -> Result<(), String> {
        let outcome = |r: Result<(), Error>| r.err().map_or("ok", |e| kind(&e));
        let expect = |want: &str, got: &str| if want == got { Ok(()) } else { Err(format!("gave {got:?}, expected {want:?}")) };
        match *a {
            A::Create(i, form, tag) => {
                let before = Ts::now();
                let r = y.create(i, form, &contents(tag));
                let after = Ts::now();
                if s[i].tag > 0 {
                    expect("exists", outcome(r.map(|_| ())))?;
                } else {
                    let h = r.map_err(|e| format!("creating: {e}"))?;
                    let (id, created, w) = match h {
                        H::B(mut h) => (h.id(), h.created_at(), h.last_appended_at().map_err(es)?),
                        H::A(mut h) => (h.id(), h.created_at(), y.rt.as_ref().unwrap().block_on(h.last_appended_at()).map_err(es)?),
                    };
                    if created < before || created > after || w.map_or(true, |w| w < created || w > after) {
                        return Err(format!("created at {created:?} and appended to at {w:?}, between {before:?} and {after:?}"));
                    }
                    y.known.insert(i, Known { id, created, appended: w });
                }
            }
            A::LoadOrCreate(i, e) => {
                let h = y.load_or_create(&full(i), e).map_err(|e| format!("load_or_create: {e}"))?;
                let (id, created) = match &h {
                    H::B(h) => (h.id(), h.created_at()),
                    H::A(h) => (h.id(), h.created_at()),
                };
                if s[i].tag == 0 {
                    y.known.insert(i, Known { id, created, appended: None });
                }
                let mut h = h;
                y.same(&mut h, i, t[i])?;
            }
            A::Delete(i) => {
                let r = y.delete(&full(i)).map_err(|e| format!("delete: {e}"))?;
                if r != (s[i].tag > 0) {
                    return Err(format!("delete returned {r}"));
                }
                y.known.remove(&i);
            }
            A::Meta(i) => {
                let mut h = y.load(&full(i)).map_err(es)?.ok_or("not found")?;
                let m = u32::from(t[i].meta);
                match &mut h {
                    H::B(h) => *h.metadata_mut() = m,
                    H::A(h) => *h.metadata_mut() = m,
                }
                both!(y, &mut h, f => f.update_metadata(), f.update_metadata()).map_err(es)?;
                y.same(&mut h, i, t[i])?;
            }
            A::Move(i, j, dir) => {
                let mut h = y.load(&full(i)).map_err(es)?.ok_or("not found")?;
                let to = if dir { FULL[j].0.to_string() } else { full(j) };
                let r = outcome(both!(y, &mut h, f => f.move_to(&to), f.move_to(&to)));
                self.moved(y, s, t, h, i, j, r)?;
            }
            A::Rename(i, j) => {
                let mut h = y.load(&full(i)).map_err(es)?.ok_or("not found")?;
                let to = FULL[j].1.to_string();
                let r = outcome(both!(y, &mut h, f => f.rename(to), f.rename(to)));
                self.moved(y, s, t, h, i, j, r)?;
            }
            A::Stale(i, j) => {
                let mut h = y.load(&full(i)).map_err(es)?.ok_or("not found")?;
                let mut old = y.load(&full(i)).map_err(es)?.ok_or("not found")?;
                let m = u32::from(t[i].meta);
                match &mut h {
                    H::B(h) => *h.metadata_mut() = m,
                    H::A(h) => *h.metadata_mut() = m,
                }
                both!(y, &mut h, f => f.update_metadata(), f.update_metadata()).map_err(es)?;
                let to = FULL[j].1.to_string();
                let r = outcome(both!(y, &mut old, f => f.rename(to), f.rename(to)));
                // the conflict with the other file may be noticed first
                if r == "ok" || (r != "database" && !(r == "exists" && j != i && s[j].tag > 0)) {
                    return Err(format!("renaming through an outdated handle: {r}"));
                }
            }
            A::Invalid(k) => {
                let r = match k {
                    0 => outcome(y.load("").map(|_| ())),
                    1 => outcome(match (&y.rt, &y.adb) {
                        (Some(rt), Some(adb)) => rt.block_on(Small::build("p/q").create_async(adb)).map(|_| ()),
                        _ => Small::build("p/q").create(&y.db).map(|_| ()),
                    }),
                    2 => outcome(match (&y.rt, &y.adb) {
                        (Some(rt), Some(adb)) => rt.block_on(Small::build("").create_async(adb)).map(|_| ()),
                        _ => Small::build("").create(&y.db).map(|_| ()),
                    }),
                    _ => {
                        let Some(i) = (0..FULL.len()).find(|i| s[*i].tag > 0) else { return Ok(()) };
                        let mut h = y.load(&full(i)).map_err(es)?.ok_or("not found")?;
                        match k {
                            3 => outcome(both!(y, &mut h, f => f.rename("p/q".into()), f.rename("p/q".into()))),
                            4 => outcome(both!(y, &mut h, f => f.rename(String::new()), f.rename(String::new()))),
                            _ => outcome(both!(y, &mut h, f => f.move_to("x"), f.move_to("x"))),
                        }
                    }
                };
                expect(if k == 0 || k == 5 { "path" } else { "name" }, r)?;
            }
        }
        self.check(y, t, acc)
    }
}
impl Ns {
    #[allow(clippy::too_many_arguments)]
    fn moved(&self, y: &mut Sys, s: &S, t: &S, mut h: H, i: usize, j: usize, r: &str) -> Result<(), String> {
        if i == j {
            if r != "ok" {
                return Err(format!("moving a file to where it is: {r}"));
            }
            return y.same(&mut h, i, t[i]);
        }
        if s[j].tag > 0 {
            if r != "exists" {
                return Err(format!("moving a file over another: {r}"));
            }
            return y.same(&mut h, i, t[i]);
        }
        if r != "ok" {
            return Err(format!("moving: {r}"));
        }
        let k = y.known.remove(&i).unwrap();
        y.known.insert(j, k);
        y.same(&mut h, j, t[j])
    }
    fn check(&self, y: &Sys, t: &S, acc: &mut Acc) -> Result<(), String> {
        for i in 0..FULL.len() {
            for p in [full(i), full(i) + "/"] {
                match (y.load(&p).map_err(es)?, t[i].tag > 0) {
                    (None, false) => {}
                    (Some(mut h), true) => y.same(&mut h, i, t[i])?,
                    (x, _) => return Err(format!("{p} found: {}", x.is_some())),
                }
            }
        }
        let matching = |f: &dyn Fn(&str) -> bool| -> Vec<usize> { (0..FULL.len()).filter(|i| t[*i].tag > 0 && f(FULL[*i].0)).collect() };
        let names = |v: &[usize]| {
            let mut v: Vec<String> = v.iter().map(|i| full(*i)).collect();
            v.sort();
            v
        };
        for d in DIRS {
            let want = names(&matching(&|p| p == slash(d)));
            let got = y.paths(&y.list(d, false)?);
            if got != want {
                return Err(format!("list({d:?}) gives {got:?}, not {want:?}"));
            }
            let m = matching(&|p| p.starts_with(d));
            let want = names(&m);
            let got = y.paths(&y.list(d, true)?);
            if got != want {
                return Err(format!("list_recursive({d:?}) gives {got:?}, not {want:?}"));
            }
            let st = y.stats(Some(d))?;
            let want = Statistics {
                total_bytes: m.iter().map(|i| contents(t[*i].tag).len() as u64).sum(),
                file_count: m.len(),
                last_appended_at: m.iter().filter_map(|i| y.known[i].appended).max(),
            };
            if st != want || (*d == "/" && y.stats(None)? != want) {
                return Err(format!("statistics of {d:?} are {st:?}, not {want:?}"));
            }
        }
        for i in 0..FULL.len() {
            if t[i].tag == 0 {
                continue;
            }
            let mut h = y.get(y.known[&i].id)?.ok_or("not found by its id")?;
            y.same(&mut h, i, t[i])?;
            let got = match &h {
                H::B(h) => y.paths(&h.children().map_err(es)?.into_iter().map(H::B).collect::<Vec<_>>()),
                H::A(h) => y.paths(&y.rt.as_ref().unwrap().block_on(h.children()).map_err(es)?.into_iter().map(H::A).collect::<Vec<_>>()),
            };
            let want = names(&matching(&|p| p == slash(&full(i))));
            if got != want {
                return Err(format!("children of {} are {got:?}, not {want:?}", full(i)));
            }
        }
        acc.outcome(t);
        Ok(())
    }
}

/// Unusual names: every pair of a directory and a name, every prefix asked for.
fn odd(a: &mut Acc) {
    let parts = ["a", "b", "ab", "a\u{1}", "\u{10ffff}", "a\u{10ffff}", "\u{d7ff}", "\u{ff}", "é", " ", ".", "..", "a.b"];
    let (_s, db) = files::<Small>();
    let mut all: Vec<(String, String)> = vec![];
    for p in parts {
        for d in [String::from("/"), format!("/{p}/"), format!("/a/{p}/"), format!("/{p}/a/")] {
            for n in parts {
                if all.contains(&(d.clone(), n.to_string())) {
                    continue;
                }
                let full = format!("{d}{n}");
                a.at(&format!("creating {full:?}"));
                match engine::no_panic(|| Small::build(&full).create(&db)) {
                    Ok(Ok(_)) => all.push((d.clone(), n.to_string())),
                    o => a.bad(format!("creating {full:?}: {:?}", o.map(|r| r.map(|_| ()))), json!({})),
                }
            }
        }
    }
    for (d, n) in &all {
        let full = format!("{d}{n}");
        a.at(&format!("loading {full:?}"));
        a.count("evaluations", 1);
        match engine::no_panic(|| Small::load(&full, &db)) {
            Ok(Ok(Some(f))) if f.path() == full && f.name() == n && f.containing_path() == d => {}
            o => a.bad(format!("loading {full:?} gives {:?}", o.map(|r| r.map(|f| f.map(|f| f.path())))), json!({})),
        }
    }
    let mut dirs: Vec<String> = all.iter().map(|f| f.0.clone()).collect();
    dirs.sort();
    dirs.dedup();
    let mut asked = dirs.clone();
    asked.extend(dirs.iter().map(|d| d.trim_end_matches('/').to_string()).filter(|d| !d.is_empty()));
    for d in &asked {
        a.at(&format!("listing {d:?}"));
        for recursive in [false, true] {
            a.count("evaluations", 1);
            let r = engine::no_panic(|| if recursive { Small::list_recursive(d, &db) } else { Small::list(d, &db) });
            let mut want: Vec<String> = all
                .iter()
                .filter(|f| if recursive { f.0.starts_with(d.as_str()) } else { f.0 == slash(d) })
                .map(|f| format!("{}{}", f.0, f.1))
                .collect();
            want.sort();
            let got = r.map(|r| {
                r.map(|v| {
                    let mut v: Vec<String> = v.iter().map(|f| f.path()).collect();
                    v.sort();
                    v
                })
                .map_err(es)
            });
            a.outcome(&got);
            if got != Ok(Ok(want.clone())) {
                a.bad(format!("listing {d:?} (recursive: {recursive}) gives {got:?}, not {want:?}"), json!({"path": d}));
            }
        }
    }
}

pub fn run() -> i32 {
    let mut r = Report::new("C26", "model_checking");
    let max = r.pick(2, 3);
    let mut jobs: Vec<(bool, u64)> = vec![];
    for p in 0..8 {
        jobs.push((false, p));
        jobs.push((true, p));
    }
    jobs.push((false, 99));
    seq::run(&mut r, Mode::Free, jobs, move |(is_async, p), a| {
        if *p == 99 {
            odd(a);
        } else {
            tour::cover(&Ns { is_async: *is_async, max }, *p, 8, a);
        }
    });
    r.set("bounds", json!({"paths": FULL.len(), "files_at_once": max}));
    r.assume("directories and names are listed in the check; paths with empty components are left out");
    r.finish()
}
