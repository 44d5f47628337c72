//! C25: a stored file is the bytes appended to it, however they were written
//! and however they are read.
use std::future::Future;
use std::io::{Read, Seek, SeekFrom, Write};

use bonsaidb_core::connection::{LowLevelConnection, StorageConnection};
use bonsaidb_core::key::time::TimestampAsNanoseconds as Ts;
use bonsaidb_core::schema::{CollectionName, Qualified};
use bonsaidb_files::direct::{Async, Blocking, Contents, File};
use bonsaidb_files::{FileConfig, FilesSchema, Truncate};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{AsyncDatabase, Database, Storage};
use serde_json::json;

use super::world;
use crate::engine::{self, par, Env, Replay};
use crate::os;
use crate::report::Report;
use crate::sched;
use crate::seq::{self, Acc, Mode};

/// Blocks of four bytes.
#[derive(Debug)]
pub struct Small;
impl FileConfig for Small {
    type Metadata = u32;
    const BLOCK_SIZE: usize = 4;
    fn files_name() -> CollectionName {
        CollectionName::new("mc", "files")
    }
    fn blocks_name() -> CollectionName {
        CollectionName::new("mc", "blocks")
    }
}
/// Blocks larger than the default write buffer.
#[derive(Debug)]
pub struct Large;
impl FileConfig for Large {
    type Metadata = u32;
    const BLOCK_SIZE: usize = 1_500_000;
    fn files_name() -> CollectionName {
        CollectionName::new("mc", "large-files")
    }
    fn blocks_name() -> CollectionName {
        CollectionName::new("mc", "large-blocks")
    }
}

pub fn files<C: FileConfig>() -> (Storage, Database) {
    let c = world::config(true).with_schema::<FilesSchema<C>>().unwrap();
    let s = world::open(c);
    let db = s.create_database::<FilesSchema<C>>("f", false).unwrap();
    (s, db)
}
type BFile = File<Blocking<Database>, Small>;
type AFile = File<Async<AsyncDatabase>, Small>;

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}

// ---------------------------------------------------------------- reading

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum R {
    Read(usize),
    Start(u64),
    End(i64),
    Cur(i64),
    Next,
    /// a copy's remaining bytes
    Rest,
    ToEnd,
    /// a read polled once and given up (async only)
    Cancel(usize),
}
fn read_ops(len: i64, is_async: bool) -> Vec<R> {
    let mut v: Vec<R> = [0, 1, 3, 4, 6, 100].into_iter().map(R::Read).collect();
    v.extend([0, 3, 4, 7, len as u64, len as u64 + 5].into_iter().map(R::Start));
    v.extend([0, -1, -5, -len, -len - 1, 3].into_iter().map(R::End));
    v.extend([0, 1, -1, 5, -len - 5].into_iter().map(R::Cur));
    v.extend([R::Next, R::Rest, R::ToEnd]);
    if is_async {
        v.extend([R::Cancel(1), R::Cancel(100)]);
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|o| seen.insert(*o));
    v
}
/// What was seen, for the shared oracle.
#[derive(Debug)]
enum Got {
    Bytes(Vec<u8>),
    End,
    At(u64),
    Err(String),
    Cancelled,
}

struct Reader<'a> {
    data: &'a [u8],
    pos: usize,
}
impl Reader<'_> {
    fn check(&mut self, o: R, g: Got) -> Result<(), String> {
        let left = &self.data[self.pos..];
        let fail = |w: &str, g: &Got| Err(format!("at {} of {}: {o:?} gave {g:?}, {w}", self.pos, self.data.len()));
        match (o, &g) {
            (R::Read(n) | R::Cancel(n), Got::Bytes(b)) => {
                if b.len() > n || (b.is_empty() && n > 0 && !left.is_empty()) {
                    return fail("a wrong number of bytes", &g);
                }
                if !left.starts_with(b) {
                    return fail(&format!("what follows is {left:?}"), &g);
                }
                self.pos += b.len();
            }
            (R::Cancel(_), Got::Cancelled) => {}
            (R::Rest, Got::Bytes(b)) => {
                if b != left {
                    return fail(&format!("what follows is {left:?}"), &g);
                }
            }
            (R::ToEnd, Got::Bytes(b)) => {
                if b != left {
                    return fail(&format!("what follows is {left:?}"), &g);
                }
                self.pos = self.data.len();
            }
            (R::Next, Got::Bytes(b)) => {
                if b.len() > Small::BLOCK_SIZE || !left.starts_with(b) {
                    return fail(&format!("what follows is {left:?}"), &g);
                }
                self.pos += b.len();
            }
            (R::Next, Got::End) => {
                if !left.is_empty() {
                    return fail(&format!("what follows is {left:?}"), &g);
                }
            }
            (R::Start(_) | R::End(_) | R::Cur(_), g) => {
                let len = self.data.len() as i64;
                let want = match o {
                    R::Start(s) => s as i64,
                    R::End(e) => len + e,
                    R::Cur(c) => self.pos as i64 + c,
                    _ => unreachable!(),
                };
                match g {
                    // no position before the start
                    Got::Err(_) if want < 0 => {}
                    Got::At(p) if want >= 0 && *p as i64 == want.min(len) => self.pos = *p as usize,
                    _ => return fail(&format!("the position asked for is {want}"), g),
                }
            }
            _ => return fail("unexpected", &g),
        }
        Ok(())
    }
}
fn pos_of(o: R) -> Option<SeekFrom> {
    match o {
        R::Start(s) => Some(SeekFrom::Start(s)),
        R::End(s) => Some(SeekFrom::End(s)),
        R::Cur(s) => Some(SeekFrom::Current(s)),
        _ => None,
    }
}
fn bytes(r: std::io::Result<Vec<u8>>) -> Got {
    match r {
        Ok(b) => Got::Bytes(b),
        Err(e) => Got::Err(e.to_string()),
    }
}
fn blocking_op(c: &mut Contents<Blocking<Database>, Small>, o: R) -> Got {
    match o {
        R::Read(n) => {
            let mut b = vec![0; n];
            bytes(c.read(&mut b).map(|k| b[..k].to_vec()))
        }
        R::Next => match c.next() {
            Some(r) => bytes(r),
            None => Got::End,
        },
        R::Rest => bytes(c.to_vec()),
        R::ToEnd => {
            let mut v = vec![];
            bytes(c.read_to_end(&mut v).map(|_| v))
        }
        R::Cancel(_) => Got::Cancelled,
        o => match c.seek(pos_of(o).unwrap()) {
            Ok(p) => Got::At(p),
            Err(e) => Got::Err(e.to_string()),
        },
    }
}
async fn async_op(c: &mut Contents<Async<AsyncDatabase>, Small>, o: R) -> Got {
    use futures::StreamExt;
    use tokio::io::{AsyncReadExt, AsyncSeekExt};
    match o {
        R::Read(n) => {
            let mut b = vec![0; n];
            bytes(AsyncReadExt::read(c, &mut b).await.map(|k| b[..k].to_vec()))
        }
        R::Cancel(n) => {
            let mut b = vec![0; n];
            let r = {
                let f = AsyncReadExt::read(c, &mut b);
                futures::pin_mut!(f);
                futures::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await
            };
            match r {
                std::task::Poll::Ready(r) => bytes(r.map(|k| b[..k].to_vec())),
                std::task::Poll::Pending => Got::Cancelled,
            }
        }
        R::Next => match StreamExt::next(c).await {
            Some(r) => bytes(r),
            None => Got::End,
        },
        R::Rest => bytes(c.to_vec().await),
        R::ToEnd => {
            let mut v = vec![];
            bytes(AsyncReadExt::read_to_end(c, &mut v).await.map(|_| v))
        }
        o => match AsyncSeekExt::seek(c, pos_of(o).unwrap()).await {
            Ok(p) => Got::At(p),
            Err(e) => Got::Err(e.to_string()),
        },
    }
}

/// All sequences of `depth` operations, split by the first.
fn each(ops: &[R], depth: usize, first: R, f: &mut dyn FnMut(&[R])) {
    let mut idx = vec![0usize; depth];
    loop {
        let mut s = vec![first];
        s.extend(idx[1..].iter().map(|i| ops[*i]));
        f(&s);
        let mut k = depth;
        loop {
            if k <= 1 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < ops.len() {
                break;
            }
            idx[k] = 0;
        }
    }
}

#[derive(Clone, Debug)]
enum Job {
    /// appended sizes (0 first: with another file's bytes in between), buffer size, depth, first op
    Read { shape: Vec<usize>, other: bool, buffer: usize, depth: usize, first: usize, is_async: bool },
    Write { depth: usize, first: usize, second: usize },
    WriteAsync { depth: usize, first: usize },
    Large(bool),
}

fn shape_of(db: &Database, shape: &[usize], other: bool) -> Result<(BFile, Vec<u8>), String> {
    let f = Small::build("a").create(db).map_err(es)?;
    let g = Small::build("b").create(db).map_err(es)?;
    let mut data = vec![];
    for n in shape {
        if other {
            g.append(&[200; 5]).map_err(es)?;
        }
        let b: Vec<u8> = (0..*n).map(|i| (data.len() + i + 1) as u8).collect();
        f.append(&b).map_err(es)?;
        data.extend(b);
    }
    Ok((f, data))
}

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

fn read_job(j: &Job, a: &mut Acc) {
    let Job::Read { shape, other, buffer, depth, first, is_async } = j else { unreachable!() };
    let (_s, db) = files::<Small>();
    let (f, data) = shape_of(&db, shape, *other).unwrap();
    let ops = read_ops(data.len() as i64, *is_async);
    if *first >= ops.len() {
        return;
    }
    let runtime = is_async.then(rt);
    let af: Option<AFile> = runtime.as_ref().map(|r| {
        r.block_on(async { Small::load_async("/a", &db.to_async()).await.unwrap().unwrap() })
    });
    let base = f.contents().unwrap();
    let abase = af.as_ref().map(|f| runtime.as_ref().unwrap().block_on(f.contents()).unwrap());
    each(&ops, *depth, ops[*first], &mut |s| {
        a.count("evaluations", 1);
        let what = if *is_async { "async " } else { "" };
        let case = || format!("{what}file of {shape:?} bytes, buffer {buffer}: {s:?}");
        a.at(&case());
        let mut m = Reader { data: &data, pos: 0 };
        let mut seen = vec![];
        let r = engine::no_panic(|| -> Result<(), String> {
            if let (Some(rt), Some(c)) = (&runtime, &abase) {
                let mut c = c.clone().with_buffer_size(*buffer);
                rt.block_on(async {
                    for o in s {
                        let g = async_op(&mut c, *o).await;
                        seen.push(format!("{g:?}"));
                        m.check(*o, g)?;
                    }
                    m.check(R::Rest, bytes(c.into_vec().await))
                })
            } else {
                let mut c = base.clone().with_buffer_size(*buffer);
                for o in s {
                    let g = blocking_op(&mut c, *o);
                    seen.push(format!("{g:?}"));
                    m.check(*o, g)?;
                }
                m.check(R::Rest, bytes(c.into_vec()))
            }
        });
        a.outcome(&(s, &seen));
        if let Ok(Err(e)) | Err(e) = r {
            a.bad(format!("{}: {e}", case()), json!({"operations": format!("{s:?}"), "shape": shape, "buffer": buffer}));
        }
    });
}

// ---------------------------------------------------------------- writing

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum W {
    /// file, bytes
    Append(usize, usize),
    /// a buffered writer of a capacity, writing 3 and then 6 bytes
    Buffered(usize, usize),
    /// file, wanted length, from the start
    Trunc(usize, u64, bool),
    Delete(usize),
    /// metadata changed through another handle, then deleted through the old one
    StaleDelete(usize),
}
fn write_ops() -> Vec<W> {
    let mut v = vec![];
    for n in [0, 1, 4, 6, 9] {
        v.push(W::Append(0, n));
    }
    v.extend([W::Append(1, 5), W::Buffered(0, 4), W::Buffered(0, 8), W::Buffered(0, 0), W::Buffered(1, 2)]);
    for n in [0, 1, 4, 7] {
        v.push(W::Trunc(0, n, true));
        v.push(W::Trunc(0, n, false));
    }
    v.extend([W::Trunc(1, 0, false), W::Delete(0), W::StaleDelete(0)]);
    v
}

#[derive(Clone, Default)]
struct Fm {
    data: Vec<u8>,
    /// when the bytes still there were appended
    when: Vec<Ts>,
}

/// After a truncation `now` has to be a part of `old` with these properties.
fn truncated(old: &Fm, now: &[u8], to: u64, start: bool) -> Result<Fm, String> {
    let to = to as usize;
    let part = if start { old.data.ends_with(now) } else { old.data.starts_with(now) };
    if !part {
        return Err(format!("truncating {:?} left {now:?}", old.data));
    }
    let ok = if old.data.len() <= to {
        now.len() == old.data.len()
    } else if to == 0 {
        now.is_empty()
    } else {
        now.len() >= to && now.len() < to + Small::BLOCK_SIZE
    };
    if !ok {
        return Err(format!("truncating {} bytes to {to} left {}", old.data.len(), now.len()));
    }
    let cut = old.data.len() - now.len();
    Ok(Fm {
        data: now.to_vec(),
        when: if start { old.when[cut..].to_vec() } else { old.when[..now.len()].to_vec() },
    })
}
fn fresh_bytes(n: &mut u8, k: usize) -> Vec<u8> {
    (0..k)
        .map(|_| {
            *n = n.wrapping_add(1);
            *n
        })
        .collect()
}
fn compare(f: &mut BFile, m: &Fm, controlled: bool) -> Result<(), String> {
    let (flen, fempty) = (f.len().map_err(es)?, f.is_empty().map_err(es)?);
    let c = f.contents().map_err(es)?;
    let got = c.to_vec().map_err(es)?;
    if got != m.data {
        return Err(format!("{} holds {got:?}, should be {:?}", f.name(), m.data));
    }
    if c.len() != m.data.len() as u64 || flen != c.len() {
        return Err(format!("{} has {} bytes, its length is {} and {}", f.name(), m.data.len(), c.len(), flen));
    }
    if c.is_empty() != m.data.is_empty() || fempty != m.data.is_empty() {
        return Err(format!("{} has {} bytes, is_empty() gives {} and {}", f.name(), m.data.len(), c.is_empty(), fempty));
    }
    let (w1, w2) = (c.last_appended_at(), f.last_appended_at().map_err(es)?);
    let want = m.when.iter().max().copied();
    if w1 != w2 || w1.is_some() != want.is_some() || (controlled && w1 != want) {
        return Err(format!("{} was appended to at {want:?}, reports {w1:?} and {w2:?}", f.name()));
    }
    for b in c {
        let b = b.map_err(es)?;
        if b.is_empty() || b.len() > Small::BLOCK_SIZE {
            return Err(format!("{} has a block of {} bytes", f.name(), b.len()));
        }
    }
    Ok(())
}

struct Pair {
    db: Database,
    f: Vec<BFile>,
    m: Vec<Fm>,
    n: u8,
    meta: u32,
}
impl Pair {
    fn create(&mut self, i: usize) -> Result<(), String> {
        let name = ["a", "b"][i];
        let b = fresh_bytes(&mut self.n, 2);
        let f = Small::build(name).contents(&b).create(&self.db).map_err(es)?;
        self.m[i] = Fm { when: vec![Ts::now(); 2], data: b };
        if i < self.f.len() {
            self.f[i] = f;
        } else {
            self.f.push(f);
        }
        Ok(())
    }
    fn wrote(&mut self, i: usize, b: Vec<u8>) {
        self.m[i].when.extend(std::iter::repeat(Ts::now()).take(b.len()));
        self.m[i].data.extend(b);
    }
    fn perform(&mut self, o: W) -> Result<(), String> {
        match o {
            W::Append(i, k) => {
                let b = fresh_bytes(&mut self.n, k);
                self.f[i].append(&b).map_err(es)?;
                self.wrote(i, b);
            }
            W::Buffered(i, cap) => {
                let (x, y) = (fresh_bytes(&mut self.n, 3), fresh_bytes(&mut self.n, 6));
                {
                    let mut w = self.f[i].append_buffered();
                    if cap > 0 {
                        w.set_buffer_size(cap).map_err(es)?;
                    }
                    w.write_all(&x).map_err(es)?;
                    if cap == 8 {
                        w.flush().map_err(es)?;
                    }
                    w.write_all(&y).map_err(es)?;
                }
                self.wrote(i, [x, y].concat());
            }
            W::Trunc(i, to, start) => {
                let from = if start { Truncate::RemovingStart } else { Truncate::RemovingEnd };
                self.f[i].truncate(to, from).map_err(es)?;
                let now = self.f[i].contents().map_err(es)?.into_vec().map_err(es)?;
                self.m[i] = truncated(&self.m[i], &now, to, start)?;
            }
            W::Delete(i) => {
                self.f[i].delete().map_err(es)?;
                let old = self.f[i].clone();
                if old.append(&[1]).is_ok() {
                    return Err("appended to a deleted file".into());
                }
                if !old.contents().map_err(es)?.into_vec().map_err(es)?.is_empty() {
                    return Err("a deleted file has contents".into());
                }
                self.create(i)?;
                if old.delete().is_ok() {
                    return Err("deleted a file twice".into());
                }
            }
            W::StaleDelete(i) => {
                let old = self.f[i].clone();
                self.meta += 1;
                *self.f[i].metadata_mut() = self.meta;
                self.f[i].update_metadata().map_err(es)?;
                if old.delete().is_ok() {
                    return Err("deleted a file through an outdated handle".into());
                }
            }
        }
        Ok(())
    }
    fn check(&mut self, controlled: bool) -> Result<(), String> {
        for i in 0..2 {
            compare(&mut self.f[i], &self.m[i], controlled)?;
        }
        Ok(())
    }
}

fn write_job(depth: usize, first: usize, second: usize, a: &mut Acc) {
    let ops = write_ops();
    let mut idx = vec![0usize; depth];
    idx[0] = first;
    idx[1] = second;
    let (_s, db) = files::<Small>();
    loop {
        let s: Vec<W> = idx.iter().map(|i| ops[*i]).collect();
        a.at(&format!("{s:?}"));
        a.count("evaluations", 1);
        let mut p = Pair { db: db.clone(), f: vec![], m: vec![Fm::default(), Fm::default()], n: 0, meta: 0 };
        let mut done = 0;
        let r = engine::no_panic(|| -> Result<(), String> {
            p.create(0)?;
            p.create(1)?;
            for o in &s {
                os::advance(1000);
                done += 1;
                p.perform(*o)?;
                p.check(true)?;
            }
            Ok(())
        });
        a.outcome(&(&s, &p.m[0].data, &p.m[1].data));
        let bad = matches!(r, Ok(Err(_)) | Err(_));
        if let Ok(Err(e)) | Err(e) = r {
            a.bad(format!("{:?}: {e}", &s[..done]), json!({"operations": format!("{s:?}")}));
        }
        for f in &p.f {
            if let Err(e) = f.delete() {
                if !bad {
                    a.bad(format!("{s:?}, then delete: {e}"), json!({"operations": format!("{s:?}")}));
                }
            }
        }
        if bad {
            return;
        }
        let mut k = depth;
        loop {
            if k <= 2 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < ops.len() {
                break;
            }
            idx[k] = 0;
        }
    }
}

/// The same through the asynchronous handles.
fn write_async_job(depth: usize, first: usize, a: &mut Acc) {
    use tokio::io::AsyncWriteExt;
    let ops: Vec<W> = write_ops().into_iter().filter(|o| !matches!(o, W::Append(0, 0 | 6) | W::Trunc(0, 1, _))).collect();
    if first >= ops.len() {
        return;
    }
    let mut idx = vec![0usize; depth];
    idx[0] = first;
    let (_s, db) = files::<Small>();
    let rt = rt();
    loop {
        let s: Vec<W> = idx.iter().map(|i| ops[*i]).collect();
        a.at(&format!("async {s:?}"));
        a.count("evaluations", 1);
        let mut done = 0;
        let mut last = vec![];
        let r = engine::no_panic(|| -> Result<(), String> {
            rt.block_on(async {
                let adb = db.to_async();
                let mut n = 0u8;
                let mut meta = 0;
                let mut f: Vec<AFile> = vec![];
                let mut m: Vec<Fm> = vec![];
                let make = |i: usize, n: &mut u8| {
                    let b = fresh_bytes(n, 2);
                    let adb = adb.clone();
                    async move {
                        let f = Small::build(["a", "b"][i]).contents(&b).create_async(&adb).await.map_err(es)?;
                        Ok::<_, String>((f, Fm { when: vec![Ts::now(); 2], data: b }))
                    }
                };
                for i in 0..2 {
                    let (x, y) = make(i, &mut n).await?;
                    f.push(x);
                    m.push(y);
                }
                for o in &s {
                    done += 1;
                    match *o {
                        W::Append(i, k) => {
                            let b = fresh_bytes(&mut n, k);
                            f[i].append(&b).await.map_err(es)?;
                            m[i].data.extend(b);
                        }
                        W::Buffered(i, cap) => {
                            let (x, y) = (fresh_bytes(&mut n, 3), fresh_bytes(&mut n, 6));
                            let mut w = f[i].append_buffered();
                            if cap > 0 {
                                w.set_buffer_size(cap).await.map_err(es)?;
                            }
                            w.write_all(&x).await.map_err(es)?;
                            if cap == 8 {
                                w.flush().await.map_err(es)?;
                            }
                            w.write_all(&y).await.map_err(es)?;
                            if cap == 2 {
                                w.shutdown().await.map_err(es)?;
                            } else {
                                w.flush().await.map_err(es)?;
                            }
                            drop(w);
                            m[i].data.extend([x, y].concat());
                        }
                        W::Trunc(i, to, start) => {
                            let from = if start { Truncate::RemovingStart } else { Truncate::RemovingEnd };
                            f[i].truncate(to, from).await.map_err(es)?;
                            let now = f[i].contents().await.map_err(es)?.into_vec().await.map_err(es)?;
                            m[i].when = vec![Ts::now(); m[i].data.len()];
                            m[i] = truncated(&m[i], &now, to, start)?;
                        }
                        W::Delete(i) => {
                            f[i].delete().await.map_err(es)?;
                            let old = f[i].clone();
                            if old.append(&[1]).await.is_ok() {
                                return Err("appended to a deleted file".into());
                            }
                            let (x, y) = make(i, &mut n).await?;
                            f[i] = x;
                            m[i] = y;
                            if old.delete().await.is_ok() {
                                return Err("deleted a file twice".into());
                            }
                        }
                        W::StaleDelete(i) => {
                            let old = f[i].clone();
                            meta += 1;
                            *f[i].metadata_mut() = meta;
                            f[i].update_metadata().await.map_err(es)?;
                            if old.delete().await.is_ok() {
                                return Err("deleted a file through an outdated handle".into());
                            }
                        }
                    }
                    for i in 0..2 {
                        let c = f[i].contents().await.map_err(es)?;
                        let got = c.to_vec().await.map_err(es)?;
                        if got != m[i].data {
                            return Err(format!("{} holds {got:?}, should be {:?}", f[i].name(), m[i].data));
                        }
                        let (l, e, w) = (
                            f[i].len().await.map_err(es)?,
                            f[i].is_empty().await.map_err(es)?,
                            f[i].last_appended_at().await.map_err(es)?,
                        );
                        if l != got.len() as u64 || c.len() != l || e != got.is_empty() || c.is_empty() != e || w.is_some() == e || w != c.last_appended_at() {
                            return Err(format!("{} has {} bytes, reports {l}, {}, {e}, {}", f[i].name(), got.len(), c.len(), c.is_empty()));
                        }
                    }
                }
                last = m.iter().map(|m| m.data.clone()).collect();
                for f in &f {
                    f.delete().await.map_err(es)?;
                }
                Ok(())
            })
        });
        a.outcome(&("async", &s, &last));
        if let Ok(Err(e)) | Err(e) = r {
            a.bad(format!("async {:?}: {e}", &s[..done]), json!({"operations": format!("{s:?}")}));
            return;
        }
        let mut k = depth;
        loop {
            if k <= 1 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < ops.len() {
                break;
            }
            idx[k] = 0;
        }
    }
}

/// Blocks larger than the writer's buffer.
fn large_job(is_async: bool, a: &mut Acc) {
    use tokio::io::AsyncWriteExt;
    let (_s, db) = files::<Large>();
    for n in [1usize, 1_499_999, 1_500_001, 3_000_000] {
        a.at(&format!("file with large blocks, {n} bytes, async {is_async}"));
        a.count("evaluations", 1);
        let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let r = engine::no_panic(|| -> Result<(), String> {
            let mut f = Large::build("l").create(&db).map_err(es)?;
            if is_async {
                rt().block_on(async {
                    let mut f = Large::load_async("/l", &db.to_async()).await.map_err(es)?.ok_or("no file")?;
                    let mut w = f.append_buffered();
                    w.write_all(&data).await.map_err(es)?;
                    w.flush().await.map_err(es)
                })?;
            } else {
                let mut w = f.append_buffered();
                w.write_all(&data).map_err(es)?;
                w.flush().map_err(es)?;
            }
            let ok = f.contents().map_err(es)?.into_vec().map_err(es)? == data && f.len().map_err(es)? == n as u64;
            f.delete().map_err(es)?;
            if ok { Ok(()) } else { Err("the contents differ".into()) }
        });
        a.outcome(&n);
        if let Ok(Err(e)) | Err(e) = r {
            a.bad(format!("{n} bytes written to a file with large blocks (async: {is_async}): {e}"), json!({"bytes": n}));
            return;
        }
    }
}

// ---------------------------------------------------------------- schedules

#[derive(Clone, Copy, Debug)]
enum T {
    /// appends this value `size` times
    Append(u8),
    TruncAll,
    Delete,
    /// reads everything twice
    Read,
}
/// How many bytes of a value are appended.
fn size(v: u8) -> usize {
    match v {
        1 => 5,
        2..=9 => 9,
        10..=19 => 70,
        _ => 301,
    }
}
struct Sc {
    threads: Vec<T>,
}
fn conc(p: &Sc, _e: &Env) -> Result<String, String> {
    sched::region(false);
    let (s, db) = files::<Small>();
    let f = Small::build("a").contents(&[1, 1, 1, 1, 1]).create(&db).map_err(es)?;
    let _ = f.contents().map_err(es)?;
    sched::region(true);
    let mut jobs: Vec<Box<dyn FnOnce() -> Result<String, String> + Send>> = vec![];
    for t in &p.threads {
        let (t, f) = (*t, f.clone());
        jobs.push(Box::new(move || match t {
            T::Append(v) => Ok(format!("{}", f.append(&vec![v; size(v)]).is_ok())),
            T::TruncAll => f.truncate(0, Truncate::RemovingEnd).map(|()| String::new()).map_err(es),
            T::Delete => f.delete().map(|()| String::new()).map_err(es),
            T::Read => {
                let mut out = String::new();
                for _ in 0..2 {
                    let c = f.contents().map_err(es)?;
                    let len = c.len() as usize;
                    let v = c.into_vec();
                    match v {
                        Ok(v) => {
                            runs(&v)?;
                            out += &format!("{};", v.len());
                        }
                        Err(e) => out += &format!("{len} {e};"),
                    }
                }
                Ok(out)
            }
        }));
    }
    let rs = par(jobs);
    sched::region(false);
    let deleted = p.threads.iter().any(|t| matches!(t, T::Delete));
    let end = if deleted {
        if Small::load("/a", &db).map_err(es)?.is_some() {
            return Err("the deleted file is found".into());
        }
        let left = db
            .list_from_collection(bonsaidb_core::connection::Range::from(..), bonsaidb_core::connection::Sort::Ascending, None, &Small::blocks_name())
            .map_err(es)?;
        if !left.is_empty() {
            return Err("what was appended to a deleted file stays in the database".into());
        }
        let g = Small::build("z").create(&db).map_err(es)?;
        let v = g.contents().map_err(es)?.into_vec().map_err(es)?;
        if !v.is_empty() {
            return Err("a new file starts with what was appended to a deleted one".into());
        }
        v
    } else {
        let v = f.contents().map_err(es)?.into_vec().map_err(es)?;
        runs(&v)?;
        for t in &p.threads {
            if let T::Append(x) = t {
                let n = v.iter().filter(|b| *b == x).count();
                let trunc = p.threads.iter().any(|t| matches!(t, T::TruncAll));
                if n != size(*x) && !(trunc && n == 0) {
                    return Err(format!("{n} bytes of an appended value remain"));
                }
            }
        }
        v
    };
    let mut out = vec![];
    for r in rs {
        out.push(r?);
    }
    drop(s);
    Ok(format!("{out:?} {}", end.len()))
}
/// One append's bytes are all there and together.
fn runs(v: &[u8]) -> Result<(), String> {
    let mut seen = vec![];
    let mut i = 0;
    while i < v.len() {
        let n = v[i..].iter().take_while(|b| **b == v[i]).count();
        if seen.contains(&v[i]) || n != size(v[i]) {
            return Err(format!("part of an append is visible: {v:?}"));
        }
        seen.push(v[i]);
        i += n;
    }
    Ok(())
}
fn programs(thorough: bool) -> Vec<(String, Sc, usize)> {
    let b = if thorough { 4 } else { 2 };
    [
        ("append, append, read", vec![T::Append(2), T::Append(3), T::Read]),
        ("append, truncate", vec![T::Append(2), T::TruncAll]),
        ("delete, append", vec![T::Delete, T::Append(2)]),
        ("long appends", vec![T::Append(20), T::Append(21)]),
        ("appends of some length, read", vec![T::Append(10), T::Append(11), T::Read]),
        ("delete, long append", vec![T::Delete, T::Append(10)]),
        ("truncate, long append", vec![T::TruncAll, T::Append(10)]),
    ]
    .into_iter()
    .map(|(n, threads)| (n.to_string(), Sc { threads }, if n.contains("long appends") { b - 1 } else { b }))
    .collect()
}

pub fn run() -> i32 {
    let mut r = Report::new("C25", "model_checking");
    let big = r.thorough();
    let mut jobs = vec![];
    for is_async in [false, true] {
        let shapes: &[(&[usize], bool)] =
            &[(&[], false), (&[3], false), (&[4, 4], true), (&[9], false), (&[1, 4, 7], true), (&[6, 0, 2, 5], false)];
        for (shape, other) in shapes {
            for buffer in [0usize, 5, 8, 1000] {
                let (depth, skip) = match (is_async, big) {
                    (false, false) => (3, false),
                    (false, true) => (4, false),
                    (true, false) => (2, false),
                    (true, true) => (3, false),
                };
                if skip {
                    continue;
                }
                for first in 0..32 {
                    jobs.push(Job::Read { shape: shape.to_vec(), other: *other, buffer, depth, first, is_async });
                }
            }
        }
    }
    for first in 0..write_ops().len() {
        jobs.push(Job::WriteAsync { depth: r.pick(2, 3), first });
    }
    jobs.extend([Job::Large(false), Job::Large(true)]);
    seq::run(&mut r, Mode::Free, jobs, |j, a| match j {
        Job::Read { .. } => read_job(j, a),
        Job::WriteAsync { depth, first } => write_async_job(*depth, *first, a),
        Job::Large(b) => large_job(*b, a),
        Job::Write { .. } => unreachable!(),
    });
    let mut jobs = vec![];
    for first in 0..write_ops().len() {
        for second in 0..write_ops().len() {
            jobs.push(Job::Write { depth: r.pick(3, 4), first, second });
        }
    }
    seq::run(&mut r, Mode::Controlled, jobs, |j, a| {
        if let Job::Write { depth, first, second } = j {
            write_job(*depth, *first, *second, a);
        }
    });
    let total = r.pick(12.0, 900.0);
    super::explore_all(&mut r, programs(big), total, conc);
    r.assume("blocks of 4 bytes stand for blocks of any size");
    r.finish()
}
pub fn replay(f: &Replay) -> i32 {
    for (n, p, _) in programs(true) {
        if n == f.scenario {
            engine::run_one(&|e: &Env| conc(&p, e), &f.dev, true).show();
            return 1;
        }
    }
    2
}
