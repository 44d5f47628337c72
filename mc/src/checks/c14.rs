//! C14: what a collection is asked for is what it returns, whichever way it is
//! asked.
use std::collections::HashSet;

use bonsaidb_core::connection::{Bound, Connection, LowLevelConnection, Range, Sort};
use bonsaidb_core::document::{CollectionDocument, DocumentId, HasHeader, Header, OwnedDocument};
use bonsaidb_core::key::{Key, KeyEncoding};
use bonsaidb_core::schema::SerializedCollection;
use bonsaidb_local::{Database, Storage};
use serde_json::json;

use super::world::{self, Plain, Simple};
use crate::engine;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};
use crate::tour::{self, Graph};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}

/// A collection of numbered documents under some kind of key.
pub trait Kind: serde::de::DeserializeOwned + SerializedCollection<Contents = Self> + Clone + PartialEq + 'static {
    type K: for<'k> Key<'k> + KeyEncoding<Self::PrimaryKey> + Ord + Clone + std::fmt::Debug + PartialEq + Send + Sync;
    fn keys() -> Vec<Self::K>;
    /// Bounds to ask for besides the keys.
    fn between() -> Vec<Self::K>;
    fn make(v: u32) -> Self;
    fn v(&self) -> u32;
    fn prefixes() -> Vec<Self::K> {
        vec![]
    }
    fn has_prefix(_k: &Self::K, _p: &Self::K) -> bool {
        false
    }
    fn typed(db: &Database, k: &Self::K) -> Result<Option<CollectionDocument<Self>>, String>;
    fn typed_range(db: &Database, r: Range<Self::K>, sort: Sort, limit: Option<u32>) -> Result<(Vec<CollectionDocument<Self>>, Vec<Header>, u64), String>;
    fn typed_prefix(db: &Database, p: &Self::K, sort: Sort, limit: Option<u32>) -> Result<(Vec<CollectionDocument<Self>>, Vec<Header>, u64), String>;
    fn many(db: &Database, ks: &[Self::K]) -> Result<(Vec<OwnedDocument>, Vec<CollectionDocument<Self>>), String>;
    fn key_of(id: &DocumentId) -> Self::K {
        id.deserialize::<Self::K>().unwrap()
    }
    fn id(k: &Self::K) -> DocumentId {
        DocumentId::try_from(&<Self::K as KeyEncoding<Self::K>>::as_ord_bytes(k).unwrap()[..]).unwrap()
    }
}

macro_rules! typed {
    ($k:ty) => {
        fn make(v: u32) -> Self {
            Self { v }
        }
        fn v(&self) -> u32 {
            self.v
        }
        fn typed(db: &Database, k: &Self::K) -> Result<Option<CollectionDocument<Self>>, String> {
            Self::get(k, db).map_err(es)
        }
        fn typed_range(db: &Database, r: Range<Self::K>, sort: Sort, limit: Option<u32>) -> Result<(Vec<CollectionDocument<Self>>, Vec<Header>, u64), String> {
            macro_rules! q {
                () => {{
                    let mut l = Self::list(bonsaidb_core::connection::RangeRef::<$k, $k>::owned(r.clone()), db);
                    if matches!(sort, Sort::Descending) {
                        l = l.descending();
                    }
                    if let Some(n) = limit {
                        l = l.limit(n);
                    }
                    l
                }};
            }
            Ok((q!().query().map_err(es)?, q!().headers().map_err(es)?, q!().count().map_err(es)?))
        }
        fn many(db: &Database, ks: &[Self::K]) -> Result<(Vec<OwnedDocument>, Vec<CollectionDocument<Self>>), String> {
            Ok((
                db.collection::<Self>().get_multiple(ks).map_err(es)?,
                Self::get_multiple(ks, db).map_err(es)?,
            ))
        }
    };
}
impl Kind for Simple {
    type K = u64;
    fn keys() -> Vec<u64> {
        vec![0, 1, 255, 256, 70_000]
    }
    fn between() -> Vec<u64> {
        vec![2, 128, u64::MAX]
    }
    typed!(u64);
    fn typed_prefix(_: &Database, _: &u64, _: Sort, _: Option<u32>) -> Result<(Vec<CollectionDocument<Self>>, Vec<Header>, u64), String> {
        unreachable!()
    }
}
impl Kind for Plain {
    type K = String;
    fn keys() -> Vec<String> {
        ["", "a", "a\0", "ab", "b", "\u{10ffff}x"].map(String::from).to_vec()
    }
    fn between() -> Vec<String> {
        ["aa", "\u{10ffff}"].map(String::from).to_vec()
    }
    typed!(String);
    fn prefixes() -> Vec<String> {
        ["", "a", "ab", "b", "c", "\u{10ffff}"].map(String::from).to_vec()
    }
    fn has_prefix(k: &String, p: &String) -> bool {
        k.starts_with(p.as_str())
    }
    fn typed_prefix(db: &Database, p: &String, sort: Sort, limit: Option<u32>) -> Result<(Vec<CollectionDocument<Self>>, Vec<Header>, u64), String> {
        macro_rules! q {
            () => {{
                let mut l = Self::list_with_prefix(p, db);
                if matches!(sort, Sort::Descending) {
                    l = l.descending();
                }
                if let Some(n) = limit {
                    l = l.limit(n);
                }
                l
            }};
        }
        Ok((q!().query().map_err(es)?, q!().headers().map_err(es)?, q!().count().map_err(es)?))
    }
}

/// Present documents: key, value and header.
type Doc<K> = (K, u32, Header);

fn same<C: Kind>(what: &str, want: &[&Doc<C::K>], got: Vec<(DocumentId, Option<u32>, Header)>) -> Result<(), String> {
    let ok = got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| g.0 == C::id(&w.0) && g.1.map_or(true, |v| v == w.1) && g.2 == w.2);
    if ok {
        return Ok(());
    }
    Err(format!(
        "{what} gives {:?}, not {:?}",
        got.iter().map(|g| (C::key_of(&g.0), g.1)).collect::<Vec<_>>(),
        want.iter().map(|w| (&w.0, w.1)).collect::<Vec<_>>()
    ))
}
fn raw<C: Kind>(d: &OwnedDocument) -> (DocumentId, Option<u32>, Header) {
    let v: C = ::pot::from_slice(&d.contents).unwrap();
    (d.header.id.clone(), Some(v.v()), d.header.clone())
}
fn typed<C: Kind>(d: &CollectionDocument<C>) -> (DocumentId, Option<u32>, Header) {
    let h = d.header().unwrap();
    (h.id.clone(), Some(d.contents.v()), h)
}
fn header(h: &Header) -> (DocumentId, Option<u32>, Header) {
    (h.id.clone(), None, h.clone())
}

/// Asks for everything in every way and compares with `docs` (in key order).
pub fn verify<C: Kind>(db: &Database, docs: &[Doc<C::K>], bounds: &[C::K], limits: &[Option<u32>], acc: &mut Acc) -> Result<(), String> {
    let name = C::collection_name();
    let mut ranges: Vec<(Bound<C::K>, Bound<C::K>)> = vec![];
    let mut ends = vec![Bound::Unbounded];
    for b in bounds {
        ends.push(Bound::Included(b.clone()));
        ends.push(Bound::Excluded(b.clone()));
    }
    let mut sorted = bounds.to_vec();
    sorted.sort();
    let at = |k: &C::K| sorted.iter().position(|s| s == k).unwrap();
    for s in &ends {
        for e in &ends {
            // of the reversed ranges, only those of neighbours
            if let (Bound::Included(s) | Bound::Excluded(s), Bound::Included(e) | Bound::Excluded(e)) = (s, e) {
                if at(s) > at(e) + 1 {
                    continue;
                }
            }
            ranges.push((s.clone(), e.clone()));
        }
    }
    for (s, e) in ranges {
        let within: Vec<&Doc<C::K>> = docs
            .iter()
            .filter(|d| match &s {
                Bound::Unbounded => true,
                Bound::Included(s) => &d.0 >= s,
                Bound::Excluded(s) => &d.0 > s,
            })
            .filter(|d| match &e {
                Bound::Unbounded => true,
                Bound::Included(e) => &d.0 <= e,
                Bound::Excluded(e) => &d.0 < e,
            })
            .collect();
        let range = Range { start: s, end: e };
        ask::<C>(db, &range, None, &within, limits, acc)?;
        let ids = range.clone().map(|k| C::id(&k));
        let n = db.count_from_collection(ids, &name).map_err(es)?;
        if n != within.len() as u64 {
            return Err(format!("count({range:?}) gives {n}, not {}", within.len()));
        }
    }
    for p in C::prefixes() {
        let within: Vec<&Doc<C::K>> = docs.iter().filter(|d| C::has_prefix(&d.0, &p)).collect();
        ask::<C>(db, &Range::from(..), Some(&p), &within, limits, acc)?;
    }
    Ok(())
}
fn ask<C: Kind>(db: &Database, range: &Range<C::K>, prefix: Option<&C::K>, within: &[&Doc<C::K>], limits: &[Option<u32>], acc: &mut Acc) -> Result<(), String> {
    let name = C::collection_name();
    for sort in [Sort::Ascending, Sort::Descending] {
        for limit in limits {
            let mut want = within.to_vec();
            if matches!(sort, Sort::Descending) {
                want.reverse();
            }
            want.truncate(limit.map_or(usize::MAX, |l| l as usize));
            let what = |w: &str| format!("{w}({}, {sort:?}, {limit:?})", prefix.map_or_else(|| format!("{range:?}"), |p| format!("prefix {p:?}")));
            let (docs, headers, count) = match prefix {
                Some(p) => C::typed_prefix(db, p, sort, *limit),
                None => C::typed_range(db, range.clone(), sort, *limit),
            }
            .map_err(|e| format!("{}: {e}", what("list")))?;
            acc.count("queries", 3);
            same::<C>(&what("list"), &want, docs.iter().map(typed).collect())?;
            same::<C>(&what("headers"), &want, headers.iter().map(header).collect())?;
            // sort and limit do not matter to count
            if count != within.len() as u64 && count != want.len() as u64 {
                return Err(format!("{} gives {count}, not {}", what("count"), want.len()));
            }
            if prefix.is_none() {
                let ids = range.clone().map(|k| C::id(&k));
                let got = db.list_from_collection(ids.clone(), sort, *limit, &name).map_err(es)?;
                same::<C>(&what("list_from_collection"), &want, got.iter().map(raw::<C>).collect())?;
                let got = db.list_headers_from_collection(ids, sort, *limit, &name).map_err(es)?;
                same::<C>(&what("list_headers_from_collection"), &want, got.iter().map(header).collect())?;
                acc.count("queries", 2);
            }
        }
    }
    Ok(())
}

pub struct Tour<C> {
    compact: bool,
    _c: std::marker::PhantomData<C>,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum A {
    Insert(usize),
    Update(usize),
    Delete(usize),
    Compact,
}
pub struct Sys<C: Kind> {
    _s: Storage,
    db: Database,
    docs: Vec<Option<Doc<C::K>>>,
    next: u32,
    seen: HashSet<(u32, bool)>,
}
impl<C: Kind> Graph for Tour<C> {
    type S = (u32, bool);
    type A = A;
    type Sys = Sys<C>;
    fn start(&self) -> Self::S {
        (0, false)
    }
    fn actions(&self, s: &Self::S) -> Vec<A> {
        let mut v = vec![];
        for i in 0..C::keys().len() {
            if s.0 & 1 << i == 0 {
                v.push(A::Insert(i));
            } else {
                v.extend([A::Update(i), A::Delete(i)]);
            }
        }
        if self.compact && !s.1 {
            v.push(A::Compact);
        }
        v
    }
    fn next(&self, s: &Self::S, a: &A) -> Self::S {
        match *a {
            A::Insert(i) | A::Delete(i) => (s.0 ^ 1 << i, false),
            A::Update(_) => (s.0, false),
            A::Compact => (s.0, true),
        }
    }
    fn fresh(&self) -> Result<Sys<C>, String> {
        let (s, db) = world::world(true);
        let n = C::keys().len();
        Ok(Sys { _s: s, db, docs: vec![None; n], next: 1, seen: HashSet::new() })
    }
    fn exec(&self, y: &mut Sys<C>, _s: &Self::S, a: &A, t: &Self::S, acc: &mut Acc) -> Result<(), String> {
        let keys = C::keys();
        y.next += 1;
        let v = y.next;
        match *a {
            A::Insert(i) => {
                let h = y.db.collection::<C>().insert(&keys[i], &C::make(v)).map_err(es)?;
                let h = Header::try_from(h).map_err(es)?;
                y.docs[i] = Some((keys[i].clone(), v, h));
            }
            A::Update(i) => {
                let mut d = C::typed(&y.db, &keys[i])?.ok_or("not found")?;
                d.contents = C::make(v);
                d.update(&y.db).map_err(es)?;
                y.docs[i] = Some((keys[i].clone(), v, d.header().map_err(es)?));
            }
            A::Delete(i) => {
                let d = C::typed(&y.db, &keys[i])?.ok_or("not found")?;
                d.delete(&y.db).map_err(es)?;
                y.docs[i] = None;
            }
            A::Compact => y.db.compact_collection::<C>().map_err(es)?,
        }
        let docs: Vec<Doc<C::K>> = y.docs.iter().flatten().cloned().collect();
        if docs.len() as u32 != t.0.count_ones() {
            return Err("harness: model out of step".into());
        }
        for (i, k) in keys.iter().enumerate() {
            let want: Vec<&Doc<C::K>> = y.docs[i].iter().collect();
            let got = C::typed(&y.db, k)?;
            same::<C>(&format!("get({k:?})"), &want, got.iter().map(typed).collect())?;
            let got = y.db.collection::<C>().get(k).map_err(es)?;
            same::<C>(&format!("get({k:?})"), &want, got.iter().map(raw::<C>).collect())?;
        }
        // several at once: each existing one, in any order asked, once
        let n = keys.len();
        let sets: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), (0..n).rev().collect(), vec![n - 1, 0], vec![1, 2, 3], vec![3, 1]];
        for set in sets {
            let ks: Vec<C::K> = set.iter().map(|i| keys[*i].clone()).collect();
            let (a, b) = C::many(&y.db, &ks)?;
            let mut set = set;
            set.sort_unstable();
            let want: Vec<&Doc<C::K>> = set.iter().filter_map(|i| y.docs[*i].as_ref()).collect();
            let mut a: Vec<_> = a.iter().map(raw::<C>).collect();
            let mut b: Vec<_> = b.iter().map(typed).collect();
            a.sort_by(|x, y| x.0.cmp(&y.0));
            b.sort_by(|x, y| x.0.cmp(&y.0));
            same::<C>(&format!("get_multiple({ks:?})"), &want, a)?;
            same::<C>(&format!("get_multiple({ks:?})"), &want, b)?;
        }
        acc.outcome(&(C::collection_name().to_string(), t));
        // everything the first time a state is seen, less when it is seen again
        if y.seen.insert(t.clone()) {
            let mut bounds = keys;
            bounds.extend(C::between());
            verify::<C>(&y.db, &docs, &bounds, &[None, Some(0), Some(1), Some(2), Some(100)], acc)
        } else {
            verify::<C>(&y.db, &docs, &[keys[1].clone(), keys[3].clone()], &[None, Some(1)], acc)
        }
    }
}

/// Trees of more than one level.
fn large(n: u64, step: u64, acc: &mut Acc) {
    let (_s, db) = world::world(true);
    let mut docs: Vec<Doc<u64>> = vec![];
    acc.at(&format!("{n} documents"));
    let r = engine::no_panic(|| -> Result<(), String> {
        for i in 0..n {
            // not in order
            let k = i * 7919 % n;
            let h = db.collection::<Simple>().insert(&k, &Simple { v: i as u32 }).map_err(es)?;
            docs.push((k, i as u32, Header::try_from(h).map_err(es)?));
        }
        docs.sort_by_key(|d| d.0);
        let mut left = vec![];
        for d in docs.drain(..) {
            if step > 0 && d.0 % step < step / 2 + 1 && d.0 % 5 != 0 {
                db.collection::<Simple>().delete(&d.2).map_err(es)?;
            } else {
                left.push(d);
            }
        }
        docs = left;
        let q = n / 7;
        let bounds: Vec<u64> = vec![0, 1, q, q + 1, n / 2, n - 1, n + 5];
        verify::<Simple>(&db, &docs, &bounds, &[None, Some(1), Some(37)], acc)?;
        let all: Vec<u64> = (0..n + 3).collect();
        let (a, _) = Simple::many(&db, &all)?;
        let mut a: Vec<_> = a.iter().map(raw::<Simple>).collect();
        a.sort_by(|x, y| x.0.cmp(&y.0));
        same::<Simple>("get_multiple of all", &docs.iter().collect::<Vec<_>>(), a)
    });
    acc.outcome(&n);
    if let Ok(Err(e)) | Err(e) = r {
        acc.bad(format!("{n} documents, deletions {step}: {}", crate::report::short(&e, 300)), json!({"documents": n}));
    }
}

pub fn run() -> i32 {
    let mut r = Report::new("C14", "model_checking");
    let mut jobs: Vec<(u8, u64)> = vec![];
    for p in 0..8 {
        jobs.extend([(0, p), (1, p)]);
    }
    let sizes: &[u64] = if r.thorough() { &[30, 700, 3000, 10_000] } else { &[30, 1100] };
    for n in sizes {
        jobs.extend([(2, *n), (3, *n), (4, *n)]);
    }
    seq::run(&mut r, Mode::Free, jobs, |(k, p), a| match k {
        0 => tour::cover(&Tour::<Simple> { compact: true, _c: std::marker::PhantomData }, *p, 8, a),
        1 => tour::cover(&Tour::<Plain> { compact: true, _c: std::marker::PhantomData }, *p, 8, a),
        2 => large(*p, 0, a),
        3 => large(*p, 2, a),
        _ => large(*p, 30, a),
    });
    r.finish()
}
