//! C05: every view query answers what mapping and reducing the current
//! documents by definition gives, along every edge of the document model.
//! C06 (second half): unique views.
use std::collections::BTreeMap;
use std::fmt::Debug;

use bonsaidb_core::connection::{AccessPolicy, Bound, Connection, LowLevelConnection, Range, RangeRef, StorageConnection};
use bonsaidb_core::document::{CollectionDocument, DocumentId, Emit, Header};
use bonsaidb_core::key::Key;
use bonsaidb_core::schema::view::map::CollectionMap;
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, ReduceResult, Schema, SerializedCollection, SerializedView, View,
    ViewMapResult, ViewMappedValue, ViewSchema,
};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};

use super::world;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};
use crate::tour::{self, Graph};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Collection)]
#[collection(name = "item", primary_key = u64, views = [ByNum, ByWord, ByOpt])]
pub struct Item {
    pub n: u32,
    pub words: Vec<String>,
    pub opt: Option<u8>,
    /// tells documents apart in view values
    pub who: u32,
}

/// Lazy; the reduced value lists every mapped value, sorted.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Item, key = u32, value = Vec<u32>, name = "by-num")]
pub struct ByNum;
fn concat<V: View<Value = Vec<u32>> + ViewSchema<View = V>>(m: &[ViewMappedValue<'_, V>]) -> Vec<u32> {
    let mut v: Vec<u32> = m.iter().flat_map(|m| m.value.iter().copied()).collect();
    v.sort_unstable();
    v
}
impl CollectionMapReduce for ByNum {
    fn map<'doc>(&self, d: CollectionDocument<Item>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.n, vec![d.contents.n * 100 + d.contents.who])
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self::View> {
        Ok(concat::<Self>(m))
    }
}
/// Eager; any number of keys per document; the reduced value counts, and a
/// re-reduce adds counts.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Item, key = String, value = (u32, u32), name = "by-word")]
#[view_schema(policy = Eager)]
pub struct ByWord;
impl CollectionMapReduce for ByWord {
    fn map<'doc>(&self, d: CollectionDocument<Item>) -> ViewMapResult<'doc, Self> {
        d.contents.words.iter().map(|w| d.header.emit_key_and_value(w.clone(), (d.contents.n, d.contents.who))).collect()
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], rereduce: bool) -> ReduceResult<Self::View> {
        Ok(if rereduce {
            (m.iter().map(|m| m.value.0).sum(), m.iter().map(|m| m.value.1).sum())
        } else {
            (m.len() as u32, m.iter().map(|m| m.value.1).sum())
        })
    }
}
/// Lazy; at most one key per document; no reduce.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Item, key = Option<u8>, value = (), name = "by-opt")]
#[view_schema(version = 7)]
pub struct ByOpt;
impl CollectionMapReduce for ByOpt {
    fn map<'doc>(&self, d: CollectionDocument<Item>) -> ViewMapResult<'doc, Self> {
        if d.contents.n == 2 {
            Ok(bonsaidb_core::schema::view::map::Mappings::none())
        } else {
            d.header.emit_key(d.contents.opt)
        }
    }
}

#[derive(Debug, Schema)]
#[schema(name = "items", collections = [Item])]
pub struct Items;

pub fn contents(c: u8, id: u64) -> Item {
    let (n, words, opt): (u32, &[&str], Option<u8>) = match c {
        1 => (1, &["a"], None),
        2 => (1, &["a", "ab"], Some(0)),
        3 => (2, &[], Some(255)),
        _ => (0, &["b", "ab", "a"], None),
    };
    Item { n, words: words.iter().map(|w| (*w).to_string()).collect(), opt, who: id as u32 }
}

pub type Docs = [u8; 3];
pub type Heads = BTreeMap<u64, Header>;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Q {
    None,
    /// query everything, bringing the indexes up to date
    Full,
    /// read without updating
    Stale,
    /// read, then update in the background
    After,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Act {
    Set(u64, u8),
    Del(u64),
    Two(u64, u8, u64, u8),
    /// delete whatever the view returns for a key
    DelNum(u32),
    DelWord(&'static str),
    DelAll,
    Nop,
}

fn words_of(c: u8) -> Vec<String> {
    if c == 0 { vec![] } else { contents(c, 1).words }
}

pub struct Views {
    pub ids: usize,
    pub two: bool,
    /// deep queries of the documents of this share only
    pub deep: (u64, u64),
}
pub struct Sys {
    s: Storage,
    db: Database,
    heads: Heads,
    /// what the lazy views may hold
    seen: Vec<Docs>,
    /// a background update may be under way
    background: bool,
    full: std::collections::BTreeSet<Docs>,
}

impl Graph for Views {
    type S = (Docs, u8);
    type A = (Act, Q);
    type Sys = Sys;
    fn start(&self) -> Self::S {
        ([0; 3], 0)
    }
    fn actions(&self, _: &Self::S) -> Vec<Self::A> {
        let mut v = vec![];
        let ids: Vec<u64> = (1..=self.ids as u64).collect();
        for i in &ids {
            for c in 1..=4 {
                v.push(Act::Set(*i, c));
            }
            v.push(Act::Del(*i));
        }
        v.extend([Act::DelNum(1), Act::DelNum(7), Act::DelWord("a"), Act::DelWord("ab"), Act::DelAll]);
        if self.two {
            for i in &ids {
                for j in &ids {
                    for (c, d) in [(1, 4), (4, 2), (0, 1), (2, 0), (3, 3)] {
                        v.push(Act::Two(*i, c, *j, d));
                    }
                }
            }
        }
        let mut out: Vec<_> = v.into_iter().map(|a| (a, Q::None)).collect();
        out.extend([(Act::Nop, Q::Full), (Act::Nop, Q::Stale), (Act::Nop, Q::After)]);
        out
    }
    fn next(&self, s: &Self::S, a: &Self::A) -> Self::S {
        let (mut d, mut stale) = *s;
        let before = d;
        for (id, c) in effect(a.0, &d) {
            d[id as usize - 1] = c;
        }
        for i in 0..3 {
            if d[i] != before[i] {
                stale |= 1 << i;
            }
        }
        if matches!(a.0, Act::DelNum(_) | Act::DelAll) {
            // the lookup itself updates that view; what is left stale differs per view
            stale |= 8;
        }
        if a.1 == Q::Full {
            stale = 0;
        }
        (d, stale)
    }
    fn life(&self) -> usize {
        2000
    }
    fn fresh(&self) -> Result<Sys, String> {
        let s = world::open(world::config(true).with_schema::<Items>().map_err(|e| e.to_string())?);
        let db = s.create_database::<Items>("d", false).map_err(|e| e.to_string())?;
        Ok(Sys { s, db, heads: Heads::new(), seen: vec![[0; 3]], background: false, full: Default::default() })
    }
    fn done(&self, sys: Sys) {
        // let background updates finish first
        let _ = sys.db.view::<ByNum>().query();
        let _ = sys.db.view::<ByWord>().query();
        let _ = sys.db.view::<ByOpt>().query();
        drop(sys.db);
        let _ = sys.s.delete_database("d");
    }
    fn exec(&self, x: &mut Sys, s: &Self::S, a: &Self::A, t: &Self::S, acc: &mut Acc) -> Result<(), String> {
        let e = |e: Error| format!("{:?} failed: {e}", a.0);
        let changes = effect(a.0, &s.0);
        match a.0 {
            Act::Nop => {}
            Act::DelNum(_) | Act::DelWord(_) | Act::DelAll => {
                let v = match a.0 {
                    Act::DelNum(n) => x.db.view::<ByNum>().with_key(&n).delete_docs(),
                    Act::DelWord(w) => x.db.view::<ByWord>().with_key(w).delete_docs(),
                    _ => x.db.view::<ByWord>().delete_docs(),
                }
                .map_err(e)?;
                if v != changes.len() as u64 {
                    return Err(format!("{:?} reports {v} documents, expected {}", a.0, changes.len()));
                }
                for (id, _) in &changes {
                    x.heads.remove(id);
                }
                // the lazy view used for the lookup was updated by it
                if !x.seen.contains(&s.0) {
                    x.seen.push(s.0);
                }
            }
            _ => {
                // as one transaction, in the order given
                let mut tx = Transaction::new();
                let mut present: BTreeMap<u64, bool> = BTreeMap::new();
                for (id, c) in steps(a.0) {
                    let key = DocumentId::new(&id).unwrap();
                    let here = *present.entry(id).or_insert(x.heads.contains_key(&id));
                    if c == 0 {
                        if here {
                            // only the first change of a document may use the stored revision
                            if steps(a.0).iter().filter(|s| s.0 == id).count() > 1 {
                                continue;
                            }
                            tx.push(Operation::delete(Item::collection_name(), x.heads[&id].clone()));
                            present.insert(id, false);
                        }
                    } else {
                        tx.push(Operation::overwrite(Item::collection_name(), key, world::pot(&contents(c, id))));
                        present.insert(id, true);
                    }
                }
                for r in x.db.apply_transaction(tx).map_err(e)? {
                    match r {
                        bonsaidb_core::transaction::OperationResult::DocumentUpdated { header, .. } => {
                            x.heads.insert(header.id.deserialize::<u64>().unwrap(), header);
                        }
                        bonsaidb_core::transaction::OperationResult::DocumentDeleted { id, .. } => {
                            x.heads.remove(&id.deserialize::<u64>().unwrap());
                        }
                        _ => {}
                    }
                }
            }
        }
        let d = t.0;
        match a.1 {
            Q::None => {}
            Q::Full => {
                let deep = x.full.insert(d) && seq::h(&d) % self.deep.1 == self.deep.0;
                acc.count("query_rounds", 1);
                verify(&x.db, &d, &x.heads, deep, acc)?;
                x.seen = vec![d];
                x.background = false;
            }
            Q::Stale | Q::After => {
                let p = if a.1 == Q::Stale { AccessPolicy::NoUpdate } else { AccessPolicy::UpdateAfter };
                let got: Vec<_> = x.db.view::<ByNum>().with_access_policy(p).query().map_err(e)?.into_iter().map(|m| (m.key, m.source.id, m.value)).collect();
                x.seen.push(d);
                let mut ok = false;
                for o in &x.seen {
                    let mut w: Vec<(u32, u64, Vec<u32>)> = by_num(o).into_iter().map(|(k, v, id)| (k, id, v)).collect();
                    let mut g = got.clone();
                    w.sort();
                    g.sort();
                    ok |= w == g;
                }
                acc.outcome(&format!("{got:?}"));
                if !ok {
                    return Err(format!("a {:?} read returns {got:?}, which matches neither the indexed nor the current documents", a.1));
                }
            }
        }
        x.background |= a.1 == Q::After;
        if x.background && !x.seen.contains(&d) {
            x.seen.push(d);
        }
        Ok(())
    }
}

fn steps(a: Act) -> Vec<(u64, u8)> {
    match a {
        Act::Set(i, c) => vec![(i, c)],
        Act::Del(i) => vec![(i, 0)],
        Act::Two(i, c, j, d) => vec![(i, c), (j, d)],
        _ => vec![],
    }
}
/// Final contents of the documents an action changes.
fn effect(a: Act, d: &Docs) -> Vec<(u64, u8)> {
    let by = |f: &dyn Fn(u8) -> bool| -> Vec<(u64, u8)> { (0..3).filter(|i| d[*i] != 0 && f(d[*i])).map(|i| (i as u64 + 1, 0)).collect() };
    match a {
        Act::DelNum(n) => by(&|c| contents(c, 1).n == n),
        Act::DelWord(w) => by(&|c| words_of(c).iter().any(|x| x == w)),
        Act::DelAll => by(&|c| !words_of(c).is_empty()),
        Act::Nop => vec![],
        a => {
            let st = steps(a);
            let mut m = BTreeMap::new();
            for (id, c) in &st {
                if *c == 0 && st.iter().filter(|s| s.0 == *id).count() > 1 {
                    continue;
                }
                m.insert(*id, *c);
            }
            m.into_iter().collect()
        }
    }
}

type Maps<K, V> = Vec<(K, V, u64)>;
pub fn by_num(d: &Docs) -> Maps<u32, Vec<u32>> {
    live(d).into_iter().map(|(id, x)| (x.n, vec![x.n * 100 + x.who], id)).collect()
}
pub fn by_word(d: &Docs) -> Maps<String, (u32, u32)> {
    live(d).into_iter().flat_map(|(id, x)| x.words.clone().into_iter().map(move |w| (w, (x.n, x.who), id))).collect()
}
pub fn by_opt(d: &Docs) -> Maps<Option<u8>, ()> {
    live(d).into_iter().filter(|(_, x)| x.n != 2).map(|(id, x)| (x.opt, (), id)).collect()
}
pub fn live(d: &Docs) -> Vec<(u64, Item)> {
    (0..3).filter(|i| d[*i] != 0).map(|i| (i as u64 + 1, contents(d[i], i as u64 + 1))).collect()
}

#[derive(Debug, Clone)]
pub enum Sel<K> {
    All,
    Key(K),
    Keys(Vec<K>),
    Range(Bound<K>, Bound<K>),
}
pub fn selects<K: Ord>(q: &Sel<K>, k: &K) -> bool {
    match q {
        Sel::All => true,
        Sel::Key(x) => x == k,
        Sel::Keys(v) => v.contains(k),
        Sel::Range(a, b) => {
            (match a {
                Bound::Unbounded => true,
                Bound::Included(a) => k >= a,
                Bound::Excluded(a) => k > a,
            }) && match b {
                Bound::Unbounded => true,
                Bound::Included(b) => k <= b,
                Bound::Excluded(b) => k < b,
            }
        }
    }
}

pub fn selections<K: Clone + Ord>(dom: &[K], deep: bool) -> Vec<Sel<K>> {
    let mut v = vec![Sel::All];
    if !deep {
        return v;
    }
    v.push(Sel::Keys(vec![]));
    for a in dom {
        v.push(Sel::Key(a.clone()));
        for b in dom {
            v.push(Sel::Keys(vec![a.clone(), b.clone()]));
        }
        for s in [Bound::Included(a.clone()), Bound::Excluded(a.clone())] {
            v.push(Sel::Range(s.clone(), Bound::Unbounded));
            v.push(Sel::Range(Bound::Unbounded, s.clone()));
            for b in dom.iter().filter(|b| *b >= a) {
                for e in [Bound::Included(b.clone()), Bound::Excluded(b.clone())] {
                    if a == b && (matches!(s, Bound::Excluded(_)) || matches!(e, Bound::Excluded(_))) {
                        continue;
                    }
                    v.push(Sel::Range(s.clone(), e));
                }
            }
        }
    }
    v
}

pub fn build<'a, V: SerializedView, C: Connection>(db: &'a C, q: &'a Sel<V::Key>) -> bonsaidb_core::connection::View<'a, C, V, V::Key>
where
    V::Key: PartialEq + Clone + for<'k> Key<'k>,
{
    let v = db.view::<V>();
    match q {
        Sel::All => v,
        Sel::Key(k) => v.with_key(k),
        Sel::Keys(k) => v.with_keys(k.iter()),
        Sel::Range(a, b) => v.with_key_range(RangeRef::owned(Range { start: a.clone(), end: b.clone() })),
    }
}

/// Checks every kind of query on one view against `want`.
pub fn check_view<V, C>(db: &C, want: &Maps<V::Key, V::Value>, dom: &[V::Key], heads: &Heads, deep: bool, reduce: Option<&dyn Fn(&[&V::Value], bool) -> V::Value>) -> Result<u64, String>
where
    C: Connection,
    V: SerializedView,
    V::Collection: Collection<PrimaryKey = u64>,
    V::Key: Ord + Clone + Debug + for<'k> Key<'k> + 'static,
    V::Value: PartialEq + Debug + Clone,
{
    let mut n = 0;
    for q in selections(dom, deep) {
        let mut sel: Vec<&(V::Key, V::Value, u64)> = want.iter().filter(|m| selects(&q, &m.0)).collect();
        for asc in [true, false] {
            sel.sort_by(|a, b| if asc { a.0.cmp(&b.0) } else { b.0.cmp(&a.0) });
            let limits: &[Option<u32>] = match (&q, deep) {
                (Sel::All, true) => &[None, Some(0), Some(1), Some(2), Some(3), Some(4)],
                (_, true) => &[None, Some(1)],
                _ => &[None],
            };
            for limit in limits {
                n += 1;
                let mut b = build::<V, C>(db, &q);
                b = if asc { b.ascending() } else { b.descending() };
                if let Some(l) = limit {
                    b = b.limit(*l);
                }
                let got: Vec<CollectionMap<u64, V::Key, V::Value>> = b.query().map_err(|e| format!("query {q:?}: {e}"))?;
                let cut = limit.map_or(sel.len(), |l| sel.len().min(l as usize));
                let say = || format!("query {q:?} {} limit {limit:?} returns {:?}, expected {:?}", if asc { "ascending" } else { "descending" },
                    got.iter().map(|m| (&m.key, m.source.id)).collect::<Vec<_>>(), sel.iter().take(cut).map(|m| (&m.0, m.2)).collect::<Vec<_>>());
                if got.len() != cut || got.iter().zip(&sel).any(|(g, w)| g.key != w.0) {
                    return Err(say());
                }
                for (i, g) in got.iter().enumerate() {
                    if !sel.iter().any(|w| w.0 == g.key && w.2 == g.source.id && w.1 == g.value)
                        || got[..i].iter().any(|o| o.key == g.key && o.source.id == g.source.id)
                    {
                        return Err(say());
                    }
                    if heads.get(&g.source.id).map(|h| h.revision) != Some(g.source.revision) {
                        return Err(format!("{}; entry of document {} names revision {:?}, stored is {:?}", say(), g.source.id, g.source.revision, heads.get(&g.source.id)));
                    }
                }
            }
        }
        // with documents
        let docs = build::<V, C>(db, &q).query_with_docs().map_err(|e| format!("query_with_docs {q:?}: {e}"))?;
        let mut ids: Vec<u64> = sel.iter().map(|m| m.2).collect();
        ids.sort_unstable();
        ids.dedup();
        if docs.documents.keys().copied().collect::<Vec<_>>() != ids || docs.len() != sel.len() {
            return Err(format!("query_with_docs {q:?} returns documents {:?} and {} mappings, expected {ids:?} and {}", docs.documents.keys(), docs.len(), sel.len()));
        }
        for m in &docs {
            if m.document.header != heads[&m.document.header.id.deserialize::<u64>().unwrap()] {
                return Err(format!("query_with_docs {q:?} returns document {:?}", m.document.header));
            }
        }
        // reductions
        if let Some(r) = reduce {
            let mut groups: BTreeMap<&V::Key, Vec<&V::Value>> = BTreeMap::new();
            for m in &sel {
                groups.entry(&m.0).or_default().push(&m.1);
            }
            let g: Vec<(V::Key, V::Value)> = groups.iter().map(|(k, v)| ((*k).clone(), r(v, false))).collect();
            let got: Vec<(V::Key, V::Value)> = build::<V, C>(db, &q).reduce_grouped().map_err(|e| format!("reduce_grouped {q:?}: {e}"))?.into_iter().map(|m| (m.key, m.value)).collect();
            n += 2;
            if got != g {
                return Err(format!("reduce_grouped {q:?} returns {got:?}, expected {g:?}"));
            }
            let w = if g.len() == 1 { g[0].1.clone() } else { r(&g.iter().map(|g| &g.1).collect::<Vec<_>>(), true) };
            let got = build::<V, C>(db, &q).reduce().map_err(|e| format!("reduce {q:?}: {e}"))?;
            if got != w {
                return Err(format!("reduce {q:?} returns {got:?}, expected {w:?}"));
            }
        }
    }
    Ok(n)
}

pub fn red_num(v: &[&Vec<u32>], _r: bool) -> Vec<u32> {
    let mut x: Vec<u32> = v.iter().flat_map(|v| v.iter().copied()).collect();
    x.sort_unstable();
    x
}
pub fn red_word(v: &[&(u32, u32)], r: bool) -> (u32, u32) {
    (if r { v.iter().map(|v| v.0).sum() } else { v.len() as u32 }, v.iter().map(|v| v.1).sum())
}

pub fn verify<C: Connection>(db: &C, d: &Docs, heads: &Heads, deep: bool, acc: &mut Acc) -> Result<(), String> {
    let mut n = 0;
    n += check_view::<ByNum, C>(db, &by_num(d), &[0, 1, 2, 9], heads, deep, Some(&red_num)).map_err(|e| format!("lazy view: {e}"))?;
    let w = by_word(d);
    n += check_view::<ByWord, C>(db, &w, &["a".into(), "ab".into(), "b".into(), "c".into()], heads, deep, Some(&red_word)).map_err(|e| format!("eager view: {e}"))?;
    n += check_view::<ByOpt, C>(db, &by_opt(d), &[None, Some(0), Some(1), Some(255)], heads, deep, None).map_err(|e| format!("view without reduce: {e}"))?;
    if deep {
        for p in ["", "a", "ab", "abc", "b"] {
            n += 1;
            let mut got: Vec<(String, u64)> = db.view::<ByWord>().with_key_prefix(p).query().map_err(|e| e.to_string())?.into_iter().map(|m| (m.key, m.source.id)).collect();
            let mut want: Vec<(String, u64)> = w.iter().filter(|m| m.0.starts_with(p)).map(|m| (m.0.clone(), m.2)).collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("prefix {p:?} returns {got:?}, expected {want:?}"));
            }
        }
        let got = db.view::<ByWord>().query_with_collection_docs().map_err(|e| e.to_string())?;
        for m in &got {
            if m.document.contents != contents(d[m.document.header.id as usize - 1], m.document.header.id) {
                return Err(format!("query_with_collection_docs returns {:?} for document {}", m.document.contents, m.document.header.id));
            }
        }
    }
    acc.count("queries", n);
    acc.outcome(d);
    Ok(())
}

/// Many documents: batches of 1024 inside the mapper.
fn batches(n: u64, a: &mut Acc) -> Result<(), String> {
    let s = world::open(world::config(true).with_schema::<Items>().map_err(|e| e.to_string())?);
    let db = s.create_database::<Items>("d", false).map_err(|e| e.to_string())?;
    let e = |e: Error| e.to_string();
    let mut tx = Transaction::new();
    for id in (0..n).rev() {
        let x = Item { n: (id % 5) as u32, words: vec![format!("w{}", id % 7)], opt: None, who: id as u32 };
        tx.push(Operation::insert(Item::collection_name(), Some(DocumentId::new(&id).unwrap()), world::pot(&x)));
    }
    db.apply_transaction(tx).map_err(e)?;
    for round in 0..2u64 {
        a.count("evaluations", 1);
        let got = db.view::<ByNum>().query().map_err(e)?;
        let mut ids: Vec<u64> = got.iter().map(|m| m.source.id).collect();
        ids.sort_unstable();
        let words = db.view::<ByWord>().reduce().map_err(e)?;
        let live: Vec<u64> = (0..n).filter(|i| round == 0 || i % 3 != 1).collect();
        if ids != live {
            return Err(format!("{n} documents, round {round}: the lazy view holds {} entries, expected {}", ids.len(), live.len()));
        }
        if words.0 as usize != live.len() {
            return Err(format!("{n} documents, round {round}: the eager view counts {}, expected {}", words.0, live.len()));
        }
        for m in &got {
            let want = if round == 0 || m.source.id % 3 == 0 { m.source.id % 5 } else { 77 };
            if u64::from(m.key) != want {
                return Err(format!("{n} documents, round {round}: document {} is listed under {}", m.source.id, m.key));
            }
        }
        if round == 0 {
            let mut tx = Transaction::new();
            for id in 0..n {
                if id % 3 == 1 {
                    let h = Item::get(&id, &db).map_err(e)?.unwrap().header;
                    tx.push(Operation::delete(Item::collection_name(), Header::try_from(h).map_err(e)?));
                } else if id % 3 == 2 {
                    let x = Item { n: 77, words: vec!["z".into()], opt: None, who: 0 };
                    tx.push(Operation::overwrite(Item::collection_name(), DocumentId::new(&id).unwrap(), world::pot(&x)));
                }
            }
            db.apply_transaction(tx).map_err(e)?;
        }
    }
    Ok(())
}

pub fn run() -> i32 {
    let mut r = Report::new("C05", "model_checking");
    let parts = 24u64;
    let big = r.thorough();
    let mut jobs: Vec<(u64, u64, usize, bool)> = (0..parts).map(|p| (p, parts, 3, false)).collect();
    jobs.extend((0..parts).map(|p| (p, parts, if big { 3 } else { 2 }, true)));
    jobs.extend([1023u64, 1024, 1025, 2049].map(|n| (n, 0, 0, false)));
    seq::run(&mut r, Mode::Controlled, jobs, |j, a| {
        if j.1 == 0 {
            a.at("batches");
            if let Err(e) = batches(j.0, a) {
                a.bad(e, serde_json::json!({"documents": j.0}));
            }
        } else {
            tour::cover(&Views { ids: j.2, two: j.3, deep: (j.0, j.1) }, j.0, j.1, a);
        }
    });
    let st = r.coverage.get("model_states").cloned().unwrap_or_default();
    r.set("states", st);
    let tr = r.coverage.get("transitions").cloned().unwrap_or_default();
    r.set("traces_validated_against_impl", tr);
    r.set("explanation", "states = states of the document model (contents of the documents x which of them changed since the lazy views were last queried); transitions = model edges executed on the real database, each compared with the model (traces_validated_against_impl); every edge of the graph is taken at least once");
    r.set("exhaustive", true);
    r.assume("three documents, four contents each; queries over four keys per view");
    r.finish()
}
