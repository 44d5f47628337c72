//! Schemas and helpers shared by the checks.
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::document::{CollectionDocument, Emit};
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, CollectionName, ReduceResult, Schema, View, ViewMapResult,
    ViewMappedValue, ViewSchema,
};
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};

use crate::engine;

/// A document with an indexed number and an optional tag.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash, Collection)]
#[collection(name = "basic", primary_key = u64, views = [ByV, ByTag])]
pub struct Basic {
    pub v: u32,
    pub tags: Vec<String>,
}

impl Basic {
    pub fn new(v: u32) -> Self {
        Self { v, tags: vec![] }
    }
}

/// Lazy view, one entry per document, reduces to a sum.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Basic, key = u32, value = u32, name = "by-v")]
pub struct ByV;
impl CollectionMapReduce for ByV {
    fn map<'doc>(&self, d: CollectionDocument<Basic>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.v, d.contents.v)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}

/// Eager view, any number of entries per document, reduces to a count.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Basic, key = String, value = u32, name = "by-tag")]
#[view_schema(policy = Eager)]
pub struct ByTag;
impl CollectionMapReduce for ByTag {
    fn map<'doc>(&self, d: CollectionDocument<Basic>) -> ViewMapResult<'doc, Self> {
        d.contents
            .tags
            .iter()
            .map(|t| d.header.emit_key_and_value(t.clone(), 1))
            .collect()
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}

/// A collection without views.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash, Collection)]
#[collection(name = "simple", primary_key = u64)]
pub struct Simple {
    pub v: u32,
}

/// A collection without views, with string keys.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash, Collection)]
#[collection(name = "plain", primary_key = String)]
pub struct Plain {
    pub v: u32,
}

#[derive(Debug, Schema)]
#[schema(name = "world", collections = [Basic, Simple, Plain])]
pub struct World;

pub fn basic_name() -> CollectionName {
    Basic::collection_name()
}

pub fn pot<T: Serialize>(t: &T) -> Vec<u8> {
    ::pot::to_vec(t).unwrap()
}

/// A small configuration, built once before any child is forked.
pub fn template() -> &'static StorageConfiguration {
    static T: std::sync::OnceLock<StorageConfiguration> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut c = StorageConfiguration::default();
        c.argon.hashers = 1;
        let mut b = bonsaidb_local::argon2::ParamsBuilder::new();
        b = { let _ = b.m_cost(8); let _ = b.t_cost(1); let _ = b.p_cost(1); b };
        c.argon.params = bonsaidb_local::config::ArgonParams::Params(b);
        c
    })
}

pub fn config_at(path: &str, mem: bool) -> StorageConfiguration {
    let mut c = template().clone();
    c.path = Some(path.into());
    c.unique_id = Some(1);
    if mem {
        c = c.memory_only();
    }
    c.workers.worker_count = 1;
    c.workers.parallelization = 1;
    c
}

pub fn config(mem: bool) -> StorageConfiguration {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let dir = engine::scratch();
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    config_at(&format!("{dir}/db{n}"), mem)
}

pub fn open(c: StorageConfiguration) -> Storage {
    Storage::open(c).expect("open")
}

pub fn world(mem: bool) -> (Storage, Database) {
    let s = open(config(mem).with_schema::<World>().unwrap());
    let db = s.create_database::<World>("d", false).unwrap();
    (s, db)
}
