//! The same operations, performed through every kind of connection.
use bonsaidb_core::admin::{PermissionGroup, Role, User};
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{AccessPolicy, Authentication, Bound, IdentityReference, Range, SensitiveString, SerializedQueryKey, Sort};
use bonsaidb_core::document::{CollectionDocument, DocumentId, Emit, Header, Revision};
use bonsaidb_core::keyvalue::{Command, KeyCheck, KeyOperation, Numeric, SetCommand, Timestamp, Value};
use bonsaidb_core::permissions::Statement;
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, CollectionName, Qualified, ReduceResult, Schema, SchemaName, View, ViewMapResult, ViewMappedValue, ViewName, ViewSchema,
};
use bonsaidb_core::transaction::{Operation, Transaction};
use serde::{Deserialize, Serialize};

use crate::checks::world::{self, Basic, ByTag, ByV, Plain, Simple};

/// No two of these have the same name.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash, Collection)]
#[collection(name = "uniq", primary_key = u64, views = [UniqName])]
pub struct Uniq {
    pub name: String,
}
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Uniq, key = String, name = "name")]
#[view_schema(policy = Unique)]
pub struct UniqName;
impl CollectionMapReduce for UniqName {
    fn map<'doc>(&self, d: CollectionDocument<Uniq>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key(d.contents.name)
    }
    fn reduce(&self, _m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self::View> {
        Ok(())
    }
}
/// Its map function fails.
#[derive(Debug, Clone, Serialize, Deserialize, Collection)]
#[collection(name = "unregistered", primary_key = u64)]
pub struct Unregistered;

#[derive(Debug, Schema)]
#[schema(name = "net", collections = [Basic, Simple, Plain, Uniq])]
pub struct Net;
#[derive(Debug, Schema)]
#[schema(name = "unknown", collections = [Basic])]
pub struct Unknown;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Push,
    Insert(u64),
    Put(u64),
    Update(u64),
    Stale(u64),
    Delete(u64),
    DeleteStale(u64),
    Text(&'static str),
    Uniq(u64, &'static str),
    Get(u64),
    GetMany,
    List(u8),
    Headers(u8),
    Count(u8),
    Tx(u8),
    Query(u8),
    Docs(u8),
    Reduce(u8),
    DeleteDocs(u8),
    /// with a policy that does not wait for the view to be updated
    Behind(u8),
    BadView(u8),
    BadColl(u8),
    Log(u8),
    Compact(u8),
    Kv(u8),
    Sub,
    SubTo(u8),
    Unsub(u8),
    Unreg,
    Publish(u8),
    PublishAll,
    // on the storage
    CreateDb(u8),
    DeleteDb(u8),
    MissingDb,
    Dbs,
    Schemas,
    AddUser(u8),
    DelUser(u8),
    Password(u8),
    Join(bool, u8),
    Leave(bool, u8),
    Groups,
    Users,
    Login(u8),
    Assume(u8),
    Out,
    Who,
}
pub fn pw(s: &str) -> SensitiveString {
    SensitiveString(s.to_string())
}
/// Ranges of numbers, to list and to query.
pub fn range<T>(n: u8, f: impl Fn(u64) -> T) -> (Range<T>, Sort, Option<u32>) {
    let r = |s, e| Range { start: s, end: e };
    match n {
        0 => (r(Bound::Unbounded, Bound::Unbounded), Sort::Ascending, None),
        1 => (r(Bound::Unbounded, Bound::Unbounded), Sort::Descending, Some(1)),
        2 => (r(Bound::Included(f(1)), Bound::Excluded(f(2))), Sort::Ascending, None),
        3 => (r(Bound::Excluded(f(1)), Bound::Included(f(3))), Sort::Descending, None),
        4 => (r(Bound::Included(f(2)), Bound::Unbounded), Sort::Ascending, Some(0)),
        _ => (r(Bound::Included(f(3)), Bound::Excluded(f(1))), Sort::Ascending, Some(5)),
    }
}
pub fn key(n: u8) -> Option<SerializedQueryKey> {
    use bonsaidb_core::key::KeyEncoding;
    let b = |v: u64| Bytes::from((v as u32).as_ord_bytes().unwrap().to_vec());
    match n {
        0 => None,
        1 => Some(SerializedQueryKey::Matches(b(1))),
        2 => Some(SerializedQueryKey::Multiple(vec![b(1), b(3), b(1)])),
        _ => Some(SerializedQueryKey::Range(range(n, b).0)),
    }
}
fn stale(id: u64) -> Header {
    Header { id: DocumentId::from_u64(id), revision: Revision { id: 7, sha256: [3; 32] } }
}
fn basic(n: u32) -> Basic {
    Basic { v: n % 4, tags: (0..n % 3).map(|t| format!("t{t}")).collect() }
}
pub fn tx(n: u8, k: u32) -> Transaction {
    let b = Basic::collection_name;
    let v = world::pot(&basic(k));
    let id = DocumentId::from_u64;
    let mut t = Transaction::new();
    match n {
        0 => {}
        1 => {
            t.push(Operation::overwrite(b(), id(1), v));
            t.push(Operation::push_serialized::<Simple>(&Simple { v: k }).unwrap());
            t.push(Operation::insert(Plain::collection_name(), Some(DocumentId::new("text").unwrap()), world::pot(&Plain { v: k })));
        }
        2 => {
            t.push(Operation::push_serialized::<Simple>(&Simple { v: k }).unwrap());
            t.push(Operation::update(b(), stale(1), v));
        }
        3 => {
            t.push(Operation::check_document_exists::<Basic>(&1).unwrap());
            t.push(Operation::overwrite(Simple::collection_name(), id(1), world::pot(&Simple { v: k })));
        }
        4 => {
            t.push(Operation::overwrite(b(), id(3), v));
            t.push(Operation::insert(CollectionName::private("unregistered"), Some(id(1)), vec![]));
        }
        _ => {
            // no document at all
            t.push(Operation::overwrite(b(), id(2), vec![1, 2, 3]));
        }
    }
    t
}
pub fn kv(n: u8) -> KeyOperation {
    let set = |value: Value, check: Option<KeyCheck>, prev: bool| {
        Command::Set(SetCommand { value, expiration: None, keep_existing_expiration: false, check, return_previous_value: prev })
    };
    let num = |v: u64| Value::Numeric(Numeric::UnsignedInteger(v));
    let (ns, key, command) = match n {
        0 => (None, "k", Command::Get { delete: false }),
        1 => (None, "k", set(num(5), None, false)),
        2 => (None, "k", set(Value::Bytes(Bytes::from(b"bytes".to_vec())), None, true)),
        3 => (None, "k", set(Value::Numeric(Numeric::Integer(-3)), Some(KeyCheck::OnlyIfVacant), false)),
        4 => (Some("ns"), "k", set(Value::Numeric(Numeric::Float(1.5)), Some(KeyCheck::OnlyIfPresent), true)),
        5 => (None, "k", Command::Increment { amount: Numeric::UnsignedInteger(u64::MAX), saturating: true }),
        6 => (None, "k", Command::Increment { amount: Numeric::Integer(-9), saturating: false }),
        7 => (None, "k", Command::Decrement { amount: Numeric::Float(0.5), saturating: false }),
        8 => (None, "k", Command::Get { delete: true }),
        9 => (None, "k", Command::Delete),
        10 => (None, "k", set(Value::Numeric(Numeric::Float(f64::NAN)), None, false)),
        11 => (Some("ns"), "k", Command::Get { delete: false }),
        12 => (Some("ns"), "k", set(num(1), None, false)),
        // long gone, and far ahead
        13 => {
            (None, "k", Command::Set(SetCommand { value: num(2), expiration: Some(Timestamp { seconds: 1, nanos: 0 }), keep_existing_expiration: false, check: None, return_previous_value: true }))
        }
        _ => (
            None,
            "k",
            Command::Set(SetCommand { value: num(3), expiration: Some(Timestamp { seconds: 1 << 40, nanos: 1 }), keep_existing_expiration: true, check: None, return_previous_value: true }),
        ),
    };
    KeyOperation { namespace: ns.map(str::to_string), key: key.into(), command }
}
fn er(e: bonsaidb_core::Error) -> String {
    // (a user's revision depends on the salt of their password)
    match e {
        bonsaidb_core::Error::UniqueKeyViolation { view, conflicting_document, .. } if view.to_string().contains("khonsulabs.user") => {
            format!("{view}: conflict with {}", conflicting_document.id)
        }
        e => format!("error {e:?}"),
    }
}
fn topic(n: u8) -> Vec<u8> {
    [&b""[..], b"a", b"ab"][usize::from(n)].to_vec()
}
const LAST: &[u8] = b"\xff the last one";

/// What a connection looks like while a sequence runs.
pub struct St<S, D, B> {
    pub base: S,
    pub s: S,
    pub db: D,
    pub subs: Vec<B>,
    pub name: String,
    pub n: u32,
}

macro_rules! executor {
    ($mo:ident, [$($as:ident)?], $storage:ident, $conn:ident, $low:ident, $kv:ident, $pubsub:ident, $sub:ident, [$($aw:tt)*], [$($qy:tt)*]) => {
        pub mod $mo {
            use bonsaidb_core::connection::{$conn, $low, $storage, HasSession};
            use bonsaidb_core::keyvalue::$kv;
            use bonsaidb_core::pubsub::{$pubsub, $sub};

            use super::*;

            type Subs<S> = <<S as $storage>::Database as $pubsub>::Subscriber;

            pub $($as)? fn start<S: $storage<Authenticated = S> + Clone>(s: &S, name: &str) -> Result<St<S, S::Database, Subs<S>>, String>
            where
                S::Database: $conn + $kv + $pubsub,
            {
                let db = s.create_database::<Net>(name, false) $($aw)*.map_err(er)?;
                Ok(St { base: s.clone(), s: s.clone(), db, subs: vec![], name: name.to_string(), n: 0 })
            }
            /// Another handle of a database.
            pub $($as)? fn handle<S: $storage<Authenticated = S> + Clone>(s: &S, name: &str) -> Result<St<S, S::Database, Subs<S>>, String>
            where
                S::Database: $conn + $kv + $pubsub,
            {
                let db = s.database::<Net>(name) $($aw)*.map_err(er)?;
                Ok(St { base: s.clone(), s: s.clone(), db, subs: vec![], name: name.to_string(), n: 0 })
            }
            /// Performs an operation, and says what came of it.
            pub $($as)? fn act<S: $storage<Authenticated = S> + Clone + HasSession>(st: &mut St<S, S::Database, Subs<S>>, op: Op) -> String
            where
                S::Database: $conn + $kv + $pubsub,
            {
                match tried(st, op) $($aw)* {
                    Ok(s) | Err(s) => s,
                }
            }
            $($as)? fn tried<S: $storage<Authenticated = S> + Clone + HasSession>(st: &mut St<S, S::Database, Subs<S>>, op: Op) -> Result<String, String>
            where
                S::Database: $conn + $kv + $pubsub,
            {
                st.n += 1;
                let k = st.n;
                let db = &st.db;
                let s = &st.s;
                let ok = |_: ()| "ok".to_string();
                let coll = Basic::collection_name();
                let id = DocumentId::from_u64;
                macro_rules! say {
                    ($e:expr) => {
                        $e $($aw)*.map(|v| format!("{v:?}")).map_err(er)
                    };
                }
                match op {
                    Op::Push => say!(db.collection::<Basic>().push(&basic(k))),
                    Op::Insert(i) => db.collection::<Basic>().insert(&i, &basic(k)) $($aw)*.map(|v| format!("{v:?}")).map_err(er),
                    Op::Put(i) => say!(db.overwrite::<Basic, u64>(&i, world::pot(&basic(k)))),
                    Op::Update(i) => {
                        let Some(mut d) = db.collection::<Basic>().get(&i) $($aw)*.map_err(er)? else { return Ok("none".into()) };
                        d.contents = Bytes::from(world::pot(&basic(k)));
                        db.collection::<Basic>().update(&mut d) $($aw)*.map_err(er)?;
                        Ok(format!("{d:?}"))
                    }
                    Op::Stale(i) => say!(db.apply_transaction(Transaction::update(coll, stale(i), world::pot(&basic(k))))),
                    Op::Delete(i) => {
                        let Some(d) = db.collection::<Basic>().get(&i) $($aw)*.map_err(er)? else { return Ok("none".into()) };
                        db.collection::<Basic>().delete(&d) $($aw)*.map(ok).map_err(er)
                    }
                    Op::DeleteStale(i) => db.collection::<Basic>().delete(&stale(i)) $($aw)*.map(ok).map_err(er),
                    Op::Text(t) => say!(db.collection::<Plain>().insert(t, &Plain { v: k })),
                    Op::Uniq(i, name) => say!(db.overwrite::<Uniq, u64>(&i, world::pot(&Uniq { name: name.into() }))),
                    Op::Get(i) => say!(db.collection::<Basic>().get(&i)),
                    Op::GetMany => say!(db.get_multiple_from_collection(&[id(2), id(9), id(1), id(2)], &coll)),
                    Op::List(n) => {
                        let (r, o, l) = range(n, id);
                        say!(db.list_from_collection(r, o, l, &coll))
                    }
                    Op::Headers(n) => {
                        let (r, o, l) = range(n, id);
                        say!(db.list_headers_from_collection(r, o, l, &coll))
                    }
                    Op::Count(n) => say!(db.count_from_collection(range(n, id).0, &coll)),
                    Op::Tx(n) => say!(db.apply_transaction(tx(n, k))),
                    Op::Query(n) => match n {
                        7 => say!(db.view::<ByTag>().query()),
                        8 => db.view::<ByTag>().with_key("t0").descending().limit(1).query() $($aw)*.map(|v| format!("{v:?}")).map_err(er),
                        9 => say!(db.view::<UniqName>().query()),
                        _ => {
                            let (_, o, l) = range(n, id);
                            say!(db.query_by_name(&view("by-v"), key(n), o, l, AccessPolicy::UpdateBefore))
                        }
                    },
                    Op::Docs(n) => match n {
                        7 => db.view::<ByTag>().query_with_docs() $($aw)*.map(|v| format!("{:?} {:?}", v.mappings, v.documents)).map_err(er),
                        8 => {
                            db.view::<ByTag>().with_key_prefix("t").query_with_collection_docs() $($aw)*.map(|v| format!("{:?} {:?}", v.mappings, v.documents)).map_err(er)
                        }
                        _ => {
                            let (_, o, l) = range(n, id);
                            db.query_by_name_with_docs(&view("by-v"), key(n), o, l, AccessPolicy::UpdateBefore)
                                $($aw)*.map(|v| format!("{:?} {:?}", v.mappings, v.documents)).map_err(er)
                        }
                    },
                    Op::Reduce(n) => match n {
                        6 => say!(db.view::<ByV>().reduce()),
                        7 => say!(db.view::<ByTag>().reduce_grouped()),
                        8 => say!(db.view::<ByTag>().with_key("none").reduce()),
                        n if n >= 20 => say!(db.reduce_grouped_by_name(&view("by-v"), key(n - 20), AccessPolicy::UpdateBefore)),
                        n => say!(db.reduce_by_name(&view("by-v"), key(n), AccessPolicy::UpdateBefore)),
                    },
                    Op::DeleteDocs(n) => match n {
                        7 => say!(db.view::<ByTag>().with_key("t0").delete_docs()),
                        n => say!(db.delete_docs_by_name(&view("by-v"), key(n), AccessPolicy::UpdateBefore)),
                    },
                    Op::Behind(n) => {
                        let p = if n < 10 { AccessPolicy::NoUpdate } else { AccessPolicy::UpdateAfter };
                        let v = view("by-v");
                        // (the view is up to date, and then a document is added)
                        let first = say!(db.query_by_name(&v, None, Sort::Ascending, None, AccessPolicy::UpdateBefore));
                        let put = say!(db.overwrite::<Basic, u64>(&77, world::pot(&basic(k))));
                        let r = match n % 10 {
                            0 => say!(db.query_by_name(&v, None, Sort::Ascending, None, p)),
                            1 => db.query_by_name_with_docs(&v, None, Sort::Descending, None, p) $($aw)*.map(|v| format!("{:?} {:?}", v.mappings, v.documents)).map_err(er),
                            2 => say!(db.reduce_by_name(&v, None, p)),
                            3 => say!(db.reduce_grouped_by_name(&v, None, p)),
                            _ => say!(db.delete_docs_by_name(&v, key(1), p)),
                        };
                        // (an update that follows is waited for)
                        let after = if n < 10 { Ok(String::new()) } else { say!(db.query_by_name(&v, None, Sort::Ascending, None, AccessPolicy::UpdateBefore)) };
                        Ok(format!("{first:?} {put:?} {r:?} {after:?}"))
                    }
                    Op::BadView(n) => match n {
                        0 => say!(db.query_by_name(&view("no"), None, Sort::Ascending, None, AccessPolicy::UpdateBefore)),
                        1 => db.query_by_name_with_docs(&view("no"), None, Sort::Ascending, None, AccessPolicy::NoUpdate) $($aw)*.map(|v| format!("{:?}", v.mappings)).map_err(er),
                        2 => say!(db.reduce_by_name(&view("no"), None, AccessPolicy::UpdateBefore)),
                        3 => say!(db.reduce_grouped_by_name(&view("no"), None, AccessPolicy::UpdateBefore)),
                        _ => say!(db.delete_docs_by_name(&view("no"), None, AccessPolicy::UpdateBefore)),
                    },
                    Op::BadColl(n) => {
                        let c = Unregistered::collection_name();
                        match n {
                            0 => say!(db.get_from_collection(id(1), &c)),
                            1 => say!(db.get_multiple_from_collection(&[id(1)], &c)),
                            2 => say!(db.list_from_collection(range(0, id).0, Sort::Ascending, None, &c)),
                            3 => say!(db.list_headers_from_collection(range(0, id).0, Sort::Ascending, None, &c)),
                            4 => say!(db.count_from_collection(range(0, id).0, &c)),
                            5 => say!(db.compact_collection::<Unregistered>()),
                            _ => say!(db.collection::<Unregistered>().get(&1)),
                        }
                    }
                    Op::Log(n) => match n {
                        0 => say!(db.list_executed_transactions(None, None)),
                        1 => say!(db.list_executed_transactions(None, Some(1))),
                        2 => say!(db.list_executed_transactions(Some(1), Some(2))),
                        3 => say!(db.list_executed_transactions(Some(100), None)),
                        _ => say!(db.last_transaction_id()),
                    },
                    Op::Compact(n) => match n {
                        0 => say!(db.compact()),
                        1 => say!(db.compact_collection::<Basic>()),
                        _ => say!(db.compact_key_value_store()),
                    },
                    Op::Kv(n) => match n {
                        20 => say!(db.delete_key("k")),
                        21 => say!(db.with_key_namespace("ns").get_key("k").into_u64()),
                        22 => say!(db.get_key("k").and_delete() $($qy)*),
                        23 => say!(db.get_key("k").into::<String>()),
                        n => say!(db.execute_key_operation(kv(n))),
                    },
                    Op::Sub => {
                        let sub = db.create_subscriber() $($aw)*.map_err(er)?;
                        sub.subscribe_to_bytes(LAST.to_vec()) $($aw)*.map_err(er)?;
                        st.subs.push(sub);
                        Ok("ok".into())
                    }
                    Op::SubTo(n) => match st.subs.last() {
                        Some(s) => s.subscribe_to_bytes(topic(n)) $($aw)*.map(ok).map_err(er),
                        None => Ok("none".into()),
                    },
                    Op::Unsub(n) => match st.subs.last() {
                        Some(s) => s.unsubscribe_from_bytes(&topic(n)) $($aw)*.map(ok).map_err(er),
                        None => Ok("none".into()),
                    },
                    Op::Unreg => Ok(st.subs.pop().is_some().to_string()),
                    Op::Publish(n) => db.publish_bytes(topic(n), vec![n, k as u8]) $($aw)*.map(ok).map_err(er),
                    Op::PublishAll => db.publish_bytes_to_all([topic(0), topic(2), topic(2)], vec![k as u8]) $($aw)*.map(ok).map_err(er),

                    Op::CreateDb(n) => {
                        let other = format!("{}-x", st.name);
                        match n {
                            0 => s.create_database_with_schema(&other, Net::schema_name(), false) $($aw)*,
                            1 => s.create_database_with_schema(&other, Net::schema_name(), true) $($aw)*,
                            2 => s.create_database_with_schema(&other, Unknown::schema_name(), false) $($aw)*,
                            3 => s.create_database_with_schema("no good/", Net::schema_name(), false) $($aw)*,
                            4 => s.create_database_with_schema("", Net::schema_name(), false) $($aw)*,
                            _ => s.create_database_with_schema(&st.name, SchemaName::private("net"), true) $($aw)*,
                        }
                        .map(ok)
                        .map_err(er)
                    }
                    Op::DeleteDb(n) => s.delete_database(&if n == 0 { format!("{}-x", st.name) } else { "no".into() }) $($aw)*.map(ok).map_err(er),
                    Op::MissingDb => {
                        let db = s.database::<Net>("missing") $($aw)*.map_err(er)?;
                        say!(db.last_transaction_id())
                    }
                    Op::Dbs => {
                        let mut l: Vec<_> = s.list_databases() $($aw)*.map_err(er)?.into_iter().filter(|d| d.name.starts_with(&st.name) || d.name == "_admin").map(|d| format!("{d:?}")).collect();
                        l.sort();
                        Ok(l.join(" "))
                    }
                    Op::Schemas => {
                        let mut l: Vec<_> = s.list_available_schemas() $($aw)*.map_err(er)?.into_iter().map(|d| d.name.to_string()).filter(|n| n != "khonsulabs.hosted").collect();
                        l.sort();
                        Ok(l.join(" "))
                    }
                    Op::AddUser(n) => say!(s.create_user(&user(&st.name, n))),
                    Op::DelUser(n) => s.delete_user(user(&st.name, n)) $($aw)*.map(ok).map_err(er),
                    Op::Password(n) => s.set_user_password(user(&st.name, n), pw("secret")) $($aw)*.map(ok).map_err(er),
                    Op::Join(role, n) => {
                        if role {
                            s.add_role_to_user(user(&st.name, n), "role") $($aw)*
                        } else {
                            s.add_permission_group_to_user(user(&st.name, n), "group") $($aw)*
                        }
                        .map(ok)
                        .map_err(er)
                    }
                    Op::Leave(role, n) => {
                        if role {
                            s.remove_role_from_user(user(&st.name, n), "role") $($aw)*
                        } else {
                            s.remove_permission_group_from_user(user(&st.name, n), "group") $($aw)*
                        }
                        .map(ok)
                        .map_err(er)
                    }
                    Op::Groups => {
                        // the first time round
                        let admin = s.admin() $($aw)*;
                        let stm = Statement::for_any().allowing_all();
                        let a = admin.collection::<PermissionGroup>().push(&PermissionGroup { name: "group".into(), statements: vec![stm] }) $($aw)*;
                        let b = admin.collection::<Role>().push(&Role { name: "role".into(), groups: vec![0] }) $($aw)*;
                        Ok(format!("{:?} {:?}", a.map_err(er), b.map_err(er)))
                    }
                    Op::Users => {
                        let admin = s.admin() $($aw)*;
                        let l = admin.collection::<User>().all() $($qy)* $($aw)*.map_err(er)?;
                        let mut out = vec![];
                        for d in l {
                            let u: User = pot::from_slice(&d.contents).map_err(|e| e.to_string())?;
                            if u.username.starts_with(&st.name) {
                                out.push(format!("{} {} {:?} {:?} {}", d.header.id, u.username, u.groups, u.roles, u.argon_hash.is_some()));
                            }
                        }
                        Ok(out.join(" "))
                    }
                    Op::Login(n) => {
                        let password = pw(if n >= 10 { "wrong" } else { "secret" });
                        let new = st.base.authenticate(Authentication::Password { user: user(&st.name, n % 10).into(), password }) $($aw)*.map_err(er)?;
                        let out = who(new.session());
                        st.db = new.database::<Net>(&st.name) $($aw)*.map_err(er)?;
                        st.s = new;
                        Ok(out)
                    }
                    Op::Assume(n) => {
                        let new = if n >= 10 { s.assume_identity(IdentityReference::Role("role".into())) $($aw)* } else { s.assume_identity(IdentityReference::User(user(&st.name, n).into())) $($aw)* }.map_err(er)?;
                        let out = who(new.session());
                        st.db = new.database::<Net>(&st.name) $($aw)*.map_err(er)?;
                        st.s = new;
                        Ok(out)
                    }
                    Op::Out => {
                        st.s = st.base.clone();
                        st.db = st.s.database::<Net>(&st.name) $($aw)*.map_err(er)?;
                        Ok("ok".into())
                    }
                    Op::Who => Ok(if st.s.session().is_some_and(|s| s.identity().is_some()) { who(st.s.session()) } else { "nobody".into() }),
                }
            }
            /// What the subscribers have received.
            pub $($as)? fn received<S: $storage<Authenticated = S> + Clone>(st: &mut St<S, S::Database, Subs<S>>) -> Vec<String>
            where
                S::Database: $conn + $kv + $pubsub,
            {
                let mut out = vec![];
                let db = match st.base.database::<Net>(&st.name) $($aw)* {
                    Ok(db) => db,
                    Err(e) => return vec![er(e)],
                };
                if st.subs.is_empty() {
                    return out;
                }
                if let Err(e) = db.publish_bytes(LAST.to_vec(), vec![]) $($aw)* {
                    return vec![er(e)];
                }
                for sub in &st.subs {
                    let mut seen = vec![];
                    let until = std::time::Instant::now() + std::time::Duration::from_secs(10);
                    loop {
                        match sub.receiver().try_receive() {
                            Ok(m) if m.topic.0.as_slice() == LAST => break,
                            Ok(m) => seen.push(format!("{:?} {:?}", m.topic.0.as_slice(), &m.payload[..])),
                            Err(e) => {
                                if std::time::Instant::now() > until {
                                    seen.push(format!("nothing: {e:?}"));
                                    break;
                                }
                                std::thread::sleep(std::time::Duration::from_micros(100));
                            }
                        }
                    }
                    out.push(seen.join(", "));
                }
                out
            }
        }
    };
}
fn view(n: &str) -> ViewName {
    ViewName { collection: Basic::collection_name(), name: bonsaidb_core::schema::Name::from(n.to_string()) }
}
pub fn user(name: &str, n: u8) -> String {
    format!("{name}-user{n}")
}
fn who(s: Option<&bonsaidb_core::connection::Session>) -> String {
    match s {
        Some(s) => format!("{} {:?} {:?}", s.id.is_some(), s.identity(), s.permissions),
        None => "nobody".into(),
    }
}

executor!(blocking, [], StorageConnection, Connection, LowLevelConnection, KeyValue, PubSub, Subscriber, [], [.query()]);
executor!(nonblocking, [async], AsyncStorageConnection, AsyncConnection, AsyncLowLevelConnection, AsyncKeyValue, AsyncPubSub, AsyncSubscriber, [.await], []);
