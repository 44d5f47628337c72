//! C17: a restricted handle permits what its permissions allow, and nothing
//! else.
use std::borrow::Cow;

use bonsaidb_core::admin::{PermissionGroup, Role, User};
use bonsaidb_core::connection::{
    AccessPolicy, Authentication, AuthenticationMethod, Connection, IdentityReference, LowLevelConnection, SensitiveString, StorageConnection,
};
use bonsaidb_core::document::{DocumentId, Header};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::permissions::bonsai::{
    BonsaiAction, DatabaseAction, DocumentAction, KeyValueAction, PubSubAction, ServerAction, TransactionAction, ViewAction,
};
use bonsaidb_core::permissions::{Identifier, Permissions, ResourceName, Statement};
use bonsaidb_core::pubsub::{PubSub, Subscriber};
use bonsaidb_core::schema::{Collection, Schema, SerializedCollection};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::{Database, Storage};
use serde_json::json;

use super::world::{self, Basic, ByTag, ByV, Simple, World};
use crate::engine;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};


fn es<T: ToString>(e: T) -> String {
    e.to_string()
}

type Res = Vec<Identifier<'static>>;
type Need = (Res, BonsaiAction);

pub fn all_actions() -> Vec<BonsaiAction> {
    use BonsaiAction::{Database as D, Server as S};
    vec![
        S(ServerAction::Connect),
        S(ServerAction::ListAvailableSchemas),
        S(ServerAction::ListDatabases),
        S(ServerAction::CreateDatabase),
        S(ServerAction::DeleteDatabase),
        S(ServerAction::CreateUser),
        S(ServerAction::DeleteUser),
        S(ServerAction::SetPassword),
        S(ServerAction::Authenticate(AuthenticationMethod::Token)),
        S(ServerAction::Authenticate(AuthenticationMethod::PasswordHash)),
        S(ServerAction::AssumeIdentity),
        S(ServerAction::ModifyUserPermissionGroups),
        S(ServerAction::ModifyUserRoles),
        D(DatabaseAction::Compact),
        D(DatabaseAction::Document(DocumentAction::Get)),
        D(DatabaseAction::Document(DocumentAction::List)),
        D(DatabaseAction::Document(DocumentAction::ListHeaders)),
        D(DatabaseAction::Document(DocumentAction::Count)),
        D(DatabaseAction::Document(DocumentAction::Insert)),
        D(DatabaseAction::Document(DocumentAction::Update)),
        D(DatabaseAction::Document(DocumentAction::Overwrite)),
        D(DatabaseAction::Document(DocumentAction::Delete)),
        D(DatabaseAction::View(ViewAction::Query)),
        D(DatabaseAction::View(ViewAction::Reduce)),
        D(DatabaseAction::View(ViewAction::DeleteDocs)),
        D(DatabaseAction::Transaction(TransactionAction::ListExecuted)),
        D(DatabaseAction::Transaction(TransactionAction::GetLastId)),
        D(DatabaseAction::PubSub(PubSubAction::CreateSuscriber)),
        D(DatabaseAction::PubSub(PubSubAction::Publish)),
        D(DatabaseAction::PubSub(PubSubAction::SubscribeTo)),
        D(DatabaseAction::PubSub(PubSubAction::UnsubscribeFrom)),
        D(DatabaseAction::KeyValue(KeyValueAction::ExecuteOperation)),
    ]
}
fn same(a: &BonsaiAction, b: &BonsaiAction) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
fn name(r: &Res) -> ResourceName<'static> {
    let mut n = ResourceName::named(r[0].clone());
    for i in &r[1..] {
        n = n.and(i.clone());
    }
    n
}
fn grant(n: &[Need]) -> Vec<Statement> {
    n.iter().map(|(r, a)| Statement::for_resource(name(r)).allowing(a)).collect()
}

/// The fixture: databases "d" and "e", users "u" and "v", a group and a role.
pub struct Fx {
    s: Storage,
    db: Database,
    docs: Vec<Header>,
    basic: Vec<Header>,
    user: u64,
    group: u64,
    role: u64,
}
fn fixture() -> Fx {
    let (s, db) = world::world(true);
    let e = s.create_database::<World>("e", false).unwrap();
    Simple { v: 9 }.insert_into(&1, &e).unwrap();
    let docs = (1..=2u64).map(|i| { let d = Simple { v: i as u32 }.insert_into(&i, &db).unwrap(); bonsaidb_core::document::HasHeader::header(&d).unwrap() }).collect();
    let basic = (1..=2u64)
        .map(|i| {
            let d = Basic { v: 5, tags: vec![format!("t{i}")] }.insert_into(&i, &db).unwrap();
            bonsaidb_core::document::HasHeader::header(&d).unwrap()
        })
        .collect();
    db.set_numeric_key("k", 1_u64).execute().unwrap();
    db.with_key_namespace("n").set_numeric_key("k", 2_u64).execute().unwrap();
    // ids of users, groups and roles differ
    let _ = s.create_user("first").unwrap();
    let user = s.create_user("u").unwrap();
    let admin = s.admin();
    for n in ["g0", "g1", "g2"] {
        PermissionGroup { name: n.into(), statements: vec![] }.push_into(&admin).unwrap();
    }
    let group = PermissionGroup { name: "g".into(), statements: vec![] }.push_into(&admin).unwrap().header.id;
    for n in ["r0", "r1", "r2", "r3", "r4", "r5"] {
        Role::named(n).push_into(&admin).unwrap();
    }
    let role = Role::named("r").push_into(&admin).unwrap().header.id;
    Fx { s, db, docs, basic, user, group, role }
}
/// Everything observable, through unrestricted handles.
fn dump(f: &Fx) -> String {
    let mut out = String::new();
    for d in f.s.list_databases().unwrap() {
        out += &format!("{} ", d.name);
    }
    let mut words: Vec<_> = out.split(' ').collect();
    words.sort_unstable();
    let mut out = words.join(" ");
    for n in ["d", "e"] {
        let Ok(db) = f.s.database::<World>(n) else { continue };
        out += &format!(
            "{:?} {:?} {:?} {:?} {:?}",
            Simple::all(&db).query().unwrap().iter().map(|d| (d.header.id, d.header.revision.id, d.contents.v)).collect::<Vec<_>>(),
            Basic::all(&db).query().unwrap().iter().map(|d| (d.header.id, d.contents.clone())).collect::<Vec<_>>(),
            db.get_key("k").into_u64().unwrap(),
            db.with_key_namespace("n").get_key("k").into_u64().unwrap(),
            Connection::list_executed_transactions(&db, None, None).unwrap().iter().filter_map(|t| t.changes.documents().map(|d| d.documents.len())).collect::<Vec<_>>(),
        );
    }
    let admin = f.s.admin();
    for u in User::all(&admin).query().unwrap() {
        out += &format!("{} {} {:?} {:?} {} ", u.header.id, u.contents.username, u.contents.groups, u.contents.roles, u.contents.argon_hash.is_some());
    }
    out
}

pub struct Op {
    name: &'static str,
    /// performed on the storage
    storage: bool,
    needs: fn(&Fx) -> Vec<Need>,
    run: fn(&Fx, &Storage, &Database) -> Result<(), Error>,
}

fn res(parts: &[&'static str]) -> Res {
    let mut v = vec![Identifier::String(Cow::Borrowed("bonsaidb"))];
    v.extend(parts.iter().map(|p| Identifier::String(Cow::Borrowed(*p))));
    v
}
fn doc(coll: &'static str, id: u64) -> Res {
    let mut r = res(&["d", coll, "document"]);
    r.push(Identifier::from(DocumentId::new(&id).unwrap()).to_owned());
    r
}
fn topic(t: &'static [u8]) -> Res {
    let mut r = res(&["d", "pubsub"]);
    r.push(Identifier::Bytes(Cow::Borrowed(t)));
    r
}
fn id(what: &'static str, id: u64) -> Res {
    let mut r = res(&[what]);
    r.push(Identifier::Integer(id));
    r
}
fn dact(a: DocumentAction) -> BonsaiAction {
    BonsaiAction::Database(DatabaseAction::Document(a))
}
fn vact(a: ViewAction) -> BonsaiAction {
    BonsaiAction::Database(DatabaseAction::View(a))
}
fn pact(a: PubSubAction) -> BonsaiAction {
    BonsaiAction::Database(DatabaseAction::PubSub(a))
}
fn kact() -> BonsaiAction {
    BonsaiAction::Database(DatabaseAction::KeyValue(KeyValueAction::ExecuteOperation))
}
fn sact(a: ServerAction) -> BonsaiAction {
    BonsaiAction::Server(a)
}
fn pw(s: &str) -> SensitiveString {
    SensitiveString(s.to_string())
}

macro_rules! op {
    ($name:literal, $needs:expr, $run:expr) => {
        Op { name: $name, storage: false, needs: $needs, run: $run }
    };
    (storage $name:literal, $needs:expr, $run:expr) => {
        Op { name: $name, storage: true, needs: $needs, run: $run }
    };
}

pub fn ops() -> Vec<Op> {
    use DocumentAction as D;
    vec![
        op!("insert", |_| vec![(res(&["d", "private.simple"]), dact(D::Insert))], |_, _, db| Simple { v: 7 }.insert_into(&7, db).map(drop).map_err(|e| e.error)),
        op!("push", |_| vec![(res(&["d", "private.basic"]), dact(D::Insert))], |_, _, db| Basic::new(7).push_into(db).map(drop).map_err(|e| e.error)),
        op!("update", |_| vec![(doc("private.simple", 1), dact(D::Update))], |f, _, db| {
            db.apply_transaction({
                let mut t = Transaction::new();
                t.push(Operation::update(Simple::collection_name(), f.docs[0].clone(), world::pot(&Simple { v: 8 })));
                t
            }).map(drop)
        }),
        op!("overwrite", |_| vec![(doc("private.simple", 1), dact(D::Overwrite))], |_, _, db| Simple { v: 8 }.overwrite_into(&1, db).map(drop).map_err(|e| e.error)),
        op!("delete", |_| vec![(doc("private.simple", 2), dact(D::Delete))], |f, _, db| db.collection::<Simple>().delete(&f.docs[1])),
        op!("check", |_| vec![(doc("private.simple", 2), dact(D::Get))], |_, _, db| {
            let mut t = Transaction::new();
            t.push(Operation::check_document_exists::<Simple>(&2).unwrap());
            db.apply_transaction(t).map(drop)
        }),
        op!("transaction", |_| vec![(res(&["d", "private.simple"]), dact(D::Insert)), (doc("private.simple", 1), dact(D::Delete)), (doc("private.basic", 2), dact(D::Overwrite))], |f, _, db| {
            let mut t = Transaction::new();
            t.push(Operation::insert(Simple::collection_name(), Some(DocumentId::new(&7u64).unwrap()), world::pot(&Simple { v: 8 })));
            t.push(Operation::delete(Simple::collection_name(), f.docs[0].clone()));
            t.push(Operation::overwrite(Basic::collection_name(), DocumentId::new(&2u64).unwrap(), world::pot(&Basic::new(3))));
            db.apply_transaction(t).map(drop)
        }),
        op!("a transaction of two inserts", |_| vec![(res(&["d", "private.simple"]), dact(D::Insert)), (res(&["d", "private.basic"]), dact(D::Insert))], |_, _, db| {
            let mut t = Transaction::new();
            t.push(Operation::insert(Simple::collection_name(), Some(DocumentId::new(&7u64).unwrap()), world::pot(&Simple { v: 8 })));
            t.push(Operation::insert(Basic::collection_name(), Some(DocumentId::new(&7u64).unwrap()), world::pot(&Basic::new(3))));
            db.apply_transaction(t).map(drop)
        }),
        op!("a transaction of two updates", |_| vec![(doc("private.simple", 1), dact(D::Update)), (doc("private.simple", 2), dact(D::Update))], |f, _, db| {
            let mut t = Transaction::new();
            for d in &f.docs[..2] {
                t.push(Operation::update(Simple::collection_name(), d.clone(), world::pot(&Simple { v: 8 })));
            }
            db.apply_transaction(t).map(drop)
        }),
        op!("a transaction of two overwrites", |_| vec![(doc("private.basic", 1), dact(D::Overwrite)), (doc("private.basic", 2), dact(D::Overwrite))], |_, _, db| {
            let mut t = Transaction::new();
            for i in 1..=2u64 {
                t.push(Operation::overwrite(Basic::collection_name(), DocumentId::new(&i).unwrap(), world::pot(&Basic::new(3))));
            }
            db.apply_transaction(t).map(drop)
        }),
        op!("a transaction of two deletions", |_| vec![(doc("private.simple", 1), dact(D::Delete)), (doc("private.simple", 2), dact(D::Delete))], |f, _, db| {
            let mut t = Transaction::new();
            for d in &f.docs[..2] {
                t.push(Operation::delete(Simple::collection_name(), d.clone()));
            }
            db.apply_transaction(t).map(drop)
        }),
        op!("a transaction of two checks", |_| vec![(doc("private.simple", 2), dact(D::Get)), (doc("private.basic", 1), dact(D::Get))], |_, _, db| {
            let mut t = Transaction::new();
            t.push(Operation::check_document_exists::<Simple>(&2).unwrap());
            t.push(Operation::check_document_exists::<Basic>(&1).unwrap());
            db.apply_transaction(t).map(drop)
        }),
        op!("delete_docs of two", |_| vec![(res(&["d", "private.basic", "view", "by-v"]), vact(ViewAction::DeleteDocs)), (doc("private.basic", 1), dact(D::Delete)), (doc("private.basic", 2), dact(D::Delete))], |_, _, db| db.view::<ByV>().delete_docs().map(|d| assert_eq!(d, 2))),
        op!("get", |_| vec![(doc("private.simple", 1), dact(D::Get))], |_, _, db| Simple::get(&1, db).map(|d| assert_eq!(d.unwrap().contents.v, 1))),
        op!("get (raw)", |_| vec![(doc("private.basic", 2), dact(D::Get))], |_, _, db| db.collection::<Basic>().get(&2).map(|d| assert!(d.is_some()))),
        op!("get of a missing document", |_| vec![(doc("private.simple", 99), dact(D::Get))], |_, _, db| Simple::get(&99, db).map(|d| assert!(d.is_none()))),
        op!("get_multiple", |_| vec![(doc("private.simple", 1), dact(D::Get)), (doc("private.simple", 2), dact(D::Get)), (doc("private.simple", 99), dact(D::Get))], |_, _, db| Simple::get_multiple(&[1, 2, 99], db).map(|d| assert_eq!(d.len(), 2))),
        op!("list", |_| vec![(res(&["d", "private.simple"]), dact(D::List))], |_, _, db| Simple::all(db).query().map(|d| assert_eq!(d.len(), 2))),
        op!("list a range", |_| vec![(res(&["d", "private.simple"]), dact(D::List))], |_, _, db| Simple::list(1..2, db).descending().limit(1).query().map(|d| assert_eq!(d.len(), 1))),
        op!("list headers", |_| vec![(res(&["d", "private.simple"]), dact(D::ListHeaders))], |_, _, db| Simple::all(db).headers().map(|d| assert_eq!(d.len(), 2))),
        op!("count", |_| vec![(res(&["d", "private.simple"]), dact(D::Count))], |_, _, db| Simple::all(db).count().map(|d| assert_eq!(d, 2))),
        op!("query", |_| vec![(res(&["d", "private.basic", "view", "by-v"]), vact(ViewAction::Query))], |_, _, db| db.view::<ByV>().query().map(|d| assert_eq!(d.len(), 2))),
        op!("query without update", |_| vec![(res(&["d", "private.basic", "view", "by-tag"]), vact(ViewAction::Query))], |_, _, db| db.view::<ByTag>().with_access_policy(AccessPolicy::NoUpdate).query().map(drop)),
        op!("query_with_docs", |_| vec![(res(&["d", "private.basic", "view", "by-v"]), vact(ViewAction::Query)), (doc("private.basic", 1), dact(D::Get)), (doc("private.basic", 2), dact(D::Get))], |_, _, db| db.view::<ByV>().query_with_docs().map(|d| assert_eq!(d.documents.len(), 2))),
        op!("query_with_collection_docs", |_| vec![(res(&["d", "private.basic", "view", "by-tag"]), vact(ViewAction::Query)), (doc("private.basic", 1), dact(D::Get))], |_, _, db| db.view::<ByTag>().with_key("t1").query_with_collection_docs().map(|d| assert_eq!(d.documents.len(), 1))),
        op!("reduce", |_| vec![(res(&["d", "private.basic", "view", "by-v"]), vact(ViewAction::Reduce))], |_, _, db| db.view::<ByV>().reduce().map(|d| assert_eq!(d, 10))),
        op!("reduce_grouped", |_| vec![(res(&["d", "private.basic", "view", "by-tag"]), vact(ViewAction::Reduce))], |_, _, db| db.view::<ByTag>().reduce_grouped().map(|d| assert_eq!(d.len(), 2))),
        op!("delete_docs", |_| vec![(res(&["d", "private.basic", "view", "by-tag"]), vact(ViewAction::DeleteDocs)), (doc("private.basic", 2), dact(D::Delete))], |_, _, db| db.view::<ByTag>().with_key("t2").delete_docs().map(|d| assert_eq!(d, 1))),
        op!("list_executed_transactions", |_| vec![(res(&["d"]), BonsaiAction::Database(DatabaseAction::Transaction(TransactionAction::ListExecuted)))], |_, _, db| Connection::list_executed_transactions(db, None, None).map(drop)),
        op!("last_transaction_id", |_| vec![(res(&["d"]), BonsaiAction::Database(DatabaseAction::Transaction(TransactionAction::GetLastId)))], |_, _, db| Connection::last_transaction_id(db).map(drop)),
        op!("compact", |_| vec![(res(&["d"]), BonsaiAction::Database(DatabaseAction::Compact))], |_, _, db| Connection::compact(db)),
        op!("compact_collection", |_| vec![(res(&["d", "private.simple"]), BonsaiAction::Database(DatabaseAction::Compact))], |_, _, db| Connection::compact_collection::<Simple>(db)),
        op!("compact_key_value_store", |_| vec![(res(&["d", "keyvalue"]), BonsaiAction::Database(DatabaseAction::Compact))], |_, _, db| Connection::compact_key_value_store(db)),
        op!("get_key", |_| vec![(res(&["d", "keyvalue", "", "k"]), kact())], |_, _, db| db.get_key("k").into_u64().map(|v| assert_eq!(v, Some(1)))),
        op!("get_key in a namespace", |_| vec![(res(&["d", "keyvalue", "n", "k"]), kact())], |_, _, db| db.with_key_namespace("n").get_key("k").into_u64().map(|v| assert_eq!(v, Some(2)))),
        op!("set_key", |_| vec![(res(&["d", "keyvalue", "", "k"]), kact())], |_, _, db| db.set_numeric_key("k", 5_u64).execute().map(drop)),
        op!("delete_key", |_| vec![(res(&["d", "keyvalue", "n", "k"]), kact())], |_, _, db| db.with_key_namespace("n").delete_key("k").map(drop)),
        op!("increment_key", |_| vec![(res(&["d", "keyvalue", "", "k"]), kact())], |_, _, db| db.increment_key_by("k", 5_u64).execute().map(drop)),
        op!("publish", |_| vec![(topic(b"\x03top"), pact(PubSubAction::Publish))], |_, _, db| db.publish_bytes(b"\x03top".to_vec(), vec![1])),
        op!("publish to all", |_| vec![(topic(b"a"), pact(PubSubAction::Publish)), (topic(b"b"), pact(PubSubAction::Publish))], |_, _, db| db.publish_bytes_to_all([b"a".to_vec(), b"b".to_vec()], vec![1])),
        op!("create_subscriber", |_| vec![(res(&["d"]), pact(PubSubAction::CreateSuscriber))], |_, _, db| db.create_subscriber().map(drop)),
        op!("subscribe", |_| vec![(res(&["d"]), pact(PubSubAction::CreateSuscriber)), (topic(b"a"), pact(PubSubAction::SubscribeTo))], |_, _, db| db.create_subscriber()?.subscribe_to_bytes(b"a".to_vec())),
        op!("unsubscribe", |_| vec![(res(&["d"]), pact(PubSubAction::CreateSuscriber)), (topic(b"a"), pact(PubSubAction::SubscribeTo)), (topic(b"a"), pact(PubSubAction::UnsubscribeFrom))], |_, _, db| {
            let s = db.create_subscriber()?;
            s.subscribe_to_bytes(b"a".to_vec())?;
            s.unsubscribe_from_bytes(b"a")
        }),
        op!(storage "create_database", |_| vec![(res(&["new"]), sact(ServerAction::CreateDatabase))], |_, s, _| s.create_database::<World>("new", false).map(drop)),
        op!(storage "create_database if needed", |_| vec![(res(&["d"]), sact(ServerAction::CreateDatabase))], |_, s, _| s.create_database_with_schema("d", World::schema_name(), true)),
        op!(storage "delete_database", |_| vec![(res(&["e"]), sact(ServerAction::DeleteDatabase))], |_, s, _| s.delete_database("e")),
        op!(storage "list_databases", |_| vec![(res(&[]), sact(ServerAction::ListDatabases))], |_, s, _| s.list_databases().map(|d| assert_eq!(d.len(), 3))),
        op!(storage "list_available_schemas", |_| vec![(res(&[]), sact(ServerAction::ListAvailableSchemas))], |_, s, _| s.list_available_schemas().map(|d| assert_eq!(d.len(), 2))),
        op!(storage "create_user", |_| vec![(res(&[]), sact(ServerAction::CreateUser))], |_, s, _| s.create_user("new").map(drop)),
        op!(storage "delete_user", |f| vec![(id("user", f.user), sact(ServerAction::DeleteUser))], |_, s, _| s.delete_user("u")),
        op!(storage "delete_user by id", |f| vec![(id("user", f.user), sact(ServerAction::DeleteUser))], |f, s, _| s.delete_user(f.user)),
        op!(storage "set_user_password", |f| vec![(id("user", f.user), sact(ServerAction::SetPassword))], |_, s, _| s.set_user_password("u", pw("x"))),
        op!(storage "authenticate", |f| vec![(id("user", f.user), sact(ServerAction::Authenticate(AuthenticationMethod::PasswordHash)))], |f, s, _| {
            f.s.set_user_password("u", pw("x")).unwrap();
            let r = s.authenticate(Authentication::Password { user: "u".into(), password: pw("x") }).map(drop);
            let mut u = User::get(&f.user, &f.s.admin()).unwrap().unwrap();
            u.contents.argon_hash = None;
            u.update(&f.s.admin()).unwrap();
            r
        }),
        op!(storage "list users of the admin database", |_| vec![(res(&["_admin", "khonsulabs.user"]), dact(DocumentAction::List))], |_, s, _| User::all(&s.admin()).query().map(drop)),
        op!(storage "push a role into the admin database", |_| vec![(res(&["_admin", "khonsulabs.role"]), dact(DocumentAction::Insert))], |_, s, _| Role::named("new").push_into(&s.admin()).map(drop).map_err(|e| e.error)),
        op!(storage "get a key of the admin database", |_| vec![(res(&["_admin", "keyvalue", "", "k"]), kact())], |_, s, _| s.admin().get_key("k").into_u64().map(drop)),
        op!(storage "last_transaction_id of the admin database", |_| vec![(res(&["_admin"]), BonsaiAction::Database(DatabaseAction::Transaction(TransactionAction::GetLastId)))], |_, s, _| s.admin().last_transaction_id().map(drop)),
        op!(storage "assume a user", |f| vec![(id("user", f.user), sact(ServerAction::AssumeIdentity))], |_, s, _| User::assume_identity("u", s).map(drop)),
        op!(storage "assume a role", |f| vec![(id("role", f.role), sact(ServerAction::AssumeIdentity))], |_, s, _| Role::assume_identity("r", s).map(drop)),
        op!(storage "add_permission_group_to_user", |f| vec![(id("user", f.user), sact(ServerAction::ModifyUserPermissionGroups))], |_, s, _| s.add_permission_group_to_user("u", "g")),
        op!(storage "remove_permission_group_from_user", |f| vec![(id("user", f.user), sact(ServerAction::ModifyUserPermissionGroups))], |f, s, _| {
            // (adds it first, as it would otherwise change nothing)
            f.s.add_permission_group_to_user(f.user, f.group).unwrap();
            let r = s.remove_permission_group_from_user(f.user, f.group);
            let n = User::get(&f.user, &f.s.admin()).unwrap().unwrap().contents.groups.len();
            assert_eq!(n, usize::from(r.is_err()));
            f.s.remove_permission_group_from_user(f.user, f.group).unwrap();
            r
        }),
        op!(storage "add_role_to_user", |f| vec![(id("user", f.user), sact(ServerAction::ModifyUserRoles))], |_, s, _| s.add_role_to_user("u", "r")),
        op!(storage "remove_role_from_user", |f| vec![(id("user", f.user), sact(ServerAction::ModifyUserRoles))], |f, s, _| {
            f.s.add_role_to_user(f.user, f.role).unwrap();
            let r = s.remove_role_from_user("u", "r");
            let n = User::get(&f.user, &f.s.admin()).unwrap().unwrap().contents.roles.len();
            assert_eq!(n, usize::from(r.is_err()));
            f.s.remove_role_from_user(f.user, f.role).unwrap();
            r
        }),
    ]
}

/// Every permission set to try: what it is, its statements, and whether it
/// suffices.
fn sets(needs: &[Need]) -> Vec<(String, Vec<Statement>, bool)> {
    let other = || Identifier::String(Cow::Borrowed("zzz"));
    let mut v = vec![
        ("nothing".to_string(), vec![], false),
        ("everything".into(), vec![Statement::allow_all_for_any_resource()], true),
        ("exactly what is needed".into(), grant(needs), true),
        ("everything below bonsaidb".into(), vec![Statement::for_resource(name(&res(&[]))).allowing_all()], true),
    ];
    for (i, (r, a)) in needs.iter().enumerate() {
        let but = |n: Vec<Need>| {
            let mut m: Vec<Need> = needs.to_vec();
            m.remove(i);
            m.extend(n);
            grant(&m)
        };
        // the same action may be needed twice, on the same or a wider resource
        let covers = |w: &Res, n: &[Need]| n.iter().enumerate().any(|(j, m)| j != i && same(&m.1, a) && &m.0 == w);
        v.push((format!("all but {a:?} on {r:?}"), but(vec![]), covers(r, needs)));
        let others: Vec<Statement> = all_actions().iter().filter(|x| !same(x, a)).map(|x| Statement::for_any().allowing(x)).collect();
        v.push((format!("every action but {a:?}"), others, false));
        for x in all_actions() {
            if !same(&x, a) {
                v.push((format!("{x:?} in place of {a:?} on {r:?}"), but(vec![(r.clone(), x)]), false));
            }
        }
        for k in 0..r.len() {
            let mut w = r.clone();
            w[k] = other();
            v.push((format!("{a:?} on {w:?}"), but(vec![(w, *a)]), false));
            let mut w = r.clone();
            w[k] = Identifier::Any;
            v.push((format!("{a:?} on {w:?}"), but(vec![(w, *a)]), true));
            if k > 0 {
                v.push((format!("{a:?} on {:?}", &r[..k]), but(vec![(r[..k].to_vec(), *a)]), true));
            }
        }
        let mut w = r.clone();
        w.push(other());
        v.push((format!("{a:?} on {w:?}"), but(vec![(w, *a)]), false));
        let mut w = r.clone();
        w.push(Identifier::Any);
        v.push((format!("{a:?} on {w:?}"), but(vec![(w, *a)]), false));
    }
    v
}

const ROUTES: [&str; 6] = [
    "Database::with_effective_permissions",
    "Storage::with_effective_permissions",
    "a user in a group",
    "a user with a role",
    "a role",
    "a password",
];

fn one(o: &Op, route: usize, what: &str, st: &[Statement], ok: bool, acc: &mut Acc) -> Result<(), String> {
    let f = fixture();
    let perms = Permissions::from(st.to_vec());
    let admin = f.s.admin();
    let group = || -> u64 { PermissionGroup { name: "granted".into(), statements: st.to_vec() }.push_into(&admin).unwrap().header.id };
    let storage = match route {
        0 | 1 => f.s.with_effective_permissions(perms.clone()).unwrap(),
        2 | 5 => {
            let g = group();
            let u = f.s.create_user("me").unwrap();
            f.s.add_permission_group_to_user(u, g).unwrap();
            if route == 2 {
                f.s.assume_identity(IdentityReference::user(u).unwrap()).unwrap()
            } else {
                f.s.set_user_password(u, pw("secret")).unwrap();
                f.s.authenticate(Authentication::Password { user: "me".into(), password: pw("secret") }).unwrap()
            }
        }
        3 => {
            let g = group();
            let r = Role::named("mine").with_group_ids([g]).push_into(&admin).unwrap().header.id;
            let u = f.s.create_user("me").unwrap();
            f.s.add_role_to_user(u, r).unwrap();
            User::assume_identity("me", &f.s).unwrap()
        }
        4 => {
            let g = group();
            let _r = Role::named("mine").with_group_ids([g]).push_into(&admin).unwrap();
            Role::assume_identity("mine", &f.s).unwrap()
        }
        _ => f.s.with_effective_permissions(perms.clone()).unwrap(),
    };
    let db = if route == 0 {
        f.db.with_effective_permissions(perms).unwrap()
    } else {
        storage.database::<World>("d").map_err(es)?
    };
    // (views are up to date either way)
    let _ = f.db.view::<ByV>().query().map_err(es)?;
    let _ = f.db.view::<ByTag>().query().map_err(es)?;
    let before = dump(&f);
    let r = match engine::no_panic(|| (o.run)(&f, &storage, &db)) {
        Ok(r) => r,
        Err(e) => return Err(format!("{} with {what} panicked: {e}", o.name)),
    };
    acc.count("operations", 1);
    acc.outcome(&(o.name, r.is_ok(), ok));
    match (&r, ok) {
        (Ok(()), true) => Ok(()),
        (Err(Error::PermissionDenied(_)), false) => {
            let after = dump(&f);
            if before == after {
                Ok(())
            } else {
                Err(format!("{} with {what} is denied, but changes {before} to {after}", o.name))
            }
        }
        (r, ok) => Err(format!("{} with {what}, which {} answers {r:?} ({})", o.name, if ok { "suffices," } else { "does not suffice," }, ROUTES[route])),
    }
}

fn job17(i: usize, part: usize, parts: usize, deep: bool, acc: &mut Acc) {
    let o = &ops()[i];
    let needs = (o.needs)(&fixture());
    for (k, (what, st, ok)) in sets(&needs).into_iter().enumerate() {
        // every set by the two direct routes, some of them by each of the others
        for route in 0..6 {
            if route == 0 && o.storage || !deep && route > 1 && k > 2 + 2 * needs.len() && k % 5 != route {
                continue;
            }
            if (k + route) % parts != part {
                continue;
            }
            acc.at(&format!("{} with {what} by {}", o.name, ROUTES[route]));
            if let Err(e) = one(o, route, &what, &st, ok, acc) {
                acc.bad(crate::report::short(&e, 400), json!({"operation": o.name, "permissions": what, "route": ROUTES[route]}));
            }
        }
    }
}

pub fn run() -> i32 {
    let mut r = Report::new("C17", "model_checking");
    let n = ops().len();
    let deep = r.thorough();
    let parts = if deep { 4 } else { 1 };
    let jobs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..parts).map(move |p| (i, p))).collect();
    seq::run(&mut r, Mode::Free, jobs, |(i, p), a| job17(*i, *p, parts, deep, a));
    r.finish()
}
