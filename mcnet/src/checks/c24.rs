//! C24: a remote connection behaves like a local one. C27: the asynchronous
//! interface behaves like the blocking one.
use std::time::Duration;

use bonsaidb_client::{AsyncClient, BlockingClient};
use bonsaidb_core::connection::AsyncStorageConnection;
use bonsaidb_core::connection::AuthenticationMethod;
use bonsaidb_core::permissions::bonsai::{
    BonsaiAction, DatabaseAction, DocumentAction, KeyValueAction, PubSubAction, ServerAction, TransactionAction, ViewAction,
};
use bonsaidb_core::permissions::{Permissions, Statement};
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{AsyncStorage, Storage};
use bonsaidb_server::{DefaultPermissions, Server, ServerConfiguration};
use serde_json::json;
use tokio::runtime::Runtime;
use url::Url;

use super::world;
use crate::engine;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};
use crate::twins::{blocking, nonblocking, Net, Op};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Async,
    Handle,
    WsBlocking,
    WsAsync,
    Quic,
    QuicBlocking,
}
impl T {
    fn remote(self) -> bool {
        !matches!(self, T::Async | T::Handle)
    }
}

pub fn config() -> StorageConfiguration {
    let mut c = world::config(true).with_schema::<Net>().unwrap();
    c.authenticated_permissions = Permissions::from(vec![Statement::for_any().allowing_all()]);
    c
}

/// A server that listens, and what connects to it.
pub struct Net2 {
    pub rt: Runtime,
    pub server: Server,
    pub url: Url,
    pub cert: Option<bonsaidb_client::fabruic::Certificate>,
}
impl Net2 {
    pub fn new(quic: bool, anyone: Permissions) -> Result<Self, String> {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().map_err(es)?;
        let mut c = ServerConfiguration::new("unused");
        c.storage = config();
        c.request_workers = 2;
        let c = c.default_permissions(DefaultPermissions::Permissions(anyone)).server_name("localhost");
        let (server, url, cert) = rt.block_on(async {
            let server = Server::open(c).await.map_err(es)?;
            let mut cert = None;
            if quic {
                server.install_self_signed_certificate(true).await.map_err(es)?;
                cert = Some(server.certificate_chain().await.map_err(es)?.into_end_entity_certificate());
            }
            for _ in 0..20 {
                let port = if quic {
                    std::net::UdpSocket::bind("127.0.0.1:0").map_err(es)?.local_addr().map_err(es)?.port()
                } else {
                    std::net::TcpListener::bind("127.0.0.1:0").map_err(es)?.local_addr().map_err(es)?.port()
                };
                let s = server.clone();
                let mut task = tokio::spawn(async move {
                    if quic {
                        s.listen_on(bonsaidb_server::BonsaiListenConfig::default().port(port)).await.map_err(es)
                    } else {
                        s.listen_for_websockets_on(("127.0.0.1", port), false).await.map_err(es)
                    }
                });
                loop {
                    if tokio::time::timeout(Duration::from_millis(2), &mut task).await.is_ok() {
                        break;
                    }
                    if quic || std::net::TcpStream::connect(("127.0.0.1", port)).is_ok() {
                        let url = if quic { format!("bonsaidb://localhost:{port}") } else { format!("ws://127.0.0.1:{port}") };
                        return Ok((server, Url::parse(&url).map_err(es)?, cert));
                    }
                }
            }
            Err("no port to listen on".to_string())
        })?;
        Ok(Net2 { rt, server, url, cert })
    }
    pub fn client(&self) -> Result<AsyncClient, String> {
        let _g = self.rt.enter();
        let mut b = AsyncClient::build(self.url.clone());
        if let Some(c) = &self.cert {
            b = b.with_certificate(c.clone());
        }
        b.build().map_err(es)
    }
    pub fn blocking(&self) -> Result<BlockingClient, String> {
        let mut b = BlockingClient::build(self.url.clone());
        if let Some(c) = &self.cert {
            b = b.with_certificate(c.clone());
        }
        b.build().map_err(es)
    }
}

/// The answers of a sequence, and what subscribers received in the end.
fn blocking_run<S>(s: &S, name: &str, seq: &[Op]) -> Vec<String>
where
    S: bonsaidb_core::connection::StorageConnection<Authenticated = S> + Clone + bonsaidb_core::connection::HasSession,
    S::Database: bonsaidb_core::connection::Connection + bonsaidb_core::keyvalue::KeyValue + bonsaidb_core::pubsub::PubSub,
{
    let mut st = match blocking::start(s, name) {
        Ok(s) => s,
        Err(e) => return vec![e],
    };
    let mut out: Vec<String> = seq.iter().map(|o| blocking::act(&mut st, *o)).collect();
    out.extend(blocking::received(&mut st));
    out
}
pub async fn async_run<S>(s: &S, name: &str, seq: &[Op]) -> Vec<String>
where
    S: AsyncStorageConnection<Authenticated = S> + Clone + bonsaidb_core::connection::HasSession,
    S::Database: bonsaidb_core::connection::AsyncConnection + bonsaidb_core::keyvalue::AsyncKeyValue + bonsaidb_core::pubsub::AsyncPubSub,
{
    let mut st = match nonblocking::start(s, name).await {
        Ok(s) => s,
        Err(e) => return vec![e],
    };
    let mut out = vec![];
    for o in seq {
        out.push(nonblocking::act(&mut st, *o).await);
    }
    out.extend(nonblocking::received(&mut st).await);
    out
}

/// As above, with the operations of two connections.
fn blocking_two<S>(a: &S, b: &S, name: &str, seq: &[(bool, Op)]) -> Vec<String>
where
    S: bonsaidb_core::connection::StorageConnection<Authenticated = S> + Clone + bonsaidb_core::connection::HasSession,
    S::Database: bonsaidb_core::connection::Connection + bonsaidb_core::keyvalue::KeyValue + bonsaidb_core::pubsub::PubSub,
{
    let (mut x, mut y) = match blocking::start(a, name).and_then(|x| Ok((x, blocking::handle(b, name)?))) {
        Ok(s) => s,
        Err(e) => return vec![e],
    };
    let mut out: Vec<String> = seq.iter().map(|(second, o)| blocking::act(if *second { &mut y } else { &mut x }, *o)).collect();
    out.extend(blocking::received(&mut x));
    out.extend(blocking::received(&mut y));
    out
}
async fn async_two<S>(a: &S, b: &S, name: &str, seq: &[(bool, Op)]) -> Vec<String>
where
    S: AsyncStorageConnection<Authenticated = S> + Clone + bonsaidb_core::connection::HasSession,
    S::Database: bonsaidb_core::connection::AsyncConnection + bonsaidb_core::keyvalue::AsyncKeyValue + bonsaidb_core::pubsub::AsyncPubSub,
{
    let mut x = match nonblocking::start(a, name).await {
        Ok(s) => s,
        Err(e) => return vec![e],
    };
    let mut y = match nonblocking::handle(b, name).await {
        Ok(s) => s,
        Err(e) => return vec![e],
    };
    let mut out = vec![];
    for (second, o) in seq {
        out.push(nonblocking::act(if *second { &mut y } else { &mut x }, *o).await);
    }
    out.extend(nonblocking::received(&mut x).await);
    out.extend(nonblocking::received(&mut y).await);
    out
}
/// Operations of a handle that may do no more than its permissions say. What
/// it works on is prepared by an unrestricted one.
fn blocking_part<S>(all: &Storage, s: &S, name: &str, seq: &[Op]) -> Vec<String>
where
    S: bonsaidb_core::connection::StorageConnection<Authenticated = S> + Clone + bonsaidb_core::connection::HasSession,
    S::Database: bonsaidb_core::connection::Connection + bonsaidb_core::keyvalue::KeyValue + bonsaidb_core::pubsub::PubSub,
{
    let before = blocking_run(all, name, PREPARED);
    prepared(&before);
    part(s, name, seq)
}
fn part<S>(s: &S, name: &str, seq: &[Op]) -> Vec<String>
where
    S: bonsaidb_core::connection::StorageConnection<Authenticated = S> + Clone + bonsaidb_core::connection::HasSession,
    S::Database: bonsaidb_core::connection::Connection + bonsaidb_core::keyvalue::KeyValue + bonsaidb_core::pubsub::PubSub,
{
    match blocking::handle(s, name) {
        Ok(mut st) => seq.iter().map(|o| blocking::act(&mut st, *o)).collect(),
        Err(e) => vec![e],
    }
}
pub async fn async_part<S>(s: &S, name: &str, seq: &[Op]) -> Vec<String>
where
    S: AsyncStorageConnection<Authenticated = S> + Clone + bonsaidb_core::connection::HasSession,
    S::Database: bonsaidb_core::connection::AsyncConnection + bonsaidb_core::keyvalue::AsyncKeyValue + bonsaidb_core::pubsub::AsyncPubSub,
{
    let mut st = match nonblocking::handle(s, name).await {
        Ok(s) => s,
        Err(e) => return vec![e],
    };
    let mut out = vec![];
    for o in seq {
        out.push(nonblocking::act(&mut st, *o).await);
    }
    out
}
pub fn prepared(a: &[String]) {
    assert!(a.iter().all(|a| !a.starts_with("error")), "{a:?}");
}

#[derive(Debug)]
enum J {
    Seq(Seqs),
    /// the operations of two connections
    Two { t: T, vocab: &'static [Op], first: (bool, Op), depth: usize },
    /// what an unauthenticated user may do
    Perm { t: T, number: usize },
}
#[derive(Debug)]
struct Seqs {
    t: T,
    /// what has happened before
    before: &'static [Op],
    vocab: &'static [Op],
    first: Op,
    depth: usize,
    /// every sequence has storages of its own
    fresh: bool,
}

const SEED: &[Op] = &[Op::Put(1), Op::Put(2), Op::Put(3), Op::Uniq(1, "a"), Op::Sub, Op::SubTo(1)];
const ACCOUNTS: &[Op] = &[Op::Groups, Op::AddUser(0), Op::Password(0)];

pub const PREPARED: &[Op] = &[Op::Put(1), Op::Put(2), Op::Put(3), Op::Uniq(1, "a"), Op::Kv(1), Op::Kv(12), Op::Groups, Op::AddUser(0), Op::AddUser(2), Op::Password(0), Op::Join(false, 0), Op::Join(true, 0)];

const WRITES: &[Op] = &[
    Op::Push, Op::Insert(1), Op::Put(1), Op::Update(1), Op::Stale(2), Op::Delete(2), Op::DeleteStale(1), Op::Text("x"), Op::Uniq(1, "b"), Op::Uniq(2, "a"), Op::Tx(0), Op::Tx(1), Op::Tx(2),
    Op::Tx(3), Op::Tx(4), Op::Tx(5), Op::DeleteDocs(1), Op::DeleteDocs(2), Op::DeleteDocs(7), Op::Compact(0), Op::Compact(1), Op::Compact(2),
];
const READS: &[Op] = &[
    Op::Get(1), Op::Get(9), Op::GetMany, Op::List(0), Op::List(1), Op::List(2), Op::List(3), Op::List(4), Op::List(5), Op::Headers(0), Op::Headers(1), Op::Headers(3), Op::Count(0), Op::Count(2),
    Op::Count(5), Op::Query(0), Op::Query(1), Op::Query(2), Op::Query(3), Op::Query(4), Op::Query(5), Op::Query(7), Op::Query(8), Op::Query(9), Op::Docs(0), Op::Docs(1), Op::Docs(3), Op::Docs(7),
    Op::Docs(8), Op::Reduce(0), Op::Reduce(1), Op::Reduce(2), Op::Reduce(3), Op::Reduce(6), Op::Reduce(7), Op::Reduce(8), Op::Reduce(20), Op::Reduce(21), Op::Reduce(22), Op::Reduce(23),
    Op::Behind(0), Op::Behind(1), Op::Behind(2), Op::Behind(3), Op::Behind(4), Op::Behind(10), Op::Behind(11), Op::Behind(12), Op::Behind(13), Op::Behind(14), Op::BadView(0), Op::BadView(1), Op::BadView(2), Op::BadView(3), Op::BadView(4), Op::BadColl(0), Op::BadColl(1), Op::BadColl(2), Op::BadColl(3), Op::BadColl(4), Op::BadColl(5), Op::BadColl(6),
    Op::Log(0), Op::Log(1), Op::Log(2), Op::Log(3), Op::Log(4),
];
const KEYS: &[Op] = &[
    Op::Kv(0), Op::Kv(1), Op::Kv(2), Op::Kv(3), Op::Kv(4), Op::Kv(5), Op::Kv(6), Op::Kv(7), Op::Kv(8), Op::Kv(9), Op::Kv(10), Op::Kv(11), Op::Kv(12), Op::Kv(13), Op::Kv(14), Op::Kv(20), Op::Kv(21),
    Op::Kv(22), Op::Kv(23),
];
const SHARED: &[Op] = &[Op::SubTo(1), Op::Unsub(1), Op::Unreg, Op::Publish(1), Op::PublishAll, Op::Update(1), Op::Put(1), Op::Get(1), Op::Kv(6), Op::Query(0)];
const PUBSUB: &[Op] = &[Op::Sub, Op::SubTo(0), Op::SubTo(1), Op::SubTo(2), Op::Unsub(1), Op::Unsub(2), Op::Publish(0), Op::Publish(1), Op::Publish(2), Op::PublishAll];
const ADMIN: &[Op] = &[
    Op::CreateDb(0), Op::CreateDb(1), Op::CreateDb(2), Op::CreateDb(3), Op::CreateDb(4), Op::CreateDb(5), Op::DeleteDb(0), Op::DeleteDb(1), Op::MissingDb, Op::Dbs, Op::Schemas, Op::AddUser(0),
    Op::AddUser(1), Op::DelUser(0), Op::Password(1), Op::Join(false, 0), Op::Leave(false, 0), Op::Join(true, 0), Op::Leave(true, 0), Op::Users, Op::Login(0), Op::Login(1), Op::Login(10), Op::Assume(0),
    Op::Assume(1), Op::Assume(10), Op::Out, Op::Who, Op::Sub, Op::SubTo(1), Op::Publish(1), Op::Get(1),
];

pub const ALL: &[&[Op]] = &[READS, WRITES, KEYS, PUBSUB, ADMIN];
/// What can be seen of a storage.
pub async fn async_dump(s: &Server) -> Vec<String> {
    async_part(
        s,
        "d",
        &[Op::Dbs, Op::Users, Op::List(0), Op::Query(0), Op::Docs(0), Op::Reduce(20), Op::Kv(21), Op::Kv(23)],
    )
    .await
}

/// One of the connections compared to a local, blocking one.
enum Side {
    Async(Runtime, AsyncStorage),
    Handle(Net2),
    Async2(Net2, AsyncClient),
    Blocking(Net2, BlockingClient),
}
impl Side {
    fn new(t: T, anyone: Permissions) -> Result<Self, String> {
        Ok(match t {
            T::Async => {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().map_err(es)?;
                let s = rt.block_on(AsyncStorage::open(config())).map_err(es)?;
                Side::Async(rt, s)
            }
            T::Handle => Side::Handle(Net2::new(false, anyone)?),
            T::WsAsync | T::Quic => {
                let n = Net2::new(t == T::Quic, anyone)?;
                let c = n.client()?;
                Side::Async2(n, c)
            }
            T::WsBlocking | T::QuicBlocking => {
                let n = Net2::new(t == T::QuicBlocking, anyone)?;
                let c = n.blocking()?;
                Side::Blocking(n, c)
            }
        })
    }
    /// (a QUIC endpoint does not like to lose its runtime)
    fn leave(self) {
        if matches!(&self, Side::Async2(n, _) | Side::Blocking(n, _) if n.cert.is_some()) {
            std::mem::forget(self);
        }
    }
    fn run(&self, name: &str, seq: &[Op]) -> Vec<String> {
        match self {
            Side::Async(rt, s) => rt.block_on(async_run(s, name, seq)),
            Side::Handle(n) => n.rt.block_on(async_run(&n.server, name, seq)),
            Side::Async2(n, c) => n.rt.block_on(async_run(c, name, seq)),
            Side::Blocking(_, c) => blocking_run(c, name, seq),
        }
    }
}

fn actions() -> Vec<BonsaiAction> {
    use BonsaiAction::{Database as D, Server as S};
    vec![
        S(ServerAction::Connect),
        S(ServerAction::ListAvailableSchemas),
        S(ServerAction::ListDatabases),
        S(ServerAction::CreateDatabase),
        S(ServerAction::DeleteDatabase),
        S(ServerAction::CreateUser),
        S(ServerAction::DeleteUser),
        S(ServerAction::SetPassword),
        S(ServerAction::Authenticate(AuthenticationMethod::Token)),
        S(ServerAction::Authenticate(AuthenticationMethod::PasswordHash)),
        S(ServerAction::AssumeIdentity),
        S(ServerAction::ModifyUserPermissionGroups),
        S(ServerAction::ModifyUserRoles),
        D(DatabaseAction::Compact),
        D(DatabaseAction::Document(DocumentAction::Get)),
        D(DatabaseAction::Document(DocumentAction::List)),
        D(DatabaseAction::Document(DocumentAction::ListHeaders)),
        D(DatabaseAction::Document(DocumentAction::Count)),
        D(DatabaseAction::Document(DocumentAction::Insert)),
        D(DatabaseAction::Document(DocumentAction::Update)),
        D(DatabaseAction::Document(DocumentAction::Overwrite)),
        D(DatabaseAction::Document(DocumentAction::Delete)),
        D(DatabaseAction::View(ViewAction::Query)),
        D(DatabaseAction::View(ViewAction::Reduce)),
        D(DatabaseAction::View(ViewAction::DeleteDocs)),
        D(DatabaseAction::Transaction(TransactionAction::ListExecuted)),
        D(DatabaseAction::Transaction(TransactionAction::GetLastId)),
        D(DatabaseAction::PubSub(PubSubAction::CreateSuscriber)),
        D(DatabaseAction::PubSub(PubSubAction::Publish)),
        D(DatabaseAction::PubSub(PubSubAction::SubscribeTo)),
        D(DatabaseAction::PubSub(PubSubAction::UnsubscribeFrom)),
        D(DatabaseAction::KeyValue(KeyValueAction::ExecuteOperation)),
    ]
}
/// All sets of one action, all but one, and none, each with the one that is
/// needed to connect.
fn permissions() -> Vec<Permissions> {
    let all = actions();
    let mut out = vec![];
    for but in [false, true] {
        for a in &all {
            let name = |b: &BonsaiAction| format!("{b:?}");
            let mut st = vec![Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::Connect))];
            for b in &all {
                if (name(a) == name(b)) != but {
                    st.push(Statement::for_any().allowing(b));
                }
            }
            out.push(Permissions::from(st));
        }
    }
    out
}
fn perm(t: T, number: usize, acc: &mut Acc) {
    let p = permissions().swap_remove(number);
    let name = format!("{t:?} with {}{:?}", if number >= actions().len() { "all but " } else { "" }, actions()[number % actions().len()]);
    acc.at(&name);
    let mut seq: Vec<Op> = READS.iter().chain(KEYS).chain(WRITES).chain(PUBSUB).copied().filter(|o| !matches!(o, Op::Behind(_))).collect();
    for o in ADMIN {
        seq.push(*o);
        if matches!(o, Op::Login(_) | Op::Assume(_)) {
            seq.extend([Op::Who, Op::Get(1), Op::Kv(0), Op::AddUser(3), Op::DelUser(3), Op::Out]);
        }
    }
    // whether and when a transaction is logged for the keys depends on time
    seq.retain(|o| !matches!(o, Op::Log(_)));
    seq.extend([Op::Log(4)]);
    let res = engine::no_panic(|| -> Result<(Vec<String>, Vec<String>), String> {
        let local = Storage::open(config()).map_err(es)?;
        let few = local.with_effective_permissions(p.clone()).ok_or("no restricted handle")?;
        let want = blocking_part(&local, &few, "d", &seq);
        let p2 = p.clone();
        let side = Side::new(t, p)?;
        let got = match &side {
            Side::Async2(n, c) => n.rt.block_on(async {
                prepared(&async_run(&n.server, "d", PREPARED).await);
                async_part(c, "d", &seq).await
            }),
            Side::Blocking(n, c) => {
                n.rt.block_on(async { prepared(&async_run(&n.server, "d", PREPARED).await) });
                part(c, "d", &seq)
            }
            Side::Async(rt, s) => {
                let few = s.with_effective_permissions(p2).ok_or("no restricted handle")?;
                rt.block_on(async {
                    prepared(&async_run(s, "d", PREPARED).await);
                    async_part(&few, "d", &seq).await
                })
            }
            Side::Handle(n) => {
                let few = n.server.with_effective_permissions(p2).ok_or("no restricted handle")?;
                n.rt.block_on(async {
                    prepared(&async_run(&n.server, "d", PREPARED).await);
                    async_part(&few, "d", &seq).await
                })
            }
        };
        side.leave();
        Ok((want, got))
    });
    acc.count("permission_sets", 1);
    acc.count("transitions", seq.len() as u64);
    let outcome = |a: &str| if a.starts_with("error") { a.to_string() } else { String::new() };
    match res {
        Ok(Ok((want, got))) => {
            let mut bad = (0..want.len().max(got.len())).filter(|i| {
                let (a, b) = (want.get(*i), got.get(*i));
                // the last transaction: only whether it may be asked for
                if seq.get(*i) == Some(&Op::Log(4)) { a.map(|a| outcome(a)) != b.map(|b| outcome(b)) } else { a != b }
            });
            if let Some(i) = bad.next() {
                acc.bad(format!("{name}: {:?}: {:?}, locally {:?}", seq.get(i), got.get(i), want.get(i)), json!({"case": name, "operations": format!("{seq:?}"), "answers": got, "local": want}));
            }
            acc.count("denied", want.iter().filter(|w| w.contains("PermissionDenied")).count() as u64);
            acc.outcome(&want);
        }
        Ok(Err(e)) => acc.bad(format!("{name}: {e}"), json!({"case": name})),
        Err(e) => acc.bad(format!("{name}: panicked: {e}"), json!({"case": name})),
    }
}

fn two(t: T, vocab: &'static [Op], first: (bool, Op), depth: usize, acc: &mut Acc) {
    let all = Permissions::allow_all();
    let (local, side) = match Side::new(t, all).and_then(|side| Ok((Storage::open(config()).map_err(es)?, side))) {
        Ok(s) => s,
        Err(e) => return acc.bad(format!("starting: {e}"), json!({})),
    };
    let mut todo = vec![vec![first]];
    let mut n = 0;
    while let Some(s) = todo.pop() {
        if s.len() < depth {
            for second in [false, true] {
                for o in vocab {
                    let mut t = s.clone();
                    t.push((second, *o));
                    todo.push(t);
                }
            }
            continue;
        }
        // one connection: see above
        if s.iter().all(|o| o.0 == s[0].0) {
            continue;
        }
        let name = format!("{t:?}, two connections: {s:?}");
        acc.at(&name);
        n += 1;
        let db = format!("d{n:03}");
        let seq: Vec<(bool, Op)> = [(false, Op::Put(1)), (false, Op::Sub), (false, Op::SubTo(1)), (true, Op::Sub)].into_iter().chain(s).collect();
        let res = engine::no_panic(|| -> Result<_, String> {
            let want = blocking_two(&local, &local, &db, &seq);
            let got = match &side {
                Side::Async2(n, c) => {
                    let other = n.client()?;
                    n.rt.block_on(async_two(c, &other, &db, &seq))
                }
                Side::Blocking(n, c) => blocking_two(c, &n.blocking()?, &db, &seq),
                Side::Async(rt, s) => rt.block_on(async_two(s, s, &db, &seq)),
                Side::Handle(n) => n.rt.block_on(async_two(&n.server, &n.server, &db, &seq)),
            };
            Ok((want, got))
        });
        acc.count("sequences", 1);
        acc.count("transitions", seq.len() as u64);
        match res {
            Ok(Ok((want, got))) => {
                if want == got {
                    acc.outcome(&want);
                } else {
                    let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(0);
                    let at = seq.get(i).map_or_else(|| "messages".to_string(), |o| format!("{o:?}"));
                    acc.bad(format!("{name}: {at}: {:?}, locally {:?}", got.get(i), want.get(i)), json!({"sequence": name, "answers": got, "local": want}));
                }
            }
            Ok(Err(e)) => acc.bad(format!("{name}: {e}"), json!({"sequence": name})),
            Err(e) => acc.bad(format!("{name}: panicked: {e}"), json!({"sequence": name})),
        }
    }
    side.leave();
}

fn walk(j: &Seqs, acc: &mut Acc) {
    let all = Permissions::allow_all();
    let mut n = 0;
    let mut pair: Option<(Storage, Side)> = None;
    let mut todo = vec![vec![j.first]];
    while let Some(s) = todo.pop() {
        if s.len() < j.depth {
            for o in j.vocab {
                let mut t = s.clone();
                t.push(*o);
                todo.push(t);
            }
            continue;
        }
        let name = format!("{:?} after {:?}: {s:?}", j.t, j.before);
        acc.at(&name);
        if j.fresh || pair.is_none() {
            if let Some((_, side)) = pair.take() {
                side.leave();
            }
            let side = Side::new(j.t, all.clone()).and_then(|side| Ok((Storage::open(config()).map_err(es)?, side)));
            match side {
                Ok(s) => pair = Some(s),
                Err(e) => {
                    acc.bad(format!("starting: {e}"), json!({}));
                    return;
                }
            }
        }
        let (local, side) = pair.as_ref().unwrap();
        let seq: Vec<Op> = j.before.iter().chain(&s).copied().collect();
        n += 1;
        let db = format!("d{n:03}");
        let res = engine::no_panic(|| {
            let want = blocking_run(local, &db, &seq);
            (want, side.run(&db, &seq))
        });
        acc.count("sequences", 1);
        acc.count("transitions", seq.len() as u64);
        match res {
            Ok((want, got)) => {
                if want != got {
                    let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(0);
                    let at = seq.get(i).map_or_else(|| "messages".to_string(), |o| format!("{o:?}"));
                    acc.bad(format!("{name}: {at}: {:?}, locally {:?}", got.get(i), want.get(i)), json!({"sequence": name, "answers": got, "local": want}));
                } else {
                    acc.outcome(&want);
                    acc.sample(json!({"sequence": name, "answers": want}));
                }
            }
            Err(e) => acc.bad(format!("{name}: panicked: {e}"), json!({"sequence": name})),
        }
    }
    if let Some((_, side)) = pair.take() {
        side.leave();
    }
}

pub fn run(id: &str) -> i32 {
    let mut r = Report::new(id, "model_checking");
    let big = r.thorough();
    let ts: &[T] = if id == "C24" { &[T::WsAsync, T::WsBlocking, T::Quic, T::QuicBlocking] } else { &[T::Async, T::Handle] };
    let mut jobs = vec![];
    for t in ts {
        let first = *t == ts[0];
        let mut add = |before, vocab: &'static [Op], depth, fresh| {
            for first in vocab {
                jobs.push(J::Seq(Seqs { t: *t, before, vocab, first: *first, depth, fresh }));
            }
        };
        let d = if big { 3 } else if first { 2 } else { 1 };
        add(SEED, READS, 1, false);
        add(&[], READS, 1, false);
        add(SEED, WRITES, d, false);
        add(SEED, KEYS, d, false);
        add(&[Op::Sub], PUBSUB, d, false);
        add(ACCOUNTS, ADMIN, d.min(2), true);
        for second in [false, true] {
            for o in SHARED {
                jobs.push(J::Two { t: *t, vocab: SHARED, first: (second, *o), depth: if big { 3 } else { 2 } });
            }
        }
        if big || first {
            for number in 0..permissions().len() {
                jobs.push(J::Perm { t: *t, number });
            }
        }
    }
    seq::run(&mut r, Mode::Free, jobs, |j, a| match j {
        J::Seq(s) => walk(s, a),
        J::Two { t, vocab, first, depth } => two(*t, vocab, *first, *depth, a),
        J::Perm { t, number } => perm(*t, *number, a),
    });
    r.finish()
}
