//! C23: what a lost connection does to the calls of a client: the connection
//! is cut at every chosen byte of the traffic of a scripted client.
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

use bonsaidb_client::AsyncClient;
use bonsaidb_core::admin::PermissionGroup;
use bonsaidb_core::connection::{AsyncConnection, AsyncStorageConnection, HasSession, IdentityReference};
use bonsaidb_core::keyvalue::AsyncKeyValue;
use bonsaidb_core::permissions::bonsai::{BonsaiAction, ServerAction};
use bonsaidb_core::permissions::{Permissions, Statement};
use bonsaidb_core::pubsub::{AsyncPubSub, AsyncSubscriber};
use bonsaidb_core::schema::SerializedCollection;
use serde_json::json;

use super::c24::Net2;
use super::world::{Basic, Simple};
use crate::engine;
use crate::report::Report;
use crate::seq::{self, Mode};
use crate::twins::Net;
use crate::wire::{self, Cut, How, Relay};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}
fn at_connect() -> Permissions {
    Permissions::from(vec![Statement::for_any()
        .allowing(&BonsaiAction::Server(ServerAction::Connect))
        .allowing(&BonsaiAction::Server(ServerAction::AssumeIdentity))])
}
/// No call takes longer (they all take milliseconds).
fn patience() -> Duration {
    Duration::from_secs(std::env::var("MC_PATIENCE").map_or(20, |s| s.parse().unwrap()))
}
async fn soon<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> {
    tokio::time::timeout(patience(), f).await.map_err(|_| format!("{what}: no answer, and no error"))
}

/// What is going to happen to the connection.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    None,
    Cut(Cut),
    /// the server is shut down once `after` calls are answered
    Stop { after: usize, graceful: bool },
}
#[derive(Clone, Copy, Debug)]
struct Case {
    fault: Fault,
    /// a client that is logged in, and may do nothing otherwise
    login: bool,
    quic: bool,
    /// another server is found after the cut
    restarted: bool,
}

/// A call and what became of it.
struct Call {
    name: String,
    /// the number its effect carries
    n: u32,
    kind: Kind,
    r: Result<(), String>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Insert,
    Add,
    Publish,
    Update,
    Read,
    Subscribe,
}

type Db = bonsaidb_client::AsyncRemoteDatabase;
async fn call(db: &Db, kind: Kind, n: u32, calls: &shared::List<Call>) -> Result<(), String> {
    let name = format!("{kind:?} {n}");
    let r = soon(&name, async {
        match kind {
            Kind::Insert => Simple { v: n }.push_into_async(db).await.map(|_| ()).map_err(|e| format!("{:?}", e.error)),
            Kind::Add => db.increment_key_by(format!("k{n}"), 1u64).await.map(|_| ()).map_err(|e| format!("{e:?}")),
            Kind::Publish => db.publish(&"t", &n).await.map_err(|e| format!("{e:?}")),
            Kind::Update => Basic { v: n, tags: vec![] }.overwrite_into_async(&u64::from(n), db).await.map(|_| ()).map_err(|e| format!("{:?}", e.error)),
            Kind::Read => Simple::all_async(db).await.map(|_| ()).map_err(|e| format!("{e:?}")),
            Kind::Subscribe => Ok(()),
        }
    })
    .await?;
    calls.push(Call { name, n, kind, r });
    Ok(())
}
/// A list that is added to through a shared reference.
mod shared {
    pub struct List<T>(pub std::sync::Mutex<Vec<T>>);
    impl<T> List<T> {
        pub fn new() -> Self {
            List(std::sync::Mutex::new(vec![]))
        }
        pub fn push(&self, t: T) {
            self.0.lock().unwrap().push(t);
        }
        pub fn len(&self) -> usize {
            self.0.lock().unwrap().len()
        }
    }
}

struct World {
    n: Net2,
    relay: Option<Relay>,
    seen: bonsaidb_local::Subscriber,
}
impl World {
    fn new(case: &Case) -> Result<Self, String> {
        let n = Net2::new(case.quic, if case.login { at_connect() } else { Permissions::allow_all() })?;
        let seen = n.rt.block_on(async {
            let db = n.server.create_database::<Net>("d", false).await.map_err(es)?;
            n.server.create_user("all").await.map_err(es)?;
            n.server.create_user("none").await.map_err(es)?;
            let g = PermissionGroup { name: "g".into(), statements: vec![Statement::for_any().allowing_all()] };
            g.push_into_async(&n.server.admin().await).await.map_err(|e| es(e.error))?;
            n.server.add_permission_group_to_user("all", "g").await.map_err(es)?;
            let s = db.create_subscriber().await.map_err(es)?;
            AsyncSubscriber::subscribe_to(&s, &"t").await.map_err(es)?;
            Ok::<_, String>(s)
        })?;
        let cut = if let Fault::Cut(c) = case.fault { Some(c) } else { None };
        let relay = if case.quic { None } else { Some(Relay::new(n.url.port().unwrap(), cut)?) };
        Ok(World { n, relay, seen })
    }
    fn client(&self) -> Result<AsyncClient, String> {
        let _g = self.n.rt.enter();
        let Some(relay) = &self.relay else {
            // (nothing tells whether a server can be reached over QUIC but time)
            return AsyncClient::build(self.n.url.clone())
                .with_certificate(self.n.cert.clone().unwrap())
                .with_connect_timeout(Duration::from_millis(500))
                .build()
                .map_err(es);
        };
        let mut at = self.n.url.clone();
        at.set_port(Some(relay.port)).unwrap();
        AsyncClient::build(at).build().map_err(es)
    }
}

async fn identity(c: &AsyncClient, user: &str) -> Result<AsyncClient, String> {
    soon("assume_identity", c.assume_identity(IdentityReference::User(user.to_string().into()))).await?.map_err(es)
}
fn gone(e: &str) -> bool {
    e.contains("PermissionDenied")
}

fn scenario(case: &Case) -> Result<(Vec<String>, bool, (Vec<u8>, Vec<u8>)), String> {
    let w = World::new(case)?;
    let second = if case.restarted { Some(World::new(&Case { fault: Fault::None, ..*case })?) } else { None };
    let base = w.client()?;
    if let (Some(s), Some(r)) = (&second, &w.relay) {
        r.next.store(s.n.url.port().unwrap(), Ordering::SeqCst);
    }
    let fault = || match case.fault {
        Fault::Cut(_) => w.relay.as_ref().unwrap().cut_happened(),
        _ => false,
    };
    let rt = &w.n.rt;
    let out = rt.block_on(async {
        let calls = shared::List::new();
        let stop = |calls: &shared::List<Call>| matches!(case.fault, Fault::Stop { after, .. } if after <= calls.len());
        let mut stopped = false;
        macro_rules! maybe_stop {
            () => {
                if !stopped && stop(&calls) {
                    stopped = true;
                    let Fault::Stop { graceful, .. } = case.fault else { unreachable!() };
                    soon("shutting down the server", w.n.server.shutdown(graceful.then(|| Duration::from_millis(30)))).await?.map_err(es)?;
                }
            };
        }
        maybe_stop!();
        // logging in may be what fails
        let mut tries = 0;
        let client = loop {
            if !case.login {
                break base.clone();
            }
            match identity(&base, "all").await {
                Ok(c) => break c,
                Err(e) if !fault() && !stopped => return Err(format!("logging in failed: {e}")),
                Err(e) => {
                    tries += 1;
                    if stopped {
                        break base.clone();
                    }
                    if tries > 3 {
                        return Err(format!("logging in fails although the server can be reached: {e}"));
                    }
                }
            }
        };
        let db = client.database::<Net>("d").await.map_err(es)?;
        let before = fault();
        if case.restarted && before {
            return Ok((vec![], true));
        }
        maybe_stop!();
        call(&db, Kind::Insert, 1, &calls).await?;
        maybe_stop!();
        // a subscriber, and when it was subscribed
        let subscriber = match soon("create_subscriber", db.create_subscriber()).await? {
            Ok(s) => {
                let r = soon("subscribe_to", s.subscribe_to(&"t")).await?;
                calls.push(Call { name: "subscribing".into(), n: 0, kind: Kind::Subscribe, r: r.map_err(|e| format!("{e:?}")) });
                Some(s)
            }
            Err(e) => {
                calls.push(Call { name: "creating a subscriber".into(), n: 0, kind: Kind::Subscribe, r: Err(format!("{e:?}")) });
                None
            }
        };
        let subscribed = calls.0.lock().unwrap().last().unwrap().r.is_ok() && subscriber.is_some();
        let subscribed_before_cut = subscribed && !fault();
        maybe_stop!();
        call(&db, Kind::Publish, 2, &calls).await?;
        maybe_stop!();
        // several at a time
        let together = async {
            let (a, b, c, d, e) = tokio::join!(
                call(&db, Kind::Insert, 3, &calls),
                call(&db, Kind::Add, 4, &calls),
                call(&db, Kind::Publish, 5, &calls),
                call(&db, Kind::Read, 6, &calls),
                call(&db, Kind::Update, 7, &calls)
            );
            a.and(b).and(c).and(d).and(e)
        };
        let stops_within = matches!(case.fault, Fault::Stop { after, .. } if !stopped && after > calls.len() && after < calls.len() + 5);
        if stops_within {
            stopped = true;
            let Fault::Stop { graceful, after } = case.fault else { unreachable!() };
            let server = async {
                for _ in 0..after {
                    tokio::task::yield_now().await;
                }
                soon("shutting down the server", w.n.server.shutdown(graceful.then(|| Duration::from_millis(30)))).await?.map_err(es)
            };
            let (a, b) = tokio::join!(together, server);
            a.and(b)?;
        } else {
            together.await?;
        }
        maybe_stop!();
        call(&db, Kind::Add, 8, &calls).await?;
        call(&db, Kind::Update, 9, &calls).await?;
        call(&db, Kind::Publish, 10, &calls).await?;
        let happened = stopped
            || w.relay.as_ref().is_some_and(|r| {
                let mut st = r.state.lock().unwrap();
                if !st.done {
                    st.cut = None;
                }
                st.done
            });
        if case.fault == Fault::None {
            if let Some(c) = calls.0.lock().unwrap().iter().find(|c| c.r.is_err()) {
                return Err(format!("{} failed without a fault: {:?}", c.name, c.r));
            }
        }
        // afterwards: the same client works again
        let mut failing = 0;
        let mut again = None;
        if !stopped {
            loop {
                let r = soon("a call after the connection was lost", base.list_databases()).await?;
                let back = match &r {
                    Ok(_) => true,
                    Err(e) => case.login && gone(&format!("{e:?}")),
                };
                if back {
                    break;
                }
                failing += 1;
                if failing > 2 {
                    return Err(format!("{failing} calls after the connection was lost fail: {:?}", r.err()));
                }
            }
            // a handle that had logged in has no session any more, and no rights
            if case.login && happened && !before {
                if client.session().is_some() {
                    return Err("the handle still tells of the session of the lost connection".into());
                }
                let other = if case.restarted { Some(identity(&base, "all").await?) } else { None };
                call(&db, Kind::Insert, 11, &calls).await?;
                call(&db, Kind::Read, 12, &calls).await?;
                let l = calls.0.lock().unwrap();
                for c in &l[l.len() - 2..] {
                    if !c.r.as_ref().is_err_and(|e| gone(e)) {
                        return Err(format!("{} of a handle whose session was lost{}: {:?}", c.name, if case.restarted { ", while another one is logged in" } else { "" }, c.r));
                    }
                }
                drop(l);
                drop(other);
            }
            let c = if case.login { identity(&base, "all").await? } else { base.clone() };
            let d = c.database::<Net>("d").await.map_err(es)?;
            if !case.restarted {
                let k = calls.len();
                call(&d, Kind::Insert, 13, &calls).await?;
                call(&d, Kind::Publish, 14, &calls).await?;
                call(&d, Kind::Read, 15, &calls).await?;
                if let Some(c) = calls.0.lock().unwrap()[k..].iter().find(|c| c.r.is_err()) {
                    return Err(format!("{} fails after the client connected again: {:?}", c.name, c.r));
                }
            }
            again = Some((c, d));
        } else {
            // nothing more is answered
            let r = soon("a call after the server was shut down", base.list_databases()).await?;
            let r = if r.is_ok() { soon("a call after the server was shut down", base.list_databases()).await? } else { r };
            if r.is_ok() {
                return Err("a call is answered after the server was shut down".into());
            }
        }
        // everything that was answered happened, and nothing happened twice
        let server = w.n.server.database::<Net>("d").await.map_err(es)?;
        let mut got = vec![];
        let started = Instant::now();
        let want: Vec<u32> = calls.0.lock().unwrap().iter().filter(|c| c.kind == Kind::Publish && c.r.is_ok()).map(|c| c.n).collect();
        loop {
            while let Ok(m) = AsyncSubscriber::receiver(&w.seen).try_receive() {
                got.push(m.payload::<u32>().map_err(es)?);
            }
            // (a request that is cut off may still be on its way)
            if want.iter().all(|n| got.contains(n)) || started.elapsed() > patience() {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        if happened {
            tokio::time::sleep(Duration::from_millis(5)).await;
            while let Ok(m) = AsyncSubscriber::receiver(&w.seen).try_receive() {
                got.push(m.payload::<u32>().map_err(es)?);
            }
        }
        let docs = Simple::all_async(&server).await.map_err(es)?;
        let log = server.list_executed_transactions(None, None).await.map_err(es)?;
        let mut report = vec![];
        for c in calls.0.lock().unwrap().iter() {
            let times = match c.kind {
                Kind::Insert => docs.iter().filter(|d| d.contents.v == c.n).count(),
                Kind::Add => server.get_key(format!("k{}", c.n)).into_u64().await.map_err(es)?.unwrap_or(0) as usize,
                Kind::Publish => got.iter().filter(|g| **g == c.n).count(),
                Kind::Update => {
                    let times = log.iter().filter(|t| t.changes.documents().is_some_and(|d| d.documents.iter().any(|d| d.id == bonsaidb_core::document::DocumentId::from_u64(c.n.into())) && d.collections.iter().any(|n| n.to_string().contains("basic")))).count();
                    let there = Basic::get_async(&u64::from(c.n), &server).await.map_err(es)?;
                    if (times > 0) != there.is_some() || there.is_some_and(|d| d.contents.v != c.n) {
                        return Err(format!("{}: the document is not as written", c.name));
                    }
                    times
                }
                Kind::Read | Kind::Subscribe => continue,
            };
            match &c.r {
                Ok(()) if times != 1 => return Err(format!("{} was answered, and happened {times} times", c.name)),
                Err(e) if gone(e) && times != 0 => return Err(format!("{} was denied, and happened", c.name)),
                Err(_) if times > 1 => return Err(format!("{} happened {times} times", c.name)),
                _ => {}
            }
            report.push(format!("{}: {} {times}", c.name, match &c.r { Ok(()) => "ok", Err(e) if gone(e) => "denied", Err(_) => "error" }));
        }
        // the subscriber
        if let (Some(s), true) = (&subscriber, subscribed_before_cut) {
            let mut heard = vec![];
            let from_here: Vec<u32> = calls.0.lock().unwrap().iter().filter(|c| c.kind == Kind::Publish).map(|c| c.n).collect();
            if happened && !stopped {
                loop {
                    match soon("a subscriber of a lost connection", s.receiver().receive_async()).await? {
                        Ok(m) => heard.push(m.payload::<u32>().map_err(es)?),
                        Err(_) => break,
                    }
                }
            } else if !stopped {
                while heard.len() < want.len() {
                    heard.push(soon("a message", s.receiver().receive_async()).await?.map_err(es)?.payload::<u32>().map_err(es)?);
                }
            }
            while let Ok(m) = s.receiver().try_receive() {
                heard.push(m.payload::<u32>().map_err(es)?);
            }
            // in order, without gaps, each once
            if heard.iter().enumerate().any(|(i, m)| got.get(i) != Some(m)) || heard.iter().any(|m| !from_here.contains(m)) {
                return Err(format!("a subscriber received {heard:?}, published were {got:?}"));
            }
            report.push(format!("heard {heard:?}"));
        }
        drop((subscriber, db, client, again));
        Ok((report, happened))
    });
    let (report, happened) = match out {
        Ok(x) => x,
        Err(e) => {
            if case.quic {
                std::mem::forget((base, w, second));
            }
            return Err(e);
        }
    };
    let passed = w.relay.as_ref().and_then(|r| {
        let s = r.state.lock().unwrap();
        s.conns.first().map(|c| (c.up.clone(), c.down.clone()))
    });
    drop(base);
    if case.quic {
        // (the endpoint outlives its runtime otherwise)
        std::mem::forget((w, second));
    } else {
        // the server lets go of its clients
        let started = Instant::now();
        for n in [Some(&w.n), second.as_ref().map(|s| &s.n)].into_iter().flatten() {
            loop {
                let left = n.server.connected_clients().len();
                if left == 0 {
                    break;
                }
                if started.elapsed() > patience() {
                    return Err(format!("{left} clients stay connected after they left"));
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        drop((w, second));
    }
    Ok((report, happened, passed.unwrap_or_default()))
}

/// Where the traffic of a client may be cut.
fn positions(b: &[u8], all: bool) -> Vec<usize> {
    if all {
        return (0..=b.len()).collect();
    }
    let mut out = std::collections::BTreeSet::from([0, 1, b.len()]);
    let mut start = b.windows(4).position(|w| w == b"\r\n\r\n").map_or(0, |p| p + 4);
    out.extend([start / 2, start - start.min(1)]);
    for (_, _, end) in wire::frames(b) {
        out.extend([start, start + 1, start + 3, (start + end) / 2, end - 1, end]);
        start = end;
    }
    out.into_iter().collect()
}

fn plain(login: bool) -> Case {
    Case { fault: Fault::None, login, quic: false, restarted: false }
}
fn traffic(login: bool) -> Result<(Vec<u8>, Vec<u8>), String> {
    scenario(&plain(login)).map(|(_, _, t)| t)
}
pub fn run() -> i32 {
    let mut r = Report::new("C23", "fault_enumeration");
    let big = r.thorough();
    let mut jobs: Vec<Vec<Case>> = vec![];
    for login in [false, true] {
        // the traffic without a fault
        let t = engine::no_panic(|| if login { super::in_child(|| traffic(true)) } else { super::in_child(|| traffic(false)) });
        let (up, down) = match t {
            Ok(Ok(t)) => t,
            e => {
                r.violation(&format!("without a fault: {}", match e { Ok(Err(e)) | Err(e) => e, _ => String::new() }), json!({"login": login}));
                return r.finish();
            }
        };
        let mut cases = vec![plain(login)];
        for (is_up, b) in [(true, &up), (false, &down)] {
            for at in positions(b, big) {
                for how in [How::Reset, How::Fin, How::Goodbye] {
                    let fault = Fault::Cut(Cut { conn: 0, up: is_up, at, how });
                    cases.push(Case { fault, ..plain(login) });
                    if login && (big || at % 3 == 0) && how == How::Fin {
                        cases.push(Case { fault, restarted: true, ..plain(login) });
                    }
                }
            }
        }
        let only = std::env::var("MC_QUIC").is_ok();
        if only {
            cases.clear();
        }
        for quic in [false, true] {
            cases.push(Case { quic, ..plain(login) });
            for after in 0..14 {
                for graceful in [false, true] {
                    cases.push(Case { fault: Fault::Stop { after, graceful }, quic, ..plain(login) });
                }
            }
        }
        jobs.extend(cases.chunks(12).map(<[Case]>::to_vec));
    }
    if let Ok(n) = std::env::var("MC_ONE") {
        let n: usize = n.parse().unwrap();
        let c: Vec<Case> = jobs.concat();
        println!("{:?}", c[n]);
        println!("{:?}", scenario(&c[n]).map(|r| r.0));
        return 0;
    }
    seq::run(&mut r, Mode::Free, jobs, |cases, a| {
        for c in cases {
            a.at(&format!("{c:?}"));
            let t = engine::no_panic(|| scenario(c)).unwrap_or_else(|e| Err(format!("panicked: {e}")));
            a.count("executions", 1);
            match t {
                Ok((report, happened, _)) => {
                    a.count("connections_lost", happened as u64);
                    a.outcome(&(c.login, c.quic, &report));
                    a.sample(json!({"case": format!("{c:?}"), "calls": report}));
                }
                Err(e) => a.bad(format!("{}: {e}", short(c)), json!({"case": format!("{c:?}")})),
            }
        }
    });
    r.finish()
}
fn short(c: &Case) -> String {
    let f = match c.fault {
        Fault::None => "no fault".to_string(),
        Fault::Cut(c) => format!("{} cut ({:?})", if c.up { "requests" } else { "answers" }, c.how),
        Fault::Stop { graceful, .. } => format!("server shut down ({})", if graceful { "gracefully" } else { "at once" }),
    };
    format!("{f}{}{}{}", if c.quic { ", QUIC" } else { "" }, if c.login { ", logged in" } else { "" }, if c.restarted { ", another server" } else { "" })
}
