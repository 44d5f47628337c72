//! C19: subscribers receive exactly the messages published to the topics they
//! are subscribed to, in their own database, in order.
use std::collections::{BTreeMap, VecDeque};

use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::pubsub::{AsyncPubSub, AsyncSubscriber, PubSub, Receiver, TryReceiveError};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{AsyncDatabase, Database, Storage, Subscriber};

use super::world::{self, World};
use crate::engine::{self, par, Env, Replay};
use crate::report::Report;
use crate::sched;
use crate::seq::{self, Acc, Mode};
use crate::tour::{self, Graph};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}
const SUBS: usize = 3;
/// Topics: the second and third look like other databases' topics.
const TOPICS: [&[u8]; 3] = [b"t", b"", b"d2\0t"];
const DBS: [&str; 2] = ["d", "d2"];
/// The database of each subscriber.
const HOME: [usize; SUBS] = [0, 0, 1];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Sub {
    alive: bool,
    topics: [bool; 3],
}
type S = [Sub; SUBS];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Via {
    Blocking,
    Async,
}
#[derive(Clone, Debug, Hash)]
enum A {
    Create(usize, Via),
    Drop(usize),
    Subscribe(usize, usize, Via),
    Unsubscribe(usize, usize, Via),
    Publish(usize, usize, Via),
    PublishAll(usize, Vec<usize>, Via),
    /// everything a subscriber was sent
    Drain(usize, Via),
}
struct Sys {
    s: Storage,
    dbs: Vec<Database>,
    adbs: Vec<AsyncDatabase>,
    subs: Vec<Option<(Subscriber, Receiver)>>,
    sent: Vec<VecDeque<(usize, u64)>>,
    /// receivers of dropped subscribers and what they still have to give
    old: Vec<(Receiver, VecDeque<(usize, u64)>)>,
    n: u64,
}
struct G;
impl Graph for G {
    type S = S;
    type A = A;
    type Sys = Sys;
    fn start(&self) -> S {
        [Sub { alive: false, topics: [false; 3] }; SUBS]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut out = vec![];
        for via in [Via::Blocking, Via::Async] {
            for d in 0..2 {
                for t in 0..3 {
                    out.push(A::Publish(d, t, via));
                }
                for ts in [vec![], vec![0, 1], vec![2, 0], vec![1, 1], vec![2, 1, 0]] {
                    out.push(A::PublishAll(d, ts, via));
                }
            }
            for i in 0..SUBS {
                if s[i].alive {
                    out.push(A::Drain(i, via));
                    for t in 0..3 {
                        out.push(A::Subscribe(i, t, via));
                        out.push(A::Unsubscribe(i, t, via));
                    }
                } else {
                    out.push(A::Create(i, via));
                }
            }
        }
        out.extend((0..SUBS).filter(|i| s[*i].alive).map(A::Drop));
        out
    }
    fn next(&self, s: &S, a: &A) -> S {
        let mut s = *s;
        match a {
            A::Create(i, _) => s[*i].alive = true,
            A::Drop(i) => s[*i] = Sub { alive: false, topics: [false; 3] },
            A::Subscribe(i, t, _) => s[*i].topics[*t] = true,
            A::Unsubscribe(i, t, _) => s[*i].topics[*t] = false,
            _ => {}
        }
        s
    }
    fn fresh(&self) -> Result<Sys, String> {
        let s = world::open(world::config(true).with_schema::<World>().map_err(es)?);
        let dbs: Vec<Database> = DBS.iter().map(|d| s.create_database::<World>(d, false)).collect::<Result<_, _>>().map_err(es)?;
        let rt = tokio::runtime::Builder::new_current_thread().build().map_err(es)?;
        let _enter = rt.enter();
        Ok(Sys { adbs: dbs.iter().map(|d| d.to_async()).collect(), s, dbs, subs: (0..SUBS).map(|_| None).collect(), sent: vec![VecDeque::new(); SUBS], old: vec![], n: 0 })
    }
    fn life(&self) -> usize {
        3000
    }
    fn exec(&self, x: &mut Sys, s: &S, a: &A, _t: &S, acc: &mut Acc) -> Result<(), String> {
        acc.count("evaluations", 1);
        let _ = &x.s;
        let post = |x: &mut Sys, d: usize, t: usize| {
            for i in 0..SUBS {
                if HOME[i] == d && s[i].alive && s[i].topics[t] {
                    x.sent[i].push_back((t, x.n));
                }
            }
        };
        match a {
            A::Create(i, via) => {
                let d = HOME[*i];
                let sub = match via {
                    Via::Blocking => x.dbs[d].create_subscriber().map_err(es)?,
                    Via::Async => now(AsyncPubSub::create_subscriber(&x.adbs[d])).map_err(es)?,
                };
                let ids: Vec<u64> = x.subs.iter().flatten().map(|s| s.0.id()).collect();
                if ids.contains(&sub.id()) {
                    return Err("two subscribers have one id".into());
                }
                let r = bonsaidb_core::pubsub::Subscriber::receiver(&sub).clone();
                x.subs[*i] = Some((sub, r));
                x.sent[*i].clear();
            }
            A::Drop(i) => {
                let (sub, r) = x.subs[*i].take().unwrap();
                drop(sub);
                // what was sent before can still be received
                let q = std::mem::take(&mut x.sent[*i]);
                x.old.push((r, q));
                if x.old.len() > 1 {
                    let (r, q) = x.old.remove(0);
                    drain(&r, q, Via::Blocking, true)?;
                }
            }
            A::Subscribe(i, t, via) => {
                let s = &x.subs[*i].as_ref().unwrap().0;
                match via {
                    Via::Blocking => bonsaidb_core::pubsub::Subscriber::subscribe_to_bytes(s, TOPICS[*t].to_vec()).map_err(es)?,
                    Via::Async => now(AsyncSubscriber::subscribe_to_bytes(s, TOPICS[*t].to_vec())).map_err(es)?,
                }
            }
            A::Unsubscribe(i, t, via) => {
                let s = &x.subs[*i].as_ref().unwrap().0;
                match via {
                    Via::Blocking => bonsaidb_core::pubsub::Subscriber::unsubscribe_from_bytes(s, TOPICS[*t]).map_err(es)?,
                    Via::Async => now(AsyncSubscriber::unsubscribe_from_bytes(s, TOPICS[*t])).map_err(es)?,
                }
            }
            A::Publish(d, t, via) => {
                x.n += 1;
                let (topic, load) = (TOPICS[*t].to_vec(), x.n.to_be_bytes().to_vec());
                match via {
                    Via::Blocking => x.dbs[*d].publish_bytes(topic, load).map_err(es)?,
                    Via::Async => now(AsyncPubSub::publish_bytes(&x.adbs[*d], topic, load)).map_err(es)?,
                }
                post(x, *d, *t);
            }
            A::PublishAll(d, ts, via) => {
                x.n += 1;
                let (topics, load): (Vec<Vec<u8>>, _) = (ts.iter().map(|t| TOPICS[*t].to_vec()).collect(), x.n.to_be_bytes().to_vec());
                match via {
                    Via::Blocking => x.dbs[*d].publish_bytes_to_all(topics, load).map_err(es)?,
                    Via::Async => now(AsyncPubSub::publish_bytes_to_all(&x.adbs[*d], topics, load)).map_err(es)?,
                }
                for t in ts {
                    post(x, *d, *t);
                }
            }
            A::Drain(i, via) => {
                let q = std::mem::take(&mut x.sent[*i]);
                acc.count("received", q.len() as u64);
                drain(&x.subs[*i].as_ref().unwrap().1, q, *via, false)?;
            }
        }
        // nobody has more than was sent to them
        acc.outcome(&(s, x.sent.iter().map(VecDeque::len).collect::<Vec<_>>()));
        Ok(())
    }
}
fn subscribe(s: &Subscriber, t: usize) -> Result<(), bonsaidb_core::Error> {
    bonsaidb_core::pubsub::Subscriber::subscribe_to_bytes(s, TOPICS[t].to_vec())
}
fn unsubscribe(s: &Subscriber, t: usize) -> Result<(), bonsaidb_core::Error> {
    bonsaidb_core::pubsub::Subscriber::unsubscribe_from_bytes(s, TOPICS[t])
}
/// Runs a future that is ready at once.
fn now<T>(f: impl std::future::Future<Output = T>) -> T {
    let f = std::pin::pin!(f);
    match f.poll(&mut std::task::Context::from_waker(&noop())) {
        std::task::Poll::Ready(x) => x,
        std::task::Poll::Pending => panic!("a future waits although nothing keeps it"),
    }
}
fn noop() -> std::task::Waker {
    struct W;
    impl std::task::Wake for W {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    std::sync::Arc::new(W).into()
}
fn message(m: &bonsaidb_core::circulate::Message) -> Result<(usize, u64), String> {
    let t = TOPICS.iter().position(|t| *t == &m.topic[..]).ok_or_else(|| format!("message with topic {:?}", &m.topic[..]))?;
    Ok((t, u64::from_be_bytes(m.payload[..].try_into().map_err(es)?)))
}
fn drain(r: &Receiver, mut want: VecDeque<(usize, u64)>, via: Via, gone: bool) -> Result<(), String> {
    let all: Vec<_> = want.iter().copied().collect();
    let mut got = vec![];
    loop {
        let m = match via {
            Via::Async if !want.is_empty() => now(r.receive_async()).map_err(|_| TryReceiveError::Disconnected),
            _ => r.try_receive(),
        };
        match m {
            Ok(m) => {
                let m = message(&m)?;
                got.push(m);
                if want.pop_front() != Some(m) {
                    return Err(format!("received {got:?}, expected {all:?}"));
                }
            }
            Err(TryReceiveError::Empty) if !gone => break,
            Err(TryReceiveError::Disconnected) if gone => break,
            Err(e) => return Err(format!("receiving answers {e:?}; received {got:?}, expected {all:?}")),
        }
    }
    if !want.is_empty() {
        return Err(format!("received {got:?}, expected {all:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- schedules

#[derive(Clone, Copy, Debug)]
enum T {
    /// subscriber, topic
    Sub(usize, usize),
    Unsub(usize, usize),
    Drop(usize),
    /// topic, message
    Pub(usize, u64),
    /// receives this many, waiting for them
    Recv(usize, usize),
    /// receives until nothing can come any more
    RecvAll(usize),
}
#[derive(Clone, Debug)]
struct Sc {
    init: Vec<(usize, usize)>,
    threads: Vec<Vec<T>>,
}
fn conc(p: &Sc, _e: &Env) -> Result<String, String> {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::{Arc, Mutex};
    sched::region(false);
    let s = world::open(world::config(true).with_schema::<World>().map_err(es)?);
    let db = s.create_database::<World>("d", false).map_err(es)?;
    let mut subs = vec![];
    let mut rx: Vec<Receiver> = vec![];
    for _ in 0..2 {
        let x = db.create_subscriber().map_err(es)?;
        rx.push(bonsaidb_core::pubsub::Subscriber::receiver(&x).clone());
        subs.push(Arc::new(Mutex::new(Some(x))));
    }
    for (i, t) in &p.init {
        subscribe(subs[*i].lock().unwrap().as_ref().unwrap(), *t).map_err(es)?;
    }
    let clock = Arc::new(AtomicU64::new(0));
    sched::region(true);
    // when each call began and returned, and what it received
    type Ev = (T, u64, u64, Vec<(usize, u64)>);
    let jobs: Vec<Box<dyn FnOnce() -> Result<Vec<Ev>, String> + Send>> = p
        .threads
        .iter()
        .map(|t| {
            let (t, db, subs, rx, clock) = (t.clone(), db.clone(), subs.clone(), rx.clone(), clock.clone());
            Box::new(move || {
                let mut out = vec![];
                for t in t {
                    let a = clock.fetch_add(1, SeqCst);
                    let mut got = vec![];
                    match t {
                        T::Sub(i, k) => {
                            let s = subs[i].lock().unwrap();
                            subscribe(s.as_ref().unwrap(), k).map_err(es)?;
                        }
                        T::Unsub(i, k) => {
                            let s = subs[i].lock().unwrap();
                            unsubscribe(s.as_ref().unwrap(), k).map_err(es)?;
                        }
                        T::Drop(i) => {
                            let s = subs[i].lock().unwrap().take();
                            drop(s);
                        }
                        T::Pub(k, n) => db.publish_bytes(TOPICS[k].to_vec(), n.to_be_bytes().to_vec()).map_err(es)?,
                        T::Recv(i, n) => {
                            for _ in 0..n {
                                got.push(message(&rx[i].receive().map_err(es)?)?);
                            }
                        }
                        T::RecvAll(i) => {
                            while let Ok(m) = rx[i].receive() {
                                got.push(message(&m)?);
                            }
                        }
                    }
                    out.push((t, a, clock.fetch_add(1, SeqCst), got));
                }
                Ok(out)
            }) as Box<dyn FnOnce() -> Result<Vec<Ev>, String> + Send>
        })
        .collect();
    let rs = par(jobs);
    sched::region(false);
    let mut ev: Vec<(usize, Ev)> = vec![];
    for (i, r) in rs.into_iter().enumerate() {
        ev.extend(r?.into_iter().map(|e| (i, e)));
    }
    let mut shown = vec![];
    for i in 0..2 {
        let mut got: Vec<(usize, u64)> = ev.iter().filter(|(_, e)| matches!(e.0, T::Recv(x, _) | T::RecvAll(x) if x == i)).flat_map(|(_, e)| e.3.clone()).collect();
        while let Ok(m) = rx[i].try_receive() {
            got.push(message(&m)?);
        }
        let mut count: BTreeMap<(usize, u64), usize> = BTreeMap::new();
        got.iter().for_each(|g| *count.entry(*g).or_default() += 1);
        if count.values().any(|c| *c > 1) {
            return Err(format!("subscriber {i} received {got:?}"));
        }
        // subscriptions as a history: (topic, subscribed, began, returned)
        let mut h: Vec<(usize, bool, u64, u64)> = vec![];
        for (_, e) in &ev {
            match e.0 {
                T::Sub(x, t) if x == i => h.push((t, true, e.1 + 1, e.2 + 1)),
                T::Unsub(x, t) if x == i => h.push((t, false, e.1 + 1, e.2 + 1)),
                T::Drop(x) if x == i => (0..3).for_each(|t| h.push((t, false, e.1 + 1, e.2 + 1))),
                _ => {}
            }
        }
        for (th, e) in &ev {
            let T::Pub(t, n) = e.0 else { continue };
            let (b, r) = (e.1 + 1, e.2 + 1);
            let here = count.contains_key(&(t, n));
            // the last change that was over before, and those under way meanwhile
            let init = p.init.contains(&(i, t));
            let last = h.iter().filter(|x| x.0 == t && x.3 < b).max_by_key(|x| x.3).map_or(init, |x| x.1);
            let during: Vec<bool> = h.iter().filter(|x| x.0 == t && x.3 >= b && x.2 <= r).map(|x| x.1).collect();
            if here && !last && !during.contains(&true) {
                return Err(format!("subscriber {i} received message {n} of a topic it is not subscribed to"));
            }
            if !here && last && !during.contains(&false) {
                return Err(format!("subscriber {i} did not receive message {n} of a topic it is subscribed to"));
            }
            // in the order of one publisher
            for (th2, e2) in &ev {
                if let T::Pub(t2, n2) = e2.0 {
                    let pos = |k| got.iter().position(|g| *g == k);
                    if th == th2 && e.2 < e2.1 {
                        if let (Some(x), Some(y)) = (pos((t, n)), pos((t2, n2))) {
                            if x > y {
                                return Err(format!("subscriber {i} received {got:?}, out of order"));
                            }
                        }
                    }
                }
            }
        }
        shown.push(got);
    }
    drop(s);
    Ok(format!("{shown:?}"))
}
fn programs(big: bool) -> Vec<(String, Sc, usize)> {
    let b = if big { 4 } else { 2 };
    [
        (vec![(0, 0)], vec![vec![T::Pub(0, 1), T::Pub(0, 2)], vec![T::Recv(0, 2)]]),
        (vec![(0, 0), (1, 0)], vec![vec![T::Pub(0, 1)], vec![T::Pub(0, 2)], vec![T::Unsub(1, 0)]]),
        (vec![(1, 0)], vec![vec![T::Sub(0, 0), T::Pub(0, 1)], vec![T::Unsub(1, 0), T::Pub(0, 2)]]),
        (vec![(0, 0)], vec![vec![T::Drop(0)], vec![T::Pub(0, 1), T::Pub(0, 2)], vec![T::RecvAll(0)]]),
        (vec![(0, 0)], vec![vec![T::Unsub(0, 0), T::Sub(1, 0)], vec![T::Pub(0, 1), T::Pub(0, 2)], vec![T::Sub(0, 1), T::Pub(1, 3)]]),
        (vec![(0, 0), (0, 1), (1, 0)], vec![vec![T::Drop(0)], vec![T::Sub(1, 1), T::Pub(1, 1)], vec![T::Pub(0, 2), T::Pub(1, 3)]]),
        (vec![], vec![vec![T::Sub(0, 0), T::Unsub(0, 0), T::Pub(0, 3)], vec![T::Pub(0, 1)], vec![T::Sub(1, 0), T::Pub(0, 2)]]),
    ]
    .into_iter()
    .map(|(init, threads)| {
        let s = Sc { init, threads };
        (format!("{s:?}"), s, b)
    })
    .collect()
}

pub fn run() -> i32 {
    let mut r = Report::new("C19", "model_checking");
    let big = r.thorough();
    let parts = 16u64;
    seq::run(&mut r, Mode::Controlled, (0..parts).collect(), |p, a| tour::cover(&G, *p, parts, a));
    let st = r.coverage.get("model_states").cloned().unwrap_or_default();
    let tr = r.coverage.get("transitions").cloned().unwrap_or_default();
    r.set("sequential_model_states", st);
    r.set("sequential_transitions", tr);
    if r.violations.is_empty() {
        super::explore_all(&mut r, programs(big), if big { 1500.0 } else { 12.0 }, conc);
    }
    r.assume("three subscribers, three topics, two databases");
    r.finish()
}
pub fn replay(f: &Replay) -> i32 {
    for (n, p, _) in programs(true) {
        if n == f.scenario {
            engine::run_one(&|e: &Env| conc(&p, e), &f.dev, true).show();
            return 1;
        }
    }
    2
}
