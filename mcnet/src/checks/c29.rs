//! C29: whatever a client sends, the server answers or closes that
//! connection, does nothing that is not permitted, and keeps serving others.
use bonsaidb_core::api::Api;
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::SessionId;
use bonsaidb_core::networking::{self as net, Payload};
use bonsaidb_core::permissions::bonsai::{BonsaiAction, ServerAction};
use bonsaidb_core::schema::Qualified;
use bonsaidb_core::permissions::{Permissions, Statement};
use serde_json::json;

use super::c24::{async_dump, async_part, prepared, Net2, ALL, PREPARED};
use crate::engine::{self, take_panics};
use crate::report::Report;
use crate::seq::{self, Acc, Mode};
use crate::twins::Op;
use crate::wire::{self, Raw, Relay};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}
fn few() -> Permissions {
    Permissions::from(vec![Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::Connect))])
}

/// The messages of a client that does everything once.
fn requests() -> Result<Vec<Vec<u8>>, String> {
    let n = Net2::new(false, Permissions::allow_all())?;
    let relay = Relay::new(n.url.port().unwrap(), None)?;
    n.rt.block_on(async { prepared(&super::c24::async_run(&n.server, "d", PREPARED).await) });
    let mut at = n.url.clone();
    at.set_port(Some(relay.port)).unwrap();
    let c = {
        let _g = n.rt.enter();
        bonsaidb_client::AsyncClient::build(at).build().map_err(es)?
    };
    let seq: Vec<Op> = ALL.iter().flat_map(|l| l.iter()).copied().collect();
    n.rt.block_on(async_part(&c, "d", &seq));
    let st = relay.state.lock().unwrap();
    let mut out: Vec<Vec<u8>> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for (op, data, _) in wire::frames(&st.conns[0].up) {
        let Ok(mut p) = bincode::deserialize::<Payload>(&data) else { continue };
        p.id = Some(7);
        p.session_id = None;
        let b = bincode::serialize(&p).map_err(es)?;
        if op == wire::BINARY && seen.insert(b.clone()) {
            out.push(b);
        }
    }
    drop(st);
    Ok(out)
}
/// Of every kind of request, the shortest and the longest ones.
fn chosen(all: &[Vec<u8>], per_kind: usize) -> Vec<Vec<u8>> {
    let mut kinds: std::collections::BTreeMap<String, Vec<&Vec<u8>>> = Default::default();
    for r in all {
        let p: Payload = bincode::deserialize(r).unwrap();
        kinds.entry(p.name.to_string()).or_default().push(r);
    }
    let mut out = vec![];
    for (_, mut v) in kinds {
        v.sort_by_key(|r| (r.len(), r.to_vec()));
        v.reverse();
        v.truncate(per_kind);
        out.extend(v.into_iter().cloned());
    }
    out
}

const ENDLESS: &str = "decoding a request (pot) does not end: a map of a huge length";

#[derive(Debug, Clone)]
enum J {
    /// variants of a request
    Bytes { request: usize, of: Vec<u8>, all: bool, values: usize },
    /// payloads that no client sends
    Odd { all: bool },
    Frames,
}

struct Sys {
    n: Net2,
    port: u16,
    c: Raw,
    other: Raw,
    all: bool,
    before: Vec<String>,
}
impl Sys {
    fn new(all: bool) -> Result<Self, String> {
        let n = Net2::new(false, if all { Permissions::allow_all() } else { few() })?;
        n.rt.block_on(async { prepared(&super::c24::async_run(&n.server, "d", PREPARED).await) });
        let port = n.url.port().unwrap();
        let before = n.rt.block_on(async_dump(&n.server));
        let (mut c, mut other) = (Raw::connect(port)?, Raw::connect(port)?);
        c.give_up = engine::panicked;
        other.give_up = engine::panicked;
        take_panics();
        Ok(Sys { n, port, c, other, all, before })
    }
    fn again(&mut self) -> Result<(), String> {
        self.c = Raw::connect(self.port)?;
        self.c.give_up = engine::panicked;
        Ok(())
    }
    /// Sends a message: answered, or the connection is closed.
    fn message(&mut self, m: &[u8]) -> Result<u64, String> {
        self.c.send(&wire::frame(wire::BINARY, true, m));
        let r = loop {
            match self.c.next() {
                Ok(Some((wire::BINARY, data))) => {
                    let p: Payload = bincode::deserialize(&data).map_err(|e| format!("an answer that cannot be read: {e}"))?;
                    if p.id.is_none() && p.name == net::MessageReceived::name() {
                        continue;
                    }
                    break if p.value.is_ok() { 0 } else { 1 };
                }
                Ok(Some((wire::CLOSE, _)) | None) => {
                    self.again()?;
                    break 2;
                }
                Ok(Some((op, _))) => return Err(format!("a frame of type {op}")),
                Err(e) => {
                    let p = take_panics();
                    return Err(if p.is_empty() { e } else { format!("the server panicked: {}", p.join("; ")) });
                }
            }
        };
        let p = take_panics();
        if !p.is_empty() {
            return Err(format!("the server panicked: {}", p.join("; ")));
        }
        Ok(r)
    }
    /// Others are served.
    fn others(&mut self) -> Result<(), String> {
        let p = Payload { session_id: None, id: Some(3), name: net::ListDatabases::name(), value: Ok(Bytes::from(pot::to_vec(&net::ListDatabases).unwrap())) };
        self.other.send(&wire::frame(wire::BINARY, true, &bincode::serialize(&p).unwrap()));
        match self.other.next() {
            Ok(Some((wire::BINARY, data))) => {
                let p: Payload = bincode::deserialize(&data).map_err(es)?;
                if p.id != Some(3) || p.value.is_ok() != self.all {
                    return Err(format!("another connection was answered {p:?}"));
                }
                Ok(())
            }
            r => Err(format!("another connection is not served: {r:?}")),
        }
    }
    /// Nothing was done without permission.
    fn unchanged(&mut self) -> Result<(), String> {
        if !self.all {
            let now = self.n.rt.block_on(async_dump(&self.n.server));
            if now != self.before {
                return Err(format!("something changed: {now:?}, before {:?}", self.before));
            }
        }
        Ok(())
    }
}

/// Decodes the contents of a message as the server does, with nothing but the
/// format's own code (pot, a dependency): does that end?
fn decode(name: &str, b: &[u8]) {
    macro_rules! by_name {
        ($($t:ident),*) => { $(if name == net::$t::name().to_string() { drop(pot::from_slice::<net::$t>(b)); })* };
    }
    by_name!(
        CreateDatabase, DeleteDatabase, ListDatabases, ListAvailableSchemas, CreateUser, DeleteUser, SetUserPassword,
        Authenticate, AssumeIdentity, LogOutSession, AlterUserPermissionGroupMembership, AlterUserRoleMembership, Get,
        GetMultiple, List, ListHeaders, Count, Query, QueryWithDocs, Reduce, ReduceGrouped, DeleteDocs, ApplyTransaction,
        ListExecutedTransactions, LastTransactionId, CreateSubscriber, Publish, PublishToAll, SubscribeTo, UnsubscribeFrom,
        UnregisterSubscriber, ExecuteKeyOperation, CompactCollection, CompactKeyValueStore, Compact
    );
}
/// Decodes in a thread of its own.
struct Decoder(Option<(std::sync::mpsc::Sender<Vec<u8>>, std::sync::mpsc::Receiver<()>)>);
impl Decoder {
    fn ends(&mut self, message: &[u8]) -> bool {
        if self.0.is_none() {
            let (tx, jobs) = std::sync::mpsc::channel::<Vec<u8>>();
            let (done, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                for m in jobs {
                    // (a panic shows in the server itself)
                    drop(std::panic::catch_unwind(|| {
                        if let Ok(Payload { name, value: Ok(v), .. }) = bincode::deserialize(&m) {
                            decode(&name.to_string(), &v);
                        }
                    }));
                    take_panics();
                    if done.send(()).is_err() {
                        return;
                    }
                }
            });
            self.0 = Some((tx, rx));
        }
        let (tx, rx) = self.0.as_ref().unwrap();
        drop(tx.send(message.to_vec()));
        let ok = rx.recv_timeout(std::time::Duration::from_secs(3)).is_ok();
        if !ok {
            self.0 = None;
            freeze();
        }
        ok
    }
}
/// Puts every thread that is running (in a loop without an end) to sleep.
fn freeze() {
    extern "C" fn forever(_: i32) {
        loop {
            unsafe { libc::pause() };
        }
    }
    let (me, pid) = unsafe { (libc::gettid(), libc::getpid()) };
    unsafe { libc::signal(libc::SIGUSR1, forever as extern "C" fn(i32) as usize) };
    std::thread::sleep(std::time::Duration::from_millis(100));
    for t in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
        let tid: i32 = t.file_name().to_string_lossy().parse().unwrap_or(me);
        let stat = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        let running = stat.rsplit(')').next().unwrap_or("").trim().starts_with('R');
        if tid != me && running {
            unsafe { libc::syscall(libc::SYS_tgkill, pid, tid, libc::SIGUSR1) };
        }
    }
}

fn variants(of: &[u8], values: usize) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let xs: Vec<u8> = if values >= 255 { (1..=255).collect() } else { [1u8, 0x80, 0xff, 0x10, 2, 0x7f, 0x40, 8][..values].to_vec() };
    for i in 0..of.len() {
        for x in &xs {
            let mut m = of.to_vec();
            m[i] ^= x;
            out.push((format!("byte {i} changed by {x}"), m));
        }
        out.push((format!("cut to {i} bytes"), of[..i].to_vec()));
        // part of the request missing, with the lengths around it intact
        if let Ok(mut p) = bincode::deserialize::<Payload>(of) {
            let v = p.value.unwrap();
            if i <= v.len() {
                p.value = Ok(Bytes::from(v[..i].to_vec()));
                out.push((format!("contents cut to {i} bytes"), bincode::serialize(&p).unwrap()));
            }
        }
    }
    // (a length, read from what was part of a symbol)
    if let Some(b) = of.get(179).filter(|_| values < 255) {
        let mut m = of.to_vec();
        m[179] = b ^ 6;
        out.push(("byte 179 changed by 6".into(), m));
    }
    for tail in [&[0u8][..], &[0xff; 9]] {
        out.push((format!("followed by {tail:?}"), [of, tail].concat()));
    }
    out
}

fn bytes(request: usize, of: &[u8], all: bool, values: usize, acc: &mut Acc) {
    let p: Payload = bincode::deserialize(of).unwrap();
    let name = format!("{} ({request}), {}", p.name, if all { "permitted" } else { "not permitted" });
    acc.at(&name);
    let mut endless = 0;
    let mut dec = Decoder(None);
    let mut sys: Option<Sys> = None;
    for (i, (how, m)) in variants(of, values).into_iter().enumerate() {
        acc.at(&format!("{name}: {how}"));
        if !dec.ends(&m) {
            endless += 1;
            acc.count("messages_whose_decoding_does_not_end", 1);
            if endless > 1 {
                // shown for one message of each request
                continue;
            }
            let answer = engine::no_panic(|| {
                let mut s = Sys::new(all)?;
                s.c.patience = 5;
                let r = s.message(&m);
                freeze();
                std::mem::forget(s);
                r
            });
            if !matches!(answer, Ok(Ok(_))) {
                acc.bad(ENDLESS.into(), json!({"request": name, "variant": how, "message": m}));
            }
            continue;
        }
        let r = engine::no_panic(|| -> Result<u64, String> {
            if sys.is_none() {
                sys = Some(Sys::new(all)?);
            }
            let s = sys.as_mut().unwrap();
            let r = s.message(&m)?;
            if i % 16 == 0 {
                s.others()?;
            }
            Ok(r)
        });
        acc.count("messages", 1);
        match r.unwrap_or_else(|e| Err(format!("panicked: {e}"))) {
            Ok(r) => {
                acc.count(["answered", "refused", "connections_closed"][r as usize], 1);
                acc.outcome(&(request, all, r));
            }
            Err(e) => {
                // (by what goes wrong, not by which byte shows it)
                acc.bad(format!("{name}: {e}"), json!({"request": name, "variant": how, "message": m}));
                sys = None;
                failed();
                if enough() {
                    break;
                }
            }
        }
    }
    if let Some(mut s) = sys {
        if let Err(e) = s.others().and_then(|()| s.unchanged()) {
            acc.bad(format!("{name}: after all variants: {e}"), json!({"request": name}));
        }
    }
}

fn odd(all: bool, requests: &[Vec<u8>], acc: &mut Acc) {
    let mut list: Vec<(String, Payload)> = vec![];
    for r in requests {
        let p: Payload = bincode::deserialize(r).unwrap();
        for (k, session) in [None, Some(SessionId(0)), Some(SessionId(1)), Some(SessionId(2)), Some(SessionId(u64::MAX))].into_iter().enumerate() {
            for id in [None, Some(0), Some(u32::MAX)] {
                list.push((format!("{} with session {k} and id {id:?}", p.name), Payload { session_id: session, id, ..p.clone() }));
            }
        }
        for e in [bonsaidb_core::Error::InvalidCredentials, bonsaidb_core::Error::DatabaseNotFound("d".into()), bonsaidb_core::Error::UserNotFound] {
            list.push((format!("{} with an error", p.name), Payload { value: Err(e), ..p.clone() }));
        }
        for name in ["", "x", "Get"] {
            list.push((format!("a request named {name:?}"), Payload { name: bonsaidb_core::api::ApiName::new("bonsaidb", name.to_string()), ..p.clone() }));
            list.push((format!("a request named {name:?} of x"), Payload { name: bonsaidb_core::api::ApiName::new("x", name.to_string()), ..p.clone() }));
        }
    }
    // the contents of one request, the name of another
    let all_p: Vec<Payload> = requests.iter().map(|r| bincode::deserialize(r).unwrap()).collect();
    for a in &all_p {
        for b in &all_p {
            list.push((format!("{} with the contents of {}", a.name, b.name), Payload { value: b.value.clone(), ..a.clone() }));
        }
    }
    let mut sys: Option<Sys> = None;
    for (name, p) in list {
        let name = format!("{name}, {}", if all { "permitted" } else { "not permitted" });
        acc.at(&name);
        acc.count("messages", 1);
        let r = engine::no_panic(|| -> Result<u64, String> {
            if sys.is_none() {
                sys = Some(Sys::new(all)?);
            }
            let s = sys.as_mut().unwrap();
            let r = s.message(&bincode::serialize(&p).map_err(es)?)?;
            s.others()?;
            Ok(r)
        });
        match r.unwrap_or_else(|e| Err(format!("panicked: {e}"))) {
            Ok(r) => {
                acc.count(["answered", "refused", "connections_closed"][r as usize], 1);
                acc.outcome(&(&name, r));
            }
            Err(e) => {
                acc.bad(format!("{name}: {e}"), json!({"request": name}));
                sys = None;
                failed();
                if enough() {
                    break;
                }
            }
        }
    }
    if let Some(mut s) = sys {
        if let Err(e) = s.unchanged() {
            acc.bad(format!("unusual requests: {e}"), json!({"permitted": all}));
        }
    }
}

/// What is sent, and whether the connection may stay open.
fn frame_cases(valid: &[u8]) -> Vec<(String, bool, Vec<u8>)> {
    use wire::{frame, BINARY, CLOSE, PING, PONG, TEXT};
    let mut out: Vec<(String, bool, Vec<u8>)> = vec![];
    let hello = Raw::hello().into_bytes();
    // before the connection is one of WebSockets
    for i in 0..=hello.len() {
        out.push((format!("a greeting cut to {i} bytes"), false, hello[..i].to_vec()));
    }
    for (name, from, to) in [
        ("an unknown protocol", "bonsai-pre-1", "bonsai-pre-0"),
        ("no key", "Sec-WebSocket-Key", "X-Key"),
        ("another version", "Version: 13", "Version: 12"),
        ("another method", "GET", "PUT"),
        ("no upgrade", "Upgrade: websocket", "Upgrade: x"),
        ("no protocol", "Sec-WebSocket-Protocol", "X"),
    ] {
        out.push((format!("a greeting with {name}"), false, String::from_utf8(hello.clone()).unwrap().replacen(from, to, 1).into_bytes()));
    }
    for b in [&b"\0"[..], b"\r\n\r\n", b"x\r\n\r\n", &[0xff; 100], &[b'a'; 20000]] {
        out.push((format!("{} bytes that are no greeting", b.len()), false, b.to_vec()));
    }
    let mut add = |name: String, f: Vec<u8>| out.push((name, true, [&hello[..], &f].concat()));
    for op in 0..16u8 {
        for fin in [false, true] {
            for data in [&b""[..], b"x", valid, &[3, 232], &[b'y'; 200]] {
                add(format!("a frame of type {op} ({fin}) with {} bytes", data.len()), frame(op, fin, data));
                // followed by a request
                add(format!("a frame of type {op} ({fin}) with {} bytes, then a request", data.len()), [frame(op, fin, data), frame(BINARY, true, valid)].concat());
            }
            for r in 1..8u8 {
                let mut f = frame(op, fin, valid);
                f[0] |= r << 4;
                add(format!("a frame of type {op} ({fin}) with reserved bits {r}"), f);
            }
        }
    }
    // not masked
    let mut f = frame(BINARY, true, valid);
    f[1] &= 0x7f;
    add("a frame without a mask".into(), f);
    // lengths that are not kept
    for l in [125u8, 126, 127] {
        for b in [0u8, 1, 0x7f, 0xff] {
            add(format!("a frame of length {l} {b}"), [vec![0x82, 0x80 | l], vec![b; 12], valid.to_vec()].concat());
        }
    }
    let whole = frame(BINARY, true, valid);
    for i in 0..whole.len() {
        add(format!("a frame cut to {i} bytes"), whole[..i].to_vec());
    }
    // fragments
    for i in 0..=valid.len() {
        add(format!("a request in two fragments at {i}"), [frame(BINARY, false, &valid[..i]), frame(0, true, &valid[i..])].concat());
        add(format!("a request in two fragments at {i} around a ping"), [frame(BINARY, false, &valid[..i]), frame(PING, true, b"p"), frame(0, true, &valid[i..])].concat());
        add(format!("a request in two fragments at {i} around another"), [frame(BINARY, false, &valid[..i]), whole.clone(), frame(0, true, &valid[i..])].concat());
    }
    add("many requests at once".into(), whole.repeat(100));
    add("many requests at once, then goodbye".into(), [whole.repeat(100), frame(CLOSE, true, &[3, 232])].concat());
    add("many pings".into(), frame(PING, true, b"x").repeat(100));
    add("a pong".into(), frame(PONG, true, b""));
    add("text".into(), frame(TEXT, true, &[0xff, 0xfe]));
    out
}
fn frames(valid: &[u8], part: usize, parts: usize, acc: &mut Acc) {
    let mut sys: Option<Sys> = None;
    for (i, (name, _, b)) in frame_cases(valid).into_iter().enumerate() {
        if i % parts != part {
            continue;
        }
        acc.at(&name);
        for half in [false, true] {
            acc.count("messages", 1);
            let r = engine::no_panic(|| -> Result<usize, String> {
                if sys.is_none() {
                    sys = Some(Sys::new(true)?);
                }
                let s = sys.as_mut().unwrap();
                let mut c = Raw::plain(s.port)?;
                c.send(&b);
                if half {
                    drop(c.s.shutdown(std::net::Shutdown::Write));
                }
                s.others()?;
                drop(c);
                s.others()?;
                // the server notices that the connection is gone
                for t in 0.. {
                    let n = s.n.server.connected_clients().len();
                    if n == 2 {
                        break;
                    }
                    if t > 2000 {
                        return Err(format!("{n} clients are connected, not 2"));
                    }
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
                let p = take_panics();
                if !p.is_empty() {
                    return Err(format!("the server panicked: {}", p.join("; ")));
                }
                Ok(0)
            });
            match r.unwrap_or_else(|e| Err(format!("panicked: {e}"))) {
                Ok(_) => acc.outcome(&(&name, half)),
                Err(e) => {
                    acc.bad(format!("{name}: {e}"), json!({"case": name, "sent": b, "half": half}));
                    sys = None;
                    failed();
                    if enough() {
                        return;
                    }
                }
            }
        }
    }
}

/// How many failures all workers have seen (most of them take a while).
fn failures() -> &'static std::sync::atomic::AtomicU32 {
    static AT: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let at = AT.get_or_init(|| unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as usize
    });
    unsafe { &*(*at as *const std::sync::atomic::AtomicU32) }
}
fn failed() {
    failures().fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}
fn enough() -> bool {
    failures().load(std::sync::atomic::Ordering::SeqCst) >= 8
}

pub fn run() -> i32 {
    let mut r = Report::new("C29", "model_checking");
    failures();
    let big = r.thorough();
    let all = match engine::no_panic(|| super::in_child(requests)) {
        Ok(Ok(r)) => r,
        e => {
            r.violation(&format!("no requests: {e:?}"), json!({}));
            return r.finish();
        }
    };
    let list = if big { all.clone() } else { chosen(&all, 1) };
    let mut jobs = vec![];
    for permitted in [false, true] {
        for (request, of) in list.iter().enumerate() {
            if let Ok(o) = std::env::var("MC_ONLY") {
                if !bincode::deserialize::<Payload>(of).unwrap().name.to_string().contains(&o) {
                    continue;
                }
            }
            jobs.push(J::Bytes { request, of: of.clone(), all: permitted, values: if big { 255 } else { 3 } });
        }
        jobs.push(J::Odd { all: permitted });
    }
    let one = chosen(&all, 1);
    let parts = 8;
    let mut work: Vec<(J, usize)> = jobs.into_iter().map(|j| (j, 0)).collect();
    work.extend((0..parts).map(|p| (J::Frames, p)));
    let valid = one.iter().find(|r| r.len() < 125).unwrap_or(&one[0]).clone();
    seq::run(&mut r, Mode::Free, work, |(j, part), a| match j {
        _ if enough() => {}
        J::Bytes { request, of, all, values } => bytes(*request, of, *all, *values, a),
        J::Odd { all } => odd(*all, &one, a),
        J::Frames => frames(&valid, *part, parts, a),
    });
    r.finish()
}
