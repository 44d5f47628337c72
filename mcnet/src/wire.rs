//! Plain sockets that speak the framing of WebSockets, and a relay between a
//! client and a server that records what passes and breaks connections.
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU16, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const TEXT: u8 = 1;
pub const BINARY: u8 = 2;
pub const CLOSE: u8 = 8;
pub const PING: u8 = 9;
pub const PONG: u8 = 10;

/// A masked frame, as clients send them.
pub fn frame(op: u8, fin: bool, data: &[u8]) -> Vec<u8> {
    let mut f = vec![op | if fin { 0x80 } else { 0 }];
    match data.len() {
        n if n < 126 => f.push(0x80 | n as u8),
        n if n < 65536 => {
            f.push(0x80 | 126);
            f.extend((n as u16).to_be_bytes());
        }
        n => {
            f.push(0x80 | 127);
            f.extend((n as u64).to_be_bytes());
        }
    }
    let mask = [1u8, 2, 3, 4];
    f.extend(mask);
    f.extend(data.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]));
    f
}
/// The frames (opcode, contents, end position) of a stream after its headers.
pub fn frames(b: &[u8]) -> Vec<(u8, Vec<u8>, usize)> {
    let mut out = vec![];
    let Some(mut at) = b.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4) else { return out };
    while let Some((op, data, n)) = parse(&b[at..]) {
        at += n;
        out.push((op, data, at));
    }
    out
}
fn parse(b: &[u8]) -> Option<(u8, Vec<u8>, usize)> {
    let (op, l) = (*b.first()? & 15, *b.get(1)?);
    let (mut at, n) = match l & 0x7f {
        126 => (4, usize::from(u16::from_be_bytes(b.get(2..4)?.try_into().unwrap()))),
        127 => (10, u64::from_be_bytes(b.get(2..10)?.try_into().unwrap()) as usize),
        n => (2, usize::from(n)),
    };
    let mut mask = [0; 4];
    if l & 0x80 != 0 {
        mask.copy_from_slice(b.get(at..at + 4)?);
        at += 4;
    }
    let data = b.get(at..at.checked_add(n)?)?.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]).collect();
    Some((op, data, at + n))
}

/// A connection of our own.
pub struct Raw {
    pub s: TcpStream,
    got: Vec<u8>,
    /// stop waiting
    pub give_up: fn() -> bool,
    /// how many seconds to wait for an answer
    pub patience: u32,
}
impl Raw {
    pub fn plain(port: u16) -> Result<Self, String> {
        let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| e.to_string())?;
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(Duration::from_millis(50))).unwrap();
        Ok(Raw { s, got: vec![], give_up: || false, patience: 10 })
    }
    pub fn hello() -> String {
        "GET / HTTP/1.1\r\nHost: localhost\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: bonsai-pre-1\r\n\r\n".into()
    }
    pub fn connect(port: u16) -> Result<Self, String> {
        let mut c = Self::plain(port)?;
        c.send(Self::hello().as_bytes());
        loop {
            if let Some(p) = c.got.windows(4).position(|w| w == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&c.got[..p]).to_string();
                if !head.starts_with("HTTP/1.1 101") {
                    return Err(head);
                }
                c.got.drain(..p + 4);
                return Ok(c);
            }
            if !c.more()? {
                return Err("closed while connecting".into());
            }
        }
    }
    pub fn send(&mut self, b: &[u8]) {
        drop(self.s.write_all(b));
    }
    fn more(&mut self) -> Result<bool, String> {
        let mut b = [0; 16384];
        let mut t = 0;
        let r = loop {
            let r = self.s.read(&mut b);
            t += 1;
            if t >= self.patience * 20 || (self.give_up)() || !r.as_ref().is_err_and(|e| matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut)) {
                break r;
            }
        };
        match r {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.got.extend(&b[..n]);
                Ok(true)
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Err("no answer".into()),
            Err(_) => Ok(false),
        }
    }
    /// The next frame; None when the connection was closed.
    pub fn next(&mut self) -> Result<Option<(u8, Vec<u8>)>, String> {
        loop {
            if let Some((op, data, n)) = parse(&self.got) {
                self.got.drain(..n);
                return Ok(Some((op, data)));
            }
            if !self.more()? {
                return Ok(None);
            }
        }
    }
}

/// How a connection ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum How {
    Reset,
    Fin,
    /// a close frame to the client, then the end
    Goodbye,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cut {
    /// the number of the connection
    pub conn: usize,
    /// what is counted: bytes to the server, or to the client
    pub up: bool,
    pub at: usize,
    pub how: How,
}
#[derive(Default)]
pub struct Traffic {
    pub up: Vec<u8>,
    pub down: Vec<u8>,
}
#[derive(Default)]
pub struct State {
    pub conns: Vec<Traffic>,
    pub cut: Option<Cut>,
    pub done: bool,
    alive: Vec<[TcpStream; 2]>,
}
pub struct Relay {
    pub port: u16,
    pub state: Arc<Mutex<State>>,
    /// the port that all connections but the first are passed on to
    pub next: Arc<AtomicU16>,
    stop: Arc<AtomicBool>,
}
fn end(s: &TcpStream, how: How) {
    if how == How::Reset {
        use std::os::unix::io::AsRawFd;
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, (&l as *const libc::linger).cast(), std::mem::size_of::<libc::linger>() as u32) };
    } else {
        drop(s.shutdown(Shutdown::Both));
    }
}
impl Relay {
    pub fn new(to: u16, cut: Option<Cut>) -> Result<Self, String> {
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
        let port = l.local_addr().unwrap().port();
        let state = Arc::new(Mutex::new(State { cut, ..State::default() }));
        let stop = Arc::new(AtomicBool::new(false));
        let (st, sp) = (state.clone(), stop.clone());
        let next = Arc::new(AtomicU16::new(to));
        let nx = next.clone();
        std::thread::spawn(move || {
            for c in l.incoming() {
                if sp.load(Ordering::SeqCst) {
                    return;
                }
                let (Ok(c), Ok(s)) = (c, TcpStream::connect(("127.0.0.1", if st.lock().unwrap().conns.is_empty() { to } else { nx.load(Ordering::SeqCst) }))) else { continue };
                drop((c.set_nodelay(true), s.set_nodelay(true)));
                let n = {
                    let mut st = st.lock().unwrap();
                    st.conns.push(Traffic::default());
                    st.alive.push([c.try_clone().unwrap(), s.try_clone().unwrap()]);
                    st.conns.len() - 1
                };
                let (c2, s2) = (c.try_clone().unwrap(), s.try_clone().unwrap());
                // (a connection may be cut before anything passes)
                if pass(&st, n, true, &[], &s, &c) {
                    continue;
                }
                let (st1, st2) = (st.clone(), st.clone());
                std::thread::spawn(move || pump(c, s, &st1, n, true));
                std::thread::spawn(move || pump(s2, c2, &st2, n, false));
            }
        });
        Ok(Relay { port, state, next, stop })
    }
    pub fn cut_happened(&self) -> bool {
        self.state.lock().unwrap().done
    }
}
impl Drop for Relay {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        drop(TcpStream::connect(("127.0.0.1", self.port)));
        for p in &self.state.lock().unwrap().alive {
            end(&p[0], How::Fin);
            end(&p[1], How::Fin);
        }
    }
}
/// Passes bytes on; true if the connection ended with them.
fn pass(st: &Mutex<State>, n: usize, up: bool, b: &[u8], to: &TcpStream, from: &TcpStream) -> bool {
    let mut st = st.lock().unwrap();
    if st.done && st.cut.map(|c| c.conn) == Some(n) {
        return true;
    }
    let cut = st.cut.filter(|c| c.conn == n && c.up == up);
    let t = &mut st.conns[n];
    let dir = if up { &mut t.up } else { &mut t.down };
    let before = dir.len();
    dir.extend(b);
    if let Some(c) = cut {
        if dir.len() >= c.at {
            let k = c.at - before;
            dir.truncate(c.at);
            let mut w = to;
            drop(w.write_all(&b[..k]));
            let (client, server) = if up { (from, to) } else { (to, from) };
            // (between two frames)
            let t = &st.conns[n].down;
            let whole = frames(t).last().map_or(t.ends_with(b"\r\n\r\n"), |f| f.2 == t.len());
            if c.how == How::Goodbye && whole {
                let mut w = client;
                drop(w.write_all(&[0x88, 0]));
            }
            // what was passed on is delivered before a reset
            if c.how == How::Reset && k > 0 {
                std::thread::sleep(Duration::from_millis(1));
            }
            end(client, c.how);
            end(server, c.how);
            st.alive[n] = [TcpStream::connect_dummy(), TcpStream::connect_dummy()];
            st.done = true;
            return true;
        }
    }
    drop(st);
    let mut w = to;
    w.write_all(b).is_err()
}
trait Dummy {
    fn connect_dummy() -> TcpStream;
}
impl Dummy for TcpStream {
    /// A stream that is not the one it replaces.
    fn connect_dummy() -> TcpStream {
        use std::os::unix::io::FromRawFd;
        let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0) };
        unsafe { TcpStream::from_raw_fd(fd) }
    }
}
fn pump(mut from: TcpStream, to: TcpStream, st: &Mutex<State>, n: usize, up: bool) {
    let mut b = [0; 65536];
    loop {
        match from.read(&mut b) {
            Ok(0) | Err(_) => {
                drop(to.shutdown(Shutdown::Write));
                return;
            }
            Ok(k) => {
                if pass(st, n, up, &b[..k], &to, &from) {
                    drop(from.shutdown(Shutdown::Both));
                    drop(to.shutdown(Shutdown::Both));
                    return;
                }
            }
        }
    }
}
