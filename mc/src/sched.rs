//! A controlled scheduler for real threads.
//!
//! Every thread of an execution (including those spawned inside the database)
//! runs only while it holds the baton. The baton can change hands at
//! scheduling points: before each lock acquisition (`lock_api`, `flume`), when
//! a futex wait blocks, at joins, sleeps and thread exits. At each scheduling
//! point with more than one candidate the next thread is a *choice*; choice 0
//! is the default (keep running), any other choice is a deviation: switch to
//! another thread, or demote the running one until nothing else can run.
#![allow(static_mut_refs)]

use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

use libc::{c_int, c_void, pthread_attr_t, pthread_t, timespec};
use serde::{Deserialize, Serialize};

use crate::os::{self, sys6};

#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready,
    Futex { addr: usize, bitset: u32, deadline: Option<i64> },
    Sleep { until: i64 },
    Join { target: usize },
    Exited,
}

struct Th {
    st: St,
    word: Box<AtomicU32>,
    pthread: pthread_t,
    timed_out: bool,
    yielded: bool,
    low: bool, // demoted: runs only when nothing else can
    at: u32, // object this thread is about to touch (0 = none)
}

/// One scheduling point with several candidates.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Point {
    pub cur: u16,
    /// whether the running thread could continue
    pub cont: bool,
    /// object (lock) the running thread is about to touch; 0 when blocked
    pub obj: u32,
    /// candidate threads, the default first
    pub opts: Vec<u16>,
    pub chosen: u16,
}

/// The longest turn, in scheduling points.
const FAIR: usize = 5_000;

struct Sch {
    th: Vec<Th>,
    cur: usize,
    region: bool,
    points: Vec<Point>,
    dev: Vec<(usize, u16)>,
    devi: usize,
    objs: HashMap<usize, u32>,
    touched: Vec<u64>, // per object: bitmask of threads
    ticks: u64,
    max_ticks: u64,
    steps: u64,
    max_points: usize,
    /// how long the current thread has had its turn
    turn: usize,
    on_stuck: fn(String) -> !,
    trace: Vec<(u16, u32)>,
    tracing: bool,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut S: Option<Sch> = None;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn s() -> &'static mut Sch {
    unsafe { S.as_mut().unwrap() }
}
fn me() -> usize {
    ME.try_with(Cell::get).unwrap_or(usize::MAX)
}

/// True when the calling thread is controlled by the scheduler.
pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed) && me() != usize::MAX
}

fn real_wait(w: &AtomicU32) {
    while w.swap(0, Ordering::SeqCst) == 0 {
        unsafe { sys6(libc::SYS_futex, w.as_ptr() as i64, libc::FUTEX_WAIT as i64 | 128, 0, 0, 0, 0) };
    }
}
fn real_wake(w: &AtomicU32) {
    w.store(1, Ordering::SeqCst);
    unsafe { sys6(libc::SYS_futex, w.as_ptr() as i64, libc::FUTEX_WAKE as i64 | 128, 1, 0, 0, 0) };
}

fn key() -> libc::pthread_key_t {
    static mut KEY: libc::pthread_key_t = 0;
    static INIT: AtomicBool = AtomicBool::new(false);
    unsafe extern "C" fn at_exit(_: *mut c_void) {
        if ACTIVE.load(Ordering::Relaxed) {
            thread_exit();
        }
    }
    unsafe {
        if !INIT.swap(true, Ordering::SeqCst) {
            libc::pthread_key_create(std::ptr::addr_of_mut!(KEY), Some(at_exit));
        }
        KEY
    }
}

/// Puts the calling (only) thread under control.
pub fn start(dev: Vec<(usize, u16)>, on_stuck: fn(String) -> !) {
    key();
    unsafe {
        S = Some(Sch {
            th: vec![Th {
                st: St::Ready,
                word: Box::new(AtomicU32::new(0)),
                pthread: libc::pthread_self(),
                timed_out: false,
                yielded: false,
                low: false,
                at: 0,
            }],
            cur: 0,
            region: false,
            points: Vec::new(),
            dev,
            devi: 0,
            objs: HashMap::new(),
            touched: vec![0],
            ticks: 0,
            max_ticks: 4000,
            steps: 0,
            max_points: 200_000,
            turn: 0,
            on_stuck,
            trace: Vec::new(),
            tracing: false,
        });
    }
    ME.with(|m| m.set(0));
    lock_api::mc_set_hook(hook);
    ACTIVE.store(true, Ordering::SeqCst);
}

pub fn set_tracing(on: bool) {
    s().tracing = on;
}

/// Enables choices (the explored region).
pub fn region(on: bool) {
    if active() {
        s().region = on;
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Trace {
    pub points: Vec<Point>,
    /// per object: how many threads touched it inside the region
    pub touched: Vec<u64>,
    pub steps: u64,
    pub unused: usize,
    pub trace: Vec<(u16, u32)>,
}

pub fn finish() -> Trace {
    let s = s();
    s.region = false;
    Trace {
        points: std::mem::take(&mut s.points),
        touched: std::mem::take(&mut s.touched),
        steps: s.steps,
        unused: s.dev.len() - s.devi,
        trace: std::mem::take(&mut s.trace),
    }
}

/// Snapshot that may be taken from the stuck handler.
pub fn snapshot() -> Trace {
    let s = s();
    Trace {
        points: s.points.clone(),
        touched: s.touched.clone(),
        steps: s.steps,
        unused: s.dev.len() - s.devi,
        trace: s.trace.clone(),
    }
}

pub fn thread_id() -> usize {
    me()
}

impl Sch {
    fn enabled(&self, t: usize) -> bool {
        let now = os::now_ns();
        match self.th[t].st {
            St::Ready => true,
            St::Futex { deadline, .. } => deadline.is_some_and(|d| os::vclock_on() && d <= now),
            St::Sleep { until } => until <= now,
            St::Join { target } => self.th[target].st == St::Exited,
            St::Exited => false,
        }
    }

    /// Picks the next thread; `cont` = the current thread may continue.
    fn pick(&mut self, obj: u32) -> usize {
        self.steps += 1;
        let n = self.th.len();
        // a thread that goes round and round, waiting for another one to do
        // something, is in the end interrupted
        self.turn += 1;
        if self.turn > FAIR {
            self.turn = 0;
            let cur = self.cur;
            for (i, t) in self.th.iter_mut().enumerate() {
                t.low = i == cur;
            }
        }
        loop {
            let mut opts: Vec<u16> = Vec::new();
            for low in [false, true] {
                for d in 0..n {
                    let t = (self.cur + d) % n;
                    if self.th[t].low == low && self.enabled(t) && !self.th[t].yielded {
                        opts.push(t as u16);
                    }
                }
            }
            let cont = opts.first() == Some(&(self.cur as u16));
            if opts.is_empty() {
                // only spinners?
                let mut any = false;
                for t in 0..n {
                    if self.th[t].yielded && self.enabled(t) {
                        any = true;
                    }
                    self.th[t].yielded = false;
                }
                if any {
                    self.ticks += 1;
                    if self.ticks > self.max_ticks {
                        (self.on_stuck)(format!("livelock: only spinning threads remain{}", self.describe()));
                    }
                    continue;
                }
                // advance the clock to the earliest deadline
                let next = self
                    .th
                    .iter()
                    .filter_map(|t| match t.st {
                        St::Futex { deadline, .. } => deadline,
                        St::Sleep { until } => Some(until),
                        _ => None,
                    })
                    .min();
                match next {
                    Some(d) if os::vclock_on() => {
                        self.ticks += 1;
                        if self.ticks > self.max_ticks {
                            (self.on_stuck)(format!(
                                "no progress: only timers fire ({} times){}",
                                self.ticks,
                                self.describe()
                            ));
                        }
                        if d > os::now_ns() {
                            os::set_now(d);
                        }
                        continue;
                    }
                    _ => (self.on_stuck)(format!("deadlock: no thread can run{}", self.describe())),
                }
            }
            let mut chosen = 0u16;
            if self.region && opts.len() > 1 {
                let pos = self.points.len();
                if self.devi < self.dev.len() && self.dev[self.devi].0 == pos {
                    chosen = self.dev[self.devi].1;
                    if chosen as usize > opts.len() {
                        (self.on_stuck)("DIVERGENCE: choice out of range".to_string());
                    }
                    self.devi += 1;
                }
                if pos >= self.max_points {
                    (self.on_stuck)("horizon: too many scheduling points".to_string());
                }
                self.points.push(Point { cur: self.cur as u16, cont, obj, opts: opts.clone(), chosen });
            }
            if chosen as usize == opts.len() {
                // demote the default thread until nothing else can run
                self.th[opts[0] as usize].low = true;
                return opts[1] as usize;
            }
            return opts[chosen as usize] as usize;
        }
    }

    fn describe(&self) -> String {
        let mut v = String::new();
        for (i, t) in self.th.iter().enumerate() {
            if t.st != St::Exited {
                let k = match t.st {
                    St::Ready => "ready",
                    St::Futex { .. } => "waiting",
                    St::Sleep { .. } => "sleeping",
                    St::Join { .. } => "joining",
                    St::Exited => "",
                };
                v.push_str(&format!(" t{i}={k}"));
            }
        }
        format!(";{v}")
    }
}

/// Gives up the baton according to the next choice; returns once this thread
/// holds it again.
fn reschedule(obj: u32) {
    let m = me();
    let sc = s();
    debug_assert_eq!(sc.cur, m);
    let next = sc.pick(obj);
    switch(m, next);
}

fn switch(m: usize, next: usize) {
    let sc = s();
    if sc.tracing && sc.trace.len() < 20000 {
        sc.trace.push((next as u16, sc.th[next].at));
    }
    if next != m {
        sc.cur = next;
        sc.turn = 0;
        let mine: *const AtomicU32 = &*sc.th[m].word;
        real_wake(&sc.th[next].word);
        real_wait(unsafe { &*mine });
    }
    // running again
    let sc = s();
    sc.cur = m;
    // waking through a timeout
    match sc.th[m].st {
        St::Futex { .. } => {
            sc.th[m].timed_out = true;
            sc.th[m].st = St::Ready;
        }
        St::Sleep { .. } | St::Join { .. } => sc.th[m].st = St::Ready,
        _ => {}
    }
}

fn hook(addr: usize) {
    if !active() {
        return;
    }
    let m = me();
    let sc = s();
    if sc.cur != m {
        return;
    }
    if !sc.region {
        return;
    }
    let o = {
        let next = sc.touched.len() as u32;
        let o = *sc.objs.entry(addr).or_insert(next);
        if o == next {
            sc.touched.push(0);
        }
        sc.touched[o as usize] |= 1 << (m.min(63));
        o
    };
    for t in &mut sc.th {
        t.yielded = false;
    }
    sc.th[m].at = o;
    reschedule(o);
    s().th[m].at = 0;
}

/// Scheduling point used by the patched `flume`.
#[no_mangle]
pub extern "C" fn __mc_point(addr: usize) {
    hook(addr);
}

/// An explicit scheduling point of a harness thread (operation boundaries).
pub fn yield_now() {
    if active() && s().region {
        reschedule(u32::MAX);
    }
}

pub fn spin_hint() {
    let m = me();
    let sc = s();
    sc.th[m].yielded = true;
    let region = sc.region;
    // forced switch: not a choice
    sc.region = false;
    let next = sc.pick(0);
    sc.region = region;
    switch(m, next);
    s().th[m].yielded = false;
}

pub fn sleep_until(t: i64) {
    let m = me();
    s().th[m].st = St::Sleep { until: t };
    reschedule(0);
}

/// Emulates the futex system call among controlled threads.
pub fn futex(addr: *const u32, op: i32, val: u32, ts: *const timespec, mask: u32) -> Option<i64> {
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let m = me();
    let sc = s();
    if sc.cur != m {
        return None;
    }
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let cur = unsafe { (*addr.cast::<AtomicU32>()).load(Ordering::SeqCst) };
            if cur != val {
                return Some(-i64::from(libc::EAGAIN));
            }
            let deadline = if ts.is_null() {
                None
            } else {
                let d = unsafe { (*ts).tv_sec.saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec) };
                Some(if cmd == libc::FUTEX_WAIT { os::now_ns().saturating_add(d) } else { d })
            };
            let bitset = if cmd == libc::FUTEX_WAIT { u32::MAX } else { mask };
            sc.th[m].timed_out = false;
            sc.th[m].st = St::Futex { addr: addr as usize, bitset, deadline };
            reschedule(0);
            Some(if s().th[m].timed_out { -i64::from(libc::ETIMEDOUT) } else { 0 })
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let bs = if cmd == libc::FUTEX_WAKE { u32::MAX } else { mask };
            let mut n = 0i64;
            for t in &mut sc.th {
                t.yielded = false;
                if n >= i64::from(val) {
                    break;
                }
                if let St::Futex { addr: a, bitset, .. } = t.st {
                    if a == addr as usize && bitset & bs != 0 {
                        t.st = St::Ready;
                        n += 1;
                    }
                }
            }
            Some(n)
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- threads
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    f: StartFn,
    arg: *mut c_void,
    id: usize,
}

extern "C" fn boot(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p.cast::<Boot>()) };
    let w: *const AtomicU32 = &*s().th[b.id].word;
    real_wait(unsafe { &*w });
    ME.with(|m| m.set(b.id));
    s().cur = b.id;
    unsafe { libc::pthread_setspecific(key(), 1 as *const c_void) };
    let (f, a) = (b.f, b.arg);
    drop(b);
    f(a)
}

fn thread_exit() {
    let m = me();
    if m == usize::MAX {
        return;
    }
    let sc = s();
    sc.th[m].st = St::Exited;
    for t in &mut sc.th {
        t.yielded = false;
    }
    let next = sc.pick(0);
    sc.cur = next;
    ME.with(|x| x.set(usize::MAX));
    real_wake(&sc.th[next].word);
}

unsafe fn real<T: Copy>(name: &[u8], cache: &'static mut Option<T>) -> T {
    if cache.is_none() {
        let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr().cast());
        *cache = Some(std::mem::transmute_copy(&p));
    }
    cache.unwrap()
}
type CreateFn =
    unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    let create = real(b"pthread_create\0", &mut REAL_CREATE);
    if !active() {
        return create(out, attr, f, arg);
    }
    let sc = s();
    let id = sc.th.len();
    sc.th.push(Th {
        st: St::Ready,
        word: Box::new(AtomicU32::new(0)),
        pthread: 0,
        timed_out: false,
        yielded: false,
        low: false,
        at: 0,
    });
    let b = Box::into_raw(Box::new(Boot { f, arg, id }));
    let r = create(out, attr, boot, b.cast());
    if r != 0 {
        s().th[id].st = St::Exited;
    } else {
        s().th[id].pthread = *out;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    let join = real(b"pthread_join\0", &mut REAL_JOIN);
    if active() {
        if let Some(target) = s().th.iter().rposition(|x| x.pthread == t) {
            let m = me();
            s().th[m].st = St::Join { target };
            reschedule(0);
        }
    }
    join(t, out)
}
