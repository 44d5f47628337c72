//! Process pool and exhaustive schedule exploration.
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::os::unix::io::RawFd;
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;
use std::time::Instant;

use serde::{Deserialize, Serialize};

use crate::os;
use crate::sched::{self, Trace};

pub const NPROC: usize = 8;

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Routes panics into a list instead of stderr.
pub fn capture_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}", l.file())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if std::env::var_os("MC_DEBUG").is_some() {
            eprintln!("panic: {i}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut p) = PANICS.lock() {
            p.push(format!("{m} [{}]", loc.rsplit("/crates/").next().unwrap_or("")));
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    PANICS.lock().map(|mut p| std::mem::take(&mut *p)).unwrap_or_default()
}

pub fn panicked() -> bool {
    PANICS.lock().map(|p| !p.is_empty()).unwrap_or(true)
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(take_panics().pop().unwrap_or_else(|| "panic".into())),
    }
}

const END: u8 = 0xfe;
static mut OUT_FD: RawFd = -1;
static mut SCRATCH: String = String::new();

/// Scratch directory of the current job (created on demand, removed by the
/// parent after the job).
pub fn scratch() -> String {
    #[allow(static_mut_refs)]
    let d = unsafe { SCRATCH.clone() };
    os::raw(|| std::fs::create_dir_all(&d).expect("scratch"));
    d
}

fn scratch_root() -> String {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    format!("{base}/bonsai-mc-{}", std::process::id())
}

/// Writes a job's answer and ends the child process.
pub fn emit(data: &[u8]) -> ! {
    unsafe {
        let mut d = data;
        while !d.is_empty() {
            let n = os::sys6(libc::SYS_write, OUT_FD as i64, d.as_ptr() as i64, d.len() as i64, 0, 0, 0);
            if n <= 0 {
                break;
            }
            d = &d[n as usize..];
        }
        os::sys6(libc::SYS_write, OUT_FD as i64, [END].as_ptr() as i64, 1, 0, 0, 0);
        os::sys6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

/// All threads of a controlled child take turns: one CPU serves them best.
fn pin(slot: usize) {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &have)).collect();
        if cpus.len() < 2 {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[slot % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

/// A set of small processes that fork a child per job. They are forked early,
/// so that the growing bookkeeping of the main process is not copied again and
/// again, and they share the work of starting and reaping children.
pub struct Farm {
    slaves: Vec<Slave>,
    root: String,
}
struct Slave {
    pid: i32,
    to: RawFd,
    from: RawFd,
    buf: Vec<u8>,
}

fn read_exact(fd: RawFd, n: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; n];
    let mut at = 0;
    while at < n {
        let r = unsafe { libc::read(fd, v[at..].as_mut_ptr().cast(), n - at) };
        if r <= 0 {
            return None;
        }
        at += r as usize;
    }
    Some(v)
}
fn write_all(fd: RawFd, mut d: &[u8]) -> bool {
    while !d.is_empty() {
        let n = unsafe { libc::write(fd, d.as_ptr().cast(), d.len()) };
        if n <= 0 {
            return false;
        }
        d = &d[n as usize..];
    }
    true
}

/// What the running job is doing, where its parent can see it.
static mut CASE: *mut u8 = std::ptr::null_mut();
const CASE_LEN: usize = 4096;
pub fn note_case(text: &str) {
    unsafe {
        if !CASE.is_null() {
            let n = text.len().min(CASE_LEN - 16);
            std::ptr::copy_nonoverlapping(text.as_ptr(), CASE.add(16), n);
            CASE.cast::<u32>().add(2).write_volatile(n as u32);
            CASE.cast::<u64>().write_volatile(CASE.cast::<u64>().read_volatile() + 1);
        }
    }
}
fn case() -> (u64, String) {
    unsafe {
        if CASE.is_null() {
            return (0, String::new());
        }
        let n = CASE.cast::<u32>().add(2).read_volatile() as usize;
        (CASE.cast::<u64>().read_volatile(), String::from_utf8_lossy(std::slice::from_raw_parts(CASE.add(16), n)).into())
    }
}
/// The CPU time of a process, in clock ticks.
fn ticks(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<u64> = s.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    f.get(11).copied().unwrap_or(0) + f.get(12).copied().unwrap_or(0)
}

/// One job in a child of the calling process: its answer, or what went wrong.
fn child(job: &[u8], dir: &str, cpu_limit: u64, run: &dyn Fn(&[u8]) -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        if CASE.is_null() {
            let m = libc::mmap(std::ptr::null_mut(), CASE_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(m != libc::MAP_FAILED);
            CASE = m.cast();
        }
        CASE.cast::<u64>().write_volatile(0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let rl = libc::rlimit { rlim_cur: cpu_limit, rlim_max: cpu_limit + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            OUT_FD = p[1];
            SCRATCH = dir.to_string();
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| run(job)));
            match r {
                Ok(v) => emit(&v),
                Err(_) => {
                    eprintln!("engine: job panicked: {:?}", take_panics());
                    os::sys6(libc::SYS_exit_group, 3, 0, 0, 0, 0, 0);
                }
            }
        }
        libc::close(p[1]);
        let started = Instant::now();
        let mut buf = Vec::new();
        let mut wall = false;
        let mut hung = None;
        // when the case last changed, when CPU time was last used
        let (mut last, mut since, mut used, mut awake) = (0, (Instant::now(), 0), 0, Instant::now());
        loop {
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            libc::poll(&mut pf, 1, 1000);
            if pf.revents != 0 {
                let mut b = [0u8; 65536];
                let n = libc::read(p[0], b.as_mut_ptr().cast(), b.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&b[..n as usize]);
                // a complete answer ends with a marker byte
                if (n as usize) < b.len() && buf.last() == Some(&END) && libc::poll(&mut libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 }, 1, 0) == 0 {
                    // wait for the end of file all the same: the marker may be data
                    continue;
                }
            } else {
                let (n, text) = case();
                if n > 0 {
                    let t = ticks(pid);
                    if t > used + 2 {
                        used = t;
                        awake = Instant::now();
                    }
                    if n != last {
                        last = n;
                        since = (Instant::now(), t);
                        awake = since.0;
                    }
                    let idle = awake.elapsed().as_secs() >= 60;
                    if idle || t > since.1 + 15_000 {
                        libc::kill(pid, libc::SIGKILL);
                        hung = Some(format!("HUNG{text}: {}", if idle { "hangs" } else { "does not terminate" }));
                        break;
                    }
                } else if started.elapsed().as_secs() > 300 {
                    libc::kill(pid, libc::SIGKILL);
                    wall = true;
                    break;
                }
            }
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if let Some(h) = hung {
            Err(h)
        } else if wall {
            Err("WALL".into())
        } else if buf.last() == Some(&END) {
            buf.pop();
            Ok(buf)
        } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGXCPU {
            Err("CPU".into())
        } else {
            Err(format!("status {st}"))
        }
    }
}

impl Farm {
    pub fn new(nproc: usize, cpu_limit: u64, run: &dyn Fn(&[u8]) -> Vec<u8>) -> Self {
        let root = scratch_root();
        let slaves = (0..nproc)
            .map(|slot| unsafe {
                let (mut c, mut r) = ([0i32; 2], [0i32; 2]);
                assert_eq!(libc::pipe(c.as_mut_ptr()), 0);
                assert_eq!(libc::pipe(r.as_mut_ptr()), 0);
                let pid = libc::fork();
                assert!(pid >= 0, "fork");
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(c[1]);
                    libc::close(r[0]);
                    if nproc > 1 {
                        pin(slot);
                    }
                    let mut serial = 0u64;
                    while let Some(len) = read_exact(c[0], 8) {
                        let len = u64::from_le_bytes(len.try_into().unwrap());
                        if len == u64::MAX {
                            break;
                        }
                        let Some(job) = read_exact(c[0], len as usize) else { break };
                        serial += 1;
                        let dir = format!("{root}/{slot}-{serial}");
                        let res = child(&job, &dir, cpu_limit, run);
                        let (tag, data) = match res {
                            Ok(d) => (0u8, d),
                            Err(e) => (1u8, e.into_bytes()),
                        };
                        let mut out = (data.len() as u64).to_le_bytes().to_vec();
                        out.push(tag);
                        out.extend(data);
                        if !write_all(r[1], &out) {
                            break;
                        }
                        let _ = std::fs::remove_dir_all(&dir);
                    }
                    os::sys6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
                }
                libc::close(c[0]);
                libc::close(r[1]);
                Slave { pid, to: c[1], from: r[0], buf: vec![] }
            })
            .collect();
        Self { slaves, root }
    }

    /// Runs jobs until `next` has none and all are done. `next` may return
    /// None while jobs are running; it is asked again after each completion.
    pub fn drive<J>(&mut self, mut next: impl FnMut() -> Option<(J, Vec<u8>)>, mut done: impl FnMut(J, Result<Vec<u8>, String>)) {
        let mut at: Vec<Option<J>> = self.slaves.iter().map(|_| None).collect();
        loop {
            for (i, s) in self.slaves.iter().enumerate() {
                if at[i].is_none() {
                    let Some((j, bytes)) = next() else { break };
                    let mut m = (bytes.len() as u64).to_le_bytes().to_vec();
                    m.extend(bytes);
                    assert!(write_all(s.to, &m), "a worker process died");
                    at[i] = Some(j);
                }
            }
            if at.iter().all(Option::is_none) {
                return;
            }
            let busy: Vec<usize> = (0..at.len()).filter(|i| at[*i].is_some()).collect();
            let mut pf: Vec<libc::pollfd> =
                busy.iter().map(|i| libc::pollfd { fd: self.slaves[*i].from, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
            for (p, i) in pf.iter().zip(busy) {
                if p.revents == 0 {
                    continue;
                }
                let s = &mut self.slaves[i];
                let mut b = vec![0u8; 1 << 20];
                let n = unsafe { libc::read(s.from, b.as_mut_ptr().cast(), b.len()) };
                assert!(n > 0, "a worker process died");
                s.buf.extend_from_slice(&b[..n as usize]);
                if s.buf.len() >= 9 {
                    let len = u64::from_le_bytes(s.buf[..8].try_into().unwrap()) as usize;
                    if s.buf.len() >= 9 + len {
                        let data = s.buf[9..9 + len].to_vec();
                        let ok = s.buf[8] == 0;
                        s.buf.clear();
                        let j = at[i].take().unwrap();
                        done(j, if ok { Ok(data) } else { Err(String::from_utf8_lossy(&data).into()) });
                    }
                }
            }
        }
    }
}
impl Drop for Farm {
    fn drop(&mut self) {
        for s in &self.slaves {
            write_all(s.to, &u64::MAX.to_le_bytes());
        }
        for s in &self.slaves {
            unsafe {
                libc::waitpid(s.pid, std::ptr::null_mut(), 0);
                libc::close(s.to);
                libc::close(s.from);
            }
        }
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

// ------------------------------------------------------------------ schedules
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Verdict {
    Pass(String),
    Violation(String),
    Engine(String),
}

/// A scheduling point as the explorer sees it: running hash of everything
/// before it, number of alternatives (0 = none worth exploring), choice taken.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Pt {
    sig: u64,
    alts: u16,
    chosen: u16,
}

#[derive(Clone, Debug)]
pub struct ExecOut {
    v: Verdict,
    steps: u64,
    pruned: u64,
    points: Vec<Pt>,
    end_sig: u64,
    trace: Vec<(u16, u32)>,
}

fn failed_out(v: Verdict) -> ExecOut {
    ExecOut { v, steps: 0, pruned: 0, points: vec![], end_sig: 0, trace: vec![] }
}

fn encode(v: &Verdict, t: &Trace) -> Vec<u8> {
    let shared = |obj: u32| obj == u32::MAX || obj == 0 || t.touched.get(obj as usize).map_or(true, |m| m.count_ones() > 1);
    let mut pruned = 0u64;
    let mut pts = Vec::with_capacity(t.points.len() * 12);
    let mut acc = 17u64;
    for p in &t.points {
        let alts = if p.cont && !shared(p.obj) {
            pruned += 1;
            0
        } else {
            p.opts.len() as u16
        };
        pts.extend_from_slice(&acc.to_le_bytes());
        pts.extend_from_slice(&alts.to_le_bytes());
        pts.extend_from_slice(&p.chosen.to_le_bytes());
        // lock identities depend on address reuse and are left out
        let mut h = (acc ^ 0x9e37_79b9_7f4a_7c15).wrapping_mul(0xff51_afd7_ed55_8ccd);
        let mut mix = |x: u64| h = (h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        mix(u64::from(p.cur));
        mix(u64::from(p.cont));
        for o in &p.opts {
            mix(u64::from(*o) + 3);
        }
        mix(u64::from(p.chosen) + 77);
        acc = h;
    }
    let head = serde_json::to_vec(&(v, t.steps, pruned, acc, &t.trace)).unwrap();
    let mut out = (head.len() as u32).to_le_bytes().to_vec();
    out.extend(head);
    out.extend(pts);
    out
}

fn stuck(msg: String) -> ! {
    let v = if msg.starts_with("DIVERGENCE") || msg.starts_with("horizon") {
        Verdict::Engine(msg)
    } else {
        Verdict::Violation(msg)
    };
    emit(&encode(&v, &sched::snapshot()))
}

/// What a scenario's body is given.
pub struct Env;

pub type Body<'a> = dyn Fn(&Env) -> Result<String, String> + 'a;

fn exec(body: &Body, dev: &[(usize, u16)], tracing: bool) -> Vec<u8> {
    os::deterministic_random(7);
    os::virtual_clock(os::EPOCH);
    sched::start(dev.to_vec(), stuck);
    sched::set_tracing(tracing);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| body(&Env)));
    sched::region(false);
    let panics = take_panics();
    let v = match r {
        Ok(Ok(o)) => {
            if panics.is_empty() {
                Verdict::Pass(o)
            } else {
                Verdict::Violation(format!("a thread panicked: {}", panics.join("; ")))
            }
        }
        Ok(Err(e)) => Verdict::Violation(e),
        Err(_) => Verdict::Violation(format!("panicked: {}", panics.join("; "))),
    };
    let t = sched::finish();
    let v = if t.unused > 0 { Verdict::Engine("DIVERGENCE: unused deviations".into()) } else { v };
    encode(&v, &t)
}

impl ExecOut {
    pub fn show(&self) {
        println!("{:?}", self.v);
        println!("{}", serde_json::to_string(&self.trace).unwrap());
    }
}

/// Runs harness threads concurrently inside the explored region.
pub fn par<T: Send + 'static>(fs: Vec<Box<dyn FnOnce() -> T + Send>>) -> Vec<T> {
    let hs: Vec<_> = fs
        .into_iter()
        .map(|f| {
            std::thread::spawn(move || {
                sched::yield_now();
                f()
            })
        })
        .collect();
    sched::region(true);
    let r: Vec<_> = hs.into_iter().map(std::thread::JoinHandle::join).collect();
    sched::region(false);
    r.into_iter().map(|r| r.unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
}

#[derive(Default, Serialize, Clone, Debug)]
pub struct SchedStats {
    pub scenario: String,
    pub executions: u64,
    pub points_max: usize,
    pub steps: u64,
    pub deviation_bound: usize,
    pub bound_completed: i64,
    pub outcomes: BTreeMap<String, u64>,
    pub wall_s: f64,
    pub pruned: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub scenario: String,
    pub dev: Vec<(usize, u16)>,
    pub msg: String,
}

pub struct Found {
    pub sig: String,
    pub replay: Replay,
}

fn parse(r: Result<Vec<u8>, String>) -> ExecOut {
    match r {
        Ok(b) => {
            let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
            match serde_json::from_slice::<(Verdict, u64, u64, u64, Vec<(u16, u32)>)>(&b[4..4 + n]) {
                Ok((v, steps, pruned, end_sig, trace)) => ExecOut {
                    v,
                    steps,
                    pruned,
                    end_sig,
                    trace,
                    points: b[4 + n..]
                        .chunks_exact(12)
                        .map(|c| Pt {
                            sig: u64::from_le_bytes(c[..8].try_into().unwrap()),
                            alts: u16::from_le_bytes(c[8..10].try_into().unwrap()),
                            chosen: u16::from_le_bytes(c[10..].try_into().unwrap()),
                        })
                        .collect(),
                },
                Err(e) => failed_out(Verdict::Engine(format!("bad answer {e}"))),
            }
        }
        Err(e) if e == "CPU" => failed_out(Verdict::Violation("does not terminate (CPU limit)".into())),
        Err(e) => failed_out(Verdict::Engine(format!("child {e}"))),
    }
}

/// One execution in a process of its own.
pub fn run_one(body: &Body, dev: &[(usize, u16)], tracing: bool) -> ExecOut {
    let dir = format!("{}/one", scratch_root());
    let r = child(&[], &dir, 60, &|_| exec(body, dev, tracing));
    let _ = std::fs::remove_dir_all(scratch_root());
    parse(r)
}

fn job_bytes(idx: usize, dev: &Dev) -> Vec<u8> {
    let mut v = (idx as u32).to_le_bytes().to_vec();
    for (i, a) in dev {
        v.extend((*i as u32).to_le_bytes());
        v.extend(a.to_le_bytes());
    }
    v
}
/// The worker processes for scenarios given by index.
pub fn scenario_farm<'a>(body: &'a dyn Fn(usize, &Env) -> Result<String, String>) -> Farm {
    Farm::new(NPROC, 60, &|b: &[u8]| {
        let idx = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        let dev: Dev = b[4..]
            .chunks(6)
            .map(|c| (u32::from_le_bytes(c[..4].try_into().unwrap()) as usize, u16::from_le_bytes(c[4..].try_into().unwrap())))
            .collect();
        exec(&|e: &Env| body(idx, e), &dev, false)
    })
}

type Dev = Vec<(usize, u16)>;

/// Explores every schedule of a scenario with at most `bound` deviations from
/// the default schedule, bound by bound.
pub struct Explorer {
    name: String,
    pub bound: usize,
    visited: HashSet<Dev>,
    buckets: Vec<VecDeque<(Dev, Option<(usize, u64)>)>>,
    pub st: SchedStats,
    sigs: BTreeSet<String>,
    pub stopped: bool,
}

impl Explorer {
    pub fn new(name: &str, bound: usize) -> Self {
        let mut buckets: Vec<VecDeque<_>> = vec![VecDeque::new(); bound + 2];
        buckets[0].push_back((vec![], None));
        Self {
            name: name.into(),
            bound,
            visited: HashSet::from([vec![]]),
            buckets,
            st: SchedStats { scenario: name.into(), deviation_bound: bound, bound_completed: -1, ..SchedStats::default() },
            sigs: BTreeSet::new(),
            stopped: false,
        }
    }

    /// Runs all schedules with at most `b` deviations, or as many as fit into
    /// `budget_s`. `on_violation` says whether the violation is a known one.
    pub fn advance(
        &mut self,
        farm: &mut Farm,
        idx: usize,
        upto: usize,
        budget_s: f64,
        mut on_violation: impl FnMut(Found) -> bool,
    ) -> Result<(), String> {
        let t0 = Instant::now();
        let name = self.name.clone();
        let bound = self.bound;
        if self.st.executions == 0 {
            // determinism check: the default schedule twice
            let mut two = vec![];
            let mut n = 0;
            farm.drive(
                || {
                    n += 1;
                    (n <= 2).then(|| ((), job_bytes(idx, &vec![])))
                },
                |(), r| two.push(parse(r)),
            );
            let (a, b) = (&two[0], &two[1]);
            if a.end_sig != b.end_sig || format!("{:?}", a.v) != format!("{:?}", b.v) {
                return Err(format!("{name}: nondeterminism the harness does not own: {:?} / {:?}", a.v, b.v));
            }
        }
        let mut engine: Option<String> = None;
        for b in (self.st.bound_completed + 1) as usize..=upto.min(bound) {
            let cell = std::cell::RefCell::new((&mut self.buckets, &mut self.visited));
            let st_c = std::cell::RefCell::new(&mut self.st);
            let sigs = &mut self.sigs;
            let stop_c = std::cell::Cell::new(false);
            let timed_out = std::cell::Cell::new(false);
            farm.drive(
                || {
                    if stop_c.get() {
                        return None;
                    }
                    if t0.elapsed().as_secs_f64() > budget_s {
                        if !cell.borrow().0[b].is_empty() {
                            timed_out.set(true);
                        }
                        return None;
                    }
                    cell.borrow_mut().0[b].pop_front().map(|j| {
                        let bytes = job_bytes(idx, &j.0);
                        (j, bytes)
                    })
                },
                |(dev, exp), r| {
                    let o = parse(r);
                    let mut st = st_c.borrow_mut();
                    st.executions += 1;
                    st.steps += o.steps;
                    st.points_max = st.points_max.max(o.points.len());
                    st.pruned += o.pruned;
                    if let Some((n, h)) = exp {
                        if o.points.get(n).map(|p| p.sig) != Some(h) && !matches!(o.v, Verdict::Engine(_)) && !o.points.is_empty() {
                            engine = Some(format!("{name}: divergence while replaying a prefix {dev:?}"));
                            stop_c.set(true);
                            return;
                        }
                    }
                    match &o.v {
                        Verdict::Pass(s) => {
                            if st.outcomes.len() < 200 || st.outcomes.contains_key(s) {
                                *st.outcomes.entry(s.clone()).or_default() += 1;
                            }
                        }
                        Verdict::Violation(m) => {
                            if sigs.insert(m.clone()) {
                                let f = Found {
                                    sig: format!("{name}: {m}"),
                                    replay: Replay { scenario: name.clone(), dev: dev.clone(), msg: m.clone() },
                                };
                                if !on_violation(f) {
                                    stop_c.set(true);
                                    return;
                                }
                            }
                            *st.outcomes.entry(format!("KNOWN {m}")).or_default() += 1;
                        }
                        Verdict::Engine(m) => {
                            engine = Some(format!("{name}: {m} dev={dev:?}"));
                            stop_c.set(true);
                            return;
                        }
                    }
                    // children
                    let mut c = cell.borrow_mut();
                    let (buckets, visited) = &mut *c;
                    for (i, p) in o.points.iter().enumerate() {
                        if p.alts == 0 {
                            continue;
                        }
                        let base: Dev = dev.iter().copied().filter(|d| d.0 < i).collect();
                        if base.len() + 1 > bound {
                            break;
                        }
                        for alt in 1..=p.alts {
                            if alt == p.chosen {
                                continue;
                            }
                            let mut d = base.clone();
                            d.push((i, alt));
                            if visited.insert(d.clone()) {
                                // may belong to an earlier bound: the current one is used then
                                let k = d.len().max(b);
                                buckets[k].push_back((d, Some((i, p.sig))));
                            }
                        }
                    }
                },
            );
            let stop = stop_c.get();
            if let Some(e) = engine.take() {
                return Err(e);
            }
            if stop {
                self.stopped = true;
                break;
            }
            if timed_out.get() {
                break;
            }
            self.st.bound_completed = b as i64;
        }
        self.st.wall_s += t0.elapsed().as_secs_f64();
        Ok(())
    }
}
