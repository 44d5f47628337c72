//! Ownership of the environment: the harness executable defines the libc
//! symbols through which Rust code (std, nebari, parking_lot, ...) reaches the
//! operating system. The linker prefers these definitions over libc's, so the
//! real, unmodified BonsaiDb code runs on a controlled clock, a deterministic
//! random source, a recorded (and fault-injectable) file system and - together
//! with `sched` - a controlled thread scheduler.
#![allow(clippy::missing_safety_doc)]

use std::arch::asm;
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t, timespec};

use crate::sched;

#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}

fn fail(errno: i32) -> i64 {
    unsafe { *libc::__errno_location() = errno };
    -1
}

thread_local! {
    /// Set while harness code itself touches the file system.
    static RAW: Cell<u32> = const { Cell::new(0) };
}

/// Runs `f` without recording its file operations.
pub fn raw<T>(f: impl FnOnce() -> T) -> T {
    RAW.with(|r| r.set(r.get() + 1));
    let v = f();
    RAW.with(|r| r.set(r.get() - 1));
    v
}

fn is_raw() -> bool {
    RAW.try_with(|r| r.get() > 0).unwrap_or(true)
}

// ---------------------------------------------------------------- clock
static VCLOCK: AtomicBool = AtomicBool::new(false);
static NOW: AtomicI64 = AtomicI64::new(0);
/// 2024-01-01T00:00:00Z
pub const EPOCH: i64 = 1_704_067_200_000_000_000;

pub fn virtual_clock(start_ns: i64) {
    NOW.store(start_ns, Ordering::SeqCst);
    VCLOCK.store(true, Ordering::SeqCst);
}
pub fn now_ns() -> i64 {
    NOW.load(Ordering::SeqCst)
}
pub fn set_now(ns: i64) {
    NOW.store(ns, Ordering::SeqCst)
}
pub fn vclock_on() -> bool {
    VCLOCK.load(Ordering::Relaxed)
}
pub fn advance(ns: i64) {
    NOW.fetch_add(ns, Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if VCLOCK.load(Ordering::Relaxed)
        && (clk == libc::CLOCK_REALTIME
            || clk == libc::CLOCK_MONOTONIC
            || clk == libc::CLOCK_BOOTTIME)
    {
        let n = NOW.load(Ordering::Relaxed);
        (*ts).tv_sec = n / 1_000_000_000;
        (*ts).tv_nsec = n % 1_000_000_000;
        return 0;
    }
    ret(sys6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if sched::active() {
        let d = (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec;
        sched::sleep_until(now_ns() + d);
        return 0;
    }
    ret(sys6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::active() {
        sched::spin_hint();
        return 0;
    }
    sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- randomness
static DETRAND: AtomicBool = AtomicBool::new(false);
static RNG: AtomicU64 = AtomicU64::new(0x9e37_79b9_7f4a_7c15);
pub fn deterministic_random(seed: u64) {
    RNG.store(seed ^ 0x9e37_79b9_7f4a_7c15, Ordering::SeqCst);
    DETRAND.store(true, Ordering::SeqCst);
}
fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let mut x = RNG.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::SeqCst);
        x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        x ^= x >> 31;
        for b in x.to_le_bytes() {
            if i < len {
                unsafe { *buf.add(i) = b };
                i += 1;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if DETRAND.load(Ordering::Relaxed) {
        fill(buf.cast(), len);
        return len as ssize_t;
    }
    ret(sys6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as ssize_t
}

// ---------------------------------------------------------------- syscall()
#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if num == libc::SYS_futex && sched::active() {
        if let Some(r) = sched::futex(a as *const u32, b as i32, c as u32, d as *const timespec, f as u32)
        {
            return ret(r);
        }
    }
    if num == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    ret(sys6(num, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- files
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Create { path: String, fid: u32 },
    Write { fid: u32, off: u64, data: Vec<u8> },
    Trunc { fid: u32, len: u64 },
    Sync { fid: u32 },
    Rename { from: String, to: String },
    Unlink { path: String },
    Mkdir { path: String },
    Rmdir { path: String },
    /// A marker placed by the harness ("operation k acknowledged").
    Mark(u64),
}

#[derive(Default)]
pub struct FileLog {
    root: String,
    pub ops: Vec<FOp>,
    fds: HashMap<i32, (u32, bool)>, // fd -> (fid, append)
    names: HashMap<String, u32>,
    next: u32,
    pub base: Vec<(String, u32)>,
    /// files and directories there were when the log started
    pub base_data: Vec<(String, u32, Vec<u8>)>,
    pub base_dirs: Vec<String>,
}

static LOGGING: AtomicBool = AtomicBool::new(false);
static LOGLOCK: AtomicBool = AtomicBool::new(false);
static mut LOG: Option<FileLog> = None;
static NOSYNC: AtomicBool = AtomicBool::new(false);

/// Makes fsync/fdatasync cheap (the harness does not need the host's disk).
pub fn skip_real_sync() {
    NOSYNC.store(true, Ordering::SeqCst);
}

fn with_log<T>(f: impl FnOnce(&mut FileLog) -> T) -> Option<T> {
    if !LOGGING.load(Ordering::Acquire) || is_raw() {
        return None;
    }
    while LOGLOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    RAW.with(|r| r.set(r.get() + 1));
    let v = unsafe { (*std::ptr::addr_of_mut!(LOG)).as_mut().map(f) };
    RAW.with(|r| r.set(r.get() - 1));
    LOGLOCK.store(false, Ordering::Release);
    v
}

/// Starts recording every mutation below `root`.
pub fn start_log(root: &str) {
    let mut l = FileLog { root: root.to_string(), next: 1, ..FileLog::default() };
    // pre-existing files
    fn walk(l: &mut FileLog, p: &std::path::Path) {
        if let Ok(rd) = std::fs::read_dir(p) {
            let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            v.sort();
            for p in v {
                if p.is_dir() {
                    l.base_dirs.push(p.to_string_lossy().into_owned());
                    walk(l, &p);
                } else {
                    let fid = l.next;
                    l.next += 1;
                    l.names.insert(p.to_string_lossy().into_owned(), fid);
                    l.base.push((p.to_string_lossy().into_owned(), fid));
                    l.base_data.push((p.to_string_lossy().into_owned(), fid, std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    raw(|| {
        walk(&mut l, std::path::Path::new(root));
        // files that are open already
        let fds: Vec<i32> = std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten().filter_map(|e| e.file_name().to_string_lossy().parse().ok()).collect();
        for fd in fds {
            let fl = unsafe { sys6(libc::SYS_fcntl, fd as i64, libc::F_GETFL as i64, 0, 0, 0, 0) };
            if fl >= 0 && fl as i32 & libc::O_ACCMODE != libc::O_RDONLY {
                if let Some(fid) = l.names.get(&fdpath(fd)) {
                    l.fds.insert(fd, (*fid, fl as i32 & libc::O_APPEND != 0));
                }
            }
        }
    });
    unsafe { *std::ptr::addr_of_mut!(LOG) = Some(l) };
    LOGGING.store(true, Ordering::SeqCst);
}
pub fn mark(n: u64) {
    with_log(|l| l.ops.push(FOp::Mark(n)));
}
pub fn log_len() -> usize {
    with_log(|l| l.ops.len()).unwrap_or(0)
}
pub fn stop_log() -> FileLog {
    LOGGING.store(false, Ordering::SeqCst);
    unsafe { (*std::ptr::addr_of_mut!(LOG)).take().unwrap() }
}

// ---- fault injection: the n-th mutating call under root fails
static FAULT_AT: AtomicI64 = AtomicI64::new(-1);
static FAULT_N: AtomicI64 = AtomicI64::new(0);
static FAULT_ERR: AtomicI64 = AtomicI64::new(libc::EIO as i64);
static FAULT_STICKY: AtomicBool = AtomicBool::new(false);
static FAULT_HIT: AtomicBool = AtomicBool::new(false);
pub fn arm_fault(n: i64, errno: i32, sticky: bool) {
    FAULT_N.store(0, Ordering::SeqCst);
    FAULT_ERR.store(errno as i64, Ordering::SeqCst);
    FAULT_STICKY.store(sticky, Ordering::SeqCst);
    FAULT_HIT.store(false, Ordering::SeqCst);
    FAULT_AT.store(n, Ordering::SeqCst);
}
pub fn disarm_fault() -> (i64, bool) {
    FAULT_AT.store(-1, Ordering::SeqCst);
    (FAULT_N.load(Ordering::SeqCst), FAULT_HIT.load(Ordering::SeqCst))
}
fn fault() -> Option<i32> {
    let at = FAULT_AT.load(Ordering::SeqCst);
    if at < 0 || is_raw() {
        return None;
    }
    let n = FAULT_N.fetch_add(1, Ordering::SeqCst);
    if n == at || (FAULT_STICKY.load(Ordering::SeqCst) && n > at) {
        FAULT_HIT.store(true, Ordering::SeqCst);
        return Some(FAULT_ERR.load(Ordering::SeqCst) as i32);
    }
    None
}

fn fdpath(fd: i32) -> String {
    let mut buf = [0u8; 4096];
    let p = format!("/proc/self/fd/{fd}\0");
    let n = unsafe {
        sys6(libc::SYS_readlink, p.as_ptr() as i64, buf.as_mut_ptr() as i64, 4096, 0, 0, 0)
    };
    if n > 0 {
        String::from_utf8_lossy(&buf[..n as usize]).into_owned()
    } else {
        String::new()
    }
}

fn abspath(dirfd: c_int, p: *const c_char) -> String {
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    if s.starts_with('/') {
        s
    } else if dirfd == libc::AT_FDCWD {
        format!("{}/{}", std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default(), s)
    } else {
        format!("{}/{}", fdpath(dirfd), s)
    }
}

fn under(l: &FileLog, p: &str) -> bool {
    p.starts_with(&l.root)
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let logging = LOGGING.load(Ordering::Relaxed) && !is_raw();
    let mut existed = true;
    let mut p = String::new();
    if logging {
        p = abspath(dirfd, path);
        let cp = format!("{p}\0");
        existed = sys6(libc::SYS_access, cp.as_ptr() as i64, 0, 0, 0, 0, 0) == 0;
        if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 && (!existed || flags & libc::O_TRUNC != 0) {
            if let Some(e) = with_log(|l| under(l, &p)).filter(|u| *u).and_then(|_| fault()) {
                return fail(e) as c_int;
            }
        }
    }
    let fd = ret(sys6(libc::SYS_openat, dirfd as i64, path as i64, flags as i64, mode as i64, 0, 0));
    if logging && fd >= 0 && flags & libc::O_DIRECTORY == 0 {
        with_log(|l| {
            if !under(l, &p) {
                return;
            }
            if !existed {
                let fid = l.next;
                l.next += 1;
                l.names.insert(p.clone(), fid);
                l.ops.push(FOp::Create { path: p.clone(), fid });
            }
            if let Some(fid) = l.names.get(&p).copied() {
                if existed && flags & libc::O_TRUNC != 0 {
                    l.ops.push(FOp::Trunc { fid, len: 0 });
                }
                if flags & (libc::O_WRONLY | libc::O_RDWR) != 0 {
                    l.fds.insert(fd as i32, (fid, flags & libc::O_APPEND != 0));
                }
            }
        });
    }
    fd as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with_log(|l| {
        l.fds.remove(&fd);
    });
    ret(sys6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

fn pre_write(fd: c_int, off: Option<u64>) -> Option<(u32, u64)> {
    with_log(|l| {
        l.fds.get(&fd).copied().map(|(fid, append)| {
            let o = match off {
                Some(o) if !append => o,
                None if !append => unsafe {
                    sys6(libc::SYS_lseek, fd as i64, 0, libc::SEEK_CUR as i64, 0, 0, 0) as u64
                },
                _ => unsafe {
                    let mut st: libc::stat = std::mem::zeroed();
                    sys6(libc::SYS_fstat, fd as i64, std::ptr::addr_of_mut!(st) as i64, 0, 0, 0, 0);
                    st.st_size as u64
                },
            };
            (fid, o)
        })
    })
    .flatten()
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<i64>) -> ssize_t {
    let pre = pre_write(fd, off.map(|o| o as u64));
    if pre.is_some() {
        if let Some(e) = fault() {
            return fail(e) as ssize_t;
        }
    }
    let r = match off {
        None => ret(sys6(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)),
        Some(o) => ret(sys6(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, o, 0, 0)),
    };
    if let (Some((fid, off)), true) = (pre, r > 0) {
        let data = std::slice::from_raw_parts(buf.cast::<u8>(), r as usize).to_vec();
        with_log(|l| l.ops.push(FOp::Write { fid, off, data }));
    }
    r as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let pre = pre_write(fd, None);
    if pre.is_some() {
        if let Some(e) = fault() {
            return fail(e) as ssize_t;
        }
    }
    let r = ret(sys6(libc::SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0));
    if let (Some((fid, off)), true) = (pre, r > 0) {
        let mut data = Vec::new();
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            data.extend_from_slice(std::slice::from_raw_parts(v.iov_base.cast::<u8>(), v.iov_len));
        }
        data.truncate(r as usize);
        with_log(|l| l.ops.push(FOp::Write { fid, off, data }));
    }
    r as ssize_t
}

unsafe fn do_trunc(fd: c_int, len: off_t) -> c_int {
    let fid = with_log(|l| l.fds.get(&fd).map(|f| f.0)).flatten();
    if fid.is_some() {
        if let Some(e) = fault() {
            return fail(e) as c_int;
        }
    }
    let r = ret(sys6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0));
    if let (Some(fid), 0) = (fid, r) {
        with_log(|l| l.ops.push(FOp::Trunc { fid, len: len as u64 }));
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    do_trunc(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    do_trunc(fd, len)
}

unsafe fn do_sync(fd: c_int, nr: i64) -> c_int {
    let fid = with_log(|l| l.fds.get(&fd).map(|f| f.0)).flatten();
    if fid.is_some() {
        if let Some(e) = fault() {
            return fail(e) as c_int;
        }
    }
    let r = if NOSYNC.load(Ordering::Relaxed) { 0 } else { ret(sys6(nr, fd as i64, 0, 0, 0, 0, 0)) };
    if let Some(fid) = fid {
        with_log(|l| l.ops.push(FOp::Sync { fid }));
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}

unsafe fn path_fault(paths: &[&str]) -> Option<i32> {
    if with_log(|l| paths.iter().any(|p| under(l, p))) == Some(true) {
        fault()
    } else {
        None
    }
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (pa, pb) = if LOGGING.load(Ordering::Relaxed) {
        (abspath(libc::AT_FDCWD, a), abspath(libc::AT_FDCWD, b))
    } else {
        (String::new(), String::new())
    };
    if let Some(e) = path_fault(&[&pa, &pb]) {
        return fail(e) as c_int;
    }
    let r = ret(sys6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0));
    if r == 0 {
        with_log(|l| {
            if under(l, &pa) || under(l, &pb) {
                if let Some(fid) = l.names.remove(&pa) {
                    l.names.insert(pb.clone(), fid);
                }
                l.ops.push(FOp::Rename { from: pa.clone(), to: pb.clone() });
            }
        });
    }
    r as c_int
}
unsafe fn do_unlink(dirfd: c_int, p: *const c_char, flags: c_int) -> c_int {
    let pa = if LOGGING.load(Ordering::Relaxed) { abspath(dirfd, p) } else { String::new() };
    if let Some(e) = path_fault(&[&pa]) {
        return fail(e) as c_int;
    }
    let r = ret(sys6(libc::SYS_unlinkat, dirfd as i64, p as i64, flags as i64, 0, 0, 0));
    if r == 0 {
        with_log(|l| {
            if under(l, &pa) {
                if flags & libc::AT_REMOVEDIR != 0 {
                    l.ops.push(FOp::Rmdir { path: pa.clone() });
                } else {
                    l.names.remove(&pa);
                    l.ops.push(FOp::Unlink { path: pa.clone() });
                }
            }
        });
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    do_unlink(d, p, flags)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, p, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    let pa = if LOGGING.load(Ordering::Relaxed) { abspath(libc::AT_FDCWD, p) } else { String::new() };
    if let Some(e) = path_fault(&[&pa]) {
        return fail(e) as c_int;
    }
    let r = ret(sys6(libc::SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0));
    if r == 0 {
        with_log(|l| {
            if under(l, &pa) {
                l.ops.push(FOp::Mkdir { path: pa.clone() });
            }
        });
    }
    r as c_int
}
/// std::fs::copy falls back to read/write when this reports ENOSYS.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    _a: c_int, _b: *mut off_t, _c: c_int, _d: *mut off_t, _e: size_t, _f: c_uint,
) -> ssize_t {
    fail(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut off_t, _d: size_t) -> ssize_t {
    fail(libc::EINVAL) as ssize_t
}

/// A blocking lock request of a controlled thread polls, so that the others
/// can run (and a lock that is never released is a livelock, not a hang).
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sched::active() && op & libc::LOCK_NB == 0 && op & libc::LOCK_UN == 0 {
        loop {
            let r = sys6(libc::SYS_flock, fd as i64, (op | libc::LOCK_NB) as i64, 0, 0, 0, 0);
            if r != -i64::from(libc::EWOULDBLOCK) {
                return ret(r) as c_int;
            }
            sched::spin_hint();
        }
    }
    ret(sys6(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int
}
/// Ends a recording, if there is one.
pub fn stop_log_if() {
    LOGGING.store(false, Ordering::SeqCst);
    unsafe {
        drop((*std::ptr::addr_of_mut!(LOG)).take());
    }
}
