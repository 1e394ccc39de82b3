//! Interposed C library symbols. Paths below `/simdisk/` and descriptors above FD_BASE belong to
//! the simulated machine; everything else passes through by raw system calls.
use crate::raw::{pass, set_errno, syscall6};
use crate::world::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, off_t, size_t, ssize_t};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering};

static LOCK: AtomicBool = AtomicBool::new(false);
static mut WORLD: Option<Box<World>> = None;

thread_local! {
    /// > 0 while this thread runs simulator code: hooks (yield points, accounting) are off.
    pub static IN_SIM: Cell<u32> = const { Cell::new(0) };
}

pub struct SimGuard(());
impl SimGuard {
    pub fn enter() -> SimGuard {
        IN_SIM.with(|c| c.set(c.get() + 1));
        SimGuard(())
    }
}
impl Drop for SimGuard {
    fn drop(&mut self) {
        IN_SIM.with(|c| c.set(c.get() - 1));
    }
}
pub fn in_sim() -> bool {
    IN_SIM.try_with(|c| c.get() > 0).unwrap_or(true)
}

struct LockGuard;
impl LockGuard {
    fn take() -> LockGuard {
        while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            unsafe { syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
        }
        LockGuard
    }
}
impl Drop for LockGuard {
    fn drop(&mut self) {
        LOCK.store(false, Ordering::Release);
    }
}

/// Runs `f` on the simulated machine, if there is one.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let _s = SimGuard::enter();
    let _l = LockGuard::take();
    unsafe { (*std::ptr::addr_of_mut!(WORLD)).as_mut().map(|w| f(w)) }
}

pub fn install(w: Option<Box<World>>) -> Option<Box<World>> {
    let _s = SimGuard::enter();
    let _l = LockGuard::take();
    unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(WORLD), w) }
}

fn crash_check() {
    let dead = with(|w| w.crashed && w.crash_exits).unwrap_or(false);
    if dead {
        crate::shim::finish();
        crate::raw::exit_now(137);
    }
}

// ---- hooks the scheduler installs ----
pub static YIELD_HOOK: AtomicUsize = AtomicUsize::new(0);
/// fn(addr) called instead of blocking in the kernel; returns true if it handled the wait
pub static WAIT_HOOK: AtomicUsize = AtomicUsize::new(0);

#[inline]
pub fn yield_point(kind: u32) {
    let h = YIELD_HOOK.load(Ordering::Relaxed);
    if h != 0 && !in_sim() {
        let f: fn(u32) = unsafe { std::mem::transmute(h) };
        f(kind);
    }
}

fn wait_hook() -> bool {
    let h = WAIT_HOOK.load(Ordering::Relaxed);
    if h != 0 && !in_sim() {
        let f: fn() -> bool = unsafe { std::mem::transmute(h) };
        return f();
    }
    false
}

unsafe fn sim_path<'a>(p: *const c_char) -> Option<&'a str> {
    if p.is_null() {
        return None;
    }
    let pre = PREFIX.as_bytes();
    for (i, b) in pre.iter().enumerate() {
        if *p.add(i) as u8 != *b {
            return None;
        }
    }
    match CStr::from_ptr(p).to_str() {
        Ok(s) => Some(s),
        Err(_) => Some("/simdisk/non-utf8"),
    }
}

unsafe fn random_path(p: *const c_char) -> bool {
    if p.is_null() || *p as u8 != b'/' {
        return false;
    }
    let b = CStr::from_ptr(p).to_bytes();
    b == b"/dev/urandom" || b == b"/dev/random"
}

fn is_sim(fd: c_int) -> bool {
    fd >= FD_RANDOM
}

fn ret(r: Option<i64>) -> i64 {
    let r = r.unwrap_or(-(libc::EBADF as i64));
    crash_check();
    if r < 0 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(path) = sim_path(p) {
        yield_point(1);
        return ret(with(|w| w.open(path, flags, mode)).or(Some(-(libc::ENOENT as i64)))) as c_int;
    }
    if random_path(p) {
        let sim = with(|w| w.entropy.is_some()).unwrap_or(false);
        if sim {
            return FD_RANDOM;
        }
    }
    pass(libc::SYS_openat, dirfd as i64, p as i64, flags as i64, mode as i64, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_sim(fd) {
        if fd == FD_RANDOM {
            return 0;
        }
        yield_point(2);
        return ret(with(|w| w.close(fd))) as c_int;
    }
    pass(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0) as c_int
}

unsafe fn do_read(fd: c_int, b: *mut u8, n: usize, at: Option<u64>) -> ssize_t {
    yield_point(3);
    let buf: &mut [u8] = if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(b, n) };
    if fd == FD_RANDOM {
        return ret(with(|w| w.random(buf, true))) as ssize_t;
    }
    ret(with(|w| w.read(fd, buf, at))) as ssize_t
}
unsafe fn do_write(fd: c_int, b: *const u8, n: usize, at: Option<u64>) -> ssize_t {
    yield_point(4);
    let buf: &[u8] = if n == 0 { &[] } else { std::slice::from_raw_parts(b, n) };
    ret(with(|w| w.write(fd, buf, at))) as ssize_t
}

unsafe fn std_captured(fd: c_int) -> bool {
    (fd == 1 || fd == 2) && !in_sim() && with(|w| w.capture_std).unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if is_sim(fd) {
        return do_read(fd, b as *mut u8, n, None);
    }
    pass(libc::SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    if is_sim(fd) {
        return do_read(fd, b as *mut u8, n, Some(o as u64));
    }
    pass(libc::SYS_pread64, fd as i64, b as i64, n as i64, o, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    pread(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if is_sim(fd) {
        return do_write(fd, b as *const u8, n, None);
    }
    if std_captured(fd) {
        let buf: &[u8] = if n == 0 { &[] } else { std::slice::from_raw_parts(b as *const u8, n) };
        return ret(with(|w| w.std_write(fd, buf))) as ssize_t;
    }
    pass(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
    if is_sim(fd) {
        return do_write(fd, b as *const u8, n, Some(o as u64));
    }
    pass(libc::SYS_pwrite64, fd as i64, b as i64, n as i64, o, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
    pwrite(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if is_sim(fd) {
        for i in 0..n {
            let e = &*v.add(i as usize);
            if e.iov_len > 0 {
                return do_read(fd, e.iov_base as *mut u8, e.iov_len, None);
            }
        }
        return 0;
    }
    pass(libc::SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let std = std_captured(fd);
    if is_sim(fd) || std {
        let _g = SimGuard::enter();
        let mut all: Vec<u8> = vec![];
        for i in 0..n {
            let e = &*v.add(i as usize);
            if e.iov_len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len));
            }
        }
        drop(_g);
        let r = if std {
            ret(with(|w| w.std_write(fd, &all))) as ssize_t
        } else {
            do_write(fd, all.as_ptr(), all.len(), None)
        };
        let _g = SimGuard::enter();
        drop(all);
        return r;
    }
    pass(libc::SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: off_t, wh: c_int) -> off_t {
    if is_sim(fd) {
        yield_point(5);
        return ret(with(|w| w.seek(fd, o, wh))) as off_t;
    }
    pass(libc::SYS_lseek, fd as i64, o, wh as i64, 0, 0, 0) as off_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off_t, wh: c_int) -> off_t {
    lseek(fd, o, wh)
}

unsafe fn fill_stat(st: *mut libc::stat, len: i64, mode: u32) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat>());
    (*st).st_mode = mode;
    (*st).st_size = len;
    (*st).st_blksize = 4096;
    (*st).st_nlink = 1;
    (*st).st_ino = 1;
}

fn stat_fd(fd: c_int) -> i64 {
    if fd == FD_RANDOM {
        return 0;
    }
    with(|w| match w.fds.get(&fd) {
        Some(o) => {
            let i = w.ofds[o].ino;
            w.inodes.get(&i).map(|x| x.data.len() as i64).unwrap_or(0)
        }
        None => -(libc::EBADF as i64),
    })
    .unwrap_or(-(libc::EBADF as i64))
}
fn is_dir(path: &str) -> bool {
    let p = path.trim_end_matches('/');
    p == "/simdisk" || (p.starts_with("/simdisk/dir") && !p[9..].contains('/'))
}
/// (length, mode) or a negative errno
fn stat_path(path: &str) -> (i64, u32) {
    if is_dir(path) {
        return (0, libc::S_IFDIR | 0o755);
    }
    with(|w| match w.names.get(path) {
        Some(i) => (w.inodes[i].data.len() as i64, libc::S_IFREG | w.inodes[i].mode),
        None => (-(libc::ENOENT as i64), 0),
    })
    .unwrap_or((-(libc::ENOENT as i64), 0))
}

unsafe fn stat_out(st: *mut libc::stat, r: (i64, u32)) -> c_int {
    if r.0 < 0 {
        set_errno(-r.0 as i32);
        return -1;
    }
    fill_stat(st, r.0, r.1);
    0
}

#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat) -> c_int {
    if is_sim(fd) {
        return stat_out(st, (stat_fd(fd), libc::S_IFREG | 0o644));
    }
    pass(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat) -> c_int {
    fstat(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat) -> c_int {
    if let Some(path) = sim_path(p) {
        return stat_out(st, stat_path(path));
    }
    pass(libc::SYS_newfstatat, libc::AT_FDCWD as i64, p as i64, st as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat) -> c_int {
    stat(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat) -> c_int {
    if let Some(path) = sim_path(p) {
        return stat_out(st, stat_path(path));
    }
    pass(libc::SYS_newfstatat, libc::AT_FDCWD as i64, p as i64, st as i64, libc::AT_SYMLINK_NOFOLLOW as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat) -> c_int {
    lstat(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut libc::stat, fl: c_int) -> c_int {
    if let Some(path) = sim_path(p) {
        return stat_out(st, stat_path(path));
    }
    if is_sim(d) {
        return stat_out(st, (stat_fd(d), libc::S_IFREG | 0o644));
    }
    pass(libc::SYS_newfstatat, d as i64, p as i64, st as i64, fl as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat, fl: c_int) -> c_int {
    fstatat(d, p, st, fl)
}

unsafe fn do_statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let r = if let Some(path) = sim_path(p) {
        Some(stat_path(path))
    } else if is_sim(d) {
        Some((stat_fd(d), libc::S_IFREG | 0o644))
    } else {
        None
    };
    match r {
        None => pass(libc::SYS_statx, d as i64, p as i64, fl as i64, mask as i64, out as i64, 0) as c_int,
        Some((l, _)) if l < 0 => {
            set_errno(-l as i32);
            -1
        }
        Some((l, m)) => {
            std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*out).stx_mask = 0x7ff;
            (*out).stx_blksize = 4096;
            (*out).stx_nlink = 1;
            (*out).stx_mode = m as u16;
            (*out).stx_size = l as u64;
            (*out).stx_ino = 1;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    do_statx(d, p, fl, mask, out)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, l: off_t) -> c_int {
    if is_sim(fd) {
        yield_point(6);
        return ret(with(|w| {
            w.simple(Op::Trunc, "ftruncate", |w| match w.fds.get(&fd) {
                Some(o) => {
                    let i = w.ofds[o].ino;
                    if let Some(n) = w.inodes.get_mut(&i) {
                        n.data.resize(l as usize, 0);
                    }
                    0
                }
                None => -(libc::EBADF as i64),
            })
        })) as c_int;
    }
    pass(libc::SYS_ftruncate, fd as i64, l, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, l: off_t) -> c_int {
    ftruncate(fd, l)
}
unsafe fn sync_fd(fd: c_int, nr: c_long) -> c_int {
    if is_sim(fd) {
        yield_point(7);
        return ret(with(|w| w.simple(Op::Sync, "fsync", |_| 0))) as c_int;
    }
    pass(nr, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_fd(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_fd(fd, libc::SYS_fdatasync)
}

unsafe fn do_rename(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_uint) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(x), Some(y)) => {
            yield_point(8);
            ret(with(|w| {
                w.simple(Op::Rename, x, |w| match w.names.get(x).copied() {
                    None => -(libc::ENOENT as i64),
                    Some(i) => {
                        w.names.remove(x);
                        w.names.insert(y.to_string(), i);
                        0
                    }
                })
            })) as c_int
        }
        (None, None) => pass(libc::SYS_renameat2, d1 as i64, a as i64, d2 as i64, b as i64, fl as i64, 0) as c_int,
        _ => {
            set_errno(libc::EXDEV);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    do_rename(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    do_rename(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_uint) -> c_int {
    do_rename(d1, a, d2, b, f)
}

unsafe fn do_unlink(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if let Some(path) = sim_path(p) {
        yield_point(9);
        return ret(with(|w| {
            w.simple(Op::Unlink, path, |w| {
                if w.names.contains_key(path) {
                    w.remove(path);
                    0
                } else {
                    -(libc::ENOENT as i64)
                }
            })
        })) as c_int;
    }
    pass(libc::SYS_unlinkat, d as i64, p as i64, fl as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    do_unlink(d, p, fl)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    if sim_path(p).is_some() {
        set_errno(libc::EEXIST);
        return -1;
    }
    pass(libc::SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if let Some(path) = sim_path(p) {
        if is_dir(path) {
            return 0;
        }
        let (l, m) = stat_path(path);
        if l < 0 {
            set_errno(libc::ENOENT);
            return -1;
        }
        if mode & libc::W_OK != 0 && m & 0o200 == 0 {
            set_errno(libc::EACCES);
            return -1;
        }
        return 0;
    }
    pass(libc::SYS_access, p as i64, mode as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, mode: c_int, _fl: c_int) -> c_int {
    if sim_path(p).is_some() {
        return access(p, mode);
    }
    pass(libc::SYS_faccessat, d as i64, p as i64, mode as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(path) = sim_path(p) {
        if !is_dir(path) && stat_path(path).0 < 0 {
            set_errno(libc::ENOENT);
            return std::ptr::null_mut();
        }
        let dst = if out.is_null() { libc::malloc(path.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(path.as_ptr(), dst as *mut u8, path.len());
        *dst.add(path.len()) = 0;
        return dst;
    }
    static REAL: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
    let mut f = REAL.load(Ordering::Relaxed);
    if f.is_null() {
        f = libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr());
        REAL.store(f, Ordering::Relaxed);
    }
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(f);
    f(p, out)
}

unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if is_sim(fd) {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret(with(|w| w.dup(fd))) as c_int,
            _ => 0,
        };
    }
    pass(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if is_sim(fd) {
        return ret(with(|w| w.dup(fd))) as c_int;
    }
    pass(libc::SYS_dup, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: c_long) -> c_int {
    if is_sim(fd) {
        set_errno(libc::ENOTTY);
        return -1;
    }
    pass(libc::SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if is_sim(fd) {
        return 0;
    }
    pass(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: c_uint) -> c_int {
    if is_sim(fd) {
        return 0;
    }
    pass(libc::SYS_fchmod, fd as i64, m as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: c_uint) -> c_int {
    if sim_path(p).is_some() {
        return 0;
    }
    pass(libc::SYS_chmod, p as i64, m as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, o: off_t, l: off_t, a: c_int) -> c_int {
    if is_sim(fd) {
        return 0;
    }
    -(syscall6(libc::SYS_fadvise64, fd as i64, o, l, a as i64, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, o: off_t, l: off_t, a: c_int) -> c_int {
    posix_fadvise(fd, o, l, a)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, m: c_int, o: off_t, l: off_t) -> c_int {
    if is_sim(fd) {
        set_errno(libc::EOPNOTSUPP);
        return -1;
    }
    pass(libc::SYS_fallocate, fd as i64, m as i64, o, l, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: off_t, l: off_t) -> c_int {
    fallocate(fd, m, o, l)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut off_t, b: c_int, ob: *mut off_t, n: size_t, f: c_uint) -> ssize_t {
    if is_sim(a) || is_sim(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    pass(libc::SYS_copy_file_range, a as i64, oa as i64, b as i64, ob as i64, n as i64, f as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> ssize_t {
    if is_sim(o) || is_sim(i) {
        set_errno(libc::EINVAL);
        return -1;
    }
    pass(libc::SYS_sendfile, o as i64, i as i64, off as i64, n as i64, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> ssize_t {
    sendfile(o, i, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, oa: *mut off_t, b: c_int, ob: *mut off_t, n: size_t, f: c_uint) -> ssize_t {
    if is_sim(a) || is_sim(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    pass(libc::SYS_splice, a as i64, oa as i64, b as i64, ob as i64, n as i64, f as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void {
    if is_sim(fd) {
        set_errno(libc::ENODEV);
        return libc::MAP_FAILED;
    }
    pass(libc::SYS_mmap, a as i64, l as i64, p as i64, f as i64, fd as i64, o) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void {
    mmap(a, l, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if n == 1 && is_sim((*fds).fd) {
        (*fds).revents = (*fds).events & (libc::POLLIN | libc::POLLOUT);
        return 1;
    }
    pass(libc::SYS_poll, fds as i64, n as i64, t as i64, 0, 0, 0) as c_int
}

unsafe fn do_getrandom(b: *mut u8, n: usize, fl: c_uint) -> i64 {
    let sim = !in_sim() && with(|w| w.entropy.is_some()).unwrap_or(false);
    if sim {
        yield_point(10);
        let buf: &mut [u8] = if n == 0 || b.is_null() { &mut [] } else { std::slice::from_raw_parts_mut(b, n) };
        return ret(with(|w| w.random(buf, false)));
    }
    pass(libc::SYS_getrandom, b as i64, n as i64, fl as i64, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    do_getrandom(b as *mut u8, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    let mut got = 0;
    while got < n {
        let r = do_getrandom((b as *mut u8).add(got), n - got, 0);
        if r < 0 {
            if *libc::__errno_location() == libc::EINTR {
                continue;
            }
            return -1;
        }
        got += r as usize;
    }
    0
}

/// libc's variadic `syscall`: on x86-64 a seven-argument function has the same calling sequence.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    match n {
        libc::SYS_getrandom => do_getrandom(a as *mut u8, b as usize, c as c_uint),
        libc::SYS_statx => do_statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        libc::SYS_futex => {
            let op = b as c_int & 127;
            if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && wait_hook() {
                set_errno(libc::EAGAIN);
                return -1;
            }
            pass(n, a, b, c, d, e, f)
        }
        libc::SYS_copy_file_range if is_sim(a as c_int) || is_sim(c as c_int) => {
            set_errno(libc::EINVAL);
            -1
        }
        libc::SYS_read if is_sim(a as c_int) => read(a as c_int, b as *mut c_void, c as usize) as c_long,
        libc::SYS_write if is_sim(a as c_int) => write(a as c_int, b as *const c_void, c as usize) as c_long,
        libc::SYS_close if is_sim(a as c_int) => close(a as c_int) as c_long,
        libc::SYS_openat => do_open(a as c_int, b as *const c_char, c as c_int, d as c_uint) as c_long,
        libc::SYS_renameat2 => do_rename(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long,
        _ => pass(n, a, b, c, d, e, f),
    }
}
