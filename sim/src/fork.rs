//! Pristine processes: a zygote forked before anything of the library has run, and children of it.
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicI32, Ordering::Relaxed};

#[derive(Debug)]
pub enum Death {
    Code(i32),
    Signal(i32),
}

fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let k = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if k <= 0 {
            return false;
        }
        b = &b[k as usize..];
    }
    true
}
fn read_n(fd: i32, n: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; n];
    let mut at = 0;
    while at < n {
        let k = unsafe { libc::read(fd, v[at..].as_mut_ptr() as *mut _, n - at) };
        if k <= 0 {
            return None;
        }
        at += k as usize;
    }
    Some(v)
}
fn send(fd: i32, b: &[u8]) -> bool {
    write_all(fd, &(b.len() as u64).to_le_bytes()) && write_all(fd, b)
}
fn recv(fd: i32) -> Option<Vec<u8>> {
    let l = read_n(fd, 8)?;
    read_n(fd, u64::from_le_bytes(l.try_into().unwrap()) as usize)
}

/// Runs `f` in a forked child and returns its value.
pub fn forked<T: Serialize + DeserializeOwned>(f: impl FnOnce() -> T) -> Result<T, Death> {
    let mut p = [0i32; 2];
    unsafe {
        assert!(libc::pipe(p.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(p[0]);
            libc::alarm(100);
            let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            match v {
                Ok(v) => {
                    send(p[1], &serde_json::to_vec(&v).unwrap());
                    simcore::raw::exit_now(0);
                }
                Err(_) => simcore::raw::exit_now(101),
            }
        }
        libc::close(p[1]);
        let r = recv(p[0]);
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            return Err(Death::Signal(libc::WTERMSIG(st)));
        }
        match r {
            Some(b) => serde_json::from_slice(&b).map_err(|_| Death::Code(-1)),
            None => Err(Death::Code(libc::WEXITSTATUS(st))),
        }
    }
}

static REQ: AtomicI32 = AtomicI32::new(-1);
static RSP: AtomicI32 = AtomicI32::new(-1);

/// Forks the zygote; each request is answered by `f` in a fresh child of it.
pub fn start(f: fn(&[u8]) -> Vec<u8>) {
    let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
    unsafe {
        assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(a[1]);
            libc::close(b[0]);
            while let Some(q) = recv(a[0]) {
                let r: Reply = match forked(|| f(&q)) {
                    Ok(v) => Reply { ok: Some(v), code: 0, signal: 0 },
                    Err(Death::Code(c)) => Reply { ok: None, code: c, signal: 0 },
                    Err(Death::Signal(s)) => Reply { ok: None, code: 0, signal: s },
                };
                if !send(b[1], &serde_json::to_vec(&r).unwrap()) {
                    break;
                }
            }
            simcore::raw::exit_now(0);
        }
        libc::close(a[0]);
        libc::close(b[1]);
    }
    REQ.store(a[1], Relaxed);
    RSP.store(b[0], Relaxed);
}

#[derive(Serialize, Deserialize)]
struct Reply {
    ok: Option<Vec<u8>>,
    code: i32,
    signal: i32,
}

pub fn ask(q: &[u8]) -> Result<Vec<u8>, Death> {
    let (a, b) = (REQ.load(Relaxed), RSP.load(Relaxed));
    if a < 0 || !send(a, q) {
        return Err(Death::Code(-2));
    }
    match recv(b).and_then(|r| serde_json::from_slice::<Reply>(&r).ok()) {
        Some(Reply { ok: Some(v), .. }) => Ok(v),
        Some(r) if r.signal != 0 => Err(Death::Signal(r.signal)),
        Some(r) => Err(Death::Code(r.code)),
        None => Err(Death::Code(-3)),
    }
}
