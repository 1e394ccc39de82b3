//! The simulated machine: an in-memory disk, open descriptors, standard streams, entropy,
//! and the fault plan that decides the outcome of every simulated system call.
use crate::rng::{mix2, Fnv, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const PREFIX: &str = "/simdisk/";
pub const FD_BASE: i32 = 1 << 20;
pub const FD_RANDOM: i32 = FD_BASE - 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    /// Transfer at most this many bytes (reads and writes).
    Short(u32),
    /// Fail once with EINTR (open, read, write, getrandom).
    Eintr,
    /// Hard failure; sticky failures repeat for every later call of the same class.
    Err { errno: i32, sticky: bool },
    /// A write that accepts nothing.
    Zero,
    /// The process dies here; of a write in progress `keep` bytes reached the disk.
    Crash { keep: u32 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FaultAt {
    pub n: u64,
    pub f: Fault,
}

/// Benign misbehaviour of every transfer, decided by a hash of (seed, call number).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Chunk {
    pub max: u32,
    pub seed: u64,
    /// one transfer in `den` is shortened
    pub den: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EintrRate {
    pub den: u32,
    pub seed: u64,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub chunk: Option<Chunk>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub eintr: Option<EintrRate>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<FaultAt>,
    /// Bytes the disk can still take.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub quota: Option<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Open,
    Read,
    Write,
    Seek,
    Close,
    Stat,
    Trunc,
    Sync,
    Rename,
    Unlink,
    StdWrite,
    Random,
    Meta,
}

impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Open => "open",
            Op::Read => "read",
            Op::Write => "write",
            Op::Seek => "lseek",
            Op::Close => "close",
            Op::Stat => "stat",
            Op::Trunc => "ftruncate",
            Op::Sync => "fsync",
            Op::Rename => "rename",
            Op::Unlink => "unlink",
            Op::StdWrite => "stdwrite",
            Op::Random => "getrandom",
            Op::Meta => "meta",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Event {
    pub n: u64,
    pub op: Op,
    pub what: String,
    pub arg: i64,
    pub ret: i64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HardFault {
    pub n: u64,
    pub op: Op,
    pub errno: i32,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct OpenFile {
    pub path: String,
    pub ino: u64,
    pub pos: u64,
    pub read: bool,
    pub write: bool,
    pub append: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    pub mode: u32,
}

#[derive(Clone, Debug)]
pub struct Entropy {
    pub rng: Rng,
    /// getrandom is not implemented: callers must use the device.
    pub nosys: bool,
    pub calls: u64,
    /// 0: seeded bytes, 1: all zero, 2: all ones, 3: a counter
    pub pat: u8,
}

#[derive(Default)]
pub struct World {
    pub names: BTreeMap<String, u64>,
    pub inodes: BTreeMap<u64, Inode>,
    pub next_ino: u64,
    pub fds: BTreeMap<i32, u64>,
    pub ofds: BTreeMap<u64, OpenFile>,
    pub next_fd: i32,
    pub plan: Plan,
    pub n: u64,
    pub sticky: Vec<(Op, i32)>,
    pub crashed: bool,
    pub crash_exits: bool,
    pub fired: BTreeMap<String, u64>,
    pub hard: Vec<HardFault>,
    pub log: Vec<Event>,
    pub log_cap: usize,
    pub log_total: u64,
    pub fp: Fnv,
    pub capture_std: bool,
    pub std_out: Vec<u8>,
    pub std_err: Vec<u8>,
    pub std_faults: bool,
    pub entropy: Option<Entropy>,
    pub opened: u64,
    pub closed: u64,
    pub bad_close: u64,
    pub max_n: u64,
    /// order of events seen by the log checks: (stdout length, event number)
    pub std_marks: Vec<(u64, u64)>,
}

pub enum Verdict {
    Go { limit: usize },
    Fail(i32),
    Dead,
}

impl World {
    pub fn new() -> World {
        World { next_ino: 1, next_fd: FD_BASE, log_cap: 400, ..Default::default() }
    }

    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        match self.names.get(path) {
            Some(i) => self.inodes.get_mut(i).unwrap().data = data,
            None => {
                let i = self.next_ino;
                self.next_ino += 1;
                self.names.insert(path.to_string(), i);
                self.inodes.insert(i, Inode { data, mode: 0o644 });
            }
        }
    }

    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.names.get(path).map(|i| &self.inodes[i].data)
    }

    pub fn remove(&mut self, path: &str) {
        self.names.remove(path);
    }

    fn file(&self, fd: i32) -> Option<OpenFile> {
        self.fds.get(&fd).map(|o| self.ofds[o].clone())
    }

    fn set_pos(&mut self, fd: i32, pos: u64) {
        if let Some(o) = self.fds.get(&fd) {
            self.ofds.get_mut(o).unwrap().pos = pos;
        }
    }

    pub fn dup(&mut self, fd: i32) -> i64 {
        match self.fds.get(&fd).copied() {
            None => -(libc::EBADF as i64),
            Some(o) => {
                let n = self.next_fd;
                self.next_fd += 1;
                self.fds.insert(n, o);
                self.opened += 1;
                n as i64
            }
        }
    }

    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        self.names.iter().map(|(k, i)| (k.clone(), self.inodes[i].data.clone())).collect()
    }

    /// Process restart: only the disk survives.
    pub fn restart(&mut self, plan: Plan) {
        self.fds.clear();
        self.ofds.clear();
        self.crashed = false;
        self.sticky.clear();
        self.plan = plan;
        self.n = 0;
        self.hard.clear();
    }

    /// New fault plan for the next operation of the same process.
    pub fn arm(&mut self, plan: Plan) {
        self.sticky.clear();
        self.plan = plan;
        self.n = 0;
        self.hard.clear();
    }

    fn count(&mut self, k: &str) {
        *self.fired.entry(k.to_string()).or_insert(0) += 1;
    }

    /// Decides the outcome of the next simulated system call. `want` is the transfer size.
    pub fn decide(&mut self, op: Op, path: &str, want: usize) -> (u64, Option<Fault>, Verdict) {
        let n = self.n;
        self.n += 1;
        if self.crashed {
            return (n, None, Verdict::Dead);
        }
        if let Some(&(_, e)) = self.sticky.iter().find(|s| s.0 == op) {
            self.hard.push(HardFault { n, op, errno: e, path: path.to_string() });
            self.count("sticky_error_repeat");
            return (n, None, Verdict::Fail(e));
        }
        let transfer = matches!(op, Op::Read | Op::Write | Op::StdWrite | Op::Random);
        let interruptible = transfer || op == Op::Open;
        let f = self.plan.faults.iter().find(|f| f.n == n).map(|f| f.f);
        match f {
            Some(Fault::Crash { .. }) => return (n, f, Verdict::Dead),
            Some(Fault::Err { errno, sticky }) if op != Op::Close && op != Op::Random && errno > 0 && errno != libc::EINTR => {
                if sticky {
                    self.sticky.push((op, errno));
                }
                self.hard.push(HardFault { n, op, errno, path: path.to_string() });
                self.count(&format!("{}_{}", op.name(), errno_name(errno)));
                return (n, f, Verdict::Fail(errno));
            }
            Some(Fault::Eintr) if interruptible => {
                self.count(&format!("{}_eintr", op.name()));
                return (n, f, Verdict::Fail(libc::EINTR));
            }
            Some(Fault::Short(k)) if transfer && want > 0 => {
                let lim = (k.max(1) as usize).min(want);
                if lim < want {
                    self.count(&format!("{}_short", op.name()));
                }
                return (n, f, Verdict::Go { limit: lim });
            }
            Some(Fault::Zero) if op == Op::Write && want > 0 => {
                self.count("write_zero");
                return (n, f, Verdict::Go { limit: 0 });
            }
            _ => {}
        }
        if let Some(r) = self.plan.eintr {
            // never twice in a row, so that progress is guaranteed
            if interruptible && r.den > 1 && n % 2 == 1 && mix2(r.seed, n) % (r.den as u64) == 0 {
                self.count(&format!("{}_eintr", op.name()));
                return (n, None, Verdict::Fail(libc::EINTR));
            }
        }
        let mut limit = want;
        if let Some(c) = self.plan.chunk {
            let h = mix2(c.seed ^ 0x55, n);
            if transfer && want > 1 && h % (c.den.max(1) as u64) == 0 {
                let k = 1 + (mix2(c.seed, n) % (c.max.max(1) as u64)) as usize;
                if k < limit {
                    limit = k;
                    self.count(&format!("{}_short", op.name()));
                }
            }
        }
        (n, None, Verdict::Go { limit })
    }

    pub fn record(&mut self, n: u64, op: Op, what: &str, arg: i64, ret: i64, fault: Option<Fault>) {
        self.fp.add(n);
        self.fp.add(op as u64);
        self.fp.bytes(what.as_bytes());
        self.fp.add(arg as u64);
        self.fp.add(ret as u64);
        self.log_total += 1;
        if n > self.max_n {
            self.max_n = n;
        }
        if self.log.len() < self.log_cap {
            self.log.push(Event { n, op, what: what.to_string(), arg, ret, fault });
        }
    }

    pub fn crash(&mut self) {
        if !self.crashed {
            self.crashed = true;
            self.count("process_crash");
        }
    }

    /// The space fault: how many of `grow` bytes fit.
    pub fn take_quota(&mut self, grow: u64) -> u64 {
        match self.plan.quota {
            None => grow,
            Some(q) => {
                let k = q.min(grow);
                self.plan.quota = Some(q - k);
                k
            }
        }
    }

    // ---- operations; errors are negative errno values ----

    pub fn open(&mut self, path: &str, flags: i32, mode: u32) -> i64 {
        let (n, f, v) = self.decide(Op::Open, path, 0);
        let r = match v {
            Verdict::Dead => {
                self.crash();
                -(libc::EIO as i64)
            }
            Verdict::Fail(e) => -(e as i64),
            Verdict::Go { .. } => self.do_open(path, flags, mode),
        };
        self.record(n, Op::Open, path, flags as i64, r, f);
        r
    }

    fn do_open(&mut self, path: &str, flags: i32, mode: u32) -> i64 {
        let acc = flags & libc::O_ACCMODE;
        let wr = acc != libc::O_RDONLY;
        let rd = acc != libc::O_WRONLY;
        if path.ends_with('/') || path.len() < PREFIX.len() + 1 {
            return -(libc::EISDIR as i64);
        }
        if let Some(d) = path[PREFIX.len()..].rfind('/') {
            // sub-directories exist only if named "dirN"
            if !path[PREFIX.len()..PREFIX.len() + d].starts_with("dir") {
                return -(libc::ENOENT as i64);
            }
        }
        if path[PREFIX.len()..].starts_with("dir") && !path[PREFIX.len()..].contains('/') {
            return -(libc::EISDIR as i64);
        }
        let ino = match self.names.get(path) {
            Some(&i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return -(libc::EEXIST as i64);
                }
                let m = self.inodes[&i].mode;
                if (wr && m & 0o200 == 0) || (rd && m & 0o400 == 0) {
                    return -(libc::EACCES as i64);
                }
                if wr && flags & libc::O_TRUNC != 0 {
                    let node = self.inodes.get_mut(&i).unwrap();
                    node.data.clear();
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return -(libc::ENOENT as i64);
                }
                let i = self.next_ino;
                self.next_ino += 1;
                self.names.insert(path.to_string(), i);
                self.inodes.insert(i, Inode { data: vec![], mode: if mode & 0o600 == 0 { 0o644 } else { mode & 0o777 } });
                i
            }
        };
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, fd as u64);
        self.ofds.insert(fd as u64, OpenFile { path: path.to_string(), ino, pos: 0, read: rd, write: wr, append: flags & libc::O_APPEND != 0 });
        self.opened += 1;
        fd as i64
    }

    pub fn close(&mut self, fd: i32) -> i64 {
        let path = self.file(fd).map(|f| f.path).unwrap_or_default();
        let (n, f, v) = self.decide(Op::Close, &path, 0);
        if let Verdict::Dead = v {
            self.crash();
        }
        let r = match self.fds.remove(&fd) {
            Some(_) => {
                self.closed += 1;
                0
            }
            None => {
                if !self.crashed {
                    self.bad_close += 1;
                }
                -(libc::EBADF as i64)
            }
        };
        self.record(n, Op::Close, &path, fd as i64, r, f);
        r
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> i64 {
        let file = match self.file(fd) {
            Some(f) => f,
            None => return if self.crashed { -(libc::EIO as i64) } else { -(libc::EBADF as i64) },
        };
        let (n, f, v) = self.decide(Op::Read, &file.path, buf.len());
        let r = match v {
            Verdict::Dead => {
                self.crash();
                -(libc::EIO as i64)
            }
            Verdict::Fail(e) => -(e as i64),
            Verdict::Go { limit } => {
                if !file.read {
                    -(libc::EBADF as i64)
                } else {
                    let data = &self.inodes[&file.ino].data;
                    let pos = at.unwrap_or(file.pos) as usize;
                    let avail = data.len().saturating_sub(pos);
                    let k = limit.min(avail);
                    buf[..k].copy_from_slice(&data[pos.min(data.len())..pos.min(data.len()) + k]);
                    if at.is_none() {
                        self.set_pos(fd, file.pos + k as u64);
                    }
                    k as i64
                }
            }
        };
        self.record(n, Op::Read, &file.path, buf.len() as i64, r, f);
        r
    }

    fn put_bytes(&mut self, file: &OpenFile, pos: u64, b: &[u8]) {
        if let Some(node) = self.inodes.get_mut(&file.ino) {
            let end = pos as usize + b.len();
            if node.data.len() < end {
                node.data.resize(end, 0);
            }
            node.data[pos as usize..end].copy_from_slice(b);
        }
    }

    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> i64 {
        let file = match self.file(fd) {
            Some(f) => f,
            None => return if self.crashed { -(libc::EIO as i64) } else { -(libc::EBADF as i64) },
        };
        let (n, f, v) = self.decide(Op::Write, &file.path, buf.len());
        let len = self.inodes.get(&file.ino).map(|i| i.data.len() as u64).unwrap_or(0);
        let pos = if file.append { len } else { at.unwrap_or(file.pos) };
        let r = match v {
            Verdict::Dead => {
                if !self.crashed {
                    if let Some(Fault::Crash { keep }) = f {
                        let k = (keep as usize).min(buf.len());
                        if k > 0 && file.write {
                            self.put_bytes(&file, pos, &buf[..k]);
                            self.count("torn_write");
                        }
                    }
                }
                self.crash();
                -(libc::EIO as i64)
            }
            Verdict::Fail(e) => -(e as i64),
            Verdict::Go { limit } => {
                if !file.write {
                    -(libc::EBADF as i64)
                } else {
                    let mut k = limit;
                    let grow = (pos + k as u64).saturating_sub(len);
                    let can = self.take_quota(grow);
                    if can < grow {
                        k -= (grow - can) as usize;
                    }
                    if k == 0 && limit > 0 {
                        self.hard.push(HardFault { n, op: Op::Write, errno: libc::ENOSPC, path: file.path.clone() });
                        self.count("write_ENOSPC_disk_full");
                        -(libc::ENOSPC as i64)
                    } else {
                        if k < limit {
                            self.count("write_short_disk_full");
                        }
                        self.put_bytes(&file, pos, &buf[..k]);
                        if at.is_none() {
                            self.set_pos(fd, pos + k as u64);
                        }
                        k as i64
                    }
                }
            }
        };
        self.record(n, Op::Write, &file.path, buf.len() as i64, r, f);
        if self.crashed {
            return -(libc::EIO as i64);
        }
        r
    }

    pub fn seek(&mut self, fd: i32, off: i64, whence: i32) -> i64 {
        let file = match self.file(fd) {
            Some(f) => f,
            None => return if self.crashed { -(libc::EIO as i64) } else { -(libc::EBADF as i64) },
        };
        let len = self.inodes.get(&file.ino).map(|i| i.data.len() as i64).unwrap_or(0);
        if whence == libc::SEEK_CUR && off == 0 {
            // a position query: callers may ignore its failure, so it is never faulted
            return file.pos as i64;
        }
        let (n, f, v) = self.decide(Op::Seek, &file.path, 0);
        let r = match v {
            Verdict::Dead => {
                self.crash();
                -(libc::EIO as i64)
            }
            Verdict::Fail(e) => -(e as i64),
            Verdict::Go { .. } => {
                let base = match whence {
                    libc::SEEK_SET => 0,
                    libc::SEEK_CUR => file.pos as i64,
                    libc::SEEK_END => len,
                    _ => return -(libc::EINVAL as i64),
                };
                let p = base.checked_add(off).unwrap_or(-1);
                if p < 0 {
                    -(libc::EINVAL as i64)
                } else {
                    self.set_pos(fd, p as u64);
                    p
                }
            }
        };
        self.record(n, Op::Seek, &file.path, off, r, f);
        r
    }

    pub fn simple(&mut self, op: Op, what: &str, run: impl FnOnce(&mut World) -> i64) -> i64 {
        let (n, f, v) = self.decide(op, what, 0);
        let r = match v {
            Verdict::Dead => {
                self.crash();
                -(libc::EIO as i64)
            }
            Verdict::Fail(e) => -(e as i64),
            Verdict::Go { .. } => run(self),
        };
        self.record(n, op, what, 0, r, f);
        r
    }

    pub fn std_write(&mut self, fd: i32, buf: &[u8]) -> i64 {
        let what = if fd == 1 { "stdout" } else { "stderr" };
        let (n, f, v) = if self.std_faults {
            self.decide(Op::StdWrite, what, buf.len())
        } else {
            (self.n, None, if self.crashed { Verdict::Dead } else { Verdict::Go { limit: buf.len() } })
        };
        let r = match v {
            Verdict::Dead => {
                self.crash();
                -(libc::EIO as i64)
            }
            Verdict::Fail(e) => -(e as i64),
            Verdict::Go { limit } => {
                let o = if fd == 1 { &mut self.std_out } else { &mut self.std_err };
                o.extend_from_slice(&buf[..limit]);
                let l = o.len() as u64;
                if fd == 1 {
                    self.std_marks.push((l, n));
                }
                limit as i64
            }
        };
        self.record(n, Op::StdWrite, what, buf.len() as i64, r, f);
        r
    }

    /// Fills `buf` with simulated entropy.
    pub fn random(&mut self, buf: &mut [u8], device: bool) -> i64 {
        let nosys = match &self.entropy {
            None => return -(libc::ENOSYS as i64),
            Some(e) => e.nosys,
        };
        if !device && nosys {
            self.count("getrandom_enosys");
            return -(libc::ENOSYS as i64);
        }
        if buf.is_empty() {
            return 0;
        }
        let (n, f, v) = self.decide(Op::Random, if device { "urandom" } else { "getrandom" }, buf.len());
        let r = match v {
            Verdict::Dead => {
                self.crash();
                -(libc::EIO as i64)
            }
            Verdict::Fail(e) => -(e as i64),
            Verdict::Go { limit } => {
                let e = self.entropy.as_mut().unwrap();
                e.calls += 1;
                for b in buf[..limit].iter_mut() {
                    let v = e.rng.next();
                    *b = match e.pat {
                        0 => v as u8,
                        1 => 0,
                        2 => 255,
                        _ => (e.rng.0 >> 3) as u8,
                    };
                }
                limit as i64
            }
        };
        self.record(n, Op::Random, "random", buf.len() as i64, r, f);
        r
    }
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EACCES => "EACCES",
        libc::EPERM => "EPERM",
        libc::ENOENT => "ENOENT",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::EFBIG => "EFBIG",
        libc::EPIPE => "EPIPE",
        libc::ENOMEM => "ENOMEM",
        libc::ESTALE => "ESTALE",
        libc::EISDIR => "EISDIR",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::EAGAIN => "EAGAIN",
        libc::ECONNRESET => "ECONNRESET",
        libc::EINTR => "EINTR",
        libc::EBADF => "EBADF",
        libc::ENODEV => "ENODEV",
        libc::EINVAL => "EINVAL",
        libc::ENOTDIR => "ENOTDIR",
        libc::ELOOP => "ELOOP",
        libc::ENAMETOOLONG => "ENAMETOOLONG",
        libc::ETXTBSY => "ETXTBSY",
        libc::EOVERFLOW => "EOVERFLOW",
        libc::ENXIO => "ENXIO",
        libc::EBUSY => "EBUSY",
        libc::ENOSYS => "ENOSYS",
        libc::ECONNABORTED => "ECONNABORTED",
        _ => "E_OTHER",
    }
}
