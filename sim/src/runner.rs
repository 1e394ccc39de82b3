//! Seeded search over simulated runs: workers, statistics, minimisation, replay files, evidence.
use crate::{alloc, sched};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simcore::interpose;
use simcore::rng::{mix2, Fnv, Rng};
use simcore::world::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    /// identifies the specific failing input, call site or history for the known-findings file
    pub key: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(class: &str, key: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), key: key.into(), detail: detail.into() })
}

#[derive(Default)]
pub struct Ctx {
    pub fired: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub syscalls: u64,
    pub steps: u64,
    pub fps: HashSet<u64>,
    pub nontrivial: bool,
    pub fp: Fnv,
    pub notes: Vec<String>,
    pub verbose: bool,
    pub tier_thorough: bool,
    pub scratch: String,
    pub seed: u64,
}

impl Ctx {
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn fault(&mut self, k: &str) {
        self.faults(k, 1);
    }
    pub fn faults(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.fired.entry(k.to_string()).or_insert(0) += n;
            self.nontrivial = true;
        }
    }
    pub fn world(&mut self, w: &World) {
        for (k, v) in &w.fired {
            self.faults(k, *v);
        }
        self.syscalls += w.log_total;
        self.fp.add(w.fp.0);
        if self.verbose {
            for e in &w.log {
                self.notes.push(format!(
                    "syscall {:>3} {:<9} {} arg={} -> {}{}",
                    e.n,
                    e.op.name(),
                    e.what,
                    e.arg,
                    e.ret,
                    e.fault.map(|f| format!("   injected {:?}", f)).unwrap_or_default()
                ));
            }
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        if self.verbose {
            self.notes.push(s.into());
        }
    }
}

// ---- panics ----
static PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let _g = interpose::SimGuard::enter();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "payload".into()
        };
        let l = i
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let m = format!("{} at {}", m, l);
        let _ = OWN_PANIC.try_with(|p| *p.borrow_mut() = Some(m.clone()));
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(m);
    }));
}

thread_local!(static OWN_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) });

/// The text of this thread's last panic, or else of the process's.
pub fn last_panic() -> String {
    if let Some(m) = OWN_PANIC.with(|p| p.borrow_mut().take()) {
        return m;
    }
    PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}

/// Runs library code; a panic becomes a violation.
pub fn calm<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = last_panic();
            fail("panic", format!("panic:{}", what), format!("{} panicked: {}", what, m))
        }
    }
}

// ---- the simulated machine for one run ----
pub struct Machine(());
impl Machine {
    pub fn start(w: World) -> Machine {
        interpose::install(Some(Box::new(w)));
        Machine(())
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut World) -> R) -> R {
        interpose::with(f).expect("world")
    }
    pub fn stop(self) -> Box<World> {
        interpose::install(None).expect("world")
    }
}
impl Drop for Machine {
    fn drop(&mut self) {
        let _ = interpose::install(None);
    }
}

// ---- fault plans with positions relative to a fault-free run ----
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pos {
    /// call number
    Abs(u32),
    /// fraction (of 65536) of the calls of the fault-free run
    Frac(u32),
    /// counted from the last call of the fault-free run
    End(u32),
}
impl Pos {
    pub fn gen(r: &mut Rng) -> Pos {
        match r.below(10) {
            0 | 1 => Pos::Abs(r.below(8) as u32),
            2..=6 => Pos::Frac(r.below(65536) as u32),
            _ => Pos::End(r.below(6) as u32),
        }
    }
    pub fn at(self, total: u64) -> u64 {
        match self {
            Pos::Abs(n) => n as u64,
            Pos::Frac(f) => total * f as u64 / 65536,
            Pos::End(e) => total.saturating_sub(1 + e as u64),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FSpec {
    pub pos: Pos,
    pub f: Fault,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct PlanSpec {
    pub chunk: Option<Chunk>,
    pub eintr: Option<EintrRate>,
    pub faults: Vec<FSpec>,
    pub quota: Option<Pos>,
}

impl PlanSpec {
    pub fn benign(r: &mut Rng) -> PlanSpec {
        let mut p = PlanSpec::default();
        if r.chance(2, 3) {
            p.chunk = Some(Chunk {
                max: *r.pick(&[1, 2, 3, 7, 12, 16, 100, 511, 4096]),
                seed: r.next(),
                den: *r.pick(&[1, 1, 2, 3, 8]),
            });
        }
        if r.chance(1, 2) {
            p.eintr = Some(EintrRate { den: *r.pick(&[2, 3, 8, 20]), seed: r.next() });
        }
        p
    }
    pub fn base(&self) -> Plan {
        Plan { chunk: self.chunk, eintr: self.eintr, faults: vec![], quota: None }
    }
    pub fn needs_dry(&self) -> bool {
        !self.faults.is_empty() || self.quota.is_some()
    }
    pub fn resolve(&self, calls: u64, bytes: u64) -> Plan {
        let mut p = self.base();
        p.faults = self.faults.iter().map(|f| FaultAt { n: f.pos.at(calls), f: f.f }).collect();
        p.quota = self.quota.map(|q| q.at(bytes));
        p
    }
}

pub const WRITE_ERRNOS: [i32; 16] = [
    libc::EIO,
    libc::ENOSPC,
    libc::EDQUOT,
    libc::EFBIG,
    libc::EPIPE,
    libc::EROFS,
    libc::ETIMEDOUT,
    libc::EAGAIN,
    libc::EINVAL,
    libc::EPERM,
    libc::ENOMEM,
    libc::EACCES,
    libc::EOVERFLOW,
    libc::ENXIO,
    libc::EBUSY,
    libc::ECONNABORTED,
];
pub const READ_ERRNOS: [i32; 16] = [
    libc::EIO,
    libc::ESTALE,
    libc::ETIMEDOUT,
    libc::ENOMEM,
    libc::EACCES,
    libc::EAGAIN,
    libc::ECONNRESET,
    libc::EINVAL,
    libc::EISDIR,
    libc::EPERM,
    libc::EOVERFLOW,
    libc::ENXIO,
    libc::ENOENT,
    libc::EPIPE,
    libc::EBUSY,
    libc::ENOSYS,
];
pub const OPEN_ERRNOS: [i32; 18] = [
    libc::EACCES,
    libc::EMFILE,
    libc::ENFILE,
    libc::EROFS,
    libc::ENOSPC,
    libc::EIO,
    libc::ENOENT,
    libc::EINVAL,
    libc::EISDIR,
    libc::ENOTDIR,
    libc::ELOOP,
    libc::ENAMETOOLONG,
    libc::EPERM,
    libc::ETXTBSY,
    libc::ENODEV,
    libc::EOVERFLOW,
    libc::EBUSY,
    libc::ENOMEM,
];

// ---- properties ----
pub trait Prop {
    const ID: &'static str;
    type Case: Serialize + DeserializeOwned + Clone;
    fn gen(r: &mut Rng, t: Tier) -> Self::Case;
    fn run(c: &Self::Case, cx: &mut Ctx) -> Res;
    fn meta() -> Meta;
}

pub struct Meta {
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub secs: (u64, u64),
    /// basic-block edges one run may take
    pub budget: u64,
    pub workers: usize,
    pub assumptions: Vec<&'static str>,
}

pub struct Entry {
    pub id: &'static str,
    pub gen: fn(u64, Tier) -> Value,
    pub run: fn(&Value, &mut Ctx) -> Option<Res>,
    pub gen_run: fn(u64, Tier, &mut Ctx) -> Res,
    pub meta: fn() -> Meta,
}

fn gen_of<P: Prop>(seed: u64, t: Tier) -> Value {
    serde_json::to_value(P::gen(&mut Rng::new(seed), t)).unwrap()
}
fn run_of<P: Prop>(v: &Value, cx: &mut Ctx) -> Option<Res> {
    let c: P::Case = serde_json::from_value(v.clone()).ok()?;
    Some(run_one::<P>(&c, cx))
}
fn gen_run_of<P: Prop>(seed: u64, t: Tier, cx: &mut Ctx) -> Res {
    let c = P::gen(&mut Rng::new(seed), t);
    run_one::<P>(&c, cx)
}
fn run_one<P: Prop>(c: &P::Case, cx: &mut Ctx) -> Res {
    cx.fp = Fnv::default();
    cx.nontrivial = false;
    let s0 = sched::steps();
    sched::set_budget(P::meta().budget);
    let r = match catch_unwind(AssertUnwindSafe(|| P::run(c, cx))) {
        Ok(r) => r,
        Err(_) => fail("panic", "panic:run", format!("panicked: {}", last_panic())),
    };
    sched::clear_budget();
    let _ = interpose::install(None);
    alloc::native_disarm();
    alloc::HUGE_MODE.store(0, std::sync::atomic::Ordering::Relaxed);
    cx.steps += sched::steps().wrapping_sub(s0);
    if cx.nontrivial {
        let f = cx.fp.0;
        if cx.fps.len() < 4_000_000 {
            cx.fps.insert(f);
        }
    }
    r
}

pub fn entry<P: Prop>() -> Entry {
    Entry { id: P::ID, gen: gen_of::<P>, run: run_of::<P>, gen_run: gen_run_of::<P>, meta: P::meta }
}

pub const WATCHDOG: u64 = 200;

// ---- worker ----
#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    syscalls: u64,
    fired: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    edges: Vec<u32>,
    edges_total: u64,
    known: BTreeMap<String, u64>,
    violation: Option<(u64, Violation)>,
    xor: u64,
    slowest_ms: u64,
    slowest: u64,
}

pub struct Args {
    pub seed: u64,
    pub tier: Tier,
    pub secs: u64,
    pub w: u64,
    pub of: u64,
    pub dir: String,
    pub start: u64,
    pub limit: u64,
    pub gen: u64,
}

struct Progress(*mut u64);
impl Progress {
    fn open(path: &str) -> Progress {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Progress(p as *mut u64)
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.0.add(i), v) }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(i)) }
    }
}

pub fn run_seed(seed: u64, id: &str, k: u64) -> u64 {
    mix2(mix2(seed, Fnv::of(id.as_bytes())), k)
}

pub fn worker(e: &Entry, a: &Args, known: &[Known]) -> i32 {
    let p = Progress::open(&format!("{}/progress.{}", a.dir, a.w));
    let mut cx = Ctx { scratch: a.dir.clone(), tier_thorough: a.tier == Tier::Thorough, ..Default::default() };
    let mut out = WorkerOut::default();
    let t0 = Instant::now();
    let mut k = a.start + a.w;
    while t0.elapsed() < Duration::from_secs(a.secs) && out.runs < a.limit {
        p.set(0, k + 1);
        p.set(1, out.runs);
        let seed = run_seed(a.seed, e.id, k);
        cx.seed = seed;
        let tr = Instant::now();
        let r = (e.gen_run)(seed, a.tier, &mut cx);
        let ms = tr.elapsed().as_millis() as u64;
        if ms > out.slowest_ms {
            out.slowest_ms = ms;
            out.slowest = k;
        }
        out.runs += 1;
        if cx.nontrivial {
            out.nontrivial += 1;
        }
        out.xor ^= mix2(k, cx.fp.0);
        if let Err(v) = r {
            if known.iter().any(|n| n.property == e.id && n.key == v.key) {
                *out.known.entry(v.key.clone()).or_insert(0) += 1;
            } else {
                out.violation = Some((k, v));
                break;
            }
        }
        k += a.of;
    }
    p.set(0, 0);
    out.steps = cx.steps;
    out.syscalls = cx.syscalls;
    out.fired = cx.fired.clone();
    out.counters = cx.counters.clone();
    out.edges = sched::edge_list();
    out.edges_total = sched::edges_seen().1;
    std::fs::write(format!("{}/out.{}.{}", a.dir, a.w, a.gen), serde_json::to_vec(&out).unwrap()).unwrap();
    let mut fp = Vec::with_capacity(cx.fps.len() * 8);
    for f in &cx.fps {
        fp.extend_from_slice(&f.to_le_bytes());
    }
    std::fs::write(format!("{}/fps.{}.{}", a.dir, a.w, a.gen), fp).unwrap();
    0
}

// ---- known findings ----
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
    pub case: String,
}

pub fn known(root: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default().lines() {
        let l = l.trim();
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut k = Known { property: String::new(), key: String::new(), what: String::new(), case: String::new() };
            let mut words = vec![];
            for w in rest.split(' ') {
                if let Some(x) = w.strip_prefix("property=") {
                    k.property = x.into();
                } else if let Some(x) = w.strip_prefix("key=") {
                    k.key = x.into();
                } else if let Some(x) = w.strip_prefix("case=") {
                    k.case = x.into();
                } else {
                    words.push(w);
                }
            }
            k.what = words.join(" ");
            v.push(k);
        }
    }
    v
}

// ---- trying one case in a child ----
/// Runs cases in a child process, so that aborts and hangs are contained.
struct Tryer {
    id: &'static str,
    child: Option<(std::process::Child, BufReader<std::process::ChildStdout>)>,
    dir: String,
}
impl Tryer {
    fn new(id: &'static str, dir: &str) -> Tryer {
        Tryer { id, child: None, dir: dir.into() }
    }
    /// None: not a valid case.
    fn run(&mut self, c: &Value) -> Option<Res> {
        use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
        use std::sync::Arc;
        if self.child.is_none() {
            let mut ch = Command::new(std::env::current_exe().unwrap())
                .args(["trybatch", self.id, "--dir", &self.dir])
                .env("RAYON_NUM_THREADS", "1")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .ok()?;
            let o = BufReader::new(ch.stdout.take().unwrap());
            self.child = Some((ch, o));
        }
        let (ch, o) = self.child.as_mut().unwrap();
        let line = serde_json::to_string(c).unwrap();
        let _ = writeln!(ch.stdin.as_mut().unwrap(), "{}", line);
        let _ = ch.stdin.as_mut().unwrap().flush();
        let pid = ch.id() as i32;
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let h = std::thread::spawn(move || {
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(WATCHDOG) {
                if d2.load(Relaxed) {
                    return false;
                }
                std::thread::park_timeout(Duration::from_millis(50));
            }
            unsafe { libc::kill(pid, libc::SIGKILL) };
            true
        });
        let mut s = String::new();
        let n = o.read_line(&mut s).unwrap_or(0);
        done.store(true, Relaxed);
        h.thread().unpark();
        let killed = h.join().unwrap_or(false);
        if n == 0 {
            let (mut ch, _) = self.child.take().unwrap();
            let st = ch.wait().ok()?;
            if st.code() == Some(sched::EXIT_SKIP) {
                return Some(Ok(()));
            }
            return Some(Err(death(&st, killed)));
        }
        let a: Vec<Option<Violation>> = serde_json::from_str(&s).ok()?;
        match a.into_iter().next() {
            None => None,
            Some(None) => Some(Ok(())),
            Some(Some(v)) => Some(Err(v)),
        }
    }
}
impl Drop for Tryer {
    fn drop(&mut self) {
        if let Some((mut c, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn death(st: &std::process::ExitStatus, killed: bool) -> Violation {
    use std::os::unix::process::ExitStatusExt;
    let (class, detail) = if killed {
        ("hang", "no answer within the wall-clock watchdog".to_string())
    } else if st.code() == Some(sched::EXIT_STEPS) {
        ("hang", "the step budget of the run was used up".to_string())
    } else if st.code() == Some(sched::EXIT_DEADLOCK) {
        ("deadlock", "all threads wait for each other".to_string())
    } else if st.code() == Some(sched::EXIT_HUGE) {
        ("huge-allocation", "memory was allocated for a picture that exceeds the supported maximum".to_string())
    } else if let Some(s) = st.signal() {
        ("crash", format!("the process died from signal {}", s))
    } else {
        ("crash", format!("the process ended with status {:?}", st.code()))
    };
    Violation { class: class.into(), key: class.into(), detail }
}

pub fn trybatch(e: &Entry, dir: &str) -> i32 {
    let stdin = std::io::stdin();
    let mut cx = Ctx { scratch: dir.into(), ..Default::default() };
    for l in stdin.lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        let v: Value = match serde_json::from_str(&l) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let r = (e.run)(&v, &mut cx);
        let a: Vec<Option<Violation>> = match r {
            None => vec![],
            Some(Ok(())) => vec![None],
            Some(Err(v)) => vec![Some(v)],
        };
        let s = serde_json::to_string(&a).unwrap();
        println!("{}", s);
        let _ = std::io::stdout().flush();
    }
    0
}

/// Structural minimisation of a JSON case.
fn candidates(v: &Value) -> Vec<Value> {
    let mut paths: Vec<Vec<Value>> = vec![];
    fn walk(v: &Value, p: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
        out.push(p.clone());
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    p.push(json!(i));
                    walk(x, p, out);
                    p.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o.iter() {
                    p.push(json!(k));
                    walk(x, p, out);
                    p.pop();
                }
            }
            _ => {}
        }
    }
    walk(v, &mut vec![], &mut paths);
    fn get<'a>(v: &'a mut Value, p: &[Value]) -> &'a mut Value {
        let mut c = v;
        for k in p {
            c = match k {
                Value::String(s) => c.get_mut(s.as_str()).unwrap(),
                Value::Number(n) => c.get_mut(n.as_u64().unwrap() as usize).unwrap(),
                _ => unreachable!(),
            };
        }
        c
    }
    let mut out = vec![];
    for p in &paths {
        let mut base = v.clone();
        let cur = get(&mut base, p).clone();
        let mut put = |x: Value| {
            let mut n = v.clone();
            *get(&mut n, p) = x;
            out.push(n);
        };
        match &cur {
            Value::Array(a) if !a.is_empty() => {
                let n = a.len();
                if n > 3 {
                    put(Value::Array(a[..n / 2].to_vec()));
                    put(Value::Array(a[n / 2..].to_vec()));
                }
                for i in 0..n.min(12) {
                    let mut b = a.clone();
                    b.remove(n - 1 - i);
                    put(Value::Array(b));
                }
            }
            Value::Object(o) if !p.is_empty() => {
                put(Value::Null);
                let _ = o;
            }
            Value::Number(n) => {
                if let Some(u) = n.as_u64() {
                    for c in [0, 1, u / 2, u.saturating_sub(1)] {
                        if c < u {
                            put(json!(c));
                        }
                    }
                } else if let Some(f) = n.as_f64() {
                    if f != 0.0 {
                        put(json!(0.0));
                    }
                }
            }
            Value::Bool(true) => put(json!(false)),
            _ => {}
        }
    }
    out
}

fn size(v: &Value) -> u64 {
    match v {
        Value::Null => 1,
        Value::Bool(b) => 1 + *b as u64,
        Value::Number(n) => 2 + n.as_u64().map(|u| 64 - u.leading_zeros() as u64).unwrap_or(4) * 2 + n.as_u64().unwrap_or(0).min(64),
        Value::String(s) => 2 + s.len() as u64,
        Value::Array(a) => 4 + a.iter().map(|x| 4 + size(x)).sum::<u64>(),
        Value::Object(o) => 4 + o.values().map(|x| 2 + size(x)).sum::<u64>(),
    }
}

fn minimise(t: &mut Tryer, case: &Value, v: &Violation, secs: u64) -> (Value, u64) {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut tries = 0;
    'outer: loop {
        let mut cs = candidates(&best);
        let b = size(&best);
        cs.retain(|c| size(c) < b);
        cs.sort_by_key(size);
        for c in cs {
            if t0.elapsed() > Duration::from_secs(secs) || tries > 4000 {
                break 'outer;
            }
            tries += 1;
            if let Some(Err(n)) = t.run(&c) {
                if n.class == v.class && n.key == v.key {
                    best = c;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (best, tries)
}


fn spawn_worker(e: &Entry, a: &Args, w: u64, secs: u64, start: u64, gen: u64) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            e.id,
            "--seed",
            &a.seed.to_string(),
            "--tier",
            if a.tier == Tier::Quick { "quick" } else { "thorough" },
            "--secs",
            &secs.to_string(),
            "--w",
            &w.to_string(),
            "--of",
            &a.of.to_string(),
            "--dir",
            &a.dir,
            "--start",
            &start.to_string(),
            "--gen",
            &gen.to_string(),
            "--limit",
            &a.limit.to_string(),
        ])
        .env("RAYON_NUM_THREADS", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::from(std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/err.{}", a.dir, w)).unwrap()))
        .spawn()
        .expect("worker")
}

pub struct Found {
    k: u64,
    v: Violation,
}

/// Returns the process exit status.
pub fn check(e: &Entry, a: &Args, root: &str) -> i32 {
    let t0 = Instant::now();
    let meta = (e.meta)();
    let known = known(root);
    std::fs::create_dir_all(&a.dir).unwrap();
    let mut kids = vec![];
    for w in 0..a.of {
        kids.push((w, spawn_worker(e, a, w, a.secs, a.start, 0), Instant::now(), 0u64));
    }
    let prog: Vec<Progress> = (0..a.of).map(|w| Progress::open(&format!("{}/progress.{}", a.dir, w))).collect();
    let mut found: Vec<Found> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut lost_runs = 0;
    let mut gens = 0;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < kids.len() {
            let w = kids[i].0 as usize;
            let cur = prog[w].get(0);
            if cur != kids[i].3 {
                kids[i].3 = cur;
                kids[i].2 = Instant::now();
            }
            let stuck = kids[i].2.elapsed() > Duration::from_secs(WATCHDOG);
            if stuck {
                let _ = kids[i].1.kill();
            }
            match kids[i].1.try_wait() {
                Ok(Some(st)) => {
                    let left = a.secs.saturating_sub(t0.elapsed().as_secs());
                    if st.code() == Some(sched::EXIT_SKIP) && cur > 0 {
                        // this run is left out; a new worker goes on with the next one
                        gens += 1;
                        lost_runs += prog[w].get(1);
                        prog[w].set(0, 0);
                        kids[i] = (w as u64, spawn_worker(e, a, w as u64, left, cur - 1 - w as u64 + a.of, gens), Instant::now(), 0);
                        continue;
                    }
                    kids.remove(i);
                    if !st.success() || stuck {
                        if cur == 0 {
                            broken.push(format!("worker {} ended with {:?} outside a run", w, st));
                        } else {
                            lost_runs += prog[w].get(1);
                            found.push(Found { k: cur - 1, v: death(&st, stuck) });
                        }
                    }
                }
                _ => i += 1,
            }
        }
        if !found.is_empty() {
            // one violation decides the check; the rest of the time goes to its replay file
            for k in kids.iter_mut() {
                let _ = k.1.kill();
                let _ = k.1.wait();
            }
            break;
        }
    }
    let search = t0.elapsed().as_secs_f64();
    // merge
    let mut m = WorkerOut::default();
    let mut edges: HashSet<u32> = HashSet::new();
    let mut fps: HashSet<u64> = HashSet::new();
    for (w, gen) in (0..a.of).flat_map(|w| (0..=gens).map(move |g| (w, g))) {
        if let Ok(b) = std::fs::read(format!("{}/out.{}.{}", a.dir, w, gen)) {
            let o: WorkerOut = serde_json::from_slice(&b).unwrap_or_default();
            m.runs += o.runs;
            m.nontrivial += o.nontrivial;
            m.steps += o.steps;
            m.syscalls += o.syscalls;
            m.edges_total = m.edges_total.max(o.edges_total);
            m.xor ^= o.xor;
            if o.slowest_ms > m.slowest_ms {
                m.slowest_ms = o.slowest_ms;
                m.slowest = o.slowest;
            }
            edges.extend(o.edges);
            for (k, v) in o.fired {
                *m.fired.entry(k).or_insert(0) += v;
            }
            for (k, v) in o.counters {
                *m.counters.entry(k).or_insert(0) += v;
            }
            for (k, v) in o.known {
                *m.known.entry(k).or_insert(0) += v;
            }
            if let Some((k, v)) = o.violation {
                found.push(Found { k, v });
            }
        }
        if let Ok(b) = std::fs::read(format!("{}/fps.{}.{}", a.dir, w, gen)) {
            for c in b.chunks_exact(8) {
                fps.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    m.runs += lost_runs;
    // known findings are probed on every run
    for n in known.iter().filter(|n| n.property == e.id) {
        let mut hits = m.known.get(&n.key).copied().unwrap_or(0);
        if !n.case.is_empty() {
            if let Ok(b) = std::fs::read(format!("{}/{}", root, n.case)) {
                if let Ok(v) = serde_json::from_slice::<Value>(&b) {
                    let mut t = Tryer::new(e.id, &a.dir);
                    if let Some(Err(x)) = t.run(v.get("case").unwrap_or(&v)) {
                        if x.key == n.key {
                            hits += 1;
                        }
                    }
                }
            }
        }
        if hits > 0 {
            println!("KNOWN-FINDING: property={} {}", e.id, n.what);
        }
    }
    found.sort_by_key(|f| f.k);
    let mut status = 0;
    if let Some(f) = found.first() {
        status = report(e, a, f, root);
    }
    let mut samples = vec![];
    for k in a.start..a.start + 3 {
        let s = run_seed(a.seed, e.id, k);
        samples.push(json!({"run": k, "seed": s, "case": (e.gen)(s, a.tier)}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = |n: u64| (n as f64 * 3600.0 / search.max(0.001)) as u64;
    let ev = json!({
        "property": e.id,
        "tier": if a.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": m.runs,
            "distinct_nontrivial": fps.len(),
            "rule": meta.rule,
            "samples": samples,
            "nontrivial_runs": m.nontrivial,
            "runs_per_hour": per_hour(m.runs),
            "seeds_per_hour": per_hour(m.runs),
            "run_numbers": format!("{}..{}", a.start, a.start + m.runs),
            "simulated_time": {"basic_block_steps": m.steps, "simulated_system_calls": m.syscalls,
                "unit": "the simulator's clock counts executed basic-block edges of the code under test and simulated calls; there is no timer in this code base"},
            "faults_injected": m.fired,
            "counters": m.counters,
            "distinct_measure": "64-bit hash over every simulated call with its arguments and result, the schedule, the injected faults and the outcome of the run",
            "edges_reached": edges.len(),
            "edges_instrumented": m.edges_total,
            "real_components": meta.real,
            "stubbed_components": meta.stub,
            "determinism_checksum": format!("{:016x}", m.xor),
            "known_finding_hits": m.known,
            "slowest_run": {"run": m.slowest, "ms": m.slowest_ms},
            "runs_left_out_for_memory": gens,
        },
        "assumptions": meta.assumptions,
        "wall_s": wall,
        "violations": if status == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, e.id), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    for b in &broken {
        eprintln!("check error: {}", b);
    }
    if status == 0 && !broken.is_empty() {
        status = 3;
    }
    if m.runs == 0 && status == 0 {
        eprintln!("check error: no run completed");
        status = 3;
    }
    println!(
        "{}: {} runs, {} distinct, {} steps, {} simulated calls, {} faults, {:.1} s",
        e.id,
        m.runs,
        fps.len(),
        m.steps,
        m.syscalls,
        m.fired.values().sum::<u64>(),
        wall
    );
    status
}

fn report(e: &Entry, a: &Args, f: &Found, root: &str) -> i32 {
    let seed = run_seed(a.seed, e.id, f.k);
    let case = (e.gen)(seed, a.tier);
    let mut t = Tryer::new(e.id, &a.dir);
    let first = t.run(&case);
    let (v, reproduced) = match &first {
        Some(Err(v)) => (v.clone(), v.class == f.v.class || f.v.class == "crash" || f.v.class == "hang" || f.v.class == "deadlock"),
        _ => (f.v.clone(), false),
    };
    let (min, tries) = if reproduced { minimise(&mut t, &case, &v, if a.tier == Tier::Quick { 25 } else { 120 }) } else { (case.clone(), 0) };
    // the replay is confirmed in fresh processes
    let mut exact = 0;
    let mut last = v.clone();
    for _ in 0..2 {
        let mut t = Tryer::new(e.id, &a.dir);
        if let Some(Err(n)) = t.run(&min) {
            if n.class == v.class {
                exact += 1;
                last = n;
            }
        }
    }
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, e.id, seed);
    let r = json!({
        "property": e.id,
        "violation": last,
        "verif_seed": a.seed,
        "run": f.k,
        "run_seed": seed,
        "case": min,
        "original_case": case,
        "minimisation_attempts": tries,
        "reproduced_exactly": exact == 2,
        "replay_with": format!("bash /verif/check.sh replay {}", path),
    });
    std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
    println!("{}: {} [{}] {}", e.id, last.class, last.key, last.detail);
    println!("VIOLATION property={} replay={}", e.id, path);
    1
}

pub fn replay(entries: &[Entry], path: &str, dir: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or("");
    let e = match entries.iter().find(|e| e.id == id) {
        Some(e) => e,
        None => return 3,
    };
    // trace in this process, if it survives; otherwise the child's death is the finding
    let mut t = Tryer::new(e.id, dir);
    match t.run(&v["case"]) {
        Some(Ok(())) => {
            println!("{}: not reproduced", id);
            0
        }
        Some(Err(x)) => {
            if x.class != "crash" && x.class != "hang" && x.class != "deadlock" {
                let mut cx = Ctx { verbose: true, scratch: dir.into(), ..Default::default() };
                let _ = (e.run)(&v["case"], &mut cx);
                for (i, n) in cx.notes.iter().enumerate() {
                    if cx.notes.len() > 120 && i >= 60 && i < cx.notes.len() - 60 {
                        if i == 60 {
                            println!("  ... {} more", cx.notes.len() - 120);
                        }
                        continue;
                    }
                    println!("  {}", n);
                }
            }
            println!("{}: {} [{}] {}", id, x.class, x.key, x.detail);
            1
        }
        None => 3,
    }
}
