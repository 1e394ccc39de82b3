//! Seeded cooperative scheduler and step clock. Real threads, of which exactly one runs at any
//! time; it may be switched away from at every preemption point: each basic-block edge of the
//! instrumented crates, each allocation, each simulated system call, and each callback.
use simcore::interpose::{in_sim, SimGuard, WAIT_HOOK, YIELD_HOOK};
use simcore::raw::syscall6;
use simcore::rng::Fnv;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const MAX_T: usize = 8;

// ---- step clock and coverage (all instrumented code) ----
pub static mut STEPS: u64 = 0;
pub static mut STEP_LIMIT: u64 = u64::MAX;
pub static mut EDGES: [u8; 1 << 18] = [0; 1 << 18];
static mut NEXT_GUARD: u32 = 1;
static ACTIVE: AtomicBool = AtomicBool::new(false);

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;
/// the run would need more memory than the check has: it is left out
pub const EXIT_SKIP: i32 = 79;
/// memory for a picture that must be refused was requested
pub const EXIT_HUGE: i32 = 80;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = NEXT_GUARD;
        NEXT_GUARD += 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    STEPS = STEPS.wrapping_add(1);
    let i = (*g as usize) & ((1 << 18) - 1);
    EDGES[i] = 1;
    if STEPS > STEP_LIMIT {
        simcore::raw::exit_now(EXIT_STEPS);
    }
    if ACTIVE.load(Ordering::Relaxed) {
        point(0);
    }
}

pub fn steps() -> u64 {
    unsafe { STEPS }
}
/// Steps and edges of a child process.
pub fn add_steps(n: u64) {
    unsafe { STEPS = STEPS.wrapping_add(n) }
}
pub fn add_edges(l: &[u32]) {
    for i in l {
        unsafe { EDGES[*i as usize & ((1 << 18) - 1)] = 1 }
    }
}
pub fn set_budget(n: u64) {
    unsafe { STEP_LIMIT = STEPS.wrapping_add(n) }
}
pub fn clear_budget() {
    unsafe { STEP_LIMIT = u64::MAX }
}
pub fn edges_seen() -> (u64, u64) {
    unsafe {
        let total = NEXT_GUARD as u64 - 1;
        let e = &*std::ptr::addr_of!(EDGES);
        (e.iter().filter(|x| **x != 0).count() as u64, total)
    }
}
pub fn edge_list() -> Vec<u32> {
    unsafe {
        let e = &*std::ptr::addr_of!(EDGES);
        e.iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0 as u32).collect()
    }
}

// ---- threads ----
struct State {
    n: usize,
    done: [bool; MAX_T],
    current: usize,
    points: u64,
    /// per thread: (local point, target)
    switches: Vec<Vec<(u64, u32)>>,
    next: [usize; MAX_T],
    since: u64,
    marks: Vec<Vec<u64>>,
    trace: Fnv,
    nsw: u64,
    spins: u64,
    per: [u64; MAX_T],
}
static mut ST: Option<State> = None;
static RUN: [AtomicU32; MAX_T] = [const { AtomicU32::new(0) }; MAX_T];

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
}

fn futex_wait(a: &AtomicU32) {
    while a.load(Ordering::Acquire) == 0 {
        unsafe { syscall6(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0) };
    }
    a.store(0, Ordering::Release);
}
fn futex_wake(a: &AtomicU32) {
    a.store(1, Ordering::Release);
    unsafe { syscall6(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0) };
}

#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    unsafe { ST.as_mut().unwrap() }
}

fn hand_over(s: &mut State, to: usize) {
    let me = s.current;
    s.current = to;
    s.trace.add(s.points);
    s.trace.add(to as u64);
    s.nsw += 1;
    futex_wake(&RUN[to]);
    futex_wait(&RUN[me]);
}

fn pick_other(s: &State, want: usize) -> Option<usize> {
    for k in 0..s.n {
        let t = (want + k) % s.n;
        if t != s.current && !s.done[t] {
            return Some(t);
        }
    }
    None
}

/// A preemption point.
pub fn point(_kind: u32) {
    let t = TID.try_with(|c| c.get()).unwrap_or(-1);
    if t < 0 || !ACTIVE.load(Ordering::Relaxed) || in_sim() {
        return;
    }
    let _g = SimGuard::enter();
    let s = st();
    s.points += 1;
    s.per[t as usize] += 1;
    let me = t as usize;
    s.since += 1;
    let k = s.next[me];
    let due = k < s.switches[me].len() && s.switches[me][k].0 <= s.per[me];
    // nobody runs forever: a thread that spins on another one lets it continue
    if due || s.since > 20_000_000 {
        let want = if due { s.switches[me][k].1 as usize % s.n } else { (me + 1) % s.n };
        if due {
            s.next[me] += 1;
        }
        s.since = 0;
        s.spins = 0;
        if want != s.current && !s.done[want] {
            hand_over(s, want);
        } else if let Some(o) = pick_other(s, want) {
            hand_over(s, o);
        }
    }
}

/// A thread would block in the kernel: let another one run instead.
fn wait_hook() -> bool {
    let t = TID.try_with(|c| c.get()).unwrap_or(-1);
    if t < 0 || !ACTIVE.load(Ordering::Relaxed) || in_sim() {
        return false;
    }
    let _g = SimGuard::enter();
    let s = st();
    s.spins += 1;
    if s.spins > 100_000 {
        simcore::raw::exit_now(EXIT_DEADLOCK);
    }
    match pick_other(s, s.current + 1) {
        Some(o) => hand_over(s, o),
        None => simcore::raw::exit_now(EXIT_DEADLOCK),
    }
    true
}

/// Notes the local point number of the calling thread (start of an operation).
pub fn mark() {
    let t = TID.try_with(|c| c.get()).unwrap_or(-1);
    if t >= 0 && ACTIVE.load(Ordering::Relaxed) {
        let _g = SimGuard::enter();
        let s = st();
        let p = s.per[t as usize];
        s.marks[t as usize].push(p);
    }
}

/// Makes the calling thread the only member of a rayon pool, so that the parallel code of the
/// JPEG decoder runs on the caller itself.
pub fn own_pool() -> Option<rayon::ThreadPool> {
    let _g = SimGuard::enter();
    rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().ok()
}

pub struct Outcome {
    /// local point numbers at which each thread started its operations
    pub marks: Vec<Vec<u64>>,
    pub points: u64,
    pub switches: u64,
    pub trace: u64,
    pub per: Vec<u64>,
}

/// Runs the closures on one thread each under the given schedule: a list of (thread, its local
/// point number, thread to continue with).
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, list: &[(u32, u64, u32)]) -> Outcome {
    let n = bodies.len();
    assert!(n <= MAX_T && n > 0);
    let mut switches: Vec<Vec<(u64, u32)>> = vec![vec![]; n];
    for (t, p, to) in list {
        switches[*t as usize % n].push((*p, *to));
    }
    for s in switches.iter_mut() {
        s.sort();
    }
    let hooks: fn(u32) = point;
    let wait: fn() -> bool = wait_hook;
    unsafe {
        ST = Some(State { n, done: [false; MAX_T], current: 0, points: 0, switches, next: [0; MAX_T], since: 0, marks: vec![vec![]; n], trace: Fnv::default(), nsw: 0, spins: 0, per: [0; MAX_T] });
    }
    for r in RUN.iter() {
        r.store(0, Ordering::Release);
    }
    let mut hs = vec![];
    static READY: AtomicU32 = AtomicU32::new(0);
    READY.store(0, Ordering::Release);
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            let pool = own_pool();
            READY.fetch_add(1, Ordering::AcqRel);
            futex_wait(&RUN[i]);
            TID.with(|c| c.set(i as i32));
            b();
            TID.with(|c| c.set(-1));
            let _g = SimGuard::enter();
            drop(pool);
            let s = st();
            s.done[i] = true;
            if let Some(o) = pick_other(s, i + 1) {
                s.current = o;
                s.trace.add(s.points);
                s.trace.add(100 + o as u64);
                s.spins = 0;
                futex_wake(&RUN[o]);
            }
        }).expect("thread"));
    }
    while READY.load(Ordering::Acquire) < n as u32 {
        std::thread::yield_now();
    }
    YIELD_HOOK.store(hooks as usize, Ordering::Relaxed);
    WAIT_HOOK.store(wait as usize, Ordering::Relaxed);
    ACTIVE.store(true, Ordering::SeqCst);
    futex_wake(&RUN[0]);
    for h in hs {
        let _ = h.join();
    }
    ACTIVE.store(false, Ordering::SeqCst);
    YIELD_HOOK.store(0, Ordering::Relaxed);
    WAIT_HOOK.store(0, Ordering::Relaxed);
    let s = unsafe { (*std::ptr::addr_of_mut!(ST)).take().unwrap() };
    Outcome { marks: s.marks, points: s.points, switches: s.nsw, trace: s.trace.0, per: s.per[..n].to_vec() }
}
