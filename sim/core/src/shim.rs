//! Preload mode: the simulated machine is loaded from the file named by D10SIM_IN when the
//! process starts, and its final state is written to D10SIM_OUT when the process ends or "dies".
use crate::interpose::{install, with};
use crate::raw;
use crate::rng::Rng;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct ShimIn {
    pub files: Vec<(String, String, u32)>,
    pub plan: Plan,
    pub capture_std: bool,
    pub std_faults: bool,
    pub entropy_seed: Option<u64>,
    pub entropy_nosys: bool,
}

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct ShimOut {
    pub files: Vec<(String, String)>,
    pub stdout: String,
    pub stderr: String,
    pub crashed: bool,
    pub events: u64,
    pub fp: u64,
    pub fired: BTreeMap<String, u64>,
    pub hard: Vec<HardFault>,
    pub log: Vec<Event>,
    pub open_fds: u64,
    pub std_marks: Vec<(u64, u64)>,
}

pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = Vec::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize]);
        s.push(H[(x & 15) as usize]);
    }
    String::from_utf8(s).unwrap()
}

pub fn unhex(s: &str) -> Vec<u8> {
    let v = |c: u8| -> u8 {
        match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            _ => 0,
        }
    };
    s.as_bytes().chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect()
}

static OUT: AtomicBool = AtomicBool::new(false);
static mut OUT_PATH: Option<CString> = None;

pub fn world_from(i: &ShimIn) -> World {
    let mut w = World::new();
    for (p, d, m) in &i.files {
        w.put(p, unhex(d));
        let ino = w.names[p];
        w.inodes.get_mut(&ino).unwrap().mode = *m;
    }
    w.plan = i.plan.clone();
    w.capture_std = i.capture_std;
    w.std_faults = i.std_faults;
    w.entropy = i.entropy_seed.map(|s| Entropy { rng: Rng::new(s), nosys: i.entropy_nosys, calls: 0, pat: 0 });
    w
}

fn out_of(w: &World) -> ShimOut {
    ShimOut {
        files: w.snapshot().iter().map(|(k, v)| (k.clone(), hex(v))).collect(),
        stdout: hex(&w.std_out),
        stderr: hex(&w.std_err),
        crashed: w.crashed,
        events: w.n,
        fp: w.fp.0,
        fired: w.fired.clone(),
        hard: w.hard.clone(),
        log: w.log.clone(),
        open_fds: w.fds.len() as u64,
        std_marks: w.std_marks.clone(),
    }
}

/// Writes the final state once.
pub fn finish() {
    if !OUT.swap(false, Ordering::AcqRel) {
        return;
    }
    let s = with(|w| serde_json::to_vec(&out_of(w)).unwrap_or_default());
    unsafe {
        if let (Some(s), Some(p)) = (s, (*std::ptr::addr_of!(OUT_PATH)).as_ref()) {
            raw::write_file(p, &s);
        }
    }
}

extern "C" fn at_exit() {
    finish();
}

fn env(name: &std::ffi::CStr) -> Option<CString> {
    unsafe {
        let p = libc::getenv(name.as_ptr());
        if p.is_null() {
            None
        } else {
            Some(std::ffi::CStr::from_ptr(p).to_owned())
        }
    }
}

extern "C" fn init() {
    let (i, o) = match (env(c"D10SIM_IN"), env(c"D10SIM_OUT")) {
        (Some(i), Some(o)) => (i, o),
        _ => return,
    };
    let data = match raw::read_file(&i) {
        Some(d) => d,
        None => return,
    };
    let spec: ShimIn = match serde_json::from_slice(&data) {
        Ok(s) => s,
        Err(_) => return,
    };
    let mut w = world_from(&spec);
    w.crash_exits = true;
    unsafe {
        // a program that never ends is killed
        libc::alarm(100);
    }
    install(Some(Box::new(w)));
    unsafe {
        OUT_PATH = Some(o);
    }
    OUT.store(true, Ordering::Release);
    unsafe {
        libc::atexit(at_exit);
    }
}

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;

/// C ABI for use from Python (ctypes): arm the next operation, read the state back.
#[no_mangle]
pub unsafe extern "C" fn d10sim_load(spec: *const libc::c_char) -> i32 {
    let s = std::ffi::CStr::from_ptr(spec).to_bytes();
    match serde_json::from_slice::<ShimIn>(s) {
        Ok(spec) => {
            let mut w = world_from(&spec);
            w.crash_exits = false;
            install(Some(Box::new(w)));
            0
        }
        Err(_) => -1,
    }
}
/// Returns a malloc'd JSON string of the current state.
#[no_mangle]
pub unsafe extern "C" fn d10sim_state() -> *mut libc::c_char {
    let s = with(|w| serde_json::to_vec(&out_of(w)).unwrap_or_default()).unwrap_or_default();
    let p = libc::malloc(s.len() + 1) as *mut u8;
    std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
    *p.add(s.len()) = 0;
    p as *mut libc::c_char
}
#[no_mangle]
pub unsafe extern "C" fn d10sim_free(p: *mut libc::c_char) {
    libc::free(p as *mut c_void_t);
}
#[allow(non_camel_case_types)]
type c_void_t = libc::c_void;
