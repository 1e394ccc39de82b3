//! The real extension module inside CPython, driven by generated programs.
use crate::runner::{fail, Violation};
use serde_json::Value;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Host {
    child: Child,
    i: ChildStdin,
    o: ChildStdout,
}
impl Drop for Host {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static HOST: RefCell<Option<Host>> = const { RefCell::new(None) };
}

fn start() -> Host {
    let root = std::env::var("D10SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let target = std::env::var("D10SIM_TARGET").unwrap_or_else(|_| format!("{}/target/sim", root));
    let shim = format!("{}/release/deps/libsimcore.so", target);
    let c = Command::new("/opt/vp/venv/bin/python")
        .args(["-X", "faulthandler=0", "-S", "-E", "-s", "-B", "-u"])
        .arg(format!("{}/sim/py/host.py", root))
        .arg(format!("{}/target/repo/release/libd10.so", root))
        .arg(&shim)
        .env("LD_PRELOAD", &shim)
        .env("RAYON_NUM_THREADS", "1")
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(if std::env::var_os("D10SIM_PYERR").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn();
    match c {
        Ok(mut c) => {
            let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
            let mut h = Host { child: c, i, o };
            let ping = br#"{"what":"ping"}"#;
            let mut m = (ping.len() as u64).to_le_bytes().to_vec();
            m.extend(ping);
            let sent = h.i.write_all(&m).is_ok();
            let l = if sent { read_n(&mut h, 8, 60_000).ok() } else { None };
            if l.and_then(|l| read_n(&mut h, u64::from_le_bytes(l.try_into().unwrap()) as usize, 60_000).ok()).is_none() {
                eprintln!("check error: the extension module cannot be loaded into python");
                std::process::exit(3);
            }
            h
        }
        Err(e) => {
            eprintln!("check error: cannot run python: {}", e);
            std::process::exit(3);
        }
    }
}

fn read_n(h: &mut Host, n: usize, limit_ms: i32) -> Result<Vec<u8>, bool> {
    let mut v = vec![0u8; n];
    let mut at = 0;
    while at < n {
        let mut p = libc::pollfd { fd: h.o.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let k = unsafe { libc::poll(&mut p, 1, limit_ms) };
        if k == 0 {
            return Err(true);
        }
        if k < 0 {
            continue;
        }
        match h.o.read(&mut v[at..]) {
            Ok(0) | Err(_) => return Err(false),
            Ok(k) => at += k,
        }
    }
    Ok(v)
}

/// One request; a new interpreter is started when there is none or the last one died.
pub fn ask(q: &Value) -> Result<Value, Violation> {
    HOST.with(|h| {
        let mut h = h.borrow_mut();
        let host = h.get_or_insert_with(start);
        let b = serde_json::to_vec(q).unwrap();
        let mut m = (b.len() as u64).to_le_bytes().to_vec();
        m.extend(&b);
        let sent = host.i.write_all(&m).and_then(|_| host.i.flush());
        let r = match sent {
            Ok(()) => read_n(host, 8, 60_000).and_then(|l| read_n(host, u64::from_le_bytes(l.try_into().unwrap()) as usize, 60_000)),
            Err(_) => Err(false),
        };
        match r {
            Ok(b) => Ok(serde_json::from_slice(&b).unwrap_or(Value::Null)),
            Err(hang) => {
                let mut dead = h.take().unwrap();
                if hang {
                    return fail("hang", "python hang", "the Python interpreter gave no answer within a minute");
                }
                use std::os::unix::process::ExitStatusExt;
                let st = dead.child.wait();
                let st = st.map(|s| (s.code(), s.signal())).unwrap_or((None, None));
                fail("interpreter-died", "interpreter-died", format!("the Python interpreter ended: status {:?}, signal {:?}", st.0, st.1))
            }
        }
    })
}
