//! Saving to a caller-supplied writer: complete or reported as failed.
use super::*;
use serde::{Deserialize, Serialize};
use simcore::rng::mix2;
use std::io::{self, ErrorKind, Write};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum WF {
    Short(u32),
    Eintr,
    Zero { sticky: bool },
    Err { kind: u8, sticky: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WFault {
    pos: Pos,
    f: WF,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    fmt: Fmt,
    chunk: Option<simcore::world::Chunk>,
    eintr: Option<simcore::world::EintrRate>,
    faults: Vec<WFault>,
}

const KINDS: [ErrorKind; 20] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::StorageFull,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::WouldBlock,
    ErrorKind::OutOfMemory,
    ErrorKind::NotFound,
    ErrorKind::WriteZero,
    ErrorKind::AlreadyExists,
    ErrorKind::AddrInUse,
    ErrorKind::NotConnected,
    ErrorKind::Unsupported,
    ErrorKind::ConnectionAborted,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
];

/// The same kind of error as a writer makes it itself, as the system gives it, and without a text.
fn error(k: ErrorKind, n: u64) -> io::Error {
    let os = match k {
        ErrorKind::BrokenPipe => libc::EPIPE,
        ErrorKind::StorageFull => libc::ENOSPC,
        ErrorKind::PermissionDenied => libc::EACCES,
        ErrorKind::TimedOut => libc::ETIMEDOUT,
        ErrorKind::ConnectionReset => libc::ECONNRESET,
        ErrorKind::InvalidInput => libc::EINVAL,
        ErrorKind::WouldBlock => libc::EAGAIN,
        ErrorKind::OutOfMemory => libc::ENOMEM,
        ErrorKind::FileTooLarge => libc::EFBIG,
        ErrorKind::ResourceBusy => libc::EBUSY,
        _ => 0,
    };
    match n % 3 {
        0 if os != 0 => io::Error::from_raw_os_error(os),
        1 => io::Error::from(k),
        _ => io::Error::new(k, "injected"),
    }
}

/// The simulated sink: every call's outcome is decided by the plan.
pub struct SimWriter {
    pub out: Vec<u8>,
    pub n: u64,
    chunk: Option<simcore::world::Chunk>,
    eintr: Option<simcore::world::EintrRate>,
    faults: Vec<(u64, WF)>,
    sticky: Option<WF>,
    pub hard: Option<ErrorKind>,
    pub zero: bool,
    pub fired: Vec<&'static str>,
    pub log: Vec<String>,
    pub fp: simcore::rng::Fnv,
}

impl SimWriter {
    fn new(c: &Case, faults: Vec<(u64, WF)>) -> SimWriter {
        SimWriter {
            out: vec![],
            n: 0,
            chunk: c.chunk,
            eintr: c.eintr,
            faults,
            sticky: None,
            hard: None,
            zero: false,
            fired: vec![],
            log: vec![],
            fp: Default::default(),
        }
    }
    fn call(&mut self, len: usize, flush: bool) -> io::Result<usize> {
        let n = self.n;
        self.n += 1;
        let f = self.sticky.or_else(|| self.faults.iter().find(|f| f.0 == n).map(|f| f.1));
        match f {
            Some(WF::Err { kind, sticky }) => {
                let k = KINDS[kind as usize % KINDS.len()];
                if sticky {
                    self.sticky = f;
                }
                if self.hard.is_none() {
                    self.hard = Some(k);
                }
                self.fired.push(if flush { "flush_error" } else { "write_error" });
                return Err(error(k, n));
            }
            Some(WF::Zero { sticky }) if !flush && len > 0 => {
                if sticky {
                    self.sticky = f;
                }
                self.zero = true;
                self.fired.push("write_zero");
                return Ok(0);
            }
            Some(WF::Eintr) => {
                self.fired.push("write_eintr");
                if flush {
                    return Ok(0);
                }
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            Some(WF::Short(k)) if !flush && len > 1 => {
                let k = (k.max(1) as usize).min(len);
                if k < len {
                    self.fired.push("write_short");
                }
                return Ok(k);
            }
            _ => {}
        }
        if let Some(r) = self.eintr {
            if !flush && n % 2 == 1 && mix2(r.seed, n) % (r.den.max(2) as u64) == 0 {
                self.fired.push("write_eintr");
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
        }
        let mut k = len;
        if let Some(c) = self.chunk {
            if len > 1 && mix2(c.seed ^ 0x55, n) % (c.den.max(1) as u64) == 0 {
                k = k.min(1 + (mix2(c.seed, n) % c.max.max(1) as u64) as usize);
                if k < len {
                    self.fired.push("write_short");
                }
            }
        }
        Ok(k)
    }
}
impl Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let r = self.call(b.len(), false);
        self.fp.add(b.len() as u64);
        match &r {
            Ok(k) => {
                self.fp.add(*k as u64);
                self.out.extend_from_slice(&b[..*k]);
            }
            Err(e) => self.fp.add(1000 + e.kind() as u64),
        }
        if self.log.len() < 200 {
            self.log.push(format!("write {} {} bytes -> {:?}", self.n - 1, b.len(), r));
        }
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let r = self.call(0, true).map(|_| ());
        self.fp.add(if r.is_ok() { 1 } else { 2 });
        self.log.push(format!("flush {} -> {:?}", self.n - 1, r));
        r
    }
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C01";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let fmt = Fmt::gen(r);
        let mut img = ImgSpec::gen(r, Size::Mixed);
        if fmt.kind() == 4 {
            img = img.small_for_ico();
        }
        let b = PlanSpec::benign(r);
        let mut faults = vec![];
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
            let f = match r.below(10) {
                0 => WF::Short(1 + r.below(64) as u32),
                1 => WF::Eintr,
                2 => WF::Zero { sticky: r.chance(1, 2) },
                _ => WF::Err { kind: r.below(KINDS.len() as u64) as u8, sticky: r.chance(1, 2) },
            };
            faults.push(WFault { pos: Pos::gen(r), f });
        }
        let plain = r.chance(1, 3);
        Case { img, fmt, chunk: if plain { None } else { b.chunk }, eintr: if plain { None } else { b.eintr }, faults }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let img = c.img.build();
        let want = reference(&img, &c.fmt)?;
        let mut faults = vec![];
        if !c.faults.is_empty() {
            let mut dry = SimWriter::new(c, vec![]);
            let _ = calm("saving to a writer", || img.save_to_writer(&mut dry, c.fmt.enc()))?;
            faults = c.faults.iter().map(|f| (f.pos.at(dry.n), f.f)).collect();
        }
        let mut w = SimWriter::new(c, faults);
        let got = calm("saving to a writer", || img.save_to_writer(&mut w, c.fmt.enc()))?;
        for f in &w.fired {
            cx.fault(f);
        }
        cx.syscalls += w.n;
        cx.fp.add(w.fp.0);
        cx.fp.add(c.fmt.kind() as u64);
        cx.fp.add(got.is_ok() as u64);
        for l in &w.log {
            cx.note(l.clone());
        }
        cx.count(c.fmt.name());
        let name = c.fmt.name();
        match (&want, &got) {
            (Ok(want), Ok(())) => {
                if let Some(k) = w.hard {
                    return fail(
                        "success-after-error",
                        name,
                        format!("{}: saving reported success although the writer failed with {:?}", name, k),
                    );
                }
                if *want != w.out {
                    let at = want.iter().zip(&w.out).position(|(a, b)| a != b).unwrap_or(want.len().min(w.out.len()));
                    return fail(
                        "incomplete-success",
                        name,
                        format!(
                            "{}: saving reported success but the writer accepted {} bytes, differing at {} from the {} bytes of the encoding",
                            name,
                            w.out.len(),
                            at,
                            want.len()
                        ),
                    );
                }
            }
            (Ok(_), Err(e)) => match (w.hard, e) {
                (Some(k), EncodingError::IoError(i)) if i.kind() == k || w.zero => {}
                (Some(k), e) => {
                    if !w.zero {
                        return fail(
                            "wrong-error",
                            name,
                            format!("{}: the writer failed with {:?} but saving reported {}", name, k, enc_err(e)),
                        );
                    }
                }
                (None, e) => {
                    if !w.zero {
                        return fail(
                            "spurious-error",
                            name,
                            format!("{}: no hard error occurred but saving reported {}", name, enc_err(e)),
                        );
                    }
                }
            },
            (Err(_), Err(_)) => {}
            (Err(e), Ok(())) => {
                return fail("spurious-success", name, format!("{}: memory save fails ({}) but writer save succeeds", name, enc_err(e)));
            }
        }
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one generated picture x one format with random options x one seeded writer behaviour (short writes, interruptions, zero-length acceptance, hard errors of 20 kinds at any write or flush call, transient or persistent); non-trivial when at least one writer fault fired",
            real: "d10, d10-codecs and all encoders (png, gif, image, jpeg-encoder, libwebp)",
            stub: "the writer (simulated sink)",
            secs: (40, 780),
            budget: 4_000_000_000,
            workers: 8,
            assumptions: vec!["EINTR is never returned twice in a row, so retrying makes progress"],
        }
    }
}
