//! No operation leaks descriptors or memory, also when it fails.
use super::c06::{apply, gen_dmg, Dmg};
use super::*;
use crate::alloc;
use serde::{Deserialize, Serialize};
use simcore::world::*;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    /// 0 save by extension, 1 save with format, 2 to memory, 3 to a writer, 4 open, 5 read memory,
    /// 6 through JPEG, 7 save with an unknown extension, 8 open a missing file, 9 open a file of unknown content
    op: u8,
    fmt: Fmt,
    /// damage of the stored bytes before reading them
    dmg: Vec<Dmg>,
    plan: PlanSpec,
    at: Vec<Pos>,
    from: Option<Pos>,
    /// bytes the writer accepts
    room: Option<u32>,
    ext: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    steps: Vec<Step>,
}

struct Sink {
    room: Option<u32>,
    n: u64,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = match self.room {
            None => b.len(),
            Some(r) if self.n >= r as u64 => return Err(std::io::ErrorKind::StorageFull.into()),
            Some(r) => b.len().min((r as u64 - self.n) as usize),
        };
        self.n += k as u64;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self.room {
            Some(r) if self.n >= r as u64 => Err(std::io::ErrorKind::StorageFull.into()),
            _ => Ok(()),
        }
    }
}

/// What one execution left behind.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Left {
    rust: i64,
    rust_n: i64,
    native: i64,
    native_n: i64,
    /// alive while the result still exists, beyond its own size
    held: i64,
    fds: i64,
    bad_close: u64,
    failed: u64,
    ok: bool,
}

enum Out {
    Img(Image),
    Bytes(Vec<u8>),
    None,
    Dec(DecodingError),
    Enc(EncodingError),
}

pub struct P;
impl P {
    fn exec(s: &Step, img: &Image, path: &str, data: &[u8], m: &Machine, hits: &[u64], from: Option<u64>) -> Result<Left, Violation> {
        let live = || (alloc::RUST_LIVE.load(Relaxed), alloc::RUST_COUNT.load(Relaxed), alloc::N_BYTES.load(Relaxed), alloc::N_LIVE.load(Relaxed));
        let fd0 = m.with(|w| (w.fds.len() as i64, w.bad_close));
        let mut hits = hits.to_vec();
        hits.shrink_to_fit();
        alloc::native_arm(hits, from);
        let a = live();
        alloc::TRACK.store(true, Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let e = |r: Result<(), EncodingError>| match r {
                Ok(()) => Out::None,
                Err(e) => Out::Enc(e),
            };
            let d = |r: Result<Image, DecodingError>| match r {
                Ok(i) => Out::Img(i),
                Err(e) => Out::Dec(e),
            };
            match s.op % 10 {
                0 | 7 => e(img.save(path)),
                1 => e(img.save_with_format(path, s.fmt.enc())),
                2 => match img.save_to_buffer(s.fmt.enc()) {
                    Ok(b) => Out::Bytes(b),
                    Err(x) => Out::Enc(x),
                },
                3 => {
                    let mut w = Sink { room: s.room, n: 0 };
                    e(img.save_to_writer(&mut w, s.fmt.enc()))
                }
                4 | 8 | 9 => d(Image::open(path)),
                5 => d(Image::read_from_buffer(data)),
                _ => Out::Img(img.with_jpeg_quality(s.ext % 101, s.room.is_some())),
            }
        }));
        let b = live();
        let panicked = r.is_err();
        let (own, ok) = match &r {
            // twice the size: spare capacity belongs to the picture as well
            Ok(Out::Img(i)) => (i.data().len() as i64 * 32 + 64, true),
            Ok(Out::Bytes(b)) => (b.len() as i64 * 2 + 64, true),
            Ok(Out::None) => (0, true),
            _ => (0, false),
        };
        if !panicked {
            drop(r);
        }
        let c = live();
        alloc::TRACK.store(false, Relaxed);
        let (_, failed) = alloc::native_disarm();
        if panicked {
            return fail("panic", "panic", format!("{:?} panicked: {}", s, last_panic()));
        }
        let fd1 = m.with(|w| (w.fds.len() as i64, w.bad_close));
        Ok(Left {
            rust: c.0 - a.0,
            rust_n: c.1 - a.1,
            native: c.2 - a.2,
            native_n: c.3 - a.3,
            held: (b.0 - a.0) + (b.2 - a.2) - own,
            fds: fd1.0 - fd0.0,
            bad_close: fd1.1 - fd0.1,
            failed,
            ok,
        })
    }
}
impl Prop for P {
    const ID: &'static str = "C11";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let size = if r.chance(1, 3) { Size::Tiny } else if r.chance(5, 6) { Size::Small } else { Size::Mixed };
        let img = ImgSpec::gen(r, size).small_for_ico().maybe_foreign(r, 4);
        let steps = (0..1 + r.below(3))
            .map(|_| {
                let op = if r.chance(1, 12) { r.below(10) as u8 } else { *r.pick(&[0, 1, 1, 2, 3, 3, 4, 4, 4, 5, 5, 6]) };
                let fmt = if r.chance(1, 3) { Fmt::gen_kind(r, 5) } else { Fmt::gen(r) };
                let reads = matches!(op, 4 | 5);
                let mut dmg = vec![];
                if reads && r.chance(1, 2) {
                    for _ in 0..1 + r.below(3) {
                        dmg.push(gen_dmg(r));
                    }
                }
                let mut plan = if r.chance(1, 3) { PlanSpec::benign(r) } else { PlanSpec::default() };
                if matches!(op, 0 | 1 | 4 | 9) && r.chance(1, 2) {
                    for _ in 0..1 + r.below(2) {
                        let pos = Pos::gen(r);
                        let errno = if matches!(pos, Pos::Abs(0)) {
                            *r.pick(&OPEN_ERRNOS)
                        } else if reads || op == 9 {
                            *r.pick(&READ_ERRNOS)
                        } else {
                            *r.pick(&WRITE_ERRNOS)
                        };
                        plan.faults.push(FSpec { pos, f: Fault::Err { errno, sticky: r.chance(1, 2) } });
                    }
                    if !reads && op != 9 && r.chance(1, 3) {
                        plan.quota = Some(Pos::gen(r));
                    }
                }
                let webp = matches!(fmt, Fmt::WebP { .. });
                let mut at = vec![];
                let mut from = None;
                if webp && r.chance(1, 2) {
                    for _ in 0..1 + r.below(3) {
                        at.push(Pos::gen(r));
                    }
                    if r.chance(1, 3) {
                        from = Some(Pos::gen(r));
                    }
                }
                let room = if r.chance(1, 2) { Some(if r.chance(1, 2) { r.below(120) as u32 } else { r.below(4000) as u32 }) } else { None };
                Step { op, fmt, dmg, plan, at, from, room, ext: r.next() as u8 }
            })
            .collect();
        Case { img, steps }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let img = c.img.build();
        let m = Machine::start(World::new());
        for (k, s) in c.steps.iter().enumerate() {
            // every repetition works on another name and another content of the same size, so that
            // memory kept per name or per content grows as well
            let prep = |round: u64| -> Result<Option<(Image, String, Vec<u8>)>, Violation> {
                let path = match s.op % 10 {
                    7 => format!("{}s{}r{}.tiff", PREFIX, k, round),
                    8 => format!("{}none{}r{}.png", PREFIX, k, round),
                    4 | 9 if s.ext % 9 == 1 => format!("{}s{}r{}.dat", PREFIX, k, round),
                    4 | 9 if s.ext % 9 == 2 => format!("{}s{}r{}", PREFIX, k, round),
                    _ if s.ext % 9 == 0 => format!("{}s{}r{}.png", PREFIX, k, round),
                    _ => format!("{}s{}r{}.{}", PREFIX, k, round, s.fmt.ext()),
                };
                let spec = ImgSpec { seed: c.img.seed.wrapping_add(if s.ext & 16 != 0 { round } else { 0 }), ..c.img.clone() };
                let mut data = vec![];
                if s.op % 10 == 9 {
                    data = (0..(s.ext as u64 * 37) % 9000).map(|i| (i * 7 + 3 + round) as u8).collect();
                }
                if matches!(s.op % 10, 4 | 5) {
                    data = match stored(&spec, &s.fmt)? {
                        Ok(b) => b,
                        Err(_) => return Ok(None),
                    };
                    for d in &s.dmg {
                        apply(&mut data, d);
                    }
                    // pictures too large to be decoded in this check are left to C06
                    if super::c06::declared(&data).iter().any(|(w, h)| w.saturating_mul(*h) > 1 << 20) {
                        return Ok(None);
                    }
                }
                Ok(Some((spec.build(), path, data)))
            };
            let Some((img, path, data)) = prep(0)? else {
                cx.count("left out (declared size)");
                continue;
            };
            if matches!(s.op % 10, 4 | 5) {
                cx.faults("damaged_bytes", s.dmg.len() as u64);
            }
            let set = |w: &mut World, path: &str, data: &[u8], plan: Plan| {
                if matches!(s.op % 10, 4 | 9) {
                    w.put(path, data.to_vec());
                } else {
                    w.remove(path);
                }
                w.sticky.clear();
                w.arm(plan);
            };
            // a first execution without faults warms everything up and counts the calls
            m.with(|w| set(w, &path, &data, s.plan.base()));
            let p0 = P::exec(s, &img, &path, &data, &m, &[], None)?;
            let calls = m.with(|w| w.n);
            let bytes = m.with(|w| w.get(&path).map(|d| d.len() as u64).unwrap_or(0));
            let natives = alloc::N_CALLS.load(Relaxed);
            let name = ["save by extension", "save with format", "save to memory", "save to a writer", "open", "read from memory", "through JPEG", "save with an unknown extension", "open a missing file", "open unknown content"][s.op as usize % 10];
            let key = format!("{} {}", name, if s.op % 10 == 6 { "" } else { s.fmt.name() });
            cx.count(&key);
            let hits: Vec<u64> = s.at.iter().map(|p| p.at(natives)).collect();
            let from = s.from.map(|p| p.at(natives));
            let mut l = vec![];
            // what is left behind once may belong to a lazily built cache; a leak comes every time
            for round in 0..6 {
                let Some((img, path, data)) = prep(round)? else { break };
                m.with(|w| set(w, &path, &data, s.plan.resolve(calls, bytes)));
                let x = P::exec(s, &img, &path, &data, &m, &hits, from)?;
                cx.faults("failed_allocation", x.failed);
                cx.add("allocations spared (known finding)", alloc::SPARED.swap(0, Relaxed));
                let clean = x.rust <= 0 && x.native == 0 && x.native_n == 0 && x.held <= 4096 && x.fds == 0 && x.bad_close == 0;
                l.push(x);
                if clean && round > 0 {
                    break;
                }
            }
            cx.note(format!("{}: without faults {:?}, then {:?}", key, p0, l));
            let all = |f: &dyn Fn(&Left) -> bool| l.len() == 6 && l[1..].iter().all(f);
            let Some(&last) = l.last() else { continue };
            let what = format!("{} ({}, {} native allocations failed)", key, if last.ok { "succeeded" } else { "failed" }, last.failed);
            if let Some(x) = l.iter().find(|x| x.fds != 0) {
                return fail("descriptor-leak", key.clone(), format!("{}: {} descriptors left open", what, x.fds));
            }
            if l.iter().any(|x| x.bad_close != 0) {
                return fail("double-close", key.clone(), format!("{}: a descriptor was closed twice", what));
            }
            if all(&|x| x.rust > 0) {
                return fail("memory-leak", key.clone(), format!("{}: {} bytes in {} blocks are never freed, every time", what, last.rust, last.rust_n));
            }
            if all(&|x| x.native != 0 || x.native_n != 0) {
                return fail("native-leak", key.clone(), format!("{}: {} bytes in {} native blocks are never freed, every time", what, last.native, last.native_n));
            }
            if all(&|x| x.held > 4096) {
                return fail("memory-held", key.clone(), format!("{}: {} bytes more than the result needs are held with it", what, last.held));
            }
            cx.fp.add(last.ok as u64 | last.failed << 1);
            cx.fp.bytes(key.as_bytes());
        }
        // the process is able to work as before
        m.with(|w| {
            w.sticky.clear();
            w.arm(Plan::default())
        });
        let p = format!("{}end.png", PREFIX);
        let want = img.save_to_buffer(d10::EncodingFormat::from_path(std::path::Path::new(&p)).map_err(|e| Violation { class: "end".into(), key: "end".into(), detail: enc_err(&e) })?);
        match (calm("saving", || img.save(&p))?, want) {
            (Ok(()), Ok(b)) if m.with(|w| w.get(&p) == Some(&b)) => {}
            _ => return fail("no-recovery", "no-recovery", "after the faults a plain save does not work as before"),
        }
        cx.world(&m.stop());
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = up to three operations (save by extension, format, to memory or a writer; open, read from memory; JPEG round trip), each executed without faults and then up to six times, on other names and contents, under the same disk errors, full disk, damaged bytes, refusing writer and failing native allocations; live Rust and native memory and open descriptors are compared before and after; non-trivial when a fault fired",
            real: "d10, d10-core, d10-codecs, all codecs including native libwebp, std",
            stub: "the kernel's file system; the allocators count (and the native one fails) but otherwise are the C library's",
            secs: (40, 780),
            budget: 8_000_000_000,
            workers: 8,
            assumptions: vec!["memory left behind once but not by each further repetition belongs to a cache"],
        }
    }
}
