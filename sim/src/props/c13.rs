//! Failing native memory allocation is an error, never a crash or wrong data.
use super::*;
use crate::alloc::{native_arm, native_disarm};
use serde::{Deserialize, Serialize};
use simcore::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    q: u8,
    preset: u8,
    /// 0 save to memory, 1 save to a file, 2 save to a writer, 3 read memory, 4 open a file, 5 open
    /// over an existing longer file
    op: u8,
    /// which native allocations fail
    at: Vec<Pos>,
    from: Option<Pos>,
    /// file and read schedule on top
    plan: PlanSpec,
    /// bytes cut off the encoded picture before it is read
    cut: u32,
    /// how often the failing operation is attempted before memory is available again
    rounds: u8,
    /// fail the allocation that is known to crash the native decoder, in a process of its own
    known: bool,
}

#[inline(never)]
fn dirty_stack() {
    let a = [0xA5u8; 96 << 10];
    std::hint::black_box(&a);
}

enum Out {
    Bytes(Vec<u8>),
    Pic(Image),
    Err(String, bool),
}

fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Bytes(x), Out::Bytes(y)) => x == y,
        (Out::Pic(x), Out::Pic(y)) => same(x, y),
        (Out::Err(..), Out::Err(..)) => true,
        _ => false,
    }
}
fn show(o: &Out) -> String {
    match o {
        Out::Bytes(b) => format!("{} bytes ({:016x})", b.len(), simcore::rng::Fnv::of(b)),
        Out::Pic(i) => format!("a {}x{} image ({:016x})", i.width(), i.height(), hash(i)),
        Out::Err(e, _) => e.clone(),
    }
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C13";
    type Case = Case;
    fn gen(r: &mut Rng, t: Tier) -> Case {
        let size = if r.chance(1, 3) { Size::Tiny } else if r.chance(1, 2) || (t == Tier::Quick && r.chance(1, 2)) { Size::Small } else { Size::Mixed };
        let mut at = vec![];
        for _ in 0..*r.pick(&[1, 1, 1, 1, 2, 3, 6]) {
            at.push(Pos::gen(r));
        }
        let from = if r.chance(1, 3) { Some(Pos::gen(r)) } else { None };
        if from.is_some() && r.chance(1, 2) {
            at.clear();
        }
        let op = r.below(6) as u8;
        Case {
            img: ImgSpec::gen(r, size),
            q: r.below(101) as u8,
            preset: if r.chance(1, 2) { 6 } else { r.below(6) as u8 },
            op,
            at,
            from,
            plan: if r.chance(1, 4) { PlanSpec::benign(r) } else { PlanSpec::default() },
            cut: if op >= 3 && r.chance(1, 8) { 1 + r.below(80) as u32 } else { 0 },
            rounds: if r.chance(1, 4) { 2 + r.below(3) as u8 } else { 1 },
            known: r.chance(1, 150),
        }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let fmt = Fmt::WebP { q: c.q, preset: c.preset % 7 };
        let img = c.img.build();
        let full = match reference(&img, &fmt)? {
            Ok(b) => b,
            Err(_) => return Ok(()),
        };
        let mut data = full.clone();
        data.truncate(data.len().saturating_sub(c.cut as usize));
        let path = format!("{}pic.webp", PREFIX);
        let mut w = World::new();
        if c.op % 6 == 4 {
            w.put(&path, data.clone());
        } else if c.op % 6 == 5 {
            w.put(&path, vec![7; full.len() + 300]);
        }
        w.plan = c.plan.base();
        let m = Machine::start(w);
        let go = || -> Result<Out, Violation> {
            let e = |r: Result<(), EncodingError>| -> Option<Out> {
                r.err().map(|e| Out::Err(enc_err(&e), matches!(e, EncodingError::IoError(_))))
            };
            let d = |r: Result<Image, DecodingError>| -> Out {
                match r {
                    Ok(i) => Out::Pic(i),
                    Err(e) => Out::Err(dec_err(&e), matches!(e, DecodingError::IoError(_))),
                }
            };
            calm("the operation", || match c.op % 6 {
                0 => match img.save_to_buffer(fmt.enc()) {
                    Ok(b) => Out::Bytes(b),
                    Err(x) => e(Err(x)).unwrap(),
                },
                1 | 5 => match e(img.save_with_format(&path, fmt.enc())) {
                    Some(o) => o,
                    None => Out::Bytes(m.with(|w| w.get(&path).cloned().unwrap_or_default())),
                },
                2 => {
                    let mut v = vec![];
                    match e(img.save_to_writer(&mut v, fmt.enc())) {
                        Some(o) => o,
                        None => Out::Bytes(v),
                    }
                }
                3 => d(Image::read_from_buffer(&data)),
                _ => d(Image::open(&path)),
            })
        };
        let name = ["save to memory", "save to a file", "save to a writer", "read from memory", "open a file", "save over a file"][c.op as usize % 6];
        let key = format!("{} {}", name, if c.preset % 7 == 6 { "lossless" } else { "lossy" });
        cx.count(&key);
        native_arm(vec![], None);
        let want = go()?;
        let (calls, _) = native_disarm();
        cx.add("native allocations", calls);
        if c.known {
            if c.op % 6 != 3 {
                return Ok(());
            }
            // one failing allocation after the other, each in a process of its own
            for k in 0..calls.min(64) {
                let r = crate::fork::forked(|| {
                    crate::alloc::SPARE_KNOWN.store(false, std::sync::atomic::Ordering::Relaxed);
                    native_arm(vec![k], None);
                    dirty_stack();
                    let r = Image::read_from_buffer(&data);
                    native_disarm();
                    r.is_ok() as u8
                });
                cx.fault("failed_allocation");
                if let Err(d) = r {
                    native_arm(vec![k], None);
                    let before = crate::alloc::SPARED.load(std::sync::atomic::Ordering::Relaxed);
                    let _ = Image::read_from_buffer(&data);
                    native_disarm();
                    let spared = crate::alloc::SPARED.load(std::sync::atomic::Ordering::Relaxed) > before;
                    let k2 = if spared { "native-crash-VP8LHuffmanTablesAllocate-code-lengths" } else { "native-crash" };
                    return fail("crash", k2, format!("reading a lossless WebP kills the process ({:?}) when native allocation {} of {} fails", d, k, calls));
                }
            }
            return Ok(());
        }
        for _ in 0..c.rounds.clamp(1, 5) {
            native_arm(c.at.iter().map(|p| p.at(calls)).collect(), c.from.map(|p| p.at(calls)));
            let got = go();
            let (_, failed) = native_disarm();
            let got = got?;
            cx.faults("failed_allocation", failed);
            cx.add("allocations spared (known finding)", crate::alloc::SPARED.swap(0, std::sync::atomic::Ordering::Relaxed));
            cx.note(format!("{}: {} of {} native allocations failed, result {}", key, failed, calls, show(&got)));
            if !matches!(got, Out::Err(..)) && !same_out(&got, &want) {
                return fail("wrong-result", key.clone(), format!("{}: {} of {} native allocations failed; reported success with {} instead of {}", key, failed, calls, show(&got), show(&want)));
            }
            if failed == 0 && !same_out(&got, &want) {
                return fail("spurious", key.clone(), format!("{}: no allocation failed, but the result is {} instead of {}", key, show(&got), show(&want)));
            }
            cx.fp.add(failed);
            cx.fp.bytes(show(&got).as_bytes());
            if matches!(got, Out::Err(..)) && failed > 0 {
                cx.count("reported as an error");
            } else if failed > 0 {
                cx.count("succeeded without the memory");
            }
            if m.with(|w| w.fds.len()) != 0 {
                return fail("descriptor-leak", key.clone(), format!("{}: a descriptor is still open", key));
            }
        }
        // memory is available again
        native_arm(vec![], None);
        let again = go();
        let (calls2, _) = native_disarm();
        let again = again?;
        if !same_out(&again, &want) {
            return fail("no-recovery", key.clone(), format!("{}: with memory available again the result is {} instead of {}", key, show(&again), show(&want)));
        }
        cx.fp.add(calls2);
        cx.world(&m.stop());
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one WebP operation (save to memory, file or writer, read memory or file) on a picture x preset x quality, with one, several or all from one on of the native library's allocations failing, up to 4 times, then once with memory; non-trivial when an allocation failed",
            real: "d10, d10-codecs, the native libwebp code",
            stub: "malloc, calloc, realloc and memalign of the native code (failures by seed); the kernel's file system",
            secs: (40, 780),
            budget: 4_000_000_000,
            workers: 8,
            assumptions: vec!["allocations on the Rust side do not fail: the language aborts the process by design"],
        }
    }
}
