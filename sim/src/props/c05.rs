//! A torn save never opens as a different picture.
use super::*;
use serde::{Deserialize, Serialize};
use simcore::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    fmt: Fmt,
    /// picture at the path before
    old: Option<(ImgSpec, Fmt)>,
    /// where the process dies: position and bytes of the write in progress that reach the disk
    at: Pos,
    keep: u32,
    chunk: Option<Chunk>,
    /// instead: cut the finished file to this many bytes (fraction or counted from its end)
    cut: Option<Pos>,
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C05";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let k = r.below(6) as u8;
        let fmt = Fmt::gen_kind(r, k);
        let img = ImgSpec::gen(r, Size::Mixed).small_for_ico();
        let old = if r.chance(1, 2) {
            let ok = if r.chance(2, 3) { k } else { r.below(6) as u8 };
            Some((ImgSpec::gen(r, Size::Small), Fmt::gen_kind(r, ok)))
        } else {
            None
        };
        let cut = if r.chance(1, 2) {
            Some(match r.below(6) {
                0 => Pos::Abs(r.below(64) as u32),
                1..=3 => Pos::Frac(r.below(65536) as u32),
                _ => Pos::End(r.below(40) as u32),
            })
        } else {
            None
        };
        let keep = match r.below(4) {
            0 => 0,
            1 => r.below(64) as u32,
            2 => r.below(8193) as u32,
            _ => 8192 - r.below(20) as u32,
        };
        Case { img, fmt, old, at: Pos::gen(r), keep, chunk: if r.chance(1, 2) { PlanSpec::benign(r).chunk } else { None }, cut }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let img = c.img.build();
        let name = c.fmt.name();
        let full = match reference(&img, &c.fmt)? {
            Ok(b) => b,
            Err(_) => return Ok(()),
        };
        let new = match decoded(&full)? {
            Ok(i) => i,
            Err(e) => return fail("unreadable", name, format!("{}: a completed save gives {}", name, dec_err(&e))),
        };
        let path = format!("{}pic.{}", PREFIX, c.fmt.ext());
        let mut old = None;
        let mut w = World::new();
        if let Some((s, f)) = &c.old {
            if let Ok(b) = reference(&s.build(), f)? {
                old = decoded(&b)?.ok().map(|i| (i, b.clone()));
                w.put(&path, b);
            }
        }
        let after: Vec<u8>;
        if let Some(p) = c.cut {
            let n = p.at(full.len() as u64).min(full.len() as u64) as usize;
            after = full[..n].to_vec();
            cx.fault(if n < full.len() { "file_truncated" } else { "not_truncated" });
            cx.fp.add(n as u64);
            cx.fp.add(full.len() as u64);
            cx.fp.add(c.fmt.kind() as u64);
        } else {
            // dry run for the number of calls
            let mut d = World::new();
            for (n, b) in w.snapshot() {
                d.put(&n, b);
            }
            let base = Plan { chunk: c.chunk, ..Default::default() };
            d.plan = base.clone();
            let m = Machine::start(d);
            let _ = calm("saving", || img.save_with_format(&path, c.fmt.enc()))?;
            let calls = m.stop().n;
            let mut plan = base;
            plan.faults.push(FaultAt { n: c.at.at(calls), f: Fault::Crash { keep: c.keep } });
            w.plan = plan;
            let m = Machine::start(w);
            let _ = calm("saving", || img.save_with_format(&path, c.fmt.enc()))?;
            let w = m.stop();
            cx.world(&w);
            match w.get(&path) {
                Some(d) => after = d.clone(),
                None => return Ok(()),
            }
        }
        // the restarted process opens the file
        let mut w = World::new();
        w.put(&path, after.clone());
        let m = Machine::start(w);
        let got = calm("opening a torn file", || Image::open(&path))?;
        cx.world(&m.stop());
        cx.count(name);
        match &got {
            Err(DecodingError::IoError(e)) if e.kind() != std::io::ErrorKind::UnexpectedEof => {
                cx.count("io_error_other");
            }
            Err(_) => cx.count("refused"),
            Ok(i) => {
                if same(i, &new) {
                    cx.count("complete");
                } else if old.as_ref().map(|(o, b)| same(i, o) && *b == after).unwrap_or(false) {
                    cx.count("untouched");
                } else {
                    return fail(
                        "torn-picture",
                        name,
                        format!("{}: {} of {} bytes on disk open as a different picture: {}", name, after.len(), full.len(), diff(&new, i)),
                    );
                }
            }
        }
        cx.fp.add(got.is_ok() as u64);
        // also from memory
        if let Ok(i) = decoded(&after)? {
            if !same(&i, &new) && !old.as_ref().map(|(o, _)| same(&i, o)).unwrap_or(false) {
                return fail("torn-picture", name, format!("{}: {} of {} bytes decode as a different picture: {}", name, after.len(), full.len(), diff(&new, &i)));
            }
        }
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one save of a random picture in any format and options over nothing or over an older picture, with the process dying at a seeded system call (with a seeded part of the write in progress on disk), or the completed file cut at a seeded length; the restarted process then opens the path; non-trivial when the crash or cut happened",
            real: "d10, d10-codecs, all encoders and decoders, std's File, BufWriter, BufReader",
            stub: "the kernel's file system (simulated disk; data written before the crash survives)",
            secs: (40, 780),
            budget: 4_000_000_000,
            workers: 8,
            assumptions: vec!["a process crash keeps written data in order; an operating-system crash that loses earlier writes but keeps later ones is not simulated, as the library never syncs"],
        }
    }
}
