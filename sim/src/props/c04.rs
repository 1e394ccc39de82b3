//! A failed read is an I/O error of that kind.
use super::*;
use serde::{Deserialize, Serialize};
use simcore::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    fmt: Fmt,
    /// the file's extension: right, wrong or none
    ext: u8,
    plan: PlanSpec,
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C04";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let k = r.below(6) as u8;
        let mut img = ImgSpec::gen(r, Size::Mixed);
        if k == 4 {
            img = img.small_for_ico();
        }
        let mut plan = if r.chance(2, 3) { PlanSpec::benign(r) } else { PlanSpec::default() };
        for _ in 0..*r.pick(&[1, 1, 1, 2]) {
            let pos = Pos::gen(r);
            let errno = if matches!(pos, Pos::Abs(0)) { *r.pick(&OPEN_ERRNOS) } else { *r.pick(&READ_ERRNOS) };
            plan.faults.push(FSpec { pos, f: Fault::Err { errno, sticky: r.chance(1, 2) } });
        }
        let img = img.maybe_foreign(r, 3);
        Case { img, fmt: Fmt::gen_kind(r, k), ext: r.below(8) as u8, plan }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let b = match stored(&c.img, &c.fmt)? {
            Ok(b) => b,
            Err(_) => return Ok(()),
        };
        let want = decoded(&b)?;
        let e = match c.ext {
            0 => "".to_string(),
            1 => ".txt".to_string(),
            2 => ".png".to_string(),
            3 => ".bmp".to_string(),
            _ => format!(".{}", c.fmt.ext()),
        };
        let path = format!("{}pic{}", PREFIX, e);
        let world = |plan: Plan| {
            let mut w = World::new();
            w.put(&path, b.clone());
            w.plan = plan;
            w
        };
        let m = Machine::start(world(c.plan.base()));
        let _ = calm("opening", || Image::open(&path))?;
        let calls = m.stop().n;
        let m = Machine::start(world(c.plan.resolve(calls, 0)));
        let got = calm("opening", || Image::open(&path))?;
        let name = c.fmt.name();
        cx.count(name);
        let hard = m.with(|w| w.hard.clone());
        let rel: Vec<&HardFault> = hard.iter().filter(|h| matches!(h.op, Op::Open | Op::Read | Op::Seek)).collect();
        cx.fp.bytes(super::c03::class(&got).as_bytes());
        if let Some(h) = rel.first() {
            let what = format!("{}: {} number {} failed with {}", name, h.op.name(), h.n, errno_name(h.errno));
            match &got {
                Ok(_) => return fail("picture-after-error", name, format!("{} but an image was returned", what)),
                Err(DecodingError::IoError(i)) if rel.iter().any(|h| kind_of(h.errno) == i.kind()) => {}
                Err(e) => return fail("wrong-error", format!("{}-{}", name, h.op.name()), format!("{} but opening reported {}", what, dec_err(e))),
            }
        } else if hard.is_empty() && super::c03::class(&got) != super::c03::class(&want) {
            return fail("spurious", name, format!("{}: nothing failed but opening gives {}", name, super::c03::class(&got)));
        }
        if m.with(|w| w.fds.len()) != 0 {
            return fail("descriptor-leak", name, "a descriptor is still open after a failed read");
        }
        // the disk is healthy again
        m.with(|w| w.arm(c.plan.base()));
        let again = calm("opening", || Image::open(&path))?;
        if super::c03::class(&again) != super::c03::class(&want) {
            return fail(
                "no-recovery",
                name,
                format!("{}: on the healthy disk opening gives {} instead of {}", name, super::c03::class(&again), super::c03::class(&want)),
            );
        }
        cx.world(&m.stop());
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one stored picture of any format and options, or a file as other programs write it, x file name x hard errors (about 25 errno values, transient or persistent) at any open, read or seek of the opening, on top of split and interrupted reads; then a second attempt without errors; non-trivial when a fault fired",
            real: "d10, d10-codecs, all decoders, std's File and BufReader",
            stub: "the kernel's file system (simulated disk)",
            secs: (40, 780),
            budget: 4_000_000_000,
            workers: 8,
            assumptions: vec!["lseek(fd, 0, SEEK_CUR), a pure position query, does not fail"],
        }
    }
}
