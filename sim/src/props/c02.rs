//! Saving to a path: success means the complete encoding is on disk.
use super::*;
use serde::{Deserialize, Serialize};
use simcore::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    /// None: the extension decides
    fmt: Option<Fmt>,
    name: String,
    /// size of an earlier file at the path
    old: Option<u32>,
    read_only: bool,
    plan: PlanSpec,
    /// a second save of another picture to the same path afterwards
    again: Option<ImgSpec>,
}

/// The format a file name asks for, by the documented extensions.
pub fn ext_kind(name: &str) -> Option<u8> {
    let base = name.rsplit('/').next().unwrap();
    let dot = base.rfind('.')?;
    if dot == 0 {
        return None;
    }
    match base[dot + 1..].to_ascii_lowercase().as_str() {
        "jpg" | "jpeg" => Some(0),
        "png" => Some(1),
        "gif" => Some(2),
        "bmp" => Some(3),
        "ico" => Some(4),
        "webp" => Some(5),
        _ => None,
    }
}

pub fn any_case(r: &mut Rng, s: &str) -> String {
    let m = r.below(4);
    s.chars()
        .map(|c| match m {
            0 | 1 => c,
            2 => c.to_ascii_uppercase(),
            _ => {
                if r.chance(1, 2) {
                    c.to_ascii_uppercase()
                } else {
                    c
                }
            }
        })
        .collect()
}

pub fn gen_name(r: &mut Rng, kind: Option<u8>) -> String {
    let exts = ["jpg", "png", "gif", "bmp", "ico", "webp", "jpeg"];
    let stem = *r.pick(&["a", "pic", "my.photo", "x.png", "b.tar", "with space", "\u{fc}ml", "dir1/sub"]);
    match kind {
        Some(k) => {
            let mut e = exts[k as usize % 6];
            if e == "jpg" && r.chance(1, 2) {
                e = "jpeg";
            }
            format!("{}.{}", stem, any_case(r, e))
        }
        None => {
            let s = r.pick(&["a", "png", ".png", "a.", "a.txt", "a.png.bak", "a.pn", "a.jpegg", "a.tiff", "noext", "a.png ", "a.webp2", ".hidden"]);
            s.to_string()
        }
    }
}

pub fn write_plan(r: &mut Rng) -> PlanSpec {
    let mut p = if r.chance(1, 2) { PlanSpec::benign(r) } else { PlanSpec::default() };
    match r.below(10) {
        0 | 1 => {}
        2 | 3 => p.quota = Some(Pos::gen(r)),
        _ => {
            for _ in 0..*r.pick(&[1, 1, 1, 2]) {
                let f = match r.below(8) {
                    0 => Fault::Zero,
                    1 => Fault::Short(1 + r.below(300) as u32),
                    2 => Fault::Eintr,
                    _ => Fault::Err { errno: *r.pick(&WRITE_ERRNOS), sticky: r.chance(1, 2) },
                };
                p.faults.push(FSpec { pos: Pos::gen(r), f });
            }
        }
    }
    p
}

fn path(n: &str) -> String {
    format!("{}{}", PREFIX, n)
}

const BYSTANDERS: [(&str, &[u8]); 4] =
    [("other.png", b"not touched"), ("a", b"A"), ("a.png~", b"backup"), ("pic.tmp", b"temporary")];

fn machine(c: &Case, plan: Plan) -> World {
    let mut w = World::new();
    for (n, d) in BYSTANDERS {
        w.put(&path(n), d.to_vec());
    }
    if let Some(n) = c.old {
        let d: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
        w.put(&path(&c.name), d);
        if c.read_only {
            let i = w.names[&path(&c.name)];
            w.inodes.get_mut(&i).unwrap().mode = 0o444;
        }
    }
    w.plan = plan;
    w
}

fn save(i: &Image, c: &Case) -> Result<Result<(), EncodingError>, Violation> {
    let p = path(&c.name);
    match &c.fmt {
        None => calm("saving", || i.save(&p)),
        Some(f) => calm("saving", || i.save_with_format(&p, f.enc())),
    }
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C02";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let mut img = ImgSpec::gen(r, Size::Mixed);
        let k = r.below(6) as u8;
        let (fmt, name) = match r.below(10) {
            0 => (None, gen_name(r, None)),
            1 => {
                let n = gen_name(r, None);
                (Some(Fmt::gen_kind(r, k)), n)
            }
            2 | 3 => {
                let o = r.below(6) as u8;
                (Some(Fmt::gen_kind(r, k)), gen_name(r, Some(o)))
            }
            _ => (None, gen_name(r, Some(k))),
        };
        if r.chance(1, 40) {
            img.w = 300; // too wide for an icon
        } else {
            img = img.small_for_ico();
        }
        let mut name = name;
        if r.chance(1, 25) {
            name = format!("missing/{}", name);
        }
        let old = if r.chance(1, 2) { Some(r.below(60000) as u32) } else { None };
        let plan = write_plan(r);
        let again = if r.chance(1, 3) {
            Some(ImgSpec::gen(r, Size::Small))
        } else {
            None
        };
        Case { img, fmt, name, old, read_only: r.chance(1, 15), plan, again }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let img = c.img.build();
        let fmt = c.fmt.clone().or_else(|| ext_kind(&c.name).map(Fmt::of_ext));
        let want = match &fmt {
            None => None,
            Some(f) => Some(reference(&img, f)?),
        };
        let mut plan = c.plan.base();
        if c.plan.needs_dry() {
            let m = Machine::start(machine(c, c.plan.base()));
            let _ = save(&img, c)?;
            let w = m.stop();
            let bytes = w.get(&path(&c.name)).map(|d| d.len()).unwrap_or(0);
            plan = c.plan.resolve(w.n, bytes as u64);
        }
        let m = Machine::start(machine(c, plan));
        let before = m.with(|w| w.snapshot());
        let got = save(&img, c)?;
        let (after, hard, opens, fds) = m.with(|w| (w.snapshot(), w.hard.clone(), w.log_total, w.fds.len()));
        let name = fmt.as_ref().map(|f| f.name()).unwrap_or("unsupported");
        cx.count(name);
        cx.fp.add(got.is_ok() as u64);
        // no other file
        let target = path(&c.name);
        for (n, d) in &before {
            if *n != target && after.get(n) != Some(d) {
                return fail("other-file-changed", name, format!("saving {} changed {}", target, n));
            }
        }
        for n in after.keys() {
            if *n != target && !before.contains_key(n) && got.is_ok() {
                return fail("other-file-created", name, format!("saving {} created {}", target, n));
            }
        }
        if fds != 0 {
            return fail("descriptor-leak", name, "a descriptor is still open after saving".to_string());
        }
        let blocked = (c.read_only && c.old.is_some()) || c.name.starts_with("missing/");
        match (&want, &got) {
            (None, r) => {
                if !matches!(r, Err(EncodingError::BadFileExtension(_))) {
                    return fail("extension", "unsupported", format!("{:?} was not refused: {:?}", c.name, r.as_ref().err().map(enc_err)));
                }
                if before != after || opens != 0 {
                    return fail("extension", "unsupported", format!("{:?} was refused only after the disk was touched", c.name));
                }
            }
            (Some(Ok(want)), Ok(())) => {
                if let Some(h) = hard.iter().find(|h| !matches!(h.op, Op::Unlink | Op::Meta | Op::Close)) {
                    return fail(
                        "success-after-error",
                        name,
                        format!("{}: saving reported success although {} failed with {}", name, h.op.name(), errno_name(h.errno)),
                    );
                }
                match after.get(&target) {
                    Some(d) if d == want => {}
                    Some(d) => {
                        let at = want.iter().zip(d).position(|(a, b)| a != b).unwrap_or(want.len().min(d.len()));
                        return fail(
                            "incomplete-success",
                            name,
                            format!(
                                "{}: saving reported success but the file has {} bytes, differing at {} from the {} bytes of the encoding",
                                name,
                                d.len(),
                                at,
                                want.len()
                            ),
                        );
                    }
                    None => return fail("incomplete-success", name, format!("{}: saving reported success but there is no file", name)),
                }
            }
            (Some(Ok(_)), Err(e)) => {
                let zero = m.with(|w| w.fired.contains_key("write_zero"));
                if hard.is_empty() && !blocked && !zero {
                    return fail("spurious-error", name, format!("{}: nothing failed but saving reported {}", name, enc_err(e)));
                }
                if !matches!(e, EncodingError::IoError(_)) {
                    return fail("wrong-error", name, format!("{}: a disk operation failed but saving reported {}", name, enc_err(e)));
                }
                if let (Some(h), EncodingError::IoError(i)) = (hard.first(), e) {
                    if !zero && !hard.iter().any(|h| kind_of(h.errno) == i.kind()) {
                        return fail(
                            "wrong-error",
                            name,
                            format!("{}: {} failed with {} but saving reported {}", name, h.op.name(), errno_name(h.errno), enc_err(e)),
                        );
                    }
                }
            }
            (Some(Err(_)), Err(_)) => {}
            (Some(Err(e)), Ok(())) => {
                return fail("spurious-success", name, format!("{}: encoding fails ({}) but the save succeeds", name, enc_err(e)));
            }
        }
        // the disk is healthy again: a later save repairs the file
        if let (Some(spec), Some(f)) = (&c.again, &fmt) {
            if !blocked {
                let img = spec.build();
                let want = reference(&img, f)?;
                m.with(|w| w.arm(c.plan.base()));
                let got = save(&img, c)?;
                match (want, got) {
                    (Ok(want), Ok(())) => {
                        if m.with(|w| w.get(&target).map(|d| *d == want)) != Some(true) {
                            return fail("later-save-incomplete", name, format!("{}: the file is not the encoding after a later save", name));
                        }
                    }
                    (Ok(_), Err(e)) => {
                        return fail("later-save-failed", name, format!("{}: a later save on the healthy disk reported {}", name, enc_err(&e)))
                    }
                    _ => {}
                }
            }
        }
        let w = m.stop();
        cx.world(&w);
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one picture x one path (all supported extensions in any letter case, unsupported ones, missing directory, read-only target) x optional explicit format x an earlier file of random size x a seeded disk behaviour (short/interrupted writes, hard errors at any call, disk filling up after any number of bytes), then optionally a second save on the healthy disk; non-trivial when at least one fault fired",
            real: "d10, d10-codecs, all encoders, std's File and BufWriter",
            stub: "the kernel's file system (simulated disk behind the C library's calls)",
            secs: (40, 780),
            budget: 4_000_000_000,
            workers: 8,
            assumptions: vec!["close() itself does not fail (std ignores its result)"],
        }
    }
}
