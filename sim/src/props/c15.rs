//! Saved files survive crashes of later work.
use super::*;
use serde::{Deserialize, Serialize};
use simcore::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// picture in memory -> file
    Save { slot: u8, file: u8, fmt: Option<Fmt> },
    /// file -> picture in memory
    Open { file: u8, slot: u8 },
    Edit { slot: u8, op: u8, a: u8 },
    Restart,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    act: Act,
    plan: PlanSpec,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    imgs: Vec<ImgSpec>,
    /// extensions of the files
    files: Vec<u8>,
    steps: Vec<Step>,
}

/// What a file may hold.
#[derive(Default, Clone)]
struct Known {
    /// the last save that reported success
    sure: Option<Image>,
    /// pictures of later saves that did not
    maybe: Vec<Image>,
    /// such saves were started
    unsure: bool,
}

fn edit(i: &Image, op: u8, a: u8) -> Image {
    match op % 6 {
        0 => i.flip_horizontal(),
        1 => i.rotate90(),
        2 => i.map_colors(|c| c.invert()),
        3 => i.crop(a as u32 % i.width(), 0, i.width(), i.height()),
        4 => i.resize(1 + a as u32 % 30, 1 + (a / 9) as u32, d10::ops::FilterMode::Bilinear),
        _ => i.gaussian_blur(1 + a as u32 % 3, None),
    }
}

fn path(files: &[u8], f: u8) -> String {
    let k = f as usize % files.len();
    format!("{}file{}.{}", PREFIX, k, ["jpg", "png", "gif", "bmp", "ico", "webp"][files[k] as usize % 6])
}

fn from_disk(d: &BTreeMap<String, Vec<u8>>, plan: Plan) -> World {
    let mut w = World::new();
    for (n, b) in d {
        w.put(n, b.clone());
    }
    w.plan = plan;
    w
}

/// Another machine takes over.
fn swap(m: Machine, w: World) -> Machine {
    drop(m);
    Machine::start(w)
}

pub struct P;
impl P {
    /// Opens a file without faults and holds it against what is known of it.
    fn look(m: &Machine, p: &str, k: &Known, when: &str) -> Result<Option<Image>, Violation> {
        let key = p.rsplit('.').next().unwrap().to_string();
        m.with(|w| w.arm(Plan::default()));
        let got = calm("opening", || Image::open(p))?;
        match (&got, &k.sure) {
            (Ok(i), Some(s)) if same(i, s) => {}
            (Ok(i), _) if k.maybe.iter().any(|x| same(i, x)) => {}
            (Err(_), _) if k.unsure => {}
            (Err(_), None) => {}
            (Ok(i), Some(s)) => return fail("wrong-picture", key, format!("{}: {} opens as a picture that is none of those saved: {}", when, p, diff(s, i))),
            (Ok(i), None) => return fail("wrong-picture", key, format!("{}: {} opens as a {}x{} picture that was never saved there", when, p, i.width(), i.height())),
            (Err(e), Some(_)) => return fail("lost", key, format!("{}: {} was saved successfully but opening it gives {}", when, p, dec_err(e))),
        }
        Ok(got.ok())
    }
}
impl Prop for P {
    const ID: &'static str = "C15";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let imgs = (0..1 + r.below(3))
            .map(|_| {
                let s = if r.chance(1, 2) { Size::Tiny } else { Size::Small };
                ImgSpec::gen(r, s)
            })
            .collect();
        let files: Vec<u8> = (0..2 + r.below(3)).map(|_| r.below(6) as u8).collect();
        let mut steps = vec![];
        for _ in 0..3 + r.below(12) {
            let file = r.below(files.len() as u64) as u8;
            let act = match r.below(10) {
                0..=4 => {
                    let k = files[file as usize];
                    // the format asked for usually is the one of the extension
                    let fmt = match r.below(5) {
                        0 | 1 => None,
                        4 if r.chance(1, 3) => Some(Fmt::gen(r)),
                        _ => Some(Fmt::gen_kind(r, k)),
                    };
                    Act::Save { slot: r.below(3) as u8, file, fmt }
                }
                5 | 6 => Act::Open { file, slot: r.below(3) as u8 },
                7 | 8 => Act::Edit { slot: r.below(3) as u8, op: r.below(6) as u8, a: r.next() as u8 },
                _ => Act::Restart,
            };
            let mut plan = if r.chance(1, 4) { PlanSpec::benign(r) } else { PlanSpec::default() };
            let save = matches!(act, Act::Save { .. });
            if r.chance(2, 5) {
                let f = match r.below(10) {
                    0..=4 => Fault::Crash { keep: if r.chance(1, 2) { r.below(64) as u32 } else { r.below(8192) as u32 } },
                    5 => Fault::Short(1 + r.below(300) as u32),
                    6 if save => Fault::Zero,
                    _ => Fault::Err { errno: *r.pick(if save { &WRITE_ERRNOS[..] } else { &READ_ERRNOS[..] }), sticky: r.chance(1, 2) },
                };
                plan.faults.push(FSpec { pos: Pos::gen(r), f });
            }
            if save && r.chance(1, 12) {
                plan.quota = Some(Pos::gen(r));
            }
            steps.push(Step { act, plan });
        }
        Case { imgs, files, steps }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        if c.imgs.is_empty() || c.files.is_empty() {
            return Ok(());
        }
        let fresh: Vec<Image> = (0..3).map(|k| c.imgs[k % c.imgs.len()].build()).collect();
        let mut slots = fresh.clone();
        let mut known: BTreeMap<String, Known> = (0..c.files.len() as u8).map(|f| (path(&c.files, f), Known::default())).collect();
        let mut m = Machine::start(World::new());
        for (n, s) in c.steps.iter().enumerate() {
            let disk = m.with(|w| w.snapshot());
            let target = match &s.act {
                Act::Save { file, .. } | Act::Open { file, .. } => path(&c.files, *file),
                _ => String::new(),
            };
            // calls and bytes of this operation without faults
            let plan = if s.plan.needs_dry() && !target.is_empty() {
                let d = swap(m, from_disk(&disk, s.plan.base()));
                match &s.act {
                    Act::Save { slot, fmt, .. } => {
                        let i = &slots[*slot as usize % 3];
                        let _ = calm("saving", || match fmt {
                            Some(f) => i.save_with_format(&target, f.enc()),
                            None => i.save(&target),
                        })?;
                    }
                    _ => {
                        let _ = calm("opening", || Image::open(&target))?;
                    }
                }
                let w = d.stop();
                let bytes = w.get(&target).map(|b| b.len() as u64).unwrap_or(0);
                let p = s.plan.resolve(w.n, bytes);
                m = Machine::start(from_disk(&disk, Plan::default()));
                p
            } else {
                s.plan.base()
            };
            m.with(|w| w.arm(plan));
            let mut crashed = false;
            let when = format!("after step {} ({:?})", n, s.act);
            match &s.act {
                Act::Restart => crashed = true,
                Act::Edit { slot, op, a } => {
                    let k = *slot as usize % 3;
                    slots[k] = calm("editing", || edit(&slots[k], *op, *a))?;
                    if slots[k].width() > 64 || slots[k].height() > 64 || slots[k].is_empty() {
                        slots[k] = fresh[k].clone();
                    }
                }
                Act::Save { slot, fmt, file } => {
                    let i = &slots[*slot as usize % 3];
                    let f = fmt.clone().unwrap_or_else(|| Fmt::of_ext(c.files[*file as usize % c.files.len()] % 6));
                    let res = calm("saving", || match fmt {
                        Some(f) => i.save_with_format(&target, f.enc()),
                        None => i.save(&target),
                    })?;
                    crashed = m.with(|w| w.crashed);
                    let w = m.stop();
                    cx.world(&w);
                    // what the complete file would show
                    let pic = match reference(i, &f)? {
                        Ok(b) => match decoded(&b)? {
                            Ok(p) => Some(p),
                            Err(e) => return fail("unreadable", f.name(), format!("{}: a complete encoding gives {}", f.name(), dec_err(&e))),
                        },
                        Err(_) => None,
                    };
                    let k = known.get_mut(&target).unwrap();
                    if res.is_ok() && !crashed {
                        match pic {
                            Some(p) => {
                                *k = Known { sure: Some(p), maybe: vec![], unsure: false };
                                cx.count("saves that reported success");
                            }
                            None => return fail("impossible", f.name(), format!("{}: the save reported success but the picture cannot be encoded", when)),
                        }
                    } else {
                        k.unsure = true;
                        if let Some(p) = pic {
                            k.maybe.push(p);
                        }
                        cx.count(if crashed { "saves that crashed" } else { "saves that failed" });
                    }
                    let mut nw = from_disk(&w.snapshot(), Plan::default());
                    nw.crashed = crashed;
                    m = Machine::start(nw);
                }
                Act::Open { slot, .. } => {
                    let got = calm("opening", || Image::open(&target))?;
                    crashed = m.with(|w| w.crashed);
                    let hard = m.with(|w| w.hard.len());
                    let w = m.stop();
                    cx.world(&w);
                    m = Machine::start(from_disk(&w.snapshot(), Plan::default()));
                    if !crashed {
                        let k = &known[&target];
                        match got {
                            Ok(i) => {
                                let ok = k.sure.as_ref().map(|s| same(&i, s)).unwrap_or(false) || k.maybe.iter().any(|x| same(&i, x));
                                if !ok {
                                    let d = k.sure.as_ref().map(|s| diff(s, &i)).unwrap_or("it was never saved".into());
                                    return fail("wrong-picture", target.rsplit('.').next().unwrap(), format!("{}: {} opened as a picture that is none of those saved: {}", when, target, d));
                                }
                                if i.width() <= 64 && i.height() <= 64 {
                                    slots[*slot as usize % 3] = i;
                                }
                                cx.count("opens that succeeded");
                            }
                            Err(e) => {
                                if k.sure.is_some() && !k.unsure && hard == 0 {
                                    return fail("lost", target.rsplit('.').next().unwrap(), format!("{}: {} was saved successfully but opening it gives {}", when, target, dec_err(&e)));
                                }
                                cx.count("opens that failed");
                            }
                        }
                    }
                }
            }
            // no other file is touched
            let now = m.with(|w| w.snapshot());
            for (p, b) in &disk {
                let mine = matches!(s.act, Act::Save { .. }) && *p == target;
                if !mine && now.get(p) != Some(b) {
                    return fail("other-file", p.rsplit('.').next().unwrap(), format!("{}: the bytes of {} changed", when, p));
                }
            }
            if crashed {
                // restart: only the disk survives, and everything saved is still there
                cx.fault("restart");
                m = swap(m, from_disk(&now, Plan::default()));
                slots = fresh.clone();
                for (p, k) in &known {
                    P::look(&m, p, k, &when)?;
                }
            }
        }
        let disk = m.with(|w| w.snapshot());
        m = swap(m, from_disk(&disk, Plan::default()));
        for (p, k) in &known {
            P::look(&m, p, k, "at the end")?;
        }
        // saving again makes every file good
        for (p, k) in &known {
            let kind = super::c02::ext_kind(p).unwrap_or(1);
            let i = &fresh[0];
            m.with(|w| w.arm(Plan::default()));
            match calm("saving", || i.save(p))? {
                Ok(()) => {
                    let b = m.with(|w| w.get(p).cloned()).unwrap_or_default();
                    let want = reference(i, &Fmt::of_ext(kind))?;
                    let want = match want {
                        Ok(b) => b,
                        Err(_) => continue,
                    };
                    if b != want {
                        return fail("not-repaired", p.rsplit('.').next().unwrap(), format!("saving {} again left {} bytes instead of the {} of the encoding", p, b.len(), want.len()));
                    }
                    let pic = decoded(&want)?.ok();
                    let g = P::look(&m, p, &Known { sure: pic, maybe: vec![], unsure: false }, "after saving again")?;
                    cx.fp.add(g.map(|i| hash(&i)).unwrap_or(0));
                    if k.unsure {
                        cx.count("damaged files saved again");
                    }
                }
                Err(e) => {
                    if reference(i, &Fmt::of_ext(kind))?.is_ok() {
                        return fail("not-repaired", p.rsplit('.').next().unwrap(), format!("saving {} again gives {}", p, enc_err(&e)));
                    }
                }
            }
        }
        cx.world(&m.stop());
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = a history of up to 14 saves, opens, edits and restarts over up to 4 files of any formats, with crashes (a seeded part of the write in progress on disk), errors, short writes and full disks at seeded calls; after every step the other files are compared byte for byte, after every restart and at the end every file is opened and compared with a model of what was reported; non-trivial when a fault or restart happened",
            real: "d10, d10-ops, d10-codecs, all encoders and decoders, std's File, BufWriter, BufReader",
            stub: "the kernel's file system (simulated disk; data written before a crash survives) and process death",
            secs: (40, 780),
            budget: 8_000_000_000,
            workers: 8,
            assumptions: vec!["a process crash keeps written data in order", "after several failed saves in a row the file may hold any of their pictures"],
        }
    }
}
