//! Python file access reports every failure as an exception.
use super::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simcore::shim::{hex, unhex, ShimIn, ShimOut};
use simcore::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    /// slot, file, format object (None: the extension decides), made without arguments
    Save(u8, u8, Option<Fmt>, bool),
    /// slot, file
    Open(u8, u8),
    /// file, damage to its stored bytes
    Damage(u8, super::c06::Dmg),
    /// file, another program puts a picture there
    Place(u8, ImgSpec, Fmt),
    /// slot, kind, colour: the image object is edited
    Edit(u8, u8, [f32; 4]),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    act: Do,
    plan: PlanSpec,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    imgs: Vec<ImgSpec>,
    names: Vec<String>,
    steps: Vec<Step>,
}

type Disk = BTreeMap<String, Vec<u8>>;

pub fn pic(i: &Image) -> Value {
    let mut b = Vec::with_capacity(i.data().len() * 16);
    for c in i.data() {
        for v in c.data {
            b.extend(v.to_le_bytes());
        }
    }
    json!([i.width(), i.height(), hex(&b)])
}
pub fn unpic(v: &Value) -> Option<Image> {
    let w = v[0].as_u64()? as u32;
    let h = v[1].as_u64()? as u32;
    let b = unhex(v[2].as_str()?);
    if b.len() as u64 != w as u64 * h as u64 * 16 {
        return None;
    }
    let f = |k: usize| f32::from_le_bytes(b[k..k + 4].try_into().unwrap());
    let d = (0..(w * h) as usize).map(|k| Rgb { data: [f(k * 16), f(k * 16 + 4), f(k * 16 + 8), f(k * 16 + 12)] }).collect();
    Some(Image::new_from_raw(w, h, d))
}
use d10::Rgb;

/// Colours made in Python are in range.
pub fn tame(mut i: Image) -> Image {
    for c in i.data_mut() {
        c.data.iter_mut().for_each(|v| *v = v.clamp(0.0, 1.0));
    }
    i
}

fn fmt_args(f: &Fmt) -> Value {
    match *f {
        Fmt::Jpeg { q, prog, sf, gray, opt } => {
            const T: [&str; 16] =
                ["1x1", "2x1", "1x2", "2x2", "4x1", "4x2", "1x4", "2x4", "4:4:4", "4:4:0", "4:4:1", "4:2:2", "4:2:0", "4:2:1", "4:1:1", "4:1:0"];
            let s = if sf == 0 { Value::Null } else { json!(T[(sf as usize - 1) % 16]) };
            json!(["jpeg", [q, prog, s, gray, opt]])
        }
        Fmt::Png { ct, comp, filt } => {
            let ct = ["l8", "la8", "l16", "la16", "rgb8", "rgba8", "rgb16", "rgba16"][ct as usize % 8];
            let comp = ["default", "fast", "best"][comp as usize % 3];
            let filt = ["no_filter", "sub", "up", "avg", "paeth"][filt as usize % 5];
            json!(["png", [ct, comp, filt]])
        }
        Fmt::Gif => json!(["gif", []]),
        Fmt::Bmp { ct } | Fmt::Ico { ct } => {
            let ct = ["l8", "la8", "rgb8", "rgba8"][ct as usize % 4];
            json!([f.name(), [ct]])
        }
        Fmt::WebP { q, preset } => {
            let p = ["default", "picture", "photo", "drawing", "icon", "text", "lossless"][preset as usize % 7];
            json!(["webp", [q, p]])
        }
    }
}

fn world(d: &Disk, plan: Plan) -> World {
    let mut w = World::new();
    for (p, b) in d {
        w.put(p, b.clone());
    }
    w.plan = plan;
    w
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C18";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let imgs = (0..1 + r.below(3))
            .map(|_| {
                let s = if r.chance(1, 2) { Size::Tiny } else { Size::Small };
                ImgSpec::gen(r, s)
            })
            .collect();
        let names: Vec<String> = (0..1 + r.below(3))
            .map(|_| {
                let k = if r.chance(1, 8) { None } else { Some(r.below(6) as u8) };
                super::c02::gen_name(r, k)
            })
            .collect();
        // format objects are used again
        let pool = [Fmt::gen(r), Fmt::gen(r)];
        let n = 1 + r.below(6);
        let steps = (0..n)
            .map(|k| {
                let slot = r.below(3) as u8;
                let file = r.below(3) as u8;
                let act = match r.below(10) {
                    0..=4 => {
                        let fmt = match r.below(4) {
                            0 | 1 => None,
                            2 => Some(Fmt::gen(r)),
                            _ => Some(r.pick(&pool).clone()),
                        };
                        Do::Save(slot, file, fmt, r.chance(1, 10))
                    }
                    5 if k > 0 => Do::Damage(file, super::c06::gen_dmg(r)),
                    7 if k > 0 && r.chance(1, 2) => {
                        let c = [0; 4].map(|_| r.below(1001) as f32 / 1000.0);
                        Do::Edit(slot, r.below(3) as u8, c)
                    }
                    6 => {
                        let i = ImgSpec::gen(r, Size::Tiny).maybe_foreign(r, 1);
                        Do::Place(file, i, Fmt::gen(r))
                    }
                    _ if k == 0 => Do::Save(slot, file, if r.chance(1, 2) { Some(Fmt::gen(r)) } else { None }, false),
                    _ => Do::Open(slot, file),
                };
                let plan = match &act {
                    Do::Save(..) => super::c02::write_plan(r),
                    _ => {
                        let mut p = if r.chance(1, 2) { PlanSpec::benign(r) } else { PlanSpec::default() };
                        if r.chance(1, 2) {
                            let pos = Pos::gen(r);
                            let errno = if matches!(pos, Pos::Abs(0)) { *r.pick(&OPEN_ERRNOS) } else { *r.pick(&READ_ERRNOS) };
                            p.faults.push(FSpec { pos, f: Fault::Err { errno, sticky: r.chance(1, 2) } });
                        }
                        p
                    }
                };
                let plan = if k == 0 && r.chance(1, 2) { PlanSpec::default() } else { plan };
                Step { act, plan }
            })
            .collect();
        Case { imgs, names, steps }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        if c.imgs.is_empty() || c.names.is_empty() {
            return Ok(());
        }
        let mut slots: Vec<Image> = (0..3).map(|k| tame(c.imgs[k % c.imgs.len()].build())).collect();
        let path = |f: u8| format!("{}{}", PREFIX, c.names[f as usize % c.names.len()]);
        let mut disk: Disk = BTreeMap::new();
        disk.insert(format!("{}other.png", PREFIX), b"not touched".to_vec());
        disk.insert(format!("{}dir1/keep", PREFIX), b"not touched either".to_vec());
        let mut fresh = true;
        for (n, s) in c.steps.iter().enumerate() {
            let (op, slot, target, fmt, bare) = match &s.act {
                Do::Damage(f, d) => {
                    if let Some(b) = disk.get_mut(&path(*f)) {
                        super::c06::apply(b, d);
                        cx.fault("stored_bytes_corrupted");
                    }
                    continue;
                }
                Do::Place(f, i, fmt) => {
                    if let Ok(b) = super::stored(i, fmt)? {
                        disk.insert(path(*f), b);
                        cx.count("files by other programs");
                    }
                    continue;
                }
                Do::Edit(k, kind, c) => {
                    let k = *k as usize % 3;
                    let q = json!({"what": "edit", "slot": k, "img": pic(&slots[k]), "kind": kind % 3, "color": c, "reset": fresh});
                    fresh = false;
                    let a = crate::pyhost::ask(&q)?;
                    match kind % 3 {
                        0 if !slots[k].is_empty() => slots[k].put_pixel(0, 0, Rgb { data: *c }),
                        0 => {}
                        1 => slots[k].mod_colors(|c| c.invert()),
                        _ => slots[k] = slots[k].flip_horizontal(),
                    }
                    match unpic(&a["pic"]) {
                        Some(i) if same(&i, &slots[k]) => cx.count("edits"),
                        _ => return fail("edit", "edit", format!("step {}: an edit of the image gave another picture: {}", n, a)),
                    }
                    continue;
                }
                Do::Save(k, f, fmt, bare) => ("save", *k as usize % 3, path(*f), fmt.clone(), *bare),
                Do::Open(k, f) => ("open", *k as usize % 3, path(*f), None, false),
            };
            let bare = bare && matches!(fmt, Some(Fmt::Jpeg { .. } | Fmt::Png { .. } | Fmt::Bmp { .. } | Fmt::Ico { .. }));
            let fmt = if bare { fmt.map(|f| Fmt::of_ext(f.kind())) } else { fmt };
            if op == "open" {
                if let Some(b) = disk.get(&target) {
                    let most = super::c06::declared(b).iter().map(|d| d.0.saturating_mul(d.1)).max().unwrap_or(0);
                    if most > 1 << 14 {
                        cx.count("left_out_large");
                        continue;
                    }
                }
            }
            // what the operation gives without faults, and its calls
            let img = slots[slot].clone();
            let stored = match &fmt {
                Some(f) => Some(f.clone()),
                None => super::c02::ext_kind(&target).map(Fmt::of_ext),
            };
            let want_bytes = match (&stored, op) {
                (Some(f), "save") => reference(&img, f)?.ok(),
                _ => None,
            };
            let want_pic = match (op, disk.get(&target)) {
                ("open", Some(b)) if super::c03::sniff(b).is_some() => decoded(b)?.ok(),
                // unknown contents: the file's extension decides
                ("open", Some(_)) => {
                    let m = Machine::start(world(&disk, Plan::default()));
                    let r = calm("opening", || Image::open(&target))?;
                    m.stop();
                    r.ok()
                }
                _ => None,
            };
            let plan = if s.plan.needs_dry() {
                let m = Machine::start(world(&disk, s.plan.base()));
                if op == "save" {
                    let _ = calm("saving", || match &fmt {
                        Some(f) => img.save_with_format(&target, f.enc()),
                        None => img.save(&target),
                    })?;
                } else {
                    let _ = calm("opening", || Image::open(&target))?;
                }
                let w = m.stop();
                s.plan.resolve(w.n, want_bytes.as_ref().map(|b| b.len() as u64).unwrap_or(0))
            } else {
                s.plan.base()
            };
            let spec = ShimIn {
                files: disk.iter().map(|(p, d)| (p.clone(), hex(d), 0o644)).collect(),
                plan,
                ..Default::default()
            };
            let fa = fmt.as_ref().map(|f| if bare { json!([f.name(), []]) } else { fmt_args(f) });
            let q = json!({"what": "file", "reset": fresh, "slot": slot, "op": op, "path": target, "img": if op == "save" { pic(&img) } else { Value::Null }, "fmt": fa, "spec": spec});
            fresh = false;
            let a = crate::pyhost::ask(&q)?;
            let name = stored.as_ref().map(|f| f.name()).unwrap_or("none");
            let key = format!("{} {}", op, if op == "save" { name } else { "" });
            let when = format!("step {} ({} {}{})", n, op, target, fmt.as_ref().map(|f| format!(" as {:?}", f)).unwrap_or_default());
            if let Some(e) = a.get("fmt_exc") {
                return fail("format-object", key, format!("{}: making the format object raised {}", when, e));
            }
            let Ok(st) = serde_json::from_value::<ShimOut>(a["state"].clone()) else {
                return fail("host", key, format!("{}: no state from the Python host: {}", when, a));
            };
            for (k, v) in &st.fired {
                cx.faults(k, *v);
            }
            cx.syscalls += st.events;
            cx.fp.add(st.fp);
            cx.count(op);
            if cx.verbose {
                cx.notes.push(format!("{} -> {}", when, a["exc"]));
                for e in &st.log {
                    let f = e.fault.map(|f| format!("   injected {:?}", f)).unwrap_or_default();
                    cx.notes.push(format!("syscall {:>3} {:<9} {} arg={} -> {}{}", e.n, e.op.name(), e.what, e.arg, e.ret, f));
                }
            }
            let now: Disk = st.files.iter().map(|(k, v)| (k.clone(), unhex(v))).collect();
            for (p, b) in &disk {
                if (op == "open" || *p != target) && now.get(p) != Some(b) {
                    return fail("other-file", key, format!("{}: {} was changed", when, p));
                }
            }
            for p in now.keys() {
                if !disk.contains_key(p) && (op == "open" || *p != target) {
                    return fail("other-file", key, format!("{}: {} was created", when, p));
                }
            }
            if st.open_fds != 0 {
                return fail("descriptor-leak", key, format!("{}: a descriptor is still open", when));
            }
            let hard: Vec<&HardFault> = st.hard.iter().filter(|h| matches!(h.op, Op::Open | Op::Read | Op::Write | Op::Seek)).collect();
            let zero = st.fired.contains_key("write_zero");
            if let Some(after) = a.get("after") {
                match unpic(after) {
                    Some(i) if same(&i, &img) => {}
                    _ => return fail("image-changed", key, format!("{}: saving changed the image", when)),
                }
            }
            if let Some(e) = a.get("exc") {
                cx.count("exceptions");
                if e["os"] != json!(true) {
                    return fail("not-oserror", format!("{} {}", key, e["type"]), format!("{}: raised {} instead of an OSError", when, e));
                }
                if e["text"].as_str().map(|t| t.trim().is_empty()).unwrap_or(true) {
                    return fail("no-text", key, format!("{}: the exception says nothing", when));
                }
                let fine = if op == "save" { want_bytes.is_some() && !target.contains("missing") } else { want_pic.is_some() };
                if fine && st.hard.is_empty() && !zero {
                    return fail("spurious", key, format!("{}: nothing failed but {} was raised", when, e));
                }
            } else {
                if let Some(h) = hard.first() {
                    return fail("silent", key, format!("{}: {} failed with {} but no exception was raised", when, h.op.name(), errno_name(h.errno)));
                }
                if zero {
                    return fail("silent", key, format!("{}: the disk stopped accepting bytes but no exception was raised", when));
                }
                if op == "save" {
                    if a["ret"] != json!("None") {
                        return fail("result", key, format!("{}: save returned {}", when, a["ret"]));
                    }
                    let Some(w) = want_bytes else {
                        return fail("silent", key, format!("{}: no exception although the picture cannot be saved like this", when));
                    };
                    if now.get(&target) != Some(&w) {
                        return fail("incomplete", key, format!("{}: no exception, but the file has {:?} bytes that are not the {} of the encoding", when, now.get(&target).map(|b| b.len()), w.len()));
                    }
                    cx.count("complete saves");
                } else {
                    let Some(w) = want_pic else {
                        return fail("silent", key, format!("{}: no exception although the stored bytes are no picture", when));
                    };
                    match unpic(&a["pic"]) {
                        Some(i) if same(&i, &w) => {
                            cx.count("pictures opened");
                            if i.width() <= 48 && i.height() <= 48 && !i.is_empty() {
                                slots[slot] = i;
                            }
                        }
                        Some(i) => return fail("different", key, format!("{}: the image differs from the stored one: {}", when, diff(&w, &i))),
                        None => return fail("different", key, format!("{}: the image has a wrong number of pixels", when)),
                    }
                }
            }
            disk = now;
        }
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = a history of up to 6 Python calls of Image.save (with or without a format object, also one used before), Image.open and edits, on image objects that live through the history, over up to 3 files on a simulated disk with short and interrupted transfers, hard errors, full disks and corrupted stored bytes at seeded places; exception classes, file bytes, other files, pixels and descriptors are checked after every call; non-trivial when a fault fired",
            real: "CPython, the d10 extension module built from /repo, all encoders and decoders, std",
            stub: "the kernel's file system (simulated disk preloaded into the interpreter)",
            secs: (40, 780),
            budget: 8_000_000_000,
            workers: 8,
            assumptions: vec!["pictures declared larger than 16384 pixels after corruption are left out (C06 covers them)", "argument errors that are no file access (undecodable path strings) are left out"],
        }
    }
}
