//! Python callbacks and threads never corrupt an image or lose an exception.
use super::c18::{pic, tame, unpic};
use super::*;
use d10::ops::{BalanceMode, BlendOp, DrawingMode, EdgeDetection, EqualizeMode, FilterMode, SaturationMode};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const KINDS: [&str; 45] = [
    "mod", "mod_e", "map", "map_e", "compose", "list", "put", "set", "get", "fliph", "flipv", "rot90", "rot180", "rot270",
    "crop", "blend", "palette", "palette_in", "blur", "interlace", "trans", "gray", "copy", "yield", "channels", "rotate",
    "resize", "pct", "edge", "unsharp", "drawing", "despeckle", "snn", "stretch", "sat", "temp", "temp_opt", "light", "white",
    "balance", "equalize", "jpegq", "quiet_noise", "save", "bad_name",
];
const FILTERS: [FilterMode; 5] = [FilterMode::Nearest, FilterMode::Bilinear, FilterMode::Bicubic, FilterMode::Lanczos3, FilterMode::Auto];
const ACTS: [&str; 10] = ["yield", "raise", "signal", "wrong", "nest", "keep", "scribble", "drop", "clear", "yield"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Act {
    at: u16,
    act: u8,
    x: u8,
    op: Option<Box<POp>>,
    /// an exception of the nested operation leaves the callback
    through: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct POp {
    kind: u8,
    a: u8,
    b: u8,
    x: [u8; 4],
    f: u8,
    tag: u8,
    c: u32,
    /// the slot the resulting image goes to
    into: i8,
    acts: Vec<Act>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    imgs: Vec<ImgSpec>,
    threads: Vec<Vec<POp>>,
}

fn colour(c: u32) -> Rgb {
    let v = |k: u32| ((c >> (8 * k)) & 255) as f32 / 255.0;
    Rgb { data: [v(0), v(1), v(2), v(3)] }
}
use d10::Rgb;
fn hexc(c: &Rgb) -> String {
    simcore::shim::hex(&c.data.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>())
}
fn unhexc(s: &str) -> Rgb {
    let b = simcore::shim::unhex(s);
    let f = |k: usize| f32::from_le_bytes(b.get(k..k + 4).and_then(|x| x.try_into().ok()).unwrap_or_default());
    Rgb { data: [f(0), f(4), f(8), f(12)] }
}

impl POp {
    fn kind(&self) -> &'static str {
        KINDS[self.kind as usize % KINDS.len()]
    }
    fn calls_back(&self) -> bool {
        matches!(self.kind(), "mod" | "mod_e" | "map" | "map_e" | "compose" | "channels")
    }
    fn no_function(&self) -> bool {
        self.calls_back() && self.x[3] % 16 == 15
    }
    fn in_place(&self) -> bool {
        matches!(self.kind(), "mod" | "mod_e")
    }
    fn writes(&self) -> bool {
        matches!(self.kind(), "mod" | "mod_e" | "put" | "set" | "palette_in" | "quiet_noise")
    }
    fn two(&self) -> bool {
        match self.kind() {
            "compose" => self.x[0] % 2 == 1,
            "blend" | "palette" | "palette_in" => true,
            _ => false,
        }
    }
    fn tag(&self) -> f32 {
        (self.tag % 16) as f32 / 16.0
    }
    fn number(&self, next: &mut u64, all: &mut BTreeMap<u64, POp>) -> Value {
        let id = *next;
        *next += 1;
        all.insert(id, self.clone());
        let acts: Vec<Value> = self
            .acts
            .iter()
            .map(|a| {
                let op = match (&a.op, ACTS[a.act as usize % ACTS.len()]) {
                    (Some(o), "nest") => o.number(next, all),
                    _ => Value::Null,
                };
                let mut act = ACTS[a.act as usize % ACTS.len()];
                if act == "nest" && op.is_null() {
                    act = "keep";
                }
                json!({"at": a.at, "act": act, "x": a.x, "op": op, "through": a.through})
            })
            .collect();
        json!({
            "id": id, "kind": self.kind(), "a": self.a, "b": self.b, "x": self.x, "f": self.f % 5, "tag": self.tag(),
            "c": hexc(&colour(self.c)), "into": self.into, "acts": acts,
        })
    }
    fn gen(r: &mut Rng, depth: u32) -> POp {
        let kind = match r.below(20) {
            0..=3 => r.below(2) as u8,
            4..=6 => 2 + r.below(2) as u8,
            7 | 8 => 4,
            9 if depth == 0 => 23,
            10 => 24,
            11..=14 => 25 + r.below(20) as u8,
            _ => 5 + r.below(18) as u8,
        };
        let n = if (kind < 5 || kind == 24) && depth < 3 { *r.pick(&[0, 0, 1, 1, 2, 3, 4]) } else { 0 };
        let acts = (0..n)
            .map(|_| {
                let act = *r.pick(&[0u8, 0, 0, 1, 2, 3, 4, 4, 4, 4, 5, 6, 7, 8]);
                Act {
                    at: {
                        let m = *r.pick(&[1u64, 3, 6, 12]);
                        r.below(m) as u16
                    },
                    act,
                    x: r.below(30) as u8,
                    op: if act == 4 { Some(Box::new(POp::gen(r, depth + 1))) } else { None },
                    through: r.chance(1, 2),
                }
            })
            .collect();
        POp {
            kind,
            a: r.below(3) as u8,
            b: r.below(3) as u8,
            x: [r.below(32) as u8, r.below(32) as u8, r.below(32) as u8, {
                let m = if r.chance(1, 3) { 32 } else { 15 };
                r.below(m) as u8
            }],
            f: r.below(5) as u8,
            tag: r.below(16) as u8,
            c: r.next() as u32,
            into: if r.chance(1, 3) { r.below(3) as i8 } else { -1 },
            acts,
        }
    }
    /// A plain operation through the library, one after the other.
    fn plain(&self, a: &Image, b: &Image) -> Value {
        let x = self.x;
        let (px, py) = (x[0] as u32 % a.width().max(1), x[1] as u32 % a.height().max(1));
        let img = |i: Image| json!({"img": pic(&i)});
        match self.kind() {
            "list" | "copy" => {
                if self.kind() == "list" {
                    json!({"list": pic(a)})
                } else {
                    img(a.clone())
                }
            }
            "get" => json!({"col": hexc(a.get_pixel(px, py))}),
            "fliph" => img(a.flip_horizontal()),
            "flipv" => img(a.flip_vertical()),
            "rot90" => img(a.rotate90()),
            "rot180" => img(a.rotate180()),
            "rot270" => img(a.rotate270()),
            "crop" => img(a.crop(px, py, 1 + x[2] as u32 % 3, 1 + x[3] as u32 % 3)),
            "blend" => {
                let op = match x[0] % 4 {
                    0 => BlendOp::Normal,
                    1 => BlendOp::Addition,
                    2 => BlendOp::Subtract,
                    _ => BlendOp::Darken,
                };
                img(a.blend(b, op, 1.0))
            }
            "palette" => img(a.apply_palette(b)),
            "blur" => img(a.gaussian_blur(1 + x[0] as u32 % 2, None)),
            "rotate" => img(a.rotate(x[0] as f32 / 5.0, FILTERS[x[1] as usize % 5])),
            "resize" => img(a.resize(1 + x[0] as u32 % 6, 1 + x[1] as u32 % 6, FILTERS[x[2] as usize % 5])),
            "pct" => img(a.resize_pct(100.0 + x[0] as f32 * 5.0, FILTERS[x[2] as usize % 5])),
            "edge" => img(a.edge_detection(if x[0] % 2 == 0 { EdgeDetection::Sobel } else { EdgeDetection::Laplace })),
            "unsharp" => img(a.unsharp(1 + x[0] as u32 % 2, x[1] as f32 / 16.0, None)),
            "drawing" => img(a.drawing(1 + x[0] as u32 % 2, [DrawingMode::Colored, DrawingMode::Gray, DrawingMode::ReducedColors][x[1] as usize % 3])),
            "despeckle" => img(a.despeckle(x[0] as f32 / 64.0, x[1] % 9)),
            "snn" => img(a.symmetric_nearest_neighbor(1 + x[0] as usize % 3, x[1] % 2 == 0)),
            "stretch" => img(a.stretch_contrast(x[0] as f32 / 4.0)),
            "sat" => img(a.optimize_saturation(x[0] as f32 / 32.0, [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch][x[1] as usize % 3])),
            "temp" => img(a.change_color_temperature(2000.0 + x[0] as f32 * 200.0, 2000.0 + x[1] as f32 * 200.0, x[2] as f32 / 32.0)),
            "temp_opt" => img(a.optimize_color_temperature(x[0] as f32 / 32.0, x[1] as f32 / 32.0)),
            "light" => img(a.optimize_lightness(x[0] as f32 / 32.0)),
            "white" => img(a.white_balance(x[0] as f32 / 8.0)),
            "balance" => img(a.balance([BalanceMode::Rgb, BalanceMode::Srgb, BalanceMode::Hsv, BalanceMode::Hsl, BalanceMode::Lch][x[0] as usize % 5], x[1] as f32 / 8.0)),
            "equalize" => img(a.equalize([EqualizeMode::Rgb, EqualizeMode::Srgb, EqualizeMode::Saturation, EqualizeMode::Lightness, EqualizeMode::SaturationLightness][x[0] as usize % 5])),
            "jpegq" => img(a.with_jpeg_quality(x[0] * 3, x[1] % 2 == 0)),
            "save" => {
                let stored = match x[0] % 3 {
                    0 => d10::EncodingFormat::from_path(std::path::Path::new("a.png")),
                    1 => d10::EncodingFormat::from_path(std::path::Path::new("a.bmp")),
                    _ => d10::EncodingFormat::from_path(std::path::Path::new("a.ico")),
                };
                match stored.map_err(|_| ()).and_then(|f| a.save_to_buffer(f).map_err(|_| ())).and_then(|b| Image::read_from_buffer(&b).map_err(|_| ())) {
                    Ok(i) => img(i),
                    Err(_) => Value::Null,
                }
            }
            "interlace" => img(a.interlace(x[0] as u32 % 3)),
            "trans" => json!({"bool": a.has_transparency()}),
            "gray" => json!({"bool": a.is_grayscale()}),
            _ => json!({"none": true}),
        }
    }
    /// What an operation in place without callbacks leaves.
    fn change(&self, a: &Image, b: &Image) -> Image {
        let mut i = a.clone();
        match self.kind() {
            "put" | "set" => {
                let (px, py) = (self.x[0] as u32 % a.width().max(1), self.x[1] as u32 % a.height().max(1));
                i.put_pixel(px, py, colour(self.c));
            }
            "palette_in" => i.apply_palette_in_place(b),
            _ => {}
        }
        i
    }
    /// The colour the callback returns.
    fn value(&self, cols: &[Rgb], k: usize) -> Rgb {
        let (a, b) = (cols[0].data, cols[k % cols.len()].data);
        let t = self.tag();
        Rgb {
            data: match self.f % 5 {
                0 => [a[1], b[2], t, a[3]],
                1 => [t, a[1], a[2], b[1]],
                2 => [b[2], a[0], t, 1.0],
                3 => a,
                _ => [t, (k % 7) as f64 as f32 / 7.0, b[0], 0.5],
            },
        }
    }
}

struct Frame {
    tid: u64,
    op: POp,
    objs: Vec<i64>,
    before: Vec<Image>,
    /// the source after a write that happened meanwhile
    alt: Option<(POp, Vec<Image>)>,
    unknown: bool,
    conflict: bool,
    calls: usize,
    outs: Vec<Rgb>,
    last: Last,
    plain_calls: bool,
}
#[derive(Clone, PartialEq)]
enum Last {
    None,
    Value,
    Wrong,
    Raised(u64),
}

struct Model {
    objs: BTreeMap<i64, Option<Image>>,
    frames: BTreeMap<u64, Frame>,
}

fn dims(f: &Frame) -> (u32, u32) {
    (f.before.iter().map(|i| i.width()).max().unwrap_or(0), f.before.iter().map(|i| i.height()).max().unwrap_or(0))
}
fn cols_at(f: &Frame, src: &[Image], k: usize) -> Vec<Rgb> {
    let (w, _) = dims(f);
    let (x, y) = (k as u32 % w.max(1), k as u32 / w.max(1));
    src.iter()
        .map(|i| if x < i.width() && y < i.height() { i.data()[(y * i.width() + x) as usize] } else { colour(f.op.c) })
        .collect()
}

impl Model {
    /// The two possible outcomes of overlapping writes no longer matter.
    fn forget(&mut self, obj: i64) {
        self.objs.remove(&(-2 - obj * 2));
        self.objs.remove(&(-3 - obj * 2));
    }
    fn busy(&self, objs: &[i64], me: u64) -> bool {
        self.frames.iter().any(|(id, f)| *id != me && f.objs.iter().any(|o| objs.contains(o)))
    }
    /// A write by another operation reached this object while `me` was not involved.
    fn disturb(&mut self, obj: i64, by: &POp, after: &Image, me: u64) {
        for (id, f) in self.frames.iter_mut() {
            if *id == me || !f.objs.contains(&obj) {
                continue;
            }
            if f.alt.is_some() || by.calls_back() {
                f.unknown = true;
            } else {
                let src = f.objs.iter().zip(&f.before).map(|(o, b)| if *o == obj { after.clone() } else { b.clone() }).collect();
                f.alt = Some((by.clone(), src));
            }
        }
    }
}

fn eq(a: &[Rgb], b: &[Rgb]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (0..4).all(|k| x.data[k].to_bits() == y.data[k].to_bits()))
}

/// Which NaN comes out is up to the compiler.
fn same_but_nan(a: &Image, b: &Image) -> bool {
    (a.width(), a.height()) == (b.width(), b.height())
        && a.data().len() == b.data().len()
        && a.data().iter().zip(b.data()).all(|(x, y)| (0..4).all(|k| x.data[k].to_bits() == y.data[k].to_bits() || (x.data[k].is_nan() && y.data[k].is_nan())))
}

pub struct P;
impl P {
    fn event(m: &mut Model, ops: &BTreeMap<u64, POp>, ids: &mut Vec<i64>, e: &[Value], cx: &mut Ctx) -> Res {
        let s = e.first().and_then(|v| v.as_str()).unwrap_or("");
        let num = |k: usize| e.get(k).and_then(|v| v.as_i64()).unwrap_or(-1);
        let key = |op: &POp| op.kind().to_string();
        match s {
            "B" => {
                let id = num(2) as u64;
                let op = ops[&id].clone();
                let mut objs = vec![num(3)];
                if op.two() {
                    objs.push(num(4));
                }
                if num(3) < 0 || num(4) < 0 {
                    return Ok(());
                }
                if op.writes() {
                    m.forget(objs[0]);
                }
                let mut unknown = false;
                let before = objs
                    .iter()
                    .map(|o| match m.objs.get(o) {
                        Some(Some(i)) => i.clone(),
                        _ => {
                            unknown = true;
                            Image::new(1, 1)
                        }
                    })
                    .collect();
                let mut before: Vec<Image> = before;
                let conflict = m.busy(&objs, id) || (op.kind() == "palette_in" && objs[0] == objs[1]);
                if conflict {
                    cx.count("operations on an image in use");
                }
                if m.frames.values().any(|f| f.tid != num(1) as u64) {
                    cx.count("operations while another thread is inside one");
                }
                cx.count(op.kind());
                if op.kind() == "channels" {
                    // the callback gets the channels of a copy of one pixel
                    let i = &before[0];
                    let c = *i.get_pixel(op.x[0] as u32 % i.width().max(1), op.x[1] as u32 % i.height().max(1));
                    before = vec![Image::new_from_raw(3, 1, (0..3).map(|k| Rgb { data: [c.data[k], c.data[k], c.data[k], c.data[3]] }).collect())];
                    objs = vec![];
                }
                m.frames.insert(
                    id,
                    Frame { tid: num(1) as u64, op, objs, before, alt: None, unknown, conflict, calls: 0, outs: vec![], last: Last::None, plain_calls: true },
                );
                Ok(())
            }
            "C" => {
                let Some(f) = m.frames.get_mut(&(num(1) as u64)) else { return fail("trace", "trace", "a callback of no operation") };
                let k = num(2) as usize;
                let (w, h) = dims(f);
                if f.last == Last::Wrong || matches!(f.last, Last::Raised(_)) {
                    return fail("called-again", key(&f.op), format!("{}: the callback was called again after it failed", f.op.kind()));
                }
                if f.unknown {
                    f.calls += 1;
                    return Ok(());
                }
                if k != f.calls || k as u64 >= w as u64 * h as u64 {
                    return fail("order", key(&f.op), format!("{}: call {} of {} pixels", f.op.kind(), k, w * h));
                }
                f.calls += 1;
                if matches!(f.op.kind(), "mod_e" | "map_e" | "compose") {
                    let at = [k as u32 % w, k as u32 / w];
                    let got: Vec<u32> = e[3].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
                    if got != at {
                        return fail("order", key(&f.op), format!("{}: call {} is for {:?} instead of {:?}", f.op.kind(), k, got, at));
                    }
                }
                let got: Vec<Rgb> = e[4].as_array().map(|a| a.iter().map(|v| unhexc(v.as_str().unwrap_or(""))).collect()).unwrap_or_default();
                let want = cols_at(f, &f.before, k);
                if eq(&got, &want) {
                    return Ok(());
                }
                if let Some((_, alt)) = &f.alt {
                    if eq(&got, &cols_at(f, alt, k)) {
                        return Ok(());
                    }
                }
                fail("argument", key(&f.op), format!("{}: call {} got {:?} instead of {:?}", f.op.kind(), k, got, want))
            }
            "S" => {
                if let Some(f) = m.frames.get_mut(&(num(1) as u64)) {
                    f.plain_calls = false;
                }
                Ok(())
            }
            "R" | "W" | "X" => {
                let Some(f) = m.frames.get_mut(&(num(1) as u64)) else { return fail("trace", "trace", "a callback of no operation") };
                match s {
                    "R" => {
                        f.outs.push(unhexc(e[3].as_str().unwrap_or("")));
                        f.last = Last::Value;
                    }
                    "W" => {
                        f.last = Last::Wrong;
                        cx.fault("callback_wrong_type");
                    }
                    _ => {
                        f.last = Last::Raised(num(3) as u64);
                        cx.fault("callback_raised");
                    }
                }
                Ok(())
            }
            "D" => {
                if let Some(i) = ids.get_mut(num(1) as usize) {
                    *i = -1;
                }
                cx.fault("image_dropped_by_callback");
                Ok(())
            }
            "E" => {
                let id = num(1) as u64;
                let Some(f) = m.frames.remove(&id) else { return Ok(()) };
                if f.op.writes() {
                    m.forget(f.objs[0]);
                }
                let v = &e[3];
                let name = f.op.kind();
                let (w, h) = dims(&f);
                let n = (w * h) as usize;
                let here = m.busy(&f.objs, id);
                if e[2] == json!("ok") {
                    let into = v.get("slot").and_then(|s| s.as_u64());
                    let got = v.get("img").and_then(unpic);
                    if let Some(s) = into {
                        let as_ = v["as"].as_i64().unwrap_or(-1);
                        if let Some(x) = ids.get_mut(s as usize) {
                            *x = as_;
                        }
                        m.objs.insert(as_, got.clone());
                    }
                    if f.op.no_function() {
                        return fail("accepted", key(&f.op), format!("{}: something that is no function was accepted", name));
                    }
                    if name == "bad_name" {
                        return fail("accepted", key(&f.op), "an unknown option name was accepted");
                    }
                    if f.op.calls_back() {
                        match f.last {
                            Last::Raised(x) => return fail("lost-exception", key(&f.op), format!("{}: the callback raised exception {} at call {} but the operation succeeded", name, x, f.calls)),
                            Last::Wrong => return fail("wrong-type", key(&f.op), format!("{}: the callback returned a wrong type at call {} but the operation succeeded", name, f.calls)),
                            _ => {}
                        }
                    }
                    if f.unknown {
                        cx.count("unjudged");
                        if f.op.writes() {
                            m.objs.insert(f.objs[0], None);
                        }
                        return Ok(());
                    }
                    if f.op.calls_back() {
                        if f.calls != n || f.outs.len() != n {
                            return fail("calls", key(&f.op), format!("{}: {} calls for {} pixels", name, f.calls, n));
                        }
                        if f.op.in_place() {
                            if let Some((by, src)) = &f.alt {
                                // another write came through: one of the two orders
                                if !f.plain_calls {
                                    m.objs.insert(f.objs[0], None);
                                    return Ok(());
                                }
                                let run = |src: &Image| Image::new_from_raw(w, h, src.data().iter().enumerate().map(|(k, c)| f.op.value(&[*c], k)).collect());
                                let first = by.change(&run(&f.before[0]), &f.before[0]);
                                let second = run(&src[0]);
                                m.objs.insert(f.objs[0], None);
                                m.objs.insert(-2 - f.objs[0] * 2, Some(first));
                                m.objs.insert(-3 - f.objs[0] * 2, Some(second));
                                return Ok(());
                            }
                            let i = Image::new_from_raw(w, h, f.outs.clone());
                            m.disturb(f.objs[0], &f.op, &i, id);
                            m.objs.insert(f.objs[0], Some(i));
                            cx.count("in-place operations completed");
                            return Ok(());
                        }
                        if name == "channels" {
                            let c = f.before[0].data()[0].data[3];
                            let d: Vec<f32> = f.outs.iter().map(|o| o.data[0]).chain([c]).map(|v| v.clamp(0.0, 1.0)).collect();
                            let want = Rgb { data: [d[0], d[1], d[2], d[3]] };
                            let have = unhexc(v["col"].as_str().unwrap_or(""));
                            if !eq(&[have], &[want]) {
                                return fail("result", key(&f.op), format!("{}: {:?} instead of {:?}", name, have, want));
                            }
                            cx.count("mapped colours");
                            return Ok(());
                        }
                        let Some(g) = got else { return fail("result", key(&f.op), format!("{}: no image came back", name)) };
                        if (g.width(), g.height()) != (w, h) || !eq(g.data(), &f.outs) {
                            return fail("result", key(&f.op), format!("{}: the result is not what the callback returned: {}", name, diff(&Image::new_from_raw(w, h, f.outs.clone()), &g)));
                        }
                        cx.count("mapped images");
                        return Ok(());
                    }
                    let b = f.before.get(1).unwrap_or(&f.before[0]);
                    let want = f.op.plain(&f.before[0], b);
                    let mut have = v.clone();
                    if let Some(o) = have.as_object_mut() {
                        o.remove("slot");
                        o.remove("as");
                    }
                    let alike = match (want.get("img").and_then(unpic), &got) {
                        (Some(a), Some(b)) => same_but_nan(&a, b),
                        _ => false,
                    };
                    if have != want && !alike {
                        let d = match (want.get("img").and_then(unpic), got) {
                            (Some(a), Some(b)) => diff(&a, &b),
                            _ => format!("{} instead of {}", have, want),
                        };
                        return fail("mixed", key(&f.op), format!("{}: the result is not that of the operations one after the other: {}", name, d));
                    }
                    let odd = |i: &Image| i.data().iter().any(|c| c.data.iter().any(|v| !(0.0..=1.0).contains(v)));
                    if name == "quiet_noise" && odd(&f.before[0]) {
                        // colours out of range may be clamped
                        for g in m.frames.values_mut().filter(|g| g.objs.contains(&f.objs[0])) {
                            g.unknown = true;
                        }
                        m.objs.insert(f.objs[0], None);
                    } else if f.op.writes() {
                        let i = f.op.change(&f.before[0], b);
                        m.disturb(f.objs[0], &f.op, &i, id);
                        m.objs.insert(f.objs[0], Some(i));
                    }
                    return Ok(());
                }
                if e[2] == json!("skipped") {
                    return Ok(());
                }
                // an exception
                let what = format!("{} ({})", v["type"].as_str().unwrap_or("?"), v["text"].as_str().unwrap_or(""));
                cx.count("exceptions");
                let raised = match f.last {
                    Last::Raised(x) => Some(x),
                    _ => None,
                };
                if let Some(x) = raised {
                    if v["id"].as_u64() != Some(x) {
                        return fail("replaced-exception", key(&f.op), format!("{}: the callback raised exception {} but {} came out", name, x, what));
                    }
                } else if v["plain"] != json!(true) {
                    return fail("internal-panic", key(&f.op), format!("{}: {} is no ordinary exception", name, what));
                } else if f.last != Last::Wrong && !f.op.no_function() && name != "bad_name" && !f.conflict && !here {
                    return fail("spurious", key(&f.op), format!("{}: raised {} although nothing else used the image", name, what));
                }
                if f.op.in_place() {
                    if f.unknown || f.alt.is_some() || (raised.is_none() && f.last == Last::Value) {
                        m.objs.insert(f.objs[0], None);
                        return Ok(());
                    }
                    let mut d = f.before[0].data().to_vec();
                    d[..f.outs.len()].copy_from_slice(&f.outs);
                    let i = Image::new_from_raw(w, h, d);
                    if !f.outs.is_empty() {
                        m.disturb(f.objs[0], &f.op, &i, id);
                    }
                    m.objs.insert(f.objs[0], Some(i));
                }
                Ok(())
            }
            _ => fail("trace", "trace", format!("unknown event {:?}", e)),
        }
    }
}
impl Prop for P {
    const ID: &'static str = "C12";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let imgs = (0..3)
            .map(|_| {
                let mut i = ImgSpec::gen(r, Size::Tiny);
                i.w = 1 + r.below(4) as u32;
                i.h = 1 + r.below(3) as u32;
                i
            })
            .collect();
        let n = *r.pick(&[1, 1, 2, 2, 3]);
        let threads = (0..n).map(|_| (0..1 + r.below(5)).map(|_| POp::gen(r, 0)).collect()).collect();
        Case { imgs, threads }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        if c.imgs.is_empty() || c.threads.is_empty() || c.threads.len() > 8 {
            return Ok(());
        }
        let imgs: Vec<Image> = (0..3)
            .map(|k| {
                let mut s = c.imgs[k % c.imgs.len()].clone();
                s.w = s.w.clamp(1, 16);
                s.h = s.h.clamp(1, 16);
                tame(s.build())
            })
            .collect();
        let mut next = 0;
        let mut ops = BTreeMap::new();
        let threads: Vec<Vec<Value>> = c.threads.iter().map(|t| t.iter().map(|o| o.number(&mut next, &mut ops)).collect()).collect();
        let q = json!({"what": "run", "imgs": imgs.iter().map(pic).collect::<Vec<_>>(), "threads": threads});
        let a = crate::pyhost::ask(&q)?;
        let Some(trace) = a["trace"].as_array() else {
            return fail("host", "host", format!("no trace from the Python host: {}", a));
        };
        let mut m = Model { objs: imgs.iter().cloned().enumerate().map(|(k, i)| (k as i64, Some(i))).collect(), frames: BTreeMap::new() };
        let mut ids: Vec<i64> = (0..3).collect();
        cx.syscalls += trace.len() as u64;
        if c.threads.len() > 1 {
            cx.count("runs with several threads");
        }
        for e in trace {
            let Some(v) = e.as_array() else { continue };
            cx.fp.bytes(serde_json::to_string(e).unwrap().as_bytes());
            if cx.verbose {
                cx.notes.push(e.to_string());
            }
            P::event(&mut m, &ops, &mut ids, v, cx)?;
        }
        if let Some((id, f)) = m.frames.iter().next() {
            return fail("unfinished", f.op.kind(), format!("operation {} ({}) never ended", id, f.op.kind()));
        }
        let end = a["end"].as_array().cloned().unwrap_or_default();
        for (s, v) in end.iter().enumerate() {
            let id = ids.get(s).copied().unwrap_or(-1);
            if id < 0 || v.is_null() {
                continue;
            }
            if let Some(x) = v.get("exc") {
                return fail("unusable", "unusable", format!("the image in slot {} cannot be used any more: {}", s, x));
            }
            let (Some(i), Some(put)) = (unpic(&v["img"]), unpic(&v["put"])) else {
                return fail("malformed", "malformed", format!("the image in slot {} has a wrong number of pixels", s));
            };
            cx.fp.add(hash(&i));
            match m.objs.get(&id) {
                Some(Some(w)) if !same(w, &i) => return fail("mixed", "final", format!("at the end the image in slot {} differs: {}", s, diff(w, &i))),
                _ => {}
            }
            if let (Some(Some(x)), Some(Some(y))) = (m.objs.get(&(-2 - id * 2)), m.objs.get(&(-3 - id * 2))) {
                if !same(x, &i) && !same(y, &i) {
                    return fail("mixed", "final", format!("at the end the image in slot {} is the result of neither order of two overlapping writes: {} / {}", s, diff(x, &i), diff(y, &i)));
                }
            }
            if put.data().iter().any(|c| c.data != [0.25, 0.5, 0.75, 1.0]) || (put.width(), put.height()) != (i.width(), i.height()) {
                return fail("unusable", "unusable", format!("the image in slot {} no longer takes new pixels", s));
            }
        }
        cx.nontrivial |= trace.len() > 2;
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = up to three Python threads with up to five operations each on three shared images; the callbacks raise (11 exception classes, signals), return wrong types, pass control to another thread, use the same images again (three levels deep), change or keep their arguments, drop the images or clear the list given to compose, each at a seeded call; the recorded history is checked against the operations run one after the other; non-trivial when an operation ran",
            real: "CPython, its threads, the d10 extension module built from /repo, PyO3",
            stub: "the choice which thread runs next (a baton passed at seeded callback calls)",
            secs: (40, 780),
            budget: 8_000_000_000,
            workers: 8,
            assumptions: vec![
                "only one Python thread holds the baton; a switch happens inside callbacks and between operations, the places where the extension gives up the interpreter",
                "an operation on an image in use may raise any ordinary exception",
            ],
        }
    }
}
