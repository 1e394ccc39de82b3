//! Per-pixel callbacks run in order, once each, and stop at the first failure.
use super::*;
use d10::{ops, Color, Hsl, PixelBuffer, Rgb, Srgb};
use serde::{Deserialize, Serialize};
use simcore::rng::mix2;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fate {
    /// the callback always succeeds
    Fine,
    /// it returns an error at this call
    Err(Pos),
    /// it panics at this call
    Panic(Pos),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// operation
    op: u8,
    /// 0 Image, 1 buffer of linear colours, 2 buffer of another colour type
    ty: u8,
    imgs: Vec<ImgSpec>,
    /// which source is empty (0x0), if any
    empty: Option<u8>,
    seed: u64,
    fate: Fate,
    /// at this call the callback itself runs a callback operation
    nested: Option<Pos>,
}

#[derive(Debug, PartialEq)]
struct Token(u64);

/// What one callback call got.
type Call = (u32, u32, Vec<[u32; 4]>);

struct Probe {
    calls: RefCell<Vec<Call>>,
    n: Cell<usize>,
    fail_at: Option<usize>,
    panic_at: Option<usize>,
    nest_at: Option<usize>,
    nest_bad: Cell<bool>,
    seed: u64,
    /// number of calls after the one that failed
    late: Cell<usize>,
    total: usize,
}

fn bits4(d: &[f32]) -> [u32; 4] {
    [d[0].to_bits(), d[1].to_bits(), d[2].to_bits(), d[3].to_bits()]
}

/// The colour the callback returns at call `i`.
fn answer(seed: u64, i: usize, first: &[f32]) -> [f32; 4] {
    let h = mix2(seed, i as u64);
    if h % 5 == 0 {
        // sometimes the colour it got
        return [first[0], first[1], first[2], first[3]];
    }
    let mut o = [0.0f32; 4];
    for (k, v) in o.iter_mut().enumerate() {
        *v = (mix2(h, k as u64) % 4096) as f32 / 2048.0 - 0.5;
    }
    o
}

impl Probe {
    fn call(&self, x: u32, y: u32, cs: &[[f32; 4]]) -> Result<[f32; 4], Token> {
        let i = self.n.get();
        self.n.set(i + 1);
        if self.fail_at.map(|f| i > f) == Some(true) || self.panic_at.map(|f| i > f) == Some(true) {
            self.late.set(self.late.get() + 1);
        }
        if self.n.get() > self.total + 1000 {
            panic!("called far too often");
        }
        self.calls.borrow_mut().push((x, y, cs.iter().map(|c| bits4(c)).collect()));
        if self.nest_at == Some(i) {
            // an independent operation inside the callback
            let inner = PixelBuffer::<Rgb>::new_with_color(3, 2, Rgb::RED);
            let r = inner.map_colors_enumerated(|x, y, c| Rgb { data: [x as f32, y as f32, c.data[0], 1.0] });
            let e = inner.try_map_colors::<u8, _, Rgb>(|_| Err(7));
            let good = r.data()[5].data == [2.0, 1.0, 1.0, 1.0] && matches!(e, Err(7)) && r.data().len() == 6;
            self.nest_bad.set(!good);
        }
        if self.fail_at == Some(i) {
            return Err(Token(self.seed));
        }
        if self.panic_at == Some(i) {
            std::panic::panic_any(Token(self.seed ^ 1));
        }
        Ok(answer(self.seed, i, cs.first().map(|c| &c[..]).unwrap_or(&[0.0; 4])))
    }
}

/// How the call ended.
enum End<T> {
    Done(T),
    Failed(Token),
    Panicked(Box<dyn std::any::Any + Send>),
}

fn ended<T>(f: impl FnOnce() -> Result<T, Token>) -> End<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => End::Done(v),
        Ok(Err(t)) => End::Failed(t),
        Err(p) => {
            let _ = last_panic();
            End::Panicked(p)
        }
    }
}

trait Col: Color {
    fn of(d: [f32; 4]) -> Self;
    fn arr(&self) -> [f32; 4] {
        let d = self.data();
        [d[0], d[1], d[2], d[3]]
    }
}
impl Col for Rgb {
    fn of(d: [f32; 4]) -> Rgb {
        Rgb { data: d }
    }
}
impl Col for Hsl {
    fn of(d: [f32; 4]) -> Hsl {
        Hsl { data: d }
    }
}
impl Col for Srgb {
    fn of(d: [f32; 4]) -> Srgb {
        Srgb { data: d }
    }
}

fn same_buf<C: Col>(a: &PixelBuffer<C>, w: u32, h: u32, d: &[[f32; 4]]) -> Result<(), String> {
    if a.width() != w || a.height() != h {
        return Err(format!("{}x{} instead of {}x{}", a.width(), a.height(), w, h));
    }
    if a.data().len() != d.len() {
        return Err(format!("{} pixels instead of {}", a.data().len(), d.len()));
    }
    for (i, (x, y)) in a.data().iter().zip(d).enumerate() {
        if bits4(x.data()) != bits4(y) {
            return Err(format!("pixel ({},{}) is {:?} instead of {:?}", i as u32 % w, i as u32 / w, x.data(), y));
        }
    }
    Ok(())
}

pub const OPS: u8 = 16;
const NAMES: [&str; 16] = [
    "mod_colors",
    "try_mod_colors",
    "mod_colors_enumerated",
    "try_mod_colors_enumerated",
    "map_colors",
    "try_map_colors",
    "map_colors_enumerated",
    "try_map_colors_enumerated",
    "compose",
    "try_compose",
    "compose_slice",
    "try_compose_slice",
    "new_from_func",
    "try_new_from_func",
    "map_colors to another type",
    "try_map_colors to another type",
];

fn go<C: Col>(c: &Case, cx: &mut Ctx, image: bool) -> Res {
    let op = c.op % OPS;
    let name = NAMES[op as usize];
    let key = name;
    // sources
    let mut srcs: Vec<PixelBuffer<C>> = vec![];
    let many = (8..12).contains(&op);
    let used = if many { c.imgs.len().clamp(1, 4) } else { 1 };
    for (k, s) in c.imgs.iter().enumerate().take(used) {
        if c.empty == Some(k as u8) {
            srcs.push(PixelBuffer::new(0, 0));
        } else {
            let i = s.build();
            let d = i.data().iter().map(|p| C::of(p.data)).collect();
            srcs.push(PixelBuffer::new_from_raw(i.width(), i.height(), d));
        }
    }
    if srcs.is_empty() {
        return Ok(());
    }
    let orig: Vec<Vec<[f32; 4]>> = srcs.iter().map(|s| s.data().iter().map(|p| p.arr()).collect()).collect();
    let dims: Vec<(u32, u32)> = srcs.iter().map(|s| (s.width(), s.height())).collect();
    let (w, h) = (dims.iter().map(|d| d.0).max().unwrap(), dims.iter().map(|d| d.1).max().unwrap());
    let total = w as usize * h as usize;
    let may_err = matches!(op, 1 | 3 | 5 | 7 | 9 | 11 | 13 | 15);
    let at = |p: Pos| -> Option<usize> {
        let k = p.at(total as u64) as usize;
        if k < total {
            Some(k)
        } else {
            None
        }
    };
    let (fail_at, panic_at) = match c.fate {
        Fate::Fine => (None, None),
        Fate::Err(p) if may_err => (at(p), None),
        Fate::Err(p) | Fate::Panic(p) => (None, at(p)),
    };
    let pr = Probe {
        calls: RefCell::new(vec![]),
        n: Cell::new(0),
        fail_at,
        panic_at,
        nest_at: c.nested.and_then(at),
        nest_bad: Cell::new(false),
        seed: c.seed,
        late: Cell::new(0),
        total,
    };
    let default = C::of([0.25, 0.5, 0.75, 0.125]);
    // expected arguments of call i
    let has_xy = !matches!(op, 0 | 1 | 4 | 5 | 14 | 15);
    let want_call = |i: usize| -> Call {
        let (x, y) = (i as u32 % w.max(1), i as u32 / w.max(1));
        let cs: Vec<[u32; 4]> = if op == 12 || op == 13 {
            vec![]
        } else if many {
            (0..used)
                .map(|k| {
                    let (sw, sh) = dims[k];
                    if x < sw && y < sh {
                        bits4(&orig[k][(x + y * sw) as usize])
                    } else {
                        bits4(default.data())
                    }
                })
                .collect()
        } else {
            vec![bits4(&orig[0][i])]
        };
        if has_xy {
            (x, y, cs)
        } else {
            (0, 0, cs)
        }
    };
    let plain = |r: Result<[f32; 4], Token>| -> C { C::of(r.unwrap_or([0.0; 4])) };
    let src = srcs[0].clone();
    let mut inplace = srcs[0].clone();
    let in_place = op < 4;
    let refs: Vec<&PixelBuffer<C>> = srcs.iter().collect();
    macro_rules! arr {
        ($n:literal) => {{
            let mut i = 0;
            [(); $n].map(|_| {
                i += 1;
                refs[i - 1]
            })
        }};
    }
    // what a new buffer holds, as arrays
    fn out<C: Col>(b: PixelBuffer<C>) -> (u32, u32, Vec<[f32; 4]>) {
        (b.width(), b.height(), b.data().iter().map(|p| p.arr()).collect())
    }
    let one = |p: &C| pr.call(0, 0, &[p.arr()]);
    let xy = |x: u32, y: u32, p: &C| pr.call(x, y, &[p.arr()]);
    let end: End<Option<(u32, u32, Vec<[f32; 4]>)>> = if image {
        // the same through Image (linear colours)
        let to = |b: &PixelBuffer<C>| {
            Image::new_from_raw(b.width(), b.height(), b.data().iter().map(|p| Rgb { data: p.arr() }).collect())
        };
        let imgs: Vec<Image> = srcs.iter().map(to).collect();
        let keep = imgs.clone();
        let irefs: Vec<&Image> = imgs.iter().collect();
        macro_rules! iarr {
            ($n:literal) => {{
                let mut i = 0;
                [(); $n].map(|_| {
                    i += 1;
                    irefs[i - 1]
                })
            }};
        }
        let d = Rgb { data: default.arr() };
        let rgb = |r: Result<[f32; 4], Token>| r.map(|d| Rgb { data: d });
        let prgb = |r: Result<[f32; 4], Token>| Rgb { data: r.unwrap_or([0.0; 4]) };
        let o = |i: Image| Some((i.width(), i.height(), i.data().iter().map(|p| p.data).collect::<Vec<_>>()));
        let one = |p: &Rgb| pr.call(0, 0, &[p.data]);
        let xy = |x: u32, y: u32, p: &Rgb| pr.call(x, y, &[p.data]);
        let many_ = |x: u32, y: u32, p: &[Rgb]| pr.call(x, y, &p.iter().map(|c| c.data).collect::<Vec<_>>());
        let mut im = imgs[0].clone();
        let e = ended(|| match op {
            0 => {
                im.mod_colors(|p| prgb(one(p)));
                Ok(None)
            }
            1 => im.try_mod_colors(|p| rgb(one(p))).map(|_| None),
            2 => {
                im.mod_colors_enumerated(|x, y, p| prgb(xy(x, y, p)));
                Ok(None)
            }
            3 => im.try_mod_colors_enumerated(|x, y, p| rgb(xy(x, y, p))).map(|_| None),
            4 | 14 => Ok(o(imgs[0].map_colors(|p| prgb(one(p))))),
            5 | 15 => imgs[0].try_map_colors(|p| rgb(one(p))).map(o),
            6 | 12 => Ok(o(imgs[0].map_colors_enumerated(|x, y, p| prgb(xy(x, y, if op == 12 { p } else { p }))))),
            7 | 13 => imgs[0].try_map_colors_enumerated(|x, y, p| rgb(xy(x, y, p))).map(o),
            8 => Ok(o(match used {
                1 => Image::compose(iarr!(1), d, |x, y, p| prgb(many_(x, y, &p))),
                2 => Image::compose(iarr!(2), d, |x, y, p| prgb(many_(x, y, &p))),
                3 => Image::compose(iarr!(3), d, |x, y, p| prgb(many_(x, y, &p))),
                _ => Image::compose(iarr!(4), d, |x, y, p| prgb(many_(x, y, &p))),
            })),
            9 => match used {
                1 => Image::try_compose(iarr!(1), d, |x, y, p| rgb(many_(x, y, &p))).map(o),
                2 => Image::try_compose(iarr!(2), d, |x, y, p| rgb(many_(x, y, &p))).map(o),
                3 => Image::try_compose(iarr!(3), d, |x, y, p| rgb(many_(x, y, &p))).map(o),
                _ => Image::try_compose(iarr!(4), d, |x, y, p| rgb(many_(x, y, &p))).map(o),
            },
            10 => Ok(o(Image::compose_slice(&irefs, d, |x, y, p| prgb(many_(x, y, p))))),
            _ => Image::try_compose_slice(&irefs, d, |x, y, p| rgb(many_(x, y, p))).map(o),
        });
        for (a, b) in keep.iter().zip(&imgs) {
            if !same(a, b) {
                return fail("source-changed", key, format!("{} changed a source: {}", name, diff(a, b)));
            }
        }
        if in_place {
            if im.width() != w || im.height() != h || im.data().len() != total {
                return fail("wrong-size", key, format!("{} left a {}x{} image", name, im.width(), im.height()));
            }
            for (p, q) in inplace.data_mut().iter_mut().zip(im.data()) {
                *p = C::of(q.data);
            }
        }
        e
    } else {
        let many_ = |x: u32, y: u32, p: &[C]| pr.call(x, y, &p.iter().map(|c| c.arr()).collect::<Vec<_>>());
        let col = |r: Result<[f32; 4], Token>| r.map(C::of);
        let o = |b| Some(out::<C>(b));
        ended(|| match op {
            0 => {
                inplace.mod_colors(|p| plain(one(p)));
                Ok(None)
            }
            1 => inplace.try_mod_colors(|p| col(one(p))).map(|_| None),
            2 => {
                inplace.mod_colors_enumerated(|x, y, p| plain(xy(x, y, p)));
                Ok(None)
            }
            3 => inplace.try_mod_colors_enumerated(|x, y, p| col(xy(x, y, p))).map(|_| None),
            4 => Ok(o(srcs[0].map_colors(|p| plain(one(p))))),
            5 => srcs[0].try_map_colors(|p| col(one(p))).map(o),
            6 => Ok(o(srcs[0].map_colors_enumerated(|x, y, p| plain(xy(x, y, p))))),
            7 => srcs[0].try_map_colors_enumerated(|x, y, p| col(xy(x, y, p))).map(o),
            8 => Ok(o(match used {
                1 => ops::compose(arr!(1), default, |x, y, p| plain(many_(x, y, &p))),
                2 => ops::compose(arr!(2), default, |x, y, p| plain(many_(x, y, &p))),
                3 => ops::compose(arr!(3), default, |x, y, p| plain(many_(x, y, &p))),
                _ => ops::compose(arr!(4), default, |x, y, p| plain(many_(x, y, &p))),
            })),
            9 => match used {
                1 => ops::try_compose(arr!(1), default, |x, y, p| col(many_(x, y, &p))).map(o),
                2 => ops::try_compose(arr!(2), default, |x, y, p| col(many_(x, y, &p))).map(o),
                3 => ops::try_compose(arr!(3), default, |x, y, p| col(many_(x, y, &p))).map(o),
                _ => ops::try_compose(arr!(4), default, |x, y, p| col(many_(x, y, &p))).map(o),
            },
            10 => Ok(o(ops::compose_slice(&refs, default, |x, y, p| plain(many_(x, y, p))))),
            11 => ops::try_compose_slice(&refs, default, |x, y, p| col(many_(x, y, p))).map(o),
            12 => Ok(o(PixelBuffer::<C>::new_from_func(w, h, |x, y| plain(pr.call(x, y, &[]))))),
            13 => PixelBuffer::<C>::try_new_from_func(w, h, |x, y| col(pr.call(x, y, &[]))).map(o),
            14 => Ok(Some(out(srcs[0].map_colors(|p| Srgb::of(one(p).unwrap_or([0.0; 4])))))),
            _ => srcs[0].try_map_colors(|p| one(p).map(Srgb::of)).map(|b| Some(out(b))),
        })
    };
    // Image has no new_from_func: there 12 and 13 are the enumerated maps again
    let from_func = !image && (op == 12 || op == 13);
    let calls = pr.calls.borrow();
    cx.fp.add(op as u64);
    cx.fp.add(calls.len() as u64);
    cx.fp.add(c.seed);
    cx.count(name);
    // how it ended
    let stop = fail_at.or(panic_at);
    let got = match end {
        End::Done(v) => {
            if let Some(k) = stop {
                return fail("failure-lost", key, format!("{} of {}x{}: the callback failed at call {} but the operation ended normally", name, w, h, k));
            }
            v
        }
        End::Failed(t) => {
            cx.fault("callback_error");
            if fail_at.is_none() {
                return fail("spurious-failure", key, format!("{} returned an error although the callback did not", name));
            }
            if t != Token(c.seed) {
                return fail("failure-changed", key, format!("{} returned another error", name));
            }
            None
        }
        End::Panicked(p) => {
            cx.fault("callback_panic");
            match p.downcast_ref::<Token>() {
                Some(t) if panic_at.is_some() && *t == Token(c.seed ^ 1) => {}
                _ => {
                    let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
                    return fail("panic", key, format!("{} of {}x{} panicked: {}", name, w, h, m.unwrap_or_default()));
                }
            }
            None
        }
    };
    if pr.nest_at.is_some() && pr.nest_at.unwrap() < calls.len() {
        cx.fault("nested_operation");
        if pr.nest_bad.get() {
            return fail("nested-wrong", key, format!("an operation inside the callback of {} gave a wrong result", name));
        }
    }
    // the calls
    if pr.late.get() > 0 {
        return fail("late-call", key, format!("{} called back {} times after the failure at call {:?}", name, pr.late.get(), stop));
    }
    let expected = stop.map(|k| k + 1).unwrap_or(total);
    if calls.len() != expected {
        return fail("wrong-call-count", key, format!("{} of {}x{} made {} calls instead of {}", name, w, h, calls.len(), expected));
    }
    for (i, g) in calls.iter().enumerate() {
        let mut e = want_call(i);
        if from_func {
            e.2 = vec![];
        } else if image && (op == 12 || op == 13) {
            e.2 = vec![bits4(&orig[0][i])];
        }
        if *g != e {
            return fail("wrong-arguments", key, format!("call {} of {} got {:?} instead of {:?}", i, name, g, e));
        }
    }
    let ans = |i: usize| -> [f32; 4] {
        if from_func {
            answer(c.seed, i, &[0.0; 4])
        } else {
            let f = want_call(i);
            let first: [f32; 4] = if image && (op == 12 || op == 13) {
                orig[0][i]
            } else {
                let b = f.2.first().copied().unwrap_or([0; 4]);
                [f32::from_bits(b[0]), f32::from_bits(b[1]), f32::from_bits(b[2]), f32::from_bits(b[3])]
            };
            answer(c.seed, i, &first)
        }
    };
    // the result
    let done = stop.unwrap_or(total);
    if in_place {
        let want: Vec<[f32; 4]> = (0..total).map(|i| if i < done { ans(i) } else { orig[0][i] }).collect();
        if let Err(e) = same_buf(&inplace, w, h, &want) {
            return fail("wrong-in-place", key, format!("after {} {}: {}", name, if stop.is_some() { "failed" } else { "succeeded" }, e));
        }
    } else if stop.is_none() {
        let want: Vec<[f32; 4]> = (0..total).map(ans).collect();
        let (gw, gh, gd) = match got {
            Some(g) => g,
            None => return fail("no-result", key, format!("{} gave no result", name)),
        };
        if gw != w || gh != h || gd.len() != want.len() {
            return fail("wrong-size", key, format!("{} gave {}x{} ({} pixels) instead of {}x{}", name, gw, gh, gd.len(), w, h));
        }
        if let Some(i) = (0..total).find(|&i| bits4(&gd[i]) != bits4(&want[i])) {
            return fail("wrong-result", key, format!("{}: pixel {} is {:?} instead of {:?}", name, i, gd[i], want[i]));
        }
    }
    for (k, s) in srcs.iter().enumerate() {
        if let Err(e) = same_buf(s, dims[k].0, dims[k].1, &orig[k]) {
            return fail("source-changed", key, format!("{} changed source {}: {}", name, k, e));
        }
    }
    let _ = src;
    // afterwards everything works
    drop(calls);
    let again = calm("a later operation", || inplace.map_colors::<_, C>(|p| *p))?;
    let now: Vec<[f32; 4]> = inplace.data().iter().map(|p| p.arr()).collect();
    if let Err(e) = same_buf(&again, w.max(0), h, &now).or_else(|e| if in_place || !many { Err(e) } else { Ok(()) }) {
        return fail("later-operation", key, format!("mapping after {} gave a wrong result: {}", name, e));
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C08";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let op = r.below(OPS as u64) as u8;
        let big = r.chance(1, 40);
        let tall = r.chance(1, 3);
        let wide = !big && r.chance(1, 200);
        let mut imgs = vec![];
        for _ in 0..1 + r.below(4) {
            let size = if r.chance(1, 2) { Size::Tiny } else { Size::Small };
            let mut s = ImgSpec::gen(r, size);
            if big {
                s.w = 200 + r.below(200) as u32;
                s.h = 100 + r.below(200) as u32;
            }
            if wide {
                // a row or column longer than sixteen bits can count
                s.w = 65_530 + r.below(5_000) as u32;
                s.h = 1 + r.below(3) as u32;
                if tall {
                    std::mem::swap(&mut s.w, &mut s.h);
                }
            }
            imgs.push(s);
        }
        let fate = match r.below(10) {
            0..=2 => Fate::Fine,
            3..=7 => Fate::Err(Pos::gen(r)),
            _ => Fate::Panic(Pos::gen(r)),
        };
        let empty = if r.chance(1, 15) { Some(r.below(3) as u8) } else { None };
        let nested = if r.chance(1, 4) { Some(Pos::gen(r)) } else { None };
        Case { op, ty: r.below(3) as u8, imgs, empty, seed: r.next(), fate, nested }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let w = c.imgs.iter().map(|i| i.w as u64).max().unwrap_or(0);
        let h = c.imgs.iter().map(|i| i.h as u64).max().unwrap_or(0);
        // composing makes a picture as wide as the widest and as high as the highest
        if c.imgs.is_empty() || w * h > 1_000_000 {
            return Ok(());
        }
        match c.ty % 3 {
            0 => go::<Rgb>(c, cx, true),
            1 => go::<Rgb>(c, cx, false),
            _ => go::<Hsl>(c, cx, false),
        }
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one of 16 callback operations (in place, building, composing 1 to 4 sources, to another colour type) on Image or PixelBuffer x sizes up to 400x300, rows and columns of up to 70 530 pixels, and empty ones x a callback that succeeds, fails or panics at a seeded call, or runs another operation; every call's arguments and the state afterwards are compared with a reference; non-trivial when a failure, panic or nested operation happened",
            real: "d10::Image, d10-core's PixelBuffer, d10-ops' compose",
            stub: "the callback (the other party) is simulated",
            secs: (30, 780),
            budget: 2_000_000_000,
            workers: 8,
            assumptions: vec![],
        }
    }
}
