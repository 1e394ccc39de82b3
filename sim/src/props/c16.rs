//! Lossless formats give back the saved picture, generation after generation.
use super::*;
use serde::{Deserialize, Serialize};
use simcore::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hop {
    fmt: Fmt,
    /// 0 through a file, 1 through memory, 2 saved to a writer and opened from a file, 3 by the
    /// file's extension
    how: u8,
    plan: PlanSpec,
    /// this many further generations in the same format
    more: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    hops: Vec<Hop>,
}

pub struct P;
impl P {
    fn hop(h: &Hop, img: &Image, cx: &mut Ctx) -> Result<Option<Image>, Violation> {
        let name = h.fmt.name();
        let path = format!("{}p.{}", PREFIX, h.fmt.ext());
        let mut w = World::new();
        w.plan = h.plan.base();
        let m = Machine::start(w);
        let r: Result<Result<Image, DecodingError>, EncodingError> = calm("the round trip", || match h.how % 4 {
            0 => img.save_with_format(&path, h.fmt.enc()).map(|_| Image::open(&path)),
            1 => img.save_to_buffer(h.fmt.enc()).map(|b| Image::read_from_buffer(&b)),
            2 => {
                let mut v = vec![];
                img.save_to_writer(&mut v, h.fmt.enc()).map(|_| {
                    m.with(|w| w.put(&path, v));
                    Image::open(&path)
                })
            }
            _ => img.save(&path).map(|_| Image::open(&path)),
        })?;
        cx.world(&m.stop());
        cx.count(name);
        match r {
            Err(e) => {
                // a picture outside a format's limits may be refused
                if !h.fmt.is_lossless() || img.is_empty() || (h.fmt.kind() == 4 && (img.width() > 256 || img.height() > 256)) || (h.fmt.kind() == 3 && (img.width() > 65535 || img.height() > 65535)) || (h.fmt.kind() == 5 && (img.width() > 16383 || img.height() > 16383)) {
                    return Ok(None);
                }
                fail("refused", name, format!("{:?}: saving a {}x{} picture gives {}", h.fmt, img.width(), img.height(), enc_err(&e)))
            }
            Ok(Err(e)) => fail("unreadable", name, format!("{:?}: a successful save cannot be opened: {}", h.fmt, dec_err(&e))),
            Ok(Ok(i)) => Ok(Some(i)),
        }
    }
    /// Everything the format stores is the value rounded to its precision.
    fn rounded(h: &Hop, fmt: &Fmt, a: &Image, b: &Image) -> Res {
        let key = format!("{:?}", fmt).split(" comp").next().unwrap_or("").replace(" ", "");
        let name = fmt.name();
        if (a.width(), a.height()) != (b.width(), b.height()) {
            return fail("dimensions", name, format!("{:?}: {}x{} became {}x{}", fmt, a.width(), a.height(), b.width(), b.height()));
        }
        let (grey, alpha, bits) = fmt.stores();
        let max = if bits == 16 { 65535.0 } else { 255.0 };
        let eps = if bits == 16 { 0.06 } else { 0.01 };
        for (n, (x, y)) in a.data().iter().zip(b.data()).enumerate() {
            let want = levels(x, grey, alpha, max);
            let got = levels_of(y, max);
            let clear = fmt.kind() == 5 && want[3] <= 0.5 + eps;
            for k in 0..4 {
                let lossy = clear && k < 3;
                let near = (got[k] - got[k].round()).abs() <= eps;
                if !near || (!lossy && (got[k].round() - want[k]).abs() > 0.5 + eps) || !(0.0..=max + eps).contains(&got[k].max(0.0)) {
                    return fail(
                        "changed",
                        format!("{} channel {}", key, k),
                        format!("{:?} ({}): pixel {} {:?} came back as {:?}: channel {} is level {:.3} instead of {:.3}", fmt, h.how, n, x.data, y.data, k, got[k], want[k]),
                    );
                }
            }
            if !alpha && y.data[3] != 1.0 {
                return fail("opaque", key, format!("{:?}: pixel {} has alpha {} in an opaque colour type", fmt, n, y.data[3]));
            }
            if grey && (y.data[0] != y.data[1] || y.data[1] != y.data[2]) {
                return fail("grey", key, format!("{:?}: pixel {} is {:?} in a grey colour type", fmt, n, y.data));
            }
        }
        Ok(())
    }
}
/// The 8 bit levels a format is given, red, green, blue, alpha.
fn given(x: &d10::Rgb, grey: bool) -> [f64; 4] {
    levels(x, grey, true, 255.0)
}
/// How far the colours that came back are from those that were given.
struct Error {
    /// all pixels were given the same colour
    flat: bool,
    max: f64,
    mean: f64,
    at: usize,
}
impl Error {
    /// of the pixels with at least this alpha
    fn of(want: &[[f64; 4]], got: &[[f64; 4]], alpha: f64) -> Error {
        let mut e = Error { flat: true, max: 0.0, mean: 0.0, at: 0 };
        let (mut sum, mut n) = (0.0, 0);
        for (i, (w, g)) in want.iter().zip(got).enumerate() {
            e.flat &= w[..3] == want[0][..3];
            if w[3] < alpha {
                continue;
            }
            for k in 0..3 {
                let d = (w[k] - g[k]).abs();
                sum += d;
                n += 1;
                if d > e.max {
                    e.max = d;
                    e.at = i;
                }
            }
        }
        e.mean = sum / n.max(1) as f64;
        e
    }
}
impl P {
    /// The other formats: what they do keep.
    fn approximate(fmt: &Fmt, a: &Image, b: &Image, cx: &mut Ctx) -> Res {
        let name = fmt.name();
        let all: Vec<[f64; 4]> = b.data().iter().map(|c| levels_of(c, 255.0)).collect();
        for (n, v) in all.iter().enumerate() {
            if v.iter().any(|v| !(-0.05..=255.05).contains(v) || (v - v.round()).abs() > 0.05) {
                return fail("range", name, format!("{:?}: pixel {} is {:?}, which is no 8 bit colour", fmt, n, v));
            }
        }
        match *fmt {
            Fmt::Gif => {
                // levels next to a rounding boundary may go either way, so compare with tolerance
                let want: Vec<[f64; 4]> = a.data().iter().map(|c| given(c, false)).collect();
                let mut colours = std::collections::HashSet::new();
                let mut sure = true;
                for v in &want {
                    sure &= v.iter().all(|v| (v.fract() - 0.5).abs() > 0.01);
                    let clear = v[3].round() == 0.0;
                    colours.insert(if clear { [0; 4] } else { [v[0].round() as u8, v[1].round() as u8, v[2].round() as u8, 255] });
                }
                if !sure || colours.len() > 256 {
                    return Ok(());
                }
                cx.count("exact gif palettes");
                for (n, (w, g)) in want.iter().zip(&all).enumerate() {
                    let clear = w[3].round() == 0.0;
                    if g[3] != if clear { 0.0 } else { 255.0 } {
                        return fail("gif alpha", name, format!("gif: pixel {} with alpha level {} came back with {}", n, w[3], g[3]));
                    }
                    if !clear && (0..3).any(|k| (g[k] - w[k]).abs() > 0.51) {
                        return fail("gif colour", name, format!("gif: a picture of {} colours: pixel {} {:?} came back as {:?}", colours.len(), n, w, g));
                    }
                }
            }
            Fmt::Jpeg { q, sf, gray, .. } => {
                if let Some(n) = all.iter().position(|v| v[3] != 255.0 || (gray && (v[0] != v[1] || v[1] != v[2]))) {
                    return fail("jpeg", name, format!("{:?}: pixel {} is {:?}", fmt, n, all[n]));
                }
                let want: Vec<[f64; 4]> = a.data().iter().map(|c| given(c, gray)).collect();
                let e = Error::of(&want, &all, 0.0);
                let q = q.clamp(1, 100);
                if e.flat {
                    cx.count("flat jpeg pictures");
                    let bound = [64.0, 20.0, 8.0][(q >= 10) as usize + (q >= 40) as usize];
                    if e.max > bound {
                        return fail("jpeg colour", name, format!("{:?}: a picture of one colour {:?} came back as {:?} (pixel {})", fmt, want[e.at], all[e.at], e.at));
                    }
                }
                // without subsampling the quality alone bounds the error
                if gray || matches!(sf, 1 | 9) || (sf == 0 && q >= 90) {
                    cx.count("full resolution jpeg pictures");
                    let (max, mean) = match q {
                        100 => (10.0, 3.0),
                        95..=99 => (40.0, 8.0),
                        90..=94 => (90.0, 14.0),
                        80..=89 => (160.0, 28.0),
                        _ => (255.0, 255.0),
                    };
                    if e.max > max || e.mean > mean {
                        return fail("jpeg colour", name, format!("{:?}: the levels are off by up to {:.0} ({:.1} on average), pixel {} {:?} came back as {:?}", fmt, e.max, e.mean, e.at, want[e.at], all[e.at]));
                    }
                }
            }
            Fmt::WebP { q, .. } => {
                let want: Vec<[f64; 4]> = a.data().iter().map(|c| given(c, false)).collect();
                // alpha is kept, rounded down
                if let Some(n) = (0..all.len()).find(|&n| !(-0.05..=1.05).contains(&(want[n][3] - all[n][3]))) {
                    return fail("webp alpha", name, format!("{:?}: pixel {} with alpha level {} came back with {}", fmt, n, want[n][3], all[n][3]));
                }
                let e = Error::of(&want, &all, 1.0);
                if e.flat {
                    cx.count("flat webp pictures");
                    let bound = [40.0, 28.0, 20.0][(q >= 20) as usize + (q >= 60) as usize];
                    if e.max > bound {
                        return fail("webp colour", name, format!("{:?}: a picture of one colour {:?} came back as {:?} (pixel {})", fmt, want[e.at], all[e.at], e.at));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}
impl Prop for P {
    const ID: &'static str = "C16";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let size = if r.chance(1, 4) { Size::Tiny } else if r.chance(1, 2) { Size::Small } else { Size::Mixed };
        let mut img = ImgSpec::gen(r, size);
        if r.chance(1, 40) {
            img.extreme(r);
        }
        if r.chance(1, 4) {
            // few colours or one colour: what GIF and the lossy formats keep
            img.kind = *r.pick(&[3, 4, 6, 6, 10, 11]);
        }
        let n = 1 + r.below(4);
        let one = if r.chance(1, 2) { Some(Fmt::gen_lossless(r)) } else { None };
        let hops = (0..n)
            .map(|_| {
                let fmt = match &one {
                    Some(f) if r.chance(1, 3) => f.clone(),
                    _ if r.chance(1, 4) => {
                        let k = *r.pick(&[0, 2, 5]);
                        Fmt::gen_kind(r, k)
                    }
                    _ => Fmt::gen_lossless(r),
                };
                Hop { fmt, how: r.below(4) as u8, plan: if r.chance(1, 2) { PlanSpec::benign(r) } else { PlanSpec::default() }, more: if r.chance(1, 3) { 1 + r.below(3) as u8 } else { 0 } }
            })
            .collect();
        let mut hops: Vec<Hop> = hops;
        if r.chance(1, 8000) {
            img.large(r);
            hops.truncate(1);
            hops[0].more = 0;
            let k = *r.pick(&[0, 1, 2, 2, 3]);
            hops[0].fmt = Fmt::gen_kind(r, k);
        }
        Case { img, hops }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let mut cur = c.img.build();
        if cur.data().len() > 12_500_000 {
            cx.count("large pictures");
        }
        // what the current picture is known to be made of: grey, opaque, precision
        let mut state: Option<(bool, bool, u32)> = None;
        for h in &c.hops {
            let mut h = h.clone();
            if h.how % 4 == 3 {
                h.fmt = Fmt::of_ext(h.fmt.kind());
            }
            if !h.fmt.is_lossless() {
                // of the other formats only that the file opens again, at its size
                let Some(next) = P::hop(&h, &cur, cx)? else { continue };
                if (cur.width(), cur.height()) != (next.width(), next.height()) {
                    return fail("dimensions", h.fmt.name(), format!("{:?}: {}x{} became {}x{}", h.fmt, cur.width(), cur.height(), next.width(), next.height()));
                }
                P::approximate(&h.fmt, &cur, &next, cx)?;
                cur = next;
                state = None;
                cx.nontrivial = true;
                continue;
            }
            for g in 0..1 + h.more.min(4) {
                let Some(next) = P::hop(&h, &cur, cx)? else { break };
                P::rounded(&h, &h.fmt, &cur, &next)?;
                let (grey, alpha, bits) = h.fmt.stores();
                let webp = h.fmt.kind() == 5;
                // the picture is already made of values this format stores: nothing changes
                let keeps = state.map(|(sg, so, sb)| sb == bits && (sg || !grey) && (so || alpha)).unwrap_or(false);
                if keeps {
                    cx.count("exact generations");
                    for (n, (x, y)) in cur.data().iter().zip(next.data()).enumerate() {
                        let free = webp && x.data[3] == 0.0;
                        let from = if free { 3 } else { 0 };
                        if (from..4).any(|k| x.data[k].to_bits() != y.data[k].to_bits()) {
                            return fail("drift", h.fmt.name(), format!("{:?} (generation {}): pixel {} drifted from {:?} to {:?}", h.fmt, g, n, x.data, y.data));
                        }
                    }
                }
                let (sg, so) = match state {
                    Some((sg, so, _)) if keeps => (sg, so),
                    _ => (grey, !alpha),
                };
                // colours lost where alpha is zero need not be grey any more
                state = Some((sg && !webp, so, bits));
                cur = next;
                cx.nontrivial = true;
            }
        }
        cx.fp.add(hash(&cur));
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one picture (any colour values, alpha, also out of range) sent through up to four lossless formats and colour types with up to five generations each, lossy formats in between, sizes up to 70000 x 1, through files, memory and writers with split and interrupted transfers, the process restarting in between; non-trivial when a round trip happened",
            real: "d10, d10-core, d10-codecs, the PNG, BMP, icon and WebP code, std",
            stub: "the kernel's file system (simulated disk)",
            secs: (40, 780),
            budget: 20_000_000_000,
            workers: 8,
            assumptions: vec!["values within 0.01 (8 bit) or 0.06 (16 bit) of a level of the rounding boundary may go either way (single-precision arithmetic)"],
        }
    }
}
