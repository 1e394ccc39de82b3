//! Files that other programs made show the picture they store.
use super::c02::any_case;
use super::*;
use crate::known;
use serde::{Deserialize, Serialize};
use simcore::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct File {
    kind: u8,
    w: u32,
    h: u32,
    seed: u64,
    /// 0 as an image from a file, 1 from memory, 2 with the codecs from a file
    how: u8,
    plan: PlanSpec,
    /// the file name's extension names another format
    misnamed: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    files: Vec<File>,
}

pub struct P;
impl P {
    fn one(f: &File, cx: &mut Ctx) -> Res {
        let kind = f.kind % 6;
        let name = ["jpeg", "png", "gif", "bmp", "ico", "webp"][kind as usize];
        let ext = ["jpg", "png", "gif", "bmp", "ico", "webp"][f.misnamed.unwrap_or(kind) as usize % 6];
        let Some(k) = calm("making the file", || known::build(kind, f.w, f.h, f.seed))? else { return Ok(()) };
        let path = format!("{}p.{}", PREFIX, any_case(&mut Rng::new(f.seed), ext));
        let mut w = World::new();
        w.put(&path, k.bytes.clone());
        w.plan = f.plan.base();
        let m = Machine::start(w);
        let r: Result<Image, DecodingError> = calm("opening", || match f.how % 3 {
            0 => Image::open(&path),
            1 => Image::read_from_buffer(&k.bytes),
            _ => d10_codecs::decode_file(&path).map(|d| Image::new_from_buffer(d.buffer)),
        })?;
        cx.world(&m.stop());
        let key = k.what.split(|c: char| c == ',' || c == '(').next().unwrap_or("").trim().to_string();
        cx.count(name);
        cx.count(k.what.rsplit_once(' ').unwrap().0);
        let i = match r {
            Ok(i) => i,
            Err(e) => return fail("refused", name, format!("{}: {}", k.what, dec_err(&e))),
        };
        if (i.width(), i.height()) != (k.w, k.h) || i.data().len() != k.px.len() {
            return fail("dimensions", name, format!("{} opened as {}x{} with {} pixels", k.what, i.width(), i.height(), i.data().len()));
        }
        let mut sum = 0.0;
        for (n, (c, want)) in i.data().iter().zip(&k.px).enumerate() {
            let got = levels_of(c, 255.0);
            let from = if k.clear_is_free && want[3] == 0.0 { 3 } else { 0 };
            for ch in from..4 {
                let d = (got[ch] - want[ch]).abs();
                sum += d;
                if !(d <= if ch == 3 { k.max.min(0.51) } else { k.max }) {
                    return fail(
                        "picture",
                        format!("{} {}", name, key.split(' ').take(4).collect::<Vec<_>>().join(" ")),
                        format!("{}: pixel {} is {:?} (channel {} at level {:.2}) instead of {:?}", k.what, n, c.data, ch, got[ch], want),
                    );
                }
            }
        }
        if sum / (4 * k.px.len()) as f64 > k.mean {
            return fail("picture", name, format!("{}: the levels are off by {:.2} on average", k.what, sum / (4 * k.px.len()) as f64));
        }
        cx.fp.add(hash(&i));
        cx.nontrivial = true;
        Ok(())
    }
}
impl Prop for P {
    const ID: &'static str = "C19";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let n = *r.pick(&[1, 1, 2, 3]);
        let files = (0..n)
            .map(|_| {
                let m = *r.pick(&[4, 12, 40, 40, 110, 300]);
                File {
                    kind: *r.pick(&[0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5]),
                    w: r.range(1, m) as u32,
                    h: r.range(1, m) as u32,
                    seed: r.next(),
                    how: r.below(3) as u8,
                    plan: if r.chance(2, 3) { PlanSpec::benign(r) } else { PlanSpec::default() },
                    misnamed: if r.chance(1, 8) { Some(r.below(6) as u8) } else { None },
                }
            })
            .collect();
        Case { files }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        for f in &c.files {
            P::one(f, cx)?;
        }
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = up to three files as other programs write them (PNG of every colour type and bit depth with palettes, transparency, interlacing, any filter and any split of the data; GIF with global and local palettes, transparency, interlacing, further frames; BMP of 1 to 32 bits, palettes, masks, run lengths, top down; icons with bitmaps, masks, PNGs and several entries; JPEG grey, colour, CMYK and YCCK, progressive, with restarts; WebP with metadata) whose picture the harness knows, opened by name or from memory with seeded split and interrupted reads; non-trivial when a picture was compared",
            real: "d10, d10-core, d10-codecs, all decoders, std",
            stub: "the kernel's file system (simulated disk); the files are made by the harness's own writers (JPEG, GIF and the WebP bitstream by encoder libraries)",
            secs: (30, 780),
            budget: 20_000_000_000,
            workers: 8,
            assumptions: vec!["colours within 0.01 level (PNG, GIF, WebP), 0.51 (BMP, icon: rounding to 8 bits) or 14 (JPEG at quality 100) count as equal", "colours under full transparency are free in GIF, icons and WebP"],
        }
    }
}
