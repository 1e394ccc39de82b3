//! Corrupted stored bytes never crash or hang the reader.
use super::*;
use crate::alloc;
use serde::{Deserialize, Serialize};
use simcore::world::*;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dmg {
    Flip { at: Pos, bit: u8 },
    Set { at: Pos, v: u8 },
    Zero { at: Pos, len: u32 },
    Junk { at: Pos, len: u32, seed: u64 },
    Dup { at: Pos, len: u32 },
    Drop { at: Pos, len: u32 },
    Cut { at: Pos },
    /// one stored sector replaced by another one
    Move { from: Pos, to: Pos, len: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    fmt: Fmt,
    dims: Option<(u32, u32)>,
    dmg: Vec<Dmg>,
    /// repair the PNG checksums afterwards, so that deeper layers see the damage
    fix: bool,
    ext: u8,
    plan: PlanSpec,
}

fn u16l(b: &[u8], p: usize) -> Option<u64> {
    Some(*b.get(p)? as u64 | (*b.get(p + 1)? as u64) << 8)
}
fn u32l(b: &[u8], p: usize) -> Option<u64> {
    Some(u16l(b, p)? | u16l(b, p + 2)? << 16)
}
fn u16b(b: &[u8], p: usize) -> Option<u64> {
    Some((*b.get(p)? as u64) << 8 | *b.get(p + 1)? as u64)
}
fn u32b(b: &[u8], p: usize) -> Option<u64> {
    Some(u16b(b, p)? << 16 | u16b(b, p + 2)?)
}

pub fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

fn png_at(b: &[u8], o: usize) -> bool {
    b.len() >= o + 8 && b[o..o + 8] == [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A]
}

fn fix_png(b: &mut [u8], o: usize) {
    let mut p = o + 8;
    while let Some(n) = u32b(b, p) {
        let e = p as u64 + 8 + n;
        if e + 4 > b.len() as u64 {
            break;
        }
        let e = e as usize;
        let c = crc(&b[p + 4..e]);
        b[e..e + 4].copy_from_slice(&c.to_be_bytes());
        p = e + 4;
    }
}

/// Where the declared dimensions are: (offset of width, offset of height, kind of number)
fn dim_places(b: &[u8]) -> Vec<(usize, usize, u8)> {
    let mut v = vec![];
    match super::c03::sniff(b) {
        Some(0) => {
            let mut p = 2;
            while p + 9 <= b.len() {
                if b[p] != 0xFF {
                    p += 1;
                    continue;
                }
                match b[p + 1] {
                    0xFF | 0 | 1 | 0xD0..=0xD8 => p += if b[p + 1] == 0xFF { 1 } else { 2 },
                    0xC0..=0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF => {
                        v.push((p + 7, p + 5, 1));
                        p += 2 + u16b(b, p + 2).unwrap_or(0) as usize;
                    }
                    0xD9 => break,
                    _ => p += 2 + u16b(b, p + 2).unwrap_or(0) as usize,
                }
            }
        }
        Some(1) => v.push((16, 20, 3)),
        Some(2) => {
            v.push((6, 8, 0));
            let mut p = 13;
            if b.len() > 10 && b[10] & 0x80 != 0 {
                p += 3 << ((b[10] & 7) + 1);
            }
            while p + 10 <= b.len() {
                match b[p] {
                    0x2C => {
                        v.push((p + 5, p + 7, 0));
                        break;
                    }
                    0x21 => {
                        p += 2;
                        while p < b.len() && b[p] != 0 {
                            p += 1 + b[p] as usize;
                        }
                        p += 1;
                    }
                    _ => break,
                }
            }
        }
        Some(3) => {
            if u32l(b, 14) == Some(12) {
                v.push((18, 20, 0));
            } else {
                v.push((18, 22, 2));
            }
        }
        Some(4) => {
            let n = u16l(b, 4).unwrap_or(0) as usize;
            for i in 0..n.min(64) {
                if let Some(o) = u32l(b, 6 + 16 * i + 12) {
                    let o = o as usize;
                    if png_at(b, o) {
                        v.push((o + 16, o + 20, 3));
                    } else {
                        v.push((o + 4, o + 8, 7));
                    }
                }
            }
        }
        Some(_) => {
            if b.len() > 30 {
                match &b[12..16] {
                    b"VP8X" => v.push((24, 27, 4)),
                    b"VP8 " => v.push((26, 28, 5)),
                    b"VP8L" => v.push((21, 21, 6)),
                    _ => {}
                }
                // the frame inside an extended file
                let mut p = 12;
                while p + 8 < b.len() {
                    let n = u32l(b, p + 4).unwrap_or(0) as usize;
                    if p > 12 && &b[p..p + 4] == b"VP8 " {
                        v.push((p + 14, p + 16, 5));
                    }
                    if p > 12 && &b[p..p + 4] == b"VP8L" {
                        v.push((p + 9, p + 9, 6));
                    }
                    p = p.saturating_add(8).saturating_add(n).saturating_add(n & 1);
                }
            }
        }
        None => {}
    }
    v
}

fn dim_get(b: &[u8], d: (usize, usize, u8)) -> Option<(u64, u64)> {
    Some(match d.2 {
        0 => (u16l(b, d.0)?, u16l(b, d.1)?),
        1 => (u16b(b, d.0)?, u16b(b, d.1)?),
        2 => (((u32l(b, d.0)? as u32) as i32).unsigned_abs() as u64, ((u32l(b, d.1)? as u32) as i32).unsigned_abs() as u64),
        3 => (u32b(b, d.0)?, u32b(b, d.1)?),
        // the height counts the mask as well
        7 => (((u32l(b, d.0)? as u32) as i32).unsigned_abs() as u64, (((u32l(b, d.1)? as u32) as i32) / 2).unsigned_abs() as u64),
        4 => ((u32l(b, d.0)? & 0xFFFFFF) + 1, (u32l(b, d.1)? & 0xFFFFFF) + 1),
        5 => (u16l(b, d.0)? & 0x3FFF, u16l(b, d.1)? & 0x3FFF),
        _ => {
            let x = u32l(b, d.0)?;
            ((x & 0x3FFF) + 1, (x >> 14 & 0x3FFF) + 1)
        }
    })
}

fn dim_set(b: &mut [u8], d: (usize, usize, u8), w: u32, h: u32) {
    let put = |b: &mut [u8], p: usize, x: &[u8]| {
        if p + x.len() <= b.len() {
            b[p..p + x.len()].copy_from_slice(x);
        }
    };
    match d.2 {
        0 => {
            put(b, d.0, &(w as u16).to_le_bytes());
            put(b, d.1, &(h as u16).to_le_bytes());
        }
        1 => {
            put(b, d.0, &(w as u16).to_be_bytes());
            put(b, d.1, &(h as u16).to_be_bytes());
        }
        2 | 7 => {
            put(b, d.0, &w.to_le_bytes());
            put(b, d.1, &h.to_le_bytes());
        }
        3 => {
            put(b, d.0, &w.to_be_bytes());
            put(b, d.1, &h.to_be_bytes());
        }
        4 => {
            put(b, d.0, &w.wrapping_sub(1).to_le_bytes()[..3]);
            put(b, d.1, &h.wrapping_sub(1).to_le_bytes()[..3]);
        }
        5 => {
            put(b, d.0, &((w & 0x3FFF) as u16).to_le_bytes());
            put(b, d.1, &((h & 0x3FFF) as u16).to_le_bytes());
        }
        _ => {
            if let Some(x) = u32l(b, d.0) {
                let y = (x as u32 & 0xF0000000) | (w.wrapping_sub(1) & 0x3FFF) | (h.wrapping_sub(1) & 0x3FFF) << 14;
                put(b, d.0, &y.to_le_bytes());
            }
        }
    }
}

pub fn declared(b: &[u8]) -> Vec<(u64, u64)> {
    dim_places(b).into_iter().filter_map(|d| dim_get(b, d)).collect()
}

/// The file declares so many pixels that it cannot contain them; memory for them is asked for,
/// but hardly any of it is used.
fn cannot_hold(b: &[u8]) -> bool {
    let n = b.len() as u64;
    if png_at(b, 0) {
        let (Some(w), Some(h), true) = (u32b(b, 16), u32b(b, 20), n > 26) else { return false };
        let ch = [1, 0, 3, 1, 2, 0, 4][b[25].min(6) as usize];
        w.saturating_mul(h).saturating_mul(ch * b[24] as u64) / 8 > n * 1100
    } else if b.starts_with(b"BM") && n > 34 && u32l(b, 14) >= Some(40) {
        let px = declared(b).first().map(|d| d.0.saturating_mul(d.1)).unwrap_or(0);
        matches!(u32l(b, 30), Some(0 | 3)) && px.saturating_mul(u16l(b, 28).unwrap_or(0)) / 8 > n
    } else {
        false
    }
}

pub fn apply(b: &mut Vec<u8>, d: &Dmg) {
    let n = b.len();
    if n == 0 {
        return;
    }
    let p = |x: Pos| (x.at(n as u64) as usize).min(n - 1);
    match *d {
        Dmg::Flip { at, bit } => b[p(at)] ^= 1 << (bit & 7),
        Dmg::Set { at, v } => b[p(at)] = v,
        Dmg::Zero { at, len } => {
            let a = p(at);
            let e = (a + len as usize).min(n);
            b[a..e].fill(0);
        }
        Dmg::Junk { at, len, seed } => {
            let a = p(at);
            let e = (a + len as usize).min(n);
            let mut r = Rng::new(seed);
            b[a..e].iter_mut().for_each(|x| *x = r.next() as u8);
        }
        Dmg::Dup { at, len } => {
            let a = p(at);
            let e = (a + len as usize).min(n);
            let c = b[a..e].to_vec();
            b.splice(a..a, c);
        }
        Dmg::Drop { at, len } => {
            let a = p(at);
            let e = (a + len as usize).min(n);
            b.drain(a..e);
        }
        Dmg::Cut { at } => b.truncate(at.at(n as u64) as usize),
        Dmg::Move { from, to, len } => {
            let (f, t) = (p(from), p(to));
            let l = (len as usize).min(n - f).min(n - t);
            let c = b[f..f + l].to_vec();
            b[t..t + l].copy_from_slice(&c);
        }
    }
}

pub fn gen_dmg(r: &mut Rng) -> Dmg {
    let at = match r.below(6) {
        0 | 1 => Pos::Abs(r.below(64) as u32),
        5 => Pos::End(r.below(30) as u32),
        _ => Pos::Frac(r.below(65536) as u32),
    };
    let len = *r.pick(&[1u32, 1, 2, 3, 4, 8, 16, 64, 512, 4096]);
    match r.below(10) {
        0..=3 => Dmg::Flip { at, bit: r.below(8) as u8 },
        4 => Dmg::Set { at, v: *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0xFE, 2, 3, 4, 5, 16, 32, 24, 200]) },
        5 => Dmg::Zero { at, len },
        6 => Dmg::Junk { at, len, seed: r.next() },
        7 => Dmg::Dup { at, len },
        8 => Dmg::Drop { at, len },
        _ => {
            if r.chance(1, 2) {
                Dmg::Cut { at }
            } else {
                Dmg::Move { from: Pos::Frac(r.below(65536) as u32), to: at, len }
            }
        }
    }
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C06";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let k = r.below(6) as u8;
        let img = ImgSpec::gen(r, Size::Mixed).small_for_ico().maybe_foreign(r, 2);
        let dims = if r.chance(1, 4) {
            let v = [0u32, 1, 2, 255, 256, 300, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 1 << 20, (1 << 24) - 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF];
            let mut pick = |x: u32| match r.below(4) {
                0 => x,
                1 => x + 1,
                _ => *r.pick(&v),
            };
            Some((pick(img.w), pick(img.h)))
        } else {
            None
        };
        let n = if dims.is_some() && r.chance(2, 3) { 0 } else { *r.pick(&[1, 1, 1, 2, 3, 8]) };
        let dmg = (0..n).map(|_| gen_dmg(r)).collect();
        Case {
            img,
            fmt: Fmt::gen_kind(r, k),
            dims,
            dmg,
            fix: r.chance(2, 3),
            ext: if r.chance(5, 6) { 9 } else { r.below(7) as u8 },
            plan: if r.chance(1, 4) { PlanSpec::benign(r) } else { PlanSpec::default() },
        }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let mut b = match stored(&c.img, &c.fmt)? {
            Ok(b) => b,
            Err(_) => return Ok(()),
        };
        let name = c.fmt.name();
        let whole = b.clone();
        if let Some((w, h)) = c.dims {
            for d in dim_places(&b) {
                dim_set(&mut b, d, w, h);
            }
        }
        for d in &c.dmg {
            apply(&mut b, d);
        }
        if c.fix {
            if png_at(&b, 0) {
                fix_png(&mut b, 0);
            } else if png_at(&b, 22) {
                fix_png(&mut b, 22);
            }
        }
        if b == whole {
            return Ok(());
        }
        let declared = declared(&b);
        let most = declared.iter().map(|d| d.0.saturating_mul(d.1)).max().unwrap_or(0);
        let least = declared.iter().map(|d| d.0.saturating_mul(d.1)).min().unwrap_or(0);
        let large = most > 1 << 22 && least <= d10::MAX_BUFFER_SIZE;
        if large && !cannot_hold(&b) {
            cx.count("left_out_large_but_allowed");
            return Ok(());
        }
        if large {
            cx.count("large_but_allowed");
        }
        let too_big = least > d10::MAX_BUFFER_SIZE;
        alloc::HUGE_MODE.store(if large { 3 } else if too_big && c.dmg.is_empty() { 2 } else { 1 }, Relaxed);
        let exts = ["jpg", "png", "gif", "bmp", "ico", "webp", "dat"];
        let path = format!("{}pic.{}", PREFIX, exts.get(c.ext as usize).copied().unwrap_or(c.fmt.ext()));
        let mut w = World::new();
        w.put(&path, b.clone());
        w.plan = c.plan.base();
        let m = Machine::start(w);
        let got = calm("opening corrupted bytes", || Image::open(&path))?;
        let w = m.stop();
        cx.world(&w);
        cx.fault("stored_bytes_corrupted");
        if c.dims.is_some() {
            cx.fault("declared_size_changed");
        }
        cx.fp.bytes(&b);
        cx.count(name);
        cx.count(if got.is_ok() { "image" } else { "refused" });
        let check = |got: &Result<Image, DecodingError>, how: &str| -> Res {
            match got {
                Err(e) => {
                    let _ = dec_err(e);
                    Ok(())
                }
                Ok(i) => {
                    if too_big && c.dmg.is_empty() {
                        return fail("too-large", name, format!("{}: {} a picture declared as {:?} gives an image", name, how, declared));
                    }
                    well_formed(i).or_else(|e| fail("malformed", name, format!("{}: {} corrupted bytes gives {}", name, how, e)))
                }
            }
        };
        check(&got, "opening")?;
        if !w.fds.is_empty() {
            return fail("descriptor-leak", name, "a descriptor is still open after opening a corrupted file");
        }
        let mem = calm("decoding corrupted bytes", || Image::read_from_buffer(&b))?;
        check(&mem, "decoding")?;
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one picture stored in any format and options, or a file as other programs write it, then damaged (bits flipped, bytes set, ranges zeroed, overwritten, duplicated, dropped, moved, the file cut; declared dimensions replaced by boundary values, PNG checksums optionally recomputed), then opened under its own or another extension with whole or split reads, and decoded from memory; non-trivial when the bytes differ from the stored ones",
            real: "d10, d10-codecs, all decoders including native libwebp, std's File and BufReader",
            stub: "the kernel's file system (simulated disk)",
            secs: (45, 780),
            budget: 3_000_000_000,
            workers: 8,
            assumptions: vec![
                "pictures declared larger than 4 million pixels but within the supported maximum are left out, as they need gigabytes, unless the file is too short to hold them",
                "steps inside native libwebp are bounded by the wall-clock watchdog only",
            ],
        }
    }
}
