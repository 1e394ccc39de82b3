//! Files as other programs write them, together with the picture they store (in levels of 0 to
//! 255 for every channel): the reference for what a reader has to show.
use crate::foreign::{adam7, chunk, deflate};
use crate::img::*;
use simcore::rng::Rng;

pub struct Known {
    pub what: String,
    pub bytes: Vec<u8>,
    pub w: u32,
    pub h: u32,
    /// red, green, blue, alpha
    pub px: Vec<[f64; 4]>,
    /// levels a colour may be off, and the average
    pub max: f64,
    pub mean: f64,
    /// colours of fully transparent pixels are not part of the picture
    pub clear_is_free: bool,
}

/// (0 jpeg, 1 png, 2 gif, 3 bmp, 4 ico, 5 webp)
pub fn build(kind: u8, w: u32, h: u32, seed: u64) -> Option<Known> {
    let mut r = Rng::new(seed ^ 0x1e55_0f1e);
    let (w, h) = (w.clamp(1, 300), h.clamp(1, 300));
    let mut k = match kind {
        0 => jpeg(&mut r, w, h),
        1 => png(&mut r, w, h, None),
        2 => gif(&mut r, w, h),
        3 => {
            let (what, body, off, px) = dib(&mut r, w, h, None);
            let mut b = b"BM".to_vec();
            b.extend_from_slice(&((14 + body.len()) as u32).to_le_bytes());
            b.extend_from_slice(&[0; 4]);
            b.extend_from_slice(&(14 + off as u32).to_le_bytes());
            b.extend(body);
            Known { what, bytes: b, w, h, px, max: 0.51, mean: 0.51, clear_is_free: false }
        }
        4 => ico(&mut r, w.min(256), h.min(256)),
        _ => webp(&mut r, w.min(80), h.min(80))?,
    };
    k.what = format!("{} {}x{}", k.what, k.w, k.h);
    Some(k)
}

/// Sample values with some structure: n values of 0..=max.
fn samples(r: &mut Rng, n: usize, max: u32) -> Vec<u32> {
    let mode = r.below(3);
    let mut cur = 0u32;
    (0..n)
        .map(|i| {
            match mode {
                0 => cur = r.below(max as u64 + 1) as u32,
                1 => {
                    if r.chance(1, 9) {
                        cur = r.below(max as u64 + 1) as u32
                    }
                }
                _ => cur = (i as u32 / 3) % (max + 1),
            }
            cur
        })
        .collect()
}

// ---- PNG ----

const PNG_TYPES: [(u8, u32); 15] =
    [(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)];

fn filtered(r: &mut Rng, rows: &[Vec<u8>], bpp: usize, palette: bool) -> Vec<u8> {
    let mut out = vec![];
    let zero = vec![0u8; rows.first().map(|r| r.len()).unwrap_or(0)];
    for (y, row) in rows.iter().enumerate() {
        let up = if y == 0 { &zero } else { &rows[y - 1] };
        let f = if palette && r.chance(1, 2) { 0 } else { r.below(5) as u8 };
        out.push(f);
        for i in 0..row.len() {
            let a = if i >= bpp { row[i - bpp] } else { 0 };
            let b = up[i];
            let c = if i >= bpp { up[i - bpp] } else { 0 };
            let p = match f {
                0 => 0,
                1 => a,
                2 => b,
                3 => ((a as u16 + b as u16) / 2) as u8,
                _ => {
                    let p = a as i32 + b as i32 - c as i32;
                    let (pa, pb, pc) = ((p - a as i32).abs(), (p - b as i32).abs(), (p - c as i32).abs());
                    if pa <= pb && pa <= pc {
                        a
                    } else if pb <= pc {
                        b
                    } else {
                        c
                    }
                }
            };
            out.push(row[i].wrapping_sub(p));
        }
    }
    out
}

fn pack(v: &[u32], bits: u32) -> Vec<u8> {
    let mut out = vec![];
    if bits == 16 {
        for s in v {
            out.extend_from_slice(&(*s as u16).to_be_bytes());
        }
    } else {
        for c in v.chunks(8 / bits as usize) {
            let mut b = 0u8;
            for (i, s) in c.iter().enumerate() {
                b |= (*s as u8) << (8 - bits as usize * (i + 1));
            }
            out.push(b);
        }
    }
    out
}

fn png(r: &mut Rng, w: u32, h: u32, ty: Option<(u8, u32)>) -> Known {
    let (ct, bits) = ty.unwrap_or_else(|| *r.pick(&PNG_TYPES));
    let interlaced = ty.is_none() && r.chance(1, 3);
    let max = (1u32 << bits) - 1;
    let ch = [1usize, 0, 3, 1, 2, 0, 4][ct as usize];
    let colours = 1 + r.below(max.min(255) as u64 + 1) as u32;
    let n = (w * h) as usize;
    let v = samples(r, n * ch, if ct == 3 { colours - 1 } else { max });
    let pal: Vec<[u8; 3]> = (0..colours).map(|_| [r.next() as u8, r.next() as u8, r.next() as u8]).collect();
    // the transparent colour, or the alpha values of the palette
    let keyed = ty.is_none() && matches!(ct, 0 | 2 | 3) && r.chance(1, 2);
    let at = r.below(n as u64) as usize;
    let key: Vec<u32> = v[at * ch..(at + 1) * ch].to_vec();
    let alphas: Vec<u8> = (0..1 + r.below(colours as u64)).map(|_| *r.pick(&[0, 255, 128, 7, 200])).collect();
    let scale = 255.0 / max as f64;
    let px = v
        .chunks(ch)
        .map(|s| {
            let l = |i: usize| s[i] as f64 * scale;
            match ct {
                0 => [l(0), l(0), l(0), if keyed && s == &key[..] { 0.0 } else { 255.0 }],
                2 => [l(0), l(1), l(2), if keyed && s == &key[..] { 0.0 } else { 255.0 }],
                3 => {
                    let p = pal[s[0] as usize];
                    let a = if keyed { *alphas.get(s[0] as usize).unwrap_or(&255) } else { 255 };
                    [p[0] as f64, p[1] as f64, p[2] as f64, a as f64]
                }
                4 => [l(0), l(0), l(0), l(1)],
                _ => [l(0), l(1), l(2), l(3)],
            }
        })
        .collect();

    let bpp = (ch * bits as usize / 8).max(1);
    let mut raw = vec![];
    let mut pass = |r: &mut Rng, x0: u32, y0: u32, dx: u32, dy: u32| {
        let rows: Vec<Vec<u8>> = (y0..h)
            .step_by(dy as usize)
            .map(|y| {
                let row: Vec<u32> = (x0..w)
                    .step_by(dx as usize)
                    .flat_map(|x| {
                        let i = (y * w + x) as usize * ch;
                        v[i..i + ch].to_vec()
                    })
                    .collect();
                pack(&row, bits)
            })
            .filter(|r| !r.is_empty())
            .collect();
        raw.extend(filtered(r, &rows, bpp, ct == 3));
    };
    if interlaced {
        for (x0, y0, dx, dy) in adam7() {
            pass(r, x0, y0, dx, dy);
        }
    } else {
        pass(r, 0, 0, 1, 1);
    }

    let mut out = vec![0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A];
    let mut hdr = vec![];
    hdr.extend_from_slice(&w.to_be_bytes());
    hdr.extend_from_slice(&h.to_be_bytes());
    hdr.extend_from_slice(&[bits as u8, ct, 0, 0, interlaced as u8]);
    chunk(&mut out, b"IHDR", &hdr);
    if r.chance(1, 3) {
        chunk(&mut out, b"gAMA", &45455u32.to_be_bytes());
    }
    if r.chance(1, 4) {
        chunk(&mut out, b"tEXt", b"Comment\0made elsewhere");
    }
    if ct == 3 {
        chunk(&mut out, b"PLTE", &pal.concat());
        if keyed {
            chunk(&mut out, b"tRNS", &alphas);
        }
    } else if keyed {
        let k: Vec<u8> = key.iter().flat_map(|k| (*k as u16).to_be_bytes()).collect();
        chunk(&mut out, b"tRNS", &k);
    }
    let z = deflate(r, &raw);
    let mut rest = &z[..];
    while !rest.is_empty() {
        let n = *r.pick(&[rest.len(), 1, 40, 3000, 8192]);
        let n = n.min(rest.len());
        chunk(&mut out, b"IDAT", &rest[..n]);
        rest = &rest[n..];
    }
    if r.chance(1, 4) {
        chunk(&mut out, b"tIME", &[7, 0xE8, 1, 2, 3, 4, 5]);
    }
    chunk(&mut out, b"IEND", &[]);
    let what = format!("png type {} of {} bits{}{}", ct, bits, if keyed { ", transparency" } else { "" }, if interlaced { ", interlaced" } else { "" });
    let eps = if bits == 16 { 0.001 } else { 0.01 };
    Known { what, bytes: out, w, h, px, max: eps, mean: eps, clear_is_free: false }
}

// ---- GIF ----

fn gif(r: &mut Rng, w: u32, h: u32) -> Known {
    let mut out = vec![];
    let global = 1usize << (1 + r.below(8));
    let gp: Vec<u8> = (0..global * 3).map(|_| r.next() as u8).collect();
    let mut px = vec![];
    let mut what = String::new();
    {
        let mut e = gif::Encoder::new(&mut out, w as u16, h as u16, &gp).unwrap();
        if r.chance(1, 3) {
            e.set_repeat(gif::Repeat::Infinite).unwrap();
        }
        for i in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            let local = r.chance(1, 3);
            let colours = if local { 1usize << (1 + r.below(8)) } else { global };
            let lp: Vec<u8> = if local { (0..colours * 3).map(|_| r.next() as u8).collect() } else { gp.clone() };
            let ix: Vec<u8> = samples(r, (w * h) as usize, colours as u32 - 1).iter().map(|v| *v as u8).collect();
            let clear = if r.chance(1, 2) { Some(r.below(colours as u64) as u8) } else { None };
            let interlaced = r.chance(1, 3);
            let stored = if interlaced {
                // the encoder writes the rows as they are
                let order = [(0, 8), (4, 8), (2, 4), (1, 2)];
                let rows = order.iter().flat_map(|&(y, d)| (y..h).step_by(d));
                rows.flat_map(|y| ix[(y * w) as usize..((y + 1) * w) as usize].to_vec()).collect()
            } else {
                ix.clone()
            };
            let mut f = gif::Frame::from_indexed_pixels(w as u16, h as u16, stored, clear);
            f.interlaced = interlaced;
            f.delay = r.below(20) as u16;
            f.palette = if local { Some(lp.clone()) } else { None };
            if i == 0 {
                what = format!("gif of {} colours{}{}", colours, if clear.is_some() { ", transparency" } else { "" }, if f.interlaced { ", interlaced" } else { "" });
                px = ix
                    .iter()
                    .map(|i| {
                        let p = *i as usize * 3;
                        [lp[p] as f64, lp[p + 1] as f64, lp[p + 2] as f64, if Some(*i) == clear { 0.0 } else { 255.0 }]
                    })
                    .collect();
            }
            e.write_frame(&f).unwrap();
        }
    }
    Known { what, bytes: out, w, h, px, max: 0.01, mean: 0.01, clear_is_free: true }
}

// ---- BMP and the bitmaps of icons ----

/// Header, palette and pixels; where the pixels start; and the picture.
fn dib(r: &mut Rng, w: u32, h: u32, icon: Option<u32>) -> (String, Vec<u8>, usize, Vec<[f64; 4]>) {
    // (bits, compression)
    let (bits, comp): (u32, u32) = match icon {
        Some(b) => (b, 0),
        None => *r.pick(&[(1, 0), (4, 0), (8, 0), (16, 0), (24, 0), (32, 0), (8, 1), (4, 2), (16, 3), (32, 3)]),
    };
    let core = icon.is_none() && comp == 0 && !matches!(bits, 16 | 32) && r.chance(1, 5);
    let hs: u32 = if core { 12 } else if icon.is_some() { 40 } else { *r.pick(&[40, 40, 108, 124]) };
    let top_down = !core && icon.is_none() && matches!(comp, 0 | 3) && r.chance(1, 3);
    let colours: u32 = if bits <= 8 { 1 << bits } else { 0 };
    let used = if colours > 2 && !core && icon.is_none() && r.chance(1, 3) { 1 + r.below(colours as u64) as u32 } else { colours };
    let masks: [u32; 4] = match (bits, comp) {
        (16, 3) => *r.pick(&[[0xF800, 0x7E0, 0x1F, 0], [0x7C00, 0x3E0, 0x1F, 0], [0xF00, 0xF0, 0xF, 0xF000]]),
        (16, _) => [0x7C00, 0x3E0, 0x1F, 0],
        (32, 3) => *r.pick(&[[0xFF0000, 0xFF00, 0xFF, 0xFF000000], [0xFF, 0xFF00, 0xFF0000, 0], [0xFF000000, 0xFF0000, 0xFF00, 0xFF]]),
        (32, _) => [0xFF0000, 0xFF00, 0xFF, if icon.is_some() { 0xFF000000 } else { 0 }],
        _ => [0; 4],
    };
    // only the later headers have a mask for alpha
    let masks = if comp == 3 && hs == 40 { [masks[0], masks[1], masks[2], 0] } else { masks };
    let pal: Vec<[u8; 3]> = (0..used).map(|_| [r.next() as u8, r.next() as u8, r.next() as u8]).collect();
    let n = (w * h) as usize;

    let mut hdr = vec![];
    hdr.extend_from_slice(&hs.to_le_bytes());
    if core {
        hdr.extend_from_slice(&(w as u16).to_le_bytes());
        hdr.extend_from_slice(&(h as u16).to_le_bytes());
        hdr.extend_from_slice(&1u16.to_le_bytes());
        hdr.extend_from_slice(&(bits as u16).to_le_bytes());
    } else {
        let hh = if icon.is_some() { 2 * h } else { h } as i32;
        hdr.extend_from_slice(&w.to_le_bytes());
        hdr.extend_from_slice(&(if top_down { -hh } else { hh }).to_le_bytes());
        hdr.extend_from_slice(&1u16.to_le_bytes());
        hdr.extend_from_slice(&(bits as u16).to_le_bytes());
        for v in [comp, 0, 2835, 2835, if used == colours { 0 } else { used }, 0] {
            hdr.extend_from_slice(&v.to_le_bytes());
        }
        let mut ext = vec![];
        for m in masks {
            ext.extend_from_slice(&m.to_le_bytes());
        }
        ext.resize(84, 0);
        let n = if hs > 40 { hs as usize - 40 } else if comp == 3 { 12 } else { 0 };
        hdr.extend_from_slice(&ext[..n]);
    }
    for p in &pal {
        hdr.extend_from_slice(&[p[2], p[1], p[0]]);
        if !core {
            hdr.push(0);
        }
    }
    let off = hdr.len();

    let of = |p: [u8; 3]| [p[0] as f64, p[1] as f64, p[2] as f64, 255.0];
    let mut px = vec![];
    if bits <= 8 {
        let ix = samples(r, n, used - 1);
        px.extend(ix.iter().map(|i| of(pal[*i as usize])));
        for y in 0..h {
            let y = if top_down { y } else { h - 1 - y };
            let row = &ix[(y * w) as usize..((y + 1) * w) as usize];
            match comp {
                0 => {
                    let mut b = pack(row, bits);
                    b.resize((b.len() + 3) / 4 * 4, 0);
                    hdr.extend(b);
                }
                _ => {
                    rle(r, row, comp == 2, &mut hdr);
                    hdr.extend_from_slice(&[0, 0]);
                }
            }
        }
        if comp != 0 {
            hdr.extend_from_slice(&[0, 1]);
        }
    } else if bits == 24 {
        let v = samples(r, n * 3, 255);
        px.extend(v.chunks(3).map(|c| of([c[0] as u8, c[1] as u8, c[2] as u8])));
        for y in 0..h {
            let y = if top_down { y } else { h - 1 - y };
            let mut b = vec![];
            for c in v[(y * w) as usize * 3..((y + 1) * w) as usize * 3].chunks(3) {
                b.extend_from_slice(&[c[2] as u8, c[1] as u8, c[0] as u8]);
            }
            b.resize((b.len() + 3) / 4 * 4, 0);
            hdr.extend(b);
        }
    } else {
        let v: Vec<u32> = samples(r, n, 0x7fff_ffff).iter().map(|v| if bits == 16 { v & 0xFFFF } else { v ^ (v << 13) }).collect();
        px.extend(v.iter().map(|v| {
            let f = |m: u32| {
                if m == 0 {
                    255.0
                } else {
                    let max = (m >> m.trailing_zeros()) as f64;
                    ((v & m) >> m.trailing_zeros()) as f64 * 255.0 / max
                }
            };
            [f(masks[0]), f(masks[1]), f(masks[2]), f(masks[3])]
        }));
        for y in 0..h {
            let y = if top_down { y } else { h - 1 - y };
            let mut b = vec![];
            for c in &v[(y * w) as usize..((y + 1) * w) as usize] {
                b.extend_from_slice(&c.to_le_bytes()[..bits as usize / 8]);
            }
            b.resize((b.len() + 3) / 4 * 4, 0);
            hdr.extend(b);
        }
    }
    let what = format!("bmp of {} bits{}{}", bits, ["", ", run lengths", ", run lengths", ", masks"][comp as usize], if top_down { ", top down" } else { "" });
    (what, hdr, off, px)
}

fn rle(r: &mut Rng, row: &[u32], four: bool, d: &mut Vec<u8>) {
    let mut i = 0;
    while i < row.len() {
        let left = row.len() - i;
        if left >= 3 && r.chance(1, 4) {
            let n = (3 + r.below(30) as usize).min(left);
            d.extend_from_slice(&[0, n as u8]);
            let b = pack(&row[i..i + n], if four { 4 } else { 8 });
            d.extend_from_slice(&b);
            if b.len() & 1 == 1 {
                d.push(0);
            }
            i += n;
            continue;
        }
        // four bit runs alternate between two colours
        let (a, b) = (row[i], if four { row[(i + 1).min(row.len() - 1)] } else { row[i] });
        let mut n = 1;
        while n < left && n < 255 && row[i + n] == if n & 1 == 1 { b } else { a } {
            n += 1;
        }
        d.extend_from_slice(&[n as u8, if four { (a << 4 | b) as u8 } else { a as u8 }]);
        i += n;
    }
}

// ---- ICO ----

fn ico(r: &mut Rng, w: u32, h: u32) -> Known {
    // the entry with the most colours, and among those the largest, is the picture
    let n = *r.pick(&[1usize, 1, 2, 3]);
    let mut parts: Vec<(u32, u32, u32, Vec<u8>, Vec<[f64; 4]>, String)> = vec![];
    for i in 0..n {
        let (w, h) = if i == 0 { (w, h) } else { (1 + r.below(64) as u32, 1 + r.below(64) as u32) };
        if r.chance(1, 3) {
            let k = png(r, w, h, Some((6, 8)));
            parts.push((w, h, 32, k.bytes, k.px, "png".into()));
            continue;
        }
        let bits = *r.pick(&[1u32, 4, 8, 24, 32, 32]);
        let (what, mut d, _, mut px) = dib(r, w, h, Some(bits));
        if bits < 32 || r.chance(3, 4) {
            let row = ((w + 31) / 32 * 4) as usize;
            let mut mask = vec![0u8; row * h as usize];
            let kind = r.below(3);
            for y in 0..h {
                for x in 0..w {
                    if kind == 0 || (kind == 1 && r.chance(1, 2)) {
                        continue;
                    }
                    if r.chance(1, 3) {
                        px[(y * w + x) as usize][3] = 0.0;
                        mask[(h - 1 - y) as usize * row + x as usize / 8] |= 0x80 >> (x & 7);
                    }
                }
            }
            d.extend(mask);
        }
        parts.push((w, h, bits, d, px, what));
    }
    let mut out = vec![0, 0, 1, 0, n as u8, 0];
    let mut off = 6 + 16 * n;
    for (w, h, bits, d, _, _) in &parts {
        out.extend_from_slice(&[*w as u8, *h as u8, 0, 0, 1, 0, *bits as u8, 0]);
        out.extend_from_slice(&(d.len() as u32).to_le_bytes());
        out.extend_from_slice(&(off as u32).to_le_bytes());
        off += d.len();
    }
    for p in &parts {
        out.extend_from_slice(&p.3);
    }
    let best = (0..n).max_by_key(|&i| (parts[i].2, parts[i].0 * parts[i].1)).unwrap();
    // of two equally good entries either may be shown: keep the picture unambiguous
    let tie = (0..n).any(|i| i != best && (parts[i].2, parts[i].0 * parts[i].1) == (parts[best].2, parts[best].0 * parts[best].1));
    if tie {
        return ico(r, w, h);
    }
    let p = parts.swap_remove(best);
    Known { what: format!("icon of {} entries ({})", n, p.5), bytes: out, w: p.0, h: p.1, px: p.4, max: 0.51, mean: 0.51, clear_is_free: true }
}

// ---- JPEG ----

fn ct_is_cmyk(ct: jpeg_encoder::ColorType) -> bool {
    matches!(ct, jpeg_encoder::ColorType::Cmyk | jpeg_encoder::ColorType::CmykAsYcck)
}

fn jpeg(r: &mut Rng, w: u32, h: u32) -> Known {
    use jpeg_encoder::{ColorType, Encoder, SamplingFactor};
    let (ct, ch, name) = *r.pick(&[
        (ColorType::Luma, 1, "grey"),
        (ColorType::Rgb, 3, "colour"),
        (ColorType::Bgra, 4, "bgra"),
        (ColorType::Cmyk, 4, "cmyk"),
        (ColorType::CmykAsYcck, 4, "ycck"),
    ]);
    // nothing is lost of paper without ink
    let blank = ct_is_cmyk(ct) && r.chance(1, 6);
    let v: Vec<u8> = if blank {
        vec![0; (w * h) as usize * ch]
    } else if r.chance(1, 2) {
        let one: Vec<u8> = (0..ch).map(|_| r.next() as u8).collect();
        (0..(w * h) as usize).flat_map(|_| one.clone()).collect()
    } else {
        samples(r, (w * h) as usize * ch, 255).iter().map(|v| *v as u8).collect()
    };
    let px = v
        .chunks(ch)
        .map(|c| {
            let f = |i: usize| c[i] as f64;
            match ct {
                ColorType::Luma => [f(0), f(0), f(0), 255.0],
                ColorType::Rgb => [f(0), f(1), f(2), 255.0],
                ColorType::Bgra => [f(2), f(1), f(0), 255.0],
                _ => {
                    let k = 255.0 - f(3);
                    [(255.0 - f(0)) * k / 255.0, (255.0 - f(1)) * k / 255.0, (255.0 - f(2)) * k / 255.0, 255.0]
                }
            }
        })
        .collect();
    let mut out = vec![];
    let mut e = Encoder::new(&mut out, 100);
    e.set_sampling_factor(SamplingFactor::F_1_1);
    let prog = r.chance(1, 2);
    if prog {
        e.set_progressive_scans(2 + r.below(20) as u8);
    }
    // the encoder writes broken files when it is given both
    match r.below(3) {
        0 => e.set_restart_interval(1 + r.below(20) as u16),
        1 => e.set_optimized_huffman_tables(true),
        _ => {}
    }
    if r.chance(1, 3) {
        let n = r.below(300) as usize;
        let t: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        e.add_app_segment(1 + r.below(12) as u8, &t).unwrap();
    }
    e.encode(&v, w as u16, h as u16, ct).unwrap();
    Known { what: format!("jpeg {}{}", name, if prog { ", progressive" } else { "" }), bytes: out, w, h, px, max: if blank { 0.51 } else { 14.0 }, mean: 5.0, clear_is_free: false }
}

// ---- WebP ----

/// The lossless file of a known picture inside the extended container.
fn webp(r: &mut Rng, w: u32, h: u32) -> Option<Known> {
    let img = ImgSpec { w, h, kind: *r.pick(&[0, 1, 3, 4, 5, 8, 10, 11]), seed: r.next() }.build();
    let b = img.save_to_buffer(Fmt::WebP { q: 100, preset: 6 }.enc()).ok()?;
    let px: Vec<[f64; 4]> = img.data().iter().map(|c| levels(c, false, true, 255.0).map(|v| v.round())).collect();
    let mut t = |r: &mut Rng, flags: &mut u8, f: u8, name: &[u8]| {
        if !r.chance(1, 3) {
            return vec![];
        }
        *flags |= f;
        let n = 2 * (1 + r.below(45) as usize);
        let mut c = name.to_vec();
        c.extend_from_slice(&(n as u32).to_le_bytes());
        c.extend((0..n).map(|_| r.next() as u8));
        c
    };
    let mut flags = 0x10u8;
    let icc = t(r, &mut flags, 0x20, b"ICCP");
    let exif = t(r, &mut flags, 0x08, b"EXIF");
    let xmp = t(r, &mut flags, 0x04, b"XMP ");
    let mut out = b"RIFF\0\0\0\0WEBPVP8X".to_vec();
    out.extend_from_slice(&10u32.to_le_bytes());
    out.extend_from_slice(&[flags, 0, 0, 0]);
    out.extend_from_slice(&(w - 1).to_le_bytes()[..3]);
    out.extend_from_slice(&(h - 1).to_le_bytes()[..3]);
    out.extend(icc);
    out.extend_from_slice(&b[12..]);
    if out.len() & 1 == 1 {
        out.push(0);
    }
    out.extend(exif);
    out.extend(xmp);
    let n = out.len() as u32 - 8;
    out[4..8].copy_from_slice(&n.to_le_bytes());
    Some(Known { what: "webp extended".into(), bytes: out, w, h, px, max: 0.01, mean: 0.01, clear_is_free: true })
}
