//! Files as other programs write them: the features of the formats that this library's own
//! encoders never use (palettes, interlacing, bit depths, run lengths, several frames or icons,
//! colour models, metadata).
use crate::img::*;
use simcore::rng::Rng;
use std::io::Write;

pub fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

/// The file of this kind (0 jpeg, 1 png, 2 gif, 3 bmp, 4 ico, 5 webp).
pub fn build(kind: u8, w: u32, h: u32, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x5eed_f11e);
    let (w, h) = (w.clamp(1, 300), h.clamp(1, 300));
    match kind {
        0 => jpeg(&mut r, w, h),
        1 => png(&mut r, w, h, None, true),
        2 => gif(&mut r, w, h),
        3 => bmp(&mut r, w, h),
        4 => ico(&mut r, w.min(256), h.min(256)),
        _ => webp(&mut r, w.min(80), h.min(80)),
    }
}

fn texture(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.below(3);
    let mut v = Vec::with_capacity(n);
    let mut cur = 0u8;
    for i in 0..n {
        match mode {
            0 => cur = r.next() as u8,
            1 => {
                if r.chance(1, 9) {
                    cur = r.next() as u8
                }
            }
            _ => cur = (i / 3) as u8,
        }
        v.push(cur);
    }
    v
}

// ---- PNG ----

pub fn adam7() -> [(u32, u32, u32, u32); 7] {
    [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
}

pub fn chunk(out: &mut Vec<u8>, t: &[u8; 4], d: &[u8]) {
    out.extend_from_slice(&(d.len() as u32).to_be_bytes());
    let p = out.len();
    out.extend_from_slice(t);
    out.extend_from_slice(d);
    let c = crc(&out[p..]);
    out.extend_from_slice(&c.to_be_bytes());
}

pub fn deflate(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(r.below(10) as u32));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

/// (colour type, bit depth)
const PNG_TYPES: [(u8, u8); 15] = [
    (0, 1),
    (0, 2),
    (0, 4),
    (0, 8),
    (0, 16),
    (2, 8),
    (2, 16),
    (3, 1),
    (3, 2),
    (3, 4),
    (3, 8),
    (4, 8),
    (4, 16),
    (6, 8),
    (6, 16),
];

fn png_rows(r: &mut Rng, w: u32, h: u32, ct: u8, bits: u8, pal: usize, out: &mut Vec<u8>) {
    let ch = [1, 0, 3, 1, 2, 0, 4][ct as usize];
    let row = ((w as usize * ch * bits as usize) + 7) / 8;
    for _ in 0..h {
        if ct == 3 {
            out.push(0);
            let per = 8 / bits as usize;
            for b in 0..row {
                let mut v = 0u8;
                for i in 0..per {
                    let x = b * per + i;
                    let p = if x < w as usize { r.below(pal as u64) as u8 } else { 0 };
                    v |= p << (8 - bits as usize * (i + 1));
                }
                out.push(v);
            }
        } else {
            out.push(r.below(5) as u8);
            let t = texture(r, row);
            out.extend_from_slice(&t);
        }
    }
}

fn png(r: &mut Rng, w: u32, h: u32, ty: Option<(u8, u8)>, extras: bool) -> Vec<u8> {
    let (ct, bits) = ty.unwrap_or_else(|| *r.pick(&PNG_TYPES));
    let interlaced = extras && r.chance(1, 3);
    let mut out = vec![0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A];
    let mut hdr = vec![];
    hdr.extend_from_slice(&w.to_be_bytes());
    hdr.extend_from_slice(&h.to_be_bytes());
    hdr.extend_from_slice(&[bits, ct, 0, 0, interlaced as u8]);
    chunk(&mut out, b"IHDR", &hdr);
    if extras {
        if r.chance(1, 3) {
            chunk(&mut out, b"gAMA", &45455u32.to_be_bytes());
        }
        if r.chance(1, 4) {
            chunk(&mut out, b"sRGB", &[0]);
        }
        if r.chance(1, 4) {
            let t = texture(r, 40);
            chunk(&mut out, b"teXt", &t);
            chunk(&mut out, b"tEXt", b"Comment\0made elsewhere");
        }
        if r.chance(1, 4) {
            chunk(&mut out, b"pHYs", &[0, 0, 0x0B, 0x13, 0, 0, 0x0B, 0x13, 1]);
        }
    }
    let mut pal = 0;
    if ct == 3 {
        pal = 1 + r.below((1u64 << bits).min(256)) as usize;
        let p = texture(r, pal * 3);
        chunk(&mut out, b"PLTE", &p);
    }
    if extras && r.chance(1, 3) {
        match ct {
            0 => chunk(&mut out, b"tRNS", &[0, r.next() as u8]),
            2 => {
                let t = [0, r.next() as u8, 0, r.next() as u8, 0, r.next() as u8];
                chunk(&mut out, b"tRNS", &t)
            }
            3 => {
                let n = 1 + r.below(pal as u64) as usize;
                let t = texture(r, n);
                chunk(&mut out, b"tRNS", &t)
            }
            _ => {}
        }
    }
    let animated = extras && r.chance(1, 8);
    let fctl = |seq: u32| {
        let mut f = vec![];
        f.extend_from_slice(&seq.to_be_bytes());
        f.extend_from_slice(&w.to_be_bytes());
        f.extend_from_slice(&h.to_be_bytes());
        f.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 10, 0, 0]);
        f
    };
    let first_is_frame = r.chance(1, 2);
    if animated {
        chunk(&mut out, b"acTL", &[0, 0, 0, 1 + first_is_frame as u8, 0, 0, 0, 0]);
        if first_is_frame {
            chunk(&mut out, b"fcTL", &fctl(0));
        }
    }
    let image = |r: &mut Rng| {
        let mut raw = vec![];
        if interlaced {
            for (x0, y0, dx, dy) in adam7() {
                if w > x0 && h > y0 {
                    png_rows(r, (w - x0 + dx - 1) / dx, (h - y0 + dy - 1) / dy, ct, bits, pal, &mut raw);
                }
            }
        } else {
            png_rows(r, w, h, ct, bits, pal, &mut raw);
        }
        deflate(r, &raw)
    };
    let z = image(r);
    let mut rest = &z[..];
    while !rest.is_empty() {
        let n = match r.below(4) {
            0 => rest.len(),
            1 => r.below(40) as usize,
            2 => r.below(3000) as usize,
            _ => 8192,
        }
        .min(rest.len());
        chunk(&mut out, b"IDAT", &rest[..n]);
        rest = &rest[n..];
    }
    if animated {
        let s = first_is_frame as u32;
        chunk(&mut out, b"fcTL", &fctl(s));
        let mut d = (s + 1).to_be_bytes().to_vec();
        d.extend(image(r));
        chunk(&mut out, b"fdAT", &d);
    }
    if extras && r.chance(1, 4) {
        chunk(&mut out, b"tIME", &[7, 0xE8, 1, 2, 3, 4, 5]);
    }
    chunk(&mut out, b"IEND", &[]);
    if extras && r.chance(1, 8) {
        let t = texture(r, 20);
        out.extend(t);
    }
    out
}

// ---- GIF ----

fn gif(r: &mut Rng, w: u32, h: u32) -> Vec<u8> {
    let mut out = vec![];
    let global = 1usize << (1 + r.below(8));
    let gp = texture(r, global * 3);
    // the screen may be larger than the first frame
    let (sw, sh) = if r.chance(1, 3) { (w + r.below(40) as u32, h + r.below(40) as u32) } else { (w, h) };
    {
        let mut e = gif::Encoder::new(&mut out, sw as u16, sh as u16, &gp).unwrap();
        if r.chance(1, 3) {
            e.set_repeat(gif::Repeat::Infinite).unwrap();
        }
        let n = *r.pick(&[1, 1, 1, 2, 3]);
        for i in 0..n {
            let (fw, fh) = if i == 0 { (w, h) } else { (1 + r.below(w as u64) as u32, 1 + r.below(h as u64) as u32) };
            let local = r.chance(1, 3);
            let colours = if local { 1usize << (1 + r.below(8)) } else { global };
            let lp = texture(r, colours * 3);
            let mut px = texture(r, (fw * fh) as usize);
            px.iter_mut().for_each(|p| *p = (*p as usize % colours) as u8);
            let mut f = gif::Frame::from_indexed_pixels(fw as u16, fh as u16, px, if r.chance(1, 3) { Some(0) } else { None });
            f.left = r.below((sw - fw) as u64 + 1) as u16;
            f.top = r.below((sh - fh) as u64 + 1) as u16;
            f.interlaced = r.chance(1, 3);
            f.delay = r.below(20) as u16;
            f.palette = if local { Some(lp) } else { None };
            e.write_frame(&f).unwrap();
        }
    }
    if r.chance(1, 4) {
        out[4] = b'7';
    }
    out
}

// ---- BMP ----

fn bmp_rle(r: &mut Rng, w: u32, h: u32, four: bool) -> Vec<u8> {
    let mut d = vec![];
    for _ in 0..h {
        let mut x = 0;
        while x < w {
            let left = w - x;
            match r.below(5) {
                0 if left >= 3 => {
                    // absolute
                    let n = (3 + r.below(20) as u32).min(left).min(255);
                    d.extend_from_slice(&[0, n as u8]);
                    let bytes = if four { (n + 1) / 2 } else { n };
                    for _ in 0..bytes {
                        d.push(r.next() as u8);
                    }
                    if bytes & 1 == 1 {
                        d.push(0);
                    }
                    x += n;
                }
                1 if r.chance(1, 6) => break,
                2 if r.chance(1, 8) && left > 2 => {
                    d.extend_from_slice(&[0, 2, 1, 0]);
                    x += 1;
                }
                _ => {
                    let n = (1 + r.below(40) as u32).min(left).min(255);
                    d.extend_from_slice(&[n as u8, r.next() as u8]);
                    x += n;
                }
            }
        }
        d.extend_from_slice(&[0, 0]);
    }
    d.extend_from_slice(&[0, 1]);
    d
}

fn bmp(r: &mut Rng, w: u32, h: u32) -> Vec<u8> {
    let core = r.chance(1, 8);
    let (bits, comp): (u32, u32) = if core {
        (*r.pick(&[1, 4, 8, 24]), 0)
    } else {
        *r.pick(&[(1, 0), (2, 0), (4, 0), (8, 0), (16, 0), (24, 0), (32, 0), (8, 1), (4, 2), (16, 3), (32, 3)])
    };
    let hs: u32 = if core { 12 } else { *r.pick(&[40, 40, 52, 56, 108, 124]) };
    let top_down = !core && comp != 1 && comp != 2 && r.chance(1, 4);
    let colours: u32 = if bits <= 8 { 1 << bits } else { 0 };
    let used = if colours > 2 && !core && r.chance(1, 3) { 1 + r.below(colours as u64) as u32 } else { colours };
    let mut hdr = vec![];
    hdr.extend_from_slice(&hs.to_le_bytes());
    if core {
        hdr.extend_from_slice(&(w as u16).to_le_bytes());
        hdr.extend_from_slice(&(h as u16).to_le_bytes());
        hdr.extend_from_slice(&1u16.to_le_bytes());
        hdr.extend_from_slice(&(bits as u16).to_le_bytes());
    } else {
        hdr.extend_from_slice(&w.to_le_bytes());
        hdr.extend_from_slice(&(if top_down { -(h as i32) } else { h as i32 }).to_le_bytes());
        hdr.extend_from_slice(&1u16.to_le_bytes());
        hdr.extend_from_slice(&(bits as u16).to_le_bytes());
        for v in [comp, 0, 2835, 2835, if used == colours { 0 } else { used }, 0] {
            hdr.extend_from_slice(&v.to_le_bytes());
        }
        let masks: [u32; 4] = if bits == 16 {
            *r.pick(&[[0xF800, 0x7E0, 0x1F, 0], [0x7C00, 0x3E0, 0x1F, 0], [0xF00, 0xF0, 0xF, 0xF000]])
        } else {
            *r.pick(&[[0xFF0000, 0xFF00, 0xFF, 0xFF000000], [0xFF, 0xFF00, 0xFF0000, 0], [0x3FF00000, 0xFFC00, 0x3FF, 0]])
        };
        let mut ext = vec![];
        for m in masks {
            ext.extend_from_slice(&m.to_le_bytes());
        }
        ext.resize(84, 0);
        let n = if hs > 40 { hs as usize - 40 } else if comp == 3 { 12 } else { 0 };
        hdr.extend_from_slice(&ext[..n]);
    }
    let pal = if core { texture(r, colours as usize * 3) } else { texture(r, used as usize * 4) };
    let data = if comp == 1 || comp == 2 {
        bmp_rle(r, w, h, comp == 2)
    } else {
        let row = ((w * bits + 31) / 32 * 4) as usize;
        texture(r, row * h as usize)
    };
    let mut out = b"BM".to_vec();
    let off = 14 + hdr.len() + pal.len();
    out.extend_from_slice(&((off + data.len()) as u32).to_le_bytes());
    out.extend_from_slice(&[0; 4]);
    out.extend_from_slice(&(off as u32).to_le_bytes());
    out.extend(hdr);
    out.extend(pal);
    out.extend(data);
    out
}

// ---- ICO ----

fn ico(r: &mut Rng, w: u32, h: u32) -> Vec<u8> {
    let n = *r.pick(&[1usize, 1, 2, 3]);
    let mut parts = vec![];
    for i in 0..n {
        let (w, h) = if i == 0 { (w, h) } else { (1 + r.below(64) as u32, 1 + r.below(64) as u32) };
        if r.chance(1, 3) {
            parts.push((w, h, 32, png(r, w, h, Some((6, 8)), false)));
            continue;
        }
        let bits = *r.pick(&[1u32, 4, 8, 24, 32, 32]);
        let colours = if bits <= 8 { 1u32 << bits } else { 0 };
        let mut d = vec![];
        for v in [40, w, 2 * h] {
            d.extend_from_slice(&v.to_le_bytes());
        }
        d.extend_from_slice(&1u16.to_le_bytes());
        d.extend_from_slice(&(bits as u16).to_le_bytes());
        for v in [0u32; 6] {
            d.extend_from_slice(&v.to_le_bytes());
        }
        d.extend(texture(r, colours as usize * 4));
        d.extend(texture(r, ((w * bits + 31) / 32 * 4 * h) as usize));
        if bits < 32 || r.chance(3, 4) {
            d.extend(texture(r, ((w + 31) / 32 * 4 * h) as usize));
        }
        parts.push((w, h, bits, d));
    }
    let mut out = vec![0, 0, 1, 0, n as u8, 0];
    let mut off = 6 + 16 * n;
    for (w, h, bits, d) in &parts {
        out.extend_from_slice(&[*w as u8, *h as u8, 0, 0, 1, 0, *bits as u8, 0]);
        out.extend_from_slice(&(d.len() as u32).to_le_bytes());
        out.extend_from_slice(&(off as u32).to_le_bytes());
        off += d.len();
    }
    for p in parts {
        out.extend(p.3);
    }
    out
}

// ---- JPEG ----

fn jpeg(r: &mut Rng, w: u32, h: u32) -> Vec<u8> {
    use jpeg_encoder::{ColorType, Density, Encoder, SamplingFactor};
    let (ct, ch) = *r.pick(&[
        (ColorType::Luma, 1),
        (ColorType::Rgb, 3),
        (ColorType::Rgba, 4),
        (ColorType::Bgr, 3),
        (ColorType::Bgra, 4),
        (ColorType::Ycbcr, 3),
        (ColorType::Cmyk, 4),
        (ColorType::CmykAsYcck, 4),
        (ColorType::Ycck, 4),
    ]);
    let px = texture(r, (w * h * ch) as usize);
    let mut out = vec![];
    let mut e = Encoder::new(&mut out, 1 + r.below(100) as u8);
    e.set_sampling_factor(*r.pick(&[
        SamplingFactor::F_1_1,
        SamplingFactor::F_2_1,
        SamplingFactor::F_2_2,
        SamplingFactor::F_4_2,
    ]));
    if r.chance(1, 2) {
        e.set_progressive_scans(2 + r.below(20) as u8);
    }
    if r.chance(1, 2) {
        e.set_restart_interval(r.below(20) as u16);
    }
    if r.chance(1, 3) {
        e.set_density(Density::Inch { x: 72, y: 300 });
    }
    e.set_optimized_huffman_tables(r.chance(1, 2));
    if r.chance(1, 3) {
        let n = r.below(300) as usize;
        let t = texture(r, n);
        e.add_app_segment(1 + r.below(12) as u8, &t).unwrap();
    }
    if r.chance(1, 4) {
        let t = texture(r, 600);
        e.add_icc_profile(&t).unwrap();
    }
    e.encode(&px, w as u16, h as u16, ct).unwrap();
    if r.chance(1, 4) {
        let c = [0xFF, 0xFE, 0, 6, b'h', b'e', b'y', b'!'];
        out.splice(2..2, c);
    }
    out
}

// ---- WebP ----

fn webp(r: &mut Rng, w: u32, h: u32) -> Vec<u8> {
    let img = ImgSpec { w, h, kind: r.below(KINDS as u64) as u8, seed: r.next() }.build();
    let f = Fmt::WebP { q: r.below(101) as u8, preset: *r.pick(&[0, 2, 6, 6]) };
    let Ok(b) = img.save_to_buffer(f.enc()) else { return vec![] };
    let mut chunks: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut p = 12;
    while p + 8 <= b.len() {
        let n = u32::from_le_bytes([b[p + 4], b[p + 5], b[p + 6], b[p + 7]]) as usize;
        chunks.push((b[p..p + 4].to_vec(), b[p + 8..(p + 8 + n).min(b.len())].to_vec()));
        p += 8 + n + (n & 1);
    }
    chunks.retain(|c| c.0 != b"VP8X");
    let mut flags = 0x10u8;
    let t = |r: &mut Rng| {
        let n = 1 + r.below(90) as usize;
        texture(r, n)
    };
    let animated = r.chance(1, 10);
    if animated {
        flags |= 2;
        let mut f = vec![0; 6];
        f.extend_from_slice(&(w - 1).to_le_bytes()[..3]);
        f.extend_from_slice(&(h - 1).to_le_bytes()[..3]);
        f.extend_from_slice(&[100, 0, 0, 0]);
        for (n, d) in &chunks {
            f.extend_from_slice(n);
            f.extend_from_slice(&(d.len() as u32).to_le_bytes());
            f.extend_from_slice(d);
            if d.len() & 1 == 1 {
                f.push(0);
            }
        }
        chunks = vec![(b"ANIM".to_vec(), vec![0; 6]), (b"ANMF".to_vec(), f)];
    }
    if r.chance(1, 3) {
        flags |= 0x20;
        let d = t(r);
        chunks.insert(0, (b"ICCP".to_vec(), d));
    }
    if r.chance(1, 3) {
        flags |= 0x08;
        let d = t(r);
        chunks.push((b"EXIF".to_vec(), d));
    }
    if r.chance(1, 3) {
        flags |= 0x04;
        let d = t(r);
        chunks.push((b"XMP ".to_vec(), d));
    }
    if r.chance(1, 4) {
        let d = t(r);
        chunks.push((b"what".to_vec(), d));
    }
    let mut x = vec![flags, 0, 0, 0];
    x.extend_from_slice(&(w - 1).to_le_bytes()[..3]);
    x.extend_from_slice(&(h - 1).to_le_bytes()[..3]);
    chunks.insert(0, (b"VP8X".to_vec(), x));
    let mut out = b"RIFF\0\0\0\0WEBP".to_vec();
    for (n, d) in chunks {
        out.extend_from_slice(&n);
        out.extend_from_slice(&(d.len() as u32).to_le_bytes());
        out.extend_from_slice(&d);
        if d.len() & 1 == 1 {
            out.push(0);
        }
    }
    let n = out.len() as u32 - 8;
    out[4..8].copy_from_slice(&n.to_le_bytes());
    out
}
