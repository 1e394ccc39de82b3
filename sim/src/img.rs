//! Generated pictures and formats, and the independent reference quantiser.
use d10::{
    BmpColorType, Color, EncodingFormat, IcoColorType, Image, JpegSamplingFactor, PngColorType, PngCompression,
    PngFilterType, Rgb, Srgb, WebPPreset,
};
use serde::{Deserialize, Serialize};
use simcore::rng::{mix2, Fnv, Rng};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ImgSpec {
    pub w: u32,
    pub h: u32,
    pub kind: u8,
    pub seed: u64,
}

pub const KINDS: u8 = 12;
/// added to the `kind` of a picture of more than 12.5 million pixels
pub const LARGE: u8 = 5 * KINDS;
/// `kind` of a file made by another program (see foreign.rs)
pub const FOREIGN: u8 = 100;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Size {
    Tiny,
    Small,
    Mixed,
}

fn px8(r: u8, g: u8, b: u8, a: u8) -> Rgb {
    Srgb::new_with_alpha(r as f32 / 255.0, g as f32 / 255.0, b as f32 / 255.0, a as f32 / 255.0).to_rgb()
}

impl ImgSpec {
    pub fn gen(r: &mut Rng, s: Size) -> ImgSpec {
        let m = match s {
            Size::Tiny => 6,
            Size::Small => 24,
            Size::Mixed => match r.below(100) {
                0..=39 => 12,
                40..=84 => 48,
                85..=97 => 110,
                _ => 240,
            },
        };
        let mut w = r.range(1, m) as u32;
        let mut h = r.range(1, m) as u32;
        if r.chance(1, 12) {
            w = 1;
        }
        if r.chance(1, 12) {
            h = 1;
        }
        let mut i = ImgSpec { w, h, kind: r.below(KINDS as u64) as u8, seed: r.next() };
        if s == Size::Mixed && r.chance(1, 60) {
            i.extreme(r);
        }
        i
    }

    /// Thin pictures as long as the limits of the formats and of common number types.
    pub fn extreme(&mut self, r: &mut Rng) {
        let l = *r.pick(&[255, 256, 257, 1025, 4095, 4096, 8193, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 70000]);
        self.w = l;
        self.h = 1 + r.below(3) as u32 / 2;
        if r.chance(1, 2) {
            std::mem::swap(&mut self.w, &mut self.h);
        }
    }

    /// Pictures beyond the limits that decoders set for themselves.
    pub fn large(&mut self, r: &mut Rng) {
        self.kind = LARGE + *r.pick(&[4, 5, 6, 10]);
        self.w = r.range(3600, 16383) as u32;
        self.h = 12_600_000 / self.w + 1 + r.below(40) as u32;
    }

    /// one in `n` becomes a file made by another program
    pub fn maybe_foreign(mut self, r: &mut Rng, n: u64) -> ImgSpec {
        if r.chance(1, n) {
            self.kind = FOREIGN;
        }
        self
    }

    pub fn small_for_ico(mut self) -> ImgSpec {
        // some remain too large for an icon, which is then refused
        if self.seed % 16 != 0 {
            self.w = self.w.min(256);
            self.h = self.h.min(256);
        }
        self
    }

    pub fn dims(&self) -> (u32, u32) {
        let most = if (LARGE..LARGE + KINDS).contains(&self.kind) { 1 << 24 } else { 1 << 21 };
        (self.w.clamp(1, 70000), self.h.clamp(1, 70000.min(most / self.w.clamp(1, 70000))))
    }

    pub fn build(&self) -> Image {
        let (w, h) = self.dims();
        let mut r = Rng::new(self.seed);
        let n = (w * h) as usize;
        let mut d: Vec<Rgb> = Vec::with_capacity(n);
        let palette: Vec<Rgb> = (0..(2 + r.below(14)))
            .map(|_| {
                let a = if self.kind == 11 { *r.pick(&[0u8, 255, 255]) } else { 255 };
                px8(r.next() as u8, r.next() as u8, r.next() as u8, a)
            })
            .collect();
        let mut run = 0u64;
        let mut cur = Rgb::BLACK;
        for i in 0..n {
            let (x, y) = (i as u32 % w, i as u32 / w);
            let c = match self.kind % KINDS {
                0 => px8(r.next() as u8, r.next() as u8, r.next() as u8, 255),
                1 => px8(r.next() as u8, r.next() as u8, r.next() as u8, r.next() as u8),
                2 => Srgb::new_with_alpha(
                    (r.next() & 65535) as f32 / 65535.0,
                    (r.next() & 65535) as f32 / 65535.0,
                    (r.next() & 65535) as f32 / 65535.0,
                    (r.next() & 65535) as f32 / 65535.0,
                )
                .to_rgb(),
                3 => {
                    let v = r.next() as u8;
                    px8(v, v, v, 255)
                }
                4 | 11 => *r.pick(&palette),
                5 => px8(
                    (x * 255 / w.max(2).saturating_sub(1).max(1)).min(255) as u8,
                    (y * 255 / h.max(2).saturating_sub(1).max(1)).min(255) as u8,
                    ((x + y) & 255) as u8,
                    255,
                ),
                6 => palette[0],
                7 => Rgb { data: [r.f32(), r.f32(), r.f32(), r.f32()] },
                8 => px8(r.next() as u8, r.next() as u8, r.next() as u8, *r.pick(&[0, 255, 255, 128, 1, 254])),
                9 => {
                    let v = [0.0f32, 1.0, -0.5, 1.5, 0.5, 0.0031308, 1e-9];
                    Rgb { data: [*r.pick(&v), *r.pick(&v), *r.pick(&v), *r.pick(&[0.0, 1.0, 0.5])] }
                }
                _ => {
                    if run == 0 {
                        run = 1 + r.below(1 + r.0 % 97);
                        cur = px8(r.next() as u8, r.next() as u8, r.next() as u8, 255);
                    }
                    run -= 1;
                    cur
                }
            };
            d.push(c);
        }
        Image::new_from_raw(w, h, d)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fmt {
    Jpeg { q: u8, prog: bool, sf: u8, gray: bool, opt: bool },
    Png { ct: u8, comp: u8, filt: u8 },
    Gif,
    Bmp { ct: u8 },
    Ico { ct: u8 },
    WebP { q: u8, preset: u8 },
}

const PNG_CT: [PngColorType; 8] = [
    PngColorType::L8,
    PngColorType::La8,
    PngColorType::L16,
    PngColorType::La16,
    PngColorType::Rgb8,
    PngColorType::Rgba8,
    PngColorType::Rgb16,
    PngColorType::Rgba16,
];

impl Fmt {
    pub fn gen(r: &mut Rng) -> Fmt {
        let k = r.below(6) as u8;
        Self::gen_kind(r, k)
    }
    pub fn gen_kind(r: &mut Rng, k: u8) -> Fmt {
        match k {
            0 => Fmt::Jpeg {
                q: r.below(101) as u8,
                prog: r.chance(1, 2),
                sf: r.below(17) as u8,
                gray: r.chance(1, 4),
                opt: r.chance(1, 2),
            },
            1 => Fmt::Png { ct: r.below(8) as u8, comp: r.below(3) as u8, filt: r.below(5) as u8 },
            2 => Fmt::Gif,
            3 => Fmt::Bmp { ct: r.below(4) as u8 },
            4 => Fmt::Ico { ct: r.below(4) as u8 },
            _ => Fmt::WebP { q: r.below(101) as u8, preset: r.below(7) as u8 },
        }
    }
    /// A format that keeps every stored value.
    pub fn gen_lossless(r: &mut Rng) -> Fmt {
        match r.below(10) {
            0..=4 => Self::gen_kind(r, 1),
            5 | 6 => Self::gen_kind(r, 3),
            7 | 8 => Self::gen_kind(r, 4),
            _ => Fmt::WebP { q: 100, preset: 6 },
        }
    }
    /// The format an extension stands for.
    pub fn of_ext(k: u8) -> Fmt {
        match k {
            0 => Fmt::Jpeg { q: 85, prog: false, sf: 0, gray: false, opt: true },
            1 => Fmt::Png { ct: 5, comp: 0, filt: 1 },
            2 => Fmt::Gif,
            3 => Fmt::Bmp { ct: 3 },
            4 => Fmt::Ico { ct: 3 },
            _ => Fmt::WebP { q: 90, preset: 0 },
        }
    }
    pub fn kind(&self) -> u8 {
        match self {
            Fmt::Jpeg { .. } => 0,
            Fmt::Png { .. } => 1,
            Fmt::Gif => 2,
            Fmt::Bmp { .. } => 3,
            Fmt::Ico { .. } => 4,
            Fmt::WebP { .. } => 5,
        }
    }
    pub fn name(&self) -> &'static str {
        ["jpeg", "png", "gif", "bmp", "ico", "webp"][self.kind() as usize]
    }
    pub fn ext(&self) -> &'static str {
        ["jpg", "png", "gif", "bmp", "ico", "webp"][self.kind() as usize]
    }
    pub fn enc(&self) -> EncodingFormat {
        match *self {
            Fmt::Jpeg { q, prog, sf, gray, opt } => EncodingFormat::Jpeg {
                quality: q,
                progressive: prog,
                sampling_factor: sampling(sf),
                grayscale: gray,
                optimize_huffman_tables: opt,
            },
            Fmt::Png { ct, comp, filt } => EncodingFormat::Png {
                color_type: PNG_CT[ct as usize % 8],
                compression: [PngCompression::Default, PngCompression::Fast, PngCompression::Best][comp as usize % 3],
                filter: [
                    PngFilterType::NoFilter,
                    PngFilterType::Sub,
                    PngFilterType::Up,
                    PngFilterType::Avg,
                    PngFilterType::Paeth,
                ][filt as usize % 5],
            },
            Fmt::Gif => EncodingFormat::Gif,
            Fmt::Bmp { ct } => EncodingFormat::Bmp {
                color_type: [BmpColorType::L8, BmpColorType::La8, BmpColorType::Rgb8, BmpColorType::Rgba8][ct as usize % 4],
            },
            Fmt::Ico { ct } => EncodingFormat::Ico {
                color_type: [IcoColorType::L8, IcoColorType::La8, IcoColorType::Rgb8, IcoColorType::Rgba8][ct as usize % 4],
            },
            Fmt::WebP { q, preset } => EncodingFormat::WebP {
                quality: q,
                preset: [
                    WebPPreset::Default,
                    WebPPreset::Picture,
                    WebPPreset::Photo,
                    WebPPreset::Drawing,
                    WebPPreset::Icon,
                    WebPPreset::Text,
                    WebPPreset::Lossless,
                ][preset as usize % 7],
            },
        }
    }
    pub fn is_lossless(&self) -> bool {
        matches!(self, Fmt::Png { .. } | Fmt::Bmp { .. } | Fmt::Ico { .. } | Fmt::WebP { preset: 6, .. })
    }
    /// (grey, alpha, bits) the format stores
    pub fn stores(&self) -> (bool, bool, u32) {
        match *self {
            Fmt::Png { ct, .. } => match ct % 8 {
                0 => (true, false, 8),
                1 => (true, true, 8),
                2 => (true, false, 16),
                3 => (true, true, 16),
                4 => (false, false, 8),
                5 => (false, true, 8),
                6 => (false, false, 16),
                _ => (false, true, 16),
            },
            Fmt::Bmp { ct } | Fmt::Ico { ct } => match ct % 4 {
                0 => (true, false, 8),
                1 => (true, true, 8),
                2 => (false, false, 8),
                _ => (false, true, 8),
            },
            _ => (false, true, 8),
        }
    }
}

fn sampling(k: u8) -> Option<JpegSamplingFactor> {
    use JpegSamplingFactor::*;
    const T: [JpegSamplingFactor; 16] = [
        F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2, R_4_2_0, R_4_2_1,
        R_4_1_1, R_4_1_0,
    ];
    if k == 0 {
        None
    } else {
        Some(T[(k as usize - 1) % 16])
    }
}

pub fn bits(d: &[Rgb]) -> Vec<u32> {
    d.iter().flat_map(|c| c.data.iter().map(|v| v.to_bits())).collect()
}

pub fn same(a: &Image, b: &Image) -> bool {
    a.width() == b.width()
        && a.height() == b.height()
        && a.data().len() == b.data().len()
        && a.data().iter().zip(b.data()).all(|(x, y)| (0..4).all(|i| x.data[i].to_bits() == y.data[i].to_bits()))
}

/// Where two pictures first differ.
pub fn diff(a: &Image, b: &Image) -> String {
    if a.width() != b.width() || a.height() != b.height() {
        return format!("{}x{} instead of {}x{}", b.width(), b.height(), a.width(), a.height());
    }
    for (i, (x, y)) in a.data().iter().zip(b.data()).enumerate() {
        if (0..4).any(|k| x.data[k].to_bits() != y.data[k].to_bits()) {
            return format!(
                "pixel ({},{}) is {:?} instead of {:?}",
                i as u32 % a.width(),
                i as u32 / a.width(),
                y.data,
                x.data
            );
        }
    }
    "no difference".into()
}

pub fn hash(i: &Image) -> u64 {
    let mut f = Fnv::default();
    f.add(i.width() as u64);
    f.add(i.height() as u64);
    for c in i.data() {
        for v in c.data {
            f.add(v.to_bits() as u64);
        }
    }
    f.0
}

// ---- independent reference: linear RGB to sRGB levels in f64 ----

pub fn srgb_f64(v: f64) -> f64 {
    if v > 0.0031308 {
        1.055 * v.powf(1.0 / 2.4) - 0.055
    } else {
        12.92 * v
    }
}
pub fn linear_f64(v: f64) -> f64 {
    if v > 0.04045 {
        ((v + 0.055) / 1.055).powf(2.4)
    } else {
        v / 12.92
    }
}
/// Rec. 709 luminance of a linear colour
pub fn luma_f64(c: &Rgb) -> f64 {
    0.212656 * c.data[0] as f64 + 0.715158 * c.data[1] as f64 + 0.072186 * c.data[2] as f64
}

/// The levels a lossless format must store for this colour, unrounded, in stored order.
pub fn levels(c: &Rgb, grey: bool, alpha: bool, max: f64) -> [f64; 4] {
    let cl = |v: f64| (v * max).clamp(0.0, max);
    let a = if alpha { cl(c.data[3] as f64) } else { max };
    if grey {
        let g = cl(srgb_f64(luma_f64(c)));
        [g, g, g, a]
    } else {
        [
            cl(srgb_f64(c.data[0] as f64)),
            cl(srgb_f64(c.data[1] as f64)),
            cl(srgb_f64(c.data[2] as f64)),
            a,
        ]
    }
}
/// The levels a decoded colour corresponds to (unrounded).
pub fn levels_of(c: &Rgb, max: f64) -> [f64; 4] {
    [
        srgb_f64(c.data[0] as f64) * max,
        srgb_f64(c.data[1] as f64) * max,
        srgb_f64(c.data[2] as f64) * max,
        c.data[3] as f64 * max,
    ]
}

pub fn seed_of(a: u64, b: u64) -> u64 {
    mix2(a, b)
}
