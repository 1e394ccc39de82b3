//! Reading gives the same result however the bytes arrive.
use super::c02::{any_case, ext_kind};
use super::*;
use d10_codecs::Format;
use serde::{Deserialize, Serialize};
use simcore::rng::mix2;
use simcore::world::*;
use std::io::{self, Read, Seek, SeekFrom};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    /// a complete file
    File { img: ImgSpec, fmt: Fmt },
    /// its first bytes only
    Cut { img: ImgSpec, fmt: Fmt, len: u32 },
    /// damaged on its way: the outcome is still the same for every split
    Damaged { img: ImgSpec, fmt: Fmt, dmg: Vec<super::c06::Dmg> },
    /// recognised only by its name: a cursor (as icon), or a bare WebP bitstream
    Cursor { img: ImgSpec },
    BareWebP { img: ImgSpec, q: u8 },
    /// arbitrary bytes
    Junk { seed: u64, len: u32 },
    /// a signature (possibly incomplete) followed by junk
    Magic { which: u8, keep: u8, seed: u64, len: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    content: Content,
    name: String,
    plan: PlanSpec,
}

const MAGIC: [&[u8]; 10] = [
    &[0xFF, 0xD8, 0xFF],
    &[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A],
    b"GIF87a",
    b"GIF89a",
    b"BM",
    &[0, 0, 1, 0],
    b"RIFF\x10\0\0\0WEBP",
    b"RIFF\x10\0\0\0WAVE",
    b"GIF88a",
    &[0, 0, 2, 0],
];

/// The documented signatures, independently of the library.
pub fn sniff(b: &[u8]) -> Option<u8> {
    let s = |m: &[u8]| b.len() >= m.len() && &b[..m.len()] == m;
    if s(MAGIC[0]) {
        Some(0)
    } else if s(MAGIC[1]) {
        Some(1)
    } else if s(MAGIC[2]) || s(MAGIC[3]) {
        Some(2)
    } else if s(MAGIC[4]) {
        Some(3)
    } else if s(MAGIC[5]) {
        Some(4)
    } else if b.len() >= 12 && &b[..4] == b"RIFF" && &b[8..12] == b"WEBP" {
        Some(5)
    } else {
        None
    }
}

fn fmt_no(f: Format) -> u8 {
    match f {
        Format::Jpeg => 0,
        Format::Png => 1,
        Format::Gif => 2,
        Format::Bmp => 3,
        Format::Ico => 4,
        Format::WebP => 5,
    }
}

fn bytes(c: &Content) -> Result<Option<Vec<u8>>, Violation> {
    let enc = |i: &ImgSpec, f: &Fmt| -> Result<Option<Vec<u8>>, Violation> { Ok(stored(i, f)?.ok()) };
    Ok(match c {
        Content::File { img, fmt } => enc(img, fmt)?,
        Content::Cut { img, fmt, len } => enc(img, fmt)?.map(|mut b| {
            b.truncate(*len as usize);
            b
        }),
        Content::Damaged { img, fmt, dmg } => enc(img, fmt)?.map(|mut b| {
            for d in dmg {
                super::c06::apply(&mut b, d);
            }
            b
        }),
        Content::Cursor { img } => enc(img, &Fmt::Ico { ct: 3 })?.map(|mut b| {
            b[2] = 2;
            b
        }),
        Content::BareWebP { img, q } => enc(img, &Fmt::WebP { q: *q, preset: 0 })?.map(|b| bare_webp(&b)),
        Content::Junk { seed, len } => {
            let mut r = Rng::new(*seed);
            Some((0..*len).map(|_| r.next() as u8).collect())
        }
        Content::Magic { which, keep, seed, len } => {
            let mut r = Rng::new(*seed);
            let m = MAGIC[*which as usize % MAGIC.len()];
            let mut b = m[..(*keep as usize).min(m.len())].to_vec();
            b.extend((0..*len).map(|_| r.next() as u8));
            Some(b)
        }
    })
}

/// The VP8 frame inside a WebP container.
fn bare_webp(b: &[u8]) -> Vec<u8> {
    let mut p = 12;
    while p + 8 <= b.len() {
        let n = u32::from_le_bytes([b[p + 4], b[p + 5], b[p + 6], b[p + 7]]) as usize;
        if &b[p..p + 4] == b"VP8 " || &b[p..p + 4] == b"VP8L" {
            return b[p + 8..(p + 8 + n).min(b.len())].to_vec();
        }
        p += 8 + n + (n & 1);
    }
    b.to_vec()
}

/// A seekable stream whose reads are split and interrupted by the plan.
struct SimReader<'a> {
    d: &'a [u8],
    pos: u64,
    n: u64,
    plan: Plan,
    last_eintr: bool,
    fired: u64,
}
impl Read for SimReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.n;
        self.n += 1;
        if let Some(r) = self.plan.eintr {
            if !self.last_eintr && mix2(r.seed, n) % (r.den.max(2) as u64) == 0 {
                self.last_eintr = true;
                self.fired += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        self.last_eintr = false;
        let mut k = b.len();
        if let Some(c) = self.plan.chunk {
            if k > 1 && mix2(c.seed ^ 0x55, n) % (c.den.max(1) as u64) == 0 {
                k = k.min(1 + (mix2(c.seed, n) % c.max.max(1) as u64) as usize);
                self.fired += 1;
            }
        }
        let at = (self.pos as usize).min(self.d.len());
        k = k.min(self.d.len() - at);
        b[..k].copy_from_slice(&self.d[at..at + k]);
        self.pos += k as u64;
        Ok(k)
    }
}
impl Seek for SimReader<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = match s {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(o) => (self.pos as i64 + o) as u64,
            SeekFrom::End(o) => (self.d.len() as i64 + o) as u64,
        };
        Ok(self.pos)
    }
}

pub fn class(r: &Result<Image, DecodingError>) -> String {
    match r {
        Ok(i) => format!("image {:016x}", hash(i)),
        Err(DecodingError::IoError(e)) => format!("I/O error {:?}", e.kind()),
        Err(DecodingError::Decoding(_)) => "decoding error".into(),
        Err(e) => dec_err(e),
    }
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C03";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let k = r.below(6) as u8;
        let mut img = ImgSpec::gen(r, Size::Mixed);
        if k == 4 {
            img = img.small_for_ico();
        }
        let img = img.maybe_foreign(r, 3);
        let small = ImgSpec::gen(r, Size::Small);
        let content = match r.below(20) {
            0..=8 => Content::File { img, fmt: Fmt::gen_kind(r, k) },
            9..=11 => {
                let n = r.range(1, 3);
                Content::Damaged { img, fmt: Fmt::gen_kind(r, k), dmg: (0..n).map(|_| super::c06::gen_dmg(r)).collect() }
            }
            12 | 13 => {
                let len = if r.chance(1, 2) { r.below(16) } else { r.below(3000) } as u32;
                Content::Cut { img: small, fmt: Fmt::gen_kind(r, k), len }
            }
            14 if r.chance(1, 2) => Content::Cursor { img: small },
            15 => Content::BareWebP { img: small, q: r.below(101) as u8 },
            16 => Content::Junk { seed: r.next(), len: r.below(40) as u32 },
            _ => Content::Magic { which: r.below(10) as u8, keep: r.range(1, 12) as u8, seed: r.next(), len: r.below(60) as u32 },
        };
        let natural = match &content {
            Content::File { fmt, .. } | Content::Cut { fmt, .. } | Content::Damaged { fmt, .. } => fmt.kind(),
            Content::Cursor { .. } => 4,
            Content::BareWebP { .. } => 5,
            _ => k,
        };
        let exts = ["jpg", "png", "gif", "bmp", "ico", "webp", "jpeg"];
        let name = match r.below(10) {
            0..=4 => format!("p.{}", any_case(r, exts[natural as usize])),
            5..=7 => {
                let e = *r.pick(&exts);
                format!("p.{}", any_case(r, e))
            }
            8 => "p".into(),
            _ => r.pick(&["p.txt", "p.png.old", ".png", "p.", "p.tiff"]).to_string(),
        };
        Case { content, name, plan: PlanSpec::benign(r) }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let b = match bytes(&c.content)? {
            Some(b) => b,
            None => return Ok(()),
        };
        let known = sniff(&b);
        if matches!(c.content, Content::Damaged { .. } | Content::Junk { .. } | Content::Magic { .. }) {
            let d = super::c06::declared(&b);
            if d.iter().any(|d| d.0.saturating_mul(d.1) > 1 << 22) {
                return Ok(());
            }
            crate::alloc::HUGE_MODE.store(1, std::sync::atomic::Ordering::Relaxed);
        }
        // what must come out, from memory and without faults
        let plain = decoded(&b)?;
        cx.count(match known {
            Some(k) => ["jpeg", "png", "gif", "bmp", "ico", "webp"][k as usize],
            None => "unrecognised",
        });
        // 1: detection on a stream
        let mut s = SimReader { d: &b, pos: 0, n: 0, plan: c.plan.base(), last_eintr: false, fired: 0 };
        let f = calm("detecting the format", || Format::from_reader(&mut s))?;
        cx.faults("stream_short_or_interrupted_read", s.fired);
        cx.fp.add(s.n);
        match (&f, known) {
            (Ok(f), Some(k)) if fmt_no(*f) == k => {}
            (Err(DecodingError::UnknownFormat), None) => {}
            (f, k) => {
                return fail(
                    "wrong-detection",
                    "detect",
                    format!("content recognised as {:?} by its signature was detected as {:?}", k, f.as_ref().map_err(dec_err)),
                )
            }
        }
        if s.pos != 0 {
            return fail("position", "detect", format!("the stream is at {} after detection", s.pos));
        }
        // wherever it was read from, the stream is at its start afterwards
        if !b.is_empty() {
            let pos = mix2(b.len() as u64, c.name.len() as u64 + b[b.len() / 2] as u64) % (b.len() as u64 + 1);
            let mut s = SimReader { d: &b, pos, n: 0, plan: c.plan.base(), last_eintr: false, fired: 0 };
            if calm("detecting the format", || Format::from_reader(&mut s))?.is_ok() && s.pos != 0 {
                return fail("position", "detect", format!("a stream at {} is at {} after detection", pos, s.pos));
            }
        }
        // 2: memory
        if known.is_none() && !matches!(plain, Err(DecodingError::UnknownFormat)) {
            return fail("wrong-memory-result", "memory", format!("unrecognised bytes decode to {}", class(&plain)));
        }
        // 3: the file on the simulated disk
        let path = format!("{}{}", PREFIX, c.name);
        let open = |plan: Plan, cx: &mut Ctx| -> Result<Result<Image, DecodingError>, Violation> {
            let mut w = World::new();
            w.put(&path, b.clone());
            w.plan = plan;
            let m = Machine::start(w);
            let r = calm("opening", || Image::open(&path));
            cx.world(&m.stop());
            r
        };
        let whole = open(Plan::default(), cx)?;
        let pieces = open(c.plan.base(), cx)?;
        if class(&whole) != class(&pieces) {
            return fail(
                "depends-on-chunks",
                c.name.rsplit('.').next().unwrap_or(""),
                format!("reading in pieces gives {} instead of {}", class(&pieces), class(&whole)),
            );
        }
        let want = match known {
            Some(_) => class(&plain),
            None => match ext_kind(&c.name) {
                None => "unknown format".to_string(),
                Some(k) => {
                    if class(&whole) == "unknown format" {
                        return fail("extension-ignored", "ext", format!("unrecognised content named {} gives {}", c.name, class(&whole)));
                    }
                    // the two kinds of content that only their name identifies
                    match (&c.content, k) {
                        (Content::Cursor { img }, 4) => {
                            let b = bytes(&Content::File { img: img.clone(), fmt: Fmt::Ico { ct: 3 } })?.unwrap();
                            class(&decoded(&b)?)
                        }
                        (Content::BareWebP { img, q }, 5) => {
                            let b = bytes(&Content::File { img: img.clone(), fmt: Fmt::WebP { q: *q, preset: 0 } })?.unwrap();
                            match decoded(&b)? {
                                Ok(i) if !i.has_transparency() => class(&Ok(i)),
                                _ => class(&whole),
                            }
                        }
                        _ => class(&whole),
                    }
                }
            },
        };
        if class(&whole) != want {
            return fail(
                "wrong-content",
                c.name.rsplit('.').next().unwrap_or(""),
                format!("opening {} gives {} instead of {}", c.name, class(&whole), want),
            );
        }
        if let Content::File { img, fmt } = &c.content {
            if img.kind >= FOREIGN {
                cx.count(&format!("foreign_{}_{}", fmt.name(), if whole.is_ok() { "opened" } else { "refused" }));
                return Ok(());
            }
        }
        // the whole picture, where the harness knows it
        if let (Content::File { img, fmt }, Ok(i)) = (&c.content, &whole) {
            let (w, h) = img.dims();
            if i.width() != w || i.height() != h {
                return fail("wrong-content", fmt.name(), format!("opening gives {}x{} instead of {}x{}", i.width(), i.height(), w, h));
            }
        }
        if let Content::File { fmt, .. } = &c.content {
            if let Err(e) = &whole {
                return fail("unreadable", fmt.name(), format!("a complete {} file gives {}", fmt.name(), dec_err(e)));
            }
        }
        cx.fp.bytes(want.as_bytes());
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one content (a complete, cut or damaged file of any format and options, or one as other programs write it, content recognised only by name, junk, partial signatures) x a file name (right, wrong, missing or unknown extension, any case) x a seeded way of splitting and interrupting every read; non-trivial when at least one read was shortened or interrupted",
            real: "d10, d10-codecs, all decoders, std's File and BufReader",
            stub: "the kernel's file system; for stream detection the caller's stream",
            secs: (40, 780),
            budget: 4_000_000_000,
            workers: 8,
            assumptions: vec!["EINTR is never returned twice in a row, so retrying makes progress"],
        }
    }
}
