//! Bit rot in a PNG is detected.
use super::*;
use serde::{Deserialize, Serialize};
use simcore::world::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
    /// this far into the stored PNG
    Frac(u32),
    /// this many bits after the start of a chunk (its length field)
    Chunk(u8, i16),
    /// this many bits after the end of a chunk (behind its checksum)
    End(u8, i16),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Burst {
    at: At,
    /// bits turned over, the lowest at the position itself
    bits: u32,
    /// open it from memory, by a detected format or from a file of another extension
    how: u8,
    plan: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: ImgSpec,
    fmt: Fmt,
    bursts: Vec<Burst>,
    plan: PlanSpec,
}

/// Where the chunks of the PNG at `o` begin and end.
fn chunks(b: &[u8], o: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = o + 8;
    while p + 12 <= b.len() {
        let n = u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
        let e = p.saturating_add(12).saturating_add(n);
        if e > b.len() {
            break;
        }
        v.push((p, e));
        p = e;
    }
    v
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C17";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let size = if r.chance(1, 3) { Size::Tiny } else if r.chance(2, 3) { Size::Small } else { Size::Mixed };
        let mut img = ImgSpec::gen(r, size);
        let k = if r.chance(1, 4) { 4 } else { 1 };
        let fmt = Fmt::gen_kind(r, k);
        if r.chance(1, 12) {
            // several data chunks
            img.w = r.range(100, 256) as u32;
            img.h = r.range(60, 256) as u32;
            img.kind = *r.pick(&[1, 2, 7]);
        }
        let img = if k == 4 { img.small_for_ico() } else { img };
        let n = *r.pick(&[1, 2, 6, 12]);
        let bursts = (0..n)
            .map(|_| {
                let at = match r.below(8) {
                    0..=2 => At::Frac(r.below(1 << 20) as u32),
                    3 | 4 => At::Chunk(r.below(6) as u8, r.range(0, 200) as i16 - 16),
                    5 => At::Chunk(r.below(2) as u8, r.range(32, 64 + 13 * 8) as i16),
                    _ => At::End(r.below(6) as u8, 16 - r.range(0, 120) as i16),
                };
                let len = *r.pick(&[1u32, 1, 2, 3, 8, 16, 24, 31, 32]);
                let mask = if len == 32 { !0 } else { (1u32 << len) - 1 };
                let bits = match r.below(4) {
                    0 => mask,
                    1 => 1 | 1 << (len - 1),
                    _ => (r.next() as u32 & mask) | 1 | 1 << (len - 1),
                };
                Burst { at, bits, how: r.below(6) as u8, plan: r.below(2) as u8 }
            })
            .collect();
        Case { img, fmt, bursts, plan: PlanSpec::benign(r) }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let name = c.fmt.name();
        let whole = match reference(&c.img.build(), &c.fmt)? {
            Ok(b) => b,
            Err(_) => return Ok(()),
        };
        let o = if c.fmt.kind() == 4 { 22 } else { 0 };
        if c.fmt.kind() != 1 && c.fmt.kind() != 4 || whole.len() < o + 8 || whole[o..o + 4] != [0x89, 0x50, 0x4E, 0x47] {
            return Ok(());
        }
        let want = match decoded(&whole)? {
            Ok(i) => i,
            Err(e) => return fail("unreadable", name, format!("{:?}: the undamaged file cannot be decoded: {}", c.fmt, dec_err(&e))),
        };
        let ch = chunks(&whole, o);
        let total = (whole.len() - o) as i64 * 8;
        for bu in &c.bursts {
            let chunk = |k: u8| ch.get(k as usize % ch.len().max(1)).copied().unwrap_or((o, whole.len()));
            let at = match bu.at {
                At::Frac(f) => (total as u64 * f as u64 >> 20) as i64,
                At::Chunk(k, d) => (chunk(k).0 - o) as i64 * 8 + d as i64,
                At::End(k, d) => (chunk(k).1 - o) as i64 * 8 + d as i64,
            }
            .clamp(0, total - 1);
            let mut b = whole.clone();
            for k in 0..32 {
                let p = at + k;
                if bu.bits >> k & 1 == 1 && p < total {
                    // checksums take the bits of a byte from the lowest on, so that 32 bits in this
                    // order are one burst
                    b[o + (p / 8) as usize] ^= 1 << (p % 8);
                }
            }
            if b == whole {
                continue;
            }
            cx.nontrivial = true;
            cx.fault("stored_bits_flipped");
            let kind = ch.iter().find(|e| (e.0 - o) as i64 * 8 <= at && at < (e.1 - o) as i64 * 8).map(|e| {
                String::from_utf8_lossy(&whole[e.0 + 4..e.0 + 8]).to_string()
            });
            cx.count(kind.as_deref().unwrap_or("signature"));
            let mut w = World::new();
            if bu.plan == 1 {
                w.plan = c.plan.base();
            }
            let ext = match bu.how % 6 {
                3 => "bmp",
                4 => "dat",
                _ => c.fmt.ext(),
            };
            let path = format!("{}p.{}", PREFIX, ext);
            w.put(&path, b.clone());
            let m = Machine::start(w);
            let got = calm("opening a file with flipped bits", || match bu.how % 6 {
                0 => Image::read_from_buffer(&b),
                _ => Image::open(&path),
            })?;
            cx.world(&m.stop());
            match got {
                Err(_) => cx.count("refused"),
                Ok(i) if same(&i, &want) => cx.count("original"),
                Ok(i) => {
                    return fail(
                        "different",
                        format!("{} {}", name, kind.as_deref().unwrap_or("signature")),
                        format!("{:?}: flipping bits {:#x} at bit {} of the {}-byte PNG ({:?}) opens as a different picture: {}", c.fmt, bu.bits, at, total / 8, kind, diff(&want, &i)),
                    )
                }
            }
        }
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = one picture stored as PNG (any colour type, compression, filter; up to several data chunks) or icon, and up to 12 separate burst errors of up to 32 bits in it (anywhere, around chunk borders, in the header), each opened again from a file (own or foreign extension) or memory, with whole or split and interrupted reads; non-trivial when a bit differed",
            real: "d10, d10-codecs, the PNG and icon decoders, std's File and BufReader",
            stub: "the kernel's file system (simulated disk) and the medium that flips the bits",
            secs: (35, 780),
            budget: 20_000_000_000,
            workers: 8,
            assumptions: vec!["the bits of a byte count from the least significant one, the order in which the PNG checksum takes them"],
        }
    }
}
