//! Concurrent and earlier calls never influence a result.
use super::*;
use crate::fork::{forked, Death};
use crate::sched;
use d10::ops::{BalanceMode, BlendOp, DrawingMode, EdgeDetection, EqualizeMode, FilterMode, SaturationMode};
use d10::Rgb;
use serde::{Deserialize, Serialize};
use simcore::rng::Fnv;
use simcore::shim::{hex, unhex};
use simcore::world::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub struct OpSpec {
    /// which operation
    k: u8,
    /// parameters
    a: u8,
    b: u8,
    /// sources
    i: u8,
    j: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum At {
    /// fraction of the thread's points
    Frac(u32),
    /// this many points after the start of its n-th operation
    Start(u8, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Switch {
    thread: u8,
    at: At,
    to: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    imgs: Vec<ImgSpec>,
    /// encoded pictures: (image, format, number of bytes cut off, name of the file)
    bufs: Vec<(u8, Fmt, u32, String)>,
    /// made by another program
    foreign: bool,
    before: Vec<OpSpec>,
    threads: Vec<Vec<OpSpec>>,
    switches: Vec<Switch>,
    chunk: Option<Chunk>,
}

pub const KINDS: u8 = 47;

/// The result of one operation, comparable across processes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Out {
    h: u64,
    what: String,
}

fn img_out(i: &Image) -> Out {
    let first = i.data().first().map(|c| format!("{:?}", c.data)).unwrap_or_default();
    Out { h: hash(i), what: format!("{}x{} image starting {}", i.width(), i.height(), first) }
}
fn bytes_out(b: &[u8]) -> Out {
    Out { h: Fnv::of(b), what: format!("{} bytes", b.len()) }
}
fn err_out(e: String) -> Out {
    Out { h: Fnv::of(e.as_bytes()) ^ 1, what: e }
}

pub struct Shared {
    imgs: Vec<Image>,
    bufs: Vec<(Vec<u8>, String)>,
}

struct Refuses(usize);
impl std::io::Write for Refuses {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let k = b.len().min(self.0);
        self.0 -= k;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Panics once, in its n-th call.
struct Panics(usize);
impl std::io::Write for Panics {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 = self.0.wrapping_sub(1);
        if self.0 == usize::MAX {
            panic!("writer")
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const FILTERS: [FilterMode; 5] =
    [FilterMode::Nearest, FilterMode::Bilinear, FilterMode::Bicubic, FilterMode::Lanczos3, FilterMode::Auto];

/// Is the result determined by the arguments?
fn fixed(k: u8) -> bool {
    k % KINDS != 46
}

const GROUPS: [&[u8]; 5] = [
    &[16, 17, 19, 20, 21, 12, 15],
    &[18, 24, 25, 26, 27, 32, 36, 42],
    &[0, 1, 2, 3, 4, 5, 6, 7, 8, 22, 23, 45],
    &[11, 28, 29, 31, 37, 38, 39, 40, 41, 43, 44],
    &[9, 10, 30, 31, 33, 34, 35],
];

fn perform(o: &OpSpec, s: &Shared, tag: usize) -> Out {
    match catch_unwind(AssertUnwindSafe(|| perform_(o, s, tag))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            err_out(format!("panic: {}", m.split(" at ").next().unwrap_or("")))
        }
    }
}

fn perform_(o: &OpSpec, s: &Shared, tag: usize) -> Out {
    let i = &s.imgs[o.i as usize % s.imgs.len()];
    let j = &s.imgs[o.j as usize % s.imgs.len()];
    let (a, b) = (o.a as f32 / 255.0, o.b as f32 / 255.0);
    let dec = |r: Result<Image, DecodingError>| match r {
        Ok(i) => img_out(&i),
        Err(e) => err_out(dec_err(&e)),
    };
    let enc = |r: Result<Vec<u8>, EncodingError>| match r {
        Ok(b) => bytes_out(&b),
        Err(e) => err_out(enc_err(&e)),
    };
    let fmt = || {
        let mut r = Rng::new(o.b as u64 * 7 + 1);
        Fmt::gen_kind(&mut r, o.a % 6)
    };
    match o.k % KINDS {
        // files and codecs (several numbers, so that they are common)
        0 | 1 => match s.bufs.get(o.a as usize % s.bufs.len().max(1)) {
            Some((_, n)) => dec(Image::open(format!("{}{}", PREFIX, n))),
            None => dec(Image::open(format!("{}nothing.png", PREFIX))),
        },
        2 => match s.bufs.get(o.a as usize % s.bufs.len().max(1)) {
            Some((b, _)) => dec(Image::read_from_buffer(b)),
            None => dec(Image::read_from_buffer(&[])),
        },
        3 | 4 => enc(i.save_to_buffer(fmt().enc())),
        5 => {
            let f = fmt();
            let p = format!("{}own{}.{}", PREFIX, tag, f.ext());
            match i.save_with_format(&p, f.enc()) {
                Ok(()) => match std::fs::read(&p) {
                    Ok(b) => bytes_out(&b),
                    Err(e) => err_out(e.to_string()),
                },
                Err(e) => err_out(enc_err(&e)),
            }
        }
        6 => {
            // by extension, then opened again
            let p = format!("{}own{}.{}", PREFIX, tag, ["png", "bmp", "ico", "webp", "gif", "jpg"][o.a as usize % 6]);
            match i.save(&p) {
                Ok(()) => dec(Image::open(&p)),
                Err(e) => err_out(enc_err(&e)),
            }
        }
        // a panic must not cross libwebp
        7 if o.b % 3 == 2 && o.a % 6 != 5 => match i.save_to_writer(&mut Panics(o.b as usize / 16), fmt().enc()) {
            Ok(()) => bytes_out(b"ok"),
            Err(e) => err_out(enc_err(&e)),
        },
        7 => match i.save_to_writer(&mut Refuses(o.b as usize * 3), fmt().enc()) {
            Ok(()) => bytes_out(b"ok"),
            Err(e) => err_out(enc_err(&e)),
        },
        8 => match i.save(format!("{}x.tiff", PREFIX)) {
            Ok(()) => bytes_out(b"ok"),
            Err(e) => err_out(enc_err(&e)),
        },
        9 => {
            // a callback that panics half-way through
            let mut c = i.clone();
            let n = std::cell::Cell::new(0usize);
            let lim = c.data().len() * o.a as usize / 256;
            let step = |p: &Rgb| {
                n.set(n.get() + 1);
                if n.get() > lim {
                    panic!("stop")
                }
                p.invert()
            };
            let r = catch_unwind(AssertUnwindSafe(|| match o.b % 6 {
                0 | 1 => c.mod_colors(step),
                2 => c.mod_colors_enumerated(|_, _, p| step(p)),
                3 => c = i.map_colors(step),
                4 => c = i.map_colors_enumerated(|_, _, p| step(p)),
                _ => c = Image::compose([i, j], Rgb::default(), |_, _, [p, _]| step(&p)),
            }));
            let _ = last_panic();
            let mut o = img_out(&c);
            o.h ^= r.is_err() as u64;
            o
        }
        10 => {
            let r: Result<Image, u8> = i.try_map_colors_enumerated(|x, y, p| if (x + y) as u8 > o.a { Err(3) } else { Ok(p.invert()) });
            match r {
                Ok(i) => img_out(&i),
                Err(e) => err_out(e.to_string()),
            }
        }
        11 => {
            let mut c = i.clone();
            c.mod_colors(|p| p.with_gamma(0.3 + a).with_brightness(b - 0.5));
            img_out(&c)
        }
        12 => img_out(&i.crop(o.a as u32 % 7, o.b as u32 % 7, 1 + o.b as u32 % 5, 1 + o.a as u32 % 9)),
        13 => img_out(&i.flip_horizontal()),
        14 => img_out(&i.flip_vertical()),
        15 => img_out(&match o.a % 3 {
            0 => i.rotate90(),
            1 => i.rotate180(),
            _ => i.rotate270(),
        }),
        16 | 17 => img_out(&i.rotate(a * 6.0, FILTERS[o.b as usize % 5])),
        18 => img_out(&i.edge_detection(if o.a % 2 == 0 { EdgeDetection::Sobel } else { EdgeDetection::Laplace })),
        19 | 20 => {
            let side = |n: u8, own: u32| match n % 3 {
                0 => 1 + n as u32 / 3 % 20,
                // ratios that make all the rows or columns fall on the same places between pixels
                1 => (own / (1 + n as u32 / 3 % 8)).max(1),
                _ => own * (1 + n as u32 / 3 % 4),
            };
            img_out(&i.resize(side(o.a, i.width()), side(o.b, i.height()), FILTERS[(o.a as usize / 3 + o.b as usize / 3) % 5]))
        }
        21 => img_out(&i.resize_pct(20.0 + a * 150.0, FILTERS[o.b as usize % 5])),
        22 | 23 => img_out(&i.with_jpeg_quality(o.a % 101, o.b % 2 == 0)),
        24..=26 => img_out(&i.gaussian_blur(1 + o.a as u32 % 6, if o.b % 3 == 0 { None } else { Some(0.2 + b * 3.0) })),
        27 => img_out(&i.unsharp(1 + o.a as u32 % 5, b * 2.0, if o.b % 2 == 0 { None } else { Some(0.3 + a * 2.0) })),
        28 => img_out(&i.white_balance(a * 5.0)),
        29 => {
            let m = [BalanceMode::Rgb, BalanceMode::Srgb, BalanceMode::Hsv, BalanceMode::Hsl, BalanceMode::Lch];
            img_out(&i.balance(m[o.a as usize % 5], b * 5.0))
        }
        30 => img_out(&Image::compose([i, j], Rgb::NONE, |x, y, [c, d]| {
            if (x ^ y) & 1 == 0 {
                c.alpha_blend(d)
            } else {
                d
            }
        })),
        31 => {
            use BlendOp::*;
            let m = [Normal, Addition, Subtract, Darken, Lighten, HslDarken, HslLighten, LchDarken, LchLighten, LchHue, LchSaturation, LchColor];
            img_out(&i.blend(j, m.into_iter().nth(o.a as usize % 12).unwrap(), b))
        }
        32 => img_out(&i.drawing(
            1 + o.a as u32 % 4,
            [DrawingMode::Gray, DrawingMode::Colored, DrawingMode::ReducedColors][o.b as usize % 3],
        )),
        33 => img_out(&i.interlace(o.a as u32 % 8)),
        34 => img_out(&i.apply_palette(j)),
        35 => {
            let mut c = i.clone();
            c.apply_palette_in_place(j);
            img_out(&c)
        }
        36 => img_out(&i.despeckle(a, o.b % 9)),
        37 => img_out(&i.stretch_contrast(a * 10.0)),
        38 => img_out(&i.optimize_saturation(a, [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch][o.b as usize % 3])),
        39 => img_out(&i.change_color_temperature(2000.0 + a * 8000.0, 2000.0 + b * 8000.0, a)),
        40 => img_out(&if o.a % 2 == 0 { i.optimize_color_temperature(a, b) } else { i.optimize_lightness(b) }),
        41 => {
            use EqualizeMode::*;
            img_out(&i.equalize([Rgb, Srgb, Saturation, Lightness, SaturationLightness][o.a as usize % 5]))
        }
        42 => img_out(&i.symmetric_nearest_neighbor(1 + o.a as usize % 4, o.b % 2 == 0)),
        43 => {
            use d10::Intensity::*;
            let int = [Rec601Luma, Rec709Luma, Average, Brightness, Lightness, Saturation, Red, Green, Blue];
            let f = |p: &Rgb| match o.a % 18 {
                0 => p.to_gray_with_intensity(int[o.b as usize % 9]),
                1 => p.with_gamma(0.2 + b * 3.0),
                2 => p.with_gamma_opt(0.2 + b * 3.0),
                3 => p.with_level(b * 0.4, 1.0 - b * 0.3, 0.5 + b),
                4 => p.with_brightness(b * 2.0 - 1.0),
                5 => p.with_saturation(b * 2.0),
                6 => p.stretch_saturation(b * 2.0),
                7 => p.with_gamma_saturation(0.2 + b * 2.0),
                8 => p.with_lightness(b * 2.0),
                9 => p.with_hue_rotate(b * 6.0),
                10 => p.with_contrast(b * 2.0),
                11 => p.with_brightness_contrast(b - 0.5, b * 2.0),
                12 => p.with_vibrance(b * 2.0 - 1.0),
                13 => p.with_sepia(),
                14 => p.modulate(b * 2.0, b * 2.0, 1.0 - b * 0.3),
                15 => p.difference(&Rgb::new(b, a, 0.3)),
                16 => p.map_channels(|v| v * b + 0.1),
                _ => p.alpha_blend(Rgb::new_with_alpha(a, b, 0.4, b)),
            };
            img_out(&if o.i & 1 == 0 {
                i.map_colors(f)
            } else {
                let mut c = i.clone();
                c.mod_colors(f);
                c
            })
        }
        44 => {
            use d10::{Color, ColorIterRef, Illuminant, Observer};
            use d10::illuminant::{D50, D65};
            use d10::observer::{O10, O2};
            fn lab<I: Illuminant, O: Observer>(d: &[Rgb]) -> Vec<f32> {
                d.iter().into_lab::<I, O>().flat_map(|c| c.data().to_vec()).chain(d.iter().into_lch::<I, O>().flat_map(|c| c.data().to_vec())).collect()
            }
            let d = i.data();
            let v: Vec<f32> = match o.a % 9 {
                0 => d.iter().into_srgb().flat_map(|c| c.data().to_vec()).collect(),
                1 => d.iter().into_hsl().flat_map(|c| c.data().to_vec()).collect(),
                2 => d.iter().into_hsv().flat_map(|c| c.data().to_vec()).collect(),
                3 => d.iter().into_yuv().flat_map(|c| c.data().to_vec()).collect(),
                4 => d.iter().into_xyz().flat_map(|c| c.data().to_vec()).collect(),
                5 => lab::<D65, O2>(d),
                6 => lab::<D50, O2>(d),
                7 => lab::<D65, O10>(d),
                _ => lab::<D50, O10>(d),
            };
            bytes_out(&v.iter().flat_map(|v| v.to_bits().to_le_bytes()).collect::<Vec<u8>>())
        }
        45 => {
            let p = format!("{}own{}.{}", PREFIX, tag, ["png", "bmp", "webp", "jpg"][o.b as usize % 4]);
            let n = s.bufs.get(o.a as usize % s.bufs.len().max(1)).map(|b| b.1.as_str()).unwrap_or("nothing.png");
            let q = d10_commands::Queue::new().silent().open(format!("{}{}", PREFIX, n));
            let q = match o.j % 3 {
                0 => q.invert(),
                1 => q.rotate(b, FilterMode::Bilinear).contrast(a + 0.5),
                _ => q.hue_rotate(b).to_gray(d10::Intensity::Average),
            };
            match q.save(&p).run() {
                Ok(()) => match std::fs::read(&p) {
                    Ok(b) => bytes_out(&b),
                    Err(e) => err_out(e.to_string()),
                },
                Err(e) => err_out(e.to_string()),
            }
        }
        _ => {
            // noise: its own result is random and not compared
            let mut c = i.clone();
            match o.a % 4 {
                0 => c.add_random_noise(b),
                1 => c.add_gaussian_noise(b),
                2 => c.add_rgb_noise(b),
                _ => c.add_salt_n_pepper_noise(b * 0.4),
            }
            bytes_out(b"noise")
        }
    }
}

fn world(s: &Shared, chunk: Option<Chunk>) -> World {
    let mut w = World::new();
    for (b, n) in &s.bufs {
        w.put(&format!("{}{}", PREFIX, n), b.clone());
    }
    w.plan.chunk = chunk;
    w.entropy = Some(Entropy { rng: Rng::new(9), nosys: false, calls: 0, pat: 0 });
    w
}

#[derive(Serialize, Deserialize)]
struct Req {
    case: Case,
    bufs: Vec<(String, String)>,
    edges: bool,
}
#[derive(Serialize, Deserialize, Default)]
struct Rsp {
    violation: Option<Violation>,
    points: u64,
    switches: u64,
    trace: u64,
    steps: u64,
    syscalls: u64,
    fired: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    edges: Vec<u32>,
    notes: Vec<String>,
}

/// Runs in a child of the zygote.
pub fn serve(q: &[u8]) -> Vec<u8> {
    let r: Req = match serde_json::from_slice(q) {
        Ok(r) => r,
        Err(_) => return vec![],
    };
    let mut rsp = Rsp::default();
    if let Err(v) = execute(&r, &mut rsp) {
        rsp.violation = Some(v);
    }
    rsp.steps = sched::steps();
    if r.edges {
        rsp.edges = sched::edge_list();
    }
    serde_json::to_vec(&rsp).unwrap()
}

fn dead(d: Death, what: &str) -> Violation {
    let (class, detail) = match d {
        Death::Signal(s) if s == libc::SIGALRM => ("hang", "no answer within the wall-clock limit".to_string()),
        Death::Signal(s) => ("crash", format!("the process died from signal {}", s)),
        Death::Code(c) if c == sched::EXIT_STEPS => ("hang", "the step budget was used up".into()),
        Death::Code(c) if c == sched::EXIT_DEADLOCK => ("deadlock", "all threads wait for each other".into()),
        Death::Code(c) => ("crash", format!("the process ended with status {}", c)),
    };
    Violation { class: class.into(), key: class.into(), detail: format!("{}: {}", what, detail) }
}

fn threads(c: &Case, sh: &Arc<Shared>, list: &[(u32, u64, u32)], outs: &Arc<Mutex<Vec<Vec<Out>>>>) -> sched::Outcome {
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in c.threads.iter().enumerate() {
        let (ops, sh, outs) = (ops.clone(), sh.clone(), outs.clone());
        bodies.push(Box::new(move || {
            for (n, o) in ops.iter().enumerate() {
                sched::mark();
                // a thread uses the same file names again and again
                let r = perform(o, &sh, t + if o.j == 2 { 100 * (n + 1) } else { 0 });
                let _g = simcore::interpose::SimGuard::enter();
                outs.lock().unwrap()[t].push(r);
            }
        }));
    }
    sched::run(bodies, list)
}

fn execute(r: &Req, rsp: &mut Rsp) -> Res {
    let c = &r.case;
    let imgs: Vec<Image> = c.imgs.iter().map(|s| s.build()).collect();
    let bufs: Vec<(Vec<u8>, String)> = r.bufs.iter().map(|(b, n)| (unhex(b), n.clone())).collect();
    let sh = Arc::new(Shared { imgs, bufs });
    sched::set_budget(6_000_000_000);
    // each distinct operation alone in a process in which nothing else has run
    let mut refs: BTreeMap<OpSpec, Out> = BTreeMap::new();
    for o in c.before.iter().chain(c.threads.iter().flatten()) {
        *rsp.ops.entry(format!("operation {:02}", o.k % KINDS)).or_insert(0) += 1;
        if refs.contains_key(o) || !fixed(o.k) {
            continue;
        }
        let sh2 = sh.clone();
        let out = forked(|| {
            let _m = Machine::start(world(&sh2, None));
            perform(o, &sh2, 0)
        });
        match out {
            Ok(x) => {
                refs.insert(o.clone(), x);
            }
            Err(d) => return Err(dead(d, &format!("{:?} alone", o))),
        }
    }
    // how many points each thread has, from a run without switches in another process
    let mut list: Vec<(u32, u64, u32)> = vec![];
    if !c.switches.is_empty() && c.threads.len() > 1 {
        let (c2, sh2) = (c.clone(), sh.clone());
        let dry = forked(|| {
            let _m = Machine::start(world(&sh2, c2.chunk));
            for (n, o) in c2.before.iter().enumerate() {
                perform(o, &sh2, 50 + n % 2);
            }
            let outs = Arc::new(Mutex::new(vec![vec![]; c2.threads.len()]));
            let o = threads(&c2, &sh2, &[], &outs);
            (o.per, o.marks)
        });
        let (per, marks) = match dry {
            Ok(x) => x,
            Err(d) => return Err(dead(d, "the threads one after the other")),
        };
        for s in &c.switches {
            let t = s.thread as usize % c.threads.len();
            let p = match s.at {
                At::Frac(f) => per[t] * f as u64 / 65536,
                At::Start(n, off) => marks[t].get(n as usize % marks[t].len().max(1)).copied().unwrap_or(0) + off as u64,
            };
            list.push((t as u32, p, s.to as u32));
        }
    }
    let before: Vec<u64> = sh.imgs.iter().map(hash).collect();
    let m = Machine::start(world(&sh, c.chunk));
    let check = |o: &OpSpec, got: &Out, how: String| -> Res {
        match refs.get(o) {
            Some(w) if w != got => {
                fail(
                    "influenced",
                    format!("operation {}", o.k % KINDS),
                    format!("{:?} {} gave {} ({:016x}); alone in a fresh process it gives {} ({:016x})", o, how, got.what, got.h, w.what, w.h),
                )
            }
            _ => Ok(()),
        }
    };
    for (n, o) in c.before.iter().enumerate() {
        let got = perform(o, &sh, 50 + n % 2);
        check(o, &got, format!("after {} other operations", n))?;
    }
    if !c.threads.is_empty() {
        let outs = Arc::new(Mutex::new(vec![vec![]; c.threads.len()]));
        let o = threads(c, &sh, &list, &outs);
        rsp.points = o.points;
        rsp.switches = o.switches;
        rsp.trace = o.trace;
        rsp.notes.push(format!("{} preemption points, {} switches, points per thread {:?}, {:?}", o.points, o.switches, o.per, list));
        let outs = outs.lock().unwrap();
        for (t, ops) in c.threads.iter().enumerate() {
            if outs[t].len() != ops.len() {
                return fail("lost", "lost", format!("thread {} finished {} of {} operations", t, outs[t].len(), ops.len()));
            }
            for (n, o) in ops.iter().enumerate() {
                check(o, &outs[t][n], format!("as operation {} of thread {} among {} threads", n, t, c.threads.len()))?;
            }
        }
    }
    let w = m.stop();
    rsp.syscalls = w.log_total;
    rsp.fired = w.fired.clone();
    for (k, i) in sh.imgs.iter().enumerate() {
        if hash(i) != before[k] {
            return fail("source-changed", "source-changed", format!("source image {} was changed by operations that build new images", k));
        }
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C09";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let mut imgs = vec![];
        for _ in 0..1 + r.below(3) {
            let size = if r.chance(3, 4) { Size::Tiny } else { Size::Small };
            let mut s = ImgSpec::gen(r, size);
            if r.chance(1, 12) {
                s.w = 30 + r.below(90) as u32;
            }
            // pictures of the same size are common, so that state kept per size would meet
            if let (Some(ImgSpec { w, h, .. }), true) = (imgs.first(), r.chance(1, 2)) {
                s.w = *w;
                s.h = *h;
            }
            imgs.push(s);
        }
        // parameters repeat as well
        let pool: Vec<u8> = (0..3).map(|_| r.next() as u8).collect();
        let mut bufs = vec![];
        for k in 0..1 + r.below(3) {
            let f = Fmt::gen(r);
            let cut = if r.chance(1, 5) { 1 + r.below(60) as u32 } else { 0 };
            let n = format!("in{}.{}", k, if r.chance(1, 8) { "dat" } else { f.ext() });
            bufs.push((r.below(3) as u8, f, cut, n));
        }
        // operations of one run are often of the same family, where shared state would meet
        let family = r.below(KINDS as u64) as u8;
        let related = r.chance(1, 2);
        // or of a group that shares code
        let group = r.pick(&GROUPS);
        let grouped = r.chance(1, 3);
        let op = |r: &mut Rng| -> OpSpec {
            let k = if grouped && r.chance(3, 4) {
                *r.pick(group)
            } else if related && r.chance(3, 4) {
                family
            } else if r.chance(1, 3) {
                r.below(8) as u8
            } else {
                r.below(KINDS as u64) as u8
            };
            let mut par = || if r.chance(1, 2) { *r.pick(&pool) } else { r.next() as u8 };
            let (a, b) = (par(), par());
            OpSpec { k, a, b, i: r.below(3) as u8, j: r.below(3) as u8 }
        };
        let alone = r.chance(1, 3);
        let n = if alone { r.below(2) } else { 2 + r.below(3) };
        let (before, threads): (Vec<OpSpec>, Vec<Vec<OpSpec>>) = if r.chance(1, 2) {
            // a few operations again and again, so that each follows each other
            let few: Vec<OpSpec> = (0..2 + r.below(6)).map(|_| op(r)).collect();
            let long = if alone { 60 } else { 10 };
            ((0..r.below(long)).map(|_| r.pick(&few).clone()).collect(), (0..n).map(|_| (0..1 + r.below(10)).map(|_| r.pick(&few).clone()).collect()).collect())
        } else {
            (
                (0..if alone { 2 + r.below(10) } else { r.below(3) }).map(|_| op(r)).collect(),
                (0..n).map(|_| (0..1 + r.below(4)).map(|_| op(r)).collect()).collect(),
            )
        };
        let mut switches = vec![];
        if n > 1 {
            let many = *r.pick(&[1, 2, 3, 5, 8, 20, 100, 400]);
            for _ in 0..many {
                let at = if r.chance(1, 2) {
                    At::Frac(r.below(65536) as u32)
                } else {
                    let p = r.below(14);
                    let m = if r.chance(1, 4) { 10 } else { 4 };
                    At::Start(r.below(m) as u8, r.below(1 << p) as u32)
                };
                switches.push(Switch { thread: r.below(n) as u8, at, to: r.below(n) as u8 });
            }
        }
        let chunk = if r.chance(1, 4) { Some(Chunk { max: 40, seed: r.next(), den: 2 }) } else { None };
        Case { imgs, bufs, foreign: r.chance(1, 4), before, threads, switches, chunk }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        if c.imgs.is_empty() || c.threads.len() > sched::MAX_T || c.bufs.iter().any(|b| b.3.is_empty()) {
            return Ok(());
        }
        if c.imgs.iter().any(|i| i.w > 128 || i.h > 128) {
            return Ok(());
        }
        let mut bufs = vec![];
        for (i, f, cut, n) in &c.bufs {
            let mut img = c.imgs[*i as usize % c.imgs.len()].clone();
            if c.foreign {
                img.kind = FOREIGN;
            }
            if let Ok(mut b) = stored(&img, f)? {
                b.truncate(b.len().saturating_sub(*cut as usize));
                bufs.push((hex(&b), n.clone()));
            }
        }
        thread_local!(static RUNS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
        let k = RUNS.with(|r| {
            r.set(r.get() + 1);
            r.get()
        });
        let q = Req { case: c.clone(), bufs, edges: k % 40 == 1 };
        let r = match crate::fork::ask(&serde_json::to_vec(&q).unwrap()) {
            Ok(b) => b,
            Err(d) => return Err(dead(d, "the run")),
        };
        let rsp: Rsp = serde_json::from_slice(&r).expect("reply");
        sched::add_steps(rsp.steps);
        sched::add_edges(&rsp.edges);
        cx.syscalls += rsp.syscalls;
        for (k, n) in &rsp.fired {
            cx.faults(k, *n);
        }
        for (k, n) in &rsp.ops {
            cx.add(k, *n);
        }
        cx.faults("preemption", rsp.switches);
        cx.add("preemption points", rsp.points);
        if !c.before.is_empty() {
            cx.fault("earlier_operation");
        }
        cx.fp.add(rsp.trace);
        cx.fp.add(Fnv::of(serde_json::to_string(&c.before).unwrap().as_bytes()));
        cx.fp.add(Fnv::of(serde_json::to_string(&c.threads).unwrap().as_bytes()));
        for n in rsp.notes {
            cx.note(n);
        }
        match rsp.violation {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = a fresh process in which a seeded history of operations and then up to 4 threads with up to 10 operations each run on shared pictures and files (47 kinds of operation, files of other programs included, parameters and sizes that repeat); exactly one thread runs at a time and is preempted at seeded basic-block edges, allocations and system calls; each result is compared with the same operation alone in another fresh process; non-trivial when a preemption happened or an operation ran before",
            real: "d10, d10-core, d10-ops, d10-codecs, all codecs, std",
            stub: "the thread scheduler (cooperative, seeded), the kernel's file system and entropy; native libwebp code is preempted at its allocations only",
            secs: (80, 780),
            budget: u64::MAX / 4,
            workers: 8,
            assumptions: vec!["threads interleave at basic-block granularity on a sequentially consistent machine; weak memory orderings are not explored", "pictures up to 128 pixels wide, so that the JPEG decoder uses no threads of its own"],
        }
    }
}
