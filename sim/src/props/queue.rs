//! Command queues: generated programs, a reference execution, and ways to run them
//! (in this process through `Queue`, or the real `d10` program under the preloaded simulator).
use super::*;
use d10::{FilterMode, Intensity};
use d10_commands::{Cmd, Queue};
use serde::{Deserialize, Serialize};
use simcore::shim::{hex, unhex, ShimIn, ShimOut};
use simcore::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Silent,
    Open(u8),
    Save(u8),
    Gray(u8),
    Invert,
    Gamma(f32),
    Level(f32, f32, f32),
    Brightness(f32),
    Contrast(f32),
    BrightnessContrast(f32, f32),
    Saturation(f32),
    StretchSaturation(f32),
    Lightness(f32),
    HueRotate(f32),
    Rotate(f32),
    RandomNoise(f32),
    Salt(f32),
    RgbNoise(f32),
}

pub const FILES: [&str; 19] = [
    "a.png", "b.bmp", "c.webp", "d.gif", "e.jpg", "f.ico", "dir1/g.png", "a.txt", "noext", "junk.png", "missing/h.png",
    "other.jpeg", "sp ace.PNG", "\u{fc} \u{540d}.WebP", "x.tar.bmp", "dir1/.h.Ico", "new\nline.gif",
    "dir1/a.png", "dir2/b.bmp",
];

/// Whether the name is one of a picture that can be saved.
fn is_good(f: u8) -> bool {
    f < 7 || f >= 12
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Init {
    pub file: u8,
    /// None: not a picture
    pub img: Option<(ImgSpec, Fmt)>,
    pub read_only: bool,
    /// what is there instead of a picture
    #[serde(default)]
    pub junk: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    pub init: Vec<Init>,
    pub steps: Vec<Step>,
    pub entropy: u64,
    /// give the first open and later saves as bare arguments
    pub bare: bool,
}

const INTENSITY: [(&str, Intensity); 9] = [
    ("average", Intensity::Average),
    ("rec601luma", Intensity::Rec601Luma),
    ("rec709luma", Intensity::Rec709Luma),
    ("brightness", Intensity::Brightness),
    ("lightness", Intensity::Lightness),
    ("saturation", Intensity::Saturation),
    ("red", Intensity::Red),
    ("green", Intensity::Green),
    ("blue", Intensity::Blue),
];

pub fn path(f: u8) -> String {
    format!("{}{}", PREFIX, FILES[f as usize % FILES.len()])
}

impl Step {
    fn edit(r: &mut Rng) -> Step {
        let mut v = |lo: f32, hi: f32| {
            let k = r.below(1001) as f32 / 1000.0;
            (lo + (hi - lo) * k) as f64 as f32
        };
        let (a, b, c) = (v(-1.0, 1.0), v(-1.0, 1.0), v(0.0, 1.0));
        match r.below(17) {
            0 => Step::Gray(r.below(9) as u8),
            1 | 15 => Step::Invert,
            2 => Step::Gamma(0.3 + c),
            3 => Step::Level(c * 0.4, 0.5 + b.abs() * 0.5, 0.5 + a.abs()),
            4 => Step::Brightness(a),
            5 => Step::Contrast(a),
            6 => Step::BrightnessContrast(a, b),
            7 => Step::Saturation(2.0 * c),
            8 => Step::StretchSaturation(2.0 * c),
            9 => Step::Lightness(2.0 * c),
            10 => Step::HueRotate(a),
            11 | 16 => Step::Rotate(*r.pick(&[1.5707964, 3.1415927, 0.3, -1.0, 4.712389])),
            12 => Step::RandomNoise(*r.pick(&[0.0, 0.3, 1.0])),
            13 => Step::Salt(*r.pick(&[0.0, 0.2, 0.5])),
            _ => Step::RgbNoise(*r.pick(&[0.0, 0.3, 1.0])),
        }
    }
    pub fn noise(&self) -> bool {
        matches!(self, Step::RandomNoise(s) | Step::Salt(s) | Step::RgbNoise(s) if *s != 0.0)
    }
    pub fn file(&self) -> Option<u8> {
        match self {
            Step::Open(f) | Step::Save(f) => Some(*f),
            _ => None,
        }
    }
    pub fn cmd(&self) -> Cmd {
        match *self {
            Step::Silent => Cmd::Silent,
            Step::Open(f) => Cmd::Open(path(f).into()),
            Step::Save(f) => Cmd::Save(path(f).into()),
            Step::Gray(i) => Cmd::ToGray(INTENSITY[i as usize % 9].1),
            Step::Invert => Cmd::Invert,
            Step::Gamma(v) => Cmd::Gamma(v),
            Step::Level(a, b, c) => Cmd::Level { black_point: a, white_point: b, gamma: c },
            Step::Brightness(v) => Cmd::Brightness(v),
            Step::Contrast(v) => Cmd::Contrast(v),
            Step::BrightnessContrast(a, b) => Cmd::BrightnessContrast { brightness: a, contrast: b },
            Step::Saturation(v) => Cmd::Saturation(v),
            Step::StretchSaturation(v) => Cmd::StretchSaturation(v),
            Step::Lightness(v) => Cmd::Lightness(v),
            Step::HueRotate(v) => Cmd::HueRotate(v),
            Step::Rotate(v) => Cmd::Rotate { radians: v, filter: FilterMode::Bilinear },
            Step::RandomNoise(v) => Cmd::RandomNoise(v),
            Step::Salt(v) => Cmd::SaltNPepperNoise(v),
            Step::RgbNoise(v) => Cmd::RgbNoise(v),
        }
    }
    /// The builder method of `Queue`, where there is one.
    fn push(&self, q: Queue, builder: bool) -> Queue {
        if !builder {
            let mut q = q;
            q.push(self.cmd());
            return q;
        }
        match *self {
            Step::Silent => q.silent(),
            Step::Open(f) => q.open(path(f)),
            Step::Save(f) => q.save(path(f)),
            Step::Gray(i) => q.to_gray(INTENSITY[i as usize % 9].1),
            Step::Invert => q.invert(),
            Step::Gamma(v) => q.gamma(v),
            Step::Level(a, b, c) => q.level(a, b, c),
            Step::Brightness(v) => q.brightness(v),
            Step::Contrast(v) => q.contrast(v),
            Step::BrightnessContrast(a, b) => q.brightness_contrast(a, b),
            Step::Saturation(v) => q.saturation(v),
            Step::StretchSaturation(v) => q.stretch_saturation(v),
            Step::Lightness(v) => q.lightness(v),
            Step::HueRotate(v) => q.hue_rotate(v),
            Step::Rotate(v) => q.rotate(v, FilterMode::Bilinear),
            _ => q.with(self.cmd()),
        }
    }
    pub fn args(&self) -> Vec<String> {
        let s = |a: &str, b: String| vec![format!("-{}", a), b];
        match *self {
            Step::Silent => vec!["-silent".into()],
            Step::Open(f) => s("open", path(f)),
            Step::Save(f) => s("save", path(f)),
            Step::Gray(i) => s("grayscale", INTENSITY[i as usize % 9].0.into()),
            Step::Invert => vec!["-invert".into()],
            Step::Gamma(v) => s("gamma", v.to_string()),
            Step::Level(a, b, c) => s("level", format!("{},{},{}", a, b, c)),
            Step::Brightness(v) => s("brightness", v.to_string()),
            Step::Contrast(v) => s("contrast", v.to_string()),
            Step::BrightnessContrast(a, b) => s("brightness-contrast", format!("{},{}", a, b)),
            Step::Saturation(v) => s("saturation", v.to_string()),
            Step::StretchSaturation(v) => s("stretch-saturation", v.to_string()),
            Step::Lightness(v) => s("lightness", v.to_string()),
            Step::HueRotate(v) => s("hue-rotate", v.to_string()),
            Step::Rotate(v) => s("rotate", v.to_string()),
            Step::RandomNoise(v) => s("random-noise", v.to_string()),
            Step::Salt(v) => s("salt-n-pepper-noise", v.to_string()),
            Step::RgbNoise(v) => s("rgb-noise", v.to_string()),
        }
    }
    fn apply(&self, i: &mut Image) {
        match *self {
            Step::Gray(k) => i.mod_colors(|c| c.to_gray_with_intensity(INTENSITY[k as usize % 9].1)),
            Step::Invert => i.mod_colors(|c| c.invert()),
            Step::Gamma(v) => i.mod_colors(|c| c.with_gamma(v)),
            Step::Level(a, b, g) => i.mod_colors(|c| c.with_level(a, b, g)),
            Step::Brightness(v) => i.mod_colors(|c| c.with_brightness(v)),
            Step::Contrast(v) => i.mod_colors(|c| c.with_contrast(v)),
            Step::BrightnessContrast(a, b) => i.mod_colors(|c| c.with_brightness_contrast(a, b)),
            Step::Saturation(v) => i.mod_colors(|c| c.with_saturation(v)),
            Step::StretchSaturation(v) => i.mod_colors(|c| c.stretch_saturation(v)),
            Step::Lightness(v) => i.mod_colors(|c| c.with_lightness(v)),
            Step::HueRotate(v) => i.mod_colors(|c| c.with_hue_rotate(v)),
            Step::Rotate(v) => *i = i.rotate(v, FilterMode::Bilinear),
            Step::RandomNoise(v) => *i = i.random_noise(v),
            Step::Salt(v) => *i = i.salt_n_pepper_noise(v),
            Step::RgbNoise(v) => *i = i.rgb_noise(v),
            Step::Silent | Step::Open(_) | Step::Save(_) => {}
        }
    }
}

impl Prog {
    pub fn gen(r: &mut Rng, silent: bool) -> Prog {
        // few files, so that histories revisit them
        let mut good: Vec<u8> = (0..1 + r.below(4)).map(|_| if r.chance(1, 8) { 12 + r.below(7) as u8 } else { r.below(7) as u8 }).collect();
        // files of the same name in other directories
        if r.chance(1, 6) {
            let k = r.below(2) as u8;
            good = vec![k, 17 + k];
        }
        let mut init = vec![];
        for f in 0..FILES.len() as u8 {
            let wanted = good.contains(&f);
            if (7..=9).contains(&f) && r.chance(1, 3) || is_good(f) && r.chance(1, 20) {
                init.push(Init { file: f, img: None, read_only: false, junk: r.below(6) as u8 });
            } else if (7..=8).contains(&f) && r.chance(1, 3) {
                init.push(Init { file: f, img: Some((ImgSpec::gen(r, Size::Tiny).maybe_foreign(r, 3), Fmt::gen(r))), read_only: false, junk: 0 });
            } else if wanted && r.chance(4, 5) || r.chance(1, 10) && is_good(f) {
                // sometimes another format than the name says
                let fmt = if r.chance(1, 8) { Fmt::gen(r) } else { Fmt::of_ext(c_kind(f)) };
                init.push(Init { file: f, img: Some((ImgSpec::gen(r, Size::Small).maybe_foreign(r, 5), fmt)), read_only: r.chance(1, 25), junk: 0 });
            }
        }
        let pick = |r: &mut Rng, save: bool| -> u8 {
            if r.chance(1, if save { 16 } else { 8 }) {
                7 + r.below(5) as u8
            } else {
                *r.pick(&good)
            }
        };
        let n = 1 + r.below(9);
        let mut steps = vec![];
        for i in 0..n {
            let s = match r.below(20) {
                0..=3 => Step::Open(pick(r, false)),
                4..=8 => Step::Save(pick(r, true)),
                _ => Step::edit(r),
            };
            if i == 0 && r.chance(14, 15) {
                let have: Vec<u8> = init.iter().filter(|i| i.img.is_some()).map(|i| i.file).collect();
                let f = if have.is_empty() || r.chance(1, 12) { pick(r, false) } else { *r.pick(&have) };
                steps.push(Step::Open(f));
            } else {
                steps.push(s);
            }
        }
        if r.chance(3, 4) {
            let f = pick(r, true);
            steps.push(Step::Save(f));
        }
        if silent {
            for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2]) {
                let at = r.below(steps.len() as u64 + 1) as usize;
                steps.insert(at, Step::Silent);
            }
        }
        // now and then so many commands that their number fills a byte
        if r.chance(1, 100) {
            let total = *r.pick(&[100usize, 254, 255, 256, 257, 258, 300]);
            if r.chance(1, 2) {
                steps.push(Step::Save(7 + r.below(2) as u8));
            }
            let at = 1 + r.below(steps.len() as u64) as usize;
            while steps.len() < total {
                steps.insert(at, Step::Invert);
            }
        }
        Prog { init, steps, entropy: r.next(), bare: r.chance(1, 2) }
    }

    pub fn disk(&self) -> Result<Vec<(String, Vec<u8>, u32)>, Violation> {
        let mut v: Vec<(String, Vec<u8>, u32)> = vec![];
        for i in &self.init {
            let d = match &i.img {
                None => junk(i.junk),
                Some((s, f)) => match stored(&s.clone().small_for_ico(), f)? {
                    Ok(b) => b,
                    Err(_) => continue,
                },
            };
            let p = path(i.file);
            if !v.iter().any(|x| x.0 == p) {
                v.push((p, d, if i.read_only { 0o444 } else { 0o644 }));
            }
        }
        Ok(v)
    }

    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        let mut opened = false;
        for (k, s) in self.steps.iter().enumerate() {
            match s {
                Step::Open(f) if self.bare && k == 0 => {
                    v.push(path(*f));
                    opened = true;
                }
                Step::Save(f) if self.bare && opened => v.push(path(*f)),
                _ => v.extend(s.args()),
            }
        }
        v
    }

    pub fn queue(&self) -> Queue {
        let mut q = Queue::new();
        for s in &self.steps {
            q = s.push(q, self.bare);
        }
        q
    }
}

/// Contents that are no picture: unknown, empty, or of a known format but incomplete.
fn junk(kind: u8) -> Vec<u8> {
    match kind % 6 {
        1 => vec![],
        2 => b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR\0\0\0\x05".to_vec(),
        3 => b"\x89PNG".to_vec(),
        4 => b"GIF89a\x05\0\x05\0\0\0\0".to_vec(),
        5 => (0..5000u32).map(|i| (i * 7 + 3) as u8).collect(),
        _ => b"this is not a picture at all, just text".to_vec(),
    }
}

fn c_kind(f: u8) -> u8 {
    [1, 3, 5, 2, 0, 4, 1, 9, 9, 1, 1, 0, 1, 5, 3, 4, 2, 1, 3][f as usize % FILES.len()]
}

pub type Disk = BTreeMap<String, Vec<u8>>;

/// The reference: the commands' meaning through the image API on a faultless machine.
pub struct Model {
    /// disk before command i; one more at the end
    pub states: Vec<Disk>,
    /// the first command that fails by itself
    pub fails: Option<usize>,
    /// (width, height) of the current image before command i
    pub noisy: Vec<bool>,
    pub calls: u64,
}

impl Model {
    /// Commands that are executed when nothing is injected.
    pub fn reached(&self, n: usize) -> usize {
        self.fails.unwrap_or(n)
    }
}

pub fn machine(disk: &[(String, Vec<u8>, u32)], p: &Prog, plan: Plan, std_faults: bool) -> World {
    let mut w = World::new();
    for (p, d, m) in disk {
        w.put(p, d.clone());
        let i = w.names[p];
        w.inodes.get_mut(&i).unwrap().mode = *m;
    }
    w.plan = plan;
    w.capture_std = true;
    w.std_faults = std_faults;
    w.log_cap = 100_000;
    w.entropy = Some(Entropy { rng: Rng::new(p.entropy), nosys: false, calls: 0, pat: 0 });
    w
}

/// Runs on a thread of its own: noise generators are per thread.
pub fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, Violation> {
    std::thread::scope(|s| {
        let h = s.spawn(|| {
            let _pool = crate::sched::own_pool();
            calm("running the queue", f)
        });
        h.join().unwrap_or_else(|_| fail("panic", "panic:thread", "thread panicked"))
    })
}

pub fn model(p: &Prog, disk: &[(String, Vec<u8>, u32)]) -> Result<Model, Violation> {
    let m = Machine::start(machine(disk, p, Plan::default(), false));
    let r = fresh(|| {
        let mut states = vec![m_snap()];
        let mut noisy = vec![];
        let mut img: Option<Image> = None;
        let mut dirty = false;
        let mut fails = None;
        for (k, s) in p.steps.iter().enumerate() {
            noisy.push(dirty);
            let ok = match s {
                Step::Silent => true,
                Step::Open(f) => match Image::open(path(*f)) {
                    Ok(i) => {
                        img = Some(i);
                        dirty = false;
                        true
                    }
                    Err(_) => false,
                },
                Step::Save(f) => match &img {
                    Some(i) => i.save(path(*f)).is_ok(),
                    None => false,
                },
                e => match &mut img {
                    Some(i) => {
                        e.apply(i);
                        dirty |= e.noise();
                        true
                    }
                    None => false,
                },
            };
            states.push(m_snap());
            if !ok {
                fails = Some(k);
                break;
            }
        }
        Model { states, fails, noisy, calls: 0 }
    });
    let w = m.stop();
    r.map(|mut r| {
        r.calls = w.n;
        r
    })
}

fn m_snap() -> Disk {
    simcore::interpose::with(|w| w.snapshot()).expect("world")
}

/// What a run of the program showed.
pub struct Seen {
    pub ok: bool,
    /// exit status of the program; None: killed
    pub code: Option<i32>,
    pub disk: Disk,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub crashed: bool,
    pub hard: Vec<HardFault>,
    pub fired: BTreeMap<String, u64>,
    pub log: Vec<Event>,
    pub calls: u64,
    pub fp: u64,
    pub how: &'static str,
}

pub fn run_in_process(p: &Prog, disk: &[(String, Vec<u8>, u32)], plan: Plan, std_faults: bool) -> Result<Seen, Violation> {
    let m = Machine::start(machine(disk, p, plan, std_faults));
    let r = fresh(|| p.queue().run().map_err(|e| e.to_string()));
    let w = m.stop();
    let r = r?;
    Ok(Seen {
        ok: r.is_ok(),
        code: Some(if r.is_ok() { 0 } else { 1 }),
        disk: w.snapshot(),
        out: w.std_out.clone(),
        err: r.err().map(|e| e.into_bytes()).unwrap_or_default(),
        crashed: w.crashed,
        hard: w.hard.clone(),
        fired: w.fired.clone(),
        log: w.log.clone(),
        calls: w.n,
        fp: w.fp.0,
        how: "queue",
    })
}

pub fn spawn_cli(
    args: &[String],
    p: &Prog,
    disk: &[(String, Vec<u8>, u32)],
    plan: Plan,
    std_faults: bool,
    cx: &Ctx,
) -> Result<Seen, Violation> {
    let root = std::env::var("D10SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let target = std::env::var("D10SIM_TARGET").unwrap_or_else(|_| format!("{}/target/sim", root));
    let spec = ShimIn {
        files: disk.iter().map(|(p, d, m)| (p.clone(), hex(d), *m)).collect(),
        plan,
        capture_std: true,
        std_faults,
        entropy_seed: Some(p.entropy),
        entropy_nosys: false,
    };
    let i = format!("{}/cli.{}.in", cx.scratch, std::process::id());
    let o = format!("{}/cli.{}.out", cx.scratch, std::process::id());
    std::fs::write(&i, serde_json::to_vec(&spec).unwrap()).unwrap();
    let _ = std::fs::remove_file(&o);
    let st = std::process::Command::new(format!("{}/target/repo/release/d10", root))
        .args(args)
        .env("LD_PRELOAD", format!("{}/release/deps/libsimcore.so", target))
        .env("D10SIM_IN", &i)
        .env("D10SIM_OUT", &o)
        .env("RAYON_NUM_THREADS", "1")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("check error: cannot run d10: {}", e);
            std::process::exit(3);
        }
    };
    let out: ShimOut = match std::fs::read(&o).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(o) => o,
        None => return fail("cli-killed", "cli-killed", format!("d10 {:?} ended abnormally ({})", args, st)),
    };
    Ok(Seen {
        ok: st.code() == Some(0),
        code: st.code(),
        disk: out.files.iter().map(|(k, v)| (k.clone(), unhex(v))).collect(),
        out: unhex(&out.stdout),
        err: unhex(&out.stderr),
        crashed: out.crashed,
        hard: out.hard,
        fired: out.fired,
        log: out.log,
        calls: out.events,
        fp: out.fp,
        how: "d10",
    })
}

pub fn record(cx: &mut Ctx, s: &Seen) {
    for (k, v) in &s.fired {
        cx.faults(k, *v);
    }
    cx.syscalls += s.log.len() as u64;
    cx.fp.add(s.fp);
    cx.fp.add(s.ok as u64);
    if cx.verbose {
        for e in &s.log {
            let f = e.fault.map(|f| format!("   injected {:?}", f)).unwrap_or_default();
            cx.notes.push(format!("syscall {:>3} {:<9} {} arg={} -> {}{}", e.n, e.op.name(), e.what, e.arg, e.ret, f));
        }
        cx.notes.push(format!("{}: status {:?} crashed {}", s.how, s.code, s.crashed));
        cx.notes.push(format!("stdout {:?}", String::from_utf8_lossy(&s.out)));
        cx.notes.push(format!("stderr {:?}", String::from_utf8_lossy(&s.err)));
    }
}

/// Failures a command cannot overlook.
pub fn disk_faults(s: &Seen) -> Vec<&HardFault> {
    s.hard.iter().filter(|h| matches!(h.op, Op::Open | Op::Read | Op::Write | Op::Seek)).collect()
}

/// Does the disk look as if commands before `j` took effect and, of command `j`, at most a part?
pub fn before(p: &Prog, m: &Model, s: &Seen, j: usize, exact: bool) -> Result<(), String> {
    let want = &m.states[j];
    let free = if exact { None } else { p.steps.get(j).and_then(|s| if let Step::Save(f) = s { Some(path(*f)) } else { None }) };
    for (n, d) in want {
        if Some(n) == free.as_ref() {
            continue;
        }
        match s.disk.get(n) {
            None => return Err(format!("{} is gone", n)),
            Some(x) if x == d => {}
            Some(x) => {
                if s.how == "d10" && alike_noise(p, m, n, j, x, d) {
                    continue;
                }
                return Err(format!("{} has {} bytes, not the {} bytes it should have", n, x.len(), d.len()));
            }
        }
    }
    for n in s.disk.keys() {
        if !want.contains_key(n) && Some(n) != free.as_ref() {
            return Err(format!("{} was created", n));
        }
    }
    Ok(())
}

/// Saved noise of another process: only the kind of picture can be compared.
fn alike_noise(p: &Prog, m: &Model, n: &str, j: usize, a: &[u8], b: &[u8]) -> bool {
    let last = p.steps[..j.min(m.noisy.len())].iter().rposition(|s| matches!(s, Step::Save(f) if path(*f) == n));
    match last {
        Some(k) if m.noisy[k] || upstream_noise(p, m, k) => match (Image::read_from_buffer(a), Image::read_from_buffer(b)) {
            (Ok(a), Ok(b)) => a.width() == b.width() && a.height() == b.height(),
            _ => false,
        },
        _ => false,
    }
}
/// The picture was opened from a file that holds noise.
fn upstream_noise(p: &Prog, m: &Model, k: usize) -> bool {
    m.noisy[..k].iter().any(|n| *n) && p.steps[..k].iter().any(|s| s.noise())
}

/// Decides a run: which command may have been the last one, given what was injected.
/// Returns the possible failing commands (`n` stands for "all done").
pub fn judge(p: &Prog, m: &Model, s: &Seen) -> Result<Vec<usize>, Violation> {
    let n = p.steps.len();
    let key = s.how;
    if s.code.is_none() && !s.crashed {
        return fail("cli-killed", key, "the program was killed by a signal");
    }
    let zero = s.fired.contains_key("write_zero");
    let df = disk_faults(s);
    let std_hard = s.hard.iter().any(|h| h.op == Op::StdWrite);
    let soft = s.hard.len() > df.len() || std_hard;
    let end = m.reached(n);
    if s.crashed {
        let mut js: Vec<usize> = (0..=end).filter(|&j| before(p, m, s, j, false).is_ok()).collect();
        js.dedup();
        if js.is_empty() {
            return fail("crash-effect", key, "after the crash the files match no command at which it can have happened");
        }
        return Ok(js);
    }
    if s.ok {
        if let Some(h) = df.first() {
            return fail(
                "success-after-error",
                key,
                format!("success was reported although {} of {} failed with {}", h.op.name(), h.path, errno_name(h.errno)),
            );
        }
        if let Some(f) = m.fails {
            return fail("success-after-error", key, format!("success was reported although command {} ({:?}) fails", f + 1, p.steps[f].cmd()));
        }
        if zero {
            return fail("success-after-error", key, "success was reported although the disk stopped accepting bytes");
        }
        if let Err(e) = before(p, m, s, n, true) {
            return fail("wrong-effect", key, format!("success was reported but {}", e));
        }
        if !s.err.is_empty() && !std_hard {
            return fail("error-text", key, format!("success was reported with error text {:?}", String::from_utf8_lossy(&s.err)));
        }
        return Ok(vec![n]);
    }
    if !std_hard && s.err.iter().all(|c| c.is_ascii_whitespace()) {
        return fail("error-text", key, format!("status {:?} without any error text", s.code));
    }
    let js: Vec<usize> = if df.is_empty() && !soft && !zero {
        match m.fails {
            None => {
                return fail(
                    "spurious-failure",
                    key,
                    format!("nothing failed but the status is {:?}: {}", s.code, String::from_utf8_lossy(&s.err)),
                )
            }
            Some(f) => {
                if let Err(e) = before(p, m, s, f, false) {
                    return fail("wrong-effect", key, format!("command {} ({:?}) failed, but {}", f + 1, p.steps[f].cmd(), e));
                }
                vec![f]
            }
        }
    } else {
        (0..=end)
            .filter(|&j| {
                if j == end && m.fails.is_none() && !soft {
                    return false;
                }
                if !soft && !zero && m.fails != Some(j) {
                    let f = match p.steps[j].file() {
                        Some(f) => path(f),
                        None => return false,
                    };
                    if df[0].path != f {
                        return false;
                    }
                }
                before(p, m, s, j, false).is_ok()
            })
            .collect()
    };
    if js.is_empty() {
        return fail(
            "wrong-effect",
            key,
            format!(
                "the program failed (status {:?}, {}) but the files match no command at which it can have stopped",
                s.code,
                String::from_utf8_lossy(&s.err).trim()
            ),
        );
    }
    Ok(js)
}

pub fn gen_plan(r: &mut Rng, crash: bool) -> PlanSpec {
    let mut p = if r.chance(1, 2) { PlanSpec::benign(r) } else { PlanSpec::default() };
    match r.below(10) {
        0..=2 => {}
        3 => p.quota = Some(Pos::gen(r)),
        4 | 5 if crash => p.faults.push(FSpec { pos: Pos::gen(r), f: Fault::Crash { keep: r.below(3000) as u32 } }),
        _ => {
            for _ in 0..*r.pick(&[1, 1, 1, 2]) {
                let mut all = WRITE_ERRNOS.to_vec();
                all.extend(READ_ERRNOS);
                all.extend(OPEN_ERRNOS);
                let f = match r.below(10) {
                    0 => Fault::Zero,
                    1 => Fault::Eintr,
                    _ => Fault::Err { errno: *r.pick(&all), sticky: r.chance(1, 2) },
                };
                p.faults.push(FSpec { pos: Pos::gen(r), f });
            }
        }
    }
    p
}

/// Resolves the positions of a plan against a faultless run in this process.
pub fn resolve(p: &Prog, disk: &[(String, Vec<u8>, u32)], spec: &PlanSpec, std_faults: bool) -> Result<Plan, Violation> {
    if !spec.needs_dry() {
        return Ok(spec.base());
    }
    let s = run_in_process(p, disk, spec.base(), std_faults)?;
    let bytes: i64 = s.log.iter().filter(|e| e.op == Op::Write && e.ret > 0).map(|e| e.ret).sum();
    Ok(spec.resolve(s.calls, bytes as u64))
}
