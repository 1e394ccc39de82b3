//! Noise stays within its contract for every source of randomness.
use super::*;
use crate::fork::{forked, Death};
use crate::sched;
use d10::Rgb;
use serde::{Deserialize, Serialize};
use simcore::rng::Fnv;
use simcore::world::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Call {
    /// 0 random, 1 gaussian, 2 rgb, 3 salt and pepper
    k: u8,
    in_place: bool,
    strength: f32,
    img: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    imgs: Vec<(ImgSpec, bool)>,
    calls: Vec<Call>,
    threads: Vec<Vec<Call>>,
    switches: Vec<(u8, u32, u8)>,
    seed: u64,
    pat: u8,
    nosys: bool,
    plan: PlanSpec,
}

/// Pictures without any channel at its maximum or minimum, on which every change shows.
fn muted(s: &ImgSpec) -> Image {
    let (w, h) = (s.w.clamp(1, 512), s.h.clamp(1, 512));
    let mut r = Rng::new(s.seed);
    let flat = s.kind % 3 == 0;
    let mut v = || 0.05 + 0.9 * (r.below(1 << 20) as f32 / (1 << 20) as f32);
    let first = [v(), v(), v(), v()];
    let d = (0..w * h)
        .map(|_| {
            let p = if flat { first } else { [v(), v(), v(), v()] };
            Rgb { data: [p[0], p[1], p[2], if s.kind % 2 == 0 { 1.0 } else { p[3] }] }
        })
        .collect();
    Image::new_from_raw(w, h, d)
}

fn perform(c: &Call, imgs: &[Image]) -> Result<Image, Violation> {
    let i = &imgs[c.img as usize % imgs.len()];
    let s = c.strength;
    calm(NAMES[c.k as usize % 4], || {
        if c.in_place {
            let mut x = i.clone();
            match c.k % 4 {
                0 => x.add_random_noise(s),
                1 => x.add_gaussian_noise(s),
                2 => x.add_rgb_noise(s),
                _ => x.add_salt_n_pepper_noise(s),
            }
            x
        } else {
            match c.k % 4 {
                0 => i.random_noise(s),
                1 => i.gaussian_noise(s),
                2 => i.rgb_noise(s),
                _ => i.salt_n_pepper_noise(s),
            }
        }
    })
}

const NAMES: [&str; 4] = ["random noise", "gaussian noise", "rgb noise", "salt and pepper noise"];

/// |count - n p| within eight standard deviations (wider for correlated counts).
fn odd(count: f64, n: f64, p: f64, widen: f64) -> bool {
    let p = p.clamp(0.0, 1.0);
    (count - n * p).abs() > 8.0 * (widen * n * p * (1.0 - p)).sqrt() + 10.0
}

/// The contract of one call.
///
/// `degenerate`: the entropy is a constant stream, with which the generator, which reseeds after
/// 64 KiB, repeats itself: statistics are then left to pictures that need less than that.
fn contract(c: &Call, src: &Image, out: &Image, degenerate: bool) -> Res {
    let name = NAMES[c.k as usize % 4];
    let bad = |class: &str, d: String| -> Res { fail(class, format!("{} {}", name, class), format!("{:?} on {}x{}: {}", c, src.width(), src.height(), d)) };
    if (out.width(), out.height()) != (src.width(), src.height()) || out.data().len() != src.data().len() {
        return bad("dimensions", format!("result is {}x{}", out.width(), out.height()));
    }
    let (a, b) = (src.data(), out.data());
    let n = a.len();
    let t = c.strength;
    if t == 0.0 {
        for (k, (p, q)) in a.iter().zip(b).enumerate() {
            if (0..4).any(|x| p.data[x] != q.data[x]) {
                return bad("zero", format!("strength 0 changed pixel {} from {:?} to {:?}", k, p.data, q.data));
            }
        }
        return Ok(());
    }
    let w = src.width() as usize;
    let nf = n as f64;
    if c.k % 4 < 2 {
        let gauss = c.k % 4 == 1;
        let lim = if gauss { 9.0 } else { 1.0 };
        let s = t as f64;
        // results are cut off at 0 and 1: a draw is known exactly only strictly in between
        let mut noise: Vec<[f64; 3]> = Vec::with_capacity(n);
        let mut exact: Vec<i64> = vec![];
        let mut same = 0u64;
        for (k, (p, q)) in a.iter().zip(b).enumerate() {
            if p.data[3].to_bits() != q.data[3].to_bits() {
                return bad("alpha", format!("alpha of pixel {} went from {} to {}", k, p.data[3], q.data[3]));
            }
            let mut z = [0.0; 3];
            let mut kept = 0;
            for x in 0..3 {
                let (v, o) = (p.data[x] as f64, q.data[x] as f64);
                if !(0.0..=1.0).contains(&o) {
                    return bad("strength", format!("channel {} of pixel {} went from {} to {}", x, k, v, o));
                }
                let e = 4e-7 * ((1.0 - s).abs() * v.abs() + s.abs() * lim);
                // the nearest noise that explains the result
                let z0 = (o - (1.0 - s) * v) / s;
                let wrong = if o > 0.0 && o < 1.0 {
                    z0.abs() > lim + e / s.abs()
                } else {
                    let (l, h) = ((1.0 - s) * v - s.abs() * lim - e, (1.0 - s) * v + s.abs() * lim + e);
                    o == 0.0 && l > 0.0 || o == 1.0 && h < 1.0
                };
                if wrong {
                    return bad("strength", format!("channel {} of pixel {} went from {} to {}, noise {}", x, k, v, o, z0));
                }
                z[x] = z0;
                if o > 0.0 && o < 1.0 {
                    exact.push((z0 * 1048576.0).round() as i64);
                    same += (v == o) as u64;
                    kept += (v == o) as u64;
                }
            }
            if s.abs() >= 0.2 && kept == 3 {
                return bad("untouched", format!("pixel {} was left as it was", k));
            }
            noise.push(z);
        }
        if s.abs() < 0.2 || (degenerate && n > 2000) {
            return Ok(());
        }
        if same as f64 > 10.0 + nf * 1e-3 {
            return bad("untouched", format!("{} of {} channels were left as they were", same, n * 3));
        }
        // own draws: the values of all channels of all pixels are different
        exact.sort_unstable();
        let dup = exact.windows(2).filter(|w| w[0] == w[1]).count() as f64;
        let m = exact.len() as f64;
        if dup > 20.0 + 5.0 * m * m / 2.0 / 2097152.0 {
            return bad("shared", format!("{} of {} noise values occur more than once", dup, m));
        }
        if n < 16 {
            return Ok(());
        }
        // is draw (k, x) above y? None when the cut-off hides it
        let above = |k: usize, x: usize, y: f64| -> Option<bool> {
            let at = (1.0 - s) * a[k].data[x] as f64 + s * y;
            (at > 1e-6 && at < 1.0 - 1e-6).then(|| noise[k][x] > y)
        };
        // distribution: probability of a draw above some bounds
        let bounds: &[(f64, f64)] = if gauss {
            &[(0.0, 0.5), (0.1, 0.460172), (0.5, 0.308538), (1.0, 0.158655), (1.5, 0.066807), (2.0, 0.02275), (3.0, 0.00134990)]
        } else {
            &[(0.0, 0.5), (0.1, 0.45), (0.25, 0.375), (0.5, 0.25), (0.75, 0.125), (0.9, 0.05), (0.98, 0.01)]
        };
        let subsets: [(&str, usize, usize, &[usize]); 7] = [
            ("all", 0, 1, &[0, 1, 2]),
            ("red", 0, 1, &[0]),
            ("green", 0, 1, &[1]),
            ("blue", 0, 1, &[2]),
            ("even pixels", 0, 2, &[0, 1, 2]),
            ("upper half", n / 2, 0, &[0, 1, 2]),
            ("lower half", n / 2, 1, &[0, 1, 2]),
        ];
        for (what, from, step, chans) in subsets {
            let ks: Vec<usize> = if step == 0 { (0..from).collect() } else { (from..n).step_by(step).collect() };
            for (y, p) in bounds {
                for sign in [1.0, -1.0] {
                    let (mut m, mut c) = (0.0, 0.0);
                    for k in &ks {
                        for x in chans {
                            if let Some(b) = above(*k, *x, y * sign) {
                                m += 1.0;
                                c += (b == (sign > 0.0)) as u8 as f64;
                            }
                        }
                    }
                    if odd(c, m, *p, 1.0) {
                        return bad("proportion", format!("{}: {} of {} draws beyond {} (expected {:.1})", what, c, m, y * sign, m * p));
                    }
                }
            }
        }
        // independence of neighbours, by sign
        let sign = |k: usize, x: usize| above(k, x, 0.0).map(|b| if b { 1.0 } else { -1.0 });
        let mut tests: Vec<(String, f64, f64)> = vec![];
        for (x, y) in [(0, 1), (1, 2), (0, 2)] {
            let v: Vec<f64> = (0..n).filter_map(|k| Some(sign(k, x)? * sign(k, y)?)).collect();
            tests.push((format!("channels {} and {}", x, y), v.iter().sum(), v.len() as f64));
        }
        for lag in [1, 2, w, 2 * w, n / 2] {
            if lag > 0 && lag < n {
                let v: Vec<f64> = (0..n - lag).filter_map(|k| Some(sign(k, 0)? * sign(k + lag, 0)?)).collect();
                tests.push((format!("pixels {} apart", lag), v.iter().sum(), v.len() as f64));
            }
        }
        for (what, s, m) in tests {
            if s.abs() > 9.0 * m.sqrt() + 4.0 {
                return bad("dependent", format!("{}: correlation {:.3} over {} pairs", what, s / m, m));
            }
        }
        return Ok(());
    }
    // threshold noises
    let salt = c.k % 4 == 3;
    let p = (t as f64).clamp(0.0, 1.0);
    let mut hit = vec![false; n];
    let mut tally = [0u64; 3];
    let mut eligible = vec![false; n];
    for (k, (s, o)) in a.iter().zip(b).enumerate() {
        let same = (0..4).all(|x| s.data[x].to_bits() == o.data[x].to_bits());
        if salt {
            eligible[k] = *s != Rgb::BLACK && *s != Rgb::WHITE;
            if same {
                continue;
            }
            if o.data == Rgb::BLACK.data {
                tally[0] += eligible[k] as u64;
            } else if o.data == Rgb::WHITE.data {
                tally[1] += eligible[k] as u64;
            } else {
                return bad("colour", format!("pixel {} went from {:?} to {:?}, which is neither black nor white", k, s.data, o.data));
            }
            hit[k] = true;
        } else {
            eligible[k] = (0..3).all(|x| s.data[x] != 1.0);
            if same {
                continue;
            }
            let ch: Vec<usize> = (0..4).filter(|x| s.data[*x].to_bits() != o.data[*x].to_bits()).collect();
            if ch.len() != 1 || ch[0] == 3 || o.data[ch[0]] != 1.0 {
                return bad("colour", format!("pixel {} went from {:?} to {:?}", k, s.data, o.data));
            }
            tally[ch[0]] += eligible[k] as u64;
            hit[k] = true;
        }
    }
    let hits = hit.iter().filter(|h| **h).count();
    if t <= 0.0 && hits > 0 {
        return bad("strength", format!("{} pixels changed", hits));
    }
    if t > 1.0 {
        if let Some(k) = (0..n).find(|k| eligible[*k] && !hit[*k]) {
            return bad("untouched", format!("pixel {} was left as it was at a strength above 1", k));
        }
    }
    if degenerate && n > 2000 {
        return Ok(());
    }
    let el = eligible.iter().filter(|e| **e).count() as f64;
    let total = if salt { p + p.min(1.0 - p) } else { p };
    let want = if salt { [p, p.min(1.0 - p), 0.0] } else { [p / 3.0; 3] };
    for x in 0..3 {
        if odd(tally[x] as f64, el, want[x], 1.0) {
            return bad("proportion", format!("{} of {} pixels took colour {} (expected {:.1})", tally[x], el, x, el * want[x]));
        }
    }
    for (what, part) in [("even pixels", (0..n).step_by(2).collect::<Vec<_>>()), ("upper half", (0..n / 2).collect()), ("lower half", (n / 2..n).collect())] {
        let e = part.iter().filter(|k| eligible[**k]).count() as f64;
        let h = part.iter().filter(|k| eligible[**k] && hit[**k]).count() as f64;
        if odd(h, e, total, 1.0) {
            return bad("proportion", format!("{}: {} of {} pixels changed (expected {:.1})", what, h, e, e * total));
        }
    }
    for lag in [1, 2, w, 2 * w, n / 2] {
        if lag > 0 && lag < n {
            let e = (0..n - lag).filter(|k| eligible[*k] && eligible[*k + lag]).count() as f64;
            let h = (0..n - lag).filter(|k| eligible[*k] && eligible[*k + lag] && hit[*k] && hit[*k + lag]).count() as f64;
            if odd(h, e, total * total, 3.0) {
                return bad("dependent", format!("{} of {} pairs of pixels {} apart changed together (expected {:.1})", h, e, lag, e * total * total));
            }
        }
    }
    Ok(())
}

/// How many bits of randomness a result surely shows; None if it may be the same every time.
fn shows(c: &Call, src: &Image) -> bool {
    let n = src.data().len() as f64;
    let t = c.strength as f64;
    match c.k % 4 {
        0 | 1 => t.abs() >= 0.05 && n >= 8.0,
        2 => {
            let e = src.data().iter().filter(|s| (0..3).all(|x| s.data[x] != 1.0)).count() as f64;
            t > 0.0 && e * t.min(1.0) >= 60.0
        }
        _ => {
            let e = src.data().iter().filter(|s| **s != Rgb::BLACK && **s != Rgb::WHITE).count() as f64;
            t > 0.0 && t <= 0.6 && e * t >= 60.0
        }
    }
}

fn world(c: &Case, plan: Plan, nosys: bool) -> World {
    let mut w = World::new();
    w.plan = plan;
    w.entropy = Some(Entropy { rng: Rng::new(c.seed), nosys, calls: 0, pat: c.pat });
    w
}

#[derive(Serialize, Deserialize, Default)]
struct Rsp {
    violation: Option<Violation>,
    fired: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    steps: u64,
    syscalls: u64,
    points: u64,
    switches: u64,
    fp: u64,
    edges: Vec<u32>,
    notes: Vec<String>,
}

pub fn serve(q: &[u8]) -> Vec<u8> {
    let (c, edges): (Case, bool) = match serde_json::from_slice(q) {
        Ok(r) => r,
        Err(_) => return vec![],
    };
    let mut rsp = Rsp::default();
    if let Err(v) = execute(&c, &mut rsp) {
        rsp.violation = Some(v);
    }
    rsp.steps = sched::steps();
    if edges {
        rsp.edges = sched::edge_list();
    }
    serde_json::to_vec(&rsp).unwrap()
}

fn dead(d: Death, what: &str) -> Violation {
    let (class, detail) = match d {
        Death::Signal(s) if s == libc::SIGALRM => ("hang", "no answer within the wall-clock limit".to_string()),
        Death::Signal(s) => ("crash", format!("the process died from signal {}", s)),
        Death::Code(c) if c == sched::EXIT_STEPS => ("hang", "the step budget was used up".into()),
        Death::Code(c) if c == sched::EXIT_DEADLOCK => ("deadlock", "all threads wait for each other".into()),
        Death::Code(c) => ("crash", format!("the process ended with status {}", c)),
    };
    Violation { class: class.into(), key: class.into(), detail: format!("{}: {}", what, detail) }
}

fn execute(c: &Case, rsp: &mut Rsp) -> Res {
    let imgs: Vec<Image> = c.imgs.iter().map(|(s, m)| if *m { muted(s) } else { s.build().map_colors(|c| Rgb { data: c.data.map(|v| v.clamp(0.0, 1.0) + 0.0) }) }).collect();
    sched::set_budget(4_000_000_000);
    for k in c.calls.iter().chain(c.threads.iter().flatten()) {
        *rsp.ops.entry(NAMES[k.k as usize % 4].to_string()).or_insert(0) += 1;
    }
    // the same calls with undisturbed entropy, and with in-place and copy exchanged
    let alone = |flip: bool| -> Result<(Vec<u64>, u64), Violation> {
        forked(|| {
            let m = Machine::start(world(c, Plan::default(), false));
            let v: Vec<u64> = c
                .calls
                .iter()
                .map(|k| {
                    let mut k = k.clone();
                    k.in_place ^= flip;
                    perform(&k, &imgs).map(|i| hash(&i)).unwrap_or(0)
                })
                .collect();
            let w = m.stop();
            (v, w.log_total)
        })
        .map_err(|d| dead(d, "the calls with undisturbed entropy"))
    };
    let (calm_, calls) = alone(false)?;
    let (flipped, _) = alone(true)?;
    let before: Vec<u64> = imgs.iter().map(hash).collect();
    let m = Machine::start(world(c, c.plan.resolve(calls, 0), c.nosys));
    let mut outs = vec![];
    for (k, call) in c.calls.iter().enumerate() {
        let src = &imgs[call.img as usize % imgs.len()];
        let out = perform(call, &imgs)?;
        contract(call, src, &out, c.pat != 0)?;
        let h = hash(&out);
        rsp.fp = rsp.fp.rotate_left(9) ^ h;
        if h != calm_[k] {
            let key = format!("{} entropy", NAMES[call.k as usize % 4]);
            return fail("entropy", key, format!("call {} {:?}: with disturbed entropy reads the noise is another than with the same entropy undisturbed", k, call));
        }
        if h != flipped[k] {
            let key = format!("{} in place", NAMES[call.k as usize % 4]);
            return fail("in-place", key, format!("call {} {:?}: the in-place and the copying operation differ for the same entropy", k, call));
        }
        for (j, (other, oh)) in outs.iter().enumerate() {
            let o: &Call = other;
            if c.pat == 0 && o.k == call.k && o.strength == call.strength && o.img == call.img && *oh == h && shows(call, src) {
                let key = format!("{} repeated", NAMES[call.k as usize % 4]);
                return fail("repeated", key, format!("calls {} and {} {:?} gave the same noise", j, k, call));
            }
        }
        outs.push((call.clone(), h));
    }
    if !c.threads.is_empty() {
        let n = c.threads.len();
        let imgs = Arc::new(imgs.clone());
        let res: Arc<Mutex<Vec<Vec<(Call, Result<Image, Violation>)>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
        let bodies: Vec<Box<dyn FnOnce() + Send>> = c
            .threads
            .iter()
            .enumerate()
            .map(|(t, calls)| {
                let (calls, imgs, res) = (calls.clone(), imgs.clone(), res.clone());
                Box::new(move || {
                    for k in calls {
                        let r = perform(&k, &imgs);
                        let _g = simcore::interpose::SimGuard::enter();
                        res.lock().unwrap()[t].push((k, r));
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let list: Vec<(u32, u64, u32)> = c.switches.iter().map(|s| (s.0 as u32 % n as u32, s.1 as u64, s.2 as u32 % n as u32)).collect();
        let o = sched::run(bodies, &list);
        rsp.points = o.points;
        rsp.switches = o.switches;
        rsp.fp = rsp.fp.rotate_left(9) ^ o.trace;
        let res = res.lock().unwrap();
        let mut seen: Vec<(usize, Call, u64)> = outs.iter().map(|(k, h)| (99, k.clone(), *h)).collect();
        for (t, l) in res.iter().enumerate() {
            if l.len() != c.threads[t].len() {
                return fail("lost", "lost", format!("thread {} finished {} of {} calls", t, l.len(), c.threads[t].len()));
            }
            for (k, r) in l {
                let src = &imgs[k.img as usize % imgs.len()];
                let out = match r {
                    Ok(o) => o,
                    Err(v) => return Err(v.clone()),
                };
                contract(k, src, out, c.pat != 0)?;
                let h = hash(out);
                for (t2, o, oh) in &seen {
                    // a constant entropy stream may well give every thread the same noise
                    if c.pat == 0 && o.k == k.k && o.strength == k.strength && o.img == k.img && *oh == h && shows(k, src) {
                        let key = format!("{} threads", NAMES[k.k as usize % 4]);
                        return fail("repeated", key, format!("{:?} gave the same noise in thread {} and thread {}", k, t2, t));
                    }
                }
                seen.push((t, k.clone(), h));
            }
        }
    }
    let w = m.stop();
    rsp.syscalls = w.log_total;
    rsp.fired = w.fired.clone();
    rsp.notes = w.log.iter().map(|e| format!("syscall {:>3} {:<9} {} arg={} -> {}{}", e.n, e.op.name(), e.what, e.arg, e.ret, e.fault.map(|f| format!("   injected {:?}", f)).unwrap_or_default())).collect();
    for (k, i) in imgs.iter().enumerate() {
        if hash(i) != before[k] {
            return fail("source-changed", "source-changed", format!("source image {} was changed", k));
        }
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C10";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let mut imgs = vec![];
        for _ in 0..1 + r.below(2) {
            let mut s = ImgSpec::gen(r, *r.clone().pick(&[Size::Tiny, Size::Small, Size::Small]));
            let m = r.chance(2, 3);
            if m {
                let (a, b) = *r.pick(&[(20, 40), (20, 40), (40, 70), (64, 64), (110, 130), (256, 200)]);
                s.w = r.range(1, a) as u32;
                s.h = r.range(1, b) as u32;
                if r.chance(1, 2) {
                    (s.w, s.h) = (s.w.max(a as u32 / 2), s.h.max(b as u32 / 2));
                }
            }
            imgs.push((s, m));
        }
        let mut menu: Vec<Call> = vec![];
        let call = |r: &mut Rng, menu: &mut Vec<Call>| -> Call {
            if !menu.is_empty() && r.chance(1, 2) {
                let mut c = r.pick(menu).clone();
                if r.chance(1, 2) {
                    c.in_place ^= true;
                }
                return c;
            }
            let k = r.below(4) as u8;
            let u = r.below(1000) as f32 / 1000.0;
            let s = match r.below(12) {
                0 => 0.0,
                1 => 1.0,
                2 => 1.0 + u,
                3 => -u,
                4 => u * 0.05,
                5 => 0.5,
                _ => u,
            };
            let c = Call { k, in_place: r.chance(1, 2), strength: s, img: r.below(2) as u8 };
            menu.push(c.clone());
            c
        };
        let big = imgs.iter().any(|i| i.0.w * i.0.h > 9000);
        let calls = (0..1 + r.below(if big { 3 } else { 8 })).map(|_| call(r, &mut menu)).collect();
        let n = if r.chance(1, 3) { 2 + r.below(2) } else { 0 };
        let threads: Vec<Vec<Call>> = (0..n).map(|_| (0..1 + r.below(2)).map(|_| call(r, &mut menu)).collect()).collect();
        let mut switches = vec![];
        if n > 0 {
            for _ in 0..*r.pick(&[1, 2, 5, 20, 100]) {
                let p = r.below(17);
                switches.push((r.below(n) as u8, r.below(1 << p) as u32, r.below(n) as u8));
            }
        }
        let mut plan = PlanSpec::default();
        if r.chance(2, 3) {
            plan.chunk = Some(Chunk { max: *r.pick(&[1, 2, 5, 16, 31]), seed: r.next(), den: *r.pick(&[1, 2, 3]) });
        }
        if r.chance(1, 2) {
            plan.eintr = Some(EintrRate { den: *r.pick(&[2, 3, 8]), seed: r.next() });
        }
        Case { imgs, calls, threads, switches, seed: r.next(), pat: if r.chance(1, 6) { 1 + r.below(3) as u8 } else { 0 }, nosys: r.chance(1, 4), plan }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        if c.imgs.is_empty() || c.threads.len() > sched::MAX_T || c.calls.iter().chain(c.threads.iter().flatten()).any(|k| !k.strength.is_finite()) {
            return Ok(());
        }
        thread_local!(static RUNS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
        let k = RUNS.with(|r| {
            r.set(r.get() + 1);
            r.get()
        });
        let q = serde_json::to_vec(&(c, k % 40 == 1)).unwrap();
        let r = crate::fork::ask(&q).map_err(|d| dead(d, "the run"))?;
        let rsp: Rsp = serde_json::from_slice(&r).expect("reply");
        sched::add_steps(rsp.steps);
        sched::add_edges(&rsp.edges);
        cx.syscalls += rsp.syscalls;
        for (k, n) in &rsp.fired {
            cx.faults(k, *n);
        }
        for (k, n) in &rsp.ops {
            cx.add(k, *n);
        }
        cx.faults("preemption", rsp.switches);
        if c.pat != 0 {
            cx.fault("degenerate_entropy");
        }
        cx.nontrivial |= !c.calls.is_empty();
        cx.fp.add(rsp.fp);
        cx.fp.add(Fnv::of(serde_json::to_string(&c.calls).unwrap().as_bytes()));
        for n in rsp.notes {
            cx.note(n);
        }
        match rsp.violation {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = a fresh process whose entropy source is a seeded (or constant) stream with short reads, signals and optionally no getrandom call; up to 8 noise calls and up to 3 preempted threads with 2 calls each; non-trivial when a call was made",
            real: "d10, d10-core, d10-ops, rand, rand_chacha, rand_distr, getrandom, std",
            stub: "the kernel's entropy (getrandom, /dev/urandom) and the thread scheduler",
            secs: (30, 780),
            budget: u64::MAX / 4,
            workers: 8,
            assumptions: vec!["colours within the range 0 to 1 (noise clamps others)", "proportions and independence are checked with margins of eight or more standard deviations on pictures of up to 51200 pixels", "entropy sources that fail for good are left out: the standard library and rand panic by design"],
        }
    }
}
