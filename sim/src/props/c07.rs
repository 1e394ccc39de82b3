//! A command queue runs in order, stops at the first failure and reports it.
use super::queue::*;
use super::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bad {
    /// which kind of malformed argument
    kind: u8,
    /// before which step (fraction of 256)
    at: u8,
    val: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    plan: PlanSpec,
    cli: bool,
    std_faults: bool,
    bad: Option<Bad>,
}

const NUMBERS: [&str; 15] = [
    "gamma", "level", "brightness", "contrast", "brightness-contrast", "saturation", "stretch-saturation", "lightness",
    "hue-rotate", "rotate", "random-noise", "salt-n-pepper-noise", "rgb-noise", "grayscale", "grayscale",
];

/// A command line that must be refused.
fn malformed(p: &Prog, b: &Bad) -> Vec<String> {
    if b.kind % 8 == 7 {
        return vec![];
    }
    let at = p.steps.len() * b.at as usize / 256;
    let mut v = vec![];
    for (k, s) in p.steps.iter().enumerate() {
        if k == at && b.kind % 8 != 1 {
            v.extend(wrong(b));
        }
        v.extend(s.args());
    }
    if b.kind % 8 == 1 || p.steps.is_empty() {
        v.extend(wrong(b));
    }
    v
}
fn wrong(b: &Bad) -> Vec<String> {
    let name = NUMBERS[b.val as usize % NUMBERS.len()];
    let arity = match name {
        "level" => 3,
        "brightness-contrast" => 2,
        _ => 1,
    };
    let opt = format!("-{}", name);
    match b.kind % 8 {
        0 => vec![["-unknown", "-opn", "--open", "-", "-Open", "-invert2", "--", "-save ", "-h"][b.val as usize % 9].to_string()],
        1 => {
            let all = ["-open", "-save", opt.as_str()];
            vec![all[b.val as usize / 16 % 3].to_string()]
        }
        2 => vec![opt, ["x", "1.0.0", "", "1,5x", "0x10", "--", "1 "][b.val as usize / 16 % 7].to_string()],
        3 => vec![opt, vec!["0.5"; arity + 1].join(",")],
        4 if arity > 1 => vec![opt, vec!["0.5"; arity - 1].join(",")],
        4 => vec!["-level".into(), "0.1,0.2".into()],
        5 => vec!["-grayscale".into(), ["", "grey", "Average", "rec709"][b.val as usize % 4].into()],
        _ => {
            // one bad component among good ones
            let mut c = vec!["0.5"; 3];
            c[b.val as usize % 3] = "zz";
            vec!["-level".into(), c.join(",")]
        }
    }
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C07";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let silent = r.chance(1, 4);
        let prog = Prog::gen(r, silent);
        let cli = r.chance(1, 3);
        let bad = if r.chance(1, 12) {
            Some(Bad { kind: r.below(8) as u8, at: r.below(256) as u8, val: r.below(256) as u8 })
        } else {
            None
        };
        let crash = cli;
        Case { prog, plan: gen_plan(r, crash), cli, std_faults: cli && r.chance(1, 4), bad }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let p = &c.prog;
        if p.steps.is_empty() && c.bad.is_none() {
            return Ok(());
        }
        let disk = p.disk()?;
        if let Some(b) = &c.bad {
            let args = malformed(p, b);
            let s = spawn_cli(&args, p, &disk, c.plan.base(), false, cx)?;
            cx.count("malformed command lines");
            record(cx, &s);
            let d: Disk = disk.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
            if s.code.is_none() {
                return fail("cli-killed", "malformed", format!("d10 {:?} was killed", args));
            }
            if s.ok {
                return fail("bad-arguments-accepted", "malformed", format!("d10 {:?} reported success", args));
            }
            if s.err.is_empty() {
                return fail("error-text", "malformed", format!("d10 {:?} printed no error", args));
            }
            if d != s.disk || s.log.iter().any(|e| e.op == simcore::world::Op::Open) {
                return fail("bad-arguments-run", "malformed", format!("d10 {:?} was refused only after files were touched", args));
            }
            return Ok(());
        }
        let m = model(p, &disk)?;
        let plan = resolve(p, &disk, &c.plan, c.std_faults)?;
        let s = if c.cli {
            cx.count("program runs (d10)");
            spawn_cli(&p.args(), p, &disk, plan, c.std_faults, cx)?
        } else {
            cx.count("queue runs (in process)");
            run_in_process(p, &disk, plan, false)?
        };
        record(cx, &s);
        if m.fails.is_some() {
            cx.fault("failing_command");
        }
        let js = judge(p, &m, &s)?;
        cx.fp.add(js[0] as u64);
        if s.ok {
            cx.count("succeeded");
        } else {
            cx.count("failed or crashed");
        }
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = a program of up to 12 commands over 12 files (pictures, a foreign file, unsupported names, a missing directory, read-only files) x a seeded disk and output-stream behaviour (short/interrupted transfers, hard errors, a disk that fills up, a crash), executed in this process through Queue or by the real d10 program under the preloaded simulator; or a malformed command line; non-trivial when a fault fired or a command fails by itself",
            real: "d10-cli's main, d10-commands, d10, all codecs, std's streams",
            stub: "the kernel's file system, standard streams and entropy (simulated behind the C library's calls)",
            secs: (40, 780),
            budget: 8_000_000_000,
            workers: 8,
            assumptions: vec![
                "pictures after noise commands are compared exactly in process and by dimensions in the d10 program (two processes may draw entropy differently)",
            ],
        }
    }
}
