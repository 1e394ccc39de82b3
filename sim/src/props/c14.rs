//! The progress log tells exactly which commands were started.
use super::queue::*;
use super::*;
use serde::{Deserialize, Serialize};
use simcore::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    plan: PlanSpec,
    cli: bool,
    /// faults of the standard streams as well as of the disk
    std_faults: bool,
}

/// The line each command announces itself with (None: silent).
fn lines(p: &Prog) -> Vec<Option<String>> {
    let total = p.steps.iter().filter(|s| !matches!(s, Step::Silent)).count();
    let mut k = 0;
    let mut silent = false;
    p.steps
        .iter()
        .map(|s| {
            if matches!(s, Step::Silent) {
                silent = true;
                return None;
            }
            k += 1;
            if silent {
                None
            } else {
                Some(format!("{}/{}: {:?}\n", k, total, s.cmd()))
            }
        })
        .collect()
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C14";
    type Case = Case;
    fn gen(r: &mut Rng, _t: Tier) -> Case {
        let silent = r.chance(1, 2);
        let prog = Prog::gen(r, silent);
        let cli = r.chance(1, 3);
        Case { prog, plan: gen_plan(r, cli), cli, std_faults: cli && r.chance(1, 3) }
    }
    fn run(c: &Case, cx: &mut Ctx) -> Res {
        let p = &c.prog;
        if p.steps.is_empty() {
            return Ok(());
        }
        let disk = p.disk()?;
        let m = model(p, &disk)?;
        let plan = resolve(p, &disk, &c.plan, true)?;
        let s = if c.cli {
            cx.count("program runs (d10)");
            spawn_cli(&p.args(), p, &disk, plan, c.std_faults, cx)?
        } else {
            cx.count("queue runs (in process)");
            run_in_process(p, &disk, plan, false)?
        };
        record(cx, &s);
        if m.fails.is_some() {
            cx.fault("failing_command");
        }
        let key = s.how;
        let n = p.steps.len();
        let ls = lines(p);
        let want: Vec<(usize, &String)> = ls.iter().enumerate().filter_map(|(i, l)| l.as_ref().map(|l| (i, l))).collect();
        let out = String::from_utf8_lossy(&s.out).to_string();
        let std_hard = s.hard.iter().any(|h| h.op == Op::StdWrite && h.path == "stdout");
        // success means done, whatever happened to the output
        if s.ok {
            let js = judge(p, &m, &s)?;
            debug_assert!(js == vec![n]);
        }
        if std_hard {
            cx.count("standard output failed");
            return Ok(());
        }
        // the output is the lines of a prefix of the commands
        let mut shown = 0;
        let mut rest = out.as_str();
        while shown < want.len() && rest.starts_with(want[shown].1.as_str()) {
            rest = &rest[want[shown].1.len()..];
            shown += 1;
        }
        let torn = s.crashed && shown < want.len() && want[shown].1.starts_with(rest);
        if !rest.is_empty() && !torn {
            let exp = want.get(shown).map(|l| l.1.as_str()).unwrap_or("nothing more");
            return fail("wrong-line", key, format!("the log shows {:?} where {:?} belongs", rest.lines().next().unwrap_or(""), exp.trim_end()));
        }
        // no disk operation before its command is announced
        let mut len = 0u64;
        let mut sofar = 0u64;
        let mut k = 0usize; // lines complete
        for e in &s.log {
            if e.op == Op::StdWrite {
                if e.what == "stdout" && e.ret > 0 {
                    len += e.ret as u64;
                    while k < want.len() && sofar + want[k].1.len() as u64 <= len {
                        sofar += want[k].1.len() as u64;
                        k += 1;
                    }
                }
                continue;
            }
            if !matches!(e.op, Op::Open | Op::Read | Op::Write | Op::Trunc | Op::Rename | Op::Unlink) {
                continue;
            }
            // commands that may be running now: the last announced one and unannounced ones after it
            let first = if k == 0 { 0 } else { want[k - 1].0 };
            let next = want.get(k).map(|w| w.0).unwrap_or(n);
            let ok = (first..next).any(|i| p.steps[i].file().map(|f| e.what == path(f) || e.op == Op::Rename || e.op == Op::Unlink) == Some(true))
                || e.what.starts_with("stdout");
            let temp = !disk.iter().any(|d| d.0 == e.what) && !(0..FILES.len() as u8).any(|f| path(f) == e.what);
            if !ok && !temp {
                return fail(
                    "work-before-announcement",
                    key,
                    format!("{} of {} happened while the log had announced {} of {} commands", e.op.name(), e.what, k, n),
                );
            }
        }
        if s.crashed {
            // what was announced and what was done fit together
            let first = if shown == 0 { 0 } else { want[shown - 1].0 };
            let next = want.get(shown).map(|w| w.0).unwrap_or(n);
            let end = m.reached(n);
            if !(first..=next).any(|j| j <= end && before(p, &m, &s, j, false).is_ok()) {
                return fail("announced-not-done", key, format!("after the crash {} lines were shown but the files do not belong to that moment", shown));
            }
            return Ok(());
        }
        let js = judge(p, &m, &s)?;
        let expect = |j: usize| want.iter().filter(|w| w.0 <= j).count();
        if !js.iter().any(|&j| expect(j) == shown) {
            return fail(
                "wrong-count",
                key,
                format!(
                    "{} lines were shown; {}",
                    shown,
                    if s.ok { format!("all {} commands were done", n) } else { format!("the program stopped at command {:?}", js.iter().map(|j| j + 1).collect::<Vec<_>>()) }
                ),
            );
        }
        cx.fp.add(shown as u64);
        Ok(())
    }
    fn meta() -> Meta {
        Meta {
            rule: "one run = a program of up to 14 commands, silent commands anywhere, x a seeded disk and standard-output behaviour (short/interrupted/failing transfers, a full disk, a crash), in process or as the real d10 program; the order of output lines and disk operations is checked call by call; non-trivial when a fault fired or a command fails by itself",
            real: "d10-cli's main, d10-commands (queue and log), d10, all codecs, std's streams",
            stub: "the kernel's file system, standard streams and entropy (simulated behind the C library's calls)",
            secs: (40, 780),
            budget: 8_000_000_000,
            workers: 8,
            assumptions: vec!["commands that do no I/O have no effect a user could see before they are announced"],
        }
    }
}
