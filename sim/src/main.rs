#![allow(dead_code)]
mod alloc;
mod foreign;
mod fork;
mod img;
mod known;
mod props;
mod pyhost;
mod runner;
mod sched;

use runner::*;

/// Properties whose runs need a process in which nothing has run yet.
fn zygote(id: &str) {
    if let Some(f) = props::serve(id) {
        fork::start(f);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    runner::hook();
    let entries = props::all();
    let root = std::env::var("D10SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let id = a.get(2).cloned().unwrap_or_default();
    let tier = match get("--tier", &std::env::var("VERIF_TIER").unwrap_or_default()).as_str() {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let num = |k: &str, d: u64| get(k, &d.to_string()).parse::<u64>().unwrap_or(d);
    let seed = num("--seed", std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
    let tmp = format!("/tmp/d10sim.{}", std::process::id());
    if cmd == "list" {
        for e in &entries {
            println!("{}", e.id);
        }
        return;
    }
    if cmd == "replay" {
        std::fs::create_dir_all(&tmp).unwrap();
        std::mem::forget(sched::own_pool());
        let id_of = |v: serde_json::Value| v["property"].as_str().map(|s| s.to_string());
        if let Some(p) = std::fs::read(&id).ok().and_then(|b| serde_json::from_slice(&b).ok()).and_then(id_of) {
            zygote(&p);
        }
        let r = replay(&entries, &id, &tmp);
        let _ = std::fs::remove_dir_all(&tmp);
        std::process::exit(r);
    }
    let e = match entries.iter().find(|e| e.id == id) {
        Some(e) => e,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(3);
        }
    };
    std::mem::forget(sched::own_pool());
    if matches!(cmd, "worker" | "trybatch" | "one" | "fps") {
        zygote(&id);
    }
    let meta = (e.meta)();
    let secs = std::env::var("D10SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick {
        meta.secs.0
    } else {
        meta.secs.1
    });
    let mut args = Args {
        seed,
        tier,
        secs: num("--secs", secs),
        w: num("--w", 0),
        of: num("--of", meta.workers as u64),
        dir: get("--dir", &tmp),
        start: num("--start", 0),
        limit: num("--limit", u64::MAX),
        gen: num("--gen", 0),
    };
    let code = match cmd {
        "check" => {
            let own = args.dir == tmp;
            std::fs::create_dir_all(&args.dir).unwrap();
            let r = check(e, &args, &root);
            if own {
                let _ = std::fs::remove_dir_all(&args.dir);
            }
            r
        }
        "worker" => {
            props::warm_up();
            worker(e, &args, &known(&root))
        }
        "trybatch" => {
            props::warm_up();
            trybatch(e, &args.dir)
        }
        "gen" => {
            let k = num("--k", 0);
            println!("{}", serde_json::to_string_pretty(&(e.gen)(run_seed(seed, e.id, k), tier)).unwrap());
            0
        }
        "one" => {
            props::warm_up();
            std::fs::create_dir_all(&args.dir).unwrap();
            args.w = 0;
            let k = num("--k", 0);
            let mut cx = Ctx { verbose: true, scratch: args.dir.clone(), ..Default::default() };
            let r = (e.gen_run)(run_seed(seed, e.id, k), tier, &mut cx);
            for n in &cx.notes {
                println!("  {}", n);
            }
            println!("fp {:016x} {:?}", cx.fp.0, r);
            let _ = std::fs::remove_dir_all(&args.dir);
            0
        }
        "fps" => {
            // fingerprints of runs 0..limit, for the determinism self-test
            props::warm_up();
            std::fs::create_dir_all(&args.dir).unwrap();
            let mut cx = Ctx { scratch: args.dir.clone(), ..Default::default() };
            for k in 0..num("--limit", 50) {
                let r = (e.gen_run)(run_seed(seed, e.id, k), tier, &mut cx);
                println!("{} {:016x} {}", k, cx.fp.0, r.is_ok());
            }
            let _ = std::fs::remove_dir_all(&args.dir);
            0
        }
        _ => 3,
    };
    std::process::exit(code);
}
