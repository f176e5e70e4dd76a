// a build may leave checks out
#![cfg_attr(not(feature = "default"), allow(dead_code, unused_imports))]

mod checks;
mod pgs;
mod vob;

use model::{dict, ensure, fw, guard, mutate, out, supervise, take_stdout, write_replay, VERIF};
use crate::fw::{Ctx, Mode, Tier};
use std::sync::Mutex;
use std::time::Instant;

#[global_allocator]
static ALLOC: guard::Alloc = guard::Alloc;

fn usage() -> ! {
    out("usage: vh check ID [--guided | --replay FILE] | vh list");
    std::process::exit(2);
}

fn known_findings(id: &str) -> Vec<String> {
    // lines "finding: property=<id> key=<key> <what fails>"
    let text = std::fs::read_to_string(format!("{VERIF}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    let prefix = format!("finding: property={id} key=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .map(|l| l.split_whitespace().next().unwrap_or("").to_string())
        .collect()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("run") {
        take_stdout();
    }
    fw::install_panic_hook();
    guard::install_logger();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("list") => {
            for c in checks::all() {
                out(c.id);
            }
            return;
        }
        Some("check") if args.len() > 1 => std::process::exit(supervise::check(&args[1..])),
        Some("run") => {
            supervise::enter();
            if std::env::var_os("VH_ALONE").is_some() {
                guard::alone();
            }
        }
        _ => usage(),
    }
    let Some(id) = args.get(1) else { usage() };
    let Some(check) = checks::all().into_iter().find(|c| c.id == id) else {
        out(&format!("no check named {id}"));
        std::process::exit(2);
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let mode = match (args.get(2).map(String::as_str), args.get(3)) {
        (Some("--replay"), Some(f)) => {
            let text = std::fs::read_to_string(f).unwrap_or_else(|e| {
                out(&format!("cannot read {f}: {e}"));
                std::process::exit(2)
            });
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_else(|e| {
                out(&format!("{f} is not a replay file: {e}"));
                std::process::exit(2)
            });
            Mode::Replay {
                sub: v["search"].as_str().unwrap_or("").to_string(),
                case: v["case"].clone(),
            }
        }
        (Some("--hunt"), Some(h)) => {
            let p: Vec<&str> = h.splitn(4, ',').collect();
            let num = |i: usize| p.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
            Mode::Hunt(supervise::Hunt {
                sub: num(0),
                worker: num(1) as usize,
                index: num(2),
                file: p.get(3).unwrap_or(&"").to_string(),
            })
        }
        (Some("--guided"), None) => {
            if fw::instrumented() {
                Mode::Guided
            } else {
                out("this build is not instrumented");
                std::process::exit(2);
            }
        }
        (None, _) => Mode::Search,
        _ => usage(),
    };

    // Wall clock: never a verdict, only a guard against a run without an answer.
    let limit = match tier {
        Tier::Quick => 840,
        Tier::Thorough => 6 * 3600,
    };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        out("time limit reached: inconclusive");
        fw::remove_scratch();
        std::process::exit(3);
    });

    // part of the seed scheme, so fixed whatever the machine
    let workers = 8;
    let ctx = Ctx {
        id: check.id,
        tier,
        seed,
        workers,
        mode,
        t0: Instant::now(),
        reports: Mutex::default(),
        violation: Mutex::default(),
        known: Mutex::default(),
        done_early: false.into(),
        replay_ran: false.into(),
        known_patterns: known_findings(check.id),
    };
    (check.run)(&ctx);
    fw::remove_scratch();

    if matches!(ctx.mode, Mode::Replay { .. }) {
        if !ctx.replay_ran.load(std::sync::atomic::Ordering::Relaxed) {
            out("the replay file names no search of this check");
            std::process::exit(2);
        }
        let file = args.get(3).cloned().unwrap_or_default();
        if let Some(v) = ctx.violation.lock().unwrap().as_ref() {
            out(&format!("{}/{}: {}", check.id, v.sub, v.message));
            out(&format!("VIOLATION property={} replay={file}", check.id));
            std::process::exit(1);
        }
        return;
    }

    let ev = ctx.evidence(check.rule, check.assumptions);
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    let path = format!("{VERIF}/evidence/{}.json", check.id);
    let guided = matches!(ctx.mode, Mode::Guided);
    let own = ev.clone();
    let ev = if guided {
        let before = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str(&t).ok());
        ctx.add_guided(before.unwrap_or_default(), &ev)
    } else {
        ev
    };
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        out(&format!("cannot write {path}: {e}"));
        std::process::exit(2);
    }
    for k in ctx.known.lock().unwrap().iter() {
        out(&format!("KNOWN-FINDING: property={} {k}", check.id));
    }
    if let Some(v) = ctx.violation.lock().unwrap().as_ref() {
        let rp = write_replay(check.id, seed, v);
        out(&format!("{}/{}: {}", check.id, v.sub, v.message));
        out(&format!("minimal case: {}", v.case_debug.chars().take(1500).collect::<String>()));
        out(&format!("VIOLATION property={} replay={rp}", check.id));
        std::process::exit(1);
    }
    out(&format!(
        "{}: held on {} cases{} ({} distinct non-trivial), {:.1} s",
        check.id,
        own["coverage"]["evaluations"],
        if guided { " of the guided search" } else { "" },
        own["coverage"]["distinct_nontrivial"],
        ctx.t0.elapsed().as_secs_f64()
    ));
}
