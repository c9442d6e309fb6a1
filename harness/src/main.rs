//! nomcheck: bounded exhaustive model checking of the nominals crate.

#![allow(dead_code)]

pub mod checks;
pub mod dom;
pub mod engine;
pub mod model;
pub mod systems;

use engine::*;
use std::process::{Command, ExitCode};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

const VARIANT: &str = match (cfg!(feature = "alloc"), cfg!(debug_assertions)) {
    (true, true) => "alloc",
    (false, true) => "no-alloc",
    (true, false) => "alloc-plain",
    (false, false) => "no-alloc-plain",
};

fn root() -> String {
    std::env::var("NOM_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn tier(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn make_run(id: &str, t: Tier) -> Option<Run> {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let started = Instant::now();
    let plan = checks::plan(id, t)?;
    Some(Run { prop: id.into(), tier: t, seed, root: root(), started, plan, variant: VARIANT })
}

fn open_slots(path: &str) {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    f.set_len(SLOT_BYTES as u64).expect("slot file");
    map_slots(&f);
}

fn hang_secs(t: Tier) -> u64 {
    if t == Tier::Quick { 60 } else { 240 }
}

/// The exploring process.
fn child(id: &str, t: Tier, slots: &str) -> ExitCode {
    open_slots(slots);
    let Some(run) = make_run(id, t) else {
        eprintln!("error: no plan for {id} in this build");
        return ExitCode::from(2);
    };
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 16);
    let (run, totals) = explore(run, threads, hang_secs(t));
    write_evidence(run, &totals, 0);
    println!(
        "{id} [{VARIANT}]: held on {} states, {} transitions, {} executions of the implementation, in {:.1} s",
        totals.states, totals.transitions, totals.calls, run.started.elapsed().as_secs_f64()
    );
    ExitCode::SUCCESS
}

/// Runs one case alone. Exit 0 fine, 3 violated; anything else is a crash.
fn case(id: &str, t: Tier, space: &str, n: u128, prev: Option<u128>, slots: &str) -> ExitCode {
    open_slots(slots);
    let Some(run) = make_run(id, t) else { return ExitCode::from(2) };
    let Some(si) = run.plan.spaces.iter().position(|s| s.name == space) else {
        eprintln!("error: no space {space} in {id}");
        return ExitCode::from(2);
    };
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            use_slot(0);
            let s = &run.plan.spaces[si];
            let mut cx = Cx { trace: true, ..Cx::default() };
            if let Some(p) = prev {
                let _ = run_one(s, si, p, &mut cx, 0);
                cx.prev = Some(p);
                std::mem::swap(&mut cx.label, &mut cx.prev_label);
            }
            let r = run_one(s, si, n, &mut cx, 0);
            (r, cx.note)
        })
        .unwrap()
        .join();
    match r {
        Ok((Ok(()), note)) => {
            println!("holds: {note}");
            ExitCode::SUCCESS
        }
        Ok((Err(e), _)) => {
            println!("violated: {e}");
            ExitCode::from(3)
        }
        Err(_) => ExitCode::from(2),
    }
}

/// Runs `cmd` with a limit; `None` if it had to be ended.
fn limited(cmd: &mut Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut c = cmd.spawn().expect("spawn");
    let start = Instant::now();
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Some(s);
        }
        if start.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn isolated(id: &str, tier_s: &str, space: &str, n: u128, prev: Option<u128>, slots: &str) -> Option<std::process::ExitStatus> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(["case", id, tier_s, space, &n.to_string(), &prev.map_or("-".into(), |p| p.to_string()), slots]);
    limited(&mut c, Duration::from_secs(120))
}

fn parent(id: &str, tier_s: &str) -> ExitCode {
    let dir = format!("{}/out/{id}", root());
    std::fs::create_dir_all(&dir).expect("out");
    let slots = format!("{dir}/slots");
    let _ = std::fs::remove_file(&slots);
    let _ = std::fs::remove_file(format!("{dir}/replay.json"));
    open_slots(&slots);
    let exe = std::env::current_exe().unwrap();
    let limit = if tier(tier_s) == Tier::Quick { 780 } else { 6 * 3600 };
    // What the first build left over for the second.
    let limit = std::env::var("NOM_LIMIT").ok().and_then(|l| l.parse().ok()).unwrap_or(limit);
    let status = limited(Command::new(exe).args(["child", id, tier_s, &slots]), Duration::from_secs(limit));
    let Some(status) = status else {
        eprintln!("error: {id} did not finish within {limit} s");
        return ExitCode::from(5);
    };
    if let Some(c @ (0..=2)) = status.code() {
        let _ = std::fs::remove_file(&slots);
        return ExitCode::from(c as u8);
    }
    // The exploring process died: find the case that kills it, on its own.
    eprintln!("{id}: the exploring process ended with {status}; re-running the cases it was in");
    let Some(run) = make_run(id, tier(tier_s)) else { return ExitCode::from(2) };
    let active: Vec<_> = (0..MAX_SLOTS).filter_map(|i| slot(i).current()).collect();
    let solo = format!("{dir}/slots.case");
    for (si, n, prev) in active {
        let Some(space) = run.plan.spaces.get(si) else { continue };
        let st = isolated(id, tier_s, &space.name, n, prev, &solo);
        let _ = std::fs::remove_file(&solo);
        let what = match st {
            None => "does not terminate".to_owned(),
            Some(s) if s.code() == Some(0) || s.code() == Some(2) => continue,
            Some(s) if s.code() == Some(3) => "violated when run alone; kills the process when run with others".to_owned(),
            Some(s) => format!("the process dies: {s}"),
        };
        report(&run, &Violation { space: si, n, prev, what }, None);
        let _ = std::fs::remove_file(&slots);
        return ExitCode::from(1);
    }
    eprintln!("error: the crash does not reproduce on a single case");
    ExitCode::from(2)
}

/// Very small reader for the flat replay file.
fn field(text: &str, key: &str) -> Option<String> {
    let at = text.find(&format!("\"{key}\":"))? + key.len() + 3;
    let rest = text[at..].trim_start();
    let rest = rest.strip_prefix('"')?;
    let mut out = String::new();
    let mut it = rest.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}

fn replay(path: &str) -> ExitCode {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("error: cannot read {path}");
        return ExitCode::from(2);
    };
    let get = |k| field(&text, k);
    let (Some(id), Some(space), Some(n)) = (get("property"), get("space"), get("case")) else {
        eprintln!("error: {path} is no replay file");
        return ExitCode::from(2);
    };
    let n = n.parse().expect("case");
    let prev = get("prev").and_then(|p| p.parse().ok());
    let slots = format!("{path}.slots");
    let mut end = ExitCode::SUCCESS;
    // The space may exist in one tier only.
    for t in ["quick", "thorough"] {
        let st = isolated(&id, t, &space, n, prev, &slots);
        let _ = std::fs::remove_file(&slots);
        match st {
            Some(s) if s.code() == Some(0) => {
                println!("{id}: holds on this case now (a history-dependent failure needs the whole check)");
                return ExitCode::SUCCESS;
            }
            Some(s) if s.code() == Some(2) => end = ExitCode::from(2),
            Some(s) => {
                println!("{id}: reproduced ({s})");
                println!("VIOLATION property={id} replay={path}");
                return ExitCode::from(1);
            }
            None => {
                println!("{id}: reproduced (does not terminate)");
                println!("VIOLATION property={id} replay={path}");
                return ExitCode::from(1);
            }
        }
    }
    end
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map_or("", |s| s.as_str());
    match s(1) {
        "check" => parent(s(2), s(3)),
        "child" => child(s(2), tier(s(3)), s(4)),
        "case" => case(s(2), tier(s(3)), s(4), s(5).parse().expect("case"), s(6).parse().ok(), s(7)),
        "replay" => replay(s(2)),
        #[cfg(all(feature = "alloc", feature = "c18"))]
        "first" => match checks::interfere::first_call(s(2).parse().expect("case")) {
            Ok(()) => ExitCode::SUCCESS,
            Err(e) => {
                println!("{e}");
                ExitCode::from(3)
            }
        },
        #[cfg(all(feature = "alloc", feature = "c18", target_arch = "x86_64", target_os = "linux"))]
        "foot" | "sched" | "long" | "walk" => {
            checks::interfere::access::main(&a[1..]);
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: nomcheck check <property> quick|thorough | replay <file>");
            ExitCode::from(2)
        }
    }
}
