#[macro_use]
mod prop;
mod archive;
#[cfg(feature = "briefs")]
mod briefs;
mod gen;
#[cfg(feature = "index")]
mod index;
#[cfg(feature = "kv")]
mod kv;
mod meter;
mod pep440;
#[cfg(feature = "pep508")]
mod pep508;
mod props;
#[cfg(feature = "server")]
mod server;
#[cfg(feature = "universe")]
mod universe;
mod tags;
mod watchdog;

use prop::*;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::Command;

fn child(args: &[&str], cpu_limit: u64, tape_log: Option<&Path>) -> std::process::Output {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args);
    c.env_remove("HARNESS_PROGRESS");
    if let Some(p) = tape_log {
        c.env("HARNESS_TAPE_LOG", p);
    }
    unsafe {
        c.pre_exec(move || {
            let r = libc::rlimit { rlim_cur: cpu_limit, rlim_max: cpu_limit + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        });
    }
    c.output().expect("spawn self")
}

fn describe(o: &std::process::Output) -> Option<String> {
    match o.status.signal() {
        Some(s) if s == libc::SIGXCPU || s == libc::SIGKILL => Some(format!("does not terminate (signal {s} at the CPU-time limit)")),
        Some(s) => Some(format!("kills the process (signal {s}): {}", String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" / "))),
        None => None,
    }
}

/// Runs the checks in a child process, so that a stack overflow, an abort or an endless
/// loop in the code under test is a result and not the end of the check.
fn supervise(p: &Property) -> i32 {
    let tmp = tempfile::tempdir().unwrap();
    let progress = tmp.path().join("progress");
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["work", p.id]).env("HARNESS_PROGRESS", &progress);
    let status = c.status().expect("spawn self");
    match status.code() {
        Some(0) => return 0,
        Some(1) => return 1,
        Some(97) => {}
        Some(x) => return x.max(2),
        None => {}
    }
    eprintln!("worker ended with {status}; looking for the case responsible");
    for (sub, case) in read_progress(&progress) {
        let log = tmp.path().join("tape");
        let o = child(&["single", p.id, &sub.to_string(), &case.to_string()], 100, Some(&log));
        let Some(how) = describe(&o) else { continue };
        if how.contains("does not terminate") && !prop::pure(p.id) {
            eprintln!("{}: sub-check {} case {} {}", p.id, sub, case, how);
            return 3;
        }
        let tape: Vec<u64> = std::fs::read(&log).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        return crash_violation(p, sub, tape, &how, &|t| {
            let f = tmp.path().join("t.json");
            std::fs::write(&f, serde_json::to_string(t).unwrap()).unwrap();
            let note = tmp.path().join("note");
            let _ = std::fs::remove_file(&note);
            std::env::set_var("HARNESS_NOTE_LOG", &note);
            let o = child(&["tape", p.id, p.subs[sub].name, f.to_str().unwrap()], 30, None);
            std::env::remove_var("HARNESS_NOTE_LOG");
            describe(&o).map(|_| std::fs::read_to_string(&note).unwrap_or_default())
        });
    }
    eprintln!("{}: the worker ended with {status}, and no single case reproduces it", p.id);
    3
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(find(&args[2])),
        Some("work") => {
            mute_stdout();
            watchdog::start();
            run_property(find(&args[2]))
        }
        Some("worker") => {
            mute_stdout();
            worker(find(&args[2]), &args[3])
        }
        Some("single") => {
            mute_stdout();
            single_case(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap())
        }
        Some("tape") => {
            mute_stdout();
            let tape: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(&args[4]).unwrap()).unwrap();
            match replay_tape(find(&args[2]), &args[3], tape, is_thorough()).unwrap().0 {
                Ok(()) => 0,
                Err(_) => 1,
            }
        }
        Some("replay") => {
            if std::env::var_os("HARNESS_IN_CHILD").is_none() {
                std::env::set_var("HARNESS_IN_CHILD", "1");
                let o = child(&["replay", &args[2]], 100, None);
                print!("{}", String::from_utf8_lossy(&o.stdout));
                eprint!("{}", String::from_utf8_lossy(&o.stderr));
                match describe(&o) {
                    Some(how) => {
                        println!("{how}");
                        1
                    }
                    None => o.status.code().unwrap_or(2),
                }
            } else {
                mute_stdout();
                replay_file(&props, Path::new(&args[2]))
            }
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("helper") => props::helper(&args[2..]),
        _ => {
            eprintln!("usage: harness run|replay|list ...");
            2
        }
    };
    std::process::exit(rc);
}
