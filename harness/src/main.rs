mod core;
mod props;

use crate::core::*;
use serde_json::Value;
use std::process::{exit, Command};

fn child_main(id: &str, replay: Option<(String, Value)>) -> i32 {
    install_panic_hook();
    start_watchdog(id.to_string(), replay.is_some());
    let mut ctx = Ctx::new(id, replay);
    let Some(f) = props::table().into_iter().find(|(n, _)| *n == id).map(|(_, f)| f) else {
        eprintln!("unknown property {id}");
        return 3;
    };
    // a roomy, fixed stack: depth limits belong to the code under test, not to the environment
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
            if r.is_err() {
                eprintln!("harness error: {:?}", take_panics());
                return 3;
            }
            ctx.finish()
        })
        .unwrap();
    let rc = h.join().unwrap_or(3);
    let _ = std::fs::remove_dir_all(scratch_base());
    rc
}

fn load_replay(path: &str) -> (String, String, Value) {
    let v: Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("cannot read replay file"))
            .expect("replay file is not JSON");
    (
        v["property"].as_str().unwrap().to_string(),
        v["sub"].as_str().unwrap().to_string(),
        v["case"].clone(),
    )
}

fn spawn_child(args: &[String], journal: Option<&str>) -> std::process::ExitStatus {
    let home = format!("{}/home", scratch_base().display());
    std::fs::create_dir_all(&home).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).env("VERIF_CHILD", "1").env("HOME", &home);
    // only plain HTTP is spoken here: reading the system's certificates takes most of a request's time
    c.env("SSL_CERT_FILE", "/dev/null").env("SSL_CERT_DIR", "/dev/null");
    if let Some(j) = journal {
        c.env("VERIF_JOURNAL", j);
    }
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("cannot start the worker");
    let pid = ch.id();
    let s = ch.wait().unwrap();
    let root = scratch_base();
    let _ = std::fs::remove_dir_all(
        root.parent().unwrap().join(format!("nargun-verif-{pid}")),
    );
    s
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        for (n, _) in props::table() {
            println!("{n}");
        }
        return;
    }
    if args[0] == "--program" {
        exit(props::alone(&args[1]));
    }
    let replay = args[0] == "replay";
    if std::env::var_os("VERIF_CHILD").is_some() {
        let rc = if replay {
            let (id, sub, case) = load_replay(&args[1]);
            child_main(&id, Some((sub, case)))
        } else {
            child_main(&args[0], None)
        };
        exit(rc);
    }
    let s = spawn_child(&args, None);
    let rc = match s.code() {
        Some(c) => c,
        None if replay => {
            println!("replay: the process died ({s})");
            1
        }
        None => {
            // died by a signal (stack overflow, abort, out of memory): find the case
            use std::os::unix::process::ExitStatusExt;
            let id = &args[0];
            eprintln!("{id}: worker died ({s}); running again with a journal");
            let j = format!("{}/journal.json", scratch_base().display());
            let s2 = spawn_child(&args, Some(&j));
            match (s2.signal(), std::fs::read_to_string(&j)) {
                (Some(sig), Ok(text)) => {
                    let v: Value = serde_json::from_str(&text).unwrap();
                    let why = format!("the process died with signal {sig}");
                    let path =
                        save_replay(id, v["sub"].as_str().unwrap_or("?"), &v["case"], &why);
                    write_evidence(
                        id,
                        &serde_json::json!({
                            "property": id, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()),
                            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
                            "level": "exploration",
                            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "case that killed the process", "samples": [path]},
                            "wall_s": 0.0, "violations": 1,
                        }),
                    );
                    println!("{id}: {why}");
                    println!("VIOLATION property={id} replay={path}");
                    1
                }
                (None, _) => s2.code().unwrap_or(3),
                _ => 3,
            }
        }
    };
    let _ = std::fs::remove_dir_all(scratch_base());
    exit(rc);
}
