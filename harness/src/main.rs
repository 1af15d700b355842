//! tmon: runtime monitors for tchannel_rs. `tmon <PROPERTY> [--thorough] [--seed N] [--scenario G:I] [--budget SECONDS]`
mod core;
mod net;
mod p_conc;
mod p_data;
mod p_fault;
mod p_hours;
mod p_life;
mod p_san;
mod p_wire;
mod sut;
mod wire;

use crate::core::*;
use std::sync::Arc;
use std::time::Duration;

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

type Check = fn(Arc<Ctx>) -> i32;
/// (id, check, quick budget seconds, thorough budget seconds)
const CHECKS: &[(&str, Check, u64, u64)] = &[
    ("C01", p_data::c01, 30, 400),
    ("C02", p_data::c02, 30, 400),
    ("C03", p_data::c03, 25, 400),
    ("C04", p_data::c04, 20, 300),
    ("C05", p_conc::c05, 25, 300),
    ("C06", p_fault::c06, 25, 300),
    ("C07", p_fault::c07, 30, 300),
    ("C08", p_fault::c08, 50, 500),
    ("C09", p_fault::c09, 40, 400),
    ("C19", p_fault::c19, 30, 400),
    ("C10", p_wire::c10, 35, 400),
    ("C11", p_wire::c11, 30, 300),
    ("C12", p_wire::c12, 35, 500),
    ("C13", p_wire::c13, 35, 400),
    ("C14", p_wire::c14, 30, 300),
    ("C15", p_conc::c15, 25, 300),
    ("C16", p_conc::c16, 40, 500),
    ("C17", p_life::c17, 40, 300),
    ("C18", p_life::c18, 60, 600),
    ("C20", p_life::c20, 30, 300),
    ("C21", p_life::c21, 25, 300),
    ("C22", p_data::c22, 20, 300),
    ("C23", p_san::c23, 60, 800),
];

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first() else {
        for c in CHECKS {
            println!("{}", c.0);
        }
        return;
    };
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|k| args.get(k + 1)).cloned();
    let thorough = args.iter().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = opt("--scenario").and_then(|s| {
        let (g, i) = s.split_once(':')?;
        Some((g.parse().ok()?, i.parse().ok()?))
    });
    let Some(c) = CHECKS.iter().find(|c| c.0 == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let budget = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { c.3 } else { c.2 });
    if std::env::var_os("TMON_CHILD").is_none() {
        std::process::exit(supervise(c.0, seed, thorough));
    }
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    install_panic_hook();
    // many sockets per scenario, several scenarios at once
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0 {
            l.rlim_cur = l.rlim_max.min(65536);
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
    }
    let ctx = Ctx::new(c.0, if thorough { Tier::Thorough } else { Tier::Quick }, seed, Duration::from_secs(budget), only);
    let code = (c.1)(ctx);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

/// Runs the check in a process of its own: code under test that takes its whole process down
/// (abort, stack overflow, memory fault, failed allocation) is a violation, too.
fn supervise(id: &str, seed: u64, thorough: bool) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let st = match std::process::Command::new(exe).args(std::env::args().skip(1)).env("TMON_CHILD", "1").status() {
        Ok(st) => st,
        Err(e) => {
            eprintln!("cannot start the check: {e}");
            return 2;
        }
    };
    if let Some(code) = st.code() {
        return code;
    }
    let sig = st.signal().unwrap_or(0);
    if ![libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig) {
        eprintln!("the check was ended by signal {sig}");
        return 3;
    }
    let what = format!("the process that runs the library was ended by signal {sig} (abort, stack overflow or memory fault)");
    let _ = std::fs::create_dir_all(format!("{}/out/replays", root()));
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let path = format!("{}/out/replays/{id}-{seed}-crash.json", root());
    let how = format!("bash /verif/check.sh {id} --seed {seed}{}", if thorough { " --thorough" } else { "" });
    let _ = std::fs::write(&path, serde_json::json!({"property": id, "seed": seed, "what": what, "how_to_replay": how}).to_string());
    let ev = serde_json::json!({"property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "crash of the observed process", "samples": [what.clone()]},
        "assumptions": [], "wall_s": 0.0, "violations": 1});
    let _ = std::fs::write(format!("{}/evidence/{id}.json", root()), ev.to_string());
    println!("  what: {what}");
    println!("VIOLATION property={id} replay={path}");
    1
}
