//! C23: runs other checks' workloads in a sanitizer build of library and harness and reads the sanitizer's reports.
use crate::core::*;
use serde_json::json;
use std::sync::Arc;

/// Workloads and their budgets in seconds (quick).
const WORK: [(&str, u64); 9] = [("C05", 4), ("C15", 4), ("C02", 4), ("C19", 5), ("C09", 4), ("C20", 5), ("C08", 5), ("C12", 5), ("C13", 5)];
/// Of these under AddressSanitizer (quick).
const ADDRESS: [&str; 5] = ["C02", "C19", "C08", "C12", "C13"];

pub fn c23(ctx: Arc<Ctx>) -> i32 {
    let exe = std::env::var("TMON_SAN_EXE").unwrap_or_default();
    let kind = std::env::var("TMON_SAN").unwrap_or_default();
    if exe.is_empty() || exe.split(',').any(|e| !std::path::Path::new(e).is_file()) {
        println!("C23 needs a sanitizer build, run it with check.sh");
        return 2;
    }
    let builds: Vec<(String, String)> = exe.split(',').zip(kind.split(',')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let factor = if ctx.quick() { 1 } else { 8 };
    let base = format!("{}/out/san", root());
    for (exe, kind) in &builds {
        for (w, secs) in WORK {
            if kind == "address" && ctx.quick() && !ADDRESS.contains(&w) {
                continue;
            }
            let dir = format!("{base}/{kind}-{w}");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).expect("scratch");
            let supp = format!("{}/harness/tsan.supp", root());
            let opts = match kind.as_str() {
                "thread" => format!("exitcode=66 halt_on_error=0 log_path={dir}/report suppressions={supp}"),
                _ => format!("exitcode=66 halt_on_error=1 detect_leaks=0 log_path={dir}/report"),
            };
            let out = std::process::Command::new(exe)
                .args([w, "--seed", &ctx.seed.to_string(), "--budget", &(secs * factor).to_string()])
                .env("TMON_ROOT", &dir)
                .env("VERIF_TIER", "quick")
                .env("TMON_CHILD", "1")
                // long but sequential
                .env("TMON_SKIP", "held_calls,crowd")
                .env(if kind == "thread" { "TSAN_OPTIONS" } else { "ASAN_OPTIONS" }, &opts)
                .output();
            let out = match out {
                Ok(o) => o,
                Err(e) => {
                    ctx.fail(Fail::Inconclusive(format!("cannot run the {kind} build: {e}")), json!({ "workload": w }));
                    continue;
                }
            };
            let mut reports = vec![];
            for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
                if f.file_name().to_string_lossy().starts_with("report") {
                    let text = std::fs::read_to_string(f.path()).unwrap_or_default();
                    // heads only; the files themselves stay under out/san
                    for part in text.split("==================").filter(|p| p.contains("WARNING: ") || p.contains("ERROR: ")) {
                        reports.push((f.path().display().to_string(), part.chars().take(1500).collect::<String>()));
                    }
                }
            }
            let code = out.status.code();
            for (file, head) in reports.iter().take(3) {
                ctx.fail(
                    Fail::Violation(format!("{kind} sanitizer report"), json!({"workload": w, "file": file, "report": head, "reports": reports.len()})),
                    json!({ "scenario": "sanitizer", "workload": w }),
                );
            }
            if reports.is_empty() && code.is_none() {
                ctx.fail(Fail::Violation(format!("process died of a signal in the {kind} sanitizer build"), json!({"status": out.status.to_string(), "workload": w})), json!({}));
            }
            let ev: serde_json::Value = std::fs::read_to_string(format!("{dir}/evidence/{w}.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
            let invalid = ev["coverage"]["invalid_texts_seen"].as_u64().unwrap_or(0);
            if invalid > 0 {
                ctx.fail(Fail::Violation("a String that is not valid UTF-8 was handed to a handler or caller (undefined behaviour)".into(), json!({"workload": w, "times": invalid})), json!({ "scenario": "sanitizer", "workload": w }));
            }
            let n = ev["coverage"]["evaluations"].as_u64().unwrap_or(0);
            let d = ev["coverage"]["distinct_nontrivial"].as_u64().unwrap_or(0);
            ctx.add(&format!("{kind}_{w}_evaluations"), n);
            ctx.add("sanitizer_reports", reports.len() as u64);
            for k in 0..n {
                ctx.eval(&format!("{kind} {w} {k}"), k < d);
            }
            ctx.sample(json!({"build": kind, "workload": w, "exit": code, "evaluations": n, "distinct_nontrivial": d, "monitors": ev["coverage"]["monitor_counters"]}));
            if n == 0 && reports.is_empty() && code.is_some() {
                ctx.fail(Fail::Inconclusive(format!("workload {w} observed nothing in the {kind} build (exit {code:?})")), json!({ "workload": w }));
            }
        }
    }
    ctx.finish(
        "The workloads of C05, C15, C02, C19, C09, C20, C08, C12 and C13 (concurrent, cancelled, faulty and hostile use on multi-threaded runtimes) run in a build of library, dependencies and standard library instrumented by ThreadSanitizer, and in one of library and dependencies instrumented by AddressSanitizer (quick: C02, C19, C08, C12, C13). Any report, death by a signal, or string handed out that is not valid UTF-8 is a violation. Evaluations are those of the workloads; distinct and non-trivial as counted by the workload's own rule.",
        &["reports inside the reference counting of the bytes crate (fences, which ThreadSanitizer does not model) are suppressed", "races and invalid accesses are seen only where the workloads go"],
        300,
    )
}
