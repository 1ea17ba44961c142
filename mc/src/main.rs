//! Model checker for pgdatetime: bounded-exhaustive exploration of the real crate against an
//! independent reference model.
//!
//!   mc check <PROPERTY> [--tier quick|thorough] [--verif DIR]
//!   mc replay <FILE>
mod api;
mod dom;
mod fw;
mod interp;
mod p_arith;
mod p_cal;
mod p_fields;
mod p_misc;
mod p_raw;
mod p_ref;
mod p_robust;
mod p_text;
mod refm;
mod refread;
mod tokser;

use fw::*;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::OnceLock;
use std::time::Instant;

type CheckFn = fn(&Ctx);

fn registry() -> Vec<(&'static str, CheckFn)> {
    vec![
        ("C01", p_cal::c01 as CheckFn),
        ("C02", p_cal::c02),
        ("C03", p_cal::c03),
        ("C04", p_cal::c04),
        ("C05", p_text::c05),
        ("C06", p_robust::c06),
        ("C07", p_robust::c07),
        ("C08", p_text::c08),
        ("C09", p_text::c09),
        ("C10", p_text::c10),
        ("C11", p_arith::c11),
        ("C12", p_arith::c12),
        ("C13", p_cal::c13),
        ("C14", p_arith::c14),
        ("C15", p_arith::c15),
        ("C16", p_arith::c16),
        ("C17", p_arith::c17),
        ("C18", p_arith::c18),
        ("C19", p_fields::c19),
        ("C20", p_fields::c20),
        ("C21", p_fields::c21),
        ("C22", p_misc::c22),
        ("C23", p_cal::c23),
        ("C24", p_text::c24),
        ("C25", p_misc::c25),
        ("C26", p_arith::c26),
        ("C27", p_misc::c27),
        ("C28", p_raw::c28),
    ]
}

static START: OnceLock<Instant> = OnceLock::new();
static VERIF: OnceLock<String> = OnceLock::new();

fn load_known(dir: &str, prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{dir}/known_findings.jsonl")) {
        for l in s.lines().filter(|l| !l.trim().is_empty()) {
            let v: Value = serde_json::from_str(l).expect("known_findings.jsonl");
            if v["status"] == "known" && v["property"] == prop {
                for k in v["keys"].as_array().expect("keys") {
                    out.push((k.as_str().unwrap().to_string(), v["what"].as_str().unwrap().to_string()));
                }
            }
        }
    }
    out
}

fn bin_sources_ok() {
    refm::self_check();
}

/// Writes the evidence and replay files, prints the verdict and exits.
pub fn finish_and_exit(ctx: &Ctx) -> ! {
    let dir = VERIF.get().unwrap().clone();
    let wall = START.get().unwrap().elapsed().as_secs_f64();
    let fails = ctx.fails.lock().unwrap().clone();
    let nf = ctx.nfails.load(Relaxed);
    let known = ctx.known_hits.lock().unwrap().clone();
    let classes = ctx.classes.lock().unwrap().clone();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut assumptions = ctx.assumptions.lock().unwrap().clone();
    assumptions.push(
        "the crate is built with optimisation, overflow checks and debug assertions on; a panic counts as a violation"
            .into(),
    );
    assumptions.push("values outside the enumerated alphabets and bounds are not covered".into());
    let ev = json!({
        "property": ctx.prop,
        "tier": if ctx.tier == fw::Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": ctx.states.load(Relaxed),
            "transitions": ctx.calls.load(Relaxed),
            "traces_validated_against_impl": ctx.compared.load(Relaxed),
            "exhaustive": !ctx.stop.load(Relaxed),
            "samples": ctx.samples.lock().unwrap().clone(),
            "bounds": ctx.bounds.lock().unwrap().clone(),
            "observed_classes": classes,
            "counting": "states: distinct inputs or model states enumerated; transitions: calls executed on the real crate; traces_validated_against_impl: outcomes compared with the reference model or oracle",
            "known_findings_hit": known.values().sum::<u64>(),
        },
        "assumptions": assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": nf,
    });
    let edir = format!("{dir}/evidence");
    io(std::fs::create_dir_all(&edir));
    io(std::fs::write(format!("{edir}/{}.json", ctx.prop), serde_json::to_string_pretty(&ev).unwrap()));
    for (what, n) in &known {
        println!("KNOWN-FINDING: property={} {} ({} cases)", ctx.prop, what, n);
    }
    println!(
        "{} states={} transitions={} compared={} violations={} wall={:.1}s",
        ctx.prop,
        ctx.states.load(Relaxed),
        ctx.calls.load(Relaxed),
        ctx.compared.load(Relaxed),
        nf,
        wall
    );
    if nf == 0 {
        std::io::stdout().flush().ok();
        std::process::exit(0);
    }
    // simplest first
    let mut fs = fails;
    fs.sort_by_key(|f| (f.steps.len(), f.key().len(), f.key()));
    let rdir = format!("{dir}/replays");
    io(std::fs::create_dir_all(&rdir));
    let path = format!("{rdir}/{}.json", ctx.prop);
    let r = json!({
        "property": ctx.prop,
        "how": "cd /verif && ./check.sh replay <this file>",
        "violations_total": nf,
        "violations": fs.iter().map(|f| json!({
            "steps": f.steps, "expected": f.expected, "got": f.got, "key": f.key(),
            "reexecuted": f.steps.iter().map(|s| interp::run(s)).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    });
    io(std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()));
    let show: usize = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
    for f in fs.iter().take(show) {
        println!("  {}  expected {}  got {}", f.key(), f.expected, f.got);
    }
    println!("VIOLATION property={} replay={}", ctx.prop, path);
    std::io::stdout().flush().ok();
    std::process::exit(1);
}

fn replay(file: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay")).expect("json");
    let mut bad = 0;
    for f in v["violations"].as_array().unwrap() {
        println!("expected {}", f["expected"]);
        for s in f["steps"].as_array().unwrap() {
            let s: Vec<String> = s.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            println!("  {} => {}", s.join(" "), interp::run(&s));
        }
        println!("  recorded: {}", f["got"]);
        bad += 1;
    }
    println!("{bad} recorded violations replayed");
}

/// A file that can not be written is neither a pass nor a violation.
fn io<T>(r: std::io::Result<T>) -> T {
    r.unwrap_or_else(|e| {
        eprintln!("ERROR: {e}");
        std::process::exit(3)
    })
}

/// Runs the check in a child process, so that a crash of the process itself (a memory fault, an
/// abort, a stack overflow) is also seen, and is reported as a violation.
fn supervise(id: &str) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let st = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(std::env::args().skip(1))
        .env("MC_CHILD", "1")
        .status()
        .expect("child process");
    match (st.code(), st.signal()) {
        (Some(101), _) => {
            // a panic outside a worker: the oracle could not evaluate a result
            let ctx = Ctx::new(id, Tier::Quick, vec![]);
            ctx.bound("the exploration ended with a panic while evaluating a result");
            ctx.fail(
                vec![vec!["process".into(), id.into()]],
                "results the oracle can evaluate",
                "the comparison itself failed".to_string(),
            );
            finish_and_exit(&ctx)
        }
        (Some(c), _) => std::process::exit(c),
        (_, Some(sig)) if [4, 6, 7, 8, 11].contains(&sig) => {
            let ctx = Ctx::new(id, Tier::Quick, vec![]);
            ctx.bound("the exploration ended with the death of the process");
            ctx.fail(
                vec![vec!["process".into(), id.into()]],
                "every call returns",
                format!("the process running the code under test died of signal {sig}"),
            );
            finish_and_exit(&ctx)
        }
        (_, sig) => {
            eprintln!("ERROR: the check was killed (signal {sig:?})");
            std::process::exit(3)
        }
    }
}

fn main() {
    START.set(Instant::now()).ok();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    VERIF.set(opt("--verif").unwrap_or_else(|| "/verif".into())).ok();
    install_hook();
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(1).expect("property id").clone();
            let tier = match opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            if std::env::var_os("MC_CHILD").is_none() {
                supervise(&id);
            }
            bin_sources_ok();
            let reg = registry();
            let f = reg.iter().find(|r| r.0 == id).unwrap_or_else(|| panic!("unknown property {id}")).1;
            let ctx = Ctx::new(&id, tier, load_known(VERIF.get().unwrap(), &id));
            f(&ctx);
            finish_and_exit(&ctx);
        }
        Some("replay") => replay(args.get(1).expect("file")),
        Some("one") => {
            print!("{}", interp::run(&args[1..]));
            std::io::stdout().flush().ok();
        }
        Some("list") => {
            for r in registry() {
                println!("{}", r.0);
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> [--tier quick|thorough] | mc replay <file> | mc list");
            std::process::exit(2);
        }
    }
}
