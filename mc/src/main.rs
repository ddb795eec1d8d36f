mod bound;
mod cal;
mod clock;
mod dict;
mod exec;
mod form;
mod fw;
mod gcs;
mod json;
mod keys;
mod net;
mod preempt;
mod props;
mod urlspace;

use fw::Cx;
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;

fn run(cx: &mut Cx) {
    match cx.prop.clone().as_str() {
        "C01" => props::urls::c01(cx),
        "C02" => props::urls::c02(cx),
        "C03" => props::urls::c03(cx),
        "C04" => props::times::c04(cx),
        "C05" => props::forms::c05(cx),
        "C06" => props::forms::c06(cx),
        "C07" => props::forms::c07(cx),
        "C08" => props::times::c08(cx),
        "C09" => props::robust::c09(cx),
        "C10" => props::keys::c10(cx),
        "C11" => props::keys::c11(cx),
        "C12" => props::keys::c12(cx),
        "C13" => props::bound::c13(cx),
        "C14" => props::bound::c14(cx),
        "C15" => props::bound::c15(cx),
        "C16" => props::bound::c16(cx),
        "C17" => props::bound::c17(cx),
        "C18" => props::urls::c18(cx),
        p => panic!("no property {p}"),
    }
}

fn root() -> std::path::PathBuf {
    std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// A case that takes minutes is a hang; that is C09's subject, and no answer for the others.
fn watchdog(prop: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(5));
        let now = fw::real_ms();
        for b in &fw::BUSY {
            let t = b.load(SeqCst);
            if t != 0 && now.saturating_sub(t) > 180_000 {
                let sweep = fw::CURRENT.lock().unwrap().clone();
                let p = root().join("replays");
                let _ = std::fs::create_dir_all(&p);
                let p = p.join(format!("{prop}-hang.json"));
                let _ = std::fs::write(&p, json!({"property": prop, "sweep": sweep, "message": "a call did not return for 180 s"}).to_string());
                if prop == "C09" {
                    println!("a call in sweep {sweep} did not return for 180 s");
                    println!("VIOLATION property={prop} replay={}", p.display());
                    std::process::exit(1);
                }
                eprintln!("a call in sweep {sweep} did not return for 180 s");
                std::process::exit(3);
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::env::remove_var("GCE_METADATA_HOST");
    for v in ["http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY", "no_proxy", "NO_PROXY"] {
        std::env::remove_var(v);
    }
    exec::quiet_panics();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    match args.get(1).map(|s| s.as_str()) {
        Some("c12-worker") => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            props::keys::c12_worker(n(2) as usize, n(3), n(4), thorough);
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("JSON");
            let mut cx = Cx::new(v["property"].as_str().unwrap(), v["tier"] == "thorough");
            cx.only = Some((v["sweep"].as_str().unwrap().into(), v["index"].as_u64().unwrap_or(0), v.get("choices").cloned()));
            run(&mut cx);
            if cx.violations.is_empty() {
                println!("not reproduced alone (see \"reproduced\" in the file)");
            }
            std::process::exit(if cx.violations.is_empty() { 0 } else { 1 });
        }
        Some(p) => {
            let mut cx = Cx::new(p, thorough);
            watchdog(cx.prop.clone());
            run(&mut cx);
            finish(cx);
        }
        None => {
            eprintln!("usage: mc PROPERTY | mc replay FILE");
            std::process::exit(2);
        }
    }
}

fn finish(cx: Cx) {
    let _ = std::fs::remove_dir_all(props::keys::scratch());
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", cx.prop)), serde_json::to_string_pretty(&cx.evidence()).unwrap() + "\n").expect("evidence");
    for s in &cx.sweeps {
        println!("{}: {} cases, {} executions, {} distinct results, {} s {}", s["sweep"].as_str().unwrap_or(""), s["cases"], s["executions"], s["distinct_results"], s["wall_s"], s["outcomes"]);
    }
    println!("{}: {} executions, {} steps, {} distinct states, {:.1} s", cx.prop, cx.traces, cx.steps, cx.states.len(), cx.t0.elapsed().as_secs_f64());
    if let Some(v) = cx.violations.first() {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}-{}.json", cx.prop, v.sweep, v.index));
        let r = json!({
            "property": cx.prop, "tier": if cx.thorough { "thorough" } else { "quick" }, "sweep": v.sweep, "index": v.index,
            "choices": v.choices, "message": v.message, "case": v.case, "reproduced": v.reproduced,
            "replay": "cargo run --release --offline -- replay <this file>   (in /verif/mc)",
        });
        std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
        let m: String = v.message.chars().take(1000).collect();
        println!("violated in {}[{}]: {m}", v.sweep, v.index);
        println!("case: {}", v.case.chars().take(1000).collect::<String>());
        println!("VIOLATION property={} replay={}", cx.prop, p.display());
        std::process::exit(1);
    }
    let n = fw::DIVERGED.load(SeqCst);
    if n > 0 {
        eprintln!("no answer: in {n} executions the same choices led to another state, so that not all of them were explored");
        std::process::exit(4);
    }
}
