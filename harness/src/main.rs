mod engine;
mod instrs;
mod lexer;
mod lsp;
mod mutate;
mod props;
mod wat;

use engine::*;
use serde_json::{json, Value};
use std::{fs, path::PathBuf, process::exit};

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn threads() -> usize {
    std::env::var("WATCHECK_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).min(8))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    match args.first().map(String::as_str) {
        // supervise: run the worker in a child, so that an abort (stack
        // overflow, …) of the code under test is attributed to its case
        Some("check") => supervise(&args[1..], &props),
        Some("worker") => worker(&args[1..], &props),
        Some("replay") => replay(&args[1], &props),
        Some("one") => {
            // one PROP SEED INDEX: run one case in this process
            let prop = find(&props, &args[1]);
            install_panic_hook();
            let seed: u64 = args[2].parse().unwrap();
            let index: u64 = args[3].parse().unwrap();
            let r = in_thread(move || {
                let props = props::all();
                let prop = props.iter().find(|p| p.id == prop).unwrap();
                let mut g = G::from_seed(case_seed(seed, prop.id, index));
                let (case, out) = run_case(prop, &mut g);
                println!("{}", case.rendering);
                (out, case.known)
            });
            println!("{r:?}");
            exit(if matches!(r, (Err(_), None)) { 1 } else { 0 });
        }
        Some("list") => {
            for p in &props {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
        }
        _ => {
            eprintln!("usage: watcheck check ID quick|thorough | replay FILE | one ID SEED INDEX | list");
            exit(2);
        }
    }
}

fn find(props: &[Prop], id: &str) -> &'static str {
    match props.iter().find(|p| p.id == id) {
        Some(p) => p.id,
        None => {
            eprintln!("no such property: {id}");
            exit(2)
        }
    }
}

fn in_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap()
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn cases(prop: &Prop, tier: &str) -> u64 {
    std::env::var("WATCHECK_CASES")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if tier == "thorough" { prop.thorough } else { prop.quick })
}

fn supervise(args: &[String], props: &[Prop]) {
    use std::os::unix::process::ExitStatusExt;
    let id = find(props, &args[0]);
    let tier = args.get(1).map(String::as_str).unwrap_or("quick");
    let dir = verif().join("target/run").join(format!("{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let progress = dir.join("progress");
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(&exe)
        .args(["worker", id, tier, progress.to_str().unwrap()])
        .spawn()
        .unwrap();
    // a case that runs for over a minute hangs
    let mut last: Vec<(u64, std::time::Instant)> = vec![];
    let mut hung = None;
    let status = loop {
        if let Some(status) = child.try_wait().unwrap() {
            break status;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        let now = std::time::Instant::now();
        let bytes = fs::read(&progress).unwrap_or_default();
        for (k, c) in bytes.chunks_exact(8).enumerate() {
            let i = u64::from_le_bytes(c.try_into().unwrap());
            if last.len() <= k {
                last.push((i, now));
            } else if last[k].0 != i || i == u64::MAX {
                last[k] = (i, now);
            } else if last[k].1.elapsed().as_secs() > 90 {
                hung = Some(i);
            }
        }
        if hung.is_some() {
            let _ = child.kill();
            break child.wait().unwrap();
        }
    };
    if let Some(i) = hung {
        let _ = fs::remove_dir_all(&dir);
        crashed(id, tier, props, i, "this case does not terminate within 90 s");
    }
    if let Some(code) = status.code() {
        let _ = fs::remove_dir_all(&dir);
        exit(code);
    }
    // the worker died from a signal: find the case that kills the process
    eprintln!("worker ended by signal {:?}", status.signal());
    let bytes = fs::read(&progress).unwrap_or_default();
    let _ = fs::remove_dir_all(&dir);
    let mut inflight: Vec<u64> = bytes
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|i| *i != u64::MAX)
        .collect();
    inflight.sort();
    for i in inflight {
        let out = std::process::Command::new(&exe)
            .args(["one", id, &seed().to_string(), &i.to_string()])
            .output()
            .unwrap();
        if matches!(out.status.signal(), Some(6) | Some(11)) {
            let sig = out.status.signal().unwrap();
            crashed(id, tier, props, i, &format!("the process was ended by signal {sig} (abort or stack overflow) while running this case"));
        }
    }
    eprintln!("no in-flight case reproduces the crash (out of memory?)");
    exit(2);
}

fn crashed(id: &str, tier: &str, props: &[Prop], i: u64, message: &str) -> ! {
    let path = write_replay(id, &json!({
        "property": id, "seed": seed(), "index": i, "message": message,
    }));
    let prop = props.iter().find(|p| p.id == id).unwrap();
    write_evidence(id, &json!({
        "property": id, "tier": tier, "seed": seed(), "level": "exploration",
        "coverage": {"evaluations": i, "distinct_nontrivial": 0, "rule": prop.rule, "samples": [format!("case {i}")]},
        "wall_s": 0.0, "violations": 1}));
    println!("VIOLATION property={id} replay={}", path.display());
    exit(1);
}

fn write_replay(id: &str, v: &Value) -> PathBuf {
    let dir = verif().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{id}.json"));
    fs::write(&path, serde_json::to_string_pretty(v).unwrap()).unwrap();
    path
}

fn write_evidence(id: &str, v: &Value) {
    let dir = verif().join("evidence");
    fs::create_dir_all(&dir).unwrap();
    fs::write(
        dir.join(format!("{id}.json")),
        serde_json::to_string_pretty(v).unwrap(),
    )
    .unwrap();
}

fn worker(args: &[String], props: &[Prop]) {
    install_panic_hook();
    let prop = props.iter().find(|p| p.id == args[0]).unwrap();
    let tier = args[1].as_str();
    let progress = fs::File::options()
        .create(true)
        .truncate(true)
        .write(true)
        .open(&args[2])
        .unwrap();
    let seed = seed();
    let known = known_findings(prop);
    let mut report = run_prop(prop, seed, cases(prop, tier), threads(), Some(&progress));
    let mut code = 0;
    if let Some(f) = report.failure.take() {
        let index = f.index;
        let id = prop.id;
        let f = in_thread(move || {
            let props = props::all();
            let prop = props.iter().find(|p| p.id == id).unwrap();
            shrink(prop, f, 4000, 60.0)
        });
        let path = write_replay(
            prop.id,
            &json!({
                "property": prop.id, "seed": seed, "index": index,
                "message": f.message, "choices": f.choices, "case": f.rendering,
            }),
        );
        println!("case {index} (seed {seed}), shrunk to {} choices:", f.choices.len());
        println!("{}", f.rendering);
        println!("--> {}", f.message);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        report.failure = Some(f);
        code = 1;
    }
    let ev = evidence(prop, tier, seed, &report, json!({"known_findings": known}));
    write_evidence(prop.id, &ev);
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s",
        prop.id, report.evaluations, report.distinct_nontrivial, report.wall_s
    );
    if std::env::var("WATCHECK_VERBOSE").is_ok() {
        println!("{:#?}", report.labels);
        if std::env::var("WATCHECK_VERBOSE").as_deref() == Ok("2") {
            for s in &report.samples {
                println!("---\n{s}");
            }
        }
    }
    exit(code);
}

/// Listed findings of this property: each is a concrete input that is run and
/// must still fail to be announced.
fn known_findings(prop: &Prop) -> Vec<Value> {
    let path = verif().join("known_findings.jsonl");
    let Ok(text) = fs::read_to_string(path) else {
        return vec![];
    };
    let mut out = vec![];
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let v: Value = serde_json::from_str(line).expect("known_findings.jsonl");
        if v["property"] == prop.id && v["status"] == "known" {
            let (id, v2) = (prop.id.to_string(), v.clone());
            let still = in_thread(move || props::known_still_fails(&id, &v2));
            if still {
                println!("KNOWN-FINDING: property={} {}", prop.id, v["what"].as_str().unwrap());
                out.push(json!({"finding": v["id"], "what": v["what"]}));
            }
        }
    }
    out
}

fn replay(path: &str, props: &[Prop]) {
    install_panic_hook();
    let v: Value = serde_json::from_str(&fs::read_to_string(path).unwrap()).unwrap();
    let id = find(props, v["property"].as_str().unwrap());
    let r = in_thread(move || {
        let props = props::all();
        let prop = props.iter().find(|p| p.id == id).unwrap();
        let mut g = match v["choices"].as_array() {
            Some(c) => G::from_choices(c.iter().map(|c| c.as_u64().unwrap() as u32).collect()),
            None => G::from_seed(case_seed(
                v["seed"].as_u64().unwrap(),
                prop.id,
                v["index"].as_u64().unwrap(),
            )),
        };
        let (case, out) = run_case(prop, &mut g);
        println!("{}", case.rendering);
        (out, case.known)
    });
    match r {
        (Err(m), None) => {
            println!("--> {m}");
            println!("VIOLATION property={id} replay={path}");
            exit(1);
        }
        (Err(m), Some(k)) => println!("known finding {k}: {m}"),
        _ => println!("holds"),
    }
}
