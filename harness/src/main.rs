mod big;
mod chain;
mod dd;
mod dec;
mod flt;
mod fw;
mod math;
mod pool;
mod svm;
mod tri;

use fw::{Property, Tier};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::process::{Child, Command};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn properties() -> Vec<Property> {
    vec![
        Property { id: "C01", run: dec::c01, bounds: dec::c01_bounds, assumptions: &[] },
        Property { id: "C02", run: dec::c02, bounds: dec::c02_bounds, assumptions: &[] },
        Property { id: "C03", run: dec::c03, bounds: dec::c03_bounds, assumptions: &[] },
        Property { id: "C04", run: dec::c04, bounds: dec::c04_bounds, assumptions: &[] },
        Property { id: "C05", run: dec::c05, bounds: dec::c05_bounds, assumptions: &[] },
        Property { id: "C06", run: dec::c06, bounds: dec::c06_bounds, assumptions: &[] },
        Property { id: "C07", run: math::c07, bounds: math::c07_bounds, assumptions: &[] },
        Property { id: "C08", run: math::c08, bounds: math::c08_bounds, assumptions: &[] },
        Property { id: "C09", run: math::c09, bounds: math::c09_bounds, assumptions: &[] },
        Property { id: "C10", run: math::c10, bounds: math::c10_bounds, assumptions: &[] },
        Property { id: "C11", run: pool::c11, bounds: pool::bounds_56, assumptions: &[] },
        Property { id: "C12", run: pool::c12, bounds: pool::bounds_56, assumptions: &[] },
        Property { id: "C13", run: pool::c13, bounds: pool::bounds_55, assumptions: &[] },
        Property { id: "C14", run: pool::c14, bounds: pool::bounds_56, assumptions: &[] },
        Property { id: "C15", run: pool::c15, bounds: pool::bounds_56, assumptions: &[] },
        Property { id: "C16", run: pool::c16, bounds: pool::bounds_45, assumptions: &[] },
        Property { id: "C17", run: pool::c17, bounds: pool::bounds_17, assumptions: &[] },
        Property { id: "C18", run: pool::c18, bounds: pool::bounds_18, assumptions: &[] },
        Property { id: "C19", run: pool::c19, bounds: pool::bounds_19, assumptions: &[] },
        Property { id: "C20", run: pool::c20, bounds: pool::bounds_20, assumptions: &[] },
        Property { id: "C21", run: tri::c21, bounds: tri::bounds_21, assumptions: &[] },
        Property { id: "C22", run: chain::c22, bounds: chain::bounds_22, assumptions: &[] },
        Property { id: "C23", run: chain::c23, bounds: chain::bounds_22, assumptions: &[] },
        Property { id: "C24", run: chain::c24, bounds: chain::bounds_24, assumptions: &[] },
        Property { id: "C25", run: chain::c25, bounds: chain::bounds_25, assumptions: &[] },
        Property { id: "C26", run: chain::c26, bounds: chain::bounds_26, assumptions: &[] },
        // for tools/mutate only
        Property { id: "ZX", run: pool::zz::<pool::Fx>, bounds: pool::bounds_56, assumptions: &[] },
        Property { id: "ZF", run: pool::zz::<pool::Ff>, bounds: pool::bounds_56, assumptions: &[] },
    ]
}

fn usage() -> ! {
    eprintln!("usage: hmmcl-mc check ID (quick|thorough) | replay FILE | list");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = properties();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        Some("worker") => {
            // worker ID tier shard n only|- out progress|-
            let p = props.iter().find(|p| p.id == args[2]).expect("property");
            let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let only = args[6].parse::<u64>().ok();
            let prog = if args[8] == "-" { None } else { Some(args[8].as_str()) };
            let (a4, a5) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            // deep recursion and big frames: run on a large stack
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || fw::worker(p, tier, a4, a5, only, &args[7], prog))
                    .unwrap()
                    .join()
                    .unwrap_or_else(|_| std::process::exit(3));
            });
        }
        Some("check") if args.len() == 4 => {
            let p = props.iter().find(|p| p.id == args[2]).unwrap_or_else(|| usage());
            let tier = match args[3].as_str() {
                "quick" => Tier::Quick,
                "thorough" => Tier::Thorough,
                _ => usage(),
            };
            std::process::exit(check(p, tier, None));
        }
        Some("replay") if args.len() == 3 => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let j: serde_json::Value = serde_json::from_str(&t).expect("replay file is json");
            let p = props.iter().find(|p| p.id == j["property"].as_str().unwrap()).expect("property");
            let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            std::process::exit(check(p, tier, j["case"].as_u64()));
        }
        _ => usage(),
    }
}

const STALL: Duration = Duration::from_secs(120);

fn check(p: &Property, tier: Tier, only: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let n: u64 = if only.is_some() {
        1
    } else {
        std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8)
        })
    };
    let dir = std::env::temp_dir().join(format!("hmmcl-mc-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let prog_path = dir.join("progress");
    let prog = fw::map_progress(prog_path.to_str().unwrap(), n);
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, Child, Instant, (u64, u64), bool)> = vec![];
    for s in 0..n {
        let out = dir.join(format!("out{}", s));
        let c = Command::new(&exe)
            .args(["worker", p.id, tname, &s.to_string(), &n.to_string()])
            .arg(only.map(|o| o.to_string()).unwrap_or("-".into()))
            .arg(&out)
            .arg(&prog_path)
            .stdin(std::process::Stdio::null())
            .spawn()
            .expect("spawn worker");
        kids.push((s, c, Instant::now(), (0, 0), false));
    }
    let mut extra: Vec<(String, String, u64)> = vec![];
    let mut found: Option<Instant> = None;
    // how long exploration goes on after the first violation
    let grace = Duration::from_secs(std::env::var("HMMCL_GRACE").ok().and_then(|s| s.parse().ok()).unwrap_or(120));
    let mut engine_error: Option<String> = None;
    loop {
        let mut running = false;
        for k in kids.iter_mut() {
            if k.4 {
                continue;
            }
            let (cur, tick) = unsafe {
                let q = prog.add((k.0 * fw::WORDS) as usize);
                if found.is_none() && (*q.add(2)).load(Ordering::Relaxed) != 0 {
                    found = Some(Instant::now());
                }
                ((*q).load(Ordering::Relaxed), (*q.add(1)).load(Ordering::Relaxed))
            };
            if found.map_or(false, |t| t.elapsed() > grace) {
                unsafe { (*prog.add((n * fw::WORDS) as usize)).store(1, Ordering::Relaxed) };
            }
            let late = found.map_or(false, |t| t.elapsed() > grace + Duration::from_secs(60));
            match k.1.try_wait().expect("wait") {
                Some(st) => {
                    k.4 = true;
                    if !st.success() {
                        use std::os::unix::process::ExitStatusExt;
                        match st.signal() {
                            Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL) if cur > 0 => {
                                extra.push(("crash".into(), format!("the code under test crashed the process ({}) in case {}", st, cur - 1), cur - 1))
                            }
                            _ => engine_error = Some(format!("worker {} ended with {}", k.0, st)),
                        }
                    }
                }
                None if late => {
                    // its violations so far, if any, are in its notes
                    let _ = k.1.kill();
                    let _ = k.1.wait();
                    k.4 = true;
                }
                None => {
                    running = true;
                    if (cur, tick) != k.3 {
                        k.3 = (cur, tick);
                        k.2 = Instant::now();
                    } else if k.2.elapsed() > STALL && cur > 0 {
                        let _ = k.1.kill();
                        let _ = k.1.wait();
                        k.4 = true;
                        extra.push(("no-termination".into(), format!("case {} did not finish within {:?} (normally milliseconds)", cur - 1, STALL), cur - 1));
                    }
                }
            }
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // merge
    let (mut tr, mut traces, mut cases, mut nviol, mut total) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut states: HashSet<u64> = HashSet::new();
    let mut capped = false;
    let mut viols: Vec<(String, String, u64)> = vec![];
    for (s, ..) in &kids {
        let out = dir.join(format!("out{}", s));
        let Ok(t) = std::fs::read_to_string(&out) else {
            for l in std::fs::read_to_string(format!("{}.notes", out.display())).unwrap_or_default().lines() {
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                    viols.push((v["key"].as_str().unwrap_or("").into(), v["desc"].as_str().unwrap_or("").into(), v["case"].as_u64().unwrap_or(0)));
                    nviol += 1;
                }
            }
            continue;
        };
        let j: serde_json::Value = serde_json::from_str(&t).unwrap();
        tr += j["transitions"].as_u64().unwrap();
        traces += j["traces"].as_u64().unwrap();
        cases += j["cases"].as_u64().unwrap();
        total = total.max(j["total_cases"].as_u64().unwrap());
        nviol += j["nviol"].as_u64().unwrap();
        capped |= j["capped"].as_bool().unwrap();
        for (k, v) in j["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
        }
        for x in j["samples"].as_array().unwrap() {
            if samples.len() < 6 && !samples.contains(x) {
                samples.push(x.clone());
            }
        }
        for v in j["viols"].as_array().unwrap() {
            viols.push((v["key"].as_str().unwrap().into(), v["desc"].as_str().unwrap().into(), v["case"].as_u64().unwrap()));
        }
        if let Ok(b) = std::fs::read(format!("{}.states", out.display())) {
            for c in b.chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let complete = kids.iter().all(|(s, ..)| dir.join(format!("out{}", s)).exists());
    let _ = std::fs::remove_dir_all(&dir);
    nviol += extra.len() as u64;
    viols.extend(extra);
    viols.sort_by_key(|v| v.2);
    // known findings
    let known = fw::known_findings(p.id);
    let (kn, new): (Vec<_>, Vec<_>) = viols.iter().partition(|v| known.iter().any(|k| k.0 == v.0));
    for k in &known {
        if kn.iter().any(|v| v.0 == k.0) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.1);
        }
    }
    let _ = &kn;
    let wall = t0.elapsed().as_secs_f64();
    if only.is_none() {
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = serde_json::json!({
            "property": p.id, "tier": tname, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states.len(), "transitions": tr, "traces_validated_against_impl": if traces > 0 { traces } else { cases },
                "samples": samples, "exhaustive": complete && engine_error.is_none() && new.is_empty(),
                "bounds": (p.bounds)(tier), "cases": cases, "counters": counters,
                "states_are_lower_bound": capped,
            },
            "assumptions": p.assumptions, "wall_s": wall, "violations": new.len(),
        });
        let ed = format!("{}/evidence", root);
        let _ = std::fs::create_dir_all(&ed);
        std::fs::write(format!("{}/{}.json", ed, p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    println!(
        "{} {}: {} cases of {}, {} transitions, {} distinct states, {} violations ({} unlisted shown), {:.1}s",
        p.id, tname, cases, total, tr, states.len(), nviol, new.len(), wall
    );
    if let Some(e) = &engine_error {
        eprintln!("engine error: {}", e);
    }
    if !new.is_empty() {
        let rd = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&rd);
        for (key, desc, case) in new.iter().take(12) {
            println!("  [{}] case {}: {}", key, case, desc);
        }
        let (key, desc, case) = new[0];
        let path = format!("{}/{}-{}.json", rd, p.id, tname);
        if only.is_none() {
            let mut f = std::fs::File::create(&path).expect("replay file");
            let j = serde_json::json!({"property": p.id, "tier": tname, "case": case, "key": key, "what": desc,
                "how": format!("bash /verif/run.sh replay {}", path)});
            f.write_all(serde_json::to_string_pretty(&j).unwrap().as_bytes()).unwrap();
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if engine_error.is_some() || !complete {
        return 2;
    }
    0
}
