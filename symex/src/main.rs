#![allow(non_snake_case)]
#[path = "../shared/circ.rs"]
mod circ;
mod dse;
mod eqn;
mod fs;
mod fw;
mod gad;
mod gprops;
mod hide;
mod meta;
mod poly;
mod prim;
mod props;
#[path = "../shared/blocks.rs"]
mod blocks;
#[path = "../shared/gadgets.rs"]
mod gadgets;
#[path = "../shared/trees.rs"]
mod trees;
#[path = "../shared/scen.rs"]
mod scen;
mod smt;
mod sound;
mod witness;
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("unit") => unit_main(&a[2], &a[3], a[4].parse().unwrap()),
        Some("list") => {
            for (i, u) in props::units(&a[2], &a[3]).iter().enumerate() {
                println!("{} {}", i, u.name);
            }
        }
        Some("scn") => {
            // one scenario by hand
            let p: Vec<i64> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
            let mut out = fw::Out::default();
            if a[2].starts_with("sound:") {
                sound::gadget(&mut out, &gadgets::inst(&a[2][6..], &p));
            } else if a[2].starts_with("witness:") {
                witness::gadget(&mut out, &gadgets::inst(&a[2][8..], &p));
            } else {
                gad::scenario(&mut out, &scen::scn(&a[2], &p));
            }
            println!("RESULT {}", serde_json::to_string_pretty(&out.json()).unwrap());
        }
        Some("check") => std::process::exit(check(&a[2], &a[3])),
        _ => {
            eprintln!("usage: symex check|list <property> <tier> | unit <property> <tier> <k>");
            std::process::exit(2);
        }
    }
}

fn unit_main(prop: &str, tier: &str, k: usize) {
    if std::env::var("SYMEX_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let us = props::units(prop, tier);
    let mut out = fw::Out::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (us[k].run)(&mut out)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
        out.unk(&format!("machinery failed: {}", m));
    }
    println!("RESULT {}", out.json());
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let us = props::units(prop, tier);
    let n = us.len();
    let names: Vec<String> = us.iter().map(|u| u.name.clone()).collect();
    let limit: u64 = std::env::var("SYMEX_UNIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 500 } else { 3000 });
    let results: Arc<Mutex<Vec<Option<Value>>>> = Arc::new(Mutex::new(vec![None; n]));
    let next = Arc::new(Mutex::new(0usize));
    let exe = std::env::current_exe().unwrap();
    let mut th = vec![];
    let stop = Arc::new(AtomicBool::new(false));
    let confirmed: Arc<Mutex<Vec<(String, String)>>> = Arc::new(Mutex::new(vec![]));
    let unrep: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let tmp = format!("{}/replays/run-{}", root, std::process::id());
    let _ = std::fs::create_dir_all(&tmp);
    for _ in 0..8 {
        let (results, next, exe, prop, tier) = (results.clone(), next.clone(), exe.clone(), prop.to_string(), tier.to_string());
        let (stop, confirmed, unrep, tmp, root, names) = (stop.clone(), confirmed.clone(), unrep.clone(), tmp.clone(), root.clone(), names.clone());
        th.push(std::thread::spawn(move || loop {
            let k = {
                let mut g = next.lock().unwrap();
                if *g >= n {
                    return;
                }
                *g += 1;
                *g - 1
            };
            let name = names[k].clone();
            if stop.load(Ordering::SeqCst) {
                return;
            }
            let u0 = Instant::now();
            let outp = format!("{}/u{}.out", tmp, k);
            let errp = format!("{}/u{}.err", tmp, k);
            let mut c = Command::new("timeout")
                .arg("-k").arg("3").arg(format!("{}", limit))
                .arg(&exe)
                .args(&["unit", &prop, &tier, &k.to_string()])
                .stdin(Stdio::null())
                .stdout(std::fs::File::create(&outp).unwrap())
                .stderr(std::fs::File::create(&errp).unwrap())
                .spawn().unwrap();
            let code = loop {
                if let Some(st) = c.try_wait().unwrap() {
                    break st.code();
                }
                if stop.load(Ordering::SeqCst) {
                    // the verdict is known: end the unit and its process group
                    let _ = Command::new("kill").args(&["-TERM", "--", &format!("-{}", c.id())]).stderr(Stdio::null()).status();
                    let _ = c.wait();
                    return;
                }
                std::thread::sleep(Duration::from_millis(10));
            };
            let so = std::fs::read_to_string(&outp).unwrap_or_default();
            let mut v = match so.lines().rev().find(|l| l.starts_with("RESULT ")) {
                Some(l) => serde_json::from_str::<Value>(&l[7..]).unwrap(),
                None => {
                    let se = String::from_utf8_lossy(&std::fs::read(&errp).unwrap_or_default()).into_owned();
                    let tail: String = se.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
                    json!({"obligations":0,"discharged":0,"paths":0,"witnessed":0,"unknown":[format!("unit did not finish within {} s or crashed ({:?}): {}", limit, code, tail)],"viols":[],"notes":[],
                    "queries":0,"unsat":0,"sat":0,"solver_unknown":0,"trivial":0,"time":0.0,"max_time":0.0,"terms":0})
                }
            };
            v["wall"] = json!((u0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0);
            // replay the counterexamples against the real code
            let vs = v["viols"].as_array().cloned().unwrap_or_default();
            if !vs.is_empty() {
                let mut conf = confirmed.lock().unwrap();
                let dir = format!("{}/replays", root);
                let _ = std::fs::create_dir_all(&dir);
                for (i, x) in vs.iter().enumerate() {
                    if !conf.is_empty() || i >= 3 {
                        break;
                    }
                    let path = format!("{}/{}-{}-{}.json", dir, prop, k, i);
                    let mut rj = x["replay"].clone();
                    rj["property"] = json!(prop);
                    rj["unit"] = json!(name);
                    rj["violated"] = x["claim"].clone();
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&rj).unwrap());
                    let claim = x["claim"].as_str().unwrap_or("").to_string();
                    let (ok, msg) = if rj["kind"].as_str() == Some("shim") {
                        // the real code was already run on the concrete counterexample
                        (true, String::from("replayed on the real code over the formal group"))
                    } else {
                        native_replay(&root, &path)
                    };
                    println!("counterexample [{}] {}: {}", name, claim, msg.trim());
                    if ok {
                        conf.push((claim, path));
                        stop.store(true, Ordering::SeqCst);
                    } else {
                        unrep.lock().unwrap().push(format!("[{}] counterexample did not reproduce: {} ({})", name, claim, msg.trim()));
                    }
                }
            }
            results.lock().unwrap()[k] = Some(v);
        }));
    }
    for t in th {
        let _ = t.join();
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let results = results.lock().unwrap();
    let mut tot = std::collections::BTreeMap::new();
    let mut unknown = vec![];
    let mut skipped = 0;
    let mut units_json = vec![];
    for key in ["obligations", "discharged", "paths", "witnessed", "queries", "unsat", "sat", "solver_unknown", "trivial", "terms"].iter() {
        tot.insert(*key, 0u64);
    }
    for (k, r) in results.iter().enumerate() {
        let r = match r {
            Some(r) => r,
            None => {
                skipped += 1;
                continue;
            }
        };
        for key in ["obligations", "discharged", "paths", "witnessed", "queries", "unsat", "sat", "solver_unknown", "trivial", "terms"].iter() {
            *tot.entry(*key).or_insert(0u64) += r[*key].as_u64().unwrap_or(0);
        }
        for u in r["unknown"].as_array().unwrap() {
            unknown.push(format!("[{}] {}", names[k], u.as_str().unwrap_or("")));
        }
        units_json.push(json!({"unit": names[k], "obligations": r["obligations"], "paths": r["paths"], "queries": r["queries"], "solver_s": r["time"], "wall_s": r["wall"], "notes": r["notes"]}));
        if std::env::var("SYMEX_VERBOSE").is_ok() {
            eprintln!("{}: ob {}/{} paths {} q {} solver {:.1}s wall {}s unk {} viol {}", names[k], r["discharged"], r["obligations"], r["paths"], r["queries"], r["time"].as_f64().unwrap_or(0.0), r["wall"], r["unknown"].as_array().unwrap().len(), r["viols"].as_array().unwrap().len());
        }
    }
    let time: f64 = results.iter().flatten().map(|r| r["time"].as_f64().unwrap_or(0.0)).sum();
    let maxt: f64 = results.iter().flatten().map(|r| r["max_time"].as_f64().unwrap_or(0.0)).fold(0.0, f64::max);

    let confirmed = confirmed.lock().unwrap().clone();
    unknown.extend(unrep.lock().unwrap().iter().cloned());
    let meta = meta::meta(prop);
    let status = if !confirmed.is_empty() { 1 } else if !unknown.is_empty() { 2 } else { 0 };
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": format!("{} Solver-based checking: the functions listed were executed symbolically from /repo's current source (compiled against symbolic field, group and transcript types); every obligation below was decided by z3 (QF_FF over the BLS12-381 scalar field) for all values of the symbolic inputs within the bounds.", meta.what),
            "functions_encoded": meta.functions,
            "bounds": meta.bounds,
            "outside_bounds": meta.outside,
            "units": n, "units_stopped_after_a_violation": skipped,
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "paths_explored": tot["paths"], "paths_with_concrete_witness": tot["witnessed"],
            "solver_queries": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"], "solver_unknown": tot["solver_unknown"],
            "identities_closed_by_normalisation": tot["trivial"],
            "smt_lines": tot["terms"],
            "solver_seconds": (time * 1000.0).round() / 1000.0, "max_query_seconds": (maxt * 1000.0).round() / 1000.0,
            "undecided": unknown,
            "samples": units_json,
        },
        "wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "assumptions": meta.assumptions,
        "violations": confirmed.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} units, {}/{} obligations discharged, {} paths, {} queries ({} unsat, {} sat, {} unknown), solver {:.1} s, wall {:.1} s", prop, tier, n, tot["discharged"], tot["obligations"], tot["paths"], tot["queries"], tot["unsat"], tot["sat"], tot["solver_unknown"], time, t0.elapsed().as_secs_f64());
    for (_, path) in &confirmed {
        println!("VIOLATION property={} replay={}", prop, path);
    }
    if confirmed.is_empty() {
        for u in &unknown {
            println!("UNDECIDED {}", u);
        }
    }
    status
}

fn native_replay(root: &str, path: &str) -> (bool, String) {
    let o = Command::new("bash").arg(format!("{}/replay/run.sh", root)).arg(path).output();
    match o {
        Ok(o) => {
            let s = String::from_utf8_lossy(&o.stdout).into_owned();
            let e = String::from_utf8_lossy(&o.stderr).into_owned();
            let line = s.lines().filter(|l| l.starts_with("REPRODUCED") || l.starts_with("NOT-REPRODUCED")).last().map(|s| s.to_string());
            match line {
                Some(l) => (l.starts_with("REPRODUCED"), l),
                None => (false, format!("replay failed: {}", e.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect::<String>())),
            }
        }
        Err(e) => (false, format!("replay failed: {}", e)),
    }
}
