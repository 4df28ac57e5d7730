//! vcase run <id> <tier> <verif-dir>      run a property (spawns workers), write evidence
//! vcase worker ...                       internal
//! vcase shrink ...                       internal
//! vcase replay <file>                    re-run one saved case
use osmg_verif::engine::*;
use osmg_verif::props;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
const CPU_PER_CASE_S: u64 = 60;

fn find(id: &str) -> Prop {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
}

/// checks with cases on maps of more than 65,536 nodes and edges
const LARGE: [&str; 11] = ["P01", "P02", "P04", "P05", "P06", "P08", "P09", "P10", "P11", "P14", "P16"];

fn size_of(id: &str, index: u64, total: u64) -> usize {
    // 0..=100: small cases first, full size from the first quarter on; 101: the one huge case;
    // 102: some large cases
    if index + 1 == total {
        return 101;
    }
    if LARGE.contains(&id) {
        let parts = if total >= 1_000_000 { 25 } else { 4 };
        if total >= 100 && (1..parts).any(|k| index == k * total / parts) {
            return 102;
        }
    }
    let q = (total / 4).max(1);
    (100 * index.min(q) / q) as usize
}

fn cpu_used() -> u64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as u64
    }
}

fn allow_cpu(secs: u64) {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: cpu_used() + secs,
            rlim_max: libc::RLIM_INFINITY,
        };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
}

fn limits() {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 6 << 30,
            rlim_max: 6 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// checks whose cases run threads of the tool
const SCHEDULED: [&str; 3] = ["P20", "P23", "P25"];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // stand-ins of external programs are links to this one
    match Path::new(&args[0]).file_name().and_then(|n| n.to_str()) {
        Some(n) if n == "cmake" || n == "multi-ch" => props::balance::stub(n, &args[1..]),
        _ => (),
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2], &args[3], Path::new(&args[4])),
        Some("worker") => worker(&args),
        Some("one") => one(&args),
        Some("shrink") => shrinker(&args),
        Some("replay") => replay(&args[2], Path::new(&args[3])),
        Some("fault-child") => props::fault_child(&args[2..]),
        Some("list") => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
        }
        _ => {
            eprintln!("usage: vcase run|replay|list");
            std::process::exit(2)
        }
    }
}

// ---------------------------------------------------------------------------------------------- //

/// worker <id> <seed> <first> <total> <stride> <dir> <deadline-s>
fn worker(a: &[String]) {
    limits();
    install_panic_hook();
    let prop = find(&a[2]);
    let seed: u64 = a[3].parse().unwrap();
    let first: u64 = a[4].parse().unwrap();
    let total: u64 = a[5].parse().unwrap();
    let stride: u64 = a[6].parse().unwrap();
    let dir = PathBuf::from(&a[7]);
    let deadline: u64 = a[8].parse().unwrap();
    let start = Instant::now();
    let scratch = dir.join(format!("s{}", first));
    let marker = fs::File::create(dir.join(format!("marker{}", first))).unwrap();

    let mut evals = 0u64;
    let mut seen: Vec<u64> = vec![];
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut failure = Value::Null;
    let mut i = first;
    let mut capped = false;
    while i < total {
        if start.elapsed() > Duration::from_secs(deadline) {
            capped = true;
            break;
        }
        use std::os::unix::fs::FileExt;
        let _ = marker.write_at(&(i + 1).to_le_bytes(), 0);
        allow_cpu(CPU_PER_CASE_S);
        let mut ctx = Ctx::random(seed, prop.id, i, size_of(prop.id, i, total), &scratch);
        let out = run_case(&prop, &mut ctx);
        evals += 1;
        for (k, v) in &ctx.labels {
            *labels.entry(k.clone()).or_insert(0) += (*v > 0) as u64;
        }
        match out {
            Outcome::Pass(nt) => {
                if nt {
                    let bytes: Vec<u8> =
                        ctx.draws.iter().flat_map(|d| d.to_le_bytes().to_vec()).collect();
                    seen.push(fnv(&bytes));
                    if samples.len() < 2 && (i >= total / 4 || total < 200) {
                        samples.push(json!({"index": i, "case": trunc(&ctx.desc, 1500)}));
                    }
                }
            }
            Outcome::Fail(m) => {
                failure = json!({"index": i, "size": ctx.size, "message": m, "draws": ctx.draws, "desc": ctx.desc});
                break;
            }
        }
        i += stride;
    }
    let _ = fs::remove_dir_all(&scratch);
    let out = json!({"evals": evals, "seen": seen, "labels": labels, "samples": samples,
                     "failure": failure, "capped": capped});
    let tmp = dir.join(format!("out{}.tmp", first));
    fs::write(&tmp, serde_json::to_vec(&out).unwrap()).unwrap();
    fs::rename(&tmp, dir.join(format!("out{}", first))).unwrap();
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

/// one <id> <draws-file> <size> <dir> <seed> <index>: runs exactly one case. Exit 0 pass, 10 fail (message to <dir>/one.msg)
fn one(a: &[String]) {
    limits();
    install_panic_hook();
    let prop = find(&a[2]);
    let size: usize = a[4].parse().unwrap();
    let dir = PathBuf::from(&a[5]);
    allow_cpu(CPU_PER_CASE_S);
    let scratch = dir.join("s-one");
    let mut ctx = if a[3] == "-" {
        Ctx::random(a[6].parse().unwrap(), prop.id, a[7].parse().unwrap(), size, &scratch)
    } else {
        let v: Value = serde_json::from_slice(&fs::read(&a[3]).unwrap()).unwrap();
        let draws = v["draws"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        Ctx::replay(draws, size, &scratch)
    };
    let out = run_case(&prop, &mut ctx);
    let _ = fs::remove_dir_all(&scratch);
    let (m, code) = match out {
        Outcome::Pass(_) => (String::new(), 0),
        Outcome::Fail(m) => (m, 10),
    };
    fs::write(
        dir.join("one.msg"),
        serde_json::to_vec(&json!({"message": m, "draws": ctx.draws, "desc": ctx.desc})).unwrap(),
    )
    .unwrap();
    std::process::exit(code);
}

/// shrink <id> <replay-file> <dir>: improves the replay file in place as long as it is not killed
fn shrinker(a: &[String]) {
    limits();
    install_panic_hook();
    let prop = find(&a[2]);
    let file = PathBuf::from(&a[3]);
    let dir = PathBuf::from(&a[4]);
    let v: Value = serde_json::from_slice(&fs::read(&file).unwrap()).unwrap();
    let draws: Vec<u64> = v["draws"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let size = v["size"].as_u64().unwrap() as usize;
    let scratch = dir.join("s-shrink");
    let mut best: Option<Vec<u64>> = None;
    shrink(draws, |cand| {
        allow_cpu(CPU_PER_CASE_S);
        let mut ctx = Ctx::replay(cand.to_vec(), size, &scratch);
        match run_case(&prop, &mut ctx) {
            Outcome::Fail(m) => {
                let better = match &best {
                    None => true,
                    Some(b) => (ctx.draws.len(), &ctx.draws) < (b.len(), b),
                };
                if better {
                    best = Some(ctx.draws.clone());
                    let mut w = v.clone();
                    w["draws"] = json!(ctx.draws);
                    w["message"] = json!(m);
                    w["desc"] = json!(ctx.desc);
                    w["shrunk"] = json!(true);
                    let tmp = file.with_extension("tmp");
                    fs::write(&tmp, serde_json::to_vec_pretty(&w).unwrap()).unwrap();
                    fs::rename(&tmp, &file).unwrap();
                }
                Some(ctx.draws)
            }
            _ => None,
        }
    });
    let _ = fs::remove_dir_all(&scratch);
}

fn replay(file: &str, verif: &Path) {
    let v: Value = serde_json::from_slice(&fs::read(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    let dir = verif.join("scratch").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let r = confirm(&id, &v, Some(Path::new(file)), &dir);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Some((m, desc)) => {
            println!("{}\n\n{}", desc, m);
            println!("VIOLATION property={} replay={}", id, file);
            std::process::exit(1)
        }
        None => println!("case passes"),
    }
}

/// runs one case in a process of its own; Some((message, description)) if it fails
fn confirm(id: &str, v: &Value, file: Option<&Path>, dir: &Path) -> Option<(String, String)> {
    let exe = std::env::current_exe().unwrap();
    let by_draws = v["draws"].is_array();
    let st = Command::new(exe)
        .arg("one")
        .arg(id)
        .arg(if by_draws { file.unwrap().to_str().unwrap() } else { "-" })
        .arg(v["size"].as_u64().unwrap().to_string())
        .arg(dir)
        .arg(v["seed"].as_u64().unwrap_or(0).to_string())
        .arg(v["index"].as_u64().unwrap_or(0).to_string())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap();
    match st.code() {
        Some(0) => None,
        Some(10) => {
            let m: Value = serde_json::from_slice(&fs::read(dir.join("one.msg")).unwrap()).unwrap();
            Some((
                m["message"].as_str().unwrap().to_string(),
                m["desc"].as_str().unwrap().to_string(),
            ))
        }
        Some(c) => {
            eprintln!("HARNESS-ERROR case process exited with {}", c);
            std::process::exit(3)
        }
        None => {
            let sig = st.signal().unwrap_or(0);
            let what = match sig {
                libc::SIGXCPU => format!("does not terminate (more than {} s of CPU time)", CPU_PER_CASE_S),
                libc::SIGABRT => "aborts the process (memory exhausted or stack overflow)".to_string(),
                libc::SIGSEGV => "crashes the process (stack overflow or invalid access)".to_string(),
                s => {
                    eprintln!("HARNESS-ERROR case process ended by signal {}", s);
                    std::process::exit(3)
                }
            };
            Some((what, String::new()))
        }
    }
}

fn run(id: &str, tier: &str, verif: &Path) {
    let prop = find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let base = if tier == "thorough" { prop.thorough } else { prop.quick };
    let total = ((base as f64) * scale).max(1.0) as u64;
    let deadline: u64 = std::env::var("VERIF_WALL")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 3 * 3600 } else { 300 });
    let start = Instant::now();
    let dir = verif.join("scratch").join(format!("{}-{}", id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let n = WORKERS.min(total);
    let mut children: Vec<_> = (0..n)
        .map(|w| {
            (
                w,
                Command::new(&exe)
                    .arg("worker")
                    .arg(id)
                    .arg(seed.to_string())
                    .arg(w.to_string())
                    .arg(total.to_string())
                    .arg(n.to_string())
                    .arg(&dir)
                    .arg(deadline.to_string())
                    .stdout(Stdio::null())
                    .spawn()
                    .unwrap(),
            )
        })
        .collect();

    let mut outs: Vec<Value> = vec![];
    let mut fail: Option<Value> = None; // {index,size,[draws],message,desc}
    let mut errors: Vec<String> = vec![];
    let hard = Duration::from_secs(deadline + 240);
    while !children.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut rest = vec![];
        for (w, mut c) in children {
            match c.try_wait().unwrap() {
                None => {
                    if start.elapsed() > hard {
                        let _ = c.kill();
                        let _ = c.wait();
                        errors.push(format!("worker {} did not finish in time", w));
                    } else {
                        rest.push((w, c))
                    }
                }
                Some(st) => {
                    let f = dir.join(format!("out{}", w));
                    if st.success() && f.exists() {
                        let v: Value = serde_json::from_slice(&fs::read(&f).unwrap()).unwrap();
                        if v["failure"].is_object() {
                            fail = pick_lower(fail, v["failure"].clone());
                        }
                        outs.push(v);
                    } else if st.code().is_some() {
                        errors.push(format!("worker {} ended with {:?}", w, st));
                    } else {
                        // died in a case: remember the index
                        let m = fs::read(dir.join(format!("marker{}", w))).unwrap_or_default();
                        if m.len() == 8 {
                            let mut b = [0u8; 8];
                            b.copy_from_slice(&m);
                            let idx = u64::from_le_bytes(b) - 1;
                            fail = pick_lower(
                                fail,
                                json!({"index": idx, "size": size_of(id, idx, total), "message": format!("process ended: {:?}", st), "died": true}),
                            );
                        } else {
                            errors.push(format!("worker {} ended with {:?}", w, st));
                        }
                    }
                }
            }
        }
        children = rest;
        if fail.is_some() || !errors.is_empty() {
            for (_, c) in children.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            children.clear();
        }
    }

    let mut evals = 0;
    let mut capped = false;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    for v in &outs {
        evals += v["evals"].as_u64().unwrap();
        capped |= v["capped"].as_bool().unwrap();
        for h in v["seen"].as_array().unwrap() {
            seen.insert(h.as_u64().unwrap());
        }
        for (k, c) in v["labels"].as_object().unwrap() {
            *labels.entry(k.clone()).or_insert(0) += c.as_u64().unwrap();
        }
        for s in v["samples"].as_array().unwrap() {
            if samples.len() < 4 {
                samples.push(s.clone());
            }
        }
    }

    // regressions: saved minimal cases of earlier findings are replayed on every run
    let mut regress = 0;
    if fail.is_none() && errors.is_empty() {
        let reg = verif.join("regressions");
        let mut files: Vec<_> = fs::read_dir(&reg)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_else(|_| vec![]);
        files.sort();
        for f in files {
            if !f.file_name().unwrap().to_str().unwrap().starts_with(&format!("{}-", id)) {
                continue;
            }
            let v: Value = serde_json::from_slice(&fs::read(&f).unwrap()).unwrap();
            regress += 1;
            if let Some((m, desc)) = confirm(id, &v, Some(&f), &dir) {
                let mut w = v.clone();
                w["message"] = json!(m);
                w["desc"] = json!(desc);
                w["regression"] = json!(f.display().to_string());
                fail = Some(w);
                break;
            }
        }
    }

    let mut violations = 0;
    let mut violation_line = None;
    if let Some(mut f) = fail {
        f["property"] = json!(id);
        f["seed"] = json!(seed);
        let replays = verif.join("replays");
        fs::create_dir_all(&replays).unwrap();
        let file = replays.join(format!("{}-{}-{}.json", id, seed, f["index"]));
        fs::write(&file, serde_json::to_vec_pretty(&f).unwrap()).unwrap();
        let mut confirmed = confirm(id, &f, Some(&file), &dir);
        if confirmed.is_none() && SCHEDULED.contains(&id) && f["draws"].is_array() {
            // the case depends on the schedule of the threads of the tool: repeat it
            for _ in 0..20 {
                confirmed = confirm(id, &f, Some(&file), &dir);
                if confirmed.is_some() {
                    break;
                }
            }
            if confirmed.is_none() {
                let m = format!("{} (depends on the schedule: seen once, not in 21 repetitions)", f["message"].as_str().unwrap_or(""));
                confirmed = Some((m, f["desc"].as_str().unwrap_or("").to_string()));
            }
        }
        match confirmed {
            None => {
                // not reproducible: report as an error of the check rather than as a finding
                errors.push(format!("failure at index {} did not reproduce: {}", f["index"], f["message"]));
            }
            Some((m, desc)) => {
                f["message"] = json!(m);
                if !desc.is_empty() {
                    f["desc"] = json!(desc);
                }
                fs::write(&file, serde_json::to_vec_pretty(&f).unwrap()).unwrap();
                if f["draws"].is_array() {
                    // shrink for a bounded time; the file always holds the best case so far
                    let mut c = Command::new(&exe)
                        .arg("shrink")
                        .arg(id)
                        .arg(&file)
                        .arg(&dir)
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    let t = Instant::now();
                    loop {
                        if c.try_wait().unwrap().is_some() {
                            break;
                        }
                        if t.elapsed() > Duration::from_secs(45) {
                            let _ = c.kill();
                            let _ = c.wait();
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(20));
                    }
                }
                let v: Value = serde_json::from_slice(&fs::read(&file).unwrap()).unwrap();
                println!("--- minimal failing case (index {}) ---", v["index"]);
                println!("{}", trunc(v["desc"].as_str().unwrap_or(""), 4000));
                println!("--- {}", trunc(v["message"].as_str().unwrap_or(""), 2000));
                violations = 1;
                violation_line = Some(format!("VIOLATION property={} replay={}", id, file.display()));
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);

    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": seen.len(),
            "rule": prop.rule,
            "samples": samples,
            "planned_cases": total,
            "stopped_by_wall_cap": capped,
            "regression_cases_replayed": regress,
            "labels": labels,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(
        verif.join("evidence").join(format!("{}.json", id)),
        serde_json::to_vec_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{} {} seed={} cases={} distinct-nontrivial={} wall={:.1}s",
        id, tier, seed, evals, seen.len(), start.elapsed().as_secs_f64()
    );
    for (k, c) in &labels {
        println!("   {:6.2}%  {}", 100.0 * *c as f64 / evals.max(1) as f64, k);
    }
    let _ = std::io::stdout().flush();
    if let Some(l) = violation_line {
        println!("{}", l);
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("HARNESS-ERROR {}", e);
        }
        std::process::exit(3);
    }
}

fn pick_lower(a: Option<Value>, b: Value) -> Option<Value> {
    match a {
        None => Some(b),
        Some(a) => {
            if b["index"].as_u64() < a["index"].as_u64() {
                Some(b)
            } else {
                Some(a)
            }
        }
    }
}
