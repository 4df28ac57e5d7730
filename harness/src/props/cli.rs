//! P20, P23: the command-line tool as a process
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::explore;
use crate::props::routes::vehicles;
use crate::props::routing::contract;
use crate::text::*;
use osmgraphing::{
    configs::{self, routing::RoutingAlgo},
    io,
    network::{Graph, RoutePair},
    routing::{
        dijkstra::{Dijkstra, Query},
        explorating::ConvexHullExplorator,
    },
};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P20",
            run: p20,
            quick: 8_000,
            thorough: 120_000,
            rule: "a case is a map, a route-pair file with repetition counts and an algorithm, evaluated by the real tool in two or three processes with different numbers of worker threads; non-trivial: at least two threads in one of the runs, at least three pairs, and at least one edge with a workload of two or more",
            level: "exploration",
            assumptions: &["thread schedules are those of the operating system (8 cores, oversubscribed); the scheduler itself is not controlled", "with exploration, which of the explored routes is driven is random; only the conservation of flow and the use of explored routes are checked"],
        },
        Prop {
            id: "P23",
            run: p23,
            quick: 20_000,
            thorough: 200_000,
            rule: "a case is a map with a configuration for a random selection of steps (writing the map, the edge table, route pairs, routing, evaluating), run by the real tool and, step by step, by the library, possibly with one defect in the command line, the configuration, an input or an output location; non-trivial: at least two steps, or a defect that hits a requested step",
            level: "exploration",
            assumptions: &["routes are read from the log of the tool"],
        },
    ]
}

// ---------------------------------------------------------------------------------------------- //
// processes

pub struct Ran {
    pub ok: bool,
    pub how: String,
    pub log: String,
}

pub fn tool_path(name: &str) -> PathBuf {
    let exe = std::env::current_exe().expect("harness: exe");
    exe.parent().expect("harness: exe").join(name)
}

fn cpu_and_running(pid: u32) -> (u64, bool) {
    let mut cpu = 0;
    let mut running = false;
    if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for t in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(t.path().join("stat")) {
                if let Some(i) = s.rfind(')') {
                    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
                    running |= f.first().map(|x| *x == "R" || *x == "D").unwrap_or(false);
                    for k in [11, 12].iter() {
                        cpu += f.get(*k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                    }
                }
            }
        }
    }
    (cpu, running)
}

const STUCK_S: u64 = 20;

/// runs a program to its end; a process that makes no progress (all threads asleep, no CPU time)
/// for 20 s is stuck
pub fn run_process(c: &Ctx, mut cmd: Command) -> Result<Ran, String> {
    let log = c.path("process.log");
    let f = std::fs::File::create(&log).expect("harness: log");
    cmd.stdin(Stdio::null())
        .stdout(f.try_clone().expect("harness: log"))
        .stderr(f)
        .env_remove("RUST_LOG")
        .env_remove("RUST_LOG_STYLE")
        .env_remove("RUST_BACKTRACE");
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 60, rlim_max: 90 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("harness: spawning the tool");
    let mut last = (0, Instant::now());
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("harness: wait") {
            break s;
        }
        let waited = start.elapsed();
        std::thread::sleep(if waited < Duration::from_millis(50) {
            Duration::from_micros(500)
        } else {
            Duration::from_millis(10)
        });
        if waited > Duration::from_secs(2) {
            let (cpu, running) = cpu_and_running(child.id());
            if cpu != last.0 || running {
                last = (cpu, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(STUCK_S) {
                let _ = child.kill();
                let _ = child.wait();
                return Err(format!("the process is stuck (no progress for {} s)", STUCK_S));
            }
        }
    };
    let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).to_string();
    if status.signal() == Some(libc::SIGXCPU) {
        return Err("the process does not end (more than 60 s of CPU time)".into());
    }
    Ok(Ran {
        ok: status.success(),
        how: format!("{}", status),
        log: text,
    })
}

fn tool(c: &mut Ctx, args: &[String]) -> Result<Ran, String> {
    c.note(format!("osmgraphing {}", args.join(" ")));
    let mut cmd = Command::new(tool_path("osmgraphing"));
    cmd.args(args);
    cmd.current_dir(&c.scratch);
    run_process(c, cmd)
}

/// last lines of the log
pub fn tail(r: &Ran) -> String {
    let l: Vec<&str> = r.log.lines().filter(|l| !l.trim().is_empty()).collect();
    l[l.len().saturating_sub(4)..].join("\n")
}

// ---------------------------------------------------------------------------------------------- //
// maps, configurations

fn with_ids(c: &mut Ctx, map: &mut Map) {
    let step = c.usize(1, 3);
    let first = c.usize(0, 50);
    for (i, e) in map.edges.iter_mut().enumerate() {
        e.id = Some(first + i * step);
    }
}

fn routing_yaml(algo: &str, alphas: &[f64], scales: &[f64], pairs: &str) -> String {
    let mut y = format!("routing:\n  route-pairs-file: '{}'\n  algorithm: {}\n  metrics:\n", pairs, algo);
    for (i, a) in alphas.iter().enumerate() {
        y += &format!("  - {{ id: '{}', alpha: {}", metric_name(i), a);
        if scales[i].is_finite() {
            y += &format!(", tolerated-scale: {}", scales[i]);
        }
        y += " }\n";
    }
    y
}

fn pairs_text(pairs: &[(i64, i64, usize)]) -> String {
    let mut s = format!("{}\n", pairs.len());
    for (a, b, k) in pairs {
        s += &format!("{} {} {}\n", a, b, k);
    }
    s
}

/// rows (edge id, value) of a csv of two columns; the header is checked
fn read_workloads(file: &Path) -> Result<BTreeMap<usize, usize>, String> {
    let s = std::fs::read_to_string(file).map_err(|e| format!("{} cannot be read: {}", file.display(), e))?;
    let mut l = s.lines();
    let head: Vec<&str> = l.next().ok_or("empty workload file")?.split_whitespace().collect();
    ensure!(head == ["edge-id", "num_routes"], "header of the workloads is {:?}", head);
    let mut m = BTreeMap::new();
    for x in l {
        let t: Vec<&str> = x.split_whitespace().collect();
        ensure!(t.len() == 2, "row of the workloads: {:?}", x);
        let id = t[0].parse().map_err(|_| format!("edge id of the workloads: {:?}", x))?;
        let k = t[1].parse().map_err(|_| format!("workload is no count: {:?}", x))?;
        ensure!(m.insert(id, k).is_none(), "edge {} is listed twice", id);
    }
    Ok(m)
}

// ---------------------------------------------------------------------------------------------- //

fn p20(c: &mut Ctx) -> Res {
    let kind = c.weighted(&[5, 4, 2, 1]);
    let explored = kind >= 2;
    let base = if explored {
        explore::gen(c, if kind == 3 { 9 } else { 16 })
    } else {
        gen_map(c, &GraphOpts { max_nodes: 16, max_edges: 44, max_dim: 3, zero: false, ..Default::default() })
    };
    let mut alphas = gen_alphas(c, base.dim);
    if !alphas.iter().any(|a| *a > 0.0) {
        alphas[0] = 1.0;
    }
    let mut map = match kind {
        1 => contract(c, &base, &alphas),
        3 => explore::contract_fully(c, &base, 150).unwrap_or_else(|| base.clone()),
        _ => base.clone(),
    };
    let contracted = map.edges.iter().any(|e| e.sc.is_some());
    with_ids(c, &mut map);
    let algo = match kind {
        0 => "Dijkstra",
        1 => "CHDijkstra",
        2 => "Explorator: { algorithm: Dijkstra }",
        // without any shortcut the levels are all equal
        _ => "Explorator: { algorithm: CHDijkstra }",
    };
    let algo = match algo {
        "Explorator: { algorithm: Dijkstra }" => "!explorator-d",
        "Explorator: { algorithm: CHDijkstra }" => {
            if contracted {
                "!explorator-c"
            } else {
                "!explorator-d"
            }
        }
        x => x,
    };
    let algo_yaml = match algo {
        "!explorator-d" => "{ Explorator: { algo: Dijkstra } }",
        "!explorator-c" => "{ Explorator: { algo: CHDijkstra } }",
        x => x,
    };
    c.label(algo_yaml);
    let ids: Vec<i64> = map.used_ids().into_iter().collect();
    let long = c.chance(1, 4);
    let k = if long { c.usize(60, 400) } else { c.usize(0, 14) };
    let same = c.flip();
    let mut pairs: Vec<(i64, i64, usize)> = vec![];
    for _ in 0..k {
        let (a, b) = (c.pick(&ids), c.pick(&ids));
        let n = match c.weighted(&[6, 4, 1, 1]) {
            0 => 1,
            1 => c.usize(1, 5),
            2 => 0,
            _ if !long && !explored && k < 6 && c.chance(1, 8) => 65_536 + c.usize(0, 500),
            _ if !long && c.chance(1, 3) => c.usize(300, 5_000),
            _ => c.usize(1, if long { 9 } else { 300 }),
        };
        pairs.push((a, b, if same { n.min(1) } else { n }));
    }
    let stranger = if c.chance(1, 12) && k > 0 {
        let mut id = ids.iter().max().unwrap().wrapping_add(1);
        while ids.contains(&id) {
            id = id.wrapping_add(7);
        }
        let at = c.usize(0, k - 1);
        if c.flip() {
            pairs[at].0 = id
        } else {
            pairs[at].1 = id
        }
        true
    } else {
        false
    };
    let scales: Vec<f64> = (0..map.dim)
        .map(|_| if explored && c.chance(1, 4) { c.pick(&[1.0, 1.5, 2.0]) } else { f64::INFINITY })
        .collect();
    let l = gen_layout(c, &map, true);
    let lines = functional_lines(c, &l, &map, true);
    let text = render(c, &lines, true);
    let map_file = c.write("map.fmi", text.as_bytes());
    let pairs_file = c.write("list.route-pairs", pairs_text(&pairs).as_bytes());
    c.note(map.describe());
    c.note(format!("pairs: {:?}", if pairs.len() > 30 { &pairs[..30] } else { &pairs[..] }));
    // runs
    let with_shortcuts = c.flip();
    let smarts = c.flip();
    let mut results: Vec<(BTreeMap<usize, usize>, Vec<(String, Vec<i64>)>)> = vec![];
    let runs = c.usize(2, 3);
    let mut most_threads = 1;
    for r in 0..runs {
        let threads = match r {
            0 => c.pick(&[Some(1), Some(2), None]),
            _ if c.chance(1, 12) => Some(0),
            _ => Some(c.pick(&[2, 3, 4, 5, 8, 16, 1])),
        };
        most_threads = most_threads.max(threads.unwrap_or(4));
        let dir = c.path(&format!("out{}/results", r));
        let mut y = l.yaml(&map_file.display().to_string(), "");
        y += &routing_yaml(algo_yaml, &alphas, &scales, &pairs_file.display().to_string());
        y += &format!("evaluating_balance:\n  results-dir: '{}'\n", dir.display());
        if c.flip() {
            y += &format!("  seed: {}\n", c.draw(1000));
        }
        if let Some(t) = threads {
            y += &format!("  number_of_threads: {}\n", t);
        }
        y += "  monitoring:\n";
        if smarts {
            y += "    export_vehicles_for_SMARTS: true\n";
        }
        y += &format!("    edges-info:\n      file: 'edges.csv'\n      with_shortcuts: {}\n      ids: [{{id: 'edge-id'}}, {{id: 'src-id'}}]\n", with_shortcuts);
        let cfg = c.write("config.yaml", y.as_bytes());
        if r == 0 {
            c.note(y.clone());
        }
        let ran = tool(c, &["--config".into(), cfg.display().to_string(), "--evaluating_balance".into(), "--log".into(), "error".into()])?;
        c.note(format!("threads {:?}: {}", threads, ran.how));
        if stranger {
            ensure!(!ran.ok, "a pair with an unknown node is driven with {:?} threads: the run reports success", threads);
            continue;
        }
        if threads == Some(0) && !ran.ok {
            // nobody to do the work
            c.label("no threads");
            continue;
        }
        ensure!(ran.ok, "evaluation with {:?} threads fails ({}): {}", threads, ran.how, tail(&ran));
        let w = read_workloads(&dir.join("abs_workloads.csv"))?;
        ensure!(dir.join("edges.csv").exists(), "the edge table is not written");
        let xml = dir.join("smarts.xml");
        let v = if smarts {
            let s = std::fs::read_to_string(&xml).map_err(|e| format!("smarts.xml cannot be read: {}", e))?;
            let mut v = vehicles(&s)?;
            v.sort();
            v
        } else {
            ensure!(!xml.exists(), "vehicle routes are written though not wanted");
            vec![]
        };
        results.push((w, v));
    }
    if stranger {
        c.label("unknown node");
        return Ok(Verdict::NonTrivial);
    }
    // oracle
    let mut dists: BTreeMap<i64, Dists> = BTreeMap::new();
    for (s, _, _) in &pairs {
        if !dists.contains_key(s) {
            let d = bellman_ford(&base, *s, &alphas, &|_| true);
            dists.insert(*s, d);
        }
    }
    let mut net: BTreeMap<i64, i64> = BTreeMap::new();
    let mut total = 0.0;
    let mut slack = 0.0;
    let mut names: Vec<String> = vec![];
    let tolerated = scales.iter().all(|s| s.is_infinite());
    for (s, t, n) in &pairs {
        if let Some(d) = dists[s].d.get(t) {
            if !tolerated && s != t {
                // checked below by the explored routes
            }
            *net.entry(*s).or_insert(0) += *n as i64;
            *net.entry(*t).or_insert(0) -= *n as i64;
            total += d * *n as f64;
            slack += tol(map.nodes.len(), *d) * *n as f64;
            for _ in 0..*n {
                names.push(format!("{}->{}", s, t));
            }
        }
    }
    names.sort();
    // expected counts when every driven pair has one best route only
    let mut expected: Option<BTreeMap<usize, usize>> = if explored { None } else { Some(BTreeMap::new()) };
    if !explored {
        let mut rev = base.clone();
        for e in rev.edges.iter_mut() {
            std::mem::swap(&mut e.src, &mut e.dst);
        }
        let ws: Vec<f64> = (0..base.edges.len()).map(|e| base.w(e, &alphas)).collect();
        // positions of the base edges in the map (contracting may shuffle, ids are set afterwards)
        let mut pos: Vec<Option<usize>> = vec![];
        let mut used: BTreeSet<usize> = BTreeSet::new();
        for e in &base.edges {
            let same: Vec<usize> = (0..map.edges.len())
                .filter(|i| {
                    let m = &map.edges[*i];
                    m.sc.is_none() && m.src == e.src && m.dst == e.dst && m.metrics == e.metrics && !used.contains(i)
                })
                .collect();
            if let Some(i) = same.first() {
                used.insert(*i);
            }
            pos.push(same.first().copied());
        }
        let mut back: BTreeMap<i64, Dists> = BTreeMap::new();
        'pairs: for (s, t, n) in &pairs {
            let d = match dists[s].d.get(t) {
                Some(d) => *d,
                None => continue,
            };
            if *n == 0 || s == t {
                continue;
            }
            if !back.contains_key(t) {
                back.insert(*t, bellman_ford(&rev, *t, &alphas, &|_| true));
            }
            let b = &back[t];
            let eps = 4.0 * tol(map.nodes.len(), d);
            // follow the only tight edge
            let mut at = *s;
            let mut hops = 0;
            while at != *t {
                let tight: Vec<usize> = (0..base.edges.len())
                    .filter(|i| {
                        let e = &base.edges[*i];
                        e.src == at
                            && b.d.get(&e.dst).map(|x| (ws[*i] + x - b.d[&at]).abs() <= eps).unwrap_or(false)
                    })
                    .collect();
                hops += 1;
                if tight.len() != 1 || hops > 100 || pos[tight[0]].is_none() {
                    expected = None;
                    break 'pairs;
                }
                *expected.as_mut().unwrap().entry(map.edges[pos[tight[0]].unwrap()].id.unwrap()).or_insert(0) += n;
                at = base.edges[tight[0]].dst;
            }
        }
    }
    // explored routes, as the library finds them
    let mut allowed: Option<BTreeSet<usize>> = None;
    let mut none_tolerated: BTreeSet<(i64, i64)> = BTreeSet::new();
    if explored {
        let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
        let mut cfg = routing_cfg(if algo == "!explorator-c" { RoutingAlgo::CHDijkstra } else { RoutingAlgo::Dijkstra }, &alphas);
        cfg.tolerated_scales = scales.iter().copied().collect();
        let mut set = BTreeSet::new();
        let mut ex = ConvexHullExplorator::new();
        let mut dij = Dijkstra::new();
        let todo: BTreeSet<(i64, i64)> = pairs.iter().map(|p| (p.0, p.1)).collect();
        for (s, t) in todo {
            let q = Query { src_idx: node_idx(&g, s).unwrap(), dst_idx: node_idx(&g, t).unwrap(), graph: &g, routing_cfg: &cfg };
            let found = guard("exploring", || ex.fully_explorate(q, &mut dij))?;
            if found.is_empty() && dists[&s].d.contains_key(&t) {
                none_tolerated.insert((s, t));
            }
            for p in found {
                for e in &p.flatten(&g) {
                    set.insert(g.fwd_edges().try_id(*e).ok_or("edge without id")?);
                }
            }
        }
        allowed = Some(set);
        if !none_tolerated.is_empty() {
            net.clear();
            names.clear();
            for (s, t, n) in &pairs {
                if dists[s].d.contains_key(t) && !none_tolerated.contains(&(*s, *t)) {
                    *net.entry(*s).or_insert(0) += *n as i64;
                    *net.entry(*t).or_insert(0) -= *n as i64;
                    for _ in 0..*n {
                        names.push(format!("{}->{}", s, t));
                    }
                }
            }
            names.sort();
        }
    }
    let by_id: BTreeMap<usize, usize> = map.edges.iter().enumerate().map(|(i, e)| (e.id.unwrap(), i)).collect();
    for (w, v) in &results {
        let want: BTreeSet<usize> = map.edges.iter().filter(|e| with_shortcuts || e.sc.is_none()).map(|e| e.id.unwrap()).collect();
        let have: BTreeSet<usize> = w.keys().copied().collect();
        ensure!(have == want, "workloads are listed for edges {:?}, expected {:?}", have, want);
        let mut out: BTreeMap<i64, i64> = BTreeMap::new();
        let mut cost = 0.0;
        for (id, n) in w {
            let i = by_id[id];
            let e = &map.edges[i];
            ensure!(e.sc.is_none() || *n == 0, "shortcut {} has workload {}", id, n);
            *out.entry(e.src).or_insert(0) += *n as i64;
            *out.entry(e.dst).or_insert(0) -= *n as i64;
            cost += map.w(i, &alphas) * *n as f64;
            if let Some(a) = &allowed {
                ensure!(*n == 0 || a.contains(id), "edge {} has workload {}, but is on no explored route", id, n);
            }
        }
        for id in &ids {
            let (a, b) = (out.get(id).unwrap_or(&0), net.get(id).unwrap_or(&0));
            ensure!(
                a == b,
                "{} more routes leave node {} than arrive there, expected {} (by the pairs that are reachable)",
                a, id, b
            );
        }
        if !explored {
            ensure!(
                (cost - total).abs() <= slack + 1e-9 * total.abs() + 1e-9,
                "the driven routes cost {} altogether, the best ones {}",
                cost, total
            );
            if let Some(x) = &expected {
                for (id, n) in w {
                    let e = x.get(id).copied().unwrap_or(0);
                    ensure!(*n == e, "edge {} has workload {}, but {} driven routes use it", id, n, e);
                }
            }
        }
        if smarts {
            let mut have: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
            have.sort();
            ensure!(have == names, "vehicles {:?}, expected {:?}", have.iter().take(20).collect::<Vec<_>>(), names.iter().take(20).collect::<Vec<_>>());
            // transitions of all vehicles are those of the workloads
            let mut steps: BTreeMap<(i64, i64), usize> = BTreeMap::new();
            for (_, nodes) in v {
                for x in nodes.windows(2) {
                    *steps.entry((x[0], x[1])).or_insert(0) += 1;
                }
            }
            let mut loads: BTreeMap<(i64, i64), usize> = BTreeMap::new();
            for (id, n) in w.iter().filter(|x| *x.1 > 0) {
                let e = &map.edges[by_id[id]];
                *loads.entry((e.src, e.dst)).or_insert(0) += n;
            }
            ensure!(steps == loads, "vehicles drive {:?}, workloads are {:?}", steps, loads);
        }
    }
    if !explored {
        for x in &results[1..] {
            ensure!(*x == results[0], "results differ between numbers of threads: {:?} and {:?}", results[0].0, x.0);
        }
    }
    if expected.is_some() {
        c.label("unique best routes");
    }
    if long {
        c.label("several work packages");
    }
    let busy = results[0].0.values().any(|n| *n >= 2);
    Ok(if most_threads >= 2 && pairs.len() >= 3 && busy { Verdict::NonTrivial } else { Verdict::Trivial })
}

// ---------------------------------------------------------------------------------------------- //

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Step {
    Graph,
    Edges,
    Pairs,
    Routing,
    Evaluating,
}

const STEPS: [Step; 5] = [Step::Graph, Step::Edges, Step::Pairs, Step::Routing, Step::Evaluating];

impl Step {
    fn flag(self) -> &'static str {
        match self {
            Step::Graph => "--writing_graph",
            Step::Edges => "--writing_edges",
            Step::Pairs => "--writing_route-pairs",
            Step::Routing => "--routing",
            Step::Evaluating => "--evaluating_balance",
        }
    }
}

struct Sections {
    parsing: String,
    graph: String,
    edges: String,
    pairs: String,
    routing: String,
    evaluating: String,
}

fn sections(dir: &Path, l: &Layout, map_file: &str, routing: &str, count: usize, seed: u64, nodes: &str, cols: &str, sc: bool) -> Sections {
    Sections {
        parsing: l.yaml(map_file, ""),
        graph: format!("  graph:\n    map-file: '{}'\n    nodes: {}\n    edges:\n      with_shortcuts: {}\n      ids: {}\n", dir.join("out.fmi").display(), nodes, sc, cols),
        edges: format!("  edges-info:\n    file: '{}'\n    with_shortcuts: {}\n    ids: {}\n", dir.join("out.csv").display(), sc, cols),
        pairs: format!("  route-pairs:\n    file: '{}'\n    random_or_all: {{ seed: {}, max_count: {} }}\n", dir.join("out.route-pairs").display(), seed, count),
        routing: routing.to_string(),
        evaluating: format!("evaluating_balance:\n  results-dir: '{}'\n  monitoring:\n    edges-info:\n      file: 'eval.csv'\n      with_shortcuts: {}\n      ids: {}\n", dir.join("results").display(), sc, cols),
    }
}

/// files of a step
fn files(dir: &Path, s: Step) -> Vec<PathBuf> {
    match s {
        Step::Graph => vec![dir.join("out.fmi")],
        Step::Edges => vec![dir.join("out.csv")],
        Step::Pairs => vec![dir.join("out.route-pairs")],
        Step::Routing => vec![],
        Step::Evaluating => vec![dir.join("results/eval.csv"), dir.join("results/abs_workloads.csv")],
    }
}

fn numbers(s: &str) -> Vec<f64> {
    s.split(|ch: char| ch == ',' || ch == '[' || ch == ']').filter_map(|t| t.trim().parse().ok()).collect()
}

/// what a log says about routing: costs of the routes per query; an empty list: no path
fn logged(log: &str, explored: bool) -> Vec<Vec<Vec<f64>>> {
    let mut v: Vec<Vec<Vec<f64>>> = vec![];
    for l in log.lines().filter(|l| l.contains(" INFO ") || l.contains(" WARN ")) {
        if l.contains("No path") {
            v.push(vec![]);
        } else if !explored {
            if let Some(i) = l.find("Path costs [") {
                let rest = &l[i + 11..];
                let end = rest.find(']').unwrap_or(rest.len() - 1);
                v.push(vec![numbers(&rest[..=end])]);
            }
        } else if l.contains("path(s):") {
            v.push(vec![]);
        } else if let Some(i) = l.find("costs: Some([") {
            let rest = &l[i + 12..];
            let end = rest.find(']').unwrap_or(rest.len() - 1);
            if let Some(x) = v.last_mut() {
                x.push(numbers(&rest[..=end]));
            }
        }
    }
    v
}

fn p23(c: &mut Ctx) -> Res {
    let algo = c.pick(&["Dijkstra", "CHDijkstra", "{ Explorator: { algo: Dijkstra } }"]);
    let explored = algo.starts_with('{');
    let base = gen_map(c, &GraphOpts { max_nodes: 12, max_edges: 30, max_dim: 3, zero: false, ..Default::default() });
    let mut alphas = gen_alphas(c, base.dim);
    if !alphas.iter().any(|a| *a > 0.0) {
        alphas[0] = 1.0;
    }
    let mut map = if algo == "CHDijkstra" { contract(c, &base, &alphas) } else { base };
    with_ids(c, &mut map);
    let l = gen_layout(c, &map, true);
    let lines = functional_lines(c, &l, &map, true);
    let mut text = render(c, &lines, true);
    let ids: Vec<i64> = map.used_ids().into_iter().collect();
    let k = c.usize(0, 8);
    let mut pairs: Vec<(i64, i64, usize)> = (0..k).map(|_| (c.pick(&ids), c.pick(&ids), c.usize(0, 3))).collect();
    let mut steps: Vec<Step> = STEPS.iter().copied().filter(|_| c.chance(2, 5)).collect();
    let balancing = c.chance(1, 40);
    // defects
    let defect = if c.chance(2, 5) { c.usize(1, 17) } else { 0 };
    let what = [
        "none", "configuration missing", "configuration is no yaml", "map missing", "map truncated", "map of unknown kind",
        "section of a step missing", "output exists", "output directory missing", "unknown metric in routing", "route pairs missing",
        "unknown node in the pairs", "unknown command-line flag", "no configuration given", "unsupported log level",
        "unknown key in a section", "parsing section missing", "output is a directory",
    ][defect];
    // the step hit by the defect
    if (6..=11).contains(&defect) || defect == 15 || defect == 17 {
        let s = match defect {
            6 | 15 => c.pick(&STEPS),
            7 => c.pick(&[Step::Graph, Step::Edges, Step::Pairs, Step::Evaluating]),
            8 => c.pick(&[Step::Graph, Step::Edges, Step::Pairs]),
            17 => c.pick(&[Step::Graph, Step::Edges, Step::Pairs]),
            9 => c.pick(&[Step::Pairs, Step::Routing, Step::Evaluating]),
            _ => c.pick(&[Step::Routing, Step::Evaluating]),
        };
        if !steps.contains(&s) {
            steps.push(s);
            steps.sort();
        }
        if defect == 11 && pairs.is_empty() {
            pairs.push((ids[0], ids[0], 1));
        }
        c.label(format!("{} ({:?})", what, s));
        // the section about routing is needed by all of these
        let routing = [Step::Pairs, Step::Routing, Step::Evaluating];
        let section = s;
        let s = if defect == 9 || (s == Step::Routing && (defect == 6 || defect == 15)) {
            routing.iter().copied().find(|x| steps.contains(x)).unwrap()
        } else {
            s
        };
        return p23_run(c, &map, &l, &mut text, pairs, steps, balancing, defect, Some((section, s)), what, algo, explored, &alphas);
    }
    c.label(what);
    p23_run(c, &map, &l, &mut text, pairs, steps, balancing, defect, None, what, algo, explored, &alphas)
}

#[allow(clippy::too_many_arguments)]
fn p23_run(
    c: &mut Ctx,
    map: &Map,
    l: &Layout,
    text: &mut String,
    mut pairs: Vec<(i64, i64, usize)>,
    steps: Vec<Step>,
    balancing: bool,
    defect: usize,
    hit: Option<(Step, Step)>,
    what: &str,
    algo: &str,
    explored: bool,
    alphas: &[f64],
) -> Res {
    let dir = c.path("work");
    let reference = c.path("reference");
    std::fs::create_dir_all(&dir).expect("harness: dir");
    std::fs::create_dir_all(&reference).expect("harness: dir");
    if defect == 4 {
        let n = text.trim_end().rfind(|ch: char| ch.is_whitespace()).unwrap_or(1);
        text.truncate(n);
    }
    let map_name = if defect == 5 { c.pick(&["map.txt", "map", "map.fmi.bak", "map.osm"]) } else { "map.fmi" };
    let map_file = c.path(map_name);
    if defect != 3 {
        c.write(map_name, text.as_bytes());
    }
    let ids: BTreeSet<i64> = map.used_ids();
    if defect == 11 {
        let mut id = ids.iter().max().unwrap().wrapping_add(1);
        while ids.contains(&id) {
            id = id.wrapping_add(3);
        }
        let at = c.usize(0, pairs.len() - 1);
        pairs[at].0 = id;
    }
    let pairs_file = c.path("in.route-pairs");
    if defect != 10 {
        c.write("in.route-pairs", pairs_text(&pairs).as_bytes());
    }
    let scales = vec![f64::INFINITY; map.dim];
    let mut ry = routing_yaml(algo, alphas, &scales, &pairs_file.display().to_string());
    if defect == 9 {
        ry += "  - { id: 'not a metric' }\n";
    }
    let nodes = c.pick(&["[{id: 'node-id'}, {id: 'lat'}, {id: 'lon'}]", "[{id: 'lon'}, {id: 'node-id'}]"]);
    let cols = c.pick(&["[{id: 'edge-id'}, {id: 'src-id'}, {id: 'dst-id'}, {id: 'm0'}]", "[{id: 'm0'}, {id: 'edge-id'}]"]);
    let sc = c.flip();
    let count = c.usize(0, 40);
    let seed = c.draw(1000);
    let mf = map_file.display().to_string();
    let mut s = sections(&dir, l, &mf, &ry, count, seed, nodes, cols, sc);
    let r = sections(&reference, l, &mf, &ry, count, seed, nodes, cols, sc);
    let section = hit.map(|x| x.0);
    let hit = hit.map(|x| x.1);
    if let Some(h) = section {
        let sec = match h {
            Step::Graph => &mut s.graph,
            Step::Edges => &mut s.edges,
            Step::Pairs => &mut s.pairs,
            Step::Routing => &mut s.routing,
            Step::Evaluating => &mut s.evaluating,
        };
        match defect {
            6 => sec.clear(),
            8 => *sec = sec.replace("/out.", "/missing/out."),
            15 => {
                *sec += match h {
                    Step::Graph | Step::Edges | Step::Pairs => "    unknown-key: 7\n",
                    _ => "  unknown-key: 7\n",
                }
            }
            _ => (),
        }
    }
    let sentinel = b"do not touch\n";
    let mut blocked: Option<PathBuf> = None;
    if defect == 7 {
        let f = c.pick(&files(&dir, hit.unwrap()));
        std::fs::create_dir_all(f.parent().unwrap()).expect("harness: dir");
        std::fs::write(&f, sentinel).expect("harness: file");
        blocked = Some(f);
    }
    if defect == 17 {
        std::fs::create_dir_all(&files(&dir, hit.unwrap())[0]).expect("harness: dir");
    }
    let writing = if s.graph.is_empty() && s.edges.is_empty() && s.pairs.is_empty() {
        String::new()
    } else {
        format!("writing:\n{}{}{}", s.graph, s.edges, s.pairs)
    };
    let mut parts = vec![
        if defect == 16 { String::new() } else { s.parsing.clone() },
        writing,
        s.routing.clone(),
        s.evaluating.clone(),
    ];
    c.shuffle(&mut parts);
    let mut yaml = parts.concat();
    if defect == 2 {
        yaml = c.pick(&["{\n", "a: [\n", "\"open\n", "]\n", "- a\n"]).to_string() + &yaml;
    }
    let cfg = c.path("config.yaml");
    if defect != 1 {
        c.write("config.yaml", yaml.as_bytes());
    }
    c.note(map.describe());
    c.note(format!("steps {:?}, defect: {}\npairs {:?}\n{}", steps, what, pairs, yaml));
    // command line
    let mut args: Vec<Vec<String>> = steps.iter().map(|x| vec![x.flag().to_string()]).collect();
    if defect != 13 {
        let flag = c.pick(&["--config", "-c", "--parsing"]);
        args.push(vec![flag.into(), cfg.display().to_string()]);
    }
    match (defect, c.usize(0, 3)) {
        (14, _) => args.push(vec!["--log".into(), c.pick(&["loud", "7", "of"]).into()]),
        (_, 0) => args.push(vec!["--log".into(), "debug".into()]),
        (_, 1) => args.push(vec!["-l".into(), "INFO".into()]),
        (_, 2) => args.push(vec!["--log".into(), "trace".into()]),
        _ => (),
    }
    if defect == 12 {
        let flag = c.pick(&["--writing", "--route", "-x", "--writing_routes"]);
        args.push(vec![flag.into()]);
    }
    if balancing {
        // without a section for it
        args.push(vec!["--balancing".into()]);
    }
    c.shuffle(&mut args);
    let ran = tool(c, &args.concat())?;
    c.note(format!("{}", ran.how));
    // reference by the library
    let fails = defect != 0 || balancing;
    ensure!(ran.ok != fails, "{}: the tool ends with {}\n{}", what, ran.how, tail(&ran));
    if fails {
        ensure!(!ran.log.trim().is_empty(), "{}: the tool ends with {} without any message", what, ran.how);
    }
    if let Some(f) = &blocked {
        ensure!(
            std::fs::read(f).map(|b| b == sentinel).unwrap_or(false),
            "{}: an existing file is changed",
            f.display()
        );
    }
    // nothing that has not been requested; with a defect before any step: nothing at all
    let early = (1..=5).contains(&defect) || (12..=14).contains(&defect) || defect == 16;
    let done = |x: Step| steps.contains(&x) && !early && (hit.is_none() || x < hit.unwrap());
    // evaluating replaces simple routing
    for x in STEPS.iter() {
        for f in files(&dir, *x) {
            if Some(&f) == blocked.as_ref() || (defect == 17 && hit == Some(*x)) {
                continue;
            }
            if done(*x) {
                ensure!(f.exists(), "{} is not written", f.display());
            } else if !steps.contains(x) || early || hit == Some(*x) {
                ensure!(!f.exists(), "{} is written, though the step {:?} was not requested or fails", f.display(), x);
            }
        }
    }
    if early {
        return Ok(Verdict::NonTrivial);
    }
    // compare what has been done with the library
    let pcfg = configs::parsing::Config::from_str_checked(&r.parsing)?;
    let g = guard("parsing", || io::network::graph::Parser::parse_and_finalize(pcfg))?.map_err(|e| format!("valid map rejected: {}", e))?;
    let parsed_routing = || configs::routing::Config::try_from_str(&r.routing, g.cfg()).map_err(|e| format!("valid routing section rejected: {}", e));
    for x in STEPS.iter().copied().filter(|x| done(*x)) {
        match x {
            Step::Graph => {
                let w = conf(&format!("writing:\n{}", r.graph))?;
                io::network::graph::Writer::write(&g, &w).map_err(|e| e.to_string())?;
            }
            Step::Edges => {
                let w = conf(&format!("writing:\n{}", r.edges))?;
                io::network::edges::Writer::write(&g, &w).map_err(|e| e.to_string())?;
            }
            Step::Pairs => {
                let w = conf(&format!("writing:\n{}", r.pairs))?;
                io::routing::Writer::write(&g, &parsed_routing()?, &w).map_err(|e| e.to_string())?;
            }
            Step::Routing | Step::Evaluating => continue,
        }
        let (a, b) = (std::fs::read(&files(&dir, x)[0]), std::fs::read(&files(&reference, x)[0]));
        let (a, b) = (a.map_err(|e| e.to_string())?, b.map_err(|e| e.to_string())?);
        ensure!(a == b, "{:?}: the file of the tool differs from that of the library:\n{}\n---\n{}", x, String::from_utf8_lossy(&a), String::from_utf8_lossy(&b));
    }
    let routes = logged(&ran.log, explored);
    let wants_routes = done(Step::Routing) && !steps.contains(&Step::Evaluating);
    if wants_routes {
        let rcfg = parsed_routing()?;
        let list = io::routing::Parser::parse(&rcfg).map_err(|e| format!("valid pairs rejected: {}", e))?;
        let mut want: Vec<Vec<Vec<f64>>> = vec![];
        let mut dij = Dijkstra::new();
        let mut ex = ConvexHullExplorator::new();
        for (RoutePair { src, dst }, _) in list {
            let mut rc = rcfg.clone();
            if explored {
                rc.routing_algo = RoutingAlgo::Dijkstra;
            }
            let q = Query { src_idx: node_idx(&g, src).ok_or("harness: node")?, dst_idx: node_idx(&g, dst).ok_or("harness: node")?, graph: &g, routing_cfg: &rc };
            if explored {
                want.push(ex.fully_explorate(q, &mut dij).iter().map(|p| p.costs().to_vec()).collect());
            } else {
                want.push(dij.compute_best_path(q).map(|p| p.flatten(&g).costs().to_vec()).into_iter().collect());
            }
        }
        ensure!(routes.len() == want.len(), "{} queries are logged, expected {}:\n{}", routes.len(), want.len(), ran.log);
        for (i, (a, b)) in routes.iter().zip(&want).enumerate() {
            let same = a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(*p, *q, 1e-9)));
            ensure!(same, "query {} ({:?}) is logged with routes of costs {:?}, the library gives {:?}", i, pairs[i], a, b);
        }
    } else if !steps.contains(&Step::Routing) && !steps.contains(&Step::Evaluating) {
        ensure!(routes.is_empty(), "routing is not requested, but done");
    }
    Ok(if steps.len() >= 2 || hit.is_some() { Verdict::NonTrivial } else { Verdict::Trivial })
}

fn conf<T: serde::de::DeserializeOwned>(y: &str) -> Result<T, String> {
    serde_yaml::from_str(y).map_err(|e| format!("valid section rejected: {}\n{}", e, y))
}

trait FromStrChecked: Sized {
    fn from_str_checked(y: &str) -> Result<Self, String>;
}
impl FromStrChecked for configs::parsing::Config {
    fn from_str_checked(y: &str) -> Result<Self, String> {
        parse_cfg(y).map_err(|e| format!("valid parsing section rejected: {}", e))
    }
}

#[allow(dead_code)]
fn unused(_: &Graph) {}
