//! P21, P24, P25: balancing, calling the external constructor
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::cli::{run_process, tail, tool_path};
use crate::props::explore;
use crate::props::fmi::{complete_ids, parse_graph, tokens};
use crate::props::routes::vehicles;
use crate::props::routing::shuffle_edges;
use crate::text::*;
use osmgraphing::{
    configs::{
        self,
        routing::{ExploratorAlgo, RoutingAlgo},
    },
    defaults,
    network::Graph,
    routing::{
        dijkstra::{Dijkstra, Query},
        explorating::ConvexHullExplorator,
    },
};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P21",
            run: p21,
            quick: 20_000,
            thorough: 400_000,
            rule: "a case is a configuration of the constructor, with or without its optional settings, possibly with a defect, a failing step or additional sections, run by the real tool with stand-ins for cmake and the constructor; non-trivial: an optional setting is given, or something fails",
            level: "exploration",
            assumptions: &["cmake and the external constructor (another repository, C++) are replaced by stand-ins which log their calls", "empty arguments are regarded as absent"],
        },
        Prop {
            id: "P24",
            run: p24,
            quick: 200_000,
            thorough: 6_000_000,
            rule: "a case is a generated map (also contracted or normalised), a balancing configuration and a history of one to six workloads; non-trivial: at least two successful updates with different workloads on at least two edges",
            level: "exploration",
            assumptions: &["one workload per edge is given", "values within 3e-6 of a threshold may fall on either side (the accuracy of the code is 1e-6)"],
        },
        Prop {
            id: "P25",
            run: p25,
            quick: 9_000,
            thorough: 150_000,
            rule: "a case is a map, a balancing configuration with zero to three updates and one of the routing algorithms, run by the real tool with a stand-in for the external constructor of contraction hierarchies, possibly failing at one point; non-trivial: at least two iterations with workloads of at least two edges, or a failing step after the first iteration has begun",
            level: "exploration",
            assumptions: &["the external constructor (another repository, C++) is replaced by a stand-in which contracts all, some or no nodes and keeps the routes of every weighting", "with exploration, which of the explored routes is driven is random; the conservation of flow and the use of explored routes are checked"],
        },
    ]
}

// ---------------------------------------------------------------------------------------------- //
// the update

#[derive(Clone, Copy, Debug)]
enum Method {
    Averaging,
    Euler(f64),
}

#[derive(Clone, Debug)]
struct Opt {
    method: Method,
    min: Option<f64>,
    throw: Option<bool>,
}

const EDGE: f64 = 3e-6;

struct Updated {
    values: Vec<f64>,
    mean: f64,
    /// relative accuracy that can be expected
    rel: f64,
}

/// Ok(new values), Err(surely an error?)
fn update(iter: usize, old: &[f64], w: &[usize], o: &Opt) -> Result<(Updated, bool), ()> {
    let n = w.len() as f64;
    let mean = w.iter().map(|x| *x as f64).sum::<f64>() / n;
    if !(mean > 0.0) {
        return Err(());
    }
    let mut loose = mean <= EDGE;
    let mut v: Vec<f64> = old
        .iter()
        .zip(w)
        .map(|(a, w)| {
            let x = *w as f64 / mean;
            match o.method {
                Method::Averaging => (iter as f64 * a + x) / (iter as f64 + 1.0),
                Method::Euler(k) => a + (x - a) * k,
            }
        })
        .collect();
    let size = v.iter().fold(1.0f64, |a, x| a.max(x.abs()));
    let mut rel = 1e-9;
    match o.min {
        Some(m) => {
            for x in v.iter_mut() {
                if (*x - m).abs() <= EDGE {
                    rel = 1e-5;
                    *x = m;
                } else if *x < m {
                    *x = m;
                }
            }
        }
        None => {
            if o.throw.unwrap_or(true) {
                if v.iter().any(|x| *x < 0.0 || *x == 0.0) {
                    return Err(());
                }
                loose |= v.iter().any(|x| *x <= EDGE);
            }
        }
    }
    let mean = v.iter().sum::<f64>() / n;
    let slack = 1e-12 * size;
    if mean < -slack {
        return Err(());
    }
    loose |= mean <= EDGE + slack;
    // cancellation
    rel += 1e-13 * size / mean.abs().max(1e-300);
    for x in v.iter_mut() {
        *x /= mean;
    }
    Ok((Updated { values: v, mean, rel }, loose))
}

fn gen_opt(c: &mut Ctx) -> Opt {
    let method = if c.flip() {
        Method::Averaging
    } else {
        Method::Euler(match c.weighted(&[3, 2, 1]) {
            0 => c.pick(&[0.5, 0.25, 0.1, 0.9]),
            1 => c.pick(&[1.0, 0.0]),
            _ => (c.draw(1_500_000) as f64) / 1e6,
        })
    };
    let min = match c.weighted(&[3, 3, 1]) {
        0 => Some(c.pick(&[0.1, 0.01, 0.5, 1.0])),
        1 => None,
        _ => Some((1 + c.draw(3_000_000)) as f64 / 1e6),
    };
    let throw = c.pick(&[None, Some(false), Some(false), Some(true)]);
    Opt { method, min, throw }
}

fn opt_yaml(id: &str, o: &Opt) -> String {
    let mut y = format!(
        "  optimizing_with:\n    metric-id: '{}'\n    method: {}\n",
        id,
        match o.method {
            Method::Averaging => "averaging".to_string(),
            Method::Euler(k) => format!("{{ explicit_euler: {{ correction: {} }} }}", k),
        }
    );
    if let Some(m) = o.min {
        y += &format!("  min_new_metric: {}\n", m);
    }
    if let Some(t) = o.throw {
        y += &format!("  throw_err_when_new_metric_is_zero: {}\n", t);
    }
    y
}

fn p24(c: &mut Ctx) -> Res {
    let normalised = c.chance(1, 3);
    let mut map = gen_map(c, &GraphOpts { max_nodes: 10, max_edges: 26, zero: !normalised, ..Default::default() });
    if map.edges.is_empty() {
        return Ok(Verdict::Trivial);
    }
    if c.chance(1, 4) {
        if let Some(m) = contract_some(c, &map, 60, 0) {
            map = m;
        }
    }
    complete_ids(&mut map);
    let mut l = gen_layout(c, &map, true);
    if normalised {
        l.normalize = Some(true);
    }
    let lines = functional_lines(c, &l, &map, true);
    let text = render(c, &lines, true);
    let file = c.write("map.fmi", text.as_bytes());
    let y = l.yaml(&file.display().to_string(), "");
    let mut g = parse_graph(&y)?;
    // columns are numbered like metrics
    let k = c.usize(0, map.dim - 1);
    let o = gen_opt(c);
    let mut by = String::from("balancing:\n  results-dir: 'r'\n  iter-0-cfg: 'a.yaml'\n  iter-i-cfg: 'b.yaml'\n  multi-ch-constructor:\n    fmi-graph: 'g.fmi'\n    contracted-graph: 'g.ch.fmi'\n    dimension: 3\n    is_printing_osm-ids: true\n    is_using_external_edge-ids: true\n  number_of_metric-updates: 3\n  monitoring:\n    edges-info:\n      file: 'e.csv'\n      with_shortcuts: true\n      ids: []\n");
    by += &opt_yaml(&l.names[k], &o);
    c.note(format!("{}\n--- map.fmi\n{}\n{}", y, text, by));
    let cfg = guard("reading the balancing section", || configs::balancing::Config::try_from_str(&by))?
        .map_err(|e| format!("valid balancing section rejected: {}", e))?;
    let before = graph_edges(&g);
    let n = before.len();
    let means0: Option<Vec<f64>> = g.metrics_mut().means().map(|m| m.iter().copied().collect());
    ensure!(means0.is_some() == normalised, "the graph has means: {}, normalised: {}", means0.is_some(), normalised);
    let mut state: Vec<f64> = before.iter().map(|e| e.metrics[k]).collect();
    let mut mean_now = means0.as_ref().map(|m| m[k]);
    let steps = c.usize(1, 6);
    let mut good = 0;
    let mut varied = false;
    // a late part of a long history
    let base = if c.chance(1, 6) { c.pick(&[9, 30, 62, 99, 126, 254, 998, 65_534]) } else { 0 };
    if base > 0 {
        c.label("late iterations");
    }
    for iter in base..base + steps {
        let kind = c.weighted(&[5, 2, 2, 1, 1]);
        let w: Vec<usize> = (0..n)
            .map(|i| match kind {
                0 => c.usize(0, 9),
                1 => c.usize(1, 400),
                2 => {
                    if c.chance(1, 5) {
                        c.usize(1, 100_000)
                    } else {
                        0
                    }
                }
                3 => {
                    if before[i].sc.is_some() {
                        0
                    } else {
                        c.usize(0, 3)
                    }
                }
                _ => 0,
            })
            .collect();
        c.note(format!("workloads of iteration {}: {:?}", iter, w));
        let want = update(iter, &state, &w, &o);
        let got = guard("updating the metric", || defaults::balancing::update_new_metric(iter, &w, &mut g, &cfg))?;
        let after = graph_edges(&g);
        // everything else is as before
        ensure!(after.len() == n, "the number of edges changes");
        for (a, b) in before.iter().zip(&after) {
            ensure!((a.id, a.src, a.dst, a.sc) == (b.id, b.src, b.dst, b.sc), "iteration {}: edge {:?} becomes {:?}", iter, a, b);
            for i in (0..map.dim).filter(|i| *i != k) {
                ensure!(a.metrics[i].to_bits() == b.metrics[i].to_bits(), "iteration {}: metric {} changes from {} to {}, though only {} is balanced", iter, i, a.metrics[i], b.metrics[i], k);
            }
        }
        let means: Option<Vec<f64>> = g.metrics_mut().means().map(|m| m.iter().copied().collect());
        if let (Some(a), Some(b)) = (&means0, &means) {
            for i in (0..map.dim).filter(|i| *i != k) {
                ensure!(a[i].to_bits() == b[i].to_bits(), "iteration {}: the mean of metric {} changes", iter, i);
            }
        }
        ensure!(means.is_some() == means0.is_some(), "means appear or vanish");
        let new: Vec<f64> = after.iter().map(|e| e.metrics[k]).collect();
        match (want, got) {
            (Ok((u, _)), Ok(())) => {
                good += 1;
                varied |= n >= 2 && w.iter().any(|x| *x != w[0]);
                for (i, (x, y)) in u.values.iter().zip(&new).enumerate() {
                    let near = (x - y).abs() <= u.rel * x.abs().max(1.0);
                    ensure!(near, "iteration {}: the new metric of edge {} is {}, expected {} (workload {}, before {})", iter, i, y, x, w[i], state[i]);
                }
                if let Some(m) = &means {
                    ensure!(close(m[k], u.mean, u.rel.max(1e-9) * 10.0), "iteration {}: the mean for denormalising is {}, expected {}", iter, m[k], u.mean);
                    mean_now = Some(m[k]);
                }
                state = new;
            }
            (Err(()), Err(_)) | (Ok((_, true)), Err(_)) => {
                c.label("refused");
                for (a, b) in state.iter().zip(&new) {
                    ensure!(a.to_bits() == b.to_bits(), "iteration {}: a refused update changes the metric", iter);
                }
                ensure!(means.map(|m| m[k].to_bits()) == mean_now.map(|m| m.to_bits()), "iteration {}: a refused update changes the mean", iter);
            }
            (Ok((u, false)), Err(e)) => return Err(format!("iteration {}: the update is refused ({}), expected values {:?}", iter, e, u.values)),
            (Err(()), Ok(())) => return Err(format!("iteration {}: the update succeeds with {:?}, though it has to be refused (zero mean or zero metrics)", iter, new)),
        }
    }
    if normalised {
        c.label("normalised");
    }
    if o.min.is_some() {
        c.label("minimum");
    }
    if before.iter().any(|e| e.sc.is_some()) {
        c.label("shortcuts");
    }
    Ok(if good >= 2 && varied { Verdict::NonTrivial } else { Verdict::Trivial })
}

// ---------------------------------------------------------------------------------------------- //
// stand-ins of the external programs

/// contracts nodes as long as at most `cap` edges result and more than `keep` nodes remain; keeps
/// the routes of every weighting; the remaining nodes share the highest level
pub fn contract_some(c: &mut Ctx, map: &Map, cap: usize, keep: usize) -> Option<Map> {
    let mut out = map.clone();
    let mut remaining: Vec<i64> = map.used_ids().into_iter().collect();
    c.shuffle(&mut remaining);
    let mut level = 0;
    while remaining.len() > keep {
        let v = remaining.pop().unwrap();
        let ins: Vec<usize> = (0..out.edges.len()).filter(|i| out.edges[*i].dst == v && remaining.contains(&out.edges[*i].src)).collect();
        let outs: Vec<usize> = (0..out.edges.len()).filter(|i| out.edges[*i].src == v && remaining.contains(&out.edges[*i].dst)).collect();
        if out.edges.len() + ins.len() * outs.len() > cap {
            remaining.push(v);
            break;
        }
        for n in out.nodes.iter_mut().filter(|n| n.id == v) {
            n.level = level;
        }
        level += 1;
        for a in &ins {
            for b in &outs {
                let (x, y) = (&out.edges[*a], &out.edges[*b]);
                if x.src == y.dst {
                    continue;
                }
                let e = MEdge {
                    id: None,
                    src: x.src,
                    dst: y.dst,
                    metrics: (0..map.dim).map(|k| x.metrics[k] + y.metrics[k]).collect(),
                    sc: Some([*a, *b]),
                };
                out.edges.push(e);
            }
        }
    }
    for n in out.nodes.iter_mut().filter(|n| remaining.contains(&n.id)) {
        n.level = level;
    }
    // shortcuts get ids if all edges have some
    if map.edges.iter().all(|e| e.id.is_some()) {
        let mut next = map.edges.iter().filter_map(|e| e.id).max().unwrap_or(0) + 1;
        for e in out.edges.iter_mut().filter(|e| e.id.is_none()) {
            e.id = Some(next);
            next += 1;
        }
    } else {
        for e in out.edges.iter_mut() {
            if e.sc.is_some() {
                e.id = None;
            }
        }
    }
    if c.flip() {
        shuffle_edges(c, &mut out);
    }
    Some(out)
}

/// `cmake` or `multi-ch`: logs its call and does what the plan in $VSTUB says
pub fn stub(name: &str, args: &[String]) -> ! {
    let dir = PathBuf::from(std::env::var("VSTUB").expect("VSTUB"));
    let calls = dir.join("calls");
    let mut log = std::fs::read_to_string(&calls).unwrap_or_default();
    let nth = log.lines().filter(|l| l.starts_with(&format!("{}\x1f", name))).count();
    log += &format!("{}\x1f{}\n", name, args.join("\x1f"));
    std::fs::write(&calls, log).expect("calls");
    let plan = std::fs::read_to_string(dir.join("plan")).unwrap_or_default();
    let get = |key: &str| -> Option<String> { plan.lines().find_map(|l| l.strip_prefix(&format!("{} ", key)).map(|x| x.to_string())) };
    if get(&format!("fail-{}", name)) == Some(nth.to_string()) {
        std::process::exit(1);
    }
    if get(&format!("kill-{}", name)) == Some(nth.to_string()) {
        unsafe {
            libc::kill(libc::getpid(), libc::SIGKILL);
        }
    }
    let silent = get(&format!("silent-{}", name)) == Some(nth.to_string());
    if name == "cmake" {
        for a in args {
            if let Some(d) = a.strip_prefix("GRAPH_DIM=") {
                std::fs::write(dir.join("dim"), d).expect("dim");
            }
        }
        std::process::exit(0);
    }
    if silent || get("echo").is_some() {
        std::process::exit(0);
    }
    match multi_ch(&dir, args, &get) {
        Ok(()) => std::process::exit(0),
        Err(m) => {
            std::fs::write(dir.join("refused"), &m).expect("refused");
            eprintln!("multi-ch: {}", m);
            std::process::exit(1)
        }
    }
}

fn multi_ch(dir: &Path, args: &[String], get: &dyn Fn(&str) -> Option<String>) -> Result<(), String> {
    let val = |k: &str| -> Result<String, String> {
        let i = args.iter().position(|a| a == k).ok_or(format!("no {}", k))?;
        args.get(i + 1).cloned().ok_or(format!("no value of {}", k))
    };
    let dim: usize = std::fs::read_to_string(dir.join("dim")).map_err(|_| "not built")?.parse().map_err(|_| "bad dimension")?;
    let osm_ids = args.iter().any(|a| a == "--using-osm-ids");
    let edge_ids = args.iter().any(|a| a == "--external-edge-ids");
    let mut lines = tokens(Path::new(&val("--text")?))?.into_iter();
    let mut counts = vec![];
    for _ in 0..3 {
        let l = lines.next().ok_or("truncated")?;
        counts.push(l[0].parse::<usize>().map_err(|_| "bad count")?);
        if l.len() != 1 {
            return Err("bad count".into());
        }
    }
    if counts[0] != dim {
        return Err(format!("the graph has {} metrics, the program is built for {}", counts[0], dim));
    }
    let bad = |l: &[String]| format!("bad line {:?}", l);
    let mut map = Map { dim, nodes: vec![], edges: vec![] };
    for i in 0..counts[1] {
        let l = lines.next().ok_or("truncated")?;
        if l.len() != 6 || l[0] != i.to_string() {
            return Err(bad(&l));
        }
        map.nodes.push(MNode {
            id: l[1].parse().map_err(|_| bad(&l))?,
            lat: l[2].parse().map_err(|_| bad(&l))?,
            lon: l[3].parse().map_err(|_| bad(&l))?,
            level: 0,
        });
    }
    for i in 0..counts[2] {
        let l = lines.next().ok_or("truncated")?;
        if l.len() != 5 + dim {
            return Err(bad(&l));
        }
        let idx = |t: &str| -> Result<i64, String> {
            let k: usize = t.parse().map_err(|_| bad(&l))?;
            map.nodes.get(k).map(|n| n.id).ok_or_else(|| bad(&l))
        };
        let (src, dst) = (idx(&l[1])?, idx(&l[2])?);
        let mut metrics = vec![];
        for t in &l[3..3 + dim] {
            metrics.push(t.parse::<f64>().map_err(|_| bad(&l))?);
        }
        map.edges.push(MEdge { id: Some(if edge_ids { l[0].parse().map_err(|_| bad(&l))? } else { i }), src, dst, metrics, sc: None });
    }
    if lines.next().is_some() {
        return Err("surplus lines".into());
    }
    let seed = get("seed").and_then(|s| s.parse().ok()).unwrap_or(0u64);
    let mut c = Ctx::random(seed, "multi-ch", 0, 100, dir);
    let number = |k: &str, d: usize| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let out = contract_some(&mut c, &map, number("cap", 150), number("keep", 0)).ok_or("no contraction")?;
    let at: BTreeMap<i64, usize> = map.nodes.iter().enumerate().map(|(i, n)| (n.id, i)).collect();
    let mut s = format!("# made by multi-ch\n\n{}\n{}\n{}\n", dim, out.nodes.len(), out.edges.len());
    for (i, n) in out.nodes.iter().enumerate() {
        s += &format!("{} {} {} {} 0 {}\n", i, n.id, n.lat, n.lon, n.level);
    }
    for e in &out.edges {
        let node = |id: i64| if osm_ids { id.to_string() } else { at[&id].to_string() };
        s += &format!("{}{} {} {}", if e.sc.is_some() { "ch" } else { "" }, e.id.unwrap(), node(e.src), node(e.dst));
        for m in &e.metrics {
            s += &format!(" {}", m);
        }
        match e.sc {
            Some([a, b]) => s += &format!(" {} {}\n", a, b),
            None => s += " -1 -1\n",
        }
    }
    std::fs::write(val("--write")?, s).map_err(|e| e.to_string())
}

// ---------------------------------------------------------------------------------------------- //
// the whole run

struct Plan {
    /// metrics of the constructor and metrics kept beside
    routed: usize,
    beside: usize,
    /// position of the new metric among the written ones
    place: usize,
    w0: f64,
    /// denormalise when writing the first time / the final map
    denorm0: bool,
    denorm_end: bool,
    with_default: f64,
}

fn beside_name(i: usize) -> String {
    format!("x{}", i)
}

/// metric columns of the constructor's files
fn columns(p: &Plan, iter: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..p.routed).map(metric_name).collect();
    if iter > 0 {
        v.insert(p.place, "load".into());
    }
    v
}

/// section `parsing` of an iteration; `dir` is put before the files
fn iter_parsing(p: &Plan, iter: usize, dir: &str) -> String {
    let mut y = format!("parsing:\n  map-file: '{}graph.ch.fmi'\n  nodes:\n  - ignored\n  - meta: {{ info: 'NodeId', id: 'node-id' }}\n  - metric: {{ unit: 'Latitude', id: 'lat' }}\n  - metric: {{ unit: 'Longitude', id: 'lon' }}\n  - ignored\n  - meta: {{ info: 'CHLevel', id: 'level' }}\n  edges:\n    will_normalize_metrics_by_mean: false\n    data:\n    - meta: {{ info: 'EdgeId', id: 'edge-id' }}\n    - meta: {{ info: 'SrcId', id: 'src-id' }}\n    - meta: {{ info: 'DstId', id: 'dst-id' }}\n", dir);
    for n in columns(p, iter) {
        y += &format!("    - metric: {{ unit: 'F64', id: '{}' }}\n", n);
    }
    y += "    - meta: { info: 'ShortcutIdx0', id: 'sc0' }\n    - meta: { info: 'ShortcutIdx1', id: 'sc1' }\n  generating:\n    nodes:\n    - meta: { info: 'NodeIdx', id: 'node-idx' }\n    edges:\n    - meta: { info: 'SrcIdx', id: 'src-idx' }\n    - meta: { info: 'DstIdx', id: 'dst-idx' }\n";
    if iter == 0 {
        y += &format!("    - custom: {{ unit: 'F64', id: 'load', default: {} }}\n", p.w0);
    }
    for i in 0..p.beside {
        y += &format!("    - custom: {{ unit: 'F64', id: '{}', default: {} }}\n", beside_name(i), p.with_default);
    }
    if p.beside > 0 {
        y += &format!("    - merge:\n        from: '{}edges-info.csv'\n        edge-id: 'edge-id'\n        edges-info:\n        - id: 'edge-id'\n", dir);
        for i in 0..p.beside {
            y += &format!("        - id: '{}'\n", beside_name(i));
        }
    }
    y
}

fn iter_yaml(p: &Plan, iter: usize) -> String {
    let denorm = iter == 0 && p.denorm0;
    let mut y = format!("writing:\n  graph:\n    map-file: 'graph.fmi'\n    nodes: [{{id: 'node-idx'}}, {{id: 'node-id'}}, {{id: 'lat'}}, {{id: 'lon'}}, ignored, ignored]\n    edges:\n      with_shortcuts: false\n      will_denormalize_metrics_by_mean: {}\n      ids: [{{id: 'edge-id'}}, {{id: 'src-idx'}}, {{id: 'dst-idx'}}", denorm);
    for n in columns(p, iter) {
        y += &format!(", {{id: '{}'}}", n);
    }
    y += &format!(", ignored, ignored]\n  edges-info:\n    file: 'edges-info.csv'\n    with_shortcuts: false\n    will_denormalize_metrics_by_mean: {}\n    ids: [{{id: 'edge-id'}}", denorm);
    for i in 0..p.beside {
        y += &format!(", {{id: '{}'}}", beside_name(i));
    }
    y += "]\n";
    y + &iter_parsing(p, iter, "")
}

/// an edge as a file shows it: id, src, dst, metrics by name, shortcut
#[derive(Clone, Debug)]
struct Row {
    id: usize,
    src: i64,
    dst: i64,
    m: BTreeMap<String, f64>,
    sc: Option<[usize; 2]>,
}

struct Fmi {
    nodes: Vec<MNode>,
    rows: Vec<Row>,
}

/// reads graph.fmi (`by_idx`) or graph.ch.fmi
fn read_fmi(file: &Path, names: &[String], by_idx: bool) -> Result<Fmi, String> {
    let t = tokens(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    ensure!(t.len() >= 3 && t[..3].iter().all(|l| l.len() == 1), "{}: no counts", file.display());
    let n: Vec<usize> = t[..3].iter().map(|l| l[0].parse().unwrap_or(0)).collect();
    ensure!(t.len() == 3 + n[1] + n[2], "{}: {} lines for {} nodes and {} edges", file.display(), t.len(), n[1], n[2]);
    let num = |x: &str| -> Result<f64, String> { x.parse::<f64>().map_err(|_| format!("{}: no number: {}", file.display(), x)) };
    let int = |x: &str| -> Result<i64, String> { x.parse::<i64>().map_err(|_| format!("{}: no integer: {}", file.display(), x)) };
    let mut nodes = vec![];
    for l in &t[3..3 + n[1]] {
        ensure!(l.len() == 6 && l[0] == nodes.len().to_string(), "{}: node {:?}", file.display(), l);
        nodes.push(MNode { id: int(&l[1])?, lat: num(&l[2])?, lon: num(&l[3])?, level: l[5].parse().unwrap_or(0) });
    }
    let mut rows = vec![];
    for l in &t[3 + n[1]..] {
        ensure!(l.len() == 5 + names.len(), "{}: edge {:?}", file.display(), l);
        let id = l[0].strip_prefix("ch").unwrap_or(&l[0]);
        let node = |x: &str| -> Result<i64, String> {
            let k = int(x)?;
            if by_idx {
                nodes.get(k as usize).map(|n: &MNode| n.id).ok_or(format!("{}: node of edge {:?}", file.display(), l))
            } else {
                Ok(k)
            }
        };
        let mut m = BTreeMap::new();
        for (i, name) in names.iter().enumerate() {
            m.insert(name.clone(), num(&l[3 + i])?);
        }
        let k = 3 + names.len();
        let sc = match (l[k].parse::<usize>(), l[k + 1].parse::<usize>()) {
            (Ok(a), Ok(b)) => Some([a, b]),
            _ => None,
        };
        rows.push(Row { id: int(id)? as usize, src: node(&l[1])?, dst: node(&l[2])?, m, sc });
    }
    Ok(Fmi { nodes, rows })
}

/// rows of a csv by edge id
fn read_csv(file: &Path, header: &[String]) -> Result<BTreeMap<usize, Vec<f64>>, String> {
    let s = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let mut l = s.lines();
    let head: Vec<String> = l.next().unwrap_or("").split_whitespace().map(|x| x.to_string()).collect();
    ensure!(head == header, "{}: header {:?}, expected {:?}", file.display(), head, header);
    let mut m = BTreeMap::new();
    for x in l {
        let t: Vec<&str> = x.split_whitespace().collect();
        ensure!(t.len() == header.len(), "{}: row {:?}", file.display(), x);
        let id = t[0].parse().map_err(|_| format!("{}: row {:?}", file.display(), x))?;
        let v: Option<Vec<f64>> = t[1..].iter().map(|y| y.parse::<f64>().ok()).collect();
        ensure!(m.insert(id, v.ok_or(format!("{}: row {:?}", file.display(), x))?).is_none(), "{}: edge {} twice", file.display(), id);
    }
    Ok(m)
}

fn same_rows(what: &str, have: &[Row], want: &BTreeMap<usize, Row>, names: &[String], rel: f64) -> Result<(), String> {
    let ids: BTreeSet<usize> = have.iter().map(|r| r.id).collect();
    ensure!(ids.len() == have.len(), "{}: an edge is listed twice", what);
    let exp: BTreeSet<usize> = want.keys().copied().collect();
    ensure!(ids == exp, "{}: edges {:?}, expected {:?}", what, ids, exp);
    for r in have {
        let w = &want[&r.id];
        ensure!((r.src, r.dst) == (w.src, w.dst), "{}: edge {} leads from {} to {}, expected {} to {}", what, r.id, r.src, r.dst, w.src, w.dst);
        for n in names {
            ensure!(close(r.m[n], w.m[n], rel), "{}: edge {} has {} = {}, expected {}", what, r.id, n, r.m[n], w.m[n]);
        }
    }
    Ok(())
}

const DEFECTS: [&str; 15] = [
    "none",
    "configuring the constructor fails",
    "building the constructor fails",
    "the constructor fails",
    "the constructor is killed",
    "the constructor writes nothing",
    "route pairs missing",
    "unknown node in the pairs",
    "iteration config missing",
    "unknown new metric",
    "no constructor installed",
    "section missing",
    "no section for writing the final map",
    "unknown key",
    "no threads",
];

fn p25(c: &mut Ctx) -> Res {
    let algo = c.weighted(&[3, 4, 2, 2]);
    let explored = algo >= 2;
    let algo_yaml = ["Dijkstra", "CHDijkstra", "{ Explorator: { algo: Dijkstra } }", "{ Explorator: { algo: CHDijkstra } }"][algo];
    c.label(algo_yaml);
    let mut map = if explored {
        explore::gen(c, 12)
    } else {
        gen_map(c, &GraphOpts { max_nodes: 10, max_edges: 30, max_dim: 4, zero: false, ..Default::default() })
    };
    if map.edges.is_empty() {
        return Ok(Verdict::Trivial);
    }
    if map.dim > 4 {
        map.dim = 4;
        for e in map.edges.iter_mut() {
            e.metrics.truncate(4);
        }
    }
    // keep clear of the smallest values
    for e in map.edges.iter_mut() {
        for m in e.metrics.iter_mut() {
            *m = m.max(0.1).min(1e3);
        }
        e.sc = None;
    }
    let (step, first) = (c.usize(1, 3), c.usize(0, 50));
    for (i, e) in map.edges.iter_mut().enumerate() {
        e.id = Some(first + i * step);
    }
    for n in map.nodes.iter_mut() {
        n.level = 0;
    }
    let mut l = gen_layout(c, &map, true);
    l.normalize = c.pick(&[None, Some(false), Some(true), Some(true)]);
    let normalised = l.normalize == Some(true);
    let routed = if explored { c.usize(1, map.dim.min(2)) } else { c.usize(1, map.dim) };
    let p = Plan {
        routed,
        beside: map.dim - routed,
        place: c.usize(0, routed),
        w0: c.pick(&[1.0, 0.5, 3.0]),
        denorm0: c.chance(1, 4),
        denorm_end: c.chance(1, 4),
        with_default: 0.25,
    };
    // the first map has its metrics in the order of its columns; metrics m<routed>.. are kept beside
    for i in p.routed..map.dim {
        l.names[i] = beside_name(i - p.routed);
    }
    for u in l.units.iter_mut() {
        *u = "F64".into();
    }
    let o = {
        let mut o = gen_opt(c);
        if o.min.is_none() && c.chance(2, 3) {
            o.min = Some(0.1);
        }
        if let (Method::Euler(k), None) = (o.method, o.min) {
            if k > 1.0 {
                o.method = Method::Euler(1.0);
            }
        }
        o
    };
    let updates = c.usize(0, 3);
    let iters = updates + 1;
    let defect = if c.chance(1, 4) { c.usize(1, DEFECTS.len() - 1) } else { 0 };
    c.label(DEFECTS[defect]);
    let at_iter = c.usize(0, iters - 1);
    // pairs
    let ids: Vec<i64> = map.used_ids().into_iter().collect();
    let mut pairs: Vec<(i64, i64, usize)> = (0..c.usize(0, 12)).map(|_| (c.pick(&ids), c.pick(&ids), if c.flip() { 1 } else { c.usize(0, 20) })).collect();
    if c.chance(1, 10) {
        let more: Vec<_> = (0..c.usize(50, 150)).map(|_| (c.pick(&ids), c.pick(&ids), c.usize(0, 2))).collect();
        pairs.extend(more);
    }
    if defect == 7 {
        let mut id = ids.iter().max().unwrap().wrapping_add(1);
        while ids.contains(&id) {
            id = id.wrapping_add(3);
        }
        let n = c.usize(1, 3);
        pairs.push(if c.flip() { (id, ids[0], n) } else { (ids[0], id, n) });
    }
    let mut pairs_text = format!("{}\n", pairs.len());
    for (a, b, k) in &pairs {
        pairs_text += &format!("{} {} {}\n", a, b, k);
    }
    // alphas by name
    let mut alphas: BTreeMap<String, f64> = BTreeMap::new();
    for i in 0..p.routed {
        let a = if i == 0 { c.pick(&[1.0, 1.0, 0.5, 2.0]) } else { c.pick(&[1.0, 0.0, 0.25, 3.0]) };
        alphas.insert(metric_name(i), a);
    }
    alphas.insert("load".into(), c.pick(&[1.0, 1.0, 0.5, 4.0, 0.0]));
    // files
    let work = c.path("work");
    let stub_dir = c.path("stub");
    let bin = c.path("bin");
    let ext = work.join("externals/multi-ch-constructor/build");
    for d in &[&work, &stub_dir, &bin, &ext] {
        std::fs::create_dir_all(d).expect("harness: dir");
    }
    let exe = std::env::current_exe().expect("harness: exe");
    std::os::unix::fs::symlink(&exe, bin.join("cmake")).expect("harness: link");
    if defect != 10 {
        std::os::unix::fs::symlink(&exe, ext.join("multi-ch")).expect("harness: link");
    }
    let mut plan = format!("seed {}\nkeep {}\ncap {}\n", c.draw(1_000_000), if c.chance(1, 4) { c.usize(0, 10) } else { 0 }, c.pick(&[150, 60, 300]));
    match defect {
        1 => plan += &format!("fail-cmake {}\n", 2 * at_iter),
        2 => plan += &format!("fail-cmake {}\n", 2 * at_iter + 1),
        3 => plan += &format!("fail-multi-ch {}\n", at_iter),
        4 => plan += &format!("kill-multi-ch {}\n", at_iter),
        5 => plan += &format!("silent-multi-ch {}\n", at_iter),
        _ => (),
    }
    std::fs::write(stub_dir.join("plan"), &plan).expect("harness: plan");
    let lines = functional_lines(c, &l, &map, true);
    let text = render(c, &lines, true);
    std::fs::write(work.join("map.fmi"), &text).expect("harness: map");
    if defect != 6 {
        std::fs::write(work.join("trips.route-pairs"), &pairs_text).expect("harness: pairs");
    }
    if !(defect == 8 && at_iter == 0) {
        std::fs::write(work.join("init.yaml"), iter_yaml(&p, 0)).expect("harness: cfg");
    }
    if !(defect == 8 && at_iter > 0) {
        std::fs::write(work.join("iteration.yaml"), iter_yaml(&p, 1)).expect("harness: cfg");
    }
    let custom = format!("    - custom: {{ unit: 'F64', id: 'load', default: {} }}\n", p.w0);
    let parsing = l.yaml("map.fmi", &format!("  generating:\n    nodes:\n    - meta: {{ info: 'NodeIdx', id: 'node-idx' }}\n    edges:\n    - meta: {{ info: 'SrcIdx', id: 'src-idx' }}\n    - meta: {{ info: 'DstIdx', id: 'dst-idx' }}\n{}", custom));
    let threads = if defect == 14 { Some(0) } else { c.pick(&[None, Some(1), Some(2), Some(3), Some(8)]) };
    let mchc_threads = c.pick(&[None, Some(1), Some(4)]);
    let ratio = c.pick(&[None, Some("99.8"), Some("75")]);
    let smarts = c.pick(&[None, Some(false), Some(true)]);
    let mon_sc = c.flip();
    let mon_names: Vec<String> = {
        let mut v: Vec<String> = (0..p.routed).map(metric_name).collect();
        v.extend((0..p.beside).map(beside_name));
        v.push("load".into());
        c.shuffle(&mut v);
        v
    };
    let seed = c.draw(1000);
    let mut balancing = format!("balancing:\n  results-dir: 'results/here'\n  iter-0-cfg: 'init.yaml'\n  iter-i-cfg: 'iteration.yaml'\n  number_of_metric-updates: {}\n", updates);
    if c.flip() {
        balancing += &format!("  seed: {}\n", seed);
    }
    if let Some(t) = threads {
        balancing += &format!("  number_of_threads: {}\n", t);
    }
    balancing += &opt_yaml(if defect == 9 { "no metric" } else { "load" }, &o);
    balancing += &format!("  multi-ch-constructor:\n    fmi-graph: 'graph.fmi'\n    contracted-graph: 'graph.ch.fmi'\n    dimension: {}\n    is_printing_osm-ids: true\n    is_using_external_edge-ids: true\n", p.routed + 1);
    if let Some(t) = mchc_threads {
        balancing += &format!("    number_of_threads: {}\n", t);
    }
    if let Some(r) = ratio {
        balancing += &format!("    contraction-ratio: '{}'\n", r);
    }
    balancing += "  monitoring:\n";
    if let Some(b) = smarts {
        balancing += &format!("    export_vehicles_for_SMARTS: {}\n", b);
    }
    balancing += &format!("    edges-info:\n      file: 'info.csv'\n      with_shortcuts: {}\n      ids: [{{id: 'edge-id'}}", mon_sc);
    for n in &mon_names {
        balancing += &format!(", {{id: '{}'}}", n);
    }
    balancing += "]\n";
    let mut routing = format!("routing:\n  route-pairs-file: 'trips.route-pairs'\n  algorithm: {}\n  metrics:\n", algo_yaml);
    for (n, a) in &alphas {
        routing += &format!("  - {{ id: '{}', alpha: {} }}\n", n, a);
    }
    let mut names: Vec<String> = (0..p.routed).map(metric_name).collect();
    names.push("load".into());
    names.extend((0..p.beside).map(beside_name));
    let mut writing = format!("writing:\n  graph:\n    map-file: 'elsewhere/final.fmi'\n    nodes: [{{id: 'node-idx'}}, {{id: 'node-id'}}, {{id: 'lat'}}, {{id: 'lon'}}, ignored, ignored]\n    edges:\n      with_shortcuts: false\n      will_denormalize_metrics_by_mean: {}\n      ids: [{{id: 'edge-id'}}, {{id: 'src-idx'}}, {{id: 'dst-idx'}}", p.denorm_end);
    for n in &names {
        writing += &format!(", {{id: '{}'}}", n);
    }
    writing += ", ignored, ignored]\n";
    let mut parts = vec![parsing, routing, writing, balancing];
    if defect == 11 {
        let k = c.pick(&[0usize, 1, 3]);
        parts[k].clear();
    }
    if defect == 12 {
        parts[2].clear();
    }
    if defect == 13 {
        parts[3] += "  unknown-key: 7\n";
    }
    c.shuffle(&mut parts);
    let cfg = parts.concat();
    std::fs::write(work.join("config.yaml"), &cfg).expect("harness: cfg");
    c.note(format!("{}\n--- map.fmi\n{}\n--- init.yaml\n{}\n--- iteration.yaml\n{}\n--- pairs\n{}", cfg, text, iter_yaml(&p, 0), iter_yaml(&p, 1), pairs_text));
    c.note(format!("plan of the stand-ins:\n{}", plan));
    // run
    let mut cmd = Command::new(tool_path("osmgraphing"));
    cmd.args(&["--config", "config.yaml", "--balancing", "--log", "error"]);
    cmd.current_dir(&work).env("VSTUB", &stub_dir).env("PATH", format!("{}:{}", bin.display(), std::env::var("PATH").unwrap_or_default()));
    let ran = run_process(c, cmd)?;
    c.note(format!("{}\n{}", ran.how, tail(&ran)));
    let calls: Vec<Vec<String>> = std::fs::read_to_string(stub_dir.join("calls"))
        .unwrap_or_default()
        .lines()
        .map(|l| l.split('\x1f').map(|x| x.to_string()).collect())
        .collect();
    if let Ok(m) = std::fs::read_to_string(stub_dir.join("refused")) {
        return Err(format!("the constructor is given something unusable: {}", m));
    }
    // results
    let results = work.join("results/here");
    let dirs: Vec<PathBuf> = std::fs::read_dir(&results).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    ensure!(dirs.len() <= 1, "several result directories: {:?}", dirs);
    // in which iteration has the run to end?
    let broken: Option<usize> = match defect {
        0 => None,
        1..=5 => Some(at_iter),
        8 => Some(at_iter.min(1)),
        7 | 10 => Some(0),
        // before anything is stored
        _ => Some(0),
    };
    let early = defect == 11 || defect == 12 || defect == 13;
    if early {
        ensure!(!ran.ok, "{}: the run reports success", DEFECTS[defect]);
        ensure!(dirs.is_empty(), "{}: results are stored in {:?}", DEFECTS[defect], dirs);
        ensure!(calls.is_empty(), "{}: the constructor is called", DEFECTS[defect]);
        return Ok(Verdict::NonTrivial);
    }
    ensure!(dirs.len() == 1, "no results are stored: {} {}", ran.how, tail(&ran));
    let root = &dirs[0];
    ensure!(
        root.file_name().map(|n| n.to_string_lossy().starts_with("utc_")).unwrap_or(false),
        "results are stored in {}",
        root.display()
    );
    ensure!(std::fs::read(root.join("config.yaml")).ok() == Some(cfg.clone().into_bytes()), "the configuration is not copied to the results");
    // state: what every edge should look like before the iteration
    let mut mean_of = vec![1.0; map.dim];
    if normalised {
        for (k, m) in mean_of.iter_mut().enumerate() {
            *m = map.edges.iter().map(|e| e.metrics[k]).sum::<f64>() / map.edges.len() as f64;
        }
    }
    // graphs which are written from the first map: values with or without normalisation
    let first_state = |denorm: bool| -> BTreeMap<usize, Row> {
        map.edges
            .iter()
            .map(|e| {
                let mut m = BTreeMap::new();
                for k in 0..map.dim {
                    let x = e.metrics[k] / mean_of[k];
                    m.insert(l.names[k].clone(), if denorm { x * mean_of[k] } else { x });
                }
                m.insert("load".into(), if normalised && !denorm { 1.0 } else { p.w0 });
                (e.id.unwrap(), Row { id: e.id.unwrap(), src: e.src, dst: e.dst, m, sc: None })
            })
            .collect()
    };
    let final_map = root.join("final.fmi");
    let mut state = first_state(p.denorm0);
    let mut rel = 1e-9;
    let mut driven = 0;
    // iterations which are complete
    let mut failed_at: Option<(usize, &str)> = None;
    for i in 0..iters {
        let dir = root.join(i.to_string());
        if !dir.exists() {
            return Err(format!("iteration {} is missing, the run ends with {}: {}", i, ran.how, tail(&ran)));
        }
        if broken == Some(i) {
            failed_at = Some((i, DEFECTS[defect]));
            break;
        }
        let cols = columns(&p, i);
        ensure!(
            std::fs::read(dir.join("iteration.yaml")).ok() == Some(iter_yaml(&p, i.min(1)).into_bytes()),
            "iteration {}: another configuration is used; the run ends with {}: {}",
            i,
            ran.how,
            tail(&ran)
        );
        if i + 1 == iters {
            let want = if i == 0 { first_state(p.denorm_end) } else { state.clone() };
            let f = read_fmi(&final_map, &names, true)?;
            same_rows("the final map", &f.rows, &want, &names, rel)?;
            check_nodes(&map, &f.nodes)?;
        } else if i == 0 {
            // stored before the last iteration only; see below
        }
        // the constructor's input
        let f = read_fmi(&dir.join("graph.fmi"), &cols, true)?;
        same_rows(&format!("iteration {}: graph.fmi", i), &f.rows, &state, &cols, rel)?;
        check_nodes(&map, &f.nodes)?;
        let mut head = vec!["edge-id".to_string()];
        head.extend((0..p.beside).map(beside_name));
        let info = read_csv(&dir.join("edges-info.csv"), &head)?;
        ensure!(info.len() == state.len(), "iteration {}: edges-info.csv has {} edges, expected {}", i, info.len(), state.len());
        for (id, v) in &info {
            let w = state.get(id).ok_or(format!("iteration {}: edges-info.csv lists an unknown edge {}", i, id))?;
            for (n, x) in head[1..].iter().zip(v) {
                ensure!(close(*x, w.m[n], rel), "iteration {}: edges-info.csv: {} of edge {} is {}, expected {}", i, n, id, x, w.m[n]);
            }
        }
        // its output is what the tool works on
        let ch = read_fmi(&dir.join("graph.ch.fmi"), &cols, false)?;
        let mut full: Vec<Row> = ch.rows;
        let mut tiny = false;
        for r in full.iter_mut() {
            if i == 0 {
                r.m.insert("load".into(), p.w0);
            }
            for x in r.m.values_mut() {
                // very small values are lifted to the smallest one
                if x.abs() < 3e-6 {
                    tiny = true;
                    *x = stored(if x.abs() < 1.5e-6 { 0.0 } else { *x });
                }
            }
            for k in 0..p.beside {
                let n = beside_name(k);
                let x = state.get(&r.id).filter(|_| r.sc.is_none()).map(|s| s.m[&n]).unwrap_or(p.with_default);
                r.m.insert(n, x);
            }
        }
        // routes
        let w_file = dir.join("stats/abs_workloads.csv");
        let old: Vec<f64> = full.iter().map(|r| r.m["load"]).collect();
        if !w_file.exists() {
            // the update is refused: only if no route is driven or zeros are unwanted
            let zeros = o.min.is_none() && o.throw.unwrap_or(true);
            let none = !any_driven(&map, &pairs);
            ensure!(zeros || none, "iteration {}: no workloads are stored, the run ends with {}: {}", i, ran.how, tail(&ran));
            failed_at = Some((i, "no route or zeros"));
            break;
        }
        let w = read_csv(&w_file, &["edge-id".to_string(), "num_routes".to_string()])?;
        let mut al = alphas.clone();
        if i == 0 {
            al.insert("load".into(), 0.0);
        }
        let want: BTreeSet<usize> = full.iter().filter(|r| mon_sc || r.sc.is_none()).map(|r| r.id).collect();
        ensure!(w.keys().copied().collect::<BTreeSet<_>>() == want, "iteration {}: workloads of edges {:?}, expected {:?}", i, w.keys(), want);
        let loads: Vec<usize> = full.iter().map(|r| w.get(&r.id).map(|v| v[0] as usize).unwrap_or(0)).collect();
        check_flow(i, &map, &full, &loads, &pairs, &al, explored)?;
        if explored {
            let g = parse_graph(&iter_parsing(&p, i.min(1), &format!("{}/", dir.display())))?;
            let mut rc = configs::routing::Config::try_from_str(&cfg, g.cfg()).map_err(|e| format!("valid routing section rejected: {}", e))?;
            if i == 0 {
                let k = g.cfg().edges.metrics.try_idx_of(&configs::SimpleId("load".into())).map_err(|e| e.to_string())?;
                rc.alphas[*k] = 0.0;
            }
            check_explored(i, &g, &mut rc, &pairs, &full, &loads)?;
        }
        driven = driven.max(loads.iter().filter(|x| **x > 0).count());
        // vehicles
        let xml = dir.join("stats/smarts.xml");
        if smarts == Some(true) {
            let s = std::fs::read_to_string(&xml).map_err(|e| format!("iteration {}: smarts.xml: {}", i, e))?;
            let mut steps: BTreeMap<(i64, i64), usize> = BTreeMap::new();
            for (_, nodes) in vehicles(&s)? {
                for x in nodes.windows(2) {
                    *steps.entry((x[0], x[1])).or_insert(0) += 1;
                }
            }
            let mut want: BTreeMap<(i64, i64), usize> = BTreeMap::new();
            for (r, n) in full.iter().zip(&loads).filter(|x| *x.1 > 0) {
                *want.entry((r.src, r.dst)).or_insert(0) += n;
            }
            ensure!(steps == want, "iteration {}: vehicles drive {:?}, workloads are {:?}", i, steps, want);
        } else {
            ensure!(!xml.exists(), "iteration {}: vehicles are written though not wanted", i);
        }
        // the update
        match update(i, &old, &loads, &o) {
            Err(()) => return Err(format!("iteration {}: an update with workloads {:?} should be refused", i, loads)),
            Ok((u, _)) => {
                rel = if tiny { 1e-5 } else { rel.max(u.rel * 10.0) };
                for (r, x) in full.iter_mut().zip(&u.values) {
                    r.m.insert("load".into(), *x);
                }
            }
        }
        let mut head = vec!["edge-id".to_string()];
        head.extend(mon_names.iter().cloned());
        let info = read_csv(&dir.join("stats/info.csv"), &head)?;
        ensure!(info.keys().copied().collect::<BTreeSet<_>>() == want, "iteration {}: stats list edges {:?}, expected {:?}", i, info.keys(), want);
        let by_id: BTreeMap<usize, &Row> = full.iter().map(|r| (r.id, r)).collect();
        for (id, v) in &info {
            for (n, x) in mon_names.iter().zip(v) {
                let y = by_id[id].m[n];
                ensure!((x - y).abs() <= rel * y.abs().max(1.0), "iteration {}: stats: {} of edge {} is {}, expected {}", i, n, id, x, y);
            }
        }
        state = full
            .iter()
            .filter(|r| r.sc.is_none())
            .map(|r| {
                let mut r = r.clone();
                // as printed
                let k = mon_names.iter().position(|n| n == "load").unwrap();
                r.m.insert("load".into(), info[&r.id][k]);
                (r.id, r)
            })
            .collect();
        rel = 1e-9;
    }
    if let Some((i, why)) = failed_at {
        ensure!(!ran.ok, "iteration {}: {}: the run reports success", i, why);
        ensure!(!ran.log.trim().is_empty(), "iteration {}: {}: no message", i, why);
        ensure!(!root.join((i + 1).to_string()).exists(), "iteration {}: {}: the run goes on", i, why);
        if i + 1 < iters {
            ensure!(!final_map.exists(), "iteration {}: {}: the final map is stored", i, why);
        }
    } else {
        ensure!(ran.ok, "the run ends with {}: {}", ran.how, tail(&ran));
        ensure!(!root.join(iters.to_string()).exists(), "there are more iterations than wanted");
        ensure!(std::fs::read(root.join("trips.route-pairs")).ok() == Some(pairs_text.clone().into_bytes()), "the route pairs are not copied to the results");
    }
    // calls of the constructor
    let last = failed_at.map(|x| x.0 + 1).unwrap_or(iters);
    let mut want: Vec<Vec<String>> = vec![];
    for i in 0..last {
        let d = root.strip_prefix(&work).unwrap().join(i.to_string());
        let dim = if i == 0 { p.routed } else { p.routed + 1 };
        let cmake = vec!["cmake".to_string(), "-Bbuild".into(), "-D".into(), format!("GRAPH_DIM={}", dim), "-D".into(), "COST_ACCURACY=0.000001".into()];
        want.push(cmake);
        want.push(vec!["cmake".into(), "--build".into(), "build".into()]);
        let f = |n: &str| d.join(n).display().to_string();
        want.push(vec![
            "multi-ch".into(),
            "--threads".into(),
            mchc_threads.unwrap_or(4).to_string(),
            "--using-osm-ids".into(),
            "--external-edge-ids".into(),
            "--text".into(),
            f("graph.fmi"),
            "--percent".into(),
            ratio.unwrap_or("99.8").to_string(),
            "--write".into(),
            f("graph.ch.fmi"),
        ]);
    }
    let cut = match (failed_at, defect) {
        (Some((_, w)), 1) if w == DEFECTS[1] => want.len() - 2,
        (Some((_, w)), 2) if w == DEFECTS[2] => want.len() - 1,
        (Some((_, w)), 8) if w == DEFECTS[8] => want.len() - 3,
        (Some((_, w)), 10) if w == DEFECTS[10] => want.len() - 1,
        _ => want.len(),
    };
    want.truncate(cut);
    if defect != 9 {
        ensure!(same_calls(&calls, &want), "the constructor is called with {:?}, expected {:?}", calls, want);
    }
    if p.beside > 0 {
        c.label("merged columns");
    }
    if normalised {
        c.label("normalised");
    }
    Ok(if (iters >= 2 && driven >= 2 && failed_at.is_none()) || broken.is_some() {
        Verdict::NonTrivial
    } else {
        Verdict::Trivial
    })
}

fn check_nodes(map: &Map, nodes: &[MNode]) -> Result<(), String> {
    let used = map.used_ids();
    let have: BTreeSet<i64> = nodes.iter().map(|n| n.id).collect();
    ensure!(have == used && have.len() == nodes.len(), "nodes {:?}, expected {:?}", have, used);
    for n in nodes {
        let m = map.node(n.id);
        ensure!(n.lat == m.lat && n.lon == m.lon, "node {} is written at {} {}, expected {} {}", n.id, n.lat, n.lon, m.lat, m.lon);
    }
    Ok(())
}

fn any_driven(map: &Map, pairs: &[(i64, i64, usize)]) -> bool {
    let a = vec![1.0; map.dim];
    pairs.iter().any(|(s, t, n)| *n > 0 && s != t && bellman_ford(map, *s, &a, &|_| true).d.contains_key(t))
}

/// conservation of flow and, unless explored, optimal costs
fn check_flow(i: usize, map: &Map, full: &[Row], loads: &[usize], pairs: &[(i64, i64, usize)], al: &BTreeMap<String, f64>, explored: bool) -> Result<(), String> {
    let weight = |r: &Row| -> f64 { al.iter().map(|(n, a)| a * r.m[n]).sum() };
    // the routes of the plain edges decide
    let plain = Map {
        dim: 1,
        nodes: map.nodes.clone(),
        edges: full
            .iter()
            .filter(|r| r.sc.is_none())
            .map(|r| MEdge { id: Some(r.id), src: r.src, dst: r.dst, metrics: vec![weight(r)], sc: None })
            .collect(),
    };
    let mut net: BTreeMap<i64, i64> = BTreeMap::new();
    let (mut total, mut slack) = (0.0, 0.0);
    let mut dists: BTreeMap<i64, Dists> = BTreeMap::new();
    for (s, t, n) in pairs {
        if !dists.contains_key(s) {
            dists.insert(*s, bellman_ford(&plain, *s, &[1.0], &|_| true));
        }
        if let Some(d) = dists[s].d.get(t) {
            *net.entry(*s).or_insert(0) += *n as i64;
            *net.entry(*t).or_insert(0) -= *n as i64;
            total += d * *n as f64;
            slack += 2.0 * tol(map.nodes.len(), *d) * *n as f64;
        }
    }
    let mut out: BTreeMap<i64, i64> = BTreeMap::new();
    let mut cost = 0.0;
    for (r, n) in full.iter().zip(loads) {
        ensure!(r.sc.is_none() || *n == 0, "iteration {}: shortcut {} has workload {}", i, r.id, n);
        *out.entry(r.src).or_insert(0) += *n as i64;
        *out.entry(r.dst).or_insert(0) -= *n as i64;
        cost += weight(r) * *n as f64;
    }
    for id in map.used_ids() {
        let (a, b) = (out.get(&id).unwrap_or(&0), net.get(&id).unwrap_or(&0));
        ensure!(a == b, "iteration {}: {} more routes leave node {} than arrive there, expected {}", i, a, id, b);
    }
    if !explored {
        ensure!((cost - total).abs() <= slack + 1e-9 * total.abs() + 1e-9, "iteration {}: the driven routes cost {}, the best ones {}", i, cost, total);
    }
    Ok(())
}

fn check_explored(i: usize, g: &Graph, rc: &mut configs::routing::Config, pairs: &[(i64, i64, usize)], full: &[Row], loads: &[usize]) -> Result<(), String> {
    if let RoutingAlgo::Explorator { algo } = rc.routing_algo {
        rc.routing_algo = match algo {
            ExploratorAlgo::Dijkstra => RoutingAlgo::Dijkstra,
            ExploratorAlgo::CHDijkstra => RoutingAlgo::CHDijkstra,
        };
    } else {
        return Err("the routing section does not ask for exploring".into());
    }
    let mut ex = ConvexHullExplorator::new();
    let mut dij = Dijkstra::new();
    let mut set = BTreeSet::new();
    let todo: BTreeSet<(i64, i64)> = pairs.iter().map(|p| (p.0, p.1)).collect();
    for (s, t) in todo {
        let q = Query { src_idx: node_idx(g, s).ok_or("node missing")?, dst_idx: node_idx(g, t).ok_or("node missing")?, graph: g, routing_cfg: rc };
        for p in guard("exploring", || ex.fully_explorate(q, &mut dij))? {
            for e in &p.flatten(g) {
                set.insert(g.fwd_edges().try_id(*e).ok_or("edge without id")?);
            }
        }
    }
    for (r, n) in full.iter().zip(loads) {
        ensure!(*n == 0 || set.contains(&r.id), "iteration {}: edge {} has workload {}, but is on no explored route", i, r.id, n);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- //

fn p21(c: &mut Ctx) -> Res {
    const WHAT: [&str; 12] = [
        "none",
        "configuring fails",
        "building fails",
        "constructing fails",
        "the constructor is killed",
        "no constructor installed",
        "no directory of the constructor",
        "configuration missing",
        "required key missing",
        "unknown key",
        "wrong type",
        "no cmake installed",
    ];
    let defect = if c.chance(2, 5) { c.usize(1, WHAT.len() - 1) } else { 0 };
    c.label(WHAT[defect]);
    let work = c.path("work");
    let stub_dir = c.path("stub");
    let bin = c.path("bin");
    let ext = work.join("externals/multi-ch-constructor/build");
    for d in &[&work, &stub_dir, &bin] {
        std::fs::create_dir_all(d).expect("harness: dir");
    }
    if defect != 6 {
        std::fs::create_dir_all(&ext).expect("harness: dir");
    }
    let exe = std::env::current_exe().expect("harness: exe");
    if defect != 11 {
        std::os::unix::fs::symlink(&exe, bin.join("cmake")).expect("harness: link");
    }
    if defect != 5 && defect != 6 {
        std::os::unix::fs::symlink(&exe, ext.join("multi-ch")).expect("harness: link");
    }
    let mut plan = String::from("echo 1\n");
    match defect {
        1 => plan += "fail-cmake 0\n",
        2 => plan += "fail-cmake 1\n",
        3 => plan += "fail-multi-ch 0\n",
        4 => plan += "kill-multi-ch 0\n",
        _ => (),
    }
    std::fs::write(stub_dir.join("plan"), &plan).expect("harness: plan");
    let name = |c: &mut Ctx| -> String {
        let d = c.pick(&["", "", "a/", "some dir/", "/tmp/x/", "../"]);
        let n = c.pick(&["graph", "map", "a b", "--text", "x.y"]);
        let e = c.pick(&[".fmi", ".ch.fmi", ""]);
        format!("{}{}{}", d, n, e)
    };
    let (text, out) = (name(c), name(c));
    let dim = if c.chance(1, 6) { c.pick(&[64usize, 255, 256, 257, 65_536, 1 << 32]) } else { c.usize(0, 12) };
    let acc: Option<f64> = match c.weighted(&[2, 2, 1]) {
        0 => None,
        1 => Some(c.pick(&[0.0001, 0.5, 0.001, 1.0, 1e-6, 2.0])),
        _ => Some(c.draw(1_000_000) as f64 / 1e7),
    };
    let min = c.pick(&[None, None, Some(0.1)]);
    let ratio = c.pick(&[None, None, Some("99.8"), Some("75"), Some("0"), Some("100"), Some("99.99999")]);
    let threads = if c.flip() { Some(if c.chance(1, 4) { c.pick(&[65, 127, 128, 255, 256, 1000, 65_536, 1 << 32, 1 << 40]) } else { c.usize(1, 64) }) } else { None };
    let (osm, ext_ids) = (c.flip(), c.flip());
    let mut keys = vec![
        format!("  fmi-graph: '{}'\n", text),
        format!("  contracted-graph: '{}'\n", out),
        format!("  dimension: {}\n", dim),
        format!("  is_printing_osm-ids: {}\n", osm),
        format!("  is_using_external_edge-ids: {}\n", ext_ids),
    ];
    if defect == 8 {
        let k = c.usize(0, keys.len() - 1);
        keys.remove(k);
    }
    if defect == 9 {
        let k = c.pick(&["  threads: 3\n", "  fmi_graph: 'x'\n", "  Dimension: 2\n"]);
        keys.push(k.to_string());
    }
    if defect == 10 {
        let k = c.pick(&[(2usize, "  dimension: 'two'\n"), (2, "  dimension: -1\n"), (2, "  dimension: 2.5\n"), (3, "  is_printing_osm-ids: 7\n"), (4, "  is_using_external_edge-ids: [true]\n")]);
        keys[k.0] = k.1.to_string();
    }
    if let Some(a) = acc {
        keys.push(format!("  cost-accuracy: {}\n", a));
    }
    if let Some(m) = min {
        keys.push(format!("  minimum-cost: {}\n", m));
    }
    if let Some(r) = ratio {
        keys.push(format!("  contraction-ratio: '{}'\n", r));
    }
    if let Some(t) = threads {
        keys.push(format!("  number_of_threads: {}\n", t));
    }
    c.shuffle(&mut keys);
    let mut parts = vec![format!("multi-ch-constructor:\n{}", keys.concat())];
    if c.chance(1, 4) {
        parts.push("other-section:\n  dimension: 77\n  number_of_threads: 78\n".into());
    }
    c.shuffle(&mut parts);
    let yaml = parts.concat();
    if defect != 7 {
        std::fs::write(work.join("config.yaml"), &yaml).expect("harness: cfg");
    }
    c.note(format!("{}\n{}", WHAT[defect], yaml));
    let mut cmd = Command::new(tool_path("multi-ch-constructor"));
    let flag = c.pick(&["--config", "-c"]);
    cmd.args(&[flag, "config.yaml"]);
    let level = c.pick(&[None, Some("error"), Some("DEBUG")]);
    if let Some(l) = level {
        cmd.args(&["--log", l]);
    }
    cmd.current_dir(&work).env("VSTUB", &stub_dir).env("PATH", &bin);
    let ran = run_process(c, cmd)?;
    c.note(ran.how.clone());
    let calls: Vec<Vec<String>> = std::fs::read_to_string(stub_dir.join("calls"))
        .unwrap_or_default()
        .lines()
        .map(|l| l.split('\x1f').map(|x| x.to_string()).filter(|x| !x.is_empty()).collect())
        .collect();
    let s = |x: &[&str]| -> Vec<String> { x.iter().map(|y| y.to_string()).collect() };
    let mut last = s(&["multi-ch", "--threads", &threads.unwrap_or(4).to_string()]);
    if osm {
        last.push("--using-osm-ids".into());
    }
    if ext_ids {
        last.push("--external-edge-ids".into());
    }
    last.extend(s(&["--text", &text, "--percent", ratio.unwrap_or("99.8"), "--write", &out]));
    let mut want = vec![
        s(&["cmake", "-Bbuild", "-D", &format!("GRAPH_DIM={}", dim), "-D", &format!("COST_ACCURACY={}", acc.unwrap_or(0.0001))]),
        s(&["cmake", "--build", "build"]),
        last,
    ];
    want.truncate(match defect {
        0 | 3 | 4 => 3,
        1 => 1,
        2 | 5 => 2,
        _ => 0,
    });
    ensure!(ran.ok == (defect == 0), "{}: the tool ends with {}: {}", WHAT[defect], ran.how, tail(&ran));
    if defect != 0 {
        ensure!(!ran.log.trim().is_empty(), "{}: no message", WHAT[defect]);
    }
    ensure!(same_calls(&calls, &want), "{}: the external programs are called with {:?}, expected {:?}", WHAT[defect], calls, want);
    let optional = acc.is_some() || ratio.is_some() || threads.is_some() || min.is_some();
    Ok(if optional || defect != 0 { Verdict::NonTrivial } else { Verdict::Trivial })
}

/// options may come in any order, each with its value
fn same_calls(a: &[Vec<String>], b: &[Vec<String>]) -> bool {
    let norm = |call: &Vec<String>| -> Vec<Vec<String>> {
        let mut groups: Vec<Vec<String>> = vec![];
        let mut i = 0;
        while i < call.len() {
            let with_value = ["-D", "--threads", "--text", "--percent", "--write", "--build"].contains(&call[i].as_str());
            let n = if with_value && i + 1 < call.len() { 2 } else { 1 };
            groups.push(call[i..i + n].to_vec());
            i += n;
        }
        groups[1..].sort();
        groups
    };
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| norm(x) == norm(y))
}
