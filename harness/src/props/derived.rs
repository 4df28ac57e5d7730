//! P10, P11, P14: derived metrics, normalisation, edge tables
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::building::gen_rich_map;
use crate::props::fmi::{complete_ids, parse_graph};
use crate::text::*;
use osmgraphing::{
    configs,
    io::network::edges::Writer,
    network::{EdgeIdx, Graph, MetricIdx, NodeIdx},
};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P10",
            run: p10,
            quick: 200_000,
            thorough: 4_000_000,
            rule: "a case is a generated map plus a generated list of 1-6 generating steps over all kinds and unit pairs (possibly with one defect); non-trivial: at least two steps apply, or a defect has to be reported",
            level: "exploration",
            assumptions: &["at most 5 metrics in total (the built-in dimension)"],
        },
        Prop {
            id: "P11",
            run: p11,
            quick: 120_000,
            thorough: 1_500_000,
            rule: "a case is a map parsed with and without normalisation, optionally with generated metrics, and written as map or csv with and without denormalisation; non-trivial: at least two edges with different values of a metric",
            level: "exploration",
            assumptions: &[],
        },
        Prop {
            id: "P14",
            run: p14,
            quick: 140_000,
            thorough: 1_500_000,
            rule: "a case is a graph whose edge table is exported with a random selection of columns, checked row by row, and a table (partial, permuted, with ignored columns) merged into a graph; non-trivial: at least two edges and either three columns or at least one merged row",
            level: "exploration",
            assumptions: &["every edge id is listed at most once in a merged table"],
        },
    ]
}

// ---------------------------------------------------------------------------------------------- //
// formulas of the oracle

pub fn convert(from: &str, to: &str, x: f64) -> Option<f64> {
    if from == to || from == "F64" || to == "F64" {
        return Some(x);
    }
    let len = |u: &str| match u {
        "Meters" => Some(1.0),
        "Kilometers" => Some(1000.0),
        _ => None,
    };
    let time = |u: &str| match u {
        "Seconds" => Some(1.0),
        "Minutes" => Some(60.0),
        "Hours" => Some(3600.0),
        _ => None,
    };
    for f in [&len as &dyn Fn(&str) -> Option<f64>, &time].iter() {
        if let (Some(a), Some(b)) = (f(from), f(to)) {
            return Some(x * a / b);
        }
    }
    None
}

pub fn calc(result: &str, ua: &str, a: f64, ub: &str, b: f64) -> Option<f64> {
    match (result, ua, ub) {
        ("Hours", "Kilometers", "KilometersPerHour") => Some(a / b),
        ("Minutes", "Kilometers", "KilometersPerHour") => Some(a / b * 60.0),
        ("Seconds", "Kilometers", "KilometersPerHour") => Some(a / b * 3600.0),
        ("KilometersPerHour", "Kilometers", "Hours") => Some(a / b),
        _ => None,
    }
}

/// great-circle distance by vectors (not by the haversine formula)
pub fn great_circle(lat1: f64, lon1: f64, lat2: f64, lon2: f64) -> f64 {
    let v = |lat: f64, lon: f64| {
        let (la, lo) = (lat.to_radians(), lon.to_radians());
        [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()]
    };
    let (p, q) = (v(lat1, lon1), v(lat2, lon2));
    let cross = [
        p[1] * q[2] - p[2] * q[1],
        p[2] * q[0] - p[0] * q[2],
        p[0] * q[1] - p[1] * q[0],
    ];
    let s = cross.iter().map(|x| x * x).sum::<f64>().sqrt();
    let d: f64 = p.iter().zip(&q).map(|(a, b)| a * b).sum();
    6371.0 * s.atan2(d)
}

fn same_value(have: f64, want: f64) -> bool {
    have.to_bits() == want.to_bits()
        || (have.is_nan() && want.is_nan())
        || (have - want).abs() <= 1e-11 * want.abs()
}

#[derive(Clone, Debug)]
struct Metric {
    unit: String,
    id: String,
    vals: Vec<f64>,
    /// absolute slack, for values that come from a distance
    slack: f64,
}

fn coords(g: &Graph, i: usize) -> ((f64, f64), (f64, f64)) {
    let s = g.nodes().coord(g.bwd_edges().dst_idx(EdgeIdx(i)));
    let d = g.nodes().coord(g.fwd_edges().dst_idx(EdgeIdx(i)));
    ((s.lat, s.lon), (d.lat, d.lon))
}

fn p10(c: &mut Ctx) -> Res {
    let mut map = gen_rich_map(c, &GraphOpts { max_nodes: 8, max_edges: 14, max_dim: 4, ..Default::default() });
    complete_ids(&mut map);
    let mut l = gen_layout(c, &map, true);
    if c.flip() {
        // units which may be calculated with
        for u in l.units.iter_mut() {
            *u = c.pick(&["Kilometers", "KilometersPerHour", "Hours", "Meters", "Seconds"]).to_string();
        }
    }
    // columns do not matter when the builder is used directly
    let base = l.yaml("x.fmi", "");
    c.note(map.describe());
    let g0 = map
        .build_with(parse_cfg(&base).map_err(|e| format!("valid configuration rejected: {}", e))?)
        .map_err(|m| format!("valid map rejected: {}", m))?;
    let n = g0.fwd_edges().count();
    let mut ms: Vec<Metric> = (0..map.dim)
        .map(|k| Metric {
            unit: l.units[k].clone(),
            id: l.names[k].clone(),
            vals: (0..n).map(|i| g0.metrics()[EdgeIdx(i)][k]).collect(),
            slack: 0.0,
        })
        .collect();
    let mut ids: Vec<Option<usize>> = (0..n).map(|i| g0.fwd_edges().try_id(EdgeIdx(i))).collect();
    let mut metas: Vec<(String, String)> = vec![]; // info, id
    let parsed: Vec<String> = l.e.iter().filter(|e| !matches!(e, ECol::Metric(_) | ECol::Ign)).map(|e| l.edge_name(*e)).collect();
    let mut defect = false;
    let mut y = String::new();
    let want_defect = c.chance(1, 4);
    let steps = c.usize(1, 6);
    let defect_at = if want_defect { c.usize(0, steps - 1) } else { usize::MAX };
    let mut applied = 0;
    let mut fresh = 0;
    for s in 0..steps {
        if defect {
            break;
        }
        fresh += 1;
        let new_id = format!("{}{}", c.pick(&["n", "gen-", "x"]), fresh);
        let bad = s == defect_at;
        let kind = if ms.len() >= MAX_DIM { c.pick(&[2usize, 5, 2]) } else { c.weighted(&[2, 3, 3, 3, 2, 2]) };
        let show = |m: &str, id: &str| format!("{{ unit: '{}', id: '{}' }}", m, id);
        // a defective name
        let mut bad_name = false;
        let mut tid = new_id.clone();
        if bad && c.flip() {
            // every name which exists at this point
            let mut all: Vec<String> = parsed.clone();
            all.extend(ms.iter().map(|m| m.id.clone()));
            all.extend(metas.iter().map(|m| m.1.clone()));
            tid = c.pick(&all);
            bad_name = true;
        }
        match kind {
            0 => {
                let unit = if bad && !bad_name { c.pick(&UNITS).to_string() } else { "Kilometers".to_string() };
                y += &format!("    - haversine: {}\n", show(&unit, &tid));
                defect |= unit != "Kilometers" || bad_name;
                let vals: Vec<f64> = (0..n)
                    .map(|i| {
                        let (s, d) = coords(&g0, i);
                        great_circle(s.0, s.1, d.0, d.1)
                    })
                    .collect();
                ms.push(Metric { unit, id: tid, vals, slack: 1e-9 });
                c.label("haversine");
                applied += 1;
            }
            1 | 2 => {
                let k = c.usize(0, ms.len() - 1);
                let fu = if c.flip() { ms[k].unit.clone() } else { c.pick(&UNITS).to_string() };
                let choices: Vec<&str> = UNITS.iter().copied().filter(|u| convert(&fu, u, 1.0).is_some()).collect();
                let tu = if bad && !bad_name { c.pick(&UNITS).to_string() } else { c.pick(&choices).to_string() };
                let ok = convert(&fu, &tu, 1.0).is_some();
                defect |= !ok;
                let vals: Vec<f64> = ms[k].vals.iter().map(|x| convert(&fu, &tu, *x).unwrap_or(0.0)).collect();
                let slack = ms[k].slack * convert(&fu, &tu, 1.0).unwrap_or(1.0);
                if kind == 1 {
                    y += &format!("    - copy:\n        from: {}\n        to: {}\n", show(&fu, &ms[k].id), show(&tu, &tid));
                    defect |= bad_name;
                        ms.push(Metric { unit: tu, id: tid, vals, slack });
                    c.label("copy");
                } else {
                    // renaming in place to its own name is fine
                    if !bad_name && c.chance(1, 3) {
                        tid = ms[k].id.clone();
                    }
                    if bad_name && tid != ms[k].id {
                        defect = true;
                    }
                    y += &format!("    - convert:\n        from: {}\n        to: {}\n", show(&fu, &ms[k].id), show(&tu, &tid));
                    ms[k] = Metric { unit: tu, id: tid, vals, slack };
                    c.label("convert");
                }
                applied += 1;
            }
            3 => {
                let (i, j) = (c.usize(0, ms.len() - 1), c.usize(0, ms.len() - 1));
                let (mut r, mut a, mut b) = c.pick(&[
                    ("Hours", "Kilometers", "KilometersPerHour"),
                    ("Minutes", "Kilometers", "KilometersPerHour"),
                    ("Seconds", "Kilometers", "KilometersPerHour"),
                    ("KilometersPerHour", "Kilometers", "Hours"),
                ]);
                if bad && !bad_name {
                    match c.usize(0, 3) {
                        0 => r = c.pick(&UNITS),
                        1 => a = c.pick(&UNITS),
                        2 => b = c.pick(&UNITS),
                        _ => {
                            r = c.pick(&UNITS);
                            a = c.pick(&UNITS);
                            b = c.pick(&UNITS);
                        }
                    }
                }
                defect |= bad_name || calc(r, a, 1.0, b, 1.0).is_none();
                y += &format!(
                    "    - calc:\n        result: {}\n        a: {}\n        b: {}\n",
                    show(r, &tid),
                    show(a, &ms[i].id),
                    show(b, &ms[j].id)
                );
                let vals: Vec<f64> = (0..n).map(|k| calc(r, a, ms[i].vals[k], b, ms[j].vals[k]).unwrap_or(0.0)).collect();
                // relative accuracy of distances is not available if they are tiny
                let slack = if ms[i].slack > 0.0 || ms[j].slack > 0.0 { std::f64::INFINITY } else { 0.0 };
                let slack = if ms[j].slack == 0.0 && ms[i].slack > 0.0 && ms[i].slack.is_finite() {
                    let worst = ms[j].vals.iter().cloned().fold(f64::INFINITY, f64::min);
                    ms[i].slack / worst * 3600.0
                } else {
                    slack
                };
                ms.push(Metric { unit: r.to_string(), id: tid, vals, slack });
                c.label("calc");
                applied += 1;
            }
            4 => {
                let unit = if c.flip() { Some(c.pick(&UNITS)) } else { None };
                let v = if c.flip() { Some(gen_value(c, Values::General, true)) } else { None };
                y += &format!("    - custom: {{ id: '{}'", tid);
                if let Some(u) = unit {
                    y += &format!(", unit: '{}'", u);
                }
                if let Some(v) = v {
                    y += &format!(", default: {:?}", v);
                }
                y += " }\n";
                defect |= bad_name;
                ms.push(Metric { unit: unit.unwrap_or("F64").to_string(), id: tid, vals: vec![v.unwrap_or(0.0); n], slack: 0.0 });
                c.label("custom");
                applied += 1;
            }
            _ => {
                let info = c.pick(&["EdgeId", "SrcIdx", "DstIdx", "SrcLat", "SrcLon", "DstLat", "DstLon"]);
                y += &format!("    - meta: {{ info: '{}', id: '{}' }}\n", info, tid);
                defect |= bad_name;
                if info == "EdgeId" {
                    ids = (0..n).map(Some).collect();
                    c.label("ids generated");
                }
                metas.push((info.to_string(), tid));
                applied += 1;
            }
        }
        if bad && !defect && tid_unknown(c, &mut y, &ms, fresh) {
            defect = true;
            c.label("unknown metric");
        }
    }
    let full = l.yaml("x.fmi", &format!("  generating:\n    nodes:\n    - meta: {{ info: 'NodeIdx', id: 'node-idx' }}\n    edges:\n{}", y));
    c.note(&full);
    let cfg = guard("reading the configuration", || parse_cfg(&full))?.map_err(|e| format!("configuration rejected: {}", e))?;
    let res = guard("building", || map.build_with(cfg))?;
    if defect {
        ensure!(res.is_err(), "a generating-step without defined result, or an existing name, is accepted");
        c.label("defect reported");
        return Ok(Verdict::NonTrivial);
    }
    let g = res.map_err(|m| format!("valid generating-section rejected: {}", m))?;
    ensure!(g.fwd_edges().count() == n, "{} edges instead of {}", g.fwd_edges().count(), n);
    let cm = &g.cfg().edges.metrics;
    ensure!(
        cm.ids.iter().map(|i| i.0.clone()).eq(ms.iter().map(|m| m.id.clone())),
        "metrics are {:?}, expected {:?}",
        cm.ids,
        ms.iter().map(|m| m.id.clone()).collect::<Vec<_>>()
    );
    ensure!(
        cm.units.iter().map(|u| format!("{:?}", u)).eq(ms.iter().map(|m| m.unit.clone())),
        "units are {:?}, expected {:?}",
        cm.units,
        ms.iter().map(|m| m.unit.clone()).collect::<Vec<_>>()
    );
    let cats: Vec<(String, String)> = g
        .cfg()
        .edges
        .categories
        .iter()
        .filter_map(|x| match x {
            osmgraphing::configs::parsing::edges::Category::Metric { unit, id } => Some((id.0.clone(), format!("{:?}", unit))),
            _ => None,
        })
        .collect();
    for m in &ms {
        ensure!(
            cats.iter().filter(|x| x.0 == m.id).count() == 1 && cats.contains(&(m.id.clone(), m.unit.clone())),
            "columns are {:?}, expected {} in {}",
            cats,
            m.id,
            m.unit
        );
    }
    for i in 0..n {
        let e = EdgeIdx(i);
        let have = &g.metrics()[e];
        ensure!(have.len() == ms.len(), "edge {} has {} metrics, expected {}", i, have.len(), ms.len());
        for (k, m) in ms.iter().enumerate() {
            let (s, d) = coords(&g0, i);
            let gc = great_circle(s.0, s.1, d.0, d.1);
            let antipodal = m.slack > 0.0 && gc > 20000.0;
            ensure!(
                same_value(have[k], m.vals[i]) || (have[k] - m.vals[i]).abs() <= m.slack + 1e-9 * (m.slack > 0.0) as u8 as f64 * m.vals[i].abs() || antipodal || m.slack.is_infinite(),
                "metric {} ({}) of the edge {}->{} is {:?}, expected {:?}",
                m.id,
                m.unit,
                g.nodes().id(g.bwd_edges().dst_idx(e)),
                g.nodes().id(g.fwd_edges().dst_idx(e)),
                have[k],
                m.vals[i]
            );
        }
        ensure!(g.fwd_edges().try_id(e) == ids[i], "edge {} has id {:?}, expected {:?}", i, g.fwd_edges().try_id(e), ids[i]);
        if let Some(id) = ids[i] {
            let j = g.fwd_edges().try_idx_from(id).map_err(|m| format!("edge id {} is not found: {}", id, m))?;
            ensure!(*j == i, "edge id {} is found at edge {}, expected {}", id, j, i);
        }
    }
    // all the rest is untouched
    let (a, b) = (graph_edges(&g0), graph_edges(&g));
    for (x, y) in a.iter().zip(&b) {
        ensure!((x.src, x.dst, x.sc) == (y.src, y.dst, y.sc), "edge changed from {:?} to {:?}", x, y);
    }
    Ok(if applied >= 2 { Verdict::NonTrivial } else { Verdict::Trivial })
}

/// a step that uses a metric which does not exist
fn tid_unknown(c: &mut Ctx, y: &mut String, ms: &[Metric], fresh: usize) -> bool {
    if ms.len() >= MAX_DIM {
        return false;
    }
    let id = format!("new{}", fresh);
    let none = c.pick(&["nope", "M0", "src-id", "ignored"]);
    match c.usize(0, 2) {
        0 => *y += &format!("    - copy:\n        from: {{ unit: 'F64', id: '{}' }}\n        to: {{ unit: 'F64', id: '{}' }}\n", none, id),
        1 => *y += &format!("    - convert:\n        from: {{ unit: 'F64', id: '{}' }}\n        to: {{ unit: 'F64', id: '{}' }}\n", none, id),
        _ => {
            *y += &format!(
                "    - calc:\n        result: {{ unit: 'Hours', id: '{}' }}\n        a: {{ unit: 'Kilometers', id: '{}' }}\n        b: {{ unit: 'KilometersPerHour', id: '{}' }}\n",
                id,
                none,
                ms[0].id
            )
        }
    }
    true
}

// ---------------------------------------------------------------------------------------------- //

/// rows of a csv-file without header
fn csv_rows(path: &std::path::Path) -> Result<(Vec<String>, Vec<Vec<String>>), String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("written file cannot be read: {}", e))?;
    ensure!(s.ends_with('\n'), "written file does not end with a complete line");
    let mut it = s.lines().map(|l| l.split(' ').map(|t| t.to_string()).collect::<Vec<_>>());
    let header = it.next().unwrap_or_default();
    Ok((header, it.collect()))
}

fn edges_cfg(file: &std::path::Path, ids: &[Option<String>], shortcuts: Option<bool>, denorm: Option<bool>) -> (String, Result<configs::writing::network::edges::Config, String>) {
    let mut y = format!("writing:\n  edges-info:\n    file: '{}'\n", file.display());
    if let Some(b) = shortcuts {
        y += &format!("    with_shortcuts: {}\n", b);
    }
    if let Some(b) = denorm {
        y += &format!("    will_denormalize_metrics_by_mean: {}\n", b);
    }
    y += "    ids:\n";
    for id in ids {
        y += &match id {
            Some(id) => format!("    - id: '{}'\n", id),
            None => "    - ignored\n".to_string(),
        };
    }
    let cfg = serde_yaml::from_str(&y).map_err(|e| format!("valid writing-configuration rejected: {}", e));
    (y, cfg)
}

fn p11(c: &mut Ctx) -> Res {
    if c.chance(1, 40) {
        // no edges, hence no mean
        let dim = c.usize(1, 5);
        let mut l = gen_layout(c, &Map { dim, nodes: vec![], edges: vec![] }, true);
        l.normalize = Some(true);
        let nodes = c.usize(0, 3);
        let map = Map {
            dim,
            nodes: (0..nodes).map(|i| MNode { id: i as i64, lat: 1.0, lon: 2.0, level: 0 }).collect(),
            edges: vec![],
        };
        let lines = functional_lines(c, &l, &map, true);
        let text = render(c, &lines, true);
        let file = c.write("map.fmi", text.as_bytes());
        let y = l.yaml(file.to_str().unwrap(), "");
        c.note(format!("{}--- map.fmi\n{}", y, text));
        let cfg = parse_cfg(&y).map_err(|e| format!("valid configuration rejected: {}", e))?;
        let r = guard("parsing", || osmgraphing::io::network::graph::Parser::parse_and_finalize(cfg))?;
        ensure!(r.is_err(), "normalising a graph without edges is accepted");
        c.label("no edges");
        return Ok(Verdict::NonTrivial);
    }
    let mut map = gen_rich_map(c, &GraphOpts { max_nodes: 10, max_edges: 24, max_dim: 4, ..Default::default() });
    complete_ids(&mut map);
    if c.size <= 100 && c.chance(1, 6) {
        // spread which makes values vanish
        let k = c.usize(0, map.dim - 1);
        let all: Vec<Option<usize>> = map.edges.iter().map(|e| e.id).collect();
        for e in map.edges.iter_mut() {
            let copies = all.iter().filter(|x| x.is_some() && **x == e.id).count();
            if c.flip() && copies < 2 {
                e.metrics[k] = c.pick(&[1e-5, 3e-5, 1e7, 2e9, 0.5]);
            }
        }
    }
    let mut l = gen_layout(c, &map, true);
    let plain = c.flip();
    let lines = functional_lines(c, &l, &map, true);
    let text = render(c, &lines, true);
    let file = c.write("map.fmi", text.as_bytes());
    let mut gen = String::new();
    let mut names = l.names.clone();
    let mut hav = None;
    if !plain {
        gen += "  generating:\n    nodes: []\n    edges:\n";
        if c.flip() {
            gen += "    - custom: { id: 'cst', default: 2.5 }\n";
            names.push("cst".into());
        } else {
            gen += "    - haversine: { unit: 'Kilometers', id: 'hav' }\n";
            hav = Some(names.len());
            names.push("hav".into());
        }
        if !map.edges.iter().any(|e| e.id.is_some()) {
            gen += "    - meta: { info: 'EdgeId', id: 'edge-id' }\n";
        }
    }
    let has_ids = map.edges.iter().any(|e| e.id.is_some()) || !plain;
    let y0 = l.yaml(file.to_str().unwrap(), &gen);
    l.normalize = Some(true);
    let y1 = l.yaml(file.to_str().unwrap(), &gen);
    c.note(format!("{}--- map.fmi\n{}", y1, text));
    let g0 = parse_graph(&y0)?;
    let n = g0.fwd_edges().count();
    let dim = names.len();
    let raw: Vec<Vec<f64>> = (0..n).map(|i| g0.metrics()[EdgeIdx(i)].to_vec()).collect();
    let means: Vec<f64> = (0..dim).map(|k| raw.iter().map(|r| r[k]).sum::<f64>() / n as f64).collect();
    for k in 0..dim {
        ensure!(g0.metrics().mean(MetricIdx(k)).is_none(), "a mean is given although nothing is normalised");
    }
    // a mean of (nearly) 0 or without finite value cannot be used
    if means.iter().any(|m| m.abs() < 3e-6 || !m.is_finite()) {
        let cfg = parse_cfg(&y1)?;
        let r = guard("parsing", || osmgraphing::io::network::graph::Parser::parse_and_finalize(cfg))?;
        if means.iter().any(|m| *m == 0.0) {
            ensure!(r.is_err(), "a mean of 0 is accepted for normalising");
            c.label("mean is zero");
        }
        return Ok(Verdict::Trivial);
    }
    let g = parse_graph(&y1)?;
    ensure!(g.fwd_edges().count() == n, "{} edges instead of {}", g.fwd_edges().count(), n);
    ensure!(g.metrics().dim() == dim, "{} metrics instead of {}", g.metrics().dim(), dim);
    for k in 0..dim {
        let m = g.metrics().mean(MetricIdx(k)).ok_or("the mean of a normalised metric is not available")?;
        ensure!(close(m, means[k], 1e-10), "mean of {} is {}, expected {}", names[k], m, means[k]);
    }
    let mut clipped = false;
    for i in 0..n {
        let have = &g.metrics()[EdgeIdx(i)];
        ensure!(have.len() == dim, "edge {} has {} metrics, expected {}", i, have.len(), dim);
        for k in 0..dim {
            let want = raw[i][k] / means[k];
            let vanish = have[k] == EPS && want <= 2.0 * EPS;
            clipped |= vanish;
            ensure!(
                vanish || (close(have[k], want, 1e-10) && want >= 1.4 * EPS),
                "normalised {} of edge {} is {:?}, expected {:?}",
                names[k],
                i,
                have[k],
                want
            );
        }
    }
    // writing raw and normalised values
    let with_sc = if c.flip() { Some(c.flip()) } else { None };
    let denorm = match c.usize(0, 2) {
        0 => Some(true),
        1 => Some(false),
        _ => None,
    };
    let keep: Vec<usize> = (0..n).filter(|i| with_sc == Some(true) || !g.fwd_edges().is_shortcut(EdgeIdx(*i))).collect();
    let as_csv = c.flip();
    let mut order: Vec<usize> = (0..dim).collect();
    if c.flip() {
        c.shuffle(&mut order);
    }
    let rows: Vec<Vec<String>> = if as_csv {
        let out = c.path("out.csv");
        let mut ids: Vec<Option<String>> = order.iter().map(|k| Some(names[*k].clone())).collect();
        if has_ids {
            ids.push(Some("edge-id".into()));
        } else {
            ids.push(None);
        }
        let (y, cfg) = edges_cfg(&out, &ids, with_sc, denorm);
        c.note(format!("--- {}", y));
        let cfg = cfg?;
        guard("writing", || Writer::write(&g, &cfg))?.map_err(|e| format!("writing fails: {}", e))?;
        csv_rows(&out)?.1
    } else {
        let out = c.path("out.fmi");
        let mut y = format!("writing:\n  graph:\n    map-file: '{}'\n    nodes:\n    - id: 'node-id'\n    edges:\n", out.display());
        if let Some(b) = with_sc {
            y += &format!("      with_shortcuts: {}\n", b);
        }
        if let Some(b) = denorm {
            y += &format!("      will_denormalize_metrics_by_mean: {}\n", b);
        }
        y += "      ids:\n";
        for k in &order {
            y += &format!("      - id: '{}'\n", names[*k]);
        }
        c.note(format!("--- {}", y));
        let cfg: configs::writing::network::graph::Config =
            serde_yaml::from_str(&y).map_err(|e| format!("valid writing-configuration rejected: {}", e))?;
        guard("writing", || osmgraphing::io::network::graph::Writer::write(&g, &cfg))?.map_err(|e| format!("writing fails: {}", e))?;
        let t = super::fmi::tokens(&out)?;
        let skip = 3 + g.nodes().count();
        ensure!(t.len() >= skip, "written map has {} lines only", t.len());
        t[skip..].to_vec()
    };
    ensure!(rows.len() == keep.len(), "{} edges are written, expected {}", rows.len(), keep.len());
    for (row, i) in rows.iter().zip(&keep) {
        for (tok, k) in row.iter().zip(&order) {
            let x: f64 = tok.parse().map_err(|_| format!("'{}' is no number", tok))?;
            let norm = g.metrics()[EdgeIdx(*i)][*k];
            if denorm == Some(true) {
                let rel = if Some(*k) == hav { 1e-10 } else { 1e-12 };
                let ok = if norm == EPS { (x - raw[*i][*k]).abs() <= 2.0 * EPS * means[*k] * 1.001 } else { close(x, raw[*i][*k], rel) };
                ensure!(ok, "{} of edge {} is written as {}, the raw value is {}", names[*k], i, x, raw[*i][*k]);
            } else {
                ensure!(x.to_bits() == norm.to_bits(), "{} of edge {} is written as {}, the normalised value is {}", names[*k], i, x, norm);
            }
        }
    }
    if denorm == Some(true) {
        c.label("denormalised");
    }
    if clipped {
        c.label("vanishing values");
    }
    if hav.is_some() {
        c.label("generated metric");
    }
    let spread = (0..dim).any(|k| raw.iter().any(|r| r[k] != raw[0][k]));
    Ok(if n >= 2 && spread { Verdict::NonTrivial } else { Verdict::Trivial })
}

// ---------------------------------------------------------------------------------------------- //

fn p14(c: &mut Ctx) -> Res {
    let mut map = gen_rich_map(c, &GraphOpts { max_nodes: 10, max_edges: 20, max_dim: 3, ..Default::default() });
    complete_ids(&mut map);
    let own_ids = map.edges.iter().any(|e| e.id.is_some());
    let l = gen_layout(c, &map, true);
    // with generated columns
    let mut gen = String::from("  generating:\n    nodes: []\n    edges:\n");
    let infos = ["SrcIdx", "DstIdx", "SrcLat", "SrcLon", "DstLat", "DstLon"];
    for i in infos.iter() {
        gen += &format!("    - meta: {{ info: '{}', id: 'c-{}' }}\n", i, i);
    }
    let id_name = if own_ids { "edge-id" } else { "gen-id" };
    if !own_ids {
        gen += "    - meta: { info: 'EdgeId', id: 'gen-id' }\n";
    }
    gen += "    - custom: { id: 'work', default: 1.5 }\n";
    let y = l.yaml("x.fmi", &gen);
    c.note(map.describe());
    c.note(&y);
    let cfg = parse_cfg(&y).map_err(|e| format!("valid configuration rejected: {}", e))?;
    let g = map.build_with(cfg).map_err(|m| format!("valid map rejected: {}", m))?;
    let ge = graph_edges(&g);
    let n = ge.len();

    // export
    let mut avail: Vec<String> = vec![id_name.into(), "src-id".into(), "dst-id".into()];
    avail.extend(infos.iter().map(|i| format!("c-{}", i)));
    avail.extend(l.names.iter().cloned());
    avail.push("work".into());
    if l.has(ECol::Sc0) {
        avail.push("sc0".into());
        avail.push("sc1".into());
    }
    let k = c.usize(1, 7);
    let mut cols: Vec<Option<String>> = (0..k).map(|_| if c.chance(1, 8) { None } else { Some(c.pick(&avail)) }).collect();
    if c.flip() {
        cols.push(Some(id_name.into()));
        c.shuffle(&mut cols);
    }
    let with_sc = if c.flip() { Some(c.flip()) } else { None };
    let out = c.path("out.csv");
    let (wy, wcfg) = edges_cfg(&out, &cols, with_sc, None);
    c.note(format!("--- {}", wy));
    let wcfg = wcfg?;
    guard("writing", || Writer::write(&g, &wcfg))?.map_err(|e| format!("writing fails: {}", e))?;
    let (header, rows) = csv_rows(&out)?;
    ensure!(header.len() == cols.len(), "header {:?} does not fit the columns {:?}", header, cols);
    for (h, col) in header.iter().zip(&cols) {
        if let Some(col) = col {
            ensure!(h == col, "header {:?} does not fit the columns {:?}", header, cols);
        }
    }
    let keep: Vec<usize> = (0..n).filter(|i| with_sc == Some(true) || ge[*i].sc.is_none()).collect();
    ensure!(rows.len() == keep.len(), "{} rows, expected {}", rows.len(), keep.len());
    let nodes = g.nodes();
    let mut want: Vec<Vec<String>> = vec![];
    for i in &keep {
        let e = &ge[*i];
        let (s, d) = (g.bwd_edges().dst_idx(EdgeIdx(*i)), g.fwd_edges().dst_idx(EdgeIdx(*i)));
        want.push(
            cols.iter()
                .map(|col| match col.as_ref().map(|x| x.as_str()) {
                    None => "_".to_string(),
                    Some("edge-id") | Some("gen-id") => e.id.map(|i| i.to_string()).unwrap_or_default(),
                    Some("src-id") => e.src.to_string(),
                    Some("dst-id") => e.dst.to_string(),
                    Some("c-SrcIdx") => s.to_string(),
                    Some("c-DstIdx") => d.to_string(),
                    Some("c-SrcLat") => canon(nodes.coord(s).lat),
                    Some("c-SrcLon") => canon(nodes.coord(s).lon),
                    Some("c-DstLat") => canon(nodes.coord(d).lat),
                    Some("c-DstLon") => canon(nodes.coord(d).lon),
                    Some("sc0") => e.sc.map(|s| s[0].to_string()).unwrap_or_else(|| "-1".into()),
                    Some("sc1") => e.sc.map(|s| s[1].to_string()).unwrap_or_else(|| "-1".into()),
                    Some("work") => canon(1.5),
                    Some(m) => canon(e.metrics[l.names.iter().position(|n| n == m).expect("harness: column")]),
                })
                .collect(),
        );
    }
    let mut have: Vec<Vec<String>> = vec![];
    for r in &rows {
        ensure!(r.len() == cols.len(), "row {:?} has {} columns, expected {}", r, r.len(), cols.len());
        let mut h = vec![];
        for (t, col) in r.iter().zip(&cols) {
            let name = col.as_ref().map(|x| x.as_str()).unwrap_or("");
            let float = name.contains("Lat") || name.contains("Lon") || name == "work" || l.names.iter().any(|n| n == name);
            h.push(if col.is_none() {
                "_".to_string()
            } else if float {
                t.parse::<f64>().map(canon).unwrap_or_else(|_| t.clone())
            } else {
                t.clone()
            });
        }
        have.push(h);
    }
    let mut a = want.clone();
    let mut b = have.clone();
    a.sort();
    b.sort();
    if a != b {
        let miss = a.iter().find(|x| !b.contains(x));
        let extra = b.iter().find(|x| !a.contains(x));
        return Err(format!("exported table differs: columns {:?}, expected row {:?}, unexpected row {:?}", cols, miss, extra));
    }

    // merge
    let kind_all = c.flip();
    let mut targets: Vec<usize> = (0..n).filter(|_| kind_all || c.chance(2, 3)).collect();
    c.shuffle(&mut targets);
    let mut mcols: Vec<Option<String>> = vec![Some(id_name.into())];
    let mut pool: Vec<String> = l.names.clone();
    pool.push("work".into());
    let mut k = c.usize(1, pool.len());
    c.shuffle(&mut pool);
    while k > 0 {
        mcols.push(pool.pop());
        k -= 1;
    }
    for _ in 0..c.usize(0, 2) {
        mcols.push(None);
    }
    c.shuffle(&mut mcols);
    let header = match c.usize(0, 2) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    };
    let mut text = String::new();
    if header != Some(false) {
        text += &mcols.iter().map(|m| m.clone().unwrap_or_else(|| "_".into())).collect::<Vec<_>>().join(" ");
        text += "\n";
    }
    let mut expect: BTreeMap<(usize, String), f64> = BTreeMap::new();
    for i in &targets {
        let mut row: Vec<String> = vec![];
        for m in &mcols {
            row.push(match m {
                None => c.pick(&["_", "x", "3", "NaN"]).to_string(),
                Some(id) if id == id_name => ge[*i].id.expect("harness: id").to_string(),
                Some(id) => {
                    // unlike in map-files, zeros are taken as they are
                    let v = if c.chance(1, 8) { 0.0 } else { gen_value(c, Values::General, true) };
                    expect.insert((*i, id.clone()), v);
                    if v == 0.0 {
                        c.pick(&["0", "0.0", "0e3", "+0", ".0"]).to_string()
                    } else {
                        format!("{}", v)
                    }
                }
            });
        }
        if c.chance(1, 12) {
            row.push("surplus".into());
        }
        if c.chance(1, 12) {
            text += c.pick(&["\n", "# note\n"]);
        }
        text += &row.join(" ");
        text += "\n";
    }
    // a defect: an id which does not exist, no value, no number
    let defect = if c.chance(1, 6) { c.usize(1, 5) } else { 0 };
    // names which do not fit: not a metric of the graph, no column with the edge's id
    let mut names_in_cfg = mcols.clone();
    if defect == 4 {
        let at: Vec<usize> = (0..mcols.len()).filter(|k| mcols[*k].as_ref().map(|x| x != id_name).unwrap_or(false)).collect();
        let k = c.pick(&at);
        names_in_cfg[k] = Some(c.pick(&["nope", "M0", "src-id", "c-SrcIdx", "work2", "m"]).to_string());
    }
    if defect == 5 {
        for m in names_in_cfg.iter_mut() {
            if m.as_ref().map(|x| x == id_name).unwrap_or(false) {
                *m = None;
            }
        }
    }
    if defect > 0 && (defect < 4 || targets.is_empty()) {
        let unknown = ge.iter().filter_map(|e| e.id).max().unwrap_or(0) + 1;
        let row: Vec<String> = mcols
            .iter()
            .map(|m| match m {
                None => "_".to_string(),
                Some(id) if id == id_name => if defect == 1 { unknown.to_string() } else { ge[0].id.unwrap().to_string() },
                Some(_) => if defect == 2 { "abc".to_string() } else { "1".to_string() },
            })
            .collect();
        let row = if defect == 3 {
            // cut behind some column, in front of a needed one
            let last = mcols.iter().rposition(|m| m.is_some()).unwrap();
            row[..c.usize(1.min(last), last)].to_vec()
        } else {
            row
        };
        if row.is_empty() {
            text += "";
        } else {
            text += &format!("{}\n", row.join(" "));
        }
        if row.is_empty() {
            return Ok(Verdict::Trivial);
        }
    }
    let csv = c.write("merge.csv", text.as_bytes());
    let mut gen2 = gen.clone();
    gen2 += &format!("    - merge:\n        from: '{}'\n        edge-id: '{}'\n", csv.display(), id_name);
    if let Some(h) = header {
        gen2 += &format!("        with_header-line: {}\n", h);
    }
    gen2 += "        edges-info:\n";
    for m in &names_in_cfg {
        gen2 += &match m {
            None => "        - ignored\n".to_string(),
            Some(id) => format!("        - id: '{}'\n", id),
        };
    }
    c.note(format!("--- {}--- merge.csv\n{}", gen2, text));
    let cfg = parse_cfg(&l.yaml("x.fmi", &gen2)).map_err(|e| format!("valid configuration rejected: {}", e))?;
    let res = guard("merging", || map.build_with(cfg))?;
    if defect > 0 {
        ensure!(res.is_err(), "a table with an unknown edge id, a missing column, an unknown metric or no number is accepted");
        c.label("defect reported");
        return Ok(Verdict::NonTrivial);
    }
    let h = res.map_err(|m| format!("merging fails: {}", m))?;
    let he = graph_edges(&h);
    ensure!(he.len() == n, "{} edges after merging, expected {}", he.len(), n);
    let mut names = l.names.clone();
    names.push("work".into());
    for i in 0..n {
        ensure!((he[i].id, he[i].src, he[i].dst, he[i].sc) == (ge[i].id, ge[i].src, ge[i].dst, ge[i].sc), "edge changed from {:?} to {:?}", ge[i], he[i]);
        for (k, name) in names.iter().enumerate() {
            let want = expect.get(&(i, name.clone())).copied().unwrap_or(ge[i].metrics[k]);
            ensure!(
                he[i].metrics[k].to_bits() == want.to_bits(),
                "{} of edge {:?} is {} after merging, expected {}",
                name,
                ge[i].id,
                he[i].metrics[k],
                want
            );
        }
    }
    // exporting and merging back restores the values
    if c.flip() && with_sc == Some(true) {
        let mut all: Vec<Option<String>> = vec![Some(id_name.into())];
        all.extend(names.iter().map(|x| Some(x.clone())));
        c.shuffle(&mut all);
        let out = c.path("all.csv");
        let (_, w) = edges_cfg(&out, &all, Some(true), None);
        let w = w?;
        guard("writing", || Writer::write(&h, &w))?.map_err(|e| format!("writing fails: {}", e))?;
        let mut gen3 = gen.clone();
        gen3 += &format!("    - merge:\n        from: '{}'\n        edge-id: '{}'\n        edges-info:\n", out.display(), id_name);
        for m in &all {
            gen3 += &format!("        - id: '{}'\n", m.as_ref().unwrap());
        }
        let cfg = parse_cfg(&l.yaml("x.fmi", &gen3)).map_err(|e| format!("valid configuration rejected: {}", e))?;
        let r = guard("merging", || map.build_with(cfg))?.map_err(|m| format!("merging an exported table fails: {}", m))?;
        let re = graph_edges(&r);
        for i in 0..n {
            ensure!(
                re[i].metrics.iter().map(|x| x.to_bits()).eq(he[i].metrics.iter().map(|x| x.to_bits())),
                "edge {:?} has {:?} after exporting and merging back, expected {:?}",
                he[i].id,
                re[i].metrics,
                he[i].metrics
            );
        }
        c.label("export and merge back");
    }
    if !targets.is_empty() {
        c.label("merged");
    }
    let _ = NodeIdx(0);
    Ok(if n >= 2 && (cols.len() >= 3 || !targets.is_empty()) { Verdict::NonTrivial } else { Verdict::Trivial })
}

fn canon(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
