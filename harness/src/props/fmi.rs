//! P08, P09: text maps
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::building::{check_content, gen_rich_map};
use crate::text::*;
use osmgraphing::{
    configs,
    io::network::graph::{Parser, Writer},
    network::{EdgeIdx, Graph, NodeIdx},
};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P08",
            run: p08,
            quick: 200_000,
            thorough: 3_000_000,
            rule: "a case is a map written by the harness with a random order of columns, junk in ignored columns, surplus counts, comments and blank lines; non-trivial: column order differs from the blueprint's and at least one ignored column, comment, 'ch' id or shortcut exists",
            level: "exploration",
            assumptions: &["edge lines carry all configured columns; shortcut columns are both set or both -1"],
        },
        Prop {
            id: "P09",
            run: p09,
            quick: 200_000,
            thorough: 2_000_000,
            rule: "a case is a graph parsed from a generated text map, written with a random selection and order of columns and parsed again; non-trivial: at least two edges, and columns are reordered or shortcuts exist",
            level: "exploration",
            assumptions: &["metric values are finite and at least 1e-5 or exactly 0, so they are not touched by the smallest-value rule"],
        },
    ]
}

/// gives every edge an id if some have one
pub fn complete_ids(map: &mut Map) {
    if map.edges.iter().all(|e| e.id.is_none()) {
        return;
    }
    let mut next = map.edges.iter().filter_map(|e| e.id).max().unwrap() + 1;
    for e in map.edges.iter_mut() {
        if e.id.is_none() {
            e.id = Some(next);
            next += 1;
        }
    }
}

pub fn parse_graph(y: &str) -> Result<Graph, String> {
    try_parse(y)?.map_err(|e| format!("valid map rejected: {}", e))
}

/// the configuration has to be accepted, the map may be rejected
pub fn try_parse(y: &str) -> Result<Result<Graph, String>, String> {
    let cfg = guard("reading the configuration", || parse_cfg(y))?.map_err(|e| format!("valid configuration rejected: {}", e))?;
    guard("parsing", || Parser::parse_and_finalize(cfg).map_err(|e| e.to_string()))
}

fn p08(c: &mut Ctx) -> Res {
    let mut map = gen_rich_map(c, &GraphOpts { max_nodes: 12, max_edges: 30, ..Default::default() });
    complete_ids(&mut map);
    let l = gen_layout(c, &map, false);
    if !l.has_level() {
        for n in map.nodes.iter_mut() {
            n.level = 0;
        }
    }
    let lines = functional_lines(c, &l, &map, false);
    let text = render(c, &lines, false);
    let file = c.write("map.fmi", text.as_bytes());
    let y = l.yaml(file.to_str().unwrap(), "");
    c.note(format!("{}\n--- map.fmi\n{}", y, text));
    let g = parse_graph(&y)?;
    check_content(&map, &g)?;
    // the configured names belong to the right values
    let cfg = g.cfg();
    ensure!(
        cfg.edges.metrics.ids.iter().map(|i| i.0.clone()).eq(l.names.iter().cloned()),
        "metric names are {:?}, expected {:?}",
        cfg.edges.metrics.ids,
        l.names
    );
    for (i, n) in l.names.iter().enumerate() {
        let idx = cfg.edges.metrics.try_idx_of(&configs::SimpleId(n.clone())).map_err(|e| e.to_string())?;
        ensure!(*idx == i, "metric {} has index {}, expected {}", n, idx, i);
    }
    let first = l.n.first() != Some(&NCol::Id) || l.e.first() != Some(&ECol::Src);
    let extra = l.n.contains(&NCol::Ign) || l.e.contains(&ECol::Ign) || text.contains('#') || text.contains("ch") || map.edges.iter().any(|e| e.sc.is_some());
    if text.contains('#') {
        c.label("comments");
    }
    if map.edges.iter().any(|e| e.sc.is_some()) {
        c.label("shortcuts");
    }
    if l.has(ECol::Id) {
        c.label("edge ids");
    }
    if l.e.contains(&ECol::Ign) || l.n.contains(&NCol::Ign) {
        c.label("ignored columns");
    }
    Ok(if first && extra { Verdict::NonTrivial } else { Verdict::Trivial })
}

// ---------------------------------------------------------------------------------------------- //

/// reads a text file into functional lines of tokens
pub fn tokens(path: &std::path::Path) -> Result<Vec<Vec<String>>, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("written file cannot be read: {}", e))?;
    ensure!(s.is_empty() || s.ends_with('\n'), "written file does not end with a complete line");
    Ok(s.lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| l.split_whitespace().map(|t| t.to_string()).collect())
        .collect())
}

pub fn same_graph(a: &Graph, b: &Graph) -> Result<(), String> {
    ensure!(a.nodes().count() == b.nodes().count(), "{} nodes instead of {}", b.nodes().count(), a.nodes().count());
    for i in 0..a.nodes().count() {
        let i = NodeIdx(i);
        let (x, y) = (a.nodes(), b.nodes());
        ensure!(x.id(i) == y.id(i), "node {}: id {} instead of {}", i, y.id(i), x.id(i));
        ensure!(
            x.coord(i).lat.to_bits() == y.coord(i).lat.to_bits() && x.coord(i).lon.to_bits() == y.coord(i).lon.to_bits(),
            "node {}: coordinate {:?} instead of {:?}",
            x.id(i),
            y.coord(i),
            x.coord(i)
        );
        ensure!(x.level(i) == y.level(i), "node {}: level {} instead of {}", x.id(i), y.level(i), x.level(i));
    }
    let (x, y) = (graph_edges(a), graph_edges(b));
    ensure!(x.len() == y.len(), "{} edges instead of {}", y.len(), x.len());
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        ensure!(
            (p.id, p.src, p.dst, p.sc) == (q.id, q.src, q.dst, q.sc),
            "edge {} is {:?} instead of {:?}",
            i,
            q,
            p
        );
        ensure!(
            p.metrics.iter().map(|m| m.to_bits()).eq(q.metrics.iter().map(|m| m.to_bits())),
            "edge {} has metrics {:?} instead of {:?}",
            i,
            q.metrics,
            p.metrics
        );
    }
    Ok(())
}

fn p09(c: &mut Ctx) -> Res {
    let mut map = gen_rich_map(c, &GraphOpts { max_nodes: 12, max_edges: 30, ..Default::default() });
    complete_ids(&mut map);
    let l = gen_layout(c, &map, true);
    if !l.has_level() {
        for n in map.nodes.iter_mut() {
            n.level = 0;
        }
    }
    let lines = functional_lines(c, &l, &map, true);
    let text = render(c, &lines, true);
    let file = c.write("map.fmi", text.as_bytes());
    let y = l.yaml(file.to_str().unwrap(), "");
    c.note(format!("{}\n--- map.fmi\n{}", y, text));
    let g = parse_graph(&y)?;

    // output columns: all of them in another order, some additional ones
    let mut ncols = l.n.clone();
    let mut ecols: Vec<(ECol, bool)> = l.e.iter().map(|e| (*e, true)).collect();
    let reorder = c.flip();
    for _ in 0..c.usize(0, 2) {
        ncols.push(NCol::Ign);
    }
    for _ in 0..c.usize(0, 2) {
        ecols.push((ECol::Ign, true));
    }
    // repeated columns, which are ignored when reading
    for _ in 0..c.usize(0, 1) {
        let e = c.pick(&l.e);
        ecols.push((e, false));
    }
    if reorder {
        c.shuffle(&mut ncols);
        c.shuffle(&mut ecols);
    }
    let with_sc = c.weighted(&[3, 1, 1]); // true, false, default (false)
    let out = c.path("out.fmi");
    let mut w = format!("writing:\n  graph:\n    map-file: '{}'\n    nodes:\n", out.display());
    for n in &ncols {
        w += &match n {
            NCol::Ign => "    - ignored\n".to_string(),
            n => format!("    - id: '{}'\n", Layout::node_name(*n)),
        };
    }
    w += "    edges:\n";
    match with_sc {
        0 => w += "      with_shortcuts: true\n",
        1 => w += "      with_shortcuts: false\n",
        _ => (),
    }
    w += "      ids:\n";
    for (e, _) in &ecols {
        w += &match e {
            ECol::Ign => "      - ignored\n".to_string(),
            e => format!("      - id: '{}'\n", l.edge_name(*e)),
        };
    }
    c.note(format!("--- {}", w));
    let wcfg: configs::writing::network::graph::Config =
        serde_yaml::from_str(&w).map_err(|e| format!("valid writing-configuration rejected: {}", e))?;
    guard("writing", || Writer::write(&g, &wcfg))?.map_err(|e| format!("writing fails: {}", e))?;

    // content of the file
    let t = tokens(&out)?;
    let ge = graph_edges(&g);
    let keep: Vec<usize> = (0..ge.len()).filter(|i| with_sc == 0 || ge[*i].sc.is_none()).collect();
    let n_nodes = g.nodes().count();
    let n_metrics = ecols.iter().filter(|(e, _)| matches!(e, ECol::Metric(_))).count();
    ensure!(
        t.len() == 3 + n_nodes + keep.len(),
        "file has {} lines with content, expected {} (3 counts, {} nodes, {} edges)",
        t.len(),
        3 + n_nodes + keep.len(),
        n_nodes,
        keep.len()
    );
    ensure!(
        t[0] == [n_metrics.to_string()] && t[1] == [n_nodes.to_string()] && t[2] == [keep.len().to_string()],
        "counts are {:?}, expected {} metrics, {} nodes and {} edges",
        &t[..3],
        n_metrics,
        n_nodes,
        keep.len()
    );
    for (i, line) in t[3..3 + n_nodes].iter().enumerate() {
        let idx = NodeIdx(i);
        ensure!(line.len() == ncols.len(), "node line {:?} has {} columns, expected {}", line, line.len(), ncols.len());
        for (col, tok) in ncols.iter().zip(line) {
            let ok = match col {
                NCol::Id => *tok == g.nodes().id(idx).to_string(),
                NCol::Level => *tok == g.nodes().level(idx).to_string(),
                NCol::Lat => tok.parse::<f64>().ok().map(|x| x.to_bits()) == Some(g.nodes().coord(idx).lat.to_bits()),
                NCol::Lon => tok.parse::<f64>().ok().map(|x| x.to_bits()) == Some(g.nodes().coord(idx).lon.to_bits()),
                NCol::Ign => true,
            };
            ensure!(ok, "column {:?} of node {} is {}", col, g.nodes().id(idx), tok);
        }
    }
    for (i, line) in keep.iter().zip(&t[3 + n_nodes..]) {
        let e = &ge[*i];
        ensure!(line.len() == ecols.len(), "edge line {:?} has {} columns, expected {}", line, line.len(), ecols.len());
        for ((col, _), tok) in ecols.iter().zip(line) {
            let ok = match col {
                ECol::Id => Some(tok.clone()) == e.id.map(|x| x.to_string()),
                ECol::Src => *tok == e.src.to_string(),
                ECol::Dst => *tok == e.dst.to_string(),
                ECol::Sc0 => *tok == e.sc.map(|s| s[0].to_string()).unwrap_or_else(|| "-1".into()),
                ECol::Sc1 => *tok == e.sc.map(|s| s[1].to_string()).unwrap_or_else(|| "-1".into()),
                ECol::Metric(k) => tok.parse::<f64>().ok().map(|x| x.to_bits()) == Some(e.metrics[*k].to_bits()),
                ECol::Ign => true,
            };
            ensure!(ok, "column {:?} of edge {:?} is {}", col, e, tok);
        }
    }

    // read back, with the corresponding configuration
    let names: Vec<String> = l.names.clone();
    let mut order = vec![];
    let e2: Vec<ECol> = ecols
        .iter()
        .map(|(e, first)| {
            if !first {
                ECol::Ign
            } else if let ECol::Metric(k) = e {
                order.push(*k);
                ECol::Metric(order.len() - 1)
            } else {
                *e
            }
        })
        .collect();
    let l2 = Layout {
        n: ncols.clone(),
        e: e2,
        units: order.iter().map(|k| l.units[*k].clone()).collect(),
        names: order.iter().map(|k| names[*k].clone()).collect(),
        normalize: None,
    };
    let y2 = l2.yaml(out.to_str().unwrap(), "");
    let empty_after = keep.is_empty();
    if !empty_after {
        let h = parse_graph(&y2)?;
        let mut expect: Vec<GEdge> = keep.iter().map(|i| ge[*i].clone()).collect();
        for e in expect.iter_mut() {
            e.metrics = order.iter().map(|k| e.metrics[*k]).collect();
        }
        // a value 0 is stored as 1e-6, so parallel edges may become equal within accuracy only now
        let mut groups: BTreeMap<(Option<usize>, i64, i64), Vec<&GEdge>> = BTreeMap::new();
        for e in &expect {
            groups.entry((e.id, e.src, e.dst)).or_default().push(e);
        }
        let loose = groups.values().any(|g| {
            g.iter().enumerate().any(|(i, a)| {
                g[i + 1..].iter().any(|b| a.metrics.iter().zip(&b.metrics).all(|(x, y)| (x - y).abs() <= 2.0 * EPS))
            })
        });
        if with_sc == 0 && !loose {
            let have = graph_edges(&h);
            ensure!(have.len() == expect.len(), "{} edges after reading back, expected {}", have.len(), expect.len());
            for i in 0..have.len() {
                ensure!(
                    have[i] == expect[i] && have[i].metrics.iter().map(|x| x.to_bits()).eq(expect[i].metrics.iter().map(|x| x.to_bits())),
                    "edge {} is {:?} after reading back, expected {:?}",
                    i,
                    have[i],
                    expect[i]
                );
            }
            if order.windows(2).all(|w| w[0] < w[1]) {
                same_graph(&g, &h)?;
            }
        } else {
            // without shortcuts: the original edges (equal ones may be merged now)
            c.label("compared up to merging");
            let m2 = Map {
                dim: map.dim,
                nodes: (0..n_nodes)
                    .map(|i| {
                        let i = NodeIdx(i);
                        MNode {
                            id: g.nodes().id(i),
                            lat: g.nodes().coord(i).lat,
                            lon: g.nodes().coord(i).lon,
                            level: g.nodes().level(i),
                        }
                    })
                    .collect(),
                edges: expect
                    .iter()
                    .map(|e| MEdge { id: e.id, src: e.src, dst: e.dst, metrics: e.metrics.clone(), sc: e.sc })
                    .collect(),
            };
            check_content(&m2, &h)?;
        }
        // edges by id (as a user would look them up)
        for e in graph_edges(&h) {
            if let Some(id) = e.id {
                let i = h.fwd_edges().try_idx_from(id).map_err(|m| m.to_string())?;
                ensure!(h.fwd_edges().try_id(EdgeIdx(*i)) == Some(id), "edge id {} is found at another edge", id);
            }
        }
    }
    if with_sc != 0 && keep.len() < ge.len() {
        c.label("shortcuts excluded");
    }
    if with_sc == 0 && ge.iter().any(|e| e.sc.is_some()) {
        c.label("shortcuts written");
    }
    if reorder {
        c.label("columns reordered");
    }
    Ok(if ge.len() >= 2 && (reorder || ge.iter().any(|e| e.sc.is_some())) {
        Verdict::NonTrivial
    } else {
        Verdict::Trivial
    })
}
