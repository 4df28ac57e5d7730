#![allow(dead_code)]
use osmgraphing::{
    configs,
    io::network::graph::Parser,
    network::{EdgeIdx, Graph, NodeIdx},
    routing::{dijkstra::{Dijkstra, Query}, paths::Path},
};

/// parsing-section: node-id level lat lon / [edge-id] src dst sc0 sc1 metrics
pub fn yaml(file: &str, with_edge_ids: bool, metrics: &[(&str, &str)], rest: &str) -> String {
    let mut y = format!("parsing:\n  map-file: '{}'\n  nodes:\n  - meta: {{ info: 'NodeId', id: 'node-id' }}\n  - meta: {{ info: 'CHLevel', id: 'level' }}\n  - metric: {{ unit: 'Latitude', id: 'lat' }}\n  - metric: {{ unit: 'Longitude', id: 'lon' }}\n  edges:\n    data:\n", file);
    if with_edge_ids {
        y += "    - meta: { info: 'EdgeId', id: 'edge-id' }\n";
    }
    y += "    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n    - meta: { info: 'ShortcutIdx0', id: 'sc0' }\n    - meta: { info: 'ShortcutIdx1', id: 'sc1' }\n";
    for (unit, id) in metrics {
        y += &format!("    - metric: {{ unit: '{}', id: '{}' }}\n", unit, id);
    }
    y + rest
}

pub fn load(y: &str) -> Result<Graph, String> {
    let cfg: configs::parsing::Config = serde_yaml::from_str(y).map_err(|e| e.to_string())?;
    Parser::parse_and_finalize(cfg).map_err(|e| e.to_string())
}

pub fn fmi(nodes: &[&str], edges: &[&str]) -> String {
    let mut s = format!("{}\n{}\n", nodes.len(), edges.len());
    for l in nodes.iter().chain(edges) {
        s += l;
        s.push('\n');
    }
    s
}

pub fn routing(g: &Graph, algo: &str, metrics: &[(&str, f64)]) -> configs::routing::Config {
    let mut y = format!("routing:\n  algorithm: {}\n  metrics:\n", algo);
    for (id, a) in metrics {
        y += &format!("  - {{ id: '{}', alpha: {} }}\n", id, a);
    }
    configs::routing::Config::try_from_str(&y, g.cfg()).map_err(|e| e.to_string()).unwrap()
}

/// route between two node-ids, expanded
pub fn route(d: &mut Dijkstra, g: &Graph, cfg: &configs::routing::Config, src: i64, dst: i64) -> Option<Path> {
    let q = Query { src_idx: g.nodes().idx_from(src).unwrap(), dst_idx: g.nodes().idx_from(dst).unwrap(), graph: g, routing_cfg: cfg };
    d.compute_best_path(q).map(|p| p.flatten(g))
}

pub fn node_ids(g: &Graph, p: &Path) -> Vec<i64> {
    let mut v = vec![g.nodes().id(p.src_idx())];
    for e in p {
        v.push(g.nodes().id(g.fwd_edges().dst_idx(*e)));
    }
    v
}

pub fn edge(i: usize) -> EdgeIdx {
    EdgeIdx(i)
}
pub fn node(i: usize) -> NodeIdx {
    NodeIdx(i)
}
