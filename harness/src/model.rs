//! The reference model of a map and generators for it, independent of the code under test.
use crate::engine::Ctx;
use kissunits::geo::Coordinate;
use osmgraphing::{
    configs,
    network::{EdgeIdx, Graph, GraphBuilder, NodeIdx, ProtoEdge, ProtoNode, ProtoShortcut},
};
use std::collections::{BTreeMap, BTreeSet};

pub const EPS: f64 = 1e-6; // the documented accuracy
pub const MAX_DIM: usize = 5; // default of GRAPH_DIM

#[derive(Clone, Debug, PartialEq)]
pub struct MNode {
    pub id: i64,
    pub lat: f64,
    pub lon: f64,
    pub level: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MEdge {
    pub id: Option<usize>,
    pub src: i64,
    pub dst: i64,
    pub metrics: Vec<f64>,
    /// positions in the edge list
    pub sc: Option<[usize; 2]>,
}

#[derive(Clone, Debug)]
pub struct Map {
    pub dim: usize,
    pub nodes: Vec<MNode>,
    pub edges: Vec<MEdge>,
}

/// value of a metric as it ends up in the graph
pub fn stored(x: f64) -> f64 {
    if x == 0.0 {
        EPS
    } else {
        x
    }
}

impl Map {
    pub fn describe(&self) -> String {
        let mut s = format!("map dim={}\nnodes (id lat lon level):", self.dim);
        for n in self.nodes.iter().take(40) {
            s += &format!("\n  {} {} {} {}", n.id, n.lat, n.lon, n.level);
        }
        s += "\nedges (id src dst metrics sc):";
        for e in self.edges.iter().take(80) {
            s += &format!("\n  {:?} {} {} {:?} {:?}", e.id, e.src, e.dst, e.metrics, e.sc);
        }
        s
    }

    pub fn used_ids(&self) -> BTreeSet<i64> {
        self.edges.iter().flat_map(|e| vec![e.src, e.dst]).collect()
    }

    pub fn node(&self, id: i64) -> &MNode {
        self.nodes.iter().find(|n| n.id == id).expect("harness: node of model")
    }

    /// builds the graph with the public builder interface
    pub fn build_with(&self, cfg: configs::parsing::Config) -> Result<Graph, String> {
        let mut b = GraphBuilder::new(cfg);
        for e in &self.edges {
            let pe = ProtoEdge {
                id: e.id,
                src_id: e.src,
                dst_id: e.dst,
                metrics: e.metrics.iter().copied().collect(),
            };
            match e.sc {
                None => b.insert(pe).map_err(|m| m.to_string())?,
                Some(sc) => b
                    .insert(ProtoShortcut {
                        proto_edge: pe,
                        sc_edges: Some([EdgeIdx(sc[0]), EdgeIdx(sc[1])]),
                    })
                    .map_err(|m| m.to_string())?,
            }
        }
        let mut b = b.next();
        for n in &self.nodes {
            b.insert(ProtoNode {
                id: n.id,
                coord: Coordinate {
                    lat: n.lat,
                    lon: n.lon,
                },
                ch_level: Some(n.level),
            });
        }
        b.next()
            .map_err(|m| m.to_string())?
            .finalize()
            .map_err(|m| m.to_string())
    }

    pub fn build(&self) -> Result<Graph, String> {
        self.build_with(plain_cfg(self.dim))
    }

    /// weighted cost of an edge
    pub fn w(&self, e: usize, alphas: &[f64]) -> f64 {
        self.edges[e]
            .metrics
            .iter()
            .zip(alphas)
            .map(|(m, a)| stored(*m) * a)
            .sum()
    }
}

pub fn metric_name(i: usize) -> String {
    format!("m{}", i)
}

/// config without any columns of interest except the metrics
pub fn plain_cfg(dim: usize) -> configs::parsing::Config {
    let mut y = String::from(
        "parsing:\n  map-file: 'x.fmi'\n  nodes:\n  - meta: { info: 'NodeId', id: 'node-id' }\n  - meta: { info: 'CHLevel', id: 'level' }\n  - metric: { unit: 'Latitude', id: 'lat' }\n  - metric: { unit: 'Longitude', id: 'lon' }\n  edges:\n    data:\n    - meta: { info: 'EdgeId', id: 'edge-id' }\n    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n    - meta: { info: 'ShortcutIdx0', id: 'sc0' }\n    - meta: { info: 'ShortcutIdx1', id: 'sc1' }\n",
    );
    for i in 0..dim {
        y += &format!("    - metric: {{ unit: 'F64', id: '{}' }}\n", metric_name(i));
    }
    parse_cfg(&y).expect("harness: plain cfg")
}

pub fn parse_cfg(y: &str) -> Result<configs::parsing::Config, String> {
    serde_yaml::from_str::<configs::parsing::Config>(y).map_err(|e| e.to_string())
}

pub fn routing_cfg(
    algo: configs::routing::RoutingAlgo,
    alphas: &[f64],
) -> configs::routing::Config {
    configs::routing::Config {
        route_pairs_file: None,
        routing_algo: algo,
        alphas: alphas.iter().copied().collect(),
        tolerated_scales: alphas.iter().map(|_| std::f64::INFINITY).collect(),
    }
}

// ---------------------------------------------------------------------------------------------- //
// generators

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Values {
    Dyadic,
    SmallInt,
    General,
    Wide,
    Unit,
}

pub fn gen_values_kind(c: &mut Ctx) -> Values {
    [Values::Dyadic, Values::SmallInt, Values::General, Values::Wide, Values::Unit]
        [c.weighted(&[4, 3, 4, 2, 1])]
}

/// zero is only generated if allowed
pub fn gen_value(c: &mut Ctx, k: Values, zero: bool) -> f64 {
    match k {
        Values::Dyadic => (c.draw(63) + 1) as f64 / 4.0,
        Values::SmallInt => {
            if zero {
                c.draw(6) as f64
            } else {
                (c.draw(5) + 1) as f64
            }
        }
        Values::General => (c.draw(999_999_999) + 10_000) as f64 / 1_000_003.0,
        Values::Wide => {
            let e = c.usize(0, 9) as i32 - 3;
            let m = 1.0 + c.draw(8_999_999) as f64 / 1_000_000.0;
            m * 10f64.powi(e)
        }
        Values::Unit => 1.0,
    }
}

pub fn gen_ids(c: &mut Ctx, n: usize) -> Vec<i64> {
    let mut out: Vec<i64> = match c.weighted(&[8, 4, 4, 2, 2, 3]) {
        0 => (0..n as i64).collect(),
        1 => {
            let mut v = c.i64(-50, 50);
            (0..n)
                .map(|_| {
                    v += 1 + c.draw(20) as i64;
                    v
                })
                .collect()
        }
        2 => {
            let mut set = BTreeSet::new();
            while set.len() < n {
                // may repeat: nudge
                let mut x = c.i64(0, 9_999_999_999);
                while set.contains(&x) {
                    x += 1;
                }
                set.insert(x);
            }
            set.into_iter().collect()
        }
        3 => (0..n as i64).map(|i| i64::MAX - i * 7).rev().collect(),
        4 => (0..n as i64).map(|i| i64::MIN + i * 3).collect(),
        _ => {
            // ids which differ in their higher digits (mostly) only
            let step = c.pick(&[1i64 << 32, 1 << 16, 1 << 8, 1 << 31, 1 << 24, 1 << 40, 1_000_000_000]);
            let base = c.i64(-3, 300);
            let few = c.flip();
            (0..n as i64).map(|i| if few { base + (i / 2) * step + (i % 2) } else { base + i * step }).collect()
        }
    };
    if c.flip() {
        c.shuffle(&mut out);
    }
    out
}

pub fn gen_coord(c: &mut Ctx) -> (f64, f64) {
    match c.weighted(&[3, 3, 1, 1]) {
        0 => (
            c.i64(-60, 60) as f64 / 2.0 + 48.0 - 20.0,
            c.i64(-60, 60) as f64 / 4.0,
        ),
        1 => (
            c.i64(-900_000_000, 900_000_000) as f64 / 1e7,
            c.i64(-1_800_000_000, 1_800_000_000) as f64 / 1e7,
        ),
        // more digits than OSM has
        3 => (
            c.i64(-90_000_000_000_000, 90_000_000_000_000) as f64 / 1e12,
            c.i64(-180_000_000_000_000, 180_000_000_000_000) as f64 / 1e12,
        ),
        _ => (c.pick(&[0.0, 90.0, -90.0, 45.5]), c.pick(&[0.0, 180.0, -180.0, 179.9999999])),
    }
}

pub struct GraphOpts {
    pub max_nodes: usize,
    pub max_edges: usize,
    pub zero: bool,
    pub ids: bool,
    pub max_dim: usize,
    pub distinct_metrics: bool,
}

impl Default for GraphOpts {
    fn default() -> Self {
        GraphOpts {
            max_nodes: 24,
            max_edges: 70,
            zero: true,
            ids: true,
            max_dim: MAX_DIM,
            distinct_metrics: false,
        }
    }
}

/// A map with more than 65,536 nodes and edges: a ring in both directions (with gaps backwards) and
/// local shortcuts. Most values are functions of one seed, since there are too many to draw them.
/// There are no parallel edges.
pub fn gen_large(c: &mut Ctx, o: &GraphOpts) -> Map {
    let n = 66_000 + c.usize(0, 4_000);
    let want = n + 3_000 + c.usize(0, 40_000);
    let dim = c.usize(1, o.max_dim.min(2));
    let mut s = c.draw(u64::MAX >> 1);
    let step = c.pick(&[1i64, 1, 3, 65_536, 1 << 32]);
    let base = c.pick(&[0i64, 1, -30_000, 5_000_000_000]);
    // a prime, hence positions are permuted
    let mul = c.pick(&[1usize, 104_729]);
    let id = |p: usize| base + ((p % n * mul) % n) as i64 * step;
    let mut seen = std::collections::HashSet::new();
    let mut edges = vec![];
    let mut add = |s: &mut u64, a: usize, b: usize| {
        let (a, b) = (a % n, b % n);
        if seen.insert((a, b)) {
            let metrics = (0..dim).map(|_| (1 + crate::engine::splitmix(s) % 4_000) as f64 / 4.0).collect();
            edges.push(MEdge { id: None, src: id(a), dst: id(b), metrics, sc: None });
        }
        edges.len()
    };
    for i in 0..n {
        add(&mut s, i, i + 1);
    }
    let mut m = n;
    while m < want {
        let a = crate::engine::splitmix(&mut s) as usize % n;
        let r = crate::engine::splitmix(&mut s) as usize;
        m = match r % 64 {
            0 => add(&mut s, a, r / 64),
            1..=31 => add(&mut s, a + 1, a),
            _ => add(&mut s, a, a + n - 20 + r / 64 % 41),
        };
    }
    let order = c.usize(0, 2);
    if order == 1 {
        edges.reverse();
    } else if order == 2 {
        for i in (1..edges.len()).rev() {
            let j = crate::engine::splitmix(&mut s) as usize % (i + 1);
            edges.swap(i, j);
        }
    }
    if o.ids && c.flip() {
        let k = c.pick(&[1usize, 1, 2, 65_536, 1 << 32]);
        let first = c.usize(0, 10);
        let m = edges.len();
        let back = c.flip();
        for (i, e) in edges.iter_mut().enumerate() {
            e.id = Some(first + k * if back { m - i } else { i });
        }
    }
    let levels = c.flip();
    let mut nodes: Vec<MNode> = (0..n)
        .map(|i| {
            let r = crate::engine::splitmix(&mut s);
            MNode {
                id: id(i),
                lat: (r % 1_800_000_001) as f64 / 1e7 - 90.0,
                lon: (r / 1_800_000_001 % 3_600_000_001) as f64 / 1e7 - 180.0,
                level: if levels { (r >> 40) as usize % 70_000 } else { 0 },
            }
        })
        .collect();
    if c.flip() {
        nodes.reverse();
    }
    c.label("more than 65,536 nodes and edges");
    Map { dim, nodes, edges }
}

/// like bellman_ford, for large maps
pub fn distances(map: &Map, src: i64, alphas: &[f64]) -> Dists {
    use std::collections::{BinaryHeap, HashMap};
    let mut adj: HashMap<i64, Vec<usize>> = HashMap::new();
    for (i, e) in map.edges.iter().enumerate() {
        adj.entry(e.src).or_default().push(i);
    }
    let mut d: BTreeMap<i64, f64> = BTreeMap::new();
    d.insert(src, 0.0);
    // non-negative floats are ordered like their bits
    let mut heap = BinaryHeap::new();
    heap.push((std::cmp::Reverse(0u64), src));
    while let Some((std::cmp::Reverse(b), v)) = heap.pop() {
        let x = f64::from_bits(b);
        if d[&v] < x {
            continue;
        }
        for i in adj.get(&v).map(|a| a.as_slice()).unwrap_or(&[]) {
            let t = map.edges[*i].dst;
            let nd = x + map.w(*i, alphas).max(0.0);
            if d.get(&t).map(|old| nd < *old).unwrap_or(true) {
                d.insert(t, nd);
                heap.push((std::cmp::Reverse(nd.to_bits()), t));
            }
        }
    }
    Dists { d }
}

pub fn gen_map(c: &mut Ctx, o: &GraphOpts) -> Map {
    if c.size == 102 {
        return gen_large(c, o);
    }
    let cap = (3 + o.max_nodes * (20 + c.size.min(100)) / 120).min(o.max_nodes);
    let n = match c.weighted(&[1, 6, 3]) {
        0 => c.usize(1, 2.min(cap)),
        1 => c.usize(1, (cap / 2).max(1)),
        _ => c.usize(1, cap),
    };
    let dim = c.usize(1, o.max_dim);
    let kind = gen_values_kind(c);
    let ids = gen_ids(c, n);
    let mut pairs: Vec<(usize, usize)> = vec![];
    let topo = c.weighted(&[5, 2, 2, 2, 2, 2, 2]);
    let mcap = (o.max_edges * n.max(2) / o.max_nodes.max(1)).max(4).min(o.max_edges);
    match topo {
        0 => {
            let m = c.usize(1, mcap);
            for _ in 0..m {
                pairs.push((c.usize(0, n - 1), c.usize(0, n - 1)));
            }
        }
        1 => {
            // line, possibly with back edges
            for i in 1..n {
                pairs.push((i - 1, i));
                if c.chance(1, 3) {
                    pairs.push((i, i - 1));
                }
            }
        }
        2 => {
            // grid, both directions
            let w = c.usize(1, 6).min(n);
            for i in 0..n {
                if (i + 1) % w != 0 && i + 1 < n {
                    pairs.push((i, i + 1));
                    pairs.push((i + 1, i));
                }
                if i + w < n {
                    pairs.push((i, i + w));
                    pairs.push((i + w, i));
                }
            }
            // drop some
            let mut kept = vec![];
            for p in pairs {
                if !c.chance(1, 8) {
                    kept.push(p);
                }
            }
            pairs = kept;
        }
        3 => {
            // layered dag with skips
            for i in 1..n {
                let k = c.usize(1, 3);
                for _ in 0..k {
                    let j = i - 1 - c.usize(0, (i - 1).min(4));
                    pairs.push((j, i));
                }
            }
        }
        4 => {
            // two clusters, one connection at most
            let h = (n / 2).max(1);
            let m = c.usize(1, mcap);
            for _ in 0..m {
                if c.flip() {
                    pairs.push((c.usize(0, h - 1), c.usize(0, h - 1)));
                } else {
                    pairs.push((c.usize(h.min(n - 1), n - 1), c.usize(h.min(n - 1), n - 1)));
                }
            }
            if c.flip() {
                pairs.push((c.usize(0, h - 1), c.usize(h.min(n - 1), n - 1)));
            }
        }
        5 => {
            // cycle with chords
            for i in 0..n {
                pairs.push((i, (i + 1) % n));
            }
            let k = c.usize(0, n);
            for _ in 0..k {
                pairs.push((c.usize(0, n - 1), c.usize(0, n - 1)));
            }
        }
        _ => {
            // star out and/or in, many dead ends
            for i in 1..n {
                match c.usize(0, 2) {
                    0 => pairs.push((0, i)),
                    1 => pairs.push((i, 0)),
                    _ => {
                        pairs.push((0, i));
                        pairs.push((i, 0));
                    }
                }
            }
        }
    }
    if pairs.is_empty() {
        pairs.push((0, n - 1));
    }
    pairs.truncate(o.max_edges);
    let with_ids = o.ids && c.flip();
    let mut edges: Vec<MEdge> = pairs
        .iter()
        .map(|&(a, b)| MEdge {
            id: None,
            src: ids[a],
            dst: ids[b],
            metrics: (0..dim).map(|_| gen_value(c, kind, o.zero)).collect(),
            sc: None,
        })
        .collect();
    if o.distinct_metrics {
        for (i, e) in edges.iter_mut().enumerate() {
            e.metrics[0] += i as f64 / 64.0;
        }
    }
    if with_ids {
        let mut eids: Vec<usize> = match c.weighted(&[4, 2, 2, 1]) {
            0 => (0..edges.len()).collect(),
            1 => (0..edges.len()).map(|i| 1000 + 7 * i).collect(),
            2 => (0..edges.len()).map(|i| usize::MAX / 4 - 3 * i).collect(),
            _ => {
                let step = c.pick(&[1usize << 32, 1 << 16, 1 << 8, 1 << 31]);
                (0..edges.len()).map(|i| 5 + (i / 2) * step + i % 2).collect()
            }
        };
        if c.flip() {
            c.shuffle(&mut eids);
        }
        let partly = c.chance(1, 5);
        for (e, id) in edges.iter_mut().zip(eids) {
            if !partly || c.flip() {
                e.id = Some(id);
            }
        }
    }
    if c.flip() {
        c.shuffle(&mut edges);
    }
    let levels = c.chance(1, 4);
    let mut nodes: Vec<MNode> = ids
        .iter()
        .map(|&id| {
            let (lat, lon) = gen_coord(c);
            MNode {
                id,
                lat,
                lon,
                level: if levels { c.usize(0, 6) } else { 0 },
            }
        })
        .collect();
    if c.flip() {
        c.shuffle(&mut nodes);
    }
    Map { dim, nodes, edges }
}

/// non-negative weights
pub fn gen_alphas(c: &mut Ctx, dim: usize) -> Vec<f64> {
    let k = c.weighted(&[2, 3, 3, 1]);
    (0..dim)
        .map(|_| match k {
            0 => 1.0,
            1 => c.pick(&[1.0, 0.0, 0.5, 2.0, 0.25, 8.0]),
            2 => c.draw(1_000_000) as f64 / 250_000.0,
            _ => {
                if c.chance(1, 3) {
                    0.0
                } else {
                    c.pick(&[169.0, 331.0, 0.001, 1e4, 1.0])
                }
            }
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------- //
// oracle: shortest distances by Bellman-Ford over the declared edges

pub struct Dists {
    /// (cost, hops of some optimal walk)
    pub d: BTreeMap<i64, f64>,
}

/// single-source distances over the given edges (all of the map by default)
pub fn bellman_ford(map: &Map, src: i64, alphas: &[f64], use_edge: &dyn Fn(usize) -> bool) -> Dists {
    let mut d: BTreeMap<i64, f64> = BTreeMap::new();
    d.insert(src, 0.0);
    let w: Vec<f64> = (0..map.edges.len()).map(|e| map.w(e, alphas)).collect();
    loop {
        let mut changed = false;
        for (i, e) in map.edges.iter().enumerate() {
            if !use_edge(i) {
                continue;
            }
            if let Some(&ds) = d.get(&e.src) {
                let nd = ds + w[i];
                match d.get(&e.dst) {
                    Some(&old) if old <= nd => (),
                    _ => {
                        d.insert(e.dst, nd);
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    Dists { d }
}

/// A tolerance for comparing weighted costs of optimal routes: the code orders with an accuracy of
/// 1e-6 per comparison, so errors may add up along a route and through the heap.
pub fn tol(n_nodes: usize, cost: f64) -> f64 {
    4.0 * EPS * (n_nodes as f64 + 8.0) + 1e-9 * cost.abs()
}

/// Parallel edges whose metrics differ by less than the accuracy are merged when a graph is built, so
/// the cost of every edge of a route may change by it, multiplied by the weights.
pub fn merge_slack(map: &Map, alphas: &[f64]) -> f64 {
    let mut by_ends: BTreeMap<(i64, i64), Vec<&MEdge>> = BTreeMap::new();
    for e in &map.edges {
        by_ends.entry((e.src, e.dst)).or_default().push(e);
    }
    let near = |a: &MEdge, b: &MEdge| {
        a.id == b.id && a.metrics != b.metrics && a.metrics.iter().zip(&b.metrics).all(|(x, y)| (x - y).abs() <= 3.0 * EPS)
    };
    let merged = by_ends.values().any(|v| (0..v.len()).any(|i| (0..i).any(|j| near(v[i], v[j]))));
    if merged {
        alphas.iter().map(|a| a.abs()).sum::<f64>() * 3.0 * EPS * (map.nodes.len() + map.edges.len()) as f64
    } else {
        0.0
    }
}

// ---------------------------------------------------------------------------------------------- //
// views of a graph under test

#[derive(Clone, Debug, PartialEq)]
pub struct GEdge {
    pub id: Option<usize>,
    pub src: i64,
    pub dst: i64,
    pub metrics: Vec<f64>,
    pub sc: Option<[usize; 2]>,
}

/// all edges by index, via the forward and the backward view
pub fn graph_edges(g: &Graph) -> Vec<GEdge> {
    let fwd = g.fwd_edges();
    let bwd = g.bwd_edges();
    let nodes = g.nodes();
    (0..fwd.count())
        .map(|i| {
            let i = EdgeIdx(i);
            GEdge {
                id: fwd.try_id(i),
                src: nodes.id(bwd.dst_idx(i)),
                dst: nodes.id(fwd.dst_idx(i)),
                metrics: g.metrics()[i].iter().copied().collect(),
                sc: fwd.sc_edges(i).map(|s| [*s[0], *s[1]]),
            }
        })
        .collect()
}

pub fn node_idx(g: &Graph, id: i64) -> Option<NodeIdx> {
    g.nodes().idx_from(id).ok()
}

pub fn close(a: f64, b: f64, rel: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= rel * a.abs().max(b.abs()) + 1e-12
}
