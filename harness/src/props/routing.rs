//! P01 – P04: best routes, contraction hierarchies, expanding, histories
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use osmgraphing::{
    configs::routing::RoutingAlgo,
    network::{EdgeIdx, Graph, NodeIdx},
    routing::{
        dijkstra::{Dijkstra, Query},
        paths::Path,
    },
};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            run: p01,
            quick: 240_000,
            thorough: 8_000_000,
            rule: "a case is a generated multigraph with weights and a set of (src,dst) queries (all pairs when small); non-trivial: at least one query whose optimal route has >= 2 edges and one edge not on it",
            level: "exploration",
            assumptions: &["costs are compared with an absolute tolerance of 4e-6 per node of the graph, since the code orders costs with an accuracy of 1e-6"],
        },
        Prop {
            id: "P02",
            run: p02,
            quick: 160_000,
            thorough: 4_000_000,
            rule: "a case is a generated graph, a node order, a contraction of it computed by the harness and all pairs as queries; non-trivial: some contraction-hierarchy route contains a shortcut",
            level: "exploration",
            assumptions: &["the contraction is valid for the routed weighting: every shortest path via a contracted node is replaced by a shortcut of the same cost"],
        },
        Prop {
            id: "P03",
            run: p03,
            quick: 240_000,
            thorough: 8_000_000,
            rule: "a case is a map with nested shortcuts in random listing order and several routes over it; non-trivial: a route containing a shortcut of depth >= 2, or a cyclic reference",
            level: "exploration",
            assumptions: &[],
        },
        Prop {
            id: "P04",
            run: p04,
            quick: 160_000,
            thorough: 5_000_000,
            rule: "a case is a history of queries over several graphs on one router; non-trivial: >= 3 queries on >= 2 graphs of different size with a found route after the first query",
            level: "exploration",
            assumptions: &[],
        },
    ]
}

// ---------------------------------------------------------------------------------------------- //

/// checks that a path is a connected sequence of existing edges from src to dst with right costs;
/// returns its weighted cost
pub fn check_path(
    g: &Graph,
    path: &Path,
    src: NodeIdx,
    dst: NodeIdx,
    alphas: &[f64],
) -> Result<f64, String> {
    ensure!(path.src_idx() == src, "route starts at {} instead of {}", path.src_idx(), src);
    ensure!(path.dst_idx() == dst, "route ends at {} instead of {}", path.dst_idx(), dst);
    let fwd = g.fwd_edges();
    let bwd = g.bwd_edges();
    let mut at = src;
    let dim = g.metrics().dim();
    let mut sums = vec![0.0; dim];
    for e in path.iter() {
        ensure!(**e < fwd.count(), "route contains edge {} of {}", e, fwd.count());
        ensure!(
            bwd.dst_idx(*e) == at,
            "gap: edge {} leaves node {}, but the route is at {}",
            e,
            bwd.dst_idx(*e),
            at
        );
        at = fwd.dst_idx(*e);
        for i in 0..dim {
            sums[i] += g.metrics()[*e][i];
        }
    }
    ensure!(at == dst, "route arrives at {} instead of {}", at, dst);
    let mut p = path.clone();
    let costs = p.calc_costs(g).to_vec();
    ensure!(costs.len() == dim, "{} costs for {} metrics", costs.len(), dim);
    for i in 0..dim {
        ensure!(
            close(costs[i], sums[i], 1e-9),
            "cost {} of metric {} is not the sum over the edges {}",
            costs[i],
            i,
            sums[i]
        );
    }
    Ok(sums.iter().zip(alphas).map(|(a, b)| a * b).sum())
}

fn pairs_of(c: &mut Ctx, ids: &[i64], all_up_to: usize, samples: usize) -> Vec<(i64, i64)> {
    if ids.len() <= all_up_to {
        ids.iter()
            .flat_map(|a| ids.iter().map(move |b| (*a, *b)))
            .collect()
    } else {
        // few sources, since the oracle is computed per source
        let mut v = vec![];
        for _ in 0..4 {
            let s = c.pick(ids);
            for _ in 0..(samples / 4) {
                v.push((s, c.pick(ids)));
            }
        }
        v
    }
}

fn p01(c: &mut Ctx) -> Res {
    let large = c.size == 102;
    let big = c.chance(1, 40);
    let o = if big {
        GraphOpts {
            max_nodes: 260,
            max_edges: 900,
            max_dim: 2,
            ..Default::default()
        }
    } else {
        GraphOpts::default()
    };
    let map = gen_map(c, &o);
    let alphas = gen_alphas(c, map.dim);
    c.note(map.describe());
    c.note(format!("alphas {:?}", alphas));
    let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    let cfg = routing_cfg(RoutingAlgo::Dijkstra, &alphas);
    let ids: Vec<i64> = map.used_ids().into_iter().collect();
    let pairs = pairs_of(c, &ids, 12, if large { 24 } else { 40 });
    let reuse = c.flip();
    let mut router = Dijkstra::new();
    let mut oracle: BTreeMap<i64, Dists> = BTreeMap::new();
    let mut nontrivial = false;
    let (mut found, mut none) = (false, false);
    let slack = merge_slack(&map, &alphas);
    for (s, t) in pairs {
        let d = oracle
            .entry(s)
            
            .or_insert_with(|| if large { distances(&map, s, &alphas) } else { bellman_ford(&map, s, &alphas, &|_| true) });
        let si = node_idx(&g, s).ok_or("node missing")?;
        let ti = node_idx(&g, t).ok_or("node missing")?;
        if !reuse {
            router = Dijkstra::new();
        }
        let res = guard(&format!("query {} -> {}", s, t), || {
            router.compute_best_path(Query {
                src_idx: si,
                dst_idx: ti,
                graph: &g,
                routing_cfg: &cfg,
            })
        })?;
        match (res, d.d.get(&t)) {
            (None, None) => none = true,
            (None, Some(x)) => {
                return Err(format!("no route from {} to {}, but one of cost {} exists", s, t, x))
            }
            (Some(p), None) => {
                return Err(format!("route {} from {} to unreachable {}", p, s, t))
            }
            (Some(p), Some(x)) => {
                found = true;
                let w = check_path(&g, &p, si, ti, &alphas)
                    .map_err(|m| format!("query {} -> {}: {}", s, t, m))?;
                ensure!(
                    (w - x).abs() <= slack + tol(if large { 1000 } else { ids.len() }, *x),
                    "query {} -> {}: route of cost {}, but the optimum is {}",
                    s,
                    t,
                    w,
                    x
                );
                if s == t {
                    ensure!(p.iter().count() == 0, "route from {} to itself is not empty", s);
                }
                let hops = p.iter().count();
                if hops >= 2 && hops < map.edges.len() {
                    nontrivial = true;
                }
            }
        }
    }
    if found && none {
        c.label("reachable and unreachable pairs");
    }
    if big {
        c.label("big graph");
    }
    if ids.len() == 2 {
        c.label("two nodes");
    }
    if alphas.iter().all(|a| *a == 0.0) {
        c.label("all weights zero");
    }
    Ok(if nontrivial { Verdict::NonTrivial } else { Verdict::Trivial })
}

// ---------------------------------------------------------------------------------------------- //
// contraction by the harness

/// Contracts the map for the given weighting. Returns the contracted map (levels set, shortcuts
/// appended, then listing order shuffled).
pub fn contract(c: &mut Ctx, map: &Map, alphas: &[f64]) -> Map {
    let mut out = map.clone();
    for e in out.edges.iter_mut() {
        e.sc = None;
    }
    let ids: Vec<i64> = map.used_ids().into_iter().collect();
    let mut order = ids.clone();
    c.shuffle(&mut order);
    // rounds: nodes of one round get the same level, but must be independent
    let rounds = c.chance(1, 3);
    // the last nodes may stay uncontracted and share the highest level
    let keep = if c.chance(1, 3) { c.usize(0, order.len()) } else { 0 };
    let use_witness = c.chance(3, 4);
    let base_level = if c.chance(1, 5) { c.usize(0, 1000) } else { 0 };
    let gap = c.usize(1, 3);
    let next_edge_id = map.edges.iter().filter_map(|e| e.id).max();
    let all_ids = map.edges.iter().all(|e| e.id.is_some());
    let mut level: BTreeMap<i64, usize> = BTreeMap::new();
    let mut cur = base_level;
    let mut remaining: Vec<i64> = order.clone();
    let mut new_ids = 0usize;
    while remaining.len() > keep {
        // choose the nodes of this round
        let mut round = vec![remaining[0]];
        if rounds {
            for v in remaining.iter().skip(1) {
                if remaining.len() - round.len() <= keep {
                    break;
                }
                let adjacent = out.edges.iter().any(|e| {
                    e.src != e.dst
                        && ((e.src == *v && round.contains(&e.dst))
                            || (e.dst == *v && round.contains(&e.src)))
                        && (remaining.contains(&e.src) && remaining.contains(&e.dst))
                });
                if !adjacent {
                    round.push(*v);
                }
            }
        }
        for v in round {
            remaining.retain(|x| *x != v);
            level.insert(v, cur);
            // cheapest in- and out-edge per neighbour among the remaining nodes
            let mut ins: BTreeMap<i64, (f64, usize)> = BTreeMap::new();
            let mut outs: BTreeMap<i64, (f64, usize)> = BTreeMap::new();
            for (i, e) in out.edges.iter().enumerate() {
                let w = out.w(i, alphas);
                if e.dst == v && remaining.contains(&e.src) {
                    let x = ins.entry(e.src).or_insert((w, i));
                    if w < x.0 {
                        *x = (w, i);
                    }
                }
                if e.src == v && remaining.contains(&e.dst) {
                    let x = outs.entry(e.dst).or_insert((w, i));
                    if w < x.0 {
                        *x = (w, i);
                    }
                }
            }
            for (u, (wu, eu)) in &ins {
                let d = if use_witness {
                    let mut m = out.clone();
                    m.edges.retain(|e| remaining.contains(&e.src) && remaining.contains(&e.dst));
                    Some(bellman_ford(&m, *u, alphas, &|_| true))
                } else {
                    None
                };
                for (x, (wx, ex)) in &outs {
                    if u == x {
                        continue;
                    }
                    if let Some(d) = &d {
                        if let Some(w) = d.d.get(x) {
                            if *w <= wu + wx {
                                continue;
                            }
                        }
                    }
                    let metrics = (0..map.dim)
                        .map(|k| stored(out.edges[*eu].metrics[k]) + stored(out.edges[*ex].metrics[k]))
                        .collect();
                    new_ids += 1;
                    out.edges.push(MEdge {
                        id: match (all_ids, next_edge_id) {
                            (true, Some(m)) => Some(m + new_ids),
                            _ => None,
                        },
                        src: *u,
                        dst: *x,
                        metrics,
                        sc: Some([*eu, *ex]),
                    });
                }
            }
        }
        cur += gap;
    }
    for v in remaining {
        level.insert(v, cur);
    }
    for n in out.nodes.iter_mut() {
        n.level = *level.get(&n.id).unwrap_or(&0);
    }
    if c.flip() {
        shuffle_edges(c, &mut out);
    }
    out
}

/// shuffles the listing order and keeps shortcut references right
pub fn shuffle_edges(c: &mut Ctx, map: &mut Map) {
    let mut perm: Vec<usize> = (0..map.edges.len()).collect();
    c.shuffle(&mut perm);
    let mut inv = vec![0; perm.len()];
    for (new, old) in perm.iter().enumerate() {
        inv[*old] = new;
    }
    let old = map.edges.clone();
    map.edges = perm
        .iter()
        .map(|i| {
            let mut e = old[*i].clone();
            if let Some(sc) = e.sc {
                e.sc = Some([inv[sc[0]], inv[sc[1]]]);
            }
            e
        })
        .collect();
}

/// A long road, contracted in some order: deep nesting, high levels.
fn p02_large(c: &mut Ctx) -> Res {
    let n = 23_000 + c.usize(0, 2_000);
    let mut s = c.draw(u64::MAX >> 1);
    let gap = c.usize(1, 4);
    let mut at = c.usize(0, 3);
    let mut val = || (1 + splitmix(&mut s) % 400) as f64 / 4.0;
    let mut map = Map {
        dim: 1,
        nodes: (0..n).map(|i| MNode { id: i as i64 * 3, lat: 1.0, lon: 2.0, level: 0 }).collect(),
        edges: vec![],
    };
    // edges between the remaining neighbours: to the right, to the left
    let mut right: Vec<(usize, usize)> = vec![]; // of node i: next node and edge
    let mut left: Vec<(usize, usize)> = vec![];
    let add = |map: &mut Map, a: usize, b: usize, w: f64, sc: Option<[usize; 2]>| {
        map.edges.push(MEdge { id: None, src: a as i64 * 3, dst: b as i64 * 3, metrics: vec![w], sc });
        map.edges.len() - 1
    };
    let mut sums = vec![0.0; n]; // from the leftmost node
    let mut back = vec![0.0; n]; // to the leftmost node
    for i in 0..n {
        let (r, l) = if i + 1 < n {
            let (x, y) = (val(), val());
            sums[i + 1] = sums[i] + x;
            back[i + 1] = back[i] + y;
            (add(&mut map, i, i + 1, x, None), add(&mut map, i + 1, i, y, None))
        } else {
            (0, 0)
        };
        right.push((i + 1, r));
        left.push((i.wrapping_sub(1), if i == 0 { 0 } else { right[i - 1].1 + 1 }));
        let _ = l;
    }
    let mut order: Vec<usize> = (0..n).collect();
    let kind = c.usize(0, 3);
    match kind {
        0 => (),
        1 => order.reverse(),
        2 => {
            for i in (1..n).rev() {
                let j = splitmix(&mut at_seed(n, i)) as usize % (i + 1);
                order.swap(i, j);
            }
        }
        // from the middle to both ends
        _ => order.sort_by_key(|i| (*i as i64 - n as i64 / 2).abs()),
    }
    for v in order {
        map.nodes[v].level = at;
        at += gap;
        let (l, r) = (left[v], right[v]);
        if l.0 < n && r.0 < n {
            let w = |map: &Map, e: usize| map.edges[e].metrics[0];
            // l -> v is the edge which l has to its right
            let (lv, vr, rv, vl) = (right[l.0].1, r.1, left[r.0].1, l.1);
            let x = w(&map, lv) + w(&map, vr);
            let y = w(&map, rv) + w(&map, vl);
            let e = add(&mut map, l.0, r.0, x, Some([lv, vr]));
            let f = add(&mut map, r.0, l.0, y, Some([rv, vl]));
            right[l.0] = (r.0, e);
            left[r.0] = (l.0, f);
        } else if l.0 < n {
            right[l.0] = (n, 0);
        } else if r.0 < n {
            left[r.0] = (usize::MAX, 0);
        }
    }
    c.note(format!("road of {} nodes, order {}, gap of levels {}, {} edges", n, kind, gap, map.edges.len()));
    c.label("long road");
    let g = map.build().map_err(|m| format!("valid contracted map rejected: {}", m))?;
    let chd = routing_cfg(RoutingAlgo::CHDijkstra, &[1.0]);
    let mut router = Dijkstra::new();
    for _ in 0..40 {
        let (a, b) = (c.usize(0, n - 1), c.usize(0, n - 1));
        let want = if a < b { sums[b] - sums[a] } else { back[a] - back[b] };
        let si = node_idx(&g, a as i64 * 3).ok_or("node missing")?;
        let ti = node_idx(&g, b as i64 * 3).ok_or("node missing")?;
        let q = Query { src_idx: si, dst_idx: ti, graph: &g, routing_cfg: &chd };
        let p = guard("query", || router.compute_best_path(q))?.ok_or_else(|| format!("no route from {} to {}, but one of cost {} exists", a, b, want))?;
        let w = check_path(&g, &p, si, ti, &[1.0]).map_err(|m| format!("{} -> {}: {}", a, b, m))?;
        ensure!(close(w, want, 1e-9), "{} -> {}: route of cost {}, but the optimum is {}", a, b, w, want);
        let f = guard("try_flatten", || p.clone().try_flatten(&g))?.map_err(|m| format!("expanding failed: {}", m))?;
        let wf = check_path(&g, &f, si, ti, &[1.0]).map_err(|m| format!("expanded {} -> {}: {}", a, b, m))?;
        let hops = f.iter().count();
        ensure!(close(wf, want, 1e-9), "expanded route costs {} instead of {}", wf, want);
        ensure!(hops == if a < b { b - a } else { a - b }, "expanded route {} -> {} has {} edges", a, b, hops);
        ensure!(f.iter().all(|e| !g.fwd_edges().is_shortcut(*e)), "expanded route contains a shortcut");
    }
    Ok(Verdict::NonTrivial)
}

fn at_seed(n: usize, i: usize) -> u64 {
    (n as u64) << 32 | i as u64
}

fn p02(c: &mut Ctx) -> Res {
    if c.size == 102 {
        return p02_large(c);
    }
    let o = GraphOpts {
        max_nodes: 12,
        max_edges: 34,
        max_dim: 3,
        ..Default::default()
    };
    let mut map = gen_map(c, &o);
    let alphas = gen_alphas(c, map.dim);
    for n in map.nodes.iter_mut() {
        n.level = 0;
    }
    let ch = contract(c, &map, &alphas);
    c.note(ch.describe());
    c.note(format!("alphas {:?}", alphas));
    let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    let gc = ch.build().map_err(|m| format!("valid contracted map rejected: {}", m))?;
    let plain = routing_cfg(RoutingAlgo::Dijkstra, &alphas);
    let chd = routing_cfg(RoutingAlgo::CHDijkstra, &alphas);
    let ids: Vec<i64> = map.used_ids().into_iter().collect();
    let mut r1 = Dijkstra::new();
    let mut r2 = Dijkstra::new();
    let mut r3 = Dijkstra::new();
    let mut uses_sc = false;
    let slack = merge_slack(&ch, &alphas).max(merge_slack(&map, &alphas));
    for &s in &ids {
        let d = bellman_ford(&map, s, &alphas, &|_| true);
        for &t in &ids {
            for (what, graph, cfg, router) in vec![
                ("CHDijkstra on the contracted map", &gc, &chd, &mut r1),
                ("Dijkstra on the contracted map", &gc, &plain, &mut r2),
                ("CHDijkstra on the uncontracted map", &g, &chd, &mut r3),
            ] {
                let si = node_idx(graph, s).ok_or("node missing")?;
                let ti = node_idx(graph, t).ok_or("node missing")?;
                let res = guard(&format!("{}: {} -> {}", what, s, t), || {
                    router.compute_best_path(Query {
                        src_idx: si,
                        dst_idx: ti,
                        graph,
                        routing_cfg: cfg,
                    })
                })?;
                match (res, d.d.get(&t)) {
                    (None, None) => (),
                    (None, Some(x)) => {
                        return Err(format!(
                            "{}: no route from {} to {}, but one of cost {} exists",
                            what, s, t, x
                        ))
                    }
                    (Some(p), None) => {
                        return Err(format!("{}: route {} from {} to unreachable {}", what, p, s, t))
                    }
                    (Some(p), Some(x)) => {
                        let w = check_path(graph, &p, si, ti, &alphas)
                            .map_err(|m| format!("{}: {} -> {}: {}", what, s, t, m))?;
                        ensure!(
                            (w - x).abs() <= slack + tol(ids.len(), *x),
                            "{}: {} -> {}: route of cost {}, but the optimum is {}",
                            what,
                            s,
                            t,
                            w,
                            x
                        );
                        if p.iter().any(|e| graph.fwd_edges().is_shortcut(*e)) {
                            if what.starts_with("CH") {
                                uses_sc = true;
                            }
                            // expanded, it is a route of the original map
                            let f = guard("try_flatten", || p.clone().try_flatten(graph))?
                                .map_err(|m| format!("{}: expanding failed: {}", what, m))?;
                            let wf = check_path(graph, &f, si, ti, &alphas)
                                .map_err(|m| format!("{}: expanded {} -> {}: {}", what, s, t, m))?;
                            ensure!(
                                (wf - x).abs() <= slack + tol(ids.len(), *x),
                                "{}: expanded route costs {} instead of {}",
                                what,
                                wf,
                                x
                            );
                        }
                    }
                }
            }
        }
    }
    c.label(if ch.edges.len() > map.edges.len() { "has shortcuts" } else { "no shortcuts" });
    Ok(if uses_sc { Verdict::NonTrivial } else { Verdict::Trivial })
}

// ---------------------------------------------------------------------------------------------- //

/// content of an edge, independent of indices
pub fn content(e: &GEdge) -> (Option<usize>, i64, i64, Vec<u64>) {
    (e.id, e.src, e.dst, e.metrics.iter().map(|m| m.to_bits()).collect())
}
pub fn mcontent(e: &MEdge) -> (Option<usize>, i64, i64, Vec<u64>) {
    (e.id, e.src, e.dst, e.metrics.iter().map(|m| stored(*m).to_bits()).collect())
}

fn p03(c: &mut Ctx) -> Res {
    let o = GraphOpts {
        max_nodes: 10,
        max_edges: 24,
        max_dim: 3,
        ids: false,
        ..Default::default()
    };
    let mut map = gen_map(c, &o);
    for n in map.nodes.iter_mut() {
        n.level = if c.chance(1, 4) { c.usize(0, 5) } else { 0 };
    }
    // add nested shortcuts
    let with_ids = c.flip();
    let sums = with_ids && c.flip();
    let mut depth: Vec<usize> = vec![0; map.edges.len()];
    let mut size: Vec<usize> = vec![1; map.edges.len()];
    // sometimes deep nesting: each shortcut contains the previous one
    let deep = c.chance(1, 12);
    let k = if deep { c.usize(20, 360) } else { c.usize(0, 16) };
    for _ in 0..k {
        let prefer_new = deep || c.flip();
        let n = map.edges.len();
        let a = if prefer_new { n - 1 - c.usize(0, if deep { 0 } else { n.min(4) - 1 }) } else { c.usize(0, n - 1) };
        if deep && c.chance(1, 3) {
            // the previous one as second edge
            let cands: Vec<usize> = (0..n).filter(|b| map.edges[*b].dst == map.edges[a].src && map.edges[*b].sc.is_none()).collect();
            if !cands.is_empty() && size[a] < 400 {
                let b = c.pick(&cands);
                let metrics = if sums {
                    (0..map.dim).map(|i| stored(map.edges[a].metrics[i]) + stored(map.edges[b].metrics[i])).collect()
                } else {
                    (0..map.dim).map(|_| gen_value(c, Values::Dyadic, false)).collect()
                };
                depth.push(1 + depth[a]);
                size.push(size[a] + 1);
                map.edges.push(MEdge { id: None, src: map.edges[b].src, dst: map.edges[a].dst, metrics, sc: Some([b, a]) });
                continue;
            }
        }
        let cands: Vec<usize> = (0..n)
            .filter(|b| map.edges[*b].src == map.edges[a].dst && (!deep || map.edges[*b].sc.is_none()))
            .collect();
        if cands.is_empty() {
            continue;
        }
        let b = c.pick(&cands);
        if size[a] + size[b] > 400 {
            continue;
        }
        let metrics = if sums {
            (0..map.dim)
                .map(|i| stored(map.edges[a].metrics[i]) + stored(map.edges[b].metrics[i]))
                .collect()
        } else {
            (0..map.dim).map(|_| gen_value(c, Values::Dyadic, false)).collect()
        };
        depth.push(1 + depth[a].max(depth[b]));
        size.push(size[a] + size[b]);
        map.edges.push(MEdge {
            id: None,
            src: map.edges[a].src,
            dst: map.edges[b].dst,
            metrics,
            sc: Some([a, b]),
        });
    }
    let m0 = map.edges.len();
    if with_ids {
        for (i, e) in map.edges.iter_mut().enumerate() {
            e.id = Some(3 * i + 1);
        }
    } else {
        for (i, e) in map.edges.iter_mut().enumerate() {
            e.metrics[0] = 1.0 + i as f64 * 0.5;
        }
    }
    // exact duplicates (merged by the graph)
    let dups = if c.chance(1, 2) { c.usize(1, 5) } else { 0 };
    for _ in 0..dups {
        let i = c.usize(0, m0 - 1);
        let e = map.edges[i].clone();
        map.edges.push(e);
        depth.push(depth[i]);
        size.push(size[i]);
        // redirect some references to the duplicate
        let n = map.edges.len() - 1;
        for j in 0..m0 {
            if let Some(mut sc) = map.edges[j].sc {
                for x in sc.iter_mut() {
                    if *x == i && c.flip() {
                        *x = n;
                    }
                }
                map.edges[j].sc = Some(sc);
            }
        }
        // keep duplicates exact: the duplicate keeps the references of its original
        map.edges[n].sc = map.edges[i].sc;
    }
    // sometimes: circular references
    let cyclic = c.chance(1, 6) && map.edges.iter().any(|e| e.sc.is_some());
    if cyclic {
        let scs: Vec<usize> = (0..m0).filter(|i| map.edges[*i].sc.is_some()).collect();
        let times = c.usize(1, 2);
        for _ in 0..times {
            let i = c.pick(&scs);
            let j = c.pick(&scs);
            let which = c.usize(0, 1);
            let mut sc = map.edges[i].sc.unwrap();
            sc[which] = j;
            map.edges[i].sc = Some(sc);
            // duplicates stay duplicates
            for d in m0..map.edges.len() {
                if mcontent(&map.edges[d]) == mcontent(&map.edges[i]) {
                    map.edges[d].sc = Some(sc);
                }
            }
        }
    }
    if c.flip() {
        // permute, remembering depth
        let mut perm: Vec<usize> = (0..map.edges.len()).collect();
        c.shuffle(&mut perm);
        let mut inv = vec![0; perm.len()];
        for (new, old) in perm.iter().enumerate() {
            inv[*old] = new;
        }
        let old = map.edges.clone();
        let od = depth.clone();
        map.edges = perm
            .iter()
            .map(|i| {
                let mut e = old[*i].clone();
                if let Some(sc) = e.sc {
                    e.sc = Some([inv[sc[0]], inv[sc[1]]]);
                }
                e
            })
            .collect();
        depth = perm.iter().map(|i| od[*i]).collect();
    }
    c.note(map.describe());
    let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    let ge = graph_edges(&g);
    // model edge -> graph edge with the same content
    let index: BTreeMap<_, usize> = ge.iter().enumerate().map(|(i, e)| (content(e), i)).collect();

    let walks = c.usize(1, 6);
    let mut nontrivial = false;
    for _ in 0..walks {
        // sometimes a long walk that contains shortcuts from some position on only
        let long = c.chance(1, 12);
        let len = if c.chance(1, 10) {
            0
        } else if long {
            c.pick(&[33, 65, 66, 129, 130, 257, 300])
        } else {
            c.usize(1, 5)
        };
        let plain_until = if long && c.flip() { len.saturating_sub(c.usize(1, 4)) } else { 0 };
        let mut walk: Vec<usize> = vec![];
        let start = c.usize(0, map.edges.len() - 1);
        let src = map.edges[start].src;
        let mut at = src;
        for i in 0..len {
            let e = if i == 0 {
                start
            } else {
                let cands: Vec<usize> =
                    (0..map.edges.len()).filter(|b| map.edges[*b].src == at).collect();
                if cands.is_empty() {
                    break;
                }
                // prefer shortcuts
                let scs: Vec<usize> =
                    cands.iter().copied().filter(|b| map.edges[*b].sc.is_some()).collect();
                let plain: Vec<usize> =
                    cands.iter().copied().filter(|b| map.edges[*b].sc.is_none()).collect();
                if i < plain_until && !plain.is_empty() {
                    c.pick(&plain)
                } else if !scs.is_empty() && c.flip() {
                    c.pick(&scs)
                } else {
                    c.pick(&cands)
                }
            };
            at = map.edges[e].dst;
            walk.push(e);
        }
        // expected expansion, or None if it runs in circles
        let expected = expand(&map, &walk);
        let edges: Option<Vec<EdgeIdx>> = walk
            .iter()
            .map(|e| index.get(&mcontent(&map.edges[*e])).map(|i| EdgeIdx(*i)))
            .collect();
        let edges = edges.ok_or("an edge of the map is missing in the graph")?;
        let mut path = Path::new(
            node_idx(&g, src).ok_or("node missing")?,
            src,
            node_idx(&g, at).ok_or("node missing")?,
            at,
            edges,
        );
        // the costs may have been calculated before
        if c.flip() {
            let costs = guard("calculating costs", || path.calc_costs(&g).to_vec())?;
            for i in 0..map.dim {
                let s: f64 = walk.iter().map(|e| stored(map.edges[*e].metrics[i])).sum();
                ensure!(
                    costs.len() == map.dim && close(costs[i], s, 1e-9),
                    "unexpanded cost of metric {} is {:?}, but the sum over the edges is {}",
                    i,
                    costs,
                    s
                );
            }
        }
        if walk.len() > 64 {
            c.label("walk of more than 64 edges");
        }
        if walk.iter().any(|e| depth[*e] >= 2) {
            nontrivial = true;
        }
        if walk.iter().any(|e| depth[*e] >= 66) {
            c.label("nested more than 65 times");
        }
        c.note(format!("walk over edges {:?}", walk));
        let res = guard("try_flatten", || path.clone().try_flatten(&g))?;
        match (res, expected) {
            (Err(_), None) => {
                c.label("circular reference reported");
                nontrivial = true;
            }
            (Ok(_), None) => return Err("circular shortcut references are not reported".into()),
            (Err(m), Some(_)) => return Err(format!("expanding a valid route fails: {}", m)),
            (Ok(f), Some(exp)) => {
                let got: Vec<_> = f
                    .iter()
                    .map(|e| {
                        ensure!(
                            !g.fwd_edges().is_shortcut(*e),
                            "expanded route still contains the shortcut {}",
                            e
                        );
                        Ok(content(&ge[**e]))
                    })
                    .collect::<Result<Vec<_>, String>>()?;
                let want: Vec<_> = exp.iter().map(|e| mcontent(&map.edges[*e])).collect();
                ensure!(
                    got == want,
                    "expanded route is {:?}, expected {:?}",
                    short(&got),
                    short(&want)
                );
                ensure!(
                    f.src_idx() == path.src_idx() && f.dst_idx() == path.dst_idx(),
                    "end points changed by expanding"
                );
                let costs = guard("costs", || f.costs().to_vec())?;
                ensure!(costs.len() == map.dim, "{} costs for {} metrics", costs.len(), map.dim);
                for i in 0..map.dim {
                    let s: f64 = exp.iter().map(|e| stored(map.edges[*e].metrics[i])).sum();
                    ensure!(
                        close(costs[i], s, 1e-9),
                        "cost of metric {} is {}, but the sum over the edges is {}",
                        i,
                        costs[i],
                        s
                    );
                }
                // once more: nothing left to expand
                let ff = guard("try_flatten", || f.clone().try_flatten(&g))?
                    .map_err(|m| format!("expanding twice fails: {}", m))?;
                ensure!(ff == f, "expanding twice changes the route");
            }
        }
    }
    if dups > 0 {
        c.label("with duplicates");
    }
    Ok(if nontrivial { Verdict::NonTrivial } else { Verdict::Trivial })
}

fn short(v: &[(Option<usize>, i64, i64, Vec<u64>)]) -> Vec<(Option<usize>, i64, i64)> {
    v.iter().map(|x| (x.0, x.1, x.2)).collect()
}

/// expands a walk over model edges; None if references are circular
fn expand(map: &Map, walk: &[usize]) -> Option<Vec<usize>> {
    // cycle detection by colouring
    fn cyc(map: &Map, e: usize, state: &mut Vec<u8>) -> bool {
        match state[e] {
            1 => return true,
            2 => return false,
            _ => (),
        }
        state[e] = 1;
        if let Some(sc) = map.edges[e].sc {
            if cyc(map, sc[0], state) || cyc(map, sc[1], state) {
                return true;
            }
        }
        state[e] = 2;
        false
    }
    let mut state = vec![0; map.edges.len()];
    for e in walk {
        if cyc(map, *e, &mut state) {
            return None;
        }
    }
    fn rec(map: &Map, e: usize, out: &mut Vec<usize>) {
        match map.edges[e].sc {
            None => out.push(e),
            Some(sc) => {
                rec(map, sc[0], out);
                rec(map, sc[1], out);
            }
        }
    }
    let mut out = vec![];
    for e in walk {
        rec(map, *e, &mut out);
    }
    Some(out)
}

// ---------------------------------------------------------------------------------------------- //

fn p04(c: &mut Ctx) -> Res {
    let k = c.usize(1, 4);
    let mut graphs: Vec<(Map, Graph)> = vec![];
    for _ in 0..k {
        let o = GraphOpts {
            max_nodes: c.pick(&[2, 4, 8, 20, 30]),
            max_edges: 60,
            max_dim: 3,
            ..Default::default()
        };
        let mut map = gen_map(c, &o);
        if c.chance(1, 3) && map.nodes.len() <= 10 {
            let alphas = vec![1.0; map.dim];
            map = contract(c, &map, &alphas);
        }
        c.note(map.describe());
        let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
        graphs.push((map, g));
    }
    let mut router = Dijkstra::new();
    let mut explorator = osmgraphing::routing::explorating::ConvexHullExplorator::new();
    let q = c.usize(1, 24);
    let mut sizes = std::collections::BTreeSet::new();
    let mut found = 0;
    for i in 0..q {
        let gi = c.usize(0, graphs.len() - 1);
        let (map, g) = &graphs[gi];
        let ids: Vec<i64> = map.used_ids().into_iter().collect();
        let s = c.pick(&ids);
        let t = c.pick(&ids);
        let algo = if c.flip() { RoutingAlgo::CHDijkstra } else { RoutingAlgo::Dijkstra };
        let mut alphas = gen_alphas(c, map.dim);
        if c.chance(1, 12) {
            alphas[0] = -1.0;
            c.label("negative weight (no route)");
        }
        let cfg = routing_cfg(algo, &alphas);
        let explore = c.chance(1, 8) && map.nodes.len() <= 10 && map.dim <= 2 && alphas[0] > 0.0;
        c.note(format!(
            "query {}: graph {} {:?} {} -> {} alphas {:?}{}",
            i, gi, algo, s, t, alphas, if explore { " (explore)" } else { "" }
        ));
        let query = Query {
            src_idx: node_idx(g, s).ok_or("node missing")?,
            dst_idx: node_idx(g, t).ok_or("node missing")?,
            graph: g,
            routing_cfg: &cfg,
        };
        if explore {
            let a = guard("exploration with used router", || {
                explorator.fully_explorate(query, &mut router)
            })?;
            let b = guard("exploration with fresh router", || {
                osmgraphing::routing::explorating::ConvexHullExplorator::new()
                    .fully_explorate(query, &mut Dijkstra::new())
            })?;
            ensure!(a == b, "exploration {}: {} routes, a fresh router finds {}", i, a.len(), b.len());
            c.label("exploration in history");
            continue;
        }
        let a = guard(&format!("query {} with used router", i), || router.compute_best_path(query))?;
        let b = guard(&format!("query {} with fresh router", i), || {
            Dijkstra::new().compute_best_path(query)
        })?;
        match (&a, &b) {
            (None, None) => (),
            (Some(x), Some(y)) => {
                ensure!(
                    x == y,
                    "query {}: used router gives {:?}, fresh router gives {:?}",
                    i,
                    x.iter().map(|e| **e).collect::<Vec<_>>(),
                    y.iter().map(|e| **e).collect::<Vec<_>>()
                );
                if i > 0 && x.iter().count() > 0 {
                    found += 1;
                }
            }
            _ => {
                return Err(format!(
                    "query {}: used router {} a route, fresh router {}",
                    i,
                    if a.is_some() { "finds" } else { "does not find" },
                    if b.is_some() { "does" } else { "does not" }
                ))
            }
        }
        sizes.insert(ids.len());
    }
    Ok(if q >= 3 && sizes.len() >= 2 && found > 0 {
        Verdict::NonTrivial
    } else {
        Verdict::Trivial
    })
}
