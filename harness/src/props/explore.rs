//! P19: exploring alternative routes
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::routing::{check_path, shuffle_edges};
use osmgraphing::{
    configs::routing::RoutingAlgo,
    routing::{
        dijkstra::{Dijkstra, Query},
        explorating::ConvexHullExplorator,
    },
};
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P19",
        run: p19,
        quick: 120_000,
        thorough: 2_000_000,
        rule: "a case is a small generated graph with opposed metrics, a weighting with at least one positive weight, tolerances (or none) and one or several pairs explored one after another with the same explorator; every simple route is enumerated as oracle; non-trivial: at least two considered metrics and at least two routes with different costs are returned, or a tolerance excludes a route",
        level: "exploration",
        assumptions: &["the convex-hull library (C++/CGAL) is replaced by a reference implementation", "costs are compared with an absolute tolerance of 4e-6 per node (the accuracy of the code is 1e-6)"],
    }]
}

pub fn gen(c: &mut Ctx, max_edges: usize) -> Map {
    let n = c.usize(2, 7);
    let dim = c.weighted(&[0, 1, 8, 5, 2, 1]);
    let ids = gen_ids(c, n);
    let mut pairs = vec![];
    match c.weighted(&[4, 3, 2]) {
        0 => {
            // layers from the first to the last node, with parallels
            let m = c.usize(1, max_edges);
            for k in 0..m {
                let a = if k + 1 < n { k } else { c.usize(0, n - 2) };
                let b = (a + c.usize(1, 2)).min(n - 1);
                pairs.push((a, b));
            }
        }
        1 => {
            let m = c.usize(1, max_edges);
            for _ in 0..m {
                pairs.push((c.usize(0, n - 1), c.usize(0, n - 1)));
            }
        }
        _ => {
            // many routes of one or two hops
            let m = c.usize(1, max_edges);
            for k in 0..m {
                if k % 2 == 0 {
                    pairs.push((0, n - 1));
                } else {
                    let v = c.usize(0, n - 1);
                    pairs.push((0, v));
                    pairs.push((v, n - 1));
                }
            }
            pairs.truncate(max_edges);
        }
    }
    let kind = c.weighted(&[3, 3, 2, 2]);
    let edges = pairs
        .into_iter()
        .map(|(a, b)| MEdge {
            id: None,
            src: ids[a],
            dst: ids[b],
            metrics: match kind {
                // opposed metrics: points near a convex front
                0 if dim >= 2 => {
                    let t = c.draw(10_000) as f64 / 10_000.0;
                    (0..dim)
                        .map(|k| {
                            let x = match k {
                                0 => 1.0 + 20.0 * t * t,
                                1 => 1.0 + 20.0 * (1.0 - t) * (1.0 - t),
                                _ => 1.0 + c.draw(200) as f64 / 10.0,
                            };
                            (x * 1000.0).round() / 1000.0
                        })
                        .collect()
                }
                1 => (0..dim).map(|_| c.usize(1, 9) as f64).collect(),
                2 => (0..dim).map(|_| c.usize(1, 400) as f64 / 8.0).collect(),
                _ => (0..dim).map(|_| (1 + c.draw(99_999)) as f64 / 100.0).collect(),
            },
            sc: None,
        })
        .collect();
    Map {
        dim,
        nodes: ids
            .iter()
            .map(|id| MNode { id: *id, lat: 1.0, lon: 2.0, level: 0 })
            .collect(),
        edges,
    }
}

/// a contraction that keeps all routes of any weighting: every pair of an arriving and a leaving
/// edge of a contracted node becomes a shortcut
pub fn contract_fully(c: &mut Ctx, map: &Map, cap: usize) -> Option<Map> {
    let mut out = map.clone();
    let mut remaining: Vec<i64> = map.used_ids().into_iter().collect();
    c.shuffle(&mut remaining);
    let mut level = 0;
    while let Some(v) = remaining.pop() {
        for n in out.nodes.iter_mut().filter(|n| n.id == v) {
            n.level = level;
        }
        level += 1;
        let ins: Vec<usize> = (0..out.edges.len())
            .filter(|i| out.edges[*i].dst == v && remaining.contains(&out.edges[*i].src))
            .collect();
        let outs: Vec<usize> = (0..out.edges.len())
            .filter(|i| out.edges[*i].src == v && remaining.contains(&out.edges[*i].dst))
            .collect();
        for a in &ins {
            for b in &outs {
                let (x, y) = (&out.edges[*a], &out.edges[*b]);
                if x.src == y.dst {
                    continue;
                }
                let e = MEdge {
                    id: None,
                    src: x.src,
                    dst: y.dst,
                    metrics: (0..map.dim).map(|k| x.metrics[k] + y.metrics[k]).collect(),
                    sc: Some([*a, *b]),
                };
                out.edges.push(e);
                if out.edges.len() > cap {
                    return None;
                }
            }
        }
    }
    if c.flip() {
        shuffle_edges(c, &mut out);
    }
    Some(out)
}

/// costs of all simple routes
fn all_routes(map: &Map, src: i64, dst: i64, cap: usize) -> Option<Vec<Vec<f64>>> {
    fn go(
        map: &Map,
        at: i64,
        dst: i64,
        seen: &mut Vec<i64>,
        costs: &[f64],
        out: &mut Vec<Vec<f64>>,
        steps: &mut usize,
        cap: usize,
    ) -> bool {
        *steps += 1;
        if out.len() > cap || *steps > 20 * cap {
            return false;
        }
        if at == dst {
            out.push(costs.to_vec());
            return true;
        }
        seen.push(at);
        for e in &map.edges {
            if e.src == at && !seen.contains(&e.dst) {
                let next: Vec<f64> = costs.iter().zip(&e.metrics).map(|(a, b)| a + b).collect();
                if !go(map, e.dst, dst, seen, &next, out, steps, cap) {
                    return false;
                }
            }
        }
        seen.pop();
        true
    }
    let mut out = vec![];
    let mut steps = 0;
    if go(map, src, dst, &mut vec![], &vec![0.0; map.dim], &mut out, &mut steps, cap) {
        Some(out)
    } else {
        None
    }
}

/// min over weights w >= 0 with sum 1 of (max over routes q of w*(p-q)): zero if p is optimal for
/// some weighting.  Solved as matrix game with the simplex method.
fn regret(p: &[f64], routes: &[Vec<f64>]) -> f64 {
    let d = p.len();
    // A[q][i] = p_i - q_i + shift > 0; maximise sum x s.t. A x <= 1; value = 1 / sum x
    let mut lo: f64 = 0.0;
    let mut hi: f64 = 0.0;
    for q in routes {
        for i in 0..d {
            lo = lo.min(p[i] - q[i]);
            hi = hi.max(p[i] - q[i]);
        }
    }
    let scale = (hi - lo).max(1e-3);
    let shift = -lo + scale;
    let m = routes.len();
    // tableau rows: d columns of x (or of slacks after pivots), right side
    let mut t: Vec<Vec<f64>> = routes
        .iter()
        .map(|q| {
            let mut r: Vec<f64> = (0..d).map(|i| (p[i] - q[i] + shift) / scale).collect();
            r.push(1.0);
            r
        })
        .collect();
    let mut obj: Vec<f64> = vec![1.0; d];
    obj.push(0.0);
    // ids for Bland's rule: columns 0..d are x, d.. are slacks
    let mut col: Vec<usize> = (0..d).collect();
    let mut row: Vec<usize> = (d..d + m).collect();
    for _ in 0..1000 {
        let j = match (0..d).filter(|j| obj[*j] > 1e-12).min_by_key(|j| col[*j]) {
            Some(j) => j,
            None => break,
        };
        let mut best: Option<(f64, usize)> = None;
        for i in 0..m {
            if t[i][j] > 1e-11 {
                let r = t[i][d] / t[i][j];
                best = match best {
                    Some((b, k)) if b < r - 1e-13 || ((b - r).abs() <= 1e-13 && row[k] < row[i]) => Some((b, k)),
                    _ => Some((r, i)),
                };
            }
        }
        let i = match best {
            Some((_, i)) => i,
            None => break,
        };
        let piv = t[i][j];
        let mut prow = t[i].clone();
        for k in 0..=d {
            prow[k] /= piv;
        }
        prow[j] = 1.0 / piv;
        for r in 0..m {
            if r != i {
                let f = t[r][j];
                if f != 0.0 {
                    for k in 0..=d {
                        if k == j {
                            t[r][k] = -f * prow[k];
                        } else {
                            t[r][k] -= f * prow[k];
                        }
                    }
                }
            }
        }
        let f = obj[j];
        for k in 0..=d {
            if k == j {
                obj[k] = -f * prow[k];
            } else {
                obj[k] -= f * prow[k];
            }
        }
        t[i] = prow;
        std::mem::swap(&mut col[j], &mut row[i]);
    }
    let sum = -obj[d];
    scale / sum - shift
}

fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// (best route, how much worse every route with other costs is)
fn best<'a>(routes: &'a [Vec<f64>], w: &[f64]) -> (&'a Vec<f64>, f64) {
    let b = routes
        .iter()
        .min_by(|x, y| dot(x, w).partial_cmp(&dot(y, w)).unwrap())
        .unwrap();
    let margin = routes
        .iter()
        .filter(|r| r.iter().zip(b).any(|(x, y)| (x - y).abs() > 1e-9 * (1.0 + y.abs())))
        .map(|r| dot(r, w) - dot(b, w))
        .fold(f64::INFINITY, f64::min);
    (b, margin)
}

fn p19(c: &mut Ctx) -> Res {
    let ch = c.chance(1, 4);
    let map = gen(c, if ch { 9 } else { 18 });
    let mut alphas = gen_alphas(c, map.dim);
    if c.chance(1, 3) {
        for a in alphas.iter_mut() {
            *a = 1.0;
        }
    }
    if !alphas.iter().any(|a| *a > 0.0) {
        let k = c.usize(0, map.dim - 1);
        alphas[k] = 1.0;
    }
    // only the sign of a weight matters
    if c.chance(1, 6) {
        for a in alphas.iter_mut() {
            *a *= c.pick(&[1e-7, 1.0, 1e-12, 1e-300, 1e12]);
        }
        c.label("tiny weights");
    }
    let considered: Vec<usize> = (0..map.dim).filter(|i| alphas[*i] > 0.0).collect();
    let tight = c.chance(1, 2);
    let scales: Vec<f64> = (0..map.dim)
        .map(|_| {
            if tight && c.chance(2, 3) {
                match c.weighted(&[2, 4, 2, 1]) {
                    0 => 1.0,
                    1 => 1.0 + c.draw(3000) as f64 / 1000.0,
                    2 => c.pick(&[1.5, 2.0, 1.25, 1.1]),
                    _ => c.pick(&[0.5, 0.0, 100.0]),
                }
            } else {
                f64::INFINITY
            }
        })
        .collect();
    let full = if ch { contract_fully(c, &map, 200) } else { None };
    let algo = if full.is_some() { RoutingAlgo::CHDijkstra } else { RoutingAlgo::Dijkstra };
    let is_ch = full.is_some();
    let graph_map = full.unwrap_or_else(|| map.clone());
    c.note(graph_map.describe());
    c.note(format!("{:?} alphas {:?} tolerated scales {:?}", algo, alphas, scales));
    let g = graph_map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    let ids: Vec<i64> = map.used_ids().into_iter().collect();
    let mut pairs: Vec<(i64, i64)> = vec![(map.nodes[0].id, map.nodes[map.nodes.len() - 1].id)]
        .into_iter()
        .filter(|(a, b)| ids.contains(a) && ids.contains(b))
        .collect();
    for _ in 0..c.usize(0, 3) {
        pairs.push((c.pick(&ids), c.pick(&ids)));
    }
    let mut cfg = routing_cfg(algo, &alphas);
    cfg.tolerated_scales = scales.iter().copied().collect();
    let mut explorator = ConvexHullExplorator::new();
    let mut dijkstra = Dijkstra::new();
    let mut nontrivial = false;
    for (s, t) in pairs {
        let routes = match all_routes(&map, s, t, 1500) {
            Some(r) => r,
            None => {
                c.label("too many routes");
                continue;
            }
        };
        let (si, ti) = (node_idx(&g, s).unwrap(), node_idx(&g, t).unwrap());
        c.note(format!("explore {} -> {} ({} simple routes)", s, t, routes.len()));
        let found = guard("exploring", || {
            explorator.fully_explorate(
                Query { src_idx: si, dst_idx: ti, graph: &g, routing_cfg: &cfg },
                &mut dijkstra,
            )
        })?;
        if routes.is_empty() {
            c.label("unreachable");
            ensure!(found.is_empty(), "{} routes {} -> {}, which is unreachable", found.len(), s, t);
            continue;
        }
        let n = g.nodes().count();
        let mut seen = BTreeSet::new();
        let mut costs: Vec<Vec<f64>> = vec![];
        for p in &found {
            check_path(&g, p, si, ti, &alphas)?;
            let edges: Vec<usize> = p.iter().map(|e| **e).collect();
            ensure!(seen.insert(edges.clone()), "route {} -> {} over edges {:?} returned twice", s, t, edges);
            let own: Vec<f64> = p.costs().iter().copied().collect();
            costs.push(own);
        }
        let worst = routes.iter().flat_map(|r| r.iter()).fold(0.0f64, |a, b| a.max(*b));
        let eps = tol(n, worst);
        // tolerances
        let bests: Vec<f64> = (0..map.dim)
            .map(|k| routes.iter().map(|r| r[k]).fold(f64::INFINITY, f64::min))
            .collect();
        let limit = |k: usize| {
            if scales[k].is_infinite() || !considered.contains(&k) {
                f64::INFINITY
            } else {
                bests[k] * scales[k]
            }
        };
        let limits: Vec<f64> = (0..map.dim).map(limit).collect();
        let leps = |k: usize| eps * (1.0 + if scales[k].is_finite() { scales[k] } else { 0.0 });
        let only = |r: &[f64]| -> Vec<f64> { considered.iter().map(|k| r[*k]).collect() };
        let oroutes: Vec<Vec<f64>> = routes.iter().map(|r| only(r)).collect();
        for r in &costs {
            for k in 0..map.dim {
                ensure!(
                    r[k] <= limits[k] + leps(k),
                    "a route {} -> {} costs {} in metric {}, but {} x {} is tolerated",
                    s, t, r[k], k, scales[k], bests[k]
                );
            }
            let x = regret(&only(r), &oroutes);
            ensure!(
                x <= eps + 1e-7 * worst,
                "a route {} -> {} with costs {:?} is not optimal for any weighting (always at least {} worse)",
                s, t, r, x
            );
        }
        // what has to be found
        let surely_tolerated = |r: &[f64]| (0..map.dim).all(|k| r[k] <= limits[k] - leps(k));
        let has = |r: &[f64]| {
            costs
                .iter()
                .any(|q| considered.iter().all(|k| (q[*k] - r[*k]).abs() <= eps))
        };
        let margin = 100.0 * eps + 1e-6 * worst;
        let infinite = limits.iter().all(|l| l.is_infinite());
        if infinite {
            ensure!(!found.is_empty(), "no route {} -> {} though reachable", s, t);
            for k in &considered {
                ensure!(
                    costs.iter().any(|r| r[*k] <= bests[*k] + eps),
                    "no route {} -> {} is best in metric {} (best is {}; returned {:?})",
                    s, t, k, bests[*k], costs
                );
            }
        }
        let d = considered.len();
        let mut init = vec![];
        for mask in 1..(1usize << d) {
            let w: Vec<f64> = (0..d).map(|i| ((mask >> i) & 1) as f64).collect();
            let (b, m) = best(&oroutes, &w);
            let full = &routes[oroutes.iter().position(|r| r == b).unwrap()];
            if m > margin && surely_tolerated(full) && oroutes.iter().filter(|r| *r == b).count() == 1 {
                ensure!(
                    has(full),
                    "the only best route {} -> {} for the weighting {:?} of the considered metrics {:?} costs {:?}, but is not returned (returned {:?})",
                    s, t, w, considered, full, costs
                );
            }
            init.push((b.clone(), m));
        }
        if d == 2 && init.iter().all(|x| x.1 > margin) {
            // corners of the front between the best routes of both metrics
            let (a, b, m) = (&init[0].0, &init[1].0, &init[2].0);
            let cross = (b[0] - a[0]) * (m[1] - a[1]) - (b[1] - a[1]) * (m[0] - a[0]);
            let len = ((b[0] - a[0]).powi(2) + (b[1] - a[1]).powi(2)).sqrt();
            if cross.abs() > 10.0 * margin * len && a != b {
                c.label("front of two metrics");
                // every corner of the hull with margin
                let mut corners = 0;
                for (i, r) in oroutes.iter().enumerate() {
                    if !surely_tolerated(&routes[i]) {
                        continue;
                    }
                    // largest margin by which r is the only best one: test the weightings between
                    // the directions to its neighbours
                    let mut lo: f64 = 0.0;
                    let mut hi: f64 = 1.0;
                    let mut twins = 0;
                    for q in &oroutes {
                        if (q[0] - r[0]).abs() <= eps && (q[1] - r[1]).abs() <= eps {
                            twins += 1;
                            continue;
                        }
                        // w*q0 + (1-w)*q1 - (w*r0 + (1-w)*r1) >= 2*margin
                        let (x, y) = (q[0] - r[0], q[1] - r[1]);
                        let (slope, rest) = (x - y, 2.0 * margin - y);
                        if slope > 0.0 {
                            lo = lo.max(rest / slope);
                        } else if slope < 0.0 {
                            hi = hi.min(rest / slope);
                        } else if rest > 0.0 {
                            hi = -1.0;
                        }
                    }
                    if twins == 1 && lo <= hi {
                        corners += 1;
                        ensure!(
                            has(&routes[i]),
                            "the route {} -> {} with costs {:?} is the only best one for the weights {:?}, but is not returned (returned {:?})",
                            s, t, routes[i], (lo, 1.0 - lo), costs
                        );
                    }
                }
                if corners > 3 {
                    c.label("front with more than three corners");
                }
            }
        }
        c.label(format!("{} returned", found.len().min(9)));
        let distinct: BTreeSet<String> = costs.iter().map(|r| format!("{:?}", r)).collect();
        if d >= 2 && (distinct.len() >= 2 || routes.iter().any(|r| (0..map.dim).any(|k| r[k] > limits[k]))) {
            nontrivial = true;
        }
    }
    if is_ch {
        c.label("contracted");
    }
    Ok(if nontrivial { Verdict::NonTrivial } else { Verdict::Trivial })
}
