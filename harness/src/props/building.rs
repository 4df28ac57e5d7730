//! P05, P06: content and views of a built graph
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::routing::{contract, content, mcontent, shuffle_edges};
use osmgraphing::network::{EdgeIdx, Graph, NodeIdx, RoutePair};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P05",
            run: p05,
            quick: 120_000,
            thorough: 6_000_000,
            rule: "a case is a node and edge list in random order handed to the builder (one case per run with more than 2.3 million edges, i.e. several chunks); non-trivial: listing order differs from the order in the graph, or duplicates or shortcuts exist",
            level: "exploration",
            assumptions: &["edges of equal id and endpoints whose metrics differ by less than 2e-6 may be merged"],
        },
        Prop {
            id: "P06",
            run: p06,
            quick: 240_000,
            thorough: 8_000_000,
            rule: "a case is a graph on which every node, edge, id and pair is looked up; non-trivial: there is a node without leaving or without entering edges, or a parallel edge or self loop",
            level: "exploration",
            assumptions: &[],
        },
    ]
}

type Key = (Option<usize>, i64, i64, Vec<u64>);
type FullKey = (Key, Option<[Key; 2]>);

/// checks the content of the graph against the map
pub fn check_content(map: &Map, g: &Graph) -> Result<(), String> {
    // nodes
    let used: Vec<i64> = map.used_ids().into_iter().collect();
    let nodes = g.nodes();
    ensure!(nodes.count() == used.len(), "{} nodes, expected {}", nodes.count(), used.len());
    let by_id: BTreeMap<i64, &MNode> = map.nodes.iter().map(|n| (n.id, n)).collect();
    for (i, id) in used.iter().enumerate() {
        let idx = NodeIdx(i);
        ensure!(nodes.id(idx) == *id, "node {} has id {}, expected {}", i, nodes.id(idx), id);
        let m = by_id[id];
        let co = nodes.coord(idx);
        ensure!(
            co.lat.to_bits() == m.lat.to_bits() && co.lon.to_bits() == m.lon.to_bits(),
            "node {} has coordinate {:?}, expected ({}, {})",
            id,
            co,
            m.lat,
            m.lon
        );
        ensure!(
            nodes.level(idx) == m.level,
            "node {} has level {}, expected {}",
            id,
            nodes.level(idx),
            m.level
        );
    }
    // edges
    let ge = graph_edges(g);
    check_edges(map, &ge)
}

/// checks a list of edges (with references by position) against the map
pub fn check_edges(map: &Map, ge: &[GEdge]) -> Result<(), String> {
    for e in ge {
        if let Some(sc) = e.sc {
            ensure!(
                sc[0] < ge.len() && sc[1] < ge.len(),
                "edge {} -> {} refers to edges {:?} of {}",
                e.src,
                e.dst,
                sc,
                ge.len()
            );
        }
    }
    let gkey = |e: &GEdge| -> FullKey { (content(e), e.sc.map(|s| [content(&ge[s[0]]), content(&ge[s[1]])])) };
    let mkey = |e: &MEdge| -> FullKey {
        (mcontent(e), e.sc.map(|s| [mcontent(&map.edges[s[0]]), mcontent(&map.edges[s[1]])]))
    };
    // groups in which merging is allowed
    let mut groups: BTreeMap<(Option<usize>, i64, i64), Vec<usize>> = BTreeMap::new();
    for (i, e) in map.edges.iter().enumerate() {
        groups.entry((e.id, e.src, e.dst)).or_default().push(i);
    }
    let mergeable = |a: &MEdge, b: &MEdge| {
        a.metrics.iter().zip(&b.metrics).all(|(x, y)| (x - y).abs() <= 2.0 * EPS)
    };
    let mut loose: BTreeSet<usize> = BTreeSet::new();
    for g in groups.values() {
        for (k, i) in g.iter().enumerate() {
            for j in &g[k + 1..] {
                if mergeable(&map.edges[*i], &map.edges[*j]) {
                    loose.insert(*i);
                    loose.insert(*j);
                }
            }
        }
    }
    // references to mergeable edges may point to any of them: compare these by endpoints only
    let has_loose = !loose.is_empty();
    let mut want: BTreeMap<FullKey, i64> = BTreeMap::new();
    let mut have: BTreeMap<FullKey, i64> = BTreeMap::new();
    for e in &map.edges {
        *want.entry(mkey(e)).or_insert(0) += 1;
    }
    for e in ge {
        *have.entry(gkey(e)).or_insert(0) += 1;
    }
    if !has_loose {
        ensure!(
            ge.len() == map.edges.len(),
            "graph has {} edges, the map {}",
            ge.len(),
            map.edges.len()
        );
        if want != have {
            let missing: Vec<_> = want.iter().filter(|(k, n)| have.get(*k) != Some(*n)).take(3).collect();
            let extra: Vec<_> = have.iter().filter(|(k, n)| want.get(*k) != Some(*n)).take(3).collect();
            return Err(format!(
                "edges differ; in the map only: {:?}; in the graph only: {:?}",
                missing.iter().map(|x| pretty(x.0)).collect::<Vec<_>>(),
                extra.iter().map(|x| pretty(x.0)).collect::<Vec<_>>()
            ));
        }
        return Ok(());
    }
    // with mergeable edges: nothing new, nothing more often than declared, every declared edge has
    // a representative, and edges that may not be merged are all there
    let strip = |k: &FullKey| -> Key { k.0.clone() };
    let mut want_c: BTreeMap<Key, i64> = BTreeMap::new();
    let mut have_c: BTreeMap<Key, i64> = BTreeMap::new();
    for (k, n) in &want {
        *want_c.entry(strip(k)).or_insert(0) += n;
    }
    for (k, n) in &have {
        *have_c.entry(strip(k)).or_insert(0) += n;
    }
    for (k, n) in &have_c {
        ensure!(
            want_c.get(k).copied().unwrap_or(0) >= *n,
            "graph has the edge {:?} {} times, the map {} times",
            pretty(&(k.clone(), None)),
            n,
            want_c.get(k).copied().unwrap_or(0)
        );
    }
    for (i, e) in map.edges.iter().enumerate() {
        if loose.contains(&i) {
            let rep = ge.iter().any(|x| {
                (x.id, x.src, x.dst) == (e.id, e.src, e.dst)
                    && x.metrics.iter().zip(&e.metrics).all(|(a, b)| (a - stored(*b)).abs() <= 3.0 * EPS * map.edges.len() as f64)
            });
            ensure!(rep, "edge {:?} of the map has no counterpart in the graph", pretty(&mkey(e)));
        } else {
            let k = mcontent(e);
            ensure!(
                have_c.get(&k).copied().unwrap_or(0) == want_c[&k],
                "edge {:?} of the map is not in the graph",
                pretty(&mkey(e))
            );
        }
    }
    // shortcut references: right endpoints and metrics (up to the merge tolerance)
    for e in ge {
        let cands: Vec<&MEdge> = map.edges.iter().filter(|m| mcontent(m) == content(e)).collect();
        let ok = cands.iter().any(|m| match (m.sc, e.sc) {
            (None, None) => true,
            (Some(a), Some(b)) => (0..2).all(|k| {
                let x = &map.edges[a[k]];
                let y = &ge[b[k]];
                (x.id, x.src, x.dst) == (y.id, y.src, y.dst)
                    && x.metrics.iter().zip(&y.metrics).all(|(p, q)| (stored(*p) - q).abs() <= 3.0 * EPS * map.edges.len() as f64)
            }),
            _ => false,
        });
        ensure!(ok, "edge {:?} has wrong shortcut references", pretty(&gkey(e)));
    }
    Ok(())
}

fn pretty(k: &FullKey) -> String {
    let p = |k: &Key| {
        format!(
            "{:?} {}->{} {:?}",
            k.0,
            k.1,
            k.2,
            k.3.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
        )
    };
    match &k.1 {
        None => p(&k.0),
        Some(s) => format!("{} [{} | {}]", p(&k.0), p(&s[0]), p(&s[1])),
    }
}

/// a map with everything: extra nodes, shortcuts, duplicates, ids, levels
pub fn gen_rich_map(c: &mut Ctx, o: &GraphOpts) -> Map {
    let mut map = gen_map(c, o);
    if c.flip() && map.used_ids().len() <= 10 {
        let alphas = gen_alphas(c, map.dim);
        map = contract(c, &map, &alphas);
    }
    // arbitrary references
    if c.size <= 100 && c.chance(1, 5) {
        let m = map.edges.len();
        for i in 0..m {
            if c.chance(1, 3) {
                map.edges[i].sc = Some([c.usize(0, m - 1), c.usize(0, m - 1)]);
            }
        }
    }
    // duplicates, exact or nearly exact
    if c.size <= 100 && c.chance(1, 3) {
        let k = c.usize(1, 6);
        for _ in 0..k {
            let i = c.usize(0, map.edges.len() - 1);
            let mut e = map.edges[i].clone();
            if c.chance(1, 4) {
                e.metrics[0] += 0.25;
                if e.id.is_some() {
                    continue; // the same id twice is an error
                }
                e.sc = None;
            }
            map.edges.push(e);
        }
        shuffle_edges(c, &mut map);
    }
    // nodes that no edge uses
    if c.chance(1, 3) {
        let k = c.usize(1, 4);
        for _ in 0..k {
            let id = c.i64(-1000, 1000);
            if map.nodes.iter().all(|n| n.id != id) {
                let (lat, lon) = gen_coord(c);
                map.nodes.push(MNode { id, lat, lon, level: c.usize(0, 3) });
            }
        }
        let mut nodes = map.nodes.clone();
        c.shuffle(&mut nodes);
        map.nodes = nodes;
    }
    map
}

fn p05(c: &mut Ctx) -> Res {
    if c.size == 101 {
        return p05_huge(c);
    }
    let map = gen_rich_map(c, &GraphOpts { max_nodes: 16, max_edges: 50, ..Default::default() });
    c.note(map.describe());
    let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    check_content(&map, &g)?;
    let ge = graph_edges(&g);
    let same_order = ge.len() == map.edges.len()
        && ge.iter().zip(&map.edges).all(|(a, b)| (a.src, a.dst) == (b.src, b.dst));
    if ge.len() < map.edges.len() {
        c.label("merged duplicates");
    }
    if map.edges.iter().any(|e| e.sc.is_some()) {
        c.label("shortcuts");
    }
    Ok(if !same_order || map.edges.iter().any(|e| e.sc.is_some()) {
        Verdict::NonTrivial
    } else {
        Verdict::Trivial
    })
}

/// more edges than fit into one chunk; every value is a function of the edge's id
fn p05_huge(c: &mut Ctx) -> Res {
    use osmgraphing::network::{GraphBuilder, ProtoEdge, ProtoNode};
    let m = 2_400_000 + c.usize(0, 50_000);
    let n = 300_000 + c.usize(0, 100_000);
    let mul = 2 * c.usize(100, 1_000_000) + 1;
    c.note(format!("{} nodes, {} edges, multiplier {}", n, m, mul));
    c.label("several chunks");
    let f = |i: usize| -> (i64, i64, f64) {
        let s = (i.wrapping_mul(mul) >> 3) % n;
        let t = (i.wrapping_mul(mul).wrapping_mul(31) >> 7) % n;
        (s as i64, t as i64, 1.0 + (i % 100_003) as f64 * 0.5)
    };
    let mut b = GraphBuilder::new(plain_cfg(1));
    let mut used = vec![false; n];
    for i in 0..m {
        let (s, t, w) = f(i);
        used[s as usize] = true;
        used[t as usize] = true;
        let mut metrics = smallvec::SmallVec::new();
        metrics.push(w);
        b.insert(ProtoEdge { id: Some(i), src_id: s, dst_id: t, metrics }).map_err(|e| e.to_string())?;
    }
    let mut b = b.next();
    for i in 0..n {
        b.insert(ProtoNode {
            id: i as i64,
            coord: kissunits::geo::Coordinate { lat: (i % 90) as f64, lon: (i % 180) as f64 },
            ch_level: Some(i % 5),
        });
    }
    let g = b.next().map_err(|e| e.to_string())?.finalize().map_err(|e| format!("valid map rejected: {}", e))?;
    let expect_n = used.iter().filter(|u| **u).count();
    ensure!(g.nodes().count() == expect_n, "{} nodes, expected {}", g.nodes().count(), expect_n);
    ensure!(g.fwd_edges().count() == m, "{} edges, expected {}", g.fwd_edges().count(), m);
    let (fwd, bwd, nodes) = (g.fwd_edges(), g.bwd_edges(), g.nodes());
    for i in 0..nodes.count() {
        let id = nodes.id(NodeIdx(i));
        let co = nodes.coord(NodeIdx(i));
        ensure!(
            co.lat == (id % 90) as f64 && co.lon == (id % 180) as f64 && nodes.level(NodeIdx(i)) == (id % 5) as usize,
            "node {} has wrong attributes",
            id
        );
    }
    let mut seen = vec![false; m];
    for e in 0..m {
        let e = EdgeIdx(e);
        let id = fwd.try_id(e).ok_or("edge without id")?;
        ensure!(id < m && !seen[id], "edge id {} is unexpected or occurs twice", id);
        seen[id] = true;
        let (s, t, w) = f(id);
        ensure!(
            (nodes.id(bwd.dst_idx(e)), nodes.id(fwd.dst_idx(e)), g.metrics()[e][0]) == (s, t, w),
            "edge {} is {} -> {} with {}, expected {} -> {} with {}",
            id,
            nodes.id(bwd.dst_idx(e)),
            nodes.id(fwd.dst_idx(e)),
            g.metrics()[e][0],
            s,
            t,
            w
        );
    }
    Ok(Verdict::NonTrivial)
}

// ---------------------------------------------------------------------------------------------- //

fn p06(c: &mut Ctx) -> Res {
    let map = gen_rich_map(c, &GraphOpts { max_nodes: 12, max_edges: 40, ..Default::default() });
    c.note(map.describe());
    let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    check_views(c, &g, &map.nodes.iter().map(|n| n.id).collect::<Vec<_>>())?;

    // non-trivial?
    let used = map.used_ids();
    let (srcs, dsts): (HashSet<i64>, HashSet<i64>) = (map.edges.iter().map(|e| e.src).collect(), map.edges.iter().map(|e| e.dst).collect());
    let no_out = used.iter().any(|id| !srcs.contains(id));
    let no_in = used.iter().any(|id| !dsts.contains(id));
    let mut pairs = BTreeSet::new();
    let par = map.edges.iter().any(|e| !pairs.insert((e.src, e.dst)) || e.src == e.dst);
    if no_out {
        c.label("node without leaving edge");
    }
    if no_in {
        c.label("node without entering edge");
    }
    if par {
        c.label("parallel edge or self loop");
    }
    Ok(if no_out || no_in || par { Verdict::NonTrivial } else { Verdict::Trivial })
}

/// consistency of both views and all lookups
pub fn check_views(c: &mut Ctx, g: &Graph, some_ids: &[i64]) -> Result<(), String> {
    // the summary of a graph is logged by the tools
    guard("summarising the graph", || format!("{}", g))?;
    let ge = graph_edges(g);
    let (fwd, bwd, nodes) = (g.fwd_edges(), g.bwd_edges(), g.nodes());
    let n = nodes.count();
    ensure!(fwd.count() == bwd.count(), "forward view has {} edges, backward view {}", fwd.count(), bwd.count());
    let m = fwd.count();
    ensure!(
        nodes.iter().map(|x| *x).eq(0..n) && fwd.iter().map(|x| *x).eq(0..m) && bwd.iter().map(|x| *x).eq(0..m),
        "iterating over nodes or edges is not 0..count"
    );
    let mut seen_f = vec![0; m];
    let mut seen_b = vec![0; m];
    for i in 0..n {
        let v = NodeIdx(i);
        let id = nodes.id(v);
        let leaving: Vec<_> = guard(&format!("leaving edges of node {}", id), || {
            fwd.starting_from(v).map(|h| (h.idx(), h.dst_idx(), h.metrics().to_vec(), h.is_shortcut(), h.sc_edges().copied())).collect()
        })?;
        let entering: Vec<_> = guard(&format!("entering edges of node {}", id), || {
            bwd.starting_from(v).map(|h| (h.idx(), h.dst_idx(), h.metrics().to_vec(), h.is_shortcut(), h.sc_edges().copied())).collect()
        })?;
        for (e, d, ms, is_sc, sc) in leaving {
            ensure!(*e < m, "edge index {} out of range", e);
            seen_f[*e] += 1;
            let x = &ge[*e];
            ensure!(x.src == id, "edge {} ({} -> {}) is listed as leaving {}", e, x.src, x.dst, id);
            ensure!(nodes.id(d) == x.dst, "edge {} leads to {} in the forward view instead of {}", e, nodes.id(d), x.dst);
            ensure!(ms == x.metrics, "edge {}: metrics {:?} in the forward view instead of {:?}", e, ms, x.metrics);
            ensure!(is_sc == x.sc.is_some() && sc.map(|s| [*s[0], *s[1]]) == x.sc, "edge {}: shortcut differs", e);
        }
        for (e, d, ms, is_sc, sc) in entering {
            ensure!(*e < m, "edge index {} out of range", e);
            seen_b[*e] += 1;
            let x = &ge[*e];
            ensure!(x.dst == id, "edge {} ({} -> {}) is listed as entering {}", e, x.src, x.dst, id);
            ensure!(nodes.id(d) == x.src, "edge {} comes from {} in the backward view instead of {}", e, nodes.id(d), x.src);
            ensure!(ms == x.metrics, "edge {}: metrics {:?} in the backward view instead of {:?}", e, ms, x.metrics);
            ensure!(is_sc == x.sc.is_some() && sc.map(|s| [*s[0], *s[1]]) == x.sc, "edge {}: shortcut differs", e);
        }
    }
    for e in 0..m {
        ensure!(seen_f[e] == 1, "edge {} occurs {} times among the leaving edges", e, seen_f[e]);
        ensure!(seen_b[e] == 1, "edge {} occurs {} times among the entering edges", e, seen_b[e]);
        let i = EdgeIdx(e);
        ensure!(fwd.try_id(i) == bwd.try_id(i), "edge {}: ids differ between the views", e);
        ensure!(fwd.metrics()[i] == bwd.metrics()[i], "edge {}: metrics differ between the views", e);
        ensure!(fwd.is_shortcut(i) == bwd.is_shortcut(i) && fwd.sc_edges(i) == bwd.sc_edges(i), "edge {}: shortcut differs between the views", e);
        let h = fwd.half_edge(i);
        ensure!(h.idx() == i && h.dst_idx() == fwd.dst_idx(i), "half edge {} differs", e);
        // lookup by id
        if let Some(id) = fwd.try_id(i) {
            for (what, v) in vec![("forward", &fwd), ("backward", &bwd)] {
                let r = guard("lookup of an edge id", || v.try_idx_from(id))?;
                match r {
                    Ok(x) => ensure!(x == i, "{}: edge id {} is found at {} instead of {}", what, id, x, e),
                    Err(m) => return Err(format!("{}: edge id {} is not found: {}", what, id, m)),
                }
                ensure!(guard("lookup", || v.idx_from(id))? == i && v.id(i) == id, "{}: lookup of edge id {} differs", what, id);
            }
        }
    }
    // absent edge ids
    let present: BTreeSet<usize> = (0..m).filter_map(|e| fwd.try_id(EdgeIdx(e))).collect();
    let mut tries: BTreeSet<usize> = present.iter().flat_map(|i| vec![i.wrapping_add(1), i.wrapping_sub(1)]).collect();
    tries.insert(0);
    tries.insert(usize::MAX);
    for id in tries {
        if !present.contains(&id) {
            let r = guard("lookup of an absent edge id", || fwd.try_idx_from(id))?;
            ensure!(r.is_err(), "absent edge id {} is found", id);
        }
    }
    // nodes
    let ids: Vec<i64> = (0..n).map(|i| nodes.id(NodeIdx(i))).collect();
    ensure!(ids.windows(2).all(|w| w[0] < w[1]), "node ids are not strictly ascending");
    let set: BTreeSet<i64> = ids.iter().copied().collect();
    let mut tries: BTreeSet<i64> = ids.iter().flat_map(|i| vec![*i, i.wrapping_add(1), i.wrapping_sub(1)]).collect();
    tries.extend(some_ids.iter().copied());
    tries.extend(vec![0, i64::MIN, i64::MAX]);
    for id in tries {
        let r = guard("lookup of a node id", || nodes.idx_from(id))?;
        let cr = guard("creation of a node", || nodes.create_from(id))?;
        if set.contains(&id) {
            let idx = r.map_err(|_| format!("node id {} is not found", id))?;
            ensure!(nodes.id(idx) == id, "node id {} is found at {}, which has id {}", id, idx, nodes.id(idx));
            let node = cr.ok_or(format!("node id {} is not found", id))?;
            ensure!(
                node.id() == id && node.idx() == idx && node.ch_level() == nodes.level(idx)
                    && node.coord().lat == nodes.coord(idx).lat && node.coord().lon == nodes.coord(idx).lon,
                "node {} is created with other attributes",
                id
            );
        } else {
            ensure!(r.is_err() && cr.is_none(), "absent node id {} is found", id);
        }
    }
    // edges by endpoints, in both views
    let ends: HashSet<(i64, i64)> = ge.iter().map(|e| (e.src, e.dst)).collect();
    let all: Vec<(usize, usize)> = if n <= 300 {
        (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect()
    } else {
        (0..4000)
            .map(|k| match k % 2 {
                0 => (c.usize(0, n - 1), c.usize(0, n - 1)),
                _ => {
                    let e = EdgeIdx(c.usize(0, m - 1));
                    (*bwd.dst_idx(e), *fwd.dst_idx(e))
                }
            })
            .collect()
    };
    {
        for (a, b) in all {
            let (x, y) = (NodeIdx(a), NodeIdx(b));
            let exists = ends.contains(&(ids[a], ids[b]));
            let f = guard("lookup of an edge by endpoints", || fwd.between(x, y).map(|h| h.idx()))?;
            let r = guard("lookup of an edge by endpoints", || bwd.between(y, x).map(|h| h.idx()))?;
            for (what, h) in vec![("forward", f), ("backward", r)] {
                match h {
                    None => ensure!(!exists, "{}: edge {} -> {} is not found", what, ids[a], ids[b]),
                    Some(i) => {
                        ensure!(exists, "{}: absent edge {} -> {} is found", what, ids[a], ids[b]);
                        ensure!(
                            ge[*i].src == ids[a] && ge[*i].dst == ids[b],
                            "{}: looking for {} -> {} gives {} -> {}",
                            what,
                            ids[a],
                            ids[b],
                            ge[*i].src,
                            ge[*i].dst
                        );
                    }
                }
            }
        }
    }
    // pairs of ids
    if n > 0 {
        let (a, b) = (c.usize(0, n - 1), c.usize(0, n - 1));
        let p = RoutePair { src: ids[a], dst: ids[b] };
        let q = guard("RoutePair::into_idx", || p.into_idx(g))?;
        ensure!(q.src == NodeIdx(a) && q.dst == NodeIdx(b), "pair of ids {:?} gives indices ({}, {})", (ids[a], ids[b]), q.src, q.dst);
        let r = guard("RoutePair::into_node", || p.into_node(g))?;
        ensure!(r.src.id() == ids[a] && r.dst.id() == ids[b], "pair of ids gives other nodes");
        let r = guard("RoutePair::into_node", || q.into_node(g))?;
        ensure!(r.src.id() == ids[a] && r.dst.id() == ids[b], "pair of indices gives other nodes");
    }
    Ok(())
}
