//! P15, P16, P22: route pairs and vehicle routes
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::building::gen_rich_map;
use crate::props::routing::contract;
use osmgraphing::{
    configs::{self, routing::{ExploratorAlgo, RoutingAlgo}},
    io,
    network::{EdgeIdx, NodeIdx},
    routing::{
        dijkstra::{Dijkstra, Query},
        paths::Path,
    },
};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P15",
            run: p15,
            quick: 100_000,
            thorough: 1_200_000,
            rule: "a case is a graph (plain or contracted, possibly without any edge) with seed and limit, for which pairs are written twice; non-trivial: at least one pair exists and either the limit is exceeded, or some pairs of nodes are not connected",
            level: "exploration",
            assumptions: &[],
        },
        Prop {
            id: "P16",
            run: p16,
            quick: 300_000,
            thorough: 4_000_000,
            rule: "a case is a route-pair file with 0-40 pairs, comments, blank lines, surplus lines, and possibly one malformed line, missing count or wrong file name; non-trivial: at least two pairs or a defect to be reported",
            level: "exploration",
            assumptions: &["single-token lines appear only in front of the first pair (they are counts)"],
        },
        Prop {
            id: "P22",
            run: p22,
            quick: 120_000,
            thorough: 1_500_000,
            rule: "a case is a graph and a list of 0-6 walks in it (random walks with loops, shortest paths, empty ones) exported as vehicles; non-trivial: at least two routes, one of them with two or more edges",
            level: "exploration",
            assumptions: &["a route without edges may list no node or its only node"],
        },
    ]
}

fn reach(map: &Map) -> BTreeMap<i64, BTreeSet<i64>> {
    let mut adj: BTreeMap<i64, Vec<i64>> = BTreeMap::new();
    for e in map.edges.iter().filter(|e| e.sc.is_none()) {
        adj.entry(e.src).or_default().push(e.dst);
    }
    let mut out = BTreeMap::new();
    for s in map.used_ids() {
        let mut seen = BTreeSet::new();
        let mut st = vec![s];
        seen.insert(s);
        while let Some(x) = st.pop() {
            for y in adj.get(&x).map(|v| v.as_slice()).unwrap_or(&[]) {
                if seen.insert(*y) {
                    st.push(*y);
                }
            }
        }
        out.insert(s, seen);
    }
    out
}

fn p15(c: &mut Ctx) -> Res {
    let mut map = gen_map(c, &GraphOpts { max_nodes: 10, max_edges: 26, max_dim: 3, ..Default::default() });
    let alphas = gen_alphas(c, map.dim);
    let ch = c.chance(1, 4);
    if ch {
        map = contract(c, &map, &alphas);
    }
    if c.chance(1, 60) {
        map.edges.clear();
    }
    let n = map.used_ids().len();
    let limit = match c.usize(0, 4) {
        0 => c.usize(0, 3),
        1 => n * n,
        2 => (n * n).saturating_sub(1),
        3 => c.usize(0, n * n + 2),
        _ => n * n + c.usize(1, 1000),
    };
    let seed = if c.flip() { Some(c.draw(u64::MAX >> 1)) } else { None };
    let algo = if ch && !c.chance(1, 4) { RoutingAlgo::CHDijkstra } else { RoutingAlgo::Dijkstra };
    // pairs for exploring are searched with the underlying algorithm
    let algo = match (c.chance(1, 6), algo) {
        (true, RoutingAlgo::CHDijkstra) => RoutingAlgo::Explorator { algo: ExploratorAlgo::CHDijkstra },
        (true, _) => RoutingAlgo::Explorator { algo: ExploratorAlgo::Dijkstra },
        (false, x) => x,
    };
    let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    let rcfg = routing_cfg(algo, &alphas);
    c.note(map.describe());
    let mut texts = vec![];
    for k in 0..2 {
        let out = c.path(&format!("out{}.route-pairs", k));
        let mut y = format!("writing:\n  route-pairs:\n    file: '{}'\n    random_or_all:\n      max_count: {}\n", out.display(), limit);
        if let Some(s) = seed {
            y += &format!("      seed: {}\n", s);
        }
        c.note(&y);
        let wcfg: configs::writing::routing::Config = serde_yaml::from_str(&y).map_err(|e| format!("valid configuration rejected: {}", e))?;
        guard("writing route-pairs", || io::routing::Writer::write(&g, &rcfg, &wcfg))?.map_err(|e| format!("writing fails: {}", e))?;
        texts.push(std::fs::read_to_string(&out).map_err(|e| format!("written file cannot be read: {}", e))?);
    }
    ensure!(texts[0] == texts[1], "the same seed gives different files:\n{}\n---\n{}", texts[0], texts[1]);
    let lines: Vec<Vec<&str>> = texts[0]
        .lines()
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| l.split_whitespace().collect())
        .collect();
    ensure!(!lines.is_empty() && lines[0].len() == 1, "number of pairs is missing");
    let count: usize = lines[0][0].parse().map_err(|_| "number of pairs is no number".to_string())?;
    let mut pairs = BTreeSet::new();
    for l in &lines[1..] {
        ensure!(l.len() == 3, "line {:?} has not 3 columns", l);
        let p: (i64, i64) = match (l[0].parse(), l[1].parse()) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return Err(format!("line {:?} has no ids", l)),
        };
        ensure!(l[2] == "1", "repetition count of a generated pair is {}", l[2]);
        ensure!(pairs.insert(p), "pair {:?} is listed twice", p);
    }
    ensure!(count == pairs.len(), "{} pairs are declared, {} listed", count, pairs.len());
    ensure!(count <= limit, "{} pairs are listed, the limit is {}", count, limit);
    let r = reach(&map);
    for (s, d) in &pairs {
        ensure!(s != d, "the pair {}-{} is no pair of different nodes", s, d);
        ensure!(r.get(s).map(|x| x.contains(d)).unwrap_or(false), "the pair {}-{} is listed, but not connected", s, d);
    }
    let connected: usize = r.values().map(|x| x.len() - 1).sum();
    if limit >= n * n {
        for (s, ds) in &r {
            for d in ds {
                ensure!(s == d || pairs.contains(&(*s, *d)), "the connected pair {}-{} is missing", s, d);
            }
        }
        c.label("all pairs");
    } else if count == limit {
        c.label("limit reached");
    } else {
        c.label("below limit");
    }
    // the parser reads the same
    let mut pc = rcfg.clone();
    pc.route_pairs_file = Some(c.path("out0.route-pairs"));
    let back = guard("parsing route-pairs", || io::routing::Parser::parse(&pc))?.map_err(|e| format!("generated file is rejected: {}", e))?;
    ensure!(
        back.iter().map(|(p, k)| (p.src, p.dst, *k)).collect::<Vec<_>>() == lines[1..].iter().map(|l| (l[0].parse().unwrap(), l[1].parse().unwrap(), 1)).collect::<Vec<_>>(),
        "generated file is read differently"
    );
    if n == 0 {
        c.label("empty graph");
    }
    let sparse = n > 0 && connected < n * (n - 1);
    Ok(if count > 0 && (sparse || limit < n * n) { Verdict::NonTrivial } else { Verdict::Trivial })
}

// ---------------------------------------------------------------------------------------------- //

fn p16(c: &mut Ctx) -> Res {
    let n = if c.size == 102 { 66_000 + c.usize(0, 5000) } else if c.chance(1, 12) { c.usize(0, 1) } else { c.usize(0, 12 + c.size.min(100) / 4) };
    let kind = c.usize(0, 2);
    let mut pairs: Vec<(i64, i64, usize)> = vec![];
    for _ in 0..n {
        let id = |c: &mut Ctx| match kind {
            0 => c.i64(0, 9),
            1 => c.i64(-1_000_000, 10_000_000_000),
            _ => c.pick(&[i64::MIN, i64::MAX, 0, -1, 7]),
        };
        let (a, b) = (id(c), id(c));
        let k = match c.usize(0, 3) {
            0 => 1,
            1 => c.usize(0, 9),
            2 => c.usize(0, 100_000),
            _ => c.pick(&[0, 1, usize::MAX, 42]),
        };
        pairs.push((a, b, k));
    }
    // defects: 1 malformed line, 2 no count, 3 file name, 4 fewer lines than declared
    let mut defect = if c.chance(1, 3) { c.usize(1, 4) } else { 0 };
    if defect == 1 && n < 2 || defect == 4 && n == 0 {
        defect = 0;
    }
    let noisy = c.flip();
    let noise = |c: &mut Ctx, s: &mut String| {
        while noisy && c.chance(1, 4) {
            *s += c.pick(&["\n", "# comment\n", "#\n", "#7\n", "# 1 2 3\n", "\n\n"]);
        }
    };
    let mut text = String::new();
    noise(c, &mut text);
    if c.chance(1, 6) && defect != 2 {
        text += &format!("{}\n", c.draw(99)); // a preceding count is surplus
        noise(c, &mut text);
    }
    if defect != 2 {
        text += &format!("{}\n", n);
    }
    let bad = if defect == 1 { c.usize(1, n - 1) } else { usize::MAX };
    let dropped = if defect == 4 { c.usize(0, n - 1) } else { usize::MAX };
    for (i, (a, b, k)) in pairs.iter().enumerate() {
        noise(c, &mut text);
        let mut t: Vec<String> = vec![a.to_string(), b.to_string(), k.to_string()];
        if i == bad {
            match c.usize(0, 5) {
                0 => {
                    t.pop();
                }
                1 => t.push("1".into()),
                2 => {
                    t.truncate(1);
                }
                3 => t[c.usize(0, 2)] = c.pick(&["x", "1.5", "--1", "0x1", "1e3", "9223372036854775808000", "\u{e4}"]).to_string(),
                4 => t[2] = c.pick(&["-1", "1.0", "99999999999999999999"]).to_string(),
                _ => t[c.usize(0, 1)] = c.pick(&["9223372036854775808", "-9223372036854775809"]).to_string(),
            }
        }
        if i == dropped {
            continue;
        }
        let sep = if noisy { c.pick(&[" ", "  ", "\t"]) } else { " " };
        if noisy && c.chance(1, 10) {
            text += " ";
        }
        text += &t.join(sep);
        if noisy && c.chance(1, 10) {
            text += " ";
        }
        text += "\n";
    }
    // lines behind the declared number are not read
    if defect != 4 && defect != 2 && n > 0 {
        for _ in 0..c.usize(0, 2) {
            text += c.pick(&["1 2 3\n", "surplus line, whatever it is\n", "4 5 6\n"]);
        }
    } else if n == 0 && defect == 0 && c.flip() {
        text += "1 2 3\n";
    }
    if defect == 2 {
        // no line with one token
        ensure!(text.lines().all(|l| l.split_whitespace().count() != 1 || l.starts_with('#')), "harness: count");
    }
    if noisy && c.flip() {
        text.pop();
    }
    if noisy && c.chance(1, 8) {
        text = text.replace('\n', "\r\n");
    }
    let name = if defect == 3 { c.pick(&["pairs.csv", "pairs", "pairs.route-pair", "route-pairs", "pairs.txt", "a.route-pairs.fmi"]) } else { c.pick(&["a.route-pairs", "a.b.route-pairs", "A.ROUTE-PAIRS"]) };
    let file = c.write(name, text.as_bytes());
    c.note(format!("--- {}\n{}", name, text));
    let mut cfg = routing_cfg(RoutingAlgo::Dijkstra, &[1.0]);
    cfg.route_pairs_file = Some(file);
    let res = guard("parsing route-pairs", || io::routing::Parser::parse(&cfg))?;
    if defect != 0 {
        if let Ok(r) = res {
            return Err(format!(
                "a file with {} is accepted, {} pairs are read",
                ["", "a malformed line", "no number of pairs", "an unsupported name", "fewer pairs than declared"][defect],
                r.len()
            ));
        }
        c.label(["", "malformed line", "no count", "file name", "too few lines"][defect]);
        return Ok(Verdict::NonTrivial);
    }
    let have: Vec<(i64, i64, usize)> = res.map_err(|e| format!("valid file rejected: {}", e))?.iter().map(|(p, k)| (p.src, p.dst, *k)).collect();
    ensure!(have == pairs, "pairs are {:?}, expected {:?}", have, pairs);
    if noisy {
        c.label("comments and blank lines");
    }
    Ok(if n >= 2 { Verdict::NonTrivial } else { Verdict::Trivial })
}

// ---------------------------------------------------------------------------------------------- //

#[derive(Debug, PartialEq)]
enum Tag {
    Open(String, BTreeMap<String, String>),
    Close(String),
    Empty(String, BTreeMap<String, String>),
}

/// a small strict reader for the used subset of xml
fn xml(s: &str) -> Result<Vec<Tag>, String> {
    let mut rest = s.trim_start();
    ensure!(rest.starts_with("<?xml "), "no xml declaration");
    let end = rest.find("?>").ok_or("xml declaration is not closed")?;
    rest = &rest[end + 2..];
    let mut tags = vec![];
    let mut stack: Vec<String> = vec![];
    loop {
        rest = rest.trim_start();
        if rest.is_empty() {
            break;
        }
        ensure!(rest.starts_with('<'), "text outside of tags: {:?}", rest.chars().take(20).collect::<String>());
        rest = &rest[1..];
        if rest.starts_with('/') {
            let end = rest.find('>').ok_or("tag is not closed")?;
            let name = rest[1..end].trim_end().to_string();
            let open = stack.pop().ok_or("surplus closing tag")?;
            ensure!(open == name, "{} is closed by {}", open, name);
            tags.push(Tag::Close(name));
            rest = &rest[end + 1..];
            continue;
        }
        ensure!(tags.is_empty() || !stack.is_empty(), "second root element");
        let n = rest.find(|ch: char| !ch.is_alphanumeric() && ch != '_').ok_or("tag is not closed")?;
        ensure!(n > 0, "tag without name");
        let name = rest[..n].to_string();
        rest = &rest[n..];
        let mut attrs = BTreeMap::new();
        loop {
            let t = rest.trim_start();
            if t.starts_with("/>") {
                tags.push(Tag::Empty(name, attrs));
                rest = &t[2..];
                break;
            }
            if t.starts_with('>') {
                stack.push(name.clone());
                tags.push(Tag::Open(name, attrs));
                rest = &t[1..];
                break;
            }
            ensure!(t.len() < rest.len(), "no space in front of an attribute");
            let eq = t.find('=').ok_or("attribute without value")?;
            let key = t[..eq].to_string();
            ensure!(t[eq + 1..].starts_with('"'), "value without quotes");
            let v = &t[eq + 2..];
            let q = v.find('"').ok_or("quotes are not closed")?;
            ensure!(!v[..q].contains('<') && !v[..q].contains('&') || v[..q].contains("&lt;") || v[..q].contains("&gt;"), "forbidden character in a value");
            let val = v[..q].replace("&gt;", ">").replace("&lt;", "<").replace("&amp;", "&");
            ensure!(attrs.insert(key.clone(), val).is_none(), "attribute {} twice", key);
            rest = &v[q + 1..];
        }
    }
    ensure!(stack.is_empty(), "{:?} not closed", stack);
    Ok(tags)
}

/// (name, passed nodes) of all vehicles of a document
pub fn vehicles(s: &str) -> Result<Vec<(String, Vec<i64>)>, String> {
    let tags = xml(s).map_err(|e| format!("file is not well-formed: {}\n{}", e, s))?;
    // structure
    let mut it = tags.into_iter();
    ensure!(matches!(it.next(), Some(Tag::Open(n, _)) if n == "data"), "no root element 'data'");
    let mut have: Vec<(String, Vec<i64>)> = vec![];
    let mut cur: Option<(String, Vec<i64>)> = None;
    for t in it {
        match (t, cur.take()) {
            (Tag::Open(n, a), None) if n == "vehicle" => {
                cur = Some((a.get("id").cloned().ok_or("vehicle without id")?, vec![]));
            }
            (Tag::Empty(n, a), Some((id, mut v))) if n == "node" => {
                v.push(a.get("id").and_then(|x| x.parse().ok()).ok_or("node without id")?);
                cur = Some((id, v));
            }
            (Tag::Close(n), Some(x)) if n == "vehicle" => have.push(x),
            (Tag::Close(n), None) if n == "data" => (),
            // <node id=".."></node>
            (Tag::Open(n, a), Some((id, mut v))) if n == "node" => {
                v.push(a.get("id").and_then(|x| x.parse().ok()).ok_or("node without id")?);
                cur = Some((id, v));
            }
            (Tag::Close(n), Some(x)) if n == "node" => cur = Some(x),
            (t, _) => return Err(format!("unexpected element {:?}", t)),
        }
    }
    Ok(have)
}

fn p22(c: &mut Ctx) -> Res {
    let map = gen_rich_map(c, &GraphOpts { max_nodes: 10, max_edges: 24, max_dim: 2, ..Default::default() });
    c.note(map.describe());
    let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    let n = g.nodes().count();
    let ge = graph_edges(&g);
    let mut paths: Vec<Path> = vec![];
    let mut want: Vec<(i64, i64, Vec<i64>)> = vec![];
    let k = c.usize(0, 6);
    for _ in 0..k {
        let (src, edges): (usize, Vec<usize>) = match c.usize(0, 2) {
            0 => {
                // random walk
                let src = c.usize(0, n - 1);
                let mut at = g.nodes().id(NodeIdx(src));
                let mut es = vec![];
                for _ in 0..c.usize(0, 12) {
                    let out: Vec<usize> = (0..ge.len()).filter(|i| ge[*i].src == at).collect();
                    if out.is_empty() {
                        break;
                    }
                    let e = c.pick(&out);
                    at = ge[e].dst;
                    es.push(e);
                }
                (src, es)
            }
            1 => {
                let (s, d) = (c.usize(0, n - 1), c.usize(0, n - 1));
                let cfg = routing_cfg(RoutingAlgo::Dijkstra, &vec![1.0; map.dim]);
                match Dijkstra::new().compute_best_path(Query { src_idx: NodeIdx(s), dst_idx: NodeIdx(d), graph: &g, routing_cfg: &cfg }) {
                    Some(p) => {
                        let es = (&p).into_iter().map(|e| **e).collect();
                        (s, es)
                    }
                    None => continue,
                }
            }
            _ => (c.usize(0, n - 1), vec![]),
        };
        let sid = g.nodes().id(NodeIdx(src));
        let mut ids = vec![sid];
        ids.extend(edges.iter().map(|e| ge[*e].dst));
        let did = *ids.last().unwrap();
        let dst = node_idx(&g, did).ok_or("an id of the graph is not found")?;
        paths.push(Path::new(NodeIdx(src), sid, dst, did, edges.iter().map(|e| EdgeIdx(*e)).collect()));
        want.push((sid, did, ids));
    }
    c.note(format!("routes: {:?}", want));
    let out = c.path("smarts.xml");
    let cfg = configs::writing::smarts::Config { file: out.clone() };
    guard("exporting", || io::smarts::Writer::write(&paths, &g, &cfg))?.map_err(|e| format!("writing fails: {}", e))?;
    let s = std::fs::read_to_string(&out).map_err(|e| format!("written file cannot be read: {}", e))?;
    let have = vehicles(&s)?;
    ensure!(have.len() == want.len(), "{} vehicles, expected {}", have.len(), want.len());
    for ((id, nodes), (s, d, ids)) in have.iter().zip(&want) {
        ensure!(*id == format!("{}->{}", s, d), "vehicle is named {}, expected {}->{}", id, s, d);
        let ok = nodes == ids || (ids.len() == 1 && nodes.is_empty());
        ensure!(ok, "vehicle {} passes {:?}, expected {:?}", id, nodes, ids);
    }
    if want.is_empty() {
        c.label("no routes");
    }
    if want.iter().any(|w| w.2.len() == 1) {
        c.label("empty route");
    }
    if want.iter().any(|w| w.2.iter().collect::<BTreeSet<_>>().len() < w.2.len()) {
        c.label("route with a loop");
    }
    Ok(if want.len() >= 2 && want.iter().any(|w| w.2.len() > 2) { Verdict::NonTrivial } else { Verdict::Trivial })
}
