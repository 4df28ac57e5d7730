//! P07: malformed input
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::building::{check_content, gen_rich_map};
use crate::props::fmi::complete_ids;
use crate::text::*;
use osmgraphing::{
    configs::{self, routing::RoutingAlgo},
    io,
    io::network::graph::Parser,
    network::{EdgeIdx, Graph},
};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P07",
        run: p07,
        quick: 250_000,
        thorough: 6_000_000,
        rule: "a case is a valid map, route-pair file, merge csv-file or configuration damaged by 1-4 mutations (tokens, lines, counts, bytes, columns, missing or unreadable files); non-trivial: the damaged input differs from the valid one and either is reported as an error or is loaded into a graph that was compared with an independent reading of the damaged file",
        level: "exploration",
        assumptions: &["one-sided shortcut references and repeated definitions of a node or of the same edge have no specified meaning: only the absence of crashes is checked for them"],
    }]
}

/// an independent reading of a text map
enum Read {
    Bad(String),
    Unclear(&'static str),
    Good(Map),
}

fn read_ref(text: &str, l: &Layout) -> Read {
    let mut unclear = None;
    let mut lines: Vec<Vec<&str>> = vec![];
    for x in text.lines() {
        if x.is_empty() || x.starts_with('#') {
            continue;
        }
        let t: Vec<&str> = x.split_whitespace().collect();
        if t.is_empty() {
            unclear = Some("line of white space");
        }
        lines.push(t);
    }
    // counts: the first run of lines with one token
    let first = match lines.iter().position(|t| t.len() == 1) {
        Some(i) => i,
        None => return Read::Bad("no counts".into()),
    };
    let mut at = first;
    let mut counts = vec![];
    while at < lines.len() && lines[at].len() == 1 {
        if let Ok(k) = lines[at][0].parse::<usize>() {
            counts.push(k);
        }
        at += 1;
    }
    if counts.len() < 2 {
        return Read::Bad("less than two counts".into());
    }
    let (n, m) = (counts[counts.len() - 2], counts[counts.len() - 1]);
    let rest = &lines[at..];
    if n.checked_add(m).map(|k| k > rest.len()).unwrap_or(true) {
        return Read::Bad("less lines than declared".into());
    }
    let mut map = Map { dim: l.names.len(), nodes: vec![], edges: vec![] };
    for t in &rest[n..n + m] {
        let mut e = MEdge { id: None, src: 0, dst: 0, metrics: vec![], sc: None };
        let mut sc = [None, None];
        for (k, col) in l.e.iter().enumerate() {
            let x = match t.get(k) {
                Some(x) => *x,
                None => return Read::Bad(format!("edge line {:?} is too short", t)),
            };
            let ok = match col {
                ECol::Id => {
                    e.id = x.parse().ok().or_else(|| if x.starts_with("ch") { x[2..].parse().ok() } else { None });
                    e.id.is_some()
                }
                ECol::Src => x.parse().map(|v| e.src = v).is_ok(),
                ECol::Dst => x.parse().map(|v| e.dst = v).is_ok(),
                ECol::Sc0 | ECol::Sc1 => {
                    let i = if *col == ECol::Sc0 { 0 } else { 1 };
                    x == "-1" || x.parse().map(|v: usize| sc[i] = Some(v)).is_ok()
                }
                ECol::Metric(_) => match x.parse::<f64>() {
                    Ok(v) => {
                        if !v.is_finite() || v < -2.0 * EPS {
                            return Read::Bad(format!("metric {}", v));
                        }
                        if v != 0.0 && v.abs() < 2.5 * EPS {
                            unclear = Some("value around zero");
                        }
                        e.metrics.push(v);
                        true
                    }
                    Err(_) => false,
                },
                ECol::Ign => true,
            };
            if !ok {
                return Read::Bad(format!("{} as {:?}", x, col));
            }
        }
        e.sc = match sc {
            [Some(a), Some(b)] => {
                if a >= m || b >= m {
                    return Read::Bad("dangling shortcut index".into());
                }
                Some([a, b])
            }
            [None, None] => None,
            _ => {
                unclear = Some("one-sided shortcut");
                None
            }
        };
        map.edges.push(e);
    }
    let mut seen: BTreeMap<i64, usize> = BTreeMap::new();
    for t in &rest[..n] {
        let mut v = MNode { id: 0, lat: 0.0, lon: 0.0, level: 0 };
        for (k, col) in l.n.iter().enumerate() {
            let x = match t.get(k) {
                Some(x) => *x,
                None => return Read::Bad(format!("node line {:?} is too short", t)),
            };
            let ok = match col {
                NCol::Id => x.parse().map(|y| v.id = y).is_ok(),
                NCol::Level => x.parse().map(|y| v.level = y).is_ok(),
                NCol::Lat => x.parse().map(|y| v.lat = y).is_ok(),
                NCol::Lon => x.parse().map(|y| v.lon = y).is_ok(),
                NCol::Ign => true,
            };
            if !ok {
                return Read::Bad(format!("{} as {:?}", x, col));
            }
        }
        if !v.lat.is_finite() || !v.lon.is_finite() {
            unclear = Some("non-finite coordinate");
        }
        *seen.entry(v.id).or_insert(0) += 1;
        map.nodes.push(v);
    }
    for id in map.used_ids() {
        match seen.get(&id) {
            None => return Read::Bad(format!("node {} does not exist", id)),
            Some(1) => (),
            Some(_) => unclear = Some("node defined twice"),
        }
    }
    let mut by_id: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, e) in map.edges.iter().enumerate() {
        if let Some(id) = e.id {
            if let Some(j) = by_id.insert(id, i) {
                let o = &map.edges[j];
                if (o.src, o.dst) != (e.src, e.dst) || o.metrics.iter().zip(&e.metrics).any(|(a, b)| (a - b).abs() > 1e-3) {
                    return Read::Bad(format!("edge id {} is used twice", id));
                }
                unclear = Some("edge defined twice");
            }
        }
    }
    match unclear {
        Some(u) => Read::Unclear(u),
        None => Read::Good(map),
    }
}

const NASTY: [&str; 42] = [
    "", "-1", "0", "x", "c", "ch", "chx", "ch-1", "\u{20ac}", "c\u{20ac}", "\u{e4}\u{e4}", "NaN", "inf", "-inf", "1e400", "-1e400", "-0.0", "1e-7", "-1e-7", "-5", "1.5", "+7", "1e3",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "4294967296", "#", "_", ".", "-", "0x1f", "1,5",
    "ch18446744073709551616", "\u{0}", "1e308", "true", "chch1", "1ch",
];

fn mutate_lines(c: &mut Ctx, lines: &mut Vec<Vec<String>>) {
    for _ in 0..c.usize(1, 3) {
        if lines.is_empty() {
            return;
        }
        // heads are rare among the lines, so aim at them at times
        let i = if c.chance(1, 4) { c.usize(0, 4.min(lines.len() - 1)) } else { c.usize(0, lines.len() - 1) };
        let n = lines[i].len();
        match c.weighted(&[8, 3, 2, 2, 2, 1, 2, 2, 1, 2]) {
            0 if n > 0 => {
                let k = c.usize(0, n - 1);
                lines[i][k] = c.pick(&NASTY).to_string();
            }
            1 if n > 0 => {
                let k = c.usize(0, n - 1);
                lines[i].remove(k);
            }
            2 => {
                let k = c.usize(0, n);
                let t = c.pick(&NASTY).to_string();
                lines[i].insert(k, t);
            }
            3 => {
                lines.remove(i);
            }
            4 => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
            5 => {
                let j = c.usize(0, lines.len() - 1);
                lines.swap(i, j);
            }
            6 if n > 0 => {
                // a token of another line
                let j = c.usize(0, lines.len() - 1);
                if !lines[j].is_empty() {
                    let t = c.pick(&lines[j].clone());
                    let k = c.usize(0, n - 1);
                    lines[i][k] = t;
                }
            }
            7 if n > 0 => {
                // off by a little
                let k = c.usize(0, n - 1);
                if let Ok(v) = lines[i][k].parse::<i64>() {
                    lines[i][k] = v.wrapping_add(c.i64(-2, 2)).to_string();
                }
            }
            8 => lines.truncate(i),
            9 if n > 0 => {
                // something glued to a token
                let k = c.usize(0, n - 1);
                let t = c.pick(&["ch", "chch", "c", "-", "+", "0", ".", "e1", "_", "x"]);
                lines[i][k] = if c.flip() { format!("{}{}", t, lines[i][k]) } else { format!("{}{}", lines[i][k], t) };
            }
            _ => (),
        }
    }
}

fn mutate_bytes(c: &mut Ctx, b: &mut Vec<u8>) {
    for _ in 0..c.usize(1, 4) {
        if b.is_empty() {
            return;
        }
        let i = c.usize(0, b.len() - 1);
        match c.usize(0, 6) {
            0 => b[i] = c.draw(255) as u8,
            1 => b[i] ^= 1 << c.draw(7),
            2 => {
                b.remove(i);
            }
            3 => b.insert(i, c.pick(b"\n\r\t #-.0195eNx:{}[]'\"\xff\xc3\x00&*!|>%@`,?")),
            4 => b.truncate(i),
            5 => {
                let j = (i + c.usize(1, 20)).min(b.len());
                let s: Vec<u8> = b[i..j].to_vec();
                let k = c.usize(0, b.len());
                for (q, x) in s.into_iter().enumerate() {
                    b.insert(k + q, x);
                }
            }
            _ => {
                let j = (i + c.usize(1, 20)).min(b.len());
                b.drain(i..j);
            }
        }
    }
}

fn sane(g: &Graph, map_dim: usize) -> Result<(), String> {
    for i in 0..g.fwd_edges().count() {
        for (k, x) in g.metrics()[&EdgeIdx(i)].iter().take(map_dim).enumerate() {
            ensure!(x.is_finite() && *x > 0.0, "a loaded graph has the value {} as metric {} of edge {}", x, k, i);
        }
    }
    Ok(())
}

/// serde_yaml 0.8.13 itself panics for an empty map in place of an enum, which is no matter of osmgraphing
fn reading<T, F: FnOnce() -> Result<T, String>>(what: &str, f: F) -> Result<Result<T, String>, String> {
    match guard(what, f) {
        Err(e) if e.contains("unexpected end of mapping") && e.contains("serde_yaml") => Ok(Err(e)),
        r => r,
    }
}

fn load(y: &str) -> Result<Result<Graph, String>, String> {
    let cfg = match reading("reading the configuration", || parse_cfg(y))? {
        Ok(cfg) => cfg,
        Err(e) => return Ok(Err(e)),
    };
    guard("loading", || Parser::parse_and_finalize(cfg)).map(|r| r.map_err(|e| e.to_string()))
}

fn judge(c: &mut Ctx, text: Option<&str>, l: &Layout, res: Result<Graph, String>, changed: bool) -> Res {
    let r = match text {
        Some(t) => read_ref(t, l),
        None => Read::Unclear("invalid text"),
    };
    match res {
        Err(_) => {
            c.label(if let Read::Bad(_) = r { "reported, as it must be" } else { "reported" });
            Ok(if changed { Verdict::NonTrivial } else { Verdict::Trivial })
        }
        Ok(g) => {
            sane(&g, l.names.len())?;
            match r {
                Read::Bad(why) => Err(format!("damaged map is accepted: {}", why)),
                Read::Unclear(u) => {
                    c.label(format!("loaded, without specified meaning: {}", u));
                    Ok(Verdict::Trivial)
                }
                Read::Good(map) => {
                    check_content(&map, &g)?;
                    c.label("loaded and compared");
                    Ok(if changed { Verdict::NonTrivial } else { Verdict::Trivial })
                }
            }
        }
    }
}

fn p07(c: &mut Ctx) -> Res {
    match c.weighted(&[8, 3, 3, 1, 2, 2, 3]) {
        k @ 0..=3 => map_case(c, k),
        4 => routes_case(c),
        5 => csv_case(c),
        _ => yaml_case(c),
    }
}

fn map_case(c: &mut Ctx, kind: usize) -> Res {
    let mut map = gen_rich_map(c, &GraphOpts { max_nodes: 7, max_edges: 14, ..Default::default() });
    complete_ids(&mut map);
    let mut l = gen_layout(c, &map, false);
    if kind == 2 {
        return layout_case(c, map, l);
    }
    if kind == 0 && c.chance(1, 4) {
        // nodes are defined by less columns
        l.n.retain(|x| *x != NCol::Ign);
    }
    let mut lines = functional_lines(c, &l, &map, false);
    let before = lines.clone();
    if kind == 0 {
        mutate_lines(c, &mut lines);
    }
    let text = render(c, &lines, false);
    let mut bytes = text.clone().into_bytes();
    if kind == 1 {
        mutate_bytes(c, &mut bytes);
    }
    let changed = lines != before || bytes != text.as_bytes();
    let file = c.path("map.fmi");
    if kind == 3 {
        // files which cannot be read
        let what = c.usize(0, 4);
        let mut name = file.clone();
        match what {
            0 => (),
            1 => std::fs::create_dir_all(&file).expect("harness: directory"),
            2 => {
                std::fs::write(&file, b"").expect("harness: file");
            }
            3 => {
                let n = c.pick(&["map.csv", "map", "fmi", "map.fmi.txt", "map.osm"]);
                name = c.path(n);
                std::fs::write(&name, &bytes).expect("harness: file");
            }
            _ => name = c.path("no-such-dir").join(c.pick(&["map.fmi", "map.pbf", "map.osm.pbf"])),
        }
        let y = l.yaml(name.to_str().unwrap(), "");
        c.note(format!("unreadable file, kind {}\n{}", what, y));
        return match load(&y)? {
            Ok(_) => Err("a file which does not exist, is empty or of an unknown kind is loaded".into()),
            Err(_) => {
                c.label("unreadable file");
                Ok(Verdict::NonTrivial)
            }
        };
    }
    std::fs::write(&file, &bytes).expect("harness: file");
    let y = l.yaml(file.to_str().unwrap(), "");
    c.note(format!("{}\n--- map.fmi\n{}", y, String::from_utf8_lossy(&bytes)));
    let res = load(&y)?;
    let text = String::from_utf8(bytes).ok();
    judge(c, text.as_deref(), &l, res, changed)
}

/// configurations that do not describe a map
fn layout_case(c: &mut Ctx, map: Map, mut l: Layout) -> Res {
    let mut extra_n: Option<&str> = None;
    let mut extra_e: Vec<String> = vec![];
    let why = match c.usize(0, 8) {
        0 => {
            let x = c.pick(&[NCol::Id, NCol::Lat, NCol::Lon]);
            l.n.retain(|y| *y != x);
            format!("no {:?} of nodes", x)
        }
        1 => {
            let x = c.pick(&[ECol::Src, ECol::Dst]);
            l.e.retain(|y| *y != x);
            format!("no {:?} of edges", x)
        }
        2 => {
            let x = c.pick(&["SrcId", "DstId"]);
            extra_e.push(format!("    - meta: {{ info: '{}', id: 'again' }}\n", x));
            format!("{} twice", x)
        }
        3 => {
            let x = c.pick(&["SrcIdx", "DstIdx", "SrcLat", "SrcLon", "DstLat", "DstLon"]);
            extra_e.push(format!("    - meta: {{ info: '{}', id: 'more' }}\n", x));
            format!("{} as column of a map", x)
        }
        4 => {
            extra_n = Some("  - metric: { unit: 'Height', id: 'height' }\n");
            "height".into()
        }
        5 => {
            extra_n = Some("  - meta: { info: 'NodeIdx', id: 'node-idx' }\n");
            "NodeIdx as column of a map".into()
        }
        6 => {
            if l.has(ECol::Sc0) {
                let x = c.pick(&[ECol::Sc0, ECol::Sc1]);
                l.e.retain(|y| *y != x);
            } else {
                extra_e.push(format!("    - meta: {{ info: '{}', id: 'sc' }}\n", c.pick(&["ShortcutIdx0", "ShortcutIdx1"])));
            }
            "one column of shortcut indices".into()
        }
        7 => {
            for k in map.dim..=MAX_DIM + c.usize(0, 2) {
                extra_e.push(format!("    - metric: {{ unit: 'F64', id: 'more{}' }}\n", k));
            }
            "too many metrics".into()
        }
        _ => {
            // longer lines are expected
            extra_e.push("    - ignored\n".into());
            extra_n = if c.flip() { Some("  - ignored\n") } else { None };
            "a missing column".into()
        }
    };
    let short = why == "a missing column";
    let file = c.path("map.fmi");
    let mut y = l.yaml(file.to_str().unwrap(), &extra_e.concat());
    if let Some(x) = extra_n {
        y = y.replacen("  edges:\n", &format!("{}  edges:\n", x), 1);
    }
    let mut lines = vec![vec![map.nodes.len().to_string()], vec![map.edges.len().to_string()]];
    for v in &map.nodes {
        let mut t = node_line(c, &l, v, false);
        if extra_n.is_some() && !short {
            t.push("1".into());
        }
        lines.push(t);
    }
    for e in &map.edges {
        let mut t = edge_line(c, &l, e, false);
        if !short {
            t.extend(extra_e.iter().map(|_| "1".to_string()));
        }
        lines.push(t);
    }
    // a node line of a single token would be taken for a count
    if map.edges.is_empty() || lines[2..].iter().any(|t| t.len() < 2) {
        return Ok(Verdict::Trivial);
    }
    let text = render(c, &lines, true);
    std::fs::write(&file, &text).expect("harness: file");
    c.note(format!("{}\n{}\n--- map.fmi\n{}", why, y, text));
    match load(&y)? {
        Ok(_) => Err(format!("accepted in spite of {}", why)),
        Err(_) => {
            c.label("columns that do not fit");
            Ok(Verdict::NonTrivial)
        }
    }
}

fn routes_case(c: &mut Ctx) -> Res {
    let n = c.usize(0, 5);
    let mut lines: Vec<Vec<String>> = vec![vec![n.to_string()]];
    for _ in 0..n {
        lines.push(vec![c.i64(-9, 99).to_string(), c.i64(-9, 99).to_string(), c.draw(5).to_string()]);
    }
    let before = lines.clone();
    let by_bytes = c.flip();
    if !by_bytes {
        mutate_lines(c, &mut lines);
    }
    let text = render(c, &lines, false);
    let mut bytes = text.clone().into_bytes();
    if by_bytes {
        mutate_bytes(c, &mut bytes);
    }
    let file = c.path("a.route-pairs");
    let unreadable = c.chance(1, 20);
    if unreadable {
        if c.flip() {
            std::fs::create_dir_all(&file).expect("harness: directory");
        }
    } else {
        std::fs::write(&file, &bytes).expect("harness: file");
    }
    c.note(format!("--- a.route-pairs (unreadable: {})\n{}", unreadable, String::from_utf8_lossy(&bytes)));
    let mut cfg = routing_cfg(RoutingAlgo::Dijkstra, &[1.0]);
    cfg.route_pairs_file = Some(file);
    let res = guard("parsing route-pairs", || io::routing::Parser::parse(&cfg))?;
    let have: Vec<(i64, i64, usize)> = match res {
        Err(_) => {
            c.label("route pairs: reported");
            return Ok(Verdict::NonTrivial);
        }
        Ok(r) => r.iter().map(|(p, k)| (p.src, p.dst, *k)).collect(),
    };
    ensure!(!unreadable, "a file which cannot be read is accepted");
    // independent reading
    let text = match String::from_utf8(bytes) {
        Ok(t) => t,
        Err(_) => return Ok(Verdict::Trivial),
    };
    let all: Vec<Vec<&str>> = text.lines().filter(|x| !x.is_empty() && !x.starts_with('#')).map(|x| x.split_whitespace().collect()).collect();
    let at = all.iter().position(|t| t.len() == 1).ok_or("a file without number of pairs is accepted")?;
    let end = at + all[at..].iter().take_while(|t| t.len() == 1).count();
    let count = all[at..end].iter().filter_map(|t| t[0].parse::<usize>().ok()).last().ok_or("a file without number of pairs is accepted")?;
    ensure!(count <= all.len() - end, "a file with {} pairs instead of {} is accepted", all.len() - end, count);
    let mut want = vec![];
    for t in &all[end..end + count] {
        ensure!(t.len() == 3, "a pair with {} columns is accepted", t.len());
        match (t[0].parse(), t[1].parse(), t[2].parse()) {
            (Ok(a), Ok(b), Ok(k)) => want.push((a, b, k)),
            _ => return Err(format!("the pair {:?} is accepted", t)),
        }
    }
    ensure!(have == want, "pairs are {:?}, expected {:?}", have, want);
    c.label("route pairs: read and compared");
    Ok(if lines != before || by_bytes { Verdict::NonTrivial } else { Verdict::Trivial })
}

fn csv_case(c: &mut Ctx) -> Res {
    let mut map = gen_map(c, &GraphOpts { max_nodes: 5, max_edges: 8, max_dim: 2, ids: false, ..Default::default() });
    for (i, e) in map.edges.iter_mut().enumerate() {
        e.id = Some(i * 3 + 1);
    }
    let l = gen_layout(c, &map, true);
    let header = c.flip();
    let mut lines: Vec<Vec<String>> = vec![];
    if header {
        lines.push(vec!["edge-id".into(), "x".into(), "work".into()]);
    }
    for e in &map.edges {
        lines.push(vec![e.id.unwrap().to_string(), "_".into(), format!("{}", c.i64(-4, 40) as f64 / 4.0)]);
    }
    if c.flip() {
        mutate_lines(c, &mut lines);
    }
    let text = render(c, &lines, true);
    let mut bytes = text.into_bytes();
    if c.chance(1, 3) {
        mutate_bytes(c, &mut bytes);
    }
    let file = c.path("work.csv");
    let unreadable = c.chance(1, 20);
    if unreadable {
        if c.flip() {
            std::fs::create_dir_all(&file).expect("harness: directory");
        }
    } else {
        std::fs::write(&file, &bytes).expect("harness: file");
    }
    let gen = format!(
        "  generating:\n    nodes: []\n    edges:\n    - custom: {{ id: 'work', default: 1.5 }}\n    - merge: {{ from: '{}', with_header-line: {}, edge-id: 'edge-id', edges-info: [id: 'edge-id', ignored, id: 'work'] }}\n",
        file.display(),
        header
    );
    let y = l.yaml("x.fmi", &gen);
    c.note(map.describe());
    c.note(format!("{}\n--- work.csv (unreadable: {})\n{}", y, unreadable, String::from_utf8_lossy(&bytes)));
    let cfg = parse_cfg(&y).map_err(|e| format!("valid configuration rejected: {}", e))?;
    match guard("building", || map.build_with(cfg))? {
        Err(_) => {
            c.label("csv: reported");
            Ok(Verdict::NonTrivial)
        }
        Ok(g) => {
            ensure!(!unreadable, "a csv-file which cannot be read is accepted");
            sane(&g, map.dim)?;
            // independent reading
            let text = match String::from_utf8(bytes) {
                Ok(t) => t,
                Err(_) => return Ok(Verdict::Trivial),
            };
            let mut want: BTreeMap<usize, f64> = map.edges.iter().map(|e| (e.id.unwrap(), 1.5)).collect();
            for x in text.lines().filter(|x| !x.is_empty() && !x.starts_with('#')).skip(header as usize) {
                let t: Vec<&str> = x.split_whitespace().collect();
                ensure!(t.len() >= 3, "the csv-line {:?} is accepted", x);
                let id: usize = t[0].parse().map_err(|_| format!("edge-id {:?} is accepted", t[0]))?;
                let v: f64 = t[2].parse().map_err(|_| format!("value {:?} is accepted", t[2]))?;
                ensure!(want.insert(id, v).is_some(), "the edge-id {} is accepted, but does not exist", id);
            }
            let ge = graph_edges(&g);
            ensure!(ge.len() == want.len(), "{} edges, expected {}", ge.len(), want.len());
            for e in ge {
                let w = want[&e.id.ok_or("edge without id")?];
                let h = e.metrics[map.dim];
                ensure!(h == w || h.is_nan() && w.is_nan(), "edge {:?} has the value {}, expected {}", e.id, h, w);
            }
            c.label("csv: read and compared");
            Ok(Verdict::NonTrivial)
        }
    }
}

/// damaged configurations of all kinds are reported or accepted, but never crash
fn yaml_case(c: &mut Ctx) -> Res {
    let map = gen_map(c, &GraphOpts { max_nodes: 4, max_edges: 5, max_dim: 2, ids: false, ..Default::default() });
    let l = gen_layout(c, &map, true);
    let file = c.path("map.fmi");
    let lines = functional_lines(c, &l, &map, true);
    let text = render(c, &lines, true);
    std::fs::write(&file, &text).expect("harness: file");
    let gen = "  vehicles: { category: 'Car', are_drivers_picky: false }\n  generating:\n    nodes:\n    - meta: { info: 'NodeIdx', id: 'ni' }\n    edges:\n    - haversine: { unit: 'Kilometers', id: 'len' }\n    - custom: { unit: 'F64', id: 'w', default: 2 }\n    - copy: { from: { unit: 'Kilometers', id: 'len' }, to: { unit: 'Kilometers', id: 'len2' } }\n";
    let mut y = l.yaml(file.to_str().unwrap(), gen);
    y += "routing:\n  algorithm: Dijkstra\n  metrics:\n  - { id: 'm0', alpha: 0.5, tolerated-scale: 1.5 }\n";
    y += "writing:\n  graph:\n    map-file: 'o.fmi'\n    nodes: [ id: 'node-id' ]\n    edges: { with_shortcuts: true, ids: [ id: 'm0', ignored ] }\n  edges-info:\n    file: 'o.csv'\n    ids: [ id: 'm0' ]\n  route-pairs:\n    file: 'o.route-pairs'\n    random_or_all: { seed: 3, max_count: 4 }\n";
    y += "evaluating_balance:\n  results-dir: 'r'\n  seed: 3\n  number_of_threads: 2\n  monitoring:\n    edges-info: { file: 'e.csv', ids: [ id: 'm0' ] }\n";
    let mon = "  monitoring:\n    edges-info: { file: 'e.csv', ids: [ id: 'm0' ] }\n  optimizing_with: { metric-id: 'w', method: averaging }\n";
    y += "balancing:\n  results-dir: 'r'\n  iter-0-cfg: 'a.yaml'\n  iter-i-cfg: 'b.yaml'\n  number_of_metric-updates: 3\n  number_of_threads: 2\n  multi-ch-constructor: { fmi-graph: 'a.fmi', contracted-graph: 'b.fmi', dimension: 2, contraction-ratio: '99.8', cost-accuracy: 3, is_printing_osm-ids: true, is_using_external_edge-ids: true }\n";
    y += mon;
    let clean = y.clone();
    let damage = !c.chance(1, 40);
    if !damage {
        c.label("undamaged configuration");
    } else if c.flip() {
        let mut b = y.into_bytes();
        mutate_bytes(c, &mut b);
        y = String::from_utf8_lossy(&b).into_owned();
    } else {
        let mut ls: Vec<Vec<String>> = y.lines().map(|x| x.split_inclusive(' ').map(|t| t.to_string()).collect()).collect();
        mutate_lines(c, &mut ls);
        y = ls.iter().map(|t| t.concat()).collect::<Vec<_>>().join("\n");
    }
    c.note(format!("{}\n--- map.fmi\n{}", y, text));
    let mut ok = 0;
    ok += reading("reading a routing-configuration", || configs::routing::Config::try_from_str(&y, &plain_cfg(2)).map(|_| ()).map_err(|e| e.to_string()))?.is_ok() as usize;
    ok += reading("reading a writing-configuration", || serde_yaml::from_str::<configs::writing::network::graph::Config>(&y).map(|_| ()).map_err(|e| e.to_string()))?.is_ok() as usize;
    ok += reading("reading a writing-configuration", || serde_yaml::from_str::<configs::writing::network::edges::Config>(&y).map(|_| ()).map_err(|e| e.to_string()))?.is_ok() as usize;
    ok += reading("reading a writing-configuration", || serde_yaml::from_str::<configs::writing::routing::Config>(&y).map(|_| ()).map_err(|e| e.to_string()))?.is_ok() as usize;
    ok += reading("reading an evaluation-configuration", || configs::evaluating_balance::Config::try_from_str(&y).map(|_| ()).map_err(|e| e.to_string()))?.is_ok() as usize;
    ok += reading("reading a balancing-configuration", || configs::balancing::Config::try_from_str(&y).map(|_| ()).map_err(|e| e.to_string()))?.is_ok() as usize;
    ensure!(damage || ok == 6, "only {} of 6 valid configurations are accepted", ok);
    let mut reported = ok < 6;
    match reading("reading the configuration", || parse_cfg(&y))? {
        Err(e) => {
            ensure!(damage, "a valid configuration is rejected: {}", e);
            reported = true
        }
        Ok(cfg) => {
            let dim = cfg.edges.metrics.ids.len();
            if cfg.map_file == file {
                match guard("loading", || Parser::parse_and_finalize(cfg))? {
                    Err(e) => {
                        ensure!(damage, "a valid map is rejected: {}", e);
                        reported = true
                    }
                    Ok(g) => {
                        sane(&g, dim)?;
                        // routing with what was read
                        if let Ok(r) = configs::routing::Config::try_from_str(&y, g.cfg()) {
                            ensure!(r.alphas.len() == g.metrics().dim(), "{} weights for {} metrics", r.alphas.len(), g.metrics().dim());
                        }
                        c.label("damaged configuration is usable");
                    }
                }
            }
        }
    }
    ensure!(damage || !reported, "a valid configuration is rejected");
    if reported {
        c.label("damaged configuration is reported");
    }
    Ok(if y != clean { Verdict::NonTrivial } else { Verdict::Trivial })
}
