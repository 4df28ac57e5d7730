//! P17: configurations
use crate::engine::*;
use crate::ensure;
use osmgraphing::{
    configs::{self, parsing, parsing::generating},
    multi_ch_constructor,
};
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P17",
        run: p17,
        quick: 60_000,
        thorough: 900_000,
        rule: "a case is a yaml-file with all sections (or some), generated from a model with shuffled keys, random names, mixed styles and omitted optional settings, and, in two of three cases, a single defect in one section; all sections are read and compared with the model; non-trivial: at least three sections",
        level: "exploration",
        assumptions: &["settings are finite numbers; every metric is named at most once in the routing-section"],
    }]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Text,
    Real,
    Int,
    Bool,
    Word,
}

#[derive(Clone, Debug)]
enum Y {
    S(String, K),
    /// true: further keys have to be rejected
    M(Vec<(String, Y)>, bool),
    L(Vec<Y>),
}

fn text<S: AsRef<str>>(s: S) -> Y {
    Y::S(s.as_ref().to_string(), K::Text)
}
fn word<S: AsRef<str>>(s: S) -> Y {
    Y::S(s.as_ref().to_string(), K::Word)
}
fn boolean(b: bool) -> Y {
    Y::S(b.to_string(), K::Bool)
}
fn int(i: u64) -> Y {
    Y::S(i.to_string(), K::Int)
}
fn real(x: f64) -> Y {
    Y::S(format!("{}", x), K::Real)
}
fn m(v: Vec<(&str, Y)>) -> Y {
    Y::M(v.into_iter().map(|(k, y)| (k.to_string(), y)).collect(), false)
}
fn strict(v: Vec<(&str, Y)>) -> Y {
    Y::M(v.into_iter().map(|(k, y)| (k.to_string(), y)).collect(), true)
}

fn scalar(c: &mut Ctx, s: &str, k: K) -> String {
    match k {
        K::Text => match c.usize(0, 2) {
            0 => format!("'{}'", s.replace('\'', "''")),
            1 => format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")),
            _ => {
                let plain = s.len() > 2
                    && s.chars().all(|x| x.is_ascii_alphanumeric() || x == '-' || x == '_' || x == '/' || x == '.')
                    && s.starts_with(|x: char| x.is_ascii_alphabetic())
                    && !["true", "false", "null", "yes", "inf", "nan", "off"].iter().any(|w| s.to_ascii_lowercase().starts_with(w));
                if plain {
                    s.to_string()
                } else {
                    format!("'{}'", s.replace('\'', "''"))
                }
            }
        },
        K::Word if c.chance(1, 3) => format!("'{}'", s),
        _ => s.to_string(),
    }
}

fn render(c: &mut Ctx, y: &Y, indent: usize, flow: bool, out: &mut String) {
    // invariant for block style: out ends with ":" or "-" (value follows) or is at a line start
    let pad = " ".repeat(indent);
    match y {
        Y::S(s, k) => {
            *out += " ";
            *out += &scalar(c, s, *k);
            if !flow {
                *out += "\n";
            }
        }
        Y::M(v, _) => {
            if flow || v.is_empty() || (indent > 2 && c.chance(1, 3)) {
                *out += " {";
                for (i, (k, x)) in v.iter().enumerate() {
                    *out += if i > 0 { ", " } else { " " };
                    *out += &format!("{}:", k);
                    render(c, x, 0, true, out);
                }
                *out += " }";
                if !flow {
                    *out += "\n";
                }
            } else {
                if !out.is_empty() {
                    *out += "\n";
                }
                for (k, x) in v {
                    *out += &format!("{}{}:", pad, k);
                    let w = c.usize(1, 3);
                    render(c, x, indent + w, false, out);
                    if c.chance(1, 12) {
                        *out += "# comment: { a\n";
                    }
                }
            }
        }
        Y::L(v) => {
            if flow || v.is_empty() || (indent > 2 && c.chance(1, 5)) {
                *out += " [";
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        *out += ",";
                    }
                    render(c, x, 0, true, out);
                }
                *out += " ]";
                if !flow {
                    *out += "\n";
                }
            } else {
                *out += "\n";
                for x in v {
                    *out += &format!("{}-", pad);
                    render(c, x, indent + 2, false, out);
                }
            }
        }
    }
}

fn shuffle_keys(c: &mut Ctx, y: &mut Y) {
    match y {
        Y::S(_, _) => (),
        Y::M(v, _) => {
            c.shuffle(v);
            for (_, x) in v.iter_mut() {
                shuffle_keys(c, x);
            }
        }
        Y::L(v) => {
            for x in v.iter_mut() {
                shuffle_keys(c, x);
            }
        }
    }
}

fn get<'a>(y: &'a mut Y, path: &[usize]) -> &'a mut Y {
    if path.is_empty() {
        return y;
    }
    match y {
        Y::S(_, _) => panic!("harness: path"),
        Y::M(v, _) => get(&mut v[path[0]].1, &path[1..]),
        Y::L(v) => get(&mut v[path[0]], &path[1..]),
    }
}

fn walk(y: &Y, path: &mut Vec<usize>, f: &mut dyn FnMut(&Y, &[usize])) {
    f(y, path);
    match y {
        Y::S(_, _) => (),
        Y::M(v, _) => {
            for (i, (_, x)) in v.iter().enumerate() {
                path.push(i);
                walk(x, path, f);
                path.pop();
            }
        }
        Y::L(v) => {
            for (i, x) in v.iter().enumerate() {
                path.push(i);
                walk(x, path, f);
                path.pop();
            }
        }
    }
}

fn name(c: &mut Ctx, used: &mut Vec<String>) -> String {
    loop {
        let mut s = match c.usize(0, 5) {
            0 => c.pick(&["distance", "length", "duration", "speed", "edge-id", "node-id", "src-id", "dst-id", "lat", "lon", "lane-count", "ch-level"]).to_string(),
            1 => format!("metric{}", c.draw(9)),
            2 => format!("a b{}", c.draw(9)),
            3 => format!("{}", c.draw(30)),
            4 => c.pick(&["\u{e4}\u{20ac}", "Ignored", "ignored", "true", "null", "a'b", "a\"b", "x: y", "#a", "[a]", "{", "-", "~"]).to_string(),
            _ => format!("m{}_{}", c.draw(99), c.draw(9)),
        };
        if c.chance(1, 10) && !used.is_empty() {
            // differs from another one by case, or by a suffix
            let o = c.pick(used);
            s = if c.flip() { o.to_ascii_uppercase() } else { format!("{}1", o) };
        }
        if !used.contains(&s) {
            used.push(s.clone());
            return s;
        }
        if c.draws.len() > 3000 {
            let s = format!("n{}", used.len() + 1000);
            used.push(s.clone());
            return s;
        }
    }
}

fn file_name(c: &mut Ctx, ext: &str) -> String {
    let d = c.pick(&["", "dir/", "/abs/dir/", "../", "a b/", "d.csv/"]);
    let b = c.pick(&["map", "out.put", "\u{fc}x", "a b", "1"]);
    format!("{}{}.{}", d, b, ext)
}

fn value(c: &mut Ctx) -> f64 {
    match c.usize(0, 4) {
        0 => c.usize(0, 3) as f64,
        1 => c.i64(-40, 400) as f64 / 8.0,
        2 => c.draw(1000) as f64 * 0.1,
        3 => 1e-7 * c.draw(99) as f64,
        _ => 1e9 + c.draw(99) as f64,
    }
}

const UNITS: [&str; 8] = ["Meters", "Kilometers", "Seconds", "Minutes", "Hours", "KilometersPerHour", "LaneCount", "F64"];

struct Section {
    /// keys from the root
    at: Vec<&'static str>,
    y: Y,
    want: Vec<String>,
}

fn opt<T: std::fmt::Display>(v: &mut Vec<(&'static str, Y)>, key: &'static str, x: Option<T>, f: impl Fn(T) -> Y) {
    if let Some(x) = x {
        v.push((key, f(x)));
    }
}

fn maybe_bool(c: &mut Ctx) -> Option<bool> {
    if c.flip() {
        Some(c.flip())
    } else {
        None
    }
}

fn maybe_int(c: &mut Ctx) -> Option<u64> {
    if c.flip() {
        Some(match c.usize(0, 2) {
            0 => c.draw(20),
            1 => c.draw(1 << 40),
            _ => c.draw(u64::MAX - 1),
        })
    } else {
        None
    }
}

fn unit_id(unit: &str, id: &str) -> Y {
    m(vec![("unit", word(unit)), ("id", text(id))])
}

/// section and the names of its metrics and all edge-columns
fn parsing_section(c: &mut Ctx) -> (Section, Vec<String>, Vec<String>) {
    let mut want = vec![];
    let ext = c.pick(&["fmi", "pbf", "osm.pbf", "FMI", "ch.fmi", "Pbf"]);
    let file = file_name(c, ext);
    want.push(format!("file {}", file));
    let mut v = vec![("map-file", text(&file))];
    if c.flip() {
        let (cat, picky) = (c.pick(&["Car", "Bicycle", "Pedestrian"]), c.flip());
        v.push(("vehicles", strict(vec![("category", word(cat)), ("are_drivers_picky", boolean(picky))])));
        want.push(format!("vehicle {} {}", cat, picky));
    } else {
        want.push("vehicle Car true".into());
    }
    // nodes
    let mut nn = vec![];
    let mut nodes = vec![];
    for _ in 0..c.usize(0, 6) {
        match c.usize(0, 2) {
            0 => {
                let (i, id) = (c.pick(&["NodeId", "CHLevel"]), name(c, &mut nn));
                want.push(format!("node meta {} {}", i, id));
                nodes.push(m(vec![("meta", m(vec![("info", word(i)), ("id", text(&id))]))]));
            }
            1 => {
                let (i, id) = (c.pick(&["Latitude", "Longitude"]), name(c, &mut nn));
                want.push(format!("node metric {} {}", i, id));
                nodes.push(m(vec![("metric", unit_id(i, &id))]));
            }
            _ => {
                want.push("node ignored".into());
                nodes.push(word("ignored"));
            }
        }
    }
    v.push(("nodes", Y::L(nodes)));
    // edges
    let mut en = vec![];
    let mut metrics = vec![];
    let mut data = vec![];
    let mut list = vec![];
    for _ in 0..c.usize(0, 8) {
        match c.weighted(&[2, 3, 1]) {
            0 => {
                let (i, id) = (c.pick(&["EdgeId", "SrcId", "DstId", "ShortcutIdx0", "ShortcutIdx1"]), name(c, &mut en));
                want.push(format!("edge meta {} {}", i, id));
                data.push(m(vec![("meta", m(vec![("info", word(i)), ("id", text(&id))]))]));
            }
            1 => {
                let (i, id) = (c.pick(&UNITS), name(c, &mut en));
                want.push(format!("edge metric {} {}", i, id));
                list.push(format!("metric {} {}", i, id));
                metrics.push(id.clone());
                data.push(m(vec![("metric", unit_id(i, &id))]));
            }
            _ => {
                want.push("edge ignored".into());
                data.push(word("ignored"));
            }
        }
    }
    want.extend(list);
    let mut e = vec![("data", Y::L(data))];
    let norm = maybe_bool(c);
    opt(&mut e, "will_normalize_metrics_by_mean", norm, boolean);
    want.push(format!("normalize {}", norm.unwrap_or(false)));
    v.push(("edges", strict(e)));
    // generating
    if c.flip() {
        let mut gn = vec![];
        for _ in 0..c.usize(0, 2) {
            let id = name(c, &mut nn);
            want.push(format!("gen node NodeIdx {}", id));
            gn.push(m(vec![("meta", m(vec![("info", word("NodeIdx")), ("id", text(&id))]))]));
        }
        let mut ge = vec![];
        let mut all = en.clone();
        for _ in 0..c.usize(0, 6) {
            let (u, u2, u3) = (c.pick(&UNITS), c.pick(&UNITS), c.pick(&UNITS));
            let (a, b, d) = (name(c, &mut all), name(c, &mut all), name(c, &mut all));
            match c.usize(0, 6) {
                0 => {
                    let i = c.pick(&["EdgeId", "SrcIdx", "SrcLat", "SrcLon", "DstIdx", "DstLat", "DstLon"]);
                    want.push(format!("gen meta {} {}", i, a));
                    ge.push(m(vec![("meta", m(vec![("info", word(i)), ("id", text(&a))]))]));
                }
                1 => {
                    let mut x = vec![("id", text(&a))];
                    let unit = if c.flip() { Some(u) } else { None };
                    opt(&mut x, "unit", unit, word);
                    let def = if c.flip() { Some(value(c)) } else { None };
                    opt(&mut x, "default", def, real);
                    want.push(format!("gen custom {} {} {:?}", unit.unwrap_or("F64"), a, def.unwrap_or(0.0)));
                    ge.push(m(vec![("custom", m(x))]));
                }
                2 => {
                    want.push(format!("gen haversine {} {}", u, a));
                    ge.push(m(vec![("haversine", unit_id(u, &a))]));
                }
                k @ 3..=4 => {
                    let key = if k == 3 { "copy" } else { "convert" };
                    want.push(format!("gen {} {} {} to {} {}", key, u, a, u2, b));
                    ge.push(m(vec![(key, m(vec![("from", unit_id(u, &a)), ("to", unit_id(u2, &b))]))]));
                }
                5 => {
                    want.push(format!("gen calc {} {} by {} {} and {} {}", u, a, u2, b, u3, d));
                    ge.push(m(vec![("calc", m(vec![("result", unit_id(u, &a)), ("a", unit_id(u2, &b)), ("b", unit_id(u3, &d))]))]));
                }
                _ => {
                    let f = file_name(c, "csv");
                    let mut x = vec![("from", text(&f)), ("edge-id", text(&a))];
                    let h = maybe_bool(c);
                    opt(&mut x, "with_header-line", h, boolean);
                    let mut cols = vec![];
                    let mut s = format!("gen merge {} {} {}", f, a, h.unwrap_or(true));
                    for _ in 0..c.usize(0, 3) {
                        if c.chance(1, 3) {
                            cols.push(word("ignored"));
                            s += " _";
                        } else {
                            let n = c.pick(&all);
                            s += &format!(" {}", n);
                            cols.push(m(vec![("id", text(n))]));
                        }
                    }
                    x.push(("edges-info", Y::L(cols)));
                    want.push(s);
                    ge.push(m(vec![("merge", m(x))]));
                }
            }
        }
        v.push(("generating", strict(vec![("nodes", Y::L(gn)), ("edges", Y::L(ge))])));
    } else {
        want.push("no generating".into());
    }
    (Section { at: vec!["parsing"], y: strict(v), want }, metrics, en)
}

fn show_parsing(p: &parsing::Config) -> Vec<String> {
    let mut r = vec![format!("file {}", p.map_file.display())];
    r.push(format!("vehicle {:?} {}", p.vehicles.category, p.vehicles.are_drivers_picky));
    for n in &p.nodes.categories {
        r.push(match n {
            parsing::nodes::Category::Meta { info, id } => format!("node meta {:?} {}", info, id),
            parsing::nodes::Category::Metric { unit, id } => format!("node metric {:?} {}", unit, id),
            parsing::nodes::Category::Ignored => "node ignored".into(),
        });
    }
    for e in &p.edges.categories {
        r.push(match e {
            parsing::edges::Category::Meta { info, id } => format!("edge meta {:?} {}", info, id),
            parsing::edges::Category::Metric { unit, id } => format!("edge metric {:?} {}", unit, id),
            parsing::edges::Category::Ignored => "edge ignored".into(),
        });
    }
    for (u, i) in p.edges.metrics.units.iter().zip(&p.edges.metrics.ids) {
        r.push(format!("metric {:?} {}", u, i));
    }
    if p.edges.metrics.units.len() != p.edges.metrics.ids.len() {
        r.push(format!("{} units, {} names", p.edges.metrics.units.len(), p.edges.metrics.ids.len()));
    }
    r.push(format!("normalize {}", p.edges.metrics.are_normalized));
    match &p.generating {
        None => r.push("no generating".into()),
        Some(g) => {
            for n in &g.nodes.categories {
                let generating::nodes::Category::Meta { info, id } = n;
                r.push(format!("gen node {:?} {}", info, id));
            }
            for e in &g.edges.categories {
                use generating::edges::Category::*;
                r.push(match e {
                    Meta { info, id } => format!("gen meta {:?} {}", info, id),
                    Custom { unit, id, default } => format!("gen custom {:?} {} {:?}", unit, id, default),
                    Haversine { unit, id } => format!("gen haversine {:?} {}", unit, id),
                    Copy { from, to } => format!("gen copy {:?} {} to {:?} {}", from.unit, from.id, to.unit, to.id),
                    Convert { from, to } => format!("gen convert {:?} {} to {:?} {}", from.unit, from.id, to.unit, to.id),
                    Calc { result, a, b } => format!("gen calc {:?} {} by {:?} {} and {:?} {}", result.unit, result.id, a.unit, a.id, b.unit, b.id),
                    Merge { from, is_file_with_header, edge_id, edges_info } => {
                        let mut s = format!("gen merge {} {} {}", from.display(), edge_id, is_file_with_header);
                        for x in edges_info {
                            match x {
                                generating::edges::merge::Category::Id(i) => s += &format!(" {}", i),
                                generating::edges::merge::Category::Ignored => s += " _",
                            }
                        }
                        s
                    }
                });
            }
        }
    }
    r
}

fn routing_section(c: &mut Ctx, metrics: &[String]) -> Section {
    let mut want = vec![];
    let mut v = vec![];
    let f = if c.flip() { Some(file_name(c, "route-pairs")) } else { None };
    want.push(format!("pairs {:?}", f));
    opt(&mut v, "route-pairs-file", f, text);
    let (a, s) = match c.usize(0, 3) {
        0 => (word("Dijkstra"), "Dijkstra"),
        1 => (word("CHDijkstra"), "CHDijkstra"),
        2 => (m(vec![("Explorator", m(vec![("algo", word("Dijkstra"))]))]), "Explorator Dijkstra"),
        _ => (m(vec![("Explorator", m(vec![("algo", word("CHDijkstra"))]))]), "Explorator CHDijkstra"),
    };
    v.push(("algorithm", a));
    want.push(format!("algorithm {}", s));
    let mut order: Vec<usize> = (0..metrics.len()).collect();
    c.shuffle(&mut order);
    order.truncate(c.usize(0, metrics.len()));
    let mut al = vec![0.0; metrics.len()];
    let mut ts = vec![f64::INFINITY; metrics.len()];
    let mut list = vec![];
    for i in order {
        let mut x = vec![("id", text(&metrics[i]))];
        al[i] = 1.0;
        if c.flip() {
            al[i] = value(c);
            x.push(("alpha", real(al[i])));
        }
        if c.flip() {
            if c.chance(1, 3) {
                x.push(("tolerated-scale", text(c.pick(&["inf", "infinity", "Infinity", "INF"]))));
            } else {
                ts[i] = value(c).abs();
                x.push(("tolerated-scale", if c.flip() { real(ts[i]) } else { text(format!("{}", ts[i])) }));
            }
        }
        list.push(strict(x));
    }
    v.push(("metrics", Y::L(list)));
    want.push(format!("alphas {:?}", al));
    want.push(format!("scales {:?}", ts));
    Section { at: vec!["routing"], y: strict(v), want }
}

fn show_routing(r: &configs::routing::Config) -> Vec<String> {
    use configs::routing::{ExploratorAlgo, RoutingAlgo};
    vec![
        format!("pairs {:?}", r.route_pairs_file.as_ref().map(|p| p.display().to_string())),
        format!(
            "algorithm {}",
            match r.routing_algo {
                RoutingAlgo::Dijkstra => "Dijkstra",
                RoutingAlgo::CHDijkstra => "CHDijkstra",
                RoutingAlgo::Explorator { algo: ExploratorAlgo::Dijkstra } => "Explorator Dijkstra",
                RoutingAlgo::Explorator { algo: ExploratorAlgo::CHDijkstra } => "Explorator CHDijkstra",
            }
        ),
        format!("alphas {:?}", r.alphas.to_vec()),
        format!("scales {:?}", r.tolerated_scales.to_vec()),
    ]
}

fn ids(c: &mut Ctx, names: &[String]) -> (Y, String) {
    let mut l = vec![];
    let mut s = String::new();
    for _ in 0..c.usize(0, 5) {
        if names.is_empty() || c.chance(1, 3) {
            l.push(word("ignored"));
            s += " _";
        } else {
            let n = c.pick(names);
            l.push(m(vec![("id", text(&n))]));
            s += &format!(" '{}'", n);
        }
    }
    (Y::L(l), s)
}

fn show_ids(v: &[Option<configs::SimpleId>]) -> String {
    v.iter()
        .map(|x| match x {
            None => " _".to_string(),
            Some(i) => format!(" '{}'", i),
        })
        .collect()
}

fn graph_section(c: &mut Ctx, names: &[String]) -> Section {
    let ext = c.pick(&["fmi", "ch.fmi", "FMI"]);
    let f = file_name(c, ext);
    let (n, ns) = ids(c, names);
    let (e, es) = ids(c, names);
    let (sc, de) = (maybe_bool(c), maybe_bool(c));
    let mut x = vec![("ids", e)];
    opt(&mut x, "with_shortcuts", sc, boolean);
    opt(&mut x, "will_denormalize_metrics_by_mean", de, boolean);
    Section {
        at: vec!["writing", "graph"],
        y: strict(vec![("map-file", text(&f)), ("nodes", n), ("edges", strict(x))]),
        want: vec![
            format!("file {} {}", f, f),
            format!("nodes{}", ns),
            format!("edges{}", es),
            format!("shortcuts {} header false denormalize {}", sc.unwrap_or(false), de.unwrap_or(false)),
        ],
    }
}

fn show_graph(g: &configs::writing::network::graph::Config) -> Vec<String> {
    vec![
        format!("file {} {}", g.map_file.display(), g.edges.file.display()),
        format!("nodes{}", show_ids(&g.nodes.ids)),
        format!("edges{}", show_ids(&g.edges.ids)),
        format!("shortcuts {} header {} denormalize {}", g.edges.is_writing_shortcuts, g.edges.is_writing_header, g.edges.is_denormalizing),
    ]
}

fn edges_content(c: &mut Ctx, names: &[String], at: Vec<&'static str>) -> Section {
    let ext = c.pick(&["csv", "CSV", "x.csv"]);
    let f = file_name(c, ext);
    let (e, es) = ids(c, names);
    let (sc, de) = (maybe_bool(c), maybe_bool(c));
    let mut x = vec![("ids", e), ("file", text(&f))];
    opt(&mut x, "with_shortcuts", sc, boolean);
    opt(&mut x, "will_denormalize_metrics_by_mean", de, boolean);
    Section {
        at,
        y: strict(x),
        want: vec![
            format!("file {}", f),
            format!("edges{}", es),
            format!("shortcuts {} header true denormalize {}", sc.unwrap_or(false), de.unwrap_or(false)),
        ],
    }
}

fn show_edges(e: &configs::writing::network::edges::Config) -> Vec<String> {
    vec![
        format!("file {}", e.file.display()),
        format!("edges{}", show_ids(&e.ids)),
        format!("shortcuts {} header {} denormalize {}", e.is_writing_shortcuts, e.is_writing_header, e.is_denormalizing),
    ]
}

fn pairs_section(c: &mut Ctx) -> Section {
    let ext = c.pick(&["route-pairs", "x.route-pairs"]);
    let f = file_name(c, ext);
    let seed = maybe_int(c);
    let k = maybe_int(c).unwrap_or(0);
    let mut x = vec![("max_count", int(k))];
    opt(&mut x, "seed", seed, int);
    Section {
        at: vec!["writing", "route-pairs"],
        y: strict(vec![("file", text(&f)), ("random_or_all", m(x))]),
        want: vec![format!("file {}", f), format!("seed {} max {}", seed.unwrap_or(42), k)],
    }
}

fn show_pairs(p: &configs::writing::routing::Config) -> Vec<String> {
    let configs::writing::routing::Category::RandomOrAll { seed, max_count } = &p.category;
    vec![format!("file {}", p.file.display()), format!("seed {} max {}", seed, max_count)]
}

fn monitoring(c: &mut Ctx, names: &[String]) -> (Y, Vec<String>) {
    let s = edges_content(c, names, vec![]);
    let ex = maybe_bool(c);
    let mut x = vec![("edges-info", s.y)];
    opt(&mut x, "export_vehicles_for_SMARTS", ex, boolean);
    let mut want = s.want;
    want.push(format!("smarts {}", ex.unwrap_or(false)));
    (strict(x), want)
}

fn show_monitoring(x: &configs::balancing::MonitoringConfig) -> Vec<String> {
    let mut v = show_edges(&x.edges_info);
    v.push(format!("smarts {}", x.is_writing_for_smarts));
    v
}

fn evaluating_section(c: &mut Ctx, names: &[String]) -> Section {
    let (seed, threads, dir) = (maybe_int(c), maybe_int(c), file_name(c, "d"));
    let (y, mut want) = monitoring(c, names);
    let mut v = vec![("results-dir", text(&dir)), ("monitoring", y)];
    opt(&mut v, "seed", seed, int);
    opt(&mut v, "number_of_threads", threads, int);
    want.push(format!("dir {} seed {} threads {}", dir, seed.unwrap_or(42), threads.unwrap_or(4)));
    Section { at: vec!["evaluating_balance"], y: strict(v), want }
}

fn show_evaluating(e: &configs::evaluating_balance::Config) -> Vec<String> {
    let mut v = show_monitoring(&e.monitoring);
    v.push(format!("dir {} seed {} threads {}", e.results_dir.display(), e.seed, e.num_threads));
    v
}

fn mch_content(c: &mut Ctx) -> (Y, Vec<String>) {
    let (f, g) = (file_name(c, "fmi"), file_name(c, "ch.fmi"));
    let dim = c.draw(9);
    let mut v = vec![("fmi-graph", text(&f)), ("contracted-graph", text(&g)), ("dimension", int(dim))];
    let (ids, ext) = (c.flip(), c.flip());
    v.push(("is_printing_osm-ids", boolean(ids)));
    v.push(("is_using_external_edge-ids", boolean(ext)));
    let acc = if c.flip() { Some(value(c)) } else { None };
    opt(&mut v, "cost-accuracy", acc, real);
    let min = if c.chance(1, 3) { Some(value(c)) } else { None };
    opt(&mut v, "minimum-cost", min, real);
    let ratio = if c.flip() { Some(c.pick(&["99.8", "100", "0.5", "98.65"])) } else { None };
    opt(&mut v, "contraction-ratio", ratio, text);
    let t = maybe_int(c);
    opt(&mut v, "number_of_threads", t, int);
    let want = vec![
        format!("mch {} {} dim {}", f, g, dim),
        format!("mch ratio {} accuracy {:?} threads {} ids {} {}", ratio.unwrap_or("99.8"), acc.unwrap_or(0.0001), t.unwrap_or(4), ids, ext),
    ];
    (strict(v), want)
}

fn show_mch(x: &multi_ch_constructor::Config) -> Vec<String> {
    vec![
        format!("mch {} {} dim {}", x.fmi_graph.display(), x.ch_fmi_graph.display(), x.dim),
        format!(
            "mch ratio {} accuracy {:?} threads {} ids {} {}",
            x.contraction_ratio, x.cost_accuracy, x.num_threads, x.is_printing_osm_ids, x.is_using_external_edge_ids
        ),
    ]
}

fn balancing_section(c: &mut Ctx, names: &[String]) -> Section {
    let (y, mut want) = monitoring(c, names);
    let (seed, threads, dir) = (maybe_int(c), maybe_int(c), file_name(c, "d"));
    let (f0, fi) = (file_name(c, "yaml"), file_name(c, "yaml"));
    let (mch, mw) = mch_content(c);
    want.extend(mw);
    let n = c.draw(100);
    let id = if names.is_empty() { "x".to_string() } else { c.pick(names) };
    let (method, ms) = if c.flip() {
        let k = value(c);
        (m(vec![("explicit_euler", m(vec![("correction", real(k))]))]), format!("euler {:?}", k))
    } else {
        (word("averaging"), "averaging".to_string())
    };
    let min = if c.flip() { Some(value(c)) } else { None };
    let zero = maybe_bool(c);
    let mut v = vec![
        ("results-dir", text(&dir)),
        ("iter-0-cfg", text(&f0)),
        ("iter-i-cfg", text(&fi)),
        ("multi-ch-constructor", mch),
        ("number_of_metric-updates", int(n)),
        ("monitoring", y),
        ("optimizing_with", strict(vec![("metric-id", text(&id)), ("method", method)])),
    ];
    opt(&mut v, "seed", seed, int);
    opt(&mut v, "number_of_threads", threads, int);
    opt(&mut v, "min_new_metric", min, real);
    opt(&mut v, "throw_err_when_new_metric_is_zero", zero, boolean);
    want.push(format!("dir {} seed {} threads {}", dir, seed.unwrap_or(42), threads.unwrap_or(4)));
    want.push(format!("iter {} {} {}", f0, fi, n + 1));
    want.push(format!("optimize '{}' {} min {:?} err {}", id, ms, min, zero.unwrap_or(true)));
    Section { at: vec!["balancing"], y: strict(v), want }
}

fn show_balancing(b: &configs::balancing::Config) -> Vec<String> {
    use configs::balancing::OptimizationMethod::*;
    let mut v = show_monitoring(&b.monitoring);
    v.extend(show_mch(&b.multi_ch_constructor));
    v.push(format!("dir {} seed {} threads {}", b.results_dir.display(), b.seed, b.num_threads));
    v.push(format!("iter {} {} {}", b.iter_0_cfg.display(), b.iter_i_cfg.display(), b.num_iter));
    v.push(format!(
        "optimize '{}' {} min {:?} err {}",
        b.optimization.metric_id,
        match b.optimization.method {
            ExplicitEuler { correction } => format!("euler {:?}", correction),
            Averaging => "averaging".to_string(),
        },
        b.min_new_metric,
        b.is_err_when_metric_is_zero
    ));
    v
}

type Shown = Result<Vec<String>, String>;

fn read(at: &[&str], file: &Path, y: &str, from_file: bool, pcfg: Option<&parsing::Config>) -> Shown {
    let e = |e: osmgraphing::helpers::err::Msg| e.to_string();
    let se = |e: serde_yaml::Error| e.to_string();
    Ok(match *at {
        ["parsing"] => show_parsing(&if from_file { parsing::Config::try_from_yaml(file).map_err(e)? } else { serde_yaml::from_str(y).map_err(se)? }),
        ["routing"] => {
            let p = pcfg.expect("harness: parsing-section");
            show_routing(&if from_file { configs::routing::Config::try_from_yaml(file, p).map_err(e)? } else { configs::routing::Config::try_from_str(y, p).map_err(e)? })
        }
        ["writing", "graph"] => show_graph(&if from_file { configs::writing::network::graph::Config::try_from_yaml(file).map_err(e)? } else { serde_yaml::from_str(y).map_err(se)? }),
        ["writing", "edges-info"] => show_edges(&if from_file { configs::writing::network::edges::Config::try_from_yaml(file).map_err(e)? } else { serde_yaml::from_str(y).map_err(se)? }),
        ["writing", "route-pairs"] => show_pairs(&if from_file { configs::writing::routing::Config::try_from_yaml(file).map_err(e)? } else { serde_yaml::from_str(y).map_err(se)? }),
        ["evaluating_balance"] => show_evaluating(&if from_file {
            configs::evaluating_balance::Config::try_from_yaml(file).map_err(e)?
        } else {
            configs::evaluating_balance::Config::try_from_str(y).map_err(e)?
        }),
        ["balancing"] => show_balancing(&if from_file { configs::balancing::Config::try_from_yaml(file).map_err(e)? } else { configs::balancing::Config::try_from_str(y).map_err(e)? }),
        ["multi-ch-constructor"] => show_mch(&if from_file { multi_ch_constructor::Config::try_from_yaml(file).map_err(e)? } else { multi_ch_constructor::Config::try_from_str(y).map_err(e)? }),
        _ => panic!("harness: section"),
    })
}

const OPTIONAL: [&str; 17] = [
    "vehicles", "generating", "will_normalize_metrics_by_mean", "with_shortcuts", "will_denormalize_metrics_by_mean", "seed", "number_of_threads", "export_vehicles_for_SMARTS", "min_new_metric",
    "throw_err_when_new_metric_is_zero", "alpha", "tolerated-scale", "route-pairs-file", "default", "with_header-line", "minimum-cost", "contraction-ratio",
];

fn is_optional(key: &str, siblings: &[(String, Y)], parent: &str) -> bool {
    OPTIONAL.contains(&key) || key == "cost-accuracy" || (key == "unit" && parent == "custom" && !siblings.is_empty())
}

/// damages a section such that it has to be rejected; None if nothing was found to damage
fn damage(c: &mut Ctx, s: &mut Section, columns: &[String], metrics: &[String]) -> Option<String> {
    // candidates
    let mut maps = vec![]; // strict maps
    let mut required = vec![]; // (path of the map, index)
    let mut scalars = vec![];
    fn rec(y: &Y, parent: &str, path: &mut Vec<usize>, maps: &mut Vec<Vec<usize>>, req: &mut Vec<(Vec<usize>, usize, String)>, sc: &mut Vec<(Vec<usize>, K, String)>) {
        match y {
            Y::S(s, k) => sc.push((path.clone(), *k, format!("{} {}", parent, s))),
            Y::M(v, strict) => {
                if *strict {
                    maps.push(path.clone());
                }
                for (i, (k, x)) in v.iter().enumerate() {
                    // (serde_yaml itself panics for an empty map in place of an enum)
                    if !is_optional(k, v, parent) && v.len() > 1 {
                        req.push((path.clone(), i, k.clone()));
                    }
                    path.push(i);
                    rec(x, k, path, maps, req, sc);
                    path.pop();
                }
            }
            Y::L(v) => {
                for (i, x) in v.iter().enumerate() {
                    path.push(i);
                    rec(x, parent, path, maps, req, sc);
                    path.pop();
                }
            }
        }
    }
    rec(&s.y, "", &mut vec![], &mut maps, &mut required, &mut scalars);
    match c.weighted(&[4, 3, 4, 3, 3]) {
        0 => {
            let p = c.pick(&maps);
            if let Y::M(v, _) = get(&mut s.y, &p) {
                let mut k = c.pick(&["bogus", "unknown-field", "id2", "Seed"]).to_string();
                if !v.is_empty() && c.flip() {
                    let o = c.pick(&v.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
                    k = match c.usize(0, 2) {
                        0 => format!("{}s", o),
                        1 => o.to_ascii_uppercase(),
                        _ => o.replace('-', "_").replace("metrics", "metric"),
                    };
                }
                // never a real key
                const KEYS: [&str; 60] = [
                    "map-file", "vehicles", "nodes", "edges", "generating", "category", "are_drivers_picky", "will_normalize_metrics_by_mean", "data", "route-pairs-file", "algorithm", "metrics", "id", "alpha",
                    "tolerated-scale", "with_shortcuts", "will_denormalize_metrics_by_mean", "ids", "file", "random_or_all", "seed", "max_count", "results-dir", "monitoring", "number_of_threads", "edges-info",
                    "export_vehicles_for_SMARTS", "iter-0-cfg", "iter-i-cfg", "multi-ch-constructor", "number_of_metric-updates", "optimizing_with", "min_new_metric", "throw_err_when_new_metric_is_zero",
                    "metric-id", "method", "fmi-graph", "contracted-graph", "dimension", "minimum-cost", "cost-accuracy", "contraction-ratio", "is_printing_osm-ids", "is_using_external_edge-ids", "meta",
                    "metric", "info", "unit", "custom", "haversine", "copy", "convert", "calc", "merge", "from", "to", "default", "result", "a", "b",
                ];
                if KEYS.contains(&k.as_str()) {
                    return None;
                }
                v.push((k.clone(), c.pick(&[int(1), text("x"), boolean(true), Y::L(vec![])])));
                return Some(format!("unknown field {}", k));
            }
            None
        }
        1 => {
            if required.is_empty() {
                return None;
            }
            let (p, i, k) = c.pick(&required);
            if let Y::M(v, _) = get(&mut s.y, &p) {
                v.remove(i);
            }
            Some(format!("missing field {}", k))
        }
        2 => {
            if scalars.is_empty() {
                return None;
            }
            let (p, k, what) = c.pick(&scalars);
            let bad = match k {
                // settings given as text may also be given as number
                K::Text => Y::L(vec![text("x")]),
                K::Real if what.starts_with("tolerated-scale") => text(c.pick(&["abc", "", "-", "infinit", "1,5", "1.5x", "in", "f"])),
                K::Real => c.pick(&[text("abc"), boolean(true), Y::L(vec![])]),
                K::Int => c.pick(&[text("abc"), boolean(true), Y::S("-1".into(), K::Int), Y::S("1.5".into(), K::Real), Y::L(vec![])]),
                K::Bool => c.pick(&[text("abc"), Y::S("3".into(), K::Int), Y::L(vec![])]),
                K::Word => {
                    if let Y::S(w, _) = get(&mut s.y, &p).clone() {
                        let alt = c.pick(&["Bogus".to_string(), w.to_ascii_uppercase(), w.to_ascii_lowercase(), format!("{}s", w), w.chars().rev().collect()]);
                        // lane count and F64 are upper case already, 'ignored' is lower case already
                        if alt == w {
                            word("Bogus")
                        } else {
                            word(alt)
                        }
                    } else {
                        return None;
                    }
                }
            };
            *get(&mut s.y, &p) = bad.clone();
            Some(format!("{:?} instead of {}", bad, what))
        }
        3 => {
            // files of other types
            let key = match s.at.as_slice() {
                ["parsing"] | ["writing", "graph"] => "map-file",
                ["writing", _] => "file",
                _ => return None,
            };
            let f = c.pick(&["map.txt", "map", "fmi", "map.fmi.gz", "a.xml", "map.fm", "pbf", "a.route-pair", "a.csv2", "dir.fmi/a", ".csv"]);
            if let Y::M(v, _) = &mut s.y {
                for (k, x) in v.iter_mut() {
                    if k == key {
                        *x = text(f);
                    }
                }
            }
            Some(format!("file type {}", f))
        }
        _ => match s.at.as_slice() {
            ["routing"] => {
                let mut cand: Vec<String> = columns.iter().filter(|x| !metrics.contains(x)).cloned().collect();
                cand.push("not a metric".into());
                if let Some(x) = metrics.first() {
                    for y in &[x.to_ascii_uppercase(), format!("{} ", x), format!("{}x", x)] {
                        if !metrics.contains(y) {
                            cand.push(y.clone());
                        }
                    }
                }
                let n = c.pick(&cand);
                if let Y::M(v, _) = &mut s.y {
                    for (k, x) in v.iter_mut() {
                        if let (true, Y::L(l)) = (k == "metrics", x) {
                            let at = c.usize(0, l.len());
                            let mut e = vec![("id", text(&n))];
                            if c.flip() {
                                e.push(("alpha", real(0.0)));
                            }
                            l.insert(at, strict(e));
                        }
                    }
                }
                Some(format!("unknown metric {:?}", n))
            }
            ["parsing"] => {
                if columns.is_empty() {
                    return None;
                }
                let n = c.pick(columns);
                if let Y::M(v, _) = &mut s.y {
                    for (k, x) in v.iter_mut() {
                        if let (true, Y::M(e, _)) = (k == "edges", x) {
                            for (k, d) in e.iter_mut() {
                                if let (true, Y::L(l)) = (k == "data", d) {
                                    let at = c.usize(0, l.len());
                                    let col = if c.flip() {
                                        m(vec![("metric", unit_id("Meters", &n))])
                                    } else {
                                        m(vec![("meta", m(vec![("info", word("EdgeId")), ("id", text(&n))]))])
                                    };
                                    l.insert(at, col);
                                }
                            }
                        }
                    }
                }
                Some(format!("name {:?} twice", n))
            }
            _ => None,
        },
    }
}

fn p17(c: &mut Ctx) -> Res {
    let (p, metrics, columns) = parsing_section(c);
    let names: Vec<String> = columns.clone();
    let mut sections = vec![p];
    let pick = |c: &mut Ctx| c.chance(3, 4);
    sections.push(routing_section(c, &metrics));
    if pick(c) {
        let s = graph_section(c, &names);
        sections.push(s);
    }
    if pick(c) {
        let s = edges_content(c, &names, vec!["writing", "edges-info"]);
        sections.push(s);
    }
    if pick(c) {
        let s = pairs_section(c);
        sections.push(s);
    }
    if pick(c) {
        let s = evaluating_section(c, &names);
        sections.push(s);
    }
    if pick(c) {
        let s = balancing_section(c, &names);
        sections.push(s);
    }
    if pick(c) {
        let (y, want) = mch_content(c);
        sections.push(Section { at: vec!["multi-ch-constructor"], y, want });
    }
    // the parsing-section as it should be, for reading the others
    let mut broken = None;
    if !c.chance(1, 3) {
        let i = c.usize(0, sections.len() - 1);
        let mut s = Section { at: sections[i].at.clone(), y: sections[i].y.clone(), want: vec![] };
        if let Some(why) = damage(c, &mut s, &columns, &metrics) {
            broken = Some((i, s.y, why));
        }
    }
    let file_types = broken.as_ref().map(|b| b.2.starts_with("file type")).unwrap_or(false);
    let build = |c: &mut Ctx, broken: Option<(usize, &Y)>| -> String {
        let mut root: Vec<(String, Y)> = vec![];
        for (i, s) in sections.iter().enumerate() {
            let y = match broken {
                Some((k, y)) if k == i => y.clone(),
                _ => s.y.clone(),
            };
            if s.at.len() == 1 {
                root.push((s.at[0].to_string(), y));
            } else {
                let k = match root.iter().position(|x| x.0 == s.at[0]) {
                    Some(k) => k,
                    None => {
                        root.push((s.at[0].to_string(), Y::M(vec![], false)));
                        root.len() - 1
                    }
                };
                if let Y::M(v, _) = &mut root[k].1 {
                    v.push((s.at[1].to_string(), y));
                }
            }
        }
        // other sections have no influence
        if c.chance(1, 3) {
            root.push((c.pick(&["other", "routings", "Parsing", "comment"]).to_string(), c.pick(&[int(3), m(vec![("nodes", Y::L(vec![]))]), text("x")])));
        }
        let mut y = Y::M(root, false);
        if c.flip() {
            shuffle_keys(c, &mut y);
        }
        let mut out = String::new();
        render(c, &y, 0, false, &mut out);
        out
    };
    let good = build(c, None);
    let bad = broken.as_ref().map(|(i, y, _)| build(c, Some((*i, y))));
    c.note(format!("defect: {:?}\n{}", broken.as_ref().map(|b| (sections[b.0].at.clone(), b.2.clone())), bad.as_ref().unwrap_or(&good)));
    let gf = c.write("good.yaml", good.as_bytes());
    let ext = c.pick(&["yaml", "x.yaml", "YAML"]);
    let bf = c.write(&format!("bad.{}", ext), bad.as_ref().unwrap_or(&good).as_bytes());
    let pcfg: parsing::Config = guard("reading the configuration", || serde_yaml::from_str(&good))?.map_err(|e| format!("valid configuration rejected: {}", e))?;
    if c.chance(1, 20) {
        // files of other types, or missing ones
        let n = c.pick(&["good.yml", "good", "good.yaml.txt", "missing.yaml", "yaml"]);
        if n != "missing.yaml" {
            c.write(n, good.as_bytes());
        }
        let f = c.path(n);
        for s in &sections {
            let r = guard("reading the configuration", || read(&s.at, &f, &good, true, Some(&pcfg)))?;
            ensure!(r.is_err(), "section {:?} is read from the file {}", s.at, n);
        }
        c.label("file type of the configuration");
    }
    for (i, s) in sections.iter().enumerate() {
        let is_bad = broken.as_ref().map(|b| b.0) == Some(i);
        // in the defective file, only the defective section is affected
        let from_file = (is_bad && file_types) || c.flip();
        let r = guard("reading the configuration", || read(&s.at, &bf, bad.as_ref().unwrap_or(&good), from_file, Some(&pcfg)))?;
        if is_bad {
            if r.is_ok() {
                return Err(format!("section {:?} is accepted in spite of {}", s.at, broken.as_ref().unwrap().2));
            }
        } else {
            let have = r.map_err(|e| format!("valid section {:?} is rejected: {}", s.at, e))?;
            compare(&s.at, &have, &s.want)?;
        }
    }
    if let Some((i, _, why)) = &broken {
        // without the defect it is fine
        let s = &sections[*i];
        let from_file = c.flip();
        let have = guard("reading the configuration", || read(&s.at, &gf, &good, from_file, Some(&pcfg)))?.map_err(|e| format!("valid section {:?} is rejected: {}", s.at, e))?;
        compare(&s.at, &have, &s.want)?;
        let k = why.split(' ').next().unwrap();
        let k2 = if why.contains("instead of") { "wrong value" } else { k };
        c.label(format!("defect: {}", k2));
    } else {
        c.label("no defect");
    }
    Ok(if sections.len() >= 3 { Verdict::NonTrivial } else { Verdict::Trivial })
}

fn compare(at: &[&str], have: &[String], want: &[String]) -> Result<(), String> {
    // units, names and flags appear in the same order; sections list them in a fixed order
    let (mut h, mut w) = (have.to_vec(), want.to_vec());
    let key = |s: &String| s.split(' ').take(2).collect::<Vec<_>>().join(" ");
    h.sort_by_key(|s| key(s));
    w.sort_by_key(|s| key(s));
    for (a, b) in have.iter().zip(want) {
        if h == w {
            break;
        }
        ensure!(a == b, "section {:?}: read '{}', expected '{}'", at, a, b);
    }
    ensure!(have.len() == want.len(), "section {:?}: read {:?}, expected {:?}", at, have, want);
    ensure!(have == want, "section {:?}: read {:?}, expected {:?}", at, have, want);
    Ok(())
}
