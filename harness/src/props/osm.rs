//! P12, P13: OSM files
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::osm_tables::*;
use crate::pbf::*;
use crate::props::fmi::{parse_graph, try_parse};
use osmgraphing::network::{Graph, NodeIdx};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P12",
            run: p12,
            quick: 30_000,
            thorough: 500_000,
            rule: "a case is an OSM file encoded by the harness (blocks, dense and plain nodes, raw and zlib blobs, ways before or after nodes) with ways of all street categories, aliases, non-streets and oneway notations, read for one vehicle and both attitudes; the last case of a run is the Isle of Man of the repository for all vehicles; non-trivial: at least one suitable and one unsuitable or one-way street",
            level: "exploration",
            assumptions: &["every node of a street is in the file", "undamaged files", "a street is one-way by its oneway tag only (no implied directions)"],
        },
        Prop {
            id: "P13",
            run: p13,
            quick: 30_000,
            thorough: 500_000,
            rule: "a case is an OSM file as for P12 with maxspeed tags in all known and in unknown notations, read with random columns for speed and lanes; the last case of a run is the Isle of Man; non-trivial: at least one tagged and one untagged suitable street",
            level: "exploration",
            assumptions: &["plain numbers are written without surrounding blanks and sign and are below 65536"],
        },
    ]
}

// ---------------------------------------------------------------------------------------------- //
// reference interpretation

fn tag<'a>(w: &'a OsmWay, key: &str) -> Option<&'a str> {
    w.tags.iter().find(|(k, _)| k == key).map(|(_, v)| v.as_str())
}

fn category(w: &OsmWay) -> Option<usize> {
    let v = tag(w, "highway")?.trim_end().to_ascii_lowercase();
    let name = HIGHWAYS.iter().find(|(k, _)| *k == v)?.1;
    CATEGORIES.iter().position(|c| c.0 == name)
}

fn suitable(cat: usize, vehicle: usize, picky: bool) -> bool {
    match CATEGORIES[cat].3[vehicle] {
        2 => true,
        1 => !picky,
        _ => false,
    }
}

fn direction(w: &OsmWay) -> i8 {
    let v = match tag(w, "oneway") {
        None => return 0,
        Some(v) => v.trim().to_ascii_lowercase(),
    };
    ONEWAYS.iter().find(|(k, _)| *k == v).map(|x| x.1).unwrap_or(0)
}

fn speed(w: &OsmWay, cat: usize) -> f64 {
    let default = CATEGORIES[cat].2;
    let v = match tag(w, "maxspeed") {
        None => return default,
        Some(v) => v,
    };
    if !v.is_empty() && v.len() <= 5 && v.bytes().all(|b| b.is_ascii_digit()) {
        return v.parse::<f64>().unwrap().max(5.0);
    }
    let v = v.trim().to_ascii_lowercase();
    match SPEEDS.iter().find(|(k, _)| *k == v) {
        Some((_, s)) if *s > 0.0 => *s,
        _ => default,
    }
}

struct Edge {
    src: i64,
    dst: i64,
    speed: f64,
    lanes: f64,
}

fn edges_of(w: &OsmWay, cat: usize) -> Vec<Edge> {
    let (s, l) = (speed(w, cat), CATEGORIES[cat].1 as f64);
    let d = direction(w);
    let mut out = vec![];
    for p in w.nodes.windows(2) {
        if d >= 0 {
            out.push(Edge { src: p[0], dst: p[1], speed: s, lanes: l });
        }
        if d <= 0 {
            out.push(Edge { src: p[1], dst: p[0], speed: s, lanes: l });
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------- //
// generators

fn vary_case(c: &mut Ctx, s: &str, lead: bool) -> String {
    let mut t = match c.weighted(&[6, 1, 1]) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        _ => s
            .chars()
            .enumerate()
            .map(|(i, ch)| if i == 0 { ch.to_ascii_uppercase() } else { ch })
            .collect(),
    };
    if c.chance(1, 12) {
        t.push_str(c.pick(&[" ", "  ", "\t"]));
    }
    if lead && c.chance(1, 12) {
        t.insert(0, ' ');
    }
    t
}

fn gen_osm(c: &mut Ctx, speeds: bool) -> Osm {
    let n = c.usize(2, 4 + c.size.min(100) / 10);
    let ids = gen_ids(c, n);
    let mut nodes = vec![];
    for id in &ids {
        let (lat, lon) = match c.usize(0, 3) {
            0 => (c.i64(480_000_000, 490_000_000), c.i64(90_000_000, 92_000_000)),
            1 => (c.i64(-900_000_000, 900_000_000), c.i64(-1_800_000_000, 1_800_000_000)),
            2 => (c.i64(-20, 20), c.i64(-20, 20)),
            _ => (c.pick(&[0, 900_000_000, -900_000_000]), c.pick(&[0, 1_800_000_000, -1_800_000_000])),
        };
        let tags = if c.chance(1, 8) { vec![("highway".to_string(), c.pick(&["crossing", "residential"]).to_string())] } else { vec![] };
        nodes.push(OsmNode { id: *id, lat: lat as i32, lon: lon as i32, tags });
    }
    let mut ways = vec![];
    let m = c.usize(1, 1 + c.size.min(100) / 9);
    let one_cat = if c.chance(1, 5) { Some(c.usize(0, HIGHWAYS.len() - 1)) } else { None };
    for k in 0..m {
        let len = match c.weighted(&[1, 6, 2]) {
            0 => c.usize(0, 1),
            1 => c.usize(2, 4),
            _ => c.usize(2, 9),
        };
        let mut ns: Vec<i64> = match c.weighted(&[3, 2, 1]) {
            0 => (0..len).map(|_| c.pick(&ids)).collect(),
            1 => {
                // along the list
                let s = c.usize(0, n - 1);
                (0..len).map(|i| ids[(s + i) % n]).collect()
            }
            _ => {
                // again a part of another street
                match ways.last() {
                    Some(w) => {
                        let mut v: Vec<i64> = (w as &OsmWay).nodes.clone();
                        if c.flip() {
                            v.reverse();
                        }
                        v
                    }
                    None => (0..len).map(|_| c.pick(&ids)).collect(),
                }
            }
        };
        if ns.len() > 2 && c.chance(1, 6) {
            let f = ns[0];
            ns.push(f); // closed
        }
        let mut tags: Vec<(String, String)> = vec![];
        match c.weighted(&[10, 5, 2, 1, 1]) {
            0 => {
                let i = one_cat.unwrap_or_else(|| c.usize(0, HIGHWAYS.len() - 1));
                tags.push(("highway".into(), vary_case(c, HIGHWAYS[i].0, false)));
            }
            1 => {
                let i = c.pick(&["residential", "primary", "tertiary", "living_street", "track", "cycleway", "path", "motorway"]);
                tags.push(("highway".into(), i.into()));
            }
            2 => {
                let i = c.pick(&NO_STREETS);
                tags.push(("highway".into(), vary_case(c, i, false)));
            }
            3 => {
                let i = c.pick(&["foo", "", "motorways", "primary link", "residential;foo", "living street", "4 4"]);
                tags.push(("highway".into(), i.into()));
            }
            _ => (),
        }
        if c.chance(3, 5) {
            let v = match c.weighted(&[4, 6, 1]) {
                0 => c.pick(&["yes", "no", "-1", "1"]).to_string(),
                1 => {
                    let v = c.pick(&ONEWAYS).0;
                    vary_case(c, v, true)
                }
                _ => c.pick(&["foo", "", "nope", "y", "2"]).to_string(),
            };
            tags.push(("oneway".into(), v));
        }
        if speeds && c.chance(2, 3) || c.chance(1, 5) {
            let v = match c.weighted(&[4, 5, 1]) {
                0 => match c.usize(0, 3) {
                    0 => c.usize(0, 8).to_string(),
                    1 => (c.usize(1, 13) * 10).to_string(),
                    2 => c.usize(0, 65535).to_string(),
                    _ => format!("{:03}", c.usize(0, 300)),
                },
                1 => {
                    let v = c.pick(&SPEEDS).0;
                    vary_case(c, v, true)
                }
                _ => c.pick(&["foo", "", "fast", "fifty", "km/h", "unknown", "yes", "-7", "no limit"]).to_string(),
            };
            tags.push(("maxspeed".into(), v));
        }
        for (k, v) in &[
            ("lanes", "4"),
            ("name", "Motorway"),
            ("maxspeed:forward", "7"),
            ("oneway:bicycle", "yes"),
            ("Highway", "residential"),
            ("source:maxspeed", "DE:urban"),
            ("junction:type", "x"),
            ("access", "yes"),
        ] {
            if c.chance(1, 10) {
                tags.push((k.to_string(), v.to_string()));
            }
        }
        c.shuffle(&mut tags);
        ways.push(OsmWay { id: k as i64 * 7 + 1, nodes: ns, tags });
    }
    if c.chance(1, 3) {
        c.shuffle(&mut nodes);
    } else {
        nodes.sort_by_key(|n| n.id);
    }
    // some nodes are used by no way
    Osm { nodes, ways }
}

const VEHICLES: [&str; 3] = ["Car", "Bicycle", "Pedestrian"];

/// kinds of metric columns
fn config(file: &Path, vehicle: usize, picky: bool, omit: bool, cols: &[Option<bool>]) -> String {
    let mut y = format!("parsing:\n  map-file: '{}'\n", file.display());
    if !omit {
        y += &format!("  vehicles:\n    category: '{}'\n    are_drivers_picky: {}\n", VEHICLES[vehicle], picky);
    }
    y += "  nodes:\n  - meta: { info: 'NodeId', id: 'node-id' }\n  - metric: { unit: 'Latitude', id: 'lat' }\n  - metric: { unit: 'Longitude', id: 'lon' }\n  edges:\n    data:\n    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n";
    for (i, col) in cols.iter().enumerate() {
        y += &match col {
            None => "    - ignored\n".to_string(),
            Some(true) => format!("    - metric: {{ unit: 'KilometersPerHour', id: 'm{}' }}\n", i),
            Some(false) => format!("    - metric: {{ unit: 'LaneCount', id: 'm{}' }}\n", i),
        };
    }
    y
}

fn describe(c: &mut Ctx, osm: &Osm) {
    let mut s = String::from("nodes (id, 1e-7 degrees):");
    for n in osm.nodes.iter().take(40) {
        s += &format!("\n  {} {} {}", n.id, n.lat, n.lon);
    }
    s += "\nways:";
    for w in osm.ways.iter().take(40) {
        s += &format!("\n  {:?} {:?}", w.nodes, w.tags);
    }
    c.note(s);
}

// ---------------------------------------------------------------------------------------------- //

fn check_structure(osm: &Osm, g: &Graph, vehicle: usize, picky: bool) -> Result<(), String> {
    // per pair of nodes: how many streets, and how many different ones
    let mut want: BTreeMap<(i64, i64), (usize, BTreeSet<(u64, u64)>)> = BTreeMap::new();
    for w in &osm.ways {
        if let Some(cat) = category(w) {
            if suitable(cat, vehicle, picky) {
                for e in edges_of(w, cat) {
                    let x = want.entry((e.src, e.dst)).or_default();
                    x.0 += 1;
                    x.1.insert((e.speed.to_bits(), e.lanes.to_bits()));
                }
            }
        }
    }
    let mut have: BTreeMap<(i64, i64), usize> = BTreeMap::new();
    for e in graph_edges(g) {
        *have.entry((e.src, e.dst)).or_insert(0) += 1;
    }
    for (p, n) in &have {
        let most = want.get(p).map(|w| w.0).unwrap_or(0);
        ensure!(*n <= most, "{} edges from {} to {}, expected {}", n, p.0, p.1, most);
    }
    for p in want.keys() {
        ensure!(have.contains_key(p), "no edge from {} to {}, expected {}", p.0, p.1, want[p].0);
    }
    let used: BTreeSet<i64> = want.keys().flat_map(|p| vec![p.0, p.1]).collect();
    let ids: Vec<i64> = (0..g.nodes().count()).map(|i| g.nodes().id(NodeIdx(i))).collect();
    ensure!(
        ids.iter().copied().eq(used.iter().copied()),
        "nodes of the graph are {:?}…, expected {:?}… ({} and {})",
        &ids[..ids.len().min(20)],
        used.iter().take(20).collect::<Vec<_>>(),
        ids.len(),
        used.len()
    );
    Ok(())
}

fn check_coords(osm: &Osm, g: &Graph) -> Result<(), String> {
    let at: BTreeMap<i64, (i32, i32)> = osm.nodes.iter().map(|n| (n.id, (n.lat, n.lon))).collect();
    for i in 0..g.nodes().count() {
        let i = NodeIdx(i);
        let (lat, lon) = match at.get(&g.nodes().id(i)) {
            Some(x) => *x,
            None => continue,
        };
        let have = g.nodes().coord(i);
        ensure!(
            (have.lat - lat as f64 / 1e7).abs() < 1e-8 && (have.lon - lon as f64 / 1e7).abs() < 1e-8,
            "node {} is at {:?}, expected {} {} (1e-7 degrees)",
            g.nodes().id(i),
            have,
            lat,
            lon
        );
    }
    Ok(())
}

fn isle_of_man() -> Option<(std::path::PathBuf, Osm)> {
    let p = Path::new("/repo/resources/isle_of_man_2020-03-14/graph.osm.pbf").to_path_buf();
    let f = std::fs::File::open(&p).ok()?;
    let mut osm = Osm::default();
    for o in osmpbfreader::OsmPbfReader::new(f).iter() {
        match o.ok()? {
            osmpbfreader::OsmObj::Node(n) => osm.nodes.push(OsmNode { id: n.id.0, lat: n.decimicro_lat, lon: n.decimicro_lon, tags: vec![] }),
            osmpbfreader::OsmObj::Way(w) => osm.ways.push(OsmWay {
                id: w.id.0,
                nodes: w.nodes.iter().map(|n| n.0).collect(),
                tags: w.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            }),
            _ => (),
        }
    }
    Some((p, osm))
}

fn p12(c: &mut Ctx) -> Res {
    if c.size == 101 {
        if let Some((file, osm)) = isle_of_man() {
            for v in 0..3 {
                for picky in &[true, false] {
                    let g = parse_graph(&config(&file, v, *picky, false, &[Some(true), Some(false)]))?;
                    check_structure(&osm, &g, v, *picky).map_err(|m| format!("Isle of Man, {}, picky {}: {}", VEHICLES[v], picky, m))?;
                }
            }
            c.note("Isle of Man for all vehicles and attitudes");
            c.label("real map");
            return Ok(Verdict::NonTrivial);
        }
    }
    let osm = gen_osm(c, false);
    if c.chance(1, 8) {
        return p12_unreadable(c, &osm);
    }
    let bytes = osm.encode(c);
    let file = c.write(if c.size % 3 == 0 { "map.pbf" } else { "map.osm.pbf" }, &bytes);
    let vehicle = c.usize(0, 2);
    describe(c, &osm);
    let cols = match c.usize(0, 2) {
        0 => vec![Some(true), Some(false)],
        1 => vec![Some(false)],
        _ => vec![None, Some(true)],
    };
    let mut graphs: Vec<BTreeSet<(i64, i64)>> = vec![];
    for picky in &[true, false] {
        let omit = vehicle == 0 && *picky && c.flip();
        let y = config(&file, vehicle, *picky, omit, &cols);
        c.note(format!("{}, picky {}", VEHICLES[vehicle], picky));
        let g = parse_graph(&y)?;
        check_structure(&osm, &g, vehicle, *picky)?;
        check_coords(&osm, &g)?;
        graphs.push(graph_edges(&g).iter().map(|e| (e.src, e.dst)).collect());
    }
    ensure!(graphs[0].is_subset(&graphs[1]), "a picky driver has edges that others do not have");
    let streets: Vec<(usize, i8)> = osm
        .ways
        .iter()
        .filter(|w| w.nodes.len() > 1)
        .filter_map(|w| category(w).map(|k| (k, direction(w))))
        .collect();
    let suit = streets.iter().filter(|s| suitable(s.0, vehicle, false)).count();
    if streets.iter().any(|s| suitable(s.0, vehicle, false) && s.1 < 0) {
        c.label("reversed one-way street");
    }
    if graphs[0] != graphs[1] {
        c.label("picky makes a difference");
    }
    if graphs[1].is_empty() {
        c.label("no street");
    }
    c.label(VEHICLES[vehicle]);
    let oneway = streets.iter().any(|s| suitable(s.0, vehicle, false) && s.1 != 0);
    Ok(if suit > 0 && (suit < osm.ways.len() || oneway) { Verdict::NonTrivial } else { Verdict::Trivial })
}

/// A block that cannot be read must not be left out silently.
fn p12_unreadable(c: &mut Ctx, osm: &Osm) -> Res {
    let k = c.usize(0, DEFECTS.len());
    describe(c, osm);
    let vehicle = c.usize(0, 2);
    let picky = c.flip();
    let (what, file) = if k < DEFECTS.len() {
        let bytes = osm.encode_with(c, Some(DEFECTS[k]));
        (DEFECTS[k], c.write("map.pbf", &bytes))
    } else {
        let dir = c.path("folder.pbf");
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        ("map is a directory", dir)
    };
    c.note(format!("{} {}, picky {}", what, VEHICLES[vehicle], picky));
    let y = config(&file, vehicle, picky, false, &[Some(true), Some(false)]);
    let res = try_parse(&y);
    if k == DEFECTS.len() {
        let _ = std::fs::remove_dir(&file);
    }
    match res? {
        Err(_) => (),
        Ok(g) => {
            return Err(format!(
                "OSM file with an unreadable part ({}) gives a graph of {} nodes and {} edges instead of an error",
                what,
                g.nodes().count(),
                g.fwd_edges().count()
            ))
        }
    }
    c.label("unreadable block");
    Ok(Verdict::NonTrivial)
}

fn check_metrics(osm: &Osm, g: &Graph, vehicle: usize, picky: bool, cols: &[Option<bool>]) -> Result<(), String> {
    let vector = |e: &Edge| -> Vec<u64> { cols.iter().flatten().map(|s| if *s { e.speed } else { e.lanes }.to_bits()).collect() };
    let mut want: BTreeMap<(i64, i64), BTreeSet<Vec<u64>>> = BTreeMap::new();
    let mut any: BTreeMap<(i64, i64), BTreeSet<Vec<u64>>> = BTreeMap::new();
    for w in &osm.ways {
        if let Some(cat) = category(w) {
            for e in edges_of(w, cat) {
                any.entry((e.src, e.dst)).or_default().insert(vector(&e));
                any.entry((e.dst, e.src)).or_default().insert(vector(&e));
                if suitable(cat, vehicle, picky) {
                    want.entry((e.src, e.dst)).or_default().insert(vector(&e));
                }
            }
        }
    }
    let mut have: BTreeMap<(i64, i64), BTreeSet<Vec<u64>>> = BTreeMap::new();
    for e in graph_edges(g) {
        let v: Vec<u64> = e.metrics.iter().map(|x| x.to_bits()).collect();
        let ok = match want.get(&(e.src, e.dst)) {
            Some(w) => w.contains(&v),
            // which edges exist is decided elsewhere
            None => any.get(&(e.src, e.dst)).map(|w| w.contains(&v)).unwrap_or(true),
        };
        ensure!(
            ok,
            "edge from {} to {} has {:?}, expected one of {:?}",
            e.src,
            e.dst,
            e.metrics,
            want.get(&(e.src, e.dst))
                .map(|w| w.iter().map(|v| v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()).collect::<Vec<_>>())
        );
        have.entry((e.src, e.dst)).or_default().insert(v);
    }
    for (p, w) in &want {
        if let Some(h) = have.get(p) {
            for v in w {
                ensure!(
                    h.contains(v),
                    "no edge from {} to {} has {:?}",
                    p.0,
                    p.1,
                    v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
                );
            }
        }
    }
    Ok(())
}

fn p13(c: &mut Ctx) -> Res {
    let real = if c.size == 101 { isle_of_man() } else { None };
    if let Some((file, osm)) = real {
        for v in 0..3 {
            let cols = [Some(true), Some(false)];
            let g = parse_graph(&config(&file, v, false, false, &cols))?;
            check_metrics(&osm, &g, v, false, &cols).map_err(|m| format!("Isle of Man, {}: {}", VEHICLES[v], m))?;
            check_coords(&osm, &g)?;
        }
        c.note("Isle of Man for all vehicles");
        c.label("real map");
        return Ok(Verdict::NonTrivial);
    }
    let osm = gen_osm(c, true);
    let bytes = osm.encode(c);
    let file = c.write("map.pbf", &bytes);
    let vehicle = c.usize(0, 2);
    let picky = c.chance(1, 4);
    let mut cols: Vec<Option<bool>> = match c.usize(0, 5) {
        0 => vec![Some(true)],
        1 => vec![Some(false)],
        2 => vec![Some(true), Some(true), Some(false)],
        _ => vec![Some(true), Some(false)],
    };
    for _ in 0..c.usize(0, 1) {
        cols.push(None);
    }
    c.shuffle(&mut cols);
    describe(c, &osm);
    let y = config(&file, vehicle, picky, false, &cols);
    c.note(&y);
    let g = parse_graph(&y)?;
    check_metrics(&osm, &g, vehicle, picky, &cols)?;
    check_coords(&osm, &g)?;
    let suit: Vec<&OsmWay> = osm
        .ways
        .iter()
        .filter(|w| w.nodes.len() > 1 && category(w).map(|k| suitable(k, vehicle, picky)).unwrap_or(false))
        .collect();
    let tagged = suit.iter().filter(|w| tag(w, "maxspeed").is_some()).count();
    for w in &suit {
        match tag(w, "maxspeed") {
            None => c.label("default speed"),
            Some(v) if v.bytes().all(|b| b.is_ascii_digit()) && !v.is_empty() => c.label("plain number"),
            Some(v) if SPEEDS.iter().any(|s| s.0 == v.trim().to_ascii_lowercase()) => c.label("known notation"),
            Some(_) => c.label("unknown notation"),
        }
    }
    Ok(if tagged > 0 && tagged < suit.len() { Verdict::NonTrivial } else { Verdict::Trivial })
}
