//! Text maps (fmi): column layouts, their configuration and their rendering, independent of the
//! code under test.
use crate::engine::Ctx;
use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NCol {
    Id,
    Level,
    Lat,
    Lon,
    Ign,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ECol {
    Id,
    Src,
    Dst,
    Sc0,
    Sc1,
    Metric(usize),
    Ign,
}

pub const UNITS: [&str; 8] = [
    "Meters",
    "Kilometers",
    "Seconds",
    "Minutes",
    "Hours",
    "KilometersPerHour",
    "LaneCount",
    "F64",
];

#[derive(Clone, Debug)]
pub struct Layout {
    pub n: Vec<NCol>,
    pub e: Vec<ECol>,
    /// unit and name per metric
    pub units: Vec<String>,
    pub names: Vec<String>,
    pub normalize: Option<bool>,
}

impl Layout {
    pub fn has(&self, col: ECol) -> bool {
        self.e.contains(&col)
    }
    pub fn has_level(&self) -> bool {
        self.n.contains(&NCol::Level)
    }
    pub fn node_name(col: NCol) -> &'static str {
        match col {
            NCol::Id => "node-id",
            NCol::Level => "level",
            NCol::Lat => "lat",
            NCol::Lon => "lon",
            NCol::Ign => "ignored",
        }
    }
    pub fn edge_name(&self, col: ECol) -> String {
        match col {
            ECol::Id => "edge-id".into(),
            ECol::Src => "src-id".into(),
            ECol::Dst => "dst-id".into(),
            ECol::Sc0 => "sc0".into(),
            ECol::Sc1 => "sc1".into(),
            ECol::Metric(i) => self.names[i].clone(),
            ECol::Ign => "ignored".into(),
        }
    }

    /// the parsing-section; `extra` is added at its end (generating etc.), indented by 2
    pub fn yaml(&self, map_file: &str, extra: &str) -> String {
        let mut y = format!("parsing:\n  map-file: '{}'\n  nodes:\n", map_file);
        for c in &self.n {
            y += &match c {
                NCol::Id => "  - meta: { info: 'NodeId', id: 'node-id' }\n".to_string(),
                NCol::Level => "  - meta: { info: 'CHLevel', id: 'level' }\n".to_string(),
                NCol::Lat => "  - metric: { unit: 'Latitude', id: 'lat' }\n".to_string(),
                NCol::Lon => "  - metric: { unit: 'Longitude', id: 'lon' }\n".to_string(),
                NCol::Ign => "  - ignored\n".to_string(),
            };
        }
        y += "  edges:\n";
        if let Some(b) = self.normalize {
            y += &format!("    will_normalize_metrics_by_mean: {}\n", b);
        }
        y += "    data:\n";
        for c in &self.e {
            let info = match c {
                ECol::Id => "EdgeId",
                ECol::Src => "SrcId",
                ECol::Dst => "DstId",
                ECol::Sc0 => "ShortcutIdx0",
                ECol::Sc1 => "ShortcutIdx1",
                ECol::Metric(i) => {
                    y += &format!("    - metric: {{ unit: '{}', id: '{}' }}\n", self.units[*i], self.names[*i]);
                    continue;
                }
                ECol::Ign => {
                    y += "    - ignored\n";
                    continue;
                }
            };
            y += &format!("    - meta: {{ info: '{}', id: '{}' }}\n", info, self.edge_name(*c));
        }
        y + extra
    }
}

/// a random layout which covers everything the map contains
pub fn gen_layout(c: &mut Ctx, map: &Map, minimal: bool) -> Layout {
    let mut n = vec![NCol::Id, NCol::Lat, NCol::Lon];
    if map.nodes.iter().any(|x| x.level != 0) || c.flip() {
        n.push(NCol::Level);
    }
    let mut e = vec![ECol::Src, ECol::Dst];
    e.extend((0..map.dim).map(ECol::Metric));
    if map.edges.iter().any(|x| x.id.is_some()) {
        e.push(ECol::Id);
    }
    if map.edges.iter().any(|x| x.sc.is_some()) || (!minimal && c.chance(1, 3)) {
        e.push(ECol::Sc0);
        e.push(ECol::Sc1);
    }
    if !minimal {
        for _ in 0..c.usize(0, 2) {
            n.push(NCol::Ign);
        }
        for _ in 0..c.usize(0, 3) {
            e.push(ECol::Ign);
        }
    }
    c.shuffle(&mut n);
    c.shuffle(&mut e);
    // metrics are stored in the order of their columns: number them accordingly
    let mut k = 0;
    for x in e.iter_mut() {
        if let ECol::Metric(i) = x {
            *i = k;
            k += 1;
        }
    }
    Layout {
        n,
        e,
        units: (0..map.dim).map(|_| c.pick(&UNITS).to_string()).collect(),
        names: (0..map.dim).map(metric_name).collect(),
        normalize: None,
    }
}

fn junk(c: &mut Ctx) -> String {
    c.pick(&["_", "0", "-1", "7", "foo", "NaN", "3.5", "ch9", "inf", "a:b", "\u{e4}\u{20ac}", "x#y", "-"]).to_string()
}

pub fn fmt_f64(c: &mut Ctx, plain: bool, x: f64) -> String {
    if plain {
        return format!("{}", x);
    }
    match c.weighted(&[8, 1, 1, 1]) {
        0 => format!("{}", x),
        1 => format!("{:e}", x),
        2 => format!("{}{}", if x.is_sign_negative() { "" } else { "+" }, x),
        _ => format!("{:?}", x),
    }
}

pub fn node_line(c: &mut Ctx, l: &Layout, n: &MNode, plain: bool) -> Vec<String> {
    l.n.iter()
        .map(|col| match col {
            NCol::Id => n.id.to_string(),
            NCol::Level => n.level.to_string(),
            NCol::Lat => fmt_f64(c, plain, n.lat),
            NCol::Lon => fmt_f64(c, plain, n.lon),
            NCol::Ign => {
                if plain {
                    "_".into()
                } else {
                    junk(c)
                }
            }
        })
        .collect()
}

pub fn edge_line(c: &mut Ctx, l: &Layout, e: &MEdge, plain: bool) -> Vec<String> {
    l.e.iter()
        .map(|col| match col {
            ECol::Id => {
                let id = e.id.expect("harness: layout with edge id needs ids");
                if !plain && c.chance(1, 5) {
                    format!("ch{}", id)
                } else {
                    id.to_string()
                }
            }
            ECol::Src => e.src.to_string(),
            ECol::Dst => e.dst.to_string(),
            ECol::Sc0 => e.sc.map(|s| s[0].to_string()).unwrap_or_else(|| "-1".into()),
            ECol::Sc1 => e.sc.map(|s| s[1].to_string()).unwrap_or_else(|| "-1".into()),
            ECol::Metric(i) => fmt_f64(c, plain, e.metrics[*i]),
            ECol::Ign => {
                if plain {
                    "_".into()
                } else {
                    junk(c)
                }
            }
        })
        .collect()
}

/// lines of tokens: counts, nodes, edges (functional lines only)
pub fn functional_lines(c: &mut Ctx, l: &Layout, map: &Map, plain: bool) -> Vec<Vec<String>> {
    let mut lines: Vec<Vec<String>> = vec![];
    let surplus = if plain { 1 } else { c.usize(0, 3) };
    for i in 0..surplus {
        lines.push(vec![if i + 1 == surplus { map.dim.to_string() } else { c.draw(9).to_string() }]);
    }
    lines.push(vec![map.nodes.len().to_string()]);
    lines.push(vec![map.edges.len().to_string()]);
    for n in &map.nodes {
        lines.push(node_line(c, l, n, plain));
    }
    for e in &map.edges {
        lines.push(edge_line(c, l, e, plain));
    }
    lines
}

/// joins tokens to a file, with comments, empty lines and odd white space unless plain
pub fn render(c: &mut Ctx, lines: &[Vec<String>], plain: bool) -> String {
    let mut s = String::new();
    let noisy = !plain && c.flip();
    let sep = if noisy { c.pick(&[" ", "  ", "\t", " \t "]) } else { " " };
    for l in lines {
        if noisy {
            while c.chance(1, 5) {
                s += c.pick(&["\n", "# comment\n", "#\n", "#3\n", "# 1 2 3 4 5 6\n", "#17 4\n", "\n\n"]);
            }
            // white space around the columns
            if c.chance(1, 12) && l.len() > 1 {
                s += " ";
            }
        }
        s += &l.join(sep);
        if noisy && c.chance(1, 8) {
            s += " ";
        }
        s += "\n";
    }
    if noisy {
        if c.flip() {
            s += c.pick(&["\n", "# end\n", "#"]);
        } else {
            s.pop();
        }
        if c.chance(1, 10) {
            s = s.replace('\n', "\r\n");
        }
    }
    s
}
