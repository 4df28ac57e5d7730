//! Writes OSM files (pbf) from a model; independent of the reader.
use crate::engine::Ctx;

#[derive(Clone, Debug)]
pub struct OsmNode {
    pub id: i64,
    /// 1e-7 degrees
    pub lat: i32,
    pub lon: i32,
    pub tags: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct OsmWay {
    pub id: i64,
    pub nodes: Vec<i64>,
    pub tags: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Osm {
    pub nodes: Vec<OsmNode>,
    pub ways: Vec<OsmWay>,
}

fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn zigzag(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
fn field_varint(out: &mut Vec<u8>, field: u64, v: u64) {
    varint(out, field << 3);
    varint(out, v);
}
fn field_bytes(out: &mut Vec<u8>, field: u64, b: &[u8]) {
    varint(out, (field << 3) | 2);
    varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
fn packed(vals: impl Iterator<Item = u64>) -> Vec<u8> {
    let mut b = vec![];
    for v in vals {
        varint(&mut b, v);
    }
    b
}

struct Strings(Vec<String>);
impl Strings {
    fn idx(&mut self, s: &str) -> u64 {
        // index 0 is reserved
        match self.0.iter().skip(1).position(|x| x == s) {
            Some(i) => i as u64 + 1,
            None => {
                self.0.push(s.to_string());
                self.0.len() as u64 - 1
            }
        }
    }
}

fn adler32(b: &[u8]) -> u32 {
    let (mut a, mut c) = (1u32, 0u32);
    for x in b {
        a = (a + *x as u32) % 65521;
        c = (c + a) % 65521;
    }
    (c << 16) | a
}

/// zlib stream of stored blocks
fn zlib(b: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let chunks: Vec<&[u8]> = if b.is_empty() { vec![b] } else { b.chunks(65535).collect() };
    for (i, ch) in chunks.iter().enumerate() {
        out.push((i + 1 == chunks.len()) as u8);
        out.extend_from_slice(&(ch.len() as u16).to_le_bytes());
        out.extend_from_slice(&(!(ch.len() as u16)).to_le_bytes());
        out.extend_from_slice(ch);
    }
    out.extend_from_slice(&adler32(b).to_be_bytes());
    out
}

fn blob(out: &mut Vec<u8>, kind: &str, data: &[u8], compressed: bool) {
    let mut b = vec![];
    if compressed {
        field_varint(&mut b, 2, data.len() as u64);
        field_bytes(&mut b, 3, &zlib(data));
    } else {
        field_bytes(&mut b, 1, data);
    }
    let mut h = vec![];
    field_bytes(&mut h, 1, kind.as_bytes());
    field_varint(&mut h, 3, b.len() as u64);
    out.extend_from_slice(&(h.len() as u32).to_be_bytes());
    out.extend_from_slice(&h);
    out.extend_from_slice(&b);
}

/// Ways of making a block unreadable.
pub const DEFECTS: [&str; 6] = [
    "block with unsupported compression",
    "block without data",
    "broken zlib stream",
    "cut protobuf message",
    "block with a wrong wire type",
    "header of more than 64 kB announced",
];

fn broken_blob(out: &mut Vec<u8>, data: &[u8], defect: &str) {
    let mut b = vec![];
    match defect {
        "block with unsupported compression" => {
            field_varint(&mut b, 2, data.len() as u64);
            field_bytes(&mut b, 4, data); // lzma
        }
        "block without data" => field_varint(&mut b, 2, data.len() as u64),
        "broken zlib stream" => {
            let mut z = zlib(data);
            z[2] = 0x07; // reserved kind of block
            field_varint(&mut b, 2, data.len() as u64);
            field_bytes(&mut b, 3, &z);
        }
        "cut protobuf message" => {
            let mut d = data.to_vec();
            d.extend_from_slice(&[0x12, 0x7f, 0x01]); // 127 bytes are announced
            field_bytes(&mut b, 1, &d);
        }
        "block with a wrong wire type" => {
            let mut d = data.to_vec();
            d.extend_from_slice(&[0x17, 0x01]); // wire type 7
            field_bytes(&mut b, 1, &d);
        }
        _ => {
            out.extend_from_slice(&(64u32 * 1024 + 1).to_be_bytes());
            return;
        }
    }
    let mut h = vec![];
    field_bytes(&mut h, 1, b"OSMData");
    field_varint(&mut h, 3, b.len() as u64);
    out.extend_from_slice(&(h.len() as u32).to_be_bytes());
    out.extend_from_slice(&h);
    out.extend_from_slice(&b);
}

enum Part<'a> {
    Nodes(&'a [OsmNode]),
    Ways(&'a [OsmWay]),
    Relation,
}

impl Osm {
    /// splits the content into blocks of random size and kind of encoding; the order of objects is kept
    pub fn encode(&self, c: &mut Ctx) -> Vec<u8> {
        self.encode_with(c, None)
    }

    /// with a defect, (at least) one block is unreadable
    pub fn encode_with(&self, c: &mut Ctx, defect: Option<&str>) -> Vec<u8> {
        let mut out = vec![];
        if !c.chance(1, 8) {
            let mut h = vec![];
            field_bytes(&mut h, 4, b"OsmSchema-V0.6");
            field_bytes(&mut h, 4, b"DenseNodes");
            blob(&mut out, "OSMHeader", &h, false);
        }
        let mut parts: Vec<Part> = vec![];
        let cut = |c: &mut Ctx, n: usize| -> Vec<(usize, usize)> {
            let mut v = vec![];
            let mut i = 0;
            while i < n {
                let k = if c.chance(1, 3) { c.usize(1, n - i) } else { n - i };
                v.push((i, i + k));
                i += k;
            }
            v
        };
        for (a, b) in cut(c, self.nodes.len()) {
            parts.push(Part::Nodes(&self.nodes[a..b]));
        }
        for (a, b) in cut(c, self.ways.len()) {
            parts.push(Part::Ways(&self.ways[a..b]));
        }
        if c.chance(1, 6) {
            parts.push(Part::Relation);
        }
        if c.chance(1, 4) {
            c.shuffle(&mut parts);
        }
        let at = defect.map(|_| c.usize(0, parts.len()));
        // several groups may share a block
        let mut i = 0;
        while i < parts.len() {
            let k = if c.chance(1, 3) { c.usize(1, parts.len() - i) } else { 1 };
            let compressed = c.chance(1, 3);
            let data = encode_block(c, &parts[i..i + k]);
            match defect {
                Some(d) if (i..i + k).contains(&at.unwrap()) => broken_blob(&mut out, &data, d),
                _ => blob(&mut out, "OSMData", &data, compressed),
            }
            i += k;
        }
        if let (Some(d), Some(n)) = (defect, at) {
            if n == parts.len() {
                let data = encode_block(c, &[]);
                broken_blob(&mut out, &data, d);
            }
        }
        out
    }
}

fn encode_block(c: &mut Ctx, parts: &[Part]) -> Vec<u8> {
    let mut st = Strings(vec![String::new()]);
    if c.chance(1, 4) {
        st.idx("decoy");
    }
    // nanodegrees = offset + granularity * value
    let granularity: i64 = c.pick(&[100, 100, 100, 1, 10, 50]);
    let offset: i64 = if c.chance(1, 5) { c.i64(-1_000_000, 1_000_000) * 100 } else { 0 };
    let (lat_off, lon_off) = (offset, offset / 100 * 200);
    let glat = |x: i32| (x as i64 * 100 - lat_off) / granularity;
    let glon = |x: i32| (x as i64 * 100 - lon_off) / granularity;
    let mut groups = vec![];
    for p in parts {
        let mut g = vec![];
        match p {
            Part::Nodes(ns) => {
                if c.chance(2, 3) {
                    let mut d = vec![];
                    let delta = |v: Vec<i64>| {
                        let mut last = 0i64;
                        packed(
                            v.into_iter()
                                .map(|x| {
                                    let r = x.wrapping_sub(last);
                                    last = x;
                                    zigzag(r)
                                })
                                .collect::<Vec<_>>()
                                .into_iter(),
                        )
                    };
                    field_bytes(&mut d, 1, &delta(ns.iter().map(|n| n.id).collect()));
                    field_bytes(&mut d, 8, &delta(ns.iter().map(|n| glat(n.lat)).collect()));
                    field_bytes(&mut d, 9, &delta(ns.iter().map(|n| glon(n.lon)).collect()));
                    if ns.iter().any(|n| !n.tags.is_empty()) {
                        let mut kv = vec![];
                        for n in ns.iter() {
                            for (k, v) in &n.tags {
                                kv.push(st.idx(k));
                                kv.push(st.idx(v));
                            }
                            kv.push(0);
                        }
                        field_bytes(&mut d, 10, &packed(kv.into_iter()));
                    }
                    field_bytes(&mut g, 2, &d);
                } else {
                    for n in ns.iter() {
                        let mut b = vec![];
                        field_varint(&mut b, 1, zigzag(n.id));
                        let (ks, vs): (Vec<u64>, Vec<u64>) = n.tags.iter().map(|(k, v)| (st.idx(k), st.idx(v))).unzip();
                        if !ks.is_empty() {
                            field_bytes(&mut b, 2, &packed(ks.into_iter()));
                            field_bytes(&mut b, 3, &packed(vs.into_iter()));
                        }
                        field_varint(&mut b, 8, zigzag(glat(n.lat)));
                        field_varint(&mut b, 9, zigzag(glon(n.lon)));
                        field_bytes(&mut g, 1, &b);
                    }
                }
            }
            Part::Ways(ws) => {
                for w in ws.iter() {
                    let mut b = vec![];
                    field_varint(&mut b, 1, w.id as u64);
                    let (ks, vs): (Vec<u64>, Vec<u64>) = w.tags.iter().map(|(k, v)| (st.idx(k), st.idx(v))).unzip();
                    if !ks.is_empty() {
                        field_bytes(&mut b, 2, &packed(ks.into_iter()));
                        field_bytes(&mut b, 3, &packed(vs.into_iter()));
                    }
                    let mut last = 0i64;
                    let refs: Vec<u64> = w
                        .nodes
                        .iter()
                        .map(|n| {
                            let r = n.wrapping_sub(last);
                            last = *n;
                            zigzag(r)
                        })
                        .collect();
                    field_bytes(&mut b, 8, &packed(refs.into_iter()));
                    field_bytes(&mut g, 3, &b);
                }
            }
            Part::Relation => {
                let mut b = vec![];
                field_varint(&mut b, 1, 77);
                let (k, v) = (st.idx("highway"), st.idx("residential"));
                field_bytes(&mut b, 2, &packed(vec![k].into_iter()));
                field_bytes(&mut b, 3, &packed(vec![v].into_iter()));
                field_bytes(&mut g, 4, &b);
            }
        }
        groups.push(g);
    }
    let mut s = vec![];
    for x in &st.0 {
        field_bytes(&mut s, 1, x.as_bytes());
    }
    let mut blk = vec![];
    field_bytes(&mut blk, 1, &s);
    for g in groups {
        field_bytes(&mut blk, 2, &g);
    }
    if granularity != 100 {
        field_varint(&mut blk, 17, granularity as u64);
    }
    if lat_off != 0 {
        field_varint(&mut blk, 19, lat_off as u64);
        field_varint(&mut blk, 20, lon_off as u64);
    }
    blk
}
