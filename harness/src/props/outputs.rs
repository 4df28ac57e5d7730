//! P18: output files under write faults
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use osmgraphing::{
    configs::{self, routing::RoutingAlgo},
    io,
    network::{EdgeIdx, Graph, NodeIdx},
    routing::paths::Path as Route,
};
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P18",
        run: p18,
        quick: 40_000,
        thorough: 600_000,
        rule: "a case writes one output (map, edge table, external edge values, route pairs, vehicle routes, evaluation results) of a generated graph, first without fault, then under one fault: the disk gets full after a chosen number of bytes (file-size limit of the process, every position is reachable), the directory is missing or is a file, or the target already exists (file, empty file, dangling or live link, directory); non-trivial: the fault hits within the file (0 <= limit < length), or the target exists",
        level: "exploration",
        assumptions: &["a full disk is simulated by the file-size limit of the process (EFBIG instead of ENOSPC); errors that the kernel reports only after close are out of scope"],
    }]
}

fn with_limit<T>(bytes: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: bytes.min(old.rlim_max), rlim_max: old.rlim_max };
        if libc::setrlimit(libc::RLIMIT_FSIZE, &new) != 0 {
            panic!("harness: setrlimit");
        }
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Map,
    Edges,
    Values,
    Pairs,
    Smarts,
    Evaluation,
}

struct Job<'a> {
    kind: Kind,
    g: &'a Graph,
    paths: &'a [Route],
    values: &'a [u64],
    alphas: &'a [f64],
    max_count: usize,
}

/// files written by the job in the given directory
fn targets(kind: Kind, dir: &Path) -> Vec<PathBuf> {
    match kind {
        Kind::Map => vec![dir.join("out.fmi")],
        Kind::Edges | Kind::Values => vec![dir.join("out.csv")],
        Kind::Pairs => vec![dir.join("out.route-pairs")],
        Kind::Smarts => vec![dir.join("smarts.xml")],
        Kind::Evaluation => vec![dir.join("out.csv"), dir.join("abs_workloads.csv")],
    }
}

const EDGE_IDS: &str = "[{id: 'edge-id'}, {id: 'src-id'}, {id: 'dst-id'}, {id: 'm0'}]";

fn yaml<T: serde::de::DeserializeOwned>(y: &str) -> T {
    serde_yaml::from_str(y).unwrap_or_else(|e| panic!("harness: configuration: {}\n{}", e, y))
}

fn write(j: &Job, dir: &Path) -> Result<Result<(), String>, String> {
    let f = targets(j.kind, dir)[0].display().to_string();
    guard("writing", || match j.kind {
        Kind::Map => {
            let y = format!("writing:\n  graph:\n    map-file: '{}'\n    nodes: [{{id: 'node-id'}}, {{id: 'lat'}}, {{id: 'lon'}}]\n    edges:\n      with_shortcuts: true\n      ids: {}\n", f, EDGE_IDS);
            io::network::graph::Writer::write(j.g, &yaml(&y)).map_err(|e| e.to_string())
        }
        Kind::Edges | Kind::Values => {
            let y = format!("writing:\n  edges-info:\n    file: '{}'\n    with_shortcuts: true\n    ids: {}\n", f, EDGE_IDS);
            let cfg: configs::writing::network::edges::Config = yaml(&y);
            if j.kind == Kind::Edges {
                io::network::edges::Writer::write(j.g, &cfg).map_err(|e| e.to_string())
            } else {
                io::network::edges::Writer::write_external_values(j.values, j.g, &cfg).map_err(|e| e.to_string())
            }
        }
        Kind::Pairs => {
            let y = format!("writing:\n  route-pairs:\n    file: '{}'\n    random_or_all:\n      max_count: {}\n      seed: 7\n", f, j.max_count);
            let rcfg = routing_cfg(RoutingAlgo::Dijkstra, j.alphas);
            io::routing::Writer::write(j.g, &rcfg, &yaml(&y)).map_err(|e| e.to_string())
        }
        Kind::Smarts => {
            let cfg = configs::writing::smarts::Config { file: PathBuf::from(&f) };
            io::smarts::Writer::write(j.paths, j.g, &cfg).map_err(|e| e.to_string())
        }
        Kind::Evaluation => {
            let y = format!(
                "evaluating_balance:\n  results-dir: '{}'\n  monitoring:\n    edges-info:\n      file: 'out.csv'\n      with_shortcuts: true\n      ids: {}\n",
                dir.display(),
                EDGE_IDS
            );
            let cfg = configs::evaluating_balance::Config::try_from_str(&y).unwrap_or_else(|e| panic!("harness: {}\n{}", e, y));
            io::evaluating_balance::Writer::write(j.values, j.g, &cfg).map_err(|e| e.to_string())
        }
    })
}

fn contents(kind: Kind, dir: &Path) -> Vec<Option<Vec<u8>>> {
    targets(kind, dir).iter().map(|p| std::fs::read(p).ok()).collect()
}

fn p18(c: &mut Ctx) -> Res {
    let big = c.chance(1, 5);
    let mut map = if big {
        gen_map(c, &GraphOpts { max_nodes: 260, max_edges: 700, max_dim: 2, ..Default::default() })
    } else {
        gen_map(c, &GraphOpts { max_nodes: 12, max_edges: 26, max_dim: 2, ..Default::default() })
    };
    for (i, e) in map.edges.iter_mut().enumerate() {
        e.id = Some(i * 3 + 1);
    }
    let g = map.build().map_err(|m| format!("valid map rejected: {}", m))?;
    let ge = graph_edges(&g);
    let values: Vec<u64> = (0..ge.len()).map(|i| (i as u64 * 7919) % 1000).collect();
    let kind = c.pick(&[Kind::Map, Kind::Edges, Kind::Values, Kind::Pairs, Kind::Smarts, Kind::Evaluation]);
    let mut paths = vec![];
    if kind == Kind::Smarts {
        for _ in 0..c.usize(0, if big { 200 } else { 5 }) {
            let src = c.usize(0, g.nodes().count() - 1);
            let sid = g.nodes().id(NodeIdx(src));
            let mut at = sid;
            let mut es = vec![];
            for _ in 0..6 {
                match (0..ge.len()).find(|i| ge[*i].src == at && !es.contains(i)) {
                    None => break,
                    Some(e) => {
                        at = ge[e].dst;
                        es.push(e);
                    }
                }
            }
            let dst = node_idx(&g, at).ok_or("an id of the graph is not found")?;
            paths.push(Route::new(NodeIdx(src), sid, dst, at, es.iter().map(|e| EdgeIdx(*e)).collect()));
        }
    }
    let job = Job {
        kind,
        g: &g,
        paths: &paths,
        values: &values,
        alphas: &vec![1.0; map.dim],
        max_count: if big { 300 } else { c.usize(0, 200) },
    };
    c.note(format!("{:?}, {} nodes, {} edges", kind, g.nodes().count(), ge.len()));
    let ok_dir = c.path("ok");
    let dir = c.path("out");
    std::fs::create_dir_all(&ok_dir).expect("harness: dir");
    std::fs::create_dir_all(&dir).expect("harness: dir");
    write(&job, &ok_dir)?.map_err(|e| format!("writing without any fault fails: {}", e))?;
    let want = contents(kind, &ok_dir);
    for (p, w) in targets(kind, &ok_dir).iter().zip(&want) {
        let w = w.as_ref().ok_or(format!("success is reported, but {} does not exist", p.display()))?;
        ensure!(w.last() == Some(&b'\n'), "{} ends within a line", p.display());
    }
    let lens: Vec<usize> = want.iter().map(|w| w.as_ref().unwrap().len()).collect();
    c.label(format!("{:?}", kind));
    if lens.iter().any(|l| *l > 8192) {
        c.label("more than one buffer");
    }
    let max = *lens.iter().max().unwrap();
    match c.weighted(&[6, 3, 1]) {
        0 => {
            let limit = match c.usize(0, 4) {
                0 => c.usize(0, max),
                1 => max.saturating_sub(c.usize(0, 3)),
                2 => (max / 8192) * 8192,
                3 => lens[0].saturating_sub(c.usize(0, 3)),
                _ => c.usize(0, max + 2000),
            };
            c.note(format!("disk full after {} bytes of {:?}", limit, lens));
            let res = with_limit(limit as u64, || write(&job, &dir))?;
            let have = contents(kind, &dir);
            let complete = have == want;
            if res.is_ok() {
                ensure!(complete, "success is reported, but the file is incomplete: {:?} bytes instead of {:?}", have.iter().map(|h| h.as_ref().map(|h| h.len())).collect::<Vec<_>>(), lens);
            }
            if limit >= max {
                ensure!(res.is_ok(), "writing fails although there is room: {:?}", res);
                c.label("enough room");
                Ok(Verdict::Trivial)
            } else {
                c.label("disk full");
                Ok(Verdict::NonTrivial)
            }
        }
        1 => {
            // one of the targets exists
            let ts = targets(kind, &dir);
            let t = c.usize(0, ts.len() - 1);
            let t = &ts[t];
            let other = c.path("other");
            let what = c.usize(0, 5);
            let old: Vec<u8> = match what {
                0 => b"precious\n".to_vec(),
                1 => vec![],
                2 => want[0].clone().unwrap(),
                3 => vec![b'x'; max + 100],
                _ => b"elsewhere\n".to_vec(),
            };
            match what {
                4 => {
                    std::fs::write(&other, &old).expect("harness: file");
                    std::os::unix::fs::symlink(&other, t).expect("harness: link");
                }
                5 => std::os::unix::fs::symlink(&other, t).expect("harness: link"),
                _ => std::fs::write(t, &old).expect("harness: file"),
            }
            if what < 4 && c.chance(1, 4) {
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(t, std::fs::Permissions::from_mode(0o444)).expect("harness: mode");
            }
            c.note(format!("target {} exists (variant {})", t.display(), what));
            let res = write(&job, &dir)?;
            if what == 5 {
                // nothing is there to be overwritten: only the report has to be right
                if res.is_ok() {
                    ensure!(contents(kind, &dir) == want, "success is reported, but the file is incomplete");
                }
                c.label("dangling link");
                return Ok(Verdict::Trivial);
            }
            ensure!(res.is_err(), "success is reported although {} exists already", t.display());
            let now = std::fs::read(t).map_err(|e| format!("the existing file is gone: {}", e))?;
            ensure!(now == old, "the existing file has been modified ({} instead of {} bytes)", now.len(), old.len());
            if what == 4 {
                ensure!(std::fs::read(&other).ok() == Some(old), "the existing linked file has been modified");
            }
            c.label("target exists");
            Ok(Verdict::NonTrivial)
        }
        _ => {
            let bad = match c.usize(0, 3) {
                0 => c.path("missing").join("deeper"),
                1 => c.write("plain", b"x"),
                2 => {
                    // the target is a directory
                    for t in targets(kind, &dir) {
                        std::fs::create_dir_all(t).expect("harness: dir");
                    }
                    dir.clone()
                }
                _ => c.path("missing"),
            };
            c.note(format!("directory {} cannot be used", bad.display()));
            let res = write(&job, &bad)?;
            let complete = contents(kind, &bad) == want;
            ensure!(res.is_err() || complete, "success is reported, but there is no file");
            c.label("unusable directory");
            Ok(Verdict::NonTrivial)
        }
    }
}
