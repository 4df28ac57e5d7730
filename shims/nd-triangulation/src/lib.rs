//! Pure-Rust stand-in for `nd-triangulation` (a binding to C++/CGAL, which cannot be linked here).
//!
//! `convex_hull_cells` enumerates every affinely independent d-subset of the vertices whose
//! hyperplane supports the point set (all points on one side).  For points in general position
//! these are exactly the facets of the convex hull; coplanar facets are covered by all of their
//! sub-simplices (a superset of any triangulation of the facet).  Degenerate point sets (affine
//! dimension < d) have no such cell; CGAL gives cells with too few vertices there, which the only
//! user of this crate skips.
use std::collections::HashMap;
use std::fmt;

#[non_exhaustive]
#[derive(Debug, PartialEq, Eq)]
pub enum TriangulationError {
    WrongDimension {
        actual_dim: usize,
        expected_dim: usize,
    },
}
impl fmt::Display for TriangulationError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for TriangulationError {}

#[derive(Debug)]
pub struct Triangulation {
    dim: usize,
    points: Vec<Vec<f64>>,
    /// id of the vertex at a point
    labels: Vec<usize>,
    next_label: usize,
    ids: HashMap<Vec<usize>, usize>,
}

impl Triangulation {
    pub fn new(dim: usize) -> Triangulation {
        Triangulation {
            dim,
            points: vec![],
            labels: vec![],
            next_label: 0,
            ids: HashMap::new(),
        }
    }

    pub fn add_vertex(&mut self, coords: &[f64]) -> Result<usize, TriangulationError> {
        if coords.len() != self.dim {
            return Err(TriangulationError::WrongDimension {
                actual_dim: coords.len(),
                expected_dim: self.dim,
            });
        }
        // As in the original: every call gets a new id; a point that is already part of the
        // triangulation is not added again, but gets the new id.
        let label = self.next_label;
        self.next_label += 1;
        match self.points.iter().position(|p| p[..] == *coords) {
            Some(i) => self.labels[i] = label,
            None => {
                self.points.push(coords.to_vec());
                self.labels.push(label);
            }
        }
        Ok(label)
    }

    pub fn convex_hull_cells(&mut self) -> CellIter<'_> {
        let d = self.dim;
        let n = self.points.len();
        let mut cells = vec![];
        if d >= 1 && n > d {
            let mut subset: Vec<usize> = (0..d).collect();
            loop {
                if self.is_supporting(&subset) {
                    let next = self.ids.len() + 1;
                    let id = *self.ids.entry(subset.clone()).or_insert(next);
                    cells.push((id, subset.iter().map(|i| self.labels[*i]).collect()));
                }
                // next combination
                let mut i = d;
                loop {
                    if i == 0 {
                        break;
                    }
                    i -= 1;
                    if subset[i] != i + n - d {
                        break;
                    }
                    if i == 0 {
                        i = usize::MAX;
                        break;
                    }
                }
                if i == usize::MAX {
                    break;
                }
                subset[i] += 1;
                for j in (i + 1)..d {
                    subset[j] = subset[j - 1] + 1;
                }
            }
        }
        CellIter {
            cells: cells.into_iter(),
            _tri: self,
        }
    }

    /// normal vector of the hyperplane through the d points (None if affinely dependent)
    fn normal(&self, subset: &[usize]) -> Option<Vec<f64>> {
        let d = self.dim;
        if d == 1 {
            return Some(vec![1.0]);
        }
        let p0 = &self.points[subset[0]];
        let mut m: Vec<Vec<f64>> = subset[1..]
            .iter()
            .map(|&i| (0..d).map(|k| self.points[i][k] - p0[k]).collect())
            .collect();
        let scale = m
            .iter()
            .flat_map(|r: &Vec<f64>| r.iter())
            .fold(0.0f64, |a, b| a.max(b.abs()));
        if scale == 0.0 {
            return None;
        }
        let mut pivots = vec![];
        let mut row = 0;
        for col in 0..d {
            if row == d - 1 {
                break;
            }
            let best = (row..d - 1)
                .max_by(|&a, &b| m[a][col].abs().partial_cmp(&m[b][col].abs()).unwrap())
                .unwrap();
            if m[best][col].abs() <= 1e-9 * scale {
                continue;
            }
            m.swap(row, best);
            let p = m[row][col];
            for k in 0..d {
                m[row][k] /= p;
            }
            for r in 0..d - 1 {
                if r != row {
                    let f = m[r][col];
                    for k in 0..d {
                        m[r][k] -= f * m[row][k];
                    }
                }
            }
            pivots.push(col);
            row += 1;
        }
        if row < d - 1 {
            return None;
        }
        let free = (0..d).find(|c| !pivots.contains(c)).unwrap();
        let mut normal = vec![0.0; d];
        normal[free] = 1.0;
        for (r, &c) in pivots.iter().enumerate() {
            normal[c] = -m[r][free];
        }
        let len = normal.iter().map(|x| x * x).sum::<f64>().sqrt();
        Some(normal.into_iter().map(|x| x / len).collect())
    }

    fn is_supporting(&self, subset: &[usize]) -> bool {
        let normal = match self.normal(subset) {
            Some(n) => n,
            None => return false,
        };
        let p0 = &self.points[subset[0]];
        let (mut pos, mut neg) = (false, false);
        for p in &self.points {
            let scale = p
                .iter()
                .zip(p0)
                .fold(0.0f64, |a, (x, y)| a.max(x.abs()).max(y.abs()));
            let dist: f64 = (0..self.dim).map(|k| (p[k] - p0[k]) * normal[k]).sum();
            if dist > 1e-9 * scale {
                pos = true
            } else if dist < -1e-9 * scale {
                neg = true
            }
        }
        pos != neg
    }
}

#[derive(Debug)]
pub struct CellIter<'a> {
    cells: std::vec::IntoIter<(usize, Vec<usize>)>,
    _tri: &'a Triangulation,
}

impl<'a> Iterator for CellIter<'a> {
    type Item = Cell<'a>;
    fn next(&mut self) -> Option<Cell<'a>> {
        let tri = self._tri;
        self.cells.next().map(|(id, vertices)| Cell {
            id,
            vertices,
            _tri: tri,
        })
    }
}

#[derive(Debug)]
pub struct Cell<'a> {
    id: usize,
    vertices: Vec<usize>,
    _tri: &'a Triangulation,
}

impl<'a> Cell<'a> {
    pub fn vertices(&self) -> VertexIter {
        VertexIter(self.vertices.clone().into_iter())
    }
    pub fn id(&self) -> usize {
        self.id
    }
}

#[derive(Debug)]
pub struct VertexIter(std::vec::IntoIter<usize>);
impl Iterator for VertexIter {
    type Item = Vertex;
    fn next(&mut self) -> Option<Vertex> {
        self.0.next().map(|id| Vertex { id })
    }
}

#[derive(Debug)]
pub struct Vertex {
    id: usize,
}
impl Vertex {
    pub fn id(&self) -> usize {
        self.id
    }
}
