//! What it means for cells to tile a box, and for two sets of cells to tile the same region.
use std::collections::BTreeMap;
use symcore::{Cx, SReal};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Tri,
    Quad,
    Tet,
    Hex,
}
use Kind::*;
impl Kind {
    /// Faces (edges in the plane) of the cell, oriented outwards.
    pub fn faces(self) -> &'static [&'static [usize]] {
        match self {
            Tri => &[&[0, 1], &[1, 2], &[2, 0]],
            Quad => &[&[0, 1], &[1, 2], &[2, 3], &[3, 0]],
            Tet => &[&[0, 2, 1], &[0, 1, 3], &[0, 3, 2], &[1, 2, 3]],
            Hex => &[&[0, 3, 2, 1], &[4, 5, 6, 7], &[0, 1, 5, 4], &[1, 2, 6, 5], &[2, 3, 7, 6], &[3, 0, 4, 7]],
        }
    }
    /// At every corner, the neighbours that span a positively oriented frame.
    fn corners(self) -> &'static [&'static [usize]] {
        match self {
            Tri => &[&[0, 1, 2]],
            Quad => &[&[0, 1, 3], &[1, 2, 0], &[2, 3, 1], &[3, 0, 2]],
            Tet => &[&[0, 1, 2, 3]],
            Hex => &[&[0, 1, 3, 4], &[1, 2, 0, 5], &[2, 3, 1, 6], &[3, 0, 2, 7], &[4, 7, 5, 0], &[5, 4, 6, 1], &[6, 5, 7, 2], &[7, 6, 4, 3]],
        }
    }
    /// Simplices that make up the cell (for a hexahedron with plane faces).
    fn simplices(self) -> &'static [&'static [usize]] {
        match self {
            Tri => &[&[0, 1, 2]],
            Quad => &[&[0, 1, 2], &[0, 2, 3]],
            Tet => &[&[0, 1, 2, 3]],
            Hex => &[&[0, 1, 2, 6], &[0, 2, 3, 6], &[0, 3, 7, 6], &[0, 7, 4, 6], &[0, 4, 5, 6], &[0, 5, 1, 6]],
        }
    }
    pub fn len(self) -> usize {
        match self {
            Tri => 3,
            Quad | Tet => 4,
            Hex => 8,
        }
    }
    pub fn dim(self) -> usize {
        match self {
            Tri | Quad => 2,
            _ => 3,
        }
    }
}
pub fn det<T: SReal>(p: &[Vec<T>], ids: &[usize]) -> T {
    let e = |k: usize, i: usize| p[ids[k]][i] - p[ids[0]][i];
    if ids.len() == 3 {
        e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0)
    } else {
        e(1, 0) * (e(2, 1) * e(3, 2) - e(2, 2) * e(3, 1)) - e(1, 1) * (e(2, 0) * e(3, 2) - e(2, 2) * e(3, 0)) + e(1, 2) * (e(2, 0) * e(3, 1) - e(2, 1) * e(3, 0))
    }
}
fn at(c: &[usize], l: &[usize]) -> Vec<usize> {
    l.iter().map(|i| c[*i]).collect()
}
/// d! times the measure of the cell.
pub fn measure<T: SReal>(kind: Kind, p: &[Vec<T>], c: &[usize]) -> T {
    kind.simplices().iter().fold(T::zero(), |a, s| a + det(p, &at(c, s)))
}
/// The positive frames of a cell: all of them have to be positive.
pub fn frames<T: SReal>(kind: Kind, p: &[Vec<T>], c: &[usize]) -> Vec<T> {
    kind.corners().iter().map(|s| det(p, &at(c, s))).collect()
}
/// Cyclic order that starts at the smallest index.
pub fn cyclic(mut f: Vec<usize>) -> Vec<usize> {
    if f.len() == 2 {
        return f;
    }
    let k = (0..f.len()).min_by_key(|i| f[*i]).unwrap();
    f.rotate_left(k);
    f
}
pub fn reversed(f: &[usize]) -> Vec<usize> {
    let mut f = f.to_vec();
    f.reverse();
    cyclic(f)
}
/// Faces whose opposite does not occur. Err: a face occurs twice with the same orientation.
pub fn boundary(kind: Kind, cells: &[Vec<usize>]) -> Result<Vec<Vec<usize>>, String> {
    let mut n: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for c in cells {
        for f in kind.faces() {
            *n.entry(cyclic(at(c, f))).or_insert(0) += 1;
        }
    }
    if let Some((f, _)) = n.iter().find(|(_, k)| **k > 1) {
        return Err(format!("the face {:?} occurs twice with the same orientation", f));
    }
    Ok(n.keys().filter(|f| !n.contains_key(&reversed(f))).cloned().collect())
}
/// Every vertex is used, no two vertices are at the same place.
pub fn clean<T: SReal>(cx: &mut Cx<T>, p: &[Vec<T>], cells: &[Vec<usize>]) {
    let mut used = vec![false; p.len()];
    for v in cells.iter().flatten() {
        cx.ensure("vertices exist", *v < p.len());
        used[*v] = true;
    }
    cx.ensure("every vertex is used", used.iter().all(|b| *b));
    for i in 0..p.len() {
        for j in 0..i {
            let s = p[i].iter().zip(&p[j]).fold(T::zero(), |a, (x, y)| a + (*x - *y) * (*x - *y));
            cx.ensure_gt("no two vertices coincide", s, T::zero());
        }
    }
}
/// The cells tile the box: all lie in it with positive orientation, their measures add up to that of the box,
/// they meet face to face and what is not matched lies on the surface of the box.
pub fn tiles<T: SReal>(cx: &mut Cx<T>, kind: Kind, p: &[Vec<T>], cells: &[Vec<usize>], lo: &[T], hi: &[T]) {
    clean(cx, p, cells);
    for x in p {
        for k in 0..kind.dim() {
            cx.ensure_le("vertices lie in the box", lo[k], x[k]);
            cx.ensure_le("vertices lie in the box", x[k], hi[k]);
        }
    }
    let mut sum = T::zero();
    for c in cells {
        cx.ensure("cells have the right number of vertices", c.len() == kind.len());
        for f in frames(kind, p, c) {
            cx.ensure_gt("cells are positively oriented", f, T::zero());
        }
        sum += measure(kind, p, c);
    }
    let vol = (0..kind.dim()).fold(T::one(), |a, k| a * (hi[k] - lo[k]));
    let fact = T::from_i32(if kind.dim() == 2 { 2 } else { 6 }).unwrap();
    cx.ensure_eq("measures add up to that of the box", sum, fact * vol);
    let b = boundary(kind, cells);
    cx.ensure(&format!("cells meet face to face: {:?}", b.as_ref().err()), b.is_ok());
    for f in b.unwrap() {
        let on = (0..kind.dim()).any(|k| [lo[k], hi[k]].iter().any(|s| f.iter().all(|v| same(p[*v][k], *s))));
        cx.ensure("unmatched faces lie on the surface of the box", on);
    }
}
/// Equal in exact arithmetic, nearly equal for floating point numbers.
pub fn same<T: SReal>(a: T, b: T) -> bool {
    if T::SYMBOLIC {
        a == b
    } else {
        (a.approx_f64() - b.approx_f64()).abs() <= 1e-9 * (1.0 + b.approx_f64().abs())
    }
}
