//! C15: procedural meshes.
use contracts::tiling::{self, same, Kind};
use fenris::connectivity::Connectivity;
use fenris::geometry::{AxisAlignedBoundingBox2d, BoundedGeometry};
use fenris::geometry::sdf::SignedDistanceFunction2d;
use fenris::mesh::procedural::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, Point2, Vector2};
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

fn parts<T: SReal, D: DimName, C: Connectivity>(m: &Mesh<T, D, C>) -> (Vec<Vec<T>>, Vec<Vec<usize>>)
where
    DefaultAllocator: Allocator<T, D>,
{
    (m.vertices().iter().map(|p| p.coords.iter().copied().collect()).collect(), m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect())
}
fn num<T: SReal>(n: i64, d: i64) -> T {
    T::from_i64(n).unwrap() / T::from_i64(d).unwrap()
}
/// A point of the lattice for every vertex, and the lattice is complete.
fn lattice<T: SReal>(cx: &mut Cx<T>, p: &[Vec<T>], lo: &[T], h: &[T], n: &[usize]) {
    let total: usize = n.iter().map(|k| k + 1).product();
    cx.ensure("as many vertices as lattice points", p.len() == total);
    let mut seen = vec![false; total];
    for x in p {
        let mut id = 0;
        for k in 0..n.len() {
            match (0..=n[k]).find(|i| same(x[k], lo[k] + h[k] * T::from_usize(*i).unwrap())) {
                Some(i) => id = id * (n[k] + 1) + i,
                None => cx.ensure("vertices lie on the lattice", false),
            }
        }
        seen[id] = true;
    }
    cx.ensure("every lattice point is a vertex", seen.iter().all(|b| *b));
}
fn quads<T: SReal>(cx: &mut Cx<T>, u: (i64, i64), ux: usize, uy: usize, c: usize) {
    let tl = Vector2::new(cx.real("x"), cx.real("y"));
    let unit = num::<T>(u.0, u.1);
    let (w, h) = (unit * T::from_usize(ux).unwrap(), unit * T::from_usize(uy).unwrap());
    let m = create_rectangular_uniform_quad_mesh_2d(unit, ux, uy, c, &tl);
    let (p, cells) = parts(&m);
    cx.ensure("number of cells", cells.len() == ux * uy * c * c);
    let (lo, hi) = ([tl.x, tl.y - h], [tl.x + w, tl.y]);
    let s = unit / T::from_usize(c).unwrap();
    lattice(cx, &p, &lo, &[s, s], &[ux * c, uy * c]);
    tiling::tiles(cx, Kind::Quad, &p, &cells, &lo, &hi);
    // the triangle mesh
    let (p, cells) = parts(&m.split_into_triangles());
    cx.ensure("number of triangles", cells.len() == 2 * ux * uy * c * c);
    tiling::tiles(cx, Kind::Tri, &p, &cells, &lo, &hi);
}
fn unit_square<T: SReal>(cx: &mut Cx<T>, c: usize) {
    let (lo, hi) = ([T::zero(); 3], [T::one(); 3]);
    let (p, cells) = parts(&create_unit_square_uniform_quad_mesh_2d::<T>(c));
    cx.ensure("number of quadrilaterals", cells.len() == c * c);
    tiling::tiles(cx, Kind::Quad, &p, &cells, &lo, &hi);
    let (p, cells) = parts(&create_unit_square_uniform_tri_mesh_2d::<T>(c));
    cx.ensure("number of triangles", cells.len() == 2 * c * c);
    tiling::tiles(cx, Kind::Tri, &p, &cells, &lo, &hi);
    if c <= 3 {
        let (p, cells) = parts(&create_unit_box_uniform_hex_mesh_3d::<T>(c));
        cx.ensure("number of hexahedra", cells.len() == c * c * c);
        tiling::tiles(cx, Kind::Hex, &p, &cells, &lo, &hi);
        let (p, cells) = parts(&create_unit_box_uniform_tet_mesh_3d::<T>(c));
        tiling::tiles(cx, Kind::Tet, &p, &cells, &lo, &hi);
    }
}
fn hexes<T: SReal>(cx: &mut Cx<T>, u: (i64, i64), n: [usize; 3], c: usize) {
    let unit = num::<T>(u.0, u.1);
    let (p, cells) = parts(&create_rectangular_uniform_hex_mesh(unit, n[0], n[1], n[2], c));
    cx.ensure("number of cells", cells.len() == n.iter().product::<usize>() * c * c * c);
    let s = unit / T::from_usize(c).unwrap();
    lattice(cx, &p, &[T::zero(); 3], &[s; 3], &n.map(|k| k * c));
    tiling::tiles(cx, Kind::Hex, &p, &cells, &[T::zero(); 3], &n.map(|k| unit * T::from_usize(k).unwrap()));
}
fn tets<T: SReal>(cx: &mut Cx<T>, n: [usize; 3], c: usize) {
    let unit = cx.pos("unit");
    let (p, cells) = parts(&create_rectangular_uniform_tet_mesh(unit, n[0], n[1], n[2], c));
    // a lattice of cells: the faces between cells carry four tetrahedra, those on the surface two
    let k = n.map(|k| k * c);
    let inner = (k[0] - 1) * k[1] * k[2] + k[0] * (k[1] - 1) * k[2] + k[0] * k[1] * (k[2] - 1);
    let outer = 2 * (k[0] * k[1] + k[1] * k[2] + k[2] * k[0]);
    cx.ensure("number of cells", cells.len() == 4 * inner + 2 * outer);
    tiling::tiles(cx, Kind::Tet, &p, &cells, &[T::zero(); 3], &n.map(|k| unit * T::from_usize(k).unwrap()));
}
fn empty<T: SReal>(cx: &mut Cx<T>) {
    let tl = Vector2::new(cx.real("x"), cx.real("y"));
    for k in 0..81usize {
        let n = [k % 3, k / 3 % 3, k / 9 % 3];
        let c = k / 27;
        let e = |m: (Vec<Vec<T>>, Vec<Vec<usize>>)| m.0.is_empty() && m.1.is_empty();
        if n[0] * n[1] * c == 0 {
            cx.ensure("an empty rectangle has no cells and no vertices", e(parts(&create_rectangular_uniform_quad_mesh_2d(T::one(), n[0], n[1], c, &tl))));
        }
        if n[0] * n[1] * n[2] * c == 0 {
            cx.ensure(&format!("an empty box has no hexahedra and no vertices ({:?} units, {} cells)", n, c), e(parts(&create_rectangular_uniform_hex_mesh(T::one(), n[0], n[1], n[2], c))));
            cx.ensure("an empty box has no tetrahedra and no vertices", e(parts(&create_rectangular_uniform_tet_mesh(T::one(), n[0], n[1], n[2], c))));
        }
    }
}
fn voxels(b: &AxisAlignedBoundingBox2d<f64>, size: f64) -> Result<Mesh<f64, fenris::nalgebra::U2, fenris::connectivity::Quad4d2Connectivity>, String> {
    let m = voxelize_bounding_box_2d(b, size);
    let (p, cells) = parts(&m);
    let bb = m.bounding_box();
    symcore::contract::concrete(|cx| tiling::tiles(cx, Kind::Quad, &p, &cells, &[bb.min().x, bb.min().y], &[bb.max().x, bb.max().y]))?;
    if !(0..2).all(|k| bb.min()[k] < b.min()[k] && bb.max()[k] > b.max()[k]) {
        return Err(format!("{:?} does not enclose {:?}", bb, b));
    }
    for c in &cells {
        let (w, h) = (p[c[1]][0] - p[c[0]][0], p[c[3]][1] - p[c[0]][1]);
        if w > size * (1.0 + 1e-9) || h > size * (1.0 + 1e-9) || (w - h).abs() > 1e-9 * w {
            return Err(format!("cell of size {} by {}, expected a square of size at most {}", w, h, size));
        }
    }
    if (bb.center() - b.center()).norm() > 1e-9 * (1.0 + bb.extents().norm()) {
        return Err("not centred at the box".into());
    }
    for k in 0..2 {
        // no column or row more than needed
        let w = p[cells[0][1]][0] - p[cells[0][0]][0];
        if bb.extents()[k] - 2.001 * w > 1.03 * b.extents()[k] {
            return Err("more cells than needed".into());
        }
    }
    Ok(m)
}
/// Disk with an exact signed distance.
struct Disk(Point2<f64>, f64);
impl SignedDistanceFunction2d<f64> for Disk {
    fn eval(&self, x: &Point2<f64>) -> f64 {
        (x - self.0).norm() - self.1
    }
    fn gradient(&self, x: &Point2<f64>) -> Option<Vector2<f64>> {
        Some((x - self.0).normalize())
    }
}
impl fenris::geometry::BoundedGeometry<f64> for Disk {
    type Dimension = fenris::nalgebra::U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<f64> {
        AxisAlignedBoundingBox2d::new(self.0 - Vector2::new(self.1, self.1), self.0 + Vector2::new(self.1, self.1))
    }
}
fn main() {
    let mut v: Vec<Item> = vec![];
    for (k, (ux, uy, c)) in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 1), (3, 2, 1), (1, 3, 2), (3, 1, 2), (2, 2, 2), (1, 2, 3), (2, 1, 3), (4, 3, 1)].into_iter().enumerate() {
        let u = [(1, 1), (3, 2), (1, 3), (7, 1)][k % 4];
        v.push(dual!(format!("C15: rectangle of {} by {} units of {}/{}, {} cells per unit", ux, uy, u.0, u.1, c), ["create_rectangular_uniform_quad_mesh_2d", "QuadMesh2d::split_into_triangles"], "numbers of units and cells per unit, unit length", |cx, T| quads::<T>(cx, u, ux, uy, c)));
    }
    for c in 1..5usize {
        v.push(dual!(format!("C15: unit square and unit cube with {} cells per unit", c), ["create_unit_square_uniform_quad_mesh_2d", "create_unit_square_uniform_tri_mesh_2d", "create_unit_box_uniform_hex_mesh_3d", "create_unit_box_uniform_tet_mesh_3d"], "number of cells per unit", |cx, T| unit_square::<T>(cx, c)));
    }
    for (k, (n, c)) in [([1, 1, 1], 1), ([2, 1, 1], 1), ([1, 2, 1], 1), ([1, 1, 2], 1), ([3, 2, 1], 1), ([1, 3, 2], 1), ([2, 1, 3], 1), ([1, 1, 1], 2), ([2, 1, 1], 2), ([1, 2, 1], 2), ([1, 1, 2], 2), ([2, 3, 4], 1), ([1, 1, 1], 3), ([1, 2, 1], 3)].into_iter().enumerate() {
        let u = [(1, 1), (3, 2), (1, 3), (7, 1)][k % 4];
        v.push(dual!(format!("C15: hexahedra in a box of {:?} units of {}/{}, {} cells per unit", n, u.0, u.1, c), ["create_rectangular_uniform_hex_mesh"], "numbers of units and cells per unit, unit length", |cx, T| hexes::<T>(cx, u, n, c)));
        if n.iter().product::<usize>() * c * c * c <= 24 {
            v.push(dual!(format!("C15: tetrahedra in a box of {:?} units of any positive length, {} cells per unit", n, c), ["create_rectangular_uniform_tet_mesh"], "numbers of units and cells per unit", |cx, T| tets::<T>(cx, n, c)));
        }
    }
    v.push(dual!("C15: empty domains", ["create_rectangular_uniform_quad_mesh_2d", "create_rectangular_uniform_hex_mesh", "create_rectangular_uniform_tet_mesh"], "at most two units and cells per unit", |cx, T| empty::<T>(cx)));
    v.push(bounded("C15: larger boxes", &["create_rectangular_uniform_quad_mesh_2d", "create_rectangular_uniform_hex_mesh", "create_rectangular_uniform_tet_mesh"], "up to 8 by 8 by 8 cells, floating point", |e| {
        let top = if e.thorough { 8 } else { 5 };
        for k in 0..top * top * top {
            let n = [k % top + 1, k / top % top + 1, k / top / top + 1];
            for c in 1..=2 {
                if n.iter().product::<usize>() * c * c * c > if e.thorough { 512 } else { 130 } {
                    continue;
                }
                let u = [(1, 1), (5, 4), (1, 7), (23, 10)][(k + c) % 4];
                e.case(|| format!("{:?} units of {:?}, {} cells per unit", n, u, c), || {
                    symcore::contract::concrete(|cx| {
                        let unit = u.0 as f64 / u.1 as f64;
                        let hi = n.map(|k| unit * k as f64);
                        let (p, cells) = parts(&create_rectangular_uniform_hex_mesh(unit, n[0], n[1], n[2], c));
                        cx.ensure("number of hexahedra", cells.len() == n.iter().product::<usize>() * c * c * c);
                        tiling::tiles(cx, Kind::Hex, &p, &cells, &[0.0; 3], &hi);
                        let (p, cells) = parts(&create_rectangular_uniform_tet_mesh(unit, n[0], n[1], n[2], c));
                        tiling::tiles(cx, Kind::Tet, &p, &cells, &[0.0; 3], &hi);
                        let tl = Vector2::new(-0.75, 2.5);
                        let (p, cells) = parts(&create_rectangular_uniform_quad_mesh_2d(unit, n[0] * n[2], n[1], c, &tl));
                        cx.ensure("number of quadrilaterals", cells.len() == n.iter().product::<usize>() * c * c);
                        tiling::tiles(cx, Kind::Quad, &p, &cells, &[tl.x, tl.y - hi[1]], &[tl.x + hi[0] * n[2] as f64, tl.y]);
                    })
                });
            }
        }
    }));
    v.push(bounded("C15: voxelisation of a box and of a signed distance function", &["voxelize_bounding_box_2d", "voxelize_sdf_2d", "approximate_quad_mesh_for_sdf_2d", "approximate_triangle_mesh_for_sdf_2d"], "random boxes and disks, up to about 30 cells per direction", |e| {
        let mut r = contracts::rng::Rng(e.seed);
        for _ in 0..if e.thorough { 3000 } else { 60 } {
            let lo = Point2::new(r.unit() * 20.0 - 10.0, r.unit() * 20.0 - 10.0);
            let ext = Vector2::new(0.1 + r.unit() * 5.0, 0.1 + r.unit() * 5.0);
            let size = (0.07 + 1.5 * r.unit()) * ext.min();
            let radius = 0.1 + r.unit() * 3.0;
            e.case(|| format!("box {} {}, cells of size {}, disk of radius {}", lo, ext, size, radius), || {
                voxels(&AxisAlignedBoundingBox2d::new(lo, lo + ext), size)?;
                let d = Disk(lo, radius);
                let size = 0.1 * radius + size * 0.2;
                let all = voxels(&d.bounding_box(), size)?;
                let (p, cells) = parts(&all);
                let inside = |p: &[Vec<f64>], c: &Vec<usize>| c.iter().any(|v| d.eval(&Point2::new(p[*v][0], p[*v][1])) <= 0.0);
                let shape = |p: &[Vec<f64>], c: &Vec<usize>| c.iter().flat_map(|v| p[*v].iter().map(|x| x.to_bits())).collect::<Vec<_>>();
                let mut want: Vec<_> = cells.iter().filter(|c| inside(&p, c)).map(|c| shape(&p, c)).collect();
                let (q, kept) = parts(&voxelize_sdf_2d(&d, size));
                let mut got: Vec<_> = kept.iter().map(|c| shape(&q, c)).collect();
                want.sort();
                got.sort();
                if want != got {
                    return Err("the cells of voxelize_sdf_2d are not those with a vertex in the region".into());
                }
                symcore::contract::concrete(|cx| tiling::clean(cx, &q, &kept))?;
                for (kind, (w, cells)) in [(Kind::Quad, parts(&approximate_quad_mesh_for_sdf_2d(&d, size))), (Kind::Tri, parts(&approximate_triangle_mesh_for_sdf_2d(&d, size)))] {
                    if kind == Kind::Quad && (cells != kept || w.len() != q.len()) {
                        return Err("the cells changed".into());
                    }
                    for (i, x) in w.iter().enumerate() {
                        let phi = d.eval(&Point2::new(x[0], x[1]));
                        if phi > 1e-9 {
                            return Err(format!("vertex {:?} lies outside the region", x));
                        }
                        if kind == Kind::Quad && d.eval(&Point2::new(q[i][0], q[i][1])) <= 0.0 && *x != q[i] {
                            return Err("a vertex in the region moved".into());
                        }
                    }
                    tiling::boundary(kind, &cells)?;
                }
                Ok(())
            });
        }
    }));
    symcore::run::main(v);
}
