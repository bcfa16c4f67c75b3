use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::arithmetic::mul::*;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs
impl T {
    #[verifier::external_body]
    pub fn from_usize(n: usize) -> (r: Option<T>) ensures r matches Some(t) && t.v() == n as real { unimplemented!() }
    #[verifier::external_body]
    pub fn from_f64(x: T) -> (r: Option<T>) ensures r matches Some(t) && t.v() == x.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_subset(&self) -> (r: Option<T>) ensures r matches Some(t) && t.v() == self.v() { unimplemented!() }
    // `n as f64`
    #[verifier::external_body]
    pub fn of(n: usize) -> (r: T) ensures r.v() == n as real { unimplemented!() }
}
#[verifier::external_body]
pub fn expect<A>(o: Option<A>, m: &str) -> (r: A) requires o.is_some() ensures o == Some(r) { unimplemented!() }

// Vectors and points of the plane
#[derive(Copy, Clone)]
pub struct Vector2 { pub x: T, pub y: T }
impl Vector2 {
    pub fn new(x: T, y: T) -> (r: Vector2) ensures r.x == x, r.y == y { Vector2 { x, y } }
}
impl MulSpecImpl<T> for Vector2 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: T) -> bool { true }
    open spec fn mul_spec(self, rhs: T) -> Self::Output { self }
}
impl core::ops::Mul<T> for Vector2 {
    type Output = Vector2;
    #[verifier::external_body]
    fn mul(self, o: T) -> (r: Vector2) ensures r.x.v() == self.x.v() * o.v(), r.y.v() == self.y.v() * o.v() { unimplemented!() }
}
impl AddSpecImpl<Vector2> for Vector2 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Vector2) -> bool { true }
    open spec fn add_spec(self, rhs: Vector2) -> Self::Output { rhs }
}
impl core::ops::Add<Vector2> for Vector2 {
    type Output = Vector2;
    #[verifier::external_body]
    fn add(self, o: Vector2) -> (r: Vector2) ensures r.x.v() == self.x.v() + o.x.v(), r.y.v() == self.y.v() + o.y.v() { unimplemented!() }
}
#[derive(Copy, Clone)]
pub struct Point2 { pub x: T, pub y: T }
impl Point2 {
    pub fn from(v: Vector2) -> (r: Point2) ensures r.x == v.x, r.y == v.y { Point2 { x: v.x, y: v.y } }
}
#[derive(Copy, Clone)]
pub struct Point3 { pub x: T, pub y: T, pub z: T }
impl Point3 {
    pub fn new(x: T, y: T, z: T) -> (r: Point3) ensures r.x == x, r.y == y, r.z == z { Point3 { x, y, z } }
}
pub struct Quad4d2Connectivity(pub [usize; 4]);
pub struct Hex8Connectivity(pub [usize; 8]);
pub struct QuadMesh2d { pub vertices: Vec<Point2>, pub connectivity: Vec<Quad4d2Connectivity> }
pub struct HexMesh { pub vertices: Vec<Point3>, pub connectivity: Vec<Hex8Connectivity> }
impl QuadMesh2d {
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: from_vertices_and_connectivity
//@ subst Vec<OPoint<T, D>> => Vec<Point2>
//@ subst Vec<Connectivity> => Vec<Quad4d2Connectivity>
//@ ret r
//@ spec
    ensures r.vertices@ == vertices@, r.connectivity@ == connectivity@
//@ done
}
impl HexMesh {
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: from_vertices_and_connectivity
//@ subst Vec<OPoint<T, D>> => Vec<Point3>
//@ subst Vec<Connectivity> => Vec<Hex8Connectivity>
//@ ret r
//@ spec
    ensures r.vertices@ == vertices@, r.connectivity@ == connectivity@
//@ done
}

// ---- lattices: element k of a list is what belongs to column k % n of row k / n
pub proof fn lemma_id2(n: int, i: int, j: int)
    requires 0 <= i < n, 0 <= j
    ensures (n * j + i) % n == i, (n * j + i) / n == j
{
    assert(n * j == j * n) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * j + i, n, j, i);
}
pub proof fn lemma_split2(n: int, m: int, k: int)
    requires 0 < n, 0 <= k < n * m
    ensures 0 <= k % n < n, 0 <= k / n < m, n * (k / n) + k % n == k
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    let (q, r) = (k / n, k % n);
    assert(0 <= q < m) by (nonlinear_arith) requires k == n * q + r, 0 <= r < n, 0 <= k < n * m;
}
pub proof fn lemma_below(n: int, m: int, i: int, j: int)
    requires 0 <= i < n, 0 <= j < m
    ensures 0 <= n * j + i < n * m, n * (j + 1) == n * j + n, n * (j + 1) <= n * m
{
    assert(n * j + i < n * m) by (nonlinear_arith) requires 0 <= i < n, 0 <= j < m;
    assert(n * (j + 1) <= n * m) by (nonlinear_arith) requires 0 < n, 0 <= j < m;
    assert(0 <= n * j) by (nonlinear_arith) requires 0 < n, 0 <= j;
    assert(n * (j + 1) == n * j + n) by (nonlinear_arith);
}

// ---- rectangles
pub open spec fn is_point2(p: Point2, x0: real, y0: real, h: real, i: int, j: int) -> bool { p.x.v() == x0 + i as real * h && p.y.v() == y0 - j as real * h }
#[verifier::opaque]
pub open spec fn is_grid2(v: Seq<Point2>, x0: real, y0: real, h: real, n: int) -> bool {
    forall|k: int| 0 <= k < v.len() ==> is_point2(#[trigger] v[k], x0, y0, h, k % n, k / n)
}
pub proof fn lemma_grid2(v: Seq<Point2>, x0: real, y0: real, h: real, n: int, p: Point2, i: int, j: int)
    requires is_grid2(v, x0, y0, h, n), is_point2(p, x0, y0, h, i, j), v.len() == n * j + i, 0 <= i < n, 0 <= j
    ensures is_grid2(v.push(p), x0, y0, h, n)
{
    reveal(is_grid2);
    lemma_id2(n, i, j);
}
// the corners of cell (i, j), counterclockwise: lower left, lower right, upper right, upper left (y decreases with j);
// n vertices in each row
pub open spec fn is_cell2(c: [usize; 4], n: int, i: int, j: int) -> bool {
    c[0] == n * (j + 1) + i && c[1] == n * (j + 1) + i + 1 && c[2] == n * j + i + 1 && c[3] == n * j + i
}
#[verifier::opaque]
pub open spec fn is_cells2(c: Seq<Quad4d2Connectivity>, n: int) -> bool {
    forall|k: int| 0 <= k < c.len() ==> is_cell2((#[trigger] c[k]).0, n + 1, k % n, k / n)
}
pub proof fn lemma_cells2(c: Seq<Quad4d2Connectivity>, n: int, p: Quad4d2Connectivity, i: int, j: int)
    requires is_cells2(c, n), is_cell2(p.0, n + 1, i, j), c.len() == n * j + i, 0 <= i < n, 0 <= j
    ensures is_cells2(c.push(p), n)
{
    reveal(is_cells2);
    lemma_id2(n, i, j);
}
pub open spec fn valid2(r: QuadMesh2d) -> bool { forall|k: int| 0 <= k < r.connectivity@.len() ==> in_range((#[trigger] r.connectivity@[k]).0, r.vertices@.len() as int) }
pub proof fn lemma_valid2(r: QuadMesh2d, x0: real, y0: real, h: real, n: int, m: int)
    requires is_rectangle(r, x0, y0, h, n, m)
    ensures valid2(r)
{
    lemma_tiles2(r, x0, y0, h, n, m);
    assert forall|k: int| 0 <= k < r.connectivity@.len() implies in_range((#[trigger] r.connectivity@[k]).0, r.vertices@.len() as int) by { assert(low2(r, k) == low2(r, k)); }
}
pub open spec fn is_rectangle(r: QuadMesh2d, x0: real, y0: real, h: real, n: int, m: int) -> bool {
    &&& n >= 1 && m >= 1 && h > 0real
    &&& r.vertices@.len() == (n + 1) * (m + 1) && is_grid2(r.vertices@, x0, y0, h, n + 1)
    &&& r.connectivity@.len() == n * m && is_cells2(r.connectivity@, n)
}
//@ fn src/mesh/procedural.rs :: create_rectangular_uniform_quad_mesh_2d
//@ instantiate
//@ subst &Vector2<T> => &Vector2
//@ subst QuadMesh2d<T> => QuadMesh2d
//@ subst let mut vertices = Vec::new() => let mut vertices: Vec<Point2> = Vec::new()
//@ subst let mut cells = Vec::new() => let mut cells: Vec<Quad4d2Connectivity> = Vec::new()
//@ subst cells_per_unit as f64 => T::of(cells_per_unit)
//@ subst top_left + => *top_left +
//@ ret r
//@ closures 1
//@ closure 0 usize, usize ; k: usize
    requires (num_cells_x + 1) * a1 + a0 <= usize::MAX
    ensures k == (num_cells_x + 1) * a1 + a0
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        unit_length.v() > 0real,
        (units_x * cells_per_unit + 1) * (units_y * cells_per_unit + 1) <= usize::MAX,
    ensures
        cells_per_unit > 0 && units_x > 0 && units_y > 0 ==>
            is_rectangle(r, top_left.x.v(), top_left.y.v(), unit_length.v() / cells_per_unit as real, units_x * cells_per_unit, units_y * cells_per_unit),
        valid2(r),
        cells_per_unit == 0 || units_x == 0 || units_y == 0 ==> r.vertices@.len() == 0 && r.connectivity@.len() == 0,
//@ before let cell_size
    let ghost n = units_x * cells_per_unit; let ghost m = units_y * cells_per_unit;
    let ghost x0 = top_left.x.v(); let ghost y0 = top_left.y.v(); let ghost h = unit_length.v() / cells_per_unit as real;
    proof {
        assert(n >= 1 && m >= 1) by (nonlinear_arith) requires n == units_x * cells_per_unit, m == units_y * cells_per_unit, units_x >= 1, units_y >= 1, cells_per_unit >= 1;
        assert((n + 1) * (m + 1) == n * m + n + m + 1) by (nonlinear_arith);
        assert(n * m >= 1) by (nonlinear_arith) requires n >= 1, m >= 1;
        let (l, c) = (unit_length.v(), cells_per_unit as real);
        assert(l / c > 0real) by (nonlinear_arith) requires l > 0real, c >= 1real;
        assert((n + 1) * 0 == 0 && n * 0 == 0) by (nonlinear_arith);
        reveal(is_grid2); reveal(is_cells2);
    }
//@ loop 0 a
    invariant
        vertices@.len() == (n + 1) * a.index(), is_grid2(vertices@, x0, y0, h, n + 1),
//@ loop-start 0
    proof { lemma_below(n + 1, m + 1, 0, a.index()); }
//@ loop 1 b
    invariant
        vertices@.len() == (n + 1) * j + b.index(), is_grid2(vertices@, x0, y0, h, n + 1),
//@ before vertices.push
    proof { 
        let (jr, hr) = (j as real, h); assert((0real - jr) * hr == 0real - jr * hr) by (nonlinear_arith);
        lemma_grid2(vertices@, x0, y0, h, n + 1, Point2 { x: v.x, y: v.y }, i as int, j as int);
    }
//@ loop 2 a
    invariant
        cells@.len() == n * a.index(), is_cells2(cells@, n),
//@ loop-start 2
    proof { 
        lemma_below(n, m, 0, a.index());
        lemma_below(n + 1, m + 1, n, j + 1);
        lemma_below(n + 1, m + 1, n, j as int);
    }
//@ loop 3 b
    invariant
        cells@.len() == n * j + b.index(), is_cells2(cells@, n),
//@ before cells.push
    proof { lemma_cells2(cells@, n, quad, i as int, j as int); }
//@ tail res
    proof {
        if cells_per_unit > 0 && units_x > 0 && units_y > 0 {
            lemma_valid2(res, top_left.x.v(), top_left.y.v(), unit_length.v() / cells_per_unit as real, units_x * cells_per_unit, units_y * cells_per_unit);
        }
    }
//@ done

// ---- boxes
pub open spec fn is_point3(p: Point3, h: real, i: int, j: int, k: int) -> bool { p.x.v() == i as real * h && p.y.v() == j as real * h && p.z.v() == k as real * h }
// element q belongs to place q % n, (q / n) % m, (q / n) / m
#[verifier::opaque]
pub open spec fn is_grid3(v: Seq<Point3>, h: real, n: int, m: int) -> bool {
    forall|q: int| 0 <= q < v.len() ==> is_point3(#[trigger] v[q], h, q % n, (q / n) % m, (q / n) / m)
}
pub proof fn lemma_grid3(v: Seq<Point3>, h: real, n: int, m: int, p: Point3, i: int, j: int, k: int)
    requires is_grid3(v, h, n, m), is_point3(p, h, i, j, k), v.len() == n * (m * k + j) + i, 0 <= i < n, 0 <= j < m, 0 <= k
    ensures is_grid3(v.push(p), h, n, m)
{
    reveal(is_grid3);
    assert(0 <= m * k) by (nonlinear_arith) requires m > 0, k >= 0;
    lemma_id2(n, i, m * k + j);
    lemma_id2(m, j, k);
}
pub open spec fn at3(n: int, m: int, i: int, j: int, k: int) -> int { n * (m * k + j) + i }
// the corners of cell (i, j, k) in the order of the reference hexahedron; n by m vertices in each layer
pub open spec fn is_cell3(c: [usize; 8], n: int, m: int, i: int, j: int, k: int) -> bool {
    &&& c[0] == at3(n, m, i, j, k) && c[1] == at3(n, m, i + 1, j, k) && c[2] == at3(n, m, i + 1, j + 1, k) && c[3] == at3(n, m, i, j + 1, k)
    &&& c[4] == at3(n, m, i, j, k + 1) && c[5] == at3(n, m, i + 1, j, k + 1) && c[6] == at3(n, m, i + 1, j + 1, k + 1) && c[7] == at3(n, m, i, j + 1, k + 1)
}
#[verifier::opaque]
pub open spec fn is_cells3(c: Seq<Hex8Connectivity>, n: int, m: int) -> bool {
    forall|q: int| 0 <= q < c.len() ==> is_cell3((#[trigger] c[q]).0, n + 1, m + 1, q % n, (q / n) % m, (q / n) / m)
}
pub proof fn lemma_cells3(c: Seq<Hex8Connectivity>, n: int, m: int, p: Hex8Connectivity, i: int, j: int, k: int)
    requires is_cells3(c, n, m), is_cell3(p.0, n + 1, m + 1, i, j, k), c.len() == n * (m * k + j) + i, 0 <= i < n, 0 <= j < m, 0 <= k
    ensures is_cells3(c.push(p), n, m)
{
    reveal(is_cells3);
    assert(0 <= m * k) by (nonlinear_arith) requires m > 0, k >= 0;
    lemma_id2(n, i, m * k + j);
    lemma_id2(m, j, k);
}
pub open spec fn is_box(r: HexMesh, h: real, n: int, m: int, l: int) -> bool {
    &&& n >= 1 && m >= 1 && l >= 1 && h > 0real
    &&& r.vertices@.len() == (n + 1) * ((m + 1) * (l + 1)) && is_grid3(r.vertices@, h, n + 1, m + 1)
    &&& r.connectivity@.len() == n * (m * l) && is_cells3(r.connectivity@, n, m)
}
// bounds of the place (i, j, k), and the two ways of writing it
pub proof fn lemma_at3(n: int, m: int, l: int, i: int, j: int, k: int)
    requires 0 <= i < n, 0 <= j < m, 0 <= k < l
    ensures 0 <= at3(n, m, i, j, k) < n * (m * l), at3(n, m, i, j, k) == (n * m) * k + n * j + i, 0 <= (n * m) * k <= n * (m * l), 0 <= n * j <= n * m,
        0 <= (n * m) * k + n * j <= n * (m * l),
        n * (m * k + j + 1) == n * (m * k + j) + n, m * (k + 1) == m * k + m, n * (m * k + j) + n <= n * (m * l)
{
    lemma_below(m, l, j, k);
    lemma_below(n, m * l, i, m * k + j);
    lemma_below(n, m, i, j);
    assert(n * (m * k + j) == (n * m) * k + n * j) by (nonlinear_arith);
    assert((n * m) * k <= n * (m * l)) by (nonlinear_arith) requires n > 0, m > 0, 0 <= k < l;
    assert(0 <= (n * m) * k) by (nonlinear_arith) requires n > 0, m > 0, 0 <= k;
}
//@ fn src/mesh/procedural.rs :: create_rectangular_uniform_hex_mesh
//@ instantiate
//@ subst HexMesh<T> => HexMesh
//@ subst Mesh::from_vertices_and_connectivity( => HexMesh::from_vertices_and_connectivity(
//@ subst let mut vertices = Vec::new() => let mut vertices: Vec<Point3> = Vec::new()
//@ subst let mut cells = Vec::new() => let mut cells: Vec<Hex8Connectivity> = Vec::new()
//@ subst cells_per_unit as f64 => T::of(cells_per_unit)
//@ subst let idx = &to_global_vertex_index => let idx = to_global_vertex_index
//@ ret r
//@ closures 1
//@ closure 0 usize, usize, usize ; q: usize
    requires num_vertices_x * num_vertices_y <= usize::MAX, (num_vertices_x * num_vertices_y) * a2 <= usize::MAX, num_vertices_x * a1 <= usize::MAX, (num_vertices_x * num_vertices_y) * a2 + num_vertices_x * a1 + a0 <= usize::MAX
    ensures q == (num_vertices_x * num_vertices_y) * a2 + num_vertices_x * a1 + a0
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        unit_length.v() > 0real,
        (units_x * cells_per_unit + 1) * ((units_y * cells_per_unit + 1) * (units_z * cells_per_unit + 1)) <= usize::MAX,
    ensures
        cells_per_unit > 0 && units_x > 0 && units_y > 0 && units_z > 0 ==>
            is_box(r, unit_length.v() / cells_per_unit as real, units_x * cells_per_unit, units_y * cells_per_unit, units_z * cells_per_unit),
        cells_per_unit == 0 || units_x == 0 || units_y == 0 || units_z == 0 ==> r.vertices@.len() == 0 && r.connectivity@.len() == 0,
//@ before let cell_size
    let ghost n = units_x * cells_per_unit; let ghost m = units_y * cells_per_unit; let ghost l = units_z * cells_per_unit;
    let ghost h = unit_length.v() / cells_per_unit as real;
    proof {
        assert(n >= 1 && m >= 1 && l >= 1) by (nonlinear_arith) requires n == units_x * cells_per_unit, m == units_y * cells_per_unit, l == units_z * cells_per_unit, units_x >= 1, units_y >= 1, units_z >= 1, cells_per_unit >= 1;
        lemma_sizes(n, m, l);
        let (u, c) = (unit_length.v(), cells_per_unit as real);
        assert(u / c > 0real) by (nonlinear_arith) requires u > 0real, c >= 1real;
        reveal(is_grid3); reveal(is_cells3);
    }
//@ loop 0 a
    invariant
        vertices@.len() == (n + 1) * ((m + 1) * a.index()), is_grid3(vertices@, h, n + 1, m + 1),
//@ loop-start 0
    proof { lemma_at3(n + 1, m + 1, l + 1, 0, m, k as int); assert((m + 1) * k + 0 == (m + 1) * k); }
//@ loop 1 b
    invariant
        vertices@.len() == (n + 1) * ((m + 1) * k + b.index()), is_grid3(vertices@, h, n + 1, m + 1),
//@ loop-start 1
    proof { lemma_at3(n + 1, m + 1, l + 1, 0, j as int, k as int); }
//@ loop 2 c
    invariant
        vertices@.len() == (n + 1) * ((m + 1) * k + j) + c.index(), is_grid3(vertices@, h, n + 1, m + 1),
//@ before vertices.push
    proof { lemma_grid3(vertices@, h, n + 1, m + 1, v, i as int, j as int, k as int); }
//@ loop 3 a
    invariant
        cells@.len() == n * (m * a.index()), is_cells3(cells@, n, m),
//@ loop-start 3
    proof { lemma_at3(n, m, l, 0, m - 1, k as int); }
//@ loop 4 b
    invariant
        cells@.len() == n * (m * k + b.index()), is_cells3(cells@, n, m),
//@ loop-start 4
    proof { lemma_at3(n, m, l, 0, j as int, k as int); }
//@ loop 5 c
    invariant
        cells@.len() == n * (m * k + j) + c.index(), is_cells3(cells@, n, m),
//@ loop-start 5
    let ghost before = cells@;
    proof {
        lemma_at3(n + 1, m + 1, l + 1, i as int, j as int, k as int);
        lemma_at3(n + 1, m + 1, l + 1, i + 1, j as int, k as int);
        lemma_at3(n + 1, m + 1, l + 1, i + 1, j + 1, k as int);
        lemma_at3(n + 1, m + 1, l + 1, i as int, j + 1, k as int);
        lemma_at3(n + 1, m + 1, l + 1, i as int, j as int, k + 1);
        lemma_at3(n + 1, m + 1, l + 1, i + 1, j as int, k + 1);
        lemma_at3(n + 1, m + 1, l + 1, i + 1, j + 1, k + 1);
        lemma_at3(n + 1, m + 1, l + 1, i as int, j + 1, k + 1);
    }
//@ loop-end 5
    proof { 
        lemma_cells3(before, n, m, cells@.last(), i as int, j as int, k as int); 
        assert(before.push(cells@.last()) =~= cells@);
    }
//@ done
pub proof fn lemma_sizes(n: int, m: int, l: int)
    requires n >= 1, m >= 1, l >= 1
    ensures n + 1 <= (n + 1) * ((m + 1) * (l + 1)), m + 1 <= (n + 1) * ((m + 1) * (l + 1)), l + 1 <= (n + 1) * ((m + 1) * (l + 1)),
        (n + 1) * (m + 1) <= (n + 1) * ((m + 1) * (l + 1)), (n + 1) * ((m + 1) * 0) == 0, n * (m * 0) == 0
{
    let (a, b, c) = (n + 1, m + 1, l + 1);
    assert(b * c >= b && b * c >= c) by (nonlinear_arith) requires b >= 1, c >= 1;
    let d = b * c;
    assert(a * d >= a && a * d >= d) by (nonlinear_arith) requires a >= 1, d >= 1;
    assert(a * b <= a * d) by (nonlinear_arith) requires a >= 1, b <= d;
    assert(b * 0 == 0 && a * 0 == 0 && m * 0 == 0 && n * 0 == 0) by (nonlinear_arith);
}

// ---- what this says about regions: one axis
pub proof fn lemma_find(x: real, h: real, n: int) -> (i: int)
    requires h > 0real, n >= 1, 0real <= x <= n as real * h
    ensures 0 <= i < n, i as real * h <= x <= (i + 1) as real * h
    decreases n
{
    let (p, q) = ((n - 1) as real, n as real);
    if n == 1 {
        assert(0real * h == 0real) by (nonlinear_arith);
        0
    } else if x <= p * h { lemma_find(x, h, n - 1) } else { n - 1 }
}
pub proof fn lemma_order(h: real, i: int, j: int)
    requires h > 0real, i < j
    ensures (i + 1) as real * h <= j as real * h, i as real * h < j as real * h, (i + 1) as real * h == i as real * h + h
{
    let (a, b, c) = (i as real, (i + 1) as real, j as real);
    assert(b * h <= c * h) by (nonlinear_arith) requires b <= c, h > 0real;
    assert(a * h < c * h) by (nonlinear_arith) requires a < c, h > 0real;
    assert(b * h == a * h + h) by (nonlinear_arith) requires b == a + 1real;
}
// the same interval
pub proof fn lemma_same(h: real, i: int, j: int, x: real)
    requires h > 0real, i as real * h < x < (i + 1) as real * h, j as real * h < x < (j + 1) as real * h
    ensures i == j
{
    if i < j { lemma_order(h, i, j); } else if j < i { lemma_order(h, j, i); }
}
// a point of the lattice in an interval is one of its ends
pub proof fn lemma_end(h: real, i: int, j: int)
    requires h > 0real, i as real * h <= j as real * h <= (i + 1) as real * h
    ensures j == i || j == i + 1
{
    if j < i { lemma_order(h, j, i); } else if j > i + 1 { lemma_order(h, i + 1, j); }
}
pub proof fn lemma_distinct(h: real, i: int, j: int)
    requires h > 0real, i as real * h == j as real * h
    ensures i == j
{
    if i < j { lemma_order(h, i, j); } else if j < i { lemma_order(h, j, i); }
}

// ---- rectangles
// cell c is the box with these corners, counterclockwise from the lower left one
pub open spec fn box2(r: QuadMesh2d, c: int, x: real, y: real, h: real) -> bool {
    let v = r.vertices@; let q = r.connectivity@[c].0;
    &&& q[0] < v.len() && q[1] < v.len() && q[2] < v.len() && q[3] < v.len()
    &&& v[q[0] as int].x.v() == x && v[q[0] as int].y.v() == y
    &&& v[q[1] as int].x.v() == x + h && v[q[1] as int].y.v() == y
    &&& v[q[2] as int].x.v() == x + h && v[q[2] as int].y.v() == y + h
    &&& v[q[3] as int].x.v() == x && v[q[3] as int].y.v() == y + h
}
pub open spec fn low2(r: QuadMesh2d, c: int) -> (real, real) { (r.vertices@[r.connectivity@[c].0[0] as int].x.v(), r.vertices@[r.connectivity@[c].0[0] as int].y.v()) }
pub open spec fn inside2(r: QuadMesh2d, c: int, h: real, x: real, y: real) -> bool { let l = low2(r, c); l.0 < x < l.0 + h && l.1 < y < l.1 + h }
pub open spec fn within2(r: QuadMesh2d, c: int, h: real, x: real, y: real) -> bool { let l = low2(r, c); l.0 <= x <= l.0 + h && l.1 <= y <= l.1 + h }
pub open spec fn covered2(r: QuadMesh2d, h: real, x: real, y: real) -> bool { exists|c: int| 0 <= c < r.connectivity@.len() && #[trigger] within2(r, c, h, x, y) }
pub open spec fn has2(r: QuadMesh2d, c: int, v: int) -> bool { let q = r.connectivity@[c].0; q[0] == v || q[1] == v || q[2] == v || q[3] == v }
pub open spec fn used2(r: QuadMesh2d, a: int) -> bool { exists|c: int| 0 <= c < r.connectivity@.len() && #[trigger] has2(r, c, a) }
// the mesh tiles [x0, x0 + n h] x [y0 - m h, y0]
pub open spec fn tiles2(r: QuadMesh2d, x0: real, y0: real, h: real, n: int, m: int) -> bool {
    let cells = r.connectivity@.len(); let v = r.vertices@;
    // every cell is a box of the right size, positively oriented, of the region
    &&& forall|c: int| 0 <= c < cells ==> box2(r, c, (#[trigger] low2(r, c)).0, low2(r, c).1, h) && x0 <= low2(r, c).0 && low2(r, c).0 + h <= x0 + n as real * h && y0 - m as real * h <= low2(r, c).1 && low2(r, c).1 + h <= y0
    // no gaps
    &&& forall|x: real, y: real| x0 <= x <= x0 + n as real * h && y0 - m as real * h <= y <= y0 ==> #[trigger] covered2(r, h, x, y)
    // no overlap
    &&& forall|c: int, d: int, x: real, y: real| 0 <= c < cells && 0 <= d < cells && #[trigger] inside2(r, c, h, x, y) && #[trigger] inside2(r, d, h, x, y) ==> c == d
    // no duplicated vertices
    &&& forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && (#[trigger] v[a]).x.v() == (#[trigger] v[b]).x.v() && v[a].y.v() == v[b].y.v() ==> a == b
    // no unused vertices
    &&& forall|a: int| 0 <= a < v.len() ==> #[trigger] used2(r, a)
    // conforming: a vertex on a cell is one of its corners
    &&& forall|a: int, c: int| #![trigger v[a], low2(r, c)] 0 <= a < v.len() && 0 <= c < cells && within2(r, c, h, v[a].x.v(), v[a].y.v()) ==> has2(r, c, a)
}
pub proof fn lemma_vertex2(r: QuadMesh2d, x0: real, y0: real, h: real, n: int, m: int, i: int, j: int)
    requires is_rectangle(r, x0, y0, h, n, m), 0 <= i <= n, 0 <= j <= m
    ensures 0 <= (n + 1) * j + i < r.vertices@.len(), is_point2(r.vertices@[(n + 1) * j + i], x0, y0, h, i, j)
{
    reveal(is_grid2);
    lemma_below(n + 1, m + 1, i, j);
    lemma_id2(n + 1, i, j);
}
pub proof fn lemma_cell2(r: QuadMesh2d, x0: real, y0: real, h: real, n: int, m: int, i: int, j: int)
    requires is_rectangle(r, x0, y0, h, n, m), 0 <= i < n, 0 <= j < m
    ensures 0 <= n * j + i < r.connectivity@.len(), is_cell2(r.connectivity@[n * j + i].0, n + 1, i, j), 
        low2(r, n * j + i).0 == x0 + i as real * h, low2(r, n * j + i).1 == y0 - (j + 1) as real * h,
        box2(r, n * j + i, x0 + i as real * h, y0 - (j + 1) as real * h, h),
        (i + 1) as real * h == i as real * h + h, (j + 1) as real * h == j as real * h + h,
{
    reveal(is_cells2);
    lemma_below(n, m, i, j);
    lemma_id2(n, i, j);
    lemma_vertex2(r, x0, y0, h, n, m, i, j);
    lemma_vertex2(r, x0, y0, h, n, m, i + 1, j);
    lemma_vertex2(r, x0, y0, h, n, m, i, j + 1);
    lemma_vertex2(r, x0, y0, h, n, m, i + 1, j + 1);
    lemma_order(h, i, i + 1);
    lemma_order(h, j, j + 1);
}
pub proof fn lemma_tiles2(r: QuadMesh2d, x0: real, y0: real, h: real, n: int, m: int)
    requires is_rectangle(r, x0, y0, h, n, m)
    ensures tiles2(r, x0, y0, h, n, m)
{
    let cells = r.connectivity@.len() as int; let v = r.vertices@;
    assert forall|c: int| 0 <= c < cells implies box2(r, c, (#[trigger] low2(r, c)).0, low2(r, c).1, h) && x0 <= low2(r, c).0 && low2(r, c).0 + h <= x0 + n as real * h && y0 - m as real * h <= low2(r, c).1 && low2(r, c).1 + h <= y0 by {
        lemma_split2(n, m, c);
        let (i, j) = (c % n, c / n);
        lemma_cell2(r, x0, y0, h, n, m, i, j);
        lemma_order(h, i, n); lemma_order(h, j, m); lemma_order(h, -1, i); lemma_order(h, -1, j);
        assert((-1 + 1) as real * h == 0real) by (nonlinear_arith);
    }
    assert forall|x: real, y: real| x0 <= x <= x0 + n as real * h && y0 - m as real * h <= y <= y0 implies #[trigger] covered2(r, h, x, y) by {
        let i = lemma_find(x - x0, h, n); let j = lemma_find(y0 - y, h, m);
        lemma_cell2(r, x0, y0, h, n, m, i, j);
        assert(within2(r, n * j + i, h, x, y));
    }
    assert forall|c: int, d: int, x: real, y: real| 0 <= c < cells && 0 <= d < cells && #[trigger] inside2(r, c, h, x, y) && #[trigger] inside2(r, d, h, x, y) implies c == d by {
        lemma_split2(n, m, c); lemma_split2(n, m, d);
        lemma_cell2(r, x0, y0, h, n, m, c % n, c / n);
        lemma_cell2(r, x0, y0, h, n, m, d % n, d / n);
        lemma_same(h, c % n, d % n, x - x0);
        lemma_same(h, c / n, d / n, y0 - y);
    }
    assert forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && (#[trigger] v[a]).x.v() == (#[trigger] v[b]).x.v() && v[a].y.v() == v[b].y.v() implies a == b by {
        lemma_split2(n + 1, m + 1, a); lemma_split2(n + 1, m + 1, b);
        lemma_vertex2(r, x0, y0, h, n, m, a % (n + 1), a / (n + 1));
        lemma_vertex2(r, x0, y0, h, n, m, b % (n + 1), b / (n + 1));
        lemma_distinct(h, a % (n + 1), b % (n + 1));
        lemma_distinct(h, a / (n + 1), b / (n + 1));
    }
    assert forall|a: int| 0 <= a < v.len() implies #[trigger] used2(r, a) by {
        lemma_split2(n + 1, m + 1, a);
        let (i, j) = (a % (n + 1), a / (n + 1));
        let (k, l) = (if i == n { i - 1 } else { i }, if j == m { j - 1 } else { j });
        lemma_cell2(r, x0, y0, h, n, m, k, l);
        assert((n + 1) * (l + 1) == (n + 1) * l + n + 1) by (nonlinear_arith);
        assert(has2(r, n * l + k, a));
    }
    assert forall|a: int, c: int| #![trigger v[a], low2(r, c)] 0 <= a < v.len() && 0 <= c < cells && within2(r, c, h, v[a].x.v(), v[a].y.v()) implies has2(r, c, a) by {
        lemma_split2(n + 1, m + 1, a); lemma_split2(n, m, c);
        let (i, j) = (a % (n + 1), a / (n + 1));
        lemma_vertex2(r, x0, y0, h, n, m, i, j);
        lemma_cell2(r, x0, y0, h, n, m, c % n, c / n);
        lemma_end(h, c % n, i);
        lemma_end(h, c / n, j);
    }
}

// ---- boxes
pub open spec fn is_at(p: Point3, x: real, y: real, z: real) -> bool { p.x.v() == x && p.y.v() == y && p.z.v() == z }
// cell c is the box with these corners, in the order of the reference hexahedron
pub open spec fn box3(r: HexMesh, c: int, x: real, y: real, z: real, h: real) -> bool {
    let v = r.vertices@; let q = r.connectivity@[c].0;
    &&& forall|k: int| 0 <= k < 8 ==> (#[trigger] q[k]) < v.len()
    &&& is_at(v[q[0] as int], x, y, z) && is_at(v[q[1] as int], x + h, y, z) && is_at(v[q[2] as int], x + h, y + h, z) && is_at(v[q[3] as int], x, y + h, z)
    &&& is_at(v[q[4] as int], x, y, z + h) && is_at(v[q[5] as int], x + h, y, z + h) && is_at(v[q[6] as int], x + h, y + h, z + h) && is_at(v[q[7] as int], x, y + h, z + h)
}
pub open spec fn low3(r: HexMesh, c: int) -> Point3 { r.vertices@[r.connectivity@[c].0[0] as int] }
pub open spec fn inside3(r: HexMesh, c: int, h: real, x: real, y: real, z: real) -> bool { let l = low3(r, c); l.x.v() < x < l.x.v() + h && l.y.v() < y < l.y.v() + h && l.z.v() < z < l.z.v() + h }
pub open spec fn within3(r: HexMesh, c: int, h: real, x: real, y: real, z: real) -> bool { let l = low3(r, c); l.x.v() <= x <= l.x.v() + h && l.y.v() <= y <= l.y.v() + h && l.z.v() <= z <= l.z.v() + h }
pub open spec fn covered3(r: HexMesh, h: real, x: real, y: real, z: real) -> bool { exists|c: int| 0 <= c < r.connectivity@.len() && #[trigger] within3(r, c, h, x, y, z) }
pub open spec fn has3(r: HexMesh, c: int, v: int) -> bool { let q = r.connectivity@[c].0; q[0] == v || q[1] == v || q[2] == v || q[3] == v || q[4] == v || q[5] == v || q[6] == v || q[7] == v }
pub open spec fn used3(r: HexMesh, a: int) -> bool { exists|c: int| 0 <= c < r.connectivity@.len() && #[trigger] has3(r, c, a) }
// the mesh tiles [0, n h] x [0, m h] x [0, l h]
pub open spec fn tiles3(r: HexMesh, h: real, n: int, m: int, l: int) -> bool {
    let cells = r.connectivity@.len(); let v = r.vertices@;
    &&& forall|c: int| 0 <= c < cells ==> {
            let p = #[trigger] low3(r, c);
            box3(r, c, p.x.v(), p.y.v(), p.z.v(), h) && 0real <= p.x.v() && p.x.v() + h <= n as real * h && 0real <= p.y.v() && p.y.v() + h <= m as real * h && 0real <= p.z.v() && p.z.v() + h <= l as real * h
        }
    &&& forall|x: real, y: real, z: real| 0real <= x <= n as real * h && 0real <= y <= m as real * h && 0real <= z <= l as real * h ==> #[trigger] covered3(r, h, x, y, z)
    &&& forall|c: int, d: int, x: real, y: real, z: real| 0 <= c < cells && 0 <= d < cells && #[trigger] inside3(r, c, h, x, y, z) && #[trigger] inside3(r, d, h, x, y, z) ==> c == d
    &&& forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && (#[trigger] v[a]).x.v() == (#[trigger] v[b]).x.v() && v[a].y.v() == v[b].y.v() && v[a].z.v() == v[b].z.v() ==> a == b
    &&& forall|a: int| 0 <= a < v.len() ==> #[trigger] used3(r, a)
    &&& forall|a: int, c: int| #![trigger v[a], low3(r, c)] 0 <= a < v.len() && 0 <= c < cells && within3(r, c, h, v[a].x.v(), v[a].y.v(), v[a].z.v()) ==> has3(r, c, a)
}
pub proof fn lemma_split3(n: int, m: int, l: int, q: int)
    requires n >= 1, m >= 1, l >= 1, 0 <= q < n * (m * l)
    ensures 0 <= q % n < n, 0 <= (q / n) % m < m, 0 <= (q / n) / m < l, at3(n, m, q % n, (q / n) % m, (q / n) / m) == q
{
    lemma_split2(n, m * l, q);
    lemma_split2(m, l, q / n);
}
pub proof fn lemma_place3(n: int, m: int, i: int, j: int, k: int)
    requires 0 <= i < n, 0 <= j < m, 0 <= k
    ensures at3(n, m, i, j, k) % n == i, (at3(n, m, i, j, k) / n) % m == j, (at3(n, m, i, j, k) / n) / m == k
{
    assert(0 <= m * k) by (nonlinear_arith) requires m > 0, k >= 0;
    lemma_id2(n, i, m * k + j);
    lemma_id2(m, j, k);
}
pub proof fn lemma_vertex3(r: HexMesh, h: real, n: int, m: int, l: int, i: int, j: int, k: int)
    requires is_box(r, h, n, m, l), 0 <= i <= n, 0 <= j <= m, 0 <= k <= l
    ensures 0 <= at3(n + 1, m + 1, i, j, k) < r.vertices@.len(), is_point3(r.vertices@[at3(n + 1, m + 1, i, j, k)], h, i, j, k)
{
    reveal(is_grid3);
    lemma_at3(n + 1, m + 1, l + 1, i, j, k);
    lemma_place3(n + 1, m + 1, i, j, k);
}
pub proof fn lemma_cell3(r: HexMesh, h: real, n: int, m: int, l: int, i: int, j: int, k: int)
    requires is_box(r, h, n, m, l), 0 <= i < n, 0 <= j < m, 0 <= k < l
    ensures 0 <= at3(n, m, i, j, k) < r.connectivity@.len(), is_cell3(r.connectivity@[at3(n, m, i, j, k)].0, n + 1, m + 1, i, j, k),
        is_at(low3(r, at3(n, m, i, j, k)), i as real * h, j as real * h, k as real * h),
        box3(r, at3(n, m, i, j, k), i as real * h, j as real * h, k as real * h, h),
        (i + 1) as real * h == i as real * h + h, (j + 1) as real * h == j as real * h + h, (k + 1) as real * h == k as real * h + h,
{
    reveal(is_cells3);
    lemma_at3(n, m, l, i, j, k);
    lemma_place3(n, m, i, j, k);
    lemma_vertex3(r, h, n, m, l, i, j, k); lemma_vertex3(r, h, n, m, l, i + 1, j, k);
    lemma_vertex3(r, h, n, m, l, i + 1, j + 1, k); lemma_vertex3(r, h, n, m, l, i, j + 1, k);
    lemma_vertex3(r, h, n, m, l, i, j, k + 1); lemma_vertex3(r, h, n, m, l, i + 1, j, k + 1);
    lemma_vertex3(r, h, n, m, l, i + 1, j + 1, k + 1); lemma_vertex3(r, h, n, m, l, i, j + 1, k + 1);
    lemma_order(h, i, i + 1); lemma_order(h, j, j + 1); lemma_order(h, k, k + 1);
}
pub proof fn lemma_tiles3(r: HexMesh, h: real, n: int, m: int, l: int)
    requires is_box(r, h, n, m, l)
    ensures tiles3(r, h, n, m, l)
{
    let cells = r.connectivity@.len() as int; let v = r.vertices@;
    assert forall|c: int| 0 <= c < cells implies {
            let p = #[trigger] low3(r, c);
            box3(r, c, p.x.v(), p.y.v(), p.z.v(), h) && 0real <= p.x.v() && p.x.v() + h <= n as real * h && 0real <= p.y.v() && p.y.v() + h <= m as real * h && 0real <= p.z.v() && p.z.v() + h <= l as real * h
        } by {
        lemma_split3(n, m, l, c);
        let (i, j, k) = (c % n, (c / n) % m, (c / n) / m);
        lemma_cell3(r, h, n, m, l, i, j, k);
        lemma_order(h, i, n); lemma_order(h, j, m); lemma_order(h, k, l); lemma_order(h, -1, i); lemma_order(h, -1, j); lemma_order(h, -1, k);
        assert((-1 + 1) as real * h == 0real) by (nonlinear_arith);
    }
    assert forall|x: real, y: real, z: real| 0real <= x <= n as real * h && 0real <= y <= m as real * h && 0real <= z <= l as real * h implies #[trigger] covered3(r, h, x, y, z) by {
        let i = lemma_find(x, h, n); let j = lemma_find(y, h, m); let k = lemma_find(z, h, l);
        lemma_cell3(r, h, n, m, l, i, j, k);
        assert(within3(r, at3(n, m, i, j, k), h, x, y, z));
    }
    assert forall|c: int, d: int, x: real, y: real, z: real| 0 <= c < cells && 0 <= d < cells && #[trigger] inside3(r, c, h, x, y, z) && #[trigger] inside3(r, d, h, x, y, z) implies c == d by {
        lemma_split3(n, m, l, c); lemma_split3(n, m, l, d);
        lemma_cell3(r, h, n, m, l, c % n, (c / n) % m, (c / n) / m);
        lemma_cell3(r, h, n, m, l, d % n, (d / n) % m, (d / n) / m);
        lemma_same(h, c % n, d % n, x);
        lemma_same(h, (c / n) % m, (d / n) % m, y);
        lemma_same(h, (c / n) / m, (d / n) / m, z);
    }
    let (n1, m1) = (n + 1, m + 1);
    assert forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && (#[trigger] v[a]).x.v() == (#[trigger] v[b]).x.v() && v[a].y.v() == v[b].y.v() && v[a].z.v() == v[b].z.v() implies a == b by {
        lemma_split3(n1, m1, l + 1, a); lemma_split3(n1, m1, l + 1, b);
        lemma_vertex3(r, h, n, m, l, a % n1, (a / n1) % m1, (a / n1) / m1);
        lemma_vertex3(r, h, n, m, l, b % n1, (b / n1) % m1, (b / n1) / m1);
        lemma_distinct(h, a % n1, b % n1);
        lemma_distinct(h, (a / n1) % m1, (b / n1) % m1);
        lemma_distinct(h, (a / n1) / m1, (b / n1) / m1);
    }
    assert forall|a: int| 0 <= a < v.len() implies #[trigger] used3(r, a) by {
        lemma_split3(n1, m1, l + 1, a);
        let (i, j, k) = (a % n1, (a / n1) % m1, (a / n1) / m1);
        let (p, q, s) = (if i == n { i - 1 } else { i }, if j == m { j - 1 } else { j }, if k == l { k - 1 } else { k });
        lemma_cell3(r, h, n, m, l, p, q, s);
        assert(has3(r, at3(n, m, p, q, s), a));
    }
    assert forall|a: int, c: int| #![trigger v[a], low3(r, c)] 0 <= a < v.len() && 0 <= c < cells && within3(r, c, h, v[a].x.v(), v[a].y.v(), v[a].z.v()) implies has3(r, c, a) by {
        lemma_split3(n1, m1, l + 1, a); lemma_split3(n, m, l, c);
        let (i, j, k) = (a % n1, (a / n1) % m1, (a / n1) / m1);
        lemma_vertex3(r, h, n, m, l, i, j, k);
        lemma_cell3(r, h, n, m, l, c % n, (c / n) % m, (c / n) / m);
        lemma_end(h, c % n, i);
        lemma_end(h, (c / n) % m, j);
        lemma_end(h, (c / n) / m, k);
    }
}

// ---- the unit square and the unit box
//@ fn src/mesh/procedural.rs :: create_unit_square_uniform_quad_mesh_2d
//@ instantiate
//@ subst QuadMesh2d<T> => QuadMesh2d
//@ ret r
//@ spec
    requires (cells_per_dim + 1) * (cells_per_dim + 1) <= usize::MAX
    ensures
        cells_per_dim > 0 ==> is_rectangle(r, 0real, 1real, 1real / cells_per_dim as real, cells_per_dim as int, cells_per_dim as int),
        cells_per_dim == 0 ==> r.vertices@.len() == 0 && r.connectivity@.len() == 0,
//@ done
//@ fn src/mesh/procedural.rs :: create_unit_box_uniform_hex_mesh_3d
//@ instantiate
//@ subst HexMesh<T> => HexMesh
//@ ret r
//@ spec
    requires (cells_per_dim + 1) * ((cells_per_dim + 1) * (cells_per_dim + 1)) <= usize::MAX
    ensures
        cells_per_dim > 0 ==> is_box(r, 1real / cells_per_dim as real, cells_per_dim as int, cells_per_dim as int, cells_per_dim as int),
        cells_per_dim == 0 ==> r.vertices@.len() == 0 && r.connectivity@.len() == 0,
//@ done

// ---- splitting quadrilaterals
impl SubSpecImpl<Point2> for Point2 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Point2) -> bool { true }
    open spec fn sub_spec(self, rhs: Point2) -> Self::Output { arbitrary() }
}
impl core::ops::Sub<Point2> for Point2 {
    type Output = Vector2;
    #[verifier::external_body]
    fn sub(self, o: Point2) -> (r: Vector2) ensures r.x.v() == self.x.v() - o.x.v(), r.y.v() == self.y.v() - o.y.v() { unimplemented!() }
}
impl Vector2 {
    #[verifier::external_body]
    pub fn perp(&self, o: &Vector2) -> (r: T) ensures r.v() == perp(self.x.v(), self.y.v(), o.x.v(), o.y.v()) { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn perp(a: real, b: real, c: real, d: real) -> real { a * d - b * c }
pub struct Quad2d(pub [Point2; 4]);
// a square of side h, counterclockwise from its lower left corner
pub open spec fn is_square(q: [Point2; 4], h: real) -> bool {
    &&& h > 0real
    &&& q[1].x.v() == q[0].x.v() + h && q[1].y.v() == q[0].y.v()
    &&& q[2].x.v() == q[0].x.v() + h && q[2].y.v() == q[0].y.v() + h
    &&& q[3].x.v() == q[0].x.v() && q[3].y.v() == q[0].y.v() + h
}
pub open spec fn cross(a: Point2, b: Point2, c: Point2) -> real { perp(c.x.v() - b.x.v(), c.y.v() - b.y.v(), a.x.v() - b.x.v(), a.y.v() - b.y.v()) }
pub open spec fn twice_area(q: [Point2; 4]) -> real { perp(q[2].x.v() - q[0].x.v(), q[2].y.v() - q[0].y.v(), q[3].x.v() - q[1].x.v(), q[3].y.v() - q[1].y.v()) }
// the interior angle at corner i is larger than half a turn: the turn at i is against the orientation of the quadrilateral
pub open spec fn concave_at(q: [Point2; 4], i: int) -> bool { cross(q[(i + 3) % 4], q[i], q[(i + 1) % 4]) * twice_area(q) < 0real }
pub proof fn lemma_square(q: [Point2; 4], h: real)
    requires is_square(q, h)
    ensures forall|i: int| 0 <= i < 4 ==> !#[trigger] concave_at(q, i)
{
    assert(h * h > 0real) by (nonlinear_arith) requires h > 0real;
    let z = 0real;
    assert(z * h == z && h * z == z && (z - h) * (z - h) == h * h && h * (z - h) == z - h * h && (z - h) * h == z - h * h && (z - h) * z == z && z * (z - h) == z && z * z == z) by (nonlinear_arith) requires z == 0real;
    reveal(perp);
    assert(twice_area(q) == h * h + h * h);
    assert forall|i: int| 0 <= i < 4 implies !#[trigger] concave_at(q, i) by {
        let (a, b) = (cross(q[(i + 3) % 4], q[i], q[(i + 1) % 4]), twice_area(q));
        assert(a == h * h);
        assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real;
    }
}
impl Quad2d {
//@ fn fenris-geometry/src/primitives/quad.rs impl<T> Quad2d<T> :: concave_corner
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        r matches Some(i) ==> i < 4 && concave_at(self.0, i as int),
        r is None ==> forall|i: int| 0 <= i < 4 ==> !#[trigger] concave_at(self.0, i),
//@ loop 0 it
    invariant forall|i: int| 1 <= i <= it.index() && i < 4 || i == 0 && it.index() == 4 ==> !#[trigger] concave_at(self.0, i)
//@ loop-start 0
    proof {
        let i0 = it.index(); let k = (i0 + 1) % 4;
        assert((k + 3) % 4 == i0 && (k + 1) % 4 == (i0 + 2) % 4);
    }
//@ done
//@ fn fenris-geometry/src/primitives/quad.rs impl<T> Quad2d<T> :: split_into_triangle_connectivities
//@ ret r
//@ spec
    ensures splits(self.0, r)
//@ done
}
pub open spec fn tri(a: int, b: int, c: int, t: [usize; 3]) -> bool { t[0] == a && t[1] == b && t[2] == c }
// the two triangles on either side of a diagonal, keeping the orientation; the diagonal ends in a concave corner if there is one
pub open spec fn splits_at(i: int, r: ([usize; 3], [usize; 3])) -> bool { tri((i + 2) % 4, (i + 3) % 4, i, r.0) && tri((i + 2) % 4, i, (i + 1) % 4, r.1) }
pub open spec fn splits(q: [Point2; 4], r: ([usize; 3], [usize; 3])) -> bool {
    ||| exists|i: int| 0 <= i < 4 && #[trigger] concave_at(q, i) && splits_at(i, r)
    ||| (forall|i: int| 0 <= i < 4 ==> !#[trigger] concave_at(q, i)) && tri(0, 1, 2, r.0) && tri(0, 2, 3, r.1)
}
pub proof fn lemma_in_range(q: [Point2; 4], r: ([usize; 3], [usize; 3]))
    requires splits(q, r)
    ensures forall|k: int| 0 <= k < 3 ==> (#[trigger] r.0[k]) < 4 && r.1[k] < 4, forall|k: int| 0 <= k < 3 ==> r.0[k] < 4 && (#[trigger] r.1[k]) < 4
{ }
pub struct Tri3d2Connectivity(pub [usize; 3]);
pub struct TriangleMesh2d { pub vertices: Vec<Point2>, pub connectivity: Vec<Tri3d2Connectivity> }
impl TriangleMesh2d {
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: from_vertices_and_connectivity
//@ subst Vec<OPoint<T, D>> => Vec<Point2>
//@ subst Vec<Connectivity> => Vec<Tri3d2Connectivity>
//@ ret r
//@ spec
    ensures r.vertices@ == vertices@, r.connectivity@ == connectivity@
//@ done
}
pub open spec fn corners(v: Seq<Point2>, c: [usize; 4]) -> [Point2; 4] { [v[c[0] as int], v[c[1] as int], v[c[2] as int], v[c[3] as int]] }
pub open spec fn in_range(c: [usize; 4], n: int) -> bool { c[0] < n && c[1] < n && c[2] < n && c[3] < n }
impl Quad4d2Connectivity {
    // `Connectivity::cell`
    #[verifier::external_body]
    pub fn cell(&self, v: &[Point2]) -> (r: Option<Quad2d>)
        ensures in_range(self.0, v@.len() as int) ==> (r matches Some(q) && q.0 == corners(v@, self.0)) { unimplemented!() }
}
// `iter().flat_map(f).collect()` for functions that return two items (written as a pair)
#[verifier::external_body]
pub fn flat_map_pairs<'a, F: Fn(&'a Quad4d2Connectivity) -> (Tri3d2Connectivity, Tri3d2Connectivity)>(s: &'a [Quad4d2Connectivity], f: F) -> (r: Vec<Tri3d2Connectivity>)
    requires forall|k: int| 0 <= k < s@.len() ==> f.requires((&#[trigger] s@[k],))
    ensures r@.len() == 2 * s@.len(), forall|k: int| 0 <= k < s@.len() ==> f.ensures((&#[trigger] s@[k],), (r@[2 * k], r@[2 * k + 1]))
{ unimplemented!() }
pub open spec fn picks(c: [usize; 4], i: [usize; 3], t: Tri3d2Connectivity) -> bool { t.0[0] == c[i[0] as int] && t.0[1] == c[i[1] as int] && t.0[2] == c[i[2] as int] }
pub open spec fn halves(v: Seq<Point2>, c: [usize; 4], t: Tri3d2Connectivity, u: Tri3d2Connectivity) -> bool {
    exists|r: ([usize; 3], [usize; 3])| #[trigger] splits(corners(v, c), r) && picks(c, r.0, t) && picks(c, r.1, u)
}
pub open spec fn halved(m: QuadMesh2d, r: TriangleMesh2d) -> bool {
    &&& r.vertices@ == m.vertices@
    &&& r.connectivity@.len() == 2 * m.connectivity@.len()
    &&& forall|k: int| 0 <= k < m.connectivity@.len() ==> halves(m.vertices@, (#[trigger] m.connectivity@[k]).0, r.connectivity@[2 * k], r.connectivity@[2 * k + 1])
}
impl QuadMesh2d {
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: vertices
//@ subst &[OPoint<T, D>] => &[Point2]
//@ ret r
//@ spec
    ensures r@ == self.vertices@
//@ done
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: connectivity
//@ subst &[Connectivity] => &[Quad4d2Connectivity]
//@ ret r
//@ spec
    ensures r@ == self.connectivity@
//@ done
//@ fn src/mesh.rs impl<T> QuadMesh2d<T> :: split_into_triangles
//@ subst TriangleMesh2d<T> => TriangleMesh2d
//@ subst self .connectivity() .iter() .flat_map( => flat_map_pairs(self.connectivity(), 
//@ subst let Quad4d2Connectivity(c) = connectivity; => let c = &connectivity.0;
//@ subst once(tri1_global).chain(once(tri2_global)) => (tri1_global, tri2_global)
//@ subst .collect(); => ;
//@ ret r
//@ closures 1
//@ closure 0 &Quad4d2Connectivity ; t: (Tri3d2Connectivity, Tri3d2Connectivity)
    requires in_range(a0.0, self.vertices@.len() as int)
    ensures halves(self.vertices@, a0.0, t.0, t.1)
//@ spec
    requires valid2(self)
    ensures halved(self, r)
//@ done
}

pub open spec fn is_triangle(r: TriangleMesh2d, t: int, x: real, y: real, h: real, upper: bool) -> bool {
    let v = r.vertices@; let q = r.connectivity@[t].0;
    &&& q[0] < v.len() && q[1] < v.len() && q[2] < v.len()
    &&& v[q[0] as int].x.v() == x && v[q[0] as int].y.v() == y
    &&& if upper { v[q[1] as int].x.v() == x + h && v[q[1] as int].y.v() == y + h && v[q[2] as int].x.v() == x && v[q[2] as int].y.v() == y + h }
        else { v[q[1] as int].x.v() == x + h && v[q[1] as int].y.v() == y && v[q[2] as int].x.v() == x + h && v[q[2] as int].y.v() == y + h }
}
pub open spec fn lowt(r: TriangleMesh2d, t: int) -> (real, real) { (r.vertices@[r.connectivity@[t].0[0] as int].x.v(), r.vertices@[r.connectivity@[t].0[0] as int].y.v()) }
// the triangle of the lower left, lower right and upper right corner of its square, or of the lower left, upper right and upper left one
pub open spec fn withint(r: TriangleMesh2d, t: int, h: real, x: real, y: real) -> bool {
    let (a, b) = (x - lowt(r, t).0, y - lowt(r, t).1);
    0real <= a <= h && 0real <= b <= h && if t % 2 == 0 { b <= a } else { a <= b }
}
pub open spec fn insidet(r: TriangleMesh2d, t: int, h: real, x: real, y: real) -> bool {
    let (a, b) = (x - lowt(r, t).0, y - lowt(r, t).1);
    0real < a < h && 0real < b < h && if t % 2 == 0 { b < a } else { a < b }
}
pub open spec fn hast(r: TriangleMesh2d, t: int, v: int) -> bool { let q = r.connectivity@[t].0; q[0] == v || q[1] == v || q[2] == v }
pub open spec fn usedt(r: TriangleMesh2d, a: int) -> bool { exists|t: int| 0 <= t < r.connectivity@.len() && #[trigger] hast(r, t, a) }
pub open spec fn coveredt(r: TriangleMesh2d, h: real, x: real, y: real) -> bool { exists|t: int| 0 <= t < r.connectivity@.len() && #[trigger] withint(r, t, h, x, y) }
pub open spec fn tilest(r: TriangleMesh2d, x0: real, y0: real, h: real, n: int, m: int) -> bool {
    let cells = r.connectivity@.len(); let v = r.vertices@;
    &&& forall|t: int| 0 <= t < cells ==> is_triangle(r, t, (#[trigger] lowt(r, t)).0, lowt(r, t).1, h, t % 2 == 1) && x0 <= lowt(r, t).0 && lowt(r, t).0 + h <= x0 + n as real * h && y0 - m as real * h <= lowt(r, t).1 && lowt(r, t).1 + h <= y0
    &&& forall|x: real, y: real| x0 <= x <= x0 + n as real * h && y0 - m as real * h <= y <= y0 ==> #[trigger] coveredt(r, h, x, y)
    &&& forall|c: int, d: int, x: real, y: real| 0 <= c < cells && 0 <= d < cells && #[trigger] insidet(r, c, h, x, y) && #[trigger] insidet(r, d, h, x, y) ==> c == d
    &&& forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && (#[trigger] v[a]).x.v() == (#[trigger] v[b]).x.v() && v[a].y.v() == v[b].y.v() ==> a == b
    &&& forall|a: int| 0 <= a < v.len() ==> #[trigger] usedt(r, a)
    &&& forall|a: int, t: int| #![trigger v[a], lowt(r, t)] 0 <= a < v.len() && 0 <= t < cells && withint(r, t, h, v[a].x.v(), v[a].y.v()) ==> hast(r, t, a)
}
pub open spec fn half_of(m: QuadMesh2d, r: TriangleMesh2d, t: int) -> bool {
    let q = m.connectivity@[t / 2].0; let p = r.connectivity@[t].0;
    &&& p[0] == q[0] && if t % 2 == 0 { p[1] == q[1] && p[2] == q[2] } else { p[1] == q[2] && p[2] == q[3] }
}
pub proof fn lemma_half(m: QuadMesh2d, r: TriangleMesh2d, x0: real, y0: real, h: real, nx: int, ny: int, t: int)
    requires is_rectangle(m, x0, y0, h, nx, ny), halved(m, r), 0 <= t < r.connectivity@.len()
    ensures 0 <= t / 2 < m.connectivity@.len(), half_of(m, r, t), lowt(r, t) == low2(m, t / 2), box2(m, t / 2, low2(m, t / 2).0, low2(m, t / 2).1, h)
{
    let c = t / 2;
    assert(t == 2 * c || t == 2 * c + 1);
    lemma_tiles2(m, x0, y0, h, nx, ny);
    let v = m.vertices@; let q = m.connectivity@[c].0;
    assert(low2(m, c) == low2(m, c));
    assert(box2(m, c, low2(m, c).0, low2(m, c).1, h));
    lemma_square(corners(v, q), h);
    assert(halves(v, q, r.connectivity@[2 * c], r.connectivity@[2 * c + 1]));
    let s = choose|s: ([usize; 3], [usize; 3])| #[trigger] splits(corners(v, q), s) && picks(q, s.0, r.connectivity@[2 * c]) && picks(q, s.1, r.connectivity@[2 * c + 1]);
}
pub proof fn lemma_tilest(m: QuadMesh2d, r: TriangleMesh2d, x0: real, y0: real, h: real, nx: int, ny: int)
    requires is_rectangle(m, x0, y0, h, nx, ny), halved(m, r)
    ensures tilest(r, x0, y0, h, nx, ny)
{
    let cells = r.connectivity@.len() as int; let v = r.vertices@;
    lemma_tiles2(m, x0, y0, h, nx, ny);
    assert forall|t: int| 0 <= t < cells implies is_triangle(r, t, (#[trigger] lowt(r, t)).0, lowt(r, t).1, h, t % 2 == 1) && x0 <= lowt(r, t).0 && lowt(r, t).0 + h <= x0 + nx as real * h && y0 - ny as real * h <= lowt(r, t).1 && lowt(r, t).1 + h <= y0 by {
        lemma_half(m, r, x0, y0, h, nx, ny, t);
    }
    assert forall|x: real, y: real| x0 <= x <= x0 + nx as real * h && y0 - ny as real * h <= y <= y0 implies #[trigger] coveredt(r, h, x, y) by {
        assert(covered2(m, h, x, y));
        let c = choose|c: int| 0 <= c < m.connectivity@.len() && #[trigger] within2(m, c, h, x, y);
        let t = if y - low2(m, c).1 <= x - low2(m, c).0 { 2 * c } else { 2 * c + 1 };
        lemma_half(m, r, x0, y0, h, nx, ny, t);
        assert(withint(r, t, h, x, y));
    }
    assert forall|c: int, d: int, x: real, y: real| 0 <= c < cells && 0 <= d < cells && #[trigger] insidet(r, c, h, x, y) && #[trigger] insidet(r, d, h, x, y) implies c == d by {
        lemma_half(m, r, x0, y0, h, nx, ny, c);
        lemma_half(m, r, x0, y0, h, nx, ny, d);
        assert(inside2(m, c / 2, h, x, y) && inside2(m, d / 2, h, x, y));
    }
    assert forall|a: int| 0 <= a < v.len() implies #[trigger] usedt(r, a) by {
        assert(used2(m, a));
        let c = choose|c: int| 0 <= c < m.connectivity@.len() && #[trigger] has2(m, c, a);
        lemma_half(m, r, x0, y0, h, nx, ny, 2 * c);
        lemma_half(m, r, x0, y0, h, nx, ny, 2 * c + 1);
        assert(hast(r, 2 * c, a) || hast(r, 2 * c + 1, a));
    }
    assert forall|a: int, t: int| #![trigger v[a], lowt(r, t)] 0 <= a < v.len() && 0 <= t < cells && withint(r, t, h, v[a].x.v(), v[a].y.v()) implies hast(r, t, a) by {
        lemma_half(m, r, x0, y0, h, nx, ny, t);
        assert(within2(m, t / 2, h, v[a].x.v(), v[a].y.v()));
        assert(m.vertices@[a] == v[a]);
        assert(has2(m, t / 2, a));
    }
}
//@ fn src/mesh/procedural.rs :: create_unit_square_uniform_tri_mesh_2d
//@ instantiate
//@ subst TriangleMesh2d<T> => TriangleMesh2d
//@ ret r
//@ spec
    requires (cells_per_dim + 1) * (cells_per_dim + 1) <= usize::MAX
    ensures
        cells_per_dim > 0 ==> tilest(r, 0real, 1real, 1real / cells_per_dim as real, cells_per_dim as int, cells_per_dim as int) && r.connectivity@.len() == 2 * (cells_per_dim * cells_per_dim),
        cells_per_dim == 0 ==> r.vertices@.len() == 0 && r.connectivity@.len() == 0,
//@ tail res
    proof {
        let n = cells_per_dim as int; let h = 1real / cells_per_dim as real;
        if n > 0 { 
            assert(exists|q: QuadMesh2d| is_rectangle(q, 0real, 1real, h, n, n) && #[trigger] halved(q, res));
            let q = choose|q: QuadMesh2d| is_rectangle(q, 0real, 1real, h, n, n) && #[trigger] halved(q, res);
            lemma_tilest(q, res, 0real, 1real, h, n, n); 
        }
    }
//@ done
fn main() {}
}
