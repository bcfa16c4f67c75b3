//! C17: clipping of convex polygons and segments.
use contracts::rng::Rng;
use fenris::geometry::*;
use fenris::nalgebra::{Point2, Point3, Unit, Vector2, Vector3};
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

fn p2<T: SReal>(cx: &mut Cx<T>, n: &str) -> Point2<T> {
    let v = cx.reals(n, 2);
    Point2::new(v[0], v[1])
}
fn xy<T: SReal>(p: &Point2<T>) -> Vec<T> {
    vec![p.x, p.y]
}
fn cross<T: SReal>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>) -> T {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
/// An arbitrary half plane {x | n (x - x0) <= 0}.
fn half_plane<T: SReal>(cx: &mut Cx<T>) -> (HalfPlane<T>, Point2<T>, Vector2<T>) {
    let x0 = p2(cx, "x0");
    let v = cx.reals("n", 2);
    let mut n = Vector2::new(v[0], v[1]);
    if T::SYMBOLIC {
        cx.assume_eq(n.dot(&n), T::one());
    } else {
        let l = n.norm();
        cx.assume_gt(l, T::zero());
        n /= l;
    }
    (HalfPlane::from_point_and_normal(x0, Unit::new_unchecked(n)), x0, n)
}
/// The clipped boundary: s[i] >= 0 states that vertex i is inside; crossings at vertices can be reported twice.
fn clipped<T: SReal>(v: &[Vec<T>], s: &[T], repeat: bool) -> Vec<Vec<T>> {
    let n = v.len();
    let mut out = vec![];
    if n == 1 {
        return if s[0] >= T::zero() { v.to_vec() } else { out };
    }
    for i in 0..n {
        let j = (i + 1) % n;
        let (a, b) = (s[i] >= T::zero(), s[j] >= T::zero());
        if a {
            out.push(v[i].clone());
        }
        if a != b {
            let at_vertex = if a { s[i] == T::zero() } else { s[j] == T::zero() };
            if !at_vertex || repeat {
                let t = s[i] / (s[i] - s[j]);
                out.push(v[i].iter().zip(&v[j]).map(|(x, y)| *x + t * (*y - *x)).collect());
            }
        }
    }
    out
}
fn compare<T: SReal>(cx: &mut Cx<T>, got: &[Vec<T>], v: &[Vec<T>], s: &[T]) {
    let mut want = clipped(v, s, true);
    if want.len() != got.len() {
        want = clipped(v, s, false);
    }
    cx.ensure("number of vertices", want.len() == got.len());
    for (g, w) in got.iter().zip(&want) {
        cx.ensure_eqs("vertex", g, w);
    }
}
fn clip_polygon<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Point2<T>> = (0..n).map(|_| p2(cx, "v")).collect();
    let (h, x0, m) = half_plane(cx);
    let s: Vec<T> = v.iter().map(|p| (x0 - p).dot(&m)).collect();
    s.iter().for_each(|s| cx.view("s", *s));
    let r = ConvexPolygon::from_vertices(v.clone()).intersect_halfplane(&h);
    compare(cx, &r.vertices().iter().map(xy).collect::<Vec<_>>(), &v.iter().map(xy).collect::<Vec<_>>(), &s);
}
fn clip_polygon3<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Point3<T>> = (0..n).map(|_| Point3::from_slice(&cx.reals("v", 3))).collect();
    let x0 = Point3::from_slice(&cx.reals("x0", 3));
    let mut m = Vector3::from_column_slice(&cx.reals("n", 3));
    if T::SYMBOLIC {
        cx.assume_eq(m.dot(&m), T::one());
    } else {
        let l = m.norm();
        cx.assume_gt(l, T::zero());
        m /= l;
    }
    let h = HalfSpace::from_point_and_normal(x0, Unit::new_unchecked(m));
    let s: Vec<T> = v.iter().map(|p| (x0 - p).dot(&m)).collect();
    s.iter().for_each(|s| cx.view("s", *s));
    let r = SimplePolygon3d::from_vertices(v.clone()).intersect_half_space(&h);
    let xyz = |p: &Point3<T>| vec![p.x, p.y, p.z];
    if n == 1 {
        // the only edge of a point is the point
        let inside = s[0] >= T::zero();
        cx.ensure("a point is kept if it is inside", r.vertices().len() == inside as usize);
        for p in r.vertices() {
            cx.ensure_eqs("vertex", &xyz(p), &xyz(&v[0]));
        }
        return;
    }
    compare(cx, &r.vertices().iter().map(xyz).collect::<Vec<_>>(), &v.iter().map(xyz).collect::<Vec<_>>(), &s);
}
fn clip_segment<T: SReal>(cx: &mut Cx<T>) {
    let (a, b) = (p2(cx, "a"), p2(cx, "b"));
    let (h, x0, m) = half_plane(cx);
    let (sa, sb) = ((x0 - a).dot(&m), (x0 - b).dot(&m));
    cx.view("sa", sa);
    cx.view("sb", sb);
    let t = cx.real_in("t", 0, 1);
    let seg = LineSegment2d::from_end_points(a, b);
    // inside at parameter t
    let inside = sa + t * (sb - sa);
    match seg.intersect_half_plane_parametric(&h) {
        None => cx.ensure_gt("nothing is reported only if every point is outside", T::zero(), inside),
        Some([t0, t1]) => {
            cx.ensure_le("the part is within the segment", T::zero(), t0);
            cx.ensure_le("the part is an interval", t0, t1);
            cx.ensure_le("the part is within the segment", t1, T::one());
            if t >= t0 && t <= t1 {
                cx.ensure_le("points of the part are inside", T::zero(), inside);
            } else {
                cx.ensure_gt("other points of the segment are outside", T::zero(), inside);
            }
            let part = seg.intersect_half_plane(&h);
            cx.ensure("the part is a segment", part.is_some());
            if let Some(p) = part {
                cx.ensure_eqs("start of the part", &xy(p.start()), &xy(&(a + (b - a) * t0)));
                cx.ensure_eqs("end of the part", &xy(p.end()), &xy(&(a + (b - a) * t1)));
            }
        }
    }
}
/// The half planes of a polygon are those to the left of its sides.
fn half_planes<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Point2<T>> = (0..n).map(|_| p2(cx, "v")).collect();
    let p = p2(cx, "p");
    let poly = ConvexPolygon::from_vertices(v.clone());
    let mut hs = poly.half_planes();
    let mut all = true;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        let c = cross(&a, &b, &p);
        let d = b - a;
        // the squared length decides whether there is a side
        cx.view("c", c);
        if a == b {
            continue;
        }
        cx.local(|cx| {
            cx.name("dx", d.x);
            cx.name("dy", d.y);
            cx.lemma_gt("lemma: length of a side", d.dot(&d), T::zero());
        });
        cx.name("dd", d.dot(&d));
        if !T::SYMBOLIC {
            // executions stay clear of the boundary, where rounding decides
            cx.assume_gt(c * c, T::int(1) / T::int(1000000));
        }
        let h = match hs.next() {
            Some(h) => h,
            None => return cx.ensure("every side has a half plane", false),
        };
        let inside = c >= T::zero();
        all &= inside;
        cx.ensure("the half plane is to the left of the side", h.contains_point(&p) == inside);
        cx.ensure_eqs("the half plane starts at the side", &xy(h.point()), &xy(&a));
        cx.ensure_eq("its normal is orthogonal to the side", h.normal().dot(&d), T::zero());
        cx.ensure_eq("its normal has unit length", h.normal().dot(h.normal()), T::one());
    }
    cx.ensure("there are no other half planes", hs.next().is_none());
    drop(hs);
    if n != 2 && n != 1 {
        cx.ensure("a polygon contains the points to the left of all sides", poly.contains_point(&p) == (all && n > 0));
    } else if n == 1 {
        cx.ensure("a point contains itself", poly.contains_point(&p) == (v[0] == p));
    }
}
/// Area vector and area of a polygon in space, which need not be planar.
fn area_in_space<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Point3<T>> = (0..n).map(|_| Point3::new(cx.real("x"), cx.real("y"), cx.real("z"))).collect();
    let p = SimplePolygon3d::from_vertices(v.clone());
    let a = p.area_vector();
    let mut twice = Vector3::<T>::zeros();
    for i in 1..n.max(2) - 1 {
        twice += (&v[i] - &v[0]).cross(&(&v[i + 1] - &v[0]));
    }
    for k in 0..3 {
        cx.ensure_eq("area vector is that of a fan of triangles", a[k] + a[k], twice[k]);
    }
    let s = p.area();
    cx.ensure_le("area is not negative", T::zero(), s);
    cx.ensure_eq("area is the length of the area vector", s * s, a.dot(&a));
    for i in 0..n {
        cx.ensure("vertices in order", p.vertices()[i] == v[i]);
    }
}
fn fan<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Point2<T>> = (0..n).map(|_| p2(cx, "v")).collect();
    let q = p2(cx, "q");
    let poly = ConvexPolygon::from_vertices(v.clone());
    let two = T::one() + T::one();
    let total = (0..n).fold(T::zero(), |s, i| s + v[i].x * v[(i + 1) % n].y - v[i].y * v[(i + 1) % n].x);
    let simple = SimplePolygon2d::from_vertices(v.clone());
    cx.ensure_eq("area of a polygon", two * simple.signed_area(), total);
    let area = |t: &[Triangle2d<T>]| t.iter().fold(T::zero(), |s, t| s + cross(&t.0[0], &t.0[1], &t.0[2]));
    let a: Vec<_> = poly.triangulate().collect();
    let b = poly.triangulate_into_vec();
    let c = simple.assume_convex().triangulate();
    let d = simple.assume_convex().triangulate_at_point(&q);
    for (name, t, k) in [("fan of a convex polygon", &a, n.max(2) - 2), ("fan in a vector", &b, n.max(2) - 2), ("fan of a simple polygon", &c, n.max(2) - 2), ("fan around a point", &d, n)] {
        cx.ensure(&format!("{}: number of triangles", name), t.len() == k);
        cx.ensure_eq(&format!("{}: area", name), area(t), total);
        // consecutive triangles share a side, and the outer sides are those of the polygon
        for (i, t) in t.iter().enumerate() {
            let (apex, j) = if k == n { (q, i) } else { (v[0], i + 1) };
            for (x, y) in t.0.iter().zip([apex, v[j], v[(j + 1) % n]]) {
                cx.ensure_eqs(&format!("{}: triangle", name), &xy(x), &xy(&y));
            }
        }
    }
    let back = SimplePolygon2d::from(poly);
    cx.ensure("conversion keeps the number of vertices", back.vertices().len() == n);
    for (x, y) in back.vertices().iter().zip(&v) {
        cx.ensure_eqs("conversion keeps the vertices", &xy(x), &xy(y));
    }
}
const TRIANGLE: [[i64; 2]; 3] = [[0, 0], [4, 1], [1, 3]];
fn fixed<T: SReal>(v: &[[i64; 2]]) -> Vec<Point2<T>> {
    v.iter().map(|p| Point2::new(T::int(p[0]), T::int(p[1]))).collect()
}
/// A segment with one arbitrary end and a fixed triangle: the result is what lies in all half planes.
fn segment_triangle<T: SReal>(cx: &mut Cx<T>) {
    let q = fixed::<T>(&TRIANGLE);
    let a = Point2::new(T::int(2), cx.real("ay"));
    let b = Point2::new(T::int(-1), T::int(1));
    let t = cx.real_in("t", 0, 1);
    let r = LineSegment2d::from_end_points(a, b).intersect_polygon(&ConvexPolygon::from_vertices(q.clone()));
    let p = a + (b - a) * t;
    let inside = (0..3).all(|i| cross(&q[i], &q[(i + 1) % 3], &p) >= T::zero());
    match r {
        None => cx.ensure("nothing is reported only if no point is inside", !inside),
        Some(r) => {
            let (d, dd) = (b - a, (b - a).dot(&(b - a)));
            let (u, w) = ((r.start() - a).dot(&d), (r.end() - a).dot(&d));
            cx.ensure_eq("start lies on the line", (r.start() - a).perp(&d), T::zero());
            cx.ensure_eq("end lies on the line", (r.end() - a).perp(&d), T::zero());
            let within = t * dd >= u && t * dd <= w;
            cx.ensure("exactly the points of the part are inside", within == inside);
        }
    }
}
/// A translated triangle and a fixed one.
fn triangle_triangle<T: SReal>(cx: &mut Cx<T>, which: usize) {
    let q = fixed::<T>(&TRIANGLE);
    let shapes: [&[[i64; 2]]; 3] = [&[[0, 0], [2, 0], [0, 2]], &[[0, 0], [3, 1], [3, 2], [1, 2]], &[[0, 0], [-1, -3], [6, 0]]];
    let dx = cx.real("dx");
    let p: Vec<Point2<T>> = fixed::<T>(shapes[which]).iter().map(|p| Point2::new(p.x + dx, p.y)).collect();
    let r = ConvexPolygon::from_vertices(p.clone()).intersect_polygon(&ConvexPolygon::from_vertices(q.clone()));
    let mut v: Vec<Vec<T>> = p.iter().map(xy).collect();
    for i in 0..3 {
        let (a, b) = (q[i], q[(i + 1) % 3]);
        let s: Vec<T> = v.iter().map(|p| cross(&a, &b, &Point2::new(p[0], p[1]))).collect();
        v = clipped(&v, &s, true);
    }
    let area = |v: &[Vec<T>]| (0..v.len()).fold(T::zero(), |s, i| s + v[i][0] * v[(i + 1) % v.len()][1] - v[i][1] * v[(i + 1) % v.len()][0]);
    let got: Vec<Vec<T>> = r.vertices().iter().map(xy).collect();
    cx.ensure_eq("area of the intersection", area(&got), area(&v));
    for g in got.iter() {
        let g = Point2::new(g[0], g[1]);
        for i in 0..3 {
            cx.ensure_le("vertices lie in the fixed triangle", T::zero(), cross(&q[i], &q[(i + 1) % 3], &g));
        }
        for i in 0..p.len() {
            cx.ensure_le("vertices lie in the moving polygon", T::zero(), cross(&p[i], &p[(i + 1) % p.len()], &g));
        }
    }
}
/// A random convex polygon with integer vertices in counter-clockwise order (convex hull of random points).
fn hull(r: &mut Rng, n: usize, w: i64) -> Vec<[i64; 2]> {
    let mut p: Vec<[i64; 2]> = (0..n).map(|_| [r.int(-w, w), r.int(-w, w)]).collect();
    p.sort();
    p.dedup();
    let c = |a: [i64; 2], b: [i64; 2], c: [i64; 2]| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    let half = |it: &mut dyn Iterator<Item = [i64; 2]>| {
        let mut h: Vec<[i64; 2]> = vec![];
        for q in it {
            while h.len() >= 2 && c(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut p.iter().copied());
    lo.extend(half(&mut p.iter().rev().copied()));
    lo
}
fn icross(a: [i64; 2], b: [i64; 2], c: [i64; 2]) -> i64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
/// Any polygon with n vertices: its vertices, edges, box, orientation and images.
fn polygon_parts<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Point2<T>> = (0..n).map(|i| p2(cx, &format!("v{}_", i))).collect();
    let mut p = SimplePolygon2d::from_vertices(v.clone());
    let all = |p: &[Point2<T>]| p.iter().flat_map(xy).collect::<Vec<T>>();
    cx.ensure("number of vertices", SimplePolygon2d::num_vertices(&p) == n && Polygon2d::num_vertices(&p) == n && SimplePolygon2d::num_edges(&p) == n && Polygon2d::num_edges(&p) == n);
    cx.ensure_eqs("vertices", &all(SimplePolygon2d::vertices(&p)), &all(&v));
    cx.ensure_eqs("vertices", &all(Polygon2d::vertices(&p)), &all(&v));
    let edges: Vec<_> = p.edge_iter().collect();
    cx.ensure("number of edges", edges.len() == n && p.get_edge(n).is_none());
    for i in 0..n {
        let e = p.get_edge(i).unwrap();
        for e in [&edges[i], &e] {
            cx.ensure_eqs("edge", &all(&[*e.start(), *e.end()]), &all(&[v[i], v[(i + 1) % n]]));
        }
    }
    for i in 0..if n < 4 { 2 } else { 0 } {
        let b = p.bounding_box();
        for x in &v {
            cx.ensure_le("the polygon is in its box", b.min()[i], x[i]);
            cx.ensure_le("the polygon is in its box", x[i], b.max()[i]);
        }
        cx.ensure("the box is the smallest", v.iter().any(|x| x[i] == b.min()[i]) && v.iter().any(|x| x[i] == b.max()[i]));
    }
    let twice = (0..n).fold(T::zero(), |s, i| s + v[i].x * v[(i + 1) % n].y - v[i].y * v[(i + 1) % n].x);
    match p.orientation() {
        Orientation::Counterclockwise => cx.ensure_gt("counterclockwise", twice, T::zero()),
        Orientation::Clockwise => cx.ensure_le("clockwise", twice, T::zero()),
    }
    p.transform_vertices(|v| v.iter_mut().for_each(|v| *v = Point2::new(v.y, -v.x)));
    cx.ensure_eqs("transformed vertices", &all(SimplePolygon2d::vertices(&p)), &v.iter().flat_map(|v| [v.y, -v.x]).collect::<Vec<_>>());
    if n == 3 {
        let c = ConvexPolygon::from(Triangle([v[0], v[1], v[2]]));
        cx.ensure_eqs("a triangle as a polygon", &all(c.vertices()), &all(&v));
    }
}

fn main() {
    let mut v: Vec<Item> = vec![];
    for n in 0..6 {
        v.push(dual!(format!("C17: polygon with {} vertices clipped by a half plane", n), ["ConvexPolygon::intersect_halfplane", "HalfPlane::surface", "Line2d::intersect"], format!("{} vertices", n), |cx, T| clip_polygon::<T>(cx, n)));
    }
    for n in 0..6 {
        v.push(dual!(format!("C17: polygon with {} vertices in space clipped by a half space", n), ["SimplePolygon3d::intersect_half_space", "HalfSpace::plane", "Line3d::intersect_plane_parametric"], format!("{} vertices", n), |cx, T| clip_polygon3::<T>(cx, n)));
    }
    v.push(dual!("C17: segment clipped by a half plane", ["LineSegment2d::{intersect_half_plane_parametric,intersect_half_plane,intersect_line_parametric,segment_from_parameters}"], "", |cx, T| clip_segment::<T>(cx)));
    for n in 0..5 {
        v.push(dual!(format!("C17: half planes of a polygon with {} vertices", n), ["ConvexPolygon::{half_planes,edges,contains_point}"], format!("{} vertices", n), |cx, T| half_planes::<T>(cx, n)));
    }
    for n in 0..8 {
        v.push(dual!(format!("C17: triangulation of a polygon with {} vertices", n), ["ConvexPolygon::{triangulate,triangulate_into_vec}", "Convex::{triangulate,triangulate_at_point}", "Polygon2d::signed_area"], format!("{} vertices", n), |cx, T| fan::<T>(cx, n)));
    }
    for n in 0..7 {
        v.push(dual!(format!("C17: area of a polygon with {} vertices in space", n), ["SimplePolygon3d::{area_vector,area,from_vertices,vertices}"], format!("{} vertices", n), |cx, T| area_in_space::<T>(cx, n)));
    }
    v.push(dual!("C17: part of a segment in a triangle", ["LineSegment2d::intersect_polygon"], "fixed triangle, one of four coordinates of the segment arbitrary", |cx, T| segment_triangle::<T>(cx)));
    for n in 0..3 {
        v.push(dual!(format!("C17: intersection of a moving polygon and a triangle, case {}", n), ["ConvexPolygon::intersect_polygon"], "fixed shapes, arbitrary shift along the first axis", |cx, T| triangle_triangle::<T>(cx, n)));
    }
    v.push(bounded("C17: intersection of polygons", &["ConvexPolygon::intersect_polygon", "LineSegment2d::intersect_polygon", "ConvexPolygon::contains_point"], "random convex polygons with up to 8 integer vertices, also empty ones, and all points of a grid", |e| {
        let mut r = Rng(e.seed);
        for k in 0..if e.thorough { 20000 } else { 2000 } {
            let (mut p, mut q) = (hull(&mut r, 3 + k % 6, 6), hull(&mut r, 3 + k % 5, 6));
            if k % 20 == 0 {
                p.clear();
            }
            if k % 20 == 1 {
                q.clear();
            }
            if p.len() == 1 || p.len() == 2 || q.len() == 1 || q.len() == 2 {
                continue;
            }
            e.case(|| format!("{:?} and {:?}", p, q), || {
                let f = |v: &[[i64; 2]]| ConvexPolygon::from_vertices(v.iter().map(|x| Point2::new(x[0] as f64, x[1] as f64)).collect());
                let (a, b) = (f(&p), f(&q));
                let c = a.intersect_polygon(&b);
                let dist = |v: &[[i64; 2]], x: [f64; 2]| {
                    (0..v.len())
                        .map(|i| {
                            let (s, t) = (v[i], v[(i + 1) % v.len()]);
                            let (dx, dy) = ((t[0] - s[0]) as f64, (t[1] - s[1]) as f64);
                            (dx * (x[1] - s[1] as f64) - dy * (x[0] - s[0] as f64)) / dx.hypot(dy)
                        })
                        .fold(if v.is_empty() { -1.0 } else { 1e9 }, f64::min)
                };
                // area by inclusion: the result is convex, its vertices lie in both, and every interior point of both lies in it
                for x in c.vertices() {
                    let d = dist(&p, [x.x, x.y]).min(dist(&q, [x.x, x.y]));
                    if !(d > -1e-9) {
                        return Err(format!("vertex {:?} of the result is {} outside", x, -d));
                    }
                }
                for i in -13..14 {
                    for j in -13..14 {
                        let x = [i as f64 * 0.5 + 0.013, j as f64 * 0.5 + 0.017];
                        let pt = Point2::new(x[0], x[1]);
                        for (v, poly) in [(&p, &a), (&q, &b)] {
                            if poly.contains_point(&pt) != (dist(v, x) >= 0.0) {
                                return Err(format!("contains_point is wrong at {:?}", x));
                            }
                        }
                        let d = dist(&p, x).min(dist(&q, x));
                        let n = c.vertices().len();
                        let inside = n > 2 && (0..n).all(|i| {
                            let (s, t) = (c.vertices()[i], c.vertices()[(i + 1) % n]);
                            (t.x - s.x) * (x[1] - s.y) - (t.y - s.y) * (x[0] - s.x) >= -1e-12
                        });
                        if d > 1e-9 && !inside {
                            return Err(format!("the result does not contain {:?}, which lies in both", x));
                        }
                        if d < -1e-9 && inside && SimplePolygon2d::from(c.clone()).area() > 1e-6 {
                            return Err(format!("the result contains {:?}, which does not lie in both", x));
                        }
                    }
                }
                // a segment
                let s = LineSegment2d::from_end_points(Point2::new(-5.5, (k % 7) as f64 - 3.01), Point2::new(6.0, (k % 11) as f64 - 5.02));
                let part = s.intersect_polygon(&b);
                for i in 0..101 {
                    let t = i as f64 / 100.0;
                    let x = s.start() + (s.end() - s.start()) * t;
                    let d = dist(&q, [x.x, x.y]);
                    let u = s.end() - s.start();
                    let within = part.as_ref().map_or(false, |y| (y.start() - x).dot(&u) <= 1e-9 && (y.end() - x).dot(&u) >= -1e-9);
                    if d.abs() > 1e-9 && within != (d > 0.0) {
                        return Err(format!("segment at {}: reported inside {}, distance to the outside {}", t, within, d));
                    }
                }
                Ok(())
            });
        }
    }));
    v.push(bounded("C17: segments that meet a polygon", &["Polygon2d::intersects_segment", "SimplePolygon2d::{get_edge,pseudonormal_on_edge}"], "random convex polygons and segments with integer vertices, against exact arithmetic", |e| {
        let mut r = Rng(e.seed + 1);
        for k in 0..if e.thorough { 200000 } else { 20000 } {
            let p = hull(&mut r, 3 + k % 5, 5);
            let (a, b) = ([r.int(-8, 8), r.int(-8, 8)], [r.int(-8, 8), r.int(-8, 8)]);
            let n = p.len();
            if n < 3 || a == b {
                continue;
            }
            // positions in general: no three of the points involved on a line
            let general = (0..n).all(|i| icross(p[i], p[(i + 1) % n], a) != 0 && icross(p[i], p[(i + 1) % n], b) != 0 && icross(a, b, p[i]) != 0);
            if !general {
                continue;
            }
            e.case(|| format!("polygon {:?}, segment {:?} {:?}", p, a, b), || {
                let inside = |x| (0..n).all(|i| icross(p[i], p[(i + 1) % n], x) > 0);
                let crosses = (0..n).any(|i| {
                    let (c, d) = (p[i], p[(i + 1) % n]);
                    (icross(c, d, a) > 0) != (icross(c, d, b) > 0) && (icross(a, b, c) > 0) != (icross(a, b, d) > 0)
                });
                let want = inside(a) || inside(b) || crosses;
                let f = |x: [i64; 2]| Point2::new(x[0] as f64, x[1] as f64);
                let poly = SimplePolygon2d::from_vertices(p.iter().map(|x| f(*x)).collect());
                let got = poly.intersects_segment(&LineSegment2d::from_end_points(f(a), f(b)));
                if got != want {
                    return Err(format!("reported {}, expected {}", got, want));
                }
                Ok(())
            });
        }
    }));
    for n in 1..=5 {
        v.push(dual!(format!("C17: parts of any polygon with {} vertices", n), ["SimplePolygon::{from_vertices,vertices,num_vertices,num_edges,transform_vertices,edge_iter,bounding_box (up to three vertices)}", "<SimplePolygon2d as Polygon2d>::{vertices,num_edges,get_edge}", "Polygon2d::{num_vertices,orientation,signed_area}", "<ConvexPolygon as From<Triangle2d>>"], format!("{} vertices", n), |cx, T| polygon_parts::<T>(cx, n)));
    }
    v.push(bounded("C17: polygons moved into space", &["SimplePolygon2d::apply_isometry", "Distance::distance_bound"], "500 polygons and rigid motions", |e| {
        let mut r = Rng(e.seed + 7);
        for _ in 0..if e.thorough { 20000 } else { 500 } {
            let n = 1 + r.below(6);
            let v: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(r.int(-9, 9) as f64, r.int(-9, 9) as f64)).collect();
            let (t, w): ([f64; 3], [f64; 3]) = (std::array::from_fn(|_| r.int(-9, 9) as f64), std::array::from_fn(|_| 2.0 * r.unit() - 1.0));
            e.case(|| format!("{:?}, {:?} {:?}", v, t, w), || {
                let iso = fenris::nalgebra::Isometry3::new(Vector3::from(t), Vector3::from(w));
                let p = SimplePolygon2d::from_vertices(v.clone());
                let q = p.apply_isometry(&iso);
                let m = iso.rotation.to_rotation_matrix();
                let bad = q.vertices().len() != n || (0..n).any(|i| {
                    let x = Vector3::from_fn(|k, _| m[(k, 0)] * v[i].x + m[(k, 1)] * v[i].y + t[k]);
                    (q.vertices()[i].coords - x).norm() > 1e-9
                });
                if bad {
                    return Err(format!("{:?}", q.vertices()));
                }
                if n > 2 {
                    let x = Point2::new(t[0], t[1]);
                    let d = p.distance(&x);
                    let [lo, hi] = p.distance_bound(&x);
                    if lo > d || hi < d {
                        return Err(format!("distance {} not between {} and {}", d, lo, hi));
                    }
                }
                Ok(())
            });
        }
    }));
    symcore::run::main(v);
}
