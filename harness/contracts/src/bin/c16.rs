//! C16: geometric primitives.
use fenris::geometry::predicates::orient2d_inexact;
use fenris::geometry::util::slices_are_equal_shift_invariant;
use fenris::geometry::sdf::*;
use fenris::geometry::*;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, OVector, Point2, Point3, Unit, Vector2, Vector3, U1, U2, U3};
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

fn pt<T: SReal, D: DimName>(cx: &mut Cx<T>, n: &str) -> OPoint<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    OPoint::from(OVector::<T, D>::from_iterator(cx.reals(n, D::dim())))
}
fn p2<T: SReal>(cx: &mut Cx<T>, n: &str) -> Point2<T> {
    pt::<T, U2>(cx, n)
}
fn p3<T: SReal>(cx: &mut Cx<T>, n: &str) -> Point3<T> {
    pt::<T, U3>(cx, n)
}
/// An arbitrary unit vector. Executions get one from the rational parametrisation (t in place of the components).
fn unit<T: SReal, D: DimName>(cx: &mut Cx<T>, n: &str) -> Unit<OVector<T, D>>
where
    DefaultAllocator: Allocator<T, D>,
{
    let mut v = OVector::<T, D>::from_iterator(cx.reals(n, D::dim()));
    if T::SYMBOLIC {
        let s = v.iter().fold(T::zero(), |s, x| s + *x * *x);
        cx.assume_eq(s, T::one());
    } else {
        let l = v.norm();
        cx.assume_gt(l, T::zero());
        v /= l;
    }
    Unit::new_unchecked(v)
}
fn dot<T: SReal>(a: &[T], b: &[T]) -> T {
    a.iter().zip(b).fold(T::zero(), |s, (x, y)| s + *x * *y)
}
fn sub<T: SReal>(a: &[T], b: &[T]) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| *x - *y).collect()
}
fn d2<T: SReal>(a: &[T], b: &[T]) -> T {
    let d = sub(a, b);
    dot(&d, &d)
}
fn cross2<T: SReal>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>) -> T {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
fn det3<T: SReal>(a: &[T], b: &[T], c: &[T]) -> T {
    a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}
fn orient3<T: SReal>(a: &Point3<T>, b: &Point3<T>, c: &Point3<T>, d: &Point3<T>) -> T {
    let s = |p: &Point3<T>| sub(p.coords.as_slice(), a.coords.as_slice());
    det3(&s(b), &s(c), &s(d))
}
fn xs<T: SReal, D: DimName>(p: &OPoint<T, D>) -> Vec<T>
where
    DefaultAllocator: Allocator<T, D>,
{
    p.coords.iter().copied().collect()
}

/// (p - c).(q - c) <= 0 for every vertex q: the point c of a convex set is the closest one to p exactly when this holds.
fn ensure_projection<T: SReal>(cx: &mut Cx<T>, name: &str, p: &[T], c: &[T], vertices: &[Vec<T>]) {
    let r = sub(p, c);
    for (i, v) in vertices.iter().enumerate() {
        let s = dot(&r, &sub(v, c));
        cx.ensure_le(&format!("{}: no closer point towards vertex {}", name, i), s, T::zero());
    }
}

/// (u w)^2 <= |u|^2 |w|^2; afterwards the solver knows the products by name.
fn schwarz<T: SReal>(cx: &mut Cx<T>, u: &[T], w: &[T]) {
    let (uu, uw, ww) = (dot(u, u), dot(u, w), dot(w, w));
    let gaps: Vec<T> = (0..u.len()).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| u[i] * w[j] - u[j] * w[i]).collect();
    let gap = dot(&gaps, &gaps);
    cx.local(|cx| {
        gaps.iter().for_each(|g| cx.name("gap", *g));
        cx.lemma_le("lemma: squares", T::zero(), gap);
    });
    cx.local(|cx| {
        for i in 0..u.len() {
            cx.name("u", u[i]);
            cx.name("w", w[i]);
        }
        cx.lemma_le("lemma: squares", T::zero(), uu);
        cx.lemma_le("lemma: squares", T::zero(), ww);
        cx.lemma_eq("lemma: Lagrange's identity", uu * ww, uw * uw + gap);
    });
    cx.view("uu", uu);
    cx.view("uw", uw);
    cx.view("ww", ww);
    cx.name("gap", gap);
}
fn segment<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let (a, b, p) = (pt::<T, D>(cx, "a"), pt::<T, D>(cx, "b"), pt::<T, D>(cx, "p"));
    let (u, w) = (sub(&xs(&p), &xs(&a)), sub(&xs(&b), &xs(&a)));
    schwarz(cx, &u, &w);
    let s = LineSegment::from_end_points(a.clone(), b.clone());
    let t = s.closest_point_parametric(&p);
    cx.ensure_le("parameter from", T::zero(), t);
    cx.ensure_le("parameter to", t, T::one());
    let c = s.closest_point(&p);
    let want: Vec<T> = (0..D::dim()).map(|k| a[k] + t * (b[k] - a[k])).collect();
    cx.ensure_eqs("closest point lies on the segment at its parameter", &xs(&c), &want);
    ensure_projection(cx, "segment", &xs(&p), &xs(&c), &[xs(&a), xs(&b)]);
}
fn segment_basics<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let (a, b) = (pt::<T, D>(cx, "a"), pt::<T, D>(cx, "b"));
    let t = cx.real("t");
    let s = LineSegment::from_end_points(a.clone(), b.clone());
    let n = D::dim();
    cx.ensure_eqs("start", &xs(s.start()), &xs(&a));
    cx.ensure_eqs("end", &xs(s.end()), &xs(&b));
    let r = s.reverse();
    cx.ensure_eqs("reversed start", &xs(r.start()), &xs(&b));
    cx.ensure_eqs("reversed end", &xs(r.end()), &xs(&a));
    cx.ensure_eqs("tangent", s.tangent_dir().as_slice(), &(0..n).map(|k| b[k] - a[k]).collect::<Vec<_>>());
    let two = T::one() + T::one();
    cx.ensure_eqs("midpoint", &xs(&s.midpoint()), &(0..n).map(|k| (a[k] + b[k]) / two).collect::<Vec<_>>());
    cx.ensure_eqs("point at parameter", &xs(&s.point_from_parameter(t)), &(0..n).map(|k| a[k] + (b[k] - a[k]) * t).collect::<Vec<_>>());
    let l = s.length();
    cx.ensure_le("length is nonnegative", T::zero(), l);
    cx.ensure_eq("length squared", l * l, d2(&xs(&a), &xs(&b)));
    let line = s.to_line();
    cx.ensure_eqs("line through the segment: point", &xs(line.point()), &xs(&a));
    cx.ensure_eqs("line through the segment: direction", line.dir().as_slice(), &(0..n).map(|k| b[k] - a[k]).collect::<Vec<_>>());
    let through = Line::from_point_through_point(a.clone(), &b);
    cx.ensure_eqs("line through two points", &xs(&through.point_from_parameter(t)), &xs(&line.point_from_parameter(t)));
}
fn line_projection<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let (a, p) = (pt::<T, D>(cx, "a"), pt::<T, D>(cx, "p"));
    let d = OVector::<T, D>::from_iterator(cx.reals("d", D::dim()));
    let l = Line::from_point_and_dir(a.clone(), d.clone());
    let t = l.project_point_parametric(&p);
    let c = l.project_point(&p);
    let want: Vec<T> = (0..D::dim()).map(|k| a[k] + t * d[k]).collect();
    cx.ensure_eqs("projection lies on the line", &xs(&c), &want);
    let r = sub(&xs(&p), &xs(&c));
    cx.ensure_eq("residual is orthogonal to the line", dot(&r, d.as_slice()), T::zero());
}
fn half_space<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let (x, p) = (pt::<T, D>(cx, "x"), pt::<T, D>(cx, "p"));
    let n = unit::<T, D>(cx, "n");
    let h = HalfSpace::from_point_and_normal(x.clone(), n.clone());
    let want = dot(n.as_slice(), &sub(&xs(&p), &xs(&x)));
    let dist = h.signed_distance_to_point(&p);
    cx.ensure_eq("signed distance", dist, want);
    if h.contains_point(&p) {
        cx.ensure_le("contained", want, T::zero());
    } else {
        cx.ensure_gt("not contained", want, T::zero());
    }
    let c = h.complement();
    cx.ensure_eqs("complement has the same boundary", &xs(c.point()), &xs(&x));
    cx.ensure_eqs("complement has the opposite normal", c.normal().as_slice(), &n.iter().map(|v| -*v).collect::<Vec<_>>());
    cx.ensure_eqs("point", &xs(h.point()), &xs(&x));
    cx.ensure_eqs("normal", h.normal().as_slice(), n.as_slice());
}
fn aabb<T: SReal, D: DimName>(cx: &mut Cx<T>, n: &str) -> AxisAlignedBoundingBox<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    let lo = pt::<T, D>(cx, n);
    let e: Vec<T> = cx.reals("e", D::dim());
    for x in &e {
        cx.assume_le(T::zero(), *x);
    }
    let hi: OPoint<T, D> = OPoint::from(OVector::<T, D>::from_fn(|i, _| lo[i] + e[i]));
    AxisAlignedBoundingBox::new(lo, hi)
}
fn aabb_new<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let (lo, hi) = (pt::<T, D>(cx, "lo"), pt::<T, D>(cx, "hi"));
    let b = AxisAlignedBoundingBox::new(lo.clone(), hi.clone());
    for i in 0..D::dim() {
        cx.ensure_le("a box is created only if its corners are ordered", lo[i], hi[i]);
    }
    cx.ensure_eqs("min", &xs(b.min()), &xs(&lo));
    cx.ensure_eqs("max", &xs(b.max()), &xs(&hi));
}
fn aabb_new_total<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let b = aabb::<T, D>(cx, "b");
    cx.ensure("a box with ordered corners is created", true);
    let p = pt::<T, D>(cx, "p");
    let q = AxisAlignedBoundingBox::from(p.clone());
    cx.ensure_eqs("box of one point: min", &xs(q.min()), &xs(&p));
    cx.ensure_eqs("box of one point: max", &xs(q.max()), &xs(&p));
    let c = b.bounding_box();
    cx.ensure_eqs("bounding box of a box: min", &xs(c.min()), &xs(b.min()));
    cx.ensure_eqs("bounding box of a box: max", &xs(c.max()), &xs(b.max()));
    let two = T::one() + T::one();
    let n = D::dim();
    cx.ensure_eqs("extents", b.extents().as_slice(), &(0..n).map(|i| b.max()[i] - b.min()[i]).collect::<Vec<_>>());
    cx.ensure_eqs("center", &xs(&b.center()), &(0..n).map(|i| (b.max()[i] + b.min()[i]) / two).collect::<Vec<_>>());
    let m = b.max_extent();
    let mut hit = false;
    for i in 0..n {
        cx.ensure_le("no extent exceeds the largest", b.max()[i] - b.min()[i], m);
        hit |= m == b.max()[i] - b.min()[i];
    }
    cx.ensure("the largest extent is an extent", hit);
}
fn aabb_scale<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let b = aabb::<T, D>(cx, "b");
    let s = cx.real("s");
    cx.assume_le(T::zero(), s);
    let g = cx.real("g");
    cx.assume_le(T::zero(), g);
    let two = T::one() + T::one();
    let n = D::dim();
    let r = b.uniformly_scale(s);
    for i in 0..n {
        cx.ensure_eq("scaled center", (r.min()[i] + r.max()[i]) / two, (b.min()[i] + b.max()[i]) / two);
        cx.ensure_eq("scaled extent", r.max()[i] - r.min()[i], s * (b.max()[i] - b.min()[i]));
    }
    let r = b.grow_uniformly(g);
    for i in 0..n {
        cx.ensure_eq("grown min", r.min()[i], b.min()[i] - g);
        cx.ensure_eq("grown max", r.max()[i], b.max()[i] + g);
    }
}
/// An arbitrary box enclosing both arguments encloses the result, which encloses both: the result is the least one.
fn aabb_enclose<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let (a, b) = (aabb::<T, D>(cx, "a"), aabb::<T, D>(cx, "b"));
    let r = a.enclose(&b);
    for i in 0..D::dim() {
        for o in [&a, &b] {
            cx.ensure_le("encloses from below", r.min()[i], o.min()[i]);
            cx.ensure_le("encloses from above", o.max()[i], r.max()[i]);
        }
        cx.ensure("is not too large below", r.min()[i] == a.min()[i] || r.min()[i] == b.min()[i]);
        cx.ensure("is not too large above", r.max()[i] == a.max()[i] || r.max()[i] == b.max()[i]);
    }
}
fn least_box<T: SReal, D: DimName>(cx: &mut Cx<T>, name: &str, r: &AxisAlignedBoundingBox<T, D>, pts: &[OPoint<T, D>])
where
    DefaultAllocator: Allocator<T, D>,
{
    for i in 0..D::dim() {
        for p in pts {
            cx.ensure_le(&format!("{}: points are not below the box", name), r.min()[i], p[i]);
            cx.ensure_le(&format!("{}: points are not above the box", name), p[i], r.max()[i]);
        }
        cx.ensure(&format!("{}: the lower bound is attained", name), pts.iter().any(|p| p[i] == r.min()[i]));
        cx.ensure(&format!("{}: the upper bound is attained", name), pts.iter().any(|p| p[i] == r.max()[i]));
    }
}
fn aabb_points<T: SReal, D: DimName>(cx: &mut Cx<T>, n: usize)
where
    DefaultAllocator: Allocator<T, D>,
{
    let pts: Vec<OPoint<T, D>> = (0..n).map(|_| pt::<T, D>(cx, "p")).collect();
    match AxisAlignedBoundingBox::from_points(&pts) {
        None => cx.ensure("only an empty set of points has no box", n == 0),
        Some(r) => {
            cx.ensure("an empty set of points has no box", n > 0);
            least_box(cx, "box of points", &r, &pts);
        }
    }
}
fn aabb_contains<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let b = aabb::<T, D>(cx, "b");
    let p = pt::<T, D>(cx, "p");
    if b.contains_point(&p) {
        for i in 0..D::dim() {
            cx.ensure_le("contained point is not below", b.min()[i], p[i]);
            cx.ensure_le("contained point is not above", p[i], b.max()[i]);
        }
    } else {
        let out = (0..D::dim()).any(|i| p[i] < b.min()[i] || p[i] > b.max()[i]);
        cx.ensure("a point that is not contained is outside in some direction", out);
    }
}
fn aabb_intersects<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let (a, b) = (aabb::<T, D>(cx, "a"), aabb::<T, D>(cx, "b"));
    if a.intersects(&b) {
        // the point with coordinates max(min, min) lies in both
        for i in 0..D::dim() {
            let w = if a.min()[i] < b.min()[i] { b.min()[i] } else { a.min()[i] };
            for o in [&a, &b] {
                cx.ensure_le("common point is not below", o.min()[i], w);
                cx.ensure_le("common point is not above", w, o.max()[i]);
            }
        }
    } else {
        let sep = (0..D::dim()).any(|i| a.max()[i] < b.min()[i] || b.max()[i] < a.min()[i]);
        cx.ensure("boxes that do not intersect are separated in some direction", sep);
    }
}
fn corners<T: SReal, D: DimName>(b: &AxisAlignedBoundingBox<T, D>) -> Vec<Vec<T>>
where
    DefaultAllocator: Allocator<T, D>,
{
    (0..1usize << D::dim()).map(|m| (0..D::dim()).map(|i| if m >> i & 1 == 0 { b.min()[i] } else { b.max()[i] }).collect()).collect()
}
fn aabb_closest<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
{
    let b = aabb::<T, D>(cx, "b");
    let p = pt::<T, D>(cx, "p");
    let c = b.closest_point_to(&p);
    for i in 0..D::dim() {
        cx.ensure_le("closest point is not below", b.min()[i], c[i]);
        cx.ensure_le("closest point is not above", c[i], b.max()[i]);
        // coordinate by coordinate: no point of the interval is closer
        cx.ensure_le("no closer point towards the lower bound", (p[i] - c[i]) * (b.min()[i] - c[i]), T::zero());
        cx.ensure_le("no closer point towards the upper bound", (p[i] - c[i]) * (b.max()[i] - c[i]), T::zero());
    }
    cx.ensure_eq("squared distance", b.dist2_to(&p), d2(&xs(&c), &xs(&p)));
    let d = b.dist_to(&p);
    cx.ensure_le("distance is nonnegative", T::zero(), d);
    cx.ensure_eq("distance", d * d, d2(&xs(&c), &xs(&p)));
}
fn aabb_furthest<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
{
    let b = aabb::<T, D>(cx, "b");
    let p = pt::<T, D>(cx, "p");
    let f = b.furthest_point_to(&p);
    for i in 0..D::dim() {
        let at = |v: T| (p[i] - v) * (p[i] - v);
        cx.ensure("furthest point is a corner", f[i] == b.min()[i] || f[i] == b.max()[i]);
        cx.ensure_le("the lower bound is not further", at(b.min()[i]), at(f[i]));
        cx.ensure_le("the upper bound is not further", at(b.max()[i]), at(f[i]));
    }
    let m = b.max_dist2_to(&p);
    cx.ensure_eq("squared distance", m, d2(&xs(&f), &xs(&p)));
    let d = b.max_dist_to(&p);
    cx.ensure_le("distance is nonnegative", T::zero(), d);
    cx.ensure_eq("distance", d * d, m);
}
fn aabb_corners<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
{
    let lo = pt::<T, D>(cx, "lo");
    let hi: OPoint<T, D> = OPoint::from(OVector::<T, D>::from_iterator((0..D::dim()).map(|_| cx.real("hi"))));
    for i in 0..D::dim() {
        cx.assume_gt(hi[i], lo[i]);
    }
    let b = AxisAlignedBoundingBox::new(lo, hi);
    let got: Vec<Vec<T>> = b.corners_iter().map(|p| xs(&p)).collect();
    let want = corners(&b);
    cx.ensure("number of corners", got.len() == want.len());
    for w in &want {
        cx.ensure("every corner is reported exactly once", got.iter().filter(|g| *g == w).count() == 1);
    }
}

fn segment_segment<T: SReal>(cx: &mut Cx<T>, hit: bool) {
    let (a, b, c, d) = (p2(cx, "a"), p2(cx, "b"), p2(cx, "c"), p2(cx, "d"));
    let cross = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
    cx.assume_ne(cross, T::zero());
    let (u, v) = (LineSegment2d::from_end_points(a, b), LineSegment2d::from_end_points(c, d));
    if hit {
        if let Some(t) = u.intersect_segment_parametric(&v) {
            cx.ensure_le("parameter from", T::zero(), t);
            cx.ensure_le("parameter to", t, T::one());
            let q = Point2::new(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y));
            cx.ensure_eq("the reported point lies on the line of the other segment", cross2(&c, &d, &q), T::zero());
            // and between its end points: its parameter is found by Cramer's rule from the other side
            let s = ((c.x - a.x) * (b.y - a.y) - (c.y - a.y) * (b.x - a.x)) / cross;
            cx.ensure_eq("the reported point is the point of the other segment at s: x", q.x, c.x + s * (d.x - c.x));
            cx.ensure_eq("the reported point is the point of the other segment at s: y", q.y, c.y + s * (d.y - c.y));
            cx.ensure_le("the reported point is not before the other segment", T::zero(), s);
            cx.ensure_le("the reported point is not after the other segment", s, T::one());
        }
    } else {
        // any crossing (t, s) in [0, 1]^2 is reported
        // the other segment is c, d moved so that they cross at t and s
        let (t, s) = (cx.real_in("t", 0, 1), cx.real_in("s", 0, 1));
        let (mut c, mut d) = (c, d);
        for k in 0..2 {
            let (q, e) = (a[k] + t * (b[k] - a[k]), d[k] - c[k]);
            c[k] = q - s * e;
            d[k] = c[k] + e;
        }
        if !T::SYMBOLIC {
            let (lo, hi) = (T::ratio(1, 1000), T::ratio(999, 1000));
            cx.assume(t > lo && t < hi && s > lo && s < hi && cross.abs() > lo);
        }
        let v = LineSegment2d::from_end_points(c, d);
        match u.intersect_segment_parametric(&v) {
            None => cx.ensure("an intersection is reported", false),
            Some(r) => cx.ensure_eq("the reported parameter", r, t),
        }
    }
}
fn line_line<T: SReal>(cx: &mut Cx<T>) {
    let (a, c) = (p2(cx, "a"), p2(cx, "c"));
    let (d, e) = (p2(cx, "d").coords, p2(cx, "e").coords);
    let cross = d.x * e.y - d.y * e.x;
    let (l, m) = (Line2d::from_point_and_dir(a, d), Line2d::from_point_and_dir(c, e));
    let i = l.intersect(&m);
    match l.intersect_line_parametric(&m) {
        None => {
            cx.ensure_eq("only parallel lines have no intersection", cross, T::zero());
            cx.ensure("intersect agrees", i.is_none());
        }
        Some((t, s)) => {
            cx.ensure("intersect agrees", i.is_some());
            for k in 0..2 {
                cx.ensure_eq("both parameters give the same point", a[k] + t * d[k], c[k] + s * e[k]);
                if let Some(i) = &i {
                    cx.ensure_eq("the point is that point", i[k], a[k] + t * d[k]);
                }
            }
        }
    }
}
fn normal_dir<T: SReal>(cx: &mut Cx<T>) {
    let (a, b, p) = (p2(cx, "a"), p2(cx, "b"), p2(cx, "p"));
    let s = LineSegment2d::from_end_points(a, b);
    let n = s.normal_dir();
    cx.ensure_eq("normal is orthogonal to the segment", n.dot(&s.tangent_dir()), T::zero());
    cx.ensure_eq("normal points to the right", n.dot(&(p - a)), -cross2(&a, &b, &p));
    let (t, u) = (cx.real("t"), cx.real("u"));
    let r = s.segment_from_parameters(&t, &u);
    cx.ensure_eqs("start of a part", &xs(r.start()), &xs(&s.point_from_parameter(t)));
    cx.ensure_eqs("end of a part", &xs(r.end()), &xs(&s.point_from_parameter(u)));
}
fn surface<T: SReal>(cx: &mut Cx<T>) {
    let x = p2(cx, "x");
    let n = unit::<T, U2>(cx, "n");
    let t = cx.real("t");
    let h = HalfPlane::from_point_and_normal(x, n);
    let l = h.surface();
    cx.ensure_eq("points of the surface are on the boundary", h.signed_distance_to_point(&l.point_from_parameter(t)), T::zero());
    let d = l.dir();
    cx.ensure_eq("surface direction is not degenerate", d.dot(d), T::one());
}
fn plane<T: SReal>(cx: &mut Cx<T>) {
    let x = p3(cx, "x");
    let n = unit::<T, U3>(cx, "n");
    let pl = Plane::from_point_and_normal(x, n);
    let f = pl.flipped();
    cx.ensure_eqs("flipped normal", f.normal().as_slice(), &n.iter().map(|v| -*v).collect::<Vec<_>>());
    cx.ensure_eqs("flipped point", &xs(f.point()), &xs(&x));
    let h = HalfSpace::from_plane(&pl);
    cx.ensure_eqs("half space of a plane: normal", h.normal().as_slice(), n.as_slice());
    cx.ensure_eqs("half space of a plane: point", &xs(h.point()), &xs(&x));
    let q = h.plane();
    cx.ensure_eqs("plane of a half space: normal", q.normal().as_slice(), n.as_slice());
    cx.ensure_eqs("plane of a half space: point", &xs(q.point()), &xs(&x));
}
fn tangents<T: SReal>(cx: &mut Cx<T>) {
    let x = p3(cx, "x");
    let n = unit::<T, U3>(cx, "n");
    let [s, t] = Plane::from_point_and_normal(x, n).compute_tangent_vectors();
    cx.ensure_eq("first tangent has unit length", s.dot(&s), T::one());
    cx.ensure_eq("second tangent has unit length", t.dot(&t), T::one());
    cx.ensure_eq("tangents are orthogonal", s.dot(&t), T::zero());
    cx.ensure_eq("first tangent is orthogonal to the normal", s.dot(&n), T::zero());
    cx.ensure_eq("second tangent is orthogonal to the normal", t.dot(&n), T::zero());
}
fn line_plane<T: SReal>(cx: &mut Cx<T>) {
    let (x, a, b) = (p3(cx, "x"), p3(cx, "a"), p3(cx, "b"));
    let n = unit::<T, U3>(cx, "n");
    let pl = Plane::from_point_and_normal(x, n);
    let s = LineSegment3d::from_end_points(a, b);
    let da = dot(n.as_slice(), &sub(&xs(&a), &xs(&x)));
    let db = dot(n.as_slice(), &sub(&xs(&b), &xs(&x)));
    cx.view("da", da);
    cx.view("dd", dot(n.as_slice(), &sub(&xs(&b), &xs(&a))));
    if !T::SYMBOLIC {
        // keep executions away from parallel planes, where rounding decides
        cx.assume((db - da).abs() > T::ratio(1, 100) && da.abs() > T::ratio(1, 100) && db.abs() > T::ratio(1, 100));
    }
    match s.to_line().intersect_plane_parametric(&pl) {
        None => cx.ensure_eq("only a parallel line misses the plane", da, db),
        Some(t) => {
            cx.ensure_eq("the reported point lies in the plane", da + t * (db - da), T::zero());
        }
    }
    match s.intersect_plane_parametric(&pl) {
        None => {
            // both end points strictly on one side, or the segment is parallel to the plane
            let same = (da > T::zero() && db > T::zero()) || (da < T::zero() && db < T::zero());
            cx.ensure("a segment that misses the plane lies on one side or is parallel", same || da == db);
        }
        Some(t) => {
            cx.ensure_le("parameter from", T::zero(), t);
            cx.ensure_le("parameter to", t, T::one());
            cx.ensure_eq("the reported point lies in the plane", da + t * (db - da), T::zero());
        }
    }
}
fn segment_to_plane<T: SReal>(cx: &mut Cx<T>) {
    let (x, a, b) = (p3(cx, "x"), p3(cx, "a"), p3(cx, "b"));
    let n = unit::<T, U3>(cx, "n");
    let pl = Plane::from_point_and_normal(x, n);
    let s = LineSegment3d::from_end_points(a, b);
    let da = dot(n.as_slice(), &sub(&xs(&a), &xs(&x)));
    let db = dot(n.as_slice(), &sub(&xs(&b), &xs(&x)));
    cx.view("da", da);
    cx.view("dd", dot(n.as_slice(), &sub(&xs(&b), &xs(&a))));
    if !T::SYMBOLIC {
        // keep executions away from parallel planes, where rounding decides
        cx.assume((db - da).abs() > T::ratio(1, 100) && da.abs() > T::ratio(1, 100) && db.abs() > T::ratio(1, 100));
    }
    let t = s.closest_point_to_plane_parametric(&pl);
    cx.ensure_le("parameter from", T::zero(), t);
    cx.ensure_le("parameter to", t, T::one());
    let c = da + t * (db - da);
    // c is the projection of 0 on the interval between da and db
    cx.ensure_le("no point towards the start is closer to the plane", -(c * (da - c)), T::zero());
    cx.ensure_le("no point towards the end is closer to the plane", -(c * (db - c)), T::zero());
    let q = s.closest_point_to_plane(&pl);
    cx.ensure_eqs("the closest point has that parameter", &xs(&q), &(0..3).map(|k| a[k] + t * (b[k] - a[k])).collect::<Vec<_>>());
}
fn triangle_any<T: SReal, D: DimName>(cx: &mut Cx<T>)
where
    DefaultAllocator: Allocator<T, D>,
{
    let p: Vec<OPoint<T, D>> = (0..3).map(|_| pt::<T, D>(cx, "p")).collect();
    let t = Triangle([p[0].clone(), p[1].clone(), p[2].clone()]);
    let n = D::dim();
    let three = T::int(3);
    cx.ensure_eqs("centroid", &xs(&t.centroid()), &(0..n).map(|k| (p[0][k] + p[1][k] + p[2][k]) / three).collect::<Vec<_>>());
    let sides = t.sides();
    for i in 0..3 {
        let e = t.edge(i);
        cx.ensure_eqs("edge start", &xs(e.start()), &xs(&p[i]));
        cx.ensure_eqs("edge end", &xs(e.end()), &xs(&p[(i + 1) % 3]));
        cx.ensure_eqs("side", sides[i].as_slice(), &sub(&xs(&p[(i + 1) % 3]), &xs(&p[i])));
    }
    for (i, j) in [(0, 1), (0, 2), (1, 2), (2, 0)] {
        let mut s = t.clone();
        s.swap_vertices(i, j);
        let mut q = p.clone();
        q.swap(i, j);
        for k in 0..3 {
            cx.ensure_eqs("swapped vertices", &xs(&s.0[k]), &xs(&q[k]));
        }
    }
    least_box(cx, "triangle", &t.bounding_box(), &p);
}
fn area2<T: SReal>(cx: &mut Cx<T>) {
    let (a, b, c) = (p2(cx, "a"), p2(cx, "b"), p2(cx, "c"));
    let t = Triangle([a, b, c]);
    let two = T::one() + T::one();
    let want = cross2(&a, &b, &c);
    let s = t.signed_area();
    cx.ensure_eq("signed area", two * s, want);
    cx.ensure_eq("orientation predicate", orient2d_inexact(&a, &b, &c), want);
    for (x, y, z, sg) in [(b, a, c, -1), (a, c, b, -1), (c, b, a, -1), (b, c, a, 1), (c, a, b, 1)] {
        cx.ensure_eq("signed area changes sign with the orientation", Triangle([x, y, z]).signed_area(), T::int(sg) * s);
        cx.ensure_eq("predicate changes sign with the orientation", orient2d_inexact(&x, &y, &z), T::int(sg) * want);
    }
    let abs = t.area();
    cx.ensure_le("area is nonnegative", T::zero(), abs);
    cx.ensure_eq("area is the absolute value", abs * abs, s * s);
    if t.orientation() == Orientation::Counterclockwise {
        cx.ensure_le("counterclockwise", T::zero(), want);
    } else {
        cx.ensure_gt("clockwise", T::zero(), want);
    }
}
fn triangle3<T: SReal>(cx: &mut Cx<T>) {
    let (a, b, c, p) = (p3(cx, "a"), p3(cx, "b"), p3(cx, "c"), p3(cx, "p"));
    let t = Triangle([a, b, c]);
    let n = t.normal_dir();
    let w = p - a;
    for k in 0..3 {
        cx.view("n", n[k]);
        cx.view("w", w[k]);
    }
    let o = n.dot(&w);
    cx.ensure_eq("normal is oriented", o, orient3(&a, &b, &c, &p));
    cx.ensure_eq("normal is orthogonal to the first side", n.dot(&(b - a)), T::zero());
    cx.ensure_eq("normal is orthogonal to the second side", n.dot(&(c - a)), T::zero());
    let nn = n.dot(&n);
    let area = t.area();
    cx.ensure_le("area is nonnegative", T::zero(), area);
    cx.ensure_eq("area", T::int(4) * area * area, nn);
    let v = t.compute_area_vector();
    cx.ensure_eqs("area vector", v.as_slice(), &n.iter().map(|x| *x / T::int(2)).collect::<Vec<_>>());
    cx.assume_gt(nn, T::zero());
    match t.point_orientation(&p) {
        OrientationTestResult::Positive => cx.ensure_gt("positive orientation", o, T::zero()),
        OrientationTestResult::Negative => cx.ensure_gt("negative orientation", T::zero(), o),
        OrientationTestResult::Zero => cx.ensure_eq("zero orientation", o, T::zero()),
    }
    let u = t.normal();
    cx.ensure_eq("unit normal has unit length", u.dot(&u), T::one());
    cx.ensure_gt("unit normal is oriented", u.dot(&n), T::zero());
    cx.ensure_eqs("unit normal is parallel to the normal", u.cross(&n).as_slice(), &[T::zero(); 3]);
    cx.ensure_eqs("polygon normal", t.compute_normal().as_slice(), u.as_slice());
    if let (Some(pl), Some(h)) = (t.compute_plane(), t.compute_half_space()) {
        cx.ensure_eqs("plane normal", pl.normal().as_slice(), u.as_slice());
        cx.ensure_eqs("half space normal", h.normal().as_slice(), &u.iter().map(|x| -*x).collect::<Vec<_>>());
        cx.ensure_eqs("plane point", &xs(pl.point()), &xs(&a));
        cx.ensure_eqs("half space point", &xs(h.point()), &xs(&a));
    } else {
        cx.ensure("a triangle has a plane and a half space", false);
    }
}
fn ccw<T: SReal>(cx: &mut Cx<T>, p: &Point2<T>) -> [Point2<T>; 3] {
    let (a, mut b, mut c) = (p2(cx, "a"), p2(cx, "b"), p2(cx, "c"));
    if !T::SYMBOLIC && cross2(&a, &b, &c) < T::zero() {
        std::mem::swap(&mut b, &mut c);
    }
    let (u, v, w) = (p - a, b - a, c - a);
    cx.view("uu", u.dot(&u));
    cx.view("vv", v.dot(&v));
    cx.view("ww", w.dot(&w));
    cx.view("uv", u.dot(&v));
    cx.view("uw", u.dot(&w));
    cx.view("vw", v.dot(&w));
    let e = c - b;
    cx.view("ee", e.dot(&e));
    cx.view("vxw", v.perp(&w));
    cx.view("vxu", v.perp(&u));
    cx.view("uxw", u.perp(&w));
    cx.assume_gt(v.perp(&w), T::zero());
    // the sides have positive lengths
    for e in [v, w, e] {
        cx.lemma_gt("the sides have positive lengths", e.dot(&e), T::zero());
    }
    [a, b, c]
}
fn triangle2_distance<T: SReal>(cx: &mut Cx<T>) {
    let p = p2(cx, "p");
    let v = ccw(cx, &p);
    let t = Triangle(v);
    let r = match t.query_signed_distance(&p) {
        None => return cx.ensure("a triangle has a signed distance", false),
        Some(r) => r,
    };
    cx.ensure_eq("distance to the reported point", r.signed_distance * r.signed_distance, d2(&xs(&r.point), &xs(&p)));
    cx.ensure("reported side", r.feature_id < 3);
    let cs: Vec<_> = (0..3).map(|i| LineSegment2d::from_end_points(v[i], v[(i + 1) % 3]).closest_point(&p)).collect();
    for c in &cs {
        cx.name("D", d2(&xs(c), &xs(&p)));
    }
    for i in 0..3 {
        let c = cs[i];
        if i == r.feature_id {
            cx.ensure_eqs("the reported point is the closest point of the reported side", &xs(&r.point), &xs(&c));
        } else {
            cx.ensure_le("no other side is closer", d2(&xs(&r.point), &xs(&p)), d2(&xs(&c), &xs(&p)));
        }
    }
}
fn triangle2_sign<T: SReal>(cx: &mut Cx<T>) {
    let p = p2(cx, "p");
    let v = ccw(cx, &p);
    let t = Triangle(v);
    let inside = (0..3).all(|i| cross2(&v[i], &v[(i + 1) % 3], &p) >= T::zero());
    let r = t.query_signed_distance(&p);
    let d = t.distance(&p);
    let r = match r {
        None => return cx.ensure("a triangle has a signed distance", false),
        Some(r) => r.signed_distance,
    };
    if inside {
        cx.ensure_le("a point inside has a nonpositive signed distance", r, T::zero());
        cx.ensure_eq("a point inside has distance zero", d, T::zero());
    } else {
        cx.ensure_le("a point outside has a nonnegative signed distance", T::zero(), r);
        cx.ensure_eq("the distance of a point outside is its signed distance", d, r);
    }
}

/// A face with an arbitrary normal and an arbitrary result of the closest-point query: the contract of the callee.
#[derive(Debug, Clone)]
struct MockFace<T: SReal> {
    vertex: Point3<T>,
    normal: Vector3<T>,
    point: Point3<T>,
    distance: T,
}
impl<'a, T: SReal> ConvexPolygon3d<'a, T> for MockFace<T> {
    fn num_vertices(&self) -> usize {
        3
    }
    fn get_vertex(&self, _: usize) -> Option<Point3<T>> {
        Some(self.vertex)
    }
    fn compute_normal(&self) -> Vector3<T> {
        self.normal
    }
    fn closest_point(&self, _: &Point3<T>) -> PolygonClosestPoint<T, U3> {
        PolygonClosestPoint { closest_point: self.point, distance: self.distance }
    }
}
#[derive(Debug)]
struct MockPolyhedron<T: SReal>(Vec<MockFace<T>>);
impl<'a, T: SReal> ConvexPolyhedron<'a, T> for MockPolyhedron<T> {
    type Face = MockFace<T>;
    fn num_faces(&self) -> usize {
        self.0.len()
    }
    fn get_face(&self, i: usize) -> Option<MockFace<T>> {
        self.0.get(i).cloned()
    }
}
fn mock_polyhedron<T: SReal>(cx: &mut Cx<T>, n: usize) -> MockPolyhedron<T> {
    MockPolyhedron(
        (0..n)
            .map(|_| {
                let d = cx.real("d");
                let d = if T::SYMBOLIC { d } else { d.abs() };
                cx.assume_le(T::zero(), d);
                MockFace { vertex: p3(cx, "v"), normal: p3(cx, "n").coords, point: p3(cx, "c"), distance: d }
            })
            .collect(),
    )
}
fn polyhedron_distance<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let h = mock_polyhedron(cx, n);
    let p = p3(cx, "p");
    let r = h.compute_signed_distance(&p);
    cx.ensure("reported face", r.feature_id < n);
    let f = &h.0[r.feature_id];
    cx.ensure_eqs("the reported point is that of the reported face", &xs(&r.point), &xs(&f.point));
    for g in &h.0 {
        cx.ensure_le("no face is closer", f.distance, g.distance);
    }
    let inside = h.0.iter().all(|g| dot(g.normal.as_slice(), &sub(&xs(&p), &xs(&g.point))) >= T::zero());
    let sign = if inside { -T::one() } else { T::one() };
    cx.ensure_eq("negative exactly inside every face", r.signed_distance, sign * f.distance);
}
fn polyhedron_contains<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let h = mock_polyhedron(cx, n);
    let p = p3(cx, "p");
    let inside = h.0.iter().all(|g| dot(g.normal.as_slice(), &sub(&xs(&p), &xs(&g.vertex))) >= T::zero());
    cx.ensure("contained exactly if on the inner side of every face", h.contains_point(&p) == inside);
}
fn tet<T: SReal>(cx: &mut Cx<T>) -> [Point3<T>; 4] {
    let mut v = [p3(cx, "a"), p3(cx, "b"), p3(cx, "c"), p3(cx, "d")];
    if !T::SYMBOLIC && orient3(&v[0], &v[1], &v[2], &v[3]) < T::zero() {
        v.swap(2, 3);
    }
    cx.view("det", orient3(&v[0], &v[1], &v[2], &v[3]));
    cx.assume_gt(orient3(&v[0], &v[1], &v[2], &v[3]), T::zero());
    v
}
/// The vertices of the faces, determined by a run with distinct vertices.
fn tet_ids() -> Vec<[usize; 3]> {
    let v: [Point3<f64>; 4] = std::array::from_fn(|i| Point3::new(i as f64, (i * i) as f64, 1.0 - (i * i * i) as f64));
    let t = Tetrahedron::from_vertices(v);
    (0..4).map(|i| t.get_face(i).map(|f| f.0.map(|p| (0..4).find(|k| p == v[*k]).unwrap_or(9))).unwrap_or([9; 3])).collect()
}
fn tet_faces<T: SReal>(cx: &mut Cx<T>) {
    let v = [p3(cx, "a"), p3(cx, "b"), p3(cx, "c"), p3(cx, "d")];
    let t = Tetrahedron::from_vertices(v);
    cx.ensure("number of faces", t.num_faces() == 4 && t.get_face(4).is_none());
    let det = orient3(&v[0], &v[1], &v[2], &v[3]);
    let mut seen = [0; 4];
    for (i, ids) in tet_ids().into_iter().enumerate() {
        let f = match t.get_face(i) {
            Some(f) => f,
            None => return cx.ensure("every face exists", false),
        };
        let opp: Vec<usize> = (0..4).filter(|k| !ids.contains(k)).collect();
        cx.ensure("faces omit one vertex", opp.len() == 1 && ids.iter().all(|k| *k < 4));
        seen[opp[0]] += 1;
        for k in 0..3 {
            cx.ensure_eqs("faces consist of vertices", &xs(&f.0[k]), &xs(&v[ids[k]]));
        }
        cx.ensure_eq("faces point to the interior", f.compute_area_vector().dot(&(v[opp[0]] - v[ids[0]])) * T::int(2), det);
    }
    cx.ensure("every vertex is opposite to one face", seen == [1; 4]);
    let two = T::one() + T::one();
    let r = Tetrahedron::<T>::reference();
    let b = r.bounding_box();
    for k in 0..3 {
        cx.ensure_eq("reference tetrahedron", b.max()[k] - b.min()[k], two);
    }
}
fn tet_box<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: [Point3<T>; 4] = std::array::from_fn(|i| if i == n { p3(cx, "v") } else { Point3::new(T::int(i as i64), T::int(9 - i as i64), T::int((i % 3) as i64)) });
    least_box(cx, "tetrahedron", &Tetrahedron::from_vertices(v).bounding_box(), &v);
}
/// Lagrange's identity: |a|^2 |w|^2 = (a w)^2 + |a x w|^2, hence a is not zero if a w is not.
fn nonzero<T: SReal>(cx: &mut Cx<T>, a: &Vector3<T>, w: &Vector3<T>, aw: T) {
    let r = a.cross(w);
    let (aa, ww, rr, p) = (a.dot(a), w.dot(w), r.dot(&r), a.dot(w));
    cx.local(|cx| {
        for k in 0..3 {
            cx.name("a", a[k]);
            cx.name("w", w[k]);
        }
        cx.lemma_le("lemma: squares", T::zero(), aa);
        cx.lemma_le("lemma: squares", T::zero(), rr);
        cx.lemma_eq("lemma: Lagrange's identity", aa * ww, p * p + rr);
    });
    cx.name("aa", aa);
    cx.name("ww", ww);
    cx.name("rr", rr);
    cx.lemma_eq("lemma: product", p, aw);
    cx.lemma_gt("lemma: the area is not zero", aa, T::zero());
}
fn tet_volume<T: SReal>(cx: &mut Cx<T>) {
    let v = tet(cx);
    let det = orient3(&v[0], &v[1], &v[2], &v[3]);
    let t = Tetrahedron::from_vertices(v);
    for i in 0..4 {
        let f = t.get_face(i).unwrap();
        let opp = (0..4).find(|k| !tet_ids()[i].contains(k)).unwrap();
        nonzero(cx, &f.compute_area_vector(), &(v[opp] - f.0[0]), det / T::int(2));
    }
    cx.ensure_eq("volume", t.compute_volume(), det / T::int(6));
}
fn tet_contains<T: SReal>(cx: &mut Cx<T>) {
    let v = tet(cx);
    let p = p3(cx, "p");
    let det = orient3(&v[0], &v[1], &v[2], &v[3]);
    let t = Tetrahedron::from_vertices(v);
    // barycentric coordinates
    let bary: Vec<T> = (0..4)
        .map(|i| {
            let mut w = v;
            w[i] = p;
            orient3(&w[0], &w[1], &w[2], &w[3])
        })
        .collect();
    for i in 0..3 {
        cx.view("bary", bary[i]);
    }
    for i in 0..4 {
        let f = t.get_face(i).unwrap();
        let opp = (0..4).find(|k| !tet_ids()[i].contains(k)).unwrap();
        nonzero(cx, &f.compute_area_vector(), &(v[opp] - f.0[0]), det / T::int(2));
    }
    let inside = bary.iter().all(|b| *b >= T::zero());
    cx.ensure("contained exactly if all barycentric coordinates are nonnegative", t.contains_point(&p) == inside);
}
const HEX: [[usize; 4]; 6] = [[0, 1, 2, 3], [0, 4, 5, 1], [1, 5, 6, 2], [2, 6, 7, 3], [3, 7, 4, 0], [4, 7, 6, 5]];
fn hex_ids() -> Vec<[usize; 4]> {
    let v: [Point3<f64>; 8] = std::array::from_fn(|i| Point3::new(i as f64, (i * i) as f64, 1.0 - (i * i * i) as f64));
    let h = Hexahedron::from_vertices(v);
    (0..6)
        .map(|i| std::array::from_fn(|j| h.get_face(i).and_then(|f| f.get_vertex(j)).and_then(|p| (0..8).find(|k| p == v[*k])).unwrap_or(9)))
        .collect()
}
fn hex_faces<T: SReal>(cx: &mut Cx<T>) {
    let v: [Point3<T>; 8] = std::array::from_fn(|_| p3(cx, "v"));
    let h = Hexahedron::from_vertices(v);
    cx.ensure("number of faces", h.num_faces() == 6 && h.get_face(6).is_none());
    let mut want: Vec<[usize; 4]> = HEX.to_vec();
    for (i, ids) in hex_ids().into_iter().enumerate() {
        let f = match h.get_face(i) {
            Some(f) => f,
            None => return cx.ensure("every face exists", false),
        };
        cx.ensure("faces have four vertices", f.num_vertices() == 4 && f.get_vertex(4).is_none() && ids.iter().all(|k| *k < 8));
        for k in 0..4 {
            cx.ensure_eqs("faces consist of vertices", &xs(&f.get_vertex(k).unwrap()), &xs(&v[ids[k]]));
        }
        let hit = want.iter().position(|w| (0..4).any(|s| (0..4).all(|k| w[(k + s) % 4] == ids[k])));
        cx.ensure("faces are the inward oriented sides", hit.is_some());
        if let Some(k) = hit {
            want.remove(k);
        }
    }
    cx.ensure("every side is reported", want.is_empty());
}
fn hex_box<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: [Point3<T>; 8] = std::array::from_fn(|i| if i == n { p3(cx, "v") } else { Point3::new(T::int(i as i64), T::int(9 - i as i64), T::int((i % 3) as i64)) });
    least_box(cx, "hexahedron", &Hexahedron::from_vertices(v).bounding_box(), &v);
}
/// Any parallelepiped: the reference cube under an arbitrary orientation preserving affine map.
fn hex_volume<T: SReal>(cx: &mut Cx<T>) {
    let (o, mut a, mut b, c) = (p3(cx, "o"), p3(cx, "a").coords, p3(cx, "b").coords, p3(cx, "c").coords);
    let d = det3(a.as_slice(), b.as_slice(), c.as_slice());
    if !T::SYMBOLIC && d < T::zero() {
        std::mem::swap(&mut a, &mut b);
    }
    let d = det3(a.as_slice(), b.as_slice(), c.as_slice());
    cx.view("det", d);
    cx.assume_gt(d, T::zero());
    nonzero(cx, &a.cross(&b), &c, d);
    nonzero(cx, &b.cross(&c), &a, d);
    nonzero(cx, &c.cross(&a), &b, d);
    let h = Hexahedron::from_vertices([o, o + a, o + a + b, o + b, o + c, o + a + c, o + a + b + c, o + b + c]);
    cx.ensure_eq("volume", h.compute_volume(), d);
}
/// Area vector and area of a polygon in space, which need not be planar.
fn area_in_space<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Point3<T>> = (0..n).map(|_| Point3::new(cx.real("x"), cx.real("y"), cx.real("z"))).collect();
    let p = SimplePolygon3d::from_vertices(v.clone());
    let a = p.area_vector();
    let mut twice = Vector3::<T>::zeros();
    for i in 1..n.max(2) - 1 {
        twice += (&v[i] - &v[0]).cross(&(&v[i + 1] - &v[0]));
    }
    for k in 0..3 {
        cx.ensure_eq("area vector is that of a fan of triangles", a[k] + a[k], twice[k]);
    }
    let s = p.area();
    cx.ensure_le("area is not negative", T::zero(), s);
    cx.ensure_eq("area is the length of the area vector", s * s, a.dot(&a));
    for i in 0..n {
        cx.ensure("vertices in order", p.vertices()[i] == v[i]);
    }
}
/// Twice the area vector, face by face, for polygons that need not be convex or planar.
fn area_vector<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let v: Vec<Point3<T>> = (0..n).map(|_| p3(cx, "v")).collect();
    #[derive(Debug)]
    struct P<T: SReal>(Vec<Point3<T>>);
    impl<'a, T: SReal> ConvexPolygon3d<'a, T> for P<T> {
        fn num_vertices(&self) -> usize {
            self.0.len()
        }
        fn get_vertex(&self, i: usize) -> Option<Point3<T>> {
            self.0.get(i).copied()
        }
    }
    let p = P(v.clone());
    let got = p.compute_area_vector();
    let mut w = Vector3::zeros();
    for i in 0..n {
        w += v[i].coords.cross(&v[(i + 1) % n].coords);
    }
    cx.ensure_eqs("area vector is half the sum of the cross products of consecutive vertices", got.as_slice(), (w / T::int(2)).as_slice());
}
/// The closest point on a triangle in space.
fn triangle3_closest<T: SReal>(cx: &mut Cx<T>, inside: bool) {
    // any triangle in space with the first vertex at the origin and the first side along the x axis, and any point
    let z = T::zero();
    let (bx, cc, cy) = (cx.pos("bx"), cx.real("cx"), cx.pos("cy"));
    let v = [Point3::new(z, z, z), Point3::new(bx, z, z), Point3::new(cc, cy, z)];
    let p = p3(cx, "p");
    let ins = (0..3).all(|i| {
        let (a, b) = (v[i], v[(i + 1) % 3]);
        (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x) >= z
    });
    cx.assume(ins == inside);
    let t = Triangle(v);
    let r = t.closest_point(&p);
    let dist = t.distance(&p);
    cx.ensure_eq("distance of the reported point", r.distance * r.distance, d2(&xs(&r.closest_point), &xs(&p)));
    cx.ensure_le("distance is nonnegative", z, r.distance);
    cx.ensure_eq("distance", dist, r.distance);
    if inside {
        cx.ensure_eqs("a point above the triangle is projected on it", &xs(&r.closest_point), &[p.x, p.y, z]);
    } else {
        let mut hit = false;
        let cs: Vec<_> = (0..3).map(|i| LineSegment::from_end_points(v[i], v[(i + 1) % 3]).closest_point(&p)).collect();
        for c in &cs {
            cx.name("D", d2(&xs(c), &xs(&p)));
        }
        for c in cs {
            cx.ensure_le("no side is closer", d2(&xs(&r.closest_point), &xs(&p)), d2(&xs(&c), &xs(&p)));
            hit |= xs(&c) == xs(&r.closest_point);
        }
        cx.ensure("the reported point is the closest point of a side", hit);
    }
}
fn quad_split<T: SReal>(cx: &mut Cx<T>, reflex: Option<usize>) {
    let v = [p2(cx, "a"), p2(cx, "b"), p2(cx, "c"), p2(cx, "d")];
    let corner = |i: usize| cross2(&v[(i + 3) % 4], &v[i], &v[(i + 1) % 4]);
    for i in 0..3 {
        cx.view("corner", corner(i));
    }
    for i in 0..4 {
        if Some(i) == reflex {
            cx.assume_gt(T::zero(), corner(i));
        } else {
            cx.assume_gt(corner(i), T::zero());
        }
    }
    let q = Quad2d(v);
    cx.ensure("the concave corner is found", q.concave_corner() == reflex);
    let (s, t) = q.split_into_triangle_connectivities();
    let two = T::one() + T::one();
    let tri = |c: [usize; 3]| cross2(&v[c[0]], &v[c[1]], &v[c[2]]);
    cx.ensure_gt("first triangle is oriented like the quad", tri(s), T::zero());
    cx.ensure_gt("second triangle is oriented like the quad", tri(t), T::zero());
    let total = (v[2] - v[0]).perp(&(v[3] - v[1]));
    cx.ensure_eq("the triangles have the area of the quad", tri(s) + tri(t), total);
    cx.ensure_eq("area", two * q.area(), total);
    let mut all: Vec<usize> = s.iter().chain(&t).copied().collect();
    all.sort();
    all.dedup();
    cx.ensure("every vertex is used", all == [0, 1, 2, 3]);
    let (x, y) = q.split_into_triangles();
    for k in 0..3 {
        cx.ensure_eqs("triangle of the split", &xs(&x.0[k]), &xs(&v[s[k]]));
        cx.ensure_eqs("triangle of the split", &xs(&y.0[k]), &xs(&v[t[k]]));
    }
    match ConvexPolygon::try_from(q) {
        Ok(p) => {
            cx.ensure("only a convex quad becomes a convex polygon", reflex.is_none());
            cx.ensure("with its vertices", p.vertices().len() == 4 && (0..4).all(|i| xs(&p.vertices()[i]) == xs(&v[i])));
        }
        Err(_) => cx.ensure("a convex quad becomes a convex polygon", reflex.is_some()),
    }
}
fn segment_disk<T: SReal>(cx: &mut Cx<T>, part: usize) {
    let (a, b, c) = (p2(cx, "a"), p2(cx, "b"), p2(cx, "c"));
    let r = cx.pos("r");
    let dd = d2(&xs(&a), &xs(&b));
    cx.assume_gt(dd, T::zero());
    let s = LineSegment2d::from_end_points(a, b);
    let disk = Disk::from_center_and_radius(c, r);
    let at = |t: T| d2(&[a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)], &xs(&c)) - r * r;
    match part {
        0 => match s.to_line().intersect_disk_parametric(&disk) {
            None => {
                let h = s.to_line().project_point(&c);
                cx.ensure_gt("a line that misses the disk is further away than the radius", d2(&xs(&h), &xs(&c)), r * r);
            }
            Some([t, u]) => {
                cx.ensure_le("ordered", t, u);
                cx.ensure_eq("first point lies on the circle", at(t), T::zero());
                cx.ensure_eq("second point lies on the circle", at(u), T::zero());
                // sum of the roots: these are both roots
                cx.ensure_eq("these are the two crossings", (t + u) * dd, T::int(2) * dot(&sub(&xs(&b), &xs(&a)), &sub(&xs(&c), &xs(&a))));
            }
        },
        _ => {
            let line = s.to_line().intersect_disk_parametric(&disk);
            match (s.intersect_disk_parametric(&disk), line) {
                (None, None) => cx.ensure("a segment on a line that misses the disk misses it", true),
                (Some(_), None) => cx.ensure("a segment on a line that misses the disk misses it", false),
                (None, Some([t, u])) => cx.ensure("a segment misses the disk only if it ends before or starts after", u < T::zero() || t > T::one()),
                (Some([x, y]), Some([t, u])) => {
                    cx.ensure_le("from", T::zero(), x);
                    cx.ensure_le("to", y, T::one());
                    cx.ensure_le("ordered", x, y);
                    cx.ensure_le("the part starts in the disk", t, x);
                    cx.ensure_le("the part ends in the disk", y, u);
                    cx.ensure("the part starts where the disk or the segment starts", x == t || x == T::zero());
                    cx.ensure("the part ends where the disk or the segment ends", y == u || y == T::one());
                }
            }
        }
    }
}

fn exact_items(v: &mut Vec<Item>) {
    v.push(bounded("C16: solid angles and winding numbers", &["Triangle3d::compute_solid_angle", "compute_winding_number_for_triangles_3d"], "random triangles and tetrahedra against the angles of the spherical triangle", |e| {
        let mut r = contracts::rng::Rng(e.seed);
        let n = if e.thorough { 20000 } else { 2000 };
        let p = |r: &mut contracts::rng::Rng| Point3::new(r.unit() * 2.0 - 1.0, r.unit() * 2.0 - 1.0, r.unit() * 2.0 - 1.0);
        for _ in 0..n {
            let (a, b, c) = (p(&mut r), p(&mut r), p(&mut r));
            // points close to the triangle as well: large solid angles
            let x = if r.bool() { p(&mut r) } else { Point3::from(a.coords * 0.3 + b.coords * 0.3 + c.coords * 0.4 + (b - a).cross(&(c - a)).normalize() * (r.unit() - 0.5) * 0.2) };
            e.case(
                || format!("{:?} {:?} {:?} from {:?}", a, b, c, x),
                || {
                    let u = [(a - x).normalize(), (b - x).normalize(), (c - x).normalize()];
                    let d = u[0].dot(&u[1].cross(&u[2]));
                    if d.abs() < 1e-3 || (0..3).any(|i| u[i].cross(&u[(i + 1) % 3]).norm() < 1e-2) {
                        return Ok(());
                    }
                    // Girard: the area of a spherical triangle is the sum of its angles minus pi
                    let angle = |i: usize| {
                        let (v, s, t) = (u[i], u[(i + 1) % 3], u[(i + 2) % 3]);
                        let (s, t) = (v.cross(&s).normalize(), v.cross(&t).normalize());
                        s.cross(&t).norm().atan2(s.dot(&t))
                    };
                    let want = (angle(0) + angle(1) + angle(2) - std::f64::consts::PI) * d.signum();
                    let got = Triangle([a, b, c]).compute_solid_angle(&x);
                    if (got - want).abs() > 1e-6 {
                        return Err(format!("solid angle {} instead of {}", got, want));
                    }
                    Ok(())
                },
            );
            let d = p(&mut r);
            let w: Vec<f64> = (0..4).map(|_| r.unit() - 0.15).collect();
            let s: f64 = w.iter().sum();
            e.case(
                || format!("tetrahedron {:?} {:?} {:?} {:?} weights {:?}", a, b, c, d, w),
                || {
                    let o = orient3(&a, &b, &c, &d);
                    if s.abs() < 0.1 || o.abs() < 1e-2 || w.iter().any(|x| (x / s).abs() < 1e-2) {
                        return Ok(());
                    }
                    let q = Point3::from((a.coords * w[0] + b.coords * w[1] + c.coords * w[2] + d.coords * w[3]) / s);
                    let t = Tetrahedron::from_vertices([a, b, c, d]);
                    let f: Vec<_> = (0..4).map(|i| t.get_face(i).unwrap()).collect();
                    let got = compute_winding_number_for_triangles_3d(f, &q);
                    // the faces are oriented inwards for positive tetrahedra
                    let want = if w.iter().all(|x| x / s > 0.0) { -o.signum() } else { 0.0 };
                    if (got - want).abs() > 1e-6 {
                        return Err(format!("winding number {} instead of {}", got, want));
                    }
                    Ok(())
                },
            );
        }
    }));
    v.push(bounded("C16: distances of polyhedra", &["Tetrahedron::distance", "Hexahedron::distance", "Hexahedron::query_signed_distance", "ConvexPolyhedron::compute_signed_distance", "ConvexPolygon3d::closest_point"], "random tetrahedra and parallelepipeds against projection in barycentric or box coordinates", |e| {
        let mut r = contracts::rng::Rng(e.seed + 1);
        let n = if e.thorough { 4000 } else { 400 };
        for _ in 0..n {
            let p = |r: &mut contracts::rng::Rng| Point3::new(r.unit() * 2.0 - 1.0, r.unit() * 2.0 - 1.0, r.unit() * 2.0 - 1.0);
            let q = Point3::from(p(&mut r).coords * 1.7);
            let mut t = [p(&mut r), p(&mut r), p(&mut r), p(&mut r)];
            if orient3(&t[0], &t[1], &t[2], &t[3]) < 0.0 {
                t.swap(0, 1);
            }
            e.case(
                || format!("tetrahedron {:?} point {:?}", t, q),
                || {
                    if orient3(&t[0], &t[1], &t[2], &t[3]) < 1e-2 {
                        return Ok(());
                    }
                    let got = Tetrahedron::from_vertices(t).distance(&q);
                    let want = hull_distance(&t, &q);
                    close(got, want, 1e-5)?;
                    let s = ConvexPolyhedron::compute_signed_distance(&Tetrahedron::from_vertices(t), &q);
                    close(s.signed_distance.max(0.0), want, 1e-5)?;
                    close((s.point - q).norm(), s.signed_distance.abs(), 1e-9)
                },
            );
            // an orthogonal box: half lengths h, rotation from two random vectors
            let h: Vec<f64> = (0..3).map(|_| 0.2 + r.unit()).collect();
            let o = p(&mut r);
            let x = (p(&mut r).coords + Vector3::new(1.5, 0.0, 0.0)).normalize();
            let y = x.cross(&(p(&mut r).coords + Vector3::new(0.0, 1.5, 0.0))).normalize();
            let z = x.cross(&y);
            let k = [x, y, z];
            let v: [Point3<f64>; 8] = std::array::from_fn(|i| {
                let s = [[-1., -1., -1.], [1., -1., -1.], [1., 1., -1.], [-1., 1., -1.], [-1., -1., 1.], [1., -1., 1.], [1., 1., 1.], [-1., 1., 1.]][i];
                o + x * (h[0] * s[0]) + y * (h[1] * s[1]) + z * (h[2] * s[2])
            });
            e.case(
                || format!("box {:?} point {:?}", v, q),
                || {
                    let l: Vec<f64> = k.iter().map(|a| a.dot(&(q - o))).collect();
                    let out: f64 = (0..3).map(|i| (l[i].abs() - h[i]).max(0.0).powi(2)).sum::<f64>().sqrt();
                    let inn = (0..3).map(|i| l[i].abs() - h[i]).fold(f64::MIN, f64::max);
                    let want = if out > 0.0 { out } else { inn };
                    let hex = Hexahedron::from_vertices(v);
                    let s = hex.query_signed_distance(&q).ok_or("no signed distance")?;
                    close(s.signed_distance, want, 1e-9)?;
                    close((s.point - q).norm(), want.abs(), 1e-9)?;
                    close(hex.distance(&q), out, 1e-9)?;
                    close(hex.compute_volume(), 8.0 * h[0] * h[1] * h[2], 1e-9)?;
                    if hex.contains_point(&q) != (inn <= 0.0) && inn.abs() > 1e-9 {
                        return Err("containment".into());
                    }
                    Ok(())
                },
            );
        }
    }));
    v.push(bounded("C16: quad distance", &["Quad2d::distance"], "random quadrilaterals (convex and concave) against the distance to their sides", |e| {
        let mut r = contracts::rng::Rng(e.seed + 2);
        let n = if e.thorough { 20000 } else { 2000 };
        for _ in 0..n {
            let mut p = || Point2::new(r.int(-6, 6) as f64, r.int(-6, 6) as f64);
            let (v, q) = ([p(), p(), p(), p()], p());
            e.case(
                || format!("quad {:?} point {:?}", v, q),
                || {
                    let c: Vec<f64> = (0..4).map(|i| cross2(&v[(i + 3) % 4], &v[i], &v[(i + 1) % 4])).collect();
                    let neg = c.iter().filter(|x| **x < 0.0).count();
                    let total = (v[2] - v[0]).perp(&(v[3] - v[1]));
                    if neg > 1 || total <= 0.0 || c.iter().any(|x| *x == 0.0) {
                        return Ok(());
                    }
                    // inside: in one of the two triangles of the split at the concave corner (or any)
                    let i = (0..4).find(|i| c[*i] < 0.0).unwrap_or(0);
                    let tri = |a: usize, b: usize, d: usize| [(a, b), (b, d), (d, a)].iter().all(|(s, t)| cross2(&v[*s], &v[*t], &q) >= 0.0);
                    let inside = tri(i, (i + 1) % 4, (i + 2) % 4) || tri(i, (i + 2) % 4, (i + 3) % 4);
                    let want = if inside { 0.0 } else { (0..4).map(|i| seg_dist(&v[i], &v[(i + 1) % 4], &q)).fold(f64::MAX, f64::min) };
                    close(Quad2d(v).distance(&q), want, 1e-9)
                },
            );
        }
    }));
    v.push(bounded("C16: equality up to a shift", &["slices_are_equal_shift_invariant"], "all sequences of length up to 5 over three values", |e| {
        let mut all = vec![];
        for n in 0..=4 {
            all.extend(contracts::rng::sequences(n, 3));
        }
        for x in &all {
            for y in &all {
                e.case(
                    || format!("{:?} {:?}", x, y),
                    || {
                        let n = x.len();
                        let want = n == y.len() && (n == 0 || (0..n).any(|s| (0..n).all(|i| x[(i + s) % n] == y[i])));
                        if slices_are_equal_shift_invariant(x, y, |a, b| a == b) != want {
                            return Err("wrong answer".into());
                        }
                        Ok(())
                    },
                );
            }
        }
    }));
}
fn close(a: f64, b: f64, tol: f64) -> Result<(), String> {
    if (a - b).abs() <= tol * (1.0 + b.abs()) {
        Ok(())
    } else {
        Err(format!("{} instead of {}", a, b))
    }
}
fn seg_dist(a: &Point2<f64>, b: &Point2<f64>, q: &Point2<f64>) -> f64 {
    let d = b - a;
    let t = ((q - a).dot(&d) / d.dot(&d)).max(0.0).min(1.0);
    (a + d * t - q).norm()
}
/// The distance to the convex hull of affinely independent points: the least over the faces of all dimensions whose projection lies inside.
fn hull_distance(v: &[Point3<f64>; 4], q: &Point3<f64>) -> f64 {
    let mut best = f64::MAX;
    for m in 1..16u32 {
        let ids: Vec<usize> = (0..4).filter(|i| m >> i & 1 == 1).collect();
        let a = v[ids[0]];
        let k = ids.len() - 1;
        let e = fenris::nalgebra::DMatrix::from_fn(3, k, |i, j| v[ids[j + 1]][i] - a[i]);
        let g = e.transpose() * &e;
        let rhs = e.transpose() * fenris::nalgebra::DVector::from_iterator(3, (q - a).iter().copied());
        let x = if k == 0 { rhs } else { g.lu().solve(&rhs).unwrap() };
        let rest = 1.0 - x.iter().sum::<f64>();
        if x.iter().all(|c| *c >= -1e-12) && rest >= -1e-12 {
            let p = e * x;
            best = best.min((Vector3::new(p[0], p[1], p[2]) + a.coords - q.coords).norm());
        }
    }
    best
}

/// The signed distance to a disk, and its gradient.
fn sdf_disk<T: SReal>(cx: &mut Cx<T>) {
    let (c, x, r) = (p2(cx, "c"), p2(cx, "x"), cx.real("r"));
    cx.assume_gt(r, T::zero());
    let s = SdfCircle { radius: r, center: c.coords };
    let d = s.eval(&x);
    let y = x - c;
    cx.ensure_eq("the distance to the centre less the radius", (d + r) * (d + r), y.dot(&y));
    cx.ensure_le("the distance to the centre is not negative", T::zero(), d + r);
    match s.gradient(&x) {
        None => cx.ensure_eq("there is a gradient everywhere but in the centre", y.dot(&y), T::zero()),
        Some(g) => {
            cx.ensure_eq("the gradient has unit length", g.dot(&g), T::one());
            for i in 0..2 {
                cx.ensure_eq("the gradient points away from the centre", g[i] * (d + r), y[i]);
            }
        }
    }
    let b = s.bounding_box();
    for i in 0..2 {
        cx.ensure_le("the disk is in its box", b.min()[i], c[i] - r);
        cx.ensure_le("the disk is in its box", c[i] + r, b.max()[i]);
    }
}
/// The signed distance to a box.
fn sdf_box<T: SReal>(cx: &mut Cx<T>) {
    let (lo, w, x) = (p2(cx, "lo"), cx.reals("w", 2), p2(cx, "x"));
    let hi = Point2::new(lo.x + w[0], lo.y + w[1]);
    for w in w {
        cx.assume_gt(w, T::zero());
    }
    let s = SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox::new(lo, hi) };
    let d = s.eval(&x);
    let out: Vec<T> = (0..2).map(|i| if x[i] < lo[i] { lo[i] - x[i] } else if x[i] > hi[i] { x[i] - hi[i] } else { T::zero() }).collect();
    if out[0] > T::zero() || out[1] > T::zero() {
        cx.ensure_eq("the distance to the box", d * d, out[0] * out[0] + out[1] * out[1]);
        cx.ensure_gt("positive outside", d, T::zero());
    } else {
        cx.ensure_le("not positive inside", d, T::zero());
        for i in 0..2 {
            cx.ensure_le("no side is closer", -d, x[i] - lo[i]);
            cx.ensure_le("no side is closer", -d, hi[i] - x[i]);
        }
        cx.ensure("the distance to one of the sides", (0..2).any(|i| -d == x[i] - lo[i] || -d == hi[i] - x[i]));
    }
    let b = s.bounding_box();
    cx.ensure_eqs("box of a box", &[b.min().x, b.min().y, b.max().x, b.max().y], &[lo.x, lo.y, hi.x, hi.y]);
}
/// The union of two arbitrary signed distance functions.
#[derive(Clone)]
struct AnySdf<T: SReal> {
    value: T,
    gradient: Option<[T; 2]>,
    lo: Point2<T>,
    hi: Point2<T>,
}
impl<T: SReal> SignedDistanceFunction2d<T> for AnySdf<T> {
    fn eval(&self, _: &Point2<T>) -> T {
        self.value
    }
    fn gradient(&self, _: &Point2<T>) -> Option<Vector2<T>> {
        self.gradient.map(|g| Vector2::new(g[0], g[1]))
    }
}
impl<T: SReal> BoundedGeometry<T> for AnySdf<T> {
    type Dimension = U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox<T, U2> {
        AxisAlignedBoundingBox::new(self.lo, self.hi)
    }
}
fn sdf_union<T: SReal>(cx: &mut Cx<T>, none: bool) {
    let v: [AnySdf<T>; 2] = std::array::from_fn(|k| {
        let (lo, w, g) = (p2(cx, ["l0", "l1"][k]), cx.reals(["w0", "w1"][k], 2), cx.reals(["g0", "g1"][k], 2));
        for w in &w {
            cx.assume_gt(*w, T::zero());
        }
        AnySdf { value: cx.real(["v0", "v1"][k]), gradient: if none && k == 0 { None } else { Some([g[0], g[1]]) }, lo, hi: Point2::new(lo.x + w[0], lo.y + w[1]) }
    });
    let u = v[0].clone().union(v[1].clone());
    let x = Point2::new(T::zero(), T::one());
    let d = u.eval(&x);
    cx.ensure_eq("the smaller of the two", (d - v[0].value) * (d - v[1].value), T::zero());
    cx.ensure_le("the smaller of the two", d, v[0].value);
    cx.ensure_le("the smaller of the two", d, v[1].value);
    let g = u.gradient(&x).map(|g| [g.x, g.y]);
    let same = |a: Option<[T; 2]>, b: Option<[T; 2]>| match (a, b) {
        (Some(a), Some(b)) => a[0] == b[0] && a[1] == b[1],
        (a, b) => a.is_none() && b.is_none(),
    };
    cx.ensure("the gradient of the smaller of the two", (d == v[0].value && same(g, v[0].gradient)) || (d == v[1].value && same(g, v[1].gradient)));
    let b = u.bounding_box();
    least_box(cx, "the box of both", &b, &[v[0].lo, v[0].hi, v[1].lo, v[1].hi]);
}

fn main() {
    let mut v: Vec<Item> = vec![];
    macro_rules! dims {
        ($name:expr, $f:ident, $fns:expr) => {
            dims!($name, $f, $fns, panics = false)
        };
        ($name:expr, $f:ident, $fns:expr, panics = $p:expr) => {
            v.push(dual!(format!("C16: {} in one dimension", $name), [$fns], "", |cx, T| $f::<T, U1>(cx), panics = $p));
            v.push(dual!(format!("C16: {} in two dimensions", $name), [$fns], "", |cx, T| $f::<T, U2>(cx), panics = $p));
            v.push(dual!(format!("C16: {} in three dimensions", $name), [$fns], "", |cx, T| $f::<T, U3>(cx), panics = $p));
        };
    }
    dims!("closest point of a segment", segment, "LineSegment::closest_point, LineSegment::closest_point_parametric");
    dims!("segment parts", segment_basics, "LineSegment::{reverse,tangent_dir,length,midpoint,point_from_parameter,to_line}, Line::from_point_through_point");
    dims!("projection on a line", line_projection, "Line::project_point, Line::project_point_parametric");
    dims!("half space", half_space, "HalfSpace::{signed_distance_to_point,contains_point,complement}");
    dims!("box construction", aabb_new, "AxisAlignedBoundingBox::new", panics = true);
    dims!("box measures", aabb_new_total, "AxisAlignedBoundingBox::{new,from,extents,center,max_extent,bounding_box}");
    dims!("box scaling", aabb_scale, "AxisAlignedBoundingBox::{uniformly_scale,grow_uniformly}");
    dims!("box of boxes", aabb_enclose, "AxisAlignedBoundingBox::enclose");
    dims!("box containment", aabb_contains, "AxisAlignedBoundingBox::contains_point");
    dims!("box intersection", aabb_intersects, "AxisAlignedBoundingBox::intersects");
    dims!("closest point of a box", aabb_closest, "AxisAlignedBoundingBox::{closest_point_to,dist_to,dist2_to}");
    dims!("furthest point of a box", aabb_furthest, "AxisAlignedBoundingBox::{furthest_point_to,max_dist_to,max_dist2_to}");
    dims!("corners of a box", aabb_corners, "AxisAlignedBoundingBox::corners_iter, index_set_nth_power_iter");
    for n in 0..4usize {
        let b = format!("{} points", n);
        v.push(dual!(format!("C16: box of {} points in two dimensions", n), ["AxisAlignedBoundingBox::from_points"], b, |cx, T| aabb_points::<T, U2>(cx, n)));
        v.push(dual!(format!("C16: box of {} points in three dimensions", n), ["AxisAlignedBoundingBox::from_points"], b, |cx, T| aabb_points::<T, U3>(cx, n)));
    }
    for n in 0..7 {
        v.push(dual!(format!("C16: area of a polygon with {} vertices in space", n), ["SimplePolygon3d::{area_vector,area,from_vertices,vertices}"], format!("{} vertices", n), |cx, T| area_in_space::<T>(cx, n)));
    }
    v.push(dual!("C16: triangle parts in two dimensions", ["Triangle::{centroid,sides,edge,swap_vertices,bounding_box}"], "", |cx, T| triangle_any::<T, U2>(cx)));
    v.push(dual!("C16: triangle parts in three dimensions", ["Triangle::{centroid,sides,edge,swap_vertices,bounding_box}"], "", |cx, T| triangle_any::<T, U3>(cx)));
    v.push(dual!("C16: a reported crossing of segments lies on both", ["LineSegment2d::intersect_segment_parametric"], "", |cx, T| segment_segment::<T>(cx, true)));
    v.push(dual!("C16: a crossing of segments is reported", ["LineSegment2d::intersect_segment_parametric"], "", |cx, T| segment_segment::<T>(cx, false)));
    v.push(dual!("C16: intersection of lines", ["Line2d::intersect_line_parametric", "Line2d::intersect"], "", |cx, T| line_line::<T>(cx)));
    v.push(dual!("C16: normal of a segment", ["LineSegment2d::normal_dir", "LineSegment2d::segment_from_parameters"], "", |cx, T| normal_dir::<T>(cx)));
    v.push(dual!("C16: surface of a half plane", ["HalfPlane::surface"], "", |cx, T| surface::<T>(cx)));
    v.push(dual!("C16: planes and half spaces", ["Plane::flipped", "HalfSpace::from_plane", "HalfSpace::plane"], "", |cx, T| plane::<T>(cx)));
    v.push(dual!("C16: tangents of a plane", ["Plane::compute_tangent_vectors", "compute_orthonormal_vectors_3d"], "", |cx, T| tangents::<T>(cx)));
    v.push(dual!("C16: intersection with a plane", ["Line3d::intersect_plane_parametric", "LineSegment3d::intersect_plane_parametric"], "", |cx, T| line_plane::<T>(cx)));
    v.push(dual!("C16: point of a segment closest to a plane", ["LineSegment3d::closest_point_to_plane_parametric", "LineSegment3d::closest_point_to_plane"], "", |cx, T| segment_to_plane::<T>(cx)));
    v.push(dual!("C16: crossings of a line and a circle", ["Line2d::intersect_disk_parametric"], "", |cx, T| segment_disk::<T>(cx, 0)));
    v.push(dual!("C16: part of a segment in a disk", ["LineSegment2d::intersect_disk_parametric"], "", |cx, T| segment_disk::<T>(cx, 1)));
    v.push(dual!("C16: signed area and orientation", ["Triangle2d::{signed_area,area,orientation}", "orient2d_inexact"], "", |cx, T| area2::<T>(cx)));
    v.push(dual!("C16: triangles in space", ["Triangle3d::{normal_dir,normal,area,point_orientation}", "ConvexPolygon3d::{compute_area_vector,compute_normal,compute_plane,compute_half_space}"], "", |cx, T| triangle3::<T>(cx)));
    v.push(dual!("C16: closest point of a triangle", ["Triangle2d::query_signed_distance"], "", |cx, T| triangle2_distance::<T>(cx)));
    v.push(dual!("C16: sign of the distance to a triangle", ["Triangle2d::query_signed_distance", "Triangle2d::distance"], "", |cx, T| triangle2_sign::<T>(cx)));
    for inside in [true, false] {
        v.push(dual!(format!("C16: closest point of a triangle in space, {}", if inside { "above it" } else { "beside it" }), ["ConvexPolygon3d::closest_point", "Triangle3d::distance"], "triangles with the first vertex at the origin and the first side on an axis", |cx, T| triangle3_closest::<T>(cx, inside)));
    }
    for n in [4usize, 5, 6] {
        v.push(dual!(format!("C16: signed distance of a polyhedron with {} faces, given the contract of its faces", n), ["ConvexPolyhedron::compute_signed_distance"], format!("{} faces", n), |cx, T| polyhedron_distance::<T>(cx, n)));
        v.push(dual!(format!("C16: containment in a polyhedron with {} faces, given its faces", n), ["ConvexPolyhedron::contains_point"], format!("{} faces", n), |cx, T| polyhedron_contains::<T>(cx, n)));
    }
    for n in [3usize, 4, 5, 6] {
        v.push(dual!(format!("C16: area vector of a polygon with {} vertices", n), ["ConvexPolygon3d::compute_area_vector"], format!("{} vertices", n), |cx, T| area_vector::<T>(cx, n)));
    }
    v.push(dual!("C16: faces of a tetrahedron", ["Tetrahedron::get_face"], "", |cx, T| tet_faces::<T>(cx)));
    for n in 0..4 {
        v.push(dual!(format!("C16: box of a tetrahedron, vertex {}", n), ["Tetrahedron::bounding_box"], "one of the vertices arbitrary", |cx, T| tet_box::<T>(cx, n)));
    }
    v.push(dual!("C16: volume of a tetrahedron", ["compute_polyhedron_volume_from_faces", "ConvexPolyhedron::compute_volume"], "", |cx, T| tet_volume::<T>(cx)));
    v.push(dual!("C16: containment in a tetrahedron", ["ConvexPolyhedron::contains_point"], "", |cx, T| tet_contains::<T>(cx)));
    v.push(dual!("C16: faces of a hexahedron", ["Hexahedron::get_face"], "", |cx, T| hex_faces::<T>(cx)));
    for n in 0..8 {
        v.push(dual!(format!("C16: box of a hexahedron, vertex {}", n), ["Hexahedron::bounding_box"], "one of the vertices arbitrary", |cx, T| hex_box::<T>(cx, n)));
    }
    v.push(dual!("C16: volume of a parallelepiped", ["compute_polyhedron_volume_from_faces", "ConvexPolyhedron::compute_volume"], "", |cx, T| hex_volume::<T>(cx)));
    for r in [None, Some(0usize), Some(1), Some(2), Some(3)] {
        v.push(dual!(format!("C16: splitting a quad, concave corner {:?}", r), ["Quad2d::{concave_corner,split_into_triangle_connectivities,split_into_triangles,area}", "ConvexPolygon::try_from"], "", |cx, T| quad_split::<T>(cx, r)));
    }
    exact_items(&mut v);
    v.push(dual!("C16: signed distance to a disk", ["SdfCircle::{eval,gradient,bounding_box}"], "", |cx, T| sdf_disk::<T>(cx)));
    v.push(dual!("C16: signed distance to a box", ["SdfAxisAlignedBox::{eval,bounding_box}"], "", |cx, T| sdf_box::<T>(cx)));
    for none in [false, true] {
        v.push(dual!(format!("C16: union of signed distance functions{}", if none { ", one without a gradient" } else { "" }), ["SdfUnion::{eval,gradient,bounding_box}", "SignedDistanceFunction2d::union"], "", |cx, T| sdf_union::<T>(cx, none)));
    }
    v.push(bounded("C16: gradient of the signed distance to a box", &["SdfAxisAlignedBox::gradient"], "1000 boxes and points with integer coordinates, away from the lines where the distance has no gradient", |e| {
        let mut r = contracts::rng::Rng(e.seed);
        for _ in 0..if e.thorough { 50000 } else { 1000 } {
            let (lo, w, x): ([i64; 2], [i64; 2], [i64; 2]) = (std::array::from_fn(|_| r.int(-5, 5)), std::array::from_fn(|_| r.int(1, 6)), std::array::from_fn(|_| r.int(-12, 12)));
            // everything in quarters, and the point off the box lines
            let p: [f64; 2] = std::array::from_fn(|i| x[i] as f64 + 0.25 + 0.125 * i as f64);
            let (a, b): ([f64; 2], [f64; 2]) = (lo.map(|x| x as f64), [0, 1].map(|i| (lo[i] + w[i]) as f64));
            let out: [f64; 2] = std::array::from_fn(|i| if p[i] < a[i] { p[i] - a[i] } else if p[i] > b[i] { p[i] - b[i] } else { 0.0 });
            let len = out[0].hypot(out[1]);
            let want = if len > 0.0 {
                [out[0] / len, out[1] / len]
            } else {
                let mut near = [(p[0] - a[0], [-1.0, 0.0]), (b[0] - p[0], [1.0, 0.0]), (p[1] - a[1], [0.0, -1.0]), (b[1] - p[1], [0.0, 1.0])];
                near.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                if near[1].0 - near[0].0 < 0.01 {
                    continue;
                }
                near[0].1
            };
            e.case(|| format!("box {:?} {:?}, point {:?}", a, b, p), || {
                let s = SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox::new(Point2::new(a[0], a[1]), Point2::new(b[0], b[1])) };
                let g = s.gradient(&Point2::new(p[0], p[1])).ok_or("no gradient")?;
                if (g.x - want[0]).abs() > 1e-6 || (g.y - want[1]).abs() > 1e-6 {
                    return Err(format!("{:?} instead of {:?}", g, want));
                }
                Ok(())
            });
        }
    }));
    symcore::run::main(v);
}
