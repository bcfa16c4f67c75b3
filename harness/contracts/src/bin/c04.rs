//! C04: quadrature rules.
use fenris::assembly::local::QuadratureTable;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{Point1, Point2, Point3};
use fenris::quadrature::subdivide::{subdivide_triangle, subdivide_univariate};
use fenris::quadrature::{tensor, total_order, univariate, CanonicalMassQuadrature, CanonicalStiffnessQuadrature, Quadrature, QuadratureError};
use symcore::rat::Rat;
use symcore::run::{bounded, Item};
use symcore::{dual, Cx, SReal};

/// Fixed point numbers with 58 fractional bits: products are exact before rounding, a rounding error is at most 2^-58.
type Fix = i128;
const ONE: Fix = 1 << 58;
fn fix(x: f64) -> Fix {
    // exact up to 2^-58: |x| < 16
    assert!(x.abs() < 16.0);
    let hi = (x * 4294967296.0).floor();
    let lo = (x * 4294967296.0 - hi) * 67108864.0;
    ((hi as i128) << 26) + lo.floor() as i128
}
fn mul(a: Fix, b: Fix) -> Fix {
    (a * b) >> 58
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Domain {
    Seg,
    Tri,
    Quad,
    Tet,
    Hex,
    Prism,
    Pyramid,
}
use Domain::*;
impl Domain {
    fn dim(self) -> usize {
        match self {
            Seg => 1,
            Tri | Quad => 2,
            _ => 3,
        }
    }
    fn slack(self, x: &[f64]) -> f64 {
        // smallest barycentric or box distance, negative outside
        let b = |x: f64| 1.0 - x.abs();
        match self {
            Seg => b(x[0]),
            Quad => b(x[0]).min(b(x[1])),
            Hex => b(x[0]).min(b(x[1])).min(b(x[2])),
            Tri => (x[0] + 1.0).min(x[1] + 1.0).min(-x[0] - x[1]),
            Tet => (x[0] + 1.0).min(x[1] + 1.0).min(x[2] + 1.0).min(-1.0 - x[0] - x[1] - x[2]),
            Prism => Tri.slack(&x[..2]).min(b(x[2])),
            Pyramid => (x[2] + 1.0).min((1.0 - x[2]) / 2.0 - x[0].abs()).min((1.0 - x[2]) / 2.0 - x[1].abs()),
        }
    }
    /// The integral of x^a y^b z^c.
    fn moment(self, m: &[u32]) -> Rat {
        let seg = |a: u32| if a % 2 == 1 { Rat::zero() } else { Rat::new(2, a as i64 + 1) };
        match self {
            Seg => seg(m[0]),
            Quad => seg(m[0]).mul(&seg(m[1])),
            Hex => seg(m[0]).mul(&seg(m[1])).mul(&seg(m[2])),
            Tri | Tet => {
                // x = 2 u - 1 on the unit simplex, where the integral of u^p is p! q! (r!) / (p + q + r + d)!
                let d = self.dim();
                let mut sum = Rat::zero();
                let mut k = vec![0u32; d];
                loop {
                    let mut t = Rat::int(1 << d);
                    for i in 0..d {
                        t = t.mul(&binom(m[i], k[i])).mul(&Rat::int(2).pow(k[i]));
                        if (m[i] - k[i]) % 2 == 1 {
                            t = t.neg();
                        }
                        t = t.mul(&fact(k[i]));
                    }
                    sum = sum.add(&t.div(&fact(k.iter().sum::<u32>() + d as u32)));
                    let mut i = 0;
                    while i < d && k[i] == m[i] {
                        k[i] = 0;
                        i += 1;
                    }
                    if i == d {
                        return sum;
                    }
                    k[i] += 1;
                }
            }
            Prism => Tri.moment(&m[..2]).mul(&seg(m[2])),
            Pyramid => {
                if m[0] % 2 == 1 || m[1] % 2 == 1 {
                    return Rat::zero();
                }
                // z = 2 s - 1, the half width of the section is 1 - s
                let e = m[0] + m[1] + 2;
                let mut sum = Rat::zero();
                for k in 0..=m[2] {
                    // integral of s^k (1 - s)^e over [0, 1]
                    let t = binom(m[2], k).mul(&Rat::int(2).pow(k)).mul(&fact(k)).mul(&fact(e)).div(&fact(k + e + 1));
                    sum = if (m[2] - k) % 2 == 1 { sum.sub(&t) } else { sum.add(&t) };
                }
                sum.mul(&seg(m[0])).mul(&seg(m[1])).mul(&Rat::int(2))
            }
        }
    }
}
fn fact(n: u32) -> Rat {
    (1..=n as i64).fold(Rat::one(), |a, k| a.mul(&Rat::int(k)))
}
fn binom(n: u32, k: u32) -> Rat {
    fact(n).div(&fact(k)).div(&fact(n - k))
}
fn monomials(d: usize, total: u32) -> Vec<Vec<u32>> {
    let mut v = vec![vec![]];
    for _ in 0..d {
        v = v.into_iter().flat_map(|m: Vec<u32>| (0..=total - m.iter().sum::<u32>()).map(move |e| [m.clone(), vec![e]].concat())).collect();
    }
    v
}
fn box_monomials(d: usize, each: u32) -> Vec<Vec<u32>> {
    let mut v = vec![vec![]];
    for _ in 0..d {
        v = v.into_iter().flat_map(|m: Vec<u32>| (0..=each).map(move |e| [m.clone(), vec![e]].concat())).collect();
    }
    v
}
/// The largest error over all monomials, from exact evaluation of the tabulated values.
fn exactness(dom: Domain, w: &[f64], p: &[Vec<f64>], ms: &[Vec<u32>]) -> (f64, Vec<u32>) {
    let top = ms.iter().flat_map(|m| m.iter()).copied().max().unwrap_or(0);
    let pows: Vec<Vec<Vec<Fix>>> = p
        .iter()
        .map(|x| {
            x.iter()
                .map(|c| {
                    let mut v = vec![ONE];
                    for k in 0..top as usize {
                        v.push(mul(v[k], fix(*c)));
                    }
                    v
                })
                .collect()
        })
        .collect();
    let scale = Rat::int(2).pow(58);
    let wf: Vec<Fix> = w.iter().map(|w| fix(*w)).collect();
    let mut worst = (0.0, vec![]);
    for m in ms {
        let mut s: Fix = 0;
        for (w, x) in wf.iter().zip(&pows) {
            let mut t = *w;
            for (k, e) in m.iter().enumerate() {
                t = mul(t, x[k][*e as usize]);
            }
            s += t;
        }
        let want = dom.moment(m).mul(&scale).to_f64();
        let err = ((s as f64) - want).abs() / ONE as f64;
        if !(err <= worst.0) {
            worst = (err, m.clone());
        }
    }
    worst
}
fn split<T: SReal, Q>(q: &Q) -> (Vec<f64>, Vec<Vec<f64>>)
where
    Q: Flat<T>,
{
    q.flat()
}
trait Flat<T> {
    fn flat(&self) -> (Vec<f64>, Vec<Vec<f64>>);
}
macro_rules! flat {
    ($p:ident) => {
        impl<T: SReal> Flat<T> for (Vec<T>, Vec<$p<T>>) {
            fn flat(&self) -> (Vec<f64>, Vec<Vec<f64>>) {
                (self.0.iter().map(|w| w.approx_f64()).collect(), self.1.iter().map(|p| p.coords.iter().map(|x| x.approx_f64()).collect()).collect())
            }
        }
    };
}
flat!(Point1);
flat!(Point2);
flat!(Point3);
const TOL: f64 = 1e-13;

fn check_rule<T: SReal>(cx: &mut Cx<T>, name: &str, dom: Domain, w: &[f64], p: &[Vec<f64>], ms: &[Vec<u32>], interior: bool) {
    cx.ensure(&format!("{}: as many weights as points", name), w.len() == p.len() && !w.is_empty());
    cx.ensure(&format!("{}: weights are positive", name), w.iter().all(|w| *w > 0.0));
    cx.ensure(&format!("{}: points lie in the domain", name), p.iter().all(|x| dom.slack(x) >= if interior { 0.0 } else { -1e-15 }));
    let (err, m) = exactness(dom, w, p, ms);
    if err > TOL {
        cx.ensure(&format!("{}: exact for the monomial {:?} (error {:e})", name, m, err), false);
    } else {
        cx.ensure(&format!("{}: exact for all monomials", name), true);
    }
    if std::env::var("C04_SHOW").is_ok() {
        eprintln!("{} {} {:e} {:?}", name, w.len(), err, m);
    }
}
fn select<T: SReal>(dom: Domain, s: usize) -> Result<(Vec<f64>, Vec<Vec<f64>>), QuadratureError> {
    Ok(match dom {
        Tri => split::<T, _>(&total_order::triangle::<T>(s)?),
        Quad => split::<T, _>(&total_order::quadrilateral::<T>(s)?),
        Tet => split::<T, _>(&total_order::tetrahedron::<T>(s)?),
        Hex => split::<T, _>(&total_order::hexahedron::<T>(s)?),
        Prism => split::<T, _>(&total_order::prism::<T>(s)?),
        Pyramid => split::<T, _>(&total_order::pyramid::<T>(s)?),
        Seg => unreachable!(),
    })
}
fn raw(dom: Domain, s: usize) -> Option<(Vec<f64>, Vec<Vec<f64>>)> {
    use fenris_quadrature::polyquad as q;
    fn f<const D: usize>(r: fenris_quadrature::Rule<D>) -> (Vec<f64>, Vec<Vec<f64>>) {
        (r.0, r.1.iter().map(|p| p.to_vec()).collect())
    }
    match dom {
        Tri => q::triangle(s).ok().map(f),
        Quad => q::quadrilateral(s).ok().map(f),
        Tet => q::tetrahedron(s).ok().map(f),
        Hex => q::hexahedron(s).ok().map(f),
        Prism => q::prism(s).ok().map(f),
        Pyramid => q::pyramid(s).ok().map(f),
        Seg => unreachable!(),
    }
}
/// Every strength up to the largest supported one; there is no rule beyond.
fn total<T: SReal>(cx: &mut Cx<T>, dom: Domain, max: usize) {
    let mut last = 0;
    for s in 0..=max {
        let name = format!("strength {}", s);
        match select::<T>(dom, s) {
            Ok((w, p)) => {
                check_rule(cx, &name, dom, &w, &p, &monomials(dom.dim(), s as u32), true);
                cx.ensure("a higher strength does not need fewer points", w.len() >= last);
                last = w.len();
                cx.ensure("conversion keeps the rule", raw(dom, s) == Some((w, p)));
            }
            Err(_) => cx.ensure(&format!("{}: a rule is available", name), false),
        }
    }
    for s in (max + 1..max + 200).chain([1 << 20, usize::MAX / 2, usize::MAX - 1, usize::MAX]) {
        cx.ensure("no rule is reported beyond the largest strength", select::<T>(dom, s).is_err());
    }
}
fn gauss<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let (w, p) = split::<T, _>(&univariate::gauss::<T>(n));
    cx.ensure("number of points", w.len() == n);
    check_rule(cx, "Gauss", Seg, &w, &p, &monomials(1, 2 * n as u32 - 1), true);
    let raw = fenris_quadrature::univariate::gauss(n);
    cx.ensure("conversion keeps the rule", raw.0 == w && raw.1.iter().map(|p| p.to_vec()).collect::<Vec<_>>() == p);
}
fn gauss_tensor<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let (w, p) = split::<T, _>(&tensor::quadrilateral_gauss::<T>(n));
    cx.ensure("number of points", w.len() == n * n);
    check_rule(cx, "quadrilateral", Quad, &w, &p, &box_monomials(2, 2 * n as u32 - 1), true);
    let (w, p) = split::<T, _>(&tensor::hexahedron_gauss::<T>(n));
    cx.ensure("number of points", w.len() == n * n * n);
    check_rule(cx, "hexahedron", Hex, &w, &p, &box_monomials(3, 2 * n as u32 - 1), true);
}
fn lobatto<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let available = (n >= 2 && n <= 32) || [64, 128, 256, 512].contains(&n);
    match univariate::try_gauss_lobatto::<T>(n) {
        None => cx.ensure("the rule is available", !available),
        Some(q) => {
            let (w, p) = split::<T, _>(&q);
            cx.ensure("number of points", w.len() == n);
            cx.ensure("end points are included", p.iter().filter(|x| x[0] == 1.0).count() == 1 && p.iter().filter(|x| x[0] == -1.0).count() == 1);
            check_rule(cx, "Gauss-Lobatto", Seg, &w, &p, &monomials(1, 2 * n as u32 - 3), false);
        }
    }
}
/// The rule a table reports for an element.
fn table<T: SReal, D, Q>(t: &Q) -> (Vec<fenris::nalgebra::OPoint<T, D>>, Vec<T>)
where
    D: fenris::SmallDim,
    Q: QuadratureTable<T, D, Data = ()>,
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<T, D>,
{
    let n = t.element_quadrature_size(3);
    let (mut p, mut w) = (vec![fenris::nalgebra::OPoint::origin(); n], vec![T::zero(); n]);
    t.populate_element_quadrature(3, &mut p, &mut w);
    (p, w)
}
fn canonical<T: SReal>(cx: &mut Cx<T>) {
    macro_rules! canon {
        ($e:expr, $c:ty, $D:expr, $dom:expr, $mass:expr, $stiff:expr) => {{
            let e = $e;
            let mesh: Mesh<T, _, $c> = Mesh::from_vertices_and_connectivity(vec![], vec![]);
            let name = stringify!($c);
            let cases = [
                ("mass", split::<T, _>(&e.canonical_mass_quadrature()), table(&mesh.canonical_mass_quadrature()), $mass),
                ("stiffness", split::<T, _>(&e.canonical_stiffness_quadrature()), table(&mesh.canonical_stiffness_quadrature()), $stiff),
            ];
            for (kind, (w, p), (mp, mw), ms) in cases {
                check_rule(cx, &format!("{} {}", name, kind), $dom, &w, &p, &ms, true);
                let same = mw.iter().map(|x| x.approx_f64()).eq(w.iter().copied()) && mp.iter().map(|x| x.coords.iter().map(|y| y.approx_f64()).collect::<Vec<_>>()).eq(p.iter().cloned());
                cx.ensure(&format!("{} {}: the rule of a mesh is that of its elements", name, kind), same);
            }
        }};
    }
    canon!(Tri3d2Element::<T>::reference(), Tri3d2Connectivity, 2, Tri, monomials(2, 2), monomials(2, 0));
    canon!(Tri6d2Element::<T>::reference(), Tri6d2Connectivity, 2, Tri, monomials(2, 4), monomials(2, 2));
    canon!(Quad4d2Element::<T>::reference(), Quad4d2Connectivity, 2, Quad, box_monomials(2, 2), box_monomials(2, 2));
    canon!(Quad9d2Element::<T>::reference(), Quad9d2Connectivity, 2, Quad, box_monomials(2, 4), box_monomials(2, 4));
    canon!(Tet4Element::<T>::reference(), Tet4Connectivity, 3, Tet, monomials(3, 2), monomials(3, 0));
    canon!(Tet10Element::<T>::reference(), Tet10Connectivity, 3, Tet, monomials(3, 4), monomials(3, 2));
    canon!(Tet20Element::<T>::reference(), Tet20Connectivity, 3, Tet, monomials(3, 6), monomials(3, 4));
    canon!(Hex8Element::<T>::reference(), Hex8Connectivity, 3, Hex, box_monomials(3, 2), box_monomials(3, 2));
    canon!(Hex20Element::<T>::reference(), Hex20Connectivity, 3, Hex, box_monomials(3, 4), box_monomials(3, 4));
    canon!(Hex27Element::<T>::reference(), Hex27Connectivity, 3, Hex, box_monomials(3, 4), box_monomials(3, 4));
}
/// An arbitrary rule with n points.
fn any_rule<T: SReal>(cx: &mut Cx<T>, n: usize, d: usize) -> (Vec<T>, Vec<Vec<T>>) {
    ((0..n).map(|_| cx.real("w")).collect(), (0..n).map(|_| cx.reals("x", d)).collect())
}
fn pow<T: SReal>(x: T, k: u32) -> T {
    (0..k).fold(T::one(), |p, _| p * x)
}
fn rat<T: SReal>(n: i64, d: i64) -> T {
    T::int(n) / T::int(d)
}
/// A rule applied in every piece: the pieces are [-1 + 2 i / m, -1 + 2 (i + 1) / m].
fn pieces_1d<T: SReal>(cx: &mut Cx<T>, n: usize, m: usize) {
    let (w, x) = any_rule(cx, n, 1);
    let q = subdivide_univariate((w.clone(), x.iter().map(|x| Point1::new(x[0])).collect::<Vec<_>>()), m);
    cx.ensure("number of points", q.0.len() == n * m && q.1.len() == n * m);
    for k in 0..=2 * n as u32 + 1 {
        let got = q.0.iter().zip(&q.1).fold(T::zero(), |s, (w, p)| s + *w * pow(p.x, k));
        let mut want = T::zero();
        for i in 0..m as i64 {
            let c = rat::<T>(2 * i + 1 - m as i64, m as i64);
            for j in 0..n {
                want += w[j] / T::int(m as i64) * pow(c + x[j][0] / T::int(m as i64), k);
            }
        }
        cx.ensure_eq("sum over the pieces", got, want);
    }
}
fn pieces_2d<T: SReal>(cx: &mut Cx<T>, n: usize, m: usize) {
    let (w, x) = any_rule(cx, n, 2);
    let q = subdivide_triangle((w.clone(), x.iter().map(|x| Point2::new(x[0], x[1])).collect::<Vec<_>>()), m);
    cx.ensure("number of points", q.0.len() == n * m * m && q.1.len() == n * m * m);
    let mi = m as i64;
    for mono in monomials(2, 2 * n as u32 + 1) {
        let got = q.0.iter().zip(&q.1).fold(T::zero(), |s, (w, p)| s + *w * pow(p.x, mono[0]) * pow(p.y, mono[1]));
        let mut want = T::zero();
        let mut add = |v: [[i64; 2]; 3]| {
            // vertices in units of 2 / m from the corner
            for j in 0..n {
                let (u, t) = ((x[j][0] + T::one()) / T::int(2), (x[j][1] + T::one()) / T::int(2));
                let c = |k: usize| T::int(v[0][k]) + T::int(v[1][k] - v[0][k]) * u + T::int(v[2][k] - v[0][k]) * t;
                let (a, b) = (c(0) * rat(2, mi) - T::one(), c(1) * rat(2, mi) - T::one());
                want += w[j] * rat(1, mi * mi) * pow(a, mono[0]) * pow(b, mono[1]);
            }
        };
        for i in 0..mi {
            for j in 0..mi - i {
                add([[i, j], [i + 1, j], [i, j + 1]]);
                if i + j + 1 < mi {
                    add([[i + 1, j], [i + 1, j + 1], [i, j + 1]]);
                }
            }
        }
        cx.ensure_eq("sum over the pieces", got, want);
    }
}
/// A rule whose moments are exact stays exact: an exact rational rule is subdivided.
fn exact_1d<T: SReal>(cx: &mut Cx<T>, m: usize) {
    // Simpson, exact for cubics
    let q = subdivide_univariate((vec![rat::<T>(1, 3), rat(4, 3), rat(1, 3)], [-1, 0, 1].iter().map(|x| Point1::new(T::int(*x))).collect::<Vec<_>>()), m);
    for k in 0..4u32 {
        let got = q.0.iter().zip(&q.1).fold(T::zero(), |s, (w, p)| s + *w * pow(p.x, k));
        let want = if k % 2 == 1 { T::zero() } else { rat(2, k as i64 + 1) };
        cx.ensure_eq("exact for cubics", got, want);
    }
}
fn exact_2d<T: SReal>(cx: &mut Cx<T>, m: usize) {
    // midpoints of the sides, exact for quadratics
    let p = [[0, -1], [0, 0], [-1, 0]];
    let q = subdivide_triangle((vec![rat::<T>(2, 3); 3], p.iter().map(|x| Point2::new(T::int(x[0]), T::int(x[1]))).collect::<Vec<_>>()), m);
    for mono in monomials(2, 2) {
        let got = q.0.iter().zip(&q.1).fold(T::zero(), |s, (w, p)| s + *w * pow(p.x, mono[0]) * pow(p.y, mono[1]));
        let r = Tri.moment(&mono);
        cx.ensure_eq("exact for quadratics", got, rat(i64::try_from(r.numer()).unwrap(), i64::try_from(r.denom()).unwrap()));
    }
    for (w, p) in q.0.iter().zip(&q.1) {
        cx.ensure_gt("weights stay positive", *w, T::zero());
        cx.ensure_le("points stay inside", -T::one(), p.x);
        cx.ensure_le("points stay inside", -T::one(), p.y);
        cx.ensure_le("points stay inside", p.x + p.y, T::zero());
    }
}
fn integrate<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let (w, x) = any_rule(cx, n, 1);
    let q = (w.clone(), x.iter().map(|x| Point1::new(x[0])).collect::<Vec<_>>());
    // an arbitrary function: one arbitrary value per point
    let f = cx.reals("f", n);
    let k = std::cell::Cell::new(0);
    let got: T = q.integrate(|p| {
        let i = k.get();
        k.set(i + 1);
        assert!(p.x == x[i][0]);
        f[i]
    });
    let want = (0..n).fold(T::zero(), |s, i| s + w[i] * f[i]);
    cx.ensure_eq("integral", got, want);
    let parts = q.to_parts();
    cx.ensure("parts", parts.weights.len() == n && parts.points.len() == n && parts.data.len() == n);
    let mut c = 0;
    for (i, (a, p, _)) in q.iter().enumerate() {
        cx.ensure_eq("iterated weight", *a, w[i]);
        cx.ensure_eq("iterated point", p.x, x[i][0]);
        c += 1;
    }
    cx.ensure("iterates over all points", c == n);
}
fn main() {
    let mut v: Vec<Item> = vec![];
    for (dom, name, max) in [(Tri, "triangle", 20), (Quad, "quadrilateral", 21), (Tet, "tetrahedron", 10), (Hex, "hexahedron", 11), (Prism, "prism", 10), (Pyramid, "pyramid", 10)] {
        v.push(dual!(format!("C04: rules of total order for the {}", name), [format!("fenris_quadrature::polyquad::{}", name), format!("quadrature::total_order::{}", name)], "", |cx, T| total::<T>(cx, dom, max), samples = 1));
    }
    for n in 1..=40 {
        v.push(dual!(format!("C04: Gauss rule with {} points", n), ["fenris_quadrature::univariate::gauss", "quadrature::univariate::gauss"], format!("{} points", n), |cx, T| gauss::<T>(cx, n), samples = 1));
    }
    for n in 1..=8 {
        v.push(dual!(format!("C04: tensor rules with {} points per direction", n), ["fenris_quadrature::tensor::{quadrilateral_gauss,hexahedron_gauss}", "quadrature::tensor::{quadrilateral_gauss,hexahedron_gauss}"], format!("{} points per direction", n), |cx, T| gauss_tensor::<T>(cx, n), samples = 1));
    }
    v.push(dual!("C04: Gauss-Lobatto rules", ["fenris_quadrature::univariate::try_gauss_lobatto", "quadrature::univariate::try_gauss_lobatto"], "", |cx, T| {
        for n in (0..140).chain([255, 256, 257, 511, 512, 513, 1024, usize::MAX]) {
            if n <= 40 || n > 120 {
                cx.scope(&format!("{} points", n));
                lobatto::<T>(cx, n);
            }
        }
    }, samples = 1));
    v.push(dual!("C04: canonical rules", ["CanonicalMassQuadrature", "CanonicalStiffnessQuadrature"], "", |cx, T| canonical::<T>(cx), samples = 1));
    for n in 0..4 {
        v.push(dual!(format!("C04: integration with {} points", n), ["Quadrature::{integrate,iter,to_parts}"], format!("{} points", n), |cx, T| integrate::<T>(cx, n)));
    }
    for n in 1..=2 {
        for m in 1..=6 {
            v.push(dual!(format!("C04: any rule with {} points in {} pieces", n, m), ["subdivide_univariate"], format!("{} points, {} pieces", n, m), |cx, T| pieces_1d::<T>(cx, n, m)));
        }
        for m in 1..=4 {
            v.push(dual!(format!("C04: any rule with {} points in a triangle with {} subdivisions", n, m), ["subdivide_triangle"], format!("{} points, {} subdivisions", n, m), |cx, T| pieces_2d::<T>(cx, n, m)));
        }
    }
    for m in 1..=12 {
        v.push(dual!(format!("C04: subdivision into {} pieces stays exact", m), ["subdivide_univariate"], format!("{} pieces", m), |cx, T| exact_1d::<T>(cx, m), samples = 1));
        v.push(dual!(format!("C04: {} subdivisions of a triangle stay exact", m), ["subdivide_triangle"], format!("{} subdivisions", m), |cx, T| exact_2d::<T>(cx, m), samples = 1));
    }
    v.push(bounded("C04: Gauss rules with many points", &["fenris_quadrature::univariate::gauss"], "up to 200 points (1000 in the thorough tier), Legendre polynomials of all degrees up to twice the number of points", |e| {
        let top = if e.thorough { 1000 } else { 200 };
        for n in 1..=top {
            e.case(|| format!("{} points", n), || {
                // the code iterates until convergence: give up after a while
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::spawn(move || tx.send(fenris_quadrature::univariate::gauss(n)).ok());
                let (w, p) = rx.recv_timeout(std::time::Duration::from_secs(20)).map_err(|_| "no answer within 20 seconds".to_string())?;
                if w.len() != n || p.len() != n || w.iter().any(|w| !(*w > 0.0)) || p.iter().any(|p| !(p[0].abs() < 1.0)) {
                    return Err("wrong number of points, weights or points out of range".into());
                }
                let mut sums = vec![0.0; 2 * n];
                for (w, p) in w.iter().zip(&p) {
                    let (mut a, mut b) = (1.0, p[0]);
                    sums[0] += w;
                    for k in 1..2 * n {
                        sums[k] += w * b;
                        let c = ((2 * k + 1) as f64 * p[0] * b - k as f64 * a) / (k + 1) as f64;
                        a = b;
                        b = c;
                    }
                }
                sums[0] -= 2.0;
                let worst = sums.iter().fold(0.0f64, |m, s| m.max(s.abs()));
                if !(worst < 1e-11) {
                    return Err(format!("error {:e}", worst));
                }
                Ok(())
            });
        }
    }));
    symcore::run::main(v);
}
