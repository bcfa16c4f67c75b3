//! C19: integrals and error norms.
use contracts::mock::*;
use fenris::allocators::{BiDimAllocator, DimAllocator, TriDimAllocator};
use fenris::assembly::global::assemble_scalar;
use fenris::assembly::local::*;
use fenris::element::*;
use fenris::error::*;
use fenris::integrate::dependency::*;
use fenris::integrate::*;
use fenris::nalgebra::{DVector, DVectorView, DefaultAllocator, DimName, OMatrix, OPoint, OVector, Point2, Point3, Vector1, U1, U2, U3};
use fenris::space::{ElementInSpace, FiniteElementConnectivity};
use fenris::util::NestedVec;
use fenris::SmallDim;
use symcore::run::Item;
use symcore::{dual, Cx, SReal};

const NODES: [&[usize]; 4] = [&[4, 0, 2], &[1, 3], &[2, 2, 0, 1], &[3]];
const NQ: [usize; 4] = [2, 1, 2, 0];

/// An arbitrary integrand: coefficients of (1, x, u, grad u, and one product) for every output.
struct Arb<T> {
    c: Vec<Vec<T>>,
}
impl<T: SReal> Arb<T> {
    fn new(cx: &mut Cx<T>, n: usize, out: usize) -> Self {
        Arb { c: (0..out).map(|o| cx.reals(&format!("c{}_", o), n + 2)).collect() }
    }
    fn at(&self, o: usize, args: &[&[T]]) -> T {
        let all: Vec<T> = args.concat();
        let c = &self.c[o];
        all.iter().zip(c).fold(c[all.len()], |s, (a, b)| s + *a * *b) + c[all.len() + 1] * all[0] * all[all.len() - 1]
    }
}
fn value<T: SReal, G: SmallDim, R: SmallDim>(sp: &MockSpace<T, G, R>, e: usize, q: usize, u: &[T], s: usize) -> Vec<T> {
    (0..s).map(|i| sp.nodes[e].iter().enumerate().fold(T::zero(), |v, (a, n)| v + sp.at[e][q].basis[a] * u[n * s + i])).collect()
}
/// Column by column: d u_i / d x_k at position i * d + k.
fn grad<T: SReal, G: SmallDim>(sp: &MockSpace<T, G, G>, e: usize, q: usize, u: &[T], s: usize) -> Vec<T> {
    let mut v = vec![];
    for i in 0..s {
        for k in 0..G::dim() {
            v.push(sp.nodes[e].iter().enumerate().fold(T::zero(), |v, (a, n)| v + sp.phys(e, q, a, k) * u[n * s + i]));
        }
    }
    v
}
fn form<T: SReal, G: SmallDim, R: SmallDim>(sp: &MockSpace<T, G, R>, e: usize, q: usize) -> T {
    let (g, r) = (G::dim(), R::dim());
    let j = &sp.at[e][q].jac;
    if g == r {
        return det(j, g).abs();
    }
    let m: Vec<T> = (0..r * r).map(|k| (0..g).fold(T::zero(), |s, i| s + j[(k / r) * g + i] * j[(k % r) * g + i])).collect();
    det(&m, r).sqrt()
}
/// The nodal values of one element: node a of the element is entry a.
fn local<T: SReal, G, R>(sp: &MockSpace<T, G, R>, e: usize, u: &[T], s: usize) -> Vec<T> {
    sp.nodes[e].iter().flat_map(|n| u[n * s..(n + 1) * s].to_vec()).collect()
}
fn over_element<T: SReal, G: SmallDim, R: SmallDim, S: SmallDim, O: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: TriDimAllocator<T, G, R, S> + DimAllocator<T, O>,
{
    let s = S::dim();
    let sp = MockSpace::<T, G, R>::new(cx, 5, &NODES[..2], 2);
    let u = cx.reals("u", 5 * s);
    let f = Arb::new(cx, G::dim() + s, O::dim());
    let fun = FnFunction::new(|x: &OPoint<T, G>, v: &OVector<T, S>| OVector::<T, O>::from_fn(|o, _| f.at(o, &[x.coords.as_slice(), v.as_slice()])));
    let plain = FnFunction::new(|x: &OPoint<T, G>| OVector::<T, O>::from_fn(|o, _| f.at(o, &[x.coords.as_slice(), &vec![T::one(); s]]))).with_dependencies::<NoDeps<S>>();
    let mut ws = IntegrationWorkspace::default();
    for e in [0, 1, 0] {
        let n = NQ[e];
        let w = cx.reals("w", n);
        let pts: Vec<OPoint<T, R>> = (0..n).map(point).collect();
        let el = ElementInSpace::from_space_and_element_index(&sp, e);
        let ul = DVector::from_vec(local(&sp, e, &u, s));
        let r = integrate_over_element(&fun, &el, (&w, &pts), &ul, &mut ws);
        let p = integrate_over_element(&plain, &el, (&w, &pts), &ul, &mut ws);
        for o in 0..O::dim() {
            let (mut x, mut y) = (T::zero(), T::zero());
            for q in 0..n {
                let c = w[q] * form(&sp, e, q);
                x += c * f.at(o, &[&sp.at[e][q].map, &value(&sp, e, q, &u, s)]);
                y += c * f.at(o, &[&sp.at[e][q].map, &vec![T::one(); s]]);
            }
            cx.ensure_eq(&format!("integral[{}]", o), r[o], x);
            cx.ensure_eq(&format!("integral of a function of the point[{}]", o), p[o], y);
        }
    }
}
fn over_volume<T: SReal, G: SmallDim, S: SmallDim, O: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: TriDimAllocator<T, G, G, S> + DimAllocator<T, O>,
{
    let (s, d) = (S::dim(), G::dim());
    let mut sp = MockSpace::<T, G, G>::new(cx, 5, &NODES[..2], 2);
    if d == 3 {
        sp = sp.fixed_jacobians();
    }
    for e in 0..2 {
        for q in 0..NQ[e] {
            cx.assume_ne(sp.det(e, q), T::zero());
        }
    }
    let u = cx.reals("u", 5 * s);
    let f = Arb::new(cx, d + s + d * s, O::dim());
    let (one, two) = (vec![T::one(); s], vec![T::int(2); d * s]);
    let all = FnFunction::new(|x: &OPoint<T, G>, v: &OVector<T, S>, g: &OMatrix<T, G, S>| OVector::<T, O>::from_fn(|o, _| f.at(o, &[x.coords.as_slice(), v.as_slice(), g.as_slice()])));
    let on_u = FnFunction::new(|x: &OPoint<T, G>, v: &OVector<T, S>| OVector::<T, O>::from_fn(|o, _| f.at(o, &[x.coords.as_slice(), v.as_slice(), &two]))).with_dependencies::<DependsOnU>();
    let on_g = FnFunction::new(|x: &OPoint<T, G>, g: &OMatrix<T, G, S>| OVector::<T, O>::from_fn(|o, _| f.at(o, &[x.coords.as_slice(), &one, g.as_slice()]))).with_dependencies::<DependsOnGrad>();
    let mut ws = IntegrationWorkspace::default();
    for e in [0, 1, 0] {
        let n = NQ[e];
        let w = cx.reals("w", n);
        let pts: Vec<OPoint<T, G>> = (0..n).map(point).collect();
        let el = ElementInSpace::from_space_and_element_index(&sp, e);
        let ul = DVector::from_vec(local(&sp, e, &u, s));
        let r = integrate_over_volume_element(&all, &el, (&w, &pts), &ul, &mut ws);
        let ru = integrate_over_volume_element(&on_u, &el, (&w, &pts), &ul, &mut ws);
        let rg = integrate_over_volume_element(&on_g, &el, (&w, &pts), &ul, &mut ws);
        cx.ensure("no error", r.is_ok() && ru.is_ok() && rg.is_ok());
        let (r, ru, rg) = (r.ok().unwrap(), ru.ok().unwrap(), rg.ok().unwrap());
        for o in 0..O::dim() {
            let (mut x, mut y, mut z) = (T::zero(), T::zero(), T::zero());
            for q in 0..n {
                let c = w[q] * form(&sp, e, q);
                let (v, g) = (value(&sp, e, q, &u, s), grad(&sp, e, q, &u, s));
                x += c * f.at(o, &[&sp.at[e][q].map, &v, &g]);
                y += c * f.at(o, &[&sp.at[e][q].map, &v, &two]);
                z += c * f.at(o, &[&sp.at[e][q].map, &one, &g]);
            }
            cx.ensure_eq(&format!("integral[{}]", o), r[o], x);
            cx.ensure_eq(&format!("integral of a function of the value[{}]", o), ru[o], y);
            cx.ensure_eq(&format!("integral of a function of the gradient[{}]", o), rg[o], z);
        }
    }
}
fn singular<T: SReal, G: SmallDim, S: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: TriDimAllocator<T, G, G, S>,
{
    let d = G::dim();
    let mut sp = MockSpace::<T, G, G>::new(cx, 5, &NODES[..1], 2).fixed_jacobians();
    // the second point's Jacobian has a zero column
    for k in 0..d {
        sp.at[0][1].jac[(d - 1) * d + k] = T::zero();
    }
    let u = cx.reals("u", 3 * S::dim());
    let w = cx.reals("w", 2);
    let pts: Vec<OPoint<T, G>> = (0..2).map(point).collect();
    let el = ElementInSpace::from_space_and_element_index(&sp, 0);
    let g = FnFunction::new(|_: &OPoint<T, G>, g: &OMatrix<T, G, S>| Vector1::new(g[0])).with_dependencies::<DependsOnGrad>();
    let r = integrate_over_volume_element(&g, &el, (&w, &pts), &DVector::from_column_slice(&u), &mut IntegrationWorkspace::default());
    cx.ensure("a singular Jacobian is an error", matches!(r, Err(IntegrationFailure::SingularJacobian)));
}
fn table<T: SReal, D: SmallDim>(cx: &mut Cx<T>) -> (NestedVec<OPoint<T, D>>, NestedVec<T>, Vec<Vec<T>>)
where
    DefaultAllocator: BiDimAllocator<T, D, D>,
{
    let (mut pts, mut ws, mut all) = (NestedVec::new(), NestedVec::new(), vec![]);
    for e in 0..4 {
        let w = cx.reals(&format!("w{}_", e), NQ[e]);
        // later elements use their points in reverse
        pts.push(&(0..NQ[e]).map(|q| point(if e == 2 { 1 - q } else { q })).collect::<Vec<OPoint<T, D>>>());
        ws.push(&w);
        all.push(w);
    }
    (pts, ws, all)
}
fn pt(e: usize, q: usize) -> usize {
    if e == 2 { 1 - q } else { q }
}
fn assembler<T: SReal, G: SmallDim, R: SmallDim, S: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: TriDimAllocator<T, G, R, S> + TriDimAllocator<T, S, G, R>,
{
    let s = S::dim();
    let sp = MockSpace::<T, G, R>::new(cx, 5, &NODES, 2).fixed_jacobians();
    let u = cx.reals("u", 5 * s);
    let uv = DVector::from_column_slice(&u);
    let (pts, ws, w) = table::<T, R>(cx);
    let qt = GeneralQuadratureTable::from_points_and_weights(pts, ws);
    let f = Arb::new(cx, G::dim() + s, 1);
    let fun = FnFunction::new(|x: &OPoint<T, G>, v: &OVector<T, S>| Vector1::new(f.at(0, &[x.coords.as_slice(), v.as_slice()])));
    let asm = ElementIntegralAssemblerBuilder::new().with_space(&sp).with_quadrature_table(&qt).with_interpolation_weights(&uv).with_integrand(fun).build_integrator();
    cx.ensure("assembler dimensions", asm.solution_dim() == s && asm.num_elements() == 4 && asm.num_nodes() == 5);
    let want: Vec<T> = (0..4)
        .map(|e| (0..NQ[e]).fold(T::zero(), |a, q| a + w[e][q] * form(&sp, e, pt(e, q)) * f.at(0, &[&sp.at[e][pt(e, q)].map, &value(&sp, e, pt(e, q), &u, s)])))
        .collect();
    for e in [0, 1, 2, 3, 1, 0] {
        let mut nodes = vec![77; NODES[e].len()];
        asm.populate_element_nodes(&mut nodes, e);
        cx.ensure("assembler nodes", nodes == NODES[e] && asm.element_node_count(e) == NODES[e].len());
        let r = asm.assemble_element_scalar(e);
        cx.ensure("no error", r.is_ok());
        cx.ensure_eq("element integral", r.unwrap(), want[e]);
    }
    let r = assemble_scalar(&asm);
    cx.ensure("no error", r.is_ok());
    cx.ensure_eq("integral", r.unwrap(), want.iter().fold(T::zero(), |a, b| a + *b));
}
fn volume_assembler<T: SReal, G: SmallDim, S: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: TriDimAllocator<T, G, G, S> + TriDimAllocator<T, S, G, G>,
{
    let (s, d) = (S::dim(), G::dim());
    let sp = MockSpace::<T, G, G>::new(cx, 5, &NODES, 2).fixed_jacobians();
    let u = cx.reals("u", 5 * s);
    let uv = DVector::from_column_slice(&u);
    let (pts, ws, w) = table::<T, G>(cx);
    let qt = GeneralQuadratureTable::from_points_and_weights(pts, ws);
    let f = Arb::new(cx, d + s + d * s, 1);
    let fun = FnFunction::new(|x: &OPoint<T, G>, v: &OVector<T, S>, g: &OMatrix<T, G, S>| Vector1::new(f.at(0, &[x.coords.as_slice(), v.as_slice(), g.as_slice()])));
    let asm = ElementIntegralAssemblerBuilder::new().with_space(&sp).with_quadrature_table(&qt).with_interpolation_weights(&uv).with_integrand(fun).build_volume_integrator();
    cx.ensure("assembler dimensions", asm.solution_dim() == s && asm.num_elements() == 4 && asm.num_nodes() == 5);
    let want: Vec<T> = (0..4)
        .map(|e| {
            (0..NQ[e]).fold(T::zero(), |a, q| {
                let p = pt(e, q);
                a + w[e][q] * form(&sp, e, p) * f.at(0, &[&sp.at[e][p].map, &value(&sp, e, p, &u, s), &grad(&sp, e, p, &u, s)])
            })
        })
        .collect();
    for e in [0, 1, 2, 3, 1, 0] {
        let mut nodes = vec![77; NODES[e].len()];
        asm.populate_element_nodes(&mut nodes, e);
        cx.ensure("assembler nodes", nodes == NODES[e] && asm.element_node_count(e) == NODES[e].len());
        let r = asm.assemble_element_scalar(e);
        cx.ensure("no error", r.is_ok());
        cx.ensure_eq("element integral", r.unwrap(), want[e]);
    }
    let r = assemble_scalar(&asm);
    cx.ensure("no error", r.is_ok());
    cx.ensure_eq("integral", r.unwrap(), want.iter().fold(T::zero(), |a, b| a + *b));
}
fn sq<T: SReal>(a: &[T], b: &[T]) -> T {
    a.iter().zip(b).fold(T::zero(), |s, (x, y)| s + (*x - *y) * (*x - *y))
}
fn errors<T: SReal, G: SmallDim, S: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: TriDimAllocator<T, G, G, S> + TriDimAllocator<T, S, G, G>,
{
    let (s, d) = (S::dim(), G::dim());
    let sp = MockSpace::<T, G, G>::new(cx, 5, &NODES, 2).fixed_jacobians();
    let u = cx.reals("u", 5 * s);
    let uv = DVector::from_column_slice(&u);
    let (pts, ws, w) = table::<T, G>(cx);
    let f = Arb::new(cx, d, s);
    let g = Arb { c: (0..d * s).map(|k| cx.reals(&format!("g{}_", k), d + 2)).collect() };
    let uf = |x: &OPoint<T, G>| OVector::<T, S>::from_fn(|i, _| f.at(i, &[x.coords.as_slice()]));
    let gf = |x: &OPoint<T, G>| OMatrix::<T, G, S>::from_fn(|k, i| g.at(i * d + k, &[x.coords.as_slice()]));
    let (mut l2, mut h1) = (vec![], vec![]);
    for e in 0..4 {
        let (mut a, mut b) = (T::zero(), T::zero());
        for q in 0..NQ[e] {
            let p = pt(e, q);
            let x = &sp.at[e][p].map;
            let c = w[e][q] * form(&sp, e, p);
            a += c * sq(&value(&sp, e, p, &u, s), &(0..s).map(|i| f.at(i, &[x])).collect::<Vec<_>>());
            b += c * sq(&grad(&sp, e, p, &u, s), &(0..d * s).map(|k| g.at(k, &[x])).collect::<Vec<_>>());
        }
        l2.push(a);
        h1.push(b);
    }
    let mut iw = IntegrationWorkspace::default();
    for e in [0, 1, 2, 3, 0] {
        let el = ElementInSpace::from_space_and_element_index(&sp, e);
        let ul = DVector::from_vec(local(&sp, e, &u, s));
        let p: Vec<OPoint<T, G>> = (0..NQ[e]).map(|q| point(pt(e, q))).collect();
        let v = DVectorView::from(&ul);
        cx.ensure_eq("element L2 error squared", estimate_element_L2_error_squared(&el, &uf, v, &w[e], &p, &mut iw), l2[e]);
        cx.ensure_eq("element H1 seminorm error squared", estimate_element_H1_seminorm_error_squared(&el, &gf, v, &w[e], &p, &mut iw), h1[e]);
        cx.assume_le(T::zero(), l2[e]);
        cx.assume_le(T::zero(), h1[e]);
        cx.ensure_eq("element L2 error", estimate_element_L2_error(&el, &uf, v, &w[e], &p, &mut iw), l2[e].sqrt());
        cx.ensure_eq("element H1 seminorm error", estimate_element_H1_seminorm_error(&el, &gf, v, &w[e], &p, &mut iw), h1[e].sqrt());
    }
    let qt = GeneralQuadratureTable::from_points_and_weights(pts, ws);
    let sum = |v: &[T]| v.iter().fold(T::zero(), |a, b| a + *b);
    let get = |cx: &mut Cx<T>, r: fenris::eyre::Result<T>| {
        cx.ensure("no error", r.is_ok());
        r.unwrap()
    };
    let a = get(cx, estimate_L2_error_squared::<T, S, _, _>(&sp, &uf, &uv, &qt));
    let b = get(cx, estimate_H1_seminorm_error_squared::<T, S, _, _>(&sp, &gf, &uv, &qt));
    cx.ensure_eq("L2 error squared", a, sum(&l2));
    cx.ensure_eq("H1 seminorm error squared", b, sum(&h1));
    let a = get(cx, estimate_L2_error::<T, S, _, _>(&sp, &uf, &uv, &qt));
    let b = get(cx, estimate_H1_seminorm_error::<T, S, _, _>(&sp, &gf, &uv, &qt));
    cx.ensure_eq("L2 error", a, sum(&l2).sqrt());
    cx.ensure_eq("H1 seminorm error", b, sum(&h1).sqrt());
}
fn forms<T: SReal, G: SmallDim, R: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: BiDimAllocator<T, G, R>,
{
    let j = cx.reals("J", G::dim() * R::dim());
    let sp = MockSpace::<T, G, R> { num_nodes: 0, nodes: vec![vec![]], at: vec![vec![At { jac: j.clone(), basis: vec![], grad: vec![], map: vec![] }]], dims: std::marker::PhantomData };
    let w = form(&sp, 0, 0);
    let got = volume_form(&OMatrix::<T, G, R>::from_column_slice(&j));
    cx.ensure_eq("volume form squared", got * got, w * w);
    cx.ensure_le("volume form is not negative", T::zero(), got);
}
/// Library elements: a function of the finite element solution.
fn library<T: SReal, E: VolumetricFiniteElement<T>, S: SmallDim>(cx: &mut Cx<T>, e: &E)
where
    DefaultAllocator: TriDimAllocator<T, E::GeometryDim, E::ReferenceDim, S>,
{
    let (n, d) = (e.num_nodes(), <E::ReferenceDim as DimName>::dim());
    let xi = OPoint::from(OVector::<T, E::ReferenceDim>::from_column_slice(&cx.reals("xi", d)));
    let (w, u) = (cx.real("w"), cx.reals("u", 2 * n));
    let mut phi = vec![T::zero(); n];
    e.populate_basis(&mut phi, &xi);
    let x = e.map_reference_coords(&xi);
    let f = Arb::new(cx, d + 2, 1);
    let fun = FnFunction::new(|x: &OPoint<T, E::GeometryDim>, v: &OVector<T, S>| Vector1::new(f.at(0, &[x.coords.as_slice(), v.as_slice()])));
    let r = integrate_over_element(&fun, e, ([w], [xi.clone()]), &DVector::from_column_slice(&u), &mut IntegrationWorkspace::default());
    let v: Vec<T> = (0..2).map(|i| (0..n).fold(T::zero(), |s, a| s + phi[a] * u[2 * a + i])).collect();
    let c = w * det(e.reference_jacobian(&xi).as_slice(), d).abs();
    cx.ensure_eq("integral over a library element", r[0], c * f.at(0, &[x.coords.as_slice(), &v]));
}
fn p2<T: SReal>(cx: &mut Cx<T>) -> Point2<T> {
    let v = cx.reals("p", 2);
    Point2::new(v[0], v[1])
}
fn p3<T: SReal>(cx: &mut Cx<T>) -> Point3<T> {
    let v = cx.reals("p", 3);
    Point3::new(v[0], v[1], v[2])
}
fn main() {
    let mut items: Vec<Item> = vec![];
    let b = "2 elements with 3 and 2 nodes, 2 and 1 points";
    macro_rules! over { ($($g:ident $r:ident $s:ident $o:ident;)*) => { $(
        items.push(dual!(format!("integrate_over_element {} {} {} {}", stringify!($g), stringify!($r), stringify!($s), stringify!($o)), ["integrate_over_element", "volume_form", "compute_interpolation", "FnFunction"], b, |cx, T| over_element::<T, $g, $r, $s, $o>(cx)));
    )* } }
    over! { U1 U1 U1 U1; U2 U2 U1 U1; U2 U2 U2 U3; U3 U3 U2 U1; U3 U3 U3 U2; U2 U1 U2 U1; U3 U2 U2 U2; U3 U2 U1 U1; U3 U1 U3 U1; }
    macro_rules! vol { ($($g:ident $s:ident $o:ident;)*) => { $(
        items.push(dual!(format!("integrate_over_volume_element {} {} {}", stringify!($g), stringify!($s), stringify!($o)), ["integrate_over_volume_element", "volume_form", "compute_interpolation_gradient", "FnFunction"], b, |cx, T| over_volume::<T, $g, $s, $o>(cx)));
    )* } }
    vol! { U1 U1 U1; U1 U2 U1; U2 U1 U2; U2 U2 U1; U2 U3 U2; U3 U1 U1; U3 U2 U3; U3 U3 U1; }
    items.push(dual!("singular Jacobian 2D", ["integrate_over_volume_element"], "3 nodes, 2 points", |cx, T| singular::<T, U2, U1>(cx)));
    items.push(dual!("singular Jacobian 3D", ["integrate_over_volume_element"], "3 nodes, 2 points", |cx, T| singular::<T, U3, U2>(cx)));
    let b = "4 elements with 3, 2, 4 and 1 nodes (one repeated) and 2, 1, 2 and 0 points";
    macro_rules! asm { ($($g:ident $r:ident $s:ident;)*) => { $(
        items.push(dual!(format!("element integral assembler {} {} {}", stringify!($g), stringify!($r), stringify!($s)), ["ElementIntegralAssembler", "ElementIntegralAssemblerBuilder", "assemble_scalar", "QuadratureBuffer", "gather_global_to_local"], b, |cx, T| assembler::<T, $g, $r, $s>(cx)));
    )* } }
    asm! { U1 U1 U1; U2 U2 U2; U3 U3 U3; U3 U2 U2; U2 U1 U3; }
    macro_rules! vasm { ($($g:ident $s:ident;)*) => { $(
        items.push(dual!(format!("element volume integral assembler {} {}", stringify!($g), stringify!($s)), ["ElementIntegralVolumeAssembler", "ElementIntegralAssemblerBuilder", "assemble_scalar", "QuadratureBuffer", "gather_global_to_local"], b, |cx, T| volume_assembler::<T, $g, $s>(cx)));
        items.push(dual!(format!("error estimates {} {}", stringify!($g), stringify!($s)), ["estimate_L2_error", "estimate_L2_error_squared", "estimate_H1_seminorm_error", "estimate_H1_seminorm_error_squared", "estimate_element_L2_error", "estimate_element_L2_error_squared", "estimate_element_H1_seminorm_error", "estimate_element_H1_seminorm_error_squared"], b, |cx, T| errors::<T, $g, $s>(cx)));
    )* } }
    vasm! { U1 U1; U1 U2; U2 U1; U2 U2; U2 U3; U3 U2; U3 U3; }
    macro_rules! fm { ($($g:ident $r:ident;)*) => { $(
        items.push(dual!(format!("volume form {} {}", stringify!($g), stringify!($r)), ["volume_form"], "", |cx, T| forms::<T, $g, $r>(cx)));
    )* } }
    fm! { U1 U1; U2 U2; U3 U3; U2 U1; U3 U1; U3 U2; }
    items.push(dual!("Tri6 integral", ["integrate_over_element"], "1 quadrature point", |cx, T| {
        let e = Tri6d2Element::<T>::from(&Tri3d2Element::from_vertices([p2(cx), p2(cx), p2(cx)]));
        library::<T, _, U2>(cx, &e)
    }));
    items.push(dual!("Quad4 integral", ["integrate_over_element"], "1 quadrature point", |cx, T| {
        let e = Quad4d2Element::<T>::from_vertices([p2(cx), p2(cx), p2(cx), p2(cx)]);
        library::<T, _, U2>(cx, &e)
    }));
    items.push(dual!("Tet4 integral", ["integrate_over_element"], "1 quadrature point", |cx, T| {
        let e = Tet4Element::<T>::from_vertices([p3(cx), p3(cx), p3(cx), p3(cx)]);
        library::<T, _, U2>(cx, &e)
    }));
    symcore::run::main(items);
}
