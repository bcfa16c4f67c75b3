//! C07: mass matrices and source vectors.
use contracts::mock::*;
use fenris::allocators::{BiDimAllocator, TriDimAllocator};
use fenris::assembly::local::*;
use fenris::assembly::operators::Operator;
use fenris::element::*;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut, DefaultAllocator, DimName, OPoint, OVector, Point2, Point3, U1, U2, U3};
use fenris::space::ElementInSpace;
use fenris::util::NestedVec;
use fenris::SmallDim;
use std::marker::PhantomData;
use symcore::run::Item;
use symcore::{contract, Cx, SReal};

const NODES: [&[usize]; 3] = [&[4, 0, 2], &[1, 3], &[2, 2, 0]];
const NQ: [usize; 3] = [2, 1, 2];

/// An arbitrary source: affine in the physical point, with arbitrary coefficients for every parameter.
struct MockSource<T, S> {
    a: Vec<Vec<T>>,
    dims: PhantomData<S>,
}
impl<T: SReal, S: SmallDim> MockSource<T, S> {
    fn new(cx: &mut Cx<T>, n: usize, d: usize) -> Self {
        MockSource { a: (0..n).map(|p| cx.reals(&format!("f{}_", p), S::dim() * (d + 1))).collect(), dims: PhantomData }
    }
    fn at(&self, p: usize, x: &[T], i: usize) -> T {
        let a = &self.a[p][i * (x.len() + 1)..];
        (0..x.len()).fold(a[x.len()], |s, k| s + a[k] * x[k])
    }
}
impl<T, G, S: SmallDim> Operator<T, G> for MockSource<T, S> {
    type SolutionDim = S;
    type Parameters = usize;
}
impl<T: SReal, G: SmallDim, S: SmallDim> SourceFunction<T, G> for MockSource<T, S>
where
    DefaultAllocator: BiDimAllocator<T, G, S>,
{
    fn evaluate(&self, x: &OPoint<T, G>, p: &usize) -> OVector<T, S> {
        OVector::<T, S>::from_fn(|i, _| self.at(*p, x.coords.as_slice(), i))
    }
}
fn want_mass<T: SReal, D: SmallDim>(sp: &MockSpace<T, D, D>, e: usize, w: &[T], rho: &[T], s: usize) -> Vec<T> {
    let n = sp.nodes[e].len();
    let mut m = vec![T::zero(); s * n * s * n];
    for q in 0..w.len() {
        let c = w[q] * rho[q] * sp.det(e, q).abs();
        for a in 0..n {
            for b in 0..n {
                for i in 0..s {
                    m[(b * s + i) * s * n + a * s + i] += c * sp.at[e][q].basis[a] * sp.at[e][q].basis[b];
                }
            }
        }
    }
    m
}
fn want_source<T: SReal, D: SmallDim, S: SmallDim>(sp: &MockSpace<T, D, D>, f: &MockSource<T, S>, e: usize, w: &[T], par: &[usize]) -> Vec<T> {
    let (n, s) = (sp.nodes[e].len(), S::dim());
    let mut v = vec![T::zero(); s * n];
    for q in 0..w.len() {
        let a = &sp.at[e][q];
        for k in 0..n {
            for i in 0..s {
                v[k * s + i] += w[q] * sp.det(e, q).abs() * f.at(par[q], &a.map, i) * a.basis[k];
            }
        }
    }
    v
}
fn mass<T: SReal, D: SmallDim>(cx: &mut Cx<T>, s: usize, nq: usize)
where
    DefaultAllocator: BiDimAllocator<T, D, D>,
{
    let sp = MockSpace::<T, D, D>::new(cx, 5, &NODES[..1], nq);
    let (w, rho) = (cx.reals("w", nq), cx.reals("rho", nq));
    let pts: Vec<OPoint<T, D>> = (0..nq).map(point).collect();
    let junk = T::ratio(13, 3);
    let mut m = DMatrix::from_element(3 * s, 3 * s, junk);
    let mut buf = vec![T::ratio(17, 5); 3];
    let e = ElementInSpace::from_space_and_element_index(&sp, 0);
    let r = assemble_element_mass_matrix(DMatrixViewMut::from(&mut m), &e, &w, &pts, &rho, s, &mut buf);
    cx.ensure("no error", r.is_ok());
    cx.ensure_eqs("element mass matrix", m.as_slice(), &want_mass(&sp, 0, &w, &rho, s));
}
fn source<T: SReal, D: SmallDim, S: SmallDim>(cx: &mut Cx<T>, nq: usize)
where
    DefaultAllocator: TriDimAllocator<T, D, D, S>,
{
    let sp = MockSpace::<T, D, D>::new(cx, 5, &NODES[..1], nq);
    let w = cx.reals("w", nq);
    let f = MockSource::<T, S>::new(cx, nq, D::dim());
    let pts: Vec<OPoint<T, D>> = (0..nq).map(point).collect();
    let par: Vec<usize> = (0..nq).rev().collect();
    let mut v = DVector::from_element(3 * S::dim(), T::ratio(13, 3));
    let mut buf = vec![T::ratio(17, 5); 3];
    let e = ElementInSpace::from_space_and_element_index(&sp, 0);
    assemble_element_source_vector(DVectorViewMut::from(&mut v), &e, &f, &w, &pts, &par, &mut buf);
    cx.ensure_eqs("element source vector", v.as_slice(), &want_source(&sp, &f, 0, &w, &par));
}
fn table<T: SReal, D: SmallDim, P: Clone>(cx: &mut Cx<T>, data: &mut dyn FnMut(&mut Cx<T>, usize, usize) -> P) -> (NestedVec<OPoint<T, D>>, NestedVec<T>, NestedVec<P>, Vec<Vec<T>>)
where
    DefaultAllocator: BiDimAllocator<T, D, D>,
{
    let (mut pts, mut ws, mut par, mut all) = (NestedVec::new(), NestedVec::new(), NestedVec::new(), vec![]);
    for e in 0..3 {
        let w = cx.reals(&format!("w{}_", e), NQ[e]);
        pts.push(&(0..NQ[e]).map(point).collect::<Vec<OPoint<T, D>>>());
        ws.push(&w);
        let d: Vec<P> = (0..NQ[e]).map(|q| data(cx, e, q)).collect();
        par.push(&d);
        all.push(w);
    }
    (pts, ws, par, all)
}
/// Sequences of elements of different sizes share the thread's workspace and an output with old contents.
fn mass_assembler<T: SReal, D: SmallDim>(cx: &mut Cx<T>, s: usize)
where
    DefaultAllocator: BiDimAllocator<T, D, D>,
{
    let sp = MockSpace::<T, D, D>::new(cx, 5, &NODES, 2);
    for e in 0..3 {
        for q in 0..2 {
            cx.assume_gt(sp.det(e, q), T::zero());
        }
    }
    let mut rhos = vec![vec![]; 3];
    let (pts, ws, par, all) = table::<T, D, Density<T>>(cx, &mut |cx, e, q| {
        let r = cx.real(&format!("rho{}_{}", e, q));
        rhos[e].push(r);
        Density(r)
    });
    let qt = GeneralQuadratureTable::from_points_weights_and_data(pts, ws, par);
    let asm = ElementMassAssembler::with_solution_dim(s).with_space(&sp).with_quadrature_table(&qt);
    cx.ensure("assembler dimensions", asm.solution_dim() == s && asm.num_elements() == 3 && asm.num_nodes() == 5);
    for e in [0, 1, 2, 1, 0] {
        let n = NODES[e].len();
        let mut nodes = vec![77; n];
        asm.populate_element_nodes(&mut nodes, e);
        cx.ensure("assembler nodes", nodes == NODES[e] && asm.element_node_count(e) == n);
        let x = want_mass(&sp, e, &all[e], &rhos[e], s);
        let m = asm.assemble_element_matrix(e);
        cx.ensure("no error", m.is_ok());
        cx.ensure_eqs("element mass matrix", m.unwrap().as_slice(), &x);
        let mut m = DMatrix::from_element(s * n, s * n, T::ratio(13, 3));
        cx.ensure("no error", asm.assemble_element_matrix_into(e, DMatrixViewMut::from(&mut m)).is_ok());
        cx.ensure_eqs("element mass matrix over old contents", m.as_slice(), &x);
    }
}
fn source_assembler<T: SReal, D: SmallDim, S: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: TriDimAllocator<T, D, D, S>,
{
    let s = S::dim();
    let sp = MockSpace::<T, D, D>::new(cx, 5, &NODES, 2);
    for e in 0..3 {
        for q in 0..2 {
            cx.assume_gt(sp.det(e, q), T::zero());
        }
    }
    let f = MockSource::<T, S>::new(cx, 5, D::dim());
    let mut id = 5;
    let mut pars = vec![vec![]; 3];
    let (pts, ws, par, all) = table::<T, D, usize>(cx, &mut |_, e, _| {
        id -= 1;
        pars[e].push(id);
        id
    });
    let qt = GeneralQuadratureTable::from_points_weights_and_data(pts, ws, par);
    let asm = ElementSourceAssemblerBuilder::new().with_finite_element_space(&sp).with_source(&f).with_quadrature_table(&qt).build::<T>();
    cx.ensure("assembler dimensions", asm.solution_dim() == s && asm.num_elements() == 3 && asm.num_nodes() == 5);
    for e in [0, 1, 2, 1, 0] {
        let n = NODES[e].len();
        let mut nodes = vec![77; n];
        asm.populate_element_nodes(&mut nodes, e);
        cx.ensure("assembler nodes", nodes == NODES[e] && asm.element_node_count(e) == n);
        let x = want_source(&sp, &f, e, &all[e], &pars[e]);
        let v = asm.assemble_element_vector(e);
        cx.ensure("no error", v.is_ok());
        cx.ensure_eqs("element source vector", v.unwrap().as_slice(), &x);
        let mut v = DVector::from_element(s * n, T::ratio(13, 3));
        cx.ensure("no error", asm.assemble_element_vector_into(e, DVectorViewMut::from(&mut v)).is_ok());
        cx.ensure_eqs("element source vector over old contents", v.as_slice(), &x);
    }
}
/// Library elements with any geometry: the basis functions and Jacobians are those of the element.
fn library<T: SReal, E: VolumetricFiniteElement<T>>(cx: &mut Cx<T>, e: &E)
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, U2>,
{
    let (n, d, s) = (e.num_nodes(), E::ReferenceDim::dim(), 2);
    let xi = OPoint::from(OVector::<T, E::ReferenceDim>::from_column_slice(&cx.reals("xi", d)));
    let (w, rho) = (cx.real("w"), cx.real("rho"));
    let phi: Vec<T> = {
        let mut p = vec![T::zero(); n];
        e.populate_basis(&mut p, &xi);
        p
    };
    let c = w * det(e.reference_jacobian(&xi).as_slice(), d).abs();
    let mut m = DMatrix::from_element(s * n, s * n, T::ratio(13, 3));
    let mut buf = vec![T::ratio(17, 5); n];
    cx.ensure("no error", assemble_element_mass_matrix(DMatrixViewMut::from(&mut m), e, &[w], &[xi.clone()], &[rho], s, &mut buf).is_ok());
    for a in 0..s * n {
        for b in 0..s * n {
            let x = if a % s == b % s { c * rho * phi[a / s] * phi[b / s] } else { T::zero() };
            cx.ensure_eq(&format!("mass[{},{}]", a, b), m[(a, b)], x);
        }
    }
    let f = MockSource::<T, U2>::new(cx, 1, E::GeometryDim::dim());
    let mut v = DVector::from_element(s * n, T::ratio(13, 3));
    assemble_element_source_vector(DVectorViewMut::from(&mut v), e, &f, &[w], &[xi.clone()], &[0], &mut buf);
    let x = e.map_reference_coords(&xi);
    for a in 0..s * n {
        cx.ensure_eq(&format!("source[{}]", a), v[a], c * f.at(0, x.coords.as_slice(), a % s) * phi[a / s]);
    }
}
/// One density per point reaches the point it belongs to.
fn density<T: SReal>(cx: &mut Cx<T>, n: usize) {
    let r = cx.reals("rho", n);
    let d: Vec<Density<T>> = r.iter().map(|x| Density(*x)).collect();
    cx.ensure("lengths", Density::as_inner_slice(&d).len() == n && Density::from_inner_slice(&r).len() == n);
    cx.ensure_eqs("inner values", Density::as_inner_slice(&d), &r);
    let back: Vec<T> = Density::from_inner_slice(&r).iter().map(|d| d.0).collect();
    cx.ensure_eqs("densities", &back, &r);
}
macro_rules! masses {
    ($($name:ident $text:expr, $d:ident $s:expr, $nq:expr;)*) => { $(
        contract!($name, concat!("element mass matrix ", $text), ["assemble_element_mass_matrix", "clone_upper_to_lower"], bound = concat!("3 nodes, solution dimension ", stringify!($s)), |cx, T| { mass::<T, $d>(cx, $s, $nq); });
    )* };
}
macro_rules! sources {
    ($($name:ident $d:ident $s:ident, $nq:expr;)*) => { $(
        contract!($name, concat!("element source vector ", stringify!($d), " ", stringify!($s)), ["assemble_element_source_vector"], bound = "3 nodes", |cx, T| { source::<T, $d, $s>(cx, $nq); });
    )* };
}
masses! { M11 "1D s=1", U1 1, 2; M12 "1D s=2", U1 2, 2; M21 "2D s=1", U2 1, 2; M22 "2D s=2", U2 2, 2; M23 "2D s=3", U2 3, 1; M31 "3D s=1", U3 1, 2; M32 "3D s=2", U3 2, 2; M33 "3D s=3", U3 3, 2; M34 "3D s=4", U3 4, 1; }
sources! { S11 U1 U1, 2; S12 U1 U2, 2; S21 U2 U1, 2; S22 U2 U2, 2; S23 U2 U3, 2; S31 U3 U1, 2; S32 U3 U2, 2; S33 U3 U3, 2; }
macro_rules! asms {
    ($($name:ident $text:expr, $f:expr, $call:expr;)*) => { $(
        contract!($name, $text, [$f, "QuadratureBuffer", "BasisFunctionBuffer", "GeneralQuadratureTable", "ElementMatrixAssembler::assemble_element_matrix", "ElementVectorAssembler::assemble_element_vector", "Density::as_inner_slice"], bound = "3 elements with 3, 2 and 3 nodes (one repeated) and 2, 1 and 2 points", |cx, T| { let f: fn(&mut Cx<T>) = $call; f(cx); });
    )* };
}
asms! {
    AM1 "mass assembler 1D s=2", "ElementMassAssembler", |cx| mass_assembler::<_, U1>(cx, 2);
    AM2 "mass assembler 2D s=1", "ElementMassAssembler", |cx| mass_assembler::<_, U2>(cx, 1);
    AM3 "mass assembler 2D s=3", "ElementMassAssembler", |cx| mass_assembler::<_, U2>(cx, 3);
    AM4 "mass assembler 3D s=2", "ElementMassAssembler", |cx| mass_assembler::<_, U3>(cx, 2);
    AS1 "source assembler 1D s=1", "ElementSourceAssembler", |cx| source_assembler::<_, U1, U1>(cx);
    AS2 "source assembler 2D s=2", "ElementSourceAssembler", |cx| source_assembler::<_, U2, U2>(cx);
    AS3 "source assembler 3D s=2", "ElementSourceAssembler", |cx| source_assembler::<_, U3, U2>(cx);
}
contract!(D1, "densities of one point", ["Density::as_inner_slice", "Density::from_inner_slice"], |cx, T| { density::<T>(cx, 1); });
contract!(D3, "densities of three points", ["Density::as_inner_slice", "Density::from_inner_slice"], bound = "3 points", |cx, T| { density::<T>(cx, 3); });
contract!(D0, "densities of no point", ["Density::as_inner_slice", "Density::from_inner_slice"], |cx, T| { density::<T>(cx, 0); cx.ensure("empty", true); });

fn p2<T: SReal>(cx: &mut Cx<T>) -> Point2<T> { let v = cx.reals("p", 2); Point2::new(v[0], v[1]) }
fn p3<T: SReal>(cx: &mut Cx<T>) -> Point3<T> { let v = cx.reals("p", 3); Point3::new(v[0], v[1], v[2]) }
macro_rules! libs {
    ($($name:ident $ty:ident |$cx:ident, $T:ident| $make:expr;)*) => { $(
        contract!($name, concat!(stringify!($ty), " mass and source"), ["assemble_element_mass_matrix", "assemble_element_source_vector", concat!("<", stringify!($ty), " as FiniteElement>")], bound = "1 quadrature point", |$cx, $T| {
            let e: $ty<$T> = $make;
            library($cx, &e);
        });
    )* };
}
libs! {
    LTri3 Tri3d2Element |cx, T| Tri3d2Element::from_vertices([p2(cx), p2(cx), p2(cx)]);
    LTri6 Tri6d2Element |cx, T| Tri6d2Element::from(&Tri3d2Element::from_vertices([p2(cx), p2(cx), p2(cx)]));
    LQuad4 Quad4d2Element |cx, T| Quad4d2Element::from_vertices([p2(cx), p2(cx), p2(cx), p2(cx)]);
    LTet4 Tet4Element |cx, T| Tet4Element::from_vertices([p3(cx), p3(cx), p3(cx), p3(cx)]);
}
fn main() {
    let mut items: Vec<Item> = vec![];
    macro_rules! one { ($($m:ident)*) => { $( items.push(Item::C(Box::new($m))); )* } }
    one!(M11 M12 M21 M22 M23 M31 M32 M33 M34 S11 S12 S21 S22 S23 S31 S32 S33 AM1 AM2 AM3 AM4 AS1 AS2 AS3 D0 D1 D3 LTri3 LTri6 LQuad4 LTet4);
    symcore::run::main(items);
}
