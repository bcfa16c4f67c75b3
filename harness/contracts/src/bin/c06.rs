//! C06: local elliptic assembly.
use contracts::mock::*;
use fenris::allocators::{BiDimAllocator, DimAllocator, TriDimAllocator};
use fenris::assembly::buffers::QuadratureBuffer;
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::element::*;
use fenris::quadrature::{NoData, Quadrature, QuadratureParts};
use fenris::space::ElementInSpace;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorView, DVectorViewMut, DefaultAllocator, DimName, Dyn, MatrixViewMut, OMatrix, OPoint, OVector, Point2, Point3, U1, U2, U3};
use fenris::util::NestedVec;
use fenris::{SmallDim, Symmetry};
use fenris_solid::materials::*;
use fenris_solid::MaterialEllipticOperator;
use symcore::run::Item;
use symcore::{contract, dual, Cx, SReal};

const NODES: [&[usize]; 3] = [&[4, 0, 2], &[1, 3], &[2, 2, 0]];
const NQ: [usize; 3] = [2, 1, 2];

fn uloc<T: SReal>(u: &[T], nodes: &[usize], s: usize) -> Vec<T> {
    nodes.iter().flat_map(|n| (0..s).map(move |i| u[n * s + i])).collect()
}
/// gradient of the discrete function, column by column
fn ugrad<T: SReal, D: SmallDim>(sp: &MockSpace<T, D, D>, e: usize, q: usize, ul: &[T], s: usize) -> Vec<T> {
    let (d, n) = (D::dim(), sp.nodes[e].len());
    (0..s * d).map(|x| (0..n).fold(T::zero(), |a, i| a + sp.phys(e, q, i, x % d) * ul[i * s + x / d])).collect()
}
struct Want<T> {
    energy: T,
    vec: Vec<T>,
    mat: Vec<T>,
}
fn want<T: SReal, D: SmallDim, S: SmallDim>(sp: &MockSpace<T, D, D>, op: &MockOp<T, D, S>, e: usize, ul: &[T], w: &[T], par: &[usize], mat: bool) -> Want<T> {
    let (d, s, n) = (D::dim(), S::dim(), sp.nodes[e].len());
    let mut r = Want { energy: T::zero(), vec: vec![T::zero(); s * n], mat: vec![T::zero(); s * n * s * n] };
    for q in 0..w.len() {
        let g = ugrad(sp, e, q, ul, s);
        let c = w[q] * sp.det(e, q).abs();
        r.energy += c * op.energy(&g, par[q]);
        let phi: Vec<Vec<T>> = (0..n).map(|a| (0..d).map(|k| sp.phys(e, q, a, k)).collect()).collect();
        for a in 0..n {
            for i in 0..s {
                for k in 0..d {
                    r.vec[a * s + i] += c * op.op(&g, par[q], k, i) * phi[a][k];
                }
            }
        }
        if !mat {
            continue;
        }
        for a in 0..n {
            for i in 0..s {
                for b in 0..n {
                    for j in 0..s {
                        for k in 0..d {
                            for m in 0..d {
                                r.mat[(b * s + j) * s * n + a * s + i] += c * phi[a][k] * op.con(&g, par[q], k, i, m, j) * phi[b][m];
                            }
                        }
                    }
                }
            }
        }
    }
    r
}
#[derive(Clone, Copy)]
enum What {
    Energy,
    Vector,
    Matrix,
    Singular,
}
/// The free functions on one abstract element.
fn direct<T: SReal, D: SmallDim, S: SmallDim>(cx: &mut Cx<T>, what: What, symmetric: bool, nq: usize, fixed: bool)
where
    DefaultAllocator: TriDimAllocator<T, S, D, D> + BiDimAllocator<T, S, D>,
{
    let (d, s) = (D::dim(), S::dim());
    // the normal form of a product of two inverse 3x3 Jacobians is large: there the contraction does not depend on the gradient
    let light = d == 3 && matches!(what, What::Matrix) && !fixed;
    let nodes = if light { &NODES[1..2] } else { &NODES[..1] };
    let mut sp = MockSpace::<T, D, D>::new(cx, 5, nodes, nq);
    let mut op = MockOp::<T, D, S>::new(cx, nq, symmetric);
    if light {
        op = op.plain();
    }
    if fixed {
        sp = sp.fixed_jacobians();
    }
    let n = nodes[0].len();
    let ul = cx.reals("u", s * n);
    let w = cx.reals("w", nq);
    for q in 0..nq {
        if matches!(what, What::Singular) && q == nq - 1 {
            cx.assume_eq(sp.det(0, q), T::zero());
        } else {
            cx.assume_ne(sp.det(0, q), T::zero());
        }
    }
    let pts: Vec<OPoint<T, D>> = (0..nq).map(|q| point(q)).collect();
    // parameters in reverse order: each point must get its own
    let par: Vec<usize> = (0..nq).rev().collect();
    let e = ElementInSpace::from_space_and_element_index(&sp, 0);
    let mut buf = OMatrix::<T, D, Dyn>::from_element(n, T::ratio(17, 5));
    let junk = T::ratio(13, 3);
    let mut v = DVector::from_element(s * n, junk);
    let mut m = DMatrix::from_element(s * n, s * n, junk);
    let u = DVector::from_vec(ul.clone());
    match what {
        What::Energy => {
            let r = compute_element_elliptic_energy(&e, &op, DVectorView::from(&u), &w, &pts, &par, MatrixViewMut::from(&mut buf));
            cx.ensure("no error", r.is_ok());
            cx.ensure_eq("element energy", r.unwrap(), want(&sp, &op, 0, &ul, &w, &par, false).energy);
        }
        What::Vector => {
            let r = assemble_element_elliptic_vector(DVectorViewMut::from(&mut v), &e, &op, DVectorView::from(&u), &w, &pts, &par, MatrixViewMut::from(&mut buf));
            cx.ensure("no error", r.is_ok());
            let x = want(&sp, &op, 0, &ul, &w, &par, false);
            for i in 0..s * n {
                cx.ensure_eq(&format!("element vector[{}]", i), v[i], x.vec[i]);
            }
        }
        What::Matrix => {
            let r = assemble_element_elliptic_matrix(DMatrixViewMut::from(&mut m), &e, &op, DVectorView::from(&u), &w, &pts, &par, MatrixViewMut::from(&mut buf));
            cx.ensure("no error", r.is_ok());
            let x = want(&sp, &op, 0, &ul, &w, &par, true);
            for i in 0..s * n {
                for j in 0..s * n {
                    cx.ensure_eq(&format!("element matrix[{},{}]", i, j), m[(i, j)], x.mat[j * s * n + i]);
                }
            }
        }
        What::Singular => {
            cx.ensure("energy reports a singular Jacobian", compute_element_elliptic_energy(&e, &op, DVectorView::from(&u), &w, &pts, &par, MatrixViewMut::from(&mut buf)).is_err());
            cx.ensure("vector reports a singular Jacobian", assemble_element_elliptic_vector(DVectorViewMut::from(&mut v), &e, &op, DVectorView::from(&u), &w, &pts, &par, MatrixViewMut::from(&mut buf)).is_err());
            cx.ensure("matrix reports a singular Jacobian", assemble_element_elliptic_matrix(DMatrixViewMut::from(&mut m), &e, &op, DVectorView::from(&u), &w, &pts, &par, MatrixViewMut::from(&mut buf)).is_err());
        }
    }
    let _ = d;
}
/// The assembler over a whole abstract space: several elements in sequence share the thread's workspace.
fn assembler<T: SReal, D: SmallDim, S: SmallDim>(cx: &mut Cx<T>, what: What)
where
    DefaultAllocator: TriDimAllocator<T, S, D, D> + BiDimAllocator<T, S, D>,
{
    let s = S::dim();
    let sp = MockSpace::<T, D, D>::new(cx, 5, &NODES, 2);
    let op = MockOp::<T, D, S>::new(cx, 5, false);
    let ul = cx.reals("u", s * 5);
    let u = DVector::from_vec(ul.clone());
    let (mut pts, mut ws, mut par) = (NestedVec::new(), NestedVec::new(), NestedVec::new());
    let mut all = vec![];
    let mut id = 5;
    for e in 0..3 {
        let w = cx.reals(&format!("w{}_", e), NQ[e]);
        let p: Vec<OPoint<T, D>> = (0..NQ[e]).map(|q| point(q)).collect();
        let pr: Vec<usize> = (0..NQ[e]).map(|_| { id -= 1; id }).collect();
        pts.push(&p);
        ws.push(&w);
        par.push(&pr);
        for q in 0..NQ[e] {
            cx.assume_gt(sp.det(e, q), T::zero());
        }
        all.push((w, pr));
    }
    let table = GeneralQuadratureTable::from_points_weights_and_data(pts, ws, par);
    let asm = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&sp).with_operator(&op).with_quadrature_table(&table).with_u(&u).build();
    cx.ensure("assembler dimensions", asm.solution_dim() == s && asm.num_elements() == 3 && asm.num_nodes() == 5);
    for e in [0, 1, 2, 1, 0] {
        let n = NODES[e].len();
        let mut nodes = vec![77; n];
        asm.populate_element_nodes(&mut nodes, e);
        cx.ensure("assembler nodes", nodes == NODES[e] && asm.element_node_count(e) == n);
        let x = want(&sp, &op, e, &uloc(&ul, NODES[e], s), &all[e].0, &all[e].1, matches!(what, What::Matrix));
        match what {
            What::Energy => {
                let r = asm.assemble_element_scalar(e);
                cx.ensure("no error", r.is_ok());
                cx.ensure_eq("element scalar", r.unwrap(), x.energy);
            }
            What::Vector => {
                let r = asm.assemble_element_vector(e);
                cx.ensure("no error", r.is_ok());
                cx.ensure_eqs("element vector", r.unwrap().as_slice(), &x.vec);
            }
            _ => {
                let r = asm.assemble_element_matrix(e);
                cx.ensure("no error", r.is_ok());
                cx.ensure_eqs("element matrix", r.unwrap().as_slice(), &x.mat);
            }
        }
    }
}
/// Library elements and operators: vector and matrix are the exact derivatives of the element energy.
fn derivative<T: SReal, E: VolumetricFiniteElement<T>, O>(cx: &mut Cx<T>, e: &E, op: &O, pts: &[OPoint<T, E::ReferenceDim>], par: &[O::Parameters], det_sign: bool)
where
    O: EllipticEnergy<T, E::GeometryDim> + EllipticOperator<T, E::GeometryDim> + EllipticContraction<T, E::GeometryDim>,
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim> + BiDimAllocator<T, O::SolutionDim, E::GeometryDim> + BiDimAllocator<T, E::GeometryDim, O::SolutionDim>,
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    let n = e.num_nodes();
    let s = <O::SolutionDim as DimName>::dim();
    let ul = cx.reals("u", s * n);
    let w = cx.reals("w", pts.len());
    if det_sign {
        for p in pts {
            let j = e.reference_jacobian(p);
            cx.assume_gt(det(j.as_slice(), E::ReferenceDim::dim()), T::zero());
        }
    }
    let mut buf = OMatrix::<T, E::ReferenceDim, Dyn>::from_element(n, T::ratio(17, 5));
    let mut energy = |u: &[T]| compute_element_elliptic_energy(e, op, DVectorView::from(&DVector::from_column_slice(u)), &w, pts, par, MatrixViewMut::from(&mut buf)).unwrap();
    let mut v = DVector::from_element(s * n, T::ratio(13, 3));
    let mut m = DMatrix::from_element(s * n, s * n, T::ratio(13, 3));
    let mut buf2 = OMatrix::<T, E::ReferenceDim, Dyn>::from_element(n, T::ratio(17, 5));
    let u = DVector::from_vec(ul.clone());
    assemble_element_elliptic_vector(DVectorViewMut::from(&mut v), e, op, DVectorView::from(&u), &w, pts, par, MatrixViewMut::from(&mut buf2)).unwrap();
    assemble_element_elliptic_matrix(DMatrixViewMut::from(&mut m), e, op, DVectorView::from(&u), &w, pts, par, MatrixViewMut::from(&mut buf2)).unwrap();
    for j in 0..s * n {
        let dv = cx.directional(|eps| {
            let mut y = ul.clone();
            y[j] += eps;
            vec![energy(&y)]
        });
        cx.ensure_eq(&format!("vector[{}] is the derivative of the energy", j), v[j], dv[0]);
        let dm = cx.directional(|eps| {
            let mut y = ul.clone();
            y[j] += eps;
            let mut r = DVector::from_element(s * n, T::ratio(13, 3));
            assemble_element_elliptic_vector(DVectorViewMut::from(&mut r), e, op, DVectorView::from(&DVector::from_vec(y)), &w, pts, par, MatrixViewMut::from(&mut buf2)).unwrap();
            r.as_slice().to_vec()
        });
        for i in 0..s * n {
            cx.ensure_eq(&format!("matrix[{},{}] is the derivative of the vector", i, j), m[(i, j)], dm[i]);
            cx.ensure_eq("matrix symmetry", m[(i, j)], m[(j, i)]);
        }
    }
}
fn laplace<T: SReal, D: SmallDim>(cx: &mut Cx<T>)
where
    DefaultAllocator: BiDimAllocator<T, D, U1>,
{
    let d = D::dim();
    let x = cx.reals("G", d);
    let v = |x: &[T]| OMatrix::<T, D, U1>::from_column_slice(x);
    let e = LaplaceOperator.compute_energy(&v(&x), &());
    cx.ensure_eq("Laplace energy is half the squared gradient", e + e, x.iter().fold(T::zero(), |a, b| a + *b * *b));
    let g = LaplaceOperator.compute_elliptic_operator(&v(&x), &());
    let gt = LaplaceOperator.compute_elliptic_operator_transpose(&v(&x), &());
    let (a, b) = (cx.reals("a", d), cx.reals("b", d));
    let c = LaplaceOperator.contract(&v(&x), &OVector::<T, D>::from_column_slice(&a), &OVector::<T, D>::from_column_slice(&b), &());
    for k in 0..d {
        let dv = cx.directional(|eps| {
            let mut y = x.clone();
            y[k] += eps;
            vec![LaplaceOperator.compute_energy(&v(&y), &())]
        });
        cx.ensure_eq("operator is the derivative of the energy", g[k], dv[0]);
        cx.ensure_eq("transposed operator", gt[k], g[k]);
    }
    let dc = cx.directional(|eps| {
        let y: Vec<T> = x.iter().zip(&b).map(|(x, b)| *x + eps * *b).collect();
        let g = LaplaceOperator.compute_elliptic_operator(&v(&y), &());
        vec![(0..d).fold(T::zero(), |s, k| s + a[k] * g[k])]
    });
    cx.ensure_eq("contraction is the derivative of the operator", c[(0, 0)], dc[0]);
    let sym = <LaplaceOperator as EllipticContraction<T, D>>::symmetry(&LaplaceOperator);
    cx.ensure("symmetric", sym == Symmetry::Symmetric);
}
/// The default batch accumulation of contractions.
fn batch<T: SReal, D: SmallDim, S: SmallDim>(cx: &mut Cx<T>, symmetric: bool, mm: usize, nn: usize)
where
    DefaultAllocator: BiDimAllocator<T, D, S>,
{
    let (d, s) = (D::dim(), S::dim());
    let op = MockOp::<T, D, S>::new(cx, 2, symmetric);
    let g = OMatrix::<T, D, S>::from_column_slice(&cx.reals("G", d * s));
    let (a, b) = (DVector::from_vec(cx.reals("a", d * mm)), DVector::from_vec(cx.reals("b", d * nn)));
    let c0 = DMatrix::from_vec(s * mm, s * nn, cx.reals("C", s * s * mm * nn));
    let alpha = cx.real("alpha");
    let mut c = c0.clone();
    op.accumulate_contractions_into(DMatrixViewMut::from(&mut c), alpha, &g, DVectorView::from(&a), DVectorView::from(&b), &1);
    for x in 0..mm {
        for y in if symmetric { x } else { 0 }..nn {
            for i in 0..s {
                for j in 0..s {
                    let mut w = T::zero();
                    for k in 0..d {
                        for m in 0..d {
                            w += a[x * d + k] * op.con(g.as_slice(), 1, k, i, m, j) * b[y * d + m];
                        }
                    }
                    cx.ensure_eq("accumulated block", c[(x * s + i, y * s + j)], c0[(x * s + i, y * s + j)] + alpha * w);
                }
            }
        }
    }
}

macro_rules! shapes {
    ($($name:ident $d:ident $s:ident;)*) => { $(
        mod $name {
            use super::*;
            contract!(E, concat!("element energy ", stringify!($d), " ", stringify!($s)), ["compute_element_elliptic_energy", "compute_volume_u_grad"], bound = "3 nodes, 2 quadrature points",
                |cx, T| { direct::<T, $d, $s>(cx, What::Energy, false, 2, false); });
            contract!(V, concat!("element vector ", stringify!($d), " ", stringify!($s)), ["assemble_element_elliptic_vector", "compute_volume_u_grad", "EllipticOperator::compute_elliptic_operator_transpose"], bound = "3 nodes, 2 quadrature points",
                |cx, T| { direct::<T, $d, $s>(cx, What::Vector, false, 2, false); });
            contract!(M, concat!("element matrix ", stringify!($d), " ", stringify!($s)), ["assemble_element_elliptic_matrix", "compute_volume_u_grad", "EllipticContraction::accumulate_contractions_into"], bound = "2 nodes, 1 quadrature point in 3D, 3 nodes and 2 points otherwise",
                |cx, T| { let n = if <$d as DimName>::dim() == 3 { 1 } else { 2 }; direct::<T, $d, $s>(cx, What::Matrix, false, n, false); });
            contract!(MF, concat!("element matrix, fixed Jacobians ", stringify!($d), " ", stringify!($s)), ["assemble_element_elliptic_matrix", "compute_volume_u_grad", "EllipticContraction::accumulate_contractions_into"], bound = "3 nodes, 2 quadrature points, fixed Jacobians",
                |cx, T| { direct::<T, $d, $s>(cx, What::Matrix, false, 2, true); });
            contract!(MS, concat!("element matrix, symmetric operator ", stringify!($d), " ", stringify!($s)), ["assemble_element_elliptic_matrix", "clone_upper_to_lower", "EllipticContraction::accumulate_contractions_into"], bound = "3 nodes, 1 quadrature point",
                |cx, T| { direct::<T, $d, $s>(cx, What::Matrix, true, 1, false); });
        } )* };
}
shapes! { d11 U1 U1; d12 U1 U2; d21 U2 U1; d22 U2 U2; d23 U2 U3; d31 U3 U1; d32 U3 U2; d33 U3 U3; }
contract!(Sing1, "singular Jacobian 1D", ["compute_element_elliptic_energy", "assemble_element_elliptic_vector", "assemble_element_elliptic_matrix"], bound = "3 nodes, 2 quadrature points", |cx, T| { direct::<T, U1, U1>(cx, What::Singular, false, 2, false); });
contract!(Sing2, "singular Jacobian 2D", ["compute_element_elliptic_energy", "assemble_element_elliptic_vector", "assemble_element_elliptic_matrix"], bound = "3 nodes, 2 quadrature points", |cx, T| { direct::<T, U2, U1>(cx, What::Singular, true, 2, false); });
contract!(AsmE, "elliptic assembler: scalars of a sequence of elements", ["<ElementEllipticAssembler as ElementScalarAssembler>::assemble_element_scalar", "gather_global_to_local", "BasisFunctionBuffer", "QuadratureBuffer", "GeneralQuadratureTable"], bound = "3 elements with 3, 2 and 3 nodes (one repeated) and 2, 1 and 2 points", |cx, T| { assembler::<T, U2, U2>(cx, What::Energy); });
contract!(AsmV, "elliptic assembler: vectors of a sequence of elements", ["<ElementEllipticAssembler as ElementVectorAssembler>::assemble_element_vector_into", "ElementVectorAssembler::assemble_element_vector", "gather_global_to_local", "BasisFunctionBuffer", "QuadratureBuffer", "GeneralQuadratureTable"], bound = "3 elements with 3, 2 and 3 nodes (one repeated) and 2, 1 and 2 points", |cx, T| { assembler::<T, U2, U2>(cx, What::Vector); });
contract!(AsmM, "elliptic assembler: matrices of a sequence of elements", ["<ElementEllipticAssembler as ElementMatrixAssembler>::assemble_element_matrix_into", "ElementMatrixAssembler::assemble_element_matrix", "gather_global_to_local", "BasisFunctionBuffer", "QuadratureBuffer", "GeneralQuadratureTable"], bound = "3 elements with 3, 2 and 3 nodes (one repeated) and 2, 1 and 2 points", |cx, T| { assembler::<T, U2, U1>(cx, What::Matrix); });
contract!(Lap1, "Laplace operator 1D", ["LaplaceOperator"], |cx, T| { laplace::<T, U1>(cx); });
contract!(Lap2, "Laplace operator 2D", ["LaplaceOperator"], |cx, T| { laplace::<T, U2>(cx); });
contract!(Lap3, "Laplace operator 3D", ["LaplaceOperator"], |cx, T| { laplace::<T, U3>(cx); });
contract!(B23, "batch contraction 2x3", ["EllipticContraction::accumulate_contractions_into"], bound = "2 by 3 blocks", |cx, T| { batch::<T, U2, U2>(cx, false, 2, 3); });
contract!(B32, "batch contraction 3x2", ["EllipticContraction::accumulate_contractions_into"], bound = "3 by 2 blocks", |cx, T| { batch::<T, U2, U3>(cx, false, 3, 2); });
contract!(B23s, "batch contraction 2x3, symmetric", ["EllipticContraction::accumulate_contractions_into"], bound = "2 by 3 blocks", |cx, T| { batch::<T, U3, U2>(cx, true, 2, 3); });
contract!(B32s, "batch contraction 3x2, symmetric", ["EllipticContraction::accumulate_contractions_into"], bound = "3 by 2 blocks", |cx, T| { batch::<T, U2, U2>(cx, true, 3, 2); });

fn p2<T: SReal>(x: [[i64; 2]; 4]) -> Vec<Point2<T>> { x.iter().map(|a| Point2::new(T::int(a[0]), T::int(a[1]))).collect() }
fn rp<T: SReal, D: SmallDim>(cx: &mut Cx<T>) -> OPoint<T, D> where DefaultAllocator: DimAllocator<T, D> {
    OPoint::from(OVector::<T, D>::from_column_slice(&cx.reals("xi", D::dim())))
}
fn lame<T: SReal>(cx: &mut Cx<T>) -> LameParameters<T> { LameParameters { mu: cx.real("mu"), lambda: cx.real("lambda") } }
macro_rules! deriv {
    ($name:ident, $text:expr, $ty:ident, |$cx:ident, $T:ident| $make:expr, $op:expr, $par:expr, $sign:expr) => {
        contract!($name, $text, ["compute_element_elliptic_energy", "assemble_element_elliptic_vector", "assemble_element_elliptic_matrix", concat!("<", stringify!($ty), " as FiniteElement>::reference_jacobian"), concat!("<", stringify!($ty), " as ReferenceFiniteElement>::populate_basis_gradients")],
            bound = "1 quadrature point", |$cx, $T| {
            let e: $ty<$T> = $make;
            let xi = rp($cx);
            let par = $par;
            derivative($cx, &e, &$op, &[xi], &[par], $sign);
        });
    };
}
fn tri<T: SReal>(cx: &mut Cx<T>) -> [Point2<T>; 3] { let v = cx.reals("v", 6); [Point2::new(v[0], v[1]), Point2::new(v[2], v[3]), Point2::new(v[4], v[5])] }
fn quad<T: SReal>() -> [Point2<T>; 4] { p2([[0, 0], [3, 1], [4, 3], [-1, 2]]).try_into().unwrap() }
fn tet<T: SReal>() -> [Point3<T>; 4] { [Point3::new(T::int(0), T::int(0), T::int(0)), Point3::new(T::int(2), T::int(1), T::int(0)), Point3::new(T::int(0), T::int(3), T::int(1)), Point3::new(T::int(1), T::int(0), T::int(2))] }
fn hex<T: SReal>() -> [Point3<T>; 8] {
    let p = |a: i64, b: i64, c: i64| Point3::new(T::int(a), T::int(b), T::int(c));
    [p(0, 0, 0), p(4, 0, 1), p(5, 4, 0), p(0, 4, 0), p(0, 1, 4), p(4, 0, 4), p(4, 4, 5), p(0, 4, 4)]
}
deriv!(DTri3, "Tri3 with Laplace, any triangle", Tri3d2Element, |cx, T| Tri3d2Element::from_vertices(tri(cx)), LaplaceOperator, (), true);
deriv!(DTri3L, "Tri3 with linear elasticity, any triangle", Tri3d2Element, |cx, T| Tri3d2Element::from_vertices(tri(cx)), MaterialEllipticOperator::new(&LinearElasticMaterial), lame(cx), true);
deriv!(DTri3S, "Tri3 with StVK, any triangle", Tri3d2Element, |cx, T| Tri3d2Element::from_vertices(tri(cx)), MaterialEllipticOperator::new(&StVKMaterial), lame(cx), true);
deriv!(DTri6, "Tri6 with Laplace, any triangle", Tri6d2Element, |cx, T| Tri6d2Element::from(&Tri3d2Element::from_vertices(tri(cx))), LaplaceOperator, (), true);
deriv!(DQuad4, "Quad4 with Laplace", Quad4d2Element, |cx, T| Quad4d2Element::from_vertices(quad()), LaplaceOperator, (), true);
deriv!(DQuad4S, "Quad4 with linear elasticity", Quad4d2Element, |cx, T| Quad4d2Element::from_vertices(quad()), MaterialEllipticOperator::new(&LinearElasticMaterial), lame(cx), true);
deriv!(DTet4, "Tet4 with Laplace", Tet4Element, |cx, T| Tet4Element::from_vertices(tet()), LaplaceOperator, (), true);
deriv!(DTet4S, "Tet4 with StVK", Tet4Element, |cx, T| Tet4Element::from_vertices(tet()), MaterialEllipticOperator::new(&StVKMaterial), lame(cx), true);
deriv!(DHex8, "Hex8 with Laplace", Hex8Element, |cx, T| Hex8Element::from_vertices(hex()), LaplaceOperator, (), true);

/// Rules of given lengths with arbitrary points and weights; the data of point q of rule r is 10 r + q.
fn rules<T: SReal>(cx: &mut Cx<T>, lens: &[usize]) -> (Vec<Vec<Point2<T>>>, Vec<Vec<T>>, Vec<Vec<usize>>) {
    let mut out = (vec![], vec![], vec![]);
    for (r, n) in lens.iter().enumerate() {
        let x = cx.reals(&format!("x{}_", r), 2 * n);
        out.0.push(x.chunks(2).map(|x| Point2::new(x[0], x[1])).collect::<Vec<_>>());
        out.1.push(cx.reals(&format!("w{}_", r), *n));
        out.2.push((0..*n).map(|q| 10 * r + q).collect::<Vec<_>>());
    }
    out
}
fn flat<T: SReal>(p: &[Point2<T>]) -> Vec<T> {
    p.iter().flat_map(|p| [p.x, p.y]).collect()
}
/// A table gives element e the rule `of(e)`, also through a buffer that holds the rule of another element.
fn gives<T: SReal, Q>(cx: &mut Cx<T>, name: &str, table: &Q, rule_of: &[usize], p: &[Vec<Point2<T>>], w: &[Vec<T>], data: &dyn Fn(usize, usize) -> Q::Data)
where
    Q: QuadratureTable<T, U2>,
    Q::Data: PartialEq,
{
    let mut buffer = QuadratureBuffer::default();
    let mut buffer2 = QuadratureBuffer::<T, U2, ()>::default();
    let order: Vec<usize> = (0..rule_of.len()).chain((0..rule_of.len()).rev()).collect();
    for e in order {
        let r = rule_of[e];
        let n = w[r].len();
        let want: Vec<Q::Data> = (0..n).map(|q| data(r, q)).collect();
        cx.ensure(&format!("{}: number of points", name), table.element_quadrature_size(e) == n);
        let (mut pp, mut ww, mut dd) = (vec![Point2::origin(); n], vec![T::zero(); n], vec![Q::Data::default(); n]);
        table.populate_element_quadrature(e, &mut pp, &mut ww);
        table.populate_element_data(e, &mut dd);
        cx.ensure_eqs(&format!("{}: points", name), &flat(&pp), &flat(&p[r]));
        cx.ensure_eqs(&format!("{}: weights", name), &ww, &w[r]);
        cx.ensure(&format!("{}: data", name), dd == want);
        let (mut pp, mut ww, mut dd) = (vec![Point2::origin(); n], vec![T::zero(); n], vec![Q::Data::default(); n]);
        table.populate_element_quadrature_and_data(e, &mut pp, &mut ww, &mut dd);
        cx.ensure_eqs(&format!("{}: points, all at once", name), &flat(&pp), &flat(&p[r]));
        cx.ensure_eqs(&format!("{}: weights, all at once", name), &ww, &w[r]);
        cx.ensure(&format!("{}: data, all at once", name), dd == want);
        buffer.populate_element_quadrature_from_table(e, table);
        buffer2.populate_element_weights_and_points_from_table(e, table);
        for q in [buffer.weights(), Quadrature::weights(&buffer), buffer.weights_and_points().0, buffer2.weights()] {
            cx.ensure_eqs(&format!("{}: weights in the buffer", name), q, &w[r]);
        }
        for q in [buffer.points(), Quadrature::points(&buffer), buffer.weights_and_points().1, buffer2.points()] {
            cx.ensure_eqs(&format!("{}: points in the buffer", name), &flat(q), &flat(&p[r]));
        }
        cx.ensure(&format!("{}: data in the buffer", name), buffer.data() == &want[..] && Quadrature::data(&buffer) == &want[..]);
        let (mut pp, mut ww, mut same) = (vec![], vec![], true);
        let done = buffer.for_each_quadrature_point(|w, p, d| {
            same &= want.get(ww.len()) == Some(d);
            ww.push(w);
            pp.push(*p);
            Ok(())
        });
        cx.ensure_eqs(&format!("{}: points visited", name), &flat(&pp), &flat(&p[r]));
        cx.ensure_eqs(&format!("{}: weights visited", name), &ww, &w[r]);
        cx.ensure(&format!("{}: data visited", name), same && done.is_ok());
        if n > 1 {
            let mut seen = 0;
            let r = buffer.for_each_quadrature_point(|_, _, _| {
                seen += 1;
                if seen == 2 { Err(fenris::eyre::eyre!("stop")) } else { Ok(()) }
            });
            cx.ensure(&format!("{}: an error ends the visit", name), r.is_err() && seen == 2);
        }
    }
}
fn tables<T: SReal>(cx: &mut Cx<T>, lens: &[usize], map: &[usize]) {
    let (p, w, d) = rules(cx, lens);
    let id: Vec<usize> = (0..lens.len()).collect();
    let np = || NestedVec::from(&p);
    let nw = || NestedVec::from(&w);
    let nd = || NestedVec::from(&d);
    let t = GeneralQuadratureTable::from_points_and_weights(np(), nw());
    gives(cx, "one rule per element, no data", &t, &id, &p, &w, &|_, _| ());
    let t = GeneralQuadratureTable::from_points_weights_and_data(np(), nw(), nd());
    gives(cx, "one rule per element", &t, &id, &p, &w, &|r, q| 10 * r + q);
    let (pp, ww, dd) = { let x = t.into_parts(); (x.points, x.weights, x.data) };
    cx.ensure("as many rules as given", pp.len() == lens.len() && ww.len() == lens.len() && dd == nd());
    for r in 0..lens.len() {
        cx.ensure_eqs("points given back", &flat(pp.get(r).unwrap()), &flat(&p[r]));
        cx.ensure_eqs("weights given back", ww.get(r).unwrap(), &w[r]);
    }
    let t = CompactQuadratureTable::from_points_weights_and_map(np(), nw(), map.to_vec());
    gives(cx, "shared rules, no data", &t, map, &p, &w, &|_, _| ());
    let t = CompactQuadratureTable::from_quadrature_rules_and_map(np(), nw(), nd(), map.to_vec());
    gives(cx, "shared rules", &t, map, &p, &w, &|r, q| 10 * r + q);
    let all = vec![lens.len() - 1; 3];
    let (lp, lw) = (p[all[0]].clone(), w[all[0]].clone());
    let t = UniformQuadratureTable::from_points_and_weights(lp.clone(), lw.clone());
    gives(cx, "one rule for all, no data", &t, &all, &p, &w, &|_, _| ());
    let t = t.with_uniform_data(7usize);
    gives(cx, "one rule for all, data added", &t, &all, &p, &w, &|_, _| 7);
    let t = UniformQuadratureTable::from_quadrature((lw.clone(), lp.clone()));
    gives(cx, "one rule for all, from a pair", &t, &all, &p, &w, &|_, _| ());
    let t = UniformQuadratureTable::from_quadrature_and_uniform_data((lw.clone(), lp.clone()), 5usize);
    gives(cx, "one rule for all, uniform data", &t, &all, &p, &w, &|_, _| 5);
    let t = UniformQuadratureTable::from_points_weights_and_data(lp.clone(), lw.clone(), d[all[0]].clone());
    gives(cx, "one rule for all, with data", &t, &all, &p, &w, &|r, q| 10 * r + q);

    // single rules
    fn is<T: SReal, Q: Quadrature<T, U2>>(cx: &mut Cx<T>, name: &str, q: Q, p: &[Point2<T>], w: &[T], d: &[Q::Data]) where Q::Data: PartialEq {
        cx.ensure_eqs(&format!("{}: weights", name), q.weights(), w);
        cx.ensure_eqs(&format!("{}: points", name), &flat(q.points()), &flat(p));
        cx.ensure(&format!("{}: data", name), q.data() == d);
    }
    let unit = vec![(); lw.len()];
    let ld = d[all[0]].clone();
    let pair = (lw.clone(), lp.clone());
    is(cx, "reference to a pair", &pair, &lp, &lw, &unit);
    is(cx, "reference to a reference", &&pair, &lp, &lw, &unit);
    is(cx, "parts of a pair", fenris::quadrature::OwnedQuadratureParts::from(pair.clone()), &lp, &lw, &unit);
    let parts = QuadratureParts { weights: lw.clone(), points: lp.clone(), data: NoData };
    is(cx, "parts without data", &parts, &lp, &lw, &unit);
    is(cx, "parts with data", parts.with_data(ld.clone()), &lp, &lw, &ld);
}

fn main() {
    let mut items: Vec<Item> = vec![];
    macro_rules! add { ($($m:ident)*) => { $( for c in [Item::C(Box::new($m::E)), Item::C(Box::new($m::V)), Item::C(Box::new($m::M)), Item::C(Box::new($m::MF)), Item::C(Box::new($m::MS))] { items.push(c); } )* } }
    add!(d11 d12 d21 d22 d23 d31 d32 d33);
    macro_rules! one { ($($m:ident)*) => { $( items.push(Item::C(Box::new($m))); )* } }
    one!(Sing1 Sing2 AsmE AsmV AsmM Lap1 Lap2 Lap3 B23 B32 B23s B32s DTri3 DTri3L DTri3S DTri6 DQuad4 DQuad4S DTet4 DTet4S DHex8);
    for (lens, map) in [(&[1usize, 3, 0, 2][..], &[3usize, 1, 1, 0, 3, 2][..]), (&[2], &[0, 0]), (&[2, 1], &[])] {
        items.push(dual!(format!("C06: quadrature tables with rules of {:?} points, elements mapped to {:?}", lens, map), ["GeneralQuadratureTable", "CompactQuadratureTable", "UniformQuadratureTable", "<all tables as QuadratureTable>::{element_quadrature_size,populate_element_data,populate_element_quadrature,populate_element_quadrature_and_data}", "QuadratureBuffer::{resize,populate_element_quadrature_from_table,populate_element_weights_and_points_from_table,weights,points,data,weights_and_points,for_each_quadrature_point}", "<QuadratureBuffer as Quadrature>", "QuadratureParts::with_data", "<QuadratureParts, NoData, &X, QuadraturePair as Quadrature>"], "up to four rules of up to three points, six elements", |cx, T| tables::<T>(cx, lens, map)));
    }
    symcore::run::main(items);
}
