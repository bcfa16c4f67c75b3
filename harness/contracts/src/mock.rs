//! Abstract finite element spaces and operators: every value a contract of the real traits leaves open is an arbitrary real.
use fenris::allocators::{BiDimAllocator, DimAllocator};
use fenris::assembly::operators::{EllipticContraction, EllipticEnergy, EllipticOperator, Operator};
use fenris::space::{FiniteElementConnectivity, FiniteElementSpace};
use fenris::{SmallDim, Symmetry};
use nalgebra::{DefaultAllocator, DimName, Dyn, MatrixViewMut, OMatrix, OPoint, OVector};
use std::marker::PhantomData;
use symcore::{Cx, SReal};

/// What one element of an abstract space answers at one reference point.
#[derive(Clone, Debug)]
pub struct At<T> {
    pub jac: Vec<T>,
    pub basis: Vec<T>,
    pub grad: Vec<T>,
    pub map: Vec<T>,
}
#[derive(Clone, Debug)]
pub struct MockSpace<T, G, R> {
    pub num_nodes: usize,
    pub nodes: Vec<Vec<usize>>,
    /// per element, per point number (the integer first coordinate of the reference point)
    pub at: Vec<Vec<At<T>>>,
    pub dims: PhantomData<(G, R)>,
}
impl<T: SReal, G: SmallDim, R: SmallDim> MockSpace<T, G, R> {
    pub fn new(cx: &mut Cx<T>, num_nodes: usize, nodes: &[&[usize]], points: usize) -> Self {
        let (g, r) = (G::dim(), R::dim());
        let at = nodes
            .iter()
            .enumerate()
            .map(|(e, n)| {
                (0..points)
                    .map(|q| At {
                        jac: cx.reals(&format!("J{}_{}_", e, q), g * r),
                        basis: cx.reals(&format!("phi{}_{}_", e, q), n.len()),
                        grad: cx.reals(&format!("dphi{}_{}_", e, q), r * n.len()),
                        map: cx.reals(&format!("x{}_{}_", e, q), g),
                    })
                    .collect()
            })
            .collect();
        MockSpace { num_nodes, nodes: nodes.iter().map(|n| n.to_vec()).collect(), at, dims: PhantomData }
    }
    /// Replaces the arbitrary Jacobians by fixed, nonsymmetric ones of either orientation.
    pub fn fixed_jacobians(mut self) -> Self {
        let d = G::dim();
        for (e, a) in self.at.iter_mut().enumerate() {
            for (q, a) in a.iter_mut().enumerate() {
                for i in 0..d {
                    for j in 0..R::dim() {
                        let v = if i == j { 3 + q as i64 } else { ((i * 2 + j * 3 + e) % 3) as i64 - (i % 2) as i64 };
                        a.jac[j * d + i] = T::int(if i == 0 && q % 2 == 0 { -v } else { v });
                    }
                }
            }
        }
        self
    }
    fn point(&self, e: usize, x: &OPoint<T, R>) -> &At<T>
    where
        DefaultAllocator: DimAllocator<T, R>,
    {
        &self.at[e][x[0].approx_f64() as usize]
    }
    pub fn det(&self, e: usize, q: usize) -> T {
        let d = G::dim();
        det(&self.at[e][q].jac, d)
    }
    /// physical gradient of basis function i, component k: J^{-T} grad
    pub fn phys(&self, e: usize, q: usize, i: usize, k: usize) -> T {
        let d = G::dim();
        let a = &self.at[e][q];
        let dt = det(&a.jac, d);
        // (J^{-T})_{kl} = cofactor(k,l) / det, J stored column by column
        (0..d).fold(T::zero(), |s, l| s + cofactor(&a.jac, d, k, l) / dt * a.grad[i * d + l])
    }
}
pub fn det<T: SReal>(j: &[T], d: usize) -> T {
    (0..d).fold(T::zero(), |s, l| s + j[l * d] * cofactor(j, d, 0, l))
}
/// Cofactor of entry (r, c) of the column-major d x d matrix.
pub fn cofactor<T: SReal>(j: &[T], d: usize, r: usize, c: usize) -> T {
    let rows: Vec<usize> = (0..d).filter(|i| *i != r).collect();
    let cols: Vec<usize> = (0..d).filter(|i| *i != c).collect();
    let m = match d {
        1 => T::one(),
        2 => j[cols[0] * d + rows[0]],
        _ => j[cols[0] * d + rows[0]] * j[cols[1] * d + rows[1]] - j[cols[1] * d + rows[0]] * j[cols[0] * d + rows[1]],
    };
    if (r + c) % 2 == 0 { m } else { -m }
}
/// Reference point number q.
pub fn point<T: SReal, R: SmallDim>(q: usize) -> OPoint<T, R>
where
    DefaultAllocator: DimAllocator<T, R>,
{
    let mut p = OPoint::<T, R>::origin();
    p[0] = T::int(q as i64);
    p
}
impl<T, G, R> FiniteElementConnectivity for MockSpace<T, G, R> {
    fn num_elements(&self) -> usize {
        self.nodes.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.nodes[e].len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], e: usize) {
        nodes.copy_from_slice(&self.nodes[e])
    }
}
impl<T: SReal, G: SmallDim, R: SmallDim> FiniteElementSpace<T> for MockSpace<T, G, R>
where
    DefaultAllocator: BiDimAllocator<T, G, R>,
{
    type GeometryDim = G;
    type ReferenceDim = R;
    fn populate_element_basis(&self, e: usize, v: &mut [T], x: &OPoint<T, R>) {
        v.copy_from_slice(&self.point(e, x).basis)
    }
    fn populate_element_gradients(&self, e: usize, mut g: MatrixViewMut<T, R, Dyn>, x: &OPoint<T, R>) {
        let a = self.point(e, x);
        assert_eq!(g.ncols(), self.nodes[e].len());
        for i in 0..g.ncols() {
            for k in 0..R::dim() {
                g[(k, i)] = a.grad[i * R::dim() + k];
            }
        }
    }
    fn element_reference_jacobian(&self, e: usize, x: &OPoint<T, R>) -> OMatrix<T, G, R> {
        OMatrix::<T, G, R>::from_column_slice(&self.point(e, x).jac)
    }
    fn map_element_reference_coords(&self, e: usize, x: &OPoint<T, R>) -> OPoint<T, G> {
        OPoint::from(OVector::<T, G>::from_column_slice(&self.point(e, x).map))
    }
    fn diameter(&self, _: usize) -> T {
        unreachable!("diameter of an abstract element")
    }
}

/// An arbitrary operator: energy, operator and contraction at parameter p depend on the gradient through arbitrary linear forms.
pub struct MockOp<T, G, S> {
    pub symmetric: bool,
    pub at: Vec<OpAt<T>>,
    pub dims: PhantomData<(G, S)>,
}
pub struct OpAt<T> {
    pub psi: T,
    pub h: Vec<T>,
    pub g0: Vec<T>,
    pub g1: Vec<T>,
    pub c0: Vec<T>,
    pub c1: Vec<T>,
}
impl<T: SReal, G: SmallDim, S: SmallDim> MockOp<T, G, S> {
    pub fn new(cx: &mut Cx<T>, n: usize, symmetric: bool) -> Self {
        let (d, s) = (G::dim(), S::dim());
        let at = (0..n)
            .map(|p| {
                let mut t = |w: &str| {
                    let f = cx.reals(&format!("{}{}_", w, p), d * s * d * s);
                    if !symmetric {
                        return f;
                    }
                    let n = d * s;
                    (0..n * n).map(|i| if i / n <= i % n { f[i] } else { f[(i % n) * n + i / n] }).collect()
                };
                let (c0, c1) = (t("c"), t("d"));
                OpAt { psi: cx.real(&format!("psi{}", p)), h: cx.reals(&format!("h{}_", p), d * s), g0: cx.reals(&format!("g{}_", p), d * s), g1: cx.reals(&format!("k{}_", p), d * s), c0, c1 }
            })
            .collect();
        MockOp { symmetric, at, dims: PhantomData }
    }
    fn lin(&self, g: &[T], p: usize) -> T {
        g.iter().zip(&self.at[p].h).fold(T::zero(), |a, (x, y)| a + *x * *y)
    }
    /// gradient entries column by column (d x s)
    pub fn energy(&self, g: &[T], p: usize) -> T {
        self.at[p].psi + self.lin(g, p)
    }
    pub fn op(&self, g: &[T], p: usize, k: usize, i: usize) -> T {
        let d = G::dim();
        self.at[p].g0[i * d + k] + self.lin(g, p) * self.at[p].g1[i * d + k]
    }
    /// Drops the dependence of the contraction on the gradient.
    pub fn plain(mut self) -> Self {
        for a in &mut self.at {
            for x in a.c1.iter_mut() {
                *x = T::zero();
            }
        }
        self
    }
    /// coefficient of a_k b_m in entry (i, j)
    pub fn con(&self, g: &[T], p: usize, k: usize, i: usize, m: usize, j: usize) -> T {
        let (d, s) = (G::dim(), S::dim());
        let n = (k * s + i) * (d * s) + (m * s + j);
        self.at[p].c0[n] + self.lin(g, p) * self.at[p].c1[n]
    }
}
impl<T, G, S: SmallDim> Operator<T, G> for MockOp<T, G, S> {
    type SolutionDim = S;
    type Parameters = usize;
}
impl<T: SReal, G: SmallDim, S: SmallDim> EllipticEnergy<T, G> for MockOp<T, G, S>
where
    DefaultAllocator: BiDimAllocator<T, G, S>,
{
    fn compute_energy(&self, g: &OMatrix<T, G, S>, p: &usize) -> T {
        self.energy(g.as_slice(), *p)
    }
}
impl<T: SReal, G: SmallDim, S: SmallDim> EllipticOperator<T, G> for MockOp<T, G, S>
where
    DefaultAllocator: BiDimAllocator<T, G, S>,
{
    fn compute_elliptic_operator(&self, g: &OMatrix<T, G, S>, p: &usize) -> OMatrix<T, G, S> {
        OMatrix::<T, G, S>::from_fn(|k, i| self.op(g.as_slice(), *p, k, i))
    }
}
impl<T: SReal, G: SmallDim, S: SmallDim> EllipticContraction<T, G> for MockOp<T, G, S>
where
    DefaultAllocator: BiDimAllocator<T, G, S>,
{
    fn contract(&self, g: &OMatrix<T, G, S>, a: &OVector<T, G>, b: &OVector<T, G>, p: &usize) -> OMatrix<T, S, S> {
        let d = G::dim();
        OMatrix::<T, S, S>::from_fn(|i, j| {
            let mut s = T::zero();
            for k in 0..d {
                for m in 0..d {
                    s += a[k] * self.con(g.as_slice(), *p, k, i, m, j) * b[m];
                }
            }
            s
        })
    }
    fn symmetry(&self) -> Symmetry {
        if self.symmetric { Symmetry::Symmetric } else { Symmetry::NonSymmetric }
    }
}
