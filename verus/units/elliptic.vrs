use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs
impl T {
    #[verifier::external_body]
    pub fn abs(self) -> (r: T) ensures r.v() == if self.v() < 0real { 0real - self.v() } else { self.v() } { T { x: self.x.abs() } }
}
pub open spec fn absolute(x: real) -> real { if x < 0real { 0real - x } else { x } }
#[derive(Debug)]
pub struct Report;
pub fn singular() -> Report { Report }
// the dimensions of the solution and of space
#[derive(Clone, Copy)]
pub struct SolutionDim;
impl SolutionDim {
    pub uninterp spec fn d() -> int;
    #[verifier::external_body]
    pub fn dim() -> (r: usize) ensures r == Self::d() { unimplemented!() }
    pub fn name() -> SolutionDim { SolutionDim }
    #[verifier::external_body]
    pub fn value(&self) -> (r: usize) ensures r == Self::d() { unimplemented!() }
}
pub struct GeometryDim;
impl GeometryDim {
    pub uninterp spec fn d() -> int;
    #[verifier::external_body]
    pub fn dim() -> (r: usize) ensures r == Self::d() { unimplemented!() }
    pub fn name() -> GeometryDim { GeometryDim }
}
pub struct Dyn(pub usize);
pub struct U1;
impl U1 { pub fn name() -> U1 { U1 } }

// nalgebra's matrices: d x d matrices with a determinant and an inverse; matrices as sequences of columns
#[verifier::external_body]
pub struct Square { x: Vec<T> }
impl Square {
    pub uninterp spec fn at(&self, i: int, j: int) -> real;
    pub uninterp spec fn det(&self) -> real;
    pub uninterp spec fn inverse(&self) -> Option<Square>;
    pub uninterp spec fn transposed(&self) -> Square;
    #[verifier::external_body]
    pub fn determinant(&self) -> (r: T) ensures r.v() == self.det() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_inverse(self) -> (r: Option<Square>) ensures r == self.inverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn transpose(&self) -> (r: Square) ensures r == self.transposed() { unimplemented!() }
    #[verifier::external_body]
    pub fn times_column(&self, c: &Column) -> (r: Column) requires c.c().len() == GeometryDim::d() ensures r.c() == mat_vec(*self, c.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn times(&self, m: OMatrix) -> (r: OMatrix) requires sized(m.c(), GeometryDim::d()) ensures r.c() == m.c().map_values(|x: Seq<real>| mat_vec(*self, x)) { unimplemented!() }
}
pub open spec fn row_dot(m: Square, x: Seq<real>, i: int, n: int) -> real decreases n { if n <= 0 { 0real } else { row_dot(m, x, i, n - 1) + m.at(i, n - 1) * x[n - 1] } }
pub open spec fn mat_vec(m: Square, x: Seq<real>) -> Seq<real> { Seq::new(GeometryDim::d() as nat, |i: int| row_dot(m, x, i, GeometryDim::d())) }
// every column has d entries
pub open spec fn sized(c: Seq<Seq<real>>, d: int) -> bool { forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).len() == d }
#[verifier::external_body]
pub struct OMatrix { x: Vec<T> }
impl OMatrix {
    pub uninterp spec fn c(&self) -> Seq<Seq<real>>;
    // GeometryDim x SolutionDim
    #[verifier::external_body]
    pub fn zeros() -> (r: OMatrix) ensures r.c().len() == SolutionDim::d(), sized(r.c(), GeometryDim::d()), forall|j: int, i: int| 0 <= j < SolutionDim::d() && 0 <= i < GeometryDim::d() ==> #[trigger] r.c()[j][i] == 0real { unimplemented!() }
    // self = a x y^T + b self
    #[verifier::external_body]
    pub fn ger(&mut self, a: T, x: &Column, y: &Column, b: T) requires sized(old(self).c(), x.c().len() as int), old(self).c().len() == y.c().len()
        ensures final(self).c().len() == old(self).c().len(), sized(final(self).c(), x.c().len() as int),
            forall|j: int, i: int| 0 <= j < y.c().len() && 0 <= i < x.c().len() ==> #[trigger] final(self).c()[j][i] == a.v() * (x.c()[i] * y.c()[j]) + b.v() * old(self).c()[j][i] { unimplemented!() }
}
#[verifier::external_body]
pub struct Column { x: Vec<T> }
impl Column { pub uninterp spec fn c(&self) -> Seq<real>; }
// a view of a matrix with a static number of rows
#[verifier::external_body]
pub struct MatrixView { x: Vec<T> }
impl MatrixView {
    pub uninterp spec fn c(&self) -> Seq<Seq<real>>;
    #[verifier::external_body]
    pub fn ncols(&self) -> (r: usize) ensures r == self.c().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn column(&self, k: usize) -> (r: Column) requires k < self.c().len() ensures r.c() == self.c()[k as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set_column(&mut self, k: usize, x: &Column) requires k < old(self).c().len(), x.c().len() == old(self).c()[k as int].len() ensures final(self).c() == old(self).c().update(k as int, x.c()) { unimplemented!() }
}
#[verifier::external_body]
pub fn column_pairs(a: &MatrixView, b: &MatrixView) -> (r: Vec<(Column, Column)>)
    requires a.c().len() == b.c().len()
    ensures r@.len() == a.c().len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0.c() == a.c()[k] && r@[k].1.c() == b.c()[k] { unimplemented!() }
// the entries of a vector as a matrix with s rows, column by column
pub open spec fn columns(u: Seq<T>, s: int, n: int) -> Seq<Seq<real>> { Seq::new(n as nat, |k: int| Seq::new(s as nat, |j: int| u[s * k + j].v())) }
#[verifier::external_body]
pub fn as_matrix(u: &Vec<T>, s: SolutionDim, n: Dyn) -> (r: MatrixView) requires u@.len() == SolutionDim::d() * n.0 ensures r.c() == columns(u@, SolutionDim::d(), n.0 as int) { unimplemented!() }
// the sum over the nodes below k of the products of their gradients and values
pub open spec fn outer(g: Seq<Seq<real>>, u: Seq<Seq<real>>, j: int, i: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { outer(g, u, j, i, k - 1) + g[k - 1][i] * u[k - 1][j] }
}
// grad u_h: the inverse transpose of the Jacobian times the sum over all nodes of (reference gradient) (value)^T
pub open spec fn gradient(jit: Square, g: Seq<Seq<real>>, u: Seq<Seq<real>>) -> Seq<Seq<real>> {
    Seq::new(SolutionDim::d() as nat, |j: int| mat_vec(jit, Seq::new(GeometryDim::d() as nat, |i: int| outer(g, u, j, i, g.len() as int))))
}
//@ fn src/assembly/local/elliptic.rs compute_volume_u_grad
//@ instantiate T = real numbers
//@ subst &OMatrix<T, GeometryDim, GeometryDim> => &Square
//@ subst impl Into<MatrixView<'a, T, GeometryDim, Dyn>> => &MatrixView
//@ subst impl Into<MatrixView<'a, T, SolutionDim, Dyn>> => &MatrixView
//@ subst OMatrix<T, GeometryDim, SolutionDim> => OMatrix
//@ subst OMatrix::<_, GeometryDim, SolutionDim>::zeros() => OMatrix::zeros()
//@ subst phi_grad_ref.into() => phi_grad_ref
//@ subst u.into() => u
//@ subst G_ref.column_iter().zip(u.column_iter()) => column_pairs(G_ref, u)
//@ subst jacobian_inv_t * u_grad => jacobian_inv_t.times(u_grad)
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        0 < SolutionDim::d(), 0 < GeometryDim::d(), phi_grad_ref.c().len() == u.c().len(), sized(phi_grad_ref.c(), GeometryDim::d()), sized(u.c(), SolutionDim::d()),
    ensures
        r.c() == gradient(*jacobian_inv_t, phi_grad_ref.c(), u.c()),
//@ loop 0 it
    invariant
        it.seq().len() == u.c().len(),
        forall|k: int| 0 <= k < u.c().len() ==> (#[trigger] it.seq()[k]).0.c() == phi_grad_ref.c()[k] && it.seq()[k].1.c() == u.c()[k],
        u_grad.c().len() == SolutionDim::d(), sized(u_grad.c(), GeometryDim::d()),
        forall|j: int, i: int| 0 <= j < SolutionDim::d() && 0 <= i < GeometryDim::d() ==> #[trigger] u_grad.c()[j][i] == outer(phi_grad_ref.c(), u.c(), j, i, it.index() as int),
//@ loop-after 0
    proof {
        let g = gradient(*jacobian_inv_t, phi_grad_ref.c(), u.c());
        let m = u_grad.c().map_values(|x: Seq<real>| mat_vec(*jacobian_inv_t, x));
        assert forall|j: int| 0 <= j < m.len() implies #[trigger] m[j] == g[j] by {
            assert(u_grad.c()[j] =~= Seq::new(GeometryDim::d() as nat, |i: int| outer(phi_grad_ref.c(), u.c(), j, i, phi_grad_ref.c().len() as int)));
        }
        assert(m =~= g);
    }
//@ done
pub proof fn lemma_block(s: int, j: int, n: int)
    requires 0 <= j < n, 0 <= s
    ensures 0 <= s * j, s * j + s <= s * n, s * (j + 1) == s * j + s
{
    assert(s * (j + 1) <= s * n) by (nonlinear_arith) requires j + 1 <= n, 0 <= s;
    assert(s * (j + 1) == s * j + s) by (nonlinear_arith);
    assert(0 <= s * j) by (nonlinear_arith) requires 0 <= j, 0 <= s;
}
// an element, an operator, its parameters
#[verifier::external_body]
pub struct OPoint { x: Vec<T> }
#[verifier::external_body]
pub struct Parameters { x: Vec<T> }
#[verifier::external_body]
pub struct Element { x: Vec<T> }
impl Element {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn jacobian(&self, p: OPoint) -> Square;
    pub uninterp spec fn gradients(&self, p: OPoint) -> Seq<Seq<real>>;
    #[verifier::external_body]
    pub fn num_nodes(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn reference_jacobian(&self, p: &OPoint) -> (r: Square) ensures r == self.jacobian(*p) { unimplemented!() }
    #[verifier::external_body]
    pub fn populate_basis_gradients(&self, g: &mut MatrixView, p: &OPoint) requires old(g).c().len() == self.n() ensures final(g).c() == self.gradients(*p), final(g).c().len() == self.n(), sized(final(g).c(), GeometryDim::d()) { unimplemented!() }
}
//@ struct src/lib.rs Symmetry plain
#[verifier::external_body]
pub struct Operator { x: Vec<T> }
impl Operator {
    pub uninterp spec fn energy(&self, g: Seq<Seq<real>>, d: Parameters) -> real;
    // the transpose of the operator times the inverse transpose of a Jacobian
    pub uninterp spec fn flux(&self, g: Seq<Seq<real>>, d: Parameters) -> Rows;
    pub uninterp spec fn contraction(&self, g: Seq<Seq<real>>, a: Seq<real>, b: Seq<real>, d: Parameters) -> Seq<Seq<real>>;
    pub uninterp spec fn symmetric(&self) -> bool;
    #[verifier::external_body]
    pub fn compute_energy(&self, g: &OMatrix, d: &Parameters) -> (r: T) ensures r.v() == self.energy(g.c(), *d) { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_elliptic_operator_transpose(&self, g: &OMatrix, d: &Parameters) -> (r: Rows) ensures r == self.flux(g.c(), *d) { unimplemented!() }
    #[verifier::external_body]
    pub fn symmetry(&self) -> (r: Symmetry) ensures (r is Symmetric) == self.symmetric() { unimplemented!() }
}
// SolutionDim x GeometryDim
#[verifier::external_body]
pub struct Rows { x: Vec<T> }
impl Rows {
    pub uninterp spec fn at(&self, i: int, j: int) -> real;
    pub uninterp spec fn by(&self, m: Square) -> Rows;
    #[verifier::external_body]
    pub fn times(self, m: Square) -> (r: Rows) ensures r == self.by(m) { unimplemented!() }
}
pub open spec fn rows_dot(m: Rows, x: Seq<real>, i: int, n: int) -> real decreases n { if n <= 0 { 0real } else { rows_dot(m, x, i, n - 1) + m.at(i, n - 1) * x[n - 1] } }
#[verifier::external_body]
pub fn triples<'a>(w: &[T], p: &'a [OPoint], d: &'a [Parameters]) -> (r: Vec<(T, &'a OPoint, &'a Parameters)>)
    requires w@.len() == p@.len(), w@.len() == d@.len()
    ensures r@.len() == w@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == w@[k] && *r@[k].1 == p@[k] && *r@[k].2 == d@[k] { unimplemented!() }

// an element with a quadrature rule, its parameters, and nodal values
pub struct Rule { pub e: Element, pub op: Operator, pub u: Seq<Seq<real>>, pub w: Seq<T>, pub p: Seq<OPoint>, pub d: Seq<Parameters> }
impl Rule {
    pub open spec fn inv(&self, q: int) -> Option<Square> { self.e.jacobian(self.p[q]).inverse() }
    pub open spec fn jit(&self, q: int) -> Square { self.inv(q).unwrap().transposed() }
    pub open spec fn scale(&self, q: int) -> real { self.w[q].v() * absolute(self.e.jacobian(self.p[q]).det()) }
    pub open spec fn grad(&self, q: int) -> Seq<Seq<real>> { gradient(self.jit(q), self.e.gradients(self.p[q]), self.u) }
    pub open spec fn regular(&self) -> bool { forall|q: int| 0 <= q < self.w.len() ==> (#[trigger] self.inv(q)) is Some }
    // sums over the quadrature points below n
    pub open spec fn energy(&self, n: int) -> real decreases n {
        if n <= 0 { 0real } else { self.energy(n - 1) + self.scale(n - 1) * self.op.energy(self.grad(n - 1), self.d[n - 1]) }
    }
    pub open spec fn vector(&self, k: int, i: int, n: int) -> real decreases n {
        if n <= 0 { 0real } else {
            self.vector(k, i, n - 1) + self.scale(n - 1) * rows_dot(self.op.flux(self.grad(n - 1), self.d[n - 1]).by(self.jit(n - 1)), self.e.gradients(self.p[n - 1])[k], i, GeometryDim::d())
        }
    }
    pub open spec fn physical(&self, q: int, k: int) -> Seq<real> { mat_vec(self.jit(q), self.e.gradients(self.p[q])[k]) }
    pub open spec fn matrix(&self, a: int, i: int, b: int, j: int, n: int) -> real decreases n {
        if n <= 0 { 0real } else {
            self.matrix(a, i, b, j, n - 1) + self.scale(n - 1) * self.op.contraction(self.grad(n - 1), self.physical(n - 1, a), self.physical(n - 1, b), self.d[n - 1])[j][i]
        }
    }
}
pub open spec fn rule(e: Element, op: Operator, u: Seq<T>, w: Seq<T>, p: Seq<OPoint>, d: Seq<Parameters>) -> Rule {
    Rule { e, op, u: columns(u, SolutionDim::d(), e.n()), w, p, d }
}
//@ fn src/assembly/local/elliptic.rs compute_element_elliptic_energy
//@ instantiate T = real numbers
//@ subst eyre::Result<T> => Result<T, Report>
//@ subst DVectorView<T> => &Vec<T>
//@ subst &[OPoint<T, Element::ReferenceDim>] => &[OPoint]
//@ subst &[Operator::Parameters] => &[Parameters]
//@ subst MatrixViewMut<T, Element::ReferenceDim, Dyn> => MatrixView
//@ subst Operator::SolutionDim => SolutionDim
//@ subst izip!(quadrature_weights, quadrature_points, quadrature_data) => triples(quadrature_weights, quadrature_points, quadrature_data)
//@ subst (&weight, point, data) => (weight, point, data)
//@ subst eyre!("Singular element Jacobian encountered") => singular()
//@ subst MatrixViewMut::from(&mut phi_grad_ref) => &mut phi_grad_ref
//@ subst MatrixView::from_slice_generic(u_element.as_slice(), => as_matrix(u_element,
//@ subst &phi_grad_ref, u_element) => &phi_grad_ref, &u_element)
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        0 < SolutionDim::d(), 0 < GeometryDim::d(), 0 <= element.n(), SolutionDim::d() * element.n() <= usize::MAX,
        quadrature_weights@.len() == quadrature_points@.len(), quadrature_points@.len() == quadrature_data@.len(),
        basis_gradients_buffer.c().len() == element.n(), u_element@.len() == SolutionDim::d() * element.n(),
    ensures
        res.is_ok() == rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@).regular(),
        res matches Ok(x) ==> x.v() == rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@).energy(quadrature_weights@.len() as int),
//@ start
    let ghost rl = rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@);
//@ loop 0 it
    invariant
        it.seq().len() == quadrature_weights@.len(),
        forall|k: int| 0 <= k < quadrature_weights@.len() ==> (#[trigger] it.seq()[k]).0 == quadrature_weights@[k] && *it.seq()[k].1 == quadrature_points@[k] && *it.seq()[k].2 == quadrature_data@[k],
        phi_grad_ref.c().len() == element.n(),
        forall|q: int| 0 <= q < it.index() ==> (#[trigger] rl.inv(q)) is Some,
        integral.v() == rl.energy(it.index() as int),
//@ loop-start 0
    let ghost q = it.index() as int;
    proof { assert(rl.inv(q) == element.jacobian(*point).inverse()); }
//@ done
// a vector, as a column of blocks
#[verifier::external_body]
pub struct DVector { x: Vec<T> }
impl DVector {
    pub uninterp spec fn c(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize) ensures r == self.c().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, x: T) ensures final(self).c().len() == old(self).c().len(), forall|i: int| 0 <= i < old(self).c().len() ==> #[trigger] final(self).c()[i] == x { unimplemented!() }
}
pub open spec fn part(v: Seq<T>, s: int, k: int, i: int) -> real { v[s * k + i].v() }
// v, as a matrix of s rows and n columns, = alpha a b + beta v
#[verifier::external_body]
pub fn gemm(v: &mut DVector, s: SolutionDim, n: Dyn, alpha: T, a: &Rows, b: &MatrixView, beta: T)
    requires old(v).c().len() == SolutionDim::d() * n.0, b.c().len() == n.0, sized(b.c(), GeometryDim::d())
    ensures final(v).c().len() == old(v).c().len(),
        forall|k: int, i: int| 0 <= k < n.0 && 0 <= i < SolutionDim::d() ==> #[trigger] part(final(v).c(), SolutionDim::d(), k, i) == alpha.v() * rows_dot(*a, b.c()[k], i, GeometryDim::d()) + beta.v() * part(old(v).c(), SolutionDim::d(), k, i) { unimplemented!() }
//@ fn src/assembly/local/elliptic.rs assemble_element_elliptic_vector
//@ instantiate T = real numbers
//@ subst eyre::Result<()> => Result<(), Report>
//@ subst mut output: DVectorViewMut<T> => output: &mut DVector
//@ subst DVectorView<T> => &Vec<T>
//@ subst &[OPoint<T, Element::ReferenceDim>] => &[OPoint]
//@ subst &[Operator::Parameters] => &[Parameters]
//@ subst MatrixViewMut<T, Element::ReferenceDim, Dyn> => MatrixView
//@ subst let mut output = MatrixViewMut::from_slice_generic(output.as_mut_slice(), Operator::SolutionDim::name(), Dyn(n)); =>
//@ subst Operator::SolutionDim => SolutionDim
//@ subst izip!(quadrature_weights, quadrature_points, quadrature_data) => triples(quadrature_weights, quadrature_points, quadrature_data)
//@ subst (&weight, point, data) => (weight, point, data)
//@ subst eyre!("Singular element Jacobian encountered") => singular()
//@ subst MatrixViewMut::from(&mut phi_grad_ref) => &mut phi_grad_ref
//@ subst MatrixView::from_slice_generic(u_element.as_slice(), => as_matrix(u_element,
//@ subst &phi_grad_ref, u_element) => &phi_grad_ref, &u_element)
//@ subst g_t * j_inv_t => g_t.times(j_inv_t)
//@ subst output.gemm( => gemm(&mut *output, SolutionDim::name(), Dyn(n),
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        0 < SolutionDim::d(), 0 < GeometryDim::d(), 0 <= element.n(), SolutionDim::d() * element.n() <= usize::MAX,
        quadrature_weights@.len() == quadrature_points@.len(), quadrature_points@.len() == quadrature_data@.len(),
        basis_gradients_buffer.c().len() == element.n(), u_element@.len() == SolutionDim::d() * element.n(), old(output).c().len() == SolutionDim::d() * element.n(),
    ensures
        res.is_ok() == rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@).regular(),
        final(output).c().len() == old(output).c().len(),
        res.is_ok() ==> forall|k: int, i: int| 0 <= k < element.n() && 0 <= i < SolutionDim::d() ==> #[trigger] part(final(output).c(), SolutionDim::d(), k, i)
            == rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@).vector(k, i, quadrature_weights@.len() as int),
//@ start
    let ghost rl = rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@);
//@ before let mut phi_grad_ref
    proof {
        let (sd, n) = (SolutionDim::d(), element.n());
        assert forall|k: int, i: int| 0 <= k < n && 0 <= i < sd implies #[trigger] part(output.c(), sd, k, i) == 0real by { lemma_block(sd, k, n); }
    }
//@ loop 0 it
    invariant
        it.seq().len() == quadrature_weights@.len(),
        forall|k: int| 0 <= k < quadrature_weights@.len() ==> (#[trigger] it.seq()[k]).0 == quadrature_weights@[k] && *it.seq()[k].1 == quadrature_points@[k] && *it.seq()[k].2 == quadrature_data@[k],
        phi_grad_ref.c().len() == element.n(), output.c().len() == SolutionDim::d() * element.n(),
        forall|q: int| 0 <= q < it.index() ==> (#[trigger] rl.inv(q)) is Some,
        forall|k: int, i: int| 0 <= k < element.n() && 0 <= i < SolutionDim::d() ==> #[trigger] part(output.c(), SolutionDim::d(), k, i) == rl.vector(k, i, it.index() as int),
//@ loop-start 0
    let ghost q = it.index() as int;
    proof { assert(rl.inv(q) == element.jacobian(*point).inverse()); }
//@ done
// a matrix; its entry in row i of block a and column j of block b
#[verifier::external_body]
pub struct DMatrix { x: Vec<T> }
impl DMatrix {
    pub uninterp spec fn at(&self, r: int, c: int) -> real;
    pub uninterp spec fn rows(&self) -> int;
    pub uninterp spec fn cols(&self) -> int;
    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() }
    #[verifier::external_body]
    pub fn ncols(&self) -> (r: usize) ensures r == self.cols() { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, x: T) ensures final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(), forall|i: int, j: int| #[trigger] final(self).at(i, j) == x.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, at: (usize, usize)) -> (r: T) requires at.0 < self.rows(), at.1 < self.cols() ensures r.v() == self.at(at.0 as int, at.1 as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, at: (usize, usize), x: T) requires at.0 < old(self).rows(), at.1 < old(self).cols()
        ensures final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(),
            forall|i: int, j: int| #[trigger] final(self).at(i, j) == if i == at.0 && j == at.1 { x.v() } else { old(self).at(i, j) } { unimplemented!() }
    // the s x s view at `at` += m * x
    #[verifier::external_body]
    pub fn add_block(&mut self, at: (usize, usize), m: Block, x: T) requires at.0 + SolutionDim::d() <= old(self).rows(), at.1 + SolutionDim::d() <= old(self).cols()
        ensures final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(),
            forall|i: int, j: int| #[trigger] final(self).at(i, j) == if at.0 <= i < at.0 + SolutionDim::d() && at.1 <= j < at.1 + SolutionDim::d() { old(self).at(i, j) + m.c()[j - at.1][i - at.0] * x.v() } else { old(self).at(i, j) } { unimplemented!() }
}
#[verifier::external_body]
pub struct Block { x: Vec<T> }
impl Block { pub uninterp spec fn c(&self) -> Seq<Seq<real>>; }
pub open spec fn entry(m: DMatrix, a: int, i: int, b: int, j: int) -> real { m.at(SolutionDim::d() * a + i, SolutionDim::d() * b + j) }
//@ fn src/util.rs clone_upper_to_lower
//@ instantiate
//@ subst &mut Matrix<T, R, C, S> => &mut DMatrix
//@ subst matrix[(i, j)] = matrix[(j, i)].clone(); => let x = matrix.get((j, i)); matrix.set((i, j), x);
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(matrix).rows() == old(matrix).cols(),
    ensures
        final(matrix).rows() == old(matrix).rows(), final(matrix).cols() == old(matrix).cols(),
        forall|i: int, j: int| 0 <= i < old(matrix).rows() && 0 <= j < old(matrix).rows() ==> #[trigger] final(matrix).at(i, j) == if i > j { old(matrix).at(j, i) } else { old(matrix).at(i, j) },
//@ start
    let ghost m0 = *matrix;
//@ loop 0
    invariant
        matrix.rows() == m0.rows(), matrix.cols() == m0.cols(),
        forall|a: int, b: int| 0 <= a < m0.rows() && 0 <= b < m0.rows() ==> #[trigger] matrix.at(a, b) == if a > b && b < j { m0.at(b, a) } else { m0.at(a, b) },
//@ loop 1
    invariant
        matrix.rows() == m0.rows(), matrix.cols() == m0.cols(),
        forall|a: int, b: int| 0 <= a < m0.rows() && 0 <= b < m0.rows() ==> #[trigger] matrix.at(a, b) == if a > b && (b < j || (b == j && a < i)) { m0.at(b, a) } else { m0.at(a, b) },
//@ done
// a vector of gradients, one after the other
#[verifier::external_body]
pub struct Flat { x: Vec<T> }
pub open spec fn block(v: Seq<real>, k: int) -> Seq<real> { v.subrange(GeometryDim::d() * k, GeometryDim::d() * k + GeometryDim::d()) }
impl Flat {
    pub uninterp spec fn c(&self) -> Seq<real>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.c().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn rows_generic(&self, start: usize, n: GeometryDim) -> (r: Column) requires start + GeometryDim::d() <= self.c().len() ensures r.c() == self.c().subrange(start as int, start + GeometryDim::d()) { unimplemented!() }
}
impl Column {
    #[verifier::external_body]
    pub fn clone_owned(&self) -> (r: Column) ensures r.c() == self.c() { unimplemented!() }
}
#[verifier::external_body]
pub fn flattened(m: &MatrixView, n: Dyn) -> (r: Flat) requires n.0 == GeometryDim::d() * m.c().len(), sized(m.c(), GeometryDim::d())
    ensures r.c().len() == n.0, forall|k: int| 0 <= k < m.c().len() ==> #[trigger] block(r.c(), k) == m.c()[k] { unimplemented!() }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
// r is a row of block a exactly if it is one of block b
pub proof fn lemma_apart(s: int, a: int, i: int, b: int)
    requires 0 <= i < s
    ensures (s * b <= s * a + i < s * b + s) == (a == b)
{
    if a < b { assert(s * (a + 1) <= s * b) by (nonlinear_arith) requires a + 1 <= b, 0 < s; assert(s * (a + 1) == s * a + s) by (nonlinear_arith); }
    if a > b { assert(s * (b + 1) <= s * a) by (nonlinear_arith) requires b + 1 <= a, 0 < s; assert(s * (b + 1) == s * b + s) by (nonlinear_arith); }
}
impl Operator {
    #[verifier::external_body]
    pub fn contract(&self, g: &OMatrix, a: &Column, b: &Column, d: &Parameters) -> (r: Block) ensures r.c() == self.contraction(g.c(), a.c(), b.c(), *d) { unimplemented!() }
    // what the contraction of the block in row a and column b adds to the matrix
    pub open spec fn added(&self, alpha: real, g: Seq<Seq<real>>, av: Seq<real>, bv: Seq<real>, d: Parameters, a: int, i: int, b: int, j: int) -> real {
        alpha * self.contraction(g, block(av, a), block(bv, b), d)[j][i]
    }
//@ fn src/assembly/operators.rs trait EllipticContraction<T, GeometryDim>: Operator<T, GeometryDim> where T: Real, GeometryDim: SmallDim, DefaultAllocator: BiDimAllocator<T, GeometryDim, Self::SolutionDim> :: accumulate_contractions_into
//@ instantiate T = real numbers
//@ qual pub
//@ subst mut output: DMatrixViewMut<T> => output: &mut DMatrix
//@ subst &OMatrix<T, GeometryDim, Self::SolutionDim> => &OMatrix
//@ subst DVectorView<T> => &Flat
//@ subst &Self::Parameters => &Parameters
//@ subst Self::SolutionDim => SolutionDim
//@ subst let mut c_IJ = output.generic_view_mut((s * I, s * J), s_times_s); => let c_IJ = (s * I, s * J);
//@ subst c_IJ += contraction * alpha; => output.add_block(c_IJ, contraction, alpha);
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        0 < SolutionDim::d(), 0 < GeometryDim::d(), a.c().len() % (GeometryDim::d() as nat) == 0, b.c().len() % (GeometryDim::d() as nat) == 0,
        old(output).rows() == SolutionDim::d() * (a.c().len() / (GeometryDim::d() as nat)), old(output).cols() == SolutionDim::d() * (b.c().len() / (GeometryDim::d() as nat)),
        a.c().len() <= usize::MAX, b.c().len() < usize::MAX, old(output).rows() <= usize::MAX, old(output).cols() <= usize::MAX,
    ensures
        final(output).rows() == old(output).rows(), final(output).cols() == old(output).cols(),
        forall|p: int, i: int, q: int, j: int| 0 <= p < a.c().len() / (GeometryDim::d() as nat) && 0 <= q < b.c().len() / (GeometryDim::d() as nat) && 0 <= i < SolutionDim::d() && 0 <= j < SolutionDim::d() && (!self.symmetric() || p <= q) ==>
            #[trigger] entry(*final(output), p, i, q, j) == entry(*old(output), p, i, q, j) + self.added(alpha.v(), gradient.c(), a.c(), b.c(), *parameters, p, i, q, j),
//@ before let s_times_s
    let ghost m0 = *output;
    let ghost sd = SolutionDim::d();
    let ghost dd = GeometryDim::d();
    proof {
        assert(M <= a.c().len() && N <= b.c().len()) by (nonlinear_arith) requires M == a.c().len() / (dd as nat), N == b.c().len() / (dd as nat), dd > 0;
        assert(dd * M == a.c().len() && dd * N == b.c().len()) by (nonlinear_arith) requires M == a.c().len() / (dd as nat), N == b.c().len() / (dd as nat), dd > 0, a.c().len() % (dd as nat) == 0, b.c().len() % (dd as nat) == 0;
    }
//@ loop 0
    invariant
        output.rows() == m0.rows(), output.cols() == m0.cols(),
        forall|p: int, i: int, q: int, j: int| 0 <= p < M && 0 <= q < N && 0 <= i < sd && 0 <= j < sd ==>
            #[trigger] entry(*output, p, i, q, j) == entry(m0, p, i, q, j) + if q < J && (!self.symmetric() || p <= q) { self.added(alpha.v(), gradient.c(), a.c(), b.c(), *parameters, p, i, q, j) } else { 0real },
//@ loop 1
    invariant
        output.rows() == m0.rows(), output.cols() == m0.cols(),
        forall|p: int, i: int, q: int, j: int| 0 <= p < M && 0 <= q < N && 0 <= i < sd && 0 <= j < sd ==>
            #[trigger] entry(*output, p, i, q, j) == entry(m0, p, i, q, j) + if (q < J && (!self.symmetric() || p <= q)) || (q == J && p < I) { self.added(alpha.v(), gradient.c(), a.c(), b.c(), *parameters, p, i, q, j) } else { 0real },
//@ loop-start 1
    let ghost m1 = *output;
    proof {
        lemma_block(dd, I as int, M as int); lemma_block(dd, J as int, N as int);
        lemma_block(sd, I as int, M as int); lemma_block(sd, J as int, N as int);
    }
//@ loop-end 1
    proof {
        assert forall|p: int, i: int, q: int, j: int| 0 <= p < M && 0 <= q < N && 0 <= i < sd && 0 <= j < sd implies
            #[trigger] entry(*output, p, i, q, j) == entry(m0, p, i, q, j) + if (q < J && (!self.symmetric() || p <= q)) || (q == J && p < I + 1) { self.added(alpha.v(), gradient.c(), a.c(), b.c(), *parameters, p, i, q, j) } else { 0real } by {
            lemma_apart(sd, p, i, I as int); lemma_apart(sd, q, j, J as int);
            if p == I && q == J {
                let x = self.contraction(gradient.c(), block(a.c(), p), block(b.c(), q), *parameters)[j][i];
                assert(entry(*output, p, i, q, j) == entry(m1, p, i, q, j) + x * alpha.v());
                assert(x * alpha.v() == alpha.v() * x) by (nonlinear_arith);
            } else {
                assert(entry(*output, p, i, q, j) == entry(m1, p, i, q, j));
            }
            assert(entry(m1, p, i, q, j) == entry(m0, p, i, q, j) + if (q < J && (!self.symmetric() || p <= q)) || (q == J && p < I) { self.added(alpha.v(), gradient.c(), a.c(), b.c(), *parameters, p, i, q, j) } else { 0real });
        }
    }
//@ done
}
//@ fn src/assembly/local/elliptic.rs assemble_element_elliptic_matrix
//@ instantiate T = real numbers
//@ subst eyre::Result<()> => Result<(), Report>
//@ subst mut output: DMatrixViewMut<T> => output: &mut DMatrix
//@ subst DVectorView<T> => &Vec<T>
//@ subst &[OPoint<T, Element::ReferenceDim>] => &[OPoint]
//@ subst &[Contraction::Parameters] => &[Parameters]
//@ subst operator: &Contraction => operator: &Operator
//@ subst MatrixViewMut<T, Element::ReferenceDim, Dyn> => MatrixView
//@ subst Contraction::SolutionDim => SolutionDim
//@ subst Element::GeometryDim => GeometryDim
//@ subst izip!(quadrature_weights, quadrature_points, quadrature_data) => triples(quadrature_weights, quadrature_points, quadrature_data)
//@ subst (&weight, point, data) => (weight, point, data)
//@ subst eyre!("Singular element Jacobian encountered") => singular()
//@ subst MatrixViewMut::from(&mut phi_grad) => &mut phi_grad
//@ subst reshape_to_slice(&u_element, (s, Dyn(n))) => as_matrix(u_element, s, Dyn(n))
//@ subst &phi_grad, u_element) => &phi_grad, &u_element)
//@ subst for mut phi_grad in phi_grad.column_iter_mut() => for k in 0..phi_grad.ncols()
//@ subst &j_inv_t * &phi_grad => j_inv_t.times_column(&phi_grad.column(k))
//@ subst phi_grad.copy_from(&new_phi_grad) => phi_grad.set_column(k, &new_phi_grad)
//@ subst reshape_to_slice(&phi_grad, (Dyn(d * n), U1::name())) => flattened(&phi_grad, Dyn(d * n))
//@ subst phi_grad.clone(), phi_grad, => &phi_grad, &phi_grad,
//@ subst DMatrixViewMut::from(&mut output) => &mut *output
//@ subst clone_upper_to_lower(&mut output) => clone_upper_to_lower(&mut *output)
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        0 < SolutionDim::d(), 0 < GeometryDim::d(), 0 <= element.n(), SolutionDim::d() * element.n() <= usize::MAX, GeometryDim::d() * element.n() < usize::MAX,
        quadrature_weights@.len() == quadrature_points@.len(), quadrature_points@.len() == quadrature_data@.len(),
        basis_gradients_buffer.c().len() == element.n(), u_element@.len() == SolutionDim::d() * element.n(),
        old(output).rows() == SolutionDim::d() * element.n(), old(output).cols() == SolutionDim::d() * element.n(),
    ensures
        res.is_ok() == rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@).regular(),
        final(output).rows() == old(output).rows(), final(output).cols() == old(output).cols(),
        res.is_ok() ==> forall|a: int, i: int, b: int, j: int| 0 <= a < element.n() && 0 <= b < element.n() && 0 <= i < SolutionDim::d() && 0 <= j < SolutionDim::d() ==>
            #[trigger] entry(*final(output), a, i, b, j) == {
                let rl = rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@);
                let n = quadrature_weights@.len() as int;
                // a symmetric operator gives the upper triangle and its mirror image
                if operator.symmetric() && SolutionDim::d() * a + i > SolutionDim::d() * b + j { rl.matrix(b, j, a, i, n) } else { rl.matrix(a, i, b, j, n) }
            },
//@ start
    let ghost rl = rule(*element, *operator, u_element@, quadrature_weights@, quadrature_points@, quadrature_data@);
    let ghost sd = SolutionDim::d();
    let ghost en = element.n();
    let ghost dd = GeometryDim::d();
    proof {
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(en, dd);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(en, dd);
        assert(dd * en == en * dd) by (nonlinear_arith);
        assert(0 <= dd * en) by (nonlinear_arith) requires 0 < dd, 0 <= en;
    }
//@ loop 0 it
    invariant
        it.seq().len() == quadrature_weights@.len(),
        forall|k: int| 0 <= k < quadrature_weights@.len() ==> (#[trigger] it.seq()[k]).0 == quadrature_weights@[k] && *it.seq()[k].1 == quadrature_points@[k] && *it.seq()[k].2 == quadrature_data@[k],
        phi_grad.c().len() == element.n(), output.rows() == sd * en, output.cols() == sd * en,
        forall|q: int| 0 <= q < it.index() ==> (#[trigger] rl.inv(q)) is Some,
        forall|a: int, i: int, b: int, j: int| 0 <= a < en && 0 <= b < en && 0 <= i < sd && 0 <= j < sd && (!operator.symmetric() || a <= b) ==>
            #[trigger] entry(*output, a, i, b, j) == rl.matrix(a, i, b, j, it.index() as int),
//@ loop-start 0
    let ghost q = it.index() as int;
    let ghost m0 = *output;
    proof { assert(rl.inv(q) == element.jacobian(*point).inverse()); }
//@ loop 1
    invariant
        phi_grad.c().len() == en, sized(phi_grad.c(), dd),
        forall|a: int| 0 <= a < en ==> #[trigger] phi_grad.c()[a] == if a < k { rl.physical(q, a) } else { element.gradients(*point)[a] },
//@ loop-end 0
    proof {
        assert forall|a: int, i: int, b: int, j: int| 0 <= a < en && 0 <= b < en && 0 <= i < sd && 0 <= j < sd && (!operator.symmetric() || a <= b) implies
            #[trigger] entry(*output, a, i, b, j) == rl.matrix(a, i, b, j, q + 1) by {
            assert(entry(m0, a, i, b, j) == rl.matrix(a, i, b, j, q));
            assert(block(phi_grad.c(), a) == rl.physical(q, a));
            assert(block(phi_grad.c(), b) == rl.physical(q, b));
        }
    }
//@ before if matches
    let ghost m2 = *output;
//@ end
    proof {
        let n = quadrature_weights@.len() as int;
        assert forall|a: int, i: int, b: int, j: int| 0 <= a < en && 0 <= b < en && 0 <= i < sd && 0 <= j < sd implies
            #[trigger] entry(*output, a, i, b, j) == if operator.symmetric() && sd * a + i > sd * b + j { rl.matrix(b, j, a, i, n) } else { rl.matrix(a, i, b, j, n) } by {
            lemma_block(sd, a, en); lemma_block(sd, b, en);
            if a < b { lemma_block(sd, a, b); }
            if b < a { lemma_block(sd, b, a); }
            if !operator.symmetric() || a <= b { assert(entry(m2, a, i, b, j) == rl.matrix(a, i, b, j, n)); }
            if !operator.symmetric() || b <= a { assert(entry(m2, b, j, a, i) == rl.matrix(b, j, a, i, n)); }
        }
    }
//@ done
fn main() {}
}
