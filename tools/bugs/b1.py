BUGS = []
def bug(id, property, file, edits, needs, breaks, deps, main):
    BUGS.append(dict(id=id, property=property, edits=[(file, o, n) for o, n in edits] if file else edits, needs=needs, breaks=breaks, deps=deps, main=main))

bug("c12-zero-entry-skips-column", "C12", "src/assembly/global.rs", [(
'''                } else {
                    *val = T::zero();
                    // If we''',
'''                } else if *val != T::zero() {
                    *val = T::zero();
                    // If we''')],
"a matrix whose entry (constrained, free) is stored as zero while (free, constrained) is not",
"the column of the constrained unknown is not cleared in that row",
["fenris"],
'''use fenris::nalgebra::DMatrix;
use fenris::nalgebra_sparse::{pattern::SparsityPattern, CsrMatrix};
fn main() {
    let p = SparsityPattern::try_from_offsets_and_indices(2, 2, vec![0, 2, 4], vec![0, 1, 0, 1]).unwrap();
    let mut m = CsrMatrix::try_from_pattern_and_values(p, vec![2.0, 0.0, 5.0, 3.0]).unwrap();
    fenris::assembly::global::apply_homogeneous_dirichlet_bc_csr(&mut m, &[0], 1);
    let d: DMatrix<f64> = DMatrix::from(&m);
    assert!(d[(0, 0)] != 0.0 && d[(0, 1)] == 0.0 && d[(1, 0)] == 0.0 && d[(1, 1)] == 3.0, "{}", d);
}
''')

bug("c11-empty-appended-array", "C11", "fenris-nested-vec/src/lib.rs", [(
'''        self.offsets_begin.push(self.initial_count);
        self.offsets_end.push(self.data.len());
    }
}

impl<T: Clone>''',
'''        if self.count() > 0 {
            self.offsets_begin.push(self.initial_count);
            self.offsets_end.push(self.data.len());
        }
    }
}

impl<T: Clone>''')],
"an array appended with begin_array that receives no element",
"the empty array is not added, and every later array moves to a smaller index",
["fenris-nested-vec"],
'''use fenris_nested_vec::NestedVec;
fn main() {
    let mut n = NestedVec::new();
    n.push(&[1, 2]);
    n.begin_array();
    n.begin_array().push_single(3);
    let v: Vec<Vec<i32>> = (&n).into();
    assert_eq!(v, vec![vec![1, 2], vec![], vec![3]]);
}
''')

bug("c10-block-read-offset", "C10", "fenris-paradis/src/adapter.rs", [(
'''        Block {
            access: self.access.clone(),
            start_idx: self.block_size * global_index,''',
'''        Block {
            access: self.access.clone(),
            start_idx: global_index,''')],
"reading (not writing) an entry of a block through SubsetAccess::get with a block size of at least 2",
"read access maps the block to the wrong run of entries, which other subsets may be writing",
["fenris-paradis", 'fenris-nested-vec = { path = "$repo/fenris-nested-vec" }', 'rayon = "1"'],
'''use fenris_paradis::{adapter::BlockAdapter, DisjointSubsets};
use rayon::iter::ParallelIterator;
fn main() {
    let d = DisjointSubsets::try_from_disjoint_subsets(vec![vec![0usize], vec![2, 1]], vec![0, 1]).unwrap();
    let mut data: Vec<usize> = (0..9).collect();
    let mut a = BlockAdapter::with_block_size(&mut data[..], 3);
    let mut r: Vec<(usize, usize)> = d.subsets_par_iter(&mut a).flat_map_iter(|s| {
        let v: Vec<_> = (0..s.len()).flat_map(|l| (0..3).map(move |j| (l, j))).map(|(l, j)| (s.global_indices()[l] * 3 + j, *s.get(l).index(j))).collect();
        v
    }).collect();
    r.sort();
    assert_eq!(r, (0..9).map(|i| (i, i)).collect::<Vec<_>>());
}
''')

bug("c09-max-index-of-new-node", "C09", "fenris-paradis/src/coloring.rs", [(
'''                    max_node_idx = max_node_idx
                        .map(|max_node_idx| max(node_idx, max_node_idx))
                        .or(Some(node_idx));
                    // Update table of visitors
                    if let Some(current_visitor) = last_visited_color.get_mut(node_idx) {
                        *current_visitor = color_idx;
                    } else {''',
'''                    // Update table of visitors
                    if let Some(current_visitor) = last_visited_color.get_mut(node_idx) {
                        max_node_idx = max_node_idx
                            .map(|max_node_idx| max(node_idx, max_node_idx))
                            .or(Some(node_idx));
                        *current_visitor = color_idx;
                    } else {
                        max_node_idx = Some(node_idx);''')],
"a node beyond the table after... the table grows to 2 * index + 1, so the first growth is always a new maximum",
"nothing",
["fenris-paradis"], "fn main() {}")
BUGS.pop()

bug("c09-max-index-first-of-subset", "C09", "fenris-paradis/src/coloring.rs", [(
'''                        .map(|max_node_idx| max(node_idx, max_node_idx))''',
'''                        .map(|max_node_idx| if color_subsets.len() == 0 { max(node_idx, max_node_idx) } else { max_node_idx.max(subset[0]) })''')],
"a colour whose largest index is in a later subset, not at its first position",
"the maximum index of the colour is too small, so iterating over a storage that is too small is not refused",
["fenris-paradis", 'fenris-nested-vec = { path = "$repo/fenris-nested-vec" }'],
'''use fenris_nested_vec::NestedVec;
fn main() {
    let mut n = NestedVec::new();
    n.push(&[0, 1]);
    n.push(&[2, 7]);
    let c = fenris_paradis::coloring::sequential_greedy_coloring(&n);
    assert_eq!(c.len(), 1);
    let mut data = vec![0u8; 7];
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = c[0].subsets_par_iter(&mut data[..]); })).is_ok();
    assert!(!ok, "storage of 7 entries accepted for index 7");
}
''')

bug("c13-equal-min-vertices", "C13", "src/mesh/reorder.rs", [(
'''    let mut connectivity_perm: Vec<_> = (0..mesh.connectivity().len()).collect();
    connectivity_perm.sort_by_key(''',
'''    let mut connectivity_perm: Vec<_> = (0..mesh.connectivity().len()).collect();
    connectivity_perm.sort_by_cached_key('''), (
'''            .map(|old_vertex_idx| inv_vertex_perm.source_index(*old_vertex_idx))
            .min()''',
'''            .map(|old_vertex_idx| vertex_perm.source_index(*old_vertex_idx))
            .min()''')],
"a mesh whose vertex permutation is not its own inverse",
"the cells are not ordered by their smallest new vertex index",
["fenris"],
'''use fenris::connectivity::{Connectivity, Segment2d2Connectivity};
use fenris::mesh::{reorder::reorder_mesh_par, Mesh};
use fenris::nalgebra::{Point2, U2};
fn main() {
    let p: Vec<_> = (0..6).map(|i| Point2::new(i as f64, 0.0)).collect();
    let c: Vec<_> = [[3, 0], [0, 5], [5, 1], [1, 4], [4, 2]].iter().map(|c| Segment2d2Connectivity(*c)).collect();
    let m: Mesh<f64, U2, _> = Mesh::from_vertices_and_connectivity(p, c);
    let r = reorder_mesh_par(&m).apply(&m);
    let mins: Vec<usize> = r.connectivity().iter().map(|c| *c.vertex_indices().iter().min().unwrap()).collect();
    let mut s = mins.clone();
    s.sort();
    assert_eq!(mins, s);
}
''')

bug("c08-short-element-after-long", "C08", "src/assembly/global.rs", [(
'''            workspace.nodes.resize(element_node_count, usize::MAX);
            workspace
                .vector
                .resize_vertically_mut(s * element_node_count, T::zero());
            element_assembler.populate_element_nodes(&mut workspace.nodes, i);''',
'''            if workspace.nodes.len() != element_node_count {
                workspace.nodes.resize(element_node_count, usize::MAX);
                workspace
                    .vector
                    .resize_vertically_mut(s * element_node_count, T::zero());
            }
            element_assembler.populate_element_nodes(&mut workspace.nodes, i);''')],
"one VectorAssembler used for two problems with different solution dimensions and equally many nodes per element",
"the element vector keeps the size of the previous problem",
["fenris"],
'''use fenris::assembly::global::VectorAssembler;
use fenris::assembly::local::{ElementConnectivityAssembler, ElementVectorAssembler};
use fenris::nalgebra::DVectorViewMut;
struct A(usize);
impl ElementConnectivityAssembler for A {
    fn solution_dim(&self) -> usize { self.0 }
    fn num_elements(&self) -> usize { 1 }
    fn num_nodes(&self) -> usize { 2 }
    fn element_node_count(&self, _: usize) -> usize { 2 }
    fn populate_element_nodes(&self, o: &mut [usize], _: usize) { o.copy_from_slice(&[1, 0]) }
}
impl ElementVectorAssembler<f64> for A {
    fn assemble_element_vector_into(&self, _: usize, mut o: DVectorViewMut<f64>) -> eyre::Result<()> {
        for i in 0..2 * self.0 { o[i] = i as f64; }
        Ok(())
    }
}
fn main() {
    let v = VectorAssembler::<f64>::default();
    assert_eq!(v.assemble_vector(&A(1)).unwrap().as_slice(), &[1.0, 0.0]);
    assert_eq!(v.assemble_vector(&A(2)).unwrap().as_slice(), &[2.0, 3.0, 0.0, 1.0]);
}
''')
BUGS[-1]["deps"].append('eyre = "0.6"')

bug("c08-aggregate-boundary", "C08", "src/assembly/local.rs", [(
'''        let assembler_idx = match self.element_offsets.binary_search(&element_index) {
            Ok(idx) => idx,
            Err(idx) => idx - 1,
        };''',
'''        // The index of the first assembler that starts at or after the element
        let assembler_idx = self.element_offsets.partition_point(|offset| *offset < element_index);
        let assembler_idx = match self.element_offsets.get(assembler_idx) {
            Some(offset) if *offset == element_index => assembler_idx,
            _ => assembler_idx - 1,
        };''')],
"an aggregate in which an assembler without elements is followed by one with elements",
"the first element after the empty assembler is looked up in the empty assembler",
["fenris", 'eyre = "0.6"'],
'''use fenris::assembly::local::{AggregateElementAssembler, ElementConnectivityAssembler};
struct A(usize);
impl ElementConnectivityAssembler for A {
    fn solution_dim(&self) -> usize { 1 }
    fn num_elements(&self) -> usize { self.0 }
    fn num_nodes(&self) -> usize { 9 }
    fn element_node_count(&self, i: usize) -> usize { assert!(i < self.0); 1 }
    fn populate_element_nodes(&self, o: &mut [usize], i: usize) { assert!(i < self.0); o[0] = self.0 + i }
}
fn main() {
    let l = [A(1), A(0), A(2)];
    let g = AggregateElementAssembler::from_assemblers(&l);
    let mut got = vec![];
    for i in 0..3 {
        assert_eq!(g.element_node_count(i), 1);
        let mut n = [99];
        g.populate_element_nodes(&mut n, i);
        got.push(n[0]);
    }
    assert_eq!(got, vec![1, 2, 3]);
}
''')

bug("c05-poisson-lambda", "C05", "fenris-solid/src/materials.rs", [(
'''        let lambda = 2.0 * mu * poisson / (1.0 - 2.0 * poisson);''',
'''        let lambda = young * poisson / ((1.0 + poisson) * (1.0 - poisson));''')],
"material parameters given as Young modulus and Poisson ratio",
"the plane-stress value of lambda is used instead of the three-dimensional one",
["fenris-solid"],
'''use fenris_solid::materials::{LameParameters, YoungPoisson};
fn main() {
    let l: LameParameters<f64> = YoungPoisson { young: 1.0, poisson: 0.25 }.into();
    assert!((l.mu - 0.4).abs() < 1e-12 && (l.lambda - 0.4).abs() < 1e-12, "{:?}", l);
}
''')

bug("c06-nonsymmetric-mirrored", "C06", "src/assembly/local/elliptic.rs", [(
'''        let j_det = j.determinant();
        let j_inv = j
            .try_inverse()
            // TODO: Return a "proper" error instead of using eyre
            .ok_or_else(|| eyre!("Singular element Jacobian encountered"))?;
        let j_inv_t = j_inv.transpose();

        // First populate gradients with respect to reference coords
        element.populate_basis_gradients(MatrixViewMut::from(&mut phi_grad_ref), &point);

        let u_element = MatrixView::from_slice_generic(u_element.as_slice(), Operator::SolutionDim::name(), Dyn(n));
        let u_grad = compute_volume_u_grad(&j_inv_t, &phi_grad_ref, u_element);

        // We want''',
'''        let j_det = j.determinant();
        let j_inv = j
            .try_inverse()
            // TODO: Return a "proper" error instead of using eyre
            .ok_or_else(|| eyre!("Singular element Jacobian encountered"))?;
        let j_inv_t = j_inv.transpose();

        // Degenerate quadrature points do not contribute
        if j_det <= T::zero() && weight <= T::zero() {
            continue;
        }

        // First populate gradients with respect to reference coords
        element.populate_basis_gradients(MatrixViewMut::from(&mut phi_grad_ref), &point);

        let u_element = MatrixView::from_slice_generic(u_element.as_slice(), Operator::SolutionDim::name(), Dyn(n));
        let u_grad = compute_volume_u_grad(&j_inv_t, &phi_grad_ref, u_element);

        // We want''')],
"an inverted element and a quadrature rule with a negative weight",
"the contribution of negative-weight points of inverted elements is dropped from the vector, which is then not the gradient of the energy",
["fenris"],
'''use fenris::assembly::local::{assemble_element_elliptic_vector, compute_element_elliptic_energy};
use fenris::assembly::operators::LaplaceOperator;
use fenris::element::Tri3d2Element;
use fenris::nalgebra::{DVector, OMatrix, Point2, Dyn, U2, MatrixViewMut};
fn main() {
    // clockwise triangle
    let e = Tri3d2Element::from_vertices([Point2::new(0.0, 0.0), Point2::new(0.0, 1.0), Point2::new(1.0, 0.0)]);
    let u = DVector::from_vec(vec![0.0, 1.0, 3.0]);
    let (w, p, d) = (vec![-0.5, 2.5], vec![Point2::new(-0.3, -0.3), Point2::new(-0.5, -0.2)], vec![(), ()]);
    let mut buf = OMatrix::<f64, U2, Dyn>::zeros(3);
    let mut b = DVector::zeros(3);
    assemble_element_elliptic_vector((&mut b).into(), &e, &LaplaceOperator, (&u).into(), &w, &p, &d, MatrixViewMut::from(&mut buf)).unwrap();
    let psi = compute_element_elliptic_energy(&e, &LaplaceOperator, (&u).into(), &w, &p, &d, MatrixViewMut::from(&mut buf)).unwrap();
    // quadratic energy: u . grad = 2 energy
    assert!((u.dot(&b) - 2.0 * psi).abs() < 1e-9, "{} {}", u.dot(&b), 2.0 * psi);
}
''')
