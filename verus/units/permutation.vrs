use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::VecDeque;
use std::marker::PhantomData;
verus! {
//@ include std_inc.vrs
// `s.iter().enumerate()`, as the sequence it yields
#[verifier::external_body]
pub fn enumerated<'a>(s: &'a [usize]) -> (r: Vec<(usize, &'a usize)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i]
{ s.iter().enumerate().collect() }

//@ struct src/mesh/reorder.rs Permutation
//@ struct src/mesh/reorder.rs InvalidPermutation

// every index below the length occurs exactly once
pub open spec fn is_permutation(p: Seq<usize>) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < p.len()
    &&& forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && #[trigger] p[i] == #[trigger] p[j] ==> i == j
}
pub open spec fn inverse_of(q: Seq<usize>, p: Seq<usize>) -> bool {
    &&& q.len() == p.len()
    &&& forall|i: int| 0 <= i < p.len() ==> q[#[trigger] p[i] as int] == i
    &&& forall|i: int| 0 <= i < p.len() ==> p[#[trigger] q[i] as int] == i
}
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();

// an index below the length occurs: the values are as many as the indices
pub proof fn lemma_onto(p: Seq<usize>, v: int)
    requires is_permutation(p), 0 <= v < p.len()
    ensures exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == v
{
    let n = p.len() as int;
    let q = Seq::new(p.len(), |i: int| p[i] as int);
    assert(q.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(p[i] != p[j]); }
    }
    q.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    let all = vstd::set_lib::set_int_range(0, n);
    assert(q.to_set().subset_of(all)) by {
        assert forall|x: int| q.to_set().contains(x) implies all.contains(x) by {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
            assert(p[i] < p.len());
        }
    }
    vstd::set_lib::lemma_subset_equality(q.to_set(), all);
    assert(all.contains(v));
    assert(q.to_set().contains(v));
    let i = choose|i: int| 0 <= i < q.len() && q[i] == v;
    assert(p[i] == v);
}
pub proof fn lemma_inverse(q: Seq<usize>, p: Seq<usize>)
    requires is_permutation(p), q.len() == p.len(), forall|i: int| 0 <= i < p.len() ==> q[#[trigger] p[i] as int] == i
    ensures is_permutation(q), inverse_of(q, p)
{
    assert forall|v: int| 0 <= v < q.len() implies #[trigger] q[v] < q.len() && p[q[v] as int] == v by {
        lemma_onto(p, v);
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == v;
        assert(q[p[i] as int] == i);
    }
}
impl Permutation {
    pub closed spec fn view(&self) -> Seq<usize> { self.perm@ }
    pub closed spec fn valid(&self) -> bool { is_permutation(self@) }

//@ fn src/mesh/reorder.rs impl Permutation :: from_vec
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures r.is_ok() == is_permutation(perm@), r matches Ok(p) ==> p@ == perm@ && p.valid()
//@ loop 0 it
    invariant
        it.seq() == perm@.as_ref(),
        visited@.len() == perm@.len(),
        forall|i: int| 0 <= i < it.index() ==> #[trigger] perm@[i] < perm@.len() && visited@[perm@[i] as int],
        forall|i: int, j: int| 0 <= i < it.index() && 0 <= j < it.index() && #[trigger] perm@[i] == #[trigger] perm@[j] ==> i == j,
        forall|v: int| 0 <= v < visited@.len() && #[trigger] visited@[v] ==> exists|i: int| 0 <= i < it.index() && #[trigger] perm@[i] == v,
//@ done
//@ fn src/mesh/reorder.rs impl Permutation :: len
//@ ret r
//@ spec
    ensures r == self@.len()
//@ done
//@ fn src/mesh/reorder.rs impl Permutation :: perm
//@ ret r
//@ spec
    ensures r@ == self@
//@ done
//@ fn src/mesh/reorder.rs impl Permutation :: source_index
//@ ret r
//@ spec
    requires target_index < self@.len()
    ensures r == self@[target_index as int]
//@ done
//@ fn src/mesh/reorder.rs impl Permutation :: reverse
//@ spec
    requires old(self).valid()
    ensures final(self)@ == old(self)@.reverse(), final(self).valid()
//@ done
//@ fn src/mesh/reorder.rs impl Permutation :: inverse
//@ subst self.perm().iter().enumerate() => enumerated(self.perm())
//@ subst std::usize::MAX => usize::MAX
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.valid()
    ensures r.valid(), inverse_of(r@, self@)
//@ loop 0 it
    invariant
        inverse_perm@.len() == self@.len(),
        it.seq().len() == self@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == self@[i],
        forall|i: int| 0 <= i < it.index() ==> inverse_perm@[#[trigger] self@[i] as int] == i,
//@ end
    proof { lemma_inverse(inverse_perm@, self@); }
//@ done
//@ fn src/mesh/reorder.rs impl Permutation :: apply_to_slice
//@ subst <T: Clone> =>
//@ subst &[T] => &[u64]
//@ subst Vec<T> => Vec<u64>
//@ ret r
//@ closure 0 &usize ; c: u64
    requires *a0 < slice@.len()
    ensures c == slice@[*a0 as int]
//@ spec
    requires self.valid(), slice@.len() == self@.len()
    ensures r@.len() == slice@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == slice@[self@[i] as int]
//@ done
}
// nalgebra-sparse's pattern: the lanes and the length of a lane
#[verifier::external_body]
pub struct SparsityPattern { lanes: Vec<Vec<usize>>, minor: usize }
impl SparsityPattern {
    pub uninterp spec fn lanes(&self) -> Seq<Seq<usize>>;
    pub uninterp spec fn minor(&self) -> nat;
    pub open spec fn valid(&self) -> bool {
        forall|i: int, k: int| 0 <= i < self.lanes().len() && 0 <= k < self.lanes()[i].len() ==> #[trigger] self.lanes()[i][k] < self.minor()
    }
    #[verifier::external_body]
    pub fn lane(&self, i: usize) -> (r: &[usize]) requires i < self.lanes().len() ensures r@ == self.lanes()[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn major_dim(&self) -> (r: usize) ensures r == self.lanes().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn minor_dim(&self) -> (r: usize) ensures r == self.minor() { unimplemented!() }
}
// `v.extend(s)` for a slice of indices
#[verifier::external_body]
pub fn extend_indices(v: &mut Vec<usize>, s: &[usize]) ensures final(v)@ == old(v)@ + s@ { v.extend(s) }

pub open spec fn looked_at(k: usize) -> bool { true }
// `(0..n).filter(p).min_by_key(f)`: an index that satisfies p, unless none does (which one is not specified)
#[verifier::external_body]
pub fn min_key_filtered<P: Fn(&usize) -> bool, F: Fn(&usize) -> usize>(n: usize, p: P, f: F) -> (r: Option<usize>)
    requires
        forall|k: usize| #![trigger call_requires(p, (&k,))] k < n ==> call_requires(p, (&k,)),
        forall|k: usize| #![trigger call_requires(f, (&k,))] k < n ==> call_requires(f, (&k,)),
    ensures
        r matches Some(v) ==> v < n && call_ensures(p, (&v,), true),
        r.is_none() ==> forall|k: usize| #[trigger] looked_at(k) && k < n ==> call_ensures(p, (&k,), false),
{ (0..n).filter(|k| p(k)).min_by_key(|k| f(k)) }
// sorting rearranges
#[verifier::external_body]
pub fn sort_by_key_rearranges<F: Fn(&usize) -> usize>(s: &mut Vec<usize>, f: F)
    requires forall|k: int| 0 <= k < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[k],))
    ensures final(s)@.to_multiset() == old(s)@.to_multiset()
{ s.sort_unstable_by_key(|x| f(x)) }

// the search so far: what is visited is what is listed, once each
pub open spec fn searched(s: Seq<usize>, visited: Seq<bool>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < visited.len() && visited[s[i] as int]
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == #[trigger] s[j] ==> i == j
    &&& forall|v: int| 0 <= v < visited.len() && #[trigger] visited[v] ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == v
}
pub proof fn lemma_searched_push(s: Seq<usize>, visited: Seq<bool>, v: usize)
    requires searched(s, visited), v < visited.len(), !visited[v as int]
    ensures searched(s.push(v), visited.update(v as int, true))
{
    let s2 = s.push(v);
    let w = visited.update(v as int, true);
    assert forall|u: int| 0 <= u < w.len() && #[trigger] w[u] implies exists|i: int| 0 <= i < s2.len() && #[trigger] s2[i] == u by {
        if u == v { assert(s2[s.len() as int] == u); } else {
            assert(visited[u]);
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == u;
            assert(s2[i] == u);
        }
    }
}
pub open spec fn occurs(s: Seq<usize>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == v }
pub open spec fn onto(s: Seq<usize>, n: nat) -> bool { forall|v: int| 0 <= v < n ==> #[trigger] occurs(s, v) }
// distinct indices below a bound are at most as many as the bound
pub proof fn lemma_distinct(s: Seq<usize>, n: nat)
    requires
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < n,
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == #[trigger] s[j] ==> i == j,
    ensures s.len() <= n, onto(s, n) ==> s.len() == n
{
    let q = Seq::new(s.len(), |i: int| s[i] as int);
    assert(q.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(s[i] != s[j]); }
    }
    q.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n as int);
    let all = vstd::set_lib::set_int_range(0, n as int);
    assert forall|x: int| q.to_set().contains(x) implies all.contains(x) by {
        let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
        assert(s[i] < n);
    }
    vstd::set_lib::lemma_len_subset(q.to_set(), all);
    if onto(s, n) {
        assert forall|x: int| all.contains(x) implies q.to_set().contains(x) by {
            assert(occurs(s, x));
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x;
            assert(q[i] == x);
        }
        vstd::set_lib::lemma_len_subset(all, q.to_set());
    }
}
pub proof fn lemma_rearranged(a: Seq<usize>, b: Seq<usize>, n: nat)
    requires a.to_multiset() == b.to_multiset(), forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] < n
    ensures forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] < n
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] < n by {
        assert(a.contains(a[k]));
        assert(a.to_multiset().count(a[k]) > 0);
        assert(b.contains(a[k]));
    }
}
//@ fn src/mesh/reorder.rs cuthill_mckee
//@ subst adjacency_workspace.extend( => extend_indices(&mut adjacency_workspace,
//@ subst adjacency_workspace.sort_unstable_by_key( => sort_by_key_rearranges(&mut adjacency_workspace,
//@ subst (0..sparsity_pattern.major_dim()) => min_key_filtered(sparsity_pattern.major_dim()
//@ subst .filter( => , (
//@ subst .min_by_key( => ,
//@ before if let Some.start_vertex
    let ghost seen = visited@;
    proof {
        if least_degree_vertex.is_none() {
            assert forall|k: int| 0 <= k < seen.len() implies seen[k] by { let u = k as usize; assert(looked_at(u)); }
        }
    }
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ closures 6
//@ closure 0 usize ; l: &[usize]
    requires a0 < sparsity_pattern.lanes().len()
    ensures l@ == sparsity_pattern.lanes()[a0 as int]
//@ closure 1 usize ; d: usize
    requires a0 < sparsity_pattern.lanes().len()
    ensures d == sparsity_pattern.lanes()[a0 as int].len()
//@ closure 2 &bool ; b: bool
    ensures b == !*a0
//@ closure 3 &usize ; b: bool
    requires *a0 < visited@.len()
    ensures b == !visited@[*a0 as int]
//@ closure 4 &usize ; d: usize
    requires *a0 < sparsity_pattern.lanes().len()
    ensures d == sparsity_pattern.lanes()[*a0 as int].len()
//@ closure 5 &usize ; d: usize
    requires *a0 < sparsity_pattern.lanes().len()
    ensures d == sparsity_pattern.lanes()[*a0 as int].len()
//@ spec
    requires sparsity_pattern.valid(), sparsity_pattern.lanes().len() == sparsity_pattern.minor()
    ensures r.valid(), r@.len() == sparsity_pattern.lanes().len()
//@ loop 0
    invariant
        queue@.len() == 0, visited@.len() == sparsity_pattern.lanes().len(), searched(permutation@, visited@),
    decreases visited@.len() - permutation@.len()
//@ before queue.push_back.start_vertex
    let ghost grown = permutation@.len();
    let ghost mut listed = permutation@;
    proof { lemma_searched_push(listed, visited@, start_vertex); }
//@ before while let Some
    proof { listed = listed.push(start_vertex); assert(permutation@ + queue@ =~= listed); }
//@ loop 1
    invariant
        visited@.len() == sparsity_pattern.lanes().len(), listed == permutation@ + queue@, searched(listed, visited@),
        listed.len() > grown,
    decreases visited@.len() - permutation@.len()
//@ loop-start 1
    proof {
        assert(listed[permutation@.len() as int] == vertex);
        assert(listed =~= permutation@.push(vertex) + queue@);
        lemma_distinct(listed, visited@.len());
    }
//@ before sort_by_key_rearranges
    let ghost neighbors = adjacency_workspace@;
//@ before permutation.push
    proof { lemma_rearranged(adjacency_workspace@, neighbors, visited@.len()); }
//@ loop 2 it
    invariant
        it.seq() == adjacency_workspace@.as_ref(),
        forall|k: int| 0 <= k < adjacency_workspace@.len() ==> #[trigger] adjacency_workspace@[k] < visited@.len(),
        visited@.len() == sparsity_pattern.lanes().len(), listed == permutation@ + queue@, searched(listed, visited@),
        listed.len() > grown,
//@ before visited.adjacent_vertex. = true
    proof { lemma_searched_push(listed, visited@, adjacent_vertex); }
//@ loop-end 2
    proof { 
        if listed != permutation@ + queue@ { listed = listed.push(adjacent_vertex); }
        assert(permutation@ + queue@ =~= listed); 
    }
//@ loop-after 1
    proof { assert(listed =~= permutation@); lemma_distinct(listed, visited@.len()); }
//@ loop-after 0
    proof {
        assert forall|k: int| 0 <= k < visited@.len() implies #[trigger] occurs(permutation@, k) by {
            assert(*visited@.as_ref()[k] == visited@[k]);
            assert(visited@[k]);
        }
        lemma_distinct(permutation@, visited@.len());
    }
//@ done
//@ fn src/mesh/reorder.rs reverse_cuthill_mckee
//@ ret r
//@ spec
    requires sparsity_pattern.valid(), sparsity_pattern.lanes().len() == sparsity_pattern.minor()
    ensures r.valid(), r@.len() == sparsity_pattern.lanes().len()
//@ done
// The cells of a mesh: of `ConnectivityMut` only `vertex_indices_mut` is used, which lends the list of the cell's nodes
#[verifier::external_body]
pub struct Cell { nodes: Vec<usize> }
impl Cell {
    pub uninterp spec fn nodes(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn vertex_indices_mut(&mut self) -> (r: &mut [usize])
        ensures r@ == old(self).nodes(), final(self).nodes() == final(r)@, r@.len() == final(r)@.len() { &mut self.nodes }
    #[verifier::external_body]
    pub fn vertex_indices(&self) -> (r: &[usize]) ensures r@ == self.nodes() { &self.nodes }
}
impl Clone for Cell {
    #[verifier::external_body]
    fn clone(&self) -> (r: Cell) ensures r == *self { Cell { nodes: self.nodes.clone() } }
}
pub struct Mesh { vertices: Vec<u64>, connectivity: Vec<Cell> }
impl Mesh {
    pub closed spec fn v(&self) -> Seq<u64> { self.vertices@ }
    pub closed spec fn c(&self) -> Seq<Cell> { self.connectivity@ }
    pub open spec fn valid(&self) -> bool {
        forall|j: int, k: int| #![trigger self.c()[j].nodes()[k]] 0 <= j < self.c().len() && 0 <= k < self.c()[j].nodes().len() ==> self.c()[j].nodes()[k] < self.v().len()
    }
    fn vertices(&self) -> (r: &[u64]) ensures r@ == self.v() { &self.vertices }
    fn connectivity(&self) -> (r: &[Cell]) ensures r@ == self.c() { &self.connectivity }
    fn from_vertices_and_connectivity(vertices: Vec<u64>, connectivity: Vec<Cell>) -> (r: Mesh) ensures r.v() == vertices@, r.c() == connectivity@
    { Mesh { vertices, connectivity } }
}
impl Permutation {
//@ fn src/mesh/reorder.rs impl Permutation :: apply_to_slice
//@ rename apply_to_cells
//@ subst <T: Clone> =>
//@ subst &[T] => &[Cell]
//@ subst Vec<T> => Vec<Cell>
//@ ret r
//@ closure 0 &usize ; c: Cell
    requires *a0 < slice@.len()
    ensures c == slice@[*a0 as int]
//@ spec
    requires self.valid(), slice@.len() == self@.len()
    ensures r@.len() == slice@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == slice@[self@[i] as int]
//@ done
}
pub open spec fn relabelled(new: Seq<usize>, old: Seq<usize>, inv: Seq<usize>) -> bool {
    new.len() == old.len() && forall|k: int| 0 <= k < new.len() ==> #[trigger] new[k] == inv[old[k] as int]
}
pub open spec fn same_cell(a: Mesh, new: Seq<usize>, b: Mesh, old: Seq<usize>) -> bool {
    new.len() == old.len() && forall|k: int| 0 <= k < new.len() ==> a.v()[#[trigger] new[k] as int] == b.v()[old[k] as int]
}
//@ struct src/mesh/reorder.rs MeshPermutation
impl MeshPermutation {
    pub closed spec fn vp(&self) -> Permutation { self.vertex_perm }
    pub closed spec fn cp(&self) -> Permutation { self.connectivity_perm }
//@ fn src/mesh/reorder.rs impl MeshPermutation :: vertex_permutation
//@ ret r
//@ spec
    ensures *r == self.vp()
//@ done
//@ fn src/mesh/reorder.rs impl MeshPermutation :: connectivity_permutation
//@ ret r
//@ spec
    ensures *r == self.cp()
//@ done
//@ fn src/mesh/reorder.rs impl MeshPermutation :: apply
//@ instantiate
//@ subst Mesh<T, D, C> => Mesh
//@ subst .apply_to_slice(mesh.connectivity()) => .apply_to_cells(mesh.connectivity())
//@ subst in &mut new_connectivity => in new_connectivity.iter_mut()
//@ subst in conn.vertex_indices_mut() => in conn.vertex_indices_mut().iter_mut()
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.vp().valid(), self.cp().valid(), mesh.valid(), self.vp()@.len() == mesh.v().len(), self.cp()@.len() == mesh.c().len()
    ensures
        r.valid(), r.v().len() == mesh.v().len(), r.c().len() == mesh.c().len(),
        forall|i: int| 0 <= i < r.v().len() ==> #[trigger] r.v()[i] == mesh.v()[self.vp()@[i] as int],
        // every cell is a cell of the original, with the same vertices in the same order
        forall|j: int| #![trigger r.c()[j]] 0 <= j < r.c().len() ==> same_cell(r, r.c()[j].nodes(), *mesh, mesh.c()[self.cp()@[j] as int].nodes()),
//@ before for conn
    let ghost cells = new_connectivity@;
    let ghost inv = inv_vertex_perm@;
//@ loop 0 it
    invariant
        it.seq().len() == cells.len(),
        forall|i: int| 0 <= i < cells.len() ==> *(#[trigger] it.seq()[i]) == cells[i],
        forall|i: int| 0 <= i < it.index() ==> relabelled(final(#[trigger] it.seq()[i]).nodes(), cells[i].nodes(), inv),
//@ before for vertex_idx
    let ghost nodes = conn.nodes();
//@ loop 1 jt
    invariant
        jt.seq().len() == nodes.len(),
        forall|i: int| 0 <= i < nodes.len() ==> *(#[trigger] jt.seq()[i]) == nodes[i],
        forall|i: int| 0 <= i < jt.index() ==> *final(#[trigger] jt.seq()[i]) == inv[nodes[i] as int],
//@ done
}
// The node graph of a mesh (C08): square, as large as the number of vertices
#[verifier::external_body]
pub fn node_graph(mesh: &Mesh) -> (r: SparsityPattern) ensures r.valid(), r.lanes().len() == mesh.v().len(), r.minor() == mesh.v().len() { unimplemented!() }
// `it.min()` (the value is not specified)
#[verifier::external_body]
pub fn min_of<I: Iterator<Item = usize>>(it: I) -> Option<usize> requires it.obeys_prophetic_iter_laws() { it.min() }
#[verifier::external_body]
pub fn sort_cells<F: Fn(&usize) -> Option<usize>>(s: &mut Vec<usize>, f: F)
    requires forall|k: int| 0 <= k < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[k],))
    ensures final(s)@.to_multiset() == old(s)@.to_multiset()
{ s.sort_by_key(|x| f(x)) }
// a rearrangement of 0, 1, .., n-1 is a permutation
pub proof fn lemma_rearranged_range(a: Seq<usize>, b: Seq<usize>)
    requires a.to_multiset() == b.to_multiset(), forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == k
    ensures is_permutation(a), a.len() == b.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(b.no_duplicates());
    b.lemma_multiset_has_no_duplicates();
    assert forall|x: usize| a.to_multiset().count(x) <= 1 by {
        if a.to_multiset().contains(x) { assert(b.to_multiset().count(x) == 1); }
    }
    a.lemma_multiset_has_no_duplicates_conv();
    lemma_rearranged(a, b, b.len());
}
//@ fn src/mesh/reorder.rs reorder_mesh_par
//@ instantiate
//@ subst Mesh<T, D, C> => Mesh
//@ subst CsrParAssembler::<i32>::default() => ()
//@ subst assembler.assemble_pattern( => node_graph(
//@ subst connectivity_perm.sort_by_key( => sort_cells(&mut connectivity_perm,
//@ subst vertices.iter().map( => min_of(vertices.iter().map(
//@ subst .min() => )
//@ subst Vec<_> => Vec<usize>
//@ ret r
//@ closures 2
//@ closure 0 &usize ; c: Option<usize>
    requires *a0 < mesh.c().len()
//@ closure 1 &usize ; c: usize
    requires *a0 < inv_vertex_perm@.len()
//@ before sort_cells
    let ghost all = connectivity_perm@;
//@ before let connectivity_perm = Permutation
    proof { lemma_rearranged_range(connectivity_perm@, all); }
//@ spec
    requires mesh.valid()
    ensures r.vp().valid(), r.cp().valid(), r.vp()@.len() == mesh.v().len(), r.cp()@.len() == mesh.c().len()
//@ done
fn main() {}
}
