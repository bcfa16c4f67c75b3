use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include nested_vec_inc.vrs
//@ include nested_vec_append_inc.vrs
// A vertex (`OPoint<T, D>`): nothing is assumed of it, only that a clone is the same value
#[verifier::external_body]
pub struct Point { x: u64 }
impl Clone for Point {
    #[verifier::external_body]
    fn clone(&self) -> (r: Point) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn sort_slice(v: &mut [usize])
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(), sorted(final(v)@)
{ v.sort_unstable() }
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]) <= (#[trigger] s[j]) }
// sorted lists are equal exactly if they are rearrangements of each other
pub proof fn lemma_sorted_same(a: Seq<usize>, b: Seq<usize>)
    requires sorted(a), sorted(b), a.to_multiset() == b.to_multiset()
    ensures a == b
    decreases a.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(a.len() == b.len());
    if a.len() == 0 { assert(a =~= b); } else {
        let x = a.last(); let y = b.last();
        assert(a.contains(y)) by { assert(b.contains(y)); assert(b.to_multiset().count(y) > 0); }
        assert(b.contains(x)) by { assert(a.contains(x)); assert(a.to_multiset().count(x) > 0); }
        let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        assert(a[i] <= a[a.len() - 1]);
        assert(b[j] <= b[b.len() - 1]);
        assert(x == y);
        assert(a =~= a.drop_last().push(x));
        assert(b =~= b.drop_last().push(y));
        a.drop_last().to_multiset_ensures();
        b.drop_last().to_multiset_ensures();
        assert(a.drop_last().to_multiset() =~= a.to_multiset().remove(x));
        assert(b.drop_last().to_multiset() =~= b.to_multiset().remove(x));
        lemma_sorted_same(a.drop_last(), b.drop_last());
    }
}
// an iterator over arrays, run to its end
#[verifier::external_body]
pub fn collected<'a, I: Iterator<Item = &'a [usize]>>(it: I) -> (r: Vec<&'a [usize]>)
    requires it.obeys_prophetic_iter_laws()
    ensures it.will_return_none(), r@ == it.remaining()
{ it.collect() }

pub open spec fn same_nodes(a: Seq<usize>, b: Seq<usize>) -> bool { a.to_multiset() == b.to_multiset() }
pub open spec fn sorted_copy(s: Seq<usize>, of: Seq<usize>) -> bool { sorted(s) && same_nodes(s, of) }
// What one cell is refined into (the contract of `RefineFrom`): the vertices, each with an index and the nodes it depends on,
// and the nodes of the new cell among them.
pub struct Child { pub index: usize, pub parents: Seq<usize>, pub vertex: Point }
#[verifier::external_body]
pub struct Cell { nodes: Vec<usize> }
impl Cell {
    pub uninterp spec fn children(&self, v: Seq<Point>) -> Seq<Child>;
    pub uninterp spec fn refined(&self, v: Seq<Point>) -> Seq<usize>;
}
#[verifier::external_body]
pub struct NewCell { nodes: Vec<usize> }
impl NewCell {
    pub uninterp spec fn nodes(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn vertex_indices_mut(&mut self) -> (r: &mut [usize])
        ensures r@ == old(self).nodes(), final(self).nodes() == final(r)@, r@.len() == final(r)@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn refine(cell: &Cell, v: &[Point], vertices: &mut Vec<Point>, child_indices: &mut Vec<usize>, parents: &mut NestedVec<usize>) -> (r: NewCell)
        requires old(vertices)@.len() == 0, old(child_indices)@.len() == 0, old(parents).wf(), old(parents)@.len() == 0
        ensures final(parents).wf(), r.nodes() == cell.refined(v@),
            refines(cell.children(v@), final(vertices)@, final(child_indices)@, final(parents)@),
            forall|k: int| 0 <= k < r.nodes().len() ==> (#[trigger] r.nodes()[k]) < cell.children(v@).len(),
    { unimplemented!() }
}
pub open spec fn refines(ch: Seq<Child>, v: Seq<Point>, i: Seq<usize>, p: Seq<Seq<usize>>) -> bool {
    &&& v.len() == ch.len() && i.len() == ch.len() && p.len() == ch.len()
    &&& forall|k: int| #![trigger ch[k]] #![trigger p[k]] 0 <= k < ch.len() ==> v[k] == ch[k].vertex && i[k] == ch[k].index && p[k] == ch[k].parents
}
pub struct Mesh { pub vertices: Vec<Point>, pub connectivity: Vec<Cell> }
pub struct NewMesh { pub vertices: Vec<Point>, pub connectivity: Vec<NewCell> }
impl Mesh {
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: vertices
//@ subst &[OPoint<T, D>] => &[Point]
//@ ret r
//@ spec
    ensures r@ == self.vertices@
//@ done
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: connectivity
//@ subst &[Connectivity] => &[Cell]
//@ ret r
//@ spec
    ensures r@ == self.connectivity@
//@ done
    pub open spec fn child(&self, c: int) -> Seq<Child> { self.connectivity@[c].children(self.vertices@) }
    pub open spec fn local(&self, c: int) -> Seq<usize> { self.connectivity@[c].refined(self.vertices@) }
    // node k of the new cell c
    pub open spec fn node(&self, c: int, k: int) -> Child { self.child(c)[self.local(c)[k] as int] }
    pub open spec fn is_node(&self, c: int, k: int) -> bool { 0 <= c < self.connectivity@.len() && 0 <= k < self.local(c).len() }
    pub open spec fn wf(&self) -> bool { forall|c: int, k: int| #![trigger self.local(c)[k]] self.is_node(c, k) ==> self.local(c)[k] < self.child(c).len() }
}
// how many vertices the cells before c have been refined into
pub open spec fn off(m: Mesh, c: int) -> int decreases c { if c <= 0 { 0 } else { off(m, c - 1) + m.child(c - 1).len() } }
pub proof fn lemma_off(m: Mesh, c: int, d: int)
    requires 0 <= c <= d
    ensures 0 <= off(m, c) <= off(m, d)
    decreases d
{ if c < d { lemma_off(m, c, d - 1); } else if c > 0 { lemma_off(m, c - 1, c - 1); } }
// the same vertex: the same index and the same parents, in any order
pub open spec fn same_child(a: Child, b: Child) -> bool { a.index == b.index && same_nodes(a.parents, b.parents) }
// the same vertex is at the same place, whichever cell it comes from
pub open spec fn consistent(m: Mesh) -> bool {
    forall|c: int, k: int, d: int, l: int| #![trigger m.node(c, k), m.node(d, l)] m.is_node(c, k) && m.is_node(d, l) && same_child(m.node(c, k), m.node(d, l)) ==> m.node(c, k).vertex == m.node(d, l).vertex
}
pub open spec fn used(m: Mesh, r: NewMesh, i: int) -> bool { exists|c: int, k: int| m.is_node(c, k) && (#[trigger] r.connectivity@[c].nodes()[k]) == i }
pub open spec fn converts(m: Mesh, r: NewMesh) -> bool {
    &&& r.connectivity@.len() == m.connectivity@.len()
    &&& forall|c: int| 0 <= c < r.connectivity@.len() ==> (#[trigger] r.connectivity@[c]).nodes().len() == m.local(c).len()
    // every cell is where its refinement is
    &&& forall|c: int, k: int| m.is_node(c, k) ==> (#[trigger] r.connectivity@[c].nodes()[k]) < r.vertices@.len() && r.vertices@[r.connectivity@[c].nodes()[k] as int] == m.node(c, k).vertex
    // cells share the vertices that are the same, and only those
    &&& forall|c: int, k: int, d: int, l: int| #![trigger r.connectivity@[c].nodes()[k], r.connectivity@[d].nodes()[l]] m.is_node(c, k) && m.is_node(d, l) ==>
            (r.connectivity@[c].nodes()[k] == r.connectivity@[d].nodes()[l] <==> same_child(m.node(c, k), m.node(d, l)))
    // there are no other vertices
    &&& forall|i: int| 0 <= i < r.vertices@.len() ==> #[trigger] used(m, r, i)
}
impl NewMesh {
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: from_vertices_and_connectivity
//@ subst Vec<OPoint<T, D>> => Vec<Point>
//@ subst Vec<Connectivity> => Vec<NewCell>
//@ ret r
//@ spec
    ensures r.vertices@ == vertices@, r.connectivity@ == connectivity@
//@ done
}
#[verifier::external_body]
pub fn extend_points(v: &mut Vec<Point>, s: &[Point]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
#[verifier::external_body]
pub fn extend_indices(v: &mut Vec<usize>, s: &[usize]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
// a hash map from an index and a list of indices to indices
#[verifier::external_body]
pub struct KeyMap<'a> { x: Vec<&'a [usize]> }
impl<'a> KeyMap<'a> {
    pub uninterp spec fn map(&self) -> Map<(usize, Seq<usize>), usize>;
    #[verifier::external_body]
    pub fn default() -> (r: KeyMap<'a>) ensures r.map() == Map::<(usize, Seq<usize>), usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &(usize, &[usize])) -> (r: bool) ensures r == self.map().contains_key((k.0, k.1@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (usize, &'a [usize]), v: usize) ensures final(self).map() == old(self).map().insert((k.0, k.1@), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &(usize, &[usize])) -> (r: Option<&usize>)
        ensures r.is_some() == self.map().contains_key((k.0, k.1@)), r matches Some(v) ==> *v == self.map()[(k.0, k.1@)] { unimplemented!() }
}
// the refinements of the first cells, one after the other
pub open spec fn laid_out(m: Mesh, n: int, v: Seq<Point>, i: Seq<usize>, p: Seq<Seq<usize>>) -> bool {
    &&& v.len() == off(m, n) && i.len() == off(m, n) && p.len() == off(m, n)
    &&& forall|d: int, j: int| #![trigger m.child(d)[j]] 0 <= d < n && 0 <= j < m.child(d).len() ==>
            v[off(m, d) + j] == m.child(d)[j].vertex && i[off(m, d) + j] == m.child(d)[j].index && sorted_copy(p[off(m, d) + j], m.child(d)[j].parents)
}
pub proof fn lemma_laid_out(m: Mesh, n: int, v: Seq<Point>, i: Seq<usize>, p: Seq<Seq<usize>>, wv: Seq<Point>, wi: Seq<usize>, wp: Seq<Seq<usize>>, p1: Seq<Seq<usize>>)
    requires laid_out(m, n, v, i, p), 0 <= n < m.connectivity@.len(), refines(m.child(n), wv, wi, wp), p1.len() == p.len() + wp.len(),
        forall|k: int| 0 <= k < p.len() ==> #[trigger] p1[k] == p[k],
        forall|k: int| #![trigger wp[k]] 0 <= k < wp.len() ==> sorted_copy(p1[p.len() + k], wp[k]),
    ensures laid_out(m, n + 1, v + wv, i + wi, p1)
{
    assert(off(m, n + 1) == off(m, n) + m.child(n).len());
    lemma_off(m, 0, n);
    assert forall|d: int, j: int| #![trigger m.child(d)[j]] 0 <= d < n + 1 && 0 <= j < m.child(d).len() implies
            (v + wv)[off(m, d) + j] == m.child(d)[j].vertex && (i + wi)[off(m, d) + j] == m.child(d)[j].index && sorted_copy(p1[off(m, d) + j], m.child(d)[j].parents) by {
        lemma_off(m, 0, d);
        if d < n { lemma_off(m, d + 1, n); assert(off(m, d + 1) == off(m, d) + m.child(d).len()); assert(p1[off(m, d) + j] == p[off(m, d) + j]); }
        else { assert(sorted_copy(p1[p.len() + j], wp[j])); assert(wp[j] == m.child(n)[j].parents); }
    }
}
// the place of node k of cell c among the vertices laid out
pub open spec fn place(m: Mesh, c: int, k: int) -> int { off(m, c) + m.local(c)[k] }
pub open spec fn key_at(i: Seq<usize>, p: Seq<Seq<usize>>, g: int) -> (usize, Seq<usize>) { (i[g], p[g]) }
// node k of cell c comes before node l of cell d
pub open spec fn earlier(c: int, k: int, d: int, l: int) -> bool { c < d || (c == d && k < l) }
// labels: vertex j has been taken from place first[j]
pub open spec fn labels(map: Map<(usize, Seq<usize>), usize>, i: Seq<usize>, p: Seq<Seq<usize>>, v: Seq<Point>, fv: Seq<Point>, first: Seq<int>) -> bool {
    &&& first.len() == fv.len()
    &&& forall|j: int| #![trigger first[j]] #![trigger fv[j]] 0 <= j < fv.len() ==> 0 <= first[j] < v.len() && fv[j] == v[first[j]] && map.contains_key(key_at(i, p, first[j])) && map[key_at(i, p, first[j])] == j
    &&& forall|u: (usize, Seq<usize>)| #[trigger] map.contains_key(u) ==> map[u] < fv.len() && key_at(i, p, first[map[u] as int]) == u
}
pub open spec fn from_node(m: Mesh, g: int, d: int, l: int) -> bool { exists|c: int, k: int| m.is_node(c, k) && earlier(c, k, d, l) && g == #[trigger] place(m, c, k) }
pub open spec fn all_from_nodes(m: Mesh, first: Seq<int>, d: int, l: int) -> bool { forall|j: int| 0 <= j < first.len() ==> from_node(m, #[trigger] first[j], d, l) }
pub open spec fn labelled(m: Mesh, c: int, nodes: Seq<usize>, n: int, map: Map<(usize, Seq<usize>), usize>, i: Seq<usize>, p: Seq<Seq<usize>>) -> bool {
    &&& nodes.len() == m.local(c).len()
    &&& forall|k: int| #![trigger nodes[k]] #![trigger place(m, c, k)] 0 <= k < n ==> map.contains_key(key_at(i, p, place(m, c, k))) && nodes[k] == map[key_at(i, p, place(m, c, k))]

}
pub proof fn lemma_place(m: Mesh, c: int, k: int)
    requires m.wf(), m.is_node(c, k)
    ensures 0 <= off(m, c) <= place(m, c, k) < off(m, c + 1) <= off(m, m.connectivity@.len() as int)
{
    lemma_off(m, 0, c); lemma_off(m, c + 1, m.connectivity@.len() as int);
    assert(m.local(c)[k] < m.child(c).len());
    assert(off(m, c + 1) == off(m, c) + m.child(c).len());
}
pub proof fn lemma_converted(m: Mesh, r: NewMesh, v: Seq<Point>, i: Seq<usize>, p: Seq<Seq<usize>>, map: Map<(usize, Seq<usize>), usize>, first: Seq<int>)
    requires m.wf(), consistent(m), laid_out(m, m.connectivity@.len() as int, v, i, p), labels(map, i, p, v, r.vertices@, first),
        r.connectivity@.len() == m.connectivity@.len(), all_from_nodes(m, first, m.connectivity@.len() as int, 0),
        forall|c: int| 0 <= c < r.connectivity@.len() ==> labelled(m, c, (#[trigger] r.connectivity@[c]).nodes(), m.local(c).len() as int, map, i, p),
    ensures converts(m, r)
{
    let n = m.connectivity@.len() as int;
    assert forall|c: int, k: int| m.is_node(c, k) implies #[trigger] place(m, c, k) < v.len() && 0 <= place(m, c, k)
            && i[place(m, c, k)] == m.node(c, k).index && sorted_copy(p[place(m, c, k)], m.node(c, k).parents) && v[place(m, c, k)] == m.node(c, k).vertex by {
        lemma_place(m, c, k);
        assert(m.child(c)[m.local(c)[k] as int] == m.node(c, k));
    }
    assert forall|c: int, k: int, d: int, l: int| #![trigger place(m, c, k), place(m, d, l)] m.is_node(c, k) && m.is_node(d, l) implies
            (key_at(i, p, place(m, c, k)) == key_at(i, p, place(m, d, l)) <==> same_child(m.node(c, k), m.node(d, l))) by {
        if same_child(m.node(c, k), m.node(d, l)) { lemma_sorted_same(p[place(m, c, k)], p[place(m, d, l)]); }
    }
    assert forall|c: int, k: int| m.is_node(c, k) implies (#[trigger] r.connectivity@[c].nodes()[k]) < r.vertices@.len() && r.vertices@[r.connectivity@[c].nodes()[k] as int] == m.node(c, k).vertex by {
        assert(labelled(m, c, r.connectivity@[c].nodes(), m.local(c).len() as int, map, i, p));
        let id = r.connectivity@[c].nodes()[k];
        assert(map.contains_key(key_at(i, p, place(m, c, k))));
        let g = first[id as int];
        assert(from_node(m, g, n, 0));
        let (d, l) = choose|d: int, l: int| m.is_node(d, l) && earlier(d, l, n, 0) && g == #[trigger] place(m, d, l);
        assert(key_at(i, p, place(m, c, k)) == key_at(i, p, place(m, d, l)));
    }
    assert forall|c: int, k: int, d: int, l: int| #![trigger r.connectivity@[c].nodes()[k], r.connectivity@[d].nodes()[l]] m.is_node(c, k) && m.is_node(d, l) implies
            (r.connectivity@[c].nodes()[k] == r.connectivity@[d].nodes()[l] <==> same_child(m.node(c, k), m.node(d, l))) by {
        assert(labelled(m, c, r.connectivity@[c].nodes(), m.local(c).len() as int, map, i, p));
        assert(labelled(m, d, r.connectivity@[d].nodes(), m.local(d).len() as int, map, i, p));
        assert(r.connectivity@[c].nodes()[k] == map[key_at(i, p, place(m, c, k))]);
        assert(r.connectivity@[d].nodes()[l] == map[key_at(i, p, place(m, d, l))]);
        assert(map.contains_key(key_at(i, p, place(m, c, k))));
        assert(map.contains_key(key_at(i, p, place(m, d, l))));
    }
    assert forall|j: int| 0 <= j < r.vertices@.len() implies #[trigger] used(m, r, j) by {
        assert(from_node(m, first[j], n, 0));
        let (c, k) = choose|c: int, k: int| m.is_node(c, k) && earlier(c, k, n, 0) && first[j] == #[trigger] place(m, c, k);
        assert(labelled(m, c, r.connectivity@[c].nodes(), m.local(c).len() as int, map, i, p));
        assert(r.connectivity@[c].nodes()[k] == j);
    }
}

//@ fn src/mesh_convert.rs impl<'a, T, D, C, CNew> FromTemp<&'a Mesh<T, D, C>> for Mesh<T, D, CNew> :: from
//@ rename convert<'a>
//@ subst &'a Mesh<T, D, C> => &'a Mesh
//@ subst -> Self => -> NewMesh
//@ subst CNew::refine( => NewCell::refine(
//@ subst let mut child_indices_workspace = Vec::new() => let mut child_indices_workspace: Vec<usize> = Vec::new()
//@ subst let mut parents_workspace = NestedVec::new() => let mut parents_workspace: NestedVec<usize> = NestedVec::new()
//@ subst let mut vertices_workspace = Vec::new() => let mut vertices_workspace: Vec<Point> = Vec::new()
//@ subst let mut child_indices = Vec::new() => let mut child_indices: Vec<usize> = Vec::new()
//@ subst let mut intermediate_vertices = Vec::new() => let mut intermediate_vertices: Vec<Point> = Vec::new()
//@ subst let mut new_connectivity = Vec::new() => let mut new_connectivity: Vec<NewCell> = Vec::new()
//@ subst let mut final_vertices = Vec::new() => let mut final_vertices: Vec<Point> = Vec::new()
//@ subst let mut next_available_vertex_index = 0 => let mut next_available_vertex_index: usize = 0
//@ subst for conn in mesh.connectivity() => for conn in mesh.connectivity().iter()
//@ subst intermediate_vertices.extend_from_slice( => extend_points(&mut intermediate_vertices, 
//@ subst child_indices.extend_from_slice( => extend_indices(&mut child_indices, 
//@ subst in parents_workspace.iter() => in collected(parents_workspace.iter())
//@ subst parents.last_mut().unwrap().sort_unstable() => sort_slice(parents.last_mut().unwrap())
//@ subst in new_conn.vertex_indices_mut() => in new_conn.vertex_indices_mut().iter_mut()
//@ subst in &mut new_connectivity => in new_connectivity.iter_mut()
//@ subst in conn.vertex_indices_mut() => in conn.vertex_indices_mut().iter_mut()
//@ subst FxHashMap::default() => KeyMap::default()
//@ subst Mesh::from_vertices_and_connectivity( => NewMesh::from_vertices_and_connectivity(
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires mesh.wf(), consistent(*mesh), off(*mesh, mesh.connectivity@.len() as int) <= usize::MAX
    ensures converts(*mesh, r)
//@ start
    let ghost m = *mesh;
//@ loop 0 it
    invariant
        it.seq() == m.connectivity@.as_ref(), parents.wf(), parents_workspace.wf(),
        laid_out(m, it.index(), intermediate_vertices@, child_indices@, parents@),
        new_connectivity@.len() == it.index(),
        forall|c: int| 0 <= c < it.index() ==> (#[trigger] new_connectivity@[c]).nodes().len() == m.local(c).len(),
        forall|c: int, k: int| 0 <= c < it.index() && 0 <= k < m.local(c).len() ==> #[trigger] new_connectivity@[c].nodes()[k] == place(m, c, k),
//@ loop-start 0
    let ghost n = it.index();
    let ghost v0 = intermediate_vertices@; let ghost i0 = child_indices@; let ghost p0 = parents@; let ghost cells0 = new_connectivity@;
    proof { 
        assert(*conn == m.connectivity@[n]); 
        assert(off(m, n + 1) == off(m, n) + m.child(n).len());
        lemma_off(m, n + 1, m.connectivity@.len() as int);
        lemma_off(m, 0, n);
    }
//@ before for parent_group in
    let ghost wp = parents_workspace@;
//@ loop 1 jt
    invariant
        jt.seq().len() == wp.len(), forall|k: int| 0 <= k < wp.len() ==> (#[trigger] jt.seq()[k])@ == wp[k],
        parents.wf(), parents@.len() == p0.len() + jt.index(),
        forall|k: int| 0 <= k < p0.len() ==> #[trigger] parents@[k] == p0[k],
        forall|k: int| #![trigger wp[k]] 0 <= k < jt.index() ==> sorted_copy(parents@[p0.len() + k], wp[k]),
//@ loop-start 1
    let ghost j = jt.index();
    let ghost before = parents@;
//@ before sort_slice
    proof { assert(parents@.last() =~= wp[j]); }
//@ loop-end 1
    proof {
        assert forall|k: int| #![trigger wp[k]] 0 <= k < j + 1 implies sorted_copy(parents@[p0.len() + k], wp[k]) by {
            if k < j { assert(parents@[p0.len() + k] == before[p0.len() + k]); }
        }
    }
//@ loop-after 1
    proof { lemma_laid_out(m, n, v0, i0, p0, vertices_workspace@, child_indices_workspace@, wp, parents@); }
    let ghost nodes = new_conn.nodes();
//@ loop 2 jt
    invariant
        jt.seq().len() == nodes.len(),
        forall|i: int| 0 <= i < nodes.len() ==> *(#[trigger] jt.seq()[i]) == nodes[i],
        forall|i: int| 0 <= i < jt.index() ==> *final(#[trigger] jt.seq()[i]) == nodes[i] + off(m, n),
//@ loop-start 2
    proof { let k = jt.index(); assert(*jt.seq()[k] == nodes[k]); assert(nodes[k] < m.child(n).len()); }
//@ loop-end 0
    proof {
        assert forall|c: int, k: int| 0 <= c < n + 1 && 0 <= k < m.local(c).len() implies #[trigger] new_connectivity@[c].nodes()[k] == place(m, c, k) by {
            if c < n { assert(new_connectivity@[c] == cells0[c]); }
        }
    }
//@ before let mut vertex_label_map
    let ghost v = intermediate_vertices@; let ghost i = child_indices@; let ghost p = parents@; let ghost cells = new_connectivity@;
    let ghost mut first: Seq<int> = Seq::empty();
    let ghost total = m.connectivity@.len() as int;
    proof { assert(laid_out(m, total, v, i, p)); }
//@ loop 3 it
    invariant
        it.seq().len() == cells.len(), cells.len() == total, intermediate_vertices@ == v, child_indices@ == i, parents@ == p, parents.wf(),
        forall|c: int| 0 <= c < cells.len() ==> *(#[trigger] it.seq()[c]) == cells[c],
        next_available_vertex_index == final_vertices@.len(),
        labels(vertex_label_map.map(), i, p, v, final_vertices@, first), all_from_nodes(m, first, it.index(), 0),
        forall|c: int| 0 <= c < it.index() ==> labelled(m, c, (*final(#[trigger] it.seq()[c])).nodes(), m.local(c).len() as int, vertex_label_map.map(), i, p),
//@ loop-start 3
    let ghost n = it.index();
    let ghost nodes = conn.nodes();
    let ghost map1 = vertex_label_map.map();
    proof { assert(*it.seq()[n] == cells[n]); assert(nodes == cells[n].nodes()); }
//@ loop 4 jt
    invariant
        jt.seq().len() == nodes.len(), intermediate_vertices@ == v, child_indices@ == i, parents@ == p, parents.wf(),
        forall|k: int| 0 <= k < nodes.len() ==> *(#[trigger] jt.seq()[k]) == nodes[k],
        next_available_vertex_index == final_vertices@.len(), 
        labels(vertex_label_map.map(), i, p, v, final_vertices@, first), all_from_nodes(m, first, n, jt.index()),
        forall|u: (usize, Seq<usize>)| #[trigger] map1.contains_key(u) ==> vertex_label_map.map().contains_key(u) && vertex_label_map.map()[u] == map1[u],
        forall|k: int| 0 <= k < jt.index() ==> vertex_label_map.map().contains_key(key_at(i, p, #[trigger] place(m, n, k))),
        forall|k: int| 0 <= k < jt.index() ==> *final(#[trigger] jt.seq()[k]) == vertex_label_map.map()[key_at(i, p, place(m, n, k))],
//@ loop-start 4
    let ghost k = jt.index();
    let ghost map0 = vertex_label_map.map(); let ghost fv0 = final_vertices@; let ghost first0 = first;
    let ghost g = place(m, n, k);
    proof {
        assert(*jt.seq()[k] == nodes[k]);
        assert(m.is_node(n, k));
        assert(cells[n].nodes()[k] == place(m, n, k));
        lemma_place(m, n, k);
        lemma_few(i, p, v, map0, fv0, first, g);
    }
//@ before \*vertex_index = final_vertex_index
    proof {
        assert(key_at(i, p, g) == (vertex_child_index, vertex_parents@));
        if !map0.contains_key(key_at(i, p, g)) {
            first = first.push(g);
            assert(place(m, n, k) == g);
            assert forall|j: int| #![trigger first[j]] #![trigger final_vertices@[j]] 0 <= j < final_vertices@.len() implies 0 <= first[j] < v.len() && final_vertices@[j] == v[first[j]]
                && vertex_label_map.map().contains_key(key_at(i, p, first[j])) && vertex_label_map.map()[key_at(i, p, first[j])] == j by {
                if j < fv0.len() { assert(first[j] == first0[j] && final_vertices@[j] == fv0[j]); }
            }
            assert forall|u: (usize, Seq<usize>)| #[trigger] vertex_label_map.map().contains_key(u) implies vertex_label_map.map()[u] < final_vertices@.len() && key_at(i, p, first[vertex_label_map.map()[u] as int]) == u by {
                if u != key_at(i, p, g) { assert(map0.contains_key(u)); assert(first[map0[u] as int] == first0[map0[u] as int]); }
            }
        }
        assert forall|j: int| 0 <= j < first.len() implies from_node(m, #[trigger] first[j], n, k + 1) by {
            if j < first0.len() {
                assert(first[j] == first0[j]);
                assert(from_node(m, first0[j], n, k));
                let (c, q) = choose|c: int, q: int| m.is_node(c, q) && earlier(c, q, n, k) && first0[j] == #[trigger] place(m, c, q);
                assert(m.is_node(c, q) && earlier(c, q, n, k + 1) && first[j] == place(m, c, q));
            } else { assert(m.is_node(n, k) && earlier(n, k, n, k + 1) && first[j] == place(m, n, k)); }
        }
        assert forall|q: int| 0 <= q < k implies #[trigger] vertex_label_map.map().contains_key(key_at(i, p, place(m, n, q))) && vertex_label_map.map()[key_at(i, p, place(m, n, q))] == map0[key_at(i, p, place(m, n, q))] by {
            assert(*jt.seq()[q] == nodes[q]);
            assert(map0.contains_key(key_at(i, p, place(m, n, q))));
        }
    }
//@ loop-end 3
    proof {
        assert(conn.nodes().len() == nodes.len());
        assert forall|q: int| #![trigger conn.nodes()[q]] 0 <= q < m.local(n).len() implies conn.nodes()[q] == vertex_label_map.map()[key_at(i, p, place(m, n, q))] by {}
        assert forall|q: int| #![trigger conn.nodes()[q]] #![trigger place(m, n, q)] 0 <= q < m.local(n).len() implies vertex_label_map.map().contains_key(key_at(i, p, place(m, n, q))) && conn.nodes()[q] == vertex_label_map.map()[key_at(i, p, place(m, n, q))] by {}
        assert(labelled(m, n, conn.nodes(), m.local(n).len() as int, vertex_label_map.map(), i, p));
        assert(*final(it.seq()[n]) == *conn);
        assert forall|j: int| 0 <= j < first.len() implies from_node(m, #[trigger] first[j], n + 1, 0) by {
            assert(from_node(m, first[j], n, nodes.len() as int));
            let (c, q) = choose|c: int, q: int| m.is_node(c, q) && earlier(c, q, n, nodes.len() as int) && first[j] == #[trigger] place(m, c, q);
            assert(m.is_node(c, q) && earlier(c, q, n + 1, 0) && first[j] == place(m, c, q));
        }
        assert forall|c: int| 0 <= c < n implies labelled(m, c, (*final(#[trigger] it.seq()[c])).nodes(), m.local(c).len() as int, vertex_label_map.map(), i, p) by {
            assert(labelled(m, c, (*final(it.seq()[c])).nodes(), m.local(c).len() as int, map1, i, p));
            lemma_keep(m, c, (*final(it.seq()[c])).nodes(), map1, vertex_label_map.map(), i, p);
        }
        assert(labelled(m, n, (*final(it.seq()[n])).nodes(), m.local(n).len() as int, vertex_label_map.map(), i, p));
    }
//@ tail res
    proof { lemma_converted(m, res, v, i, p, vertex_label_map.map(), first); }
//@ done
// distinct vertices come from distinct places, so they are no more than these
pub proof fn lemma_few(i: Seq<usize>, p: Seq<Seq<usize>>, v: Seq<Point>, map: Map<(usize, Seq<usize>), usize>, fv: Seq<Point>, first: Seq<int>, g: int)
    requires labels(map, i, p, v, fv, first), 0 <= g < v.len()
    ensures fv.len() <= v.len(), !map.contains_key(key_at(i, p, g)) ==> fv.len() < v.len()
{
    lemma_distinct(i, p, v, map, fv, first);
    if !map.contains_key(key_at(i, p, g)) {
        let more = first.push(g);
        assert forall|a: int, b: int| 0 <= a < more.len() && 0 <= b < more.len() && a != b implies more[a] != more[b] by {
            if a < first.len() { assert(more[a] == first[a]); assert(map.contains_key(key_at(i, p, first[a]))); }
            if b < first.len() { assert(more[b] == first[b]); assert(map.contains_key(key_at(i, p, first[b]))); }
        }
        assert forall|a: int| 0 <= a < more.len() implies 0 <= #[trigger] more[a] < v.len() by { if a < first.len() { assert(more[a] == first[a]); assert(0 <= first[a] < v.len()); } }
        lemma_range(more, v.len() as int);
    } else {
        assert forall|a: int| 0 <= a < first.len() implies 0 <= #[trigger] first[a] < v.len() by {}
        lemma_range(first, v.len() as int);
    }
}
pub proof fn lemma_distinct(i: Seq<usize>, p: Seq<Seq<usize>>, v: Seq<Point>, map: Map<(usize, Seq<usize>), usize>, fv: Seq<Point>, first: Seq<int>)
    requires labels(map, i, p, v, fv, first)
    ensures first.no_duplicates()
{
    assert forall|a: int, b: int| 0 <= a < first.len() && 0 <= b < first.len() && a != b implies first[a] != first[b] by {
        assert(map[key_at(i, p, first[a])] == a && map[key_at(i, p, first[b])] == b);
    }
}
pub proof fn lemma_range(s: Seq<int>, n: int)
    requires s.no_duplicates(), forall|a: int| 0 <= a < s.len() ==> 0 <= #[trigger] s[a] < n, n >= 0
    ensures s.len() <= n
{
    s.unique_seq_to_set();
    let all = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert forall|x: int| s.to_set().contains(x) implies all.contains(x) by { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(0 <= s[j] < n); }
    vstd::set_lib::lemma_len_subset(s.to_set(), all);
}
pub proof fn lemma_keep(m: Mesh, c: int, nodes: Seq<usize>, map1: Map<(usize, Seq<usize>), usize>, map: Map<(usize, Seq<usize>), usize>, i: Seq<usize>, p: Seq<Seq<usize>>)
    requires labelled(m, c, nodes, m.local(c).len() as int, map1, i, p),
        forall|u: (usize, Seq<usize>)| #[trigger] map1.contains_key(u) ==> map.contains_key(u) && map[u] == map1[u],
    ensures labelled(m, c, nodes, m.local(c).len() as int, map, i, p)
{
    assert forall|q: int| #![trigger nodes[q]] 0 <= q < m.local(c).len() implies map.contains_key(key_at(i, p, place(m, c, q))) && nodes[q] == map[key_at(i, p, place(m, c, q))] by {
        assert(nodes[q] == map1[key_at(i, p, place(m, c, q))]);
        assert(map1.contains_key(key_at(i, p, place(m, c, q))));
    }
}
fn main() {}
}
