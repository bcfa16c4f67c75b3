use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@ include std_inc.vrs
// A vertex (`OPoint<T, D>`), a cell of the mesh, an intermediate connectivity, a cell of the refined mesh and a vertex
// label: opaque, related by the contract of the trait RefineConnectivity only
#[verifier::external_body]
pub struct Point { x: u64 }
impl Clone for Point {
    #[verifier::external_body]
    fn clone(&self) -> (r: Point) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Cell { x: u64 }
#[verifier::external_body]
pub struct Part { x: u64 }
#[verifier::external_body]
pub struct NewCell { x: u64 }
#[verifier::external_body]
#[derive(Debug)]
pub struct InvalidVertexCount { x: u64 }
#[verifier::external_body]
pub struct Label { x: u64 }
impl Clone for Label {
    #[verifier::external_body]
    fn clone(&self) -> (r: Label) ensures r == *self { unimplemented!() }
}
impl Label {
    // the vertex a label stands for (VertexRepresentation)
    pub uninterp spec fn vertex(&self, all: Seq<Point>) -> Point;
    #[verifier::external_body]
    pub fn construct_vertex(&self, all: &[Point]) -> (r: Point) ensures r == self.vertex(all@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Refinement { x: u64 }
impl Refinement {
    pub uninterp spec fn parts(&self, c: Cell) -> Seq<Part>;
    pub uninterp spec fn labels(&self, p: Part) -> Seq<Label>;
    pub uninterp spec fn cell(&self, p: Part, nodes: Seq<usize>) -> NewCell;
    #[verifier::external_body]
    pub fn populate_refined_connectivity(&self, c: &Cell, out: &mut Vec<Part>) ensures final(out)@ == old(out)@ + self.parts(*c) { unimplemented!() }
    #[verifier::external_body]
    pub fn populate_vertex_labels(&self, p: &Part, out: &mut Vec<Label>) ensures final(out)@ == old(out)@ + self.labels(*p) { unimplemented!() }
    #[verifier::external_body]
    pub fn construct_output_connectivity(&self, p: &Part, nodes: &[usize]) -> (r: Result<NewCell, InvalidVertexCount>)
        ensures nodes@.len() == self.labels(*p).len() ==> r == Ok::<NewCell, InvalidVertexCount>(self.cell(*p, nodes@)) { unimplemented!() }
}
pub struct Mesh<C> { pub vertices: Vec<Point>, pub connectivity: Vec<C> }
impl<C> Mesh<C> {
    pub open spec fn v(&self) -> Seq<Point> { self.vertices@ }
    pub open spec fn c(&self) -> Seq<C> { self.connectivity@ }
    pub fn vertices(&self) -> (r: &[Point]) ensures r@ == self.v() { &self.vertices }
    pub fn connectivity(&self) -> (r: &[C]) ensures r@ == self.c() { &self.connectivity }
    pub fn from_vertices_and_connectivity(vertices: Vec<Point>, connectivity: Vec<C>) -> (r: Mesh<C>) ensures r.v() == vertices@, r.c() == connectivity@ { Mesh { vertices, connectivity } }
}
// a hash map from labels to indices
#[verifier::external_body]
pub struct LabelMap { x: u64 }
impl LabelMap {
    pub uninterp spec fn map(&self) -> Map<Label, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: LabelMap) ensures r.map() == Map::<Label, usize>::empty() { unimplemented!() }
    // `.entry(label).or_insert_with(|| { let idx = next; next += 1; idx })`: the index of a known label, the next one for a new label
    #[verifier::external_body]
    pub fn index_or_next(&mut self, label: Label, next: &mut usize) -> (r: &usize)
        requires *old(next) < usize::MAX
        ensures
            old(self).map().contains_key(label) ==> *r == old(self).map()[label] && final(self).map() == old(self).map() && *final(next) == *old(next),
            !old(self).map().contains_key(label) ==> *r == *old(next) && final(self).map() == old(self).map().insert(label, *old(next)) && *final(next) == *old(next) + 1,
    { unimplemented!() }
    // `into_iter()`: every key once, with its value
    #[verifier::external_body]
    pub fn into_entries(self) -> (r: Vec<(Label, usize)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.map().contains_key((#[trigger] r@[i]).0) && self.map()[r@[i].0] == r@[i].1,
            forall|l: Label| #[trigger] self.map().contains_key(l) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == l,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn default_points(n: usize) -> (r: Vec<Point>) ensures r@.len() == n { unimplemented!() }

// all parts of the first n cells, in order
pub open spec fn parts_of(s: Refinement, cells: Seq<Cell>, n: int) -> Seq<Part> decreases n { if n <= 0 { Seq::empty() } else { parts_of(s, cells, n - 1) + s.parts(cells[n - 1]) } }
// the nodes are those of the labels
pub open spec fn labelled(labels: Seq<Label>, nodes: Seq<usize>, list: Seq<Label>) -> bool {
    nodes.len() == labels.len() && forall|t: int| #![trigger nodes[t]] #![trigger labels[t]] 0 <= t < nodes.len() ==> nodes[t] < list.len() && list[nodes[t] as int] == labels[t]
}
pub open spec fn used(s: Refinement, parts: Seq<Part>, upto: int, l: Label) -> bool { exists|k: int| 0 <= k < upto && s.labels(#[trigger] parts[k]).contains(l) }
// the new cells so far: one for each part, naming for each label of the part the one vertex with that label
pub open spec fn cells_ok(s: Refinement, parts: Seq<Part>, new: Seq<NewCell>, nodes: Seq<Seq<usize>>, list: Seq<Label>) -> bool {
    &&& parts.len() == new.len() && nodes.len() == new.len() && list.no_duplicates()
    &&& forall|k: int| #![trigger new[k]] #![trigger nodes[k]] 0 <= k < new.len() ==> new[k] == s.cell(parts[k], nodes[k]) && labelled(s.labels(parts[k]), nodes[k], list)
}
pub open spec fn refined(s: Refinement, m: Mesh<Cell>, r: Mesh<NewCell>, nodes: Seq<Seq<usize>>, list: Seq<Label>) -> bool {
    let parts = parts_of(s, m.c(), m.c().len() as int);
    &&& cells_ok(s, parts, r.c(), nodes, list)
    &&& forall|i: int| 0 <= i < list.len() ==> used(s, parts, parts.len() as int, #[trigger] list[i])
    &&& r.v().len() == list.len() && forall|i: int| 0 <= i < list.len() ==> r.v()[i] == (#[trigger] list[i]).vertex(m.v())
}
pub open spec fn maps(map: Map<Label, usize>, list: Seq<Label>) -> bool {
    &&& list.no_duplicates()
    &&& forall|l: Label| #[trigger] map.contains_key(l) ==> map[l] < list.len() && list[map[l] as int] == l
    &&& forall|i: int| 0 <= i < list.len() ==> map.contains_key(#[trigger] list[i]) && map[list[i]] == i
}
pub proof fn lemma_grow(labels: Seq<Label>, nodes: Seq<usize>, list: Seq<Label>, l: Label)
    requires labelled(labels, nodes, list)
    ensures labelled(labels, nodes, list.push(l))
{}
pub proof fn lemma_cells_grow(s: Refinement, parts: Seq<Part>, new: Seq<NewCell>, nodes: Seq<Seq<usize>>, list: Seq<Label>, l: Label)
    requires cells_ok(s, parts, new, nodes, list), !list.contains(l)
    ensures cells_ok(s, parts, new, nodes, list.push(l))
{
    assert forall|k: int| #![trigger new[k]] #![trigger nodes[k]] 0 <= k < new.len() implies new[k] == s.cell(parts[k], nodes[k]) && labelled(s.labels(parts[k]), nodes[k], list.push(l)) by {
        lemma_grow(s.labels(parts[k]), nodes[k], list, l);
    }
}
pub proof fn lemma_used(s: Refinement, parts: Seq<Part>, p: Part, upto: int, l: Label)
    requires used(s, parts, upto, l), upto <= parts.len()
    ensures used(s, parts.push(p), upto, l), used(s, parts.push(p), upto + 1, l)
{
    let k = choose|k: int| 0 <= k < upto && s.labels(#[trigger] parts[k]).contains(l);
    assert(parts.push(p)[k] == parts[k]);
}
//@ fn src/mesh/refinement.rs refine_mesh
//@ instantiate
//@ subst &Mesh<T, D, C> => &Mesh<Cell>
//@ subst -> Mesh<T, D, Refinement::OutputConnectivity> => -> Mesh<NewCell>
//@ subst HashMap::new() => LabelMap::new()
//@ subst in mesh.connectivity() => in mesh.connectivity().iter()
//@ subst in &intermediates => in intermediates.iter()
//@ subst in &vertex_labels => in vertex_labels.iter()
//@ subst label_to_idx_map.entry(label.clone()).or_insert_with(|| { let idx = next_vertex_idx; next_vertex_idx += 1; idx }) => label_to_idx_map.index_or_next(label.clone(), &mut next_vertex_idx)
//@ subst vec![Default::default(); next_vertex_idx] => default_points(next_vertex_idx)
//@ subst in label_to_idx_map => in label_to_idx_map.into_entries()
//@ subst (&connectivity, => (connectivity,
//@ subst (&intermediate, => (intermediate,
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures exists|nodes: Seq<Seq<usize>>, list: Seq<Label>| #[trigger] refined(refinement_scheme, *mesh, r, nodes, list)
//@ before for connectivity
    let ghost s = refinement_scheme;
    let ghost mut list: Seq<Label> = Seq::empty();
    let ghost mut nodes: Seq<Seq<usize>> = Seq::empty();
    let ghost mut parts: Seq<Part> = Seq::empty();
//@ loop 0 it
    invariant
        it.seq() == mesh.c().as_ref(), parts == parts_of(s, mesh.c(), it.index()), maps(label_to_idx_map.map(), list), next_vertex_idx == list.len(),
        cells_ok(s, parts, new_connectivity@, nodes, list), forall|i: int| 0 <= i < list.len() ==> used(s, parts, parts.len() as int, #[trigger] list[i]),
//@ before for intermediate
    let ghost parts0 = parts;
    let ghost n = it.index();
    proof { assert(*connectivity == mesh.c()[n]); assert(intermediates@ =~= s.parts(mesh.c()[n])); }
//@ loop 1 jt
    invariant
        jt.seq() == s.parts(mesh.c()[n]).as_ref(), parts == parts0 + s.parts(mesh.c()[n]).take(jt.index()), maps(label_to_idx_map.map(), list), next_vertex_idx == list.len(),
        cells_ok(s, parts, new_connectivity@, nodes, list), forall|i: int| 0 <= i < list.len() ==> used(s, parts, parts.len() as int, #[trigger] list[i]),
//@ before for label
    let ghost p = *intermediate;
    let ghost j = jt.index();
    let ghost labels = s.labels(p);
    let ghost next = parts.push(p);
    let ghost count = parts.len() as int;
    proof {
        assert(vertex_labels@ =~= labels);
        assert(p == s.parts(mesh.c()[n])[j]);
        assert forall|i: int| 0 <= i < list.len() implies used(s, next, count + 1, #[trigger] list[i]) by { lemma_used(s, parts, p, count, list[i]); }
    }
//@ loop 2 kt
    invariant
        kt.seq() == labels.as_ref(), maps(label_to_idx_map.map(), list), next_vertex_idx == list.len(),
        cells_ok(s, parts, new_connectivity@, nodes, list), labelled(labels.take(kt.index()), new_vertex_indices@, list),
        forall|i: int| 0 <= i < list.len() ==> used(s, next, count + 1, #[trigger] list[i]),
//@ loop-start 2
    let ghost k = kt.index();
    let ghost l = labels[k];
    let ghost list0 = list;
    let ghost indices0 = new_vertex_indices@;
    let ghost map0 = label_to_idx_map.map();
    proof { assert(*label == l); assume(next_vertex_idx < usize::MAX); }
//@ loop-end 2
    proof {
        if !map0.contains_key(l) {
            assert(!list.contains(l)) by { if list.contains(l) { let i = choose|i: int| 0 <= i < list.len() && list[i] == l; assert(map0.contains_key(list[i])); } }
            list = list.push(l);
            lemma_cells_grow(s, parts, new_connectivity@, nodes, list0, l);
            lemma_grow(labels.take(k), indices0, list0, l);
            assert(used(s, next, count + 1, l)) by { assert(next[count] == p); assert(labels.contains(l)); }
            assert forall|u: Label| #[trigger] label_to_idx_map.map().contains_key(u) implies label_to_idx_map.map()[u] < list.len() && list[label_to_idx_map.map()[u] as int] == u by {
                if u != l { assert(map0.contains_key(u)); assert(list0[map0[u] as int] == u); }
            }
            assert forall|i: int| 0 <= i < list.len() implies label_to_idx_map.map().contains_key(#[trigger] list[i]) && label_to_idx_map.map()[list[i]] == i by {
                if i < list0.len() { assert(map0.contains_key(list0[i])); }
            }
        }
        let now = labels.take(k + 1);
        assert(now =~= labels.take(k).push(l));
        assert forall|t: int| #![trigger new_vertex_indices@[t]] #![trigger now[t]] 0 <= t < new_vertex_indices@.len() implies new_vertex_indices@[t] < list.len() && list[new_vertex_indices@[t] as int] == now[t] by {
            if t < k { assert(indices0[t] == new_vertex_indices@[t]); assert(labels.take(k)[t] == now[t]); }
        }
    }
//@ loop-end 1
    proof {
        assert(labels.take(labels.len() as int) =~= labels);
        parts = next;
        nodes = nodes.push(new_vertex_indices@);
        assert(s.parts(mesh.c()[n]).take(j + 1) =~= s.parts(mesh.c()[n]).take(j).push(p));
        assert(parts =~= parts0 + s.parts(mesh.c()[n]).take(j + 1));
    }
//@ loop-end 0
    proof { assert(s.parts(mesh.c()[n]).take(s.parts(mesh.c()[n]).len() as int) =~= s.parts(mesh.c()[n])); }
//@ before for .label, index.
    let ghost map = label_to_idx_map.map();
    proof { assert(parts == parts_of(s, mesh.c(), mesh.c().len() as int)); }
//@ loop 3 et
    invariant
        new_vertices@.len() == list.len(),
        forall|i: int| 0 <= i < et.seq().len() ==> map.contains_key((#[trigger] et.seq()[i]).0) && map[et.seq()[i].0] == et.seq()[i].1,
        forall|l: Label| #[trigger] map.contains_key(l) ==> exists|i: int| 0 <= i < et.seq().len() && (#[trigger] et.seq()[i]).0 == l,
        forall|i: int| 0 <= i < et.index() ==> new_vertices@[(#[trigger] et.seq()[i]).1 as int] == et.seq()[i].0.vertex(mesh.v()),
//@ loop-start 3
    let ghost e = et.index();
    proof { assert(label == et.seq()[e].0 && index == et.seq()[e].1); }
//@ loop-after 3
    proof {
        assert forall|i: int| 0 <= i < list.len() implies new_vertices@[i] == (#[trigger] list[i]).vertex(mesh.v()) by { assert(map.contains_key(list[i])); }
    }
//@ tail res: Mesh<NewCell>
    proof { assert(refined(s, *mesh, res, nodes, list)); }
//@ done
fn main() {}
}
