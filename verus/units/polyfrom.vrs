use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include nested_vec_inc.vrs
//@ include nested_vec_append_inc.vrs
//@ include polymesh_inc.vrs
// A connectivity (`Connectivity` and `ConnectivityMut`): its nodes, how they are lent, and its faces. One opaque type stands
// for the type of the cells and for that of their faces.
#[verifier::external_body]
pub struct Cell { nodes: Vec<usize> }
impl Cell {
    pub uninterp spec fn nodes(&self) -> Seq<usize>;
    pub uninterp spec fn faces(&self) -> Seq<Cell>;
    #[verifier::external_body]
    pub fn vertex_indices(&self) -> (r: &[usize]) ensures r@ == self.nodes() { unimplemented!() }
    #[verifier::external_body]
    pub fn vertex_indices_mut(&mut self) -> (r: &mut [usize])
        ensures r@ == old(self).nodes(), final(self).nodes() == final(r)@, r@.len() == final(r)@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn num_faces(&self) -> (r: usize) ensures r == self.faces().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_face_connectivity(&self, index: usize) -> (r: Option<Cell>)
        ensures index < self.faces().len() ==> r == Some(self.faces()[index as int]), index >= self.faces().len() ==> r.is_none() { unimplemented!() }
}
impl Clone for Cell {
    #[verifier::external_body]
    fn clone(&self) -> (r: Cell) ensures r == *self { unimplemented!() }
}
pub struct Mesh { pub vertices: Vec<Point>, pub connectivity: Vec<Cell> }


impl Mesh {
    pub open spec fn v(&self) -> Seq<Point> { self.vertices@ }
    pub open spec fn c(&self) -> Seq<Cell> { self.connectivity@ }
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: vertices
//@ subst &[OPoint<T, D>] => &[Point]
//@ ret r
//@ spec
    ensures r@ == self.v()
//@ done
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: connectivity
//@ subst &[Connectivity] => &[Cell]
//@ ret r
//@ spec
    ensures r@ == self.c()
//@ done
}
#[verifier::external_body]
pub fn copied_points(s: &[Point]) -> (r: Vec<Point>) ensures r@ == s@ { s.to_vec() }
pub open spec fn face(m: Mesh, c: int, l: int) -> Seq<usize> { m.c()[c].faces()[l].nodes() }
pub open spec fn is_face(m: Mesh, c: int, l: int) -> bool { 0 <= c < m.c().len() && 0 <= l < m.c()[c].faces().len() }
pub open spec fn face_count(m: Mesh, c: int) -> int decreases c { if c <= 0 { 0 } else { face_count(m, c - 1) + m.c()[c - 1].faces().len() } }
pub proof fn lemma_face_count(m: Mesh, c: int, d: int)
    requires 0 <= c <= d <= m.c().len()
    ensures 0 <= face_count(m, c) <= face_count(m, d)
    decreases d
{ if c < d { lemma_face_count(m, c, d - 1); } else if c > 0 { lemma_face_count(m, c - 1, c - 1); } }
// face l of cell c is the polygon it is numbered as (up to the order of its nodes)
pub open spec fn names_face(m: Mesh, faces: Seq<Seq<usize>>, id: usize, c: int, l: int) -> bool { id < faces.len() && same_nodes(faces[id as int], face(m, c, l)) }
pub open spec fn cell_faces(m: Mesh, faces: Seq<Seq<usize>>, cell: Seq<usize>, c: int, n: int) -> bool {
    cell.len() == n && forall|l: int| 0 <= l < n ==> names_face(m, faces, #[trigger] cell[l], c, l)
}
// every polygon is, with its orientation, a face of a cell
pub open spec fn is_a_face(m: Mesh, p: Seq<usize>) -> bool { exists|c: int, l: int| is_face(m, c, l) && p == #[trigger] face(m, c, l) }
pub open spec fn all_faces(m: Mesh, faces: Seq<Seq<usize>>) -> bool { forall|j: int| 0 <= j < faces.len() ==> is_a_face(m, #[trigger] faces[j]) }
pub open spec fn distinct(faces: Seq<Seq<usize>>) -> bool { forall|i: int, j: int| 0 <= i < faces.len() && 0 <= j < faces.len() && same_nodes(#[trigger] faces[i], #[trigger] faces[j]) ==> i == j }
pub open spec fn keyed(map: Map<Seq<usize>, usize>, faces: Seq<Seq<usize>>, keys: Seq<Seq<usize>>) -> bool {
    &&& keys.len() == faces.len()
    &&& forall|j: int| #![trigger keys[j]] #![trigger faces[j]] 0 <= j < keys.len() ==> map.contains_key(keys[j]) && map[keys[j]] == j && sorted_copy(keys[j], faces[j])
    &&& forall|u: Seq<usize>| #[trigger] map.contains_key(u) ==> map[u] < faces.len() && keys[map[u] as int] == u
}
pub open spec fn sorted_faces(m: Mesh, keys: Seq<Seq<usize>>, c: int, n: int) -> bool {
    &&& keys.len() == face_count(m, c) + n
    &&& forall|d: int, l: int| #![trigger face(m, d, l)] is_face(m, d, l) && (d < c || (d == c && l < n)) ==> sorted_copy(keys[face_count(m, d) + l], face(m, d, l))
}
pub proof fn lemma_sorted_faces(m: Mesh, old: Seq<Seq<usize>>, new: Seq<Seq<usize>>, c: int, n: int)
    requires sorted_faces(m, old, c, n), is_face(m, c, n), new.len() == old.len() + 1, forall|i: int| 0 <= i < old.len() ==> #[trigger] new[i] == old[i], sorted_copy(new.last(), face(m, c, n))
    ensures sorted_faces(m, new, c, n + 1)
{
    assert forall|d: int, l: int| #![trigger face(m, d, l)] is_face(m, d, l) && (d < c || (d == c && l < n + 1)) implies sorted_copy(new[face_count(m, d) + l], face(m, d, l)) by {
        if d < c {
            lemma_face_count(m, d + 1, c); lemma_face_count(m, 0, d);
            assert(face_count(m, d + 1) == face_count(m, d) + m.c()[d].faces().len());
        }
        if d < c || l < n { lemma_face_count(m, 0, d); assert(new[face_count(m, d) + l] == old[face_count(m, d) + l]); }
    }
}
impl PolyMesh {
//@ fn src/mesh_convert.rs impl<'a, T, D, C> From<&'a Mesh<T, D, C>> for PolyMesh<T, D> :: from
//@ rename from_mesh<'a>
//@ subst &'a Mesh<T, D, C> => &'a Mesh
//@ subst mesh.vertices().to_vec() => copied_points(mesh.vertices())
//@ subst for c in mesh.connectivity() => for c in mesh.connectivity().iter()
//@ subst sorted_connectivities.last_mut().unwrap().sort_unstable() => sort_slice(sorted_connectivities.last_mut().unwrap())
//@ subst HashMap::new() => SliceMap::new()
//@ subst let mut global_cell_face_index = 0; => let mut global_cell_face_index: usize = 0;
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires face_count(*mesh, mesh.c().len() as int) <= usize::MAX,
        forall|c: int, l: int, k: int| #![trigger face(*mesh, c, l)[k]] is_face(*mesh, c, l) && 0 <= k < face(*mesh, c, l).len() ==> face(*mesh, c, l)[k] < mesh.v().len(),
    ensures r.wf(), r.vertices@ == mesh.v(), r.cells@.len() == mesh.c().len(),
        forall|c: int| 0 <= c < r.cells@.len() ==> cell_faces(*mesh, r.faces@, #[trigger] r.cells@[c], c, mesh.c()[c].faces().len() as int),
        all_faces(*mesh, r.faces@), distinct(r.faces@),
//@ start
    let ghost m = *mesh;
//@ loop 0 it
    invariant
        it.seq() == m.c().as_ref(), sorted_connectivities.wf(), sorted_faces(m, sorted_connectivities@, it.index(), 0),
//@ loop-start 0
    let ghost n = it.index();
    proof { assert(*c == m.c()[n]); assert(face_count(m, n + 1) == face_count(m, n) + m.c()[n].faces().len()); }
//@ loop 1 jt
    invariant
        sorted_connectivities.wf(), sorted_faces(m, sorted_connectivities@, n, jt.index()),
//@ loop-start 1
    let ghost l = jt.index();
    let ghost before = sorted_connectivities@;
    proof { assert(is_face(m, n, l)); }
//@ before sort_slice
    proof { assert(sorted_connectivities@.last() =~= face(m, n, l)); }
//@ loop-end 1
    proof { lemma_sorted_faces(m, before, sorted_connectivities@, n, l); }
//@ loop-end 0
    proof { 
        assert forall|d: int, l: int| #![trigger face(m, d, l)] is_face(m, d, l) && d < n + 1 implies sorted_copy(sorted_connectivities@[face_count(m, d) + l], face(m, d, l)) by {}
        assert(sorted_faces(m, sorted_connectivities@, n + 1, 0));
    }
//@ before let mut conn_map
    let ghost keys = sorted_connectivities@;
    let ghost mut known: Seq<Seq<usize>> = Seq::empty();
    proof { assert(sorted_faces(m, keys, m.c().len() as int, 0)); }
//@ loop 2 it
    invariant
        it.seq() == m.c().as_ref(), sorted_connectivities.wf(), sorted_connectivities@ == keys, global_cell_face_index == face_count(m, it.index()),
        faces.wf(), cells.wf(), cells@.len() == it.index(), keyed(conn_map.map(), faces@, known), all_faces(m, faces@),
        forall|d: int| 0 <= d < it.index() ==> cell_faces(m, faces@, #[trigger] cells@[d], d, m.c()[d].faces().len() as int),
//@ loop-start 2
    let ghost n = it.index();
    let ghost cells0 = cells@;
    let ghost faces0 = faces@;
    proof { assert(*c == m.c()[n]); assert(face_count(m, n + 1) == face_count(m, n) + m.c()[n].faces().len()); lemma_face_count(m, n + 1, m.c().len() as int); lemma_face_count(m, 0, n); }
//@ after let mut cell_array
    let ghost target = cell_array.target();
//@ loop 3 jt
    invariant
        sorted_connectivities.wf(), sorted_connectivities@ == keys, global_cell_face_index == face_count(m, n) + jt.index(),
        cell_array.wf(), cell_array.before() == cells0, cell_array.target() == target,
        faces.wf(), keyed(conn_map.map(), faces@, known), all_faces(m, faces@),
        faces0.len() <= faces@.len(), forall|j: int| 0 <= j < faces0.len() ==> #[trigger] faces@[j] == faces0[j],
        cell_faces(m, faces@, cell_array.added(), n, jt.index()),
//@ loop-start 3
    let ghost l = jt.index();
    let ghost faces1 = faces@; let ghost added = cell_array.added(); let ghost map0 = conn_map.map();
    proof { 
        assert(is_face(m, n, l));
        assert(sorted_copy(keys[face_count(m, n) + l], face(m, n, l)));
    }
//@ before cell_array.push_single
    proof {
        if !map0.contains_key(sorted_conn@) {
            known = known.push(sorted_conn@);
            assert(faces@.last() =~= face(m, n, l));
            assert forall|j: int| #![trigger known[j]] #![trigger faces@[j]] 0 <= j < known.len() implies conn_map.map().contains_key(known[j]) && conn_map.map()[known[j]] == j && sorted_copy(known[j], faces@[j]) by {
                if j < faces1.len() { assert(faces@[j] == faces1[j]); assert(map0.contains_key(known[j])); }
            }
            assert forall|j: int| 0 <= j < faces@.len() implies is_a_face(m, #[trigger] faces@[j]) by {
                if j < faces1.len() { assert(faces@[j] == faces1[j]); } else { assert(faces@[j] == face(m, n, l)); }
            }
            assert(faces@[face_idx as int] == face(m, n, l));
        } else {
            assert(sorted_copy(known[face_idx as int], faces@[face_idx as int]));
        }
        assert(names_face(m, faces@, face_idx, n, l));
    }
//@ loop-end 3
    proof {
        assert forall|k: int| 0 <= k < l + 1 implies names_face(m, faces@, #[trigger] cell_array.added()[k], n, k) by {
            if k < l { assert(cell_array.added()[k] == added[k]); assert(names_face(m, faces1, added[k], n, k)); assert(faces@[added[k] as int] == faces1[added[k] as int]); }
        }
    }
//@ loop-after 3
    let ghost added = cell_array.added();
    close(cell_array);
    proof { assert(cells@ == cells0.push(added)); }
//@ loop-end 2
    proof {
        assert forall|d: int| 0 <= d < n + 1 implies cell_faces(m, faces@, #[trigger] cells@[d], d, m.c()[d].faces().len() as int) by {
            if d < n { 
                assert(cells@[d] == cells0[d]); assert(cell_faces(m, faces0, cells0[d], d, m.c()[d].faces().len() as int));
                assert forall|k: int| 0 <= k < cells@[d].len() implies names_face(m, faces@, #[trigger] cells@[d][k], d, k) by { assert(names_face(m, faces0, cells0[d][k], d, k)); }
            }
        }
    }
//@ loop-after 2
    proof {
        assert forall|i: int, j: int| 0 <= i < faces@.len() && 0 <= j < faces@.len() && same_nodes(#[trigger] faces@[i], #[trigger] faces@[j]) implies i == j by {
            assert(sorted_copy(known[i], faces@[i]) && sorted_copy(known[j], faces@[j]));
            lemma_sorted_same(known[i], known[j]);
        }
        assert forall|i: int, k: int| #![trigger faces@[i][k]] 0 <= i < faces@.len() && 0 <= k < faces@[i].len() implies faces@[i][k] < m.v().len() by {
            assert(is_a_face(m, faces@[i]));
            let (c, l) = choose|c: int, l: int| is_face(m, c, l) && faces@[i] == #[trigger] face(m, c, l);
            assert(face(m, c, l)[k] < m.v().len());
        }
        assert forall|i: int, k: int| #![trigger cells@[i][k]] 0 <= i < cells@.len() && 0 <= k < cells@[i].len() implies cells@[i][k] < faces@.len() by {
            assert(cell_faces(m, faces@, cells@[i], i, m.c()[i].faces().len() as int));
            assert(names_face(m, faces@, cells@[i][k], i, k));
        }
    }
//@ done
}
fn main() {}
}
