use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include nested_vec_inc.vrs
//@ include nested_vec_append_inc.vrs
//@ include polymesh_inc.vrs

// `v.extend(s.iter().cloned())`
#[verifier::external_body]
pub fn extend_cloned(v: &mut Vec<Point>, s: &[Point]) ensures final(v)@ == old(v)@ + s@ { v.extend(s.iter().cloned()) }
pub open spec fn vertices_before(ms: Seq<PolyMesh>, n: int) -> int decreases n { if n <= 0 { 0 } else { vertices_before(ms, n - 1) + ms[n - 1].vertices@.len() } }
pub open spec fn faces_before(ms: Seq<PolyMesh>, n: int) -> int decreases n { if n <= 0 { 0 } else { faces_before(ms, n - 1) + ms[n - 1].faces@.len() } }
pub open spec fn cells_before(ms: Seq<PolyMesh>, n: int) -> int decreases n { if n <= 0 { 0 } else { cells_before(ms, n - 1) + ms[n - 1].cells@.len() } }
pub proof fn lemma_before(ms: Seq<PolyMesh>, m: int, n: int)
    requires 0 <= m <= n <= ms.len()
    ensures 0 <= vertices_before(ms, m) <= vertices_before(ms, n), 0 <= faces_before(ms, m) <= faces_before(ms, n), 0 <= cells_before(ms, m) <= cells_before(ms, n)
    decreases n
{ if m < n { lemma_before(ms, m, n - 1); } else if m > 0 { lemma_before(ms, m - 1, m - 1); } }
pub open spec fn shifted(new: Seq<usize>, old: Seq<usize>, by: int) -> bool { new.len() == old.len() && forall|k: int| 0 <= k < old.len() ==> #[trigger] new[k] == old[k] + by }
pub open spec fn is_concatenation(ms: Seq<PolyMesh>, n: int, v: Seq<Point>, f: Seq<Seq<usize>>, c: Seq<Seq<usize>>) -> bool {
    &&& v.len() == vertices_before(ms, n) && f.len() == faces_before(ms, n) && c.len() == cells_before(ms, n)
    &&& forall|m: int, i: int| 0 <= m < n && 0 <= i < ms[m].vertices@.len() ==> #[trigger] ms[m].vertices@[i] == v[vertices_before(ms, m) + i]
    &&& forall|m: int, i: int| 0 <= m < n && 0 <= i < ms[m].faces@.len() ==> shifted(f[faces_before(ms, m) + i], #[trigger] ms[m].faces@[i], vertices_before(ms, m))
    &&& forall|m: int, i: int| 0 <= m < n && 0 <= i < ms[m].cells@.len() ==> shifted(c[cells_before(ms, m) + i], #[trigger] ms[m].cells@[i], faces_before(ms, m))
}

impl PolyMesh {
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: concatenate
//@ subst impl IntoIterator<Item = &'a PolyMesh<T, D>> => &'a [PolyMesh]
//@ subst vertices.extend(mesh.vertices().iter().cloned()) => extend_cloned(&mut vertices, mesh.vertices())
//@ subst in mesh.face_connectivity_iter() => in collected(mesh.face_connectivity_iter())
//@ subst in mesh.cell_connectivity_iter() => in collected(mesh.cell_connectivity_iter())
//@ subst in face_vertices { => in face_vertices.iter() {
//@ subst in cell_faces { => in cell_faces.iter() {
//@ subst let mut vertices = Vec::new() => let mut vertices: Vec<Point> = Vec::new()
//@ subst let meshes = meshes.into_iter() => let meshes = meshes.iter()
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires forall|m: int| 0 <= m < meshes@.len() ==> (#[trigger] meshes@[m]).wf(),
        vertices_before(meshes@, meshes@.len() as int) <= usize::MAX, faces_before(meshes@, meshes@.len() as int) <= usize::MAX,
    ensures r.wf(), is_concatenation(meshes@, meshes@.len() as int, r.vertices@, r.faces@, r.cells@)
//@ start
    let ghost ms = meshes@;
//@ loop 0 it
    invariant
        it.seq() == ms.as_ref(), faces.wf(), cells.wf(),
        vertex_offset == vertices_before(ms, it.index()), face_offset == faces_before(ms, it.index()),
        is_concatenation(ms, it.index(), vertices@, faces@, cells@),
        below(faces@, vertices@.len() as int), below(cells@, faces@.len() as int),
//@ loop-start 0
    let ghost n = it.index();
    let ghost v0 = vertices@; let ghost f0 = faces@; let ghost c0 = cells@;
    proof { 
        assert(*mesh == ms[n]);
        assert(ms[n].wf());
        lemma_before(ms, n + 1, ms.len() as int);
        assert(vertices_before(ms, n + 1) == vertices_before(ms, n) + ms[n].vertices@.len());
        assert(faces_before(ms, n + 1) == faces_before(ms, n) + ms[n].faces@.len());
    }
//@ loop 1 ft
    invariant
        ft.seq().len() == mesh.faces@.len(), forall|i: int| 0 <= i < ft.seq().len() ==> (#[trigger] ft.seq()[i])@ == mesh.faces@[i],
        faces.wf(), faces@.len() == f0.len() + ft.index(),
        forall|i: int| 0 <= i < f0.len() ==> #[trigger] faces@[i] == f0[i],
        forall|i: int| #![trigger mesh.faces@[i]] 0 <= i < ft.index() ==> shifted(faces@[f0.len() + i], mesh.faces@[i], vertex_offset as int),
//@ loop-start 1
    let ghost l = ft.index();
    let ghost before = faces@;
    proof { assert(face_vertices@ == mesh.faces@[l]); }
//@ before for vertex_idx in
    let ghost target = new_face_vertices.target();
//@ loop 2 jt
    invariant
        jt.seq() == face_vertices@.as_ref(), new_face_vertices.wf(), new_face_vertices.before() == before, new_face_vertices.target() == target,
        new_face_vertices.added().len() == jt.index(),
        forall|k: int| 0 <= k < jt.index() ==> #[trigger] new_face_vertices.added()[k] == face_vertices@[k] + vertex_offset,
//@ loop-start 2
    proof { let k = jt.index(); assert(*vertex_idx == face_vertices@[k]); assert(mesh.faces@[l][k] < mesh.vertices@.len()); }
//@ loop-after 2
    let ghost added = new_face_vertices.added();
    close(new_face_vertices);
    proof { assert(faces@ == before.push(added)); }
//@ loop-end 1
    proof {
        assert forall|i: int| #![trigger mesh.faces@[i]] 0 <= i < l + 1 implies shifted(faces@[f0.len() + i], mesh.faces@[i], vertex_offset as int) by {
            if i < l { assert(faces@[f0.len() + i] == before[f0.len() + i]); } else { assert(faces@[f0.len() + i] == added); }
        }
    }
//@ loop-after 1
    let ghost f1 = faces@;
//@ loop 3 ct
    invariant
        ct.seq().len() == mesh.cells@.len(), forall|i: int| 0 <= i < ct.seq().len() ==> (#[trigger] ct.seq()[i])@ == mesh.cells@[i],
        cells.wf(), cells@.len() == c0.len() + ct.index(),
        forall|i: int| 0 <= i < c0.len() ==> #[trigger] cells@[i] == c0[i],
        forall|i: int| #![trigger mesh.cells@[i]] 0 <= i < ct.index() ==> shifted(cells@[c0.len() + i], mesh.cells@[i], face_offset as int),
//@ loop-start 3
    let ghost l = ct.index();
    let ghost before = cells@;
    proof { assert(cell_faces@ == mesh.cells@[l]); }
//@ before for face_idx in
    let ghost target = new_cell_faces.target();
//@ loop 4 jt
    invariant
        jt.seq() == cell_faces@.as_ref(), new_cell_faces.wf(), new_cell_faces.before() == before, new_cell_faces.target() == target,
        new_cell_faces.added().len() == jt.index(),
        forall|k: int| 0 <= k < jt.index() ==> #[trigger] new_cell_faces.added()[k] == cell_faces@[k] + face_offset,
//@ loop-start 4
    proof { let k = jt.index(); assert(*face_idx == cell_faces@[k]); assert(mesh.cells@[l][k] < mesh.faces@.len()); }
//@ loop-after 4
    let ghost added = new_cell_faces.added();
    close(new_cell_faces);
    proof { assert(cells@ == before.push(added)); }
//@ loop-end 3
    proof {
        assert forall|i: int| #![trigger mesh.cells@[i]] 0 <= i < l + 1 implies shifted(cells@[c0.len() + i], mesh.cells@[i], face_offset as int) by {
            if i < l { assert(cells@[c0.len() + i] == before[c0.len() + i]); } else { assert(cells@[c0.len() + i] == added); }
        }
    }
//@ loop-end 0
    proof { lemma_next(ms, n, v0, f0, c0, vertices@, faces@, cells@); }
//@ done
}
pub open spec fn extended(old: Seq<Seq<usize>>, new: Seq<Seq<usize>>, part: Seq<Seq<usize>>, by: int) -> bool {
    &&& new.len() == old.len() + part.len()
    &&& forall|i: int| 0 <= i < old.len() ==> #[trigger] new[i] == old[i]
    &&& forall|i: int| #![trigger part[i]] 0 <= i < part.len() ==> shifted(new[old.len() + i], part[i], by)
}
pub proof fn lemma_extended_below(old: Seq<Seq<usize>>, new: Seq<Seq<usize>>, part: Seq<Seq<usize>>, by: int, n: int)
    requires extended(old, new, part, by), below(old, by), below(part, n), n >= 0
    ensures below(new, by + n)
{
    assert forall|i: int, k: int| #![trigger new[i][k]] 0 <= i < new.len() && 0 <= k < new[i].len() implies new[i][k] < by + n by {
        if i < old.len() { assert(old[i][k] < by); } else { assert(shifted(new[old.len() + (i - old.len())], part[i - old.len()], by)); assert(part[i - old.len()][k] < n); }
    }
}
pub proof fn lemma_next(ms: Seq<PolyMesh>, n: int, v0: Seq<Point>, f0: Seq<Seq<usize>>, c0: Seq<Seq<usize>>, v1: Seq<Point>, f1: Seq<Seq<usize>>, c1: Seq<Seq<usize>>)
    requires 0 <= n < ms.len(), ms[n].wf(), is_concatenation(ms, n, v0, f0, c0), below(f0, v0.len() as int), below(c0, f0.len() as int),
        v1 == v0 + ms[n].vertices@, extended(f0, f1, ms[n].faces@, vertices_before(ms, n)), extended(c0, c1, ms[n].cells@, faces_before(ms, n)),
    ensures is_concatenation(ms, n + 1, v1, f1, c1), below(f1, v1.len() as int), below(c1, f1.len() as int),
{
    lemma_extended_below(f0, f1, ms[n].faces@, vertices_before(ms, n), ms[n].vertices@.len() as int);
    lemma_extended_below(c0, c1, ms[n].cells@, faces_before(ms, n), ms[n].faces@.len() as int);
    assert forall|m: int, i: int| 0 <= m < n + 1 && 0 <= i < ms[m].vertices@.len() implies #[trigger] ms[m].vertices@[i] == v1[vertices_before(ms, m) + i] by {
        if m < n { lemma_before(ms, m + 1, n); assert(vertices_before(ms, m + 1) == vertices_before(ms, m) + ms[m].vertices@.len()); lemma_before(ms, 0, m); }
    }
    assert forall|m: int, i: int| 0 <= m < n + 1 && 0 <= i < ms[m].faces@.len() implies shifted(f1[faces_before(ms, m) + i], #[trigger] ms[m].faces@[i], vertices_before(ms, m)) by {
        if m < n { lemma_before(ms, m + 1, n); assert(faces_before(ms, m + 1) == faces_before(ms, m) + ms[m].faces@.len()); lemma_before(ms, 0, m);
            assert(f1[faces_before(ms, m) + i] == f0[faces_before(ms, m) + i]); }
    }
    assert forall|m: int, i: int| 0 <= m < n + 1 && 0 <= i < ms[m].cells@.len() implies shifted(c1[cells_before(ms, m) + i], #[trigger] ms[m].cells@[i], faces_before(ms, m)) by {
        if m < n { lemma_before(ms, m + 1, n); assert(cells_before(ms, m + 1) == cells_before(ms, m) + ms[m].cells@.len()); lemma_before(ms, 0, m);
            assert(c1[cells_before(ms, m) + i] == c0[cells_before(ms, m) + i]); }
    }
}
fn main() {}
}
