use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include nested_vec_inc.vrs
//@ include nested_vec_append_inc.vrs
//@ include polymesh_inc.vrs
impl PolyMesh {
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: compute_face_cell_connectivity
//@ subst self.cell_connectivity_iter().enumerate() => enumerated_arrays(self.cell_connectivity_iter())
//@ subst for face_idx in cell => for face_idx in cell.iter()
//@ subst vec![Vec::new(); => vec![Vec::<usize>::new();
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf()
    ensures r.wf(), r@.len() == self.faces@.len(),
        // every face is listed with the cells it belongs to
        forall|f: int, c: int| #![trigger occurs(r@[f], c)] 0 <= f < r@.len() ==> (occurs(r@[f], c) <==> 0 <= c < self.cells@.len() && occurs(self.cells@[c], f)),
        forall|f: int| 0 <= f < r@.len() ==> #[trigger] r@[f] == cells_of(self.cells@, f, self.cells@.len() as int),
//@ loop 0 it
    invariant
        it.seq().len() == self.cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && it.seq()[i].1@ == self.cells@[i],
        connectivity@.len() == self.faces@.len(),
        forall|f: int| 0 <= f < connectivity@.len() ==> (#[trigger] connectivity@[f])@ == cells_of(self.cells@, f, it.index()),
//@ loop-start 0
    let ghost n = it.index();
    let ghost before = connectivity@;
    proof { assert(cell@ == self.cells@[n] && cell_idx == n); }
//@ loop 1 jt
    invariant
        jt.seq() == cell@.as_ref(), connectivity@.len() == self.faces@.len(),
        forall|f: int| 0 <= f < connectivity@.len() ==> (#[trigger] connectivity@[f])@ == before[f]@ + entries(cell@, f, n, jt.index()),
//@ loop-start 1
    let ghost inner = connectivity@;
    let ghost k = jt.index();
    proof { assert(*jt.seq()[k] == cell@[k]); assert(self.cells@[n][k] < self.faces@.len()); }
//@ loop-end 1
    proof {
        assert forall|f: int| 0 <= f < connectivity@.len() implies (#[trigger] connectivity@[f])@ == before[f]@ + entries(cell@, f, n, k + 1) by {
            assert(inner[f]@ == before[f]@ + entries(cell@, f, n, k));
            assert(connectivity@[f]@ =~= before[f]@ + entries(cell@, f, n, k + 1));
        }
    }
//@ before let mut compact
    let ghost table = connectivity@;
    proof { assert(table.len() == self.faces@.len()); }
//@ loop 2 ft
    invariant
        ft.seq() == table, compact.wf(), compact@.len() == ft.index(),
        forall|f: int| 0 <= f < ft.index() ==> #[trigger] compact@[f] == table[f]@,
//@ loop-start 2
    let ghost at = ft.index();
    let ghost old_compact = compact@;
//@ loop-end 2
    proof {
        assert(compact@.last() =~= face_cell_conn@);
        assert forall|f: int| 0 <= f < at + 1 implies #[trigger] compact@[f] == table[f]@ by { if f < at { assert(compact@[f] == old_compact[f]); } }
    }
//@ tail res
    proof {
        self.cells.lemma_len();
        assert forall|f: int| 0 <= f < res@.len() implies #[trigger] res@[f] == cells_of(self.cells@, f, self.cells@.len() as int) by {}
        assert forall|f: int, c: int| #![trigger occurs(res@[f], c)] 0 <= f < res@.len() implies (occurs(res@[f], c) <==> 0 <= c < self.cells@.len() && occurs(self.cells@[c], f)) by {
            lemma_cells_of(self.cells@, f, self.cells@.len() as int);
            assert(res@[f] == cells_of(self.cells@, f, self.cells@.len() as int));
        }
    }
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: find_boundary_faces
//@ subst for face in cell_faces => for face in cell_faces.iter()
//@ subst vec![0; => vec![0i32;
//@ subst in self.cell_connectivity_iter() => in collected(self.cell_connectivity_iter())
//@ subst face_occurences .into_iter() .enumerate() .filter_map( => filter_mapped(numbered(face_occurences), 
//@ subst ) .collect() => )
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ closures 1
//@ closure 0 (usize, i32) ; o: Option<usize>
    ensures o == (if a0.1 <= 1 { Some(a0.0) } else { None::<usize> })
//@ spec
    requires self.wf(), forall|f: int| 0 <= f < self.faces@.len() ==> (#[trigger] cells_of(self.cells@, f, self.cells@.len() as int)).len() <= i32::MAX
    // in increasing order, exactly the faces that occur at most once in the cells
    ensures increasing(r@),
        forall|f: int| #![trigger occurs(r@, f)] occurs(r@, f) <==> 0 <= f < self.faces@.len() && cells_of(self.cells@, f, self.cells@.len() as int).len() <= 1,
//@ loop 0 it
    invariant
        it.seq().len() == self.cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == self.cells@[i],
        face_occurences@.len() == self.faces@.len(),
        forall|f: int| 0 <= f < face_occurences@.len() ==> #[trigger] face_occurences@[f] == cells_of(self.cells@, f, it.index()).len(),
//@ loop-start 0
    let ghost n = it.index();
    let ghost before = face_occurences@;
    proof { assert(cell_faces@ == self.cells@[n]); }
//@ loop 1 jt
    invariant
        jt.seq() == cell_faces@.as_ref(), face_occurences@.len() == self.faces@.len(),
        forall|f: int| 0 <= f < face_occurences@.len() ==> #[trigger] face_occurences@[f] == before[f] + entries(cell_faces@, f, n, jt.index()).len(),
//@ loop-start 1
    let ghost inner = face_occurences@;
    let ghost k = jt.index();
    proof { 
        assert(*jt.seq()[k] == cell_faces@[k]); assert(self.cells@[n][k] < self.faces@.len());
        let f = cell_faces@[k] as int;
        lemma_entries_grow(cell_faces@, f, n, k + 1, cell_faces@.len() as int);
        lemma_cells_of_grow(self.cells@, f, n + 1, self.cells@.len() as int);
        assert(cells_of(self.cells@, f, n + 1) == cells_of(self.cells@, f, n) + entries(cell_faces@, f, n, cell_faces@.len() as int));
        assert(cells_of(self.cells@, f, self.cells@.len() as int).len() <= i32::MAX);
    }
//@ loop-after 0
    let ghost counts = face_occurences@;
//@ tail res: Vec<usize>
    proof {
        assert(exists|pos: Seq<usize>| #[trigger] increasing(pos) && pos.len() == res@.len()
            && (forall|k: int| #![trigger pos[k]] 0 <= k < pos.len() ==> pos[k] < counts.len() && res@[k] == pos[k] && counts[pos[k] as int] <= 1)
            && (forall|i: int| 0 <= i < counts.len() ==> (#[trigger] occurs(pos, i) || counts[i] > 1)));
        let pos = choose|pos: Seq<usize>| #[trigger] increasing(pos) && pos.len() == res@.len()
            && (forall|k: int| #![trigger pos[k]] 0 <= k < pos.len() ==> pos[k] < counts.len() && res@[k] == pos[k] && counts[pos[k] as int] <= 1)
            && (forall|i: int| 0 <= i < counts.len() ==> (#[trigger] occurs(pos, i) || counts[i] > 1));
        assert(res@ =~= pos);
    }
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: dedup_faces
//@ subst HashMap::new() => SliceMap::new()
//@ subst in self.face_connectivity_iter() => in collected(self.face_connectivity_iter())
//@ subst sorted_face_connectivity.last_mut().unwrap().sort_unstable() => sort_slice(sorted_face_connectivity.last_mut().unwrap())
//@ subst for face_idx in cell => for face_idx in cell.iter_mut()
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), exists|first: Seq<int>, label: Seq<usize>| #[trigger] deduplicates(*old(self), *final(self), first, label)
//@ start
    let ghost start = *self;
    proof { assert(start.wf()); }
//@ loop 0 it
    invariant
        it.seq().len() == self.faces@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == self.faces@[i],
        sorted_face_connectivity.wf(), sorted_face_connectivity@.len() == it.index(),
        forall|i: int| 0 <= i < it.index() ==> sorted_copy(#[trigger] sorted_face_connectivity@[i], self.faces@[i]),
//@ loop-start 0
    let ghost n = it.index();
    let ghost before = sorted_face_connectivity@;
//@ before sort_slice
    proof { assert(sorted_face_connectivity@.last() =~= face@); }
//@ loop-end 0
    proof {
        assert forall|i: int| 0 <= i < n + 1 implies sorted_copy(#[trigger] sorted_face_connectivity@[i], self.faces@[i]) by {
            if i < n { assert(sorted_face_connectivity@[i] == before[i]); }
        }
    }
//@ before let mut new_faces
    let ghost keys = sorted_face_connectivity@;
    let ghost mut first: Seq<int> = Seq::empty();
//@ loop 1 it
    invariant
        *self == start, new_faces.wf(), face_relabel@.len() == it.index(), keys == sorted_face_connectivity@,
        sorted_face_connectivity.wf(), keys.len() == start.faces@.len(),
        forall|i: int| 0 <= i < keys.len() ==> sorted_copy(#[trigger] keys[i], start.faces@[i]),
        first.len() == new_faces@.len(),
        forall|j: int| #![trigger new_faces@[j]] #![trigger first[j]] 0 <= j < first.len() ==> 0 <= first[j] < face_relabel@.len() && new_faces@[j] == start.faces@[first[j]] && face_relabel@[first[j]] == j,
        forall|f: int| 0 <= f < face_relabel@.len() ==> #[trigger] connectivity_map.map().contains_key(keys[f]) && connectivity_map.map()[keys[f]] == face_relabel@[f],
        forall|u: Seq<usize>| #[trigger] connectivity_map.map().contains_key(u) ==> connectivity_map.map()[u] < new_faces@.len() && keys[first[connectivity_map.map()[u] as int]] == u,
//@ loop-start 1
    let ghost n = it.index();
    let ghost faces0 = new_faces@; let ghost map0 = connectivity_map.map(); let ghost label0 = face_relabel@;
//@ loop-end 1
    proof {
        assert forall|f: int| 0 <= f < face_relabel@.len() implies #[trigger] connectivity_map.map().contains_key(keys[f]) && connectivity_map.map()[keys[f]] == face_relabel@[f] by {
            if f < n { assert(map0.contains_key(keys[f])); assert(face_relabel@[f] == label0[f]); }
        }
        if !map0.contains_key(keys[n]) {
            first = first.push(n);
            assert(new_faces@.last() =~= start.faces@[n]);
            assert forall|j: int| #![trigger new_faces@[j]] #![trigger first[j]] 0 <= j < first.len() implies 0 <= first[j] < face_relabel@.len() && new_faces@[j] == start.faces@[first[j]] && face_relabel@[first[j]] == j by {
                if j < faces0.len() { assert(new_faces@[j] == faces0[j]); }
            }
        }
    }
//@ before self.faces = new_faces
    let ghost label = face_relabel@;
    proof {
        assert forall|f: int| #![trigger label[f]] 0 <= f < label.len() implies label[f] < new_faces@.len() && same_nodes(start.faces@[f], new_faces@[label[f] as int]) by {
            assert(connectivity_map.map().contains_key(keys[f]));
            assert(sorted_copy(keys[first[label[f] as int]], start.faces@[first[label[f] as int]]));
            assert(sorted_copy(keys[f], start.faces@[f]));
        }
        assert forall|f: int, g: int| #![trigger label[f], label[g]] 0 <= f < label.len() && 0 <= g < label.len() && same_nodes(start.faces@[f], start.faces@[g]) implies label[f] == label[g] by {
            assert(sorted_copy(keys[f], start.faces@[f]));
            assert(sorted_copy(keys[g], start.faces@[g]));
            lemma_sorted_same(keys[f], keys[g]);
            assert(connectivity_map.map().contains_key(keys[f]));
            assert(connectivity_map.map().contains_key(keys[g]));
        }
        assert(deduplicated(start.faces@, new_faces@, first, label));
        assert(below(new_faces@, start.vertices@.len() as int)) by {
            assert forall|i: int, k: int| #![trigger new_faces@[i][k]] 0 <= i < new_faces@.len() && 0 <= k < new_faces@[i].len() implies new_faces@[i][k] < start.vertices@.len() by {
                assert(new_faces@[i] == start.faces@[first[i]]);
                assert(start.faces@[first[i]][k] < start.vertices@.len());
            }
        }
    }
    let ghost faces1 = new_faces@;
//@ loop 2 it
    invariant
        it.seq().len() == start.cells@.len(), self.vertices == start.vertices, self.faces.wf(), self.faces@ == faces1, self.cells.wf(), self.cells@.len() == start.cells@.len(),
        face_relabel@ == label,
        forall|c: int| 0 <= c < it.index() ==> relabelled(start.cells@[c], #[trigger] self.cells@[c], label),
        forall|c: int| it.index() <= c < self.cells@.len() ==> #[trigger] self.cells@[c] == start.cells@[c],
//@ loop-start 2
    let ghost n = it.index();
    let ghost cells0 = self.cells@;
//@ before for face_idx in
    let ghost nodes = cell@;
    proof { assert(nodes == start.cells@[n]); }
//@ loop 3 jt
    invariant
        jt.seq().len() == nodes.len(),
        forall|i: int| 0 <= i < nodes.len() ==> *(#[trigger] jt.seq()[i]) == nodes[i],
        forall|i: int| 0 <= i < jt.index() ==> *final(#[trigger] jt.seq()[i]) == label[nodes[i] as int],
//@ loop-start 3
    proof { let k = jt.index(); assert(*jt.seq()[k] == nodes[k]); assert(start.cells@[n][k] < start.faces@.len()); }
//@ loop-end 2
    proof {
        assert(relabelled(start.cells@[n], self.cells@[n], label));
        assert forall|c: int| 0 <= c < n + 1 implies relabelled(start.cells@[c], #[trigger] self.cells@[c], label) by { if c < n { assert(self.cells@[c] == cells0[c]); } }
    }
//@ loop-after 1
    proof { assert(face_relabel@.len() == keys.len()); }
//@ loop-after 2
    proof {
        assert(self.cells.wf() && self.faces.wf());
        assert(self.cells@.len() == start.cells@.len());
        assert forall|i: int, k: int| #![trigger self.cells@[i][k]] 0 <= i < self.cells@.len() && 0 <= k < self.cells@[i].len() implies self.cells@[i][k] < self.faces@.len() by {
            assert(relabelled(start.cells@[i], self.cells@[i], label));
            assert(start.cells@[i][k] < start.faces@.len());
            assert(label[start.cells@[i][k] as int] < faces1.len());
        }
        assert(deduplicates(start, *self, first, label));
    }
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T> PolyMesh3d<T> :: keep_cells
//@ subst let keep_faces: BTreeSet<_> = cell_indices .iter() .flat_map( => let keep_faces: Vec<usize> = flat_set(cell_indices, 
//@ subst let keep_vertices: BTreeSet<_> = keep_faces .iter() .flat_map( => let keep_vertices: Vec<usize> = flat_set(&keep_faces, 
//@ subst ) .copied() .collect() => )
//@ subst let vertices_old_to_new_map: HashMap<_, _> = keep_vertices .iter() .enumerate() => let vertices_old_to_new_map = to_index_map(enumerated(&keep_vertices).into_iter()
//@ subst (*old_idx, new_idx)) .collect() => (*old_idx, new_idx)).collect())
//@ subst let faces_old_to_new_map: HashMap<_, _> = keep_faces .iter() .enumerate() => let faces_old_to_new_map = to_index_map(enumerated(&keep_faces).into_iter()
//@ subst (old_idx, new_idx)) .collect() => (*old_idx, new_idx)).collect())
//@ subst in &keep_faces => in keep_faces.iter()
//@ subst in old_face_vertices => in old_face_vertices.iter()
//@ subst in cell_indices { => in cell_indices.iter() {
//@ subst in old_cell_faces => in old_cell_faces.iter()
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ closures 5
//@ closure 0 &usize ; out: &[usize]
    requires *a0 < self.cells@.len()
    ensures out@ == self.cells@[*a0 as int]
//@ closure 1 &usize ; out: &[usize]
    requires *a0 < self.faces@.len()
    ensures out@ == self.faces@[*a0 as int]
//@ closure 2 (usize, &usize) ; p: (usize, usize)
    ensures p.0 == *a0.1, p.1 == a0.0
//@ closure 3 (usize, &usize) ; p: (usize, usize)
    ensures p.0 == *a0.1, p.1 == a0.0
//@ closure 4 &usize ; p: Point
    requires *a0 < self.vertices@.len()
    ensures p == self.vertices@[*a0 as int]
//@ spec
    requires self.wf(), forall|i: int| 0 <= i < cell_indices@.len() ==> (#[trigger] cell_indices@[i]) < self.cells@.len()
    ensures r.wf(), exists|faces: Seq<usize>, vertices: Seq<usize>| #[trigger] keeps(*self, cell_indices@, r, faces, vertices)
//@ before let keep_vertices
    let ghost kf = keep_faces@;
    let ghost ci = cell_indices@;
    proof {
        assert forall|i: int| 0 <= i < ci.len() implies (#[trigger] ci[i]) < self.cells@.len() && part_of(self.cells@[ci[i] as int], kf) by {}
        assert forall|k: int| 0 <= k < kf.len() implies named(self.cells@, ci, #[trigger] kf[k] as int) by {}
        lemma_gathered(self.cells@, ci, kf, self.faces@.len() as int);
    }
//@ before let faces_old_to_new_map
    let ghost kv = keep_vertices@;
    proof {
        assert forall|i: int| 0 <= i < kf.len() implies (#[trigger] kf[i]) < self.faces@.len() && part_of(self.faces@[kf[i] as int], kv) by {}
        assert forall|k: int| 0 <= k < kv.len() implies named(self.faces@, kf, #[trigger] kv[k] as int) by {}
        lemma_gathered(self.faces@, kf, kv, self.vertices@.len() as int);
    }
//@ before let mut new_faces
    proof {
        let fm = faces_old_to_new_map.map();
        assert(exists|s: Seq<(usize, usize)>| #[trigger] made_from(fm, s) && s.len() == kf.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == kf[i] && s[i].1 == i);
        let s = choose|s: Seq<(usize, usize)>| #[trigger] made_from(fm, s) && s.len() == kf.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == kf[i] && s[i].1 == i;
        assert forall|i: int| 0 <= i < kf.len() implies fm.contains_key(#[trigger] kf[i]) && fm[kf[i]] == i by { assert(s[i].0 == kf[i]); }
        assert(places(fm, kf));
        let vm = vertices_old_to_new_map.map();
        assert(exists|s: Seq<(usize, usize)>| #[trigger] made_from(vm, s) && s.len() == kv.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == kv[i] && s[i].1 == i);
        let s = choose|s: Seq<(usize, usize)>| #[trigger] made_from(vm, s) && s.len() == kv.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == kv[i] && s[i].1 == i;
        assert forall|i: int| 0 <= i < kv.len() implies vm.contains_key(#[trigger] kv[i]) && vm[kv[i]] == i by { assert(s[i].0 == kv[i]); }
        assert(places(vm, kv));
    }
//@ loop 0 it
    invariant
        it.seq() == kf.as_ref(), new_faces.wf(), selected(self.faces@, kf, kv, new_faces@, it.index()),
//@ loop-start 0
    let ghost n = it.index();
    let ghost before = new_faces@;
    proof { assert(*old_face_idx == kf[n]); }
//@ loop 1 jt
    invariant
        jt.seq() == old_face_vertices@.as_ref(), new_face_vertices.wf(), new_face_vertices.before() == before, new_face_vertices.target() == target,
        new_face_vertices.added().len() == jt.index(),
        forall|k: int| 0 <= k < jt.index() ==> (#[trigger] new_face_vertices.added()[k]) < kv.len() && kv[new_face_vertices.added()[k] as int] == old_face_vertices@[k],
//@ before for old_vertex_idx in old_face
    let ghost target = new_face_vertices.target();
//@ loop-start 1
    let ghost k = jt.index();
    proof {
        assert(*old_vertex_idx == old_face_vertices@[k]);
        lemma_placed(self.faces@, kf, kv, vertices_old_to_new_map.map(), n, k);
    }
//@ loop-after 1
    let ghost added = new_face_vertices.added();
    close(new_face_vertices);
    proof { assert(new_faces@ == before.push(added)); }
//@ loop-end 0
    proof {
        assert(new_faces@.last() == new_faces@[n]);
        assert forall|i: int| #![trigger new_faces@[i]] #![trigger kf[i]] 0 <= i < n + 1 implies renamed(new_faces@[i], self.faces@[kf[i] as int], kv) by { if i < n { assert(new_faces@[i] == before[i]); } }
    }
//@ loop 2 it
    invariant
        it.seq() == cell_indices@.as_ref(), new_cells.wf(), selected(self.cells@, cell_indices@, kf, new_cells@, it.index()),
//@ loop-start 2
    let ghost n = it.index();
    let ghost before = new_cells@;
    proof { assert(*old_cell_idx == ci[n]); }
//@ loop 3 jt
    invariant
        jt.seq() == old_cell_faces@.as_ref(), new_cell_faces.wf(), new_cell_faces.before() == before, new_cell_faces.target() == target,
        new_cell_faces.added().len() == jt.index(),
        forall|k: int| 0 <= k < jt.index() ==> (#[trigger] new_cell_faces.added()[k]) < kf.len() && kf[new_cell_faces.added()[k] as int] == old_cell_faces@[k],
//@ before for old_face_idx in old_cell
    let ghost target = new_cell_faces.target();
//@ loop-start 3
    let ghost k = jt.index();
    proof {
        assert(*old_face_idx == old_cell_faces@[k]);
        lemma_placed(self.cells@, ci, kf, faces_old_to_new_map.map(), n, k);
    }
//@ loop-after 3
    let ghost added = new_cell_faces.added();
    close(new_cell_faces);
    proof { assert(new_cells@ == before.push(added)); }
//@ loop-end 2
    proof {
        assert(new_cells@.last() == new_cells@[n]);
        assert forall|i: int| #![trigger new_cells@[i]] #![trigger ci[i]] 0 <= i < n + 1 implies renamed(new_cells@[i], self.cells@[ci[i] as int], kf) by { if i < n { assert(new_cells@[i] == before[i]); } }
    }
//@ loop-after 2
    proof {
        lemma_below(self.faces@, kf, kv, new_faces@);
        lemma_below(self.cells@, ci, kf, new_cells@);
    }
//@ tail res
    proof { reveal(gathered); assert(keeps(*self, cell_indices@, res, kf, kv)); }
//@ done
}
fn main() {}
}
