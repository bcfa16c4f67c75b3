use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include nested_vec_inc.vrs
impl<T: Clone> NestedVec<T> {
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: last_mut
//@ ret r
//@ spec
        requires old(self).wf()
        ensures r.is_some() == (old(self)@.len() > 0), r.is_some() ==> r.unwrap()@ == old(self)@.last(),
            final(self).wf(), final(self)@.len() == old(self)@.len(),
            r.is_none() ==> final(self)@ == old(self)@,
            r.is_some() ==> final(self)@.last() == final(r.unwrap())@,
            forall|j: int| 0 <= j < old(self)@.len() - 1 ==> #[trigger] final(self)@[j] == old(self)@[j],
//@ done
}
// A vertex (`OPoint<T, D>`): nothing is assumed of it, only that a clone is the same value
#[verifier::external_body]
pub struct Point { x: u64 }
impl Clone for Point {
    #[verifier::external_body]
    fn clone(&self) -> (r: Point) ensures r == *self { unimplemented!() }
}
// A connectivity (`Connectivity` and `ConnectivityMut`): its nodes, how they are lent, and its faces. One opaque type stands
// for the type of the cells and for that of their faces.
#[verifier::external_body]
pub struct Cell { nodes: Vec<usize> }
impl Cell {
    pub uninterp spec fn nodes(&self) -> Seq<usize>;
    pub uninterp spec fn faces(&self) -> Seq<Cell>;
    #[verifier::external_body]
    pub fn vertex_indices(&self) -> (r: &[usize]) ensures r@ == self.nodes() { unimplemented!() }
    #[verifier::external_body]
    pub fn vertex_indices_mut(&mut self) -> (r: &mut [usize])
        ensures r@ == old(self).nodes(), final(self).nodes() == final(r)@, r@.len() == final(r)@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn num_faces(&self) -> (r: usize) ensures r == self.faces().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_face_connectivity(&self, index: usize) -> (r: Option<Cell>)
        ensures index < self.faces().len() ==> r == Some(self.faces()[index as int]), index >= self.faces().len() ==> r.is_none() { unimplemented!() }
}
impl Clone for Cell {
    #[verifier::external_body]
    fn clone(&self) -> (r: Cell) ensures r == *self { unimplemented!() }
}
pub struct Mesh { pub vertices: Vec<Point>, pub connectivity: Vec<Cell> }

// `s.iter().enumerate()`, as the sequence it yields
#[verifier::external_body]
pub fn enumerated<'a, T>(s: &'a [T]) -> (r: Vec<(usize, &'a T)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i]
{ s.iter().enumerate().collect() }
// a hash map of indices
#[verifier::external_body]
pub struct IndexMap { x: Vec<usize> }
impl IndexMap {
    pub uninterp spec fn map(&self) -> Map<usize, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: IndexMap) ensures r.map() == Map::<usize, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: usize) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&usize>)
        ensures r.is_some() == self.map().contains_key(*k), r matches Some(v) ==> *v == self.map()[*k] { unimplemented!() }
}
pub open spec fn increasing(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]) < (#[trigger] s[j]) }
pub open spec fn occurs(s: Seq<usize>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == v }
// `s.into_iter().filter_map(f).collect()`: the values, in order, where f gives one
pub open spec fn chosen<A, F: FnMut(A) -> Option<usize>>(s: Seq<A>, f: F, r: Seq<usize>, pos: Seq<usize>) -> bool {
    &&& pos.len() == r.len() && increasing(pos)
    &&& forall|k: int| #![trigger pos[k]] #![trigger r[k]] 0 <= k < pos.len() ==> pos[k] < s.len() && call_ensures(f, (s[pos[k] as int],), Some(r[k]))
    &&& forall|i: int| #![trigger s[i]] #![trigger occurs(pos, i)] 0 <= i < s.len() ==> occurs(pos, i) || call_ensures(f, (s[i],), None)
}
#[verifier::external_body]
pub fn filter_mapped<A, F: FnMut(A) -> Option<usize>>(s: Vec<A>, f: F) -> (r: Vec<usize>)
    requires forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> call_requires(f, (s@[i],))
    ensures exists|pos: Seq<usize>| #[trigger] chosen(s@, f, r@, pos)
{ unimplemented!() }
// increasing lists of the same indices are the same
pub proof fn lemma_same(a: Seq<usize>, b: Seq<usize>)
    requires increasing(a), increasing(b), forall|v: int| occurs(a, v) <==> occurs(b, v)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(occurs(b, b[0] as int)); assert(occurs(a, b[0] as int)); }
        assert(a =~= b);
    } else if b.len() == 0 { assert(occurs(a, a[0] as int)); assert(occurs(b, a[0] as int)); }
    else {
        let x = a.last(); let y = b.last();
        assert(occurs(b, x as int)) by { assert(a[a.len() - 1] == x); assert(occurs(a, x as int)); }
        assert(occurs(a, y as int)) by { assert(b[b.len() - 1] == y); assert(occurs(b, y as int)); }
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == y;
        assert(x <= y) by { if i < b.len() - 1 { assert(b[i] < b[b.len() - 1]); } }
        assert(y <= x) by { if j < a.len() - 1 { assert(a[j] < a[a.len() - 1]); } }
        assert forall|v: int| occurs(a.drop_last(), v) implies occurs(b.drop_last(), v) by {
            let k = choose|k: int| 0 <= k < a.drop_last().len() && #[trigger] a.drop_last()[k] == v;
            assert(a[k] == v); assert(occurs(a, v)); assert(occurs(b, v));
            let l = choose|l: int| 0 <= l < b.len() && #[trigger] b[l] == v;
            assert(a[k] < a[a.len() - 1]);
            assert(b.drop_last()[l] == v);
        }
        assert forall|v: int| occurs(b.drop_last(), v) implies occurs(a.drop_last(), v) by {
            let k = choose|k: int| 0 <= k < b.drop_last().len() && #[trigger] b.drop_last()[k] == v;
            assert(b[k] == v); assert(occurs(b, v)); assert(occurs(a, v));
            let l = choose|l: int| 0 <= l < a.len() && #[trigger] a[l] == v;
            assert(b[k] < b[b.len() - 1]);
            assert(a.drop_last()[l] == v);
        }
        lemma_same(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(x));
        assert(b =~= b.drop_last().push(y));
    }
}

impl Mesh {
    pub open spec fn v(&self) -> Seq<Point> { self.vertices@ }
    pub open spec fn c(&self) -> Seq<Cell> { self.connectivity@ }
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: vertices
//@ subst &[OPoint<T, D>] => &[Point]
//@ ret r
//@ spec
    ensures r@ == self.v()
//@ done
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: vertices_mut
//@ subst &mut [OPoint<T, D>] => &mut [Point]
//@ ret r
//@ spec
    ensures r@ == old(self).v(), final(self).v() == final(r)@, final(self).c() == old(self).c()
//@ done
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: connectivity
//@ subst &[Connectivity] => &[Cell]
//@ ret r
//@ spec
    ensures r@ == self.c()
//@ done
//@ fn src/mesh.rs impl<T, D, Connectivity> Mesh<T, D, Connectivity> :: from_vertices_and_connectivity
//@ subst Vec<OPoint<T, D>> => Vec<Point>
//@ subst Vec<Connectivity> => Vec<Cell>
//@ ret r
//@ spec
    ensures r.v() == vertices@, r.c() == connectivity@
//@ done
}
pub open spec fn names(cells: Seq<Cell>, which: Seq<usize>, upto: int, v: int) -> bool {
    exists|j: int| 0 <= j < upto && occurs((#[trigger] cells[which[j] as int]).nodes(), v)
}
pub open spec fn labelled(s: Seq<usize>, labels: Map<usize, usize>) -> bool { forall|k: int| 0 <= k < s.len() ==> labels.contains_key(#[trigger] s[k]) }
// the cell names, through `kept`, the nodes of the old one
pub open spec fn renamed(new: Seq<usize>, old: Seq<usize>, kept: Seq<usize>) -> bool {
    new.len() == old.len() && forall|k: int| 0 <= k < new.len() ==> (#[trigger] new[k]) < kept.len() && kept[new[k] as int] == old[k]
}
pub open spec fn kept_cells(m: Mesh, which: Seq<usize>, r: Mesh, kept: Seq<usize>) -> bool {
    // the vertices that remain are those the kept cells name, in their order
    &&& increasing(kept)
    &&& forall|v: int| #[trigger] occurs(kept, v) <==> names(m.c(), which, which.len() as int, v)
    &&& forall|k: int| 0 <= k < kept.len() ==> (#[trigger] kept[k]) < m.v().len()
    &&& r.v().len() == kept.len() && forall|k: int| 0 <= k < kept.len() ==> #[trigger] r.v()[k] == m.v()[kept[k] as int]
    &&& r.c().len() == which.len() && forall|j: int| 0 <= j < which.len() ==> renamed((#[trigger] r.c()[j]).nodes(), m.c()[which[j] as int].nodes(), kept)
}
pub open spec fn in_range(m: Mesh) -> bool {
    forall|j: int, k: int| #![trigger m.c()[j].nodes()[k]] 0 <= j < m.c().len() && 0 <= k < m.c()[j].nodes().len() ==> m.c()[j].nodes()[k] < m.v().len()
}
impl Mesh {
//@ fn src/mesh.rs impl<T, D, C> Mesh<T, D, C> :: keep_cells
//@ subst for cell_index in cell_indices => for cell_index in cell_indices.iter()
//@ subst in cell_connectivity.vertex_indices() => in cell_connectivity.vertex_indices().iter()
//@ subst HashMap::new() => IndexMap::new()
//@ subst in vertex_keep_table.iter().enumerate() => in enumerated(&vertex_keep_table)
//@ subst in cell.vertex_indices_mut() => in cell.vertex_indices_mut().iter_mut()
//@ subst vertex_keep_table .iter() .enumerate() .filter_map( => filter_mapped(enumerated(&vertex_keep_table), 
//@ subst .map(|index| => .into_iter().map(|index|
//@ subst .get(index) .expect( => .get(&*index) .expect(
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ closures 4
//@ closure 0 &usize ; c: Cell
    requires *a0 < self.c().len(), labelled(self.c()[*a0 as int].nodes(), old_to_new_label_map.map())
    ensures c == self.c()[*a0 as int], labelled(c.nodes(), old_to_new_label_map.map())
//@ closure 1 Cell ; c: Cell
    requires labelled(a0.nodes(), old_to_new_label_map.map())
    ensures c.nodes().len() == a0.nodes().len(), forall|k: int| 0 <= k < c.nodes().len() ==> #[trigger] c.nodes()[k] == old_to_new_label_map.map()[a0.nodes()[k]]
//@ closure 2 (usize, &bool) ; o: Option<usize>
    ensures o == (if *a0.1 { Some(a0.0) } else { None::<usize> })
//@ closure 3 usize ; p: Point
    requires a0 < self.v().len()
    ensures p == self.v()[a0 as int]
//@ spec
    requires in_range(*self), forall|j: int| 0 <= j < cell_indices@.len() ==> (#[trigger] cell_indices@[j]) < self.c().len()
    ensures exists|kept: Seq<usize>| #[trigger] kept_cells(*self, cell_indices@, r, kept)
//@ loop 0 it
    invariant
        it.seq() == cell_indices@.as_ref(), table@.len() == self.v().len(),
        forall|v: int| 0 <= v < table@.len() ==> (#[trigger] table@[v] <==> names(self.c(), cell_indices@, it.index(), v)),
//@ before for vertex_index in
    let ghost marked = table@;
    let ghost which = it.index();
    proof { assert(*it.seq()[which] == cell_indices@[which]); assert(*cell_connectivity == self.c()[cell_indices@[which] as int]); }
//@ loop 1 jt
    invariant
        jt.seq() == cell_connectivity.nodes().as_ref(), table@.len() == self.v().len(),
        forall|v: int| 0 <= v < table@.len() ==> (#[trigger] table@[v] <==> marked[v] || exists|k: int| 0 <= k < jt.index() && #[trigger] cell_connectivity.nodes()[k] == v),
//@ loop-start 1
    proof {
        let k = jt.index();
        assert(*jt.seq()[k] == cell_connectivity.nodes()[k]);
        assert(self.c()[cell_indices@[which] as int].nodes()[k] < self.v().len());
    }
//@ loop-end 0
    proof {
        assert forall|v: int| 0 <= v < table@.len() implies (#[trigger] table@[v] <==> names(self.c(), cell_indices@, which + 1, v)) by {
            if table@[v] {
                if marked[v] { 
                    let j = choose|j: int| 0 <= j < which && occurs((#[trigger] self.c()[cell_indices@[j] as int]).nodes(), v);
                    assert(occurs(self.c()[cell_indices@[j] as int].nodes(), v));
                } else { assert(occurs(self.c()[cell_indices@[which] as int].nodes(), v)); }
            }
            if names(self.c(), cell_indices@, which + 1, v) {
                let j = choose|j: int| 0 <= j < which + 1 && occurs((#[trigger] self.c()[cell_indices@[j] as int]).nodes(), v);
                if j == which { assert(occurs(cell_connectivity.nodes(), v)); } else { assert(names(self.c(), cell_indices@, which, v)); }
            }
        }
    }
//@ before let old_to_new_label_map
    let ghost all = cell_indices@.len() as int;
    let ghost mut kept: Seq<usize> = Seq::empty();
//@ before for .i, keep.
    proof { assert(increasing(kept)); }
//@ loop 2 it
    invariant
        it.seq().len() == vertex_keep_table@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == vertex_keep_table@[i],
        next_label == kept.len(), next_label <= it.index(), increasing(kept),
        forall|k: int| 0 <= k < kept.len() ==> (#[trigger] kept[k]) < it.index() && vertex_keep_table@[kept[k] as int],
        forall|i: usize| #[trigger] label_map.map().contains_key(i) <==> i < it.index() && vertex_keep_table@[i as int],
        forall|i: usize| #[trigger] label_map.map().contains_key(i) ==> label_map.map()[i] < kept.len() && kept[label_map.map()[i] as int] == i,
//@ loop-start 2
    let ghost before = label_map.map();
    let ghost kept0 = kept;
    let ghost at = it.index();
//@ loop-end 2
    proof {
        assert(i == at && *keep == vertex_keep_table@[at]);
        if *keep {
            kept = kept.push(i);
            assert(label_map.map() == before.insert(i, kept0.len() as usize));
            assert(kept[kept0.len() as int] == i);
            assert forall|u: usize| #[trigger] label_map.map().contains_key(u) implies label_map.map()[u] < kept.len() && kept[label_map.map()[u] as int] == u by {
                if u != i { assert(before.contains_key(u)); assert(kept[before[u] as int] == kept0[before[u] as int]); }
            }
        }
    }
//@ before for index in
    let ghost nodes = cell.nodes();
//@ loop 3 jt
    invariant
        jt.seq().len() == nodes.len(),
        forall|i: int| 0 <= i < nodes.len() ==> *(#[trigger] jt.seq()[i]) == nodes[i],
        forall|i: int| 0 <= i < jt.index() ==> *final(#[trigger] jt.seq()[i]) == old_to_new_label_map.map()[nodes[i]],
//@ before let relabeled_cells
    let ghost kept = kept;
    let ghost table = vertex_keep_table@;
    let ghost labels = old_to_new_label_map.map();
    proof {
        assert forall|v: int| 0 <= v < table.len() implies (#[trigger] table[v] <==> names(self.c(), cell_indices@, all, v)) by {}
        assert forall|j: int| 0 <= j < cell_indices@.len() implies labelled(self.c()[#[trigger] cell_indices@[j] as int].nodes(), labels) by {
            assert forall|k: int| 0 <= k < self.c()[cell_indices@[j] as int].nodes().len() implies labels.contains_key(#[trigger] self.c()[cell_indices@[j] as int].nodes()[k]) by {
                let v = self.c()[cell_indices@[j] as int].nodes()[k];
                assert(v < self.v().len());
                assert(occurs(self.c()[cell_indices@[j] as int].nodes(), v as int));
                assert(table[v as int]);
            }
        }
    }
//@ tail res
    proof {
        assert forall|v: int| #[trigger] occurs(kept, v) <==> names(self.c(), cell_indices@, all, v) by {
            if names(self.c(), cell_indices@, all, v) {
                let j = choose|j: int| 0 <= j < all && occurs((#[trigger] self.c()[cell_indices@[j] as int]).nodes(), v);
                let k = choose|k: int| 0 <= k < self.c()[cell_indices@[j] as int].nodes().len() && #[trigger] self.c()[cell_indices@[j] as int].nodes()[k] == v;
                assert(labels.contains_key(v as usize));
                assert(kept[labels[v as usize] as int] == v);
            }
            if occurs(kept, v) {
                let k = choose|k: int| 0 <= k < kept.len() && #[trigger] kept[k] == v;
                assert(table[kept[k] as int]);
            }
        }
        assert(exists|pos: Seq<usize>| #[trigger] increasing(pos) && pos.len() == res.v().len()
            && (forall|k: int| #![trigger pos[k]] 0 <= k < pos.len() ==> pos[k] < table.len() && res.v()[k] == self.v()[pos[k] as int])
            && (forall|v: int| 0 <= v < table.len() ==> (#[trigger] occurs(pos, v) <==> table[v])));
        let pos = choose|pos: Seq<usize>| #[trigger] increasing(pos) && pos.len() == res.v().len()
            && (forall|k: int| #![trigger pos[k]] 0 <= k < pos.len() ==> pos[k] < table.len() && res.v()[k] == self.v()[pos[k] as int])
            && (forall|v: int| 0 <= v < table.len() ==> (#[trigger] occurs(pos, v) <==> table[v]));
        assert forall|v: int| occurs(pos, v) <==> occurs(kept, v) by {
            if occurs(pos, v) { let k = choose|k: int| 0 <= k < pos.len() && #[trigger] pos[k] == v; }
            if occurs(kept, v) { let k = choose|k: int| 0 <= k < kept.len() && #[trigger] kept[k] == v; assert(table[kept[k] as int]); }
        }
        lemma_same(pos, kept);
        assert forall|j: int| 0 <= j < all implies renamed((#[trigger] res.c()[j]).nodes(), self.c()[cell_indices@[j] as int].nodes(), kept) by {
            assert(labelled(self.c()[cell_indices@[j] as int].nodes(), labels));
            assert forall|k: int| 0 <= k < res.c()[j].nodes().len() implies (#[trigger] res.c()[j].nodes()[k]) < kept.len() && kept[res.c()[j].nodes()[k] as int] == self.c()[cell_indices@[j] as int].nodes()[k] by {
                assert(labels.contains_key(self.c()[cell_indices@[j] as int].nodes()[k]));
            }
        }
        assert forall|k: int| 0 <= k < kept.len() implies (#[trigger] kept[k]) < self.v().len() by { assert(pos[k] < table.len()); }
    }
    proof { assert(kept_cells(*self, cell_indices@, res, kept)); }
//@ done
}

// ---- faces
#[verifier::external_body]
pub fn sort_slice(v: &mut [usize])
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(), sorted(final(v)@)
{ v.sort_unstable() }
#[verifier::external_body]
pub fn sort_indices(v: &mut Vec<usize>)
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(), sorted(final(v)@)
{ v.sort_unstable() }
// `v.dedup()` of a sorted list: its values, once each
#[verifier::external_body]
pub fn dedup_indices(v: &mut Vec<usize>)
    requires sorted(old(v)@)
    ensures increasing(final(v)@), forall|x: int| occurs(final(v)@, x) <==> occurs(old(v)@, x)
{ v.dedup() }
// `v.extend(s)` for a slice of indices
#[verifier::external_body]
pub fn extend_indices(v: &mut Vec<usize>, s: &[usize]) ensures final(v)@ == old(v)@ + s@ { v.extend(s) }
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]) <= (#[trigger] s[j]) }
// sorted lists are equal exactly if they are rearrangements of each other
pub proof fn lemma_sorted_same(a: Seq<usize>, b: Seq<usize>)
    requires sorted(a), sorted(b), a.to_multiset() == b.to_multiset()
    ensures a == b
    decreases a.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(a.len() == b.len());
    if a.len() == 0 { assert(a =~= b); } else {
        let x = a.last(); let y = b.last();
        assert(a.contains(y)) by { assert(b.contains(y)); assert(b.to_multiset().count(y) > 0); }
        assert(b.contains(x)) by { assert(a.contains(x)); assert(a.to_multiset().count(x) > 0); }
        let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        assert(a[i] <= a[a.len() - 1]);
        assert(b[j] <= b[b.len() - 1]);
        assert(x == y);
        assert(a =~= a.drop_last().push(x));
        assert(b =~= b.drop_last().push(y));
        a.drop_last().to_multiset_ensures();
        b.drop_last().to_multiset_ensures();
        assert(a.drop_last().to_multiset() =~= a.to_multiset().remove(x));
        assert(b.drop_last().to_multiset() =~= b.to_multiset().remove(x));
        lemma_sorted_same(a.drop_last(), b.drop_last());
    }
}
// the ordered map from a sorted list of indices to (where it was seen first, how often)
#[verifier::external_body]
pub struct SliceMap<'a> { x: Vec<&'a [usize]> }
impl<'a> SliceMap<'a> {
    pub uninterp spec fn map(&self) -> Map<Seq<usize>, (usize, i32)>;
    #[verifier::external_body]
    pub fn new() -> (r: SliceMap<'a>) ensures r.map() == Map::<Seq<usize>, (usize, i32)>::empty() { unimplemented!() }
    // `.entry(key).and_modify(f).or_insert(value)`
    #[verifier::external_body]
    pub fn entry_modify_or_insert<F: FnOnce(&mut (usize, i32))>(&mut self, key: &'a [usize], f: F, value: (usize, i32))
        requires old(self).map().contains_key(key@) ==> forall|m: &mut (usize, i32)| #![trigger call_requires(f, (m,))] *m == old(self).map()[key@] ==> call_requires(f, (m,))
        ensures
            !old(self).map().contains_key(key@) ==> final(self).map() == old(self).map().insert(key@, value),
            old(self).map().contains_key(key@) ==> exists|v: (usize, i32)| #[trigger] turned_into(f, old(self).map()[key@], v) && final(self).map() == old(self).map().insert(key@, v)
    { unimplemented!() }
    // `.into_iter().map(|(key, value)| value)`: the values, one for each key
    #[verifier::external_body]
    pub fn into_values(self) -> (r: Vec<(usize, i32)>)
        ensures exists|keys: Seq<Seq<usize>>| #[trigger] lists_map(self.map(), keys, r@)
    { unimplemented!() }
}
pub open spec fn lists_map(m: Map<Seq<usize>, (usize, i32)>, keys: Seq<Seq<usize>>, r: Seq<(usize, i32)>) -> bool {
    &&& keys.no_duplicates() && keys.len() == r.len()
    &&& forall|i: int| #![trigger keys[i]] #![trigger r[i]] 0 <= i < keys.len() ==> m.contains_key(keys[i]) && m[keys[i]] == r[i]
    &&& forall|k: Seq<usize>| #[trigger] m.contains_key(k) ==> keys.contains(k)
}
#[verifier::prophetic]
pub open spec fn turned_into<F: FnOnce(&mut (usize, i32))>(f: F, before: (usize, i32), after: (usize, i32)) -> bool {
    exists|m: &mut (usize, i32)| *m == before && *final(m) == after && #[trigger] call_ensures(f, (m,), ())
}
// how many of the first n lists are this one
pub open spec fn seen(s: Seq<Seq<usize>>, key: Seq<usize>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { seen(s, key, n - 1) + if s[n - 1] == key { 1int } else { 0int } }
}
pub proof fn lemma_seen(s: Seq<Seq<usize>>, key: Seq<usize>, n: int)
    requires 0 <= n <= s.len()
    ensures
        0 <= seen(s, key, n) <= n,
        seen(s, key, n) == 0 <==> forall|i: int| 0 <= i < n ==> #[trigger] s[i] != key,
        seen(s, key, n) == 1 ==> forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] s[i] == key && #[trigger] s[j] == key ==> i == j,
        seen(s, key, n) > 1 ==> exists|i: int, j: int| 0 <= i < j < n && #[trigger] s[i] == key && #[trigger] s[j] == key,
    decreases n
{
    if n > 0 {
        lemma_seen(s, key, n - 1);
        if s[n - 1] == key && seen(s, key, n - 1) >= 1 {
            let i = choose|i: int| 0 <= i < n - 1 && #[trigger] s[i] == key;
            assert(s[i] == key && s[n - 1] == key);
        }
        if seen(s, key, n) > 1 && s[n - 1] != key {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < n - 1 && #[trigger] s[i] == key && #[trigger] s[j] == key;
            assert(s[i] == key && s[j] == key);
        }
    }
}
// a face of a cell
pub open spec fn face(m: Mesh, c: int, l: int) -> Cell { m.c()[c].faces()[l] }
pub open spec fn is_face(m: Mesh, c: int, l: int) -> bool { 0 <= c < m.c().len() && 0 <= l < m.c()[c].faces().len() }
// no other face has the same nodes (in any order)
pub open spec fn lone(m: Mesh, c: int, l: int) -> bool {
    forall|d: int, k: int| is_face(m, d, k) && (#[trigger] face(m, d, k)).nodes().to_multiset() == face(m, c, l).nodes().to_multiset() ==> d == c && k == l
}
pub open spec fn at<F>(r: Seq<(F, usize, usize)>, c: int, l: int) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 == c && r[i].2 == l }
// the boundary faces, each once
pub open spec fn is_boundary(m: Mesh, r: Seq<(Cell, usize, usize)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> is_face(m, (#[trigger] r[i]).1 as int, r[i].2 as int) && lone(m, r[i].1 as int, r[i].2 as int) && r[i].0 == face(m, r[i].1 as int, r[i].2 as int)
    &&& forall|c: int, l: int| is_face(m, c, l) && lone(m, c, l) ==> #[trigger] at(r, c, l)
    &&& forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && (#[trigger] r[i]).1 == (#[trigger] r[j]).1 && r[i].2 == r[j].2 ==> i == j
}
// all faces of the first cells and the first faces of the next one, in order
pub open spec fn before_face(c: int, l: int, d: int, k: int) -> bool { c < d || (c == d && l < k) }
pub open spec fn lists_faces(m: Mesh, info: Seq<(Cell, usize, usize)>, d: int, k: int) -> bool {
    &&& forall|i: int| 0 <= i < info.len() ==> is_face(m, (#[trigger] info[i]).1 as int, info[i].2 as int) && before_face(info[i].1 as int, info[i].2 as int, d, k) && info[i].0 == face(m, info[i].1 as int, info[i].2 as int)
    &&& forall|c: int, l: int| is_face(m, c, l) && before_face(c, l, d, k) ==> #[trigger] at(info, c, l)
    &&& forall|i: int, j: int| 0 <= i < info.len() && 0 <= j < info.len() && (#[trigger] info[i]).1 == (#[trigger] info[j]).1 && info[i].2 == info[j].2 ==> i == j
}
pub open spec fn keys_of(info: Seq<(Cell, usize, usize)>, keys: Seq<Seq<usize>>) -> bool {
    info.len() == keys.len() && forall|i: int| #![trigger keys[i]] #![trigger info[i]] 0 <= i < keys.len() ==> sorted(keys[i]) && keys[i].to_multiset() == info[i].0.nodes().to_multiset()
}
pub proof fn lemma_listed(m: Mesh, info: Seq<(Cell, usize, usize)>, d: int, k: int)
    requires lists_faces(m, info, d, k), is_face(m, d, k), d <= usize::MAX, k <= usize::MAX
    ensures lists_faces(m, info.push((face(m, d, k), d as usize, k as usize)), d, k + 1)
{
    let next = info.push((face(m, d, k), d as usize, k as usize));
    assert forall|c: int, l: int| is_face(m, c, l) && before_face(c, l, d, k + 1) implies #[trigger] at(next, c, l) by {
        if c == d && l == k { assert(next[info.len() as int].1 == c); } else {
            assert(at(info, c, l));
            let i = choose|i: int| 0 <= i < info.len() && (#[trigger] info[i]).1 == c && info[i].2 == l;
            assert(next[i].1 == c && next[i].2 == l);
        }
    }
}
// how many faces the cells before c have
pub open spec fn faces_before(m: Mesh, c: int) -> int decreases c { if c <= 0 { 0 } else { faces_before(m, c - 1) + m.c()[c - 1].faces().len() } }
pub proof fn lemma_faces_before(m: Mesh, c: int, d: int)
    requires 0 <= c <= d <= m.c().len()
    ensures 0 <= faces_before(m, c) <= faces_before(m, d)
    decreases d
{
    if c < d { lemma_faces_before(m, c, d - 1); } else if c > 0 { lemma_faces_before(m, c - 1, c - 1); }
}
#[verifier::external_body]
pub fn filtered<F: FnMut(&(usize, i32)) -> bool>(s: Vec<(usize, i32)>, f: F) -> (r: Vec<(usize, i32)>)
    requires forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> call_requires(f, (&s@[i],))
    ensures exists|pos: Seq<usize>| #[trigger] kept_by(s@, f, r@, pos)
{ unimplemented!() }
pub open spec fn linked(s: Seq<(usize, i32)>, r: Seq<(usize, i32)>, pos: Seq<usize>) -> bool { true }
pub open spec fn once(s: Seq<(usize, i32)>, r: Seq<(usize, i32)>, pos: Seq<usize>) -> bool {
    &&& pos.len() == r.len() && increasing(pos)
    &&& forall|k: int| #![trigger pos[k]] #![trigger r[k]] 0 <= k < pos.len() ==> pos[k] < s.len() && s[pos[k] as int] == r[k] && r[k].1 == 1
    &&& forall|i: int| #![trigger s[i]] #![trigger occurs(pos, i)] 0 <= i < s.len() && s[i].1 == 1 ==> occurs(pos, i)
}
// the faces whose nodes were counted once
pub proof fn lemma_boundary(m: Mesh, info: Seq<(Cell, usize, usize)>, keys: Seq<Seq<usize>>, map: Map<Seq<usize>, (usize, i32)>, ks: Seq<Seq<usize>>,
        vals: Seq<(usize, i32)>, picked: Seq<(usize, i32)>, pos: Seq<usize>, res: Seq<(Cell, usize, usize)>)
    requires
        lists_faces(m, info, m.c().len() as int, 0), keys_of(info, keys), counts(map, keys, keys.len() as int), lists_map(map, ks, vals), once(vals, picked, pos),
        res.len() == picked.len(), forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]) == info[picked[i].0 as int],
    ensures is_boundary(m, res)
{
    let n = keys.len() as int;
    assert forall|i: int| 0 <= i < res.len() implies picked[i].0 < n && res[i] == info[picked[i].0 as int] && ks[pos[i] as int] == keys[picked[i].0 as int] && seen(keys, keys[picked[i].0 as int], n) == 1 by {
        assert(vals[pos[i] as int] == picked[i]);
        assert(map.contains_key(ks[pos[i] as int]));
    }
    assert forall|i: int| 0 <= i < res.len() implies is_face(m, (#[trigger] res[i]).1 as int, res[i].2 as int) && lone(m, res[i].1 as int, res[i].2 as int) && res[i].0 == face(m, res[i].1 as int, res[i].2 as int) by {
        let a = picked[i].0 as int;
        assert(info[a] == res[i]);
        let c = res[i].1 as int; let l = res[i].2 as int;
        assert forall|d: int, k: int| is_face(m, d, k) && (#[trigger] face(m, d, k)).nodes().to_multiset() == face(m, c, l).nodes().to_multiset() implies d == c && k == l by {
            assert(at(info, d, k));
            let b = choose|b: int| 0 <= b < info.len() && (#[trigger] info[b]).1 == d && info[b].2 == k;
            lemma_sorted_same(keys[a], keys[b]);
            lemma_seen(keys, keys[a], n);
            assert(keys[a] == keys[a] && keys[b] == keys[a]);
        }
    }
    assert forall|c: int, l: int| is_face(m, c, l) && lone(m, c, l) implies #[trigger] at(res, c, l) by {
        assert(at(info, c, l));
        let a = choose|a: int| 0 <= a < info.len() && (#[trigger] info[a]).1 == c && info[a].2 == l;
        let key = keys[a];
        assert(map.contains_key(keys[a]));
        lemma_seen(keys, key, n);
        assert(seen(keys, key, n) == 1) by {
            if seen(keys, key, n) == 0 { assert(keys[a] != key); }
            if seen(keys, key, n) > 1 {
                let (i, j) = choose|i: int, j: int| 0 <= i < j < n && #[trigger] keys[i] == key && #[trigger] keys[j] == key;
                let o = if i == a { j } else { i };
                assert(keys[o] == key);
                assert(info[o].0 == face(m, info[o].1 as int, info[o].2 as int));
                assert(face(m, info[o].1 as int, info[o].2 as int).nodes().to_multiset() == face(m, c, l).nodes().to_multiset());
                assert(info[o].1 == c && info[o].2 == l);
            }
        }
        assert(ks.contains(key));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == key;
        assert(vals[i] == map[key]);
        assert(occurs(pos, i));
        let p = choose|p: int| 0 <= p < pos.len() && #[trigger] pos[p] == i;
        assert(picked[p] == vals[i]);
        let first = picked[p].0 as int;
        assert(keys[first] == key && keys[a] == key);
        assert(first == a);
        assert(res[p].1 == c && res[p].2 == l);
    }
    assert forall|i: int, j: int| 0 <= i < res.len() && 0 <= j < res.len() && (#[trigger] res[i]).1 == (#[trigger] res[j]).1 && res[i].2 == res[j].2 implies i == j by {
        assert(info[picked[i].0 as int] == res[i] && info[picked[j].0 as int] == res[j]);
        assert(picked[i].0 == picked[j].0);
        assert(ks[pos[i] as int] == ks[pos[j] as int]);
        if i < j { assert(pos[i] < pos[j]); }
        if j < i { assert(pos[j] < pos[i]); }
    }
}
// `s.into_iter().filter(f).collect()`: the values, in order, that f accepts
pub open spec fn kept_by<F: FnMut(&(usize, i32)) -> bool>(s: Seq<(usize, i32)>, f: F, r: Seq<(usize, i32)>, pos: Seq<usize>) -> bool {
    &&& pos.len() == r.len() && increasing(pos) && linked(s, r, pos)
    &&& forall|k: int| #![trigger pos[k]] #![trigger r[k]] 0 <= k < pos.len() ==> pos[k] < s.len() && s[pos[k] as int] == r[k] && call_ensures(f, (&r[k],), true)
    &&& forall|i: int| #![trigger s[i]] #![trigger occurs(pos, i)] 0 <= i < s.len() ==> occurs(pos, i) || call_ensures(f, (&s[i],), false)
}
#[verifier::external_body]
pub fn clone_info(x: &(Cell, usize, usize)) -> (r: (Cell, usize, usize)) ensures r == *x { x.clone() }
pub open spec fn counts(m: Map<Seq<usize>, (usize, i32)>, keys: Seq<Seq<usize>>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] m.contains_key(#[trigger] keys[i])
    &&& forall|k: Seq<usize>| #[trigger] m.contains_key(k) ==> m[k].0 < n && keys[m[k].0 as int] == k && m[k].1 == seen(keys, k, n)
}
#[verifier::prophetic]
pub open spec fn transformed<F: FnMut(&mut Point)>(before: Point, after: Point) -> bool {
    exists|g: F, m: &mut Point| *m == before && *final(m) == after && #[trigger] call_ensures(g, (m,), ())
}
pub open spec fn has_lone_face(m: Mesh, c: int) -> bool { exists|l: int| #[trigger] is_face(m, c, l) && lone(m, c, l) }
pub open spec fn on_lone_face(m: Mesh, v: int) -> bool { exists|c: int, l: int| #[trigger] is_face(m, c, l) && lone(m, c, l) && occurs(face(m, c, l).nodes(), v) }
pub open spec fn named_by(f: Seq<(Cell, usize, usize)>, n: int, v: int) -> bool { exists|j: int| 0 <= j < n && occurs((#[trigger] f[j]).0.nodes(), v) }
pub open spec fn faces_of(f: Seq<(Cell, usize, usize)>, faces: Seq<Cell>) -> bool { f.len() == faces.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] faces[i]) == f[i].0 }
pub open spec fn surface_of(m: Mesh, f: Seq<(Cell, usize, usize)>, r: Mesh, kept: Seq<usize>) -> bool {
    &&& increasing(kept)
    &&& forall|v: int| #[trigger] occurs(kept, v) <==> named_by(f, f.len() as int, v)
    &&& r.v().len() == kept.len() && forall|k: int| 0 <= k < kept.len() ==> #[trigger] r.v()[k] == m.v()[kept[k] as int]
    &&& r.c().len() == f.len() && forall|j: int| 0 <= j < f.len() ==> renamed((#[trigger] r.c()[j]).nodes(), f[j].0.nodes(), kept)
}
pub proof fn lemma_occurs_same(a: Seq<usize>, b: Seq<usize>)
    requires a.to_multiset() == b.to_multiset()
    ensures forall|x: int| occurs(a, x) <==> occurs(b, x)
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|x: int| occurs(a, x) <==> occurs(b, x) by {
        if occurs(a, x) {
            let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == x;
            assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); assert(b.contains(a[i]));
        }
        if occurs(b, x) {
            let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x;
            assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.contains(b[i]));
        }
    }
}
impl Mesh {
//@ fn src/mesh.rs impl<T, D, C> Mesh<T, D, C> :: find_boundary_faces
//@ subst C::FaceConnectivity => Cell
//@ subst in self.connectivity.iter().enumerate() => in enumerated(&self.connectivity)
//@ subst indices.sort_unstable() => sort_slice(indices)
//@ subst BTreeMap::new() => SliceMap::new()
//@ subst .entry( => .entry_modify_or_insert(
//@ subst ) .and_modify( => , 
//@ subst ) .or_insert( => , 
//@ subst slice_counts .into_iter() .map(|(_key, value)| value) .filter( => filtered(slice_counts.into_values(), 
//@ subst ) .map(move => ).into_iter().map(move
//@ subst face_info[i].clone() => clone_info(&face_info[i])
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ closures 3
//@ closure 0 &mut (usize, i32) ; u: ()
    requires old(a0).1 < i32::MAX
    ensures final(a0).0 == old(a0).0, final(a0).1 == old(a0).1 + 1
//@ closure 1 &(usize, i32) ; b: bool
    ensures b == (a0.1 == 1)
//@ closure 2 (usize, i32) ; f: (Cell, usize, usize)
    requires a0.0 < face_info@.len()
    ensures f == face_info@[a0.0 as int]
//@ spec
    requires faces_before(*self, self.c().len() as int) < i32::MAX
    ensures is_boundary(*self, r@)
//@ loop 0 it
    invariant
        it.seq().len() == self.c().len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == self.c()[i],
        sorted_slices.wf(), lists_faces(*self, face_info@, it.index(), 0), keys_of(face_info@, sorted_slices@),
        face_info@.len() == faces_before(*self, it.index()),
//@ loop-start 0
    let ghost d = it.index();
    proof { assert(conn_idx == d && *cell_conn == self.c()[d]); }
//@ loop 1 jt
    invariant
        sorted_slices.wf(), lists_faces(*self, face_info@, d, jt.index()), keys_of(face_info@, sorted_slices@),
        face_info@.len() == faces_before(*self, d) + jt.index(),
//@ loop-start 1
    let ghost k = jt.index();
    let ghost info0 = face_info@;
    let ghost slices0 = sorted_slices@;
//@ loop-end 1
    proof {
        lemma_listed(*self, info0, d, k);
        assert(face_info@ =~= info0.push((face(*self, d, k), d as usize, k as usize)));
        assert(sorted_slices@.last().to_multiset() == face(*self, d, k).nodes().to_multiset());
        assert forall|i: int| 0 <= i < sorted_slices@.len() implies sorted(#[trigger] sorted_slices@[i]) && sorted_slices@[i].to_multiset() == face_info@[i].0.nodes().to_multiset() by {
            if i < slices0.len() { assert(sorted_slices@[i] == slices0[i]); assert(face_info@[i] == info0[i]); }
        }
    }
//@ loop-end 0
    proof {
        assert forall|c: int, l: int| is_face(*self, c, l) && before_face(c, l, d + 1, 0) implies #[trigger] at(face_info@, c, l) by {}
        assert(faces_before(*self, d + 1) == faces_before(*self, d) + self.c()[d].faces().len());
    }
//@ before let num_slices
    let ghost keys = sorted_slices@;
    let ghost info = face_info@;
    let ghost cells = self.c().len() as int;
    proof { 
        assert(lists_faces(*self, info, cells, 0)); 
        assert(keys_of(info, keys));
        assert(info.len() == faces_before(*self, cells));
    }
//@ loop 2 nt
    invariant
        counts(slice_counts.map(), keys, nt.index()), sorted_slices@ == keys, sorted_slices.wf(), num_slices == keys.len(), keys.len() < i32::MAX,
//@ loop-start 2
    let ghost n = nt.index();
    let ghost map0 = slice_counts.map();
    proof { lemma_seen(keys, keys[n], n); }
//@ loop-end 2
    proof {
        let key = keys[n];
        assert(slice_counts.map().contains_key(key));
        assert(slice_counts.map()[key].1 == seen(keys, key, n + 1)) by {
            if !map0.contains_key(key) {
                assert forall|i: int| 0 <= i < n implies #[trigger] keys[i] != key by { assert(map0.contains_key(keys[i])); }
            }
        }
        assert forall|u: Seq<usize>| #[trigger] slice_counts.map().contains_key(u) implies
            slice_counts.map()[u].0 < n + 1 && keys[slice_counts.map()[u].0 as int] == u && slice_counts.map()[u].1 == seen(keys, u, n + 1) by {
            if u != key { assert(map0.contains_key(u)); }
        }
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] slice_counts.map().contains_key(#[trigger] keys[i]) by { if i < n { assert(map0.contains_key(keys[i])); } }
    }
//@ loop-after 2
    let ghost m = slice_counts.map();
    proof { assert(counts(m, keys, keys.len() as int)); }
//@ before sort_slice
    proof { assert(indices@ =~= face_conn.nodes()); }
//@ tail res: Vec<(Cell, usize, usize)>
    proof {
        assert(exists|ks: Seq<Seq<usize>>, vals: Seq<(usize, i32)>, picked: Seq<(usize, i32)>, pos: Seq<usize>|
            #[trigger] lists_map(m, ks, vals) && #[trigger] linked(vals, picked, pos) && once(vals, picked, pos) && res@.len() == picked.len()
            && forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]) == info[picked[i].0 as int]);
        let (ks, vals, picked, pos) = choose|ks: Seq<Seq<usize>>, vals: Seq<(usize, i32)>, picked: Seq<(usize, i32)>, pos: Seq<usize>|
            #[trigger] lists_map(m, ks, vals) && #[trigger] linked(vals, picked, pos) && once(vals, picked, pos) && res@.len() == picked.len()
            && forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]) == info[picked[i].0 as int];
        lemma_boundary(*self, info, keys, m, ks, vals, picked, pos, res@);
    }
//@ done
//@ fn src/mesh.rs impl<T, D, C> Mesh<T, D, C> :: find_boundary_cells
//@ subst cells.sort_unstable() => sort_indices(&mut cells)
//@ subst cells.dedup() => dedup_indices(&mut cells)
//@ subst Vec<_> => Vec<usize>
//@ ret r
//@ closure 0 (Cell, usize, usize) ; c: usize
    ensures c == a0.1
//@ before sort_indices
    let ghost all = cells@;
    proof {
        assert(exists|f: Seq<(Cell, usize, usize)>| #[trigger] is_boundary(*self, f) && f.len() == all.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] all[i]) == f[i].1);
    }
//@ before dedup_indices
    let ghost ordered = cells@;
    proof { lemma_occurs_same(ordered, all); }
//@ tail res: Vec<usize>
    proof {
        let f = choose|f: Seq<(Cell, usize, usize)>| #[trigger] is_boundary(*self, f) && f.len() == all.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] all[i]) == f[i].1;
        assert forall|c: int| occurs(res@, c) <==> has_lone_face(*self, c) by {
            if occurs(res@, c) {
                assert(occurs(ordered, c) && occurs(all, c));
                let i = choose|i: int| 0 <= i < all.len() && #[trigger] all[i] == c;
                assert(f[i].1 == c);
                assert(is_face(*self, c, f[i].2 as int) && lone(*self, c, f[i].2 as int));
            }
            if has_lone_face(*self, c) {
                let l = choose|l: int| #[trigger] is_face(*self, c, l) && lone(*self, c, l);
                assert(at(f, c, l));
                let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).1 == c && f[i].2 == l;
                assert(all[i] == c);
                assert(occurs(all, c) && occurs(ordered, c));
            }
        }
    }
//@ spec
    requires faces_before(*self, self.c().len() as int) < i32::MAX
    // in increasing order, each once, exactly the cells with a boundary face
    ensures increasing(r@), forall|c: int| occurs(r@, c) <==> has_lone_face(*self, c)
//@ done
//@ fn src/mesh.rs impl<T, D, C> Mesh<T, D, C> :: find_boundary_vertices
//@ subst indices.sort_unstable() => sort_indices(&mut indices)
//@ subst indices.dedup() => dedup_indices(&mut indices)
//@ subst indices.extend( => extend_indices(&mut indices, 
//@ subst for (connectivity, _, _) in => for (connectivity, a_, b_) in
//@ ret r
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires faces_before(*self, self.c().len() as int) < i32::MAX
    ensures increasing(r@), forall|v: int| occurs(r@, v) <==> on_lone_face(*self, v)
//@ loop 0 it
    invariant
        is_boundary(*self, it.seq()),
        forall|v: int| occurs(indices@, v) <==> named_by(it.seq(), it.index(), v),
//@ loop-start 0
    let ghost before = indices@;
    let ghost faces = it.seq();
    let ghost n = it.index();
//@ loop-end 0
    proof {
        let nodes = faces[n].0.nodes();
        assert(connectivity == faces[n].0);
        assert(indices@ == before + nodes);
        assert forall|v: int| occurs(indices@, v) <==> named_by(faces, n + 1, v) by {
            if occurs(indices@, v) {
                let k = choose|k: int| 0 <= k < indices@.len() && #[trigger] indices@[k] == v;
                if k < before.len() { 
                    assert(before[k] == v); assert(occurs(before, v)); assert(named_by(faces, n, v));
                    let j = choose|j: int| 0 <= j < n && occurs((#[trigger] faces[j]).0.nodes(), v);
                    assert(occurs(faces[j].0.nodes(), v));
                } else { assert(nodes[k - before.len()] == v); assert(occurs(faces[n].0.nodes(), v)); }
            }
            if named_by(faces, n + 1, v) {
                let j = choose|j: int| 0 <= j < n + 1 && occurs((#[trigger] faces[j]).0.nodes(), v);
                if j < n {
                    assert(named_by(faces, n, v)); assert(occurs(before, v));
                    let k = choose|k: int| 0 <= k < before.len() && #[trigger] before[k] == v;
                    assert(indices@[k] == v);
                } else {
                    let k = choose|k: int| 0 <= k < nodes.len() && #[trigger] nodes[k] == v;
                    assert(indices@[before.len() + k] == v);
                }
            }
        }
    }
//@ before sort_indices
    let ghost all = indices@;
    proof { assert(exists|f: Seq<(Cell, usize, usize)>| #[trigger] is_boundary(*self, f) && forall|v: int| occurs(all, v) <==> named_by(f, f.len() as int, v)); }
//@ before dedup_indices
    let ghost ordered = indices@;
    proof { lemma_occurs_same(ordered, all); }
//@ tail res: Vec<usize>
    proof {
        let f = choose|f: Seq<(Cell, usize, usize)>| #[trigger] is_boundary(*self, f) && forall|v: int| occurs(all, v) <==> named_by(f, f.len() as int, v);
        assert forall|v: int| occurs(res@, v) <==> on_lone_face(*self, v) by {
            if occurs(res@, v) {
                assert(occurs(ordered, v) && occurs(all, v) && named_by(f, f.len() as int, v));
                let j = choose|j: int| 0 <= j < f.len() && occurs((#[trigger] f[j]).0.nodes(), v);
                let c = f[j].1 as int; let l = f[j].2 as int;
                assert(is_face(*self, c, l) && lone(*self, c, l) && occurs(face(*self, c, l).nodes(), v));
            }
            if on_lone_face(*self, v) {
                let (c, l) = choose|c: int, l: int| #[trigger] is_face(*self, c, l) && lone(*self, c, l) && occurs(face(*self, c, l).nodes(), v);
                assert(at(f, c, l));
                let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j]).1 == c && f[j].2 == l;
                assert(f[j].0 == face(*self, c, l));
                assert(named_by(f, f.len() as int, v));
                assert(occurs(all, v) && occurs(ordered, v));
            }
        }
    }
//@ done
//@ fn src/mesh.rs impl<T, D, C> Mesh<T, D, C> :: extract_surface_mesh
//@ subst Mesh<T, D, C::FaceConnectivity> => Mesh
//@ subst let connectivity => let connectivity: Vec<Cell>
//@ subst Vec<_> => Vec<usize>
//@ ret r
//@ closure 0 (Cell, usize, usize) ; c: Cell
    ensures c == a0.0
//@ before let new_mesh
    let ghost faces = connectivity@;
    proof { assert(exists|f: Seq<(Cell, usize, usize)>| #[trigger] is_boundary(*self, f) && faces_of(f, faces)); }
//@ before let cells_to_keep
    proof {
        let f = choose|f: Seq<(Cell, usize, usize)>| #[trigger] is_boundary(*self, f) && faces_of(f, faces);
        assert forall|j: int, k: int| #![trigger new_mesh.c()[j].nodes()[k]] 0 <= j < new_mesh.c().len() && 0 <= k < new_mesh.c()[j].nodes().len() implies new_mesh.c()[j].nodes()[k] < new_mesh.v().len() by {
            let c = f[j].1 as int; let l = f[j].2 as int;
            assert(new_mesh.c()[j] == face(*self, c, l));
            assert(face(*self, c, l).nodes()[k] < self.v().len());
        }
        assert(new_mesh.v() =~= self.v());
    }
//@ tail res: Mesh
    proof {
        let f = choose|f: Seq<(Cell, usize, usize)>| #[trigger] is_boundary(*self, f) && faces_of(f, faces);
        let all = cells_to_keep@;
        let kept = choose|kept: Seq<usize>| #[trigger] kept_cells(new_mesh, all, res, kept);
        assert(surface_of(*self, f, res, kept)) by {
            assert forall|v: int| #[trigger] occurs(kept, v) <==> named_by(f, f.len() as int, v) by {
                if occurs(kept, v) {
                    let j = choose|j: int| 0 <= j < all.len() && occurs((#[trigger] new_mesh.c()[all[j] as int]).nodes(), v);
                    assert(f[j].0 == new_mesh.c()[all[j] as int]);
                }
                if named_by(f, f.len() as int, v) {
                    let j = choose|j: int| 0 <= j < f.len() && occurs((#[trigger] f[j]).0.nodes(), v);
                    assert(all[j] == j);
                    assert(new_mesh.c()[all[j] as int] == f[j].0);
                    assert(names(new_mesh.c(), all, all.len() as int, v));
                }
            }
            assert forall|j: int| 0 <= j < f.len() implies renamed((#[trigger] res.c()[j]).nodes(), f[j].0.nodes(), kept) by { assert(all[j] == j); assert(faces[j] == f[j].0); }
        }
    }
//@ spec
    requires
        faces_before(*self, self.c().len() as int) < i32::MAX,
        forall|c: int, l: int, k: int| #![trigger face(*self, c, l).nodes()[k]] is_face(*self, c, l) && 0 <= k < face(*self, c, l).nodes().len() ==> face(*self, c, l).nodes()[k] < self.v().len()
    // its cells are the boundary faces with their vertices in their order, its vertices those of the boundary
    ensures exists|f: Seq<(Cell, usize, usize)>, kept: Seq<usize>| is_boundary(*self, f) && #[trigger] surface_of(*self, f, r, kept)
//@ done
//@ fn src/mesh.rs impl<T, D, C> Mesh<T, D, C> :: transform_vertices
//@ subst <F> => <F: FnMut(&mut Point)>
//@ subst where F: FnMut(&mut OPoint<T, D>), =>
//@ subst in &mut self.vertices => in self.vertices.iter_mut()
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires forall|g: F, p: &mut Point| call_requires(g, (p,))
    // the cells stay, and every vertex becomes what a call for it makes of it
    ensures final(self).c() == old(self).c(), final(self).v().len() == old(self).v().len(),
        forall|i: int| 0 <= i < old(self).v().len() ==> transformed::<F>(old(self).v()[i], #[trigger] final(self).v()[i])
//@ before for p in
    let ghost points = self.v();
//@ loop 0 it
    invariant
        it.seq().len() == points.len(),
        forall|i: int| 0 <= i < points.len() ==> *(#[trigger] it.seq()[i]) == points[i],
        forall|i: int| 0 <= i < it.index() ==> transformed::<F>(points[i], *final(#[trigger] it.seq()[i])),
//@ loop-start 0
    let ghost n = it.index();
    proof { assert(*p == points[n]); }
//@ done
}
fn main() {}
}
