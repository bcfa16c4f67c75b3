// A vertex (`OPoint<T, D>`): nothing is assumed of it, only that a clone is the same value
#[verifier::external_body]
pub struct Point { x: u64 }
impl Clone for Point {
    #[verifier::external_body]
    fn clone(&self) -> (r: Point) ensures r == *self { unimplemented!() }
}
pub struct PolyMesh { pub vertices: Vec<Point>, pub faces: NestedVec<usize>, pub cells: NestedVec<usize> }

// a hash map of indices
#[verifier::external_body]
pub struct IndexMap { x: Vec<usize> }
impl IndexMap {
    pub uninterp spec fn map(&self) -> Map<usize, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: IndexMap) ensures r.map() == Map::<usize, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: usize) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&usize>)
        ensures r.is_some() == self.map().contains_key(*k), r matches Some(v) ==> *v == self.map()[*k] { unimplemented!() }
}
pub open spec fn increasing(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]) < (#[trigger] s[j]) }
pub open spec fn occurs(s: Seq<usize>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == v }
// `s.iter().enumerate()`, as the sequence it yields
#[verifier::external_body]
pub fn enumerated<'a, T>(s: &'a [T]) -> (r: Vec<(usize, &'a T)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i]
{ s.iter().enumerate().collect() }
// increasing lists of the same indices are the same
pub proof fn lemma_same(a: Seq<usize>, b: Seq<usize>)
    requires increasing(a), increasing(b), forall|v: int| occurs(a, v) <==> occurs(b, v)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(occurs(b, b[0] as int)); assert(occurs(a, b[0] as int)); }
        assert(a =~= b);
    } else if b.len() == 0 { assert(occurs(a, a[0] as int)); assert(occurs(b, a[0] as int)); }
    else {
        let x = a.last(); let y = b.last();
        assert(occurs(b, x as int)) by { assert(a[a.len() - 1] == x); assert(occurs(a, x as int)); }
        assert(occurs(a, y as int)) by { assert(b[b.len() - 1] == y); assert(occurs(b, y as int)); }
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == y;
        assert(x <= y) by { if i < b.len() - 1 { assert(b[i] < b[b.len() - 1]); } }
        assert(y <= x) by { if j < a.len() - 1 { assert(a[j] < a[a.len() - 1]); } }
        assert forall|v: int| occurs(a.drop_last(), v) implies occurs(b.drop_last(), v) by {
            let k = choose|k: int| 0 <= k < a.drop_last().len() && #[trigger] a.drop_last()[k] == v;
            assert(a[k] == v); assert(occurs(a, v)); assert(occurs(b, v));
            let l = choose|l: int| 0 <= l < b.len() && #[trigger] b[l] == v;
            assert(a[k] < a[a.len() - 1]);
            assert(b.drop_last()[l] == v);
        }
        assert forall|v: int| occurs(b.drop_last(), v) implies occurs(a.drop_last(), v) by {
            let k = choose|k: int| 0 <= k < b.drop_last().len() && #[trigger] b.drop_last()[k] == v;
            assert(b[k] == v); assert(occurs(b, v)); assert(occurs(a, v));
            let l = choose|l: int| 0 <= l < a.len() && #[trigger] a[l] == v;
            assert(b[k] < b[b.len() - 1]);
            assert(a.drop_last()[l] == v);
        }
        lemma_same(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(x));
        assert(b =~= b.drop_last().push(y));
    }
}

#[verifier::external_body]
pub fn sort_slice(v: &mut [usize])
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(), sorted(final(v)@)
{ v.sort_unstable() }
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]) <= (#[trigger] s[j]) }
// sorted lists are equal exactly if they are rearrangements of each other
pub proof fn lemma_sorted_same(a: Seq<usize>, b: Seq<usize>)
    requires sorted(a), sorted(b), a.to_multiset() == b.to_multiset()
    ensures a == b
    decreases a.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(a.len() == b.len());
    if a.len() == 0 { assert(a =~= b); } else {
        let x = a.last(); let y = b.last();
        assert(a.contains(y)) by { assert(b.contains(y)); assert(b.to_multiset().count(y) > 0); }
        assert(b.contains(x)) by { assert(a.contains(x)); assert(a.to_multiset().count(x) > 0); }
        let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        assert(a[i] <= a[a.len() - 1]);
        assert(b[j] <= b[b.len() - 1]);
        assert(x == y);
        assert(a =~= a.drop_last().push(x));
        assert(b =~= b.drop_last().push(y));
        a.drop_last().to_multiset_ensures();
        b.drop_last().to_multiset_ensures();
        assert(a.drop_last().to_multiset() =~= a.to_multiset().remove(x));
        assert(b.drop_last().to_multiset() =~= b.to_multiset().remove(x));
        lemma_sorted_same(a.drop_last(), b.drop_last());
    }
}
// `it.enumerate()` for an iterator over arrays
#[verifier::external_body]
pub fn enumerated_arrays<'a, I: Iterator<Item = &'a [usize]>>(it: I) -> (r: Vec<(usize, &'a [usize])>)
    requires it.obeys_prophetic_iter_laws()
    ensures it.will_return_none(), r@.len() == it.remaining().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1@ == it.remaining()[i]@
{ it.enumerate().collect() }
// an iterator over arrays, run to its end
#[verifier::external_body]
pub fn collected<'a, I: Iterator<Item = &'a [usize]>>(it: I) -> (r: Vec<&'a [usize]>)
    requires it.obeys_prophetic_iter_laws()
    ensures it.will_return_none(), r@ == it.remaining()
{ it.collect() }
// `v.into_iter().enumerate()`
#[verifier::external_body]
pub fn numbered(v: Vec<i32>) -> (r: Vec<(usize, i32)>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i]
{ v.into_iter().enumerate().collect() }
// `a.iter_array_elements().any(f)`
#[verifier::external_body]
pub fn any_element<F: FnMut(&usize) -> bool>(a: &NestedVec<usize>, f: F) -> (r: bool)
    requires a.wf(), forall|i: int, k: int| #![trigger a@[i][k]] 0 <= i < a@.len() && 0 <= k < a@[i].len() ==> call_requires(f, (&a@[i][k],))
    ensures
        r ==> exists|i: int, k: int| #![trigger a@[i][k]] 0 <= i < a@.len() && 0 <= k < a@[i].len() && call_ensures(f, (&a@[i][k],), true),
        !r ==> forall|i: int, k: int| #![trigger a@[i][k]] 0 <= i < a@.len() && 0 <= k < a@[i].len() ==> call_ensures(f, (&a@[i][k],), false),
{ unimplemented!() }

// every entry of every array is less than n
pub open spec fn below(a: Seq<Seq<usize>>, n: int) -> bool { forall|i: int, k: int| #![trigger a[i][k]] 0 <= i < a.len() && 0 <= k < a[i].len() ==> a[i][k] < n }
// the entry for cell ci, once for each time one of its first k faces is f
pub open spec fn entries(cell: Seq<usize>, f: int, ci: int, k: int) -> Seq<usize> decreases k {
    if k <= 0 { Seq::empty() } else if cell[k - 1] == f { entries(cell, f, ci, k - 1).push(ci as usize) } else { entries(cell, f, ci, k - 1) }
}
// the cells of face f among the first n, in order
pub open spec fn cells_of(cells: Seq<Seq<usize>>, f: int, n: int) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else { cells_of(cells, f, n - 1) + entries(cells[n - 1], f, n - 1, cells[n - 1].len() as int) }
}
pub proof fn lemma_entries(cell: Seq<usize>, f: int, ci: int, k: int)
    requires 0 <= k <= cell.len(), 0 <= ci <= usize::MAX
    ensures forall|x: int| #[trigger] occurs(entries(cell, f, ci, k), x) <==> x == ci && exists|j: int| 0 <= j < k && #[trigger] cell[j] == f
    decreases k
{
    if k > 0 {
        lemma_entries(cell, f, ci, k - 1);
        let e = entries(cell, f, ci, k - 1);
        assert forall|x: int| #[trigger] occurs(entries(cell, f, ci, k), x) <==> x == ci && exists|j: int| 0 <= j < k && #[trigger] cell[j] == f by {
            if cell[k - 1] == f {
                if occurs(e.push(ci as usize), x) {
                    let i = choose|i: int| 0 <= i < e.push(ci as usize).len() && #[trigger] e.push(ci as usize)[i] == x;
                    if i < e.len() { assert(e[i] == x); assert(occurs(e, x)); } else { assert(cell[k - 1] == f); }
                }
                if x == ci { assert(e.push(ci as usize)[e.len() as int] == x); }
            }
            if x == ci && exists|j: int| 0 <= j < k && #[trigger] cell[j] == f {
                let j = choose|j: int| 0 <= j < k && #[trigger] cell[j] == f;
                if j < k - 1 { assert(cell[j] == f); assert(occurs(e, x)); 
                    if cell[k - 1] == f { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == x; assert(e.push(ci as usize)[i] == x); }
                }
            }
        }
    }
}
// the list names exactly the cells with that face
pub proof fn lemma_cells_of(cells: Seq<Seq<usize>>, f: int, n: int)
    requires 0 <= n <= cells.len(), n <= usize::MAX
    ensures forall|c: int| #[trigger] occurs(cells_of(cells, f, n), c) <==> 0 <= c < n && occurs(cells[c], f)
    decreases n
{
    if n > 0 {
        lemma_cells_of(cells, f, n - 1);
        lemma_entries(cells[n - 1], f, n - 1, cells[n - 1].len() as int);
        let a = cells_of(cells, f, n - 1); let b = entries(cells[n - 1], f, n - 1, cells[n - 1].len() as int);
        assert forall|c: int| #[trigger] occurs(a + b, c) <==> 0 <= c < n && occurs(cells[c], f) by {
            if occurs(a + b, c) {
                let i = choose|i: int| 0 <= i < (a + b).len() && #[trigger] (a + b)[i] == c;
                if i < a.len() { assert(a[i] == c); assert(occurs(a, c)); } else { assert(b[i - a.len()] == c); assert(occurs(b, c)); }
            }
            if occurs(a, c) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == c; assert((a + b)[i] == c); }
            if occurs(b, c) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == c; assert((a + b)[a.len() + i] == c); }
            if 0 <= c < n && occurs(cells[c], f) {
                if c < n - 1 { assert(occurs(a, c)); } else { 
                    let j = choose|j: int| 0 <= j < cells[c].len() && #[trigger] cells[c][j] == f; assert(occurs(b, c)); }
            }
        }
    }
}
pub proof fn lemma_cells_of_grow(cells: Seq<Seq<usize>>, f: int, m: int, n: int)
    requires m <= n
    ensures cells_of(cells, f, m).len() <= cells_of(cells, f, n).len()
    decreases n - m
{ if m < n { lemma_cells_of_grow(cells, f, m, n - 1); } }
pub proof fn lemma_entries_grow(cell: Seq<usize>, f: int, ci: int, j: int, k: int)
    requires j <= k
    ensures entries(cell, f, ci, j).len() <= entries(cell, f, ci, k).len()
    decreases k - j
{ if j < k { lemma_entries_grow(cell, f, ci, j, k - 1); } }

// `s.into_iter().filter_map(f).collect()`: the values, in order, where f gives one
pub open spec fn chosen<A, F: FnMut(A) -> Option<usize>>(s: Seq<A>, f: F, r: Seq<usize>, pos: Seq<usize>) -> bool {
    &&& pos.len() == r.len() && increasing(pos)
    &&& forall|k: int| #![trigger pos[k]] #![trigger r[k]] 0 <= k < pos.len() ==> pos[k] < s.len() && call_ensures(f, (s[pos[k] as int],), Some(r[k]))
    &&& forall|i: int| #![trigger s[i]] #![trigger occurs(pos, i)] 0 <= i < s.len() ==> occurs(pos, i) || call_ensures(f, (s[i],), None)
}
#[verifier::external_body]
pub fn filter_mapped<A, F: FnMut(A) -> Option<usize>>(s: Vec<A>, f: F) -> (r: Vec<usize>)
    requires forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> call_requires(f, (s@[i],))
    ensures exists|pos: Seq<usize>| #[trigger] chosen(s@, f, r@, pos)
{ unimplemented!() }
// a hash map from lists of indices to indices
#[verifier::external_body]
pub struct SliceMap<'a> { x: Vec<&'a [usize]> }
impl<'a> SliceMap<'a> {
    pub uninterp spec fn map(&self) -> Map<Seq<usize>, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: SliceMap<'a>) ensures r.map() == Map::<Seq<usize>, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'a [usize], v: usize) ensures final(self).map() == old(self).map().insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &[usize]) -> (r: Option<&usize>)
        ensures r.is_some() == self.map().contains_key(k@), r matches Some(v) ==> *v == self.map()[k@] { unimplemented!() }
}
pub open spec fn same_nodes(a: Seq<usize>, b: Seq<usize>) -> bool { a.to_multiset() == b.to_multiset() }
pub open spec fn sorted_copy(s: Seq<usize>, of: Seq<usize>) -> bool { sorted(s) && same_nodes(s, of) }
// `first[j]` is where face j of the result comes from, `label[f]` what face f of the mesh has become
pub open spec fn deduplicated(old_faces: Seq<Seq<usize>>, new_faces: Seq<Seq<usize>>, first: Seq<int>, label: Seq<usize>) -> bool {
    &&& first.len() == new_faces.len()
    &&& forall|j: int| #![trigger new_faces[j]] #![trigger first[j]] 0 <= j < first.len() ==> 0 <= first[j] < label.len() && new_faces[j] == old_faces[first[j]] && label[first[j]] == j
    &&& forall|f: int| #![trigger label[f]] 0 <= f < label.len() ==> label[f] < new_faces.len() && same_nodes(old_faces[f], new_faces[label[f] as int])
    &&& forall|f: int, g: int| #![trigger label[f], label[g]] 0 <= f < label.len() && 0 <= g < label.len() && same_nodes(old_faces[f], old_faces[g]) ==> label[f] == label[g]
}
pub open spec fn relabelled(old_cell: Seq<usize>, new_cell: Seq<usize>, label: Seq<usize>) -> bool {
    new_cell.len() == old_cell.len() && forall|k: int| 0 <= k < old_cell.len() ==> #[trigger] new_cell[k] == label[old_cell[k] as int]
}
pub open spec fn deduplicates(before: PolyMesh, after: PolyMesh, first: Seq<int>, label: Seq<usize>) -> bool {
    &&& after.vertices == before.vertices && label.len() == before.faces@.len()
    &&& deduplicated(before.faces@, after.faces@, first, label)
    &&& after.cells@.len() == before.cells@.len()
    &&& forall|c: int| #![trigger after.cells@[c]] 0 <= c < after.cells@.len() ==> relabelled(before.cells@[c], after.cells@[c], label)
}

// `s.iter().flat_map(f)` into an ordered set: the increasing list of everything f gives
pub open spec fn given<'b, F: FnMut(&usize) -> &'b [usize]>(s: Seq<usize>, f: F, v: int) -> bool {
    exists|i: int, out: &'b [usize]| #![trigger call_ensures(f, (&s[i],), out)] 0 <= i < s.len() && call_ensures(f, (&s[i],), out) && occurs(out@, v)
}
pub open spec fn part_of(out: Seq<usize>, r: Seq<usize>) -> bool { forall|k: int| 0 <= k < out.len() ==> occurs(r, #[trigger] out[k] as int) }
#[verifier::external_body]
pub fn flat_set<'b, F: FnMut(&usize) -> &'b [usize]>(s: &[usize], f: F) -> (r: Vec<usize>)
    requires forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> call_requires(f, (&s@[i],))
    ensures increasing(r@),
        forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> exists|out: &'b [usize]| #[trigger] call_ensures(f, (&s@[i],), out) && part_of(out@, r@),
        forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> exists|i: int, out: &'b [usize]| #![trigger call_ensures(f, (&s@[i],), out)] 0 <= i < s@.len() && call_ensures(f, (&s@[i],), out) && occurs(out@, r@[k] as int),
{ unimplemented!() }
pub open spec fn made_from(map: Map<usize, usize>, s: Seq<(usize, usize)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> map.contains_key((#[trigger] s[i]).0) && map[s[i].0] == s[i].1
}
// `m.into_iter().collect()` into a hash map, for distinct keys
#[verifier::external_body]
pub fn to_index_map(s: Vec<(usize, usize)>) -> (r: IndexMap)
    requires forall|i: int, j: int| 0 <= i < j < s@.len() ==> (#[trigger] s@[i]).0 != (#[trigger] s@[j]).0
    ensures made_from(r.map(), s@)
{ unimplemented!() }
// one of the arrays named by `which` has the entry v
pub open spec fn named(a: Seq<Seq<usize>>, which: Seq<usize>, v: int) -> bool { exists|i: int| 0 <= i < which.len() && occurs(a[#[trigger] which[i] as int], v) }
pub open spec fn renamed(new: Seq<usize>, old: Seq<usize>, kept: Seq<usize>) -> bool {
    new.len() == old.len() && forall|k: int| 0 <= k < new.len() ==> (#[trigger] new[k]) < kept.len() && kept[new[k] as int] == old[k]
}
// `kept` lists, in order and once each, the entries of the arrays named by `which`
#[verifier::opaque]
pub open spec fn gathered(a: Seq<Seq<usize>>, which: Seq<usize>, kept: Seq<usize>) -> bool {
    increasing(kept) && forall|v: int| #[trigger] occurs(kept, v) <==> named(a, which, v)
}
pub proof fn lemma_gathered(a: Seq<Seq<usize>>, which: Seq<usize>, kept: Seq<usize>, n: int)
    requires increasing(kept), below(a, n), forall|i: int| 0 <= i < which.len() ==> (#[trigger] which[i]) < a.len() && part_of(a[which[i] as int], kept),
        forall|k: int| 0 <= k < kept.len() ==> named(a, which, #[trigger] kept[k] as int),
    ensures gathered(a, which, kept), forall|k: int| 0 <= k < kept.len() ==> (#[trigger] kept[k]) < n
{
    assert forall|v: int| #[trigger] occurs(kept, v) <==> named(a, which, v) by {
        if occurs(kept, v) { let k = choose|k: int| 0 <= k < kept.len() && #[trigger] kept[k] == v; assert(named(a, which, kept[k] as int)); }
        if named(a, which, v) {
            let i = choose|i: int| 0 <= i < which.len() && occurs(a[#[trigger] which[i] as int], v);
            assert(part_of(a[which[i] as int], kept));
            let k = choose|k: int| 0 <= k < a[which[i] as int].len() && #[trigger] a[which[i] as int][k] == v;
            assert(occurs(kept, a[which[i] as int][k] as int));
        }
    }
    assert forall|k: int| 0 <= k < kept.len() implies (#[trigger] kept[k]) < n by {
        assert(named(a, which, kept[k] as int));
        let i = choose|i: int| 0 <= i < which.len() && occurs(a[#[trigger] which[i] as int], kept[k] as int);
        let l = choose|l: int| 0 <= l < a[which[i] as int].len() && #[trigger] a[which[i] as int][l] == kept[k];
        assert(a[which[i] as int][l] < n);
    }
    reveal(gathered);
}
pub proof fn lemma_placed(a: Seq<Seq<usize>>, which: Seq<usize>, kept: Seq<usize>, map: Map<usize, usize>, i: int, k: int)
    requires gathered(a, which, kept), places(map, kept), 0 <= i < which.len(), 0 <= k < a[which[i] as int].len()
    ensures map.contains_key(a[which[i] as int][k]), map[a[which[i] as int][k]] < kept.len(), kept[map[a[which[i] as int][k]] as int] == a[which[i] as int][k]
{
    reveal(gathered);
    let v = a[which[i] as int][k];
    assert(occurs(a[which[i] as int], v as int));
    assert(named(a, which, v as int));
    assert(occurs(kept, v as int));
    let p = choose|p: int| 0 <= p < kept.len() && #[trigger] kept[p] == v;
    assert(map.contains_key(kept[p]));
}
// every label is the place of its index among those kept
pub open spec fn places(map: Map<usize, usize>, kept: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < kept.len() ==> map.contains_key(#[trigger] kept[i]) && map[kept[i]] == i
}
pub open spec fn selected(a: Seq<Seq<usize>>, which: Seq<usize>, kept: Seq<usize>, r: Seq<Seq<usize>>, n: int) -> bool {
    r.len() == n && forall|i: int| #![trigger r[i]] #![trigger which[i]] 0 <= i < n ==> renamed(r[i], a[which[i] as int], kept)
}
pub open spec fn keeps(m: PolyMesh, cells: Seq<usize>, r: PolyMesh, faces: Seq<usize>, vertices: Seq<usize>) -> bool {
    // the faces the cells have and the vertices those have, in their order, and nothing else
    &&& increasing(faces) && increasing(vertices)
    &&& forall|f: int| #[trigger] occurs(faces, f) <==> named(m.cells@, cells, f)
    &&& forall|v: int| #[trigger] occurs(vertices, v) <==> named(m.faces@, faces, v)
    &&& r.vertices@.len() == vertices.len() && forall|k: int| 0 <= k < vertices.len() ==> #[trigger] r.vertices@[k] == m.vertices@[vertices[k] as int]
    &&& selected(m.faces@, faces, vertices, r.faces@, faces.len() as int)
    &&& selected(m.cells@, cells, faces, r.cells@, cells.len() as int)
}
pub proof fn lemma_below(a: Seq<Seq<usize>>, which: Seq<usize>, kept: Seq<usize>, r: Seq<Seq<usize>>)
    requires selected(a, which, kept, r, which.len() as int)
    ensures below(r, kept.len() as int)
{
    assert forall|i: int, k: int| #![trigger r[i][k]] 0 <= i < r.len() && 0 <= k < r[i].len() implies r[i][k] < kept.len() by { assert(renamed(r[i], a[which[i] as int], kept)); }
}

impl PolyMesh {
    pub open spec fn wf(&self) -> bool {
        self.faces.wf() && self.cells.wf() && below(self.faces@, self.vertices@.len() as int) && below(self.cells@, self.faces@.len() as int)
    }
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: from_poly_data
//@ subst Vec<OPoint<T, D>> => Vec<Point>
//@ subst faces.iter_array_elements().any( => any_element(&faces, 
//@ subst cells.iter_array_elements().any( => any_element(&cells, 
//@ ret r
//@ closures 2
//@ closure 0 &usize ; b: bool
    ensures b == (*a0 >= num_vertices)
//@ closure 1 &usize ; b: bool
    ensures b == (*a0 >= num_faces)
//@ spec
    requires faces.wf(), cells.wf(), below(faces@, vertices@.len() as int), below(cells@, faces@.len() as int)
    ensures r.vertices == vertices, r.faces == faces, r.cells == cells, r.wf()
//@ done
// whatever it is given, the mesh it returns names only vertices and faces there are
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: from_poly_data
//@ rename from_any_poly_data
//@ may-panic
//@ subst Vec<OPoint<T, D>> => Vec<Point>
//@ subst faces.iter_array_elements().any( => any_element(&faces, 
//@ subst cells.iter_array_elements().any( => any_element(&cells, 
//@ ret r
//@ closures 2
//@ closure 0 &usize ; b: bool
    ensures b == (*a0 >= num_vertices)
//@ closure 1 &usize ; b: bool
    ensures b == (*a0 >= num_faces)
//@ spec
    requires faces.wf(), cells.wf()
    ensures r.vertices == vertices, r.faces == faces, r.cells == cells, r.wf()
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: vertices
//@ subst &[OPoint<T, D>] => &[Point]
//@ ret r
//@ spec
    ensures r@ == self.vertices@
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: num_faces
//@ ret r
//@ spec
    ensures r == self.faces@.len()
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: num_cells
//@ ret r
//@ spec
    ensures r == self.cells@.len()
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: get_face_connectivity
//@ ret r
//@ spec
    requires self.faces.wf()
    ensures r.is_some() == (index < self.faces@.len()), r.is_some() ==> r.unwrap()@ == self.faces@[index as int]
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: get_cell_connectivity
//@ ret r
//@ spec
    requires self.cells.wf()
    ensures r.is_some() == (index < self.cells@.len()), r.is_some() ==> r.unwrap()@ == self.cells@[index as int]
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: face_connectivity_iter
//@ ret r
//@ spec
    requires self.faces.wf()
    ensures r.obeys_prophetic_iter_laws(), r.remaining().len() <= self.faces@.len(), r.will_return_none() ==> r.remaining().len() == self.faces@.len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == self.faces@[i],
        r.decrease().is_some(),
//@ done
//@ fn fenris-geometry/src/polymesh.rs impl<T, D> PolyMesh<T, D> :: cell_connectivity_iter
//@ ret r
//@ spec
    requires self.cells.wf()
    ensures r.obeys_prophetic_iter_laws(), r.remaining().len() <= self.cells@.len(), r.will_return_none() ==> r.remaining().len() == self.cells@.len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == self.cells@[i],
        r.decrease().is_some(),
//@ done
}
