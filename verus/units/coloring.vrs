use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ops::Range;
use std::cmp::max;
use std::mem;
use std::collections::HashSet;
verus! {
//@ include std_inc.vrs
//@ include nested_vec_inc.vrs
//@ struct fenris-paradis/src/lib.rs DisjointSubsets plain
pub broadcast proof fn lemma_all_taken(s: Seq<&usize>, m: int, x: usize)
    ensures m == s.len() ==> #[trigger] s.take(m).unref().contains(x) == s.unref().to_set().contains(x)
{
    if m == s.len() { assert(s.take(m) =~= s); }
}
pub proof fn lemma_fresh(s: Seq<&usize>, m: int)
    requires s.no_duplicates(), 0 <= m < s.len()
    ensures !s.take(m).unref().contains(*s[m])
{
    if s.take(m).unref().contains(*s[m]) {
        let i = choose|i: int| 0 <= i < m && s.take(m).unref()[i] == *s[m];
        assert(s[i] == s[m]);
    }
}
pub proof fn lemma_next_part(parts0: Seq<Seq<usize>>, part: Seq<usize>, set0: Set<usize>, set: Set<usize>, max0: Option<usize>, max: Option<usize>, parts: Seq<Seq<usize>>)
    requires
        parts == parts0.push(part), covers(set0, parts0), disjoint(parts0), is_largest(parts0, max0), larger(max0, part, max),
        forall|x: usize| #[trigger] set.contains(x) == (set0.contains(x) || part.contains(x)),
        forall|x: usize| #[trigger] part.contains(x) ==> !set0.contains(x),
    ensures covers(set, parts), disjoint(parts), is_largest(parts, max)
{
    let n = parts0.len() as int;
    assert(parts[n] == part);
    assert forall|x: usize| #[trigger] set.contains(x) == exists|k: int, a: int| 0 <= k < parts.len() && 0 <= a < parts[k].len() && #[trigger] parts[k][a] == x by {
        if set0.contains(x) {
            let (k, a) = choose|k: int, a: int| 0 <= k < parts0.len() && 0 <= a < parts0[k].len() && #[trigger] parts0[k][a] == x;
            assert(parts[k][a] == x);
        }
        if part.contains(x) { let a = choose|a: int| 0 <= a < part.len() && part[a] == x; assert(parts[n][a] == x); }
        if exists|k: int, a: int| 0 <= k < parts.len() && 0 <= a < parts[k].len() && #[trigger] parts[k][a] == x {
            let (k, a) = choose|k: int, a: int| 0 <= k < parts.len() && 0 <= a < parts[k].len() && #[trigger] parts[k][a] == x;
            if k < n { assert(parts0[k][a] == x); } else { assert(part[a] == x); }
        }
    }
    assert forall|k: int, l: int, a: int, b: int| 0 <= k < parts.len() && 0 <= l < parts.len() && k != l && 0 <= a < parts[k].len() && 0 <= b < parts[l].len()
        implies #[trigger] parts[k][a] != #[trigger] parts[l][b] by {
        if k < n { assert(parts0[k][a] == parts[k][a]); assert(set0.contains(parts[k][a])); } else { assert(part.contains(part[a])); }
        if l < n { assert(parts0[l][b] == parts[l][b]); assert(set0.contains(parts[l][b])); } else { assert(part.contains(part[b])); }
    }
    lemma_largest(parts0, part, max0, max, parts);
}
pub proof fn lemma_largest(parts0: Seq<Seq<usize>>, part: Seq<usize>, max0: Option<usize>, max: Option<usize>, parts: Seq<Seq<usize>>)
    requires is_largest(parts0, max0), larger(max0, part, max), parts.len() == parts0.len() + 1, parts.last() == part,
        forall|k: int| 0 <= k < parts0.len() ==> #[trigger] parts[k] == parts0[k],
    ensures is_largest(parts, max)
{
    let n = parts0.len() as int;
    assert(parts[n] == part);
    if max.is_none() {
        assert(part.len() == 0);
        assert forall|k: int| 0 <= k < parts.len() implies (#[trigger] parts[k]).len() == 0 by { if k < n { assert(parts0[k].len() == 0); } }
    } else {
        if max == max0 {
            let (k, a) = choose|k: int, a: int| 0 <= k < parts0.len() && 0 <= a < parts0[k].len() && #[trigger] parts0[k][a] == max0.unwrap();
            assert(parts[k][a] == max.unwrap());
        } else {
            let i = choose|i: int| 0 <= i < part.len() && #[trigger] part[i] == max.unwrap();
            assert(parts[n][i] == max.unwrap());
        }
        assert forall|k: int, a: int| 0 <= k < parts.len() && 0 <= a < parts[k].len() implies #[trigger] parts[k][a] <= max.unwrap() by {
            if k < n { assert(parts[k] == parts0[k]); assert(parts0[k].len() > 0); assert(parts0[k][a] <= max0.unwrap()); } else { assert(parts[k][a] == part[a]); }
        }
    }
}
//@ struct fenris-paradis/src/lib.rs SubsetsNotDisjointError
// the set of the indices that occur
pub open spec fn covers(set: Set<usize>, parts: Seq<Seq<usize>>) -> bool {
    forall|x: usize| #[trigger] set.contains(x) == exists|k: int, a: int| 0 <= k < parts.len() && 0 <= a < parts[k].len() && #[trigger] parts[k][a] == x
}
impl DisjointSubsets {
    pub closed spec fn parts(&self) -> Seq<Seq<usize>> { self.subsets@ }
    pub closed spec fn names(&self) -> Seq<usize> { self.labels@ }
    pub closed spec fn largest(&self) -> Option<usize> { self.max_index }
    pub closed spec fn shaped(&self) -> bool { self.subsets.wf() && self.parts().len() == self.names().len() }
//@ fn fenris-paradis/src/lib.rs impl DisjointSubsets :: from_disjoint_subsets_unchecked
//@ subst <Subsets: Into<NestedVec<usize>>> =>
//@ subst subsets.into() => subsets
//@ subst subsets: Subsets => subsets: NestedVec<usize>
//@ ret r
//@ spec
    requires subsets.wf(), subsets@.len() == labels@.len()
    ensures r.shaped(), r.parts() == subsets@, r.names() == labels@, r.largest() == max_index
//@ done
//@ fn fenris-paradis/src/lib.rs impl DisjointSubsets :: try_from_disjoint_subsets
//@ subst <Subsets: Into<NestedVec<usize>>> =>
//@ subst subsets.into() => subsets
//@ subst subsets: Subsets => subsets: NestedVec<usize>
//@ subst in &local_index_set => in local_index_set.iter()
//@ may-panic
//@ loops 3
//@ attr
#[verifier::loop_isolation(false)]
//@ ret r
//@ spec
    requires subsets.wf()
    ensures
        subsets@.len() == labels@.len(),
        r.is_ok() == disjoint(subsets@),
        r matches Ok(d) ==> d.shaped() && d.parts() == subsets@ && d.names() == labels@ && is_largest(subsets@, d.largest()),
//@ start
    broadcast use {max_usize, lemma_all_taken, vstd::std_specs::hash::group_hash_axioms};
//@ loop 0 it
    invariant
        it.iter.obeys_prophetic_iter_laws(),
        it.seq().len() <= subsets@.len(),
        it.snapshot@.will_return_none() ==> it.seq().len() == subsets@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == subsets@[i],
        covers(global_index_set@, subsets@.take(it.index() as int)),
        disjoint(subsets@.take(it.index() as int)),
        is_largest(subsets@.take(it.index() as int), max_index),
//@ loop-start 0
            let ghost j = it.index() as int;
            let ghost global0 = global_index_set@;
            let ghost max0 = max_index;
            proof { assert(subset@ == subsets@[j]); }
//@ loop 1 jt
            invariant
                jt.seq() == subset@.as_ref(),
                larger(max0, subset@.take(jt.index() as int), max_index),
                forall|x: usize| #[trigger] local_index_set@.contains(x) == subset@.take(jt.index() as int).contains(x),
//@ loop-start 1
                let ghost max1 = max_index;
                proof {
                    assert(subset@.take(jt.index() + 1) =~= subset@.take(jt.index() as int).push(*idx));
                    lemma_push(subset@.take(jt.index() as int), *idx);
                }
//@ loop-end 1
                proof { lemma_larger(max0, subset@.take(jt.index() as int), max1, *idx, max_index); }
//@ loop-after 1
            proof { assert(subset@.take(subset@.len() as int) =~= subset@); }
//@ loop 2 kt
            invariant
                kt.seq().no_duplicates(),
                kt.seq().unref().to_set() == local_index_set@,
                forall|x: usize| #[trigger] global_index_set@.contains(x) == (global0.contains(x) || kt.seq().take(kt.index() as int).unref().contains(x)),
                forall|x: usize| #![trigger global0.contains(x)] #![trigger kt.seq().take(kt.index() as int).unref().contains(x)]
                    kt.seq().take(kt.index() as int).unref().contains(x) ==> !global0.contains(x),
//@ loop-start 2
                let ghost m = kt.index() as int;
                let ghost global1 = global_index_set@;
                proof {
                    assert(kt.seq().take(m + 1).unref() =~= kt.seq().take(m).unref().push(*idx));
                    lemma_push(kt.seq().take(m).unref(), *idx);
                    assert(kt.seq().unref()[m] == *idx);
                    assert(local_index_set@.contains(*idx));
                    assert(subset@.contains(*idx));
                    lemma_fresh(kt.seq(), m);
                }
//@ before return Err
                    proof {
                        assert(global0.contains(*idx));
                        let (k, a) = choose|k: int, a: int| 0 <= k < subsets@.take(j).len() && 0 <= a < subsets@.take(j)[k].len() && #[trigger] subsets@.take(j)[k][a] == *idx;
                        let b = choose|b: int| 0 <= b < subset@.len() && subset@[b] == *idx;
                        assert(subsets@[k][a] == *idx && subsets@[j][b] == *idx);
                        assert(!disjoint(subsets@));
                    }
//@ loop-after 2
            proof {
                assert(subsets@.take(j + 1) =~= subsets@.take(j).push(subsets@[j]));
                lemma_next_part(subsets@.take(j), subsets@[j], global0, global_index_set@, max0, max_index, subsets@.take(j + 1));
            }
//@ loop-after 0
        proof { assert(subsets@.take(subsets@.len() as int) =~= subsets@); }
//@ done
//@ fn fenris-paradis/src/lib.rs impl DisjointSubsets :: subsets
//@ ret r
//@ spec
    requires self.shaped()
    ensures r.wf(), r@ == self.parts()
//@ done
//@ fn fenris-paradis/src/lib.rs impl DisjointSubsets :: into_subsets
//@ ret r
//@ spec
    requires self.shaped()
    ensures r.wf(), r@ == self.parts()
//@ done
//@ fn fenris-paradis/src/lib.rs impl DisjointSubsets :: labels
//@ ret r
//@ spec
    ensures r@ == self.names()
//@ done
}

// ---- what a colouring has to be ----

// no index occurs in two of the parts
pub open spec fn disjoint(parts: Seq<Seq<usize>>) -> bool {
    forall|k: int, l: int, a: int, b: int| 0 <= k < parts.len() && 0 <= l < parts.len() && k != l && 0 <= a < parts[k].len() && 0 <= b < parts[l].len()
        ==> #[trigger] parts[k][a] != #[trigger] parts[l][b]
}
// `m` is the largest index that occurs (none if there is none)
pub open spec fn is_largest(parts: Seq<Seq<usize>>, m: Option<usize>) -> bool {
    &&& m.is_none() ==> forall|k: int| 0 <= k < parts.len() ==> (#[trigger] parts[k]).len() == 0
    &&& m.is_some() ==> exists|k: int, a: int| 0 <= k < parts.len() && 0 <= a < parts[k].len() && #[trigger] parts[k][a] == m.unwrap()
    &&& m.is_some() ==> forall|k: int, a: int| 0 <= k < parts.len() && 0 <= a < parts[k].len() ==> #[trigger] parts[k][a] <= m.unwrap()
}
// the parts are the subsets named by the labels
pub open spec fn selects(parts: Seq<Seq<usize>>, names: Seq<usize>, all: Seq<Seq<usize>>) -> bool {
    &&& parts.len() == names.len()
    &&& forall|k: int| #![trigger parts[k]] #![trigger names[k]] 0 <= k < parts.len() ==> names[k] < all.len() && parts[k] == all[names[k] as int]
}
pub open spec fn good_color(c: DisjointSubsets, all: Seq<Seq<usize>>) -> bool {
    &&& c.shaped()
    &&& selects(c.parts(), c.names(), all)
    &&& disjoint(c.parts())
    &&& is_largest(c.parts(), c.largest())
}
pub open spec fn named(colors: Seq<DisjointSubsets>, i: int) -> bool {
    exists|c: int, k: int| 0 <= c < colors.len() && 0 <= k < colors[c].names().len() && #[trigger] colors[c].names()[k] == i
}
// no subset is named twice
pub open spec fn once(colors: Seq<DisjointSubsets>) -> bool {
    forall|c: int, k: int, d: int, l: int| 0 <= c < colors.len() && 0 <= k < colors[c].names().len() && 0 <= d < colors.len() && 0 <= l < colors[d].names().len()
        && #[trigger] colors[c].names()[k] == #[trigger] colors[d].names()[l] ==> c == d && k == l
}
pub open spec fn increasing(s: Seq<usize>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j]
}

pub proof fn lemma_copied(a: Seq<usize>, b: Seq<usize>)
    requires clone_of(a, b)
    ensures a == b
{
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { assert(cloned(a[k], b[k])); }
    assert(a =~= b);
}

pub open spec fn marked(table: Seq<i32>, e: int, color: i32) -> bool { 0 <= e < table.len() && table[e] == color }

// `m` is the larger of `m0` and the elements of `s`
pub open spec fn larger(m0: Option<usize>, s: Seq<usize>, m: Option<usize>) -> bool {
    &&& s.len() == 0 ==> m == m0
    &&& (m0.is_some() || s.len() > 0) ==> m.is_some()
    &&& m.is_some() && m0.is_some() ==> m.unwrap() >= m0.unwrap()
    &&& m.is_some() ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m.unwrap()
    &&& m.is_some() ==> m == m0 || exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m.unwrap()
}
pub proof fn lemma_larger(m0: Option<usize>, s: Seq<usize>, m1: Option<usize>, x: usize, m: Option<usize>)
    requires larger(m0, s, m1), m == Some(if m1.is_some() && x <= m1.unwrap() { m1.unwrap() } else { x })
    ensures larger(m0, s.push(x), m)
{
    let t = s.push(x);
    assert(t[s.len() as int] == x);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] <= m.unwrap() by { if i < s.len() { assert(t[i] == s[i]); } }
    if m != m0 && m.unwrap() != x {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m1.unwrap();
        assert(t[i] == s[i]);
    }
}
// the elements of `all` are those of `a` and of `b`, each in one of them, in order
pub open spec fn parted(all: Seq<usize>, a: Seq<usize>, b: Seq<usize>) -> bool {
    &&& all.len() == a.len() + b.len()
    &&& forall|x: usize| #[trigger] all.contains(x) == (a.contains(x) || b.contains(x))
    &&& forall|x: usize| !(#[trigger] a.contains(x) && b.contains(x))
}
pub proof fn lemma_push(s: Seq<usize>, y: usize)
    ensures forall|x: usize| #[trigger] s.push(y).contains(x) == (s.contains(x) || x == y)
{
    assert forall|x: usize| #[trigger] s.push(y).contains(x) == (s.contains(x) || x == y) by {
        assert(s.push(y)[s.len() as int] == y);
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(y)[i] == x); }
    }
}
// the next element goes to one of the two
pub proof fn lemma_parted(all: Seq<usize>, a: Seq<usize>, b: Seq<usize>, x: usize, a1: Seq<usize>, b1: Seq<usize>)
    requires parted(all, a, b), increasing(all.push(x)), increasing(a), increasing(b),
        (a1 == a.push(x) && b1 == b) || (a1 == a && b1 == b.push(x))
    ensures parted(all.push(x), a1, b1), increasing(a1), increasing(b1)
{
    lemma_push(all, x); lemma_push(a, x); lemma_push(b, x);
    assert forall|y: usize| #[trigger] all.contains(y) implies y < x by {
        let i = choose|i: int| 0 <= i < all.len() && all[i] == y;
        assert(all.push(x)[i] < all.push(x)[all.len() as int]);
    }
    assert(!all.contains(x));
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < x by { assert(a.contains(a[i])); assert(all.contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < x by { assert(b.contains(b[i])); assert(all.contains(b[i])); }
    assert forall|y: usize| !(#[trigger] a1.contains(y) && b1.contains(y)) by {
        if y == x { assert(!a.contains(x) && !b.contains(x)); }
    }
    assert forall|y: usize| #[trigger] all.push(x).contains(y) == (a1.contains(y) || b1.contains(y)) by { assert(all.contains(y) == (a.contains(y) || b.contains(y))); }
}
// the part to add shares no index with the parts there are
pub proof fn lemma_add_part(parts0: Seq<Seq<usize>>, names0: Seq<usize>, max0: Option<usize>, part: Seq<usize>, name: usize, all: Seq<Seq<usize>>,
    table: Seq<i32>, color: i32, parts: Seq<Seq<usize>>, max: Option<usize>)
    requires
        selects(parts0, names0, all), disjoint(parts0), is_largest(parts0, max0),
        parts.len() == parts0.len() + 1, forall|k: int| 0 <= k < parts0.len() ==> #[trigger] parts[k] == parts0[k], parts.last() == part,
        name < all.len(), part == all[name as int],
        forall|k: int, a: int| 0 <= k < parts0.len() && 0 <= a < parts0[k].len() ==> marked(table, #[trigger] parts0[k][a] as int, color),
        forall|a: int| 0 <= a < part.len() ==> !marked(table, #[trigger] part[a] as int, color),
        larger(max0, part, max)
    ensures selects(parts, names0.push(name), all), disjoint(parts), is_largest(parts, max)
{
    let n = parts0.len() as int;
    assert(parts[n] == part);
    let names = names0.push(name);
    assert forall|k: int| #![trigger parts[k]] #![trigger names[k]] 0 <= k < parts.len() implies names[k] < all.len() && parts[k] == all[names[k] as int] by {
        if k < n { assert(parts[k] == parts0[k]); assert(names[k] == names0[k]); assert(names0[k] < all.len()); } else { assert(names[k] == name); }
    }
    assert forall|k: int, l: int, a: int, b: int| 0 <= k < parts.len() && 0 <= l < parts.len() && k != l && 0 <= a < parts[k].len() && 0 <= b < parts[l].len()
        implies #[trigger] parts[k][a] != #[trigger] parts[l][b] by {
        if k < n { assert(parts[k][a] == parts0[k][a]); }
        if l < n { assert(parts[l][b] == parts0[l][b]); }
        if k == n { assert(!marked(table, part[a] as int, color)); }
        if l == n { assert(!marked(table, part[b] as int, color)); }
    }
    lemma_largest(parts0, part, max0, max, parts);
}
pub proof fn lemma_round(colors0: Seq<DisjointSubsets>, colors: Seq<DisjointSubsets>, current: Seq<usize>, color: DisjointSubsets, rest: Seq<usize>, all: Seq<Seq<usize>>)
    requires
        colors == colors0.push(color), once(colors0), increasing(color.names()), parted(current, color.names(), rest),
        forall|j: int| 0 <= j < current.len() ==> #[trigger] current[j] < all.len(), all.len() <= usize::MAX,
        forall|i: int| 0 <= i < all.len() ==> #[trigger] named(colors0, i) != current.contains(i as usize),
    ensures once(colors),
        forall|i: int| 0 <= i < all.len() ==> #[trigger] named(colors, i) != rest.contains(i as usize),
        forall|j: int| 0 <= j < rest.len() ==> #[trigger] rest[j] < all.len(),
{
    let n = colors0.len() as int;
    let names = color.names();
    assert forall|k: int| 0 <= k < names.len() implies (#[trigger] names[k]) < all.len() && !named(colors0, names[k] as int) by {
        assert(names.contains(names[k])); assert(current.contains(names[k]));
        assert(named(colors0, names[k] as int) != current.contains(names[k]));
    }
    assert forall|c: int, k: int, d: int, l: int| 0 <= c < colors.len() && 0 <= k < colors[c].names().len() && 0 <= d < colors.len() && 0 <= l < colors[d].names().len()
        && #[trigger] colors[c].names()[k] == #[trigger] colors[d].names()[l] implies c == d && k == l by {
        if c < n && d < n {
            assert(colors0[c].names()[k] == colors0[d].names()[l]);
        } else if c < n {
            assert(colors0[c].names()[k] == names[l]); assert(named(colors0, names[l] as int));
        } else if d < n {
            assert(colors0[d].names()[l] == names[k]); assert(named(colors0, names[k] as int));
        } else {
            if k < l { assert(names[k] < names[l]); } else if l < k { assert(names[l] < names[k]); }
        }
    }
    assert forall|j: int| 0 <= j < rest.len() implies (#[trigger] rest[j]) < all.len() by {
        assert(rest.contains(rest[j])); assert(current.contains(rest[j]));
    }
    assert forall|i: int| 0 <= i < all.len() implies #[trigger] named(colors, i) != rest.contains(i as usize) by {
        let x = i as usize;
        assert(named(colors0, i) != current.contains(x));
        assert(!(names.contains(x) && rest.contains(x)));
        if named(colors0, i) {
            let (c, k) = choose|c: int, k: int| 0 <= c < colors0.len() && 0 <= k < colors0[c].names().len() && #[trigger] colors0[c].names()[k] == i;
            assert(colors[c].names()[k] == i);
        }
        if names.contains(x) {
            let k = choose|k: int| 0 <= k < names.len() && names[k] == x;
            assert(colors[n].names()[k] == i);
        }
        if named(colors, i) {
            let (c, k) = choose|c: int, k: int| 0 <= c < colors.len() && 0 <= k < colors[c].names().len() && #[trigger] colors[c].names()[k] == i;
            if c < n { assert(colors0[c].names()[k] == i); } else { assert(names[k] == x); assert(names.contains(x)); }
        }
    }
}

//@ fn fenris-paradis/src/coloring.rs sequential_greedy_coloring
//@ ret r
//@ loops 3
//@ closures 3
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        subsets.wf(),
        // the table of nodes is resized to 2 * index + 1 entries
        forall|i: int, a: int| 0 <= i < subsets@.len() && 0 <= a < subsets@[i].len() ==> #[trigger] subsets@[i][a] <= (usize::MAX - 1) / 2,
        // the function documents that it panics for more than i32::MAX colours
        subsets@.len() < i32::MAX,
    ensures
        forall|c: int| 0 <= c < r@.len() ==> good_color(#[trigger] r@[c], subsets@),
        forall|i: int| 0 <= i < subsets@.len() ==> #[trigger] named(r@, i),
        once(r@),
        forall|c: int| 0 <= c < r@.len() ==> (#[trigger] r@[c]).names().len() > 0,
//@ start
    broadcast use max_usize;
//@ closure 0 &usize ; b: bool
    ensures b == (*a0 < last_visited_color@.len() && last_visited_color@[*a0 as int] == color_idx)
//@ closure 1 &i32 ; c: bool
    ensures c == (*a0 == color_idx)
//@ closure 2 usize ; m: usize
    ensures m == (if node_idx <= a0 { a0 } else { node_idx })
//@ loop 0
    invariant
        subsets.wf(), subsets@.len() < i32::MAX,
        forall|i: int, a: int| 0 <= i < subsets@.len() && 0 <= a < subsets@[i].len() ==> #[trigger] subsets@[i][a] <= (usize::MAX - 1) / 2,
        forall|c: int| 0 <= c < colors@.len() ==> good_color(#[trigger] colors@[c], subsets@),
        forall|c: int| 0 <= c < colors@.len() ==> (#[trigger] colors@[c]).names().len() > 0,
        once(colors@),
        postponed_subset_indices@.len() == 0,
        increasing(current_subset_indices@),
        forall|j: int| 0 <= j < current_subset_indices@.len() ==> #[trigger] current_subset_indices@[j] < subsets@.len(),
        forall|i: int| 0 <= i < subsets@.len() ==> #[trigger] named(colors@, i) != current_subset_indices@.contains(i as usize),
        color_idx >= 0, color_idx + current_subset_indices@.len() <= subsets@.len(),
        forall|e: int| 0 <= e < last_visited_color@.len() ==> #[trigger] last_visited_color@[e] < color_idx,
    decreases current_subset_indices@.len()
//@ loop-before 0
    proof {
        assert forall|i: int| 0 <= i < subsets@.len() implies #[trigger] named(colors@, i) != current_subset_indices@.contains(i as usize) by {
            assert(current_subset_indices@[i] == i as usize);
        }
    }
//@ loop-start 0
        let ghost colors0 = colors@;
        let ghost current0 = current_subset_indices@;
//@ loop 1 it
            invariant
                it.seq() == current_subset_indices@.as_ref(),
                color_subsets.wf(),
                selects(color_subsets@, color_subset_indices@, subsets@),
                disjoint(color_subsets@),
                is_largest(color_subsets@, max_node_idx),
                forall|k: int, a: int| 0 <= k < color_subsets@.len() && 0 <= a < color_subsets@[k].len() ==>
                    marked(last_visited_color@, #[trigger] color_subsets@[k][a] as int, color_idx),
                forall|e: int| 0 <= e < last_visited_color@.len() ==> #[trigger] last_visited_color@[e] <= color_idx,
                it.index() == 0 ==> forall|e: int| 0 <= e < last_visited_color@.len() ==> #[trigger] last_visited_color@[e] < color_idx,
                it.index() > 0 ==> color_subset_indices@.len() > 0,
                increasing(color_subset_indices@), increasing(postponed_subset_indices@),
                parted(current_subset_indices@.take(it.index() as int), color_subset_indices@, postponed_subset_indices@),
//@ loop-start 1
            let ghost parts0 = color_subsets@;
            let ghost names0 = color_subset_indices@;
            let ghost postponed0 = postponed_subset_indices@;
            let ghost last0 = last_visited_color@;
            let ghost max0 = max_node_idx;
            proof {
                assert(subset_idx == current0[it.index() as int]);
                assert(subset_idx < subsets@.len());
            }
//@ loop 2 jt
                invariant
                    jt.seq() == subset@.as_ref(),
                    forall|e: int| 0 <= e < last_visited_color@.len() ==> #[trigger] last_visited_color@[e] <= color_idx,
                    forall|e: int| marked(last0, e, color_idx) ==> #[trigger] marked(last_visited_color@, e, color_idx),
                    forall|i: int| 0 <= i < jt.index() ==> marked(last_visited_color@, #[trigger] subset@[i] as int, color_idx),
                    larger(max0, subset@.take(jt.index() as int), max_node_idx),
//@ loop-start 2
                    let ghost max1 = max_node_idx;
                    let ghost last1 = last_visited_color@;
                    proof { 
                        assert(subsets@[subset_idx as int][jt.index() as int] == node_idx);
                        assert(subset@.take(jt.index() + 1) =~= subset@.take(jt.index() as int).push(node_idx));
                    }
//@ loop-end 2
                    proof {
                        assert forall|e: int| marked(last1, e, color_idx) implies #[trigger] marked(last_visited_color@, e, color_idx) by {}
                        lemma_larger(max0, subset@.take(jt.index() as int), max1, node_idx, max_node_idx);
                    }
//@ loop-end 1
            proof {
                let j = it.index() as int;
                assert(current0.take(j + 1) =~= current0.take(j).push(subset_idx));
                lemma_parted(current0.take(j), names0, postponed0, subset_idx, color_subset_indices@, postponed_subset_indices@);
                if is_blocked {
                } else {
                    assert forall|a: int| 0 <= a < subset@.len() implies !marked(last0, #[trigger] subset@[a] as int, color_idx) by {
                        assert(*subset@.as_ref()[a] == subset@[a]);
                    }
                    assert(subset@.take(subset@.len() as int) =~= subset@);
                    lemma_copied(subset@, color_subsets@.last());
                    lemma_add_part(parts0, names0, max0, subset@, subset_idx, subsets@, last0, color_idx, color_subsets@, max_node_idx);
                }
            }
//@ loop-after 1
        let ghost postponed1 = postponed_subset_indices@;
//@ loop-end 0
        proof {
            assert(current0.take(current0.len() as int) =~= current0);
            lemma_round(colors0, colors@, current0, color, postponed1, subsets@);
        }
//@ done

fn main() {}
}
