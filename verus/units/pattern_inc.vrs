// a hash set of indices
#[verifier::external_body]
pub struct IndexSet { x: Vec<usize> }
impl IndexSet {
    pub uninterp spec fn set(&self) -> Set<usize>;
    #[verifier::external_body]
    pub proof fn lemma_finite(&self) ensures self.set().finite() {}
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize) -> bool ensures final(self).set() == old(self).set().insert(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self.set().finite(), r == self.set().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn empty_sets(n: usize) -> (r: Vec<IndexSet>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).set() == Set::<usize>::empty() { unimplemented!() }
// `v.extend(set)`: its elements, once each
#[verifier::external_body]
pub fn extend_set(v: &mut Vec<usize>, s: &IndexSet)
    requires old(v)@.len() == 0
    ensures final(v)@.no_duplicates(), final(v)@.to_set() == s.set(), final(v)@.len() == s.set().len(), s.set().finite()
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_indices(v: &mut Vec<usize>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|a: int, b: int| 0 <= a <= b < final(v)@.len() ==> (#[trigger] final(v)@[a]) <= (#[trigger] final(v)@[b])
{ v.sort_unstable() }
// a node's neighbours in increasing order
pub open spec fn lists(b: Seq<usize>, s: Set<usize>) -> bool {
    increasing(b) && b.len() == s.len() && forall|x: usize| #[trigger] s.contains(x) <==> occurs(b, b.len() as int, x as int)
}
// the columns of the nodes b
pub open spec fn columns(b: Seq<usize>, d: int) -> Seq<usize> { Seq::new((d * b.len()) as nat, |t: int| (d * b[t / d] + t % d) as usize) }
pub proof fn lemma_sorted_lists(b: Seq<usize>, b0: Seq<usize>, s: Set<usize>)
    requires
        b.to_multiset() == b0.to_multiset(), b0.no_duplicates(), b0.to_set() == s, b0.len() == s.len(),
        forall|i: int, j: int| 0 <= i <= j < b.len() ==> (#[trigger] b[i]) <= (#[trigger] b[j]),
    ensures lists(b, s)
{
    b.to_multiset_ensures();
    b0.to_multiset_ensures();
    b0.lemma_multiset_has_no_duplicates();
    assert forall|x: usize| b.to_multiset().count(x) <= 1 by {
        if b.to_multiset().contains(x) { assert(b0.to_multiset().count(x) == 1); }
    }
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|x: usize| #[trigger] s.contains(x) <==> occurs(b, b.len() as int, x as int) by {
        if s.contains(x) {
            assert(b0.contains(x));
            assert(b.to_multiset().count(x) > 0);
            assert(b.contains(x));
            let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
            assert(b[k] == x);
        }
        if occurs(b, b.len() as int, x as int) {
            assert(b.contains(x));
            assert(b.to_multiset().count(x) > 0);
            assert(b0.contains(x));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]) < (#[trigger] b[j]) by { assert(b[i] <= b[j]); assert(b[i] != b[j]); }
}
pub proof fn lemma_div(d: int, k: int, i: int)
    requires 0 <= i < d, 0 <= k
    ensures (d * k + i) / d == k, (d * k + i) % d == i, 0 <= d * k
{
    assert(d * k == k * d) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(d * k + i, d, k, i);
    assert(0 <= d * k) by (nonlinear_arith) requires 0 <= k, 0 < d;
}
// they are increasing, below d times the bound of the nodes, and c is one of them exactly if its node is listed
pub proof fn lemma_columns(b: Seq<usize>, d: int, n: int)
    requires increasing(b), 0 < d, forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]) < n, d * n <= usize::MAX
    ensures
        increasing(columns(b, d)),
        forall|t: int| 0 <= t < columns(b, d).len() ==> (#[trigger] columns(b, d)[t]) == d * b[t / d] + t % d && columns(b, d)[t] < d * n,
        forall|m: int, j: int| #![trigger occurs(columns(b, d), columns(b, d).len() as int, d * m + j)] 0 <= m && 0 <= j < d ==> (occurs(columns(b, d), columns(b, d).len() as int, d * m + j) <==> occurs(b, b.len() as int, m)),
{
    let c = columns(b, d);
    assert forall|t: int| 0 <= t < c.len() implies (#[trigger] c[t]) == d * b[t / d] + t % d && c[t] < d * n by {
        lemma_mod(d, t, b.len() as int);
        lemma_block(d, b[t / d] as int, n);
    }
    assert forall|t: int, u: int| 0 <= t < u < c.len() implies (#[trigger] c[t]) < (#[trigger] c[u]) by {
        lemma_mod(d, t, b.len() as int);
        lemma_mod(d, u, b.len() as int);
        if t / d < u / d {
            assert(b[t / d] < b[u / d]);
            lemma_block(d, b[t / d] as int, b[u / d] as int);
        } else {
            assert(t / d == u / d) by (nonlinear_arith) requires 0 < d, t < u, !(t / d < u / d), t == d * (t / d) + t % d, u == d * (u / d) + u % d, 0 <= t % d < d, 0 <= u % d < d;
        }
    }
    assert forall|m: int, j: int| #![trigger occurs(c, c.len() as int, d * m + j)] 0 <= m && 0 <= j < d implies (occurs(c, c.len() as int, d * m + j) <==> occurs(b, b.len() as int, m)) by {
        if occurs(c, c.len() as int, d * m + j) {
            let t = choose|t: int| 0 <= t < c.len() && #[trigger] c[t] == d * m + j;
            lemma_mod(d, t, b.len() as int);
            lemma_div(d, m, j);
            lemma_div(d, b[t / d] as int, t % d);
            assert(b[t / d] == m);
        }
        if occurs(b, b.len() as int, m) {
            let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == m;
            lemma_div(d, k, j);
            lemma_block(d, k, b.len() as int);
            assert(c[d * k + j] == d * m + j);
        }
    }
}
pub open spec fn bound<A: Elements>(a: A, sets: Seq<IndexSet>) -> bool {
    forall|m: int, x: usize| 0 <= m < sets.len() && (#[trigger] sets[m].set().contains(x)) ==> x < a.n()
}
pub proof fn lemma_adjacent<A: Elements>(a: A, i: int)
    requires 0 <= i
    ensures forall|m: int, x: int| #[trigger] adjacent(a, i + 1, m, x) <==> adjacent(a, i, m, x) || in_element(a, i, m, x)
{
    assert forall|m: int, x: int| #[trigger] adjacent(a, i + 1, m, x) <==> adjacent(a, i, m, x) || in_element(a, i, m, x) by {
        if adjacent(a, i + 1, m, x) {
            let e = choose|e: int| 0 <= e < i + 1 && #[trigger] in_element(a, e, m, x);
            assert(in_element(a, e, m, x));
        }
        if adjacent(a, i, m, x) {
            let e = choose|e: int| 0 <= e < i && #[trigger] in_element(a, e, m, x);
            assert(in_element(a, e, m, x));
        }
        if in_element(a, i, m, x) { assert(adjacent(a, i + 1, m, x)); }
    }
}
pub proof fn lemma_below(s: Set<usize>, n: nat)
    requires s.finite(), forall|x: usize| #[trigger] s.contains(x) ==> x < n
    ensures s.len() <= n
    decreases n
{
    if n == 0 {
        assert(s =~= Set::<usize>::empty());
    } else {
        let y = (n - 1) as usize;
        if s.contains(y) {
            assert forall|x: usize| #[trigger] s.remove(y).contains(x) implies x < n - 1 by { assert(s.contains(x)); }
            lemma_below(s.remove(y), (n - 1) as nat);
        } else {
            assert forall|x: usize| #[trigger] s.contains(x) implies x < n - 1 by { assert(x != y); }
            lemma_below(s, (n - 1) as nat);
        }
    }
}
// the row offsets: row r belongs to node r / d
pub open spec fn offs(o: Seq<usize>, sets: Seq<IndexSet>, d: int) -> bool {
    o.len() > 0 && o[0] == 0 && forall|r: int| 0 <= r < o.len() - 1 ==> (#[trigger] o[r + 1]) == o[r] + d * sets[r / d].set().len()
}
pub proof fn lemma_offs(o: Seq<usize>, sets: Seq<IndexSet>, d: int, r: int, t: int)
    requires offs(o, sets, d), 0 <= r <= t < o.len(), 0 <= d
    ensures o[r] <= o[t]
    decreases t - r
{
    if r < t {
        lemma_offs(o, sets, d, r, t - 1);
        assert(o[t - 1 + 1] == o[t - 1] + d * sets[(t - 1) / d].set().len());
        assert(0 <= d * sets[(t - 1) / d].set().len()) by (nonlinear_arith) requires 0 <= d;
    }
}
pub open spec fn rows(ci: Seq<usize>, o: Seq<usize>, ls: Seq<Seq<usize>>, d: int, upto: int) -> bool {
    forall|r: int| 0 <= r < upto ==> #[trigger] row_of(ci, o, r) == columns(ls[r / d], d)
}
pub proof fn lemma_rows(ci: Seq<usize>, o: Seq<usize>, sets: Seq<IndexSet>, ls: Seq<Seq<usize>>, d: int, r: int)
    requires
        0 < d, offs(o, sets, d), 0 <= r < o.len() - 1, rows(ci, o, ls, d, r), ci.len() == o[r], lists(ls[r / d], sets[r / d].set()),
    ensures
        rows(ci + columns(ls[r / d], d), o, ls, d, r + 1), (ci + columns(ls[r / d], d)).len() == o[r + 1],
{
    let c = columns(ls[r / d], d);
    let cj = ci + c;
    assert(0 <= d * ls[r / d].len()) by (nonlinear_arith) requires 0 < d;
    assert(c.len() == d * sets[r / d].set().len());
    assert(o[r + 1] == o[r] + c.len());
    assert forall|q: int| 0 <= q < r + 1 implies #[trigger] row_of(cj, o, q) == columns(ls[q / d], d) by {
        if q == r {
            assert(row_of(cj, o, q) =~= c);
        } else {
            lemma_offs(o, sets, d, q + 1, r);
            lemma_offs(o, sets, d, q, q + 1);
            assert(row_of(cj, o, q) =~= row_of(ci, o, q));
        }
    }
}
pub proof fn lemma_rows_push(ci: Seq<usize>, o: Seq<usize>, ls: Seq<Seq<usize>>, b: Seq<usize>, d: int)
    requires 0 < d, rows(ci, o, ls, d, d * ls.len())
    ensures rows(ci, o, ls.push(b), d, d * ls.len())
{
    assert forall|r: int| 0 <= r < d * ls.len() implies #[trigger] row_of(ci, o, r) == columns(ls.push(b)[r / d], d) by {
        lemma_mod(d, r, ls.len() as int);
    }
}
pub open spec fn all_lists(ls: Seq<Seq<usize>>, sets: Seq<IndexSet>) -> bool {
    forall|m: int| 0 <= m < ls.len() ==> lists(#[trigger] ls[m], sets[m].set())
}
// what the function returns describes the couplings
pub proof fn lemma_pattern<A: Elements>(a: A, sets: Seq<IndexSet>, ls: Seq<Seq<usize>>, o: Seq<usize>, ci: Seq<usize>)
    requires
        0 < a.sdim(), a.sdim() * a.n() <= usize::MAX, bound(a, sets), sets.len() == a.n(), ls.len() == a.n(), all_lists(ls, sets),
        forall|m: int, x: usize| 0 <= m < a.n() ==> (#[trigger] sets[m].set().contains(x) <==> adjacent(a, a.count() as int, m, x as int)),
        o.len() == a.sdim() * a.n() + 1, offs(o, sets, a.sdim() as int), rows(ci, o, ls, a.sdim() as int, (a.sdim() * a.n()) as int),
    ensures
        forall|r: int| 0 <= r < a.sdim() * a.n() ==> increasing(#[trigger] row_of(ci, o, r)),
        forall|r: int, k: int| 0 <= r < a.sdim() * a.n() && 0 <= k < row_of(ci, o, r).len() ==> (#[trigger] row_of(ci, o, r)[k]) < a.sdim() * a.n(),
        forall|r: int, c: int| 0 <= r < a.sdim() * a.n() && 0 <= c < a.sdim() * a.n() ==>
            (#[trigger] occurs(row_of(ci, o, r), row_of(ci, o, r).len() as int, c) <==> adjacent(a, a.count() as int, r / (a.sdim() as int), c / (a.sdim() as int))),
{
    let d = a.sdim() as int;
    let n = a.n() as int;
    assert forall|r: int| 0 <= r < d * n implies increasing(#[trigger] row_of(ci, o, r)) && (forall|k: int| 0 <= k < row_of(ci, o, r).len() ==> (#[trigger] row_of(ci, o, r)[k]) < d * n)
        && (forall|c: int| 0 <= c < d * n ==> (#[trigger] occurs(row_of(ci, o, r), row_of(ci, o, r).len() as int, c) <==> adjacent(a, a.count() as int, r / d, c / d))) by {
        lemma_mod(d, r, n);
        let m = r / d;
        let b = ls[m];
        assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]) < n by {
            assert(occurs(b, b.len() as int, b[k] as int));
            assert(sets[m].set().contains(b[k]));
        }
        lemma_columns(b, d, n);
        assert forall|c: int| 0 <= c < d * n implies (#[trigger] occurs(columns(b, d), columns(b, d).len() as int, c) <==> adjacent(a, a.count() as int, m, c / d)) by {
            lemma_mod(d, c, n);
            assert(occurs(columns(b, d), columns(b, d).len() as int, d * (c / d) + c % d) <==> occurs(b, b.len() as int, c / d));
            assert(0 <= c / d < n <= usize::MAX) by (nonlinear_arith) requires 0 <= c / d < n, 0 < d, d * n <= usize::MAX;
            assert(sets[m].set().contains((c / d) as usize) <==> occurs(b, b.len() as int, c / d));
        }
    }
}
pub struct CsrAssembler;
impl CsrAssembler {
//@ fn src/assembly/global.rs impl<T: Scalar> CsrAssembler<T> :: assemble_pattern
//@ subst impl ElementConnectivityAssembler => impl Elements
//@ subst FxHashSet<usize> => IndexSet
//@ subst vec![FxHashSet::default(); num_nodes] => empty_sets(num_nodes)
//@ subst node_buffer.extend( => extend_set(&mut node_buffer,
//@ subst node_buffer.sort_unstable() => sort_indices(&mut node_buffer)
//@ subst unsafe { SparsityPattern::from_offset_and_indices_unchecked( => { SparsityPattern::unchecked(
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        valid(*element_assembler), element_assembler.sdim() > 0,
        (element_assembler.sdim() * element_assembler.n()) * (element_assembler.sdim() * element_assembler.n()) <= usize::MAX, element_assembler.sdim() * element_assembler.n() < usize::MAX,
    ensures
        pattern_of(*element_assembler, res),
//@ start
    let ghost a = *element_assembler;
    let ghost d = a.sdim() as int;
//@ loop 0
    invariant
        node_sets@.len() == num_nodes,
        forall|m: int, x: usize| 0 <= m < num_nodes ==> (#[trigger] node_sets@[m].set().contains(x) <==> adjacent(a, i as int, m, x as int)),
//@ loop-end 0
    proof {
        lemma_adjacent(a, i as int);
    }
//@ loop-before 1
    let ghost nodes = a.nodes(i as int);
//@ loop 1 it
    invariant
        it.seq() == element_global_nodes@.as_ref(),
        node_sets@.len() == num_nodes,
        forall|m: int, x: usize| 0 <= m < num_nodes ==> (#[trigger] node_sets@[m].set().contains(x) <==> adjacent(a, i as int, m, x as int) || (occurs(nodes, it.index() as int, m) && occurs(nodes, nodes.len() as int, x as int))),
//@ loop-start 1
    let ghost sets1 = node_sets@;
//@ loop 2 jt
    invariant
        jt.seq() == element_global_nodes@.as_ref(),
        node_sets@.len() == num_nodes,
        forall|m: int, x: usize| 0 <= m < num_nodes ==> (#[trigger] node_sets@[m].set().contains(x) <==> sets1[m].set().contains(x) || (m == node_i && occurs(nodes, jt.index() as int, x as int))),
//@ loop-after 0
    let ghost sets = node_sets@;
    proof {
        assert(bound(a, sets)) by {
            assert forall|m: int, x: usize| 0 <= m < sets.len() && (#[trigger] sets[m].set().contains(x)) implies x < a.n() by {
                let e = choose|e: int| 0 <= e < a.count() && #[trigger] in_element(a, e, m, x as int);
                let k = choose|k: int| 0 <= k < a.nodes(e).len() && #[trigger] a.nodes(e)[k] == x;
                assert(a.nodes(e)[k] < a.n());
            }
        }
    }
//@ loop-before 3
    proof {
        assert forall|m: int| 0 <= m < sets.len() implies (#[trigger] sets[m].set().len()) <= a.n() by {
            sets[m].lemma_finite();
            lemma_below(sets[m].set(), a.n());
        }
    }
//@ loop 3 it
    invariant
        it.seq() == node_sets@.as_ref(),
        offsets@.len() == d * it.index() + 1, current_offset == offsets@.last(),
        offs(offsets@, sets, d),
        current_offset <= (offsets@.len() - 1) * num_rows,
//@ loop-start 3
    let ghost m = it.index() as int;
    proof { assert(*node_set == sets[m]); lemma_block(d, m, a.n() as int); }
//@ loop 4 q
    invariant
        offsets@.len() == d * m + q.index() + 1, current_offset == offsets@.last(),
        offs(offsets@, sets, d),
        current_offset <= (offsets@.len() - 1) * num_rows,
//@ loop-start 4
    let ghost o4 = offsets@;
    proof {
        lemma_div(d, m, q.index() as int);
        let l = node_set.set().len();
        node_set.lemma_finite();
        assert(l <= a.n());
        assert(0 <= d * l <= num_rows) by (nonlinear_arith) requires 0 <= l <= a.n(), 0 < d, num_rows == d * a.n();
        let done = d * m + q.index();
        assert(done < num_rows) by { lemma_block(d, m, a.n() as int); };
        assert(done * num_rows + num_rows <= num_rows * num_rows && (done + 1) * num_rows == done * num_rows + num_rows) by (nonlinear_arith) requires 0 <= done < num_rows;
    }
//@ loop-before 5
    let ghost mut ls: Seq<Seq<usize>> = Seq::empty();
    let ghost off = offsets@;
//@ loop 5 it
    invariant
        it.seq() == node_sets@.as_ref(),
        ls.len() == it.index(), all_lists(ls, sets), rows(col_indices@, off, ls, d, d * ls.len()), col_indices@.len() == off[d * ls.len()],
//@ loop-start 5
    let ghost m = it.index() as int;
    proof { assert(*node_set == sets[m]); lemma_block(d, m, a.n() as int); }
//@ after extend_set
    let ghost b0 = node_buffer@;
//@ loop-before 6
    let ghost b = node_buffer@;
    let ghost lb = ls.push(b);
    proof {
        lemma_sorted_lists(b, b0, sets[m].set());
        assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]) < a.n() by { assert(occurs(b, b.len() as int, b[k] as int)); assert(sets[m].set().contains(b[k])); }
        lemma_rows_push(col_indices@, off, ls, b, d);
    }
//@ loop 6 q
    invariant
        rows(col_indices@, off, lb, d, d * m + q.index()), col_indices@.len() == off[d * m + q.index()],
//@ loop-start 6
    let ghost c0 = col_indices@;
    let ghost c = columns(b, d);
    proof { lemma_div(d, m, q.index() as int); }
//@ loop 7 jt
    invariant
        jt.seq() == node_buffer@.as_ref(),
        col_indices@ == c0 + c.subrange(0, d * jt.index()),
//@ loop-start 7
    let ghost k = jt.index() as int;
    proof { lemma_block(d, k, b.len() as int); assert(*node_j == b[k]); lemma_block(d, b[k] as int, a.n() as int); }
//@ loop 8
    invariant
        col_indices@ == c0 + c.subrange(0, d * k + j),
//@ loop-start 8
    proof { lemma_div(d, k, j as int); assert(c.subrange(0, d * k + j + 1) =~= c.subrange(0, d * k + j).push(c[d * k + j])); }
//@ loop-end 6
    proof {
        assert(c.subrange(0, d * b.len()) =~= c);
        lemma_rows(c0, off, sets, lb, d, d * m + q.index());
    }
//@ loop-end 5
    proof { ls = lb; }
//@ loop-after 5
    proof {
        lemma_pattern(a, sets, ls, off, col_indices@);
        assert forall|i: int| 0 <= i < num_rows implies (#[trigger] off[i]) <= off[i + 1] <= col_indices@.len() by { lemma_offs(off, sets, d, i, i + 1); lemma_offs(off, sets, d, i + 1, num_rows as int); }
    }
//@ done
}
