//@ struct fenris-nested-vec/src/lib.rs NestedVec
// Every array is a range of the first `len` elements, and the ranges come in order without overlapping.
pub open spec fn ranges_ok(len: int, begin: Seq<usize>, end: Seq<usize>) -> bool {
    &&& begin.len() == end.len()
    &&& forall|i: int| 0 <= i < begin.len() ==> begin[i] <= #[trigger] end[i] <= len
    &&& forall|i: int, j: int| 0 <= i < j < begin.len() ==> #[trigger] end[i] <= #[trigger] begin[j]
}
// The abstract value: the sequence of the arrays.
pub open spec fn arrays<T>(data: Seq<T>, begin: Seq<usize>, end: Seq<usize>) -> Seq<Seq<T>> {
    Seq::new(begin.len(), |i: int| data.subrange(begin[i] as int, end[i] as int))
}
pub proof fn lemma_arrays_prefix<T>(d1: Seq<T>, d2: Seq<T>, begin: Seq<usize>, end: Seq<usize>, len: int)
    requires ranges_ok(len, begin, end), len <= d1.len(), len <= d2.len(), d1.take(len) =~= d2.take(len)
    ensures arrays(d1, begin, end) == arrays(d2, begin, end)
{
    assert forall|i: int| 0 <= i < begin.len() implies #[trigger] arrays(d1, begin, end)[i] == arrays(d2, begin, end)[i] by {
        assert(end[i] <= len);
        assert forall|k: int| begin[i] <= k < end[i] implies d1[k] == d2[k] by { assert(d1.take(len)[k] == d2.take(len)[k]); }
        assert(d1.subrange(begin[i] as int, end[i] as int) =~= d2.subrange(begin[i] as int, end[i] as int));
    }
    assert(arrays(d1, begin, end) =~= arrays(d2, begin, end));
}
impl<T> NestedVec<T> {
    pub closed spec fn wf(&self) -> bool { ranges_ok(self.data@.len() as int, self.offsets_begin@, self.offsets_end@) }
    pub closed spec fn view(&self) -> Seq<Seq<T>> { arrays(self.data@, self.offsets_begin@, self.offsets_end@) }
    pub proof fn lemma_len(&self) ensures self@.len() <= usize::MAX { assert(self.offsets_begin.len() <= usize::MAX); }

//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: new
//@ ret r
//@ spec
        ensures r.wf(), r@ =~= Seq::<Seq<T>>::empty()
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: len
//@ ret r
//@ spec
        ensures r == self@.len()
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: get_index_range
//@ ret r
//@ spec
        requires self.wf()
        ensures r.is_some() == (index < self@.len()),
            r.is_some() ==> r.unwrap().start == self.offsets_begin@[index as int] && r.unwrap().end == self.offsets_end@[index as int]
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: get
//@ ret r
//@ spec
        requires self.wf()
        ensures r.is_some() == (index < self@.len()), r.is_some() ==> r.unwrap()@ == self@[index as int]
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: first
//@ ret r
//@ spec
        requires self.wf()
        ensures r.is_some() == (self@.len() > 0), r.is_some() ==> r.unwrap()@ == self@[0]
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: get_last_range
//@ ret r
//@ spec
        requires self.wf()
        ensures r.is_some() == (self@.len() > 0),
            r.is_some() ==> r.unwrap().start == self.offsets_begin@.last() && r.unwrap().end == self.offsets_end@.last()
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: last
//@ ret r
//@ spec
        requires self.wf()
        ensures r.is_some() == (self@.len() > 0), r.is_some() ==> r.unwrap()@ == self@.last()
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: clear
//@ spec
        ensures final(self).wf(), final(self)@ =~= Seq::<Seq<T>>::empty()
//@ done
}

// the result of cloning `a` element by element
pub open spec fn clone_of<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> cloned(a[k], #[trigger] b[k])
}

impl<T: Clone> NestedVec<T> {
//@ fn fenris-nested-vec/src/lib.rs impl<T: Clone> NestedVec<T> :: push
//@ spec
        requires old(self).wf()
        ensures final(self).wf(), final(self)@.len() == old(self)@.len() + 1,
            forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == old(self)@[i],
            clone_of(array@, final(self)@.last()),
//@ end
        proof {
            assert forall|i: int| 0 <= i < old(self)@.len() implies #[trigger] self@[i] == old(self)@[i] by {
                assert(old(self).offsets_end@[i] <= old(self).data@.len());
                assert(self@[i] =~= old(self)@[i]);
            }
        }
//@ done
}

// the iterator is verified for elements of one type
impl NestedVec<usize> {
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: iter
//@ ret r
//@ subst &'a [T] => &'a [usize]
//@ closures 1
//@ closure 0 usize ; s: &'a [usize]
    requires self.wf(), a0 < self@.len()
    ensures s@ == self@[a0 as int]
//@ spec
        requires self.wf()
        // `remaining` is the sequence the iterator will hand out; it may be abandoned early
        ensures r.obeys_prophetic_iter_laws(),
            r.remaining().len() <= self@.len(),
            r.will_return_none() ==> r.remaining().len() == self@.len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == self@[i],
            r.decrease().is_some(),
//@ done
}
