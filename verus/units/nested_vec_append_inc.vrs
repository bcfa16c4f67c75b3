impl<T> NestedVec<T> {
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: get_mut
//@ ret r
//@ spec
        requires old(self).wf()
        ensures r.is_some() == (index < old(self)@.len()), r.is_some() ==> r.unwrap()@ == old(self)@[index as int],
            final(self).wf(), final(self)@.len() == old(self)@.len(),
            r.is_none() ==> final(self)@ == old(self)@,
            r.is_some() ==> final(self)@[index as int] == final(r.unwrap())@,
            forall|j: int| 0 <= j < old(self)@.len() && j != index ==> #[trigger] final(self)@[j] == old(self)@[j],
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: begin_array
//@ ret r
//@ spec
        requires old(self).wf()
        ensures r.wf(), r.before() == old(self)@, r.added() =~= Seq::<T>::empty(), r.target() == *final(self),
//@ done
}
//@ struct fenris-nested-vec/src/lib.rs ArrayAppender
impl<'a, T> ArrayAppender<'a, T> {
    pub closed spec fn wf(&self) -> bool {
        self.initial_count <= (*self.data)@.len() && ranges_ok(self.initial_count as int, (*self.offsets_begin)@, (*self.offsets_end)@)
    }
    // the arrays from before the array was begun
    pub closed spec fn before(&self) -> Seq<Seq<T>> { arrays((*self.data)@, (*self.offsets_begin)@, (*self.offsets_end)@) }
    pub closed spec fn added(&self) -> Seq<T> { (*self.data)@.skip(self.initial_count as int) }
    // the vector behind the appender, once the appender is gone
    #[verifier::prophetic]
    pub closed spec fn target(&self) -> NestedVec<T> {
        NestedVec { data: *final(self.data), offsets_begin: *final(self.offsets_begin), offsets_end: *final(self.offsets_end) }
    }
//@ fn fenris-nested-vec/src/lib.rs impl<'a, T> ArrayAppender<'a, T> :: push_single
//@ ret r
//@ spec
        requires old(self).wf()
        ensures r.wf(), r.before() == old(self).before(), r.added() == old(self).added().push(element), r.target() == old(self).target(),
            *final(r) == *final(self),
//@ end
        proof {
            lemma_arrays_prefix((*old(self).data)@, (*self.data)@, (*self.offsets_begin)@, (*self.offsets_end)@, self.initial_count as int);
            assert(self.added() =~= old(self).added().push(element));
        }
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<'a, T> ArrayAppender<'a, T> :: count
//@ ret r
//@ spec
        requires self.wf()
        ensures r == self.added().len()
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<'a, T> Drop for ArrayAppender<'a, T> :: drop
//@ rename finish
//@ spec
        requires old(self).wf()
        ensures final(self).target() == old(self).target(), final(self).current().wf(), final(self).current()@ == old(self).before().push(old(self).added()),
//@ end
        proof { assert(self.current()@ =~= old(self).before().push(old(self).added())); }
//@ done
    pub closed spec fn current(&self) -> NestedVec<T> {
        NestedVec { data: *self.data, offsets_begin: *self.offsets_begin, offsets_end: *self.offsets_end }
    }
}
// the appender goes out of scope
pub fn close<'a, T>(a: ArrayAppender<'a, T>)
    requires a.wf()
    ensures a.target().wf(), a.target()@ == a.before().push(a.added())
{
    let mut a = a;
    a.finish();
    proof { reveal(ArrayAppender::target); reveal(ArrayAppender::current); }
}
impl<T> NestedVec<T> {
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: first_mut
//@ ret r
//@ spec
        requires old(self).wf()
        ensures r.is_some() == (old(self)@.len() > 0), r.is_some() ==> r.unwrap()@ == old(self)@[0],
            final(self).wf(), final(self)@.len() == old(self)@.len(),
            r.is_none() ==> final(self)@ == old(self)@,
            r.is_some() ==> final(self)@[0] == final(r.unwrap())@,
            forall|j: int| 1 <= j < old(self)@.len() ==> #[trigger] final(self)@[j] == old(self)@[j],
//@ done
//@ fn fenris-nested-vec/src/lib.rs impl<T> NestedVec<T> :: last_mut
//@ ret r
//@ spec
        requires old(self).wf()
        ensures r.is_some() == (old(self)@.len() > 0), r.is_some() ==> r.unwrap()@ == old(self)@.last(),
            final(self).wf(), final(self)@.len() == old(self)@.len(),
            r.is_none() ==> final(self)@ == old(self)@,
            r.is_some() ==> final(self)@.last() == final(r.unwrap())@,
            forall|j: int| 0 <= j < old(self)@.len() - 1 ==> #[trigger] final(self)@[j] == old(self)@[j],
//@ done
}
