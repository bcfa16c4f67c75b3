use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ops::Range;
verus! {
//@ include nested_vec_inc.vrs

//@ include nested_vec_append_inc.vrs
//@ struct fenris-nested-vec/src/lib.rs UncheckedNestedVec
impl<T> NestedVec<T> {
//@ fn fenris-nested-vec/src/lib.rs impl<T> TryFrom<UncheckedNestedVec<T>> for NestedVec<T> :: try_from
//@ subst Self::Error => &'static str
//@ ret r
//@ spec
    ensures r.is_ok() ==> r.unwrap().wf(),
//@ loop 0 it
        invariant
            offsets_begin@.len() == offsets_end@.len(),
            it.index() <= offsets_begin@.len(), it.seq().len() == offsets_begin@.len(),
            forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]).0 == offsets_begin@[k] && *it.seq()[k].1 == offsets_end@[k],
            previous_end <= data@.len(),
            forall|i: int| 0 <= i < it.index() ==> offsets_begin@[i] <= #[trigger] offsets_end@[i] <= previous_end,
            forall|i: int, j: int| 0 <= i < j < it.index() ==> #[trigger] offsets_end@[i] <= #[trigger] offsets_begin@[j],
//@ done
}
impl<T: Clone> NestedVec<T> {
//@ fn fenris-nested-vec/src/lib.rs impl<'a, T: Clone> From<&'a Vec<Vec<T>>> for NestedVec<T> :: from
//@ rename from_vecs<'a>
//@ ret r
//@ spec
    ensures r.wf(), r@.len() == nested_vec@.len(), forall|i: int| 0 <= i < r@.len() ==> clone_of(nested_vec@[i]@, #[trigger] r@[i]),
//@ loop 0 it
        invariant result.wf(), it.seq() == nested_vec@.as_ref(), result@.len() == it.index(),
            forall|i: int| 0 <= i < it.index() ==> clone_of(nested_vec@[i]@, #[trigger] result@[i]),
//@ done
}

// A client: the appender, once dropped, has the effect of pushing the array at once.
fn begin_push_drop<T>(v: &mut NestedVec<T>, x: T, y: T)
    requires old(v).wf()
    ensures final(v).wf(), final(v)@ == old(v)@.push(seq![x, y])
{
    let mut a = v.begin_array();
    a.push_single(x).push_single(y);
    proof { assert(a.added() =~= seq![x, y]); }
    a.finish();
    proof { reveal(ArrayAppender::target); reveal(ArrayAppender::current); }
}
fn main() {}
}
