use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs
//@ include asm_inc.vrs
pub open spec fn increasing(s: Seq<usize>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]) < (#[trigger] s[b]) }
//@ include pattern_spec_inc.vrs
//@ include pattern_inc.vrs
fn main() {}
}
