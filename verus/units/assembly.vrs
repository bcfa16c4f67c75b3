use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::Range;
verus! {
//@ include std_inc.vrs
//@ include real_inc.vrs
//@ include asm_inc.vrs

// what the vector of one element adds to entry r: its first `upto` nodes
pub open spec fn scattered(nodes: Seq<usize>, s: int, loc: Seq<real>, r: int, upto: int) -> real decreases upto {
    if upto <= 0 { 0real } else {
        let g = s * nodes[upto - 1];
        scattered(nodes, s, loc, r, upto - 1) + if g <= r < g + s { loc[s * (upto - 1) + (r - g)] } else { 0real }
    }
}
pub open spec fn total_vector<A: Elements>(a: A, r: int, upto: int) -> real decreases upto {
    if upto <= 0 { 0real } else {
        total_vector(a, r, upto - 1) + scattered(a.nodes(upto - 1), a.sdim() as int, a.vector(upto - 1).unwrap(), r, a.nodes(upto - 1).len() as int)
    }
}
pub open spec fn total_scalar<A: Elements>(a: A, upto: int) -> real decreases upto {
    if upto <= 0 { 0real } else { total_scalar(a, upto - 1) + a.scalar(upto - 1).unwrap() }
}

pub open spec fn gathered(local: Seq<T>, global: Seq<T>, index: int, s: int, k: int) -> bool {
    forall|j: int| 0 <= j < s ==> #[trigger] local[s * k + j] == global[s * index + j]
}
pub proof fn lemma_dofs<A: Elements>(a: A, e: int)
    requires valid(a), 0 <= e < a.count()
    ensures
        a.sdim() * a.nodes(e).len() == a.nodes(e).len() * a.sdim(), a.sdim() * a.nodes(e).len() <= usize::MAX,
        forall|k: int| 0 <= k < a.nodes(e).len() ==> a.sdim() * (#[trigger] a.nodes(e)[k]) + a.sdim() <= a.sdim() * a.n(),
{
    assert(a.sdim() * a.nodes(e).len() == a.nodes(e).len() * a.sdim()) by (nonlinear_arith);
    assert forall|k: int| 0 <= k < a.nodes(e).len() implies a.sdim() * (#[trigger] a.nodes(e)[k]) + a.sdim() <= a.sdim() * a.n() by {
        lemma_block(a.sdim() as int, a.nodes(e)[k] as int, a.n() as int);
    }
}
//@ fn src/assembly/global.rs gather_global_to_local_
//@ instantiate T = real numbers
//@ subst DVectorView<T> => &Vec<T>
//@ subst mut local: DVectorViewMut<T> => local: &mut Vec<T>
//@ subst indices.iter().enumerate() => enumerated(indices)
//@ subst local.index_mut(( => rows_copy(&mut *local, (
//@ subst , 0)).copy_from(&global.index(( => ), global, (
//@ subst , 0))); => ));
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        old(local)@.len() == indices@.len() * solution_dim, old(local)@.len() <= usize::MAX, global@.len() <= usize::MAX,
        forall|k: int| 0 <= k < indices@.len() ==> solution_dim * (#[trigger] indices@[k]) + solution_dim <= global@.len(),
    ensures
        final(local)@.len() == old(local)@.len(),
        forall|k: int| #![trigger indices@[k]] 0 <= k < indices@.len() ==> gathered(final(local)@, global@, indices@[k] as int, solution_dim as int, k),
//@ loop 0 it
    invariant
        it.seq().len() == indices@.len(),
        forall|k: int| 0 <= k < indices@.len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == indices@[k],
        local@.len() == indices@.len() * s,
        forall|k: int| #![trigger indices@[k]] 0 <= k < it.index() ==> gathered(local@, global@, indices@[k] as int, solution_dim as int, k),
//@ loop-start 0
    let ghost before = local@;
    proof {
        lemma_block(s as int, it.index() as int, indices@.len() as int);
        assert(*i_global == indices@[it.index() as int]);
        assert(s * indices@.len() == indices@.len() * s) by (nonlinear_arith);
        assert(0 <= s * *i_global) by (nonlinear_arith);
    }
//@ loop-end 0
    proof {
        assert forall|k: int| #![trigger indices@[k]] 0 <= k < it.index() + 1 implies gathered(local@, global@, indices@[k] as int, solution_dim as int, k) by {
            if k < it.index() { 
                lemma_block(s as int, k, it.index() as int);
                assert(gathered(before, global@, indices@[k] as int, solution_dim as int, k));
                assert forall|j: int| 0 <= j < s implies #[trigger] local@[s * k + j] == global@[s * indices@[k] + j] by { assert(before[s * k + j] == global@[s * indices@[k] + j]); }
            }
        }
    }
//@ done
//@ fn src/assembly/global.rs add_local_to_global_
//@ instantiate T = real numbers
//@ subst DVectorView<'a, T> => &Vec<T>
//@ subst mut global: DVectorViewMut<'a, T> => global: &mut Vec<T>
//@ subst indices.iter().enumerate() => enumerated(indices)
//@ subst global.index_mut(( => rows_add(&mut *global, (
//@ subst , 0)).add_assign(&local.index(( => ), local, (
//@ subst , 0))); => ));
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        local@.len() == indices@.len() * solution_dim, local@.len() <= usize::MAX, old(global)@.len() <= usize::MAX,
        forall|k: int| 0 <= k < indices@.len() ==> solution_dim * (#[trigger] indices@[k]) + solution_dim <= old(global)@.len(),
    ensures
        final(global)@.len() == old(global)@.len(),
        forall|r: int| 0 <= r < old(global)@.len() ==> (#[trigger] final(global)@[r]).v() == old(global)@[r].v() + scattered(indices@, solution_dim as int, values(local@), r, indices@.len() as int),
//@ loop 0 it
    invariant
        it.seq().len() == indices@.len(),
        forall|k: int| 0 <= k < indices@.len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == indices@[k],
        global@.len() == old(global)@.len(),
        forall|r: int| 0 <= r < old(global)@.len() ==> (#[trigger] global@[r]).v() == old(global)@[r].v() + scattered(indices@, solution_dim as int, values(local@), r, it.index() as int),
//@ loop-start 0
    let ghost before = global@;
    proof {
        lemma_block(s as int, it.index() as int, indices@.len() as int);
        assert(*i_global == indices@[it.index() as int]);
        assert(s * indices@.len() == indices@.len() * s) by (nonlinear_arith);
        assert(0 <= s * *i_global) by (nonlinear_arith);
    }
//@ done
//@ fn src/assembly/global.rs add_local_to_global
//@ instantiate T = real numbers
//@ subst impl Into<DVectorView<'a, T>> => &Vec<T>
//@ subst impl Into<DVectorViewMut<'a, T>> => &mut Vec<T>
//@ subst local.into() => local
//@ subst global.into() => global
//@ spec
    requires
        local@.len() == indices@.len() * solution_dim, local@.len() <= usize::MAX, old(global)@.len() <= usize::MAX,
        forall|k: int| 0 <= k < indices@.len() ==> solution_dim * (#[trigger] indices@[k]) + solution_dim <= old(global)@.len(),
    ensures
        final(global)@.len() == old(global)@.len(),
        forall|r: int| 0 <= r < old(global)@.len() ==> (#[trigger] final(global)@[r]).v() == old(global)@[r].v() + scattered(indices@, solution_dim as int, values(local@), r, indices@.len() as int),
//@ done
pub struct VectorAssemblerWorkspace { vector: Vec<T>, nodes: Vec<usize> }
// a workspace as an earlier call may have left it
#[verifier::external_body]
pub fn some_workspace() -> VectorAssemblerWorkspace { unimplemented!() }
#[verifier::external_body]
pub fn resize_vector(v: &mut Vec<T>, n: usize, x: T) ensures final(v)@.len() == n { v.resize(n, x) }
#[verifier::external_body]
pub fn zeros(n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).v() == 0real { vec![T::zero(); n] }
pub struct VectorAssembler;
impl VectorAssembler {
//@ fn src/assembly/global.rs impl<T: Real> VectorAssembler<T> :: assemble_vector_into
//@ instantiate T = real numbers
//@ subst impl Into<DVectorViewMut<'a, T>> => &mut Vec<T>
//@ subst impl ElementVectorAssembler<T> => impl Elements
//@ subst eyre::Result<()> => Result<(), Report>
//@ subst let mut output = output.into(); =>
//@ subst self.workspace.borrow_mut() => some_workspace()
//@ subst workspace.vector.resize_vertically_mut( => resize_vector(&mut workspace.vector,
//@ subst (&mut workspace.vector).into() => &mut workspace.vector
//@ subst &mut output => &mut *output
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        valid(*element_assembler), old(output)@.len() == element_assembler.sdim() * element_assembler.n(),
    ensures
        final(output)@.len() == old(output)@.len(),
        res.is_ok() == (forall|e: int| 0 <= e < element_assembler.count() ==> (#[trigger] element_assembler.vector(e)).is_some()),
        res.is_ok() ==> forall|r: int| 0 <= r < old(output)@.len() ==> (#[trigger] final(output)@[r]).v() == old(output)@[r].v() + total_vector(*element_assembler, r, element_assembler.count() as int),
//@ loop 0
    invariant
        output@.len() == old(output)@.len(),
        forall|e: int| 0 <= e < i ==> (#[trigger] element_assembler.vector(e)).is_some(),
        forall|r: int| 0 <= r < old(output)@.len() ==> (#[trigger] output@[r]).v() == old(output)@[r].v() + total_vector(*element_assembler, r, i as int),
//@ loop-start 0
    proof { lemma_dofs(*element_assembler, i as int); }
//@ done
//@ fn src/assembly/global.rs impl<T: Real> VectorAssembler<T> :: assemble_vector
//@ instantiate T = real numbers
//@ subst impl ElementVectorAssembler<T> => impl Elements
//@ subst eyre::Result<DVector<T>> => Result<Vec<T>, Report>
//@ subst DVector::zeros( => zeros(
//@ ret res
//@ spec
    requires
        valid(*element_assembler),
    ensures
        res.is_ok() == (forall|e: int| 0 <= e < element_assembler.count() ==> (#[trigger] element_assembler.vector(e)).is_some()),
        res matches Ok(v) ==> v@.len() == element_assembler.sdim() * element_assembler.n() &&
            forall|r: int| 0 <= r < v@.len() ==> (#[trigger] v@[r]).v() == total_vector(*element_assembler, r, element_assembler.count() as int),
//@ done
}
//@ fn src/assembly/global.rs assemble_scalar
//@ instantiate T = real numbers
//@ subst (impl ElementScalarAssembler<T> + ?Sized) => impl Elements
//@ subst eyre::Result<T> => Result<T, Report>
//@ subst .map_err(|error| error.wrap_err(format!("Assembling scalar failed for element {}", i))) =>
//@ ret res
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        res.is_ok() == (forall|e: int| 0 <= e < element_assembler.count() ==> (#[trigger] element_assembler.scalar(e)).is_some()),
        res matches Ok(x) ==> x.v() == total_scalar(*element_assembler, element_assembler.count() as int),
//@ loop 0
    invariant
        forall|e: int| 0 <= e < i ==> (#[trigger] element_assembler.scalar(e)).is_some(),
        global_potential.v() == total_scalar(*element_assembler, i as int),
//@ done
fn main() {}
}
