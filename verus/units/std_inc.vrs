// Contracts assumed of functions of the standard library that vstd does not specify.
pub uninterp spec fn spec_max<T>(a: T, b: T) -> T;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [std::cmp::max] (a: T, b: T) -> (r: T)
    where T: std::cmp::Ord + std::marker::Destruct, ensures r == spec_max(a, b);
pub broadcast axiom fn max_usize(a: usize, b: usize) ensures #[trigger] spec_max(a, b) == (if a <= b { b } else { a });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [std::option::Option::<T>::or] (a: std::option::Option<T>, b: std::option::Option<T>) -> (r: std::option::Option<T>)
    where T: std::marker::Destruct, ensures r == (if a is Some { a } else { b });

// How the asserts and panics of the code are read: a function proved not to panic calls the first, one that may refuse
// its input calls the second.
#[verifier::external_body]
pub fn must_not_panic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn may_panic() -> ! { panic!() }
