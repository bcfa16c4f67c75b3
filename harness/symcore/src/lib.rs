pub mod rat;
pub mod poly;
pub mod engine;
pub mod sym;
pub mod contract;
pub mod run;
pub use contract::{Contract, Cx, SReal, Outcome, Failure, Rng, prove, execute};
pub use sym::Sym;
