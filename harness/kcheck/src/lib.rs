//! Contracts on the real code decided by Kani (bit-precise, every machine value of the inputs); the same
//! contracts run natively on drawn inputs to find a failing one when a proof fails.
pub mod g;
#[macro_use]
mod mac {
    /// kproof! { name, unwind, bound, ["functions"], { body } }
    #[macro_export]
    macro_rules! kproofs {
        ($list:ident; $($(#[$m:meta])* $name:ident, $unwind:literal, $bound:expr, [$($f:expr),*], $body:block)*) => {
            $(
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($unwind))]
                $(#[$m])*
                pub fn $name() $body
            )*
            #[cfg(not(kani))]
            pub const $list: &[$crate::g::K] = &[$($crate::g::K { name: stringify!($name), f: $name, functions: &[$($f),*], bound: $bound }),*];
        };
    }
}
pub mod c03;
pub mod c10;
pub mod c23;
#[cfg(not(kani))]
pub fn all(prefix: &str) -> Vec<&'static g::K> {
    [c03::LIST, c10::LIST, c23::LIST].iter().flat_map(|l| l.iter()).filter(|k| k.name.starts_with(prefix)).collect()
}
