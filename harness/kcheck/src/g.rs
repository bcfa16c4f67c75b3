//! Nondeterministic inputs: every value under Kani, drawn natively.
#[cfg(not(kani))]
pub struct K {
    pub name: &'static str,
    pub f: fn(),
    pub functions: &'static [&'static str],
    /// None: for all inputs; Some(text): for the stated sizes only.
    pub bound: Option<&'static str>,
}
#[cfg(not(kani))]
pub struct Reject;
#[cfg(not(kani))]
thread_local! {
    static STATE: std::cell::RefCell<(u64, u32, Vec<u64>)> = std::cell::RefCell::new((0, 0, vec![]));
}
#[cfg(not(kani))]
fn draw() -> u64 {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.0 = s.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
#[cfg(kani)]
pub fn any_usize() -> usize {
    kani::any()
}
#[cfg(not(kani))]
pub fn any_usize() -> usize {
    let r = draw();
    let v = match r % 8 {
        0 => usize::MAX - (r >> 8) as usize % 8,
        1 => (r >> 3) as usize,
        2 => (r >> 8) as usize % 64,
        _ => (r >> 8) as usize % 8,
    };
    STATE.with(|s| s.borrow_mut().2.push(v as u64));
    v
}
/// A value in lo..=hi
pub fn any_in(lo: usize, hi: usize) -> usize {
    #[cfg(kani)]
    {
        let v: usize = kani::any();
        kani::assume(lo <= v && v <= hi);
        v
    }
    #[cfg(not(kani))]
    {
        let v = lo + draw() as usize % (hi - lo + 1);
        STATE.with(|s| s.borrow_mut().2.push(v as u64));
        v
    }
}
pub fn any_bool() -> bool {
    any_in(0, 1) == 1
}
#[cfg(kani)]
pub fn any_arr<const N: usize>() -> [usize; N] {
    kani::any()
}
#[cfg(not(kani))]
pub fn any_arr<const N: usize>() -> [usize; N] {
    std::array::from_fn(|_| any_usize())
}
pub fn assume(b: bool) {
    #[cfg(kani)]
    kani::assume(b);
    #[cfg(not(kani))]
    if !b {
        std::panic::resume_unwind(Box::new(Reject));
    }
}
/// Run a contract natively on the inputs of one seed: Ok(None) when the inputs violate the precondition.
#[cfg(not(kani))]
pub fn run_native(k: &K, seed: u64) -> Result<Option<Vec<u64>>, (Vec<u64>, String)> {
    STATE.with(|s| *s.borrow_mut() = (seed.wrapping_mul(0x2545F4914F6CDD1D), 0, vec![]));
    let r = std::panic::catch_unwind(k.f);
    let t = STATE.with(|s| s.borrow().2.clone());
    match r {
        Ok(()) => Ok(Some(t)),
        Err(p) => {
            if p.is::<Reject>() {
                return Ok(None);
            }
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            Err((t, m))
        }
    }
}
