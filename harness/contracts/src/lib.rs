//! Shared specification tables: reference elements.
pub mod mock;
pub mod rng;
pub mod tiling;
use symcore::run::{bounded, Item};
use symcore::SReal;

/// Reference nodes in units of 1/3 (so that every node is integral).
pub fn nodes_seg2() -> Vec<Vec<i64>> {
    vec![vec![-3], vec![3]]
}
pub fn nodes_tri3() -> Vec<Vec<i64>> {
    vec![vec![-3, -3], vec![3, -3], vec![-3, 3]]
}
pub fn nodes_tri6() -> Vec<Vec<i64>> {
    let mut v = nodes_tri3();
    v.extend(midpoints(&v, &[(0, 1), (1, 2), (0, 2)]));
    v
}
pub fn nodes_quad4() -> Vec<Vec<i64>> {
    vec![vec![-3, -3], vec![3, -3], vec![3, 3], vec![-3, 3]]
}
pub fn nodes_quad9() -> Vec<Vec<i64>> {
    let mut v = nodes_quad4();
    v.extend(midpoints(&v, &[(0, 1), (1, 2), (2, 3), (3, 0)]));
    v.push(vec![0, 0]);
    v
}
pub fn nodes_tet4() -> Vec<Vec<i64>> {
    vec![vec![-3, -3, -3], vec![3, -3, -3], vec![-3, 3, -3], vec![-3, -3, 3]]
}
pub const TET10_EDGES: [(usize, usize); 6] = [(0, 1), (1, 2), (0, 2), (0, 3), (2, 3), (1, 3)];
pub fn nodes_tet10() -> Vec<Vec<i64>> {
    let mut v = nodes_tet4();
    v.extend(midpoints(&v, &TET10_EDGES));
    v
}
pub const TET20_EDGES: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
pub const TET20_FACES: [[usize; 3]; 4] = [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]];
pub fn nodes_tet20() -> Vec<Vec<i64>> {
    let mut v = nodes_tet4();
    let t = v.clone();
    for (a, b) in TET20_EDGES {
        v.push((0..3).map(|k| (2 * t[a][k] + t[b][k]) / 3).collect());
        v.push((0..3).map(|k| (t[a][k] + 2 * t[b][k]) / 3).collect());
    }
    for f in TET20_FACES {
        v.push((0..3).map(|k| (t[f[0]][k] + t[f[1]][k] + t[f[2]][k]) / 3).collect());
    }
    v
}
pub fn nodes_hex8() -> Vec<Vec<i64>> {
    vec![
        vec![-3, -3, -3],
        vec![3, -3, -3],
        vec![3, 3, -3],
        vec![-3, 3, -3],
        vec![-3, -3, 3],
        vec![3, -3, 3],
        vec![3, 3, 3],
        vec![-3, 3, 3],
    ]
}
pub const HEX_EDGES: [(usize, usize); 12] =
    [(0, 1), (0, 3), (0, 4), (1, 2), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 7), (5, 6), (6, 7)];
pub const HEX_FACES: [[usize; 4]; 6] = [[0, 1, 2, 3], [0, 1, 5, 4], [0, 3, 7, 4], [1, 2, 6, 5], [2, 3, 7, 6], [4, 5, 6, 7]];
pub fn nodes_hex20() -> Vec<Vec<i64>> {
    let mut v = nodes_hex8();
    v.extend(midpoints(&v, &HEX_EDGES));
    v
}
pub fn nodes_hex27() -> Vec<Vec<i64>> {
    let h = nodes_hex8();
    let mut v = nodes_hex20();
    for f in HEX_FACES {
        v.push((0..3).map(|k| f.iter().map(|i| h[*i][k]).sum::<i64>() / 4).collect());
    }
    v.push(vec![0, 0, 0]);
    v
}
fn midpoints(v: &[Vec<i64>], e: &[(usize, usize)]) -> Vec<Vec<i64>> {
    e.iter().map(|(a, b)| v[*a].iter().zip(&v[*b]).map(|(x, y)| (x + y) / 2).collect()).collect()
}

/// Exponents of the monomials an element must reproduce: total degree <= k, or tensor degree <= k.
pub fn monomials(d: usize, k: u32, tensor: bool) -> Vec<Vec<u32>> {
    let mut out = vec![vec![]];
    for _ in 0..d {
        out = out.into_iter().flat_map(|m: Vec<u32>| (0..=k).map(move |e| { let mut m = m.clone(); m.push(e); m })).collect();
    }
    if !tensor {
        out.retain(|m| m.iter().sum::<u32>() <= k);
    }
    out
}
pub fn eval_monomial<T: SReal>(m: &[u32], x: &[T]) -> T {
    let mut r = T::one();
    for (e, x) in m.iter().zip(x) {
        for _ in 0..*e {
            r *= *x;
        }
    }
    r
}
pub fn third<T: SReal>(n: i64) -> T {
    T::ratio(n, 3)
}

/// The Kani contracts of one property, run natively on drawn inputs: finds a failing input when a proof fails.
pub fn native_runs(prefix: &str) -> Vec<Item> {
    kcheck::all(prefix)
        .into_iter()
        .map(|k| {
            let bound = match k.bound {
                None => "all inputs by proof; natively 500 drawn inputs".to_string(),
                Some(b) => format!("proof bounded: {}; natively 500 drawn inputs", b),
            };
            bounded(&format!("native run of Kani contract: {}", k.name), k.functions, &bound, move |e| {
                let n = if e.thorough { 20000 } else { 500 };
                for i in 0..n {
                    let seed = e.seed.wrapping_mul(7919).wrapping_add(i);
                    let r = kcheck::g::run_native(k, seed);
                    match r {
                        Ok(None) => {}
                        Ok(Some(t)) => e.case(|| format!("inputs {:?}", t), || Ok(())),
                        Err((t, m)) => e.case(|| format!("seed {} inputs {:?}", seed, t), || Err(m.clone())),
                    }
                }
            })
        })
        .collect()
}
