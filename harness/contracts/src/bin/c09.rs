//! C09: colouring and disjoint subsets.
use contracts::rng::*;
use fenris_nested_vec::NestedVec;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::DisjointSubsets;
use std::collections::BTreeSet;
use symcore::run::{bounded, Item};

fn disjoint(family: &[&[usize]]) -> bool {
    let mut all = BTreeSet::new();
    family.iter().all(|s| {
        let s: BTreeSet<usize> = s.iter().copied().collect();
        s.into_iter().all(|x| all.insert(x))
    })
}
/// The largest index decides which storages are accepted.
fn accepts(d: &DisjointSubsets, len: usize) -> bool {
    let mut data = vec![0u8; len];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = d.subsets_par_iter(&mut data[..]);
    }));
    r.is_ok()
}
fn max_ok(d: &DisjointSubsets) -> Result<(), String> {
    let max = d.subsets().iter().flatten().max().copied();
    match max {
        None => {
            if !accepts(d, 0) || !accepts(d, 3) {
                return Err("a collection without indices must accept every storage".into());
            }
        }
        Some(m) if m < 1 << 20 => {
            if !accepts(d, m + 1) || !accepts(d, m + 5) {
                return Err(format!("storage of length {} refused though the largest index is {}", m + 1, m));
            }
            if accepts(d, m) {
                return Err(format!("storage of length {} accepted though the largest index is {}", m, m));
            }
        }
        _ => {}
    }
    Ok(())
}
fn coloring(family: &[Vec<usize>]) -> Result<(), String> {
    let nested = NestedVec::from(&family.to_vec());
    let colors = sequential_greedy_coloring(&nested);
    let mut seen = vec![false; family.len()];
    for (k, c) in colors.iter().enumerate() {
        let subsets: Vec<&[usize]> = c.subsets().iter().collect();
        if subsets.len() != c.labels().len() || subsets.is_empty() {
            return Err(format!("colour {} has {} subsets and {} labels", k, subsets.len(), c.labels().len()));
        }
        for (l, s) in c.labels().iter().zip(&subsets) {
            if *l >= family.len() || seen[*l] {
                return Err(format!("subset {} appears twice or does not exist", l));
            }
            seen[*l] = true;
            if *s != &family[*l][..] {
                return Err(format!("subset {} is {:?}", l, s));
            }
        }
        if !disjoint(&subsets) {
            return Err(format!("colour {} is not disjoint: {:?}", k, subsets));
        }
        max_ok(c).map_err(|e| format!("colour {}: {}", k, e))?;
        match DisjointSubsets::try_from_disjoint_subsets(c.subsets().clone(), c.labels().to_vec()) {
            Ok(d) if d == *c => {}
            _ => return Err(format!("colour {} differs from the checked collection of its subsets", k)),
        }
    }
    if seen.contains(&false) {
        return Err(format!("subset {:?} has no colour", seen.iter().position(|s| !s)));
    }
    Ok(())
}
fn construct(family: &[Vec<usize>], labels: &[usize]) -> Result<(), String> {
    let want = disjoint(&family.iter().map(|v| &v[..]).collect::<Vec<_>>());
    let nested = NestedVec::from(&family.to_vec());
    match DisjointSubsets::try_from_disjoint_subsets(nested.clone(), labels.to_vec()) {
        Ok(d) => {
            if !want {
                return Err("overlapping subsets accepted".into());
            }
            if d.labels() != labels || *d.subsets() != nested || d.clone().into_subsets() != nested {
                return Err("labels or subsets changed".into());
            }
            max_ok(&d)?;
            let back: Result<DisjointSubsets, _> = serde_json::from_str(&serde_json::to_string(&d).unwrap());
            if back.ok() != Some(d) {
                return Err("serialization does not round-trip".into());
            }
            Ok(())
        }
        Err(_) if want => Err("disjoint subsets refused".into()),
        Err(_) => {
            // nor can they be smuggled in through serialization
            let max = family.iter().flatten().max().copied();
            let text = format!("{{\"max_index\":{},\"subsets\":{},\"labels\":{}}}", serde_json::to_string(&max).unwrap(), serde_json::to_string(&nested).unwrap(), serde_json::to_string(labels).unwrap());
            if serde_json::from_str::<DisjointSubsets>(&text).is_ok() {
                return Err("overlapping subsets deserialized".into());
            }
            Ok(())
        }
    }
}
fn draw(r: &mut Rng) -> Vec<Vec<usize>> {
    let n = [1, 3, 10, 40, 1000, 1 << 16][r.below(6)];
    let m = r.below(30);
    (0..m).map(|_| (0..r.below(9)).map(|_| r.below(n)).collect()).collect()
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut items: Vec<Item> = vec![];
    const F: [&str; 2] = ["sequential_greedy_coloring", "DisjointSubsets::subsets_par_iter"];
    const G: [&str; 5] = ["DisjointSubsets::try_from_disjoint_subsets", "DisjointSubsets::subsets", "DisjointSubsets::into_subsets", "DisjointSubsets::labels", "DisjointSubsets as Deserialize"];
    fn small(e: &mut symcore::run::Exec, f: fn(&[Vec<usize>]) -> Result<(), String>) {
        let (s3, s2) = (sequences(3, 3), sequences(3, 2));
        let mut all: Vec<Vec<Vec<usize>>> = vec![vec![]];
        all.extend(s3.iter().map(|a| vec![a.clone()]));
        all.extend(s3.iter().flat_map(|a| s3.iter().map(move |b| vec![a.clone(), b.clone()])));
        all.extend(s2.iter().flat_map(|a| s2.iter().map(move |b| (a, b))).flat_map(|(a, b)| sequences(3, 2).into_iter().map(move |c| vec![a.clone(), b.clone(), c])));
        // four subsets of at most one index, or pairs
        let s1: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![2], vec![0, 1], vec![2, 0], vec![1, 1]];
        for a in &s1 {
            for b in &s1 {
                for c in &s1 {
                    for d in &s1 {
                        all.push(vec![a.clone(), b.clone(), c.clone(), d.clone()]);
                    }
                }
            }
        }
        for x in all {
            e.case(|| format!("{:?}", x), || f(&x));
        }
    }
    items.push(bounded("colouring of every small family", &F, "every family of at most 2 subsets of length at most 3, of 3 subsets of length at most 2 and 2401 families of 4 subsets, of indices below 3", |e| small(e, coloring)));
    items.push(bounded("construction from every small family", &G, "every family of at most 2 subsets of length at most 3, of 3 subsets of length at most 2 and 2401 families of 4 subsets, of indices below 3", |e| small(e, |f| construct(f, &(0..f.len()).map(|i| 7 * i + 3).collect::<Vec<_>>()))));
    items.push(bounded("colouring of drawn families", &F, "1000 drawn families (20000 thorough) of up to 29 subsets of up to 8 indices below 65536", |e| {
        let mut r = Rng(e.seed ^ 9);
        for _ in 0..if e.thorough { 20000 } else { 1000 } {
            let f = draw(&mut r);
            e.case(|| format!("{:?}", f), || coloring(&f));
        }
    }));
    items.push(bounded("construction from drawn families", &G, "1000 drawn families (20000 thorough): partitions of a shuffled range, one index repeated in another subset in half of them", |e| {
        let mut r = Rng(e.seed ^ 0x99);
        for k in 0..if e.thorough { 20000 } else { 1000 } {
            let n = 1 + r.below(60);
            let mut ids: Vec<usize> = (0..n).map(|i| 3 * i + r.below(3)).collect();
            r.shuffle(&mut ids);
            let mut f: Vec<Vec<usize>> = vec![vec![]; 1 + r.below(8)];
            for i in ids {
                let m = f.len();
                let t = &mut f[r.below(m)];
                t.push(i);
                if r.below(5) == 0 {
                    t.push(i);
                }
            }
            if k % 2 == 0 && f.len() > 1 {
                let (a, b) = (r.below(f.len()), r.below(f.len()));
                if a != b && !f[a].is_empty() {
                    let x = f[a][r.below(f[a].len())];
                    let at = r.below(f[b].len() + 1);
                    f[b].insert(at, x);
                }
            }
            let labels: Vec<usize> = f.iter().map(|_| r.below(1000)).collect();
            e.case(|| format!("{:?} labels {:?}", f, labels), || construct(&f, &labels));
        }
    }));
    items.push(bounded("mismatched labels and wrong maxima", &G, "6 fixed cases", |e| {
        for l in [0, 1, 3] {
            e.case(|| format!("2 subsets, {} labels", l), || {
                let r = std::panic::catch_unwind(|| {
                    let _ = DisjointSubsets::try_from_disjoint_subsets(vec![vec![0], vec![1]], vec![0; l]);
                });
                if r.is_ok() { Err("accepted".into()) } else { Ok(()) }
            });
        }
        let d = DisjointSubsets::try_from_disjoint_subsets(vec![vec![0], vec![4]], vec![0, 1]).unwrap();
        let good = serde_json::to_string(&d).unwrap();
        for (a, b) in [("4,\"subsets", "3,\"subsets"), ("4,\"subsets", "null,\"subsets"), ("\"labels\":[0,1]", "\"labels\":[0]")] {
            let bad = good.replace(a, b);
            e.case(|| bad.clone(), || if bad == good || serde_json::from_str::<DisjointSubsets>(&bad).is_err() { Ok(()) } else { Err("accepted".into()) });
        }
    }));
    symcore::run::main(items);
}
