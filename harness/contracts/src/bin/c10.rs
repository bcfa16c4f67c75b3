//! C10: parallel iteration over disjoint subsets.
use contracts::native_runs;
use contracts::rng::*;
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::{BlockAdapter, BlockMut};
use fenris_paradis::slice::ParallelSliceAccess;
use fenris_paradis::*;
use fenris_sparse::ParallelCsrRowCollection;
use fenris::nalgebra_sparse::{pattern::SparsityPattern, CsrMatrix};
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use std::panic::{catch_unwind, AssertUnwindSafe};
use symcore::run::{bounded, Item};

/// How a producer is consumed.
#[derive(Clone, Debug)]
enum Tree {
    Forward,
    Backward,
    /// bit k: the k-th item is taken from the back
    Mixed(u32),
    Split(usize, Box<Tree>, Box<Tree>),
}
use Tree::*;
/// Every way to consume `len` items with at most `depth` nested splits.
fn trees(len: usize, depth: usize) -> Vec<Tree> {
    let mut r = vec![Forward, Backward];
    if len >= 2 {
        r.push(Mixed(0x5555_5555));
    }
    if depth > 0 {
        for i in 0..=len {
            let (a, b) = (trees(i, depth - 1), trees(len - i, depth - 1));
            for x in &a {
                for y in &b {
                    r.push(Split(i, Box::new(x.clone()), Box::new(y.clone())));
                }
            }
        }
    }
    r
}
fn drawn(r: &mut Rng, len: usize, depth: usize) -> Tree {
    match r.below(if depth > 0 { 8 } else { 3 }) {
        0 => Forward,
        1 => Backward,
        2 => Mixed(r.next() as u32),
        _ => {
            let i = r.below(len + 1);
            Split(i, Box::new(drawn(r, i, depth - 1)), Box::new(drawn(r, len - i, depth - 1)))
        }
    }
}
fn consume<P: Producer>(p: P, t: &Tree, out: &mut Vec<P::Item>) -> Result<(), String> {
    match t {
        Split(i, a, b) => {
            let (x, y) = p.split_at(*i);
            // the right part first: the parts are independent
            let mut tail = vec![];
            consume(y, b, &mut tail)?;
            consume(x, a, out)?;
            out.extend(tail);
            Ok(())
        }
        _ => {
            let mut it = p.into_iter();
            let mut back = vec![];
            let n = it.len();
            let mut k = 0;
            loop {
                if it.len() != n - k || it.size_hint() != (n - k, Some(n - k)) {
                    return Err(format!("{} items of {} taken, size hint {:?}", k, n, it.size_hint()));
                }
                let from_back = match t {
                    Forward => false,
                    Backward => true,
                    Mixed(m) => m >> (k % 32) & 1 == 1,
                    _ => unreachable!(),
                };
                match if from_back { it.next_back() } else { it.next() } {
                    None => break,
                    Some(x) if from_back => back.push(x),
                    Some(x) => out.push(x),
                }
                k += 1;
                if k > n {
                    return Err("more items than announced".into());
                }
            }
            if it.next().is_some() || it.next_back().is_some() {
                return Err("an item after the end".into());
            }
            back.reverse();
            out.extend(back);
            Ok(())
        }
    }
}
struct Cb<'t>(&'t Tree);
impl<'t, T> ProducerCallback<T> for Cb<'t> {
    type Output = Result<Vec<T>, String>;
    fn callback<P: Producer<Item = T>>(self, p: P) -> Self::Output {
        let mut out = vec![];
        consume(p, self.0, &mut out)?;
        Ok(out)
    }
}
fn collection(sets: &[Vec<usize>], labels: &[usize]) -> Result<DisjointSubsets, String> {
    let mut n = NestedVec::new();
    for s in sets {
        n.push(s);
    }
    DisjointSubsets::try_from_disjoint_subsets(n, labels.to_vec()).map_err(|_| "disjoint subsets rejected".to_string())
}
fn refused(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
/// The items are the subsets in order, and give access to the entries of `data` they name.
fn slice_case(sets: &[Vec<usize>], labels: &[usize], len: usize, t: &Tree) -> Result<(), String> {
    let d = collection(sets, labels)?;
    let mut data: Vec<u32> = (0..len as u32).map(|i| 7 * i).collect();
    let base = data.as_ptr();
    let it = d.subsets_par_iter(&mut data[..]);
    if it.len() != sets.len() || it.opt_len() != Some(sets.len()) {
        return Err(format!("announces {} subsets", it.len()));
    }
    let mut got = it.with_producer(Cb(t))?;
    if got.len() != sets.len() {
        return Err(format!("{} of {} subsets", got.len(), sets.len()));
    }
    for (k, s) in got.iter_mut().enumerate() {
        if s.label() != labels[k] || s.global_indices() != &sets[k][..] || s.len() != sets[k].len() {
            return Err(format!("item {} is subset {:?} with label {}", k, s.global_indices(), s.label()));
        }
        for (l, g) in sets[k].iter().enumerate() {
            let want = unsafe { base.add(*g) };
            if s.get(l) as *const u32 != want || s.get_mut(l) as *const u32 != want {
                return Err(format!("item {}, local index {}: not entry {}", k, l, g));
            }
            if *s.get(l) != 7 * *g as u32 {
                return Err(format!("entry {} reads {}", g, s.get(l)));
            }
        }
        for l in [s.len(), s.len() + 1, usize::MAX] {
            if !refused(|| { let _ = s.get(l); }) || !refused(|| { let _ = s.get_mut(l); }) {
                return Err(format!("item {}: local index {} is not refused", k, l));
            }
        }
    }
    // written through the items: every named entry is written, nothing else is
    for s in got.iter_mut() {
        let lab = s.label() as u32;
        for l in 0..s.len() {
            *s.get_mut(l) = 1000 + lab;
        }
    }
    drop(got);
    for i in 0..len {
        let want = sets.iter().position(|s| s.contains(&i)).map(|k| 1000 + labels[k] as u32).unwrap_or(7 * i as u32);
        if data[i] != want {
            return Err(format!("entry {} is {}, expected {}", i, data[i], want));
        }
    }
    // a storage that is too small is refused
    if let Some(max) = sets.iter().flatten().max() {
        for n in [*max, 0] {
            let mut small = vec![0u32; n];
            if !refused(|| { let _ = d.subsets_par_iter(&mut small[..]); }) {
                return Err(format!("storage of {} entries accepted", n));
            }
        }
        if refused(|| { let _ = d.subsets_par_iter(&mut vec![0u32; *max + 1][..]); }) {
            return Err(format!("storage of {} entries refused", max + 1));
        }
    }
    Ok(())
}
fn families(max_sets: usize, n: usize) -> Vec<Vec<Vec<usize>>> {
    // every assignment of the entries 0..n to no subset or one of the subsets
    let mut r = vec![];
    for k in 0..=max_sets {
        for mut code in 0..(k + 1).pow(n as u32) {
            let mut sets = vec![vec![]; k];
            for i in 0..n {
                let c = code % (k + 1);
                code /= k + 1;
                if c > 0 {
                    sets[c - 1].push(i);
                }
            }
            r.push(sets);
        }
    }
    r
}
fn block_case(sets: &[Vec<usize>], labels: &[usize], blocks: usize, bs: usize, t: &Tree) -> Result<(), String> {
    let d = collection(sets, labels)?;
    let mut data = vec![0u32; blocks * bs];
    let base = data.as_ptr();
    let mut a = BlockAdapter::with_block_size(&mut data[..], bs);
    if ParallelIndexedCollection::len(&a) != blocks {
        return Err(format!("{} blocks of {}", ParallelIndexedCollection::len(&a), bs));
    }
    let mut got = d.subsets_par_iter(&mut a).with_producer(Cb(t))?;
    if got.len() != sets.len() {
        return Err("number of subsets".into());
    }
    for (k, s) in got.iter_mut().enumerate() {
        for (l, g) in sets[k].iter().enumerate() {
            for j in (0..bs + 3).chain([usize::MAX]) {
                let want = if j < bs { Some(unsafe { base.add(g * bs + j) }) } else { None };
                let b = s.get(l);
                let r1 = b.get(j).map(|x| x as *const u32);
                let mut m = s.get_mut(l);
                let r2 = m.get(j).map(|x| x as *const u32);
                let r3 = m.get_mut(j).map(|x| x as *const u32);
                if r1 != want || r2 != want || r3 != want || m.len() != bs {
                    return Err(format!("block {} entry {}", g, j));
                }
                if j < bs {
                    if m.index(j) as *const u32 != want.unwrap() || m.index_mut(j) as *const u32 != want.unwrap() || s.get(l).index(j) as *const u32 != want.unwrap() {
                        return Err(format!("block {} index {}", g, j));
                    }
                    *s.get_mut(l).index_mut(j) = (1 + labels[k]) as u32;
                } else if !refused(|| { let _ = s.get_mut(l).index_mut(j); }) || !refused(|| { let _ = s.get_mut(l).index(j); }) || !refused(|| { let _ = s.get(l).index(j); }) {
                    return Err(format!("block {} index {} is not refused", g, j));
                }
            }
        }
    }
    drop(got);
    for i in 0..blocks * bs {
        let want = sets.iter().position(|s| s.contains(&(i / bs))).map(|k| 1 + labels[k]).unwrap_or(0);
        if data[i] != want as u32 {
            return Err(format!("entry {} is {}, expected {}", i, data[i], want));
        }
    }
    Ok(())
}
/// Rows of a sparse matrix, optionally in blocks.
fn rows_case(rows: &[Vec<usize>], sets: &[Vec<usize>], bs: usize, t: &Tree) -> Result<(), String> {
    let n = rows.len();
    let mut off = vec![0];
    for r in rows {
        off.push(off.last().unwrap() + r.len());
    }
    let cols: Vec<usize> = rows.iter().flatten().copied().collect();
    let p = SparsityPattern::try_from_offsets_and_indices(n, 6, off.clone(), cols).map_err(|e| format!("{}", e))?;
    let values: Vec<f64> = (0..p.nnz()).map(|i| i as f64).collect();
    let mut m = CsrMatrix::try_from_pattern_and_values(p, values.clone()).unwrap();
    let labels: Vec<usize> = (0..sets.len()).collect();
    let d = collection(sets, &labels)?;
    let base = m.values().as_ptr();
    let row = |cols: &[usize], vals: &[f64], i: usize| -> Result<(), String> {
        if cols != &rows[i][..] || vals.len() != cols.len() || vals.as_ptr() != unsafe { base.add(off[i]) } {
            return Err(format!("row {}: columns {:?}, {} values", i, cols, vals.len()));
        }
        Ok(())
    };
    {
        let mut c = ParallelCsrRowCollection(&mut m);
        if ParallelIndexedCollection::len(&c) != n {
            return Err("number of rows".into());
        }
        if bs == 1 {
            let mut got = d.subsets_par_iter(&mut c).with_producer(Cb(t))?;
            for (k, s) in got.iter_mut().enumerate() {
                for (l, i) in sets[k].iter().enumerate() {
                    {
                        let r = s.get(l);
                        row(r.col_indices(), r.values(), *i)?;
                        if r.nnz() != rows[*i].len() {
                            return Err("nnz".into());
                        }
                    }
                    let mut r = s.get_mut(l);
                    if r.nnz() != rows[*i].len() || r.values_mut().len() != r.nnz() {
                        return Err("nnz".into());
                    }
                    let (c, v) = r.cols_and_values_mut();
                    row(c, v, *i)?;
                    v.iter_mut().for_each(|x| *x += 100.0);
                }
            }
        } else {
            let mut a = BlockAdapter::with_block_size(&mut c, bs);
            let mut got = d.subsets_par_iter(&mut a).with_producer(Cb(t))?;
            for (k, s) in got.iter_mut().enumerate() {
                for (l, g) in sets[k].iter().enumerate() {
                    let mut b = s.get_mut(l);
                    for j in 0..bs {
                        let mut r = b.get_mut(j).ok_or("row in block")?;
                        let (c, v) = r.cols_and_values_mut();
                        row(c, v, g * bs + j)?;
                        v.iter_mut().for_each(|x| *x += 100.0);
                    }
                    if b.get_mut(bs).is_some() {
                        return Err("row outside the block".into());
                    }
                }
            }
        }
    }
    for i in 0..n {
        let hit = sets.iter().any(|s| s.contains(&(i / bs)));
        for k in off[i]..off[i + 1] {
            if m.values()[k] != values[k] + if hit { 100.0 } else { 0.0 } {
                return Err(format!("value {} in row {}", k, i));
            }
        }
    }
    Ok(())
}
/// Run by rayon's own scheduler.
fn rayon_case(sets: &[Vec<usize>], labels: &[usize], len: usize) -> Result<(), String> {
    let d = collection(sets, labels)?;
    let mut data = vec![0u64; len];
    let want: Vec<(usize, Vec<usize>)> = labels.iter().copied().zip(sets.iter().cloned()).collect();
    let seen: Vec<(usize, Vec<usize>)> = d
        .subsets_par_iter(&mut data[..])
        .map(|mut s| {
            for l in 0..s.len() {
                *s.get_mut(l) += 1 + s.label() as u64;
            }
            (s.label(), s.global_indices().to_vec())
        })
        .collect();
    if seen != want {
        return Err(format!("collected {:?}", seen));
    }
    for i in 0..len {
        let w: u64 = want.iter().map(|(l, s)| s.iter().filter(|x| **x == i).count() as u64 * (1 + *l as u64)).sum();
        if data[i] != w {
            return Err(format!("entry {} is {}, expected {}", i, data[i], w));
        }
    }
    // other consumers of the indexed iterator
    let n = sets.len();
    for k in [0, n / 2, n, n + 3] {
        let mut lab: Vec<usize> = d.subsets_par_iter(&mut data[..]).take(k).map(|s| s.label()).collect();
        lab.extend(d.subsets_par_iter(&mut data[..]).skip(k).map(|s| s.label()).collect::<Vec<_>>());
        if lab != labels {
            return Err(format!("take and skip {}: {:?}", k, lab));
        }
    }
    let rev: Vec<usize> = d.subsets_par_iter(&mut data[..]).rev().map(|s| s.label()).collect();
    if rev.iter().rev().ne(labels.iter()) {
        return Err(format!("rev: {:?}", rev));
    }
    if d.subsets_par_iter(&mut data[..]).count() != n || d.subsets_par_iter(&mut data[..]).with_max_len(1).map(|s| s.label()).collect::<Vec<_>>() != labels {
        return Err("count".into());
    }
    Ok(())
}
/// Does the type implement Clone?
struct Probe<T>(std::marker::PhantomData<T>);
trait NotClone {
    fn is_clone(&self) -> bool {
        false
    }
}
impl<T> NotClone for &Probe<T> {}
trait IsClone {
    fn is_clone(&self) -> bool;
}
impl<T: Clone> IsClone for Probe<T> {
    fn is_clone(&self) -> bool {
        true
    }
}
macro_rules! is_clone {
    ($t:ty) => {
        (&Probe::<$t>(std::marker::PhantomData)).is_clone()
    };
}
fn main() {
    let mut items: Vec<Item> = native_runs("c10_");
    const P: [&str; 6] = ["DisjointSubsetsParIter::with_producer", "DisjointSubsetsProducer::split_at", "DisjointSubsetsProducer::into_iter", "DisjointSubsetsIter::next", "DisjointSubsetsIter::next_back", "SubsetAccess::get_mut"];
    items.push(bounded("every way of splitting the work", &P, "0 to 4 subsets, at most 2 nested splits (every split point, both ends included), every leaf consumed forwards, backwards or alternating; 5 entries", |e| {
        let mut r = Rng(e.seed);
        for k in 0..=4usize {
            let fams: Vec<_> = families(k, 4).into_iter().filter(|f| f.len() == k).collect();
            for t in trees(k, 2) {
                let sets = &fams[r.below(fams.len())];
                let labels: Vec<usize> = (0..k).map(|_| r.below(100)).collect();
                e.case(|| format!("subsets {:?} labels {:?} consumed {:?}", sets, labels, t), || slice_case(sets, &labels, 5, &t));
            }
        }
    }));
    items.push(bounded("every family of subsets", &P, "every family of at most 3 disjoint subsets of 4 entries, consumed in 4 drawn ways each; subsets with repeated entries among drawn ones of up to 40 subsets", |e| {
        let mut r = Rng(e.seed ^ 0xC10);
        for sets in families(3, 4) {
            for _ in 0..4 {
                let labels: Vec<usize> = (0..sets.len()).map(|_| r.below(100)).collect();
                let t = drawn(&mut r, sets.len(), 3);
                e.case(|| format!("subsets {:?} labels {:?} consumed {:?}", sets, labels, t), || slice_case(&sets, &labels, 4 + r.below(2), &t));
            }
        }
        for _ in 0..if e.thorough { 3000 } else { 200 } {
            let (sets, labels, n) = drawn_family(&mut r);
            let t = drawn(&mut r, sets.len(), 6);
            e.case(|| format!("subsets {:?} labels {:?} of {} entries consumed {:?}", sets, labels, n, t), || slice_case(&sets, &labels, n, &t));
        }
    }));
    items.push(bounded("blocks", &["BlockAdapter::with_block_size", "BlockAdapter::len", "Block::get", "BlockMut::get_mut", "BlockMut::get", "Block::index", "BlockMut::index_mut", "BlockAccess::get_unchecked_mut"], "every family of at most 2 disjoint subsets of 3 blocks, block sizes 1 to 4; every block size 0 to 7 for 0 to 12 entries", |e| {
        let mut r = Rng(e.seed ^ 0xB10);
        for sets in families(2, 3) {
            for bs in 1..=4 {
                let labels: Vec<usize> = (0..sets.len()).map(|_| r.below(100)).collect();
                let t = drawn(&mut r, sets.len(), 2);
                e.case(|| format!("subsets {:?} labels {:?} block size {} consumed {:?}", sets, labels, bs, t), || block_case(&sets, &labels, 3, bs, &t));
            }
        }
        for len in 0..=12usize {
            for bs in 0..=7usize {
                e.case(|| format!("{} entries, block size {}", len, bs), || {
                    let mut v = vec![0u8; len];
                    let ok = !refused(|| { BlockAdapter::with_block_size(&mut v[..], bs); });
                    if ok != (bs > 0 && len % bs == 0) { Err(format!("accepted: {}", ok)) } else { Ok(()) }
                });
            }
        }
    }));
    items.push(bounded("mutable blocks are not duplicated", &["BlockMut"], "the type itself", |e| {
        e.case(|| "BlockMut".into(), || {
            if is_clone!(BlockMut<'static, ParallelSliceAccess<'static, u32>>) {
                return Err("BlockMut can be cloned: safe code obtains two mutable references to one entry".into());
            }
            if !is_clone!(u32) {
                return Err("probe".into());
            }
            Ok(())
        });
    }));
    items.push(bounded("rows of a sparse matrix", &["ParallelCsrRowCollection", "CsrParallelRowAccess::get_unchecked", "CsrParallelRowAccess::get_unchecked_mut", "ParCsrRowMut::cols_and_values_mut"], "every family of at most 2 disjoint subsets of 4 rows with drawn columns, in blocks of 1 and 2", |e| {
        let mut r = Rng(e.seed ^ 0xD10);
        for sets in families(2, 4) {
            for bs in [1, 2] {
                let rows: Vec<Vec<usize>> = (0..4 * bs).map(|_| { let m = r.below(64); (0..6).filter(|j| m >> j & 1 == 1).collect() }).collect();
                let t = drawn(&mut r, sets.len(), 2);
                e.case(|| format!("rows {:?} subsets {:?} block size {} consumed {:?}", rows, sets, bs, t), || rows_case(&rows, &sets, bs, &t));
            }
        }
    }));
    items.push(bounded("run by rayon", &["DisjointSubsets::subsets_par_iter", "DisjointSubsetsParIter"], "150 drawn collections (1000 thorough) of up to 40 subsets on 1, 2, 3 and 8 threads", |e| {
        let pools: Vec<_> = [1, 2, 3, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect();
        let mut r = Rng(e.seed ^ 0xA10);
        for k in 0..if e.thorough { 1000 } else { 150 } {
            let (sets, labels, n) = drawn_family(&mut r);
            e.case(|| format!("subsets {:?} labels {:?} of {} entries, {} threads", sets, labels, n, [1, 2, 3, 8][k % 4]), || pools[k % 4].install(|| rayon_case(&sets, &labels, n)));
        }
    }));
    symcore::run::main(items)
}
fn drawn_family(r: &mut Rng) -> (Vec<Vec<usize>>, Vec<usize>, usize) {
    let k = r.below(41);
    let n = 1 + r.below(80);
    let mut sets = vec![vec![]; k];
    for i in 0..n {
        if k > 0 && r.below(5) > 0 {
            let s = r.below(k);
            sets[s].push(i);
            if r.below(10) == 0 {
                sets[s].push(i);
            }
        }
    }
    for s in sets.iter_mut() {
        r.shuffle(s);
    }
    let labels = (0..k).map(|_| r.below(1000)).collect();
    (sets, labels, n)
}
