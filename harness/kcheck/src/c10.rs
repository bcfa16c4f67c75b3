//! C10: index arithmetic of the producer and of blocks.
use crate::g::*;
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::IndexedParallelIterator;

struct Cb {
    n: usize,
    i: usize,
    j: usize,
    k: usize,
}
fn leaf<'a, P: Producer<Item = SubsetAccess<'a, A>>, A: 'a>(p: P, lo: usize, hi: usize, back: bool) {
    let mut it = p.into_iter();
    let (mut lo, mut hi) = (lo, hi);
    while lo < hi {
        assert!(it.len() == hi - lo);
        if back {
            hi -= 1;
            let s = it.next_back().unwrap();
            assert!(s.label() == 10 + hi && s.len() == 1 && s.global_indices()[0] == 3 - hi);
        } else {
            let s = it.next().unwrap();
            assert!(s.label() == 10 + lo && s.len() == 1 && s.global_indices()[0] == 3 - lo);
            lo += 1;
        }
    }
    assert!(it.next().is_none());
    assert!(it.next_back().is_none());
}
impl<'a> ProducerCallback<SubsetAccess<'a, fenris_paradis::slice::ParallelSliceAccess<'a, u8>>> for Cb {
    type Output = ();
    fn callback<P: Producer<Item = SubsetAccess<'a, fenris_paradis::slice::ParallelSliceAccess<'a, u8>>>>(self, p: P) {
        let Cb { n, i, j, k } = self;
        let (a, b) = p.split_at(i);
        let (a1, a2) = a.split_at(j);
        let (b1, b2) = b.split_at(k);
        let back = any_bool();
        leaf(a1, 0, j, back);
        leaf(a2, j, i, back);
        leaf(b1, i, i + k, back);
        leaf(b2, i + k, n, back);
    }
}
kproofs! { LIST;
    c10_split, 6, Some("proof bounded to collections of 0 to 2 subsets and two levels of splitting, every split point"),
        ["DisjointSubsetsProducer::split_at", "DisjointSubsetsProducer::into_iter", "DisjointSubsetsIter::next", "DisjointSubsetsIter::next_back", "DisjointSubsetsIter::size_hint"], {
        let n = any_in(0, 2);
        let mut sets = NestedVec::new();
        let mut labels = Vec::new();
        for i in 0..n {
            sets.push(&[3 - i]);
            labels.push(10 + i);
        }
        let d = unsafe { DisjointSubsets::from_disjoint_subsets_unchecked(sets, labels, if n == 0 { None } else { Some(3) }) };
        let i = any_in(0, n);
        let j = any_in(0, i);
        let k = any_in(0, n - i);
        let mut data = [0u8; 4];
        d.subsets_par_iter(&mut data[..]).with_producer(Cb { n, i, j, k });
    }
    c10_block, 8, Some("proof bounded to 12 entries; every block size, block and index"),
        ["BlockAdapter::with_block_size", "BlockAdapter::len", "BlockMut::get_mut", "BlockMut::get", "Block::get", "BlockAccess::get_unchecked", "BlockAccess::get_unchecked_mut"], {
        let bs = any_in(1, 12);
        assume(12 % bs == 0);
        let block = any_in(0, 12 / bs - 1);
        let j = any_usize();
        let mut data = [0u8; 12];
        let base = data.as_ptr();
        let mut a = BlockAdapter::with_block_size(&mut data[..], bs);
        assert!(ParallelIndexedCollection::len(&a) == 12 / bs);
        let acc = unsafe { a.create_access() };
        let m = unsafe { acc.get_unchecked_mut(block) };
        let r = unsafe { acc.get_unchecked(block) };
        let mut m = m;
        assert!(m.len() == bs && r.len() == bs);
        let want = if j < bs { Some(unsafe { base.add(block * bs + j) }) } else { None };
        assert!(r.get(j).map(|x| x as *const u8) == want);
        assert!(m.get(j).map(|x| x as *const u8) == want);
        assert!(m.get_mut(j).map(|x| x as *const u8) == want);
    }
}
