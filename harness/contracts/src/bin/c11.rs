//! C11: NestedVec against a vector of vectors.
use contracts::rng::*;
use fenris_nested_vec::NestedVec;
use symcore::run::{bounded, Item};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push(usize),
    Begin(usize),
    PushToLast(usize),
    Clear,
    WriteFirst,
    WriteLast,
    Write(usize),
    CloneIt,
    RoundTrip,
    Serde,
}
struct Model {
    v: Vec<Vec<u32>>,
    next: u32,
}
fn observe(n: &NestedVec<u32>, m: &[Vec<u32>]) -> Result<(), String> {
    let fail = |w: &str| Err(format!("{}: {:?}, expected {:?}", w, n, m));
    if n.len() != m.len() {
        return fail("len");
    }
    for i in 0..m.len() + 3 {
        if n.get(i) != m.get(i).map(|v| &v[..]) {
            return fail(&format!("get({})", i));
        }
    }
    if n.get(usize::MAX).is_some() {
        return fail("get(MAX)");
    }
    if n.iter().collect::<Vec<_>>() != m.iter().map(|v| &v[..]).collect::<Vec<_>>() {
        return fail("iter");
    }
    if !n.iter_array_elements().eq(m.iter().flatten()) {
        return fail("iter_array_elements");
    }
    if n.total_num_elements() != m.iter().map(|v| v.len()).sum::<usize>() {
        return fail("total_num_elements");
    }
    if n.first() != m.first().map(|v| &v[..]) || n.last() != m.last().map(|v| &v[..]) {
        return fail("first/last");
    }
    if format!("{:?}", n) != format!("{:?}", m) {
        return fail("Debug");
    }
    if Vec::<Vec<u32>>::from(n) != m {
        return fail("into Vec<Vec>");
    }
    if Vec::<Vec<u32>>::from(n.clone()) != m {
        return fail("into Vec<Vec> by value");
    }
    Ok(())
}
fn apply(op: Op, n: &mut NestedVec<u32>, m: &mut Model) -> Result<(), String> {
    let mut fresh = |k: usize| -> Vec<u32> {
        (0..k).map(|_| { m.next += 1; m.next }).collect()
    };
    let write = |a: Option<&mut [u32]>, b: Option<&mut Vec<u32>>, x: u32| -> Result<(), String> {
        match (a, b) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) => {
                if a != &b[..] {
                    return Err(format!("mutable view {:?}, expected {:?}", a, b));
                }
                for (k, (a, b)) in a.iter_mut().zip(b).enumerate() {
                    *a = x + k as u32;
                    *b = x + k as u32;
                }
                Ok(())
            }
            (a, b) => Err(format!("mutable view {:?}, expected {:?}", a, b)),
        }
    };
    match op {
        Op::Push(k) => {
            let v = fresh(k);
            n.push(&v);
            m.v.push(v);
        }
        Op::Begin(k) => {
            let v = fresh(k);
            let mut a = n.begin_array();
            for (i, x) in v.iter().enumerate() {
                if a.count() != i {
                    return Err(format!("count is {} after {} elements", a.count(), i));
                }
                a.push_single(*x);
            }
            if a.count() != k {
                return Err(format!("count is {} after {} elements", a.count(), k));
            }
            drop(a);
            m.v.push(v);
        }
        Op::PushToLast(k) => {
            let v = fresh(k);
            {
                let mut a = n.begin_array();
                match v.len() {
                    2 => { a.push_single(v[0]).push_single(v[1]); }
                    _ => v.iter().for_each(|x| { a.push_single(*x); }),
                }
            }
            m.v.push(v);
        }
        Op::Clear => {
            n.clear();
            m.v.clear();
        }
        Op::WriteFirst => { let x = fresh(1)[0] * 100; write(n.first_mut(), m.v.first_mut(), x)? }
        Op::WriteLast => { let x = fresh(1)[0] * 100; write(n.last_mut(), m.v.last_mut(), x)? }
        Op::Write(i) => { let x = fresh(1)[0] * 100; write(n.get_mut(i), m.v.get_mut(i), x)? }
        Op::CloneIt => {
            let c = n.clone();
            if c != *n {
                return Err("a clone differs".into());
            }
            *n = c;
        }
        Op::RoundTrip => {
            let v: Vec<Vec<u32>> = (&*n).into();
            let a = NestedVec::from(&v);
            *n = NestedVec::from(v);
            if a != *n {
                return Err("From<&Vec<Vec>> and From<Vec<Vec>> differ".into());
            }
        }
        Op::Serde => *n = serde_json::from_str(&serde_json::to_string(n).unwrap()).map_err(|e| format!("deserialization failed: {}", e))?,
    }
    Ok(())
}
fn run(ops: &[Op]) -> Result<(), String> {
    let mut n = NestedVec::<u32>::new();
    if n != NestedVec::default() {
        return Err("new() and default() differ".into());
    }
    let mut m = Model { v: vec![], next: 0 };
    for (k, op) in ops.iter().enumerate() {
        apply(*op, &mut n, &mut m).map_err(|e| format!("step {} {:?}: {}", k, op, e))?;
        observe(&n, &m.v).map_err(|e| format!("after step {} {:?}: {}", k, op, e))?;
    }
    Ok(())
}
fn main() {
    let mut items: Vec<Item> = vec![];
    const F: [&str; 16] = ["NestedVec::push", "NestedVec::begin_array", "ArrayAppender::push_single", "ArrayAppender::count", "<ArrayAppender as Drop>", "NestedVec::clear", "NestedVec::get", "NestedVec::get_mut", "NestedVec::first", "NestedVec::first_mut", "NestedVec::last", "NestedVec::last_mut", "NestedVec::iter", "NestedVec::iter_array_elements", "NestedVec::total_num_elements", "NestedVec From/Into"];
    items.push(bounded("every short history", &F, "every history of at most 5 operations out of 10 kinds (6 thorough)", |e| {
        let kinds = [Op::Push(0), Op::Push(2), Op::Begin(0), Op::Begin(1), Op::PushToLast(2), Op::Clear, Op::WriteFirst, Op::WriteLast, Op::Write(1), Op::RoundTrip];
        let max = if e.thorough { 6 } else { 5 };
        for s in sequences(kinds.len(), max).into_iter().filter(|s| s.len() == max) {
            let ops: Vec<Op> = s.iter().map(|i| kinds[*i]).collect();
            e.case(|| format!("{:?}", ops), || run(&ops));
        }
    }));
    items.push(bounded("drawn long histories", &F, "300 drawn histories of 40 operations (5000 thorough)", |e| {
        let mut r = Rng(e.seed ^ 11);
        for _ in 0..if e.thorough { 5000 } else { 300 } {
            let ops: Vec<Op> = (0..40)
                .map(|_| match r.below(30) {
                    0 => Op::Clear,
                    1..=7 => Op::Push(r.below(5)),
                    8..=13 => Op::Begin(r.below(5)),
                    14..=16 => Op::PushToLast(2),
                    17 => Op::WriteFirst,
                    18 => Op::WriteLast,
                    19..=22 => Op::Write(r.below(12)),
                    23 | 24 => Op::CloneIt,
                    25 | 26 => Op::RoundTrip,
                    _ => Op::Serde,
                })
                .collect();
            e.case(|| format!("{:?}", ops), || run(&ops));
        }
    }));
    items.push(bounded("invalid serialized forms", &["NestedVec as Deserialize"], "every offsets of at most 2 arrays with values below 4 over 2 elements, and mismatched lengths", |e| {
        for o in sequences(4, 4) {
            let half = (o.len() + 1) / 2;
            let (b, f) = o.split_at(half);
            let text = format!("{{\"data\":[5,6],\"offsets_begin\":{:?},\"offsets_end\":{:?}}}", b, f);
            e.case(|| text.clone(), || {
                let mut ok = b.len() == f.len();
                let mut last = 0;
                for (b, f) in b.iter().zip(f) {
                    ok &= *b >= last && f >= b && *f <= 2;
                    last = *f;
                }
                match serde_json::from_str::<NestedVec<u32>>(&text) {
                    Ok(_) if !ok => Err("overlapping or out-of-range arrays accepted".into()),
                    Ok(n) => observe(&n, &b.iter().zip(f).map(|(b, f)| [5, 6][*b..*f].to_vec()).collect::<Vec<_>>()),
                    Err(_) if ok => Err("refused".into()),
                    Err(_) => Ok(()),
                }
            });
        }
    }));
    symcore::run::main(items);
}
