//! Oracles: reading an array back through every read path and comparing with the model.

use crate::engine::{Context, R, no_panic};
use crate::items::*;
use crate::{ensure, fail};
use narrow::collection::owned::IntoOwned;
use narrow::collection::{Collection, CollectionAlloc};

/// Borrowed read paths: length, indexed views, owned elements, iteration.
pub fn check_reads<T: Item, C: Collection<Owned = T>>(c: &C, model: &[Val]) -> R {
    no_panic("reading", || check_reads_inner(c, model))?
}
fn check_reads_inner<T: Item, C: Collection<Owned = T>>(c: &C, model: &[Val]) -> R {
    let n = c.len();
    ensure!(n == model.len(), "length is {n}, expected {}", model.len());
    ensure!(c.is_empty() == model.is_empty(), "is_empty is wrong for length {n}");
    for (i, m) in model.iter().enumerate() {
        match c.view(i) {
            Some(v) => {
                let v: T = v.into_owned();
                let v = v.val();
                ensure!(v == *m, "view({i}) of {n} rows is {v:?}, expected {m:?}");
            }
            None => fail!("view({i}) of {n} rows is missing, expected {m:?}"),
        }
    }
    for i in [0, n / 2, n.wrapping_sub(1)] {
        if i < n {
            let v = c.owned(i).map(|x| x.val());
            ensure!(v.as_ref() == Some(&model[i]), "owned({i}) is {v:?}, expected {:?}", model[i]);
        }
    }
    check_iter(c, model)
}
/// Borrowed iteration.
pub fn check_iter<T: Item, C: Collection<Owned = T>>(c: &C, model: &[Val]) -> R {
    let mut it = c.iter_views();
    for (i, m) in model.iter().enumerate() {
        match it.next() {
            Some(v) => {
                let v: T = v.into_owned();
                let v = v.val();
                ensure!(v == *m, "iter_views item {i} is {v:?}, expected {m:?}");
            }
            None => fail!("iter_views ended at {i} of {}", model.len()),
        }
    }
    ensure!(it.next().is_none(), "iter_views yields more than {} rows", model.len());
    Ok(())
}
/// Consuming iteration.
pub fn check_into<T: Item, C: Collection<Owned = T>>(c: C, model: &[Val]) -> R {
    no_panic("consuming iteration", || {
        let mut it = c.into_iter_owned();
        for (i, m) in model.iter().enumerate() {
            match it.next() {
                Some(v) => {
                    let v = v.val();
                    ensure!(v == *m, "into_iter_owned item {i} is {v:?}, expected {m:?}");
                }
                None => fail!("into_iter_owned ended at {i} of {}", model.len()),
            }
        }
        ensure!(it.next().is_none(), "into_iter_owned yields more than {} rows", model.len());
        Ok(())
    })?
}
/// Ways to exhaust an iterator after its first rows were taken one by one.
pub const DRAINS: &[&str] = &[
    "fold", "for_each", "count", "last", "collect", "nth(1), then fold", "skip(2)", "step_by(2)", "by_ref().take(2), then fold", "all",
];
/// Positions at which to start exhausting.
pub fn drain_points(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, n / 2, n.saturating_sub(1), n];
    v.retain(|&k| k <= n);
    v.sort_unstable();
    v.dedup();
    v
}
/// Takes `taken` rows by `next` and the rest in one of the ways above; compares with the model.
pub fn drain<I: Iterator>(mut it: I, taken: usize, way: usize, val: impl Fn(I::Item) -> Val, model: &[Val]) -> R {
    for (i, m) in model[..taken].iter().enumerate() {
        let v = it.next().map(&val);
        ensure!(v.as_ref() == Some(m), "item {i} is {v:?}, expected {m:?}");
    }
    let rest = &model[taken..];
    let what = || format!("{} after {taken} rows", DRAINS[way]);
    let fold = |it: I, mut v: Vec<Val>| -> Vec<Val> {
        v = it.fold(v, |mut v, x| {
            v.push(val(x));
            v
        });
        v
    };
    let (got, want): (Vec<Val>, Vec<Val>) = match way {
        0 => (fold(it, vec![]), rest.to_vec()),
        1 => {
            let mut v = vec![];
            it.for_each(|x| v.push(val(x)));
            (v, rest.to_vec())
        }
        2 => {
            let n = it.count();
            ensure!(n == rest.len(), "{}: {n} rows, expected {}", what(), rest.len());
            return Ok(());
        }
        3 => (it.last().map(&val).into_iter().collect(), rest.last().cloned().into_iter().collect()),
        4 => (it.map(&val).collect(), rest.to_vec()),
        5 => {
            let first: Vec<Val> = it.nth(1).map(&val).into_iter().collect();
            (fold(it, first), rest.iter().skip(1).cloned().collect())
        }
        6 => (it.skip(2).map(&val).collect(), rest.iter().skip(2).cloned().collect()),
        7 => (it.step_by(2).map(&val).collect(), rest.iter().step_by(2).cloned().collect()),
        8 => {
            let v = it.by_ref().take(2).map(&val).collect();
            (fold(it, v), rest.to_vec())
        }
        _ => {
            let mut v = vec![];
            it.all(|x| {
                v.push(val(x));
                true
            });
            (v, rest.to_vec())
        }
    };
    ensure!(got == want, "{}: {got:?}, expected {want:?}", what());
    Ok(())
}
/// Exhausts borrowed (`taken` rows first) or consuming iteration in one way.
pub fn check_drained<T: Item, C: Collection<Owned = T>>(c: C, model: &[Val], borrowed: bool, taken: usize, way: usize) -> R {
    no_panic("iterating", || {
        if borrowed {
            drain(c.iter_views(), taken, way, |x| { let v: T = x.into_owned(); v.val() }, model).ctx(|| "borrowed iteration".into())
        } else {
            drain(c.into_iter_owned(), taken, way, |x| x.val(), model).ctx(|| "consuming iteration".into())
        }
    })?
}
pub fn check_all<T: Item, C: Collection<Owned = T>>(c: C, model: &[Val]) -> R {
    check_reads(&c, model)?;
    check_into(c, model)
}

/// Ways to build an array from rows.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Collect,
    FromIterIn,
    TryFromIterIn,
    Extend,
    OneByOne,
    TryExtend,
    TryOneByOne,
    /// with_capacity, then extend
    Cap(usize),
    TryCap(usize),
    /// extend in two batches
    Split(usize),
    TrySplit(usize),
    /// collected, then extended
    CollectSplit(usize),
    Reserve(usize),
}
pub const HOWS: &[How] = &[
    How::Collect,
    How::FromIterIn,
    How::TryFromIterIn,
    How::Extend,
    How::OneByOne,
    How::TryExtend,
    How::TryOneByOne,
    How::Cap(0),
    How::Cap(1),
    How::Cap(9),
    How::TryCap(0),
    How::TryCap(5),
    How::Split(1),
    How::Split(3),
    How::Split(8),
    How::TrySplit(1),
    How::TrySplit(5),
    How::CollectSplit(1),
    How::CollectSplit(9),
    How::Reserve(4),
];

pub fn build<T: Item, C: Grow<T>>(how: How, rows: Vec<T>) -> R<C> {
    no_panic("building", || build_inner(how, rows))?
}
fn oom<X>(r: Result<X, narrow::collection::AllocError>, what: &str) -> R<X> {
    match r {
        Ok(x) => Ok(x),
        Err(_) => fail!("{what} reported an allocation error without one"),
    }
}
fn build_inner<T: Item, C: Grow<T>>(how: How, mut rows: Vec<T>) -> R<C> {
    Ok(match how {
        How::Collect => rows.into_iter().collect(),
        How::FromIterIn => C::from_iter_in(rows, ()),
        How::TryFromIterIn => oom(C::try_from_iter_in(rows, ()), "try_from_iter_in")?,
        How::Extend => {
            let mut c = C::default();
            c.extend(rows);
            c
        }
        How::OneByOne => {
            let mut c = C::default();
            for r in rows {
                c.extend(std::iter::once(r));
            }
            c
        }
        How::TryExtend => {
            let mut c = C::default();
            oom(c.try_extend(rows), "try_extend")?;
            c
        }
        How::TryOneByOne => {
            let mut c = C::default();
            for r in rows {
                oom(c.try_extend(std::iter::once(r)), "try_extend")?;
            }
            c
        }
        How::Cap(k) => {
            let mut c = <C as CollectionAlloc>::with_capacity(k);
            c.extend(rows);
            c
        }
        How::TryCap(k) => {
            let mut c = oom(C::try_with_capacity_in(k, ()), "try_with_capacity_in")?;
            oom(c.try_extend(rows), "try_extend")?;
            c
        }
        How::Split(k) => {
            let tail = rows.split_off(k.min(rows.len()));
            let mut c = C::default();
            c.extend(rows);
            c.extend(tail);
            c
        }
        How::TrySplit(k) => {
            let tail = rows.split_off(k.min(rows.len()));
            let mut c = C::default();
            oom(c.try_extend(rows), "try_extend")?;
            oom(c.try_extend(tail), "try_extend")?;
            c
        }
        How::CollectSplit(k) => {
            let tail = rows.split_off(k.min(rows.len()));
            let mut c: C = rows.into_iter().collect();
            c.extend(tail);
            c
        }
        How::Reserve(k) => {
            let mut c = C::default();
            c.reserve(k);
            oom(c.try_reserve(k / 2), "try_reserve")?;
            c.extend(rows);
            c
        }
    })
}
