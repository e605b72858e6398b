//! Histories of operations on a column, next to a plain list.

use crate::engine::{Caught, Context, Ctx, R, Tier, catch, hash_of};
use crate::items::*;
use crate::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::{BufferRef, VecBuffer};
use narrow::collection::{Collection, CollectionAlloc};
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};
use narrow::validity::Validity;
use std::sync::Arc;

/// A growable column with access to its raw parts.
pub trait Column<T: Item>: Grow<T> + Sized {
    fn col_ty() -> Ty {
        T::ty()
    }
    fn phys(&self) -> Phys;
    fn from_phys(p: &Phys) -> Result<Self, String>;
    fn rewrap(self) -> Result<Self, String>;
    fn check_nulls(&self) -> R;
}
impl<T: Item, S: Home> Column<T> for Array<T, S>
where
    Array<T, S>: Grow<T>,
{
    fn phys(&self) -> Phys {
        phys(self)
    }
    fn from_phys(p: &Phys) -> Result<Self, String> {
        from_phys(p)
    }
    fn rewrap(self) -> Result<Self, String> {
        Ok(Array::from_buffer(<T as Item>::rewrap::<S>(self.into_buffer())?))
    }
    fn check_nulls(&self) -> R {
        T::check_nulls::<S>(self.buffer_ref())
    }
}
pub type Large<T> = VariableSizeList<T, NonNullable, i64, VecBuffer>;
pub type LargeNull<T> = VariableSizeList<T, Nullable, i64, VecBuffer>;
impl<T: Item> Column<Vec<T>> for Large<T>
where
    Large<T>: Grow<Vec<T>>,
{
    fn phys(&self) -> Phys {
        Phys {
            validity: None,
            body: offsets_body::<T, i64, VecBuffer>(self.buffer_ref()),
        }
    }
    fn from_phys(p: &Phys) -> Result<Self, String> {
        Ok(VariableSizeList::from_buffer(offsets_from::<T, i64, VecBuffer>(&p.body)?))
    }
    fn rewrap(self) -> Result<Self, String> {
        Ok(VariableSizeList::from_buffer(rewrap_offsets::<T, i64, VecBuffer>(self.into_buffer())?))
    }
    fn check_nulls(&self) -> R {
        use narrow::collection::ChildRef;
        T::check_nulls::<VecBuffer>(self.buffer_ref().child_ref())
    }
}
impl<T: Item> Column<Option<Vec<T>>> for LargeNull<T>
where
    LargeNull<T>: Grow<Option<Vec<T>>>,
{
    fn phys(&self) -> Phys {
        use narrow::bitmap::ValidityBitmap;
        use narrow::collection::ChildRef;
        let v = self.buffer_ref();
        Phys {
            validity: Some(v.bitmap_ref().map(bits_of)),
            body: offsets_body::<T, i64, VecBuffer>(v.child_ref()),
        }
    }
    fn from_phys(p: &Phys) -> Result<Self, String> {
        let o = offsets_from::<T, i64, VecBuffer>(&p.body)?;
        Ok(VariableSizeList::from_buffer(match p.validity.as_ref().expect("engine: validity") {
            None => Validity::from_collection(o),
            Some(b) => Validity::try_from_parts(o, bitmap_from(b)?).map_err(|e| e.to_string())?,
        }))
    }
    fn rewrap(self) -> Result<Self, String> {
        let (o, b) = self.into_buffer().into_parts();
        let o = rewrap_offsets::<T, i64, VecBuffer>(o)?;
        Ok(VariableSizeList::from_buffer(match b {
            None => Validity::from_collection(o),
            Some(b) => {
                Validity::try_from_parts(o, b).map_err(|e| format!("own validity parts rejected: {e}"))?
            }
        }))
    }
    fn check_nulls(&self) -> R {
        use narrow::collection::ChildRef;
        check_nulls_of(self.buffer_ref())?;
        T::check_nulls::<VecBuffer>(self.buffer_ref().child_ref().child_ref())
    }
}

/// Where a history starts.
#[derive(Clone, Debug)]
pub enum Start<T> {
    Default,
    Cap(usize),
    Collected(Vec<T>),
    Extended(Vec<T>),
    /// From raw parts with dirt around them.
    Raw(Vec<Val>, Dirt, Phys),
}

pub fn dirts() -> Vec<Dirt> {
    let d = Dirt::default();
    vec![
        d,
        Dirt { extra: 2, fill: 0xFF, ..d },
        Dirt { off_valid: 3, off_bool: 6, fill: 0xFF, ..d },
        Dirt { off_valid: 8, off_bool: 11, extra: 1, fill: 0x00, ..d },
        Dirt { off_valid: 13, off_bool: 7, extra: 1, fill: 0xA5, junk: true, ..d },
        Dirt { surplus: 2, junk: true, ..d },
        Dirt { implicit: true, ..d },
        Dirt { implicit: true, off_valid: 5, off_bool: 1, extra: 1, fill: 0xFF, surplus: 1, junk: true },
    ]
}

/// Row lists worth starting from.
pub fn start_rows<T: Item>(tier: Tier) -> Vec<Vec<Val>> {
    let a = alphabet(&T::ty(), false);
    let valid: Vec<Val> = a.iter().filter(|v| **v != Val::Null).cloned().collect();
    let mut v: Vec<Vec<Val>> = vec![
        vec![],
        (0..3).map(|i| a[i % a.len()].clone()).collect(),
        (0..3).map(|i| valid[i % valid.len()].clone()).collect(),
        (0..8).map(|k| sample_val(&T::ty(), k)).collect(),
        (0..9).map(|k| sample_val(&T::ty(), k + 3)).collect(),
    ];
    if tier.thorough() {
        v.push((0..1).map(|i| a[(i + 1) % a.len()].clone()).collect());
        v.push((0..7).map(|i| valid[(i + 1) % valid.len()].clone()).collect());
        v.push((0..17).map(|k| sample_val(&T::ty(), k + 31)).collect());
    }
    v
}

pub fn starts<T: Item>(tier: Tier) -> Vec<Start<T>> {
    let ty = T::ty();
    let mut out: Vec<Start<T>> = vec![Start::Default, Start::Cap(4)];
    for rows in start_rows::<T>(tier) {
        let it: Vec<T> = items(&rows);
        out.push(Start::Collected(it.clone()));
        if rows.len() > 3 || tier.thorough() {
            out.push(Start::Extended(it));
        }
        let mut seen: Vec<Phys> = vec![];
        for d in dirts() {
            let p = Phys::encode(&ty, &rows, &d);
            if !seen.contains(&p) {
                seen.push(p.clone());
                out.push(Start::Raw(rows.clone(), d, p));
            }
        }
    }
    out
}

pub fn start<T: Item, C: Column<T>>(s: &Start<T>) -> R<(C, Vec<Val>)> {
    Ok(match s {
        Start::Default => (C::default(), vec![]),
        Start::Cap(n) => (<C as CollectionAlloc>::with_capacity(*n), vec![]),
        Start::Collected(r) => (r.iter().cloned().collect(), vals(r)),
        Start::Extended(r) => {
            let mut c = C::default();
            for x in r {
                c.extend(std::iter::once(x.clone()));
            }
            (c, vals(r))
        }
        Start::Raw(rows, d, p) => match C::from_phys(p) {
            Ok(c) => (c, rows.clone()),
            Err(e) => fail!("consistent raw parts refused ({d:?}): {e}"),
        },
    })
}

#[derive(Clone, Debug)]
pub enum Op<T> {
    Extend(Vec<T>),
    TryExtend(Vec<T>),
    Truncate(Cut),
    Reserve(usize),
    TryReserve(usize),
    Rewrap,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    At(usize),
    /// So many rows off the end.
    Off(usize),
    Huge,
}

pub fn batches<T: Item>(tier: Tier) -> Vec<Vec<T>> {
    let ty = T::ty();
    let a = T::alphabet(false);
    let mut v: Vec<Vec<T>> = vec![
        vec![a[0].clone()],
        vec![a[1 % a.len()].clone(), a[0].clone(), a[a.len() - 1].clone()],
        vec![],
        (0..9).map(|k| T::from_val(&sample_val(&ty, k + 50))).collect(),
    ];
    if tier.thorough() {
        v.push(vec![a[1 % a.len()].clone()]);
        v.push((0..16).map(|k| T::from_val(&sample_val(&ty, k + 70))).collect());
    }
    v
}

pub fn ops<T: Item>(tier: Tier) -> Vec<Op<T>> {
    let mut v: Vec<Op<T>> = vec![];
    for b in batches::<T>(tier) {
        v.push(Op::Extend(b.clone()));
        v.push(Op::TryExtend(b));
    }
    v.extend([
        Op::Truncate(Cut::Off(1)),
        Op::Truncate(Cut::At(1)),
        Op::Truncate(Cut::At(0)),
        Op::Truncate(Cut::Huge),
        Op::Rewrap,
        Op::Reserve(5),
        Op::TryReserve(3),
    ]);
    if tier.thorough() {
        v.extend([
            Op::Truncate(Cut::Off(2)),
            Op::Truncate(Cut::At(8)),
            Op::Truncate(Cut::Off(0)),
            Op::Reserve(0),
            Op::TryReserve(0),
            Op::TryReserve(17),
        ]);
    }
    v
}

/// Lengths beyond `n` that are small again in a narrower type or when scaled.
pub fn far_cuts(n: usize) -> impl Iterator<Item = usize> {
    let scaled = [2_u128, 3, 4, 5, 6, 8, 9, 16, 24, 64].into_iter().flat_map(|w| {
        let q = (1_u128 << 64).div_ceil(w) as usize;
        [q, q + 1]
    });
    [n, n + 1, 1 << 8, (1 << 16) + 1, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX - 1, usize::MAX]
        .into_iter()
        .chain(scaled)
        .filter(move |k| *k >= n)
}

/// Applies an operation to the column and to the plain list.
pub fn apply<T: Item, C: Column<T>>(c: C, model: &mut Vec<Val>, op: &Op<T>) -> R<C> {
    apply_to(c, model, op, C::rewrap)
}
fn apply_to<T: Item, C: Grow<T>>(c: C, model: &mut Vec<Val>, op: &Op<T>, rewrap: impl FnOnce(C) -> Result<C, String>) -> R<C> {
    let mut c = c;
    match catch(move || {
        let r: Result<(), &str> = match op {
            Op::Extend(b) => {
                c.extend(b.iter().cloned());
                Ok(())
            }
            Op::TryExtend(b) => c.try_extend(b.iter().cloned()).map_err(|_| "try_extend"),
            Op::Truncate(k) => {
                let n = c.len();
                match k {
                    Cut::At(k) => c.truncate(*k),
                    Cut::Off(k) => c.truncate(n.saturating_sub(*k)),
                    Cut::Huge => far_cuts(n).for_each(|k| c.truncate(k)),
                }
                Ok(())
            }
            Op::Reserve(n) => {
                c.reserve(*n);
                Ok(())
            }
            Op::TryReserve(n) => c.try_reserve(*n).map_err(|_| "try_reserve"),
            Op::Rewrap => return rewrap(c),
        };
        match r {
            Ok(()) => Ok(c),
            Err(e) => Err(format!("{e} reported an allocation error without one")),
        }
    }) {
        Caught::Value(Ok(c)) => {
            match op {
                Op::Extend(b) | Op::TryExtend(b) => model.extend(b.iter().map(T::val)),
                Op::Truncate(Cut::At(k)) => model.truncate(*k),
                Op::Truncate(Cut::Off(k)) => model.truncate(model.len().saturating_sub(*k)),
                _ => {}
            }
            Ok(c)
        }
        Caught::Value(Err(e)) => fail!("{e}"),
        Caught::Injected => fail!("injected panic out of place"),
        Caught::Panic(p) => fail!("panicked at {p}"),
    }
}

pub fn show<T: Item>(op: &Op<T>) -> String {
    match op {
        Op::Extend(b) => format!("extend {:?}", vals(b)),
        Op::TryExtend(b) => format!("try_extend {:?}", vals(b)),
        Op::Truncate(k) => format!("truncate {k:?}"),
        Op::Reserve(n) => format!("reserve {n}"),
        Op::TryReserve(n) => format!("try_reserve {n}"),
        Op::Rewrap => "unwrap and rewrap".into(),
    }
}
pub fn show_start<T: Item>(s: &Start<T>) -> String {
    match s {
        Start::Default => "default".into(),
        Start::Cap(n) => format!("with_capacity {n}"),
        Start::Collected(r) => format!("collect {:?}", vals(r)),
        Start::Extended(r) => format!("one by one {:?}", vals(r)),
        Start::Raw(r, d, _) => format!("raw parts of {r:?} with {d:?}"),
    }
}

/// Explores every history up to `depth`; `look` is applied to every state, `end` to every state
/// once, by value.
pub fn histories<T: Item, C: Column<T> + 'static>(
    tier: Tier,
    depth: usize,
    look: impl Fn(&C, &[Val]) -> R + Send + Sync + 'static,
    end: impl Fn(C, &[Val]) -> R + Send + Sync + 'static,
) -> impl Fn(&mut Ctx) -> R + Send + Sync + 'static
where
    T: Send + Sync,
{
    let starts = Arc::new(starts::<T>(tier));
    let ops = Arc::new(ops::<T>(tier));
    move |cx| {
        let len = cx.choose(depth + 1);
        let s = cx.pick(&starts).clone();
        cx.note(|| show_start(&s));
        let (mut c, mut model): (C, _) = start(&s)?;
        look(&c, &model).ctx(|| show_start(&s))?;
        let mut reserved: Vec<usize> = vec![];
        let mut path: Vec<&Op<T>> = vec![];
        let say = |path: &[&Op<T>], s: &Start<T>| {
            format!(
                "{}, {}",
                show_start(s),
                path.iter().map(|o| show(o)).collect::<Vec<_>>().join(", ")
            )
        };
        for i in 0..len {
            let key = hash_of(&(c.phys(), &model, &reserved));
            cx.merge(key, (len - i) as u32)?;
            let k = cx.choose(ops.len());
            let op = &ops[k];
            if matches!(op, Op::Reserve(_) | Op::TryReserve(_)) {
                reserved.push(k);
            }
            cx.note(|| show(op));
            path.push(op);
            c = apply(c, &mut model, op).ctx(|| say(&path, &s))?;
            cx.step();
            look(&c, &model).ctx(|| say(&path, &s))?;
        }
        let key = hash_of(&(c.phys(), &model, &reserved));
        cx.merge(key, 0)?;
        cx.outcome(hash_of(&model));
        end(c, &model).ctx(|| say(&path, &s))
    }
}

/// Histories over more rows than one validity chunk: boundary starts, few operations.
pub fn long_histories<T: Item + Send + Sync, C: Column<T> + 'static>(
    tier: Tier,
    look: impl Fn(&C, &[Val]) -> R + Send + Sync + 'static,
    end: impl Fn(C, &[Val]) -> R + Send + Sync + 'static,
) -> impl Fn(&mut Ctx) -> R + Send + Sync + 'static {
    let lens: &[usize] = if tier.thorough() { &[0, 1, 63, 1023, 1024, 1025, 2047, 2048] } else { &[1, 1023, 1024] };
    let adds: &[usize] = if tier.thorough() { &[1, 7, 1023, 1024, 1025, 2048] } else { &[1, 1024, 1025] };
    let cuts: &[usize] = &[0, 1, 9, 1023, 1024, 1025];
    move |cx| {
        let n = *cx.pick(lens);
        let raw = cx.flag();
        let ty = T::ty();
        let rows: Vec<Val> = (0..n).map(|k| sample_val(&ty, k)).collect();
        let (mut c, mut model): (C, Vec<Val>) = if raw {
            let d = Dirt { off_valid: 5, off_bool: 3, extra: 2, fill: 0xFF, surplus: 1, implicit: true, junk: true };
            start(&Start::Raw(rows.clone(), d, Phys::encode(&ty, &rows, &d)))?
        } else {
            start(&Start::Collected(items::<T>(&rows)))?
        };
        let mut path = vec![format!("{n} rows, raw {raw}")];
        for i in 0..3 {
            if i == 1 {
                if cx.flag() {
                    let k = *cx.pick(cuts);
                    path.push(format!("truncate {k}"));
                    c = apply(c, &mut model, &Op::Truncate(Cut::At(k))).ctx(|| path.join(", "))?;
                }
            } else {
                let k = *cx.pick(adds);
                let fallible = cx.flag();
                path.push(format!("extend by {k}, fallible {fallible}"));
                let b: Vec<T> = (0..k).map(|j| T::from_val(&sample_val(&ty, j + 5000 * (i + 1)))).collect();
                let op = if fallible { Op::TryExtend(b) } else { Op::Extend(b) };
                c = apply(c, &mut model, &op).ctx(|| path.join(", "))?;
            }
            cx.step();
            cx.state(hash_of(&path));
        }
        cx.note(|| path.join(", "));
        look(&c, &model).ctx(|| path.join(", "))?;
        end(c, &model).ctx(|| path.join(", "))
    }
}

/// Histories over more rows than fit 12 or 16 bits.
pub fn huge_histories<T: Item + Send + Sync, C: Column<T> + 'static>(
    tier: Tier,
    look: impl Fn(&C, &[Val]) -> R + Send + Sync + 'static,
    end: impl Fn(C, &[Val]) -> R + Send + Sync + 'static,
) -> impl Fn(&mut Ctx) -> R + Send + Sync + 'static {
    let lens: &[usize] = if tier.thorough() { &[0, 4095, 4096, 65_535, 65_536, 65_537, 131_073] } else { &[3, 65_535, 65_536] };
    let adds: &[usize] = if tier.thorough() { &[1, 4097, 65_535, 65_536, 65_537] } else { &[1, 65_537] };
    // relative to the boundary, so that something is left to cut
    let cuts: &[usize] = if tier.thorough() { &[1, 4096, 65_535, 65_536, 65_537, 131_072] } else { &[65_535, 65_536] };
    move |cx| {
        let n = *cx.pick(lens);
        let raw = cx.flag();
        let ty = T::ty();
        let rows: Vec<Val> = (0..n).map(|k| sample_val(&ty, k)).collect();
        let (mut c, mut model): (C, Vec<Val>) = if raw {
            let d = Dirt { off_valid: 5, off_bool: 3, extra: 2, fill: 0xFF, surplus: 1, implicit: true, junk: true };
            start(&Start::Raw(rows.clone(), d, Phys::encode(&ty, &rows, &d)))?
        } else {
            start(&Start::Collected(items::<T>(&rows)))?
        };
        let k = *cx.pick(adds);
        let fallible = cx.flag();
        let cut = cx.choose(cuts.len() + 1);
        let path = format!(
            "{n} rows, raw {raw}, extend by {k}, fallible {fallible}, {}",
            if cut == 0 { "nothing cut".into() } else { format!("truncate {}, extend by 3", cuts[cut - 1]) }
        );
        cx.note(|| path.clone());
        cx.state(hash_of(&path));
        let grow = |k: usize, from: usize| {
            let b: Vec<T> = (0..k).map(|j| T::from_val(&sample_val(&ty, j + from))).collect();
            if fallible { Op::TryExtend(b) } else { Op::Extend(b) }
        };
        c = apply(c, &mut model, &grow(k, 5000)).ctx(|| path.clone())?;
        cx.step();
        if cut > 0 {
            c = apply(c, &mut model, &Op::Truncate(Cut::At(cuts[cut - 1]))).ctx(|| path.clone())?;
            c = apply(c, &mut model, &grow(3, 9000)).ctx(|| path.clone())?;
            cx.steps(2);
        }
        look(&c, &model).ctx(|| path.clone())?;
        end(c, &model).ctx(|| path)
    }
}

/// Histories of rows that are long themselves, at every level of nesting.
pub fn long_rows<T: Item + Send + Sync, C: Column<T> + 'static>(
    tier: Tier,
    look: impl Fn(&C, &[Val]) -> R + Send + Sync + 'static,
    end: impl Fn(C, &[Val]) -> R + Send + Sync + 'static,
) -> impl Fn(&mut Ctx) -> R + Send + Sync + 'static {
    let first: &[usize] = if tier.thorough() { &[0, 1, 7, 8, 63, 64, 65, 1023, 1024, 2049] } else { &[0, 7, 8, 64, 1023] };
    let second: &[usize] = LONG;
    let third: &[usize] = if tier.thorough() { &[1, 9, 65, 1025] } else { &[1, 65] };
    let ty = C::col_ty();
    let levels = list_levels(&ty);
    let dirt = [
        Dirt { off_valid: 5, off_bool: 3, extra: 2, fill: 0xFF, surplus: 3, implicit: true, junk: true },
        Dirt { off_valid: 8, off_bool: 15, extra: 0, fill: 0xA5, ..Dirt::default() },
    ];
    move |cx| {
        let level = cx.choose(levels);
        let n = *cx.pick(first);
        let how = cx.choose(3);
        let rows = vec![sized_val(&ty, level, n, 1), sample_val(&ty, 4)];
        let mut path = vec![format!("level {level}: a row of {n}, start {how}")];
        let (mut c, mut model): (C, Vec<Val>) = match how {
            0 => start(&Start::Collected(items::<T>(&rows)))?,
            h => start(&Start::Raw(rows.clone(), dirt[h - 1], Phys::encode(&ty, &rows, &dirt[h - 1])))?,
        };
        let fallible = cx.flag();
        let grow = |rows: Vec<Val>| {
            let b = items::<T>(&rows);
            if fallible { Op::TryExtend(b) } else { Op::Extend(b) }
        };
        let k = *cx.pick(second);
        path.push(format!("extend by a row of {k}, fallible {fallible}"));
        c = apply(c, &mut model, &grow(vec![sized_val(&ty, level, k, 9), sample_val(&ty, 3)])).ctx(|| path.join(", "))?;
        cx.step();
        match cx.choose(3) {
            0 => look(&c, &model).ctx(|| path.join(", "))?,
            w => {
                let op = Op::Truncate(if w == 1 { Cut::Off(1) } else { Cut::At(1) });
                path.push(show::<T>(&op));
                c = apply(c, &mut model, &op).ctx(|| path.join(", "))?;
                cx.step();
            }
        }
        let k = *cx.pick(third);
        path.push(format!("extend by a row of {k}"));
        c = apply(c, &mut model, &grow(vec![sample_val(&ty, 5), sized_val(&ty, level, k, 11)])).ctx(|| path.join(", "))?;
        cx.step();
        cx.state(hash_of(&path));
        cx.note(|| path.join(", "));
        look(&c, &model).ctx(|| path.join(", "))?;
        end(c, &model).ctx(|| path.join(", "))
    }
}

pub fn ignore<C>(_: C, _: &[Val]) -> R {
    Ok(())
}
pub fn ensure_len<C: Collection>(c: &C, n: usize) -> R {
    ensure!(c.len() == n, "length is {}, expected {n}", c.len());
    Ok(())
}

/// The same for collections that are not arrays.
pub fn plain_histories<T: Item + Send + Sync, C: Grow<T> + 'static>(tier: Tier, depth: usize) -> impl Fn(&mut Ctx) -> R + Send + Sync + 'static {
    let rows = start_rows::<T>(tier);
    let ops: Vec<Op<T>> = ops::<T>(tier).into_iter().filter(|o| !matches!(o, Op::Rewrap)).collect();
    move |cx| {
        let mut model = cx.pick(&rows).clone();
        let made = cx.choose(3);
        let first: Vec<T> = items(&model);
        let mut said = format!("{model:?}, made {made}");
        let mut c: C = crate::engine::no_panic("building", || match made {
            0 => first.into_iter().collect(),
            1 => {
                let mut c = <C as CollectionAlloc>::with_capacity(2);
                c.extend(first);
                c
            }
            _ => {
                let mut c = C::default();
                for x in first {
                    c.extend(std::iter::once(x));
                }
                c
            }
        })?;
        let len = cx.choose(depth + 1);
        for _ in 0..len {
            let op = cx.pick(&ops);
            said += &format!("; {}", show(op));
            c = apply_to(c, &mut model, op, Ok).ctx(|| said.clone())?;
            crate::reads::check_reads(&c, &model).ctx(|| said.clone())?;
        }
        cx.note(|| said.clone());
        cx.state(hash_of(&said));
        cx.steps(len as u64 + 1);
        crate::reads::check_all(c, &model).ctx(|| said)
    }
}
