//! C11: list offsets never wrap: too much data is refused and the list stays intact.
//!
//! The list elements are counted and not stored (`Counting`), so that totals at and beyond the
//! limits of both offset types are reached by the real `Offsets` code.
use mc::engine::*;
use mc::{ensure, fail};
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{BufferRef, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::owned::IntoOwned;
use narrow::collection::view::AsView;
use narrow::collection::*;
use narrow::layout::boolean::Boolean;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::NonNullable;
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Unit;
impl IntoOwned<()> for Unit {
    fn into_owned(self) {}
}
/// So many units, in no memory.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
struct Counting(usize);

struct Units(usize);
impl Iterator for Units {
    type Item = ();
    fn next(&mut self) -> Option<()> {
        self.0 = self.0.checked_sub(1)?;
        Some(())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0, Some(self.0))
    }
    fn count(self) -> usize {
        self.0
    }
}
impl ExactSizeIterator for Units {}
struct Refs(usize);
impl Iterator for Refs {
    type Item = Unit;
    fn next(&mut self) -> Option<Unit> {
        self.0 = self.0.checked_sub(1)?;
        Some(Unit)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0, Some(self.0))
    }
}
/// How many: big exact announcements are believed, everything else is counted.
fn count_of(i: impl Iterator<Item = ()>) -> usize {
    match i.size_hint() {
        (a, Some(b)) if a == b && a > 1 << 16 => a,
        _ => i.count(),
    }
}
impl Length for Counting {
    fn len(&self) -> usize {
        self.0
    }
}
impl Collection for Counting {
    type View<'a> = Unit;
    type Owned = ();
    fn view(&self, i: usize) -> Option<Unit> {
        (i < self.0).then_some(Unit)
    }
    type Iter<'a> = Refs;
    fn iter_views(&self) -> Refs {
        Refs(self.0)
    }
    type IntoIter = Units;
    fn into_iter_owned(self) -> Units {
        Units(self.0)
    }
}
#[derive(Clone, Copy)]
struct Seen<'a>(&'a Counting);
impl IntoOwned<Counting> for Seen<'_> {
    fn into_owned(self) -> Counting {
        *self.0
    }
}
impl<'a> AsView<'a> for Counting {
    type View = Seen<'a>;
    fn as_view(&'a self) -> Seen<'a> {
        Seen(self)
    }
}
impl Extend<()> for Counting {
    fn extend<I: IntoIterator<Item = ()>>(&mut self, i: I) {
        self.0 = self.0.checked_add(count_of(i.into_iter())).expect("capacity overflow");
    }
}
impl FromIterator<()> for Counting {
    fn from_iter<I: IntoIterator<Item = ()>>(i: I) -> Self {
        Counting(count_of(i.into_iter()))
    }
}
impl CollectionAllocIn for Counting {
    type Alloc = ();
    fn with_capacity_in(_: usize, (): ()) -> Self {
        Counting(0)
    }
    fn from_iter_in<I: IntoIterator<Item = ()>>(i: I, (): ()) -> Self {
        i.into_iter().collect()
    }
    fn try_with_capacity_in(_: usize, (): ()) -> Result<Self, AllocError> {
        Ok(Counting(0))
    }
    fn try_from_iter_in<I: IntoIterator<Item = ()>>(i: I, (): ()) -> Result<Self, AllocError> {
        Ok(i.into_iter().collect())
    }
}
impl CollectionRealloc for Counting {
    fn allocator(&self) {}
    fn try_reserve(&mut self, _: usize) -> Result<(), AllocError> {
        Ok(())
    }
    fn try_extend<I: IntoIterator<Item = ()>>(&mut self, i: I) -> Result<(), AllocError> {
        self.0 = self.0.checked_add(count_of(i.into_iter())).ok_or(AllocError)?;
        Ok(())
    }
    fn reserve(&mut self, _: usize) {}
    fn truncate(&mut self, len: usize) {
        self.0 = self.0.min(len);
    }
}

type Lists<O> = Offsets<Counting, O, VecBuffer, Counting>;
type Nested<I, O> = Offsets<Lists<I>, O, VecBuffer, Vec<Counting>>;

/// A row of a list column: nothing, so many units, or rows.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Row {
    Null,
    N(usize),
    Many(Vec<Row>),
}

/// A column over counted elements.
trait Tall: CollectionRealloc<Alloc = ()> + Default + FromIterator<Self::Owned> + Sized
where
    Self::Owned: Clone,
{
    fn item(r: &Row) -> Self::Owned;
    /// Independent reading of the raw parts.
    fn rows(&self) -> R<Vec<Row>>;
    /// The same through views.
    fn seen(&self) -> R<Vec<Row>>;
    /// From raw parts; the number of units behind the last list.
    fn raw(rows: &[Row], surplus: usize) -> Result<Self, String>;
    /// Whether these rows fit the offsets.
    fn fits(rows: &[Row]) -> bool;
    /// The rows in the alphabet, from lengths.
    fn rows_of(lens: &[usize]) -> Vec<Row>;
}
fn total(rows: &[Row]) -> Option<usize> {
    rows.iter().try_fold(0_usize, |t, r| match r {
        Row::Null => Some(t),
        Row::N(n) => t.checked_add(*n),
        Row::Many(v) => t.checked_add(v.len()),
    })
}
fn fits_in<O: Offset>(rows: &[Row]) -> bool {
    total(rows).is_some_and(|t| O::try_from(t).is_ok())
}
fn bounds<C: Collection, O: Offset, U>(o: &Offsets<C, O, VecBuffer, U>) -> R<Vec<usize>> {
    let raw: &Vec<O> = o.buffer_ref();
    ensure!(!raw.is_empty(), "no offsets");
    let mut v: Vec<usize> = vec![];
    for x in raw {
        let u: usize = match (*x).try_into() {
            Ok(u) => u,
            Err(_) => fail!("negative offset in {:?}", raw.iter().map(|x| (*x).try_into().ok()).collect::<Vec<Option<usize>>>()),
        };
        v.push(u);
    }
    ensure!(v[0] == 0 && v.windows(2).all(|w| w[0] <= w[1]), "offsets are {v:?}");
    ensure!(v[v.len() - 1] <= o.child_ref().len(), "offsets {v:?} with {} elements", o.child_ref().len());
    ensure!(o.len() == v.len() - 1, "length {} with offsets {v:?}", o.len());
    Ok(v)
}
fn offsets_of<O: Offset>(rows: &[Row]) -> Vec<O> {
    let mut v = vec![O::default()];
    let mut t = 0;
    for r in rows {
        t += match r {
            Row::Null => 0,
            Row::N(n) => *n,
            Row::Many(x) => x.len(),
        };
        v.push(O::try_from(t).unwrap_or_else(|_| panic!("engine: start does not fit")));
    }
    v
}
impl<O: Offset> Tall for Lists<O> {
    fn item(r: &Row) -> Counting {
        match r {
            Row::N(n) => Counting(*n),
            _ => panic!("engine: row"),
        }
    }
    fn rows(&self) -> R<Vec<Row>> {
        Ok(bounds(self)?.windows(2).map(|w| Row::N(w[1] - w[0])).collect())
    }
    fn seen(&self) -> R<Vec<Row>> {
        let mut v = vec![];
        for i in 0..self.len() {
            let Some(x) = self.view(i) else { fail!("no view of list {i}") };
            let n = x.len();
            ensure!(x.is_empty() == (n == 0), "is_empty of a list of {n}");
            for k in [0, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX, usize::MAX - n] {
                ensure!(x.view(k).is_some() == (k < n), "element {k} of a list of {n} elements");
            }
            if n < 1 << 12 {
                ensure!(x.iter_views().count() == n, "iteration over a list of {n} elements");
            }
            v.push(Row::N(n));
        }
        ensure!(self.view(self.len()).is_none(), "a list beyond the end");
        let w: Vec<Row> = self.iter_views().map(|x| Row::N(x.len())).collect();
        ensure!(v == w, "iteration yields {w:?}, indexed reads {v:?}");
        Ok(v)
    }
    fn raw(rows: &[Row], surplus: usize) -> Result<Self, String> {
        let t = total(rows).expect("engine: total");
        Offsets::try_from_parts(Counting(t.saturating_add(surplus)), offsets_of::<O>(rows)).map_err(|e| e.to_string())
    }
    fn fits(rows: &[Row]) -> bool {
        fits_in::<O>(rows)
    }
    fn rows_of(lens: &[usize]) -> Vec<Row> {
        lens.iter().map(|n| Row::N(*n)).collect()
    }
}
impl<O: Offset> Tall for Validity<Lists<O>> {
    fn item(r: &Row) -> Option<Counting> {
        match r {
            Row::Null => None,
            r => Some(Lists::<O>::item(r)),
        }
    }
    fn rows(&self) -> R<Vec<Row>> {
        let rows = self.child_ref().rows()?;
        let Some(b) = self.bitmap_ref() else { return Ok(rows) };
        ensure!(b.len() == rows.len(), "{} validity bits for {} lists", b.len(), rows.len());
        Ok(rows.into_iter().zip(b.iter_views()).map(|(r, v)| if v { r } else { Row::Null }).collect())
    }
    fn seen(&self) -> R<Vec<Row>> {
        self.child_ref().seen()?;
        let mut v = vec![];
        for i in 0..self.len() {
            let Some(x) = self.view(i) else { fail!("no view of row {i}") };
            v.push(x.map_or(Row::Null, |x| Row::N(x.len())));
        }
        Ok(v)
    }
    fn raw(rows: &[Row], surplus: usize) -> Result<Self, String> {
        let lists: Vec<Row> = rows.iter().map(|r| if *r == Row::Null { Row::N(0) } else { r.clone() }).collect();
        let o = Lists::<O>::raw(&lists, surplus)?;
        let b: Bitmap = rows.iter().map(|r| *r != Row::Null).collect();
        Validity::try_from_parts(o, b).map_err(|e| e.to_string())
    }
    fn fits(rows: &[Row]) -> bool {
        fits_in::<O>(rows)
    }
    fn rows_of(lens: &[usize]) -> Vec<Row> {
        lens.iter().map(|n| if *n == 7 { Row::Null } else { Row::N(*n) }).collect()
    }
}
impl<O: Offset> Tall for Flatten<Lists<O>, 2> {
    fn item(r: &Row) -> [Counting; 2] {
        match r {
            Row::Many(v) => [Lists::<O>::item(&v[0]), Lists::<O>::item(&v[1])],
            _ => panic!("engine: row"),
        }
    }
    fn rows(&self) -> R<Vec<Row>> {
        let r = self.child_ref().rows()?;
        ensure!(r.len() % 2 == 0, "{} child rows", r.len());
        Ok(r.chunks(2).map(|c| Row::Many(c.to_vec())).collect())
    }
    fn seen(&self) -> R<Vec<Row>> {
        self.child_ref().seen()?;
        let mut v = vec![];
        for i in 0..self.len() {
            let Some(x) = self.view(i) else { fail!("no view of row {i}") };
            v.push(Row::Many(x.into_owned().iter().map(|x| Row::N(x.0)).collect()));
        }
        Ok(v)
    }
    fn raw(rows: &[Row], surplus: usize) -> Result<Self, String> {
        let o = Lists::<O>::raw(&flat(rows), surplus)?;
        Flatten::try_from_parts(o).map_err(|e| e.to_string())
    }
    fn fits(rows: &[Row]) -> bool {
        fits_in::<O>(&flat(rows))
    }
    fn rows_of(lens: &[usize]) -> Vec<Row> {
        // a single length becomes a row that ends with it
        lens.iter().enumerate().map(|(i, n)| Row::Many(vec![Row::N(i % 2), Row::N(*n)])).collect()
    }
}
fn flat(rows: &[Row]) -> Vec<Row> {
    rows.iter()
        .flat_map(|r| match r {
            Row::Many(v) => v.clone(),
            r => vec![r.clone()],
        })
        .collect()
}
impl<I: Offset, O: Offset> Tall for Nested<I, O> {
    fn item(r: &Row) -> Vec<Counting> {
        match r {
            Row::Many(v) => v.iter().map(Lists::<I>::item).collect(),
            _ => panic!("engine: row"),
        }
    }
    fn rows(&self) -> R<Vec<Row>> {
        let inner = self.child_ref().rows()?;
        Ok(bounds(self)?.windows(2).map(|w| Row::Many(inner[w[0]..w[1]].to_vec())).collect())
    }
    fn seen(&self) -> R<Vec<Row>> {
        let mut v = vec![];
        for i in 0..self.len() {
            let Some(x) = self.view(i) else { fail!("no view of row {i}") };
            v.push(Row::Many(x.into_owned().iter().map(|x| Row::N(x.0)).collect()));
        }
        Ok(v)
    }
    fn raw(rows: &[Row], surplus: usize) -> Result<Self, String> {
        let mut inner = flat(rows);
        if surplus > 0 && total(&inner).is_some_and(|t| I::try_from(t + 1).is_ok()) {
            inner.push(Row::N(1));
        }
        let o = Lists::<I>::raw(&inner, surplus)?;
        Offsets::try_from_parts(o, offsets_of::<O>(rows)).map_err(|e| e.to_string())
    }
    fn fits(rows: &[Row]) -> bool {
        fits_in::<O>(rows) && fits_in::<I>(&flat(rows))
    }
    fn rows_of(lens: &[usize]) -> Vec<Row> {
        lens.iter()
            .enumerate()
            .map(|(i, n)| if i % 3 == 2 { Row::Many(vec![Row::N(0), Row::N(*n), Row::N(1)]) } else { Row::Many(vec![Row::N(*n)]) })
            .collect()
    }
}

fn same<T: Tall>(c: &T, model: &[Row]) -> R
where
    T::Owned: Clone,
{
    let rows = no_panic("raw parts", || c.rows())??;
    ensure!(rows == model, "boundaries give {rows:?}, expected {model:?}");
    let seen = no_panic("reading", || c.seen())??;
    ensure!(seen == model, "reads as {seen:?}, expected {model:?}");
    Ok(())
}

#[derive(Clone, Debug)]
enum Do {
    Extend(Vec<Row>),
    TryExtend(Vec<Row>),
    Truncate(usize),
    Pop,
    Reserve,
}

fn act<T: Tall>(mut c: T, model: &mut Vec<Row>, op: &Do) -> R<T>
where
    T::Owned: Clone,
{
    match op {
        Do::Extend(rows) | Do::TryExtend(rows) => {
            let mut wanted = model.clone();
            wanted.extend(rows.iter().cloned());
            let fits = T::fits(&wanted);
            let items: Vec<T::Owned> = rows.iter().map(T::item).collect();
            if let Do::Extend(_) = op {
                match catch(|| c.extend(items)) {
                    Caught::Value(()) => {
                        ensure!(fits, "accepted, though the total exceeds the offset type");
                        *model = wanted;
                    }
                    Caught::Injected => fail!("injected panic out of place"),
                    Caught::Panic(p) => {
                        ensure!(!fits, "panicked at {p}, though the total fits the offset type");
                        let n = c.len();
                        ensure!(model.len() <= n && n < wanted.len(), "{n} rows after the panic, {} before", model.len());
                        *model = wanted[..n].to_vec();
                    }
                }
            } else {
                match catch(|| c.try_extend(items)) {
                    Caught::Value(Ok(())) => {
                        ensure!(fits, "accepted, though the total exceeds the offset type");
                        *model = wanted;
                    }
                    Caught::Value(Err(AllocError)) => ensure!(!fits, "refused, though the total fits the offset type"),
                    Caught::Injected => fail!("injected panic out of place"),
                    Caught::Panic(p) => fail!("panicked at {p}"),
                }
            }
        }
        Do::Truncate(n) => {
            no_panic("truncate", || c.truncate(*n))?;
            model.truncate(*n);
        }
        Do::Pop => {
            let n = model.len().saturating_sub(1);
            no_panic("truncate", || c.truncate(n))?;
            model.truncate(n);
        }
        Do::Reserve => {
            let ok = no_panic("try_reserve", || c.try_reserve(3))?.is_ok();
            ensure!(ok, "try_reserve(3) failed");
            no_panic("reserve", || c.reserve(2))?;
        }
    }
    same(&c, model)?;
    Ok(c)
}

fn limits<T: Tall>(tier: Tier, max: usize) -> impl Fn(&mut Ctx) -> R + Send + Sync + 'static
where
    T::Owned: Clone,
{
    // totals are moved around the limit; 2^32 and 2^64 are where narrower arithmetic wraps
    let mut big = vec![max - 2, max - 1, max, max + 1, max + 2, 2 * max, 2 * max + 1];
    if max < 1 << 40 {
        big.extend([2 * max + 2, 2 * max + 3, 1 << 33, (1 << 32) + max, 1 << 63, usize::MAX]);
    } else {
        big.push(1 << 32);
    }
    let mut batches: Vec<Vec<Row>> = vec![];
    for b in &big {
        batches.push(T::rows_of(&[*b]));
        batches.push(T::rows_of(&[1, *b]));
        if tier.thorough() {
            batches.push(T::rows_of(&[*b, 0]));
            batches.push(T::rows_of(&[*b, *b]));
            batches.push(T::rows_of(&[max / 2, *b, 2]));
        }
    }
    for s in [&[][..], &[0], &[1], &[2], &[1, 0, 1], &[7, 3, 1], &[max / 2, max / 2, 1], &[max / 2, max / 2, 2], &[max / 2, max / 2, 3, 0]] {
        batches.push(T::rows_of(s));
    }
    let mut ops: Vec<Do> = vec![];
    for b in batches {
        ops.push(Do::Extend(b.clone()));
        ops.push(Do::TryExtend(b));
    }
    ops.extend([Do::Pop, Do::Truncate(1), Do::Truncate(0), Do::Reserve]);
    let mut starts: Vec<(Vec<usize>, usize)> = vec![];
    for near in [0, 1, 2, 3] {
        starts.push((vec![max - near], 0));
        starts.push((vec![1, max - 1 - near], 0));
    }
    starts.push((vec![max / 2, 0, max / 2], 0));
    starts.push((vec![2, 7, 3], max));
    starts.push((vec![max - 5], 1 << 40));
    starts.push((vec![max], usize::MAX - max));
    starts.push((vec![], 1));
    let depth = tier.pick(3, 4);
    move |cx| {
        let how = cx.choose(3 + starts.len());
        let mut model: Vec<Row> = vec![];
        let mut path: Vec<String>;
        let mut c: T = match how {
            0 => {
                path = vec!["default".into()];
                T::default()
            }
            1 | 2 => {
                // built from rows that may be too many
                let Do::Extend(rows) = cx.pick(&ops[..ops.len() - 4]) else { return Ok(()) };
                let fits = T::fits(rows);
                let items: Vec<T::Owned> = rows.iter().map(T::item).collect();
                path = vec![format!("{} {rows:?}", if how == 1 { "try_from_iter_in" } else { "collect" })];
                cx.note(|| path[0].clone());
                cx.step();
                let made = if how == 1 {
                    catch(|| T::try_from_iter_in(items, ()))
                } else {
                    match catch(|| items.into_iter().collect::<T>()) {
                        Caught::Value(v) => Caught::Value(Ok(v)),
                        Caught::Injected => Caught::Injected,
                        Caught::Panic(_) if !fits => return Ok(()),
                        Caught::Panic(p) => Caught::Panic(p),
                    }
                };
                match made {
                    Caught::Value(Ok(v)) => {
                        ensure!(fits, "{path:?}: accepted, though the total exceeds the offset type");
                        model = rows.clone();
                        v
                    }
                    Caught::Value(Err(AllocError)) => {
                        ensure!(!fits, "{path:?}: refused, though the total fits the offset type");
                        return Ok(());
                    }
                    Caught::Injected => fail!("injected panic out of place"),
                    Caught::Panic(p) => fail!("{path:?}: panicked at {p}"),
                }
            }
            k => {
                let (lens, surplus) = &starts[k - 3];
                model = T::rows_of(lens);
                if !T::fits(&model) {
                    return Ok(());
                }
                path = vec![format!("raw parts of {model:?} and {surplus} more elements")];
                match T::raw(&model, *surplus) {
                    Ok(c) => c,
                    Err(e) => fail!("{path:?}: consistent raw parts refused: {e}"),
                }
            }
        };
        same(&c, &model).ctx(|| path.join(", "))?;
        for left in (1..=depth).rev() {
            cx.merge(hash_of(&(&model, how, &path[0], left == depth)), left)?;
            let op = cx.pick(&ops).clone();
            path.push(format!("{op:?}"));
            cx.note(|| format!("{op:?}"));
            cx.step();
            c = act(c, &mut model, &op).ctx(|| path.join(", "))?;
        }
        // Still usable.
        for op in [Do::Truncate(1), Do::TryExtend(T::rows_of(&[1])), Do::Truncate(0), Do::Extend(T::rows_of(&[3, 0, 2])), Do::TryExtend(T::rows_of(&[max - 6]))] {
            cx.step();
            c = act(c, &mut model, &op).ctx(|| format!("{}, then {op:?}", path.join(", ")))?;
        }
        cx.outcome(hash_of(&(&path, &model)));
        // The way out, as far as it can be taken in reasonable time.
        c.truncate(3);
        let n = c.len();
        let m = no_panic("consuming iteration", || c.into_iter_owned().count())?;
        ensure!(m == n, "{}: consuming iteration yields {m} of {n} rows", path.join(", "));
        Ok(())
    }
}

/// The same limit with real elements: booleans, 2^31 of which are 256 MiB.
fn real() -> impl Fn(&mut Ctx) -> R + Send + Sync + 'static {
    const MAX: usize = i32::MAX as usize;
    type A = VariableSizeList<bool, NonNullable, i32, VecBuffer>;
    let starts = [MAX - 2, MAX];
    let batches: [&[usize]; 4] = [&[1], &[2], &[1, 1, 1], &[0, 3]];
    move |cx| {
        let n = *cx.pick(&starts);
        let b = *cx.pick(&batches);
        let fallible = cx.flag();
        let what = || format!("a list of {n} booleans, {} lists of {b:?}", if fallible { "try_extend" } else { "extend" });
        cx.note(what);
        cx.state(hash_of(&(n, b, fallible)));
        let bits = match Bitmap::try_from_parts(vec![0_u8; n / 8 + 1], n, 0) {
            Ok(b) => b,
            Err(e) => fail!("{e}"),
        };
        let o = match Offsets::try_from_parts(Boolean::from_buffer(bits), vec![0, i32::try_from(n).expect("engine: start")]) {
            Ok(o) => o,
            Err(e) => fail!("{e}"),
        };
        let mut a = A::from_buffer(o);
        let fits = n + b.iter().sum::<usize>() <= MAX;
        let rows: Vec<Vec<bool>> = b.iter().map(|k| vec![true; *k]).collect();
        cx.step();
        let r = catch(|| {
            if fallible {
                a.try_extend(rows)
            } else {
                a.extend(rows);
                Ok(())
            }
        });
        let kept = match r {
            Caught::Value(Ok(())) => {
                ensure!(fits, "{}: accepted, though the total exceeds the offset type", what());
                b.len()
            }
            Caught::Value(Err(AllocError)) => {
                ensure!(!fits, "{}: refused, though the total fits the offset type", what());
                ensure!(a.len() == 1, "{}: {} rows after the refusal", what(), a.len());
                0
            }
            Caught::Panic(p) => {
                ensure!(!fits && !fallible, "{}: panicked at {p}", what());
                ensure!(1 <= a.len() && a.len() <= b.len(), "{}: {} rows after the panic", what(), a.len());
                a.len() - 1
            }
            Caught::Injected => fail!("injected panic out of place"),
        };
        let mut t = n;
        ensure!(a.len() == 1 + kept, "{}: {} rows", what(), a.len());
        ensure!(a.view(0).map(|v| v.len()) == Some(n), "{}: the first list changed", what());
        ensure!(a.view(0).and_then(|v| v.view(n - 1)) == Some(false), "{}: the last element of the first list changed", what());
        for (i, k) in b[..kept].iter().enumerate() {
            ensure!(a.owned(i + 1) == Some(vec![true; *k]), "{}: list {} is wrong", what(), i + 1);
            t += k;
        }
        let raw: &Vec<i32> = a.buffer_ref().buffer_ref();
        ensure!(raw.last().map(|x| *x as i64) == Some(t as i64), "{}: the last offset is {:?}", what(), raw.last());
        a.truncate(1);
        let ok = MAX - n;
        ensure!(a.try_extend([vec![true; ok]]).is_ok(), "{}: then filled up to the limit: refused", what());
        ensure!(a.owned(1) == Some(vec![true; ok]), "{}: then filled up to the limit: wrong list", what());
        ensure!(a.try_extend([vec![true]]).is_err() && a.len() == 2, "{}: then one more: accepted", what());
        Ok(())
    }
}

fn main() {
    mc::engine::main("C11", |tier, c| {
        c.bound("lists of counted elements over i32 and i64 offsets; every sequence of 3 (thorough 4) operations (extend, try_extend, truncate, reserve) from 16 starts, with row lengths at the limit and -3..+3 around it, at twice the limit, at 2^32, 2^33, 2^63 and usize::MAX, followed by 5 fixed operations");
        c.bound("shapes: lists, nullable lists, pairs of lists, lists of lists (inner i32/i64, outer i64/i32)");
        c.bound("the same limit with 2^31 - 1 real booleans");
        c.assume("elements are counted by a collection written for the check, not stored: the offset arithmetic is narrow's own");
        let i = i32::MAX as usize;
        let l = i64::MAX as usize;
        c.job("real/Vec<bool>", real());
        c.job("i32/lists", limits::<Lists<i32>>(tier, i));
        c.job("i64/lists", limits::<Lists<i64>>(tier, l));
        c.job("i32/nullable", limits::<Validity<Lists<i32>>>(tier, i));
        c.job("i64/nullable", limits::<Validity<Lists<i64>>>(tier, l));
        c.job("i32/pairs", limits::<Flatten<Lists<i32>, 2>>(tier, i));
        c.job("i64/pairs", limits::<Flatten<Lists<i64>, 2>>(tier, l));
        c.job("i32-i64/nested", limits::<Nested<i32, i64>>(tier, i));
        c.job("i64-i32/nested", limits::<Nested<i64, i32>>(tier, l));
    });
}
