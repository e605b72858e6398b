//! Arrays beyond 2^32 bits, items and rows, over memory that is reserved but hardly touched and over
//! collections that occupy no memory.

use crate::engine::{Ctx, R, Tier, hash_of, no_panic, violation};
use crate::ffi::*;
use crate::items::{Item, Ty, places as buffer_places};
use crate::{ensure, fail};
use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{SliceBuffer, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::owned::IntoOwned;
use narrow::collection::{Collection, CollectionRealloc};
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::offset::{Offset, OffsetView, Offsets};
use narrow::validity::Validity;
use narrow_ffi::{ArrowArray, ArrowSchema, Export, Import};
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Debug;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// One more than a 32-bit number holds.
pub const G: usize = 1 << 32;
const H: usize = 1 << 31;
type Slice = SliceBuffer<'static>;

/// Zeroed memory that is given back by nobody, or nothing if there is none.
fn zeroed(bytes: usize) -> Option<&'static mut [u8]> {
    let layout = Layout::from_size_align(bytes, 4096).expect("engine: layout");
    // Sound: fresh zeroed memory, never freed.
    unsafe {
        let p = System.alloc_zeroed(layout);
        (!p.is_null()).then(|| std::slice::from_raw_parts_mut(p, bytes))
    }
}

pub struct Vast {
    pub bytes: &'static [u8],
    /// The places of all bits that are set, among those that bitmaps reach.
    ones: Vec<usize>,
}
const BITS: usize = 2 * G + 1024;

/// 4 GiB and a bit, all zero but for bytes around the ends of narrower counters.
pub fn vast() -> Option<&'static Vast> {
    static V: OnceLock<Option<Vast>> = OnceLock::new();
    V.get_or_init(|| {
        let bytes = zeroed(G + 4096)?;
        let mut ones = vec![];
        let bits = [0, H / 8, G / 8, (G + H) / 8, 2 * G / 8];
        let values = [1 << 16, H, G, 3 << 30];
        for (k, at) in bits.into_iter().chain(values).enumerate() {
            for i in at.saturating_sub(6)..at + 6 {
                bytes[i] = crate::items::mix(i + k) as u8 | 1;
                ones.extend((8 * i..8 * i + 8).filter(|b| *b < BITS && bytes[i] >> (b % 8) & 1 == 1));
            }
        }
        ones.sort_unstable();
        ones.dedup();
        Some(Vast { bytes, ones })
    })
    .as_ref()
}
impl Vast {
    fn bit(&self, i: usize) -> bool {
        self.bytes[i / 8] >> (i % 8) & 1 == 1
    }
    fn ones(&self, off: usize, len: usize) -> usize {
        self.ones.partition_point(|i| *i < off + len) - self.ones.partition_point(|i| *i < off)
    }
    fn bitmap(&self, off: usize, len: usize) -> R<Bitmap<Slice>> {
        taken(Bitmap::<Slice>::try_from_parts(self.bytes, len, off))
    }
}
/// Consistent parts have to be taken.
fn taken<T, E: std::fmt::Display>(r: Result<T, E>) -> R<T> {
    r.or_else(|e| violation(format!("refused: {e}")))
}
/// Places around the ends of narrower counters and around `also`.
fn places(also: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1 << 16, H, G, G + H, 2 * G].iter().chain(also)
        .flat_map(|x| (0..9).map(move |d| x.saturating_add(d).saturating_sub(4)))
        .chain([usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - G, 1 << 35, 1 << 61])
        .collect();
    v.sort_unstable();
    v.dedup();
    v
}
fn pick_window(cx: &mut Ctx) -> Option<(usize, usize)> {
    let off = *cx.pick(&[0, 1, 7, 8, 13, H - 3, H, H + 3, G - 8, G - 5, G, G + 3]);
    let len = *cx.pick(&[9, 70, H - 1, H + 5, G - 8, G - 1, G, G + 1, G + 9, 2 * G - 3]);
    (off + len <= BITS).then_some((off, len))
}
fn unavailable(cx: &mut Ctx) -> R {
    cx.outcome(hash_of(&"no memory for it"));
    Ok(())
}
fn announced<I: ExactSizeIterator>(mut i: I, mut n: usize) -> R {
    for _ in 0..3 {
        ensure!(i.size_hint() == (n, Some(n)) && i.len() == n, "announces {:?} and {} of {n}", i.size_hint(), i.len());
        ensure!(i.next().is_some() == (n > 0), "next, with {n} to come");
        n = n.saturating_sub(1);
    }
    Ok(())
}

/// Windows of bitmaps: indexed reads, announced sizes, null queries per row.
pub fn bitmaps() -> impl Fn(&mut Ctx) -> R {
    |cx| {
        let Some((off, len)) = pick_window(cx) else { return Ok(()) };
        cx.patient();
        let Some(v) = vast() else { return unavailable(cx) };
        cx.note(|| format!("{len} bits at {off}"));
        cx.state(hash_of(&(off, len)));
        let m = v.bitmap(off, len)?;
        no_panic("reading", || {
            ensure!(m.len() == len && m.bit_offset() == off, "length {}, offset {}", m.len(), m.bit_offset());
            for i in places(&[len, off]) {
                let want = (i < len).then(|| v.bit(off + i));
                ensure!(m.view(i) == want && m.owned(i) == want, "view({i}) is {:?}, not {want:?}", m.view(i));
            }
            // Starting an iteration passes over the bits before the window one by one.
            if off < 16 {
                announced(m.iter_views(), len)?;
                announced(v.bitmap(off, len)?.into_iter_owned(), len)?;
                let few: Vec<bool> = m.iter_views().take(100).collect();
                ensure!(few == (0..len.min(100)).map(|i| v.bit(off + i)).collect::<Vec<_>>(), "iteration starts with {few:?}");
            }
            let n = taken(Validity::<_, Slice>::try_from_parts(v.bitmap(off, len)?, v.bitmap(off, len)?))?;
            ensure!(n.len() == len, "nullable length {}", n.len());
            for i in places(&[len, off]) {
                let valid = (i < len).then(|| v.bit(off + i));
                ensure!(n.is_valid(i) == valid && n.is_null(i) == valid.map(|x| !x), "is_valid({i}) is {:?}, not {valid:?}", n.is_valid(i));
                let want = valid.map(|x| x.then_some(true));
                ensure!(n.view(i) == want, "nullable view({i}) is {:?}, not {want:?}", n.view(i));
            }
            let (bytes, bits, o) = m.into_parts();
            ensure!(std::ptr::eq(bytes, v.bytes) && bits == len && o == off, "other parts come back");
            Ok(())
        })?
    }
}

/// Null counts of windows.
pub fn counts(thorough: bool) -> impl Fn(&mut Ctx) -> R {
    move |cx| {
        let Some((off, len)) = pick_window(cx) else { return Ok(()) };
        let often: &[(usize, usize)] = if thorough {
            &[(7, G + 1), (H, H + 5), (0, H - 1), (8, G), (G + 3, G - 1), (H - 3, G + 9), (13, 2 * G - 3)]
        } else {
            &[(7, G + 1)]
        };
        if len > 100 && !often.contains(&(off, len)) {
            return Ok(());
        }
        cx.patient();
        let Some(v) = vast() else { return unavailable(cx) };
        cx.note(|| format!("{len} bits at {off}"));
        cx.state(hash_of(&(off, len)));
        let n = taken(Validity::<_, Slice>::try_from_parts(v.bitmap(off, len)?, v.bitmap(off, len)?))?;
        let valid = v.ones(off, len);
        no_panic("counting", || {
            let start = Instant::now();
            let nulls = n.null_count();
            ensure!(nulls == len - valid, "{nulls} nulls, not {}", len - valid);
            // Once is enough if it is slow.
            if start.elapsed() > Duration::from_secs(10) {
                return Ok(());
            }
            let count = n.valid_count();
            ensure!(count == valid, "{count} valid, not {valid}");
            ensure!(n.any_valid() == (valid > 0) && !n.all_valid() && !n.all_null() == (valid > 0), "any or all queries");
            ensure!(off >= 16 || n.any_null(), "no null found");
            Ok(())
        })?
    }
}

/// Null counts over bits that are nearly all set.
pub fn set_counts(thorough: bool) -> impl Fn(&mut Ctx) -> R {
    move |cx| {
        static V: OnceLock<Option<&'static [u8]>> = OnceLock::new();
        let got = V.get_or_init(|| {
            let bytes = zeroed(G / 8 + 64)?;
            bytes.fill(0xFF);
            for i in [0, H / 8 - 1, H / 8, G / 8 - 1, G / 8, G / 8 + 3] {
                bytes[i] = 0xB5;
            }
            Some(bytes)
        });
        cx.patient();
        let Some(bytes) = *got else { return unavailable(cx) };
        let (off, len) = [(3, G + 64), (0, G + 64)][cx.choose(if thorough { 2 } else { 1 })];
        cx.note(|| format!("{len} bits at {off}"));
        cx.state(hash_of(&(off, len)));
        let bitmap = || taken(Bitmap::<Slice>::try_from_parts(bytes, len, off));
        let n = taken(Validity::<_, Slice>::try_from_parts(bitmap()?, bitmap()?))?;
        let inside = |i: usize| i >= off && i < off + len;
        let nulls = [0, H / 8 - 1, H / 8, G / 8 - 1, G / 8, G / 8 + 3].iter()
            .flat_map(|b| 8 * b..8 * b + 8).filter(|i| inside(*i) && bytes[i / 8] >> (i % 8) & 1 == 0).count();
        no_panic("counting", || {
            let start = Instant::now();
            let count = n.null_count();
            ensure!(count == nulls, "{count} nulls, not {nulls}");
            // Once is enough if it is slow.
            if start.elapsed() > Duration::from_secs(10) {
                return Ok(());
            }
            let count = n.valid_count();
            ensure!(count == len - nulls, "{count} valid, not {}", len - nulls);
            ensure!(n.any_null() && n.any_valid() && !n.all_valid() && !n.all_null(), "any or all queries");
            Ok(())
        })?
    }
}

/// The numbers below a bound, in no memory.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Numbers(pub usize);
impl Length for Numbers {
    fn len(&self) -> usize {
        self.0
    }
}
impl Collection for Numbers {
    type View<'a> = u64;
    type Owned = u64;
    fn view(&self, i: usize) -> Option<u64> {
        (i < self.0).then_some(i as u64)
    }
    type Iter<'a> = Count;
    fn iter_views(&self) -> Count {
        Count(0, self.0)
    }
    type IntoIter = Count;
    fn into_iter_owned(self) -> Count {
        Count(0, self.0)
    }
}
pub struct Count(usize, usize);
impl Iterator for Count {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        (self.0 < self.1).then(|| {
            self.0 += 1;
            self.0 as u64 - 1
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1 - self.0, Some(self.1 - self.0))
    }
}
impl ExactSizeIterator for Count {}

type Lists<O> = Offsets<Numbers, O, VecBuffer, Vec<u64>>;

fn list_view<O: Offset>(view: OffsetView<'_, Numbers, O, VecBuffer, Vec<u64>>, start: usize, end: usize) -> R {
    let len = end - start;
    ensure!(view.len() == len, "row {start}..{end}: length {}", view.len());
    for i in places(&[len]) {
        let want = (i < len).then(|| (start + i) as u64);
        ensure!(view.owned(i) == want, "row {start}..{end}: element {i} is {:?}, not {want:?}", view.owned(i));
    }
    let first: Vec<u64> = view.iter_views().take(3).collect();
    let want: Vec<u64> = (start..end).take(3).map(|x| x as u64).collect();
    ensure!(first == want, "row {start}..{end}: iteration starts with {first:?}");
    if len <= 300 {
        let all: Vec<u64> = view.iter_views().collect();
        ensure!(all == (start..end).map(|x| x as u64).collect::<Vec<_>>(), "row {start}..{end}: iteration gives {all:?}");
    }
    announced(view.into_iter_owned(), len)
}

/// Lists with more than 2^32 elements, in rows of every size.
pub fn lists<O: Offset + Debug>() -> impl Fn(&mut Ctx) -> R {
    |cx| {
        let sizes = [0, 1, 3, 300, H - 4, H, G - 1, G, G + 5];
        let cut = if size_of::<O>() == 4 { 5 } else { sizes.len() };
        let rows: Vec<usize> = (0..3).map(|_| sizes[cx.choose(cut)]).collect();
        let mut at = vec![0_usize];
        for r in &rows {
            at.push(at[at.len() - 1] + r);
        }
        let Ok(offsets) = at.iter().map(|x| O::try_from(*x)).collect::<Result<Vec<O>, _>>() else { return Ok(()) };
        let beyond = [0, G + 1][cx.choose(2)];
        cx.note(|| format!("rows of {rows:?} elements, {beyond} behind them"));
        cx.state(hash_of(&(&at, beyond)));
        let make = || taken(Lists::<O>::try_from_parts(Numbers(at[3] + beyond), offsets.clone()));
        let l = make()?;
        no_panic("reading", || {
            ensure!(l.len() == 3, "length {}", l.len());
            for i in 0..3 {
                let Some(v) = l.view(i) else { fail!("row {i} is missing") };
                list_view(v, at[i], at[i + 1])?;
                if rows[i] <= 300 {
                    let want: Vec<u64> = (at[i]..at[i + 1]).map(|x| x as u64).collect();
                    ensure!(v.into_owned() == want && l.owned(i).as_ref() == Some(&want), "row {i} is owned as {:?}", l.owned(i));
                }
                // Equal rows are compared only when they are small.
                for n in [rows[i] + 1, rows[i] + H, rows[i] + G].into_iter().chain((rows[i] <= 300 || at[i] > 0).then_some(rows[i])) {
                    let same = n == rows[i] && (at[i] == 0 || n == 0);
                    ensure!(PartialEq::<Numbers>::eq(&v, &Numbers(n)) == same, "row {i} of {n} equal: {}", !same);
                }
            }
            let lens: Vec<usize> = l.iter_views().map(|v| v.len()).collect();
            ensure!(lens == rows, "rows of {lens:?} elements are iterated");
            ensure!((3..9).chain([H, G, G + 1, usize::MAX]).all(|i| l.view(i).is_none()), "a row behind the last");
            if rows.iter().all(|r| *r <= 300) || rows[0] <= 300 {
                let mut i = make()?.into_iter_owned();
                ensure!(i.len() == 3, "announces {}", i.len());
                let want: Vec<u64> = (0..rows[0]).map(|x| x as u64).collect();
                ensure!(i.next() == Some(want), "the first row differs");
                ensure!(i.len() == 2, "announces {} of 2", i.len());
            }
            let (data, o) = l.into_parts();
            ensure!(data == Numbers(at[3] + beyond) && o.len() == 4, "other parts come back");
            Ok(())
        })?
    }
}

/// Fixed-size rows over more than 2^32 elements.
pub fn rows<const N: usize>() -> impl Fn(&mut Ctx) -> R {
    |cx| {
        let n = *cx.pick(&[H - 1, H, G - 2, G - 1, G, G + 1, G + H, 1 << 40, usize::MAX / N]);
        let n = if n > usize::MAX / N { usize::MAX / N } else { n };
        cx.note(|| format!("{n} rows of {N}"));
        cx.state(hash_of(&(n, N)));
        let make = || taken(Flatten::<Numbers, N>::try_from_parts(Numbers(n * N)));
        let f = make()?;
        no_panic("reading", || {
            ensure!(f.len() == n, "length {}", f.len());
            for i in places(&[n, n / N, n / 2, G / N, 2 * G / N, usize::MAX / N, usize::MAX / N - 9]) {
                let want = (i < n).then(|| std::array::from_fn::<u64, N, _>(|k| (i * N + k) as u64));
                ensure!(f.owned(i) == want, "row {i} of {n} is {:?}", f.owned(i));
                ensure!(f.view(i).map(|v| *v) == want, "view {i} of {n} differs");
            }
            if N > 1 && n < usize::MAX / N {
                let odd = Flatten::<Numbers, N>::try_from_parts(Numbers(n * N + 1));
                ensure!(odd.is_err(), "{} elements are taken for rows of {N}", n * N + 1);
            }
            announced(make()?.into_iter_owned(), n)?;
            let mut i = f.iter_views();
            ensure!(i.size_hint() == (n, Some(n)), "borrowed iteration announces {:?}", i.size_hint());
            let first: Vec<[u64; N]> = i.by_ref().take(2).map(|v| *v).collect();
            ensure!(first == (0..2).map(|i| std::array::from_fn(|k| (i * N + k) as u64)).collect::<Vec<_>>(), "iteration starts with {first:?}");
            ensure!(i.size_hint() == (n - 2, Some(n - 2)), "borrowed iteration announces {:?} of {}", i.size_hint(), n - 2);
            ensure!(make()?.into_parts() == Numbers(n * N), "other parts come back");
            Ok(())
        })?
    }
}

/// Growing and shrinking bitmaps that end around 2^31 and 2^32 bits.
pub fn growth() -> impl Fn(&mut Ctx) -> R {
    |cx| {
        let end = *cx.pick(&[H - 3, H, G - 9, G - 3, G - 1, G, G + 5]);
        let off = *cx.pick(&[0, 3, 8]);
        let surplus = cx.choose(3);
        let add = *cx.pick(&[1, 2, 8, 21]);
        let call = cx.choose(4);
        cx.note(|| format!("bits {off}..{end}, {surplus} bytes behind, {add} bits by call {call}"));
        let size = end.div_ceil(8) + surplus;
        let mut bytes: Vec<u8> = vec![0; size + 64];
        bytes.truncate(size);
        let from = end / 8 - 3;
        for i in from..size {
            bytes[i] = crate::items::mix(i) as u8;
        }
        let mut model: Vec<bool> = (8 * from..end).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect();
        let mut m = taken(Bitmap::<VecBuffer>::try_from_parts(bytes, end - off, off))?;
        cx.state(hash_of(&(end, off, surplus, add, call)));
        no_panic("growing", || {
            let new: Vec<bool> = (0..add).map(|k| crate::items::mix(k + add) & 2 == 2).collect();
            let check = |m: &Bitmap, model: &[bool], when: &str| -> R {
                let len = 8 * from + model.len() - off;
                ensure!(m.len() == len, "{when}: length {}, not {len}", m.len());
                for (k, w) in model.iter().enumerate() {
                    let i = 8 * from + k - off;
                    ensure!(m.view(i) == Some(*w), "{when}: bit {i} is {:?}", m.view(i));
                }
                ensure!(m.view(len).is_none() && m.view(len + G).is_none(), "{when}: a bit behind the end");
                ensure!(m.view(0) == Some(false) && m.view(8 * from - off - 1) == Some(false), "{when}: an early bit");
                Ok(())
            };
            match call {
                0 => m.extend(new.iter()),
                1 => taken(m.try_extend(new.iter().copied()))?,
                2 => {
                    m.reserve(add);
                    m.extend(new.iter());
                }
                _ => {
                    m.truncate(m.len() - 5);
                    model.truncate(model.len() - 5);
                    check(&m, &model, "truncated")?;
                    taken(m.try_reserve(add))?;
                    m.extend(new.iter());
                }
            }
            model.extend(&new);
            check(&m, &model, "extended")?;
            let (bytes, bits, o) = m.into_parts();
            ensure!(bits == 8 * from + model.len() - off && o == off && bytes.len() >= (o + bits).div_ceil(8), "other parts come back");
            Ok(())
        })?
    }
}

/// Arrays of more than 2^32 rows are exported, and imported again if `back`.
pub fn exchanged(tier: Tier, back: bool) -> impl Fn(&mut Ctx) -> R {
    let sizes: &'static [usize] = tier.pick(&[G + 9][..], &[H, G - 1, G, G + 9][..]);
    move |cx| {
        let kind = cx.choose(6);
        let n = *cx.pick(sizes);
        cx.patient();
        let Some(v) = vast() else { return unavailable(cx) };
        cx.note(|| format!("{n} rows of kind {kind}"));
        cx.state(hash_of(&(kind, n)));
        let num = |i: usize| u64::from(v.bytes[i]);
        let bit = |i: usize| u64::from(v.bit(i));
        let valid = |i: usize| v.bit(i);
        match kind {
            0 => exchange(back, Array::<bool, Slice>::from_buffer(Boolean::from_buffer(v.bitmap(0, n)?)), n, -1, |x| u64::from(*x), bit),
            1 => exchange(back, 
                Array::<Option<bool>, Slice>::from_buffer(Boolean::from_buffer(
                    taken(Validity::try_from_parts(v.bitmap(0, n)?, v.bitmap(0, n)?))?,
                )),
                n, (n - v.ones(0, n)) as i64, |x| x.map_or(9, u64::from), |i| if valid(i) { 1 } else { 9 },
            ),
            2 => exchange(back, Array::<u8, Slice>::from_buffer(FixedSizePrimitive::from_buffer(&v.bytes[..n])), n, -1, |x| u64::from(*x), num),
            3 => exchange(back, 
                Array::<Option<u8>, Slice>::from_buffer(FixedSizePrimitive::from_buffer(
                    taken(Validity::try_from_parts(&v.bytes[..n], v.bitmap(0, n)?))?,
                )),
                n, (n - v.ones(0, n)) as i64, |x| x.map_or(999, u64::from), |i| if valid(i) { num(i) } else { 999 },
            ),
            4 => exchange(back, 
                Array::<[bool; 2], Slice>::from_buffer(FixedSizeList::from_buffer(
                    taken(Flatten::try_from_parts(Boolean::from_buffer(v.bitmap(0, n / 2 * 2)?)))?,
                )),
                n / 2, -1, |x| u64::from(x[0]) + 2 * u64::from(x[1]), |i| bit(2 * i) + 2 * bit(2 * i + 1),
            ),
            // The elements end behind the last row.
            _ => exchange(back, 
                Array::<Vec<u8>, Slice>::from_buffer(VariableSizeList::from_buffer(
                    taken(Offsets::try_from_parts(
                        FixedSizePrimitive::from_buffer(&v.bytes[..n]),
                        [0_i32, 3, i32::MAX - 5, i32::MAX].as_slice(),
                    ))?,
                )),
                3, -1, |x| x.iter().map(|x| u64::from(*x)).sum(),
                |i| { let o = [0, 3, H - 6, H - 1]; (o[i]..o[i + 1]).map(num).sum() },
            ),
        }
    }
}
/// Exports an array of `n` rows, `nulls` of them null if that is not negative, where `read` of row
/// `i` is `want(i)`.
fn exchange<T: Item>(
    back: bool, a: Array<T, Slice>, n: usize, nulls: i64, read: impl Fn(&T) -> u64, want: impl Fn(usize) -> u64,
) -> R
where
    Array<T, Slice>: Export + Import<'static> + Collection<Owned = T>,
{
    let ty = T::ty();
    let was: Vec<usize> = buffer_places(&a).iter().filter(|p| p.2 > 0).map(|p| p.1).collect();
    let (array, schema) = match no_panic("export", || a.export())? {
        Ok(x) => x,
        Err(e) => fail!("export failed: {e}"),
    };
    let mut array = take_array(array);
    let mut schema = take_schema(schema);
    let r = (|| {
        check_schema(&ty, &schema).or_else(|e| violation(format!("exported schema: {e}")))?;
        ensure!(array.length == n as i64 && array.offset == 0, "exported {} rows at {}", array.length, array.offset);
        ensure!(array.null_count == nulls.max(0), "exported {} nulls, not {}", array.null_count, nulls.max(0));
        ensure!(array.n_buffers == buffers_of(&ty), "{} buffers", array.n_buffers);
        ensure!(array.n_children == i64::from(ty.child().is_some()), "{} children", array.n_children);
        if let Some(c) = ty.child() {
            let k = unsafe { &*array.child(0) };
            let rows = match ty.base() {
                Ty::Fixed(w, _) => n * w,
                _ => H - 1,
            };
            ensure!(k.null_count == 0 && k.offset == 0 && k.n_children == 0 && k.n_buffers == buffers_of(c), "the child differs: {k:?}");
            ensure!(k.length as usize == rows || (n == 3 && k.length as usize >= rows), "the child has {} rows, not {rows}", k.length);
        }
        let mut p = vec![];
        pointers(&ty, &array, &mut p);
        let is: Vec<usize> = p.iter().map(|p| p.0 as usize).collect();
        ensure!(is == was, "buffers are exported from {is:x?}, not from {was:x?}");
        if !back {
            return Ok(());
        }
        // Sound: what is imported is gone before the structures are.
        let a_ref: &'static ArrowArray = unsafe { &*std::ptr::from_ref(narrow_array(&array)) };
        let s_ref: &'static ArrowSchema = unsafe { &*std::ptr::from_ref(narrow_schema(&schema)) };
        let got: Array<T, Slice> = match no_panic("import", || unsafe { Import::import(a_ref, s_ref) })? {
            Ok(x) => x,
            Err(e) => fail!("import of an exported array failed: {e}"),
        };
        let has: Vec<usize> = buffer_places(&got).iter().filter(|p| p.2 > 0).map(|p| p.1).collect();
        ensure!(has == is, "buffers are imported from {has:x?}, not from {is:x?}");
        no_panic("reading", || reads(&got, n, &read, &want))?
    })();
    array.release();
    schema.release();
    r
}
/// Indexed reads of a vast array. Rows that are large themselves are read once.
fn reads<T>(a: &Array<T, Slice>, n: usize, read: &impl Fn(&T) -> u64, want: &impl Fn(usize) -> u64) -> R
where
    T: narrow::layout::ArrayItem,
    Array<T, Slice>: Collection<Owned = T>,
{
    ensure!(a.len() == n, "length {}, not {n}", a.len());
    let at = if n < 9 { vec![0, 2, 3, 4, H, G, G + 1, usize::MAX] } else { places(&[n]) };
    for i in at {
        let got = a.owned(i).map(|x| read(&x));
        let w = (i < n).then(|| want(i));
        ensure!(got == w, "row {i} of {n} is {got:?}, not {w:?}");
    }
    Ok(())
}
