//! C12: iterators announce exactly what they will yield, at every step.
use mc::engine::*;
use mc::hist::*;
use mc::items::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::*;
use narrow::collection::flatten::Flatten;
use narrow::collection::owned::IntoOwned;
use narrow::collection::Collection;
use narrow::offset::Offsets;
use narrow::validity::Validity;

/// How the announced remaining count is judged.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Says {
    /// Always exact.
    Exactly,
    /// Exact if it is so at the start; bounds in any case.
    Maybe,
}

const SKIPS: [usize; 5] = [1, 2, 3, 7, 8];
/// Skips relative to the end, and far beyond it: some are small again in a narrower type.
const JUMPS: usize = 6;

/// Skips so far that they are small again when multiplied by a width or a number of bits.
fn far_skips() -> &'static [usize] {
    static SKIPS: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    SKIPS.get_or_init(|| {
        let wraps = [2_u128, 3, 4, 5, 6, 7, 8, 9, 16, 17, 24, 64].into_iter().flat_map(|width| {
            let wrap = (1_u128 << 64).div_ceil(width);
            [wrap as usize, wrap as usize + 1]
        });
        wraps.chain([usize::MAX - 1]).collect()
    })
}

/// Walks an iterator in every way the choices allow, checking what it announces at every step.
fn walk<I: Iterator>(
    cx: &mut Ctx,
    it: I,
    model: &[Val],
    says: Says,
    len: Option<fn(&I) -> usize>,
    val: impl Fn(I::Item) -> Val,
    free: bool,
    log: &mut String,
) -> R {
    let n = model.len();
    let mut it = it;
    let mut at = 0;
    if cx.flag() {
        // Row by row, and then very far.
        let mut script = vec![0; cx.choose(n + 1)];
        script.push(*cx.pick(far_skips()));
        let exact = says == Says::Exactly || it.size_hint().1 == Some(it.size_hint().0);
        log.push_str(&format!("{} rows, then nth({})", script.len() - 1, script[script.len() - 1]));
        let steps = no_panic("iterating", || go(&mut it, exact, &script, model, val))?.ctx(|| log.clone())?;
        cx.steps(steps);
        return Ok(());
    }
    let exact = says == Says::Exactly || it.size_hint().1 == Some(it.size_hint().0);
    let check = |it: &I, at: usize, log: &str| -> R {
        let left = n - at;
        let h = no_panic("size_hint", || it.size_hint())?;
        if exact {
            ensure!(h == (left, Some(left)), "[{log}] announces {h:?} with {left} rows to come");
        } else {
            ensure!(h.0 <= left && h.1.is_none_or(|u| u >= left), "[{log}] announces {h:?} with {left} rows to come");
        }
        if let Some(f) = len {
            let l = no_panic("len", || f(it))?;
            ensure!(l == left, "[{log}] len() is {l} with {left} rows to come");
        }
        Ok(())
    };
    check(&it, 0, log)?;
    let bound = if free { 99 } else { 3 };
    let mut finished = false;
    while !finished {
        // next, skips, skips to the last and beyond it, and consuming the rest
        let k = cx.deviate(1 + SKIPS.len() + JUMPS + 5, bound);
        cx.step();
        let got = match k {
            0 => {
                log.push_str("next ");
                let r = no_panic("next", || it.next())?.map(&val);
                (at, r)
            }
            k if k <= SKIPS.len() + JUMPS => {
                let s = match k - 1 {
                    i if i < SKIPS.len() => SKIPS[i],
                    i => match i - SKIPS.len() {
                        0 => (n - at).saturating_sub(1),
                        1 => n - at,
                        2 => 1 << 8,
                        3 => 1 << 16,
                        4 => 1 << 32,
                        _ => usize::MAX,
                    },
                };
                log.push_str(&format!("nth({s}) "));
                let r = no_panic("nth", || it.nth(s))?.map(&val);
                (at.saturating_add(s), r)
            }
            k => {
                let rest = model[at..].to_vec();
                let what = ["count", "last", "fold", "collect", "by_ref take 2 and the rest"][k - SKIPS.len() - JUMPS - 1];
                log.push_str(what);
                match k - SKIPS.len() - JUMPS - 1 {
                    0 => {
                        let c = no_panic("count", || it.count())?;
                        ensure!(c == rest.len(), "[{log}] counts {c} of {} rows", rest.len());
                    }
                    1 => {
                        let l = no_panic("last", || it.last())?.map(&val);
                        ensure!(l.as_ref() == rest.last(), "[{log}] is {l:?}, expected {:?}", rest.last());
                    }
                    2 => {
                        let v = no_panic("fold", || {
                            it.fold(vec![], |mut v, x| {
                                v.push(val(x));
                                v
                            })
                        })?;
                        ensure!(v == rest, "[{log}] yields {v:?}, expected {rest:?}");
                    }
                    3 => {
                        let v = no_panic("collect", || it.map(&val).collect::<Vec<_>>())?;
                        ensure!(v == rest, "[{log}] yields {v:?}, expected {rest:?}");
                    }
                    _ => {
                        let v = no_panic("take", || it.by_ref().take(2).map(&val).collect::<Vec<_>>())?;
                        let m = rest.len().min(2);
                        ensure!(v == rest[..m], "[{log}] yields {v:?}, expected {:?}", &rest[..m]);
                        check(&it, at + m, log)?;
                        let w = no_panic("collect", || it.map(&val).collect::<Vec<_>>())?;
                        ensure!(w == rest[m..], "[{log}] yields {w:?}, expected {:?}", &rest[m..]);
                    }
                }
                return Ok(());
            }
        };
        let (pos, r) = got;
        ensure!(r.as_ref() == model.get(pos), "[{log}] yields {r:?}, expected {:?}", model.get(pos));
        at = pos.saturating_add(1).min(n);
        finished = r.is_none();
        check(&it, at, log)?;
    }
    // Finished stays finished.
    for i in 0..3 {
        let r = no_panic("next after the end", || if i == 1 { it.nth(1) } else { it.next() })?;
        ensure!(r.is_none(), "[{log}] yields a row after its end");
        check(&it, n, log)?;
    }
    Ok(())
}

fn both<T: Item, C: Collection<Owned = T>>(cx: &mut Ctx, c: C, model: &[Val], free: bool) -> R {
    let mut log = String::new();
    let consuming = cx.flag();
    if consuming {
        let it = no_panic("into_iter_owned", || c.into_iter_owned())?;
        walk(cx, it, model, Says::Exactly, Some(ExactSizeIterator::len), |x| x.val(), free, &mut log).ctx(|| "consuming".into())
    } else {
        let it = no_panic("iter_views", || c.iter_views())?;
        walk(
            cx,
            it,
            model,
            Says::Maybe,
            None,
            |x| {
                let t: T = x.into_owned();
                t.val()
            },
            free,
            &mut log,
        )
        .ctx(|| "borrowed".into())
    }
}

fn arrays<T: Item + Send + Sync, C: Column<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let starts = starts::<T>(tier);
    let changes: Vec<Op<T>> = vec![
        Op::Truncate(Cut::Off(1)),
        Op::Extend((0..2).map(|k| T::from_val(&sample_val(&T::ty(), k + 41))).collect()),
    ];
    let n = tier.pick(2, 3);
    move |cx| {
        let s = cx.pick(&starts).clone();
        let (mut c, mut m): (C, Vec<Val>) = start(&s)?;
        let k = cx.choose(n);
        if k > 0 {
            c = apply(c, &mut m, &changes[k - 1])?;
        }
        let what = || format!("{}{}", show_start(&s), if k > 0 { format!(", {}", show(&changes[k - 1])) } else { String::new() });
        cx.note(what);
        cx.state(hash_of(&(what(), k)));
        let free = m.len() <= if k == 2 { 3 } else { 4 };
        both(cx, c, &m, free).ctx(what)
    }
}

fn stored<T: Item + Send + Sync, S: Home + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let mut states: Vec<(Vec<Val>, Phys)> = vec![];
    for rows in start_rows::<T>(tier) {
        for d in dirts() {
            let p = Phys::encode(&T::ty(), &rows, &d);
            if !states.iter().any(|s| s.1 == p) {
                states.push((rows.clone(), p));
            }
        }
    }
    move |cx| {
        let (rows, p) = cx.pick(&states);
        cx.note(|| format!("{p:?}"));
        cx.state(hash_of(p));
        let r = match from_phys::<T, S>(p) {
            Ok(a) => both(cx, a, rows, rows.len() <= 4),
            Err(e) if e.contains("does not fit") => Ok(()),
            Err(e) => violation(format!("consistent raw parts refused: {e}")),
        };
        leak::free();
        r.ctx(|| format!("{p:?}"))
    }
}

/// Compositions of collections that are not arrays.
fn composed<T: Item + Send + Sync, C: Grow<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let rows = start_rows::<T>(tier);
    move |cx| {
        let m = cx.pick(&rows);
        let cut = cx.choose(2);
        let what = || format!("{m:?}, {cut} more truncated");
        cx.note(what);
        cx.state(hash_of(&(m, cut)));
        let mut c: C = items::<T>(m).into_iter().collect();
        if cut > 0 {
            c.extend(std::iter::once(T::from_val(&sample_val(&T::ty(), 3))));
            c.truncate(m.len());
        }
        both(cx, c, m, m.len() <= 3).ctx(what)
    }
}

/// Rows of a list column are collections themselves.
fn rows_of_lists<T: Item + Send + Sync>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync
where
    Vec<T>: Item,
    Arr<Vec<T>>: Grow<Vec<T>>,
    for<'a> Array<Vec<T>, VecBuffer>: Collection<
            Owned = Vec<T>,
            View<'a> = narrow::offset::OffsetView<'a, <T as narrow::layout::ArrayItem>::Memory<VecBuffer>, i32, VecBuffer, Vec<T>>,
        >,
{
    let lens: Vec<Vec<usize>> = tier.pick(vec![vec![0, 3, 9], vec![1, 8, 2]], vec![vec![0, 3, 9], vec![1, 8, 2], vec![17, 0, 16], vec![7, 7, 7, 7]]);
    let dirts = dirts();
    move |cx| {
        let lens = cx.pick(&lens).clone();
        let d = *cx.pick(&dirts);
        let i = cx.choose(lens.len());
        let rows: Vec<Val> = lens
            .iter()
            .enumerate()
            .map(|(r, n)| Val::List((0..*n).map(|k| sample_val(&T::ty(), 31 * r + k)).collect()))
            .collect();
        let p = Phys::encode(&<Vec<T> as Item>::ty(), &rows, &d);
        let what = || format!("row {i} of {p:?}");
        cx.note(what);
        cx.state(hash_of(&(&p, i)));
        let a: Arr<Vec<T>> = match from_phys(&p) {
            Ok(a) => a,
            Err(e) => fail!("consistent raw parts refused: {e}"),
        };
        let Some(v) = a.view(i) else { fail!("{}: missing", what()) };
        let Val::List(m) = &rows[i] else { fail!("engine: row") };
        both::<T, _>(cx, v, m, m.len() <= 4).ctx(what)
    }
}

/// Bare collections and their `IntoIterator` implementations.
fn bare(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let max = tier.pick(4, 6);
    move |cx| {
        let kind = cx.choose(19);
        let n = cx.choose(max + 1);
        cx.note(|| format!("kind {kind} of {n}"));
        cx.state(hash_of(&(kind, n)));
        let v: Vec<u16> = (0..n).map(|k| mix(k) as u16).collect();
        let m: Vec<Val> = v.iter().map(|x| Val::Num(u128::from(*x))).collect();
        let bits: Vec<bool> = (0..n).map(|k| mix(k) & 1 == 1).collect();
        let bm: Vec<Val> = bits.iter().map(|b| Val::Bool(*b)).collect();
        let off = [0, 5, 8, 15][if kind >= 9 { cx.choose(4) } else { 0 }];
        let bitmap = |off: usize| -> R<Bitmap> {
            match bitmap_from(&Bits::from_bools(&bits, off, 1, 0xFF)) {
                Ok(b) => Ok(b),
                Err(e) => fail!("{e}"),
            }
        };
        let opt: Vec<Val> = m.iter().zip(&bits).map(|(v, b)| if *b { v.clone() } else { Val::Null }).collect();
        let num = |x: u16| Val::Num(u128::from(x));
        let mut log = String::new();
        let free = n <= 4;
        macro_rules! slot {
            ($($k:literal)*) => { match n { $($k => both::<u16, [u16; $k]>(cx, v.try_into().unwrap_or([0; $k]), &m, free),)* _ => Ok(()) } };
        }
        let r = match kind {
            0 => both::<u16, _>(cx, v, &m, free),
            1 => both::<u16, Box<[u16]>>(cx, v.into(), &m, free),
            2 => both::<u16, std::rc::Rc<[u16]>>(cx, v.into(), &m, free),
            3 => both::<u16, std::sync::Arc<[u16]>>(cx, v.into(), &m, free),
            4 => both::<u16, &[u16]>(cx, &v, &m, free),
            5 => slot!(0 1 2 3 4 5 6),
            6 => {
                let i = narrow::collection::slice::SliceIntoIter::<&[u16], u16>::from(&v[..]);
                walk(cx, i, &m, Says::Exactly, Some(ExactSizeIterator::len), num, free, &mut log)
            }
            7 => {
                let lists: Vec<Vec<u16>> = v.iter().map(|x| vec![*x]).collect();
                let lm: Vec<Val> = m.iter().map(|x| Val::List(vec![x.clone()])).collect();
                both::<Vec<u16>, _>(cx, lists, &lm, free)
            }
            8 => {
                let o: Offsets<Vec<u16>> = v.iter().map(|x| vec![*x]).collect();
                let lm: Vec<Val> = m.iter().map(|x| Val::List(vec![x.clone()])).collect();
                both::<Vec<u16>, _>(cx, o, &lm, free)
            }
            9 => both::<bool, _>(cx, bitmap(off)?, &bm, free),
            10 => {
                let b = bitmap(off)?;
                walk(cx, (&b).into_iter(), &bm, Says::Maybe, None, Val::Bool, free, &mut log)
            }
            11 => walk(cx, bitmap(off)?.into_iter(), &bm, Says::Exactly, Some(ExactSizeIterator::len), Val::Bool, free, &mut log),
            12 | 13 | 14 | 15 => {
                let x = if kind == 15 { Ok(Validity::<Vec<u16>>::from_collection(v)) } else { Validity::try_from_parts(v, bitmap(off)?) };
                let x = match x {
                    Ok(x) => x,
                    Err(e) => fail!("{e}"),
                };
                let m = if kind == 15 { &m } else { &opt };
                let f = |x: Option<u16>| x.map_or(Val::Null, num);
                match kind {
                    12 => both::<Option<u16>, _>(cx, x, m, free),
                    13 => walk(cx, (&x).into_iter(), m, Says::Maybe, None, f, free, &mut log),
                    _ => walk(cx, x.into_iter(), m, Says::Exactly, Some(ExactSizeIterator::len), f, free, &mut log),
                }
            }
            16 | 17 => {
                let k = 3 * n;
                let items: Vec<bool> = (0..k).map(|k| mix(k) & 1 == 1).collect();
                let rows: Vec<Val> = items.chunks(3).map(|c| Val::List(c.iter().map(|b| Val::Bool(*b)).collect())).collect();
                let b: Bitmap = match bitmap_from(&Bits::from_bools(&items, off, 0, 0)) {
                    Ok(b) => b,
                    Err(e) => fail!("{e}"),
                };
                match Flatten::<Bitmap, 3>::try_from_parts(b) {
                    Ok(f) => both::<[bool; 3], _>(cx, f, &rows, free),
                    Err(e) => fail!("{e}"),
                }
            }
            _ => {
                let x = Validity::<Bitmap>::from_collection(bitmap(off)?);
                both::<Option<bool>, _>(cx, x, &bm, free)
            }
        };
        r.ctx(|| format!("kind {kind} of {n} at {off}"))
    }
}

/// More rows than a byte, a word and a chunk hold, few deviations.
/// Walks by a script of jumps, then row by row.
fn go<I: Iterator>(it: &mut I, exact: bool, script: &[usize], m: &[Val], val: impl Fn(I::Item) -> Val) -> R<u64> {
    let mut at = 0_usize;
    let mut steps = 0;
    let mut script = script.iter().copied().chain(std::iter::repeat(0));
    loop {
        let left = m.len() - at;
        let h = it.size_hint();
        if exact {
            ensure!(h == (left, Some(left)), "announces {h:?} with {left} rows to come");
        } else {
            ensure!(h.0 <= left && h.1.is_none_or(|u| u >= left), "announces {h:?} with {left} rows to come");
        }
        let s = script.next().unwrap_or(0);
        let r = if s == 0 { it.next() } else { it.nth(s) }.map(&val);
        steps += 1;
        let to = at.saturating_add(s);
        ensure!(r.as_ref() == m.get(to), "yields {r:?} at {to}, expected {:?}", m.get(to));
        at = to.saturating_add(1).min(m.len());
        if r.is_none() {
            ensure!(it.size_hint() == (0, Some(0)) || !exact, "announces {:?} at its end", it.size_hint());
            ensure!(it.next().is_none(), "yields a row after its end");
            return Ok(steps);
        }
    }
}
fn jumps_in<T: Item, C: Collection<Owned = T>>(c: C, consuming: bool, script: &[usize], m: &[Val]) -> R<u64> {
    no_panic("iterating", || {
        if consuming {
            go(&mut c.into_iter_owned(), true, script, m, |x| x.val())
        } else {
            let mut it = c.iter_views();
            let e = it.size_hint().1 == Some(it.size_hint().0);
            go(&mut it, e, script, m, |x| {
                let t: T = x.into_owned();
                t.val()
            })
        }
    })?
}

/// Long rows of a list column.
fn long_row<T: Item + Send + Sync>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync
where
    Vec<T>: Item,
    for<'a> Array<Vec<T>, VecBuffer>: Collection<
            Owned = Vec<T>,
            View<'a> = narrow::offset::OffsetView<'a, <T as narrow::layout::ArrayItem>::Memory<VecBuffer>, i32, VecBuffer, Vec<T>>,
        >,
{
    let lens: &[usize] = if tier.thorough() { &[63, 64, 65, 127, 130, 1023, 1024, 1025, 2049] } else { &[64, 65, 130, 1025] };
    let jumps = [0_usize, 7, 8, 62, 63, 64, 511, 1000, 1023];
    let dirts = dirts();
    move |cx| {
        let n = *cx.pick(lens);
        let d = *cx.pick(&dirts);
        let ty = <Vec<T> as Item>::ty();
        let rows = vec![sample_val(&ty, 1), sized_val(&ty, 0, n, 2), sized_val(&ty, 0, 9, 3)];
        let a: Arr<Vec<T>> = match from_phys(&Phys::encode(&ty, &rows, &d)) {
            Ok(a) => a,
            Err(e) => fail!("consistent raw parts refused: {e}"),
        };
        let consuming = cx.flag();
        let script = [*cx.pick(&jumps), 0, *cx.pick(&jumps)];
        let what = || format!("row of {n}, {d:?}, consuming {consuming}, jumps {script:?}, then to the end");
        cx.note(what);
        cx.state(hash_of(&what()));
        let Some(v) = a.view(1) else { fail!("{}: missing", what()) };
        let Val::List(m) = &rows[1] else { fail!("engine: row") };
        let steps = jumps_in::<T, _>(v, consuming, &script, m).ctx(what)?;
        cx.steps(steps);
        Ok(())
    }
}

fn long<T: Item + Send + Sync, C: Column<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let lens: &[usize] = if tier.thorough() { &[63, 64, 65, 127, 130, 1023, 1024, 1025, 2049] } else { &[64, 65, 130, 1025] };
    two_jumps::<T, C>(lens, &[0, 7, 8, 62, 63, 64, 511, 1000, 1023])
}
/// Fixed-size rows of many items.
fn wide<T: Item + Send + Sync, C: Column<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let one = usize::MAX / width(&T::ty()) + 1;
    let jumps = [0, 1, 2, 3, 7, 8, 9, 69, 70, 256, 1030, one - 1, one, one + 1, 1 << 16, 1 << 32, usize::MAX];
    two_jumps::<T, C>(if tier.thorough() { &[0, 1, 2, 3, 4, 9, 17, 65] } else { &[0, 1, 2, 3, 9] }, &jumps)
}
fn two_jumps<T: Item + Send + Sync, C: Column<T> + 'static>(lens: &'static [usize], jumps: &[usize]) -> impl Fn(&mut Ctx) -> R + Send + Sync + use<T, C> {
    let jumps = jumps.to_vec();
    move |cx| {
        let n = *cx.pick(lens);
        let raw = cx.flag();
        let rows: Vec<Val> = (0..n).map(|k| sample_val(&T::ty(), k)).collect();
        let s: Start<T> = if raw {
            let d = Dirt { off_valid: 5, off_bool: 3, extra: 2, fill: 0xFF, surplus: 1, implicit: true, junk: true };
            Start::Raw(rows.clone(), d, Phys::encode(&T::ty(), &rows, &d))
        } else {
            Start::Collected(items(&rows))
        };
        let (c, m): (C, Vec<Val>) = start(&s)?;
        let consuming = cx.flag();
        let a = *cx.pick(&jumps);
        let b = *cx.pick(&jumps);
        let what = || format!("{n} rows (raw {raw}), consuming {consuming}, nth({a}), next, nth({b}), then to the end");
        cx.note(what);
        cx.state(hash_of(&what()));
        let script = [a, 0, b];
        let steps = jumps_in::<T, C>(c, consuming, &script, &m).ctx(what)?;
        cx.steps(steps);
        Ok(())
    }
}

fn main() {
    mc::engine::main("C12", |tier, c| {
        c.bound("arrays of up to 4 rows (3 once extended): every sequence of next, nth of 1, 2, 3, 7, 8, to the last, one and (256, 65536, 2^32, 2^64-1) far beyond, and of count, last, fold, collect, take and the rest; up to 9 (thorough 17) rows: every such sequence with at most 3 steps other than next; from every position every skip that is small again when multiplied by a width of 2 to 9, 16, 17, 24 or 64; borrowed and consuming");
        c.bound("size hint and len() before the first and after every step, three further calls after the end");
        c.bound("start states as in the history checks (dirty raw parts, bit offsets), after a truncation (thorough: or extension); seven storages; list rows as collections; bare collections and iterators; lengths 64 to 1025 (thorough 63 to 2049), of arrays and of list rows, with two jumps");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes): up to 9 (thorough 65) rows, every pair of 17 jumps, some of which wrap around the items of a row");
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("array/", stringify!($t)), arrays::<$t, Arr<$t>>(tier));
            };
        }
        mc::shapes_core!(j);
        mc::shapes_deep!(j);
        j!(u8); j!(u128); j!(f64); j!(Option<i32>);
        c.job("i64/Vec<Option<bool>>", arrays::<Vec<Option<bool>>, Large<Option<bool>>>(tier));
        c.job("i64/Option<Vec<u8>>", arrays::<Option<Vec<u8>>, LargeNull<u8>>(tier));
        macro_rules! s {
            ($t:ty) => {
                c.job(concat!("box/", stringify!($t)), stored::<$t, BoxBuffer>(tier));
                c.job(concat!("rc/", stringify!($t)), stored::<$t, RcBuffer>(tier));
                c.job(concat!("arc/", stringify!($t)), stored::<$t, ArcBuffer>(tier));
                c.job(concat!("slice/", stringify!($t)), stored::<$t, SliceBuffer<'static>>(tier));
            };
        }
        s!(bool); s!(u16); s!(Option<bool>); s!(Option<u32>); s!([bool; 3]); s!(Option<[u8; 2]>); s!(Vec<bool>); s!(Option<Vec<Option<u16>>>);
        c.job("fixed/bool", stored::<bool, ArrayBuffer<4>>(tier));
        c.job("fixed/Option<bool>", stored::<Option<bool>, ArrayBuffer<4>>(tier));
        macro_rules! l {
            ($t:ty) => {
                c.job(concat!("row/", stringify!($t)), rows_of_lists::<$t>(tier));
                c.job(concat!("long-row/", stringify!($t)), long_row::<$t>(tier));
            };
        }
        l!(bool); l!(u16); l!(Option<bool>); l!(Option<u8>); l!([bool; 3]); l!(Vec<u8>); l!(Option<[u8; 2]>); l!(Option<Vec<bool>>);
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), wide::<$t, Arr<$t>>(tier));
            };
        }
        mc::shapes_wide!(wide);
        c.bound("lists and fixed-size rows over more than 2^32 elements, windows of up to 2^33 bits, in no memory or in memory that is hardly touched: announcements around 2^31, 2^32, 2^33 and the ends");
        c.job("vast/bits", mc::vast::bitmaps());
        c.job("vast/lists/i32", mc::vast::lists::<i32>());
        c.job("vast/lists/i64", mc::vast::lists::<i64>());
        c.job("vast/rows/1", mc::vast::rows::<1>());
        c.job("vast/rows/2", mc::vast::rows::<2>());
        c.job("vast/rows/3", mc::vast::rows::<3>());
        c.job("vast/rows/5", mc::vast::rows::<5>());
        c.job("bare", bare(tier));
        macro_rules! m {
            ($t:ty, $c:ty) => {
                c.job(concat!("plain/", stringify!($c)), composed::<$t, $c>(tier));
            };
        }
        mc::compositions!(m);
        macro_rules! k {
            ($t:ty) => {
                c.job(concat!("long/", stringify!($t)), long::<$t, Arr<$t>>(tier));
            };
        }
        k!(bool); k!(u32); k!(Option<bool>); k!(Option<u16>); k!([bool; 3]); k!(Option<[bool; 3]>); k!(Vec<bool>); k!(Option<Vec<u8>>);
    });
}
