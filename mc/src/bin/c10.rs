//! C10: a panic in the middle of an extension leaves a usable array with its old rows.
use mc::engine::*;
use mc::ffi::*;
use mc::hist::*;
use mc::items::*;
use mc::iters::*;
use mc::reads::*;
use mc::track::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::{SliceBuffer, VecBuffer};
use narrow_ffi::{Export, Import};

type P<T> = Array<T, PanicBuffer>;

fn whole<T: Item, C: Column<T>>(c: &C, model: &[Val]) -> R {
    check_reads(c, model)?;
    c.check_nulls()?;
    let p = no_panic("raw parts", || c.phys())?;
    match p.decode(&C::col_ty(), false) {
        Ok(rows) => ensure!(rows == model, "raw parts hold {rows:?}, expected {model:?}"),
        Err(e) => fail!("raw parts {p:?}: {e}"),
    }
    Ok(())
}

/// Export is one of the read paths (an array at a bit offset is refused, which is C14's business).
fn out<T: Item, S: Home>(a: Array<T, S>, model: &[Val]) -> R
where
    Array<T, S>: Export,
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let (a, s) = match no_panic("export", || a.export())? {
        Ok(x) => x,
        Err(e) if format!("{e:?}").contains("NonZeroOffset") => return Ok(()),
        Err(e) => fail!("export failed: {e}"),
    };
    check_exported(&T::ty(), c_array(&a), c_schema(&s), model)?;
    match no_panic("import", || unsafe { <Array<T, SliceBuffer<'_>> as Import<'_>>::import(&a, &s) })? {
        Ok(i) => check_all(i, model),
        Err(e) => fail!("its own export is refused at import: {e}"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Row(usize),
    Hint(usize),
    /// The source panics when it is dropped.
    Drop,
    /// There never is a source.
    Begin,
    Storage(u64, bool),
    None,
}

/// Extends with a fault; tells how many rows were supplied at most.
fn strike<T: Item, C: Column<T>>(c: &mut C, batch: &[T], hint: Hint, fallible: bool, f: Fault) -> R<(bool, usize, u64)> {
    let src = Source::new(batch.to_vec(), hint);
    let src = match f {
        Fault::Row(k) => src.panic_at(k),
        Fault::Hint(k) => src.panic_hint_at(k),
        Fault::Drop => src.panic_on_drop(),
        _ => src,
    };
    let (at, after) = match f {
        Fault::Storage(k, a) => (Some(k), a),
        _ => (None, false),
    };
    let (r, n) = panicking(at, after, || {
        catch(|| {
            if f == Fault::Begin {
                let none = Unstartable(std::marker::PhantomData);
                if fallible {
                    c.try_extend(none).map_err(|_| ())
                } else {
                    c.extend(none);
                    Ok(())
                }
            } else if fallible {
                c.try_extend(src).map_err(|_| ())
            } else {
                c.extend(src);
                Ok(())
            }
        })
    });
    let supplied = match f {
        Fault::Row(k) => k.min(batch.len()),
        Fault::Begin => 0,
        _ => batch.len(),
    };
    match r {
        Caught::Value(Ok(())) => Ok((false, batch.len(), n)),
        Caught::Value(Err(())) => fail!("allocation error without one"),
        Caught::Injected => Ok((true, supplied, n)),
        Caught::Panic(p) => fail!("panicked by itself at {p}"),
    }
}

fn settle<T: Item, C: Column<T>>(c: &C, model: &mut Vec<Val>, batch: &[T], hit: bool, supplied: usize) -> R {
    let n = no_panic("len", || c.len())?;
    let old = model.len();
    if hit {
        ensure!(old <= n && n <= old + supplied, "{n} rows after the panic: {old} rows before, {supplied} supplied");
    } else {
        ensure!(n == old + batch.len(), "{n} rows, expected {}", old + batch.len());
    }
    model.extend(batch[..n - old].iter().map(T::val));
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Size {
    /// Few rows.
    Short,
    /// Many rows.
    Long,
    /// More rows than fit 16 bits.
    Huge,
    /// Few rows with many elements, in the lists of one level.
    Wide(usize),
    /// Few fixed-size rows of many items.
    Rows,
}

fn panics<T: Item + Send + Sync, C: Column<T> + 'static>(
    tier: Tier,
    storage: bool,
    size: Size,
    out: impl Fn(C, &[Val]) -> R + Send + Sync + 'static,
) -> impl Fn(&mut Ctx) -> R + Send + Sync + 'static {
    let ty = T::ty();
    let many = {
        let ty = ty.clone();
        move |n: usize, from: usize| -> Vec<T> { (0..n).map(|k| T::from_val(&sample_val(&ty, k + from))).collect() }
    };
    let huge = size == Size::Huge;
    let long = size == Size::Long || huge;
    let starts: Vec<Start<T>> = if let Size::Wide(_) | Size::Rows = size {
        let d = Dirt { extra: 2, fill: 0xFF, surplus: 5, implicit: true, junk: true, ..Dirt::default() };
        let rows: Vec<Val> = (0..if size == Size::Rows { 3 } else { 9 }).map(|k| sample_val(&ty, k + 3)).collect();
        vec![Start::Default, Start::Collected(many(if size == Size::Rows { 2 } else { 5 }, 0)), Start::Raw(rows.clone(), d, Phys::encode(&ty, &rows, &d))]
    } else if long {
        let d = Dirt { extra: 2, fill: 0xFF, surplus: 1, implicit: true, junk: true, ..Dirt::default() };
        let rows: Vec<Val> = (0..1020).map(|k| sample_val(&ty, k)).collect();
        vec![
            Start::Default,
            Start::Collected(many(5, 0)),
            Start::Raw(rows.clone(), d, Phys::encode(&ty, &rows, &d)),
        ]
    } else {
        starts::<T>(tier)
    };
    let a = T::alphabet(false);
    let lots: Vec<Vec<T>> = if size == Size::Rows {
        vec![many(3, 50)]
    } else if huge {
        vec![many(66_000, 3000)]
    } else if let Size::Wide(level) = size {
        let rows = |n: usize| items::<T>(&[sample_val(&ty, 3), sized_val(&ty, level, n, 1), sample_val(&ty, 4)]);
        tier.pick(vec![rows(1030)], vec![rows(66), rows(1030), rows(2070)])
    } else if long {
        if storage && !tier.thorough() { vec![many(1100, 3000)] } else { vec![many(1100, 3000), many(2060, 4000)] }
    } else {
        let mut v = vec![
            vec![a[0].clone(), a[1 % a.len()].clone(), a[a.len() - 1].clone()],
            many(9, 50),
        ];
        if tier.thorough() {
            v.push(many(18, 90));
            v.push(vec![a[0].clone()]);
        }
        v
    };
    let ks: &'static [usize] = if huge { tier.pick(&[4097, 65_535, 65_537, 66_000], &[0, 4095, 4096, 4097, 65_534, 65_535, 65_536, 65_537, 65_999, 66_000]) } else { &[0, 1, 7, 8, 9, 1019, 1023, 1024, 1025, 1031, 2047, 2048, 2050] };
    let hints = [Hint::Exact, Hint::Unknown, Hint::Loose];
    let nh = if huge || size == Size::Rows { 1 } else if storage { tier.pick(1, 2) } else if long { 2 } else { tier.pick(2, 3) };
    let after: Vec<Op<T>> = vec![
        Op::Extend(many(if size == Size::Rows { 2 } else { 10 }, 141)),
        Op::Truncate(Cut::Off(1)),
        Op::Rewrap,
        Op::TryExtend(many(3, 151)),
        Op::TryReserve(3),
        Op::Truncate(Cut::Huge),
    ];
    let fault = move |cx: &mut Ctx, c: &dyn Fn() -> R<C>, b: &[T], hint: Hint, fallible: bool, extra: bool| -> R<Fault> {
        if storage {
            let mut probe = c()?;
            let (_, _, n) = strike(&mut probe, b, hint, fallible, Fault::None)?;
            if n == 0 {
                return Ok(Fault::None);
            }
            // elements may be storage operations of their own
            let all: Vec<u64> = if n > 120 {
                let near = |m: u64| m.saturating_sub(3)..m + 4;
                let mut v: Vec<u64> = (0..20).chain(n - 20..n).chain(near(n / 2)).chain(near(1024)).filter(|k| *k < n).collect();
                v.sort_unstable();
                v.dedup();
                v
            } else {
                (0..n).collect()
            };
            Ok(Fault::Storage(*cx.pick(&all), cx.flag()))
        } else if long {
            let k = cx.choose(ks.len() + 1);
            Ok(if k == ks.len() { Fault::Drop } else { Fault::Row(ks[k]) })
        } else {
            let hs = if extra { 6 } else { 0 };
            let k = cx.choose(b.len() + 1 + hs);
            Ok(match k.checked_sub(b.len() + 1) {
                None => Fault::Row(k),
                Some(0) => Fault::Drop,
                Some(1) => Fault::Begin,
                Some(h) => Fault::Hint(h - 2),
            })
        }
    };
    move |cx| {
        let s = cx.pick(&starts).clone();
        let b = cx.pick(&lots).clone();
        let hint = hints[cx.choose(nh)];
        let fallible = cx.flag();
        let fresh = || -> R<C> { Ok(start::<T, C>(&s)?.0) };
        let f = fault(cx, &fresh, &b, hint, fallible, true)?;
        let name = if fallible { "try_extend" } else { "extend" };
        let show_s: String = if cx.tracing() { show_start(&s) } else { show_start(&s).chars().take(200).collect() };
        let what = || {
            format!("{show_s}, {name} {} rows {:?} (hint {hint:?}) with a panic at {f:?}", b.len(), vals(&b[..b.len().min(9)]))
        };
        cx.note(what);
        let (mut c, mut m): (C, Vec<Val>) = start(&s)?;
        let (hit, supplied, _) = strike(&mut c, &b, hint, fallible, f).ctx(what)?;
        cx.step();
        settle(&c, &mut m, &b, hit, supplied).ctx(what)?;
        whole::<T, C>(&c, &m).ctx(what)?;
        cx.outcome(hash_of(&(hit, &m)));
        // Then anything may be done with it.
        let then = if huge { [0, 1, 6][cx.choose(3)] } else { cx.choose(after.len() + 3) };
        cx.state(hash_of(&(what(), then)));
        if then < after.len() {
            let op = &after[then];
            let what = || format!("{}, caught, then {}", what(), show(op));
            cx.note(what);
            c = apply(c, &mut m, op).ctx(what)?;
            cx.step();
            whole::<T, C>(&c, &m).ctx(what)?;
            // The whole way out, too.
            return match then {
                0 => out(c, &m).ctx(what),
                1 => check_into(c, &m).ctx(what),
                _ => {
                    c = apply(c, &mut m, &after[0]).ctx(what)?;
                    whole::<T, C>(&c, &m).ctx(|| format!("{}, then {}", what(), show(&after[0])))
                }
            };
        }
        match then - after.len() {
            0 => check_into(c, &m).ctx(what),
            1 => out(c, &m).ctx(what),
            _ => {
                // A second panic, then another extension.
                let b2 = lots[0].clone();
                let k2 = if storage { Fault::Storage(cx.choose(3) as u64, cx.flag()) } else { Fault::Row(cx.choose(3)) };
                let f2 = cx.flag();
                let what = || format!("{}, caught, then again ({}) {k2:?}", what(), if f2 { "try_extend" } else { "extend" });
                cx.note(what);
                let (hit, sup, _) = strike(&mut c, &b2, Hint::Exact, f2, k2).ctx(what)?;
                settle(&c, &mut m, &b2, hit, sup).ctx(what)?;
                whole::<T, C>(&c, &m).ctx(what)?;
                c = apply(c, &mut m, &after[0]).ctx(what)?;
                cx.steps(2);
                whole::<T, C>(&c, &m).ctx(|| format!("{}, then {}", what(), show(&after[0])))?;
                check_into(c, &m).ctx(what)
            }
        }
    }
}

fn main() {
    mc::engine::main("C10", |tier, c| {
        c.bound("every start state of the history checks (rows up to 9, thorough 17; dirty raw parts, bit offsets) x batches of 3, 9 (thorough 1, 18) rows x a panic of the source at every row, at its end, at each of its first 4 size questions, when it is made and when it is dropped, under extend and try_extend");
        c.bound("the same with every storage operation of an extension panicking, before or after it took effect (in the quick tier under an exact hint, and long batches of 1100 rows only)");
        c.bound("batches of 1100 and 2060 rows, panics around every byte and 1024-row chunk boundary; rows that are lists of 1030 (thorough 66, 1030, 2070) elements at every level of nesting, with a panic of the source at every row and of the storage at every operation (where there are more than 120: the first and last 20, and those in the middle and around the 1024th)");
        c.bound("batches of 66 000 rows, panics around the 4096th and 65 536th row (3 continuations)");
        c.bound("after the panic: every read path, raw parts, null queries, then one of 9 continuations (extension, truncation, reservation, rewrapping, consuming iteration, export and import, a second panic)");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes): batches of 3 rows from 3 starts, panics of the source at every row and of the storage at every (or 60 positioned) operations");
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("source/", stringify!($t)), panics::<$t, Arr<$t>>(tier, false, Size::Short, out::<$t, VecBuffer>));
                c.job(concat!("storage/", stringify!($t)), panics::<$t, P<$t>>(tier, true, Size::Short, out::<$t, PanicBuffer>));
                c.job(concat!("chunk/", stringify!($t)), panics::<$t, Arr<$t>>(tier, false, Size::Long, out::<$t, VecBuffer>));
                c.job(concat!("chunk-storage/", stringify!($t)), panics::<$t, P<$t>>(tier, true, Size::Long, out::<$t, PanicBuffer>));
                c.job(concat!("huge/", stringify!($t)), panics::<$t, Arr<$t>>(tier, false, Size::Huge, out::<$t, VecBuffer>));
            };
        }
        j!(bool); j!(u32); j!(Option<bool>); j!(Option<u16>); j!([bool; 3]); j!([u16; 2]); j!([Option<bool>; 3]);
        j!(Option<[bool; 3]>); j!(Option<[u8; 2]>); j!(Option<[Option<bool>; 3]>);
        macro_rules! k {
            ($t:ty) => {
                c.job(concat!("source/", stringify!($t)), panics::<$t, Arr<$t>>(tier, false, Size::Short, out::<$t, VecBuffer>));
                c.job(concat!("storage/", stringify!($t)), panics::<$t, P<$t>>(tier, true, Size::Short, out::<$t, PanicBuffer>));
            };
        }
        k!(Vec<bool>); k!(Vec<u16>); k!(Vec<Option<bool>>); k!(Option<Vec<bool>>); k!(Option<Vec<Option<u8>>>);
        k!([[bool; 3]; 2]); k!([Vec<u8>; 2]); k!([Option<Vec<bool>>; 3]); k!([Option<[Option<bool>; 2]>; 3]);
        k!(Vec<[bool; 3]>); k!(Vec<Option<[bool; 2]>>); k!(Vec<Vec<u8>>); k!(Vec<Option<Vec<u8>>>);
        k!(Option<[Vec<u8>; 2]>); k!(Option<[[bool; 3]; 2]>); k!(Option<[Option<[Option<bool>; 2]>; 3]>); k!(Option<Vec<[Option<bool>; 3]>>);
        macro_rules! w {
            ($t:ty) => {
                for level in 0..list_levels(&<$t as Item>::ty()) {
                    c.job(format!("wide/{level}/{}", stringify!($t)), panics::<$t, P<$t>>(tier, true, Size::Wide(level), out::<$t, PanicBuffer>));
                    c.job(format!("wide-source/{level}/{}", stringify!($t)), panics::<$t, Arr<$t>>(tier, false, Size::Wide(level), out::<$t, VecBuffer>));
                }
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide-rows/", stringify!($t)), panics::<$t, Arr<$t>>(tier, false, Size::Rows, out::<$t, VecBuffer>));
                c.job(concat!("wide-rows-storage/", stringify!($t)), panics::<$t, P<$t>>(tier, true, Size::Rows, out::<$t, PanicBuffer>));
            };
        }
        mc::shapes_wide!(wide);
        mc::shapes_lists!(w);
        c.job("source/u128", panics::<u128, Arr<u128>>(tier, false, Size::Short, check_into));
        c.job("source/i64/Vec<Option<bool>>", panics::<Vec<Option<bool>>, Large<Option<bool>>>(tier, false, Size::Short, check_into));
        c.job("source/i64/Option<Vec<[bool;3]>>", panics::<Option<Vec<[bool; 3]>>, LargeNull<[bool; 3]>>(tier, false, Size::Short, check_into));
    });
}
