//! C13: only the rows an iterator supplies matter, not how it reports or ends.
use mc::engine::*;
use mc::hist::*;
use mc::items::*;
use mc::iters::*;
use mc::reads::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::*;
use narrow::collection::{AllocError, Collection, CollectionAlloc, CollectionRealloc};
use narrow::collection::flatten::Flatten;
use narrow::offset::Offsets;
use narrow::validity::Validity;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Make {
    Collect,
    FromIterIn,
    TryFromIterIn,
}
const MAKES: [Make; 3] = [Make::Collect, Make::FromIterIn, Make::TryFromIterIn];

fn make<T, C: Collection<Owned = T> + CollectionAlloc<Alloc = ()>>(how: Make, src: Source<T>) -> R<C> {
    let r = match how {
        Make::Collect => catch(|| Ok(src.collect())),
        Make::FromIterIn => catch(|| Ok(C::from_iter_in(src, ()))),
        Make::TryFromIterIn => catch(|| C::try_from_iter_in(src, ())),
    };
    match r {
        Caught::Value(Ok(c)) => Ok(c),
        Caught::Value(Err(AllocError)) => fail!("allocation error without one"),
        Caught::Injected => fail!("injected panic out of place"),
        Caught::Panic(p) => fail!("panicked at {p}"),
    }
}
fn grow<T, C: CollectionRealloc<Owned = T>>(c: &mut C, fallible: bool, src: Source<T>) -> R {
    let r = catch(|| {
        if fallible {
            c.try_extend(src)
        } else {
            c.extend(src);
            Ok(())
        }
    });
    match r {
        Caught::Value(Ok(())) => Ok(()),
        Caught::Value(Err(AllocError)) => fail!("allocation error without one"),
        Caught::Injected => fail!("injected panic out of place"),
        Caught::Panic(p) => fail!("panicked at {p}"),
    }
}
fn rows<T: Item>(n: usize, from: usize) -> Vec<T> {
    (0..n).map(|k| T::from_val(&sample_val(&T::ty(), k + from))).collect()
}

fn lens(tier: Tier) -> &'static [usize] {
    if tier.thorough() { &[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 64, 65, 1023, 1024, 1025, 2048, 2051] } else { &[0, 1, 2, 7, 8, 9, 17, 1024] }
}
fn afters(tier: Tier) -> &'static [usize] {
    if tier.thorough() { &[0, 1, 2, 7, 8, 9, 1030] } else { &[0, 1, 9] }
}

fn built<T: Item + Send + Sync, C: Collection<Owned = T> + CollectionAlloc<Alloc = ()>>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    move |cx| {
        let n = *cx.pick(lens(tier));
        let hint = *cx.pick(HINTS);
        let again = *cx.pick(afters(tier));
        let how = *cx.pick(&MAKES);
        let what = || format!("{how:?} of {n} rows, hint {hint:?}, {again} more rows after the end");
        cx.note(what);
        cx.state(hash_of(&what()));
        cx.step();
        let r: Vec<T> = rows(n, 0);
        let model = vals(&r);
        let c: C = make(how, Source::new(r, hint).again(rows(again, 7000))).ctx(what)?;
        cx.outcome(hash_of(&model));
        check_all(c, &model).ctx(what)
    }
}

/// More rows than fit 12 or 16 bits, collected or appended.
fn huge<T: Item + Send + Sync, C: Column<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    of_lens::<T, C>(if tier.thorough() { &[4096, 4097, 65_535, 65_536, 65_537, 131_073] } else { &[4097, 65_537] })
}

fn of_lens<T: Item + Send + Sync, C: Column<T> + 'static>(lens: &'static [usize]) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    move |cx| {
        let n = *cx.pick(lens);
        let hint = *cx.pick(HINTS);
        let how = cx.choose(MAKES.len() + 2);
        let what = || {
            let how = if how < MAKES.len() { format!("{:?}", MAKES[how]) } else { format!("extension of 9 rows, fallible {}", how > MAKES.len()) };
            format!("{how} of {n} rows, hint {hint:?}, 9 more rows after the end")
        };
        cx.note(what);
        cx.state(hash_of(&what()));
        cx.step();
        let r: Vec<T> = rows(n, 0);
        let mut model = vals(&r);
        let source = Source::new(r, hint).again(rows(9, 7000));
        let c: C = if how < MAKES.len() {
            make(MAKES[how], source).ctx(what)?
        } else {
            let first: Vec<T> = rows(9, 300);
            let mut all = vals(&first);
            all.append(&mut model);
            model = all;
            let mut c: C = no_panic("building", || first.into_iter().collect())?;
            grow(&mut c, how > MAKES.len(), source).ctx(what)?;
            c
        };
        cx.outcome(hash_of(&model));
        check_all(c, &model).ctx(what)
    }
}

fn extended<T: Item + Send + Sync, C: Column<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let mut starts: Vec<Start<T>> = vec![Start::Default, Start::Cap(4)];
    for n in [0, 3, 8, 9] {
        let r: Vec<T> = rows(n, 300);
        starts.push(Start::Collected(r.clone()));
        for d in [dirts()[2], dirts()[7]] {
            let r = vals(&r);
            starts.push(Start::Raw(r.clone(), d, Phys::encode(&T::ty(), &r, &d)));
        }
    }
    move |cx| {
        let s = cx.pick(&starts).clone();
        let n = *cx.pick(lens(tier));
        let hint = *cx.pick(HINTS);
        let again = *cx.pick(afters(tier));
        let fallible = cx.flag();
        let what = || format!("{}, {} {n} rows, hint {hint:?}, {again} more rows after the end", show_start(&s), if fallible { "try_extend" } else { "extend" });
        cx.note(what);
        cx.state(hash_of(&what()));
        cx.step();
        let (mut c, mut m): (C, Vec<Val>) = start(&s)?;
        let r: Vec<T> = rows(n, 0);
        m.extend(vals(&r));
        grow(&mut c, fallible, Source::new(r, hint).again(rows(again, 7000))).ctx(what)?;
        check_reads(&c, &m).ctx(what)?;
        c.check_nulls().ctx(what)?;
        match no_panic("raw parts", || c.phys())?.decode(&C::col_ty(), true) {
            Ok(v) => ensure!(v == m, "{}: raw parts hold {v:?}, expected {m:?}", what()),
            Err(e) => fail!("{}: {e}", what()),
        }
        // and once more, with another kind of source
        let r: Vec<T> = rows(10, 500);
        m.extend(vals(&r));
        let hint = HINTS[(n + again) % HINTS.len()];
        let what = || format!("{}, then 10 rows, hint {hint:?}", what());
        grow(&mut c, !fallible, Source::new(r, hint).again(rows(3, 900))).ctx(what)?;
        cx.step();
        cx.outcome(hash_of(&m));
        check_all(c, &m).ctx(what)
    }
}

/// Collections below the arrays.
fn bare<T: Item + Send + Sync, C>(tier: Tier, all: bool) -> impl Fn(&mut Ctx) -> R + Send + Sync
where
    C: CollectionRealloc<Owned = T> + CollectionAlloc<Alloc = ()>,
{
    move |cx| {
        let n = *cx.pick(lens(tier));
        let m = *cx.pick(lens(tier));
        let hint = *cx.pick(HINTS);
        let hint2 = if all { *cx.pick(HINTS) } else { hint };
        let again = if all { *cx.pick(afters(tier)) } else { [0, 9][cx.choose(2)] };
        let how = *cx.pick(&MAKES);
        let fallible = cx.flag();
        let what = || format!("{how:?} of {n} rows ({hint:?}), then {} {m} rows ({hint2:?}), {again} more rows after the end", if fallible { "try_extend" } else { "extend" });
        cx.note(what);
        cx.state(hash_of(&what()));
        cx.steps(2);
        let r: Vec<T> = rows(n, 0);
        let mut model = vals(&r);
        let mut c: C = make(how, Source::new(r, hint).again(rows(again, 7000))).ctx(what)?;
        check_reads(&c, &model).ctx(what)?;
        let r: Vec<T> = rows(m, 4000);
        model.extend(vals(&r));
        grow(&mut c, fallible, Source::new(r, hint2).again(rows(again, 8000))).ctx(what)?;
        check_all(c, &model).ctx(what)
    }
}

fn main() {
    mc::engine::main("C13", |tier, c| {
        c.bound("8 kinds of truthful size hint (exact, absent, upper only, lower only, enormous, loose, different at every call, isize::MAX) x sources yielding 0, 1, 9 (thorough up to 1030) more rows after their end x 0 to 1024 (thorough 2051) rows x every constructor and extension from 14 starts");
        c.bound("the same hints over 4097 and 65 537 rows (thorough 6 lengths to 131 073) of every core shape, collected and appended");
        c.bound("the same hints over 0 to 9 (thorough 65) fixed-size rows of 31 to 1030 items (9 shapes)");
        c.assume("a size hint is truthful when the rows before the first end lie within it");
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("built/", stringify!($t)), built::<$t, Arr<$t>>(tier));
                c.job(concat!("extended/", stringify!($t)), extended::<$t, Arr<$t>>(tier));
            };
        }
        mc::shapes_core!(j);
        macro_rules! h {
            ($t:ty) => {
                c.job(concat!("huge/", stringify!($t)), huge::<$t, Arr<$t>>(tier));
            };
        }
        mc::shapes_core!(h);
        j!([[bool; 2]; 3]); j!(Vec<Vec<u8>>); j!(Vec<Option<[bool; 2]>>); j!([Option<Vec<bool>>; 3]); j!([Vec<u8>; 2]);
        j!(Option<[Vec<u8>; 2]>); j!(Option<[Option<[Option<bool>; 2]>; 3]>); j!(Option<Vec<Option<Vec<Option<u8>>>>>); j!(Vec<[bool; 3]>);
        macro_rules! l {
            ($n:literal, $t:ty, $c:ty) => {
                c.job(concat!("built/", $n), built::<$t, $c>(tier));
                c.job(concat!("extended/", $n), extended::<$t, $c>(tier));
            };
        }
        l!("i64/Vec<u8>", Vec<u8>, Large<u8>);
        l!("i64/Option<Vec<Option<bool>>>", Option<Vec<Option<bool>>>, LargeNull<Option<bool>>);
        macro_rules! b {
            ($t:ty) => {
                c.job(concat!("box/", stringify!($t)), built::<$t, Array<$t, BoxBuffer>>(tier));
            };
        }
        b!(bool); b!(u8); b!(i64); b!([bool; 3]); b!([u16; 2]);
        macro_rules! m {
            ($t:ty, $c:ty) => {
                c.job(concat!("plain/", stringify!($c)), bare::<$t, $c>(tier, false));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), of_lens::<$t, Arr<$t>>(tier.pick(&[0, 1, 9], &[0, 1, 2, 8, 9, 33, 65])));
            };
        }
        mc::shapes_wide!(wide);
        mc::compositions!(m);
        c.job("bare/Vec<u16>", bare::<u16, Vec<u16>>(tier, true));
        c.job("bare/Bitmap", bare::<bool, Bitmap>(tier, true));
        c.job("bare/Flatten<Vec<u8>,2>", bare::<[u8; 2], Flatten<Vec<u8>, 2>>(tier, true));
        c.job("bare/Flatten<Bitmap,3>", bare::<[bool; 3], Flatten<Bitmap, 3>>(tier, true));
        c.job("bare/Offsets<Vec<u8>>", bare::<Vec<u8>, Offsets<Vec<u8>>>(tier, true));
        c.job("bare/Offsets<Bitmap,i64>", bare::<Vec<bool>, Offsets<Bitmap, i64>>(tier, true));
        c.job("bare/Validity<Vec<u16>>", bare::<Option<u16>, Validity<Vec<u16>>>(tier, true));
        c.job("bare/Validity<Bitmap>", bare::<Option<bool>, Validity<Bitmap>>(tier, true));
        c.job("bare/Validity<Offsets<Vec<u8>>>", bare::<Option<Vec<u8>>, Validity<Offsets<Vec<u8>>>>(tier, true));
    });
}
