//! C01: building an array from rows and reading it back returns exactly those rows.
use mc::engine::*;
use mc::items::*;
use mc::reads::*;
use narrow::array::Array;
use narrow::buffer::BoxBuffer;
use narrow::collection::{Collection, CollectionAlloc};
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};

/// Longest row list such that all lists over `k` symbols up to it number at most `budget`.
fn max_len(k: usize, budget: usize, cap: usize) -> usize {
    let (mut n, mut total, mut p) = (0, 1, 1);
    while n < cap {
        p *= k;
        if total + p > budget {
            break;
        }
        total += p;
        n += 1;
    }
    n
}

fn small<T: Item, C: Grow<T>>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    small_within::<T, C>(tier, tier.pick(700, 9000))
}

fn small_within<T: Item, C: Grow<T>>(tier: Tier, budget: usize) -> impl Fn(&mut Ctx) -> R {
    let rich = tier.thorough();
    let alpha = T::alphabet(rich);
    let len = max_len(alpha.len(), budget, 8);
    move |cx| {
        let n = cx.choose(len + 1);
        let rows: Vec<T> = (0..n).map(|_| cx.pick(&alpha).clone()).collect();
        let how = *cx.pick(HOWS);
        let model = vals(&rows);
        cx.note(|| format!("{how:?} of {model:?}"));
        cx.steps(1);
        cx.state(hash_of(&(&model, format!("{how:?}"))));
        cx.outcome(hash_of(&model));
        let c: C = build(how, rows)?;
        check_all(c, &model).ctx(|| format!("{how:?} of {model:?}"))
    }
}

/// Boundary lengths; all rows follow a pattern except one at every interesting position.
fn boundary<T: Item, C: Grow<T>>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let alpha = T::alphabet(true);
    let mut lens = BOUNDARY.to_vec();
    if tier.thorough() {
        lens.extend_from_slice(&[255, 256, 257, 511, 512, 513]);
        lens.extend_from_slice(CHUNK);
        lens.push(4097);
    } else {
        lens.extend_from_slice(&[1024, 1025, 2049]);
    }
    let hows = [
        How::Collect, How::FromIterIn, How::TryFromIterIn, How::Extend, How::TryExtend, How::OneByOne,
        How::Split(1), How::Split(13), How::TrySplit(7), How::CollectSplit(1023),
    ];
    move |cx| {
        let n = *cx.pick(&lens);
        let how = *cx.pick(&hows);
        let mut rows: Vec<T> = match cx.choose(3) {
            0 => (0..n).map(T::nth).collect(),
            p => {
                let (a, b) = (&alpha[p - 1], &alpha[p % alpha.len()]);
                let mut rows = vec![a.clone(); n];
                let pos: Vec<usize> = if n <= 33 {
                    (0..n).collect()
                } else {
                    let mut v: Vec<usize> = vec![0, 1, 7, 8, n / 2, n - 9, n - 8, n - 2, n - 1];
                    v.extend([1023, 1024, 2047].iter().filter(|&&x| x < n));
                    v
                };
                if !pos.is_empty() {
                    rows[*cx.pick(&pos)] = b.clone();
                }
                rows
            }
        };
        rows.truncate(n);
        let model = vals(&rows);
        cx.note(|| format!("{how:?} of {n} rows, hash {:x}", hash_of(&model)));
        cx.steps(1);
        cx.state(hash_of(&(&model, format!("{how:?}"))));
        let c: C = build(how, rows)?;
        check_all(c, &model).ctx(|| format!("{how:?} of {n} rows"))
    }
}

/// Rows that are long lists themselves.
fn long<T: Item, C: Grow<T>>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let ty = T::ty();
    let levels = list_levels(&ty);
    let next: &[usize] = if tier.thorough() { LONG } else { &[0, 1, 7, 64, 129, 1025] };
    move |cx| {
        let level = cx.choose(levels);
        let (n, k) = (*cx.pick(LONG), *cx.pick(next));
        let how = *cx.pick(HOWS);
        cx.note(|| format!("{how:?} of rows of {n} and {k} at level {level}"));
        cx.steps(1);
        let model = vec![sized_val(&ty, level, n, 1), sample_val(&ty, 4), sized_val(&ty, level, k, 9), sample_val(&ty, 3)];
        cx.state(hash_of(&(&model, format!("{how:?}"))));
        let c: C = build(how, items(&model))?;
        check_all(c, &model).ctx(|| format!("{how:?} of rows of {n} and {k} at level {level}"))
    }
}

/// Every way of exhausting an iterator, from every kind of position.
fn consume<T: Item, C: Collection<Owned = T> + FromIterator<T>>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let alpha = T::alphabet(tier.thorough());
    let len = max_len(alpha.len(), tier.pick(60, 400), 4);
    let lens: &[usize] = if tier.thorough() { &[5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 129, 1023, 1024, 1025, 2049] } else { &[5, 8, 9, 17, 65, 1025] };
    move |cx| {
        let rows: Vec<T> = if cx.flag() {
            let n = *cx.pick(lens);
            (0..n).map(T::nth).collect()
        } else {
            let n = cx.choose(len + 1);
            (0..n).map(|_| cx.pick(&alpha).clone()).collect()
        };
        let model = vals(&rows);
        let borrowed = cx.flag();
        let points = drain_points(model.len());
        let taken = *cx.pick(&points);
        let way = cx.choose(DRAINS.len());
        let what = || format!("{} rows, hash {:x}", model.len(), hash_of(&model));
        cx.note(|| format!("{}, borrowed {borrowed}: {} after {taken}", what(), DRAINS[way]));
        cx.steps(1);
        cx.state(hash_of(&(&model, borrowed, taken, way)));
        let c: C = no_panic("building", || rows.into_iter().collect())?;
        check_drained(c, &model, borrowed, taken, way).ctx(what)
    }
}

/// More rows than fit 12 or 16 bits.
fn huge<T: Item, C: Grow<T>>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let lens: &[usize] = if tier.thorough() { &[4095, 4096, 4097, 8193, 65535, 65536, 65537, 131_073] } else { &[4096, 4097, 65537] };
    let hows = [How::Collect, How::TryFromIterIn, How::Extend, How::TryExtend, How::Split(4099), How::TrySplit(1025), How::CollectSplit(2049)];
    move |cx| {
        let n = *cx.pick(lens);
        let how = *cx.pick(&hows);
        cx.note(|| format!("{how:?} of {n} rows"));
        cx.steps(1);
        let rows: Vec<T> = (0..n).map(T::nth).collect();
        let model = vals(&rows);
        cx.state(hash_of(&(&model, format!("{how:?}"))));
        let c: C = build(how, rows)?;
        check_all(c, &model).ctx(|| format!("{how:?} of {n} rows"))
    }
}

/// Storages that cannot grow.
fn fixed_storage<T: Item, C: Collection<Owned = T> + CollectionAlloc<Alloc = ()>>(
    tier: Tier,
) -> impl Fn(&mut Ctx) -> R {
    let alpha = T::alphabet(true);
    let len = max_len(alpha.len(), tier.pick(500, 5000), 6);
    move |cx| {
        let rows: Vec<T> = if cx.flag() {
            let n = *cx.pick(BOUNDARY);
            (0..n).map(T::nth).collect()
        } else {
            let n = cx.choose(len + 1);
            (0..n).map(|_| cx.pick(&alpha).clone()).collect()
        };
        let model = vals(&rows);
        let how = cx.choose(3);
        cx.note(|| format!("boxed, constructor {how}, {model:?}"));
        cx.steps(1);
        cx.state(hash_of(&(&model, how)));
        let c: C = no_panic("building", || match how {
            0 => Ok(rows.into_iter().collect()),
            1 => Ok(C::from_iter_in(rows, ())),
            _ => C::try_from_iter_in(rows, ()),
        })?
        .or_else(|_| violation("allocation error without cause"))?;
        check_all(c, &model)
    }
}

fn main() {
    mc::engine::main("C01", |tier, c| {
        c.bound("all row lists over the alphabet of each item type up to the length at which they number 700 (quick) or 9000 (thorough) per type, through 20 constructors");
        c.bound("boundary lengths 0..129 around multiples of 8 and 64, plus 1024, 1025, 2049 (thorough: all chunk boundaries to 4097), patterned and with one deviating row at every position near a boundary");
        c.bound("rows that are lists of 0 to 2049 elements around byte, word and chunk boundaries, at every level of nesting, through 20 constructors");
        c.bound("iteration, borrowed and consuming, exhausted in 10 ways (fold, for_each, count, last, collect, nth, skip, step_by, take, all) after 0, 1, 2, half, all but one and all rows were taken, over all row lists numbering up to 60 (thorough 400) per type and boundary lengths to 1025 (thorough 2049)");
        c.bound("4096, 4097 and 65537 rows (thorough 8 lengths to 131073) of every core shape through 7 constructors");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes): all row lists numbering up to 20 (thorough 200) per type, through 20 constructors");
        c.assume("item values outside the alphabet behave like those inside it (the code never inspects fixed-size values)");
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("small/", stringify!($t)), small::<$t, Arr<$t>>(tier));
                c.job(concat!("consume/", stringify!($t)), consume::<$t, Arr<$t>>(tier));
                c.job(concat!("boundary/", stringify!($t)), boundary::<$t, Arr<$t>>(tier));
            };
        }
        mc::shapes_flat!(j);
        macro_rules! k {
            ($t:ty) => {
                c.job(concat!("core-small/", stringify!($t)), small::<$t, Arr<$t>>(tier));
                c.job(concat!("core-consume/", stringify!($t)), consume::<$t, Arr<$t>>(tier));
                c.job(concat!("core-boundary/", stringify!($t)), boundary::<$t, Arr<$t>>(tier));
            };
        }
        macro_rules! h {
            ($t:ty) => {
                c.job(concat!("huge/", stringify!($t)), huge::<$t, Arr<$t>>(tier));
            };
        }
        mc::shapes_core!(h);
        macro_rules! r {
            ($t:ty) => {
                c.job(concat!("long/", stringify!($t)), long::<$t, Arr<$t>>(tier));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), small_within::<$t, Arr<$t>>(tier, tier.pick(20, 200)));
            };
        }
        mc::shapes_wide!(wide);
        mc::shapes_lists!(r);
        mc::shapes_core!(k);
        mc::shapes_deep!(k);
        macro_rules! l {
            ($n:literal, $t:ty, $c:ty) => {
                c.job(concat!("i64-small/", $n), small::<$t, $c>(tier));
                c.job(concat!("i64-consume/", $n), consume::<$t, $c>(tier));
                c.job(concat!("i64-boundary/", $n), boundary::<$t, $c>(tier));
                c.job(concat!("i64-long/", $n), long::<$t, $c>(tier));
            };
        }
        l!("Vec<u8>", Vec<u8>, VariableSizeList<u8, NonNullable, i64>);
        l!("Vec<Option<bool>>", Vec<Option<bool>>, VariableSizeList<Option<bool>, NonNullable, i64>);
        l!("Option<Vec<u16>>", Option<Vec<u16>>, VariableSizeList<u16, Nullable, i64>);
        macro_rules! m {
            ($t:ty, $c:ty) => {
                c.job(concat!("plain-small/", stringify!($c)), small::<$t, $c>(tier));
                c.job(concat!("plain-consume/", stringify!($c)), consume::<$t, $c>(tier));
                c.job(concat!("plain-boundary/", stringify!($c)), boundary::<$t, $c>(tier));
            };
        }
        mc::compositions!(m);
        macro_rules! b {
            ($t:ty) => {
                c.job(concat!("box/", stringify!($t)), fixed_storage::<$t, Array<$t, BoxBuffer>>(tier));
                c.job(concat!("box-consume/", stringify!($t)), consume::<$t, Array<$t, BoxBuffer>>(tier));
            };
        }
        b!(bool); b!(u8); b!(i64); b!(f64); b!([bool; 3]); b!([u16; 2]); b!([[bool; 2]; 3]);
    });
}
