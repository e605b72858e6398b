//! C19: no allocation until reserved room is used up.
use mc::alloc::counted;
use mc::engine::*;
use mc::hist::*;
use mc::items::*;
use mc::iters::*;
use mc::pledge::*;
use mc::track::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::bitmap::ValidityBitmap;
use narrow::buffer::{BufferRef, VecBuffer};
use narrow::collection::{AllocError, ChildRef, CollectionAlloc};
use narrow::fixed_size::FixedSize;
use std::sync::OnceLock;

/// How much every buffer can hold.
#[derive(Default)]
struct Caps(Vec<usize>);
impl Visit<VecBuffer> for Caps {
    fn buffer<T: FixedSize>(&mut self, b: &Vec<T>, _: Role) {
        self.0.push(b.capacity());
    }
}
impl Visit<PanicBuffer> for Caps {
    fn buffer<T: FixedSize>(&mut self, b: &TrackVec<T, ()>, _: Role) {
        self.0.push(b.capacity());
    }
}
trait Room {
    fn caps(&self) -> Vec<usize>;
}
impl<T: Item> Room for Array<T, VecBuffer> {
    fn caps(&self) -> Vec<usize> {
        let mut c = Caps::default();
        T::visit::<VecBuffer, _>(self.buffer_ref(), &mut c);
        c.0
    }
}
impl<T: Item> Room for Array<T, PanicBuffer> {
    fn caps(&self) -> Vec<usize> {
        let mut c = Caps::default();
        T::visit::<PanicBuffer, _>(self.buffer_ref(), &mut c);
        c.0
    }
}
impl<T: Item> Room for Large<T> {
    fn caps(&self) -> Vec<usize> {
        let mut c = Caps::default();
        visit_offsets::<T, i64, VecBuffer, _>(self.buffer_ref(), &mut c);
        c.0
    }
}
impl<T: Item> Room for LargeNull<T> {
    fn caps(&self) -> Vec<usize> {
        let mut c = Caps::default();
        let v = self.buffer_ref();
        if let Some(b) = v.bitmap_ref() {
            Visit::<VecBuffer>::buffer::<u8>(&mut c, b.buffer_ref(), Role::Validity);
        }
        visit_offsets::<T, i64, VecBuffer, _>(v.child_ref(), &mut c);
        c.0
    }
}

/// Where the elements of lists go.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Spread {
    OneEach,
    First,
    Last,
    Pairs,
    None,
}
const SPREADS: &[Spread] = &[Spread::OneEach, Spread::First, Spread::Last, Spread::Pairs, Spread::None];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Nulls {
    Never,
    Always,
    Odd,
}
const NULLS: &[Nulls] = &[Nulls::Never, Nulls::Always, Nulls::Odd];

/// `n` rows that use up exactly what room for `n` rows is for: lists of one level hold at most as
/// many elements as there are rows.
fn filling(ty: &Ty, n: usize, s: Spread, nulls: Nulls) -> Vec<Val> {
    let base = ty.base();
    let null = |i: usize| {
        ty.nullable()
            && match nulls {
                Nulls::Never => false,
                Nulls::Always => true,
                Nulls::Odd => i % 2 == 1,
            }
    };
    let mut v: Vec<Val> = match base {
        Ty::Fixed(w, c) => {
            let items = filling(c, n * w, s, nulls);
            items.chunks(*w).map(|c| Val::List(c.to_vec())).collect()
        }
        Ty::List(_, c) => {
            let items = filling(c, n, s, nulls);
            let mut it = items.into_iter();
            let live: Vec<usize> = (0..n).filter(|&i| !null(i)).collect();
            let many = |i: usize| match s {
                Spread::OneEach => 1,
                Spread::First => if live.first() == Some(&i) { n } else { 0 },
                Spread::Last => if live.last() == Some(&i) { n } else { 0 },
                Spread::Pairs => if i % 2 == 0 { 2 } else { 0 },
                Spread::None => 0,
            };
            (0..n).map(|i| if null(i) { Val::Null } else { Val::List(it.by_ref().take(many(i)).collect()) }).collect()
        }
        b => (0..n).map(|k| sample_val(b, k + 13)).collect(),
    };
    for (i, x) in v.iter_mut().enumerate() {
        if null(i) {
            *x = Val::Null;
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Split {
    Whole,
    Single,
    Halves,
    /// All but one, one by one at the end; and nothing in between.
    Gaps,
}
const SPLITS: &[Split] = &[Split::Whole, Split::Single, Split::Halves, Split::Gaps];
fn cut(n: usize, s: Split) -> Vec<usize> {
    match s {
        Split::Whole => vec![n],
        Split::Single => vec![1; n],
        Split::Halves => vec![n / 2, n - n / 2],
        Split::Gaps => vec![0, n.saturating_sub(1), 0, n.min(1)],
    }
}

/// Adds the rows in parts; nothing may be allocated.
fn add<T: Item, C: Column<T>>(c: &mut C, rows: &[T], split: Split, fallible: bool, hint: Hint) -> R {
    let mut it = rows.iter();
    for (i, k) in cut(rows.len(), split).into_iter().enumerate() {
        let part: Vec<T> = it.by_ref().take(k).cloned().collect();
        let source = Source::new(part, hint);
        let (r, n) = counted(None, false, || {
            no_panic("adding", || {
                if fallible {
                    c.try_extend(source)
                } else {
                    c.extend(source);
                    Ok(())
                }
            })
        });
        if r?.is_err() {
            fail!("part {i} ({k} rows): allocation error");
        }
        ensure!(n.allocations == 0, "part {i} ({k} rows): {} allocations of {} bytes", n.allocations, n.bytes);
    }
    Ok(())
}
fn decoded<T: Item, C: Column<T>>(c: &C, model: &[Val]) -> R {
    match no_panic("raw parts", || c.phys())?.decode(&C::col_ty(), true) {
        Ok(r) => ensure!(r == model, "holds {r:?}, expected {model:?}"),
        Err(e) => fail!("raw parts: {e}"),
    }
    Ok(())
}
fn reserve<T: Item, C: Column<T>>(c: &mut C, n: usize, fallible: bool) -> R {
    if fallible {
        if no_panic("try_reserve", || c.try_reserve(n))?.is_err() {
            fail!("try_reserve {n}: allocation error");
        }
        Ok(())
    } else {
        no_panic("reserve", || c.reserve(n))
    }
}
/// Reserving what is there needs nothing, not even a working allocator.
fn again<T: Item, C: Column<T>>(c: &mut C, n: usize) -> R {
    for m in [n, n / 2, 0] {
        for fallible in [true, false] {
            let (r, k) = counted(None, false, || reserve(c, m, fallible));
            r?;
            ensure!(k.allocations == 0, "reserving {m} of the {n} rows there is room for allocated {} bytes", k.bytes);
        }
        let (r, _) = counted(Some(0), true, || no_panic("try_reserve", || c.try_reserve(m)));
        ensure!(r? == Ok::<(), AllocError>(()), "try_reserve {m} failed, with room for {n} rows");
    }
    Ok(())
}

/// The ways to add that are tried for a type.
fn ways<T: Item>(n: usize) -> Vec<(Vec<T>, String)> {
    let ty = T::ty();
    let mut seen: Vec<Vec<Val>> = vec![];
    let mut out = vec![];
    for &s in SPREADS {
        for &k in NULLS {
            let v = filling(&ty, n, s, k);
            if !seen.contains(&v) {
                out.push((items::<T>(&v), format!("{s:?}, nulls {k:?}")));
                seen.push(v);
            }
        }
    }
    out
}

fn reserved<T: Item + Send + Sync, C: Column<T> + Room + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    // made when the job runs
    let tables = OnceLock::new();
    let depth = tier.pick(1, 2);
    let ns: &[usize] = if tier.thorough() { &[0, 1, 2, 3, 7, 8, 9, 16, 17, 33, 65, 130] } else if T::ty().child().is_some_and(|c| c.child().is_some()) {
        &[0, 1, 2, 9, 17]
    } else {
        &[0, 1, 2, 7, 9, 17, 65]
    };
    move |cx| {
        let (starts, prior, ways) = tables.get_or_init(|| {
            let mut prior: Vec<Op<T>> = ops::<T>(Tier::Quick);
            if !tier.thorough() {
                prior.retain(|o| !matches!(o, Op::TryExtend(_) | Op::Truncate(Cut::Huge)));
            }
            (starts::<T>(tier), prior, ns.iter().map(|&n| ways::<T>(n)).collect::<Vec<_>>())
        });
        let s = cx.pick(starts).clone();
        cx.note(|| show_start(&s));
        let (mut c, mut model): (C, Vec<Val>) = start(&s)?;
        let mut path = vec![show_start(&s)];
        for _ in 0..cx.choose(depth + 1) {
            let op = cx.pick(prior);
            path.push(show(op));
            cx.note(|| show(op));
            c = apply(c, &mut model, op).ctx(|| path.join(", "))?;
            cx.step();
        }
        cx.merge(hash_of(&(c.phys(), &model, c.caps())), 0)?;
        let k = cx.choose(ns.len());
        let n = ns[k];
        let fallible = cx.flag();
        let before = c.phys();
        path.push(format!("{} {n}", if fallible { "try_reserve" } else { "reserve" }));
        reserve(&mut c, n, fallible).ctx(|| path.join(", "))?;
        cx.step();
        decoded(&c, &model).ctx(|| path.join(", "))?;
        let _ = before;
        again(&mut c, n).ctx(|| path.join(", "))?;
        decoded(&c, &model).ctx(|| path.join(", "))?;
        let w = cx.choose(ways[k].len());
        let (rows, what) = &ways[k][w];
        let split = *cx.pick(SPLITS);
        let fallible = cx.flag();
        // every kind of truthful source once; the split decides which
        let hint = HINTS[(k + w + SPLITS.iter().position(|s| *s == split).unwrap() * 3) % HINTS.len()];
        path.push(format!("{} {n} rows, {what}, {split:?}, hint {hint:?}", if fallible { "try_extend" } else { "extend" }));
        cx.note(|| path.join(", "));
        add(&mut c, rows, split, fallible, hint).ctx(|| path.join(", "))?;
        model.extend(vals(rows));
        cx.steps(2);
        cx.outcome(hash_of(&model));
        decoded(&c, &model).ctx(|| path.join(", "))
    }
}

fn with_capacity<T: Item + Send + Sync, C: Column<T> + Room + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(34, 131);
    let long = [1023, 1024, 1025, 2050];
    let tables = OnceLock::new();
    move |cx| {
        let (short_ways, long_ways) = tables.get_or_init(|| {
            let all = |ns: Vec<usize>| ns.into_iter().map(|n| ways::<T>(n)).collect::<Vec<_>>();
            (all((0..=max).collect()), all(long.to_vec()))
        });
        let how = cx.choose(3);
        let k = cx.choose(max + 1 + long.len());
        let (n, ways) = if k <= max { (k, &short_ways[k]) } else { (long[k - max - 1], &long_ways[k - max - 1]) };
        let (rows, what) = cx.pick(ways);
        // fewer rows than there is room for
        let used = match cx.choose(3) {
            0 => n,
            1 => n / 2,
            _ => n.saturating_sub(1),
        };
        let rows = &rows[..used];
        let split = *cx.pick(SPLITS);
        let fallible = cx.flag();
        let hint = HINTS[(n + used + SPLITS.iter().position(|s| *s == split).unwrap() * 3) % HINTS.len()];
        let say = || {
            let how = ["with_capacity", "with_capacity_in", "try_with_capacity_in"][how];
            format!("{how} {n}, {} {used} rows, {what}, {split:?}, hint {hint:?}", if fallible { "try_extend" } else { "extend" })
        };
        cx.note(say);
        cx.state(hash_of(&say()));
        cx.steps(2);
        let made = no_panic("with_capacity", || match how {
            0 => Ok(<C as CollectionAlloc>::with_capacity(n)),
            1 => Ok(C::with_capacity_in(n, ())),
            _ => C::try_with_capacity_in(n, ()),
        })
        .ctx(say)?;
        let Ok(mut c) = made else { fail!("{}: allocation error", say()) };
        if n <= max {
            again(&mut c, n).ctx(say)?;
        }
        add(&mut c, rows, split, fallible, hint).ctx(say)?;
        let model = vals(rows);
        cx.outcome(hash_of(&model));
        decoded(&c, &model).ctx(say)
    }
}

/// Room for more rows than fit 12 or 16 bits.
fn huge<T: Item + Send + Sync, C: Column<T> + Room + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    rooms::<T, C>(if tier.thorough() { &[4096, 4097, 65_535, 65_536, 65_537, 131_073] } else { &[4097, 65_537] })
}

fn rooms<T: Item + Send + Sync, C: Column<T> + Room + 'static>(ns: &'static [usize]) -> impl Fn(&mut Ctx) -> R {
    let tables = OnceLock::new();
    move |cx| {
        let ways = tables.get_or_init(|| ns.iter().map(|&n| ways::<T>(n)).collect::<Vec<_>>());
        let k = cx.choose(ns.len());
        let n = ns[k];
        let from = cx.choose(4);
        let fallible = cx.flag();
        let (rows, what) = cx.pick(&ways[k]);
        let split = [Split::Whole, Split::Halves, Split::Gaps][cx.choose(3)];
        let hint = HINTS[(from + n + split as usize * 3) % HINTS.len()];
        let say = || {
            let from = ["capacity", "default", "3 rows", "raw parts of 9 rows"][from];
            format!("from {from}: room for {n}, then {n} rows, {what}, {split:?}, hint {hint:?}, fallible {fallible}")
        };
        cx.note(say);
        cx.state(hash_of(&say()));
        cx.steps(2);
        let ty = T::ty();
        let d = dirts()[7];
        let first: Vec<Val> = (0..9).map(|k| sample_val(&ty, k + 3)).collect();
        let (mut c, mut model): (C, Vec<Val>) = match from {
            0 if fallible => match no_panic("try_with_capacity_in", || C::try_with_capacity_in(n, ()))? {
                Ok(c) => (c, vec![]),
                Err(_) => fail!("{}: allocation error", say()),
            },
            0 => (no_panic("with_capacity", || <C as CollectionAlloc>::with_capacity(n))?, vec![]),
            1 => start(&Start::Default)?,
            2 => start(&Start::Collected(items(&first[..3])))?,
            _ => start(&Start::Raw(first.clone(), d, Phys::encode(&ty, &first, &d)))?,
        };
        if from > 0 {
            reserve(&mut c, n, fallible).ctx(say)?;
        }
        again(&mut c, n).ctx(say)?;
        add(&mut c, rows, split, !fallible, hint).ctx(say)?;
        model.extend(vals(rows));
        cx.outcome(hash_of(&model));
        decoded(&c, &model).ctx(say)
    }
}

/// Every alignment of the bits there are and of the bits added.
fn aligned<T: Item + Send + Sync, C: Column<T> + Room + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let ty = T::ty();
    let max_len = tier.pick(17, 26);
    let max_add = tier.pick(24, 72);
    let kinds: Vec<Nulls> = if ty.nullable() { NULLS.to_vec() } else { vec![Nulls::Never] };
    move |cx| {
        let n = cx.choose(max_len + 1);
        let off = cx.choose(9);
        let extra = cx.choose(2);
        let implicit = cx.flag();
        let nulls = if implicit { Nulls::Never } else { kinds[cx.choose(kinds.len())] };
        let rows = filling(&ty, n, Spread::OneEach, nulls);
        let d = Dirt { off_valid: off, off_bool: (off * 3) % 11, extra, fill: 0xFF, surplus: 0, implicit, junk: true };
        let m = cx.choose(max_add + 1);
        let fallible = cx.flag();
        let single = cx.flag();
        let say = || format!("{n} rows ({nulls:?} null) with {d:?}, reserve {m}, add {m} rows, fallible {fallible}, singly {single}");
        cx.note(say);
        cx.state(hash_of(&say()));
        cx.steps(3);
        let (mut c, mut model): (C, Vec<Val>) = start(&Start::Raw(rows.clone(), d, Phys::encode(&ty, &rows, &d)))?;
        reserve(&mut c, m, fallible).ctx(say)?;
        again(&mut c, m).ctx(say)?;
        let more = filling(&ty, m, Spread::OneEach, if m % 2 == 0 { Nulls::Odd } else { Nulls::Never });
        add(&mut c, &items::<T>(&more), if single { Split::Single } else { Split::Whole }, fallible ^ single, Hint::Exact).ctx(say)?;
        model.extend(more);
        cx.outcome(hash_of(&model));
        decoded(&c, &model).ctx(say)
    }
}

fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch(f) {
        Caught::Value(v) => Ok(v),
        Caught::Injected => unreachable!("engine: nothing is injected here"),
        Caught::Panic(p) => Err(p),
    }
}
/// What every buffer promises: how many items are there, and for how many there is room.
#[derive(Default)]
struct Pledges(Vec<(Role, u128, u128)>);
impl Visit<PledgeBuffer> for Pledges {
    fn buffer<T: FixedSize>(&mut self, b: &PledgeVec<T>, role: Role) {
        self.0.push((role, narrow::length::Length::len(b) as u128, b.room()));
    }
}
trait Promises {
    fn promises(&self) -> Vec<(Role, u128, u128)>;
}
impl<T: Item> Promises for Array<T, PledgeBuffer> {
    fn promises(&self) -> Vec<(Role, u128, u128)> {
        let mut p = Pledges::default();
        T::visit::<PledgeBuffer, _>(self.buffer_ref(), &mut p);
        p.0
    }
}
/// What every buffer has to have room for, in the order the buffers are visited in, when `n` rows
/// are added that hold one element per list.
#[derive(Clone, Copy, Debug)]
enum Need {
    Items(u128),
    Bits(u128),
}
fn needs(ty: &Ty, n: u128, out: &mut Vec<Need>) {
    match ty {
        Ty::Nullable(t) => {
            out.push(Need::Bits(n));
            needs(t, n, out);
        }
        Ty::Bool => out.push(Need::Bits(n)),
        Ty::Prim(..) => out.push(Need::Items(n)),
        Ty::Fixed(w, c) => needs(c, n.saturating_mul(*w as u128), out),
        Ty::List(_, c) => {
            out.push(Need::Items(n));
            needs(c, n, out);
        }
    }
}
/// How many items one row stands for at the deepest level.
fn per_row(ty: &Ty) -> u128 {
    match ty {
        Ty::Nullable(t) => per_row(t),
        Ty::Fixed(w, c) => *w as u128 * per_row(c),
        Ty::List(_, c) => per_row(c),
        _ => 1,
    }
}
/// Numbers of rows around every power of two, and around where the number of items behind them
/// no longer fits.
fn magnitudes(ty: &Ty) -> Vec<usize> {
    let mut ns = vec![];
    let mut near = |x: u128| {
        for y in [x.saturating_sub(1), x, x + 1, x + 2] {
            if let Ok(y) = usize::try_from(y) {
                if y >= 1 << 30 {
                    ns.push(y);
                }
            }
        }
    };
    let mut by = vec![1, 8, per_row(ty), 8 * per_row(ty)];
    let mut t = ty;
    while let Some(c) = t.child() {
        by.push(per_row(c));
        if let Ty::Fixed(w, _) = t.base() {
            by.push(*w as u128);
        }
        t = c;
    }
    for k in 31..=64 {
        for b in &by {
            near((1 << k) / b);
        }
    }
    for b in &by {
        for q in 1..=*b.min(&16) {
            near(q * (1 << 64) / b);
        }
    }
    ns.sort_unstable();
    ns.dedup();
    ns
}
/// Reservations of every magnitude are granted in full or refused.
fn pledged<T: Item + Send + Sync, C: Column<T> + Promises>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let tables = OnceLock::new();
    move |cx| {
        let (starts, ns) = tables.get_or_init(|| (starts::<T>(tier), magnitudes(&T::ty())));
        let ty = T::ty();
        let way = cx.choose(5);
        let fallible = way == 1 || way == 3;
        let n = *cx.pick(ns);
        let mut needed = vec![];
        needs(&ty, n as u128, &mut needed);
        let s = if way < 3 { None } else { Some(cx.pick(starts)) };
        let say = || {
            let way = ["with_capacity_in", "try_with_capacity_in", "with_capacity", "try_reserve", "reserve"][way];
            format!("{way} {n}{}", s.map_or(String::new(), |s| format!(", from {}", show_start(s))))
        };
        cx.note(say);
        cx.state(hash_of(&say()));
        cx.steps(2);
        // a request for more than any storage holds may be refused
        let may_refuse = needed.iter().any(|x| matches!(x, Need::Items(m) | Need::Bits(m) if *m >= 1 << 48));
        let (made, mut model) = match s {
            None => {
                let made = attempt(|| match way {
                    0 => Ok(C::with_capacity_in(n, ())),
                    1 => C::try_with_capacity_in(n, ()),
                    _ => Ok(<C as CollectionAlloc>::with_capacity(n)),
                });
                (made, vec![])
            }
            Some(s) => {
                let (mut c, model): (C, Vec<Val>) = start(s)?;
                let r = attempt(|| if fallible { c.try_reserve(n) } else { c.reserve(n); Ok(()) });
                decoded(&c, &model).ctx(say)?;
                (r.map(|r| r.map(|()| c)), model)
            }
        };
        let mut c = match made {
            Err(p) => {
                ensure!(!fallible, "{}: panics: {p}", say());
                ensure!(may_refuse, "{}: panics although the storage has room: {p}", say());
                cx.outcome(1);
                return Ok(());
            }
            Ok(Err(AllocError)) => {
                ensure!(may_refuse, "{}: refused although the storage has room", say());
                cx.outcome(2);
                return Ok(());
            }
            Ok(Ok(c)) => c,
        };
        cx.outcome(3);
        let p = c.promises();
        ensure!(p.len() == needed.len(), "{}: {} buffers are there to be filled, not {}", say(), p.len(), needed.len());
        for (i, ((role, len, room), need)) in p.iter().zip(&needed).enumerate() {
            let enough = match need {
                Need::Items(m) => *room >= len + m,
                Need::Bits(m) => room.saturating_mul(8) >= *m,
            };
            ensure!(enough, "{}: buffer {i} ({role:?}) of {len} has room for {room}, but {need:?} may come", say());
        }
        let rows: Vec<T> = ways_first::<T>(4.min(n));
        let (r, g) = grown(|| no_panic("adding", || if fallible { c.try_extend(rows.clone()) } else { c.extend(rows.clone()); Ok(()) }));
        ensure!(r?.is_ok(), "{}: adding 4 rows: allocation error", say());
        ensure!(g == 0, "{}: adding 4 rows made the storage grow", say());
        model.extend(vals(&rows));
        decoded(&c, &model).ctx(say)
    }
}
fn ways_first<T: Item>(n: usize) -> Vec<T> {
    items(&filling(&T::ty(), n, Spread::OneEach, Nulls::Odd))
}

fn main() {
    mc::engine::main("C19", |tier, c| {
        c.bound("from every start (default, capacity, collected, extended, raw parts with offsets, surplus and spare bytes) and up to 1 (thorough: 2) further operations: reserve n, fallibly or not, then add n rows in every way (5 spreads of list elements, 3 null patterns, 4 splits, fallible or not, 8 kinds of size hints in turn); with_capacity 0..=34 (131) and 1023..2050; n up to 65 (130)");
        c.bound("every length 0..=17 (26), bit offset 0..=8 and number of further rows 0..=24 (72)");
        c.bound("room for 4097 and 65 537 rows (thorough 6 lengths to 131 073), by capacity or reservation from 3 starts, used up in every way by whole, halved and gapped batches");
        c.bound("room for 1, 2 and 9 (thorough up to 17) fixed-size rows of 31 to 1030 items (9 shapes)");
        c.bound("reservations and capacities around every power of two from 2^31 to 2^64, divided by every item count of the shape, from every start, in storage that promises room without having it, and then 4 rows");
        c.assume("a request for 2^48 items or bits of one buffer or more may be refused");
        c.assume("the system allocator is observed through the global allocator; one of the two storages reserves exactly what it is asked to");
        macro_rules! v {
            ($t:ty) => {
                c.job(concat!("reserve/", stringify!($t)), reserved::<$t, Array<$t, PanicBuffer>>(tier));
                c.job(concat!("capacity/", stringify!($t)), with_capacity::<$t, Array<$t, PanicBuffer>>(tier));
            };
        }
        mc::shapes_core!(v);
        macro_rules! h {
            ($t:ty) => {
                c.job(concat!("huge/", stringify!($t)), huge::<$t, Array<$t, PanicBuffer>>(tier));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), rooms::<$t, Array<$t, PanicBuffer>>(tier.pick(&[1, 2, 9], &[0, 1, 2, 3, 8, 9, 17])));
            };
        }
        mc::shapes_wide!(wide);
        macro_rules! pledge {
            ($t:ty) => {
                c.job(concat!("pledge/", stringify!($t)), pledged::<$t, Array<$t, PledgeBuffer>>(tier));
            };
        }
        mc::shapes_core!(pledge);
        mc::shapes_deep!(pledge);
        mc::shapes_core!(h);
        mc::shapes_deep!(v);
        macro_rules! s {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("aligned/", stringify!($t)), aligned::<$t, Array<$t, PanicBuffer>>(tier));
                c.job(concat!("vec/reserve/", stringify!($t)), reserved::<$t, Arr<$t>>(tier));
                c.job(concat!("vec/capacity/", stringify!($t)), with_capacity::<$t, Arr<$t>>(tier));
            )*};
        }
        s!(bool, u8, Option<bool>, Option<u8>, [bool; 3], Option<[u8; 2]>, [Option<bool>; 3], Vec<bool>, Vec<u16>, Option<Vec<Option<bool>>>);
        macro_rules! l {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("large/reserve/", stringify!($t)), reserved::<Vec<$t>, Large<$t>>(tier));
                c.job(concat!("large/capacity/", stringify!($t)), with_capacity::<Vec<$t>, Large<$t>>(tier));
                c.job(concat!("large?/reserve/", stringify!($t)), reserved::<Option<Vec<$t>>, LargeNull<$t>>(tier));
                c.job(concat!("large?/capacity/", stringify!($t)), with_capacity::<Option<Vec<$t>>, LargeNull<$t>>(tier));
            )*};
        }
        l!(bool, Option<u8>);
    });
}
