//! C21: the choice of backing storage never changes what an array means.
use mc::alloc::*;
use mc::engine::*;
use mc::ffi::*;
use mc::hist::{dirts, start_rows};
use mc::items::*;
use mc::reads::{check_drained, check_into, check_reads, drain_points, DRAINS};
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::*;
use narrow::collection::flatten::Flatten;
use narrow::collection::{ChildRef, Collection, CollectionRealloc};
use narrow::layout::boolean::Boolean;
use narrow::validity::Validity;
use narrow_ffi::Export;
use std::fmt::Debug;
use std::sync::OnceLock;

/// What an array shows besides its rows: everything here must be the same in every storage.
type Seen = Vec<String>;

/// Size hints along both iterations.
fn iteration<T: Item, S: Home>(a: Array<T, S>, seen: &mut Seen) -> R {
    no_panic("iterating", || {
        let mut it = a.iter_views();
        loop {
            seen.push(format!("borrowed iteration announces {:?}", it.size_hint()));
            if it.next().is_none() {
                break;
            }
        }
        drop(it);
        let mut it = a.into_iter_owned();
        loop {
            seen.push(format!("consuming iteration announces {:?}, {}", it.size_hint(), it.len()));
            if it.next().is_none() {
                break;
            }
        }
    })
}

/// Everything observable of one array against the reference model; what the model leaves open is
/// written down.
fn observe<T: Item, S: Home + 'static>(p: &Phys, model: &[Val]) -> R<Seen> {
    let made = || from_phys::<T, S>(p);
    let make = || match made() {
        Ok(a) => Ok(a),
        Err(e) => violation(format!("consistent raw parts refused: {e}")),
    };
    let mut seen = vec![];
    let a = make()?;
    check_every_index(&a, model)?;
    check_reads(&a, model)?;
    no_panic("null queries", || T::check_nulls::<S>(a.buffer_ref()))??;
    let got = phys(&a);
    ensure!(got == *p, "raw parts are {got:?}, given {p:?}");
    let b = match T::rewrap::<S>(a.into_buffer()) {
        Ok(m) => Array::<T, S>::from_buffer(m),
        Err(e) => fail!("{e}"),
    };
    let again = phys(&b);
    ensure!(again == *p, "unwrapped and rewrapped parts are {again:?}, given {p:?}");
    check_reads(&b, model)?;
    check_into(b, model)?;
    let huge = model.len() > 65_000;
    if huge {
        // its announcements are C12's business
        for way in [0, 2, 5] {
            check_drained(make()?, model, way == 5, 1, way)?;
        }
        return Ok(seen);
    }
    iteration(make()?, &mut seen)?;
    let points = if model.len() > 20 { vec![1] } else { drain_points(model.len()) };
    for taken in points {
        for way in 0..DRAINS.len() {
            for borrowed in [false, true] {
                check_drained(make()?, model, borrowed, taken, way)?;
            }
        }
    }
    Ok(seen)
}

/// What an export shows besides the rows.
fn describe(a: &CArray, s: &CSchema, seen: &mut Seen) {
    for a in all_arrays(a) {
        seen.push(format!(
            "array: length {}, nulls {}, offset {}, buffers {}, children {}, dictionary {}",
            a.length, a.null_count, a.offset, a.n_buffers, a.n_children, !a.dictionary.is_null()
        ));
    }
    for s in all_schemas(s) {
        let text = |p: *const std::ffi::c_char| {
            // SAFETY: exported strings are terminated and live until the release.
            (!p.is_null()).then(|| unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned())
        };
        seen.push(format!(
            "schema: format {:?}, name {:?}, metadata {}, flags {}, children {}, dictionary {}",
            text(s.format), text(s.name), !s.metadata.is_null(), s.flags, s.n_children, !s.dictionary.is_null()
        ));
    }
}
fn export_seen<T: Item, S: Home + 'static>(p: &Phys, model: &[Val]) -> R<Seen>
where
    Array<T, S>: Export,
{
    let a = match from_phys::<T, S>(p) {
        Ok(a) => a,
        Err(e) => fail!("consistent raw parts refused: {e}"),
    };
    let mut seen = vec![];
    match no_panic("export", || a.export())? {
        Ok((a, s)) => {
            let (mut a, mut s) = (take_array(a), take_schema(s));
            let r = check_exported(&T::ty(), &a, &s, model);
            describe(&a, &s, &mut seen);
            a.release();
            s.release();
            r?;
        }
        Err(e) => seen.push(format!("refused: {e:?}")),
    }
    Ok(seen)
}

fn states<T: Item>(tier: Tier) -> Vec<(Vec<Val>, Phys)> {
    let mut v: Vec<(Vec<Val>, Phys)> = vec![];
    let mut lists = start_rows::<T>(tier);
    let a = alphabet(&T::ty(), true);
    lists.push(a.clone());
    // all short lists
    for x in &a {
        lists.push(vec![x.clone()]);
        for y in &a {
            lists.push(vec![x.clone(), y.clone()]);
            if tier.thorough() {
                lists.extend(a.iter().map(|z| vec![x.clone(), y.clone(), z.clone()]));
            }
        }
    }
    for n in [63_usize, 65, 1025] {
        lists.push((0..n).map(|k| sample_val(&T::ty(), k + 5)).collect());
    }
    lists.push((0..65_537).map(|k| sample_val(&T::ty(), k + 5)).collect());
    if width(&T::ty()) > 30 {
        lists.retain(|l| l.len() <= if width(&T::ty()) > 300 { 9 } else { 65 });
    }
    for rows in lists {
        for (i, d) in dirts().into_iter().enumerate() {
            // few of the largest
            if rows.len() > 65_536 && (T::ty().base().child().is_some_and(|c| c.base().child().is_some()) || i % 6 != 1) {
                continue;
            }
            let p = Phys::encode(&T::ty(), &rows, &d);
            if !v.iter().any(|s| s.1 == p) {
                v.push((rows.clone(), p));
            }
        }
    }
    v
}

macro_rules! storages {
    ($f:ident, $t:ty) => {
        [
            ("Vec", $f::<$t, VecBuffer> as fn(&Phys, &[Val]) -> R<Seen>),
            ("Box", $f::<$t, BoxBuffer>),
            ("Rc", $f::<$t, RcBuffer>),
            ("Arc", $f::<$t, ArcBuffer>),
            ("slice", $f::<$t, SliceBuffer<'static>>),
        ]
    };
}

fn compare<T: Item>(
    tier: Tier,
    all: impl Fn() -> Vec<(&'static str, fn(&Phys, &[Val]) -> R<Seen>)> + Send + Sync,
) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let table: OnceLock<Vec<(Vec<Val>, Phys)>> = OnceLock::new();
    move |cx| {
        let table = table.get_or_init(|| states::<T>(tier));
        let (rows, p) = cx.pick(table);
        let what = || if rows.len() < 20 { format!("{p:?}") } else { format!("{} rows, {:x}", rows.len(), hash_of(p)) };
        cx.note(what);
        cx.state(hash_of(p));
        let mut first: Option<Seen> = None;
        for (name, f) in all() {
            cx.steps(rows.len() as u64);
            let seen = f(p, rows).ctx(|| format!("{name} storage, {}", what()))?;
            leak::free();
            match &first {
                None => first = Some(seen),
                Some(v) => {
                    for (x, y) in v.iter().zip(&seen) {
                        ensure!(x == y, "Vec storage: {x}; {name} storage: {y}; {}", what());
                    }
                    ensure!(v.len() == seen.len(), "Vec storage shows {}, {name} storage {}", v.len(), seen.len());
                }
            }
        }
        cx.outcome(hash_of(&first));
        Ok(())
    }
}

/// Raw parts that a fixed array of `N` items can hold: `N` values, `N` offsets, up to `N` bytes.
fn fits(p: &Phys, n: usize) -> bool {
    let bits = |b: &Bits| b.bytes.len() == n;
    p.validity.as_ref().is_none_or(|v| v.as_ref().is_none_or(bits))
        && match &p.body {
            Body::Bool(b) => bits(b),
            Body::Prim(v) => v.len() == n,
            Body::Fixed(_, c) => fits(c, n),
            Body::List(o, c) => o.len() == n && fits(c, n),
        }
}
/// Fixed arrays against vectors: every row list and every dirt that fits exactly.
fn inline<T: Item, const N: usize>(
    tier: Tier,
    fs: impl Fn() -> Vec<(&'static str, fn(&Phys, &[Val]) -> R<Seen>)> + Send + Sync,
) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let table: OnceLock<Vec<(Vec<Val>, Phys)>> = OnceLock::new();
    move |cx| {
        let table = table.get_or_init(|| {
            let a = alphabet(&T::ty(), false);
            let mut v: Vec<(Vec<Val>, Phys)> = vec![];
            let mut offer = |rows: &[Val]| {
                for off in [0, 3, 8] {
                    for extra in 0..=N {
                        for surplus in 0..=N {
                            for implicit in [false, true] {
                                let d = Dirt { off_valid: off, off_bool: off, extra, fill: 0xA5, surplus, implicit, junk: false };
                                let p = Phys::encode(&T::ty(), rows, &d);
                                if fits(&p, N) && !v.iter().any(|s| s.1 == p) {
                                    v.push((rows.to_vec(), p));
                                }
                            }
                        }
                    }
                }
            };
            let mut layer: Vec<Vec<Val>> = vec![vec![]];
            for _ in 0..=N {
                for l in &layer {
                    offer(l);
                }
                layer = layer.iter().flat_map(|l| a.iter().map(move |x| [l.clone(), vec![x.clone()]].concat())).collect();
                if layer.len() > tier.pick(600, 5000) {
                    break;
                }
            }
            for n in [0, N - 1, N, 8 * N - 3, 8 * N] {
                offer(&(0..n).map(|k| sample_val(&T::ty(), k)).collect::<Vec<_>>());
            }
            v
        });
        if table.is_empty() {
            return violation("engine: nothing fits");
        }
        let (rows, p) = cx.pick(table);
        cx.note(|| format!("{p:?}"));
        cx.state(hash_of(p));
        let mut first: Option<Seen> = None;
        for (name, f) in fs() {
            cx.steps(rows.len() as u64);
            let seen = f(p, rows).ctx(|| format!("{name} storage, {p:?}"))?;
            leak::free();
            match &first {
                None => first = Some(seen),
                Some(v) => ensure!(*v == seen, "Vec storage shows {v:?}, {name} storage {seen:?}; {p:?}"),
            }
        }
        Ok(())
    }
}

/// Clones of a collection: two copies, each with its own model, under operations on either.
#[derive(Clone, Copy, Debug)]
enum Step {
    Extend(usize, usize),
    TryExtend(usize, usize),
    Truncate(usize, usize),
    Reserve(usize),
    /// The second copy is replaced by a clone of the first, or the other way round.
    Clone(usize),
    CloneFrom(usize),
}
fn clones<T: Item, C>(
    tier: Tier,
    starts: impl Fn() -> Vec<(C, Vec<Val>)> + Send + Sync,
    raw: impl Fn(&C) -> String + Send + Sync,
) -> impl Fn(&mut Ctx) -> R
where
    C: Collection<Owned = T> + Clone + CollectionRealloc + Debug + Extend<T>,
{
    let mut steps: Vec<Step> = vec![];
    for w in 0..2 {
        steps.extend([
            Step::Extend(w, 1),
            Step::Extend(w, 3),
            Step::TryExtend(w, 2),
            Step::Truncate(w, 1),
            Step::Truncate(w, 2),
            Step::Reserve(w),
            Step::Clone(w),
            Step::CloneFrom(w),
        ]);
    }
    let depth = tier.pick(4, 6);
    move |cx| {
        let starts = starts();
        let i = cx.choose(starts.len());
        let (c, m) = &starts[i];
        let mut cs = [c.clone(), c.clone()];
        let mut ms = [m.clone(), m.clone()];
        let mut path = vec![format!("start {i} ({c:?})")];
        let look = |cs: &[C; 2], ms: &[Vec<Val>; 2], path: &[String]| -> R {
            for w in 0..2 {
                check_reads(&cs[w], &ms[w]).ctx(|| format!("copy {w} after {}", path.join(", ")))?;
            }
            Ok(())
        };
        look(&cs, &ms, &path)?;
        for k in 0..depth {
            cx.merge(hash_of(&(raw(&cs[0]), raw(&cs[1]), &ms, i)), (depth - k) as u32)?;
            let s = *cx.pick(&steps);
            path.push(format!("{s:?}"));
            cx.note(|| format!("{s:?}"));
            let rows = |w: usize, n: usize, at: usize| (0..n).map(move |j| T::nth(17 * w + at + j)).collect::<Vec<T>>();
            no_panic("an operation on a copy", || match s {
                Step::Extend(w, n) => {
                    let r = rows(w, n, ms[w].len());
                    ms[w].extend(vals(&r));
                    cs[w].extend(r);
                }
                Step::TryExtend(w, n) => {
                    let r = rows(w, n, ms[w].len());
                    ms[w].extend(vals(&r));
                    cs[w].try_extend(r).expect("memory");
                }
                Step::Truncate(w, n) => {
                    let to = ms[w].len().saturating_sub(n);
                    ms[w].truncate(to);
                    cs[w].truncate(to);
                }
                Step::Reserve(w) => cs[w].reserve(9),
                Step::Clone(w) => {
                    cs[1 - w] = cs[w].clone();
                    ms[1 - w] = ms[w].clone();
                }
                Step::CloneFrom(w) => {
                    let (a, b) = cs.split_at_mut(1);
                    if w == 0 { b[0].clone_from(&a[0]) } else { a[0].clone_from(&b[0]) }
                    ms[1 - w] = ms[w].clone();
                }
            })
            .ctx(|| path.join(", "))?;
            cx.step();
            look(&cs, &ms, &path)?;
        }
        cx.outcome(hash_of(&ms));
        let [a, b] = cs;
        check_into(a, &ms[0]).ctx(|| path.join(", "))?;
        // the other one is still there
        check_reads(&b, &ms[1]).ctx(|| path.join(", "))?;
        check_into(b, &ms[1]).ctx(|| path.join(", "))
    }
}

fn bit_starts() -> Vec<(Vec<bool>, Bits)> {
    let mut v = vec![];
    for n in [0_usize, 1, 7, 8, 9, 18] {
        for (off, extra, fill) in [(0, 0, 0), (0, 2, 0xFF), (3, 0, 0xFF), (9, 1, 0xA5)] {
            let b: Vec<bool> = (0..n).map(|k| mix(k) & 1 == 1).collect();
            v.push((b.clone(), Bits::from_bools(&b, off, extra, fill)));
        }
    }
    v
}
fn bool_vals(b: &[bool]) -> Vec<Val> {
    b.iter().map(|b| Val::Bool(*b)).collect()
}

/// Clones of bitmaps in every storage, dropped in every order, share nothing one can see.
fn bitmap_clones<S: Home + 'static>() -> impl Fn(&mut Ctx) -> R
where
    S::For<u8>: Clone,
{
    move |cx| {
        let starts = bit_starts();
        let (bools, bits) = cx.pick(&starts);
        let order = cx.choose(6);
        cx.note(|| format!("{bits:?}, dropped in order {order}"));
        cx.state(hash_of(&(bits, order)));
        window_open();
        let r = (|| {
            let a: Bitmap<S> = match bitmap_from(bits) {
                Ok(b) => b,
                Err(e) => fail!("{e}"),
            };
            let b = a.clone();
            let c = b.clone();
            exempt(|| {
                for (i, x) in [&a, &b, &c].into_iter().enumerate() {
                    let got = bits_of(x);
                    ensure!(got == *bits || S::home::<u8>(vec![], 0).is_some_and(|x| x.borrow().len() > 0), "copy {i} has parts {got:?}, expected {bits:?}");
                    check_reads(x, &bool_vals(bools)).ctx(|| format!("copy {i}"))?;
                }
                Ok(())
            })?;
            let mut left = vec![Some(a), Some(b), Some(c)];
            let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
            for (k, &i) in o.iter().enumerate() {
                cx.step();
                let Some(x) = left[i].take() else { fail!("engine") };
                if k % 2 == 0 {
                    exempt(|| check_reads(&x, &bool_vals(bools)))?;
                    drop(x);
                } else {
                    check_into(x, &exempt(|| bool_vals(bools)))?;
                }
                exempt(|| {
                    for x in left.iter().flatten() {
                        check_reads(x, &bool_vals(bools)).ctx(|| format!("after copy {i} is gone"))?;
                    }
                    Ok(())
                })?;
            }
            Ok(())
        })();
        leak::free();
        let w = window_close();
        r?;
        ensure!(w.clean(), "memory: {w:?}");
        Ok(())
    }
}
use std::borrow::Borrow;

/// Arrays that share reference-counted memory: values and validity of several arrays are clones of
/// one bitmap. Exporting, releasing or dropping one leaves the others alone.
fn sharing<S: Home + 'static>() -> impl Fn(&mut Ctx) -> R
where
    S::For<u8>: Clone,
    Boolean<narrow::nullability::NonNullable, S>: Debug,
    Array<bool, S>: Export,
    Array<Option<bool>, S>: Export,
    Array<[bool; 3], S>: Export,
{
    move |cx| {
        let n = *cx.pick(&[0_usize, 3, 6, 9, 24]);
        let off = *cx.pick(&[0_usize, 1, 8]);
        let bools: Vec<bool> = (0..n).map(|k| mix(k + 3) & 1 == 1).collect();
        let bits = Bits::from_bools(&bools, off, 1, 0xA5);
        // order in which the three arrays go, and how
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][cx.choose(6)];
        let how: Vec<usize> = (0..3).map(|_| cx.choose(3)).collect();
        cx.note(|| format!("{n} bits at {off}, order {order:?}, {how:?}"));
        cx.state(hash_of(&(n, off, order, &how)));
        let flat = bool_vals(&bools);
        let opt: Vec<Val> = bools.iter().map(|b| if *b { Val::Bool(true) } else { Val::Null }).collect();
        let triples: Vec<Val> = flat.chunks(3).map(|c| Val::List(c.to_vec())).collect();
        window_open();
        let r = (|| {
            let b: Bitmap<S> = match exempt(|| Ok::<_, String>(())).and_then(|()| bitmap_from(&bits)) {
                Ok(b) => b,
                Err(e) => fail!("{e}"),
            };
            let mut a0: Option<Array<bool, S>> = Some(Array::from_buffer(Boolean::from_buffer(b.clone())));
            let v = match Validity::try_from_parts(b.clone(), b.clone()) {
                Ok(v) => v,
                Err(e) => fail!("{e}"),
            };
            let mut a1: Option<Array<Option<bool>, S>> = Some(Array::from_buffer(Boolean::from_buffer(v)));
            let f: Flatten<Array<bool, S>, 3> = match Flatten::try_from_parts(Array::from_buffer(Boolean::from_buffer(b))) {
                Ok(f) => f,
                Err(e) => fail!("{e}"),
            };
            let mut a2: Option<Array<[bool; 3], S>> =
                Some(Array::from_buffer(narrow::layout::fixed_size_list::FixedSizeList::from_buffer(flat_memory(f))));
            let mut held: Vec<(CArray, CSchema, Ty, Vec<Val>)> = exempt(Vec::new);
            for (k, &i) in order.iter().enumerate() {
                cx.step();
                macro_rules! go {
                    ($a:ident, $t:ty, $m:expr) => {{
                        let Some(a) = $a.take() else { fail!("engine") };
                        match how[k] {
                            0 => drop(a),
                            1 => check_into(a, $m)?,
                            _ => match no_panic("export", || a.export())? {
                                Ok((x, s)) => exempt(|| held.push((take_array(x), take_schema(s), <$t as Item>::ty(), $m.clone()))),
                                Err(e) => ensure!(off != 0, "refused: {e:?}"),
                            },
                        }
                    }};
                }
                match i {
                    0 => go!(a0, bool, &flat),
                    1 => go!(a1, Option<bool>, &opt),
                    _ => go!(a2, [bool; 3], &triples),
                }
                exempt(|| {
                    if let Some(a) = &a0 {
                        check_every_index(a, &flat)?;
                    }
                    if let Some(a) = &a1 {
                        check_every_index(a, &opt)?;
                        Option::<bool>::check_nulls::<S>(a.buffer_ref())?;
                    }
                    if let Some(a) = &a2 {
                        check_every_index(a, &triples)?;
                    }
                    for (a, s, ty, m) in &held {
                        check_exported(ty, a, s, m)?;
                    }
                    Ok(())
                })?;
            }
            for (a, s, ..) in &mut held {
                s.release();
                a.release();
            }
            exempt(|| drop(held));
            Ok(())
        })();
        leak::free();
        let w = window_close();
        r?;
        ensure!(w.clean(), "memory: {w:?}");
        Ok(())
    }
}
/// The fixed-size list layout holds the child's memory.
fn flat_memory<S: Buffer>(f: Flatten<Array<bool, S>, 3>) -> Flatten<Boolean<narrow::nullability::NonNullable, S>, 3> {
    match Flatten::try_from_parts(f.into_parts().into_buffer()) {
        Ok(f) => f,
        Err(_) => unreachable!("same child"),
    }
}

fn main() {
    mc::engine::main("C21", |tier, c| {
        c.bound("every row list of up to 2 (thorough 3) rows over the rich alphabets, the start states of the history checks and 63, 65, 1025 and (but for nested items) 65 537 rows, under 8 kinds of dirt, in Vec, Box, Rc, Arc and slice storage; fixed arrays of 1, 2, 4 and 5 items with everything that fits them exactly");
        c.bound("clones of growable bitmaps and fixed-size groups: all sequences of up to 4 (thorough 6) operations on either copy; clones of bitmaps in all storages dropped in all orders; three arrays sharing one bitmap, gone in all orders and ways");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes), up to 65 rows");
        c.assume("arrays over layouts that are not Clone are shared through clones of their buffers");
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("all/", stringify!($t)), compare::<$t>(tier, || storages!(observe, $t).to_vec()));
            };
        }
        j!(u8); j!(u128); j!(f64); j!(isize); j!(Option<i32>); j!(Option<f32>); j!(narrow::fixed_size::FixedSizeArray<u8, 3>);
        mc::shapes_core!(j);
        mc::shapes_deep!(j);
        macro_rules! e {
            ($t:ty) => {
                c.job(concat!("export/", stringify!($t)), compare::<$t>(tier, || storages!(export_seen, $t).to_vec()));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), compare::<$t>(tier, || storages!(observe, $t).to_vec()));
            };
        }
        mc::shapes_wide!(wide);
        mc::shapes_ffi!(e);
        macro_rules! n {
            ($t:ty, $n:literal) => {
                c.job(concat!("inline/", stringify!($t), "/", stringify!($n)), inline::<$t, $n>(tier, || {
                    vec![("Vec", observe::<$t, VecBuffer> as fn(&Phys, &[Val]) -> R<Seen>), ("fixed", observe::<$t, ArrayBuffer<$n>>)]
                }));
                c.job(concat!("inline-export/", stringify!($t), "/", stringify!($n)), inline::<$t, $n>(tier, || {
                    vec![("Vec", export_seen::<$t, VecBuffer> as fn(&Phys, &[Val]) -> R<Seen>), ("fixed", export_seen::<$t, ArrayBuffer<$n>>)]
                }));
            };
        }
        n!(bool, 1); n!(bool, 2); n!(u8, 1); n!(i64, 4); n!(f32, 2); n!(Option<bool>, 2); n!(Option<u16>, 4); n!(Option<i8>, 1);
        n!([bool; 3], 2); n!([u16; 2], 4); n!([Option<bool>; 2], 2); n!(Option<[bool; 3]>, 2); n!(Option<[u8; 2]>, 4); n!([[u8; 2]; 2], 4);
        n!(Vec<bool>, 4); n!(Vec<u8>, 4); n!(Option<Vec<bool>>, 4); n!(Vec<Option<u8>>, 4); n!(Option<Vec<u16>>, 5); n!(Vec<[bool; 3]>, 4);
        n!(Vec<Vec<bool>>, 4); n!([Vec<u8>; 2], 5);

        c.job("clone/Bitmap", clones::<bool, Bitmap>(
            tier,
            || bit_starts().iter().map(|(b, x)| (bitmap_from::<VecBuffer>(x).expect("parts"), bool_vals(b))).collect(),
            |b| format!("{:?}", bits_of(b)),
        ));
        c.job("clone/Flatten<Bitmap,3>", clones::<[bool; 3], Flatten<Bitmap, 3>>(
            tier,
            || {
                let mut v = vec![];
                for n in [0, 3, 6, 9] {
                    for off in [0, 5] {
                        let b: Vec<bool> = (0..n).map(|k| mix(k) & 1 == 1).collect();
                        let x = bitmap_from::<VecBuffer>(&Bits::from_bools(&b, off, 1, 0xFF)).expect("parts");
                        let rows = bool_vals(&b).chunks(3).map(|c| Val::List(c.to_vec())).collect();
                        v.push((Flatten::try_from_parts(x).expect("whole groups"), rows));
                    }
                }
                v
            },
            |f| format!("{:?}", bits_of(f.child_ref())),
        ));
        c.job("clone/Flatten<Vec<u16>,2>", clones::<[u16; 2], Flatten<Vec<u16>, 2>>(
            tier,
            || {
                [0, 1, 4]
                    .iter()
                    .map(|&n| {
                        let rows: Vec<[u16; 2]> = (0..n).map(<[u16; 2]>::nth).collect();
                        (rows.iter().copied().collect(), vals(&rows))
                    })
                    .collect()
            },
            |f| format!("{:?}", f.child_ref()),
        ));
        c.job("clone/Vec<u32>", clones::<u32, Vec<u32>>(tier, || (0..3).map(|n| ((0..n).map(u32::nth).collect::<Vec<_>>(), (0..n).map(|k| u32::nth(k).val()).collect())).collect(), |v| format!("{v:?}")));
        c.job("clones/Vec", bitmap_clones::<VecBuffer>());
        c.job("clones/Box", bitmap_clones::<BoxBuffer>());
        c.job("clones/Rc", bitmap_clones::<RcBuffer>());
        c.job("clones/Arc", bitmap_clones::<ArcBuffer>());
        c.job("clones/slice", bitmap_clones::<SliceBuffer<'static>>());
        c.job("clones/fixed", bitmap_clones::<ArrayBuffer<8>>());
        c.job("sharing/Rc", sharing::<RcBuffer>());
        c.job("sharing/Arc", sharing::<ArcBuffer>());
        c.job("sharing/Vec", sharing::<VecBuffer>());
    });
}
