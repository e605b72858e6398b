//! C20: borrowed views of nested rows are faithful and self-contained.
use mc::engine::*;
use mc::hist::{dirts, start_rows, Column, Large, LargeNull, Start, start, starts};
use mc::items::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::*;
use narrow::collection::owned::IntoOwned;
use narrow::collection::view::AsView;
use narrow::collection::Collection;
use narrow::layout::ArrayItem;
use narrow::length::Length;
use narrow::offset::OffsetView;
use std::sync::OnceLock;

/// Raw parts in any storage: every view of every row, recursively.
fn raw<T: Item, S: Home + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let states: OnceLock<Vec<(Vec<Val>, Phys)>> = OnceLock::new();
    move |cx| {
        let states = states.get_or_init(|| {
            let mut v: Vec<(Vec<Val>, Phys)> = vec![];
            let mut all = start_rows::<T>(tier);
            // every sample row next to every other position of a byte
            all.push((0..tier.pick(35, 131)).map(|k| sample_val(&T::ty(), k + 11)).collect());
            let a = alphabet(&T::ty(), true);
            all.push(a.clone());
            all.push(a.into_iter().rev().collect());
            all.extend(long_lists(&T::ty(), tier));
            for rows in all {
                for d in dirts() {
                    let p = Phys::encode(&T::ty(), &rows, &d);
                    if !v.iter().any(|s| s.1 == p) {
                        v.push((rows.clone(), p));
                    }
                }
            }
            v
        });
        let (rows, p) = cx.pick(states);
        cx.note(|| format!("{p:?}"));
        cx.state(hash_of(p));
        cx.steps(rows.len() as u64);
        let r = match from_phys::<T, S>(p) {
            Ok(a) => views_of(&a, rows),
            // the contents do not fit the fixed-size storage
            Err(e) if e.contains("does not fit") => Ok(()),
            Err(e) => violation(format!("consistent raw parts refused: {e}")),
        };
        leak::free();
        r.ctx(|| format!("{p:?}"))
    }
}
/// Columns and lists with more elements than fit 16 bits.
fn huge<T: Item, S: Home + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    move |cx| {
        let ty = T::ty();
        let n = *cx.pick(tier.pick(&[65_537][..], &[4097, 65_535, 65_536, 65_537, 131_073]));
        let level = cx.choose(list_levels(&ty) + 1);
        let d = dirts()[[0, 4, 7][cx.choose(3)]];
        cx.note(|| format!("{n} rows or elements at level {level}, {d:?}"));
        cx.state(hash_of(&format!("{n} {level} {d:?}")));
        cx.steps(n as u64);
        let rows: Vec<Val> = if level == 0 {
            (0..n).map(|k| sample_val(&ty, k)).collect()
        } else {
            vec![sample_val(&ty, 3), sized_val(&ty, level - 1, n, 1), sample_val(&ty, 4), sized_val(&ty, level - 1, 9, 2)]
        };
        let r = match from_phys::<T, S>(&Phys::encode(&ty, &rows, &d)) {
            Ok(a) => views_of(&a, &rows),
            Err(e) => violation(format!("consistent raw parts refused: {e}")),
        };
        leak::free();
        r.ctx(|| format!("{n} rows or elements at level {level}, {d:?}"))
    }
}
/// Views by index, views by iteration, views kept while others are made.
fn views_of<T: Item, S: Buffer + 'static>(a: &Array<T, S>, rows: &[Val]) -> R {
    check_every_index(a, rows)?;
    no_panic("reading the views of an iteration", || {
        let kept: Vec<_> = a.iter_views().collect();
        ensure!(kept.len() == rows.len(), "iteration gives {} views of {} rows", kept.len(), rows.len());
        // the same copies are read twice, in both orders
        for (i, v) in kept.iter().enumerate().rev() {
            T::deep_view::<S>(*v, &rows[i]).ctx(|| format!("iterated view of row {i}"))?;
        }
        for (i, v) in kept.into_iter().enumerate() {
            let o: T = v.into_owned();
            ensure!(o.val() == rows[i], "iterated view of row {i} becomes {:?}, expected {:?}", o.val(), rows[i]);
        }
        Ok(())
    })?
}

/// All row lists over the alphabet, collected and grown.
fn built<T: Item>(tier: Tier) -> impl Fn(&mut Ctx) -> R
where
    Arr<T>: Column<T>,
{
    let alpha = T::alphabet(true);
    let len = tier.pick(4, 6);
    move |cx| {
        let n = cx.choose(len + 1);
        let rows: Vec<T> = (0..n).map(|_| cx.pick(&alpha).clone()).collect();
        let model = vals(&rows);
        let at = cx.choose(n + 1);
        cx.note(|| format!("{model:?}, collected up to {at}"));
        cx.state(hash_of(&(&model, at)));
        cx.steps(n as u64);
        let mut a: Arr<T> = rows[..at].iter().cloned().collect();
        a.extend(rows[at..].iter().cloned());
        views_of(&a, &model).ctx(|| format!("{model:?}"))
    }
}

/// Arrays after every start state and one truncation and extension: views never reach what was cut.
fn changed<T: Item, C: Column<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync
where
    T: Send + Sync,
{
    let ss: OnceLock<Vec<Start<T>>> = OnceLock::new();
    move |cx| {
        let ss = ss.get_or_init(|| starts::<T>(tier));
        let s = cx.pick(ss).clone();
        let (mut c, mut m): (C, Vec<Val>) = start(&s)?;
        let cut = [usize::MAX, 1, 2, 8][cx.choose(4)];
        let add = [0, 1, 3][cx.choose(3)];
        let more: Vec<T> = (0..add).map(|k| T::nth(k + 400)).collect();
        let what = || format!("{s:?}, truncate {cut}, extend by {add}");
        cx.note(what);
        cx.state(hash_of(&(what(), &m)));
        cx.steps(m.len() as u64);
        no_panic("truncating and extending", || {
            if cut != usize::MAX {
                c.truncate(cut);
                m.truncate(cut);
            }
            m.extend(vals(&more));
            c.extend(more);
        })?;
        mc::reads::check_reads(&c, &m).ctx(what)
    }
}

/// Whether a view equals another view or collection, both ways it can be asked.
fn verdict(got: R<(bool, bool)>, want: bool, what: impl Fn() -> String) -> R {
    let (e, n) = got?;
    ensure!(e == want, "{} compare {}", what(), if e { "equal" } else { "unequal" });
    ensure!(n != want, "{}: == gives {e} and != gives {n}", what());
    Ok(())
}
macro_rules! eq_check {
    ($t:ty, $a:expr, $b:expr, $want:expr, $what:expr) => {
        // the other type cannot be inferred
        verdict(no_panic("comparing", || (<_ as PartialEq<$t>>::eq(&$a, &$b), <_ as PartialEq<$t>>::ne(&$a, &$b))), $want, $what)
    };
}

/// Row lists in which equality can go wrong: shared prefixes, single differences at every position
/// near a byte boundary, different lengths.
fn eq_rows<T: Item>(tier: Tier) -> Vec<Vec<T>> {
    let a = T::alphabet(true);
    let mut v: Vec<Vec<T>> = vec![];
    let len = if a.len() <= 3 { tier.pick(3, 5) } else { tier.pick(2, 3) };
    let mut layer: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..=len {
        v.extend(layer.iter().cloned());
        layer = layer
            .iter()
            .flat_map(|l| {
                a.iter().map(move |x| {
                    let mut l = l.clone();
                    l.push(x.clone());
                    l
                })
            })
            .collect();
    }
    for n in [7_usize, 8, 9, 64, 65, 1025] {
        let base = vec![a[0].clone(); n];
        v.push(base.clone());
        for p in [0, n / 2, n - 1] {
            let mut b = base.clone();
            b[p] = a[1 % a.len()].clone();
            v.push(b);
        }
    }
    v
}

/// Every row against every row: list views of two columns with different storages, offsets, dirt
/// and row positions, and the collections a row can be written as.
macro_rules! eq_job {
    ($c:ident, $tier:ident, $e:ty, $sa:ty, $sb:ty) => {
        $c.job(concat!("eq/", stringify!($e), "/", stringify!($sa), "/", stringify!($sb)), {
            let rows: OnceLock<Vec<Vec<$e>>> = OnceLock::new();
            move |cx: &mut Ctx| {
                let rows = rows.get_or_init(|| eq_rows::<$e>($tier));
                let n = rows.len();
                let turn = cx.choose($tier.pick(4, 8)) * (n / 8 + 1);
                let ds = dirts();
                let da = *cx.pick(&ds);
                let db = *cx.pick(&ds);
                cx.note(|| format!("{n} rows, turned by {turn}, {da:?}, {db:?}"));
                cx.state(hash_of(&format!("{turn} {da:?} {db:?}")));
                cx.steps((n * n) as u64);
                type Row = Vec<$e>;
                type VA<'a> = OffsetView<'a, <$e as ArrayItem>::Memory<$sa>, i32, $sa, Vec<$e>>;
                type VB<'a> = OffsetView<'a, <$e as ArrayItem>::Memory<$sb>, i32, $sb, Vec<$e>>;
                type VL<'a> = OffsetView<'a, <$e as ArrayItem>::Memory<VecBuffer>, i64, VecBuffer, Vec<$e>>;
                let ty = <Row as Item>::ty();
                let ra: Vec<Vec<$e>> = rows.clone();
                let rb: Vec<Vec<$e>> = (0..n).map(|i| rows[(i + turn) % n].clone()).collect();
                let (ra, rb) = (&ra, &rb);
                // borrowed slices and views can be compared only if they are borrowed for ever
                let sb: Vec<&'static [$e]> = rb.iter().map(|r| leak::slice(r.clone())).collect();
                let sa: &'static [Vec<$e>] = leak::slice(ra.clone());
                let enc = |r: &[Vec<$e>], d: &Dirt| Phys::encode(&ty, &vals(r), d);
                let made = (
                    from_phys::<Row, $sa>(&enc(ra, &da)),
                    from_phys::<Row, $sb>(&enc(rb, &db)),
                    <Large<$e> as Column<Row>>::from_phys(&enc(rb, &da)),
                );
                let (a, b, l) = match made {
                    (Ok(a), Ok(b), Ok(l)) => (leak::one(a), leak::one(b), leak::one(l)),
                    _ => fail!("consistent raw parts refused"),
                };
                // a whole column of the elements is a collection, too
                let cols: Vec<Arr<$e>> = ra.iter().map(|r| r.iter().cloned().collect()).collect();
                let r = (|| {
                    for i in 0..n {
                        let Some(va) = a.view(i) else { fail!("row {i} is missing") };
                        let copy = va;
                        for j in 0..n {
                            let want = ra[i] == rb[j];
                            let what = |w: &'static str| move || format!("rows {:?} and {:?} ({w})", ra[i], rb[j]);
                            let Some(vb) = b.view(j) else { fail!("row {j} is missing") };
                            let Some(vl) = l.view(j) else { fail!("row {j} is missing") };
                            eq_check!(VB<'_>, va, vb, want, what("two views"))?;
                            eq_check!(VA<'_>, vb, va, want, what("two views, the other way round"))?;
                            eq_check!(VL<'_>, copy, vl, want, what("a view and a 64-bit view"))?;
                            eq_check!(VA<'_>, vl, va, want, what("a 64-bit view and a view"))?;
                            eq_check!(Row, va, rb[j], want, what("a view and a vector"))?;
                            eq_check!(&[$e], va, sb[j], want, what("a view and a slice"))?;
                            eq_check!(&[$e], vb, sa[i].as_view(), want, what("a view and the view of a vector"))?;
                            eq_check!(Arr<$e>, vb, cols[i], want, what("a view and an array"))?;
                            let own = ra[i] == ra[j];
                            let Some(v2) = a.view(j) else { fail!("row {j} is missing") };
                            eq_check!(VA<'_>, va, v2, own, || format!("rows {:?} and {:?} of one array", ra[i], ra[j]))?;
                        }
                    }
                    Ok(())
                })();
                leak::free();
                r
            }
        });
    };
}

/// Views of fixed-size rows expose their elements for comparison.
macro_rules! eq_fixed {
    ($c:ident, $tier:ident, $e:ty, $n:literal) => {
        $c.job(concat!("eq-fixed/", stringify!($e), "/", stringify!($n)), {
            move |cx: &mut Ctx| {
                type Row = [$e; $n];
                let a = <$e as Item>::alphabet(false);
                let mut rows: Vec<Row> = vec![];
                let k = a.len().pow($n as u32);
                for x in 0..k {
                    let mut y = x;
                    rows.push(std::array::from_fn(|_| {
                        let e = a[y % a.len()].clone();
                        y /= a.len();
                        e
                    }));
                }
                let ds = dirts();
                let da = *cx.pick(&ds);
                let db = *cx.pick(&ds);
                cx.note(|| format!("{k} rows, {da:?}, {db:?}"));
                cx.state(hash_of(&format!("{da:?} {db:?}")));
                cx.steps((k * k) as u64);
                let enc = |d: &Dirt| Phys::encode(&<Row as Item>::ty(), &vals(&rows), d);
                let (x, y) = match (from_phys::<Row, VecBuffer>(&enc(&da)), from_phys::<Row, ArcBuffer>(&enc(&db))) {
                    (Ok(x), Ok(y)) => (leak::one(x), leak::one(y)),
                    _ => fail!("consistent raw parts refused"),
                };
                let r = (|| {
                for i in 0..k {
                    for j in 0..k {
                        let (Some(v), Some(w)) = (x.view(i), y.view(j)) else { fail!("rows are missing") };
                        let want = rows[i] == rows[j];
                        eq_check!(_, *v, *w, want, || format!("rows {:?} and {:?}", rows[i], rows[j]))?;
                        eq_check!(_, *v, rows[j], want, || format!("rows {:?} and {:?} itself", rows[i], rows[j]))?;
                    }
                }
                Ok(())
                })();
                leak::free();
                r
            }
        });
    };
}

/// Lists of lists: equality descends.
macro_rules! eq_nested {
    ($c:ident, $tier:ident, $e:ty, $sa:ty, $sb:ty) => {
        $c.job(concat!("eq-nested/", stringify!($e), "/", stringify!($sa), "/", stringify!($sb)), {
            move |cx: &mut Ctx| {
                type Row = Vec<Vec<$e>>;
                type VA<'a> = OffsetView<'a, <$e as ArrayItem>::Memory<$sa>, i32, $sa, Vec<$e>>;
                type VB<'a> = OffsetView<'a, <$e as ArrayItem>::Memory<$sb>, i32, $sb, Vec<$e>>;
                let a = <$e as Item>::alphabet(false);
                let inner: Vec<Vec<$e>> = vec![vec![], vec![a[0].clone()], vec![a[1].clone()], vec![a[0].clone(), a[1].clone()]];
                let mut rows: Vec<Row> = vec![vec![]];
                for x in &inner {
                    rows.push(vec![x.clone()]);
                    for y in &inner {
                        rows.push(vec![x.clone(), y.clone()]);
                    }
                }
                rows.push(vec![vec![], vec![], vec![]]);
                let ds = dirts();
                let da = *cx.pick(&ds);
                let db = *cx.pick(&ds);
                let n = rows.len();
                cx.note(|| format!("{n} rows, {da:?}, {db:?}"));
                cx.state(hash_of(&format!("{da:?} {db:?}")));
                cx.steps((n * n) as u64);
                let enc = |d: &Dirt| Phys::encode(&<Row as Item>::ty(), &vals(&rows), d);
                let (x, y) = match (from_phys::<Row, $sa>(&enc(&da)), from_phys::<Row, $sb>(&enc(&db))) {
                    (Ok(x), Ok(y)) => (leak::one(x), leak::one(y)),
                    _ => fail!("consistent raw parts refused"),
                };
                let r = (|| {
                    for i in 0..n {
                        for j in 0..n {
                            let (Some(v), Some(w)) = (x.view(i), y.view(j)) else { fail!("rows are missing") };
                            let (v, w) = (leak::one(v), leak::one(w));
                            let want = rows[i] == rows[j];
                            // element by element: views of lists inside views of lists
                            let same = v.len() == w.len()
                                && (0..v.len()).all(|k| match (v.view(k), w.view(k)) {
                                    (Some(p), Some(q)) => <_ as PartialEq<VB<'_>>>::eq(&p, &q) && <_ as PartialEq<VA<'_>>>::eq(&q, &p),
                                    _ => false,
                                });
                            ensure!(same == want, "elements of rows {:?} and {:?} compare {same}", rows[i], rows[j]);
                            
                        }
                    }
                    Ok(())
                })();
                leak::free();
                r
            }
        });
    };
}
fn main() {
    mc::engine::main("C20", |tier, c| {
        c.bound("every view of every row, and of every row inside, of the start states of the history checks (8 kinds of dirt) and of long rows (lists of 65 to 1026, thorough 0 to 2050, elements at every level of nesting), in six storages; through every index from 0 to beyond the end and about 110 far ones, iteration, consuming iteration, copies, clones and conversion");
        c.bound("columns of 65 537 rows and rows of 65 537 elements (thorough 5 sizes to 131 073) at every level of nesting, under 3 kinds of dirt");
        c.bound("all row lists of up to 4 (thorough 6) rows over the rich alphabets, split between collecting and extending at every point");
        c.bound("equality: all pairs of about 50 rows (all short ones, single differences in rows of 7 to 1025 elements) in two columns with different dirt, storage, offset width and row position, and against vectors, slices, views of vectors and arrays");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes), under 8 kinds of dirt");
        c.assume("elements whose views have no equality of their own (optional lists, fixed-size lists in lists) are compared element by element only");
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("vec/", stringify!($t)), raw::<$t, VecBuffer>(tier));
                c.job(concat!("slice/", stringify!($t)), raw::<$t, SliceBuffer<'static>>(tier));
                c.job(concat!("built/", stringify!($t)), built::<$t>(tier));
            };
        }
        mc::shapes_core!(j);
        mc::shapes_deep!(j);
        macro_rules! h {
            ($t:ty) => {
                c.job(concat!("huge/", stringify!($t)), huge::<$t, SliceBuffer<'static>>(tier));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), raw::<$t, VecBuffer>(tier));
            };
        }
        mc::shapes_wide!(wide);
        mc::shapes_lists!(h);
        c.bound("views of lists of more than 2^31 and 2^32 elements at first positions beyond 2^31 and 2^32, of elements in no memory: reads around 2^31, 2^32, 2^33 and the ends, equality with collections of other lengths");
        c.job("vast/lists/i32", mc::vast::lists::<i32>());
        c.job("vast/lists/i64", mc::vast::lists::<i64>());
        j!(Vec<f64>); j!(Vec<u128>); j!(Vec<Option<i32>>); j!([f32; 3]);
        macro_rules! s {
            ($t:ty) => {
                c.job(concat!("box/", stringify!($t)), raw::<$t, BoxBuffer>(tier));
                c.job(concat!("rc/", stringify!($t)), raw::<$t, RcBuffer>(tier));
                c.job(concat!("arc/", stringify!($t)), raw::<$t, ArcBuffer>(tier));
            };
        }
        s!([bool; 3]); s!(Option<[Option<bool>; 3]>); s!(Vec<bool>); s!(Vec<Option<u8>>); s!(Option<Vec<Option<bool>>>);
        s!(Vec<Vec<u8>>); s!(Option<Vec<Option<Vec<Option<u8>>>>>); s!([Option<Vec<bool>>; 3]); s!(Vec<[bool; 3]>);
        // fixed arrays hold bitmaps of any length, and nothing else
        c.job("fixed/[bool;3]", raw::<[bool; 3], ArrayBuffer<24>>(tier));
        c.job("fixed/Option<[Option<bool>;3]>", raw::<Option<[Option<bool>; 3]>, ArrayBuffer<24>>(tier));
        c.job("i64/Vec<Option<bool>>", changed::<Vec<Option<bool>>, Large<Option<bool>>>(tier));
        c.job("i64/Vec<Vec<u8>>", changed::<Vec<Vec<u8>>, Large<Vec<u8>>>(tier));
        c.job("i64/Option<Vec<u8>>", changed::<Option<Vec<u8>>, LargeNull<u8>>(tier));
        macro_rules! ch {
            ($t:ty) => {
                c.job(concat!("changed/", stringify!($t)), changed::<$t, Arr<$t>>(tier));
            };
        }
        ch!(Vec<bool>); ch!(Option<Vec<Option<u8>>>); ch!([Vec<u8>; 2]); ch!(Vec<[bool; 3]>);
        eq_job!(c, tier, bool, VecBuffer, VecBuffer);
        eq_job!(c, tier, bool, ArcBuffer, SliceBuffer<'static>);
        eq_job!(c, tier, u8, VecBuffer, RcBuffer);
        eq_job!(c, tier, i64, BoxBuffer, VecBuffer);
        eq_job!(c, tier, f64, VecBuffer, ArcBuffer);
        eq_job!(c, tier, Option<bool>, VecBuffer, VecBuffer);
        eq_job!(c, tier, Option<bool>, SliceBuffer<'static>, BoxBuffer);
        eq_job!(c, tier, Option<u16>, RcBuffer, VecBuffer);
        eq_fixed!(c, tier, bool, 3);
        eq_fixed!(c, tier, Option<u8>, 2);
        eq_nested!(c, tier, bool, VecBuffer, VecBuffer);
        eq_nested!(c, tier, Option<u8>, VecBuffer, ArcBuffer);
    });
}
