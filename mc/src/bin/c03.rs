//! C03: reading outside an array is always answered with nothing, never a wrong row.
use mc::engine::*;
use mc::hist::{dirts, start_rows};
use mc::items::*;
use mc::{ensure, fail};
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::*;
use narrow::collection::flatten::Flatten;
use narrow::collection::owned::IntoOwned;
use narrow::collection::{ChildRef, Collection};
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;

/// Arrays over raw parts: every start state, every index.
fn raw<T: Item, S: Home + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let mut states: Vec<(Vec<Val>, Phys)> = vec![];
    for rows in start_rows::<T>(tier).into_iter().chain(many_rows(&T::ty())) {
        for d in dirts().into_iter().skip(if rows.len() > 100 { 3 } else { 0 }).step_by(if rows.len() > 100 { 2 } else { 1 }) {
            let p = Phys::encode(&T::ty(), &rows, &d);
            if !states.iter().any(|s| s.1 == p) {
                states.push((rows.clone(), p));
            }
        }
    }
    move |cx| {
        let (rows, p) = cx.pick(&states);
        cx.note(|| format!("{p:?}"));
        cx.state(hash_of(p));
        cx.steps(rows.len() as u64 * 2 + 60);
        let r = match from_phys::<T, S>(p) {
            Ok(a) => check_every_index(&a, rows),
            // the contents do not fit the fixed-size storage
            Err(e) if e.contains("does not fit") => Ok(()),
            Err(e) => violation(format!("consistent raw parts refused: {e}")),
        };
        leak::free();
        r.ctx(|| format!("{p:?}"))
    }
}

/// More rows than a byte, a word or a chunk counts.
fn many_rows(ty: &Ty) -> Vec<Vec<Val>> {
    let mut all = long_lists(ty, Tier::Quick);
    if !is_wide(ty) {
        all.extend([257, 1025].map(|n| (0..n).map(|k| sample_val(ty, k)).collect::<Vec<_>>()));
    }
    all
}

/// Arrays built from rows: all row lists over the alphabet.
fn built<T: Item>(tier: Tier) -> impl Fn(&mut Ctx) -> R
where
    Arr<T>: Grow<T>,
{
    let alpha = T::alphabet(false);
    let len = tier.pick(3, 5);
    move |cx| {
        let n = cx.choose(len + 1);
        let rows: Vec<T> = (0..n).map(|_| cx.pick(&alpha).clone()).collect();
        let model = vals(&rows);
        cx.note(|| format!("{model:?}"));
        cx.state(hash_of(&model));
        cx.steps(n as u64 * 2 + 60);
        let a: Arr<T> = rows.into_iter().collect();
        check_every_index(&a, &model).ctx(|| format!("{model:?}"))
    }
}

/// Compositions of collections that are not arrays.
fn composed<T: Item, C: Grow<T>>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let rows = start_rows::<T>(tier);
    move |cx| {
        let m = cx.pick(&rows);
        let cut = cx.choose(2);
        cx.note(|| format!("{m:?}, {cut} more truncated"));
        cx.state(hash_of(&(m, cut)));
        let mut c: C = items::<T>(m).into_iter().collect();
        if cut > 0 {
            c.extend(std::iter::once(T::from_val(&sample_val(&T::ty(), 3))));
            c.truncate(m.len());
        }
        for i in wild_indices(m.len()) {
            cx.steps(2);
            let v = no_panic(&format!("view({i})"), || c.view(i).map(|v| IntoOwned::<T>::into_owned(v).val()))?;
            ensure!(v.as_ref() == m.get(i), "view({i}) of {m:?} is {v:?}");
            let v = no_panic(&format!("owned({i})"), || c.owned(i).map(|v| v.val()))?;
            ensure!(v.as_ref() == m.get(i), "owned({i}) of {m:?} is {v:?}");
        }
        Ok(())
    }
}

/// Null queries at every index.
fn null_queries(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(10, 20);
    move |cx| {
        let n = if cx.flag() { cx.choose(max + 1) } else { *cx.pick(&[255, 256, 257, 1025, 65_537]) };
        let off = *cx.pick(&[0, 1, 7, 8, 9]);
        let explicit = cx.flag();
        let bools: Vec<bool> = (0..n).map(|k| !explicit || mix(k) & 1 == 1).collect();
        let v: Validity<Vec<u16>> = if explicit {
            let b: Bitmap = match bitmap_from(&Bits::from_bools(&bools, off, 1, 0xFF)) {
                Ok(b) => b,
                Err(e) => fail!("{e}"),
            };
            match Validity::try_from_parts(vec![3; n], b) {
                Ok(v) => v,
                Err(e) => fail!("{e}"),
            }
        } else {
            Validity::from_collection(vec![3; n])
        };
        cx.note(|| format!("{n} rows, offset {off}, explicit {explicit}"));
        cx.state(hash_of(&(n, off, explicit)));
        for i in wild_indices(n) {
            cx.steps(3);
            let want = bools.get(i).copied();
            let got = no_panic(&format!("is_valid({i})"), || v.is_valid(i))?;
            ensure!(got == want, "is_valid({i}) of {n} rows is {got:?}, expected {want:?}");
            let got = no_panic(&format!("is_null({i})"), || v.is_null(i))?;
            ensure!(got == want.map(|b| !b), "is_null({i}) of {n} rows is {got:?}");
            let got = no_panic(&format!("view({i})"), || v.view(i))?;
            ensure!(got == want.map(|b| b.then_some(3)), "view({i}) of {n} rows is {got:?}");
        }
        Ok(())
    }
}

/// Bitmap windows that end before, at and inside the last byte.
fn bitmaps(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(20, 40);
    move |cx| {
        let (n, off) = if cx.flag() {
            (cx.choose(max + 1), cx.choose(18))
        } else {
            (*cx.pick(&[255, 256, 257, 1025, 8191, 65_536, 65_537]), *cx.pick(&[0, 3, 8, 64, 255, 256, 65_531]))
        };
        let extra = cx.choose(2);
        let bools: Vec<bool> = (0..n).map(|k| mix(k) & 1 == 1).collect();
        let b: Bitmap = match bitmap_from(&Bits::from_bools(&bools, off, extra, 0xFF)) {
            Ok(b) => b,
            Err(e) => fail!("{e}"),
        };
        cx.note(|| format!("{n} bits at {off}, {extra} more bytes"));
        cx.state(hash_of(&(n, off, extra)));
        let mut idx = wild_indices(n);
        // indices at which offset + index wraps around
        idx.extend((0..off + 3).map(|k| usize::MAX - k));
        for i in idx {
            cx.steps(1);
            let got = no_panic(&format!("view({i})"), || b.view(i))?;
            ensure!(got == bools.get(i).copied(), "view({i}) of {n} bits at {off} is {got:?}");
        }
        Ok(())
    }
}

/// Lists of either offset width; views of rows that start far into the data.
fn lists<O: Offset>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(3, 4);
    move |cx| {
        let lens: Vec<usize> = if cx.flag() {
            let n = cx.choose(max + 1);
            (0..n).map(|_| cx.choose(3)).collect()
        } else {
            // a long row between short ones
            let l = *cx.pick(&[127, 128, 255, 256, 257, 1025]);
            [vec![2, l, 1], vec![l, 0, 3], vec![1, 0, l], vec![l, l]][cx.choose(4)].clone()
        };
        let n = lens.len();
        let surplus = cx.choose(3);
        let mut offs = vec![0_usize];
        for l in &lens {
            offs.push(offs.last().unwrap() + l);
        }
        let total = *offs.last().unwrap();
        let data: Vec<u16> = (0..total + surplus).map(|k| 100 + k as u16).collect();
        cx.note(|| format!("offsets {offs:?}, {surplus} surplus"));
        cx.state(hash_of(&(&offs, surplus)));
        let o: Vec<O> = offs.iter().map(|&x| O::try_from(x).unwrap_or_default()).collect();
        let l = match Offsets::<Vec<u16>, O>::try_from_parts(data.clone(), o) {
            Ok(l) => l,
            Err(e) => fail!("consistent parts refused: {e}"),
        };
        for i in wild_indices(n) {
            cx.steps(1);
            let v = no_panic(&format!("view({i}) of {offs:?}"), || l.view(i))?;
            ensure!(v.is_some() == (i < n), "view({i}) of {n} rows is_some: {}", v.is_some());
            let Some(v) = v else { continue };
            let row = &data[offs[i]..offs[i + 1]];
            let mut idx = wild_indices(row.len());
            // indices at which start + index wraps around, or leaves the row but not the data
            idx.extend((0..total + 3).map(|k| usize::MAX - k));
            idx.extend(row.len()..total + 4);
            for j in idx {
                cx.steps(1);
                let got = no_panic(&format!("element {j} of row {i} of {offs:?}"), || v.view(j))?;
                ensure!(got == row.get(j).copied(), "element {j} of row {i} of {offs:?} is {got:?}");
                let got = no_panic(&format!("owned element {j} of row {i} of {offs:?}"), || v.owned(j))?;
                ensure!(got == row.get(j).copied(), "owned element {j} of row {i} of {offs:?} is {got:?}");
            }
        }
        ensure!(l.child_ref().len() == total + surplus, "data changed");
        Ok(())
    }
}

/// Fixed-size lists whose scaled index wraps around to a valid one.
fn flat<const N: usize>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(5, 12);
    move |cx| {
        let n = if cx.flag() || N > 10 { cx.choose(max + 1) } else { *cx.pick(&[127, 129, 257, 1025]) };
        let data: Vec<u32> = (0..n * N).map(|k| 7 + k as u32).collect();
        cx.note(|| format!("{n} rows of {N}"));
        cx.state(hash_of(&(n, N)));
        let f = match Flatten::<Vec<u32>, N>::try_from_parts(data.clone()) {
            Ok(f) => f,
            Err(e) => fail!("consistent parts refused: {e}"),
        };
        let mut idx = wild_indices(n);
        // i with i * N = k modulo the word size
        for k in 0..(n * N + 2) as u128 {
            for m in 1..(N as u128).min(40) {
                let t = (m << 64) + k;
                if t % N as u128 == 0 {
                    if let Ok(i) = usize::try_from(t / N as u128) {
                        idx.push(i);
                    }
                }
            }
        }
        for i in idx {
            cx.steps(2);
            let want = (i < n).then(|| data[i * N..(i + 1) * N].to_vec());
            let got = no_panic(&format!("view({i}) of {n} rows of {N}"), || f.view(i).map(|v| v.to_vec()))?;
            ensure!(got == want, "view({i}) of {n} rows of {N} is {got:?}");
            let got = no_panic(&format!("owned({i}) of {n} rows of {N}"), || f.owned(i).map(|v| v.to_vec()))?;
            ensure!(got == want, "owned({i}) of {n} rows of {N} is {got:?}");
        }
        Ok(())
    }
}

/// The storages themselves.
fn storages(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(9, 30);
    fn each<C: Collection<Owned = u16>>(name: &str, c: &C, want: &[u16]) -> R {
        ensure!(c.len() == want.len(), "{name}: length");
        for i in wild_indices(want.len()) {
            let got = no_panic(&format!("{name}: owned({i})"), || c.owned(i))?;
            ensure!(got == want.get(i).copied(), "{name}: owned({i}) is {got:?}");
            let got = no_panic(&format!("{name}: view({i})"), || c.view(i).is_some())?;
            ensure!(got == (i < want.len()), "{name}: view({i}) is present: {got}");
        }
        Ok(())
    }
    move |cx| {
        let n = cx.choose(max + 1);
        let v: Vec<u16> = (0..n as u16).map(|k| k * 3 + 1).collect();
        cx.state(n as u64);
        cx.steps(5);
        each("Vec", &v, &v)?;
        each("Box", &v.clone().into_boxed_slice(), &v)?;
        each::<std::rc::Rc<[u16]>>("Rc", &v.clone().into(), &v)?;
        each::<std::sync::Arc<[u16]>>("Arc", &v.clone().into(), &v)?;
        each("slice", &v.as_slice(), &v)?;
        each("array", &[5_u16, 6, 7], &[5, 6, 7])?;
        each("empty array", &[0_u16; 0], &[])
    }
}

fn main() {
    mc::engine::main("C03", |tier, c| {
        c.bound("every array over the start states (built from all row lists up to length 3, thorough 5; raw parts under 8 kinds of dirt; 257 and 1025 rows and rows that are long lists; bitmaps of up to 65537 bits at offsets up to 65531; 5 storages), recursively every view of every row");
        c.bound("indices: all of 0..len+2, the 20 largest, all powers of two used by scaling, every index whose product with the width or sum with the offset wraps around onto existing data");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes), raw parts under 8 kinds of dirt, every view of every row");
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("built/", stringify!($t)), built::<$t>(tier));
                c.job(concat!("raw/", stringify!($t)), raw::<$t, VecBuffer>(tier));
            };
        }
        mc::shapes_core!(j);
        mc::shapes_deep!(j);
        macro_rules! s {
            ($t:ty) => {
                c.job(concat!("box/", stringify!($t)), raw::<$t, BoxBuffer>(tier));
                c.job(concat!("rc/", stringify!($t)), raw::<$t, RcBuffer>(tier));
                c.job(concat!("arc/", stringify!($t)), raw::<$t, ArcBuffer>(tier));
                c.job(concat!("slice/", stringify!($t)), raw::<$t, SliceBuffer<'static>>(tier));
            };
        }
        mc::shapes_core!(s);
        macro_rules! m {
            ($t:ty, $c:ty) => {
                c.job(concat!("plain/", stringify!($c)), composed::<$t, $c>(tier));
            };
        }
        mc::compositions!(m);
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), raw::<$t, VecBuffer>(tier));
            };
        }
        mc::shapes_wide!(wide);
        c.bound("lists and fixed-size rows over more than 2^32 elements, windows of up to 2^33 bits, in no memory or in memory that is hardly touched: reads around 2^31, 2^32, 2^33 and the ends");
        c.job("vast/bits", mc::vast::bitmaps());
        c.job("vast/lists/i32", mc::vast::lists::<i32>());
        c.job("vast/lists/i64", mc::vast::lists::<i64>());
        c.job("vast/rows/1", mc::vast::rows::<1>());
        c.job("vast/rows/2", mc::vast::rows::<2>());
        c.job("vast/rows/3", mc::vast::rows::<3>());
        c.job("vast/rows/5", mc::vast::rows::<5>());
        c.job("nulls", null_queries(tier));
        c.job("bitmap", bitmaps(tier));
        c.job("offsets/i32", lists::<i32>(tier));
        c.job("offsets/i64", lists::<i64>(tier));
        c.job("flatten/1", flat::<1>(tier));
        c.job("flatten/2", flat::<2>(tier));
        c.job("flatten/3", flat::<3>(tier));
        c.job("flatten/4", flat::<4>(tier));
        c.job("flatten/6", flat::<6>(tier));
        c.job("flatten/8", flat::<8>(tier));
        c.job("flatten/10", flat::<10>(tier));
        c.job("flatten/1024", flat::<1024>(tier));
        c.job("storages", storages(tier));
    });
}
